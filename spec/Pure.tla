--------------------------------- MODULE Pure ---------------------------------
(* Highlighting as a pure function: threads make (possibly nested) calls; each   *)
(* call is of a key (operation, source, language, flags), delivers its result in  *)
(* parts, and the whole result of a key is always the same.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES
    active,     \* thread -> stack of calls under way, <<key, delivered so far>>
    memo        \* key -> result, for the keys known

pvars == <<active, memo>>

IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
Top(t) == active[t][Len(active[t])]

Begin(t, d, key) ==
    /\ Len(active[t]) = d
    /\ active' = [active EXCEPT ![t] = Append(@, <<key, <<>>>>)]
    /\ UNCHANGED memo

Deliver(t, d, key, part) ==
    /\ Len(active[t]) = d + 1 /\ Top(t)[1] = key
    /\ part # <<>>
    /\ LET got == Top(t)[2] \o part IN
       /\ key \in DOMAIN memo => IsPrefix(got, memo[key])
       /\ active' = [active EXCEPT ![t][d + 1][2] = got]
    /\ UNCHANGED memo

Return(t, d, key) ==
    /\ Len(active[t]) = d + 1 /\ Top(t)[1] = key
    /\ IF key \in DOMAIN memo THEN Top(t)[2] = memo[key] /\ UNCHANGED memo
       ELSE memo' = memo @@ (key :> Top(t)[2])
    /\ active' = [active EXCEPT ![t] = SubSeq(@, 1, d)]
================================================================================
