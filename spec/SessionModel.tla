----------------------------- MODULE SessionModel -----------------------------
(* Exhaustive exploration of the design of Session: every call sequence over a  *)
(* small source, with the library choosing tokens freely in the first call and  *)
(* being bound by the promises afterwards.                                       *)
EXTENDS Session

CONSTANTS N, Caps, MaxCalls, SomeTypes
VARIABLE calls

Init == Init0([n |-> N, cont |-> {2}, neutral |-> TRUE]) /\ calls = 0

Next ==
    \/ /\ calls < MaxCalls
       /\ \E f \in {0, 1}, c \in Caps : Begin("tok", f, c)
       /\ calls' = calls + 1
    \/ /\ \/ \E b \in 0 .. N, l \in 0 .. N, ty \in SomeTypes : Emit(b, l, ty)
          \/ \E n \in 0 .. N : FlushFull(n) \/ FlushLast(n)
          \/ Return(0)
       /\ UNCHANGED calls

Spec == Init /\ [][Next]_<<vars, calls>>

(* The flush protocol makes the buffer size invisible: what has been handed over *)
(* is the prefix of `out` of the length the flushes add up to.                    *)
Delivered == Len(out) - fill
DeliveredMonotone == [][Delivered' >= Delivered \/ phase' = "idle" \/ phase = "idle"]_<<vars, calls>>

MergedIsCanonical == \A f \in DOMAIN memo :
    LET m == Merge(memo[f]) IN
    /\ Merge(m) = m
    /\ \A i \in 1 .. Len(m) - 1 : m[i][3] # m[i + 1][3] \/ m[i][1] + m[i][2] < m[i + 1][1]
    /\ \A b \in 0 .. N - 1 :
         { memo[f][i][3] : i \in { j \in DOMAIN memo[f] : b \in memo[f][j][1] .. memo[f][j][1] + memo[f][j][2] - 1 } }
       = { m[i][3] : i \in { j \in DOMAIN m : b \in m[j][1] .. m[j][1] + m[j][2] - 1 } }
================================================================================
