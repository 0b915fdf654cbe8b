------------------------------- MODULE PureTrace -------------------------------
(* Validates recorded histories against Pure. The first line holds the results of *)
(* every key in a process of its own: [base |-> << <<key, result>>, ... >>].       *)
EXTENDS Pure, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
Base == Rec[1].base
BaseMemo == [ i \in DOMAIN Base |-> Base[i] ]
MaxT == 8

VARIABLES k, e, verdict
vars == <<pvars, k, e, verdict>>
Ev == Rec[k].ev[e]
More == e <= Len(Rec[k].ev)

View == <<active, k, e, verdict>>

Init ==
    /\ k \in 2 .. Len(Rec) /\ e = 1 /\ verdict = "run"
    /\ active = [t \in 0 .. MaxT |-> <<>>]
    /\ memo = BaseMemo

Matched ==
    \/ Ev[1] = "B" /\ Begin(Ev[2], Ev[3], Ev[4])
    \/ Ev[1] = "F" /\ Deliver(Ev[2], Ev[3], Ev[4], Ev[5])
    \/ Ev[1] = "R" /\ Ev[5] = 0 /\ Ev[6] = 1 /\ Return(Ev[2], Ev[3], Ev[4])

Step == verdict = "run" /\ More /\ Matched /\ e' = e + 1 /\ UNCHANGED <<k, verdict>>
Reject == /\ verdict = "run" /\ More /\ ~ENABLED Matched
          /\ PrintT(<<"REJECT", Rec[k].id, e>>)
          /\ verdict' = "reject" /\ UNCHANGED <<pvars, k, e>>
Accept == /\ verdict = "run" /\ ~More
          /\ IF \A t \in DOMAIN active : active[t] = <<>> THEN verdict' = "accept"
             ELSE verdict' = "reject" /\ PrintT(<<"REJECT", Rec[k].id, e>>)
          /\ UNCHANGED <<pvars, k, e>>
Spec == Init /\ [][Step \/ Reject \/ Accept]_vars
================================================================================
