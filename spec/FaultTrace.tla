------------------------------ MODULE FaultTrace --------------------------------
(* Validates recorded calls under faults. Record: [id, base, calls], call:           *)
(* <<kind, index, delivered, late, status, message, live, again>>; kinds 5 and 6 are  *)
(* ulight_new with a failing and a working allocation (status: 1 = not null).          *)
EXTENDS Fault, TLC, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, c
Init == r \in DOMAIN Rec /\ c = 1
Call == Rec[r].calls[c]
Good == IF Call[1] \in {5, 6} THEN Call[5] = Call[1] - 5 /\ Call[7] = 0
        ELSE Outcome(Rec[r].base, Call[1], Call[3], Call[4], Call[5], Call[6], Call[7], Call[8])
Next == /\ c <= Len(Rec[r].calls) /\ c' = c + 1 /\ UNCHANGED r
        /\ Good \/ PrintT(<<"REJECT", Rec[r].id, Call[1], Call[2]>>)
Spec == Init /\ [][Next]_<<r, c>>
================================================================================
