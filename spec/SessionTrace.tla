----------------------------- MODULE SessionTrace -----------------------------
(* Validates recorded sessions against Session.  Each line of the trace file is *)
(* one session: [n, cont, neutral, ev], ev being the list of recorded events     *)
(*   <<"B", op, flags, cap>>  <<"E", begin, length, type>>  <<"F", amount, ok>>   *)
(*   <<"R", status, intact>>  <<"H", ...>>  <<"X", ...>> (crash or hang)          *)
EXTENDS Session, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES k, e, verdict
tvars == <<vars, k, e, verdict>>

Ev == Traces[k].ev[e]
More == e <= Len(Traces[k].ev)

TraceInit ==
    /\ k \in 1 .. Len(Traces)
    /\ e = 1
    /\ verdict = "run"
    /\ Init0([n |-> Traces[k].n, cont |-> { Traces[k].cont[i] : i \in DOMAIN Traces[k].cont },
              neutral |-> Traces[k].neutral = 1])

(* A flush in the middle of a call has to be of a full buffer; the last one need not be. *)
LastFlush == e + 1 <= Len(Traces[k].ev) /\ Traces[k].ev[e + 1][1] = "R"

Matched ==
    \/ Ev[1] = "B" /\ Begin(Ev[2], Ev[3], Ev[4])
    \/ Ev[1] = "E" /\ Emit(Ev[2], Ev[3], Ev[4])
    \/ Ev[1] = "F" /\ Ev[3] = 1 /\ IF LastFlush THEN FlushLast(Ev[2]) ELSE FlushFull(Ev[2])
    \/ Ev[1] = "R" /\ Ev[3] = 1 /\ Return(Ev[2])

Step ==
    /\ verdict = "run" /\ More
    /\ Matched
    /\ e' = e + 1
    /\ UNCHANGED <<k, verdict>>

Reject ==
    /\ verdict = "run" /\ More
    /\ ~ENABLED Matched
    /\ verdict' = "reject"
    /\ PrintT(<<"REJECT", Traces[k].id, e>>)
    /\ UNCHANGED <<vars, k, e>>

Accept ==
    /\ verdict = "run" /\ ~More
    /\ verdict' = IF phase = "idle" THEN "accept" ELSE "reject"
    /\ phase # "idle" => PrintT(<<"REJECT", Traces[k].id, e>>)
    /\ UNCHANGED <<vars, k, e>>

TraceNext == Step \/ Reject \/ Accept
TraceSpec == TraceInit /\ [][TraceNext]_tvars

NotRejected == verdict # "reject"
================================================================================
