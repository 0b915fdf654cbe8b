----------------------------- MODULE RequestTrace -----------------------------
(* Validates the recorded outcome of every request against Request.              *)
EXTENDS Request, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
ASSUME { Rec[i].r : i \in DOMAIN Rec } = Requests

VARIABLES k, verdict
vars == <<k, verdict>>

Init == k \in 1 .. Len(Rec) /\ verdict = "asked"

Answer == /\ verdict = "asked" /\ Allowed(Rec[k].r, Rec[k].o)
          /\ verdict' = "allowed" /\ UNCHANGED k
Reject == /\ verdict = "asked" /\ ~Allowed(Rec[k].r, Rec[k].o)
          /\ PrintT(<<"REJECT", k, Rec[k].r, Rec[k].o>>)
          /\ verdict' = "rejected" /\ UNCHANGED k
Spec == Init /\ [][Answer \/ Reject]_vars
================================================================================
