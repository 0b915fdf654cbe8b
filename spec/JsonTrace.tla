------------------------------- MODULE JsonTrace --------------------------------
(* Runs the JSON machine on recorded texts and compares what the parser and the      *)
(* highlighter did. Records:                                                         *)
(*  [k |-> "p", t, c (comments), n (numbers), e (escapes), ok, ev]   parse_json        *)
(*  [k |-> "h", t, c (comments highlighted), ok, tk]                   highlighting    *)
(* Each mismatch is printed with its kind: verdict, events, error, tokens.            *)
EXTENDS JsonMachine, BigNat, TLC, Json, IOUtils
U == INSTANCE Utf8
Rec == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES r, m
vars == <<r, m>>
R == Rec[r]

Init == r \in DOMAIN Rec /\ m = Start
Advance == m.v = "run" /\ m' = Step(m, R.t, R.c = 1) /\ UNCHANGED r

IsErr(x) == x[1] = "error"
Args(x) == SubSeq(x, 5, Len(x))
\* the recorded event y is the machine's event x, under the options of the recording
Same(x, y) ==
    /\ SubSeq(x, 2, 4) = SubSeq(y, 2, 4)
    /\ CASE x[1] = "number" ->
              IF R.n = 0 THEN y[1] = "number" /\ Args(y) = <<x[5]>>
              ELSE /\ y[1] = "number1" /\ y[5] = x[5]
                   /\ y[6] = (IF x[6].neg THEN 1 ELSE 0)
                   /\ Nearest(x[6].digits, x[6].ten, y[7], y[8])
         [] x[1] = "escape" ->
             (CASE R.e = 0 -> y[1] = "escape" /\ Args(y) = <<x[5]>>
                [] R.e = 1 -> y[1] = "escape1" /\ Args(y) = <<x[5], x[6]>>
                [] R.e = 2 -> /\ y[1] = "escape2" /\ SubSeq(y, 5, 6) = <<x[5], x[6]>>
                              /\ U!IsScalar(x[6]) => y[7] = U!Encode(x[6]))
         [] OTHER -> y[1] = x[1] /\ Args(y) = Args(x)
SameAll(xs, ys) == Len(xs) = Len(ys) /\ \A i \in DOMAIN xs : Same(xs[i], ys[i])

Plain(ev) == SelectSeq(ev, LAMBDA x : ~IsErr(x))
Want == Plain(m.ev)
Got == Plain(R.ev)
\* an unfinished string may or may not have reported its last run of characters
Cut(ev) == IF ev # <<>> /\ ev[Len(ev)][1] = "literal" THEN SubSeq(ev, 1, Len(ev) - 1) ELSE ev

VerdictOk == R.ok = (IF m.v = "ok" THEN 1 ELSE 0)
EventsOk == m.v = "ok" => SameAll(Want, Got)
Code == m.ev[Len(m.ev)][5]
ErrorOk ==
    LET e == {i \in DOMAIN R.ev : IsErr(R.ev[i])}
        x == m.ev[Len(m.ev)]
        y == R.ev[Len(R.ev)]
    IN IF m.v = "ok" THEN e = {}
       ELSE /\ R.ev # <<>> /\ e = {Len(R.ev)}
            /\ x[5] = y[5]
            /\ IF x[5] = UntermString
               THEN x[3] = y[3] /\ y[2] - y[4] = x[2] - x[4] /\ y[2] \in (x[2] - 1) .. Len(R.t)
               ELSE SubSeq(x, 2, 4) = SubSeq(y, 2, 4)
            /\ SameAll(Want, Got) \/ SameAll(Cut(Want), Cut(Got))

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
TokensOk == IF m.v = "ok" THEN R.tk = m.tk ELSE Prefix(m.tk, R.tk)

Say(kind, ok) == ok \/ PrintT(<<"REJECT", r, kind>>)
Finish ==
    /\ m.v \in {"ok", "bad"} /\ m' = [v |-> "done"] /\ UNCHANGED r
    /\ CASE R.k = "p" -> /\ Say("verdict", VerdictOk)
                         /\ Say("events", EventsOk)
                         /\ Say("error", ErrorOk)
         [] R.k = "h" -> Say("tokens", R.ok = 1 /\ TokensOk)
Spec == Init /\ [][Advance \/ Finish]_vars
================================================================================
