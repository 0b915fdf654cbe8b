-------------------------------- MODULE WebTrace ---------------------------------
(* Validates recorded histories of the wrapper, one event after the other. A call:    *)
(* [k, units, bytes, name, id, plan, ev, res, html, nst, big], in which html is what     *)
(* the native library makes of the source, nst its status, lang its number of the       *)
(* language. Whatever order and number of allocations the wrapper chooses is fine.       *)
EXTENDS Web, TLC, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, c, e, live, failed, looked, called, bad
vars == <<r, c, e, live, failed, looked, called, bad>>

Init == /\ r \in DOMAIN Rec /\ c = 1 /\ e = 1 /\ live = {} /\ failed = FALSE /\ looked = -1 /\ called = 0 /\ bad = FALSE
Call == Rec[r].calls[c]
Ev == Call.ev[e]

NameBytes == Encoded(Call.name)
SourceBytes == IF Call.big = 1 THEN Call.digest ELSE IF Call.str = 1 THEN Encoded(Call.units) ELSE Call.bytes
Lang == IF Call.named = 1 THEN looked ELSE Call.id
\* the status the library has to give: a number that is none of a language's is refused
Status == IF Lang \in 1 .. 25 THEN 0 ELSE 2

Good ==
    CASE Ev.t = "a" -> Ev.p = 0 \/ (Ev.p % Ev.align = 0 /\ \A a \in live : a[1] # Ev.p)
      [] Ev.t = "n" -> TRUE
      [] Ev.t = "f" -> <<Ev.p, Ev.size, Ev.align>> \in live /\ Ev.ok = 1
      [] Ev.t = "d" -> State(Ev.p) \in live /\ Ev.ok = 1
      [] Ev.t = "g" -> /\ Call.named = 1 /\ Ev.bytes = NameBytes /\ (Ev.n = 0 \/ Within(live, Ev.p, Ev.n))
      [] Ev.t = "h" -> /\ Call.k = "html" /\ called = 0
                       /\ State(Ev.s) \in live
                       /\ Ev.n = 0 \/ Within(live, Ev.src, Ev.n)
                       /\ Ev.bytes = SourceBytes
                       /\ Ev.lang = Lang /\ Ev.flags = 0
                       /\ Ev.ntok > 0 /\ Ev.tok % Ev.talign = 0 /\ Within(live, Ev.tok, Ev.ntok * Ev.tsize)
                       /\ Ev.ntext > 0 /\ Within(live, Ev.text, Ev.ntext)
                       /\ Ev.tag = <<104, 45>> /\ Ev.attr = <<100, 97, 116, 97, 45, 104>>    \* h- data-h
                       /\ Ev.status = Status
      [] OTHER -> FALSE

Step == /\ e <= Len(Call.ev)
        /\ live' = CASE Ev.t = "a" -> IF Ev.p = 0 THEN live ELSE live \cup {<<Ev.p, Ev.size, Ev.align>>}
                     [] Ev.t = "n" -> IF Ev.p = 0 THEN live ELSE live \cup {State(Ev.p)}
                     [] Ev.t = "f" -> live \ {<<Ev.p, Ev.size, Ev.align>>}
                     [] Ev.t = "d" -> live \ {State(Ev.p)}
                     [] OTHER -> live
        /\ failed' = (failed \/ (Ev.t \in {"a", "n"} /\ Ev.p = 0))
        /\ looked' = IF Ev.t = "g" THEN Ev.id ELSE looked
        /\ called' = IF Ev.t = "h" THEN called + 1 ELSE called
        /\ e' = e + 1 /\ UNCHANGED <<r, c>>
        /\ \/ Good /\ UNCHANGED bad
           \/ ~Good /\ bad' = TRUE /\ PrintT(<<"REJECT", Rec[r].id, c, e, Ev.t>>)

\* what the user gets
Result ==
    LET x == Call.res IN
    /\ live = {}
    /\ Call.k \in {"html", "id", "display"} /\ Call.named = 1 /\ ~failed => looked = Call.lang
    /\ IF failed THEN x.t = "error" /\ x.alloc = 1 /\ called = 0
       ELSE CASE Call.k = "html" ->
                    /\ called = 1
                    /\ IF Status # 0 THEN x.t = "status" /\ x.status = Status /\ Call.logged = 1
                       ELSE IF Call.utf8 = 1 THEN x.t = "text" /\ x.b = Call.html /\ x.wf = 1
                       ELSE x.t = "error"                     \* the text is not UTF-8
              [] Call.k = "id" -> x.t = "id" /\ x.id = looked
              [] Call.k = "display" -> IF Lang = 0 THEN Call.named = 0 \/ x.t = "null"
                                       ELSE x.t = "text" /\ x.b = Call.display /\ x.wf = 1
              [] Call.k = "list" -> x.t = "list" /\ x.n = Len(Call.list) /\ x.list = Call.list
Finish == /\ e > Len(Call.ev) /\ c < Len(Rec[r].calls) + 1
          /\ \/ Result /\ UNCHANGED bad
             \/ ~Result /\ bad' = TRUE /\ PrintT(<<"REJECT", Rec[r].id, c, 0, "result">>)
          /\ c' = c + 1 /\ e' = 1 /\ live' = {} /\ failed' = FALSE /\ looked' = -1 /\ called' = 0 /\ UNCHANGED r
Next == ~bad /\ c <= Len(Rec[r].calls) /\ (Step \/ Finish)
Spec == Init /\ [][Next]_vars
================================================================================
