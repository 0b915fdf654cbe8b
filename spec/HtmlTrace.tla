------------------------------- MODULE HtmlTrace -------------------------------
(* Validates recorded calls of ulight_source_to_html.  Each line of the trace is *)
(* [id, src, tag, attr, toks, st, ok, fl, cap, h]: the source (bytes), the names   *)
(* (bytes), the tokens that highlighting to tokens delivered for the same source,  *)
(* language, flags and token buffer, and the recorded status, flushes and text.    *)
EXTENDS Html, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES
    k,       \* the call
    ti,      \* the next token
    sp,      \* source written so far
    hp,      \* text matched so far
    fp,      \* text flushed so far
    fi,      \* next flush
    verdict
vars == <<k, ti, sp, hp, fp, fi, verdict>>

T == Traces[k]

TraceInit ==
    /\ k \in 1 .. Len(Traces)
    /\ ti = 1 /\ sp = 0 /\ hp = 0 /\ fp = 0 /\ fi = 1
    /\ verdict = "text"

Matches(piece) == hp + Len(piece) <= Len(T.h) /\ SubSeq(T.h, hp + 1, hp + Len(piece)) = piece

(* Text between tokens is written escaped, outside of elements. *)
GapEnd == IF ti <= Len(T.toks) THEN T.toks[ti][1] ELSE Len(T.src)
WriteGap ==
    /\ sp < GapEnd
    /\ LET p == Escaped(T.src, sp, GapEnd) IN Matches(p) /\ hp' = hp + Len(p)
    /\ sp' = GapEnd
    /\ UNCHANGED <<k, ti, fp, fi, verdict>>

WriteElement ==
    /\ ti <= Len(T.toks) /\ sp = T.toks[ti][1]
    /\ LET p == Element(T.src, T.tag, T.attr, T.toks[ti]) IN Matches(p) /\ hp' = hp + Len(p)
    /\ sp' = T.toks[ti][1] + T.toks[ti][2]
    /\ ti' = ti + 1
    /\ UNCHANGED <<k, fp, fi, verdict>>

EndOfText ==
    /\ ti > Len(T.toks) /\ sp = Len(T.src) /\ hp = Len(T.h)
    /\ T.st = 0 /\ T.ok = 1
    /\ verdict' = "flushes"
    /\ UNCHANGED <<k, ti, sp, hp, fp, fi>>

(* The text is handed over in full buffers, the last one excepted. *)
Flush ==
    /\ fi <= Len(T.fl)
    /\ T.fl[fi] \in 1 .. T.cap
    /\ fi < Len(T.fl) => T.fl[fi] = T.cap
    /\ fp + T.fl[fi] <= Len(T.h)
    /\ fp' = fp + T.fl[fi]
    /\ fi' = fi + 1
    /\ UNCHANGED <<k, ti, sp, hp, verdict>>

Done ==
    /\ fi > Len(T.fl) /\ fp = Len(T.h)
    /\ verdict' = "accept"
    /\ UNCHANGED <<k, ti, sp, hp, fp, fi>>

Good == \/ verdict = "text" /\ T.st # 99 /\ (WriteGap \/ WriteElement \/ EndOfText)
        \/ verdict = "flushes" /\ (Flush \/ Done)

Bad ==
    /\ verdict \in {"text", "flushes"}
    /\ ~ENABLED Good
    /\ verdict' = "reject"
    /\ PrintT(<<"REJECT", T.id, ti>>)
    /\ UNCHANGED <<k, ti, sp, hp, fp, fi>>

TraceSpec == TraceInit /\ [][Good \/ Bad]_vars

(* Invariants: how much text there is for how much source. *)
Progress == sp <= Len(T.src) /\ hp <= Len(T.h) /\ hp >= sp
================================================================================
