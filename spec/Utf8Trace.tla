------------------------------- MODULE Utf8Trace --------------------------------
(* Validates recorded results of the functions of unicode.hpp and                   *)
(* unicode_algorithm.hpp. Records:                                                  *)
(*   [k |-> "s", s, e, cp, n, v, sub, pts, it, fi]   a byte string                  *)
(*   [k |-> "c", c, b]                       encoding of the scalar values c..c+n-1 *)
(*   [k |-> "b", b, l, u, lf, uf]                              what a lead byte says *)
EXTENDS Utf8, TLC, Json, IOUtils
Rec == ndJsonDeserialize(IOEnv.TRACE)

\* the single-sequence functions: [error, code point, length, with replacement: code point, length]
Single(s) ==
    LET d == Decode(s) IN
    <<Error(s), IF Error(s) = 0 THEN d[2] ELSE 0, IF Error(s) = 0 THEN d[3] ELSE 0, d[2], d[3]>>

\* predicates the searches are recorded for: c = U+FFFD, c = 0x41, c >= 128, c is even
Pred(i, c) == CASE i = 1 -> c = 65533 [] i = 2 -> c = 65 [] i = 3 -> c >= 128 [] i = 4 -> c % 2 = 0
RECURSIVE First(_, _, _, _)
First(P, i, want, j) ==
    IF j > Len(P) THEN -1 ELSE IF Pred(i, P[j][1]) = want THEN P[j][2] ELSE First(P, i, want, j + 1)
Or(x, n) == IF x = -1 THEN n ELSE x
B(x) == IF x THEN 1 ELSE 0
Search(s, P, i) ==
    LET y == First(P, i, TRUE, 1)
        n == First(P, i, FALSE, 1)
    IN <<y, n, Or(n, Len(s)), Or(y, Len(s)), B(n = -1), B(y # -1), B(y = -1), B(n # -1)>>

\* strict iteration: the code points up to the first error, then the error (or 0)
RECURSIVE Strict(_)
Strict(s) == IF s = <<>> THEN <<>>
             ELSE IF Error(s) # 0 THEN <<-Error(s)>>
             ELSE <<Decode(s)[2]>> \o Strict(SubSeq(s, Decode(s)[3] + 1, Len(s)))

SOk(r) ==
    LET P == Points(r.s, 0) IN
    /\ r.one = Single(r.s)
    /\ r.v = FirstError(r.s)
    /\ r.pts = [i \in DOMAIN P |-> P[i][1]]
    /\ r.at = [i \in DOMAIN P |-> P[i][2]]
    /\ r.it = Strict(r.s)
    /\ \A i \in 1 .. 4 : r.find[i] = Search(r.s, P, i)
    /\ r.count = (IF FirstError(r.s) = 0 THEN Len(P) ELSE -1)
    /\ r.same = 1

COk(r) == \A i \in DOMAIN r.b : r.b[i] = Encode(r.c + i - 1)
BOk(r) ==
    /\ r.l = LeadLength(r.b) /\ r.u = LeadLengthUnchecked(r.b)
    /\ r.lf = (IF LeadLength(r.b) = 0 THEN 7 ELSE LeadLength(r.b))
    /\ r.uf = (IF LeadLengthUnchecked(r.b) = 0 THEN 7 ELSE LeadLengthUnchecked(r.b))

Ok(r) == CASE r.k = "s" -> SOk(r) [] r.k = "c" -> COk(r) [] r.k = "b" -> BOk(r)

VARIABLES k, done
Init == k \in 1 .. Len(Rec) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED k
        /\ Ok(Rec[k]) \/ PrintT(<<"REJECT", k>>)
Spec == Init /\ [][Next]_<<k, done>>
================================================================================
