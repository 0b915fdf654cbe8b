------------------------------- MODULE DiffTrace --------------------------------
(* Recorded diffs: [a, b |-> the texts, f, t |-> their lines, e |-> edit script,    *)
(* c |-> size of the context, w |-> whether colored, o |-> the printed diff,         *)
(* z |-> whether an empty text has no lines (else one, which is empty)].            *)
(* The lines are those of the texts, the script turns one into the other with the   *)
(* fewest edits, and a reader of unified diffs, one line at a time, which checks     *)
(* every number and line against the texts, gets from one to the other by it.       *)
EXTENDS Diff, TLC, Json, IOUtils

Rec == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES r, k, x, h, v
vars == <<r, k, x, h, v>>
R == Rec[r]
LF == 10

(* Lines of a text. *)
RECURSIVE SplitAt(_, _, _, _)
SplitAt(s, i, from, acc) ==
  IF i > Len(s) THEN Append(acc, SubSeq(s, from, Len(s)))
  ELSE IF s[i] = LF THEN SplitAt(s, i + 1, i + 1, Append(acc, SubSeq(s, from, i - 1)))
  ELSE SplitAt(s, i + 1, from, acc)
Split(s) == IF s = <<>> /\ R.z = 1 THEN <<>> ELSE SplitAt(s, 1, 1, <<>>)

(* Characters with colors: <<character, color>>.  Lines and headers have colors,     *)
(* escape sequences of \t, \r, \v their own.                                        *)
Gray == 90
Red == 91
Green == 92
Yellow == 93
Cyan == 96
RECURSIVE Shown(_, _, _, _)
Shown(line, i, color, acc) ==
  IF i > Len(line) THEN acc
  ELSE LET e == CASE line[i] = 9 -> 116 [] line[i] = 13 -> 114 [] line[i] = 11 -> 118 [] OTHER -> 0
       IN Shown(line, i + 1, color, IF e = 0 THEN Append(acc, <<line[i], color>>)
                                    ELSE acc \o << <<92, Yellow>>, <<e, Yellow>> >>)
RECURSIVE Decimal(_)
Decimal(n) == (IF n < 10 THEN <<>> ELSE Decimal(n \div 10)) \o << 48 + (n % 10) >>
Color(s, c) == [i \in 1 .. Len(s) |-> <<s[i], c>>]
Header(i, n, j, m) == Color(<<64, 64, 32, 45>> \o Decimal(i) \o <<44>> \o Decimal(n) \o <<32, 43>> \o Decimal(j) \o <<44>> \o Decimal(m)
                            \o <<32, 64, 64>>, Cyan)

(* What a recorded line shows: [to |-> where the next begins, s |-> characters with  *)
(* colors, ok |-> whether the line has an end].  ESC [ n m and ESC [ 0 ; n m select  *)
(* color n.                                                                          *)
RECURSIVE Sgr(_, _)
Sgr(i, n) == IF i > Len(R.o) THEN <<i, 0>>
             ELSE IF R.o[i] = 109 THEN <<i + 1, n>>
             ELSE IF R.o[i] = 59 THEN Sgr(i + 1, 0)
             ELSE IF R.o[i] \in 48 .. 57 THEN Sgr(i + 1, n * 10 + R.o[i] - 48)
             ELSE <<Len(R.o) + 1, 0>>
RECURSIVE Look(_, _, _)
Look(i, color, acc) ==
  IF i > Len(R.o) THEN [to |-> i, s |-> acc, ok |-> FALSE]
  ELSE IF R.o[i] = LF THEN [to |-> i + 1, s |-> acc, ok |-> TRUE]
  ELSE IF R.o[i] = 27 /\ R.w = 1 THEN LET g == Sgr(i + 2, 0) IN Look(g[1], g[2], acc)
  ELSE Look(i + 1, color, Append(acc, <<R.o[i], IF R.w = 1 THEN color ELSE 0>>))
Plain(s) == IF R.w = 1 THEN s ELSE [i \in DOMAIN s |-> <<s[i][1], 0>>]
Line(sign, color, line) == Plain(<< <<sign, color>> >> \o Shown(line, 1, color, <<>>))

(* Hunks.  h: [n, m |-> lines left of either side, run |-> unchanged lines at the    *)
(* end so far, seen |-> whether there were changes, top |-> whether it is at the     *)
(* very beginning, first |-> whether it is the first].                               *)
NoHunk == [n |-> 0, m |-> 0, run |-> 0, seen |-> TRUE, top |-> TRUE, first |-> TRUE]
Same(i, j) == /\ Len(R.f) - i = Len(R.t) - j
              /\ \A d \in 1 .. Len(R.f) - i : R.f[i + d] = R.t[j + d]
(* The end of a hunk: complete context. *)
Complete == /\ h.n = 0 /\ h.m = 0 /\ h.seen /\ h.run <= R.c
            /\ h.run = R.c \/ h.first \/ (x.i = Len(R.f) /\ x.j = Len(R.t))

(* The numbers in a line. *)
RECURSIVE Numbers(_, _, _, _)
Numbers(l, i, n, acc) ==
  IF i > Len(l) THEN acc
  ELSE IF l[i][1] \in 48 .. 57 /\ n < 100000 THEN Numbers(l, i + 1, (IF n < 0 THEN 0 ELSE n) * 10 + l[i][1] - 48, acc)
  ELSE Numbers(l, i + 1, 0 - 1, IF n < 0 THEN acc ELSE Append(acc, n))
(* A header which begins a hunk of n and m lines after s unchanged lines.  A hunk    *)
(* with no lines of a side has the number of the line before it.                     *)
Begins(s, n, m, l) ==
  /\ s >= 0 /\ x.i + s + n <= Len(R.f) /\ x.j + s + m <= Len(R.t)
  /\ \A d \in 1 .. s : R.f[x.i + d] = R.t[x.j + d]
  /\ l = Plain(Header(x.i + s + (IF n = 0 THEN 0 ELSE 1), n, x.j + s + (IF m = 0 THEN 0 ELSE 1), m))
(* Unchanged lines are left out between hunks only. *)
Skips == IF h.first THEN 0 .. Len(R.f) ELSE 1 .. Len(R.f)

Reject(kind) == PrintT(<<"REJECT", r, kind>>) /\ v' = "bad" /\ UNCHANGED <<r, k, x, h>>
(* v: what is being read: the lines of the texts, the script, the diff. *)
Init == r \in 1 .. Len(Rec) /\ k = 1 /\ x = Reader /\ h = NoHunk /\ v = "lines"
Lines == v = "lines" /\
  IF R.f = Split(R.a) /\ R.t = Split(R.b) THEN v' = "script" /\ UNCHANGED <<r, k, x, h>> ELSE Reject("lines")
Script == v = "script" /\
  IF k <= Len(R.e)
  THEN LET y == Edit(x, R.e[k], R.f, R.t)
       IN IF y.ok THEN x' = y /\ k' = k + 1 /\ UNCHANGED <<r, h, v>> ELSE Reject("script")
  ELSE IF Finished(x, R.f, R.t) /\ x.n = Fewest(R.f, R.t)
       THEN v' = "diff" /\ k' = 1 /\ x' = Reader /\ UNCHANGED <<r, h>> ELSE Reject("script")

Body(l) ==
  LET unchanged == h.n > 0 /\ h.m > 0 /\ x.i < Len(R.f) /\ x.j < Len(R.t) /\ l.s = Line(32, Gray, R.f[x.i + 1])
      deleted == h.n > 0 /\ x.i < Len(R.f) /\ l.s = Line(45, Red, R.f[x.i + 1])
      inserted == h.m > 0 /\ x.j < Len(R.t) /\ l.s = Line(43, Green, R.t[x.j + 1])
      e == IF unchanged THEN 0 ELSE IF deleted THEN 0 - 1 ELSE 1
      y == Edit(x, e, R.f, R.t)
      full == h.seen \/ h.run = R.c \/ h.top
  IN IF /\ unchanged \/ deleted \/ inserted
        /\ y.ok
        /\ e = 0 => h.run < (IF h.seen THEN 2 * R.c ELSE R.c)
        /\ e # 0 => full
     THEN /\ x' = y /\ k' = l.to
          /\ h' = [h EXCEPT !.n = @ - (IF e = 1 THEN 0 ELSE 1), !.m = @ - (IF e = 0 - 1 THEN 0 ELSE 1),
                            !.run = IF e = 0 THEN @ + 1 ELSE 0, !.seen = @ \/ e # 0]
          /\ UNCHANGED <<r, v>>
     ELSE Reject("hunk")
Hunk(l) ==
  LET q == Numbers(l.s, 1, 0 - 1, <<>>)
      s == q[1] - x.i - (IF q[2] = 0 THEN 0 ELSE 1)
  IN IF Complete /\ Len(q) = 4 /\ s \in Skips /\ Begins(s, q[2], q[4], l.s)
     THEN /\ x' = [x EXCEPT !.i = @ + s, !.j = @ + s, !.last = 0]
          /\ h' = [n |-> q[2], m |-> q[4], run |-> 0, seen |-> FALSE, top |-> h.first /\ s = 0, first |-> FALSE]
          /\ k' = l.to
          /\ UNCHANGED <<r, v>>
     ELSE Reject("header")
Printed == v = "diff" /\
  IF k > Len(R.o)
  THEN IF Complete /\ Same(x.i, x.j) /\ x.n = Fewest(R.f, R.t) THEN v' = "ok" /\ UNCHANGED <<r, k, x, h>> ELSE Reject("diff")
  ELSE LET l == Look(k, 0, <<>>)
       IN IF ~l.ok THEN Reject("diff")
          ELSE IF h.n > 0 \/ h.m > 0 THEN Body(l) ELSE Hunk(l)
Next == Lines \/ Script \/ Printed
Spec == Init /\ [][Next]_vars
================================================================================
