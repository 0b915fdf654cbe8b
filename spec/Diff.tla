---------------------------------- MODULE Diff ----------------------------------
(* Line diffs: an edit script turns one sequence into another; a unified diff       *)
(* applied to one text gives another.  What is applied here is any script, of any   *)
(* origin: the specification does not say how scripts are found, only what they do  *)
(* and that none is longer than needed.                                             *)
EXTENDS Integers, Sequences, FiniteSets

Max2(a, b) == IF a > b THEN a ELSE b

(* The length of the longest common subsequence, row by row. *)
RECURSIVE NextRow(_, _, _, _, _)
NextRow(x, to, prev, j, row) ==
  IF j > Len(to) THEN row
  ELSE NextRow(x, to, prev, j + 1, Append(row, IF x = to[j] THEN prev[j] + 1 ELSE Max2(prev[j + 1], row[j])))
RECURSIVE Rows(_, _, _, _)
Rows(from, to, i, row) == IF i > Len(from) THEN row[Len(to) + 1] ELSE Rows(from, to, i + 1, NextRow(from[i], to, row, 1, <<0>>))
Lcs(from, to) == Rows(from, to, 1, [j \in 1 .. Len(to) + 1 |-> 0])

(* What it means, by definition. *)
Sub(s) == { [k \in 1 .. Cardinality(S) |-> s[CHOOSE i \in S : Cardinality({ j \in S : j <= i }) = k]] : S \in SUBSET (1 .. Len(s)) }
LcsMeaning(from, to) ==
  LET C == Sub(from) \cap Sub(to) IN CHOOSE n \in { Len(s) : s \in C } : \A s \in C : Len(s) <= n

Fewest(from, to) == Len(from) + Len(to) - 2 * Lcs(from, to)

(* A reader of edits: i, j consumed from either side, last: the previous edit, n: how many changes. *)
Reader == [i |-> 0, j |-> 0, last |-> 0, n |-> 0, ok |-> TRUE]
Edit(x, e, from, to) ==
  CASE e = 0 -> [x EXCEPT !.i = @ + 1, !.j = @ + 1, !.last = 0,
                 !.ok = x.ok /\ x.i < Len(from) /\ x.j < Len(to) /\ from[x.i + 1] = to[x.j + 1]]
    [] e = 0 - 1 -> [x EXCEPT !.i = @ + 1, !.last = e, !.n = @ + 1, !.ok = x.ok /\ x.i < Len(from) /\ x.last # 1]
    [] e = 1 -> [x EXCEPT !.j = @ + 1, !.last = e, !.n = @ + 1, !.ok = x.ok /\ x.j < Len(to)]
    [] OTHER -> [x EXCEPT !.ok = FALSE]
Finished(x, from, to) == x.ok /\ x.i = Len(from) /\ x.j = Len(to)
================================================================================
