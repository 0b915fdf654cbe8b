------------------------------- MODULE DiffModel --------------------------------
(* All edit scripts between all pairs of short sequences: those which the reader    *)
(* finishes turn one into the other, the fewest changes are what Fewest says, and   *)
(* every pair has a script with so few.                                             *)
EXTENDS Diff, TLC
CONSTANT MaxLen
Symbols == 1 .. 3
Seqs == UNION { [1 .. n -> Symbols] : n \in 0 .. MaxLen }

VARIABLES from, to, x, built
vars == <<from, to, x, built>>
Init == from \in Seqs /\ to \in Seqs /\ x = Reader /\ built = <<>>
(* Deletions come before insertions. *)
Next ==
  \E e \in {0 - 1, 0, 1} :
     LET y == Edit(x, e, from, to)
     IN /\ y.ok /\ x' = y
        /\ built' = (CASE e = 0 -> Append(built, from[x.i + 1]) [] e = 1 -> Append(built, to[x.j + 1]) [] OTHER -> built)
        /\ UNCHANGED <<from, to>>
Spec == Init /\ [][Next]_vars

Meaning == x = Reader => Lcs(from, to) = LcsMeaning(from, to)
Turns == Finished(x, from, to) => built = to
Fewer == Finished(x, from, to) => x.n >= Fewest(from, to)
(* The changes still needed: a shortest script is always one edit away.  *)
Rest == Fewest(SubSeq(from, x.i + 1, Len(from)), SubSeq(to, x.j + 1, Len(to)))
Within == (x.i = Len(from) /\ x.j = Len(to)) \/
          (\E e \in {0 - 1, 0, 1} :
            LET y == Edit(x, e, from, to)
            IN /\ y.i <= Len(from) /\ y.j <= Len(to) /\ (e = 0 => y.ok)
               /\ Rest = y.n - x.n + Fewest(SubSeq(from, y.i + 1, Len(from)), SubSeq(to, y.j + 1, Len(to))))
================================================================================
