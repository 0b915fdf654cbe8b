----------------------------------- MODULE Io -----------------------------------
(* Loading files.  A file is read by a sequence of reads, each of which gives some   *)
(* bytes (fewer than asked for if the system likes), the end, or an error.           *)
EXTENDS Integers, Sequences

(* Results: *)
Fine == 0
CannotOpen == 1
ReadError == 2
Corrupted == 4

(* The whole story of one call: what must come of it, given what the system did.      *)
(* reads: numbers of bytes, 0 for the end, -1 for an error.                           *)
RECURSIVE Total(_)
Total(reads) == IF reads = <<>> THEN 0 ELSE (IF Head(reads) > 0 THEN Head(reads) ELSE 0) + Total(Tail(reads))
Failed(reads) == \E i \in DOMAIN reads : reads[i] < 0
SawEnd(reads) == reads # <<>> /\ reads[Len(reads)] = 0
Loaded(opened, reads) == IF ~opened THEN CannotOpen ELSE IF Failed(reads) THEN ReadError ELSE Fine
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
================================================================================
