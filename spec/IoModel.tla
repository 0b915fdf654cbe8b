-------------------------------- MODULE IoModel ---------------------------------
(* A reader in blocks, over a stream which asks the system for as long as a block is *)
(* not full, in all environments: it loads every file whole or tells the error.      *)
EXTENDS Io, FiniteSets, TLC
CONSTANTS Block, MaxLen

VARIABLES file, reads, block, out, state, result
vars == <<file, reads, block, out, state, result>>
Contents == [1 .. Block -> {0}]
Init == /\ file \in { [i \in 1 .. n |-> i] : n \in 0 .. MaxLen } /\ reads = <<>> /\ block = <<>> /\ out = <<0 - 1>>
        /\ state = "closed" /\ result = 9
Open == state = "closed" /\ UNCHANGED <<file, reads, block, out>>
        /\ \/ state' = "fill" /\ UNCHANGED result
           \/ state' = "done" /\ result' = CannotOpen
At == Total(reads)
(* One read of the system into the block. *)
Read == state = "fill" /\ Len(block) < Block
        /\ \/ \E n \in 1 .. Block - Len(block) :
                /\ At + n <= Len(file)
                /\ reads' = Append(reads, n) /\ block' = block \o SubSeq(file, At + 1, At + n)
                /\ UNCHANGED <<file, out, state, result>>
           \/ /\ At = Len(file) /\ reads' = Append(reads, 0) /\ state' = "deliver" /\ UNCHANGED <<file, block, out, result>>
           \/ /\ reads' = Append(reads, 0 - 1) /\ state' = "done" /\ result' = ReadError /\ UNCHANGED <<file, block, out>>
Full == state = "fill" /\ Len(block) = Block /\ state' = "deliver" /\ UNCHANGED <<file, reads, block, out, result>>
Deliver == /\ state = "deliver" /\ out' = out \o block /\ block' = <<>> /\ UNCHANGED <<file, reads>>
           /\ IF Len(block) = Block THEN state' = "fill" /\ UNCHANGED result ELSE state' = "done" /\ result' = Fine
Done == state = "done" /\ UNCHANGED vars
Next == Open \/ Read \/ Full \/ Deliver \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == (state = "done" /\ result = Fine) => out = <<0 - 1>> \o file /\ SawEnd(reads)
Told == state = "done" => result = (IF reads = <<>> THEN CannotOpen ELSE Loaded(TRUE, reads))
Kept == IsPrefix(<<0 - 1>>, out) /\ IsPrefix(out, <<0 - 1>> \o file)
Ends == <>(state = "done")
================================================================================
