--------------------------------- MODULE Fault ----------------------------------
(* A highlighting call under faults. The call allocates, delivers its result in      *)
(* parts by callbacks, and returns. The environment makes one allocation fail (or     *)
(* all from one on), or one callback throw. Fault kinds: 0 none, 1 one allocation,    *)
(* 2 all allocations from one on, 3 and 4 a callback throws,                          *)
(* 7 a callback runs out of memory.                                                   *)
EXTENDS Integers, Sequences

OK == 0
BadAlloc == 6
InternalError == 7

IsPrefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))

StatusOf(kind) == CASE kind = 0 -> {OK} [] kind \in {1, 2} -> {BadAlloc} [] kind \in {3, 4} -> {InternalError}
                    [] kind = 7 -> {BadAlloc, InternalError}

\* What a caller may observe of a call of which `base` is the complete result and `kind` the fault
\* that occurred: what was delivered, callbacks made after the fault, status, length of the message,
\* allocations not released, whether the next call without a fault is complete.
Outcome(base, kind, got, late, status, msg, live, again) ==
    /\ status \in StatusOf(kind)
    /\ late = 0
    /\ live = 0
    /\ again = 1
    /\ IF kind = 0 THEN got = base ELSE IsPrefix(got, base) /\ msg > 0
================================================================================
