------------------------------ MODULE FaultModel --------------------------------
(* The design: a call holds memory, fails by unwinding, releases what it holds.      *)
EXTENDS Fault, TLC
CONSTANTS MaxAllocs
VARIABLES st, held, done, got, late, kind, status, msg, allocs

vars == <<st, held, done, got, late, kind, status, msg, allocs>>
Base == <<1, 2, 3>>
Init == /\ st = "run" /\ held = 0 /\ done = 0 /\ got = <<>> /\ late = 0 /\ status = 99 /\ msg = 0 /\ allocs = 0
        /\ kind = 0
Allocate == /\ st = "run" /\ allocs < MaxAllocs
            /\ held' = held + 1 /\ allocs' = allocs + 1
            /\ UNCHANGED <<st, done, got, late, kind, status, msg>>
AllocFails == /\ st = "run" /\ allocs < MaxAllocs
              /\ kind' \in {1, 2} /\ st' = "unwind" /\ allocs' = allocs + 1
              /\ UNCHANGED <<held, done, got, late, status, msg>>
Release == held > 0 /\ held' = held - 1 /\ st \in {"run", "unwind"} /\ UNCHANGED <<st, done, got, late, kind, status, msg, allocs>>
Produce == st = "run" /\ done < Len(Base) /\ done' = done + 1 /\ UNCHANGED <<st, held, got, late, kind, status, msg, allocs>>
Flush == /\ st = "run" /\ Len(got) < done
         /\ got' = SubSeq(Base, 1, done)
         /\ late' = IF kind # 0 THEN late + 1 ELSE late
         /\ \/ st' = "run" /\ UNCHANGED kind
            \/ st' = "unwind" /\ kind' \in {3, 4, 7}
         /\ UNCHANGED <<held, done, status, msg, allocs>>
Return == /\ held = 0
          /\ \/ st = "run" /\ done = Len(Base) /\ got = Base /\ status' = OK /\ msg' = 0
             \/ st = "unwind" /\ status' \in StatusOf(kind) /\ msg' = 1
          /\ st' = "end" /\ UNCHANGED <<held, done, got, late, kind, allocs>>
Next == Allocate \/ AllocFails \/ Release \/ Produce \/ Flush \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Release) /\ WF_vars(Return) /\ WF_vars(Produce) /\ WF_vars(Flush)

Contained == st = "end" => Outcome(Base, kind, got, late, status, msg, held, 1)
PrefixAlways == IsPrefix(got, Base)
Terminates == <>(st = "end")
================================================================================
