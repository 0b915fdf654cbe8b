------------------------------- MODULE PureModel -------------------------------
(* All interleavings of two threads making nested calls of a library that is      *)
(* free to deliver anything the machine allows.                                    *)
EXTENDS Pure
CONSTANTS Threads, Keys, Parts, MaxLen, MaxDepth, MaxCalls
VARIABLES calls, history     \* history: <<key, result>> of every call that returned

Init == /\ active = [t \in Threads |-> <<>>] /\ memo = <<>> /\ calls = 0 /\ history = {}
Next == \E t \in Threads :
    \/ /\ calls < MaxCalls /\ Len(active[t]) < MaxDepth
       /\ \E key \in Keys : Begin(t, Len(active[t]), key)
       /\ calls' = calls + 1 /\ UNCHANGED history
    \/ /\ Len(active[t]) > 0 /\ Len(Top(t)[2]) < MaxLen
       /\ \E p \in Parts : Deliver(t, Len(active[t]) - 1, Top(t)[1], <<p>>)
       /\ UNCHANGED <<calls, history>>
    \/ /\ Len(active[t]) > 0
       /\ Return(t, Len(active[t]) - 1, Top(t)[1])
       /\ history' = history \cup {Top(t)} /\ UNCHANGED calls
Spec == Init /\ [][Next]_<<pvars, calls, history>>

Deterministic == \A a, b \in history : a[1] = b[1] => a[2] = b[2]
KnownIsHistory == \A key \in DOMAIN memo : <<key, memo[key]>> \in history
MemoStable == [][\A key \in DOMAIN memo : key \in DOMAIN memo' /\ memo'[key] = memo[key]]_<<pvars, calls, history>>
================================================================================
