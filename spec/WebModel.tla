-------------------------------- MODULE WebModel ---------------------------------
(* The design of toHtml and getLanguageId: the wrapper, and an environment that       *)
(* fails allocations, grows the memory (which detaches the view of it) and flushes     *)
(* the text in parts of any size. Every behaviour that ends is printed as a scenario   *)
(* which is replayed on the real wrapper.                                              *)
EXTENDS Web, TLC
CONSTANTS Caps
VARIABLES pc, named, live, mem, view, plan, run, cap, got, left, chunk, error, status, result, used

vars == <<pc, named, live, mem, view, plan, run, cap, got, left, chunk, error, status, result, used>>
\* three code points of one, two and three bytes: <<code point, byte of it>>
Text == <<<<1, 1>>, <<2, 1>>, <<2, 2>>, <<3, 1>>, <<3, 2>>, <<3, 3>>>>

Init == /\ pc = "start" /\ named \in BOOLEAN /\ live = {} /\ mem = 0 /\ view = 0 /\ plan = <<>> /\ run = <<0, 0, 0>>
        /\ cap \in Caps /\ got = <<>> /\ left = Text /\ chunk = <<>> /\ error = FALSE /\ status = 0 /\ result = "none" /\ used = TRUE

Rest(vs) == UNCHANGED vs
\* the k-th step allocates `what`
Allocate(at, what, next, onfail) ==
    /\ pc = at
    /\ \/ /\ plan' = Append(plan, 0) /\ live' = live \cup {what} /\ pc' = next /\ UNCHANGED <<mem, view, error>>
       \/ /\ plan' = Append(plan, 1) /\ live' = live \cup {what} /\ pc' = next
          /\ mem' = mem + 1 /\ view' = mem + 1           \* memory grew, and the wrapper was told
          /\ UNCHANGED error
       \/ /\ plan' = Append(plan, -1) /\ error' = TRUE /\ pc' = onfail /\ UNCHANGED <<live, mem, view>>
    /\ Rest(<<named, run, cap, got, left, chunk, status, result, used>>)
\* an access to memory: through the view
Access(at, next) ==
    /\ pc = at /\ pc' = next /\ used' = (used /\ view = mem)
    /\ Rest(<<named, live, mem, view, plan, run, cap, got, left, chunk, error, status, result>>)
Release(at, what, next) ==
    /\ pc = at /\ pc' = next /\ live' = live \ {what}
    /\ Rest(<<named, mem, view, plan, run, cap, got, left, chunk, error, status, result, used>>)

Start == pc = "start" /\ pc' = (IF named THEN "name" ELSE "source")
         /\ Rest(<<named, live, mem, view, plan, run, cap, got, left, chunk, error, status, result, used>>)
\* the library: memory may grow before, during and after
Grows(k) == run' = [run EXCEPT ![k] = 1] /\ mem' = mem + 1 /\ view' = mem + 1
Same == UNCHANGED <<run, mem, view>>
Call == /\ pc = "call" /\ pc' = "running" /\ status' \in {0, 2}
        /\ \/ Same \/ Grows(1)
        /\ Rest(<<named, live, plan, cap, got, left, chunk, error, result, used>>)
Flush == /\ pc = "running" /\ status = 0 /\ left # <<>>
         /\ LET n == IF Len(left) < cap THEN Len(left) ELSE cap
            IN got' = Append(got, SubSeq(left, 1, n)) /\ left' = SubSeq(left, n + 1, Len(left))
         /\ \/ Same \/ (run[2] = 0 /\ Grows(2))
         /\ used' = (used /\ view = mem)
         /\ Rest(<<pc, named, live, plan, cap, chunk, error, status, result>>)
Return == /\ pc = "running" /\ (left = <<>> \/ status # 0) /\ pc' = "back"
          /\ \/ Same \/ Grows(3)
          /\ Rest(<<named, live, plan, cap, got, left, chunk, error, status, result, used>>)
\* the chunks are put together before they are decoded
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Joined(Tail(s))
Back == /\ pc = "back" /\ pc' = "freestate" /\ used' = (used /\ view = mem)
        /\ result' = IF status # 0 THEN "status" ELSE "text"
        /\ chunk' = Joined(got)
        /\ Rest(<<named, live, mem, view, plan, run, cap, got, left, error, status>>)
End == /\ pc = "end" /\ pc' = "idle" /\ result' = (IF error THEN "error" ELSE result)
       /\ PrintT(<<"S", IF named THEN 1 ELSE 0, cap, status, plan, run>>)
       /\ Rest(<<named, live, mem, view, plan, run, cap, got, left, chunk, error, status, used>>)

Next == \/ Start
        \/ Allocate("name", <<1, 3, 1>>, "fillname", "end") \/ Access("fillname", "getlang")
        \/ Access("getlang", "freename") \/ Release("freename", <<1, 3, 1>>, "source")
        \/ Allocate("source", <<2, 9, 1>>, "fillsource", "end") \/ Access("fillsource", "tokens")
        \/ Allocate("tokens", <<3, 9, 4>>, "text", "freesource")
        \/ Allocate("text", <<4, 9, 1>>, "state", "freetokens")
        \/ Allocate("state", State(5), "fillstate", "freetext") \/ Access("fillstate", "call")
        \/ Call \/ Flush \/ Return \/ Back
        \/ Release("freestate", State(5), "freetext")
        \/ Release("freetext", <<4, 9, 1>>, "freetokens")
        \/ Release("freetokens", <<3, 9, 4>>, "freesource")
        \/ Release("freesource", <<2, 9, 1>>, "end")
        \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NothingLeft == pc = "idle" => live = {}
OnlyCurrentViews == used
Whole == pc = "idle" /\ result = "text" => chunk = Text
Outcomes == pc = "idle" => /\ (error <=> result = "error")
                           /\ (~error => (result = "status" <=> status # 0))
Terminates == <>(pc = "idle")
================================================================================
