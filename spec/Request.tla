-------------------------------- MODULE Request --------------------------------
(* Which highlighting requests are rejected, and with which status.             *)
(* A pointer/length pair is 0 (null, empty), 1 (null, not empty), 2 (not null,    *)
(* empty) or 3 (proper); a callback is 0 (null) or 1.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ok == 0  BadBuffer == 1  BadLang == 2  BadText == 3  BadState == 4  BadCode == 5
BadAlloc == 6  InternalError == 7

Pairs == 0 .. 3
Langs == 1 .. 25       \* the supported languages
SomeLangs == {0, 2, 26, 255, 258, -1}
\* numbers beyond a byte, among them those whose low byte is a language
MoreLangs == {256, 258, 281, 65538, 2147483647, -1, -2, -254, -2147483647}

(* r = <<op, source, tokens, flush_tokens, lang, text, flush_text, tag, attr>> *)
TokenRequests == { <<0, s, t, f, l, 3, 1, 3, 3>> : s \in Pairs, t \in Pairs, f \in {0, 1}, l \in 0 .. 255 \cup MoreLangs }
HtmlRequests  == { <<1, s, t, f, l, x, g, a, b>> :
                     s \in Pairs, t \in Pairs, f \in {0, 1}, l \in SomeLangs,
                     x \in Pairs, g \in {0, 1}, a \in Pairs, b \in Pairs }
Requests == TokenRequests \cup HtmlRequests

(* The defects of a request, each named by the status it is rejected with. *)
Defects(r) ==
    LET html == r[1] = 1 IN
    (IF r[2] = 1 THEN {BadState} ELSE {})
    \cup (IF r[3] # 3 THEN {BadBuffer} ELSE {})
    \cup (IF ~html /\ r[4] = 0 THEN {BadBuffer} ELSE {})
    \cup (IF r[5] \notin Langs THEN {BadLang} ELSE {})
    \cup (IF html /\ (r[6] # 3 \/ r[7] = 0) THEN {BadBuffer} ELSE {})
    \cup (IF html /\ (r[8] # 3 \/ r[9] # 3) THEN {BadState} ELSE {})

(* Observation: <<status, callbacks made, a buffer was written to, message, inputs intact>>;  *)
(* the message is 0 (none), 1 (proper) or 2 (longer than its text).                            *)
Allowed(r, o) ==
    /\ o[5] = 1
    /\ IF Defects(r) # {}
       THEN /\ o[1] \in Defects(r)
            /\ o[2] = 0
            /\ o[3] = 0
            /\ o[4] = 1
       ELSE /\ o[1] = Ok
            \* an empty source yields nothing; the other one does at least in HTML and C++
            /\ IF r[2] \in {0, 2} THEN o[2] = 0 /\ o[3] = 0
               ELSE (r[1] = 1 \/ r[5] = 2) => o[2] > 0 /\ o[3] = 1
================================================================================
