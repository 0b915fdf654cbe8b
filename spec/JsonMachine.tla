---------------------------------- MODULE JsonMachine ---------------------------------
(* The JSON parser as a pushdown machine over the bytes t of a text. One step      *)
(* consumes one lexeme, makes the visitor's events and the highlighter's tokens,    *)
(* and may end the run: "ok" (the text is JSON) or "bad" (with one error).          *)
(* Event: <<name, offset, line, column, argument...>>. Token: <<begin, length, type>>. *)
EXTENDS Integers, Sequences

WSP == {32, 9, 10, 13}
Digit == 48 .. 57
Hex == Digit \cup (65 .. 70) \cup (97 .. 102)
AlNum == Digit \cup (65 .. 90) \cup (97 .. 122)
At(t, i) == IF i <= Len(t) THEN t[i] ELSE 0 - 1
Has(t, i, w) == i + Len(w) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(w) - 1) = w

\* error codes
General == 0
Comment == 1
IllegalCharacter == 2
IllegalEscape == 3
IllegalNumber == 4
UntermString == 5
UntermObject == 6
UntermArray == 7
Valueless == 8

\* first position >= i whose byte is not in S
RECURSIVE Span(_, _, _)
Span(t, i, S) == IF At(t, i) \in S THEN Span(t, i + 1, S) ELSE i
\* end of a line comment: the first line terminator (LF, CR, LS, PS)
RECURSIVE LineEnd(_, _)
LineEnd(t, i) ==
    IF i > Len(t) \/ t[i] \in {10, 13} \/ Has(t, i, <<226, 128, 168>>) \/ Has(t, i, <<226, 128, 169>>) THEN i
    ELSE LineEnd(t, i + 1)
\* position after the end of a block comment, or 0
RECURSIVE BlockEnd(_, _)
BlockEnd(t, i) == IF i >= Len(t) THEN 0 ELSE IF t[i] = 42 /\ t[i + 1] = 47 THEN i + 2 ELSE BlockEnd(t, i + 1)

\* [end, ok, digits, exponent of ten, negative]
Val(b) == b - 48
RECURSIVE Small(_, _, _)
Small(ds, i, acc) == IF i > Len(ds) THEN acc ELSE Small(ds, i + 1, IF acc > 99999 THEN acc ELSE acc * 10 + ds[i])
Number(t, i) ==
    LET a == IF At(t, i) = 45 THEN i + 1 ELSE i
        b == Span(t, a, Digit)
        hasF == At(t, b) = 46
        c == IF hasF THEN Span(t, b + 1, Digit) ELSE b
        hasE == At(t, c) \in {69, 101}
        d == IF hasE THEN (IF At(t, c + 1) \in {43, 45} THEN c + 2 ELSE c + 1) ELSE c
        e == IF hasE THEN Span(t, d, Digit) ELSE c
        ds(x, y) == [j \in 1 .. (y - x) |-> Val(t[x + j - 1])]
        frac == IF hasF THEN ds(b + 1, c) ELSE <<>>
        ex == IF hasE THEN (IF At(t, c + 1) = 45 THEN -1 ELSE 1) * Small(ds(d, e), 1, 0) ELSE 0
    IN [end |-> e,
        ok |-> b > a /\ ~(b - a >= 2 /\ t[a] = 48) /\ (hasF => c > b + 1) /\ (hasE => e > d),
        digits |-> ds(a, b) \o frac, ten |-> ex - Len(frac), neg |-> a > i]

HexVal(b) == CASE b \in Digit -> b - 48 [] b \in 65 .. 70 -> b - 55 [] b \in 97 .. 102 -> b - 87
\* <<length, code point>>, or <<0, 0>> if it is not an escape
Escape(t, i) ==
    LET c == At(t, i + 1) IN
    CASE c \in {34, 92, 47} -> <<2, c>>
      [] c = 98 -> <<2, 8>> [] c = 102 -> <<2, 12>> [] c = 110 -> <<2, 10>> [] c = 114 -> <<2, 13>> [] c = 116 -> <<2, 9>>
      [] c = 117 /\ \A j \in 2 .. 5 : At(t, i + j) \in Hex ->
            <<6, HexVal(t[i + 2]) * 4096 + HexVal(t[i + 3]) * 256 + HexVal(t[i + 4]) * 16 + HexVal(t[i + 5])>>
      [] OTHER -> <<0, 0>>

\* ---- the machine ----
Start == [i |-> 1, line |-> 0, bol |-> 1, stk |-> <<>>, ph |-> "value", run |-> 0, v |-> "run",
          ev |-> <<>>, tk |-> <<>>]

Pos(m, i) == <<i - 1, m.line, i - m.bol>>
Ev(m, name, i, args) == [m EXCEPT !.ev = Append(@, <<name>> \o Pos(m, i) \o args)]
Tk(m, i, e, type) == IF e > i THEN [m EXCEPT !.tk = Append(@, <<i - 1, e - i, type>>)] ELSE m
\* an error ends the run
Fail(m, code) == [Ev(m, "error", m.i, <<code>>) EXCEPT !.v = "bad"]
\* moves to position e, possibly across line feeds
LFs(t, i, e) == {j \in i .. (e - 1) : t[j] = 10}
RECURSIVE CountLF(_, _, _, _)
CountLF(t, i, e, nb) == IF i >= e THEN nb ELSE CountLF(t, i + 1, e, IF t[i] = 10 THEN <<nb[1] + 1, i + 1>> ELSE nb)
Move(m, t, e) ==
    LET nb == CountLF(t, m.i, e, <<m.line, m.bol>>) IN [m EXCEPT !.i = e, !.line = nb[1], !.bol = nb[2]]

Top(m) == IF m.stk = <<>> THEN "R" ELSE m.stk[Len(m.stk)]
Popped(m) == SubSeq(m.stk, 1, Len(m.stk) - 1)
\* the state after a value
After(m) == [m EXCEPT !.ph = "after"]

Whitespace(m, t) == Move(m, t, Span(t, m.i, WSP))
LineComment(m, t) ==
    LET e == LineEnd(t, m.i + 2)
        x == Ev(m, "line_comment", m.i, <<SubSeq(t, m.i, e - 1)>>)
    IN Move(Tk(Tk(x, m.i, m.i + 2, "comment_delim"), m.i + 2, e, "comment"), t, e)
BlockComment(m, t) ==
    LET e == BlockEnd(t, m.i + 2)
        x == Ev(m, "block_comment", m.i, <<SubSeq(t, m.i, e - 1)>>)
    IN IF e = 0 THEN Fail(m, Comment)
       ELSE Move(Tk(Tk(Tk(x, m.i, m.i + 2, "comment_delim"), m.i + 2, e - 2, "comment"), e - 2, e, "comment_delim"), t, e)

Begin(m, t, name, kind, ph, type) ==
    [Tk(Ev(m, name, m.i, <<>>), m.i, m.i + 1, type) EXCEPT !.i = m.i + 1, !.stk = Append(@, kind), !.ph = ph]
End(m, t, name, type) ==
    After([Tk(Ev(m, name, m.i, <<>>), m.i, m.i + 1, type) EXCEPT !.i = m.i + 1, !.stk = Popped(m)])
Word(m, t, w, name, args, type) ==
    LET e == m.i + Len(w)
        x == Ev(m, name, m.i, args)
    IN After([(IF At(t, e) \in AlNum THEN x ELSE Tk(x, m.i, e, type)) EXCEPT !.i = e])
OpenString(m, t) ==
    [Tk(Ev(m, "push_string", m.i, <<>>), m.i, m.i + 1, "string_delim")
        EXCEPT !.i = m.i + 1, !.ph = "string", !.run = m.i + 1]
OpenKey(m, t) == [Ev(m, "push_property", m.i, <<>>) EXCEPT !.i = m.i + 1, !.ph = "keystring", !.run = m.i]

Value(m, t) ==
    LET c == At(t, m.i)
        n == Number(t, m.i)
    IN CASE c = 34 -> OpenString(m, t)
         [] c = 91 -> Begin(m, t, "push_array", "A", "first", "symbol_square")
         [] c = 123 -> Begin(m, t, "push_object", "O", "firstkey", "symbol_brace")
         [] c = 45 \/ c \in Digit ->
              IF ~n.ok THEN Fail(m, IllegalNumber)
              ELSE After([Tk(Ev(m, "number", m.i, <<SubSeq(t, m.i, n.end - 1), n>>), m.i, n.end, "number")
                            EXCEPT !.i = n.end])
         [] Has(t, m.i, <<116, 114, 117, 101>>) -> Word(m, t, <<116, 114, 117, 101>>, "boolean", <<1>>, "bool")
         [] Has(t, m.i, <<102, 97, 108, 115, 101>>) -> Word(m, t, <<102, 97, 108, 115, 101>>, "boolean", <<0>>, "bool")
         [] Has(t, m.i, <<110, 117, 108, 108>>) -> Word(m, t, <<110, 117, 108, 108>>, "null", <<>>, "null")
         [] OTHER -> Fail(m, IllegalCharacter)

\* inside a string: a run of characters up to a quote, backslash, control character or the end
RECURSIVE CharsEnd(_, _)
CharsEnd(t, i) == IF i > Len(t) \/ t[i] < 32 \/ t[i] \in {34, 92} THEN i ELSE CharsEnd(t, i + 1)
StringStep(m, t) ==
    LET e == CharsEnd(t, m.i)
        key == m.ph = "keystring"
        type == IF key THEN "markup_attr" ELSE "string"
        lit == IF e > m.i THEN [Ev(m, "literal", m.i, <<SubSeq(t, m.i, e - 1)>>) EXCEPT !.i = e] ELSE m
        x == Escape(t, e)
        cut == [Tk(lit, lit.run, e, type) EXCEPT !.run = e]
    IN IF e > Len(t) THEN [Ev(m, "error", m.i, <<UntermString>>) EXCEPT !.v = "bad"]
       ELSE IF t[e] = 34
       THEN LET q == Ev(lit, IF key THEN "pop_property" ELSE "pop_string", e, <<>>) IN
            IF key THEN [Tk(q, q.run, e + 1, type) EXCEPT !.i = e + 1, !.ph = "colon"]
            ELSE After([Tk(Tk(q, q.run, e, type), e, e + 1, "string_delim") EXCEPT !.i = e + 1])
       ELSE IF t[e] = 92
       THEN IF x[1] = 0 THEN Fail(cut, IllegalEscape)
            ELSE [Tk(Ev(cut, "escape", e, <<SubSeq(t, e, e + x[1] - 1), x[2]>>), e, e + x[1], "string_escape")
                    EXCEPT !.i = e + x[1], !.run = e + x[1]]
       ELSE Fail(cut, IllegalCharacter)

\* `comments`: whether comments are allowed
Step(m, t, comments) ==
    IF m.ph \in {"string", "keystring"} THEN StringStep(m, t)
    ELSE LET c == At(t, m.i)
             top == Top(m)
         IN
    IF c \in WSP THEN Whitespace(m, t)
    ELSE IF Has(t, m.i, <<47, 47>>) THEN (IF comments THEN LineComment(m, t) ELSE Fail(m, Comment))
    ELSE IF Has(t, m.i, <<47, 42>>) THEN (IF comments THEN BlockComment(m, t) ELSE Fail(m, Comment))
    ELSE IF c = 0 - 1
    THEN CASE m.ph = "after" /\ top = "R" -> [m EXCEPT !.v = "ok"]
           [] m.ph = "value" /\ top = "R" -> Fail(m, General)
           [] m.ph = "colon" \/ (m.ph = "value" /\ top = "O") -> Fail(m, Valueless)
           [] OTHER -> Fail(m, IF top = "O" THEN UntermObject ELSE UntermArray)
    ELSE CASE m.ph = "value" /\ top = "O" /\ c \in {125, 44} -> Fail(m, Valueless)
           [] m.ph = "value" -> Value(m, t)
           [] m.ph = "first" -> IF c = 93 THEN End(m, t, "pop_array", "symbol_square") ELSE Value(m, t)
           [] m.ph = "firstkey" /\ c = 125 -> End(m, t, "pop_object", "symbol_brace")
           [] m.ph \in {"firstkey", "key"} -> IF c = 34 THEN OpenKey(m, t) ELSE Fail(m, IllegalCharacter)
           [] m.ph = "colon" ->
                IF c = 58 THEN [Tk(m, m.i, m.i + 1, "symbol_punc") EXCEPT !.i = m.i + 1, !.ph = "value"]
                ELSE Fail(m, Valueless)
           [] m.ph = "after" ->
                CASE c = 44 /\ top # "R" ->
                        [Tk(m, m.i, m.i + 1, "symbol_punc") EXCEPT !.i = m.i + 1, !.ph = IF top = "A" THEN "value" ELSE "key"]
                  [] c = 93 /\ top = "A" -> End(m, t, "pop_array", "symbol_square")
                  [] c = 125 /\ top = "O" -> End(m, t, "pop_object", "symbol_brace")
                  [] OTHER -> Fail(m, IllegalCharacter)
================================================================================
