------------------------------- MODULE JsonModel --------------------------------
(* Every text of up to MaxLen lexemes is parsed by the machine. The result is        *)
(* compared with the grammar of RFC 8259 (with comments as whitespace).              *)
EXTENDS JsonMachine, FiniteSets, TLC
CONSTANTS MaxLen
VARIABLES t, n, m, comments
vars == <<t, n, m, comments>>

Lexemes == { <<123>>, <<125>>, <<91>>, <<93>>, <<44>>, <<58>>, <<34>>, <<34, 107, 34>>, <<49>>, <<48>>, <<32>>, <<92, 110>>, <<46>>,
             <<110, 117, 108, 108>>, <<47, 47, 10>>, <<47, 42, 42, 47>>, <<101>>, <<10>> }

Init == /\ t = <<>> /\ n = 0 /\ comments \in BOOLEAN /\ m = [Start EXCEPT !.v = "write"]
Write == /\ m.v = "write" /\ n < MaxLen
         /\ \E x \in Lexemes : t' = t \o x
         /\ n' = n + 1 /\ UNCHANGED <<m, comments>>
Go == m.v = "write" /\ m' = Start /\ UNCHANGED <<t, n, comments>>
Run == m.v = "run" /\ m' = Step(m, t, comments) /\ UNCHANGED <<t, n, comments>>
Spec == Init /\ [][Write \/ Go \/ Run]_vars

\* ---- the grammar, over half-open ranges [a, b) of t ----
RECURSIVE WS(_, _)
WS(a, b) ==
    \/ a = b
    \/ a < b /\ t[a] \in WSP /\ WS(a + 1, b)
    \/ comments /\ a + 2 <= b /\ Has(t, a, <<47, 47>>)
       /\ (LineEnd(t, a + 2) <= b) /\ WS(LineEnd(t, a + 2), b)
    \/ comments /\ a + 4 <= b /\ Has(t, a, <<47, 42>>)
       /\ BlockEnd(t, a + 2) # 0 /\ BlockEnd(t, a + 2) <= b /\ WS(BlockEnd(t, a + 2), b)
Chars(a, b) == \* contents of a string
    \A i \in a .. (b - 1) :
        /\ t[i] >= 32
        /\ t[i] = 34 => i > a /\ t[i - 1] = 92 /\ ~(i > a + 1 /\ t[i - 2] = 92)
        /\ t[i] = 92 => \/ i + 1 < b /\ t[i + 1] \in {110, 34, 92}
                        \/ i > a /\ t[i - 1] = 92
Str(a, b) == b >= a + 2 /\ t[a] = 34 /\ t[b - 1] = 34 /\ Chars(a + 1, b - 1)
Num(a, b) == \* the numbers over the digits 0 and 1, '.', 'e'
    LET D(x, y) == y > x /\ \A i \in x .. (y - 1) : t[i] \in Digit
        Whole(x, y) == D(x, y) /\ (y = x + 1 \/ t[x] # 48)
        Frac(x, y) == x = y \/ (t[x] = 46 /\ D(x + 1, y))
        Exp(x, y) == x = y \/ (t[x] = 101 /\ D(x + 1, y))
    IN \E x \in a .. b : \E y \in x .. b : Whole(a, x) /\ Frac(x, y) /\ Exp(y, b)
RECURSIVE IsValue(_, _), Elements(_, _), Members(_, _)
Padded(a, b) == \E x \in a .. b : \E y \in x .. b : WS(a, x) /\ y > x /\ IsValue(x, y) /\ WS(y, b)
Elements(a, b) == Padded(a, b) \/ \E c \in a .. (b - 1) : t[c] = 44 /\ Padded(a, c) /\ Elements(c + 1, b)
Member(a, b) == \E c \in a .. (b - 1) :
    /\ t[c] = 58 /\ Padded(c + 1, b)
    /\ \E x \in a .. c : \E y \in x .. c : WS(a, x) /\ Str(x, y) /\ WS(y, c)
Members(a, b) == Member(a, b) \/ \E c \in a .. (b - 1) : t[c] = 44 /\ Member(a, c) /\ Members(c + 1, b)
IsValue(a, b) ==
    \/ SubSeq(t, a, b - 1) = <<110, 117, 108, 108>>
    \/ Str(a, b) \/ Num(a, b)
    \/ t[a] = 91 /\ b >= a + 2 /\ t[b - 1] = 93 /\ (WS(a + 1, b - 1) \/ Elements(a + 1, b - 1))
    \/ t[a] = 123 /\ b >= a + 2 /\ t[b - 1] = 125 /\ (WS(a + 1, b - 1) \/ Members(a + 1, b - 1))
IsText == Padded(1, Len(t) + 1)

AcceptsJson == m.v \in {"ok", "bad"} => (m.v = "ok" <=> IsText)
\* ---- events ----
Opens == {"push_array", "push_object", "push_string", "push_property"}
Closes == [push_array |-> "pop_array", push_object |-> "pop_object", push_string |-> "pop_string",
           push_property |-> "pop_property"]
RECURSIVE Nest(_, _, _)
Nest(ev, i, stk) ==
    IF i > Len(ev) THEN stk
    ELSE IF ev[i][1] \in Opens THEN Nest(ev, i + 1, Append(stk, Closes[ev[i][1]]))
    ELSE IF ev[i][1] \in {"pop_array", "pop_object", "pop_string", "pop_property"}
    THEN IF stk # <<>> /\ stk[Len(stk)] = ev[i][1] THEN Nest(ev, i + 1, SubSeq(stk, 1, Len(stk) - 1)) ELSE <<"bad">>
    ELSE Nest(ev, i + 1, stk)
Balanced == Nest(m.ev, 1, <<>>) # <<"bad">> /\ (m.v = "ok" => Nest(m.ev, 1, <<>>) = <<>>)
Ordered == \A i \in 1 .. (Len(m.ev) - 1) : m.ev[i][2] <= m.ev[i + 1][2]
Lines == \A i \in DOMAIN m.ev :
    LET p == m.ev[i][2]
        lf == {j \in 1 .. p : t[j] = 10}
    IN m.ev[i][3] = Cardinality(lf) /\ \A j \in lf : m.ev[i][4] <= p - j
OneError == LET e == {i \in DOMAIN m.ev : m.ev[i][1] = "error"} IN
    /\ m.v = "bad" <=> e # {}
    /\ e \subseteq {Len(m.ev)}
\* every byte that is not whitespace of an accepted text is in exactly one token
Tokens ==
    /\ \A i \in 1 .. (Len(m.tk) - 1) : m.tk[i][1] + m.tk[i][2] <= m.tk[i + 1][1]
    /\ m.v = "ok" => \A p \in DOMAIN t :
          (\E i \in DOMAIN m.tk : m.tk[i][1] < p /\ p <= m.tk[i][1] + m.tk[i][2])
          \/ t[p] \in WSP
================================================================================
