--------------------------------- MODULE LexJson ---------------------------------
(* JSON and JSONC, in particular how the highlighting recovers from what is not    *)
(* JSON.  The mode is <<phase, arrays ("A") and objects ("O") which are open>>.    *)
(*   value   before the value of the whole text                                    *)
(*   item    in an array                                                           *)
(*   member  before a property; colon: after its key; right: after its colon;      *)
(*   next    after a member                                                        *)
(*   string, key   in a string; rest   after everything there is to highlight      *)
EXTENDS Lex

JnWhite == {32, 9, 10, 13}
JnControl == 0 .. 31
JnStrEnd == JnControl \cup {Dq, Bs}

JnAfter(s) == <<CASE s = << >> -> "end" [] s[Len(s)] = "A" -> "item" [] OTHER -> "next", s>>
JnPop(s) == JnAfter(SubSeq(s, 1, Len(s) - 1))

(* -?digits(.digits)?([eE][+-]?digits)?, whatever is missing of it. *)
JnNumber(i) ==
  LET a == IF At(i) = 45 THEN i + 1 ELSE i
      b == Span(a, Digit)
      c == IF At(b) = 46 THEN Span(b + 1, Digit) ELSE b
      d == IF At(c) \in Chars("eE") THEN (IF At(c + 1) \in Chars("+-") THEN c + 2 ELSE c + 1) ELSE c
      e == IF d > c THEN Span(d, Digit) ELSE c
  IN [e |-> e, bad |-> \/ b = a \/ (b >= a + 2 /\ At(a) = 48)
                       \/ (c > b /\ c = b + 1) \/ (d > c /\ e = d)]

(* A value at p, in what is open; not a value: Else *)
JnValue(s, Else) ==
  LET c == At(p)
      n == JnNumber(p)
      ie == IF c \in Alpha THEN Span(p, Alnum) ELSE p
      w == Slice(p, ie)
  IN CASE c = Dq -> To(p + 1, <<"string", s>>, K(p, 1, "string_delim"))
       [] n.e > p -> To(n.e, JnAfter(s), Kr(p, n.e, IF n.bad THEN "error" ELSE "number"))
       [] c = 123 -> To(p + 1, <<"member", Append(s, "O")>>, K(p, 1, "symbol_brace"))
       [] c = 91 -> To(p + 1, <<"item", Append(s, "A")>>, K(p, 1, "symbol_square"))
       [] ie > p -> To(ie, JnAfter(s), IF w = W("null") THEN Kr(p, ie, "null")
                                       ELSE IF w \in Ws({"true", "false"}) THEN Kr(p, ie, "bool")
                                       ELSE KF(p, ie - p, "error"))
       [] OTHER -> Else

JnEscape(m) ==
  LET c == At(p + 1)
      u == EscAdd(Exactly(p + 2, HexDigit, 4), 2)
  IN CASE c = 117 -> To(p + u.n, m, EscTok(p, u))
       [] c \in Chars("\"\\/bfnrt") -> To(p + 2, m, K(p, 2, "string_escape"))
       [] OTHER -> To(p + 1, m, K(p, 1, "error"))

(* In a string: a line break ends it, other control characters do not. *)
JnString(m, key) ==
  LET c == At(p)
      j == Find(p, JnStrEnd)
      s == m[2]
      end == IF key THEN <<"colon", s>> ELSE JnAfter(s)
  IN CASE c = Bs -> JnEscape(m)
       [] c \in {LF, CR, 11} -> To(p, end, << >>)
       [] c \in JnControl -> To(p + 1, m, K(p, 1, "error"))
       [] key -> IF At(j) = Dq THEN To(j + 1, end, Kr(p, j + 1, "markup_attr"))
                 ELSE To(j, m, Kr(p, j, "markup_attr"))
       [] c = Dq -> To(p + 1, end, K(p, 1, "string_delim"))
       [] OTHER -> To(j, m, Kr(p, j, "string"))
JnKey(s) ==
  LET j == Find(p + 1, JnStrEnd)
  IN IF At(j) = Dq THEN To(j + 1, <<"colon", s>>, Kr(p, j + 1, "markup_attr"))
     ELSE To(j, <<"key", s>>, Kr(p, j, "markup_attr"))

JsonInit == <<"value", << >> >>
JsonStep(comments) ==
  LET c == At(p)
      ph == mode[1]
      s == mode[2]
      le == UniLineEnd(p)
      bc == Delimited(p, 2, W("*/"), "comment", "comment_delim")
      illegal == KF(p, 1, "error")
      over == c \in Chars("},")
  IN CASE ph = "rest" -> To(N, mode, << >>)
       [] ph \in {"string", "key"} -> JnString(mode, ph = "key")
       [] c \in JnWhite -> Skip(1)
       [] comments /\ Has(p, W("//")) -> To(le, mode, K(p, 2, "comment_delim") \o Kr(p + 2, le, "comment"))
       [] comments /\ Has(p, W("/*")) -> To(bc.e, mode, bc.k)
       [] ph = "value" -> JnValue(s, To(p, <<"rest", s>>, << >>))
       [] ph = "end" -> To(p, <<"rest", s>>, << >>)
       [] ph = "item" -> (CASE c = 93 -> To(p + 1, JnPop(s), K(p, 1, "symbol_square"))
                            [] c = 44 -> Go(1, "symbol_punc")
                            [] OTHER -> JnValue(s, To(p + 1, mode, illegal)))
       [] ph = "member" -> (CASE over -> To(p, <<"next", s>>, << >>)
                              [] c = Dq -> JnKey(s)
                              [] OTHER -> To(p, <<"colon", s>>, << >>))
       [] ph = "colon" -> IF c = 58 THEN To(p + 1, <<"right", s>>, K(p, 1, "symbol_punc")) ELSE To(p, <<"next", s>>, << >>)
       [] ph = "right" -> IF over THEN To(p, <<"next", s>>, << >>) ELSE JnValue(s, To(p, <<"next", s>>, << >>))
       [] OTHER -> (CASE c = 125 -> To(p + 1, JnPop(s), K(p, 1, "symbol_brace"))
                      [] c = 44 -> To(p + 1, <<"member", s>>, K(p, 1, "symbol_punc"))
                      [] OTHER -> To(p + 1, <<"member", s>>, illegal))

================================================================================
