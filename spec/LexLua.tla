--------------------------------- MODULE LexLua ---------------------------------
(* Lua.                                                                           *)
EXTENDS Lex

LuaControl == Ws({"break", "do", "else", "elseif", "end", "for", "goto", "if", "repeat", "return", "then", "until", "while"})
LuaKeywords == Ws({"and", "function", "in", "local", "not", "or"})
LuaKeyword(w) ==
  CASE w \in LuaControl -> "keyword_control"
    [] w \in LuaKeywords -> "keyword"
    [] w \in Ws({"false", "true"}) -> "bool"
    [] w = W("nil") -> "null"
    [] OTHER -> "name"
LuaOps == Ws({"#", "%", "&", "*", "+", "-", ".", "..", "...", "/", "//", ":", "::", "<", "<<", "<=", "=", "==", ">", ">=", ">>",
              "^", "|", "~", "~="})

(* A long bracket [==[ at i: the number of equals signs, or -1. *)
LuaLong(i) == IF At(i) = 91
              THEN LET e == Span(i + 1, {61}) IN IF At(e) = 91 THEN e - i - 1 ELSE 0 - 1
              ELSE 0 - 1
LuaClose(n) == [k \in 1 .. n + 2 |-> IF k \in {1, n + 2} THEN 93 ELSE 61]

(* The end of a quoted string opened at i: its closing quote, its line or the text. *)
RECURSIVE LuaQuoted(_, _)
LuaQuoted(j, q) ==
  CASE j >= N -> N
    [] At(j) = Bs -> LuaQuoted(Min2(j + 2, N), q)
    [] At(j) = q -> j + 1
    [] At(j) = LF -> j
    [] OTHER -> LuaQuoted(j + 1, q)

LuaNumber(i) ==
  LET hex == At(i) = 48 /\ At(i + 1) \in Chars("xX")
      h1 == Span(i + 2, HexDigit)
      h2 == IF At(h1) = 46 THEN Span(h1 + 1, HexDigit) ELSE h1
      h3 == IF At(h2) \in Chars("pP")
            THEN Span(IF At(h2 + 1) \in Chars("+-") THEN h2 + 2 ELSE h2 + 1, Digit) ELSE h2
      d1 == Span(i, Digit)
      d2 == IF d1 > i THEN (IF At(d1) = 46 THEN Span(d1 + 1, Digit) ELSE d1)
            ELSE IF At(i) = 46 /\ At(i + 1) \in Digit THEN Span(i + 1, Digit) ELSE i
      x == IF At(d2 + 1) \in Chars("+-") THEN d2 + 2 ELSE d2 + 1
      d3 == IF d2 > i /\ At(d2) \in Chars("eE") /\ At(x) \in Digit THEN Span(x, Digit) ELSE d2
  IN IF hex THEN h3 ELSE d3

LuaInit == ""
LuaStep ==
  LET c == At(p)
      com == LuaLong(p + 2)
      cl == Delimited(p, com + 4, LuaClose(com), "comment", "comment_delim")
      lc == LineComment(p, 2)
      long == LuaLong(p)
      sl == Delimited(p, long + 2, LuaClose(long), "string", "string")
      qe == LuaQuoted(p + 1, c)
      ne == LuaNumber(p)
      ie == IdEnd(p, Alpha \cup {95}, Word)
      op == Longest(p, 3, LuaOps)
  IN CASE Has(p, W("<const>")) -> To(p + 7, mode, K(p, 1, "name_attr_delim") \o K(p + 1, 5, "name_attr")
                                                  \o K(p + 6, 1, "name_attr_delim"))
       [] c \in CWhite -> Skip(1)
       [] Has(p, W("--")) -> IF com >= 0 THEN To(cl.e, mode, cl.k) ELSE To(lc.e, mode, lc.k)
       [] c \in {Dq, Sq} -> Go(qe - p, "string")
       [] long >= 0 -> To(sl.e, mode, sl.k)
       [] ne > p -> Go(ne - p, "number")
       [] ie > p -> Go(ie - p, LuaKeyword(Slice(p, ie)))
       [] op > 0 -> Go(op, "symbol_op")
       [] c \in Chars("()") -> Go(1, "symbol_parens")
       [] c \in Chars("[]") -> Go(1, "symbol_square")
       [] c \in Chars("{}") -> Go(1, "symbol_brace")
       [] c \in Chars(",;") -> Go(1, "symbol_punc")
       [] OTHER -> Go(CpLen(p), "symbol")

================================================================================
