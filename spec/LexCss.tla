--------------------------------- MODULE LexCss ---------------------------------
(* CSS (css-syntax-3), read without knowing whether the text is a style sheet, a  *)
(* block or a value.  mode: <<context, depth of braces>>.                         *)
EXTENDS Lex

CssInit == <<"top", 0>>
CssNewline == {LF, CR, 12}
CssStart == Alpha \cup {95} \cup NonAscii
CssIdent == CssStart \cup Digit \cup {45}

CssEscape(i) == At(i) = Bs /\ i + 1 < N /\ At(i + 1) \notin CssNewline
(* the end of the escape with the backslash at i *)
CssEscapeEnd(i) ==
  LET h == SpanTo(i + 1, HexDigit, Min2(N, i + 7))
      w == IF h > i + 1 THEN h ELSE i + 1
      eol == Has(w, <<CR, LF>>)
  IN IF eol THEN w + 2
     ELSE IF h > i + 1 THEN (IF At(h) \in HWhite THEN h + 1 ELSE h)
     ELSE IF i + 1 >= N THEN N ELSE Min2(N, i + 1 + CpLen(i + 1))
CssStartsIdent(i) ==
  IF At(i) = 45 THEN At(i + 1) \in CssStart \/ CssEscape(i + 1) ELSE At(i) \in CssStart \/ CssEscape(i)
RECURSIVE CssIdentEnd(_)
CssIdentEnd(i) == IF CssEscape(i) THEN CssIdentEnd(CssEscapeEnd(i))
                  ELSE IF At(i) \in CssIdent THEN CssIdentEnd(i + 1) ELSE i
RECURSIVE CssIdentToks(_, _)
CssIdentToks(i, ty) ==
  IF CssEscape(i) THEN Kr(i, CssEscapeEnd(i), "string_escape") \o CssIdentToks(CssEscapeEnd(i), ty)
  ELSE IF At(i) \in CssIdent THEN KF(i, Span(i, CssIdent) - i, ty) \o CssIdentToks(Span(i, CssIdent), ty)
  ELSE << >>
(* in values, names in front of a parenthesis are functions *)
CssName(i, ty) ==
  LET e == CssIdentEnd(i)
      y == IF ty # "name" \/ At(e) # 40 THEN ty
           ELSE IF LowerSeq(Slice(i, e)) = W("url") THEN "keyword" ELSE "name_function"
  IN [e |-> e, k |-> CssIdentToks(i, y)]

CssStartsNumber(i) == LET j == IF At(i) \in {43, 45} THEN i + 1 ELSE i
                      IN At(j) \in Digit \/ (At(j) = 46 /\ At(j + 1) \in Digit)
CssNumberEnd(i) ==
  LET a == Span(IF At(i) \in {43, 45} THEN i + 1 ELSE i, Digit)
      b == IF At(a) = 46 /\ At(a + 1) \in Digit THEN Span(a + 1, Digit) ELSE a
  IN IF At(b) \notin {69, 101} THEN b
     ELSE IF At(b + 1) \in Digit THEN Span(b + 1, Digit)
     ELSE IF At(b + 1) \in {43, 45} /\ At(b + 2) \in Digit THEN Span(b + 2, Digit) ELSE b
CssNumeric(i) ==
  LET e == CssNumberEnd(i)
      k == Kr(i, e, "number")
      u == CssName(e, "number_decor")
  IN IF CssStartsIdent(e) THEN [e |-> u.e, k |-> k \o u.k]
     ELSE IF At(e) = 37 THEN [e |-> e + 1, k |-> k \o K(e, 1, "number_decor")]
     ELSE [e |-> e, k |-> k]

(* the pieces of a string from i on, b being where the current piece began *)
RECURSIVE CssString(_, _, _)
CssString(b, i, q) ==
  IF i >= N \/ At(i) \in CssNewline THEN [e |-> i, k |-> Kr(b, i, "string")]
  ELSE IF At(i) = q THEN [e |-> i + 1, k |-> Kr(b, i + 1, "string")]
  ELSE IF At(i) = Bs
  THEN LET e == CssEscapeEnd(i)
           rest == CssString(e, e, q)
       IN [e |-> rest.e, k |-> Kr(b, i, "string") \o Kr(i, e, "string_escape") \o rest.k]
  ELSE CssString(b, i + 1, q)

CssStep ==
  LET c == At(p)
      x == mode[1]
      depth == mode[2]
      ty == CASE x = "top" -> "markup_tag" [] x = "at" -> "name_macro" [] x = "block" -> "markup_attr" [] x = "value" -> "name"
      outer == IF depth = 0 THEN "top" ELSE "block"
      com == Delimited(p, 2, W("*/"), "comment", "comment_delim")
      r(y) == To(y.e, mode, y.k)
      ident(y) == r(CssName(p, y))
      num == r(CssNumeric(p))
      bw == Span(p + 1, HWhite)
      be == CssIdentEnd(bw)
      selector == GoF(1, "markup_tag")
  IN CASE Has(p, W("/*")) -> To(com.e, mode, com.k)
       [] c \in HWhite -> Skip(1)
       [] c \in {Dq, Sq} -> r(CssString(p, p + 1, c))
       [] c = 35 -> (IF At(p + 1) \in CssIdent \/ CssEscape(p + 1)
                     THEN LET y == IF x = "value" THEN "value" ELSE ty
                              n == CssName(p + 1, y)
                          IN To(n.e, mode, K(p, 1, y) \o n.k)
                     ELSE Skip(1))
       [] c \in Chars("()") -> Go(1, "symbol_parens")
       [] c \in Chars("[]") -> Go(1, "symbol_square")
       [] c = 46 -> (IF CssStartsNumber(p) THEN num ELSE IF x = "top" THEN selector ELSE Skip(1))
       [] c = 43 -> (IF CssStartsNumber(p) THEN num ELSE IF x = "top" THEN selector ELSE Go(1, "symbol_op"))
       [] c = 45 -> (IF CssStartsNumber(p) THEN num
                     ELSE IF Has(p, W("-->")) THEN Go(3, "comment_delim")
                     ELSE IF CssStartsIdent(p + 1) THEN ident("name")
                     ELSE Go(1, IF x \in {"value", "at"} THEN "symbol_op" ELSE "error"))
       [] c = 44 -> Go(1, "symbol_punc")
       [] c = 58 -> (IF x = "top" THEN selector
                     ELSE To(p + 1, IF x = "block" THEN <<"value", depth>> ELSE mode, K(p, 1, "symbol_punc")))
       [] c = 59 -> To(p + 1, <<CASE x = "value" -> "block" [] x = "at" -> outer [] OTHER -> x, depth>>, K(p, 1, "symbol_punc"))
       [] c = 60 -> (IF Has(p, W("<!--")) THEN Go(4, "comment_delim") ELSE Go(1, "symbol_op"))
       [] c \in Chars(">~*") -> (IF x = "top" THEN selector ELSE Go(1, "symbol_op"))
       [] c = 64 -> LET n == CssName(p + 1, "name_macro")
                    IN IF CssStartsIdent(p + 1) THEN To(n.e, <<"at", depth>>, K(p, 1, "name_macro_delim") \o n.k)
                       ELSE To(p + 1, <<"at", depth>>, K(p, 1, "error"))
       [] c = 33 -> (IF LowerSeq(Slice(bw, be)) = W("important") THEN Go(be - p, "keyword") ELSE Skip(1))
       [] c = 123 -> To(p + 1, <<"block", depth + 1>>, K(p, 1, "symbol_brace"))
       [] c = 125 -> To(p + 1, <<IF depth > 1 THEN "block" ELSE "top", Max2(0, depth - 1)>>, K(p, 1, "symbol_brace"))
       [] c = Bs -> (IF CssEscape(p) THEN ident(ty) ELSE Go(1, "error"))
       [] c \in Digit -> num
       [] c \in CssStart -> ident(ty)
       [] OTHER -> Skip(1)

================================================================================
