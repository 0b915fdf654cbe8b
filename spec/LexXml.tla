--------------------------------- MODULE LexXml ---------------------------------
(* XML (REC-xml).  mode: "decl", "prolog", "content".  The operators Xm... take   *)
(* a position (or a state s = [e |-> position, k |-> highlights, ok |-> ...]) and *)
(* return such a state.                                                           *)
EXTENDS Lex

XmlInit == "decl"
XmWhite == {32, 9, 10, 13}
XmStart == LetterStart \cup Alpha \cup {58, 95} \cup {8364, 128512, 65279}
XmCont == XmStart \cup Digit \cup {45, 46} \cup LetterCont
XmAt(i) == [e |-> i, k |-> << >>, ok |-> TRUE]
XmAdd(s, n, ty) == [s EXCEPT !.e = @ + n, !.k = @ \o K(s.e, n, ty)]
XmIf(s, w, ty) == IF Has(s.e, w) THEN XmAdd(s, Len(w), ty) ELSE s
XmWs(s) == [s EXCEPT !.e = Span(@, XmWhite)]
XmJoin(s, u) == [e |-> u.e, k |-> s.k \o u.k, ok |-> u.ok]

(* a name, with an error for each code point which does not belong there: [b, i)  *)
(* is the piece of the name being read; up to whitespace or a member of stops     *)
RECURSIVE XmNameRun(_, _, _, _, _)
XmNameRun(b, i, first, ty, stops) ==
  IF i >= N \/ At(i) \in XmWhite \/ (\E w \in stops : Has(i, w)) THEN [e |-> i, k |-> Kr(b, i, ty), ok |-> TRUE]
  ELSE LET j == i + CpLen(i)
       IN IF Cp(i) \in XmCont /\ (~first \/ Cp(i) \in XmStart) THEN XmNameRun(b, j, FALSE, ty, stops)
          ELSE LET u == XmNameRun(j, j, FALSE, ty, stops) IN [u EXCEPT !.k = Kr(b, i, ty) \o Kr(i, j, "error") \o @]
XmName(s, ty, stops) == XmJoin(s, XmNameRun(s.e, s.e, TRUE, ty, stops))

(* the length of a reference "&...;" *)
RefEnd(i) == Find(i + 1, {59})
IsCharRef(a, j) ==
  /\ At(j) = 59
  /\ IF Has(a, W("#x")) THEN j > a + 2 /\ Span(a + 2, HexDigit) >= j
     ELSE IF At(a) = 35 THEN j > a + 1 /\ Span(a + 1, Digit) >= j
     ELSE j > a /\ Span(a, Alnum) >= j
HtmlRef(i) == IF At(i) = 38 /\ IsCharRef(i + 1, RefEnd(i)) THEN RefEnd(i) + 1 - i ELSE 0
XmEntityRef(i) == IF At(i) = 38 /\ At(RefEnd(i)) = 59 /\ SpanCp(i + 1, XmCont) = RefEnd(i) THEN RefEnd(i) + 1 - i ELSE 0
XmRef(i) == IF HtmlRef(i) > 0 THEN HtmlRef(i) ELSE IF XmEntityRef(i) > 2 THEN XmEntityRef(i) ELSE 0

RECURSIVE XmPieces(_, _, _)
XmPieces(b, i, q) ==
  IF i >= N THEN [e |-> i, k |-> Kr(b, i, "string"), ok |-> TRUE]
  ELSE IF At(i) = q THEN [e |-> i + 1, k |-> Kr(b, i, "string") \o K(i, 1, "string_delim"), ok |-> TRUE]
  ELSE LET n == XmRef(i)
           j == i + Max2(1, n)
       IN IF At(i) \in {38, 60}
          THEN LET u == XmPieces(j, j, q)
               IN [u EXCEPT !.k = Kr(b, i, "string") \o Kr(i, j, IF n > 0 THEN "string_escape" ELSE "error") \o @]
          ELSE XmPieces(b, i + 1, q)
XmValue(s) == IF At(s.e) \in {Dq, Sq} THEN XmJoin(XmAdd(s, 1, "string_delim"), XmPieces(s.e + 1, s.e + 1, At(s.e)))
              ELSE [s EXCEPT !.ok = FALSE]

XmComment(s) ==
  LET j == FindSeq(s.e + 4, W("--"))
      a == XmAdd(s, 4, "comment_delim")
      b == XmAdd(a, j - a.e, "comment")
  IN XmIf(b, W("-->"), "comment_delim")
XmPi(s) ==
  LET a == XmAdd(s, 2, "symbol_punc")
      b == XmName(a, "name_macro", {W("?>")})
      c == [b EXCEPT !.e = FindSeq(b.e, W("?>"))]
  IN IF b.e = a.e \/ LowerSeq(Slice(a.e, b.e)) = W("xml") THEN b ELSE XmIf(c, W("?>"), "symbol_punc")

--------------------------------------------------------------------------------
(* The XML declaration and the document type declaration.                         *)

XmNumber(s) ==
  LET n == Number(s.e, NumDefaults, NoSuffix)
  IN XmAdd(XmAdd(XmAdd(s, n.int, "number"), n.dot, "symbol_punc"), n.frac, "number")
XmDeclAttr(s, w) ==
  LET a == XmWs(XmAdd(s, Len(w), "markup_attr"))
      b == XmWs(XmAdd(a, 1, "symbol_punc"))
      v == XmValue(b)
  IN IF ~Has(s.e, w) THEN s
     ELSE IF At(a.e) # 61 THEN a
     ELSE IF ~v.ok /\ w = W("version") THEN XmNumber(b) ELSE v
XmDecl(s) ==
  LET a == XmWs(XmAdd(s, 5, "name_macro"))
      b == XmWs(XmDeclAttr(a, W("version")))
      c == XmWs(XmDeclAttr(b, W("encoding")))
      d == XmWs(XmDeclAttr(c, W("standalone")))
  IN XmIf(d, W("?>"), "name_macro")

XmAttTypes == Ws({"CDATA", "IDREFS", "IDREF", "ID", "ENTITY", "ENTITIES", "NMTOKENS", "NMTOKEN", "NOTATION"})
XmKeywords == Ws({"#REQUIRED", "#IMPLIED", "#FIXED", "PUBLIC", "SYSTEM", "EMPTY", "ANY", "NDATA", "#PCDATA"})
XmKeyword(i) ==
  LET a == Find(i, XmWhite \cup {62})
      n == Longest(i, 9, XmKeywords)
  IN IF Slice(i, a) \in XmAttTypes THEN a - i
     ELSE IF n > 0 /\ (i + n >= N \/ Cp(i + n) \notin XmCont) THEN n ELSE 0

RECURSIVE XmDeclBody(_)
XmDeclBody(s) ==
  LET i == s.e
      key == XmKeyword(i)
      ref == XmEntityRef(i)
      name == SpanCp(i, XmCont) - i
      u == IF At(i) \in Chars("()|*+?,") THEN XmAdd(s, 1, "symbol_punc")
           ELSE IF key > 0 THEN XmAdd(s, key, "keyword")
           ELSE IF ref > 0 THEN XmAdd(s, ref, "string_escape")
           ELSE IF name > 0 THEN XmAdd(s, name, "name")
           ELSE IF At(i) \in {Dq, Sq} THEN XmValue(s)
           ELSE [s EXCEPT !.e = Find(i, XmWhite \cup {62})]
  IN IF i >= N \/ At(i) = 62 THEN s ELSE XmDeclBody(XmWs(u))
XmMarkupDecl(s) ==
  LET a == XmWs(XmName(XmAdd(s, 2, "name_macro"), "name_macro", {W(">")}))
      b == IF At(a.e) = 37 THEN XmWs(XmAdd(a, 1, "symbol_punc")) ELSE a
  IN XmDeclBody(XmWs(XmName(b, "name", {W(">")})))
RECURSIVE XmSubset(_)
XmSubset(s) ==
  LET u == IF Has(s.e, W("<!--")) THEN XmComment(s)
           ELSE IF Has(s.e, W("<?")) THEN XmPi(s)
           ELSE IF Has(s.e, W("<!")) THEN XmMarkupDecl(s) ELSE s
  IN IF u.e = s.e THEN s ELSE XmSubset(XmWs(XmIf(XmWs(u), W(">"), "name_macro")))

(* what follows the name of the document type *)
XmExternal(s) ==
  LET w == Slice(s.e, Find(s.e, XmWhite))
      quoted(x) == IF At(x.e) \in {Dq, Sq} THEN XmValue(x) ELSE x
      a == XmWs(XmAdd(s, 6, "keyword"))
      other == XmWs([s EXCEPT !.e = Find(@, XmWhite)])
  IN IF XmKeyword(s.e) = 6 /\ Longest(s.e, 6, Ws({"PUBLIC", "SYSTEM"})) > 0
     THEN (IF w = W("SYSTEM") THEN quoted(a)
           ELSE IF w = W("PUBLIC") THEN quoted(XmWs(quoted(a))) ELSE s)
     ELSE IF At(s.e) \in Chars("[>") THEN s
     ELSE quoted(XmWs(quoted(other)))
XmDoctype(s) ==
  LET stops == {W("["), W(">")}
      a == XmWs(XmName(XmAdd(s, 2, "name_macro"), "name_macro", stops))
      b == XmWs(XmName(a, "name", stops))
      c == XmWs(XmExternal(b))
      d == XmSubset(XmWs(XmAdd(c, 1, "symbol_punc")))
  IN IF At(c.e) = 62 THEN XmAdd(c, 1, "name_macro")
     ELSE IF At(c.e) # 91 THEN c
     ELSE IF At(d.e) # 93 THEN d
     ELSE XmIf(XmWs(XmAdd(d, 1, "symbol_punc")), W(">"), "name_macro")

--------------------------------------------------------------------------------
(* Elements.                                                                      *)

XmAttribute(s) ==
  LET a == XmWs(XmName(s, "markup_attr", {W("/>"), W(">"), W("=")}))
  IN IF At(a.e) # 61 THEN a ELSE XmValue(XmWs(XmAdd(a, 1, "symbol_punc")))
RECURSIVE XmAttributes(_)
XmAttributes(s) ==
  LET a == XmWs(s)
      b == XmAttribute(a)
  IN IF ~s.ok \/ a.e >= N \/ At(a.e) = 62 \/ Has(a.e, W("/>")) THEN a ELSE XmAttributes(b)
XmStartTag(s) ==
  LET a == XmAdd(s, 1, "symbol_punc")
      b == XmName(a, "markup_tag", {W("/>"), W(">")})
      c == XmAttributes(b)
  IN IF b.e = a.e THEN a ELSE XmIf(c, IF At(c.e) = 62 THEN W(">") ELSE W("/>"), "symbol_punc")
XmEndTag(s) ==
  LET a == XmAdd(s, 2, "symbol_punc")
      b == XmName(a, "markup_tag", {W(">")})
  IN IF b.e = a.e THEN a ELSE XmIf(XmWs(b), W(">"), "symbol_punc")
CdataSection(s) ==
  LET a == XmAdd(s, 9, "name_macro")
      b == [a EXCEPT !.e = FindSeq(@, W("]]>"))]
  IN XmIf(b, W("]]>"), "name_macro")

XmlStep ==
  LET s == XmAt(p)
      to(m, u) == To(u.e, m, u.k)
      ref == XmRef(p)
  IN CASE mode = "decl" -> to("prolog", IF Has(p, W("<?xml")) /\ At(p + 5) \in XmWhite THEN XmDecl(s) ELSE s)
       [] mode = "prolog" -> (IF Has(p, W("<?")) THEN to("prolog", XmPi(s))
                              ELSE IF Has(p, W("<!--")) THEN to("prolog", XmComment(s))
                              ELSE IF At(p) \in XmWhite THEN to("prolog", XmWs(s))
                              ELSE to("content", IF Has(p, W("<!")) THEN XmDoctype(s) ELSE s))
       [] Has(p, W("<!--")) -> to(mode, XmComment(s))
       [] Has(p, W("<![CDATA[")) -> to(mode, CdataSection(s))
       [] Has(p, W("<?")) -> to(mode, XmPi(s))
       [] Has(p, W("</")) -> to(mode, XmEndTag(s))
       [] At(p) = 60 -> to(mode, XmStartTag(s))
       [] At(p) = 38 -> (IF ref > 0 THEN Go(ref, "string_escape") ELSE Go(1, "error"))
       [] OTHER -> To(Find(p, {60, 38}), mode, << >>)

================================================================================
