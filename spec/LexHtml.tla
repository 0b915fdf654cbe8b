-------------------------------- MODULE LexHtml --------------------------------
(* HTML.  mode: "" or, inside of an element with text only, the name of that      *)
(* element.  Scripts and style sheets are read by the machines of JavaScript and  *)
(* CSS.                                                                           *)
EXTENDS LexXml

HtTagName == Alnum \cup {45, 46, 95} \cup LetterStart \cup LetterCont \cup {8364, 128512, 65279}
HtAttrName == (33 .. 126 \ Chars("\"'>/=")) \cup LetterStart \cup LetterCont \cup OtherChars
HtUnquotedEnd == HWhite \cup Chars("\"'=<>`")

HtNone == [e |-> 0, term |-> FALSE, ok |-> FALSE]
RECURSIVE HtCommentFrom(_)
HtCommentFrom(i) ==
  LET j == Find(i, {60, 45})
  IN IF j >= N THEN [e |-> N, term |-> FALSE, ok |-> TRUE]
     ELSE IF Has(j, W("-->")) THEN [e |-> j + 3, term |-> TRUE, ok |-> TRUE]
     ELSE IF Has(j, W("<!-->")) THEN [e |-> j + 5, term |-> TRUE, ok |-> TRUE]
     ELSE IF Has(j, W("<!--")) \/ Has(j, W("--!>")) THEN HtNone
     ELSE HtCommentFrom(j + 1)
(* a comment as the standard demands it: not all texts beginning with "<!--" are any *)
HtComment(i) ==
  IF ~Has(i, W("<!--")) \/ At(i + 4) = 62 \/ Has(i + 4, W("->")) THEN HtNone ELSE HtCommentFrom(i + 4)
HtCommentToks(i, c) == BlockComment(i, 4, c.e, c.term, 3)

HtEndTag(i) ==
  LET n == Find(i + 2, HWhite \cup {62})
      e == Find(n, {62})
  IN IF ~Has(i, W("</")) \/ n = i + 2 \/ e >= N THEN [e |-> 0, k |-> << >>, ok |-> FALSE]
     ELSE [e |-> e + 1, k |-> K(i, 2, "symbol_punc") \o Kr(i + 2, n, "markup_tag") \o K(e, 1, "symbol_punc"), ok |-> TRUE]

HtWs(s) == [s EXCEPT !.e = Span(@, HWhite)]
(* attribute values: [b, i) is the piece being read, up to a character of S, which belongs to it if incl *)
RECURSIVE HtValue(_, _, _, _)
HtValue(b, i, S, incl) ==
  LET n == HtmlRef(i)
      u == HtValue(i + n, i + n, S, incl)
  IN IF i >= N THEN [e |-> i, k |-> Kr(b, i, "string"), ok |-> TRUE]
     ELSE IF At(i) \in S THEN [e |-> i + incl, k |-> Kr(b, i + incl, "string"), ok |-> TRUE]
     ELSE IF n > 0 THEN [u EXCEPT !.k = Kr(b, i, "string") \o K(i, n, "string_escape") \o @]
     ELSE HtValue(b, i + 1, S, incl)
HtAttribute(s) ==
  LET e == SpanCp(s.e, HtAttrName)
      a == HtWs(XmAdd(s, e - s.e, "markup_attr"))
      b == HtWs(XmAdd(a, 1, "symbol_punc"))
      c == At(b.e)
  IN IF e = s.e THEN [s EXCEPT !.ok = FALSE]
     ELSE IF At(a.e) # 61 THEN a
     ELSE XmJoin(b, IF c \in {Dq, Sq} THEN HtValue(b.e, b.e + 1, {c}, 1) ELSE HtValue(b.e, b.e, HtUnquotedEnd, 0))
RECURSIVE HtAttributes(_)
HtAttributes(s) ==
  LET a == HtWs(s)
  IN IF s.e >= N \/ ~s.ok THEN s
     ELSE IF Has(a.e, W("/>")) THEN XmAdd(a, 2, "symbol_punc")
     ELSE IF Has(a.e, W(">")) THEN XmAdd(a, 1, "symbol_punc")
     ELSE HtAttributes(HtAttribute(a))

(* where the text of a script or style sheet ends *)
RECURSIVE HtRawEnd(_, _)
HtRawEnd(i, name) ==
  LET j == FindSeq(i, W("</"))
      e == j + 2 + Len(name)
  IN IF ~Has(j, W("</")) THEN N
     ELSE IF ~HasLow(j + 2, name) THEN HtRawEnd(j + 2, name)
     ELSE IF e >= N THEN N
     ELSE IF At(e) \in HWhite \cup Chars(">/") THEN j ELSE HtRawEnd(e, name)

HtTextNames == Ws({"title", "textarea"})
HtTextStep ==
  LET i == Find(p, {60, 38})
      n == HtmlRef(i)
      e == i + 2 + Len(mode)
  IN IF i >= N THEN To(N, mode, << >>)
     ELSE IF n > 0 THEN To(i + n, mode, K(i, n, "string_escape"))
     ELSE IF ~Has(i, W("</")) THEN To(i + 1, mode, << >>)
     ELSE IF ~HasLow(i + 2, mode) THEN To(i + 2, mode, << >>)
     ELSE IF e >= N THEN To(N, mode, << >>)
     ELSE IF At(e) \in HWhite \cup Chars(">/") THEN To(i, << >>, << >>)
     ELSE To(e, mode, << >>)

HtmlInit == << >>
HtStartTag ==
  LET e == SpanCp(p + 1, HtTagName)
      name == LowerSeq(Slice(p + 1, e))
      a == HtAttributes(XmAdd(XmAdd(XmAt(p), 1, "symbol_punc"), e - (p + 1), "markup_tag"))
      raw(lang) == LET x == HtRawEnd(a.e, name) IN IF x > a.e THEN Enter(a.e, << >>, a.k, lang, x) ELSE To(a.e, << >>, a.k)
  IN IF e = p + 1 THEN Go(1, "symbol_punc")
     ELSE IF ~a.ok THEN To(a.e, << >>, a.k)
     ELSE IF name \in HtTextNames THEN To(a.e, name, a.k)
     ELSE IF name = W("script") THEN raw("js")
     ELSE IF name = W("style") THEN raw("css")
     ELSE To(a.e, << >>, a.k)
HtmlStep ==
  LET c == HtComment(p)
      cd == CdataSection(XmAt(p))
      et == HtEndTag(p)
      dt == Min2(N, Find(p, {62}) + 1)
      ref == HtmlRef(p)
  IN IF mode # << >> THEN HtTextStep
     ELSE IF c.ok THEN To(c.e, mode, HtCommentToks(p, c))
     ELSE IF HasLow(p, W("<!doctype")) THEN Go(dt - p, "name_macro")
     ELSE IF Has(p, W("<![CDATA[")) THEN To(cd.e, mode, cd.k)
     ELSE IF et.ok THEN To(et.e, mode, et.k)
     ELSE IF At(p) = 60 THEN HtStartTag
     ELSE IF At(p) = 38 THEN (IF ref > 0 THEN Go(ref, "string_escape") ELSE Skip(1))
     ELSE To(Find(p, {60, 38}), mode, << >>)

================================================================================
