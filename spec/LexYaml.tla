-------------------------------- MODULE LexYaml ---------------------------------
(* YAML, as far as highlighting goes: documents are sequences of lines, each of which *)
(* is told by how it begins; nodes within a line are read by a machine with a stack of *)
(* flow collections.  How deep a line is indented matters only for block scalars.  *)
(* mode: [s |-> state, n |-> indentation, f |-> flow collections, innermost last]     *)
(*   "doc", "dirs", "suffix"  at the start of a document, behind directives, at its end *)
(*   "body"   at the beginning of a line of a document                                *)
(*   "rest"   behind the indicator of an entry                                        *)
(*   "node?"  at a node, or at a key; n is the indentation                             *)
(*   "node"   at a node                                                              *)
(*   "fin"    behind a node                                                          *)
(*   "scalar", "lead", "content"   at the header of a block scalar, behind it, and in it *)
(*   "flow"   in a flow collection; the innermost is at                               *)
(*     "[", "[n"   an entry of a sequence; a node in it                               *)
(*     "{", "{k", "{kn", "{c", "{v", "{vn"  an entry of a mapping, its key, the node of it, *)
(*                                         its colon, its value, the node of it       *)
EXTENDS Lex

YmInit == [s |-> "doc", n |-> 0, f |-> << >>]
YmAt(s, n) == [s |-> s, n |-> n, f |-> << >>]
YmTop == mode.f[Len(mode.f)]
YmSet(x) == [mode EXCEPT !.f[Len(mode.f)] = x]
YmPop == IF Len(mode.f) = 1 THEN YmAt("fin", 0) ELSE [mode EXCEPT !.f = SubSeq(@, 1, Len(@) - 1)]

YmBlank == {32, 9}
YmBreak == {LF, CR}
YmIndicator == Chars(",[]{}")
YmNoWord == Chars(",[]{}# &*!") \cup {LF, CR, 9}
YmSep(i) == i >= N \/ At(i) \in YmBlank \cup YmBreak
YmFlowSep(i) == YmSep(i) \/ At(i) \in YmIndicator
YmEntry(i) == At(i) \in Chars("-?:") /\ YmSep(i + 1)
YmLineStart(i) == i = 0 \/ At(i - 1) \in YmBreak
YmMarker(i, w) == YmLineStart(i) /\ Has(i, w) /\ YmSep(i + 3)

YmSkipLine(i) == SkipEol(CrLineEnd(i))
YmComment(i) == [e |-> CrLineEnd(i), k |-> K(i, 1, "comment_delim") \o Kr(i + 1, CrLineEnd(i), "comment")]
(* the rest of the line behind a node: highlighted only if a comment *)
YmFinish(i) == LET j == Span(i, YmBlank) IN [e |-> YmSkipLine(i), k |-> IF At(j) = 35 THEN YmComment(j).k ELSE << >>]
YmNothing(i) == i >= N \/ At(i) \in YmBreak \cup {35}

(* the code points of [i, j), one by one *)
RECURSIVE YmEach(_, _, _)
YmEach(i, j, ty) == IF i >= j THEN << >> ELSE K(i, CpLen(i), ty) \o YmEach(i + CpLen(i), j, ty)

--------------------------------------------------------------------------------
(* Directives, tags, anchors and aliases.                                         *)
RECURSIVE YmParams(_, _)
YmParams(i, e) ==
  IF i >= e THEN << >>
  ELSE IF At(i) \in YmBlank THEN (IF At(i + 1) = 35 THEN YmComment(i + 1).k ELSE YmParams(i + 1, e))
  ELSE K(i, CpLen(i), "string") \o YmParams(i + CpLen(i), e)
YmDirective(i) ==
  LET a == Find(i + 1, YmBlank \cup YmBreak)
  IN K(i, 1, "name_macro_delim") \o Kr(i + 1, a, "name_macro") \o YmParams(a, CrLineEnd(i))

YmProperty(i) ==
  LET suffix(j) == [e |-> Find(j, YmNoWord), k |-> YmEach(j, Find(j, YmNoWord), "name_attr")]
      add(k, r) == [e |-> r.e, k |-> k \o r.k]
      v == Find(i + 2, {62, LF, CR})
      h == Span(i + 1, Alnum \cup {45})
      a == Find(i + 1, YmNoWord)
  IN IF At(i) = 38 THEN [e |-> a, k |-> K(i, 1, "name_attr_delim") \o Kr(i + 1, a, "name")]
     ELSE IF Has(i, W("!<")) THEN
       [e |-> IF At(v) = 62 THEN v + 1 ELSE v,
        k |-> K(i, 2, "name_attr_delim") \o YmEach(i + 2, v, "name_attr") \o K(v, IF At(v) = 62 THEN 1 ELSE 0, "name_attr_delim")]
     ELSE IF Has(i, W("!!")) THEN add(K(i, 2, "name_attr_delim"), suffix(i + 2))
     ELSE IF h > i + 1 /\ At(h) = 33 THEN add(K(i, 1, "name_attr_delim") \o Kr(i + 1, h, "name_attr") \o K(h, 1, "name_attr_delim"), suffix(h + 1))
     ELSE add(K(i, 1, "name_attr_delim"), suffix(i + 1))
YmAtProperty == At(p) \in Chars("!&")
YmPropertyStep(m) == LET r == YmProperty(p) IN To(Span(r.e, YmBlank), m, r.k)

--------------------------------------------------------------------------------
(* Scalars: [e |-> end, k |-> highlights].                                         *)
YmEscape(i) ==
  LET c == At(i + 1)
      hex(m) == EscAdd(Exactly(i + 2, HexDigit, m), 2)
  IN CASE i + 1 >= N -> [n |-> 1, bad |-> TRUE]
       [] c \in Chars("0abefnrtv\"/\\_NLP ") \cup {9} -> [n |-> 2, bad |-> FALSE]
       [] c = 120 -> hex(2)
       [] c = 117 -> hex(4)
       [] c = 85 -> hex(8)
       [] c \in YmBreak -> [n |-> 1 + EolLen(i + 1), bad |-> FALSE]
       [] OTHER -> [n |-> 1, bad |-> TRUE]
(* contents of a quoted scalar from i on, [a, i) being pending *)
RECURSIVE YmQuoted(_, _, _)
YmQuoted(i, a, q) ==
  LET add(k, r) == [e |-> r.e, k |-> k \o r.k]
      flush == Kr(a, i, "string")
      c == At(i)
      after == Span(SkipEol(i), {32})
      esc == YmEscape(i)
  IN CASE i >= N -> [e |-> N, k |-> flush]
       [] c = q -> (IF q = Sq /\ At(i + 1) = Sq THEN YmQuoted(i + 2, a, q)
                    ELSE [e |-> i + 1, k |-> flush \o K(i, 1, "string_delim")])
       [] c \in YmBreak -> add(flush, YmQuoted(after, after, q))
       [] c = Bs /\ q = Dq -> add(flush \o EscTok(i, esc), YmQuoted(i + esc.n, i + esc.n, q))
       [] OTHER -> YmQuoted(i + 1, a, q)
(* the end of the contents of a quoted key: behind its quote *)
RECURSIVE YmQuotedKey(_, _)
YmQuotedKey(i, q) ==
  IF i >= N THEN N
  ELSE IF At(i) = q THEN (IF q = Sq /\ At(i + 1) = Sq THEN YmQuotedKey(i + 2, q) ELSE i + 1)
  ELSE IF q = Dq /\ At(i) = Bs /\ i + 1 < N THEN YmQuotedKey(i + 2, q)
  ELSE YmQuotedKey(i + 1, q)

(* A plain scalar extends to the end of the line, a comment, or a colon behind which the   *)
(* value of a key begins; in flow collections, also to their indicators.                *)
RECURSIVE YmUnblank(_, _)
YmUnblank(a, i) == IF i > a /\ At(i - 1) \in YmBlank THEN YmUnblank(a, i - 1) ELSE i
RECURSIVE YmPlainEnd(_, _, _)
YmPlainEnd(a, i, flow) ==
  LET c == At(i)
  IN CASE i >= N -> i
       [] c \in YmBreak -> i
       [] flow /\ c \in YmIndicator -> i
       [] c = 35 /\ (i = a \/ At(i - 1) \in YmBlank) -> YmUnblank(a, i)
       [] c = 58 /\ i > a /\ (IF flow THEN YmFlowSep(i + 1) ELSE YmSep(i + 1)) -> i
       [] OTHER -> YmPlainEnd(a, i + 1, flow)

YmNull == Ws({"~", "NULL", "Null", "null"})
YmBool == Ws({"FALSE", "False", "NO", "No", "OFF", "ON", "Off", "On", "TRUE", "True", "YES", "Yes", "false", "no", "off", "on", "true", "yes"})
YmInf == Ws({".inf", ".Inf", ".INF"})
YmSpecial == YmInf \cup Ws({".nan", ".NaN", ".NAN"})
YmPrefixes == << <<W("0x"), 16, FALSE>>, <<W("0X"), 16, FALSE>>, <<W("0o"), 8, FALSE>>, <<W("0O"), 8, FALSE>>,
                 <<W("0b"), 2, FALSE>>, <<W("0B"), 2, FALSE>> >>
YmPrefixed == [NumDefaults EXCEPT !.pre = YmPrefixes, !.nei = TRUE]
YmDecimal == [NumDefaults EXCEPT !.sign = {43, 45}, !.exp = << W("e+"), W("e-"), W("e"), W("E+"), W("E-"), W("E") >>]
YmIsNumber(a, e) ==
  LET w == Slice(a, e)
      all(r) == r.len = e - a /\ ~r.bad
      x == Span(a, Digit)
      y == Span(x + 1, Digit)
      z == Span(y + 1, Digit)
  IN \/ w \in YmSpecial
     \/ At(a) \in {43, 45} /\ Slice(a + 1, e) \in YmInf
     \/ IF \E k \in DOMAIN YmPrefixes : Has(a, YmPrefixes[k][1]) THEN all(Number(a, YmPrefixed, NoSuffix))
        ELSE IF x > a /\ x < e /\ At(x) = 58 /\ y > x + 1 THEN e = (IF y < e /\ At(y) = 58 THEN z ELSE y)
        ELSE all(Number(a, YmDecimal, NoSuffix))

YmScalar(i, key, flow) ==
  LET c == At(i)
      a == Find(i + 1, YmNoWord)
      r == YmQuoted(i + 1, i + 1, c)
      q == YmQuotedKey(i + 1, c)
      e == YmPlainEnd(i, i, flow)
      u == YmUnblank(i, e)
      w == Slice(i, u)
  IN CASE c \in {Dq, Sq} -> (IF key THEN [e |-> q, k |-> Kr(i, q, "markup_attr")]
                             ELSE [e |-> r.e, k |-> K(i, 1, "string_delim") \o r.k])
       [] c = 42 -> [e |-> a, k |-> K(i, 1, "name_attr_delim") \o Kr(i + 1, a, "name")]
       [] e = i -> [e |-> i, k |-> << >>]
       [] w \in YmNull -> [e |-> u, k |-> Kr(i, u, "null")]
       [] w \in YmBool -> [e |-> u, k |-> Kr(i, u, "bool")]
       [] OTHER -> IF YmIsNumber(i, u) THEN [e |-> u, k |-> Kr(i, u, "number")]
                   ELSE [e |-> e, k |-> Kr(i, e, IF key THEN "markup_attr" ELSE "string")]

(* The colon of the key which begins at i, or -1: outside of a comment and of the quotes   *)
(* with which the key begins, on the same line, and standing alone.                      *)
RECURSIVE YmKeyQuote(_, _)
YmKeyQuote(i, q) ==
  CASE i >= N -> i
    [] At(i) \in YmBreak -> i
    [] At(i) = q -> (IF q = Sq /\ At(i + 1) = Sq THEN YmKeyQuote(i + 2, q) ELSE i + 1)
    [] q = Dq /\ At(i) = Bs /\ At(i + 1) \notin YmBreak -> YmKeyQuote(i + 2, q)
    [] OTHER -> YmKeyQuote(i + 1, q)
RECURSIVE YmColon(_, _)
YmColon(a, i) ==
  CASE i >= N -> 0 - 1
    [] At(i) \in YmBreak -> 0 - 1
    [] At(i) = 35 /\ i > a /\ At(i - 1) \in YmBlank -> 0 - 1
    [] At(i) = 58 /\ YmSep(i + 1) -> i
    [] OTHER -> YmColon(a, i + 1)
YmKey(i) == IF At(i) \in Chars("[{") THEN 0 - 1
            ELSE IF At(i) \in {Dq, Sq} THEN YmColon(i, YmKeyQuote(i + 1, At(i))) ELSE YmColon(i, i)

--------------------------------------------------------------------------------
YmFinishStep(i, ks) == LET f == YmFinish(i) IN To(f.e, YmAt("body", 0), ks \o f.k)
(* an entry whose indicator is at q, indented by n *)
YmEntryStep(q, n) ==
  LET j == Span(q + 1, YmBlank)
  IN IF YmNothing(j) THEN YmFinishStep(j, K(q, 1, "symbol_punc")) ELSE To(j, YmAt("rest", n + 1), K(q, 1, "symbol_punc"))
YmBlankLine == LET b == Span(p, YmBlank) IN YmNothing(b)
YmBlankStep == LET b == Span(p, YmBlank)
               IN IF At(b) = 35 THEN To(SkipEol(YmComment(b).e), mode, YmComment(b).k) ELSE To(SkipEol(b), mode, << >>)

YmDocStep ==
  IF At(p) = 37 THEN To(YmSkipLine(p), YmAt("dirs", 0), YmDirective(p))
  ELSE IF YmMarker(p, W("---")) THEN To(Span(p + 3, YmBlank), YmAt("body", 0), K(p, 3, "symbol_punc"))
  ELSE To(p, YmAt("body", 0), << >>)
YmBodyStep ==
  LET q == Span(p, {32})
  IN IF YmMarker(p, W("---")) \/ YmMarker(p, W("...")) THEN To(p, YmAt("suffix", 0), << >>)
     ELSE IF YmEntry(q) THEN YmEntryStep(q, q - p)
     ELSE IF At(q) \in Chars("|>") /\ (At(q + 1) = 32 \/ EolLen(q + 1) > 0) THEN To(q, YmAt("scalar", q - p), << >>)
     ELSE To(q, YmAt("node?", q - p), << >>)
YmKeyStep ==
  LET c == YmKey(p)
      v == Span(c + 1, YmBlank)
      ks == Kr(p, YmUnblank(p, c), "markup_attr") \o K(c, 1, "symbol_punc")
  IN IF YmAtProperty THEN YmPropertyStep(mode)
     ELSE IF YmNothing(p) THEN YmFinishStep(p, << >>)
     ELSE IF c < 0 THEN To(Span(p, YmBlank), YmAt("node", mode.n), << >>)
     ELSE IF YmEntry(v) THEN To(YmSkipLine(v), YmAt("body", 0), ks)
     ELSE IF YmNothing(v) THEN YmFinishStep(v, ks)
     ELSE To(v, YmAt("node", mode.n), ks)
YmOpen(m) == To(p + 1, [s |-> "flow", n |-> 0, f |-> Append(m.f, IF At(p) = 91 THEN "[" ELSE "{")],
                K(p, 1, IF At(p) = 91 THEN "symbol_square" ELSE "symbol_brace"))
YmNodeStep ==
  LET r == YmScalar(p, FALSE, FALSE)
  IN IF YmAtProperty THEN YmPropertyStep(mode)
     ELSE IF At(p) \in Chars("[{") THEN YmOpen(YmAt("fin", 0))
     ELSE IF At(p) \in Chars("|>") THEN To(p, YmAt("scalar", mode.n), << >>)
     ELSE YmFinishStep(r.e, r.k)
YmScalarStep ==
  LET a == p + 1
      b == IF At(a) \in Chars("+-") THEN a + 1 ELSE a
      c == IF At(b) \in Chars("123456789") THEN b + 1 ELSE b
      d == IF c > b /\ b = a /\ At(c) \in Chars("+-") THEN c + 1 ELSE c
      f == YmFinish(d)
  IN To(f.e, YmAt("lead", mode.n), K(p, 1, "string_delim") \o YmEach(a, d, "number_decor") \o f.k)
YmLeadStep ==
  LET b == Span(p, {32})
  IN IF EolLen(b) > 0 THEN To(SkipEol(b), mode, << >>)
     ELSE IF b - p <= mode.n THEN To(p, YmAt("body", 0), << >>)
     ELSE To(p, YmAt("content", b - p), << >>)
YmContentStep ==
  LET b == Span(p, {32})
      i == b - p
  IN IF i <= mode.n /\ EolLen(b) > 0 THEN To(SkipEol(b), mode, << >>)
     ELSE IF i < mode.n THEN To(p, YmAt("body", 0), << >>)
     ELSE To(YmSkipLine(p), mode, Kr(p + mode.n, CrLineEnd(p), "string"))

(* a node in a flow collection, x being where the collection is behind it *)
YmFlowNode(key, x) ==
  LET r == YmScalar(p, key, TRUE)
  IN IF YmAtProperty THEN YmPropertyStep(mode)
     ELSE IF At(p) \in Chars("[{") THEN YmOpen(YmSet(x))
     ELSE To(r.e, YmSet(x), r.k)
YmFlowStep ==
  LET c == At(p)
      top == YmTop
      punct(m) == To(p + 1, m, K(p, 1, "symbol_punc"))
      stay(x) == To(p, YmSet(x), << >>)
      close(k) == To(p + 1, YmPop, K(p, 1, k))
      single == c \in Chars("?:") /\ YmFlowSep(p + 1)
  IN CASE top = "[n" -> YmFlowNode(FALSE, "[")
       [] top = "{kn" -> YmFlowNode(TRUE, "{c")
       [] top = "{vn" -> YmFlowNode(FALSE, "{")
       [] c \in YmBlank \cup YmBreak -> To(Span(p, YmBlank \cup YmBreak), mode, << >>)
       [] c = 35 -> To(YmComment(p).e, mode, YmComment(p).k)
       [] top = "[" -> (CASE c = 93 -> close("symbol_square")
                          [] c = 125 -> close("error")
                          [] c = 44 -> punct(mode)
                          [] OTHER -> IF single THEN punct(mode) ELSE stay("[n"))
       [] top = "{" -> (CASE c = 125 -> close("symbol_brace")
                          [] c = 93 -> close("error")
                          [] c = 44 -> punct(mode)
                          [] OTHER -> IF single /\ c = 63 THEN punct(YmSet("{k")) ELSE stay(IF single THEN "{c" ELSE "{kn"))
       [] top = "{k" -> stay(IF single /\ c = 58 THEN "{c" ELSE "{kn")
       [] top = "{c" -> IF c = 58 THEN punct(YmSet("{v")) ELSE stay("{")
       [] top = "{v" -> stay(IF c \in {44, 125} THEN "{" ELSE "{vn")

YmStep ==
  CASE mode.s = "flow" -> YmFlowStep
    [] mode.s = "scalar" -> YmScalarStep
    [] mode.s = "lead" -> YmLeadStep
    [] mode.s = "content" -> YmContentStep
    [] mode.s = "fin" -> YmFinishStep(p, << >>)
    [] mode.s = "node" -> YmNodeStep
    [] mode.s = "node?" -> YmKeyStep
    [] mode.s = "rest" -> IF YmEntry(p) THEN YmEntryStep(p, 0) ELSE To(p, YmAt("node?", mode.n), << >>)
    [] OTHER -> (CASE YmBlankLine -> YmBlankStep
                   [] mode.s \in {"doc", "dirs"} -> YmDocStep
                   [] mode.s = "suffix" -> (IF YmMarker(p, W("...")) THEN LET f == YmFinish(p + 3) IN To(f.e, mode, K(p, 3, "symbol_punc") \o f.k)
                                            ELSE To(p, YmAt("doc", 0), << >>))
                   [] OTHER -> YmBodyStep)
================================================================================
