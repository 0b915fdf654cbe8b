-------------------------------- MODULE LexJs ----------------------------------
(* JavaScript, with JSX, and TypeScript.  mode: <<begin, frames>>: whether an      *)
(* expression (and so, a regular expression or a JSX tag) may begin, and what has  *)
(* been opened:                                                                    *)
(*    <<"sub", n>>      a substitution of a template, with n open braces           *)
(*    <<"jsx", n>>      the code in braces of JSX, with n open braces              *)
(*    <<"template">>    a template                                                 *)
(*    <<"tag", e, b>>   a JSX tag up to e; b: the name of the element is to come   *)
(*    <<"kids", n>>     the contents of a JSX element, with n open elements in it  *)
(*    <<"start">>       nothing: the beginning of a text                          *)
(*    <<"close">>       the closing brace of an expression in JSX                  *)
EXTENDS LexXml

JsOnlyTs == Ws({"abstract", "any", "asserts", "constructor", "declare", "implements", "interface", "is", "private", "protected",
                "public", "type"})
JsKeywords == Ws({"as", "async", "await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete",
                  "do", "else", "enum", "export", "extends", "finally", "for", "from", "function", "get", "if", "import", "in",
                  "instanceof", "let", "new", "of", "return", "set", "static", "super", "switch", "this", "throw", "try", "typeof",
                  "var", "void", "while", "with", "yield", "false", "true", "null", "undefined", "boolean", "number", "string"})
JsControl == Ws({"break", "case", "catch", "continue", "default", "do", "else", "finally", "for", "if", "return", "switch", "throw",
                 "try", "while", "with"})
JsBool == Ws({"false", "true"})
JsNull == Ws({"null", "undefined"})
JsBuiltin == Ws({"boolean", "number", "string"})
JsThis == Ws({"super", "this"})
JsKind(w) == CASE w \in JsControl -> "keyword_control" [] w \in JsBool -> "bool" [] w \in JsNull -> "null"
               [] w \in JsBuiltin -> "name_type_builtin" [] w \in JsThis -> "keyword_this" [] w = W("any") -> "keyword_type"
               [] OTHER -> "keyword"
JsIsKeyword(w, ts) == w \in JsKeywords \/ (ts /\ w \in JsOnlyTs)
(* after these, an expression begins *)
JsBefore == Ws({"return", "throw", "case", "default", "delete", "do", "else", "void", "typeof", "yield", "await", "instanceof", "in",
                "new"})
JsBeforeTs == Ws({"is"})

JsOps == Ws({"!", "!=", "!==", "%", "%=", "&", "&&", "&&=", "&=", "*", "**", "**=", "*=", "+", "++", "+=", "-", "--", "-=", ".", "...",
             "/", "/=", ":", "<", "<<", "<<=", "<=", "=", "==", "===", "=>", ">", ">=", ">>", ">>=", ">>>", ">>>=", "?", "?.", "??",
             "??=", "^", "^=", "|", "|=", "||", "||=", "~"})
JsPunc == Ws({",", ";"})
JsBrackets == Ws({"(", ")", "[", "]", "{", "}"})
JsAll == JsOps \cup JsPunc \cup JsBrackets
JsAt == W("@")
JsParens == Ws({"(", ")"})
JsBraces == Ws({"{", "}"})
JsOperands == Ws({"++", "--", ")", "]", "}"})     \* after these, no expression begins
JsOp(i, ts) == IF Has(i, W("?.")) /\ At(i + 2) \in Digit THEN 1 ELSE IF ts /\ At(i) = 64 THEN 1 ELSE Longest(i, 4, JsAll)
JsOpKind(w) == CASE w \in JsPunc \/ w = JsAt -> "symbol_punc" [] w \in JsParens -> "symbol_parens" [] w \in JsBraces -> "symbol_brace"
                 [] w \in JsBrackets -> "symbol_square" [] OTHER -> "symbol_op"

JsSpace == CWhite \cup {160, 8232, 65279}
JsWs(i) == SpanCp(i, JsSpace)
JsStart == XStart \cup {36, 95}
JsPart == XCont \cup {36}
JsId(i) == IdEnd(i, JsStart, JsPart)
JsxAttr(i) == IdEnd(i, JsStart, JsPart \cup {45, 58})
JsxName(i) == IdEnd(i, JsStart, JsPart \cup {45, 46, 58})

JsComment(i) ==
  IF Has(i, W("//")) THEN [e |-> UniLineEnd(i + 2), k |-> K(i, 2, "comment_delim") \o Kr(i + 2, UniLineEnd(i + 2), "comment")]
  ELSE IF Has(i, W("/*")) THEN Delimited(i, 2, W("*/"), "comment", "comment_delim")
  ELSE [e |-> i, k |-> << >>]
(* whitespace and comments *)
RECURSIVE JsGap(_)
JsGap(i) == LET j == JsComment(JsWs(i)).e IN IF j = i THEN i ELSE JsGap(j)

(* where the contents of a string end *)
JsTermLen(i) == IF Has(i, <<CR, LF>>) THEN 2 ELSE IF At(i) \in {LF, CR} THEN 1
                ELSE IF Has(i, <<226, 128, 168>>) \/ Has(i, <<226, 128, 169>>) THEN 3 ELSE 0
RECURSIVE JsContentEnd(_, _)
JsContentEnd(i, q) ==
  IF i >= N \/ At(i) \in {q, LF, CR} THEN Min2(i, N)
  ELSE IF At(i) = Bs THEN JsContentEnd(i + 1 + Max2(1, EolLen(i + 1)), q)
  ELSE JsContentEnd(i + 1, q)
JsEscape(i) ==
  LET c == At(i + 1)
  IN CASE c = 120 -> EscAdd(Exactly(i + 2, HexDigit, 2), 2)
       [] c = 117 /\ At(i + 2) = 123 -> EscAdd(Braced(i + 2, HexDigit), 2)
       [] c = 117 -> EscAdd(Exactly(i + 2, HexDigit, 4), 2)
       [] c \in 48 .. 51 -> EscAdd(UpToDigits(i + 1, OctDigit, 3), 1)
       [] c \in 52 .. 55 -> EscAdd(UpToDigits(i + 1, OctDigit, 2), 1)
       [] OTHER -> [n |-> 1 + Max2(JsTermLen(i + 1), CpLen(i + 1)), bad |-> FALSE]
RECURSIVE JsContents(_, _)
JsContents(i, e) ==
  LET j == FindTo(i, {Bs}, e)
      esc == JsEscape(j)
      n == Min2(esc.n, e - j)
  IN IF i >= e THEN << >>
     ELSE IF j >= e - 1 THEN Kr(i, e, "string")
     ELSE Kr(i, j, "string") \o K(j, n, IF esc.bad THEN "error" ELSE "string_escape") \o JsContents(j + n, e)
JsStringEnd(i) == LET e == JsContentEnd(i + 1, At(i)) IN IF e < N /\ At(e) = At(i) THEN e + 1 ELSE e
JsString(i) ==
  LET e == JsContentEnd(i + 1, At(i))
  IN K(i, 1, "string_delim") \o JsContents(i + 1, e) \o Kr(e, JsStringEnd(i), "string_delim")

JsNumberOptions == [NumDefaults EXCEPT !.zbase = 8, !.sep = 95,
  !.pre = << <<W("0b"), 2, FALSE>>, <<W("0B"), 2, FALSE>>, <<W("0o"), 8, FALSE>>, <<W("0O"), 8, FALSE>>,
             <<W("0x"), 16, FALSE>>, <<W("0X"), 16, FALSE>> >>,
  !.exp = CommonExp]
JsSuffix(i) == IF At(i) = 110 THEN 1 ELSE 0
JsNumber(i) == LET n == Number(i, JsNumberOptions, JsSuffix) IN [n EXCEPT !.bad = @ \/ (n.suf > 0 /\ (n.dot > 0 \/ n.es > 0))]

(* a regular expression: where its second slash is, or 0 *)
RECURSIVE JsRegexFrom(_, _)
JsRegexFrom(i, class) ==
  CASE i >= N \/ JsTermLen(i) > 0 -> 0
    [] At(i) = Bs -> (IF i + 1 < N /\ JsTermLen(i + 1) = 0 THEN JsRegexFrom(i + 2, class) ELSE 0)
    [] At(i) = 91 -> JsRegexFrom(i + 1, TRUE)
    [] At(i) = 93 -> JsRegexFrom(i + 1, FALSE)
    [] At(i) = 47 /\ ~class -> i
    [] OTHER -> JsRegexFrom(i + 1, class)
JsRegexEnd(i) == IF At(i) # 47 \/ At(i + 1) \in {42, 47} THEN 0 ELSE JsRegexFrom(i + 1, FALSE)

--------------------------------------------------------------------------------
(* JSX.                                                                           *)

(* the braces at i: [e |-> end, term |-> closed] *)
RECURSIVE JsxBracedFrom(_, _)
JsxBracedFrom(j, n) ==
  LET i == JsGap(j)
  IN IF i >= N THEN [e |-> N, term |-> FALSE]
     ELSE CASE At(i) = 123 -> JsxBracedFrom(i + 1, n + 1)
            [] At(i) = 125 -> (IF n = 1 THEN [e |-> i + 1, term |-> TRUE] ELSE JsxBracedFrom(i + 1, n - 1))
            [] At(i) \in {Dq, Sq} -> JsxBracedFrom(JsStringEnd(i), n)
            [] OTHER -> JsxBracedFrom(i + 1, n)
JsxBraced(i) == IF At(i) # 123 THEN [e |-> i, term |-> FALSE] ELSE JsxBracedFrom(i + 1, 1)

NoTag == [e |-> 0, ty |-> "none"]
RECURSIVE JsxAttributes(_, _)
JsxAttributes(j, closing) ==
  LET i == JsGap(j)
      b == JsxBraced(i)
      a == JsxAttr(i)
      g == JsGap(a)
      v == JsGap(g + 1)
      w == JsxBraced(v)
  IN CASE i >= N -> NoTag
       [] At(i) = 62 -> [e |-> i + 1, ty |-> IF closing THEN "closing" ELSE "opening"]
       [] Has(i, W("/>")) -> IF closing THEN NoTag ELSE [e |-> i + 2, ty |-> "empty"]
       [] At(i) = 123 -> IF b.term THEN JsxAttributes(b.e, closing) ELSE NoTag
       [] a > i /\ At(g) # 61 -> JsxAttributes(g, closing)
       [] a > i /\ At(v) \in {Dq, Sq} -> JsxAttributes(JsStringEnd(v), closing)
       [] a > i /\ w.term -> JsxAttributes(w.e, closing)
       [] OTHER -> NoTag
(* the tag at i *)
JsxTag(i) ==
  LET a == JsGap(i + 1)
      closing == At(a) = 47
      b == IF closing THEN JsGap(a + 1) ELSE a
      n == JsxName(b)
  IN IF At(i) # 60 THEN NoTag
     ELSE IF At(b) = 62 THEN [e |-> b + 1, ty |-> IF closing THEN "closing" ELSE "opening"]
     ELSE IF n = b THEN NoTag
     ELSE JsxAttributes(n, closing)

JsPush(b, fs, f) == <<b, Append(fs, f)>>
JsPop(fs) == SubSeq(fs, 1, Len(fs) - 1)
JsxIn(fs, closes) ==      \* into the braces at p
  LET b == JsxBraced(p)
      inner == [fs |-> IF b.term THEN Append(fs, <<"close">>) ELSE fs]
  IN Enter(p + 1, <<TRUE, inner.fs>>, K(p, 1, "symbol_brace"), "jsx", IF b.term THEN b.e - 1 ELSE b.e)

JsxInTag(fs, f) ==
  LET c == At(p)
      com == JsComment(p)
      ws == JsWs(p)
      stay == <<TRUE, fs>>
      n == IF f[3] THEN JsxName(p) ELSE JsxAttr(p)
  IN CASE p = f[2] -> To(p, <<TRUE, JsPop(fs)>>, << >>)
       [] ws > p -> To(ws, stay, << >>)
       [] com.e > p -> To(com.e, stay, com.k)
       [] c \in Chars("<>=/") -> To(p + 1, stay, K(p, 1, "symbol_punc"))
       [] c \in {Dq, Sq} -> To(JsStringEnd(p), stay, JsString(p))
       [] c = 123 -> JsxIn(fs, TRUE)
       [] OTHER -> To(n, <<TRUE, Append(JsPop(fs), <<"tag", f[2], FALSE>>)>>, Kr(p, n, "markup_tag"))
JsxInKids(fs, f) ==
  LET c == At(p)
      ref == HtmlRef(p)
      tag == JsxTag(p)
      d == IF tag.ty = "opening" THEN 1 ELSE IF tag.ty = "closing" THEN 0 - 1 ELSE 0
      rest == IF f[2] + d < 0 THEN JsPop(fs) ELSE Append(JsPop(fs), <<"kids", f[2] + d>>)
  IN CASE c = 38 -> (IF ref > 0 THEN To(p + ref, mode, K(p, ref, "string_escape")) ELSE To(p + 1, mode, << >>))
       [] c = 60 -> (IF tag.e = 0 THEN To(p + 1, mode, K(p, 1, "error")) ELSE To(p, JsPush(TRUE, rest, <<"tag", tag.e, TRUE>>), << >>))
       [] c \in {62, 125} -> To(p + 1, mode, K(p, 1, "error"))
       [] c = 123 -> JsxIn(fs, TRUE)
       [] OTHER -> To(Find(p, Chars("&{}<>")), mode, << >>)

JsInTemplate(fs) ==
  LET c == At(p)
      e == Find(p + 1, {96, 36, Bs})
      esc == JsEscape(p)
  IN CASE c = 96 -> To(p + 1, <<FALSE, JsPop(fs)>>, K(p, 1, "string_delim"))
       [] Has(p, W("${")) -> To(p + 2, JsPush(TRUE, fs, <<"sub", 0>>), K(p, 2, "string_interpolation_delim"))
       [] c = Bs /\ p + 1 >= N -> GoF(1, "string")
       [] c = Bs /\ JsTermLen(p + 1) > 0 -> To(p + 1 + JsTermLen(p + 1), mode, K(p, 1, "string_escape") \o KF(p + 1, JsTermLen(p + 1), "string"))
       [] c = Bs -> To(p + esc.n, mode, EscTok(p, esc))
       [] OTHER -> GoF(e - p, "string")

--------------------------------------------------------------------------------

JsInit == <<TRUE, << <<"start">> >> >>
JsxInit == <<TRUE, << <<"jsx", 0>> >> >>
JsStep(ts) ==
  LET fs == mode[2]
      f == IF fs = << >> THEN <<"top">> ELSE fs[Len(fs)]
      braces == f[1] \in {"sub", "jsx"}
      c == At(p)
      after(b) == <<b, fs>>
      count(d) == <<d > 0, Append(JsPop(fs), <<f[1], f[2] + d>>)>>
      ws == JsWs(p)
      com == JsComment(p)
      bang == UniLineEnd(p + 2)
      tag == JsxTag(p)
      re == JsRegexEnd(p)
      flags == SpanCp(re + 1, JsPart)
      num == JsNumber(p)
      pid == IF c = 35 THEN JsId(p + 1) ELSE 0
      id == JsId(p)
      w == Slice(p, id)
      op == JsOp(p, ts)
      ow == Slice(p, p + op)
      isTag == mode[1] /\ ~ts /\ tag.e > 0 /\ tag.ty # "closing" /\ At(JsGap(p + 1)) # 47
  IN CASE f[1] = "template" -> JsInTemplate(fs)
       [] f[1] = "tag" -> JsxInTag(fs, f)
       [] f[1] = "kids" -> JsxInKids(fs, f)
       [] f[1] = "start" -> (IF Has(p, W("#!")) THEN To(bang, <<TRUE, << >> >>, K(p, 2, "comment_delim") \o Kr(p + 2, bang, "comment"))
                             ELSE To(p, <<TRUE, << >> >>, << >>))
       [] f[1] = "close" -> To(p + 1, <<TRUE, JsPop(fs)>>, K(p, 1, "symbol_brace"))
       [] braces /\ c = 123 -> To(p + 1, count(1), K(p, 1, "symbol_brace"))
       [] braces /\ c = 125 /\ f[2] > 0 -> To(p + 1, count(0 - 1), K(p, 1, "symbol_brace"))
       [] f[1] = "sub" /\ c = 125 -> To(p + 1, <<TRUE, JsPop(fs)>>, K(p, 1, "string_interpolation_delim"))
       [] f[1] = "jsx" /\ c = 125 -> To(p + 1, after(TRUE), K(p, 1, "symbol_brace"))
       [] ws > p -> To(ws, mode, << >>)
       [] com.e > p -> To(com.e, mode, com.k)
       [] isTag -> To(p, <<TRUE, (IF tag.ty = "empty" THEN fs ELSE Append(fs, <<"kids", 0>>)) \o << <<"tag", tag.e, TRUE>> >> >>, << >>)
       [] c \in {Dq, Sq} -> To(JsStringEnd(p), after(FALSE), JsString(p))
       [] c = 96 -> To(p + 1, JsPush(TRUE, fs, <<"template">>), K(p, 1, "string_delim"))
       [] mode[1] /\ re > 0 -> To(flags, after(FALSE), K(p, 1, "string_delim") \o Kr(p + 1, re, "string") \o K(re, 1, "string_delim")
                                                       \o Kr(re + 1, flags, "string_decor"))
       [] num.len > 0 -> To(p + num.len, after(FALSE), NumberToks(p, num, 95))
       [] pid > p + 1 -> To(pid, after(FALSE), Kr(p, pid, "name"))
       [] id > p -> (IF JsIsKeyword(w, ts) THEN To(id, after(w \in JsBefore \/ (ts /\ w \in JsBeforeTs)), Kr(p, id, JsKind(w)))
                     ELSE To(id, after(FALSE), Kr(p, id, "name")))
       [] op > 0 -> To(p + op, after(ow \notin JsOperands), K(p, op, JsOpKind(ow)))
       [] OTHER -> To(p + CpLen(p), after(TRUE), K(p, CpLen(p), "error"))
================================================================================
