-------------------------------- MODULE LexJava --------------------------------
(* Java and Kotlin.                                                              *)
EXTENDS Lex

JvKeyword ==
  [w \in Ws({"break", "case", "catch", "continue", "default", "do", "else", "finally", "for", "if", "return", "switch", "throw", "try",
             "while", "yield"}) |-> "keyword_control"]
  @@ [w \in Ws({"_", "abstract", "assert", "class", "const", "enum", "exports", "extends", "final", "goto", "implements", "import",
                "instanceof", "interface", "module", "native", "new", "open", "opens", "package", "permits", "private", "protected",
                "provides", "public", "record", "requires", "sealed", "static", "strictfp", "synchronized", "throws", "to", "transient",
                "transitive", "uses", "var", "volatile", "when", "with"}) |-> "keyword"]
  @@ [w \in Ws({"boolean", "byte", "char", "double", "float", "int", "long", "short", "void"}) |-> "keyword_type"]
  @@ [w \in Ws({"super", "this"}) |-> "keyword_this"]
  @@ [w \in Ws({"false", "true"}) |-> "bool"]
  @@ [w \in Ws({"null"}) |-> "null"]
JvPunc == Ws({",", "->", ".", "...", ":", "::", ";", "=", "@"})
JvSymbols == JvPunc \cup Ws({"!", "!=", "%", "%=", "&", "&&", "&=", "*", "*=", "+", "++", "+=", "-", "--", "-=", "/", "/=", "<", "<<", "<<=",
             "<=", "==", ">", ">=", ">>", ">>=", ">>>", ">>>=", "?", "^", "^=", "|", "|=", "||", "~"})

JvNumber == [NumDefaults EXCEPT
  !.pre = << <<W("0b"), 2, FALSE>>, <<W("0B"), 2, FALSE>>, <<W("0x"), 16, TRUE>>, <<W("0X"), 16, TRUE>> >>,
  !.exp = CommonExp \o << W("P+"), W("P-"), W("P"), W("p+"), W("p-"), W("p") >>, !.sep = 95, !.nef = TRUE]
JvSuffix(i) == IF At(i) \in Chars("DFLdfl") THEN 1 ELSE 0

JvEscape(i) ==
  LET c == At(i + 1)
  IN CASE c = 117 -> EscAdd(Exactly(i + 2, HexDigit, 4), 2)
       [] c \in 48 .. 51 -> EscAdd(UpToDigits(i + 1, OctDigit, 3), 1)
       [] c \in 52 .. 55 -> EscAdd(UpToDigits(i + 1, OctDigit, 2), 1)
       [] c \in {CR, LF} -> EscAdd(EolEscape(i + 1), 1)
       [] c \in Chars("bstnfr\"'\\") -> [n |-> 2, bad |-> FALSE]
       [] OTHER -> [n |-> 1, bad |-> TRUE]

(* Names with dots in between, from i on, as annotations: [e, k]. *)
RECURSIVE DottedName(_, _, _)
DottedName(i, S, C) ==
  LET j == IdEnd(i, S, C)
  IN IF j = i THEN [e |-> i, k |-> << >>]
     ELSE IF At(j) # 46 THEN [e |-> j, k |-> Kr(i, j, "name_attr")]
     ELSE LET d == DottedName(j + 1, S, C)
          IN [e |-> d.e, k |-> Kr(i, j, "name_attr") \o K(j, 1, "name_attr_delim") \o d.k]

TripleDq == <<Dq, Dq, Dq>>
JvStart == XStart \cup {95, 36}
JvCont == XCont \cup {36}
(* mode: "", or "str" or "block" inside of a string *)
JvChar ==
  LET c == At(p + 1)
      esc == JvEscape(p + 1)
      body == CASE c = Bs -> [n |-> esc.n, ty |-> IF esc.bad THEN "error" ELSE "string_escape"]
                [] c \in {Sq, CR, LF} -> [n |-> 1, ty |-> "error"]
                [] c < 0 -> [n |-> 0, ty |-> ""]
                [] OTHER -> [n |-> CpLen(p + 1), ty |-> "string"]
      e == p + 1 + body.n
      close == IF At(e) = Sq THEN 1 ELSE 0
  IN To(e + close, mode, K(p, 1, "string_delim") \o K(p + 1, body.n, body.ty) \o K(e, close, "string_delim"))
JvString ==
  LET q == IF mode = "str" THEN <<Dq>> ELSE TripleDq
      esc == JvEscape(p)
      c == At(p)
  IN CASE Has(p, q) -> To(p + Len(q), "", K(p, Len(q), "string_delim"))
       [] mode = "str" /\ c \in {CR, LF} -> To(p, "", << >>)
       [] c = Bs -> To(p + esc.n, mode, EscTok(p, esc))
       [] OTHER -> LET e == ContentEnd(p, q, IF mode = "str" THEN {Bs, CR, LF} ELSE {Bs})
                   IN Go(e - p, "string")
JvStep ==
  LET c == At(p)
      num == Number(p, JvNumber, JvSuffix)
      o == Longest(p, 4, JvSymbols)
      id == IdEnd(p, JvStart, JvCont)
      an == DottedName(p + 1, JvStart, JvCont)
      block == Delimited(p, 2, W("*/"), "comment", "comment_delim")
      ln == UniLineEnd(p)
      open == SpanTo(p + 3, {Sp, Tab, 12}, N)
  IN CASE mode # "" -> JvString
       [] c \in HWhite -> Skip(1)
       [] Has(p, W("//")) -> To(ln, mode, K(p, 2, "comment_delim") \o Kr(p + 2, ln, "comment"))
       [] Has(p, W("/*")) -> To(block.e, mode, block.k)
       [] c = Sq -> JvChar
       [] Has(p, TripleDq) -> To(open + EolLen(open), "block", K(p, 3, "string_delim"))
       [] c = Dq -> To(p + 1, "str", K(p, 1, "string_delim"))
       [] num.len > 0 -> To(p + num.len, mode, NumberToks(p, num, 95))
       [] c = 64 /\ an.e > p + 1 -> To(an.e, mode, K(p, 1, "name_attr_delim") \o an.k)
       [] o > 0 -> Go(o, IF SubSeq(t, p + 1, p + o) \in JvPunc THEN "symbol_punc" ELSE "symbol_op")
       [] c \in Chars("()") -> Go(1, "symbol_parens")
       [] c \in Chars("[]") -> Go(1, "symbol_square")
       [] c \in Chars("{}") -> Go(1, "symbol_brace")
       [] id > p -> Go(id - p, IF Slice(p, id) \in DOMAIN JvKeyword THEN JvKeyword[Slice(p, id)] ELSE "name")
       [] OTHER -> GoF(CpLen(p), "error")

--------------------------------------------------------------------------------
(* Kotlin.                                                                       *)

KtKeyword ==
  [w \in Ws({"await", "break", "break@", "catch", "continue", "continue@", "do", "else", "finally", "for", "if", "property", "return",
             "return@", "throw", "try", "when", "while"}) |-> "keyword_control"]
  @@ [w \in Ws({"!in", "!is", "abstract", "actual", "annotation", "as", "as?", "assert", "async", "by", "class", "companion", "const",
                "constructor", "data", "delegate", "dynamic", "enum", "expect", "field", "file", "final", "fun", "get", "import", "in",
                "init", "inline", "interface", "internal", "is", "lateinit", "noinline", "object", "open", "operator", "out", "package",
                "param", "private", "protected", "public", "receiver", "reified", "sealed", "set", "setparam", "suspend", "typealias",
                "typeof", "val", "value", "var", "vararg"}) |-> "keyword"]
  @@ [w \in Ws({"super", "super@", "this", "this@"}) |-> "keyword_this"]
  @@ [w \in Ws({"false", "true"}) |-> "bool"]
  @@ [w \in Ws({"null"}) |-> "null"]
KtLabeled == Ws({"as?", "break@", "continue@", "return@", "super@", "this@"})
KtPunc == Ws({",", "->", ".", "..", "...", ":", "::", ";", ";;", "=", "=>"})
KtSymbols == KtPunc \cup Ws({"!", "!=", "!==", "#", "%", "%=", "&&", "*", "*=", "+", "++", "+=", "-", "--", "-=", "/", "/=", "<", "<=", "==",
                             "===", ">", ">=", "?", "?.", "?:", "@", "||"})
KtNumber == [NumDefaults EXCEPT
  !.pre = << <<W("0b"), 2, FALSE>>, <<W("0B"), 2, FALSE>>, <<W("0x"), 16, FALSE>>, <<W("0X"), 16, FALSE>> >>,
  !.exp = CommonExp, !.sep = 95, !.nopoint = XStart \cup {46, 95}]
KtSuffix(i) == Longest(i, 2, Ws({"F", "L", "U", "UL", "f", "l", "u", "uL"}))
KtEscape(i) ==
  LET c == At(i + 1)
  IN CASE c = 117 -> EscAdd(Exactly(i + 2, HexDigit, 4), 2)
       [] c \in Chars("tbrn'\"\\$") -> [n |-> 2, bad |-> FALSE]
       [] OTHER -> [n |-> 1, bad |-> TRUE]
(* The end of the comment from i on, of which l levels are open; N + 1 if there is none. *)
RECURSIVE NestedEnd(_, _)
NestedEnd(i, l) ==
  LET j == Find(i, Chars("/*"))
  IN CASE j >= N -> N + 1
       [] Has(j, W("/*")) -> NestedEnd(j + 2, l + 1)
       [] Has(j, W("*/")) -> IF l = 1 THEN j + 2 ELSE NestedEnd(j + 2, l - 1)
       [] OTHER -> NestedEnd(j + 1, l)
NestedComment ==
  LET e == NestedEnd(p + 2, 1)
  IN To(Min2(e, N), mode, BlockComment(p, 2, Min2(e, N), e <= N, 2))

(* mode: a stack of <<"code", opened braces>>, <<"str", quotes>> and <<"annot", 0>>.  *)
KtInit == << <<"code", 0>> >>
Pop(m) == SubSeq(m, 1, Len(m) - 1)
KtStart == XStart \cup {95}
KtString(q) ==
  LET c == At(p)
      esc == KtEscape(p)
      id == IdEnd(p + 1, KtStart, XCont)
      quotes == Span(p, {Dq})
  IN CASE Len(q) = 3 /\ Has(p, q) -> To(quotes, Pop(mode), Kr(p, quotes - 3, "string") \o K(quotes - 3, 3, "string_delim"))
       [] Len(q) = 1 /\ c = q[1] -> To(p + 1, Pop(mode), K(p, 1, "string_delim"))
       [] Len(q) = 1 /\ c \in {CR, LF} -> To(p, Pop(mode), << >>)
       [] Len(q) = 1 /\ c = Bs -> To(p + esc.n, mode, EscTok(p, esc))
       [] c = 36 /\ q # <<Sq>> ->
            (CASE At(p + 1) = 123 -> To(p + 2, Append(mode, <<"code", 0>>), K(p, 2, "string_interpolation_delim"))
               [] id > p + 1 -> Go(id - p, "string_interpolation")
               [] OTHER -> Go(1, "error"))
       [] OTHER ->
            LET dollar == IF q = <<Sq>> THEN {} ELSE {36}
                e == ContentEnd(p, q, IF Len(q) = 3 THEN dollar ELSE dollar \cup {Bs, CR, LF})
            \* more than three quotes at the end of the string belong to it
            IN IF Len(q) = 3 /\ Has(e, q) THEN To(Span(e, {Dq}) - 3, mode, Kr(p, Span(e, {Dq}) - 3, "string"))
               ELSE Go(e - p, "string")
KtAnnot ==
  LET c == At(p)
      an == DottedName(p, KtStart, XCont)
  IN CASE c = 93 -> To(p + 1, Pop(mode), K(p, 1, "symbol_square"))
       [] c \in HWhite -> Skip(1)
       [] an.e > p -> To(an.e, mode, an.k)
       [] OTHER -> Go(CpLen(p), "error")
KtCode(level) ==
  LET c == At(p)
      num == Number(p, KtNumber, KtSuffix)
      o == Longest(p, 3, KtSymbols)
      lb == Longest(p, 9, KtLabeled)
      id == IdEnd(p, KtStart, XCont)
      not == Slice(p, IdEnd(p + 1, KtStart, XCont))
      ln == UniLineEnd(p)
      quotes == IF c = Sq THEN <<Sq>> ELSE IF Has(p, TripleDq) THEN TripleDq ELSE <<Dq>>
      an == DottedName(p + 1, KtStart, XCont)
      an2 == DottedName(an.e + 1, KtStart, XCont)
      at == K(p, 1, "name_attr_delim")
      tick == Find(p + 1, {96, CR, LF})
      Inner(i) == [mode EXCEPT ![Len(mode)][2] = i]
  IN CASE c = 123 -> To(p + 1, Inner(level + 1), K(p, 1, "symbol_brace"))
       [] c = 125 -> (IF level > 0 THEN To(p + 1, Inner(level - 1), K(p, 1, "symbol_brace"))
                      ELSE IF Len(mode) = 1 THEN Go(1, "error")
                      ELSE To(p + 1, Pop(mode), K(p, 1, "string_interpolation_delim")))
       [] c \in HWhite -> Skip(1)
       [] Has(p, W("//")) -> To(ln, mode, K(p, 2, "comment_delim") \o Kr(p + 2, ln, "comment"))
       [] Has(p, W("/*")) -> NestedComment
       [] c \in {Sq, Dq} -> To(p + Len(quotes), Append(mode, <<"str", quotes>>), K(p, Len(quotes), "string_delim"))
       [] num.len > 0 -> To(p + num.len, mode, NumberToks(p, num, 95))
       [] Has(p, W("@[")) -> To(p + 2, Append(mode, <<"annot", 0>>), at \o K(p + 1, 1, "symbol_square"))
       [] c = 64 /\ an.e > p + 1 ->
            (CASE At(an.e) # 58 -> To(an.e, mode, at \o an.k)
               [] At(an.e + 1) = 91 -> To(an.e + 2, Append(mode, <<"annot", 0>>), at \o an.k \o K(an.e, 1, "name_attr_delim")
                                                                                    \o K(an.e + 1, 1, "symbol_square"))
               [] OTHER -> To(an2.e, mode, at \o an.k \o K(an.e, 1, "name_attr_delim") \o an2.k))
       [] c = 33 /\ not \in DOMAIN KtKeyword -> Go(3, KtKeyword[not])
       [] lb > 0 -> Go(lb, KtKeyword[Slice(p, p + lb)])
       [] o > 0 -> Go(o, IF SubSeq(t, p + 1, p + o) \in KtPunc THEN "symbol_punc" ELSE "symbol_op")
       [] c \in Chars("()") -> Go(1, "symbol_parens")
       [] c \in Chars("[]") -> Go(1, "symbol_square")
       [] c = 96 -> (IF At(tick) # 96 THEN Go(tick - p, "error")
                     ELSE IF tick = p + 1 THEN Go(2, "error")
                     ELSE To(tick + 1, mode, K(p, 1, "name_delim") \o Kr(p + 1, tick, "name") \o K(tick, 1, "name_delim")))
       [] id > p -> Go(id - p, IF Slice(p, id) \in DOMAIN KtKeyword THEN KtKeyword[Slice(p, id)] ELSE "name")
       [] OTHER -> GoF(CpLen(p), "error")
KtStep ==
  LET f == mode[Len(mode)]
  IN CASE f[1] = "code" -> KtCode(f[2])
       [] f[1] = "str" -> KtString(f[2])
       [] OTHER -> KtAnnot

================================================================================
