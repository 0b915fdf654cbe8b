-------------------------------- MODULE LexCpp ---------------------------------
(* C and C++, as preprocessing tokens.  mode: <<fresh, quote>>: whether a          *)
(* directive may begin, and the quote which ends the string or 0.                 *)
EXTENDS Lex

CppExt == Ws({"_ExtInt", "__float128", "__float80", "__fp16", "__ibm128", "__int128", "__int16", "__int256", "__int32", "__int64", "__int8",
              "__m128", "__m128d", "__m128i", "__m256", "__m256d", "__m256i", "__m512", "__m512d", "__m512i", "__m64", "__mmask16",
              "__mmask32", "__mmask64", "__mmask8", "__ptr32", "__ptr64", "__asm__", "__attribute__", "__extension__", "__imag__",
              "__label__", "__real__", "__restrict"})
CppOnlyC == Ws({"_Alignas", "_Alignof", "_BitInt", "_Bool", "_Complex", "_Decimal128", "_Decimal32", "_Decimal64", "_Float128",
                "_Float128x", "_Float16", "_Float32", "_Float32x", "_Float64", "_Float64x", "_Generic", "_Imaginary", "_Noreturn",
                "_Static_assert", "_Thread_local", "complex", "imaginary", "noreturn", "restrict", "typeof", "typeof_unqual"})
CppOnlyCpp == Ws({"catch", "char16_t", "char32_t", "char8_t", "class", "co_await", "co_return", "co_yield", "concept", "const_cast",
                  "consteval", "constinit", "contract_assert", "decltype", "delete", "dynamic_cast", "explicit", "export", "final",
                  "friend", "import", "module", "mutable", "namespace", "new", "noexcept", "operator", "override", "post", "pre",
                  "private", "protected", "public", "reinterpret_cast", "replaceable_if_eligible", "requires", "static_cast",
                  "template", "this", "throw", "trivially_relocatable_if_eligible", "try", "typeid", "typename", "using", "virtual",
                  "wchar_t"})
CppBoth == Ws({"_Atomic", "_Pragma", "alignas", "alignof", "and", "and_eq", "asm", "auto", "bitand", "bitor", "bool", "break", "case",
               "char", "compl", "const", "constexpr", "continue", "default", "do", "double", "else", "enum", "extern", "false", "float",
               "for", "goto", "if", "inline", "int", "long", "not", "not_eq", "nullptr", "or", "or_eq", "register", "return", "short",
               "signed", "sizeof", "static", "static_assert", "struct", "switch", "thread_local", "true", "typedef", "union",
               "unsigned", "void", "volatile", "while", "xor", "xor_eq"})
CppTypes == Ws({"_BitInt", "_Bool", "_Decimal128", "_Decimal32", "_Decimal64", "_ExtInt", "_Float128", "_Float128x", "_Float16", "_Float32",
                "_Float32x", "_Float64", "_Float64x", "__float128", "__float80", "__fp16", "__ibm128", "__int128", "__int16",
                "__int256", "__int32", "__int64", "__int8", "__m128", "__m128d", "__m128i", "__m256", "__m256d", "__m256i", "__m512",
                "__m512d", "__m512i", "__m64", "__mmask16", "__mmask32", "__mmask64", "__mmask8", "__ptr32", "__ptr64", "bool", "char",
                "char16_t", "char32_t", "char8_t", "double", "float", "int", "long", "short", "signed", "unsigned", "void", "wchar_t"})
CppControl == Ws({"asm", "break", "case", "catch", "co_await", "co_return", "co_yield", "continue", "do", "else", "for", "goto", "if",
                  "return", "switch", "while"})
CppBool == Ws({"false", "true"})
CppKind(w) == CASE w \in CppTypes -> "keyword_type" [] w \in CppControl -> "keyword_control" [] w \in CppBool -> "bool"
                [] w = W("nullptr") -> "null" [] w = W("this") -> "keyword_this" [] OTHER -> "keyword"
(* Which keywords there are depends on the language and strictness: extensions are   *)
(* not standard, and C++ admits the keywords of C if not strict.                     *)
IsCppKeyword(w, cpp) ==
  \/ w \in CppBoth
  \/ w \in CppOnlyC /\ (~cpp \/ strict = 0)
  \/ w \in CppOnlyCpp /\ cpp
  \/ w \in CppExt /\ strict = 0
CppWord(w, cpp, other) == IF IsCppKeyword(w, cpp) THEN CppKind(w) ELSE other
CppTail == W("_t")
CppName(w) == IF Len(w) >= 2 /\ w[Len(w)] = 116 /\ w[Len(w) - 1] = 95 THEN "name_type" ELSE "name"

CppOpsC == Ws({"!", "!=", "%", "%=", "&", "&&", "&=", "*", "*=", "+", "++", "+=", "-", "--", "-=", "->", ".", "...", "/", "/=", "<",
               "<<", "<<=", "<=", "=", "==", ">", ">=", ">>", ">>=", "?", "^", "^=", "|", "|=", "||", "~"})
CppOpsCpp == CppOpsC \cup Ws({"->*", ".*", "::", "<=>", "^^"})
CppMacroOps == Ws({"#", "##", "%:", "%:%:"})
CppPunc == Ws({",", ":", ";"})
CppOther == Ws({"(", ")", "[", "]", "{", "}", "<:", ":>", "<%", "%>"}) \cup CppMacroOps \cup CppPunc
CppAllC == CppOpsC \cup CppOther
CppAllCpp == CppOpsCpp \cup CppOther
CppOp(i, cpp) ==
  IF cpp /\ Has(i, W("<::")) /\ At(i + 3) \notin Chars(":>") THEN 1
  ELSE Longest(i, 4, IF cpp THEN CppAllCpp ELSE CppAllC)
CppOpKind(w) ==
  CASE w \in CppMacroOps -> "name_macro_delim" [] w \in CppPunc -> "symbol_punc" [] w \in Ws({"(", ")"}) -> "symbol_parens"
    [] w \in Ws({"[", "]", "<:", ":>"}) -> "symbol_square" [] w \in Ws({"{", "}", "<%", "%>"}) -> "symbol_brace"
    [] OTHER -> "symbol_op"

CppSpace == CWhite
CppBlank == CWhite \ {LF}
CppStart == XStart \cup {95}
CppId(i) == IdEnd(i, CppStart, XCont)
(* a backslash, spaces and a newline: its end, or 0 *)
CppSplice(i) == LET j == Span(i + 1, CppBlank) IN IF At(i) = Bs /\ At(j) = LF THEN j + 1 ELSE 0
RECURSIVE CppLineEnd(_)
CppLineEnd(i) == IF i >= N \/ At(i) = LF \/ Has(i, <<CR, LF>>) THEN i
                 ELSE IF CppSplice(i) > 0 THEN CppLineEnd(CppSplice(i)) ELSE CppLineEnd(i + 1)

(* preprocessing numbers *)
RECURSIVE CppNumEnd(_)
CppNumEnd(i) ==
  IF At(i) = Sq THEN (IF At(i + 1) \in Word THEN CppNumEnd(i + 2) ELSE i)
  ELSE IF At(i) \in Chars("eEpP") /\ At(i + 1) \in Chars("+-") THEN CppNumEnd(i + 2)
  ELSE IF At(i) = 46 THEN CppNumEnd(i + 1)
  ELSE IF i < N /\ Cp(i) \in XCont THEN CppNumEnd(i + CpLen(i))
  ELSE i
CppDigitRun == Digit \cup Chars("+-")
RECURSIVE CppDigits(_, _, _)
CppDigits(i, e, hex) ==
  LET S == IF hex THEN HexDigit \cup Chars("+-") ELSE CppDigitRun
      d == SpanTo(i, S, e)
      c == At(d)
      exponent == c \in (IF hex THEN Chars("pP") ELSE Chars("eE")) /\ d + 1 < e /\ At(d + 1) \in CppDigitRun
  IN Kr(i, d, "number") \o
     (IF d = e THEN << >>
      ELSE IF c \in Chars("'.") \/ exponent THEN K(d, 1, "number_delim") \o CppDigits(d + 1, e, hex)
      ELSE Kr(d, e, "number_decor"))
CppNumber ==
  LET e == CppNumEnd(p + (IF At(p) = 46 THEN 2 ELSE 1))
      hex == At(p) = 48 /\ At(p + 1) \in Chars("xX")
      bin == At(p) = 48 /\ At(p + 1) \in Chars("bB")
      n == IF hex \/ bin THEN 2 ELSE 0
  IN To(e, <<FALSE, 0>>, K(p, n, "number_decor") \o CppDigits(p + n, e, hex))

(* literals *)
CppStringPrefixes == Ws({"", "L", "LR", "R", "U", "UR", "u", "u8", "u8R", "uR"})
CppCharPrefixes == Ws({"", "L", "U", "u", "u8"})
CppSuffix(i, cpp) == LET e == CppId(i) IN Kr(i, e, CppWord(Slice(i, e), cpp, "string_decor"))
CppSimple == Chars("'\"?\\abfnrtv")
CppBasic == Alnum \cup {9, 10, 11, 12, 13} \cup Chars("!\"#$%&'()*+,-./:;<=>?@[]\\^_`{|}~")
CppNewlineEscape(i) == IF At(i + 1) = LF THEN 2 ELSE IF CppSplice(i) > 0 THEN CppSplice(i) - i
                       ELSE IF At(i + 1) \in CppBlank THEN 2 ELSE 0
CppNamed(i) ==
  LET e == Find(i + 2, {125, Dq, Sq, LF, CR})
  IN IF At(i + 2) # 123 THEN [n |-> 2, bad |-> TRUE]
     ELSE IF At(e) # 125 THEN [n |-> 3, bad |-> TRUE]
     ELSE [n |-> e + 1 - i, bad |-> e = i + 3]
CppEscape(i) ==
  LET c == At(i + 1)
  IN CASE i + 1 >= N -> [n |-> 1, bad |-> TRUE]
       [] c \in CppSimple -> [n |-> 2, bad |-> FALSE]
       [] c = 117 /\ At(i + 2) = 123 -> EscAdd(Braced(i + 2, HexDigit), 2)
       [] c = 117 -> EscAdd(Exactly(i + 2, HexDigit, 4), 2)
       [] c = 85 -> EscAdd(Exactly(i + 2, HexDigit, 8), 2)
       [] c = 78 -> CppNamed(i)
       [] c = 120 /\ At(i + 2) = 123 -> EscAdd(Braced(i + 2, HexDigit), 2)
       [] c = 120 -> EscAdd(UpToDigits(i + 2, HexDigit, N), 2)
       [] c = 111 /\ At(i + 2) = 123 -> EscAdd(Braced(i + 2, OctDigit), 2)
       [] c = 111 -> [n |-> 2, bad |-> TRUE]
       [] c \in OctDigit -> EscAdd(UpToDigits(i + 1, OctDigit, 3), 1)
       [] OTHER -> [n |-> 1 + CpLen(i + 1), bad |-> c \notin CppBasic]

CppInString(cpp) ==
  LET c == At(p)
      q == mode[2]
      e == Find(p, {q, Bs, LF, CR})
      sfx == CppId(p + 1)
  IN CASE c = q -> To(sfx, <<FALSE, 0>>, K(p, 1, "string_delim") \o CppSuffix(p + 1, cpp))
       [] c = Bs -> (IF p + 1 < N /\ CppNewlineEscape(p) > 0 THEN GoF(CppNewlineEscape(p), "string")
                     ELSE To(p + CppEscape(p).n, mode, EscTok(p, CppEscape(p))))
       [] c \in {LF, CR} -> To(p, <<TRUE, 0>>, << >>)
       [] OTHER -> GoF(e - p, "string")

CppDChar == (0 .. 127) \ (CWhite \cup Chars("()\\"))
(* a raw string, whose quote is at i *)
CppRaw(i, pre, cpp) ==
  LET d == Span(i + 1, CppDChar)
      w == <<41>> \o Slice(i + 1, d) \o <<Dq>>
      e == FindSeq(d + 1, w)
      after == e + Len(w)
      sfx == CppId(after)
  IN IF d >= N THEN To(N, <<FALSE, 0>>, pre \o Kr(i, N, "error"))
     ELSE IF At(d) # 40 THEN To(d + CpLen(d), <<FALSE, 0>>, pre \o Kr(i, d + CpLen(d), "error"))
     ELSE IF e >= N THEN To(N, <<FALSE, 0>>, pre \o Kr(i, d + 1, "string_delim") \o Kr(d + 1, N, "string"))
     ELSE To(sfx, <<FALSE, 0>>, pre \o Kr(i, d + 1, "string_delim") \o Kr(d + 1, e, "string") \o Kr(e, after, "string_delim")
                                \o CppSuffix(after, cpp))

CppInclude(i) ==
  LET j == Span(i, CppBlank)
      e == Find(j + 1, {62, LF, CR})
  IN IF At(j) # 60 THEN [e |-> j, k |-> << >>]
     ELSE [e |-> IF At(e) = 62 THEN e + 1 ELSE e,
           k |-> K(j, 1, "string_delim") \o Kr(j + 1, e, "string") \o K(e, IF At(e) = 62 THEN 1 ELSE 0, "string_delim")]
CppDirective ==
  LET n == IF At(p) = 35 THEN 1 ELSE 2
      b == Span(p + n, CppBlank)
      e == CppId(b)
      inc == CppInclude(e)
      k == K(p, n, "name_macro_delim") \o Kr(b, e, "name_macro")
  IN IF Slice(b, e) = W("include") THEN To(inc.e, <<FALSE, 0>>, k \o inc.k) ELSE To(e, <<FALSE, 0>>, k)

CppInit == <<TRUE, 0>>
CppStep(cpp) ==
  LET c == At(p)
      ws == Span(p, CppSpace)
      le == CppLineEnd(p + 2)
      com == Delimited(p, 2, W("*/"), "comment", "comment_delim")
      id == CppId(p)
      pre == Slice(p, id)
      op == CppOp(p, cpp)
      ow == Slice(p, p + op)
      prek == Kr(p, id, "string_decor")
  IN CASE mode[2] # 0 -> CppInString(cpp)
       [] c \in CppSpace -> To(ws, <<mode[1] \/ \E i \in p + 1 .. ws : t[i] = LF, 0>>, << >>)
       [] Has(p, W("//")) -> To(le, <<TRUE, 0>>, K(p, 2, "comment_delim") \o Kr(p + 2, le, "comment"))
       [] Has(p, W("/*")) -> To(com.e, mode, com.k)
       [] mode[1] /\ op > 0 /\ ow \in Ws({"#", "%:"}) -> CppDirective
       [] At(id) = Dq /\ pre \in CppStringPrefixes ->
            (IF id > p /\ pre[Len(pre)] = 82 THEN CppRaw(id, prek, cpp)
             ELSE To(id + 1, <<mode[1], Dq>>, prek \o K(id, 1, "string_delim")))
       [] At(id) = Sq /\ pre \in CppCharPrefixes -> To(id + 1, <<mode[1], Sq>>, prek \o K(id, 1, "string_delim"))
       [] c \in Digit \/ (c = 46 /\ At(p + 1) \in Digit) -> CppNumber
       [] id > p -> To(id, <<FALSE, 0>>, Kr(p, id, CppWord(pre, cpp, CppName(pre))))
       [] op > 0 -> To(p + op, <<FALSE, 0>>, K(p, op, CppOpKind(ow)))
       [] CppSplice(p) > 0 -> To(CppSplice(p), mode, << >>)
       [] OTHER -> To(p + CpLen(p), <<FALSE, 0>>, << >>)
================================================================================
