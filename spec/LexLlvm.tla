-------------------------------- MODULE LexLlvm --------------------------------
(* LLVM assembly.                                                                *)
EXTENDS Lex

LlvmIdent == Alnum \cup Chars("-$._")
LlvmWord == Alnum \cup Chars("-_")

LlvmTypes == Ws({"bfloat", "double", "float", "fp128", "label", "metadata", "ppc_fp128", "ptr", "target", "token", "void",
                 "vscale", "x86_amx", "x86_fp80"})
LlvmControl == Ws({"br", "call", "callbr", "catchpad", "catchret", "catchswitch", "cleanuppad", "cleanupret", "indirectbr",
                   "invoke", "landingpad", "resume", "ret", "switch", "unreachable"})
LlvmBool == Ws({"false", "true"})
LlvmNull == Ws({"none", "null", "poison", "undef"})
(* Whatever is not a name is a keyword, be it known or not; iN is an integer type. *)
LlvmKeyword(w) ==
  CASE w[1] = 105 /\ Len(w) >= 2 /\ \A i \in 2 .. Len(w) : w[i] \in Digit -> "keyword_type"
    [] w \in LlvmTypes -> "keyword_type"
    [] w \in LlvmControl -> "keyword_control"
    [] w \in LlvmBool -> "bool"
    [] w \in LlvmNull -> "null"
    [] w = W("c") -> "string_decor"
    [] w = W("x") -> "symbol_punc"
    [] OTHER -> "keyword"

LlvmNumber == [NumDefaults EXCEPT !.sign = {45},
  !.pre = << <<W("0xK"), 16, FALSE>>, <<W("0xL"), 16, FALSE>>, <<W("0xM"), 16, FALSE>>, <<W("0xR"), 16, FALSE>>,
             <<W("0x"), 16, FALSE>>, <<W("s0x"), 16, FALSE>>, <<W("u0x"), 16, FALSE>> >>,
  !.exp = << W("e+"), W("e-"), W("e"), W("E+"), W("E-"), W("E") >>]

(* mode: "" or "str" inside of a string *)
LlvmInit == ""
LlvmString ==
  LET c == At(p)
      e == Find(p, {Dq, Bs})
      esc == EscAdd(Exactly(p + 1, HexDigit, 2), 1)
  IN CASE c = Dq -> To(p + 1, "", K(p, 1, "string_delim"))
       [] c = Bs -> IF At(p + 1) = Bs THEN Go(2, "string_escape") ELSE To(p + esc.n, mode, EscTok(p, esc))
       [] OTHER -> Go(e - p, "string")
LlvmStep ==
  LET c == At(p)
      num == Number(p, LlvmNumber, NoSuffix)
      id == Span(p + 1, LlvmIdent)
      w == Span(p, LlvmWord)
      com == Delimited(p, 2, W("*/"), "comment", "comment_delim")
      eol == CrLineEnd(p)
      ident(d, ty) == To(id, mode, K(p, 1, d) \o Kr(p + 1, id, ty))
  IN CASE mode = "str" -> LlvmString
       [] c \in {32, 9, 10, 13} -> Skip(1)
       [] (c \in Digit \/ c \in Chars("su") \/ (c = 45 /\ At(p + 1) \in Digit)) /\ num.len > 0 ->
            To(p + num.len, mode, NumberToks(p, num, 0))
       [] c = Dq -> To(p + 1, "str", K(p, 1, "string_delim"))
       [] c \in Chars("()") -> Go(1, "symbol_parens")
       [] c \in Chars("[]") -> Go(1, "symbol_square")
       [] c \in Chars("{}") -> Go(1, "symbol_brace")
       [] c \in Chars(",:<=>") -> Go(1, "symbol_punc")
       [] c = 59 -> To(SkipEol(eol), mode, K(p, 1, "comment_delim") \o Kr(p + 1, eol, "comment"))
       [] c = 47 -> IF Has(p, W("/*")) THEN To(com.e, mode, com.k) ELSE GoF(1, "error")
       [] c = 37 -> ident("name_var_delim", "name_var")
       [] c = 64 -> ident("name_function_delim", "name_function")
       [] w > p -> IF At(w) = 58 THEN To(w + 1, mode, Kr(p, w, "name_label_decl") \o K(w, 1, "name_label_delim"))
                   ELSE To(w, mode, Kr(p, w, LlvmKeyword(Slice(p, w))))
       [] OTHER -> GoF(1, "error")

================================================================================
