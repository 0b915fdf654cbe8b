-------------------------------- MODULE LexRust --------------------------------
(* Rust.                                                                         *)
EXTENDS LexJava

RsWord ==
  [w \in Ws({"await", "break", "continue", "do", "else", "for", "if", "loop", "match", "return", "try", "while", "yield"}) |-> "keyword_control"]
  @@ [w \in Ws({"abstract", "as", "async", "become", "box", "const", "crate", "dyn", "enum", "extern", "final", "fn", "gen", "impl", "in",
                "let", "macro", "macro_rules", "mod", "move", "mut", "override", "priv", "pub", "raw", "ref", "safe", "static", "struct",
                "trait", "type", "typeof", "union", "unsafe", "unsized", "use", "virtual", "where"}) |-> "keyword"]
  @@ [w \in Ws({"self", "super"}) |-> "keyword_this"]
  @@ [w \in Ws({"Self"}) |-> "keyword_type"]
  @@ [w \in Ws({"false", "true"}) |-> "bool"]
  @@ [w \in Ws({"CStr", "CString", "OsStr", "OsString", "String"}) |-> "name_type"]
  @@ [w \in Ws({"bool", "char", "f32", "f64", "i128", "i16", "i32", "i64", "i8", "isize", "str", "u128", "u16", "u32", "u64", "u8",
                "usize"}) |-> "name_type_builtin"]
RsPunc == Ws({",", "->", ".", ":", ";", "=", "=>", "#", "$"})
RsSymbols == RsPunc \cup Ws({"!", "!=", "%", "%=", "&", "&&", "&=", "*", "*=", "+", "+=", "-", "-=", "..", "...", "..=", "/", "/=", "::", "<",
             "<<", "<<=", "<=", "==", ">", ">=", ">>", ">>=", "?", "@", "^", "^=", "|", "|=", "||", "~"})
RsIllegalRaw == Ws({"crate", "self", "super", "Self", "_"})

RsStart == XStart \cup {95}
RsId(i) == IdEnd(i, RsStart, XCont)
RsNumber == [NumDefaults EXCEPT
  !.pre = << <<W("0b"), 2, FALSE>>, <<W("0o"), 8, FALSE>>, <<W("0x"), 16, FALSE>> >>,
  !.exp = CommonExp, !.sep = 95, !.lenient = TRUE, !.nei = TRUE, !.nopoint = RsStart \cup {46}]
RsSuffix(i) == RsId(i) - i

RsEscape(i, uni) ==
  LET c == At(i + 1)
  IN CASE c \in Chars("'\"nrt\\0") \cup {LF} -> [n |-> 2, bad |-> FALSE]
       [] c = 120 -> EscAdd(Exactly(i + 2, HexDigit, 2), 2)
       [] c = 117 -> IF uni THEN EscAdd(BracedAny(i + 2), 2) ELSE [n |-> 2, bad |-> TRUE]
       [] OTHER -> [n |-> 1, bad |-> TRUE]

(* The length of what is between the single quotes at i and after, 0 if this is no character. *)
RsChar(i) ==
  LET c == At(i + 1)
      esc == RsEscape(i + 1, TRUE)
      n == CASE c \in {Sq, LF, CR, Tab} \/ c < 0 -> 0
             [] c = Bs -> IF At(i + 2) = LF THEN 0 ELSE esc.n
             [] OTHER -> CpLen(i + 1)
  IN IF At(i + 1 + n) = Sq THEN n ELSE 0
RsCharToks(i, n, suf) ==
  K(i, 1, "string_delim")
  \o (IF At(i + 1) = Bs THEN EscTok(i + 1, RsEscape(i + 1, TRUE)) ELSE K(i + 1, n, "string"))
  \o K(i + 1 + n, 1, "string_delim") \o Kr(i + n + 2, suf, "error")

(* mode: << >>, or <<terminating quote and hashes, raw?, unicode escapes?>> *)
RsInit == << >>
RsSpace == CWhite \cup {133, 8206, 8207, 8232, 8233}
RsString ==
  LET w == mode[1]
      esc == RsEscape(p, mode[3])
      id == RsId(p + Len(w))
      e == ContentEnd(p, w, IF mode[2] THEN {} ELSE {Bs})
  IN CASE Has(p, w) -> To(id, << >>, K(p, Len(w), "string_delim") \o Kr(p + Len(w), id, "error"))
       [] At(p) = Bs /\ ~mode[2] -> To(p + esc.n, mode, EscTok(p, esc))
       [] OTHER -> Go(e - p, "string")
RsStep ==
  LET c == At(p)
      b == IF c = 98 THEN 1 ELSE 0
      ch == IF At(p + b) = Sq THEN RsChar(p + b) ELSE 0
      csuf == RsId(p + b + ch + 2)
      spre == CASE c = Dq -> 0 [] Has(p, W("br\"")) \/ Has(p, W("br#")) \/ Has(p, W("cr\"")) -> 2
                [] Has(p, W("b\"")) \/ Has(p, W("c\"")) \/ Has(p, W("r\"")) \/ Has(p, W("r#")) -> 1 [] OTHER -> 9
      \* raw C strings are meant to have escapes, too: an example of the repository says so
      raw == spre < 9 /\ (c = 114 \/ Has(p, W("br")))
      hash == IF raw THEN Span(p + spre, {35}) - (p + spre) ELSE 0
      num == Number(p, RsNumber, RsSuffix)
      id == RsId(p)
      w == Slice(p, id)
      rid == RsId(p + 2)
      lt == IF Has(p, W("'r#")) THEN 3 ELSE 1
      lid == RsId(p + lt)
      lty == IF At(lid) = 58 THEN "name_label" ELSE "name_lifetime"
      Macro(i) == At(i) = 33 /\ At(i + 1) # 61
      o == Longest(p, 3, RsSymbols)
      ln == UniLineEnd(p)
  IN CASE mode # << >> -> RsString
       [] Cp(p) \in RsSpace -> Skip(CpLen(p))
       [] Has(p, W("//")) -> To(ln, mode, K(p, 2, "comment_delim") \o Kr(p + 2, ln, "comment"))
       [] Has(p, W("/*")) -> NestedComment
       [] ch > 0 -> To(csuf, mode, K(p, b, "string_decor") \o RsCharToks(p + b, ch, csuf))
       [] spre < 9 /\ At(p + spre + hash) = Dq ->
            To(p + spre + hash + 1, <<<<Dq>> \o [i \in 1 .. hash |-> 35], raw, c \in {Dq, 99}>>,
               K(p, spre, "string_decor") \o K(p + spre, hash + 1, "string_delim"))
       [] num.len > 0 /\ c # 46 ->
            To(p + num.len, mode, NumberToks(p, [num EXCEPT !.bad = @ \/ (num.dot + num.es = 0 /\ num.suf > 0
                                                                        /\ At(p + num.len - num.suf) \in Chars("eE"))], 95))
       [] c = Sq /\ lid > p + lt ->
            (IF lt = 3 /\ Slice(p + lt, lid) \in RsIllegalRaw THEN Go(lid - p, "error")
             ELSE To(lid, mode, K(p, lt, IF At(lid) = 58 THEN "name_label_delim" ELSE "name_lifetime_delim") \o Kr(p + lt, lid, lty)))
       [] Has(p, W("r#")) /\ rid > p + 2 ->
            (CASE Slice(p + 2, rid) \in RsIllegalRaw -> Go(rid - p, "error")
               [] Macro(rid) -> To(rid + 1, mode, K(p, 2, "name_macro_delim") \o Kr(p + 2, rid, "name_macro") \o K(rid, 1, "name_macro_delim"))
               [] OTHER -> To(rid, mode, K(p, 2, "name_delim") \o Kr(p + 2, rid, "name")))
       [] id > p -> (CASE w \in DOMAIN RsWord -> Go(id - p, RsWord[w])
                       [] Macro(id) -> To(id + 1, mode, Kr(p, id, "name_macro") \o K(id, 1, "name_macro_delim"))
                       [] OTHER -> Go(id - p, "name"))
       [] o > 0 -> Go(o, IF SubSeq(t, p + 1, p + o) \in RsPunc THEN "symbol_punc" ELSE "symbol_op")
       [] c \in Chars("()") -> Go(1, "symbol_parens")
       [] c \in Chars("[]") -> Go(1, "symbol_square")
       [] c \in Chars("{}") -> Go(1, "symbol_brace")
       [] c = Bs -> Go(1, "string_escape")
       [] OTHER -> GoF(CpLen(p), "error")

================================================================================
