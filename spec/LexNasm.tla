-------------------------------- MODULE LexNasm --------------------------------
(* NASM.                                                                         *)
EXTENDS Lex

NsRegisters == Ws(
  {"ah", "al", "ax", "bh", "bl", "bp", "bpl", "bx", "ch", "cl", "cr0", "cr2", "cr3", "cr4", "cr8", "cs", "cw", "cx", "dh", "di", "dil", "dl",
   "dr0", "dr1", "dr2", "dr3", "dr6", "dr7", "ds", "dx", "eax", "ebp", "ebx", "ecx", "edi", "edx", "eflags", "eip", "es", "esi", "esp", "fs",
   "gs", "ip", "k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7", "rax", "rbp", "rbx", "rcx", "rdi", "rdx", "rflags", "rip", "rsi", "rsp", "si",
   "sil", "sp", "spl", "ss", "sw"}
  \cup { "mm" \o ToString(i) : i \in 0 .. 7 } \cup { "st" \o ToString(i) : i \in 0 .. 7 }
  \cup { "r" \o ToString(i) \o s : i \in 8 .. 31, s \in {"", "b", "d", "w"} }
  \cup { x \o "mm" \o ToString(i) : x \in {"x", "y", "z"}, i \in 0 .. 31 })
NsTypes == Ws({"byte", "dword", "far", "oword", "ptr", "qword", "tword", "word", "yword", "zword"})
NsJumps == Ws({"call", "ja", "jae", "jb", "jbe", "jc", "je", "jg", "jge", "jl", "jle", "jmp", "jna", "jnae", "jnb", "jnbe", "jnc", "jne", "jng",
               "jnge", "jnl", "jnle", "jno", "jnp", "jnz", "jo", "jp", "jpe", "jpo", "js", "jz", "loop", "loope", "loopne", "loopnz", "loopz"})
NsOps == Ws({"?", ":", "+", "-", "*", "~", "=", "==", "!", "!=", "|", "||", "&", "&&", "^", "^^", ">", ">>", ">>>", ">=", "<", "<<", "<<<", "<=>",
             "<=", "/", "//"})

NsPre(x, b) == << <<W("0") \o W(x), b, FALSE>> >>
NsNumber == [NumDefaults EXCEPT
  !.pre = NsPre("b", 2) \o NsPre("B", 2) \o NsPre("y", 2) \o NsPre("Y", 2) \o NsPre("o", 8) \o NsPre("O", 8) \o NsPre("q", 8) \o NsPre("Q", 8)
          \o NsPre("d", 10) \o NsPre("D", 10) \o NsPre("t", 10) \o NsPre("T", 10) \o NsPre("x", 16) \o NsPre("X", 16) \o NsPre("h", 16)
          \o NsPre("H", 16) \o << <<W("$"), 16, FALSE>> >>,
  !.exp = << W("e+"), W("e-"), W("e"), W("E+"), W("E-"), W("E"), W("p+"), W("p-"), W("p"), W("P+"), W("P-"), W("P") >>, !.sep = 95]
NsBase(c) == CASE c \in Chars("bByY") -> 2 [] c \in Chars("qQoO") -> 8 [] c \in Chars("dDtT") -> 10 [] c \in Chars("hHxX") -> 16 [] OTHER -> 0
(* Digits with a base as suffix: [len, bad], of length 0 if there is no such number. *)
NsSuffixed(i) ==
  LET e == Span(i, Word)
      base == IF e > i THEN NsBase(At(e - 1)) ELSE 0
      ok == Span(i, DigitsOf(base) \cup {95}) >= e - 1 /\ \A k \in i + 1 .. e - 2 : ~(t[k] = 95 /\ t[k + 1] = 95)
  IN IF e < i + 2 \/ base = 0 \/ (~ok /\ At(i) \notin Digit) \/ (At(i) = 48 /\ e > i + 2 /\ NsBase(At(i + 1)) > base)
     THEN [len |-> 0, bad |-> FALSE]
     ELSE [len |-> e - i, bad |-> ~ok]

NsEscape(i) ==
  LET c == At(i + 1)
  IN CASE c \in Chars("'\"`\\?abtnvfre") -> [n |-> 2, bad |-> FALSE]
       [] c \in OctDigit -> EscAdd(UpToDigits(i + 1, OctDigit, 3), 1)
       [] c = 120 -> EscAdd(UpToDigits(i + 2, HexDigit, 2), 2)
       [] c = 117 -> EscAdd(Exactly(i + 2, HexDigit, 4), 2)
       [] c = 85 -> EscAdd(Exactly(i + 2, HexDigit, 8), 2)
       [] OTHER -> [n |-> 1, bad |-> TRUE]

(* mode: <<what an identifier is taken for, inside of a string between back quotes?>> *)
NsInit == <<"name_instruction", FALSE>>
NsStart == Word \cup Chars(".?$")
NsCont == Word \cup Chars("$#@~.?")
NsString ==
  LET c == At(p)
      esc == NsEscape(p)
      out1 == <<mode[1], FALSE>>
  IN CASE c \in {LF, CR, 11} -> To(p, out1, << >>)
       [] c = 96 -> To(p + 1, out1, K(p, 1, "string_delim"))
       [] c = Bs -> To(p + esc.n, mode, EscTok(p, esc))
       [] OTHER -> Go(Find(p, {LF, CR, 11, 96, Bs}) - p, "string")
NsStep ==
  LET c == At(p)
      o == Longest(p, 3, NsOps)
      sfx == NsSuffixed(p)
      reg == LowerSeq(Slice(p, p + sfx.len)) \in NsRegisters
      num == Number(p, NsNumber, NoSuffix)
      id == Span(p + 1, NsCont)
      w == LowerSeq(Slice(p, id))
      eol == CrLineEnd(p)
      close == Find(p + 1, {c, LF, CR})
      fresh == <<"name_instruction", FALSE>>
      Is(ty, next) == To(id, <<next, FALSE>>, Kr(p, id, ty))
  IN CASE mode[2] -> NsString
       [] c \in {Sp, Tab} -> Skip(1)
       [] c \in {CR, LF} -> To(p + 1, fresh, << >>)
       [] c = 96 -> To(p + 1, <<mode[1], TRUE>>, K(p, 1, "string_delim"))
       [] c \in {Sq, Dq} -> To(IF At(close) = c THEN close + 1 ELSE close, mode,
                               K(p, 1, "string_delim") \o Kr(p + 1, close, "string") \o K(close, IF At(close) = c THEN 1 ELSE 0, "string_delim"))
       [] c \in Chars("()") -> Go(1, "symbol_parens")
       [] c \in Chars("[]") -> Go(1, "symbol_square")
       [] c \in Chars("{}") -> Go(1, "symbol_brace")
       [] c = 44 -> Go(1, "symbol_punc")
       [] c = 59 -> To(SkipEol(eol), fresh, K(p, 1, "comment_delim") \o Kr(p + 1, eol, "comment"))
       [] c = 37 -> To(SkipEol(eol), fresh, Kr(p, eol, "name_macro"))
       [] o > 0 -> Go(o, "symbol_op")
       [] c # 95 /\ sfx.len > 0 /\ NsBase(At(p + sfx.len - 1)) = 16 /\ reg -> Go(sfx.len, "name_var")
       [] c # 95 /\ sfx.len > 0 ->
            To(p + sfx.len, mode, IF sfx.bad THEN K(p, sfx.len, "error")
                                  ELSE DigitToks(p, p + sfx.len - 1, 95) \o K(p + sfx.len - 1, 1, "number_decor"))
       [] (c # 36 \/ At(p + 1) \in Digit) /\ num.len > 0 -> To(p + num.len, mode, NumberToks(p, num, 95))
       [] c \in NsStart ->
            (CASE w \in Ws({"seg", "wrt"}) -> Go(id - p, "keyword_op")
               [] At(id) = 58 -> To(id + 1, fresh, Kr(p, id + 1, "name_label_decl"))
               [] c = 46 -> Is("name_label_decl", "name_instruction")
               [] w \in NsTypes -> Is("keyword_type", "name_var")
               [] w \in NsRegisters -> Is("name_var", "name_var")
               [] w \in NsJumps -> Is("name_instruction", "name_label")
               [] c = 36 -> Is("name", "name_var")
               [] mode[1] = "name_instruction" -> Is("name_instruction", "name_var")
               [] OTHER -> Is(mode[1], mode[1]))
       [] OTHER -> GoF(1, "error")

================================================================================
