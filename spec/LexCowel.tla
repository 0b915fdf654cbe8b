-------------------------------- MODULE LexCowel --------------------------------
(* COWEL.  mode: what has been opened, innermost last:                            *)
(*    "doc", "str", "name"     text: of the document, a string, a quoted name     *)
(*    "block0", "block1" ...   text of a block: <<"block", n>>, n braces open     *)
(*    "line"                   an expression up to the end of the line            *)
(*    "splice", "spliced"      an expression in parentheses; behind an operand    *)
(*    "group", "member", "bad" a group; behind a member, or where there is none   *)
(*    "eq", "val"              the "=" and the value of a member                  *)
(*    "group?", "block?"       what may follow the name of a directive            *)
(*    "block!"                 the same, but only immediately                     *)
(*    "fun"                    the name of a function                             *)
(* All of these are pairs, with 0 where no number is needed.                      *)
EXTENDS Lex

CwF(f) == <<f, 0>>
CwInit == << CwF("doc") >>
CwIdStart == Alpha \cup {95}
CwId(i) == IdEnd(i, CwIdStart, Word)
CwWhite == HWhite
CwHorizontal == {32, 9, 12}
CwEscapable == Chars("{}\\\"'+") \cup {CR, LF}
CwNotReserved == CwEscapable \cup CwIdStart \cup Chars(":*( ")
CwNameChar == Upper \cup Digit \cup {32, 45}

CwOps == Ws({"=", "||", "&&", "==", "!=", "<=", ">=", "+", "-", "*", "/", "%", "<", ">", "~", "!"})
CwKeywords == Ws({"unit", "null", "let", "fun"})

(* the escape at i: [n |-> length or 0, bad |-> reserved] *)
CwHex(i, m, S) == \A k \in i .. i + m - 1 : At(k) \in S
CwHexes(i, m) == CwHex(i, m, Digit \cup 65 .. 70) \/ CwHex(i, m, Digit \cup 97 .. 102)
CwQuoteEnd(i) == Find(i, {Sq, CR, LF})
CwEscape(i) ==
  LET c == At(i + 1)
      q == CwQuoteEnd(i + 2)
      is(n) == [n |-> n, bad |-> FALSE]
      bad(n) == [n |-> n, bad |-> TRUE]
  IN IF At(i) # Bs THEN is(0)
     ELSE IF i + 1 >= N THEN bad(1)
     ELSE CASE c = 43 -> (IF CwHexes(i + 2, 8) THEN is(10) ELSE IF CwHexes(i + 2, 4) THEN is(6) ELSE bad(2))
            [] c = Sq -> (IF At(q) # Sq THEN bad(2)
                          ELSE IF q = i + 2 \/ At(i + 2) = 32 \/ At(q - 1) = 32 \/ Span(i + 2, CwNameChar) < q THEN bad(q + 1 - i)
                          ELSE is(q + 1 - i))
            [] c \in {CR, LF} -> is(1 + EolLen(i + 1))
            [] c \in CwEscapable -> is(2)
            [] c \in NonAscii -> bad(1 + CpLen(i + 1))
            [] c \notin CwNotReserved -> bad(2)
            [] OTHER -> is(0)
(* a line terminator is not highlighted *)
CwEscTok(i) ==
  LET e == CwEscape(i)
  IN IF At(i + 1) \in {CR, LF} THEN [e |-> i + 1, k |-> K(i, 1, "string_escape")] ELSE [e |-> i + e.n, k |-> EscTok(i, e)]

CwComment(i) ==
  IF Has(i, W("\\:")) THEN [e |-> CrLineEnd(i + 2), k |-> K(i, 2, "comment_delim") \o Kr(i + 2, CrLineEnd(i + 2), "comment")]
  ELSE IF Has(i, W("\\*")) THEN Delimited(i, 2, W("*\\"), "comment", "comment_delim")
  ELSE [e |-> i, k |-> << >>]
RECURSIVE CwBlank(_)
CwBlank(i) == LET j == CwComment(Span(i, CwWhite)).e IN IF j = i THEN i ELSE CwBlank(j)

(* behind the quoted name at i, or i *)
RECURSIVE CwQuoted(_, _)
CwQuoted(s, i) ==
  IF i >= N THEN s
  ELSE IF At(i) = Dq THEN i + 1
  ELSE IF At(i) # Bs THEN CwQuoted(s, i + 1)
  ELSE IF CwEscape(i).n > 0 THEN CwQuoted(s, i + CwEscape(i).n)
  ELSE IF CwComment(i).e > i THEN CwQuoted(s, CwComment(i).e)
  ELSE s
CwName(i) == IF At(i) = Dq THEN CwQuoted(i, i + 1) ELSE CwId(i)

RECURSIVE CwReserved(_)
CwReserved(i) ==
  IF At(i) \in {69, 101} /\ At(i + 1) \in {43, 45} THEN CwReserved(i + 2)
  ELSE IF At(i) \in Alnum \cup {46} THEN CwReserved(i + 1)
  ELSE i
CwNumberOptions == [NumDefaults EXCEPT !.pre = << <<W("0b"), 2, FALSE>>, <<W("0o"), 8, FALSE>>, <<W("0x"), 16, FALSE>> >>, !.exp = CommonExp]
CwNumber(i) ==
  LET e == CwReserved(i)
      n == Number(i, CwNumberOptions, NoSuffix)
  IN [e |-> e, k |-> IF n.len # e - i THEN Kr(i, e, "error") ELSE NumberToks(i, n, 0)]

CwPop == SubSeq(mode, 1, Len(mode) - 1)
(* what is on top is replaced by the frames fs *)
CwGoto(q, ks, fs) == To(q, CwPop \o fs, ks)
CwNo == To(0 - 1, mode, << >>)

(* an operand: a word, a number *)
CwWordOr(next) ==
  LET id == CwId(p)
      w == Slice(p, id)
      num == CwNumber(p)
      neg == Slice(p + 1, CwId(p + 1))
  IN CASE At(p) = 45 /\ neg = W("infinity") -> CwGoto(p + 9, K(p, 1, "value_delim") \o K(p + 1, 8, "value"), next)
       [] id > p /\ w = W("fun") -> CwGoto(id, Kr(p, id, "keyword"), Append(next, CwF("fun")))
       [] id > p -> CwGoto(id, Kr(p, id, CASE w \in CwKeywords -> "keyword"
                                           [] w \in Ws({"true", "false"}) -> "bool"
                                           [] w = W("infinity") -> "value"
                                           [] OTHER -> "name_var"), next)
       [] num.e > p -> CwGoto(num.e, num.k, next)
       [] OTHER -> CwNo
(* the expression at p, if there is one; next: the frames to go on with *)
CwExpr(next) ==
  LET id == CwId(p)
      c == At(p)
  IN IF id > p /\ At(CwBlank(id)) \in {40, 123} THEN CwGoto(id, Kr(p, id, "markup_tag"), Append(next, CwF("group?")))
     ELSE CASE c = Dq -> CwGoto(p + 1, K(p, 1, "string_delim"), Append(next, CwF("str")))
            [] c = 123 -> CwGoto(p + 1, K(p, 1, "symbol_brace"), Append(next, CwF("block")))
            [] c = 40 -> CwGoto(p + 1, K(p, 1, "symbol_parens"), Append(next, CwF("group")))
            [] OTHER -> CwWordOr(next)

CwOp(next) ==
  LET n == Longest(p, 2, CwOps)
  IN CwGoto(p + n, K(p, n, IF n = 1 /\ At(p) = 61 THEN "symbol_punc" ELSE "symbol_op"), next)
CwIsOp == Longest(p, 2, CwOps) > 0
CwError(next) == CwGoto(p + CpLen(p), K(p, CpLen(p), "error"), next)

CwText(f) ==
  LET c == At(p)
      esc == CwEscTok(p)
      com == CwComment(p)
      id == CwId(p + 1)
      ty == CASE f[1] = "str" -> "string" [] f[1] = "name" -> "markup_attr" [] OTHER -> ""
      delim == IF f[1] = "str" THEN "string_delim" ELSE "markup_attr_delim"
      stops == CASE f[1] = "doc" -> {Bs} [] f[1] = "block" -> {Bs, 123, 125} [] OTHER -> {Bs, Dq}
      e == Find(p + 1, stops)
      in(n, w, fs) == To(p + n, mode \o fs, K(p, n, w))
  IN CASE CwEscape(p).n > 0 -> To(esc.e, mode, esc.k)
       [] c = Bs /\ id > p + 1 -> (IF At(id) = 40 THEN To(id + 1, mode \o << CwF("block!"), CwF("group") >>,
                                                        Kr(p, id, "markup_tag") \o K(id, 1, "symbol_parens"))
                                   ELSE in(id - p, "markup_tag", << CwF("block!") >>))
       [] Has(p, W("\\(")) -> in(2, "string_interpolation_delim", << CwF("splice") >>)
       [] Has(p, W("\\ ")) /\ CrLineEnd(p) < N -> in(2, "string_interpolation_delim", << CwF("line") >>)
       [] com.e > p -> To(com.e, mode, com.k)
       [] c = Dq /\ f[1] \in {"str", "name"} -> To(p + 1, CwPop, K(p, 1, delim))
       [] c = 123 /\ f[1] = "block" -> To(p + 1, Append(CwPop, <<"block", f[2] + 1>>), << >>)
       [] c = 125 /\ f[1] = "block" -> (IF f[2] = 0 THEN To(p + 1, CwPop, K(p, 1, "symbol_brace"))
                                        ELSE To(p + 1, Append(CwPop, <<"block", f[2] - 1>>), << >>))
       [] OTHER -> To(e, mode, IF ty = "" THEN << >> ELSE Kr(p, e, ty))

CwStep ==
  LET f == mode[Len(mode)]
      k == f[1]
      c == At(p)
      ws == Span(p, IF k \in {"line", "fun"} THEN CwHorizontal ELSE CwWhite)
      com == CwComment(p)
      esc == CwEscTok(p)
      name == CwName(p)
      eq == CwBlank(name)
      named == name > p /\ At(eq) = 61 /\ At(eq + 1) # 61
      pop(n, w) == To(p + n, CwPop, K(p, n, w))
      become(n, w, g) == CwGoto(p + n, K(p, n, w), << CwF(g) >>)
      rec == Find(p, Chars(",})"))
      line == << CwF("line") >>
      splice == << CwF("splice") >>
      either(s, other) == IF s.p >= 0 THEN s ELSE other
      fid == CwId(p)
  IN CASE k \in {"doc", "str", "name", "block"} -> CwText(f)
       [] k = "block!" -> (IF c = 123 THEN become(1, "symbol_brace", "block") ELSE pop(0, ""))
       [] k = "line" /\ c \in {CR, LF} -> To(p + EolLen(p), CwPop, << >>)
       [] k = "line" /\ CwEscape(p).n > 0 -> To(esc.e, mode, esc.k)
       [] ws > p -> To(ws, mode, << >>)
       [] com.e > p -> To(com.e, mode, com.k)
       [] k = "line" -> either(CwExpr(line), IF CwIsOp THEN CwOp(line) ELSE CwError(line))
       [] k = "fun" -> CwGoto(fid, Kr(p, fid, "name_function_decl"), << >>)
       [] k = "splice" -> either(CwExpr(<< CwF("spliced") >>), become(0, "", "spliced"))
       [] k = "spliced" -> (CASE c = 41 -> pop(1, "string_interpolation_delim")
                              [] c = 125 -> pop(0, "")
                              [] CwIsOp -> CwOp(splice)
                              [] OTHER -> either(CwWordOr(splice), CwError(splice)))
       [] k = "group?" -> (IF c = 40 THEN CwGoto(p + 1, K(p, 1, "symbol_parens"), << CwF("block?"), CwF("group") >>) ELSE become(0, "", "block?"))
       [] k = "block?" -> (IF c = 123 THEN become(1, "symbol_brace", "block") ELSE pop(0, ""))
       [] k = "group" /\ named -> (IF c = Dq THEN CwGoto(p + 1, K(p, 1, "markup_attr_delim"), << CwF("eq"), CwF("name") >>)
                                   ELSE become(name - p, "markup_attr", "eq"))
       [] k = "group" /\ Has(p, W("...")) -> become(3, "name_attr", "member")
       [] k = "group" -> either(CwExpr(<< CwF("member") >>), IF CwIsOp THEN CwOp(<< CwF("member") >>) ELSE become(0, "", "bad"))
       [] k = "eq" -> become(1, "symbol_punc", "val")
       [] k = "val" -> either(CwExpr(<< CwF("member") >>), become(0, "", "member"))
       [] k \in {"member", "bad"} -> (CASE c = 41 -> pop(1, "symbol_parens")
                                        [] c = 44 -> become(1, "symbol_punc", "group")
                                        [] c = 125 -> pop(0, "")
                                        [] k = "member" -> become(0, "", "group")
                                        [] At(rec) = 44 -> CwGoto(rec, << >>, << CwF("group") >>)
                                        [] OTHER -> CwGoto(Min2(N, IF At(rec) = 41 THEN rec + 1 ELSE rec),
                                                           IF At(rec) = 41 THEN K(rec, 1, "symbol_parens") ELSE << >>, << >>))
================================================================================
