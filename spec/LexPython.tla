------------------------------- MODULE LexPython -------------------------------
(* Python.                                                                       *)
EXTENDS Lex

PyControl == Ws({"await", "break", "case", "continue", "elif", "else", "except", "finally", "for", "if", "match", "pass", "raise",
                 "return", "try", "while", "yield"})
PyKeywords == Ws({"and", "as", "assert", "async", "class", "def", "del", "from", "global", "import", "in", "is", "lambda",
                  "nonlocal", "not", "or", "with"})
PyKeyword(w) ==
  CASE w \in PyControl -> "keyword_control"
    [] w \in PyKeywords -> "keyword"
    [] w \in Ws({"False", "True"}) -> "bool"
    [] w = W("None") -> "null"
    [] OTHER -> "name"

PyOps == Ws({"!=", "%", "%=", "&", "&=", "*", "**", "**=", "*=", "+", "+=", "-", "-=", "/", "//", "//=", "/=", ":=", "<", "<<", "<<=",
             "<=", "==", ">", ">=", ">>", ">>=", "@", "@=", "^", "^=", "|", "|=", "~"})
PyPunc == Ws({",", "->", ".", "...", ":", ";", "=", ">>>"})

PyRaw == {W("r"), W("br"), W("rb"), W("rf"), W("fr")}
PyBytes == {W("b"), W("br"), W("rb")}
PyPrefixes == PyRaw \cup PyBytes \cup {W("f"), W("u")}

PyNumber == [NumDefaults EXCEPT
  !.pre = << <<W("0b"), 2, FALSE>>, <<W("0B"), 2, FALSE>>, <<W("0o"), 8, FALSE>>, <<W("0O"), 8, FALSE>>,
             <<W("0x"), 16, FALSE>>, <<W("0X"), 16, FALSE>> >>,
  !.exp = CommonExp, !.sep = 95]
PySuffix(i) == IF At(i) \in Chars("jJ") THEN 1 ELSE 0

(* The escape sequence at i, which is a backslash; length 0 if it is none. *)
PyEscape(i, bytes) ==
  LET c == At(i + 1)
      uni(r) == EscAdd([r EXCEPT !.bad = @ \/ bytes], 2)
  IN CASE c \in {LF, CR} -> EscAdd(EolEscape(i + 1), 1)
       [] c \in OctDigit -> EscAdd(UpToDigits(i + 1, OctDigit, 3), 1)
       [] c = 120 -> EscAdd(Exactly(i + 2, HexDigit, 2), 2)
       [] c = 78 -> uni(BracedAny(i + 2))
       [] c = 117 -> uni(Exactly(i + 2, HexDigit, 4))
       [] c = 85 -> uni(Exactly(i + 2, HexDigit, 8))
       [] c \in Chars("\\'\"abfnrtv") -> [n |-> 2, bad |-> FALSE]
       [] OTHER -> [n |-> 1, bad |-> TRUE]

(* mode: << >>, or <<quotes, raw?, bytes?>> inside of a string *)
PyInit == << >>
PyString ==
  LET q == mode[1]
      raw == mode[2]
      bytes == mode[3]
      c == At(p)
      esc == PyEscape(p, bytes)
      len == IF p + 1 < N THEN CpLen(p + 1) ELSE 0
  IN CASE Has(p, q) -> To(p + Len(q), << >>, K(p, Len(q), "string_delim"))
       [] c = Bs -> IF raw THEN Go(1 + len, IF bytes /\ len # 1 THEN "error" ELSE "string")
                    ELSE To(p + esc.n, mode, EscTok(p, esc))
       [] c \in {LF, CR} /\ Len(q) = 1 -> To(p, << >>, << >>)
       [] OTHER -> Go(ContentEnd(p, q, IF Len(q) = 1 THEN {Bs, LF, CR} ELSE {Bs}) - p, "string")
PyStep ==
  LET c == At(p)
      pre == IdEnd(p, Alpha \cup {95}, Word)
      w == LowerSeq(Slice(p, pre))
      ok == w \in PyPrefixes \/ pre = p
      q == At(pre)
      quotes == IF Has(pre, <<q, q, q>>) THEN <<q, q, q>> ELSE <<q>>
      id == IdEnd(p, XStart \cup {95}, XCont)
      num == Number(p, PyNumber, PySuffix)
      o == Longest(p, 3, PyOps \cup PyPunc)
      eol == CrLineEnd(p)
  IN CASE mode # << >> -> PyString
       [] c \in HWhite -> Skip(1)
       [] c = 35 -> To(eol, mode, K(p, 1, "comment_delim") \o Kr(p + 1, eol, "comment"))
       [] q \in {Sq, Dq} ->
            To(pre + Len(quotes), <<quotes, ok /\ w \in PyRaw, ok /\ w \in PyBytes>>,
               Kr(p, pre, IF ok THEN "string_decor" ELSE "error") \o K(pre, Len(quotes), "string_delim"))
       [] id > p -> Go(id - p, PyKeyword(Slice(p, id)))
       [] num.len > 0 -> To(p + num.len, mode, NumberToks(p, num, 95))
       [] o > 0 -> Go(o, IF SubSeq(t, p + 1, p + o) \in PyPunc THEN "symbol_punc" ELSE "symbol_op")
       [] c \in Chars("()") -> Go(1, "symbol_parens")
       [] c \in Chars("[]") -> Go(1, "symbol_square")
       [] c \in Chars("{}") -> Go(1, "symbol_brace")
       [] c = Bs -> Go(1, "string_escape")
       [] OTHER -> GoF(CpLen(p), "error")

================================================================================
