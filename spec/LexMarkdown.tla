------------------------------- MODULE LexMarkdown -------------------------------
(* Markdown, line by line.  mode: <<state, stack>>; state: <<"text">>,             *)
(* <<"fence", character, length>> or <<"comment">>; stack:                         *)
(*    <<"line", e, quoted>>     the rest of a line, up to e                        *)
(*    <<"in", e, type, prev>>   inline contents up to e; type: of plain text;      *)
(*                              prev: the code unit before p, or -1                *)
(*    <<"then", q, ks>>         highlight ks and go to q                           *)
EXTENDS Lex, FiniteSets

MdInit == << <<"text">>, << >> >>
MdWhite == {32, 9, 10, 13}
MdSpace == {32, 9}
MdBlank(i, e, S) == SpanTo(i, S, e) = e
MdLead(i, e) == SpanTo(i, {32}, Min2(e, i + 3))
MdMark == "symbol_formatting"

(* where the contents of a heading in [i, e) end *)
RECURSIVE MdBack(_, _, _)
MdBack(i, e, S) == IF e > i /\ t[e] \in S THEN MdBack(i, e - 1, S) ELSE e
MdHeadingEnd(i, e) ==
  LET a == MdBack(i, e, {32})
      h == MdBack(i, a, {35})
  IN IF h < a /\ (h = i \/ t[h] = 32) THEN MdBack(i, h, {32}) ELSE a

(* the code span at i: [e |-> end or 0, n |-> length of the delimiters] *)
RECURSIVE MdSpanFrom(_, _, _)
MdSpanFrom(i, n, e) ==
  LET a == FindTo(i, {96}, e)
      b == SpanTo(a, {96}, e)
  IN IF a >= e THEN 0 ELSE IF b - a = n THEN b ELSE MdSpanFrom(b, n, e)
MdSpan(i, e) == LET n == SpanTo(i, {96}, e) - i IN [n |-> n, e |-> IF n = 0 THEN 0 ELSE MdSpanFrom(i + n, n, e)]

(* the end of an autolink, or 0 *)
MdAutolink(i, e) ==
  LET j == FindTo(i + 1, MdWhite \cup {60, 62}, e)
  IN IF j < e /\ At(j) = 62 /\ FindTo(i + 1, {58, 64}, j) < j THEN j + 1 ELSE 0

(* a comment (of HTML): [e |-> end or 0, term |-> closed] *)
RECURSIVE MdCommentFrom(_, _)
MdCommentFrom(i, e) ==
  LET j == FindTo(i, {45, 60}, e)
  IN IF j >= e THEN [e |-> e, term |-> FALSE]
     ELSE IF HasUpTo(j, W("-->"), e) THEN [e |-> j + 3, term |-> TRUE]
     ELSE IF HasUpTo(j, W("<!-->"), e) THEN [e |-> j + 5, term |-> TRUE]
     ELSE IF HasUpTo(j, W("<!--"), e) \/ HasUpTo(j, W("--!>"), e) THEN [e |-> 0, term |-> FALSE]
     ELSE MdCommentFrom(j + 1, e)
MdComment(i, e) ==
  IF ~HasUpTo(i, W("<!--"), e) \/ HasUpTo(i, W("<!-->"), e) \/ HasUpTo(i, W("<!--->"), e) THEN [e |-> 0, term |-> FALSE]
  ELSE MdCommentFrom(i + 4, e)

MdRef(i, e) ==
  LET hex == At(i + 2) \in {88, 120}
      a == IF At(i + 1) # 35 THEN i + 1 ELSE IF hex THEN i + 3 ELSE i + 2
      b == SpanTo(a, IF a = i + 1 THEN Alnum ELSE IF a = i + 3 THEN HexDigit ELSE Digit, e)
  IN IF b > a /\ b < e /\ At(b) = 59 THEN b + 1 - i ELSE 0

(* behind the bracket which closes the one before i, or e *)
RECURSIVE MdBracket(_, _, _)
MdBracket(i, d, e) ==
  CASE d = 0 -> i
    [] i >= e -> e
    [] At(i) = Bs /\ i + 1 < e -> MdBracket(i + 2, d, e)
    [] At(i) = 91 -> MdBracket(i + 1, d + 1, e)
    [] At(i) = 93 -> MdBracket(i + 1, d - 1, e)
    [] OTHER -> MdBracket(i + 1, d, e)
RECURSIVE MdUrlFrom(_, _)
MdUrlFrom(i, e) ==
  IF i >= e \/ At(i) \in MdWhite \cup {41} THEN i
  ELSE IF At(i) = Bs /\ i + 1 < e THEN MdUrlFrom(i + 2, e)
  ELSE MdUrlFrom(i + 1, e)
MdUrl(i, e) ==
  LET j == FindTo(i + 1, {60, 62, LF}, e)
  IN IF At(i) # 60 \/ i >= e THEN MdUrlFrom(i, e) ELSE IF j < e /\ At(j) = 62 THEN j + 1 ELSE j
(* a link whose text begins at i: [ok, text |-> end of the text, url, close] *)
MdLink(i, e) ==
  LET a == MdBracket(i, 1, e)
      u == MdUrl(a + 1, e)
      c == FindTo(u, {41}, e)
  IN IF a >= e \/ At(a) # 40 THEN [ok |-> FALSE]
     ELSE IF c >= e THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, text |-> a - 1, url |-> u, close |-> c]
MdLinkTail(l) == K(l.text, 2, MdMark) \o Kr(l.text + 2, l.url, "text_link") \o K(l.close, 1, MdMark)

(* emphasis by n delimiters c, from i: where the closing ones begin, or 0 *)
RECURSIVE MdEmphasis(_, _, _, _)
MdEmphasis(i, c, n, e) ==
  LET sp == MdSpan(i, e)
      com == MdComment(i, e)
      r == SpanTo(i, {c}, e)
  IN IF i >= e THEN 0
     ELSE CASE At(i) = 96 -> MdEmphasis(IF sp.e > 0 THEN sp.e ELSE i + 1, c, n, e)
            [] com.e > 0 -> MdEmphasis(com.e, c, n, e)
            [] r > i -> (IF r - i = n /\ At(i - 1) \notin MdWhite /\ ~(c = 95 /\ r < e /\ At(r) \in Alnum) THEN i ELSE MdEmphasis(r, c, n, e))
            [] OTHER -> MdEmphasis(i + 1, c, n, e)

MdIn(e, ty, prev) == <<"in", e, ty, prev>>
MdThen(q, ks) == <<"then", q, ks>>
MdSpecial == Chars("`<\\&![*_")

MdInline(f) ==
  LET e == f[2]
      c == At(p)
      sp == MdSpan(p, e)
      auto == MdAutolink(p, e)
      com == MdComment(p, e)
      ref == MdRef(p, e)
      im == MdLink(p + 2, e)
      ln == MdLink(p + 1, e)
      r == SpanTo(p, {c}, Min2(e, p + 4)) - p
      em == MdEmphasis(p + r, c, r, e)
      plain == FindTo(p + 1, MdSpecial, e)
      below == SubSeq(mode[2], 1, Len(mode[2]) - 1)
      under(prev) == Append(below, MdIn(e, f[3], prev))
      to(q, prev, ks) == To(q, <<mode[1], under(prev)>>, ks)
      none == to(p + 1, c, << >>)
  IN CASE p = e -> To(p, <<mode[1], below>>, << >>)
       [] c = 96 -> (IF sp.e = 0 THEN none
                     ELSE to(sp.e, 96, K(p, sp.n, "string_delim") \o Kr(p + sp.n, sp.e - sp.n, "text_code") \o K(sp.e - sp.n, sp.n, "string_delim")))
       [] c = 60 -> (CASE com.e > 0 /\ com.term -> to(com.e, 62, BlockComment(p, 4, com.e, TRUE, 3))
                       [] com.e > 0 /\ (e >= N \/ At(e) \in {LF, CR}) ->
                            To(com.e, << <<"comment">>, under(62) >>, BlockComment(p, 4, com.e, FALSE, 0))
                       [] auto > 0 -> to(auto, 62, K(p, 1, MdMark) \o Kr(p + 1, auto - 1, "text_link") \o K(auto - 1, 1, MdMark))
                       [] OTHER -> none)
       [] c = Bs -> (IF p + 1 < e /\ At(p + 1) \in Punct THEN to(p + 2, At(p + 1), K(p, 2, "string_escape")) ELSE none)
       [] c = 38 -> (IF ref > 0 THEN to(p + ref, 59, K(p, ref, "string_escape")) ELSE none)
       [] c = 33 -> (IF p + 1 < e /\ At(p + 1) = 91 /\ im.ok THEN to(im.close + 1, 41, K(p, 2, MdMark) \o MdLinkTail(im)) ELSE none)
       [] c = 91 -> (IF ln.ok THEN To(p + 1, <<mode[1], under(41) \o << MdThen(ln.close + 1, MdLinkTail(ln)), MdIn(ln.text, "", 0 - 1) >> >>, K(p, 1, MdMark))
                     ELSE none)
       [] c \in {42, 95} ->
            (IF r > 3 \/ p + r >= e \/ At(p + r) \in MdWhite \/ (c = 95 /\ f[4] \in Alnum) \/ em = 0 THEN none
             ELSE To(p + r, <<mode[1], under(c) \o << MdThen(em + r, K(em, r, MdMark)), MdIn(em, "", c) >> >>, K(p, r, MdMark)))
       [] OTHER -> to(plain, At(plain - 1), IF f[3] = "" THEN << >> ELSE Kr(p, plain, f[3]))

(* the rest of a line, up to e *)
MdLine(e, quoted) ==
  LET below == SubSeq(mode[2], 1, Len(mode[2]) - 1)
      lead == MdLead(p, e)
      c == IF lead < e THEN At(lead) ELSE 0 - 1
      hashes == SpanTo(lead, {35}, Min2(e, lead + 6))
      isHeading == c = 35 /\ (hashes = e \/ At(hashes) \in MdSpace)
      title == IF hashes < e THEN hashes + 1 ELSE hashes
      run == SpanTo(lead, {c}, e)
      isFence == c \in {96, 126} /\ run >= lead + 3 /\ ~(c = 96 /\ FindTo(run, {96}, e) < e)
      isBreak == c \in Chars("*-_=") /\ MdBlank(lead, e, MdSpace \cup {c}) /\ Cardinality({k \in lead + 1 .. e : t[k] = c}) >= 3
      item == SpanTo(p, {32}, e)
      digits == SpanTo(item, Digit, Min2(e, item + 9))
      marker == CASE item >= e -> 0
                  [] At(item) \in Chars("-+*") -> item + 1
                  [] digits > item /\ digits < e /\ At(digits) \in Chars(".)") -> digits + 1
                  [] OTHER -> 0
      isItem == marker > 0 /\ marker < e /\ At(marker) \in MdSpace
      indent == IF At(p) = 9 THEN p + 1 ELSE IF SpanTo(p, {32}, Min2(e, p + 4)) = p + 4 THEN p + 4 ELSE p
      quote == IF lead + 1 < e /\ At(lead + 1) \in MdSpace THEN lead + 2 ELSE lead + 1
      do(q, fs, ks) == To(q, <<mode[1], below \o fs>>, ks)
  IN CASE p = e -> do(p, << >>, << >>)
       [] ~quoted /\ MdBlank(p, e, MdWhite) -> do(e, << >>, << >>)
       [] isHeading -> do(title, << MdThen(e, << >>), MdIn(MdHeadingEnd(title, e), "text_heading", 0 - 1) >>, Kr(lead, hashes, MdMark))
       [] isBreak -> do(e, << >>, Kr(lead, e, MdMark))
       [] isFence /\ ~quoted -> To(e, << <<"fence", c, run - lead>>, below >>, Kr(lead, run, "string_delim"))
       [] isItem -> do(marker + 1, << MdIn(e, "", 0 - 1) >>, Kr(item, marker, MdMark))
       [] c = 62 -> do(quote, << <<"line", e, TRUE>> >>, K(lead, 1, MdMark))
       [] indent > p -> do(e, << >>, Kr(indent, e, "text_code"))
       [] OTHER -> do(p, << MdIn(e, "", 0 - 1) >>, << >>)

MdStep ==
  LET st == mode[1]
      fs == mode[2]
      f == fs[Len(fs)]
      e == CrLineEnd(p)
      q == SkipEol(e)
      lead == MdLead(p, e)
      run == SpanTo(lead, {st[2]}, e)
      close == FindSeq(p, W("-->"))
  IN IF fs # << >>
     THEN CASE f[1] = "then" -> To(f[2], <<st, SubSeq(fs, 1, Len(fs) - 1)>>, f[3])
            [] f[1] = "in" -> MdInline(f)
            [] f[1] = "line" -> MdLine(f[2], f[3])
     ELSE CASE st[1] = "text" -> To(p, <<st, << MdThen(q, << >>), <<"line", e, FALSE>> >> >>, << >>)
            [] st[1] = "fence" -> (IF run - lead >= st[3] /\ MdBlank(run, e, MdSpace) THEN To(q, MdInit, Kr(lead, run, "string_delim"))
                                   ELSE To(q, mode, Kr(p, e, "text_code")))
            [] st[1] = "comment" -> (IF close + 3 > e THEN To(q, mode, Kr(p, e, "comment"))
                                     ELSE To(close + 3, << <<"text">>, << MdThen(q, << >>), MdIn(e, "", 62) >> >>,
                                             Kr(p, close, "comment") \o K(close, 3, "comment_delim")))
================================================================================
