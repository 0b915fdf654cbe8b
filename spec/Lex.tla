---------------------------------- MODULE Lex ----------------------------------
(* The common ground of the lexical specifications: a text being read, a machine *)
(* which consumes it piece by piece, and the highlights given to the pieces.     *)
(*                                                                               *)
(* t     the text: the UTF-8 code units, 0 .. 255                                *)
(* p     how many code units have been consumed                                  *)
(* mode  what the machine remembers (each language has its own shapes)           *)
(* out   the highlights so far: <<begin, length, type>>                          *)
(*                                                                               *)
(* A language is an operator XStep, describing the next step from (t, p, mode):  *)
(*    [p |-> consumed afterwards, m |-> mode afterwards, k |-> highlights]         *)
(* or, additionally with in |-> <<language, end>>, that the text from there to    *)
(* that end is in another language.                                               *)
(* lim   where the text in the current language ends                              *)
(* floor how many highlights may not be touched anymore                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES t, p, mode, out, strict, lim, floor

N == lim

--------------------------------------------------------------------------------
(* Characters.                                                                   *)

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [c \in { SubSeq(Ascii, i, i) : i \in 1 .. 95 } |->
             31 + CHOOSE i \in 1 .. 95 : SubSeq(Ascii, i, i) = c]
(* The code units of a string of printable ASCII characters. *)
W(s) == [i \in 1 .. Len(s) |-> CodeOf[SubSeq(s, i, i)]]
Ws(S) == { W(s) : s \in S }
(* The set of the characters of a string. *)
Chars(s) == { CodeOf[SubSeq(s, i, i)] : i \in 1 .. Len(s) }

LF == 10
CR == 13
Tab == 9
Sp == 32
Bs == 92            \* backslash
Dq == 34            \* "
Sq == 39            \* '

Digit == 48 .. 57
Upper == 65 .. 90
Lower == 97 .. 122
Alpha == Upper \cup Lower
Alnum == Alpha \cup Digit
Word == Alnum \cup {95}
HexDigit == Digit \cup (65 .. 70) \cup (97 .. 102)
OctDigit == 48 .. 55
BinDigit == {48, 49}
Punct == Chars("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
(* space, tab, line feed, vertical tab, form feed, carriage return *)
CWhite == {32, 9, 10, 11, 12, 13}
(* the same without the vertical tab *)
HWhite == {32, 9, 10, 12, 13}
NonAscii == 128 .. 255
Trail == 128 .. 191
All == 0 .. 255

DigitBase(b) == IF b <= 10 THEN 48 .. 47 + b
                ELSE Digit \cup (97 .. 86 + b) \cup (65 .. 54 + b)
Digits2 == DigitBase(2)
Digits8 == DigitBase(8)
DigitsOf(b) == CASE b = 2 -> Digits2 [] b = 8 -> Digits8 [] b = 10 -> Digit [] b = 16 -> HexDigit
                 [] OTHER -> DigitBase(b)

ToLower(c) == IF c \in Upper THEN c + 32 ELSE c
LowerSeq(s) == [i \in DOMAIN s |-> ToLower(s[i])]

--------------------------------------------------------------------------------
(* Looking at the text.  Positions are offsets, 0 .. N.                          *)

At(i) == IF i < N THEN t[i + 1] ELSE 0 - 1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Slice(i, j) == SubSeq(t, i + 1, j)
HasUpTo(i, w, e) == i + Len(w) <= e /\ \A k \in 1 .. Len(w) : t[i + k] = w[k]
Has(i, w) == i + Len(w) <= N /\ \A k \in 1 .. Len(w) : t[i + k] = w[k]
HasLow(i, w) == i + Len(w) <= N /\ \A k \in 1 .. Len(w) : ToLower(t[i + k]) = w[k]

(* The end of the longest run of characters of S from i on, at most up to e. *)
RECURSIVE SpanTo(_, _, _)
SpanTo(i, S, e) == IF i < e /\ t[i + 1] \in S THEN SpanTo(i + 1, S, e) ELSE i
Span(i, S) == SpanTo(i, S, N)
(* The first position from i on with a character of S; e if there is none before e. *)
RECURSIVE FindTo(_, _, _)
FindTo(i, S, e) == IF i < e /\ t[i + 1] \notin S THEN FindTo(i + 1, S, e) ELSE Min2(i, e)
Find(i, S) == FindTo(i, S, N)
(* The first position from i on at which w occurs; N if it does not. *)
RECURSIVE FindSeq(_, _)
FindSeq(i, w) == IF i + Len(w) > N THEN N ELSE IF Has(i, w) THEN i ELSE FindSeq(i + 1, w)
(* Whether w does occur from i on. *)
Occurs(i, w) == Has(FindSeq(i, w), w)

(* End of the line i is in: the position of its terminator or the end of the text. *)
LineEnd(i) == Find(i, {LF})
(* The same if carriage returns end lines, too, and the end of that terminator. *)
CrLineEnd(i) == Find(i, {LF, CR})
SkipEol(j) == IF j >= N THEN j ELSE IF Has(j, <<CR, LF>>) THEN j + 2 ELSE j + 1
(* The same if U+2028 and U+2029 end lines, too. *)
RECURSIVE UniLineEnd(_)
UniLineEnd(i) ==
  LET j == Find(i, {LF, CR, 226})
  IN IF At(j) = 226 /\ ~Has(j, <<226, 128, 168>>) /\ ~Has(j, <<226, 128, 169>>) THEN UniLineEnd(j + 1) ELSE j
(* The first position from i on at which w or a character of S is; N if there is none. *)
RECURSIVE ContentEnd(_, _, _)
ContentEnd(i, w, S) == IF i >= N \/ Has(i, w) \/ At(i) \in S THEN i ELSE ContentEnd(i + 1, w, S)
(* If a backslash at i is followed by a line terminator: the length of both. *)
EolLen(j) == IF Has(j, <<CR, LF>>) THEN 2 ELSE IF At(j) \in {LF, CR} THEN 1 ELSE 0

(* The longest member of S (a set of sequences, none longer than m) at i; 0 if none. *)
RECURSIVE Longest(_, _, _)
Longest(i, m, S) ==
  IF m = 0 THEN 0
  ELSE IF i + m <= N /\ SubSeq(t, i + 1, i + m) \in S THEN m
  ELSE Longest(i, m - 1, S)

(* The code point at i, and its length. *)
CpLen(i) == CASE At(i) < 192 -> 1 [] At(i) < 224 -> 2 [] At(i) < 240 -> 3 [] OTHER -> 4
Cp(i) == CASE At(i) < 128 -> At(i)
           [] At(i) < 224 -> (At(i) % 32) * 64 + (At(i + 1) % 64)
           [] At(i) < 240 -> (At(i) % 16) * 4096 + (At(i + 1) % 64) * 64 + (At(i + 2) % 64)
           [] OTHER -> (At(i) % 8) * 262144 + (At(i + 1) % 64) * 4096 + (At(i + 2) % 64) * 64 + (At(i + 3) % 64)

(* Letters: of the other characters, only these are used in recorded texts.      *)
LetterStart == {228, 233, 223, 945, 947, 20013, 119964}       \* XID_Start
LetterCont  == {769, 183, 8255}                               \* XID_Continue only
OtherChars  == {8206, 8364, 128512, 160, 8232, 65279, 133, 167, 171, 187, 8212}    \* neither
XStart == Alpha \cup LetterStart
XCont == Word \cup LetterStart \cup LetterCont

(* The end of the run of code points of S. *)
RECURSIVE SpanCp(_, _)
SpanCp(i, S) == IF i < N /\ Cp(i) \in S THEN SpanCp(i + CpLen(i), S) ELSE i
(* The end of an identifier: one of S, then any number of C; i if there is none. *)
IdEnd(i, S, C) == IF i < N /\ Cp(i) \in S THEN SpanCp(i + CpLen(i), C) ELSE i

--------------------------------------------------------------------------------
(* Highlights.  A fourth component of 1 requests merging with the preceding      *)
(* highlight if that has the same type and ends where this one begins.           *)

K(i, len, ty) == IF len > 0 THEN << <<i, len, ty>> >> ELSE << >>
KF(i, len, ty) == IF len > 0 THEN << <<i, len, ty, 1>> >> ELSE << >>
Kr(i, j, ty) == K(i, j - i, ty)

RECURSIVE Put(_, _)
Put(o, ks) ==
  IF ks = << >> THEN o
  ELSE LET x == Head(ks)
           n == Len(o)
       IN IF Len(x) = 4 /\ n > floor /\ o[n][3] = x[3] /\ o[n][1] + o[n][2] = x[1]
          THEN Put([o EXCEPT ![n][2] = @ + x[2]], Tail(ks))
          ELSE Put(Append(o, <<x[1], x[2], x[3]>>), Tail(ks))

To(q, m, ks) == [p |-> q, m |-> m, k |-> ks]
Enter(q, m, ks, lang, e) == [p |-> q, m |-> m, k |-> ks, in |-> <<lang, e>>]
Go(len, ty) == To(p + len, mode, K(p, len, ty))
GoF(len, ty) == To(p + len, mode, KF(p, len, ty))
Skip(len) == To(p + len, mode, << >>)

(* prefix, contents, suffix of something delimited: [i, e) with the closing one  *)
(* present or not.                                                               *)
Enclosed(i, pre, e, term, suf, ty, dl) ==
  K(i, pre, dl)
  \o (IF term THEN Kr(i + pre, e - suf, ty) \o K(e - suf, suf, dl) ELSE Kr(i + pre, e, ty))
BlockComment(i, pre, e, term, suf) == Enclosed(i, pre, e, term, suf, "comment", "comment_delim")
(* from i, opened by pre characters, to the first occurence of w after that *)
Delimited(i, pre, w, ty, dl) ==
  LET j == FindSeq(i + pre, w)
  IN IF Occurs(i + pre, w) THEN [e |-> j + Len(w), k |-> Enclosed(i, pre, j + Len(w), TRUE, Len(w), ty, dl)]
     ELSE [e |-> N, k |-> Enclosed(i, pre, N, FALSE, 0, ty, dl)]
LineComment(i, pre) == [e |-> LineEnd(i), k |-> K(i, pre, "comment_delim") \o Kr(i + pre, LineEnd(i), "comment")]

--------------------------------------------------------------------------------
(* Numbers.                                                                      *)

(* Digits, perhaps none, with separators (0: none): neither leading nor trailing nor doubled.   *)
RECURSIVE SepOk(_, _, _)
SepOk(i, e, sep) == i >= e \/ (~(t[i + 1] = sep /\ t[i] = sep) /\ SepOk(i + 1, e, sep))
AnyDigit(i, e, sep) == Span(i, {sep}) < e
SepDigits(i, base, sep, lenient) ==
  IF lenient THEN LET e == Span(i, DigitsOf(base) \cup {sep}) IN [e |-> e, bad |-> ~AnyDigit(i, e, sep)]
  ELSE IF sep = 0 THEN [e |-> Span(i, DigitsOf(base)), bad |-> FALSE]
  ELSE LET e == Span(i, DigitsOf(base) \cup {sep})
       IN [e |-> e, bad |-> e = i \/ t[i + 1] = sep \/ t[e] = sep \/ ~SepOk(i + 1, e, sep)]

CommonExp == << W("E+"), W("E-"), W("E"), W("e+"), W("e-"), W("e") >>
NumDefaults == [sign |-> {}, pre |-> << >>, exp |-> << >>, base |-> 10, zbase |-> 10, sep |-> 0, lenient |-> FALSE,
                nei |-> FALSE, nef |-> FALSE,
                nopoint |-> {}]
(* the index of the first member of the list which is at i; 0 if none *)
FirstAt(i, ws) ==
  IF \E k \in DOMAIN ws : Has(i, ws[k])
  THEN CHOOSE k \in DOMAIN ws : Has(i, ws[k]) /\ \A j \in 1 .. k - 1 : ~Has(i, ws[j])
  ELSE 0
ListSuffix(ws, i) == LET k == FirstAt(i, ws) IN IF k = 0 THEN 0 ELSE Len(ws[k])
NoSuffix(i) == 0

NoNumber == [len |-> 0, sign |-> 0, pre |-> 0, int |-> 0, dot |-> 0, frac |-> 0, es |-> 0, ed |-> 0, suf |-> 0,
             base |-> 10, bad |-> FALSE]
(* A number at i: sign, prefix, digits, point, digits, exponent, suffix.  o.pre is a list of *)
(* <<codes, base, may have a fraction>>; Sfx(j) is the length of the suffix at j.            *)
Number(i, o, Sfx(_)) ==
  LET sg == IF At(i) \in o.sign THEN 1 ELSE 0
      pk == FirstAt(i + sg, [k \in DOMAIN o.pre |-> o.pre[k][1]])
      pn == IF pk = 0 THEN 0 ELSE Len(o.pre[pk][1])
      base == IF pk # 0 THEN o.pre[pk][2] ELSE IF At(i + sg) = 48 THEN o.zbase ELSE o.base
      fl == IF pk # 0 THEN o.pre[pk][3] ELSE TRUE
      a == i + sg + pn
      ints == SepDigits(a, base, o.sep, o.lenient)
      b == ints.e
      dot == fl /\ At(b) = 46 
             /\ (o.nopoint = {} \/ b + 1 >= N \/ Cp(b + 1) \notin o.nopoint)
      fr == SepDigits(b + 1, IF pk # 0 THEN base ELSE o.base, o.sep, o.lenient)
      c == IF dot THEN fr.e ELSE b
      lone == dot /\ pn = 0 /\ b = a /\ At(b + 1) \notin Digit
      ek == IF fl /\ c < N THEN FirstAt(c, o.exp) ELSE 0
      en == IF ek = 0 THEN 0 ELSE Len(o.exp[ek])
      d == IF ek = 0 THEN c ELSE Span(c + en, Digit)
      sf == IF d < N THEN Sfx(d) ELSE 0
  IN IF i >= N \/ lone \/ c = i \/ (o.sep # 0 /\ pn = 0 /\ At(a) = o.sep) THEN NoNumber
     ELSE [len |-> d + sf - i, sign |-> sg, pre |-> pn, int |-> b - a, dot |-> IF dot THEN 1 ELSE 0,
           frac |-> IF dot THEN fr.e - (b + 1) ELSE 0, es |-> en, ed |-> d - (c + en), suf |-> sf, base |-> base,
           bad |-> \/ o.nei /\ b = a
                   \/ b > a /\ ints.bad
                   \/ dot /\ (IF fr.e = b + 1 THEN o.nef ELSE fr.bad)
                   \/ ek # 0 /\ d = c + en
                   \/ pn = d + sf - i]

(* The digits [i, j), separators being delimiters. *)
RECURSIVE DigitToks(_, _, _)
DigitToks(i, j, sep) ==
  IF i >= j THEN << >>
  ELSE IF sep = 0 THEN Kr(i, j, "number")
  ELSE IF t[i + 1] = sep THEN K(i, 1, "number_delim") \o DigitToks(i + 1, j, sep)
  ELSE LET e == FindTo(i, {sep}, j) IN Kr(i, e, "number") \o DigitToks(e, j, sep)
NumberToks(i, r, sep) ==
  IF r.bad THEN K(i, r.len, "error")
  ELSE LET a == i + r.sign + r.pre
           b == a + r.int
           c == b + r.dot + r.frac
           d == c + r.es + r.ed
       IN K(i, r.sign + r.pre, "number_decor") \o DigitToks(a, b, sep) \o K(b, r.dot, "number_delim")
          \o DigitToks(b + r.dot, c, sep) \o K(c, r.es, "number_delim") \o DigitToks(c + r.es, d, sep)
          \o K(d, r.suf, "number_decor")

--------------------------------------------------------------------------------
(* Escapes: what follows at i, as [n |-> length, bad |-> erroneous].             *)

RECURSIVE NoSplit(_)
NoSplit(j) == IF j < N /\ At(j) \in Trail THEN NoSplit(j + 1) ELSE j
UpToDigits(i, S, m) == LET e == SpanTo(i, S, Min2(N, i + m)) IN [n |-> e - i, bad |-> e = i]
(* m digits; with others it is erroneous, but does not extend past the string, or into the next escape *)
EscEnd == {Dq, Sq, 96, Bs, LF, CR}
Exactly(i, S, m) ==
  LET e == FindTo(i, EscEnd, Min2(N, i + m))
  IN [n |-> NoSplit(e) - i, bad |-> e < i + m \/ \E k \in i + 1 .. e : t[k] \notin S]
ExactlyRun(i, S, m) == LET e == SpanTo(i, S, Min2(N, i + m)) IN [n |-> e - i, bad |-> e # i + m]
(* what is between braces never extends past a quote or the line *)
BracedEnd(i) == Find(i + 1, {125, Dq, Sq, 96, LF, CR})
BracedAny(i) ==
  IF At(i) # 123 THEN [n |-> 0, bad |-> TRUE]
  ELSE LET e == BracedEnd(i) IN IF At(e) = 125 THEN [n |-> e + 1 - i, bad |-> FALSE] ELSE [n |-> e - i, bad |-> TRUE]
Braced(i, S) ==
  LET r == BracedAny(i)
  IN [r EXCEPT !.bad = @ \/ r.n <= 2 \/ \E k \in i + 2 .. i + r.n - 1 : t[k] \notin S]
EolEscape(i) == [n |-> EolLen(i), bad |-> EolLen(i) = 0]
EscAdd(r, d) == [r EXCEPT !.n = @ + d]
EscTok(i, r) == K(i, r.n, IF r.bad THEN "error" ELSE "string_escape")

================================================================================
