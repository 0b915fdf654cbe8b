--------------------------------- MODULE Utf8 ----------------------------------
(* UTF-8 as the automaton of Table 3-7 of the Unicode Standard. A state is the     *)
(* set of bytes that may come next, given as a list of ranges still expected.      *)
EXTENDS Integers, Sequences

In(b, r) == r[1] <= b /\ b <= r[2]
Tail1 == <<128, 191>>

\* The ranges of the bytes that must follow lead byte b; <<0, 0>> if none can.
Follow(b) ==
    CASE b <= 127 -> <<>>
      [] b \in 194 .. 223 -> <<Tail1>>
      [] b = 224 -> <<<<160, 191>>, Tail1>>
      [] b \in 225 .. 236 -> <<Tail1, Tail1>>
      [] b = 237 -> <<<<128, 159>>, Tail1>>
      [] b \in 238 .. 239 -> <<Tail1, Tail1>>
      [] b = 240 -> <<<<144, 191>>, Tail1, Tail1>>
      [] b \in 241 .. 243 -> <<Tail1, Tail1, Tail1>>
      [] b = 244 -> <<<<128, 143>>, Tail1, Tail1>>
      [] OTHER -> <<<<1, 0>>, <<1, 0>>, <<1, 0>>, <<1, 0>>>>
CanLead(b) == b <= 127 \/ b \in 194 .. 244

\* Length of the longest prefix of s that the automaton accepts or can still extend,
\* starting at position i with n bytes matched.
RECURSIVE Matched(_, _, _)
Matched(s, f, n) ==
    IF n = Len(f) \/ n + 2 > Len(s) \/ ~In(s[n + 2], f[n + 1]) THEN n + 1
    ELSE Matched(s, f, n + 1)

\* The bits that lead byte and continuation bytes contribute.
LeadBits(b, n) == CASE n = 0 -> b [] n = 1 -> b - 192 [] n = 2 -> b - 224 [] n = 3 -> b - 240
RECURSIVE Cont(_, _, _)
Cont(s, n, acc) == IF n = 0 THEN acc ELSE Cont(SubSeq(s, 2, Len(s)), n - 1, acc * 64 + s[1] - 128)

\* Decode(s) = <<ok, code point or U+FFFD, length of code point or of the maximal subpart>>
Decode(s) ==
    IF s = <<>> THEN <<FALSE, 65533, 0>>
    ELSE IF ~CanLead(s[1]) THEN <<FALSE, 65533, 1>>
    ELSE LET f == Follow(s[1])
             m == Matched(s, f, 0)
         IN IF m = Len(f) + 1
            THEN <<TRUE, Cont(SubSeq(s, 2, Len(s)), Len(f), LeadBits(s[1], Len(f))), m>>
            ELSE <<FALSE, 65533, m>>

\* 0 no error, 1 no data, 2 too few bytes for the lead byte, 3 not UTF-8
Error(s) ==
    IF s = <<>> THEN 1
    ELSE IF ~CanLead(s[1]) THEN 3
    ELSE IF Len(s) < Len(Follow(s[1])) + 1 THEN 2
    ELSE IF Decode(s)[1] THEN 0 ELSE 3

\* The code points of s with replacement, each with the offset at which it starts.
RECURSIVE Points(_, _)
Points(s, at) ==
    IF s = <<>> THEN <<>>
    ELSE LET d == Decode(s) IN
         <<<<d[2], at, d[1]>>>> \o Points(SubSeq(s, d[3] + 1, Len(s)), at + d[3])

\* Error of validating all of s: that of the first code point that has one.
RECURSIVE FirstError(_)
FirstError(s) ==
    IF s = <<>> THEN 0
    ELSE IF Error(s) # 0 THEN Error(s) ELSE FirstError(SubSeq(s, Decode(s)[3] + 1, Len(s)))

IsScalar(c) == c \in 0 .. 1114111 /\ ~ c \in 55296 .. 57343
Encode(c) ==
    IF c < 128 THEN <<c>>
    ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
    ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* What the lead byte alone says, in the table-checked and in the unchecked variant.
LeadLength(b) == IF CanLead(b) THEN Len(Follow(b)) + 1 ELSE 0
LeadLengthUnchecked(b) ==
    CASE b <= 127 -> 1 [] b \in 192 .. 223 -> 2 [] b \in 224 .. 239 -> 3 [] b \in 240 .. 247 -> 4
      [] OTHER -> 0
================================================================================
