--------------------------------- MODULE Html ---------------------------------
(* Rendering of a token stream as HTML, as a machine that writes one piece after *)
(* the other: gaps between tokens escaped, each token as one element.             *)
EXTENDS Integers, Sequences, TLC, HighlightTypes

(* Character references of the three characters that are escaped: &lt; &gt; &amp; *)
Escape(b) == CASE b = 60 -> <<38, 108, 116, 59>>
               [] b = 62 -> <<38, 103, 116, 59>>
               [] b = 38 -> <<38, 97, 109, 112, 59>>
               [] OTHER  -> <<b>>

RECURSIVE Escaped(_, _, _)
(* src[b .. e-1], escaped; split in halves to keep the recursion flat *)
Escaped(src, b, e) ==
    IF b >= e THEN <<>>
    ELSE IF e = b + 1 THEN Escape(src[b + 1])
    ELSE LET m == (b + e) \div 2 IN Escaped(src, b, m) \o Escaped(src, m, e)

Alphabet == "abcdefghijklmnopqrstuvwxyz0123456789_-"
Code == [ i \in 1 .. 26 |-> 96 + i ] \o [ i \in 1 .. 10 |-> 47 + i ] \o <<95, 45>>
CodeOf(ch) == Code[CHOOSE i \in 1 .. Len(Alphabet) : SubSeq(Alphabet, i, i) = ch]
Bytes(s) == [ i \in 1 .. Len(s) |-> CodeOf(SubSeq(s, i, i)) ]

(* The id of a type: its short name. *)
IdBytes == [ ty \in 0 .. 255 |-> Bytes(ShortName[ty]) ]

OpenTag(tag, attr, ty) == <<60>> \o tag \o <<32>> \o attr \o <<61>> \o IdBytes[ty] \o <<62>>
CloseTag(tag) == <<60, 47>> \o tag \o <<62>>

Element(src, tag, attr, t) ==
    OpenTag(tag, attr, t[3]) \o Escaped(src, t[1], t[1] + t[2]) \o CloseTag(tag)

================================================================================
