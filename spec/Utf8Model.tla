------------------------------- MODULE Utf8Model --------------------------------
(* A decoder reading byte after byte. Explored over strings of boundary bytes:      *)
(* decoding with replacement loses no byte, resynchronises, agrees with encoding.   *)
EXTENDS Utf8, FiniteSets, TLC
CONSTANTS Bytes, MaxLen
VARIABLES s

Init == s = <<>>
Next == Len(s) < MaxLen /\ \E b \in Bytes : s' = Append(s, b)
Spec == Init /\ [][Next]_s

P == Points(s, 0)
\* every position is in exactly one code point or maximal subpart, of 1 to 4 bytes
Cover == \A i \in DOMAIN P :
    /\ i = 1 => P[i][2] = 0
    /\ LET e == IF i = Len(P) THEN Len(s) ELSE P[i + 1][2] IN e - P[i][2] \in 1 .. 4
\* a well-formed part decodes to a scalar value whose encoding is that part
RoundTrip == \A i \in DOMAIN P :
    P[i][3] => LET e == IF i = Len(P) THEN Len(s) ELSE P[i + 1][2]
               IN IsScalar(P[i][1]) /\ Encode(P[i][1]) = SubSeq(s, P[i][2] + 1, e)
ErrorIffReplaced == (FirstError(s) = 0) <=> (\A i \in DOMAIN P : P[i][3])
\* a maximal subpart of an ill-formed sequence is the start of something well-formed, or one byte
Subpart == \A i \in DOMAIN P :
    ~P[i][3] => LET e == IF i = Len(P) THEN Len(s) ELSE P[i + 1][2]
                    part == SubSeq(s, P[i][2] + 1, e)
                IN Len(part) = 1 \/ \E t \in Bytes, u \in Bytes : Decode(part \o <<t, u>>)[1]
\* a code point of the text after any prefix that is well-formed is not affected by it
Resync == \A i \in DOMAIN P : P[i][3] => Decode(SubSeq(s, P[i][2] + 1, Len(s)))[2] = P[i][1]
Codes == \A c \in {0, 127, 128, 2047, 2048, 55295, 57344, 65535, 65536, 1114111} :
    Decode(Encode(c)) = <<TRUE, c, Len(Encode(c))>>
================================================================================
