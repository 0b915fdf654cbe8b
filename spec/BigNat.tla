-------------------------------- MODULE BigNat ---------------------------------
(* Natural numbers of any size: little-endian sequences of limbs below 10^4,       *)
(* without a highest limb of zero.                                                 *)
EXTENDS Integers, Sequences
LOCAL BASE == 10000

RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN <<>> ELSE <<c % BASE>> \o Carry(c \div BASE)
RECURSIVE MulAdd(_, _, _, _, _)
\* the limbs of a from position i on, times m, plus carry c, appended to acc
MulAdd(a, m, i, c, acc) ==
    IF i > Len(a) THEN acc \o Carry(c)
    ELSE LET x == a[i] * m + c IN MulAdd(a, m, i + 1, x \div BASE, Append(acc, x % BASE))
\* a * m + c for 0 < m <= 10^4, c < 10^8
Times(a, m, c) == MulAdd(a, m, 1, c, <<>>)
RECURSIVE TimesPower(_, _, _, _)
\* a * b^n where block = b^step
TimesPower(a, b, n, block) ==
    IF a = <<>> \/ n = 0 THEN a
    ELSE IF n >= block[2] THEN TimesPower(Times(a, block[1], 0), b, n - block[2], block)
    ELSE TimesPower(Times(a, b, 0), b, n - 1, block)
Times10(a, n) == TimesPower(a, 10, n, <<10000, 4>>)
Times2(a, n) == TimesPower(a, 2, n, <<8192, 13>>)

RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i - 1)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessFrom(a, b, Len(a))

\* the number written by the digits d (values 0..9, most significant first)
RECURSIVE Digits(_, _, _)
Digits(d, i, acc) == IF i > Len(d) THEN acc ELSE Digits(d, i + 1, Times(acc, 10, d[i]))
OfDigits(d) == Digits(d, 1, <<>>)
Even(a) == a = <<>> \/ a[1] % 2 = 0

\* Whether the double (-1)^s * m * 2^q is the nearest to digits d times 10^k. m is a BigNat,
\* q >= -1074; q = 9999 stands for infinity.
Pred(a) == \* a - 1, for a > 0
    LET RECURSIVE P(_, _)
        P(x, i) == IF x[i] > 0 THEN [x EXCEPT ![i] = @ - 1] ELSE P([x EXCEPT ![i] = BASE - 1], i + 1)
        RECURSIVE T(_)
        T(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN T(SubSeq(x, 1, Len(x) - 1)) ELSE x
    IN T(P(a, 1))
RECURSIVE Significant(_, _)
\* number of digits from the first that is not 0
Significant(d, i) == IF i > Len(d) THEN 0 ELSE IF d[i] # 0 THEN Len(d) - i + 1 ELSE Significant(d, i + 1)
Nearest(d, k, m, q) ==
    LET D == OfDigits(d)
        \* D * 10^k <=> N * 2^(q-1), both scaled to integers
        L(e) == Times2(IF k >= 0 THEN Times10(D, k) ELSE D, IF e < 0 THEN -e ELSE 0)
        R(n, e) == Times2(IF k < 0 THEN Times10(n, -k) ELSE n, IF e > 0 THEN e ELSE 0)
        two == Times(m, 2, 0)
        hi == Times(m, 2, 1)
        n == Significant(d, 1)
    IN IF n = 0 THEN m = <<>>
       ELSE IF n + k > 310 THEN q = 9999       \* at least 10^310
       ELSE IF n + k < -330 THEN m = <<>>      \* below 10^-330
       ELSE IF q = 9999 THEN ~Less(L(970), R(Pred(Times2(<<1>>, 54)), 970))
       ELSE /\ ~Less(R(hi, q - 1), L(q - 1))
            /\ m = <<>> \/ ~Less(L(q - 1), R(Pred(two), q - 1))
            /\ L(q - 1) = R(hi, q - 1) => Even(m)
            /\ m # <<>> /\ L(q - 1) = R(Pred(two), q - 1) => Even(m)
================================================================================
