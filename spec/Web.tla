---------------------------------- MODULE Web -----------------------------------
(* The wrapper of the WebAssembly library (www/js/ulight.js) as seen by what it       *)
(* calls: it allocates, fills a state, calls the library, collects the text which is   *)
(* flushed, and releases everything. An allocation is <<address, size, alignment>>;     *)
(* a state made by ulight_new is <<address, -1, 0>>.                                     *)
EXTENDS Integers, Sequences, FiniteSets

State(p) == <<p, -1, 0>>
Ends(a) == IF a[2] = -1 THEN a[1] + 1 ELSE a[1] + a[2]
\* n bytes at p lie in a live allocation
Within(live, p, n) == \E a \in live : a[2] # -1 /\ a[1] <= p /\ p + n <= a[1] + a[2]

\* the UTF-8 encoding of UTF-16 code units, in which unpaired surrogates are U+FFFD
Unit(u, i) == u[i]
IsHigh(c) == c \in 55296 .. 56319
IsLow(c) == c \in 56320 .. 57343
E8(c) == IF c < 128 THEN <<c>>
         ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
         ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
         ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
RECURSIVE Utf16(_, _, _)
Utf16(u, i, acc) ==
    IF i > Len(u) THEN acc
    ELSE IF IsHigh(u[i]) /\ i < Len(u) /\ IsLow(u[i + 1])
         THEN Utf16(u, i + 2, acc \o E8(65536 + (u[i] - 55296) * 1024 + (u[i + 1] - 56320)))
         ELSE IF IsHigh(u[i]) \/ IsLow(u[i]) THEN Utf16(u, i + 1, acc \o <<239, 191, 189>>)
         ELSE Utf16(u, i + 1, acc \o E8(u[i]))
Encoded(u) == Utf16(u, 1, <<>>)
================================================================================
