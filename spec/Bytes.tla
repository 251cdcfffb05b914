------------------------------- MODULE Bytes -------------------------------
(* Byte strings: little-endian integers, slices, 64-bit arithmetic.         *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Prims

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

Zeros(n)     == [i \in 1..n |-> 0]
AllZero(b)   == \A i \in 1..Len(b) : b[i] = 0
Rev(b)       == TLCEval([i \in 1..Len(b) |-> b[Len(b) + 1 - i]])
Cut(b, o, n) == SubSeq(b, o + 1, o + n)      \* n bytes from 0-based offset o
From(b, o)   == SubSeq(b, o + 1, Len(b))
Has(b, o, n) == o + n <= Len(b)

LE16(n)   == <<n % 256, n \div 256>>
LE32(n)   == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
U16(b, o) == b[o + 1] + 256 * b[o + 2]
\* TLC integers have 32 bits: anything from 2^30 on stands for "beyond any input"
Huge      == 1073741824
U32(b, o) == IF b[o + 4] >= 64 THEN Huge
             ELSE b[o + 1] + 256 * b[o + 2] + 65536 * b[o + 3] + 16777216 * b[o + 4]

(* Unsigned numbers of Len(b) little-endian base-256 digits. *)
RECURSIVE MulC(_, _, _)     \* b * m + c, wrapping into one digit more than b has (m, c < 2^22)
MulC(b, m, c) == IF b = <<>> THEN LET d == c IN
                                  <<d % 256, (d \div 256) % 256, (d \div 65536) % 256, d \div 16777216>>
                 ELSE LET p == Head(b) * m + c IN <<p % 256>> \o MulC(Tail(b), m, p \div 256)
RECURSIVE DivR(_, _, _)     \* big-endian digits b divided by m, remainder so far r: <<quotient digits, remainder>>
DivR(b, m, r) == IF b = <<>> THEN <<<<>>, r>>
                 ELSE LET x == r * 256 + Head(b)
                          t == DivR(Tail(b), m, x % m)
                      IN <<<<x \div m>> \o t[1], t[2]>>
Div(b, m) == LET t == DivR(Rev(b), m, 0) IN <<Rev(t[1]), t[2]>>   \* little-endian

Dig(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
RECURSIVE AddAt(_, _, _, _, _)
AddAt(a, b, i, n, c) == IF i > n THEN <<c>>
                        ELSE LET s == Dig(a, i) + Dig(b, i) + c
                             IN <<s % 256>> \o AddAt(a, b, i + 1, n, s \div 256)
Add(a, b) == AddAt(a, b, 1, Max2(Len(a), Len(b)), 0)
RECURSIVE SubAt(_, _, _, _, _)                                   \* a - b, for a >= b
SubAt(a, b, i, n, c) == IF i > n THEN <<>>
                        ELSE LET s == Dig(a, i) - Dig(b, i) - c
                             IN <<IF s < 0 THEN s + 256 ELSE s>> \o SubAt(a, b, i + 1, n, IF s < 0 THEN 1 ELSE 0)
Sub(a, b) == SubAt(a, b, 1, Max2(Len(a), Len(b)), 0)
NumLeq(a, b) == LET n == Max2(Len(a), Len(b))
                    d == {i \in 1..n : Dig(a, i) # Dig(b, i)}
                IN d = {} \/ LET k == CHOOSE i \in d : \A j \in d : j <= i IN Dig(a, k) < Dig(b, k)
NumEq(a, b)  == \A i \in 1..Max2(Len(a), Len(b)) : Dig(a, i) = Dig(b, i)
Fits(b, n)   == \A i \in (n + 1)..Len(b) : b[i] = 0
Low(b, n)    == [i \in 1..n |-> Dig(b, i)]

XorByte(a, b) == LET bit(x, k) == (x \div (2^k)) % 2
                     s(k) == IF bit(a, k) # bit(b, k) THEN 2^k ELSE 0
                 IN s(0) + s(1) + s(2) + s(3) + s(4) + s(5) + s(6) + s(7)
XorBytes(a, b) == [i \in 1..Len(a) |-> XorByte(a[i], b[i])]
=============================================================================
