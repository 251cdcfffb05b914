-------------------------------- MODULE Text --------------------------------
(* Texts (sequences of code points) and their encodings on the wire.        *)
EXTENDS Bytes, Integers

IsHigh(u) == u >= 55296 /\ u < 56320
IsLow(u)  == u >= 56320 /\ u < 57344

EncCp(c) == IF c < 65536 THEN LE16(c)
            ELSE LE16(55296 + ((c - 65536) \div 1024)) \o LE16(56320 + ((c - 65536) % 1024))
Utf16(t) == FlattenSeq([i \in 1..Len(t) |-> EncCp(t[i])])

(* The longest prefix that is UTF-16LE text without NUL: the text, and the  *)
(* number of bytes it takes. Bytes behind it (from a NUL, a lone surrogate  *)
(* or a single odd byte on) are not part of the text.                       *)
Utf16Prefix(b) ==
  LET n    == Len(b) \div 2
      u    == TLCEval([i \in 1..n |-> U16(b, 2 * i - 2)])
      bad(i) == \/ u[i] = 0
                \/ IsHigh(u[i]) /\ ~(i < n /\ IsLow(u[i + 1]))
                \/ IsLow(u[i]) /\ ~(i > 1 /\ IsHigh(u[i - 1]))
      bads == {i \in 1..n : bad(i)}
      good == IF bads = {} THEN n ELSE (CHOOSE i \in bads : \A j \in bads : i <= j) - 1
      cp(i) == IF IsLow(u[i]) THEN <<>>
               ELSE IF IsHigh(u[i]) THEN <<65536 + (u[i] - 55296) * 1024 + (u[i + 1] - 56320)>>
               ELSE <<u[i]>>
  IN [t |-> FlattenSeq([i \in 1..good |-> cp(i)]), n |-> 2 * good]

IsSpace(c) == c \in (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
Trim(t) == LET ink == {i \in 1..Len(t) : ~IsSpace(t[i])}
           IN IF ink = {} THEN <<>>
              ELSE SubSeq(t, CHOOSE i \in ink : \A j \in ink : i <= j, CHOOSE i \in ink : \A j \in ink : i >= j)
Positions(t, c) == {i \in 1..Len(t) : t[i] = c}
First(t, c)     == CHOOSE i \in Positions(t, c) : \A j \in Positions(t, c) : i <= j
UpTo(t, c)      == IF Positions(t, c) = {} THEN t ELSE SubSeq(t, 1, First(t, c) - 1)
After(t, c)     == SubSeq(t, First(t, c) + 1, Len(t))
IsAscii(t)      == \A i \in 1..Len(t) : t[i] < 128
NoNul(t)        == \A i \in 1..Len(t) : t[i] # 0
=============================================================================
