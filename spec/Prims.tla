------------------------------- MODULE Prims -------------------------------
(* The primitives MS-NLMP takes as given. TLC evaluates them with the Java  *)
(* overrides of java/NtlmPrims.java; the definitions below only give them   *)
(* a name and an arity. Bytes are 0..255, texts are sequences of Unicode    *)
(* code points.                                                             *)
MD4(b)            == CHOOSE x \in {b} : FALSE
MD5(b)            == CHOOSE x \in {b} : FALSE
HmacMD5(k, b)     == CHOOSE x \in {<<k, b>>} : FALSE
DesBlock(k8, b8)  == CHOOSE x \in {<<k8, b8>>} : FALSE
Rc4(k, b)         == CHOOSE x \in {<<k, b>>} : FALSE
Unhex(s)          == CHOOSE x \in {s} : FALSE    \* "00ff" -> <<0, 255>>
ToHex(b)          == CHOOSE x \in {b} : FALSE
Ascii(s)          == CHOOSE x \in {s} : FALSE    \* TLA+ string -> bytes
Utf8(t)           == CHOOSE x \in {t} : FALSE    \* text -> bytes
Utf8Decode(b)     == CHOOSE x \in {b} : FALSE    \* bytes -> << >> or << text >>
UpperCase(t)      == CHOOSE x \in {t} : FALSE    \* Unicode upper-casing
Occurs(a, b)      == CHOOSE x \in {<<a, b>>} : FALSE  \* a is a substring of b
Rank(q)           == CHOOSE x \in {q} : FALSE    \* dimension over GF(2) of the affine hull of the byte strings in the sequence q
Leaks(s, io)      == CHOOSE x \in {<<s, io>>} : FALSE \* some rendering of the bytes s occurs in the text io
=============================================================================
