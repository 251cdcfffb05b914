------------------------------- MODULE Crypto -------------------------------
(* The NTLM computations of MS-NLMP 3.3 and 3.4.5.1.                        *)
EXTENDS Text, Flags

\* 7 bytes of key -> 8 bytes of key (DES ignores the parity bits)
DesKey(k) == [i \in 1..8 |->
                 IF i = 1 THEN k[1]
                 ELSE IF i = 8 THEN (k[7] * 2) % 256
                 ELSE ((k[i - 1] * 2^(9 - i)) % 256) + (k[i] \div 2^(i - 1))]
Des7(k, d) == DesBlock(DesKey(k), d)
Desl(h, d) == LET k == h \o Zeros(5)
              IN Des7(Cut(k, 0, 7), d) \o Des7(Cut(k, 7, 7), d) \o Des7(Cut(k, 14, 7), d)

NtHash(pw) == MD4(Utf16(pw))
LmHash(pw) == LET p == Cut(Utf8(UpperCase(pw)) \o Zeros(14), 0, 14)
                  magic == <<75, 71, 83, 33, 64, 35, 36, 37>>          \* "KGS!@#$%"
              IN Des7(Cut(p, 0, 7), magic) \o Des7(Cut(p, 7, 7), magic)
V2Hash(user, nthash, dom) == HmacMD5(nthash, Utf16(UpperCase(user) \o dom))

\* NTLMv1 responses
NtV1Ess(nth, sc, cc)   == Desl(nth, Cut(MD5(sc \o cc), 0, 8))
NtV1Plain(nth, sc)     == Desl(nth, sc)
LmV1Ess(cc)            == cc \o Zeros(16)
LmV1Plain(lmh, sc)     == Desl(lmh, sc)
SbkV1(nth)             == MD4(nth)

\* NTLMv2 responses
ProofV2(v2h, sc, blob) == HmacMD5(v2h, sc \o blob)
LmV2(v2h, sc, cc)      == HmacMD5(v2h, sc \o cc) \o cc
SbkV2(v2h, proof)      == HmacMD5(v2h, proof)

\* Key exchange key for NTLMv1 (3.4.5.1); for NTLMv2 it is the session base key
Kek(F, sbk, lm8, lmh, sc) ==
  IF ESS \in F THEN HmacMD5(sbk, sc \o lm8)
  ELSE IF LM_KEY \in F THEN Des7(Cut(lmh, 0, 7), lm8) \o Des7(<<lmh[8], 189, 189, 189, 189, 189, 189>>, lm8)
  ELSE IF NON_NT \in F THEN Cut(lmh, 0, 8) \o Zeros(8)
  ELSE sbk
\* whether a random session key is exchanged (3.1.5.1.2)
Exchanges(F) == KEY_EXCH \in F /\ F \cap {SIGN, SEAL} # {}
Mic(key, neg, chal, auth0) == HmacMD5(key, neg \o chal \o auth0)
=============================================================================
