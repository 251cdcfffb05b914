------------------------------- MODULE Server -------------------------------
(* The peer of the client: what an MS-NLMP server makes of an AUTHENTICATE, *)
(* read by position from the bytes, with the account's password.            *)
EXTENDS Wire, Crypto

\* A descriptor in range: [ok, len, max, off, d]
Desc(b, o) == LET n == U16(b, o)
                  off == U32(b, o + 4)
              IN [ok |-> n = 0 \/ (off <= Len(b) /\ Has(b, off, n)), len |-> n, max |-> U16(b, o + 2), off |-> off,
                  d |-> IF n # 0 /\ off <= Len(b) /\ Has(b, off, n) THEN Cut(b, off, n) ELSE <<>>]

Unreadable == [ok |-> FALSE]
ParseAuth(b) ==
  IF ~IsMessage(b, AuthHeader + 16, 3) THEN Unreadable
  ELSE LET f == TLCEval([i \in 1..6 |-> Desc(b, 4 + 8 * i)])
           F == FlagSet(Cut(b, 60, 4))
           mo == AuthHeader + IF VERSION \in F THEN 8 ELSE 0
       IN IF \E i \in 1..6 : ~f[i].ok THEN Unreadable
          ELSE IF ~Has(b, mo, 16) THEN Unreadable
          ELSE [ok |-> TRUE, lm |-> f[1].d, nt |-> f[2].d, dom |-> f[3].d, user |-> f[4].d, ws |-> f[5].d, key |-> f[6].d,
                desc |-> f, flags |-> F, micAt |-> mo, mic |-> Cut(b, mo, 16),
                zeroed |-> SubSeq(b, 1, mo) \o Zeros(16) \o From(b, mo + 16)]

(* Descriptors back to back in header order from `base`, length = maximum,  *)
(* absent ones zero, and the message ends with the last payload.            *)
RECURSIVE BackToBack(_, _, _)
BackToBack(f, i, o) ==
  IF i > Len(f) THEN [ok |-> TRUE, end |-> o]
  ELSE IF f[i].len = f[i].max /\ (f[i].off = o \/ (f[i].len = 0 /\ f[i].off = 0))
  THEN BackToBack(f, i + 1, o + f[i].len)
  ELSE [ok |-> FALSE, end |-> 0]
LaidOut(b, f, base) == LET r == BackToBack(f, 1, base) IN r.ok /\ r.end = Len(b)

-----------------------------------------------------------------------------
(* The client challenge a message shows (option).                           *)
BlobOf(nt) == From(nt, 16)
IsV2Nt(nt) == Len(nt) >= 44 /\ Cut(nt, 16, 8) = <<1, 1, 0, 0, 0, 0, 0, 0>>
ClientChallenge(p, level, F) ==
  IF level >= 3 THEN (IF Len(p.lm) = 24 THEN <<Cut(p.lm, 16, 8)>> ELSE <<>>)
  ELSE IF ESS \in F /\ Len(p.lm) = 24 THEN <<Cut(p.lm, 0, 8)>> ELSE <<>>

\* MS-NLMP 3.3.2: the NTLMv2 responses verify
VerifyNtV2(p, v2h, sc) == IsV2Nt(p.nt) /\ Cut(p.nt, 0, 16) = ProofV2(v2h, sc, BlobOf(p.nt))
VerifyLmV2(p, v2h, sc) == Len(p.lm) = 24 /\ p.lm = LmV2(v2h, sc, Cut(p.lm, 16, 8))
\* MS-NLMP 3.3.1
VerifyNtV1(p, nth, sc, F) ==
  IF ESS \in F THEN Len(p.lm) = 24 /\ p.nt = NtV1Ess(nth, sc, Cut(p.lm, 0, 8))
  ELSE p.nt = NtV1Plain(nth, sc)

(* The exported session key the server derives, from its flags F, its       *)
(* challenge sc and the message.                                            *)
ServerKek(p, level, F, nth, lmh, v2h, sc) ==
  IF level >= 3 THEN SbkV2(v2h, Cut(p.nt, 0, 16))
  ELSE Kek(F, SbkV1(nth), Cut(p.lm, 0, 8), lmh, sc)
ServerKey(p, level, F, nth, lmh, v2h, sc) ==
  LET kek == ServerKek(p, level, F, nth, lmh, v2h, sc)
  IN IF Exchanges(F) THEN Rc4(kek, p.key) ELSE kek
KeyDerivable(p, level, F) == /\ Len(p.lm) = 24 /\ Len(p.nt) >= 16
                             /\ Exchanges(F) => Len(p.key) = 16
\* whether the derivation uses the LM hash
UsesLmHash(level, F) == level < 3 /\ ESS \notin F /\ F \cap {LM_KEY, NON_NT} # {}
=============================================================================
