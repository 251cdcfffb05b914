------------------------------- MODULE Judge -------------------------------
(* Binding of recorded operations to the specification: for an event e in   *)
(* a state s, the successor state, and for every property the clauses the   *)
(* event violates.                                                          *)
EXTENDS System

CONSTANTS Property,      \* the property to judge
          Strict,        \* is this the strict build?
          Known          \* identifiers of the listed findings

-----------------------------------------------------------------------------
(* Recorded JSON -> values *)

JBe(h)     == Rev(Unhex(h))                        \* "%08x" -> little-endian bytes
JFlags(h)  == FlagSet(JBe(h))
JFt(f)     == JBe(f[2]) \o JBe(f[1])
JShd(j)    == JBe(j.size) \o JBe(j.z4) \o Unhex(j.cd) \o Unhex(j.mi)
JAv(j)     == CASE j.id = 0 -> EOL
                [] j.id \in TextIds -> [id |-> j.id, t |-> j.t, b |-> <<>>]
                [] j.id = 6  -> [id |-> 6, t |-> <<>>, b |-> j.f]
                [] j.id = 7  -> [id |-> 7, t |-> <<>>, b |-> JFt(j.ft)]
                [] j.id = 8  -> [id |-> 8, t |-> <<>>, b |-> JShd(j.shd)]
                [] j.id = 10 -> [id |-> 10, t |-> <<>>, b |-> Unhex(j.b)]
JAvs(l)    == TLCEval([i \in 1..Len(l) |-> JAv(l[i])])
JLm(j)     == IF j.v = 1 THEN [v |-> 1, r |-> Unhex(j.r)] ELSE [v |-> 2, r |-> Unhex(j.r), cc |-> Unhex(j.cc)]
JNt(j)     == CASE j.v = 1 -> [v |-> 1, r |-> Unhex(j.r)]
                [] j.v = 2 -> [v |-> 2, ts |-> JFt(j.ts), cc |-> Unhex(j.cc), ti |-> JAvs(j.ti)]
                [] j.v = 3 -> [v |-> 3, p |-> Unhex(j.p), ts |-> JFt(j.ts), cc |-> Unhex(j.cc), ti |-> JAvs(j.ti)]
Val(kind, j) ==
  CASE kind = "neg"  -> [flags |-> JFlags(j.flags), dom |-> j.dom, ws |-> j.ws, ver |-> j.ver]
    [] kind = "chal" -> [tn |-> j.tn, flags |-> JFlags(j.flags), sc |-> Unhex(j.sc), ti |-> JAvs(j.ti), ver |-> j.ver]
    [] kind = "auth" -> [lm |-> Opt(JLm, j.lm), nt |-> Opt(JNt, j.nt), dom |-> j.dom, user |-> j.user, ws |-> j.ws,
                         key |-> Opt(Unhex, j.key), flags |-> JFlags(j.flags), ver |-> j.ver, mic |-> Unhex(j.mic)]
    [] kind = "ver"  -> j
    [] kind = "flags" -> JFlags(j)
    [] kind = "ft"   -> JFt(j)
    [] kind = "av"   -> JAv(j)
    [] kind = "avs"  -> JAvs(j)
    [] kind = "avflags" -> j
    [] kind = "shd"  -> JShd(j)
    [] kind = "sig"  -> [pad |-> Unhex(j.pad), sum |-> JBe(j.sum), seq |-> JBe(j.seq)]
    [] kind \in {"lm", "lm1", "lm2"} -> JLm(j)
    [] kind \in {"nt", "nt1", "nt2", "nt3"} -> JNt(j)
JVals(kind, o) == Opt(LAMBDA j : Val(kind, j), o)

\* seconds and nanoseconds as recorded -> little-endian digits and number
JClock(c) == Ticks(Rev(Unhex(c[1])), c[2])

-----------------------------------------------------------------------------
(* What an AUTHENTICATE event shows *)

Out(e) == Unhex(e.out[1])
Answered(e) == e.panic = 0

(* Everything about an AUTHENTICATE `b` of client c *)
View(c, b) ==
  LET p    == ParseAuth(b)
      lvl  == c.id.level
      F    == c.chal.val.flags
      sc   == c.chal.val.sc
      nth  == NtHash(c.id.pw)
      lmh  == LmHash(c.id.pw)
      v2h  == V2Hash(c.id.user, nth, c.id.dom)
      cc   == IF p.ok THEN ClientChallenge(p, lvl, F) ELSE <<>>
      kd   == p.ok /\ KeyDerivable(p, lvl, F)
      \* is everything about this account prescribed?
      lmOk == IsAscii(c.id.pw) \/ ~UsesLmHash(lvl, F)
  IN [p |-> p, lvl |-> lvl, F |-> F, sc |-> sc, nth |-> nth, lmh |-> lmh, v2h |-> v2h, cc |-> cc, kd |-> kd,
      lmOk |-> lmOk,
      key |-> IF kd THEN ServerKey(p, lvl, F, nth, lmh, v2h, sc) ELSE <<>>,
      kek |-> IF kd THEN ServerKek(p, lvl, F, nth, lmh, v2h, sc) ELSE <<>>,
      sbk |-> IF lvl >= 3 THEN (IF kd THEN SbkV2(v2h, Cut(p.nt, 0, 16)) ELSE <<>>) ELSE SbkV1(nth)]

Clause(name, holds) == IF holds THEN {} ELSE {name}

\* does AUTHENTICATE b of c answer challenge value ch?
AnswersNt(c, v, ch) ==
  IF v.lvl >= 3 THEN VerifyNtV2(v.p, v.v2h, ch.sc)
  ELSE VerifyNtV1(v.p, v.nth, ch.sc, ch.flags)
BlobInfos(v) == From(v.p.nt, 44)
InfosOf(ch)  == EncAvs(ch.ti) \o Zeros(4)
FlagsAnswer(c, v, ch) == v.p.flags = AuthFlags(c, ch.flags, v.p.key # <<>>)

\* C01
JudgeHandshake(s, c, e) ==
  IF ~CanAuthenticate(c) THEN Clause("C01: AUTHENTICATE without an accepted challenge", ~Answered(e))
  ELSE IF ~Answered(e) THEN {"C01: no AUTHENTICATE although a challenge was accepted"}
  ELSE LET v == View(c, Out(e))
           others == {i \in 1..Len(s.given[e.c]) : s.given[e.c][i] # c.chal.val}
       IN IF ~v.p.ok THEN {"C01: unreadable AUTHENTICATE"}
          ELSE Clause("C01: the responses do not answer the accepted challenge", AnswersNt(c, v, c.chal.val))
               \cup Clause("C01: the blob does not carry the accepted challenge's target information",
                           v.lvl >= 3 => BlobInfos(v) = InfosOf(c.chal.val))
               \cup Clause("C01: the flags answer another challenge",
                           FlagsAnswer(c, v, c.chal.val) \/
                           \A i \in others : ~FlagsAnswer(c, v, s.given[e.c][i]))

\* C02
\* 5 s, as the clock may be stepped between two readings; one tick (rounding) when it stands still
Slack(s) == IF s.clock = <<>> THEN LE32(50000000) ELSE LE32(1)
TimeOk(s, c, v, e) ==
  LET ts == Cut(v.p.nt, 24, 8)
      st == ServerTime(c.chal.val.ti)
      slack == Slack(s)
  IN IF st # <<>> THEN ts = st[1]
     ELSE NumLeq(JClock(e.t0), Add(ts, slack)) /\ NumLeq(ts, Add(JClock(e.t1), slack))
JudgeV2(s, c, e) ==
  IF c.id.level < 3 \/ ~CanAuthenticate(c) THEN {}
  ELSE IF ~Answered(e) THEN {"C02: no AUTHENTICATE"}
  ELSE LET v == View(c, Out(e)) IN
       IF ~v.p.ok THEN {"C02: unreadable AUTHENTICATE"}
       ELSE Clause("C02: the NT response is refused", VerifyNtV2(v.p, v.v2h, v.sc))
            \cup Clause("C02: the LM response is refused", VerifyLmV2(v.p, v.v2h, v.sc))
            \cup (IF ~IsV2Nt(v.p.nt) \/ Len(v.p.lm) # 24 THEN {"C02: the NT response is no NTLMv2 response"}
                  ELSE Clause("C02: the LM response is over another client challenge", Cut(v.p.nt, 32, 8) = Cut(v.p.lm, 16, 8))
                       \cup Clause("C02: the reserved field of the blob is not zero", AllZero(Cut(v.p.nt, 40, 4)))
                       \cup Clause("C02: the target information in the blob is not the server's", BlobInfos(v) = InfosOf(c.chal.val))
                       \cup Clause("C02: wrong time stamp in the blob", TimeOk(s, c, v, e)))

\* C03
JudgeV1(s, c, e) ==
  IF c.id.level >= 3 \/ ~CanAuthenticate(c) THEN {}
  ELSE IF ~Answered(e) THEN {"C03: no AUTHENTICATE"}
  ELSE LET v == View(c, Out(e)) IN
       IF ~v.p.ok THEN {"C03: unreadable AUTHENTICATE"}
       ELSE IF ESS \in v.F
       THEN Clause("C03: NT response", VerifyNtV1(v.p, v.nth, v.sc, v.F))
            \cup Clause("C03: LM response", v.cc # <<>> /\ v.p.lm = LmV1Ess(v.cc[1]))
       ELSE Clause("C03: NT response", VerifyNtV1(v.p, v.nth, v.sc, v.F))
            \cup Clause("C03: LM response",
                        IF v.lvl # 0 THEN v.p.lm = NtV1Plain(v.nth, v.sc)
                        ELSE IF IsAscii(c.id.pw) THEN v.p.lm = LmV1Plain(v.lmh, v.sc)
                        ELSE Len(v.p.lm) = 24)

\* C04
JudgeKey(s, c, e) ==
  IF ~CanAuthenticate(c) \/ ~s.first[e.c] THEN {}
  ELSE IF ~Answered(e) THEN {"C04: no AUTHENTICATE"}
  ELSE LET v == View(c, Out(e)) IN
       IF ~v.p.ok THEN {"C04: unreadable AUTHENTICATE"}
       ELSE Clause("C04: a session key is sent exactly when it is to be exchanged", (v.p.key # <<>>) <=> Exchanges(v.F))
            \cup Clause("C04: the key exchange flag says whether a session key is sent",
                        (KEY_EXCH \in v.p.flags) <=> Exchanges(v.F))
            \cup Clause("C04: client and server have different session keys",
                        v.kd /\ e.esk # <<>> /\ (v.lmOk => v.key = Unhex(e.esk[1])))

\* C05
MicKey(s, c, e, v) == IF s.first[e.c] /\ e.esk # <<>> THEN <<Unhex(e.esk[1])>>
                      ELSE IF v.kd THEN <<v.key>> ELSE <<>>
MicOver(s, c, e, v, chal) ==
  LET k == MicKey(s, c, e, v)
  IN k # <<>> /\ v.p.mic = Mic(k[1], c.neg, chal, v.p.zeroed)
\* A listed finding: the client does not keep the bytes of the challenge but encodes its value again
Reencoded(c) == EncChal(c.chal.val)
JudgeMic(s, c, e) ==
  IF ~CanAuthenticate(c) THEN {}
  ELSE IF ~Answered(e) THEN {"C05: no AUTHENTICATE"}
  ELSE LET v == View(c, Out(e)) IN
       IF ~v.p.ok THEN {"C05: unreadable AUTHENTICATE"}
       ELSE IF v.lvl < 3 THEN Clause("C05: the MIC of an NTLMv1 message is not zero", AllZero(v.p.mic))
       ELSE Clause("C05: the MIC does not cover the three messages",
                   \/ MicOver(s, c, e, v, c.chal.raw)
                   \/ "C05-noncanonical-challenge" \in Known /\ c.chal.raw # Reencoded(c)
                      /\ MicOver(s, c, e, v, Reencoded(c)))
KnownMic(s, c, e) ==
  CanAuthenticate(c) /\ Answered(e) /\ c.id.level >= 3 /\ c.chal.raw # Reencoded(c)
  /\ LET v == View(c, Out(e)) IN v.p.ok /\ ~MicOver(s, c, e, v, c.chal.raw) /\ MicOver(s, c, e, v, Reencoded(c))

\* C06: fresh nonces. The session key of a message is what the server gets out of it.
SessionKeyOf(v) == IF Exchanges(v.F) /\ v.kd THEN <<v.key>> ELSE <<>>
\* what a session key that is computed instead of drawn would be made of
Guesses(v) ==
  LET known == {v.sc} \cup ToSet(v.cc)
      both  == {v.sc} \cup (IF v.cc = <<>> THEN {} ELSE {v.cc[1], v.sc \o v.cc[1], v.cc[1] \o v.sc})
      keys  == {v.kek, v.sbk, v.nth, v.v2h} \cup (IF v.lmOk THEN {v.lmh} ELSE {})
  IN keys \cup {v.p.mic, Cut(v.p.nt, 0, 16), v.p.key} \cup {a \o b : a \in known, b \in known}
     \cup {MD5(x) : x \in both \cup keys} \cup {MD4(x) : x \in both \cup keys} \cup {HmacMD5(x, y) : x \in keys, y \in both}
JudgeFresh(s, c, e) ==
  IF ~CanAuthenticate(c) \/ ~Answered(e) THEN {}
  ELSE LET v == View(c, Out(e))
           k == IF v.p.ok THEN SessionKeyOf(v) ELSE <<>>
           InSeq(x, q) == \E i \in 1..Len(q) : q[i] = x
       IN IF ~v.p.ok THEN {"C06: unreadable AUTHENTICATE"}
          ELSE (IF v.cc = <<>> THEN {} ELSE
                  Clause("C06: client challenge used before", ~InSeq(v.cc[1], s.ccs))
                  \cup Clause("C06: client challenge is the server's", v.cc[1] # v.sc)
                  \cup Clause("C06: client challenge is constant", \E i \in 1..8 : v.cc[1][i] # v.cc[1][1]))
               \cup (IF k = <<>> THEN {} ELSE
                  Clause("C06: session key used before", ~InSeq(k[1], s.keys))
                  \cup Clause("C06: session key is not random", \E i \in 1..16 : k[1][i] # k[1][1])
                  \cup Clause("C06: session key is computed from what others know", k[1] \notin Guesses(v))
                  \cup Clause("C06: session key contains the server challenge", ~Occurs(v.sc, k[1]))
                  \cup (IF v.cc = <<>> THEN {} ELSE
                        Clause("C06: session key contains the client challenge", ~Occurs(v.cc[1], k[1]))))
\* over everything used in a scenario
Bit(x, n) == (x[((n - 1) \div 8) + 1] \div (2^((n - 1) % 8))) % 2
Varies(q, nbits) == \A n \in 1..nbits : /\ \E i \in 1..Len(q) : Bit(q[i], n) = 0
                                        /\ \E i \in 1..Len(q) : Bit(q[i], n) = 1
Distinct(q) == Cardinality({q[i] : i \in 1..Len(q)}) = Len(q)
\* no two blocks of 8 bytes differ in one byte only (as counters would)
Apart(q) == \A j \in 1..8 : Distinct([i \in 1..Len(q) |-> Cut(q[i], 0, j - 1) \o From(q[i], j)])
Blocks(b) == [i \in 1..(Len(b) \div 8) |-> Cut(b, 8 * (i - 1), 8)]
BlocksOf(q) == FlattenSeq([i \in 1..Len(q) |-> Blocks(q[i])])
Enough == 100
\* nothing but chance relates the bits (a relation over GF(2) of independent bits survives 64 more samples with probability 2^-64)
Free(q) == LET bits == 8 * Len(q[1]) IN Len(q) >= bits + 64 => Rank(q) = bits
Follow(q) == [i \in 1..(Len(q) - 1) |-> q[i] \o q[i + 1]]
Diffs(q, f(_)) == TLCEval([i \in 1..Len(q) |-> f(q[i])])
JudgeRandomness(s) ==
  LET halfA == Diffs(s.pairs, LAMBDA x : XorBytes(x[1], Cut(x[2], 0, 8)))
      halfB == Diffs(s.pairs, LAMBDA x : XorBytes(x[1], Cut(x[2], 8, 8)))
      srv   == Diffs(s.pairs, LAMBDA x : XorBytes(x[1], x[3]))
      halves == Diffs(s.pairs, LAMBDA x : XorBytes(Cut(x[2], 0, 8), Cut(x[2], 8, 8)))
  IN Clause("C06: client challenges and session keys are nearly the same", Apart(TLCEval(s.ccs \o BlocksOf(s.keys))))
     \cup Clause("C06: client challenges follow from one another", Len(s.ccs) >= Enough => Free(TLCEval(Follow(s.ccs))))
     \cup Clause("C06: session keys follow from one another", Len(s.keys) >= Enough => Free(TLCEval(Follow(s.keys))))
     \cup Clause("C06: some bit of the client challenge never varies", Len(s.ccs) >= Enough => Varies(s.ccs, 64))
     \cup Clause("C06: some bit of the session key never varies", Len(s.keys) >= Enough => Varies(s.keys, 128))
     \cup (IF Len(s.pairs) < Enough THEN {} ELSE
           Clause("C06: client challenge, server challenge and session key are related",
                  LET n == Rank(Diffs(s.pairs, LAMBDA x : x[3]))
                  IN Len(s.pairs) >= n + 256 => Rank(Diffs(s.pairs, LAMBDA x : x[1] \o x[2] \o x[3])) = n + 192)
           \cup Clause("C06: session key and client challenge are related", Varies(halfA, 64) /\ Varies(halfB, 64))
           \cup Clause("C06: client and server challenge are related", Varies(srv, 64))
           \cup Clause("C06: the halves of the session key are related", Varies(halves, 64)))

\* C07: blocks of DES under a hash that the level forbids
Hashes(v) == IF v.lvl >= 3 THEN {v.nth, v.lmh} ELSE {v.lmh}
Seeds(v)  == {v.sc} \cup (IF v.cc = <<>> THEN {} ELSE {Cut(MD5(v.sc \o v.cc[1]), 0, 8), v.cc[1]})
JudgeDowngrade(s, c, e) ==
  IF ~CanAuthenticate(c) \/ ~Answered(e) THEN {}
  ELSE LET v == View(c, Out(e))
           forbidden == v.lvl >= 1 \/ ESS \in v.F
           hs == IF IsAscii(c.id.pw) THEN Hashes(v) ELSE Hashes(v) \ {v.lmh}
           has(h, d) == Occurs(Cut(Desl(h, d), 0, 8), v.p.nt) \/ Occurs(Cut(Desl(h, d), 0, 8), v.p.lm)
       IN IF ~v.p.ok THEN {"C07: unreadable AUTHENTICATE"}
          ELSE Clause("C07: a response below the level", ~forbidden \/ \A h \in hs, d \in Seeds(v) : ~has(h, d))
               \cup Clause("C07: not an NTLMv2 response", v.lvl >= 3 => IsV2Nt(v.p.nt) /\ VerifyNtV2(v.p, v.v2h, v.sc))

\* C11, for what a client returns
AuthBase(c) == AuthHeader + (IF c.ver = <<>> THEN 0 ELSE 8) + 16
JudgeAuthLayout(s, c, e) ==
  IF ~Answered(e) \/ ~CanAuthenticate(c) THEN {}
  ELSE LET b == Out(e)
           p == ParseAuth(b)
           absent(i) == p.desc[i].len = 0 /\ p.desc[i].max = 0 /\ p.desc[i].off = 0
       IN IF ~p.ok THEN {"C11: unreadable AUTHENTICATE"}
          ELSE Clause("C11: payload fields are not back to back", LaidOut(b, p.desc, AuthBase(c)))
               \cup Clause("C11: the workstation field", c.id.ws = <<>> => absent(5))
               \cup Clause("C11: the session key field", p.key = <<>> => absent(6))
               \cup Clause("C11: the version", c.ver # <<>> => Len(b) >= 72 /\ Cut(b, 64, 8) = EncVer(c.ver[1]))
               \cup Clause("C11: text is not UTF-16", \A i \in 3..5 : p.desc[i].len % 2 = 0)
JudgeNegLayout(s, c, e) ==
  IF ~Answered(e) THEN {}
  ELSE LET b == Out(e)
           f == TLCEval([i \in 1..2 |-> Desc(b, 8 + 8 * i)])
           base == NegHeader + (IF c.ver = <<>> THEN 0 ELSE 8)
           absent(i) == f[i].len = 0 /\ f[i].max = 0 /\ f[i].off = 0
       IN IF ~IsMessage(b, NegHeader, 1) THEN {"C11: no NEGOTIATE"}
          ELSE Clause("C11: payload fields are not back to back", LaidOut(b, f, base))
               \cup Clause("C11: absent fields", absent(2) /\ (c.id.dom = <<>> => absent(1)))
               \cup Clause("C11: the version", c.ver # <<>> => Len(b) >= 40 /\ Cut(b, 32, 8) = EncVer(c.ver[1]))

\* C12
SameText(o, t) == (IF o = <<>> THEN <<>> ELSE o[1]) = t
JudgeAuthFlags(s, c, e) ==
  IF ~CanAuthenticate(c) \/ ~Answered(e) THEN {}
  ELSE LET v == View(c, Out(e)) IN
       IF ~v.p.ok THEN {"C12: unreadable AUTHENTICATE"}
       ELSE Clause("C12: flags", v.p.flags = AuthFlags(c, v.F, v.p.key # <<>>))
            \cup (IF ~NoNul(c.id.user) \/ ~NoNul(c.id.dom) \/ (c.id.ws # <<>> /\ ~NoNul(c.id.ws[1])) THEN {}
                  ELSE IF e.res # "ok" THEN {"C12: the library does not decode the message"}
                  ELSE LET m == Val("auth", e.got[1])
                       IN Clause("C12: decoded user", SameText(m.user, c.id.user))
                          \cup Clause("C12: decoded domain", SameText(m.dom, c.id.dom))
                          \cup Clause("C12: decoded workstation", SameText(m.ws, IF c.id.ws = <<>> THEN <<>> ELSE c.id.ws[1]))
                          \cup Clause("C12: decoded LM response", m.lm # <<>> /\ EncLm(m.lm[1]) = v.p.lm)
                          \cup Clause("C12: decoded NT response", m.nt # <<>> /\ EncNt(m.nt[1]) = v.p.nt)
                          \cup Clause("C12: decoded session key", m.key = IF v.p.key = <<>> THEN <<>> ELSE <<v.p.key>>)
                          \cup Clause("C12: decoded flags and version", m.flags = v.p.flags /\ m.ver = c.ver))

\* C16
JudgeIdentity(s, c, e) ==
  IF ~Answered(e) THEN {}
  ELSE IF e.op = "neg"
  THEN LET b == Out(e) IN
       IF ~IsMessage(b, NegHeader, 1) THEN {"C16: no NEGOTIATE"}
       ELSE Clause("C16: domain in NEGOTIATE", Desc(b, 16).ok /\ Desc(b, 16).d = Utf8(c.id.dom))
            \cup Clause("C16: a workstation is given in NEGOTIATE",
                        Desc(b, 24).ok /\ Desc(b, 24).d \in {<<>>, IF c.id.ws = <<>> THEN <<>> ELSE Utf8(c.id.ws[1])})
  ELSE IF ~CanAuthenticate(c) THEN {}
  ELSE LET p == ParseAuth(Out(e)) IN
       IF ~p.ok THEN {"C16: unreadable AUTHENTICATE"}
       ELSE Clause("C16: user", p.user = Utf16(c.id.user))
            \cup Clause("C16: domain", p.dom = Utf16(c.id.dom))
            \cup Clause("C16: workstation", p.ws = (IF c.id.ws = <<>> THEN <<>> ELSE Utf16(c.id.ws[1])))

\* C21
JudgeOffer(s, c, e) ==
  IF c.id.level > 5 THEN Clause("C21: a NEGOTIATE of no level", ~Answered(e))
  ELSE IF ~Answered(e) THEN {"C21: no NEGOTIATE"}
  ELSE LET b == Out(e) IN
       IF ~IsMessage(b, NegHeader, 1) THEN {"C21: no NEGOTIATE"}
       ELSE Clause("C21: offered flags", FlagSet(Cut(b, 12, 4)) = Offer(c))
            \cup Clause("C21: not the same message as in the last handshake", s.offer[e.c] \in {<<>>, <<b>>})

\* C19
Public(c, x) == LET pub(t) == Occurs(x, Utf8(t)) \/ Occurs(x, Utf16(t))
                IN pub(c.id.user) \/ pub(c.id.dom) \/ (c.id.ws # <<>> /\ pub(c.id.ws[1]))
PwSecrets(c) == IF Len(c.id.pw) < 5 THEN {}
                ELSE {x \in {Utf8(c.id.pw), Utf16(c.id.pw), Utf8(UpperCase(c.id.pw)), Utf16(UpperCase(c.id.pw))} : ~Public(c, x)}
AccountSecrets(c) == LET nth == NtHash(c.id.pw) IN
  PwSecrets(c) \cup {nth, V2Hash(c.id.user, nth, c.id.dom), SbkV1(nth)} \cup (IF IsAscii(c.id.pw) THEN {LmHash(c.id.pw)} ELSE {})
MessageSecrets(c, e) ==
  IF ~CanAuthenticate(c) \/ ~Answered(e) THEN {}
  ELSE LET v == View(c, Out(e))
       IN (IF v.kd THEN {v.kek, v.key, v.sbk} ELSE {}) \cup {Unhex(e.esk[i]) : i \in 1..Len(e.esk)}
JudgeSecrets(s1, e) ==       \* s1: the state after the event
  LET io == Unhex(e.io) IN
  Clause("C19: secret on stdout, stderr or in the log", io = <<>> \/ \A x \in s1.secrets : ~Leaks(x, io))
  \cup Clause("C19: secret in a message",
              e.op \in {"neg", "auth"} /\ Answered(e) => \A x \in s1.secrets : ~Occurs(x, Out(e)))

\* C23: what the specification sends with the nonces and the time this message shows
LmUnsaid(c, F) == ~IsAscii(c.id.pw) /\ c.id.level < 3 /\ ESS \notin F /\ (c.id.level = 0 \/ F \cap {LM_KEY, NON_NT} # {})
Prescribed(c, v) ==
  AuthenticateBytes(c, IF v.cc = <<>> THEN Zeros(8) ELSE v.cc[1], IF Exchanges(v.F) /\ v.kd THEN v.key ELSE Zeros(16),
                    IF v.lvl >= 3 /\ Len(v.p.nt) >= 32 THEN Cut(v.p.nt, 24, 8) ELSE Zeros(8))
JudgeDetermined(s, c, e) ==
  IF e.op = "neg" THEN Clause("C23: another NEGOTIATE than prescribed", Answered(e) /\ Out(e) = EncNeg(NegotiateMsg(c)))
  ELSE IF ~CanAuthenticate(c) \/ ~Answered(e) THEN {}
  ELSE LET v == View(c, Out(e)) IN
       IF ~v.p.ok THEN {"C23: unreadable AUTHENTICATE"}
       ELSE IF LmUnsaid(c, v.F) THEN {}
       ELSE Clause("C23: another AUTHENTICATE than prescribed", v.p.zeroed = ParseAuth(Prescribed(c, v)).zeroed)

-----------------------------------------------------------------------------
(* Codecs *)

Expected(e)  == DecK(e.kind, Unhex(e.raw), Strict)
DecodedAs(e, r) == /\ e.res = "ok" <=> r.s = "ok"
                   /\ r.s = "ok" => Val(e.kind, e.got[1]) = r.v /\ e.used = r.n
JudgeDecode(e)    == Clause("C10: " \o e.kind \o " decoded differently", DecodedAs(e, Expected(e)))
JudgeNoPanic(e)   == Clause("C09: decoding panics", e.res # "panic")
JudgeStrict(e) ==
  LET lax == DecK(e.kind, Unhex(e.raw), FALSE) IN
  Clause("C14: " \o e.kind \o IF Strict THEN " decoded differently by the strict build" ELSE " decoded differently",
         DecodedAs(e, Expected(e)))

JudgeRoundTrip(e) ==
  LET v == Val(e.kind, e.val) IN
  IF ~Wf(e.kind, v) THEN {}
  ELSE IF e.panic = 1 THEN {"C08: encoding panics"}
  ELSE Clause("C08: the decoded value differs", e.res = "ok" /\ Val(e.kind, e.got[1]) = v)
       \cup Clause("C08: not all is consumed", e.res = "ok" => e.used = Len(Out(e)))
       \cup Clause("C08: encoding again gives other bytes", e.res = "ok" => e.again = e.out)
JudgeEncode(e, kind, v) ==
  Clause("C11: layout of " \o kind, e.panic = 0 => Out(e) = Enc(kind, v))

\* the listed finding about target information near 64 KiB: no NTLMv2 response holds it
TooMuchInfo(c) == IsV2(c.id.level) /\ Len(EncAvs(c.chal.val.ti)) + 48 > 65535
JudgeUsable(c, e) ==
  IF ~CanAuthenticate(c) THEN {}
  ELSE Clause("C09: a decoded challenge cannot be answered",
              Answered(e) \/ ("C09-huge-target-info" \in Known /\ TooMuchInfo(c)))
KnownUsable(c, e) == CanAuthenticate(c) /\ ~Answered(e) /\ TooMuchInfo(c)

-----------------------------------------------------------------------------
(* Objects *)

JSetVal(kind, f, v) == CASE f = "flags" -> JFlags(v[1])
                         [] f = "sc"    -> Unhex(v[1])
                         [] f = "key"   -> Opt(Unhex, v)
                         [] OTHER       -> v
JudgeSet(s, e) ==
  LET o == s.objs[e.o] IN
  IF o = <<>> THEN {}
  ELSE IF e.panic = 1 THEN {"C17: setter panics"}
  ELSE Clause("C17: " \o o[1].kind \o "." \o e.f \o " set differently",
              Val(o[1].kind, e.got[1]) = Set(o[1].kind, o[1].val, e.f, JSetVal(o[1].kind, e.f, e.v)))

InfosKept(pre, post, items) ==
  /\ post.ti = (IF items = <<>> THEN pre.ti
                ELSE IF pre.ti = <<>> THEN Append(items, EOL)
                ELSE Front(pre.ti) \o items \o <<pre.ti[Len(pre.ti)]>>)
  /\ items # <<>> /\ (pre.ti = <<>> \/ TARGET_INFO \in pre.flags) => TARGET_INFO \in post.flags
  /\ [post EXCEPT !.ti = <<>>, !.flags = post.flags \cup {TARGET_INFO}]
     = [pre EXCEPT !.ti = <<>>, !.flags = pre.flags \cup {TARGET_INFO}]
EnvItems(env) ==
  LET item(id, t) == IF t = <<>> THEN <<>> ELSE <<Name(id, t[1])>>
  IN item(1, Opt(UpperCase, EnvText(env, "COMPUTERNAME"))) \o item(3, EnvText(env, "COMPUTERDNSNAME"))
     \o item(2, Opt(UpperCase, EnvText(env, "USERDOMAIN"))) \o item(4, EnvText(env, "USERDNSDOMAIN"))
JudgeBuilder(s, e) ==
  IF e.op = "mk" THEN Clause("C13: a new challenge has target information",
                             e.kind = "chal" => Val("chal", e.got[1]).ti = <<>>)
  ELSE IF s.objs[e.o] = <<>> THEN {}
  ELSE IF e.panic = 1 THEN {"C13: builder panics"}
  ELSE Clause("C13: target information after " \o e.op,
              InfosKept(s.objs[e.o][1].val, Val("chal", e.got[1]),
                        IF e.op = "add" THEN <<JAv(e.item)>> ELSE EnvItems(s.env)))

JudgeFlagOp(s, e) ==
  CASE e.op = "fset" -> Clause("C18: set_flag", e.panic = 0 /\ JFlags(e.now) = s.fl[e.o] \cup {e.bit})
    [] e.op = "fclr" -> Clause("C18: clear_flag", e.panic = 0 /\ JFlags(e.now) = s.fl[e.o] \ {e.bit})
    [] e.op = "fhas" -> Clause("C18: has_flag", e.panic = 0 /\ (e.has = 1 <=> e.bit \in s.fl[e.o]) /\ JFlags(e.now) = s.fl[e.o])
    [] e.op = "fshow" -> Clause("C18: has_flag", {e.has[i] : i \in 1..Len(e.has)} = s.fl[e.o])
                         \cup Clause("C18: encoded flags", e.panic = 0 /\ Out(e) = FlagBytes(s.fl[e.o]))
                         \cup Clause("C18: decoded flags", e.res = "ok" /\ Val("flags", e.got[1]) = s.fl[e.o])
                         \cup Clause("C18: rendering", Unhex(e.dbg) = FlagDebug(s.fl[e.o]) /\ e.alt = e.dbg)
    [] e.op = "fconst" -> Clause("C18: flag positions",
                                 \A i \in 1..Len(e.consts) : FlagName(e.consts[i][2]) = e.consts[i][1])
    [] OTHER -> {}

\* C24: the MIC of any message, computed for any other two
IsObj(s, i, kind) == s.objs[i] # <<>> /\ s.objs[i][1].kind = kind
MicOf(key, n, h, a) == Mic(key, EncNeg(n), EncChal(h), EncAuth([a EXCEPT !.mic = Zeros(16)]))
JudgeMicOp(s, e) ==
  IF ~IsObj(s, e.o, "auth") \/ ~IsObj(s, e.n, "neg") \/ ~IsObj(s, e.h, "chal") THEN {}
  ELSE LET a == s.objs[e.o][1].val
           n == s.objs[e.n][1].val
           h == s.objs[e.h][1].val
       IN IF e.panic = 1 THEN Clause("C24: computing a MIC panics", ~(Wf("auth", a) /\ Wf("neg", n) /\ Wf("chal", h)))
          ELSE LET g == Val("auth", e.got[1]) IN
               Clause("C24: another field changed", [g EXCEPT !.mic = a.mic] = a /\ e.after = e.key)
               \cup Clause("C24: a MIC without a key", e.key = <<>> => g.mic = a.mic)
               \cup Clause("C24: the MIC", e.key # <<>> => g.mic = MicOf(Unhex(e.key[1]), n, h, a))

\* C25: values drawn at random
JudgeDraws(s) ==
  LET ks == {s.drawn[i][1] : i \in 1..Len(s.drawn)}
      of(k) == LET q == SelectSeq(s.drawn, LAMBDA d : d[1] = k) IN TLCEval([i \in 1..Len(q) |-> q[i][2]])
      bl == TLCEval(BlocksOf([i \in 1..Len(s.drawn) |-> s.drawn[i][2]]))
  IN Clause("C25: some 8 bytes were drawn before", Apart(bl))
     \cup Clause("C25: bits are related", \A k \in ks : LET q == of(k) IN Len(q) >= Enough => Free(q) /\ Free(TLCEval(Follow(q))))
     \cup Clause("C25: some bit never varies", \A k \in ks : LET q == of(k) IN Len(q) >= Enough => Varies(q, 8 * Len(q[1])))
     \cup Clause("C25: some values are one value", \A k \in ks : LET q == of(k) IN Len(q) >= Enough => Cardinality({q[i] : i \in 1..Len(q)}) > Len(q) - 3)
SizeOf(k) == CASE k \in {"ServerChallenge", "ClientChallenge"} -> 8 [] k = "RandomPad" -> 4 [] k = "Response24" -> 24 [] OTHER -> 16
JudgeDraw(e) == Clause("C25: drawing panics", e.panic = 0)
                \cup Clause("C25: wrong size", \A i \in 1..Len(e.outs) : Len(Unhex(e.outs[i])) = SizeOf(e.kind))

\* Very many values counted: every byte occurs everywhere about as often as any other, no bit prefers one
\* value, no place follows another one or the value before, and values do not come back. With the bounds
\* below, chance breaks any of it with a probability of less than 2^-30.
Tallied == 16384
Fair(x) == x > Tallied \div 4096 /\ x < 3 * (Tallied \div 256)
Ones(q, j) == FoldLeft(LAMBDA a, v : a + (IF (v \div (2^j)) % 2 = 1 THEN q[v + 1] ELSE 0), 0, [v \in 1..255 |-> v])
EvenTally(t, size) ==
  /\ t.n = Tallied /\ t.size = size
  /\ \A i \in 1..size : /\ \A v \in 1..256 : Fair(t.counts[i][v])
                        /\ \A j \in 0..7 : Ones(t.counts[i], j) \in ((Tallied \div 2) - 640)..((Tallied \div 2) + 640)
  /\ \A i, j \in 1..size : (i # j => Fair(t.same[i][j])) /\ Fair(t.next[i][j])
  /\ t.dups <= (IF size >= 8 THEN 0 ELSE 8)
JudgeTally(e) == IF e.panic = 1 THEN {"C25: drawing panics"} ELSE Clause("C25: some values are preferred", EvenTally(e.tally[1], SizeOf(e.kind)))
\* C06: the same of the nonces in the messages of very many handshakes
JudgeHarvest(e) ==
  IF e.panic = 1 THEN {}
  ELSE LET r == DecChal(Unhex(e.raw), FALSE) IN
       IF r.s # "ok" THEN {}
       ELSE Clause("C06: some client challenges are preferred", IF IsV2(e.level) THEN EvenTally(e.found[1].nt, 8)
                                                                ELSE ESS \in r.v.flags => EvenTally(e.found[1].lm, 8))
            \cup Clause("C06: some session keys are preferred", Exchanges(r.v.flags) => EvenTally(e.found[1].key, 16))

\* C26: conversions
Converted(e) ==
  LET a == e.a IN
  CASE e.f = "ver3"  -> <<a[1], a[2], a[3], 15>>
    [] e.f = "ver8"  -> LET r == DecVer(Unhex(a), 0) IN IF r.s = "ok" THEN <<r.v>> ELSE <<>>
    [] e.f = "lm1"   -> ToHex(LmV1Ess(Unhex(a)))
    [] e.f = "lm2"   -> ToHex(LmV2(Unhex(a[2]), Unhex(a[1]), Unhex(a[3])))
    [] e.f \in {"lmfrom", "ntfrom"} -> a
    [] e.f \in {"key", "kek", "list"} -> a
    [] e.f = "bytes" -> <<a[2], a[2], a[2], a[2]>>
    [] e.f = "text"  -> <<a, a, a, a>>
    [] e.f = "avid"  -> a.id
JudgeConversion(e) == Clause("C26: " \o e.f \o " converted differently", e.panic = 0 /\ e.got = Converted(e))

\* C15
JudgeTime(s, e) ==
  CASE e.op = "ft_from" ->
         LET t == Ticks(Rev(Unhex(e.secs)), e.nanos) IN
         IF e.res = "untimely" THEN {}
         ELSE IF e.res = "panic" THEN {"C15: conversion from system time panics"}
         ELSE IF e.neg = 1 THEN Clause("C15: a time before 1970 is not refused",
                                       e.res = "err" \/ (NumEq(Unhex(e.secs), <<0>>) /\ e.nanos = 0))
         ELSE Clause("C15: system time to FILETIME",
                     IF Fits(t, 8) THEN e.res = "ok" /\ JFt(e.got[1]) = Low(t, 8) ELSE e.res = "err")
    [] e.op = "ft_to" ->
         LET f == JFt(e.ft)
             i == Instant(f)
             bad == \/ e.res # "ok" \/ ~NumEq(Rev(Unhex(e.secs)), i.secs) \/ e.nanos # i.nanos
                    \/ (e.neg = 1) # (i.neg /\ ~(NumEq(i.secs, <<0>>) /\ i.nanos = 0))
         IN Clause("C15: conversion to system time panics", e.res # "panic")
            \cup Clause("C15: 64-bit value", e.res # "panic" => Rev(Unhex(e.u64)) = f)
            \cup Clause("C15: FILETIME to system time", e.res = "panic" \/ ~bad)
            \cup Clause("C15: FILETIME to system time and back",
                        e.res = "ok" /\ ~i.neg => e.back # <<>> /\ JFt(e.back[1]) = f)
    [] e.op = "ft_now" ->
         LET slack == Slack(s) IN
         Clause("C15: now", e.got # <<>> /\ NumLeq(JClock(e.t0), Add(JFt(e.got[1]), slack))
                            /\ NumLeq(JFt(e.got[1]), Add(JClock(e.t1), slack)))
    [] e.op = "dec" /\ e.kind = "ft" ->
         Clause("C15: decoding a FILETIME", e.res = (IF Len(Unhex(e.raw)) >= 8 THEN "ok" ELSE "err"))
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* The clauses of the judged property that event e violates in state s      *)

OnClient(s, e, op, judge(_, _, _)) == IF e.op = op /\ s.cl[e.c] # <<>> THEN judge(s, s.cl[e.c][1], e) ELSE {}

\* the process died or never came back; the guarantees about what is returned do not speak of that
Total1 == {"C27", "C01", "C08", "C09", "C10", "C11", "C13", "C14", "C15", "C17", "C18", "C20", "C24", "C25", "C26"}
Clauses(P, s, e, s1) ==
  CASE P = "C01" -> OnClient(s, e, "auth", JudgeHandshake)
    [] P = "C02" -> OnClient(s, e, "auth", JudgeV2)
    [] P = "C03" -> OnClient(s, e, "auth", JudgeV1)
    [] P = "C04" -> OnClient(s, e, "auth", JudgeKey)
    [] P = "C05" -> OnClient(s, e, "auth", JudgeMic)
    [] P = "C06" -> IF e.op = "harvest" THEN JudgeHarvest(e) ELSE OnClient(s, e, "auth", JudgeFresh)
    [] P = "C07" -> OnClient(s, e, "auth", JudgeDowngrade)
    [] P = "C08" -> IF e.op = "rt" THEN JudgeRoundTrip(e) ELSE {}
    [] P = "C09" -> (IF e.op = "dec" \/ (e.op = "chal" /\ "used" \in DOMAIN e) THEN JudgeNoPanic(e) ELSE {})
                           \cup (IF e.op = "auth" /\ s.cl[e.c] # <<>> THEN JudgeUsable(s.cl[e.c][1], e) ELSE {})
                           \cup (IF e.op = "auth" THEN Clause("C09: decoding panics", e.res # "panic") ELSE {})
    [] P = "C10" -> IF e.op = "dec" THEN JudgeDecode(e) ELSE {}
    [] P = "C11" -> (IF e.op = "enc" /\ s.objs[e.o] # <<>> THEN JudgeEncode(e, s.objs[e.o][1].kind, Val(s.objs[e.o][1].kind, e.got[1])) ELSE {})
                           \cup (IF e.op = "rt" /\ e.was # <<>> THEN JudgeEncode(e, e.kind, Val(e.kind, e.was[1])) ELSE {})
                           \cup OnClient(s, e, "auth", JudgeAuthLayout) \cup OnClient(s, e, "neg", JudgeNegLayout)
    [] P = "C12" -> OnClient(s, e, "auth", JudgeAuthFlags)
    [] P = "C13" -> IF e.op \in {"add", "fill", "mk"} THEN JudgeBuilder(s, e) ELSE {}
    [] P = "C14" -> IF e.op = "dec" THEN JudgeStrict(e) ELSE {}
    [] P = "C15" -> JudgeTime(s, e)
    [] P = "C16" -> OnClient(s, e, "neg", JudgeIdentity) \cup OnClient(s, e, "auth", JudgeIdentity)
    [] P = "C17" -> IF e.op = "set" THEN JudgeSet(s, e) ELSE {}
    [] P = "C18" -> JudgeFlagOp(s, e)
    [] P = "C19" -> JudgeSecrets(s1, e)
    [] P = "C20" -> IF e.op \in {"new", "neg"} THEN Clause("C20: " \o e.op \o " panics", e.panic = 0)
                           ELSE IF e.op = "auth" /\ s.cl[e.c] # <<>> /\ CanAuthenticate(s.cl[e.c][1])
                                THEN Clause("C20: auth panics", e.panic = 0) ELSE {}
    [] P = "C21" -> OnClient(s, e, "neg", JudgeOffer)
    [] P = "C23" -> OnClient(s, e, "neg", JudgeDetermined) \cup OnClient(s, e, "auth", JudgeDetermined)
    [] P = "C24" -> IF e.op = "mic" THEN JudgeMicOp(s, e) ELSE {}
    [] P = "C25" -> IF e.op = "rand" THEN JudgeDraw(e) ELSE IF e.op = "tally" THEN JudgeTally(e) ELSE {}
    [] P = "C26" -> IF e.op = "conv" THEN JudgeConversion(e) ELSE {}
    [] OTHER -> {}

\* C27: everything at once, for clients and messages on threads of their own
Concurrently == {"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C15", "C16", "C17", "C18", "C20", "C21", "C23", "C24", "C26"}
Judgement(s, e, s1) ==
  IF e.op = "crash" THEN Clause(Property \o ": the process died or hung", Property \notin Total1)
  ELSE IF Property = "C27" THEN UNION {Clauses(P, s, e, s1) : P \in Concurrently}
  ELSE Clauses(Property, s, e, s1)

KnownIn(s, e) ==
  CASE Property = "C05" /\ "C05-noncanonical-challenge" \in Known /\ e.op = "auth" /\ s.cl[e.c] # <<>>
         -> IF KnownMic(s, s.cl[e.c][1], e) THEN {"C05-noncanonical-challenge"} ELSE {}
    [] Property = "C09" /\ "C09-huge-target-info" \in Known /\ e.op = "auth" /\ s.cl[e.c] # <<>>
         -> IF KnownUsable(s.cl[e.c][1], e) THEN {"C09-huge-target-info"} ELSE {}
    [] OTHER -> {}

-----------------------------------------------------------------------------
(* The state after event e *)

GivenChallenge(e) ==      \* the value of the challenge that was given (e.res = "ok")
  LET raw == Unhex(e.raw)
      r   == DecChal(raw, FALSE)
  IN [raw |-> raw, val |-> IF r.s = "ok" /\ "used" \in DOMAIN e THEN r.v ELSE Val("chal", e.got[1])]

Track(s, c, e) ==         \* nonces and secrets an AUTHENTICATE shows
  LET v == View(c, Out(e))
      k == SessionKeyOf(v)
  IN IF ~CanAuthenticate(c) \/ ~Answered(e) THEN s
     ELSE IF Property = "C06" THEN
       IF ~v.p.ok THEN s
       ELSE [s EXCEPT !.ccs = @ \o v.cc, !.keys = @ \o k,
                      !.pairs = IF v.cc # <<>> /\ k # <<>> THEN Append(@, <<v.cc[1], k[1], v.sc>>) ELSE @]
     ELSE IF Property = "C19" THEN [s EXCEPT !.secrets = @ \cup MessageSecrets(c, e)]
     ELSE s

Apply(s, e) ==
  CASE e.op = "env"  -> [s EXCEPT !.env[e.k] = Opt(Unhex, e.v)]
    [] e.op = "clock" -> [s EXCEPT !.clock = e.t]
    [] e.op = "host" -> [s EXCEPT !.host = Opt(Unhex, e.v)]
    [] e.op = "new"  ->
         LET a  == IF e.via = "account" THEN Account(e.acct) ELSE [user |-> e.user, dom |-> e.dom]
             c  == New(e.level, a.user, a.dom, e.pw, Workstation(s.env["COMPUTERNAME"], s.host))
         IN IF e.panic = 1 THEN [s EXCEPT !.cl[e.c] = <<>>]
            ELSE [s EXCEPT !.cl[e.c] = <<c>>, !.given[e.c] = <<>>, !.first[e.c] = TRUE, !.offer[e.c] = <<>>,
                           !.secrets = IF Property = "C19" THEN @ \cup AccountSecrets(c) ELSE @]
    [] e.op = "ver"  -> IF s.cl[e.c] = <<>> THEN s
                        ELSE [s EXCEPT !.cl[e.c][1].ver = e.ver, !.offer[e.c] = <<>>]
    [] e.op = "neg"  -> IF s.cl[e.c] = <<>> \/ ~Answered(e) THEN s
                        ELSE [s EXCEPT !.cl[e.c][1] = SendNegotiate(@, Out(e)), !.first[e.c] = TRUE, !.offer[e.c] = <<Out(e)>>]
    [] e.op = "chal" -> IF s.cl[e.c] = <<>> \/ e.res # "ok" THEN s
                        ELSE LET g == GivenChallenge(e)
                             IN [s EXCEPT !.cl[e.c][1] = RecvChallenge(@, g), !.given[e.c] = Append(@, g.val)]
    [] e.op = "auth" -> IF s.cl[e.c] = <<>> THEN s
                        ELSE LET c == s.cl[e.c][1] IN
                             IF ~CanAuthenticate(c) \/ ~Answered(e) THEN s
                             ELSE [Track(s, c, e) EXCEPT !.cl[e.c][1] = SendAuthenticate(@), !.first[e.c] = FALSE]
    [] e.op \in {"mk", "build", "dec"} ->
         [s EXCEPT !.objs[e.o] = IF e.got = <<>> THEN <<>> ELSE <<[kind |-> e.kind, val |-> Val(e.kind, e.got[1])]>>]
    [] e.op = "rand" -> IF Property = "C25" THEN [s EXCEPT !.drawn = @ \o [i \in 1..Len(e.outs) |-> <<e.kind, Unhex(e.outs[i])>>]] ELSE s
    [] e.op \in {"set", "add", "fill", "mic"} ->
         [s EXCEPT !.objs[e.o] = IF e.got = <<>> \/ s.objs[e.o] = <<>> THEN <<>>
                                 ELSE <<[kind |-> s.objs[e.o][1].kind, val |-> Val(s.objs[e.o][1].kind, e.got[1])]>>]
    [] e.op \in {"fnew", "fset", "fclr", "fhas", "fshow"} -> [s EXCEPT !.fl[e.o] = JFlags(e.now)]
    [] OTHER -> s
=============================================================================
