------------------------------- MODULE Client -------------------------------
(* The client: its state and its transitions. A client is the record        *)
(*   id    what it was created with: [level, user, dom, pw, ws]             *)
(*   ver   the version it announces (option)                                *)
(*   st    "new", "negotiated", "challenged", "authenticated"               *)
(*   neg   the NEGOTIATE bytes of this handshake                            *)
(*   chal  the accepted challenge: [raw: the bytes, val: its value]         *)
(* Nonces are inputs of the transition that uses them.                      *)
EXTENDS Wire, Crypto, FileTime

NoChallenge == [raw |-> <<>>, val |-> <<>>]

\* "DOMAIN\user" before "user@domain" before "user"; first separator
Account(a) == IF Positions(a, 92) # {} THEN [user |-> After(a, 92), dom |-> UpTo(a, 92)]
              ELSE IF Positions(a, 64) # {} THEN [user |-> UpTo(a, 64), dom |-> After(a, 64)]
              ELSE [user |-> a, dom |-> <<>>]

(* The workstation: COMPUTERNAME when it is set (to text), else the host    *)
(* name from /etc/hostname. Both are options of byte strings.               *)
FirstLine(b) == LET l == UpTo(b, 10)      \* b is not empty; a CR before the LF belongs to the line end
                IN IF l # b /\ l # <<>> /\ l[Len(l)] = 13 THEN Front(l) ELSE l
HostText(h) == IF h = <<>> THEN <<>> ELSE Utf8Decode(h[1])
Workstation(computername, hostname) ==
  LET env == IF computername = <<>> THEN <<>> ELSE Utf8Decode(computername[1])
      t   == HostText(hostname)
  IN IF env # <<>> THEN env
     ELSE IF t = <<>> \/ t[1] = <<>> THEN <<>>
     ELSE <<UpperCase(Trim(UpTo(FirstLine(t[1]), 46)))>>

New(level, user, dom, pw, ws) ==
  [id |-> [level |-> level, user |-> user, dom |-> dom, pw |-> pw, ws |-> ws],
   ver |-> <<>>, st |-> "new", neg |-> <<>>, chal |-> NoChallenge]

-----------------------------------------------------------------------------
(* NEGOTIATE *)
BaseOffer == {UNICODE, OEM, REQUEST_TARGET, SIGN, SEAL, ALWAYS_SIGN, N128, TARGET_SERVER}
LevelOffer(level) == CASE level = 0 -> {NTLM, LM_KEY, KEY_EXCH}
                       [] level = 1 -> {NTLM, ESS}
                       [] OTHER     -> {ESS, KEY_EXCH, TARGET_INFO}
Offer(c) == BaseOffer \cup LevelOffer(c.id.level)
            \cup (IF c.id.dom # <<>> THEN {OEM_DOMAIN} ELSE {})
            \cup (IF c.ver # <<>> THEN {VERSION} ELSE {})
NegotiateMsg(c) == [flags |-> Offer(c), dom |-> IF c.id.dom = <<>> THEN <<>> ELSE <<c.id.dom>>,
                    ws |-> <<>>, ver |-> c.ver]

SendNegotiate(c, bytes) == [c EXCEPT !.st = "negotiated", !.neg = bytes, !.chal = NoChallenge]

RecvChallenge(c, ch) == IF c.st = "negotiated" THEN [c EXCEPT !.st = "challenged", !.chal = ch] ELSE c

CanAuthenticate(c) == c.st \in {"challenged", "authenticated"}
SendAuthenticate(c) == [c EXCEPT !.st = "authenticated"]

-----------------------------------------------------------------------------
(* AUTHENTICATE *)
IsV2(level) == level >= 3

AuthFlags(c, F, hasKey) ==
  ((F \ {KEY_EXCH, VERSION, OEM, TARGET_SERVER}) \cup {UNICODE, TARGET_INFO, REQUEST_TARGET})
  \cup (IF hasKey THEN {KEY_EXCH} ELSE {})
  \cup (IF c.ver # <<>> THEN {VERSION} ELSE {})

\* the time stamp in the blob when the server gave one (option)
ServerTime(ti) == LET ts == {i \in 1..Len(ti) : ti[i].id = TimestampId}
                  IN IF ts = {} THEN <<>> ELSE <<ti[CHOOSE i \in ts : \A j \in ts : i <= j].b>>

(* The responses, for client challenge cc and (when the server gives none)  *)
(* time now: [lm, nt, sbk, kek]                                             *)
Responses(c, cc, now) ==
  LET F   == c.chal.val.flags
      sc  == c.chal.val.sc
      nth == NtHash(c.id.pw)
      lmh == LmHash(c.id.pw)
      v2h == V2Hash(c.id.user, nth, c.id.dom)
      st  == ServerTime(c.chal.val.ti)
      ti  == Append(c.chal.val.ti, EOL)            \* the four zero bytes that end the blob
      ts  == IF st = <<>> THEN now ELSE st[1]
      p   == ProofV2(v2h, sc, Blob(ts, cc, ti))
  IN IF IsV2(c.id.level)
     THEN LET sbk == SbkV2(v2h, p) IN
          [lm |-> LmV2(v2h, sc, cc), nt |-> EncNt([v |-> 3, p |-> p, ts |-> ts, cc |-> cc, ti |-> ti]), kek |-> sbk]
     ELSE LET nt == IF ESS \in F THEN NtV1Ess(nth, sc, cc) ELSE NtV1Plain(nth, sc)
              lm == IF ESS \in F THEN LmV1Ess(cc)
                    ELSE IF c.id.level # 0 THEN nt
                    ELSE LmV1Plain(lmh, sc)
          IN [lm |-> lm, nt |-> nt, kek |-> Kek(F, SbkV1(nth), Cut(lm, 0, 8), lmh, sc)]

\* the exported session key, rk being the random session key
Exported(F, kek, rk) == IF Exchanges(F) THEN rk ELSE kek

(* The AUTHENTICATE message: client challenge cc, random session key rk,    *)
(* time now                                                                 *)
AuthenticateBytes(c, cc, rk, now) ==
  LET F    == c.chal.val.flags
      r    == Responses(c, cc, now)
      key  == IF Exchanges(F) THEN <<Rc4(r.kek, rk)>> ELSE <<>>
      fs   == <<<<r.lm>>, <<r.nt>>, <<Utf16(c.id.dom)>>, <<Utf16(c.id.user)>>, Opt(Utf16, c.id.ws), key>>
      ver  == EncVerOpt(c.ver)
      base == AuthHeader + Len(ver) + 16
      head == Signature \o LE32(3) \o FlattenSeq([i \in 1..6 |-> Descriptor(fs, base, i)])
              \o FlagBytes(AuthFlags(c, F, key # <<>>)) \o ver
      pay  == Payload(fs)
      mic  == IF IsV2(c.id.level)
              THEN Mic(Exported(F, r.kek, rk), c.neg, c.chal.raw, head \o Zeros(16) \o pay)
              ELSE Zeros(16)
  IN head \o mic \o pay
=============================================================================
