------------------------------ MODULE Machine ------------------------------
(* The implementation as the specification prescribes it: `Perform` carries *)
(* out one operation in a state and yields the event a recorder would write *)
(* for it, in the same form as the records of the real crate. Nonces and    *)
(* the clock are inputs. `Deviation` singles out one way of getting it      *)
(* wrong ("" for none): the judgement of Judge.tla must refuse each.        *)
EXTENDS Judge

CONSTANT Deviation
Dev(d) == Deviation = d

-----------------------------------------------------------------------------
(* Values -> recorded JSON (the inverse of Val) *)
Hex32(b)   == ToHex(Rev(b))
JsonFt(b)  == <<Hex32(Cut(b, 4, 4)), Hex32(Cut(b, 0, 4))>>
JsonAv(p)  == CASE p.id = 0 -> [id |-> 0]
                [] p.id \in TextIds -> [id |-> p.id, t |-> p.t]
                [] p.id = 6  -> [id |-> 6, f |-> p.b]
                [] p.id = 7  -> [id |-> 7, ft |-> JsonFt(p.b)]
                [] p.id = 8  -> [id |-> 8, shd |-> [size |-> Hex32(Cut(p.b, 0, 4)), z4 |-> Hex32(Cut(p.b, 4, 4)),
                                                    cd |-> ToHex(Cut(p.b, 8, 8)), mi |-> ToHex(Cut(p.b, 16, 32))]]
                [] p.id = 10 -> [id |-> 10, b |-> ToHex(p.b)]
JsonAvs(l) == TLCEval([i \in 1..Len(l) |-> JsonAv(l[i])])
JsonLm(x)  == IF x.v = 1 THEN [v |-> 1, r |-> ToHex(x.r)] ELSE [v |-> 2, r |-> ToHex(x.r), cc |-> ToHex(x.cc)]
JsonNt(x)  == CASE x.v = 1 -> [v |-> 1, r |-> ToHex(x.r)]
                [] x.v = 2 -> [v |-> 2, ts |-> JsonFt(x.ts), cc |-> ToHex(x.cc), ti |-> JsonAvs(x.ti)]
                [] x.v = 3 -> [v |-> 3, p |-> ToHex(x.p), ts |-> JsonFt(x.ts), cc |-> ToHex(x.cc), ti |-> JsonAvs(x.ti)]
JsonFlags(F) == Hex32(FlagBytes(F))
JsonShd(b) == JsonAv([id |-> 8, t |-> <<>>, b |-> b]).shd
Json(kind, v) ==
  CASE kind = "neg"  -> [flags |-> JsonFlags(v.flags), dom |-> v.dom, ws |-> v.ws, ver |-> v.ver]
    [] kind = "chal" -> [tn |-> v.tn, flags |-> JsonFlags(v.flags), sc |-> ToHex(v.sc), ti |-> JsonAvs(v.ti), ver |-> v.ver]
    [] kind = "auth" -> [lm |-> Opt(JsonLm, v.lm), nt |-> Opt(JsonNt, v.nt), dom |-> v.dom, user |-> v.user, ws |-> v.ws,
                         key |-> Opt(ToHex, v.key), flags |-> JsonFlags(v.flags), ver |-> v.ver, mic |-> ToHex(v.mic)]
    [] kind = "ver"  -> v
    [] kind = "flags" -> JsonFlags(v)
    [] kind = "ft"   -> JsonFt(v)
    [] kind = "av"   -> JsonAv(v)
    [] kind = "avs"  -> JsonAvs(v)
    [] kind = "avflags" -> v
    [] kind = "shd"  -> JsonShd(v)
    [] kind = "sig"  -> [pad |-> ToHex(v.pad), sum |-> Hex32(v.sum), seq |-> Hex32(v.seq)]
    [] kind \in {"lm", "lm1", "lm2"} -> JsonLm(v)
    [] kind \in {"nt", "nt1", "nt2", "nt3"} -> JsonNt(v)

-----------------------------------------------------------------------------
(* Events *)
Seen(kind, b) ==          \* what decoding shows
  LET r == DecK(kind, b, Strict)
  IN IF r.s = "ok" THEN [res |-> "ok", got |-> <<Json(kind, r.v)>>, used |-> r.n]
     ELSE [res |-> "err", got |-> <<>>, used |-> 0]
Yields(b) == [panic |-> 0, out |-> <<ToHex(b)>>]
Panics    == [panic |-> 1, out |-> <<>>]
Silent    == [io |-> ""]

\* x: [cc, rk, secs (hex), now]
Nonce(n) == [cc |-> Cut(MD5(LE32(n)), 0, 8), rk |-> MD4(LE32(n)), secs |-> "0000000065f00000", nanos |-> 0,
             now |-> Low(Ticks(Rev(Unhex("0000000065f00000")), 0), 8)]
\* the time is where the clock stands
ClockOf(t) == Low(Ticks(Rev(Unhex(t[1])), IF Dev("seconds-only") THEN 0 ELSE t[2]), 8)
AtClock(s, i, x) ==
  IF s.clock = <<>> THEN x
  ELSE LET t == s.clock[1]
           n == ClockOf(IF Dev("stale-time") /\ i \in DOMAIN s.seen THEN s.seen[i] ELSE t)
           y == [x EXCEPT !.secs = t[1], !.nanos = t[2], !.now = IF Dev("seconds-32") THEN Low(Ticks(Cut(Rev(Unhex(t[1])), 0, 4), t[2]), 8) ELSE n]
       IN IF Dev("seeded-by-clock") THEN [y EXCEPT !.cc = Cut(MD5(n), 0, 8)] ELSE y

\* an AUTHENTICATE whose flags and MIC are replaced
PutFlags(b, F) == SubSeq(b, 1, 60) \o FlagBytes(F) \o From(b, 64)
PutMic(b, m)   == LET p == ParseAuth(b) IN SubSeq(b, 1, p.micAt) \o m \o From(b, p.micAt + 16)
NegOf(s, i)    == s.cl[i][1].neg

\* the client as a deviating implementation takes it
Mistaken(c) ==
  CASE Dev("downgrade")          -> IF ESS \notin c.chal.val.flags /\ c.id.level >= 3 THEN [c EXCEPT !.id.level = 2] ELSE c
    [] Dev("lm-allowed")         -> IF c.id.level = 1 THEN [c EXCEPT !.id.level = 0] ELSE c
    [] Dev("upper-domain")       -> [c EXCEPT !.id.dom = UpperCase(@)]
    [] Dev("mic-reencoded")      -> [c EXCEPT !.chal.raw = EncChal(c.chal.val)]
    [] Dev("mic-without-neg")    -> [c EXCEPT !.neg = <<>>]
    [] Dev("ignore-timestamp")   -> [c EXCEPT !.chal.val.ti = SelectSeq(@, LAMBDA p : p.id # 7)]
    [] Dev("sort-infos")         -> [c EXCEPT !.chal.val.ti = IF Len(@) > 2 THEN <<@[2], @[1]>> \o SubSeq(@, 3, Len(@)) ELSE @]
    [] Dev("ess-forgotten")      -> [c EXCEPT !.chal.val.flags = @ \ {ESS}]
    [] Dev("exchange-unasked")   -> [c EXCEPT !.chal.val.flags = @ \cup {KEY_EXCH, SIGN}]
    [] Dev("no-workstation")     -> [c EXCEPT !.id.ws = <<>>]
    [] OTHER -> c
Nonces(c, x) == IF Dev("key-is-kek") THEN [x EXCEPT !.rk = Responses(c, x.cc, x.now).kek] ELSE x
AuthBytes(c, x0) ==
  LET m == Mistaken(c)
      x == Nonces(c, x0)
      b == AuthenticateBytes(m, x.cc, x.rk, x.now)
      p == ParseAuth(b)
  IN CASE Dev("flags-dropped")   -> PutFlags(b, {UNICODE, TARGET_INFO, REQUEST_TARGET})
       [] Dev("version-claimed") -> PutFlags(b, p.flags \cup {VERSION})
       [] Dev("mic-early")       -> IF IsV2(c.id.level)
                                    THEN PutMic(b, Mic(Exported(c.chal.val.flags, Responses(c, x.cc, x.now).kek, x.rk), c.neg, c.chal.raw,
                                                       PutFlags(ParseAuth(b).zeroed, p.flags \ {TARGET_INFO})))
                                    ELSE b
       [] Dev("mic-zero")        -> PutMic(b, Zeros(16))
       [] Dev("trailing")        -> b \o <<0>>
       [] OTHER -> b
SessionKey(c, x0) ==
  LET x == Nonces(c, x0)
      r == Responses(c, x.cc, x.now)
      F == c.chal.val.flags
  IN IF Dev("mixed-kek") /\ ~IsV2(c.id.level) /\ ESS \notin F /\ ~Exchanges(F) /\ F \cap {LM_KEY, NON_NT} = {}
     THEN HmacMD5(SbkV1(NtHash(c.id.pw)), c.chal.val.sc \o Cut(r.lm, 0, 8))
     ELSE Exported(F, r.kek, x.rk)
MayAnswer(c) == CanAuthenticate(c) \/ (Dev("stale-challenge") /\ c.chal # NoChallenge)

Offered(c) == LET m == NegotiateMsg(c) IN
  CASE Dev("offer-once")   -> IF c.neg # <<>> THEN [m EXCEPT !.flags = @ \ {KEY_EXCH}] ELSE m
    [] Dev("offer-lm-ess") -> [m EXCEPT !.flags = @ \cup {LM_KEY, ESS}]
    [] OTHER -> m

\* what decoding and encoding make of bytes and values
Decoded(kind, b) ==
  CASE Dev("big-endian") /\ kind = "chal" /\ Len(b) > 48 -> Seen(kind, SubSeq(b, 1, 12) \o <<b[14], b[13]>> \o From(b, 14))
    [] Dev("fixed-offset") /\ kind = "chal" /\ Len(b) > 48 -> Seen(kind, SubSeq(b, 1, 16) \o LE32(IF b[24] >= 2 THEN 56 ELSE 48) \o From(b, 20))
    [] Dev("any-version") /\ kind \in {"neg", "chal", "ver"} /\ Has(b, IF kind = "ver" THEN 0 ELSE IF kind = "neg" THEN 32 ELSE 48, 8) ->
         LET o == IF kind = "ver" THEN 0 ELSE IF kind = "neg" THEN 32 ELSE 48
         IN Seen(kind, SubSeq(b, 1, o + 4) \o <<0, 0, 0, 15>> \o From(b, o + 8))
    [] Dev("no-surrogates") /\ \E i \in 1..Len(b) : i % 2 = 0 /\ b[i] \in 216..219 -> [res |-> "err", got |-> <<>>, used |-> 0]
    [] Dev("no-terminator") /\ kind = "chal" /\ DecChal(b, Strict).s = "err" /\ Len(b) >= 48 ->
         IF DecChal(b \o Zeros(4), Strict).s = "ok" THEN Seen(kind, b \o Zeros(4)) ELSE Seen(kind, b)
    [] Dev("strict-lax") -> LET r == DecK(kind, b, FALSE) IN
         IF r.s = "ok" THEN [res |-> "ok", got |-> <<Json(kind, r.v)>>, used |-> r.n] ELSE [res |-> "err", got |-> <<>>, used |-> 0]
    [] Dev("lax-strict") -> LET r == DecK(kind, b, TRUE) IN
         IF r.s = "ok" THEN [res |-> "ok", got |-> <<Json(kind, r.v)>>, used |-> r.n] ELSE [res |-> "err", got |-> <<>>, used |-> 0]
    [] Dev("panic-on-range") /\ kind \in {"neg", "chal", "auth"} /\ DecK(kind, b, Strict).s = "err" /\ Len(b) >= 64 ->
         [res |-> "panic", got |-> <<>>, used |-> 0]
    [] OTHER -> Seen(kind, b)
Encoded(kind, v) ==
  CASE Dev("absent-offset") /\ kind = "chal" /\ v.tn = <<>> -> LET b == EncChal(v) IN SubSeq(b, 1, 16) \o LE32(48) \o From(b, 20)
    [] Dev("short-max") /\ kind = "auth" -> LET b == EncAuth(v) IN SubSeq(b, 1, 14) \o <<0, 0>> \o From(b, 16)
    [] Dev("lossy-names") /\ kind \in {"chal"} /\ v.tn # <<>> -> EncChal([v EXCEPT !.tn = <<SelectSeq(@[1], LAMBDA c : c < 65536)>>])
    [] OTHER -> Enc(kind, v)
Coded(kind, v) == LET b == Encoded(kind, v) IN
  [was |-> <<Json(kind, v)>>, again |-> <<ToHex(b)>>] @@ Yields(b) @@ Decoded(kind, b)

\* objects
Object(s, op) == s.objs[op.o][1]
Changed(kind, v) == [panic |-> 0, got |-> <<Json(kind, v)>>]
SetDone(k, m, f, v) ==
  CASE Dev("flag-sticks") /\ f # "flags" /\ v = <<>> -> [Set(k, m, f, v) EXCEPT !.flags = m.flags]
    [] Dev("wrong-flag") /\ k = "neg" /\ f = "ws" /\ v # <<>> -> [Set(k, m, f, v) EXCEPT !.flags = m.flags \cup {OEM_DOMAIN}]
    [] Dev("flags-reset") /\ f = "tn" -> [Set(k, m, f, v) EXCEPT !.flags = {UNICODE} \cup (IF v = <<>> THEN {} ELSE {REQUEST_TARGET})]
    [] OTHER -> Set(k, m, f, v)
AddDone(m, p) ==
  CASE Dev("two-terminators") -> [AddInfo(m, p) EXCEPT !.ti = Append(@, EOL)]
    [] Dev("prepend") /\ m.ti # <<>> -> [AddInfo(m, p) EXCEPT !.ti = <<p>> \o m.ti]
    [] Dev("replace") /\ m.ti # <<>> -> AddInfo([m EXCEPT !.ti = SelectSeq(@, LAMBDA q : q.id # p.id)], p)
    [] OTHER -> AddInfo(m, p)
FlagDone(F, op) ==
  CASE op.op = "fset" -> IF Dev("toggle") /\ op.bit \in F THEN F \ {op.bit} ELSE F \cup {op.bit}
    [] op.op = "fclr" -> IF Dev("clear-all") THEN {} ELSE F \ {op.bit}
    [] op.op = "fhas" -> F
Rendered(F) == IF Dev("names-ascending") /\ {0, 1} \subseteq F THEN Ascii("NTLM_NEGOTIATE_OEM") ELSE FlagDebug(F)

\* times (in the form they are recorded in)
JsonNum(d) == ToHex(Rev(Low(d, 8)))
FromTime(op) ==
  LET t == Ticks(Rev(Unhex(op.secs)), IF Dev("micros") THEN (op.nanos \div 1000) * 1000 ELSE op.nanos) IN
  IF op.neg = 1 /\ ~(NumEq(Unhex(op.secs), <<0>>) /\ op.nanos = 0) THEN [res |-> "err", got |-> <<>>]
  ELSE IF Fits(t, 8) \/ Dev("wrap-around") THEN [res |-> "ok", got |-> <<JsonFt(Low(t, 8))>>] ELSE [res |-> "err", got |-> <<>>]
ToTime(op) ==
  LET f == JFt(op.ft)
      i == Instant(f)
      neg == i.neg /\ ~Dev("never-before-1970")
      back == FromTime([neg |-> IF neg THEN 1 ELSE 0, secs |-> JsonNum(i.secs), nanos |-> i.nanos])
  IN [res |-> "ok", neg |-> IF neg THEN 1 ELSE 0, secs |-> JsonNum(i.secs), nanos |-> i.nanos, u64 |-> JsonNum(f), back |-> back.got]

\* the MIC operation
MicDone(s, op) ==
  LET a == s.objs[op.o][1].val
      n == s.objs[op.n][1].val
      h == s.objs[op.h][1].val
      old == Dev("mic-over-mic")
      k == IF op.key = <<>> THEN <<>> ELSE Unhex(op.key[1])
  IN IF op.key = <<>> THEN (IF Dev("mic-cleared") THEN [a EXCEPT !.mic = Zeros(16)] ELSE a)
     ELSE [a EXCEPT !.mic = IF old THEN Mic(k, EncNeg(n), EncChal(h), EncAuth(a))
                            ELSE IF Dev("mic-order") THEN Mic(k, EncChal(h), EncNeg(n), EncAuth([a EXCEPT !.mic = Zeros(16)]))
                            ELSE MicOf(k, n, h, a)]

XorAll(b) == FoldLeft(XorByte, 0, b)
\* the n-th of the values drawn
Draw(kind, m, i) ==
  LET b == MD5(Ascii(kind) \o LE32(m) \o LE32(i)) \o MD4(Ascii(kind) \o LE32(m) \o LE32(i))
      n == SizeOf(kind)
  IN CASE Dev("same-draws") /\ kind = "Mic" -> Cut(MD5(Ascii(kind) \o LE32(i)), 0, n)
       [] Dev("short-draw") /\ kind = "Response24" -> Cut(b, 0, 16) \o Zeros(8)
       [] Dev("halves-repeat") /\ n >= 16 -> Cut(b, 0, 8) \o Cut(b, 0, 8) \o Cut(b, 8, n - 16)
       [] Dev("checksum-byte") -> LET c == Cut(b, 0, n - 1) IN Append(c, XorAll(c))
       [] Dev("tail-repeats") /\ n > 20 -> Cut(b, 0, n - 4) \o Cut(b, 0, 4)
       [] OTHER -> Cut(b, 0, n)

\* values drawn in large numbers: what is to be expected of them
EvenlyDrawn(size) ==
  LET e == Tallied \div 256 IN
  [n |-> Tallied, size |-> size, dups |-> IF Dev("values-return") THEN 1 ELSE 0,
   counts |-> [i \in 1..size |-> [v \in 1..256 |-> IF Dev("no-zeros") THEN (IF v = 1 THEN 0 ELSE e + (IF v <= e + 1 THEN 1 ELSE 0))
                                                   ELSE IF Dev("bit-biased") /\ i = size THEN (IF v <= 128 THEN e - 6 ELSE e + 6) ELSE e]],
   same |-> [i \in 1..size |-> [j \in 1..size |-> IF i = j THEN Tallied ELSE IF Dev("no-byte-twice") THEN 0 ELSE e]],
   next |-> [i \in 1..size |-> [j \in 1..size |-> IF Dev("follows") /\ i = size /\ j = 1 THEN 4 * e ELSE e]]]

ConvDone(op) == CASE Dev("any-revision") /\ op.f = "ver8" -> <<<<1, 2, 3, 15>>>>
                  [] Dev("hash-first") /\ op.f = "lm2" -> ToHex(LmV2(Unhex(op.a[2]), Unhex(op.a[3]), Unhex(op.a[1])))
                  [] OTHER -> Converted(op)

\* the client as one sees it who mixes it up with others
Seen1(s, i) ==
  CASE Dev("env-late") -> [s.cl[i][1] EXCEPT !.id.ws = Workstation(s.env["COMPUTERNAME"], s.host)]
    [] Dev("first-password") /\ s.cl[0] # <<>> -> [s.cl[i][1] EXCEPT !.id.pw = s.cl[0][1].id.pw]
    [] OTHER -> s.cl[i][1]

Perform(s, op, x0) ==
  LET c == Seen1(s, op.c)
      x == IF op.op = "auth" THEN AtClock(s, op.c, x0) ELSE x0 IN
  CASE op.op \in {"env", "host", "ver", "clock"} -> op @@ Silent
    [] op.op = "new"  -> op @@ [panic |-> 0] @@ Silent
    [] op.op = "neg"  -> IF c.id.level > 5 /\ ~Dev("any-level") THEN op @@ Panics @@ Silent ELSE op @@ Yields(EncNeg(Offered(c))) @@ Silent
    [] op.op = "chal" -> op @@ Seen("chal", Unhex(op.raw)) @@ [panic |-> 0] @@ Silent
    [] op.op = "auth" ->
         LET b == AuthBytes(c, x)
             clock == [t0 |-> <<x.secs, x.nanos>>, t1 |-> <<x.secs, x.nanos>>]
         IN IF ~MayAnswer(c)
            THEN op @@ Panics @@ Seen("auth", <<>>) @@ clock @@ [esk |-> <<>>] @@ Silent
            ELSE op @@ Yields(b) @@ Seen("auth", b) @@ clock
                 @@ [esk |-> IF s.first[op.c] THEN <<ToHex(SessionKey(c, x))>> ELSE <<>>]
                 @@ [io |-> IF Dev("log-key") THEN ToHex(Ascii(ToHex(SessionKey(c, x)))) ELSE ""]
    [] op.op = "mk"    -> op @@ [got |-> <<Json(op.kind, DefaultOf(op.kind))>>]
    [] op.op = "build" -> op @@ [panic |-> 0, got |-> <<op.val>>]
    [] op.op = "enc"   -> LET o == Object(s, op) IN op @@ Changed(o.kind, o.val) @@ Yields(Encoded(o.kind, o.val))
    [] op.op = "dec"   -> op @@ Decoded(op.kind, Unhex(op.raw))
    [] op.op = "rt"    -> op @@ Coded(op.kind, Val(op.kind, op.val))
    [] op.op = "set"   -> LET o == Object(s, op) IN op @@ Changed(o.kind, SetDone(o.kind, o.val, op.f, JSetVal(o.kind, op.f, op.v)))
    [] op.op = "add"   -> op @@ Changed("chal", AddDone(Object(s, op).val, JAv(op.item)))
    [] op.op = "fill"  -> op @@ Changed("chal", FillFromEnv(Object(s, op).val, s.env))
    [] op.op = "mic"   -> op @@ Changed("auth", MicDone(s, op)) @@ [after |-> op.key]
    [] op.op = "rand"  -> op @@ [panic |-> 0, outs |-> [i \in 1..op.n |-> ToHex(Draw(op.kind, Len(s.drawn), i))]]
    [] op.op = "tally" -> op @@ [panic |-> 0, tally |-> <<EvenlyDrawn(SizeOf(op.kind))>>]
    [] op.op = "harvest" -> op @@ [panic |-> 0, found |-> <<[lm |-> EvenlyDrawn(8), nt |-> EvenlyDrawn(8), key |-> EvenlyDrawn(16)]>>]
    [] op.op = "outcast" -> op
    [] op.op = "conv"  -> op @@ [panic |-> 0, got |-> ConvDone(op)]
    [] op.op = "fnew"  -> op @@ [now |-> op.word]
    [] op.op \in {"fset", "fclr", "fhas"} ->
         LET F == FlagDone(s.fl[op.o], op)
         IN op @@ [panic |-> 0, has |-> IF op.op = "fhas" /\ op.bit \in s.fl[op.o] THEN 1 ELSE 0, now |-> JsonFlags(F)]
    [] op.op = "fshow" -> LET F == s.fl[op.o] IN
         op @@ [has |-> SetToSortSeq(F, LAMBDA a, b : a < b), dbg |-> ToHex(Rendered(F)), alt |-> ToHex(Rendered(F)), now |-> JsonFlags(F)] @@ Yields(FlagBytes(F)) @@ Decoded("flags", FlagBytes(F))
    [] op.op = "ft_from" -> op @@ FromTime(op)
    [] op.op = "ft_to"   -> op @@ ToTime(op)

(* Deviations of the state machine itself: the state an implementation is   *)
(* really in (the specification's state goes on by Apply)                   *)
StepReal(r, e) ==
  LET s1 == Apply(r, e) IN
  CASE Dev("stale-challenge") /\ e.op = "neg" -> [s1 EXCEPT !.cl[e.c][1].chal = r.cl[e.c][1].chal]
    [] Dev("same-challenge") /\ e.op = "neg" -> [s1 EXCEPT !.cl[e.c][1].chal = r.cl[e.c][1].chal]
    [] Dev("same-challenge") /\ e.op = "chal" /\ e.res = "ok" /\ r.cl[e.c][1].st = "negotiated" /\ r.cl[e.c][1].chal # NoChallenge ->
         IF r.cl[e.c][1].chal.val.sc = GivenChallenge(e).val.sc THEN [s1 EXCEPT !.cl[e.c][1].chal = r.cl[e.c][1].chal] ELSE s1
    [] Dev("last-challenge") /\ e.op = "chal" /\ e.res = "ok" /\ r.cl[e.c] # <<>> /\ r.cl[e.c][1].st # "new" ->
         [s1 EXCEPT !.cl[e.c][1].st = "challenged", !.cl[e.c][1].chal = GivenChallenge(e)]
    [] Dev("challenge-first") /\ e.op = "chal" /\ e.res = "ok" /\ r.cl[e.c] # <<>> /\ r.cl[e.c][1].st = "new" ->
         [s1 EXCEPT !.cl[e.c][1].st = "challenged", !.cl[e.c][1].chal = GivenChallenge(e)]
    [] Dev("stale-time") /\ e.op = "neg" /\ r.clock # <<>> -> [s1 EXCEPT !.seen = (e.c :> r.clock[1]) @@ @]
    [] Dev("one-answer") /\ e.op = "auth" /\ Answered(e) -> [s1 EXCEPT !.cl[e.c][1].st = "new"]
    [] Dev("kept-negotiate") /\ e.op = "neg" /\ r.cl[e.c][1].neg # <<>> -> [s1 EXCEPT !.cl[e.c][1].neg = r.cl[e.c][1].neg]
    [] OTHER -> s1
=============================================================================
