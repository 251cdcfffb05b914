-------------------------------- MODULE Wire --------------------------------
(* The wire format: values, their encoding, and exactly what the decoder    *)
(* makes of any byte string.                                                *)
(*                                                                          *)
(* Values (records). Options are sequences of length 0 or 1; 32-bit numbers *)
(* are 4 little-endian bytes; flag words are sets of bits.                  *)
(*   version    <<major, minor, build, revision>>                           *)
(*   AV pair    [id, t, b]: text ids 1-5 and 9 use t; id 6 has              *)
(*              b = <<constrained, mic, spn>> (0 or 1 each); id 7, 8 and 10 *)
(*              have b = the value (8, 48, 16 bytes); id 0 has neither      *)
(*   NEGOTIATE  [flags, dom, ws, ver]                                       *)
(*   CHALLENGE  [tn, flags, sc, ti, ver]                                    *)
(*   AUTHENTICATE [lm, nt, dom, user, ws, key, flags, ver, mic]             *)
(*   LM resp.   [v: 1, r: 24 bytes] or [v: 2, r: 16 bytes, cc: 8 bytes]     *)
(*   NT resp.   [v: 1, r: 24 bytes], [v: 2, ts, cc, ti] or                  *)
(*              [v: 3, p: 16 bytes, ts, cc, ti]  (proof and blob)           *)
EXTENDS Text, Flags

NegHeader  == 32
ChalHeader == 48
AuthHeader == 64
Signature  == <<78, 84, 76, 77, 83, 83, 80, 0>>      \* "NTLMSSP\0"

TextIds == {1, 2, 3, 4, 5, 9}
AvIds   == 0..10
EOL     == [id |-> 0, t |-> <<>>, b |-> <<>>]
TimestampId == 7

-----------------------------------------------------------------------------
(* Encoding *)

EncVer(v)  == <<v[1], v[2]>> \o LE16(v[3]) \o <<0, 0, 0>> \o <<v[4]>>
EncVerOpt(o) == IF o = <<>> THEN <<>> ELSE EncVer(o[1])

AvValue(p) == CASE p.id = 0        -> <<>>
                [] p.id \in TextIds -> Utf16(p.t)
                [] p.id = 6        -> <<p.b[1] + 2 * p.b[2] + 4 * p.b[3], 0, 0, 0>>
                [] OTHER           -> p.b
EncAv(p)   == LET v == AvValue(p) IN LE16(p.id) \o LE16(Len(v)) \o v
EncAvs(l)  == FlattenSeq([i \in 1..Len(l) |-> EncAv(l[i])])

EncLm(x)   == IF x.v = 1 THEN x.r ELSE x.r \o x.cc
Blob(ts, cc, ti) == <<1, 1, 0, 0, 0, 0, 0, 0>> \o ts \o cc \o <<0, 0, 0, 0>> \o EncAvs(ti)
EncNt(x)   == CASE x.v = 1 -> x.r
                [] x.v = 2 -> Blob(x.ts, x.cc, x.ti)
                [] x.v = 3 -> x.p \o Blob(x.ts, x.cc, x.ti)

(* Payload fields back to back from offset `base`: descriptors and payload. *)
(* fs is a sequence of options of byte strings.                             *)
FieldLen(f) == IF f = <<>> THEN 0 ELSE Len(f[1])
RECURSIVE Offset(_, _, _)
Offset(fs, base, i) == IF i = 1 THEN base ELSE Offset(fs, base, i - 1) + FieldLen(fs[i - 1])
Descriptor(fs, base, i) == IF fs[i] = <<>> THEN Zeros(8)
                           ELSE LE16(Len(fs[i][1])) \o LE16(Len(fs[i][1])) \o LE32(Offset(fs, base, i))
Payload(fs) == FlattenSeq([i \in 1..Len(fs) |-> IF fs[i] = <<>> THEN <<>> ELSE fs[i][1]])

Opt(f(_), o) == IF o = <<>> THEN <<>> ELSE <<f(o[1])>>

EncNeg(m) ==
  LET fs   == <<Opt(Utf8, m.dom), Opt(Utf8, m.ws)>>
      ver  == EncVerOpt(m.ver)
      base == NegHeader + Len(ver)
  IN Signature \o LE32(1) \o FlagBytes(m.flags) \o Descriptor(fs, base, 1) \o Descriptor(fs, base, 2)
     \o ver \o Payload(fs)

EncChal(m) ==
  LET fs   == <<Opt(Utf16, m.tn), IF m.ti = <<>> THEN <<>> ELSE <<EncAvs(m.ti)>>>>
      ver  == EncVerOpt(m.ver)
      base == ChalHeader + Len(ver)
  IN Signature \o LE32(2) \o Descriptor(fs, base, 1) \o FlagBytes(m.flags) \o m.sc \o Zeros(8)
     \o Descriptor(fs, base, 2) \o ver \o Payload(fs)

EncAuth(m) ==
  LET fs   == <<Opt(EncLm, m.lm), Opt(EncNt, m.nt), Opt(Utf16, m.dom), Opt(Utf16, m.user), Opt(Utf16, m.ws), m.key>>
      ver  == EncVerOpt(m.ver)
      base == AuthHeader + Len(ver) + 16
  IN Signature \o LE32(3) \o FlattenSeq([i \in 1..6 |-> Descriptor(fs, base, i)])
     \o FlagBytes(m.flags) \o ver \o m.mic \o Payload(fs)

EncSig(m) == LE32(1) \o m.pad \o m.sum \o m.seq

Enc(kind, v) ==
  CASE kind = "neg"  -> EncNeg(v)      [] kind = "chal" -> EncChal(v)
    [] kind = "auth" -> EncAuth(v)     [] kind = "ver"  -> EncVer(v)
    [] kind = "flags" -> FlagBytes(v)  [] kind = "ft"   -> v
    [] kind = "av"   -> EncAv(v)       [] kind = "avs"  -> EncAvs(v)
    [] kind = "avflags" -> <<v[1] + 2 * v[2] + 4 * v[3], 0, 0, 0>>
    [] kind = "shd"  -> v              [] kind = "sig"  -> EncSig(v)
    [] kind \in {"lm", "lm1", "lm2"} -> EncLm(v)
    [] kind \in {"nt", "nt1", "nt2", "nt3"} -> EncNt(v)

-----------------------------------------------------------------------------
(* Decoding. Results: [s |-> "ok", v, n] with n the number of bytes used,   *)
(* [s |-> "err"] for a refusal and [s |-> "inc"] for a value cut short,     *)
(* which - unlike "err" - is not caught by a choice or a list around it.    *)

Ok(v, n) == [s |-> "ok", v |-> v, n |-> n]
Err == [s |-> "err"]
Inc == [s |-> "inc"]

DecVer(b, o) ==
  IF Has(b, o, 8) /\ AllZero(Cut(b, o + 4, 3)) /\ b[o + 8] = 15
  THEN Ok(<<b[o + 1], b[o + 2], U16(b, o + 2), 15>>, 8) ELSE Err

DecAvFlags(b, o) ==
  IF Has(b, o, 4) /\ b[o + 1] < 8 /\ AllZero(Cut(b, o + 1, 3))
  THEN Ok(<<b[o + 1] % 2, (b[o + 1] \div 2) % 2, b[o + 1] \div 4>>, 4) ELSE Err

DecShd(b, o) == IF Has(b, o, 48) /\ AllZero(Cut(b, o + 4, 4)) THEN Ok(Cut(b, o, 48), 48) ELSE Err

\* the value of an AV pair of a known id, or <<>>
AvParsed(id, d) ==
  LET p == Utf16Prefix(d) IN
  CASE id = 0 -> IF d = <<>> THEN <<EOL>> ELSE <<>>
    [] id \in TextIds -> IF p.n = Len(d) THEN <<[id |-> id, t |-> p.t, b |-> <<>>]>> ELSE <<>>
    [] id = 6 -> LET f == DecAvFlags(d, 0) IN
                 IF f.s = "ok" /\ Len(d) = 4 THEN <<[id |-> 6, t |-> <<>>, b |-> f.v]>> ELSE <<>>
    [] id = 7 -> IF Len(d) = 8 THEN <<[id |-> 7, t |-> <<>>, b |-> d]>> ELSE <<>>
    [] id = 8 -> IF Len(d) = 48 /\ DecShd(d, 0).s = "ok" THEN <<[id |-> 8, t |-> <<>>, b |-> d]>> ELSE <<>>
    [] id = 10 -> IF Len(d) = 16 THEN <<[id |-> 10, t |-> <<>>, b |-> d]>> ELSE <<>>

DecAv(b, o) ==
  IF ~Has(b, o, 4) \/ U16(b, o) \notin AvIds THEN Err
  ELSE LET n == U16(b, o + 2) IN
       IF ~Has(b, o + 4, n) THEN Inc
       ELSE LET p == AvParsed(U16(b, o), Cut(b, o + 4, n))
            IN IF p = <<>> THEN Err ELSE Ok(p[1], 4 + n)

(* A list runs up to the first thing that is not an AV pair.                *)
RECURSIVE AvsFrom(_, _, _)
AvsFrom(b, o, acc) ==
  LET p == DecAv(b, o) IN
  IF p.s = "ok" THEN AvsFrom(b, o + p.n, Append(acc, p.v))
  ELSE IF p.s = "err" THEN Ok(acc, o)
  ELSE Inc
DecAvs(b, o) == LET r == AvsFrom(b, o, <<>>) IN IF r.s = "ok" THEN Ok(r.v, r.n - o) ELSE r

DecLm1(b, o) == IF Has(b, o, 24) THEN Ok([v |-> 1, r |-> Cut(b, o, 24)], 24) ELSE Err
DecLm2(b, o) == IF Has(b, o, 24) THEN Ok([v |-> 2, r |-> Cut(b, o, 16), cc |-> Cut(b, o + 16, 8)], 24) ELSE Err
DecNt1(b, o) == DecLm1(b, o)
DecNt2(b, o) ==
  IF ~Has(b, o, 28) \/ Cut(b, o, 8) # <<1, 1, 0, 0, 0, 0, 0, 0>> \/ ~AllZero(Cut(b, o + 24, 4)) THEN Err
  ELSE LET l == DecAvs(b, o + 28)
       IN IF l.s = "ok" THEN Ok([v |-> 2, ts |-> Cut(b, o + 8, 8), cc |-> Cut(b, o + 16, 8), ti |-> l.v], 28 + l.n)
          ELSE l
DecNt3(b, o) ==
  IF ~Has(b, o, 16) THEN Err
  ELSE LET r == DecNt2(b, o + 16)
       IN IF r.s = "ok" THEN Ok([v |-> 3, p |-> Cut(b, o, 16), ts |-> r.v.ts, cc |-> r.v.cc, ti |-> r.v.ti], 16 + r.n)
          ELSE r
\* The NT response: a bare blob, a proof with its blob, or 24 bytes of NTLMv1
DecNt(b, o) == LET r2 == DecNt2(b, o) IN
               IF r2.s # "err" THEN r2
               ELSE LET r3 == DecNt3(b, o) IN
                    IF r3.s # "err" THEN r3 ELSE DecNt1(b, o)

DecFlags(b, o, strict) ==
  IF Has(b, o, 4) /\ ~(strict /\ Forbidden(FlagSet(Cut(b, o, 4)))) THEN Ok(FlagSet(Cut(b, o, 4)), 4) ELSE Err

DecSig(b, o) == IF Has(b, o, 16) /\ Cut(b, o, 4) = LE32(1)
                THEN Ok([pad |-> Cut(b, o + 4, 4), sum |-> Cut(b, o + 8, 4), seq |-> Cut(b, o + 12, 4)], 16) ELSE Err

\* The payload a descriptor at offset o designates: [s: "none" | "bad" | "ok", d]
Field(b, o) ==
  LET n == U16(b, o)
      off == U32(b, o + 4)
  IN IF n = 0 THEN [s |-> "none", d |-> <<>>]
     ELSE IF off > Len(b) \/ ~Has(b, off, n) THEN [s |-> "bad", d |-> <<>>]
     ELSE [s |-> "ok", d |-> Cut(b, off, n)]

\* [ok, v]: the option a field holds
TextField(b, o) == LET f == Field(b, o) IN
  CASE f.s = "none" -> [ok |-> TRUE, v |-> <<>>]
    [] f.s = "bad"  -> [ok |-> FALSE, v |-> <<>>]
    [] f.s = "ok"   -> [ok |-> TRUE, v |-> <<Utf16Prefix(f.d).t>>]
OemField(b, o) == LET f == Field(b, o)
                      t == Utf8Decode(f.d) IN
  CASE f.s = "none" -> [ok |-> TRUE, v |-> <<>>]
    [] f.s = "bad"  -> [ok |-> FALSE, v |-> <<>>]
    [] f.s = "ok"   -> [ok |-> t # <<>>, v |-> t]
ParsedField(b, o, dec(_, _)) == LET f == Field(b, o) IN
  CASE f.s = "none" -> [ok |-> TRUE, v |-> <<>>]
    [] f.s = "bad"  -> [ok |-> FALSE, v |-> <<>>]
    [] f.s = "ok"   -> LET r == dec(f.d, 0) IN IF r.s = "ok" THEN [ok |-> TRUE, v |-> <<r.v>>] ELSE [ok |-> FALSE, v |-> <<>>]
Take16(b, o) == IF Has(b, o, 16) THEN Ok(Cut(b, o, 16), 16) ELSE Err

IsMessage(b, n, type) == Len(b) >= n /\ Cut(b, 0, 8) = Signature /\ Cut(b, 8, 4) = LE32(type)
VerOk(b, o, F)  == VERSION \in F => DecVer(b, o).s = "ok"
VerOf(b, o, F)  == IF VERSION \in F THEN <<DecVer(b, o).v>> ELSE <<>>

DecNeg(b, strict) ==
  IF ~IsMessage(b, NegHeader, 1) THEN Err
  ELSE LET F   == FlagSet(Cut(b, 12, 4))
           dom == OemField(b, 16)
           ws  == OemField(b, 24)
       IN IF (strict /\ Forbidden(F)) \/ ~VerOk(b, 32, F) \/ ~dom.ok \/ ~ws.ok THEN Err
          ELSE Ok([flags |-> F, dom |-> dom.v, ws |-> ws.v, ver |-> VerOf(b, 32, F)], Len(b))

DecChal(b, strict) ==
  IF ~IsMessage(b, ChalHeader, 2) THEN Err
  ELSE LET F  == FlagSet(Cut(b, 20, 4))
           tn == TextField(b, 12)
           ti == ParsedField(b, 40, DecAvs)
           l  == IF ti.v = <<>> THEN <<>> ELSE ti.v[1]
       IN IF \/ strict /\ (Forbidden(F) \/ ~AllZero(Cut(b, 32, 8)))
             \/ ~VerOk(b, 48, F) \/ ~tn.ok \/ ~ti.ok
             \/ l # <<>> /\ l[Len(l)].id # 0
          THEN Err
          ELSE Ok([tn |-> tn.v, flags |-> F, sc |-> Cut(b, 24, 8), ti |-> l, ver |-> VerOf(b, 48, F)], Len(b))

DecAuth(b, strict) ==
  IF ~IsMessage(b, AuthHeader, 3) THEN Err
  ELSE LET F    == FlagSet(Cut(b, 60, 4))
           mo   == AuthHeader + IF VERSION \in F THEN 8 ELSE 0
           nt   == ParsedField(b, 20, DecNt)
           v1   == IF nt.v = <<>> THEN NTLM \in F ELSE nt.v[1].v = 1
           lm   == IF v1 THEN ParsedField(b, 12, DecLm1) ELSE ParsedField(b, 12, DecLm2)
           dom  == TextField(b, 28)
           user == TextField(b, 36)
           ws   == TextField(b, 44)
           key  == IF KEY_EXCH \in F THEN ParsedField(b, 52, Take16) ELSE [ok |-> TRUE, v |-> <<>>]
       IN IF (strict /\ Forbidden(F)) \/ ~VerOk(b, 64, F) \/ ~Has(b, mo, 16)
             \/ ~nt.ok \/ ~dom.ok \/ ~user.ok \/ ~ws.ok \/ ~key.ok
          THEN Err
          ELSE Ok([lm |-> lm.v, nt |-> nt.v, dom |-> dom.v, user |-> user.v, ws |-> ws.v, key |-> key.v,
                   flags |-> F, ver |-> VerOf(b, 64, F), mic |-> Cut(b, mo, 16)], Len(b))

DecK(kind, b, strict) ==
  CASE kind = "neg"  -> DecNeg(b, strict)
    [] kind = "chal" -> DecChal(b, strict)
    [] kind = "auth" -> DecAuth(b, strict)
    [] kind = "ver"  -> DecVer(b, 0)
    [] kind = "flags" -> DecFlags(b, 0, strict)
    [] kind = "ft"   -> IF Has(b, 0, 8) THEN Ok(Cut(b, 0, 8), 8) ELSE Err
    [] kind = "av"   -> DecAv(b, 0)
    [] kind = "avs"  -> DecAvs(b, 0)
    [] kind = "avflags" -> DecAvFlags(b, 0)
    [] kind = "shd"  -> DecShd(b, 0)
    [] kind = "sig"  -> DecSig(b, 0)
    [] kind = "lm"   -> DecLm2(b, 0)
    [] kind = "lm1"  -> DecLm1(b, 0)
    [] kind = "lm2"  -> DecLm2(b, 0)
    [] kind = "nt"   -> DecNt(b, 0)
    [] kind = "nt1"  -> DecNt1(b, 0)
    [] kind = "nt2"  -> DecNt2(b, 0)
    [] kind = "nt3"  -> DecNt3(b, 0)

Kinds == {"neg", "chal", "auth", "ver", "flags", "ft", "av", "avs", "avflags", "shd", "sig",
          "lm", "lm1", "lm2", "nt", "nt1", "nt2", "nt3"}

-----------------------------------------------------------------------------
(* Well-formed values: those that are their own decoded encoding.           *)
WfText(t)  == NoNul(t) /\ \A i \in 1..Len(t) : ~IsHigh(t[i]) /\ ~IsLow(t[i])
WfOptText(o) == o = <<>> \/ (o[1] # <<>> /\ WfText(o[1]))
WfVer(v)   == v[4] = 15
WfVerOpt(o, F) == (o # <<>> <=> VERSION \in F) /\ (o # <<>> => WfVer(o[1]))
WfAv(p)    == (p.id \in TextIds => WfText(p.t)) /\ (p.id = 8 => AllZero(Cut(p.b, 4, 4)))
WfAvs(l)   == \A i \in 1..Len(l) : WfAv(l[i])
WfNt(x)    == (x.v \in {2, 3} => WfAvs(x.ti)) /\ DecNt(EncNt(x), 0).s = "ok" /\ DecNt(EncNt(x), 0).v = x
WfAuth(m)  == /\ WfVerOpt(m.ver, m.flags)
              /\ WfOptText(m.dom) /\ WfOptText(m.user) /\ WfOptText(m.ws)
              /\ m.nt # <<>> => WfNt(m.nt[1])
              /\ (m.lm # <<>> /\ m.nt # <<>>) => (m.lm[1].v = 1 <=> m.nt[1].v = 1)
              /\ (m.lm # <<>> /\ m.nt = <<>>) => (m.lm[1].v = 1 <=> NTLM \in m.flags)
              /\ m.key # <<>> => KEY_EXCH \in m.flags
WfChal(m)  == /\ WfVerOpt(m.ver, m.flags) /\ WfOptText(m.tn) /\ WfAvs(m.ti)
              /\ m.ti # <<>> => m.ti[Len(m.ti)].id = 0
WfNeg(m)   == WfVerOpt(m.ver, m.flags) /\ (m.dom # <<>> => m.dom[1] # <<>>) /\ (m.ws # <<>> => m.ws[1] # <<>>)
Wf(kind, v) ==
  CASE kind = "neg"  -> WfNeg(v)   [] kind = "chal" -> WfChal(v)  [] kind = "auth" -> WfAuth(v)
    [] kind = "ver"  -> WfVer(v)   [] kind = "av"   -> WfAv(v)    [] kind = "avs" -> WfAvs(v)
    [] kind = "shd"  -> AllZero(Cut(v, 4, 4))
    [] kind = "lm"   -> v.v = 2    \* on its own, an LM response is read as LMv2
    [] kind \in {"nt", "nt1", "nt2", "nt3"} -> WfNt(v)
    [] OTHER -> TRUE
=============================================================================
