------------------------------- MODULE Coding -------------------------------
(* The wire format: values of every kind encoded and decoded, and messages  *)
(* as other implementations and attackers write them - payloads in any      *)
(* order, with gaps, overlapping, cut, with any byte changed, with any      *)
(* length and offset. `expect` is what the construction says about the      *)
(* result, independently of the decoder of Wire.tla.                        *)
EXTENDS Machine, Json

CONSTANTS Model, Depth, Export

VARIABLES op, expect, ev, broken
vars == <<op, expect, ev, broken>>

Unsaid   == [s |-> "any", v |-> <<>>]
Value(v) == [s |-> "ok",  v |-> v]
Refused  == [s |-> "err", v |-> <<>>]
T(s)     == Ascii(s)
Dec1(k, b) == [op |-> "dec", o |-> 0, kind |-> k, raw |-> ToHex(b)]
Rt(k, v)   == [op |-> "rt", kind |-> k, val |-> Json(k, v)]
Messages == {"neg", "chal", "auth"}

-----------------------------------------------------------------------------
(* Universes of values *)
Version   == <<10, 0, 17763, 15>>
Vers(x)   == {<<>>, <<Version>>}
WithVer(F, v) == IF v = <<>> THEN F \ {VERSION} ELSE F \cup {VERSION}
Mixed     == <<228, 128512, 97>>
\* what text processing tends to treat specially, in front, at the end and alone
Special   == {65279, 65534, 65535, 65533, 8203, 8238, 8232, 160, 304, 837, 769, 57344, 55295, 1114111, 65536, 1, 9, 10, 13, 32, 34, 46, 64, 92, 127, 128, 255, 256}
Peculiar  == {<<c>> : c \in Special} \cup {<<c, 97>> : c \in Special} \cup {<<97, c>> : c \in Special}
OptTexts(x) == {<<>>, <<T("Some.Name")>>, <<Mixed>>}
FewTexts(x) == {<<>>, <<Mixed>>}
Plain(i, t) == [id |-> i, t |-> t, b |-> <<>>]
Raw(i, b)   == [id |-> i, t |-> <<>>, b |-> b]
Items(x)  == {Plain(1, T("SRV")), Plain(2, <<>>), Plain(4, Mixed), Raw(6, <<1, 0, 1>>), Raw(7, <<1, 2, 3, 4, 5, 6, 7, 8>>),
              Raw(8, LE32(48) \o Zeros(4) \o MD5(<<1>>) \o MD5(<<2>>) \o Zeros(8)), Raw(10, MD5(<<3>>))}
Lists(x)  == UNION {[1..n -> Items(0)] : n \in 0..Depth}
Chals(x)  == {[tn |-> tn, flags |-> WithVer(F, v), sc |-> sc, ti |-> IF l = <<>> THEN <<>> ELSE Append(l, EOL), ver |-> v] :
                tn \in OptTexts(0), F \in {{}, {UNICODE, TARGET_INFO, REQUEST_TARGET}, Bits}, sc \in {<<1, 2, 3, 4, 5, 6, 7, 8>>},
                l \in Lists(0), v \in Vers(0)}
Negs(x)   == {[flags |-> WithVer(F, v), dom |-> d, ws |-> w, ver |-> v] :
                F \in {{}, {UNICODE}, {UNICODE, OEM_DOMAIN, OEM_WORKSTATION}, Bits}, d \in OptTexts(0), w \in OptTexts(0), v \in Vers(0)}
Lms       == {[v |-> 1, r |-> MD5(<<4>>) \o Zeros(8)], [v |-> 2, r |-> MD5(<<5>>), cc |-> <<9, 8, 7, 6, 5, 4, 3, 2>>]}
Nts(x)    == {[v |-> 1, r |-> MD5(<<6>>) \o Zeros(8)]}
             \cup {[v |-> 2, ts |-> Zeros(8), cc |-> <<1, 1, 1, 1, 1, 1, 1, 1>>, ti |-> l] : l \in {<<>>, <<EOL>>, <<Plain(1, T("S")), EOL>>}}
             \cup {[v |-> 3, p |-> MD5(<<7>>), ts |-> Zeros(8), cc |-> <<2, 2, 2, 2, 2, 2, 2, 2>>, ti |-> l] :
                     l \in {<<EOL, EOL>>, <<Plain(3, Mixed), Raw(7, Zeros(8)), EOL, EOL>>}}
AuthVals(x) == {[lm |-> lm, nt |-> nt, dom |-> d, user |-> u, ws |-> w, key |-> k,
                 flags |-> WithVer(IF k = <<>> THEN F ELSE F \cup {KEY_EXCH}, v), ver |-> v, mic |-> MD5(<<8>>)] :
                 lm \in {<<>>} \cup {<<l>> : l \in Lms}, nt \in {<<>>} \cup {<<n>> : n \in Nts(0)}, d \in FewTexts(0), u \in OptTexts(0),
                 w \in FewTexts(0), k \in {<<>>, <<MD5(<<9>>)>>}, F \in {{UNICODE}, {UNICODE, NTLM}}, v \in Vers(0)}
Auths(x)  == {m \in AuthVals(0) : WfAuth(m)}
Avs1(x)   == {Plain(i, t) : i \in TextIds, t \in {<<>>, T("x"), Mixed} \cup Peculiar} \cup Items(0) \cup {EOL}
             \cup {Raw(6, <<a, b, c>>) : a \in {0, 1}, b \in {0, 1}, c \in {0, 1}}
Named(x)  == {[tn |-> <<t>>, flags |-> {UNICODE}, sc |-> <<1, 2, 3, 4, 5, 6, 7, 8>>, ti |-> <<>>, ver |-> <<>>] : t \in Peculiar}
Titled(x) == {[flags |-> {UNICODE}, dom |-> <<t>>, ws |-> <<Rev(t)>>, ver |-> <<>>] : t \in Peculiar}
Signed(x) == {[lm |-> <<>>, nt |-> <<>>, dom |-> <<t>>, user |-> <<Rev(t)>>, ws |-> <<t \o t>>, key |-> <<>>, flags |-> {UNICODE}, ver |-> <<>>, mic |-> MD5(<<8>>)] : t \in Peculiar}
Values(k) == CASE k = "neg" -> Negs(0) \cup Titled(0) [] k = "chal" -> Chals(0) \cup Named(0) [] k = "auth" -> Auths(0) \cup Signed(0)
               [] k = "ver" -> {<<a, b, c, 15>> : a \in {0, 6, 255}, b \in {0, 1, 255}, c \in {0, 1, 256, 65535}}
               [] k = "flags" -> {{b} : b \in Bits} \cup {{a, b} : a \in Bits, b \in Bits} \cup {Bits \ {b} : b \in Bits} \cup {{}, Bits}
               [] k = "ft" -> {[i \in 1..8 |-> IF i = j THEN b ELSE 0] : j \in 1..8, b \in {0, 1, 128, 255}} \cup {[i \in 1..8 |-> 255]}
               [] k = "av" -> Avs1(0)
               [] k = "avs" -> UNION {[1..n -> Items(0) \cup {EOL}] : n \in 0..2}
               [] k = "avflags" -> [1..3 -> {0, 1}]
               [] k = "shd" -> {LE32(48) \o Zeros(4) \o MD5(<<1>>) \o MD5(<<2>>) \o Zeros(8), Zeros(48)}
               [] k = "sig" -> {[pad |-> p, sum |-> s, seq |-> q] : p \in {Zeros(4), <<1, 2, 3, 4>>}, s \in {Zeros(4), <<255, 0, 128, 1>>}, q \in {Zeros(4), <<0, 0, 0, 255>>}}
               [] k \in {"lm", "lm1", "lm2"} -> {l \in Lms : k # (IF l.v = 1 THEN "lm2" ELSE "lm1") /\ (k = "lm" => l.v = 2)}
               [] k \in {"nt", "nt1", "nt2", "nt3"} -> {n \in Nts(0) : k \in {"nt", "nt" \o ToString(n.v)}}

-----------------------------------------------------------------------------
(* Messages written in other ways *)
Fields(k, m) ==
  CASE k = "neg"  -> <<Opt(Utf8, m.dom), Opt(Utf8, m.ws)>>
    [] k = "chal" -> <<Opt(Utf16, m.tn), IF m.ti = <<>> THEN <<>> ELSE <<EncAvs(m.ti)>>>>
    [] k = "auth" -> <<Opt(EncLm, m.lm), Opt(EncNt, m.nt), Opt(Utf16, m.dom), Opt(Utf16, m.user), Opt(Utf16, m.ws), m.key>>
Base(k, m) == (CASE k = "neg" -> NegHeader [] k = "chal" -> ChalHeader [] k = "auth" -> AuthHeader + 16) + IF m.ver = <<>> THEN 0 ELSE 8
Written(k, m, ds, pay) ==
  CASE k = "neg"  -> Signature \o LE32(1) \o FlagBytes(m.flags) \o ds[1] \o ds[2] \o EncVerOpt(m.ver) \o pay
    [] k = "chal" -> Signature \o LE32(2) \o ds[1] \o FlagBytes(m.flags) \o m.sc \o Zeros(8) \o ds[2] \o EncVerOpt(m.ver) \o pay
    [] k = "auth" -> Signature \o LE32(3) \o FlattenSeq(ds) \o FlagBytes(m.flags) \o EncVerOpt(m.ver) \o m.mic \o pay
DescAt(k, i) == CASE k = "neg" -> 8 + 8 * i [] k = "chal" -> IF i = 1 THEN 12 ELSE 40 [] k = "auth" -> 4 + 8 * i
FlagsAt(k)   == CASE k = "neg" -> 12 [] k = "chal" -> 20 [] k = "auth" -> 60
Span(f)      == IF f = <<>> THEN 0 ELSE Len(f[1])
Perms(n)     == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Hole(n)      == [i \in 1..n |-> 238]
\* the payloads in order `p`, each after a hole of g bytes; absent ones with any offset and maximum; t bytes behind
RECURSIVE Before(_, _, _, _)        \* bytes in front of the payload in position j
Before(fs, p, g, j) == IF j = 1 THEN g ELSE Before(fs, p, g, j - 1) + Span(fs[p[j - 1]]) + g
Shuffled(k, m, p, g, t) ==
  LET fs  == Fields(k, m)
      n   == Len(fs)
      pos(i) == CHOOSE j \in 1..n : p[j] = i
      d(i) == IF fs[i] = <<>> THEN <<0, 0, 99, 0, 240, 255, 255, 255>>
              ELSE LE16(Len(fs[i][1])) \o LE16((Len(fs[i][1]) + i) % 65536) \o LE32(Base(k, m) + Before(fs, p, g, pos(i)))
  IN Written(k, m, [i \in 1..n |-> d(i)],
             FlattenSeq([j \in 1..n |-> Hole(g) \o IF fs[p[j]] = <<>> THEN <<>> ELSE fs[p[j]][1]]) \o Hole(t))

SomeNegs(x)  == {[flags |-> WithVer({UNICODE, OEM_DOMAIN}, v), dom |-> d, ws |-> w, ver |-> v] : d \in OptTexts(0), w \in FewTexts(0), v \in Vers(0)}
SomeChals(x) == {[tn |-> tn, flags |-> WithVer({UNICODE, TARGET_INFO}, v), sc |-> <<1, 2, 3, 4, 5, 6, 7, 8>>, ti |-> l, ver |-> v] :
                   tn \in OptTexts(0), v \in Vers(0),
                   l \in {<<>>, <<EOL>>, <<Plain(2, T("DOM")), Raw(7, Zeros(8)), EOL>>, <<Plain(1, Mixed), EOL, Plain(1, T("again")), EOL>>}}
FullAuth(v, w) ==
  [lm |-> <<IF v = 1 THEN [v |-> 1, r |-> MD5(<<4>>) \o Zeros(8)] ELSE [v |-> 2, r |-> MD5(<<5>>), cc |-> <<9, 8, 7, 6, 5, 4, 3, 2>>]>>,
   nt |-> <<IF v = 1 THEN [v |-> 1, r |-> MD5(<<6>>) \o Zeros(8)]
            ELSE [v |-> 3, p |-> MD5(<<7>>), ts |-> Zeros(8), cc |-> <<2, 2, 2, 2, 2, 2, 2, 2>>, ti |-> <<Plain(2, T("DOM")), EOL, EOL>>]>>,
   dom |-> <<T("Dom")>>, user |-> <<Mixed>>, ws |-> <<T("WS")>>, key |-> <<MD5(<<9>>)>>,
   flags |-> WithVer({UNICODE, KEY_EXCH}, w), ver |-> w, mic |-> MD5(<<8>>)]
SomeAuths(x) == {FullAuth(v, w) : v \in {1, 2}, w \in Vers(0)} \cup {[FullAuth(2, <<>>) EXCEPT !.dom = <<>>, !.key = <<>>], [FullAuth(1, <<>>) EXCEPT !.user = <<>>, !.ws = <<>>]}

Layouts ==
  \/ \E m \in SomeNegs(0), p \in Perms(2), g \in {0, 1, 6}, t \in {0, 3} : op = Dec1("neg", Shuffled("neg", m, p, g, t)) /\ expect = Value(m)
  \/ \E m \in SomeChals(0), p \in Perms(2), g \in {0, 1, 6}, t \in {0, 3} : op = Dec1("chal", Shuffled("chal", m, p, g, t)) /\ expect = Value(m)
  \/ \E m \in SomeAuths(0), p \in Perms(6), g \in {0, 1} : op = Dec1("auth", Shuffled("auth", m, p, g, g)) /\ expect = Value(m)

\* payloads on top of each other and of the header
PutD(b, at, n, off) == SubSeq(b, 1, at) \o LE16(n) \o LE16(n) \o LE32(off) \o From(b, at + 8)
Overlaps ==
  \/ \E m \in SomeChals(0), o \in {0, 2, 6} :
       /\ op = Dec1("chal", PutD(EncChal(m), 12, 8 - o, o))
       /\ expect = Value([m EXCEPT !.tn = <<SubSeq(<<21582, 19788, 21331, 80>>, (o \div 2) + 1, 4)>>])
  \/ \E m \in SomeNegs(0), n \in 1..7 :
       /\ op = Dec1("neg", PutD(EncNeg(m), 16, n, 0))
       /\ expect = Value([m EXCEPT !.dom = <<SubSeq(T("NTLMSSP"), 1, n)>>])
  \/ \E m \in SomeNegs(0), n \in 1..4 :      \* both names from the same bytes
       /\ op = Dec1("neg", PutD(PutD(EncNeg(m), 16, n, Base("neg", m)), 24, n + 1, Base("neg", m)) \o T("-----"))
       /\ LET t == SubSeq(FlattenSeq([i \in 1..2 |-> IF Fields("neg", m)[i] = <<>> THEN <<>> ELSE Fields("neg", m)[i][1]]) \o T("-----"), 1, n + 1)
          IN expect = IF \A i \in 1..Len(t) : t[i] < 128 THEN Value([m EXCEPT !.dom = <<SubSeq(t, 1, n)>>, !.ws = <<t>>]) ELSE Unsaid
  \/ \E m \in SomeAuths(0), i \in {3, 4, 5}, j \in {3, 4, 5}, n \in {2, 4} :
       LET b == EncAuth(m)
           o == U32(b, DescAt("auth", i) + 4)
           f == CASE j = 3 -> "dom" [] j = 4 -> "user" [] j = 5 -> "ws"
           src == CASE i = 3 -> m.dom [] i = 4 -> m.user [] i = 5 -> m.ws
       IN /\ op = Dec1("auth", PutD(b, DescAt("auth", j), n, o))
          /\ expect = IF src = <<>> \/ src[1] = Mixed \/ 2 * Len(src[1]) < n THEN Unsaid
                      ELSE Value([m EXCEPT ![f] = <<SubSeq(src[1], 1, n \div 2)>>])

Sample(k) == CASE k = "neg"  -> {EncNeg(m) : m \in SomeNegs(0)}
               [] k = "chal" -> {EncChal(m) : m \in SomeChals(0)}
               [] k = "auth" -> {EncAuth(m) : m \in SomeAuths(0)}
               [] OTHER      -> {Enc(k, v) : v \in Values(k)}
FewOf(k)  == CASE k = "neg"  -> {EncNeg([flags |-> {UNICODE, OEM_DOMAIN, OEM_WORKSTATION, VERSION}, dom |-> <<T("Dom")>>, ws |-> <<Mixed>>, ver |-> <<Version>>])}
               [] k = "chal" -> {EncChal([tn |-> <<Mixed>>, flags |-> {UNICODE, TARGET_INFO} \cup (IF v = <<>> THEN {} ELSE {VERSION}), sc |-> <<1, 2, 3, 4, 5, 6, 7, 8>>,
                                          ti |-> <<Plain(2, T("DOM")), Raw(6, <<1, 1, 0>>), Raw(7, Zeros(8)), Plain(5, Mixed), EOL>>, ver |-> v]) : v \in Vers(0)}
               [] k = "auth" -> {EncAuth(FullAuth(1, <<>>)), EncAuth(FullAuth(2, <<Version>>))}
               [] k = "nt"   -> {EncNt(n) : n \in Nts(0)}
               [] OTHER      -> Sample(k)
\* every proper beginning of a message is refused
Cuts == \E k \in Messages : \E b \in Sample(k) : \E n \in 0..(Len(b) - 1) : op = Dec1(k, SubSeq(b, 1, n)) /\ expect = Refused
\* any one byte changed
Bytes1(v) == {0, 1, 2, 127, 216, 255, (v + 1) % 256, (v + 255) % 256}
Mutants == \E k \in {"neg", "chal", "auth", "ver", "avflags", "shd", "sig", "nt"} : \E b \in FewOf(k) : \E i \in 1..Len(b) : \E v \in Bytes1(b[i]) :
             op = Dec1(k, [b EXCEPT ![i] = v]) /\ expect = Unsaid
\* any two bytes of the descriptors
Ends(b)  == {0, 1, 8, 31, 32, 47, 48, 64, Len(b) - 8, Len(b) - 2, Len(b) - 1, Len(b), Len(b) + 1, 65535, 16777215}
Offs(b)  == {LE32(n) : n \in Ends(b)} \cup {<<0, 0, 0, 128>>, <<255, 255, 255, 127>>, <<255, 255, 255, 255>>, <<255, 255, 255, 254>>, <<0, 0, 1, 0>>, <<56, 0, 0, 1>>}
Lens(b)  == {0, 1, 2, 3, 8, 16, 23, 24, 25, 255, 256, Len(b) - 1, Len(b), Len(b) + 1, 65534, 65535}
Descs == \E k \in Messages : \E b \in FewOf(k) : \E i \in 1..(IF k = "auth" THEN 6 ELSE 2) : \E n \in Lens(b), o \in Offs(b), mx \in {0, 65535} :
           LET at == DescAt(k, i)
               c  == SubSeq(b, 1, at) \o LE16(n) \o LE16(mx) \o o \o From(b, at + 8)
               off == U32(c, at + 4)
               out == n > 0 /\ off + n > Len(b)
               lmIgnored == k = "auth" /\ i = 1      \* an LM response that cannot be read is none
           IN op = Dec1(k, c) /\ expect = IF out /\ ~lmIgnored THEN Refused ELSE Unsaid
\* AV pairs by themselves: any identifier, any length with more or less behind it
AvForms == \E id \in (0..13) \cup {255, 256}, n \in (0..12) \cup {15, 16, 17, 47, 48, 49}, more \in {0 - 1, 0, 1, 4}, c \in {0, 1, 97, 216, 220} :
           LET b == LE16(id) \o LE16(n) \o [i \in 1..(IF n + more < 0 THEN 0 ELSE n + more) |-> c]
           IN \E k \in {"av", "avs"} : op = Dec1(k, b) /\ expect = IF k = "av" /\ (more < 0 \/ id > 10) /\ ~(more < 0 /\ n = 0) THEN Refused ELSE Unsaid
\* words of flags that the strict feature minds, in every message
Minded == {UNICODE, OEM, TARGET_DOMAIN, TARGET_SERVER, ESS, LM_KEY, R1, R10}
FlagWords == \E k \in Messages \cup {"flags"}, F \in SUBSET Minded, N \in {{}, {NTLM, SIGN}} :
  /\ op = Dec1(k, CASE k = "neg"  -> EncNeg([flags |-> F \cup N, dom |-> <<>>, ws |-> <<>>, ver |-> <<>>])
                    [] k = "chal" -> EncChal([tn |-> <<>>, flags |-> F \cup N, sc |-> Zeros(8), ti |-> <<>>, ver |-> <<>>])
                    [] k = "auth" -> EncAuth([DefaultOf("auth") EXCEPT !.flags = F \cup N])
                    [] k = "flags" -> FlagBytes(F \cup N))
  /\ expect = IF Strict /\ (F \cap {R1, R10} # {} \/ F \cap {UNICODE, OEM} = {} \/ {TARGET_DOMAIN, TARGET_SERVER} \subseteq F \/ {ESS, LM_KEY} \subseteq F)
              THEN Refused ELSE Unsaid
ReservedBits == \E k \in Messages \cup {"flags"}, b \in Bits :
  LET F == {UNICODE, b} \ {VERSION} IN
  /\ op = Dec1(k, CASE k = "neg"  -> EncNeg([flags |-> F, dom |-> <<>>, ws |-> <<>>, ver |-> <<>>])
                    [] k = "chal" -> EncChal([tn |-> <<>>, flags |-> F, sc |-> Zeros(8), ti |-> <<>>, ver |-> <<>>])
                    [] k = "auth" -> EncAuth([DefaultOf("auth") EXCEPT !.flags = F])
                    [] k = "flags" -> FlagBytes(F))
  /\ expect = IF Strict /\ F \cap Reserved # {} THEN Refused ELSE Unsaid
ReservedBytes == \E b \in FewOf("chal"), i \in 33..40, v \in {1, 128, 255} : op = Dec1("chal", [b EXCEPT ![i] = v]) /\ expect = IF Strict THEN Refused ELSE Unsaid

-----------------------------------------------------------------------------
AllValues == \E k \in Kinds : \E v \in Values(k) : op = Rt(k, v) /\ expect = IF Wf(k, v) THEN Value(v) ELSE Unsaid
Begin == CASE Model = "values"   -> AllValues
           [] Model = "layouts"  -> Layouts
           [] Model = "overlaps" -> Overlaps
           [] Model = "cuts"     -> Cuts
           [] Model = "mutants"  -> Mutants
           [] Model = "descs"    -> Descs
           [] Model = "avforms"  -> AvForms
           [] Model = "words32"  -> FlagWords \/ ReservedBits \/ ReservedBytes
Init == Begin /\ ev = <<>> /\ broken = {}
Next == /\ ev = <<>>
        /\ LET e == Perform(InitSystem, op, Nonce(0)) IN
           /\ ev' = <<e>>
           /\ broken' = Judgement(InitSystem, e, InitSystem)
        /\ UNCHANGED <<op, expect>>
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Accepted == broken = {} \/ (PrintT("BROKEN " \o ToString(broken)) /\ FALSE)
Result == ev[1]
Has1   == ev # <<>>

\* what the construction says
AsExpected == (Has1 /\ Deviation = "") =>
                /\ expect.s = "ok"  => Result.res = "ok" /\ Val(op.kind, Result.got[1]) = expect.v
                /\ expect.s = "err" => Result.res = "err"

Bytes0 == IF op.op = "dec" THEN Unhex(op.raw) ELSE Enc(op.kind, Val(op.kind, op.val))
\* the strict feature only refuses: nothing else about the result changes
StrictRefines == Has1 =>
  LET b == Bytes0
      l == DecK(op.kind, b, FALSE)
      s == DecK(op.kind, b, TRUE)
  IN /\ s.s = "ok" => l = s
     /\ (l.s = "ok" /\ s.s # "ok") =>
          /\ op.kind \in Messages \cup {"flags"}
          /\ \/ Forbidden(IF op.kind = "flags" THEN l.v ELSE l.v.flags)
             \/ op.kind = "chal" /\ ~AllZero(Cut(b, 32, 8))

\* bytes that nothing points at do not count
TailIgnored == (Has1 /\ op.kind \in Messages) =>
  LET b == Bytes0
      r == DecK(op.kind, b, Strict)
      q == DecK(op.kind, b \o <<1, 2, 3>>, Strict)
      lmOut == op.kind = "auth" /\ ~Desc(b, 12).ok      \* an LM response that cannot be read is none
  IN (r.s = "ok" /\ ~lmOut) => q.s = "ok" /\ q.v = r.v /\ q.n = r.n + 3

\* decoding, encoding and decoding again is decoding
Stable == Has1 =>
  LET r == DecK(op.kind, Bytes0, FALSE)
  IN (r.s = "ok" /\ Wf(op.kind, r.v)) => LET q == DecK(op.kind, Enc(op.kind, r.v), FALSE) IN q.s = "ok" /\ q.v = r.v

\* an encoded message is laid out as another reader expects it
Readable == (Has1 /\ op.op = "rt" /\ op.kind \in Messages) =>
  LET b == Bytes0
      v == Val(op.kind, op.val)
      n == IF op.kind = "auth" THEN 6 ELSE 2
      d == TLCEval([i \in 1..n |-> Desc(b, DescAt(op.kind, i))])
      fs == Fields(op.kind, v)
  IN /\ \A i \in 1..n : d[i].ok /\ d[i].d = IF fs[i] = <<>> THEN <<>> ELSE fs[i][1]
     /\ LaidOut(b, d, Base(op.kind, v))
     /\ FlagSet(Cut(b, FlagsAt(op.kind), 4)) = v.flags

Printed == (Export /\ Has1) => PrintT("SCENARIO " \o ToJson(<<op>>))
=============================================================================
