----------------------------- MODULE Converting -----------------------------
(* Conversions between plain values and structures.                         *)
EXTENDS Machine, Json

CONSTANTS Model, Depth, Export

Conv(f, a) == [op |-> "conv", f |-> f, a |-> a]
T(s)    == Ascii(s)
Good    == <<10, 0, 99, 69, 0, 0, 0, 15>>
Octets(n) == {[i \in 1..n |-> (i * 37) % 256], Zeros(n), [i \in 1..n |-> 255]}
Texts   == {<<>>, T("a"), T("Domain"), <<228, 128512, 97>>, <<65535, 57344>>, T("with space "), <<0>>, <<97, 0, 98>>, [i \in 1..300 |-> 98], <<223, 305>>}
Avs     == {[id |-> i, t |-> T("x"), b |-> <<>>] : i \in TextIds}
           \cup {EOL, [id |-> 6, t |-> <<>>, b |-> <<1, 0, 1>>], [id |-> 7, t |-> <<>>, b |-> Zeros(8)],
                 [id |-> 8, t |-> <<>>, b |-> LE32(48) \o Zeros(44)], [id |-> 10, t |-> <<>>, b |-> MD5(<<>>)]}
Sizes   == [ServerChallenge |-> 8, ClientChallenge |-> 8, SessionBaseKey |-> 16, KeyExchangeKey |-> 16, ExportedSessionKey |-> 16,
            EncryptedRandomSessionKey |-> 16, NtProofStr |-> 16, Response16 |-> 16, Response24 |-> 24, Mic |-> 16, RandomPad |-> 4]
Ops == {Conv("ver3", <<a, b, c>>) : a \in {0, 6, 10, 255}, b \in {0, 1, 15, 255}, c \in {0, 1, 255, 256, 17763, 65535}}
       \cup {Conv("ver8", ToHex([Good EXCEPT ![i] = v])) : i \in 1..8, v \in {0, 1, 14, 15, 16, 128, 255}}
       \cup {Conv("ver8", ToHex(b)) : b \in Octets(8)}
       \cup {Conv("lm1", ToHex(b)) : b \in Octets(8)}
       \cup {Conv("lm2", <<ToHex(a), ToHex(h), ToHex(b)>>) : a \in Octets(8), h \in Octets(16), b \in Octets(8)}
       \cup {Conv("lmfrom", [v |-> 1, r |-> ToHex(b)]) : b \in Octets(24)}
       \cup {Conv("lmfrom", [v |-> 2, r |-> ToHex(b), cc |-> ToHex(c)]) : b \in Octets(16), c \in Octets(8)}
       \cup {Conv("ntfrom", [v |-> 1, r |-> ToHex(b)]) : b \in Octets(24)}
       \cup {Conv("ntfrom", [v |-> 2, ts |-> JsonFt(f), cc |-> ToHex(c), ti |-> JsonAvs(<<EOL>>)]) : f \in Octets(8), c \in Octets(8)}
       \cup {Conv("ntfrom", [v |-> 3, p |-> ToHex(p), ts |-> JsonFt(f), cc |-> "0102030405060708", ti |-> JsonAvs(<<p2, EOL, EOL>>)]) : f \in Octets(8), p \in Octets(16), p2 \in Avs}
       \cup {Conv(f, ToHex(b)) : f \in {"key", "kek"}, b \in Octets(16)}
       \cup {Conv("bytes", <<k, ToHex(b)>>) : k \in {"Mic"}, b \in {}}
       \cup UNION {{Conv("bytes", <<k, ToHex(b)>>) : b \in Octets(Sizes[k]) \cup {[i \in 1..Sizes[k] |-> IF i = j THEN v ELSE 0] : j \in 1..Sizes[k], v \in {1, 16, 160}}} : k \in DOMAIN Sizes}
       \cup {Conv("text", t) : t \in Texts}
       \cup {Conv("avid", JsonAv(p)) : p \in Avs}

VARIABLES op, ev, broken
vars == <<op, ev, broken>>
Init == op \in Ops /\ ev = <<>> /\ broken = {}
Next == /\ ev = <<>>
        /\ LET e == Perform(InitSystem, op, Nonce(0)) IN
           /\ ev' = <<e>>
           /\ broken' = Judgement(InitSystem, e, InitSystem)
        /\ UNCHANGED op
Spec == Init /\ [][Next]_vars
Accepted == broken = {} \/ (PrintT("BROKEN " \o ToString(broken)) /\ FALSE)

\* a version of eight bytes is the one whose bytes they are
VersionsAreBytes == (op.op = "conv" /\ op.f = "ver8" /\ ev # <<>>) =>
   LET g == ev[1].got IN IF g = <<>> THEN \A v \in {<<a, b, c, 15>> : a \in {0, 10}, b \in {0}, c \in {0, 17763}} : EncVer(v) # Unhex(op.a)
                         ELSE EncVer(g[1]) = Unhex(op.a)
\* an LMv2 response made from parts verifies
LmVerifies == (op.op = "conv" /\ op.f = "lm2" /\ ev # <<>>) =>
   VerifyLmV2([lm |-> Unhex(ev[1].got)], Unhex(op.a[2]), Unhex(op.a[1])) /\ Cut(Unhex(ev[1].got), 16, 8) = Unhex(op.a[3])
Printed == (Export /\ ev # <<>>) => PrintT("SCENARIO " \o ToJson(<<op>>))
=============================================================================
