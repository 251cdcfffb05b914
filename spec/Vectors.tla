------------------------------ MODULE Vectors ------------------------------
(* Anchors of the specification outside of itself: the worked example of    *)
(* MS-NLMP 4.2 and known instants.                                          *)
EXTENDS Server, Client

User == Ascii("User")  Dom == Ascii("Domain")  Pw == Ascii("Password")
Sc == Unhex("0123456789abcdef")
Cc == Unhex("aaaaaaaaaaaaaaaa")
Rk == Unhex("55555555555555555555555555555555")
Nth == NtHash(Pw)
Lmh == LmHash(Pw)
V2h == V2Hash(User, Nth, Dom)
Infos == <<[id |-> 2, t |-> Dom, b |-> <<>>], [id |-> 1, t |-> Ascii("Server"), b |-> <<>>], EOL>>
V2Blob == Blob(Zeros(8), Cc, Append(Infos, EOL))

\* 4.2.2 NTLMv1
ASSUME Lmh = Unhex("e52cac67419a9a224a3b108f3fa6cb6d")
ASSUME Nth = Unhex("a4f49c406510bdcab6824ee7c30fd852")
ASSUME SbkV1(Nth) = Unhex("d87262b0cde4b1cb7499becccdf10784")
ASSUME NtV1Plain(Nth, Sc) = Unhex("67c43011f30298a2ad35ece64f16331c44bdbed927841f94")
ASSUME LmV1Plain(Lmh, Sc) = Unhex("98def7b87f88aa5dafe2df779688a172def11c7d5ccdef13")
ASSUME Kek({}, SbkV1(Nth), Cut(LmV1Plain(Lmh, Sc), 0, 8), Lmh, Sc) = SbkV1(Nth)
ASSUME Kek({NON_NT}, SbkV1(Nth), Cut(LmV1Plain(Lmh, Sc), 0, 8), Lmh, Sc) = Unhex("e52cac67419a9a220000000000000000")
ASSUME Kek({LM_KEY}, SbkV1(Nth), Cut(LmV1Plain(Lmh, Sc), 0, 8), Lmh, Sc) = Unhex("b09e379f7fbecb1eaf0afdcb0383c8a0")
ASSUME Rc4(SbkV1(Nth), Rk) = Unhex("518822b1b3f350c8958682ecbb3e3cb7")
ASSUME Rc4(Unhex("e52cac67419a9a220000000000000000"), Rk) = Unhex("7452ca55c225a1ca04b48fae32cf56fc")
ASSUME Rc4(Unhex("b09e379f7fbecb1eaf0afdcb0383c8a0"), Rk) = Unhex("4cd7bb57d697ef9b549f02b8f9b37864")
\* 4.2.3 NTLMv1 with client challenge
ASSUME NtV1Ess(Nth, Sc, Cc) = Unhex("7537f803ae367128ca458204bde7caf81e97ed2683267232")
ASSUME Kek({ESS}, SbkV1(Nth), Cc, Lmh, Sc) = Unhex("eb93429a8bd952f8b89c55b87f475edc")
\* 4.2.4 NTLMv2
ASSUME V2h = Unhex("0c868a403bfd7a93a3001ef22ef02e3f")
ASSUME LmV2(V2h, Sc, Cc) = Unhex("86c35097ac9cec102554764a57cccc19aaaaaaaaaaaaaaaa")
ASSUME ProofV2(V2h, Sc, V2Blob) = Unhex("68cd0ab851e51c96aabc927bebef6a1c")
ASSUME SbkV2(V2h, ProofV2(V2h, Sc, V2Blob)) = Unhex("8de40ccadbc14a82f15cb0ad0de95ca3")
ASSUME Rc4(Unhex("8de40ccadbc14a82f15cb0ad0de95ca3"), Rk) = Unhex("c5dad2544fc9799094ce1ce90bc9d03e")

\* 4.2.4.3: the AUTHENTICATE message of the example
ASSUME DecAv(Unhex("02000c0044006f006d00610069006e00"), 0).v = Infos[1]

\* instants: 1601-01-01, 1970-01-01, 2000-01-01 and the last 100 ns of 64 bits
Ft(s) == Rev(Unhex(s))
ASSUME Low(Ticks(Ft("0000000000000000"), 0), 8) = Ft("019db1ded53e8000")
ASSUME Low(Ticks(Ft("00000000386d4380"), 0), 8) = Ft("01bf53eb256d4000")
ASSUME Low(Ticks(Ft("00000000386d4380"), 199), 8) = Ft("01bf53eb256d4001")
ASSUME Instant(Zeros(8)).neg /\ NumEq(Instant(Zeros(8)).secs, Ft("00000002b6109100"))
ASSUME Instant(Ft("01bf53eb256d4001")) .nanos = 100 /\ NumEq(Instant(Ft("01bf53eb256d4001")).secs, Ft("00000000386d4380"))
ASSUME ~Fits(Ticks(Ft("0000000fffffffff"), 0), 8) <=> FALSE
ASSUME ~Fits(Ticks(Ft("000000ffffffffffff"), 0), 8)

VARIABLE x
Spec == x = 0 /\ [][FALSE]_x
=============================================================================
