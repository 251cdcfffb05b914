----------------------------- MODULE Handshake -----------------------------
(* The design: clients in an environment, a server and a network that may   *)
(* repeat, hold back, alter and make up challenges, and callers that call   *)
(* in any order. TLC explores every behaviour of a model; each step is      *)
(* carried out by Machine.tla (the prescribed implementation, or one with a *)
(* Deviation) and judged by Judge.tla, that is by an MS-NLMP server and     *)
(* observer that share no definition with the client but the primitives.    *)
(* Behaviours are printed as scenarios, which the real crate then executes. *)
EXTENDS Machine, Json

CONSTANTS Model,     \* which family of behaviours
          Levels,    \* compatibility levels
          Depth,     \* number of steps after the set-up
          Export     \* print scenarios?

-----------------------------------------------------------------------------
(* Operations *)
T(s)        == Ascii(s)                          \* an ASCII string as a text
NewParts(i, lvl, u, d, pw) == [op |-> "new", c |-> i, level |-> lvl, via |-> "parts", user |-> u, dom |-> d, pw |-> pw, target |-> T("HTTP")]
NewAccount(i, lvl, a, pw)  == [op |-> "new", c |-> i, level |-> lvl, via |-> "account", acct |-> a, pw |-> pw, target |-> T("HTTP")]
Neg(i)      == [op |-> "neg", c |-> i]
Auth(i)     == [op |-> "auth", c |-> i]
Chal(i, h)  == [op |-> "chal", c |-> i, raw |-> h]
Ver(i, v)   == [op |-> "ver", c |-> i, ver |-> v]
Env(k, b)   == [op |-> "env", k |-> k, v |-> <<ToHex(b)>>]
HostFails(n) == [op |-> "host", v |-> <<>>, err |-> n]
Clock(s, n) == [op |-> "clock", t |-> <<<<s, n>>>>]
ClockRuns   == [op |-> "clock", t |-> <<>>]
Host(b)     == [op |-> "host", v |-> <<ToHex(b)>>]

\* challenges, as bytes in hexadecimal
Ft(n)       == LE32(n) \o <<170, 187, 217, 1>>
TimeAv(n)   == [id |-> 7, t |-> <<>>, b |-> Ft(n)]
NameAv(i, s) == [id |-> i, t |-> T(s), b |-> <<>>]
ChalVal(F, n, ti) == [tn |-> IF n % 2 = 0 THEN <<T("Target")>> ELSE <<>>, flags |-> F, sc |-> Cut(MD5(<<99, n>>), 0, 8), ti |-> ti,
                      ver |-> IF VERSION \in F THEN <<<<10, 0, 17763, 15>>>> ELSE <<>>]
Hx(v)       == ToHex(EncChal(v))
Typical     == {UNICODE, REQUEST_TARGET, SIGN, NTLM, ESS, TARGET_INFO, N128, KEY_EXCH}
ChalA       == Hx(ChalVal(Typical \cup {VERSION, TARGET_SERVER}, 1, <<NameAv(2, "CORP"), NameAv(1, "SRV"), TimeAv(1), EOL>>))
ChalB       == Hx(ChalVal({UNICODE, OEM, SEAL, NTLM, KEY_EXCH}, 2, <<NameAv(3, "other.example.org"), EOL>>))
ChalZ       == Hx(ChalVal({UNICODE, NTLM}, 3, <<>>))
Broken      == ToHex(Cut(EncChal(ChalVal(Typical, 1, <<NameAv(1, "SRV"), EOL>>)), 0, 57))

Texts(n, S) == UNION {[1..k -> S] : k \in 0..n}

-----------------------------------------------------------------------------
(* The models: sets of [setup, letters, word]: after the set-up, the steps  *)
(* are those of `word`, or any of `letters` when there is no word.          *)
Plan(setup, letters, word) == [setup |-> setup, letters |-> letters, word |-> word]
User == T("user")  Dom == T("Domain")  Pw == T("Passw0rd")
Std(lvl) == NewParts(0, lvl, User, Dom, Pw)
Answer(i, h) == <<Neg(i), Chal(i, h), Auth(i)>>

KeyBits == {KEY_EXCH, SIGN, SEAL, ESS, LM_KEY, NON_NT}
OtherBits == (Bits \ KeyBits) \ {VERSION}

\* every order of calls on one client, with two challenges
Words(Ls) == {Plan(<<Std(l)>>, {Neg(0), Chal(0, ChalA), Chal(0, ChalB), Auth(0)}, <<>>) : l \in Ls}
\* the same with bytes that are no challenge, and with the version set and cleared in between
WordsMore(Ls) == {Plan(<<Std(l)>>, {Neg(0), Chal(0, ChalA), Chal(0, Broken), Auth(0), Ver(0, <<<<6, 1, 7601, 15>>>>)}, <<>>) : l \in Ls}
\* two clients of one process
WordsTwo(Ls) == {Plan(<<Std(l), NewParts(1, 5 - l, User, Dom, Pw)>>,
                  {Neg(0), Neg(1), Chal(0, ChalA), Chal(1, ChalA), Auth(0), Auth(1)}, <<>>) : l \in Ls}
\* two handshakes of one client, the second one with any of the challenges
Again(Ls) == {Plan(<<Std(l)>> \o Answer(0, a), {}, Answer(0, b)) : l \in Ls, a \in {ChalA, ChalB, ChalZ}, b \in {ChalA, ChalB, ChalZ}}

\* every combination of the flags that decide about responses and keys, a version set or not
Flags1(lvl, F, v) == Plan(<<NewParts(0, lvl, User, Dom, Pw)>> \o (IF v THEN <<Ver(0, <<<<10, 0, 19041, 15>>>>)>> ELSE <<>>), {},
                          Answer(0, Hx(ChalVal(F, Cardinality(F), <<NameAv(2, "CORP"), TimeAv(7), EOL>>))))
FlagModel(Ls) == {Flags1(l, F \cup {UNICODE, NTLM, TARGET_INFO}, v) : l \in Ls, F \in SUBSET KeyBits, v \in {FALSE, TRUE}}
\* every single bit on top of, or missing from, a few words
BitModel(Ls) == {Flags1(l, F, FALSE) : l \in Ls,
             F \in {{b} : b \in Bits} \cup {Bits \ {b} : b \in Bits} \cup {Typical \cup {b} : b \in Bits} \cup {Typical \ {b} : b \in Bits}}

\* target information: every list of up to three items
InfoItems == {NameAv(1, "SRV"), NameAv(2, ""), TimeAv(1), TimeAv(2), [id |-> 6, t |-> <<>>, b |-> <<0, 1, 0>>],
              [id |-> 10, t |-> <<>>, b |-> MD5(<<1>>)]}
InfoModel(Ls) == {Plan(<<Std(l)>>, {}, Answer(0, Hx(ChalVal(Typical, 4, IF q = <<>> THEN <<>> ELSE Append(q, EOL))))) :
                l \in Ls, q \in Texts(Depth, InfoItems)}

\* names around the separators
AccountModel(Ls) == {Plan(<<NewAccount(0, l, a, Pw)>>, {}, Answer(0, ChalA)) : l \in Ls, a \in Texts(Depth, {97, 92, 64, 201})}
\* host names and computer names
HostModel(Ls) == {Plan(<<Host(h), Std(l)>>, {}, Answer(0, ChalA)) : l \in Ls, h \in Texts(Depth, {104, 46, 10, 13, 32})}
             \cup {Plan(<<Env("COMPUTERNAME", n), Host(T("fallback.example")), Std(l)>>, {}, Answer(0, ChalA)) :
                     l \in Ls, n \in {<<>>, T("PC"), T("pc.dom"), T(" "), <<255>>, <<195, 159>>}}
             \cup {Plan(<<Std(l)>>, {}, Answer(0, ChalA)) : l \in Ls}
             \cup {Plan(<<Env("COMPUTERNAME", n), HostFails(x), Std(l)>>, {}, Answer(0, ChalA)) :
                     l \in Ls, n \in {T("PC"), <<255>>}, x \in {1, 2, 5, 12, 13, 21, 24, 40}}
             \cup {Plan(<<HostFails(x), Std(l)>>, {}, Answer(0, ChalA)) : l \in Ls, x \in {1, 2, 5, 12, 13, 21, 24, 40}}

\* passwords: every length around the boundaries of the LM hash, and what is not ASCII
PwOf(n) == SubSeq(T("aB3$xyZ9!mnOPqrs7"), 1, n)
Odd == {<<223>>, <<233, 97, 98>>, <<128512, 97>>, <<305, 304>>, [i \in 1..14 |-> 233], [i \in 1..7 |-> 223], T("ALLUPPERCASE"), T("abcdefg"), T("abcdefgh")}
PwModel(Ls) == {Plan(<<NewParts(0, l, User, Dom, p)>>, {}, Answer(0, Hx(ChalVal(F, 6, <<NameAv(2, "CORP"), EOL>>)))) :
              l \in Ls, p \in {PwOf(n) : n \in 0..17} \cup Odd, F \in {Typical, Typical \ {ESS}, {UNICODE, NTLM, LM_KEY}, {UNICODE, NON_NT}}}
\* users and domains
NameModel(Ls) == {Plan(<<NewParts(0, l, u, d, Pw)>>, {}, Answer(0, ChalA)) :
                l \in Ls, u \in {<<>>, T("u"), T("UsEr"), <<252, 223>>, <<128512>>, T("a@b"), T("a\\b")},
                d \in {<<>>, T("d"), T("MiXed.Case"), <<228, 196>>, <<66560>>, T("x@y")}}

\* many answers to few challenges
FreshModel(Ls) == {Plan(<<Std(l), NewParts(1, l, User, Dom, Pw)>> \o k0, {},
                    FlattenSeq([k \in 1..Depth |-> Answer(k % 2, IF k % 3 = 0 THEN ChalB ELSE ChalA) \o <<Auth(k % 2)>>])) :
                     l \in Ls, k0 \in {<<>>, <<Clock("0000000065f00000", 0)>>}}

\* what must not matter: other clients, what the slot held before, the environment later on, the target
EnvOff(k)   == [op |-> "env", k |-> k, v |-> <<>>]
Other(i, lvl) == NewParts(i, lvl, T("somebody"), T("ELSE.example"), T("An0ther pass"))
Strangers(Ls) == {Plan(<<Env("COMPUTERNAME", T("PC-1")), Std(l), Env("COMPUTERNAME", T("pc-2")), Other(1, m)>>,
                       {Neg(0), Neg(1), Chal(0, ChalA), Chal(1, ChalB), Auth(0), Auth(1)}, <<>>) : l \in Ls, m \in {5 - x : x \in Ls}}
LateEnv(Ls) == {Plan(<<Env("COMPUTERNAME", T("PC-1")), Std(l)>>,
                     {Env("COMPUTERNAME", T("pc-2")), EnvOff("COMPUTERNAME"), Host(T("late")), Neg(0), Chal(0, ChalA), Auth(0)}, <<>>) : l \in Ls}
Replaced(Ls) == {Plan(<<a>> \o Answer(0, x) \o <<b>>, {}, Answer(0, y) \o <<Auth(0)>>) :
                   l \in Ls, a \in {Std(y1) : y1 \in Ls} \cup {Other(0, y1) : y1 \in Ls}, b \in {Std(y1) : y1 \in Ls}, x \in {ChalA, ChalB}, y \in {ChalA, ChalZ}}
TargetModel(Ls) == {Plan(<<[Std(l) EXCEPT !.target = t]>>, {}, Answer(0, ChalA)) : l \in Ls, t \in {<<>>, T("HTTP"), T("HTTP/server.example.org"), <<252, 128512>>, T("user"), T("cifs/files"), T("ldap/dc.corp/corp"), T("*")}}

\* a second handshake with another version (or none), whatever became of the first
Renegotiate(Ls) == LET vs == {<<>>, <<<<6, 1, 7601, 15>>>>, <<<<10, 0, 19041, 15>>>>} IN
                   {Plan(<<Std(l), Ver(0, a)>> \o SubSeq(Answer(0, ChalA), 1, k), {}, <<Ver(0, b)>> \o Answer(0, h)) :
                      l \in Ls, a \in vs, b \in vs, k \in 1..3, h \in {ChalA, ChalB}}
\* everything that may be empty, empty or not, in every combination
Corners(Ls) == {Plan((IF w THEN <<Env("COMPUTERNAME", T("PC"))>> ELSE <<>>) \o <<NewParts(0, l, u, d, p)>>
                       \o (IF v THEN <<Ver(0, <<<<10, 0, 19041, 15>>>>)>> ELSE <<>>), {},
                     Answer(0, Hx(ChalVal(F, n, ti)))) :
                  l \in Ls, w \in BOOLEAN, v \in BOOLEAN, u \in {<<>>, User}, d \in {<<>>, Dom}, p \in {<<>>, Pw}, n \in {1, 2},
                  ti \in {<<>>, <<EOL>>, <<NameAv(2, "CORP"), EOL>>, <<TimeAv(1), EOL>>},
                  F \in {Typical, {UNICODE, NTLM, LM_KEY}}}

\* where the clock stands when NEGOTIATE is sent, and where when AUTHENTICATE is
Moments == {Clock(s, n) : s \in {"0000000000000000", "000000007fffffff", "0000000080000000", "00000000ffffffff", "0000000100000000", "000000d409b4a400", "000000d409b49eff"},
                          n \in {0, 99, 100, 999999999}}
Clocks(Ls) == {Plan(<<Std(l), a, Neg(0), Chal(0, h), b>>, {}, <<Auth(0), Clock("0000000065f00001", 7), Auth(0)>>) :
                 l \in Ls, a \in {Clock("0000000065f00000", 5), Clock("00000000ffffffff", 999999999), ClockRuns}, b \in Moments, h \in {ChalA, ChalB}}
\* clients of no level
Beyond(Ls) == {Plan(<<Std(l), NewParts(1, 3, User, Dom, Pw)>>, {Neg(0), Chal(0, ChalA), Auth(0), Neg(1)}, <<>>) : l \in {6, 4294967}}

\* one client, used again and again
Often(Ls) == {Plan(<<Std(l)>> \o p[1], {}, FlattenSeq([k \in 1..Depth |-> p[2]]) \o p[3]) : l \in Ls,
                p \in {<<<<>>, Answer(0, ChalA), <<>>>>, <<<<>>, <<Neg(0)>>, SubSeq(Answer(0, ChalA), 2, 3)>>,
                       <<<<Neg(0), Chal(0, ChalB)>>, <<Auth(0)>>, Answer(0, ChalA)>>, <<<<Neg(0), Chal(0, ChalA)>>, <<Chal(0, ChalB)>>, <<Auth(0)>>>>}}

\* a second handshake, or a second client, that shares all but one thing with the first
TwinFlags   == Typical \cup {VERSION, TARGET_SERVER}
TwinBase    == [ChalVal(TwinFlags, 1, <<NameAv(2, "CORP"), NameAv(1, "SRV"), TimeAv(1), EOL>>) EXCEPT !.tn = <<T("CORP")>>]
Siblings    == {[TwinBase EXCEPT !.sc = x] : x \in {Cut(MD5(<<1>>), 0, 8), [TwinBase.sc EXCEPT ![1] = (@ + 1) % 256], [TwinBase.sc EXCEPT ![8] = (@ + 128) % 256]}}
               \cup {[TwinBase EXCEPT !.flags = IF b \in @ THEN @ \ {b} ELSE @ \cup {b}] : b \in KeyBits \cup {OEM, N56, ANONYMOUS, DATAGRAM, IDENTIFY}}
               \cup {[TwinBase EXCEPT !.tn = x] : x \in {<<>>, <<T("corp")>>}}
               \cup {[TwinBase EXCEPT !.ver = <<<<6, 1, 7601, 15>>>>], [TwinBase EXCEPT !.ver = <<>>, !.flags = @ \ {VERSION}]}
               \cup {[TwinBase EXCEPT !.ti = x] : x \in {<<>>, <<EOL>>, <<NameAv(2, "CORP"), NameAv(1, "SRV"), TimeAv(2), EOL>>, <<NameAv(2, "CORP"), NameAv(1, "SRV"), EOL>>,
                                                           <<NameAv(2, "CORP"), NameAv(1, "Srv"), TimeAv(1), EOL>>, <<NameAv(1, "SRV"), NameAv(2, "CORP"), TimeAv(1), EOL>>}}
Relatives(l) == {NewParts(0, l, T("uSER"), Dom, Pw), NewParts(0, l, User, T("domain"), Pw), NewParts(0, l, User, Dom, T("passw0rd")), NewParts(0, l, T("u"), T("serDomain"), Pw),
                 NewParts(0, l, User, <<>>, Pw), NewParts(0, 5 - l, User, Dom, Pw), NewParts(0, (l + 1) % 6, User, Dom, Pw)}
Twins(Ls)   == UNION {{Plan(<<Std(l)>> \o Answer(0, Hx(TwinBase)), {}, Answer(0, Hx(x)) \o <<Auth(0)>>),
                       Plan(<<Std(l)>> \o Answer(0, Hx(x)), {}, Answer(0, Hx(TwinBase)) \o Answer(0, Hx(x)))} : l \in Ls, x \in Siblings}
               \cup UNION {{Plan(<<Std(l)>> \o Answer(0, Hx(TwinBase)) \o <<y>>, {}, Answer(0, Hx(TwinBase))),
                            Plan(<<Std(l), [y EXCEPT !.c = 1]>> \o Answer(0, Hx(TwinBase)), {}, Answer(1, Hx(TwinBase)) \o Answer(0, Hx(TwinBase)))} :
                              l \in Ls, y \in UNION {Relatives(k) : k \in Ls}}

Plans == CASE Model = "words"     -> Words(Levels)
           [] Model = "wordsmore" -> WordsMore(Levels)
           [] Model = "wordstwo"  -> WordsTwo(Levels)
           [] Model = "again"     -> Again(Levels)
           [] Model = "flags"     -> FlagModel(Levels)
           [] Model = "bits"      -> BitModel(Levels)
           [] Model = "infos"     -> InfoModel(Levels)
           [] Model = "accounts"  -> AccountModel(Levels)
           [] Model = "hosts"     -> HostModel(Levels)
           [] Model = "passwords" -> PwModel(Levels)
           [] Model = "names"     -> NameModel(Levels)
           [] Model = "fresh"     -> FreshModel(Levels)
           [] Model = "strangers" -> Strangers(Levels)
           [] Model = "lateenv"   -> LateEnv(Levels)
           [] Model = "replaced"  -> Replaced(Levels)
           [] Model = "targets"   -> TargetModel(Levels)
           [] Model = "renegotiate" -> Renegotiate(Levels)
           [] Model = "clocks"    -> Clocks(Levels)
           [] Model = "beyond"    -> Beyond(Levels)
           [] Model = "twins"     -> Twins(Levels)
           [] Model = "often"     -> Often(Levels)
           [] Model = "corners"   -> Corners(Levels)

-----------------------------------------------------------------------------
VARIABLES plan,      \* what is to happen
          done,      \* the operations so far
          sys,       \* the state of the specification
          real,      \* the state of the (possibly deviating) implementation
          ghost,     \* per client: has negotiated?, first challenge since
          broken     \* clauses broken by the last step
vars == <<plan, done, sys, real, ghost, broken>>

Init == /\ plan \in Plans
        /\ done = <<>>
        /\ sys = InitSystem
        /\ real = InitSystem
        /\ ghost = [i \in Slots |-> [neg |-> FALSE, first |-> <<>>]]
        /\ broken = {}

Total(p) == Len(p.setup) + IF p.word = <<>> THEN Depth ELSE Len(p.word)
Possible == LET k == Len(done) + 1 IN
            IF k <= Len(plan.setup) THEN {plan.setup[k]}
            ELSE IF plan.word # <<>> THEN {plan.word[k - Len(plan.setup)]}
            ELSE plan.letters

Ghost(g, e) ==
  CASE e.op = "new"  -> [g EXCEPT ![e.c] = [neg |-> FALSE, first |-> <<>>]]
    [] e.op = "neg"  -> IF e.panic = 0 THEN [g EXCEPT ![e.c] = [neg |-> TRUE, first |-> <<>>]] ELSE g
    [] e.op = "chal" -> IF e.res = "ok" /\ g[e.c].neg /\ g[e.c].first = <<>> THEN [g EXCEPT ![e.c].first = <<e.raw>>] ELSE g
    [] OTHER -> g

Step(op) ==
  LET n == IF Dev("reuse-nonce") THEN Cardinality({i \in 1..Len(done) : done[i].op = "neg"}) ELSE Len(done)
      x == CASE Dev("half-random") -> [Nonce(n) EXCEPT !.rk = Cut(@, 0, 8) \o Nonce(n).cc]
             [] Dev("counting") -> [Nonce(n) EXCEPT !.cc = <<Len(done)>> \o From(Nonce(0).cc, 1)]
             [] Dev("checksum-byte") -> [Nonce(n) EXCEPT !.cc = Append(Cut(@, 0, 7), XorAll(Cut(@, 0, 7)))]
             [] Dev("mixed-nonces") -> [Nonce(n) EXCEPT !.rk = Append(Cut(@, 0, 15), XorByte(@[3], Nonce(n).cc[5]))]
             [] OTHER -> Nonce(n)
      e == Perform(real, op, x)
  IN /\ sys' = Apply(sys, e)
     /\ real' = IF Deviation = "" THEN sys' ELSE StepReal(real, e)
     /\ ghost' = Ghost(ghost, e)
     /\ broken' = Judgement(sys, e, sys')
                  \cup (IF Property = "C06" /\ Len(done) + 1 = Total(plan) THEN JudgeRandomness(sys') ELSE {})
     /\ done' = Append(done, op)
     /\ UNCHANGED plan

Next == /\ Len(done) < Total(plan) /\ broken = {}
        /\ \E op \in Possible : Step(op)
Spec == Init /\ [][Next]_vars

\* `done` and `plan` are history: two states with the same rest behave alike (used when nothing is exported)
StateView == <<Len(done) - Len(plan.setup), IF Len(done) < Len(plan.setup) THEN <<plan>> ELSE <<>>, plan.letters, plan.word, sys, real, ghost, broken>>

-----------------------------------------------------------------------------
(* Invariants *)
Accepted == broken = {} \/ (PrintT("BROKEN " \o ToString(broken)) /\ FALSE)

\* the state machine of the client is "the first challenge since the last NEGOTIATE"
FirstChallenge == \A i \in Slots : sys.cl[i] # <<>> =>
                    LET c == sys.cl[i][1] IN
                    /\ CanAuthenticate(c) <=> ghost[i].first # <<>>
                    /\ ghost[i].first # <<>> => c.chal.raw = Unhex(ghost[i].first[1])
                    /\ c.st = "new" <=> ~ghost[i].neg

\* recorded values can be read back
Printed == (Export /\ Len(done) = Total(plan)) => PrintT("SCENARIO " \o ToJson(done))
=============================================================================
