------------------------------ MODULE Building ------------------------------
(* Message objects under construction: every history of calls on builders,  *)
(* setters and flag words up to a depth. The invariants compare the object  *)
(* with what was done to it, kept in ghosts.                                *)
EXTENDS Machine, Json

CONSTANTS Model, Depth, Export

T(s) == Ascii(s)
AddItem(p) == [op |-> "add", o |-> 0, item |-> JsonAv(p)]
SetF(f, v) == [op |-> "set", o |-> 0, f |-> f, v |-> v]
Fill      == [op |-> "fill", o |-> 0]
Enc0      == [op |-> "enc", o |-> 0]
Mk(k)     == [op |-> "mk", o |-> 0, kind |-> k]
Build(k, v) == [op |-> "build", o |-> 0, kind |-> k, val |-> Json(k, v)]
DecOp(k, b) == [op |-> "dec", o |-> 0, kind |-> k, raw |-> ToHex(b)]
Env(k, t) == [op |-> "env", k |-> k, v |-> <<ToHex(Utf8(t))>>]
EnvOff(k) == [op |-> "env", k |-> k, v |-> <<>>]
FOp(o, b) == [op |-> o, o |-> 0, bit |-> b]
FNew(w)   == [op |-> "fnew", o |-> 0, word |-> w]
FShow     == [op |-> "fshow", o |-> 0]

On(i, o)  == [o EXCEPT !.o = i]
MicOp(k)  == [op |-> "mic", o |-> 0, n |-> 1, h |-> 2, key |-> k]
N(i, t)   == [id |-> i, t |-> t, b |-> <<>>]
ItemsFew  == {N(1, T("srv")), N(2, <<223, 97>>), [id |-> 7, t |-> <<>>, b |-> <<1, 2, 3, 4, 5, 6, 7, 8>>]}
ItemsAll  == {N(i, T("x")) : i \in TextIds} \cup {[id |-> 6, t |-> <<>>, b |-> <<1, 0, 1>>], [id |-> 7, t |-> <<>>, b |-> Zeros(8)],
              [id |-> 8, t |-> <<>>, b |-> LE32(48) \o Zeros(44)], [id |-> 10, t |-> <<>>, b |-> MD5(<<>>)]}
Received  == EncChal([tn |-> <<T("Dom")>>, flags |-> {UNICODE}, sc |-> <<1, 2, 3, 4, 5, 6, 7, 8>>, ti |-> <<N(4, T("d.example")), EOL>>, ver |-> <<>>])
Bare      == EncChal([tn |-> <<>>, flags |-> {OEM, ESS}, sc |-> Zeros(8), ti |-> <<EOL>>, ver |-> <<>>])
V         == <<10, 0, 17763, 15>>

Plan(setup, letters, word) == [setup |-> setup, letters |-> letters, word |-> word]
Starts == {Mk("chal"), DecOp("chal", Received), DecOp("chal", Bare)}
Builders(x) ==
  {Plan(<<Env("COMPUTERNAME", T("Pc-1")), Env("USERDNSDOMAIN", T("Corp.Example")), a>>, {AddItem(p) : p \in ItemsFew} \cup {Fill, SetF("flags", <<"00000001">>), SetF("tn", <<T("t")>>)}, <<>>) : a \in Starts}
  \cup {Plan(<<a>>, {}, <<AddItem(p), AddItem(q), Enc0>>) : a \in Starts, p \in ItemsAll, q \in ItemsAll}
Envs(x) ==
  LET names(S) == [i \in 1..4 |-> LET k == <<"COMPUTERNAME", "COMPUTERDNSNAME", "USERDOMAIN", "USERDNSDOMAIN">>[i]
                                  IN IF k \in S THEN Env(k, <<97 + i, 223, 128512>>) ELSE EnvOff(k)]
  IN {Plan(names(S) \o <<a>>, {}, <<Fill, AddItem(N(5, T("tree"))), Fill, Enc0>>) : S \in SUBSET EnvKeys, a \in Starts}
Words32 == {SetF("flags", <<w>>) : w \in {"00000000", "ffffffff"}}
Opts(f, v) == {SetF(f, <<v>>), SetF(f, <<>>)}
Setters(x) ==
  {Plan(<<Mk("neg")>>,  Words32 \cup Opts("dom", T("D")) \cup Opts("ws", T("W")) \cup Opts("ver", V), <<>>),
   Plan(<<Mk("chal")>>, Words32 \cup Opts("tn", <<228, 128512>>) \cup Opts("ver", V) \cup {SetF("sc", <<"0102030405060708">>)}, <<>>),
   Plan(<<Mk("auth")>>, Words32 \cup Opts("key", "000102030405060708090a0b0c0d0e0f") \cup Opts("user", T("U")) \cup Opts("dom", T("D")) \cup Opts("ws", <<128512>>) \cup Opts("ver", V), <<>>)}
FlagHistories(x) ==
  {Plan(<<FNew(w)>>, {FOp(o, b) : o \in {"fset", "fclr", "fhas"}, b \in {0, 15, 31}} \cup {FShow}, <<>>) : w \in {"00000000", "ffffffff", "80000001"}}
  \cup {Plan(<<FNew(w)>>, {}, <<FOp(o, b), FShow, FOp("fhas", b), FOp("fset", b), FShow>>) : w \in {"00000000", "ffffffff", "a5a5a5a5"}, o \in {"fset", "fclr"}, b \in Bits}
\* three messages that change, and MICs over them
SealedAuth == [DefaultOf("auth") EXCEPT !.user = <<T("u")>>, !.key = <<MD5(<<9>>)>>, !.mic = MD5(<<8>>), !.flags = {UNICODE, KEY_EXCH}]
Sealings(x) ==
  {Plan(<<a, On(1, Mk("neg")), h>>,
        {MicOp(<<"000102030405060708090a0b0c0d0e0f">>), MicOp(<<"ffffffffffffffffffffffffffffffff">>), MicOp(<<>>),
         SetF("user", <<T("U")>>), SetF("key", <<>>), On(1, SetF("dom", <<T("D")>>)), On(2, SetF("tn", <<T("target")>>)), On(2, AddItem(N(1, T("srv"))))}, <<>>) :
     a \in {Mk("auth"), Build("auth", SealedAuth)}, h \in {On(2, Mk("chal")), On(2, DecOp("chal", Received))}}
Plans == CASE Model = "builders" -> Builders(0)
           [] Model = "envs"     -> Envs(0)
           [] Model = "setters"  -> Setters(0)
           [] Model = "written"  -> {[p EXCEPT !.letters = @ \cup {Enc0}] : p \in Setters(0)} \cup {[p EXCEPT !.letters = @ \cup {Enc0}] : p \in Builders(0)}
           [] Model = "flags"    -> FlagHistories(0)
           [] Model = "sealings" -> Sealings(0)

VARIABLES plan, done, sys, real, added, last, bits, broken
vars == <<plan, done, sys, real, added, last, bits, broken>>

Init == /\ plan \in Plans /\ done = <<>> /\ sys = InitSystem /\ real = InitSystem /\ broken = {}
        /\ added = <<>>                          \* the items the list must have
        /\ last = <<>>                           \* field -> value last set, as a sequence of <<field, value>>
        /\ bits = [b \in Bits |-> FALSE]

Total(p) == Len(p.setup) + IF p.word = <<>> THEN Depth ELSE Len(p.word)
Possible == LET k == Len(done) + 1 IN
            IF k <= Len(plan.setup) THEN {plan.setup[k]}
            ELSE IF plan.word # <<>> THEN {plan.word[k - Len(plan.setup)]}
            ELSE plan.letters

EnvNames(env) == LET one(id, k, up) == IF env[k] = <<>> THEN <<>>
                                       ELSE <<N(id, IF up THEN UpperCase(Utf8Decode(env[k][1])[1]) ELSE Utf8Decode(env[k][1])[1])>>
                 IN one(1, "COMPUTERNAME", TRUE) \o one(3, "COMPUTERDNSNAME", FALSE) \o one(2, "USERDOMAIN", TRUE) \o one(4, "USERDNSDOMAIN", FALSE)
Step(op) ==
  LET e == Perform(real, op, Nonce(0)) IN
  /\ sys' = Apply(sys, e)
  /\ real' = sys'
  /\ broken' = Judgement(sys, e, sys')
  /\ done' = Append(done, op)
  /\ added' = CASE op.op = "mk" -> <<>>
                [] op.op = "dec" -> IF op.raw = ToHex(Received) THEN <<N(4, T("d.example"))>> ELSE <<>>
                [] op.op = "add" -> Append(added, JAv(op.item))
                [] op.op = "fill" -> added \o EnvNames(sys.env)
                [] OTHER -> added
  /\ last' = IF op.op = "set" THEN Append(last, <<op.f, op.v>>) ELSE last
  /\ bits' = CASE op.op = "fnew" -> [b \in Bits |-> b \in JFlags(op.word)]
               [] op.op = "fset" -> [bits EXCEPT ![op.bit] = TRUE]
               [] op.op = "fclr" -> [bits EXCEPT ![op.bit] = FALSE]
               [] OTHER -> bits
  /\ UNCHANGED plan
Next == Len(done) < Total(plan) /\ broken = {} /\ \E op \in Possible : Step(op)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Accepted == broken = {} \/ (PrintT("BROKEN " \o ToString(broken)) /\ FALSE)

\* C13: the items in the order of addition, then one terminator; nothing when there is no item
ListIsWhatWasAdded ==
  (Property = "C13" /\ sys.objs[0] # <<>> /\ sys.objs[0][1].kind = "chal") =>
    LET m == sys.objs[0][1].val
    IN IF added = <<>> THEN m.ti \in {<<>>, <<EOL>>} ELSE m.ti = Append(added, EOL)

\* C17: each field is what it was last set to; presence flags follow the last call
LastOf(f) == LET at == {i \in 1..Len(last) : last[i][1] = f} IN
             IF at = {} THEN <<>> ELSE <<last[CHOOSE i \in at : \A j \in at : j <= i][2]>>
SinceFlags == LET at == {i \in 1..Len(last) : last[i][1] = "flags"} IN
              IF at = {} THEN last ELSE SubSeq(last, (CHOOSE i \in at : \A j \in at : j <= i) + 1, Len(last))
FieldsAreWhatWasSet ==
  (Property = "C17" /\ sys.objs[0] # <<>>) =>
    LET k == sys.objs[0][1].kind
        m == sys.objs[0][1].val
        base == IF LastOf("flags") = <<>> THEN DefaultFlags ELSE JFlags(LastOf("flags")[1][1])
        touch(b) == {i \in 1..Len(SinceFlags) : PresenceFlag(k, SinceFlags[i][1]) = <<b>>}
        on(b) == IF touch(b) = {} THEN b \in base ELSE SinceFlags[CHOOSE i \in touch(b) : \A j \in touch(b) : j <= i][2] # <<>>
    IN /\ \A f \in {"dom", "ws", "tn", "ver", "user"} : LastOf(f) # <<>> => m[f] = LastOf(f)[1]
       /\ LastOf("key") # <<>> => m.key = Opt(Unhex, LastOf("key")[1])
       /\ \A b \in Bits : b \in m.flags <=> on(b)

\* C24: a MIC speaks of the messages as they are now, not of an older MIC
MicSpeaksOfNow ==
  (Property = "C24" /\ done # <<>> /\ done[Len(done)].op = "mic" /\ done[Len(done)].key # <<>>) =>
    LET a == sys.objs[0][1].val
        b == EncAuth(a)
        p == ParseAuth(b)
    IN p.ok /\ p.mic = a.mic /\ p.mic = HmacMD5(Unhex(done[Len(done)].key[1]), EncNeg(sys.objs[1][1].val) \o EncChal(sys.objs[2][1].val) \o p.zeroed)

\* C18
BitsAreIndependent == Property = "C18" => (sys.fl[0] = {b \in Bits : bits[b]})

Printed == (Export /\ Len(done) = Total(plan)) => PrintT("SCENARIO " \o ToJson(done))
=============================================================================
