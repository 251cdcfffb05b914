------------------------------- MODULE Timing -------------------------------
(* FILETIME and system time: every boundary of either range with every      *)
(* boundary of the sub-second part.                                         *)
EXTENDS Machine, Json

CONSTANTS Model, Depth, Export

Pow(k)   == [i \in 1..8 |-> IF (k \div 8) + 1 = i THEN 2^(k % 8) ELSE 0]
PowM1(k) == [i \in 1..8 |-> IF i <= k \div 8 THEN 255 ELSE IF i = (k \div 8) + 1 THEN 2^(k % 8) - 1 ELSE 0]
Less1(b) == IF AllZero(b) THEN b ELSE Sub(b, <<1>>)
Near(b)  == {b, Low(Less1(b), 8), Low(Add(b, <<1>>), 8)}

\* seconds: powers of two, and the first and last second that have a FILETIME
LastSec    == Seconds(Sub(PowM1(64), EpochTicks))[1]
SecsAll == UNION {Near(Pow(k)) : k \in 0..63} \cup Near(Low(LastSec, 8)) \cup {Zeros(8)} \cup Near(Low(Seconds(EpochTicks)[1], 8))
Nanos   == {0, 1, 99, 100, 199, 500000000, 999999900, 999999999}
FtAll   == UNION {Near(Pow(k)) : k \in 0..63} \cup Near(EpochTicks) \cup {PowM1(64), Zeros(8)}
           \cup UNION {Near(Low(Add(EpochTicks, MulC(LE32(s), 10000, 0)), 8)) : s \in {1, 1000, 999, 1001, 1700000}}
           \cup {Low(Sub(EpochTicks, LE32(s)), 8) : s \in {9, 10, 99, 10000000, 9999999, 10000001}}

Ops == {[op |-> "ft_from", neg |-> n, secs |-> JsonNum(s), nanos |-> k] : n \in {0, 1}, s \in SecsAll, k \in Nanos}
       \cup {[op |-> "ft_to", ft |-> JsonFt(f)] : f \in FtAll}
       \cup {[op |-> "dec", o |-> 0, kind |-> "ft", raw |-> ToHex(f)] : f \in FtAll}

VARIABLES op, ev, broken
vars == <<op, ev, broken>>
Init == op \in Ops /\ ev = <<>> /\ broken = {}
Next == /\ ev = <<>>
        /\ LET e == Perform(InitSystem, op, Nonce(0)) IN
           /\ ev' = <<e>>
           /\ broken' = Judgement(InitSystem, e, InitSystem)
        /\ UNCHANGED op
Spec == Init /\ [][Next]_vars

Accepted == broken = {} \/ (PrintT("BROKEN " \o ToString(broken)) /\ FALSE)

\* conversion preserves order: a whole FILETIME step later is one FILETIME more
NextNano(s, k) == IF k + 100 < 1000000000 THEN <<s, k + 100>> ELSE <<Add(s, <<1>>), k + 100 - 1000000000>>
StepByStep ==
  (op.op = "ft_from" /\ op.neg = 0) =>
     LET s == Rev(Unhex(op.secs))
         n == NextNano(s, op.nanos)
     IN NumEq(Ticks(n[1], n[2]), Add(Ticks(s, op.nanos), <<1>>))
\* the instant of a FILETIME from 1970 on is that many 100 ns, rounded down to itself
ThereAndBack == (op.op = "ft_to") => LET i == Instant(JFt(op.ft)) IN
                   /\ i.nanos % 100 = 0
                   /\ ~i.neg => NumEq(Ticks(i.secs, i.nanos), JFt(op.ft))
                   /\ i.neg => NumEq(Add(JFt(op.ft), Sub(Ticks(i.secs, i.nanos), EpochTicks)), EpochTicks)
Printed == (Export /\ ev # <<>>) => PrintT("SCENARIO " \o ToJson(<<op>>))
=============================================================================
