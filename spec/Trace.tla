------------------------------- MODULE Trace -------------------------------
(* Trace validation: every recorded scenario is replayed in the system of   *)
(* Judge.tla; an event that the judged property forbids makes the trace     *)
(* rejected, with the clauses it breaks.                                    *)
EXTENDS Judge, Json, IOUtils

Scenarios == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid,       \* which scenario
          l,         \* next event
          sys,       \* state of the specification
          broken     \* clauses broken by the last event

vars == <<tid, l, sys, broken>>

Init == /\ tid \in 1..Len(Scenarios)
        /\ l = 1
        /\ sys = InitSystem
        /\ broken = {}

Events == Scenarios[tid].ev

Consume ==
  /\ broken = {}
  /\ l <= Len(Events)
  /\ LET e == Events[l] IN
     /\ sys' = Apply(sys, e)
     /\ broken' = Judgement(sys, e, sys')
                  \cup (IF Property = "C06" /\ l = Len(Events) THEN JudgeRandomness(sys') ELSE {})
                  \cup (IF Property = "C25" /\ l = Len(Events) THEN JudgeDraws(sys') ELSE {})
     /\ \A k \in KnownIn(sys, e) : PrintT("KNOWN " \o k \o " " \o Scenarios[tid].id)
  /\ l' = l + 1
  /\ UNCHANGED tid

Next == Consume
Spec == Init /\ [][Next]_vars

Accepted == broken = {} \/ (PrintT("REJECT " \o Scenarios[tid].id \o " " \o ToString(l - 1) \o " " \o ToString(broken)) /\ FALSE)
=============================================================================
