---------------------------- MODULE Concurrent ----------------------------
(* Clients on threads of their own. Calls are made of small steps; steps    *)
(* of different threads come in any order. What a thread's calls return is  *)
(* judged as if it were alone. `shared` is memory of the process: the       *)
(* prescribed implementation has none, the deviations show what becomes of  *)
(* one that has.                                                            *)
EXTENDS Machine, Json

CONSTANTS Model, Depth, Export, Levels

T(s) == Ascii(s)
ChalOf(i, F) == ToHex(EncChal([tn |-> <<T("Target")>>, flags |-> F, sc |-> Cut(MD5(<<i>>), 0, 8),
                               ti |-> <<[id |-> 2, t |-> T("CORP"), b |-> <<>>], [id |-> 1, t |-> T(<<"A", "B", "C", "D">>[i + 1]), b |-> <<>>], EOL>>, ver |-> <<>>]))
Full  == {UNICODE, REQUEST_TARGET, SIGN, NTLM, ESS, TARGET_INFO, N128, KEY_EXCH}
Plain == {UNICODE, NTLM, LM_KEY, TARGET_INFO}
Calls(i, l, F) == <<[op |-> "new", c |-> i, level |-> l, via |-> "parts", user |-> T(<<"ann", "bob", "cyd", "dan">>[i + 1]), dom |-> T("Dom"),
                     pw |-> T(<<"Passw0rd", "s3cret99", "Passw0rd", "x">>[i + 1]), target |-> T("HTTP")],
                    [op |-> "neg", c |-> i], [op |-> "chal", c |-> i, raw |-> ChalOf(i, F)], [op |-> "auth", c |-> i]>>
Threads == 0..(Depth - 1)
Levelled == [Threads -> Levels]
\* the steps of a call
Steps(op) == IF op.op = "auth" THEN <<"draw", "respond", "key", "return">> ELSE <<"return">>

VARIABLES plan,     \* the calls of every thread
          at,       \* per thread: [call, step]
          local,    \* per thread: the nonces of the call under way
          shared,   \* memory all threads see
          sys, broken
vars == <<plan, at, local, shared, sys, broken>>

Init == /\ plan \in {[i \in Threads |-> Calls(i, f[i], IF i \in S THEN Full ELSE Plain)] : f \in Levelled, S \in {Threads, {0}}}
        /\ at = [i \in Threads |-> [call |-> 1, step |-> 1]]
        /\ local = [i \in Threads |-> Nonce(i)]
        /\ shared = Nonce(100)
        /\ sys = InitSystem /\ broken = {}

Op(i)   == plan[i][at[i].call]
Step(i) == Steps(Op(i))[at[i].step]
Advance(i) == at' = [at EXCEPT ![i] = IF @.step = Len(Steps(Op(i))) THEN [call |-> @.call + 1, step |-> 1] ELSE [@ EXCEPT !.step = @ + 1]]

Go(i) ==
  /\ at[i].call <= Len(plan[i]) /\ broken = {}
  /\ CASE Step(i) = "draw" ->
            /\ shared' = IF Dev("shared-nonce") THEN Nonce(i) ELSE shared
            /\ UNCHANGED <<local, sys, broken>>
       [] Step(i) = "respond" ->
            /\ local' = IF Dev("shared-nonce") THEN [local EXCEPT ![i] = shared] ELSE local
            /\ UNCHANGED <<shared, sys, broken>>
       [] Step(i) = "key" ->
            /\ shared' = IF Dev("shared-key") THEN [shared EXCEPT !.rk = local[i].rk] ELSE shared
            /\ UNCHANGED <<local, sys, broken>>
       [] Step(i) = "return" ->
            \* with "shared-key", what the client remembers and signs with is what is in the shared place now
            LET x == local[i]
                e0 == Perform(sys, Op(i), x)
                e  == IF Dev("shared-key") /\ Op(i).op = "auth"
                      THEN LET y == [x EXCEPT !.rk = shared.rk] IN [e0 EXCEPT !.esk = <<ToHex(SessionKey(sys.cl[i][1], y))>>]
                      ELSE e0
            IN /\ sys' = Apply(sys, e)
               /\ broken' = Judgement(sys, e, sys')
               /\ UNCHANGED <<local, shared>>
  /\ Advance(i)
  /\ UNCHANGED plan
Next == \E i \in Threads : Go(i)
Spec == Init /\ [][Next]_vars

Accepted == broken = {} \/ (PrintT("BROKEN " \o ToString(broken)) /\ FALSE)
\* the clients' states depend on how far each thread is, not on the order they got there in
Independent == \A i \in Threads : sys.cl[i] = <<>> <=> at[i].call = 1
Printed  == (Export /\ \A i \in Threads : at[i] = [call |-> 1, step |-> 1]) =>
              PrintT("SCENARIO " \o ToJson([ops |-> <<>>, par |-> [i \in 1..Depth |-> plan[i - 1]], rep |-> 12, noise |-> 8]))
=============================================================================
