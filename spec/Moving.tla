------------------------------ MODULE Moving ------------------------------
(* Clients that are handed from thread to thread: every call may be made by *)
(* a thread other than the one before, and a thread makes calls of several  *)
(* clients. `own` is the memory of each thread: the prescribed              *)
(* implementation keeps nothing there, the deviations show what becomes of  *)
(* one that does. Thread 0 is the main one, 1 stands for a thread that      *)
(* lives for one call only, the others live as long as the history.         *)
EXTENDS Machine, Json

CONSTANTS Model, Depth, Export, Levels

T(s) == Ascii(s)
ChalOf(i) == ToHex(EncChal([tn |-> <<T("Target")>>, flags |-> {UNICODE, REQUEST_TARGET, SIGN, NTLM, ESS, TARGET_INFO, KEY_EXCH}, sc |-> Cut(MD5(<<i>>), 0, 8),
                            ti |-> <<[id |-> 2, t |-> T(<<"CORP", "EXAMPLE">>[i + 1]), b |-> <<>>], EOL>>, ver |-> <<>>]))
Create(i, l) == [op |-> "new", c |-> i, level |-> l, via |-> "parts", user |-> T(<<"ann", "bob">>[i + 1]), dom |-> T(<<"Dom", "Other">>[i + 1]),
              pw |-> T(<<"Passw0rd", "s3cret99">>[i + 1]), target |-> T("HTTP")]
Calls(i, l) == <<Create(i, l), [op |-> "neg", c |-> i], [op |-> "chal", c |-> i, raw |-> ChalOf(i)], [op |-> "auth", c |-> i]>>
Threads == {0, 1, 2, 3}

\* which thread makes which call: any for one client; of two, each moves once at most
Alone(l) == {<<[k \in 1..4 |-> [th |-> f[k], call |-> Calls(0, l)[k]]]>> : f \in [1..4 -> Threads]}
Once     == {[k \in 1..4 |-> IF k <= j THEN a ELSE b] : j \in 1..3, a \in {0, 2}, b \in {0, 2}}
Two(l, m) == {<<[k \in 1..4 |-> [th |-> f[k], call |-> Calls(0, l)[k]]], [k \in 1..4 |-> [th |-> h, call |-> Calls(1, m)[k]]]>> : f \in Once, h \in {0, 2}}
Plans == IF Model = "alone" THEN UNION {Alone(l) : l \in Levels}
         ELSE UNION {Two(l, CHOOSE m \in Levels : m # l \/ Levels = {l}) : l \in Levels}

VARIABLES plan, at, done, own, sys, broken
vars == <<plan, at, done, own, sys, broken>>

Init == /\ plan \in Plans
        /\ at = [i \in 0..(Len(plan) - 1) |-> 1]
        /\ done = <<>>
        /\ own = [t \in Threads |-> [neg |-> <<>>, chal |-> NoChallenge]]
        /\ sys = InitSystem /\ broken = {}

\* what an implementation that remembers in the thread takes for the client's state
Remembered(s, i, t) ==
  IF s.cl[i] = <<>> THEN s
  ELSE CASE Dev("thread-negotiate") -> [s EXCEPT !.cl[i][1].neg = own[t].neg]
         [] Dev("thread-challenge") /\ own[t].chal # NoChallenge -> [s EXCEPT !.cl[i][1].chal = own[t].chal]
         [] OTHER -> s
Go(i) ==
  /\ at[i] <= 4 /\ broken = {}
  /\ LET s == plan[i + 1][at[i]]
         t == s.th
         e == Perform(IF s.call.op = "auth" THEN Remembered(sys, i, t) ELSE sys, s.call, Nonce(Len(done)))
     IN /\ sys' = Apply(sys, e)
        /\ broken' = Judgement(sys, e, sys')
        /\ done' = Append(done, IF t = 0 THEN s.call ELSE [th |-> t] @@ s.call)
        /\ own' = CASE t = 1 -> own      \* forgotten with the thread
                    [] s.call.op = "neg"  -> [own EXCEPT ![t].neg = sys'.cl[i][1].neg]
                    [] s.call.op = "chal" -> [own EXCEPT ![t].chal = sys'.cl[i][1].chal]
                    [] OTHER -> own
  /\ at' = [at EXCEPT ![i] = @ + 1]
  /\ UNCHANGED plan
Next == \E i \in DOMAIN at : Go(i)
Spec == Init /\ [][Next]_vars

Accepted == broken = {} \/ (PrintT("BROKEN " \o ToString(broken)) /\ FALSE)
\* what a client is depends on its own calls only, wherever they were made
Portable == \A i \in DOMAIN at :
              at[i] > 1 => LET c == sys.cl[i][1] IN
                /\ c.id.user = Create(i, 0).user
                /\ c.neg # <<>> <=> at[i] > 2
                /\ c.chal # NoChallenge <=> at[i] > 3
                /\ at[i] > 3 => c.chal.raw = Unhex(ChalOf(i))
Printed  == (Export /\ \A i \in DOMAIN at : at[i] = 5) => PrintT("SCENARIO " \o ToJson(done))
=============================================================================
