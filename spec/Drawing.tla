------------------------------ MODULE Drawing ------------------------------
(* Values drawn at random: of every type, in one go and again later, and in *)
(* large numbers; and ("harvest") the nonces of very many handshakes.       *)
EXTENDS Machine, Json

CONSTANTS Model, Depth, Export

Types == <<"ServerChallenge", "ClientChallenge", "SessionBaseKey", "KeyExchangeKey", "ExportedSessionKey", "EncryptedRandomSessionKey",
           "NtProofStr", "Response16", "Response24", "Mic", "RandomPad">>
Rand(k, n) == [op |-> "rand", kind |-> k, n |-> n]
Tally(k) == [op |-> "tally", kind |-> k, n |-> Tallied]
Asked == {UNICODE, NTLM, TARGET_INFO, KEY_EXCH, SIGN}
Harvest(lvl, F) == [op |-> "harvest", via |-> "parts", user |-> Ascii("user"), dom |-> Ascii("Dom"), pw |-> Ascii("Secr3t"), target |-> <<>>, level |-> lvl, n |-> Tallied,
                    raw |-> ToHex(EncChal([tn |-> <<>>, flags |-> F, sc |-> <<1, 35, 69, 103, 137, 171, 205, 239>>, ti |-> <<[id |-> 2, t |-> Ascii("DOM"), b |-> <<>>], EOL>>, ver |-> <<>>]))]
Words == IF Model = "harvest" THEN {<<Harvest(1, Asked \cup {ESS})>>, <<Harvest(3, Asked)>>, <<Harvest(5, {UNICODE, KEY_EXCH, SEAL, ESS})>>}
         ELSE {<<Tally(Types[i])>> : i \in 1..11} \cup
         {[i \in 1..22 |-> Rand(Types[((i - 1) % 11) + 1], 60)], [i \in 1..11 |-> Rand(Types[i], 120)],
          [i \in 1..120 |-> Rand("ClientChallenge", 1)], [i \in 1..240 |-> Rand(IF i % 2 = 0 THEN "ServerChallenge" ELSE "ExportedSessionKey", 1)],
          <<Rand("Response24", 300), Rand("ServerChallenge", 128), Rand("Response24", 200), Rand("ServerChallenge", 128)>>}

VARIABLES word, done, sys, broken
vars == <<word, done, sys, broken>>
Init == word \in Words /\ done = 0 /\ sys = InitSystem /\ broken = {}
Next == /\ done < Len(word) /\ broken = {}
        /\ LET e == Perform(sys, word[done + 1], Nonce(0)) IN
           /\ sys' = Apply(sys, e)
           /\ broken' = Judgement(sys, e, sys') \cup (IF done + 1 = Len(word) /\ Property = "C25" THEN JudgeDraws(sys') ELSE {})
        /\ done' = done + 1
        /\ UNCHANGED word
Spec == Init /\ [][Next]_vars
Accepted == broken = {} \/ (PrintT("BROKEN " \o ToString(broken)) /\ FALSE)
Printed  == (Export /\ done = Len(word)) => PrintT("SCENARIO " \o ToJson(word))
=============================================================================
