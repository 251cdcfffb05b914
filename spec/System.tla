------------------------------- MODULE System -------------------------------
(* The whole library as one state machine: an environment, clients and      *)
(* message objects in numbered slots, flag words, and the history that the  *)
(* guarantees about it speak of. `Apply` is the transition relation of the  *)
(* operations; what a step may have returned is judged in Judge.tla.        *)
EXTENDS Client, Server, Objects

EnvKeys == {"COMPUTERNAME", "COMPUTERDNSNAME", "USERDOMAIN", "USERDNSDOMAIN"}
Slots   == 0..7

InitSystem ==
  [env   |-> [k \in EnvKeys |-> <<>>],
   host  |-> <<>>,
   clock |-> <<>>,                            \* where the clock stands still (option of seconds and nanoseconds)
   cl    |-> [i \in Slots |-> <<>>],          \* options of clients
   objs  |-> [i \in Slots |-> <<>>],          \* options of [kind, val]
   fl    |-> [i \in Slots |-> {}],
   given |-> [i \in Slots |-> <<>>],          \* every challenge given to client i, in order
   first |-> [i \in Slots |-> TRUE],          \* no AUTHENTICATE yet in this handshake
   offer |-> [i \in Slots |-> <<>>],          \* the NEGOTIATE of the last handshake with this setting (option)
   ccs   |-> <<>>,                            \* client challenges and random session keys used so far
   keys  |-> <<>>,
   pairs |-> <<>>,
   seen  |-> <<>>,                            \* only for a deviation: an old time
   drawn |-> <<>>,                            \* values drawn with random(): [kind, bytes]
   secrets |-> {}]
=============================================================================
