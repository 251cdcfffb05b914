------------------------------ MODULE Objects ------------------------------
(* Message values as objects of the API: setters, the target-info builder,  *)
(* flag words. Each operator is one transition of the object.               *)
EXTENDS Wire

DefaultFlags == {UNICODE}
DefaultOf(kind) ==
  CASE kind = "neg"  -> [flags |-> DefaultFlags, dom |-> <<>>, ws |-> <<>>, ver |-> <<>>]
    [] kind = "chal" -> [tn |-> <<>>, flags |-> DefaultFlags, sc |-> Zeros(8), ti |-> <<>>, ver |-> <<>>]
    [] kind = "auth" -> [lm |-> <<>>, nt |-> <<>>, dom |-> <<>>, user |-> <<>>, ws |-> <<>>, key |-> <<>>,
                         flags |-> DefaultFlags, ver |-> <<>>, mic |-> Zeros(16)]

\* The flag that says a field is there (option)
PresenceFlag(kind, f) ==
  CASE kind = "neg"  /\ f = "dom" -> <<OEM_DOMAIN>>
    [] kind = "neg"  /\ f = "ws"  -> <<OEM_WORKSTATION>>
    [] kind = "chal" /\ f = "tn"  -> <<REQUEST_TARGET>>
    [] kind = "auth" /\ f = "key" -> <<KEY_EXCH>>
    [] OTHER -> <<>>

Set(kind, m, f, v) ==
  LET flag == PresenceFlag(kind, f)
      m1   == [m EXCEPT ![f] = v]
  IN IF flag = <<>> THEN m1
     ELSE [m1 EXCEPT !.flags = IF v = <<>> THEN m.flags \ {flag[1]} ELSE m.flags \cup {flag[1]}]

\* One more item in front of the terminator
AddInfo(m, p) ==
  IF m.ti = <<>> THEN [m EXCEPT !.ti = <<p, EOL>>, !.flags = m.flags \cup {TARGET_INFO}]
  ELSE [m EXCEPT !.ti = Append(Front(m.ti), p) \o <<m.ti[Len(m.ti)]>>]

Name(id, t) == [id |-> id, t |-> t, b |-> <<>>]
EnvText(env, k) == IF env[k] = <<>> THEN <<>> ELSE Utf8Decode(env[k][1])
AddName(m, id, t) == IF t = <<>> THEN m ELSE AddInfo(m, Name(id, t[1]))
FillFromEnv(m, env) ==
  AddName(AddName(AddName(AddName(m, 1, Opt(UpperCase, EnvText(env, "COMPUTERNAME"))),
                          3, EnvText(env, "COMPUTERDNSNAME")),
                  2, Opt(UpperCase, EnvText(env, "USERDOMAIN"))),
          4, EnvText(env, "USERDNSDOMAIN"))
=============================================================================
