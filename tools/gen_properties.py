#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

CL = "src/client.rs"; CR = "src/crypto.rs"; V1 = "src/crypto/ntlmv1.rs"; V2 = "src/crypto/ntlmv2.rs"
NEG = "src/messages/negotiate.rs"; CHA = "src/messages/challenge.rs"; AUT = "src/messages/authenticate.rs"
FLD = "src/messages/field.rs"; FLG = "src/messages/flags.rs"; AV = "src/messages/structures/avid.rs"
UNI = "src/messages/unicode_string.rs"; NT = "src/messages/structures/nt_challenge.rs"; LMC = "src/messages/structures/lm_challenge.rs"
FT = "src/messages/structures/filetime.rs"; VER = "src/messages/structures/version.rs"; SIG = "src/messages/structures/signature.rs"
SHD = "src/messages/structures/single_host_data.rs"; LM = "src/crypto/lm.rs"; NTH = "src/crypto/nt.rs"; STR = "src/messages/structures.rs"
MSG = "src/messages.rs"
HOOK = "Wire is a crate-private trait: the harness encodes/decodes through src/verif.rs (cfg http_ntlm_verif)"
KEYHOOK = "the exported session key kept by the client is read through a cfg(http_ntlm_verif) accessor"

prop("C01", "An AUTHENTICATE always answers the challenge accepted in this handshake",
 "A client yields an AUTHENTICATE message only after it has sent a NEGOTIATE and has then been given a CHALLENGE, and every AUTHENTICATE answers the first challenge given after the latest NEGOTIATE, however often it is requested. A challenge given before any NEGOTIATE, or after one was already accepted in this handshake, changes nothing. A new NEGOTIATE discards the previous handshake completely: until a new challenge is given, asking for an AUTHENTICATE yields no message (it panics), and nothing of the old challenge is ever used again.",
 ["histories", "inputs"], "every sequence of send_negociate / recv_challenge / send_authenticate calls on one client, at every compatibility level, with any challenges",
 "The only client test drives one straight-line history (and fails on the pinned commit because of random keys); no test repeats, reorders or interleaves calls.",
 [CL], [("state checks in recv_challenge / set_authenticated_state / get_challenge", CL)],
 [("state", "New / NegociateSent / ChallengeReceived / AuthenticateSent", CL)],
 ["bytes returned by send_negociate and send_authenticate, panics of send_authenticate"])

prop("C02", "NTLMv2 responses are accepted by an MS-NLMP verifier",
 "At compatibility levels 3 to 5, the NT and LM responses carried by an AUTHENTICATE are accepted by a verifier that follows MS-NLMP 3.3.2 and knows the user, the domain, the password and the challenge it sent: the NT response is the NTLMv2 proof followed by exactly the client blob the proof was computed over, and the LM response is the LMv2 response over the same client challenge. The blob carries the server's target information unchanged and in order (followed by four zero bytes), and its time stamp is the server's time stamp when the challenge has one and otherwise the current time as a FILETIME.",
 ["inputs", "configurations", "histories"], "every user name, domain and password (any Unicode), every server challenge, target information list and flag word, levels 3-5",
 "The tests check one MS-NLMP sample at the level of internal functions; nothing checks that what is put on the wire verifies, for any input.",
 [CL, V2, NTH, NT, LMC, AV, CR], [("ntlmv2::compute_response", V2), ("ntowfv2 / ntowfv1", NTH), ("send_authenticate_ntlmv2", CL)],
 (), ["AUTHENTICATE bytes"], HOOK)

prop("C03", "NTLMv1 responses are the ones MS-NLMP prescribes for the negotiated flags",
 "At compatibility levels 0 to 2, the responses in an AUTHENTICATE are those of MS-NLMP 3.3.1: with extended session security the NT response is DESL of the NT hash over the first 8 bytes of MD5(server challenge, client challenge) and the LM response is the client challenge padded with zeros; without it the NT response is DESL of the NT hash over the server challenge and the LM response is DESL of the LM hash over it at level 0, and a copy of the NT response at levels 1 and 2. (For the LM hash, the password is taken as upper-cased, cut or zero-padded to 14 bytes; the value is only prescribed for ASCII passwords.)",
 ["inputs", "configurations"], "every password, server challenge and 32-bit flag word, levels 0-2",
 "Two fixed vectors through an internal function; the choice made by the client per level and flag, and other passwords (14 bytes and more, empty, non-ASCII) are never run.",
 [CL, V1, CR, "src/crypto/des.rs", LM, NTH, LMC], [("ntlmv1::compute_response", V1), ("desl / des7_encrypt", CR), ("lmowfv1", LM)],
 (), ["AUTHENTICATE bytes"], HOOK)

prop("C04", "Client and server always derive the same exported session key",
 "After every AUTHENTICATE that is the first of its handshake, a server that follows MS-NLMP and knows the password derives, from the AUTHENTICATE message (its responses, flags and encrypted session key field) and its own challenge, exactly the exported session key the client holds. This covers KXKEY (extended session security, LM key, non-NT key, plain), NTLMv2 session base keys, and key exchange: an encrypted random session key is sent, and the key-exchange flag is set, exactly when key exchange together with signing or sealing was negotiated.",
 ["inputs", "configurations"], "all levels 0-5, every combination of the flags extended-session-security, LM key, non-NT key, key exchange, sign, seal; any credentials and challenge",
 "Unit tests call kxkey and encrypt_random_session_key with hand-picked arguments; none compares what the client keeps with what a peer computes from the wire, and the combinations are not enumerated.",
 [CL, CR, V1, V2, AUT], [("kxkey", CR), ("encrypt_random_session_key", CR), ("send_authenticate_ntlmv1 / v2", CL)],
 (), ["AUTHENTICATE bytes", "exported session key kept by the client"], KEYHOOK)

prop("C05", "The MIC covers the three messages exactly as they were exchanged",
 "At levels 3 to 5, the MIC in an AUTHENTICATE is HMAC-MD5, keyed with the exported session key, over the NEGOTIATE bytes the client sent in this handshake, the CHALLENGE bytes it was given, and the AUTHENTICATE bytes it returns with the MIC field zeroed. At levels 0 to 2 the MIC field is all zero.",
 ["inputs", "histories", "configurations"], "every handshake history, credentials, workstation and version setting, and challenge, levels 0-5",
 "No test looks at the MIC of a client-built message; the value depends on everything that is written into the message after it is computed.",
 [CL, AUT], [("compute_mic", AUT), ("send_authenticate", CL)], (), ["NEGOTIATE, CHALLENGE and AUTHENTICATE bytes"], HOOK)

prop("C06", "Client challenges and session keys are fresh in every AUTHENTICATE",
 "Every AUTHENTICATE uses a client challenge and, when keys are exchanged, a random session key that no earlier AUTHENTICATE of the process used (same client or another, same challenge or another), independent of each other and of the server's challenge, with all 8 respectively 16 bytes random.",
 ["histories", "configurations"], "every sequence of AUTHENTICATE messages in a process, across clients, levels and repeated handshakes",
 "A unit test sees one message; reuse and partially constant nonces only show across many.",
 [CL, CR, STR], [("ClientChallenge::random / ExportedSessionKey::random", STR), ("send_authenticate", CL), ("encrypt_random_session_key", CR)],
 (), ["LM / NT responses and encrypted session keys of successive messages"], KEYHOOK)

prop("C07", "A server cannot downgrade a client below its compatibility level",
 "Whatever flags and contents the challenge has, a client at levels 3 to 5 never emits a response computed with NTLMv1 or from the LM hash, and a client at levels 1 or 2 never emits a response computed from the LM hash; a client never emits the LM-hash response when extended session security is in force.",
 ["inputs", "configurations"], "every level and every challenge, including hostile flag words",
 "Tests never feed a challenge whose flags contradict the client's level.",
 [CL, V1], [("dispatch on level in send_authenticate", CL), ("lm_response_ntlm_v1 selection", V1)], (), ["responses in AUTHENTICATE bytes"], HOOK)

prop("C08", "Messages survive encoding and decoding unchanged",
 "For every well-formed message value (NEGOTIATE, CHALLENGE, AUTHENTICATE) and structure (version, flags, FILETIME, AV pair and list, single host data, message signature, LM and NT responses), decoding its encoding succeeds, consumes all of it and yields the same value, including text outside the Basic Multilingual Plane; encoding that value again yields the same bytes. Well-formed means: sizes fit the format, text has no NUL, a present text, list or response field is not empty, version presence agrees with its flag, revision is 15, LM and NT responses are of the same generation.",
 ["inputs"], "all well-formed values, any subset of optional fields, any text, list and flag word",
 "A handful of fixed messages; two of the existing round-trip tests fail at the pinned commit.",
 [NEG, CHA, AUT, FLD, AV, UNI, NT, LMC, FT, VER, SIG, SHD, FLG], [("Wire::serialize_into / deserialize", MSG), ("Field::append / get_data_if", FLD)],
 (), ["encode and decode results"], HOOK)

prop("C09", "Decoding any bytes returns a value or an error and never panics",
 "Decoding any byte string as a NEGOTIATE, CHALLENGE or AUTHENTICATE message or as any of their structures terminates and returns either a value or an error, in builds with debug assertions too; it never panics, and a decoded CHALLENGE can be given to a client at any level, which then still produces its AUTHENTICATE.",
 ["inputs"], "all byte strings: truncated, over-long, with offsets and lengths pointing anywhere, odd-length or NUL-containing text, malformed AV pairs",
 "Tests decode only valid messages.",
 [FLD, AV, CHA, AUT, NEG, UNI, NT, LMC, VER, FT], [("Field::get_range and slicing", FLD), ("AvPair::deserialize remainder checks", AV)],
 (), ["decode outcome"], HOOK)

prop("C10", "The decoder reads exactly what the headers designate",
 "A message is accepted exactly when the signature, message type and fixed header are present, every designated payload range lies inside the input (for the LM response an unusable field counts as absent), the version (present iff its flag is set) has zero reserved bytes and revision 15, NEGOTIATE names are UTF-8 (a UTF-16 name is read up to the first NUL or invalid unit), and a CHALLENGE's target information is empty or ends with the terminator. A list of AV pairs runs up to the first pair with an unknown id or a value that is malformed for its id, and what follows is ignored; a pair whose value is cut short by the end of the field makes the message unacceptable. The value returned is then exactly the one designated by the little-endian header and the ranges it names, wherever they lie, also when they overlap or are out of order; bytes outside those ranges do not influence it.",
 ["inputs"], "all byte strings, any placement of payload fields",
 "Tests decode a few messages in the usual payload order and never a rejected one.",
 [NEG, CHA, AUT, FLD, AV, UNI, VER, NT], [("deserialize implementations", MSG), ("Field::get_data_if / get_many_if", FLD)],
 (), ["decode results"], HOOK)

prop("C11", "Emitted messages have an exact, self-consistent wire layout",
 "Every encoded message starts with the NTLMSSP signature and its message type, has the fixed header (32, 48, 64 bytes) followed by the 8-byte version iff a version is present (and then the 16-byte MIC in AUTHENTICATE), and then the payload fields back to back in header order; each present field's descriptor has length = maximum length = its payload size and an offset to exactly that payload, each absent field's descriptor is zero, integers are little-endian, AUTHENTICATE and CHALLENGE text is UTF-16LE and NEGOTIATE text is 8-bit. What the client returns is exactly one such message, with nothing left over from earlier messages.",
 ["inputs", "histories"], "all message values the API can build and all client call histories",
 "Tests compare a few messages or only their own round trip, which a symmetric error passes.",
 [NEG, CHA, AUT, FLD, CL], [("Field::append / append_many", FLD), ("PAYLOAD_OFFSET assertions", AUT), ("buffer.clear()", CL)],
 (), ["encoded bytes"], HOOK)

prop("C12", "AUTHENTICATE flags state what was negotiated and what the message carries",
 "The flags of a client's AUTHENTICATE are the flags of the accepted challenge except that: key exchange is set iff an encrypted session key is present, version is set iff a version is present, OEM and server-target-type are cleared, and Unicode (the encoding of its strings), target-info and request-target are set. An AUTHENTICATE so built always decodes with this library's own decoder to the same user, domain, workstation, responses and key.",
 ["inputs", "configurations"], "every 32-bit challenge flag word, with and without client version, levels 0-5",
 "One fixed flag word in a test that fails; servers routinely send the version flag, which no passing test combines with a client.",
 [CL, AUT], [("flag edits in send_authenticate", CL), ("set_encrypted_random_session_key", AUT)], (), ["AUTHENTICATE bytes"], HOOK)

prop("C13", "A challenge's target information is always a terminated, ordered list",
 "A CHALLENGE built through the API holds, after any sequence of additions, exactly the added items in the order of addition followed by one terminator, and has the target-info flag set as soon as there is an item; with no addition the list is empty. Filling from the environment adds, in a fixed order, exactly the names whose variables are set (NetBIOS names upper-cased); adding to a decoded CHALLENGE keeps its items and keeps the terminator last.",
 ["histories", "inputs"], "all sequences of builder calls of all kinds with any values, starting from an empty or decoded challenge, and all environments",
 "One test makes one sequence of four additions.",
 [CHA], [("add_target_info", CHA), ("fill_from_env", CHA)], [("target_infos", "AV pair list", CHA)], ["get_target_infos, negotiate_flags, encoded bytes"])

prop("C14", "The strict feature rejects what the protocol forbids, the default accepts it",
 "Built with the strict feature, decoding fails for any message whose flag word has a reserved bit set, both target types, neither Unicode nor OEM, or both extended session security and LM key, and for a CHALLENGE whose 8 reserved bytes are not zero; any other message decodes as without the feature. Built without it, none of these makes decoding fail, and all 32 flag bits are kept as received.",
 ["configurations", "inputs"], "both feature configurations x every 32-bit flag word x reserved fields, in all three messages",
 "No test runs with the feature, and no test decodes a forbidden flag word.",
 [FLG, CHA, "Cargo.toml"], [("Flags::validate", FLG), ("parse_reserved", CHA)], (), ["decode outcome in both builds"], HOOK)

prop("C15", "FILETIME values denote the same instant as the system time they stand for",
 "A FILETIME made from a system time is the number of 100-nanosecond intervals since 1601-01-01 UTC (rounded down), and converting a FILETIME to a system time gives the instant it denotes; so conversion in either direction preserves order, and FILETIME to system time to FILETIME is the identity from 1970 on. Times before 1970 are refused when made from a system time, and no 64-bit value makes conversion or decoding panic.",
 ["inputs"], "all system times from 1970 and all 64-bit FILETIME values",
 "No test covers FILETIME conversion.",
 [FT], [("TryFrom<SystemTime>, to_system_time, as_u64", FT)], (), ["conversion results"])

prop("C16", "The identity on the wire is the identity the client was created with",
 "A client created from DOMAIN\\user or user@domain (first separator; backslash wins) or a bare user name, or from separate parts, sends exactly that user, domain (not case-changed) and workstation in AUTHENTICATE, and exactly that domain in NEGOTIATE when it is not empty. The workstation is COMPUTERNAME as is when set, otherwise the first line of /etc/hostname up to the first dot, trimmed and upper-cased, otherwise absent.",
 ["inputs", "configurations"], "all account strings in all notations, any Unicode, any environment and hostname file",
 "No passing test looks at the identity fields a client sends.",
 [CL, NEG, UNI], [("Client::new / new_with_domain", CL), ("get_workstation_name", CL)], (), ["NEGOTIATE and AUTHENTICATE bytes"], HOOK)

prop("C17", "Message setters, getters and presence flags agree",
 "After any sequence of setter calls on a message, each getter returns the last value set (or nothing after clearing), setting or clearing one field never changes another, and the associated flag (target name: request-target; NEGOTIATE domain and workstation: their supplied flags; encrypted session key: key exchange) is set exactly when the last call to that setter gave a value, all other flag bits being left alone.",
 ["histories", "inputs"], "all sequences of setter calls on NEGOTIATE, CHALLENGE and AUTHENTICATE values",
 "Tests build each message once, mostly with struct literals.",
 [NEG, CHA, AUT, MSG], [("generate_setter_getter", MSG), ("set_domain_name / set_workstation", NEG), ("set_encrypted_random_session_key", AUT)],
 (), ["getters, public flags field, encoded bytes"])

prop("C18", "Flag words are sets of 32 independent bits",
 "Setting or clearing a flag changes that bit only, testing it tells whether it was last set, all 32 bits are kept through encoding (little-endian) and decoding in the default build, each named flag has the bit position MS-NLMP 2.2.2.5 gives it, and the debug rendering names exactly the set flags, from bit 31 to bit 0 separated by a bar.",
 ["histories", "inputs"], "all sequences of set/clear operations and all 32-bit words",
 "Two words are decoded in tests; rendering and clearing are untested.",
 [FLG], [("has_flag / set_flag / clear_flag / Debug", FLG)], (), ["has_flag, public word, Debug output, encoded bytes"], HOOK)

prop("C19", "Secrets never leave the client in clear",
 "Neither any message the client emits nor anything it writes to the log, standard output or standard error contains, as bytes, text or rendered bytes, the password, the LM hash, the NT hash, the NTLMv2 hash, the session base key, the key exchange key or the exported session key (passwords that are part of the public identity excepted).",
 ["inputs", "histories", "configurations"], "all credentials, levels, challenges and call histories",
 "No test looks for secrets in outputs.",
 [CL, CR], [("what is put into messages, dbg! and log calls", CL)], (), ["emitted bytes, stdout, stderr, log records"], KEYHOOK)

prop("C20", "A client can be created and used with any credentials in any environment",
 "Creating a client with any user name, domain and password (of any length up to what a message field can hold, any Unicode text, empty or not) and in any environment (COMPUTERNAME set or not, /etc/hostname absent, empty or arbitrary text) does not panic, and a handshake with it completes at every compatibility level 0 to 5.",
 ["inputs", "configurations"], "all credential strings, environments and levels",
 "Tests use one ASCII user and password.",
 [CL, LM, NTH], [("prepare_password / lmowfv1", LM), ("get_workstation_name", CL)], (), ["panics of new, send_negociate, send_authenticate"])

prop("C21", "NEGOTIATE offers exactly the capabilities of the client's level, every time",
 "Every NEGOTIATE offers Unicode, OEM, request-target, sign, seal, always-sign, 128-bit and server-target-type, and in addition: at level 0 NTLM, LM key and key exchange; at level 1 NTLM and extended session security; at levels 2 to 5 extended session security, key exchange and target-info; plus domain-supplied iff a domain is carried and version iff a version is carried, and no other flag. It is the same message in every handshake of a client whatever happened before, and LM key and extended session security are never offered together.",
 ["histories", "configurations", "inputs"], "all levels, identities, version settings and call histories",
 "No passing test looks at a NEGOTIATE made by a client.",
 [CL, NEG], [("send_negociate", CL)], (), ["NEGOTIATE bytes"], HOOK)

prop("C22", "The Windows SSPI client relays tokens faithfully",
 "On Windows, the SSPI-backed client returns exactly the token the operating system produced for each step and feeds it exactly the challenge bytes it was given.",
 ["inputs", "histories"], "all challenge tokens and call sequences on Windows",
 "The code only compiles on Windows; its two tests do not exist elsewhere.",
 ["src/win.rs"], [("initialize_security_context", "src/win.rs")], (), ["returned buffers"])

prop("C23", "A message depends on nothing but its own client and handshake",
 "Apart from its nonces and what is computed from them, its time stamp and its MIC, every NEGOTIATE and AUTHENTICATE is byte for byte the one function of the client's user, domain, password, workstation (as found when the client was created), level and version and, for AUTHENTICATE, of the accepted challenge's flags, server challenge and target information. Nothing else influences it: not other clients of the process, not earlier handshakes of the same client or refused and superfluous calls, not the environment after the client was created, not the target service the client was created for.",
 ["histories", "configurations", "inputs"], "all interleavings of calls on any number of clients, environment changes at any moment, clients replaced by others, all levels, identities and challenges",
 "Every test uses one client in one environment and one straight history; an influence that should not be there only shows when two runs differ in it.",
 [CL, NEG, AUT], [("send_negociate", CL), ("send_authenticate_ntlmv1 / v2", CL), ("new_with_domain", CL)],
 [("Client fields", "identity, version and handshake state", CL)], ["NEGOTIATE and AUTHENTICATE bytes"], HOOK)

prop("C24", "Computing a MIC yields the MIC of the three messages as they are now",
 "Computing the MIC of an AUTHENTICATE that holds an exported session key sets its MIC to HMAC-MD5, under that key, of the encodings of the given NEGOTIATE, the given CHALLENGE and the AUTHENTICATE with its MIC field zero, whatever MIC it had before, so that computing it again changes nothing. An AUTHENTICATE without an exported session key keeps the MIC it has, and no other field ever changes.",
 ["histories", "inputs"], "all message values, keys and sequences of setter, builder and MIC calls",
 "No test computes a MIC through the public operation, none twice or after a change.",
 [AUT], [("Authenticate::compute_mic", AUT)], [("mic, exported_session_key", "fields of AUTHENTICATE", AUT)], ["the AUTHENTICATE before and after"], HOOK)

prop("C25", "Values drawn at random are fresh, whole and unrelated",
 "Every nonce, key, response, MIC and padding type draws its random values in full: all its bytes vary, no value and no 8 bytes of one ever come back in another, whatever their types, and this also holds between two processes.",
 ["histories", "configurations"], "all sequences of draws of all eleven types, in one process and in another, alone or between handshakes",
 "A test sees a few values; repeats, constant bytes and draws shared between values only show across many.",
 [STR], [("buffer_aliases! random", STR)], (), ["the values"])

prop("C26", "Conversions between values and structures keep the value",
 "Making a version from its numbers (revision 15) or from its 8 bytes (refused unless reserved bytes are zero and the revision is 15), a text or fixed-size buffer from plain values and back, a response of one generation into the general one, and one key type into another keeps exactly what was given, and a buffer is rendered as the lower-case hexadecimal digits of its bytes. The LM response made from a client challenge is that challenge padded with zeros; the LMv2 response made from a server challenge, an NTLM hash and a client challenge is the HMAC-MD5 of both challenges under that hash followed by the client challenge; the id reported for an AV pair is the one it is encoded with.",
 ["inputs"], "all values of the plain and structured types",
 "No test calls these conversions other than on the way to something else, with one value each.",
 [STR, VER, LMC, NT, UNI, AV], [("From / TryFrom implementations", STR), ("Version::try_from", VER), ("from_server_challenge", LMC)], (), ["the values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
