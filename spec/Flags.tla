------------------------------- MODULE Flags -------------------------------
(* Flag words: sets of bit positions (MS-NLMP 2.2.2.5).                     *)
EXTENDS Bytes

UNICODE == 0        OEM == 1            REQUEST_TARGET == 2  R10 == 3
SIGN == 4           SEAL == 5           DATAGRAM == 6        LM_KEY == 7
R9 == 8             NTLM == 9           R8 == 10             ANONYMOUS == 11
OEM_DOMAIN == 12    OEM_WORKSTATION == 13  R7 == 14          ALWAYS_SIGN == 15
TARGET_DOMAIN == 16 TARGET_SERVER == 17 R6 == 18             ESS == 19
IDENTIFY == 20      R5 == 21            NON_NT == 22         TARGET_INFO == 23
R4 == 24            VERSION == 25       R3 == 26             R2 == 27
R1 == 28            N128 == 29          KEY_EXCH == 30       N56 == 31

Bits     == 0..31
Reserved == {R1, R2, R3, R4, R5, R6, R7, R8, R9, R10}

\* 4 little-endian bytes <-> set of bits
FlagSet(b)   == {k \in Bits : (b[(k \div 8) + 1] \div (2^(k % 8))) % 2 = 1}
FlagByte(F, i) == LET s(k) == IF (8 * i + k) \in F THEN 2^k ELSE 0
                  IN s(0) + s(1) + s(2) + s(3) + s(4) + s(5) + s(6) + s(7)
FlagBytes(F) == <<FlagByte(F, 0), FlagByte(F, 1), FlagByte(F, 2), FlagByte(F, 3)>>

\* What the strict feature refuses
Forbidden(F) == \/ F \cap Reserved # {}
                \/ {TARGET_DOMAIN, TARGET_SERVER} \subseteq F
                \/ F \cap {UNICODE, OEM} = {}
                \/ {ESS, LM_KEY} \subseteq F

FlagName(k) ==
  CASE k = 31 -> "NTLMSSP_NEGOTIATE_56"            [] k = 30 -> "NTLMSSP_NEGOTIATE_KEY_EXCH"
    [] k = 29 -> "NTLMSSP_NEGOTIATE_128"           [] k = 28 -> "R1"
    [] k = 27 -> "R2"                              [] k = 26 -> "R3"
    [] k = 25 -> "NTLMSSP_NEGOTIATE_VERSION"       [] k = 24 -> "R4"
    [] k = 23 -> "NTLMSSP_NEGOTIATE_TARGET_INFO"   [] k = 22 -> "NTLMSSP_REQUEST_NON_NT_SESSION_KEY"
    [] k = 21 -> "R5"                              [] k = 20 -> "NTLMSSP_NEGOTIATE_IDENTIFY"
    [] k = 19 -> "NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY"
    [] k = 18 -> "R6"                              [] k = 17 -> "NTLMSSP_TARGET_TYPE_SERVER"
    [] k = 16 -> "NTLMSSP_TARGET_TYPE_DOMAIN"      [] k = 15 -> "NTLMSSP_NEGOTIATE_ALWAYS_SIGN"
    [] k = 14 -> "R7"                              [] k = 13 -> "NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED"
    [] k = 12 -> "NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED"
    [] k = 11 -> "NTLMSSP_ANONYMOUS"               [] k = 10 -> "R8"
    [] k = 9  -> "NTLMSSP_NEGOTIATE_NTLM"          [] k = 8  -> "R9"
    [] k = 7  -> "NTLMSSP_NEGOTIATE_LM_KEY"        [] k = 6  -> "NTLMSSP_NEGOTIATE_DATAGRAM"
    [] k = 5  -> "NTLMSSP_NEGOTIATE_SEAL"          [] k = 4  -> "NTLMSSP_NEGOTIATE_SIGN"
    [] k = 3  -> "R10"                             [] k = 2  -> "NTLMSSP_REQUEST_TARGET"
    [] k = 1  -> "NTLM_NEGOTIATE_OEM"              [] k = 0  -> "NTLMSSP_NEGOTIATE_UNICODE"

\* The debug rendering: set flags from bit 31 down, separated by a bar
FlagDebug(F) ==
  LET desc == SetToSortSeq(F, LAMBDA x, y : x > y)
      piece(i) == (IF i = 1 THEN <<>> ELSE Ascii("|")) \o Ascii(FlagName(desc[i]))
  IN FlattenSeq([i \in 1..Len(desc) |-> piece(i)])
=============================================================================
