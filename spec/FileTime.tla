------------------------------ MODULE FileTime ------------------------------
(* FILETIME: 100-nanosecond intervals since 1601-01-01 (MS-DTYP 2.3.3).     *)
(* 64-bit numbers are little-endian digit strings.                          *)
EXTENDS Bytes, Integers

\* 11,644,473,600 s = 116,444,736,000,000,000 intervals from 1601 to 1970 = 0x019db1ded53e8000
EpochTicks == <<0, 128, 62, 213, 222, 177, 157, 1>>

\* seconds (8 digits) and nanoseconds since 1970 -> number of intervals since 1601 (any number of digits)
Ticks(secs, nanos) == LET t == MulC(MulC(secs, 10000, 0), 1000, 0)
                      IN Add(Add(t, LE32(nanos \div 100)), EpochTicks)

\* intervals -> <<seconds (digits), nanoseconds>>
Seconds(ticks) == LET d1 == Div(ticks, 10000)          \* 10^7 = 10^4 * 10^3
                      d2 == Div(d1[1], 1000)
                  IN <<d2[1], (d2[2] * 10000 + d1[2]) * 100>>

\* the instant a FILETIME denotes: [neg |-> before 1970?, secs, nanos] as a distance from 1970
Instant(ft) ==
  IF NumLeq(EpochTicks, ft)
  THEN LET s == Seconds(Sub(ft, EpochTicks)) IN [neg |-> FALSE, secs |-> s[1], nanos |-> s[2]]
  ELSE LET s == Seconds(Sub(EpochTicks, ft)) IN [neg |-> TRUE, secs |-> s[1], nanos |-> s[2]]
=============================================================================
