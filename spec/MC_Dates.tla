------------------------------- MODULE MC_Dates -------------------------------
(* Every pattern, written and read back.                                      *)
EXTENDS Dates, TLC, Json
CONSTANT Emit
VARIABLES pat, timeonly, val, text
vars == <<pat, timeonly, val, text>>

TzMarkers == {<<>>, C("X"), C("XX"), C("XXX"), C("x"), C("xx"), C("xxx"), C(" X"), C(" XXX"), C(" xx")}
Fracs == {<<>>, C(".S"), C(".SSS"), C(".SSSSSS")}
TimePart == {tp \o (IF Len(tp) \in {8, 6} THEN f ELSE <<>>) : tp \in TimePatterns, f \in Fracs}
DtPatterns == {d \o z : d \in DatePatterns, z \in TzMarkers}
              \cup {d \o <<s>> \o t \o z : d \in DatePatterns, s \in {SP, 84}, t \in TimePart, z \in TzMarkers}
TPatterns == {t \o z : t \in TimePart, z \in TzMarkers}
Values == { << <<2024, 2, 29, 0, 0, 0, 0>>, <<>> >>,
            << <<1, 1, 1, 23, 59, 59, 999999>>, <<0>> >>,
            << <<9999, 12, 31, 7, 5, 9, 290000>>, <<-210>> >>,
            << <<1999, 10, 5, 12, 0, 30, 5>>, <<330>> >>,
            << <<476, 9, 4, 10, 1, 0, 120>>, <<-60>> >> }
Mask(v) == [k \in 1..7 |-> IF k <= 3 THEN 0 ELSE v[k]]

Init == /\ \/ pat \in DtPatterns /\ timeonly = FALSE
           \/ pat \in TPatterns /\ timeonly = TRUE
        /\ val = <<>> /\ text = <<>>
Write == /\ val = <<>>
         /\ \E x \in Values : val' = IF timeonly THEN <<Mask(x[1]), x[2]>> ELSE x
         /\ text' = WriteDt(ParsePattern(pat, timeonly), val'[1], val'[2])
         /\ (Emit => PrintT(<<"GEN", ToJson([pat |-> pat, timeonly |-> timeonly, v |-> val'])>>))
         /\ UNCHANGED <<pat, timeonly>>
Next == Write
P == ParsePattern(pat, timeonly)
Shortened(marker, tz) == marker # <<>> /\ tz # <<>> /\ FALSE
RoundTrip == val # <<>> =>
  LET r == ReadDt(P, text, timeonly)
      k == Kept(P, val[1], val[2], timeonly)
  IN /\ P.ok
     /\ (timeonly \/ P.date # <<>>) => r.ok
     /\ r.ok => <<r.v, r.tz>> = k
Iso == val # <<>> /\ ~timeonly => LET r == ReadIso(WriteIso(val[1], val[2]))
                                  IN r.k = "ok" /\ r.r.v = val[1] /\ r.r.tz = val[2]
\* the order of instants agrees with the order of written UTC texts
Ordered == val # <<>> => \A x \in Values :
  (~timeonly /\ x[2] = <<>> /\ val[2] = <<>>) =>
     (CmpSeq(Instant(x[1], <<>>), Instant(val[1], <<>>)) = CmpSeq(x[1], val[1]))
=============================================================================
