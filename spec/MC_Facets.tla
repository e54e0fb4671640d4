------------------------------ MODULE MC_Facets ------------------------------
(* Value constraints: the order is total on comparable values, a consistent   *)
(* description excludes only what its bounds say, contradictory descriptions   *)
(* have no values.                                                            *)
EXTENDS Cell, TLC
VARIABLES dt, text
vars == <<dt, text>>
Names == {"minimum", "maximum", "minInclusive", "maxInclusive", "minExclusive", "maxExclusive"}
Texts == [b \in {"decimal", "integer", "datetime", "number", "duration"} |->
   CASE b = "decimal" -> {C("-1"), C("0"), C("0.5"), C("0.50"), C("12345678901234567890.1"), C("12345678901234567890.2"), C("INF"), C("NaN")}
     [] b = "integer" -> {C("-1"), C("0"), C("1"), C("+01")}
     [] b = "number" -> {C("-1.5"), C("0"), C("1e3"), C("NaN"), C("-INF")}
     [] b = "duration" -> {C("P1M"), C("P30D"), C("P31D"), C("P27D"), C("-P1D"), C("PT0.5S"), C("P1Y"), C("P12M"), C("-P1Y2M3DT4H5M6.5S")}
     [] b = "datetime" -> {C("2020-01-01T00:00:00"), C("2020-01-01T00:00:00Z"), C("2020-01-01T01:00:00+01:00"), C("2019-12-31T23:59:59.5")}]
D(b, bs) == [base |-> b, f |-> [k |-> "none"], length |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>, bounds |-> bs]
Init == \E b \in DOMAIN Texts :
          /\ \E n1, n2 \in Names, v1, v2 \in Texts[b] : dt = D(b, << <<n1, v1, FALSE>>, <<n2, v2, FALSE>> >>)
          /\ text = <<>>
Next == text = <<>> /\ text' \in Texts[dt.base] /\ UNCHANGED dt
V == Parse([dt EXCEPT !.bounds = <<>>], text)
B(i) == BoundV(dt, dt.bounds[i]).v
R == Read(dt, text)
Antisym == text # <<>> => LET c == CmpV(V.v, B(1)) e == CmpV(B(1), V.v) IN (c = 9) = (e = 9) /\ (c # 9 => c = -e)
Trans == text # <<>> => ((CmpV(V.v, B(1)) \in {-1, 0} /\ CmpV(B(1), B(2)) \in {-1, 0}) => CmpV(V.v, B(2)) \in {-1, 0})
\* contradictory: no value satisfies both bounds (apart from the forbidden combinations)
LowerB == {"minimum", "minInclusive", "minExclusive"}
Empty == (text # <<>> /\ ~Consistent(dt) /\ ((dt.bounds[1][1] \in LowerB) # (dt.bounds[2][1] \in LowerB))) => R.k = "err"
Excludes == (text # <<>> /\ R.k = "err") => \E i \in 1..2 : ~Within(dt, V.v, dt.bounds[i])
Reachable == (text # <<>> /\ R.k = "ok") => R.v = V.v
=============================================================================
