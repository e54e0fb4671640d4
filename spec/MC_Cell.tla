------------------------------- MODULE MC_Cell -------------------------------
(* A value is written under a datatype and read back.                         *)
EXTENDS Cell, TLC, Json
CONSTANT Which
VARIABLES dt, val, text
vars == <<dt, val, text>>

NoFacets == [length |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>, bounds |-> <<>>]
Dt(base, f) == [base |-> base, f |-> f, length |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>, bounds |-> <<>>]
None == [k |-> "none"]
NF(pat, dec, grp) == [k |-> "num", pat |-> pat, dec |-> dec, grp |-> grp]

\* ---- numbers
Patterns == {C("0"), C("00"), C("000"), C("#0"), C("#,##0"), C("#,##,##0"), C("0,000"), C("#,#00"), C("0.0"), C("0.00"),
             C("0.##"), C("0.0#"), C("#,##0.00"), C("#,##,##0.0##"), C("0%"), C("0.0%"), C("#,##0.##%"), C("0.##") \o <<8240>>}
Seps == { << <<>>, <<>> >>, << <<44>>, <<46>> >>, << <<44>>, <<32>> >>, << <<46>>, <<44>> >>, << <<1643>>, <<1644>> >> }
PatFormats == {NF(p, s[1], IF HasChar(p, 44) THEN s[2] ELSE <<>>) : p \in Patterns, s \in Seps}
              \ {x \in {NF(p, <<44>>, <<>>) : p \in Patterns} : HasChar(x.pat, 44)}
PlainFormats == {None} \cup ({NF(<<>>, s[1], s[2]) : s \in Seps} \ {NF(<<>>, <<>>, <<>>)})
DigitSeqs == { <<>> } \cup {<<a>> : a \in 1..9} \cup {<<a, b>> : a \in {1, 9}, b \in 0..9}
             \cup { <<1, 2, 3, 4>>, <<9, 9, 9, 5>>, <<9, 9, 9, 9, 9>>, <<1, 2, 3, 4, 5, 6, 7>>, <<1, 0, 0, 0, 0, 0, 5>>,
                    <<1, 2, 3, 4, 5, 6, 7, 8, 9, 0, 1, 2, 5>>, <<4, 5>>, <<5, 5>>, <<1, 0, 0, 5>> }
NumVals(k) == {<<"num", k, n, d, e>> : n \in BOOLEAN, d \in DigitSeqs, e \in IF k = "i" THEN {0} ELSE {-4, -3, -2, -1, 0, 2}}
              \ {<<"num", k, TRUE, <<>>, e>> : e \in -4..2}
\* ---- the rest
Uris == {C("http://ex.org/a?b=c#d"), C("urn:x:y"), <<>>}
Bins == { <<>>, <<0>>, <<255, 0>>, <<1, 2, 3>>, [i \in 1..57 |-> i], [i \in 1..58 |-> 255 - i], [i \in 1..130 |-> (i * 7) % 256] }
Durs == {<<"dur", <<FALSE, y, m, d, s, us>>>> : y \in {0, 1}, m \in {0, 11}, d \in {0, 1, 40}, s \in {0, 1, 60, 3600, 86399}, us \in {0, 1, 500000}}
        \cup { <<"dur", <<TRUE, 0, 3, 1, 61, 250000>>>> }
Strs == { <<>>, C("a b"), <<233, 128512>>, C("x.-:_9"), C(" a"), <<10, 97, 9>> }
Trees == LET leaf == { <<"n">>, <<"b", 1>>, <<"num", "i", TRUE, <<1, 2>>, 0>>, <<"num", "f", FALSE, <<5>>, -1>>,
                       <<"s", <<34, 92, 10, 233, 128512, 1>> >>, <<"s", <<>> >> }
             one == leaf \cup {<<"l", <<a>> >> : a \in leaf} \cup {<<"o", <<<<C("k"), a>>>> >> : a \in leaf} \cup {<<"l", <<>> >>, <<"o", <<>> >>}
         IN one \cup {<<"l", <<a, b>> >> : a \in one, b \in leaf} \cup {<<"o", <<<<C("k"), a>>, << <<>>, b>>>> >> : a \in one, b \in leaf}
BoolF == [k |-> "bool", t |-> C("Y"), f |-> C("N")]

Datatypes ==
  CASE Which = "pattern" -> {Dt("decimal", f) : f \in PatFormats}
    [] Which = "num" -> {Dt(b, f) : b \in {"decimal", "number", "integer", "byte", "unsignedByte", "positiveInteger",
                                            "negativeInteger", "short"}, f \in PlainFormats}
    [] Which = "rest" -> {Dt(b, None) : b \in BinBases \cup DurBases \cup TextBases \cup {"any", "json", "anyURI", "boolean"}}
                         \cup {Dt("boolean", BoolF)}
ValuesOf(b) ==
  CASE b = "decimal" -> NumVals("d") [] b = "number" -> NumVals("f") [] b \in IntBases -> NumVals("i")
    [] b \in BinBases -> {<<"bin", x>> : x \in Bins}
    [] b \in DurBases -> Durs
    [] b = "json" -> {<<"j", x>> : x \in Trees}
    [] b = "anyURI" -> {<<"u", x>> : x \in Uris}
    [] b = "boolean" -> {<<"b", 0>>, <<"b", 1>>}
    [] OTHER -> {<<"s", x>> : x \in Strs}

Init == dt \in Datatypes /\ val = <<>> /\ text = <<>>
Next == /\ val = <<>>
        /\ val' \in ValuesOf(dt.base)
        /\ text' = Write(dt, val')
        /\ UNCHANGED dt
RoundTrip == (val # <<>> /\ Representable(dt, val)) => Read(dt, text) = Ok1(Canon(val))
\* a written number is one the format accepts, or one out of range
Accepted == (val # <<>> /\ dt.base \in {"decimal", "number"}) => Read(dt, text).k = "ok"
\* whatever is written by rounding differs from the value by at most half a unit of the last place
Rounded == (val # <<>> /\ dt.base = "decimal" /\ dt.f.k = "num" /\ dt.f.pat # <<>>) =>
  LET p == ParseNumPat(dt.f.pat)
      got == NumOf(Read(dt, text).v)
      half == NumN(FALSE, <<5>>, -(p.maxfrac + p.pct) - 1)
      \* |val| - half <= |got| <= |val| + half, checked on digit sequences scaled to integers
      s == p.maxfrac + p.pct + 6
      A(n) == LET d == RoundD([NumOf(<<"num", "d", FALSE, n.d, n.e>>) EXCEPT !.neg = FALSE], s) IN d
  IN Len(A(NumOf(val))) <= 9 => LET V(n) == FoldLeft(LAMBDA a, x : a * 10 + x, 0, A(n))
        IN /\ V(got) - V(NumOf(val)) <= V(half)
           /\ V(NumOf(val)) - V(got) <= V(half)
=============================================================================
