--------------------------- MODULE MC_Frictionless ----------------------------
(* What a field of a table schema says about texts, and what the description it *)
(* is translated to says, are the same.                                         *)
EXTENDS Frictionless, Json
VARIABLES f, missing, pc
vars == <<f, missing, pc>>

Field(t) == [name |-> C("a"), type |-> t, fmt |-> "", title |-> <<>>, descr |-> <<>>, rdf |-> <<>>, tv |-> <<>>, fv |-> <<>>, dec |-> <<>>,
             grp |-> <<>>, required |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>, minimum |-> <<>>, maximum |-> <<>>, pattern |-> <<>>]
Kinds == {"string", "integer", "number", "boolean", "date", "time", "datetime", "duration", "year", "yearmonth", "object", "array", "geojson",
          "any", "geopoint", ""}
Texts(t) ==
  CASE t \in {"integer", "number"} -> <<C("1"), C("-3"), C("1.5"), C("1,5"), C("1.000"), C("1,000"), C("x"), C("2"), C("1000")>>
    [] t = "boolean" -> <<C("true"), C("false"), C("1"), C("ja"), C("nein"), C("j"), C("x")>>
    [] t = "date" -> <<C("2020-01-01"), C("2020-01-02"), C("1999-12-31"), C("2020-13-01"), C("x")>>
    [] t = "time" -> <<C("12:00:00"), C("11:59:59"), C("25:00:00")>>
    [] t = "datetime" -> <<C("2020-01-01T00:00:00"), C("2019-12-31T23:59:59"), C("x")>>
    [] t = "duration" -> <<C("P1Y"), C("PT1H"), C("x")>>
    [] t \in {"year", "yearmonth"} -> <<C("1990"), C("2001"), C("1990-05"), C("x")>>
    [] t \in {"object", "array", "geojson"} -> <<C("1"), C("[]"), C("x")>>
    [] OTHER -> <<C("a"), C("ab"), C("abcd"), C("http://example.org/"), C("1")>>
Always == << <<>>, C("NA"), C("-")>>
Bounds(t) == CASE t = "integer" -> {C("1"), C("2")} [] t = "number" -> {C("1"), C("1.5")} [] t = "date" -> {C("2020-01-01"), C("2020-01-02")}
               [] t = "time" -> {C("12:00:00")} [] t = "datetime" -> {C("2020-01-01T00:00:00")} [] t = "year" -> {C("1995")}
               [] t = "yearmonth" -> {C("1990-05")} [] OTHER -> {}
Two == <<"rep", <<"set", C("ab"), FALSE>>, 2, 2>>
Opt(s) == {<<>>} \cup {<<x>> : x \in s}
Plains(s) == Opt({<<x, FALSE>> : x \in s})
Synonyms(g) ==
  {g} \cup (IF g.type = "boolean" THEN {[g EXCEPT !.tv = <<C("ja"), C("j")>>, !.fv = <<C("nein")>>]} ELSE {})
      \cup (IF g.type \in {"number", "integer"} THEN {[g EXCEPT !.grp = <<C(",")>>], [g EXCEPT !.grp = <<C(".")>>, !.dec = <<C(",")>>]} ELSE {})
      \cup (IF g.type = "string" THEN {[g EXCEPT !.fmt = x] : x \in {"uri", "email"}} ELSE {})
Constrained(g) ==
  {[g EXCEPT !.required = r, !.minimum = a, !.maximum = b] :
     r \in {<<>>, <<TRUE>>, <<FALSE>>}, a \in Plains(Bounds(g.type)), b \in Plains(Bounds(g.type))}
  \cup (IF g.type # "string" THEN {} ELSE
         {[g EXCEPT !.required = r, !.minLength = a, !.maxLength = b, !.pattern = p] :
            r \in {<<>>, <<TRUE>>}, a \in Opt({1, 2}), b \in Opt({1, 3}), p \in {<<>>, <<Two>>}})
Missing == {<< <<>> >>, <<C("NA")>>, <<C("-"), <<>> >>}

Init == f \in {Field(t) : t \in Kinds} /\ missing \in Missing /\ pc = "synonyms"
Synonym == pc = "synonyms" /\ f' \in Synonyms(f) /\ pc' = "constraints" /\ UNCHANGED missing
Constrain == /\ pc = "constraints"
             /\ f' \in {x \in Constrained(f) : TRUE}
             /\ pc' = "done"
             /\ PrintT(<<"GEN", ToJson([f |-> f', missing |-> missing, texts |-> Texts(f.type) \o Always])>>)
             /\ UNCHANGED missing
Next == Synonym \/ Constrain
Spec == Init /\ [][Next]_vars

R == [path |-> <<C("a.csv")>>, name |-> <<>>, scheme |-> "file", format |-> "csv", schema |-> TRUE, fields |-> <<f>>, missing |-> <<missing>>, pk |-> <<>>,
      fks |-> <<>>, enc |-> <<>>, header |-> <<>>, delim |-> <<>>, quote |-> <<>>, dbl |-> <<>>, skipsp |-> <<>>, comment |-> <<>>]
Same == LET md == FlTable(R)
        IN (pc = "done" /\ Consistent(FlDatatype(f))) =>
             \A i \in DOMAIN (Texts(f.type)) :
                LET t == Texts(f.type)[i] IN ReadCell(Levels(md, 1), t) = FlRead(missing, f, t)
SameMissing == LET md == FlTable(R)
               IN (pc = "done" /\ Consistent(FlDatatype(f))) => \A i \in DOMAIN Always : ReadCell(Levels(md, 1), Always[i]) = FlRead(missing, f, Always[i])
NoComments == FlDialect(R).comment = <<>>
=============================================================================
