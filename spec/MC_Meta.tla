-------------------------------- MODULE MC_Meta --------------------------------
(* All descriptions with up to Depth members of any value added at one place of   *)
(* a minimal one.  What a description is normalised to is itself valid, says the  *)
(* same, and does not depend on the order of members.                             *)
EXTENDS Meta, Json
CONSTANTS Depth, Places, Small, Emit
VARIABLES pl, ms
O(s) == <<"o", s>>
L(s) == <<"l", s>>
N(n) == <<"i", n>>
Col(s) == O(<< <<"name", Str("a")>> >> \o s)
Url(s) == O(<< <<"url", Str("a.csv")>> >> \o s)
Plain(k, v) == << <<k, v>> >>
SchemaWith(s) == Url(Plain("tableSchema", O(<< <<"columns", L(<<Col(<<>>), O(Plain("name", Str("b")))>>)>> >> \o s)))
ColumnWith(s) == Url(Plain("tableSchema", O(Plain("columns", L(<<O(Plain("name", Str("b"))), O(s)>>)))))
Build(p, s) ==
  CASE p = "group" -> O(Plain("tables", L(<<Url(<<>>)>>)) \o s)
    [] p = "table" -> Url(s)
    [] p = "schema" -> SchemaWith(s)
    [] p = "column" -> ColumnWith(s)
    [] p = "dialect" -> Url(Plain("dialect", O(s)))
    [] p = "datatype" -> ColumnWith(Plain("datatype", O(s)))
    [] p = "common" -> Url(Plain("dc:title", O(s)))
    [] p = "titles" -> ColumnWith(Plain("titles", O(s)))
    [] p = "format" -> ColumnWith(Plain("datatype", O(<< <<"base", Str("decimal")>>, <<"format", O(s)>> >>)))
    [] p = "context" -> Url(Plain("@context", L(<<Str("http://www.w3.org/ns/csvw"), O(s)>>)))
    [] p = "reference" -> SchemaWith(Plain("foreignKeys", L(<<O(<< <<"columnReference", Str("a")>>, <<"reference", O(s)>> >>)>>)))
    [] p = "key" -> SchemaWith(Plain("foreignKeys", L(<<O(s)>>)))
    [] p = "transformation" -> Url(Plain("transformations", L(<<O(s)>>)))
Cls(p) == IF p = "group" THEN "TableGroup" ELSE "Table"
General == {"@id", "@type", "dc:title", "x:y", "unknown", "@context", "@x"}
Props(p) ==
  CASE p = "group" -> General \cup InheritedProps \cup {"dialect", "notes", "tableDirection", "tableSchema", "transformations"}
    [] p = "table" -> General \cup InheritedProps \cup {"dialect", "notes", "tableDirection", "tableSchema", "transformations", "suppressOutput"}
    [] p = "schema" -> General \cup InheritedProps \cup {"foreignKeys", "primaryKey", "rowTitles"}
    [] p = "column" -> General \cup InheritedProps \cup {"name", "suppressOutput", "virtual", "titles"}
    [] p = "dialect" -> General \cup {"encoding", "lineTerminators", "quoteChar", "delimiter", "commentPrefix", "doubleQuote", "header", "skipBlankRows", "skipInitialSpace",
                                      "skipRows", "skipColumns", "headerRowCount", "trim"}
    [] p = "datatype" -> General \cup BoundNames \cup {"base", "format", "length", "minLength", "maxLength"}
    [] p = "common" -> {"@id", "@type", "@value", "@language", "@x", "dc:title", "x"}
    [] p = "titles" -> {"en", "de", "und", "not a language", "x"}
    [] p = "format" -> {"pattern", "decimalChar", "groupChar", "x"}
    [] p = "context" -> {"@base", "@language", "x", "@id"}
    [] p = "reference" -> {"resource", "schemaReference", "columnReference", "x", "@id"}
    [] p = "key" -> {"columnReference", "reference", "x", "@id"}
    [] p = "transformation" -> General \cup {"url", "scriptFormat", "targetFormat", "source", "titles"}
Ref == O(<< <<"resource", Str("a.csv")>>, <<"columnReference", Str("a")>> >>)
Pool == {Null, Bool(TRUE), Bool(FALSE), N(0), N(5), N(-1), <<"f", "2.5">>, Str(""), Str("x"), Str("_x"), Str("http://example.org/x"), L(<<>>), L(<<Str("x")>>), L(<<N(5)>>),
         L(<<Null>>), L(<<L(<<Str("x")>>)>>), O(<<>>), O(Plain("x", N(1))), O(Plain("en", Str("x"))), O(Plain("en", N(5))), L(<<O(<<>>)>>), O(Plain("@value", N(1))),
         Str("en"), Str("ltr"), Str("decimal"), Str("#0.0"), Str("utf-8"), L(<<Str("\n")>>), Str("true"), Str("start"), Str("a"), L(<<Str("a"), Str("b")>>), Str("#"), Str("Column"),
         Str("a b"), L(<<Ref>>), Ref, O(Plain("base", Str("date")))}
Tiny == {Null, N(0), N(5), N(3), Str("x"), Str("decimal"), Bool(TRUE), Str("string"), Str("a")}
Values == IF Small THEN Tiny ELSE Pool
Init == pl \in Places /\ ms = <<>>
Add == /\ Len(ms) < Depth
       /\ \E k \in Props(pl), v \in Values :
            /\ \A i \in DOMAIN ms : ms[i][1] # k
            /\ ms' = Append(ms, <<k, v>>)
            /\ (Emit /\ Len(ms') = Depth) => PrintT(<<"GEN", ToJson([cls |-> Cls(pl), doc |-> Build(pl, ms')])>>)
       /\ pl' = pl
Next == Add
R0 == Norm(Cls(pl), Build(pl, ms))
Idempotent ==
  LET r == R0 IN
    (~r.e /\ ~r.f) => LET again == Norm(Cls(pl), Doc(r.v[1]))
                      IN ~again.e /\ ~again.f /\ ~(again.w /\ ~r.w) /\ again.v = r.v
\* the order of members does not matter
Unordered == Len(ms) = 2 => Norm(Cls(pl), Build(pl, <<ms[2], ms[1]>>)) = R0
\* what is refused with one member stays refused with more, unless they are related
Shape == LET r == R0 IN ~r.e => (r.v # <<>> /\ IsObj(r.v[1]))
=============================================================================
