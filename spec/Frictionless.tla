----------------------------- MODULE Frictionless ----------------------------
(* Data packages (frictionlessdata.io) as table groups.                        *)
(*                                                                             *)
(* A package is [props, res]: props, pairs <<name, JSON value>>; a resource     *)
(*   [name, path   <<>> or <<x>>                                               *)
(*    scheme, format  strings ("" for none), schema (is there one?)             *)
(*    fields, missing (<<>> or <<texts>>), pk, fks                              *)
(*    enc, header, delim, quote, dbl, skipsp, comment   each <<>> or <<x>>]     *)
(* a field                                                                     *)
(*   [name, type ("" for none), fmt, title, descr, rdf, tv, fv, dec, grp,       *)
(*    required, minLength, maxLength, minimum, maximum, pattern]                *)
(* a foreign key [cols, res, rcols], res a name ("" text for the resource       *)
(* itself).                                                                    *)
EXTENDS Table

\* ---- what a field says about a text (the table schema itself) ---------------
FlBase(f) ==
  CASE f.type = "string" -> IF f.fmt = "binary" THEN "binary" ELSE IF f.fmt = "uri" THEN "anyURI" ELSE "string"
    [] f.type = "year" -> "gYear"
    [] f.type = "yearmonth" -> "gYearMonth"
    [] f.type \in {"object", "array", "geojson"} -> "json"
    [] f.type \in {"number", "integer", "boolean", "date", "time", "datetime", "duration"} -> f.type
    [] OTHER -> "string"
\* the notion of formats beyond CSVW's is kept as an annotation
FlFormat(f) ==
  CASE f.type = "string" /\ f.fmt \notin {"", "binary", "uri"} -> <<f.fmt>>
    [] f.type \in {"object", "array"} -> <<"application/json">>
    [] f.type = "geojson" -> <<"application/geo+json">>
    [] OTHER -> <<>>
FlSynonyms(f) ==
  CASE f.type = "boolean" /\ f.tv # <<>> /\ f.fv # <<>> -> [k |-> "bool", t |-> f.tv[1], f |-> f.fv[1]]
    [] f.type \in {"number", "integer"} /\ (f.dec # <<>> \/ f.grp # <<>>) ->
         [k |-> "num", pat |-> <<>>, dec |-> IF f.dec = <<>> THEN <<>> ELSE f.dec[1], grp |-> IF f.grp = <<>> THEN <<>> ELSE f.grp[1]]
    [] OTHER -> [k |-> "none"]
Plain(b) == [base |-> b, f |-> [k |-> "none"], length |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>, bounds |-> <<>>]

(* The meaning of a field, stated over its constraints one by one: missing      *)
(* values are missing, whatever their type, and the constraints of the field     *)
(* hold for all other values.                                                   *)
FlRead(missing, f, t) ==
  LET base == [Plain(FlBase(f)) EXCEPT !.f = FlSynonyms(f)]
      r == Parse(base, t)
      le(a, b) == CmpV(a, b) \in {-1, 0}
      bound(x) == Parse(IF x[2] THEN Plain(FlBase(f)) ELSE base, x[1]).v
  IN IF t \in TRange(missing) THEN IF f.required = <<TRUE>> THEN Err1 ELSE Ok1(<<"n">>)
     ELSE IF r.k # "ok" THEN r
     ELSE IF /\ f.minLength # <<>> => LenOf(r.v) >= f.minLength[1]
             /\ f.maxLength # <<>> => LenOf(r.v) <= f.maxLength[1]
             /\ f.pattern # <<>> => FullMatch(f.pattern[1], t)
             /\ (f.minimum # <<>> /\ HasBounds(FlBase(f))) => le(bound(f.minimum[1]), r.v)
             /\ (f.maximum # <<>> /\ HasBounds(FlBase(f))) => le(r.v, bound(f.maximum[1]))
          THEN r ELSE Err1

\* ---- the description it is translated to ------------------------------------
FlDatatype(f) ==
  [base |-> FlBase(f),
   f |-> IF FlSynonyms(f).k # "none" THEN FlSynonyms(f) ELSE IF f.pattern # <<>> THEN [k |-> "re", x |-> f.pattern[1]] ELSE [k |-> "none"],
   length |-> <<>>, minLength |-> f.minLength, maxLength |-> f.maxLength,
   \* CSVW has no bounds for years and months
   bounds |-> IF FlBase(f) \in {"gYear", "gYearMonth"} THEN <<>>
              ELSE [i \in DOMAIN f.minimum |-> <<"minimum", f.minimum[i][1], f.minimum[i][2]>>]
                   \o [i \in DOMAIN f.maximum |-> <<"maximum", f.maximum[i][1], f.maximum[i][2]>>]]
FlColumn(f) ==
  [name |-> <<f.name>>, titles |-> f.title, purl |-> f.rdf, virtual |-> FALSE, vurl |-> <<>>,
   lv |-> [NoLevel EXCEPT !.required = f.required, !.datatype = <<FlDatatype(f)>>]]
Or(x, dflt) == IF x = <<>> THEN dflt ELSE x[1]
FlDialect(r) ==
  [CsvwDialect EXCEPT !.delim = Or(r.delim, 44), !.quote = Or(r.quote, 34), !.dbl = Or(r.dbl, TRUE), !.skipsp = Or(r.skipsp, FALSE),
                      !.header = Or(r.header, TRUE), !.comment = Or(r.comment, <<>>)] @@ [u8 |-> Or(r.enc, "utf-8") = "utf-8"]
FlTable(r) ==
  [cols |-> [i \in DOMAIN r.fields |-> FlColumn(r.fields[i])],
   levels |-> <<NoLevel, NoLevel, [NoLevel EXCEPT !.null = r.missing]>>,
   d |-> FlDialect(r), pk |-> r.pk]
\* the resources which are tables
IsTable(r) == r.path # <<>> /\ r.schema /\ r.scheme = "file" /\ r.format = "csv"
FlTables(pkg) == SelectSeq(pkg.res, IsTable)
FlMds(pkg) == [t \in DOMAIN FlTables(pkg) |-> FlTable(FlTables(pkg)[t])]
FlUrls(pkg) == [t \in DOMAIN FlTables(pkg) |-> FlTables(pkg)[t].path[1]]
\* the table a resource name stands for (0: none)
FlTarget(pkg, t, name) ==
  LET s == IF name = <<>> THEN {t}
           ELSE {i \in DOMAIN FlTables(pkg) : FlTables(pkg)[i].name = <<name>>}
  IN IF s = {} THEN 0 ELSE LastOf(s)
FlFks(pkg) ==
  CatAll([t \in DOMAIN FlTables(pkg) |->
     LET fs == FlTables(pkg)[t].fks
     IN [i \in DOMAIN fs |-> [t |-> t, cols |-> fs[i].cols, rt |-> FlTarget(pkg, t, fs[i].res), rcols |-> fs[i].rcols]]])
\* can the fields be described without contradiction?
FlOk(pkg) == \A t \in DOMAIN FlTables(pkg) : \A i \in DOMAIN FlTables(pkg)[t].fields : Consistent(FlDatatype(FlTables(pkg)[t].fields[i]))

\* ---- the package -----------------------------------------------------------
PropertyNames ==
  << <<"id", "dc:identifier">>, <<"licenses", "dc:license">>, <<"title", "dc:title">>, <<"homepage", "dcat:accessURL">>,
     <<"description", "dc:description">>, <<"sources", "dc:source">>, <<"contributors", "dc:contributor">>,
     <<"profile", "dc:conformsTo">>, <<"keywords", "dc:subject">>, <<"created", "dc:created">> >>
Given1(pkg, p) == \E i \in DOMAIN pkg.props : pkg.props[i][1] = p
Prop(pkg, p) == pkg.props[CHOOSE i \in DOMAIN pkg.props : pkg.props[i][1] = p][2]
\* annotations of the group, as a set of pairs; the name stands in for what is missing
FlProps(pkg) ==
  LET named == {i \in DOMAIN PropertyNames : Given1(pkg, PropertyNames[i][1])}
      direct == {<<PropertyNames[i][2], Prop(pkg, PropertyNames[i][1])>> : i \in named}
  IN direct \cup (IF ~Given1(pkg, "name") THEN {}
                  ELSE IF ~Given1(pkg, "id") THEN {<<"dc:identifier", Prop(pkg, "name")>>}
                  ELSE IF ~Given1(pkg, "title") THEN {<<"dc:title", Prop(pkg, "name")>>} ELSE {})
=============================================================================
