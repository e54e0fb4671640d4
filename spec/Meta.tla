--------------------------------- MODULE Meta ---------------------------------
(* Metadata documents (Metadata Vocabulary for Tabular Data): what is accepted,  *)
(* what is ignored with a warning, and the normal form of a description, in      *)
(* which defaults are omitted and alternative notations are the same.            *)
(* JSON: <<"n">>, <<"b", bool>>, <<"i", n>>, <<"f", text>>, <<"s", text>>,       *)
(* <<"l", seq>>, <<"o", seq of <<key, value>>>>; here texts are TLA+ strings.    *)
(* In normal forms objects are <<"o", set of <<key, value>>>>.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Null == <<"n">>
Str(s) == <<"s", s>>
Bool(b) == <<"b", b>>
Rg(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Canon(_)
Canon(v) == IF v[1] = "l" THEN <<"l", [i \in DOMAIN v[2] |-> Canon(v[2][i])]>>
            ELSE IF v[1] = "o" THEN <<"o", {<<p[1], Canon(p[2])>> : p \in Rg(v[2])}>>
            ELSE v
\* members of objects as given
Has(o, k) == \E i \in DOMAIN o[2] : o[2][i][1] = k
Get(o, k) == o[2][CHOOSE i \in DOMAIN o[2] : o[2][i][1] = k][2]
Keys(o) == {o[2][i][1] : i \in DOMAIN o[2]}
IsStr(v) == v[1] = "s"
IsList(v) == v[1] = "l"
IsObj(v) == v[1] = "o"
Strings(v) == IsList(v) /\ \A i \in DOMAIN v[2] : IsStr(v[2][i])
First1(s) == IF s = "" THEN "" ELSE SubSeq(s, 1, 1)
HasCh(s, c) == \E i \in 1..Len(s) : SubSeq(s, i, i) = c
Starts(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

(* What becomes of a value: [e |-> refused, w |-> with a warning, f |-> free (no   *)
(* claim is made), v |-> <<>> (omitted) or <<normal form>>]                        *)
Res(e, w, v) == [e |-> e, w |-> w, f |-> FALSE, v |-> v]
Keep(v) == Res(FALSE, FALSE, <<v>>)
Omit == Res(FALSE, FALSE, <<>>)
Warn == Res(FALSE, TRUE, <<>>)
WarnKeep(v) == Res(FALSE, TRUE, <<v>>)
Err == Res(TRUE, FALSE, <<>>)
Free == [e |-> FALSE, w |-> FALSE, f |-> TRUE, v |-> <<>>]
KeepUnless(v, default) == IF v = default THEN Omit ELSE Keep(v)

\* ---- common properties, annotations ----------------------------------------
\* prefixes of the RDFa initial context (all but those in doubt)
Prefixes0 == {
  "csvw", "rdf", "rdfs", "xsd", "dc", "dcat", "prov", "schema", "as", "cc", "ctag", "dc11", "dctypes", "dqv",
  "duv", "foaf", "gr", "grddl", "ical", "jsonld", "ldp", "ma", "oa", "odrl", "og", "org", "owl", "qb",
  "rdfa", "rev", "rif", "rr", "sd", "sioc", "skos", "skosxl", "sosa", "ssn", "time", "v", "vcard", "void",
  "wdr", "xhv", "xml"}
OddPrefixes == {"dcterms", "wdrs", "wrds"}
\* terms of the CSVW context
Terms0 == {
  "Cell", "Column", "Datatype", "Dialect", "Direction", "ForeignKey", "JSON", "NumericFormat", "Row",
  "Schema", "Table", "TableGroup", "TableReference", "Transformation", "aboutUrl", "base", "columnReference",
  "columns", "commentPrefix", "datatype", "decimalChar", "default", "delimiter", "describes", "dialect",
  "doubleQuote", "encoding", "foreignKeys", "format", "groupChar", "header", "headerRowCount", "json",
  "lang", "length", "lineTerminators", "maxExclusive", "maxInclusive", "maxLength", "maximum",
  "minExclusive", "minInclusive", "minLength", "minimum", "name", "notes", "null", "ordered", "pattern",
  "primaryKey", "propertyUrl", "quoteChar", "reference", "referencedRows", "required", "resource", "row",
  "rowTitles", "rownum", "schemaReference", "scriptFormat", "separator", "skipBlankRows", "skipColumns",
  "skipInitialSpace", "skipRows", "source", "suppressOutput", "tableDirection", "tableSchema", "tables",
  "targetFormat", "textDirection", "titles", "transformations", "trim", "uriTemplate", "url", "valueUrl",
  "virtual"}
LangTags == {"en", "de", "en-US", "fr", "und"}
BadTags == {"", "x y", "not a language", "a", "1", "_x", "x", "english language", "http://example.org/x"}
\* (whether other texts are registered tags is not known here)
OddTag(s) == s \notin LangTags /\ s \notin BadTags /\ ~(\E c \in {" ", "_", "@", ":", "/", ".", "#"} : HasCh(s, c)) /\ Len(s) > 1
OddLang(v) == v[1] = "s" /\ OddTag(v[2])
IsWebUrl(s) == Starts(s, "http://") \/ Starts(s, "https://")
TypeOk(s) == IsWebUrl(s) \/ (\E ns \in Prefixes0 : s = ns \/ Starts(s, ns \o ":")) \/ s \in Terms0
OddType(s) == \E ns \in OddPrefixes : s = ns \/ Starts(s, ns \o ":")
Literal(v) == v[1] \in {"s", "b", "i", "f"}
RECURSIVE Common(_)
ResAll(rs) == [e |-> \E i \in DOMAIN rs : rs[i].e, w |-> \E i \in DOMAIN rs : rs[i].w, f |-> \E i \in DOMAIN rs : rs[i].f, v |-> <<>>]
Common(v) ==
  IF IsObj(v) THEN
    LET ks == Keys(v)
        val == Has(v, "@value")
        lang == Has(v, "@language")
        badlang == lang /\ ~(IsStr(Get(v, "@language")) /\ Get(v, "@language")[2] \in LangTags)
        bad == \/ \E k \in ks : First1(k) = "@" /\ k \notin {"@id", "@language", "@type", "@value"}
               \/ val /\ (ks \notin {{"@value"}, {"@value", "@language"}, {"@value", "@type"}} \/ ~Literal(Get(v, "@value")))
               \/ lang /\ ~val
               \/ Has(v, "@id") /\ IsStr(Get(v, "@id")) /\ First1(Get(v, "@id")[2]) = "_"
               \/ Has(v, "@type") /\ LET t == Get(v, "@type") IN (IsStr(t) /\ ~TypeOk(t[2])) \/ t[1] \notin {"s", "l", "o"}
        badid == Has(v, "@id") /\ ~IsStr(Get(v, "@id"))
        rs == [i \in DOMAIN v[2] |-> LET p == v[2][i] IN
                 IF p[1] = "@id" /\ badid THEN WarnKeep(Null)
                 ELSE IF p[1] = "@language" /\ badlang THEN Warn ELSE Common(p[2])]
        oddtype == Has(v, "@type") /\ IsStr(Get(v, "@type")) /\ OddType(Get(v, "@type")[2])
    IN IF oddtype THEN Free
       ELSE IF bad THEN Err
       ELSE IF lang /\ OddLang(Get(v, "@language")) THEN Free
       ELSE [ResAll(rs) EXCEPT !.v = << <<"o", {<<v[2][i][1], rs[i].v[1]>> : i \in {j \in DOMAIN v[2] : rs[j].v # <<>>}}>> >>]
  ELSE IF IsList(v) THEN
    LET rs == [i \in DOMAIN v[2] |-> Common(v[2][i])]
    IN IF ResAll(rs).e THEN Err ELSE IF ResAll(rs).f THEN Free ELSE [ResAll(rs) EXCEPT !.v = << <<"l", [i \in DOMAIN rs |-> rs[i].v[1]]>> >>]
  ELSE Keep(v)
\* empty arrays and objects are as good as none
NonEmpty(r) == IF ~r.e /\ ~r.f /\ r.v # <<>> /\ r.v[1] \in {<<"l", <<>> >>, <<"o", {}>>} THEN [r EXCEPT !.v = <<>>] ELSE r

ContextItem(x) ==
  IF IsStr(x) THEN IF x[2] = "http://www.w3.org/ns/csvw" THEN Keep(x) ELSE Err
  ELSE IF ~IsObj(x) \/ ~(Keys(x) \subseteq {"@base", "@language"}) THEN Err
  ELSE IF Has(x, "@base") /\ ~IsStr(Get(x, "@base")) THEN Err
  ELSE LET badlang == Has(x, "@language") /\ ~(IsStr(Get(x, "@language")) /\ Get(x, "@language")[2] \in LangTags)
       IN IF Has(x, "@language") /\ OddLang(Get(x, "@language")) THEN Free
          ELSE IF badlang THEN WarnKeep(Canon(<<"o", SelectSeq(x[2], LAMBDA p : p[1] # "@language")>>)) ELSE Keep(Canon(x))
Context(v) ==
  IF v[1] \in {"b", "i", "f", "o"} THEN Err
  ELSE IF IsList(v) THEN LET rs == [i \in DOMAIN v[2] |-> ContextItem(v[2][i])]
                         IN IF ResAll(rs).e THEN Err ELSE IF ResAll(rs).f THEN Free ELSE [ResAll(rs) EXCEPT !.v = << <<"l", [i \in DOMAIN rs |-> rs[i].v[1]]>> >>]
  ELSE Keep(v)
Numerics == {"decimal", "integer", "long", "int", "short", "byte", "nonNegativeInteger", "positiveInteger", "unsignedLong", "unsignedInt",
             "unsignedShort", "unsignedByte", "nonPositiveInteger", "negativeInteger", "double", "float", "number"}
Dates0 == {"date", "datetime", "dateTime", "dateTimeStamp", "time", "duration", "dayTimeDuration", "yearMonthDuration"}
Sized == {"string", "normalizedString", "NMTOKEN", "anyURI", "html", "xml", "json", "base64Binary", "hexBinary", "binary"}
\* (kept as text: no claim is made about lengths)
Written == {"gDay", "gMonth", "gMonthDay", "gYear", "gYearMonth", "QName"}
TypeNames == Numerics \cup Dates0 \cup Sized \cup Written \cup {"boolean", "any"}
AtProp(cls, k, v) ==
  IF k = "@id" THEN IF ~IsStr(v) THEN IF cls \in {"Table", "TableGroup"} THEN [Free EXCEPT !.w = TRUE] ELSE WarnKeep(Null)
                    ELSE IF First1(v[2]) = "_" THEN Err
                    ELSE IF cls = "Datatype" /\ v[2] \in {"http://www.w3.org/2001/XMLSchema#" \o n : n \in TypeNames} THEN Err ELSE Keep(v)
  ELSE IF k = "@type" THEN IF v = Str(cls) THEN Keep(v) ELSE Err
  ELSE IF k = "@context" /\ cls \in {"Table", "TableGroup"} THEN Context(v)
  ELSE Keep(Canon(v))

\* a member of an object: an annotation, a common property, or one Prop knows about
MemberOf(cls, p, Prop(_, _)) ==
  IF First1(p[1]) = "@" THEN NonEmpty(AtProp(cls, p[1], p[2]))
  ELSE IF HasCh(p[1], ":") THEN NonEmpty(Common(p[2]))
  ELSE Prop(p[1], p[2])

\* ---- values of properties --------------------------------------------------
Template1(v) == IF v = Null THEN Omit ELSE IF IsStr(v) THEN Keep(v) ELSE Warn
Text1(v, default) == IF IsStr(v) THEN KeepUnless(v, Str(default)) ELSE Warn
OptText(v) == IF v = Null THEN Omit ELSE IF IsStr(v) THEN Keep(v) ELSE Warn
Flag(v) == IF v[1] = "b" THEN KeepUnless(v, Bool(FALSE)) ELSE Warn
NullProp(v) ==
  LET l == IF v = Null THEN <<"l", <<>> >> ELSE IF IsList(v) THEN v ELSE <<"l", <<v>> >>
  IN IF Strings(l) THEN KeepUnless(l, <<"l", <<Str("")>> >>) ELSE Warn
Ordered(v) == IF v = Null THEN Omit ELSE IF v[1] = "b" THEN Keep(v) ELSE WarnKeep(Bool(FALSE))
Required(v) == IF v = Null THEN Omit ELSE IF v[1] = "b" THEN Keep(v)
               ELSE IF IsStr(v) /\ v[2] \in {"true", "True", "TRUE", "false", "False", "FALSE"} THEN Free ELSE Warn
Direction(v) == IF v = Null THEN Omit ELSE IF IsStr(v) /\ v[2] \in {"ltr", "rtl", "auto", "inherit"} THEN Keep(v) ELSE Warn
Lang(v) == IF OddLang(v) THEN Free ELSE IF IsStr(v) /\ v[2] \in LangTags THEN KeepUnless(v, Str("und")) ELSE Warn
ColRef(v) == IF v = Null THEN Omit
             ELSE LET l == IF IsList(v) THEN v ELSE <<"l", <<v>> >> IN IF Strings(l) THEN NonEmpty(Keep(l)) ELSE Warn
Titles(v) ==
  LET short(l) == IF Len(l) = 1 THEN l[1] ELSE <<"l", l>>
      items(x) == SelectSeq(IF IsList(x) THEN x[2] ELSE <<x>>, LAMBDA y : IsStr(y))
      odd(x) == \E y \in Rg(IF IsList(x) THEN x[2] ELSE <<x>>) : ~IsStr(y)
  IN IF v = Null THEN Omit
     ELSE IF IsStr(v) THEN Keep(v)
     ELSE IF IsList(v) THEN IF Strings(v) THEN NonEmpty(Keep(short(v[2]))) ELSE Warn
     ELSE IF IsObj(v) THEN
       IF \E k \in Keys(v) : OddTag(k) THEN Free
       ELSE IF \E k \in Keys(v) : k \notin LangTags THEN Warn
       ELSE LET o == {<<v[2][i][1], short(items(v[2][i][2]))>> : i \in DOMAIN v[2]}
                w == \E i \in DOMAIN v[2] : odd(v[2][i][2])
            IN NonEmpty(Res(FALSE, w, << IF Keys(v) = {"und"} THEN short(items(v[2][1][2])) ELSE <<"o", o>> >>))
     ELSE Warn

\* ---- datatypes -------------------------------------------------------------
BoundNames == {"minimum", "maximum", "minInclusive", "maxInclusive", "minExclusive", "maxExclusive"}
Falsy(v) == v \in {Null, Bool(FALSE), <<"i", 0>>, Str(""), <<"l", <<>> >>, <<"o", <<>> >>}
PatternChars == {"#", "0", ".", ",", ";", "%", "E", "-", "+"}
BadPattern(base, s) ==
  \/ base \notin {"double", "float", "number"} /\ \E i \in 1..Len(s) : SubSeq(s, i, i) \notin PatternChars
  \/ Cardinality({i \in 1..Len(s) : SubSeq(s, i, i) = ";"}) > 1
\* formats, and for which datatypes they can be used
BadRegexes == {"[", "[]", "(a", "*", "a)", "\\"}
Choices0 == {"Y|N", "1|0", "ja|nein", "yes|no"}
BadSchemas == {"1", "{\"type\": 1}", "[]", "{\"minLength\": -1}"}
StampFormats == {"yyyy-MM-ddTHH:mm:ssX", "yyyy-MM-dd HH:mm XXX"}
DateFormats == {"yyyy-MM-dd", "dd.MM.yyyy", "M/d/yyyy", "yyyy-MM-ddTHH:mm:ss", "yyyy-MM-ddTHH:mm"}
TimeFormats == {"HH:mm", "HH:mm:ss.SSS", "HHmmX"}
KnownFormats == BadRegexes \cup Choices0 \cup BadSchemas \cup StampFormats \cup DateFormats \cup TimeFormats
                \cup {"a|b|c", "Y", "yyyy/MM", "YYYY-MM-DD", "yyyy-MM", "HH-mm", "{\"type\": \"object\"}", "[a-z]+", "\\d{3}"}
Patterned == (Sized \cup Written \cup {"duration", "dayTimeDuration", "yearMonthDuration"}) \ {"base64Binary", "hexBinary", "binary", "json"}
Format(base, v) ==
  IF v = Null THEN Omit
  ELSE IF IsObj(v) THEN
    LET props == {"pattern", "decimalChar", "groupChar"}
        good == SelectSeq(v[2], LAMBDA p : p[1] \in props /\ IsStr(p[2]))
        pat == {p \in Rg(good) : p[1] = "pattern"}
    IN IF base \notin Numerics THEN Warn
       ELSE IF \E p \in pat : BadPattern(base, p[2][2]) THEN Warn
       ELSE NonEmpty(Res(FALSE, Len(good) # Len(v[2]), << <<"o", Rg(good)>> >>))
  ELSE IF ~IsStr(v) THEN Warn
  ELSE IF base \in Numerics /\ BadPattern(base, v[2]) THEN Warn
  ELSE IF v[2] \notin KnownFormats THEN IF base \in {"boolean", "json"} \cup Dates0 THEN Free ELSE Keep(v)
  \* formats which cannot be used: the description has them, but they do not count
  ELSE IF base \in Patterned /\ v[2] \in BadRegexes THEN WarnKeep(v)
  ELSE IF base = "boolean" /\ v[2] \notin Choices0 THEN WarnKeep(v)
  ELSE IF base = "json" /\ v[2] \in BadSchemas THEN WarnKeep(v)
  ELSE IF base = "date" /\ v[2] \notin DateFormats \cup StampFormats THEN WarnKeep(v)
  ELSE IF base \in {"datetime", "dateTime"} /\ v[2] \notin DateFormats \cup StampFormats THEN Err
  ELSE IF base = "dateTimeStamp" /\ v[2] \notin StampFormats THEN Err
  ELSE IF base = "time" /\ v[2] \notin TimeFormats THEN IF HasCh(v[2], "H") /\ HasCh(v[2], "y") THEN Free ELSE Err
  ELSE Keep(v)
Length(v) == IF v = Null THEN Omit
             ELSE IF v[1] = "i" THEN IF v[2] >= 0 THEN Keep(v) ELSE Err
             ELSE IF v[1] = "s" THEN Free ELSE Err
DigitText == [n \in 0..9 |-> SubSeq("0123456789", n + 1, n + 1)]
RECURSIVE NumText(_)
NumText(n) == IF n < 0 THEN "-" \o NumText(0 - n) ELSE IF n < 10 THEN DigitText[n] ELSE NumText(n \div 10) \o DigitText[n % 10]
Digits0 == {DigitText[n] : n \in 0..9}
Chars(s) == {SubSeq(s, i, i) : i \in 1..Len(s)}
\* whole numbers written as such, of not too many digits
IntText(s) == LET d == IF First1(s) = "-" THEN SubSeq(s, 2, Len(s)) ELSE s IN d # "" /\ Len(d) < 9 /\ Chars(d) \subseteq Digits0
RECURSIVE TextInt(_)
TextInt(s) == IF s = "" THEN 0
              ELSE IF First1(s) = "-" THEN 0 - TextInt(SubSeq(s, 2, Len(s)))
              ELSE TextInt(SubSeq(s, 1, Len(s) - 1)) * 10 + (CHOOSE n \in 0..9 : DigitText[n] = SubSeq(s, Len(s), Len(s)))
Whole(v) == v[1] = "i" \/ (v[1] = "s" /\ IntText(v[2]))
WholeOf(v) == IF v[1] = "i" THEN v[2] ELSE TextInt(v[2])
GoodDates == [date |-> {"2000-01-01", "2012-12-31"}, dateTime |-> {"2000-01-01T00:00:00"}]
Bound(base, v, plain) ==
  IF v = Null THEN Omit
  ELSE IF v[1] \in {"b", "l", "o"} THEN Err
  ELSE IF base \in Numerics \ {"double", "float", "number"} THEN
    IF v[1] = "i" THEN Keep(Str(NumText(v[2])))
    ELSE IF v[1] = "f" THEN Free
    ELSE IF IntText(v[2]) THEN Keep(v)
    ELSE IF Chars(v[2]) \cap Digits0 = {} /\ v[2] \notin {"NaN", "INF", "-INF", "nan", "inf", "Infinity"} THEN Err ELSE Free
  ELSE IF v[1] = "f" /\ base \notin Numerics THEN Err
  ELSE IF v[1] = "s" /\ plain /\ base \in DOMAIN GoodDates THEN IF v[2] \in GoodDates[base] THEN Keep(v) ELSE IF Chars(v[2]) \cap Digits0 = {} THEN Err ELSE Free
  ELSE Free
DatatypeObj(o) ==
  LET base == IF ~Has(o, "base") \/ Get(o, "base") = Null THEN Omit
              ELSE IF IsStr(Get(o, "base")) /\ Get(o, "base")[2] \in TypeNames THEN Keep(Get(o, "base")) ELSE Warn
      b == IF base.v = <<>> THEN "string" ELSE base.v[1][2]
      prop(k, v) == IF k = "base" THEN [base EXCEPT !.v = <<>>]
                    ELSE IF k = "format" THEN Format(b, v)
                    ELSE IF k \in {"length", "minLength", "maxLength"} THEN Length(v)
                    ELSE IF k \in BoundNames THEN Bound(b, v, ~Has(o, "format"))
                    ELSE Warn
      rs == [i \in DOMAIN o[2] |-> MemberOf("Datatype", o[2][i], prop)]
      all == ResAll(rs)
      set(k) == Has(o, k) /\ Get(o, k) # Null
      int(k) == Get(o, k)[2]
      num(k) == WholeOf(Get(o, k))
      lens == {k \in {"length", "minLength", "maxLength"} : set(k)}
      bnds == {k \in BoundNames : set(k)}
      pairs == {<<o[2][i][1], rs[i].v[1]>> : i \in {j \in DOMAIN o[2] : rs[j].v # <<>>}}
  IN IF all.e THEN Err
     ELSE IF lens # {} /\ b \notin Sized \cup Written THEN Err
     ELSE IF bnds # {} /\ b \notin Numerics \cup Dates0 THEN Err
     ELSE IF all.f \/ (lens # {} /\ b \in Written) THEN [Free EXCEPT !.w = all.w]
     ELSE IF \/ set("length") /\ set("minLength") /\ int("length") < int("minLength")
             \/ set("length") /\ set("maxLength") /\ int("length") > int("maxLength")
             \/ set("minLength") /\ set("maxLength") /\ int("minLength") > int("maxLength") THEN Err
     ELSE IF (bnds \cap {"minInclusive", "minimum"} # {} /\ "minExclusive" \in bnds) \/ (bnds \cap {"maxInclusive", "maximum"} # {} /\ "maxExclusive" \in bnds) THEN Err
     ELSE IF \E m \in {"minInclusive", "minimum", "minExclusive"}, n \in {"maxInclusive", "maximum", "maxExclusive"} :
               /\ {m, n} \subseteq bnds
               /\ Whole(Get(o, m)) /\ Whole(Get(o, n))
               /\ \/ num(n) < num(m)
                  \/ num(n) = num(m) /\ (m = "minExclusive" \/ n = "maxExclusive") THEN Err
     ELSE [all EXCEPT !.v = << IF pairs = {} THEN Str(b) ELSE <<"o", pairs \cup {<<"base", Str(b)>>}>> >>]

\* ---- dialects --------------------------------------------------------------
Encodings == {"utf-8", "UTF-8", "latin1", "utf-16", "UTF-8-BOM", "ascii"}
Nat0(v, default) == IF v[1] = "i" /\ v[2] >= 0 THEN KeepUnless(v, <<"i", default>>) ELSE Warn
Flag0(v, default) == IF v[1] = "b" THEN KeepUnless(v, Bool(default)) ELSE Warn
DialectProp(k, v) ==
  CASE k = "encoding" -> IF IsStr(v) /\ v[2] \in Encodings THEN KeepUnless(v, Str("utf-8")) ELSE Warn
    [] k = "lineTerminators" -> IF IsStr(v) /\ v[2] # "" THEN Keep(v)
                                ELSE IF Strings(v) /\ v[2] # <<>> /\ Str("") \notin Rg(v[2]) THEN KeepUnless(v, <<"l", <<Str("\r\n"), Str("\n")>> >>) ELSE Warn
    [] k = "quoteChar" -> IF v = Null THEN Keep(v) ELSE IF IsStr(v) /\ Len(v[2]) = 1 THEN KeepUnless(v, Str("\"")) ELSE Warn
    [] k = "delimiter" -> IF IsStr(v) THEN IF Len(v[2]) = 1 THEN KeepUnless(v, Str(",")) ELSE Free ELSE Warn
    [] k = "commentPrefix" -> OptText(v)
    [] k \in {"doubleQuote", "header"} -> Flag0(v, TRUE)
    [] k \in {"skipBlankRows", "skipInitialSpace"} -> Flag0(v, FALSE)
    [] k \in {"skipRows", "skipColumns"} -> Nat0(v, 0)
    [] k = "headerRowCount" -> IF v = <<"i", 0>> THEN Free ELSE Nat0(v, 1)
    [] k = "trim" -> IF v[1] = "b" THEN IF v[2] THEN Keep(Str("true")) ELSE Omit
                     ELSE IF IsStr(v) THEN IF v[2] \in {"true", "false", "start", "end"} THEN KeepUnless(v, Str("false")) ELSE Err
                     ELSE Warn
    [] OTHER -> Warn
Dialect(v) ==
  IF v = Null THEN Omit
  ELSE IF IsStr(v) THEN Free
  ELSE IF ~IsObj(v) THEN WarnKeep(<<"o", {}>>)
  ELSE LET rs == [i \in DOMAIN v[2] |-> MemberOf("Dialect", v[2][i], DialectProp)]
           own == {i \in DOMAIN v[2] : First1(v[2][i][1]) # "@" /\ ~HasCh(v[2][i][1], ":")}
           \* a number of header rows implies a header
           hdr == Has(v, "header") /\ Has(v, "headerRowCount")
       IN IF ResAll(rs).e THEN Err
          ELSE IF hdr THEN [Free EXCEPT !.w = ResAll(rs).w]
          ELSE [ResAll(rs) EXCEPT !.v = << <<"o", {<<v[2][i][1], rs[i].v[1]>> : i \in {j \in own : rs[j].v # <<>>}}>> >>]

\* ---- descriptions ----------------------------------------------------------
Datatype(v) ==
  IF v = Null THEN Omit
  ELSE IF Falsy(v) THEN Free
  ELSE IF IsStr(v) THEN IF v[2] \in TypeNames THEN Keep(v) ELSE WarnKeep(Str("string"))
  ELSE IF IsObj(v) THEN DatatypeObj(v)
  ELSE Err
InheritedProps == {"aboutUrl", "propertyUrl", "valueUrl", "datatype", "default", "lang", "null", "ordered", "required", "separator", "textDirection"}
Inherited(k, v) ==
  CASE k \in {"aboutUrl", "propertyUrl", "valueUrl"} -> Template1(v)
    [] k = "datatype" -> Datatype(v)
    [] k = "default" -> Text1(v, "")
    [] k = "lang" -> Lang(v)
    [] k = "null" -> NullProp(v)
    [] k = "ordered" -> Ordered(v)
    [] k = "required" -> Required(v)
    [] k = "separator" -> OptText(v)
    [] k = "textDirection" -> Direction(v)
\* an object of class cls, all of whose members are known
ObjectOf(cls, o, Prop(_, _)) ==
  LET rs == [i \in DOMAIN o[2] |-> MemberOf(cls, o[2][i], Prop)]
      all == ResAll(rs)
  IN IF all.e THEN Err ELSE [all EXCEPT !.v = << <<"o", {<<o[2][i][1], rs[i].v[1]>> : i \in {j \in DOMAIN o[2] : rs[j].v # <<>>}}>> >>]
\* an array of objects: other items are dropped, with a warning
ArrayOf(v, Item(_)) ==
  LET rs == [i \in DOMAIN v[2] |-> IF IsObj(v[2][i]) THEN Item(v[2][i]) ELSE Warn]
      kept == SelectSeq(rs, LAMBDA r : r.v # <<>>)
  IN IF ResAll(rs).e THEN Err ELSE [ResAll(rs) EXCEPT !.v = << <<"l", [i \in DOMAIN kept |-> kept[i].v[1]]>> >>]

ColumnProp(k, v) ==
  CASE k = "name" -> OptText(v)
    [] k \in {"suppressOutput", "virtual"} -> Flag(v)
    [] k = "titles" -> Titles(v)
    [] k \in InheritedProps -> Inherited(k, v)
    [] OTHER -> Warn
Column(o) == ObjectOf("Column", o, ColumnProp)

FkKey(o) ==
  IF Keys(o) # {"columnReference", "reference"} THEN Err
  ELSE LET c == ColRef(Get(o, "columnReference"))
           r == Get(o, "reference")
       IN IF ~IsObj(r) \/ ~(Keys(r) \subseteq {"resource", "schemaReference", "columnReference"}) THEN Err
          ELSE LET set(k) == Has(r, k) /\ Get(r, k) # Null
                   t == IF set("columnReference") THEN ColRef(Get(r, "columnReference")) ELSE Omit
                   which == IF set("resource") THEN "resource" ELSE "schemaReference"
               IN IF (set("resource") /\ ~IsStr(Get(r, "resource"))) \/ (set("schemaReference") /\ ~IsStr(Get(r, "schemaReference"))) THEN Err
                  ELSE IF set("resource") = set("schemaReference") THEN Err
                  ELSE IF c.v = <<>> \/ t.v = <<>> THEN Err
                  ELSE Keep(<<"o", {<<"columnReference", c.v[1]>>,
                                    <<"reference", <<"o", {<<"columnReference", t.v[1]>>, <<which, Get(r, which)>>}>> >>}>>)
SchemaProp(k, v) ==
  CASE k = "columns" -> IF IsList(v) THEN NonEmpty(ArrayOf(v, Column)) ELSE Warn
    [] k = "foreignKeys" -> IF v = Null THEN Omit ELSE IF IsList(v) THEN NonEmpty(ArrayOf(v, FkKey)) ELSE Warn
    [] k \in {"primaryKey", "rowTitles"} -> ColRef(v)
    [] k \in InheritedProps -> Inherited(k, v)
    [] OTHER -> Warn
\* columns in relation to each other; cs: normal forms of columns
NHas(o, k) == \E p \in o[2] : p[1] = k
NGet(o, k) == (CHOOSE p \in o[2] : p[1] = k)[2]
NameOf(c) == IF NHas(c, "name") THEN NGet(c, "name")[2] ELSE ""
IsVirtual(c) == NHas(c, "virtual")
FirstTitle(c) ==
  IF ~NHas(c, "titles") THEN ""
  ELSE LET t == NGet(c, "titles") f(x) == IF IsStr(x) THEN x[2] ELSE IF x[2] = <<>> THEN "" ELSE x[2][1][2]
       IN IF IsObj(t) THEN IF NHas(t, "und") THEN f(NGet(t, "und")) ELSE "" ELSE f(t)
Header0(cs, i) == IF NameOf(cs[i]) # "" THEN NameOf(cs[i]) ELSE IF FirstTitle(cs[i]) # "" THEN FirstTitle(cs[i]) ELSE "_col." \o NumText(i)
Spaces == {" ", "\t", "\n", "\r"}
OddName(n) == n # "" /\ (First1(n) = "_" \/ \E i \in 1..Len(n) : SubSeq(n, i, i) \in Spaces)
Columns(r) ==
  IF r.e \/ r.v = <<>> THEN r
  ELSE LET cs == IF NHas(r.v[1], "columns") THEN NGet(r.v[1], "columns")[2] ELSE <<>>
           reg == {i \in DOMAIN cs : ~IsVirtual(cs[i])}
           pk == IF NHas(r.v[1], "primaryKey") THEN NGet(r.v[1], "primaryKey")[2] ELSE <<>>
           \* the last column of that name or title
           target(n) == LET is == {i \in DOMAIN cs : Header0(cs, i) = n} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i >= j
           unnamed == \E i \in DOMAIN pk : target(pk[i][2]) # 0 /\ NameOf(cs[target(pk[i][2])]) = ""
           bad == \/ \E i, j \in DOMAIN cs : i < j /\ IsVirtual(cs[i]) /\ ~IsVirtual(cs[j])
                  \/ \E i, j \in reg : i < j /\ NameOf(cs[i]) # "" /\ NameOf(cs[i]) = NameOf(cs[j])
           warn == \/ \E i \in DOMAIN cs : OddName(NameOf(cs[i]))
                   \/ \E i, j \in reg : i < j /\ Header0(cs, i) = Header0(cs, j)
                   \/ unnamed
       IN IF bad THEN Err
          ELSE [r EXCEPT !.w = @ \/ warn, !.v = IF unnamed THEN << <<"o", {p \in r.v[1][2] : p[1] # "primaryKey"}>> >> ELSE @]
Schema(v) ==
  IF v = Null THEN Omit
  ELSE IF IsStr(v) THEN Free
  ELSE IF ~IsObj(v) THEN Warn
  ELSE NonEmpty(Columns(ObjectOf("Schema", v, SchemaProp)))

TransProp(k, v) == IF k \in {"url", "scriptFormat", "targetFormat", "source", "titles"} THEN Omit ELSE Warn
\* (kept as given; not claimed for what is corrected inside of common properties)
Transformation(o) ==
  LET r == ObjectOf("Template", o, TransProp)
      corrected == \E p \in Rg(o[2]) : HasCh(p[1], ":") /\ First1(p[1]) # "@" /\ Common(p[2]).w
  IN [r EXCEPT !.f = @ \/ corrected, !.v = IF @ = <<>> THEN @ ELSE <<Canon(o)>>]
TableLike(k, v) ==
  CASE k = "dialect" -> Dialect(v)
    [] k = "notes" -> IF IsList(v) THEN NonEmpty(Keep(Canon(v))) ELSE Warn
    [] k = "tableDirection" -> IF IsStr(v) /\ v[2] \in {"ltr", "rtl", "auto"} THEN KeepUnless(v, Str("auto")) ELSE Warn
    [] k = "tableSchema" -> Schema(v)
    [] k = "transformations" -> IF ~IsList(v) THEN Warn
                                ELSE LET rs == [i \in DOMAIN v[2] |-> IF IsObj(v[2][i]) THEN Transformation(v[2][i]) ELSE Warn]
                                     IN IF ResAll(rs).e THEN Err ELSE NonEmpty([ResAll(rs) EXCEPT !.v = <<Canon(v)>>])
    [] k = "url" -> IF v = Null THEN Omit ELSE IF IsStr(v) THEN Keep(v) ELSE Err
    [] k \in InheritedProps -> Inherited(k, v)
    [] OTHER -> Warn
TableProp(k, v) == IF k = "suppressOutput" THEN Flag(v) ELSE TableLike(k, v)
Table(o) == LET r == ObjectOf("Table", o, TableProp)
            IN IF r.e \/ ~Has(o, "url") \/ Get(o, "url") = Null THEN Err ELSE r
GroupProp(k, v) == IF k = "tables" THEN IF IsList(v) THEN NonEmpty(ArrayOf(v, Table)) ELSE Err ELSE TableLike(k, v)
Group(o) == ObjectOf("TableGroup", o, GroupProp)
Norm(cls, o) == IF ~IsObj(o) THEN Err ELSE IF cls = "Table" THEN Table(o) ELSE Group(o)

\* ---- inheritance -----------------------------------------------------------
\* the objects a column inherits from, nearest first, in a normal form
SubObj(o, k) == IF NHas(o, k) THEN NGet(o, k) ELSE <<"o", {}>>
SubList(o, k) == IF NHas(o, k) THEN NGet(o, k)[2] ELSE <<>>
TablesOf(cls, o) == IF cls = "Table" THEN <<o>> ELSE SubList(o, "tables")
ColumnsOf(t) == SubList(SubObj(t, "tableSchema"), "columns")
Chain(cls, o, t, c) == <<ColumnsOf(TablesOf(cls, o)[t])[c], SubObj(TablesOf(cls, o)[t], "tableSchema"), TablesOf(cls, o)[t]>>
                       \o (IF cls = "Table" THEN <<>> ELSE <<o>>)
Nearest(chain, k, default) ==
  LET is == {i \in DOMAIN chain : NHas(chain[i], k)}
  IN IF is = {} THEN default ELSE NGet(chain[CHOOSE i \in is : \A j \in is : i <= j], k)
DefaultOf(k) == CASE k = "null" -> <<"l", <<Str("")>> >> [] k = "default" -> Str("") [] k = "lang" -> Str("und") [] OTHER -> Null
InheritedValues(chain) == {<<k, Nearest(chain, k, DefaultOf(k))>> : k \in InheritedProps}

\* ---- changes ---------------------------------------------------------------
Put0(o, k, r) == <<"o", {p \in o[2] : p[1] # k} \cup {<<k, x>> : x \in Rg(r.v)}>>
PutIn(o, k, sub) == Put0(o, k, NonEmpty(Keep(sub)))
\* path: <<>> (the document), <<t>>, <<t, 0>> (its schema) or <<t, c>>
RECURSIVE Change(_, _, _, _, _)
Change(cls, o, path, k, r) ==
  IF cls = "TableGroup" THEN
    IF path = <<>> THEN Put0(o, k, r)
    ELSE LET ts == SubList(o, "tables") IN PutIn(o, "tables", <<"l", [ts EXCEPT ![path[1]] = Change("Table", @, Tail(path), k, r)]>>)
  ELSE IF path = <<>> THEN Put0(o, k, r)
  ELSE LET s == SubObj(o, "tableSchema") cs == SubList(s, "columns")
       IN PutIn(o, "tableSchema", IF path[1] = 0 THEN Put0(s, k, r) ELSE PutIn(s, "columns", <<"l", [cs EXCEPT ![path[1]] = Put0(@, k, r)]>>))

\* ---- titles ----------------------------------------------------------------
\* the titles of a column (in normal form) by language, as pairs
TitlePairs(c) == IF ~NHas(c, "titles") THEN {}
                 ELSE LET x == NGet(c, "titles")
                          l(y) == IF IsList(y) THEN y[2] ELSE <<y>>
                      IN IF IsObj(x) THEN {<<p[1], l(p[2])>> : p \in x[2]} ELSE {<<"und", l(x)>>}
AddTitle(c, t, lang) ==
  LET ps == TitlePairs(c)
      old == {p \in ps : p[1] = lang}
      ts == Append(IF old = {} THEN <<>> ELSE (CHOOSE p \in old : TRUE)[2], Str(t))
      new == (ps \ old) \cup {<<lang, ts>>}
      short(l) == IF Len(l) = 1 THEN l[1] ELSE <<"l", l>>
  IN IF {p[1] : p \in new} = {"und"} THEN short(ts) ELSE <<"o", {<<p[1], short(p[2])>> : p \in new}>>
\* what a column is called: its name, else its first title without language, else its number
HeaderOf(c, i) ==
  LET und == {p \in TitlePairs(c) : p[1] = "und" /\ p[2] # <<>>}
      first == IF und = {} THEN "" ELSE (CHOOSE p \in und : TRUE)[2][1][2]
  IN IF NHas(c, "name") /\ NameOf(c) # "" THEN NameOf(c) ELSE IF first # "" THEN first ELSE "_col." \o NumText(i)
\* the languages in which a text is a title of the column; "True" if it is its name
CalledBy(c, t) ==
  LET ls == {p[1] : p \in {q \in TitlePairs(c) : Str(t) \in Rg(q[2])}}
  IN IF NHas(c, "name") /\ NameOf(c) # "" /\ NameOf(c) = t THEN {"True"} ELSE IF ls = {} THEN {"False"} ELSE ls
\* the numbers of the columns which may be found under a text: called so, else the first with this first title or property
Found(cs, t) ==
  LET called == {i \in DOMAIN cs : HeaderOf(cs[i], i) = t}
      title(c) == LET und == {p \in TitlePairs(c) : p[1] = "und" /\ p[2] # <<>>}
                  IN IF und = {} THEN FALSE ELSE (CHOOSE p \in und : TRUE)[2][1] = Str(t)
      other == {i \in DOMAIN cs : title(cs[i]) \/ (NHas(cs[i], "propertyUrl") /\ NGet(cs[i], "propertyUrl") = Str(t))}
  IN IF called # {} THEN called ELSE IF other # {} THEN {CHOOSE i \in other : \A j \in other : i <= j} ELSE {0}

\* ---- normal forms as documents again ---------------------------------------
RECURSIVE Doc(_)
Doc(v) == IF IsList(v) THEN <<"l", [i \in DOMAIN v[2] |-> Doc(v[2][i])]>>
          ELSE IF IsObj(v) THEN <<"o", SetToSeq({<<p[1], Doc(p[2])>> : p \in v[2]})>>
          ELSE v
=============================================================================
