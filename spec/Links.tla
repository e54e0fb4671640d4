--------------------------------- MODULE Links --------------------------------
(* What the links of a metadata document refer to (Metadata Vocabulary for        *)
(* Tabular Data, section 5.1.2, and the initial context).  A document is          *)
(*   md      its URL                                                              *)
(*   ctx     @base of its context: <<>> or <<reference>>                          *)
(*   tables  sequence of [url, schema, dialect]: references, the latter <<>> or   *)
(*           <<reference>>                                                        *)
(*   dialect the dialect of a group: <<>> or <<reference>>                        *)
(* A dialect lying at a URL has the delimiter Delim(URL).                         *)
EXTENDS Csv2Json
NoQuery(u) == LET c == Comp(u) IN Recompose([c EXCEPT !.query = <<>>, !.frag = <<>>])
Base(doc) == IF doc.ctx = <<>> THEN NoQuery(doc.md) ELSE Resolve(NoQuery(doc.md), doc.ctx[1])
Linked(doc, ref) == NoEmpty(Resolve(Base(doc), ref))
TableUrl(doc, t) == Linked(doc, doc.tables[t].url)
SchemaUrl(doc, t) == IF doc.tables[t].schema = <<>> THEN <<>> ELSE <<Linked(doc, doc.tables[t].schema[1])>>
DialectUrl(doc, t) == LET x == IF doc.tables[t].dialect # <<>> THEN doc.tables[t].dialect ELSE doc.dialect
                      IN IF x = <<>> THEN <<>> ELSE <<Linked(doc, x[1])>>
Fetched(doc) ==
  {doc.md} \cup UNION {TRange(SchemaUrl(doc, t)) : t \in DOMAIN doc.tables}
  \cup {Linked(doc, doc.tables[t].dialect[1]) : t \in {t \in DOMAIN doc.tables : doc.tables[t].dialect # <<>>}}
  \cup (IF doc.dialect = <<>> THEN {} ELSE {Linked(doc, doc.dialect[1])})
\* URLs of dialects tell the delimiter: ...semi..., others
Delim(du) == IF du = <<>> THEN 44 ELSE IF \E i \in 1..Len(du[1]) : StartsWith(Drop(du[1], i - 1), C("semi")) THEN 59 ELSE 124
\* templates are expanded relative to the table
Expanded(doc, t, tmpl, bs) == ExpandUri(<<"url", IF t = 0 THEN Base(doc) ELSE TableUrl(doc, t)>>, tmpl, bs, FALSE)
=============================================================================
