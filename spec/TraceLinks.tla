------------------------------ MODULE TraceLinks ------------------------------
(* Documents loaded in various ways: what is requested, and what is read.         *)
EXTENDS Links, Harness
LinksInit(sess) == sess.ini
Yes(stt) == [st |-> stt, bad |-> "", exp |-> <<>>]
Nay(stt, clause, exp) == [st |-> stt, bad |-> clause, exp |-> exp]
\* (local files are recorded as if they were at http://root/)
Remote(us) == {u \in us : ~StartsWith(u, C("http://root/"))}
LoadOp(doc, e) ==
  LET ts == DOMAIN doc.tables
      exp == [t \in ts |-> [url |-> TableUrl(doc, t), schema |-> SchemaUrl(doc, t), delim |-> Delim(DialectUrl(doc, t))]]
  IN IF e.out.k # "ok" THEN Nay(doc, "an exception when loading", exp)
     ELSE IF e.out.urls # [t \in ts |-> exp[t].url] THEN Nay(doc, "URLs of tables", exp)
     ELSE IF e.out.schemas # [t \in ts |-> exp[t].schema] THEN Nay(doc, "schemas", exp)
     ELSE IF TRange(e.out.log) # Remote(Fetched(doc)) THEN Nay(doc, "documents requested", Fetched(doc))
     ELSE Yes(doc)
ReadOp(doc, e) ==
  IF e.out.k # "ok" THEN Nay(doc, "an exception when reading", TableUrl(doc, e.t))
  ELSE IF e.out.from # TableUrl(doc, e.t) THEN Nay(doc, "file read", TableUrl(doc, e.t))
  ELSE IF TRange(e.out.log) # Remote({TableUrl(doc, e.t)}) THEN Nay(doc, "file requested", TableUrl(doc, e.t))
  ELSE IF e.out.delim # Delim(DialectUrl(doc, e.t)) THEN Nay(doc, "dialect used", DialectUrl(doc, e.t))
  ELSE Yes(doc)
ExpandOp(doc, e) ==
  LET u == Expanded(doc, e.t, e.tmpl, e.bs)
  IN IF e.out.u # u THEN Nay(doc, "expanded template", u) ELSE Yes(doc)
LinksStep(stt, e) == CASE e.op = "load" -> LoadOp(stt, e) [] e.op = "read" -> ReadOp(stt, e) [] e.op = "expand" -> ExpandOp(stt, e)
=============================================================================
