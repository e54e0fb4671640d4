------------------------------- MODULE Markdown ------------------------------
(* The description of a table group as markdown: its parts, and what they say.  *)
(*                                                                             *)
(* A group is [title, props, tabs]; props and the props of tables are pairs      *)
(* <<name, JSON value>>; a table [url, there, props, dia, md]: there, whether    *)
(* there is a file at url; dia, whether a dialect is given for it or the group;  *)
(* md as in module Table, its columns having descr and fmtx (the text of the     *)
(* format of their datatype, if it is a text) in addition; fks as in module      *)
(* Table, rurl being the url of the referenced table.                           *)
EXTENDS Table

\* ---- names -----------------------------------------------------------------
Namespaces ==
  <<  <<"csvw", C("http://www.w3.org/ns/csvw#")>>, <<"rdf", C("http://www.w3.org/1999/02/22-rdf-syntax-ns#")>>,
      <<"rdfs", C("http://www.w3.org/2000/01/rdf-schema#")>>, <<"xsd", C("http://www.w3.org/2001/XMLSchema#")>>,
      <<"dc", C("http://purl.org/dc/terms/")>>, <<"dcat", C("http://www.w3.org/ns/dcat#")>>, <<"prov", C("http://www.w3.org/ns/prov#")>> >>
\* the URL of a prefixed name, or none
UrlOfName(n) ==
  LET s == {i \in DOMAIN Namespaces : StartsWith(n, C(Namespaces[i][1]) \o C(":"))}
      i == CHOOSE i \in s : TRUE
  IN IF s = {} THEN <<>> ELSE <<Namespaces[i][2] \o Drop(n, Len(C(Namespaces[i][1])) + 1)>>
\* a name for the inside of a document: letters without accents and digits
Slug(t) == Lower(SelectSeq(Unaccented(t), LAMBDA x : IsDigit(x) \/ IsAlpha(x)))

\* ---- values ----------------------------------------------------------------
Truthy(v) == ~(v = <<"n">> \/ v = <<"b", 0>> \/ v \in {<<"s", <<>> >>, <<"l", <<>> >>, <<"o", <<>> >>} \/ (v[1] = "num" /\ v[4] = <<>>))
Scalar(v) == CASE v[1] = "s" -> v[2] [] v[1] = "n" -> C("None") [] v[1] = "b" -> IF v[2] = 1 THEN C("True") ELSE C("False")
               [] OTHER -> Positional(v[3], v[4], v[5], FALSE)
Escaped(t) == CatAll([i \in DOMAIN t |-> CASE t[i] = 38 -> C("&amp;") [] t[i] = 60 -> C("&lt;") [] t[i] = 62 -> C("&gt;")
                                           [] t[i] = 34 -> C("&quot;") [] t[i] = 39 -> C("&#x27;") [] OTHER -> <<t[i]>>])
Anchor(n) == LET u == UrlOfName(n) IN IF u = <<>> THEN n ELSE C("<a href=\"") \o u[1] \o C("\">") \o n \o C("</a>")
RECURSIVE Html(_)
Html(v) ==
  CASE v[1] = "l" -> C("<ol>") \o CatAll([i \in DOMAIN v[2] |-> C("<li>") \o Html(v[2][i]) \o C("</li>")]) \o C("</ol>")
    [] v[1] = "o" -> C("<dl>") \o CatAll([i \in DOMAIN v[2] |-> C("<dt>") \o Anchor(v[2][i][1]) \o C("</dt><dd>") \o Escaped(Scalar(v[2][i][2]))
                                                                \o C("</dd>")]) \o C("</dl>")
    [] OTHER -> Scalar(v)

\* ---- properties --------------------------------------------------------------
ImageName == C("https://schema.org/image")
GetO(o, k) == LET s == {i \in DOMAIN o[2] : o[2][i][1] = k} IN IF s = {} THEN <<"n">> ELSE o[2][CHOOSE i \in s : TRUE][2]
IsImage(p) == p[1] = ImageName /\ p[2][1] \in {"s", "o"}
PropsPart(props) ==
  LET ps == SelectSeq(props, LAMBDA p : Truthy(p[2]))
      ds == SelectSeq(ps, LAMBDA p : p[1] = C("dc:description"))
      im == SelectSeq(ps, IsImage)
      rs == SelectSeq(ps, LAMBDA p : p[1] # C("dc:description") /\ ~IsImage(p))
      cap(v) == IF v[1] = "s" THEN <<>> ELSE LET x == GetO(v, C("https://schema.org/caption")) IN IF Truthy(x) THEN Scalar(x) ELSE <<>>
      url(v) == IF v[1] = "s" THEN v[2] ELSE Scalar(GetO(v, C("https://schema.org/contentUrl")))
  IN [desc |-> IF ds = <<>> THEN <<>> ELSE Html(ds[1][2]),
      img |-> IF im = <<>> THEN <<>> ELSE << [cap |-> cap(im[1][2]), url |-> url(im[1][2])] >>,
      rows |-> [i \in DOMAIN rs |-> [name |-> rs[i][1], link |-> UrlOfName(rs[i][1]), text |-> Html(rs[i][2])]]]

\* ---- columns ----------------------------------------------------------------
IsWordOrSpace(c) == IsDigit(c) \/ IsAlpha(c) \/ c = 95 \/ IsSpace(c) \/ c \in DOMAIN Accents
AreChoices(t) == LET ps == Split(t, C("|")) IN \A i \in DOMAIN ps : ps[i] # <<>> /\ \A j \in DOMAIN ps[i] : IsWordOrSpace(ps[i][j])
Ticked(t) == C("`") \o t \o C("`")
DtPart(md, i) ==
  LET dtv == DatatypeOf(Levels(md, i))
      dt == dtv[1]
      fx == md.cols[i].fmtx
      patterned == dt.base \in NumBases \cup DateBases
      fmt == IF fx = <<>> \/ patterned \/ fx = << <<>> >> THEN <<>>
             ELSE IF AreChoices(fx[1]) THEN C("<br>Valid choices:<br>") \o CatAll([k \in DOMAIN Split(fx[1], C("|")) |-> C(" ") \o Ticked(Split(fx[1], C("|"))[k])])
             ELSE IF dt.base = "string" THEN C("<br>Regex: ") \o Ticked(fx[1]) ELSE <<>>
      bnd(name, sym) == LET s == SelectSeq(dt.bounds, LAMBDA b : b[1] = name) IN IF s = <<>> THEN <<>> ELSE C(sym) \o s[1][2]
      whole == IF dtv = <<>> THEN C("`string`") ELSE Ticked(C(dt.base)) \o fmt \o bnd("minimum", "<br>&ge; ") \o bnd("maximum", "<br>&le; ")
      sep == SepOf(Levels(md, i))
  IN IF sep = <<>> THEN whole ELSE C("list of ") \o whole \o C(" (separated by ") \o Ticked(sep[1]) \o C(")")
ColumnPart(tab, fks, i) ==
  LET md == tab.md
      h == HeaderOf(md, i)
      text == IF md.cols[i].descr = <<>> \/ ~Truthy(md.cols[i].descr[1]) THEN <<>> ELSE Html(md.cols[i].descr[1])
      flat == [k \in DOMAIN text |-> IF text[k] = LF THEN SP ELSE text[k]]
      plus(a, b) == IF a = <<>> THEN b ELSE a \o C("<br>") \o b
      pk == IF h \in TRange(md.pk) THEN plus(flat, C("Primary key")) ELSE flat
      mine == SelectSeq(fks, LAMBDA fk : fk.cols = <<h>>)
      ref == C("References [") \o mine[1].rurl \o C("::") \o mine[1].rcols[1] \o C("](#table-") \o Slug(mine[1].rurl) \o C(")")
  IN [name |-> h, link |-> md.cols[i].purl, dt |-> DtPart(md, i), desc |-> IF mine = <<>> THEN pk ELSE plus(pk, ref)]

\* ---- the dialect: what differs from the defaults -----------------------------
BoolV(b) == <<"b", IF b THEN 1 ELSE 0>>
IntV(n) == IF n = 0 THEN <<"num", "i", FALSE, <<>>, 0>> ELSE <<"num", "i", FALSE, <<n>>, 0>>
DialectPart(d) ==
  LET e(c, k, v) == IF c THEN {<<k, v>>} ELSE {}
  IN e(d.enc # "utf-8", "encoding", <<"s", C(d.enc)>>)
     \cup e(TRUE, "lineTerminators", <<"l", << <<"s", d.lt>> >> >>)
     \cup e(d.quote # 34, "quoteChar", IF d.quote = -1 THEN <<"n">> ELSE <<"s", <<d.quote>> >>)
     \cup e(~d.dbl, "doubleQuote", BoolV(FALSE))
     \cup e(d.skipRows # 0, "skipRows", IntV(d.skipRows))
     \cup e(d.comment # <<>>, "commentPrefix", <<"s", d.comment>>)
     \cup e(~d.header, "header", BoolV(FALSE))
     \cup e(d.delim # 44, "delimiter", <<"s", <<d.delim>> >>)
     \cup e(d.skipCols # 0, "skipColumns", IntV(d.skipCols))
     \cup e(d.skipBlank, "skipBlankRows", BoolV(TRUE))
     \cup e(d.skipsp, "skipInitialSpace", BoolV(TRUE))
     \cup e(d.trim # "false", "trim", <<"s", C(d.trim)>>)

\* ---- the whole ---------------------------------------------------------------
TablePart(g, t, linked) ==
  LET tab == g.tabs[t]
      fks == SelectSeq(g.fks, LAMBDA fk : fk.t = t)
  IN [anchor |-> C("table-") \o Slug(tab.url), url |-> tab.url, linked |-> linked /\ tab.there, props |-> PropsPart(tab.props),
      cols |-> [i \in DOMAIN tab.md.cols |-> ColumnPart(tab, fks, i)]]
(* fname: the name of the metadata file, or none; linked: are links to files      *)
(* wanted?                                                                       *)
Markdown(g, fname, linked) ==
  LET title == SelectSeq(g.props, LAMBDA p : p[1] = C("dc:title"))
  IN [title |-> IF title = <<>> THEN C("Dataset") ELSE title[1][2][2],
      note |-> IF linked THEN fname ELSE <<>>,
      props |-> PropsPart(SelectSeq(g.props, LAMBDA p : p[1] # C("dc:title"))),
      tabs |-> [t \in DOMAIN g.tabs |-> TablePart(g, t, linked /\ fname # <<>>)]]
Dialects(g) == [t \in DOMAIN g.tabs |-> IF g.tabs[t].dia THEN DialectPart(g.tabs[t].md.d) ELSE {}]
=============================================================================
