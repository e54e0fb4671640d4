------------------------------- MODULE Csv2Json ------------------------------
(* The conversion of described tables to JSON (csv2json).  JSON is              *)
(*   <<"n">>  <<"b", 0 or 1>>  <<"num", neg, digits, exponent>>  <<"s", text>>   *)
(*   <<"l", values>>  <<"o", sequence of <<key, value>> >>                       *)
(* A described table is a table (see Table) whose descriptions may have URI      *)
(* templates: uris, for group, table and schema, and col.uris are                *)
(* [about, prop, value], each <<>> or <<template>>.  Further properties:         *)
(*   loc       where it is: <<"url", text>> or <<"path", directory, name>>       *)
(*   supp      whether it is left out                                            *)
(*   props, notes (<<>> or <<list>>), id (<<>> or <<text>>), titles (rowTitles)  *)
EXTENDS Table

\* prefixes of the initial context (RDFa Core Initial Context, as used by CSVW)
Contexts == <<
  <<C("csvw"), C("http://www.w3.org/ns/csvw#")>>,
  <<C("rdf"), C("http://www.w3.org/1999/02/22-rdf-syntax-ns#")>>,
  <<C("rdfs"), C("http://www.w3.org/2000/01/rdf-schema#")>>,
  <<C("xsd"), C("http://www.w3.org/2001/XMLSchema#")>>,
  <<C("dc"), C("http://purl.org/dc/terms/")>>,
  <<C("dcat"), C("http://www.w3.org/ns/dcat#")>>,
  <<C("prov"), C("http://www.w3.org/ns/prov#")>>,
  <<C("schema"), C("http://schema.org/")>>,
  <<C("as"), C("https://www.w3.org/ns/activitystreams#")>>,
  <<C("cc"), C("http://creativecommons.org/ns#")>>,
  <<C("ctag"), C("http://commontag.org/ns#")>>,
  <<C("dc11"), C("http://purl.org/dc/elements/1.1/")>>,
  <<C("dctypes"), C("http://purl.org/dc/dcmitype/")>>,
  <<C("dqv"), C("http://www.w3.org/ns/dqv#")>>,
  <<C("duv"), C("https://www.w3.org/ns/duv#")>>,
  <<C("foaf"), C("http://xmlns.com/foaf/0.1/")>>,
  <<C("gr"), C("http://purl.org/goodrelations/v1#")>>,
  <<C("grddl"), C("http://www.w3.org/2003/g/data-view#")>>,
  <<C("ical"), C("http://www.w3.org/2002/12/cal/icaltzd#")>>,
  <<C("jsonld"), C("http://www.w3.org/ns/json-ld#")>>,
  <<C("ldp"), C("http://www.w3.org/ns/ldp#")>>,
  <<C("ma"), C("http://www.w3.org/ns/ma-ont#")>>,
  <<C("oa"), C("http://www.w3.org/ns/oa#")>>,
  <<C("odrl"), C("http://www.w3.org/ns/odrl/2/")>>,
  <<C("og"), C("http://ogp.me/ns#")>>,
  <<C("org"), C("http://www.w3.org/ns/org#")>>,
  <<C("owl"), C("http://www.w3.org/2002/07/owl#")>>,
  <<C("qb"), C("http://purl.org/linked-data/cube#")>>,
  <<C("rdfa"), C("http://www.w3.org/ns/rdfa#")>>,
  <<C("rev"), C("http://purl.org/stuff/rev#")>>,
  <<C("rif"), C("http://www.w3.org/2007/rif#")>>,
  <<C("rr"), C("http://www.w3.org/ns/r2rml#")>>,
  <<C("sd"), C("http://www.w3.org/ns/sparql-service-description#")>>,
  <<C("sioc"), C("http://rdfs.org/sioc/ns#")>>,
  <<C("skos"), C("http://www.w3.org/2004/02/skos/core#")>>,
  <<C("skosxl"), C("http://www.w3.org/2008/05/skos-xl#")>>,
  <<C("sosa"), C("http://www.w3.org/ns/sosa/")>>,
  <<C("ssn"), C("http://www.w3.org/ns/ssn/")>>,
  <<C("time"), C("http://www.w3.org/2006/time#")>>,
  <<C("v"), C("http://rdf.data-vocabulary.org/#")>>,
  <<C("vcard"), C("http://www.w3.org/2006/vcard/ns#")>>,
  <<C("void"), C("http://rdfs.org/ns/void#")>>,
  <<C("wdr"), C("http://www.w3.org/2007/05/powder#")>>,
  <<C("wrds"), C("http://www.w3.org/2007/05/powder-s#")>>,
  <<C("xhv"), C("http://www.w3.org/1999/xhtml/vocab#")>>,
  <<C("xml"), C("http://www.w3.org/XML/1998/namespace")>> >>

\* ---- URLs ------------------------------------------------------------------
\* paths, as joined by pathlib
PathJoin(dir, s) ==
  LET segs == SelectSeq(Split(s, <<47>>), LAMBDA x : x # <<>> /\ x # <<46>>)
  IN IF s # <<>> /\ s[1] = 47 THEN <<47>> \o Join(segs, <<47>>)
     ELSE Join(<<dir>> \o segs, <<47>>)
Place(loc) == IF loc[1] = "url" THEN loc[2] ELSE PathJoin(loc[2], loc[3])
\* empty parameters, query or fragment are none
NoEmpty(u) ==
  LET c == Comp(u)
      seg == Drop(c.path, LastSlash(c.path))
      none(x) == IF x = <<<<>>>> THEN <<>> ELSE x
  IN Recompose([c EXCEPT !.path = IF seg # <<>> /\ FindFrom(seg, <<59>>, 1) = Len(seg) THEN Take(@, Len(@) - 1) ELSE @,
                         !.query = none(@), !.frag = none(@)])
\* references with another scheme than that of the base are left as they are
OtherScheme(base, ref) == Comp(ref).scheme # <<>> /\ Comp(ref).scheme # Comp(base).scheme
Absolute(loc, ref) == IF loc[1] = "url" THEN (IF OtherScheme(loc[2], ref) THEN ref ELSE NoEmpty(Resolve(loc[2], ref)))
                      ELSE IF IsUrl(ref) THEN ref ELSE PathJoin(loc[2], ref)
Compact(u) == LET is == {i \in DOMAIN Contexts : StartsWith(u, Contexts[i][2])}
              IN IF is = {} THEN u ELSE LET p == Contexts[FirstOf(is)] IN p[1] \o <<58>> \o Drop(u, Len(p[2]))
\* invalid templates stand for the table itself
ExpandUri(loc, tmpl, bs, qname) ==
  IF tmpl # <<>> /\ tmpl[1][1] = "bad" THEN Place(loc) ELSE
  LET t == Expand(tmpl, bs)
      is == {i \in DOMAIN Contexts : StartsWith(TemplateText(tmpl), Contexts[i][1] \o <<58>>)}
      u == IF is # {} THEN LET p == Contexts[FirstOf(is)] IN p[2] \o Drop(t, Len(p[1]) + 1)
           ELSE Absolute(loc, t)
  IN IF qname /\ IsUrl(u) THEN Compact(u) ELSE u

\* ---- values ----------------------------------------------------------------
TzJson(tz) == IF tz = <<>> THEN <<>> ELSE IF tz[1] = 0 THEN <<90>> ELSE TzText(C("xxx"), tz)
DtJson(base, v, tz) ==
  LET p2(n) == Pad(NatText(n), 2, 48)
      date == Pad(NatText(v[1]), 4, 48) \o <<45>> \o p2(v[2]) \o <<45>> \o p2(v[3])
      frac == RStripIf(FracText(v[7], 6), LAMBDA c : c = 48)
      time == p2(v[4]) \o <<58>> \o p2(v[5]) \o <<58>> \o p2(v[6]) \o (IF frac = <<>> THEN <<>> ELSE <<46>> \o frac)
  IN (CASE base = "date" -> date [] base = "time" -> time [] OTHER -> date \o <<84>> \o time) \o TzJson(tz)
\* JSON in cells stands within the objects as it is
RECURSIVE JTree(_)
JTree(x) == CASE x[1] = "l" -> <<"l", [i \in DOMAIN x[2] |-> JTree(x[2][i])]>>
              [] x[1] = "o" -> <<"o", [i \in DOMAIN x[2] |-> <<x[2][i][1], JTree(x[2][i][2])>>]>>
              [] x[1] = "num" -> LET n == NumOf(x) IN <<"num", n.neg, n.d, n.e>>
              [] OTHER -> x
Atom(dtv, v) ==
  CASE v[1] = "n" -> <<"n">>
    [] v[1] \in {"s", "u"} -> <<"s", v[2]>>
    [] v[1] = "num" -> LET n == NumOf(v) IN <<"num", n.neg, n.d, n.e>>
    [] v[1] = "x" -> <<"s", C(v[3])>>
    [] v[1] = "b" -> v
    [] v[1] = "j" -> JTree(v[2])
    [] v[1] = "dt" -> <<"s", DtJson(dtv[1].base, v[2], v[3])>>
    [] v[1] \in {"dur", "bin"} -> <<"s", Write(dtv[1], v)>>
JsonOf(dtv, v) == IF v[1] = "l" THEN <<"l", [i \in DOMAIN v[2] |-> Atom(dtv, v[2][i])]>> ELSE Atom(dtv, v)

\* ---- rows ------------------------------------------------------------------
UriOf(levels, what) == Given(levels, LAMBDA l : CASE what = "about" -> l.about [] what = "prop" -> l.prop [] what = "value" -> l.value)
ColumnOf(md, key) == LET is == {i \in DOMAIN md.cols : HeaderOf(md, i) = key} IN IF is = {} THEN 0 ELSE LastOf(is)
ColUri(md, i, what) == IF i = 0 THEN UriOf(SubSeq(md.uris, 1, 2), what) ELSE UriOf(Append(md.uris, md.cols[i].uris), what)
ColNulls(md, i) == IF i = 0 THEN NullOf(SubSeq(md.levels, 1, 2)) ELSE NullOf(Levels(md, i))
RowBindings(row, rownum, name) == Bindings(row) \o << <<C("_row"), <<"s", NatText(rownum)>> >>, <<C("_name"), name>> >>
NoValue(md, i, v) ==
  \/ v = <<"n">>
  \/ v[1] \in {"s", "u"} /\ (v[2] = <<>> \/ v[2] \in TRange(ColNulls(md, i)))
  \/ v[1] = "j" /\ v[2][1] = "s" /\ (v[2][2] = <<>> \/ v[2][2] \in TRange(ColNulls(md, i)))
  \/ v = <<"l", <<>> >>

\* what a cell says: [s, p, v], s (subject) <<>> or <<URL>>
Statement(md, i, key, row, rownum, v) ==
  LET name == IF i = 0 THEN <<>> ELSE <<"s", HeaderOf(md, i)>>
      bs == RowBindings(row, rownum, name)
      pu == ColUri(md, i, "prop")
      vu == ColUri(md, i, "value")
      about == IF i = 0 THEN <<>> ELSE md.cols[i].uris.about
      p == IF pu = <<>> THEN key ELSE ExpandUri(md.loc, pu[1], bs, TRUE)
  IN [s |-> IF about = <<>> THEN <<>> ELSE <<ExpandUri(md.loc, about[1], bs, FALSE)>>,
      p |-> IF p = C("rdf:type") THEN C("@type") ELSE p,
      v |-> IF vu = <<>> THEN JsonOf(IF i = 0 THEN <<>> ELSE DatatypeOf(Levels(md, i)), v)
            ELSE <<"s", ExpandUri(md.loc, vu[1], bs, p = C("rdf:type"))>>]
About(md, row, rownum) ==
  LET a == UriOf(md.uris, "about")
  IN IF a = <<>> THEN <<>> ELSE <<ExpandUri(md.loc, a[1], RowBindings(row, rownum, <<>>), FALSE)>>
Statements(md, nometa, row, rownum) ==
  LET cell(j) ==
        LET i == ColumnOf(md, row[j][1])
        IN IF (i # 0 /\ md.cols[i].virtual) \/ NoValue(md, i, row[j][2]) THEN <<>>
           ELSE IF i # 0 /\ md.cols[i].supp THEN <<>>
           ELSE <<Statement(md, i, IF md.cols = <<>> /\ ~nometa THEN ColNo(j) ELSE row[j][1], row, rownum, row[j][2])>>
      virt(i) == IF md.cols[i].virtual /\ ColUri(md, i, "value") # <<>> /\ ~md.cols[i].supp
                 THEN <<Statement(md, i, HeaderOf(md, i), row, rownum, <<"n">>)>> ELSE <<>>
  IN CatAll([j \in DOMAIN row |-> cell(j)]) \o CatAll([i \in DOMAIN md.cols |-> virt(i)])

\* ---- objects ---------------------------------------------------------------
Atoms(v) == IF v[1] = "l" THEN v[2] ELSE <<v>>
(* the objects which describe a row, when no cell has a subject of its own:      *)
(* one object, with the values of each property                                  *)
OneObject(id, sts) ==
  LET put(o, st) ==
        IF \E i \in DOMAIN o : o[i].p = st.p
        THEN [i \in DOMAIN o |-> IF o[i].p = st.p THEN [o[i] EXCEPT !.v = @ \o Atoms(st.v), !.many = TRUE, !.mixed = @ \/ (st.v[1] = "l") # o[i].list] ELSE o[i]]
        ELSE Append(o, [p |-> st.p, v |-> Atoms(st.v), many |-> st.v[1] = "l", list |-> st.v[1] = "l", mixed |-> FALSE])
  IN [id |-> id, props |-> FoldLeft(put, <<>>, sts)]
SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[i]}) = Cardinality({j \in DOMAIN b : b[j] = a[i]})
\* a list of lists of atoms, flattened
RECURSIVE FlatAtoms(_)
FlatAtoms(v) == IF v[1] = "l" THEN CatAll([i \in DOMAIN v[2] |-> FlatAtoms(v[2][i])]) ELSE <<v>>
IsObject(o, exp) ==
  /\ o[1] = "o"
  /\ LET keys == {o[2][i][1] : i \in DOMAIN o[2]}
         val(k) == o[2][CHOOSE i \in DOMAIN o[2] : o[2][i][1] = k][2]
     IN /\ Len(o[2]) = Cardinality(keys)
        /\ keys = {exp.props[i].p : i \in DOMAIN exp.props} \cup (IF exp.id = <<>> THEN {} ELSE {C("@id")})
        /\ exp.id # <<>> => val(C("@id")) = <<"s", exp.id[1]>>
        /\ \A i \in DOMAIN exp.props :
             LET x == exp.props[i]
                 v == val(x.p)
             IN IF x.mixed THEN SameBag(FlatAtoms(v), x.v) ELSE v = IF x.many THEN <<"l", x.v>> ELSE x.v[1]

\* otherwise: objects, possibly within objects, stating what the cells state
RECURSIVE Triples(_, _)
Triples(o, dummy) ==     \* set of <<subject, property, atom>>, subject <<>> or <<URL>>
  LET ids == {i \in DOMAIN o[2] : o[2][i][1] = C("@id")}
      s == IF ids = {} THEN <<>> ELSE <<o[2][CHOOSE i \in ids : TRUE][2][2]>>
      vals(v) == TRange(FlatAtoms(v))
      one(p, x) == IF x[1] # "o" THEN {<<s, p, x>>}
                   ELSE LET xi == {i \in DOMAIN x[2] : x[2][i][1] = C("@id")}
                        IN {<<s, p, x[2][i][2]>> : i \in xi} \cup Triples(x, dummy)
  IN UNION {UNION {one(o[2][i][1], x) : x \in vals(o[2][i][2])} : i \in DOMAIN o[2] \ ids}
IdOf(o) == LET ids == {i \in DOMAIN o[2] : o[2][i][1] = C("@id")} IN IF ids = {} THEN <<>> ELSE <<o[2][CHOOSE i \in ids : TRUE][2][2]>>
\* (null is no value)
AllTriples(objs) == {t \in UNION {Triples(objs[i], 0) : i \in DOMAIN objs} : t[3] # <<"n">>}
StatementSet(sts, dflt) ==
  UNION {LET st == sts[i] IN {<<IF st.s = <<>> THEN dflt ELSE st.s, st.p, a>> : a \in TRange(Atoms(st.v)) \ {<<"n">>}} : i \in DOMAIN sts}
\* An object stands within another one exactly if this is the only reference to it;
\* of objects referring to each other in a circle one stands for itself.
RdfType == C("http://www.w3.org/1999/02/22-rdf-syntax-ns#type")
Nested(objs, ts) ==
  LET subjects == {t[1] : t \in ts}
      refs == {t \in ts : t[3][1] = "s" /\ <<t[3][2]>> \in subjects /\ StartsWith(t[3][2], C("http"))}
      to(s) == {t \in refs : <<t[3][2]>> = s}
      single == {s \in subjects : Cardinality(to(s)) = 1}
      parent == [s \in single |-> (CHOOSE t \in to(s) : TRUE)[1]]
      RECURSIVE Way(_, _)
      Way(s, seen) == IF s \in seen \/ s \notin single THEN seen ELSE Way(parent[s], seen \cup {s})
      circle(s) == IF s \in single /\ s \in Way(parent[s], {}) THEN Way(s, {}) ELSE {}
      tops == {IdOf(objs[i]) : i \in DOMAIN objs}
  IN /\ Len(objs) = Cardinality(tops)
     /\ \A s \in subjects :
          IF s \notin single THEN s \in tops
          ELSE LET c == circle(s) IN IF c = {} THEN s \notin tops ELSE Cardinality(c \cap tops) = 1
IsGraph(objs, id, sts) ==
  LET got == AllTriples(objs)
      own == SelectSeq(sts, LAMBDA st : st.s = <<>>)
      others == SelectSeq(sts, LAMBDA st : st.s # <<>>)
      loose == {<<t[2], t[3]>> : t \in StatementSet(own, <<>>)}
  IN /\ \A i \in DOMAIN objs : objs[i][1] = "o"
     /\ (id # <<>> /\ \E i \in DOMAIN objs : IdOf(objs[i]) = id) => IdOf(objs[1]) = id
     /\ IF id # <<>> \/ own = <<>> THEN
             /\ got = StatementSet(sts, id)
             /\ (\E t \in got : t[2] = RdfType) \/ Nested(objs, got)
        ELSE \* a row without identifier: its properties may be joined with the only other object
             /\ StatementSet(others, <<>>) \subseteq got
             /\ loose \subseteq {<<t[2], t[3]>> : t \in got}
             /\ \A t \in got : t \in StatementSet(others, <<>>) \/ <<t[2], t[3]>> \in loose
Describes(objs, md, nometa, row, rownum) ==
  LET sts == Statements(md, nometa, row, rownum)
      id == About(md, row, rownum)
  IN IF \E i \in DOMAIN sts : sts[i].s # <<>> THEN IsGraph(objs, id, sts)
     ELSE Len(objs) = 1 /\ IsObject(objs[1], OneObject(id, sts))

\* ---- common properties -----------------------------------------------------
RECURSIVE Simplify(_, _)
Simplify(j, flat) ==
  IF j[1] = "o"
  THEN LET k(name) == {i \in DOMAIN j[2] : j[2][i][1] = C(name)}
       IN IF k("@value") # {} THEN j[2][CHOOSE i \in k("@value") : TRUE][2]
          ELSE IF Len(j[2]) = 1 /\ k("@id") # {} THEN j[2][1][2]
          ELSE <<"o", [i \in DOMAIN j[2] |-> <<IF j[2][i][1] = C("rdf:type") THEN C("@type") ELSE j[2][i][1], Simplify(j[2][i][2], flat)>>]>>
  ELSE IF j[1] = "l"
       THEN IF flat /\ Len(j[2]) = 1 THEN Simplify(j[2][1], flat)
            ELSE <<"l", [i \in DOMAIN j[2] |-> Simplify(j[2][i], flat)]>>
  ELSE j
PairSet(pairs) == {pairs[i] : i \in DOMAIN pairs}

\* ---- tables ----------------------------------------------------------------
JNat(n) == NumN(FALSE, DigitsOf(NatText(n)), 0)
TitlesOf(md, row) ==
  LET vs == CatAll([i \in DOMAIN md.titles |->
               LET v == GetKV(row, md.titles[i])
                   c == ColumnOf(md, md.titles[i])
               IN IF v \in {<<"n">>, <<"s", <<>> >>} THEN <<>> ELSE <<Atom(IF c = 0 THEN <<>> ELSE DatatypeOf(Levels(md, c)), v)>>])
  IN IF Len(vs) = 1 THEN vs[1] ELSE <<"l", vs>>
RowPairs(md, n, row, rownum) ==
  {<<C("url"), <<"s", Place(md.loc) \o C("#row=") \o NatText(n)>> >>, <<C("rownum"), <<"num", FALSE, JNat(rownum).d, JNat(rownum).e>> >>}
  \cup (IF md.titles = <<>> THEN {} ELSE {<<C("titles"), TitlesOf(md, row)>>})
TablePairs(md, notes) ==
  {<<C("url"), <<"s", Place(md.loc)>> >>}
  \cup (IF md.id = <<>> THEN {} ELSE {<<C("@id"), <<"s", md.id[1]>> >>})
  \cup (IF md.notes = <<>> THEN {} ELSE {<<C("notes"), Simplify(<<"l", md.notes[1]>>, FALSE)>>})
  \cup PairSet(Simplify(<<"o", md.props>>, FALSE)[2])
  \cup (IF notes = <<>> THEN {} ELSE {<<C("rdfs:comment"), <<"l", [i \in DOMAIN notes |-> <<"s", notes[i].text>>]>> >>})
=============================================================================
