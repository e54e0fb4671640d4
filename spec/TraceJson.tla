------------------------------ MODULE TraceJson ------------------------------
(* Recorded conversions and validations of described tables.  The state: the   *)
(* descriptions and the texts of the files, which do not change.               *)
EXTENDS Csv2Json, Harness

JsonInit(sess) == sess.ini
Yes(stt) == [st |-> stt, bad |-> "", exp |-> <<>>]
Nay(stt, clause, exp) == [st |-> stt, bad |-> clause, exp |-> exp]
Pairs(j) == IF j[1] = "o" THEN j[2] ELSE <<>>
HasName(j, name) == \E i \in DOMAIN Pairs(j) : Pairs(j)[i][1] = C(name)
Member(j, name) == Pairs(j)[CHOOSE i \in DOMAIN Pairs(j) : Pairs(j)[i][1] = C(name)][2]
Without(j, name) == {x \in PairSet(Pairs(j)) : x[1] # C(name)}

\* the first clause contradicted by what was got for row number k of a table
RowClause(md, nometa, x, k, got) ==
  IF ~(HasName(got, "describes") /\ Member(got, "describes")[1] = "l") THEN "objects of a row"
  ELSE IF Without(got, "describes") # RowPairs(md, x.n, x.row, k) THEN "url, number or titles of a row"
  ELSE IF ~Describes(Member(got, "describes")[2], md, nometa, x.row, k) THEN "objects of a row"
  ELSE ""
FirstClause(cs) == LET b == SelectSeq(cs, LAMBDA c : c # "") IN IF b = <<>> THEN "" ELSE b[1]
TableClause(md, nometa, text, got) ==
  LET r == TableRead(md, text, "lenient")
      rows == Member(got, "row")[2]
      x == ReadText(md.d, FileText(md.d, text))
      hd == ~md.d.header \/ x.rows # <<>>
  IN IF ~HasName(got, "row") \/ Without(got, "row") \notin {TablePairs(md, x.notes), IF hd THEN TablePairs(md, x.notes) ELSE TablePairs(md, <<>>)} THEN "annotations of a table"
     ELSE IF r.vague THEN ""
     ELSE IF Len(rows) # Len(r.rows) THEN "rows of a table"
     ELSE FirstClause([k \in DOMAIN rows |-> RowClause(md, nometa, r.rows[k], k, rows[k])])

Shown(stt) == SelectSeq(Iota(Len(stt.mds)), LAMBDA t : ~stt.mds[t].supp)
FullClause(stt, got) ==
  LET ts == Shown(stt)
      tabs == Member(got, "tables")[2]
      expected(k) == LET md == stt.mds[ts[k]] r == TableRead(md, stt.texts[ts[k]], "lenient")
                     IN <<TablePairs(md, <<>>), [i \in DOMAIN r.rows |-> <<RowPairs(md, r.rows[i].n, r.rows[i].row, i), About(md, r.rows[i].row, i),
                                                                Statements(md, stt.nometa, r.rows[i].row, i)>>]>>
      c == IF ~HasName(got, "tables") \/ Len(tabs) # Len(ts) THEN "tables of the group"
           ELSE IF Without(got, "tables") # PairSet(Simplify(<<"o", stt.gprops>>, TRUE)[2]) THEN "annotations of the group"
           ELSE FirstClause([k \in DOMAIN ts |-> TableClause(stt.mds[ts[k]], stt.nometa, stt.texts[ts[k]], tabs[k])])
  IN IF c = "" THEN Yes(stt) ELSE Nay(stt, c, [k \in DOMAIN ts |-> expected(k)])
(* minimal mode: the objects of all rows of all tables, in order; how many objects *)
(* describe a row is not fixed if cells have subjects of their own                   *)
MinimalClause(stt, got) ==
  LET ts == Shown(stt)
      r(t) == TableRead(stt.mds[t], stt.texts[t], "lenient")
      all == CatAll([k \in DOMAIN ts |-> LET x == r(ts[k]) IN
               [i \in DOMAIN x.rows |-> [id |-> About(stt.mds[ts[k]], x.rows[i].row, i), sts |-> Statements(stt.mds[ts[k]], stt.nometa, x.rows[i].row, i)]]])
      graph == \E k \in DOMAIN all : \E i \in DOMAIN all[k].sts : all[k].sts[i].s # <<>>
      objs == got[2]
      loose == \E k \in DOMAIN all : all[k].id = <<>> /\ \E i \in DOMAIN all[k].sts : all[k].sts[i].s = <<>>
      exp == UNION {StatementSet(all[k].sts, all[k].id) : k \in DOMAIN all}
      dropped(T1) == {<<t[2], t[3]>> : t \in T1}
  IN IF got[1] # "l" THEN Nay(stt, "minimal mode", <<>>)
     ELSE IF \E k \in DOMAIN ts : r(ts[k]).vague THEN Yes(stt)
     ELSE IF graph THEN
        IF loose THEN IF dropped(AllTriples(objs)) = dropped(exp) THEN Yes(stt) ELSE Nay(stt, "objects in minimal mode", exp)
        ELSE IF AllTriples(objs) = exp THEN Yes(stt) ELSE Nay(stt, "objects in minimal mode", exp)
     ELSE IF Len(objs) = Len(all) /\ \A k \in DOMAIN all : IsObject(objs[k], OneObject(all[k].id, all[k].sts)) THEN Yes(stt)
     ELSE Nay(stt, "objects in minimal mode", all)

\* groups described on the web are refused if their foreign keys are not valid
Refused(stt) == stt.url /\ ~SchemaOk(stt.mds, stt.fks, TRUE)
JsonOp(stt, e) ==
  LET ts == Shown(stt)
      bad == \E k \in DOMAIN ts : TableRead(stt.mds[ts[k]], stt.texts[ts[k]], "lenient").end # "done"
      refused == Refused(stt)
  IN IF e.out.k = "altered" THEN Nay(stt, "the description changes", <<>>)
     ELSE IF e.out.k \notin {"done", "csv", "err"} THEN Nay(stt, "an unexpected exception", <<>>)
     ELSE IF (e.out.k = "err") # refused THEN Nay(stt, "descriptions refused", <<>>)
     ELSE IF refused THEN Yes(stt)
     ELSE IF (e.out.k = "csv") # bad THEN Nay(stt, "malformed files", <<>>)
     ELSE IF bad THEN Yes(stt)
     ELSE IF e.minimal THEN MinimalClause(stt, e.out.res)
     ELSE FullClause(stt, e.out.res)

\* ---- validity --------------------------------------------------------------
BadTemplate(ts) == ts # <<>> /\ ts[1] # <<>> /\ ts[1][1][1] = "bad"
BadUris(u) == BadTemplate(u.about) \/ BadTemplate(u.prop) \/ BadTemplate(u.value)
GoodTemplates(md) ==
  /\ \A i \in DOMAIN md.uris : ~BadUris(md.uris[i])
  /\ \A i \in DOMAIN md.cols : ~BadUris(md.cols[i].uris) /\ ~BadTemplate(md.cols[i].vurl)
Validity(stt) ==
  LET rs == [t \in DOMAIN stt.mds |-> TableRead(stt.mds[t], stt.texts[t], "lenient")]
      pk(t) == PrimaryKey(stt.mds[t], stt.texts[t], FALSE)
      ri == Integrity(stt.mds, stt.fks, stt.texts, TRUE, FALSE)
  IN [vague |-> \E t \in DOMAIN rs : rs[t].vague,
      csv |-> \E t \in DOMAIN rs : rs[t].end # "done",
      v |-> /\ \A t \in DOMAIN rs : rs[t].end = "done" /\ ~rs[t].warned /\ pk(t).k = "ok" /\ pk(t).v
            \* columns of primary keys must have names
            /\ \A t \in DOMAIN rs : \A i \in DOMAIN stt.mds[t].cols :
                 HeaderOf(stt.mds[t], i) \in TRange(stt.mds[t].pk) => stt.mds[t].cols[i].name # <<>>
            /\ ri.k = "ok" /\ ri.v
            /\ ~Refused(stt)
            \* URI templates must be texts
            /\ \A t \in DOMAIN rs : GoodTemplates(stt.mds[t])]
ValidOp(stt, e) ==
  LET x == Validity(stt)
  IN IF e.out.k = "altered" THEN Nay(stt, "the description changes", x)
     ELSE IF e.out.k \notin {"ok", "err", "csv"} THEN Nay(stt, "an unexpected exception", x)
     ELSE IF x.vague THEN Yes(stt)
     ELSE IF e.out.k = "csv" THEN IF x.csv THEN Yes(stt) ELSE Nay(stt, "malformed files", x)
     ELSE IF (e.out.k = "ok" /\ e.out.v) # x.v THEN Nay(stt, "validity", x)
     ELSE Yes(stt)

JsonStep(stt, e) == CASE e.op = "json" -> JsonOp(stt, e) [] e.op = "valid" -> ValidOp(stt, e)
=============================================================================
