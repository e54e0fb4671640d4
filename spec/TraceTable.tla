------------------------------ MODULE TraceTable -----------------------------
(* Recorded uses of the tables of one table group.  The state: for each table  *)
(* its file and the zipped file beside it, each <<>> (missing) or <<text>>;    *)
(* the descriptions do not change.                                             *)
EXTENDS Table, Harness

TableInit(sess) == sess.ini
Yes(stt) == [st |-> stt, bad |-> "", exp |-> <<>>]
Nay(stt, clause, exp) == [st |-> stt, bad |-> clause, exp |-> exp]
SetFile(stt, t, f) == [stt EXCEPT !.files[t] = f]
Source(stt, e) ==
  LET f == stt.files[e.t]
  IN IF e.src = "text" THEN <<e.text>>
     ELSE IF f.plain # <<>> THEN f.plain ELSE IF e.src = "handle" THEN <<>> ELSE f.zip
Same(a, b) ==   \* as bags
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[i]}) = Cardinality({j \in DOMAIN b : b[j] = a[i]})

ReadStep(stt, e) ==
  LET src == Source(stt, e)
      r == TableRead(stt.mds[e.t], src[1], e.mode)
  IN IF src = <<>> THEN IF e.out.k # "missing" THEN Nay(stt, "missing file not reported", <<>>) ELSE Yes(stt)
     ELSE IF e.out.k \notin {"done", "err", "csv"} THEN Nay(stt, "an unexpected exception", r)
     ELSE IF r.vague THEN Yes(stt)
     ELSE IF [i \in DOMAIN e.out.rows |-> e.out.rows[i].row] # RowsRead(r) THEN Nay(stt, "rows read", r)
     ELSE IF e.out.k # r.end THEN Nay(stt, "how reading ends", r)
     ELSE IF e.meta /\ [i \in DOMAIN e.out.rows |-> e.out.rows[i].n] # [i \in DOMAIN r.rows |-> r.rows[i].n]
          THEN Nay(stt, "line numbers of rows", r)
     ELSE IF e.meta /\ ~e.out.fn THEN Nay(stt, "file names of rows", r)
     ELSE IF ~Same(e.out.logs, r.logs) THEN Nay(stt, "errors logged", r)
     ELSE IF e.mode = "strict" /\ e.out.at # r.at
             /\ ~(r.twice /\ Len(e.out.at) = 2 /\ Len(r.at) = 2 /\ e.out.at[1] = r.at[1]) THEN Nay(stt, "position of the error", r)
     ELSE IF e.mode = "lenient" /\ e.out.warned # r.warned THEN Nay(stt, "warnings", r)
     ELSE Yes(stt)

Written(md, e) ==
  LET s == {i \in DOMAIN e.items : Surplus(md, e.items[i])}
  IN IF e.strict /\ s # {} THEN [ok |-> FALSE, text |-> <<>>] ELSE TableText(md, e.items)
WriteStep(stt, e) ==
  LET md == stt.mds[e.t]
      w == Written(md, e)
      new == IF e.to = "memory" \/ e.to = "other" THEN stt
             ELSE IF e.zipped THEN SetFile(stt, e.t, [plain |-> <<>>, zip |-> <<w.text>>])
             ELSE SetFile(stt, e.t, [stt.files[e.t] EXCEPT !.plain = <<w.text>>])
  IN IF ~w.ok THEN IF e.out.k # "err" THEN Nay(stt, "unknown fields accepted", w)
                    ELSE Yes([stt EXCEPT !.files = e.out.files])
     ELSE IF e.out.k # "ok" THEN Nay(stt, "rows refused", w)
     ELSE IF e.to \in {"memory", "other"} /\ e.out.text # w.text THEN Nay(stt, "text written", w)
     ELSE IF e.to # "memory" /\ e.out.n # Len(e.items) THEN Nay(stt, "number of rows written", w)
     ELSE IF e.out.files # new.files THEN Nay(stt, "files after writing", new.files)
     ELSE Yes(new)

\* a whole group: texts of tables given, in any order
GWriteStep(stt, e) ==
  LET w(i) == Written(stt.mds[e.tabs[i].t], [items |-> e.tabs[i].items, strict |-> e.strict])
      file(i) == IF e.zipped THEN [plain |-> <<>>, zip |-> <<w(i).text>>]
                 ELSE [stt.files[e.tabs[i].t] EXCEPT !.plain = <<w(i).text>>]
      new == FoldLeft(LAMBDA s, i : SetFile(s, e.tabs[i].t, file(i)), stt, Iota(Len(e.tabs)))
  IN IF \E i \in DOMAIN e.tabs : ~w(i).ok
     THEN IF e.out.k # "err" THEN Nay(stt, "unknown fields accepted", <<>>) ELSE Yes([stt EXCEPT !.files = e.out.files])
     ELSE IF e.out.k # "ok" THEN Nay(stt, "rows refused", <<>>)
     ELSE IF e.out.files # new.files THEN Nay(stt, "files after writing", new.files)
     ELSE Yes(new)
GReadStep(stt, e) ==
  LET src(t) == LET f == stt.files[t] IN IF f.plain # <<>> THEN f.plain ELSE f.zip
      r(t) == TableRead(stt.mds[t], src(t)[1], "strict")
      ts == DOMAIN stt.mds
  IN IF \E t \in ts : src(t) = <<>> THEN IF e.out.k \notin {"missing", "err", "csv"} THEN Nay(stt, "missing file not reported", <<>>) ELSE Yes(stt)
     ELSE IF \E t \in ts : r(t).vague THEN Yes(stt)
     ELSE IF \E t \in ts : r(t).end # "done" THEN IF e.out.k \notin {"err", "csv"} THEN Nay(stt, "invalid tables read", <<>>) ELSE Yes(stt)
     ELSE IF e.out.k # "done" THEN Nay(stt, "valid tables not read", <<>>)
     ELSE IF e.out.tabs # [t \in ts |-> RowsRead(r(t))] THEN Nay(stt, "rows read", [t \in ts |-> RowsRead(r(t))])
     ELSE Yes(stt)

Texts(stt) == [t \in DOMAIN stt.mds |-> LET f == stt.files[t] IN IF f.plain # <<>> THEN f.plain[1] ELSE f.zip[1]]
Verdict(stt, e, r, what) ==
  IF e.out.k \notin {"ok", "err"} THEN Nay(stt, "an unexpected exception", r)
  ELSE IF r.k = "any" THEN Yes(stt)
  ELSE IF e.out.k # r.k THEN Nay(stt, what \o ": raised or not", r)
  ELSE IF e.out.k = "ok" /\ e.out.v # r.v THEN Nay(stt, what \o ": verdict", r)
  ELSE IF e.out.k = "ok" /\ e.log /\ ~Same(e.out.logs, r.logs) THEN Nay(stt, what \o ": errors logged", r)
  ELSE Yes(stt)

\* a foreign key is added unless a column it is to consist of has not got that name
AddFkStep(stt, e) ==
  LET named == {stt.mds[e.fk.t].cols[i].name : i \in DOMAIN stt.mds[e.fk.t].cols}
      known == \A i \in DOMAIN e.fk.cols : <<e.fk.cols[i]>> \in named
  IN IF e.out.k # (IF known THEN "ok" ELSE "err") THEN Nay(stt, "foreign key added or not", known)
     ELSE Yes(IF known THEN [stt EXCEPT !.fks = Append(@, e.fk)] ELSE stt)

TableStep(stt, e) ==
  CASE e.op = "addfk" -> AddFkStep(stt, e)
    [] e.op = "read" -> ReadStep(stt, e)
    [] e.op = "write" -> WriteStep(stt, e)
    [] e.op = "gwrite" -> GWriteStep(stt, e)
    [] e.op = "gread" -> GReadStep(stt, e)
    [] e.op = "pk" -> Verdict(stt, e, PrimaryKey(stt.mds[e.t], Texts(stt)[e.t], e.log), "primary key")
    [] e.op = "ri" -> Verdict(stt, e, Integrity(stt.mds, stt.fks, Texts(stt), e.strict, e.log), "references")
    [] e.op = "schema" ->
         IF e.out.k # (IF SchemaOk(stt.mds, stt.fks, e.strict) THEN "ok" ELSE "err")
         THEN Nay(stt, "foreign keys: verdict", <<>>) ELSE Yes(stt)
=============================================================================
