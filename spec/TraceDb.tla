------------------------------- MODULE TraceDb -------------------------------
(* Sessions with databases.  The state: schema, whether the database was set   *)
(* up, whether its file exists (yes, no, maybe; memory), and its content.      *)
EXTENDS Db, Harness

DbInit(sess) == [S |-> sess.ini.S, mem |-> sess.ini.mem, up |-> FALSE, file |-> sess.ini.file,
                 foreign |-> sess.ini.file = "yes", rows |-> EmptyContent(sess.ini.S)]
Yes(stt) == [st |-> stt, bad |-> "", exp |-> <<>>]
Nay(stt, clause, exp) == [st |-> stt, bad |-> clause, exp |-> exp]

Open(stt, e) ==
  IF e.out.k \notin {"ok", "err"} THEN Nay(stt, "an unexpected exception", Creatable(stt.S))
  ELSE IF (e.out.k = "ok") # Creatable(stt.S) THEN Nay(stt, "tables which can be created", Creatable(stt.S))
  ELSE Yes([stt EXCEPT !.up = e.out.k = "ok"])

Write(stt, e) ==
  LET base == IF stt.mem THEN stt.rows ELSE EmptyContent(stt.S)
      fine == WriteOk(stt.S, base, e.items, e.skip)
      blocked == ~stt.mem /\ stt.file = "yes" /\ ~e.force
      \* an earlier attempt may have left a database without rows
      maybe == ~stt.mem /\ stt.file = "maybe" /\ ~e.force
      done == [stt EXCEPT !.rows = Added(stt.S, base, e.items), !.file = IF stt.mem THEN "no" ELSE "yes", !.foreign = FALSE]
      failed == IF stt.mem THEN stt ELSE [stt EXCEPT !.rows = EmptyContent(stt.S), !.file = "maybe", !.foreign = FALSE]
  IN IF e.out.k \notin {"ok", "err"} THEN Nay(stt, "an unexpected exception", fine)
     \* data which cannot be read is not written
     ELSE IF e.unreadable THEN IF e.out.k = "err" /\ e.out.same THEN Yes(stt) ELSE Nay(stt, "unreadable data is not written", <<>>)
     ELSE IF blocked THEN IF e.out.k = "err" /\ e.out.same THEN Yes(stt) ELSE Nay(stt, "an existing file is not touched", <<>>)
     ELSE IF maybe /\ e.out.k = "err" THEN Yes(stt)
     ELSE IF fine THEN IF e.out.k = "ok" THEN Yes(done) ELSE Nay(stt, "valid data is written", <<>>)
     ELSE IF e.out.k = "err" THEN Yes(failed) ELSE Nay(stt, "invalid data is refused", [t \in DOMAIN stt.S.tables |-> TableOk(stt.S, Added(stt.S, base, e.items), t)])

ReadOp(stt, e) ==
  LET never == (~stt.mem /\ stt.file # "yes") \/ stt.foreign
      exp == [t \in DOMAIN stt.S.tables |-> ReadTable(stt.S, stt.rows, t)]
      wrong == {t \in DOMAIN stt.S.tables : ~SameBag(exp[t], e.out.rows[stt.S.tables[t].name])}
  IN IF e.out.k = "err" THEN IF never \/ exp = EmptyContent(stt.S) 
          \* (reading a database which does not exist may create an empty one)
          THEN Yes(IF ~stt.mem /\ stt.file = "no" THEN [stt EXCEPT !.file = "maybe"] ELSE stt)
          ELSE Nay(stt, "data can be read", exp)
     ELSE IF e.out.k # "ok" THEN Nay(stt, "an unexpected exception", exp)
     ELSE IF stt.foreign THEN Yes(stt)
     ELSE IF e.out.extra THEN Nay(stt, "columns of rows", exp)
     ELSE IF \E t \in DOMAIN stt.S.tables : LET tb == stt.S.tables[t] IN \E c \in ColNames(tb) : e.out.seps[tb.name][c] # SepOf(tb, c)
          THEN Nay(stt, "separators", [t \in DOMAIN stt.S.tables |-> [c \in ColNames(stt.S.tables[t]) |-> SepOf(stt.S.tables[t], c)]])
     ELSE IF \E t \in DOMAIN stt.S.tables : LET tb == stt.S.tables[t] IN
               \E c \in TextLists(tb) : ~SameBag(SplitCol(exp[t], c), e.out.lists[tb.name][c])
          THEN Nay(stt, "lists found by queries", exp)
     ELSE IF wrong = {} THEN Yes(stt)
     ELSE Nay(stt, "data read is data written", [t \in wrong |-> exp[t]])

DbStep(stt, e) ==
  IF e.op = "open" THEN Open(stt, e)
  ELSE IF ~stt.up THEN Yes(stt)
  ELSE CASE e.op = "write" -> Write(stt, e) [] e.op = "read" -> ReadOp(stt, e)
=============================================================================
