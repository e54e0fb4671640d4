------------------------------ MODULE TraceGroup -----------------------------
(* Recorded histories of table groups in several directories.                   *)
EXTENDS Group, Harness
GroupInit(sess) == sess.ini
Yes(stt) == [st |-> stt, bad |-> "", exp |-> <<>>]
Nay(stt, clause, exp) == [st |-> stt, bad |-> clause, exp |-> exp]
\* what can be seen of a directory
Seen(x) == [made |-> x.made, md |-> x.md, files |-> x.files]
\* the operation gave r, with what is found in the directories afterwards
Check(stt, e, dn, r) ==
  IF e.out.k = "other" THEN Nay(stt, "an unexpected exception", r.k)
  ELSE IF e.out.k # r.k THEN Nay(stt, e.op \o ": refused or not", r.k)
  ELSE IF r.k = "err" THEN
       \* the table refused is not specified
       IF \A d \in DOMAIN stt.dirs : d = dn \/ e.out.dirs[d] = Seen(stt.dirs[d])
       THEN Yes([stt EXCEPT !.dirs[dn].files = e.out.dirs[dn].files]) ELSE Nay(stt, e.op \o ": other directories", stt.dirs)
  ELSE IF \E d \in DOMAIN stt.dirs : e.out.dirs[d] # Seen(r.st.dirs[d]) THEN Nay(stt, e.op \o ": files", r.st.dirs)
  ELSE IF ~e.out.same THEN Nay(stt, e.op \o ": description", <<>>)
  ELSE Yes(r.st)
GReadStep(stt, e) ==
  LET g == TLCEval(GroupRead(stt, e.o))
      ts == DOMAIN stt.mds
  IN IF \E t \in ts : g[t] = <<>> THEN IF e.out.k \notin {"missing", "err", "csv"} THEN Nay(stt, "missing file not reported", <<>>) ELSE Yes(stt)
     ELSE IF \E t \in ts : g[t][1].vague THEN Yes(stt)
     ELSE IF \E t \in ts : g[t][1].end # "done" THEN IF e.out.k \notin {"err", "csv"} THEN Nay(stt, "invalid tables read", <<>>) ELSE Yes(stt)
     ELSE IF e.out.k # "done" THEN Nay(stt, "valid tables not read", <<>>)
     ELSE IF e.out.tabs # [t \in ts |-> RowsRead(g[t][1])] THEN Nay(stt, "rows read", [t \in ts |-> RowsRead(g[t][1])])
     ELSE Yes(stt)
GroupStep(stt, e) ==
  CASE e.op = "gread" -> GReadStep(stt, e)
    [] e.op = "write" -> LET dn == IF e.dir = 0 THEN stt.objs[e.o] ELSE e.dir
                         IN Check(stt, e, dn, PutTable(stt, dn, e.t, e.items, e.zipped, e.strict))
    [] e.op = "gwrite" -> Check(stt, e, e.dir, PutGroup(stt, e.dir, e.tabs, e.zipped, e.strict))
    [] e.op = "copy" -> Check(stt, e, e.dir, CopyGroup(stt, e.o, e.dir))
    [] e.op = "load" -> Check(stt, e, e.dir, LoadGroup(stt, e.dir))
=============================================================================
