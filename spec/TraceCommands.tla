---------------------------- MODULE TraceCommands ----------------------------
(* What commands returned, printed and left behind.                            *)
EXTENDS Commands, Harness

\* The functions of the trace are records; what it has at a path is <<>>, <<"db", a, b>> or <<"other">>.
AsWorld(x) == [form |-> x.form, meta |-> x.meta, props |-> x.props, a |-> x.a, b |-> x.b, bthere |-> x.bthere,
               dbs |-> [p \in DOMAIN x.dbs |-> <<>>], mds |-> [p \in DOMAIN x.mds |-> <<>>]]
CmdInit(sess) == AsWorld(sess.ini)

\* the rows of a.csv have keys, which may order them
Same(x, y) == Len(x) = Len(y) /\ (Len(x) = 3 => x[3] = y[3] /\ Len(x[2]) = Len(y[2]) /\ Rng(x[2]) = Rng(y[2])) /\ (Len(x) # 3 => x = y)
Agrees(exp, obs) == \A p \in DOMAIN exp.dbs : exp.dbs[p] = <<"free">> \/ Same(exp.dbs[p], obs.dbs[p])
Adopt(exp, obs) == [exp EXCEPT !.dbs = [p \in DOMAIN exp.dbs |-> IF exp.dbs[p] = <<"free">> THEN obs.dbs[p] ELSE exp.dbs[p]]]

CmdStep(w, e) ==
  LET no(clause, x) == [st |-> w, bad |-> clause, exp |-> x]
      o == e.out
      r == CASE e.op = "edit" -> Res([w EXCEPT !.a = e.a, !.b = e.b, !.bthere = e.bthere, !.meta = e.meta, !.props = e.props], {0})
             [] e.op = "validate" -> Validate(w)
             [] e.op = "json" -> Convert(w)
             [] e.op = "sqlite" -> ToSqlite(w, e.path)
             [] e.op = "datasette" -> ToDatasette(w, e.path, e.mpath)
             [] e.op = "markdown" -> Res(w, IF Describable(w) THEN {0} ELSE Fail)
             [] e.op = "describe" -> Res(w, {0})
             [] OTHER -> Res(w, {2})     \* arguments nobody understands
  IN IF e.op = "datasette" /\ w.form = "bare" THEN [st |-> Adopt([w EXCEPT !.dbs[e.path] = <<"free">>], o), bad |-> "", exp |-> <<>>]
     ELSE IF o.code \notin r.codes THEN no("exit status", r.codes)
     ELSE IF ~o.same THEN no("other files changed", <<>>)
     ELSE IF ~Agrees(r.w, o) THEN no("databases", r.w.dbs)
     ELSE IF r.w.mds # o.mds THEN no("metadata for datasette", r.w.mds)
     ELSE IF e.op = "validate" /\ o.code < 3 /\ o.said # (IF o.code = 0 THEN "OK" ELSE "FAIL") THEN no("verdict printed", r.codes)
     ELSE IF e.op = "validate" /\ o.code < 3 /\ (o.lines > 1) # (e.verbose /\ o.code # 0) THEN no("reasons printed", e.verbose)
     ELSE IF e.op = "validate" /\ o.also # o.code THEN no("exit status with and without reasons", o.also)
     ELSE IF e.op = "json" /\ o.code = 0 /\ o.json # Json(w) THEN no("JSON printed", Json(w))
     ELSE IF e.op = "markdown" /\ o.code = 0 /\ o.said # "#" THEN no("markdown printed", <<>>)
     ELSE IF e.op = "describe" /\ o.tables # Described(e.files, e.delim) THEN no("tables described", Described(e.files, e.delim))
     ELSE IF e.op = "describe" /\ o.asked # [files |-> [i \in DOMAIN e.args |-> e.args[i]], one |-> e.one, delim |-> e.delim]
          THEN no("what is asked of frictionless", e.args)
     ELSE [st |-> Adopt(r.w, o), bad |-> "", exp |-> <<>>]
=============================================================================
