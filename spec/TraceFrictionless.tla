-------------------------- MODULE TraceFrictionless --------------------------
(* Recorded conversions of data packages and uses of the resulting groups.     *)
EXTENDS Frictionless, TraceTable

\* a session starts with a package and the text of every table
FlInit(sess) ==
  LET pkg == sess.ini.pkg
  IN [pkg |-> pkg, ok |-> FlOk(pkg), mds |-> FlMds(pkg), fks |-> FlFks(pkg), files |-> sess.ini.files]
ConvertStep(stt, e) ==
  LET pkg == stt.pkg
      ts == FlTables(pkg)
      cols(t) == [i \in DOMAIN ts[t].fields |->
                    LET f == ts[t].fields[i]
                    IN [name |-> f.name, titles |-> f.title, descr |-> f.descr, purl |-> f.rdf, fmt |-> FlFormat(f), base |-> FlBase(f)]]
      exp == [t \in DOMAIN ts |-> [url |-> ts[t].path[1], cols |-> cols(t)]]
  IN IF ~stt.ok THEN IF e.out.k # "err" THEN Nay(stt, "contradictory constraints accepted", <<>>) ELSE Yes(stt)
     ELSE IF e.out.k # "ok" THEN Nay(stt, "package not converted", exp)
     ELSE IF ~e.out.same THEN Nay(stt, "package altered or not kept", <<>>)
     ELSE IF TRange(e.out.props) # FlProps(pkg) THEN Nay(stt, "annotations of the group", FlProps(pkg))
     ELSE IF e.out.tabs # exp THEN Nay(stt, "tables and columns", exp)
     ELSE Yes(stt)
FlStep(stt, e) == IF e.op \in {"convert", "store"} THEN ConvertStep(stt, e) ELSE TableStep(stt, e)
=============================================================================
