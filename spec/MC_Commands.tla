----------------------------- MODULE MC_Commands -----------------------------
(* All histories of a few commands and edits of the data in one directory.      *)
EXTENDS Commands, Json
CONSTANTS MaxOps, Emit
VARIABLES w, hist, seen, first
vars == <<w, hist, seen, first>>

R(i, n) == [id |-> i, n |-> n]
Q(r, v) == [ref |-> r, v |-> v]
As == { <<>>, <<R("1", "x")>>, <<R("1", ""), R("2", "y")>>, <<R("1", "x"), R("1", "y")>>, <<R("x", "x")>>, <<R("", "x")>> }
Bs == { <<>>, <<Q("1", "u")>>, <<Q("2", "u")>>, <<Q("", "u")>>, <<Q("x", "u")>> }
Paths == {"a.sqlite", "out/datasette.db"}
Worlds == { v \in [form : {"group", "single"}, meta : {"ok", "odd", "bad"}, props : { <<>>, [p \in {"dc:title"} |-> "T"] }, a : As, b : Bs, bthere : BOOLEAN] :
              /\ v.form = "single" => v.b = <<>> /\ v.bthere
              /\ ~v.bthere => v.b = <<>>
              /\ v.meta # "ok" => v.a \in {<<R("1", "x")>>, <<R("x", "x")>>} /\ v.b = <<>> /\ v.props = <<>> }
New(v) == [form |-> v.form, meta |-> v.meta, props |-> v.props, a |-> v.a, b |-> v.b, bthere |-> v.bthere,
           dbs |-> [p \in Paths |-> <<>>], mds |-> [p \in {"out/datasette-metadata.json"} |-> <<>>]]
Init == w \in {New(v) : v \in Worlds} /\ hist = <<>> /\ seen = {} /\ first = w
Did(op, r) == /\ w' = r.w /\ hist' = Append(hist, op) /\ UNCHANGED first
              /\ seen' = seen \cup {r.w.dbs[p] : p \in {q \in Paths : r.w.dbs[q] # w.dbs[q]}}
Edits == { [a |-> <<R("3", "z")>>, b |-> <<>>], [a |-> <<R("1", "x"), R("2", "x")>>, b |-> IF w.form = "group" THEN <<Q("2", "n"), Q("1", "m")>> ELSE <<>>] }
Next == /\ Len(hist) < MaxOps
        /\ \/ Did([op |-> "validate", verbose |-> TRUE], Validate(w))
           \/ Did([op |-> "validate", verbose |-> FALSE], Validate(w))
           \/ Did([op |-> "json"], Convert(w))
           \/ w.form = "group" /\ \E p \in Paths : Did([op |-> "sqlite", path |-> p], ToSqlite(w, p))
           \/ Did([op |-> "datasette", path |-> "out/datasette.db", mpath |-> "out/datasette-metadata.json"],
                  ToDatasette(w, "out/datasette.db", "out/datasette-metadata.json"))
           \/ \E x \in Edits : w.bthere /\ Did([op |-> "edit", a |-> x.a, b |-> x.b, bthere |-> TRUE, meta |-> w.meta, props |-> w.props],
                                  Res([w EXCEPT !.a = x.a, !.b = x.b], {0}))
Last == hist[Len(hist)]
\* what is valid can be stored, what can be stored can be converted
Ordered == (Valid(w) => Storable(w)) /\ (Storable(w) => 0 \in Convert(w).codes)
\* each database is the image of the data at some time
Faithful == \A p \in Paths : w.dbs[p] \in {<<>>} \cup seen
\* datasette's metadata are there only along with a database
Together == w.mds["out/datasette-metadata.json"] # <<>> => w.dbs["out/datasette.db"] # <<>>
\* commands that only look change nothing; a database from datasette is replaced by csvw2sqlite only
Looking == [][hist'[Len(hist')].op \in {"validate", "json"} => w' = w]_vars
Kept == [][hist'[Len(hist')].op # "sqlite" => \A p \in Paths : w.dbs[p] # <<>> => w'.dbs[p] = w.dbs[p]]_vars
Out == Emit /\ Len(hist) = MaxOps
Report == Out => PrintT(<<"GEN", ToJson([first |-> first, hist |-> hist])>>)
=============================================================================
