------------------------------ MODULE Commands ------------------------------
(* The commands of the package, run one after the other in a directory.          *)
(*                                                                             *)
(* A world is                                                                  *)
(*   form   "group" (md.json describing a.csv and b.csv), "single" (a.csv with   *)
(*          a.csv-metadata.json) or "bare" (a.csv only)                         *)
(*   meta   "ok", "odd" (it has a property nobody knows), "bad" (no metadata)    *)
(*   props  the common properties of the metadata: a function to texts           *)
(*   a      the rows [id, n] of a.csv: id is a required integer, the primary key *)
(*   b      the rows [ref, v] of b.csv: ref refers to a.csv                      *)
(*   bthere whether there is a file b.csv                                       *)
(*   dbs    what is at each path of a database: <<>> nothing, <<"db", a, b>>     *)
(*          rows, <<"free">> left open                                          *)
(*   mds    what is at each path of datasette metadata: <<>> or <<props>>        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

DocNames == {"dc:title", "dc:description", "dc:license"}
Short(p) == CASE p = "dc:title" -> "title" [] p = "dc:description" -> "description" [] OTHER -> "license"

\* ---- what the data say --------------------------------------------------------
Numerals == {"1", "2", "3", "10"}
NumberOf(t) == CASE t = "1" -> 1 [] t = "2" -> 2 [] t = "3" -> 3 [] OTHER -> 10
Typed(w) == w.form # "bare"
Rng(s) == {s[i] : i \in DOMAIN s}
ReadableA(w) == Typed(w) => \A r \in Rng(w.a) : r.id \in Numerals
ReadableB(w) == w.form = "group" => w.bthere /\ \A r \in Rng(w.b) : r.ref \in Numerals \cup {""}
Readable(w) == ReadableA(w) /\ ReadableB(w)
KeysOk(w) == Typed(w) => \A i, j \in DOMAIN w.a : w.a[i].id = w.a[j].id => i = j
RefsOk(w) == w.form = "group" => \A r \in Rng(w.b) : r.ref # "" => r.ref \in {x.id : x \in Rng(w.a)}
NoNulls(w) == w.form = "group" => \A r \in Rng(w.b) : r.ref # ""
Loads(w) == w.meta # "bad"
Valid(w) == w.meta = "ok" /\ Readable(w) /\ KeysOk(w) /\ RefsOk(w) /\ NoNulls(w)
Storable(w) == Loads(w) /\ Readable(w) /\ KeysOk(w) /\ RefsOk(w)

\* ---- what is made of them -----------------------------------------------------
Text(t) == IF t = "" THEN <<>> ELSE <<t>>
Number(t) == IF t = "" THEN <<>> ELSE <<NumberOf(t)>>
Stored(w) == <<"db", [i \in DOMAIN w.a |-> <<Number(w.a[i].id), Text(w.a[i].n)>>],
               IF w.form = "group" THEN [i \in DOMAIN w.b |-> <<Number(w.b[i].ref), Text(w.b[i].v)>>] ELSE <<>> >>
Doc(props) == [k \in {Short(p) : p \in DOMAIN props} |-> props[CHOOSE p \in DOMAIN props : Short(p) = k]]

\* cells in JSON are <<name, type, text>>
CellJson(w, name, t, isnum) ==
  IF t = "" THEN <<>>
  ELSE IF Typed(w) /\ isnum /\ t \in Numerals THEN << <<name, "number", t>> >> ELSE << <<name, "text", t>> >>
RowJson(file, i, cells) == [url |-> file, source |-> i + 1, num |-> i, cells |-> cells]
TableA(w) == [url |-> "a.csv", rows |-> [i \in DOMAIN w.a |->
                RowJson("a.csv", i, CellJson(w, "id", w.a[i].id, TRUE) \o CellJson(w, "n", w.a[i].n, FALSE))]]
TableB(w) == [url |-> "b.csv", rows |-> [i \in DOMAIN w.b |->
                RowJson("b.csv", i, CellJson(w, "ref", w.b[i].ref, TRUE) \o CellJson(w, "v", w.b[i].v, FALSE))]]
Json(w) == [props |-> w.props, tables |-> IF w.form = "group" THEN <<TableA(w), TableB(w)>> ELSE <<TableA(w)>>]

\* ---- the commands ---------------------------------------------------------------
\* Each gives the worlds and the results that may follow: [w, code (a set), ...].
Fail == {1, 2, 3}   \* 3: ends with an exception
Res(w, codes) == [w |-> w, codes |-> codes]

Validate(w) == Res(w, IF Valid(w) THEN {0} ELSE Fail)
Convert(w) == Res(w, IF Loads(w) /\ (w.form = "group" => w.bthere) THEN {0} ELSE Fail)
\* a new database replaces what is there
ToSqlite(w, path) ==
  IF Storable(w) THEN Res([w EXCEPT !.dbs[path] = Stored(w)], {0})
  ELSE IF Loads(w) /\ Readable(w) THEN Res([w EXCEPT !.dbs[path] = <<"free">>], Fail)
  ELSE Res(w, Fail)
\* nothing is replaced
ToDatasette(w, path, mpath) ==
  IF w.dbs[path] # <<>> THEN Res(w, Fail)
  ELSE IF Storable(w) THEN Res([w EXCEPT !.dbs[path] = Stored(w), !.mds[mpath] = <<Doc(w.props)>>], {0})
  ELSE IF Loads(w) /\ Readable(w) THEN Res([w EXCEPT !.dbs[path] = <<"free">>], Fail)
  ELSE Res(w, Fail)
Describable(w) == Loads(w)

\* Describing files: frictionless is asked to describe them, as one table if there is
\* one and no pattern, and what it says becomes a table group
Described(files, delim) ==
  [i \in DOMAIN files |-> [url |-> files[i].name, cols |-> files[i].cols, delim |-> IF delim = <<",">> THEN <<>> ELSE delim]]
=============================================================================
