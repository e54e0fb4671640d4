------------------------------ MODULE MC_DbWrite -------------------------------
(* Rows are inserted one by one, table after table, targets of foreign keys     *)
(* first, each insertion being checked against what is there; relations of      *)
(* lists come last.  Either everything is inserted or nothing remains.          *)
(* This accepts exactly the data which satisfies the constraints as a whole.    *)
EXTENDS Db, Json
CONSTANTS MaxRows, Emit
VARIABLES mode, items, old, at, db, rel, phase
vars == <<mode, items, old, at, db, rel, phase>>
i1(n) == [k |-> "i", v |-> <<0, n>>]
l1(s) == [k |-> "L", v |-> [j \in DOMAIN s |-> i1(s[j])]]
CCol(name, list, req) == [name |-> name, list |-> list, req |-> req, bounds |-> IF name = "id" THEN << <<"<=", <<0, 2>> >> >> ELSE <<>>, len |-> -1, minlen |-> -1, maxlen |-> -1]
(* p: the target; c refers to p by a value (the key of p) and by a list (of n),   *)
(* and to itself                                                               *)
S == [dropself |-> mode = "drop",
      tables |-> <<
        [name |-> "c", cols |-> <<CCol("id", FALSE, FALSE), CCol("p", FALSE, mode = "req"), CCol("ps", TRUE, FALSE), CCol("c", FALSE, FALSE)>>, pk |-> <<"id">>,
         fks |-> <<[cols |-> <<"p">>, ref |-> "p", rcols |-> <<"id">>], [cols |-> <<"ps">>, ref |-> "p", rcols |-> <<"n">>],
                   [cols |-> <<"c">>, ref |-> "c", rcols |-> <<"id">>]>>],
        [name |-> "p", cols |-> <<CCol("id", FALSE, FALSE), CCol("n", FALSE, FALSE)>>, pk |-> <<"id">>, fks |-> <<>>] >>]
Order == <<2, 1>>   \* p, then c
SeqsUpTo(X, n) == UNION {[1..m -> X] : m \in 0..n}
PRows == [id : {i1(1), i1(2), i1(3)}, n : {Null, i1(1)}] \cup [id : {i1(1), i1(2)}, n : {i1(2)}]
Pairs == {<<[id |-> i1(1), n |-> x], [id |-> i1(2), n |-> y]>> : x \in {Null, i1(2)}, y \in {Null, i1(1), i1(2)}}
CRows == [id : {i1(1), i1(2)}, p : {Null, i1(1)}, ps : {Null, l1(<<1>>), l1(<<2, 1>>)}, c : {Null, i1(1), i1(2)}]
None == [c |-> <<>>, p |-> <<>>]
Init == /\ mode \in {"drop", "req", "enforce"}
        /\ items = None /\ old = None /\ at = <<1, 1>> /\ db = EmptyContent(S) /\ rel = <<>> /\ phase = "choose"
Choose == /\ phase = "choose"
          /\ \E ps \in SeqsUpTo(PRows, MaxRows) \cup Pairs : \E cs \in SeqsUpTo(CRows, 2) :
               items' = [c |-> cs, p |-> ps]
          /\ phase' = "insert"
          /\ UNCHANGED <<mode, old, at, db, rel>>
Sorted == [t \in DOMAIN S.tables |-> RowsFor(S, items, t)]
\* what can be checked when one row is inserted
InsertOk(t, row) ==
  LET tb == S.tables[t]
      now == [db EXCEPT ![t] = Append(@, row)]
      n == Len(now[t])
  IN /\ RowOk(tb, row)
     /\ \A j \in 1..(n - 1) : KeyOf(tb.pk, db[t][j]) # KeyOf(tb.pk, row)
     /\ \A key \in RefKeys(S, tb) : \A j \in 1..(n - 1) : HasNull(KeyOf(key, row)) \/ KeyOf(key, db[t][j]) # KeyOf(key, row)
     /\ \A f \in DOMAIN tb.fks : ListFk(tb, tb.fks[f]) \/ RefOk(S, now, t, n, tb.fks[f])
Insert ==
  /\ phase = "insert"
  /\ IF at[1] > Len(Order) THEN phase' = "relate" /\ UNCHANGED <<at, db, rel>>
     ELSE LET t == Order[at[1]] IN
          IF at[2] > Len(Sorted[t]) THEN at' = <<at[1] + 1, 1>> /\ UNCHANGED <<db, rel, phase>>
          ELSE LET row == Described(S.tables[t], Sorted[t][at[2]]) IN
               IF InsertOk(t, row)
               THEN /\ db' = [db EXCEPT ![t] = Append(@, row)]
                    /\ rel' = IF t = 1 /\ row.ps.v # <<>> THEN rel \o [j \in DOMAIN row.ps.v |-> <<row.id, row.ps.v[j]>>] ELSE rel
                    /\ at' = <<at[1], at[2] + 1>> /\ UNCHANGED phase
               ELSE phase' = "failed" /\ db' = EmptyContent(S) /\ rel' = <<>> /\ UNCHANGED at
  /\ UNCHANGED <<mode, items, old>>
Relate ==
  /\ phase = "relate"
  /\ IF \A j \in DOMAIN rel : \E i \in DOMAIN db[2] : db[2][i].n = rel[j][2]
     THEN phase' = "done" /\ UNCHANGED <<db, rel>>
     ELSE phase' = "failed" /\ db' = EmptyContent(S) /\ rel' = <<>>
  /\ UNCHANGED <<mode, items, old, at>>
Gen == /\ phase = "insert" /\ at = <<1, 1>> /\ Emit
       /\ PrintT(<<"GEN", ToJson([mode |-> mode, c |-> items.c, p |-> items.p])>>)
       /\ phase' = "insert" /\ UNCHANGED <<mode, items, old, at, db, rel>>
Next == Choose \/ Insert \/ Relate \/ Gen
Atomic == phase = "failed" => db = EmptyContent(S) /\ rel = <<>>
Exact == phase \in {"done", "failed"} => (phase = "done") = WriteOk(S, EmptyContent(S), items, FALSE)
\* the lists are recovered from the relation
ItemsOf(id) == LET x == SelectSeq(rel, LAMBDA r : r[1] = id) IN [j \in DOMAIN x |-> x[j][2]]
Recovered == phase = "done" =>
  \A i \in DOMAIN db[1] : ReadTable(S, db, 1)[i].ps = [k |-> "L", v |-> ItemsOf(db[1][i].id)]
=============================================================================
