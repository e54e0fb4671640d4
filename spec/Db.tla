--------------------------------- MODULE Db ----------------------------------
(* The relational database made of the tables of a group.                      *)
(*                                                                             *)
(* A value is [k, v]: k the kind of value (N: null, L: list), v a sequence of  *)
(* integers (code points of a string, number, components of a date, ...; the   *)
(* values of a list), so that values of one kind are ordered lexicographically *)
(* and the length of a text is the length of v.                                *)
(* A schema is [tables, dropself]; a table [name, cols, pk, fks]; a column     *)
(* [name, list, req, bounds, len, minlen, maxlen] with bounds a sequence of    *)
(* <<operator, value>>; a foreign key [cols, ref, rcols].  A row maps names of *)
(* columns to values; columns a row does not mention are null.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Null == [k |-> "N", v |-> <<>>]
IsNull(x) == x.k = "N"
IsList(x) == x.k = "L"
Range0(s) == {s[i] : i \in DOMAIN s}
Get(row, c) == IF c \in DOMAIN row THEN row[c] ELSE Null
TableNames(S) == {S.tables[t].name : t \in DOMAIN S.tables}
TableNo(S, name) == CHOOSE t \in DOMAIN S.tables : S.tables[t].name = name
Col(tb, c) == tb.cols[CHOOSE i \in DOMAIN tb.cols : tb.cols[i].name = c]
ColNames(tb) == {tb.cols[i].name : i \in DOMAIN tb.cols}

(* A foreign key of a single list-valued column relates each item of the list: *)
(* such relations live in tables of their own, created after both ends.        *)
ListFk(tb, fk) == Len(fk.cols) = 1 /\ Col(tb, fk.cols[1]).list
ListFkCols(tb) == {tb.fks[i].cols[1] : i \in {j \in DOMAIN tb.fks : ListFk(tb, tb.fks[j])}}
\* foreign keys to the table itself need the rows in suitable order: not enforced by default
Dropped(S, tb, fk) == ~ListFk(tb, fk) /\ fk.ref = tb.name /\ S.dropself

\* ---- order of creation ------------------------------------------------------
Deps(S, tb) == {tb.fks[i].ref : i \in {j \in DOMAIN tb.fks : ~ListFk(tb, tb.fks[j]) /\ tb.fks[j].ref # tb.name}}
AllRefs(S) == UNION {{S.tables[t].fks[i].ref : i \in DOMAIN S.tables[t].fks} : t \in DOMAIN S.tables}
RECURSIVE Closed(_, _)
\* the tables which can be created, given those in done
Closed(S, done) ==
  LET more == {S.tables[t].name : t \in {u \in DOMAIN S.tables : Deps(S, S.tables[u]) \subseteq done}}
  IN IF more \subseteq done THEN done ELSE Closed(S, done \cup more)
\* rows are related by the key which identifies them: tables with such relations need a simple one
Relatable(S) == \A t \in DOMAIN S.tables : \A i \in DOMAIN S.tables[t].fks :
                  ListFk(S.tables[t], S.tables[t].fks[i]) => Len(S.tables[t].pk) = 1
Creatable(S) == Relatable(S) /\ AllRefs(S) \subseteq TableNames(S) /\ Closed(S, {}) = TableNames(S)

\* ---- constraints -------------------------------------------------------------
RECURSIVE Less(_, _)
Less(a, b) == IF a = <<>> THEN b # <<>> ELSE IF b = <<>> THEN FALSE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
Within(x, bound) == CASE bound[1] = ">=" -> ~Less(x.v, bound[2])
                      [] bound[1] = ">" -> Less(bound[2], x.v)
                      [] bound[1] = "<=" -> ~Less(bound[2], x.v)
                      [] bound[1] = "<" -> Less(x.v, bound[2])
CellOk(col, x) ==
  /\ col.req => ~IsNull(x)
  /\ (IsNull(x) \/ IsList(x) \/ col.list) \/
       /\ \A i \in DOMAIN col.bounds : Within(x, col.bounds[i])
       /\ col.len # -1 => Len(x.v) = col.len
       /\ col.minlen # -1 => Len(x.v) >= col.minlen
       /\ col.maxlen # -1 => Len(x.v) <= col.maxlen
\* the columns which take part in the checks of cells: those of the table proper
RowOk(tb, row) == \A i \in DOMAIN tb.cols : tb.cols[i].name \in ListFkCols(tb) \/ CellOk(tb.cols[i], Get(row, tb.cols[i].name))
KeyOf(cols, row) == [i \in DOMAIN cols |-> Get(row, cols[i])]
HasNull(key) == \E i \in DOMAIN key : IsNull(key[i])
Unique(tb, rows) == tb.pk = <<>> \/ \A i \in DOMAIN rows : \A j \in 1..(i - 1) :
                      HasNull(KeyOf(tb.pk, rows[i])) \/ KeyOf(tb.pk, rows[i]) # KeyOf(tb.pk, rows[j])
\* columns other than the primary key which enforced foreign keys refer to are unique as well
Fks(tb) == {tb.fks[f] : f \in DOMAIN tb.fks}
RefKeys(S, tb) == UNION {{fk.rcols : fk \in {x \in Fks(S.tables[u]) : x.ref = tb.name /\ ~Dropped(S, S.tables[u], x)
                                                                  /\ Range0(x.rcols) # Range0(tb.pk)}} : u \in DOMAIN S.tables}
UniqueRefs(S, tb, rows) == \A key \in RefKeys(S, tb) : \A i \in DOMAIN rows : \A j \in 1..(i - 1) :
                             HasNull(KeyOf(key, rows[i])) \/ KeyOf(key, rows[i]) # KeyOf(key, rows[j])
Exists(target, cols, n, key) == \E i \in 1..n : KeyOf(cols, target[i]) = key
(* row number i of table t of the contents refers to rows which exist           *)
RefOk(S, content, t, i, fk) ==
  LET tb == S.tables[t]
      target == content[TableNo(S, fk.ref)]
      x == Get(content[t][i], fk.cols[1])
      key == KeyOf(fk.cols, content[t][i])
  IN IF Dropped(S, tb, fk) THEN TRUE
     ELSE IF ListFk(tb, fk) THEN \A k \in DOMAIN x.v : Exists(target, fk.rcols, Len(target), <<x.v[k]>>)
     ELSE HasNull(key) \/ Exists(target, fk.rcols, IF fk.ref = tb.name THEN i ELSE Len(target), key)
TableOk(S, content, t) ==
  LET tb == S.tables[t]
  IN /\ \A i \in DOMAIN content[t] : RowOk(tb, content[t][i])
     /\ Unique(tb, content[t])
     /\ UniqueRefs(S, tb, content[t])
     /\ \A i \in DOMAIN content[t] : \A f \in DOMAIN tb.fks : RefOk(S, content, t, i, tb.fks[f])
ContentOk(S, content) == \A t \in DOMAIN S.tables : TableOk(S, content, t)

\* ---- writing -------------------------------------------------------------------
Described(tb, row) == [c \in ColNames(tb) |-> Get(row, c)]
RowsFor(S, items, t) == IF S.tables[t].name \in DOMAIN items THEN items[S.tables[t].name] ELSE <<>>
Undescribed(S, items) == \E t \in DOMAIN S.tables : \E i \in DOMAIN RowsFor(S, items, t) :
                           ~(DOMAIN RowsFor(S, items, t)[i] \subseteq ColNames(S.tables[t]))
Added(S, content, items) ==
  [t \in DOMAIN S.tables |-> content[t] \o [i \in DOMAIN RowsFor(S, items, t) |-> Described(S.tables[t], RowsFor(S, items, t)[i])]]
EmptyContent(S) == [t \in DOMAIN S.tables |-> <<>>]
WriteOk(S, content, items, skip) == (skip \/ ~Undescribed(S, items)) /\ ContentOk(S, Added(S, content, items))

\* ---- reading -------------------------------------------------------------------
\* relations without items are not stored: null and the empty list become the same
ReadRow(tb, row) == [c \in ColNames(tb) |-> IF c \in ListFkCols(tb) /\ IsNull(row[c]) THEN [k |-> "L", v |-> <<>>] ELSE row[c]]
ReadTable(S, content, t) == [i \in DOMAIN content[t] |-> ReadRow(S.tables[t], content[t][i])]
SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[i]}) = Cardinality({j \in DOMAIN b : b[j] = a[i]})
\* ---- what a query finds ----------------------------------------------------------
SepOf(tb, c) == IF c \in ListFkCols(tb) THEN <<>> ELSE Col(tb, c).sep
\* the lists of texts of a column, split at the separator: a list without items, and none, is one empty text
SplitCell(x) == IF IsNull(x) \/ x.v = <<>> THEN [k |-> "L", v |-> <<[k |-> "s", v |-> <<>>]>>] ELSE x
SplitCol(rows, c) == [i \in DOMAIN rows |-> SplitCell(Get(rows[i], c))]
TextLists(tb) == {c \in ColNames(tb) : Col(tb, c).text /\ SepOf(tb, c) # <<>>}
=============================================================================
