------------------------------- MODULE MC_Keys --------------------------------
(* Checking keys and references the way it is done: collect the keys of the     *)
(* referenced table one row after the other, then go through the referring      *)
(* rows.  The verdict must be the declarative one of module Table.              *)
EXTENDS Table, TLC, Json
CONSTANTS MaxRows, Emit
VARIABLES ra, rb, kind, parent, child, strict, log, pc, pos, seen, dups, nulls, dangling
vars == <<ra, rb, kind, parent, child, strict, log, pc, pos, seen, dups, nulls, dangling>>

NoL == [null |-> <<>>, default |-> <<>>, required |-> <<>>, separator |-> <<>>, datatype |-> <<>>]
Dt(b) == [base |-> b, f |-> [k |-> "none"], length |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>, bounds |-> <<>>]
Col(n, l) == [name |-> <<n>>, titles |-> <<>>, purl |-> <<>>, virtual |-> FALSE, vurl |-> <<>>, lv |-> l]
Whole == [NoL EXCEPT !.datatype = <<Dt("integer")>>]
Dia == [csvw |-> TRUE, delim |-> 44, quote |-> 34, dbl |-> TRUE, comment |-> <<35>>, skipRows |-> 0, skipCols |-> 0, skipBlank |-> FALSE,
        skipsp |-> FALSE, trim |-> "false", header |-> TRUE, lt |-> <<10>>, u8 |-> TRUE]
Base(cs) == [cols |-> cs, levels |-> <<NoL, NoL, NoL>>, d |-> Dia, pk |-> <<C("k")>>]
\* one column; lists of references; two columns
Kinds == <<"one", "list", "two">>
PMd == Base(IF kind = "two" THEN <<Col(C("k"), Whole), Col(C("m"), NoL)>> ELSE <<Col(C("k"), Whole), Col(C("z"), NoL)>>)
CMd == Base(CASE kind = "one" -> <<Col(C("k"), NoL), Col(C("f"), Whole)>>
              [] kind = "list" -> <<Col(C("k"), NoL), Col(C("f"), [Whole EXCEPT !.separator = <<C("|")>>])>>
              [] OTHER -> <<Col(C("g"), NoL), Col(C("f"), Whole)>>)
Fk == IF kind = "two" THEN [t |-> 2, cols |-> <<C("f"), C("g")>>, rt |-> 1, rcols |-> <<C("k"), C("m")>>]
      ELSE [t |-> 2, cols |-> <<C("f")>>, rt |-> 1, rcols |-> <<C("k")>>]
PRows == IF kind = "two" THEN {<<C("1"), C("a")>>, <<C("01"), C("b")>>, <<C("2"), C("a")>>}
         ELSE {<<C("1"), C("y")>>, <<C("01"), C("y")>>, <<C("2"), C("y")>>, <<C("x"), C("y")>>}
CRows == CASE kind = "one" -> {<<C("q"), f>> : f \in {C("1"), C("2"), <<>>, C("x")}}
           [] kind = "list" -> {<<C("q"), f>> : f \in {C("1"), C("1|2"), C("2|01"), <<>>, C("1|x")}}
           [] OTHER -> {<<g, f>> : g \in {C("a"), <<>>}, f \in {C("1"), C("2"), <<>>}}
Seqs(s) == UNION {[1..n -> s] : n \in 0..MaxRows}
Md == <<PMd, CMd>>
Text(t) == WriteRows(Dia, <<ColNames(Md[t])>> \o (IF t = 1 THEN parent ELSE child)).text
Texts == <<Text(1), Text(2)>>
Rd(t) == IF t = 1 THEN ra ELSE rb

Init == /\ kind \in TRange(Kinds) /\ strict \in BOOLEAN /\ log \in BOOLEAN
        /\ parent \in Seqs(PRows) /\ child = <<>>
        /\ ra = <<>> /\ rb = <<>> /\ pc = "start" /\ pos = 1 /\ seen = {} /\ dups = <<>> /\ nulls = 0 /\ dangling = <<>>
Stay == UNCHANGED <<kind, parent, strict, log>>
Fill == /\ pc = "start"
        /\ child' \in Seqs(CRows)
        /\ pc' = "keys"
        /\ ra' = TableRead(PMd, Text(1), "log")
        /\ rb' = TableRead(CMd, WriteRows(Dia, <<ColNames(CMd)>> \o child').text, "log")
        /\ (Emit /\ strict /\ log) => PrintT(<<"GEN", ToJson([kind |-> kind, parent |-> parent, child |-> child', mds |-> Md, fk |-> Fk])>>)
        /\ UNCHANGED <<pos, seen, dups, nulls, dangling>> /\ Stay
Key == /\ pc = "keys"
       /\ LET r == Rd(1)
          IN IF r.logs # <<>> /\ ~log THEN pc' = "err" /\ UNCHANGED <<pos, seen, dups>>
             ELSE IF pos > Len(r.rows) THEN pc' = "refs" /\ pos' = 1 /\ UNCHANGED <<seen, dups>>
             ELSE LET k == KeyOf(r.rows[pos].row, Fk.rcols)
                  IN seen' = seen \cup {k} /\ dups' = (IF k \in seen THEN Append(dups, pos) ELSE dups) /\ pos' = pos + 1 /\ pc' = pc
       /\ UNCHANGED <<ra, rb, child, nulls, dangling>> /\ Stay
Ref == /\ pc = "refs"
       /\ LET r == Rd(2)
          IN IF r.logs # <<>> /\ ~log THEN pc' = "err" /\ UNCHANGED <<pos, nulls, dangling>>
             ELSE IF pos > Len(r.rows) THEN pc' = "done" /\ UNCHANGED <<pos, nulls, dangling>>
             ELSE LET row == r.rows[pos].row
                      isnull == NullRef(row, Fk)
                      bad == SelectSeq(Refs(row, Fk), LAMBDA k : k \notin seen)
                  IN /\ nulls' = IF isnull THEN nulls + 1 ELSE nulls
                     /\ IF (bad # <<>> \/ (isnull /\ strict)) /\ ~log THEN pc' = "err" /\ UNCHANGED <<pos, dangling>>
                        ELSE pc' = pc /\ pos' = pos + 1 /\ dangling' = dangling \o [i \in DOMAIN bad |-> <<2, r.rows[pos].n>>]
       /\ UNCHANGED <<ra, rb, child, seen, dups>> /\ Stay
Next == Fill \/ Key \/ Ref
Spec == Init /\ [][Next]_vars

BigStep == pc \in {"done", "err"} =>
  LET v == Integrity(Md, <<Fk>>, Texts, strict, log)
  IN /\ v.k = (IF pc = "done" THEN "ok" ELSE "err")
     /\ v.k = "ok" => v.logs = dangling /\ v.v = (dangling = <<>> /\ (strict => nulls = 0 /\ dups = <<>>))
\* what the verdict means: every reference is the key of some row
Meaning == (pc = "done" /\ ~strict) =>
  LET rp == RowsRead(Rd(1))  rc == RowsRead(Rd(2))
  IN (dangling = <<>>) <=> \A i \in DOMAIN rc : \A j \in DOMAIN Refs(rc[i], Fk) : \E p \in DOMAIN rp : KeyOf(rp[p], Fk.rcols) = Refs(rc[i], Fk)[j]
\* more keys never break a reference; the order of the rows does not matter
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Monotone == (pc = "done" /\ ~strict /\ log /\ (Emit => Len(parent) < 2)) =>
  \A extra \in {r \in PRows : r[1] # C("x")} :
    LET t2 == WriteRows(Dia, <<ColNames(PMd)>> \o <<extra>> \o Rev(parent)).text
        v == Integrity(Md, <<Fk>>, <<t2, Texts[2]>>, FALSE, TRUE)
    IN Len(v.logs) <= Len(dangling)
\* a primary key is unique iff no two rows have equal values (not equal texts)
Unique == pc = "done" =>
  LET rp == RowsRead(Rd(1))
  IN PrimaryKey(PMd, Texts[1], TRUE).v <=> \A i, j \in DOMAIN rp : i # j => GetKV(rp[i], C("k")) # GetKV(rp[j], C("k"))
Strictness == (pc = "done" /\ strict /\ ~log /\ nulls = 0 /\ dups = <<>>) =>
  Integrity(Md, <<Fk>>, Texts, FALSE, FALSE).v
Inv == BigStep /\ Meaning /\ Monotone /\ Unique /\ Strictness
=============================================================================
