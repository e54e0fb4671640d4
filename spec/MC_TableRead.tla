---------------------------- MODULE MC_TableRead -----------------------------
(* Reading a table row by row: strictly (an invalid row stops it), with a log   *)
(* (invalid rows are reported and left out) or leniently.  The steps follow the *)
(* implementation; the big-step operator TableRead must agree with them.        *)
EXTENDS Table, TLC, Json
CONSTANTS MaxRows, Emit
VARIABLES mode, sch, rows, pos, out, logs, pc
vars == <<mode, sch, rows, pos, out, logs, pc>>

NoL == [null |-> <<>>, default |-> <<>>, required |-> <<>>, separator |-> <<>>, datatype |-> <<>>]
Dt(b) == [base |-> b, f |-> [k |-> "none"], length |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>, bounds |-> <<>>]
Col(n, l) == [name |-> <<n>>, titles |-> <<>>, purl |-> <<>>, virtual |-> FALSE, vurl |-> <<>>, lv |-> l]
IntReq == [NoL EXCEPT !.required = <<TRUE>>, !.datatype = <<Dt("integer")>>]
IntList == [NoL EXCEPT !.separator = <<C("|")>>, !.datatype = <<Dt("integer")>>]
Dia == [csvw |-> TRUE, delim |-> 44, quote |-> 34, dbl |-> TRUE, comment |-> <<35>>, skipRows |-> 0, skipCols |-> 0, skipBlank |-> FALSE,
        skipsp |-> FALSE, trim |-> "false", header |-> TRUE, lt |-> <<10>>, u8 |-> TRUE]
Schemas == << <<Col(C("a"), IntReq), Col(C("b"), IntList)>>, <<Col(C("b"), IntList), Col(C("a"), IntReq)>>,
              <<Col(C("b"), [IntReq EXCEPT !.required = <<>>])>> >>
Md == [cols |-> Schemas[sch], levels |-> <<NoL, NoL, NoL>>, d |-> Dia, pk |-> <<>>]
ACells == {C("1"), C("x"), <<>>}
BCells == {C("2|3"), C("2|x"), <<>>}
CellsOf(i) == IF sch = 3 THEN ACells ELSE IF (sch = 1) = (i = 1) THEN ACells ELSE BCells
\* complete rows, rows which are too short or too long
RowsFor == LET n == Len(Schemas[sch]) IN
  {r \in UNION {[1..m -> ACells \cup BCells] : m \in 1..(n + 1)} : \A i \in DOMAIN r : IF i <= n THEN r[i] \in CellsOf(i) ELSE r[i] = C("1")}
  \ {<< <<>> >>}
Init == /\ mode \in {"strict", "log", "lenient"}
        /\ sch \in DOMAIN Schemas
        /\ rows = <<>> /\ pos = 1 /\ out = <<>> /\ logs = <<>> /\ pc = "read"
Hd == ColNames(Md)
Mp == Mapping(Md, Hd, mode = "lenient")
NextRow(r) ==
  /\ pc = "read" /\ pos <= MaxRows
  /\ rows' = Append(rows, r)
  /\ pos' = pos + 1
  /\ LET x == RowOf(Md, Mp, r, mode = "lenient")
         n == pos + 1
     IN CASE x.bad = <<>> \/ mode = "lenient" -> out' = Append(out, [n |-> n, row |-> x.row]) /\ UNCHANGED <<logs, pc>>
          [] mode = "log" -> logs' = logs \o [i \in DOMAIN x.bad |-> <<n, x.bad[i]>>] /\ UNCHANGED <<out, pc>>
          [] OTHER -> pc' = "err" /\ UNCHANGED <<out, logs>>
  /\ UNCHANGED <<mode, sch>>
End == pc = "read" /\ pc' = "done" /\ UNCHANGED <<mode, sch, rows, pos, out, logs>>
Show == (Emit /\ pc' # "read") => PrintT(<<"GEN", ToJson([cols |-> Schemas[sch], rows |-> rows', mode |-> mode])>>)
Next == (End \/ \E r \in RowsFor : NextRow(r)) /\ Show
Spec == Init /\ [][Next]_vars

Text == WriteRows(Dia, <<Hd>> \o rows).text
BigStep == pc # "read" => LET r == TableRead(Md, Text, mode) IN r.rows = out /\ r.logs = logs /\ r.end = pc
\* the modes agree
Modes == pc = "done" =>
  LET s == TableRead(Md, Text, "strict")
      l == TableRead(Md, Text, "log")
      w == TableRead(Md, Text, "lenient")
  IN /\ s.end = "done" <=> l.logs = <<>>
     /\ IsPrefix(s.rows, l.rows)
     /\ \A i \in DOMAIN s.rows : s.rows[i].n = i + 1
     /\ Len(w.rows) = Len(rows)
     /\ s.end = "err" => s.at = l.logs[1]
     /\ \A i \in DOMAIN l.rows : \E j \in DOMAIN w.rows : w.rows[j] = l.rows[i]
     /\ \A i \in DOMAIN l.logs : ~\E j \in DOMAIN l.rows : l.rows[j].n = l.logs[i][1]
=============================================================================
