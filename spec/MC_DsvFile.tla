----------------------------- MODULE MC_DsvFile ------------------------------
(* Rewriting a file in place, step by step as the implementation does it: a   *)
(* second file is written row by row and only then takes the place of the     *)
(* first.  The visitor may raise, the text may turn out malformed, a row may  *)
(* turn out unwritable, and the process may stop at any point.                *)
EXTENDS DsvFile, TLC, Json
CONSTANTS MaxRows, Emit
VARIABLES dia, old, file, tmp, pc, i, verdicts
vars == <<dia, old, file, tmp, pc, i, verdicts>>

Cellset == {<<>>, <<97>>, <<98, 44>>, <<35>>, <<10>>}
RowSet == {<<c>> : c \in Cellset} \cup {<<<<97>>, c>> : c \in Cellset} \cup {<<>>}
Dialects == {PlainDialect, CsvwDialect, [CsvwDialect EXCEPT !.skipBlank = TRUE, !.skipRows = 1],
             [CsvwDialect EXCEPT !.trim = "true", !.skipCols = 1]}
Texts == {WriteRows(PlainDialect, rs).text : rs \in UNION {[1..m -> RowSet] : m \in 0..MaxRows}}
         \cup {<<97, 10, 34, 98, 34, 99, 10>>, <<97, 10, 34>>}

In == ReadText(dia, FileText([u8 |-> TRUE], old))
InRows == RowsOf(In)

Init == /\ dia \in Dialects /\ old \in Texts /\ file = old
        /\ tmp = <<>> /\ pc = "visit" /\ i = 1 /\ verdicts = <<>>
Verdict == {<<"keep">>, <<"drop">>, <<"raise">>, <<"set", << <<120>>, <<121, 34>> >> >>}
Visit(v) == /\ pc = "visit" /\ i <= Len(InRows)
            /\ verdicts' = Append(verdicts, v)
            /\ i' = i + 1
            /\ LET out == IF v[1] = "drop" THEN <<>> ELSE IF v[1] = "set" THEN <<v[2]>> ELSE <<InRows[i]>>
                   w == WriteRows(dia, out)
               IN IF v[1] = "raise" THEN pc' = "failed" /\ tmp' = tmp
                  ELSE IF ~w.ok THEN pc' = "failed" /\ tmp' = tmp
                  ELSE pc' = "visit" /\ tmp' = tmp \o w.text
            /\ UNCHANGED <<dia, old, file>>
EndOfData == /\ pc = "visit" /\ i > Len(InRows)
             /\ pc' = IF In.err THEN "failed" ELSE "written"
             /\ UNCHANGED <<dia, old, file, tmp, i, verdicts>>
Swap == /\ pc = "written" /\ file' = tmp /\ pc' = "done"
           /\ UNCHANGED <<dia, old, tmp, i, verdicts>>
Crash == /\ pc \in {"visit", "written"} /\ pc' = "crashed"
         /\ UNCHANGED <<dia, old, file, tmp, i, verdicts>>
Show == (pc' \in {"done", "failed"} /\ Emit) =>
           PrintT(<<"GEN", ToJson([d |-> dia, text |-> old, verdicts |-> verdicts'])>>)
Next == ((\E v \in Verdict : Visit(v)) \/ EndOfData \/ Swap \/ Crash) /\ Show
Spec == Init /\ [][Next]_vars

AllOrNothing == file = old \/ (pc = "done" /\ file = tmp)
FailureKeepsFile == pc \in {"failed", "crashed"} => file = old
\* the big-step operator used to judge the implementation agrees with the steps
BigStep == LET r == RewriteResult([dia EXCEPT !.header = TRUE] @@ [u8 |-> TRUE], old, verdicts) IN
           /\ pc = "done" => ~r.fail /\ r.text = file
           /\ pc = "failed" => r.fail /\ r.text = old
           /\ pc \in {"failed", "done"} => Len(r.seen) = i - 1
\* an untouched table is reproduced row for row
Identity == (pc = "done" /\ \A j \in DOMAIN verdicts : verdicts[j] = <<"keep">>) /\ dia = PlainDialect
            => RowsOf(ReadText(dia, file)) = InRows
=============================================================================
