----------------------------- MODULE MC_DsvRead ------------------------------
(* An arbitrary text grows character by character; what is read from it.      *)
EXTENDS Dsv, TLC, Json
CONSTANTS MaxLen, Emit, Small
VARIABLES dia, text, got
vars == <<dia, text, got>>

Alphabet == {97, 44, 34, 10, 13, 32, 35}
Dialects ==
  LET base == CsvwDialect IN
  {base, PlainDialect,
   [base EXCEPT !.skipRows = 1], [base EXCEPT !.skipRows = 2, !.comment = <<>>],
   [base EXCEPT !.skipBlank = TRUE, !.trim = "true"],
   [base EXCEPT !.skipCols = 1, !.trim = "end"],
   [base EXCEPT !.skipsp = TRUE, !.trim = "start"],
   [base EXCEPT !.quote = NoChar]}
  \cup IF Small THEN {} ELSE
  {[base EXCEPT !.dbl = FALSE, !.skipCols = 2],
   [base EXCEPT !.skipRows = 1, !.skipBlank = TRUE, !.skipCols = 1, !.trim = "true"]}

Init == dia \in Dialects /\ text = <<>> /\ got = ReadText(dia, <<>>)
Grow(c) == /\ Len(text) < MaxLen
           /\ text' = Append(text, c)
           /\ got' = ReadText(dia, text')
           /\ (Emit => PrintT(<<"GEN", ToJson([d |-> dia, text |-> text'])>>))
           /\ UNCHANGED dia
Next == \E c \in Alphabet : Grow(c)
Spec == Init /\ [][Next]_vars

\* declarative reading: which records of the text are rows, and what is in them
Recs == Records(dia, Lines(text)).recs
Kept == SelectSeq(Iota(Len(Recs)),
          LAMBDA i : LET row == Recs[i].row IN
            /\ (dia.csvw => i > dia.skipRows)
            /\ ~(dia.csvw /\ dia.comment # <<>> /\ row # <<>> /\ row[1] # <<>> /\ row[1][1] = 35)
            /\ ~(dia.csvw /\ dia.skipBlank /\ CatAll(row) = <<>>))
Selection == /\ Len(got.rows) = Len(Kept)
             /\ \A i \in DOMAIN Kept :
                  LET raw == Recs[Kept[i]].row
                      cut == IF dia.csvw THEN dia.skipCols ELSE 0 IN
                  /\ got.rows[i].n = Recs[Kept[i]].line
                  /\ Len(got.rows[i].row) = MaxI(0, Len(raw) - cut)
                  /\ \A j \in DOMAIN got.rows[i].row :
                       Strip(got.rows[i].row[j]) = Strip(raw[j + cut])
Trimmed == \A i \in DOMAIN got.rows : \A j \in DOMAIN got.rows[i].row :
             LET v == got.rows[i].row[j] IN
             dia.csvw /\ v # <<>> =>
               /\ dia.trim \in {"true", "start"} => ~IsSpace(v[1])
               /\ dia.trim \in {"true", "end"} => ~IsSpace(v[Len(v)])
\* every record is a row, a comment, a skipped row or a blank: nothing is lost twice or kept twice
Partition == ~dia.csvw \/ Len(Recs) =
   Len(got.rows) + Cardinality({i \in DOMAIN Recs : ~Selected(dia, Recs[i].row, i - 1)})
NumbersIncrease == \A i \in 1..(Len(got.rows) - 1) : got.rows[i].n < got.rows[i + 1].n
\* rows completed by a line break are never revised by later text
Stable == (dia.csvw /\ text # <<>> /\ text[Len(text)] = LF /\ ~got.err /\ Records(dia, Lines(text)).err = FALSE
           /\ (Recs # <<>> /\ Recs[Len(Recs)].line = Len(Lines(text))))
          => IsPrefix(RowsOf(got), RowsOf(ReadText(dia, text'))) 
StableProp == [][Stable]_vars
\* quoted text without markup: number of cells = number of delimiters + 1
CountCells == \A i \in DOMAIN Recs :
   (dia.csvw /\ ~HasChar(text, 34) /\ Recs[i].row # <<>>) =>
      Len(Recs[i].row) = Count(Lines(text)[Recs[i].line], 44) + 1
=============================================================================
