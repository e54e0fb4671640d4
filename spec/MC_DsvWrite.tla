----------------------------- MODULE MC_DsvWrite -----------------------------
(* A writer appends rows to a file; at every point the file read back under   *)
(* the same dialect yields the rows written.                                  *)
EXTENDS Dsv, TLC, Json
CONSTANTS MaxRows, WideLen, Emit, Small
VARIABLES dia, rows, file
vars == <<dia, rows, file>>

Alphabet == {97, 44, 34, 10, 13, 32, 35, 92}
Strings(n) == UNION {[1..m -> Alphabet] : m \in 0..n}
Rows == {<<c>> : c \in Strings(2)} \cup {<<c1, c2>> : c1 \in Strings(WideLen), c2 \in Strings(WideLen)}
        \cup {<<>>}
Dialects == [csvw : {TRUE}, delim : {44}, quote : {34, NoChar}, dbl : BOOLEAN,
             comment : {<<>>, <<35>>}, skipRows : {0}, skipCols : {0}, skipBlank : IF Small THEN {FALSE} ELSE BOOLEAN,
             skipsp : BOOLEAN, trim : {"false"}, header : {TRUE}, lt : IF Small THEN {<<13, 10>>} ELSE {<<13, 10>>, <<10>>}]
            \cup {PlainDialect}

Init == dia \in Dialects /\ rows = <<>> /\ file = <<>>
Write(row) == /\ Len(rows) < MaxRows
              /\ WriteRow(dia, row).ok
              /\ rows' = Append(rows, row)
              /\ file' = file \o WriteRow(dia, row).text
              /\ (Emit => PrintT(<<"GEN", ToJson([d |-> dia, rows |-> rows'])>>))
              /\ UNCHANGED dia
Next == \E row \in Rows : Write(row)

\* the documented exceptions
Plainly(row) ==
  /\ ~(dia.comment # <<>> /\ row # <<>> /\ StartsWith(row[1], dia.comment))
  /\ ~(dia.skipBlank /\ IsBlank(row))
  /\ ~(dia.skipsp /\ \E i \in DOMAIN row : row[i] # <<>> /\ row[i][1] = SP)
Expected == SelectSeq(rows, Plainly)

RoundTrip ==
  (~dia.skipsp \/ \A i \in DOMAIN rows : \A j \in DOMAIN rows[i] : rows[i][j] = <<>> \/ rows[i][j][1] # SP)
  => LET r == ReadText(dia, file) IN ~r.err /\ RowsOf(r) = Expected
LineNumbers ==
  LET r == ReadLines([dia EXCEPT !.comment = <<>>, !.skipBlank = FALSE], Lines(file))
      ns == LinesOf(r)
  IN /\ Len(ns) = Len(rows)
     /\ \A i \in 1..(Len(ns) - 1) : ns[i] < ns[i + 1]
     /\ ns # <<>> => ns[Len(ns)] = Len(Lines(file))
     /\ \A i \in DOMAIN ns : ns[i] >= i
Refused == (~Quoting(dia)) => \A i \in DOMAIN rows : \A j \in DOMAIN rows[i] :
             \A c \in TRange(rows[i][j]) : ~Special(dia, c)
=============================================================================
