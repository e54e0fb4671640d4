------------------------------- MODULE DsvFile -------------------------------
(* Operations which rewrite a delimited file in place.                        *)
EXTENDS Dsv

\* a byte order mark at the start of a UTF-8 file is not content
FileText(d, t) == IF d.u8 /\ t # <<>> /\ t[1] = 65279 THEN Tail(t) ELSE t

(* The in-place operations.  Every intermediate observation must show the old *)
(* content; the final one the new content, or the old one if it failed.       *)
RewriteResult(d, t, verdicts) ==
  LET r == ReadText(d, FileText(d, t))
      rows == RowsOf(r)
      v(i) == IF i <= Len(verdicts) THEN verdicts[i] ELSE <<"keep">>
      raises == {i \in DOMAIN rows : v(i)[1] = "raise"}
      last == IF raises = {} THEN Len(rows) ELSE CHOOSE i \in raises : \A j \in raises : i <= j
      outOf(i) == IF v(i)[1] = "drop" THEN <<>> ELSE IF v(i)[1] = "set" THEN <<v(i)[2]>> ELSE <<rows[i]>>
      outs(m) == CatAll([i \in 1..m |-> outOf(i)])
      firstBad == {i \in 1..(IF raises = {} THEN last ELSE last - 1) : ~WriteRows(d, outOf(i)).ok}
      seen == IF firstBad = {} THEN last ELSE CHOOSE i \in firstBad : \A j \in firstBad : i <= j
      fail == raises # {} \/ r.err \/ firstBad # {}
  IN [fail |-> fail, seen |-> SubSeq(rows, 1, seen),
      text |-> IF fail THEN t ELSE WriteRows(d, outs(last)).text]

FilterVerdicts(rows, keep) ==
  LET step(a, i) ==
        IF i = 1 THEN [a EXCEPT !.v = Append(@, <<"keep">>)]
        ELSE IF rows[i] = <<>> THEN [a EXCEPT !.v = Append(@, <<"drop">>)]
        ELSE LET kp == IF a.j <= Len(keep) THEN keep[a.j] ELSE "keep"
             IN [v |-> Append(a.v, <<kp>>), j |-> a.j + 1]
  IN FoldLeft(step, [v |-> <<>>, j |-> 1], Iota(Len(rows))).v
=============================================================================
