------------------------------ MODULE MC_Match -------------------------------
(* Which column reads which cell: every header over a small alphabet for a few *)
(* descriptions, read strictly and leniently.                                  *)
EXTENDS Table, TLC, Json
CONSTANTS MaxHeader, Emit
VARIABLES which, header, mode
vars == <<which, header, mode>>

NoL == [null |-> <<>>, default |-> <<>>, required |-> <<>>, separator |-> <<>>, datatype |-> <<>>]
Col(n, ts, p) == [name |-> n, titles |-> ts, purl |-> p, virtual |-> FALSE, vurl |-> <<>>, lv |-> NoL]
Virt(n, u) == [name |-> <<n>>, titles |-> <<>>, purl |-> <<>>, virtual |-> TRUE, vurl |-> u, lv |-> NoL]
Req(c) == [c EXCEPT !.lv.required = <<TRUE>>]
A == C("a")
B == C("b")
T1 == C("t")
U1 == C("u")
P1 == C("p:q")
Dia == [csvw |-> TRUE, delim |-> 44, quote |-> 34, dbl |-> TRUE, comment |-> <<35>>, skipRows |-> 0, skipCols |-> 0, skipBlank |-> FALSE,
        skipsp |-> FALSE, trim |-> "false", header |-> TRUE, lt |-> <<10>>, u8 |-> TRUE]
Mds == << <<>>,
          << Col(<<A>>, <<>>, <<>>), Col(<<B>>, <<>>, <<>>) >>,
          << Col(<<A>>, <<T1, U1>>, <<>>), Col(<<>>, << B >>, <<P1>>), Col(<<>>, <<>>, <<>>) >>,
          << Req(Col(<<A>>, <<>>, <<>>)), Col(<<>>, <<T1>>, <<>>) >>,
          << Col(<<A>>, <<B>>, <<>>), Col(<<B>>, <<A>>, <<>>) >>,
          << Col(<<A>>, <<>>, <<>>), Virt(C("v"), << << <<"lit", C("x/")>>, <<"ex", 0, << [n |-> A, x |-> FALSE, p |-> 0] >> >> >> >>), Virt(C("w"), <<>>) >>,
          << Req(Col(<<A>>, <<>>, <<P1>>)), Col(<<B>>, <<>>, <<P1>>) >> >>
Md(i) == [cols |-> Mds[i], levels |-> <<NoL, NoL, NoL>>, d |-> Dia, pk |-> <<>>]
Words == {A, B, T1, U1, P1, C("z"), C("_col.3"), C("v"), <<>>}
Headers == UNION {[1..n -> Words] : n \in 0..MaxHeader}
Short == UNION {[1..n -> Words] : n \in 0..2}
HasVirtual(i) == \E j \in DOMAIN Mds[i] : Mds[i][j].virtual

Init == which \in DOMAIN Mds /\ mode \in {"strict", "lenient"} /\ header = <<C("?")>>
Next == /\ header = <<C("?")>>
        /\ header' \in Headers
        /\ (mode = "lenient" => ~HasVirtual(which))
        /\ (Emit /\ header' \in Short) => PrintT(<<"GEN", ToJson([cols |-> Mds[which], header |-> header', mode |-> mode])>>)
        /\ UNCHANGED <<which, mode>>
Row == [i \in DOMAIN header |-> C("c") \o NatText(i)]
Text == WriteRows(Dia, <<header, Row>>).text
Asked == header # <<C("?")>> /\ header # <<>> /\ header # << <<>> >>
Names == ColNames(Md(which))
OkRead(res) == Asked /\ res.end = "done" /\ res.rows # <<>>
\* every regular column is there, whether the file has it or not
AllColumns(res) == LET Rw == res.rows[1].row IN OkRead(res) /\ ~(mode = "lenient" /\ Len(Mds[which]) < Len(header)) => \A i \in DOMAIN Names : HasKey(Rw, Names[i])
\* a column is filled from the cell under its name
ByName(res) == LET Rw == res.rows[1].row IN (OkRead(res) /\ mode = "strict") =>
  \A i \in DOMAIN Names : \A j \in DOMAIN header :
    (header[j] = Names[i] /\ \A k \in DOMAIN header : k # j => header[k] \notin {Names[i]} \cup {Mds[which][i].titles[n] : n \in DOMAIN Mds[which][i].titles} \cup {P1})
    => GetKV(Rw, Names[i]) = <<"s", Row[j]>>
\* no cell is lost or invented, and none is duplicated
Conserved(res) == LET Rw == res.rows[1].row IN (OkRead(res) /\ mode = "strict" /\ Cardinality(TRange(header)) = Len(header)) =>
  \A i, j \in DOMAIN Rw : (i # j /\ \E k \in DOMAIN Row : Rw[i][2] = <<"s", Row[k]>>) => Rw[i][2] # Rw[j][2]
\* permuting columns of a file along with its header changes nothing
Swap2(s) == [i \in DOMAIN s |-> IF i = 1 THEN s[2] ELSE IF i = 2 THEN s[1] ELSE s[i]]
Permuted(res) == LET Rw == res.rows[1].row IN (OkRead(res) /\ mode = "strict" /\ Len(header) >= 2 /\ Cardinality(TRange(header)) = Len(header)
             /\ Cardinality({Mapping(Md(which), header, FALSE)[i].key : i \in DOMAIN header}) = Len(header)) =>
  LET r2 == TableRead(Md(which), WriteRows(Dia, <<Swap2(header), Swap2(Row)>>).text, mode)
  IN r2.rows # <<>> /\ {Rw[i] : i \in DOMAIN Rw} = {r2.rows[1].row[i] : i \in DOMAIN r2.rows[1].row}
\* required columns which are not there are an error
MissingRequired(res) == (Asked /\ mode = "strict" /\ res.end = "err") => \E i \in DOMAIN Mds[which] : Mds[which][i].lv.required = <<TRUE>>
Props == Asked => LET res == TableRead(Md(which), Text, mode)
                  IN AllColumns(res) /\ ByName(res) /\ Conserved(res) /\ Permuted(res) /\ MissingRequired(res)
=============================================================================
