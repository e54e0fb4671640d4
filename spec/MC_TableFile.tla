---------------------------- MODULE MC_TableFile -----------------------------
(* Two tables of a group and their files, plain or zipped, under any history of *)
(* writes of one or of both: what is read is what was written last, and the     *)
(* file of the other table is left alone.                                       *)
EXTENDS Table, TLC, Json
CONSTANTS MaxOps, Emit
VARIABLES files, last, hist
vars == <<files, last, hist>>
NoL == [null |-> <<>>, default |-> <<>>, required |-> <<>>, separator |-> <<>>, datatype |-> <<>>]
Dt(b) == [base |-> b, f |-> [k |-> "none"], length |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>, bounds |-> <<>>]
Col(n, l) == [name |-> <<n>>, titles |-> <<>>, purl |-> <<>>, virtual |-> FALSE, vurl |-> <<>>, lv |-> l]
Dia == [csvw |-> TRUE, delim |-> 44, quote |-> 34, dbl |-> TRUE, comment |-> <<35>>, skipRows |-> 0, skipCols |-> 0, skipBlank |-> FALSE,
        skipsp |-> FALSE, trim |-> "false", header |-> TRUE, lt |-> <<10>>, u8 |-> TRUE]
Md(t) == [cols |-> <<Col(C("a"), [NoL EXCEPT !.datatype = <<Dt("integer")>>]), Col(C("b"), IF t = 1 THEN NoL ELSE [NoL EXCEPT !.separator = <<C("|")>>])>>,
          levels |-> <<NoL, NoL, NoL>>, d |-> Dia, pk |-> <<>>]
One == <<"num", "i", FALSE, <<1>>, 0>>
Str(s) == <<"s", C(s)>>
B(t, s) == IF t = 1 THEN Str(s) ELSE <<"l", <<Str(s), Str(s)>>>>
Rows(t) == { <<>>, << <<One, B(t, "x,\"")>> >>, << <<One, <<"n">> >>, << <<"n">>, B(t, "y")>> >> }
Items(t, rs) == [i \in DOMAIN rs |-> <<"seq", rs[i]>>]
File(t, rs, z, f) == LET x == TableText(Md(t), Items(t, rs)).text
                     IN IF z THEN [plain |-> <<>>, zip |-> <<x>>] ELSE [f EXCEPT !.plain = <<x>>]
Init == files = [t \in {1, 2} |-> [plain |-> <<>>, zip |-> <<>>]] /\ last = [t \in {1, 2} |-> <<>>] /\ hist = <<>>
PutOne(t, rs, z) == /\ files' = [files EXCEPT ![t] = File(t, rs, z, @)]
                      /\ last' = [last EXCEPT ![t] = <<rs>>]
                      /\ hist' = Append(hist, [op |-> "write", tabs |-> <<[t |-> t, rows |-> rs]>>, zipped |-> z])
PutAll(r1, r2, z) == /\ files' = [t \in {1, 2} |-> File(t, IF t = 1 THEN r1 ELSE r2, z, files[t])]
                       /\ last' = <<<<r1>>, <<r2>>>>
                       /\ hist' = Append(hist, [op |-> "gwrite", tabs |-> <<[t |-> 1, rows |-> r1], [t |-> 2, rows |-> r2]>>, zipped |-> z])
Next == /\ Len(hist) < MaxOps
        /\ \E z \in BOOLEAN : \/ \E t \in {1, 2} : \E rs \in Rows(t) : PutOne(t, rs, z)
                              \/ \E r1 \in Rows(1) : \E r2 \in Rows(2) : PutAll(r1, r2, z)
        /\ (Emit /\ Len(hist') = MaxOps) => PrintT(<<"GEN", ToJson(hist')>>)
Spec == Init /\ [][Next]_vars
Src(t) == IF files[t].plain # <<>> THEN files[t].plain ELSE files[t].zip
Expect(t, rs) == [i \in DOMAIN rs |-> <<<<C("a"), rs[i][1]>>, <<C("b"), IF rs[i][2] = <<"n">> /\ t = 2 THEN <<"l", <<>>>> ELSE rs[i][2]>>>>]
ReadsLast == \A t \in {1, 2} :
  IF last[t] = <<>> THEN Src(t) = <<>>
  ELSE /\ Src(t) # <<>>
       /\ LET r == TableRead(Md(t), Src(t)[1], "strict") IN r.end = "done" /\ RowsRead(r) = Expect(t, last[t][1])
NoStaleZip == \A t \in {1, 2} : (hist # <<>> /\ hist[Len(hist)].zipped /\ \E i \in DOMAIN hist[Len(hist)].tabs : hist[Len(hist)].tabs[i].t = t)
              => files[t].plain = <<>>
Frame == [][\A t \in {1, 2} : (~\E i \in DOMAIN hist'[Len(hist')].tabs : hist'[Len(hist')].tabs[i].t = t) => files'[t] = files[t]]_vars
=============================================================================
