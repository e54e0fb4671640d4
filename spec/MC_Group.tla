------------------------------ MODULE MC_Group -------------------------------
(* Two tables, one of them in a subdirectory, in three directories (one of them  *)
(* not existing yet), under any history of writes, group writes, copies and       *)
(* loads: objects read what was last written into their directory, copies read    *)
(* what the original read, and nothing is changed elsewhere.                      *)
EXTENDS Group, Json
CONSTANTS MaxOps, Emit
VARIABLES st, hist, last
vars == <<st, hist, last>>
NoL == [null |-> <<>>, default |-> <<>>, required |-> <<>>, separator |-> <<>>, datatype |-> <<>>]
MDia == [csvw |-> TRUE, delim |-> 44, quote |-> 34, dbl |-> TRUE, comment |-> <<35>>, skipRows |-> 0, skipCols |-> 0, skipBlank |-> FALSE,
         skipsp |-> FALSE, trim |-> "false", header |-> TRUE, lt |-> <<10>>, u8 |-> TRUE]
MMd == [cols |-> <<[name |-> <<C("a")>>, titles |-> <<>>, purl |-> <<>>, virtual |-> FALSE, vurl |-> <<>>, lv |-> NoL]>>,
        levels |-> <<NoL, NoL, NoL>>, d |-> MDia, pk |-> <<>>]
MRow(n) == <<"map", << <<C("a"), <<"s", C("x") \o NatText(n)>> >> >> >>
Empty == [plain |-> <<>>, zip |-> <<>>]
NoDir == [made |-> FALSE, subs |-> FALSE, md |-> FALSE, files |-> <<Empty, Empty>>]
Txt(n) == TableText(MMd, <<MRow(n)>>).text
Start == [mds |-> <<MMd, MMd>>, nested |-> <<FALSE, TRUE>>,
          dirs |-> <<[made |-> TRUE, subs |-> TRUE, md |-> TRUE, files |-> <<[plain |-> <<Txt(0)>>, zip |-> <<>>], [plain |-> <<>>, zip |-> <<Txt(0)>>]>>],
                     [NoDir EXCEPT !.made = TRUE], NoDir>>,
          objs |-> <<1>>]
Vals(x) == [t \in {1, 2} |-> IF GroupRead(x, 1)[t] = <<>> THEN -1 ELSE 0]
\* last[d][t]: the number written last to table t in directory d, -1: none
Init == st = Start /\ hist = <<>> /\ last = <<<<0, 0>>, <<-1, -1>>, <<-1, -1>>>>
Num == Len(hist) + 1
Put1(o, t, z) ==
  LET dn == st.objs[o] r == PutTable(st, dn, t, <<MRow(Num)>>, z, FALSE)
  IN /\ st' = r.st
     /\ last' = IF r.k = "ok" THEN [last EXCEPT ![dn][t] = Num] ELSE last
     /\ hist' = Append(hist, [op |-> "write", o |-> o, t |-> t, dir |-> dn, zipped |-> z, n |-> Num, k |-> r.k])
PutG(o, dn, z) ==
  LET tabs == <<[t |-> 1, items |-> <<MRow(Num)>>], [t |-> 2, items |-> <<MRow(Num)>>]>>
      r == PutGroup(st, dn, tabs, z, FALSE)
  IN /\ st' = r.st
     /\ last' = [last EXCEPT ![dn] = [t \in {1, 2} |-> IF r.st.dirs[dn].files[t] # st.dirs[dn].files[t] THEN Num ELSE @[t]]]
     /\ hist' = Append(hist, [op |-> "gwrite", o |-> o, t |-> 0, dir |-> dn, zipped |-> z, n |-> Num, k |-> r.k])
Copy(o, dn) ==
  LET r == CopyGroup(st, o, dn) from == st.objs[o]
  IN /\ dn # from
     /\ st' = r.st
     /\ last' = [last EXCEPT ![dn] = IF r.k = "ok" THEN last[from] ELSE [t \in {1, 2} |-> IF r.st.dirs[dn].files[t] # st.dirs[dn].files[t] THEN last[from][t] ELSE @[t]]]
     /\ hist' = Append(hist, [op |-> "copy", o |-> o, t |-> 0, dir |-> dn, zipped |-> FALSE, n |-> 0, k |-> r.k])
Load(dn) ==
  LET r == LoadGroup(st, dn)
  IN /\ Len(st.objs) < 2
     /\ st' = r.st
     /\ last' = last
     /\ hist' = Append(hist, [op |-> "load", o |-> 0, t |-> 0, dir |-> dn, zipped |-> FALSE, n |-> 0, k |-> r.k])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E o \in DOMAIN st.objs : \/ \E t \in {1, 2} : \E z \in BOOLEAN : Put1(o, t, z)
                                        \/ \E dn \in 1..3 : \E z \in BOOLEAN : PutG(o, dn, z)
                                        \/ \E dn \in 1..3 : Copy(o, dn)
           \/ \E dn \in 1..3 : Load(dn)
        /\ (Emit /\ Len(hist') = MaxOps) => PrintT(<<"GEN", ToJson(hist')>>)
Spec == Init /\ [][Next]_vars
ReadsLast == \A o \in DOMAIN st.objs : LET g == GroupRead(st, o) IN
  \A t \in {1, 2} : LET n == last[st.objs[o]][t] IN
    IF n = -1 THEN g[t] = <<>>
    ELSE g[t] # <<>> /\ g[t][1].end = "done" /\ RowsRead(g[t][1]) = <<<< <<C("a"), <<"s", C("x") \o NatText(n)>> >> >>>>
\* directories not written to are left alone, and so are the objects which are not copied
Frame == [][LET h == hist'[Len(hist')] IN
              /\ \A d \in 1..3 : (h.op = "load" \/ d # h.dir) => st'.dirs[d] = st.dirs[d]
              /\ \A o \in DOMAIN st.objs : (h.op # "copy" \/ o # h.o) => st'.objs[o] = st.objs[o]
              /\ h.op = "copy" /\ h.k = "ok" => \A t \in {1, 2} : GroupRead(st', h.o)[t] = GroupRead(st, h.o)[t]]_vars
=============================================================================
