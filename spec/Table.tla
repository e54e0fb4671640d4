-------------------------------- MODULE Table --------------------------------
(* Tables described by metadata: which column reads which cell, what is done   *)
(* with invalid rows, how rows are written, keys and references.               *)
(*                                                                             *)
(* A table is a record                                                         *)
(*   cols    sequence of [name, titles, purl, virtual, vurl, lv]: name, purl    *)
(*           and vurl (a template) are <<>> or <<x>>, lv the inherited          *)
(*           properties of the column (see Cell)                                *)
(*   levels  the inherited properties of group, table and schema                *)
(*   d       the dialect (see Dsv), d.header telling whether there is a header  *)
(*   pk      the columns of the primary key                                     *)
EXTENDS Cell, DsvFile, Uri, TLC

Levels(md, i) == md.levels \o <<md.cols[i].lv>>
ColNo(i) == C("_col.") \o NatText(i)
Header(col, i) == IF col.name # <<>> THEN col.name[1]
                  ELSE IF col.titles # <<>> THEN col.titles[1] ELSE ColNo(i)
HeaderOf(md, i) == Header(md.cols[i], i)
Regular(md) == SelectSeq(Iota(Len(md.cols)), LAMBDA i : ~md.cols[i].virtual)
ColNames(md) == LET r == Regular(md) IN [i \in DOMAIN r |-> HeaderOf(md, r[i])]
LastOf(s) == CHOOSE x \in s : \A y \in s : x >= y
FirstOf(s) == CHOOSE x \in s : \A y \in s : x <= y

\* the column a name stands for (0: none): its name (or first title), else a title or property URL
GetColumn(md, name) ==
  LET byname == {i \in DOMAIN md.cols : HeaderOf(md, i) = name}
      other == {i \in DOMAIN md.cols : \/ md.cols[i].titles # <<>> /\ md.cols[i].titles[1] = name
                                       \/ md.cols[i].purl = <<name>>}
  IN IF byname # {} THEN LastOf(byname) ELSE IF other # {} THEN FirstOf(other) ELSE 0
Required(md, i) == RequiredOf(Levels(md, i))

\* ---- columns for cells -----------------------------------------------------
(* sequence of [h, col, key]: the header cell, the number of the column (0: not *)
(* described, -1: described as text only) and the key in the row                *)
Mapping(md, header, lenient) ==
  LET n == Len(md.cols)
      col(i) == IF header = ColNames(md) THEN IF i <= n THEN i ELSE 0
                ELSE IF lenient /\ n > 0 THEN IF i <= n THEN i ELSE -1
                ELSE GetColumn(md, header[i])
      h(i) == IF col(i) = -1 THEN ColNo(i) ELSE header[i]
  IN [i \in DOMAIN header |-> [h |-> h(i), col |-> col(i), key |-> IF col(i) > 0 THEN HeaderOf(md, col(i)) ELSE h(i)]]
Unnamed(row) == [i \in DOMAIN row |-> [h |-> ColNo(i), col |-> -1, key |-> ColNo(i)]]
NoLevel == [null |-> <<>>, default |-> <<>>, required |-> <<>>, separator |-> <<>>, datatype |-> <<>>]

\* ---- rows ------------------------------------------------------------------
PutKV(dct, key, v) ==
  IF \E i \in DOMAIN dct : dct[i][1] = key
  THEN [i \in DOMAIN dct |-> IF dct[i][1] = key THEN <<key, v>> ELSE dct[i]]
  ELSE Append(dct, <<key, v>>)
HasKey(dct, key) == \E i \in DOMAIN dct : dct[i][1] = key
GetKV(dct, key) == IF HasKey(dct, key) THEN dct[CHOOSE i \in DOMAIN dct : dct[i][1] = key][2] ELSE <<"n">>

\* invalid cells are passed as they are when reading leniently
LenientCell(levels, text) ==
  LET r == ReadCell(levels, text)
      nulls == TRange(NullOf(levels))
      dflt == DefaultOf(levels)
      v == IF text = <<>> THEN dflt ELSE text
      sep == SepOf(levels)
      items == Split(v, sep[1])
      item(t) == LET f == IF t = <<>> THEN dflt ELSE t IN IF f \in nulls THEN <<"n">> ELSE <<"s", f>>
  IN IF r.k # "err" THEN r.v
     ELSE IF sep = <<>> \/ (RequiredOf(levels) /\ v \in nulls) THEN <<"s", text>>
     ELSE <<"l", [i \in DOMAIN items |-> item(items[i])]>>
\* the value of a variable in a template
ValText(v) == IF v[1] = "n" THEN C("None") ELSE IF v[1] = "num" THEN Positional(v[3], v[4], v[5], FALSE)
              ELSE IF v[1] = "x" THEN C(IF v[3] = "NaN" THEN "NaN" ELSE IF v[3] = "INF" THEN "Infinity" ELSE "-Infinity")
              ELSE v[2]
Bind(v) == CASE v[1] = "n" -> <<>> [] v[1] = "l" -> <<"l", [i \in DOMAIN v[2] |-> ValText(v[2][i])]>>
             [] OTHER -> <<"s", ValText(v)>>
Bindings(dct) == [i \in DOMAIN dct |-> <<dct[i][1], Bind(dct[i][2])>>]

(* [row, bad, vague, odd]: the row as key-value pairs, the positions (columns) of *)
(* its errors, whether it has a cell about which nothing is claimed, and whether it *)
(* has a decimal which is no number (accepted with a warning)                      *)
OddValue(v) == v[1] = "x" /\ v[2] = "d"
Odd(v) == OddValue(v) \/ (v[1] = "l" /\ \E i \in DOMAIN v[2] : OddValue(v[2][i]))
RowOf(md, mp, row, lenient) ==
  LET n == MinI(Len(mp), Len(row))
      lv(i) == IF mp[i].col = -1 THEN <<NoLevel>> ELSE Levels(md, mp[i].col)
      step(a, i) ==
        IF mp[i].col = 0 THEN [a EXCEPT !.row = PutKV(@, mp[i].key, <<"s", row[i]>>)]
        ELSE LET r == ReadCell(lv(i), row[i])
             IN IF r.k = "err" /\ ~lenient THEN [a EXCEPT !.bad = Append(@, i)]
                ELSE [vague |-> a.vague \/ r.k = "any",
                      odd |-> a.odd \/ (r.k = "ok" /\ Odd(r.v)),
                      row |-> PutKV(a.row, mp[i].key, IF lenient THEN LenientCell(lv(i), row[i]) ELSE r.v),
                      bad |-> IF r.k = "err" THEN Append(a.bad, i) ELSE a.bad]
      a == FoldLeft(step, [row |-> <<>>, bad |-> <<>>, vague |-> FALSE, odd |-> FALSE], Iota(n))
      \* required cells beyond the end of the row
      miss == SelectSeq(Iota(Len(mp)), LAMBDA j :
                /\ j > n /\ mp[j].col > 0 /\ Required(md, mp[j].col)
                /\ ~\E k \in (j + 1)..Len(mp) : mp[k].h = mp[j].h /\ mp[k].col > 0
                /\ ~\E k \in 1..n : mp[k].h = mp[j].h /\ mp[k].col # 0
                /\ ~HasKey(a.row, mp[j].h))
      full == FoldLeft(LAMBDA acc, k : IF HasKey(acc, k) THEN acc ELSE Append(acc, <<k, <<"n">> >>), a.row, ColNames(md))
      virt == FoldLeft(LAMBDA acc, i : IF md.cols[i].virtual /\ md.cols[i].vurl # <<>>
                                       THEN PutKV(acc, HeaderOf(md, i), <<"s", Expand(md.cols[i].vurl[1], Bindings(acc))>>) ELSE acc,
                       full, Iota(Len(md.cols)))
  IN [row |-> virt, bad |-> a.bad \o miss, vague |-> a.vague, odd |-> a.odd]

(* Reading: mode "strict" (stop at the first invalid row), "log" (report invalid *)
(* cells, leave invalid rows out) or "lenient" (pass invalid cells, warn).       *)
(* Result: rows, sequence of [n, row]; logs, sequence of <<line, column>>; end   *)
(* "done", "err" or "csv" (malformed text); at, where reading stopped; warned                             *)
\* titles in some language: pairs <<primary subtag, title>>
LangTitles(col) == IF "ltitles" \in DOMAIN col THEN col.ltitles ELSE <<>>
TitleOk(col, h) == \/ col.name = <<h>> \/ \E i \in DOMAIN col.titles : col.titles[i] = h
                   \/ \E i \in DOMAIN LangTitles(col) : LangTitles(col)[i][2] = h
\* a header which is a title in another language than that of the table
Foreign(md, col, h) ==
  LET ls == {i \in DOMAIN LangTitles(col) : LangTitles(col)[i][2] = h}
  IN /\ col.name # <<h>> /\ ls # {} /\ ~\E i \in DOMAIN col.titles : col.titles[i] = h
     /\ "lang" \notin DOMAIN md \/ \A i \in ls : LangTitles(col)[i][1] # md.lang
Compatible(md, header) ==
  /\ md.cols = <<>> \/ Len(md.cols) >= Len(header)
  /\ \A i \in 1..MinI(Len(md.cols), Len(header)) : (md.cols[i].name # <<>> \/ TitleOk(md.cols[i], header[i])) /\ ~Foreign(md, md.cols[i], header[i])
TableRead(md, text, mode) ==
  LET r == ReadText(md.d, FileText(md.d, text))
      lenient == mode = "lenient"
      hd == IF md.d.header THEN (IF r.rows = <<>> THEN <<>> ELSE r.rows[1].row) ELSE ColNames(md)
      body == IF md.d.header THEN Tail(r.rows) ELSE r.rows
      mp0 == TLCEval(Mapping(md, hd, lenient))
      firstrow == SelectSeq(body, LAMBDA x : x.row # <<>>)
      mp == IF mp0 = <<>> /\ firstrow # <<>> THEN Unnamed(firstrow[1].row) ELSE mp0
      missing == {HeaderOf(md, i) : i \in {i \in DOMAIN md.cols : ~md.cols[i].virtual /\ Required(md, i)}}
                 \ {HeaderOf(md, mp0[j].col) : j \in {j \in DOMAIN mp0 : mp0[j].col > 0}}
      rs == TLCEval([i \in DOMAIN body |-> RowOf(md, mp, body[i].row, lenient)])
      badi == {i \in DOMAIN rs : rs[i].bad # <<>>}
      stop == IF mode = "strict" /\ badi # {} THEN FirstOf(badi) - 1 ELSE Len(rs)
      kept == SelectSeq(Iota(stop), LAMBDA i : lenient \/ rs[i].bad = <<>>)
      none == [rows |-> <<>>, logs |-> <<>>, end |-> "done", at |-> <<>>, warned |-> FALSE, vague |-> FALSE, twice |-> FALSE]
  IN IF md.d.header /\ r.rows = <<>> THEN [none EXCEPT !.end = IF r.err THEN "csv" ELSE "done"]
     ELSE IF missing # {} /\ ~lenient THEN [none EXCEPT !.end = "err"]
     ELSE [rows |-> [i \in DOMAIN kept |-> [n |-> body[kept[i]].n, row |-> rs[kept[i]].row]],
           logs |-> IF mode # "log" THEN <<>>
                    ELSE CatAll([i \in DOMAIN rs |-> [j \in DOMAIN rs[i].bad |-> <<body[i].n, rs[i].bad[j]>>]]),
           \* columns with the same header: which of them is named first is not claimed
           twice |-> \E i \in DOMAIN hd : \E j \in DOMAIN hd : i # j /\ hd[i] = hd[j],
           at |-> IF stop < Len(rs) THEN <<body[stop + 1].n, rs[stop + 1].bad[1]>> ELSE <<>>,
           end |-> IF stop < Len(rs) THEN "err" ELSE IF r.err THEN "csv" ELSE "done",
           vague |-> \E i \in DOMAIN rs : rs[i].vague,
           warned |-> \/ missing # {}
                      \/ badi # {}
                      \/ \E i \in DOMAIN rs : rs[i].odd
                      \/ md.d.header /\ ~Compatible(md, hd)]
RowsRead(r) == [i \in DOMAIN r.rows |-> r.rows[i].row]

\* ---- writing ---------------------------------------------------------------
(* items: <<"seq", values>> or <<"map", key-value pairs>>                        *)
TableRow(md, item) ==
  LET r == Regular(md)
  IN [i \in DOMAIN r |->
        WriteCell(Levels(md, r[i]),
                  IF item[1] = "seq" THEN item[2][i] ELSE GetKV(item[2], HeaderOf(md, r[i])))]
Surplus(md, item) == item[1] = "map" /\ \E i \in DOMAIN item[2] : item[2][i][1] \notin TRange(ColNames(md))
TableText(md, items) ==
  WriteRows(md.d, (IF md.d.header THEN <<ColNames(md)>> ELSE <<>>) \o [i \in DOMAIN items |-> TableRow(md, items[i])])

\* ---- keys ------------------------------------------------------------------
KeyOf(row, cols) == [i \in DOMAIN cols |-> GetKV(row, cols[i])]
\* the rows (numbers) whose key is the key of an earlier row
Duplicates(rows, cols) ==
  SelectSeq(Iota(Len(rows)), LAMBDA i : \E j \in 1..(i - 1) : KeyOf(rows[j], cols) = KeyOf(rows[i], cols))
\* k "any": nothing is claimed.  Columns of the key which a row has not got (they are neither described nor in the file)
\* end the check (logged as line 0).
PrimaryKey(md, text, log) ==
  LET r == TableRead(md, text, "log")
      all == RowsRead(r)
      lacking == SelectSeq(Iota(Len(all)), LAMBDA i : \E j \in DOMAIN md.pk : ~HasKey(all[i], md.pk[j]))
      rows == IF lacking = <<>> THEN all ELSE SubSeq(all, 1, lacking[1] - 1)
      dups == Duplicates(rows, md.pk)
      bad == dups # <<>> \/ lacking # <<>>
  IN IF md.pk = <<>> THEN [k |-> "ok", v |-> TRUE, logs |-> <<>>]
     ELSE IF r.vague THEN [k |-> "any", v |-> FALSE, logs |-> <<>>]
     ELSE IF r.end # "done" THEN [k |-> "err", v |-> FALSE, logs |-> <<>>]
     ELSE IF bad /\ ~log THEN [k |-> "err", v |-> FALSE, logs |-> <<>>]
     ELSE [k |-> "ok", v |-> ~bad,
           logs |-> [i \in DOMAIN dups |-> r.rows[dups[i]].n] \o (IF lacking = <<>> THEN <<>> ELSE <<0>>)]

(* a foreign key: [t, cols, rt, rcols]: the columns of table number t refer to   *)
(* columns of table number rt (0: no such table)                                 *)
OwnBase(md, i) == IF md.cols[i].lv.datatype = <<>> THEN <<>> ELSE <<md.cols[i].lv.datatype[1].base>>
FkOk(mds, fk, strict) ==
  /\ fk.rt # 0
  /\ Len(fk.cols) = Len(fk.rcols)
  /\ \A i \in DOMAIN fk.cols :
       LET a == GetColumn(mds[fk.rt], fk.rcols[i])
           b == GetColumn(mds[fk.t], fk.cols[i])
           named(md, n) == \E j \in DOMAIN md.cols : HeaderOf(md, j) = n /\ md.cols[j].name # <<>>
       IN /\ a # 0 /\ b # 0
          /\ strict => named(mds[fk.rt], fk.rcols[i]) /\ named(mds[fk.t], fk.cols[i])
          /\ (OwnBase(mds[fk.rt], a) # <<>> /\ OwnBase(mds[fk.t], b) # <<>>)
               => OwnBase(mds[fk.rt], a) = OwnBase(mds[fk.t], b)
SchemaOk(mds, fks, strict) == \A i \in DOMAIN fks : FkOk(mds, fks[i], strict)

\* the keys a row refers to
Refs(row, fk) ==
  LET key == KeyOf(row, fk.cols)
  IN IF Len(key) = 1
     THEN IF key[1] = <<"n">> THEN <<>>
          ELSE IF key[1][1] = "l" THEN [i \in DOMAIN key[1][2] |-> <<key[1][2][i]>>] ELSE <<key>>
     ELSE IF \E i \in DOMAIN key : key[i] = <<"n">> THEN <<>> ELSE <<key>>
NullRef(row, fk) == \E i \in DOMAIN fk.cols : GetKV(row, fk.cols[i]) = <<"n">>
(* rs: what reading each table gives (mode "log")                                *)
Dangling(rs, fk) ==
  LET keys == TLCEval({KeyOf(rs[fk.rt].rows[i].row, fk.rcols) : i \in DOMAIN rs[fk.rt].rows})
      rows == rs[fk.t].rows
  IN CatAll([i \in DOMAIN rows |->
       LET refs == Refs(rows[i].row, fk)
           bad == SelectSeq(refs, LAMBDA k : k \notin keys)
       IN [j \in DOMAIN bad |-> <<fk.t, rows[i].n>>]])
Integrity(mds, fks, texts, strict, log) ==
  LET rs == TLCEval([t \in DOMAIN mds |-> TableRead(mds[t], texts[t], "log")])
      invalid(t) == rs[t].logs # <<>> \/ rs[t].end # "done"
      childbad == \E i \in DOMAIN fks : IF log THEN rs[fks[i].t].end # "done" ELSE invalid(fks[i].t)
      involvedbad == \E i \in DOMAIN fks : \E t \in {fks[i].t, fks[i].rt} : IF log THEN rs[t].end # "done" ELSE invalid(t)
      nulls == \E i \in DOMAIN fks : \E j \in DOMAIN rs[fks[i].t].rows : NullRef(rs[fks[i].t].rows[j].row, fks[i])
      dangling == CatAll([i \in DOMAIN fks |-> Dangling(rs, fks[i])])
      dup == \E i \in DOMAIN fks : Duplicates(RowsRead(rs[fks[i].rt]), fks[i].rcols) # <<>>
      err == [k |-> "err", v |-> FALSE, logs |-> <<>>]
      schema == SchemaOk(mds, fks, FALSE)
      vague == \E i \in DOMAIN fks : \E t \in {fks[i].t, fks[i].rt} \ {0} : rs[t].vague
  IN IF vague THEN [k |-> "any", v |-> FALSE, logs |-> <<>>]
     ELSE IF strict /\ childbad THEN err
     ELSE IF strict /\ nulls /\ ~log THEN err
     ELSE IF ~schema THEN IF log THEN [k |-> "ok", v |-> FALSE, logs |-> <<>>] ELSE err
     ELSE IF involvedbad THEN err
     ELSE IF dangling # <<>> /\ ~log THEN err
     ELSE [k |-> "ok", v |-> ~(dangling # <<>> \/ (strict /\ (nulls \/ dup))), logs |-> dangling]
=============================================================================
