------------------------------ MODULE TraceDsv -------------------------------
(* Sessions of the dsv module: the state is the content of one file.          *)
EXTENDS DsvFile, Harness

Absent == [there |-> FALSE, text |-> <<>>]
Content(t) == [there |-> TRUE, text |-> t]
DsvInit(sess) == IF sess.ini.there THEN Content(sess.ini.text) ELSE Absent

\* cells handed to a writer: ["n"] or ["s", text] (or text of a number)
CellText(c) == IF c[1] = "n" THEN <<>> ELSE c[2]
RowText(row) == [i \in DOMAIN row |-> CellText(row[i])]

Ok(stt) == [st |-> stt, bad |-> "", exp |-> <<>>]
No(stt, clause, exp) == [st |-> stt, bad |-> clause, exp |-> exp]

(* one writer, several calls: rows written one after the other; a sequence of *)
(* dicts writes the keys of its first item first, unless rows precede it      *)
CallRows(acc, call) ==
  IF call.k = "row" THEN [acc EXCEPT !.rows = Append(@, RowText(call.rows[1]))]
  ELSE IF call.k = "rows" THEN [acc EXCEPT !.rows = @ \o [i \in DOMAIN call.rows |-> RowText(call.rows[i])]]
  ELSE \* dicts
    [acc EXCEPT !.rows = @ \o (IF @ = <<>> /\ call.rows # <<>> THEN <<RowText(call.keys)>> ELSE <<>>)
                           \o [i \in DOMAIN call.rows |-> RowText(call.rows[i])]]
WrittenRows(calls) == FoldLeft(CallRows, [rows |-> <<>>], calls).rows

WriteStep(stt, e) ==
  LET rows == WrittenRows(e.calls)
      w == WriteRows(e.d, rows)
  IN IF ~w.ok THEN IF e.out.k # "exc" THEN No(stt, "unwritable row accepted", w)
                    ELSE IF e.out.text # w.text THEN No(stt, "text written before a failure", w)
                    ELSE Ok(Content(w.text))
     ELSE IF e.out.k # "ok" THEN No(stt, "writable rows refused", w)
     ELSE IF e.out.text # w.text THEN No(stt, "written text", w)
     ELSE Ok(Content(w.text))

(* dict view *)
PutKey(dct, key, v) ==
  IF \E i \in DOMAIN dct : dct[i][1] = key
  THEN [i \in DOMAIN dct |-> IF dct[i][1] = key THEN <<key, v>> ELSE dct[i]]
  ELSE Append(dct, <<key, v>>)
(* what exceeds the names goes to one more key; what is missing has a default *)
DictOf(names, row, rest) ==
  LET m == MinI(Len(names), Len(row))
      a == FoldLeft(LAMBDA acc, i : PutKey(acc, <<"s", names[i]>>, <<"s", row[i]>>), <<>>, Iota(m))
      b == IF Len(row) > m
           THEN PutKey(a, rest[1], <<"l", [i \in 1..(Len(row) - m) |-> <<"s", row[i + m]>>]>>) ELSE a
  IN FoldLeft(LAMBDA acc, i : PutKey(acc, <<"s", names[i]>>, rest[2]), b,
              [i \in 1..(Len(names) - m) |-> i + m])
DictRows(e, rows) ==
  LET given == e.fieldnames.given
      names == IF given THEN e.fieldnames.names ELSE IF rows = <<>> THEN <<>> ELSE rows[1]
      body == IF given \/ rows = <<>> THEN rows ELSE Tail(rows)
      kept == SelectSeq(body, LAMBDA r : r # <<>>)
  IN [i \in DOMAIN kept |-> DictOf(names, kept[i], e.rest)]

(* named tuples: field names made admissible *)
Keywords == {C("False"), C("None"), C("True"), C("and"), C("as"), C("assert"), C("async"), C("await"), C("break"), C("class"), C("continue"), C("def"), C("del"), C("elif"), C("else"), C("except"), C("finally"), C("for"), C("from"), C("global"), C("if"), C("import"), C("in"), C("is"), C("lambda"), C("nonlocal"), C("not"), C("or"), C("pass"), C("raise"), C("return"), C("try"), C("while"), C("with"), C("yield")}
IsAlnum(c) == IsDigit(c) \/ IsAlpha(c)
NormName(nm) ==
  LET a == [i \in DOMAIN nm |-> IF nm[i] \in {45, 46, 32} THEN 95 ELSE nm[i]]
  IN IF a \in Keywords THEN Append(a, 95)
     ELSE LET b == SelectSeq(Unaccented(a), LAMBDA c : IsAlnum(c) \/ c = 95)
              b1 == IF b = <<>> THEN <<95>> ELSE b
          IN IF IsAlpha(b1[1]) \/ b1[1] = 95 THEN b1 ELSE <<95>> \o b1
\* names of fields must differ and must not begin with an underscore
NoTuples(rows) ==
  /\ rows # <<>>
  /\ \E i \in 2..Len(rows) : rows[i] # <<>>
  /\ LET ns == [j \in DOMAIN rows[1] |-> NormName(rows[1][j])]
     IN \E j \in DOMAIN ns : ns[j][1] = 95 \/ \E k \in DOMAIN ns : k < j /\ ns[k] = ns[j]
TupleRows(e, rows) ==
  LET names == IF rows = <<>> THEN <<>> ELSE rows[1]
      kept == IF rows = <<>> THEN <<>> ELSE SelectSeq(Tail(rows), LAMBDA r : r # <<>>)
  IN [i \in DOMAIN kept |-> [j \in DOMAIN names |->
        << <<"s", NormName(names[j])>>, IF j <= Len(kept[i]) THEN <<"s", kept[i][j]>> ELSE <<"n">> >>]]

ReadStep(stt, e) ==
  LET r == IF e.src = "file" THEN ReadText(e.d, FileText(e.d, stt.text))
           ELSE IF e.src = "text" THEN ReadText(e.d, e.text)
           ELSE ReadLines(e.d, e.lines)
      rows == RowsOf(r)
      exp == IF e.kind \in {"rows", "numbered"} THEN rows
             ELSE IF e.kind = "dicts" THEN DictRows(e, rows) ELSE TupleRows(e, rows)
  IN IF e.kind = "tuples" /\ NoTuples(rows)
     THEN IF e.out.k = "exc" /\ e.out.rows = <<>> THEN Ok(stt) ELSE No(stt, "tuples without admissible names", <<>>)
     ELSE IF e.out.k = "exc" /\ e.out.t = "Other" THEN No(stt, "reading raised an unexpected exception", r)
     ELSE IF e.out.rows # exp THEN No(stt, "rows read", [exp |-> exp, r |-> r])
     ELSE IF (e.out.k = "exc") # r.err THEN No(stt, "malformed text verdict", r)
     ELSE IF e.kind = "numbered" /\ e.out.nums # LinesOf(r) THEN No(stt, "line numbers", LinesOf(r))
     ELSE IF e.notes /\ [i \in DOMAIN e.out.notes |-> e.out.notes[i][2]] # [i \in DOMAIN r.notes |-> r.notes[i].text]
          THEN No(stt, "comments", r.notes)
     ELSE IF e.notes /\ e.kind = "numbered"
             /\ [i \in DOMAIN e.out.notes |-> e.out.notes[i][1]] # [i \in DOMAIN r.notes |-> r.notes[i].n]
          THEN No(stt, "line numbers of comments", r.notes)
     ELSE Ok(stt)

Inplace(stt, e, res) ==
  IF \E i \in DOMAIN e.out.obs : e.out.obs[i] # stt
  THEN No(stt, "file changed before the operation completed", stt)
  ELSE IF res.fail /\ e.out.k # "exc" THEN No(stt, "failure not reported", res)
  ELSE IF ~res.fail /\ e.out.k # "ok" THEN No(stt, "operation failed", res)
  ELSE IF res.fail /\ e.out.after # stt THEN No(stt, "file changed by a failed operation", stt)
  ELSE IF ~res.fail /\ e.out.after # Content(res.text) THEN No(stt, "rewritten content", res)
  ELSE Ok(e.out.after)

RewriteStep(stt, e) ==
  LET res == RewriteResult(e.d, stt.text, e.verdicts)
  IN IF e.out.seen # res.seen THEN No(stt, "rows visited", res)
     ELSE Inplace(stt, e, res)

FilterStep(stt, e) ==
  LET rows == RowsOf(ReadText(e.d, FileText(e.d, stt.text)))
      vs == FilterVerdicts(rows, e.keep)
      res == RewriteResult(e.d, stt.text, vs)
      items == [i \in 2..Len(res.seen) |-> rows[i]]
      zipped == SelectSeq([i \in 1..MaxI(0, Len(res.seen) - 1) |-> rows[i + 1]], LAMBDA r : r # <<>>)
      exp == [i \in DOMAIN zipped |->
                FoldLeft(LAMBDA acc, j : PutKey(acc, <<"s", rows[1][j]>>, <<"s", zipped[i][j]>>), <<>>,
                         Iota(MinI(Len(rows[1]), Len(zipped[i]))))]
      removed == Cardinality({i \in 2..Len(vs) : rows[i] # <<>> /\ vs[i] = <<"drop">>})
  IN IF e.out.items # exp THEN No(stt, "items filtered", exp)
     ELSE IF ~res.fail /\ e.out.k = "ok" /\ e.out.removed # removed THEN No(stt, "number removed", removed)
     ELSE Inplace(stt, e, res)

AddStep(stt, e) ==
  LET old == IF stt.there THEN ReadText(PlainDialect, FileText([u8 |-> TRUE], stt.text)) ELSE [rows |-> <<>>, notes |-> <<>>, err |-> FALSE]
      fail == old.err \/ e.raise
      w == WriteRows(PlainDialect, RowsOf(old) \o [i \in DOMAIN e.rows |-> RowText(e.rows[i])])
  IN Inplace(stt, e, [fail |-> fail, text |-> w.text])

DsvStep(stt, e) ==
  CASE e.op = "write" -> WriteStep(stt, e)
    [] e.op = "read" -> ReadStep(stt, e)
    [] e.op = "rewrite" -> RewriteStep(stt, e)
    [] e.op = "filter" -> FilterStep(stt, e)
    [] e.op = "add" -> AddStep(stt, e)
=============================================================================
