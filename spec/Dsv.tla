-------------------------------- MODULE Dsv ---------------------------------
(* Delimiter separated text: how a table of strings is written, and how an    *)
(* arbitrary text is read back, under a dialect.                              *)
(*                                                                            *)
(* A dialect is a record                                                      *)
(*   csvw      TRUE: a CSVW dialect description, FALSE: plain parameters      *)
(*   delim     code point                                                     *)
(*   quote     code point or -1                                               *)
(*   dbl       doubleQuote                                                    *)
(*   comment   commentPrefix (text, <<>> for none)                            *)
(*   skipRows, skipCols, skipBlank, skipsp, trim                              *)
(*   lt        the line terminator written                                    *)
EXTENDS Text

NoChar == -1
EOLN == -2                       \* end of one physical line fed to the lexer

PlainDialect == [csvw |-> FALSE, delim |-> 44, quote |-> 34, dbl |-> TRUE,
                 comment |-> <<>>, skipRows |-> 0, skipCols |-> 0,
                 skipBlank |-> FALSE, skipsp |-> FALSE, trim |-> "false",
                 header |-> TRUE, lt |-> <<13, 10>>]
CsvwDialect == [PlainDialect EXCEPT !.csvw = TRUE, !.comment = <<35>>]

Esc(d) == IF d.csvw /\ d.quote # NoChar /\ ~d.dbl THEN 92 ELSE NoChar
Strict(d) == d.csvw

(***************************** lexer automaton ******************************)
(* modes: SR start of record, SF start of field, INF in an unquoted field,    *)
(* ESC after an escape character, AEC after an escaped line break, INQ in a   *)
(* quoted field, EIQ escape inside quotes, QIQ quote inside quotes, EAT after *)
(* the line break which ended a record.                                       *)
L0 == [m |-> "SR", f |-> <<>>, r |-> <<>>, err |-> FALSE]

EndField(s, c, next) ==
  [s EXCEPT !.r = Append(@, s.f), !.f = <<>>, !.m = next]
EndRecord(s, c) == EndField(s, c, IF c = EOLN THEN "SR" ELSE "EAT")
Put(s, c, m) == [s EXCEPT !.f = Append(@, c), !.m = m]
Quoting(d) == d.quote # NoChar

FieldStart(d, s, c) ==
  CASE IsNL(c) \/ c = EOLN      -> EndRecord(s, c)
    [] Quoting(d) /\ c = d.quote -> [s EXCEPT !.m = "INQ"]
    [] Esc(d) # NoChar /\ c = Esc(d) -> [s EXCEPT !.m = "ESC"]
    [] c = SP /\ d.skipsp       -> [s EXCEPT !.m = "SF"]
    [] c = d.delim              -> EndField(s, c, "SF")
    [] OTHER                    -> Put(s, c, "INF")

InField(d, s, c) ==
  CASE IsNL(c) \/ c = EOLN      -> EndRecord(s, c)
    [] Esc(d) # NoChar /\ c = Esc(d) -> [s EXCEPT !.m = "ESC"]
    [] c = d.delim              -> EndField(s, c, "SF")
    [] OTHER                    -> Put(s, c, s.m)

Lex(d, s, c) ==
  IF s.err THEN s ELSE
  CASE s.m = "SR"  -> IF c = EOLN THEN s
                      ELSE IF IsNL(c) THEN [s EXCEPT !.m = "EAT"]
                      ELSE FieldStart(d, s, c)
    [] s.m = "SF"  -> FieldStart(d, s, c)
    [] s.m = "INF" -> InField(d, s, c)
    [] s.m = "ESC" -> IF IsNL(c) THEN Put(s, c, "AEC")
                      ELSE Put(s, IF c = EOLN THEN LF ELSE c, "INF")
    [] s.m = "AEC" -> IF c = EOLN THEN s ELSE InField(d, s, c)
    [] s.m = "INQ" -> IF c = EOLN THEN s
                      ELSE IF Esc(d) # NoChar /\ c = Esc(d) THEN [s EXCEPT !.m = "EIQ"]
                      ELSE IF Quoting(d) /\ c = d.quote
                           THEN [s EXCEPT !.m = IF d.dbl THEN "QIQ" ELSE "INF"]
                      ELSE Put(s, c, "INQ")
    [] s.m = "EIQ" -> Put(s, IF c = EOLN THEN LF ELSE c, "INQ")
    [] s.m = "QIQ" -> IF c = d.quote THEN Put(s, c, "INQ")
                      ELSE IF c = d.delim THEN EndField(s, c, "SF")
                      ELSE IF IsNL(c) \/ c = EOLN THEN EndRecord(s, c)
                      ELSE IF ~Strict(d) THEN Put(s, c, "INF")
                      ELSE [s EXCEPT !.err = TRUE]
    [] s.m = "EAT" -> IF IsNL(c) THEN s
                      ELSE IF c = EOLN THEN [s EXCEPT !.m = "SR"]
                      ELSE [s EXCEPT !.err = TRUE]

LexLine(d, s, line) ==
  Lex(d, FoldLeft(LAMBDA a, c : Lex(d, a, c), s, line), EOLN)

\* physical lines of a text: LF, CR and CR LF end a line
Lines(t) ==
  LET n == Len(t)
      step(a, i) ==
        LET cur == Append(a.cur, t[i])
            crlf == t[i] = CR /\ i < n /\ t[MinI(i + 1, n)] = LF
        IN IF t[i] = LF \/ (t[i] = CR /\ ~crlf) \/ i = n
           THEN [out |-> Append(a.out, cur), cur |-> <<>>]
           ELSE [a EXCEPT !.cur = cur]
  IN FoldLeft(step, [out |-> <<>>, cur |-> <<>>], Iota(n)).out

(* Records of a list of physical lines: [recs, err].  Each record carries the *)
(* number of physical lines consumed when it was complete (where the text ends  *)
(* in an open quote after a line break, it does so on one more, empty, line).    *)
Records(d, lines) ==
  LET step(a, i) ==
        IF a.s.err THEN a
        ELSE LET s == LexLine(d, a.s, lines[i])
             IN IF s.m = "SR" /\ ~s.err
                THEN [s |-> L0, recs |-> Append(a.recs, [row |-> s.r, line |-> i])]
                ELSE [a EXCEPT !.s = s]
      z == FoldLeft(step, [s |-> L0, recs |-> <<>>], Iota(Len(lines)))
  IN IF z.s.err THEN [recs |-> z.recs, err |-> TRUE]
     ELSE IF z.s.f # <<>> \/ z.s.m = "INQ"
          THEN IF Strict(d) THEN [recs |-> z.recs, err |-> TRUE]
               ELSE [recs |-> Append(z.recs, [row |-> Append(z.s.r, z.s.f),
                                              line |-> Len(lines) + (IF z.s.f # <<>> /\ z.s.f[Len(z.s.f)] = LF THEN 1 ELSE 0)]),
                     err |-> FALSE]
     ELSE [recs |-> z.recs, err |-> FALSE]

(****************************** row selection *******************************)
Trim(d, s) == CASE d.trim = "true"  -> Strip(s)
                [] d.trim = "start" -> LStrip(s)
                [] d.trim = "end"   -> RStrip(s)
                [] OTHER            -> s
IsBlank(row) == \A i \in DOMAIN row : row[i] = <<>>
IsComment(d, row) == d.comment # <<>> /\ row # <<>> /\ StartsWith(row[1], d.comment)
Selected(d, row, idx) ==          \* idx: 0-based index of the record
  ~d.csvw \/ ~( IsComment(d, row) \/ (d.skipBlank /\ IsBlank(row)) \/ idx < d.skipRows )
Noted(d, row, idx) ==             \* kept aside as a comment
  d.csvw /\ (IsComment(d, row) \/ (row # <<>> /\ idx < d.skipRows))
NoteText(d, row) ==
  LET t == Join(row, <<d.delim>>)
      commentChars == TRange(d.comment)
  IN Strip(IF d.comment = <<>> THEN LStrip(t) ELSE LStripIf(t, LAMBDA c : c \in commentChars))
Cells(d, row) ==
  IF d.csvw THEN Drop([i \in DOMAIN row |-> Trim(d, row[i])], d.skipCols) ELSE row

(* What reading yields: rows with the number of the physical line on which    *)
(* each ends, the comments passed over, and whether reading fails after them. *)
ReadLines(d, lines) ==
  LET R == Records(d, lines)
      step(a, i) ==
        LET rec == R.recs[i] IN
        [rows |-> IF Selected(d, rec.row, i - 1)
                  THEN Append(a.rows, [n |-> rec.line, row |-> Cells(d, rec.row)])
                  ELSE a.rows,
         notes |-> IF Noted(d, rec.row, i - 1)
                   THEN Append(a.notes, [n |-> rec.line, text |-> NoteText(d, rec.row)])
                   ELSE a.notes]
      z == FoldLeft(step, [rows |-> <<>>, notes |-> <<>>], Iota(Len(R.recs)))
  IN [rows |-> z.rows, notes |-> z.notes, err |-> R.err]
ReadText(d, t) == ReadLines(d, Lines(t))
RowsOf(rr) == [i \in DOMAIN rr.rows |-> rr.rows[i].row]
LinesOf(rr) == [i \in DOMAIN rr.rows |-> rr.rows[i].n]

(******************************** writing ***********************************)
(* A field is <<>>-able text.  Result of writing: [ok, text].                 *)
Special(d, c) == c = d.delim \/ IsNL(c) \/ (Quoting(d) /\ c = d.quote)
                 \/ (Esc(d) # NoChar /\ c = Esc(d)) \/ c \in TRange(d.lt)
WriteField(d, f, only) ==
  LET need(c) == Special(d, c)
      esc(c) == (c = d.quote /\ ~d.dbl) \/ (Esc(d) # NoChar /\ c = Esc(d))
      body == FoldLeft(LAMBDA a, c :
                 IF Quoting(d) /\ c = d.quote
                 THEN a \o (IF d.dbl THEN <<c, c>> ELSE <<Esc(d), c>>)
                 ELSE IF Esc(d) # NoChar /\ c = Esc(d) THEN a \o <<c, c>>
                 ELSE Append(a, c), <<>>, f)
      quoted == \/ \E i \in DOMAIN f : need(f[i]) /\ ~esc(f[i])
                \/ only /\ f = <<>>
  IN IF ~Quoting(d)
     THEN [ok |-> (\A i \in DOMAIN f : ~need(f[i])) /\ ~(only /\ f = <<>>), text |-> f]
     ELSE [ok |-> TRUE, text |-> IF quoted THEN <<d.quote>> \o body \o <<d.quote>> ELSE body]
WriteRow(d, row) ==
  LET fs == [i \in DOMAIN row |-> WriteField(d, row[i], Len(row) = 1)]
  IN [ok |-> \A i \in DOMAIN fs : fs[i].ok,
      text |-> Join([i \in DOMAIN fs |-> fs[i].text], <<d.delim>>) \o d.lt]
\* rows before the first unwritable one are written
WriteRows(d, rows) ==
  LET ws == [i \in DOMAIN rows |-> WriteRow(d, rows[i])]
      badi == {i \in DOMAIN ws : ~ws[i].ok}
      m == IF badi = {} THEN Len(ws) ELSE (CHOOSE i \in badi : \A j \in badi : i <= j) - 1
  IN [ok |-> badi = {}, text |-> CatAll([i \in 1..m |-> ws[i].text])]
=============================================================================
