-------------------------------- MODULE Dates --------------------------------
(* Dates, times and durations: format patterns, reading, writing, order.      *)
(* A value is <<year, month, day, hour, minute, second, microsecond>> and a   *)
(* timezone <<>> or <<minutes>>; times have zeros in the date fields.         *)
EXTENDS Text

DatePatterns == { C("yyyy-MM-dd"), C("yyyyMMdd"), C("dd-MM-yyyy"), C("d-M-yyyy"), C("MM-dd-yyyy"),
                  C("M-d-yyyy"), C("dd/MM/yyyy"), C("d/M/yyyy"), C("MM/dd/yyyy"), C("M/d/yyyy"),
                  C("dd.MM.yyyy"), C("d.M.yyyy"), C("MM.dd.yyyy"), C("M.d.yyyy") }
TimePatterns == { C("HH:mm:ss"), C("HHmmss"), C("HH:mm"), C("HHmm") }
BasicDate == C("yyyy-MM-dd")
BasicTime == C("HH:mm:ss")
StampPattern == C("yyyy-MM-ddTHH:mm:ss.SSSSSSXXX")
FieldNo == [c \in {121, 77, 100, 72, 109, 115} |->
             CASE c = 121 -> 1 [] c = 77 -> 2 [] c = 100 -> 3 [] c = 72 -> 4 [] c = 109 -> 5 [] c = 115 -> 6]

\* ---- patterns --------------------------------------------------------------
\* a pattern as tokens: <<"f", field, width>> and <<"l", char>>
RECURSIVE TokR(_, _)
TokR(p, acc) ==
  IF p = <<>> THEN acc
  ELSE LET c == p[1]
           run == Len(p) - Len(LStripIf(p, LAMBDA x : x = c))
       IN IF c \in DOMAIN FieldNo THEN TokR(Drop(p, run), Append(acc, <<"f", FieldNo[c], run>>))
          ELSE TokR(Tail(p), Append(acc, <<"l", c>>))
Tokens(p) == TokR(p, <<>>)

NoPattern == [ok |-> FALSE, date |-> <<>>, sep |-> <<>>, time |-> <<>>, frac |-> 0, hasfrac |-> FALSE, tz |-> <<>>]
IsX(c) == c = 88 \/ c = 120
IsSep(c) == c = SP \/ c = 84
\* the parts of a date or time pattern; `timeonly` for the datatype time
ParsePattern(p, timeonly) ==
  LET nx == Len(p) - Len(RStripIf(p, IsX))
      n == MinI(nx, 3)
      mk == Drop(p, Len(p) - n)
      body0 == Take(p, Len(p) - n)
      spaced == n > 0 /\ body0 # <<>> /\ body0[Len(body0)] = SP
      body == IF spaced THEN Take(body0, Len(body0) - 1) ELSE body0
      sepc == IF HasChar(body, SP) THEN SP ELSE 84
      hassep == HasChar(body, SP) \/ HasChar(body, 84)
      parts == Split(body, <<sepc>>)
      dpart == IF hassep THEN parts[1] ELSE IF timeonly THEN <<>> ELSE body
      tpart0 == IF hassep THEN parts[2] ELSE IF timeonly THEN body ELSE <<>>
      tp == Split(tpart0, <<46>>)
      hasfrac == Len(tp) > 1
      good == /\ Cardinality(TRange(mk)) <= 1
              /\ (hassep => Len(parts) = 2)
              /\ (dpart # <<>> => dpart \in DatePatterns)
              /\ (tp[1] # <<>> => tp[1] \in TimePatterns)
              /\ (hasfrac => Len(tp) = 2 /\ TRange(tp[2]) = {83})
  IN IF ~good THEN NoPattern
     ELSE [ok |-> TRUE, date |-> Tokens(dpart), sep |-> IF hassep THEN <<sepc>> ELSE <<>>,
           time |-> Tokens(tp[1]), frac |-> IF hasfrac THEN Len(tp[2]) ELSE 0, hasfrac |-> hasfrac,
           tz |-> (IF spaced THEN <<SP>> ELSE <<>>) \o mk]

\* ---- calendar --------------------------------------------------------------
Leap(y) == ((y % 4) = 0 /\ (y % 100) # 0) \/ (y % 400) = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
ValidDate(v) == v[1] >= 1 /\ v[2] \in 1..12 /\ v[3] >= 1 /\ v[3] <= DaysIn(v[1], v[2])
ValidTime(v) == v[4] <= 23 /\ v[5] <= 59 /\ v[6] <= 59
\* days since the beginning of year 0
DayNo(v) ==
  LET y == v[1] - 1
      before == 365 * y + (y \div 4) - (y \div 100) + (y \div 400)
      RECURSIVE M(_)
      M(m) == IF m = 0 THEN 0 ELSE DaysIn(v[1], m) + M(m - 1)
  IN IF v[1] = 0 THEN 0 ELSE before + M(v[2] - 1) + v[3]
\* a point in time as <<days, seconds, microseconds>>
Instant(v, tz) ==
  LET secs == v[4] * 3600 + v[5] * 60 + v[6] - (IF tz = <<>> THEN 0 ELSE tz[1] * 60)
  IN << DayNo(v) + (IF secs < 0 THEN -1 ELSE IF secs >= 86400 THEN 1 ELSE 0),
        IF secs < 0 THEN secs + 86400 ELSE IF secs >= 86400 THEN secs - 86400 ELSE secs, v[7] >>
CmpSeq(a, b) == LET d == {i \in DOMAIN a : a[i] # b[i]}
                IN IF d = {} THEN 0
                   ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1
Comparable(tz1, tz2) == (tz1 = <<>>) = (tz2 = <<>>)

\* ---- reading ---------------------------------------------------------------
NoMatch == [ok |-> FALSE, v |-> <<0, 0, 0, 0, 0, 0, 0>>, i |-> 0]
TakeTok(acc, tok, t) ==
  IF ~acc.ok THEN acc
  ELSE IF tok[1] = "l" THEN IF acc.i <= Len(t) /\ t[acc.i] = tok[2] THEN [acc EXCEPT !.i = @ + 1] ELSE NoMatch
  ELSE LET lo == IF tok[3] = 1 THEN 1 ELSE tok[3]
           hi == IF tok[3] = 1 THEN 2 ELSE tok[3]
           isd(k) == acc.i + k - 1 <= Len(t) /\ IsDigit(t[acc.i + k - 1])
           all == \A k \in 1..lo : isd(k)
           w == IF hi > lo /\ isd(hi) THEN hi ELSE lo
       IN IF ~all THEN NoMatch
          ELSE [acc EXCEPT !.v[tok[2]] = NatVal(SubSeq(t, acc.i, acc.i + w - 1)), !.i = @ + w]
TakeToks(toks, t, from) ==
  FoldLeft(LAMBDA acc, tok : TakeTok(acc, tok, t), [ok |-> TRUE, v |-> <<0, 0, 0, 0, 0, 0, 0>>, i |-> from], toks)
Micros(ds) == NatVal([k \in 1..6 |-> IF k <= Len(ds) THEN ds[k] ELSE 48])
\* an optional fraction of at most n digits (0: any number)
TakeFrac(acc, t, n) ==
  IF ~acc.ok \/ acc.i > Len(t) \/ t[acc.i] # 46 THEN acc
  ELSE LET rest == Drop(t, acc.i)
           w == Len(rest) - Len(LStripIf(rest, IsDigit))
       IN IF w = 0 \/ (n > 0 /\ w > n) THEN NoMatch
          ELSE [acc EXCEPT !.v[7] = Micros(Take(rest, w)), !.i = @ + 1 + w]
\* a timezone designator: Z, +hh, +hhmm or +hh:mm
ParseTz(t) ==
  LET ds == DropChars(Tail(t), {58})
      h == NatVal(Take(ds, 2))
      m == IF Len(ds) = 4 THEN NatVal(Drop(ds, 2)) ELSE 0
      shape == /\ Len(t) \in {3, 5, 6}
               /\ t[1] \in {43, 45}
               /\ AllDigits(ds)
               /\ (Len(t) = 3 => Len(ds) = 2)
               /\ (Len(t) = 5 => Len(ds) = 4)
               /\ (Len(t) = 6 => Len(ds) = 4 /\ t[4] = 58)
  IN IF t = <<>> THEN [ok |-> TRUE, tz |-> <<>>]
     ELSE IF t = <<90>> THEN [ok |-> TRUE, tz |-> <<0>>]
     ELSE IF ~shape \/ h > 23 \/ m > 59 THEN [ok |-> FALSE, tz |-> <<>>]
     ELSE [ok |-> TRUE, tz |-> <<(IF t[1] = 45 THEN -1 ELSE 1) * (h * 60 + m)>>]
NoDt == [ok |-> FALSE, v |-> <<>>, tz |-> <<>>]
\* the value of a text under a parsed pattern
ReadDt(p, text, timeonly) ==
  LET t == Strip(text)
      a == TakeToks(p.date, t, 1)
      b == IF p.sep = <<>> THEN a ELSE TakeTok(a, <<"l", p.sep[1]>>, t)
      c == IF b.ok THEN LET r == TakeToks(p.time, t, b.i)
                        IN IF r.ok THEN [r EXCEPT !.v = [k \in 1..7 |-> IF k <= 3 THEN b.v[k] ELSE r.v[k]]] ELSE r
           ELSE b
      d == IF p.hasfrac THEN TakeFrac(c, t, p.frac) ELSE c
      rest == Drop(t, d.i - 1)
      z == ParseTz(IF rest # <<>> /\ rest[1] = SP THEN Tail(rest) ELSE rest)
  IN IF ~d.ok \/ ~z.ok THEN NoDt
     ELSE IF ~ValidTime(d.v) \/ (~timeonly /\ ~ValidDate(d.v)) THEN NoDt
     ELSE [ok |-> TRUE, v |-> d.v, tz |-> z.tz]

\* ---- writing ---------------------------------------------------------------
WriteTok(v, tok) == IF tok[1] = "l" THEN <<tok[2]>> ELSE Pad(NatText(v[tok[2]]), tok[3], 48)
WriteToks(v, toks) == CatAll([i \in DOMAIN toks |-> WriteTok(v, toks[i])])
FracText(us, n) == LET s == Pad(NatText(us), 6, 48) IN [k \in 1..n |-> IF k <= 6 THEN s[k] ELSE 48]
\* marker: X, XX, XXX (Z for UTC) or x, xx, xxx
TzText(marker, tz) ==
  LET z == IF tz = <<>> THEN 0 ELSE tz[1]
      a == IF z < 0 THEN -z ELSE z
      mm == a % 60
      n == Len(marker)
  IN IF z = 0 /\ marker[1] = 88 THEN <<90>>
     ELSE <<IF z < 0 THEN 45 ELSE 43>> \o Pad(NatText(a \div 60), 2, 48)
          \o (IF n = 1 /\ mm = 0 THEN <<>> ELSE (IF n = 3 THEN <<58>> ELSE <<>>) \o Pad(NatText(mm), 2, 48))
WriteDt(p, v, tz) ==
  WriteToks(v, p.date) \o p.sep \o WriteToks(v, p.time)
  \o (IF p.hasfrac THEN <<46>> \o FracText(v[7], p.frac) ELSE <<>>)
  \o (IF p.tz = <<>> THEN <<>>
      ELSE IF p.tz[1] = SP THEN <<SP>> \o TzText(Tail(p.tz), tz) ELSE TzText(p.tz, tz))
\* the default form of a date and time: ISO 8601
IsoPattern == ParsePattern(C("yyyy-MM-ddTHH:mm:ss"), FALSE)
WriteIso(v, tz) ==
  WriteDt(IsoPattern, v, tz) \o (IF v[7] = 0 THEN <<>> ELSE <<46>> \o FracText(v[7], 6))
  \o (IF tz = <<>> THEN <<>> ELSE TzText(C("xxx"), tz))
\* ISO 8601 as far as XML Schema allows it.  The implementation is lenient about other
\* forms: verdict "any" if the text has not the shape of an xs:dateTime at all
ReadIso(text) ==
  LET t == Strip(text)
      a == TakeToks(IsoPattern.date, t, 1)
      b == TakeTok(a, <<"l", 84>>, t)
      c == IF b.ok THEN TakeToks(IsoPattern.time, t, b.i) ELSE b
      d == TakeFrac(c, t, 0)
      z == ParseTz(Drop(t, d.i - 1))
  IN IF t = <<>> \/ ~IsDigit(t[1]) THEN [k |-> "err", r |-> NoDt]
     ELSE IF ~d.ok \/ ~z.ok THEN [k |-> "any", r |-> NoDt]
     ELSE LET v == [k \in 1..7 |-> IF k <= 3 THEN b.v[k] ELSE d.v[k]]
          IN IF v[4] = 24 THEN [k |-> "any", r |-> NoDt]
             ELSE IF ~ValidTime(v) \/ ~ValidDate(v) THEN [k |-> "err", r |-> NoDt]
             ELSE [k |-> "ok", r |-> [ok |-> TRUE, v |-> v, tz |-> z.tz]]

\* what is left of a value written under a pattern
Kept(p, v, tz, timeonly) ==
  LET all == p.date \o p.time
      has(k) == \E i \in DOMAIN all : all[i][1] = "f" /\ all[i][2] = k
      us == IF ~p.hasfrac THEN 0 ELSE Micros([k \in 1..MinI(6, p.frac) |-> Pad(NatText(v[7]), 6, 48)[k]])
  IN << [k \in 1..7 |-> IF k = 7 THEN us ELSE IF has(k) THEN v[k] ELSE 0],
        IF p.tz = <<>> THEN <<>> ELSE IF tz = <<>> THEN <<0>> ELSE tz >>

\* ---- durations -------------------------------------------------------------
\* <<neg, years, months, days, seconds, microseconds>> with magnitudes, normalised
DurN(neg, y, m, d, h, mi, s, us) ==
  LET secs == h * 3600 + mi * 60 + s
      days == d + (secs \div 86400)
  IN <<neg /\ (y + m + days + (secs % 86400) + us) # 0, y, m, days, secs % 86400, us>>
\* digits before a designator; [ok, n, i]
TakeNum(t, i) ==
  LET rest == Drop(t, i - 1)
      w == Len(rest) - Len(LStripIf(rest, IsDigit))
  IN [w |-> w, n |-> NatVal(Take(rest, w)), i |-> i + w]
Unit(acc, t, c) ==
  LET r == TakeNum(t, acc.i)
  IN IF acc.ok /\ r.w > 0 /\ r.i <= Len(t) /\ t[r.i] = c THEN [acc EXCEPT !.i = r.i + 1, !.n = r.n, !.any = TRUE]
     ELSE [acc EXCEPT !.n = 0]
SecUnit(acc, t) ==
  LET r == TakeNum(t, acc.i)
      dot == r.w > 0 /\ r.i <= Len(t) /\ t[r.i] = 46
      f == TakeNum(t, r.i + 1)
      us == Micros(SubSeq(t, r.i + 1, f.i - 1))
  IN IF dot /\ f.w > 0 /\ f.i <= Len(t) /\ t[f.i] = 83
     THEN [acc |-> [acc EXCEPT !.i = f.i + 1, !.n = r.n, !.any = TRUE], us |-> us]
     ELSE [acc |-> Unit(acc, t, 83), us |-> 0]
ReadDuration(t) ==
  LET neg == t # <<>> /\ t[1] = 45
      i0 == IF t # <<>> /\ t[1] \in {43, 45} THEN 2 ELSE 1
      start == [ok |-> TRUE, i |-> i0 + 1, n |-> 0, any |-> FALSE]
      y == Unit(start, t, 89)
      m == Unit(y, t, 77)
      w == Unit(m, t, 87)
      d == Unit(w, t, 68)
      hast == d.i <= Len(t) /\ t[d.i] = 84
      d1 == IF hast THEN [d EXCEPT !.i = @ + 1] ELSE d
      h == Unit(d1, t, 72)
      mi == Unit(h, t, 77)
      s == SecUnit(mi, t)
      e == IF hast THEN s.acc ELSE d1
  IN IF i0 > Len(t) \/ t[i0] # 80 \/ e.i # Len(t) + 1 \/ (~e.any /\ ~hast)
     THEN [ok |-> FALSE, v |-> <<>>]
     ELSE [ok |-> TRUE, v |-> DurN(neg, y.n, m.n, d.n + 7 * w.n, IF hast THEN h.n ELSE 0,
                                   IF hast THEN mi.n ELSE 0, IF hast THEN s.acc.n ELSE 0, IF hast THEN s.us ELSE 0)]
\* durations are ordered if all of four points in time give the same order
DurStarts == << <<1696, 9>>, <<1697, 2>>, <<1903, 3>>, <<1903, 7>> >>
After(start, v) ==      \* <<days, seconds, microseconds>>
  LET sg(n) == IF v[1] THEN -n ELSE n
      ms == start[1] * 12 + start[2] - 1 + sg(v[2] * 12 + v[3])
      day == DayNo(<<ms \div 12, (ms % 12) + 1, 1>>)
      us == sg(v[6])
      secs == sg(v[5]) + (IF us < 0 THEN -1 ELSE 0)
  IN << day + sg(v[4]) + (IF secs < 0 THEN -1 ELSE 0), IF secs < 0 THEN secs + 86400 ELSE secs,
        IF us < 0 THEN us + 1000000 ELSE us >>
CmpDur(a, b) == LET cs == {CmpSeq(After(DurStarts[i], a), After(DurStarts[i], b)) : i \in 1..4}
                IN IF Cardinality(cs) = 1 THEN CHOOSE c \in cs : TRUE ELSE 9
Num0(n, c) == IF n = 0 THEN <<>> ELSE NatText(n) \o <<c>>
WriteDuration(v) ==
  LET h == v[5] \div 3600
      mi == (v[5] % 3600) \div 60
      s == v[5] % 60
      frac == RStripIf(FracText(v[6], 6), LAMBDA c : c = 48)
      tm == Num0(h, 72) \o Num0(mi, 77)
            \o (IF s = 0 /\ v[6] = 0 THEN <<>>
                ELSE NatText(s) \o (IF v[6] = 0 THEN <<>> ELSE <<46>> \o frac) \o <<83>>)
      body == Num0(v[2], 89) \o Num0(v[3], 77) \o Num0(v[4], 68) \o (IF tm = <<>> THEN <<>> ELSE <<84>> \o tm)
  IN (IF v[1] THEN <<45>> ELSE <<>>) \o <<80>> \o (IF body = <<>> THEN <<48, 68>> ELSE body)
=============================================================================
