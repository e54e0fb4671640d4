-------------------------------- MODULE Cell ---------------------------------
(* The meaning of a cell: datatypes (lexical forms, values, facets, formats)   *)
(* and the interpretation of a cell by its column.                             *)
(*                                                                             *)
(* Values (tagged):                                                            *)
(*   <<"n">>                 no value                                          *)
(*   <<"s", text>>           a string           <<"u", text>>  a URI           *)
(*   <<"num", k, neg, d, e>> a number, k = "i", "d" or "f" (see Num)           *)
(*   <<"x", k, name>>        "NaN", "INF", "-INF"                              *)
(*   <<"b", 0 or 1>>         a boolean                                         *)
(*   <<"dt", v, tz>>         a date and/or time (see Dates)                    *)
(*   <<"dur", v>>            a duration                                        *)
(*   <<"bin", bytes>>        <<"l", values>>    <<"j", tree>>  JSON            *)
EXTENDS Num, Dates

\* ---- families --------------------------------------------------------------
IntRange == [b \in {"integer", "int", "unsignedInt", "unsignedShort", "unsignedLong", "unsignedByte", "short",
                    "long", "byte", "nonNegativeInteger", "positiveInteger", "nonPositiveInteger", "negativeInteger"} |->
  CASE b \in {"integer", "int"} -> << <<>>, <<>> >>
    [] b = "unsignedInt" -> << <<C("0")>>, <<C("4294967295")>> >>
    [] b = "unsignedShort" -> << <<C("0")>>, <<C("65535")>> >>
    [] b = "unsignedLong" -> << <<C("0")>>, <<C("18446744073709551615")>> >>
    [] b = "unsignedByte" -> << <<C("0")>>, <<C("255")>> >>
    [] b = "short" -> << <<C("-32768")>>, <<C("32767")>> >>
    [] b = "long" -> << <<C("-9223372036854775808")>>, <<C("9223372036854775807")>> >>
    [] b = "byte" -> << <<C("-128")>>, <<C("127")>> >>
    [] b = "nonNegativeInteger" -> << <<C("0")>>, <<>> >>
    [] b = "positiveInteger" -> << <<C("1")>>, <<>> >>
    [] b = "nonPositiveInteger" -> << <<>>, <<C("0")>> >>
    [] b = "negativeInteger" -> << <<>>, <<C("-1")>> >>]
IntBases == DOMAIN IntRange
FloatBases == {"float", "number", "double"}
NumBases == IntBases \cup FloatBases \cup {"decimal"}
DateBases == {"datetime", "dateTime", "date", "dateTimeStamp", "time"}
DurBases == {"duration", "dayTimeDuration", "yearMonthDuration"}
TextBases == {"string", "normalizedString", "NMTOKEN", "QName", "gDay", "gMonth", "gMonthDay", "gYear",
              "gYearMonth", "xml", "html"}
BinBases == {"base64Binary", "binary", "hexBinary"}
Ok1(v) == [k |-> "ok", v |-> v]
Err1 == [k |-> "err", v |-> <<"n">>]
Any1 == [k |-> "any", v |-> <<"n">>]      \* nothing is claimed about this text
NumV(k, n) == <<"num", k, n.neg, n.d, n.e>>
NumOf(v) == NumN(v[3], v[4], v[5])

\* ---- regular expressions ---------------------------------------------------
\* <<"c", ch>>, <<"any">>, <<"set", chars, negated>>, <<"seq", list>>, <<"alt", list>>, <<"rep", x, m, n>> (n < 0: no limit)
RECURSIVE Ends(_, _, _), EndsSeq(_, _, _), EndsRep(_, _, _, _, _)
Ends(x, s, i) ==
  CASE x[1] = "c" -> IF i <= Len(s) /\ s[i] = x[2] THEN {i + 1} ELSE {}
    [] x[1] = "any" -> IF i <= Len(s) /\ s[i] # LF THEN {i + 1} ELSE {}
    [] x[1] = "set" -> IF i <= Len(s) /\ ((s[i] \in TRange(x[2])) # x[3]) THEN {i + 1} ELSE {}
    [] x[1] = "alt" -> UNION {Ends(x[2][j], s, i) : j \in DOMAIN x[2]}
    [] x[1] = "seq" -> EndsSeq(x[2], s, {i})
    [] x[1] = "rep" -> EndsRep(x[2], s, {i}, x[3], IF x[4] < 0 THEN Len(s) + 1 ELSE x[4])
EndsSeq(xs, s, from) ==
  IF xs = <<>> THEN from ELSE EndsSeq(Tail(xs), s, UNION {Ends(xs[1], s, i) : i \in from})
EndsRep(x, s, from, m, n) ==
  IF n = 0 \/ from = {} THEN from
  ELSE LET nxt == UNION {Ends(x, s, i) : i \in from}
       IN IF m > 0 THEN EndsRep(x, s, nxt, m - 1, n - 1)
          ELSE IF nxt \subseteq from THEN from
          ELSE EndsRep(x, s, from \cup nxt, 0, n - 1)
\* a pattern constrains the whole text
FullMatch(x, s) == Len(s) + 1 \in Ends(x, s, 1)

\* ---- number patterns -------------------------------------------------------
Hash == 35
Zero == 48
Percent == 37
Permille == 8240
NoNumPat == [on |-> FALSE, groups |-> <<>>, minint |-> 0, prim |-> 0, sec |-> 0, minfrac |-> 0, maxfrac |-> 0,
             pct |-> 0, dot |-> FALSE, comma |-> FALSE, exp |-> 0, minexp |-> 0]
ExpMark == 69
ParseNumPat(p) ==
  IF p = <<>> THEN NoNumPat
  ELSE LET lst == p[Len(p)]
           sc == IF lst = Percent THEN 2 ELSE IF lst = Permille THEN 3 ELSE 0
           body0 == IF sc > 0 THEN Take(p, Len(p) - 1) ELSE p
           \* an exponent follows the digits of the mantissa
           em == FindFrom(body0, <<ExpMark>>, 1)
           body == IF em = 0 THEN body0 ELSE Take(body0, em - 1)
           ex == IF em = 0 THEN <<>> ELSE SelectSeq(Drop(body0, em), LAMBDA c : c # 43)
           parts == Split(body, <<Dot>>)
           gs == Split(parts[1], <<Comma>>)
           frac == IF Len(parts) > 1 THEN parts[2] ELSE <<>>
       IN [on |-> TRUE, groups |-> gs, minint |-> Count(parts[1], Zero),
           prim |-> IF Len(gs) > 1 THEN Len(gs[Len(gs)]) ELSE 0,
           sec |-> IF Len(gs) > 2 THEN Len(gs[Len(gs) - 1]) ELSE IF Len(gs) > 1 THEN Len(gs[Len(gs)]) ELSE 0,
           minfrac |-> Count(frac, Zero), maxfrac |-> Len(frac), pct |-> sc,
           dot |-> Len(parts) > 1, comma |-> Len(gs) > 1, exp |-> Len(ex), minexp |-> Count(ex, Zero)]
\* does a text (with the default separators) have the digits the pattern asks for?
Digs(s) == SelectSeq(s, IsDigit)
ExpAt(s) == LET es == {i \in DOMAIN s : s[i] \in {69, 101}} IN IF es = {} THEN 0 ELSE CHOOSE i \in es : \A j \in es : i <= j
Mantissa(s) == IF ExpAt(s) = 0 THEN s ELSE Take(s, ExpAt(s) - 1)
Exponent(s) == IF ExpAt(s) = 0 THEN <<>> ELSE Drop(s, ExpAt(s))
NumPatOk(p, s0) ==
  LET s == Mantissa(s0)
      d == FindFrom(s, <<Dot>>, 1)
      ip == IF d = 0 THEN s ELSE Take(s, d - 1)
      fp == IF d = 0 THEN <<>> ELSE Drop(s, d)
      gs == Split(ip, <<Comma>>)
      n == Len(gs)
      w(i) == Len(Digs(gs[i]))
  IN /\ Len(Digs(ip)) >= p.minint
     /\ p.prim > 0 => /\ w(n) <= p.prim
                      /\ n > 1 => w(n) = p.prim
                      /\ \A i \in 1..(n - 1) : IF i = 1 THEN w(i) <= p.sec ELSE w(i) = p.sec
     /\ Len(Digs(fp)) <= p.maxfrac
     /\ Len(Digs(fp)) >= p.minfrac
     /\ p.exp > 0 => Len(Digs(Exponent(s0))) <= p.exp

\* ---- reading numbers -------------------------------------------------------
\* format: [pat, dec, grp], each <<>> if not given
Delocalize(f, t) ==
  LET g == IF f.grp # <<>> THEN f.grp[1] ELSE -1
      d == IF f.dec # <<>> THEN f.dec[1] ELSE -1
      bad == \/ g >= 0 /\ g # Comma /\ d # Comma /\ HasChar(t, Comma)
             \/ d >= 0 /\ d # Dot /\ g # Dot /\ HasChar(t, Dot)
  IN [ok |-> ~bad, t |-> [i \in DOMAIN t |-> IF t[i] = d THEN Dot ELSE IF t[i] = g THEN Comma ELSE t[i]]]
Effective(f) == LET p == ParseNumPat(f.pat)
                IN [f EXCEPT !.grp = IF @ = <<>> /\ p.comma THEN <<Comma>> ELSE @]
Specials == {C("NaN"), C("INF"), C("-INF")}
SpecialName(t) == CASE t = C("NaN") -> "NaN" [] t = C("INF") -> "INF" [] t = C("-INF") -> "-INF"
HasExp(t) == HasChar(t, 69) \/ HasChar(t, 101)
DoubledGroup(f, t) == LET g == IF f.grp # <<>> THEN f.grp[1] ELSE Comma
                      IN \E i \in 1..(Len(t) - 1) : t[i] = g /\ t[i + 1] = g
ReadNum(kind, f0, t) ==
  LET f == Effective(f0)
      p == ParseNumPat(f.pat)
      dl == Delocalize(f, t)
      commas == IF f.grp # <<>> THEN DropChars(dl.t, {Comma}) ELSE dl.t
      plain == IF kind = "f" THEN commas ELSE Strip(commas)
      scaled == kind # "f" \/ p.on \/ f.grp # <<>>
      lst == IF plain = <<>> THEN 0 ELSE plain[Len(plain)]
      pc == IF ~scaled THEN 0 ELSE IF lst = Percent THEN 2 ELSE IF lst = Permille THEN 3 ELSE 0
      body == IF pc > 0 THEN Take(plain, Len(plain) - 1) ELSE plain
      n == IF kind = "f" THEN ParseSci(Strip(body)) ELSE ParsePlain(Strip(body))
      special == IF kind = "f" THEN Strip(t) ELSE t
  IN IF kind # "f" /\ (HasExp(t) \/ DoubledGroup(f0, t)) THEN Err1
     ELSE IF ~dl.ok THEN Err1
     ELSE IF p.on /\ t \in Specials THEN Any1
     ELSE IF p.on /\ ~NumPatOk(p, dl.t) THEN Err1
     \* (whether an exponent may be there, have fewer digits, or be missing if the pattern says otherwise is left open)
     ELSE IF p.on /\ n.ok /\ ((p.exp > 0) # HasExp(dl.t) \/ Len(Digs(Exponent(dl.t))) < p.minexp) THEN Any1
     ELSE IF special \in Specials THEN IF kind = "i" THEN Err1 ELSE Ok1(<<"x", kind, SpecialName(special)>>)
     ELSE IF ~n.ok THEN Err1
     ELSE Ok1(NumV(kind, Scale(n.n, -pc)))
InRange(b, n) == LET r == IntRange[b]
                 IN /\ r[1] # <<>> => Cmp(ParsePlain(r[1][1]).n, n) <= 0
                    /\ r[2] # <<>> => Cmp(n, ParsePlain(r[2][1]).n) <= 0
ReadInt(b, f, t) ==
  LET r == ReadNum("i", f, t)
  IN IF r.k # "ok" THEN r
     ELSE IF ~IsInt(NumOf(r.v)) \/ ~InRange(b, NumOf(r.v)) THEN Err1
     ELSE r

\* ---- writing numbers -------------------------------------------------------
Localize(f, t) == [i \in DOMAIN t |-> IF t[i] = Dot /\ f.dec # <<>> THEN f.dec[1]
                                      ELSE IF t[i] = Comma /\ f.grp # <<>> THEN f.grp[1] ELSE t[i]]
WritePat(p, v) ==
  LET n == Scale(NumOf(v), p.pct)
      rd == RoundD(n, p.maxfrac)
      ip == NStrip(IntPart(rd, p.maxfrac))
      fp == CpsOf(FracPart(rd, p.maxfrac))
      keep == Len(RStripIf(fp, LAMBDA c : c = Zero))
      fr == Take(fp, MaxI(keep, p.minfrac))
      it == Pad(CpsOf(ip), MaxI(p.minint, 1), Zero)
  IN (IF v[3] THEN <<Minus>> ELSE <<>>) \o (IF p.comma THEN Grouped(it, p.prim, p.sec, Comma) ELSE it)
     \o (IF fr = <<>> THEN <<>> ELSE <<Dot>> \o fr)
     \o (IF p.pct = 2 THEN <<Percent>> ELSE IF p.pct = 3 THEN <<Permille>> ELSE <<>>)
\* the digits of a float as its shortest representation shows them
FloatDigits(v) == LET n == NumOf(v)
                  IN IF n.d = <<>> THEN <<"num", "f", v[3], <<0>>, -1>>
                     ELSE IF n.e >= 0 /\ Len(n.d) + n.e <= 16
                     THEN <<"num", "f", v[3], n.d \o Zeros(n.e) \o <<0>>, -1>>
                     ELSE <<"num", "f", v[3], n.d, n.e>>
WriteNum(f, v) ==
  LET p == ParseNumPat(f.pat)
      formatted == p.on \/ f.dec # <<>> \/ f.grp # <<>>
      x == IF v[2] = "f" THEN FloatDigits(v) ELSE v
  IN IF v[1] = "x" THEN C(v[3])
     ELSE IF v[2] = "f" /\ ~formatted THEN FloatText(NumOf(v))
     ELSE IF p.on THEN Localize(f, WritePat(p, v))
     ELSE Localize(f, Positional(x[3], x[4], x[5], f.grp # <<>>))

\* ---- binary ----------------------------------------------------------------
B64 == C("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/")
B64Val == [c \in TRange(B64) |-> (CHOOSE i \in DOMAIN B64 : B64[i] = c) - 1]
RECURSIVE B64Enc(_)
B64Enc(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET x == b[1]
           y == IF Len(b) > 1 THEN b[2] ELSE 0
           z == IF Len(b) > 2 THEN b[3] ELSE 0
       IN << B64[(x \div 4) + 1], B64[(x % 4) * 16 + (y \div 16) + 1],
             IF Len(b) > 1 THEN B64[(y % 16) * 4 + (z \div 64) + 1] ELSE 61,
             IF Len(b) > 2 THEN B64[(z % 64) + 1] ELSE 61 >> \o B64Enc(Drop(b, 3))
RECURSIVE Wrap76(_)
Wrap76(t) == IF Len(t) <= 76 THEN t ELSE Take(t, 76) \o <<LF>> \o Wrap76(Drop(t, 76))
RECURSIVE B64Dec(_)
B64Dec(t) ==
  IF t = <<>> THEN <<>>
  ELSE LET v(i) == IF t[i] = 61 THEN 0 ELSE B64Val[t[i]]
           a == v(1) * 4 + (v(2) \div 16)
           b == (v(2) % 16) * 16 + (v(3) \div 4)
           c == (v(3) % 4) * 64 + v(4)
       IN (IF t[3] = 61 THEN <<a>> ELSE IF t[4] = 61 THEN <<a, b>> ELSE <<a, b, c>>) \o B64Dec(Drop(t, 4))
ReadB64(t) ==
  LET s == DropChars(t, {LF})
      body == RStripIf(s, LAMBDA c : c = 61)
      clean == \A i \in DOMAIN body : body[i] \in DOMAIN B64Val
      pad == Len(s) - Len(body)
  IN IF \E i \in DOMAIN t : t[i] > 127 THEN Err1
     ELSE IF ~clean THEN Any1
     ELSE IF pad = 0 /\ (Len(body) % 4) # 0 THEN Err1
     ELSE IF pad > 2 \/ (Len(s) % 4) # 0 THEN Any1
     ELSE Ok1(<<"bin", B64Dec(s)>>)
Hex == C("0123456789ABCDEF")
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
ReadHex(t) == IF (Len(t) % 2) = 1 \/ \E i \in DOMAIN t : ~IsHex(t[i]) THEN Err1
              ELSE Ok1(<<"bin", [i \in 1..(Len(t) \div 2) |-> HexVal(t[2 * i - 1]) * 16 + HexVal(t[2 * i])]>>)
WriteHex(b) == CatAll([i \in DOMAIN b |-> <<Hex[(b[i] \div 16) + 1], Hex[(b[i] % 16) + 1]>>])

\* ---- JSON ------------------------------------------------------------------
(* trees: <<"n">>, <<"b", 0/1>>, <<"num", "i"/"f", neg, d, e>>, <<"s", text>>,  *)
(* <<"l", list>>, <<"o", list of <<key, value>> >>                              *)
Hex4(n) == <<Lower(<<Hex[(n \div 4096) + 1]>>)[1], Lower(<<Hex[((n \div 256) % 16) + 1]>>)[1],
             Lower(<<Hex[((n \div 16) % 16) + 1]>>)[1], Lower(<<Hex[(n % 16) + 1]>>)[1]>>
UEsc(n) == <<92, 117>> \o Hex4(n)
JChar(c) == CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>>
              [] c = 9 -> <<92, 116>> [] c = 8 -> <<92, 98>> [] c = 12 -> <<92, 102>>
              [] c >= 32 /\ c <= 126 -> <<c>>
              [] c > 65535 -> UEsc(55296 + ((c - 65536) \div 1024)) \o UEsc(56320 + ((c - 65536) % 1024))
              [] OTHER -> UEsc(c)
JStr(s) == <<34>> \o CatAll([i \in DOMAIN s |-> JChar(s[i])]) \o <<34>>
RECURSIVE WriteJson(_)
WriteJson(j) ==
  CASE j[1] = "n" -> C("null")
    [] j[1] = "b" -> IF j[2] = 1 THEN C("true") ELSE C("false")
    [] j[1] = "num" -> IF j[2] = "f" THEN FloatText(NumOf(j)) ELSE Positional(j[3], j[4], j[5], FALSE)
    [] j[1] = "s" -> JStr(j[2])
    [] j[1] = "l" -> <<91>> \o Join([i \in DOMAIN j[2] |-> WriteJson(j[2][i])], <<44, 32>>) \o <<93>>
    [] j[1] = "o" -> <<123>> \o Join([i \in DOMAIN j[2] |-> JStr(j[2][i][1]) \o <<58, 32>> \o WriteJson(j[2][i][2])], <<44, 32>>) \o <<125>>
\* reading: [ok, v, i] where i is the position after the value
JBad == [ok |-> FALSE, v |-> <<"n">>, i |-> 0]
JSp(c) == c \in {32, 9, 10, 13}
RECURSIVE SkipW(_, _)
SkipW(t, i) == IF i <= Len(t) /\ JSp(t[i]) THEN SkipW(t, i + 1) ELSE i
JAt(t, i, s) == i + Len(s) - 1 <= Len(t) /\ SubSeq(t, i, i + Len(s) - 1) = s
HexN(s) == FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), 0, s)
RECURSIVE JString(_, _, _)
JString(t, i, acc) ==
  IF i > Len(t) THEN JBad
  ELSE IF t[i] = 34 THEN [ok |-> TRUE, v |-> <<"s", acc>>, i |-> i + 1]
  ELSE IF t[i] < 32 THEN JBad
  ELSE IF t[i] # 92 THEN JString(t, i + 1, Append(acc, t[i]))
  ELSE IF i = Len(t) THEN JBad
  ELSE LET e == t[i + 1]
           u(k) == HexN(SubSeq(t, k + 2, k + 5))
           isu(k) == k + 5 <= Len(t) /\ t[k] = 92 /\ t[k + 1] = 117 /\ \A m \in (k + 2)..(k + 5) : IsHex(t[m])
       IN IF e \in {34, 92, 47} THEN JString(t, i + 2, Append(acc, e))
          ELSE IF e = 110 THEN JString(t, i + 2, Append(acc, 10))
          ELSE IF e = 114 THEN JString(t, i + 2, Append(acc, 13))
          ELSE IF e = 116 THEN JString(t, i + 2, Append(acc, 9))
          ELSE IF e = 98 THEN JString(t, i + 2, Append(acc, 8))
          ELSE IF e = 102 THEN JString(t, i + 2, Append(acc, 12))
          ELSE IF ~isu(i) THEN JBad
          ELSE IF u(i) >= 55296 /\ u(i) <= 56319 /\ isu(i + 6) /\ u(i + 6) >= 56320 /\ u(i + 6) <= 57343
          THEN JString(t, i + 12, Append(acc, 65536 + (u(i) - 55296) * 1024 + (u(i + 6) - 56320)))
          ELSE JString(t, i + 6, Append(acc, u(i)))
JNumEnd(t, i) == LET rest == Drop(t, i - 1)
                 IN i + Len(rest) - Len(LStripIf(rest, LAMBDA c : IsDigit(c) \/ c \in {43, 45, 46, 69, 101}))
JNumber(t, i) ==
  LET e == JNumEnd(t, i)
      s == SubSeq(t, i, e - 1)
      b == IF s # <<>> /\ s[1] = Minus THEN Tail(s) ELSE s
      isf == HasChar(b, Dot) \/ HasExp(b)
      n == ParseSci(s)
      dotOk == \A k \in DOMAIN b : b[k] = Dot => (k > 1 /\ IsDigit(b[k - 1]) /\ k < Len(b) /\ IsDigit(b[k + 1]))
  IN IF b = <<>> \/ ~IsDigit(b[1]) \/ ~n.ok \/ ~dotOk \/ (Len(b) > 1 /\ b[1] = 48 /\ IsDigit(b[2])) THEN JBad
     ELSE [ok |-> TRUE, v |-> NumV(IF isf THEN "f" ELSE "i", n.n), i |-> e]
PutPair(o, k, v) == IF \E i \in DOMAIN o : o[i][1] = k
                    THEN [i \in DOMAIN o |-> IF o[i][1] = k THEN <<k, v>> ELSE o[i]]
                    ELSE Append(o, <<k, v>>)
RECURSIVE JValue(_, _), JList(_, _, _), JObj(_, _, _)
JValue(t, i0) ==
  LET i == SkipW(t, i0)
  IN IF i > Len(t) THEN JBad
     ELSE IF JAt(t, i, C("null")) THEN [ok |-> TRUE, v |-> <<"n">>, i |-> i + 4]
     ELSE IF JAt(t, i, C("true")) THEN [ok |-> TRUE, v |-> <<"b", 1>>, i |-> i + 4]
     ELSE IF JAt(t, i, C("false")) THEN [ok |-> TRUE, v |-> <<"b", 0>>, i |-> i + 5]
     ELSE IF t[i] = 34 THEN JString(t, i + 1, <<>>)
     ELSE IF t[i] = 91 THEN
       LET k == SkipW(t, i + 1)
       IN IF k <= Len(t) /\ t[k] = 93 THEN [ok |-> TRUE, v |-> <<"l", <<>> >>, i |-> k + 1] ELSE JList(t, i + 1, <<>>)
     ELSE IF t[i] = 123 THEN
       LET k == SkipW(t, i + 1)
       IN IF k <= Len(t) /\ t[k] = 125 THEN [ok |-> TRUE, v |-> <<"o", <<>> >>, i |-> k + 1] ELSE JObj(t, i + 1, <<>>)
     ELSE JNumber(t, i)
JList(t, i, acc) ==
  LET x == JValue(t, i)
      k == SkipW(t, x.i)
  IN IF ~x.ok \/ k > Len(t) THEN JBad
     ELSE IF t[k] = 93 THEN [ok |-> TRUE, v |-> <<"l", Append(acc, x.v)>>, i |-> k + 1]
     ELSE IF t[k] = 44 THEN JList(t, k + 1, Append(acc, x.v))
     ELSE JBad
JObj(t, i0, acc) ==
  LET i == SkipW(t, i0)
      ky == IF i <= Len(t) /\ t[i] = 34 THEN JString(t, i + 1, <<>>) ELSE JBad
      c == SkipW(t, ky.i)
      x == IF ky.ok /\ c <= Len(t) /\ t[c] = 58 THEN JValue(t, c + 1) ELSE JBad
      k == SkipW(t, x.i)
  IN IF ~x.ok \/ k > Len(t) THEN JBad
     ELSE LET a == PutPair(acc, ky.v[2], x.v)
          IN IF t[k] = 125 THEN [ok |-> TRUE, v |-> <<"o", a>>, i |-> k + 1]
             ELSE IF t[k] = 44 THEN JObj(t, k + 1, a)
             ELSE JBad
ReadJson(t) == LET r == JValue(t, 1) IN IF r.ok /\ SkipW(t, r.i) = Len(t) + 1 THEN Ok1(<<"j", r.v>>) ELSE Err1
(* JSON schemas: <<"any">>, <<"never">>, <<"type", name>>, <<"props", seq of <<key, schema>>, required keys, closed>>,  *)
(* <<"items", schema, min, max>>, <<"size", min, max>> (of texts), <<"range", min, max>> (of numbers; sequences with *)
(* none or one JSON number), <<"enum", seq of values without numbers>>, <<"all" | "some" | "not", seq of schemas>>; what a  *)
(* schema says about objects, arrays, texts or numbers says nothing about other values                             *)
JType(j, name) ==
  CASE name = "object" -> j[1] = "o" [] name = "array" -> j[1] = "l" [] name = "string" -> j[1] = "s"
    [] name = "boolean" -> j[1] = "b" [] name = "null" -> j[1] = "n" [] name = "number" -> j[1] = "num"
    [] name = "integer" -> j[1] = "num" /\ IsInt(NumOf(j))
JMember(o, k) == o[2][CHOOSE i \in DOMAIN o[2] : o[2][i][1] = k][2]
JHas(o, k) == \E i \in DOMAIN o[2] : o[2][i][1] = k
JWithin(n, lo, hi) == (lo # <<>> => n >= lo[1]) /\ (hi # <<>> => n <= hi[1])
RECURSIVE Conforms(_, _)
Conforms(j, s) ==
  CASE s[1] = "any" -> TRUE
    [] s[1] = "never" -> FALSE
    [] s[1] = "type" -> JType(j, s[2])
    [] s[1] = "props" -> j[1] = "o" => /\ \A i \in DOMAIN s[2] : JHas(j, s[2][i][1]) => Conforms(JMember(j, s[2][i][1]), s[2][i][2])
                                       /\ \A i \in DOMAIN s[3] : JHas(j, s[3][i])
                                       /\ s[4] => \A i \in DOMAIN j[2] : \E k \in DOMAIN s[2] : s[2][k][1] = j[2][i][1]
    [] s[1] = "items" -> j[1] = "l" => (\A i \in DOMAIN j[2] : Conforms(j[2][i], s[2])) /\ JWithin(Len(j[2]), s[3], s[4])
    [] s[1] = "size" -> j[1] = "s" => JWithin(Len(j[2]), s[2], s[3])
    [] s[1] = "range" -> j[1] = "num" => /\ s[2] # <<>> => Cmp(NumOf(s[2][1]), NumOf(j)) <= 0
                                         /\ s[3] # <<>> => Cmp(NumOf(j), NumOf(s[3][1])) <= 0
    [] s[1] = "enum" -> j[1] # "num" /\ \E i \in DOMAIN s[2] : s[2][i] = j
    [] s[1] = "all" -> \A i \in DOMAIN s[2] : Conforms(j, s[2][i])
    [] s[1] = "some" -> \E i \in DOMAIN s[2] : Conforms(j, s[2][i])
    [] s[1] = "not" -> ~Conforms(j, s[2][1])

\* ---- datatypes -------------------------------------------------------------
(* dt: [base, f, facets]; f (the format) is one of                             *)
(*   [k |-> "none"]   [k |-> "re", x |-> regex]   [k |-> "num", pat, dec, grp]  *)
(*   [k |-> "bool", t, f]   [k |-> "date", p]   [k |-> "schema", s]             *)
(* facets: [length, minLength, maxLength] each <<>> or <<n>> and [bounds], a    *)
(* sequence of <<name, text, plain>>: text is a lexical form under the format,   *)
(* or (plain) a JSON number                                                     *)
NumFormat(dt) == IF dt.f.k = "num" THEN dt.f ELSE [k |-> "num", pat |-> <<>>, dec |-> <<>>, grp |-> <<>>]
DateFormat(dt) ==      \* parsed pattern, or not ok if there is none
  CASE dt.f.k = "date" -> ParsePattern(dt.f.p, dt.base = "time")
    [] dt.base = "date" -> ParsePattern(BasicDate, FALSE)
    [] dt.base = "time" -> ParsePattern(BasicTime, TRUE)
    [] dt.base = "dateTimeStamp" -> ParsePattern(StampPattern, FALSE)
    [] OTHER -> NoPattern
TrueTexts(dt) == IF dt.f.k = "bool" THEN <<dt.f.t>> ELSE <<C("true"), C("1")>>
FalseTexts(dt) == IF dt.f.k = "bool" THEN <<dt.f.f>> ELSE <<C("false"), C("0")>>
IsWord(c) == IsDigit(c) \/ IsAlpha(c) \/ c = 95
Normalize(t) == Strip([i \in DOMAIN t |-> IF t[i] \in {9, 10, 13} THEN SP ELSE t[i]])
ReOk(dt, t) == dt.f.k = "re" => FullMatch(dt.f.x, t)

Parse(dt, t) ==
  CASE dt.base = "decimal" -> ReadNum("d", NumFormat(dt), t)
    [] dt.base \in IntBases -> ReadInt(dt.base, NumFormat(dt), t)
    [] dt.base \in FloatBases -> ReadNum("f", NumFormat(dt), t)
    [] dt.base = "boolean" -> IF t \in TRange(TrueTexts(dt)) THEN Ok1(<<"b", 1>>)
                              ELSE IF t \in TRange(FalseTexts(dt)) THEN Ok1(<<"b", 0>>) ELSE Err1
    [] dt.base \in DateBases ->
         LET p == DateFormat(dt)
         IN IF p.ok THEN LET r == ReadDt(p, t, dt.base = "time")
                         IN IF r.ok THEN Ok1(<<"dt", r.v, r.tz>>) ELSE Err1
            ELSE LET r == ReadIso(t) IN IF r.k = "ok" THEN Ok1(<<"dt", r.r.v, r.r.tz>>) ELSE [k |-> r.k, v |-> <<"n">>]
    [] dt.base \in DurBases -> IF ~ReOk(dt, t) THEN Err1
                               ELSE LET r == ReadDuration(t) IN IF r.ok THEN Ok1(<<"dur", r.v>>) ELSE Err1
    [] dt.base \in {"base64Binary", "binary"} -> ReadB64(t)
    [] dt.base = "hexBinary" -> ReadHex(t)
    [] dt.base = "json" -> LET r == ReadJson(t)
                           IN IF r.k # "ok" THEN r
                              ELSE IF dt.f.k = "schema" /\ ~Conforms(r.v[2], dt.f.s) THEN Err1 ELSE r
    [] dt.base = "any" -> Ok1(<<"s", t>>)
    [] dt.base = "anyURI" -> IF ReOk(dt, t) THEN Ok1(<<"u", t>>) ELSE Err1
    [] dt.base = "normalizedString" -> IF ReOk(dt, Normalize(t)) THEN Ok1(<<"s", Normalize(t)>>) ELSE Err1
    [] dt.base = "NMTOKEN" -> IF ~ReOk(dt, t) THEN Err1
                              ELSE IF \E i \in DOMAIN t : ~(IsWord(t[i]) \/ t[i] \in {45, 46, 58} \/ t[i] > 127)
                              THEN Err1 ELSE IF \E i \in DOMAIN t : t[i] > 127 THEN Any1 ELSE Ok1(<<"s", t>>)
    [] OTHER -> IF ReOk(dt, t) THEN Ok1(<<"s", t>>) ELSE Err1

BoundV(dt, b) == Parse(IF b[3] THEN [dt EXCEPT !.f = [k |-> "none"]] ELSE dt, b[2])
\* -1, 0, 1 or 9 (not comparable)
CmpV(a, b) ==
  CASE a[1] = "num" /\ b[1] = "num" -> Cmp(NumOf(a), NumOf(b))
    [] a[1] = "x" /\ a[3] = "NaN" -> 9
    [] b[1] = "x" /\ b[3] = "NaN" -> 9
    [] a[1] = "x" -> IF b[1] = "x" /\ a[3] = b[3] THEN 0 ELSE IF a[3] = "INF" THEN 1 ELSE -1
    [] b[1] = "x" -> IF b[3] = "INF" THEN -1 ELSE 1
    [] a[1] = "dt" -> IF Comparable(a[3], b[3]) THEN CmpSeq(Instant(a[2], a[3]), Instant(b[2], b[3])) ELSE 9
    [] a[1] = "dur" /\ b[1] = "dur" -> CmpDur(a[2], b[2])
    [] OTHER -> 9
Within(dt, v, bound) ==
  LET c == CmpV(v, BoundV(dt, bound).v)
  IN CASE bound[1] \in {"minimum", "minInclusive"} -> c \in {0, 1}
       [] bound[1] = "minExclusive" -> c = 1
       [] bound[1] \in {"maximum", "maxInclusive"} -> c \in {-1, 0}
       [] bound[1] = "maxExclusive" -> c = -1
HasBounds(b) == b \in NumBases \cup DateBases \cup DurBases
LenOf(v) == IF v[1] \in {"s", "u", "bin"} THEN Len(v[2]) ELSE -1
FacetsOk(dt, v) ==
  /\ LenOf(v) >= 0 => /\ dt.length # <<>> => LenOf(v) = dt.length[1]
                      /\ dt.minLength # <<>> => LenOf(v) >= dt.minLength[1]
                      /\ dt.maxLength # <<>> => LenOf(v) <= dt.maxLength[1]
  /\ HasBounds(dt.base) => \A i \in DOMAIN dt.bounds : Within(dt, v, dt.bounds[i])
Read(dt, t) == LET r == Parse(dt, t)
               IN IF r.k = "ok" /\ ~FacetsOk(dt, r.v) THEN Err1 ELSE r

\* is the description free of contradictions?
\* minimum and maximum are other names of minInclusive and maxInclusive
Alias == [n \in {"minInclusive", "minExclusive", "maxInclusive", "maxExclusive"} |->
            {n} \cup (IF n = "minInclusive" THEN {"minimum"} ELSE IF n = "maxInclusive" THEN {"maximum"} ELSE {})]
BoundsOf(dt, name) == {BoundV(dt, dt.bounds[i]).v : i \in {i \in DOMAIN dt.bounds : dt.bounds[i][1] \in Alias[name]}}
Both(dt, a, b, Bad(_)) == \E v \in BoundsOf(dt, a), w \in BoundsOf(dt, b) : Bad(CmpV(v, w))
LengthBases == TextBases \cup BinBases \cup {"anyURI", "json"}
Consistent(dt) ==
  /\ (dt.length # <<>> /\ dt.minLength # <<>>) => dt.length[1] >= dt.minLength[1]
  /\ (dt.length # <<>> /\ dt.maxLength # <<>>) => dt.length[1] <= dt.maxLength[1]
  /\ (dt.minLength # <<>> /\ dt.maxLength # <<>>) => dt.minLength[1] <= dt.maxLength[1]
  /\ (dt.length # <<>> \/ dt.minLength # <<>> \/ dt.maxLength # <<>>) => dt.base \in LengthBases
  /\ dt.bounds # <<>> => dt.base \in NumBases \cup DateBases \cup DurBases
  /\ \A i \in DOMAIN dt.bounds : BoundV(dt, dt.bounds[i]).k = "ok"
  /\ ~Both(dt, "minInclusive", "minExclusive", LAMBDA c : TRUE)
  /\ ~Both(dt, "maxInclusive", "maxExclusive", LAMBDA c : TRUE)
  /\ ~Both(dt, "minInclusive", "maxInclusive", LAMBDA c : c = 1)
  /\ ~Both(dt, "minInclusive", "maxExclusive", LAMBDA c : c \in {0, 1})
  /\ ~Both(dt, "minExclusive", "maxExclusive", LAMBDA c : c \in {0, 1})
  /\ ~Both(dt, "minExclusive", "maxInclusive", LAMBDA c : c \in {0, 1})
\* bounds which cannot be compared with each other: nothing is claimed about accepting the description
Incomparable(dt) == \E i, j \in DOMAIN dt.bounds : CmpV(BoundV(dt, dt.bounds[i]).v, BoundV(dt, dt.bounds[j]).v) = 9
PatternOk(dt) == dt.f.k = "date" => /\ (dt.base # "date" => ParsePattern(dt.f.p, dt.base = "time").ok)
                                    /\ (dt.base = "dateTimeStamp" => ParsePattern(dt.f.p, FALSE).tz # <<>>)

\* ---- writing ---------------------------------------------------------------
Write(dt, v) ==
  CASE dt.base \in NumBases -> WriteNum(NumFormat(dt), v)
    [] dt.base = "boolean" -> IF v[2] = 1 THEN TrueTexts(dt)[1] ELSE FalseTexts(dt)[1]
    [] dt.base \in DateBases -> LET p == DateFormat(dt)
                                IN IF p.ok THEN WriteDt(p, v[2], v[3]) ELSE WriteIso(v[2], v[3])
    [] dt.base \in DurBases -> WriteDuration(v[2])
    [] dt.base \in {"base64Binary", "binary"} -> Wrap76(B64Enc(v[2]))
    [] dt.base = "hexBinary" -> WriteHex(v[2])
    [] dt.base = "json" -> WriteJson(v[2])
    [] OTHER -> v[2]

\* values that a datatype can represent exactly (so that writing and reading is the identity)
Canon(v) == IF v[1] = "num" THEN NumV(v[2], NumOf(v)) ELSE v
Representable(dt, v) ==
  /\ Consistent(dt) /\ PatternOk(dt)
  /\ dt.f.k \notin {"re", "schema"}
  /\ (v[1] = "x" => NumFormat(dt).pat = <<>>)
  /\ CASE dt.base \in NumBases /\ v[1] = "num" ->
            LET p == ParseNumPat(NumFormat(dt).pat)
                n == NumOf(v)
            IN (p.on => n.d = <<>> \/ n.e + p.pct >= -p.maxfrac)
               /\ (dt.base \in IntBases => IsInt(n) /\ InRange(dt.base, n))
       [] dt.base \in DateBases ->
            LET p == DateFormat(dt) IN p.ok => Kept(p, v[2], v[3], dt.base = "time") = <<v[2], v[3]>>
       [] dt.base = "normalizedString" -> Normalize(v[2]) = v[2]
       [] dt.base = "boolean" -> dt.f.k = "bool" => dt.f.t # dt.f.f
       [] dt.base = "NMTOKEN" -> \A i \in DOMAIN v[2] : IsWord(v[2][i]) \/ v[2][i] \in {45, 46, 58}
       [] OTHER -> TRUE
  /\ FacetsOk(dt, Canon(v))

\* ---- columns ---------------------------------------------------------------
(* levels: the descriptions from the table group down to the column; each is    *)
(* [null, default, required, separator, datatype] with <<>> for "not given"     *)
Given(levels, Get(_)) ==
  LET g == {i \in DOMAIN levels : Get(levels[i]) # <<>>}
  IN IF g = {} THEN <<>> ELSE Get(levels[CHOOSE i \in g : \A j \in g : i >= j])
NullOf(levels) == LET x == Given(levels, LAMBDA l : l.null) IN IF x = <<>> THEN << <<>> >> ELSE x[1]
DefaultOf(levels) == LET x == Given(levels, LAMBDA l : l.default) IN IF x = <<>> THEN <<>> ELSE x[1]
RequiredOf(levels) == LET x == Given(levels, LAMBDA l : l.required) IN x # <<>> /\ x[1]
SepOf(levels) == Given(levels, LAMBDA l : l.separator)
DatatypeOf(levels) == Given(levels, LAMBDA l : l.datatype)

ReadOne(dtv, t) == IF dtv = <<>> THEN Ok1(<<"s", t>>) ELSE Read(dtv[1], t)
ReadCell(levels, text) ==
  LET nulls == TRange(NullOf(levels))
      dflt == DefaultOf(levels)
      sep == SepOf(levels)
      dtv == DatatypeOf(levels)
      v == IF text = <<>> THEN dflt ELSE text
      items == Split(v, sep[1])
      full == [i \in DOMAIN items |-> IF items[i] = <<>> THEN dflt ELSE items[i]]
      vals == [i \in DOMAIN full |-> IF full[i] \in nulls THEN Ok1(<<"n">>) ELSE ReadOne(dtv, full[i])]
  IN IF RequiredOf(levels) /\ v \in nulls THEN Err1
     ELSE IF sep # <<>> THEN
        IF v = <<>> THEN Ok1(<<"l", <<>> >>)
        ELSE IF v \in nulls THEN Ok1(<<"n">>)
        ELSE IF \E i \in DOMAIN vals : vals[i].k = "err" THEN Err1
        ELSE IF \E i \in DOMAIN vals : vals[i].k = "any" THEN Any1
        ELSE Ok1(<<"l", [i \in DOMAIN vals |-> vals[i].v]>>)
     ELSE IF v \in nulls THEN Ok1(<<"n">>)
     ELSE ReadOne(dtv, v)

WriteOne(levels, v) ==
  LET nulls == NullOf(levels)
      dtv == DatatypeOf(levels)
  IN IF v = <<"n">> THEN (IF nulls = <<>> THEN <<>> ELSE nulls[1])
     ELSE IF dtv # <<>> THEN Write(dtv[1], v) ELSE v[2]
WriteCell(levels, v) ==
  LET sep == SepOf(levels)
  IN IF sep # <<>> THEN IF v = <<"n">> THEN <<>> ELSE Join([i \in DOMAIN v[2] |-> WriteOne(levels, v[2][i])], sep[1])
     ELSE WriteOne(levels, v)
=============================================================================
