-------------------------------- MODULE Text --------------------------------
(* Text is a sequence of Unicode code points (integers).  TLA+ strings are    *)
(* used only for tags, never for data.                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Functions

TRange(s) == {s[i] : i \in DOMAIN s}
Iota(n) == [i \in 1..n |-> i]

\* ---- literals: C("abc") is the text abc ------------------------------------
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharCode == [ch \in {SubSeq(Ascii, i, i) : i \in 1..95} |-> 31 + CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = ch]
C(str) == [i \in 1..Len(str) |-> CharCode[SubSeq(str, i, i)]]

\* ---- characters -----------------------------------------------------------
LF == 10
CR == 13
SP == 32
IsDigit(c) == c >= 48 /\ c <= 57
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsNL(c) == c = LF \/ c = CR
\* what Python's str.strip() removes
IsSpace(c) == (c >= 9 /\ c <= 13) \/ (c >= 28 /\ c <= 32) \/ c = 133 \/ c = 160
              \/ c = 5760 \/ (c >= 8192 /\ c <= 8202) \/ c = 8232 \/ c = 8233
              \/ c = 8239 \/ c = 8287 \/ c = 12288
Lower(s) == [i \in DOMAIN s |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
\* letters without their accents (of the Latin letters used here)
Accents == [x \in {192, 193, 196, 197, 199, 200, 201, 209, 211, 214, 220, 224, 225, 228, 229, 231, 232, 233, 241, 243, 246, 252, 353} |->
              CASE x \in {192, 193, 196, 197} -> 65 [] x = 199 -> 67 [] x \in {200, 201} -> 69 [] x = 209 -> 78 [] x \in {211, 214} -> 79 [] x = 220 -> 85
                [] x \in {224, 225, 228, 229} -> 97 [] x = 231 -> 99 [] x \in {232, 233} -> 101 [] x = 241 -> 110 [] x \in {243, 246} -> 111 [] x = 252 -> 117 [] x = 353 -> 115]
Unaccented(s) == [i \in DOMAIN s |-> IF s[i] \in DOMAIN Accents THEN Accents[s[i]] ELSE s[i]]
Upper(s) == [i \in DOMAIN s |-> IF s[i] >= 97 /\ s[i] <= 122 THEN s[i] - 32 ELSE s[i]]

\* ---- strings --------------------------------------------------------------
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
HasChar(s, c) == \E i \in DOMAIN s : s[i] = c
Count(s, c) == Cardinality({i \in DOMAIN s : s[i] = c})
CatAll(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)
Join(ss, sep) == IF ss = <<>> THEN <<>>
                 ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, ss[1], Tail(ss))
LStripIf(s, P(_)) ==
  LET bad == {i \in DOMAIN s : ~P(s[i])}
  IN IF bad = {} THEN <<>> ELSE Drop(s, (CHOOSE i \in bad : \A j \in bad : i <= j) - 1)
RStripIf(s, P(_)) ==
  LET bad == {i \in DOMAIN s : ~P(s[i])}
  IN IF bad = {} THEN <<>> ELSE Take(s, CHOOSE i \in bad : \A j \in bad : i >= j)
LStrip(s) == LStripIf(s, IsSpace)
RStrip(s) == RStripIf(s, IsSpace)
Strip(s) == LStrip(RStrip(s))

\* index (1-based) of the first occurrence of p at or after i, 0 if none
RECURSIVE FindFrom(_, _, _)
FindFrom(s, p, i) ==
  IF i + Len(p) - 1 > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i + Len(p) - 1) = p THEN i ELSE FindFrom(s, p, i + 1)
HasSub(s, p) == FindFrom(s, p, 1) # 0

\* Python's s.split(sep) for a non-empty sep
RECURSIVE SplitR(_, _, _, _)
SplitR(s, sep, from, acc) ==
  LET i == FindFrom(s, sep, from)
  IN IF i = 0 THEN Append(acc, Drop(s, from - 1))
     ELSE SplitR(s, sep, i + Len(sep), Append(acc, SubSeq(s, from, i - 1)))
Split(s, sep) == SplitR(s, sep, 1, <<>>)
\* Python's s.replace(a, b) for a non-empty a
Replace(s, a, b) == Join(Split(s, a), b)
DropChars(s, cs) == SelectSeq(s, LAMBDA c : c \notin cs)

\* ---- decimal digits of naturals -------------------------------------------
RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))
AllDigits(s) == s # <<>> /\ \A i \in DOMAIN s : IsDigit(s[i])
\* value of a short (<= 9 digits) digit string
NatVal(s) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, s)
Pad(s, n, c) == IF Len(s) >= n THEN s ELSE [i \in 1..(n - Len(s)) |-> c] \o s
=============================================================================
