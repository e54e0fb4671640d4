--------------------------------- MODULE Num ---------------------------------
(* Exact decimal numbers: [neg, d, e] stands for (-1)^neg * d * 10^e, where d  *)
(* is a sequence of decimal digits.  (TLC's integers have 32 bits.)           *)
EXTENDS Text

NStrip(d) == LStripIf(d, LAMBDA x : x = 0)            \* leading zeros
TrailZ(d) == Len(d) - Len(RStripIf(d, LAMBDA x : x = 0))
NumN(neg, d, e) ==                                     \* canonical form
  LET a == NStrip(d)
      z == TrailZ(a)
  IN IF a = <<>> THEN [neg |-> FALSE, d |-> <<>>, e |-> 0]
     ELSE [neg |-> neg, d |-> Take(a, Len(a) - z), e |-> e + z]
Zeros(n) == [i \in 1..(IF n > 0 THEN n ELSE 0) |-> 0]
Neg(n) == [n EXCEPT !.neg = ~n.neg /\ n.d # <<>>]
Scale(n, k) == IF n.d = <<>> THEN n ELSE [n EXCEPT !.e = @ + k]

\* digit sequences of equal length, most significant first
RECURSIVE LexCmp(_, _)
LexCmp(a, b) == IF a = <<>> THEN 0
                ELSE IF a[1] < b[1] THEN -1
                ELSE IF a[1] > b[1] THEN 1
                ELSE LexCmp(Tail(a), Tail(b))
AbsCmp(a, b) ==
  LET ma == Len(a.d) + a.e      \* position of the most significant digit
      mb == Len(b.d) + b.e
      n == MaxI(Len(a.d), Len(b.d))
  IN IF a.d = <<>> /\ b.d = <<>> THEN 0
     ELSE IF a.d = <<>> THEN -1
     ELSE IF b.d = <<>> THEN 1
     ELSE IF ma # mb THEN (IF ma < mb THEN -1 ELSE 1)
     ELSE LexCmp(a.d \o Zeros(n - Len(a.d)), b.d \o Zeros(n - Len(b.d)))
\* for canonical numbers: -1, 0, 1
Cmp(a, b) == IF a.neg # b.neg THEN (IF a.neg THEN -1 ELSE 1)
             ELSE IF a.neg THEN -AbsCmp(a, b) ELSE AbsCmp(a, b)
IsInt(n) == n.e >= 0

\* add one to a digit sequence
RECURSIVE IncD(_)
IncD(d) == IF d = <<>> THEN <<1>>
           ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1]
           ELSE Append(IncD(Take(d, Len(d) - 1)), 0)
\* round (half to even) to k decimal places; the result is the digit sequence of the
\* absolute value scaled by 10^k
RoundD(n, k) ==
  LET shift == n.e + k
      all == n.d
      keep == Len(all) + shift
  IN IF n.d = <<>> THEN <<>>
     ELSE IF shift >= 0 THEN all \o Zeros(shift)
     ELSE IF keep < 0 THEN <<>>
     ELSE LET hd == Take(all, keep)
              rest == Drop(all, keep)
              half == [i \in 1..Len(rest) |-> IF i = 1 THEN 5 ELSE 0]
              c == LexCmp(rest, half)
              odd == hd # <<>> /\ (hd[Len(hd)] % 2) = 1
          IN NStrip(IF c > 0 \/ (c = 0 /\ odd) THEN IncD(hd) ELSE hd)

\* ---- text ------------------------------------------------------------------
DigitsOf(cps) == [i \in DOMAIN cps |-> cps[i] - 48]
CpsOf(d) == [i \in DOMAIN d |-> d[i] + 48]
NoNum == [ok |-> FALSE, n |-> [neg |-> FALSE, d |-> <<>>, e |-> 0]]
Plus == 43
Minus == 45
Dot == 46
Comma == 44
Signed(t) == t # <<>> /\ t[1] \in {Plus, Minus}
\* [+-]? digits* (. digits*)?  with at least one digit
ParsePlain(t) ==
  LET neg == t # <<>> /\ t[1] = Minus
      b == IF Signed(t) THEN Tail(t) ELSE t
      p == FindFrom(b, <<Dot>>, 1)
      ip == IF p = 0 THEN b ELSE Take(b, p - 1)
      fp == IF p = 0 THEN <<>> ELSE Drop(b, p)
  IN IF (ip = <<>> /\ fp = <<>>) \/ (\E i \in DOMAIN ip : ~IsDigit(ip[i])) \/ (\E i \in DOMAIN fp : ~IsDigit(fp[i]))
     THEN NoNum
     ELSE [ok |-> TRUE, n |-> NumN(neg, DigitsOf(ip \o fp), -Len(fp))]
\* with an optional exponent
ParseSci(t) ==
  LET es == {i \in DOMAIN t : t[i] \in {69, 101}}
  IN IF es = {} THEN ParsePlain(t)
     ELSE LET i == CHOOSE i \in es : \A j \in es : i <= j
              m == ParsePlain(Take(t, i - 1))
              x == Drop(t, i)
              xd == IF Signed(x) THEN Tail(x) ELSE x
          IN IF ~m.ok \/ ~AllDigits(xd) \/ Len(xd) > 6 THEN NoNum
             ELSE [ok |-> TRUE, n |-> Scale(m.n, IF x[1] = Minus THEN -NatVal(xd) ELSE NatVal(xd))]

\* split digits d (scaled by 10^-f) into integer part and f fraction digits
IntPart(d, f) == IF Len(d) > f THEN Take(d, Len(d) - f) ELSE <<>>
FracPart(d, f) == LET p == Zeros(f - Len(d)) \o d IN Drop(p, Len(p) - f)
Grouped(ip, p1, p2, sep) ==      \* ip: code points of digits
  LET n == Len(ip)
      \* positions (counted from the right) after which a separator goes
      isCut(k) == k = p1 \/ (k > p1 /\ ((k - p1) % p2) = 0)
  IN CatAll([i \in DOMAIN ip |-> IF i > 1 /\ isCut(n - i + 1) THEN <<sep, ip[i]>> ELSE <<ip[i]>>])
\* positional notation of a number given with its exact exponent, as str(Decimal)
\* without scientific notation
Positional(neg, d, e, grp) ==
  LET full == IF e > 0 THEN d \o Zeros(e) ELSE d
      f == IF e < 0 THEN -e ELSE 0
      s == NStrip(IntPart(full, f))
      ip == IF s = <<>> THEN <<48>> ELSE CpsOf(s)
      gp == IF grp THEN Grouped(ip, 3, 3, Comma) ELSE ip
  IN (IF neg THEN <<Minus>> ELSE <<>>) \o gp \o (IF f > 0 THEN <<Dot>> \o CpsOf(FracPart(full, f)) ELSE <<>>)
\* repr() of a float with shortest digits n (canonical)
FloatText(n) ==
  LET k == Len(n.d) + n.e
      sgn == IF n.neg THEN <<Minus>> ELSE <<>>
      x == k - 1
  IN IF n.d = <<>> THEN sgn \o <<48, Dot, 48>>
     ELSE IF -4 < k /\ k <= 16
     THEN LET t == Positional(FALSE, n.d, n.e, FALSE)
          IN sgn \o t \o (IF n.e >= 0 THEN <<Dot, 48>> ELSE <<>>)
     ELSE sgn \o <<n.d[1] + 48>> \o (IF Len(n.d) > 1 THEN <<Dot>> \o CpsOf(Tail(n.d)) ELSE <<>>)
          \o <<101, IF x < 0 THEN Minus ELSE Plus>> \o Pad(NatText(IF x < 0 THEN -x ELSE x), 2, 48)
=============================================================================
