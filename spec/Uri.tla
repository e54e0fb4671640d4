--------------------------------- MODULE Uri ---------------------------------
(* URI templates (RFC 6570, up to level 4 without maps) and the resolution of  *)
(* references (RFC 3986, section 5).                                           *)
EXTENDS Text

\* ---- percent-encoding ------------------------------------------------------
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
UHex == C("0123456789ABCDEF")
Pct(b) == <<37, UHex[(b \div 16) + 1], UHex[(b % 16) + 1]>>
Unreserved(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {45, 46, 95, 126}
ReservedSet == TRange(C(":/?#[]@!$&'()*+,;="))
PctChar(c) == LET bs == Utf8(c) IN CatAll([i \in DOMAIN bs |-> Pct(bs[i])])
Encode(s, reserved) ==
  CatAll([i \in DOMAIN s |-> IF Unreserved(s[i]) \/ (reserved /\ s[i] \in ReservedSet) THEN <<s[i]>> ELSE PctChar(s[i])])

\* ---- templates -------------------------------------------------------------
(* an invalid template (no text) is << <<"bad", value>> >> and expands to nothing  *)
(* a template is a sequence of <<"lit", text>> and <<"ex", op, vars>>, op a      *)
(* character or 0, vars a sequence of [n |-> name, x |-> explode, p |-> prefix]; *)
(* bindings are a sequence of <<name, value>>, a value being undefined <<>>,     *)
(* <<"s", text>> or <<"l", texts>>                                               *)
OpRow(op) ==
  CASE op = 0  -> [first |-> <<>>, sep |-> <<44>>, named |-> FALSE, ifemp |-> <<>>, res |-> FALSE]
    [] op = 43 -> [first |-> <<>>, sep |-> <<44>>, named |-> FALSE, ifemp |-> <<>>, res |-> TRUE]
    [] op = 35 -> [first |-> <<35>>, sep |-> <<44>>, named |-> FALSE, ifemp |-> <<>>, res |-> TRUE]
    [] op = 46 -> [first |-> <<46>>, sep |-> <<46>>, named |-> FALSE, ifemp |-> <<>>, res |-> FALSE]
    [] op = 47 -> [first |-> <<47>>, sep |-> <<47>>, named |-> FALSE, ifemp |-> <<>>, res |-> FALSE]
    [] op = 59 -> [first |-> <<59>>, sep |-> <<59>>, named |-> TRUE, ifemp |-> <<>>, res |-> FALSE]
    [] op = 63 -> [first |-> <<63>>, sep |-> <<38>>, named |-> TRUE, ifemp |-> <<61>>, res |-> FALSE]
    [] op = 38 -> [first |-> <<38>>, sep |-> <<38>>, named |-> TRUE, ifemp |-> <<61>>, res |-> FALSE]
Binding(bs, name) ==
  LET is == {i \in DOMAIN bs : bs[i][1] = name}
  IN IF is = {} THEN <<>> ELSE bs[CHOOSE i \in is : \A j \in is : i >= j][2]
Defined(v) == v # <<>> /\ ~(v[1] = "l" /\ v[2] = <<>>)
Named(r, name, t) == IF ~r.named THEN t ELSE name \o (IF t = <<>> THEN r.ifemp ELSE <<61>> \o t)
ExpandVar(r, var, v) ==
  IF v[1] = "s"
  THEN LET t == IF var.p > 0 /\ var.p < Len(v[2]) THEN Take(v[2], var.p) ELSE v[2]
       IN Named(r, var.n, Encode(t, r.res))
  ELSE LET ts == [i \in DOMAIN v[2] |-> Encode(v[2][i], r.res)]
       IN IF var.x THEN Join([i \in DOMAIN ts |-> Named(r, var.n, ts[i])], r.sep)
          ELSE Named(r, var.n, Join(ts, <<44>>))
ExpandToken(tok, bs) ==
  IF tok[1] = "lit" THEN tok[2] ELSE IF tok[1] = "bad" THEN <<>>
  ELSE LET r == OpRow(tok[2])
           vars == SelectSeq(tok[3], LAMBDA x : Defined(Binding(bs, x.n)))
       IN IF vars = <<>> THEN <<>>
          ELSE r.first \o Join([i \in DOMAIN vars |-> ExpandVar(r, vars[i], Binding(bs, vars[i].n))], r.sep)
Expand(tmpl, bs) == CatAll([i \in DOMAIN tmpl |-> ExpandToken(tmpl[i], bs)])
TemplateVars(tmpl) == UNION {IF tmpl[i][1] # "ex" THEN {} ELSE {tmpl[i][3][j].n : j \in DOMAIN tmpl[i][3]} : i \in DOMAIN tmpl}
TemplateText(tmpl) ==
  CatAll([i \in DOMAIN tmpl |->
    IF tmpl[i][1] = "lit" THEN tmpl[i][2] ELSE IF tmpl[i][1] = "bad" THEN <<>>
    ELSE <<123>> \o (IF tmpl[i][2] = 0 THEN <<>> ELSE <<tmpl[i][2]>>)
         \o Join([j \in DOMAIN tmpl[i][3] |-> LET x == tmpl[i][3][j] IN
                    x.n \o (IF x.p > 0 THEN <<58>> \o NatText(x.p) ELSE <<>>) \o (IF x.x THEN <<42>> ELSE <<>>)], <<44>>)
         \o <<125>>])

\* ---- references ------------------------------------------------------------
\* components: each <<>> (absent) or <<text>>, the path a text
SchemeChar(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {43, 45, 46}
Comp(u) ==
  LET h == FindFrom(u, <<35>>, 1)
      u1 == IF h = 0 THEN u ELSE Take(u, h - 1)
      q == FindFrom(u1, <<63>>, 1)
      u2 == IF q = 0 THEN u1 ELSE Take(u1, q - 1)
      c == FindFrom(u2, <<58>>, 1)
      hass == c > 1 /\ IsAlpha(u2[1]) /\ \A i \in 1..(c - 1) : SchemeChar(u2[i])
      u3 == IF hass THEN Drop(u2, c) ELSE u2
      hasa == StartsWith(u3, <<47, 47>>)
      u4 == Drop(u3, 2)
      s == FindFrom(u4, <<47>>, 1)
      auth == IF s = 0 THEN u4 ELSE Take(u4, s - 1)
  IN [scheme |-> IF hass THEN <<Lower(Take(u2, c - 1))>> ELSE <<>>,
      auth |-> IF hasa THEN <<auth>> ELSE <<>>,
      path |-> IF ~hasa THEN u3 ELSE IF s = 0 THEN <<>> ELSE Drop(u4, s - 1),
      query |-> IF q = 0 THEN <<>> ELSE <<Drop(u1, q)>>,
      frag |-> IF h = 0 THEN <<>> ELSE <<Drop(u, h)>>]
Recompose(c) ==
  (IF c.scheme = <<>> THEN <<>> ELSE c.scheme[1] \o <<58>>)
  \o (IF c.auth = <<>> THEN <<>> ELSE <<47, 47>> \o c.auth[1]) \o c.path
  \o (IF c.query = <<>> THEN <<>> ELSE <<63>> \o c.query[1])
  \o (IF c.frag = <<>> THEN <<>> ELSE <<35>> \o c.frag[1])
\* segments without . and ..
RECURSIVE DotsR(_, _)
DotsR(segs, acc) ==
  IF segs = <<>> THEN acc
  ELSE LET s == segs[1]
           last == Len(segs) = 1
           up == IF acc = <<>> THEN <<>> ELSE Take(acc, Len(acc) - 1)
       IN IF s = <<46>> THEN DotsR(Tail(segs), IF last THEN Append(acc, <<>>) ELSE acc)
          ELSE IF s = <<46, 46>> THEN DotsR(Tail(segs), IF last THEN Append(up, <<>>) ELSE up)
          ELSE DotsR(Tail(segs), Append(acc, s))
RemoveDots(p) == IF p = <<>> THEN p
                 ELSE IF p[1] = 47 THEN <<47>> \o Join(DotsR(Split(Tail(p), <<47>>), <<>>), <<47>>)
                 ELSE Join(DotsR(Split(p, <<47>>), <<>>), <<47>>)
LastSlash(p) == LET is == {i \in DOMAIN p : p[i] = 47} IN IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : i >= j
Merge(b, p) == IF b.auth # <<>> /\ b.path = <<>> THEN <<47>> \o p ELSE Take(b.path, LastSlash(b.path)) \o p
Resolve(base, ref) ==
  LET b == Comp(base)
      r == Comp(ref)
  IN IF ref = <<>> THEN base
     ELSE IF r.scheme # <<>> THEN ref
     ELSE IF r.auth # <<>> THEN Recompose([r EXCEPT !.scheme = b.scheme])
     ELSE IF r.path = <<>> THEN Recompose([b EXCEPT !.query = IF r.query # <<>> THEN r.query ELSE @, !.frag = r.frag])
     ELSE Recompose([b EXCEPT !.path = RemoveDots(IF r.path[1] = 47 THEN r.path ELSE Merge(b, r.path)),
                              !.query = r.query, !.frag = r.frag])
IsUrl(u) == StartsWith(u, C("http://")) \/ StartsWith(u, C("https://"))
=============================================================================
