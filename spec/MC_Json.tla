-------------------------------- MODULE MC_Json --------------------------------
(* Small tables to be converted: what the object of a row consists of; and the   *)
(* examples of RFC 3986, section 5.4, for references.                            *)
EXTENDS Csv2Json, Json
CONSTANTS Emit
VARIABLES md, text
NoL == [null |-> <<>>, default |-> <<>>, required |-> <<>>, separator |-> <<>>, datatype |-> <<>>]
NoUri == [about |-> <<>>, prop |-> <<>>, value |-> <<>>]
Dt(b) == [base |-> b, f |-> [k |-> "none"], length |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>, bounds |-> <<>>]
Dia == [csvw |-> TRUE, delim |-> 44, quote |-> 34, dbl |-> TRUE, comment |-> <<35>>, skipRows |-> 0, skipCols |-> 0, skipBlank |-> FALSE,
        skipsp |-> FALSE, trim |-> "false", header |-> TRUE, lt |-> <<10>>, u8 |-> TRUE]
L(s) == <<"lit", C(s)>>
V(n) == <<"ex", 0, <<[n |-> C(n), x |-> FALSE, p |-> 0]>> >>
Props == {<<>>, << <<L("p")>> >>, << <<L("rdf:type")>> >>, << <<L("dc:"), V("_name")>> >>}
Values == {<<>>, << <<L("http://example.org/"), V("a")>> >>}
Lv(sep, b) == [NoL EXCEPT !.separator = IF sep THEN << <<124>> >> ELSE <<>>, !.datatype = IF b = "" THEN <<>> ELSE <<Dt(b)>>]
Col(n, p, v, supp, virt, lv) == [name |-> <<C(n)>>, titles |-> <<>>, purl |-> <<>>, virtual |-> virt, vurl |-> IF virt THEN v ELSE <<>>,
                                lv |-> lv, supp |-> supp, uris |-> [NoUri EXCEPT !.prop = p, !.value = v]]
Cols1 == {Col("a", p, <<>>, s, FALSE, Lv(sep, "")) : p \in Props, s \in BOOLEAN, sep \in BOOLEAN}
Cols2 == {Col("b", p, v, FALSE, FALSE, Lv(FALSE, b)) : p \in Props, v \in Values, b \in {"", "integer"}}
         \cup {Col("b", p, v, FALSE, TRUE, NoL) : p \in Props, v \in Values}
Abouts == {<<>>, << <<L("#"), V("_row")>> >>, << <<L("x/"), V("a")>> >>}
Md(c1, c2, a) == [cols |-> <<c1, c2>>, levels |-> <<NoL, NoL, NoL>>, d |-> Dia, pk |-> <<>>, uris |-> <<NoUri, NoUri, [NoUri EXCEPT !.about = a]>>,
                  loc |-> <<"url", C("http://example.org/dir/t1.csv")>>, supp |-> FALSE, props |-> <<>>, notes |-> <<>>, id |-> <<>>, titles |-> <<>>]
Text1(c1, c2) == (IF c2.virtual THEN C("a") ELSE C("a,b")) \o <<10>>
Rows(c1, c2) == {x \o (IF c2.virtual THEN <<>> ELSE <<44>> \o y) \o <<10>> : x \in {C("x"), C("1|1")}, y \in {<<>>, C("7")}} 
\* (in two steps, so that TLC shares the work)
Init == \E c1 \in Cols1, c2 \in Cols2 : md = Md(c1, c2, <<>>) /\ text = <<>>
Next == /\ text = <<>>
        /\ \E a \in Abouts : md' = [md EXCEPT !.uris[3].about = a]
        /\ LET t1 == Text1(md.cols[1], md.cols[2])
           IN text' \in {t1 \o x : x \in Rows(md.cols[1], md.cols[2])} \cup {t1}
        /\ Emit => PrintT(<<"GEN", ToJson([md |-> md', text |-> text'])>>)

AtomCount(seqs) == FoldLeft(LAMBDA a, s : a + Len(s), 0, seqs)
Small == text # <<>> =>
  LET rows == TLCEval(TableRead(md, text, "lenient").rows)
      sts == TLCEval([i \in DOMAIN rows |-> Statements(md, FALSE, rows[i].row, i)])
      obj(i) == OneObject(About(md, rows[i].row, i), sts[i])
  IN \A i \in DOMAIN rows :
       LET o == TLCEval(obj(i)) IN
       \* all that cells say, and no more, is in the object
       /\ AtomCount([j \in DOMAIN o.props |-> o.props[j].v]) = AtomCount([j \in DOMAIN sts[i] |-> Atoms(sts[i][j].v)])
       /\ \A j, k \in DOMAIN o.props : o.props[j].p = o.props[k].p => j = k
       \* a suppressed column says nothing, a virtual one with a URI always does
       /\ Len(sts[i]) <= (IF md.cols[1].supp THEN 0 ELSE 1) + 1
       /\ (md.cols[2].virtual /\ md.cols[2].uris.value # <<>>) => Len(sts[i]) >= 1
       /\ \A j \in DOMAIN sts[i] : sts[i][j].p # C("rdf:type")

Base == C("http://a/b/c/d;p?q")
Ref(r) == Resolve(Base, C(r))
ASSUME /\ Ref("g:h") = C("g:h") /\ Ref("g") = C("http://a/b/c/g") /\ Ref("./g") = C("http://a/b/c/g") /\ Ref("g/") = C("http://a/b/c/g/")
       /\ Ref("/g") = C("http://a/g") /\ Ref("//g") = C("http://g") /\ Ref("?y") = C("http://a/b/c/d;p?y") /\ Ref("g?y") = C("http://a/b/c/g?y")
       /\ Ref("#s") = C("http://a/b/c/d;p?q#s") /\ Ref("g#s") = C("http://a/b/c/g#s") /\ Ref("g?y#s") = C("http://a/b/c/g?y#s")
       /\ Ref(";x") = C("http://a/b/c/;x") /\ Ref("g;x") = C("http://a/b/c/g;x") /\ Ref("g;x?y#s") = C("http://a/b/c/g;x?y#s")
       /\ Ref("") = Base /\ Ref(".") = C("http://a/b/c/") /\ Ref("./") = C("http://a/b/c/") /\ Ref("..") = C("http://a/b/")
       /\ Ref("../") = C("http://a/b/") /\ Ref("../g") = C("http://a/b/g") /\ Ref("../..") = C("http://a/") /\ Ref("../../") = C("http://a/")
       /\ Ref("../../g") = C("http://a/g") /\ Ref("../../../g") = C("http://a/g") /\ Ref("../../../../g") = C("http://a/g")
       /\ Ref("/./g") = C("http://a/g") /\ Ref("/../g") = C("http://a/g") /\ Ref("g.") = C("http://a/b/c/g.") /\ Ref("..g") = C("http://a/b/c/..g")
       /\ Ref("./../g") = C("http://a/b/g") /\ Ref("./g/.") = C("http://a/b/c/g/") /\ Ref("g/./h") = C("http://a/b/c/g/h")
       /\ Ref("g/../h") = C("http://a/b/c/h") /\ Ref("g;x=1/./y") = C("http://a/b/c/g;x=1/y") /\ Ref("g;x=1/../y") = C("http://a/b/c/y")
       /\ Ref("g?y/./x") = C("http://a/b/c/g?y/./x") /\ Ref("g#s/../x") = C("http://a/b/c/g#s/../x")
=============================================================================
