----------------------------- MODULE MC_Markdown ------------------------------
(* Small groups: every table, column and property is described exactly once, in  *)
(* order, and references lead to the tables referred to.                        *)
EXTENDS Markdown, Json
VARIABLES col, lvls, ref, pk, pc
vars == <<col, lvls, ref, pk, pc>>

Dt(b, lo) == [base |-> b, f |-> [k |-> "none"], length |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>,
              bounds |-> IF lo = <<>> THEN <<>> ELSE << <<"minimum", lo[1], FALSE>> >>]
Raw(x) == [Dt("string", <<>>) EXCEPT !.f = [k |-> "raw", x |-> x]]
Datatypes == {<<>>, <<Dt("integer", <<>>)>>, <<Dt("integer", <<C("0")>>)>>, <<Raw(C("a|b"))>>, <<Raw(C("[ab]"))>>}
Seps == {<<>>, <<C(";")>>}
Plain1(n) == [name |-> n, titles |-> <<>>, purl |-> <<>>, virtual |-> FALSE, vurl |-> <<>>, lv |-> NoLevel, descr |-> <<>>, fmtx |-> <<>>]
Texts == {<<>>, <<C("x")>>, <<C("a b")>>}
TextV(x) == IF x = <<>> THEN <<>> ELSE << <<"s", x[1]>> >>
Dia == [csvw |-> TRUE, delim |-> 44, quote |-> 34, dbl |-> TRUE, comment |-> <<>>, skipRows |-> 0, skipCols |-> 0, skipBlank |-> FALSE,
        skipsp |-> FALSE, trim |-> "false", header |-> TRUE, lt |-> <<13, 10>>, u8 |-> TRUE, enc |-> "utf-8"]
Fx(c, ls) == LET d == DatatypeOf(ls \o <<c.lv>>) IN IF d # <<>> /\ d[1].f.k = "raw" THEN <<d[1].f.x>> ELSE <<>>
Md(cols, p) == [cols |-> [i \in DOMAIN cols |-> [cols[i] EXCEPT !.fmtx = Fx(cols[i], lvls)]], levels |-> lvls, d |-> Dia, pk |-> p]
Init == /\ col = Plain1(<<C("a")>>) /\ lvls = <<NoLevel, NoLevel, NoLevel>> /\ ref = 0 /\ pk = FALSE /\ pc = "column"
Column == /\ pc = "column"
          /\ \E dt \in Datatypes, s \in Seps, t \in Texts, u \in {<<>>, <<C("http://example.org/p")>>}, n \in {<<>>, <<C("a")>>} :
               col' = [col EXCEPT !.lv.datatype = dt, !.lv.separator = s, !.descr = TextV(t), !.purl = u, !.name = n]
          /\ pc' = "rest" /\ UNCHANGED <<lvls, ref, pk>>
Rest == /\ pc = "rest"
        /\ \E r \in 0..2, p \in BOOLEAN, dt \in {<<>>, <<Dt("decimal", <<>>)>>}, i \in 1..3 :
             /\ ref' = r /\ pk' = (p /\ col.name # <<>>)
             /\ lvls' = [lvls EXCEPT ![i].datatype = dt]
        /\ pc' = "emit" /\ UNCHANGED col
G == LET tab(n, md, ps) == [url |-> n, there |-> TRUE, props |-> ps, dia |-> FALSE, md |-> md]
     IN [props |-> << <<C("dc:title"), <<"s", C("T")>> >>, <<C("dc:x"), <<"n">> >>, <<C("rdf:y"), <<"s", C("z")>> >> >>,
         tabs |-> <<tab(C("One.csv"), Md(<<col, Plain1(<<C("b")>>)>>, IF pk THEN <<C("a")>> ELSE <<>>), <<>>),
                    tab(C("s/two.csv"), Md(<<Plain1(<<C("k")>>)>>, <<>>), << <<C("dc:description"), <<"s", C("d")>> >> >>)>>,
         fks |-> IF ref = 0 \/ col.name = <<>> THEN <<>>
                 ELSE <<[t |-> 1, cols |-> <<C("a")>>, rt |-> ref, rcols |-> <<IF ref = 1 THEN C("b") ELSE C("k")>>, rurl |-> IF ref = 1 THEN C("One.csv") ELSE C("s/two.csv")]>>]
Emit == /\ pc = "emit" /\ pc' = "done" /\ UNCHANGED <<col, lvls, ref, pk>>
        /\ PrintT(<<"GEN", ToJson(G)>>)
Next == Column \/ Rest \/ Emit
Spec == Init /\ [][Next]_vars
M == Markdown(G, <<C("md.json")>>, TRUE)
Complete == pc = "done" =>
  /\ Len(M.tabs) = 2 /\ \A t \in 1..2 : /\ M.tabs[t].url = G.tabs[t].url
                                         /\ [i \in DOMAIN M.tabs[t].cols |-> M.tabs[t].cols[i].name] = [i \in DOMAIN G.tabs[t].md.cols |-> HeaderOf(G.tabs[t].md, i)]
  /\ M.title = C("T") /\ Len(M.props.rows) = 1 /\ M.tabs[2].props.desc = C("d")
\* a reference names a table and leads to it
Leads == pc = "done" => \A t \in DOMAIN M.tabs : \A i \in DOMAIN M.tabs[t].cols :
  LET d == M.tabs[t].cols[i].desc
  IN HasSub(d, C("](#")) <=> \E k \in DOMAIN G.fks : /\ G.fks[k].t = t /\ G.fks[k].cols = <<M.tabs[t].cols[i].name>>
                                                     /\ EndsWith(d, C("](#") \o M.tabs[G.fks[k].rt].anchor \o C(")"))
Distinct == pc = "done" => M.tabs[1].anchor # M.tabs[2].anchor
=============================================================================
