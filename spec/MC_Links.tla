------------------------------- MODULE MC_Links -------------------------------
(* All documents of one table at 4 places, with 7 kinds of @base and 9 kinds of   *)
(* references.                                                                    *)
EXTENDS Links, Json
CONSTANTS Emit, All
VARIABLES doc
Places == {"http://h.org/m.json", "http://h.org/d/m.json", "http://h.org/d/e/m.json", "http://h.org/d/m.json?a=b/c"}
Bases == {<<>>, <<"sub/">>, <<"../">>, <<"/abs/">>, <<"x">>, <<"http://o.org/b/c">>, <<"//o.org/">>}
LRefs == {"t", "a/t", "../t", "./t", "/t", "//p.org/t", "http://q.org/z/t", "../../t", "t?v=1"}
LRefs2 == IF All THEN LRefs ELSE {"a/t", "../t", "http://q.org/z/t"}
With(r, suffix) == C(r) \o C(suffix)
Init == doc = [md |-> <<>>, ctx |-> <<>>, tables |-> <<>>, dialect |-> <<>>]
Where == /\ doc.md = <<>>
         /\ \E p \in Places : \E b \in Bases : doc' = [doc EXCEPT !.md = C(p), !.ctx = [i \in DOMAIN b |-> C(b[i])]]
What == /\ doc.md # <<>> /\ doc.tables = <<>>
        /\ \E r \in LRefs : \E r2 \in LRefs2 : \E k \in 0..2 :
             doc' = [doc EXCEPT
                     !.tables = <<[url |-> With(r, ".csv"),
                                   schema |-> IF k = 1 THEN <<With(r2, ".schema.json")>> ELSE <<>>,
                                   dialect |-> IF k = 2 THEN <<With(r2, "semi.json")>> ELSE <<>>]>>,
                     !.dialect = IF k = 0 THEN <<With(r2, "semi.json")>> ELSE <<>>]
        /\ Emit => PrintT(<<"GEN", ToJson(doc')>>)
Next == Where \/ What
Spec == Init /\ [][Next]_doc
On == doc.tables # <<>>
AbsoluteLinks == On => /\ \A u \in Fetched(doc) : IsUrl(u) /\ Resolve(C("http://elsewhere.net/a/b"), u) = u
                  /\ IsUrl(TableUrl(doc, 1))
\* the same links if the document says what its base is
Rebased == On => LET d == [doc EXCEPT !.ctx = <<Base(doc)>>]
                 IN /\ TableUrl(d, 1) = TableUrl(doc, 1)
                    /\ TableUrl([d EXCEPT !.md = C("http://elsewhere.net/a/b")], 1) = TableUrl(doc, 1)
                    /\ DialectUrl(d, 1) = DialectUrl(doc, 1) /\ SchemaUrl(d, 1) = SchemaUrl(doc, 1)
\* or if the links are absolute
MadeAbsolute == On => LET d == [doc EXCEPT !.tables[1].url = TableUrl(doc, 1), !.ctx = <<>>] IN TableUrl(d, 1) = TableUrl(doc, 1)
\* queries of the location do not matter
NoQueries == On /\ doc.md = C("http://h.org/d/m.json?a=b/c") => TableUrl([doc EXCEPT !.md = C("http://h.org/d/m.json")], 1) = TableUrl(doc, 1)
\* without dots, everything lies beside or below
Below == (On /\ doc.ctx = <<>> /\ doc.tables[1].url \in {C("t.csv"), C("a/t.csv"), C("./t.csv")})
         => LET c == Comp(NoQuery(doc.md)) IN StartsWith(TableUrl(doc, 1), Recompose([c EXCEPT !.path = Take(c.path, LastSlash(c.path))]))
=============================================================================
