------------------------------- MODULE MC_Locate -------------------------------
(* All worlds of a link, a site-wide configuration and three places for metadata: *)
(* the search as a sequence of steps.                                             *)
EXTENDS Locate, Json, TLC
CONSTANTS Emit
VARIABLES w, st
Url == C("http://h.org/a/b.csv")
LinkTo == C("http://h.org/m/x.json")
Pg(u, k, refs, mark) == [u |-> u, k |-> k, refs |-> refs, grp |-> FALSE, ctx |-> TRUE, mark |-> mark, hd |-> <<>>]
KindAt(u, k, mark, ref) == CASE k = "none" -> <<>>
                       [] k = "yes" -> <<Pg(u, "md", <<ref>>, mark)>>
                       [] k = "no" -> <<Pg(u, "md", <<C("other.csv")>>, mark)>>
                       [] OTHER -> <<Pg(u, k, <<>>, mark)>>
Kinds == {"none", "yes", "no", "other", "json", "broken"}
Links == {<<>>, <<[ref |-> C("../m/x.json"), type |-> <<C("application/csvm+json")>>]>>, <<[ref |-> C("/m/x.json"), type |-> <<C("text/html")>>]>>,
          <<[ref |-> LinkTo, type |-> <<>>]>>}
SiteSet == {<<>>, << << << <<"lit", C("csv-metadata.json")>> >>, <<>>, << <<"lit", C("/m/x.json")>> >>,
                      << <<"ex", 43, <<[n |-> C("url"), x |-> FALSE, p |-> 0]>> >>, <<"lit", C("-metadata.json")>> >> >> >>}
Init == /\ st = Start0
        /\ w \in {[url |-> Url, over |-> <<>>, link |-> l, site |-> s, absent |-> a, lines |-> 3, pages |-> <<Pg(Url, "csv", <<>>, <<>>)>>] : l \in Links, s \in SiteSet, a \in BOOLEAN}
\* (the pages are chosen first)
Pages(k1, k2, k3) == <<Pg(Url, "csv", <<>>, <<>>)>> \o KindAt(LinkTo, k1, C("link"), C("/a/b.csv")) \o KindAt(Url \o C("-metadata.json"), k2, C("one"), C("b.csv"))
                     \o KindAt(C("http://h.org/a/csv-metadata.json"), k3, C("two"), Url)
Choose == /\ st = Start0 /\ Len(w.pages) = 1
          /\ \E k1, k2, k3 \in Kinds : /\ w' = [w EXCEPT !.pages = Pages(k1, k2, k3)]
                                       /\ Emit => PrintT(<<"GEN", ToJson(w')>>)
          /\ st' = [st EXCEPT !.stage = "given"]
Step == /\ st.stage # "done"
        /\ st' = LocateStep(w, st)
        /\ UNCHANGED w
Next == Choose \/ Step

\* closed form: the first candidate describing the file
First(cs) == LET is == {i \in DOMAIN cs : Describes(Page(w, cs[i][2]), w.url)}
             IN IF is = {} THEN <<>> ELSE <<CHOOSE i \in is : \A j \in is : i <= j>>
Correct ==
  st.stage = "done" =>
    LET cs == Candidates(w) f == First(cs)
    IN /\ st.found = (IF f = <<>> THEN <<>> ELSE <<cs[f[1]][2]>>)
       /\ st.found # <<>> => Describes(Page(w, st.found[1]), w.url)
       \* there is a warning exactly if something said to be metadata was met before and is not
       /\ st.warned = \E i \in DOMAIN cs : (f = <<>> \/ i < f[1]) /\ (Page(w, cs[i][2]).k \in {"md", "other", "json"} \/ cs[i][1] = "link")
       /\ Outcome(w).k = "ok"
\* a file is never taken for another one
Sound == (st.stage = "done" /\ st.found # <<>>) => Outcome(w).urls = <<w.url>>
Term == st.n <= 6
=============================================================================
