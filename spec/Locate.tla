-------------------------------- MODULE Locate --------------------------------
(* Locating the metadata of a CSV file: overriding metadata, a link header,      *)
(* site-wide or default locations, the file itself (CSV on the Web: model for    *)
(* tabular data, section 5).                                                     *)
(* A world: [url, over, link, site, pages, absent]; a page of the web (or a      *)
(* local file): [u |-> url, k, refs, grp, ctx, mark, hd], k "csv", "md",  *)
(* "other" (an object), "json" (JSON, no object) or "broken" (no JSON), refs the *)
(* references of a description to tables.                                        *)
EXTENDS Uri

Page(w, u) == LET is == {i \in DOMAIN w.pages : w.pages[i].u = u}
              IN IF is = {} THEN [u |-> u, k |-> "none", refs |-> <<>>, grp |-> FALSE, ctx |-> FALSE, mark |-> <<>>, hd |-> <<>>]
                 ELSE w.pages[CHOOSE i \in is : TRUE]
JsonTypes == {C("application/csvm+json"), C("application/ld+json"), C("application/json")}
Describes(p, url) == p.k = "md" /\ \E i \in DOMAIN p.refs : Resolve(p.u, p.refs[i]) = url
\* what is looked for, in order
DefaultSite == << << <<"ex", 43, <<[n |-> C("url"), x |-> FALSE, p |-> 0]>> >>, <<"lit", C("-metadata.json")>> >>,
                  << <<"lit", C("csv-metadata.json")>> >> >>
SiteLines(w) == IF w.site = <<>> THEN DefaultSite ELSE w.site[1]
Linked(w) == IF w.link # <<>> /\ w.link[1].type # <<>> /\ w.link[1].type[1] \in JsonTypes
             THEN << <<"link", Resolve(w.url, w.link[1].ref)>> >> ELSE <<>>
Sites(w) == LET ls == SelectSeq(SiteLines(w), LAMBDA l : l # <<>>)
            IN [i \in DOMAIN ls |-> <<"site", Resolve(w.url, Expand(ls[i], << <<C("url"), <<"s", w.url>> >> >>))>>]
IsWeb(w) == IsUrl(w.url)
LocalDefault(w) == << <<"local", w.url \o C("-metadata.json")>> >>
Candidates(w) == IF IsWeb(w) THEN Linked(w) \o Sites(w) ELSE LocalDefault(w)
\* what is given, or says itself that it is metadata
Given(w) == LET u == IF w.over = <<>> THEN w.url ELSE w.over[1] p == Page(w, u)
            IN IF p.k = "md" \/ (p.k = "other") THEN <<u>> ELSE <<>>
\* a candidate is taken, disregarded with a warning, or not there
Verdict(w, c) ==
  LET p == Page(w, c[2])
  IN IF c[1] = "local" THEN IF p.k = "none" THEN "absent" ELSE "taken"
     ELSE IF Describes(p, w.url) THEN "taken"
     ELSE IF p.k \in {"md", "other", "json"} THEN "foreign"
     ELSE IF c[1] = "link" THEN "foreign" ELSE "absent"

(* one step: state [stage, n, warned, found]                                     *)
Start0 == [stage |-> "given", n |-> 1, warned |-> FALSE, found |-> <<>>]
LocateStep(w, st) ==
  IF st.stage = "given" THEN IF Given(w) # <<>> THEN [st EXCEPT !.stage = "done", !.found = Given(w)] ELSE [st EXCEPT !.stage = "search"]
  ELSE LET cs == Candidates(w)
       IN IF st.n > Len(cs) THEN [st EXCEPT !.stage = "done"]
          ELSE CASE Verdict(w, cs[st.n]) = "taken" -> [st EXCEPT !.stage = "done", !.found = <<cs[st.n][2]>>]
                 [] Verdict(w, cs[st.n]) = "foreign" -> [st EXCEPT !.n = @ + 1, !.warned = TRUE]
                 [] Verdict(w, cs[st.n]) = "absent" -> [st EXCEPT !.n = @ + 1]
RECURSIVE Run(_, _)
Run(w, st) == IF st.stage = "done" THEN st ELSE Run(w, LocateStep(w, st))
Located(w) == Run(w, Start0)
(* what is known of the file then                                                *)
Outcome(w) ==
  LET l == Located(w)
      p == Page(w, l.found[1])
  IN IF l.found = <<>>
     THEN [k |-> "ok", mark |-> <<>>, urls |-> <<w.url>>, warned |-> l.warned, hd |-> ~(IsWeb(w) /\ w.absent), single |-> TRUE, none |-> TRUE]
     ELSE IF p.k = "other" \/ ~p.ctx \/ p.refs = <<>> THEN [k |-> "err"]
     ELSE [k |-> "ok", mark |-> p.mark, urls |-> [i \in DOMAIN p.refs |-> Resolve(p.u, p.refs[i])], warned |-> l.warned,
           hd |-> IF p.hd # <<>> THEN p.hd[1] ELSE ~(IsWeb(w) /\ w.absent /\ Given(w) = <<>>), single |-> ~p.grp, none |-> FALSE]
=============================================================================
