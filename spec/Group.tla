-------------------------------- MODULE Group --------------------------------
(* Table groups, their data and their metadata in several directories: reading, *)
(* writing here or elsewhere, copying, loading.  The state:                     *)
(*   mds     the tables (see Table)                                             *)
(*   nested  for each table, whether its file is in a subdirectory              *)
(*   dirs    sequence of [made, subs, md, files]: whether the directory and     *)
(*           its subdirectory exist, whether there is a metadata document, the  *)
(*           files [plain, zip] of the tables, each <<>> or <<text>>            *)
(*   objs    for each table group object the directory it belongs to            *)
EXTENDS Table
UsedFile(f) == IF f.plain # <<>> THEN f.plain ELSE f.zip
CanHold(stt, dn, t) == stt.dirs[dn].made /\ (stt.nested[t] => stt.dirs[dn].subs)
Rendered(md, items, strict) ==
  IF strict /\ \E i \in DOMAIN items : Surplus(md, items[i]) THEN [ok |-> FALSE, text |-> <<>>] ELSE TableText(md, items)
StoredAs(f, text, zipped) == IF zipped THEN [plain |-> <<>>, zip |-> <<text>>] ELSE [f EXCEPT !.plain = <<text>>]

(* Each operation gives the state and k: "ok", "err" (rows refused) or          *)
(* "missing" (files or directories)                                             *)
PutTable(stt, dn, t, items, zipped, strict) ==
  LET w == TLCEval(Rendered(stt.mds[t], items, strict))
  IN IF ~CanHold(stt, dn, t) THEN [st |-> stt, k |-> "missing"]
     ELSE IF ~w.ok THEN [st |-> stt, k |-> "err"]
     ELSE [st |-> [stt EXCEPT !.dirs[dn].files[t] = StoredAs(@, w.text, zipped)], k |-> "ok"]
PutGroup(stt, dn, tabs, zipped, strict) ==
  LET step(a, i) == IF a.k # "ok" THEN a ELSE PutTable(a.st, dn, tabs[i].t, tabs[i].items, zipped, strict)
      a == FoldLeft(step, [st |-> stt, k |-> IF stt.dirs[dn].made THEN "ok" ELSE "missing"], Iota(Len(tabs)))
  IN IF a.k = "ok" THEN [a EXCEPT !.st.dirs[dn].md = TRUE] ELSE a
CopyGroup(stt, o, dn) ==
  LET from == stt.dirs[stt.objs[o]]
      made == [stt EXCEPT !.dirs[dn].made = TRUE]
      step(a, t) ==
        LET s == [a.st EXCEPT !.dirs[dn].subs = @ \/ stt.nested[t]]
            f == from.files[t]
        IN IF a.k # "ok" THEN a
           ELSE IF f.plain # <<>> THEN [st |-> [s EXCEPT !.dirs[dn].files[t].plain = f.plain], k |-> "ok"]
           ELSE IF f.zip # <<>> THEN [st |-> [s EXCEPT !.dirs[dn].files[t] = [plain |-> <<>>, zip |-> f.zip]], k |-> "ok"]
           ELSE [st |-> s, k |-> "missing"]
      a == FoldLeft(step, [st |-> made, k |-> "ok"], Iota(Len(stt.mds)))
  IN IF a.k = "ok" THEN [a EXCEPT !.st.dirs[dn].md = TRUE, !.st.objs[o] = dn] ELSE a
LoadGroup(stt, dn) ==
  IF stt.dirs[dn].md THEN [st |-> [stt EXCEPT !.objs = Append(@, dn)], k |-> "ok"] ELSE [st |-> stt, k |-> "missing"]
\* what a group object reads: per table <<>> (no file) or <<result>>
GroupRead(stt, o) ==
  [t \in DOMAIN stt.mds |-> LET f == UsedFile(stt.dirs[stt.objs[o]].files[t])
                            IN IF f = <<>> THEN <<>> ELSE <<TableRead(stt.mds[t], f[1], "strict")>>]
=============================================================================
