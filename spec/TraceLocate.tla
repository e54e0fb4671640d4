------------------------------ MODULE TraceLocate ------------------------------
(* Recorded searches for the metadata of a CSV file; the state: the world, which *)
(* does not change.                                                              *)
EXTENDS Locate, Harness
LocInit(sess) == sess.ini
Rows0(n, hd) == IF hd THEN n - 1 ELSE n
LocStep(w, e) ==
  LET o == Outcome(w)
      nay(c) == [st |-> w, bad |-> c, exp |-> o]
      known == {i \in DOMAIN e.out.tabs : e.out.tabs[i].u = w.url}
  IN IF e.out.k \notin {"ok", "err"} THEN nay("an unexpected exception")
     ELSE IF e.out.k # o.k THEN nay("metadata refused")
     ELSE IF o.k = "err" THEN [st |-> w, bad |-> "", exp |-> <<>>]
     ELSE IF e.out.mark # o.mark THEN nay("which metadata is used")
     ELSE IF [i \in DOMAIN e.out.tabs |-> e.out.tabs[i].u] # o.urls THEN nay("location of the tables")
     ELSE IF e.out.warned # o.warned THEN nay("warnings about metadata which is not used")
     ELSE IF e.out.none # o.none THEN nay("tables without metadata")
     \* the header is told by the description, else by the content type; a group is not
     \* changed by the content type, nor a description with a dialect
     ELSE IF o.single /\ Page(w, w.url).k = "csv" /\ \E i \in known :
                ~(e.out.tabs[i].n = Rows0(w.lines, o.hd) \/ (w.absent /\ ~o.none /\ Page(w, Located(w).found[1]).hd # <<>>
                                                            /\ e.out.tabs[i].n \in {w.lines, w.lines - 1}))
          THEN nay("header or data")
     ELSE [st |-> w, bad |-> "", exp |-> <<>>]
=============================================================================
