------------------------------- MODULE TraceMeta -------------------------------
(* Recorded sessions about metadata documents: loading, writing and reading again, *)
(* inherited properties, changes.  State: [cls, doc, nf, claim], nf the normal form *)
(* of the description held, <<>> if there is none, claim: equality is claimed.      *)
EXTENDS Meta, Harness
MetaInit(sess) == [cls |-> sess.ini.cls, doc |-> sess.ini.doc, nf |-> <<>>, claim |-> FALSE, norm |-> FALSE, free |-> FALSE]
WithBase(e, r) == IF e.via = "url" /\ r.v # <<>> /\ ~NHas(r.v[1], "@base") THEN [r EXCEPT !.v = <<Put0(@[1], "@base", Keep(Str(e.base)))>>] ELSE r
Load(st, e) ==
  LET r == WithBase(e, TLCEval(Norm(st.cls, st.doc)))
      nay(c) == [st |-> st, bad |-> c, exp |-> [e |-> r.e, w |-> r.w, f |-> r.f, v |-> [i \in DOMAIN r.v |-> Doc(r.v[i])]]]
      yes == [st |-> IF e.out.k = "ok" THEN [st EXCEPT !.nf = <<Canon(e.out.v)>>, !.claim = ~r.w /\ ~r.f, !.norm = FALSE, !.free = r.f] ELSE st, bad |-> "", exp |-> <<>>]
  IN IF e.out.k \notin {"ok", "err"} THEN nay("an unexpected exception")
     ELSE IF e.out.k = "err" THEN IF r.e \/ r.f THEN yes ELSE nay("valid metadata refused")
     ELSE IF r.e THEN nay("invalid metadata accepted")
     ELSE IF r.w /\ ~r.f /\ ~e.out.w THEN nay("no warning about invalid metadata")
     ELSE IF r.f THEN yes
     ELSE IF Canon(e.out.v) # r.v[1] THEN nay("description")
     ELSE IF ~r.w /\ e.out.w THEN nay("warning about valid metadata")
     ELSE yes
Cycle(st, e) == IF st.free THEN [st |-> st, bad |-> "", exp |-> <<>>] ELSE
  LET nay(c) == [st |-> st, bad |-> c, exp |-> Doc(st.nf[1])]
  IN IF st.nf = <<>> THEN IF e.out.k = "none" THEN [st |-> st, bad |-> "", exp |-> <<>>] ELSE [st |-> st, bad |-> "metadata written after failure", exp |-> <<>>]
     ELSE IF e.out.k # "ok" THEN nay("writing metadata, or reading it again")
     ELSE IF Canon(e.out.v) # st.nf[1] THEN nay("description read again")
     ELSE IF st.norm /\ e.omit /\ ~e.out.same THEN nay("equality of what is read again")
     ELSE IF e.omit /\ Canon(e.out.file) # st.nf[1] THEN nay("file written")
     ELSE [st |-> [st EXCEPT !.norm = e.omit], bad |-> "", exp |-> <<>>]
InheritOp(st, e) ==
  LET ts == TablesOf(st.cls, st.nf[1])
      want == [t \in DOMAIN ts |-> [c \in DOMAIN ColumnsOf(ts[t]) |-> InheritedValues(Chain(st.cls, st.nf[1], t, c))]]
      got == [t \in DOMAIN e.out.v |-> [c \in DOMAIN e.out.v[t] |-> Canon(e.out.v[t][c])[2]]]
      ok == st.nf = <<>> \/ ~st.claim \/ (e.out.k = "ok" /\ got = want)
  IN IF ok THEN [st |-> st, bad |-> "", exp |-> <<>>] ELSE [st |-> st, bad |-> "inherited properties", exp |-> want]
FkOk(st, e) == \A i \in DOMAIN e.v[2] : \A c \in Rg(Get(e.v[2][i], "columnReference")[2]) :
                 c[2] \in {NameOf(x) : x \in Rg(ColumnsOf(TablesOf(st.cls, st.nf[1])[IF st.cls = "Table" THEN 1 ELSE e.path[1]]))}
SetOp(st, e) == IF st.free THEN [st |-> st, bad |-> "", exp |-> <<>>] ELSE
  LET refused == st.nf # <<>> /\ e.prop = "foreignKeys" /\ ~FkOk(st, e)
      r == TLCEval(IF refused THEN Omit ELSE IF HasCh(e.prop, ":") THEN NonEmpty(Common(e.v)) ELSE IF e.prop \in InheritedProps THEN Inherited(e.prop, e.v)
                   ELSE IF e.prop \in {"titles", "name", "virtual", "suppressOutput"} /\ Len(e.path) = 2 - (IF st.cls = "Table" THEN 1 ELSE 0) THEN ColumnProp(e.prop, e.v)
                   ELSE IF e.prop = "primaryKey" THEN ColRef(e.v)
                   ELSE IF e.prop = "foreignKeys" THEN NonEmpty(ArrayOf(e.v, FkKey))
                   ELSE TableProp(e.prop, e.v))
  IN IF st.nf = <<>> THEN [st |-> st, bad |-> "", exp |-> <<>>]
     ELSE [st |-> [st EXCEPT !.nf = <<Change(st.cls, @[1], e.path, e.prop, r)>>, !.norm = FALSE], bad |-> IF e.out.k = (IF refused THEN "err" ELSE "ok") THEN "" ELSE "change", exp |-> <<>>]
AddTitleOp(st, e) == IF st.free \/ st.nf = <<>> THEN [st |-> st, bad |-> "", exp |-> <<>>]
  ELSE LET c == ColumnsOf(TablesOf(st.cls, st.nf[1])[IF st.cls = "Table" THEN 1 ELSE e.path[1]])[e.path[Len(e.path)]]
       IN [st |-> [st EXCEPT !.nf = <<Change(st.cls, @[1], e.path, "titles", Keep(AddTitle(c, e.t, e.lang)))>>, !.norm = FALSE],
           bad |-> IF e.out.k = "ok" THEN "" ELSE "adding a title", exp |-> <<>>]
HeadersOp(st, e) == IF st.free \/ ~st.claim \/ st.nf = <<>> THEN [st |-> st, bad |-> "", exp |-> <<>>]
  ELSE LET ts == TablesOf(st.cls, st.nf[1])
           good == /\ e.out.k = "ok" /\ Len(e.out.v) = Len(ts)
                   /\ \A t \in DOMAIN ts : LET cs == ColumnsOf(ts[t]) IN
                        /\ Len(e.out.v[t]) = Len(cs)
                        /\ \A i \in DOMAIN e.ts : e.out.found[t][i] \in Found(cs, e.ts[i])
                        /\ \A c \in DOMAIN cs : /\ e.out.v[t][c].header = HeaderOf(cs[c], c)
                                              /\ \A i \in DOMAIN e.ts : e.out.v[t][c].named[i] \in CalledBy(cs[c], e.ts[i])
       IN [st |-> st, bad |-> IF good THEN "" ELSE "names of columns",
           exp |-> [t \in DOMAIN ts |-> [c \in DOMAIN ColumnsOf(ts[t]) |-> HeaderOf(ColumnsOf(ts[t])[c], c)]]]
(* what is accepted can be used: reading, checking and converting may be refused, *)
(* but nothing else goes wrong; and what was loaded once is loaded again           *)
UseOp(st, e) ==
  LET odd == {i \in DOMAIN e.out.res : e.out.res[i][2] \notin {"ok", "err"}}
      bad == IF st.nf = <<>> THEN IF e.out.k = "none" THEN "" ELSE "metadata used after failure"
             ELSE IF e.out.k # "ok" THEN "using what was accepted"
             ELSE IF odd # {} THEN "an unexpected exception when using what was accepted" ELSE ""
  IN [st |-> st, bad |-> bad, exp |-> [i \in odd |-> <<e.out.res[i][1], "ok">>]]
MetaStep(st, e) == CASE e.op = "load" -> Load(st, e) [] e.op = "cycle" -> Cycle(st, e) [] e.op = "inherit" -> InheritOp(st, e) [] e.op = "set" -> SetOp(st, e)
  [] e.op = "addtitle" -> AddTitleOp(st, e) [] e.op = "headers" -> HeadersOp(st, e) [] e.op = "use" -> UseOp(st, e)
=============================================================================
