------------------------------ MODULE MC_Inherit ------------------------------
(* All sequences of up to Depth changes of an inherited property at any place of  *)
(* a group of two tables with two columns each: a change is seen by exactly the   *)
(* columns below the place, without an own value nearer to them.                  *)
EXTENDS Meta, Json
CONSTANTS Depth, Props, Emit
VARIABLES nf, trail, prop
Col(n) == <<"o", {<<"name", Str(n)>>}>>
Tab(u) == <<"o", {<<"url", Str(u)>>, <<"tableSchema", <<"o", {<<"columns", <<"l", <<Col("a"), Col("b")>> >> >>}>> >>}>>
Doc0 == <<"o", {<<"tables", <<"l", <<Tab("a.csv"), Tab("b.csv")>> >> >>}>>
Paths == {<<>>} \cup {<<t>> : t \in 1..2} \cup {<<t, c>> : t \in 1..2, c \in 0..2}
Values(p) == CASE p \in {"default", "separator", "aboutUrl", "valueUrl", "propertyUrl"} -> {Str("x"), Str("")} \cup (IF p = "default" THEN {} ELSE {Null})
               [] p = "null" -> {<<"l", <<Str("")>> >>, <<"l", <<>> >>, <<"l", <<Str("x"), Str("")>> >>}
               [] p = "lang" -> {Str("en"), Str("und")}
               [] p \in {"required", "ordered"} -> {Null, Bool(TRUE), Bool(FALSE)}
               [] p = "datatype" -> {Null, Str("integer")}
               [] OTHER -> {Null, Str("ltr")}
Init == nf = Doc0 /\ trail = <<>> /\ prop \in Props
Set == /\ Len(trail) < Depth
       /\ \E path \in Paths, v \in Values(prop) :
            /\ nf' = Change("TableGroup", nf, path, prop, Inherited(prop, v))
            /\ trail' = Append(trail, <<path, v>>)
            /\ (Emit /\ Len(trail') = Depth) => PrintT(<<"GEN", ToJson([prop |-> prop, doc |-> Doc(Doc0), trail |-> trail'])>>)
       /\ prop' = prop
Next == Set
\* places from which column c of table t inherits, nearest first
Above(t, c) == << <<t, c>>, <<t, 0>>, <<t>>, <<>> >>
Set1(v) == Inherited(prop, v).v
\* what was last said at a place
Said(path) == LET is == {i \in DOMAIN trail : trail[i][1] = path} IN IF is = {} THEN <<>> ELSE Set1(trail[CHOOSE i \in is : \A j \in is : i >= j][2])
Value(t, c) == Nearest(Chain("TableGroup", nf, t, c), prop, DefaultOf(prop))
Seen == \A t, c \in 1..2 :
          LET says == {i \in 1..4 : Said(Above(t, c)[i]) # <<>>}
          IN Value(t, c) = IF says = {} THEN DefaultOf(prop) ELSE Said(Above(t, c)[CHOOSE i \in says : \A j \in says : i <= j])[1]
\* nothing but the property is ever changed, and nothing empty is left behind
Rest == LET r == Norm("TableGroup", Doc(nf)) IN ~r.e /\ ~r.w /\ ~r.f /\ r.v = <<nf>>
\* other columns are not affected by the last change
Local == [][\A t, c \in 1..2 : LET p == Last(trail')[1] IN (p \notin Rg(Above(t, c))) => Value(t, c)' = Value(t, c)]_<<nf, trail, prop>>
=============================================================================
