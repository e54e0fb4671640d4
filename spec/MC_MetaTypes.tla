------------------------------ MODULE MC_MetaTypes ------------------------------
(* Which @type a node in a common property may have: every prefix and every term  *)
(* known, what is almost one, and the places where a node may stand.              *)
EXTENDS Meta, Json
VARIABLES word, place, form
Words == Prefixes0 \cup Terms0 \cup {"", "x", "dcx", "csv", "rdfs1", "tables0", "columns "}
Forms == {"itself", "prefixed", "colon", "longer", "before", "inner", "web", "secure", "blank"}
Text(w, f) ==
  CASE f = "itself" -> w
    [] f = "prefixed" -> w \o ":Thing"
    [] f = "colon" -> w \o ":"
    [] f = "longer" -> w \o "Thing"
    [] f = "before" -> "a" \o w
    [] f = "inner" -> "zzz:" \o w
    [] f = "web" -> "http://" \o w
    [] f = "secure" -> "https://" \o w
    [] f = "blank" -> "_:" \o w
Places1 == {"node", "item", "member", "notes", "literal"}
Node(t) == <<"o", << <<"@type", Str(t)>> >> >>
At(p, t) ==
  LET n == Node(t) IN
  <<"o", << <<"url", Str("a.csv")>>,
            CASE p = "node" -> <<"dc:title", n>>
              [] p = "item" -> <<"dc:title", <<"l", <<Str("x"), n>> >> >>
              [] p = "member" -> <<"dc:title", <<"o", << <<"schema:name", n>> >> >> >>
              [] p = "notes" -> <<"schema:x", <<"l", << <<"l", <<n>> >> >> >> >>
              [] p = "literal" -> <<"dc:title", <<"o", << <<"@value", Str("x")>>, <<"@type", Str(t)>> >> >> >> >> >>
Init == word \in Words /\ place \in Places1 /\ form \in Forms /\ PrintT(<<"GEN", ToJson([cls |-> "Table", doc |-> At(place, Text(word, form))])>>)
Next == UNCHANGED <<word, place, form>>
R0 == Norm("Table", At(place, Text(word, form)))
\* what is refused does not depend on where it is
Anywhere == R0.e = Norm("Table", At("node", Text(word, form))).e
Always == form = "blank" => R0.e
Never == form \in {"web", "secure"} => ~R0.e
=============================================================================
