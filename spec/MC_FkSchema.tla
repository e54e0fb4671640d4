----------------------------- MODULE MC_FkSchema ------------------------------
(* Which foreign keys are valid: all of them between two tables, and each column *)
(* at most twice.                                                                *)
EXTENDS Table, TLC, Json
CONSTANTS Emit
VARIABLES mds, fk
NoL == [null |-> <<>>, default |-> <<>>, required |-> <<>>, separator |-> <<>>, datatype |-> <<>>]
Dt(b) == [base |-> b, f |-> [k |-> "none"], length |-> <<>>, minLength |-> <<>>, maxLength |-> <<>>, bounds |-> <<>>]
Dia == [csvw |-> TRUE, delim |-> 44, quote |-> 34, dbl |-> TRUE, comment |-> <<35>>, skipRows |-> 0, skipCols |-> 0, skipBlank |-> FALSE,
        skipsp |-> FALSE, trim |-> "false", header |-> TRUE, lt |-> <<10>>, u8 |-> TRUE]
Col(n, ts, b) == [name |-> n, titles |-> ts, purl |-> <<>>, virtual |-> FALSE, vurl |-> <<>>,
                  lv |-> IF b = "" THEN NoL ELSE [NoL EXCEPT !.datatype = <<Dt(b)>>]]
Cols == {Col(<<C("a")>>, <<>>, b) : b \in {"", "string", "integer"}} \cup {Col(<<>>, <<C("a")>>, "string")}
Md(cs) == [cols |-> cs, levels |-> <<NoL, NoL, NoL>>, d |-> Dia, pk |-> <<>>]
Names == {<<C("a")>>, <<C("b")>>, <<C("a"), C("b")>>, <<C("b"), C("a")>>, <<C("z")>>, <<C("a"), C("z")>>}
Init == /\ mds \in {<<Md(<<x, Col(<<C("b")>>, <<>>, "")>>), Md(<<y, Col(<<C("b")>>, <<>>, "integer")>>)>> : x \in Cols, y \in Cols}
        /\ fk \in [t : {1, 2}, cols : Names, rt : {0, 1, 2}, rcols : Names]
Next == /\ Emit /\ PrintT(<<"GEN", ToJson([mds |-> mds, fk |-> fk])>>)
        /\ UNCHANGED <<mds, fk>>
Known(t, n) == GetColumn(mds[t], n) # 0
\* strictness only ever refuses more
Stricter == FkOk(mds, fk, TRUE) => FkOk(mds, fk, FALSE)
Sound == FkOk(mds, fk, FALSE) =>
  /\ fk.rt # 0 /\ Len(fk.cols) = Len(fk.rcols)
  /\ \A i \in DOMAIN fk.cols : Known(fk.t, fk.cols[i]) /\ Known(fk.rt, fk.rcols[i])
\* a table may always refer to its own columns
Reflexive == (fk.rt = fk.t /\ fk.cols = fk.rcols /\ \A i \in DOMAIN fk.cols : Known(fk.t, fk.cols[i])) => FkOk(mds, fk, FALSE)
\* turning a reference around changes nothing
Symmetric == fk.rt # 0 => FkOk(mds, fk, TRUE) = FkOk(mds, [t |-> fk.rt, cols |-> fk.rcols, rt |-> fk.t, rcols |-> fk.cols], TRUE)
\* several foreign keys are valid if each of them is
Conjunction == SchemaOk(mds, <<fk, fk>>, FALSE) = FkOk(mds, fk, FALSE)
=============================================================================
