------------------------------ MODULE MC_DbOrder -------------------------------
(* Tables are created in an order in which each comes after those it refers to. *)
(* The tables are gone through repeatedly, in the order of description, and the *)
(* first one which can be created is.  All graphs of references between tables. *)
EXTENDS Db, Json
CONSTANTS N, Emit
VARIABLES refs, ordered, todo
vars == <<refs, ordered, todo>>
Name(i) == <<"a", "b", "c", "d", "e">>[i]
Ts == 1..N
Schema(E) == [dropself |-> FALSE, tables |-> [t \in Ts |->
   [name |-> Name(t), cols |-> <<>>, pk |-> <<>>, fks |->
      LET tgt == SelectSeq([i \in Ts |-> i], LAMBDA u : <<t, u>> \in E)
      IN [i \in DOMAIN tgt |-> [cols |-> <<"x", "y">>, ref |-> Name(tgt[i]), rcols |-> <<"x", "y">>]]]]]
Init == refs \in SUBSET (Ts \X Ts) /\ ordered = <<>> /\ todo = Ts
Ready(t) == \A u \in Ts : (<<t, u>> \in refs /\ u # t) => u \in Range0(ordered)
Create == \E t \in todo : /\ Ready(t)
                          /\ \A u \in todo : u < t => ~Ready(u)
                          /\ ordered' = Append(ordered, t)
                          /\ todo' = todo \ {t}
                          /\ UNCHANGED refs
Gen == /\ ordered = <<>> /\ Emit
       /\ PrintT(<<"GEN", ToJson([refs |-> [i \in Ts |-> [j \in Ts |-> <<i, j>> \in refs]]])>>)
       /\ UNCHANGED vars
Next == Create \/ Gen
AfterTargets == \A i \in DOMAIN ordered : \A u \in Ts : <<ordered[i], u>> \in refs => \E j \in 1..i : ordered[j] = u
Stuck == \A t \in todo : ~Ready(t)
\* all tables are created, unless there are circles of references
Complete == Stuck => (todo = {}) = Creatable(Schema(refs))
NoCircle == Creatable(Schema(refs)) = ~\E X \in (SUBSET Ts) \ {{}} : \A t \in X : \E u \in X : u # t /\ <<t, u>> \in refs
=============================================================================
