------------------------------- MODULE MC_Graph --------------------------------
(* Objects with references to each other become a tree of nested objects: an     *)
(* object which is referred to exactly once is moved to that place, unless it    *)
(* contains it already.  Whatever the order of moves: nothing is lost.           *)
EXTENDS Integers, FiniteSets, TLC, Json
CONSTANTS N, Emit
VARIABLES refs, own, in, todo
vars == <<refs, own, in, todo>>
Objs == 1..N
\* refs: pairs <<from, to>>; objects with a property of their own: own
Init == /\ refs \in SUBSET (Objs \X Objs)
        /\ own \in SUBSET Objs
        /\ \A i \in Objs : i \in own \/ \E j \in Objs : <<i, j>> \in refs
        /\ in = [i \in Objs |-> 0]
        /\ todo = Objs
Referers(i) == {j \in Objs : <<j, i>> \in refs}
RECURSIVE Root(_)
Root(i) == IF in[i] = 0 THEN i ELSE Root(in[i])
Move(i) == /\ i \in todo
           /\ todo' = todo \ {i}
           /\ LET js == Referers(i) IN
              IF Cardinality(js) = 1 /\ Root(CHOOSE j \in js : TRUE) # i
              THEN in' = [in EXCEPT ![i] = CHOOSE j \in js : TRUE] ELSE in' = in
           /\ UNCHANGED <<refs, own>>
Gen == /\ todo = Objs /\ Emit
       /\ PrintT(<<"GEN", ToJson([refs |-> [i \in Objs |-> [j \in Objs |-> <<i, j>> \in refs]], own |-> [i \in Objs |-> i \in own]])>>)
       /\ UNCHANGED vars
Next == Gen \/ \E i \in Objs : Move(i)
\* no object contains itself: each is at the top or within one which is
RECURSIVE Above(_, _)
Above(i, n) == IF n = 0 THEN {} ELSE IF in[i] = 0 THEN {i} ELSE Above(in[i], n - 1)
NothingLost == \A i \in Objs : Above(i, N + 1) # {} /\ in[Root(i)] = 0
Once == \A i \in Objs : in[i] # 0 => Referers(i) = {in[i]}
\* the result depends on the order only where there are cycles
Acyclic == ~\E S \in (SUBSET Objs) \ {{}} : \A i \in S : \E j \in S : <<i, j>> \in refs
Confluent == (todo = {} /\ Acyclic) => \A i \in Objs : (in[i] # 0) = (Cardinality(Referers(i)) = 1)
=============================================================================
