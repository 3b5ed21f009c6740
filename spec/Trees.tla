------------------------------- MODULE Trees -------------------------------
(***************************************************************************)
(* Finite node hierarchies over the elements lo..hi, used by the design    *)
(* models of the searches and of the draining iterator.  A node is         *)
(* [leaf |-> TRUE, id |-> element, kids |-> <<>>] or                       *)
(* [leaf |-> FALSE, id |-> 0, kids |-> sequence of nodes, env |-> set of   *)
(* elements its stored envelope accounts for].                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Max2(a, b) == IF a > b THEN a ELSE b

Leaf(k) == [leaf |-> TRUE, id |-> k, kids |-> <<>>, env |-> {k}]
RECURSIVE Under(_)
Under(nd) == IF nd.leaf THEN {nd.id} ELSE UNION {Under(nd.kids[i]) : i \in DOMAIN nd.kids}
Parent(kids) == [leaf |-> FALSE, id |-> 0, kids |-> kids, env |-> UNION {Under(kids[i]) : i \in DOMAIN kids}]
EmptyRoot == Parent(<<>>)

\* ordered hierarchies of at most d levels of inner nodes, at most K children per node;
\* leaf depths may differ, as they do in bulk loaded trees
RECURSIVE Forests(_, _, _, _), Item(_, _, _, _)
Forests(d, K, lo, hi) ==
   IF lo > hi THEN {<<>>}
   ELSE IF K = 0 THEN {}
   ELSE UNION {{<<t>> \o f : t \in Item(d, K, lo, m), f \in Forests(d, K - 1, m + 1, hi)} : m \in lo..hi}
Item(d, K, lo, hi) ==
   (IF lo = hi THEN {Leaf(lo)} ELSE {}) \cup
   (IF d > 0 THEN {Parent(f) : f \in {g \in Forests(d - 1, K, lo, hi) : Len(g) <= K}} ELSE {})
Roots(d, K, n) == {Parent(f) : f \in Forests(d - 1, K, 1, n)}

\* every inner node's envelope accounts for exactly the elements below it
RECURSIVE Tight(_), NoEmptyInner(_), Occurrences(_, _)
Tight(nd) == nd.leaf \/ (nd.env = Under(nd) /\ \A i \in DOMAIN nd.kids : Tight(nd.kids[i]))
NoEmptyInner(nd) == nd.leaf \/ \A i \in DOMAIN nd.kids :
                      (nd.kids[i].leaf \/ Len(nd.kids[i].kids) > 0) /\ NoEmptyInner(nd.kids[i])
Occurrences(nd, k) == IF nd.leaf THEN IF nd.id = k THEN 1 ELSE 0
                      ELSE LET F[i \in 0..Len(nd.kids)] == IF i = 0 THEN 0 ELSE F[i - 1] + Occurrences(nd.kids[i], k) IN F[Len(nd.kids)]
RECURSIVE HeightOf(_), Heights(_)
HeightOf(nd) == IF nd.leaf THEN 0 ELSE LET H == {HeightOf(nd.kids[i]) : i \in DOMAIN nd.kids} IN
                   IF H = {} THEN 1 ELSE 1 + (CHOOSE h \in H : \A g \in H : g <= h)
Heights(nd) == IF nd.leaf THEN {0} ELSE {h + 1 : h \in UNION {Heights(nd.kids[i]) : i \in DOMAIN nd.kids}}
=============================================================================
