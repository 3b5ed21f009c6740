--------------------------- MODULE NearestSearch ---------------------------
(***************************************************************************)
(* Best-first nearest neighbour search, in the two forms the library has.  *)
(*   "one"   prunes with the smallest min-max distance seen so far and     *)
(*           stops at the first element; afterwards falls back to "iter"   *)
(*           if nothing was found (Fallback) or the element found is       *)
(*           farther away than the pruning bound (Guard);                  *)
(*   "iter"  never prunes and yields everything in ascending order.        *)
(* Distances are abstract: an element has a distance, an inner node a      *)
(* lower bound (distance to its envelope) and an upper bound (min-max      *)
(* distance) for the nearest element below it, chosen freely within what   *)
(* Geom.tla / BoxGeomMC.tla show about boxes.  Slack > 0 lets the upper    *)
(* bound fall short, as it does through rounding; the guard makes the      *)
(* search exact all the same (without it, the defect repaired in 068fd12). *)
(* StrictPrune is a negative control: `<` instead of `<=`.                 *)
(***************************************************************************)
EXTENDS Trees
CONSTANTS D, K, N, M, Slack, Fallback, Guard, StrictPrune
VARIABLES root, dist, form, heap, smm, out, done
vars == <<root, dist, form, heap, smm, out, done>>
INF == M + 2

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MinMin(a, b) == IF a < b THEN a ELSE b
Nearest(nd) == MinOf({dist[k] : k \in Under(nd)})
Lower(nd) == IF nd.leaf THEN {dist[nd.id]} ELSE 0..Nearest(nd)
Upper(nd) == {u \in 0..(M + 1) : u + Slack >= Nearest(nd)}
Keep(l, s) == IF StrictPrune THEN l < s ELSE l <= s

\* all outcomes of pushing children i.. of a node
RECURSIVE Extend(_, _, _, _, _)
Extend(h, s, kids, i, prune) ==
   IF i > Len(kids) THEN {<<h, s>>}
   ELSE UNION {
      IF prune /\ ~Keep(l, s) THEN Extend(h, s, kids, i + 1, prune)
      ELSE UNION {Extend(h \cup {[d |-> l, nd |-> kids[i]]}, IF prune THEN MinMin(s, u) ELSE s, kids, i + 1, prune)
                  : u \in IF prune THEN Upper(kids[i]) ELSE {0}}
      : l \in Lower(kids[i])}

Init ==
   /\ root \in UNION {Roots(D, K, n) : n \in 0..N}
   /\ dist \in [Under(root) -> 0..M]
   /\ form \in {"one", "iter"}
   /\ out = <<>> /\ done = FALSE
   /\ \E e \in Extend({}, INF, root.kids, 1, form = "one") : heap = e[1] /\ smm = e[2]

Pop ==
   /\ ~done
   /\ IF heap = {} THEN /\ done' = TRUE /\ UNCHANGED <<heap, smm, out>>
      ELSE \E e \in heap :
         /\ \A f \in heap : e.d <= f.d
         /\ IF e.nd.leaf
            THEN /\ heap' = heap \ {e}
                 /\ out' = IF form = "one" /\ Guard /\ e.d > smm THEN out ELSE Append(out, e.nd.id)
                 /\ done' = (form = "one")
                 /\ UNCHANGED smm
            ELSE /\ \E x \in Extend(heap \ {e}, smm, e.nd.kids, 1, form = "one") : heap' = x[1] /\ smm' = x[2]
                 /\ UNCHANGED <<out, done>>
   /\ UNCHANGED <<root, dist, form>>
\* nothing found by the pruned search: start again without pruning
FallBack ==
   /\ done /\ form = "one" /\ out = <<>> /\ Fallback
   /\ form' = "iter" /\ done' = FALSE
   /\ \E e \in Extend({}, INF, root.kids, 1, FALSE) : heap' = e[1] /\ smm' = e[2]
   /\ UNCHANGED <<root, dist, out>>
Next == Pop \/ FallBack
Spec == Init /\ [][Next]_vars

Settled == done /\ ~ENABLED FallBack
\* C05
Finds    == Settled => (out = <<>> <=> Under(root) = {})
IsNearest == out # <<>> => \A k \in Under(root) : dist[out[1]] <= dist[k]
\* C06
Ascending == (form = "iter") => \A i \in 1..(Len(out) - 1) : dist[out[i]] <= dist[out[i + 1]]
Complete  == (form = "iter" /\ done) => {out[i] : i \in DOMAIN out} = Under(root) /\ Len(out) = Cardinality(Under(root))
\* C07: the leading elements of equal distance are all the nearest ones
AllNearest == (form = "iter" /\ done /\ out # <<>>) =>
   {out[i] : i \in {i \in DOMAIN out : dist[out[i]] = dist[out[1]] /\ \A j \in 1..i : dist[out[j]] = dist[out[1]]}}
      = {k \in Under(root) : \A j \in Under(root) : dist[k] <= dist[j]}
=============================================================================
