------------------------------ MODULE Structure ------------------------------
(***************************************************************************)
(* How insertion, removal and bulk loading change the shape of the node    *)
(* hierarchy.  A node is [lv |-> number of elements directly below it,     *)
(* ch |-> bag of its inner children]; element identities and geometry are  *)
(* abstracted away: every choice the R*-tree heuristics make (subtree,     *)
(* split position, elements to reinsert) is nondeterministic here, so what *)
(* is shown holds for every heuristic.                                     *)
(*                                                                         *)
(* ByHeight = TRUE models reinsertion at the height at which the element   *)
(* was taken out, as rstar did before commit ee561e2; it is kept as a      *)
(* negative control: with bulk loaded trees, whose leaves lie at different *)
(* depths, it mixes elements with inner nodes.                             *)
(***************************************************************************)
EXTENDS Geom, TLC

CONSTANTS MIN, MAX, REI, Dim, N, BulkSizes, ByHeight, Removals
VARIABLES t,      \* the root
          n,      \* number of elements it should hold
          inc,    \* built by insertions (and removals) only
          rm      \* something was removed
vars == <<t, n, inc, rm>>

B == INSTANCE BulkLoad WITH MaxSize <- MAX, Extra <- FALSE

EmptyBag == <<>>
Node(lv, ch) == [lv |-> lv, ch |-> ch]
EmptyNode == Node(0, EmptyBag)
RECURSIVE BagSize(_, _)
BagSize(b, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN b[x] + BagSize(b, S \ {x})
Fan(nd) == nd.lv + BagSize(nd.ch, DOMAIN nd.ch)
Put1(b, x) == IF x \in DOMAIN b THEN [b EXCEPT ![x] = @ + 1] ELSE [y \in DOMAIN b \cup {x} |-> IF y = x THEN 1 ELSE b[y]]
Take1(b, x) == IF b[x] > 1 THEN [b EXCEPT ![x] = @ - 1] ELSE [y \in DOMAIN b \ {x} |-> b[y]]
AddCh(nd, x) == [nd EXCEPT !.ch = Put1(@, x)]
DelCh(nd, x) == [nd EXCEPT !.ch = Take1(@, x)]
AddLf(nd, k) == [nd EXCEPT !.lv = @ + k]

RECURSIVE Leaves(_), SumLeaves(_, _)
Leaves(nd) == nd.lv + SumLeaves(nd.ch, DOMAIN nd.ch)
SumLeaves(b, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN b[x] * Leaves(x) + SumLeaves(b, S \ {x})
RECURSIVE DepthsOf(_)
DepthsOf(nd) == (IF nd.lv > 0 THEN {1} ELSE {}) \cup {d + 1 : d \in UNION {DepthsOf(x) : x \in DOMAIN nd.ch}}
RECURSIVE Below(_)
Below(nd) == DOMAIN nd.ch \cup UNION {Below(x) : x \in DOMAIN nd.ch}

\* sub-bags of b with k members
RECURSIVE SubBags(_, _, _)
SubBags(b, S, k) ==
   IF S = {} THEN IF k = 0 THEN {EmptyBag} ELSE {}
   ELSE LET x == CHOOSE x \in S : TRUE IN
        UNION {{IF j = 0 THEN r ELSE [y \in DOMAIN r \cup {x} |-> IF y = x THEN j ELSE r[y]]
                : r \in SubBags(b, S \ {x}, k - j)} : j \in 0..Min2(b[x], k)}
MinusBag(b, c) == [x \in {y \in DOMAIN b : y \notin DOMAIN c \/ b[y] > c[y]} |-> IF x \in DOMAIN c THEN b[x] - c[x] ELSE b[x]]
\* all ways to divide a node in two, each part with at least MIN children
Splits(nd) ==
   LET f == Fan(nd) IN
   {<<Node(nd.lv - j, MinusBag(nd.ch, c)), Node(j, c)>> :
      <<j, c>> \in UNION {UNION {{<<j, c>> : c \in SubBags(nd.ch, DOMAIN nd.ch, k - j)}
                                 : j \in 0..Min2(nd.lv, k)} : k \in MIN..(f - MIN)}}

\* results of an insertion below a node; k says what the parent has to do:
\* "ok" nothing, "split" adopt x, "again" reinsert elements that were taken out at height h
Res(nd, k, x, h) == [nd |-> nd, k |-> k, x |-> x, h |-> h]
OverflowSplit(nd) == IF Fan(nd) > MAX THEN {Res(s[1], "split", s[2], 0) : s \in Splits(nd)}
                     ELSE {Res(nd, "ok", EmptyNode, 0)}
Overflow(nd, h) == IF Fan(nd) <= MAX THEN {Res(nd, "ok", EmptyNode, 0)}
                   ELSE IF REI = 0 THEN OverflowSplit(nd)
                   ELSE {Res(AddLf(nd, -REI), "again", EmptyNode, h)}
\* h counts the levels above nd; mixed nodes can be taken for leaf level nodes
AtLeafLevel(nd) == nd.ch = EmptyBag \/ nd.lv > 0
\* REI elements are all elements (heuristics never reinsert inner nodes: overflow of an inner
\* node needs a split below it, and splits only happen without reinsertion or in a forced insertion)
RECURSIVE InsertAt(_, _)
InsertAt(nd, h) ==
   (IF AtLeafLevel(nd) THEN Overflow(AddLf(nd, 1), h) ELSE {})
   \cup UNION {LET rs == InsertAt(c, h + 1)  up == DelCh(nd, c) IN
        UNION {CASE r.k = "ok" -> {Res(AddCh(up, r.nd), "ok", EmptyNode, 0)}
                 [] r.k = "split" -> Overflow(AddCh(AddCh(up, r.nd), r.x), h)
                 [] r.k = "again" -> {Res(AddCh(up, r.nd), "again", EmptyNode, r.h)}
               : r \in rs} : c \in DOMAIN nd.ch}
\* forced insertion of an element, left levels above the level it has to go to (ByHeight)
RECURSIVE Force(_, _)
Force(nd, left) ==
   IF (ByHeight /\ left = 0) \/ nd.ch = EmptyBag THEN OverflowSplit(AddLf(nd, 1))
   ELSE UNION {LET rs == Force(c, left - 1)  up == DelCh(nd, c) IN
        UNION {CASE r.k = "ok" -> {Res(AddCh(up, r.nd), "ok", EmptyNode, 0)}
                 [] r.k = "split" -> OverflowSplit(AddCh(AddCh(up, r.nd), r.x))
               : r \in rs} : c \in DOMAIN nd.ch}
NewRoot(a, b) == Node(0, Put1(Put1(EmptyBag, a), b))
\* k elements still to reinsert at height h; a new root pushes everything one level down
RECURSIVE Again(_, _, _)
Again(rt, k, h) ==
   IF k = 0 THEN {rt}
   ELSE UNION {IF r.k = "split" THEN Again(NewRoot(r.nd, r.x), k - 1, h + 1) ELSE Again(r.nd, k - 1, h)
               : r \in Force(rt, h)}
Inserted(rt) == UNION {CASE r.k = "ok" -> {r.nd}
                         [] r.k = "split" -> {NewRoot(r.nd, r.x)}
                         [] r.k = "again" -> Again(r.nd, REI, r.h)
                       : r \in InsertAt(rt, 0)}
\* taking one element out; nodes left without children vanish, except the root
RECURSIVE RemovedFrom(_)
RemovedFrom(nd) ==
   (IF nd.lv > 0 THEN {AddLf(nd, -1)} ELSE {})
   \cup UNION {{IF Fan(c2) = 0 THEN DelCh(nd, c) ELSE AddCh(DelCh(nd, c), c2) : c2 \in RemovedFrom(c)} : c \in DOMAIN nd.ch}
RECURSIVE BulkShape(_), Collect(_, _)
BulkShape(x) == IF x <= MAX THEN Node(x, EmptyBag)
                ELSE LET cs == B!Children(x, 0) IN Node(0, Collect(cs, Len(cs)))
Collect(cs, i) == IF i = 0 THEN EmptyBag ELSE Put1(Collect(cs, i - 1), BulkShape(cs[i]))

Init == \/ t = EmptyNode /\ n = 0 /\ inc = TRUE /\ rm = FALSE
        \/ \E x \in BulkSizes : t = BulkShape(x) /\ n = x /\ inc = FALSE /\ rm = FALSE
Insert == n < N /\ t' \in Inserted(t) /\ n' = n + 1 /\ UNCHANGED <<inc, rm>>
Remove == Removals /\ n > 0 /\ t' \in RemovedFrom(t) /\ n' = n - 1 /\ rm' = TRUE /\ UNCHANGED inc
Next == Insert \/ Remove
Spec == Init /\ [][Next]_vars

All == {t} \cup Below(t)
Conserved == Leaves(t) = n                                                    \* C01
NoMix == \A x \in All : x.lv = 0 \/ x.ch = EmptyBag                            \* C12
NoEmpty == \A x \in Below(t) : Fan(x) > 0                                     \* C12
Balanced == inc => Cardinality(DepthsOf(t)) <= 1                              \* C13
WithinMax == inc => \A x \in All : Fan(x) <= MAX                              \* C13
WithinMin == inc /\ ~rm => \A x \in Below(t) : Fan(x) >= MIN                  \* C13
Reachable == n > 0 => \E r \in RemovedFrom(t) : Leaves(r) = n - 1             \* C02: something can be taken out
\* C14: choosing a subtree always finds a node of the right kind
InsertDefined == Inserted(t) # {}
=============================================================================
