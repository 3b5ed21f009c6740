------------------------------ MODULE Searches ------------------------------
(***************************************************************************)
(* The selection search (stack of nodes, popped from its end; the          *)
(* recursive variant with an early exit) and the two-tree join.  Whether   *)
(* an envelope test succeeds is free, as long as it succeeds for every     *)
(* node above a selected element (join: for every two nodes above a pair   *)
(* that meets).                                                            *)
(* SkipMixed is a negative control: a join that ignores an element paired  *)
(* with an inner node, which two bulk loaded trees of different height     *)
(* need.                                                                   *)
(***************************************************************************)
EXTENDS Trees
CONSTANTS D, K, N1, N2, Mode, SkipMixed
VARIABLES a, b, rel, todo, out, done
vars == <<a, b, rel, todo, out, done>>

Meets(x, y) == \E k \in Under(x), l \in Under(y) : <<k, l>> \in rel
\* what an envelope test may answer
Tests(x, y) == IF Meets(x, y) THEN {TRUE} ELSE IF x.leaf /\ y.leaf THEN {FALSE} ELSE {TRUE, FALSE}
\* sub-sequences of s that keep at least the needed members
RECURSIVE Filtered(_, _)
Filtered(s, y) == IF s = <<>> THEN {<<>>}
   ELSE LET t == Filtered(Tail(s), y) IN UNION {IF ans THEN {<<Head(s)>> \o r : r \in t} ELSE t : ans \in Tests(Head(s), y)}
Rest(x, y) == x % y
FilteredR(s, x) == \* the same for the second tree
   LET RECURSIVE F(_)
       F(q) == IF q = <<>> THEN {<<>>}
               ELSE LET t == F(Tail(q)) IN UNION {IF ans THEN {<<Head(q)>> \o r : r \in t} ELSE t : ans \in Tests(x, Head(q))}
   IN F(s)
\* all pairs of ks, ls that are pushed
RECURSIVE Pushes(_)
Pushes(ps) == IF ps = <<>> THEN {<<>>}
   ELSE LET t == Pushes(Tail(ps)) p == Head(ps) IN UNION {IF ans THEN {<<p>> \o r : r \in t} ELSE t : ans \in Tests(p[1], p[2])}
Pairs(ks, ls) == [i \in 1..(Len(ks) * Len(ls)) |-> <<ks[((i - 1) \div Len(ls)) + 1], ls[Rest(i - 1, Len(ls)) + 1]>>]
Children(p1, p2) ==
   UNION {IF ~ans THEN {<<>>}
          ELSE UNION {UNION {Pushes(Pairs(ks, ls)) : ks \in Filtered(p1.kids, p2)} : ls \in FilteredR(p2.kids, p1)}
          : ans \in Tests(p1, p2)}

\* selection: the second "tree" is one element that stands for the query
Query == Leaf(100)
InitSelect == /\ b = Query
              /\ rel \in SUBSET (Under(a) \X {100})
              /\ \E t \in (IF Len(a.kids) = 0 THEN {FALSE} ELSE Tests(a, b)) :
                    todo = IF t THEN [i \in DOMAIN a.kids |-> <<a.kids[i], b>>] ELSE <<>>
InitJoin == /\ b \in UNION {Roots(D, K, n) : n \in 0..N2}
            /\ rel \in SUBSET (Under(a) \X Under(b))
            /\ todo \in Children(a, b)
Init == /\ a \in UNION {Roots(D, K, n) : n \in 0..N1}
        /\ IF Mode = "select" THEN InitSelect ELSE InitJoin
        /\ out = <<>> /\ done = FALSE

Last == todo[Len(todo)]
Rem == SubSeq(todo, 1, Len(todo) - 1)
Select ==
   LET x == Last[1] IN
   IF x.leaf THEN /\ todo' = Rem
                  /\ out' = IF Meets(x, b) THEN Append(out, <<x.id, 100>>) ELSE out
   ELSE /\ \E t \in Tests(x, b) : todo' = IF t THEN Rem \o [i \in DOMAIN x.kids |-> <<x.kids[i], b>>] ELSE Rem
        /\ UNCHANGED out
Join ==
   LET x == Last[1] y == Last[2] IN
   CASE x.leaf /\ y.leaf -> todo' = Rem /\ out' = Append(out, <<x.id, y.id>>)
     [] x.leaf /\ ~y.leaf -> /\ \E q \in (IF SkipMixed THEN {<<>>} ELSE Pushes(Pairs(<<x>>, y.kids))) : todo' = Rem \o q
                             /\ UNCHANGED out
     [] ~x.leaf /\ y.leaf -> /\ \E q \in (IF SkipMixed THEN {<<>>} ELSE Pushes(Pairs(x.kids, <<y>>))) : todo' = Rem \o q
                             /\ UNCHANGED out
     [] OTHER -> /\ \E q \in Children(x, y) : todo' = Rem \o q
                 /\ UNCHANGED out
Next ==
   \/ /\ ~done /\ todo # <<>>
      /\ IF Mode = "select" THEN Select ELSE Join
      /\ UNCHANGED <<a, b, rel, done>>
   \/ ~done /\ todo = <<>> /\ done' = TRUE /\ UNCHANGED <<a, b, rel, todo, out>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C02, C03, C04, C08 (select), C16 (join)
Sound    == \A i \in DOMAIN out : out[i] \in rel
Once     == Cardinality({out[i] : i \in DOMAIN out}) = Len(out)
Complete == done => {out[i] : i \in DOMAIN out} = rel
Ends     == <>done
=============================================================================
