------------------------------ MODULE RTree ------------------------------
(***************************************************************************)
(* The abstract machine of rstar's public interface.                       *)
(*                                                                         *)
(* A tree is a bag of element keys with a payload per key.  Every public   *)
(* call is an action that takes the call's arguments AND its observable    *)
(* results; the guard says which results are allowed in the current state. *)
(* The operator constants Objs and Scale give, for the case cs, the table  *)
(* of elements ([g |-> shape, e |-> equality class]) and the factor by     *)
(* which squared distances are scaled.                                     *)
(*                                                                         *)
(* db   slot -> tree.  A tree has                                          *)
(*        bag  key -> number of held copies (positive)                     *)
(*        val  key -> payload                                              *)
(*        hist "inc" (only insertions, removals), "bulk" (bulk loaded,     *)
(*             nothing inserted since), "mix"                              *)
(*        rm   whether anything was removed since the tree was empty       *)
(*        str  last observed node hierarchy, NoStr when it may have changed*)
(* dr   the drain in progress: slot, remaining selectable elements, ...    *)
(***************************************************************************)
EXTENDS Geom

CONSTANTS Objs(_), Scale(_)
VARIABLES cs, db, dr

NoStr == <<>>
NoDrain == [on |-> FALSE]
EmptyFn == <<>>

Tab == Objs(cs)
G(k) == Tab[k].g
EnvOf(k) == Env(G(k))
Dist(k, p) == D2(G(k), p, Scale(cs))

-----------------------------------------------------------------------------
(* Bags                                                                    *)
Held(b) == DOMAIN b
Plus(b, k) == IF k \in DOMAIN b THEN [b EXCEPT ![k] = @ + 1]
              ELSE [x \in DOMAIN b \cup {k} |-> IF x = k THEN 1 ELSE b[x]]
Minus(b, k) == IF b[k] > 1 THEN [b EXCEPT ![k] = @ - 1]
               ELSE [x \in DOMAIN b \ {k} |-> b[x]]
Restrict(f, S) == [x \in S |-> f[x]]
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
\* total number of copies of keys S in b
Total(b, S) == IF \A k \in S : b[k] = 1 THEN Cardinality(S)
               ELSE Cardinality(UNION {{<<k, j>> : j \in 1..b[k]} : k \in S})
Occ(r, x) == Cardinality({i \in DOMAIN r : r[i] = x})
BagOfSeq(r) == LET R == RangeOf(r) IN
               IF Cardinality(R) = Len(r) THEN [x \in R |-> 1] ELSE [x \in R |-> Occ(r, x)]
\* the sequence r lists every copy of the keys S of b exactly once
Lists(r, b, S) == /\ RangeOf(r) = S
                  /\ Len(r) = Total(b, S)
                  /\ Len(r) = Cardinality(S) \/ \A k \in S : Occ(r, k) = b[k]
\* the sequence r lists some copies of keys S of b, none more often than held
ListsSome(r, b, S) == LET R == RangeOf(r) IN
   /\ R \subseteq S
   /\ Len(r) = Cardinality(R) \/ \A k \in R : Occ(r, k) <= b[k]
SameSeqBag(r, s) == LET R == RangeOf(r) IN
   /\ Len(r) = Len(s) /\ R = RangeOf(s)
   /\ Len(r) = Cardinality(R) \/ \A x \in R : Occ(r, x) = Occ(s, x)

-----------------------------------------------------------------------------
(* Hierarchies: [e |-> envelope, n |-> inner children, l |-> element keys] *)
RECURSIVE LeafSeq(_), LeafCat(_, _)
LeafSeq(t) == t.l \o LeafCat(t.n, Len(t.n))
LeafCat(ns, i) == IF i = 0 THEN <<>> ELSE LeafCat(ns, i - 1) \o LeafSeq(ns[i])
Fan(t) == Len(t.n) + Len(t.l)
ChildMerge(t) == Merge(MergeSeq([i \in DOMAIN t.n |-> t.n[i].e]),
                       MergeSeq([i \in DOMAIN t.l |-> EnvOf(t.l[i])]))
RECURSIVE NodeOk(_)
NodeOk(t) == /\ t.n = <<>> \/ t.l = <<>>             \* no mixing
             /\ t.e = ChildMerge(t)                  \* tight
             /\ \A i \in DOMAIN t.n : Fan(t.n[i]) > 0 /\ NodeOk(t.n[i])
WellFormed(t, bag) == /\ NodeOk(t)
                      /\ Lists(LeafSeq(t), bag, DOMAIN bag)
RECURSIVE Depths(_)
Depths(t) == (IF t.l # <<>> THEN {1} ELSE {})
             \cup {d + 1 : d \in UNION {Depths(t.n[i]) : i \in DOMAIN t.n}}
RECURSIVE MaxFan(_)
MaxFan(t) == SetMax({Fan(t)} \cup {MaxFan(t.n[i]) : i \in DOMAIN t.n})
RECURSIVE MinFanBelow(_, _)  \* every node below the root has at least m children
MinFanBelow(t, m) == \A i \in DOMAIN t.n : Fan(t.n[i]) >= m /\ MinFanBelow(t.n[i], m)

-----------------------------------------------------------------------------
(* Selections                                                              *)
Card2(p) == SumSeq(p)
NodeTest(q, e) ==
   CASE q.nt = "all" -> TRUE
     [] q.nt = "none" -> FALSE
     [] q.nt = "thr" -> e[1][q.ax] <= q.nv
     [] q.nt = "mod" -> (3 * Card2(e[1]) + Card2(e[2])) % q.nm # q.nr
     [] q.nt = "has" -> BoxHas(e, q.np)
ElemTest(q, k) ==
   CASE q.et = "all" -> TRUE
     [] q.et = "none" -> FALSE
     [] q.et = "mod" -> k % q.em # q.er
     [] q.et = "thr" -> EnvOf(k)[1][q.ex] <= q.ev
\* keys of the elements offered to the element test / selected, with repetitions
RECURSIVE Offered(_, _), OfferedCat(_, _, _)
Offered(t, q) == IF Fan(t) > 0 /\ NodeTest(q, t.e) THEN t.l \o OfferedCat(t.n, q, Len(t.n)) ELSE <<>>
OfferedCat(ns, q, i) == IF i = 0 THEN <<>> ELSE OfferedCat(ns, q, i - 1) \o Offered(ns[i], q)
Chosen(t, q) == SelectSeq(Offered(t, q), LAMBDA k : ElemTest(q, k))

Matches(q, k) ==
   CASE q.t = "all" -> TRUE
     [] q.t = "in" -> Inside(q.b, EnvOf(k))
     [] q.t = "x"  -> Touch(q.b, EnvOf(k))
     [] q.t = "at" -> Covers(G(k), q.p)
     [] q.t = "wd" -> Dist(k, q.p) <= q.m
     [] q.t = "eq" -> Tab[k].e = Tab[q.k].e
\* the selected part of tree T as a bag
SelBag(T, q) == IF q.t = "cu" THEN BagOfSeq(Chosen(T.str, q))
                ELSE Restrict(T.bag, {k \in DOMAIN T.bag : Matches(q, k)})
SelDefined(T, q) == q.t = "cu" => T.str # NoStr

-----------------------------------------------------------------------------
(* Trees                                                                   *)
Tree(bag, val, hist) == [bag |-> bag, val |-> val, hist |-> hist, rm |-> FALSE, str |-> NoStr]
EmptyTree == Tree(EmptyFn, EmptyFn, "inc")
Live(s) == s \in DOMAIN db /\ ~(dr.on /\ dr.s = s)
Put(s, T) == db' = [x \in DOMAIN db \cup {s} |-> IF x = s THEN T ELSE db[x]]
Taken(T, k) == LET b == Minus(T.bag, k) IN
   [T EXCEPT !.bag = b, !.val = Restrict(T.val, DOMAIN b), !.rm = TRUE, !.str = NoStr]
Added(T, k) == [T EXCEPT !.bag = Plus(T.bag, k),
                         !.val = [x \in DOMAIN T.val \cup {k} |-> IF x \in DOMAIN T.val THEN T.val[x] ELSE 0],
                         !.hist = IF T.hist = "bulk" THEN "mix" ELSE T.hist,
                         !.str = NoStr]
\* v, when given, lists the payloads seen with the keys r
PayloadOk(T, r, v) == v = <<>> \/ (Len(v) = Len(r) /\ \A i \in DOMAIN r : v[i] = T.val[r[i]])

-----------------------------------------------------------------------------
(* Calls that create or change trees                                       *)
New(s) == /\ ~(dr.on /\ dr.s = s)
          /\ Put(s, EmptyTree) /\ UNCHANGED <<cs, dr>>
Bulk(s, ks) == /\ ~(dr.on /\ dr.s = s)
               /\ LET b == BagOfSeq(ks) IN Put(s, Tree(b, [x \in DOMAIN b |-> 0], "bulk"))
               /\ UNCHANGED <<cs, dr>>
Ins(s, k) == /\ Live(s) /\ Put(s, Added(db[s], k)) /\ UNCHANGED <<cs, dr>>
\* remove, remove_at_point, remove_with_selection_function: r is empty or one key
Rem(s, q, r, v) ==
   /\ Live(s) /\ SelDefined(db[s], q) /\ Len(r) <= 1
   /\ LET T == db[s]  S == SelBag(T, q) IN
        IF r = <<>> THEN DOMAIN S = {} /\ Put(s, [T EXCEPT !.str = NoStr])
        ELSE r[1] \in DOMAIN S /\ PayloadOk(T, r, v) /\ Put(s, Taken(T, r[1]))
   /\ UNCHANGED <<cs, dr>>
MinDist(T, p) == SetMin({Dist(k, p) : k \in DOMAIN T.bag})
Pop(s, p, r, v) ==
   /\ Live(s) /\ Len(r) <= 1
   /\ LET T == db[s] IN
        IF r = <<>> THEN T.bag = EmptyFn /\ Put(s, [T EXCEPT !.str = NoStr])
        ELSE /\ r[1] \in DOMAIN T.bag /\ Dist(r[1], p) = MinDist(T, p)
             /\ PayloadOk(T, r, v) /\ Put(s, Taken(T, r[1]))
   /\ UNCHANGED <<cs, dr>>
\* add d to the payload of the first n elements that a mutable query yields
Mutate(s, q, n, d, r) ==
   /\ Live(s) /\ SelDefined(db[s], q)
   /\ LET T == db[s]  S == SelBag(T, q) IN
        /\ ListsSome(r, S, DOMAIN S)
        /\ Len(r) = Min2(n, Total(S, DOMAIN S))
        /\ Put(s, [T EXCEPT !.val = [x \in DOMAIN T.val |-> T.val[x] + d * Occ(r, x)]])
   /\ UNCHANGED <<cs, dr>>
Clone(s, to) == /\ Live(s) /\ to # s /\ ~(dr.on /\ dr.s = to)
                /\ Put(to, db[s]) /\ UNCHANGED <<cs, dr>>
Destroy(s) == /\ Live(s) /\ db' = [x \in DOMAIN db \ {s} |-> db[x]] /\ UNCHANGED <<cs, dr>>
Consume(s, r, v) == /\ Live(s) /\ Lists(r, db[s].bag, DOMAIN db[s].bag)
                    /\ PayloadOk(db[s], r, v) /\ Destroy(s)

-----------------------------------------------------------------------------
(* Drains: while one is running its tree cannot be used otherwise          *)
DrainBegin(s, q) ==
   /\ Live(s) /\ ~dr.on /\ SelDefined(db[s], q)
   /\ dr' = [on |-> TRUE, s |-> s, sel |-> SelBag(db[s], q), end |-> FALSE]
   /\ UNCHANGED <<cs, db>>
\* r is the yielded key, or empty at the end
DrainNext(r, v) ==
   /\ dr.on /\ Len(r) <= 1
   /\ IF r = <<>> THEN dr.sel = EmptyFn /\ dr' = [dr EXCEPT !.end = TRUE] /\ UNCHANGED db
      ELSE /\ r[1] \in DOMAIN dr.sel /\ PayloadOk(db[dr.s], r, v)
           /\ Put(dr.s, Taken(db[dr.s], r[1]))
           /\ dr' = [dr EXCEPT !.sel = Minus(dr.sel, r[1])]
   /\ UNCHANGED cs
\* the caller's test panicked inside next: nothing is yielded, the drain goes on
DrainBoom == dr.on /\ UNCHANGED <<cs, db, dr>>
DrainDrop == /\ dr.on /\ dr' = NoDrain
             /\ Put(dr.s, [db[dr.s] EXCEPT !.str = NoStr, !.rm = TRUE]) /\ UNCHANGED cs
\* a drain leaked before its end leaks every element that is still in the tree
DrainForget == /\ dr.on /\ dr' = NoDrain
               /\ Put(dr.s, IF dr.end THEN [db[dr.s] EXCEPT !.str = NoStr, !.rm = TRUE] ELSE EmptyTree)
               /\ UNCHANGED cs
\* the caller's test panicked inside a removal: nothing was taken
RemBoom(s) == /\ Live(s) /\ Put(s, [db[s] EXCEPT !.str = NoStr, !.rm = TRUE]) /\ UNCHANGED <<cs, dr>>

-----------------------------------------------------------------------------
(* Observations                                                            *)
Same == UNCHANGED <<cs, db, dr>>
Size(s, n) == Live(s) /\ n = Total(db[s].bag, DOMAIN db[s].bag) /\ Same
Iterate(s, r, v) == Live(s) /\ Lists(r, db[s].bag, DOMAIN db[s].bag) /\ PayloadOk(db[s], r, v) /\ Same
Contains(s, k, ans) == Live(s) /\ ans = (\E x \in DOMAIN db[s].bag : Tab[x].e = Tab[k].e) /\ Same
Locate(s, q, r, v) ==
   /\ Live(s) /\ SelDefined(db[s], q)
   /\ LET S == SelBag(db[s], q) IN Lists(r, S, DOMAIN S) /\ PayloadOk(db[s], r, v)
   /\ Same
\* the elements shown to a user-defined element test
Shown(s, q, shown) ==
   LET O == Offered(db[s].str, q) IN
      RangeOf(shown) \subseteq RangeOf(O) /\ \A k \in RangeOf(shown) : Occ(shown, k) <= Occ(O, k)
LocateOne(s, q, r, v) ==
   /\ Live(s)
   /\ LET S == SelBag(db[s], q) IN
        IF r = <<>> THEN DOMAIN S = {} ELSE Len(r) = 1 /\ r[1] \in DOMAIN S /\ PayloadOk(db[s], r, v)
   /\ Same
\* the first n items of an iterator
Take(s, q, n, r, v) ==
   /\ Live(s) /\ SelDefined(db[s], q)
   /\ LET S == SelBag(db[s], q) IN
        /\ ListsSome(r, S, DOMAIN S) /\ PayloadOk(db[s], r, v)
        /\ Len(r) = Min2(n, Total(S, DOMAIN S))
   /\ Same
\* internal iteration; the visitor asks to stop at its n-th call; broke: whether the
\* caller got the visitor's value back
Visit(s, q, n, r, v, broke) ==
   /\ Live(s) /\ SelDefined(db[s], q)
   /\ LET S == SelBag(db[s], q)  m == Total(S, DOMAIN S) IN
        /\ ListsSome(r, S, DOMAIN S) /\ PayloadOk(db[s], r, v)
        /\ Len(r) = Min2(n, m)
        /\ broke = (n <= m)
   /\ Same
Nearest(s, p, r, v) ==
   /\ Live(s)
   /\ IF r = <<>> THEN db[s].bag = EmptyFn
      ELSE /\ Len(r) = 1 /\ r[1] \in DOMAIN db[s].bag /\ PayloadOk(db[s], r, v)
           /\ Dist(r[1], p) = MinDist(db[s], p)
   /\ Same
\* the first n items of the nearest neighbour iterator
NearestIter(s, p, n, r, v) ==
   /\ Live(s)
   /\ LET T == db[s]
          dd == [i \in DOMAIN r |-> Dist(r[i], p)]
      IN /\ ListsSome(r, T.bag, DOMAIN T.bag) /\ PayloadOk(T, r, v)
         /\ Len(r) = Min2(n, Total(T.bag, DOMAIN T.bag))
         /\ \A i \in 1..(Len(r) - 1) : dd[i] <= dd[i + 1]
         /\ Len(r) > 0 =>
              \A k \in DOMAIN T.bag : Occ(r, k) < T.bag[k] => Dist(k, p) >= dd[Len(r)]
   /\ Same
DistsAre(p, r, d) == d = <<>> \/ (Len(d) = Len(r) /\ \A i \in DOMAIN r : d[i] = Dist(r[i], p))
AllNearest(s, p, r, v) ==
   /\ Live(s)
   /\ LET T == db[s] IN
        IF T.bag = EmptyFn THEN r = <<>>
        ELSE LET m == MinDist(T, p) IN
             Lists(r, T.bag, {k \in DOMAIN T.bag : Dist(k, p) = m}) /\ PayloadOk(T, r, v)
   /\ Same
TouchPairs(s1, s2) ==
   LET A == DOMAIN db[s1].bag  B == DOMAIN db[s2].bag
       env == [k \in A \cup B |-> EnvOf(k)]
   IN UNION {{<<a, b>> : b \in {x \in B : Touch(env[a], env[x])}} : a \in A}
Join(s1, s2, r) ==
   /\ Live(s1) /\ Live(s2)
   /\ LET S == TouchPairs(s1, s2)
          mult == [pr \in S |-> db[s1].bag[pr[1]] * db[s2].bag[pr[2]]]
      IN Lists(r, mult, S)
   /\ Same
\* the hierarchy seen through root(); it must not have changed since it was last seen
SeeHierarchy(s, c) ==
   /\ Live(s)
   /\ db[s].str = NoStr \/ db[s].str = c
   /\ Lists(LeafSeq(c), db[s].bag, DOMAIN db[s].bag)
   /\ Put(s, [db[s] EXCEPT !.str = c]) /\ UNCHANGED <<cs, dr>>
BalancedIs(T, c, min, max) == T.hist = "inc" =>
   /\ Cardinality(Depths(c)) <= 1
   /\ MaxFan(c) <= max
   /\ ~T.rm => MinFanBelow(c, min)
BulkIs(T, c, max, dim) == T.hist = "bulk" => MaxFan(c) <= Max2(max, 2 ^ dim)
HierarchyOk(s) == db[s].str # NoStr => NodeOk(db[s].str)
=============================================================================
