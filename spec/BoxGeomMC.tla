------------------------------ MODULE BoxGeomMC ------------------------------
(***************************************************************************)
(* Checks the geometry that all other modules rest on against its meaning  *)
(* as sets of grid points, exhaustively on a small grid.  Each state is a  *)
(* pair of boxes (possibly empty), a query point, or a small shape.        *)
(***************************************************************************)
EXTENDS Geom

CONSTANTS Dim, Side, MaxPts
Pts == [1..Dim -> 0..Side]
Boxes == {NoBox} \cup {<<p, q>> : <<p, q>> \in {pq \in Pts \X Pts : \A i \in 1..Dim : pq[1][i] <= pq[2][i]}}
In(b) == IF b = NoBox THEN {} ELSE {p \in Pts : BoxHas(b, p)}

VARIABLES kind, a, b, p, S
vars == <<kind, a, b, p, S>>
None == <<>>
Init == \/ /\ kind = "boxes" /\ a \in Boxes /\ b \in Boxes /\ p = None /\ S = {}
        \/ /\ kind = "dist" /\ a \in Boxes \ {NoBox} /\ b = NoBox /\ p \in Pts /\ S = {}
        \/ /\ kind = "set" /\ a = NoBox /\ b = NoBox /\ p \in Pts
           /\ S \in {T \in SUBSET Pts : Cardinality(T) \in 1..MaxPts}
        \/ /\ kind = "seg" /\ a \in Pts \X Pts /\ b = NoBox /\ p \in Pts /\ S = {}
        \* a segment cut into len2 pieces, used for distances
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

RECURSIVE SetToSeq0(_)
SetToSeq0(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o SetToSeq0(T \ {x})
BoxLaws ==
  kind = "boxes" =>
    /\ In(Common(a, b)) = In(a) \cap In(b)
    /\ Touch(a, b) = (In(a) \cap In(b) # {})
    /\ Inside(a, b) = (In(b) \subseteq In(a))
    /\ Merge(a, b) = Merge(b, a)
    /\ In(a) \cup In(b) \subseteq In(Merge(a, b))
    /\ \A c \in Boxes : (Inside(c, a) /\ Inside(c, b)) <=> Inside(c, Merge(a, b))
    /\ (a # NoBox => Merge(a, a) = a)
    /\ Area(Common(a, b)) <= Min2(Area(a), Area(b))
    /\ Area(Merge(a, b)) >= Max2(Area(a), Area(b))
    /\ Perimeter(Merge(a, b)) >= Max2(Perimeter(a), Perimeter(b))
DistLaws ==
  kind = "dist" =>
    /\ BoxHas(a, Clamp(a, p))
    /\ BoxD2(a, p) = SetMin({PointD2(q, p) : q \in In(a)})
    /\ FarD2(a, p) = SetMax({PointD2(q, p) : q \in In(a)})
    /\ (BoxD2(a, p) = 0) = BoxHas(a, p)
    /\ BoxD2(a, p) <= MinMaxD2(a, p) /\ MinMaxD2(a, p) <= FarD2(a, p)
    \* no smaller bound would do: the points of all faces that are farthest from p
    /\ MinMaxD2(a, p) = SetMin({PointD2([i \in 1..Dim |-> IF i = k THEN a[s][i]
                                           ELSE IF Sq(a[1][i] - p[i]) > Sq(a[2][i] - p[i]) THEN a[1][i] ELSE a[2][i]], p)
                                 : k \in 1..Dim, s \in 1..2})
\* every set of points that touches all faces of its box has a point within the min-max distance
SetLaws ==
  kind = "set" =>
    LET seq == SetToSeq0(S)
        h == MergeSeq([i \in DOMAIN seq |-> PointBox(seq[i])])
        near == SetMin({PointD2(q, p) : q \in S})
    IN /\ S \subseteq In(h)
       /\ \A i \in 1..Dim : (\E q \in S : q[i] = h[1][i]) /\ (\E q \in S : q[i] = h[2][i])
       /\ BoxD2(h, p) <= near /\ near <= MinMaxD2(h, p)
\* the scaled distance to a segment lies between those of a fine subdivision
SegLaws ==
  kind = "seg" =>
    LET g == [s |-> "l", c |-> a[1], d |-> a[2]]
        n == SegLen2(g)
        d == SegD2(g, p, IF n = 0 THEN 1 ELSE n)
        \* n times each subdivision point, squared distance scaled by n * n
        cut(t) == SumSeq([i \in 1..Dim |-> Sq(n * (a[1][i] - p[i]) + t * (a[2][i] - a[1][i]))])
    IN /\ n = 0 => d = PointD2(a[1], p)
       /\ n > 0 => /\ n * d = SetMin({cut(t) : t \in 0..n})
                   /\ d >= n * BoxD2(Env(g), p)
                   /\ Covers(g, p) = (d = 0)
Inv == BoxLaws /\ DistLaws /\ SetLaws /\ SegLaws
=============================================================================
