------------------------------ MODULE Geom ------------------------------
(***************************************************************************)
(* Integer geometry: points, boxes, element shapes and squared distances.  *)
(*                                                                         *)
(* A point is a tuple of integers.  A box is <<lo, hi>> (two points), the  *)
(* empty box is the empty tuple.  A shape is a record with a field "s":    *)
(*   "p"  point           c                                                *)
(*   "r"  solid box       between the corners c and d (in any order)       *)
(*   "l"  segment         from c to d, whose squared length divides SC     *)
(*   "m"  finite set of points (tuple c of points), a user-defined shape   *)
(*        covering only part of its envelope                               *)
(* Distances are scaled by the constant-level argument sc, which is 1      *)
(* unless segments are involved.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
RangeOf(f) == {f[i] : i \in DOMAIN f}
Sq(x) == x * x

RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(f) == SumTo(f, Len(f))
RECURSIVE ProdTo(_, _)
ProdTo(f, n) == IF n = 0 THEN 1 ELSE f[n] * ProdTo(f, n - 1)
ProdSeq(f) == ProdTo(f, Len(f))

-----------------------------------------------------------------------------
(* Boxes                                                                   *)
NoBox == <<>>
IsBox(b) == b # NoBox
Lo(b) == b[1]
Hi(b) == b[2]
PointBox(p) == <<p, p>>
Corners(p, q) == << [i \in DOMAIN p |-> Min2(p[i], q[i])],
                    [i \in DOMAIN p |-> Max2(p[i], q[i])] >>
Merge(a, b) == IF a = NoBox THEN b ELSE IF b = NoBox THEN a
               ELSE << [i \in DOMAIN a[1] |-> Min2(a[1][i], b[1][i])],
                       [i \in DOMAIN a[1] |-> Max2(a[2][i], b[2][i])] >>
RECURSIVE MergeTo(_, _)
MergeTo(bs, n) == IF n = 0 THEN NoBox ELSE Merge(MergeTo(bs, n - 1), bs[n])
MergeSeq(bs) == MergeTo(bs, Len(bs))

\* closed point sets
BoxHas(b, p) == IsBox(b) /\ \A i \in DOMAIN p : b[1][i] <= p[i] /\ p[i] <= b[2][i]
Inside(b, in) == \* in is a subset of b
   \/ in = NoBox
   \/ IsBox(b) /\ \A i \in DOMAIN b[1] : b[1][i] <= in[1][i] /\ in[2][i] <= b[2][i]
Touch(a, b) == IsBox(a) /\ IsBox(b) /\ \A i \in DOMAIN a[1] : a[1][i] <= b[2][i] /\ b[1][i] <= a[2][i]
Common(a, b) == IF Touch(a, b)
                THEN << [i \in DOMAIN a[1] |-> Max2(a[1][i], b[1][i])],
                        [i \in DOMAIN a[1] |-> Min2(a[2][i], b[2][i])] >>
                ELSE NoBox
Clamp(b, p) == [i \in DOMAIN p |-> IF p[i] < b[1][i] THEN b[1][i]
                                   ELSE IF p[i] > b[2][i] THEN b[2][i] ELSE p[i]]
PointD2(p, q) == SumSeq([i \in DOMAIN p |-> Sq(p[i] - q[i])])
BoxD2(b, p) == PointD2(Clamp(b, p), p)
Area(b) == IF b = NoBox THEN 0 ELSE ProdSeq([i \in DOMAIN b[1] |-> b[2][i] - b[1][i]])
Perimeter(b) == IF b = NoBox THEN 0 ELSE SumSeq([i \in DOMAIN b[1] |-> b[2][i] - b[1][i]])
\* squared distance to the corner of b farthest from p
FarD2(b, p) == SumSeq([i \in DOMAIN p |-> Max2(Sq(b[1][i] - p[i]), Sq(b[2][i] - p[i]))])
\* The min-max distance of Roussopoulos et al.: an upper bound of the distance of p to
\* any set that touches all faces of b: on one axis the nearer face, the farther faces elsewhere.
MinMaxAxis(b, p, k) ==
   SumSeq([i \in DOMAIN p |-> LET l == Sq(b[1][i] - p[i]) u == Sq(b[2][i] - p[i])
                              IN IF i = k THEN Min2(l, u) ELSE Max2(l, u)])
MinMaxD2(b, p) == SetMin({MinMaxAxis(b, p, k) : k \in DOMAIN p})

-----------------------------------------------------------------------------
(* Shapes                                                                  *)
Env(g) == CASE g.s = "p" -> PointBox(g.c)
            [] g.s = "r" -> Corners(g.c, g.d)
            [] g.s = "l" -> Corners(g.c, g.d)
            [] g.s = "m" -> MergeSeq([i \in DOMAIN g.c |-> PointBox(g.c[i])])

Dot(u, v) == SumSeq([i \in DOMAIN u |-> u[i] * v[i]])
Sub(u, v) == [i \in DOMAIN u |-> u[i] - v[i]]
SegLen2(g) == PointD2(g.c, g.d)
\* sc times the squared distance of p to the segment; exact if SegLen2 divides sc
SegD2(g, p, sc) ==
   LET dir == Sub(g.d, g.c)  w == Sub(p, g.c)  t == Dot(w, dir)  n == Dot(dir, dir)
   IN IF n = 0 \/ t <= 0 THEN sc * PointD2(g.c, p)
      ELSE IF t >= n THEN sc * PointD2(g.d, p)
      ELSE sc * Dot(w, w) - t * t * (sc \div n)

D2(g, p, sc) == CASE g.s = "p" -> sc * PointD2(g.c, p)
                  [] g.s = "r" -> sc * BoxD2(Corners(g.c, g.d), p)
                  [] g.s = "l" -> SegD2(g, p, sc)
                  [] g.s = "m" -> sc * SetMin({PointD2(g.c[i], p) : i \in DOMAIN g.c})
Covers(g, p) == CASE g.s = "p" -> g.c = p
                  [] g.s = "r" -> BoxHas(Corners(g.c, g.d), p)
                  [] g.s = "l" -> LET b == Corners(g.c, g.d) IN
                                    BoxHas(b, p) /\ SegD2(g, p, SegLen2(g)) = 0
                  [] g.s = "m" -> \E i \in DOMAIN g.c : g.c[i] = p
=============================================================================
