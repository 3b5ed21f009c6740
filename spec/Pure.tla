------------------------------ MODULE Pure ------------------------------
(***************************************************************************)
(* Calls that involve no tree: what the elements, the bounding boxes and   *)
(* the parameter check of rstar may answer.  Each operator takes one       *)
(* logged call with its results.                                           *)
(***************************************************************************)
EXTENDS Geom

-----------------------------------------------------------------------------
(* Elements and their wrappers (properties C23 and C25): g the geometry,   *)
(* p a point, m a bound; distances are scaled by sc.                       *)
AnswerOk(e, a) ==
   CASE a.w = "near" ->      \* the box's closest point, and its corners
          LET b == Corners(e.g.c, e.g.d) IN a.q = Clamp(b, e.p) /\ a.lo = Lo(b) /\ a.hi = Hi(b)
     [] a.w = "lnear" ->     \* sc times the segment's closest point, its squared length
          LET dir == Sub(e.g.d, e.g.c)
              n == SegLen2(e.g)
              t == Min2(Max2(Dot(Sub(e.p, e.g.c), dir), 0), n)
          IN /\ a.len = e.sc * n
             /\ a.q = IF n = 0 THEN [i \in DOMAIN e.p |-> e.sc * e.g.c[i]]
                      ELSE [i \in DOMAIN e.p |-> e.sc * e.g.c[i] + dir[i] * t * (e.sc \div n)]
     [] a.w \in {"position", "from"} -> FALSE
     [] OTHER ->
          LET d == D2(e.g, e.p, e.sc) IN
             /\ a.e = Env(e.g)
             /\ a.d = d
             /\ a.h = Covers(e.g, e.p)
             /\ a.l = IF d <= e.m THEN <<d>> ELSE <<>>
             \* facts about the specification itself that every answer relies on
             /\ (d = 0) = Covers(e.g, e.p)
             /\ d >= e.sc * BoxD2(Env(e.g), e.p)
\* an element with answers of its own: its wrappers give the same ones
SameAs(a, b) == a.e = b.e /\ a.d = b.d /\ a.h = b.h /\ a.l = b.l
PrimOk(e) == IF e.g.s = "o" THEN \A i \in DOMAIN e.rs : SameAs(e.rs[i], e.rs[1]) /\ e.rs[i].e = Corners(e.g.c, e.g.d)
             ELSE \A i \in DOMAIN e.rs : AnswerOk(e, e.rs[i])

-----------------------------------------------------------------------------
(* Boxes (property C24) and points (property C26)                          *)
IsPerm(s, t) == Len(s) = Len(t) /\ \A x \in RangeOf(s) \cup RangeOf(t) :
   Cardinality({i \in DOMAIN s : s[i] = x}) = Cardinality({i \in DOMAIN t : t[i] = x})
BoxOk(e) ==
   CASE e.f = "corners" -> e.r = Corners(e.p, e.p2)
     [] e.f = "bounds"  -> e.r = e.a
     [] e.f = "point"   -> e.r = PointBox(e.p)
     [] e.f = "center"  -> e.r = << [i \in DOMAIN e.p |-> e.p[i] - e.n], [i \in DOMAIN e.p |-> e.p[i] + e.n] >>
     [] e.f = "points"  -> e.r = MergeSeq([i \in DOMAIN e.ps |-> PointBox(e.ps[i])])
     [] e.f = "empty"   -> e.r = <<TRUE, e.a = NoBox>>
     [] e.f = "merge"   -> LET u == Merge(e.a, e.b) IN e.r = <<u, u>>
     [] e.f = "hasp"    -> e.r = BoxHas(e.a, e.p)
     [] e.f = "hasb"    -> e.r = Inside(e.a, e.b)
     [] e.f = "touch"   -> e.r = Touch(e.a, e.b)
     [] e.f = "area"    -> e.r = Area(e.a)
     [] e.f = "common"  -> e.r = Area(Common(e.a, e.b))
     [] e.f = "peri"    -> e.r = Perimeter(e.a)
     [] e.f = "mid"     -> e.r = [i \in DOMAIN e.a[1] |-> (e.a[1][i] + e.a[2][i]) \div 2]
     [] e.f = "near"    -> e.r = Clamp(e.a, e.p)
     [] e.f = "dist"    -> LET d == BoxD2(e.a, e.p) IN e.r = <<d, d>>
     [] e.f = "mmd"     -> e.r = MinMaxD2(e.a, e.p)
     [] e.f = "eq"      -> e.r = (e.a = e.b)
     [] e.f = "nth"     -> e.r = <<e.p[e.i + 1], [e.p EXCEPT ![e.i + 1] = e.n]>>
     [] e.f = "gen"     -> e.r = <<e.p, [i \in 1..e.dim |-> i - 1], e.dim>>
     [] e.f = "sort"    -> /\ IsPerm(e.r, e.bs)
                           /\ \A i \in 1..(Len(e.r) - 1) : e.r[i][1][e.i + 1] <= e.r[i + 1][1][e.i + 1]
     [] e.f = "part"    -> /\ IsPerm(e.r, e.bs)
                           /\ \A i \in 1..e.n : e.r[i][1][e.i + 1] <= e.r[e.n + 1][1][e.i + 1]
                           /\ \A i \in (e.n + 2)..Len(e.r) : e.r[e.n + 1][1][e.i + 1] <= e.r[i][1][e.i + 1]

-----------------------------------------------------------------------------
(* Bulk loading many elements (property C15): counts taken from the        *)
(* hierarchy and from queries, answers paired with what a look at every    *)
(* element gave                                                            *)
BigOk(e) ==
   /\ e.size = e.n /\ e.leaves = e.n /\ e.once = e.n /\ e.iter = e.n
   /\ e.hollow = 0 /\ e.mixed = 0 /\ e.loose = 0
   /\ e.fan <= Max2(e.max, 2 ^ e.dim)
   /\ \A i \in DOMAIN e.qs : e.qs[i][1] = e.qs[i][2] /\ e.qs[i][3] = 0
   /\ \A i \in DOMAIN e.near : e.near[i][1] = e.near[i][2]
   /\ e.gone = e.picks
   /\ LET m == e.n - e.gone + e.fit IN e.size2 = m /\ e.leaves2 = m /\ e.once2 = m
   /\ e.bad2 = 0

-----------------------------------------------------------------------------
(* Trees of elements with arbitrary floating point coordinates: the driver *)
(* compares answers with a look at every element, up to rounding; off      *)
(* counts wrong answers, want and got the elements expected and returned   *)
MetOk(e) == e.off = 0 /\ e.got = e.want

-----------------------------------------------------------------------------
(* Parameters (property C20): the documented rules                         *)
ParamsValid(min, max, rei, dim) ==
   /\ max >= 4
   /\ min >= 1 /\ 2 * min <= max + 1
   /\ rei < max - min
   /\ dim >= 2
ParamsOk(e) == LET ok == ParamsValid(e.min, e.max, e.rei, e.dim) IN e.new = ok /\ e.bulk = ok
=============================================================================
