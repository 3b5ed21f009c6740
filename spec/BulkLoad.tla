------------------------------ MODULE BulkLoad ------------------------------
(***************************************************************************)
(* The arithmetic of overlap minimizing top-down bulk loading: how many    *)
(* elements each subtree of a node gets.  Which elements they are does not *)
(* matter here.  One state per number of elements.                         *)
(* Extra: how far the depth estimate (a logarithm in floating point) may   *)
(* be too large; a power of MaxSize can be taken for a little more.        *)
(***************************************************************************)
EXTENDS Geom

CONSTANTS MaxSize, Dim, N, Extra
VARIABLE n

Pow(b, k) == ProdSeq([i \in 1..k |-> b])
CeilDiv(a, b) == (a + b - 1) \div b
Depth(x) == CHOOSE d \in 1..20 : Pow(MaxSize, d) >= x /\ (d = 1 \/ Pow(MaxSize, d - 1) < x)
Root(x) == CHOOSE r \in 1..(MaxSize + 1) : Pow(r, Dim) <= x /\ Pow(r + 1, Dim) > x
\* number of parts along each axis
OnAxis(x, extra) == Max2(2, Root(CeilDiv(x, Pow(MaxSize, Depth(x) + extra - 1))))
\* sizes of the slabs along one axis, last to first
Slabs(x, c) == LET s == CeilDiv(x, c)  k == CeilDiv(x, s) IN
               [i \in 1..k |-> IF i = k THEN x - (k - 1) * s ELSE s]
RECURSIVE Cat(_, _)
Cat(f, i) == IF i = 0 THEN <<>> ELSE Cat(f, i - 1) \o f[i]
\* sizes after partitioning along a axes
RECURSIVE Parts(_, _, _)
Parts(x, c, a) == IF a = 0 THEN <<x>>
                  ELSE LET sl == Slabs(x, c) IN Cat([i \in DOMAIN sl |-> Parts(sl[i], c, a - 1)], Len(sl))
Children(x, extra) == Parts(x, OnAxis(x, extra), Dim)
\* least and greatest depth of the elements below a node of x elements
RECURSIVE Depths(_)
Depths(x) == IF x <= MaxSize THEN {1}
             ELSE {d + 1 : d \in UNION {Depths(y) : y \in RangeOf(Children(x, 0))}}

Init == n = MaxSize + 1
Next == n < N /\ n' = n + 1
Spec == Init /\ [][Next]_n

\* the depth estimate can only be too large where x is a power of MaxSize
Extras == IF Extra /\ Pow(MaxSize, Depth(n)) = n THEN {0, 1} ELSE {0}
Conserves == \A e \in Extras : SumSeq(Children(n, e)) = n          \* C15, C01
Progress == \A e \in Extras : \A y \in RangeOf(Children(n, e)) : 0 < y /\ y < n    \* C14: it ends
FanBound == \A e \in Extras : Len(Children(n, e)) <= Max2(MaxSize, Pow(2, Dim))      \* C15
AtLeastTwo == \A e \in Extras : Len(Children(n, e)) >= 2
\* not guaranteed: equal depth.  Insertion must cope with depths that differ.
EqualDepth == Cardinality(Depths(n)) = 1
NearlyEqualDepth == LET D == Depths(n) IN SetMax(D) - SetMin(D) <= 1
=============================================================================
