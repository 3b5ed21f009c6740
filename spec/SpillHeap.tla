----------------------------- MODULE SpillHeap -----------------------------
(***************************************************************************)
(* The queue of the nearest neighbour searches: a priority queue of fixed  *)
(* capacity that turns into an unbounded one as soon as it would overflow. *)
(* Checked against one plain bag of entries.  DropOnSpill is a negative    *)
(* control: a spill that forgets the entry that did not fit.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Cap, M, Steps, DropOnSpill
VARIABLES kind, items, ghost, popped, n
vars == <<kind, items, ghost, popped, n>>
\* an entry is <<key, serial number>>
Entries(s, from) == {<<s[i], from + i>> : i \in DOMAIN s}
Init == kind = "stack" /\ items = {} /\ ghost = {} /\ popped = {} /\ n = 0
Size == Cardinality(items)
Push(k) ==
   LET e == <<k, n + 1>> IN
   /\ n < Steps /\ n' = n + 1
   /\ ghost' = ghost \cup {e}
   /\ IF kind = "stack" /\ Size = Cap
      THEN kind' = "heap" /\ items' = IF DropOnSpill THEN items ELSE items \cup {e}
      ELSE items' = items \cup {e} /\ UNCHANGED kind
   /\ UNCHANGED popped
Extend(s) ==
   /\ n + Len(s) <= Steps /\ n' = n + Len(s)
   /\ ghost' = ghost \cup Entries(s, n)
   /\ items' = items \cup Entries(s, n)
   /\ kind' = IF kind = "stack" /\ Cap >= Size + Len(s) THEN "stack" ELSE "heap"
   /\ UNCHANGED popped
Pop ==
   /\ items # {}
   /\ \E e \in items : /\ \A f \in items : e[1] <= f[1]
                       /\ items' = items \ {e} /\ ghost' = ghost \ {e} /\ popped' = {e}
   /\ UNCHANGED <<kind, n>>
Next == (\E k \in 0..M : Push(k)) \/ (\E l \in 0..3 : \E s \in [1..l -> 0..M] : Extend(s)) \/ Pop
Spec == Init /\ [][Next]_vars
Same     == items = ghost
Fits     == kind = "stack" => Size <= Cap
PopsLeast == [][(Cardinality(ghost') < Cardinality(ghost)) => \A e \in popped' : \A f \in ghost : e[1] <= f[1]]_vars
=============================================================================
