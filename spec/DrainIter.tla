----------------------------- MODULE DrainIter -----------------------------
(***************************************************************************)
(* The draining iterator, step by step: the stack of taken-apart nodes,    *)
(* `next`, being dropped at any moment, being forgotten at any moment, a   *)
(* selection function that panics at any moment, and use after the end.    *)
(*                                                                         *)
(* A selection function may look into more inner nodes than it has to      *)
(* (Eager); it has to look into every inner node above a selected element. *)
(* LoseEmptied / StaleDrop are negative controls: a variant that forgets   *)
(* the removals of a child that was emptied, and one that recomputes no    *)
(* envelope while it is dropped.                                           *)
(***************************************************************************)
EXTENDS Trees
CONSTANTS D, K, N, LoseEmptied, StaleDrop
VARIABLES start,    \* hierarchy before draining
          sel,      \* selected elements
          eager,    \* sets of elements whose envelope is looked into without need
          held,     \* [root, size] now held by the tree
          stack,    \* sequence of [nd, idx, rem]
          out,      \* elements yielded, in order
          mode      \* "live", "ended" (yielded None), "dropped", "forgotten", "panicked"
vars == <<start, sel, eager, held, stack, out, mode>>
Range(s) == {s[i] : i \in DOMAIN s}
Unpack(nd) == Len(nd.kids) > 0 /\ (eager \/ nd.env \cap sel # {})

Init ==
   /\ start \in UNION {Roots(D, K, n) : n \in 0..N}
   /\ sel \in SUBSET Under(start)
   /\ eager \in BOOLEAN
   /\ held = [root |-> EmptyRoot, size |-> 0]
   /\ stack = <<[nd |-> start, idx |-> 1, rem |-> 0]>>
   /\ out = <<>>
   /\ mode = "live"

Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
SwapRemove(s, i) == SubSeq(Swap(s, i, Len(s)), 1, Len(s) - 1)
\* one pop of the stack; `adv` as in `increment_idx`
Popped(s, adv) ==
   LET top == s[Len(s)]
       nd0 == top.nd
       nd  == IF top.rem > 0 /\ (adv \/ ~StaleDrop) THEN [nd0 EXCEPT !.env = Under(nd0)] ELSE nd0
       rest == SubSeq(s, 1, Len(s) - 1)
   IN IF rest = <<>> THEN [s |-> <<>>, root |-> nd, rem |-> top.rem]
      ELSE LET p   == rest[Len(rest)]
               gone == Len(nd.kids) = 0
               rem == p.rem + (IF gone /\ LoseEmptied THEN 0 ELSE top.rem)
               ks  == Append(p.nd.kids, nd)
               p2  == IF gone THEN [p EXCEPT !.rem = rem]
                      ELSE IF ~adv THEN [p EXCEPT !.rem = rem, !.nd.kids = ks]
                      ELSE [p EXCEPT !.rem = rem, !.nd.kids = Swap(ks, p.idx, Len(ks)), !.idx = @ + 1]
           IN [s |-> [rest EXCEPT ![Len(rest)] = p2], root |-> EmptyRoot, rem |-> 0]

\* one round of the loop in `next`: either goes on, yields, or ends
Top == stack[Len(stack)]
Step ==
   /\ mode = "live" /\ stack # <<>>
   /\ LET top == Top
          look == top.idx > 1 \/ Unpack(top.nd)
      IN IF look /\ top.idx <= Len(top.nd.kids)
         THEN LET c == top.nd.kids[top.idx] IN
              IF ~c.leaf
              THEN /\ stack' = Append([stack EXCEPT ![Len(stack)].nd.kids = SwapRemove(@, top.idx)], [nd |-> c, idx |-> 1, rem |-> 0])
                   /\ UNCHANGED <<out, held, mode>>
              ELSE IF c.id \in sel
              THEN /\ stack' = [stack EXCEPT ![Len(stack)].nd.kids = SwapRemove(@, top.idx), ![Len(stack)].rem = @ + 1]
                   /\ out' = Append(out, c.id)
                   /\ UNCHANGED <<held, mode>>
              ELSE /\ stack' = [stack EXCEPT ![Len(stack)].idx = @ + 1]
                   /\ UNCHANGED <<out, held, mode>>
         ELSE LET r == Popped(stack, TRUE) IN
              /\ stack' = r.s
              /\ IF r.s = <<>>
                 THEN held' = [root |-> r.root, size |-> Cardinality(Under(start)) - r.rem] /\ mode' = "ended"
                 ELSE UNCHANGED <<held, mode>>
              /\ UNCHANGED out
   /\ UNCHANGED <<start, sel, eager>>

RECURSIVE Unwound(_)
Unwound(s) == LET r == Popped(s, FALSE) IN IF r.s = <<>> THEN r ELSE Unwound(r.s)
DropTo(m) ==
   /\ LET r == Unwound(stack) IN held' = [root |-> r.root, size |-> Cardinality(Under(start)) - r.rem]
   /\ stack' = <<>> /\ mode' = m
   /\ UNCHANGED <<start, sel, eager, out>>
\* between two calls of `next`, and, when the selection function panics, also in
\* the middle of one
Dropped == mode = "live" /\ stack # <<>> /\ DropTo("dropped")
\* forgetting leaves the tree as it is held
Forgotten == mode = "live" /\ mode' = "forgotten" /\ stack' = <<>> /\ UNCHANGED <<start, sel, eager, held, out>>
Next == Step \/ Dropped \/ Forgotten
Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

Finished == mode \in {"ended", "dropped"}
\* C10
OnlySelected == Range(out) \subseteq sel /\ Cardinality(Range(out)) = Len(out)
AllAtTheEnd  == mode = "ended" => Range(out) = sel
Conserved    == Finished => \A k \in Under(start) : Occurrences(held.root, k) = (IF k \in Range(out) THEN 0 ELSE 1)
SizeRight    == Finished => held.size = Cardinality(Under(start)) - Len(out)
\* C12, C13
TightAfter   == Finished => Tight(held.root)
NoEmptyAfter == Finished => NoEmptyInner(held.root)
DepthsKept   == Finished => Heights(held.root) \subseteq Heights(start)
\* C11
LeakEmpties  == mode \in {"live", "forgotten"} => held = [root |-> EmptyRoot, size |-> 0]
\* termination of one drain: left alone it always comes to its end
Ends == <>(mode # "live")
=============================================================================
