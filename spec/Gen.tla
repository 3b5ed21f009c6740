------------------------------ MODULE Gen ------------------------------
(***************************************************************************)
(* Behaviours of the abstract machine, written out as lists of calls for   *)
(* the driver to replay on the real rstar.  The exploration visits every   *)
(* abstract state - which of six elements are held next to which           *)
(* background, how the tree came to be, whether anything was removed - by  *)
(* a shortest history, and emits, for every state and every call that the  *)
(* property Prop is about, that history followed by the call and by        *)
(* observations.  What the calls really return is recorded by the driver   *)
(* and judged by Trace.tla.                                                *)
(***************************************************************************)
EXTENDS RTree, TLC, Json, IOUtils, Randomization

CONSTANTS Share      \* emit one of Share behaviours
Prop == IOEnv.GENPROP
Seed == atoi(IOEnv.GENSEED)

Rest(a, b) == a - b * (a \div b)
\* 1, 2 are equal, 3 lies at the same place, 4.. elsewhere, the background from 7 on
Pt(k) == CASE k <= 3 -> <<3, 3>> [] k = 4 -> <<5, 3>> [] k = 5 -> <<3, 6>> [] k = 6 -> <<9, 9>>
           [] OTHER -> <<Rest(5 * k, 13), Rest(3 * k, 11) + 1>>
GenObjs(c) == [k \in 1..30 |-> [g |-> [s |-> "p", c |-> Pt(k)], e |-> IF k = 2 THEN 1 ELSE k]]
GenScale(c) == 1
Front == 1..6
Backs == {<<>>, [i \in 1..5 |-> i + 6], [i \in 1..24 |-> i + 6]}

VARIABLE path
vars == <<cs, db, dr, path>>
T == db[1]
HeldKeys == DOMAIN T.bag
Points == {<<3, 3>>, <<4, 3>>, <<9, 9>>, <<0, 0>>}
Boxes == {<<<<3, 3>>, <<3, 3>>>>, <<<<3, 3>>, <<5, 6>>>>, <<<<0, 0>>, <<12, 12>>>>, <<<<4, 4>>, <<8, 8>>>>, <<<<5, 0>>, <<12, 9>>>>}
Ranges == {<<<<3, 3>>, 0>>, <<<<3, 3>>, 4>>, <<<<4, 3>>, 1>>, <<<<9, 9>>, 50>>, <<<<0, 0>>, 1000>>, <<<<7, 7>>, -1>>}
QAll == [t |-> "all"]
QIn == {[t |-> "in", b |-> b] : b \in Boxes}
QX == {[t |-> "x", b |-> b] : b \in Boxes}
QAt == {[t |-> "at", p |-> p] : p \in Points}
QWd == {[t |-> "wd", p |-> w[1], m |-> w[2]] : w \in Ranges}
QEq == {[t |-> "eq", k |-> k] : k \in Front \cup {7}}
Cu(nt, nm, et) == [t |-> "cu", nt |-> nt, ax |-> 1, nv |-> 3, nm |-> nm, nr |-> 0, np |-> <<5, 5>>, et |-> et, em |-> 2, er |-> 1, ex |-> 1, ev |-> 5]
QCu == {Cu("all", 2, "all"), Cu("all", 2, "mod"), Cu("thr", 2, "all"), Cu("mod", 2, "thr"), Cu("mod", 3, "all"), Cu("has", 2, "all"), Cu("none", 2, "all")}

\* calls (slot 1)
Ins1(k) == [op |-> "Ins", s |-> 1, k |-> k]
Rem1(q) == [op |-> "Rem", s |-> 1, q |-> q]
Pop1(p) == [op |-> "Pop", s |-> 1, p |-> p]
Drain1(q, n, m, boom) == [op |-> "Drain", s |-> 1, q |-> q, n |-> n, m |-> m, boom |-> boom]
SeeOn(s, chk) == [op |-> "Str", s |-> s, chk |-> chk]
SizeOn(s) == [op |-> "Size", s |-> s]
IterOn(s, w) == [op |-> "Iter", s |-> s, w |-> w]
Loc1(q, w) == [op |-> "Loc", s |-> 1, q |-> q, w |-> w]

Put1(b, R, forget) == Put(1, IF forget THEN EmptyTree ELSE
   LET bag == Restrict(T.bag, DOMAIN T.bag \ R) IN [T EXCEPT !.bag = bag, !.val = Restrict(T.val, DOMAIN bag), !.rm = TRUE])
RECURSIVE FirstKeys(_, _)
FirstKeys(S, n) == IF n = 0 \/ S = {} THEN {} ELSE LET x == SetMin(S) IN {x} \cup FirstKeys(S \ {x}, n - 1)
\* effect of a call on the abstract state, with one of the allowed results
Apply(o) ==
   CASE o.op = "Ins" -> Ins(1, o.k)
     [] o.op = "Rem" -> LET S == DOMAIN SelBag(T, o.q) IN Rem(1, o.q, IF S = {} THEN <<>> ELSE <<SetMin(S)>>, <<>>)
     [] o.op = "Pop" -> LET S == {k \in HeldKeys : Dist(k, o.p) = MinDist(T, o.p)} IN
                        IF T.bag = EmptyFn THEN Pop(1, o.p, <<>>, <<>>) ELSE Pop(1, o.p, <<SetMin(S)>>, <<>>)
     [] o.op = "Drain" -> LET S == DOMAIN SelBag(T, o.q)  R == FirstKeys(S, o.n) IN
                          Put1(T, R, o.m = "forget" /\ o.n <= Cardinality(S)) /\ UNCHANGED <<cs, dr>>
     [] OTHER -> UNCHANGED <<cs, db, dr>>

\* calls that lead from state to state
Moves == {Ins1(k) : k \in {x \in Front : x \notin HeldKeys}} \cup {Rem1([t |-> "eq", k |-> k]) : k \in HeldKeys \cap Front}
         \cup {Drain1([t |-> "x", b |-> <<<<3, 3>>, <<5, 6>>>>], n, "drop", 0) : n \in {1, 99}}
Starts == {<<[op |-> "New", s |-> 1, dp |-> 0]>>} \cup
          {<<[op |-> "Bulk", s |-> 1, ks |-> f \o b, dp |-> 0]>> : f \in {<<>>, <<1, 4>>, <<1, 2, 3, 4, 5, 6>>}, b \in Backs}
StartTree(st) == IF st[1].op = "New" THEN EmptyTree
               ELSE LET b == BagOfSeq(st[1].ks) IN Tree(b, [x \in DOMAIN b |-> 0], "bulk")
Init == cs = 0 /\ dr = NoDrain /\ \E st \in Starts : path = st /\ db = 1 :> StartTree(st)
\* elements of the background only come and go with the tree; New is followed by insertions
Grow == /\ path[Len(path)].op = "New" /\ \E b \in Backs : b # <<>> /\
             LET F(i) == Ins1(b[i])  bag == BagOfSeq(b) IN
             /\ path' = path \o [i \in DOMAIN b |-> F(i)]
             /\ db' = 1 :> Tree(bag, [x \in DOMAIN bag |-> 0], "inc") /\ UNCHANGED <<cs, dr>>
Next == Grow \/ \E o \in Moves : Apply(o) /\ path' = Append(path, o)
Spec == Init /\ [][Next]_vars
View == <<T.bag, T.hist, T.rm>>

-----------------------------------------------------------------------------
Mutators == Moves \cup {Rem1(q) : q \in QEq \cup QAt} \cup {Pop1(p) : p \in Points}
            \cup {Drain1(q, n, "drop", 0) : q \in {QAll} \cup QX \cup QWd, n \in {0, 1, 3, 99}}
Ws == {"ext", "mut", "int", "intmut"}
Looks == <<SizeOn(1), SeeOn(1, <<"wf">>), IterOn(1, "iter")>>
More == <<Loc1([t |-> "x", b |-> <<<<3, 3>>, <<5, 6>>>>], "ext"), [op |-> "NN", s |-> 1, p |-> <<4, 3>>, w |-> "d2"], Ins1(8), Ins1(9),
          SeeOn(1, <<"wf">>), [op |-> "NNI", s |-> 1, p |-> <<3, 3>>, w |-> "d2", n |-> 99]>>
\* what follows the history: sequences of calls; those that decide the property are marked o = 1
Own(x) == [i \in DOMAIN x |-> [o |-> 1] @@ x[i]]
Other(x) == [i \in DOMAIN x |-> [o |-> 0] @@ x[i]]
AfterChange(o, own) == Other(Looks) \o Own(<<o>>) \o (IF own THEN Own(Looks \o More) ELSE Other(Looks \o More))
Boom(q, n, b, m) == Drain1(q, n, m, b)
Tails ==
   CASE Prop = "C01" -> {Other(<<o>>) \o Own(<<SizeOn(1), IterOn(1, w), [op |-> "Into", s |-> 1]>>) : o \in Mutators, w \in {"iter", "formut"}}
     [] Prop = "C02" -> {Own(<<[op |-> "Has", s |-> 1, k |-> k], Rem1([t |-> "eq", k |-> k]), IterOn(1, "iter"), SizeOn(1), [op |-> "Has", s |-> 1, k |-> k],
                               Rem1([t |-> "eq", k |-> k]), IterOn(1, "for")>>) : k \in Front \cup {7}}
     [] Prop = "C03" -> {Own(<<Loc1(q, w), [op |-> "Take", s |-> 1, q |-> q, w |-> "ext", n |-> 2]>>) : q \in QIn \cup QX, w \in Ws}
     [] Prop = "C04" -> {Own(<<Loc1(q, w), [op |-> "One", s |-> 1, p |-> q.p, w |-> w], Rem1(q), IterOn(1, "iter"), [op |-> "One", s |-> 1, p |-> q.p, w |-> w]>>) : q \in QAt, w \in Ws}
     [] Prop = "C05" -> {Own(<<[op |-> "NN", s |-> 1, p |-> p, w |-> w]>>) : p \in Points \cup {<<12, 12>>, <<6, 6>>}, w \in {"d2", "plain"}}
     [] Prop = "C06" -> {Own(<<[op |-> "NNI", s |-> 1, p |-> p, w |-> w, n |-> n]>>) : p \in Points, w \in {"d2", "plain", "old"}, n \in {2, 99}}
     [] Prop = "C07" -> {Own(<<[op |-> "NNs", s |-> 1, p |-> p, w |-> w]>>) : p \in Points \cup {<<12, 12>>, <<6, 6>>}, w \in {"d2", "plain"}}
     [] Prop = "C08" -> {Own(<<Loc1(q, "ext")>>) : q \in QWd}
     [] Prop = "C09" -> {Own(<<Pop1(p), IterOn(1, "iter"), SizeOn(1), Pop1(p), Pop1(p), Pop1(p2), IterOn(1, "for"), SizeOn(1)>>) : p, p2 \in Points}
     [] Prop = "C10" -> {AfterChange(Drain1(q, n, "drop", 0), TRUE) : q \in {QAll} \cup QIn \cup QX \cup QWd, n \in {0, 1, 2, 5, 99}}
     [] Prop = "C11" -> {AfterChange(Drain1(q, n, "forget", 0), TRUE) : q \in {QAll} \cup QX \cup QWd \cup QCu, n \in {0, 1, 2, 99}}
                        \cup {AfterChange(Drain1(q, n, m, b), TRUE) : q \in QCu, n \in {1, 3, 99}, m \in {"drop", "forget"}, b \in {1, 2, 3, 5, 8}}
                        \cup {AfterChange([boom |-> b] @@ Rem1(q), TRUE) : q \in QCu \cup QEq, b \in {1, 2, 3, 5}}
     [] Prop = "C12" -> {Own(<<SeeOn(1, <<"wf">>)>>) \o Other(<<o>>) \o Own(<<SeeOn(1, <<"wf">>)>>) \o Other(<<Ins1(8)>>) \o Own(<<SeeOn(1, <<"wf">>)>>) : o \in Mutators}
     [] Prop = "C13" -> {Other(<<o>>) \o Own(<<SeeOn(1, <<"inc">>)>>) \o Other(<<Ins1(8), Ins1(9)>>) \o Own(<<SeeOn(1, <<"inc">>)>>) : o \in Mutators}
     [] Prop = "C14" -> {Own(<<o>> \o Looks \o More \o <<[op |-> "Into", s |-> 1]>>) : o \in Mutators}
     [] Prop = "C15" -> {Own(<<SeeOn(1, <<"wf", "bulk">>), IterOn(1, "iter"), SizeOn(1), Loc1(q, "ext"), Loc1(r, "mut")>> \o More \o <<Rem1([t |-> "eq", k |-> 4])>> \o Looks)
                         : q \in QIn, r \in QWd}
     [] Prop = "C16" -> {Own(<<[op |-> "Bulk", s |-> 2, ks |-> ks, dp |-> 1], [op |-> "Join", s |-> 1, s2 |-> 2]>>)
                         : ks \in {<<>>, <<1>>, <<1, 2, 3>>, <<7, 8, 9, 10, 11>>, [i \in 1..24 |-> i + 6], [i \in 1..30 |-> i], <<5, 6>>}}
     [] Prop = "C17" -> {Other(<<SeeOn(1, <<>>)>>) \o Own(<<Loc1(q, w)>>) : q \in QCu, w \in {"ext", "mut"}}
                        \cup {Other(<<SeeOn(1, <<>>)>>) \o Own(<<o, IterOn(1, "iter"), SizeOn(1), SeeOn(1, <<"wf">>)>>)
                              : o \in {Rem1(q) : q \in QCu} \cup {Drain1(q, n, "drop", 0) : q \in QCu, n \in {0, 1, 2, 99}}}
     [] Prop = "C18" -> {Own(<<[op |-> "Visit", s |-> 1, q |-> q, w |-> w, n |-> n]>>) : q \in QIn \cup QX \cup QAt, w \in {"int", "intmut"}, n \in {1, 2, 4, 99}}
     [] Prop = "C19" -> {Other(Looks) \o Own(<<[op |-> "Mut", s |-> 1, q |-> q, w |-> w, n |-> n, d |-> 3]>> \o Looks \o <<Rem1([t |-> "eq", k |-> 1])>> \o Looks)
                         : q \in QIn \cup QX \cup QAt, w \in {"mut", "intmut"}, n \in {1, 99}}
                        \cup {Other(Looks) \o Own(<<[op |-> "Mut", s |-> 1, q |-> q, w |-> "mut", n |-> n, d |-> 3]>> \o Looks) : q \in {QAll}, n \in {1, 99}}
     [] Prop \in {"C21", "C22"} ->
          {Other(Looks) \o Own(<<IF Prop = "C21" THEN [op |-> "Serde", s |-> 1, to |-> 2] ELSE [op |-> "Clone", s |-> 1, to |-> 2, w |-> "clone"],
                                 SizeOn(2), SeeOn(2, <<"wf">>), IterOn(2, "iter"), o>> \o Looks
                               \o <<SizeOn(2), SeeOn(2, <<"wf">>), IterOn(2, "for"), [op |-> "Pop", s |-> 2, p |-> <<3, 3>>], [op |-> "Into", s |-> 2]>> \o Looks) : o \in Mutators}
     [] OTHER -> {Own(<<Loc1(q, w), [op |-> "NN", s |-> 1, p |-> <<4, 3>>, w |-> "d2"]>>) : q \in QIn \cup QX \cup QAt, w \in Ws}
                 \cup {Own(<<Loc1(q, "ext"), [op |-> "NNI", s |-> 1, p |-> q.p, w |-> "d2", n |-> 99], [op |-> "NNs", s |-> 1, p |-> q.p, w |-> "d2"]>>) : q \in QWd}
                 \cup {Own(<<[op |-> "Has", s |-> 1, k |-> k]>>) : k \in Front}

Relevant == CASE Prop = "C13" -> T.hist = "inc" [] Prop = "C15" -> path[1].op = "Bulk" [] OTHER -> TRUE
\* a share of the tails, another one in every state
Sum(f) == SumSeq([i \in DOMAIN f |-> i])
Chosen1(S) == IF Share = 1 THEN S ELSE RandomSubset((Cardinality(S) + Share - 1) \div Share, S)
Emit == Relevant => \A t \in Chosen1(Tails) : PrintT(<<"OPS", ToJson(Other(path) \o t)>>)
=============================================================================
