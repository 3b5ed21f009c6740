------------------------------ MODULE RTreeMC ------------------------------
(***************************************************************************)
(* Explores the abstract machine RTree with every allowed result of every  *)
(* call, over three elements of which two are equal, and checks the        *)
(* properties that the machine is meant to guarantee: conservation of the  *)
(* content (C01, C02, C09, C10, C11, C15, C22), pop order (C09), payloads  *)
(* following their elements (C19), consistency of the queries with each    *)
(* other (C03 - C08, C16, C17).                                            *)
(* Ghosts: put/out count per slot what went in and what came out; last is  *)
(* the distance of the last pop while nothing but pops happen.             *)
(***************************************************************************)
EXTENDS RTree, TLC

CONSTANTS MaxOps, MaxCopies, Slots, Payloads, Hierarchies
Shapes == << [g |-> [s |-> "r", c |-> <<0, 0>>, d |-> <<1, 1>>], e |-> 1],
             [g |-> [s |-> "r", c |-> <<0, 0>>, d |-> <<1, 1>>], e |-> 1],
             [g |-> [s |-> "m", c |-> << <<1, 2>>, <<2, 1>> >>], e |-> 3] >>
MCObjs(c) == Shapes
MCScale(c) == 1
Keys == DOMAIN Shapes
QPts == {<<0, 0>>, <<1, 2>>, <<2, 2>>}
QBoxes == {<< <<0, 0>>, <<2, 2>> >>, << <<1, 1>>, <<1, 1>> >>, << <<1, 2>>, <<3, 3>> >>}
Queries == {[t |-> "all"]} \cup {[t |-> "in", b |-> b] : b \in QBoxes} \cup {[t |-> "x", b |-> b] : b \in QBoxes}
           \cup {[t |-> "at", p |-> p] : p \in QPts} \cup {[t |-> "wd", p |-> p, m |-> m] : p \in QPts, m \in {0, 1}}
           \cup {[t |-> "eq", k |-> k] : k \in Keys}
Customs == {[t |-> "cu", nt |-> n, nm |-> 2, nr |-> 0, ax |-> 1, nv |-> 0, np |-> <<1, 1>>, et |-> e, em |-> 2, er |-> 1, ex |-> 1, ev |-> 0]
            : n \in {"all", "thr", "has"}, e \in {"all", "mod"}}

VARIABLES put, out, last, ops
vars == <<cs, db, dr, put, out, last, ops>>
NoLast == -1

Zero == [k \in Keys |-> 0]
Count(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Init == cs = 0 /\ db = EmptyFn /\ dr = NoDrain /\ ops = 0
        /\ put = [s \in Slots |-> Zero] /\ out = [s \in Slots |-> Zero] /\ last = [s \in Slots |-> NoLast]
Tick == ops < MaxOps /\ ops' = ops + 1
Quiet == UNCHANGED last
Break(s) == last' = [last EXCEPT ![s] = NoLast]
GainNone == UNCHANGED <<put, out>>
Room(s, k) == Count(db[s].bag, k) < MaxCopies
Took(s, r) == /\ UNCHANGED put
              /\ out' = IF r = <<>> THEN out ELSE [out EXCEPT ![s][r[1]] = @ + 1]
ValOf(s, r) == IF r = <<>> THEN <<>> ELSE <<db[s].val[r[1]]>>
Results == {<<>>} \cup {<<k>> : k \in Keys}

DoNew(s) == New(s) /\ put' = [put EXCEPT ![s] = Zero] /\ out' = [out EXCEPT ![s] = Zero] /\ Break(s)
DoBulk(s) == \E ks \in {<<>>, <<1>>, <<1, 3>>, <<1, 2, 3, 3>>} :
   /\ \A k \in RangeOf(ks) : Occ(ks, k) <= MaxCopies
   /\ Bulk(s, ks) /\ put' = [put EXCEPT ![s] = [k \in Keys |-> Occ(ks, k)]]
   /\ out' = [out EXCEPT ![s] = Zero] /\ Break(s)
DoIns(s) == \E k \in Keys : /\ s \in DOMAIN db /\ Room(s, k) /\ Ins(s, k)
   /\ put' = [put EXCEPT ![s][k] = @ + 1] /\ UNCHANGED out /\ Break(s)
DoRem(s) == \E q \in Queries \cup Customs, r \in Results :
   /\ s \in DOMAIN db /\ (q.t = "cu" => db[s].str # NoStr)
   /\ RangeOf(r) \subseteq DOMAIN db[s].bag
   /\ Rem(s, q, r, ValOf(s, r)) /\ Took(s, r) /\ Break(s)
DoPop(s) == \E p \in QPts, r \in Results :
   /\ s \in DOMAIN db /\ RangeOf(r) \subseteq DOMAIN db[s].bag
   /\ Pop(s, p, r, ValOf(s, r)) /\ Took(s, r)
   /\ last' = IF r = <<>> \/ p # <<0, 0>> THEN [last EXCEPT ![s] = NoLast]
              ELSE [last EXCEPT ![s] = Dist(r[1], p)]
   \* C09: repeated popping at one place goes outwards
   /\ Assert(r = <<>> \/ p # <<0, 0>> \/ last[s] <= Dist(r[1], p), "pops out of order")
DoMut(s) == \E q \in {[t |-> "all"]} \cup {[t |-> "at", p |-> <<1, 2>>]}, r \in {<<>>, <<1>>, <<1, 2>>, <<3>>, <<2, 1, 3>>}, n \in {1, 3} :
   /\ s \in DOMAIN db /\ \A k \in DOMAIN db[s].val : db[s].val[k] < Payloads
   /\ Mutate(s, q, n, 1, r) /\ GainNone /\ Quiet
DoClone(s) == \E t \in Slots : /\ Clone(s, t)
   /\ put' = [put EXCEPT ![t] = put[s]] /\ out' = [out EXCEPT ![t] = out[s]] /\ Break(t)
DoDestroy(s) == Destroy(s) /\ put' = [put EXCEPT ![s] = Zero] /\ out' = [out EXCEPT ![s] = Zero] /\ Break(s)
\* flat hierarchies and those with two inner nodes
Sorted(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE <<SetMin(T)>> \o F(T \ {SetMin(T)}) IN F(S)
Leafs(S) == LET c == [e |-> NoBox, n |-> <<>>, l |-> Sorted(S)] IN [c EXCEPT !.e = ChildMerge(c)]
Inner(cs_) == LET c == [e |-> NoBox, n |-> cs_, l |-> <<>>] IN [c EXCEPT !.e = ChildMerge(c)]
HierOf(S) == {Leafs(S)} \cup (IF Cardinality(S) < 2 THEN {} ELSE
             {Inner(<<Leafs(A), Leafs(S \ A)>>) : A \in {X \in SUBSET S : X # {} /\ X # S}})
DoSee(s) == /\ Hierarchies /\ s \in DOMAIN db /\ \A k \in DOMAIN db[s].bag : db[s].bag[k] = 1
            /\ \E c \in HierOf(DOMAIN db[s].bag) : SeeHierarchy(s, c)
            /\ GainNone /\ Quiet
DoDrain(s) == /\ s \in DOMAIN db
              /\ \E q \in {[t |-> "all"], [t |-> "x", b |-> << <<1, 1>>, <<1, 1>> >>], [t |-> "wd", p |-> <<1, 2>>, m |-> 0]} \cup
                           (IF db[s].str = NoStr THEN {} ELSE Customs) : DrainBegin(s, q)
              /\ GainNone /\ Break(s)
DoNext == /\ dr.on
          /\ \E r \in Results : /\ RangeOf(r) \subseteq DOMAIN db[dr.s].bag
                                /\ DrainNext(r, ValOf(dr.s, r)) /\ Took(dr.s, r)
          /\ Quiet
DoEnd == /\ dr.on /\ \/ (DrainDrop /\ GainNone)
                     \/ (DrainBoom /\ GainNone)
                     \/ /\ DrainForget /\ UNCHANGED put
                        /\ out' = IF dr.end THEN out
                                  ELSE [out EXCEPT ![dr.s] = [k \in Keys |-> @[k] + Count(db[dr.s].bag, k)]]
         /\ Quiet
Next == Tick /\ \/ \E s \in Slots : DoNew(s) \/ DoBulk(s) \/ DoIns(s) \/ DoRem(s) \/ DoPop(s) \/ DoMut(s)
                                    \/ DoClone(s) \/ DoDestroy(s) \/ DoDrain(s) \/ DoSee(s)
                                    \/ (RemBoom(s) /\ GainNone /\ Break(s))
                \/ DoNext \/ DoEnd
Spec == Init /\ [][Next]_vars
\* exploration modulo the number of calls, ghosts reduced to what matters
View == <<db, dr, last, [s \in Slots |-> [k \in Keys |-> put[s][k] - out[s][k]]]>>

-----------------------------------------------------------------------------
Conservation == \A s \in DOMAIN db : \A k \in Keys : Count(db[s].bag, k) = put[s][k] - out[s][k]
TypeOk == /\ \A s \in DOMAIN db : /\ DOMAIN db[s].val = DOMAIN db[s].bag
                                  /\ \A k \in DOMAIN db[s].bag : db[s].bag[k] > 0
          /\ dr.on => /\ dr.s \in DOMAIN db
                      /\ \A k \in DOMAIN dr.sel : dr.sel[k] <= Count(db[dr.s].bag, k)
                      /\ dr.end => dr.sel = EmptyFn
SubBag(x, y) == \A k \in DOMAIN x : x[k] <= Count(y, k)
SizeOf(T) == Total(T.bag, DOMAIN T.bag)
QueryLaws == \A s \in DOMAIN db : LET T == db[s] IN
   /\ SelBag(T, [t |-> "all"]) = T.bag
   /\ \A b \in QBoxes : SubBag(SelBag(T, [t |-> "in", b |-> b]), SelBag(T, [t |-> "x", b |-> b]))
   /\ \A p \in QPts : /\ SelBag(T, [t |-> "at", p |-> p]) = SelBag(T, [t |-> "wd", p |-> p, m |-> 0])
                      /\ SubBag(SelBag(T, [t |-> "at", p |-> p]), SelBag(T, [t |-> "x", b |-> PointBox(p)]))
                      /\ SubBag(SelBag(T, [t |-> "wd", p |-> p, m |-> 0]), SelBag(T, [t |-> "wd", p |-> p, m |-> 1]))
                      /\ T.bag # EmptyFn => \E k \in DOMAIN T.bag : Dist(k, p) = MinDist(T, p)
   /\ \A k \in Keys : (DOMAIN SelBag(T, [t |-> "eq", k |-> k]) # {}) = (\E x \in DOMAIN T.bag : Shapes[x].e = Shapes[k].e)
   /\ TouchPairs(s, s) = {<<pr[2], pr[1]>> : pr \in TouchPairs(s, s)}
   /\ \A k \in DOMAIN T.bag : <<k, k>> \in TouchPairs(s, s)
   /\ T.str # NoStr =>
        /\ WellFormed(T.str, T.bag)
        /\ \A q \in Customs : /\ SubBag(SelBag(T, q), T.bag)
                              /\ (q.nt = "all" => BagOfSeq(Offered(T.str, q)) = T.bag)
                              /\ (q.nt = "all" /\ q.et = "all" => SelBag(T, q) = T.bag)
                              /\ (q.nt = "has" => \A k \in DOMAIN T.bag :
                                     (BoxHas(EnvOf(k), q.np) /\ ElemTest(q, k)) => k \in DOMAIN SelBag(T, q))
Inv == Conservation /\ TypeOk /\ QueryLaws
=============================================================================
