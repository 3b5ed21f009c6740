------------------------------ MODULE Trace ------------------------------
(***************************************************************************)
(* Trace validation.  The log holds many independent cases: a "Case" line  *)
(* with the case's element table, followed by one line per call that the   *)
(* driver made on the real rstar, with the results it observed.  Every     *)
(* case is a behaviour of the abstract machine exactly if all its lines    *)
(* can be consumed; the case is then reported as DONE.                     *)
(***************************************************************************)
EXTENDS RTree, Pure, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.LOG)
Verbose == IOEnv.VERBOSE = "1"
LogObjs(c) == Log[c].objs
LogScale(c) == Log[c].sc

VARIABLE l
vars == <<cs, db, dr, l>>

CaseLines == {i \in DOMAIN Log : Log[i].op = "Case"}
TraceInit == /\ cs \in CaseLines
             /\ l = cs
             /\ db = EmptyFn
             /\ dr = NoDrain

\* an event of a call that returned
Step(e) ==
   CASE e.op = "New"   -> New(e.s)
     [] e.op = "Bulk"  -> Bulk(e.s, e.ks)
     [] e.op = "Ins"   -> Ins(e.s, e.k)
     [] e.op = "Size"  -> Size(e.s, e.n)
     [] e.op = "Iter"  -> Iterate(e.s, e.r, e.v)
     [] e.op = "Into"  -> Consume(e.s, e.r, e.v)
     [] e.op = "Kill"  -> Destroy(e.s)
     [] e.op = "Has"   -> Contains(e.s, e.k, e.a)
     [] e.op = "Rem"   -> Rem(e.s, e.q, e.r, e.v)
     [] e.op = "RemBoom" -> RemBoom(e.s)
     [] e.op = "Loc"   -> /\ Locate(e.s, e.q, e.r, e.v)
                          /\ ~e.b
                          /\ e.q.t = "cu" => Shown(e.s, e.q, e.sh)
     [] e.op = "Take"  -> Take(e.s, e.q, e.n, e.r, e.v)
     [] e.op = "Visit" -> Visit(e.s, e.q, e.n, e.r, e.v, e.b)
     [] e.op = "Mut"   -> Mutate(e.s, e.q, e.n, e.d, e.r)
     [] e.op = "One"   -> LocateOne(e.s, [t |-> "at", p |-> e.p], e.r, e.v)
     [] e.op = "NN"    -> Nearest(e.s, e.p, e.r, e.v) /\ DistsAre(e.p, e.r, e.d)
     [] e.op = "NNI"   -> NearestIter(e.s, e.p, e.n, e.r, e.v) /\ DistsAre(e.p, e.r, e.d)
     [] e.op = "NNs"   -> AllNearest(e.s, e.p, e.r, e.v) /\ DistsAre(e.p, e.r, e.d)
     [] e.op = "Pop"   -> Pop(e.s, e.p, e.r, e.v)
     [] e.op = "DrB"   -> DrainBegin(e.s, e.q)
     [] e.op = "DrN"   -> IF e.x = 1 THEN DrainBoom ELSE DrainNext(e.r, e.v)
     [] e.op = "DrE"   -> IF e.m = "forget" THEN DrainForget ELSE DrainDrop
     [] e.op = "Clone" -> Clone(e.s, e.to)
     [] e.op = "Serde" -> Clone(e.s, e.to)
     [] e.op = "Join"  -> Join(e.s, e.s2, e.r)
     [] e.op = "Str"   -> /\ SeeHierarchy(e.s, e.c)
                          /\ \A i \in DOMAIN e.chk :
                               LET k == e.chk[i] IN
                               /\ k = "wf"   => NodeOk(e.c)
                               /\ k = "inc"  => BalancedIs(db[e.s], e.c, Log[cs].min, Log[cs].max)
                               /\ k = "bulk" => BulkIs(db[e.s], e.c, Log[cs].max, Log[cs].dim)
     [] e.op = "Prim"  -> PrimOk(e) /\ Same
     [] e.op = "Box"   -> BoxOk(e) /\ Same
     [] e.op = "Big"   -> BigOk(e) /\ Same
     [] e.op = "Met"   -> MetOk(e) /\ Same
     [] e.op = "Prm"   -> ParamsOk(e) /\ Same

AtEnd(i) == i = Len(Log) \/ Log[i + 1].op = "Case"
TraceNext ==
   /\ ~AtEnd(l)
   /\ LET e == Log[l + 1] IN
        /\ "panic" \notin DOMAIN e     \* no call may panic, abort or hang
        /\ Step(e)
   /\ l' = l + 1
   /\ Verbose => PrintT(<<"AT", cs, l + 1>>)
   /\ AtEnd(l + 1) => PrintT(<<"DONE", cs>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
