------------------------------ MODULE MeqForest ------------------------------
(* The node engine of MEQ/src/Node.cc and NodeNursery.cc (sequential polling):
   how a forest of nodes answers a request, with result caching keyed on masked
   request ids, cache hold/release hints, state dependencies, fail and
   missing-data policies, activity flags, request riders and abort.

   A forest is a sequence of node records.  Exec(S,n,req) is the whole
   evaluation of node n (Node::execute), written as a recursive operator;
   Fresh(N,n,req) is what the same forest yields when nothing is cached.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MODULUS == 9973
IterBit == 1
StateBit == 2
DomainBit == 4
NBITS == 16

(***************************** request ids *********************************)
Sub(id,b) == IF b+1 <= Len(id) THEN id[b+1] ELSE 0
Max2(a,b) == IF a > b THEN a ELSE b
Min2(a,b) == IF a < b THEN a ELSE b
DiffMask(a,b) == {i \in 0..(Min2(Max2(Len(a),Len(b)),NBITS)-1) : Sub(a,i) # Sub(b,i)}
\* request types, first element of an id: 0 none, 1 ev, 2 e1, 3 e2, 4 ds, 5 pu
RType(id) == Sub(id,0)
EvalMode(id) == CASE RType(id) \in {0,1} -> 0 [] RType(id) = 2 -> 1 [] RType(id) = 3 -> 2 [] OTHER -> -1

(***************************** results *************************************)
NoneRes    == [k |-> "none"]
EmptyRes   == [k |-> "empty"]
MissingRes == [k |-> "missing"]
ValRes(v,np) == [k |-> "val", v |-> v, np |-> np]
FailRes(f) == [k |-> "fail", f |-> f]
Strip(r) == IF r.k = "val" THEN [r EXCEPT !.np = 0] ELSE r

(* Value seen by a parent in a child's result (harness/h_meq.cc, VNode) *)
ChildVal(r) == CASE r.k \in {"none","empty"} -> 555 [] r.k = "fail" -> 7777
                 [] r.k = "missing" -> 8888 [] OTHER -> r.v

RECURSIVE SumCh(_,_)
SumCh(rs,i) == IF i > Len(rs) THEN 0 ELSE (3*(i-1)+2)*ChildVal(rs[i]) + SumCh(rs,i+1)
RECURSIVE SumId(_,_)
SumId(reads,id) == IF reads = {} THEN 0
                   ELSE LET b == CHOOSE x \in reads : TRUE
                        IN (b*b*11+b)*Sub(id,b) + SumId(reads \ {b},id)
RECURSIVE MaxNp(_,_)
MaxNp(rs,i) == IF i > Len(rs) THEN 0
               ELSE Max2(IF rs[i].k = "val" THEN rs[i].np ELSE 0, MaxNp(rs,i+1))

(* getResult() of the harness node: [fl |-> set of flags, res |-> result] *)
Eval(nd,ni,req,rs) ==
  LET v  == (nd.c0 + 17*nd.sv + SumId(nd.reads,req.id) + SumCh(rs,1)) % MODULUS
      np == Max2(IF nd.pert = 1 /\ EvalMode(req.id) > 0 THEN EvalMode(req.id) ELSE 0, MaxNp(rs,1))
  IN CASE nd.abrt = 1 -> [fl |-> {}, res |-> NoneRes, abrt |-> TRUE, thr |-> FALSE]
       [] nd.abrt # 1 /\ nd.waitmod > 0 /\ v % Max2(nd.waitmod,1) = 0 ->
            [fl |-> {"WAIT"}, res |-> NoneRes, abrt |-> FALSE, thr |-> FALSE]
       [] nd.abrt # 1 /\ ~(nd.waitmod > 0 /\ v % Max2(nd.waitmod,1) = 0)
            /\ nd.failmod > 0 /\ v % Max2(nd.failmod,1) = 0 ->
            [fl |-> {"FAIL"}, res |-> FailRes(<<ni>>), abrt |-> FALSE, thr |-> nd.thr = 1]
       [] nd.abrt # 1 /\ ~(nd.waitmod > 0 /\ v % Max2(nd.waitmod,1) = 0)
            /\ ~(nd.failmod > 0 /\ v % Max2(nd.failmod,1) = 0)
            /\ nd.missmod > 0 /\ v % Max2(nd.missmod,1) = 0 ->
            [fl |-> {"MISSING"}, res |-> MissingRes, abrt |-> FALSE, thr |-> FALSE]
       [] OTHER -> [fl |-> IF nd.ignt = 1 THEN {"IGNT"} ELSE {}, res |-> ValRes(v,np),
                    abrt |-> FALSE, thr |-> FALSE]

(***************************** fresh evaluation ****************************)
(* What a forest that never cached anything answers: the oracle.
   Returns [fl, res, abrt]: fl is restricted to FAIL, MISSING, WAIT, ABORT.  *)
IGNORE  == 0
ABANDON == 1
COLLECT == 2

RECURSIVE Fresh(_,_,_)
RECURSIVE FreshPoll(_,_,_,_)
FreshInit(nch) == [rs |-> [i \in 1..nch |-> NoneRes], fl |-> {}, fails |-> <<>>, stop |-> FALSE]
FreshPoll(N,n,req,acc) ==    \* acc.i: position in the poll order
  LET nd == N[n] IN
  IF acc.stop \/ acc.i > Len(nd.ch) THEN acc
  ELSE LET ich == nd.order[acc.i]
           r   == Fresh(N,nd.ch[ich],req)
           fl2 == acc.fl \cup r.fl
           stp == \/ "ABORT" \in r.fl
                  \/ "FAIL" \in r.fl /\ nd.fpol = ABANDON
                  \/ "FAIL" \notin r.fl /\ "MISSING" \in r.fl /\ nd.mpol = ABANDON
           fl3 == IF "FAIL" \in r.fl /\ "ABORT" \notin r.fl THEN acc.fails \o r.res.f ELSE acc.fails
       IN FreshPoll(N,n,req,[acc EXCEPT !.i = acc.i+1, !.rs[ich] = r.res, !.fl = fl2,
                                        !.fails = fl3, !.stop = stp])
Fresh(N,n,req) ==
  LET nd == N[n] IN
  IF ~nd.active THEN [fl |-> {}, res |-> EmptyRes]
  ELSE
    LET p   == FreshPoll(N,n,req,[rs |-> [i \in 1..Len(nd.ch) |-> NoneRes], fl |-> {}, fails |-> <<>>,
                                  stop |-> FALSE, i |-> 1])
        fl1 == IF nd.fpol = IGNORE THEN p.fl \ {"FAIL"} ELSE p.fl
        fl2 == IF nd.mpol = IGNORE THEN fl1 \ {"MISSING"} ELSE fl1
    IN CASE "WAIT" \in fl2 -> [fl |-> fl2, res |-> IF "FAIL" \in fl2 THEN FailRes(p.fails) ELSE NoneRes]
         [] "WAIT" \notin fl2 /\ "FAIL" \in fl2 -> [fl |-> fl2, res |-> FailRes(p.fails)]
         [] "WAIT" \notin fl2 /\ "FAIL" \notin fl2 /\ "MISSING" \in fl2 ->
              [fl |-> fl2, res |-> MissingRes]
         [] OTHER ->
              IF ~req.cells THEN [fl |-> {}, res |-> EmptyRes]
              ELSE IF EvalMode(req.id) < 0 THEN [fl |-> {}, res |-> EmptyRes]
              ELSE LET e == Eval(nd,n,req,p.rs)
                   IN [fl |-> e.fl \ {"IGNT"}, res |-> e.res]

(***************************** riders **************************************)
(* A rider is a sequence of entries [g (group), kind, names, idx, cmd, arg, bad];
   kinds in the order in which a node looks at them inside one group:
   all, list (only the first matching list entry), ni.                       *)
KindRank(k) == CASE k = "all" -> 1 [] k = "list" -> 2 [] OTHER -> 3
Matches(nd,n,e) ==
  CASE e.kind = "all" -> TRUE
    [] e.kind = "list" -> \/ \E i \in 1..Len(e.names) : e.names[i] = nd.name
                          \/ \E i \in 1..Len(e.idx) : e.idx[i] = n
                          \/ Len(e.names) = 0 /\ Len(e.idx) = 0
    [] OTHER -> e.idx[1] = n
RECURSIVE SelectList(_,_,_,_)
SelectList(nd,n,r,i) ==      \* the first matching "list" entry only
  IF i > Len(r) THEN <<>>
  ELSE IF Matches(nd,n,r[i]) THEN <<r[i]>> ELSE SelectList(nd,n,r,i+1)
Filter(r,g,k) == SelectSeq(r,LAMBDA e : e.g = g /\ e.kind = k)
RECURSIVE NodeCmds(_,_,_,_)
NodeCmds(nd,n,rider,gi) ==
  IF gi > Len(nd.groups) THEN <<>>
  ELSE LET g == nd.groups[gi]
       IN Filter(rider,g,"all") \o SelectList(nd,n,Filter(rider,g,"list"),1)
          \o SelectSeq(Filter(rider,g,"ni"),LAMBDA e : e.idx[1] = n)
          \o NodeCmds(nd,n,rider,gi+1)
RECURSIVE UpToBad(_,_)
UpToBad(cs,i) == IF i > Len(cs) THEN <<>>
                 ELSE IF cs[i].bad = 1 THEN <<cs[i]>> ELSE <<cs[i]>> \o UpToBad(cs,i+1)
HasBad(cs) == \E i \in 1..Len(cs) : cs[i].bad = 1

(***************************** node state **********************************)
NoCache == [ok |-> FALSE, rqid |-> <<>>, mask |-> {}, fl |-> {}, res |-> NoneRes]

RECURSIVE PropState(_,_)
PropState(N,n) ==        \* Node::propagateStateDependency
  IF N[n].hsd THEN N
  ELSE LET N1 == [N EXCEPT ![n].hsd = TRUE]
           RECURSIVE Up(_,_)
           Up(M,i) == IF i > Len(N[n].par) THEN M ELSE Up(PropState(M,N[n].par[i]),i+1)
       IN Up(N1,1)

ClearCache(N,n) == [N EXCEPT ![n].cache = NoCache]

RECURSIVE ClearRec(_,_)
ClearRec(N,n) ==
  LET kids == N[n].ch \o N[n].step
      RECURSIVE Down(_,_)
      Down(M,i) == IF i > Len(kids) THEN M ELSE Down(ClearRec(M,kids[i]),i+1)
  IN Down(ClearCache(N,n),1)

(* cache policies *)
NEVER == -10
MINIMAL == -1
DEFAULT == 0
SMART == 1
ALWAYS == 20

Need(nd) == IF nd.nact > 0 THEN nd.nact ELSE nd.npar

HoldCache(N,n,hold) ==    \* Node::holdCache
  LET nd == [N[n] EXCEPT !.nhint = @+1, !.nhold = IF hold THEN @+1 ELSE @]
      N1 == [N EXCEPT ![n] = nd]
  IN IF /\ ~nd.ipr /\ DomainBit \in nd.cache.mask /\ nd.apol < ALWAYS
        /\ nd.nhint >= Need(nd) /\ (nd.apol <= MINIMAL \/ nd.nhold = 0)
     THEN ClearCache(N1,n) ELSE N1

RECURSIVE HoldChildren(_,_,_,_,_)
HoldChildren(N,kids,crc,a,i) ==    \* a: [hold, diff]
  IF i > Len(kids) THEN N
  ELSE HoldChildren(HoldCache(N,kids[i],a.hold /\ crc[i] \cap a.diff = {}),kids,crc,a,i+1)

(* Node::cacheResult: S is [N, fcp (forest cache policy), ...]; returns [S, fl, mask] *)
CacheResult(S,n,req,fl,mask,res) ==
  LET nd0  == S.N[n]
      apol == IF nd0.pol = DEFAULT THEN S.fcp ELSE nd0.pol
      m2   == IF "IGNT" \in fl THEN mask ELSE mask \cup {0}
      diff == DiffMask(req.id,req.next)
      npar == Need(nd0)
      long == CASE "FAIL" \in fl -> TRUE
                [] "FAIL" \notin fl /\ apol <= MINIMAL -> FALSE
                [] "FAIL" \notin fl /\ apol > MINIMAL /\ apol < ALWAYS -> diff \cap m2 = {}
                [] OTHER -> TRUE
      do   == CASE "FAIL" \in fl -> TRUE
                [] "FAIL" \notin fl /\ apol <= NEVER -> FALSE
                [] OTHER -> long \/ npar > 1
      nd1  == [nd0 EXCEPT !.hsd = FALSE, !.ipr = FALSE, !.nhint = 0, !.nhold = 0, !.apol = apol]
      N1   == [S.N EXCEPT ![n] = nd1]
      N2   == HoldChildren(N1,nd0.ch,nd0.crc,[hold |-> ~long, diff |-> diff],1)
      N3   == HoldChildren(N2,nd0.step,nd0.scrc,[hold |-> ~long, diff |-> diff],1)
      N4   == IF do THEN [N3 EXCEPT ![n].cache = [ok |-> TRUE, rqid |-> req.id, mask |-> m2,
                                                  fl |-> fl \ {"UPD"}, res |-> res]]
              ELSE ClearCache(N3,n)
  IN [S |-> [S EXCEPT !.N = N4], fl |-> fl, mask |-> m2]

(* Node::getCachedResult: returns [N, hit, fl, mask, res] *)
Lookup(N,n,req,newreq) ==
  LET nd == N[n]
      c  == IF nd.hsd THEN [nd.cache EXCEPT !.mask = @ \cup {StateBit}] ELSE nd.cache
      N1 == [N EXCEPT ![n].cache = c]
      diff == DiffMask(req.id,c.rqid) \cap c.mask
      N2 == IF newreq THEN [N1 EXCEPT ![n].nhint = 0, ![n].nhold = 0] ELSE N1
      Miss == [N |-> ClearCache(N1,n), hit |-> FALSE]
  IN IF ~nd.cache.ok THEN [N |-> N, hit |-> FALSE]
     ELSE IF req.id = <<>> \/ c.rqid = <<>> THEN Miss
     ELSE IF RType(req.id) = 5 /\ IterBit \notin c.mask
       THEN [N |-> [N1 EXCEPT ![n].ipr = TRUE], hit |-> TRUE, fl |-> {}, mask |-> {}, res |-> EmptyRes]
     ELSE IF diff = {} THEN [N |-> N2, hit |-> TRUE, fl |-> c.fl, mask |-> c.mask, res |-> c.res]
     ELSE IF diff = {0} /\ EvalMode(req.id) = 0 /\ EvalMode(c.rqid) > 0
       THEN [N |-> N2, hit |-> TRUE, fl |-> c.fl, mask |-> c.mask, res |-> Strip(c.res)]
     ELSE Miss

(***************************** other actions *******************************)
\* f is the record field changed; the caller says whether setState succeeded
SetState(S,n,f,v) ==
  LET N1 == CASE f = "sv" -> [S.N EXCEPT ![n].sv = v] [] f = "c0" -> [S.N EXCEPT ![n].c0 = v]
              [] f = "failmod" -> [S.N EXCEPT ![n].failmod = v]
              [] f = "missmod" -> [S.N EXCEPT ![n].missmod = v]
              [] f = "waitmod" -> [S.N EXCEPT ![n].waitmod = v]
              [] f = "abrt" -> [S.N EXCEPT ![n].abrt = v]
              [] f = "thr" -> [S.N EXCEPT ![n].thr = v]
              [] f = "pol" -> [S.N EXCEPT ![n].pol = v]
              [] f = "nact" -> [S.N EXCEPT ![n].nact = v]
              [] f = "dep" -> [S.N EXCEPT ![n].dep = v]
              [] f = "fpol" -> [S.N EXCEPT ![n].fpol = v]
              [] f = "mpol" -> [S.N EXCEPT ![n].mpol = v]
              [] f = "act" -> [S.N EXCEPT ![n].active = (v = 1)]
              [] OTHER -> S.N
  IN [S EXCEPT !.N = PropState(N1,n)]
Clear(S,n,rec) == [S EXCEPT !.N = IF rec THEN ClearRec(@,n) ELSE ClearCache(@,n)]

(***************************** execute *************************************)
(* S: [N, fcp, abort, log]; the result of Exec: [S, fl, mask, res]. *)
RECURSIVE Exec(_,_,_)
RECURSIVE Poll(_,_,_,_)
RECURSIVE StepPoll(_,_,_,_)

Poll(S,n,req,acc) ==
  LET nd == S.N[n] IN
  IF acc.stop \/ acc.i > Len(nd.ch) THEN [S |-> S, acc |-> acc]
  ELSE LET ich == nd.order[acc.i]
           r   == Exec(S,nd.ch[ich],req)
           stp == \/ "ABORT" \in r.fl
                  \/ "FAIL" \in r.fl /\ nd.fpol = ABANDON
                  \/ "FAIL" \notin r.fl /\ "MISSING" \in r.fl /\ nd.mpol = ABANDON
           fl3 == IF "FAIL" \in r.fl /\ "ABORT" \notin r.fl THEN acc.fails \o r.res.f ELSE acc.fails
           S1  == [r.S EXCEPT !.N[n].crc[ich] = r.mask]
       IN Poll(S1,n,req,[acc EXCEPT !.i = acc.i+1, !.rs[ich] = r.res, !.fl = acc.fl \cup r.fl,
                                    !.mask = acc.mask \cup r.mask, !.fails = fl3, !.stop = stp])

StepPoll(S,n,req,i) ==
  LET nd == S.N[n] IN
  IF i > Len(nd.step) THEN S
  ELSE LET r == Exec(S,nd.step[i],req)
           S1 == [r.S EXCEPT !.N[n].scrc[i] = r.mask]
       IN IF "ABORT" \in r.fl THEN S1 ELSE StepPoll(S1,n,req,i+1)

Finish(S,n,req,fl,mask,res) ==
  LET c == CacheResult(S,n,req,fl,mask,res)
  IN [S |-> c.S, fl |-> c.fl \cup {"UPD"}, mask |-> c.mask, res |-> res]

ALLBITS == 0..(NBITS-1)

\* a command is either logged by the node or changes its state
ApplyCmd(S,n,c) ==
  IF c.st # <<>> THEN SetState(S,n,c.st[1],c.st[2])
  ELSE [S EXCEPT !.log = Append(@,<<n,"cmd",c.arg>>)]

RECURSIVE ApplyCmds(_,_,_,_)
ApplyCmds(S,n,cs,i) == IF i > Len(cs) THEN S ELSE ApplyCmds(ApplyCmd(S,n,cs[i]),n,cs,i+1)

Exec(S,n,req) ==
  LET nd0 == S.N[n]
      AbortExit(T) == [S |-> T, fl |-> {"ABORT"}, mask |-> {}, res |-> NoneRes]
      newreq == ~nd0.hasreq \/ req.id = <<>> \/ req.id # nd0.rid
      lk == Lookup(S.N,n,req,newreq)
  IN IF S.abort THEN AbortExit(S)
     ELSE IF lk.hit THEN [S |-> [S EXCEPT !.N = lk.N], fl |-> lk.fl, mask |-> lk.mask, res |-> lk.res]
     ELSE
     LET S1   == [S EXCEPT !.N = [lk.N EXCEPT ![n].hsd = FALSE, ![n].rid = req.id, ![n].hasreq = TRUE]]
         cmds == IF newreq THEN UpToBad(NodeCmds(nd0,n,req.rider,1),1) ELSE <<>>
         S2   == ApplyCmds(S1,n,cmds,1)
         nd   == S2.N[n]     \* a rider may have changed the state
         cfl  == IF \E i \in 1..Len(cmds) : cmds[i].bad = 0 THEN {"UPD"} ELSE {}
     IN IF HasBad(cmds) THEN Finish(S2,n,req,{"FAIL"},ALLBITS,FailRes(<<-1>>))
        ELSE IF ~nd.active THEN Finish(S2,n,req,cfl,{},EmptyRes)
        ELSE
        LET fl0 == IF req.cells THEN {} ELSE cfl
            p   == Poll(S2,n,req,[rs |-> [i \in 1..Len(nd.ch) |-> NoneRes], fl |-> {}, mask |-> {}, fails |-> <<>>,
                                  stop |-> FALSE, i |-> 1])
            fl1 == IF nd.fpol = IGNORE THEN p.acc.fl \ {"FAIL"} ELSE p.acc.fl
            fl2 == IF p.S.abort THEN {"ABORT"}
                   ELSE IF nd.mpol = IGNORE THEN fl1 \ {"MISSING"} ELSE fl1
            ref1 == IF nd.fpol # IGNORE /\ Len(p.acc.fails) > 0 THEN FailRes(p.acc.fails) ELSE NoneRes
            abandon == \/ "ABORT" \in fl2
                       \/ "FAIL" \in fl2 /\ nd.fpol = ABANDON
                       \/ "MISSING" \in fl2 /\ nd.mpol = ABANDON
            S4  == IF abandon THEN p.S ELSE StepPoll(p.S,n,req,1)
            fl3 == fl0 \cup fl2
            mk  == p.acc.mask
        IN IF S4.abort THEN AbortExit(S4)
           ELSE IF "WAIT" \in fl3 THEN [S |-> S4, fl |-> fl3, mask |-> mk, res |-> ref1]
           ELSE IF "FAIL" \in fl3 THEN Finish(S4,n,req,fl3,mk,ref1)
           ELSE IF "MISSING" \in fl3 THEN Finish(S4,n,req,fl3,mk,MissingRes)
           ELSE
           LET mk2 == mk \cup nd.dep IN
           IF ~req.cells \/ EvalMode(req.id) < 0
           THEN Finish(S4,n,req,fl3,mk2 \cup {0},IF ref1 = NoneRes THEN EmptyRes ELSE ref1)
           ELSE
           LET e  == Eval(nd,n,req,p.acc.rs)
               S5 == [S4 EXCEPT !.log = Append(@,<<n,"eval",IF newreq THEN 1 ELSE 0>>), !.abort = e.abrt]
           IN IF e.abrt THEN AbortExit(S5)
              ELSE IF "WAIT" \in e.fl THEN [S |-> S5, fl |-> fl3 \cup e.fl, mask |-> mk2, res |-> e.res]
              ELSE Finish(S5,n,req,fl3 \cup e.fl,mk2,e.res)

(* a node as configured, before anything ran *)
FreshNode(c) ==
  c @@ [hsd |-> FALSE, hasreq |-> FALSE, rid |-> <<>>, cache |-> NoCache, nhint |-> 0, nhold |-> 0,
        ipr |-> FALSE, apol |-> 0, crc |-> [i \in 1..Len(c.ch) |-> {}],
        scrc |-> [i \in 1..Len(c.step) |-> {}]]

CachedSet(N) == {i \in DOMAIN N : N[i].cache.ok}
=============================================================================
