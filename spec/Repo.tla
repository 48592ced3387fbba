---------------------------------- MODULE Repo ----------------------------------
(* The forest as a repository of nodes, the state records of the forest and of its nodes, and
   execution under breakpoints (MEQ/src/Forest.cc; Node.cc: setState, execute, setExecState;
   Node_init.cc; Node_commands.cc; NodeNursery.cc: poll order). A breakpoint mask is a set of bits:
   0 idle (result returned), 1 request, 2 command, 3 polling, 4 evaluating, 7 fail. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Set(q) == {q[k] : k \in DOMAIN q}
EmptyFn == [x \in {} |-> 0]
Cls == [RNode |-> [min |-> 0, max |-> 99, labels |-> <<>>], RLab |-> [min |-> 1, max |-> 2, labels |-> <<"VX","VY">>]]
Digit == [x \in {"0","1","2","3"} |-> CASE x = "0" -> 0 [] x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3]
NOLIMIT == 99
ANYID == -1
IDLE == 0  REQUEST == 1  COMMAND == 2  POLLING == 3  EVALUATING == 4
RNONE == 0  ROK == 1  REMPTY == 3  RFAIL == 5
ALLBITS == 0..7

NoRun == [on |-> FALSE, pend |-> <<>>, at |-> 0, bits |-> {}, glob |-> FALSE, c |-> EmptyFn, fail |-> FALSE, log |-> <<>>,
          rd |-> EmptyFn, id |-> 0]
NewForest == [size |-> 1, node |-> EmptyFn, names |-> EmptyFn, errs |-> 0, cp |-> 1, lp |-> -10, prof |-> TRUE,
              bp |-> {}, ss |-> {}, run |-> NoRun, dead |-> {}]

Del(f,k) == [x \in DOMAIN f \ {k} |-> f[x]]
Get(f,k,d) == IF k \in DOMAIN f THEN f[k] ELSE d

(***************************** repository *****************************)
(* child slots from the specification of a node: [err, ch] with -1 for an unused slot *)
LabelNo(cls,l) ==
  LET L == Cls[cls].labels
      K == {k \in DOMAIN L : L[k] = l}
  IN IF K # {} THEN (CHOOSE k \in K : TRUE)-1 ELSE IF l \in DOMAIN Digit THEN Digit[l] ELSE -1
Max2(a,b) == IF a > b THEN a ELSE b
RECURSIVE SetMax(_)
SetMax(s) == IF s = {} THEN -1 ELSE LET x == CHOOSE x \in s : TRUE IN Max2(x,SetMax(s \ {x}))
Slots(cls,spec) ==
  CASE spec.k = "none" -> [err |-> FALSE, ch |-> <<>>]
    [] spec.k = "vec" -> [err |-> FALSE, ch |-> spec.v]
    [] spec.k = "bad" -> [err |-> TRUE, ch |-> <<>>]
    [] spec.k = "rec" ->
       LET P == spec.p
           N == [k \in DOMAIN P |-> LabelNo(cls,P[k][1])]
           len == Max2(Len(P),SetMax(Set(N))+1)
       IN IF \E k \in DOMAIN N : N[k] < 0 THEN [err |-> TRUE, ch |-> <<>>]
          ELSE [err |-> FALSE,
                ch |-> [s \in 1..len |-> LET K == {k \in DOMAIN N : N[k] = s-1}
                                         IN IF K = {} THEN -1 ELSE P[CHOOSE k \in K : TRUE][2]]]
Fit(cls,ch) == /\ Len(ch) >= Cls[cls].min /\ (Cls[cls].max # NOLIMIT => Len(ch) <= Cls[cls].max)
               /\ \A k \in 1..Cls[cls].min : ch[k] >= 0
MkNode(cls,name,ch,step,par,f,bad) ==
  [cls |-> cls, name |-> name, ch |-> ch, step |-> step, par |-> par, f |-> f, bad |-> bad, ini |-> "new",
   v |-> 0, fail |-> 0, act |-> 1, pub |-> 0, bp |-> {}, ss |-> {}, cpol |-> 0, lpol |-> 0, dep |-> 0, nact |-> 0,
   ars |-> -2, desc |-> "", grp |-> <<>>, fpol |-> 2, mpol |-> 2, order |-> [k \in 1..Len(ch) |-> k],
   res |-> RNONE, retc |-> FALSE, es |-> IDLE, stopped |-> FALSE, stopbp |-> FALSE,
   cid |-> 0, cfail |-> FALSE, rid |-> 0]
(* c: cls, idx, name, spec, step, par, f, bad. Returns [S, err, ni]; a refused node leaves nothing but the error count *)
Create(S,c) ==
  LET known == c.cls \in DOMAIN Cls
      sl == IF known THEN Slots(c.cls,c.spec) ELSE [err |-> TRUE, ch |-> <<>>]
      ni == IF c.idx > 0 THEN c.idx ELSE S.size
      err == \/ c.name # "" /\ c.name \in DOMAIN S.names
             \/ ~known
             \/ ni \in DOMAIN S.node
             \/ sl.err \/ ~Fit(c.cls,sl.ch)
  IN IF err THEN [S |-> [S EXCEPT !.errs = @+1], err |-> TRUE, ni |-> 0]
     ELSE [S |-> [S EXCEPT !.node = (ni :> MkNode(c.cls,c.name,sl.ch,c.step,c.par,c.f,c.bad)) @@ @,
                           !.names = IF c.name = "" THEN @ ELSE (c.name :> ni) @@ @,
                           !.size = Max2(@,ni+1)],
           err |-> FALSE, ni |-> ni]
Remove(S,i) ==
  IF i \notin DOMAIN S.node THEN [S |-> S, err |-> TRUE]
  ELSE [S |-> [S EXCEPT !.node = Del(@,i), !.names = IF S.node[i].name = "" THEN @ ELSE Del(@,S.node[i].name),
                        !.size = IF i = @-1 THEN i ELSE @],
        err |-> FALSE]
Clear(S) == [S EXCEPT !.node = EmptyFn, !.names = EmptyFn, !.size = 1, !.errs = 0]

(***************************** node state *****************************)
ChildName(S,n,k) == IF S.node[n].ch[k] \in DOMAIN S.node THEN S.node[S.node[n].ch[k]].name ELSE "?"
OrderOk(S,n,names) ==
  /\ Len(names) <= Len(S.node[n].ch)
  /\ \A a \in DOMAIN names : \E k \in DOMAIN S.node[n].ch : S.node[n].ch[k] >= 0 /\ ChildName(S,n,k) = names[a]
  /\ \A a,b \in DOMAIN names : a # b => names[a] # names[b]
OrderOf(S,n,names) ==
  LET ch == S.node[n].ch
      first == [a \in DOMAIN names |-> CHOOSE k \in DOMAIN ch : ch[k] >= 0 /\ ChildName(S,n,k) = names[a]]
      RECURSIVE rest(_)
      rest(k) == IF k > Len(ch) THEN <<>> ELSE IF k \in Set(first) THEN rest(k+1) ELSE <<k>> \o rest(k+1)
  IN first \o rest(1)
(* the depend mask bits of the forest's symbolic dependencies, added up *)
SymBit == [Iteration |-> 2, State |-> 4, Resolution |-> 8, Domain |-> 16, Dataset |-> 32]
RECURSIVE SymMask(_)
SymMask(s) == IF s = {} THEN 0 ELSE LET x == CHOOSE x \in s : TRUE IN (IF x \in DOMAIN SymBit THEN SymBit[x] ELSE 0)+SymMask(s \ {x})
Apply(S,n,f) ==
  LET nd == S.node[n] IN
  [nd EXCEPT !.v = Get(f,"v",@), !.fail = Get(f,"fail",@), !.act = IF "cs" \in DOMAIN f THEN (f.cs % 16) ELSE @,
             !.pub = Get(f,"pub",@), !.bp = IF "bp" \in DOMAIN f THEN Set(f.bp) ELSE @,
             !.ss = IF "ss" \in DOMAIN f THEN Set(f.ss) ELSE @, !.cpol = Get(f,"cpol",@), !.lpol = Get(f,"lpol",@),
             !.dep = IF "dep" \in DOMAIN f THEN f.dep ELSE IF "asd" \in DOMAIN f THEN SymMask(Set(f.asd)) ELSE @, !.nact = Get(f,"nact",@), !.ars = Get(f,"ars",@), !.desc = Get(f,"desc",@),
             !.grp = Get(f,"groups",@), !.fpol = Get(f,"fpol",@), !.mpol = Get(f,"mpol",@),
             !.order = IF "order" \in DOMAIN f /\ OrderOk(S,n,f.order) THEN OrderOf(S,n,f.order) ELSE @]
Refused(S,n,f,bad,imm) ==
  \/ imm # <<>> \/ bad # <<>>
  \/ Get(f,"vbad",0) # 0
  \/ "ars" \in DOMAIN f /\ S.node[n].cls = "RLab" /\ f.ars # 0
  \/ "order" \in DOMAIN f /\ ~OrderOk(S,n,f.order)
SetState(S,n,f,bad,imm) ==
  IF Refused(S,n,f,bad,imm) THEN [S |-> S, err |-> TRUE]
  ELSE [S |-> [S EXCEPT !.node[n] = Apply(S,n,f)], err |-> FALSE]
Command(S,n,cmd,a) ==
  LET one == Get(a,"one",0) # 0
      m(d) == IF "bp" \in DOMAIN a THEN Set(a.bp) ELSE d
  IN CASE cmd = "Set.Breakpoint" ->
          [S |-> IF one THEN [S EXCEPT !.node[n].ss = @ \cup m({REQUEST})] ELSE [S EXCEPT !.node[n].bp = @ \cup m({REQUEST})],
           err |-> FALSE, known |-> TRUE]
       [] cmd = "Clear.Breakpoint" ->
          [S |-> IF one THEN [S EXCEPT !.node[n].ss = @ \ m(ALLBITS)] ELSE [S EXCEPT !.node[n].bp = @ \ m(ALLBITS)],
           err |-> FALSE, known |-> TRUE]
       [] cmd = "Set.Publish.Level" -> [S |-> [S EXCEPT !.node[n].pub = Get(a,"level",1)], err |-> FALSE, known |-> TRUE]
       [] cmd = "Set.State" -> LET r == SetState(S,n,a.f,a.bad,a.imm) IN [S |-> r.S, err |-> r.err, known |-> ~r.err]
       [] OTHER -> [S |-> S, err |-> FALSE, known |-> FALSE]
(* initializing one node, once all have been created *)
InitNode(S,i) ==
  LET nd == S.node[i]
      refs == /\ \A p \in Set(nd.par) : p \in DOMAIN S.node
              /\ \A k \in DOMAIN nd.ch : nd.ch[k] >= 0 => nd.ch[k] \in DOMAIN S.node
              /\ \A c \in Set(nd.step) : c \in DOMAIN S.node
      S1 == [S EXCEPT !.node[i].desc = nd.name \o ":" \o nd.cls]
      S2 == [S1 EXCEPT !.node[i] = Apply(S1,i,nd.f)]
      off(a) == a-(a % 2)
  IN IF ~refs THEN [S EXCEPT !.errs = @+1, !.node[i].ini = "bad", !.node[i].act = off(@)]
     ELSE IF Refused(S,i,nd.f,nd.bad,<<>>)
          THEN [S2 EXCEPT !.errs = @+1, !.node[i].ini = "bad", !.node[i].act = off(@)]
     ELSE [S2 EXCEPT !.node[i].ini = "ok"]
RECURSIVE InitFrom(_,_)
InitFrom(S,i) == IF i >= S.size THEN S
                 ELSE InitFrom(IF i \in DOMAIN S.node THEN InitNode(S,i) ELSE S,i+1)
InitAll(S) == InitFrom(S,1)

(***************************** forest state *****************************)
FSet(S,f,bad) ==
  IF bad # <<>> THEN [S |-> S, err |-> TRUE]
  ELSE [S |-> [S EXCEPT !.cp = Get(f,"cp",@), !.lp = Get(f,"lp",@), !.prof = IF "prof" \in DOMAIN f THEN f.prof # 0 ELSE @,
                        !.bp = IF "bp" \in DOMAIN f THEN Set(f.bp) ELSE @, !.ss = IF "ss" \in DOMAIN f THEN Set(f.ss) ELSE @],
        err |-> FALSE]
FBreak(S,m,one,on) ==
  IF on THEN (IF one THEN [S EXCEPT !.ss = @ \cup m] ELSE [S EXCEPT !.bp = @ \cup m])
  ELSE (IF one THEN [S EXCEPT !.ss = @ \ m] ELSE [S EXCEPT !.bp = @ \ m])

(***************************** execution *****************************)
(* what a node goes through for a request is laid out as a sequence of steps: "x" a change of execution
   state (where it may be stopped), "clr" the previous result is dropped, "eval" its value is computed,
   "rb" the commands of the rider are carried out. c: the caches, [cid, cfail, rid] per node *)
Step(n,es,res,retc) == [k |-> "x", n |-> n, es |-> es, res |-> res, retc |-> retc]
Other(k,n) == [k |-> k, n |-> n, es |-> 0, res |-> -1, retc |-> "K"]
Keeps(S,n,fail) == fail \/ (IF S.node[n].cpol = 0 THEN S.cp ELSE S.node[n].cpol) >= 20
(* aborts of which too little can be said: the rider may be obeyed or not, an inactive node may keep its result or not *)
Vague(S) == S.run.at # 0 /\ (S.run.rd # EmptyFn \/ S.node[S.run.at].act % 2 = 0)
RECURSIVE Steps(_,_,_,_,_,_)
RECURSIVE Kids(_,_,_,_,_,_,_)
Done(S,c,n,id,fail,ev) ==
  [c |-> [c EXCEPT ![n].cid = IF Keeps(S,n,fail) THEN id ELSE 0, ![n].cfail = fail], ev |-> ev, fail |-> fail]
Steps(S,c,n,id,cells,rider) ==
  LET nd == S.node[n]
      e1 == <<Step(n,REQUEST,-1,"K")>>
  IN IF c[n].cid \in {id,ANYID} THEN [c |-> c, ev |-> e1 \o <<Step(n,IDLE,-1,"T")>>, fail |-> c[n].cfail]
     ELSE
     LET new == c[n].rid # id
         c1 == [c EXCEPT ![n].rid = id, ![n].cid = 0]
         e2 == e1 \o <<Other("clr",n)>> \o IF new /\ rider THEN <<Step(n,COMMAND,-1,"K"),Other("rb",n)>> ELSE <<>>
     IN IF nd.act % 2 = 0 THEN Done(S,c1,n,ANYID,FALSE,e2 \o <<Step(n,IDLE,REMPTY,"K")>>)   \* good for any request
        ELSE LET ks == [k \in DOMAIN nd.ch |-> nd.ch[nd.order[k]]]
                 r1 == Kids(S,c1,ks,id,cells,rider,nd.fpol = 1)
                 gone == r1.fail /\ nd.fpol = 1
                 r2 == IF gone THEN [c |-> r1.c, ev |-> <<>>, fail |-> FALSE] ELSE Kids(S,r1.c,nd.step,id,cells,rider,FALSE)
                 e3 == e2 \o <<Step(n,POLLING,-1,"K")>> \o r1.ev \o r2.ev
             IN IF r1.fail /\ nd.fpol # 0 THEN Done(S,r2.c,n,id,TRUE,e3 \o <<Step(n,IDLE,RFAIL,"K")>>)
                ELSE IF ~cells THEN Done(S,r2.c,n,id,FALSE,e3 \o <<Step(n,IDLE,REMPTY,"K")>>)
                ELSE Done(S,r2.c,n,id,nd.fail # 0,
                          e3 \o <<Step(n,EVALUATING,-1,"K"),Other("eval",n),Step(n,IDLE,IF nd.fail # 0 THEN RFAIL ELSE ROK,"K")>>)
Kids(S,c,ks,id,cells,rider,abandon) ==
  IF ks = <<>> THEN [c |-> c, ev |-> <<>>, fail |-> FALSE]
  ELSE IF Head(ks) < 0 THEN Kids(S,c,Tail(ks),id,cells,rider,abandon)
  ELSE LET r == Steps(S,c,Head(ks),id,cells,rider)
       IN IF r.fail /\ abandon THEN r
          ELSE LET q == Kids(S,r.c,Tail(ks),id,cells,rider,abandon)
               IN [c |-> q.c, ev |-> r.ev \o q.ev, fail |-> r.fail \/ q.fail]

(* riders: per group, commands for all its nodes, a list of entries for given names and indices (only the first that
   matches counts, one without names and indices matches all), and commands by node index *)
RECURSIVE FirstMatch(_,_,_,_)
FirstMatch(L,k,nd,n) ==
  IF k > Len(L) THEN <<>>
  ELSE IF nd.name \in Set(L[k].names) \/ n \in Set(L[k].idx) \/ (L[k].names = <<>> /\ L[k].idx = <<>>) THEN L[k].cmds
  ELSE FirstMatch(L,k+1,nd,n)
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
RiderCmds(nd,n,rd) ==
  LET G == <<"All">> \o nd.grp
      of(g) == IF g \notin DOMAIN rd THEN <<>>
               ELSE rd[g].all \o FirstMatch(rd[g].list,1,nd,n)
                    \o Concat([k \in DOMAIN rd[g].ix |-> IF rd[g].ix[k].n = n THEN rd[g].ix[k].cmds ELSE <<>>])
  IN Concat([k \in DOMAIN G |-> of(G[k])])
RECURSIVE Obey(_,_)
Obey(nd,cs) ==
  IF cs = <<>> THEN nd
  ELSE LET x == Head(cs) IN
       Obey(CASE x.op = "bp" -> (IF x.one THEN [nd EXCEPT !.ss = @ \cup Set(x.m)] ELSE [nd EXCEPT !.bp = @ \cup Set(x.m)])
              [] x.op = "clr" -> (IF x.one THEN [nd EXCEPT !.ss = @ \ Set(x.m)] ELSE [nd EXCEPT !.bp = @ \ Set(x.m)])
              [] x.op = "st" -> [nd EXCEPT !.v = x.v]
              [] x.op = "pub" -> [nd EXCEPT !.pub = x.v]
              [] OTHER -> nd, Tail(cs))
AllRider(cmds) == [x \in {"All"} |-> [all |-> cmds, list |-> <<>>, ix |-> <<>>]]

Commit(S) == [S EXCEPT !.node = [n \in DOMAIN @ |-> IF n \in DOMAIN S.run.c
                THEN [@[n] EXCEPT !.cid = S.run.c[n].cid, !.cfail = S.run.c[n].cfail, !.rid = S.run.c[n].rid] ELSE @[n]],
              !.run.on = FALSE]
(* goes on until something stops it, or to the end *)
RECURSIVE Go(_)
Go(S) ==
  IF S.run.pend = <<>> THEN Commit(S)
  ELSE LET e == Head(S.run.pend)
           S1 == [S EXCEPT !.run.pend = Tail(@)]
       IN CASE e.k = "clr" -> Go([S1 EXCEPT !.node[e.n].res = RNONE, !.node[e.n].retc = FALSE])
            [] e.k = "eval" -> Go([S1 EXCEPT !.run.log = Append(@,e.n)])
            [] e.k = "rb" -> Go([S1 EXCEPT !.node[e.n] = Obey(@,RiderCmds(@,e.n,S.run.rd))])
            [] e.k = "x" ->
               LET nd == S.node[e.n]
                   res == IF e.res >= 0 THEN e.res ELSE nd.res
                   bits == {e.es} \cup (IF e.es = IDLE /\ res = RFAIL THEN {7} ELSE {})
                   gss == S.ss \cap bits # {}
                   lss == nd.ss \cap bits # {}
                   loc == lss \/ nd.bp \cap bits # {}
                   stop == gss \/ S.bp \cap bits # {} \/ loc
                   S2 == [S1 EXCEPT !.ss = IF gss THEN {} ELSE @,
                                    !.node[e.n] = [nd EXCEPT !.es = e.es, !.res = res, !.retc = IF e.retc = "T" THEN TRUE ELSE @,
                                                             !.ss = IF lss THEN {} ELSE @, !.stopped = stop, !.stopbp = loc]]
               IN IF stop THEN [S2 EXCEPT !.run.at = e.n, !.run.bits = bits, !.run.glob = ~loc] ELSE Go(S2)
Start(S,n,id,cells,rd) ==
  LET c0 == [k \in DOMAIN S.node |-> [cid |-> S.node[k].cid, cfail |-> S.node[k].cfail, rid |-> S.node[k].rid]]
      r == Steps(S,c0,n,id,cells,rd # EmptyFn)
  IN [S EXCEPT !.run = [NoRun EXCEPT !.on = TRUE, !.pend = r.ev, !.c = r.c, !.fail = r.fail, !.rd = rd, !.id = id]]
Exec(S,n,id,cells,rd) == Go(Start(S,n,id,cells,rd))
Resumed(S) == [S EXCEPT !.node[S.run.at].stopped = FALSE, !.node[S.run.at].stopbp = FALSE, !.run.at = 0, !.run.log = <<>>]
Cont(S) == Go(Resumed(S))
(* an abort while stopped: whatever had begun ends without stopping again; what it leaves in the nodes which
   had not finished is not specified (-2), but none of them is evaluated, other than the one that was just about to be *)
Abort(S) ==
  LET left == {e.n : e \in Set(S.run.pend)} \cup {S.run.at}
      todo == {e.n : e \in {x \in Set(S.run.pend) : x.k = "clr"}}
      R == Resumed(S)
  IN [R EXCEPT !.dead = @ \cup {S.run.id},
               !.node = [n \in DOMAIN @ |-> [@[n] EXCEPT !.cid = IF (IF n \in todo THEN @ ELSE S.run.c[n].cid) = ANYID THEN ANYID ELSE 0, !.es = IF n \in left THEN IDLE ELSE @,
                                                    !.res = IF n \in left THEN -2 ELSE @]],
               !.run = [NoRun EXCEPT !.log = IF S.node[S.run.at].es = EVALUATING THEN <<S.run.at>> ELSE <<>>]]
=============================================================================
