-------------------------------- MODULE TraceRepo --------------------------------
(* Judges recorded runs of the real Meq::Forest and Meq::Node. *)
EXTENDS Repo, Json, IOUtils
ASSUME TLCSet(1,ndJsonDeserialize(IOEnv.TRACE))
T == TLCGet(1)
VARIABLES i, S, skip, names

D(t,a,b) == IF a = b THEN {} ELSE {<<t,"expected",a,"got",b>>}
SetOf(q) == Set(q)
RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Sorted(s \ {m})
RepoBad(X,nm,r) ==
  LET ix == Sorted(DOMAIN X.node) IN
  D("max",X.size-1,r.max) \cup D("errs",X.errs,r.errs)
  \cup D("list",[k \in DOMAIN ix |-> <<ix[k],X.node[ix[k]].name,X.node[ix[k]].cls>>],r.list)
  \cup D("find",[k \in DOMAIN nm |-> Get(X.names,nm[k],-1)],r.find)
  \cup D("valid",ix,r.valid)
FBad(X,f) ==
  D("cp",X.cp,f.cp) \cup D("lp",X.lp,f.lp) \cup D("prof",X.prof,f.prof)
  \cup IF "rcp" \notin DOMAIN f THEN {} ELSE D("record cp",X.cp,f.rcp) \cup D("record lp",X.lp,f.rlp) \cup D("record prof",X.prof,f.rprof)
  \cup D("record bp",X.bp,SetOf(f.rbp)) \cup D("record ss",X.ss,SetOf(f.rss))
IntBad(X,n,d) ==
  LET nd == X.node[n] IN
  D("v",nd.v,d.v) \cup D("fail",nd.fail,d.fail) \cup D("act",nd.act,d.act) \cup D("publishing",nd.pub # 0,d.pub)
  \cup D("bp",nd.bp,SetOf(d.bp)) \cup D("ss",nd.ss,SetOf(d.ss)) \cup D("hasbp",nd.bp # {},d.hasbp) \cup D("hasss",nd.ss # {},d.hasss)
  \cup D("cpol",nd.cpol,d.cpol) \cup D("dep",nd.dep,d.dep) \cup D("desc",nd.desc,d.desc) \cup D("name",nd.name,d.name)
  \cup D("index",n,d.ni) \cup D("groups",<<"All">> \o nd.grp,d.grp)
RecBad(X,n,d) ==
  LET nd == X.node[n] IN
  D("record v",nd.v,d.v) \cup D("record fail",nd.fail,d.fail) \cup D("record act",nd.act,d.act) \cup D("record pub",nd.pub,d.pub)
  \cup D("record bp",nd.bp,SetOf(d.bp)) \cup D("record ss",nd.ss,SetOf(d.ss))
  \cup D("record cpol",nd.cpol,d.cpol) \cup D("record lpol",nd.lpol,d.lpol) \cup D("record dep",nd.dep,d.dep)
  \cup D("record nact",nd.nact,d.nact) \cup D("record ars",IF nd.cls = "RLab" /\ "ars" \notin DOMAIN nd.f THEN d.ars ELSE nd.ars,d.ars)
  \cup D("record desc",nd.desc,d.desc) \cup D("record name",nd.name,d.name) \cup D("record index",n,d.ni) \cup D("record class",nd.cls,d.cls)
  \cup D("record children",nd.ch,d.ch) \cup D("record stepchildren",nd.step,d.step)
  \cup D("record fpol",nd.fpol,d.fpol) \cup D("record mpol",nd.mpol,d.mpol)
StBad(X,st) ==
  UNION {LET o == st[k] nd == X.node[o.i] IN
         (IF nd.res = -2 THEN D("a defined status",TRUE,o.res \in {0,1,2,3,4,5})
          ELSE D("result status of node " \o ToString(o.i),nd.res,o.res) \cup D("from cache of node " \o ToString(o.i),nd.retc,o.retc))
         \cup D("bp of node " \o ToString(o.i),nd.bp,SetOf(o.bp)) \cup D("ss of node " \o ToString(o.i),nd.ss,SetOf(o.ss))
         \cup D("hasbp of node " \o ToString(o.i),nd.bp # {},o.hasbp) \cup D("hasss of node " \o ToString(o.i),nd.ss # {},o.hasss)
         \cup D("stopped of node " \o ToString(o.i),nd.stopped,o.stopped) \cup D("stopped at breakpoint of node " \o ToString(o.i),nd.stopbp,o.stopbp)
         \cup D("state of node " \o ToString(o.i),nd.es,o.es) : k \in DOMAIN st}
RunBad(X,o,aborted) ==
  IF X.run.at # 0
  THEN D("kind","stop",o.k) \cup D("node",X.run.at,o.n) \cup D("bits",X.run.bits,SetOf(o.m)) \cup D("global",X.run.glob,o.g)
       \cup D("evaluated",X.run.log,o.log) \cup D("flag",TRUE,o.flag) \cup StBad(X,o.st)
  ELSE D("kind","done",o.k)
       \cup (IF o.k # "done" THEN {}
             ELSE D("threw",FALSE,o.threw) \cup D("flag",FALSE,o.flag) \cup StBad(X,o.st)
                  \cup (IF aborted THEN D("evaluated after the abort",TRUE,o.log \in {<<>>,X.run.log})
                        ELSE D("evaluated",X.run.log,o.log) \cup D("abort",FALSE,o.abort) \cup D("fail",X.run.fail,o.fail)))

Act(X,ev) ==
  CASE ev.op = "create" -> LET r == Create(X,ev.c) IN [S |-> r.S, err |-> r.err, ni |-> r.ni]
    [] ev.op = "remove" -> Remove(X,ev.n)
    [] ev.op = "clear" -> [S |-> Clear(X)]
    [] ev.op = "initall" -> [S |-> InitAll(X)]
    [] ev.op = "fset" -> FSet(X,ev.f,ev.bad)
    [] ev.op = "fpol" -> FSet(X,ev.f,<<>>)
    [] ev.op = "fbp" -> [S |-> FBreak(X,Set(ev.m),ev.one,TRUE), err |-> FALSE]
    [] ev.op = "fclr" -> [S |-> FBreak(X,Set(ev.m),ev.one,FALSE), err |-> FALSE]
    [] ev.op = "set" -> SetState(X,ev.n,ev.f,ev.bad,ev.imm)
    [] ev.op = "cmd" -> Command(X,ev.n,ev.cmd,ev.a)
    [] ev.op \in {"get","fget"} -> [S |-> X, err |-> FALSE]
    [] ev.op = "exec" -> [S |-> Exec(X,ev.n,ev.id,ev.cells,IF DOMAIN ev.rd = {} THEN EmptyFn ELSE ev.rd)]
    [] ev.op = "cont" -> [S |-> IF X.run.at = 0 THEN X ELSE Cont(X)]
    [] ev.op = "abort" -> [S |-> IF X.run.at = 0 THEN X ELSE Abort(X)]
    [] ev.op = "xabort" -> LET A == Exec(X,ev.n,ev.id,ev.cells,EmptyFn)
                          IN IF A.run.at = 0 THEN [S |-> A, before |-> A.run.log, vague |-> FALSE]
                             ELSE [S |-> Abort(A), before |-> A.run.log, vague |-> Vague(A)]
    [] ev.op = "mtstop" -> [S |-> X]
Judge(X,r,nm,ev) ==
  LET o == ev.obs Y == r.S IN
  IF "exc" \in DOMAIN o THEN {<<"exception",o.exc>>}
  ELSE CASE ev.op = "create" -> D("err",r.err,o.err) \cup D("ni",r.ni,o.ni) \cup RepoBad(Y,nm,o.repo)
    [] ev.op = "remove" -> D("err",r.err,o.err) \cup RepoBad(Y,nm,o.repo)
    [] ev.op \in {"clear","initall"} -> RepoBad(Y,nm,o.repo)
    [] ev.op \in {"fset","fpol","fbp","fclr","fget"} -> D("err",r.err,o.err) \cup FBad(Y,o.f)
    [] ev.op \in {"set","get"} -> D("err",r.err,o.err) \cup (IF Y.node[ev.n].ini = "ok" THEN IntBad(Y,ev.n,o.d.int)
                                     \cup (IF "rec" \in DOMAIN o.d THEN RecBad(Y,ev.n,o.d.rec) ELSE {}) ELSE {})
    [] ev.op = "cmd" -> D("err",r.err,o.err) \cup D("known",r.known,o.known) \cup IntBad(Y,ev.n,o.d.int)
    [] ev.op \in {"cont","abort"} /\ X.run.at = 0 -> D("kind","idle",o.k)
    [] ev.op \in {"exec","cont"} -> RunBad(Y,o,FALSE)
    [] ev.op = "abort" -> IF Vague(X) THEN D("kind","done",o.k) ELSE RunBad(Y,o,TRUE)
    [] ev.op = "xabort" -> D("kind","done",o.k)
       \cup (IF o.k # "done" \/ r.vague THEN {}
             ELSE D("flag",FALSE,o.flag) \cup StBad(Y,o.st)
                  \cup D("evaluated",TRUE,o.log \in {r.before,r.before \o Y.run.log}))
    [] ev.op = "mtstop" -> D("kind","stop",o.k)
       \cup (IF o.k # "stop" THEN {}
             ELSE D("stopped node",ev.n,o.n) \cup D("other nodes brought to a stop",Set(ev.others),SetOf(o.halted))
                  \cup D("ended while stopped",FALSE,o.early) \cup D("ended after continuing",TRUE,o.done) \cup D("left over",<<>>,o.left))

Init == i = 1 /\ S = NewForest /\ skip = TRUE /\ names = <<>>
Next ==
  /\ i <= Len(T)
  /\ i' = i+1
  /\ LET ev == T[i] IN
     IF ev.e = "reset" THEN S' = NewForest /\ names' = ev.names /\ skip' = FALSE
     ELSE /\ UNCHANGED names
          /\ IF skip THEN UNCHANGED <<S,skip>>
             ELSE IF ev.op \in {"exec","xabort"} /\ ev.id \in S.dead     \* what an aborted run left in the caches is not said
             THEN UNCHANGED S /\ skip' = TRUE
             ELSE LET r == Act(S,ev)
                      b == Judge(S,r,names,ev)
                  IN /\ S' = r.S
                     /\ skip' = (b # {} \/ (ev.op = "abort" /\ Vague(S)) \/ (ev.op = "xabort" /\ r.vague))
                     /\ (b # {} => PrintT(<<"MISMATCH",ev.s,i,b>>))
Spec == Init /\ [][Next]_<<i,S,skip,names>>
Consumed == TLCGet("stats").diameter = Len(T)+1
=============================================================================
