------------------------------ MODULE TraceForest ------------------------------
(* Judges recorded behaviour of the real node engine (harness/h_meq.cc) against
   MeqForest.  Proj says which of the observables are compared:
     fresh  the result of an evaluation equals that of a cache-free forest
     exec   flags, result and perturbed values as Exec predicts
     mask   the dependency mask
     log    which nodes evaluated, and in which order, with new-request marks
     cmd    which nodes processed which rider commands
     cached which nodes retain a cached result                              *)
EXTENDS MeqForest, Json, IOUtils

CONSTANT Proj
ASSUME TLCSet(1,ndJsonDeserialize(IOEnv.TRACE))
T == TLCGet(1)
ToSet(q) == {q[i] : i \in DOMAIN q}

VARIABLES i, S, skip

CfgOf(c) == [c EXCEPT !.reads = ToSet(@), !.dep = ToSet(@)]
Reset(ev) == [N |-> [k \in 1..Len(ev.N) |-> FreshNode(CfgOf(ev.N[k]))], fcp |-> ev.fcp,
              abort |-> FALSE, log |-> <<>>]

Rng(q) == {q[k] : k \in DOMAIN q}
\* results are compared on what a user of the engine sees
ObsRes(o) == CASE o.res.k = "val" -> [k |-> "val", v |-> o.res.v, np |-> o.res.np]
               [] o.res.k = "fail" -> [k |-> "fail", f |-> o.res.f]
               [] OTHER -> [k |-> o.res.k]
PertOk(o) == o.res.k = "val" => o.res.pv = [k \in 1..o.res.np |-> o.res.v+k]
FailFlags(f) == f \cap {"FAIL","MISSING","WAIT","ABORT"}
Cmds(l) == SelectSeq(l,LAMBDA x : x[2] = "cmd")
Evals(l) == SelectSeq(l,LAMBDA x : x[2] = "eval")

(* parallel polling: obs.ord lists who entered and left (negative) an evaluation.
   prev: the nodes that retained an answer beforehand                         *)
\* no child of a node is evaluated for the first time once that node is being evaluated
OrdOk(N,ord,prev) ==
  \A k \in DOMAIN ord : ord[k] > 0 =>
     \A c \in Rng(N[ord[k]].ch) :
        N[c].active /\ c \notin prev /\ (\E j \in DOMAIN ord : ord[j] = c)
          => \E j \in 1..k-1 : ord[j] = -c
Runs(ord,n) == Cardinality({k \in DOMAIN ord : ord[k] = n})
JudgeMT(ev,f) ==
  LET o == ev.obs
      fl == Rng(o.fl)
      aborted == "ABORT" \in fl
      okres == IF ev.ab /\ f.res.k = "fail" THEN o.res.k = "fail" /\ Rng(o.res.f) # {} /\ Rng(o.res.f) \subseteq Rng(f.res.f)
               ELSE IF f.res.k = "fail" THEN o.res.k = "fail" /\ Rng(o.res.f) = Rng(f.res.f)
               ELSE ObsRes(o) = f.res
  IN (IF ev.sound /\ ~aborted /\ (~S.abort \/ ev.mid) /\ (FailFlags(fl) # f.fl \/ ("WAIT" \notin fl /\ ~okres) \/ ~PertOk(o))
      THEN {<<"fresh",f.fl,f.res>>} ELSE {})
     \cup (IF aborted /\ ~S.abort THEN {<<"abort">>} ELSE {})
     \cup (IF o.conc > 1 THEN {<<"concurrent evaluations of a node">>} ELSE {})
     \cup (IF o.left > 0 THEN {<<"still evaluating">>} ELSE {})
     \cup (IF ~ev.ab /\ ~S.abort /\ ~OrdOk(S.N,o.ord,Rng(ev.prev)) THEN {<<"order",ev.prev>>} ELSE {})
     \cup (IF ~S.abort /\ \E n \in DOMAIN S.N : S.N[n].pol = ALWAYS /\ S.N[n].waitmod = 0 /\ Runs(o.ord,n) > 1
           THEN {<<"twice">>} ELSE {})

JudgeExec(ev,x,f) ==
  LET o == ev.obs
      fl == Rng(o.fl)
      aborted == "ABORT" \in fl
  IN \* a node that aborted or waits hands back no result
  [ bad |-> {}
      \cup (IF "fresh" \in Proj /\ ev.sound /\ ~aborted /\ ~S.abort /\ (FailFlags(fl) # f.fl \/ ("WAIT" \notin fl /\ ObsRes(o) # f.res) \/ ~PertOk(o))
            THEN {<<"fresh",f.fl,f.res>>} ELSE {})
      \cup (IF "exec" \in Proj /\ (fl # x.fl \/ ("WAIT" \notin fl /\ ~aborted /\ ObsRes(o) # x.res) \/ ~PertOk(o) \/ o.threw)
            THEN {<<"exec",x.fl,x.res>>} ELSE {})
      \cup (IF "mask" \in Proj /\ Rng(o.mask) # x.mask THEN {<<"mask",x.mask>>} ELSE {})
      \cup (IF "log" \in Proj /\ Evals(o.log) # Evals(x.S.log) THEN {<<"log",Evals(x.S.log)>>} ELSE {})
      \cup (IF "cmd" \in Proj /\ Cmds(o.log) # Cmds(x.S.log) THEN {<<"cmd",Cmds(x.S.log)>>} ELSE {})
      \cup (IF "cached" \in Proj /\ Rng(o.cached) # CachedSet(x.S.N) THEN {<<"cached",CachedSet(x.S.N)>>} ELSE {})
      \cup (IF "abort" \in Proj /\ (aborted # ("ABORT" \in x.fl) \/ o.aborted # x.S.abort)
            THEN {<<"abort",x.fl,x.S.abort>>} ELSE {})]

Apply(ev) ==
  CASE ev.e = "exec" ->
         LET r == [id |-> ev.id, next |-> ev.next, cells |-> ev.cells, rider |-> ev.rider]
             x == Exec(S,ev.n,r)
             f == Fresh(S.N,ev.n,r)
         IN IF "mt" \in Proj THEN [S |-> S, bad |-> JudgeMT(ev,f)]
            ELSE [S |-> [x.S EXCEPT !.log = <<>>], bad |-> JudgeExec(ev,x,f).bad]
    [] ev.e = "set" ->
         [S |-> IF ev.ok THEN SetState(S,ev.n,ev.f,ev.v) ELSE S,
          bad |-> IF (ev.obs.err = "") # ev.ok THEN {<<"set">>} ELSE {}]
    [] ev.e = "clear" ->
         LET S1 == Clear(S,ev.n,ev.rec)
         IN [S |-> S1, bad |-> IF "cached" \in Proj /\ Rng(ev.obs.cached) # CachedSet(S1.N)
                               THEN {<<"clear",CachedSet(S1.N)>>} ELSE {}]
    [] ev.e = "abort" -> [S |-> [S EXCEPT !.abort = ev.v], bad |-> {}]
    [] OTHER -> [S |-> S, bad |-> {<<"unknown event">>}]

Init == i = 1 /\ S = [N |-> <<>>, fcp |-> 0, abort |-> FALSE, log |-> <<>>] /\ skip = TRUE
Next ==
  /\ i <= Len(T)
  /\ i' = i+1
  /\ LET ev == T[i] IN
     IF ev.e = "reset" THEN S' = Reset(ev) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<S,skip>>
     ELSE LET a == Apply(ev)
          IN /\ S' = a.S
             /\ skip' = (a.bad # {})
             /\ a.bad # {} => PrintT(<<"MISMATCH", ev.s, i, a.bad>>)
Spec == Init /\ [][Next]_<<i,S,skip>>
Consumed == TLCGet("stats").diameter = Len(T)+1
=============================================================================
