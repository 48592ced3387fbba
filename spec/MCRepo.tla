--------------------------------- MODULE MCRepo ---------------------------------
(* Exhaustive small worlds of Repo: MODE "repo": histories of creation and removal; "exec": a diamond of nodes
   under breakpoints, with every choice of continuing, aborting and changing breakpoints at the stops; "state":
   set-state commands. *)
EXTENDS Repo
CONSTANTS MODE, DEPTH, BITS, RIDER
VARIABLES S, d, all, ref, op
vars == <<S,d,all,ref,op>>
C(cls,idx,name,spec) == [cls |-> cls, idx |-> idx, name |-> name, spec |-> spec, step |-> <<>>, par |-> <<>>,
                         f |-> [cpol |-> 20, dep |-> 65535], bad |-> <<>>]
RECURSIVE Build(_,_)
Build(X,cs) == IF cs = <<>> THEN X ELSE Build(Create(X,Head(cs)).S,Tail(cs))
None == [k |-> "none"]
Vec(v) == [k |-> "vec", v |-> v]
Diamond == InitAll(Build(NewForest,<<C("RNode",1,"n1",Vec(<<2,3>>)),C("RNode",2,"n2",Vec(<<4>>)),
                                     [C("RNode",3,"n3",Vec(<<4>>)) EXCEPT !.step = <<>>],C("RNode",4,"n4",None)>>))
Failing == [Diamond EXCEPT !.node[4].fail = 1]
Init == /\ S \in (IF MODE = "repo" THEN {NewForest} ELSE {Diamond,Failing})
        /\ d = 0 /\ all = <<>> /\ ref = S /\ op = "init"
Masks == {{b} : b \in BITS}
Log(Y) == all \o Y.run.log
(* while nothing runs *)
ExecOps ==
  \/ /\ S.run.at = 0 /\ d < DEPTH
     /\ \E id \in 1..2, cells \in {TRUE} :
          LET Y == Exec(S,1,id,cells,IF RIDER THEN AllRider(<<[op |-> "bp", m |-> <<EVALUATING>>, one |-> TRUE]>>) ELSE EmptyFn) IN
          /\ id \notin S.dead
          /\ S' = Y /\ all' = Y.run.log
          \* the same request in a forest without breakpoints, from the same caches
          /\ ref' = Exec([S EXCEPT !.bp = {}, !.ss = {}, !.node = [n \in DOMAIN @ |-> [@[n] EXCEPT !.bp = {}, !.ss = {}]]],1,id,cells,EmptyFn)
          /\ op' = "exec"
     /\ d' = d+1
  \/ S.run.at # 0 /\ S' = Cont(S) /\ all' = all \o S'.run.log /\ UNCHANGED <<ref,d>> /\ op' = "cont"
  \/ S.run.at # 0 /\ S' = Abort(S) /\ all' = all \o S'.run.log /\ UNCHANGED ref /\ d' = d /\ op' = "abort"
  \/ /\ d < DEPTH
     /\ \/ \E m \in Masks, one, on \in BOOLEAN : S' = FBreak(S,m,one,on)
        \/ \E n \in {1,2,4}, m \in Masks, one \in {0,1}, c \in {"Set.Breakpoint","Clear.Breakpoint"} :
             S' = Command(S,n,c,[bp |-> [k \in 1..Cardinality(m) |-> CHOOSE b \in m : TRUE], one |-> one]).S
     /\ d' = d+1 /\ UNCHANGED <<all,ref>> /\ op' = "bp"
Specs == {None,Vec(<<1>>),Vec(<<2,1>>),[k |-> "rec", p |-> << <<"VY",1>> >>],[k |-> "rec", p |-> << <<"VX",1>> >>]}
RepoOps ==
  /\ d < DEPTH /\ d' = d+1 /\ UNCHANGED <<all,ref>>
  /\ \/ \E cls \in {"RNode","RLab","Nope"}, idx \in 0..2, name \in {"","a","b"}, sp \in Specs :
          S' = Create(S,C(cls,idx,name,sp)).S /\ op' = IF Create(S,C(cls,idx,name,sp)).err THEN "refused" ELSE "create"
     \/ \E n \in 0..3 : S' = Remove(S,n).S /\ op' = IF Remove(S,n).err THEN "refused" ELSE "remove"
     \/ S' = Clear(S) /\ op' = "clear"
StateOps ==
  /\ d < DEPTH /\ d' = d+1 /\ UNCHANGED <<all,ref>>
  /\ \E n \in {1,4}, bad \in {<<>>,<<"v">>}, imm \in {<<>>,<<"name">>},
        f \in {[v |-> 3, bp |-> <<1>>],[order |-> <<"n3","n2">>],[order |-> <<"n3","nobody">>, v |-> 4],[vbad |-> 1, dep |-> 5],[asd |-> <<"State">>],
               [ss |-> <<2>>, cs |-> 0, fpol |-> 1]} :
       LET r == SetState(S,n,f,bad,imm) IN S' = r.S /\ op' = IF r.err THEN "refused" ELSE "set"
Next == CASE MODE = "repo" -> RepoOps [] MODE = "state" -> StateOps [] OTHER -> ExecOps
Spec == Init /\ [][Next]_vars

(* repository *)
Names == /\ \A nm \in DOMAIN S.names : S.names[nm] \in DOMAIN S.node /\ S.node[S.names[nm]].name = nm
         /\ \A n \in DOMAIN S.node : S.node[n].name # "" => Get(S.names,S.node[n].name,0) = n
Indices == \A n \in DOMAIN S.node : n >= 1 /\ n < S.size
Slotted == \A n \in DOMAIN S.node : Fit(S.node[n].cls,S.node[n].ch)
Refusals == [][op' = "refused" => [S' EXCEPT !.errs = 0] = [S EXCEPT !.errs = 0]]_vars
(* execution *)
OneStop == LET stopped == {n \in DOMAIN S.node : S.node[n].stopped} IN
           IF S.run.at = 0 THEN stopped = {} ELSE stopped = {S.run.at}
StopReason == S.run.at # 0 => (S.node[S.run.at].stopbp <=> ~S.run.glob) /\ S.run.bits # {}
(* nobody gets past a breakpoint of its own: while the run goes on, whatever is at rest is where the breakpoint says *)
Transparent == (MODE = "exec" /\ ~RIDER /\ S.run.at = 0 /\ op \in {"exec","cont"}) =>
   /\ all = ref.run.log
   /\ S.run.fail = ref.run.fail
   /\ \A n \in DOMAIN S.node : /\ S.node[n].res = ref.node[n].res /\ S.node[n].retc = ref.node[n].retc
                               /\ S.node[n].cid = ref.node[n].cid /\ S.node[n].es = IDLE
AtRest == S.run.at = 0 /\ op # "init" => \A n \in DOMAIN S.node : S.node[n].es = IDLE
OneShot == [][op' \in {"exec","cont"} /\ S'.run.at # 0 =>
               /\ S'.node[S'.run.at].ss \cap S'.run.bits = {}
               /\ S'.ss \cap S'.run.bits = {}]_vars
AbortLast == [][op' = "abort" => S'.run.at = 0 /\ Len(S'.run.log) <= 1]_vars
(* the same node is evaluated at most once for a request *)
OnceEach == \A i,j \in DOMAIN all : i # j => all[i] # all[j]
=============================================================================
