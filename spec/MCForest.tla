------------------------------- MODULE MCForest -------------------------------
(* Exhaustive exploration of small forests under every history of requests,
   state changes, cache clears and aborts (up to the bounds), checking that the
   caching engine answers as the same forest would without any cache.        *)
EXTENDS MeqForest, Randomization

CONSTANTS MAXSET, MAXLEV, Family, ExecNodes, NCFG
VARIABLES S, sub, sets, last, fam
vars == <<S, sub, sets, last, fam>>

Node0 == [name |-> "n", groups |-> <<"All">>, ch |-> <<>>, step |-> <<>>, par |-> <<>>, npar |-> 1,
          order |-> <<>>, dep |-> {}, reads |-> {}, pol |-> 0, nact |-> 0, fpol |-> COLLECT,
          mpol |-> COLLECT, active |-> TRUE, sv |-> 0, c0 |-> 0, failmod |-> 0, missmod |-> 0,
          waitmod |-> 0, thr |-> 0, pert |-> 0, ignt |-> 0, abrt |-> 0]

\* root over two branches that share a leaf
Diamond == <<[Node0 EXCEPT !.ch = <<2,3>>, !.order = <<1,2>>, !.c0 = 1],
             [Node0 EXCEPT !.ch = <<4>>, !.order = <<1>>, !.par = <<1>>, !.c0 = 2, !.dep = {1}, !.reads = {1}],
             [Node0 EXCEPT !.ch = <<4>>, !.order = <<1>>, !.par = <<1>>, !.c0 = 3, !.dep = {4}, !.reads = {4}],
             [Node0 EXCEPT !.par = <<2,3>>, !.npar = 2, !.c0 = 4, !.dep = {4}, !.reads = {4}]>>
\* root over a branch and the leaf they share
Tri == <<[Node0 EXCEPT !.ch = <<2,3>>, !.order = <<1,2>>, !.c0 = 1],
         [Node0 EXCEPT !.ch = <<3>>, !.order = <<1>>, !.par = <<1>>, !.c0 = 2, !.dep = {1}, !.reads = {1}],
         [Node0 EXCEPT !.par = <<1,2>>, !.npar = 2, !.c0 = 4, !.dep = {4}, !.reads = {4}]>>
\* a root with a step child shared with its child
Stepped == <<[Node0 EXCEPT !.ch = <<2>>, !.step = <<3>>, !.order = <<1>>, !.c0 = 1],
             [Node0 EXCEPT !.ch = <<3>>, !.order = <<1>>, !.par = <<1>>, !.c0 = 2, !.dep = {1}, !.reads = {1}],
             [Node0 EXCEPT !.par = <<1,2>>, !.npar = 2, !.c0 = 3, !.dep = {4}, !.reads = {4}]>>
Pols == {-10,-1,1,10,20}
Three == {IGNORE,ABANDON,COLLECT}
Cfgs ==
  CASE Family = 1 -> {[i \in 1..3 |-> [Tri[i] EXCEPT !.pol = p[i]]] : p \in [1..3 -> {-10,-1,1,20}]}
    [] Family = 2 -> {[i \in 1..3 |-> [Tri[i] EXCEPT !.fpol = IF i < 3 THEN fp[i] ELSE COLLECT, !.pol = p,
                                                      !.failmod = IF i = 3 THEN 2 ELSE IF i = 2 THEN fm ELSE 0]] :
                         fp \in [1..2 -> Three], fm \in {0,2}, p \in {1,-1}}
    [] Family = 3 -> {[i \in 1..3 |-> [Tri[i] EXCEPT !.mpol = IF i < 3 THEN mp[i] ELSE COLLECT, !.pol = p,
                                                      !.missmod = IF i = 3 THEN 2 ELSE 0,
                                                      !.waitmod = IF i = 2 THEN wm ELSE 0]] :
                         mp \in [1..2 -> Three], wm \in {0,2}, p \in {1,-1}}
    [] Family = 4 -> {[i \in 1..3 |-> [Stepped[i] EXCEPT !.pol = p[i], !.pert = IF i = 3 THEN 1 ELSE 0,
                                         !.ignt = IF i = 2 THEN g ELSE 0]] :
                         p \in [1..3 -> {-10,1,20}], g \in {0,1}}
    [] Family = 5 -> {[i \in 1..4 |-> [Diamond[i] EXCEPT !.pol = p[i]]] : p \in [1..4 -> {-10,1,20}]}
    [] Family = 7 -> {[i \in 1..3 |-> [Tri[i] EXCEPT !.pol = p[i], !.fpol = fp, !.failmod = IF i = 2 THEN fm ELSE 0,
                                                      !.abrt = IF i = a THEN 1 ELSE 0, !.waitmod = IF i = 3 THEN wm ELSE 0]] :
                         p \in [1..3 -> {-1,1}], fp \in {IGNORE,ABANDON}, fm \in {0,2}, a \in 1..3, wm \in {0,3}}
    [] Family = 8 -> {[i \in 1..3 |-> [Stepped[i] EXCEPT !.pol = p, !.name = <<"a","b","c">>[i], !.groups = IF i \in g THEN <<"All","G">> ELSE <<"All">>,
                                                          !.active = (i # a)]] :
                         p \in {-1,1,20}, g \in SUBSET (1..3), a \in 0..3}
    [] Family = 9 -> {[i \in 1..3 |-> [Stepped[i] EXCEPT !.pol = p[i], !.pert = IF i = 3 THEN 1 - g[3] ELSE 0, !.ignt = g[i]]] :
                         p \in [1..3 -> {-1,1,20}], g \in [1..3 -> {0,1}]}
    [] OTHER -> {[i \in 1..4 |-> [Diamond[i] EXCEPT !.fpol = fp[i], !.failmod = IF i = 4 THEN 2 ELSE IF i = 2 THEN fm ELSE 0,
                                                     !.pol = p]] :
                         fp \in [1..4 -> Three], fm \in {0,2}, p \in {1,-1}}

Types == IF Family \in {4,9} THEN {1,2,5} ELSE {1,5}
IdOf(s,t,it,dom) == <<t,it,s,0,dom>>
Ent(g,kind,names,idx,arg,bad,st) ==
  [g |-> g, kind |-> kind, names |-> names, idx |-> idx, cmd |-> "cmd", arg |-> arg, bad |-> bad, st |-> st]
Riders == IF Family # 8 THEN {<<>>}
          ELSE {<<>>, <<Ent("All","all",<<>>,<<>>,1,0,<<>>)>>,
                <<Ent("G","list",<<"b">>,<<3>>,2,0,<<>>), Ent("All","list",<<>>,<<>>,3,0,<<>>)>>,
                <<Ent("All","list",<<"a","c">>,<<>>,4,1,<<>>), Ent("All","list",<<>>,<<1,2,3>>,5,0,<<>>)>>,
                <<Ent("All","ni",<<>>,<<2>>,6,0,<<"sv",1>>), Ent("G","ni",<<>>,<<3>>,7,1,<<>>)>>}
Reqs == {[id |-> IdOf(sub,t,it,d), next |-> nx, cells |-> t # 5, rider |-> rd] :
           t \in Types, it \in 1..2, d \in 1..2, rd \in Riders, nx \in {<<>>, IdOf(sub,1,2,1)}}

NoLast == [sound |-> TRUE, quiet |-> TRUE, fails |-> TRUE, rep |-> TRUE, kept |-> TRUE, rider |-> TRUE]
Picked == IF NCFG = 0 \/ NCFG >= Cardinality(Cfgs) THEN Cfgs ELSE RandomSubset(NCFG,Cfgs)
Init ==
  /\ \E N \in Picked :
       S = [N |-> [i \in DOMAIN N |-> FreshNode(N[i])], fcp |-> 1, abort |-> FALSE, log |-> <<>>]
  /\ sub = 1 /\ sets = 0 /\ last = NoLast /\ fam = Family

Clean(x) == x.fl \cap {"WAIT","ABORT"} = {}
(* an immediate repetition of the request, if the policy of the node lets it
   keep the result, evaluates nothing and answers the same                   *)
Repeats(n,r,x) ==
  LET y == Exec([x.S EXCEPT !.log = <<>>],n,r)
      pol == IF S.N[n].pol = DEFAULT THEN S.fcp ELSE S.N[n].pol
      keep == \/ "FAIL" \in x.fl \/ pol >= ALWAYS
              \/ pol > MINIMAL /\ DiffMask(r.id,r.next) \cap x.mask = {}
  IN Clean(x) /\ keep /\ r.cells => y.S.log = <<>> /\ y.res = x.res /\ y.mask = x.mask
(* nothing is kept that no policy asks to keep *)
Kept(n,r,x) ==
  \A m \in DOMAIN S.N :
    LET pol == IF S.N[m].pol = DEFAULT THEN S.fcp ELSE S.N[m].pol
    IN (/\ \E i \in 1..Len(x.S.log) : x.S.log[i][1] = m /\ x.S.log[i][2] = "eval"
        /\ x.S.N[m].cache.ok /\ "FAIL" \notin x.S.N[m].cache.fl)
       => \/ pol > MINIMAL \/ (pol > NEVER /\ Need(S.N[m]) > 1)
(* a command reaches exactly the nodes it is addressed to, among those that
   took up the request, unless an earlier one failed there                   *)
Ran(x) == {x.S.log[i][1] : i \in {j \in 1..Len(x.S.log) : x.S.log[j][2] = "eval" /\ x.S.log[j][3] = 1}}
Got(x,m) == {x.S.log[i][3] : i \in {j \in 1..Len(x.S.log) : x.S.log[j][1] = m /\ x.S.log[j][2] = "cmd"}}
Addressed(m,r) ==   \* in every group of the node: the common command, the first list entry that fits, its index entry
  LET E == 1..Len(r.rider)
      InG(i) == \E k \in 1..Len(S.N[m].groups) : S.N[m].groups[k] = r.rider[i].g
      Fits(i) == InG(i) /\ Matches(S.N[m],m,r.rider[i])
  IN {i \in E : Fits(i) /\ (r.rider[i].kind = "list" =>
         ~\E j \in E : j < i /\ r.rider[j].kind = "list" /\ r.rider[j].g = r.rider[i].g /\ Fits(j))}
RidersOk(r,x) ==
  \A m \in DOMAIN S.N :
    LET ad == Addressed(m,r)
        args == {r.rider[i].arg : i \in {j \in ad : r.rider[j].st = <<>>}}
    IN /\ Got(x,m) \subseteq args
       /\ m \in Ran(x) => Got(x,m) = args
Judge(n,r,x,f) ==
  [sound |-> r.cells /\ "ABORT" \notin x.fl /\ r.rider = <<>> =>
       x.fl \cap {"FAIL","MISSING","WAIT"} = f.fl /\ (f.fl \cap {"WAIT"} = {} => x.res = f.res),
   quiet |-> S.abort => x.S.log = <<>> /\ x.fl = {"ABORT"} /\ x.S.N = S.N,
   fails |-> Clean(x) /\ r.cells => (("FAIL" \in x.fl) = (x.res.k = "fail")) /\ ("MISSING" \in x.fl /\ "FAIL" \notin x.fl => x.res.k = "missing"),
   rep   |-> Repeats(n,r,x),
   kept  |-> Kept(n,r,x),
   rider |-> RidersOk(r,x)]
DoExec(n) == \E r \in Reqs :
  LET x == Exec(S,n,r)
      f == Fresh(S.N,n,r)
  IN /\ S' = [x.S EXCEPT !.log = <<>>]
     /\ last' = Judge(n,r,x,f)
     /\ UNCHANGED <<sub,sets,fam>>
\* a state change is followed by requests with a new state sub-id, as the kernel does
Sets == IF Family = 7 THEN {<<"abrt",0>>, <<"waitmod",0>>, <<"sv",1>>} ELSE {<<"sv",1>>, <<"failmod",3>>, <<"act",0>>}
DoSet(n) == \E fv \in Sets :
  /\ sets < MAXSET /\ sets' = sets+1 /\ sub' = sub+1
  /\ S' = SetState(S,n,fv[1],fv[2])
  /\ last' = NoLast /\ UNCHANGED fam
DoClear(n) == \E rec \in BOOLEAN :
  /\ S' = Clear(S,n,rec) /\ last' = NoLast /\ UNCHANGED <<sub,sets,fam>>
DoAbort == /\ ~S.abort /\ sets < MAXSET /\ sets' = sets+1
           /\ S' = [S EXCEPT !.abort = TRUE] /\ last' = NoLast /\ UNCHANGED <<sub,fam>>
DoUnabort == /\ S.abort /\ S' = [S EXCEPT !.abort = FALSE] /\ last' = NoLast /\ UNCHANGED <<sub,sets,fam>>

Next == /\ TLCGet("level") <= MAXLEV
        /\ \/ \E n \in ExecNodes : DoExec(n)
           \/ \E n \in DOMAIN S.N : DoSet(n)
           \/ DoClear(1) \/ DoAbort \/ DoUnabort
Spec == Init /\ [][Next]_vars

(* C01: an evaluation answers exactly what a cache-free forest would *)
Sound == last.sound
(* an aborting forest evaluates nothing *)
AbortQuiet == last.quiet
FailsTold == last.fails
Repeatable == last.rep
KeptByPolicy == last.kept
RidersTargeted == last.rider
(* a node that must never cache retains nothing but a failure *)
NeverCaches ==
  \A n \in DOMAIN S.N : S.N[n].pol <= NEVER /\ S.N[n].cache.ok => "FAIL" \in S.N[n].cache.fl
=============================================================================
