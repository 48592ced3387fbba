-------------------------------- MODULE MCRider --------------------------------
(* riders on a forest of a parent and two children: which node obeys what, and how often *)
EXTENDS Repo
VARIABLES S, hist
vars == <<S,hist>>
St(v) == <<[op |-> "st", v |-> v]>>
Spec1(ch) == IF ch = <<>> THEN [k |-> "none"] ELSE [k |-> "vec", v |-> ch]
F(grp) == [cpol |-> 20, dep |-> 65535, groups |-> grp]
New(X,n,ch,grp) == Create(X,[cls |-> "RNode", idx |-> n, name |-> "n" \o ToString(n), spec |-> Spec1(ch), step |-> <<>>, par |-> <<>>, f |-> F(grp), bad |-> <<>>]).S
Groups == {<<>>,<<"GrA">>,<<"GrB","GrA">>}
Entries == [names : {<<>>,<<"n2">>}, idx : {<<>>,<<3>>,<<1>>}, cmds : {St(5),St(6)}]
(* at most one group entry, or two groups with commands for all *)
One == [all : {<<>>,St(1)}, list : {<<>>} \cup {<<a,b>> : a,b \in Entries}, ix : {<<>>,<<[n |-> 2, cmds |-> St(8)]>>}]
Riders == {[g \in {k} |-> x] : k \in {"All","GrA"}, x \in One}
          \cup {[g \in {"GrA","GrB"} |-> IF g = "GrA" THEN x ELSE [all |-> St(9), list |-> <<>>, ix |-> <<>>]] : x \in One}
Init == /\ hist = <<>>
        /\ \E a,b \in Groups : S = InitAll(New(New(New(NewForest,1,<<2,3>>,<<"GrA">>),2,<<>>,a),3,<<>>,b))
Do(rd,id) == LET X == Exec(S,1,id,TRUE,rd) IN /\ S' = X /\ hist' = Append(hist,[rd |-> rd, id |-> id, before |-> S.node])
Next == \/ hist = <<>> /\ \E rd \in Riders : Do(rd,1)
        \/ Len(hist) = 1 /\ \E id \in {1,2} : Do(hist[1].rd,id)
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
Mine(n) == {"All"} \cup Set(S.node[n].grp)
Matches(n,e) == ("n" \o ToString(n)) \in Set(e.names) \/ n \in Set(e.idx) \/ (e.names = <<>> /\ e.idx = <<>>)
(* the values that some entry addressed to the node may give it *)
Offered(n,rd) == UNION {(IF rd[g].all # <<>> THEN {rd[g].all[1].v} ELSE {})
                        \cup {rd[g].list[k].cmds[1].v : k \in {j \in DOMAIN rd[g].list : Matches(n,rd[g].list[j])}}
                        \cup {rd[g].ix[k].cmds[1].v : k \in {j \in DOMAIN rd[g].ix : rd[g].ix[j].n = n}} : g \in Mine(n) \cap DOMAIN rd}
Again == Len(hist) = 2 /\ hist[2].id = hist[1].id
Addressed == hist = <<>> \/ \A n \in 1..3 :
   IF Offered(n,Last.rd) = {} \/ Again THEN S.node[n].v = Last.before[n].v ELSE S.node[n].v \in Offered(n,Last.rd)
(* a request obeyed once is not obeyed again *)
Once == Again => S.node = hist[2].before \/ \A n \in 1..3 : S.node[n].v = hist[2].before[n].v
(* the most specific kind of entry of the last group of the node has the last word, and of a list only the first match counts *)
Ordered == hist = <<>> \/ Again \/ \A n \in 1..3 :
   LET G == SelectSeq(<<"All">> \o S.node[n].grp,LAMBDA g : g \in DOMAIN Last.rd /\ Offered(n,[x \in {g} |-> Last.rd[g]]) # {}) IN
   IF G = <<>> THEN TRUE
   ELSE LET e == Last.rd[G[Len(G)]]
            ixs == {k \in DOMAIN e.ix : e.ix[k].n = n}
            ms == {k \in DOMAIN e.list : Matches(n,e.list[k])}
        IN S.node[n].v = IF ixs # {} THEN 8
                         ELSE IF ms # {} THEN e.list[CHOOSE k \in ms : \A j \in ms : k <= j].cmds[1].v
                         ELSE e.all[1].v
=============================================================================
