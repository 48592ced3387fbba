-------------------------------- MODULE NodePool --------------------------------
(* Polling of children by a pool of threads (MEQ: NodeNursery, MTPool).

   One request is evaluated on the forest Kids from node Root.  A thread that has
   to evaluate a node takes the lock of the node, places one order per child on the
   common queue (last placed, first served), and then serves orders until
   all its children have reported.  Workers serve any order, but no more than MaxBusy
   of them at one depth.

   Help = "own":   a thread that waits for its children serves only orders of its own
   Help = "depth": it serves the head of the queue if that is at least as deep as its own
                   children, and is refused when more than MaxBusy threads are busy
                   there (what the code did once; it deadlocks, see DESIGN.md)

   The abstract view (what a caller relies on) is in the second half: a
   node is evaluated by one thread at a time, only once all its children have
   reported, every order is served exactly once or withdrawn, nothing hangs, and the answer is
   the sequential one.                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Help, Workers, MaxBusy, Family
VARIABLES F,      \* the forest: kids, which nodes fail, which abandon at a failure, which cache
          thr,    \* per thread: stack of frames
          lock,   \* per node: the thread that executes it, or -1
          q,      \* queue of orders
          nthr,   \* per depth: number of orders being served
          got,    \* per node: what its children have reported so far
          num,    \* per node: number of reports expected
          aband,  \* per node: poll being abandoned
          cache,  \* per node: kept answer or NoAns
          runs,   \* per node: number of evaluations
          ans     \* the answer to the caller
vars == <<F,thr,lock,q,nthr,got,num,aband,cache,runs,ans>>

NoAns == [k |-> "none"]
T == 0..Workers                  \* 0 is the calling thread
Forests ==
  CASE Family = 1 ->  \* a diamond and a chain of different lengths to a shared node
         {<<<<2,3>>, <<4,5>>, <<4,6>>, <<>>, <<>>, <<>>>>,
          <<<<2,3>>, <<4,5>>, <<5,2>>, <<>>, <<>>>>}
    [] Family = 2 ->  \* a node reached deeper as well as shallower than its own parent
         {<<<<2,3>>, <<4,5>>, <<6,7>>, <<>>, <<>>, <<>>, <<2,8>>, <<>>>>}
    [] Family = 3 ->  \* a chain below the calling node hiding its children in the queue
         {<<<<2,3>>, <<4>>, <<4,5,6>>, <<7,8>>, <<4>>, <<>>, <<>>, <<>>>>}
    [] OTHER -> {<<<<2,3,4>>, <<5,6>>, <<6,2>>, <<5,3>>, <<>>, <<>>>>}
Fails == IF Family = 1 THEN 1 ELSE 0
Init ==
  /\ \E k \in Forests :
       LET N == DOMAIN k IN
       \E fl \in {s \in SUBSET {n \in N : k[n] = <<>>} : Cardinality(s) <= 2*Fails}, ab \in SUBSET (IF Fails = 1 THEN 1..3 ELSE {}),
          ca \in (IF Fails = 1 THEN {N,{}} ELSE {N, {n \in N : n % 2 = 0}}) :
         /\ F = [kids |-> k, fail |-> fl, ab |-> ab, keep |-> ca]
         /\ lock = [n \in N |-> -1] /\ got = [n \in N |-> <<>>] /\ num = [n \in N |-> 0]
         /\ aband = [n \in N |-> FALSE] /\ cache = [n \in N |-> NoAns] /\ runs = [n \in N |-> 0]
  /\ thr = [t \in T |-> IF t = 0 THEN <<[n |-> 1, ph |-> "lock", own |-> 0, d |-> 0]>> ELSE <<>>]
  /\ q = <<>> /\ nthr = [d \in 0..8 |-> 0] /\ ans = NoAns

Nodes == DOMAIN F.kids
Top(t) == thr[t][Len(thr[t])]
Set(t,fr) == [thr EXCEPT ![t] = [@ EXCEPT ![Len(@)] = fr]]
Push(th,t,fr) == [th EXCEPT ![t] = Append(@,fr)]
Pop(t) == [thr EXCEPT ![t] = SubSeq(@,1,Len(@)-1)]
RemoveAt(s,i) == SubSeq(s,1,i-1) \o SubSeq(s,i+1,Len(s))
MT(n) == Len(F.kids[n]) > 1

Serve(t,i) ==   \* thread t takes order i off the queue
  LET o == q[i] IN
  /\ q' = RemoveAt(q,i)
  /\ nthr' = [nthr EXCEPT ![o.d] = @+1]
  /\ thr' = Push(thr,t,[n |-> o.c, ph |-> "lock", own |-> o.own, d |-> o.d])

TakeAny(t) ==
  /\ t # 0 /\ thr[t] = <<>> /\ q # <<>> /\ nthr[q[1].d] < MaxBusy
  /\ Serve(t,1)
  /\ UNCHANGED <<F,lock,got,num,aband,cache,runs,ans>>

(* the end of the order in the top frame of t: report to whoever placed it *)
Report(t,a,th) ==
  LET fr == Top(t) p == fr.own IN
  IF p = 0 THEN /\ ans' = a /\ thr' = th /\ UNCHANGED <<got,num,aband,q,nthr>>
  ELSE
    /\ ans' = ans /\ thr' = th
    /\ nthr' = IF MT(p) THEN [nthr EXCEPT ![fr.d] = @-1] ELSE nthr
    /\ got' = [got EXCEPT ![p] = Append(@,[c |-> fr.n, a |-> a, drop |-> aband[p]])]
    /\ IF a.k = "fail" /\ p \in F.ab /\ ~aband[p]
       THEN LET keep == SelectSeq(q,LAMBDA o : o.own # p) IN
            /\ aband' = [aband EXCEPT ![p] = TRUE]
            /\ q' = keep /\ num' = [num EXCEPT ![p] = @ - (Len(q)-Len(keep))]
       ELSE UNCHANGED <<aband,q,num>>

Lock(t) ==
  /\ thr[t] # <<>> /\ Top(t).ph = "lock" /\ lock[Top(t).n] = -1
  /\ LET n == Top(t).n IN
     IF cache[n] # NoAns
     THEN Report(t,cache[n],Pop(t)) /\ UNCHANGED <<F,lock,cache,runs>>
     ELSE /\ lock' = [lock EXCEPT ![n] = t]
          /\ thr' = Set(t,[Top(t) EXCEPT !.ph = "poll"])
          /\ got' = [got EXCEPT ![n] = <<>>]
          /\ num' = [num EXCEPT ![n] = Len(F.kids[n])]
          /\ aband' = [aband EXCEPT ![n] = FALSE]
          /\ q' = IF MT(n) THEN [i \in 1..Len(F.kids[n]) |-> [own |-> n, c |-> F.kids[n][i], d |-> Top(t).d+1]] \o q
                  ELSE q
          /\ UNCHANGED <<F,nthr,cache,runs,ans>>

Polling(t) == thr[t] # <<>> /\ Top(t).ph = "poll"
OwnOrders(n) == {i \in 1..Len(q) : q[i].own = n}
ServeOwn(t) ==
  /\ Polling(t) /\ MT(Top(t).n)
  /\ IF Help = "own"
     THEN OwnOrders(Top(t).n) # {} /\ Serve(t,CHOOSE i \in OwnOrders(Top(t).n) : \A j \in OwnOrders(Top(t).n) : i <= j)
     ELSE q # <<>> /\ q[1].d >= Top(t).d+1 /\ nthr[q[1].d] <= MaxBusy /\ Serve(t,1)
  /\ UNCHANGED <<F,lock,got,num,aband,cache,runs,ans>>
\* an only child is executed directly
Descend(t) ==
  /\ Polling(t) /\ Len(F.kids[Top(t).n]) = 1 /\ got[Top(t).n] = <<>>
  /\ thr' = Push(thr,t,[n |-> F.kids[Top(t).n][1], ph |-> "lock", own |-> Top(t).n, d |-> Top(t).d+1])
  /\ UNCHANGED <<F,lock,q,nthr,got,num,aband,cache,runs,ans>>

FailsOf(rs) == UNION {rs[i].a.f : i \in {j \in 1..Len(rs) : rs[j].a.k = "fail"}}
RECURSIVE SumOf(_)
SumOf(rs) == IF rs = <<>> THEN 0 ELSE Head(rs).a.v + SumOf(Tail(rs))
Answer(n,rs) ==
  LET used == SelectSeq(rs,LAMBDA r : ~r.drop) IN
  IF FailsOf(used) # {} THEN [k |-> "fail", f |-> FailsOf(used), v |-> 0]
  ELSE IF n \in F.fail THEN [k |-> "fail", f |-> {n}, v |-> 0]
  ELSE [k |-> "val", f |-> {}, v |-> n + SumOf(used)]
Evaluate(t) ==
  /\ Polling(t) /\ Len(got[Top(t).n]) >= num[Top(t).n]
  /\ LET n == Top(t).n a == Answer(n,got[n]) IN
     /\ lock' = [lock EXCEPT ![n] = -1]
     /\ cache' = [cache EXCEPT ![n] = IF n \in F.keep \/ a.k = "fail" THEN a ELSE NoAns]
     /\ runs' = [runs EXCEPT ![n] = @+1]
     /\ Report(t,a,Pop(t))
  /\ UNCHANGED F

Done == ans # NoAns /\ \A t \in T : thr[t] = <<>>
Next == \/ \E t \in T : TakeAny(t) \/ Lock(t) \/ ServeOwn(t) \/ Descend(t) \/ Evaluate(t)
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------------
(* what a caller relies on *)
RECURSIVE SeqAns(_)
SeqAns(n) ==    \* sequential evaluation, without abandoning
  LET rs == [i \in 1..Len(F.kids[n]) |-> [c |-> F.kids[n][i], a |-> SeqAns(F.kids[n][i]), drop |-> FALSE]]
  IN Answer(n,rs)

Frames == {<<t,i>> : t \in T, i \in 1..8} \cap {<<t,i>> \in T \X (1..8) : i <= Len(thr[t])}
OneAtATime == \A a, b \in Frames : a # b /\ thr[a[1]][a[2]].ph = "poll" /\ thr[b[1]][b[2]].ph = "poll"
                => thr[a[1]][a[2]].n # thr[b[1]][b[2]].n
\* every child reports at most once per poll, and only what was ordered
NoDoubleReport == \A n \in Nodes : lock[n] # -1 =>
  /\ Len(got[n]) <= num[n]
  /\ \A i, j \in 1..Len(got[n]) : i # j => got[n][i].c # got[n][j].c
SameAnswer == ans # NoAns =>
  LET s == SeqAns(1) IN /\ ans.k = s.k /\ ans.v = s.v
                        /\ IF F.ab = {} THEN ans.f = s.f ELSE ans.f \subseteq s.f /\ (s.f # {} => ans.f # {})
OnceIfKept == \A n \in F.keep : runs[n] <= 1
Quiet == Done => q = <<>> /\ \A n \in Nodes : lock[n] = -1
DepthCount == Done => \A d \in DOMAIN nthr : nthr[d] = 0
Finishes == <>Done
=================================================================================
