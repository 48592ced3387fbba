-------------------------------- MODULE Octopussy --------------------------------
(* The messaging layer: work processes with priority queues, the dispatcher that routes
   and polls, subscriptions, and the timers, inputs and signals it turns into messages.
   The operators below are an interpreter: what each command does to the state S, and
   which callbacks it makes (S.log).  What a work process does when it is called back is
   its plan: for each delivery a result and a list of acts.

   Identifiers and addresses are sequences of atoms (Hiid).  Further atoms:
     -20 Local -21 Publish -22 WP -23 Event -24 Timeout -25 Input -26 Signal
     -27 Subscribe -28 Hello -29 Bye -30 State *)
EXTENDS Integers, Sequences, FiniteSets, TLC
H == INSTANCE Hiid
LOCALA == -20  PUB == -21  WPA == -22  EVENT == -23
PROC == 5  HOST == 6                                  \* this process and this host
Set(q) == {q[k] : k \in DOMAIN q}
Max(a,b) == IF a > b THEN a ELSE b
ACCEPT == 0  HOLD == 1  REQUEUE == 2  CANCEL == 3  THROW == 9
EVPRI == 2048

NewWp(cls,auto,gw) == [cls |-> cls, inst |-> 0, att |-> "new", started |-> FALSE, q |-> <<>>, need |-> FALSE,
   rl |-> FALSE, subs |-> <<>>, auto |-> auto, gw |-> gw, gwdecl |-> FALSE, st |-> 0, act |-> 0]
NewSys(n) == [wp |-> [k \in 1..n |-> NewWp(0,FALSE,<<>>)], inst |-> [c \in {} |-> 0], tick |-> 0, repoll |-> FALSE,
   depth |-> -1, del |-> <<>>, wait |-> <<>>, run |-> FALSE, instart |-> FALSE, log |-> <<>>, plan |-> [k \in {} |-> <<>>],
   nm |-> 0, cx |-> [valid |-> FALSE], ret |-> 0, exc |-> FALSE, now |-> 0,
   tm |-> <<>>, inp |-> <<>>, sig |-> <<>>, ist |-> [k \in {} |-> {}]]

Log(S,k,w,n,v) == [S EXCEPT !.log = Append(@,[k |-> k, w |-> w-1, n |-> n, v |-> v])]
Ret(S,n) == [S EXCEPT !.ret = n]
Err(S) == [S EXCEPT !.exc = TRUE]
Addr(S,w) == <<S.wp[w].cls,S.wp[w].inst,PROC,HOST>>
Attached(S,w) == S.wp[w].att \in {"on","wait","del"}

\* the work processes in the dispatcher's order: by class, then by instance
Before(S,a,b) == S.wp[a].cls < S.wp[b].cls \/ (S.wp[a].cls = S.wp[b].cls /\ S.wp[a].inst < S.wp[b].inst)
RECURSIVE Sorted(_,_)
Sorted(S,X) == IF X = {} THEN <<>> ELSE LET f == CHOOSE a \in X : \A b \in X \ {a} : Before(S,a,b) IN <<f>> \o Sorted(S,X \ {f})
On(S) == Sorted(S,{w \in DOMAIN S.wp : S.wp[w].att \in {"on","fin"}})

(* ---- queues ---- *)
\* a message goes behind everything of its own or a higher priority; a poll is called for when it becomes the head
Insert(q,e) == LET n == Cardinality({k \in DOMAIN q : q[k].pri >= e.pri}) IN SubSeq(q,1,n) \o <<e>> \o SubSeq(q,n+1,Len(q))
EnqAt(S,w,msg,tick,quiet) ==
  LET q == S.wp[w].q
      head == q = <<>> \/ msg.pri > q[1].pri
  IN [S EXCEPT !.wp[w].q = Insert(q,[msg |-> msg, pri |-> msg.pri, tick |-> tick]),
               !.wp[w].need = @ \/ (head /\ ~quiet),
               !.ret = IF head THEN 1 ELSE 0]
Enq(S,w,msg) == LET X == EnqAt(S,w,msg,S.tick,FALSE) IN [X EXCEPT !.repoll = @ \/ X.ret = 1]
RemoveFirst(q,m) == LET P == {k \in DOMAIN q : q[k].msg.m = m}
                    IN IF P = {} THEN q ELSE LET p == CHOOSE k \in P : \A j \in P : k <= j IN SubSeq(q,1,p-1) \o SubSeq(q,p+1,Len(q))
InQueue(S,w,m) == \E k \in DOMAIN S.wp[w].q : S.wp[w].q[k].msg.m = m
\* take messages out by identifier; a new head calls for a poll.  one: stop at the first, and hand it over
Dequeue(S,w,mask,one) ==
  LET q == S.wp[w].q
      all == {k \in DOMAIN q : H!CodeMatches(mask,q[k].msg.id)}
      X == IF one /\ all # {} THEN {CHOOSE k \in all : \A j \in all : k <= j} ELSE all
      rest == SelectSeq([k \in DOMAIN q |-> <<k,q[k]>>],LAMBDA e : e[1] \notin X)
      r == [k \in DOMAIN rest |-> rest[k][2]]
  IN [S EXCEPT !.wp[w].q = r, !.wp[w].need = @ \/ (1 \in X /\ r # <<>>),
               !.ret = IF one /\ X # {} THEN q[CHOOSE k \in X : TRUE].msg.uid ELSE -9]
DequeuePos(S,w,pos,one) ==
  LET q == S.wp[w].q IN
  IF pos < 0 \/ pos >= Len(q) THEN Err(S)
  ELSE [S EXCEPT !.wp[w].q = SubSeq(q,1,pos) \o SubSeq(q,pos+2,Len(q)), !.wp[w].need = @ \/ (pos = 0 /\ Len(q) > 1),
                 !.ret = IF one THEN q[pos+1].msg.uid ELSE -9]
Search(S,w,mask,pos) ==
  LET q == S.wp[w].q IN
  IF pos < 0 \/ pos >= Len(q) THEN Err(S)
  ELSE LET X == {k \in pos+1..Len(q) : H!CodeMatches(mask,q[k].msg.id)}
       IN Ret(S,IF X = {} THEN -1 ELSE (CHOOSE k \in X : \A j \in X : k <= j)-1)

(* ---- subscriptions ---- *)
RECURSIVE SubAdd(_,_,_,_)
SubAdd(subs,k,mask,scope) ==
  IF k > Len(subs) THEN [changed |-> TRUE, subs |-> Append(subs,<<mask,scope>>)]
  ELSE LET s == subs[k] IN
    IF H!CodeSubset(mask,s[1]) /\ H!CodeSubset(scope,s[2]) THEN [changed |-> FALSE, subs |-> subs]
    ELSE IF H!CodeSubset(s[1],mask) /\ H!CodeSubset(s[2],scope) THEN [changed |-> TRUE, subs |-> [subs EXCEPT ![k] = <<mask,scope>>]]
    ELSE SubAdd(subs,k+1,mask,scope)
SubRemove(subs,mask) ==
  LET r == SelectSeq(subs,LAMBDA s : ~H!CodeSubset(s[1],mask)) IN [changed |-> Len(r) # Len(subs), subs |-> r]
Wants(subs,msg) == \E k \in DOMAIN subs : H!CodeMatches(msg.id,subs[k][1]) /\ H!CodeMatches(msg.from,subs[k][2])
RECURSIVE Flat(_)
Flat(subs) == IF subs = <<>> THEN <<>> ELSE subs[1][1] \o <<-98>> \o subs[1][2] \o <<-97>> \o Flat(Tail(subs))

(* ---- routing ---- *)
AtomMatches(a,b) == a = b \/ a \in {-1,-2} \/ b \in {-1,-2}
Forwards(S,w,msg) == msg.to[4] = -1 \/ msg.to[4] \in Set(S.wp[w].gw)
\* who gets a message: here, if it is for this process; and the gateways, if it may be for another
Receivers(S,msg) ==
  LET to == msg.to
      local == AtomMatches(to[4],HOST) /\ AtomMatches(to[3],PROC)
      one == to[1] \notin {PUB,-1} /\ to[2] \notin {PUB,-1}
      here(w) == IF one THEN S.wp[w].cls = to[1] /\ S.wp[w].inst = to[2]
                 ELSE \/ AtomMatches(to[1],S.wp[w].cls) /\ AtomMatches(to[2],S.wp[w].inst)
                      \/ to[1] = PUB /\ Wants(S.wp[w].subs,msg)
      L == IF local THEN SelectSeq(On(S),here) ELSE <<>>
      G == IF to[4] # HOST \/ to[3] # PROC
           THEN SelectSeq(On(S),LAMBDA w : S.wp[w].gwdecl /\ Forwards(S,w,msg)) ELSE <<>>
  IN L \o G
RECURSIVE EnqAll(_,_,_)
EnqAll(S,R,msg) == IF R = <<>> THEN S ELSE EnqAll(Enq(S,R[1],msg),Tail(R),msg)
\* a message leaves w: it carries w's address and state; the receivers each get their own view of it
SendTo(S,w,msg,to) ==
  IF ~Attached(S,w) THEN Err(S)
  ELSE LET t == [to EXCEPT ![3] = IF @ = LOCALA THEN PROC ELSE @, ![4] = IF @ = LOCALA THEN HOST ELSE @]
           m == [msg EXCEPT !.m = S.nm+1, !.from = Addr(S,w), !.st = S.wp[w].st, !.to = t]
           R == Receivers(S,m)
       IN [EnqAll([S EXCEPT !.nm = @+1],R,m) EXCEPT !.ret = Len(R)]
Uid(id) == IF id[1] <= -20 \/ Len(id) < 2 THEN -1 ELSE id[Len(id)]
Msg(id,pri) == [m |-> 0, uid |-> Uid(id), k |-> "m", id |-> id, pri |-> pri, from |-> <<0,0,0,0>>, to |-> <<0,0,0,0>>, st |-> 0, pay |-> <<>>]
GLOBAL == 2  INHOST == 1  INPROC == 0
PublishMsg(S,w,msg,scope) == SendTo(S,w,msg,<<PUB,PUB,IF scope < INHOST THEN PROC ELSE -1,IF scope < GLOBAL THEN HOST ELSE -1>>)
PublishSubs(S,w) == PublishMsg(S,w,[Msg(<<WPA,-27>> \o Addr(S,w),256) EXCEPT !.pay = <<-99>> \o Flat(S.wp[w].subs)],GLOBAL)

(* ---- timers, inputs, signals ---- *)
TmId(t) == <<EVENT,-24>> \o t.id
EvMsg(S,m,k,id,pri) == [Msg(id,pri) EXCEPT !.m = m, !.uid = -2, !.k = k]
AddTimeout(S,w,id,period,fl,pri) ==
  IF period = 0 THEN Err(S)
  ELSE [S EXCEPT !.tm = <<[w |-> w, id |-> id, period |-> period, next |-> S.now+period, one |-> fl = 1, pri |-> pri, m |-> S.nm+1]>> \o @,
                 !.nm = @+1, !.ret = 0]
AfterRemoval(S,w) == [S EXCEPT !.repoll = @ \/ S.wp[w].need]
Drop(q,p) == SubSeq(q,1,p-1) \o SubSeq(q,p+1,Len(q))
First(X) == CHOOSE k \in X : \A j \in X : k <= j
RemoveTimeout(S,w,id) ==
  LET X == {k \in DOMAIN S.tm : S.tm[k].w = w /\ H!CodeMatches(id,S.tm[k].id)} IN
  IF X = {} THEN Ret(S,0)
  ELSE LET p == First(X)
           Y == AfterRemoval(Dequeue(S,w,TmId(S.tm[p]),FALSE),w)
       IN Ret([Y EXCEPT !.tm = Drop(@,p)],1)
AddInput(S,w,fd,fl,one,pri) ==
  IF fd < 0 \/ fl = {} THEN Err(S)
  ELSE LET X == {k \in DOMAIN S.inp : S.inp[k].w = w /\ S.inp[k].fd = fd} IN
    IF X # {} THEN LET p == First(X) IN Ret([S EXCEPT !.inp[p].fl = @ \cup fl, !.inp[p].one = one, !.inp[p].pri = pri],0)
    ELSE Ret([S EXCEPT !.inp = <<[w |-> w, fd |-> fd, fl |-> fl, one |-> one, pri |-> pri, last |-> 0]>> \o @],0)
\* fd < 0: all of the work process's inputs
RECURSIVE RemoveInputs(_,_,_,_,_)
RemoveInputs(S,w,fd,fl,k) ==
  IF k > Len(S.inp) THEN S
  ELSE LET i == S.inp[k] IN
    IF i.w # w \/ (fd >= 0 /\ i.fd # fd) THEN RemoveInputs(S,w,fd,fl,k+1)
    ELSE LET S1 == IF i.last # 0 /\ InQueue(S,w,i.last) THEN [S EXCEPT !.ist[i.last] = IF fd < 0 THEN {} ELSE @ \ fl] ELSE S
             left == i.fl \ fl
             gone == fd < 0 \/ (left = {} /\ ~i.one)
             S2 == IF gone THEN [S1 EXCEPT !.inp = Drop(@,k)] ELSE [S1 EXCEPT !.inp[k].fl = left]
         IN IF fd < 0 THEN RemoveInputs(Ret(S2,1),w,fd,fl,k) ELSE Ret(S2,1)
RemoveInput(S,w,fd,fl) == RemoveInputs(Ret(S,0),w,fd,fl,1)
AddSignal(S,w,sg,ign,disc,one,pri) ==
  LET X == {k \in DOMAIN S.sig : S.sig[k].w = w /\ S.sig[k].sg = sg} IN
  IF X # {} THEN Ret([S EXCEPT !.sig[First(X)].pri = pri],0)
  ELSE Ret([S EXCEPT !.sig = Append(@,[w |-> w, sg |-> sg, ign |-> ign, disc |-> disc, one |-> one, pri |-> pri, last |-> 0, m |-> S.nm+1]), !.nm = @+1],0)
SigId(sg) == <<EVENT,-26,IF sg < 0 THEN -2 ELSE 9000+sg>>
RemoveSignal(S,w,sg) ==
  LET hit == \E k \in DOMAIN S.sig : S.sig[k].w = w /\ (sg < 0 \/ S.sig[k].sg = sg)
      Y == AfterRemoval(Dequeue(S,w,SigId(sg),FALSE),w)
  IN Ret([Y EXCEPT !.sig = SelectSeq(@,LAMBDA s : ~(s.w = w /\ (sg < 0 \/ s.sg = sg)))],IF hit THEN 1 ELSE 0)
ForgetEvents(S,w) == [S EXCEPT !.tm = SelectSeq(@,LAMBDA t : t.w # w), !.inp = SelectSeq(@,LAMBDA t : t.w # w),
                               !.sig = SelectSeq(@,LAMBDA t : t.w # w)]

\* timers that are due, in the order of the list
RECURSIVE FireTimers(_,_)
FireTimers(S,k) ==
  IF k > Len(S.tm) THEN S
  ELSE LET t == S.tm[k] IN
    IF t.next > S.now THEN FireTimers(S,k+1)
    ELSE LET S1 == Enq(S,t.w,EvMsg(S,t.m,"t",TmId(t),t.pri))
         IN IF t.one THEN FireTimers([S1 EXCEPT !.tm = Drop(@,k)],k)
            ELSE FireTimers([S1 EXCEPT !.tm[k].next = S.now+t.period],k+1)
\* the message of an event that is still in the queue is brought up to date, not sent again
Nudge(S,w,m) == IF S.wp[w].q # <<>> /\ S.wp[w].q[1].msg.m = m THEN [S EXCEPT !.wp[w].need = TRUE, !.repoll = TRUE] ELSE S
RECURSIVE FireInputs(_,_,_)
FireInputs(S,k,ready) ==
  IF k > Len(S.inp) THEN S
  ELSE LET i == S.inp[k]
           f == {x \in i.fl : <<i.fd,x>> \in ready}
       IN IF f = {} THEN FireInputs(S,k+1,ready)
          ELSE LET up == i.last # 0 /\ InQueue(S,i.w,i.last)
                   n == S.nm+1
                   S1 == IF up THEN Nudge([S EXCEPT !.ist[i.last] = @ \cup f],i.w,i.last)
                         ELSE Enq([S EXCEPT !.nm = n, !.inp[k].last = n, !.ist = @ @@ (n :> f)],i.w,
                                  EvMsg(S,n,"i",<<EVENT,-25,i.fd>>,i.pri))
               IN IF i.one THEN FireInputs([S1 EXCEPT !.inp = Drop(@,k)],k,ready) ELSE FireInputs(S1,k+1,ready)
RECURSIVE FireSignal(_,_,_)
FireSignal(S,k,sg) ==
  IF k > Len(S.sig) THEN S
  ELSE LET s == S.sig[k] IN
    IF s.sg # sg THEN FireSignal(S,k+1,sg)
    ELSE LET up == s.last # 0 /\ InQueue(S,s.w,s.last)
             n == S.nm+1
             S1 == IF s.ign THEN S
                   ELSE IF s.disc THEN Enq(S,s.w,EvMsg(S,s.m,"s",SigId(sg),s.pri))
                   ELSE IF up THEN Nudge(S,s.w,s.last)
                   ELSE Enq([S EXCEPT !.nm = n, !.sig[k].last = n],s.w,EvMsg(S,n,"s",SigId(sg),s.pri))
         IN IF s.one THEN FireSignal([S1 EXCEPT !.sig = Drop(@,k)],k,sg) ELSE FireSignal(S1,k+1,sg)
RECURSIVE FireSignals(_,_)
FireSignals(S,q) == IF q = <<>> THEN S ELSE FireSignals(FireSignal(S,1,q[1]),Tail(q))
\* order: the signals by their number
CheckEvents(S,dt,ready,sigs) == FireSignals(FireInputs(FireTimers([S EXCEPT !.now = @+dt],1),1,ready),sigs)

(* ---- callbacks, and what work processes do in them ---- *)
Pop(S,w,key) ==
  LET k == <<w,key>> IN
  IF k \notin DOMAIN S.plan \/ S.plan[k] = <<>> THEN [S |-> S, res |-> ACCEPT, acts |-> <<>>]
  ELSE [S |-> [S EXCEPT !.plan[k] = Tail(@)], res |-> Head(S.plan[k]).res, acts |-> Head(S.plan[k]).acts]
RECURSIVE Acts(_,_,_), Act(_,_,_), Poll(_,_), Loop(_,_,_), DoPoll(_,_), Callback(_,_,_,_), DoInit(_,_), DoStart(_,_), DoStop(_,_),
          Detach(_,_,_), Attach(_,_), Flush(_)

\* S.ret: the result the callback returns
Callback(S,w,key,cx) ==
  LET p == Pop(S,w,key)
      S1 == [p.S EXCEPT !.wp[w].act = @+1, !.cx = cx]
      S2 == Acts(S1,w,p.acts)
  IN [S2 EXCEPT !.wp[w].act = @-1, !.cx = S.cx, !.ret = p.res]
Acts(S,w,a) == IF a = <<>> THEN S ELSE Acts(Act(S,w,a[1]),w,Tail(a))
NoMsg == [valid |-> FALSE]
Act(S,w,a) ==
  LET done(X) == IF X.exc THEN Log([X EXCEPT !.exc = FALSE],"err",w,0,<<>>) ELSE Log(X,"act",w,X.ret,<<>>)
      bool(X,b) == Ret(X,IF b THEN 1 ELSE 0)
  IN CASE a.op = "snd" -> done(SendTo(S,w,Msg(a.id,a.pri),a.to))
       [] a.op \in {"fwd","fwx"} ->
            IF ~S.cx.valid THEN done(Err(S))
            ELSE LET X == SendTo(S,w,S.cx.msg,a.to)
                 IN done(IF a.op = "fwx" /\ ~X.exc
                         THEN [X EXCEPT !.cx.msg.st = S.wp[w].st, !.cx.msg.from = Addr(S,w)] ELSE X)
       [] a.op \in {"pub","pbi"} -> done(PublishMsg(S,w,Msg(a.id,a.pri),a.scope))
       [] a.op \in {"sub","sbs"} ->
            LET ad == IF S.wp[w].att = "new" THEN <<0,0,LOCALA,LOCALA>> ELSE Addr(S,w)
                to == IF a.op = "sub" THEN a.to
                      ELSE <<-1,-1,IF a.scope < INHOST THEN ad[3] ELSE -1,IF a.scope < GLOBAL THEN ad[4] ELSE -1>>
                r == SubAdd(S.wp[w].subs,1,a.id,to)
                X == [S EXCEPT !.wp[w].subs = r.subs]
                Y == IF r.changed /\ S.wp[w].started THEN PublishSubs(X,w) ELSE X
            IN done(bool(Y,r.changed))
       [] a.op = "uns" ->
            LET r == SubRemove(S.wp[w].subs,a.id)
                X == [S EXCEPT !.wp[w].subs = r.subs]
                Y == IF r.changed /\ S.wp[w].started THEN PublishSubs(X,w) ELSE X
            IN done(bool(Y,r.changed))
       [] a.op = "dqi" -> done(Dequeue(S,w,a.id,a.want))
       [] a.op = "dqp" -> done(DequeuePos(S,w,a.pos,a.want))
       [] a.op = "sqq" -> done(Search(S,w,a.id,a.pos))
       [] a.op = "pol" -> done(Ret(Poll(S,a.n),0))
       [] a.op = "att" ->
            IF S.wp[a.s].att # "new" THEN done(Err(S))
            ELSE LET X == Attach(Log(S,"att",w,a.s-1,<<>>),a.s) IN done(Ret(X,X.wp[a.s].inst))
       [] a.op = "det" ->
            IF S.wp[a.s].att = "new" THEN done(Err(S))
            ELSE LET X == Detach(S,a.s,a.delay \/ S.wp[a.s].act > 0) IN done(Ret(X,0))
       [] a.op = "mod" -> IF S.cx.valid THEN done(Ret([S EXCEPT !.cx.msg.st = a.n],0)) ELSE done(Err(S))
       [] a.op = "tak" -> IF S.cx.valid THEN done(Ret([S EXCEPT !.cx = NoMsg],0)) ELSE done(Err(S))
       [] a.op = "sta" ->
            LET X == [S EXCEPT !.wp[w].st = a.n]
                Y == IF a.n # S.wp[w].st /\ S.wp[w].started /\ ~a.delay THEN PublishMsg(X,w,Msg(<<WPA,-30>>,256),GLOBAL) ELSE X
            IN done(IF Y.exc THEN Y ELSE Ret(Y,0))
       [] a.op \in {"tmo","rto","inp","rin","sig","rsg"} /\ ~Attached(S,w) -> done(Err(S))
       [] a.op = "tmo" -> done(AddTimeout(S,w,a.id,a.period,a.fl,a.pri))
       [] a.op = "rto" -> done(RemoveTimeout(S,w,a.id))
       [] a.op = "inp" -> done(AddInput(S,w,a.fd,Set(a.fl),a.one,a.pri))
       [] a.op = "rin" -> done(RemoveInput(S,w,a.fd,Set(a.fl)))
       [] a.op = "sig" -> done(AddSignal(S,w,a.sg,a.ign,a.disc,a.one,a.pri))
       [] a.op = "rsg" -> done(RemoveSignal(S,w,a.sg))

DoInit(S,w) ==
  LET S1 == [S EXCEPT !.wp[w].need = S.wp[w].q # <<>>, !.wp[w].rl = FALSE, !.wp[w].started = FALSE, !.wp[w].gwdecl = S.wp[w].gw # <<>>]
      S2 == Callback(Log(S1,"ini",w,0,<<>>),w,-1,NoMsg)
  IN IF S2.ret # THROW THEN S2
     ELSE IF S.wp[w].auto THEN Detach(S2,w,TRUE) ELSE Err(S2)
\* S.ret: whether a poll is called for
DoStart(S,w) ==
  LET S1 == PublishMsg(S,w,Msg(<<WPA,-28>> \o Addr(S,w),256),GLOBAL)
      S2 == Callback(Log(S1,"sta",w,0,<<>>),w,-2,NoMsg)
  IN IF S2.ret = THROW THEN (IF S.wp[w].auto THEN Ret(Detach(S2,w,TRUE),0) ELSE Err(S2))
     ELSE LET S3 == PublishSubs([S2 EXCEPT !.wp[w].need = @ \/ S2.ret = 1],w)
          IN [S3 EXCEPT !.wp[w].started = TRUE, !.ret = IF S3.wp[w].need THEN 1 ELSE 0]
DoStop(S,w) ==
  LET S1 == PublishMsg(S,w,Msg(<<WPA,-29>> \o Addr(S,w),256),GLOBAL)
  IN Callback(Log(S1,"stp",w,0,<<>>),w,-3,NoMsg)
Up(S) == [S EXCEPT !.repoll = @ \/ (S.ret = 1 /\ ~S.exc)]
Attach(S,w) ==
  LET c == S.wp[w].cls
      n == IF c \in DOMAIN S.inst THEN S.inst[c] ELSE 0
      S1 == [S EXCEPT !.inst = (c :> n+1) @@ @, !.wp[w].inst = n, !.wp[w].att = IF S.instart THEN "wait" ELSE "on",
                      !.wait = IF S.instart THEN <<w>> \o @ ELSE @]
  IN IF S.instart \/ ~S.run THEN S1 ELSE LET S2 == DoInit(S1,w) IN IF S2.exc THEN S2 ELSE Up(DoStart(S2,w))
Detach(S,w,delay) ==
  IF ~Attached(S,w) \/ S.wp[w].att # "on" THEN Err(S)
  ELSE LET S1 == ForgetEvents(S,w) IN
    IF delay THEN [S1 EXCEPT !.wp[w].att = "del", !.del = <<w>> \o @, !.wp[w].gwdecl = FALSE]
    ELSE LET S2 == DoStop(S1,w) IN [S2 EXCEPT !.wp[w].att = "off", !.wp[w].gwdecl = FALSE]
Flush(S) ==
  IF S.del = <<>> THEN S
  ELSE LET w == S.del[1]
           S1 == DoStop([S EXCEPT !.del = Tail(@)],w)
       IN Flush([S1 EXCEPT !.wp[w].att = "off"])

RECURSIVE ForAll(_,_,_)
ForAll(S,q,what) ==
  IF q = <<>> \/ S.exc THEN S
  ELSE LET w == q[1] IN
    ForAll(CASE what = "init" -> DoInit(S,w)
             [] what = "start" -> IF S.wp[w].att = "off" THEN S ELSE Up(DoStart(S,w))
             [] what = "stop" -> LET X == DoStop(S,w) IN [X EXCEPT !.wp[w].att = "fin"],Tail(q),what)
RECURSIVE LateOnes(_)
LateOnes(S) ==
  IF S.wait = <<>> \/ S.exc THEN S
  ELSE LET w == S.wait[1] IN
    LateOnes(LET X == DoInit([S EXCEPT !.wait = Tail(@), !.wp[w].att = "on"],w) IN IF X.exc THEN X ELSE Up(DoStart(X,w)))
DspStart(S) ==
  LET S1 == [S EXCEPT !.run = TRUE, !.instart = TRUE, !.tick = 0]
      S2 == ForAll(S1,On(S1),"init")
      S3 == ForAll(S2,On(S2),"start")
  IN IF S3.exc THEN S3 ELSE LateOnes([S3 EXCEPT !.instart = FALSE])
DspStop(S) ==
  LET S1 == [S EXCEPT !.run = FALSE]
      S2 == ForAll(S1,On(S1),"stop")
  IN [S2 EXCEPT !.tm = <<>>, !.inp = <<>>, !.sig = <<>>]

(* ---- polling ---- *)
\* a work process is held up while it is inside receive(), except for events
Locked(S,w) == S.wp[w].rl /\ S.wp[w].q # <<>> /\ S.wp[w].q[1].msg.k = "m"
\* what waits gains in priority
PollPri(S,w) ==
  LET r == S.wp[w] IN
  IF r.need /\ ~Locked(S,w) /\ r.q # <<>> THEN Max(r.q[1].pri,0)+(S.tick-r.q[1].tick) ELSE -1
Poll(S,n) ==
  IF ~S.run THEN Err(S)
  ELSE LET S1 == [S EXCEPT !.depth = @+1]
           S2 == IF S1.depth = 0 THEN Flush(S1) ELSE S1
           S3 == Loop(S2,n,0)
       IN [S3 EXCEPT !.depth = @-1]
\* n < 0: until nothing calls for a poll; else at most n+1 rounds
Loop(S,n,k) ==
  IF ~S.repoll \/ (n >= 0 /\ k > n) THEN S
  ELSE LET S1 == [S EXCEPT !.tick = @+1, !.repoll = FALSE]
           on == On(S1)
           pri == [j \in DOMAIN on |-> PollPri(S1,on[j])]
           C == {j \in DOMAIN on : pri[j] >= 0}
           best == CHOOSE j \in C : \A i \in C : pri[j] > pri[i] \/ (pri[j] = pri[i] /\ j >= i)
           S2 == [S1 EXCEPT !.repoll = Cardinality(C) > 1]
       IN IF C = {} THEN S2
          ELSE LET X == DoPoll(S2,on[best])
               IN Loop(IF X.exc THEN [(IF X.wp[on[best]].att = "on" THEN Detach([X EXCEPT !.exc = FALSE],on[best],TRUE) ELSE X) EXCEPT !.exc = FALSE]
                       ELSE Up(X),n,k+1)
Need(S,w) == Ret(S,IF S.wp[w].need THEN 1 ELSE 0)
DoPoll(S,w) ==
  LET tick == S.tick
      auto == S.wp[w].auto
      S0 == [S EXCEPT !.wp[w].need = FALSE]
      e == S0.wp[w].q[1]
      msg == e.msg
      ev == msg.k # "m"
      flags == IF msg.k = "i" THEN S.ist[msg.m] ELSE {}
      id == IF ev THEN SubSeq(msg.id,3,Len(msg.id)) ELSE <<>>
      fl == (IF 0 \in flags THEN 1 ELSE 0)+(IF 1 \in flags THEN 2 ELSE 0)+(IF 2 \in flags THEN 4 ELSE 0)
      S1 == CASE msg.k = "t" -> Callback(Log(S0,"tmo",w,0,id),w,1000+id[Len(id)],NoMsg)
              [] msg.k = "i" -> IF flags = {} THEN Ret(S0,ACCEPT) ELSE Callback(Log(S0,"inp",w,0,<<id[1],fl>>),w,2000+id[1],NoMsg)
              [] msg.k = "s" -> Callback(Log(S0,"sig",w,id[1]-9000,<<>>),w,3000+id[1]-9000,NoMsg)
              [] msg.k = "m" -> Callback(Log([S0 EXCEPT !.wp[w].rl = TRUE],"rcv",w,msg.uid,<<msg.pri,msg.st>> \o msg.from \o msg.to \o msg.id \o msg.pay),
                                         w,msg.uid,[valid |-> TRUE, msg |-> msg])
      thrown == S1.ret = THROW
  IN IF thrown /\ ~auto THEN Err(S1)
     ELSE
     LET res == IF thrown THEN ACCEPT ELSE S1.ret
         S2 == IF ev /\ res = CANCEL
               THEN CASE msg.k = "t" -> RemoveTimeout(S1,w,id)
                      [] msg.k = "i" -> RemoveInput(S1,w,id[1],flags)
                      [] msg.k = "s" -> RemoveSignal(S1,w,id[1]-9000)
               ELSE S1
         r == IF ev THEN ACCEPT ELSE res
         S3 == IF ev THEN S2 ELSE [S2 EXCEPT !.wp[w].rl = FALSE]
         S4 == IF r \in {ACCEPT,REQUEUE} THEN [S3 EXCEPT !.wp[w].q = RemoveFirst(@,msg.m)] ELSE S3
     IN CASE r = ACCEPT ->
               IF S4.wp[w].q = <<>> THEN Need(S4,w)
               ELSE [S4 EXCEPT !.wp[w].q[1].tick = tick, !.wp[w].need = TRUE, !.ret = 1]
          [] r = REQUEUE ->
               LET S5 == EnqAt(S4,w,msg,tick,TRUE)
                   S6 == [S5 EXCEPT !.wp[w].q[1].tick = tick]
               IN IF S6.wp[w].q[1].msg.m # msg.m THEN [S6 EXCEPT !.wp[w].need = TRUE, !.ret = 1] ELSE Need(S6,w)
          [] OTHER -> Need(S4,w)
=============================================================================
