------------------------------ MODULE MCOctopussy ------------------------------
(* Every history of a few work processes exchanging a few messages: each message may be
   held, put back, refused with an exception, answered, or have the queue emptied under
   it, and polls may be full, partial or nested. *)
EXTENDS Octopussy
CONSTANTS NWP, NMSG, PRIS, RESULTS, ACTS, POLLS, BCAST, EVENTS
VARIABLES S, n, seen, done, last
vars == <<S,n,seen,done,last>>
Wps == 1..NWP
Base == DspStart([NewSys(NWP) EXCEPT !.wp = [w \in Wps |-> [NewWp(-9-w,w = 1,<<>>) EXCEPT !.inst = 0, !.att = "on"]]])
\* what work process w does with its n-th message, when it first gets it
Plans == {<<[res |-> r, acts |-> a]>> : r \in RESULTS, a \in
            (IF "none" \in ACTS THEN {<<>>} ELSE {})
            \cup (IF "empty" \in ACTS THEN {<<[op |-> "dqi", id |-> <<-2>>, want |-> FALSE]>>} ELSE {})
            \cup (IF "poll" \in ACTS THEN {<<[op |-> "pol", n |-> -1]>>} ELSE {})
            \cup (IF "send" \in ACTS THEN {<<[op |-> "snd", id |-> <<-13,99>>, pri |-> 1, to |-> <<-10,0,5,6>>]>>} ELSE {})
            \cup (IF "gone" \in ACTS THEN {<<[op |-> "det", s |-> 1, delay |-> TRUE]>>} ELSE {})}
Rcvd(X) == {<<X.log[k].w+1,X.log[k].n>> : k \in {j \in DOMAIN X.log : X.log[j].k = "rcv"}}
Times(X,p) == Cardinality({j \in DOMAIN X.log : X.log[j].k = "rcv" /\ X.log[j].w+1 = p[1] /\ X.log[j].n = p[2]})
Queued(X,w) == {X.wp[w].q[k].msg.uid : k \in DOMAIN X.wp[w].q}
Step(X,l) ==
  /\ S' = [X EXCEPT !.log = <<>>, !.exc = FALSE]
  /\ seen' = seen \cup Rcvd(X)
  /\ done' = {p \in seen \cup Rcvd(X) : p[2] \notin Queued(X,p[1])}
  /\ last' = l @@ [log |-> X.log, exc |-> X.exc]
Init == S = Base /\ seen = {} /\ done = {} /\ n = 0 /\ last = [op |-> "none"]
Send(w,to,pri,plans,uid) ==
  Step(SendTo([S EXCEPT !.plan = [p \in {<<t,uid>> : t \in Wps} |-> plans[p[1]]] @@ @, !.ret = 0],w,Msg(<<-13,uid>>,pri),to),[op |-> "send"])
Next ==
  \/ \E w \in {1}, pri \in PRIS : LET uid == n+1 IN
       /\ n < NMSG /\ n' = uid
       /\ \/ \E t \in Wps, p \in Plans : Send(w,Addr(S,t),pri,[u \in Wps |-> IF u = t THEN p ELSE <<>>],uid)
          \/ BCAST /\ \E p \in [Wps -> Plans] : Send(w,<<-1,-1,5,6>>,pri,p,uid)
  \/ UNCHANGED n /\ S.repoll /\ \E k \in POLLS : LET m == IF k = 99 THEN -1 ELSE k IN Step(Poll(S,m),[op |-> "poll", n |-> m])
  \/ EVENTS /\ UNCHANGED n /\ S.now < 3 /\ Step(CheckEvents(S,1,{<<20,0>>},<<>>),[op |-> "ev"])
  \/ EVENTS /\ UNCHANGED n /\ S.tm # <<>> /\ Step(RemoveTimeout(S,1,<<1>>),[op |-> "rto"])
  \/ EVENTS /\ UNCHANGED n /\ S.inp # <<>> /\ Step(RemoveInput(S,1,20,{0}),[op |-> "rin"])
  \/ EVENTS /\ n < NMSG /\ n' = n+1 /\
       \/ S.tm = <<>> /\ \E one \in {0,1}, per \in {1,2} : Step(AddTimeout(S,1,<<1>>,per,one,EVPRI),[op |-> "tmo"])
       \/ S.inp = <<>> /\ \E one \in BOOLEAN : Step(AddInput(S,1,20,{0},one,EVPRI),[op |-> "inp"])
Spec == Init /\ [][Next]_vars

\* ---- what users rely on ----
\* queues are in order of priority
SortedQ == \A w \in Wps : \A k \in 1..Len(S.wp[w].q)-1 : S.wp[w].q[k].pri >= S.wp[w].q[k+1].pri
\* and of arrival, within a priority, unless something was put back
Fifo == (REQUEUE \in RESULTS) \/ \A w \in Wps : \A k \in 1..Len(S.wp[w].q)-1 :
          LET a == S.wp[w].q[k] b == S.wp[w].q[k+1] IN a.pri = b.pri => a.msg.m <= b.msg.m
\* a dispatcher that rests has nothing left to deliver, but what was held and what is behind that
Rest == S.repoll \/ \A w \in Wps : S.wp[w].att = "on" /\ S.wp[w].q # <<>> =>
          /\ ~S.wp[w].need
          /\ <<w,S.wp[w].q[1].msg.uid>> \in seen
\* what was accepted is gone for good
Once == [][\A p \in done : p[2] # 99 /\ p[2] # -2 => Times([log |-> IF "log" \in DOMAIN last' THEN last'.log ELSE <<>>],p) = 0]_vars
OnceQ == \A p \in done : p[2] # 99 /\ p[2] # -2 => p[2] \notin Queued(S,p[1])
\* nobody is kept waiting for longer than the others' priority is higher
Patient == \A w \in Wps : PollPri(S,w) >= 0 => S.tick-S.wp[w].q[1].tick <= (CHOOSE p \in PRIS : \A q \in PRIS : p >= q)-S.wp[w].q[1].pri+NWP+1
\* a full poll comes to rest
Full == [][last'.op = "poll" /\ last'.n < 0 => ~S'.repoll]_vars
\* no failure of a work process gets out of the dispatcher
Contained == last.op = "poll" => ~last.exc
\* events of a work process that is gone, or that were removed, are not delivered
NoGhosts == \A k \in DOMAIN S.tm : S.wp[S.tm[k].w].att = "on"
\* timers: never early; once if one-shot
OnTime == \A k \in DOMAIN S.tm : S.tm[k].next > S.now
=============================================================================
