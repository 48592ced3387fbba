-------------------------------- MODULE TraceOcto --------------------------------
(* Judges recorded runs of the real dispatcher: every callback, in order, every returned
   value, and what is left in the queues after each command. *)
EXTENDS Octopussy, Json, IOUtils
ASSUME TLCSet(1,ndJsonDeserialize(IOEnv.TRACE))
T == TLCGet(1)
VARIABLES i, S, skip

RECURSIVE WithWps(_,_), WithPlans(_,_)
WithWps(X,q) == IF q = <<>> THEN X ELSE WithWps([X EXCEPT !.wp[q[1].s] = NewWp(q[1].cls,q[1].auto,q[1].gw)],Tail(q))
WithPlans(X,q) ==
  IF q = <<>> THEN X
  ELSE LET k == <<q[1].s,q[1].u>>
           old == IF k \in DOMAIN X.plan THEN X.plan[k] ELSE <<>>
       IN WithPlans([X EXCEPT !.plan = (k :> Append(old,[res |-> q[1].res, acts |-> q[1].acts])) @@ @],Tail(q))
Fresh(ev) == WithPlans(WithWps(NewSys(8),ev.wps),ev.plans)

Cmd(X0,ev) ==
  LET X == [X0 EXCEPT !.log = <<>>, !.exc = FALSE] IN
  CASE ev.op = "attach" -> Attach(X,ev.w)
    [] ev.op = "start" -> DspStart(X)
    [] ev.op = "stop" -> DspStop(X)
    [] ev.op = "do" -> Acts(X,ev.w,ev.acts)
    [] ev.op = "poll" -> Poll(X,ev.n)
    [] ev.op = "ev" -> CheckEvents(X,ev.dt,{<<r[1],b>> : r \in Set(ev.ready), b \in 0..2} \cap
                                          UNION {{<<r[1],b>> : b \in Set(r[2])} : r \in Set(ev.ready)},ev.sigs)
RECURSIVE FlatQ(_)
FlatQ(q) == IF q = <<>> THEN <<>> ELSE <<q[1].msg.uid,q[1].pri>> \o FlatQ(Tail(q))
LogDiff(a,b) ==
  IF a = b THEN {}
  ELSE LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
           D == {k \in 1..n : a[k] # b[k]}
           k == IF D = {} THEN n+1 ELSE First(D)
       IN {<<"log",k,"expected",IF k <= Len(a) THEN a[k] ELSE "nothing","got",IF k <= Len(b) THEN b[k] ELSE "nothing">>}
Judge(X,ev) ==
  LET o == ev.obs IN
  (IF o.err # X.exc THEN {<<"err",X.exc>>} ELSE {})
  \cup LogDiff(X.log,o.log)
  \cup UNION {LET w == o.wps[k] IN
              (IF w.on # Attached(X,k) THEN {<<"attached",k-1,X.wp[k].att>>} ELSE {})
              \cup (IF w.on /\ w.q # FlatQ(X.wp[k].q) THEN {<<"queue",k-1,FlatQ(X.wp[k].q)>>} ELSE {}) : k \in DOMAIN o.wps}

Init == i = 1 /\ S = NewSys(1) /\ skip = TRUE
Next ==
  /\ i <= Len(T)
  /\ i' = i+1
  /\ LET ev == T[i] IN
     IF ev.e = "reset" THEN S' = Fresh(ev) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<S,skip>>
     ELSE LET X == Cmd(S,ev)
              b == Judge(X,ev)
          IN /\ S' = [X EXCEPT !.log = <<>>]
             /\ skip' = (b # {})
             /\ (b # {} => PrintT(<<"MISMATCH",ev.s,i,b>>))
Spec == Init /\ [][Next]_<<i,S,skip>>
Consumed == TLCGet("stats").diameter = Len(T)+1
=============================================================================
