------------------------------- MODULE TraceReqId -------------------------------
EXTENDS ReqId, TLC, Json, IOUtils
ASSUME TLCSet(1,ndJsonDeserialize(IOEnv.TRACE))
T == TLCGet(1)
VARIABLES i, cnt, skip
Set(q) == {q[k] : k \in DOMAIN q}
D(t,x,y) == IF x = y THEN {} ELSE {<<t,"expected",x,"got",y>>}
Bad(ev,r) ==
  LET o == ev.obs IN
  IF "exc" \in DOMAIN o THEN {<<"exception",o.exc>>}
  ELSE CASE ev.op = "mask" -> D("id",Masked(ev.a,Set(ev.m)),o.id)
    [] ev.op = "incr" -> D("id",Incr(ev.a,Set(ev.m)),o.id)
    [] ev.op = "set" -> D("id",Put(ev.a,Set(ev.m),ev.v),o.id)
    [] ev.op = "cmp" -> D("same",Same(ev.a,ev.b,Set(ev.m)),o.eq) \cup D("same",Same(ev.b,ev.a,Set(ev.m)),o.eq2)
    [] ev.op = "diff" -> D("diff",Diff(ev.a,ev.b),Set(o.d)) \cup D("diff",Diff(ev.b,ev.a),Set(o.d2))
    [] ev.op = "fincr" -> D("id",r.id,o.id)
    [] ev.op = "fdep" -> UNION {D(d,Symdeps[d],Set(o[d])) : d \in DOMAIN Symdeps}
Init == i = 1 /\ cnt = NoCounts /\ skip = TRUE
Next ==
  /\ i <= Len(T)
  /\ i' = i+1
  /\ LET ev == T[i] IN
     IF ev.e = "reset" THEN cnt' = NoCounts /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<cnt,skip>>
     ELSE LET r == IF ev.op = "fincr" THEN Bump(ev.a,cnt,ev.deps) ELSE [id |-> <<>>, cnt |-> cnt]
              x == Bad(ev,r)
          IN /\ cnt' = r.cnt
             /\ skip' = (x # {})
             /\ (x # {} => PrintT(<<"MISMATCH",ev.s,i,x>>))
Spec == Init /\ [][Next]_<<i,cnt,skip>>
Consumed == TLCGet("stats").diameter = Len(T)+1
=============================================================================
