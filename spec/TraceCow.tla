-------------------------------- MODULE TraceCow --------------------------------
(* Judges the recorded behaviour of the real counted references. *)
EXTENDS Cow, Json, IOUtils
ASSUME TLCSet(1,ndJsonDeserialize(IOEnv.TRACE))
T == TLCGet(1)
Rng(q) == {q[k] : k \in DOMAIN q}
VARIABLES i, S, skip

Op(ev,leak) ==
  LET r == IF "r" \in DOMAIN ev THEN ev.r+1 ELSE 1
      q == IF "q" \in DOMAIN ev THEN ev.q+1 ELSE 1
      f == IF "f" \in DOMAIN ev THEN Rng(ev.f) ELSE {}
      X == [S EXCEPT !.leak = leak]
  IN CASE ev.op = "tnew" -> New(X,r,ev.v,f)
       [] ev.op = "text" -> Attach(X,r,ev.k+1,f)
       [] ev.op = "tcext" -> IF "W" \in f THEN Exc(X) ELSE Attach(X,r,ev.k+1,f \cup {"R"})
       [] ev.op = "tatt" -> IF X.R[q].t = 0 THEN Exc(X) ELSE Attach(X,r,X.R[q].t,f)
       [] ev.op = "tcopy" -> Copy(X,r,q,f,ev.d)
       [] ev.op = "txfer" -> Xfer(X,r,q,f,ev.d)
       [] ev.op = "tassign" -> Copy(X,r,q,{},0)
       [] ev.op = "tdet" -> DetachReg(X,r)
       [] ev.op = "tw" -> Write(X,r,ev.v)
       [] ev.op = "tlock" -> Lock(X,r,TRUE)
       [] ev.op = "tunlock" -> Lock(X,r,FALSE)
       [] ev.op = "tchg" -> Change(X,r,f)
       [] ev.op = "tpriv" -> Priv(X,r,f,ev.d)
       [] ev.op = "tsetc" -> IF ev.obs.skip THEN Ok(X) ELSE SetChild(X,r,q,f)
       [] ev.op = "tclrc" -> ClearChild(X,r)
       [] ev.op = "tgetc" -> GetChild(X,r,q)
       [] ev.op = "twc" -> WriteChild(X,r,ev.v)

RegOk(X,o,k) ==
  LET r == X.R[k] IN
  o.ok = (r.t # 0)
  /\ (o.ok => /\ o.id = r.t /\ o.lk = r.lk /\ o.w = Direct(X,r) /\ o.only = Only(X,r)
              /\ o.anon = X.O[r.t].anon /\ o.ch = Chain(X,r.t,6))
Judge(ev,a) ==
  LET o == ev.obs
      X == a.S
  IN (IF o.err # a.err THEN {<<"err",a.err>>} ELSE {})
     \cup UNION {IF RegOk(X,o.regs[k],k) THEN {} ELSE {<<"register",k-1,X.R[k],Chain(X,X.R[k].t,6)>>} : k \in DOMAIN X.R}
     \cup (IF Rng(o.live) # DOMAIN X.O THEN {<<"live",DOMAIN X.O>>} ELSE {})
     \cup (IF \E k \in 1..3 : o.ext[k] # X.O[k].val THEN {<<"external objects">>} ELSE {})

Init == i = 1 /\ S = Start(1,{},FALSE) /\ skip = TRUE
Next ==
  /\ i <= Len(T)
  /\ i' = i+1
  /\ LET ev == T[i] IN
     IF ev.e = "reset" THEN S' = Start(4,{1,2,3},FALSE) /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<S,skip>>
     ELSE LET a0 == Op(ev,FALSE)
              b0 == Judge(ev,a0)
              \* a listed finding: the target a sole reference gives up is never deleted
              a1 == Op(ev,TRUE)
              leaks == b0 # {} /\ a1.S.lost # S.lost /\ Judge(ev,a1) = {}
              a == IF leaks THEN a1 ELSE a0
              b == IF leaks THEN {} ELSE b0
          IN /\ S' = a.S
             /\ skip' = (b # {})
             /\ (leaks => PrintT(<<"FINDING",ev.s,"privatize-of-a-sole-reference">>))
             /\ (b # {} => PrintT(<<"MISMATCH",ev.s,i,b>>))
Spec == Init /\ [][Next]_<<i,S,skip>>
Consumed == TLCGet("stats").diameter = Len(T)+1
=============================================================================
