-------------------------------- MODULE TraceDmi --------------------------------
(* Judges recorded histories of the real containers, blocks and files. *)
EXTENDS Dmi, Json, IOUtils
ASSUME TLCSet(1,ndJsonDeserialize(IOEnv.TRACE))
T == TLCGet(1)
Rng(q) == {q[k] : k \in DOMAIN q}
VARIABLES i, S, skip

RECURSIVE Norm(_)
Norm(v) == CASE v.k = "rec" -> [k |-> "rec", f |-> [n \in {v.f[j][1] : j \in DOMAIN v.f} |-> Norm((CHOOSE e \in Rng(v.f) : e[1] = n)[2])],
                                p |-> Rng(v.p)]
             [] v.k = "list" -> [k |-> "list", l |-> [j \in DOMAIN v.l |-> Norm(v.l[j])]]
             [] v.k = "ovec" -> [k |-> "ovec", o |-> [j \in DOMAIN v.o |-> Norm(v.o[j])]]
             [] OTHER -> v
\* the dump says so where an object contradicts itself
RECURSIVE Sane(_)
Sane(v) == CASE v.k = "rec" -> "badsize" \notin DOMAIN v /\ \A j \in DOMAIN v.f : Sane(v.f[j][2])
             [] v.k = "list" -> \A j \in DOMAIN v.l : Sane(v.l[j])
             [] v.k = "ovec" -> \A j \in DOMAIN v.o : Sane(v.o[j])
             [] OTHER -> "badshape" \notin DOMAIN v
Op(ev) ==
  LET r == IF "r" \in DOMAIN ev THEN ev.r+1 ELSE 1
      q == IF "q" \in DOMAIN ev THEN ev.q+1 ELSE 1
      b == IF "b" \in DOMAIN ev THEN ev.b+1 ELSE 1
  IN CASE ev.op = "cnew" -> Ok(SetR(S,r,Norm(ev.v)))
       [] ev.op \in {"ccp","cdeep"} -> Ok(SetR(S,r,S.R[q]))
       [] ev.op = "cpriv" -> IF S.R[r].k = "nil" THEN Exc(S) ELSE Ok(S)
       [] ev.op = "cmv" -> IF r = q THEN Ok(S) ELSE Ok(SetR(SetR(S,r,S.R[q]),q,Nil))
       [] ev.op = "cdet" -> Ok(SetR(S,r,Nil))
       [] ev.op = "cset" -> SetScalar(S,r,ev.p,ev.t,ev.x,FALSE)
       [] ev.op = "csetr" -> SetScalar(S,r,ev.p,ev.t,ev.x,TRUE)
       [] ev.op \in {"cget","cgetnc"} -> GetScalar(S,r,ev.p,ev.t)
       [] ev.op = "cput" -> PutAt(S,r,ev.p,q,FALSE,ev.xf)
       [] ev.op = "cputr" -> PutAt(S,r,ev.p,q,TRUE,ev.xf)
       [] ev.op \in {"ctake","ctakenc"} -> TakeAt(S,r,q,ev.p)
       [] ev.op = "crem" -> RemoveAt(S,r,q,ev.p)
       [] ev.op = "cexists" -> Exists(S,r,ev.p)
       [] ev.op = "csize" -> Size(S,r,ev.p)
       [] ev.op = "radd" -> RAdd(S,r,ev.n,q,ev.repl,ev.prot,ev.xf)
       [] ev.op = "rdel" -> RDel(S,r,q,ev.n,ev.ign)
       [] ev.op = "rprot" -> RProt(S,r,ev.n,ev.on)
       [] ev.op = "rmerge" -> RMerge(S,r,q,ev.over)
       [] ev.op = "rhas" -> RHas(S,r,ev.n)
       [] ev.op = "rget" -> RGet(S,r,q,ev.n,ev.ign)
       [] ev.op = "rclear" -> RClear(S,r)
       [] ev.op = "rnth" -> IF ~Is(S,r,"rec") THEN Exc(S) ELSE Ret(S,DOMAIN S.R[r].f)
       [] ev.op = "lput" -> LPut(S,r,ev.n,q)
       [] ev.op = "lfront" -> LPut(S,r,0,q)
       [] ev.op = "lback" -> LPut(S,r,-1,q)
       [] ev.op = "lrep" -> LRep(S,r,ev.n,q)
       [] ev.op = "lrem" -> LRem(S,r,q,ev.n)
       [] ev.op = "lget" -> LGet(S,r,q,ev.n)
       [] ev.op = "lapp" -> LApp(S,r,q)
       [] ev.op = "vsize" -> VSize(S,r,ev.n)
       [] ev.op = "vput" -> VPut(S,r,ev.n,q)
       [] ev.op = "aslice" -> Slice(S,r,ev.ax)
       [] ev.op = "afill" -> Fill(S,r,ev.ax,ev.x)
       [] ev.op = "bto" -> BTo(S,b,r,FALSE)
       [] ev.op = "bapp" -> BTo(S,b,r,TRUE)
       [] ev.op = "bcp" -> BCopy(S,b)
       [] ev.op = "bpush" -> BPush(S,b)
       [] ev.op = "bpriv" -> Ok(S)
       [] ev.op = "bfrom" -> BFrom(S,r,b)
       [] ev.op = "rt" -> RoundTrip(S,r,q)
       [] ev.op = "fopen" -> FOpen(S,ev.m)
       [] ev.op = "fclose" -> FClose(S)
       [] ev.op = "fwrite" -> FWrite(S,r)
       [] ev.op = "fread" -> FRead(S,r)
       [] ev.op = "fnext" -> FNext(S)
       [] ev.op = "frewind" -> FRewind(S)
       [] ev.op = "fmark" -> FMark(S,ev.k)
       [] ev.op = "fseek" -> FSeek(S,ev.k)
       [] ev.op = "cdump" -> Ok(S)
       \* a file cut short: what is read back is what was written, as far as it goes
       [] ev.op = "fcut" -> IF ~S.F.exists THEN Exc(S) ELSE Ok([S EXCEPT !.F.cut = TRUE])

Seen(o) == [k \in DOMAIN o.regs |-> Norm(o.regs[k])]
Answer(ev,o) == IF ev.op = "rnth" THEN Rng(o.x) ELSE IF ev.op = "aslice" THEN [sh |-> o.sh, v |-> o.v] ELSE o.x
Reads == {"cget","cgetnc","cexists","csize","rhas","rnth","aslice","fread","fnext"}
Cut(ev) == S.F.cut /\ ev.op \in {"fread","fnext"}
\* reading a cut file: the object, the end, or an error
CutOk(ev,a,o) ==
  IF o.err = "exc" \/ o.x = FALSE THEN "regs" \in DOMAIN o => Seen(o) = S.R
  ELSE /\ a.err = "" /\ a.x = o.x
       /\ ("regs" \in DOMAIN o => Seen(o) = a.S.R)
Judge(ev,a) ==
  LET o == ev.obs
  IN (IF a.err # "any" /\ o.err # a.err THEN {<<"err",a.err>>} ELSE {})
     \cup (IF a.err = "" /\ o.err = "" /\ ev.op \in Reads /\ Answer(ev,o) # a.x THEN {<<"read",a.x>>} ELSE {})
     \cup (IF "regs" \notin DOMAIN o THEN {}
           ELSE UNION {IF k \in a.free \/ Norm(o.regs[k]) = a.S.R[k] THEN {} ELSE {<<"register",k-1,a.S.R[k]>>} : k \in DOMAIN a.S.R}
                \cup (IF \A k \in DOMAIN o.regs : Sane(o.regs[k]) THEN {} ELSE {<<"contradictory object">>}))
     \cup (IF "tid" \in DOMAIN o /\ ~o.tid THEN {<<"type read">>} ELSE {})
     \cup (IF "dumperr" \in DOMAIN o THEN {<<"unreadable object">>} ELSE {})
Init == i = 1 /\ S = Start /\ skip = TRUE
Next ==
  /\ i <= Len(T)
  /\ i' = i+1
  /\ LET ev == T[i] IN
     IF ev.e = "reset" THEN S' = Start /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<S,skip>>
     ELSE LET a == Op(ev)
              o == ev.obs
              b == IF Cut(ev) THEN IF CutOk(ev,a,o) THEN {} ELSE {<<"cut file",a.x,a.S.R>>} ELSE Judge(ev,a)
              blind == a.free # {} /\ "regs" \notin DOMAIN o
          IN /\ S' = IF Cut(ev) /\ (o.err = "exc" \/ o.x = FALSE) THEN [S EXCEPT !.F.pos = 1000]
                     ELSE IF a.free # {} /\ ~blind THEN [a.S EXCEPT !.R = [k \in DOMAIN a.S.R |-> IF k \in a.free THEN Seen(o)[k] ELSE @[k]]]
                     ELSE a.S
             /\ skip' = (b # {} \/ blind)
             /\ (b # {} => PrintT(<<"MISMATCH",ev.s,i,b>>))
Spec == Init /\ [][Next]_<<i,S,skip>>
Consumed == TLCGet("stats").diameter = Len(T)+1
=============================================================================
