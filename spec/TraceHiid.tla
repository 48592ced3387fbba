------------------------------- MODULE TraceHiid -------------------------------
(* Judges the recorded behaviour of the real identifiers (harness/h_dmi.cc). *)
EXTENDS Hiid, Json, IOUtils
ASSUME TLCSet(1,ndJsonDeserialize(IOEnv.TRACE))
T == TLCGet(1)
Rng(q) == {q[k] : k \in DOMAIN q}
VARIABLES i, R, skip

Op(ev) ==  \* [R: registers afterwards, x: extra answer or "", err]
  LET r == IF "r" \in DOMAIN ev THEN ev.r+1 ELSE 1
      q == IF "q" \in DOMAIN ev THEN ev.q+1 ELSE 1
      p == IF "p" \in DOMAIN ev THEN ev.p+1 ELSE 1
      Set(k,v) == [R EXCEPT ![k] = v]
      Ok(S) == [R |-> S, x |-> <<>>, err |-> ""]
  IN CASE ev.op = "hset" -> Ok(Set(r,ev.v))
       [] ev.op = "hcp" -> Ok(Set(r,R[q]))
       [] ev.op = "hadd" -> Ok(Set(r,R[r] \o R[q]))
       [] ev.op = "hor" -> Ok(Set(r,R[q] \o R[p]))
       [] ev.op = "hadd1" -> Ok(Set(r,Append(R[r],ev.a)))
       [] ev.op = "hpushf" -> Ok(Set(r,PushFront(R[r],ev.a,ev.n)))
       [] ev.op = "hpopf" -> Ok(Set(r,PopFront(R[r],Min2(ev.n,Len(R[r])))))
       [] ev.op = "hsub" -> Ok(Set(r,IF R[q] = <<>> THEN <<>> ELSE SubId(R[q],ev.obs.sa,ev.obs.sb)))
       [] ev.op = "hsplit" -> LET s == Split(R[q]) IN Ok([R EXCEPT ![q] = s.rest, ![r] = s.sub])
       [] ev.op = "hlead" -> IF R[r] # <<>> /\ R[r][1] >= 0 THEN [R |-> Set(r,Tail(R[r])), x |-> <<R[r][1]>>, err |-> ""]
                             ELSE [R |-> R, x |-> <<0>>, err |-> ""]
       [] ev.op = "htrail" -> LET n == Len(R[r]) IN
                              IF n > 0 /\ R[r][n] >= 0 THEN [R |-> Set(r,SubSeq(R[r],1,n-1)), x |-> <<R[r][n]>>, err |-> ""]
                              ELSE [R |-> R, x |-> <<0>>, err |-> ""]
       [] ev.op = "hslash" -> LET n == LeadSlashes(R[r]) IN [R |-> Set(r,PopFront(R[r],n)), x |-> <<n>>, err |-> ""]
       [] ev.op = "hfind" -> [R |-> R, x |-> <<FirstSlash(R[r])>>, err |-> ""]
       [] ev.op = "hparse" -> Ok(Set(r,Parse(ev.v)))
       [] ev.op = "hpack" -> [R |-> Set(r,R[q]), x |-> <<Size(R[q])*40>>, err |-> ""]
       [] ev.op = "hrange" -> Ok(Set(r,R[q]))
       [] ev.op = "hstr" -> IF R[q] = <<>> THEN [R |-> R, x |-> <<>>, err |-> "exc"]
                            ELSE IF \E k \in DOMAIN R[q] : R[q][k] = EMPTYA THEN Ok(Set(r,ev.obs.regs[r]))   \* no faithful text form
                            ELSE Ok(Set(r,Parse(Pieces(R[q]))))

Judge(ev,a) ==
  LET o == ev.obs IN
  (IF o.err # a.err THEN {<<"err",a.err>>} ELSE {})
  \cup (IF o.regs # a.R THEN {<<"regs",a.R>>} ELSE {})
  \cup (IF a.x # <<>> /\ o.x # a.x[1] THEN {<<"answer",a.x>>} ELSE {})
  \cup (IF ev.op = "hstr" /\ a.err = "" /\ o.str # Text(R[ev.q+1],ev.dot,ev.names) THEN {<<"text",Text(R[ev.q+1],ev.dot,ev.names)>>} ELSE {})
  \cup (IF o.eq # (a.R[1] = a.R[2]) \/ o.ne = o.eq THEN {<<"equality">>} ELSE {})
  \cup (IF (o.lt /\ o.gt) \/ (o.eq = (o.lt \/ o.gt)) THEN {<<"order">>} ELSE {})

JudgeMat(ev) ==
  LET ids == ev.ids  n == Len(ids)  o == ev.obs
      WW == Words(Rng(ev.letters),ev.maxlen+1)
      M == [k \in 1..n |-> Meaning(ids[k],WW)]
      MP == [k \in 1..n |-> Meaning(Append(ids[k],WILD),WW)]
      one(a) == CHOOSE k \in 1..n : ids[k] = <<a>>
      One == [a \in UNION {Rng(ids[k]) : k \in 1..n} |-> one(a)]
      Lt(x,y) == \E k \in {Rng(o.lt[x])} : y \in k
      Diff(a,b) == {k \in 1..Min2(Len(a),Len(b)) : a[k] # b[k]}
      First(S) == CHOOSE k \in S : \A j \in S : k <= j
      LtSets == [k \in 1..n |-> Rng(o.lt[k])]
      Less(x,y) == LET D == Diff(ids[x],ids[y])
                   IN IF D = {} THEN Len(ids[x]) < Len(ids[y])
                      ELSE One[ids[y][First(D)]] \in LtSets[One[ids[x][First(D)]]]
      bad(x) == (IF Rng(o.m[x]) # {y \in 1..n : M[x] \cap M[y] # {}} THEN {<<"matches",x,ids[x]>>} ELSE {})
                \cup (IF Rng(o.sub[x]) # {y \in 1..n : M[x] \subseteq M[y]} THEN {<<"subset",x,ids[x]>>} ELSE {})
                \cup (IF Rng(o.pre[x]) # {y \in 1..n : M[x] \cap MP[y] # {}} THEN {<<"prefix",x,ids[x]>>} ELSE {})
                \cup (IF Rng(o.eq[x]) # {y \in 1..n : ids[x] = ids[y]} THEN {<<"equal",x,ids[x]>>} ELSE {})
                \cup (IF LtSets[x] # {y \in 1..n : Less(x,y)} THEN {<<"less",x,ids[x]>>} ELSE {})
                \cup (IF x \in LtSets[x] THEN {<<"irreflexive",x>>} ELSE {})
      S1 == {k \in 1..n : Len(ids[k]) = 1}
      order == IF \A x, y \in S1 : x = y \/ ((y \in LtSets[x]) # (x \in LtSets[y])) THEN {} ELSE {<<"order of atoms">>}
      trans == IF \A x, y, z \in S1 : y \in LtSets[x] /\ z \in LtSets[y] => z \in LtSets[x] THEN {} ELSE {<<"transitivity">>}
  IN UNION {bad(x) : x \in 1..n} \cup order \cup trans

Init == i = 1 /\ R = <<>> /\ skip = TRUE
Next ==
  /\ i <= Len(T)
  /\ i' = i+1
  /\ LET ev == T[i] IN
     IF ev.e = "reset" THEN R' = [k \in 1..6 |-> <<>>] /\ skip' = FALSE
     ELSE IF ev.e = "mat" THEN
        LET b == JudgeMat(ev) IN UNCHANGED R /\ skip' = TRUE /\ (b # {} => PrintT(<<"MISMATCH",ev.s,i,b>>))
     ELSE IF skip THEN UNCHANGED <<R,skip>>
     ELSE LET a == Op(ev)
              b == Judge(ev,a)
          IN /\ R' = a.R
             /\ skip' = (b # {})
             /\ b # {} => PrintT(<<"MISMATCH",ev.s,i,b>>)
Spec == Init /\ [][Next]_<<i,R,skip>>
Consumed == TLCGet("stats").diameter = Len(T)+1
=============================================================================
