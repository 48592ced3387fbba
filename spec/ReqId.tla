---------------------------------- MODULE ReqId ----------------------------------
(* Request ids (MEQ/src/RequestId.cc, Forest::incrRequestId): an id is a sequence of numbers, a mask a set of
   positions counted from 0, of which only the first NBITS mean anything. A position beyond the end of an id
   counts as 0. A symbolic dependency stands for a mask; each forest counts how often it has moved each of them. *)
EXTENDS Integers, Sequences, FiniteSets
NBITS == 16
SetMax(s) == IF s = {} THEN -1 ELSE CHOOSE x \in s : \A y \in s : y <= x
At(id,p) == IF p < Len(id) THEN id[p+1] ELSE 0
Eff(m) == {p \in m : p < NBITS}
Max2(a,b) == IF a > b THEN a ELSE b
(* where two ids differ *)
Diff(a,b) == {p \in 0..(Max2(Len(a),Len(b))-1) : p < NBITS /\ At(a,p) # At(b,p)}
(* do two ids agree on the positions of a mask? *)
Same(a,b,m) == m = {} \/ (a # <<>> /\ b # <<>> /\ Diff(a,b) \cap m = {})
Masked(id,m) == IF m = {} THEN <<0>> ELSE [k \in 1..Len(id) |-> IF k-1 \in m \/ k > NBITS THEN id[k] ELSE 0]
Long(id,m) == [k \in 1..Max2(Len(id),SetMax(m)+1) |-> At(id,k-1)]
Incr(id,m) == [k \in DOMAIN Long(id,m) |-> IF k-1 \in Eff(m) THEN Long(id,m)[k]+1 ELSE Long(id,m)[k]]
Put(id,m,v) == [k \in DOMAIN Long(id,m) |-> IF k-1 \in Eff(m) THEN v ELSE Long(id,m)[k]]

Symdeps == [Iteration |-> {1}, State |-> {2}, Resolution |-> {3}, Domain |-> {4}, Dataset |-> {5}]
NoCounts == [d \in DOMAIN Symdeps |-> 0]
RECURSIVE Bump(_,_,_)
Bump(id,cnt,deps) ==
  IF deps = <<>> THEN [id |-> id, cnt |-> cnt]
  ELSE LET d == Head(deps) IN
       IF d \notin DOMAIN Symdeps THEN Bump(id,cnt,Tail(deps))
       ELSE Bump(Put(id,Symdeps[d],cnt[d]+1),[cnt EXCEPT ![d] = @+1],Tail(deps))
=============================================================================
