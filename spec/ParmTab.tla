-------------------------------- MODULE ParmTab --------------------------------
(* The table of parameter solutions (FastParmTable): a list of domains, and a funklet for some of the
   pairs of a parameter's name and a domain.  A domain is a set of <<axis,start,end>>.
   T = [dom : sequence of domains, fk : (<<name,index>> -> [v,ask])],  indices from 0 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
NoTab == [dom |-> <<>>, fk |-> <<>>]
SetOf(q) == {q[k] : k \in DOMAIN q}
Keys(T) == DOMAIN T.fk
Overlap(d,e) == \A x \in d, y \in e : x[1] = y[1] => x[2] < y[3] /\ x[3] > y[2]
Max(s) == CHOOSE x \in s : \A y \in s : y <= x
(* the index of a domain, or -1 *)
IndexOf(T,d) == LET m == {k \in 1..Len(T.dom) : T.dom[k] = d} IN IF m = {} THEN -1 ELSE Max(m)-1
Put(T,n,v,d,ask) ==
  LET i == IndexOf(T,d)
      X == IF i >= 0 THEN T.dom ELSE Append(T.dom,d)
      j == IF i >= 0 THEN i ELSE Len(T.dom)
  IN [T |-> [dom |-> X, fk |-> (<<n,j>> :> [v |-> v, ask |-> ask]) @@ T.fk], id |-> j]
Without(f,S) == [x \in DOMAIN f \ S |-> f[x]]
Has(T,n,i) == <<n,i>> \in Keys(T)
Delete(T,n,i) == [T EXCEPT !.fk = Without(@,{<<n,i>>})]
DeleteAll(T,n) == [T EXCEPT !.fk = Without(@,{k \in Keys(T) : k[1] = n})]
(* the indices at which a search by domain finds something, in order *)
Found(T,n,d) == SelectSeq([k \in 1..Len(T.dom) |-> k-1],LAMBDA i : Has(T,n,i) /\ Overlap(T.dom[i+1],d))
=============================================================================
