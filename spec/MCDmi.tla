--------------------------------- MODULE MCDmi ---------------------------------
(* Every short history over small values: what users of the containers rely on. *)
EXTENDS Dmi
CONSTANTS IO, DEPTH
VARIABLES S, last
vars == <<S,last>>
Regs == {1,2}
SmallVals == { Sc("int","1"), [k |-> "vec", t |-> "double", v |-> <<"0","1.5">>],
               [k |-> "rec", f |-> <<>>, p |-> {}], [k |-> "list", l |-> <<>>],
               [k |-> "rec", f |-> ("a" :> Sc("int","0")), p |-> {}] }
Paths == { <<[n |-> "a"]>>, <<[i |-> 0]>>, <<[n |-> "a"],[n |-> "a"]>>, <<[n |-> "a"],[i |-> 0]>> }
RECURSIVE Depth(_)
Max2(A) == IF A = {} THEN 0 ELSE CHOOSE x \in A : \A y \in A : y <= x
Depth(v) == CASE v.k = "rec" -> 1 + Max2({Depth(v.f[n]) : n \in DOMAIN v.f})
              [] v.k = "list" -> 1 + Max2({Depth(v.l[n]) : n \in DOMAIN v.l}) [] OTHER -> 0
Small(X) == \A r \in Regs : Depth(X.R[r]) <= DEPTH /\ (X.R[r].k = "list" => Len(X.R[r].l) <= 2) /\ (X.R[r].k \in {"sc","vec"} => Len(X.R[r].v) <= 3)
Step(op,rs,a,x) == /\ a.free = {}                       \* within the specified domain
                   /\ Small(a.S) /\ \A b \in 1..2 : Len(a.S.B[b]) <= 1
                   /\ Len(a.S.F.c) <= 2
                   /\ S' = a.S /\ last' = [op |-> op, rs |-> rs, err |-> a.err, x |-> x, was |-> S]
Init == S = Start /\ last = [op |-> "none", rs |-> {}, err |-> "", x |-> <<>>, was |-> Start]
Next ==
  \/ \E r \in Regs, v \in SmallVals : Step("new",{r},Ok(SetR(S,r,v)),<<>>)
  \/ \E r \in Regs : \E q \in Regs \ {r} :
       \/ Step("copy",{r},Ok(SetR(S,r,S.R[q])),<<>>)
       \/ ~IO /\ \E p \in Paths : \/ \E b \in BOOLEAN : Step("put",{r},PutAt(S,r,p,q,b,FALSE),<<p,q>>)
                           \/ Step("take",{r},TakeAt(S,r,q,p),<<p,q>>)
                           \/ Step("remove",{r,q},RemoveAt(S,r,q,p),<<p,q>>)
       \/ ~IO /\ \E over \in BOOLEAN : Step("merge",{r},RMerge(S,r,q,over),<<q,over>>)
       \/ ~IO /\ Step("lput",{r},LPut(S,r,-1,q),<<q>>)
       \/ ~IO /\ Step("lrem",{r,q},LRem(S,r,q,-1),<<q>>)
       \/ IO /\ Step("rt",{r},RoundTrip(S,r,q),<<q>>)
  \/ \E r \in Regs :
       \/ ~IO /\ \E p \in Paths : \E t \in {"int","double"} : Step("set",{r},SetScalar(S,r,p,t,"2.5",FALSE),<<p,t,r>>)
       \/ ~IO /\ S.R[r].k = "rec" /\ Step("protect",{r},RProt(S,r,"a",TRUE),<<>>)
       \/ IO /\ Step("write",{},FWrite(S,r),<<r>>)
       \/ IO /\ Step("read",{r},FRead(S,r),<<r>>)
       \/ IO /\ Step("pack",{},BTo(S,1,r,FALSE),<<r>>)
       \/ IO /\ Step("unpack",{r},BFrom(S,r,1),<<r>>)
  \/ IO /\ \E m \in {"r","w","a"} : Step("open",{},FOpen(S,m),<<m>>)
  \/ IO /\ Step("rewind",{},FRewind(S),<<>>)
View == S
Spec == Init /\ [][Next]_vars

\* an operation changes its own registers only, and nothing when it fails
Isolated == [][\A r \in Regs : r \notin last'.rs \/ last'.err # "" => S'.R[r] = S.R[r]]_vars
\* what is set can be read back (as the type the element has)
ReadBack == [][last'.op = "set" /\ last'.err = "" =>
                 LET g == GetScalar(S',last'.x[3],last'.x[1],last'.x[2]) IN g.err = "" /\ g.x \in {"2.5","2"}]_vars
PutTake == [][last'.op = "put" /\ last'.err = "" =>
                 \A r \in last'.rs : Walk(S'.R[r],last'.x[1]) = S'.R[last'.x[2]]]_vars
\* protected fields do not change
Guarded == [][last'.op \in {"set","put","remove","merge"} =>
                 \A r \in Regs : S.R[r].k = "rec" /\ last'.op # "remove" => \A n \in S.R[r].p : n \in DOMAIN S'.R[r].f /\ S'.R[r].f[n] = S.R[r].f[n]]_vars
\* packing forgets protection only, and repeating it changes nothing
PackOnce == \A r \in Regs : S.R[r].k # "nil" => Packed(Packed(S.R[r])) = Packed(S.R[r])
\* files give back what was written, in order
FileOrder == [][last'.op = "read" /\ last'.err = "" =>
                 IF S.F.pos <= Len(S.F.c) THEN S'.R[last'.x[1]] = S.F.c[S.F.pos] ELSE S'.R = S.R]_vars
=============================================================================
