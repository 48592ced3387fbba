---------------------------- MODULE FuncNodes ----------------------------
(* What function, reduction and tensor nodes make of their children's results, over a grid G. *)
(* A plane: [k|->"fail",f] (f: the failures it tells of), [k|->"empty"], or *)
(* [k|->"val",v,fl,sp,p,pv]: values, flags (per cell <<what must be set,what may be set>>), perturbed parameters, *)
(* perturbations and perturbed values (per parameter, per set). Values that are null everywhere may drop flags. *)
EXTENDS Grid
SetOf(q) == {q[k] : k \in DOMAIN q}
Const(n,x) == [k \in 1..n |-> x]
Empty == [k |-> "empty"]
Failed(f) == [k |-> "fail",f |-> f]
Value(v,fl) == [k |-> "val",v |-> v,fl |-> fl,sp |-> <<>>,p |-> <<>>,pv |-> <<>>]
Result(fail,miss,dims,vs) == [fail |-> fail,miss |-> miss,dims |-> IF Len(vs) = 1 THEN <<>> ELSE dims,vs |-> vs]
Dims1(n) == IF n = 1 THEN <<>> ELSE <<n>>
Plain(vs) == Result(FALSE,FALSE,Dims1(Len(vs)),vs)
Broken == Result(TRUE,FALSE,<<>>,<<Failed({0})>>)
NoFl(n) == Const(n,<<0,0>>)
OrF(a,b) == TLCEval([k \in DOMAIN a |-> <<a[k][1] | b[k][1],a[k][2] | b[k][2]>>])
AndF(a,m) == TLCEval([k \in DOMAIN a |-> <<a[k][1] & m,a[k][2] & m>>])
Maybe(a) == TLCEval([k \in DOMAIN a |-> <<0,a[k][2]>>])
IsNull(pl) == pl.k = "val" /\ pl.sp = <<>> /\ \A k \in DOMAIN pl.v : pl.v[k][3] = 0 \/ (pl.v[k][1] = 0 /\ pl.v[k][2] = 0)
(* ------------------------------------------------------------------ asking the children *)
LeavesFails(n) == n.c = "Composer"
TakesMissing(n) == n.c \in {"Composer","Add","Multiply","Mean","Min","Max"}
Asked(n) == IF n.c \in {"WSum","WMean"} /\ Len(n.w) > 1 THEN {i \in DOMAIN n.ch : n.w[i] # 0} ELSE DOMAIN n.ch
RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Concat(Tail(q))
AllFails(R) == LET q == Concat([i \in DOMAIN R |-> IF R[i].fail THEN SelectSeq(R[i].vs,LAMBDA x : x.k = "fail") ELSE <<>>]) IN Result(TRUE,FALSE,Dims1(Len(q)),q)
(* ------------------------------------------------------------------ functions of planes *)
Reds == {"Sum","Product","NElements","Mean","Min","Max","Rms","StdDev"}
OpOf == [Sum |-> "sum",Product |-> "product",NElements |-> "nelements",Mean |-> "mean",Min |-> "min",Max |-> "max",Rms |-> "rms",StdDev |-> "stddev"]
IsRed(n) == n.c \in Reds /\ Len(n.ch) = 1
(* cells that agree with cell c along the axes that are not reduced *)
Line(C,c,axes) == IF axes = <<>> THEN DOMAIN C ELSE {k \in DOMAIN C : \A a \in DOMAIN C[k] : (a-1) \in SetOf(axes) \/ C[k][a] = C[c][a]}
Unsure(fl,m,S) == \E k \in S : (fl[k][1] & m = 0) # (fl[k][2] & m = 0)
ReduceV(n,v,fl,G) ==
  LET C == Cells(G) m == n.fm[1] op == OpOf[n.c]
      one(S) == IF Unsure(fl,m,S) THEN NA ELSE Reduce(op,Pick(v,{k \in S : fl[k][1] & m = 0}))
  IN IF n.axes = <<>> THEN LET x == one(DOMAIN v) IN TLCEval([k \in DOMAIN v |-> x]) ELSE TLCEval([k \in DOMAIN v |-> one(Line(C,k,n.axes))])
ReduceF(n,fl,G) ==
  LET C == Cells(G) m == n.fm[1] IN
  TLCEval([k \in DOMAIN fl |-> LET S == Line(C,k,n.axes) IN <<IF m # 0 /\ \A j \in S : fl[j][1] & m # 0 THEN m ELSE 0,IF m # 0 /\ \A j \in S : fl[j][2] & m # 0 THEN m ELSE 0>>])
(* weights, as values *)
Weight(n,i) == LET s == FoldE(AddE,Num(0),[j \in DOMAIN n.w |-> Num(n.w[j])],1) IN
  IF n.c = "WSum" THEN Num(IF Len(n.w) = 1 THEN n.w[1] ELSE n.w[i])
  ELSE IF Len(n.w) = 1 THEN DivE(Num(1),Num(Len(n.ch))) ELSE IF s = Num(0) THEN Num(n.w[i]) ELSE DivE(Num(n.w[i]),s)
(* the value, given the values of the children that have one (<<>> for the others) and their flags *)
RECURSIVE Fold2(_,_,_,_)
Fold2(F(_,_),v,vals,i) == IF i > Len(vals) THEN v ELSE Fold2(F,IF vals[i] = <<>> THEN v ELSE IF v = <<>> THEN vals[i] ELSE Map2(F,v,vals[i]),vals,i+1)
Flagged(fls,i,k,m) == fls[i] # <<>> /\ fls[i][k][2] & m # 0
Pointwise(n,vals,fls) ==
  LET a == vals[1]
      N == Len(vals[CHOOSE i \in DOMAIN vals : vals[i] # <<>>])
      there == {i \in DOMAIN vals : vals[i] # <<>>}
      unlessFlagged(v) == TLCEval([k \in 1..N |-> IF \E i \in there : Flagged(fls,i,k,255) THEN NA ELSE v[k]])
  IN CASE n.c = "Add" -> Fold2(AddE,<<>>,vals,1)
    [] n.c = "Multiply" -> Fold2(MulE,<<>>,vals,1)
    [] n.c = "Subtract" -> Fold2(SubE,<<>>,vals,1)
    [] n.c = "Divide" -> Map2(DivE,a,vals[2])
    [] n.c = "ToComplex" -> TLCEval([k \in 1..N |-> AddE(RealE(a[k]),MulE(<<0,1,1>>,RealE(vals[2][k])))])
    [] n.c = "Negate" -> Map1(NegE,a)
    [] n.c = "Conj" -> Map1(ConjE,a)
    [] n.c = "Real" -> Map1(RealE,a)
    [] n.c = "Imag" -> Map1(ImagE,a)
    [] n.c = "Abs" -> Map1(AbsE,a)
    [] n.c \in {"Sqr","Pow2"} -> Map2(MulE,a,a)
    [] n.c = "Min" -> unlessFlagged(Fold2(MinE,<<>>,vals,1))
    [] n.c = "Max" -> unlessFlagged(Fold2(MaxE,<<>>,vals,1))
    [] n.c = "Mean" -> unlessFlagged(LET s == Fold2(AddE,<<>>,vals,1) IN TLCEval([k \in 1..N |-> DivE(s[k],Num(Cardinality(there)))]))
    [] n.c \in {"WSum","WMean"} -> Fold2(AddE,<<>>,[i \in DOMAIN vals |-> IF vals[i] = <<>> THEN <<>> ELSE LET w == Weight(n,i) IN TLCEval([k \in 1..N |-> MulE(w,vals[i][k])])],1)
    [] n.c = "Replace" -> TLCEval([k \in 1..N |->
          LET must == \E i \in 2..Len(vals) : fls[i] # <<>> /\ fls[i][k][1] & n.fm[i] # 0
              may == \E i \in 2..Len(vals) : fls[i] # <<>> /\ fls[i][k][2] & n.fm[i] # 0
          IN IF must THEN Num(n.value) ELSE IF may THEN NA ELSE a[k]])
Eval(n,vals,fls,G) == IF IsRed(n) THEN ReduceV(n,vals[1],fls[1],G) ELSE Pointwise(n,vals,fls)
(* the flags *)
RECURSIVE OrAll(_,_,_,_)
OrAll(n,P,i,fl) == IF i > Len(P) THEN fl ELSE OrAll(n,P,i+1,IF P[i].k # "val" THEN fl ELSE OrF(fl,IF IsNull(P[i]) THEN AndF(Maybe(P[i].fl),n.fm[i]) ELSE AndF(P[i].fl,n.fm[i])))
Flags(n,P,N,G) ==
  IF n.c \in Reds THEN
    IF Len(n.ch) = 1 THEN LET f == ReduceF(n,P[1].fl,G) IN IF IsNull(P[1]) THEN Maybe(f) ELSE f
    ELSE LET all == {i \in DOMAIN P : P[i].k = "val"} null == \E i \in all : IsNull(P[i]) gone == all # DOMAIN P
             tot == OrAll(n,P,1,NoFl(N))
             msk == LET RECURSIVE M(_) M(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN n.fm[i] | M(S \ {i}) IN M(all)
         IN TLCEval([k \in 1..N |->
              IF gone \/ null THEN <<0,IF tot[k][2] = 0 THEN 0 ELSE msk>>
              ELSE <<IF \A i \in all : P[i].fl[k][1] & n.fm[i] # 0 THEN msk ELSE 0,IF \A i \in all : P[i].fl[k][2] & n.fm[i] # 0 THEN msk ELSE 0>>])
  ELSE IF n.c = "Replace" THEN P[1].fl
  ELSE LET f == OrAll(n,P,1,NoFl(N)) IN IF n.c = "Multiply" /\ \E i \in DOMAIN P : IsNull(P[i]) THEN Maybe(f) ELSE f
(* parameters perturbed in any of the planes, in order *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o Sorted(S \ {m})
Spids(P) == Sorted(UNION {IF P[i].k = "val" THEN SetOf(P[i].sp) ELSE {} : i \in DOMAIN P})
Inx(pl,s) == IF pl.k = "val" /\ \E j \in DOMAIN pl.sp : pl.sp[j] = s THEN CHOOSE j \in DOMAIN pl.sp : pl.sp[j] = s ELSE 0
NSets(P) == LET S == {0} \cup {IF P[i].k = "val" /\ P[i].sp # <<>> THEN Len(P[i].p[1]) ELSE 0 : i \in DOMAIN P} IN CHOOSE m \in S : \A x \in S : x <= m
(* perturbations of parameter s in set t *)
Perts(P,s,t) == {LET j == Inx(P[i],s) IN P[i].p[j][t] : i \in {i \in DOMAIN P : Inx(P[i],s) # 0 /\ Len(P[i].p[1]) >= t}}
Perturbed(pl,s,t) == LET j == Inx(pl,s) IN IF j = 0 THEN pl.v ELSE IF Len(pl.p[j]) < t THEN pl.v ELSE pl.pv[j][t]
WithPerts(P,value,fl,F(_)) ==  \* F: values of the children -> value
  LET sp == Spids(P) ns == NSets(P) IN
  IF \E j \in DOMAIN sp : \E t \in 1..ns : Cardinality(Perts(P,sp[j],t)) # 1 THEN Failed({0})
  ELSE [k |-> "val",v |-> value,fl |-> fl,sp |-> sp,
        p |-> TLCEval([j \in DOMAIN sp |-> [t \in 1..ns |-> CHOOSE x \in Perts(P,sp[j],t) : TRUE]]),
        pv |-> TLCEval([j \in DOMAIN sp |-> [t \in 1..ns |-> F([i \in DOMAIN P |-> IF P[i].k = "val" THEN Perturbed(P[i],sp[j],t) ELSE <<>>])]])]
Fails(P) == UNION {IF P[i].k = "fail" THEN P[i].f ELSE {} : i \in DOMAIN P}
Plane(n,P,G) ==
  LET gone == {i \in DOMAIN P : P[i].k # "val"}
      vals == [i \in DOMAIN P |-> IF P[i].k = "val" THEN P[i].v ELSE <<>>]
      fls == [i \in DOMAIN P |-> IF P[i].k # "val" THEN <<>> ELSE IF n.c = "Replace" /\ i > 1 /\ IsNull(P[i]) THEN Maybe(P[i].fl) ELSE P[i].fl]
  IN IF \E i \in DOMAIN P : P[i].k = "fail" THEN Failed(Fails(P))
     ELSE IF gone # {} /\ (gone = DOMAIN P \/ ~TakesMissing(n)) THEN Empty
     ELSE WithPerts(P,Eval(n,vals,fls,G),Flags(n,P,Prod(G),G),LAMBDA x : Eval(n,x,fls,G))
Coded(dims,vs) == Result(\A k \in DOMAIN vs : vs[k].k = "fail",\A k \in DOMAIN vs : vs[k].k = "empty",dims,vs)
RECURSIVE FirstDims(_,_)
FirstDims(R,i) == IF i > Len(R) THEN <<>> ELSE IF R[i].dims # <<>> THEN R[i].dims ELSE FirstDims(R,i+1)
(* A sum, a product or a count along axes where no plane of the child varies: such a child may be taken as one point *)
(* along them or as all of the grid's, depending on the shapes it is kept in. *)
Differ(a,b) == a # NA /\ b # NA /\ a # b
Collapsed(n,r,G) ==
  LET C == Cells(G)
      near(a,b,x) == \A z \in DOMAIN C[a] : z = x \/ C[a][z] = C[b][z]
      varies(pl,x) == pl.k = "val" /\ \E a \in DOMAIN C : \E b \in DOMAIN C : a < b /\ near(a,b,x) /\ (Differ(pl.v[a],pl.v[b]) \/ \E j \in DOMAIN pl.pv : \E t \in DOMAIN pl.pv[j] : Differ(pl.pv[j][t][a],pl.pv[j][t][b]))
  IN n.c \in {"Sum","Product","NElements"} /\ IsRed(n)
     /\ \E x \in DOMAIN G : G[x] > 1 /\ (n.axes = <<>> \/ (x-1) \in SetOf(n.axes)) /\ \A k \in DOMAIN r.vs : ~varies(r.vs[k],x)
Unknown(pl) == IF pl.k # "val" THEN pl ELSE LET u(v) == [k \in DOMAIN v |-> NA] IN [pl EXCEPT !.v = u(@),!.pv = [j \in DOMAIN @ |-> [t \in DOMAIN @[j] |-> u(@[j][t])]]]
Function0(n,R,G) ==
  LET dims == FirstDims(R,1) IN
  IF \E i \in DOMAIN R : R[i].vs = <<>> \/ R[i].dims \notin {<<>>,dims} THEN Broken
  ELSE Coded(dims,TLCEval([k \in 1..Prod(dims) |-> Plane(n,[i \in DOMAIN R |-> R[i].vs[IF R[i].dims = <<>> THEN 1 ELSE k]],G)]))
(* ------------------------------------------------------------------ tensors *)
Function(n,R,G) == LET r == Function0(n,R,G) IN IF IsRed(n) /\ Collapsed(n,R[1],G) THEN [r EXCEPT !.vs = [k \in DOMAIN r.vs |-> Unknown(r.vs[k])]] ELSE r
RECURSIVE Flat(_,_,_)
Flat(dims,p,at) == IF dims = <<>> THEN at ELSE Flat(Tail(dims),Tail(p),at*Head(dims)+Head(p))
Selection(n,R) ==
  LET r == R[1] ix == n.index IN
  IF ix = <<>> THEN Result(FALSE,FALSE,r.dims,r.vs)
  ELSE IF n.multi \/ Len(ix) = 1 THEN
    LET vs == [k \in DOMAIN ix |-> IF ix[k] < 0 \/ ix[k] >= Len(r.vs) THEN Failed({0}) ELSE r.vs[ix[k]+1]] IN Coded(Dims1(Len(ix)),vs)
  ELSE IF Len(ix) # Len(r.dims) \/ \E k \in DOMAIN ix : ix[k] >= r.dims[k] THEN Broken
  ELSE IF \A k \in DOMAIN ix : ix[k] >= 0 THEN Coded(<<>>,<<r.vs[Flat(r.dims,ix,0)+1]>>)
  ELSE LET last == CHOOSE k \in DOMAIN ix : ix[k] < 0 /\ \A j \in DOMAIN ix : ix[j] < 0 => j <= k
           dims == [k \in 1..last |-> IF ix[k] < 0 THEN r.dims[k] ELSE 1]
       IN Coded(dims,[k \in 1..Prod(dims) |-> LET c == Cell(dims,k-1) IN r.vs[Flat(r.dims,[j \in DOMAIN ix |-> IF ix[j] < 0 THEN c[j] ELSE ix[j]],0)+1]])
(* the places of a tensor a selection stands for, in order; <<>> if there are none *)
Places(ix,multi,dims,n) ==
  IF multi \/ Len(ix) = 1 THEN (IF \E k \in DOMAIN ix : ix[k] < 0 \/ ix[k] >= n THEN <<>> ELSE [k \in DOMAIN ix |-> ix[k]+1])
  ELSE IF Len(ix) # Len(dims) \/ \E k \in DOMAIN ix : ix[k] >= dims[k] THEN <<>>
  ELSE LET d == [k \in DOMAIN ix |-> IF ix[k] < 0 THEN dims[k] ELSE 1]
       IN [k \in 1..Prod(d) |-> LET c == Cell(d,k-1) IN Flat(dims,[j \in DOMAIN ix |-> IF ix[j] < 0 THEN c[j] ELSE ix[j]],0)+1]
SliceDims(ix,dims) == IF \A k \in DOMAIN ix : ix[k] >= 0 THEN <<>>
  ELSE LET last == CHOOSE k \in DOMAIN ix : ix[k] < 0 /\ \A j \in DOMAIN ix : ix[j] < 0 => j <= k IN [k \in 1..last |-> IF ix[k] < 0 THEN dims[k] ELSE 1]
RECURSIVE Pasted(_,_,_,_)
Pasted(vs,at,new,k) == IF k > Len(at) THEN vs ELSE Pasted([vs EXCEPT ![at[k]] = new[k]],at,new,k+1)
Paste(n,R) ==
  LET r == R[1] x == R[2] ix == n.index at == Places(ix,n.multi,r.dims,Len(r.vs)) IN
  IF ix = <<>> THEN Result(FALSE,FALSE,r.dims,r.vs)
  ELSE IF at = <<>> \/ Len(x.vs) # Len(at) \/ (~n.multi /\ Len(ix) > 1 /\ (\E k \in DOMAIN ix : ix[k] < 0) /\ x.dims # SliceDims(ix,r.dims)) THEN Broken
  ELSE Result(FALSE,FALSE,r.dims,Pasted(r.vs,at,x.vs,1))
ConjPlane(pl) == IF pl.k # "val" THEN pl ELSE [pl EXCEPT !.v = Map1(ConjE,pl.v),!.pv = [j \in DOMAIN pl.pv |-> [t \in DOMAIN pl.pv[j] |-> Map1(ConjE,pl.pv[j][t])]]]
Turned(n,r) ==
  LET d == r.dims rk == Len(d) IN
  IF rk = 0 \/ (rk = 1 /\ n.tensor) \/ (rk = 2 /\ n.tensor /\ d[2] = 1) THEN <<d,r.vs>>
  ELSE IF rk = 1 THEN <<<<1,d[1]>>,r.vs>>
  ELSE IF rk = 2 /\ d[1] = 1 THEN <<<<d[2]>>,r.vs>>
  ELSE IF rk > 2 /\ d[rk-1] = 1 THEN <<[k \in 1..rk-1 |-> IF k = rk-1 THEN d[rk] ELSE d[k]],r.vs>>
  ELSE LET e == [k \in 1..rk |-> IF k = rk THEN d[rk-1] ELSE IF k = rk-1 THEN d[rk] ELSE d[k]]
       IN <<e,[k \in 1..Prod(e) |-> LET c == Cell(e,k-1) IN r.vs[Flat(d,[j \in 1..rk |-> IF j = rk THEN c[rk-1] ELSE IF j = rk-1 THEN c[rk] ELSE c[j]],0)+1]]>>
Transposed(n,R) == LET t == Turned(n,R[1]) IN Result(FALSE,FALSE,t[1],IF n.conj THEN [k \in DOMAIN t[2] |-> ConjPlane(t[2][k])] ELSE t[2])
Composed(n,R) ==
  LET all == Concat([i \in DOMAIN R |-> R[i].vs]) IN
  IF n.dims # <<0>> THEN Coded(IF n.dims = <<>> THEN Dims1(Len(all)) ELSE n.dims,all)
  ELSE LET T == {i \in DOMAIN R : Len(R[i].vs) > 1} IN
       IF T = {} THEN Coded(<<Len(R)>>,[i \in DOMAIN R |-> R[i].vs[1]])
       ELSE LET d == R[CHOOSE i \in T : TRUE].dims IN
            IF \E i \in T : R[i].dims # d THEN Broken
            ELSE Coded(<<Len(R)>> \o d,Concat([i \in DOMAIN R |-> IF i \in T THEN R[i].vs ELSE [k \in 1..Prod(d) |-> R[i].vs[1]]]))
(* matrix products: planes in pairs *)
PairSum(P,x) == \* x: a value per plane, <<>> for none
  LET N == Len(x[CHOOSE i \in DOMAIN x : x[i] # <<>>])
      RECURSIVE S(_) S(j) == IF j > Len(x) THEN Const(N,Num(0)) ELSE IF x[j] = <<>> \/ x[j+1] = <<>> THEN S(j+2) ELSE Map2(AddE,Map2(MulE,x[j],x[j+1]),S(j+2))
  IN S(1)
PairFlags(P,fa,fb,N) ==
  LET RECURSIVE S(_) S(j) == IF j > Len(P) THEN NoFl(N)
        ELSE IF P[j].k # "val" \/ P[j+1].k # "val" THEN S(j+2)
        ELSE LET f == OrF(AndF(P[j].fl,fa),AndF(P[j+1].fl,fb)) IN OrF(IF IsNull(P[j]) \/ IsNull(P[j+1]) THEN Maybe(f) ELSE f,S(j+2))
  IN S(1)
MatPlane(P,fa,fb,G) ==
  LET x == [i \in DOMAIN P |-> IF P[i].k = "val" THEN P[i].v ELSE <<>>] N == Prod(G) IN
  IF Fails(P) # {} THEN Failed(Fails(P))
  ELSE IF \A i \in DOMAIN P : P[i].k # "val" THEN Value(Const(N,Num(0)),NoFl(N))
  ELSE LET w == WithPerts(P,PairSum(P,x),PairFlags(P,fa,fb,N),LAMBDA y : PairSum(P,y)) IN IF w.k = "fail" THEN [k |-> "clash"] ELSE w
(* perturbations that do not agree fail the whole product *)
Product2(dims,vs) == IF \E k \in DOMAIN vs : vs[k].k = "clash" THEN Broken ELSE Result(\A k \in DOMAIN vs : vs[k].k = "fail",FALSE,dims,vs)
ByScalar(s,t,fs,ft,G) ==
  IF Len(t.dims) > 2 THEN Broken
  ELSE IF s.vs[1].k # "val" THEN Result(s.vs[1].k = "fail",FALSE,<<>>,<<s.vs[1]>>)
  ELSE LET vs == [k \in DOMAIN t.vs |-> IF t.vs[k].k # "val" THEN t.vs[k] ELSE MatPlane(<<t.vs[k],s.vs[1]>>,ft,fs,G)] IN Product2(t.dims,vs)
MatMul(a,b,fb,G) ==
  IF a.dims = <<>> THEN ByScalar(a,b,255,fb,G)
  ELSE IF b.dims = <<>> THEN ByScalar(b,a,fb,255,G)
  ELSE IF Len(a.dims) > 2 \/ Len(b.dims) > 2 THEN Broken
  ELSE LET da == IF Len(a.dims) = 1 THEN <<a.dims[1],1>> ELSE a.dims
           db == IF Len(b.dims) = 1 THEN <<b.dims[1],1>> ELSE b.dims
       IN IF da[2] # db[1] THEN Broken
          ELSE LET vs == [k \in 1..da[1]*db[2] |-> LET i == (k-1) \div db[2] c == (k-1) % db[2] IN
                            MatPlane([h \in 1..2*da[2] |-> LET j == (h-1) \div 2 IN IF h % 2 = 1 THEN a.vs[i*da[2]+j+1] ELSE b.vs[j*db[2]+c+1]],255,fb,G)]
               IN Product2(IF db[2] = 1 THEN Dims1(da[1]) ELSE <<da[1],db[2]>>,vs)
RECURSIVE MatAll(_,_,_,_,_)
MatAll(n,r,R,i,G) == IF i > Len(R) THEN r ELSE LET x == MatMul(r,R[i],n.fm[i],G) IN IF x.fail THEN x ELSE MatAll(n,x,R,i+1,G)
Masked(r,m) == [r EXCEPT !.vs = [k \in DOMAIN r.vs |-> IF r.vs[k].k = "val" THEN [r.vs[k] EXCEPT !.fl = AndF(@,m)] ELSE r.vs[k]]]
(* flags merged into the first child's planes *)
(* planes without a value may hold flags as well, which a merge may take account of (h) *)
Held(pl,fl) == IF "h" \in DOMAIN pl THEN OrF(pl.h,fl) ELSE fl
AddFl(pl,fl) == IF pl.k = "val" THEN [pl EXCEPT !.fl = OrF(@,fl)] ELSE [h |-> Held(pl,fl)] @@ pl
FlOf(pl,m,N) == IF pl.k = "val" THEN AndF(pl.fl,m) ELSE IF "h" \in DOMAIN pl THEN AndF(Maybe(pl.h),m) ELSE NoFl(N)
UnionFl(vs,m,N) == LET RECURSIVE U(_) U(k) == IF k > Len(vs) THEN NoFl(N) ELSE OrF(FlOf(vs[k],m,N),U(k+1)) IN U(1)
Into(n,r,x,m,N) ==
  IF n.all \/ x.dims = <<>> \/ r.dims = <<>> THEN [r EXCEPT !.vs = [k \in DOMAIN r.vs |-> AddFl(r.vs[k],UnionFl(x.vs,m,N))]]
  ELSE IF r.dims = x.dims THEN [r EXCEPT !.vs = [k \in DOMAIN r.vs |-> AddFl(r.vs[k],FlOf(x.vs[k],m,N))]]
  ELSE Broken
RECURSIVE MergeAll(_,_,_,_,_)
MergeAll(n,r,R,i,N) == IF i > Len(R) \/ r.fail THEN r ELSE MergeAll(n,IF n.fm[i] = 0 THEN r ELSE Into(n,r,R[i],n.fm[i],N),R,i+1,N)
Merged(n,R,N) ==
  LET r == Result(FALSE,FALSE,R[1].dims,R[1].vs) u == UnionFl(r.vs,n.fm[1],N) IN
  IF Len(R) > 1 THEN MergeAll(n,r,R,2,N)
  ELSE IF Len(r.vs) <= 1 \/ n.fm[1] = 0 THEN r
  ELSE [r EXCEPT !.vs = [k \in DOMAIN r.vs |-> IF r.vs[k].k = "val" /\ (\E c \in 1..N : u[c][2] # 0 \/ r.vs[k].fl[c][2] # 0) THEN [r.vs[k] EXCEPT !.fl = u] ELSE IF r.vs[k].k # "val" THEN [h |-> Held(r.vs[k],u)] @@ r.vs[k] ELSE r.vs[k]]]
Holds(op,x) == CASE op = "EQ" -> x = 0 [] op = "NE" -> x # 0 [] op = "LT" -> x < 0 [] op = "GT" -> x > 0 [] op = "LE" -> x <= 0 [] op = "GE" -> x >= 0
ZeroFlags(n,R) ==
  LET r == R[1] IN
  Result(FALSE,FALSE,r.dims,[k \in DOMAIN r.vs |-> IF r.vs[k].k # "val" THEN r.vs[k]
     ELSE [r.vs[k] EXCEPT !.fl = TLCEval([c \in DOMAIN r.vs[k].v |-> LET e == r.vs[k].v[c] IN IF ~Ok(e) THEN <<0,255>> ELSE LET b == IF Holds(n.oper,e[1]) THEN n.bit ELSE 0 IN <<b,b>>])]])
Stripped(r) == Result(FALSE,FALSE,r.dims,[k \in DOMAIN r.vs |-> IF r.vs[k].k = "val" THEN [r.vs[k] EXCEPT !.sp = <<>>,!.p = <<>>,!.pv = <<>>] ELSE r.vs[k]])
(* ------------------------------------------------------------------ a node *)
RECURSIVE Only(_,_,_)
Only(S,q,i) == IF i > Len(q) THEN <<>> ELSE (IF i \in S THEN <<q[i]>> ELSE <<>>) \o Only(S,q,i+1)
RECURSIVE Node(_,_,_)
Node(n,R,G) ==
  IF Asked(n) # DOMAIN n.ch THEN LET S == Asked(n) IN Node([n EXCEPT !.ch = Only(S,@,1),!.fm = Only(S,@,1),!.w = Only(S,@,1)],Only(S,R,1),G)
  ELSE IF ~LeavesFails(n) /\ \E i \in DOMAIN R : R[i].fail THEN AllFails(R)
  ELSE IF ~TakesMissing(n) /\ \E i \in DOMAIN R : R[i].miss THEN Result(FALSE,TRUE,<<>>,<<Empty>>)
  ELSE CASE n.c = "Composer" -> Composed(n,R)
    [] n.c = "Selector" -> Selection(n,R)
    [] n.c = "Paster" -> Paste(n,R)
    [] n.c = "Transpose" -> Transposed(n,R)
    [] n.c = "Identity" -> Result(FALSE,FALSE,R[1].dims,R[1].vs)
    [] n.c = "Stripper" -> Stripped(R[1])
    [] n.c = "MergeFlags" -> Merged(n,R,Prod(G))
    [] n.c = "ZeroFlagger" -> ZeroFlags(n,R)
    [] n.c = "MatrixMultiply" -> MatAll(n,Masked(Result(FALSE,FALSE,R[1].dims,R[1].vs),n.fm[1]),R,2,G)
    [] OTHER -> Function(n,R,G)
(* a source: what the script gives *)
GivenPlane(x,G) ==
  IF x.k = "fail" THEN Failed(SetOf(x.f))
  ELSE IF x.k = "empty" THEN Empty
  ELSE [k |-> "val",v |-> Given(x.v,G),
        fl |-> IF "fl" \in DOMAIN x THEN LET f == GivenFlags(x.fl,G) IN TLCEval([c \in DOMAIN f |-> <<f[c],f[c]>>]) ELSE NoFl(Prod(G)),
        sp |-> x.sp,p |-> x.p,pv |-> TLCEval([j \in DOMAIN x.pv |-> [t \in DOMAIN x.pv[j] |-> Given(x.pv[j][t],G)]])]
Source(n,G) == Result(n.code = "F",n.code = "M",n.dims,TLCEval([k \in DOMAIN n.vs |-> GivenPlane(n.vs[k],G)]))
RECURSIVE Outcome(_,_,_)
Outcome(ns,G,R) ==
  IF Len(R) = Len(ns) THEN R
  ELSE LET n == ns[Len(R)+1] IN Outcome(ns,G,Append(R,TLCEval(IF n.c = "S" THEN Source(n,G) ELSE Node(n,[i \in DOMAIN n.ch |-> R[n.ch[i]]],G))))
(* ------------------------------------------------------------------ an observed plane against an expected one *)
DD(t,x,y) == IF x = y THEN {} ELSE {<<t,"expected",x,"got",y>>}
FlagsBad(o,fl,G) ==
  LET x == IF "fl" \in DOMAIN o THEN (IF Fits(o.fl.sh,G) THEN GivenFlags(o.fl,G) ELSE <<>>) ELSE Const(Prod(G),0) IN
  IF x = <<>> THEN {<<"shape of flags",o.fl.sh>>}
  ELSE {<<"flags at",k,fl[k],x[k]>> : k \in {k \in DOMAIN fl : fl[k][1] & x[k] # fl[k][1] \/ x[k] & fl[k][2] # x[k]}}
PlaneBad(o,e,G) ==
  IF o.k # e.k THEN {<<"kind",e.k,o>>}
  ELSE IF e.k = "empty" THEN {}
  ELSE IF e.k = "fail" THEN DD("failures",e.f,SetOf(o.f))
  ELSE (LET d == Differs(o.v,e.v,G) IN IF d = {} THEN {} ELSE {<<"values at",d,e.v,o.v>>})
       \cup FlagsBad(o,e.fl,G) \cup DD("parameters",e.sp,o.sp)
       \cup (IF e.sp # o.sp THEN {} ELSE DD("perturbations",e.p,o.p)
             \cup (IF e.p # o.p THEN {} ELSE UNION {UNION {LET d == Differs(o.pv[j][t],e.pv[j][t],G) IN IF d = {} THEN {} ELSE {<<"perturbed values",j,t,"at",d,e.pv[j][t],o.pv[j][t]>>} : t \in DOMAIN e.pv[j]} : j \in DOMAIN e.pv}))
ResultBad(o,e,G) ==
  DD("fail",e.fail,o.fail) \cup (IF e.fail THEN {} ELSE DD("missing",e.miss,o.miss))
  \cup (IF "exc" \in DOMAIN o THEN {<<"exception",o.exc>>} ELSE {})
  \cup (IF Len(e.vs) # Len(o.r.vs) THEN {<<"planes",Len(e.vs),Len(o.r.vs)>>}
        ELSE DD("dims",e.dims,o.r.dims) \cup UNION {{<<"plane",k,x>> : x \in PlaneBad(o.r.vs[k],e.vs[k],G)} : k \in DOMAIN e.vs})
=============================================================================
