------------------------------ MODULE Grid ------------------------------
(* What sampled functions mean. A Vells holds values over some of the axes of the grid, along the others it is constant: *)
(* here it is the function it stands for, one value per cell of the grid, and whether an axis was stored is not seen. *)
(* Values are exact: <<r,i,d>> is (r+i*I)/d; d=0 is a value nothing is said about; <<r,0,-d>> is the root of r/d. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise
NA == <<0,0,0>>
LIM == 30000
Ab(x) == IF x < 0 THEN -x ELSE x
Mn(x,y) == IF x < y THEN x ELSE y
Mx(x,y) == IF x > y THEN x ELSE y
RECURSIVE Gcd(_,_)
Gcd(a,b) == IF b = 0 THEN a ELSE Gcd(b,a % b)
Small(x) == x <= LIM /\ x >= -LIM
El(r,i,d) ==
  IF d = 0 THEN NA
  ELSE LET g == IF d = 1 THEN 1 ELSE Gcd(Gcd(d,Ab(r)),Ab(i)) R == IF r < 0 THEN -(Ab(r) \div g) ELSE r \div g I == IF i < 0 THEN -(Ab(i) \div g) ELSE i \div g D == d \div g
       IN IF Small(R) /\ Small(I) /\ Small(D) THEN <<R,I,D>> ELSE NA
Num(n) == <<n,0,1>>
Ok(a) == a[3] > 0
AddE(a,b) == IF ~Ok(a) \/ ~Ok(b) THEN NA ELSE IF a[3] = b[3] THEN El(a[1]+b[1],a[2]+b[2],a[3]) ELSE El(a[1]*b[3]+b[1]*a[3],a[2]*b[3]+b[2]*a[3],a[3]*b[3])
NegE(a) == IF Ok(a) THEN <<-a[1],-a[2],a[3]>> ELSE NA
SubE(a,b) == AddE(a,NegE(b))
MulE(a,b) == IF ~Ok(a) \/ ~Ok(b) THEN NA ELSE IF a[2] = 0 /\ b[2] = 0 THEN El(a[1]*b[1],0,a[3]*b[3]) ELSE El(a[1]*b[1]-a[2]*b[2],a[1]*b[2]+a[2]*b[1],a[3]*b[3])
InvE(b) == IF ~Ok(b) \/ (b[1] = 0 /\ b[2] = 0) THEN NA
           ELSE IF b[2] = 0 THEN El(IF b[1] < 0 THEN -b[3] ELSE b[3],0,Ab(b[1]))
           ELSE El(b[3]*b[1],-(b[3]*b[2]),b[1]*b[1]+b[2]*b[2])
DivE(a,b) == MulE(a,InvE(b))
ConjE(a) == IF Ok(a) THEN <<a[1],-a[2],a[3]>> ELSE NA
RealE(a) == IF Ok(a) THEN El(a[1],0,a[3]) ELSE NA
ImagE(a) == IF Ok(a) THEN El(a[2],0,a[3]) ELSE NA
Square(n) == IF \E k \in 0..180 : k*k = n THEN CHOOSE k \in 0..180 : k*k = n ELSE -1
AbsE(a) == IF ~Ok(a) THEN NA ELSE IF a[2] = 0 THEN <<Ab(a[1]),0,a[3]>>
           ELSE LET n == a[1]*a[1]+a[2]*a[2] IN IF n > LIM THEN NA ELSE IF Square(n) < 0 THEN (IF a[3] = 1 THEN <<n,0,-1>> ELSE NA) ELSE El(Square(n),0,a[3])
RootE(a) == IF Ok(a) /\ a[2] = 0 /\ a[1] >= 0 THEN (IF a[1] = 0 THEN a ELSE <<a[1],0,-a[3]>>) ELSE NA
Less(a,b) == a[1]*b[3] < b[1]*a[3]
MinE(a,b) == IF ~Ok(a) \/ ~Ok(b) \/ a[2] # 0 \/ b[2] # 0 THEN NA ELSE IF Less(b,a) THEN b ELSE a
MaxE(a,b) == IF ~Ok(a) \/ ~Ok(b) \/ a[2] # 0 \/ b[2] # 0 THEN NA ELSE IF Less(a,b) THEN b ELSE a
RECURSIVE PowE(_,_)
PowE(a,n) == IF n = 0 THEN Num(1) ELSE MulE(a,PowE(a,n-1))
FloorE(a) == IF Ok(a) /\ a[2] = 0 THEN Num(a[1] \div a[3]) ELSE NA
CeilE(a) == NegE(FloorE(NegE(a)))
(* ------------------------------------------------------------------ the grid *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s)*Prod(Tail(s))
(* the k-th cell (from 0), the last axis running fastest *)
RECURSIVE Cell(_,_)
Cell(g,k) == IF g = <<>> THEN <<>> ELSE LET n == Prod(Tail(g)) IN <<k \div n>> \o Cell(Tail(g),k % n)
Cells(g) == TLCEval([k \in 1..Prod(g) |-> Cell(g,k-1)])
(* where an array of shape sh keeps the value of a cell *)
RECURSIVE Where(_,_,_,_)
Where(sh,p,k,at) == IF k > Len(sh) THEN at ELSE Where(sh,p,k+1,at*sh[k] + IF sh[k] > 1 /\ k <= Len(p) THEN p[k] ELSE 0)
(* does an array of shape sh fit the grid *)
Fits(sh,g) == \A k \in 1..Len(sh) : sh[k] = 1 \/ (k <= Len(g) /\ sh[k] = g[k])
Spread(sh,v,g) == LET C == Cells(g) IN TLCEval([k \in 1..Len(C) |-> v[Where(sh,C[k],1,0)+1]])
(* the function a given array stands for *)
Elems(a) == TLCEval([k \in DOMAIN a.v |-> <<a.v[k],IF "w" \in DOMAIN a THEN a.w[k] ELSE 0,1>>])
Given(a,g) == Spread(a.sh,Elems(a),g)
GivenFlags(a,g) == Spread(a.sh,a.v,g)
(* the grid two shapes span together; <<>> if they do not go together *)
RECURSIVE Join(_,_)
Join(a,b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
             ELSE <<Mx(Head(a),Head(b))>> \o Join(Tail(a),Tail(b))
Together(a,b) == \A k \in 1..Mn(Len(a),Len(b)) : a[k] = b[k] \/ a[k] = 1 \/ b[k] = 1
(* is an observed number (in thousandths) this value *)
Near(x,n,d) == Ab(x - ((n*1000) \div d)) <= 1
IsE(x,y,e) == \/ e[3] = 0
              \/ e[3] > 0 /\ Near(x,e[1],e[3]) /\ Near(y,e[2],e[3])
              \/ e[3] < 0 /\ y = 0 /\ (e[1] > 2000 \/ (x >= 0 /\ x < 46000 /\ Ab(x*x - ((1000000*e[1]) \div (-e[3]))) <= 2*x+2))
(* the cells where an observed array is not the function v (it must fit the grid) *)
Differs(o,v,g) == IF ~Fits(o.sh,g) \/ o.t = "f" THEN {0}
                  ELSE LET C == Cells(g) IN {k \in 1..Len(C) : LET w == Where(o.sh,C[k],1,0)+1 IN ~IsE(o.v[w],IF "w" \in DOMAIN o THEN o.w[w] ELSE 0,v[k])}
(* ------------------------------------------------------------------ pointwise and reducing *)
Map1(F(_),a) == TLCEval([k \in DOMAIN a |-> F(a[k])])
Map2(F(_,_),a,b) == TLCEval([k \in DOMAIN a |-> F(a[k],b[k])])
RECURSIVE FoldE(_,_,_,_)
FoldE(F(_,_),e,q,k) == IF k > Len(q) THEN e ELSE FoldE(F,F(e,q[k]),q,k+1)
Sums(q) == FoldE(AddE,Num(0),q,1)
Products(q) == FoldE(MulE,Num(1),q,1)
Means(q) == IF q = <<>> THEN NA ELSE DivE(Sums(q),Num(Len(q)))
Reduce(op,q) ==
  CASE op = "sum" -> Sums(q)
    [] op = "product" -> Products(q)
    [] op = "nelements" -> Num(Len(q))
    [] op = "mean" -> Means(q)
    [] op = "min" -> IF q = <<>> THEN NA ELSE FoldE(MinE,q[1],q,2)
    [] op = "max" -> IF q = <<>> THEN NA ELSE FoldE(MaxE,q[1],q,2)
    [] op = "rms" -> RootE(Means(Map2(MulE,q,q)))
    [] op = "stddev" -> LET m == Means(q) s == SubE(Means(Map2(MulE,q,q)),MulE(m,m))
                         IN IF s = Num(0) /\ \E k \in DOMAIN q : q[k][3] # 1 THEN NA ELSE RootE(s)
(* the values at the cells of S that are not flagged, in order *)
Pick(v,S) == LET RECURSIVE P(_) P(k) == IF k > Len(v) THEN <<>> ELSE (IF k \in S THEN <<v[k]>> ELSE <<>>) \o P(k+1) IN P(1)
=============================================================================
