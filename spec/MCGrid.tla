------------------------------- MODULE MCGrid -------------------------------
(* Walks over stored arrays, as the code does them, against the declared meaning (Where, Flat), for every shape, set of *)
(* reduced axes and selection; and laws of the functions and tensor operations of FuncNodes.                           *)
EXTENDS FuncNodes
CONSTANTS N, REWIND, WHAT
VARIABLES w, at
vars == <<w,at>>
(* the stride of each axis of an array *)
Strides(sh) == [k \in DOMAIN sh |-> Prod(SubSeq(sh,k+1,Len(sh)))]
(* a counter over a shape, the last axis fastest: the number of axes that moved, 0 at the end *)
RECURSIVE Bump(_,_,_,_)
Bump(pos,sh,k,n) == IF k = 0 THEN <<pos,0>> ELSE IF pos[k]+1 < sh[k] THEN <<[pos EXCEPT ![k] = @+1],n>> ELSE Bump([pos EXCEPT ![k] = 0],sh,k-1,n+1)
(* ---------------------------------------------------------------- slices *)
Shapes == {s \in [1..3 -> 1..N] : TRUE}
Sub(g) == {s \in Shapes : \A k \in 1..3 : s[k] \in {1,g[k]}}
Slices == {[k |-> "slice",g |-> g,sh |-> s,ax |-> a] : g \in Shapes,s \in Shapes,a \in SUBSET (1..3)}
OkSlice(x) == x.sh \in Sub(x.g)
Turning(x,k) == x.sh[k] > 1 /\ k \notin x.ax              \* axes the array is iterated along
Left(x) == [k \in 1..3 |-> IF k \in x.ax THEN 1 ELSE x.g[k]]   \* what is left of the grid
(* moves the pointer on for the n last axes having moved *)
RECURSIVE Moves(_,_,_,_,_)
Moves(x,st,k,stop,p) == IF k < stop THEN p ELSE Moves(x,st,k-1,stop,IF ~Turning(x,k) THEN p ELSE p + st[k] - (IF k > stop THEN st[k]*x.sh[k] ELSE 0))
(* the elements of the slice at p, in order *)
SliceShape(x) == [k \in 1..3 |-> IF k \in x.ax THEN x.sh[k] ELSE 1]
Collected(x,p) == LET s == SliceShape(x) C == Cells(s) st == Strides(x.sh) IN [k \in DOMAIN C |-> p + C[k][1]*st[1] + C[k][2]*st[2] + C[k][3]*st[3]]
SliceAt(x) == [pos |-> <<0,0,0>>,p |-> 0,seen |-> [k \in 1..Prod(Left(x)) |-> IF k = 1 THEN Collected(x,0) ELSE <<>>],n |-> 1,end |-> FALSE]
SliceStep == /\ w.k = "slice" /\ ~at.end /\ UNCHANGED w
             /\ LET b == Bump(at.pos,Left(w),3,1) p == Moves(w,Strides(w.sh),3,4-b[2],at.p) IN
                at' = IF b[2] = 0 THEN [at EXCEPT !.end = TRUE] ELSE [at EXCEPT !.pos = b[1],!.p = p,!.n = @+1,!.seen = [@ EXCEPT ![at.n+1] = Collected(w,p)]]
(* the walk stands where the function's value for this cell is kept, and has collected its line *)
Line1(x,pos) == LET C == Cells(x.g) IN {Where(x.sh,C[k],1,0) : k \in {k \in DOMAIN C : \A z \in 1..3 : z \in x.ax \/ C[k][z] = pos[z]}}
Placed == w.k = "slice" => at.p = Where(w.sh,at.pos,1,0) /\ SetOf(at.seen[at.n]) = Line1(w,at.pos) /\ Len(at.seen[at.n]) = Cardinality(Line1(w,at.pos))
Covered == w.k = "slice" /\ at.end => UNION {SetOf(at.seen[k]) : k \in DOMAIN at.seen} = 0..(Prod(w.sh)-1)
(* ---------------------------------------------------------------- selections *)
Picks(d) == {s \in [1..3 -> {-1} \cup 0..(N-1)] : \A k \in 1..3 : s[k] < d[k]}
Selects == {[k |-> "select",d |-> d,ix |-> s] : d \in Shapes,s \in [1..3 -> {-1} \cup 0..(N-1)]}
OkSelect(x) == x.ix \in Picks(x.d) /\ \E k \in 1..3 : x.ix[k] < 0
Rank(x) == CHOOSE k \in 1..3 : x.ix[k] < 0 /\ \A j \in (k+1)..3 : x.ix[j] >= 0
OutDims(x) == [k \in 1..Rank(x) |-> IF x.ix[k] < 0 THEN x.d[k] ELSE 1]
Begin(x) == LET st == Strides(x.d) t(k) == IF x.ix[k] < 0 THEN 0 ELSE x.ix[k]*st[k] IN t(1)+t(2)+t(3)
SelectAt(x) == [off |-> Begin(x),left |-> [k \in 1..Rank(x) |-> IF x.ix[k] < 0 THEN x.d[k] ELSE 0],n |-> 1]
RECURSIVE Advance(_,_,_,_,_)
Advance(x,st,k,off,left) == IF k = 0 THEN <<off,left>> ELSE IF left[k] = 0 THEN Advance(x,st,k-1,off,left)
  ELSE IF left[k] > 1 THEN <<off+st[k],[left EXCEPT ![k] = @-1]>>
  ELSE Advance(x,st,k-1,off+st[k]-(IF REWIND THEN st[k]*x.d[k] ELSE 0),[left EXCEPT ![k] = x.d[k]])
SelectStep == /\ w.k = "select" /\ at.n < Prod(OutDims(w)) /\ UNCHANGED w
              /\ LET a == Advance(w,Strides(w.d),Rank(w),at.off,at.left) IN at' = [off |-> a[1],left |-> a[2],n |-> at.n+1]
Chosen == w.k = "select" => LET c == Cell(OutDims(w),at.n-1) IN at.off = Flat(w.d,[j \in 1..3 |-> IF w.ix[j] < 0 THEN c[j] ELSE w.ix[j]],0)
(* ---------------------------------------------------------------- laws of reductions over a grid of 2 x 2 *)
G2 == <<2,2>>
Vals == {Num(-1),Num(0),Num(2)}
Fns == {[k |-> "fn",v |-> v,f |-> f] : v \in [1..4 -> Vals],f \in [1..4 -> {0,1}]}
R(op,axes,x) == ReduceV([c |-> op,axes |-> axes,fm |-> <<1>>],x.v,[k \in 1..4 |-> <<x.f[k],x.f[k]>>],G2)
Bare(x) == [x EXCEPT !.f = [k \in 1..4 |-> 0]]
Reduces == w.k = "fn" =>
  /\ \A k \in 1..4 : R("Mean",<<>>,w)[k] # NA => MulE(R("Mean",<<>>,w)[k],R("NElements",<<>>,w)[k]) = R("Sum",<<>>,w)[k]
  /\ \A op \in {"Sum","Min","Max","Mean"} : \A a \in {<<0,1>>,<<1,0>>} : R(op,a,w) = R(op,<<>>,w)
  \* flagged cells count for nothing
  /\ \A op \in {"Sum","Min","Max","Mean","NElements","Product"} : \A k \in 1..4 : w.f[k] = 1 => R(op,<<>>,w) = R(op,<<>>,[w EXCEPT !.v[k] = Num(2)])
  \* one axis and then the other, with nothing flagged; what is left is constant along the axis
  /\ \A op \in {"Min","Max","Mean"} : LET b == Bare(w) IN R(op,<<1>>,[b EXCEPT !.v = R(op,<<0>>,b)]) = R(op,<<>>,b)
  /\ \A op \in {"Sum","Min","Max","Mean","NElements"} : LET y == R(op,<<0>>,w) IN y[1] = y[3] /\ y[2] = y[4]
  /\ \A k \in 1..4 : w.f[k] = 0 => ~Less(w.v[k],R("Min",<<>>,w)[k]) /\ ~Less(R("Max",<<>>,w)[k],w.v[k])
(* ---------------------------------------------------------------- laws of tensors *)
Label(k) == Value(<<Num(k)>>,<<<<0,0>>>>)
T1(dims) == Result(FALSE,FALSE,dims,[k \in 1..Prod(dims) |-> Label(k)])
Tensors == {[k |-> "tensor",d |-> <<a,b>>] : a \in 2..N,b \in 2..N}
G1 == <<1>>
Sel(ix,m,r) == Selection([index |-> ix,multi |-> m],<<r>>)
Mul(a,b) == MatMul(a,b,255,G1)
Tr(r) == Transposed([conj |-> FALSE,tensor |-> FALSE],<<r>>)
Tensored == w.k = "tensor" =>
  LET t == T1(w.d) rows == [i \in 1..w.d[1] |-> Sel(<<i-1,-1>>,FALSE,t)] IN
  /\ Tr(Tr(t)) = t
  /\ \A i \in 0..(w.d[1]-1) : \A j \in 0..(w.d[2]-1) : LET e == Sel(<<i,j>>,FALSE,t) IN
       /\ e.vs = <<t.vs[i*w.d[2]+j+1]>> /\ e = Sel(<<j,i>>,FALSE,Tr(t)) /\ e = Sel(<<i*w.d[2]+j>>,TRUE,t)
       /\ LET p == Paste([index |-> <<i,j>>,multi |-> FALSE],<<t,Plain(<<Label(9)>>)>>) IN
          Sel(<<i,j>>,FALSE,p).vs = <<Label(9)>> /\ Cardinality({k \in DOMAIN t.vs : t.vs[k] # p.vs[k]}) = IF Label(9) = t.vs[i*w.d[2]+j+1] THEN 0 ELSE 1
       /\ Paste([index |-> <<i,j>>,multi |-> FALSE],<<t,e>>) = t
  \* rows put together again
  /\ LET c == Composed([dims |-> <<0>>],[i \in DOMAIN rows |-> Result(FALSE,FALSE,<<w.d[2]>>,rows[i].vs)]) IN c.vs = t.vs /\ c.dims = w.d
  \* products
  /\ Mul(Tr(t),t) = Tr(Mul(Tr(t),t))
  /\ Mul(Mul(t,Tr(t)),t) = Mul(t,Mul(Tr(t),t))
  /\ LET one == Result(FALSE,FALSE,<<w.d[2],w.d[2]>>,[k \in 1..w.d[2]*w.d[2] |-> Value(<<Num(IF (k-1) \div w.d[2] = (k-1) % w.d[2] THEN 1 ELSE 0)>>,<<<<0,0>>>>)]) IN Mul(t,one).vs = t.vs
  /\ Mul(Plain(<<Label(1)>>),t) = t
(* ---------------------------------------------------------------- *)
Init == \/ WHAT = "walks" /\ ((w \in Slices /\ OkSlice(w) /\ at = SliceAt(w)) \/ (w \in Selects /\ OkSelect(w) /\ at = SelectAt(w)))
        \/ WHAT = "laws" /\ w \in Fns \cup Tensors /\ at = <<>>
Next == SliceStep \/ SelectStep
Spec == Init /\ [][Next]_vars
=============================================================================
