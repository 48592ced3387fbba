---------------------------- MODULE TraceFunc ----------------------------
(* trees of real nodes, and the arithmetic they are made of *)
EXTENDS FuncNodes, Json, IOUtils
ASSUME TLCSet(1,ndJsonDeserialize(IOEnv.TRACE))
TR == TLCGet(1)
VARIABLES i, skip
TreeBad(ev) ==
  LET E == Outcome(ev.nodes,ev.g,<<>>) o == ev.obs IN
  IF "res" \notin DOMAIN o THEN {<<"answer",o>>}
  ELSE LET bad == {k \in DOMAIN E : ResultBad(o.res[k],E[k],ev.g) # {}} IN
       (IF bad = {} THEN {} ELSE LET k == CHOOSE k \in bad : \A j \in bad : k <= j IN {<<"node",k,ev.nodes[k].c,ResultBad(o.res[k],E[k],ev.g)>>})
       \cup DD("changed afterwards",<<>>,o.changed)
Bin(op) == CASE op \in {"+","+=",".+="} -> "+" [] op \in {"-","-=",".-="} -> "-" [] op \in {"*","*=",".*="} -> "*" [] op \in {"/","/=","./="} -> "/"
           [] op \in {"|","|=",".|="} -> "or" [] op \in {"&","&=",".&="} -> "and" [] op \in {"^","^=",".^="} -> "xor" [] OTHER -> op
FlOp(op,x,y) == CASE op = "or" -> x | y [] op = "and" -> x & y [] op = "xor" -> x ^^ y
FlagsOf(x,G) == IF x = <<>> THEN Const(Prod(G),0) ELSE GivenFlags(x[1],G)
FlagOps == {"or","and","xor","not","scalar","where","merge"}
(* flags are ints: show 8 bits *)
OpBad(ev) ==
  LET op == Bin(ev.op) G == ev.g o == ev.obs
      a == IF ev.a.t = "f" THEN <<>> ELSE Given(ev.a,G)
      b == IF ev.b.t = "f" THEN <<>> ELSE Given(ev.b,G)
      N == Prod(G)
      fa == FlagsOf(ev.fa,G) fb == FlagsOf(ev.fb,G)
      ia == GivenFlags(ev.a,G) ib == GivenFlags(ev.b,G)
      x == ev.x
      want ==
        CASE op = "+" -> Map2(AddE,a,b) [] op = "-" -> Map2(SubE,a,b) [] op = "*" -> Map2(MulE,a,b) [] op = "/" -> Map2(DivE,a,b)
          [] op = "neg" -> Map1(NegE,a) [] op = "conj" -> Map1(ConjE,a) [] op = "real" -> Map1(RealE,a) [] op = "imag" -> Map1(ImagE,a)
          [] op \in {"abs","fabs"} -> Map1(AbsE,a)
          [] op \in {"sqr","pow2"} -> Map2(MulE,a,a)
          [] op = "pow3" -> [k \in DOMAIN a |-> PowE(a[k],3)] [] op = "pow4" -> [k \in DOMAIN a |-> PowE(a[k],4)] [] op = "pow5" -> [k \in DOMAIN a |-> PowE(a[k],5)]
          [] op = "floor" -> Map1(FloorE,a) [] op = "ceil" -> Map1(CeilE,a)
          [] op = "tocomplex" -> [k \in DOMAIN a |-> AddE(a[k],MulE(<<0,1,1>>,b[k]))]
          [] op \in {"min2","max2"} -> [k \in DOMAIN a |-> IF fa[k] & x[1] # 0 THEN (IF fb[k] & x[2] # 0 THEN NA ELSE b[k]) ELSE IF fb[k] & x[2] # 0 THEN a[k]
                                                           ELSE IF op = "min2" THEN MinE(a[k],b[k]) ELSE MaxE(a[k],b[k])]
          [] op \in {"min","max","mean","sum","product","nelements"} -> LET r == Reduce(op,Pick(a,{k \in 1..N : fa[k] & x[1] = 0})) IN [k \in 1..N |-> r]
          [] op = "replace" -> [k \in 1..N |-> IF ib[k] & x[2] # 0 THEN Num(x[1]) ELSE a[k]]
      wantf ==
        CASE op = "not" -> [k \in 1..N |-> 255-ia[k]]
          [] op = "scalar" -> [k \in 1..N |-> FlOp(Bin(ev.o),ia[k],x[1])]
          [] op = "where" -> [k \in 1..N |-> IF ia[k] = x[1] THEN x[2] ELSE x[3]]
          [] op = "merge" -> [k \in 1..N |-> ia[k] | (ib[k] & x[1])]
          [] OTHER -> [k \in 1..N |-> FlOp(op,ia[k],ib[k])]
  IN IF ~ev.fit THEN (IF "exc" \in DOMAIN o THEN {} ELSE {<<"no exception">>})
     ELSE IF "exc" \in DOMAIN o THEN {<<"exception",o.exc>>}
     ELSE IF op \in FlagOps THEN
       (IF ~Fits(o.c.sh,G) THEN {<<"shape",o.c.sh>>}
        ELSE LET y == GivenFlags(o.c,G) w == TLCEval(wantf) IN (IF \E k \in 1..N : y[k] # w[k] THEN {<<"flags",w,y>>} ELSE {})
          \cup (IF op = "where" THEN DD("how many",IF \A k \in 1..N : ia[k] = x[1] THEN 1 ELSE IF \A k \in 1..N : ia[k] # x[1] THEN -1 ELSE 0,o.r) ELSE DD("changed",<<>>,o.changed)))
     ELSE LET w == TLCEval(want) d == Differs(o.c,w,G) IN (IF d = {} THEN {} ELSE {<<"values at",d,w,o.c>>}) \cup DD("changed",<<>>,o.changed)
Bad(ev) == IF ev.e = "tree" THEN TreeBad(ev) ELSE OpBad(ev)
Init == i = 1 /\ skip = TRUE
Next ==
  /\ i <= Len(TR)
  /\ i' = i+1
  /\ LET ev == TR[i] IN
     IF ev.e = "reset" THEN skip' = FALSE
     ELSE IF skip THEN UNCHANGED skip
     ELSE LET x == Bad(ev) IN
          /\ skip' = (x # {})
          /\ (x # {} => PrintT(<<"MISMATCH",ev.s,i,x>>))
Spec == Init /\ [][Next]_<<i,skip>>
Consumed == TLCGet("stats").diameter = Len(TR)+1
=============================================================================
