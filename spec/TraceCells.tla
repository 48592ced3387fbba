------------------------------ MODULE TraceCells ------------------------------
(* histories of the real grids *)
EXTENDS Cells, Json, IOUtils
ASSUME TLCSet(1,ndJsonDeserialize(IOEnv.TRACE))
TR == TLCGet(1)
ONE == 4096
VARIABLES i, S, skip
DD(t,x,y) == IF x = y THEN {} ELSE {<<t,"expected",x,"got",y>>}
Fn(q) == LET D == SetOf(q) IN [a \in {x[1] : x \in D} |-> LET x == CHOOSE x \in D : x[1] = a IN <<x[2],x[3]>>]
Given(q) == LET D == SetOf(q) IN [a \in {x[1] : x \in D} |-> LET x == CHOOSE x \in D : x[1] = a IN Interval(x[2]*ONE,x[3]*ONE)]
Times(q) == [k \in DOMAIN q |-> q[k]*ONE]
AxBad(g,o) ==
  IF o.a \notin DOMAIN g.ax THEN {<<"axis with cells",o.a>>}
  ELSE LET row == g.ax[o.a] sg == Segments(row) IN
    (IF o.ok THEN {} ELSE {<<"rows of different lengths",o.a>>})
    \cup DD("number of cells",Len(row),o.n)
    \cup DD("centres",[k \in DOMAIN row |-> row[k][1]],o.c) \cup DD("sizes",[k \in DOMAIN row |-> row[k][2]],o.h)
    \cup DD("starts",[k \in DOMAIN row |-> Low(row[k])],o.s) \cup DD("ends",[k \in DOMAIN row |-> High(row[k])],o.e)
    \cup DD("segment starts",[k \in DOMAIN sg |-> sg[k][1]],o.g0) \cup DD("segment ends",[k \in DOMAIN sg |-> sg[k][2]],o.g1)
ShowBad(g,o) ==
  DD("a grid",Len(g) = 1,o.valid)
  \cup IF Len(g) = 0 \/ ~o.valid THEN {}
       ELSE DD("a domain",g[1].has,o.has) \cup (IF g[1].has /\ o.has THEN DD("domain",g[1].dom,Fn(o.dom)) ELSE {})
            \cup DD("axes",DOMAIN g[1].ax,{x.a : x \in SetOf(o.ax)})
            \cup UNION {AxBad(g[1],x) : x \in SetOf(o.ax)}
            \cup (IF o.rec THEN {} ELSE {<<"record">>}) \cup (IF o.ones THEN {} ELSE {<<"shape along axes without cells">>})
G(k) == S[k+1][1]
OpOf(ev,a) == IF \E x \in SetOf(ev.ops) : x[1] = a THEN CHOOSE x \in SetOf(ev.ops) : x[1] = a ELSE <<a,"none",0>>
(* what an operation makes of the slot it writes *)
After(ev) ==
  CASE ev.op = "empty" -> <<NoCells>>
    [] ev.op = "new" -> LET d == Given(ev.dom) IN <<[has |-> TRUE, dom |-> d, ax |-> (0 :> Regular(d[0][1],d[0][2],ev.nx,-1)) @@ (1 :> Regular(d[1][1],d[1][2],ev.ny,-1))]>>
    [] ev.op = "only" -> <<[has |-> TRUE, dom |-> Given(ev.dom), ax |-> <<>>]>>
    [] ev.op = "set" -> <<WithRow(G(ev.d),ev.a,Row(Times(ev.c),Times(ev.h)))>>
    [] ev.op = "reg" -> <<WithRow(G(ev.d),ev.a,Regular(ev.x*ONE,ev.y*ONE,ev.n,IF ev.h < 0 THEN -1 ELSE ev.h*ONE))>>
    [] ev.op = "enum" -> <<WithRow(G(ev.d),ev.a,Enumerated(ev.n,ONE))>>
    [] ev.op = "redom" -> <<[G(ev.d) EXCEPT !.has = TRUE, !.dom = Extent(G(ev.d))]>>
    [] ev.op = "sup" -> Superset(G(ev.a),G(ev.b))
    [] ev.op = "ops" -> <<[G(ev.a) EXCEPT !.ax = [a \in DOMAIN @ |-> LET x == OpOf(ev,a) IN Resampled(@[a],x[2],x[3])]]>>
    [] ev.op = "two" -> LET A == G(ev.a) B == G(ev.b) IN
         <<[A EXCEPT !.ax = [a \in DOMAIN A.ax |-> IF (Len(A.ax[a]) > Len(B.ax[a])) # (ev.r > 0) THEN B.ax[a] ELSE A.ax[a]]]>>
    [] ev.op \in {"clone","ref","rec","send"} -> S[ev.a+1]
    [] OTHER -> S[ev.d+1]
Fails(ev) == \/ ev.op = "bad"
             \/ ev.op = "ops" /\ \E x \in SetOf(ev.ops) : x[2] = "n" /\ x[1] \in DOMAIN G(ev.a).ax /\ ~CanMake(Len(G(ev.a).ax[x[1]]),x[3])
Bad(ev) ==
  LET o == ev.obs IN
  IF "exc" \in DOMAIN o THEN (IF Fails(ev) THEN {} ELSE {<<"exception",o.exc>>})
  ELSE IF Fails(ev) THEN {<<"no exception">>}
  ELSE CASE ev.op = "dom" -> LET d == Given(ev.x) e == Given(ev.y) IN
         DD("domain",d,Fn(o.d)) \cup DD("envelope",Envelope(d,e),Fn(o.env)) \cup DD("expanded",Envelope(d,e),Fn(o.exp)) \cup DD("covers",Covers(d,e),o.sup)
         \cup DD("equal",d = e,o.eq) \cup DD("unequal",d # e,o.ne)
    [] ev.op = "cmp" -> DD("comparison",Compare(G(ev.a),G(ev.b)),o.c) \cup DD("equal",Equal(G(ev.a),G(ev.b)),o.eq) \cup DD("unequal",~Equal(G(ev.a),G(ev.b)),o.ne)
    [] OTHER -> ShowBad(After(ev),o)
Init == i = 1 /\ S = <<<<>>,<<>>,<<>>,<<>>>> /\ skip = TRUE
Next ==
  /\ i <= Len(TR)
  /\ i' = i+1
  /\ LET ev == TR[i] IN
     IF ev.e = "reset" THEN S' = <<<<>>,<<>>,<<>>,<<>>>> /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<S,skip>>
     ELSE LET x == Bad(ev) IN
          /\ S' = IF x = {} /\ ev.op \notin {"dom","cmp"} /\ ~Fails(ev) THEN [S EXCEPT ![ev.d+1] = After(ev)] ELSE S
          /\ skip' = (x # {})
          /\ (x # {} => PrintT(<<"MISMATCH",ev.s,i,x>>))
Spec == Init /\ [][Next]_<<i,S,skip>>
Consumed == TLCGet("stats").diameter = Len(TR)+1
=============================================================================
