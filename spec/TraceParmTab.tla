------------------------------ MODULE TraceParmTab ------------------------------
(* histories of the real table, with processes that die and threads that write at once *)
EXTENDS ParmTab, Json, IOUtils
ASSUME TLCSet(1,ndJsonDeserialize(IOEnv.TRACE))
TR == TLCGet(1)
(* D: the table at the last flush or close; W: what was done since, <<name,domain>> -> set of values, "" for deleted; *)
(* unsure: a process died, and the table was not looked at since *)
VARIABLES i, T, D, W, unsure, skip
Dom(q) == {<<x[1],x[2],x[3]>> : x \in SetOf(q)}
DD(t,x,y) == IF x = y THEN {} ELSE {<<t,"expected",x,"got",y>>}
FunkBad(t,T0,n,k,f) ==
  LET e == T0.fk[<<n,k>>] IN
  DD(t,e.v,f.v) \cup DD(t,T0.dom[k+1],Dom(f.dom)) \cup (IF f.id \in {k,e.ask} THEN {} ELSE {<<t,"id",f.id>>})
DumpBad(T0,o) ==
  DD("doms",T0.dom,[k \in DOMAIN o.doms |-> Dom(o.doms[k])])
  \cup DD("keys",Keys(T0),{<<a.p,a.n>> : a \in SetOf(o.all)})
  \cup DD("number of funklets",Cardinality(Keys(T0)),Len(o.all))
  \cup UNION {IF Has(T0,a.p,a.n) THEN FunkBad("funklet",T0,a.p,a.n,a.f) ELSE {} : a \in SetOf(o.all)}
(* what a dump shows, as a table *)
Seen(o) == [dom |-> [k \in DOMAIN o.doms |-> Dom(o.doms[k])],
            fk |-> [k \in {<<a.p,a.n>> : a \in SetOf(o.all)} |-> LET a == CHOOSE a \in SetOf(o.all) : <<a.p,a.n>> = k IN [v |-> a.f.v, ask |-> a.f.id]]]
IsPrefix0(p,q) == Len(p) <= Len(q) /\ \A k \in 1..Len(p) : p[k] = q[k]
(* after a death *)
DeadBad(o) ==
  LET X == Seen(o)
      key(k) == <<k[1],T.dom[k[2]+1]>>
      was(k) == IF k \in Keys(D) THEN {D.fk[k].v} ELSE {""}
      may(k) == was(k) \cup (IF key(k) \in DOMAIN W THEN W[key(k)] ELSE {})
  IN (IF IsPrefix0(D.dom,X.dom) /\ IsPrefix0(X.dom,T.dom) THEN {} ELSE {<<"domains after a death",D.dom,T.dom,X.dom>>})
     \cup (IF o.all = <<>> /\ DOMAIN W # {} THEN {}      \* found broken, and emptied: only if something was under way
           ELSE UNION {IF k[2] >= Len(X.dom) THEN {<<"no domain",k>>}
                       ELSE IF k[2] >= Len(T.dom) THEN {<<"unknown",k>>}
                       ELSE IF X.fk[k].v \notin may(k) THEN {<<"value after a death",k,X.fk[k].v,may(k)>>}
                       ELSE LET a == CHOOSE a \in SetOf(o.all) : <<a.p,a.n>> = k IN DD("domain after a death",T.dom[k[2]+1],Dom(a.f.dom)) : k \in Keys(X)}
                \cup UNION {IF k \in Keys(X) \/ "" \in may(k) THEN {} ELSE {<<"lost by a death",k>>} : k \in Keys(D)})
Did(w,n,d,v) == LET k == <<n,d>> IN (k :> ({v} \cup IF k \in DOMAIN w THEN w[k] ELSE {})) @@ w
(* threads: names differ between threads *)
RECURSIVE PutAll(_,_)
PutAll(T0,q) == IF q = <<>> THEN T0 ELSE PutAll(Put(T0,q[1].n,q[1].v,Dom(q[1].d),q[1].ask).T,Tail(q))
Flat(q) == LET RECURSIVE F(_) F(k) == IF k > Len(q) THEN <<>> ELSE q[k] \o F(k+1) IN F(1)
ByDomain(T0) == {<<k[1],T0.dom[k[2]+1],T0.fk[k].v>> : k \in Keys(T0)}
MtBad(ev) ==
  LET o == ev.obs
      E == PutAll(T,Flat(ev.jobs))
      X == Seen(o)
  IN IF \E a \in SetOf(o.all) : a.n >= Len(X.dom) THEN {<<"no domain">>}
     ELSE DD("domains",SetOf(E.dom),SetOf(X.dom)) \cup DD("number of domains",Len(E.dom),Len(X.dom))
     \cup (IF IsPrefix0(T.dom,X.dom) THEN {} ELSE {<<"domains moved",T.dom,X.dom>>})
     \cup DD("funklets",ByDomain(E),ByDomain(X)) \cup DD("number of funklets",Cardinality(Keys(E)),Len(o.all))
     \cup UNION {UNION {LET p == ev.jobs[t][k] IN
                        IF o.ids[t][k] \in 0..(Len(X.dom)-1) /\ X.dom[o.ids[t][k]+1] = Dom(p.d) THEN {} ELSE {<<"id",p,o.ids[t][k]>>}
                       : k \in DOMAIN ev.jobs[t]} : t \in DOMAIN ev.jobs}
     \cup UNION {DD("domain of a funklet",X.dom[a.n+1],Dom(a.f.dom)) : a \in SetOf(o.all)}
Fails(ev) == ev.op = "del" /\ ~Has(T,ev.n,ev.id)
P(ev) == Put(T,ev.n,ev.v,Dom(ev.d),ev.ask)
Bad(ev) ==
  LET o == ev.obs IN
  IF "exc" \in DOMAIN o THEN (IF Fails(ev) THEN {} ELSE {<<"exception",o.exc>>})
  ELSE IF Fails(ev) THEN {<<"no exception">>}
  ELSE CASE ev.op = "put" -> DD("id",P(ev).id,o.id)
    [] ev.op = "get" -> (IF Has(T,ev.n,ev.id) THEN (IF Len(o.f) = 1 THEN FunkBad("funklet",T,ev.n,ev.id,o.f[1]) ELSE {<<"nothing found">>}) ELSE DD("found",<<>>,o.f))
    [] ev.op = "find" -> LET F == Found(T,ev.n,Dom(ev.d)) IN
         IF Len(F) # Len(o.f) THEN {<<"found",o.f,"instead of",F>>}
         ELSE DD("count",Len(F),o.n) \cup UNION {FunkBad("funklet",T,ev.n,F[k],o.f[k]) : k \in DOMAIN F}
    [] ev.op = "dump" -> IF unsure THEN DeadBad(o) ELSE DumpBad(T,o)
    [] ev.op = "mt" -> MtBad(ev)
    [] OTHER -> {}
After(ev) ==
  IF "exc" \in DOMAIN ev.obs THEN T
  ELSE CASE ev.op = "put" -> P(ev).T
    [] ev.op = "del" -> Delete(T,ev.n,ev.id)
    [] ev.op = "delall" -> DeleteAll(T,ev.n)
    [] ev.op = "mt" -> Seen(ev.obs)
    [] ev.op = "dump" /\ unsure -> Seen(ev.obs)
    [] OTHER -> T
Writes(ev) ==
  CASE ev.op = "put" -> Did(W,ev.n,Dom(ev.d),ev.v)
    [] ev.op = "del" -> IF Has(T,ev.n,ev.id) THEN Did(W,ev.n,T.dom[ev.id+1],"") ELSE W
    [] ev.op = "delall" -> [k \in DOMAIN W \cup {<<ev.n,T.dom[x[2]+1]>> : x \in {x \in Keys(T) : x[1] = ev.n}} |->
                              (IF k \in DOMAIN W THEN W[k] ELSE {}) \cup (IF k[1] = ev.n THEN {""} ELSE {})]
    [] ev.op = "mt" -> (<<"","">> :> {""}) @@ W
    [] OTHER -> W
Safe(ev) == ev.op \in {"flush","close"} \/ (ev.op = "dump" /\ unsure)
Init == i = 1 /\ T = NoTab /\ D = NoTab /\ W = <<>> /\ unsure = FALSE /\ skip = TRUE
Next ==
  /\ i <= Len(TR)
  /\ i' = i+1
  /\ LET ev == TR[i] IN
     IF ev.e = "reset" THEN T' = NoTab /\ D' = NoTab /\ W' = <<>> /\ unsure' = FALSE /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<T,D,W,unsure,skip>>
     ELSE LET x == Bad(ev) IN
          /\ T' = IF x = {} THEN After(ev) ELSE T
          /\ D' = IF x = {} /\ Safe(ev) THEN T' ELSE D
          /\ W' = IF Safe(ev) THEN <<>> ELSE Writes(ev)
          /\ unsure' = IF ev.op = "die" THEN TRUE ELSE IF ev.op = "dump" THEN FALSE ELSE unsure
          /\ skip' = (x # {})
          /\ (x # {} => PrintT(<<"MISMATCH",ev.s,i,x>>))
Spec == Init /\ [][Next]_<<i,T,D,W,unsure,skip>>
Consumed == TLCGet("stats").diameter = Len(TR)+1
=============================================================================
