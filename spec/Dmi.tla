---------------------------------- MODULE Dmi ----------------------------------
(* Containers as values.  Registers hold values; an operation changes its own register
   only, whatever is shared underneath (copy-on-write is not visible).
   Values:  [k: "nil"]   [k: "sc", t, v: <<x>>]   [k: "vec", t, v]   [k: "arr", t, sh, v]
            [k: "rec", f: name -> value, p: protected names]   [k: "list", l]   [k: "ovec", o]
   Leaf values are text.  A state S has registers S.R, block sets S.B (sequences of
   values), and a file S.F [exists, c: contents, m: mode, pos, trunc, T: remembered positions]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nil == [k |-> "nil"]
Sc(t,x) == [k |-> "sc", t |-> t, v |-> <<x>>]
Numeric == {"bool","int","float","double","dcomplex"}
\* a number as another type
Whole(x) == IF x = "0.5" THEN "0" ELSE IF x = "1.5" THEN "1" ELSE IF x = "2.5" THEN "2" ELSE x
Conv(x,to) == IF to = "bool" THEN IF x = "0" THEN "0" ELSE "1"
              ELSE IF to = "int" THEN Whole(x) ELSE x
Convertible(a,b) == a = b \/ (a \in Numeric /\ b \in Numeric)

Open == [k |-> "any"]                    \* outside the specified domain
None == [k |-> "none"]                  \* no such element
Bad == [k |-> "bad"]                    \* an error
Leaf(t,x) == [k |-> "leaf", t |-> t, x |-> x]
Drop(f,x) == [y \in DOMAIN f \ {x} |-> f[y]]
Without(q,i) == SubSeq(q,1,i-1) \o SubSeq(q,i+1,Len(q))
InsertBefore(q,i,x) == SubSeq(q,1,i-1) \o <<x>> \o SubSeq(q,i,Len(q))
IsContainer(v) == v.k \in {"sc","vec","arr","rec","list","ovec"}
TypeClass(v) == IF v.k \in {"sc","vec","ovec"} THEN "vec" ELSE v.k

\* ---- subscripts: [n |-> name], [i |-> index], [a |-> <<axis ranges>>] ----
IsName(s) == "n" \in DOMAIN s
IsIndex(s) == "i" \in DOMAIN s
Nm(s) == IF "n" \in DOMAIN s THEN s.n ELSE ToString(s.i)     \* a number names a field, too
\* the element of container v with subscript s: a value, a leaf, none, bad, any
Elem(v,s) ==
  CASE v.k = "rec" -> IF Nm(s) \in DOMAIN v.f THEN v.f[Nm(s)] ELSE None
    [] v.k = "list" -> IF ~IsIndex(s) THEN Open
                       ELSE IF s.i < Len(v.l) THEN v.l[s.i+1] ELSE IF s.i = Len(v.l) THEN None ELSE Bad
    [] v.k \in {"sc","vec"} -> IF ~IsIndex(s) THEN IF IsName(s) THEN Bad ELSE Open
                               ELSE IF s.i < Len(v.v) THEN Leaf(v.t,v.v[s.i+1]) ELSE IF s.i = Len(v.v) THEN None ELSE Bad
    [] v.k = "ovec" -> IF ~IsIndex(s) THEN IF IsName(s) THEN Bad ELSE Open
                       ELSE IF s.i < Len(v.o) THEN v.o[s.i+1] ELSE IF s.i = Len(v.o) THEN None ELSE Bad
    [] OTHER -> Open
RECURSIVE Walk(_,_)
Walk(v,p) == IF p = <<>> THEN v
             ELSE IF v.k \in {"any","bad"} THEN v
             ELSE IF ~IsContainer(v) THEN Bad
             ELSE Walk(Elem(v,p[1]),Tail(p))
\* the value with the element at p (its container exists) replaced by F(container)
RECURSIVE Update(_,_,_)
Update(v,p,new) ==   \* new: the value of the container all of whose subscripts are p
  IF p = <<>> THEN new
  ELSE LET s == p[1]
           x == Update(Elem(v,s),Tail(p),new)
       IN CASE v.k = "rec" -> [v EXCEPT !.f = (Nm(s) :> x) @@ @]
            [] v.k = "list" -> [v EXCEPT !.l[s.i+1] = x]
            [] v.k = "ovec" -> [v EXCEPT !.o[s.i+1] = x]
\* does p lead through a protected field (before its last subscript)?
RECURSIVE Shielded(_,_)
Shielded(v,p) == IF p = <<>> \/ ~IsContainer(v) THEN FALSE
                 ELSE \/ v.k = "rec" /\ Nm(p[1]) \in v.p
                      \/ Shielded(Elem(v,p[1]),Tail(p))
Front(p) == SubSeq(p,1,Len(p)-1)
Last(p) == p[Len(p)]

\* ---- answers: state, error, what was read, registers about which nothing is said ----
Ret(S,x) == [S |-> S, err |-> "", x |-> x, free |-> {}]
Ok(S) == Ret(S,"")
Exc(S) == [S |-> S, err |-> "exc", x |-> "", free |-> {}]
Free(S,rs) == [S |-> S, err |-> "any", x |-> "any", free |-> rs]
SetR(S,r,v) == [S EXCEPT !.R[r] = v]

\* ---- scalars by path ----
Scalar(e,t) ==   \* element e read as a scalar of type t
  CASE e.k = "any" -> Open
    [] e.k = "leaf" -> IF Convertible(e.t,t) THEN Leaf(t,Conv(e.x,t)) ELSE Bad
    [] e.k = "sc" -> IF Convertible(e.t,t) THEN Leaf(t,Conv(e.v[1],t)) ELSE Bad
    [] e.k = "vec" -> IF Len(e.v) = 1 /\ Convertible(e.t,t) THEN Leaf(t,Conv(e.v[1],t)) ELSE IF Convertible(e.t,t) THEN Open ELSE Bad
    [] e.k \in {"arr","ovec"} -> Open
    [] OTHER -> Bad
GetScalar(S,r,p,t) ==
  IF S.R[r].k = "nil" THEN Exc(S)
  ELSE LET e == Scalar(Walk(S.R[r],p),t)
       IN IF e.k = "any" THEN [Free(S,{}) EXCEPT !.err = "any"] ELSE IF e.k = "leaf" THEN Ret(S,e.x) ELSE Exc(S)
\* container c with its element s set to the scalar x of type t
PutScalar(c,s,t,x,repl) ==
  LET e == Elem(c,s) IN
  CASE c.k = "rec" ->
         IF Nm(s) \in c.p THEN Bad
         ELSE IF e.k = "none" THEN [c EXCEPT !.f = (Nm(s) :> Sc(t,x)) @@ @]
         ELSE IF e.k \in {"vec","ovec","arr","nil"} THEN Open
         ELSE IF e.k = "sc" /\ ~repl THEN IF Convertible(t,e.t) THEN [c EXCEPT !.f[Nm(s)].v = <<Conv(x,e.t)>>] ELSE Bad
         ELSE IF repl THEN [c EXCEPT !.f[Nm(s)] = Sc(t,x)]
         ELSE Bad
    [] c.k = "list" /\ IsIndex(s) ->
         IF e.k = "none" THEN [c EXCEPT !.l = Append(@,Sc(t,x))]
         ELSE IF e.k = "bad" THEN Bad
         ELSE IF e.k \in {"vec","ovec","arr","nil"} THEN Open
         ELSE IF e.k = "sc" /\ ~repl THEN IF Convertible(t,e.t) THEN [c EXCEPT !.l[s.i+1].v = <<Conv(x,e.t)>>] ELSE Bad
         ELSE IF repl THEN [c EXCEPT !.l[s.i+1] = Sc(t,x)]
         ELSE Bad
    [] c.k \in {"sc","vec"} /\ IsIndex(s) ->
         IF e.k = "bad" THEN Bad
         ELSE IF ~Convertible(t,c.t) THEN IF repl THEN Open ELSE Bad
         ELSE IF e.k = "none" THEN [k |-> "vec", t |-> c.t, v |-> Append(c.v,Conv(x,c.t))]
         ELSE [c EXCEPT !.v[s.i+1] = Conv(x,c.t)]
    [] OTHER -> Open
Put(S,r,p,new) ==   \* the container at Front(p) becomes new
  IF new.k = "any" THEN Free(S,{r})
  ELSE IF new.k = "bad" THEN Exc(S)
  ELSE Ok(SetR(S,r,Update(S.R[r],Front(p),new)))
Writing(S,r,p,F(_,_)) ==
  IF S.R[r].k = "nil" THEN Exc(S)
  ELSE LET c == Walk(S.R[r],Front(p))
       IN IF c.k = "any" \/ Shielded(S.R[r],Front(p)) THEN Free(S,{r})
          ELSE IF ~IsContainer(c) THEN Exc(S)
          ELSE Put(S,r,p,F(c,Last(p)))
SetScalar(S,r,p,t,x,repl) == LET F(c,s) == PutScalar(c,s,t,x,repl) IN Writing(S,r,p,F)
\* ---- objects by path ----
PutObject(c,s,v,repl) ==
  LET e == Elem(c,s) IN
  CASE c.k = "rec" ->
         IF Nm(s) \in c.p THEN Bad
         ELSE IF e.k = "none" THEN [c EXCEPT !.f = (Nm(s) :> v) @@ @]
         ELSE IF e.k = "nil" THEN Open ELSE IF repl \/ TypeClass(e) = TypeClass(v) THEN [c EXCEPT !.f[Nm(s)] = v]
         ELSE IF e.k = "ovec" THEN Open ELSE Bad
    [] c.k = "list" /\ IsIndex(s) ->
         IF e.k = "none" THEN [c EXCEPT !.l = Append(@,v)]
         ELSE IF e.k = "bad" THEN Bad
         ELSE IF e.k = "nil" THEN Open ELSE IF repl \/ TypeClass(e) = TypeClass(v) THEN [c EXCEPT !.l[s.i+1] = v]
         ELSE IF e.k = "ovec" THEN Open ELSE Bad
    [] c.k = "ovec" /\ IsIndex(s) ->
         IF e.k = "bad" THEN Bad
         ELSE IF v.k = "rec" /\ e.k # "none" THEN [c EXCEPT !.o[s.i+1] = v]
         ELSE IF v.k = "rec" THEN [c EXCEPT !.o = Append(@,v)]
         ELSE Open
    [] OTHER -> Open
PutAt(S,r,p,q,repl,xfer) ==
  IF S.R[r].k = "nil" \/ S.R[q].k = "nil" THEN Exc(S)
  ELSE LET F(c,s) == PutObject(c,s,S.R[q],repl)
           a == Writing(S,r,p,F)
       IN IF a.free # {} THEN [a EXCEPT !.free = {r} \cup IF xfer THEN {q} ELSE {}]
          ELSE IF xfer /\ a.err = "" THEN [a EXCEPT !.S.R[q] = Nil] ELSE a
TakeAt(S,r,q,p) ==
  IF S.R[q].k = "nil" THEN Exc(S)
  ELSE LET e == Walk(S.R[q],p)
       IN IF e.k = "any" THEN Free(S,{r}) ELSE IF IsContainer(e) \/ e.k = "nil" THEN Ok(SetR(S,r,e)) ELSE Exc(S)
RemoveAt(S,r,q,p) ==   \* r := the element removed from q
  IF S.R[q].k = "nil" THEN Exc(S)
  ELSE LET c == Walk(S.R[q],Front(p))
           s == Last(p)
           e == IF IsContainer(c) THEN Elem(c,s) ELSE Bad
           Done(new,v) == Ok(SetR(SetR(S,q,Update(S.R[q],Front(p),new)),r,v))
       IN IF c.k = "any" \/ Shielded(S.R[q],Front(p)) THEN Free(S,{r,q})
          ELSE IF ~IsContainer(c) THEN Exc(S)
          ELSE CASE c.k = "rec" ->
                      IF e.k = "none" THEN Ok(SetR(S,r,Nil))
                      ELSE IF Nm(s) \in c.p THEN Exc(S)
                      ELSE Done([c EXCEPT !.f = Drop(@,Nm(s))],e)
                 [] c.k = "list" /\ IsIndex(s) ->
                      IF e.k \in {"none","bad"} THEN Exc(S) ELSE Done([c EXCEPT !.l = Without(@,s.i+1)],e)
                 [] c.k = "vec" /\ IsIndex(s) ->
                      IF s.i = Len(c.v)-1 /\ Len(c.v) > 1 THEN Done([c EXCEPT !.v = Without(@,s.i+1)],Nil) ELSE Exc(S)
                 [] OTHER -> Free(S,{r,q})
Exists(S,r,p) ==
  IF S.R[r].k = "nil" THEN Exc(S)
  ELSE LET c == Walk(S.R[r],Front(p))
           e == IF IsContainer(c) THEN Elem(c,Last(p)) ELSE Bad
       IN IF c.k = "any" \/ e.k \in {"any","nil","ovec"} THEN Free(S,{}) ELSE IF e.k = "bad" THEN Exc(S) ELSE Ret(S,e.k # "none")
\* the number of elements of a container
Count(v) == CASE v.k \in {"sc","vec"} -> Len(v.v) [] v.k = "rec" -> Cardinality(DOMAIN v.f)
              [] v.k = "list" -> Len(v.l) [] v.k = "ovec" -> Len(v.o) [] OTHER -> 1
Size(S,r,p) ==
  IF S.R[r].k = "nil" THEN Exc(S)
  ELSE LET e == Walk(S.R[r],p)
       IN IF e.k \in {"any","nil","arr","ovec","none"} THEN Free(S,{})
          ELSE IF e.k = "bad" THEN Exc(S)
          ELSE IF e.k = "leaf" THEN Ret(S,1)
          ELSE Ret(S,Count(e))

\* ---- records ----
Is(S,r,k) == S.R[r].k = k
RAdd(S,r,n,q,repl,prot,xfer) ==
  IF ~Is(S,r,"rec") THEN Exc(S)
  ELSE LET v == S.R[r]
           has == n \in DOMAIN v.f
       IN IF has /\ (~repl \/ n \in v.p) THEN Exc(S)
          ELSE LET w == [k |-> "rec", f |-> (n :> S.R[q]) @@ v.f, p |-> IF prot THEN v.p \cup {n} ELSE v.p \ {n}]
                   S1 == IF xfer THEN SetR(S,q,Nil) ELSE S
               IN Ok(SetR(S1,r,w))
RDel(S,r,q,n,ign) ==
  IF ~Is(S,q,"rec") THEN Exc(S)
  ELSE LET v == S.R[q] IN
       IF n \notin DOMAIN v.f THEN IF ign THEN Ok(SetR(S,r,Nil)) ELSE Exc(S)
       ELSE IF n \in v.p THEN Exc(S)
       ELSE Ok(SetR(SetR(S,q,[v EXCEPT !.f = Drop(@,n)]),r,v.f[n]))
RProt(S,r,n,on) ==
  IF ~Is(S,r,"rec") \/ (Is(S,r,"rec") /\ n \notin DOMAIN S.R[r].f) THEN Exc(S)
  ELSE Ok([S EXCEPT !.R[r].p = IF on THEN @ \cup {n} ELSE @ \ {n}])
RMerge(S,r,q,over) ==
  IF ~Is(S,r,"rec") \/ ~Is(S,q,"rec") THEN Exc(S)
  ELSE IF r = q THEN Free(S,{r})
  ELSE LET a == S.R[r]
           b == S.R[q]
           hit == DOMAIN a.f \cap DOMAIN b.f
           won == IF over THEN DOMAIN b.f ELSE DOMAIN b.f \ DOMAIN a.f
       IN IF over /\ hit \cap a.p # {} THEN [Free(S,{r}) EXCEPT !.err = "exc"]
          ELSE Ok(SetR(S,r,[k |-> "rec", f |-> [n \in DOMAIN a.f \cup DOMAIN b.f |-> IF n \in won THEN b.f[n] ELSE a.f[n]],
                            p |-> (a.p \ won) \cup (b.p \cap won)]))
RHas(S,r,n) == IF ~Is(S,r,"rec") THEN Exc(S) ELSE Ret(S,n \in DOMAIN S.R[r].f)
RGet(S,r,q,n,ign) ==
  IF ~Is(S,q,"rec") THEN Exc(S)
  ELSE IF n \in DOMAIN S.R[q].f THEN Ok(SetR(S,r,S.R[q].f[n]))
  ELSE IF ign THEN Ok(SetR(S,r,Nil)) ELSE Exc(S)
RClear(S,r) == IF ~Is(S,r,"rec") THEN Exc(S) ELSE Ok(SetR(S,r,[k |-> "rec", f |-> <<>>, p |-> {}]))
\* ---- lists ----
LPos(n,len) == IF n < 0 THEN len+n ELSE n              \* of an existing element
LIns(n,len) == IF n < 0 THEN len+1+n ELSE n            \* to insert before
LPut(S,r,n,q) ==
  IF ~Is(S,r,"list") THEN Exc(S)
  ELSE LET l == S.R[r].l
           i == LIns(n,Len(l))
       IN IF i < 0 \/ i > Len(l) THEN Exc(S) ELSE Ok([S EXCEPT !.R[r].l = InsertBefore(l,i+1,S.R[q])])
LRep(S,r,n,q) ==
  IF ~Is(S,r,"list") THEN Exc(S)
  ELSE LET l == S.R[r].l
           i == LPos(n,Len(l))
       IN IF i < 0 \/ i >= Len(l) THEN Exc(S) ELSE Ok([S EXCEPT !.R[r].l[i+1] = S.R[q]])
LRem(S,r,q,n) ==
  IF ~Is(S,q,"list") THEN Exc(S)
  ELSE LET l == S.R[q].l
           i == LPos(n,Len(l))
       IN IF i < 0 \/ i >= Len(l) THEN Exc(S) ELSE Ok(SetR([S EXCEPT !.R[q].l = Without(@,i+1)],r,l[i+1]))
LGet(S,r,q,n) ==
  IF ~Is(S,q,"list") THEN Exc(S)
  ELSE LET l == S.R[q].l
           i == LPos(n,Len(l))
       IN IF i < 0 \/ i >= Len(l) THEN Exc(S) ELSE Ok(SetR(S,r,l[i+1]))
LApp(S,r,q) ==
  IF ~Is(S,r,"list") \/ ~Is(S,q,"list") THEN Exc(S) ELSE Ok([S EXCEPT !.R[r].l = @ \o S.R[q].l])
\* ---- vectors ----
VSize(S,r,n) ==
  LET v == S.R[r] IN
  IF v.k = "ovec" THEN Free(S,{r})
  ELSE IF v.k \notin {"sc","vec"} \/ n <= 0 THEN Exc(S)
  ELSE IF n > Len(v.v) THEN Ok(SetR(S,r,[k |-> "vec", t |-> v.t,      \* numbers set to 0 by the driver
                                     v |-> [i \in 1..n |-> IF i <= Len(v.v) THEN v.v[i] ELSE IF v.t \in Numeric THEN "0" ELSE IF v.t = "hiid" THEN "(null)" ELSE ""]]))
  ELSE IF v.k = "sc" THEN Ok(S) ELSE Ok(SetR(S,r,[v EXCEPT !.v = SubSeq(@,1,n)]))
VPut(S,r,n,q) ==
  LET v == S.R[r] IN
  IF v.k # "ovec" THEN IF v.k = "nil" THEN Exc(S) ELSE Free(S,{r})
  ELSE IF n < 0 \/ n > Len(v.o) \/ S.R[q].k # "rec" THEN Exc(S)
  ELSE IF n = Len(v.o) THEN Ok([S EXCEPT !.R[r].o = Append(@,S.R[q])])
  ELSE Ok([S EXCEPT !.R[r].o[n+1] = S.R[q]])
\* ---- arrays: an axis is [i] (one index, the axis goes), or [lo,hi,inc] (inclusive) ----
RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE q[1]*Prod(Tail(q))
AxisBad(a,len) == IF "i" \in DOMAIN a THEN a.i >= len ELSE a.hi >= len \/ a.hi < a.lo \/ a.lo >= len
AxisAll(a,len) == IF "w" \in DOMAIN a THEN [lo |-> 0, hi |-> len-1, inc |-> 1] ELSE a
AxisIdx(a) == IF "i" \in DOMAIN a THEN <<a.i>> ELSE [k \in 1..((a.hi-a.lo) \div a.inc) + 1 |-> a.lo + ((k-1)*a.inc)]
RECURSIVE Offsets(_,_)   \* row-major element numbers of the selection
Offsets(ax,sh) ==
  IF ax = <<>> THEN <<0>>
  ELSE LET rest == Offsets(Tail(ax),Tail(sh))
           me == AxisIdx(ax[1])
           n == Len(rest)
           stride == Prod(Tail(sh))
       IN [k \in 1..Len(me)*n |-> (me[((k-1) \div n) + 1]*stride) + rest[((k-1) % n) + 1]]
Axes(axes,sh) == [k \in DOMAIN sh |-> AxisAll(IF k \in DOMAIN axes THEN axes[k] ELSE [w |-> 1],sh[k])]
SliceBad(v,axes) == Len(axes) > Len(v.sh) \/ \E k \in DOMAIN axes : AxisBad(AxisAll(axes[k],v.sh[k]),v.sh[k])
Slice(S,r,axes) ==
  LET v == S.R[r] IN
  IF v.k # "arr" THEN Exc(S)
  ELSE IF SliceBad(v,axes) THEN Exc(S)
  ELSE LET ax == Axes(axes,v.sh)
           o == Offsets(ax,v.sh)
           kept == SelectSeq(ax,LAMBDA a : "i" \notin DOMAIN a)
       IN Ret(S,[sh |-> [k \in DOMAIN kept |-> Len(AxisIdx(kept[k]))], v |-> [k \in DOMAIN o |-> v.v[o[k]+1]]])
Fill(S,r,axes,x) ==
  LET v == S.R[r] IN
  IF v.k # "arr" THEN Exc(S)
  ELSE IF SliceBad(v,axes) THEN Exc(S)
  ELSE LET o == Offsets(Axes(axes,v.sh),v.sh)
           hit == {o[k]+1 : k \in DOMAIN o}
       IN Ok([S EXCEPT !.R[r].v = [k \in DOMAIN v.v |-> IF k \in hit THEN Conv(x,v.t) ELSE v.v[k]]])

\* ---- packing ----
RECURSIVE Packed(_)   \* what comes out of the blocks again: protection is not stored
Packed(v) == CASE v.k = "rec" -> [v EXCEPT !.f = [n \in DOMAIN v.f |-> Packed(v.f[n])], !.p = {}]
               [] v.k = "list" -> [v EXCEPT !.l = [i \in DOMAIN v.l |-> Packed(v.l[i])]]
               [] v.k = "ovec" -> [v EXCEPT !.o = [i \in DOMAIN v.o |-> Packed(v.o[i])]]
               [] OTHER -> v
BTo(S,b,r,app) == IF S.R[r].k = "nil" THEN (IF app THEN Exc(S) ELSE Exc([S EXCEPT !.B[b] = <<>>]))
                  ELSE Ok([S EXCEPT !.B[b] = (IF app THEN @ ELSE <<>>) \o <<Packed(S.R[r])>>])
BFrom(S,r,b) == IF S.B[b] = <<>> THEN Exc(S) ELSE Ok([SetR(S,r,S.B[b][1]) EXCEPT !.B[b] = Tail(@)])
BCopy(S,b) == Ok([S EXCEPT !.B[b] = S.B[3-b]])
BPush(S,b) == Ok([S EXCEPT !.B[b] = @ \o S.B[3-b]])
RoundTrip(S,r,q) == IF S.R[q].k = "nil" THEN Exc(S) ELSE Ok(SetR(S,r,Packed(S.R[q])))
NoFile == [exists |-> FALSE, c |-> <<>>, m |-> "-", pos |-> 1, cut |-> FALSE, T |-> <<1,1,1,1>>]
FOpen(S,m) == IF m = "r" /\ ~S.F.exists THEN Exc([S EXCEPT !.F.m = "-"])
              ELSE Ok([S EXCEPT !.F = [@ EXCEPT !.exists = TRUE, !.c = IF m = "w" THEN <<>> ELSE @, !.m = m, !.pos = 1,
                                                !.cut = IF m = "w" THEN FALSE ELSE @]])
FClose(S) == Ok([S EXCEPT !.F.m = "-"])
FWrite(S,r) == IF S.F.m \notin {"w","a"} \/ S.R[r].k = "nil" THEN Exc(S)
               ELSE Ok([S EXCEPT !.F.c = Append(@,Packed(S.R[r]))])
FRead(S,r) == IF S.F.m # "r" THEN Exc(S)
              ELSE IF S.F.pos > Len(S.F.c) THEN Ret(S,FALSE)
              ELSE Ret([SetR(S,r,S.F.c[S.F.pos]) EXCEPT !.F.pos = @+1],TRUE)
FNext(S) == IF S.F.m # "r" THEN Exc(S) ELSE Ret(S,S.F.pos <= Len(S.F.c))
FRewind(S) == IF S.F.m = "-" THEN Exc(S) ELSE Ok([S EXCEPT !.F.pos = 1])
FTell(S,k) == IF S.F.m = "-" THEN Exc(S) ELSE Ok([S EXCEPT !.F.T[k] = @])
FMark(S,k) == IF S.F.m # "r" THEN Exc(S) ELSE Ok([S EXCEPT !.F.T[k] = S.F.pos])
FSeek(S,k) == IF S.F.m # "r" THEN Exc(S) ELSE Ok([S EXCEPT !.F.pos = S.F.T[k]])
Start == [R |-> [i \in 1..5 |-> Nil], B |-> << <<>>, <<>> >>, F |-> NoFile]
=============================================================================
