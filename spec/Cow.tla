---------------------------------- MODULE Cow ----------------------------------
(* Counted references with copy-on-write (DMI/CountedRefBase).
   A state S has the registers R (references held by users), the live objects O
   and the next object number.  An object has a value, may hold a reference to a
   child, and is anonymous (deleted with its last reference) or external.
   A reference: t target (0: none), lk locked, w writable, sh shared-write.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoRef == [t |-> 0, lk |-> FALSE, w |-> FALSE, sh |-> FALSE]
Live(S) == DOMAIN S.O
Refs(S,id) == Cardinality({k \in DOMAIN S.R : S.R[k].t = id}) + Cardinality({o \in Live(S) : S.O[o].ch.t = id})
Only(S,r) == Refs(S,r.t) = 1
Direct(S,r) == (r.w /\ Only(S,r)) \/ r.sh
Has(f,x) == x \in f
Ownership(f) == IF "A" \in f THEN "auto" ELSE IF "E" \in f THEN "ext" ELSE "anon"
Local == {"L","U","S","C"}

\* places a reference lives in: a register, or the child slot of an object
Get(S,p) == IF p.k = "reg" THEN S.R[p.n] ELSE S.O[p.n].ch
Put(S,p,r) == IF p.k = "reg" THEN [S EXCEPT !.R[p.n] = r] ELSE [S EXCEPT !.O[p.n].ch = r]
Reg(n) == [k |-> "reg", n |-> n]
Child(o) == [k |-> "obj", n |-> o]

Drop(f,x) == [y \in DOMAIN f \ {x} |-> f[y]]
\* id lost a reference: an anonymous object without references goes, and so on down
RECURSIVE Collect(_,_)
Collect(S,id) ==
  IF id = 0 \/ id \notin Live(S) \/ ~S.O[id].anon \/ Refs(S,id) > 0 THEN S
  ELSE LET c == S.O[id].ch.t
       IN Collect([S EXCEPT !.O = Drop(@,id)],c)

RECURSIVE Free(_,_)
Free(O,n) == IF n \in DOMAIN O THEN Free(O,n+1) ELSE n       \* the next unused object number
Detach(S,p) == LET r == Get(S,p) IN Collect(Put(S,p,NoRef),r.t)    \* of an unlocked reference

RECURSIVE CopyRef(_,_,_,_,_), Privatize(_,_,_,_), CloneObj(_,_,_,_)
\* a new object like o; S.made is its number.  Its child is copied by reference, or deeply
CloneObj(S,o,f,d) ==
  LET id == S.next
      S1 == [S EXCEPT !.next = Free(S.O,id+1), !.O = (id :> [val |-> S.O[o].val, anon |-> TRUE, ch |-> NoRef]) @@ @]
  IN CopyRef(S1,Child(id),S.O[o].ch,f,d)
\* the reference in place p makes sure its target is its own
Privatize(S,p,f,d) ==
  LET r == Get(S,p)
      need == ~S.O[r.t].anon \/ ~Only(S,r) \/ ~r.w \/ d > 0 \/ "D" \in f
      id == S.next
      S1 == CloneObj(S,r.t,f \ Local,d-1)
      r1 == [t |-> id, lk |-> FALSE, w |-> TRUE, sh |-> FALSE]
      S2 == IF need THEN LET X == Put(S1,p,r1)
                             lost == S.O[r.t].anon /\ Refs(X,r.t) = 0
                         IN IF lost /\ S.leak THEN [X EXCEPT !.lost = @ \cup {r.t}] ELSE Collect(X,r.t)
            ELSE S
      q == Get(S2,p)
  IN Put(S2,p,[q EXCEPT !.lk = IF "L" \in f THEN TRUE ELSE IF "U" \in f THEN FALSE ELSE @,
                        !.sh = IF "S" \in f THEN TRUE ELSE IF "C" \in f THEN FALSE ELSE @,
                        !.w = TRUE])
\* place p (empty by now) becomes a copy of reference o
CopyRef(S,p,o,f,d) ==
  IF o.t = 0 THEN Put(S,p,NoRef)
  ELSE IF "D" \in f \/ d > 0
       THEN Privatize(Put(S,p,[t |-> o.t, lk |-> FALSE, w |-> FALSE, sh |-> FALSE]),p,f,d)
       ELSE Put(S,p,[t |-> o.t, lk |-> "L" \in f, w |-> o.w,
                     sh |-> IF "S" \in f THEN TRUE ELSE IF "C" \in f THEN FALSE ELSE o.sh])
Ok(S) == [S |-> S, err |-> ""]
Exc(S) == [S |-> S, err |-> "exc"]

Copy(S,r,q,f,d) ==
  IF r = q THEN Ok(S)
  ELSE IF S.R[r].t # 0 /\ S.R[r].lk THEN Exc(S)
  ELSE LET o == S.R[q] IN Ok(CopyRef(Detach(S,Reg(r)),Reg(r),o,f,d))
Xfer(S,r,q,f,d) ==
  IF r = q THEN Ok(S)
  ELSE IF S.R[r].t # 0 /\ S.R[r].lk THEN Exc(S)
  ELSE LET S1 == Detach(S,Reg(r))
           o == S.R[q]
       IN IF o.t = 0 THEN Ok(S1)
          ELSE IF o.lk THEN Exc(S1)
          ELSE LET n == [t |-> o.t, lk |-> "L" \in f, w |-> o.w,
                         sh |-> IF "S" \in f THEN TRUE ELSE IF "C" \in f THEN FALSE ELSE o.sh]
                   S2 == Put(Put(S1,Reg(q),NoRef),Reg(r),n)
               IN Ok(IF "D" \in f \/ d > 0 THEN Privatize(Put(S2,Reg(r),[n EXCEPT !.lk = FALSE]),Reg(r),f,d) ELSE S2)
\* attach to an object that exists
Attach(S,r,o,f) ==
  IF S.R[r].t = o THEN Ok(S)
  ELSE IF S.R[r].t # 0 /\ S.R[r].lk THEN Exc(S)
  ELSE LET S1 == Detach(S,Reg(r))
           fresh == Refs(S1,o) = 0
           auto == fresh /\ Ownership(f) = "auto"
           f1 == IF auto THEN f \ {"R"} ELSE f
           S2 == IF auto THEN CloneObj(S1,o,f \cap {"D"},0)
                 ELSE IF fresh THEN [S1 EXCEPT !.O[o].anon = Ownership(f) # "ext"]
                 ELSE S1
           t == IF auto THEN S1.next ELSE o
       IN Ok(Put(S2,Reg(r),[t |-> t, lk |-> "L" \in f, w |-> S2.O[t].anon \/ "R" \notin f1, sh |-> "S" \in f]))
New(S,r,v,f) ==
  LET id == S.next
      S1 == [S EXCEPT !.next = Free(S.O,id+1)]
  IN IF S.R[r].t # 0 /\ S.R[r].lk THEN Exc(S1)
     ELSE Attach([S1 EXCEPT !.O = (id :> [val |-> v, anon |-> FALSE, ch |-> NoRef]) @@ @],r,id,f)
\* write access through the reference in place p
Wr(S,p) == IF Direct(S,Get(S,p)) THEN S ELSE Privatize(S,p,{},0)
Write(S,r,v) ==
  IF S.R[r].t = 0 THEN Exc(S)
  ELSE LET S1 == Wr(S,Reg(r)) IN Ok([S1 EXCEPT !.O[S1.R[r].t].val = v])
SetChild(S,r,q,f) ==
  IF S.R[r].t = 0 THEN Exc(S)
  ELSE LET S1 == Wr(S,Reg(r))
           p == Child(S1.R[r].t)
       IN Ok(CopyRef(Detach(S1,p),p,S1.R[q],f,0))
ClearChild(S,r) ==
  IF S.R[r].t = 0 THEN Exc(S) ELSE LET S1 == Wr(S,Reg(r)) IN Ok(Detach(S1,Child(S1.R[r].t)))
\* r # q
GetChild(S,r,q) ==
  IF S.R[q].t = 0 THEN Exc(S)
  ELSE IF S.R[r].t # 0 /\ S.R[r].lk THEN Exc(S)
  ELSE LET c == S.O[S.R[q].t].ch IN Ok(CopyRef(Detach(S,Reg(r)),Reg(r),c,{},0))
WriteChild(S,r,v) ==
  IF S.R[r].t = 0 THEN Exc(S)
  ELSE LET S1 == Wr(S,Reg(r))
           o == S1.R[r].t
       IN IF S1.O[o].ch.t = 0 THEN Exc(S1)
          ELSE LET S2 == Wr(S1,Child(o)) IN Ok([S2 EXCEPT !.O[S2.O[o].ch.t].val = v])
Change(S,r,f) ==
  IF S.R[r].t = 0 THEN Exc(S)
  ELSE Ok([S EXCEPT !.R[r] = [@ EXCEPT !.lk = IF "L" \in f THEN TRUE ELSE IF "U" \in f THEN FALSE ELSE @,
                                       !.w = @ /\ "R" \notin f,
                                       !.sh = IF "S" \in f THEN TRUE ELSE IF "C" \in f THEN FALSE ELSE @]])
Lock(S,r,x) == Ok(IF S.R[r].t = 0 THEN S ELSE [S EXCEPT !.R[r].lk = x])
DetachReg(S,r) == IF S.R[r].t # 0 /\ S.R[r].lk THEN Exc(S) ELSE Ok(Detach(S,Reg(r)))
Priv(S,r,f,d) == IF S.R[r].t = 0 THEN Exc(S) ELSE Ok(Privatize(S,Reg(r),f,d))

\* what a holder sees: the values down the chain of children
RECURSIVE Chain(_,_,_)
Chain(S,id,n) == IF id = 0 \/ n = 0 THEN <<>> ELSE <<S.O[id].val>> \o Chain(S,S.O[id].ch.t,n-1)
View(S,r) == Chain(S,S.R[r].t,6)
RECURSIVE Reach(_,_)
Reach(S,id) == IF id = 0 THEN {} ELSE {id} \cup Reach(S,S.O[id].ch.t)
Start(nr,ext,leak) == [R |-> [k \in 1..nr |-> NoRef], O |-> [k \in ext |-> [val |-> 99+k, anon |-> FALSE, ch |-> NoRef]],
                  next |-> Cardinality(ext)+1, leak |-> leak, lost |-> {}]
=============================================================================
