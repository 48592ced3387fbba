--------------------------------- MODULE MCCow ---------------------------------
(* Every history of a few references and objects. *)
EXTENDS Cow
CONSTANTS NREG, NOBJ, KINDS
EXT == {1}
VARIABLES S, last
vars == <<S,last>>
State == S
Regs == 1..NREG
\* object numbers are reused, so that the space is finite
Canon(X) == [X EXCEPT !.next = CHOOSE n \in 1..NOBJ+3 : n \notin DOMAIN X.O /\ \A m \in 1..n-1 : m \in DOMAIN X.O]
Step(op,r,a) == /\ a.err = "" \/ a.S # S
                /\ Cardinality(DOMAIN a.S.O) <= NOBJ+1
                /\ S' = Canon(a.S) /\ last' = [op |-> op, r |-> r]
Init == S = Start(NREG,EXT,FALSE) /\ last = [op |-> "none", r |-> 1]
Next == \E r \in Regs :
  \/ \E f \in {{}} \cup (IF "s" \in KINDS THEN {{"S"}} ELSE {}) : Step("new",r,New(S,r,0,f))
  \/ "x" \in KINDS /\ \E f \in {{"E"},{"E","R"},{"A"}} : Step("ext",r,Attach(S,r,1,f))
  \/ \E q \in Regs : \/ \E f \in {{},{"C"}} : Step("copy",r,Copy(S,r,q,f,0))
                     \/ Step("deep",r,Copy(S,r,q,{"D"},0))
                     \/ Step("xfer",r,Xfer(S,r,q,{},0))
                     \/ q # r /\ (S.R[r].t = 0 \/ S.R[r].t \notin Reach(S,S.R[q].t)) /\ "c" \in KINDS /\ Step("setc",r,SetChild(S,r,q,{}))
                     \/ q # r /\ "c" \in KINDS /\ Step("getc",r,GetChild(S,r,q))
  \/ Step("detach",r,DetachReg(S,r))
  \/ \E v \in {1} : Step("write",r,Write(S,r,v))
  \/ "c" \in KINDS /\ Step("writec",r,WriteChild(S,r,1))
  \/ "l" \in KINDS /\ \E x \in BOOLEAN : Step("lock",r,Lock(S,r,x))
  \/ \E f \in {{"R"}} \cup (IF "s" \in KINDS THEN {{"S"},{"C"}} ELSE {}) : Step("change",r,Change(S,r,f))
  \/ Step("priv",r,Priv(S,r,{},0))
Spec == Init /\ [][Next]_vars

\* ---- what users rely on ----
NoDangling == /\ \A r \in Regs : S.R[r].t # 0 => S.R[r].t \in DOMAIN S.O
              /\ \A o \in DOMAIN S.O : S.O[o].ch.t # 0 => S.O[o].ch.t \in DOMAIN S.O
NoLeak == \A o \in DOMAIN S.O : S.O[o].anon => Refs(S,o) > 0
\* nobody but those who asked for shared writes sees a write made by another
Shares(X,r) == X.R[r].sh \/ (\E o \in Reach(X,X.R[r].t) : X.O[o].ch.sh)
Isolated == [][ \A r, q \in Regs :
                  last'.op \in {"write","writec","setc","priv","deep","change"} /\ last'.r = r /\ q # r
                  => View(S',q) = View(S,q) \/ Shares(S,r) ]_vars
\* the writer sees what was written, and a plain copy sees the same as its source
Seen == [][ last'.op = "write" /\ S'.R[last'.r].t # 0 => View(S',last'.r)[1] = 1 ]_vars
Kept == [][ \A q \in Regs : last'.op \in {"copy","deep","xfer","detach","new","ext","getc","lock"} /\ last'.r # q
             => View(S',q) = View(S,q) \/ (last'.op = "xfer" /\ S'.R[q].t = 0 /\ View(S',last'.r) = View(S,q)) ]_vars
=============================================================================
