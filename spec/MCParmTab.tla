------------------------------- MODULE MCParmTab -------------------------------
(* the table with its files: the list of domains goes through a stream's buffer, which reaches the file in
   any portions (here halves of entries); the funklets are in a mapped database, found broken if the process died
   after the database had grown since it was last flushed.  G: what was stored, by name and domain *)
EXTENDS ParmTab
CONSTANTS DEPTH, TRIM
VARIABLES T, file, buf, grown, broken, mode, G, n
vars == <<T,file,buf,grown,broken,mode,G,n>>
D1 == {<<0,0,2>>}
D2 == {<<0,1,3>>,<<1,0,1>>}
D3 == {<<1,1,2>>}
Doms == {D1,D2,D3}
Names == {"a","b"}
Vals == {"c1","p12"}
Garbage == {<<9,0,1>>}
Halves(d) == <<<<d,1>>,<<d,2>>>>
Decode(f) == [k \in 1..(Len(f) \div 2) |-> IF f[2*k-1][1] = f[2*k][1] /\ f[2*k-1][2] = 1 /\ f[2*k][2] = 2 THEN f[2*k][1] ELSE Garbage]
Whole(f) == SubSeq(f,1,2*(Len(f) \div 2))
Init == T = NoTab /\ file = <<>> /\ buf = <<>> /\ grown = FALSE /\ broken = FALSE /\ mode = "none" /\ G = <<>> /\ n = 0
Step == n < DEPTH /\ n' = n+1
Open(w) == /\ mode = "none" /\ Step /\ mode' = IF w THEN "w" ELSE "r"
           /\ T' = [dom |-> Decode(file), fk |-> IF broken THEN <<>> ELSE T.fk]
           /\ G' = IF broken THEN <<>> ELSE G
           /\ file' = IF w /\ TRIM THEN Whole(file) ELSE file
           /\ broken' = FALSE /\ grown' = FALSE /\ UNCHANGED buf
F0 == IF mode = "r" /\ TRIM THEN Whole(file) ELSE file        \* reopened for writing
PutC(p,v,d) == LET r == Put(T,p,v,d,-1) IN
   /\ mode # "none" /\ Step /\ mode' = "w" /\ file' = F0 /\ T' = r.T
   /\ buf' = IF Len(r.T.dom) > Len(T.dom) THEN buf \o Halves(d) ELSE buf
   /\ grown' = (grown \/ ~Has(T,p,r.id))
   /\ G' = (<<p,d>> :> v) @@ G /\ UNCHANGED broken
Del(p,k) == /\ mode # "none" /\ Has(T,p,k) /\ Step /\ mode' = "w" /\ file' = F0
            /\ T' = Delete(T,p,k) /\ G' = Without(G,{<<p,T.dom[k+1]>>}) /\ UNCHANGED <<buf,grown,broken>>
Spill == /\ buf # <<>> /\ file' = Append(file,Head(buf)) /\ buf' = Tail(buf) /\ UNCHANGED <<T,grown,broken,mode,G,n>>
Sync == file' = F0 \o buf /\ buf' = <<>> /\ grown' = FALSE
Flush == mode # "none" /\ Step /\ mode' = "w" /\ Sync /\ UNCHANGED <<T,broken,G>>
Close == mode # "none" /\ Step /\ mode' = "none" /\ file' = file \o buf /\ buf' = <<>> /\ grown' = FALSE /\ UNCHANGED <<T,broken,G>>
Die == mode # "none" /\ Step /\ mode' = "none" /\ buf' = <<>> /\ broken' = grown /\ grown' = FALSE /\ UNCHANGED <<T,file,G>>
Next == \/ \E w \in BOOLEAN : Open(w)
        \/ \E p \in Names, v \in Vals, d \in Doms : PutC(p,v,d)
        \/ \E p \in Names, k \in 0..2 : Del(p,k)
        \/ Spill \/ Flush \/ Close \/ Die
Spec == Init /\ [][Next]_vars
ByDomain == {<<k[1],T.dom[k[2]+1],T.fk[k].v>> : k \in Keys(T)}
Indexed == mode # "none" => \A k \in Keys(T) : k[2] < Len(T.dom)
Kept == mode # "none" => ByDomain = {<<k[1],k[2],G[k]>> : k \in DOMAIN G}
Unique == mode # "none" => Cardinality(SetOf(T.dom)) = Len(T.dom) /\ Garbage \notin SetOf(T.dom)
Searched == mode # "none" => \A p \in Names, d \in Doms :
   LET F == Found(T,p,d) IN
   /\ {T.dom[F[k]+1] : k \in DOMAIN F} = {e \in Doms : <<p,e>> \in DOMAIN G /\ \A x \in d, y \in e : x[1] = y[1] => ~(x[3] <= y[2] \/ y[3] <= x[2])}
   /\ \A j,k \in DOMAIN F : j < k => F[j] < F[k]
=============================================================================
