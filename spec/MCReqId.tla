--------------------------------- MODULE MCReqId ---------------------------------
(* The algebra of request ids over all small ids and masks, and what it means for a cached result: a result cached
   under id a with depend mask m is taken for request b if Same(a,b,m), and it should be exactly if none of the
   symbolic dependencies it has was moved in between. *)
EXTENDS ReqId, TLC
CONSTANTS LEN, VAL, BITS, STEPS
Ids == UNION {[1..n -> 0..VAL] : n \in 0..LEN}
Masks == SUBSET (0..BITS)
VARIABLES mode, a, b, c, m, cnt, hist
vars == <<mode,a,b,c,m,cnt,hist>>
Deps == DOMAIN Symdeps
Init == \/ /\ mode = "algebra" /\ a \in Ids /\ b \in Ids /\ c \in Ids /\ m \in Masks /\ cnt = NoCounts /\ hist = <<>>
        \/ /\ mode = "run" /\ a = <<0>> /\ b = <<>> /\ c = <<>> /\ m = {} /\ cnt = NoCounts
           /\ hist = << [id |-> <<0>>, moved |-> {}] >>
Next == /\ mode = "run" /\ Len(hist) <= STEPS
        /\ \E d \in {"Iteration","State","Domain"} :
             LET r == Bump(hist[Len(hist)].id,cnt,<<d>>) IN
             /\ cnt' = r.cnt
             /\ hist' = Append(hist,[id |-> r.id, moved |-> {d}])
        /\ UNCHANGED <<mode,a,b,c,m>>
Spec == Init /\ [][Next]_vars
Moved(i,j) == UNION {hist[k].moved : k \in i+1..j}
MaskOf(D) == UNION {Symdeps[d] : d \in D}

Symmetric == Same(a,b,m) = Same(b,a,m) /\ Diff(a,b) = Diff(b,a)
Reflexive == a # <<>> => Same(a,a,m)
Transitive == Same(a,b,m) /\ Same(b,c,m) => Same(a,c,m)
ByDiff == a # <<>> /\ b # <<>> => (Same(a,b,m) <=> Diff(a,b) \cap m = {})
Monotone == \A k \in m : Same(a,b,m) => Same(a,b,m \ {k})
MaskKeeps == a # <<>> => Same(Masked(a,m),a,m)
MaskIdem == m # {} => Masked(Masked(a,m),m) = Masked(a,m)
IncrMoves == m # {} => Diff(a,Incr(a,m)) = Eff(m)
PutSets == \A p \in Eff(m) : At(Put(a,m,7),p) = 7
PutOnly == Diff(a,Put(a,m,7)) \subseteq m
(* a cached result is good for a later request exactly as long as nothing it depends on was moved *)
CacheSound == mode = "run" => \A i \in DOMAIN hist, j \in DOMAIN hist : i < j =>
                \A D \in SUBSET {"Iteration","State","Domain"} :
                  Same(hist[i].id,hist[j].id,MaskOf(D)) <=> Moved(i,j) \cap D = {}
=============================================================================
