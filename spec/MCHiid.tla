-------------------------------- MODULE MCHiid --------------------------------
(* Every identifier up to a length, built by every sequence of operations: the
   laws the operations obey. *)
EXTENDS Hiid
CONSTANTS MAXLEN
ATOMS == {5,-10,ANY,WILD,SLASH}
VARIABLES h, g
vars == <<h,g>>
Bounded(x) == Len(x) <= MAXLEN
Init == h = <<>> /\ g = <<>>
Next ==
  \/ \E a \in ATOMS : Len(h) < MAXLEN /\ h' = Append(h,a) /\ UNCHANGED g
  \/ \E a \in ATOMS : Len(h) < MAXLEN /\ h' = PushFront(h,a,1) /\ UNCHANGED g
  \/ Bounded(h \o g) /\ h' = h \o g /\ UNCHANGED g
  \/ h' = Split(h).rest /\ g' = Split(h).sub
  \/ \E n \in 0..Len(h) : h' = PopFront(h,n) /\ UNCHANGED g
  \/ h' = g /\ g' = h
  \/ \E a, b \in -Len(h)..Len(h)-1 : h # <<>> /\ h' = SubId(h,a,b) /\ UNCHANGED g
Spec == Init /\ [][Next]_vars
L == (ATOMS \ {ANY,WILD}) \cup {-15}
W == Words(L,MAXLEN+1)
Mh == Meaning(h,W)  Mg == Meaning(g,W)
Sound == /\ CodeMatches(h,g) <=> (Mh \cap Mg # {})
         /\ CodeSubset(h,g) <=> (Mh \subseteq Mg)
         /\ CodeMatches(h,Append(g,WILD)) <=> (\E w \in W : \E k \in 0..Len(w) : StandsFor(h,w) /\ StandsFor(g,SubSeq(w,1,k)))
ReadBack == Printable(h) => Parse(Pieces(h)) = h
Rejoin == FirstSlash(h) >= 0 => Split(h).sub \o <<SLASH>> \o Split(h).rest = h
SubIds == /\ h # <<>> => SubId(h,0,-1) = h /\ SubId(h,-1,-1) = <<h[Len(h)]>>
          /\ \A k \in 1..Len(h)-1 : SubId(h,0,k-1) \o SubId(h,k,-1) = h /\ SubId(h,-k,-1) = SubId(h,Len(h)-k,Len(h)-1)
=============================================================================
