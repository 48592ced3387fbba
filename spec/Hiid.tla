--------------------------------- MODULE Hiid ---------------------------------
(* Hierarchical identifiers (DMI/HIID): sequences of atoms.  An atom is a number:
     n >= 0  the index n          -1 ?   -2 *   -3 /   -4 :   -5 empty   -6 #
     -10-k   the k-th name        -100-x the literal of number x
   "?" stands for any one atom, "*" for any number of atoms up to the end (what
   follows it is ignored).  Matching is defined by the words an identifier stands for. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ANY == -1   WILD == -2   SLASH == -3   RANGE == -4   EMPTYA == -5   HASH == -6
IsSep(a) == a = SLASH \/ a = RANGE

(* ---- meaning of wildcards ---- *)
Words(L,n) == UNION {[1..k -> L] : k \in 0..n}
\* w is one of the words h stands for
RECURSIVE StandsFor(_,_)
StandsFor(h,w) ==
  IF h = <<>> THEN w = <<>>
  ELSE IF h[1] = WILD THEN TRUE
  ELSE w # <<>> /\ (h[1] = ANY \/ h[1] = w[1]) /\ StandsFor(Tail(h),Tail(w))
Meaning(h,W) == {w \in W : StandsFor(h,w)}

(* ---- the operations ---- *)
Min2(a,b) == IF a < b THEN a ELSE b
PopFront(h,n) == SubSeq(h,n+1,Len(h))
PushFront(h,a,n) == [k \in 1..n |-> a] \o h
\* positions count from 0; negative ones from the end
SubId(h,a,b) ==
  LET n == Len(h)
      f == IF a >= 0 THEN a ELSE n+a
      l == IF b >= 0 THEN b ELSE n+b
  IN SubSeq(h,f+1,l+1)
FirstSlash(h) ==
  LET P == {k \in 1..Len(h) : h[k] = SLASH}
  IN IF P = {} THEN -1 ELSE (CHOOSE k \in P : \A j \in P : k <= j)-1
LeadSlashes(h) == LET P == {k \in 1..Len(h) : h[k] # SLASH}
                  IN IF P = {} THEN Len(h) ELSE (CHOOSE k \in P : \A j \in P : k <= j)-1
\* what is split off, and what is left
Split(h) == LET p == FirstSlash(h) IN IF p < 0 THEN [sub |-> h, rest |-> <<>>]
                                      ELSE [sub |-> SubSeq(h,1,p), rest |-> SubSeq(h,p+2,Len(h))]

(* ---- text form: pieces are atoms or DOT, a plain separator ---- *)
DOT == -1000
SepTok(s) == IF s = DOT THEN <<>> ELSE <<s>>
IsSepPiece(s) == s = DOT \/ IsSep(s)
RECURSIVE ParseFrom(_)
ParseFrom(p) ==
  IF p = <<>> THEN <<EMPTYA>>
  ELSE IF IsSepPiece(p[1]) THEN <<EMPTYA>> \o SepTok(p[1]) \o ParseFrom(Tail(p))
  ELSE IF Len(p) = 1 THEN <<p[1]>>
  ELSE <<p[1]>> \o SepTok(p[2]) \o ParseFrom(SubSeq(p,3,Len(p)))
Parse(p) == IF p = <<>> THEN <<>> ELSE ParseFrom(p)

RECURSIVE PiecesFrom(_,_)
PiecesFrom(h,sep) ==
  IF h = <<>> THEN <<>>
  ELSE (IF sep \/ IsSep(h[1]) THEN <<>> ELSE <<DOT>>) \o <<h[1]>> \o PiecesFrom(Tail(h),IsSep(h[1]))
Pieces(h) == PiecesFrom(h,TRUE)

RECURSIVE LitTail(_,_)
LitTail(k,x) == IF k >= x THEN "" ELSE (CASE k % 3 = 0 -> "p" [] k % 3 = 1 -> "q" [] OTHER -> "r") \o LitTail(k+1,x)
AtomText(a,names) ==
  CASE a >= 0 -> ToString(a) [] a = ANY -> "?" [] a = WILD -> "*" [] a = SLASH -> "/" [] a = RANGE -> ":"
    [] a = EMPTYA -> "_" [] a = HASH -> "#" [] a <= -100 -> "$lit" \o LitTail(0,-100-a) [] OTHER -> names[-9-a]
RECURSIVE Concat(_,_,_)
Concat(p,dot,names) == IF p = <<>> THEN "" ELSE (IF p[1] = DOT THEN dot ELSE AtomText(p[1],names)) \o Concat(Tail(p),dot,names)
Text(h,dot,names) == IF h = <<>> THEN "(null)" ELSE Concat(Pieces(h),dot,names)

\* bytes in the packed form: a literal takes a marker and its characters, four to an atom
RECURSIVE Size(_)
Size(h) == IF h = <<>> THEN 0 ELSE (IF h[1] <= -100 THEN 1+((3-100-h[1]+3) \div 4) ELSE 1)+Size(Tail(h))

\* an identifier that prints and reads back as itself
Printable(h) ==
  /\ h # <<>>
  /\ \A k \in 1..Len(h) : h[k] # EMPTYA
  /\ ~IsSep(h[1]) /\ ~IsSep(h[Len(h)])
  /\ \A k \in 1..Len(h)-1 : ~(IsSep(h[k]) /\ IsSep(h[k+1]))

\* matching and inclusion, position by position (MCHiid: equal to the meaning)
RECURSIVE CodeMatches(_,_)
CodeMatches(a,b) ==
  IF a = <<>> \/ b = <<>> THEN (a = <<>> \/ a[1] = WILD) /\ (b = <<>> \/ b[1] = WILD)
  ELSE IF a[1] = WILD \/ b[1] = WILD THEN TRUE
  ELSE (a[1] = b[1] \/ a[1] = ANY \/ b[1] = ANY) /\ CodeMatches(Tail(a),Tail(b))
RECURSIVE CodeSubset(_,_)
CodeSubset(a,b) ==
  IF a = <<>> \/ b = <<>> THEN a = <<>> /\ (b = <<>> \/ b[1] = WILD)
  ELSE IF b[1] = WILD THEN TRUE
  ELSE a[1] # WILD /\ (a[1] = b[1] \/ b[1] = ANY) /\ CodeSubset(Tail(a),Tail(b))
=============================================================================
