------------------------------ MODULE Cells ------------------------------
(* Sampling grids. A grid holds, for some of the axes, a row of cells, each with a centre and a size, and a domain: *)
(* for some of the axes an interval. All numbers are in fixed point. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SetOf(q) == {q[k] : k \in DOMAIN q}
MIN2(x,y) == IF x < y THEN x ELSE y
MAX2(x,y) == IF x > y THEN x ELSE y
(* domains: functions from axes to <<start,end>> *)
NoDom == <<>>
Interval(x,y) == IF x <= y THEN <<x,y>> ELSE <<y,x>>
(* what an axis that is not defined reads as *)
At(d,a) == IF a \in DOMAIN d THEN d[a] ELSE <<0,0>>
Envelope(d,e) == [a \in DOMAIN d \cup DOMAIN e |->
   IF a \notin DOMAIN e THEN d[a] ELSE IF a \notin DOMAIN d THEN e[a] ELSE <<MIN2(d[a][1],e[a][1]),MAX2(d[a][2],e[a][2])>>]
Covers(d,e) == \A a \in DOMAIN d : a \in DOMAIN e /\ d[a][1] <= e[a][1] /\ d[a][2] >= e[a][2]
(* rows of cells: sequences of <<centre,size>> *)
Low(c) == c[1]-(c[2] \div 2)
High(c) == c[1]+(c[2] \div 2)
Row(cs,hs) == [k \in DOMAIN cs |-> <<cs[k],hs[k]>>]
Regular(x,y,n,h) == LET st == (y-x) \div n IN [k \in 1..n |-> <<x+(st \div 2)+st*(k-1),IF h < 0 THEN st ELSE h>>]
Enumerated(n,one) == [k \in 1..n |-> <<(k-1)*one,0>>]
(* uniform: one size, one step *)
Uniform(row,i,j) == /\ \A k \in i..j : row[k][2] = row[i][2]
                    /\ \A k \in (i+2)..j : row[k][1]-row[k-1][1] = row[i+1][1]-row[i][1]
Longest(row,i) == CHOOSE j \in i..Len(row) : Uniform(row,i,j) /\ (j = Len(row) \/ ~Uniform(row,i,j+1))
RECURSIVE From(_,_)
From(row,i) == IF i > Len(row) THEN <<>> ELSE LET j == Longest(row,i) IN <<<<i-1,j-1>>>> \o From(row,j+1)
(* the segments: each goes on for as long as the row is uniform *)
Segments(row) == From(row,1)
(* several cells made one, one cell made several *)
Merged(row,k) == [m \in 1..(Len(row) \div k) |-> LET a == Low(row[(m-1)*k+1]) b == High(row[m*k]) IN <<(a+b) \div 2,b-a>>]
Split(row,k) == [m \in 1..(Len(row)*k) |-> LET c == row[((m-1) \div k)+1] s == c[2] \div k IN <<Low(c)+(s \div 2)+s*((m-1) % k),s>>]
Resampled(row,op,k) ==
  LET n == Len(row) IN
  CASE op = "int" -> Merged(row,k) [] op = "up" -> Split(row,k)
    [] op = "n" /\ k > n -> Split(row,k \div n) [] op = "n" /\ k < n -> Merged(row,n \div k) [] OTHER -> row
(* can the number of cells be had by merging or splitting alone *)
CanMake(n,k) == k >= 1 /\ (k % n = 0 \/ n % k = 0)
(* grids: [has: is there a domain, dom, ax: from axes to rows] *)
NoCells == [has |-> FALSE, dom |-> NoDom, ax |-> <<>>]
Extent(g) == [a \in DOMAIN g.ax |-> Interval(Low(g.ax[a][1]),High(g.ax[a][Len(g.ax[a])]))]
N(g,a) == IF a \in DOMAIN g.ax THEN Len(g.ax[a]) ELSE 0
Same(g,h) == (g.has <=> h.has) /\ (g.has => g.dom = h.dom /\ \A a \in 0..7 : N(g,a) = N(h,a))
Compare(g,h) == IF ~g.has /\ ~h.has THEN 0 ELSE IF g.has # h.has \/ g.dom # h.dom THEN -1
                ELSE IF \A a \in 0..7 : N(g,a) = N(h,a) THEN 0 ELSE 1
Equal(g,h) == Compare(g,h) = 0 /\ g.ax = h.ax
(* do two grids go together: axes that both have have as many cells over the same interval *)
Agree(g,h) == \A a \in DOMAIN g.ax \cap DOMAIN h.ax : N(g,a) = N(h,a) /\ At(g.dom,a) = At(h.dom,a)
(* the grid with all axes of both; <<>> if they do not go together *)
Superset(g,h) ==
  IF ~g.has THEN <<h>> ELSE IF ~h.has THEN <<g>>
  ELSE IF ~Agree(g,h) THEN <<>>
  ELSE IF DOMAIN h.ax \subseteq DOMAIN g.ax THEN <<g>>
  ELSE IF DOMAIN g.ax \subseteq DOMAIN h.ax THEN <<h>>
  ELSE LET x == [has |-> TRUE, dom |-> NoDom, ax |-> g.ax @@ h.ax] IN <<[x EXCEPT !.dom = Extent(x)]>>
WithRow(g,a,row) == [g EXCEPT !.ax = (a :> row) @@ @]
=============================================================================
