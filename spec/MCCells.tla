------------------------------ MODULE MCCells ------------------------------
(* grids over two axes, every row of up to LEN cells with steps and sizes of two kinds, and every triple of grids with some rows *)
EXTENDS Cells
CONSTANTS LEN, FULL
VARIABLES row, g, h, k
Steps == {16,32}
RECURSIVE Rows(_)
Rows(n) == IF n = 1 THEN {<<<<32,s>>>> : s \in Steps} ELSE {Append(r,<<r[n-1][1]+d,s>>) : r \in Rows(n-1), d \in Steps, s \in Steps}
AllRows == UNION {Rows(n) : n \in 1..LEN}
Some == {<<>>,Regular(0,16,1,-1),Regular(0,16,2,-1),<<<<2,4>>,<<10,12>>>>,Regular(0,24,2,-1)} \cup IF FULL THEN {Regular(0,16,4,-1)} ELSE {}
Grid(a,b) == LET x == [has |-> TRUE, dom |-> NoDom, ax |-> (IF a = <<>> THEN <<>> ELSE (0 :> a)) @@ (IF b = <<>> THEN <<>> ELSE (1 :> b))] IN [x EXCEPT !.dom = Extent(x)]
Grids == {Grid(a,b) : a,b \in Some} \cup {NoCells}
Init == \/ row \in AllRows /\ g = NoCells /\ h = NoCells /\ k = NoCells
        \/ row = <<>> /\ g \in Grids /\ h \in Grids /\ k \in Grids
Spec == Init /\ [][UNCHANGED <<row,g,h,k>>]_<<row,g,h,k>>
(* the segments follow one another, cover the row, are uniform, and no two neighbours could be one *)
Segmented == row # <<>> =>
  LET s == Segments(row) IN
  /\ s[1][1] = 0 /\ s[Len(s)][2] = Len(row)-1
  /\ \A j \in 1..Len(s) : Uniform(row,s[j][1]+1,s[j][2]+1)
  /\ \A j \in 1..Len(s)-1 : s[j+1][1] = s[j][2]+1 /\ ~Uniform(row,s[j][1]+1,s[j+1][2]+1) /\ ~Uniform(row,s[j][1]+1,s[j][2]+2)
  \* no other division into uniform parts has fewer
  /\ \A n \in 1..Len(s)-1 : \A c \in [1..n -> 1..Len(row)] :
       ~(c[n] = Len(row) /\ (\A j \in 1..n-1 : c[j] < c[j+1]) /\ \A j \in 1..n : Uniform(row,IF j = 1 THEN 1 ELSE c[j-1]+1,c[j]))
(* splitting cells and merging the parts gives the cells back; both keep the interval covered, leave no gap that was not there *)
SplitMerge == row # <<>> =>
  /\ \A m \in {1,2,4} : LET q == Split(row,m) IN Merged(q,m) = row /\ Low(q[1]) = Low(row[1]) /\ High(q[Len(q)]) = High(row[Len(row)])
                        /\ \A j \in 1..Len(q)-1 : j % m # 0 => High(q[j]) = Low(q[j+1])
  /\ \A m \in 1..Len(row) : Len(row) % m = 0 => LET q == Merged(row,m) IN Low(q[1]) = Low(row[1]) /\ High(q[Len(q)]) = High(row[Len(row)])
(* comparing is an equivalence for equality; the superset is a join *)
One(s) == IF s = <<>> THEN NoCells ELSE s[1]
Compared == row = <<>> =>
  /\ Compare(g,g) = 0 /\ Equal(g,g) /\ Compare(g,h) = Compare(h,g)
  /\ (Compare(g,h) = 0 /\ Compare(h,k) = 0 => Compare(g,k) = 0) /\ (Equal(g,h) => Compare(g,h) = 0) /\ (Equal(g,h) <=> g = h)
Joined == row = <<>> =>
  LET s == Superset(g,h) t == Superset(h,g) IN
  /\ (s = <<>>) <=> (t = <<>>)
  /\ Superset(g,g) = <<g>>
  /\ (s # <<>> => /\ DOMAIN s[1].ax = DOMAIN g.ax \cup DOMAIN h.ax
                  /\ s[1].dom = t[1].dom /\ Compare(s[1],t[1]) = 0
                  /\ s[1].dom = Envelope(g.dom,h.dom)
                  /\ Covers(g.dom,s[1].dom) = (\A a \in DOMAIN g.dom : s[1].dom[a] = g.dom[a])
                  /\ \A a \in DOMAIN s[1].ax : s[1].ax[a] \in ({g.ax[b] : b \in DOMAIN g.ax \cap {a}} \cup {h.ax[b] : b \in DOMAIN h.ax \cap {a}}))
  \* grouping does not matter, where all go together
  /\ (s # <<>> /\ Superset(h,k) # <<>> =>
        LET x == Superset(s[1],k) y == Superset(g,One(Superset(h,k))) IN (x = <<>> <=> y = <<>>) /\ (x # <<>> => Compare(x[1],y[1]) = 0))
Enveloped == row = <<>> =>
  LET e == Envelope(g.dom,h.dom) IN
  /\ e = Envelope(h.dom,g.dom) /\ Envelope(g.dom,g.dom) = g.dom
  /\ \A a \in DOMAIN g.dom : e[a][1] <= g.dom[a][1] /\ e[a][2] >= g.dom[a][2]
  /\ Envelope(e,k.dom) = Envelope(g.dom,Envelope(h.dom,k.dom))
  /\ (Covers(k.dom,g.dom) /\ Covers(k.dom,h.dom) => Covers(k.dom,e))
=============================================================================
