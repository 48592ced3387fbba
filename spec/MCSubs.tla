-------------------------------- MODULE MCSubs --------------------------------
(* A work process's list of subscriptions drops those another one covers; what it wants
   to hear stays exactly the union of what it asked for. *)
EXTENDS Octopussy
CONSTANTS MAXSUBS
A == -10  B == -11
Masks == {<<A>>,<<A,B>>,<<A,-1>>,<<-1,B>>,<<A,-2>>,<<-2>>,<<-1,-2>>,<<A,B,-2>>,<<-1>>}
Scopes == {<<-1,-1,-1,-1>>,<<-10,-1,5,6>>,<<-1,-1,5,6>>,<<-1,-1,-1,6>>}
Ids == {<<A>>,<<B>>,<<A,A>>,<<A,B>>,<<B,B>>,<<A,B,A>>,<<B,B,B>>}
Froms == {<<-10,0,5,6>>,<<-11,1,5,6>>,<<-10,1,7,6>>,<<-10,0,5,8>>}
Msgs == {[id |-> i, from |-> f] : i \in Ids, f \in Froms}
VARIABLES subs, asked
vars == <<subs,asked>>
Init == subs = <<>> /\ asked = {}
Hears(X,m) == \E s \in X : H!StandsFor(s[1],m.id) /\ H!StandsFor(s[2],m.from)
Next == \/ \E m \in Masks, s \in Scopes : Cardinality(asked) < MAXSUBS /\ subs' = SubAdd(subs,1,m,s).subs /\ asked' = asked \cup {<<m,s>>}
        \/ \E m \in Masks : subs' = SubRemove(subs,m).subs
             /\ asked' = {a \in asked : a \in Set(subs') \/ ~H!CodeSubset(a[1],m)}
Spec == Init /\ [][Next]_vars
Exact == \A m \in Msgs : Wants(subs,m) <=> \E a \in Set(subs) : H!StandsFor(a[1],m.id) /\ H!StandsFor(a[2],m.from)
Unions == [][Cardinality(asked') > Cardinality(asked) =>
              \A m \in Msgs : Wants(subs',m) <=> Wants(subs,m) \/ \E a \in asked' \ asked : H!StandsFor(a[1],m.id) /\ H!StandsFor(a[2],m.from)]_vars
Told == [][\A m \in Masks, s \in Scopes : (~SubAdd(subs,1,m,s).changed) => SubAdd(subs,1,m,s).subs = subs]_vars
=============================================================================
