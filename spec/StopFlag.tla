-------------------------------- MODULE StopFlag --------------------------------
(* Several threads executing nodes, breakpoints, continuation and abort (Node::setExecState, Forest::processBreakpoint,
   waitOnStopFlag, clearStopFlag, raiseAbortFlag; the user's part is that of MeqServer: debugContinue, executeAbort).
   Each thread goes through a number of boundaries; at some of them (BP) it has a breakpoint. Every step below is what
   the code does without letting go of a lock or between two unlocked reads.
   HEED: threads look at the stop flag at every boundary. LOCKED: the abort flag is raised and checked under the lock. *)
EXTENDS Integers, FiniteSets
CONSTANTS NT, NB, BPS, HEED, LOCKED
Threads == 1..NT
VARIABLES pc, pos, stop, abort, passed, user, bp
vars == <<pc,pos,stop,abort,passed,user,bp>>
(* pc: "run" before boundary pos+1; "hit" has decided to stop at a breakpoint; "told" has raised the flag and reported;
   "wait" waits for the flag to go; "pass" has decided to go on; "end" *)
Init == /\ pc = [t \in Threads |-> "run"] /\ pos = [t \in Threads |-> 0]
        /\ stop = FALSE /\ abort = FALSE /\ passed = [t \in Threads |-> 0] /\ user = "idle"
        /\ bp \in [Threads -> SUBSET BPS]
AtBp(t) == pos[t]+1 \in bp[t]
(* the checks at a boundary *)
Check(t) ==
  /\ pc[t] = "run" /\ pos[t] < NB
  /\ IF abort THEN pc' = [pc EXCEPT ![t] = "pass"]
     ELSE IF AtBp(t) THEN pc' = [pc EXCEPT ![t] = "hit"]
     ELSE IF HEED /\ stop THEN pc' = [pc EXCEPT ![t] = "wait"]
     ELSE pc' = [pc EXCEPT ![t] = "pass"]
  /\ UNCHANGED <<pos,stop,abort,passed,user,bp>>
(* processBreakpoint: under the lock of the flag *)
Raise(t) ==
  /\ pc[t] = "hit"
  /\ IF LOCKED /\ abort THEN pc' = [pc EXCEPT ![t] = "pass"] /\ UNCHANGED <<stop,passed>>
     ELSE /\ stop' = TRUE /\ pc' = [pc EXCEPT ![t] = "wait"]
          /\ passed' = IF stop THEN passed ELSE [x \in Threads |-> 0]
  /\ UNCHANGED <<pos,abort,user,bp>>
Wake(t) == pc[t] = "wait" /\ ~stop /\ pc' = [pc EXCEPT ![t] = "pass"] /\ UNCHANGED <<pos,stop,abort,passed,user,bp>>
Pass(t) == /\ pc[t] = "pass"
           /\ pos' = [pos EXCEPT ![t] = @+1]
           /\ pc' = [pc EXCEPT ![t] = IF abort \/ pos[t]+1 = NB THEN "end" ELSE "run"]
           /\ passed' = IF stop THEN [passed EXCEPT ![t] = @+1] ELSE passed
           /\ UNCHANGED <<stop,abort,user,bp>>
Continue == /\ user = "idle" /\ stop /\ stop' = FALSE /\ UNCHANGED <<pc,pos,abort,passed,user,bp>>
(* executeAbort: the flag first, then whoever is seen to be stopped is let go *)
AbortA == user = "idle" /\ ~abort /\ abort' = TRUE /\ user' = "aborting" /\ UNCHANGED <<pc,pos,stop,passed,bp>>
AbortB == /\ user = "aborting" /\ user' = "gone"
          /\ stop' = FALSE                     \* which changes nothing unless it was raised
          /\ UNCHANGED <<pc,pos,abort,passed,bp>>
Next == (\E t \in Threads : Check(t) \/ Raise(t) \/ Wake(t) \/ Pass(t)) \/ Continue \/ AbortA \/ AbortB
Spec == Init /\ [][Next]_vars /\ WF_vars(AbortB)
        /\ \A t \in Threads : WF_vars(Check(t)) /\ WF_vars(Raise(t)) /\ WF_vars(Wake(t)) /\ WF_vars(Pass(t))
(* while the flag is up nobody gets past more than the one boundary it was already looking at *)
Halts == stop /\ ~abort => \A t \in Threads : passed[t] <= 1
(* an abort needs no further help to end everything *)
AbortEnds == abort ~> \A t \in Threads : pc[t] = "end"
(* a user who keeps continuing gets to the end *)
NextC == (\E t \in Threads : Check(t) \/ Raise(t) \/ Wake(t) \/ Pass(t)) \/ Continue
SpecC == Init /\ [][NextC]_vars /\ WF_vars(Continue)
         /\ \A t \in Threads : WF_vars(Check(t)) /\ WF_vars(Raise(t)) /\ SF_vars(Wake(t)) /\ WF_vars(Pass(t))
AllEnd == <>(\A t \in Threads : pc[t] = "end")
=============================================================================
