--------------------------------- MODULE Wakeup ---------------------------------
(* The threads around the dispatcher's message queues: the polling thread, the event
   thread that turns timers into messages, and a thread that sends messages and adds
   timers.  Nobody may sleep while there is something for them to do.
     PENDING  signals to the event thread are kept for its wait (pselect), not
              delivered to it on the way there
     MARKFIRST  a WP is marked as needing a poll before the dispatcher is told
     RECHECK  the polling thread looks at repoll again, under the lock, before it waits *)
EXTENDS Integers, Sequences, TLC
CONSTANTS PENDING, MARKFIRST, RECHECK, NSEND, NTIMER, MAXT
VARIABLES pp, q, need, repoll, condlock, waiting,      \* polling thread, one queue, the handshake
          sp, sent, timers,                            \* the sender: place, messages sent, timers still to add
          ep, nextto, until, kick, now, fired, got     \* event thread: place, timer, waiting until, signal pending
vars == <<pp,q,need,repoll,condlock,waiting,sp,sent,timers,ep,nextto,until,kick,now,fired,got>>
INF == MAXT+1
Init == /\ pp = "loop" /\ q = 0 /\ need = FALSE /\ repoll = FALSE /\ condlock = "free" /\ waiting = FALSE
        /\ sp = "idle" /\ sent = 0 /\ timers = 0 /\ ep = "check" /\ nextto = INF /\ until = INF /\ kick = FALSE
        /\ now = 0 /\ fired = 0 /\ got = 0
\* ---- polling thread: Dispatcher::pollLoop(), poll() and WPInterface::do_poll()
U1 == UNCHANGED <<sp,sent,timers,ep,nextto,until,kick,now,fired>>
Poller ==
  \/ pp = "loop" /\ repoll /\ pp' = "clear" /\ UNCHANGED <<q,need,repoll,condlock,waiting,got>> /\ U1
  \/ pp = "loop" /\ ~repoll /\ pp' = (IF RECHECK THEN "lock" ELSE "lock2") /\ UNCHANGED <<q,need,repoll,condlock,waiting,got>> /\ U1
  \/ pp = "clear" /\ repoll' = FALSE /\ pp' = "scan" /\ UNCHANGED <<q,need,condlock,waiting,got>> /\ U1
  \/ pp = "scan" /\ pp' = (IF need /\ q > 0 THEN "deliver" ELSE "loop") /\ UNCHANGED <<q,need,repoll,condlock,waiting,got>> /\ U1
  \/ pp = "deliver" /\ need' = FALSE /\ pp' = "remove" /\ UNCHANGED <<q,repoll,condlock,waiting,got>> /\ U1
  \/ pp = "remove" /\ q' = q-1 /\ got' = got+1 /\ need' = (need \/ q > 1) /\ pp' = "ask" /\ UNCHANGED <<repoll,condlock,waiting>> /\ U1
  \/ pp = "ask" /\ repoll' = (repoll \/ need) /\ pp' = "loop" /\ UNCHANGED <<q,need,condlock,waiting,got>> /\ U1
  \/ pp = "lock" /\ condlock = "free" /\ condlock' = "p" /\ pp' = "look" /\ UNCHANGED <<q,need,repoll,waiting,got>> /\ U1
  \/ pp = "look" /\ repoll /\ condlock' = "free" /\ pp' = "loop" /\ UNCHANGED <<q,need,repoll,waiting,got>> /\ U1
  \/ pp = "look" /\ ~repoll /\ condlock' = "free" /\ waiting' = TRUE /\ pp' = "wait" /\ UNCHANGED <<q,need,repoll,got>> /\ U1
  \/ pp = "lock2" /\ condlock = "free" /\ waiting' = TRUE /\ pp' = "wait" /\ UNCHANGED <<q,need,repoll,got,condlock>> /\ U1
  \/ pp = "wait" /\ ~waiting /\ pp' = "lock" /\ UNCHANGED <<q,need,repoll,condlock,waiting,got>> /\ U1
\* ---- enqueueing: WPInterface::enqueue(), then Dispatcher::enqueue()
Enq(pc,pc2,at,lock) ==          \* the steps of thread "lock" at places at.."4"
  \/ pc = at \o "1" /\ pc2 = at \o "2" /\ q' = q+1 /\ need' = (IF MARKFIRST THEN need \/ q = 0 ELSE need) /\ UNCHANGED <<repoll,condlock,waiting>>
  \/ pc = at \o "2" /\ pc2 = at \o "3" /\ repoll' = TRUE /\ UNCHANGED <<q,need,condlock,waiting>>
  \/ pc = at \o "3" /\ pc2 = at \o "4" /\ condlock = "free" /\ condlock' = lock /\ repoll' = TRUE /\ waiting' = FALSE /\ UNCHANGED <<q,need>>
  \/ pc = at \o "4" /\ pc2 = at \o "5" /\ condlock' = "free" /\ need' = (IF MARKFIRST THEN need ELSE need \/ q > 0) /\ UNCHANGED <<q,repoll,waiting>>
\* ---- the sender
Sender ==
  \/ /\ sp = "idle" /\ sent < NSEND /\ sp' = "s1" /\ sent' = sent+1
     /\ UNCHANGED <<pp,q,need,repoll,condlock,waiting,timers,ep,nextto,until,kick,now,fired,got>>
  \/ sp \in {"s1","s2","s3","s4"} /\ (\E n \in {"s2","s3","s4","s5"} : Enq(sp,n,"s","s") /\ sp' = n)
     /\ UNCHANGED <<pp,sent,timers,ep,nextto,until,kick,now,fired,got>>
  \/ sp = "s5" /\ sp' = "idle" /\ UNCHANGED <<pp,q,need,repoll,condlock,waiting,sent,timers,ep,nextto,until,kick,now,fired,got>>
  \* addTimeout(): one one-shot timer at a time
  \/ /\ sp = "idle" /\ timers < NTIMER /\ nextto = INF /\ timers' = timers+1
     /\ \E t \in now+1..MAXT : nextto' = t
     /\ sp' = "kick" /\ UNCHANGED <<pp,q,need,repoll,condlock,waiting,sent,ep,until,kick,now,fired,got>>
  \/ /\ sp = "kick" /\ sp' = "idle" /\ kick' = (kick \/ PENDING \/ ep = "wait")
     /\ UNCHANGED <<pp,q,need,repoll,condlock,waiting,sent,timers,ep,nextto,until,now,fired,got>>
\* ---- the event thread
U2 == UNCHANGED <<pp,sp,sent,timers,got>>
Event ==
  \/ ep = "check" /\ nextto <= now /\ nextto' = INF /\ fired' = fired+1 /\ ep' = "e1" /\ UNCHANGED <<q,need,repoll,condlock,waiting,until,kick,now>> /\ U2
  \/ ep = "check" /\ nextto > now /\ ep' = "plan" /\ UNCHANGED <<q,need,repoll,condlock,waiting,nextto,until,kick,now,fired>> /\ U2
  \/ ep \in {"e1","e2","e3","e4"} /\ (\E n \in {"e2","e3","e4","e5"} : Enq(ep,n,"e","e") /\ ep' = n) /\ UNCHANGED <<nextto,until,kick,now,fired>> /\ U2
  \/ ep = "e5" /\ ep' = "plan" /\ UNCHANGED <<q,need,repoll,condlock,waiting,nextto,until,kick,now,fired>> /\ U2
  \/ ep = "plan" /\ until' = nextto /\ ep' = "go" /\ UNCHANGED <<q,need,repoll,condlock,waiting,nextto,kick,now,fired>> /\ U2
  \/ ep = "go" /\ ep' = "wait" /\ UNCHANGED <<q,need,repoll,condlock,waiting,nextto,until,kick,now,fired>> /\ U2
  \/ ep = "wait" /\ (kick \/ until <= now) /\ kick' = FALSE /\ ep' = "check" /\ UNCHANGED <<q,need,repoll,condlock,waiting,nextto,until,now,fired>> /\ U2
Clock == now < MAXT /\ now' = now+1 /\ UNCHANGED <<pp,q,need,repoll,condlock,waiting,sp,sent,timers,ep,nextto,until,kick,fired,got>>
Next == Poller \/ Sender \/ Event \/ Clock
Spec == Init /\ [][Next]_vars /\ WF_vars(Poller) /\ WF_vars(Sender) /\ WF_vars(Event) /\ WF_vars(Clock)
\* ---- what users rely on
\* a polling thread that sleeps has nothing to deliver (unless somebody is just about to wake it)
NoLostMessage == pp = "wait" /\ waiting /\ q > 0 => sp \in {"s2","s3","s4"} \/ ep \in {"e2","e3","e4"}
\* an event thread that sleeps will wake up for the next timer (unless somebody is just about to tell it)
NoLostTimer == ep = "wait" /\ ~kick => until <= nextto \/ sp = "kick"
Delivered == <>[](got = sent+fired /\ q = 0 /\ nextto = INF)
=============================================================================
