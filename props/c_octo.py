from importlib.util import spec_from_file_location as s, module_from_spec as m
import os
_s = s("a", os.path.join(os.path.dirname(__file__), "a_engine.py")); _a = m(_s); _s.loader.exec_module(_a); P = _a.P
T = ("The existing tests of the message layer bounce messages between two processes; none enumerates priorities, holds, failures, "
     "nested polls, subscriptions, detachments or the moments at which timers and signals arrive.")
TECH = "TLA+ specification of the message layer, model-checked with TLC; histories of the real dispatcher checked against it with TLC"
F = ["OCTOPUSSY/src/Dispatcher.cc", "OCTOPUSSY/src/Dispatcher.h", "OCTOPUSSY/src/WPInterface.cc", "OCTOPUSSY/src/WPInterface.h"]
PROPS = [
 P("C11", "Queued messages are handled by priority, none lost, none handled twice",
   "A dispatcher delivers the messages in its work processes' (WPs') queues highest priority first and in order of arrival among equals; "
   "a WP kept waiting gains on the others as polling goes on, so that none waits for ever. A message that is accepted is delivered no more; one that is held stays "
   "where it is and is offered again when the head of the queue changes; one that is requeued goes behind the others of its priority. "
   "A message is neither lost nor delivered out of turn by what a WP does while it is being called: sending, polling the dispatcher again, "
   "looking through its queue or taking messages out of it, or throwing an exception. When a full poll returns, only held or requeued messages, "
   "and those behind them, are left in queues.",
   ["histories", "schedules"], "every history of sends, polls (full, bounded, nested), holds, requeues, dequeues and exceptions over several WPs", T, F,
   [("queues", "OCTOPUSSY/src/WPInterface.cc: enqueue, dequeue, do_poll, getPollPriority"), ("polling", "OCTOPUSSY/src/Dispatcher.cc: poll, enqueue")],
   [("queues", "messages with priority and tick", "WPInterface::wp_queue"), ("repoll", "flags that call for a poll", "Dispatcher::repoll, WPInterface::needRepoll")],
   ["callbacks in order with their messages", "results of calls", "contents of all queues after every command"], technique=TECH,
   note="The specification interprets scripted WPs; exhaustive exploration with 2 WPs and up to 3 messages of any fate, plus thousands of random histories of the real dispatcher, every callback judged by TLC. Threaded WPs (mtWakeup) are not driven."),
 P("C12", "A message reaches exactly the work processes it is meant for",
   "A message sent to an address reaches exactly the attached WPs that match it, and a published one exactly those with a subscription that its identifier "
   "and sender match (adding or dropping subscriptions that overlap changes nothing else), once each, plus the gateways that will forward it if it may concern another process or host. "
   "It carries its sender's address and state as of sending, and what one receiver does with it is not seen by the others. WPs are "
   "initialised, started and stopped once each, in that order, whenever they are attached; a WP that fails is detached, without harm to the "
   "others; a WP that has been detached receives nothing more.",
   ["histories", "configurations"], "every history of sending, publishing, forwarding, subscribing, attaching, detaching and failing over several WPs and gateways", T,
   F + ["OCTOPUSSY/src/Subscriptions.cc", "OCTOPUSSY/src/MsgAddress.h", "OCTOPUSSY/src/Message.cc"],
   [("routing", "OCTOPUSSY/src/Dispatcher.cc: send"), ("subscriptions", "OCTOPUSSY/src/Subscriptions.cc: add, remove, matches"), ("life cycle", "Dispatcher.cc: attach, detach, start, stop; WPInterface.cc: do_init, do_start, do_stop")],
   [("WP map", "attached WPs and gateways", "Dispatcher::wps, gateways"), ("subscriptions", "masks and scopes", "WPInterface::subscriptions")],
   ["callbacks in order with their messages", "number of receivers returned", "packed subscriptions as published", "queues"], technique=TECH,
   note="Exhaustive: all histories of up to 3 overlapping subscriptions, broadcasts to 2-3 WPs that fail or leave; plus thousands of random histories of the real dispatcher with gateways. The remote side of gateways is C14's."),
 P("C13", "Timers, inputs and signals become events on time and are never slept through",
   "Timers never fire early, fire when due once they can, again after each period unless they are one-shot, and not after they were removed. An input whose descriptor is ready, or a signal that is "
   "raised, gives its WP an event with the right flags; events not yet delivered are updated rather than repeated, unless each was asked for; ones that are removed, cancelled or whose WP is "
   "detached are not delivered. Whatever moment a timer, an input, a signal or a message is added at, the threads that must act on it do not sleep through it.",
   ["schedules", "histories"], "every history of adding, removing, cancelling and firing events, with the event thread waiting or just about to wait", T, F,
   [("event thread", "OCTOPUSSY/src/Dispatcher.cc: eventThread, checkEvents"), ("registration", "Dispatcher.cc: addTimeout, addInput, addSignal, remove*, rebuildInputs, rebuildSignals"), ("delivery", "WPInterface.cc: do_poll")],
   [("timeouts, inputs, signals", "registered events and their pending messages", "Dispatcher::timeouts, inputs, signal_map")],
   ["callbacks in order with identifiers and flags", "queues after every round of the event thread"], technique=TECH,
   note="Spec of the wake-up protocol between polling thread, event thread and senders checked for safety and liveness; real event thread driven with virtual time, descriptors and signals, woken only by what really wakes it, in thousands of random histories. One handover per command: finer interleavings of the threads are in the model only."),
]
