def P(id, title, st, over, q, why, files, mech, state=(), obs=(), **kw):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state], observe_at=list(obs)))
    d.update(kw)
    return d


NODE = ["MEQ/src/Node.cc", "MEQ/src/Node.h", "MEQ/src/NodeNursery.cc", "MEQ/src/Node_commands.cc", "MEQ/src/Request.cc",
        "MEQ/src/RequestId.cc"]
TESTS = ("The existing tests run a few fixed scripts on fixed trees with the default policies and compare final values; "
         "none enumerates histories of requests and changes, cache policies or shared nodes.")
TECH = "TLA+ specification of the node engine, model-checked with TLC; traces of the real engine checked against it with TLC"

PROPS = [
 P("C01", "Node caches never change an answer",
   "Whatever requests were evaluated before, under whatever mix of caching and error policies, a node of a forest answers "
   "a request exactly as the same forest would with all caches emptied: the same value, failure or missing-data answer. "
   "This holds provided that, as the system does itself, request ids change in the parts a node depends on whenever what the "
   "node reads (domain, solver iteration, state, dataset, request type) has changed.",
   ["histories", "configurations", "inputs"],
   "every forest (shared children, step children, inactive branches), every cache/fail/missing-data policy mix, every "
   "history of requests, state changes, cache clears, interruptions",
   TESTS, NODE, [("cache lookup and masks", "MEQ/src/Node.cc: getCachedResult, getExecute, cacheResult"),
                 ("dependency masks of children", "MEQ/src/Node.cc: execute, MEQ/src/NodeNursery.cc: syncPoll")],
   [("cache", "kept result, its request id and its dependency mask", "MEQ/src/Node.h")], ["result of an execute call", "node log"],
   technique=TECH, note="Exhaustive on 3-4 node forests and bounded histories in the specification; thousands of random forests "
   "of 2-9 scripted nodes with 8-40 step histories replayed in the real engine, each answer judged by TLC against the "
   "cache-free evaluation. Numerical evaluation of concrete node classes is outside this check."),
 P("C02", "Cache policies decide what is kept and what is recomputed",
   "A node recomputes exactly when its retained answer is absent or depends on a part of the request id that differs from "
   "the new request, and whether an answer is retained follows the node's own cache policy (or else that of the forest), "
   "the number of active parents and their hold status, and the hint about the next request. Repeating a request that "
   "the policy lets a node keep evaluates nothing and gives the same answer; a node told never to cache keeps only failures.",
   ["histories", "configurations", "inputs"],
   "every policy mix (never, minimal, smart, always, default), every history of requests with and without next-request hints, "
   "state changes, policy changes and cache clears", TESTS, NODE,
   [("retention policy", "MEQ/src/Node.cc: cacheResult, holdCache, clearCache"), ("id diff", "MEQ/src/RequestId.cc: diffMask")],
   [("parents", "per-parent hold status", "MEQ/src/Node.h")], ["node log of evaluations", "cache in node state"],
   technique=TECH, note="Same machinery as C01; compares the sequence of evaluations, the dependency mask of every answer and "
   "the cached request ids of every node after every step with the specification."),
 P("C03", "Child failures and missing data follow the declared policies",
   "When children or step children fail or have no data, a node ignores, collects or abandons them exactly as its policies "
   "say: under collect its answer is a failure that carries every child failure (or a missing-data answer), under abandon "
   "it stops polling further children, under ignore the offending child is left out and the others are used. A failure is "
   "never turned into a value except where a policy asks for it, and it disappears once its cause is removed and the "
   "relevant part of the request id has changed.",
   ["histories", "configurations", "fault_sequences"],
   "every combination of fail and missing-data policies, children order, failing and missing nodes that change from request to request",
   TESTS, NODE, [("policies", "MEQ/src/NodeNursery.cc: syncPoll, receiveSyncChildResult"), ("fail handling", "MEQ/src/Node.cc: execute")],
   (), ["result of an execute call", "node log"],
   technique=TECH, note="As C01, with failing, missing and waiting nodes at random places under all policy combinations."),
 P("C04", "An abort or an interruption leaves no trace in the forest",
   "A node that is interrupted (aborted, or told to wait) by itself, by one of its children or by the forest-wide abort flag "
   "evaluates nothing more for that request, keeps no result for it, and passes the interruption on. While the abort flag is "
   "up no node evaluates anything, and once it is down every request gets the same answer as if the interrupted ones had "
   "never been made.",
   ["histories", "fault_sequences"],
   "every placement of aborting and waiting nodes and every moment of raising the abort flag in a history",
   TESTS, NODE, [("interrupt handling", "MEQ/src/Node.cc: execute; MEQ/src/NodeNursery.cc: syncPoll"),
                 ("abort flag", "MEQ/src/Forest.h, MEQ/src/Node.cc")], (), ["return code and log of evaluations"],
   technique=TECH, note="As C01, with aborting and waiting nodes and the abort flag raised and lowered at random moments, also from inside an evaluation."),
 P("C05", "Commands in a request reach exactly the nodes they address",
   "The commands carried by a request are carried out by exactly those nodes that take up the request, belong to the named "
   "group and are addressed by name, index or as a whole group, once each, before the node evaluates; of several list "
   "entries for one group only the first that fits a node applies. A command that fails makes the node fail and is never "
   "carried out twice for a kept answer.",
   ["inputs", "histories", "configurations"],
   "every rider structure (group-wide, list and index entries, state settings, failing commands) over forests with inactive "
   "nodes, shared nodes and caches", TESTS, NODE + ["MEQ/src/Rider.cc"],
   [("rider processing", "MEQ/src/Node.cc: processRequestRider"), ("request rider", "MEQ/src/Rider.cc")], (),
   ["node log of commands"],
   technique=TECH, note="As C01, with random riders. Riders are replayed through the same request objects the kernel uses."),
 P("C06", "Parallel polling gives the sequential answer and always finishes",
   "When nodes poll their children with a pool of threads, then under every schedule of the threads an evaluation terminates, "
   "its answer (value, failure or missing data) is the one sequential polling gives - with an abandoning policy, the failures "
   "reported are some of those - no node is evaluated by two threads at once or before its children, a node that always keeps its "
   "answer evaluates once per request however many parents share it, and when the evaluation is over (also if abandoned or "
   "aborted) no child is still being evaluated on its behalf.",
   ["schedules", "histories", "configurations"],
   "every forest, thread count and interleaving, with failing, missing, waiting, aborting and self-polling nodes",
   "The tests run the server single-threaded; a test of a thread pool sees one schedule.",
   ["MEQ/src/MTPool.cc", "MEQ/src/MTPool.h", "MEQ/src/NodeNursery.cc", "MEQ/src/Node.cc", "MEQ/src/Node.h"],
   [("order queue and depth limits", "MEQ/src/MTPool.cc: getWorkOrder, awakenWorker"),
    ("collecting child results", "MEQ/src/NodeNursery.cc: syncPoll, awaitChildResult, mt_*"), ("one evaluation at a time", "MEQ/src/Node.cc: execute")],
   [("work orders", "queue of children to evaluate", "MEQ/src/MTPool.h")], ["result of an execute call", "enter/leave log of nodes"],
   technique="TLA+ specification of the pool and of nursery polling, every interleaving checked with TLC (safety, deadlock, termination); "
   "traces of the real pool under random delays, gates and aborts checked against the TLA+ engine specification",
   note="Pool model exhaustive for small forests and 2-3 workers; the real pool is driven with 2-4 threads on random forests of 4-14 "
   "nodes, where the schedules seen are a sample. MPI pools are not covered."),
]
