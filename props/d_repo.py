from importlib.util import spec_from_file_location as s, module_from_spec as m
import os
_s = s("a", os.path.join(os.path.dirname(__file__), "a_engine.py")); _a = m(_s); _s.loader.exec_module(_a); P = _a.P
T = ("The existing tests create a few fixed forests and run them through; none refuses a node, changes states in sequences that are "
     "partly refused, or stops, continues and aborts execution at arbitrary places.")
TECH = "TLA+ specification, model-checked with TLC; histories of the real forest and nodes checked against it with TLC"
PROPS = [
 P("C07", "Request ids tell exactly which dependencies have changed",
   "Two request ids agree under a dependency mask exactly if they have the same value at each of the mask's positions (a missing position counts as 0, "
   "an empty mask always agrees, an empty id never agrees under a mask that is not empty), whichever of them comes first, and their difference mask names exactly the positions at which "
   "they differ. Masking, incrementing or setting a part of an id changes that part and nothing else, lengthening the id where needed. When the forest moves a symbolic "
   "dependency on, the id gets, at the positions of that dependency only, a value that this dependency has not had before in this forest; an unknown dependency changes nothing. "
   "Hence ids made by the forest differ under a mask exactly if one of the mask's dependencies was moved between them.",
   ["inputs", "histories"], "all pairs of ids, all masks, all histories of moving dependencies", "The existing tests use a few ids and masks.",
   ["MEQ/src/RequestId.cc", "MEQ/src/RequestId.h", "MEQ/src/Forest.cc", "MEQ/src/SymdepMap.cc"],
   [("comparison", "MEQ/src/RequestId.cc: maskedCompare, diffMask"), ("parts of ids", "MEQ/src/RequestId.cc: maskSubId, incrSubId, setSubId"), ("moving on", "MEQ/src/Forest.cc: incrRequestId")],
   [("counts", "how often each dependency was moved", "Forest::symdep_counts")], ["results of the functions", "Forest::getDependMask"], technique=TECH,
   note="Exhaustive over all triples of ids of up to 3 (thorough: 4) positions and all masks of 4 bits in the model; thousands of random ids (also longer than the 16 bits of a mask), masks and counters in the real code."),
 P("C08", "The forest's names, indices and own state stay consistent",
   "After any history of creating, refusing and removing nodes and of clearing the forest, looking a node up by name, by index or in the node list gives the same answer, "
   "which is that of the nodes that were created and not removed since: with the names and classes they were created with, each at its own index, which is the one asked for or else a free one. "
   "A node that is refused (a name or index in use, an unknown class, children that do not fit its class) or that cannot be initialised is counted as an error, and leaves "
   "all other nodes as they are. The forest's policies, breakpoints and profiling switch are those set last, by command or by state record, the state record says the same, "
   "and a state record that is refused changes nothing.",
   ["histories"], "every history of creation (any class, index, name, children specification), removal, clearing, initialization and forest state changes", T,
   ["MEQ/src/Forest.cc", "MEQ/src/Forest.h", "MEQ/src/Node_init.cc", "MEQ/src/NodeNursery.cc"],
   [("repository", "MEQ/src/Forest.cc: create, remove, clear, initAll"), ("children specification", "MEQ/src/Node_init.cc: attachInitRecord"), ("forest state", "MEQ/src/Forest.cc: setState, setStateImpl, state")],
   [("repository", "nodes by index and index by name", "Forest::nodes, name_map")], ["getNodeList", "findIndex, findNode, get, valid", "Forest::state"], technique=TECH,
   note="Exhaustive histories of 4 (thorough: 5) operations in the model, thousands of random ones of 8-30 in the real forest. Saving and loading a forest is commented out in this version of the server."),
 P("C09", "A node takes a state record entirely or not at all",
   "A set-state command that contains a field which may not be changed (name, index, class, children, parents), a value of the wrong type, or a value the node refuses, "
   "is refused as a whole: the node goes on, and its state record reads, exactly as before the command. One that is accepted sets just the fields it names. At any "
   "time a node's state record says what the node acts upon: values, policies, breakpoints, dependency mask, publishing level, poll order, description. "
   "The same holds for breakpoint and publishing commands, and for the record a node is created with.",
   ["histories", "inputs"], "every history of set-state, breakpoint and publishing commands, with any combination of good and bad fields", T,
   ["MEQ/src/Node.cc", "MEQ/src/Node_commands.cc", "MEQ/src/Node_init.cc", "MEQ/src/NodeNursery.cc", "MEQ/src/SymdepMap.cc"],
   [("set state", "MEQ/src/Node.cc: setState, setStateImpl, protectStateField"), ("commands", "MEQ/src/Node_commands.cc"), ("reading back", "MEQ/src/Node.cc: getSyncState")],
   [("state record", "what the user sees", "Node::staterec_"), ("internal state", "what the node acts on", "Node members")], ["getSyncState", "accessors of the node", "errors of setState"], technique=TECH,
   note="Random histories on forests of 2-5 nodes, internal state judged after every command and the record when asked for (so that stale records show); exhaustive small histories in the model. What a subclass does in its own setStateImpl is not covered, other than that of the test classes."),
 P("C10", "Breakpoints stop execution where they say and change nothing else",
   "While a request is executed, it stops exactly where a node enters a stage (request, command, polling, evaluating, result, failure) for which that node, or the forest, has a breakpoint; "
   "the stop names the node, the stage, and whether the breakpoint was global, and the node shows as stopped. One-shot breakpoints are gone once hit, others stay. Nothing goes on until "
   "the user continues or aborts: other threads halt at the next stage of the node they are in. Stopping and continuing changes nothing else: same evaluations, results, statuses and caches "
   "as without breakpoints. At a stop, states can be read and breakpoints changed on any node. An abort ends the request without further stops and with at most the evaluation that was about to begin, "
   "even if it comes just as a node is about to stop, and later requests are not affected. Once all is done no node is left stopped or in mid-execution.",
   ["histories", "schedules"], "every placement of local and global, lasting and one-shot breakpoints, changed at any stop, with any sequence of continuing and aborting; every interleaving of threads with a stop", T,
   ["MEQ/src/Node.cc", "MEQ/src/Node.h", "MEQ/src/Forest.cc", "MEQ/src/Forest.h", "MEQ/src/NodeNursery.cc", "MEQ/src/Node_commands.cc"],
   [("stages and stops", "MEQ/src/Node.cc: setExecState"), ("stop flag", "MEQ/src/Forest.cc: processBreakpoint, waitOnStopFlag, clearStopFlag"), ("global breakpoints", "MEQ/src/Forest.h: checkGlobalBreakpoints")],
   [("breakpoints", "lasting and one-shot, per node and global", "Node::breakpoints_, breakpoints_ss_; Forest::breakpoints, breakpoints_ss"), ("stop and abort flags", "who may go on", "Forest::stop_flag_, abort_flag_")],
   ["breakpoint callback", "control status of every node at every stop", "log of evaluations", "result code"], technique=TECH,
   note="Exhaustive in the model: a diamond of nodes with all breakpoint histories of 3-4 steps, and 2-3 threads with a stop flag and an abort; thousands of random executions of the real engine with stops in a single thread, hundreds with several threads."),
 P("C19", "Commands in a request's rider reach exactly the nodes addressed",
   "When a node executes a request with a rider, it obeys the commands the rider addresses to it and no others: those for all nodes of a group the node is in (every node is "
   "in the group All), those of the first entry of a group's list that names the node, gives its index, or names nobody, and those given for its index; group by group in the order of the "
   "node's own groups, and in this order within a group. It obeys them once per request, before it evaluates anything, and not again when the same request comes back. A command that is unknown or fails "
   "does not keep the others from being obeyed, and nodes that are not addressed, or that the request does not reach, stay as they are. Riders built by the helper functions are read as they were written.",
   ["inputs", "histories"], "every rider (any groups, lists, names, indices, commands), every assignment of nodes to groups, changed between requests",
   "No existing test sends a request with a rider other than the solver's own.",
   ["MEQ/src/Node_commands.cc", "MEQ/src/Node.cc", "MEQ/src/Rider.cc"],
   [("rider", "MEQ/src/Node_commands.cc: processRequestRider, processCommands"), ("when", "MEQ/src/Node.cc: execute"), ("building riders", "MEQ/src/Rider.cc: addCmdRec_*, getCmdRec_*")],
   [("groups", "the groups a node is in", "Node::node_groups_"), ("current request", "requests already obeyed", "Node::current_reqid_")], ["state records of all nodes after every request", "Node::getNodeGroups"], technique=TECH,
   note="Exhaustive in the model: a parent and two children, all groups of two, all riders of one or two entries, each request once or twice; thousands of random riders with lists, indices and several groups on forests of 2-6 real nodes."),
]
