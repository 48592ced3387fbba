from importlib.util import spec_from_file_location as s, module_from_spec as m
import os
_s = s("a", os.path.join(os.path.dirname(__file__), "a_engine.py")); _a = m(_s); _s.loader.exec_module(_a); P = _a.P
T = ("The existing tests of the data layer convert a handful of fixed objects and print them; none enumerates histories of "
     "operations on shared objects, wildcard patterns or damaged files.")
TECH = "TLA+ specification of the data layer, model-checked with TLC; histories of the real classes checked against it with TLC"
PROPS = [
 P("C15", "Identifier matching is consistent with its wildcard meaning",
   "Two hierarchical identifiers (HIIDs) match exactly when their wildcards ('?' for any one element, '*' for any number of them "
   "up to the end) can stand for one and the same identifier, whichever side is asked, and one is a subset of another exactly when "
   "everything it stands for the other stands for, too. The order of identifiers is total. Taking identifiers apart and joining them, "
   "printing and parsing them (those without empty elements or adjacent separators), and packing them gives back the same elements.",
   ["inputs", "histories"], "every pair of identifiers over names, indices and wildcards; every history of identifier operations", T,
   ["DMI/src/HIID.cc", "DMI/src/HIID.h", "DMI/src/AtomicID.cc", "DMI/src/AtomicID.h"],
   [("matching", "DMI/src/HIID.cc: matches, subsetOf"), ("parsing", "DMI/src/HIID.cc: setFromString; AtomicID.cc: findName")],
   [("registry", "names of atomic ids", "DMI/src/AtomicID.cc")], ["results of HIID calls"], technique=TECH,
   note="All pairs of identifiers up to length 4 over an alphabet of names, indices and wildcards are judged, plus random histories of the editing, parsing and packing operations."),
 P("C16", "Shared objects are never changed behind a holder's back",
   "Counted references share their target without letting holders disturb one another: writing through one reference never changes what "
   "another, read-only or copy-on-write, holder sees; a reference that may not write is refused; locked references are not changed; "
   "the number of holders is right after every history of copying, transferring, privatising, locking and detaching; and targets are "
   "deleted exactly when the last reference to them is gone.",
   ["histories"], "every history of attach, copy, transfer, privatise, write, lock, unlock and detach over several references and nested targets", T,
   ["DMI/src/CountedRefBase.cc", "DMI/src/CountedRefBase.h", "DMI/src/CountedRefTarget.cc", "DMI/src/CountedRef.h"],
   [("copy on write", "DMI/src/CountedRefBase.cc: getTargetWr, privatize, cloneTarget"), ("ownership", "CountedRefBase.cc: copy, xfer, detach")],
   [("ring of owners", "references to one target", "DMI/src/CountedRefBase.h")], ["value read through every reference", "live targets"], technique=TECH,
   note="Exhaustive model over 3 references and 2 targets; thousands of histories of the real references judged after every step, including live-object counts. One known finding (a leak when privatising a sole reference)."),
 P("C17", "Containers behave as the maps and sequences they model",
   "Records, lists, vectors and arrays answer every history of insertions, replacements, removals, lookups, merges, resizes and slices, "
   "made directly or through subscripts of any depth, as a plain map, sequence or array does; protected fields are not replaced, removed or merged over; a refused "
   "operation changes nothing; and operations on one container never show in another, however they share contents.",
   ["histories", "inputs"], "every history of container operations over nested, shared values", T,
   ["DMI/src/Record.cc", "DMI/src/List.cc", "DMI/src/Vec.cc", "DMI/src/NumArray.cc", "DMI/src/ContainerHook.cc", "DMI/src/Container.cc"],
   [("subscripts", "DMI/src/ContainerHook.cc: apply, assign, remove"), ("fields", "DMI/src/Record.cc: add, replace, removeField, merge"), ("slices", "DMI/src/NumArray.cc: parseHIID")],
   [("contents", "nested values of each register", "the container classes")], ["full dump of all containers after every operation"], technique=TECH,
   note="Specification of nested values with path operations, explored exhaustively for small values; thousands of random histories of the real containers, dumped in full after every step and judged by TLC."),
 P("C18", "Objects survive conversion to blocks and files",
   "Converting any object to blocks and back gives an equal object whatever else shares those blocks; a file of objects gives back what "
   "was written to it, in order, however it is rewound, repositioned, reopened or appended to; and a file cut short yields whole "
   "objects, an end of file or an error, never a damaged object.",
   ["inputs", "histories", "crash_points"], "every object tree; every history of packing, unpacking, copying block sets, file operations; every truncation point", T,
   ["DMI/src/BOIO.cc", "DMI/src/Record.cc", "DMI/src/List.cc", "DMI/src/Vec.cc", "DMI/src/NumArray.cc", "DMI/src/BlockSet.cc", "DMI/src/DynamicTypeManager.cc"],
   [("blocks", "toBlock, fromBlock of each class"), ("files", "DMI/src/BOIO.cc: readAny, nextType, write")],
   [("file", "sequence of objects and position", "DMI/src/BOIO.h")], ["objects read back, in full"], technique=TECH,
   note="As C17, with block sets and files as further state; truncation at random points of random files."),
]
