from importlib.util import spec_from_file_location as s, module_from_spec as m
import os
_s = s("a", os.path.join(os.path.dirname(__file__), "a_engine.py")); _a = m(_s); _s.loader.exec_module(_a); P = _a.P
TECH = "TLA+ specification, model-checked with TLC; results of the real library and nodes checked against it with TLC"
TT = "The existing tests run a few fixed trees and look at whether they run; none computes what the result has to be for other shapes, flags, failures or perturbations."
PROPS = [
 P("C20", "The table of parameter solutions keeps what was stored in it",
   "A funklet stored in a parameter table under a name and a domain is found again under them, with the coefficients stored last, until it is deleted, "
   "and nothing else is: names do not run into each other, a search for a domain finds exactly the funklets whose domains overlap (or equal) it along every axis, and deleting removes just what "
   "was asked for. Closing the table and opening it again changes nothing; nor does the death of the process that had it open, other than that funklets not yet "
   "flushed may be gone: domains are never mixed up. Threads storing at once lose nothing. A table opened for reading takes the first thing stored in it as an opening for writing.",
   ["histories", "crash points", "schedules"], "all histories of storing, searching, deleting, flushing, closing, reopening, at any point of which the process may die; several threads storing at once",
   "The existing tests store no solutions.", ["MEQ/src/FastParmTable.cc", "MEQ/src/FastParmTable.h", "MEQ/src/ParmTable.cc"],
   [("storing", "MEQ/src/FastParmTable.cc: putCoeff, findFunklet"), ("searching", "MEQ/src/FastParmTable.cc: getFunklets, matchDomains"), ("files", "MEQ/src/FastParmTable.cc: FastParmTable(), openForWriting, flush")],
   [("list of domains", "every domain anything was stored for, in the order of arrival", "domain_list_, file domains"), ("funklets", "by name and number of domain", "QDBM database funklets")],
   ["getFunklets, firstDomain/nextDomain, firstFunklet/nextFunklet of the table, in the same and in later processes"], technique=TECH,
   note="Exhaustive histories of 8 (thorough: 10) operations in the model, with the list of domains reaching its file in portions and death at any point; thousands of random histories with forked and killed processes on real tables."),
 P("C21", "Arithmetic on sampled functions is pointwise on the grid",
   "A value of any shape stands for a function on the grid that is constant along the axes it has no extent along. Every operation on such values (+ - * / and their assigning and in-place forms, "
   "powers, complex parts, comparisons, minimum and maximum, flag operations, merging of flags, replacement of flagged values, reductions to a number) gives the value standing for the operation done at each cell of the grid both span together, "
   "whatever shapes, types and sharing of data its arguments have; reductions count every cell that is not flagged under the mask once. Shapes that do not go together are refused. The arguments are never changed, other than by the operations that are to change them.",
   ["inputs"], "all shapes (axes with and without extent, up to 4 axes), real and complex values, flags, masks, aliased arguments", TT,
   ["MEQ/src/Vells.cc", "MEQ/src/Vells.h", "MEQ/src/VellsSlicer.cc"], [("operators", "MEQ/src/Vells.cc: implementBinaryOperators, computeStrides, DimCounter"), ("reductions", "MEQ/src/Vells.cc: defineReductionFuncTemplate, renormFactor"), ("flags", "MEQ/src/Vells.cc: mergeFlags, replaceFlaggedValues, whereEq")],
   [("function", "one value per cell of the grid", "Vells data, shape and flags")], ["shape and data of the result", "data of the arguments afterwards"], technique=TECH,
   note="Values are small integers and their exact quotients; accuracy of transcendental functions and of long sums is not looked at. Walks over strided arrays exhaustively model-checked for grids of up to 3x3x3 (thorough: 4x4x4)."),
 P("C22", "Function nodes combine their children's results plane by plane",
   "A function node's result has, in every plane, the function of its children's values in that plane (scalar children standing in for every plane): main value, and for each parameter any child depends on the perturbed values, "
   "in which exactly the children that know the parameter are perturbed. Its flags are those of the children under the flag masks. A failed plane of any child fails just that plane, with all its failures listed; a missing plane makes it "
   "missing, except for functions that leave missing arguments out; conflicting perturbations or numbers of planes fail. If a child fails as a whole, so does the node, with all the failures. No child's result is changed by it.",
   ["inputs"], "all trees of function nodes, over results with any planes, shapes, missing and failed planes, flags, parameters and perturbations", TT,
   ["MEQ/src/Function.cc", "MEQ/src/VellSet.cc", "MEQ/src/Result.cc", "MeqNodes/src/Add.cc", "MeqNodes/src/Multiply.cc", "MeqNodes/src/WSum.cc", "MeqNodes/src/WMean.cc", "MeqNodes/src/ReplaceFlaggedValues.cc"],
   [("planes, failures, missing", "MEQ/src/Function.cc: getResult"), ("perturbed values", "MEQ/src/Function.cc: findSpids, getResult"), ("flags", "MEQ/src/Function.cc: evaluateFlags"), ("planes themselves", "MEQ/src/VellSet.cc")],
   [("planes", "values, flags, perturbed parameters and values, failures", "VellSet"), ("result", "planes and dimensions, whether failed or missing", "Result")], ["results of all nodes of a tree", "children's results afterwards"], technique=TECH,
   note="Random trees of up to 7 nodes over grids of up to 4 axes, with two or more nodes sharing children. Null values may drop flags, as they are meant to."),
 P("C23", "Reducing nodes take account of just the unflagged cells asked for",
   "A node that reduces its child (sum, product, count, mean, minimum, maximum, rms, deviation) along given axes, or all, gives at each cell of what is left the reduction of exactly those cells of the child that agree "
   "with it along the other axes and are not flagged under the mask, whatever axes the child's values and flags extend along; the result is flagged exactly where all of these cells are. The same holds for every plane and every perturbed value.",
   ["inputs"], "all reductions, sets of axes in any order, shapes of values and flags, masks, planes and perturbations", TT,
   ["MeqNodes/src/ReductionFunction.cc", "MEQ/src/VellsSlicerWithFlags.cc", "MEQ/src/Vells.cc", "MeqNodes/src/Sum.cc", "MeqNodes/src/Mean.cc", "MeqNodes/src/StdDev.cc"],
   [("slices", "MEQ/src/VellsSlicerWithFlags.cc: init, incr"), ("reduction", "MeqNodes/src/ReductionFunction.cc: apply, evaluateFlags, isAllFlagged")],
   [("slice", "position along the axes left, where the slice starts in values and flags", "ConstVellsSlicerWithFlags0")], ["results of all nodes of a tree"], technique=TECH,
   note="Sums, products and counts along an axis along which no plane of the child varies are not judged: the child may be taken as one point or as all of the grid's there. The slicer's walk is exhaustively model-checked for all shapes up to 3x3x3 (thorough: 4x4x4) and all sets of axes."),
 P("C24", "Tensor nodes put every plane where it belongs",
   "Composing, selecting (single planes, lists, slices along any axes), pasting, transposing and stripping route each plane, with its values, flags, parameters and perturbed values or its failures, to the place "
   "the tensor's dimensions call for and leave the others alone; matrix products and products with scalars sum exactly the pairs of planes of a row and a column, main and perturbed values alike, uniting their flags; merging of flags adds exactly the flags asked for. "
   "Selections that do not exist fail just there. The result is failed or missing as a whole exactly if all its planes are.",
   ["inputs"], "all trees of tensor nodes over results of any dimensions, with missing and failed planes, flags and perturbed values", TT,
   ["MeqNodes/src/Composer.cc", "MeqNodes/src/Selector.cc", "MeqNodes/src/Paster.cc", "MeqNodes/src/Transpose.cc", "MeqNodes/src/MatrixMultiply.cc", "MeqNodes/src/MergeFlags.cc", "MeqNodes/src/Stripper.cc", "MEQ/src/Result.cc"],
   [("selection", "MeqNodes/src/Selector.cc: getResult"), ("products", "MeqNodes/src/MatrixMultiply.cc: getResult, scalarMultiply"), ("dimensions", "MEQ/src/Result.cc: allocateVellSets, setDims")],
   [("planes", "by their place in the tensor", "Result::dims, Result::vellSet")], ["results of all nodes of a tree", "children's results afterwards"], technique=TECH,
   note="Random trees of up to 7 nodes; laws of the tensor operations and the walk of a selection are exhaustively model-checked for tensors of up to 3x3x3 (thorough: 4x4x4). Products by a scalar that is null everywhere are not looked at."),
 P("C25", "Sampling grids stay consistent, however they are made, combined, copied or sent",
   "A sampling grid gives for each axis the cells (centres, sizes, ends) it was defined with: explicitly, regularly over an interval, or by enumeration; its segments are the longest uniform runs of cells, in order, and its domain made anew is what the cells span. "
   "The superset of two grids has exactly the axes of both, and exists just if they agree along the axes they share; grids compare equal, alike or different by their domains, numbers of cells, and cells. "
   "Resampling merges or splits cells along just the axes asked for, or is refused if cells do not fit; a grid sent as a record, cloned or copied is the same grid, and changing one of the two leaves the other alone; records that do not add up are refused. "
   "Envelopes of domains cover both and nothing more.",
   ["histories", "inputs"], "all histories of making, changing, combining, comparing, resampling, copying and sending of grids and domains over up to 8 axes", "The existing tests make a few regular grids and do not look at the cells.",
   ["MEQ/src/Cells.cc", "MEQ/src/Cells.h", "MEQ/src/Domain.cc", "MEQ/src/Axis.cc"],
   [("cells and segments", "MEQ/src/Cells.cc: setCells, setNumSegments, recomputeSegments"), ("superset", "MEQ/src/Cells.cc: superset, compare"), ("resampling", "MEQ/src/Cells.cc: Cells(const Cells&, const int[], ...)"), ("records", "MEQ/src/Cells.cc: validateContent"), ("domains", "MEQ/src/Domain.cc: envelope, supersetOfProj")],
   [("row of cells", "centre and size of each, by axis", "grid_, cell_size_"), ("segments", "first and last cell of each uniform run", "seg_start_, seg_end_"), ("domain", "interval by axis", "domain_")],
   ["cells, sizes, ends, segments, domain and shape of every grid", "its comparison with others"], technique=TECH,
   note="Exhaustive over all rows of up to 4 (thorough: 6) cells in the model; thousands of random histories of real grids over 8 axes. Merging by a number that does not divide the number of cells is not looked at; comparison takes grids with the same domain and numbers of cells for the same, as its documentation says."),
]
