"""The properties and how each is decided (source of properties.jsonl and MANIFEST.json)."""

HOOKS = None
NA = {}
PROPS = []


def P(id, title, statement, over, text, why, files, mech, note, state=(), observe=(), technique=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": list(observe), "hook_needed": None},
        "note": note,
        "technique": technique or "TLA+ specification, TLC; conformance of recorded traces",
    })


P("C01", "Deque behaves as a double-ended sequence under every history",
  "Whatever sequence of constructions, pushes and pops at either end, reservations, element writes, copies, moves, "
  "clears and comparisons is applied to a set of Deques, each holds exactly the sequence of values that the same calls "
  "give an ideal double-ended list, seen alike through size, front, back, wrap-around indexing, equality and the values pops return. "
  "Capacity never falls below the size or the static size, and a call whose result fits the announced capacity allocates nothing. "
  "A moved-from Deque is empty and usable.",
  ["histories"], "all histories of public calls over up to three Deques, static sizes including zero, and element counts around each capacity boundary",
  "The tests run a few hundred random pushes and pops on one buffer from a default start; they do not copy or move between "
  "buffers whose ring is rotated, grown or part-filled, where the cases multiply.",
  ["geomc/Deque.h"],
  [("ring arithmetic of head, size and capacity", "geomc/Deque.h:item, push_front, pop_front"),
   ("growth re-packs the ring into a new array", "geomc/Deque.h:reserve"),
   ("steal or element-wise move", "geomc/Deque.h:Deque(Deque&&), operator=(Deque&&)")],
  "TLC proves the ring design (head/size/capacity/cells) refines the abstract sequence for two objects with bounded capacity; "
  "every transition of that graph and random histories over three objects are replayed on the real class and each step judged by TLC "
  "against the abstract specification. Assumes element operations do not throw and no argument aliases the container.",
  state=[("head, size, capacity", "the live window of the ring", "geomc/Deque.h")],
  observe=["size", "capacity", "operator[]", "front", "back", "pop_front", "pop_back", "operator=="],
  technique="TLA+ refinement (RingDeque => SeqContainer) in TLC; spec-generated walks replayed, traces judged by TLC")

P("C02", "SmallStorage behaves as a sequence under every history",
  "Whatever sequence of constructions, appends, pops, resizes, reservations, element writes, copies, moves, clears and comparisons "
  "is applied to a set of SmallStorage arrays, each holds exactly the sequence an ideal list would, seen alike through size, empty, indexing, "
  "iteration, data, front, back, equality and popped values. Capacity never falls below the size or the static size, and nothing is "
  "allocated by a call whose result fits the present capacity (or, for constructors, the static size). "
  "A moved-from array is empty and usable.",
  ["histories"], "all histories of public calls over up to three arrays, for static sizes including zero",
  "The tests run a handful of fixed sequences on one array and check the reservation case only in a disabled test; crossing between static and "
  "heap storage by copy, move and growth is not enumerated.",
  ["geomc/SmallStorage.h"],
  [("growth moves live items to a larger array", "geomc/SmallStorage.h:_ensure_capacity"),
   ("steal or element-wise move", "geomc/SmallStorage.h:SmallStorage(SmallStorage&&), operator=(SmallStorage&&)"),
   ("reuse of storage on copy assignment", "geomc/SmallStorage.h:operator=(const SmallStorage&)")],
  "As C01, with the implementation-shaped specification SmallArray.",
  observe=["size", "empty", "capacity", "operator[]", "begin/end", "data", "front", "back", "pop_back", "operator=="],
  technique="TLA+ refinement (SmallArray => SeqContainer) in TLC; spec-generated walks replayed, traces judged by TLC")

P("C03", "Containers construct and destroy every element exactly once",
  "At every point of every history of calls on Deques and SmallStorage arrays, the live element objects are exactly the items the containers hold: "
  "no element is constructed over a live one, destroyed twice, read, moved or assigned after its end, or left alive when its container drops it or dies. "
  "Heap storage is returned with the container that holds it.",
  ["histories"], "all histories of public calls over up to three containers of each kind",
  "The tests count constructions on a few straight-line sequences; leaks and double destruction hide in particular combinations of static and "
  "heap storage, rotation and partial fill.",
  ["geomc/Deque.h", "geomc/SmallStorage.h"],
  [("placement construction and explicit destruction of cells", "geomc/Deque.h, geomc/SmallStorage.h")],
  "The refinement includes the invariant that a cell is occupied exactly when it lies in the live window; on the code, elements with a liveness "
  "registry report every construction, destruction and access, compared by TLC with the abstract contents after each call (under AddressSanitizer).",
  observe=["element constructors, assignments and destructors"],
  technique="TLA+ refinement in TLC; element liveness in replayed walks and random histories judged by TLC")

P("C05", "A tree keeps its structure under every history of edits",
  "Whatever sequence of insertions of items and nodes (single or several, at any position), erasures, flattening, clearing, splitting, adoption of subtrees of the same or another tree, copies, moves and assignments "
  "is applied to Trees, each holds exactly the nested structure the same calls give an ideal ordered tree: every node's data, children, items (its leaves' items in order) and counts, its parent, the sibling-contiguous order of nodes both ways, size and equality. "
  "The first child added to a leaf takes over its items; returned iterators refer to what was inserted or follows what was erased; calls naming a node or item of another parent change nothing and say so. Copies share nothing with their source.",
  ["histories"], "all histories of public calls over two trees of integers",
  "The repository's tree test does not compile, so no test covers the tree; and boundary references in ancestors go wrong only after particular edits at particular edges.",
  ["geomc/Tree.h"],
  [("insertion points in the lists of nodes and items", "geomc/Tree.h:node_successor, item_successor"),
   ("item bounds and counts of ancestors", "geomc/Tree.h:update_boundary_items, recalculate_references"),
   ("edits", "geomc/Tree.h:insert_child_node, insert_item, erase, flatten, clear, split, adopt")],
  "TLC proves that the representation (two lists, with references from each node to its parent, first and last child and item, and counts) refines the nested tree under every history of up to 5 nodes and 2 items; every transition, "
  "and random histories with all operations on two trees, are replayed on the real class, and both whole trees compared after every call.",
  state=[("_nodes, _items", "sibling-contiguous list of nodes, depth-first list of items", "geomc/Tree.h")],
  observe=["Tree", "Subtree", "ConstSubtree"],
  technique="TLA+ refinement in TLC; spec-generated walks replayed, histories judged by TLC")

P("C06", "Tree queries visit exactly the nodes of their subtree that pass, in order",
  "A query over a subtree visits, in depth-first order and once each, exactly the nodes passing the test that have no excluded node above or at them, wherever the subtree lies in its tree, and then ends; "
  "find_parent returns the leaf holding an item when it lies in the subtree (and no node on the way is excluded) and end() otherwise; subtree ranges, child ranges and the moves to parent and first child agree with the structure. Const and mutable subtrees answer alike and nothing is changed.",
  ["inputs", "histories"], "all trees, subtrees, and bounding and testing predicates",
  "The repository's tree test does not compile, so no test covers the tree; ends of inner subtrees are where the iterators go wrong.",
  ["geomc/Tree.h"],
  [("depth-first successor, with or without descending", "geomc/Tree.h:depth_first_successor"),
   ("query iterators", "geomc/Tree.h:QueryIterator, query"),
   ("search for an item's leaf", "geomc/Tree.h:find_parent")],
  "TLC proves the walk (first child, or next sibling of the nearest ancestor) to visit exactly the nodes not below an excluded one, for every tree of up to 5 nodes, every subtree and every set of excluded nodes; recorded queries over random trees are judged against the nested tree.",
  observe=["Subtree::query", "Subtree::find_parent", "subtree_begin", "subtree_end", "operator+", "operator-"],
  technique="TLA+ model of the walk in TLC; recorded queries judged by TLC")

P("C07", "Grid and matrix iterators visit exactly the cells of their region, in order",
  "A GridIterator over a box of integer points in any dimension, with negative or positive corners and either array order, visits every point of the box exactly once "
  "in that order, forwards from begin and backwards from end; +n, -n, differences, equality and ordering act like those of the points' ordinals. "
  "Every way of reading a matrix (operator(), operator[], begin/end, rows, columns, regions, and the bare data in its layout) sees the same elements for "
  "row- and column-major, static, dynamic, shared, wrapped, diagonal, permutation and as_transpose() matrices of any shape; writing through any of them changes that element alone. "
  "A new matrix is the identity, square or not.",
  ["inputs"], "all boxes, positions, offsets and matrix shapes, layouts and storage kinds",
  "The tests walk a few shapes of one layout forwards; offsets across carries, off-end positions, walking backwards, negative corners and non-square or mixed static and dynamic shapes are not covered.",
  ["geomc/shape/GridIterator.h", "geomc/linalg/mtxdetail/MatrixIterator.h", "geomc/linalg/mtxdetail/MatrixLayout.h", "geomc/linalg/mtxdetail/MatrixBase.h", "geomc/linalg/mtxtypes/SimpleMatrix.h", "geomc/linalg/mtxtypes/DiagMatrix.h"],
  [("odometer step and carry", "geomc/shape/GridIterator.h:increment, decrement, advance"),
   ("transposed traversal of a flat array", "geomc/linalg/mtxdetail/MatrixLayout.h:TransposeIterator"),
   ("element proxies and sub-region iteration", "geomc/linalg/mtxdetail/MatrixIterator.h")],
  "TLC proves that the odometer with carries refines a counter in one to four dimensions; recorded sweeps, jumps and element accesses of the real iterators "
  "over random boxes and all matrix kinds are judged by TLC against the ordinal arithmetic.",
  observe=["GridIterator", "begin/end", "row", "col", "region_begin/region_end", "operator[]", "data_begin", "as_transpose", "set_identity"],
  technique="TLA+ odometer refinement in TLC; recorded iterations judged by TLC")

P("C08", "Permutation matrices represent the same permutation in all their views",
  "Under any history of row and column swaps, transpositions, reassignments from source or destination maps, products, copies, and identity resets, "
  "a PermutationMatrix's rows sources, column sources, destinations, elements, sign and determinant all describe the one permutation that the history defines; "
  "products with permutations and other matrices and vectors move rows and columns accordingly, and permutation_apply and permutation_sign act as the permutation given.",
  ["histories"], "all histories over two matrices, statically and dynamically sized",
  "The tests check one decomposition's permutation; the cached sign and the two mirrored maps only disagree after particular sequences.",
  ["geomc/linalg/mtxtypes/PermutationMatrix.h", "geomc/linalg/mtxdetail/MatrixMult.h", "geomc/linalg/mtxdetail/MatrixDet.h"],
  [("paired source and destination maps", "geomc/linalg/mtxtypes/PermutationMatrix.h:swap_rows, swap_cols, transpose"),
   ("lazily computed sign", "geomc/linalg/mtxtypes/PermutationMatrix.h:sign"),
   ("product of permutations", "geomc/linalg/mtxdetail/MatrixMult.h")],
  "TLC proves the design (two mutually inverse maps, a lazily cached sign) over all histories for two matrices of size up to 3 and one of size 4; every transition, and random histories for sizes up to 6, "
  "are replayed on the real class and judged.",
  state=[("row_src, row_dst, _sign", "mutually inverse maps and the cached sign", "geomc/linalg/mtxtypes/PermutationMatrix.h")],
  observe=["getRowSources", "getColSources", "operator()", "sign", "det", "operator*"],
  technique="TLA+ model in TLC; spec-generated walks replayed, traces judged by TLC")

P("C09", "Matrix arithmetic is exact for every kind of operand and aliasing",
  "Products (of matrices with matrices and vectors, into a new or given destination, or accumulated), sums, differences, scaling, transposition, copying, conversion and comparison "
  "yield the mathematical result for every combination of row- and column-major, static, dynamic and half-dynamic, wrapped, diagonal (square or not) and permutation matrices and vectors. "
  "mul() and transpose() do so even when the destination shares some or all of its storage with an operand; elementwise functions may write over an operand itself. "
  "Nothing outside the destination changes. Dynamic sizes that do not agree throw, leaving the destination as it was; matrices of different sizes are unequal.",
  ["inputs"], "all operand kinds, shapes and overlaps of storage",
  "The tests multiply and copy a few shapes without overlap; the dispatch has dozens of specialisations over operand kinds, and the aliasing test only matters for partial overlaps.",
  ["geomc/linalg/Matrix.h", "geomc/linalg/mtxdetail/MatrixMult.h", "geomc/linalg/mtxdetail/MatrixArithmetic.h", "geomc/linalg/mtxdetail/MatrixCopy.h", "geomc/linalg/mtxdetail/MatrixFunctionImpl.h", "geomc/linalg/mtxdetail/MatrixGlue.h"],
  [("temporary when storage overlaps", "geomc/linalg/Matrix.h:mul, transpose, mtx_aliases_storage"),
   ("dimension agreement checks", "geomc/linalg/Matrix.h:mul, MatrixGlue.h:MatrixDimensionMatch"),
   ("specialised products", "geomc/linalg/mtxdetail/MatrixMult.h:_ImplMtxMul")],
  "TLC checks the overlap rule on all windows of a small memory (MtxAlias): writing element by element when storage is disjoint, else through a temporary, leaves the memory as if the operands had been read first. "
  "Recorded operations of the real code, over all kinds of operands and over random windows on one buffer, are judged exactly by TLC.",
  observe=["mul", "mul_acc", "operator*", "operator+", "operator-", "add", "sub", "scale", "transpose", "mtxcopy", "operator==", "DimensionMismatchException"],
  technique="TLA+ memory model in TLC; recorded matrix operations judged exactly by TLC")

P("C10", "Decompositions, solutions and inverses satisfy their defining equations",
  "decomp_plu and decomp_lup produce unit lower and upper triangular factors of the permuted matrix, with the permutation and its parity, and report degenerate systems exactly; "
  "linear_solve and backsolve solve A X = B for every nonsingular A and refuse singular ones; inverses multiply to the identity, in any mixture of layouts, static or dynamic, in place or not, and singular matrices are reported "
  "(leaving the destination alone where documented); determinants equal the Leibniz sum; orthogonal() and nullspace() return a full basis of the complement for every independent set, and zero vectors for a dependent one; "
  "partial pivoting keeps multipliers at most one; cholesky recovers the factor of a positive definite matrix and refuses others; orthogonalize, orthonormalize and the projections span and project as documented.",
  ["inputs"], "all matrices, including singular ones and ones with zeros at awkward places, of sizes 1 to 6",
  "The tests draw random well-conditioned matrices of a few sizes, so zero pivots, exact singularity, rectangular shapes and mixed layouts never occur.",
  ["geomc/linalg/LUDecomp.h", "geomc/linalg/Cholesky.h", "geomc/linalg/Orthogonal.h", "geomc/linalg/mtxdetail/MatrixInv.h", "geomc/linalg/mtxdetail/MatrixDet.h"],
  [("in-place elimination with row or column exchanges", "geomc/linalg/LUDecomp.h:decomp_plu, decomp_lup"),
   ("permuted right-hand sides, in-place substitution", "geomc/linalg/LUDecomp.h:linear_solve, backsolve_lu, backsolve_plu"),
   ("closed-form and general inverses and determinants", "geomc/linalg/mtxdetail/MatrixInv.h, MatrixDet.h"),
   ("back substitution for the complement", "geomc/linalg/Orthogonal.h:nullspace, orthogonal")],
  "TLC checks elimination with every choice of pivots over finite fields, for all small matrices (Elim): the factors, parity, degeneracy, determinant and nullspace. "
  "The real templates are instantiated over the integers modulo primes, so that every recorded result is judged exactly by TLC, singular cases included; the routines needing roots are judged over doubles, in fixed point.",
  observe=["decomp_plu", "decomp_lup", "backsolve_plu", "backsolve_lu", "linear_solve", "inv", "inv2x2", "inv3x3", "inv4x4", "invNxN", "det", "orthogonal", "nullspace", "cholesky", "orthogonalize", "orthonormalize", "project_to_subspace"],
  technique="TLA+ elimination model over finite fields in TLC; recorded results over the same fields judged exactly by TLC")

P("C11", "Affine transforms compose, invert and act as the maps they stand for",
  "Under every history of building, chaining, inverting, casting, comparing and resizing AffineTransforms, each stands for the affine map its construction names (translation, scaling, rotation about an axis, a centre or by a quaternion, in the plane, a matrix, "
  "the alignment of one direction with another), with its stored matrix and inverse always those of that map; a * b applies b and then a, a / b applies the inverse of b and then a; apply and applyInverse take points, vectors, normals and rays as the map and its inverse do, "
  "and normals stay perpendicular to the surfaces they were perpendicular to. Equal transforms have equal hashes. Aligning opposite directions gives some half turn.",
  ["histories"], "all histories over registers of invertible maps of 2, 3 and 4 dimensions",
  "The tests never use AffineTransform; a wrong order, a matrix inconsistent with its inverse or a normal transformed as a vector shows only in compositions of maps that do not commute.",
  ["geomc/linalg/AffineTransform.h", "geomc/linalg/Quaternion.h"],
  [("pair of matrix and inverse", "geomc/linalg/AffineTransform.h:mat, inv"),
   ("constructors of maps", "geomc/linalg/AffineTransform.h:translation, scale, rotation, transformation, rotation_direction_align"),
   ("composition", "geomc/linalg/AffineTransform.h:operator*, operator*=, operator/, operator/=, inverse, resized"),
   ("action", "geomc/linalg/AffineTransform.h:apply, applyInverse, applyVector, applyNormal, apply_direction")],
  "TLC checks on every short history that composition of homogeneous matrices is composition of maps, that inverses cancel, that normals stay normal and that resizing is consistent (AffineModel, exact rationals). "
  "Recorded histories of the real class over float and double, built of rational rotations, are compared by TLC with exact rational maps, within the stated tolerance (a few 1/1024).",
  observe=["AffineTransform", "translation", "scale", "rotation", "transformation", "rotation_direction_align"],
  technique="TLA+ model of affine maps over the rationals in TLC; recorded histories judged by TLC")

P("C12", "Boxes act as the sets of points they contain",
  "For boxes (Rect) of any dimension over integers or reals, with inclusive ends and any axis with lo > hi meaning empty: union is the smallest box around both operands (empty box: identity), intersection is the set intersection, "
  "contains and intersects hold exactly when the point sets are so related (touching boxes intersect, empty ones never), translation, dilation, Minkowski sum, scaling, cartesian product, slicing and exclusion act on the sets, mutating forms agree with pure ones, and no operand changes. "
  "Dimensions, centre, volume and emptiness describe the set (integer boxes count both ends; lengths may be given negative). clip is the nearest contained point, project the nearest boundary point, sdf and dist2 the distances to them; "
  "contact_vector moves a box of nonzero volume by the least way to just touching; remap and unmap are inverse; fitted_to keeps the aspect and just contains.",
  ["inputs"], "all boxes and points, empty, flat, touching, nested and negative ones included, of dimensions 1 to 4",
  "Boxes only appear as scaffolding in the tests; edge contact, emptiness, integer ends and interior projection never matter to their assertions.",
  ["geomc/shape/Rect.h", "geomc/linalg/vecdetail/VecBase.h", "geomc/linalg/vecdetail/VecStd.h"],
  [("axis-wise bounds", "geomc/shape/Rect.h:operator|, operator&, operator-, contains, intersects"),
   ("ends of integer ranges", "geomc/shape/Rect.h:endpoint_measure, from_center, from_corner, center, dimensions"),
   ("nearest points", "geomc/shape/Rect.h:clip, project, sdf, contact_vector")],
  "TLC proves the axis-wise rules equal to the set operations, nearest points included, for all boxes of a small lattice under every history of operations (RectModel); recorded operations of the real class over int, int64, float and double, dimensions 1 to 4, are judged exactly.",
  observe=["Rect"],
  technique="TLA+ box/point-set refinement in TLC; recorded operations judged exactly by TLC")

P("C20", "Quaternions and rotations turn vectors exactly as their definitions say",
  "Quaternion products, conjugates, inverses and norms obey the algebra of Hamilton's units, and a unit quaternion turns vectors as the rotation it names: built from axis and angle, from the alignment of two vectors (also opposed or parallel ones), and read back as axis and angle or angular displacement. "
  "rotation_scale, slerp, exp, log and pow follow the one-parameter group of the rotation, slerp going the shorter way from end to end. Vec2 and Vec3 rotations about axes and centres agree with them, "
  "and polar and spherical coordinates convert to the point named and back; angle_to is the angle between vectors.",
  ["inputs"], "all quaternions, axes, angles, centres and pairs of vectors, degenerate and opposed ones included",
  "The tests never call these functions; errors appear only away from the coordinate axes, beyond half turns or for opposed vectors.",
  ["geomc/linalg/Quaternion.h", "geomc/linalg/vecdetail/Vec2.h", "geomc/linalg/vecdetail/Vec3.h"],
  [("Hamilton product and conjugation", "geomc/linalg/Quaternion.h:operator*, conj, operator*(Vec)"),
   ("half-angle construction", "geomc/linalg/Quaternion.h:rotation_from_axis_angle, rotation_direction_align, rotation_scale, slerp"),
   ("rotation about an axis", "geomc/linalg/vecdetail/Vec3.h:rotate; Vec2.h:rotate"),
   ("polar and spherical", "geomc/linalg/vecdetail/Vec3.h:to_spherical, from_spherical; Vec2.h:to_polar, from_polar")],
  "TLC checks the algebra of whole quaternions (associativity, norms, agreement with rotation matrices, half angles) on a lattice under every short history (RotModel). Recorded calls of the real functions at whole and Pythagorean arguments are judged by TLC against exact rationals: "
  "whole-number algebra bit for bit, roots and angles within a stated tolerance.",
  observe=["Quat", "Vec<T,2>", "Vec<T,3>"],
  technique="TLA+ quaternion model in TLC; recorded calls judged by TLC against exact rationals")

P("C21", "Random draws are exact and repeatable, and samples fill their regions evenly",
  "Each generator gives the sequence of words its documented algorithm (linear congruential, Mersenne twister recurrence, xoshiro256++) gives from its seed, and reseeding starts it anew, with nothing left of the former sequence. "
  "Coins are the bits of whole words, each used once. Integer draws of a range lie in it and take each value with exactly equal probability, for every size of range and either sign, also across the whole type; draws of a whole type use all its bits. "
  "Real draws have every representable value of [0,1] with the probability of the reals that round to it; scaled ones lie in the range. permute can reach every order, each by exactly one choice of draws. "
  "Sampler's and SampleShape's points lie in the sphere, ball, shell, cap, cone, disk, arc, box or simplex named, and are spread evenly over it.",
  ["inputs", "histories"], "all words, seeds, ranges, and orders of draws and reseeding",
  "No test looks at the generators; biases at extreme ranges and stale coins need particular words and orders.",
  ["geomc/random/Random.cpp", "geomc/random/MTRand.cpp", "geomc/random/LCRand.h", "geomc/random/Xorshiro.h", "geomc/random/RandomTools.h", "geomc/random/SampleGeometry.h"],
  [("rejection of partial chunks", "geomc/random/Random.cpp:rand(hi)"),
   ("exponent by coins", "geomc/random/Random.cpp:rand<float>, rand<double>"),
   ("pool of coins", "geomc/random/Random.cpp:rand<bool>; rseed"),
   ("regions", "geomc/random/RandomTools.h:Sampler, permute; SampleGeometry.h")],
  "TLC weighs the methods exactly at small width (every range of 4-bit words, every value of a small float format, every shuffle, every history of draws and reseedings); the real code, fed scripted words aimed at chunk edges and by the real generators, "
  "is judged bit for bit against the same method at full width and against the generators' recurrences. Evenness of regions is judged on histograms of fixed seeds, within six sigma.",
  observe=["Random::rand", "MTRand", "LCRand", "XoshiroRand", "permute", "Sampler", "SampleShape"],
  technique="TLA+ model weighed exactly in TLC; recorded draws judged bit for bit by TLC")

P("C22", "Dual numbers carry the exact derivative through every operation",
  "For a Dual (x, dx), every arithmetic operator in every form (with duals, scalars on either side, scalars of another type, in place, also with itself as operand, incremented, negated, converted), fused and paired products, mix, clamp, and the functions sin, cos, tan, asin, acos, atan, atan2, exp, log, sqrt and pow "
  "give the value the bare numbers give and the derivative the chain rule gives, also for duals of duals, and for vectors and matrices of duals. "
  "abs, min, max, floor and ceil give the one-sided derivatives, and at kinks and jumps what the discontinuity policy says. Comparisons and hashes look at the value only; a scalar has derivative zero.",
  ["inputs", "histories"], "all values, derivatives, scalar types and policies, at kinks too",
  "The tests use duals only through the gradient of Perlin noise; most operators and functions are never called, and a wrong sign or a clobbered operand shows only in the derivative.",
  ["geomc/function/functiondetail/DualImpl.h", "geomc/function/functiondetail/DualFunctions.h", "geomc/function/functiondetail/UtilDetail.h"],
  [("product and quotient rules", "geomc/function/functiondetail/DualFunctions.h:operator*, operator/, operator*=, operator/="),
   ("chain rule per function", "geomc/function/functiondetail/DualFunctions.h:sin .. sqrt"),
   ("discontinuity policies", "geomc/function/functiondetail/DualImpl.h:discontinuity_impl; DualFunctions.h:abs, min, max, floor, ceil")],
  "TLC proves on every program of bounded length over two registers that the dual rules give value and derivative of the rational function computed, over a prime field, at every point (DualModel), and the one-sided rules at corners. "
  "The real templates run over prime fields, whole numbers, floats and doubles at points where the answer is rational; TLC judges each result, exactly for arithmetic and within a tolerance for functions.",
  observe=["Dual"],
  technique="TLA+ model of differentiation over finite fields in TLC; recorded operations judged by TLC")

P("C25", "Vectors, rays and colours act component by component as documented",
  "For vectors of every dimension and element type, every construction (scalar, array, list, smaller vector plus scalars, cast, resizing with zero padding), access by index, iterator or name, operator form (vector or scalar on either side, in place, also with itself as operand) and component-wise function gives exactly the component-wise result, "
  "and reads or writes nothing else. dot, cross, norms, distances, angles, perpendiculars, reflections, bounces and projections agree with their geometric definitions whatever the length of the normal or axis, and stay defined at zero vectors and parallel vectors. "
  "min/max/argmin/argmax pick the documented (first) entry. Rays give points at multiples and distances and the nearest point of their line; packed colours keep each channel; rainbow runs through the hues periodically. Equal values are equal and hash alike.",
  ["inputs"], "all dimensions, element types and values, zeros, ties, negatives and parallel vectors included",
  "The tests use a few operations in three dimensions on random reals; other dimensions, whole numbers, degenerate arguments and most functions are never called.",
  ["geomc/linalg/Vec.h", "geomc/linalg/vecdetail/VecBase.h", "geomc/linalg/vecdetail/Vec2.h", "geomc/linalg/vecdetail/Vec3.h", "geomc/linalg/vecdetail/Vec4.h", "geomc/linalg/vecdetail/VecStd.h", "geomc/linalg/Ray.h"],
  [("component-wise operations", "geomc/linalg/vecdetail/VecBase.h:VecCommon; geomc/linalg/Vec.h:operators"),
   ("reflection and projection", "geomc/linalg/vecdetail/VecBase.h:reflect_about, project_on, with_length"),
   ("rays", "geomc/linalg/Ray.h:project, dist2, at_distance"),
   ("packed colours", "geomc/linalg/vecdetail/Vec4.h:from_argb, from_rgba")],
  "TLC proves the laws of the specified operations (mirroring twice, lengths kept, residuals orthogonal, nearest points, hue symmetry) on all small vectors of two to four dimensions (VecModel). The real templates run on float, double and int vectors of two to six dimensions; TLC judges every recorded result, exactly where it is representable and otherwise within one unit in 256 or 1024.",
  observe=["linalg/Vec", "vecdetail", "Ray.h"],
  technique="TLA+ model of vector operations in TLC; recorded operations judged by TLC")

P("C26", "Scalar helpers are exact on the edges of their domains",
  "positive_mod, floor_div, ceil_div and snap give the mathematical remainder, quotients and multiple for every sign and across the whole range of the type; is_power_of_two and clamp are exact. "
  "diff_of_products, sum_of_products and multiply_add keep their accuracy when the products nearly cancel. mix, interp_linear and interp_cubic pass through their data and follow the linear and Catmull-Rom weights in any number of dimensions. "
  "quadratic_solve reports real roots exactly when there are some and both satisfy the equation; degrees, radians and angle_to agree with the circle; legendre, legendre (also associated), legendre_integral and chebyshev evaluate the polynomials they name.",
  ["inputs"], "all arguments, negative, extreme, cancelling and degenerate ones included",
  "The tests do not call these functions; errors hide at signs, exact multiples, extremes of the type, cancellation and vanishing coefficients.",
  ["geomc/function/Utils.h", "geomc/function/Basis.h", "geomc/geomc_defs.h"],
  [("quotients", "geomc/function/Utils.h:positive_mod, floor_div, ceil_div, snap"),
   ("compensated products", "geomc/function/Utils.h:diff_of_products, sum_of_products, multiply_add"),
   ("interpolation", "geomc/function/Utils.h:interp_linear, interp_cubic, mix"),
   ("recurrences", "geomc/function/Basis.h:legendre, legendre_integral, chebyshev")],
  "TLC proves the defining relations (quotient and remainder, weights that reproduce polynomials, recurrences against explicit polynomials) on bounded whole numbers (ScalarModel). Recorded calls over every provided type are judged exactly wherever the answer is representable, and within stated tolerances elsewhere.",
  observe=["Utils.h", "Basis.h"],
  technique="TLA+ model of the defining relations in TLC; recorded calls judged by TLC")

P("C13", "Every shape's containment, support, distance and bounds describe one set",
  "For every shape (Sphere, Rect, Capsule, Cylinder, Simplex, and Extruded, Frustum, Oriented and Dilated wrapped around them, nested, in any dimension, moved by any affine map), contains tells exactly the points of the documented set, surface included; convex_support gives a point of the shape furthest in the direction, whatever its length; bounds is the tightest box; "
  "sdf is the signed distance to the surface; project and clip give a point on the surface, none nearer; normal is the unit direction in which the distance grows. extrude, frustum, dilate, roundrect and xf * shape make the shape they name, and asking through Convex, AnyConvex or the traits gives the same answers.",
  ["inputs"], "all shapes, nestings and points: inside, outside, on the surface, on the axis, at the centre, beyond rims",
  "The tests compare a few shapes with sampled points in general position; caps, rims, axes, centres, mirrored maps and most nestings are never asked about.",
  ["geomc/shape/Shape.h", "geomc/shape/Sphere.h", "geomc/shape/Rect.h", "geomc/shape/Capsule.h", "geomc/shape/Cylinder.h", "geomc/shape/Simplex.h", "geomc/shape/Extruded.h", "geomc/shape/Frustum.h", "geomc/shape/Oriented.h", "geomc/shape/Dilated.h", "geomc/shape/shapedetail/SimplexProject.h"],
  [("support functions", "geomc/shape/*.h:convex_support, bounds"),
   ("distance and projection", "geomc/shape/*.h:sdf, project, clip, normal"),
   ("wrapping", "geomc/shape/Oriented.h, Extruded.h, Frustum.h, Dilated.h"),
   ("traits", "geomc/shape/Shape.h:shape_traits")],
  "TLC proves on every shape built by a bounded history of wrappings that the specified membership, support and distance describe one convex set (ShapeModel). The real templates, over some forty shape types with whole-number parameters, are asked about points aimed at surfaces, axes and middles; TLC judges contains exactly and the rest within 3/256 to 8/256. "
  "A point on the surface must be contained where binary arithmetic is exact there.",
  observe=["contains", "convex_support", "bounds", "sdf", "project", "clip", "normal", "shape_traits"],
  technique="TLA+ model of convex shapes in TLC; recorded answers judged by TLC")

P("C16", "Ray tests give exactly the stretch of the ray inside the shape",
  "For every ray-traceable shape (Sphere, Rect, Cylinder, Simplex, and Extruded, Frustum and Oriented wrapped around them), any origin (inside, outside, behind, on the surface) and any direction of any length, intersect(ray) is the interval of multiples of the direction at which the ray is inside the shape, and is empty if there are none. "
  "Rays parallel to faces, along axes, through the tip of a frustum or through both halves of its cone are no exception. A facet (trace_simplex, or a simplex of N points) is hit exactly if the ray's line crosses it, at the reported multiple and surface coordinates.",
  ["inputs"], "all shapes, origins and directions, parallel and tangent ones included",
  "The tests shoot random rays at a few shapes; directions with zero components, rays through tips and axes, and nested shapes are hardly tried.",
  ["geomc/shape/Sphere.h", "geomc/shape/Rect.h", "geomc/shape/Cylinder.h", "geomc/shape/Simplex.h", "geomc/shape/Extruded.h", "geomc/shape/Frustum.h", "geomc/shape/Oriented.h", "geomc/function/Utils.h"],
  [("slabs", "geomc/shape/Rect.h:intersect(Ray); Extruded.h:intersect(Ray)"),
   ("quadrics", "geomc/shape/Sphere.h, Cylinder.h:intersect(Ray)"),
   ("projection to height one", "geomc/shape/Frustum.h:intersect(Ray)"),
   ("facets", "geomc/shape/Simplex.h:trace_simplex, intersect(Ray)")],
  "TLC proves on all rays wandering about nested polyhedral shapes that the interval constructions (slabs, half-lines, inverse heights) hold exactly the multiples inside (RayModel). Recorded intervals of the real code, for 36 shape types, are judged by TLC against exact membership along the ray, coarsely everywhere and finely about the ends; touching without entering is judged either way.",
  observe=["intersect(Ray)", "trace_simplex"],
  technique="TLA+ model of ray intervals in TLC; recorded intervals judged by TLC")

P("C14", "Overlap tests answer truly for every pair of convex shapes",
  "For any two convex shapes of the same dimension (spheres, boxes, capsules, cylinders, simplexes of any number of points, and extruded, frustum, oriented and dilated shapes, nested), Convex::intersects, geom::intersects, Intersector and the shapes' own pair tests (Sphere, Rect, Capsule, Oriented boxes) say the shapes overlap exactly if they have a common point, in either order; only a bare touch may go either way, "
  "and that not for spheres and boxes among themselves. An Intersector gives the same verdicts whatever pairs it was used on before, and after a negative verdict its separation_axis separates the shapes.",
  ["inputs", "histories"], "all pairs of shapes and positions; all sequences of pairs tested with one Intersector",
  "The tests compare two methods on random oriented boxes and test one fresh Intersector at a time; history, curved and flat shapes and degenerate searches are not covered.",
  ["geomc/shape/Intersect.h", "geomc/shape/shapedetail/SimplexProject.h", "geomc/shape/shapedetail/SeparatingAxis.h", "geomc/shape/Sphere.h", "geomc/shape/Rect.h", "geomc/shape/Capsule.h", "geomc/shape/Oriented.h"],
  [("search for the origin in the difference", "geomc/shape/Intersect.h:Intersector::intersects"),
   ("nearest face of a simplex", "geomc/shape/shapedetail/SimplexProject.h"),
   ("separating axes of boxes", "geomc/shape/shapedetail/SeparatingAxis.h"),
   ("pair tests", "geomc/shape/Sphere.h, Rect.h, Capsule.h, Oriented.h:intersects")],
  "TLC proves the search right on all small polytopes: whatever furthest point is picked and whatever axis an earlier run left, verdicts are right, a negative one leaves a separating axis, and a run ends in a few steps (GjkModel). Recorded verdicts of the real code, for arbitrary pairs of 38 shape types and a worn Intersector, are judged by TLC: clues (common points, separating directions) found by the driver count only where the specification confirms them; spheres are judged by exact distance.",
  state=[("separation_axis", "where the next search starts", "geomc/shape/Intersect.h"), ("simplex", "the face of the difference nearest the origin", "geomc/shape/Intersect.h")],
  observe=["intersects", "Intersector", "separation_axis"],
  technique="TLA+ state machine of the search in TLC; recorded verdicts judged by TLC")

P("C15", "Planes and simplexes measure, split and project space exactly",
  "A Plane's distances, half-space tests (of points, spheres, convex shapes and hulls), projections and origin are those of the set normal.p + d = 0, however it was made (from a normal, a point, basis vectors or a simplex), and applying or un-applying affine maps, mirrored ones included, or dilating it, carries the plane with its points and keeps them on their sides. "
  "For a simplex of any number of points in any dimension, volume, measure, contains, is_facing with its parameters, convex support, sdf, clip, project and normal are those of the convex hull of its points; the reported face is the one whose inside holds the nearest point. Insertion, exclusion, transformation and equality treat the points as a sequence of at most N + 1.",
  ["inputs", "histories"], "all planes, chains of maps, simplexes of 1 to N+1 points and query points in up to five dimensions",
  "The tests check projections on random full simplexes in low dimensions against sampled invariants; flat simplexes, higher dimensions, points on edges, reported faces and chains of mirrored maps are not covered.",
  ["geomc/shape/Plane.h", "geomc/shape/Simplex.h", "geomc/shape/shapedetail/SimplexProject.h", "geomc/shape/Dilated.h"],
  [("normal and offset under maps", "geomc/shape/Plane.h:apply, apply_inverse"),
   ("support points against the plane", "geomc/shape/Plane.h:contains, intersects"),
   ("recursion over faces, culled by their normals", "geomc/shape/shapedetail/SimplexProject.h"),
   ("barycentric coordinates", "geomc/shape/Simplex.h:contains, is_facing")],
  "TLC proves that the recursion over faces finds the nearest one in any order of visits for small simplexes and points in 2D and 3D (SimplexModel), and that planes keep the side of every point through chains of maps and their inverses (PlaneModel). Recorded answers of the real code in two to five dimensions are judged against exact Gram determinants; points exactly on a boundary are judged either way unless binary arithmetic is exact there.",
  observe=["Plane", "Simplex", "dilate(Plane)"],
  technique="TLA+ model of the face search and of mapped planes in TLC; recorded answers judged by TLC")

P("C18", "Rasters return what was stored, blended and continued as documented",
  "After any sequence of writes, a raster of any dimension and number of channels returns at each grid point the last value written there (zero or the source data at first), ignores writes outside, and continues beyond its edges by repeating, tiling, mirroring or a constant. "
  "copy() lists any region, inside or out, first dimension consecutive, and writes nothing else. sample() puts the outermost samples on the ends of the domain, and gives the nearest, multilinear or cubic blend of the 1, 2^M or 4^M samples about the point, alike whether its parameters are chosen at compile time or run time.",
  ["histories", "inputs"], "all sequences of writes and reads, extents including one, domains, points inside and beyond the domain, edge policies and interpolations",
  "No test touches the class.",
  ["geomc/function/Raster.h", "geomc/function/functiondetail/RasterDetail.h", "geomc/function/Utils.h"],
  [("sampling space to grid", "geomc/function/Raster.h:toGridSpace"),
   ("edge policies", "geomc/function/functiondetail/RasterDetail.h:_ImplEdge"),
   ("strides", "geomc/function/functiondetail/RasterDetail.h:_ImplRasterIndex"),
   ("separable blending", "geomc/function/Utils.h:interp_linear, interp_cubic")],
  "TLC explores all histories of writes on small rasters and proves the specification's samples interpolate the data, blend with unit weight, reproduce polynomials, repeat, reflect and hold as promised (RasterModel). Recorded histories of the real class in one to four dimensions, for several domain and data types, are judged step by step by TLC in exact fractions of a cell; nearest sampling at a tie is only judged where binary arithmetic is exact.",
  state=[("data", "value of each grid point", "geomc/function/Raster.h:m_data"), ("abyss", "value beyond the edges", "geomc/function/Raster.h:m_abyss")],
  observe=["Raster", "sample", "sample_discrete", "copy", "set", "setAbyss", "contains_gridpt", "domain", "dataExtents", "samplecount"],
  technique="TLA+ state machine of rasters in TLC; recorded histories judged by TLC")

P("C17", "A spatial partition finds everything in a region exactly once",
  "After any sequence of insertions, removals, changes and clears, a BinLatticePartition of any dimension holds exactly the inserted items that were not removed, several at one place included, and begin() to end() lists each once. "
  "A query, by region or by point and radius, lists exactly once each item of every bin the region touches and nothing else; so no item inside or on the boundary of the region is missed and none a cell away is listed. "
  "Its iterators equal only themselves until they end, restart at begin(), tell the bin they are in, and can be used to remove what they found.",
  ["histories", "inputs"], "all histories of edits and queries, cell sizes, positions on and off bin boundaries, negative ones included, in one to three dimensions",
  "No test touches the class.",
  ["geomc/shape/BinLatticePartition.h"],
  [("walk over the block of bins, carrying", "geomc/shape/BinLatticePartition.h:gotoNextNonemptyCell"),
   ("leaving a bin", "geomc/shape/BinLatticePartition.h:increment"),
   ("region to bins", "geomc/shape/BinLatticePartition.h:binRegion, binOf")],
  "TLC proves the cursor, for all small sets of items and regions, ends having listed each item of the touched bins once (BinModel). Recorded histories of the real class are judged step by step by TLC.",
  state=[("cells", "items by bin", "geomc/shape/BinLatticePartition.h:_cells")],
  observe=["insert", "erase", "clear", "size", "begin/end", "query", "binOf"],
  technique="TLA+ state machine of the search in TLC; recorded histories judged by TLC")

P("C24", "Equal values hash alike, every component counts, and bytes hash by SipHash",
  "For every hashable value (vectors, quaternions, rays, matrices, affine transforms, dual numbers, tuples and all shapes, nested ones included), values that compare equal have equal hashes, through hash(), Digest and std::hash alike, whatever the signs of their zeros or whatever stale or derived data lies beside them; "
  "equality holds exactly if all components are equal, and values with different components hash differently on 64 bits, in all cases explored. Keyed hashing of bytes is SipHash-2-4, for every key, length and both digest sizes, reading and writing nothing outside its buffers.",
  ["inputs"], "all pairs of values of the hashable types; all keys and messages",
  "The tests compute no hashes.",
  ["geomc/Hash.h", "geomc/function/functiondetail/SipHash.cpp", "geomc/linalg/Vec.h", "geomc/linalg/mtxtypes/SimpleMatrix.h", "geomc/linalg/AffineTransform.h", "geomc/linalg/Quaternion.h", "geomc/shape/Simplex.h", "geomc/shape/Oriented.h", "geomc/shape/Frustum.h"],
  [("SipHash rounds and padding", "geomc/function/functiondetail/SipHash.cpp:siphash"),
   ("combination of component hashes", "geomc/Hash.h:hash_combine, hash_array, hash_many"),
   ("one digest per type", "Digest<> next to each type")],
  "SipHash is specified in TLA+ on 16-bit limbs and checked against the published vectors; recorded digests of the real code are recomputed by TLC. Recorded pairs of values are judged for equality and hash by their components. That unequal values hash differently cannot hold for all values; it is judged on the values explored, where a collision by chance has odds of 2^-64.",
  observe=["hash", "Digest", "std::hash", "hash_bytes", "siphash", "operator=="],
  technique="TLA+ specification of SipHash and of equality in TLC; recorded hashes judged by TLC")

P("C04", "Storage is shared, duplicated or borrowed exactly as its policy says",
  "After any sequence of constructions, copies, assignments, moves, writes and destructions, with failures of allocation and of copying elements anywhere among them: shared dynamic storage is one array for all its copies and is released exactly with the last of them; unique and static storage is duplicated on copying, so that writing one never changes another; wrapped storage is the caller's array, never copied nor released. "
  "Every array keeps its size and its contents, moves of dynamic storage copy no element, every element is destroyed exactly once, and an assignment whose allocation fails leaves both sides as they were.",
  ["histories", "faults"], "all histories of a few holders of every kind and policy, static and dynamic, with failing allocations and failing element copies",
  "No test touches these classes directly.",
  ["geomc/Storage.h"],
  [("copy and move assignment", "geomc/Storage.h:UniqueStorage::operator="),
   ("sharing by reference count", "geomc/Storage.h:Storage<T,DYNAMIC_DIM>"),
   ("sizes which take no space", "geomc/Storage.h:Dimension")],
  "TLC proves reference counts, sole ownership, contents and absence of leaks on a model of the four policies (StoreModel). Recorded histories of all the storage types, with injected failures and counted elements, are judged step by step by TLC.",
  state=[("data", "the array held", "geomc/Storage.h:data"), ("sz", "its length", "geomc/Storage.h:sz")],
  observe=["constructors", "operator=", "operator[]", "get", "size", "Dimension::get", "Dimension::set"],
  technique="TLA+ state machine of ownership in TLC; recorded histories judged by TLC")

P("C23", "Noise and paths are the smooth functions their pieces define, exactly",
  "For every set of gradients, dimension and place (negative, far away and on the grid included), PerlinNoise::eval is exactly the quintic blend of the planes which the gradients of the cell's corners define; so it is zero on the grid and has no seams; gradient() returns the same value and its exact derivative, with nothing left over from elsewhere. "
  "Equal seeds make equal noise, copies are equal, and its gradients are of unit length (in one dimension, at most one) and drawn from all over the table. "
  "A Path goes through each knot with the knot's velocity, between knots is the quintic blend of the two straight motions, and beyond its ends goes on straight, for every number of knots and every time.",
  ["inputs"], "all gradient tables, places and dimensions; all knots and times",
  "A test compares noise gradients with differences at random points in some dimensions, within a tolerance; none touches paths.",
  ["geomc/function/PerlinNoise.h", "geomc/function/functiondetail/PerlinDetail.h", "geomc/function/Path.h"],
  [("interpolation axis by axis, in place", "geomc/function/PerlinNoise.h:eval, gradient"),
   ("corners of the cell of a negative place", "geomc/function/PerlinNoise.h:eval"),
   ("before, between and after the knots", "geomc/function/Path.h:eval")],
  "TLC proves on the specification that the pieces join in value and slope (SmoothModel). Values of the real code at quarter places, where they are exact in binary, are recomputed by TLC in integers.",
  observe=["PerlinNoise::eval", "PerlinNoise::gradient", "Path::eval"],
  technique="TLA+ definition of the blends, laws by TLC; exact recorded values judged by TLC")

P("C27", "Orthogonal polynomials and spherical harmonics have their exact values",
  "For every order and argument, the Legendre polynomials (associated ones and a column at a time included), their integrals, and the Chebyshev polynomials of both kinds have their exact values. "
  "Every way to evaluate or project onto a spherical harmonic (coefficient, basis, eval by direction of any length or by angles, project of any sample onto any contents) gives the same orthonormal real harmonic. "
  "A ZonalHarmonics is the sum of its multiples of Legendre polynomials; turned to any axis as SphericalHarmonics, of any number of bands, it is the same function of the angle to the axis, and turned back has the same coefficients. Spots and the Lambertian are exact. "
  "Sums, multiples, constants, inner products and normalization act on the functions as they say, on the bands that both operands have; self-convolution obeys its exponent; convolution on the sphere scales each band as a whole.",
  ["inputs"], "all orders, bands static and dynamic, mixed band counts, directions, axes and coefficients; in double precision",
  "No test touches these headers.",
  ["geomc/function/Basis.h", "geomc/function/SphericalHarmonics.h"],
  [("recurrences on order", "geomc/function/Basis.h:legendre, chebyshev, legendre_integral"),
   ("recurrence, band by band, sub-bands +m and -m", "geomc/function/SphericalHarmonics.h:_eval, _project"),
   ("scales between zonal and spherical coefficients", "geomc/function/SphericalHarmonics.h:SphericalHarmonics(ZonalHarmonics)")],
  "The polynomials and harmonics are defined in TLA+ in integers; TLC proves recurrences, orthogonality, integrals, the addition theorem and the sums of angles on them (HarmonicsModel). Values of the real code at rational arguments and directions, where they are fractions but for one known root, are recomputed exactly by TLC. The convention that relates the coefficients of two convolved functions is not specified, as the documentation leaves it open; what is decided there holds in each.",
  observe=["legendre", "legendre_integral", "chebyshev", "spherical_harmonic_coeff", "SphericalHarmonics", "ZonalHarmonics"],
  technique="TLA+ definitions with their laws by TLC; exact recorded values judged by TLC")
