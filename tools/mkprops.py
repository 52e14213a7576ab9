#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables here and checks/specs.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
from specs import SPECS
P = []


def p(id, title, statement, over, q, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], hook_needed=None))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)


p("C01", "Vectors of every storage kind behave as one mutable sequence of elements",
  "After any history of constructing, copying, moving, assigning, resizing, filling and element writes, a fixed, external or dynamic "
  "vector has exactly the size and elements that a plain sequence would have, whatever form the source takes (elements, arrays, initializer lists, "
  "vectors with different storage or element type, vectors plus trailing elements). External vectors always read and write the caller's buffer and "
  "nothing else, dynamic vectors take on the size of what is assigned to them, and all other live vectors keep their values.",
  ["histories", "inputs", "configurations"],
  "all operation histories on vectors of every storage kind, element type and size, and every documented construction and assignment source",
  "Each unit test builds one vector and looks once; interactions over histories (move after resize, assignment between storages, copies that share or do not share a buffer) are never run.",
  ["cml/vector/writable_vector.h", "cml/vector/writable_vector.tpp", "cml/vector/readable_vector.tpp", "cml/vector/fixed_compiled.h", "cml/vector/fixed_external.h", "cml/vector/dynamic_allocated.h", "cml/vector/dynamic_external.h"],
  [("element-wise assignment from any source", "cml/vector/writable_vector.tpp"), ("storage-specific construction, copy, move and resize", "cml/vector/dynamic_allocated.tpp, cml/vector/fixed_compiled.tpp, cml/vector/fixed_external.tpp, cml/vector/dynamic_external.tpp")],
  ["size/get/[]/data/begin/end of every live vector after every operation"])

p("C02", "Matrices of every storage, layout and basis behave as one 2-D array",
  "After any history of constructing, copying, moving, assigning, resizing and row, column, basis or element writes, a matrix has exactly the sizes and "
  "elements of a plain two-dimensional array, independent of its storage kind, memory layout, basis orientation and of the form or layout of the source. "
  "Raw data is always in the declared row-major or column-major order, basis element access selects rows for row-basis and columns for column-basis matrices, "
  "and external matrices read and write only the caller's buffer.",
  ["histories", "inputs", "configurations"],
  "all operation histories on matrices of every storage kind, element type, size, basis orientation and layout, and every documented construction and assignment source",
  "Unit tests check square row-major cases with one operation each; non-square mixed-layout histories, where row/column mix-ups show, are not run.",
  ["cml/matrix/writable_matrix.h", "cml/matrix/writable_matrix.tpp", "cml/matrix/readable_matrix.tpp", "cml/matrix/fixed_compiled.h", "cml/matrix/fixed_external.h", "cml/matrix/dynamic_allocated.h", "cml/matrix/dynamic_external.h", "cml/matrix/detail"],
  [("assignment, row/col/basis setters", "cml/matrix/writable_matrix.tpp"), ("layout-aware addressing and copying", "cml/matrix/detail")],
  ["rows/cols/get/(i,j)/basis access/data of every live matrix after every operation"])

p("C03", "Dynamic storage is never leaked or misused, even when an operation fails",
  "Every block a dynamic vector or matrix takes from its allocator is returned exactly once with the same size, every element in it is constructed before use and "
  "destroyed exactly once, and no operation reads or writes outside live storage or uses an indeterminate value. If an allocation or an element copy fails at any point "
  "of an operation, the failure reaches the caller, nothing leaks, every object stays usable, and an object that could not be resized keeps its elements.",
  ["histories", "fault_sequences", "inputs"],
  "all histories of operations on dynamic vectors and matrices, and a failure of every single allocation or element construction in them",
  "The tests never let an allocation or a copy fail, use trivial elements only, and do not run under a memory sanitizer.",
  ["cml/storage/allocated_selector.h", "cml/vector/dynamic_allocated.tpp", "cml/vector/dynamic_allocated.h", "cml/matrix/dynamic_allocated.tpp", "cml/matrix/dynamic_allocated.h", "cml/matrix/lu.tpp"],
  [("resize/copy/destruct of the element block", "cml/vector/dynamic_allocated.tpp, cml/matrix/dynamic_allocated.tpp"), ("temporaries made by products, inverse, LU", "cml/common/temporary.h")],
  ["allocator calls, element constructor/destructor calls, sanitizer reports"])

p("C04", "Vector expressions compute exactly their element-wise mathematical meaning",
  "Any well-formed expression built from vectors, scalars, sums, differences, negation, scalar multiples and quotients, element-wise products, cross products, "
  "subvectors, matrix rows, columns and matrix-vector products yields exactly the value obtained by evaluating each operator on plain sequences, "
  "whether it is used at once, assigned to any storage, or kept, copied or moved as an object and evaluated later. "
  "Evaluation never changes an operand and never refers to a temporary that is gone.",
  ["programs", "inputs", "configurations"],
  "all expression trees over vectors of all storages, element types, sizes and value categories (named, const, moved, temporary)",
  "Tests cover single operators on named fixed vectors; the danger is in composition, value categories and deferred evaluation, an infinite space of programs.",
  ["cml/vector/unary_ops.h", "cml/vector/binary_ops.h", "cml/vector/scalar_ops.h", "cml/vector/binary_node.h", "cml/vector/unary_node.h", "cml/vector/scalar_node.h", "cml/vector/cross_ops.h", "cml/vector/cross_node.tpp", "cml/vector/subvector_ops.h", "cml/vector/hadamard_product.h", "cml/matrix/row_ops.h", "cml/matrix/col_ops.h"],
  [("lvalue operands stored by reference, rvalues by value", "cml/vector/*_node.h"), ("lazy element evaluation", "cml/vector/*_node.tpp")])

p("C05", "Matrix expressions compute exactly their meaning in any basis and layout",
  "Any well-formed expression built from matrices, scalars, sums, differences, negation, scalar multiples and quotients, element-wise products, transposes, outer products "
  "and matrix products yields exactly the sizes and elements obtained by evaluating each operator on plain two-dimensional arrays, independent of the layouts, storages and value categories "
  "of its operands (element-wise operators may mix layouts; a matrix product needs one basis and layout) and of whether it is evaluated at once or kept and evaluated later. Evaluation never changes an operand and never refers to a temporary that is gone.",
  ["programs", "inputs", "configurations"],
  "all expression trees over matrices of all storages, element types, sizes, bases, layouts and value categories",
  "Tests cover single operators on named square matrices of one layout; composition with transposes and mixed layouts is an infinite space of programs.",
  ["cml/matrix/unary_ops.h", "cml/matrix/binary_ops.h", "cml/matrix/scalar_ops.h", "cml/matrix/transpose_ops.h", "cml/matrix/transpose_node.h", "cml/matrix/binary_node.h", "cml/vector/outer_product_node.h", "cml/matrix/matrix_product.tpp", "cml/matrix/hadamard_product.h"],
  [("lazy nodes", "cml/matrix/*_node.tpp"), ("basis and layout promotion", "cml/matrix/traits.h, cml/common/promotion.h")])

p("C06", "In-place operations equal their out-of-place counterparts",
  "For vectors, matrices and quaternions, the compound assignments, in-place normalize, transpose, inverse, conjugate, identity and fill operations, and the static or "
  "functional forms, all leave or return exactly what the corresponding expression computes, on named objects and on temporaries alike, and return the object they modified. "
  "This holds when the right-hand side is the modified object itself or the scalar is one of its elements, and operands other than the target never change.",
  ["inputs", "histories", "configurations"],
  "all values, storages and sequences of in-place operations, including self-referring scalars and operands",
  "Tests do one in-place operation on one named object and never alias its operand.",
  ["cml/vector/writable_vector.tpp", "cml/matrix/writable_matrix.tpp", "cml/quaternion/writable_quaternion.tpp"],
  [("compound assignment for lvalue and rvalue targets", "cml/vector/writable_vector.tpp, cml/matrix/writable_matrix.tpp, cml/quaternion/writable_quaternion.tpp")])

p("C07", "Size errors are always reported by the documented error, operands unchanged",
  "Every operation whose operands have run-time sizes that do not fit (sums, products, dot, cross, element-wise functions, assignment to a fixed or external target, square-only functions, "
  "fixed-dimension geometry) raises the documented size error instead of computing, reading out of bounds or truncating, and leaves the operands unchanged, and also the target of an assignment or element-wise in-place operation. "
  "Operations whose sizes fit never raise one.",
  ["inputs", "configurations"],
  "all size combinations of dynamic and external operands mixed with fixed ones, for every size-checked operation",
  "Tests try a handful of size pairs per operation; the sanitizers are off, so a missing check is only visible if it crashes.",
  ["cml/vector/size_checking.h", "cml/matrix/size_checking.h", "cml/quaternion/size_checking.h", "cml/mathlib/matrix/size_checking.h"],
  [("run-time size checks", "cml/vector/size_checking.tpp, cml/matrix/size_checking.tpp, cml/quaternion/size_checking.tpp, cml/mathlib/matrix/size_checking.tpp")])

p("C08", "Comparisons of vectors, matrices and quaternions are consistent orders",
  "Equality of vectors, matrices and quaternions is an equivalence that holds exactly when sizes and all elements are equal. The ordering of vectors and of quaternions is lexicographic, irreflexive, "
  "transitive and total, and the six comparison operators (== and != for matrices) always agree with each other. The result is independent of storage, layout, element types of the two sides and of whether a side is an expression.",
  ["inputs", "configurations"],
  "all pairs and triples of values, storages, layouts and expression operands, including ties in a prefix, negative zero and NaN-free extremes",
  "Tests compare a few hand-picked pairs; order axioms quantify over triples.",
  ["cml/vector/comparison.tpp", "cml/matrix/comparison.tpp", "cml/quaternion/comparison.tpp"],
  [("lexicographic comparison loops", "cml/vector/comparison.tpp, cml/matrix/comparison.tpp, cml/quaternion/comparison.tpp")])

p("C09", "Vector products, lengths, angles and projections match their definitions",
  "For all vectors in general position, dot, cross, perp-dot, triple and outer products, length, normalize, projections, perpendiculars, Manhattan distance and signed or unsigned angles in two and "
  "three dimensions have the value of their definition up to rounding, with the documented handedness and sign conventions, for every storage and element type. Equivalent forms (member, free, "
  "mixed storage, expression operands) agree.",
  ["inputs", "configurations"],
  "all vectors of all sizes, magnitudes, storages and element types, including nearly parallel and axis-aligned ones",
  "Tests check a few axis-aligned examples.",
  ["cml/vector/dot.tpp", "cml/vector/cross_node.tpp", "cml/vector/perp_dot.tpp", "cml/vector/triple_product.tpp", "cml/vector/outer_product.h", "cml/mathlib/vector/angle.tpp", "cml/mathlib/vector/misc.tpp", "cml/vector/readable_vector.tpp"],
  [("product and angle formulas", "cml/vector/*.tpp, cml/mathlib/vector/*.tpp")])

p("C10", "Matrix products and reductions are exact and independent of representation",
  "Matrix-matrix (of one basis and layout), matrix-vector and vector-matrix products, trace, transpose, row, column and basis access give the same, mathematically exact result for every combination of storage, layout, basis "
  "and sizes of the operands, including non-square ones and temporaries. The result type's orientation never changes the values.",
  ["inputs", "configurations"],
  "all operand values and all combinations of storage, layout, basis orientation and compatible sizes",
  "Tests multiply a few square matrices of one layout.",
  ["cml/matrix/matrix_product.tpp", "cml/matrix/vector_product.tpp", "cml/matrix/functions.h", "cml/matrix/transpose.h", "cml/matrix/row_col.h"],
  [("inner-product loops and result type selection", "cml/matrix/matrix_product.tpp, cml/matrix/vector_product.tpp, cml/common/temporary.h")])

p("C11", "Determinant, inverse and LU are correct for every invertible matrix",
  "For every well-conditioned square floating-point matrix of any size, storage, layout and basis, the determinant equals the exact one, the inverse times the matrix is the identity, LU factors multiply back to the "
  "(row-permuted) matrix with unit lower and upper triangular parts, and solving returns the solution, all up to rounding. Row order, scaling or zero leading entries do not matter where pivoting is offered, and in-place "
  "and static, run-time sized and closed-form variants agree.",
  ["inputs", "configurations"],
  "all non-singular matrices of sizes one and up, including permutations, zero diagonals, negative pivots and badly scaled rows, in every representation",
  "Tests invert one or two matrices per size, none of which needs pivoting.",
  ["cml/matrix/determinant.tpp", "cml/matrix/inverse.h", "cml/matrix/detail/inverse.h", "cml/matrix/detail/determinant.h", "cml/matrix/lu.tpp"],
  [("closed forms for 2, 3, 4 and pivoting elimination", "cml/matrix/detail"), ("LU with and without pivoting", "cml/matrix/lu.tpp")])

p("C12", "Quaternion algebra holds in every component order and cross-product convention",
  "Construction, access, sums, products, conjugate, inverse, norm, dot, exp, log and comparison of quaternions implement the quaternion algebra of the declared cross-product convention, "
  "and give the same quaternion whatever the component order. Indexed access and interchange with arrays and pointers follow the declared order; printing lists the real part first.",
  ["inputs", "configurations"],
  "all quaternions of both component orders, both cross conventions and all element types, alone and in expressions mixing named and temporary operands",
  "Tests use a few fixed values and mostly one convention.",
  ["cml/quaternion/fixed_compiled.h", "cml/quaternion/product.tpp", "cml/quaternion/product.h", "cml/quaternion/readable_quaternion.tpp", "cml/quaternion/writable_quaternion.tpp", "cml/quaternion/conjugate_ops.h", "cml/quaternion/inverse_ops.h", "cml/quaternion/imaginary_ops.h"],
  [("component order tags map W/X/Y/Z to storage", "cml/quaternion/order_tags.h"), ("cross type tags select the product sign", "cml/quaternion/cross_tags.h")])

p("C13", "Matrix, quaternion, axis-angle and Euler rotations represent the same rotation",
  "For every rotation, the matrix, quaternion, axis-angle pair and Euler angles (all orders) built from one another rotate every vector identically, for both bases, layouts, component orders and cross conventions, "
  "and converting back recovers an equivalent rotation. Generated matrices are orthonormal with determinant one and generated quaternions have unit length; rotation about an axis leaves the axis fixed and turns by the given angle in the right-handed sense; Euler rotations are applied about the fixed axes in the named order, and their derivative matrices are the derivatives of the Euler matrices.",
  ["inputs", "configurations"],
  "all angles, axes and Euler orders, including gimbal lock, half turns and tiny angles, in every representation convention",
  "Tests check a few angles for a few orders in the default convention.",
  ["cml/mathlib/matrix/rotation.tpp", "cml/mathlib/quaternion/rotation.tpp", "cml/mathlib/euler_order.h", "cml/mathlib/vector/rotation.tpp"],
  [("Euler order unpacking", "cml/mathlib/euler_order.h"), ("branching matrix-to-quaternion and matrix-to-axis-angle conversion", "cml/mathlib/quaternion/rotation.tpp, cml/mathlib/matrix/rotation.tpp")])

p("C14", "Transform builders act on points and vectors as documented",
  "Scale, inverse scale, translation, linear and affine transform, concatenation, rigid inverse, skew-symmetric and zero, identity and axis builders, and the setters and getters of translations and (transposed) basis vectors, produce exactly the documented elements, "
  "so that the result maps every point and vector to the documented image, for row and column bases, all layouts, storages, admissible sizes and element types of the arguments. Builders set the remaining elements to those of the identity (zero for skew-symmetric), setters leave them untouched. "
  "Transforming a vector ignores the translation, transforming a point applies it, and the 4-D forms apply the whole matrix, dividing points by their homogeneous coordinate.",
  ["inputs", "configurations"],
  "all parameters, bases, layouts, storages and admissible matrix sizes (2x2 up to larger than needed)",
  "Tests check one example per function, mostly in one basis.",
  ["cml/mathlib/matrix/scale.tpp", "cml/mathlib/matrix/translation.tpp", "cml/mathlib/matrix/transform.tpp", "cml/mathlib/matrix/invert.tpp", "cml/mathlib/matrix/basis.tpp", "cml/mathlib/matrix/concat.tpp", "cml/mathlib/matrix/misc.tpp", "cml/mathlib/vector/transform.tpp"],
  [("basis-element setters", "cml/mathlib/matrix/basis.tpp"), ("point and vector transformation by basis", "cml/mathlib/vector/transform.tpp")])

p("C15", "Look-at, aim-at, align and orthonormal bases are exact and face the target",
  "For every pair of non-parallel floating-point directions, orthonormal-basis, align, aim-at and look-at results are orthonormal: the first axis of the requested order points exactly along the given direction (or from the position to the target), the second lies in the plane "
  "of the target and reference directions on the reference side, and the third makes the basis right-handed; look-at moves the eye to the origin and the target onto the depth axis of the requested handedness with the up direction upwards. "
  "Vector, matrix and quaternion forms give the same rotation in every basis, layout, storage and component order, and matrix elements outside the transform are those of the identity.",
  ["inputs", "configurations"],
  "all target and reference directions and magnitudes, all six 3-D and both 2-D axis orders, handedness, bases, storages and normalisation flags",
  "Tests check one axis order and axis-aligned targets.",
  ["cml/mathlib/vector/orthonormal.tpp", "cml/mathlib/matrix/rotation.tpp", "cml/mathlib/matrix/transform.tpp", "cml/mathlib/quaternion/rotation.tpp", "cml/mathlib/axis_order.h"],
  [("Gram-Schmidt with axis order and handedness", "cml/mathlib/vector/orthonormal.tpp")])

p("C16", "Projections map the view volume to the clip cube and frustum planes bound it",
  "Every orthographic and perspective builder maps the corners of its view volume to the corners of the canonical clip cube for the declared handedness, depth range, basis and layout, and preserves depth order inside. "
  "The planes extracted from a modelview-projection matrix are exactly those six faces: a point is on the inner side of all of them if and only if it projects inside the clip volume, and normalised planes have unit normals.",
  ["inputs", "configurations"],
  "all valid frustum parameters, handedness, clip ranges, bases, layouts, builder forms and view matrices",
  "Tests check one frustum per builder.",
  ["cml/mathlib/matrix/projection.tpp", "cml/mathlib/frustum.tpp"],
  [("projection formulas", "cml/mathlib/matrix/projection.tpp"), ("plane extraction from matrix rows", "cml/mathlib/frustum.tpp")])

p("C17", "Coordinate conversions are mutually inverse and match their definitions",
  "For every point, axis and latitude convention, conversion from Cartesian to polar, cylindrical or spherical coordinates yields the defined radius, height and angles (an angle that is undetermined within the zero tolerance is exactly zero), conversion to Cartesian yields the defined point for every radius and floating-point angle, and converting there and back returns the original up to rounding, for every element type, vector storage and both argument orders. A non-existent axis is rejected with nothing written.",
  ["inputs", "configurations"],
  "all points in all octants, on axes and near the origin, all axis choices and both spherical conventions, all storages",
  "Tests convert a few points with one axis.",
  ["cml/mathlib/coordinate_conversion.tpp", "cml/mathlib/coordinate_conversion.h"],
  [("axis-permuted conversion", "cml/mathlib/coordinate_conversion.tpp")])

p("C18", "Random generators stay within their documented sets and reach all of them",
  "Every random generator returns only values inside its documented range (integer and real intervals, unit and cone-restricted directions, filled vectors and matrices), unit directions have unit length, cone-restricted directions lie within the "
  "cone, half-angles outside (0, 90] degrees are rejected, equal seeds (std::srand, or of a caller-supplied generator) give equal results except for matrices, which are seeded by the system, and every part of the range is reached in balance.",
  ["inputs", "configurations", "histories"],
  "all ranges, dimensions, cone axes and angles and long sequences of draws",
  "Tests draw a handful of samples.",
  ["cml/mathlib/random_unit.tpp", "cml/scalar/functions.h", "cml/vector/writable_vector.tpp", "cml/matrix/writable_matrix.tpp"],
  [("range scaling and cone sampling", "cml/mathlib/random_unit.tpp, cml/scalar/functions.h")])

p("C19", "Scalar utilities satisfy their definitions for all inputs",
  "Sign, clamp, wrap, range tests and mapping, squares, cubes and lengths (all arithmetic types), safe inverse-trigonometric functions and roots, inverse roots and angle conversion (floating-point types), index cycling and permutation and "
  "extremum-index functions return the value of their definition, up to rounding, for every input that is representable, including interval ends, ties, values just outside the domain, infinities and negative values, and never produce a value outside the documented interval or a NaN from an argument that is a number where a safe result is promised. The element-type traits give the value of the standard function (truncated for whole-number types).",
  ["inputs"],
  "all arguments of all element types",
  "Tests check a few values.",
  ["cml/scalar/functions.h", "cml/mathlib/axis_order.h", "cml/scalar/constants.h", "cml/scalar/traits.h"],
  [("scalar helper formulas", "cml/scalar/functions.h")])

p("C20", "Hashing and printing are faithful to the value",
  "Equal values of one type hash equally (so hashed containers find what was inserted) and hashes of different values differ except by chance; printing a vector, matrix, quaternion or expression writes exactly its elements in the documented "
  "order and format at the stream's precision, so that parsing the text gives back the value, and leaves the stream usable.",
  ["inputs", "configurations"],
  "all values, sizes, storages, layouts, quaternion orders and stream settings",
  "Tests print one value each and hash a couple of vectors.",
  ["cml/util/vector_print.h", "cml/util/matrix_print.h", "cml/util/quaternion_print.h", "cml/util/vector_hash.h", "cml/common/hash.h"],
  [("element-wise hash combination", "cml/util/vector_hash.h, cml/common/hash.h"), ("stream insertion", "cml/util/*_print.h")])

p("C21", "Mixed element types compute in the promoted type",
  "Arithmetic between vectors, matrices, quaternions and scalars of different arithmetic element types (sums, differences, element-wise and scalar products and quotients, dot, cross, perp-dot, triple and outer products, matrix, matrix-vector and quaternion products, comparisons, projections, Manhattan distances and angles) has the element type, and gives the result, of applying the built-in operators to the elements, with no intermediate narrowing, however far expressions are chained. "
  "Narrowing happens only where a result is finally stored in a narrower element type: in compound assignments, minimize and maximize the operation itself is done in the promoted type.",
  ["inputs", "configurations", "programs"],
  "all pairs of element types and all values for which the narrowed and promoted computations differ",
  "Tests use one element type per expression, or small values exact in both.",
  ["cml/scalar/promotion.h", "cml/common/promotion.h", "cml/vector/traits.h", "cml/scalar/binary_ops.h"],
  [("value type promotion", "cml/scalar/promotion.h, cml/vector/promotion.h, cml/matrix/promotion.h")])

p("C22", "Disabling run-time size checks changes no valid result",
  "A program whose operand sizes all fit computes identical results, element for element, with the run-time size checks enabled and disabled, and still never touches memory outside its operands. Its results also do not depend on compiler or optimisation level beyond rounding.",
  ["configurations", "programs", "inputs"],
  "all valid programs under every combination of the documented check-disabling switches",
  "The test suite is built in one configuration only.",
  ["cml/vector/size_checking.h", "cml/matrix/size_checking.h", "cml/quaternion/size_checking.h"],
  [("compile-time switches around the checks", "cml/vector/size_checking.tpp, cml/matrix/size_checking.tpp, cml/quaternion/size_checking.tpp")])

p("C23", "Distinct objects, and shared constant ones, can be used from many threads",
  "Threads that each work on their own objects, and read shared ones that nobody modifies, never interfere: every thread gets the result it would get alone and no data race occurs inside the library, for all operations that do not use the shared random source.",
  ["schedules", "programs"],
  "all interleavings of library calls on disjoint objects and on shared constant operands",
  "The tests are single threaded.",
  ["cml/cml.h", "cml/mathlib", "cml/matrix", "cml/vector", "cml/quaternion"],
  [("no hidden mutable state", "whole library is stateless apart from the random functions")])

json_lines = "".join(json.dumps(x) + "\n" for x in P)
open(os.path.join(V, "properties.jsonl"), "w").write(json_lines)
ids = [x["id"] for x in P]
checks, na = [], []
for x in P:
    s = SPECS.get(x["id"])
    if not s:
        na.append(dict(property=x["id"], reason="no check registered yet"))
        continue
    c = "python3 checks/run.py " + x["id"]
    checks.append(dict(property=x["id"], quick_cmd=c, thorough_cmd="VERIF_TIER=thorough " + c,
                       technique=s.get("technique", "runtime monitoring: reference-model oracle over random workloads, ASan+UBSan build"),
                       level=s.get("level", "exploration"),
                       level_note=s.get("level_note", "Held on the executions counted in the evidence file; random inputs, so rare inputs may be missed. Trusts g++, its sanitizer run-times and the reference model in the harness.")))
m = dict(version=1, setup_cmd="python3 checks/setup.py", checks=checks, not_applicable=na,
         notes="No hooks are added to the repository: every oracle observes the public API, the allocator and the sanitizers.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
