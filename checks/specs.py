# One entry per property: how its monitors are built and what a case is.
SPECS = {}


def parts(src, n, **kw):
    stem = src.split("/")[-1].split(".")[0]
    return [dict(name="%s_p%d" % (stem, i), src=src, defs=["PART=%d" % i] + kw.get("defs", []),
                 **{k: v for k, v in kw.items() if k != "defs"}) for i in range(n)]


SPECS["C01"] = dict(
    units=parts("harness/c01.cpp", 4, scale=6),
    rule="A case is a random history of 25 operations on a pool of three live vectors of one storage/element type "
         "(or one round of every documented constructor); after every operation size, elements, data layout, iteration and "
         "buffer identity of all live vectors are compared with a sequence model. Distinct = distinct operation/value sequences.",
)

SPECS["C02"] = dict(
    units=parts("harness/c02.cpp", 10, scale=4),
    rule="A case is a random history of 22 operations on a pool of three live matrices of one storage/element/basis/layout type "
         "(or one round of every documented constructor); after every operation sizes, logical elements, basis elements, the "
         "linear data layout and buffer identity of all live matrices are compared with a 2-D model. Distinct = distinct operation/value sequences.",
)

SPECS["C03"] = dict(
    level="fault_enumeration",
    units=parts("harness/c03.cpp", 4),
    rule="A case is a random history of storage operations on three dynamic vectors/matrices (double, and a lifetime-tracked element), "
         "or a computation over dynamic storage, run once without faults and then once per fault point (every allocation and every "
         "element construction/copy, up to 60 per history); a recording allocator, an element registry and ASan/UBSan/LSan judge every run.",
)


def exprs(kind, n, progs):
    return [dict(name="expr_%s%d" % (kind, i), src="gen/expr.py", gen=["--kind", kind, "--part", str(i), "--n", str(progs)],
                 cxx="clang++" if i % 4 == 3 else "g++") for i in range(n)]


def wide(kind):
    """c04w.cpp: element-wise operations over the whole range of the element types (0 vectors, 1 matrices, 2 in place)."""
    return [dict(name="wide%d_p%d" % (kind, i), src="harness/c04w.cpp", defs=["KIND=%d" % kind, "PART=%d" % i], scale=2, cxx="clang++" if i % 2 else "g++") for i in range(3 if kind == 2 else 4)]


WIDE_BINS = ["value/" + k for k in ("zero", "denormal", "smallest", "largest", "any-exponent", "general")]
EXPR_RULE = ("A case is one run of one generated %s expression program on fresh operand values: the expression is evaluated deferred "
             "(kept, copied and moved nodes, stack overwritten in between) and in several immediate forms, each compared exactly with the reference "
             "evaluation, and every named operand is compared with its original value. Distinct = distinct (program, operand values). "
             "In the wide units a case is one round of every element-wise operation on operands with zeros of both signs, denormals, values next to overflow and quotients that round, compared element by element with the scalar operation.")
SPECS["C04"] = dict(units=wide(0) + exprs("v", 12, 45), thorough_units=[dict(u, name=u["name"] + "x", gen=u["gen"][:3] + [str(100 + i)] + u["gen"][4:]) for i, u in enumerate(exprs("v", 48, 45))],
                    rule=EXPR_RULE % "vector",
                    technique="runtime monitoring: generated expression programs checked online against an exact reference evaluator, ASan+UBSan builds (gcc and clang)",
                    require_bins=["op/cross", "op/hadamard", "op/subvector", "op/row", "op/col", "op/basis", "form/aliased"] + WIDE_BINS)
SPECS["C05"] = dict(units=wide(1) + exprs("m", 12, 40), thorough_units=[dict(u, name=u["name"] + "x", gen=u["gen"][:3] + [str(100 + i)] + u["gen"][4:]) for i, u in enumerate(exprs("m", 48, 40))],
                    rule=EXPR_RULE % "matrix",
                    technique="runtime monitoring: generated expression programs checked online against an exact reference evaluator, ASan+UBSan builds (gcc and clang)",
                    require_bins=["op/hadamard", "op/transpose", "op/outer", "form/aliased"] + WIDE_BINS)

SPECS["C06"] = dict(
    units=wide(2) + parts("harness/c06.cpp", 8),
    rule="A case applies every in-place operation once to fresh values of one target/operand type pair (or one target with itself as operand) and compares "
         "the target, the returned reference, the storage identity and the untouched operand with an element-wise reference in the promoted type. Distinct = distinct operand values and types.",
    require_bins=["transpose/square", "transpose/reshaping", "inverse/4", "inverse/5"] + WIDE_BINS,
)

SPECS["C07"] = dict(
    units=parts("harness/c07.cpp", 10, scale=2),
    rule="A case draws run-time sizes (fitting and not fitting, with zero and negative sizes where they can be written) for one target/operand type combination and runs every size-checked "
         "operation of that group once: the raised error class is compared with the documented one, and operands and in-place targets are compared with their values before. "
         "Distinct = distinct sizes and values.",
    require_bins=["error/" + k for k in ("plus", "dot", "cross", "perp-dot", "hadamard", "plus-assign", "assign", "product", "times-vector", "vector-times", "trace", "determinant", "inverse",
                                           "lu", "lu-solve", "set-row", "set-col", "look-at", "rotation-euler", "transform-point", "frustum", "polar-to", "quaternion-matrix", "random-cone")]
                 + ["fits/" + k for k in ("plus", "dot", "cross", "assign", "product", "inverse", "look-at", "transform-point", "frustum", "quaternion-matrix")],
)

SPECS["C08"] = dict(
    units=parts("harness/c08.cpp", 7),
    rule="A case draws two related values (equal, one element changed, prefix, extended, other shape; small alphabets, signed zeros, denormals, infinities, integer limits), holds each side in one of 13 "
         "vector / 11 matrix / 7 quaternion representations, and compares all comparison operators in both directions with the lexicographic order of the plain sequences; or a triple for the order axioms; "
         "or a sort / ordered-container run. Distinct = distinct values and representations.",
    require_bins=["result/less", "result/equal", "result/greater", "sizes-differ", "triples/chain", "triples/equal", "matrix-result/equal", "matrix-result/different", "quaternion/pairs", "sorted-sequences",
                  "left/row", "right/subvector", "matrix/transposed"],
)

SPECS["C09"] = dict(
    units=parts("harness/c09.cpp", 8),
    rule="A case draws two or three vectors (general, axis-aligned, parallel, nearly parallel, magnitudes 1e-3..1e4, integers) in one pair of storage and element types and compares every product, length, "
         "angle, projection and rotation function, on named operands, temporaries and expressions, with long double definitions within a rounding bound scaled by the operand magnitudes. Distinct = distinct operand values and types.",
    require_bins=["input/parallel", "input/nearly-parallel", "input/axis-aligned", "input/general", "angle/negative", "angle-2D/clockwise", "angle/half-turn", "angle/general"],
)

SPECS["C10"] = dict(
    units=parts("harness/c10.cpp", 16, scale=3),
    rule="A case draws two matrices, or a matrix and a vector, of one type pair (storage x element type, in one of four basis/layout combinations) with run-time sizes 0-5 and small integer values, and compares products "
         "(named, temporary, expression, transposed operands; kept, assigned, constructed), traces and every element, row, column and basis view exactly with plain 2-D arrays. Distinct = distinct operand values and sizes.",
    require_bins=["product/rectangular", "inner/zero", "transposed-operands", "trace", "shape/rectangular", "matrix-vector", "vector-matrix", "vector-form/row", "vector-form/subvector"],
)

SPECS["C11"] = dict(
    units=parts("harness/c11.cpp", 10, scale=3),
    rule="A case draws one square matrix (19 kinds: general, permutations, zero leading minors, negative pivots, scaled rows/columns, triangular, integer, homogeneous, block-diagonal, orthogonal, ... ; sizes 1-16) in one storage/element/basis/layout type and compares determinant, "
         "inverse, LU, pivoted LU and solving, in all their forms, with a fully pivoted long double elimination within a bound scaled by size and condition number. Distinct = distinct matrices.",
    require_bins=["inverted", "solved", "lu/no-swap", "lu/odd-permutation", "lu/even-permutation", "lu/without-pivoting", "integer-determinant", "singular"]
                 + ["size/%d" % n for n in range(1, 9)] + ["kind/zero-leading", "kind/negative-pivots", "kind/scaled-rows", "kind/permutation", "kind/homogeneous", "kind/blocks", "kind/orthogonal", "kind/zero-diagonal", "kind/whole-inverse"],
)

_Q = [o + "/" + c for o in ("real-first", "imaginary-first") for c in ("positive", "negative")]
SPECS["C12"] = dict(
    units=parts("harness/c12.cpp", 4),
    rule="A case draws integer (exact) or real (bounded) components for one order/cross/element-type combination and compares every constructor, accessor, assignment, arithmetic, in-place, temporary and expression form, "
         "conjugate, inverse, norm, dot, exp, log and comparison with Hamilton's product on named components. Distinct = distinct component values and types.",
    require_bins=["build/%s/double" % q for q in _Q] + ["algebra/%s/float" % q for q in _Q] + ["analysis/%s/double" % q for q in _Q] + ["exp", "log", "log-real", "log-of-exp", "input/axis", "input/pure", "expression-members", "expression-inverse-members"],
)

EULER = ["xyz", "xyx", "xzy", "xzx", "yzx", "yzy", "yxz", "yxy", "zxy", "zxz", "zyx", "zyz"]
SPECS["C13"] = dict(
    units=parts("harness/c13.cpp", 12),
    rule="A case draws an axis and an angle (nine angle kinds: general, zero, exact and near half and quarter turns, tiny, negative, several turns), or three Euler angles and one of the 12 orders, for one matrix type (storage, size 3x3 to 5x5, "
         "basis, layout, float/double) and one quaternion type, builds the rotation in every form and compares each matrix, quaternion, axis-angle pair, Euler triple, basis vector and rotated vector with long double Rodrigues rotations "
         "(a few ulps), and the elements outside the rotation with the identity. Distinct = distinct axes, angles and orders.",
    require_bins=["angle/" + k for k in ("general", "zero", "half-turn", "quarter-turn", "near-zero", "near-half-turn", "multi-turn", "negative", "near-quarter-turn")]
                 + ["euler/" + o for o in EULER] + ["to-euler/" + o for o in EULER] + ["euler/gimbal-lock", "euler/near-gimbal-lock", "euler/angles-recovered", "derivative/computed", "derivative/rejected", "plane"]
                 + ["from-matrix/" + k for k in ("trace-positive", "x-largest", "y-largest", "z-largest")],
)

SPECS["C14"] = dict(
    units=parts("harness/c14.cpp", 12, scale=2),
    rule="A case draws parameters (zero, integers, dyadic fractions, magnitudes 1e-4..1e4) for one target type (storage, basis, layout, float/double, every size from 2x2 to 6x6), prefilled with junk, calls every builder, setter and getter in scalar, vector "
         "(nine storages and forms) and mixed-type versions and compares every element with a reference table of basis elements, exactly where no rounding is documented, and images of random points and vectors with that table. Distinct = distinct parameters, targets and sizes.",
    require_bins=["basis-2D", "basis-3D", "affine", "affine-axis-angle", "linear", "inverse-scale", "scale-3D", "translation-2D", "translation-3D", "invert-RT-only", "invert-RT-only-2D", "invert-RT-2D", "invert-RT-3D", "generators",
                  "image-2D", "image-3D", "image-4D", "point-2D", "point-3D", "point-4D"]
                 + ["rigid/%s-%d" % (k, n) for k in ("square", "rectangular") for n in (2, 3, 4, 5)] + ["concat/%d" % n for n in range(1, 7)] + ["linear-form/%d" % n for n in range(6)] + ["vector-form/%d" % n for n in range(9)],
)

SPECS["C15"] = dict(
    units=parts("harness/c15.cpp", 8, scale=2),
    rule="A case draws an alignment and a reference direction (cardinal, small integer, in a coordinate plane, general; nearly parallel, perpendicular, opposite; magnitudes 1e-3..1e3), an axis order and a normalisation flag, or an eye, target and up direction, "
         "for one input element type, matrix type and quaternion type, and compares every form with the basis computed in long double from its geometric definition, with a bound scaled by the angle between the directions. "
         "Directions closer than 0.02 rad to parallel are skipped. Distinct = distinct directions, orders and sizes.",
    require_bins=["order/" + o for o in ("xyz", "xzy", "yzx", "yxz", "zxy", "zyx")] + ["order-2D/xy", "order-2D/yx", "aim-at", "look-at/left", "look-at/right", "align/unit", "align/to-normalize",
                  "reference/nearly-parallel", "reference/perpendicular", "reference/opposite", "axis-orders"] + ["vector-form/%d" % n for n in range(6)],
)

HZ = ["/%s/%s" % (h, z) for h in ("left", "right") for z in ("zero", "neg-one")]
SPECS["C16"] = dict(
    units=parts("harness/c16.cpp", 8, scale=3),
    rule="A case draws a view volume (symmetric, off-centre or mirrored; near/far ratios to 1e3), a handedness and a depth range, builds it with every builder form (bounds, width/height, fields of view) for one matrix type and argument type, and checks every "
         "corner, depth order and inner points in homogeneous coordinates computed in long double; or draws an arbitrary 4x4 transform, or a rigid modelview and a projection, and compares all six planes with long double plane equations, with corner "
         "incidence and with clip-volume membership of random points. Distinct = distinct volumes, transforms and target types.",
    require_bins=[p + t for p in ("orthographic", "perspective") for t in HZ] + ["inside", "field-of-view", "volume/symmetric", "volume/off-center", "volume/mirrored", "membership/inside", "membership/outside", "frustum/sharp"]
                 + ["planes/%s/%s" % (n, z) for n in ("normalized", "raw") for z in ("zero", "neg-one")] + ["frustum/%s/%s%s" % (m, p, t) for m in ("modelview", "projection") for p in ("orthographic", "perspective") for t in HZ],
)

SPECS["C17"] = dict(
    units=parts("harness/c17.cpp", 6, scale=4),
    rule="A case draws a point (general, integer, on or near an axis, in or near a plane, the origin; magnitudes 1e-3..1e3) or a radius, height and angles (multiples of quarter turns, several turns, negative and zero radii), an axis, a latitude convention and "
         "a default or explicit tolerance, for one combination of element and result types, converts it with both argument orders through seven readable and four writable vector forms, and compares coordinates, zero-angle rules and round trips with long double "
         "definitions (a few ulps). Distinct = distinct points and parameters.",
    require_bins=["polar", "to-polar", "axis-rejected", "back", "tolerance/explicit", "tolerance/default", "below-tolerance", "radius/negative", "radius/zero", "radius/positive", "angle/multi-turn"] + ["quadrant/%d" % i for i in (1, 2, 3, 4)]
                 + ["point/" + k for k in ("on-axis", "in-base-plane", "in-a-plane", "origin", "integers", "near-axis", "near-base-plane", "general")] + ["vector-form/%d" % n for n in range(7)] + ["target-form/%d" % n for n in range(4)]
                 + ["%s/%s" % (k, a) for k in ("cylindrical", "to-cylindrical", "spherical/latitude", "spherical/colatitude", "to-spherical/latitude", "to-spherical/colatitude") for a in "xyz"],
)

SPECS["C18"] = dict(
    units=parts("harness/c18.cpp", 6, scale=4),
    rule="A case draws a range, dimension, cone axis and half-angle, and a seed, draws 200 to 400 values (20000 or 30000 in the moment and near-parallel cases) from one generator for one storage and element type, checks each against its documented set (range, unit length, "
         "cone angle in long double), repeats them from the same seed, and checks reach (ends, parts, signs, sides) and balance (first, second and fourth moments at nine standard deviations, so a false alarm has a chance below 1e-15). Distinct = distinct ranges, directions and seeds.",
    require_bins=["integer-range/" + k for k in ("single", "full", "narrow", "wide")] + ["real-range/" + k for k in ("unit", "single", "general", "symmetric")] + ["flags", "unit/generator", "unit/default", "cone/cardinal", "cone/general", "cone/hemisphere", "cone/narrow",
                 "cone/medium", "cone-rejected", "cone/near-parallel", "fill/single", "fill/range", "fill/negative", "vector-fill", "matrix-fill"] + ["unit-dimension/%d" % n for n in (1, 2, 3, 4, 5)] + ["cone-dimension/%d" % n for n in (2, 3, 4, 5)] + ["moments/%d" % n for n in (2, 3, 4, 5)],
)

SPECS["C19"] = dict(
    units=parts("harness/c19.cpp", 5, scale=4),
    rule="A case draws arguments of one element type (three floating-point and eight integer types; infinities, NaN, denormals, zeros of both signs, range ends and their neighbours, ties) and compares one family of functions with its definition: exactly where the "
         "result is an argument, a sign, a flag or an index, within a few ulps of the long double value otherwise. Index functions are also run over all 625 tuples of five small values per leading value. Distinct = distinct argument tuples.",
    require_bins=["value/" + k for k in ("nan", "infinite", "negative", "positive", "zero")] + ["range/" + k for k in ("nan", "end", "below", "above", "inside")] + ["wrap/" + k for k in ("below", "above", "end", "inside", "several-periods")]
                 + ["map/" + k for k in ("start", "end", "general", "reversed", "forward")] + ["algebra", "outside-unit", "inside-unit", "sqrt/negative", "constants", "whole-traits", "cycle/first", "cycle/last", "cycle/inner"] + ["extrema/%d" % i for i in range(5)],
)

STREAMS = ["default", "round-trip", "fixed", "scientific", "hexfloat", "showpos", "low-precision", "punctuation", "hex-integers", "after-text"]
SPECS["C20"] = dict(
    units=parts("harness/c20.cpp", 5, scale=2),
    rule="A case draws elements (extremes, zeros, infinities, 25 decades), a representation (13 vector, 11 matrix forms, four quaternion orders and five forms) and a stream state (ten), and compares the text with inserting the elements one by one, parses it back at round-trip precision, "
         "and checks the stream's state; or draws vectors and compares hashes of equal values reached by different histories, of neighbours (no element, order or size may be ignored), of families of hundreds of small vectors (no collision), and lookups in hashed containers. "
         "Distinct = distinct elements, forms and streams.",
    require_bins=["stream/" + s for s in STREAMS] + ["vector/" + s for s in ("dynamic", "external", "external-const", "fixed", "external-fixed", "negated-twice", "scaled", "row", "column", "basis", "subvector", "hadamard", "sum", "empty")]
                 + ["matrix/" + s for s in ("dynamic-rr", "dynamic-cc", "external-rc", "fixed-cr", "external-fixed", "transposed", "negated-twice", "scaled", "hadamard", "sum", "resized")] + ["quaternion/%d" % i for i in range(5)]
                 + ["quaternion/real-first", "quaternion/imaginary-first", "hash/signed-zeros", "hash/resized", "hash/swapped", "hash/checked", "hash/collisions", "table/duplicate", "table/used"],
)

PAIRS21 = ["float-double", "double-float", "int-double", "double-int", "int-float", "float-int", "long-int", "int-long", "short-int", "int-short", "unsigned-int", "int-unsigned",
           "double-longdouble", "longdouble-float", "schar-int", "short-float", "long-double", "double-unsigned"]
SPECS["C21"] = dict(
    units=parts("harness/c21.cpp", 7, scale=2),
    rule="A case draws operands of two or three element types (18 pairs, 10 triples) with bit budgets for which the promoted arithmetic is exact but the elements and results do not fit the other operand's type, forms vectors, matrices (two layouts), quaternions (two orders and conventions) and chains of them, "
         "and compares the static element type and every element of each result with the built-in operators applied to the elements; in-place operations must equal the promoted result converted once at the store. Rounded functions (angles, projections) are compared with long double at the promoted type's precision. Distinct = distinct operands and forms.",
    require_bins=["pair/" + x for x in PAIRS21] + ["matrix-pair/" + x for x in PAIRS21] + ["quaternion-pair/" + x for x in PAIRS21] + ["form/" + x for x in ("dynamic", "external-const", "external", "sum", "scaled", "fixed")]
                 + ["narrowing/left", "narrowing/right", "product/cross", "product/perp-dot", "product/triple", "product/fixed", "product/matrix-vector-fixed", "chain/int-float-double", "chain/float-double-longdouble"],
)

OFF = {"v": ["CML_NO_RUNTIME_VECTOR_SIZE_CHECKS"], "m": ["CML_NO_RUNTIME_MATRIX_SIZE_CHECKS"], "q": ["CML_NO_RUNTIME_QUATERNION_SIZE_CHECKS"]}
OFF["all"] = OFF["v"] + OFF["m"] + OFF["q"]
OFF["on"] = []


def configs(src, n, table):
    stem = src.split("/")[-1].split(".")[0]
    return [dict(name="%s_p%d_%s_%s" % (stem, i, tag, off), src=src, defs=["PART=%d" % i] + OFF[off], cxx=cxx, opt=opt, san=san, scale=scale, flags=["-fno-builtin"],
                 like="p%d" % i, same="p%d_%s" % (i, tag), base=(k == 0 and j == 0))
            for i in range(n) for k, (tag, cxx, opt, san, offs, scale) in enumerate(table) for j, off in enumerate(offs)]


def checks_off(table, scale, **kw):
    return [dict(name="off_%s_p%d" % (h, i), src="harness/%s.cpp" % h, defs=["PART=%d" % i] + OFF["all"], scale=scale, **kw) for h, ps in table.items() for i in ps]


ALL_PARTS = dict(c01=range(4), c02=range(10), c03=range(4), c06=range(8), c08=range(7), c09=range(8), c10=range(16), c11=range(10), c12=range(4), c13=range(12), c14=range(12), c15=range(8), c16=range(8),
                 c17=range(6), c18=range(6), c19=range(5), c20=range(5), c21=range(7))
SPECS["C22"] = dict(
    units=checks_off(dict(c01=[1, 3], c02=[2, 3, 6, 8], c03=[0, 1], c06=[1, 4, 6], c08=[2, 5], c09=[1, 5], c10=[1, 6, 11], c11=[1, 4, 8], c12=[1], c13=[1, 5], c14=[2, 3, 10, 11], c15=[1, 4], c16=[2, 5], c17=[1, 4], c18=[1], c19=[1], c20=[1], c21=[1, 4]), 0.3)
    + configs("harness/c22.cpp", 4, [("gcc-O1-asan", "g++", "-O1", "asan", ["on", "v", "m", "q", "all"], 3), ("gcc-O3", "g++", "-O3", "none", ["on", "all"], 3), ("clang-O2", "clang++", "-O2", "none", ["on", "all"], 3)]),
    thorough_units=[dict(u, name=u["name"] + "_full", opt="-O2") for u in checks_off(ALL_PARTS, 1)] + configs("harness/c22.cpp", 4, [("clang-O1-asan", "clang++", "-O1", "asan", ["on", "all"], 3), ("gcc-O0", "g++", "-O0", "none", ["on", "all"], 3), ("clang-O3", "clang++", "-O3", "none", ["on", "all"], 3)]),
    rule="One program of operations whose operand sizes all fit (vector, matrix, quaternion and expression arithmetic over every storage, products, decompositions, all transform, rotation, projection and conversion builders on run-time sized operands) runs over random operands in builds with the run-time size checks on, "
         "off one by one, and all off, by two compilers and several optimisation levels; each build records every element of every result. Records of one compiler and level must be identical with checks on and off, and agree up to rounding between compilers and levels. AddressSanitizer and UBSan watch the builds with checks off, with every external buffer an exactly sized heap block. "
         "Besides, parts of the workloads of C01-C03, C06 and C08-C21 run with all three checks off under their own oracles, with AddressSanitizer and UBSan. "
         "Distinct = distinct operands and shapes.",
    require_bins=["compared/identical", "compared/rounding", "builders/row-basis", "builders/col-basis"] + ["vector-forms/%d-%d" % (i, j) for i in range(3) for j in range(5)] + ["matrix-size/%dx%d" % (i, i) for i in range(1, 6)],
)


def threaded(table, scale, cxx="g++"):
    return [dict(name="thr_%s_p%d%s" % (h, i, "" if cxx == "g++" else "_clang"), src="harness/%s.cpp" % h, defs=["PART=%d" % i], cxx=cxx, san="tsan", scale=scale, args=["--threads", "4"],
                 flags=["-include", "threads.h"]) for h, ps in table.items() for i in ps]


SPECS["C23"] = dict(
    units=parts("harness/c23.cpp", 6, san="tsan", scale=6) + [dict(u, name=u["name"] + "_native") for u in parts("harness/c23.cpp", 6, san="none", opt="-O2", scale=12)]
    + threaded(dict(c01=[0, 3], c02=[0, 2, 9], c06=[0, 3, 7], c07=[2, 5, 8, 9], c08=[4, 5], c09=[0, 2, 6], c10=[1, 2, 7], c11=[0, 5, 6, 9], c12=[0, 2], c13=[0, 3, 6, 9, 11], c14=[0, 2, 4, 6, 8, 9, 10, 11], c15=[0, 3, 6], c16=[0, 3], c17=[0, 3], c19=[0, 3], c20=[0, 3], c21=[0, 5]), 0.15),
    thorough_units=[dict(u, name=u["name"] + "_clang", cxx="clang++") for u in parts("harness/c23.cpp", 6, san="tsan", scale=20)]
    + [dict(u, name=u["name"] + "_full") for u in threaded(dict(c01=range(4), c02=range(10), c06=range(8), c07=range(10), c08=range(7), c09=range(8), c10=range(16), c11=range(10), c12=range(4), c13=range(12), c14=range(12), c15=range(8), c16=range(8), c17=range(6), c19=range(5), c20=range(5), c21=range(7)), 0.5)],
    rule="Two kinds of run, both under ThreadSanitizer (and the first also natively at -O2 with real parallelism). Programs over every storage, builder, decomposition, conversion and quaternion run in 2 to 6 threads at once, each on its own objects or all reading one set of constant operands, expression nodes and factorizations; "
         "every thread's record of every element must equal the record of the same work done alone afterwards. And the workloads and oracles of the other properties run four cases at a time in threads of their own. Schedules are varied by yields and delays at recorded operations and, inside library calls, at allocations. "
         "Distinct = distinct operands and, for the first kind, distinct observed orders of the threads' operations.",
    require_bins=["threads/%d" % i for i in range(2, 7)] + ["threads/same-work", "threads/different-work", "threads/switches-between-threads", "shared/constant-operands", "own/objects", "threads/same-case", "threads/different-cases"],
)
