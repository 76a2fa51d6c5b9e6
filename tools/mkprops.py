#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the list stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, symbols=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

V = ["include/zcm/vec2.hpp", "include/zcm/vec3.hpp", "include/zcm/vec4.hpp", "src/vec2.cpp", "src/vec3.cpp", "src/vec4.cpp"]
IV = ["include/zcm/ivec2.hpp", "include/zcm/ivec3.hpp", "include/zcm/ivec4.hpp", "src/ivec2.cpp", "src/ivec3.cpp", "src/ivec4.cpp"]
BV = ["include/zcm/bvec2.hpp", "include/zcm/bvec3.hpp", "include/zcm/bvec4.hpp", "src/bvec2.cpp", "src/bvec3.cpp", "src/bvec4.cpp"]
MT = ["include/zcm/mat2.hpp", "include/zcm/mat3.hpp", "include/zcm/mat4.hpp", "src/mat2.cpp", "src/mat3.cpp", "src/mat4.cpp"]

prop("P01", "Float vector arithmetic is exact IEEE arithmetic on every component",
 "For float vectors of 2, 3 and 4 components, +, -, * and / between two vectors, a vector and a scalar or a scalar and a vector, and unary + and -, give in each component exactly the correctly rounded single-precision result of that operator on the operands' corresponding components (or the scalar), operand order included. This includes signed zeros, subnormals, infinities and NaNs, and the operands are left unchanged.",
 ["inputs"], "every pair of float bit patterns in every component of every overload",
 "The suite compares with GLM on about one small positive vector per operator; a swapped component, an overload with the operands reversed or a special value treated differently is not reached.",
 V + ["include/zcm/detail/impl_op_macro.hpp"],
 [("component-wise operator macros", "include/zcm/detail/impl_op_macro.hpp"), ("operator definitions", "src/vec4.cpp")],
 ["values returned by the vector operators"])
prop("P02", "Integer vector arithmetic, bit and shift operators act per component",
 "For integer vectors of 2, 3 and 4 components, +, -, *, /, %, &, |, ^, << and >> between two vectors, a vector and a scalar or a scalar and a vector (and unary + and -) give in each component the value of that operator on the operands' corresponding 32-bit integers, division truncating toward zero and the remainder taking the dividend's sign. Every such operator and its compound form is available for all three sizes.",
 ["inputs"], "every pair of 32-bit integers for which the scalar operator is defined, in every component of every overload",
 "The tests use a few small positive values per operator and never use %, shifts or bit operators on 4-component vectors at all (they were declared and not linkable).",
 IV + ["include/zcm/detail/impl_op_macro.hpp"],
 [("component-wise operator macros", "include/zcm/detail/impl_op_macro.hpp"), ("operator definitions", "src/ivec4.cpp")],
 ["values returned by the integer vector operators"])
prop("P03", "Boolean vector operators, reductions and indexing follow Boolean algebra",
 "For Boolean vectors of 2, 3 and 4 components, &&, ||, ^, ! and the compound &=, |= and ^= (with a vector or a single Boolean on either side) give in each component the Boolean operation of the corresponding components; == and != compare all components, component access and indexing address the same storage, and all/any are the conjunction/disjunction of the components.",
 ["inputs"], "every combination of component values of every overload (finite: checked exhaustively), and every sequence of compound updates",
 "The suite tries a handful of the combinations, mostly with uniform components.",
 BV + ["src/common.cpp"], [("operator definitions", "src/bvec3.cpp"), ("all / any", "src/common.cpp")],
 ["values returned by the Boolean operators and reductions"])
prop("P04", "In-place updates equal the matching binary operator and touch only the target",
 "A compound assignment, increment or decrement on a vector, matrix, quaternion or single component leaves its target equal to what the corresponding two-operand operator would have returned for the operands' prior values, including when the right operand is the target itself or one of its own components. Prefix forms return the updated target, postfix forms the prior value, and no other component or object changes.",
 ["histories", "inputs"], "every sequence of in-place updates over a set of live objects, with every aliasing of the right operand",
 "Tests apply one update to a fresh object with a distinct right operand; they never chain updates, alias the operand or look at bystanders, and matrices are not tested at all.",
 V + IV + BV + MT + ["src/quat.cpp", "include/zcm/detail/vec4_access.hpp", "include/zcm/detail/vec3_access.hpp", "include/zcm/detail/vec2_access.hpp", "src/vec4_access.cpp"],
 [("compound operator macros", "include/zcm/detail/impl_op_macro.hpp"), ("matrix compound operators", "src/mat4.cpp"), ("component accessors", "src/vec4_access.cpp")],
 ["the whole set of live objects after each step"],
 state=[("register bank", "every live vector, matrix, quaternion and scalar", "objects owned by the caller")])
prop("P05", "Constructors, conversions, indexing and pointers agree on component layout",
 "Each constructor places its arguments in the documented component (vectors in order, a single value broadcast, default zero for vectors and identity for matrices and quaternions, mixed vector/scalar forms concatenated in order, matrices column by column), and conversions and casts keep the corresponding components. Building a value from a pointer (which reads exactly that many elements), indexing, named components and the raw pointer of a value all see the same storage in the same order, so a write through any one of them is what every other one reads.",
 ["inputs", "histories"], "every constructor and conversion on every argument value, and every interleaving of writes and reads through the views of one object",
 "Only a few constructors are exercised; no test covers matrices, pointer construction, raw pointers, conversions between sizes or writes through one view read through another.",
 V + IV + BV + MT + ["include/zcm/quat.hpp", "src/quat.cpp", "src/type_ptr.cpp", "include/zcm/type_ptr.hpp"],
 [("constructors", "src/vec4.cpp"), ("matrix constructors and casts", "src/mat3.cpp"), ("raw pointers", "src/type_ptr.cpp")],
 ["components read back by name, index and pointer"])
prop("P06", "Every named component and swizzle selects exactly the named components",
 "Every component name in the xyzw, rgba and stpq families, and every 2-, 3- and 4-letter swizzle over one family, reads (in the order of its letters) exactly the components it names, for every vector size that has them. Writing through a one-letter name changes that component only, and the helper script that prints the swizzle table lists each combination exactly once with matching indices.",
 ["inputs"], "every component name and swizzle of every vector type, on every component value",
 "There are over 1,400 names; the tests touch a few dozen, so one mistyped index in the tables goes unnoticed.",
 V + IV + ["include/zcm/detail/vec2_access.hpp", "include/zcm/detail/vec3_access.hpp", "include/zcm/detail/vec4_access.hpp", "src/vec2_access.cpp", "src/vec3_access.cpp", "src/vec4_access.cpp", "tools/combinations.py"],
 [("swizzle tables", "include/zcm/vec4.hpp"), ("accessors", "include/zcm/detail/vec4_access.hpp"), ("table generator", "tools/combinations.py")],
 ["values read through each name"])
prop("P07", "Equality is component-wise IEEE equality and integer vectors are totally ordered",
 "Two values of the same type compare equal exactly when all their components compare equal (so -0 equals +0 and NaN differs from everything), and != is always the negation of ==. The <, <=, > and >= operators of integer vectors are the lexicographic order of the components, hence a strict total order consistent with ==, fit for sorting and ordered containers.",
 ["inputs", "histories"], "all pairs and triples of values of each type; all sequences of insertions and lookups in ordered containers",
 "Order axioms quantify over all triples; the tests compare a few pairs and never a NaN, a signed zero or matrices.",
 V + IV + MT + ["src/quat.cpp"], [("lexicographic comparison", "src/ivec4.cpp"), ("equality", "src/mat4.cpp")],
 ["results of the comparison operators; iteration order of std::set keyed by integer vectors"])
prop("P08", "Rounding and sign functions return the mathematically defined value",
 "abs, ceil, floor, trunc, round (halves away from zero), roundEven (nearest integer, halves to even), sign and the never-zero sign return exactly the mathematically defined value for every finite input, in every component; fract(x) is x minus floor(x) and mod(x, y) is x minus y times floor(x/y). Vector, integer and scalar-operand overloads all agree with the scalar function on each component.",
 ["inputs"], "every finite float (in particular halves, odd integers, negative values, values beyond 2^23 and subnormals), each component of each overload",
 "No test covers these functions except incidentally; roundEven was wrong for every odd integer.",
 ["include/zcm/common.hpp", "src/common.cpp"], [("scalar functions and component lifting", "src/common.cpp")],
 ["returned values"])
prop("P09", "min, max, clamp, mix, step, smoothstep and fma follow the GLSL definitions",
 "min and max return the smaller or larger argument and the first argument when the second is NaN, clamp is min(max(x, lo), hi), step(e, x) is 0 exactly when x < e, smoothstep is the cubic Hermite ramp clamped to [0, 1], mix interpolates linearly or, with a Boolean selector, returns exactly the selected operand, and fma rounds once. The vector, scalar-argument and integer overloads give the scalar result in each component.",
 ["inputs"], "all argument triples, including equal arguments, edges hit exactly, NaN second arguments and values outside the edges",
 "No test covers any of them.",
 ["include/zcm/common.hpp", "src/common.cpp"], [("definitions", "src/common.cpp")], ["returned values"])
prop("P10", "Classification, relational functions and component reductions are exact",
 "isnan and isinf classify every bit pattern correctly per component, lessThan, lessThanEqual, greaterThan, greaterThanEqual, equal and notEqual apply the corresponding IEEE comparison per component (comparisons with NaN are false, except notEqual), and the component reductions add, multiply, or take the minimum or maximum over exactly all the components; sums and products treat infinities and NaN as IEEE addition and multiplication do (an infinity times a zero component is NaN).",
 ["inputs"], "every bit pattern in every component",
 "No test covers these functions; a component left out shows only for particular values.",
 ["include/zcm/common.hpp", "src/common.cpp", "include/zcm/component_wise.hpp", "src/component_wise.cpp"],
 [("relational functions", "src/common.cpp"), ("reductions", "src/component_wise.cpp")], ["returned values"])
prop("P11", "Exponential and power functions are accurate per component",
 "exp, exp2, log, log2, pow, sqrt, inversesqrt and cbrt return, for every finite argument in the mathematical domain, the true value within a few units in the last place; a result too large for the format is the infinity of its sign and one below the normal range keeps its absolute accuracy (it is not flushed to zero). At zero, at the infinities, for NaN and outside the domain they return what the C functions of the same name do (logarithms are -inf at zero and NaN below, square roots NaN for negative arguments, exp(-inf) is 0, a negative base has integer powers only, zeros and infinities have the sign C gives them). The vector and quaternion overloads apply the scalar function to every component independently (a quaternion power takes one scalar exponent).",
 ["inputs"], "every argument (subnormal, huge, infinite and NaN included), each component",
 "No test covers them; base-2 exponential returned the natural exponential.",
 ["include/zcm/exponential.hpp", "src/exponential.cpp"], [("scalar functions and component lifting", "src/exponential.cpp")], ["returned values"])
prop("P12", "Trigonometric, hyperbolic and angle conversions are accurate per component",
 "sin, cos, tan, their inverses (with the two-argument arctangent taking y before x, covering all quadrants and treating zeros and infinities as C does), the hyperbolic functions and their inverses, radians and degrees return the true value within a few units in the last place for every finite argument in their domain, however large; a result too large for the format is the infinity of its sign and one below the normal range keeps its absolute accuracy. Infinite arguments give the limit or NaN, and NaN and arguments outside the domain give NaN, as in C. The vector overloads apply the scalar function to every component independently.",
 ["inputs"], "every argument (huge, subnormal, infinite and NaN included), each component, all four quadrants",
 "No test covers them.",
 ["include/zcm/angle_and_trigonometry.hpp", "src/angle_and_trigonometry.cpp"], [("scalar functions and component lifting", "src/angle_and_trigonometry.cpp")], ["returned values"])
prop("P13", "Metric and product functions satisfy their Euclidean definitions",
 "dot and cross compute the inner and right-handed vector product; length is the non-negative Euclidean norm and its squared form the norm squared, the distance functions apply these to the difference of the arguments, and normalize keeps the direction and yields length one for non-zero input. Each holds, within floating-point rounding, for every size the function is offered for, scalars and quaternions included.",
 ["inputs"], "every argument tuple whose intermediate products neither overflow nor underflow",
 "The tests use one vector per function, with tolerance; squared distances returned plain distances for two sizes and the scalar length was negative for negative input.",
 ["include/zcm/geometric.hpp", "src/geometric.cpp"], [("definitions", "src/geometric.cpp")], ["returned values"])
prop("P14", "reflect, refract and faceforward follow the GLSL optics definitions",
 "reflect(I, N) is I - 2 dot(N, I) N; refract returns the Snell refraction direction for the given ratio and exactly the zero vector under total internal reflection; faceforward returns N unchanged when dot(Nref, I) is negative and -N otherwise. All sizes, the scalar form included, agree with the definition within rounding.",
 ["inputs"], "every incident, normal and ratio, on both sides of the total-reflection boundary and of the facing boundary (dot exactly zero included)",
 "One sample per function; the boundary cases are not reached.",
 ["include/zcm/geometric.hpp", "src/geometric.cpp"], [("definitions", "src/geometric.cpp")], ["returned values"])
prop("P15", "Perpendicular-vector helpers and the octahedral encoding keep their contracts",
 "For every non-zero vector the orthogonal helper returns a vector perpendicular to it that is not negligible in length, and so does the branchless form for every unit vector. Octahedral encoding maps every unit vector into [-1, 1] squared, and decoding the encoding returns the original unit vector, in both hemispheres and on their boundary, within rounding.",
 ["inputs"], "every non-zero (unit) vector, in all eight octants, on the axes and on the equator",
 "The tests encode and decode only a few directions, none of which exposed that decoding was wrong on the lower hemisphere.",
 ["include/zcm/geometric.hpp", "src/geometric.cpp"], [("octahedral encode/decode", "src/geometric.cpp"), ("orthogonal helpers", "src/geometric.cpp")], ["returned values"])
prop("P16", "Matrix sums, products and scalar operations follow column-major linear algebra",
 "For 2x2, 3x3 and 4x4 matrices, m[c][r] is column c, row r; matrix*matrix, matrix*vector (column vector) and vector*matrix (row vector) are the linear-algebra products, while matrix sums, differences, negation, scalar operations, scalar divided by matrix and the component-wise product act on every element. The product is associative and distributes, and the identity is neutral, within rounding (exactly for small integers).",
 ["inputs"], "every matrix, vector and scalar argument; every chain of products",
 "There is no matrix test at all.",
 MT + ["include/zcm/matrix.hpp", "src/matrix.cpp"], [("products", "src/mat4.cpp"), ("component-wise product", "src/matrix.cpp")], ["returned values"])
prop("P17", "Determinant, transpose, adjugate, inverse and division are consistent",
 "transpose exchanges rows and columns, the determinant and adjugate satisfy M adj(M) = adj(M) M = det(M) I for every square matrix, the inverse is the adjugate divided by the determinant for every invertible one, and the transposed variants are exactly the transposes of these. Dividing by a matrix is multiplying by its inverse (m/n = m n^-1, m/v = m^-1 v, v/m = v m^-1).",
 ["inputs"], "every matrix (invertible where the inverse is involved) of each size",
 "There is no matrix test; the 2x2 transposed variants were not transposed.",
 MT + ["include/zcm/matrix.hpp", "src/matrix.cpp"], [("determinant / inverse / adjugate", "src/matrix.cpp"), ("division", "src/mat3.cpp")], ["returned values"])
prop("P18", "translate, rotate, scale and look-at build the documented affine maps",
 "translate, rotate and scale return the given matrix multiplied on the right by the translation, the right-handed rotation about the normalized axis, or the axis-aligned scaling. The look-at matrices are rigid maps sending the eye to the origin and the target onto the negative (right-handed) or positive (left-handed) z axis with the up vector in the half plane x = 0, y > 0.",
 ["inputs", "histories"], "every matrix, axis, angle and offset; every chain of transforms; every eye, target and up that are not collinear",
 "No test covers matrix transforms.",
 ["include/zcm/matrix_transform.hpp", "src/matrix_transform.cpp"], [("definitions", "src/matrix_transform.cpp")], ["returned matrices and where they send points"])
prop("P19", "Projection matrices map the view volume exactly onto the clip volume",
 "Each orthographic matrix maps its box, and each perspective matrix its frustum (after the perspective divide), onto x and y in [-1, 1] with the near plane at depth 0 (zero-to-one variants) or -1 (negative-one variants) and the far plane at depth 1, looking down -z in right-handed and +z in left-handed variants. The clip w of a perspective map is the distance along the view direction.",
 ["inputs"], "every box, field of view, aspect ratio and near/far pair, all variants, all corners",
 "No test covers projections; each of the nine builders has its own sign pattern.",
 ["include/zcm/matrix_transform.hpp", "src/matrix_transform.cpp"], [("ortho and perspective builders", "src/matrix_transform.cpp")], ["returned matrices and the images of the volume's corners"])
prop("P20", "Decomposing an orthogonal transform recovers factors that rebuild it",
 "For every matrix that is a translation times a rotation times a non-zero axis-aligned scaling (mirroring ones included), the decomposition returns a translation, a unit quaternion and a scale whose recomposition equals the matrix within rounding, and leaves the input unchanged. Without mirroring the scale factors returned are positive.",
 ["inputs"], "every translation, rotation (all quadrants of the four extraction cases, half turns included) and scale of either sign",
 "No test covers it; its four extraction cases and the mirrored path need particular rotations.",
 ["include/zcm/matrix_transform.hpp", "src/matrix_transform.cpp"], [("decompose_orthogonal", "src/matrix_transform.cpp")], ["the three outputs and their recomposition"])
prop("P21", "Quaternion arithmetic is the Hamilton algebra and rotates vectors",
 "Quaternion sum, difference, scalar product and quotient act per component; the product is the Hamilton product (associative, norm-multiplicative, i*j = k), the conjugate negates the imaginary part and the inverse times the quaternion is one. For unit quaternions q*v is the rotated vector, v*q the inverse rotation, and rotating by a product equals rotating by each factor in turn.",
 ["inputs", "histories"], "every quaternion, scalar and vector argument; every chain of products",
 "The few quaternion tests use one sample each; the product's factored form makes a single sign slip visible only for generic operands.",
 ["include/zcm/quat.hpp", "src/quat.cpp", "include/zcm/quaternion.hpp", "src/quaternion.cpp"], [("product and rotation", "src/quat.cpp"), ("conjugate and inverse", "src/quaternion.cpp")], ["returned values"])
prop("P22", "Quaternions convert to and from matrices, angles and directions consistently",
 "Matrix casts of a unit quaternion give the rotation matrix that rotates vectors as the quaternion does, and casting back gives the same rotation, for every rotation; angle and axis recover what an angle-axis construction was given and are numbers for every quaternion of unit length up to rounding, as are pitch, yaw and roll, the quaternion built from Euler angles has those pitch, yaw and roll away from the gimbal singularity, and the one built from two directions is the shorter rotation (unit length, about an axis perpendicular to both) taking the first onto the second, opposite directions included. Look-at quaternions are the rotation whose axes are the given direction (negated for right-handed) and up.",
 ["inputs"], "every unit quaternion (each of the four extraction cases), axis and angle, Euler triple, pair of non-zero directions",
 "No test reaches casts, Euler angles, look-at quaternions or opposite directions.",
 ["include/zcm/quaternion.hpp", "src/quaternion.cpp", "src/quat.cpp"], [("casts, Euler angles, look-at", "src/quaternion.cpp"), ("from two vectors", "src/quat.cpp")], ["returned values"])
prop("P23", "Quaternion interpolation hits its endpoints and follows the defined path",
 "lerp is the weighted sum of its endpoints for weights from 0 to 1 (exactly an endpoint at 0 and 1) and nlerp is that sum normalized; slerp of unit quaternions follows the shorter great arc at constant angular speed, staying unit length, returning the first rotation at weight 0 and the second (up to sign) at weight 1. This includes equal, nearly equal, opposite and perpendicular endpoints.",
 ["inputs"], "every pair of unit quaternions and every weight in [0, 1]",
 "No test covers interpolation; the near-parallel and negative-dot branches need particular endpoints.",
 ["include/zcm/quaternion.hpp", "src/quaternion.cpp"], [("lerp / nlerp / slerp", "src/quaternion.cpp")], ["returned quaternions"])
prop("P24", "Colour-space conversions follow the sRGB transfer curves and leave alpha alone",
 "With an explicit gamma, linear-to-sRGB clamps each colour to [0, 1] and applies the piecewise sRGB curve with exponent 1/gamma, and sRGB-to-linear (gamma 2.4 unless given) applies the inverse piecewise curve, so that at equal gamma 2.4 one undoes the other on [0, 1]; linear-to-sRGB without gamma evaluates the cited square-root approximation, within 0.002 of the standard curve on [0.002, 1]. Channels are converted independently and the alpha channel is returned unchanged.",
 ["inputs"], "every colour, on both sides of the two curve thresholds, and every positive gamma",
 "No test covers colour conversion; the explicit-gamma form used the gamma itself as exponent.",
 ["include/zcm/color_space.hpp", "src/color_space.cpp"], [("transfer curves", "src/color_space.cpp")], ["returned colours"])
prop("P25", "Hashing respects equality, so unordered containers behave as sets and maps",
 "Values that compare equal have equal hashes (signed zeros included), for every hashable type and in every call, thread and container, so an unordered set or map keyed by them finds exactly the keys inserted and not erased. Every component of a value takes part in its hash.",
 ["inputs", "histories"], "all pairs of equal values; every sequence of insert, erase and lookup operations",
 "No test covers hashing; -0 and +0 hashed differently and a matrix column was ignored.",
 ["include/zcm/hash.hpp", "src/hash.cpp"], [("hash functions", "src/hash.cpp"), ("std::hash specialisations", "include/zcm/hash.hpp")],
 ["hash values; results of unordered container operations"])
prop("P26", "Calls are pure: results depend only on arguments, in every thread and build",
 "A call's result depends on its arguments only: repeating it later, after any other calls, from another thread at the same time, or in the inline (release) instead of the out-of-line (debug) build of the headers gives the same bits, and no call changes an argument it does not document as an output. No call allocates hidden state that another call can observe, and none reads or writes memory beyond its arguments and its result.",
 ["histories", "schedules", "configurations"], "every history of prior calls, every interleaving of threads and both build configurations",
 "Each test calls a function once in one thread in one configuration.",
 ["src", "include/zcm/detail/vec4_access.hpp", "include/zcm/detail/vec3_access.hpp", "include/zcm/detail/vec2_access.hpp"],
 [("stateless functions", "src"), ("extern template / inline accessors", "include/zcm/detail/vec4_access.hpp")],
 ["result bits of repeated calls across histories, threads and builds"])
prop("P27", "Constants are the correctly rounded values of the named numbers",
 "Each named constant function returns the single-precision number nearest to the mathematical constant it names, on every call; epsilon is the gap between 1 and the next larger single-precision number.",
 ["inputs"], "all constants",
 "No test covers the constants.",
 ["include/zcm/constants.hpp", "src/constants.cpp"], [("definitions", "src/constants.cpp")], ["returned values"])
prop("P28", "The benchmark generator emits a complete, consistent program",
 "For the output directory it is given, the generator writes every source and header it refers to, each generated function is declared once, defined once and called exactly once from the main program, the two build scripts list exactly the generated sources, and every generated source compiles against the library. Nothing is written outside that directory, and files in it that are not part of the program stay as they are.",
 ["inputs", "histories"], "every generated function and file of a run, every run into the same or another directory",
 "The generator has no tests and is not built by default.",
 ["tools/benchgen/main.cpp", "tools/benchgen/utils.cpp", "tools/benchgen/snippets.h"], [("file writers", "tools/benchgen/main.cpp"), ("snippet table", "tools/benchgen/snippets.h")], ["the generated tree"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
