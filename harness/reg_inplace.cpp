// P04: in-place updates of vectors, matrices and quaternions
#include "drv.hpp"
using namespace zcm;
#define CO(T, S, c, nm, op) drv::def(c "." nm "=", [](T& a, const S& b) { a op b; });
#define FV(N) CO(vec##N, vec##N, "f", "add", +=) CO(vec##N, vec##N, "f", "sub", -=) CO(vec##N, vec##N, "f", "mul", *=) CO(vec##N, vec##N, "f", "div", /=) \
    CO(vec##N, float, "f", "add", +=) CO(vec##N, float, "f", "sub", -=) CO(vec##N, float, "f", "mul", *=) CO(vec##N, float, "f", "div", /=) INCDEC(vec##N, "")
#define IC(N, S) CO(ivec##N, S, "i", "add", +=) CO(ivec##N, S, "i", "sub", -=) CO(ivec##N, S, "i", "mul", *=) CO(ivec##N, S, "i", "div", /=) CO(ivec##N, S, "i", "rem", %=) \
    CO(ivec##N, S, "i", "and", &=) CO(ivec##N, S, "i", "or", |=) CO(ivec##N, S, "i", "xor", ^=) CO(ivec##N, S, "i", "shl", <<=) CO(ivec##N, S, "i", "shr", >>=)
#define IV(N) IC(N, ivec##N) IC(N, int) INCDEC(ivec##N, "i")
// prefix forms: the value the expression denotes, which is the target itself
#define INCDEC(T, c) \
    drv::def(c "inc.preinc", [](T& a, bool& same) { T& r = ++a; same = &r == &a; return r; }); \
    drv::def(c "inc.predec", [](T& a, bool& same) { T& r = --a; same = &r == &a; return r; }); \
    drv::def(c "inc.postinc", [](T& a) { return a++; }); \
    drv::def(c "inc.postdec", [](T& a) { return a--; });
// the right operand is a component of the target: by value through its accessor, and as a reference to its storage
#define ALX(k, T, op, nm, c, n) drv::def(k "alx." nm "=:" #c, [](T& a) { a op a[n]; });
#define ALXK(k, T, c, n) ALX(k, T, +=, "add", c, n) ALX(k, T, -=, "sub", c, n) ALX(k, T, *=, "mul", c, n) ALX(k, T, /=, "div", c, n)
#define ALXI(T, c, n) ALXK("i", T, c, n) ALX("i", T, %=, "rem", c, n) ALX("i", T, &=, "and", c, n) ALX("i", T, |=, "or", c, n) ALX("i", T, ^=, "xor", c, n) \
    ALX("i", T, <<=, "shl", c, n) ALX("i", T, >>=, "shr", c, n)
#define ALX2(M, T) M(T, x, 0) M(T, y, 1)
#define ALX3(M, T) ALX2(M, T) M(T, z, 2)
#define ALX4(M, T) ALX3(M, T) M(T, w, 3)
#define ALXF(T, c, n) ALXK("", T, c, n)
#define ALXQ(T, c, n) ALX("", T, *=, "mul", c, n) ALX("", T, /=, "div", c, n)
#define ALXB(T, c, n) ALX("", T, &=, "band", c, n) ALX("", T, |=, "bor", c, n) ALX("", T, ^=, "bxor", c, n)
#define AL(k, T, op, nm, c) drv::def(k "al." nm "=:" #c, [](T& a) { a op a.c; });
#define ALK(k, T, c) AL(k, T, +=, "add", c) AL(k, T, -=, "sub", c) AL(k, T, *=, "mul", c) AL(k, T, /=, "div", c)
#define ALF(T, c) ALK("", T, c)
#define ALI(T, c) ALK("i", T, c) AL("i", T, %=, "rem", c) AL("i", T, &=, "and", c) AL("i", T, |=, "or", c) AL("i", T, ^=, "xor", c) AL("i", T, <<=, "shl", c) AL("i", T, >>=, "shr", c)
#define MM(T) CO(T, T, "f", "add", +=) CO(T, T, "f", "sub", -=) CO(T, T, "m", "mm", *=) CO(T, T, "m", "mdivm", /=)
FAMILY(inplace) {
    FV(2) FV(3) FV(4) IV(2) IV(3) IV(4)
    ALF(vec2, x) ALF(vec2, y) ALF(vec3, x) ALF(vec3, y) ALF(vec3, z) ALF(vec4, x) ALF(vec4, y) ALF(vec4, z) ALF(vec4, w)
    ALI(ivec2, x) ALI(ivec2, y) ALI(ivec3, x) ALI(ivec3, y) ALI(ivec3, z) ALI(ivec4, x) ALI(ivec4, y) ALI(ivec4, z) ALI(ivec4, w)
    ALX2(ALXF, vec2) ALX3(ALXF, vec3) ALX4(ALXF, vec4) ALX2(ALXI, ivec2) ALX3(ALXI, ivec3) ALX4(ALXI, ivec4)
    ALX4(ALXQ, quat) ALX2(ALXB, bvec2) ALX3(ALXB, bvec3) ALX4(ALXB, bvec4)
    MM(mat2) MM(mat3) MM(mat4)
    CO(quat, quat, "f", "add", +=) CO(quat, quat, "f", "sub", -=) CO(quat, quat, "q", "mul", *=) CO(quat, float, "f", "mul", *=) CO(quat, float, "f", "div", /=)
    // the right operand is a field of the target quaternion
#define ALQ(c) AL("", quat, *=, "mul", c) AL("", quat, /=, "div", c)
    ALQ(x) ALQ(y) ALQ(z) ALQ(w)
#define BAL(N, c) AL("", bvec##N, &=, "band", c) AL("", bvec##N, |=, "bor", c) AL("", bvec##N, ^=, "bxor", c)
    BAL(2, x) BAL(2, y) BAL(3, x) BAL(3, y) BAL(3, z) BAL(4, x) BAL(4, y) BAL(4, z) BAL(4, w)
#define BCO(N) CO(bvec##N, bvec##N, "b", "and", &=) CO(bvec##N, bvec##N, "b", "or", |=) CO(bvec##N, bvec##N, "b", "xor", ^=) \
    CO(bvec##N, bool, "b", "and", &=) CO(bvec##N, bool, "b", "or", |=) CO(bvec##N, bool, "b", "xor", ^=)
    // columns of a matrix updated through indexing
#define MC(T, V) \
    drv::def("k.coladd=", [](T& m, int i, const V& v) { m[i] += v; }); \
    drv::def("k.colmul=", [](T& m, int i, float v) { m[i] *= v; }); \
    drv::def("k.colsub=", [](T& m, int i, const V& v) { m[i] -= v; }); \
    drv::def("k.coldiv=", [](T& m, int i, float v) { m[i] /= v; }); \
    /* columns and elements of the same matrix on both sides */ \
    drv::def("k.colcoladd=", [](T& m, int i, int j) { m[i] += m[j]; }); \
    drv::def("k.colcolmul=", [](T& m, int i, int j) { m[i] *= m[j]; }); \
    drv::def("k.colcolset=", [](T& m, int i, int j) { m[i] = m[j]; }); \
    drv::def("k.colelemmul=", [](T& m, int i, int j, int k) { m[i] *= m[j][k]; }); \
    drv::def("k.colelemdiv=", [](T& m, int i, int j, int k) { m[i] /= m[j][k]; });
    MC(mat2, vec2) MC(mat3, vec3) MC(mat4, vec4)
}
