// P04, P06: component accessors
#include "drv.hpp"
using namespace zcm;
#define ARITH(k, V, T, c) \
    drv::def(k "c.add=:" #c, [](V& a, T b) { a.c += b; }); drv::def(k "c.sub=:" #c, [](V& a, T b) { a.c -= b; }); \
    drv::def(k "c.mul=:" #c, [](V& a, T b) { a.c *= b; }); drv::def(k "c.div=:" #c, [](V& a, T b) { a.c /= b; }); \
    drv::def(k "c.preinc:" #c, [](V& a) { T& r = ++a.c; return r; }); drv::def(k "c.predec:" #c, [](V& a) { T& r = --a.c; return r; }); \
    drv::def(k "c.preincw:" #c, [](V& a, T b) { ++a.c = b; }); drv::def(k "c.predecw:" #c, [](V& a, T b) { --a.c = b; }); \
    drv::def(k "c.postinc:" #c, [](V& a) { T r = a.c++; return r; }); drv::def(k "c.postdec:" #c, [](V& a) { T r = a.c--; return r; });
#define BITS(k, V, c) \
    drv::def(k "c.rem=:" #c, [](V& a, int b) { a.c %= b; }); drv::def(k "c.and=:" #c, [](V& a, int b) { a.c &= b; }); \
    drv::def(k "c.or=:" #c, [](V& a, int b) { a.c |= b; }); drv::def(k "c.xor=:" #c, [](V& a, int b) { a.c ^= b; }); \
    drv::def(k "c.shl=:" #c, [](V& a, int b) { a.c <<= b; }); drv::def(k "c.shr=:" #c, [](V& a, int b) { a.c >>= b; });
#define FC(V, c) ARITH("", V, float, c)
#define IC(V, c) ARITH("i", V, int, c) BITS("i", V, c)
// the right operand is a component of the target or of another object
#define ALC(k, V, c, d) drv::def(k "c.addc=:" #c #d, [](V& a, const V& b) { a.c += b.d; }); drv::def(k "c.subc=:" #c #d, [](V& a, const V& b) { a.c -= b.d; }); \
    drv::def(k "c.mulc=:" #c #d, [](V& a, const V& b) { a.c *= b.d; });
#define A2(k, V) ALC(k, V, x, x) ALC(k, V, x, y) ALC(k, V, y, x) ALC(k, V, y, y)
#define A3(k, V) A2(k, V) ALC(k, V, x, z) ALC(k, V, y, z) ALC(k, V, z, x) ALC(k, V, z, y) ALC(k, V, z, z)
#define A4(k, V) A3(k, V) ALC(k, V, x, w) ALC(k, V, y, w) ALC(k, V, z, w) ALC(k, V, w, x) ALC(k, V, w, y) ALC(k, V, w, z) ALC(k, V, w, w)
FAMILY(access) {
    FC(vec2, x) FC(vec2, y) FC(vec3, x) FC(vec3, y) FC(vec3, z) FC(vec4, x) FC(vec4, y) FC(vec4, z) FC(vec4, w)
    IC(ivec2, x) IC(ivec2, y) IC(ivec3, x) IC(ivec3, y) IC(ivec3, z) IC(ivec4, x) IC(ivec4, y) IC(ivec4, z) IC(ivec4, w)
    A2("", vec2) A3("", vec3) A4("", vec4) A2("i", ivec2) A3("i", ivec3) A4("i", ivec4)
}
