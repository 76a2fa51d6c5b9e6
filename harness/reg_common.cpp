// P08, P09, P10: common and component-wise functions
#include "drv.hpp"
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
using namespace zcm;
#define F1(T, c, fn) drv::def(c "." #fn, [](const T& a) { return zcm::fn(a); });
#define F2(T, c, fn) drv::def(c "." #fn, [](const T& a, const T& b) { return zcm::fn(a, b); });
#define F3(T, c, fn) drv::def(c "." #fn, [](const T& a, const T& b, const T& d) { return zcm::fn(a, b, d); });
#define ROUND(T) F1(T, "r", abs) F1(T, "r", ceil) F1(T, "r", floor) F1(T, "r", trunc) F1(T, "r", round) F1(T, "r", roundEven) \
    F1(T, "r", sign) F1(T, "r", signNotZero) F1(T, "r", fract) F2(T, "r", mod)
#define ROUNDI(T) F1(T, "ir", abs) F1(T, "ir", sign) F1(T, "ir", signNotZero)
#define MODS(T) drv::def("r.mod", [](const T& a, float b) { return mod(a, b); });
#define MIN(T) F2(T, "s", min) F2(T, "s", max) F3(T, "s", clamp) F2(T, "s", step) F3(T, "s", smoothstep) F3(T, "s", fma) F3(T, "s", mix)
#define MINI(T) F2(T, "is", min) F2(T, "is", max) F3(T, "is", clamp)
#define MIXS(N) drv::def("s.mix", [](const vec##N& a, const vec##N& b, float t) { return mix(a, b, t); }); \
    drv::def("s.mixb", [](const vec##N& a, const vec##N& b, const bvec##N& t) { return mix(a, b, t); });
#define REL(T) F2(T, "rel", lessThan) F2(T, "rel", lessThanEqual) F2(T, "rel", greaterThan) F2(T, "rel", greaterThanEqual) F2(T, "rel", equal) F2(T, "rel", notEqual)
#define CLS(T) F1(T, "rel", isnan) F1(T, "rel", isinf)
#define RED(T, c) F1(T, c, compAdd) F1(T, c, compMul) F1(T, c, compMin) F1(T, c, compMax)
FAMILY(common) {
    ROUND(float) ROUND(vec2) ROUND(vec3) ROUND(vec4) ROUNDI(int) ROUNDI(ivec2) ROUNDI(ivec3) ROUNDI(ivec4) MODS(vec2) MODS(vec3) MODS(vec4)
    MIN(float) MIN(vec2) MIN(vec3) MIN(vec4) MINI(int) MINI(ivec2) MINI(ivec3) MINI(ivec4) MIXS(2) MIXS(3) MIXS(4)
    drv::def("s.mixb", [](float a, float b, bool t) { return mix(a, b, t); });
    REL(vec2) REL(vec3) REL(vec4) F2(quat, "rel", equal) F2(quat, "rel", notEqual) CLS(float) CLS(vec2) CLS(vec3) CLS(vec4) CLS(quat)
    F2(bvec2, "b", equal) F2(bvec3, "b", equal) F2(bvec4, "b", equal) F2(bvec2, "b", notEqual) F2(bvec3, "b", notEqual) F2(bvec4, "b", notEqual)
    RED(vec2, "red") RED(vec3, "red") RED(vec4, "red") RED(ivec2, "ired") RED(ivec3, "ired") RED(ivec4, "ired")
}
