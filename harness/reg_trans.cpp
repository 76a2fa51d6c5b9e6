// P11, P12: exponential and trigonometric functions
#include "drv.hpp"
#include <zcm/exponential.hpp>
#include <zcm/angle_and_trigonometry.hpp>
using namespace zcm;
#define F1(T, c, fn) drv::def(c "." #fn, [](const T& a) { return zcm::fn(a); });
#define F2(T, c, fn) drv::def(c "." #fn, [](const T& a, const T& b) { return zcm::fn(a, b); });
#define EXPS(T) F1(T, "e", exp) F1(T, "e", exp2) F1(T, "e", log) F1(T, "e", log2) F1(T, "e", sqrt) F1(T, "e", inversesqrt) F1(T, "e", cbrt)
#define TRIG(T) F1(T, "t", sin) F1(T, "t", cos) F1(T, "t", tan) F1(T, "t", asin) F1(T, "t", acos) F1(T, "t", atan) F1(T, "t", sinh) F1(T, "t", cosh) F1(T, "t", tanh) \
    F1(T, "t", asinh) F1(T, "t", acosh) F1(T, "t", atanh) F1(T, "t", radians) F1(T, "t", degrees) \
    drv::def("t.atan2", [](const T& a, const T& b) { return atan(a, b); });
FAMILY(trans) {
    EXPS(float) EXPS(vec2) EXPS(vec3) EXPS(vec4) EXPS(quat) F2(float, "e", pow) F2(vec2, "e", pow) F2(vec3, "e", pow) F2(vec4, "e", pow)
    drv::def("e.pow", [](const quat& a, float b) { return pow(a, b); });
    TRIG(float) TRIG(vec2) TRIG(vec3) TRIG(vec4)
}
