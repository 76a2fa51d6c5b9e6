// P18, P19, P20: matrix transforms
#include "drv.hpp"
#include <zcm/matrix_transform.hpp>
using namespace zcm;
#define LOOK(fn) drv::def("x." #fn, [](const vec3& e, const vec3& c, const vec3& u) { return fn(e, c, u); });
#define ORTHO(fn) drv::def("x." #fn, [](float l, float r, float b, float t, float n, float f) { return fn(l, r, b, t, n, f); });
#define PERSP(fn) drv::def("x." #fn, [](float y, float a, float n, float f) { return fn(y, a, n, f); });
FAMILY(xform) {
    drv::def("x.translate", [](const mat4& m, const vec3& v) { return translate(m, v); });
    drv::def("x.scale", [](const mat4& m, const vec3& v) { return scale(m, v); });
    drv::def("x.rotate", [](const mat4& m, float a, const vec3& v) { return rotate(m, a, v); });
    LOOK(lookAtLH) LOOK(lookAtRH)
    drv::def("x.ortho", [](float l, float r, float b, float t) { return ortho(l, r, b, t); });
    ORTHO(orthoLH_ZO) ORTHO(orthoRH_ZO) ORTHO(orthoLH_NO) ORTHO(orthoRH_NO)
    PERSP(perspectiveRH_ZO) PERSP(perspectiveLH_ZO) PERSP(perspectiveRH_NO) PERSP(perspectiveLH_NO)
    drv::def("x.decompose", [](const mat4& m, vec3& s, quat& o, vec3& t) { decompose_orthogonal(m, s, o, t); });
}
