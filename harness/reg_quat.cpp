// P21, P22, P23: quaternions
#include "drv.hpp"
#include <zcm/geometric.hpp>
#include <zcm/quaternion.hpp>
using namespace zcm;
FAMILY(quat) {
    drv::def("f.add", [](const quat& a, const quat& b) { return a + b; }); drv::def("f.sub", [](const quat& a, const quat& b) { return a - b; });
    drv::def("f.pos", [](const quat& a) { return +a; }); drv::def("f.neg", [](const quat& a) { return -a; });
    drv::def("f.mul", [](const quat& a, float b) { return a * b; }); drv::def("f.mul", [](float a, const quat& b) { return a * b; });
    drv::def("f.div", [](const quat& a, float b) { return a / b; }); drv::def("f.div", [](float a, const quat& b) { return a / b; });
    drv::def("q.mul", [](const quat& a, const quat& b) { return a * b; });
    drv::def("q.qv", [](const quat& a, const vec3& b) { return a * b; }); drv::def("q.vq", [](const vec3& a, const quat& b) { return a * b; });
    drv::def("q.conjugate", [](const quat& a) { return conjugate(a); }); drv::def("q.inverse", [](const quat& a) { return inverse(a); });
    drv::def("q.lerp", [](const quat& a, const quat& b, float t) { return lerp(a, b, t); });
    drv::def("q.nlerp", [](const quat& a, const quat& b, float t) { return nlerp(a, b, t); });
    drv::def("q.slerp", [](const quat& a, const quat& b, float t) { return slerp(a, b, t); });
    drv::def("q.axis", [](const quat& a) { return axis(a); }); drv::def("q.angle", [](const quat& a) { return angle(a); });
    drv::def("q.angleAxis", [](float a, const vec3& v) { return angleAxis(a, v); });
    drv::def("q.rotate", [](const quat& q, float a, const vec3& v) { return rotate(q, a, v); });
    drv::def("q.eulerAngles", [](const quat& a) { return eulerAngles(a); });
    drv::def("q.pitch", [](const quat& a) { return pitch(a); }); drv::def("q.yaw", [](const quat& a) { return yaw(a); }); drv::def("q.roll", [](const quat& a) { return roll(a); });
    drv::def("q.mat3_cast", [](const quat& a) { return mat3_cast(a); }); drv::def("q.mat4_cast", [](const quat& a) { return mat4_cast(a); });
    drv::def("q.quat_cast", [](const mat3& a) { return quat_cast(a); }); drv::def("q.quat_cast", [](const mat4& a) { return quat_cast(a); });
    drv::def("q.castround", [](const quat& a) { return quat_cast(mat3_cast(a)); }); drv::def("q.castround4", [](const quat& a) { return quat_cast(mat4_cast(a)); });
    drv::def("q.lookLH", [](const vec3& d, const vec3& u) { return quatLookAtLH(d, u); });
    drv::def("q.lookRH", [](const vec3& d, const vec3& u) { return quatLookAtRH(d, u); });
    drv::def("q.fromto", [](const vec3& u, const vec3& v) { return quat(u, v); });
    drv::def("q.fromeuler", [](const vec3& e) { return quat(e); });
}
