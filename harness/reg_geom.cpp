// P13, P14, P15: geometric functions
#include "drv.hpp"
#include <zcm/geometric.hpp>
using namespace zcm;
#define F1(T, fn) drv::def("g." #fn, [](const T& a) { return zcm::fn(a); });
#define F2(T, fn) drv::def("g." #fn, [](const T& a, const T& b) { return zcm::fn(a, b); });
#define F3(T, fn) drv::def("g." #fn, [](const T& a, const T& b, const T& c) { return zcm::fn(a, b, c); });
#define ALL(T) F2(T, dot) F1(T, length) F1(T, length2) F2(T, distance) F2(T, distance2) F2(T, reflect) F3(T, faceforward) \
    drv::def("g.refract", [](const T& i, const T& n, float eta) { return refract(i, n, eta); });
FAMILY(geom) {
    ALL(float) ALL(vec2) ALL(vec3) ALL(vec4) F2(quat, dot) F1(quat, length) F1(quat, length2)
    F1(vec2, normalize) F1(vec3, normalize) F1(vec4, normalize) F1(quat, normalize) F2(vec3, cross)
    F1(vec3, orthogonal) F1(vec3, orthogonal_branchless) F1(vec3, encode_octahedral) F1(vec2, decode_octahedral)
    drv::def("g.octround", [](const vec3& a) { return decode_octahedral(encode_octahedral(a)); });
}
