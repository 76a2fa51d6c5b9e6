// P25: hash functions, through the function and through the std::hash specialisation
#include "drv.hpp"
#include <zcm/hash.hpp>
using namespace zcm;
static drv::U64 u(size_t h) { drv::U64 r; r.v = h; return r; }
#define H(T) drv::def("h.hash", [](const T& a) { return u(zcm::hash(a)); });
#define S(T) H(T) drv::def("h.stdhash", [](const T& a) { return u(std::hash<T>()(a)); });
FAMILY(hash) {
    H(float) H(bool) H(int)
    drv::def("h.hashu", [](int a) { return u(zcm::hash(unsigned(a))); });
    S(bvec2) S(bvec3) S(bvec4) S(ivec2) S(ivec3) S(ivec4) S(vec2) S(vec3) S(vec4) S(quat) S(mat2) S(mat3) S(mat4)
}
