// P07: equality and order
#include "drv.hpp"
#include <set>
using namespace zcm;
#define EQ(T, c) drv::def(c ".eq", [](const T& a, const T& b) { return a == b; }); drv::def(c ".ne", [](const T& a, const T& b) { return a != b; });
#define ORD(T) EQ(T, "i") \
    drv::def("i.lt", [](const T& a, const T& b) { return a < b; }); drv::def("i.le", [](const T& a, const T& b) { return a <= b; }); \
    drv::def("i.gt", [](const T& a, const T& b) { return a > b; }); drv::def("i.ge", [](const T& a, const T& b) { return a >= b; });
FAMILY(cmp) {
    EQ(vec2, "f") EQ(vec3, "f") EQ(vec4, "f") EQ(mat2, "f") EQ(mat3, "f") EQ(mat4, "f") EQ(quat, "f")
    EQ(bvec2, "b") EQ(bvec3, "b") EQ(bvec4, "b")
    ORD(ivec2) ORD(ivec3) ORD(ivec4)
}
