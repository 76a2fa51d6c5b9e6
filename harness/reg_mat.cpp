// P16, P17: matrices
#include "drv.hpp"
#include <zcm/matrix.hpp>
using namespace zcm;
#define F1(T, fn) drv::def("m." #fn, [](const T& a) { return fn(a); });
#define MAT(M, V) \
    drv::def("f.add", [](const M& a, const M& b) { return a + b; }); drv::def("f.sub", [](const M& a, const M& b) { return a - b; }); \
    drv::def("f.neg", [](const M& a) { return -a; }); drv::def("f.pos", [](const M& a) { return +a; }); \
    drv::def("f.mul", [](const M& a, float b) { return a * b; }); drv::def("f.mul", [](float a, const M& b) { return a * b; }); \
    drv::def("f.div", [](const M& a, float b) { return a / b; }); drv::def("f.div", [](float a, const M& b) { return a / b; }); \
    drv::def("f.mul", [](const M& a, const M& b) { return matrixCompMult(a, b); }); \
    drv::def("m.mm", [](const M& a, const M& b) { return a * b; }); drv::def("m.mv", [](const M& a, const V& b) { return a * b; }); drv::def("m.vm", [](const V& a, const M& b) { return a * b; }); \
    drv::def("m.mdivm", [](const M& a, const M& b) { return a / b; }); drv::def("m.mdivv", [](const M& a, const V& b) { return a / b; }); drv::def("m.vdivm", [](const V& a, const M& b) { return a / b; }); \
    F1(M, transpose) F1(M, determinant) F1(M, inverse) F1(M, adjugate) F1(M, inverseTranspose) F1(M, adjugateTranspose)
FAMILY(mat) { MAT(mat2, vec2) MAT(mat3, vec3) MAT(mat4, vec4) }
