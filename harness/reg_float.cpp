// P01: float vector operators
#include "drv.hpp"
using namespace zcm;
#define BIN(N, nm, op) \
    drv::def("f." nm, [](const vec##N& a, const vec##N& b) { return a op b; }); \
    drv::def("f." nm, [](const vec##N& a, float b) { return a op b; }); \
    drv::def("f." nm, [](float a, const vec##N& b) { return a op b; });
#define VEC(N) BIN(N, "add", +) BIN(N, "sub", -) BIN(N, "mul", *) BIN(N, "div", /) \
    drv::def("f.neg", [](const vec##N& a) { return -a; }); \
    drv::def("f.pos", [](const vec##N& a) { return +a; });
FAMILY(float_) { VEC(2) VEC(3) VEC(4) }
