// P02: integer vector operators
#include "drv.hpp"
using namespace zcm;
#define BIN(N, nm, op) \
    drv::def("i." nm, [](const ivec##N& a, const ivec##N& b) { return a op b; }); \
    drv::def("i." nm, [](const ivec##N& a, int b) { return a op b; }); \
    drv::def("i." nm, [](int a, const ivec##N& b) { return a op b; });
#define VEC(N) BIN(N, "add", +) BIN(N, "sub", -) BIN(N, "mul", *) BIN(N, "div", /) BIN(N, "rem", %) \
    BIN(N, "and", &) BIN(N, "or", |) BIN(N, "xor", ^) BIN(N, "shl", <<) BIN(N, "shr", >>) \
    drv::def("i.neg", [](const ivec##N& a) { return -a; }); \
    drv::def("i.pos", [](const ivec##N& a) { return +a; });
FAMILY(int_) { VEC(2) VEC(3) VEC(4) }
