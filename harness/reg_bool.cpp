// P03: Boolean vectors
#include "drv.hpp"
#include <zcm/common.hpp>
using namespace zcm;
#define BIN(N, nm, op) \
    drv::def("b." nm, [](const bvec##N& a, const bvec##N& b) { return a op b; }); \
    drv::def("b." nm, [](const bvec##N& a, bool b) { return a op b; }); \
    drv::def("b." nm, [](bool a, const bvec##N& b) { return a op b; });
#define CMP(N, nm, op) \
    drv::def("b." nm "=", [](bvec##N& a, const bvec##N& b) { a op b; }); \
    drv::def("b." nm "=", [](bvec##N& a, bool b) { a op b; });
#define ELEM(N, c) \
    drv::def("k.get:" #c, [](const bvec##N& a) { return a.c; }); \
    drv::def("k.set:" #c, [](bvec##N& a, bool b) { a.c = b; });
#define VEC(N) BIN(N, "and", &&) BIN(N, "or", ||) BIN(N, "xor", ^) CMP(N, "and", &=) CMP(N, "or", |=) CMP(N, "xor", ^=) \
    drv::def("b.not", [](const bvec##N& a) { return !a; }); \
    drv::def("b.eq", [](const bvec##N& a, const bvec##N& b) { return a == b; }); \
    drv::def("b.ne", [](const bvec##N& a, const bvec##N& b) { return a != b; }); \
    drv::def("b.equal", [](const bvec##N& a, const bvec##N& b) { return equal(a, b); }); \
    drv::def("b.notEqual", [](const bvec##N& a, const bvec##N& b) { return notEqual(a, b); }); \
    drv::def("b.all", [](const bvec##N& a) { return all(a); }); \
    drv::def("b.any", [](const bvec##N& a) { return any(a); }); \
    drv::def("k.index", [](const bvec##N& a, int i) { return a[i]; }); \
    drv::def("k.indexw", [](bvec##N& a, int i) { return a[i]; }); \
    drv::def("k.setidx", [](bvec##N& a, int i, bool b) { a[i] = b; });
FAMILY(bool_) { VEC(2) VEC(3) VEC(4)
    ELEM(2, x) ELEM(2, y) ELEM(3, x) ELEM(3, y) ELEM(3, z) ELEM(4, x) ELEM(4, y) ELEM(4, z) ELEM(4, w) }
