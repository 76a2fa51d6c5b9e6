// P24: colour space conversions
#include "drv.hpp"
#include <zcm/color_space.hpp>
using namespace zcm;
#define C(T) \
    drv::def("col.toSRGB", [](const T& c) { return convertLinearToSRGB(c); }); drv::def("col.toSRGBg", [](const T& c, float g) { return convertLinearToSRGB(c, g); }); \
    drv::def("col.toLinear", [](const T& c) { return convertSRGBToLinear(c); }); drv::def("col.toLinearg", [](const T& c, float g) { return convertSRGBToLinear(c, g); }); \
    drv::def("col.round", [](const T& c) { return convertSRGBToLinear(convertLinearToSRGB(c, 2.4f)); }); \
    drv::def("col.round2", [](const T& c) { return convertLinearToSRGB(convertSRGBToLinear(c), 2.4f); });
FAMILY(color) { C(vec3) C(vec4) }
