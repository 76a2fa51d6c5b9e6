// P27: constants
#include "drv.hpp"
#include <zcm/constants.hpp>
#define C(n) drv::def("const." #n, []() { return zcm::n(); });
FAMILY(const_) {
    C(epsilon)
    C(zero)
    C(one)
    C(pi)
    C(two_pi)
    C(root_pi)
    C(half_pi)
    C(three_over_two_pi)
    C(quarter_pi)
    C(one_over_pi)
    C(one_over_two_pi)
    C(two_over_pi)
    C(four_over_pi)
    C(two_over_root_pi)
    C(one_over_root_two)
    C(root_half_pi)
    C(root_two_pi)
    C(root_ln_four)
    C(e)
    C(euler)
    C(root_two)
    C(root_three)
    C(root_five)
    C(ln_two)
    C(ln_ten)
    C(ln_ln_two)
    C(third)
    C(two_thirds)
    C(golden_ratio)
}
