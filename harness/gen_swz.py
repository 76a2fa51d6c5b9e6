#!/usr/bin/env python3
"""Writes the driver's swizzle families: every name of every letter family, read, and the one-letter names written.

The names are enumerated here from the documented scheme (xyzw, rgba, stpq), not taken from the headers, so that a
name missing there is a compile error of the driver."""
import itertools, os, sys
FAM = ["xyzw", "rgba", "stpq"]
def main(out):
    os.makedirs(out, exist_ok=True)
    for pre, sc in (("", "float"), ("i", "int")):
        for n in (2, 3, 4):
            parts = {"": []}
            T = "%svec%d" % (pre, n)
            for fam in FAM:
                for k in ([1] + ([2] if n == 2 else [2, 3] if n == 3 else [2, 3, 4])):
                    for w in itertools.product(fam[:n], repeat=k):
                        w = "".join(w)
                        if k == 1:
                            parts[""] += ['drv::def("swz.get:%s", [](const %s& a) -> %s { return a.%s; });' % (w, T, sc, w),
                                          'drv::def("swz.set:%s", [](%s& a, %s b) { a.%s = b; });' % (w, T, sc, w),
                                          'drv::def("swz.fmt:%s", [](const %s& a) -> %s { return detail::format_as(a.%s); });' % (w, T, sc, w)]
                            for v in fam[:n]:
                                parts[""].append('drv::def("swz.setc:%s%s", [](%s& a, const %s& b) { a.%s = b.%s; });' % (w, v, T, T, w, v))
                        else:
                            key = "" if k < 4 else "_" + fam[0]
                            parts.setdefault(key, []).append('drv::def("swz.get:%s", [](const %s& a) -> %svec%d { return a.%s; });' % (w, T, pre, k, w))
                            if k == 2 and n < 4:
                                parts[key].append('drv::def("swz.fmt:%s", [](const %s& a) -> %svec%d { return detail::format_as(a.%s); });' % (w, T, pre, k, w))
            for key, lines in parts.items():
                name = "%sv%d%s" % (pre, n, key)
                with open(os.path.join(out, "swz_%s.cpp" % name), "w") as f:
                    f.write('#include "drv.hpp"\nusing namespace zcm;\nFAMILY(swz_%s) {\n%s\n}\n' % (name, "\n".join(lines)))
main(sys.argv[1])
