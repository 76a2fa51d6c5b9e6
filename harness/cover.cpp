// Which of many candidate calls exercise the library differently: the library and the registered operations are built
// with -fsanitize-coverage=trace-pc,trace-cmp, and every candidate is called once.  A candidate is kept when it reaches
// code, or brings the two sides of a comparison to a distance, that too few candidates of the same operation had
// reached before.  This only chooses inputs; nothing here judges a result.
//
// stdin:  count, then count times: operation (position in `driver list`), lanes, lane..        (32-bit integers)
// stdout: kept, then kept times: candidate, new code (0/1), sites, then sites times: (site, side a, side b) as
//         32-bit integer and two doubles
// This file and drv.cpp are compiled without instrumentation, and the callbacks use no library code.
#include "drv.hpp"
#include <cstdio>
#include <unordered_map>

namespace drv { extern int (*explore)(const std::vector<const Op*>&); void fill(Reg& r, const int32_t* lanes); }

namespace {
struct Site { uint32_t pc; double a, b; };
const int MAXF = 8192, MAXS = 64;
bool on = false;
int nf = 0, ns = 0;
uint64_t feats[MAXF];
Site sites[MAXS];
char anchor;

inline uint32_t where(void* ra) { return uint32_t(reinterpret_cast<uintptr_t>(ra) - reinterpret_cast<uintptr_t>(&anchor)); }
inline void feature(uint32_t pc, int bucket) { if (nf < MAXF) feats[nf++] = (uint64_t(pc) << 9) | uint64_t(bucket); }
inline int log2of(uint64_t d) { return d ? 64 - __builtin_clzll(d) : 0; }
inline void site(uint32_t pc, double a, double b) {
    for (int i = 0; i < ns; i++) if (sites[i].pc == pc) { sites[i].a = a; sites[i].b = b; return; }
    if (ns < MAXS) { sites[ns].pc = pc; sites[ns].a = a; sites[ns].b = b; ns++; }
}
inline int64_t ord(float x) { int32_t i; __builtin_memcpy(&i, &x, 4); return i < 0 ? -int64_t(i & 0x7fffffff) : i; }
inline int64_t ord(double x) { int64_t i; __builtin_memcpy(&i, &x, 8); return i < 0 ? -(i & 0x7fffffffffffffffll) : i; }
template<class F> inline void fcmp(void* ra, F a, F b) {
    if (!on) return;
    uint32_t pc = where(ra);
    if (a != a || b != b) { feature(pc, 130); return; }
    int64_t x = ord(a), y = ord(b);
    uint64_t d = x > y ? uint64_t(x) - uint64_t(y) : uint64_t(y) - uint64_t(x);
    feature(pc, log2of(d) + (x < y ? 65 : 0));
    site(pc, a, b);
}
inline void icmp(void* ra, int64_t a, int64_t b) {
    if (!on) return;
    uint32_t pc = where(ra);
    uint64_t d = a > b ? uint64_t(a) - uint64_t(b) : uint64_t(b) - uint64_t(a);
    feature(pc, log2of(d) + (a < b ? 65 : 0));
    site(pc, double(a), double(b));
}
}
#define RA __builtin_return_address(0)
extern "C" {
void __sanitizer_cov_trace_pc() { if (on) feature(where(RA), 511); }
void __sanitizer_cov_trace_cmpf(float a, float b) { fcmp(RA, a, b); }
void __sanitizer_cov_trace_cmpd(double a, double b) { fcmp(RA, a, b); }
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { icmp(RA, a, b); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { icmp(RA, a, b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { icmp(RA, int32_t(a), int32_t(b)); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { icmp(RA, int64_t(a), int64_t(b)); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { icmp(RA, a, b); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { icmp(RA, a, b); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { icmp(RA, int32_t(a), int32_t(b)); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { icmp(RA, int64_t(a), int64_t(b)); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* cases) {
    for (uint64_t i = 0; i < cases[0]; i++) if (v == cases[2 + i]) { if (on) feature(where(RA), int(200 + i % 200)); return; }
}
}

namespace {
template<class T> bool get(T& x) { return std::fread(&x, sizeof x, 1, stdin) == 1; }
template<class T> void put(T x) { std::fwrite(&x, sizeof x, 1, stdout); }
const int PC_CAP = 12, CMP_CAP = 4;

int loop(const std::vector<const drv::Op*>& ops) {
    std::unordered_map<uint64_t, unsigned char> seen;
    struct Kept { int32_t k, fresh; std::vector<Site> s; };
    int32_t count;
    while (get(count)) {
        std::vector<Kept> kept;
        for (int32_t k = 0; k < count; k++) {
            int32_t o, n;
            if (!get(o) || !get(n)) return 3;
            std::vector<int32_t> lanes(n + 16);
            if (n && std::fread(lanes.data(), 4, n, stdin) != std::size_t(n)) return 3;
            const drv::Op& op = *ops[o];
            drv::Reg a[16], r; drv::Reg* p[16];
            const int32_t* at = lanes.data();
            for (std::size_t i = 0; i < op.args.size(); i++) { a[i].t = op.args[i]; p[i] = &a[i]; drv::fill(a[i], at); at += drv::types[op.args[i]].lanes; }
            nf = ns = 0;
            on = true; op.call(p, &r); on = false;
            int fresh = 0; bool keep = false;
            for (int i = 0; i < nf; i++) {
                bool code = (feats[i] & 511) == 511;
                unsigned char& c = seen[(uint64_t(o) << 41) ^ feats[i]];
                if (c == 0 && code) fresh = 1;
                bool again = false;                              // a loop reaches the same code more than once in one call
                for (int j = i - 1; j >= 0 && j > i - 64 && !again; j--) again = feats[j] == feats[i];
                if (c < (code ? PC_CAP : CMP_CAP) && !again) { c++; keep = true; }
            }
            if (keep) kept.push_back(Kept{k, fresh, std::vector<Site>(sites, sites + ns)});
        }
        put(int32_t(kept.size()));
        for (auto& x : kept) {
            put(x.k); put(x.fresh); put(int32_t(x.s.size()));
            for (auto& s : x.s) { put(s.pc); put(s.a); put(s.b); }
        }
        std::fflush(stdout);
    }
    return 0;
}
struct Install { Install() { drv::explore = loop; } } install;
}
