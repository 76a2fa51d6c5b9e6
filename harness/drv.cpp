#include "drv.hpp"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <atomic>
#include <sys/mman.h>
#include <thread>
#include <unordered_map>

namespace drv {
const TypeInfo types[T_N] = {
    {"f", K_float, 1}, {"i", K_int, 1}, {"b", K_bool, 1}, {"v2", K_float, 2}, {"v3", K_float, 3}, {"v4", K_float, 4},
    {"i2", K_int, 2}, {"i3", K_int, 3}, {"i4", K_int, 4}, {"b2", K_bool, 2}, {"b3", K_bool, 3}, {"b4", K_bool, 4},
    {"m2", K_float, 4}, {"m3", K_float, 9}, {"m4", K_float, 16}, {"q", K_float, 4}, {"u", K_u64, 2},
    {"a2", K_float, 2}, {"a3", K_float, 3}, {"a4", K_float, 4}, {"a9", K_float, 9}, {"a16", K_float, 16},
    {"c2", K_bool, 2}, {"c3", K_bool, 3}, {"c4", K_bool, 4}};
std::vector<Op>& ops() { static std::vector<Op> v; return v; }
void add(const char* name, std::vector<Type> args, std::vector<char> inout, Type ret, Fn fn, void (*thunk)(Fn, Reg**, Reg*)) {
    Op o;
    std::string base = name;
    std::size_t c = base.find(':');
    if (c != std::string::npos) { for (char ch : base.substr(c + 1)) o.par.push_back(std::string(1, ch)); base = base.substr(0, c); }
    if (base.back() == '=') base.pop_back();
    std::size_t d = base.find('.');
    o.cls = base.substr(0, d); o.op = base.substr(d + 1);
    o.args = args; o.inout = inout; o.ret = ret; o.fn = fn; o.thunk = thunk;
    o.key = std::string(name) + "/";
    for (std::size_t k = 0; k < args.size(); k++) o.key += std::string(k ? "," : "") + (inout[k] ? "!" : "") + types[args[k]].name;
    o.key += std::string(">") + (ret == T_void ? "" : types[ret].name);
    ops().push_back(o);
}

static std::size_t bytes(Type t) {
    switch (types[t].kind) { case K_float: case K_int: return 4u * types[t].lanes; case K_bool: return types[t].lanes; default: return 8; }
}
static int canon(int32_t x) { return (x & 0x7fffffff) > 0x7f800000 ? 0x7fc00000 : x; }
static void lanes(const Reg& r, std::string& out) {
    char b[16];
    out += '[';
    for (int i = 0; i < types[r.t].lanes; i++) {
        int32_t x = 0;
        switch (types[r.t].kind) {
        case K_float: std::memcpy(&x, r.buf + 4 * i, 4); x = canon(x); break;
        case K_int: std::memcpy(&x, r.buf + 4 * i, 4); break;
        case K_bool: x = r.buf[i]; break;
        case K_u64: std::memcpy(&x, r.buf + 4 * (1 - i), 4); break;
        }
        std::snprintf(b, sizeof b, "%s%d", i ? "," : "", x);
        out += b;
    }
    out += ']';
}
static void setlane(Reg& r, int i, long v) {
    int32_t x = int32_t(v);
    if (types[r.t].kind == K_bool) r.buf[i] = v != 0;
    else if (types[r.t].kind == K_u64) std::memcpy(r.buf + 4 * (1 - i), &x, 4);
    else std::memcpy(r.buf + 4 * i, &x, 4);
}
int (*explore)(const std::vector<const Op*>&) = nullptr;      // cover.cpp, in the instrumented build
void fill(Reg& r, const int32_t* lanes) {
    std::memset(r.buf, 0x5b, 64); std::memset(r.buf, 0, bytes(r.t));
    for (int i = 0; i < types[r.t].lanes; i++) setlane(r, i, lanes[i]);
}
// Walls: for a call with `where` 1 or 2 the arguments lie at the very end or the very start of memory of their own, with
// no accessible byte beyond: touching anything but the argument ends the driver.
// The call also finds what `ink` tells on the stack below it.
static void __attribute__((noinline)) scribble(int ink) {
    static const unsigned char inks[] = {0x00, 0xff, 0x3f, 0x5b, 0x80, 0xbf, 0x7f, 0x01};
    volatile unsigned char paper[3072];
    std::memset(const_cast<unsigned char*>(paper), inks[ink & 7], sizeof paper);
    asm volatile("" : : "r"(paper) : "memory");
}
static void walled(const Op* op, Reg** a, Reg* d, int where, int ink) {
    const std::size_t page = 4096, most = 16;
    static thread_local unsigned char* walls = nullptr;
    if (!walls) {
        void* m = mmap(nullptr, (2 * most + 1) * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { std::fprintf(stderr, "driver: mmap\n"); std::exit(3); }
        walls = static_cast<unsigned char*>(m);
        for (std::size_t k = 0; k < most; k++) if (mprotect(walls + (2 * k + 1) * page, page, PROT_READ | PROT_WRITE)) { std::fprintf(stderr, "driver: mprotect\n"); std::exit(3); }
    }
    std::size_t n = op->args.size();
    for (std::size_t k = 0; k < n && where; k++) {
        if (a[k]->at) continue;                                        // the same register twice
        std::size_t b = bytes(a[k]->t);
        a[k]->at = walls + (2 * k + 1) * page + (where == 1 ? page - b : 0);
        std::memcpy(a[k]->at, a[k]->buf, b);
    }
    if (ink >= 0) scribble(ink);
    op->call(a, d);
    for (std::size_t k = 0; k < n && where; k++) {
        if (!a[k]->at) continue;
        if (a[k] != d) std::memcpy(a[k]->buf, a[k]->at, bytes(a[k]->t));
        a[k]->at = nullptr;
    }
}
static Type typeByName(const std::string& s) {
    for (int i = 0; i < T_N; i++) if (s == types[i].name) return Type(i);
    std::fprintf(stderr, "driver: unknown type %s\n", s.c_str()); std::exit(3);
}
static std::unordered_map<std::string, const Op*> index_;
static const Op* find(const std::string& k) {
    auto it = index_.find(k);
    if (it == index_.end()) { std::fprintf(stderr, "driver: unknown operation %s\n", k.c_str()); std::exit(3); }
    return it->second;
}
static std::string jstr(const std::string& s) { return "\"" + s + "\""; }

// One session per line:
// {"k":key,"n":registers,"e":[{"c":"load","o":"","p":[],"a":[],"d":[id],"r":[[lanes]],"x":[]}, {"c":class,"o":op,"p":[params],"a":[ids],"d":[ids],"r":[[lanes],..],"x":[ids]} ..]}
static void execute(std::istream& in, FILE* out) {
    std::vector<Reg> regs;
    std::string line, js;
    bool open = false, first = true;
    auto close = [&] { if (open) { js += "]}\n"; std::fwrite(js.data(), 1, js.size(), out); js.clear(); } open = false; };
    std::vector<Reg> snap;
    uint32_t told = 0;                                                 // of the session so far, without its key
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        std::istringstream is(line);
        std::string cmd; is >> cmd;
        if (cmd == "S") told = 0; else for (char c : line) told = (told ^ static_cast<unsigned char>(c)) * 16777619u;
        if (cmd == "S") {
            close();
            std::string key; int n; is >> key >> n;
            regs.assign(n, Reg());
            for (int i = 0; i < n; i++) { std::string t; is >> t; regs[i].t = typeByName(t); std::memset(regs[i].buf, 0x5b, 64); std::memset(regs[i].buf, 0, bytes(regs[i].t)); }
            js = "{\"k\":" + jstr(key) + ",\"n\":" + std::to_string(n) + ",\"e\":[";
            open = true; first = true;
        } else if (cmd == "L") {
            int id; is >> id; Reg& r = regs[id - 1];
            long v; for (int i = 0; i < types[r.t].lanes && is >> v; i++) setlane(r, i, v);
            js += first ? "" : ","; first = false;
            js += "{\"c\":\"load\",\"o\":\"\",\"p\":[],\"a\":[],\"d\":[" + std::to_string(id) + "],\"r\":[";
            lanes(r, js); js += "],\"x\":[]}";
        } else if (cmd == "O") {
            std::string key; is >> key;
            const Op* op = find(key);
            std::vector<int> ids; int id; while (is >> id) ids.push_back(id);
            std::size_t na = op->args.size();
            if (ids.size() != na + (op->ret != T_void)) { std::fprintf(stderr, "driver: arity %s\n", key.c_str()); std::exit(3); }
            Reg* a[16];
            for (std::size_t k = 0; k < na; k++) {
                a[k] = &regs[ids[k] - 1];
                if (a[k]->t != op->args[k]) { std::fprintf(stderr, "driver: type of argument %zu of %s\n", k, key.c_str()); std::exit(3); }
            }
            Reg* d = op->ret != T_void ? &regs[ids[na] - 1] : nullptr;
            if (d && d->t != op->ret) { std::fprintf(stderr, "driver: result type of %s\n", key.c_str()); std::exit(3); }
            snap = regs;
            walled(op, a, d, int((told >> 9) % 3), int(told >> 20));
            std::vector<int> dst;
            for (std::size_t k = 0; k < na; k++) if (op->inout[k]) dst.push_back(ids[k]);
            if (d) dst.push_back(ids[na]);
            js += first ? "" : ","; first = false;
            js += "{\"c\":" + jstr(op->cls) + ",\"o\":" + jstr(op->op) + ",\"p\":[";
            for (std::size_t k = 0; k < op->par.size(); k++) js += (k ? "," : "") + jstr(op->par[k]);
            js += "],\"a\":[";
            for (std::size_t k = 0; k < na; k++) js += (k ? "," : "") + std::to_string(ids[k]);
            js += "],\"d\":[";
            for (std::size_t k = 0; k < dst.size(); k++) js += (k ? "," : "") + std::to_string(dst[k]);
            js += "],\"r\":[";
            for (std::size_t k = 0; k < dst.size(); k++) { if (k) js += ","; lanes(regs[dst[k] - 1], js); }
            js += "],\"x\":[";
            bool fx = true;
            for (std::size_t k = 0; k < regs.size(); k++) {
                // a target may change its own bytes, any other register none at all
                std::size_t from = std::find(dst.begin(), dst.end(), int(k + 1)) != dst.end() ? bytes(regs[k].t) : 0;
                if (std::memcmp(regs[k].buf + from, snap[k].buf + from, 64 - from) != 0) { js += (fx ? "" : ",") + std::to_string(k + 1); fx = false; }
            }
            js += "]}";
        }
    }
    close();
}

// Purity: the script holds groups of calls ("G", then lines "I key lanes.."), a group sharing much of its arguments.
// One pass calls every instance alone, in script order; then `threads` threads go through the groups together, each
// making `calls` calls of the group's instances in an order of its own.  The distinct results of each instance (the
// bytes of its outputs) are recorded, in both phases, and whether an argument that is not an output ever changed:
//   {"k":instance,"o":key,"s":[[lanes..]..],"d":[[[lanes..]..]..],"c":changed arguments,"n":calls}
struct Inst { const Op* op; std::vector<Reg> args; };
typedef std::string Bytes;
static const Bytes& callonce(const Inst& x, bool& changed, int where = 0, int ink = -1) {
    static thread_local Bytes s;
    s.clear();
    Reg a[16], r; Reg* p[16];
    for (std::size_t k = 0; k < x.args.size(); k++) { a[k] = x.args[k]; p[k] = &a[k]; }
    std::memset(r.buf, 0, 64);
    walled(x.op, p, &r, where, ink);
    for (std::size_t k = 0; k < x.args.size(); k++) {
        if (x.op->inout[k]) s.append(reinterpret_cast<char*>(a[k].buf), bytes(a[k].t));
        else if (std::memcmp(a[k].buf, x.args[k].buf, 64)) changed = true;
    }
    if (x.op->ret != T_void) s.append(reinterpret_cast<char*>(r.buf), bytes(x.op->ret));
    return s;
}
static std::string show(const Inst& x, const Bytes& b) {
    std::string s = "["; std::size_t at = 0;
    auto one = [&](Type t) { Reg r; r.t = t; std::memcpy(r.buf, b.data() + at, bytes(t)); at += bytes(t); if (s.size() > 1) s += ","; lanes(r, s); };
    for (std::size_t k = 0; k < x.args.size(); k++) if (x.op->inout[k]) one(x.args[k].t);
    if (x.op->ret != T_void) one(x.op->ret);
    return s + "]";
}
static void stress(std::istream& in, FILE* out, int threads, int calls) {
    std::vector<Inst> insts;
    std::vector<std::pair<int, int>> groups;
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string cmd, key; is >> cmd;
        if (cmd == "G") { groups.emplace_back(int(insts.size()), int(insts.size())); continue; }
        if (cmd != "I") continue;
        is >> key;
        Inst x; x.op = find(key);
        for (Type t : x.op->args) {
            Reg r; r.t = t; std::memset(r.buf, 0x5b, 64); std::memset(r.buf, 0, bytes(t));
            long v; for (int i = 0; i < types[t].lanes && is >> v; i++) setlane(r, i, v);
            x.args.push_back(r);
        }
        insts.push_back(x);
        groups.back().second++;
    }
    typedef std::map<std::string, long> Seen;                          // result as recorded -> calls
    std::vector<char> changed(insts.size(), 0);
    std::vector<std::string> alone(insts.size());
    for (std::size_t i = 0; i < insts.size(); i++) { bool c = false; alone[i] = show(insts[i], callonce(insts[i], c)); if (c) changed[i] = 1; }
    std::vector<std::vector<Seen>> seen(threads, std::vector<Seen>(insts.size()));
    std::vector<std::vector<char>> chg(threads, std::vector<char>(insts.size(), 0));
    std::atomic<long> arrived(0);
    auto work = [&](int t) {
        uint64_t st = 0x9e3779b97f4a7c15ull * (t + 1);
        auto rnd = [&] { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st; };
        for (std::size_t g = 0; g < groups.size(); g++) {
            arrived++; for (int spin = 0; arrived.load() < long(threads) * long(g + 1); spin++) if (spin > 2000) std::this_thread::yield();
            int b = groups[g].first, n = groups[g].second - b;
            if (!n) continue;
            std::vector<std::map<Bytes, long>> got(n);
            std::vector<std::pair<Bytes, long>> last(n);               // the latest result of each, and how often in a row
            for (int k = 0; k < calls; k++) {
                int i = k < n ? (t & 1 ? n - 1 - k : k) : int(rnd() % n);
                bool c = false;
                const Bytes& now = callonce(insts[b + i], c, k % 16 < 2 ? 1 + k % 16 : 0, k % 8 < 2 ? t + k / 8 : -1);
                if (last[i].second && last[i].first == now) last[i].second++;
                else { if (last[i].second) got[i][last[i].first] += last[i].second; last[i].first = now; last[i].second = 1; }
                if (c) chg[t][b + i] = 1;
            }
            for (int i = 0; i < n; i++) if (last[i].second) got[i][last[i].first] += last[i].second;
            for (int i = 0; i < n; i++) for (auto& e : got[i]) seen[t][b + i][show(insts[b + i], e.first)] += e.second;
        }
    };
    std::vector<std::thread> th;
    for (int t = 0; t < threads; t++) th.emplace_back(work, t);
    for (auto& t : th) t.join();
    for (std::size_t i = 0; i < insts.size(); i++) {
        Seen all;
        for (int t = 0; t < threads; t++) { for (auto& e : seen[t][i]) all[e.first] += e.second; changed[i] |= chg[t][i]; }
        std::string js = "{\"k\":" + std::to_string(i) + ",\"o\":" + jstr(insts[i].op->key) + ",\"s\":" + alone[i] + ",\"d\":[";
        bool f = true; long n = 1;
        for (auto& e : all) { js += (f ? "" : ",") + e.first; f = false; n += e.second; }
        js += "],\"c\":" + std::to_string(int(changed[i])) + ",\"n\":" + std::to_string(n) + "}\n";
        std::fwrite(js.data(), 1, js.size(), out);
    }
}
static void list() {
    for (const Op& o : ops()) {
        if (index_[o.key] != &o) continue;          // the same call defined by two families
        std::string s = o.key + " " + o.cls + " " + o.op + " ";
        for (auto& p : o.par) s += p;
        if (o.par.empty()) s += "-";
        for (std::size_t k = 0; k < o.args.size(); k++) s += std::string(" ") + (o.inout[k] ? "!" : "") + types[o.args[k]].name;
        s += std::string(" > ") + (o.ret == T_void ? "-" : types[o.ret].name);
        std::puts(s.c_str());
    }
}
}

int main(int argc, char** argv) {
    using namespace drv;
    for (const Op& o : ops()) index_[o.key] = &o;
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "list") { list(); return 0; }
    if (mode == "explore" && explore) {
        std::vector<const Op*> listed;
        for (const Op& o : ops()) if (index_[o.key] == &o) listed.push_back(&o);
        return explore(listed);
    }
    if (argc < 4) { std::fprintf(stderr, "usage: driver list | run SCRIPT OUT | stress SCRIPT OUT THREADS CALLS\n"); return 3; }
    std::ifstream in(argv[2]);
    FILE* out = std::fopen(argv[3], "w");
    if (!in || !out) return 3;
    std::setvbuf(out, nullptr, _IOFBF, 1 << 20);
    if (mode == "run") execute(in, out);
    else if (mode == "stress") stress(in, out, std::atoi(argv[4]), std::atoi(argv[5]));
    std::fclose(out);
    return 0;
}
