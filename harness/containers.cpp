// Runs histories of set and map operations on the standard containers, keyed by the library's types through the
// library's hash, equality and order, and records what every operation returned.
//   script:  S kind type     kind: uset, umap (std::hash, ==), set, map (operator <)
//            insert v lanes.. | put v lanes.. | erase 0 lanes.. | find 0 lanes.. | count 0 lanes.. | size 0 | clear 0 | rehash n | walk 0 | lower 0 lanes..
//   output:  {"k":kind,"t":type,"e":[{"o":op,"v":value,"a":[lanes],"r":[ints],"w":[[lanes]..]}]}
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <zcm/hash.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>
#include <zcm/quat.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
using namespace zcm;
template<class T> struct Lane { typedef int32_t type; };
template<> struct Lane<bvec2> { typedef bool type; };
template<> struct Lane<bvec3> { typedef bool type; };
template<> struct Lane<bvec4> { typedef bool type; };
template<class T> T load(const std::vector<long>& v) {
    typedef typename Lane<T>::type L;
    T r; L* p = reinterpret_cast<L*>(&r);
    for (std::size_t i = 0; i < sizeof(T) / sizeof(L); i++) p[i] = i < v.size() ? L(v[i]) : L(0);
    return r;
}
template<class T> std::string show(const T& x) {
    typedef typename Lane<T>::type L;
    const L* p = reinterpret_cast<const L*>(&x);
    std::string s = "[";
    for (std::size_t i = 0; i < sizeof(T) / sizeof(L); i++) s += (i ? "," : "") + std::to_string(int(p[i]));
    return s + "]";
}
struct Cmd { std::string op; long v; std::vector<long> lanes; };
struct Rec { std::vector<long> r; std::string w; };
struct Runner { virtual ~Runner() {} virtual Rec step(const Cmd&) = 0; };
template<class C> void rehash(C& c, long n, decltype(c.bucket_count())*) { c.rehash(std::size_t(n)); }
template<class C> void rehash(C&, long, ...) {}
template<class C> auto lower(C& c, const typename C::key_type& k, int) -> decltype(c.lower_bound(k)) { return c.lower_bound(k); }
template<class C> typename C::iterator lower(C& c, const typename C::key_type&, long) { return c.end(); }
template<class T, class C> struct SetR : Runner {
    C c;
    Rec step(const Cmd& m) override {
        T k = load<T>(m.lanes); Rec x;
        if (m.op == "insert") { auto p = c.insert(k); x.r = {p.second}; x.w = show(*p.first); }
        else if (m.op == "erase") x.r = {long(c.erase(k))};
        else if (m.op == "find") { auto i = c.find(k); x.r = {i != c.end()}; if (i != c.end()) x.w = show(*i); }
        else if (m.op == "count") x.r = {long(c.count(k))};
        else if (m.op == "size") x.r = {long(c.size())};
        else if (m.op == "clear") c.clear();
        else if (m.op == "rehash") rehash(c, m.v, nullptr);
        else if (m.op == "lower") { auto i = lower(c, k, 0); x.r = {i != c.end()}; if (i != c.end()) x.w = show(*i); }
        else if (m.op == "walk") for (const T& e : c) x.w += (x.w.empty() ? "" : ",") + show(e);
        return x;
    }
};
template<class T, class C> struct MapR : Runner {
    C c;
    Rec step(const Cmd& m) override {
        T k = load<T>(m.lanes); Rec x;
        if (m.op == "insert") { auto p = c.insert(typename C::value_type(k, m.v)); x.r = {p.second, p.first->second}; x.w = show(p.first->first); }
        else if (m.op == "put") { c[k] = m.v; }
        else if (m.op == "erase") x.r = {long(c.erase(k))};
        else if (m.op == "find") { auto i = c.find(k); x.r = {i != c.end()}; if (i != c.end()) { x.r.push_back(i->second); x.w = show(i->first); } }
        else if (m.op == "count") x.r = {long(c.count(k))};
        else if (m.op == "size") x.r = {long(c.size())};
        else if (m.op == "clear") c.clear();
        else if (m.op == "rehash") rehash(c, m.v, nullptr);
        else if (m.op == "lower") { auto i = lower(c, k, 0); x.r = {i != c.end()}; if (i != c.end()) { x.r.push_back(i->second); x.w = show(i->first); } }
        else if (m.op == "walk") for (auto& e : c) { x.r.push_back(e.second); x.w += (x.w.empty() ? "" : ",") + show(e.first); }
        return x;
    }
};
template<class T> Runner* hashed(const std::string& k) {
    if (k == "uset") return new SetR<T, std::unordered_set<T>>();
    if (k == "umap") return new MapR<T, std::unordered_map<T, long>>();
    return nullptr;
}
template<class T> Runner* ordered(const std::string& k) {
    if (k == "set") return new SetR<T, std::set<T>>();
    if (k == "map") return new MapR<T, std::map<T, long>>();
    return hashed<T>(k);
}
static Runner* make(const std::string& k, const std::string& t) {
    if (t == "v2") return hashed<vec2>(k);
    if (t == "v3") return hashed<vec3>(k);
    if (t == "v4") return hashed<vec4>(k);
    if (t == "b2") return hashed<bvec2>(k);
    if (t == "b3") return hashed<bvec3>(k);
    if (t == "b4") return hashed<bvec4>(k);
    if (t == "i2") return ordered<ivec2>(k);
    if (t == "i3") return ordered<ivec3>(k);
    if (t == "i4") return ordered<ivec4>(k);
    if (t == "q") return hashed<quat>(k);
    if (t == "m2") return hashed<mat2>(k);
    if (t == "m3") return hashed<mat3>(k);
    if (t == "m4") return hashed<mat4>(k);
    return nullptr;
}
int main(int argc, char** argv) {
    if (argc < 3) return 3;
    std::ifstream in(argv[1]); FILE* out = std::fopen(argv[2], "w");
    if (!in || !out) return 3;
    std::string line, js; Runner* r = nullptr; bool first = true;
    auto close = [&] { if (r) { js += "]}\n"; std::fputs(js.c_str(), out); delete r; r = nullptr; } };
    while (std::getline(in, line)) {
        std::istringstream is(line); Cmd m; is >> m.op;
        if (m.op == "S") {
            close();
            std::string k, t; is >> k >> t; r = make(k, t); first = true;
            if (!r) { std::fprintf(stderr, "containers: no %s of %s\n", k.c_str(), t.c_str()); return 3; }
            js = "{\"k\":\"" + k + "\",\"t\":\"" + t + "\",\"e\":[";
            continue;
        }
        is >> m.v; long x; while (is >> x) m.lanes.push_back(x);
        Rec c = r->step(m);
        js += std::string(first ? "" : ",") + "{\"o\":\"" + m.op + "\",\"v\":" + std::to_string(m.v) + ",\"a\":["; first = false;
        for (std::size_t i = 0; i < m.lanes.size(); i++) js += (i ? "," : "") + std::to_string(m.lanes[i]);
        js += "],\"r\":[";
        for (std::size_t i = 0; i < c.r.size(); i++) js += (i ? "," : "") + std::to_string(c.r[i]);
        js += "],\"w\":[" + c.w + "]}";
    }
    close();
    std::fclose(out);
    return 0;
}
