// Conformance driver: executes scripts of loads and operations against the real library and records, for every
// operation, its arguments, its results and every register it changed.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>
#include <zcm/quat.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>

namespace drv {

template<int N> struct FA { float v[N]; };      // plain arrays, for the pointer functions
template<int N> struct BA { bool v[N]; };
struct U64 { uint64_t v; };                      // hash values: lanes high, low

enum Type { T_f, T_i, T_b, T_v2, T_v3, T_v4, T_i2, T_i3, T_i4, T_b2, T_b3, T_b4, T_m2, T_m3, T_m4, T_q, T_u,
            T_a2, T_a3, T_a4, T_a9, T_a16, T_c2, T_c3, T_c4, T_N, T_void = T_N };
enum Kind { K_float, K_int, K_bool, K_u64 };
struct TypeInfo { const char* name; Kind kind; int lanes; };
extern const TypeInfo types[T_N];

template<class T> struct TypeOf;
#define DRV_TYPE(T, tag) template<> struct TypeOf<T> { static const Type value = tag; };
DRV_TYPE(float, T_f) DRV_TYPE(int, T_i) DRV_TYPE(bool, T_b)
DRV_TYPE(zcm::vec2, T_v2) DRV_TYPE(zcm::vec3, T_v3) DRV_TYPE(zcm::vec4, T_v4)
DRV_TYPE(zcm::ivec2, T_i2) DRV_TYPE(zcm::ivec3, T_i3) DRV_TYPE(zcm::ivec4, T_i4)
DRV_TYPE(zcm::bvec2, T_b2) DRV_TYPE(zcm::bvec3, T_b3) DRV_TYPE(zcm::bvec4, T_b4)
DRV_TYPE(zcm::mat2, T_m2) DRV_TYPE(zcm::mat3, T_m3) DRV_TYPE(zcm::mat4, T_m4)
DRV_TYPE(zcm::quat, T_q) DRV_TYPE(U64, T_u)
DRV_TYPE(FA<2>, T_a2) DRV_TYPE(FA<3>, T_a3) DRV_TYPE(FA<4>, T_a4) DRV_TYPE(FA<9>, T_a9) DRV_TYPE(FA<16>, T_a16)
DRV_TYPE(BA<2>, T_c2) DRV_TYPE(BA<3>, T_c3) DRV_TYPE(BA<4>, T_c4)

struct Reg { Type t; unsigned char* at = nullptr; alignas(16) unsigned char buf[64]; };      // at: where the value is for this call
template<class T> T& as(Reg* r) { return *reinterpret_cast<T*>(r->at ? r->at : r->buf); }

typedef void (*Fn)();
struct Op {
    std::string key, cls, op;
    std::vector<std::string> par;
    std::vector<Type> args;
    std::vector<char> inout;      // the argument is also a result
    Type ret;
    Fn fn;                        // the lambda, and the thunk that fetches its arguments
    void (*thunk)(Fn, Reg**, Reg*);
    void call(Reg** a, Reg* r) const { thunk(fn, a, r); }
};
std::vector<Op>& ops();
void add(const char* name, std::vector<Type> args, std::vector<char> inout, Type ret, Fn fn, void (*thunk)(Fn, Reg**, Reg*));

template<class A> using Bare = typename std::remove_cv<typename std::remove_reference<A>::type>::type;
template<class A> struct IsOut {
    static const bool value = std::is_lvalue_reference<A>::value && !std::is_const<typename std::remove_reference<A>::type>::value;
};
template<class R> struct Ret {
    static Type type() { return TypeOf<R>::value; }
    template<class F, class... X> static void call(Reg* d, F f, X&&... x) { R r = f(std::forward<X>(x)...); std::memcpy(d->buf, &r, sizeof(R)); }
};
template<> struct Ret<void> {
    static Type type() { return T_void; }
    template<class F, class... X> static void call(Reg*, F f, X&&... x) { f(std::forward<X>(x)...); }
};
template<class R, class... A> struct Thunk {
    template<std::size_t... I> static void go(Fn fn, Reg** a, Reg* r, std::index_sequence<I...>) {
        (void)a; Ret<R>::call(r, reinterpret_cast<R (*)(A...)>(fn), as<Bare<A>>(a[I])...);
    }
    static void call(Fn fn, Reg** a, Reg* r) { go(fn, a, r, std::make_index_sequence<sizeof...(A)>()); }
};
template<class R, class... A> void define(const char* name, R (*f)(A...)) {
    add(name, { TypeOf<Bare<A>>::value... }, { char(IsOut<A>::value)... }, Ret<R>::type(), reinterpret_cast<Fn>(f), &Thunk<R, A...>::call);
}
// "class.operation", then "=" when the first argument is updated in place, then ":" and one-letter parameters
template<class L> inline void def(const char* name, L f) { define(name, +f); }
// families register themselves
typedef void (*Family)();
struct AddFamily { AddFamily(Family f) { f(); } };
#define FAMILY(name) static void fam_##name(); static drv::AddFamily add_##name(fam_##name); static void fam_##name()

#define V234(M) M(2) M(3) M(4)
}
