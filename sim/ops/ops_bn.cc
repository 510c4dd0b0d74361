// The wide holder behind the vectors, used directly (it is a public type of its own).
#include "cat.hh"
using namespace cat;

namespace {
template <uint64_t N, bool S>
void one(const char* nm) {
    using A = logic::big_num<N, S>;
    const std::string t = std::string("<") + nm + ">";
    constexpr uint32_t C = F_COMP | F_BIG;
    using Ix = AnyIx<0, (int)N - 1>;
    REG("bn_index", t, C, [](const A& a, const Ix& i) { return bool(a[i.v]); });
    REG("bn_set", t, C, [](A& a, const Ix& i, const bool& v) { a.set(i.v, v); });
    REG("bn_setT", t, C, [](A& a, const bool& v) { a.template set<N - 1>(v); });
    REG("bn_getT", t, C, [](const A& a) { return a.template get<N - 1>(); });
    REG("bn_slice", t, C, [](const A& a) { return a.template slice<N - 2, N / 3>(); });
    REG("bn_slice_rt", t, C, [](const A& a, const In<0, (int)N - 9>& i) { return a.template slice<9>(i.v + 8, i.v); });
    if constexpr (N > 70) {
        REG("bn_slice_rt_half", t, C, [](const A& a, const In<0, (int)(N - N / 2)>& i) { return a.template slice<N / 2>(i.v, i.v + N / 2 - 1); });
        REG("bn_slice_rt_wide", t, C, [](const A& a, const In<0, 5>& i) { return a.template slice<N - 5>(i.v + N - 6, i.v); });
    }
    REG("bn_extend", t, C, [](const A& a) { return a.template extend<N + 70>(); });
    REG("bn_extend0", t, C, [](const A& a) { return a.template extend<N>(); });
    REG("bn_mask_off", t, C, [](A& a) { a.mask_off(); });
    REG("bn_mask", t, C, [](A& a) { a.mask(); });
    REG("bn_clear", t, C, [](A& a) { a.clear(); });
    REG("bn_not", t, C, [](const A& a) { return ~a; });
    REG("bn_bool", t, C, [](const A& a) { return bool(a); });
    REG("bn_r_xor", t, C, [](const A& a) { return a.r_xor(); });
    REG("bn_shr", t, C, [](const A& a, const uint64_t& k) { return a >> k; });
    REG("bn_shl", t, C, [](const A& a, const uint64_t& k) { return a << k; });
    REG("bn_ashr", t, C, [](const A& a, const uint64_t& k) { return a.ashr(k); });
    REG("bn_shr_in", t, C, [](const A& a, const In<0, (int)N + 2>& k) { return a >> (uint64_t)k.v; });
    REG("bn_shl_in", t, C, [](const A& a, const In<0, (int)N + 2>& k) { return a << (uint64_t)k.v; });
    REG("bn_ashr_in", t, C, [](const A& a, const In<0, (int)N + 2>& k) { return a.ashr((uint64_t)k.v); });
    REG("bn_negate", t, C, [](const A& a) { return a.negate(); });
    REG("bn_to_signed", t, C, [](const A& a) { return a.to_signed(); });
    REG("bn_any_set", t, C, [](const A& a) { return a.any_set(); });
    REG("bn_all_set", t, C, [](const A& a) { return a.all_set(); });
    REG("bn_is_one", t, C, [](const A& a) { return a.is_one(); });
    REG("bn_fit", t, C, [](const A& a) { return a.fit_in_64(); });
    REG("bn_highest", t, C, [](const A& a) { return a.highest_bit(); });
    REG("bn_to_uint64", t, C, [](const A& a) { return a.to_uint64(); });
    REG("bn_ctor", t, C, [](const uint64_t& v) { return A(v); });
    REG("bn_parse", t, F_PARSE | F_BIG, [](const NumText<N>& s) { return A(s.sv()); });
    REG("bn_parse_bad", t, F_PARSE | F_BIG, [](const BadText<N>& s) { return A(s.sv()); });
    if constexpr (!S) REG("bn_div_mod", t, C, [](const A& a, const A& b) { return a.div_mod(b); });
}
template <typename A, typename B>
void two(const char* nm) {
    const std::string t = std::string("<") + nm + ">";
    constexpr uint32_t C = F_COMP | F_BIG;
#define BIN(NAME, EXPR) REG("bn_" NAME, t, C, [](const A& a, const B& b) { return EXPR; })
    BIN("and", a & b);
    BIN("or", a | b);
    BIN("xor", a ^ b);
    BIN("add", a + b);
    BIN("sub", a - b);
    BIN("mul", a * b);
    BIN("eq", a == b);
    BIN("gt", a > b);
    BIN("lt", a < b);
    BIN("ge", a >= b);
    BIN("le", a <= b);
    BIN("concat", a.concat(b));
    if constexpr (!bn_signed<A> && !bn_signed<B>) {
        BIN("div", a / b);
        BIN("mod", a % b);
    }
    if constexpr (bn_size<A> == bn_size<B>) {
        REG("bn_iand", t, C, [](A& a, const B& b) { a &= b; });
        REG("bn_ixor", t, C, [](A& a, const B& b) { a ^= b; });
    }
#undef BIN
}
void all() {
    one<65, false>("n65u");
    one<65, true>("n65s");
    one<128, false>("n128u");
    one<128, true>("n128s");
    one<200, false>("n200u");
    one<257, true>("n257s");
    two<logic::big_num<65, false>, logic::big_num<65, false>>("n65u,n65u");
    two<logic::big_num<65, false>, logic::big_num<200, false>>("n65u,n200u");
    two<logic::big_num<200, false>, logic::big_num<65, false>>("n200u,n65u");
    two<logic::big_num<128, false>, logic::big_num<128, false>>("n128u,n128u");
    two<logic::big_num<128, false>, logic::big_num<257, false>>("n128u,n257u");
    two<logic::big_num<65, true>, logic::big_num<65, true>>("n65s,n65s");
    two<logic::big_num<128, true>, logic::big_num<200, true>>("n128s,n200s");
    two<logic::big_num<200, true>, logic::big_num<128, false>>("n200s,n128u");
    two<logic::big_num<192, true>, logic::big_num<192, true>>("n192s,n192s");
}
Registrar r_(all);
}  // namespace
