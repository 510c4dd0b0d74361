// Arrays, structs, unions, unusual ranges, literals and the text utilities.
#include "cat.hh"
#include "vec_ops.hh"
using namespace cat;
using namespace logic::literals;
namespace lg = logic;

namespace {
template <typename T, int msb, int lsb>
void parray(const char* nm) {
    using P = lg::packed_array<T, msb, lsb>;
    constexpr bool L = T::is_4state;
    constexpr int lo = msb < lsb ? msb : lsb, hi = msb < lsb ? lsb : msb;
    const std::string t = std::string("<") + nm + ">";
    constexpr uint32_t C = F_COMP;
    using Ix = lg::logic<7, 0>;
    REG("parr_index", t, C, [](const P& a, const In<lo, hi>& i) { return a[Ix(i.v)]; });
    REG("parr_index_any", t, C, [](const P& a, const Ix& i) { return a[i]; });
    if constexpr (L || P::size <= 64) {
        REG("parr_slice", t, C, [](const P& a) { return a.template slice_array<hi, lo + 1>(); });
        REG("parr_slice1", t, C, [](const P& a) { return a.template slice_array<lo, lo>(); });
    }
    REG("parr_update", t, C, [](P& a, const In<lo, hi>& i, const T& v) { a.update(Ix(i.v), v); });
    REG("parr_update_any", t, C, [](P& a, const Ix& i, const T& v) { a.update(i, v); });
    if constexpr (L) REG("parr_update_T", t, C, [](P& a, const T& v) { a.template update<hi, hi>(v); });
    REG("parr_copy", t, C, [](const P& a) { return P(a); });
    REG("parr_assign", t, C, [](P& a, const P& b) { a = b; });
    if constexpr (L || P::size <= 64) REG("parr_str", t, F_FMT, [](const P& a) { return a.str("h"); });
    REG("parr_not", t, C, [](const P& a) { return ~a; });
}
template <typename T, int msb, int lsb>
void uarray(const char* nm) {
    using P = lg::unpacked_array<T, msb, lsb>;
    constexpr int lo = msb < lsb ? msb : lsb, hi = msb < lsb ? lsb : msb;
    const std::string t = std::string("<") + nm + ">";
    constexpr uint32_t C = F_COMP;
    REG("uarr_index", t, C, [](const P& a, const In<lo - 2, hi + 2>& i) { return T(a[i.v]); });
    REG("uarr_update", t, C, [](P& a, const T& v) { a.template update<lo>(v); });
    REG("uarr_update_hi", t, C, [](P& a, const T& v) { a.template update<hi>(v); });
    REG("uarr_copy", t, C, [](const P& a) { return P(a); });
    if constexpr (T::is_4state || T::size <= 64) REG("uarr_elem_str", t, F_FMT, [](const P& a, const In<lo - 2, hi + 2>& i) { return a[i.v].str("h"); });
    REG("uarr_elem_set", t, C, [](P& a, const In<0, hi - lo>& i, const T& v) { a.value[i.v] = v; });
}
// ranges that do not end at bit 0, and ascending ranges
template <int m, int l>
void ranged(const char* nm) {
    const std::string t = std::string("<") + nm + ">";
    constexpr uint32_t C = F_COMP;
    using A = lg::logic<m, l>;
    using B = lg::bit<m, l>;
    constexpr int lo = m < l ? m : l, hi = m < l ? l : m;
    REG("rl_str", t, F_FMT, [](const A& a) { return a.str("h"); });
    REG("rl_parse", t, F_PARSE, [](const NumText<hi - lo + 1>& s) { return A(s.sv()); });
    REG("rb_parse", t, F_PARSE, [](const NumText<hi - lo + 1>& s) { return B(s.sv()); });
    REG("rl_index", t, C, [](const A& a, const In<lo - 2, hi + 2>& i) { return a[i.v]; });
    REG("rl_set", t, C, [](A& a, const In<lo, hi>& i, const bool& v) { a.set(i.v, v); });
    REG("rb_set", t, C, [](B& a, const In<lo, hi>& i, const bool& v) { a.set(i.v, v); });
    REG("rl_setx", t, C, [](A& a, const In<lo, hi>& i) { a.set_x(i.v); });
    REG("rl_not", t, C, [](const A& a) { return ~a; });
    REG("rl_copy", t, C, [](const A& a) { return A(a); });
    REG("rl_update", t, C, [](A& a, const In<lo, hi - 3>& i, const lg::logic<3, 0>& b) { a.update(i.v + 3, i.v, b); });
    REG("rl_slice_ref", t, C, [](A& a, const In<lo, hi - 3>& i, const lg::logic<3, 0>& b) { a.slice_ref(i.v + 3, i.v) = b; });
}
void all() {
    parray<lg::logic<3, 0>, 3, 0>("l4[3:0]");
    parray<lg::logic<7, 0>, 9, 0>("l8[9:0]");
    parray<lg::logic<19, 0>, 4, 0>("l20[4:0]");
    parray<lg::logic<4, 0>, 6, 2>("l5[6:2]");
    parray<lg::logic<0, 0>, 0, 7>("l1[0:7]");
    parray<lg::bit<3, 0>, 3, 0>("b4[3:0]");
    parray<lg::bit<9, 0>, 7, 0>("b10[7:0]");
    uarray<lg::logic<7, 0>, 3, 0>("l8[3:0]");
    uarray<lg::logic<99, 0>, 2, 0>("l100[2:0]");
    uarray<lg::bit<7, 0>, 0, 3>("b8[0:3]");
    uarray<lg::bit<127, 0>, 2, 0>("b128[2:0]");
    uarray<lg::logic<0, 0>, 15, 0>("l1[15:0]");
    ranged<7, 4 - 4>("7:0");
    ranged<0, 7>("0:7");
    ranged<11, 4>("11:4");
    ranged<4, 11>("4:11");
    ranged<0, 99>("0:99");
    ranged<0, 63>("0:63");
    ranged<130, 3>("130:3");
    // struct / union types share the vector implementation
    using S = lg::packed_struct<24>::type;
    using S2 = lg::packed_struct<70, false>::type;
    using U = lg::union_<70>::type;
    const std::string st = "<struct>";
    REG("struct_fields", st, F_COMP, [](S& s, const lg::logic<7, 0>& a, const lg::logic<15, 0>& b) {
        s.slice_ref<23, 16>() = a;
        s.slice_ref<15, 0>() = b;
    });
    REG("struct_read", st, F_COMP, [](const S& s) { return std::pair(s.slice<23, 16>(), s.slice<15, 0>()); });
    REG("struct2_read", st, F_COMP, [](const S2& s) { return s.slice<69, 10>(); });
    REG("struct2_write", st, F_COMP, [](S2& s, const lg::bit<9, 0>& v) { s.slice_ref<9, 0>() = v; });
    REG("union_view", st, F_COMP, [](U& u, const lg::logic<31, 0>& v) {
        u.slice_ref<31, 0>() = v;
        return u.slice<47, 16>();
    });
    // literals
    REG("lit", "", F_COMP, []() { return 12345_logic; });
    REG("lit64", "", F_COMP, []() { return 123456789012_logic64; });
    REG("litb", "", F_COMP, []() { return 77_bit; });
    REG("litb64", "", F_COMP, []() { return 77777777777_bit64; });
    REG("lit_assign", "", F_COMP, [](lg::logic<15, 0>& a) { a = 5_logic; });
    REG("lit_add", "", F_COMP, [](const lg::logic<31, 0>& a) { return a + 5_logic; });
    // text utilities
    REG("util_parse", "", F_PARSE, [](const NumText<64>& s) { return lg::util::parse_raw_str(s.sv()); });
    REG("util_parse_xz", "", F_PARSE, [](const NumText<64>& s) { return lg::util::parse_xz_raw_str(s.sv()); });
    REG("util_parse_bad", "", F_PARSE, [](const BadText<64>& s) { return lg::util::parse_raw_str(s.sv()); });
    REG("util_parse_xz_bad", "", F_PARSE, [](const BadText<64>& s) { return lg::util::parse_xz_raw_str(s.sv()); });
    REG("util_decimal_fmt", "", F_PARSE, [](const FmtText& s) { return lg::util::decimal_fmt(s.sv()); });
    REG("util_str_len", "", F_FMT, [](const FmtText& s, const In<1, 64>& n) { return lg::util::str_len(n.v, s.sv()); });
    REG("util_to_string", "", F_FMT, [](const FmtText& f, const uint64_t& v) { return lg::util::to_string(f.sv(), 64, v, false); });
    REG("util_to_string_neg", "", F_FMT, [](const FmtText& f, const uint64_t& v) { return lg::util::to_string(f.sv(), 64, v, true); });
    REG("util_to_string_xz", "", F_FMT,
        [](const FmtText& f, const uint64_t& v, const uint64_t& x) { return lg::util::to_string(f.sv(), 64, v, x, false); });
    // wide arithmetic of the underlying holder
    using BN = lg::bit<191, 0>;
    using BM = lg::bit<127, 0>;
    REG("bn_divmod", "", F_COMP | F_BIG, [](const BN& a, const BN& b) { return std::pair(a / b, a % b); });
    REG("bn_muladd", "", F_COMP | F_BIG, [](const BN& a, const BN& b) { return a * b + a; });
    REG("bn_chain", "", F_COMP | F_BIG, [](const BM& a, const BN& b) { return ((b - a) ^ b) + (a & b); });
}
Registrar r_(all);
}  // namespace
