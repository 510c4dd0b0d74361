// Operations on vector types, restricted to the combinations the library accepts at compile time.
#pragma once
#include "accept.hh"
#include "cat.hh"

namespace cat {

template <typename A>
void unary() {
    constexpr bool L = A::is_4state;
    constexpr bool S = A::is_signed;
    constexpr int N = A::size;
    constexpr bool nat = N <= 64;
    constexpr uint32_t fb = nat ? 0 : F_BIG;
    constexpr uint32_t C = F_COMP | fb;
    const std::string t = "<" + vname<A>() + ">";
    using IxW = AnyIx<0, N - 1>;  // also outside
    using Num = NumText<N>;

    // ---- text out
    {
        REG("str", t, F_FMT | fb, [](const A& a, const FmtText& f) { return a.str(f.sv()); });
        REG("str_b", t, F_FMT | fb, [](const A& a) { return a.str(); });
        REG("str_h", t, F_FMT | fb, [](const A& a) { return a.str("h"); });
        REG("str_o", t, F_FMT | fb, [](const A& a) { return a.str("o"); });
        REG("str_d", t, F_FMT | fb, [](const A& a) { return a.str("d"); });
        REG("str_s", t, F_FMT | fb, [](const A& a) { return a.str("s"); });
    }
    // ---- text in
    REG("parse", t, F_PARSE | fb, [](const Num& s) { return A(s.sv()); });
    REG("parse_bad", t, F_PARSE | fb, [](const BadText<N>& s) { return A(s.sv()); });

    // ---- logic and reductions
    REG("not", t, C, [](const A& a) { return ~a; });
    REG("lnot", t, C, [](const A& a) { return !a; });
    REG("bool", t, C, [](const A& a) { return bool(a); });
    if constexpr (nat) REG("neg", t, C, [](const A& a) { return -a; });
    REG("pos", t, C, [](const A& a) { return +a; });
    REG("r_and", t, C, [](const A& a) { return a.r_and(); });
    REG("r_nand", t, C, [](const A& a) { return a.r_nand(); });
    REG("r_or", t, C, [](const A& a) { return a.r_or(); });
    REG("r_nor", t, C, [](const A& a) { return a.r_nor(); });
    if constexpr ((!L && !nat) || (L && nat && !S && N > 1)) {
        REG("r_xor", t, C, [](const A& a) { return a.r_xor(); });
        REG("r_xnor", t, C, [](const A& a) { return a.r_xnor(); });
    }
    REG("preinc", t, C, [](A& a) { ++a; });
    REG("predec", t, C, [](A& a) { --a; });
    REG("postinc", t, C, [](A& a) { return a++; });
    REG("postdec", t, C, [](A& a) { return a--; });

    // ---- bits
    REG("index", t, C, [](const A& a, const IxW& i) { return a[i.v]; });
    if constexpr (nat) {
        REG("get0", t, C, [](const A& a) { return a.template get<0>(); });
        REG("getT", t, C, [](const A& a) { return a.template get<N - 1>(); });
    }
    REG("set", t, C, [](A& a, const IxW& i, const bool& v) { a.set(i.v, v); });
    REG("set0", t, C, [](A& a, const bool& v) { a.template set<0>(v); });
    REG("setT", t, C, [](A& a, const bool& v) { a.template set<N - 1>(v); });
    REG("setT1", t, C, [](A& a) { a.template set<N - 1, true>(); });
    REG("setM0", t, C, [](A& a) { a.template set<N / 2, false>(); });
    if constexpr (L) {
        using B1 = logic::logic<0>;
        REG("setl", t, C, [](A& a, const IxW& i, const B1& v) { a.set(i.v, v); });
        REG("set_x", t, C, [](A& a, const IxW& i) { a.set_x(i.v); });
        REG("set_z", t, C, [](A& a, const IxW& i) { a.set_z(i.v); });
        REG("set_xT", t, C, [](A& a) { a.template set_x<N - 1>(); });
        REG("set_zT", t, C, [](A& a) { a.template set_z<N - 1>(); });
        REG("x_set", t, C, [](const A& a, const IxW& i) { return a.x_set(i.v); });
        REG("z_set", t, C, [](const A& a, const IxW& i) { return a.z_set(i.v); });
        if constexpr (nat) {
            REG("x_setT", t, C, [](const A& a) { return a.template x_set<N - 1>(); });
            REG("z_setT", t, C, [](const A& a) { return a.template z_set<N - 1>(); });
        }
    } else {
        using B1 = logic::bit<0>;
        REG("setb", t, C, [](A& a, const IxW& i, const B1& v) { a.set(i.v, v); });
        if constexpr (nat && !S && N > 1) REG("popcount", t, C, [](const A& a) { return a.popcount(); });
        REG("mask", t, C, [](A& a) { a.mask(); });
        REG("mask_off", t, C, [](A& a) { a.mask_off(); });
        REG("clear", t, C, [](A& a) { a.clear(); });
        REG("any_set", t, C, [](const A& a) { return a.any_set(); });
        REG("highest_bit", t, C, [](const A& a) { return a.highest_bit(); });
        if constexpr (!nat) REG("all_set", t, C, [](const A& a) { return a.all_set(); });
        if constexpr (nat) REG("negate_inplace", t, C, [](A& a) { a.negate(); });
        REG("negate", t, C, [](const A& a) { return a.negate(); });
        if constexpr (nat || S) REG("negative", t, C, [](const A& a) { return a.negative(); });
        REG("to_logic", t, C, [](const A& a) { return logic::logic<N - 1, 0>(a); });
    }

    // ---- conversions
    REG("to_signed", t, C, [](const A& a) { return a.to_signed(); });
    REG("to_unsigned", t, C, [](const A& a) { return a.to_unsigned(); });
    REG("to_uint64", t, C, [](const A& a) { return a.to_uint64(); });
    if constexpr (nat) REG("to_num", t, C, [](const A& a) { return a.to_num(); });
    REG("extend", t, C, [](const A& a) { return a.template extend<N>(); });
    if constexpr (nat && N < 64) REG("extend+1", t, C, [](const A& a) { return a.template extend<N + 1>(); });
    if constexpr (N <= 333) REG("extend333", t, C, [](const A& a) { return a.template extend<333>(); });
    REG("ctor", t, C, [](const uint64_t& v) { return A(v); });
    REG("ctor_bool", t, C, [](const bool& v) { return A(v); });
    REG("ctor_def", t, C, []() { return A(); });
    REG("copy", t, C, [](const A& a) { return A(a); });
    REG("move_assign", t, C, [](A& a, const A& b) { a = A(b); });
    REG("assign", t, C, [](A& a, const A& b) { a = b; });
    if constexpr (nat) REG("assign_int", t, C, [](A& a, const int& v) { a = v; });

    // ---- slices
    REG("slice_all", t, C, [](const A& a) { return a.template slice<N - 1, 0>(); });
    REG("slice_lo", t, C, [](const A& a) { return a.template slice<N / 2, 0>(); });
    REG("slice_hi", t, C, [](const A& a) { return a.template slice<N - 1, N / 2>(); });
    REG("slice_mid", t, C, [](const A& a) { return a.template slice<(N * 3) / 4, N / 4>(); });
    {
        constexpr int K = N >= 8 ? 5 : 1;
        REG("slice_rt", t, C, [](const A& a, const AnyIx<0, N - K>& i) { return a.template slice<K>(i.v + K - 1, i.v); });
        REG("slice_ref_rt", t, C, [](A& a, const AnyIx<0, N - K>& i, const std::conditional_t<L, logic::logic<K - 1, 0>, logic::bit<K - 1, 0>>& b) {
            a.slice_ref(i.v + K - 1, i.v) = b;
        });
        if constexpr (N >= 8) {
            using Bs = logic::logic<7, 0>;
            REG("slice_up", t, C, [](const A& a, const In<0, (N - K > 255 ? 255 : N - K)>& i) { return a.template slice<K, true>(Bs(i.v)); });
            REG("slice_ref_up", t, C, [](A& a, const In<0, (N - K > 255 ? 255 : N - K)>& i, const std::conditional_t<L, logic::logic<K - 1, 0>, logic::bit<K - 1, 0>>& b) {
                a.template slice_ref<K, true>(Bs(i.v)) = b;
            });
            REG("slice_dn", t, C, [](const A& a, const In<K - 1, (N - 1 > 255 ? 255 : N - 1)>& i) { return a.template slice<K, false>(Bs(i.v)); });
        }
    }
    if constexpr (!nat) {
        constexpr int K = N - 3;
        REG("slice_rt_wide", t, C, [](const A& a, const AnyIx<0, 3>& i) { return a.template slice<K>(i.v + K - 1, i.v); });
    }
    using H = std::conditional_t<L, logic::logic<N / 2, 0>, logic::bit<N / 2, 0>>;
    REG("update_lo", t, C, [](A& a, const H& b) { a.template update<N / 2, 0>(b); });
    REG("update_hi", t, C, [](A& a, const H& b) { a.template update<N - 1, N / 2>(b); });
    REG("update_rt", t, C, [](A& a, const H& b, const AnyIx<0, N - 1 - N / 2>& i) { a.update(i.v + N / 2, i.v, b); });
    // an operand that is the object itself
    REG("self_assign", t, C, [](A& a) { a = *&a; });
    REG("self_update", t, C, [](A& a, const AnyIx<0, N - 1>& i) { a.update(i.v + N - 1, i.v, a); });
    REG("self_update_lo", t, C, [](A& a) { a.template update<N / 2, 0>(a); });
    REG("self_update_hi", t, C, [](A& a) { a.template update<N - 1, N / 2>(a); });
    if constexpr (accepts<A, A>(B_iand)) {
        REG("self_iand", t, C, [](A& a) { a &= a; });
        REG("self_ixor", t, C, [](A& a) { a ^= a; });
    }
    REG("self_sub", t, C, [](const A& a) { return a - a; });
    REG("self_match", t, C, [](const A& a) { return a.match(a); });
    REG("slice_ref_lo", t, C, [](A& a, const H& b) { a.template slice_ref<N / 2, 0>() = b; });

    // ---- concatenation and unpacking
    if constexpr (2 * N < 64) {
        REG("concat", t, C, [](const A& a, const A& b) { return A(a).concat(b); });
        REG("concat_free", t, C, [](const A& a, const A& b) { return logic::concat(a, b); });
    }
    if constexpr (3 * N < 64) {
        REG("concat3", t, C, [](const A& a, const A& b, const A& c) { return A(a).concat(b, c); });
        REG("concat3_free", t, C, [](const A& a, const A& b, const A& c) { return logic::concat(a, b, c); });
    }
    if constexpr (L && nat && N >= 8) {
        using V1 = std::conditional_t<L, logic::logic<N / 4 - 1, 0>, logic::bit<N / 4 - 1, 0>>;
        using V3 = std::conditional_t<L, logic::logic<N - 2 * (N / 4) - 1, 0>, logic::bit<N - 2 * (N / 4) - 1, 0>>;
        REG("unpack3", t, C, [](const A& a, V1& x, V1& y, V3& z) { a.unpack(x, y, z); });
    }
    if constexpr (L && nat && N >= 4) {
        using U1 = logic::logic<N / 4 - 1, 0>;
        using U2 = logic::logic<N - N / 4 - 1, 0>;
        REG("unpack", t, C, [](const A& a, U1& x, U2& y) { a.unpack(x, y); });
    }
    REG("and_also", t, C, [](const A& a, const A& b) { return bool(a && b); });
    REG("or_else", t, C, [](const A& a, const A& b) { return bool(a || b); });
}

template <typename A, typename B>
void binary() {
    constexpr bool AL = A::is_4state, BL = B::is_4state;
    constexpr bool AS = A::is_signed;
    constexpr int AN = A::size, BN = B::size;
    constexpr uint32_t C = F_COMP | (AN <= 64 && BN <= 64 ? 0 : F_BIG);
    const std::string t = "<" + vname<A>() + "," + vname<B>() + ">";
#define OP2(NAME, EXPR) REG(NAME, t, C, [](const A& a, const B& b) { return EXPR; })
#define MUT2(NAME, STMT) REG(NAME, t, C, [](A& a, const B& b) { STMT; })
#define ACC(OPN) if constexpr (accepts<A, B>(B_##OPN))
    // ---- bitwise
    ACC(and) OP2("and", a & b);
    ACC(or) OP2("or", a | b);
    ACC(xor) OP2("xor", a ^ b);
    ACC(andand) OP2("and_also", bool(a && b));
    ACC(oror) OP2("or_else", bool(a || b));
    // ---- arithmetic
    ACC(add) OP2("add", a + b);
    ACC(sub) OP2("sub", a - b);
    ACC(mul) OP2("mul", a * b);
    if constexpr (AN <= 320 && BN <= 320) {  // quadratic in the width
        ACC(div) OP2("div", a / b);
        ACC(mod) OP2("mod", a % b);
    }
    // ---- shifts
    ACC(shl) OP2("shl", a << b);
    ACC(shr) OP2("shr", a >> b);
    ACC(ashr) OP2("ashr", a.ashr(b));
    ACC(ashl) OP2("ashl", a.ashl(b));
    // ---- comparisons
    ACC(eq) OP2("eq", a == b);
    ACC(ne) OP2("ne", a != b);
    ACC(match) OP2("match", a.match(b));
    ACC(nmatch) OP2("nmatch", a.nmatch(b));
    ACC(gt) OP2("gt", a > b);
    ACC(lt) OP2("lt", a < b);
    ACC(ge) OP2("ge", a >= b);
    ACC(le) OP2("le", a <= b);
    // ---- compound assignment
    ACC(iand) MUT2("iand", a &= b);
    ACC(ior) MUT2("ior", a |= b);
    ACC(ixor) MUT2("ixor", a ^= b);
    ACC(ishl) MUT2("ishl", a <<= b);
    ACC(ishr) MUT2("ishr", a >>= b);
    ACC(assign) MUT2("assign", a = b);
    // ---- conversions and indexing by a vector
    ACC(conv) OP2("conv", A(b));
    ACC(get) OP2("get_v", a.get(b));
    ACC(unpack) REG("unpack1", t, C, [](const A& a, B& b) { a.unpack(b); });
    // ---- parts
    ACC(update) REG("update_any", t, C, [](A& a, const B& b, const AnyIx<0, AN - 1>& i) { a.update(i.v + BN - 1, i.v, b); });
    ACC(slice_ref) REG("slice_ref_any", t, C, [](A& a, const B& b, const AnyIx<0, AN - 1>& i) { a.slice_ref(i.v + BN - 1, i.v) = b; });
    if constexpr (BN <= AN) {
        ACC(update_t) REG("update_top", t, C, [](A& a, const B& b) { a.template update<AN - 1, AN - BN>(b); });
    }
    if constexpr (AL == BL && AN + BN < 64 && !(AL && AS)) REG("concat", t, C, [](const A& a, const B& b) { return A(a).concat(b); });
#undef ACC
#undef OP2
#undef MUT2
}
}  // namespace cat
