// The register types of the simulated designs; compiled once per group with -DSIM_G=0..13.
#include "reg_types.hh"
using namespace regs;

namespace {
// sources: what the registers of every group are loaded from
template <bool four, int m, int l, bool s = false>
struct sel;
template <int m, int l, bool s>
struct sel<true, m, l, s> {
    using type = lg::logic<m, l, s>;
};
template <int m, int l, bool s>
struct sel<false, m, l, s> {
    using type = lg::bit<m, l, s>;
};
template <bool f, int k>
auto src_() {
    if constexpr (k == 0) return typename sel<f, 0, 0>::type{};
    else if constexpr (k == 1) return typename sel<f, 4, 0>::type{};
    else if constexpr (k == 2) return typename sel<f, 7, 0>::type{};
    else if constexpr (k == 3) return typename sel<f, 0, 7>::type{};
    else if constexpr (k == 4) return typename sel<f, 12, 0>::type{};
    else if constexpr (k == 5) return typename sel<f, 11, 4>::type{};
    else if constexpr (k == 6) return typename sel<f, 32, 0>::type{};
    else if constexpr (k == 7) return typename sel<f, 63, 0>::type{};
    else if constexpr (k == 8) return typename sel<f, 64, 0>::type{};
    else if constexpr (k == 9) return typename sel<f, 99, 0>::type{};
    else if constexpr (k == 10) return typename sel<f, 0, 68>::type{};
    else if constexpr (k == 11) return typename sel<f, 128, 0>::type{};
    else if constexpr (k == 12) return typename sel<f, 30, 0, true>::type{};
    else return typename sel<f, 0, 2>::type{};
}
constexpr int kSrc = 14;
template <bool f, int k>
using src_t = decltype(src_<f, k % kSrc>());

template <typename A, int h>
void reg_one() {
    constexpr bool f = A::is_4state;
    self_ops<A>();
    pair_ops<A, A>();
    pair_ops<A, src_t<f, h>>();
    pair_ops<A, src_t<f, h + 3>>();
    pair_ops<A, src_t<f, h + 7>>();
    pair_ops<A, src_t<f, h + 9>>();
    pair_ops<A, src_t<f, h + 12>>();
}
template <int m, int l, bool s, int h>
void both() {
    reg_one<lg::logic<m, l, s>, h>();
    reg_one<lg::bit<m, l, s>, h + 1>();
}
void all() {
#if SIM_G == 0
    both<0, 0, false, 0>();
    both<4, 0, false, 1>();
    both<0, 7, false, 2>();
    both<0, 2, false, 3>();
    both<2, 0, false, 4>();
#elif SIM_G == 1
    both<7, 0, false, 3>();
    both<12, 0, false, 4>();
    both<15, 0, true, 5>();
    both<3, -4, false, 0>();
#elif SIM_G == 2
    both<11, 4, false, 6>();
    both<0, 12, false, 7>();
    both<30, 0, true, 8>();
#elif SIM_G == 3
    both<31, 0, false, 9>();
    both<32, 0, false, 10>();
    both<0, 31, false, 11>();
#elif SIM_G == 4
    both<56, 0, false, 0>();
    both<63, 0, false, 1>();
    both<62, 0, true, 2>();
#elif SIM_G == 5
    both<66, 4, false, 3>();
    both<0, 63, false, 4>();
    both<64, 0, false, 5>();
#elif SIM_G == 6
    both<99, 0, false, 6>();
    both<0, 68, false, 8>();
#elif SIM_G == 7
    both<127, 0, true, 7>();
    both<128, 0, false, 8>();
#elif SIM_G == 8
    both<130, 3, false, 9>();
    both<199, 0, false, 10>();
#elif SIM_G == 9
    both<4, 103, false, 11>();
    both<191, 0, false, 12>();
#elif SIM_G == 10
    // packed arrays, sources narrower than, as wide as and wider than the element
    parr_ops<lg::logic<3, 0>, 3, 0, lg::logic<4, 0>>();
    parr_ops<lg::logic<7, 0>, 9, 0, lg::logic<7, 0>>();
    parr_ops<lg::logic<7, 0>, 0, 9, lg::logic<0, 7>>();
    parr_ops<lg::logic<19, 0>, 4, 0, lg::logic<32, 0>>();
    parr_ops<lg::logic<4, 0>, 6, 2, lg::logic<12, 0>>();
    parr_ops<lg::logic<4, 0>, 2, -2, lg::logic<0, 0>>();
    parr_ops<lg::logic<0, 0>, 0, 7, lg::logic<0, 0>>();
    parr_ops<lg::logic<0, 0>, 79, 0, lg::logic<4, 0>>();
#elif SIM_G == 11
    parr_ops<lg::logic<32, 0>, 3, 0, lg::logic<32, 0>>();
    parr_ops<lg::logic<64, 0>, 2, 0, lg::logic<64, 0>>();
    parr_ops<lg::bit<3, 0>, 3, 0, lg::bit<4, 0>>();
    parr_ops<lg::bit<9, 0>, 7, 0, lg::bit<12, 0>>();
    parr_ops<lg::bit<7, 0>, 0, 15, lg::bit<7, 0>>();
    parr_ops<lg::bit<63, 0>, 4, 2, lg::bit<63, 0>>();
    parr_ops<lg::bit<0, 0>, 10, 3, lg::bit<0, 0>>();
    // arrays of arrays
    parr_ops<lg::packed_array<lg::logic<3, 0>, 3, 0>, 1, 0, lg::logic<12, 0>>();
    parr_ops<lg::packed_array<lg::logic<7, 0>, 0, 2>, 4, 1, lg::logic<32, 0>>();
#elif SIM_G == 12
    uarr_ops<lg::logic<7, 0>, 3, 0, lg::logic<7, 0>>();
    uarr_ops<lg::logic<12, 0>, 1, 5, lg::logic<32, 0>>();
    uarr_ops<lg::logic<99, 0>, 2, 0, lg::logic<99, 0>>();
    uarr_ops<lg::bit<7, 0>, 0, 3, lg::bit<7, 0>>();
    uarr_ops<lg::bit<4, 0>, 6, 2, lg::bit<12, 0>>();
    uarr_ops<lg::bit<127, 0>, 2, 0, lg::bit<127, 0>>();
    uarr_ops<lg::logic<0, 0>, 15, 0, lg::logic<0, 0>>();
    uarr_ops<lg::logic<7, 0>, 2, -2, lg::logic<12, 0>>();
    // structs and unions: one vector, fields are part selects
    reg_one<lg::packed_struct<24>::type, 2>();
    reg_one<lg::packed_struct<70, false>::type, 3>();
    reg_one<lg::union_<70>::type, 4>();
    reg_one<lg::union_<40, false>::type, 5>();
#elif SIM_G == 13
    // declared ranges on both sides of zero, and ascending ones
    uarr_ops<lg::logic<7, 0>, -2, 3, lg::logic<7, 0>>();
    uarr_ops<lg::logic<4, 0>, -5, -3, lg::logic<12, 0>>();
    uarr_ops<lg::bit<7, 0>, -3, 0, lg::bit<7, 0>>();
    uarr_ops<lg::bit<64, 0>, -1, 1, lg::bit<64, 0>>();
    uarr_ops<lg::logic<31, 0, true>, -3, -6, lg::logic<32, 0>>();
    uarr_ops<lg::logic<0, 7>, 7, 7, lg::logic<7, 0>>();
    uarr_ops<lg::logic<64, 0>, 100, 103, lg::logic<64, 0>>();
    parr_ops<lg::logic<4, 0>, -2, 3, lg::logic<4, 0>>();
    parr_ops<lg::logic<7, 0>, -6, -3, lg::logic<12, 0>>();
    parr_ops<lg::bit<3, 0>, -1, 2, lg::bit<4, 0>>();
    parr_ops<lg::logic<12, 0>, 100, 104, lg::logic<12, 0>>();
    parr_ops<lg::logic<7, 0>, -1, -9, lg::logic<7, 0>>();
    // elements with a sign
    parr_ops<lg::logic<7, 0, true>, 3, 0, lg::logic<7, 0, true>>();
    parr_ops<lg::bit<12, 0, true>, 4, -1, lg::bit<12, 0, true>>();
    parr_ops<lg::logic<15, 0, true>, 0, 4, lg::logic<15, 0, true>>();
    uarr_ops<lg::logic<12, 0, true>, 3, 0, lg::logic<7, 0, true>>();
    uarr_ops<lg::bit<30, 0, true>, -1, 4, lg::bit<12, 0, true>>();
    uarr_ops<lg::logic<65, 0, true>, 2, 0, lg::logic<65, 0, true>>();
    both<-4, 3, false, 1>();
    both<-2, -9, false, 2>();
    both<-20, 60, false, 9>();
    both<50, -40, false, 6>();
#endif
}
Registrar r_(all);
}  // namespace
