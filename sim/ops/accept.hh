// Generated by tools/mkaccept.py: the operand classes each binary operation accepts at compile time.
#pragma once
#include <cstdint>
namespace cat {
enum BinOp {
    B_and, B_or, B_xor, B_add, B_sub, B_mul, B_div, B_mod, B_eq, B_ne, B_match, B_nmatch, B_gt, B_lt, B_ge, B_le, B_iand, B_ior, B_ixor, B_ishl, B_ishr, B_assign, B_shl, B_shr, B_ashr, B_ashl, B_andand, B_oror, B_conv, B_get, B_index, B_update, B_slice_ref, B_update_t, B_slice_by, B_pow, B_iadd, B_isub, B_imul, B_fconcat, B_unpack
};
inline constexpr uint64_t kAccept[192] = {
    0x79fffffffull, 0x58fffffffull, 0x78fffffffull, 0x79fffffffull,
    0x59fffffffull, 0x79fffffffull, 0x0ull, 0x18c00ffffull,
    0x0ull, 0x0ull, 0x18c00ffffull, 0x0ull,
    0x40c00f000ull, 0x40c000000ull, 0x40c000000ull, 0x40c000000ull,
    0x40c000000ull, 0x40c000000ull, 0x0ull, 0xc000000ull,
    0x0ull, 0x0ull, 0xc000000ull, 0x0ull,
    0x78fe0ffffull, 0x58fe0ffffull, 0x78fe0ffffull, 0x79fffffffull,
    0x59fffffffull, 0x79fffffffull, 0x0ull, 0x18c00ff3full,
    0x0ull, 0x0ull, 0x18c00ff3full, 0x0ull,
    0x40c00f000ull, 0x40c000000ull, 0x40c000000ull, 0x40c00f000ull,
    0x40c000000ull, 0x40c000000ull, 0x0ull, 0xc000000ull,
    0x0ull, 0x0ull, 0xc000000ull, 0x0ull,
    0x0ull, 0x0ull, 0x78fdf0fffull, 0x0ull,
    0x0ull, 0x78fdf0fffull, 0x39fffffffull, 0x18fd8ffffull,
    0x38fdfffffull, 0x39fffffffull, 0x18fd8ffffull, 0x38fdfffffull,
    0x0ull, 0x0ull, 0x40c000000ull, 0x0ull,
    0x0ull, 0x40c000000ull, 0xc00f000ull, 0xc000000ull,
    0xc000000ull, 0xc000000ull, 0xc000000ull, 0xc000000ull,
    0x0ull, 0x0ull, 0x78fc00f3full, 0x0ull,
    0x0ull, 0x78fdf0f3full, 0x38fe0ff3full, 0x18fc0ff3full,
    0x38fc0ff3full, 0x39fffff3full, 0x18fd8ff3full, 0x38fdfff3full,
    0x0ull, 0x0ull, 0x40c000000ull, 0x0ull,
    0x0ull, 0x40c000000ull, 0xc00f000ull, 0xc000000ull,
    0xc000000ull, 0xc00f000ull, 0xc000000ull, 0xc000000ull,
    0x43e20fff8ull, 0x42c000000ull, 0x42c000000ull, 0x43e20fff8ull,
    0x42c000000ull, 0x42c000000ull, 0x0ull, 0xc000000ull,
    0x0ull, 0x0ull, 0xc000000ull, 0x0ull,
    0x1079fffffffull, 0x1058fffffffull, 0x1078fffffffull, 0x1079fffffffull,
    0x1059fffffffull, 0x1079fffffffull, 0x0ull, 0x18c00ffffull,
    0x0ull, 0x0ull, 0x18c00ffffull, 0x0ull,
    0x42c000000ull, 0x42c000000ull, 0x42c000000ull, 0x43e20fff8ull,
    0x42c000000ull, 0x42c000000ull, 0x0ull, 0xc000000ull,
    0x0ull, 0x0ull, 0xc000000ull, 0x0ull,
    0x1078fe0ffffull, 0x1058fe0ffffull, 0x1078fe0ffffull, 0x1079ff8fff8ull,
    0x1059ff8fff8ull, 0x1079ff8fff8ull, 0x0ull, 0x18c00ff3full,
    0x0ull, 0x0ull, 0x18c00ff38ull, 0x0ull,
    0x0ull, 0x0ull, 0x40c000000ull, 0x0ull,
    0x0ull, 0x40c000000ull, 0x1e20fff8ull, 0xc000000ull,
    0xc000000ull, 0x1e20fff8ull, 0xc000000ull, 0xc000000ull,
    0x0ull, 0x0ull, 0x1078fdf0fffull, 0x0ull,
    0x0ull, 0x1078fdf0fffull, 0x1039fffffffull, 0x18fd8ffffull,
    0x1038fdfffffull, 0x1039fffffffull, 0x18fd8ffffull, 0x1038fdfffffull,
    0x0ull, 0x0ull, 0x40c000000ull, 0x0ull,
    0x0ull, 0x40c000000ull, 0xc000000ull, 0xc000000ull,
    0xc000000ull, 0x1e20ff38ull, 0xc000000ull, 0xc000000ull,
    0x0ull, 0x0ull, 0x1078fc00f3full, 0x0ull,
    0x0ull, 0x1078fd80f38ull, 0x1038fe0ff3full, 0x18fc0ff3full,
    0x1038fc0ff3full, 0x1039ff8ff38ull, 0x18fd8ff38ull, 0x1038fd8ff38ull,
};
template <typename T>
constexpr int op_class() {
    return (T::is_4state ? 4 : 0) + (T::size > 64 ? 2 : 0) + (T::is_signed ? 1 : 0);
}
template <typename A, typename B>
constexpr bool accepts(BinOp o) {
    constexpr int rel = A::size == B::size ? 0 : A::size < B::size ? 1 : 2;
    return (kAccept[(op_class<A>() * 8 + op_class<B>()) * 3 + rel] >> o) & 1;
}
}  // namespace cat
