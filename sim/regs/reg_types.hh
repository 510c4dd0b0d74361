// Instantiation of the register operations for one type (restricted to what the library accepts).
#pragma once
#include "../ops/cat.hh"
#include "reg.hh"

namespace regs {
namespace lg = ::logic;

template <typename T>
struct vinfo;
template <int m, int l, bool s, bool a>
struct vinfo<lg::logic<m, l, s, a>> {
    static constexpr int msb = m, lsb = l;
    static constexpr bool sgn = s;
};
template <int m, int l, bool s, bool a>
struct vinfo<lg::bit<m, l, s, a>> {
    static constexpr int msb = m, lsb = l;
    static constexpr bool sgn = s;
};
template <typename T>
void vread(const T& v, uint64_t* w, uint64_t* x, int at = 0) {  // or-s the bits of v in at bit `at`
    constexpr int n = ((int)T::size + 63) / 64;
    for (int i = 0; i < n; i++) {
        uint64_t a, b = 0;
        if constexpr (T::is_4state) {
            a = cat::word(v.value, i);
            b = cat::word(v.xz_mask, i);
        } else
            a = cat::word(v, i);
        int k = (at + 64 * i) / 64, o = (at + 64 * i) % 64;
        w[k] |= a << o;
        x[k] |= b << o;
        if (o && k + 1 < kMaxWords) {
            w[k + 1] |= a >> (64 - o);
            x[k + 1] |= b >> (64 - o);
        }
    }
}
inline uint64_t grab(const uint64_t* w, int at) {
    int k = at / 64, o = at % 64;
    uint64_t v = k < kMaxWords ? w[k] >> o : 0;
    if (o && k + 1 < kMaxWords) v |= w[k + 1] << (64 - o);
    return v;
}
template <typename T>
void vwrite(T& v, const uint64_t* w, const uint64_t* x, int at = 0) {
    constexpr int n = ((int)T::size + 63) / 64;
    for (int i = 0; i < n; i++) {
        if constexpr (T::is_4state) {
            cat::set_word(v.value, i, grab(w, at + 64 * i));
            cat::set_word(v.xz_mask, i, grab(x, at + 64 * i));
        } else
            cat::set_word(v, i, grab(w, at + 64 * i));
    }
}
// does v compare equal to the value that has the same bits and nothing else?
template <typename T>
bool clean(const T& v) {
    uint64_t w[kMaxWords] = {}, x[kMaxWords] = {};
    vread(v, w, x);
    constexpr int n = (int)T::size;
    for (int i = 0; i < kMaxWords; i++) {
        uint64_t const m = 64 * i + 64 <= n ? ~0ull : 64 * i >= n ? 0 : ~0ull >> (64 * i + 64 - n);
        w[i] &= m;
        x[i] &= m;
    }
    T c;
    vwrite(c, w, x);
    if constexpr (T::is_4state) {
        if constexpr (requires { bool(c.value == v.value); }) return bool(c.value == v.value) && bool(c.xz_mask == v.xz_mask);
    } else {
        if constexpr (requires { bool(c == v); }) return bool(c == v);
    }
    return true;
}
template <typename T>
inline void result(Res& r, const T& v) {
    constexpr int n = T::size;
    static_assert(n <= 64 * kMaxWords);
    for (int i = 0; i < kMaxWords; i++) r.w[i] = r.x[i] = 0;
    vread(v, r.w, r.x);
    r.n = n;
    r.clean = clean(v);
}
inline void result(Res& r, bool b) {
    for (int i = 0; i < kMaxWords; i++) r.w[i] = r.x[i] = 0;
    r.w[0] = b;
    r.n = 1;
}
inline void result_text(Res& r, const std::string& s) {
    r.len = (int)s.size();
    for (size_t i = 0; i < s.size() && i < sizeof r.text; i++) r.text[i] = s[i];
}
template <bool four>
auto one(int st) {
    if constexpr (four) {
        lg::logic<0> b;
        b.value.value = st & 1;
        b.xz_mask.value = st >> 1;
        return b;
    } else {
        lg::bit<0> b;
        b.value = st & 1;
        return b;
    }
}
template <typename A>
constexpr bool has_text() {
    return true;
}
template <typename A>
int vec_type() {
    static int id = -1;
    if (id >= 0) return id;
    using V = vinfo<A>;
    RegType t;
    t.name = std::string(A::is_4state ? "l" : "b") + (V::sgn ? "s" : "u") + "[" + std::to_string(V::msb) + ":" + std::to_string(V::lsb) + "]";
    t.size = sizeof(A);
    t.align = alignof(A);
    t.W = A::size;
    t.is4 = A::is_4state;
    t.sgn = V::sgn;
    t.msb = V::msb;
    t.lsb = V::lsb;
    t.init = [](void* p) { new (p) A(); };
    t.write = [](void* p, const uint64_t* w, const uint64_t* x) { vwrite(*static_cast<A*>(p), w, x); };
    t.read = [](const void* p, uint64_t* w, uint64_t* x) {
        for (int i = 0; i < kMaxWords; i++) w[i] = x[i] = 0;
        vread(*static_cast<const A*>(p), w, x);
    };
    t.clean = [](const void* p) { return clean(*static_cast<const A*>(p)); };
    if constexpr (has_text<A>()) {
        t.text = true;
        t.to_text = [](const void* p, Res& r, char base) { result_text(r, static_cast<const A*>(p)->str(std::string_view(&base, 1))); };
        t.from_text = [](void* p, const Arg& a) { new (p) A(std::string_view(a.text, a.len)); };
    }
    return id = add_type(t);
}

#define OP(kind, other, p0, p1, p2, variant, ...)                                                        \
    if constexpr (!cat::skip_line(__LINE__))                                                             \
    add_op(kind, me, other, p0, p1, p2, variant, [](void* self_, void* other_, const Arg& a, Res& r) {   \
        A& self = *static_cast<A*>(self_);                                                               \
        (void)self; (void)other_; (void)a; (void)r;                                                      \
        __VA_ARGS__;                                                                                     \
    })
#define SRC const S& src = *static_cast<const S*>(other_)

// pseudo-random constant part selects [h:l] of [top:lo], many of them next to word boundaries
constexpr uint32_t mixc(uint32_t a) {
    a = (a ^ (a >> 15)) * 0x2c1b3c6du;
    a = (a ^ (a >> 12)) * 0x297a2d39u;
    return a ^ (a >> 15);
}
struct Part {
    int h, l;
};
constexpr Part part_of(int top, int lo, int salt, int k) {
    int const n = top - lo + 1;
    uint32_t const r = mixc((uint32_t)(top * 733 + lo * 31 + salt * 7919 + k * 104729 + 12345));
    constexpr int w[] = {0, 63, 0, 64, 65, 31, 0, 127, 32, 128, 0, 33};
    int width = w[k % 12];
    if (width == 0 || width > n) width = 1 + (int)(r % (uint32_t)n);
    int const room = n - width;
    int off = room ? (int)((r >> 8) % (uint32_t)(room + 1)) : 0;
    if (k % 5 == 4 && room) off = room - 1;
    return Part{lo + off + width - 1, lo + off};
}
// which widths the library lets one register be assigned from another without a cast
constexpr bool assignable(int to, int from) { return (to <= 64 && from <= 64) || to == from; }
// operations on a register of type A alone
template <typename A>
void self_ops() {
    constexpr bool L = A::is_4state;
    constexpr int m = vinfo<A>::msb, l = vinfo<A>::lsb, W = A::size;
    constexpr int lo = m < l ? m : l, hi = m < l ? l : m;
    constexpr bool nat = W <= 64, desc = m >= l;
    constexpr int mid = lo + (W > 64 ? 64 : W / 2 < W ? W / 2 : 0);
    const int me = vec_type<A>();
    OP(SET, -1, 0, 0, 0, "", self.set(a.i, (bool)a.v));
    OP(SETL, -1, 0, 0, 0, "", self.set(a.i, one<L>(a.st)));
    if constexpr (lo >= 0 || !L) {
        OP(SETCT, -1, lo, 0, 0, "lo", self.template set<lo>((bool)a.v));
        OP(SETCT, -1, hi, 0, 0, "hi", self.template set<hi>((bool)a.v));
        OP(SETCT, -1, mid, 0, 0, "mid", self.template set<mid>((bool)a.v));
        OP(SETCT2, -1, lo, 1, 0, "lo1", (self.template set<lo, true>()));
        OP(SETCT2, -1, hi, 1, 0, "hi1", (self.template set<hi, true>()));
        OP(SETCT2, -1, mid, 0, 0, "mid0", (self.template set<mid, false>()));
        OP(SETCT2, -1, hi, 0, 0, "hi0", (self.template set<hi, false>()));
    }
    OP(IDX, -1, 0, 0, 0, "", result(r, self[a.i]));
    if constexpr (nat && hi < W) {
        OP(GETCT, -1, lo, 0, 0, "lo", result(r, self.template get<lo>()));
        OP(GETCT, -1, hi, 0, 0, "hi", result(r, self.template get<hi>()));
        OP(GETCT, -1, mid, 0, 0, "mid", result(r, self.template get<mid>()));
    }
    if constexpr (L) {
        OP(SETX, -1, 0, 0, 0, "", self.set_x(a.i));
        OP(SETZ, -1, 0, 0, 0, "", self.set_z(a.i));
        OP(SETXCT, -1, hi, 0, 0, "hi", self.template set_x<hi>());
        OP(SETZCT, -1, lo, 0, 0, "lo", self.template set_z<lo>());
        OP(SETZCT, -1, mid, 0, 0, "mid", self.template set_z<mid>());
        OP(XSET, -1, 0, 0, 0, "", result(r, self.x_set(a.i)));
        OP(ZSET, -1, 0, 0, 0, "", result(r, self.z_set(a.i)));
        if constexpr (nat && hi < W) {
            OP(XSETCT, -1, hi, 0, 0, "hi", result(r, self.template x_set<hi>()));
            OP(ZSETCT, -1, mid, 0, 0, "mid", result(r, self.template z_set<mid>()));
        }
    }
    // run-time slices
    OP(SLICE, -1, 1, 0, 0, "1", result(r, self.template slice<1>(a.i, a.j)));
    OP(SLICE, -1, W, 0, 0, "W", result(r, self.template slice<W>(a.i, a.j)));
    if constexpr (W > 3) {
        OP(SLICE, -1, 3, 0, 0, "3", result(r, self.template slice<3>(a.i, a.j)));
        OP(SLICE, -1, W - 1, 0, 0, "W-1", result(r, self.template slice<W - 1>(a.i, a.j)));
        OP(SLICE, -1, W / 2, 0, 0, "W/2", result(r, self.template slice<W / 2>(a.i, a.j)));
        OP(SLICEB, -1, 3, 1, 0, "3up", result(r, self.template slice<3, true>(lg::bit<15, 0>((uint16_t)a.i))));
        OP(SLICEB, -1, 3, 0, 0, "3down", result(r, self.template slice<3, false>(lg::bit<31, 0, true>(a.i))));
        OP(SLICEB, -1, W / 2, 1, 0, "W/2up", result(r, self.template slice<W / 2, true>(lg::logic<31, 0, true>(a.i))));
        OP(SLICEB, -1, W / 2, 0, 0, "W/2down", result(r, self.template slice<W / 2, false>(lg::logic<15, 0>((uint16_t)a.i))));
    }
    if constexpr (W > 65) OP(SLICE, -1, 65, 0, 0, "65", result(r, self.template slice<65>(a.i, a.j)));
    if constexpr (W > 33) OP(SLICE, -1, 33, 0, 0, "33", result(r, self.template slice<33>(a.i, a.j)));
    // constant slices
    if constexpr (desc && l >= 0) {
        constexpr int top = hi < W ? hi : W - 1;
        if constexpr (top >= lo) {
            OP(SLICECT, -1, top, lo, 0, "all", result(r, self.template slice<top, lo>()));
            OP(SLICECT, -1, lo, lo, 0, "lo", result(r, self.template slice<lo, lo>()));
            OP(SLICECT, -1, top, top, 0, "top", result(r, self.template slice<top, top>()));
        }
        if constexpr (top > lo + 2) {
            OP(SLICECT, -1, top, lo + 1, 0, "upper", result(r, self.template slice<top, lo + 1>()));
            OP(SLICECT, -1, top - 1, lo, 0, "lower", result(r, self.template slice<top - 1, lo>()));
            OP(SLICECT, -1, lo + 2, lo + 1, 0, "low2", result(r, self.template slice<lo + 2, lo + 1>()));
        }
        if constexpr (top >= lo + 66) {
            OP(SLICECT, -1, lo + 65, lo + 1, 0, "65", result(r, self.template slice<lo + 65, lo + 1>()));
            OP(SLICECT, -1, lo + 65, lo + 2, 0, "64", result(r, self.template slice<lo + 65, lo + 2>()));
            OP(SLICECT, -1, lo + 65, lo + 62, 0, "4", result(r, self.template slice<lo + 65, lo + 62>()));
            OP(SLICECT, -1, lo + 66, lo + 30, 0, "37", result(r, self.template slice<lo + 66, lo + 30>()));
        }
    }
    if constexpr (desc && l >= 0) {
        constexpr int top = hi < W ? hi : W - 1;
        if constexpr (top > lo) {
            [&]<int... K>(std::integer_sequence<int, K...>) {
                (
                    [&] {
                        constexpr int qh = part_of(top, lo, 1, K).h, ql = part_of(top, lo, 1, K).l;
                        const std::string nm = "r" + std::to_string(qh) + "_" + std::to_string(ql);
                        OP(SLICECT, -1, qh, ql, 0, nm.c_str(), result(r, self.template slice<qh, ql>()));
                    }(),
                    ...);
            }(std::make_integer_sequence<int, (W > 64 ? 12 : 5)>{});
        }
    }
    // single bits next to word boundaries
    if constexpr (lo >= 0 || !L) {
        [&]<int... K>(std::integer_sequence<int, K...>) {
            (
                [&] {
                    constexpr int at = lo + (K == 0 ? 63 : K == 1 ? 64 : K == 2 ? 127 : K == 3 ? 128 : (int)(mixc(W * 17 + lo + K) % (unsigned)W));
                    if constexpr (at <= hi) {
                        const std::string nm = "c" + std::to_string(at);
                        OP(SETCT, -1, at, 0, 0, nm.c_str(), self.template set<at>((bool)a.v));
                        OP(SETCT2, -1, at, 1, 0, nm.c_str(), (self.template set<at, true>()));
                        if constexpr (L) OP(SETXCT, -1, at, 0, 0, nm.c_str(), self.template set_x<at>());
                        if constexpr (L) OP(SETZCT, -1, at, 0, 0, nm.c_str(), self.template set_z<at>());
                        if constexpr (nat && hi < W) OP(GETCT, -1, at, 0, 0, nm.c_str(), result(r, self.template get<at>()));
                    }
                }(),
                ...);
        }(std::make_integer_sequence<int, 6>{});
    }
    if constexpr (W > 128) {
        OP(SLICE, -1, 63, 0, 0, "63", result(r, self.template slice<63>(a.i, a.j)));
        OP(SLICE, -1, 64, 0, 0, "64", result(r, self.template slice<64>(a.i, a.j)));
        OP(SLICE, -1, 127, 0, 0, "127", result(r, self.template slice<127>(a.i, a.j)));
        OP(SLICE, -1, 128, 0, 0, "128", result(r, self.template slice<128>(a.i, a.j)));
        OP(SLICEB, -1, 66, 1, 0, "66up", result(r, self.template slice<66, true>(lg::bit<15, 0>((uint16_t)a.i))));
        OP(SLICEB, -1, 66, 0, 0, "66down", result(r, self.template slice<66, false>(lg::bit<31, 0, true>(a.i))));
    }
    // whole register
    if constexpr (nat) OP(ASSIGNINT, -1, 64, 0, 0, "u64", self = (uint64_t)a.n);
    if constexpr (nat && W >= 32) OP(ASSIGNINT, -1, 32, 0, 0, "u32", self = (uint32_t)a.n);
    if constexpr (W <= 8) OP(ASSIGNINT, -1, 8, 0, 0, "u8", self = (uint8_t)a.n);
    OP(CTORINT, -1, 64, 0, 0, "u64", self = A((uint64_t)a.n));
    OP(TEXT, -1, 0, 0, 0, "", self = A(std::string_view(a.text, a.len)));
    if constexpr (has_text<A>()) OP(STR, -1, 0, 0, 0, "", result_text(r, self.str("b")));
    {
        OP(EXT, -1, W + 1, 0, 0, "1", result(r, self.template extend<W + 1>()));
        if constexpr (desc && l == 0) OP(EXT, -1, W, 0, 0, "0", result(r, self.template extend<W>()));
        OP(EXT, -1, W + 64, 0, 0, "64", result(r, self.template extend<W + 64>()));
        if constexpr (W < 64) OP(EXT, -1, 64, 0, 0, "to64", result(r, self.template extend<64>()));
    }
    OP(COPY, me, 0, 0, 0, "", A t(*static_cast<const A*>(other_)); self = t);
    OP(MOVE, me, 0, 0, 0, "", self = A(std::move(*static_cast<A*>(other_))));
    OP(SWAP, me, 0, 0, 0, "", A& o = *static_cast<A*>(other_); A t = self; self = o; o = t);
    OP(XBIT, me, 0, 0, 0, "same", const A& o = *static_cast<const A*>(other_); self.set(a.i, o[a.j]));
    if constexpr (desc && l == 0 && W >= 4) {
        // {high, low} = register
        constexpr int k = W / 3 + 1;
        if constexpr (L)
            OP(UNPACK, -1, k, 0, 0, "", lg::logic<W - k - 1, 0> h; lg::logic<k - 1, 0> o; self.unpack(h, o); for (int i = 0; i < kMaxWords; i++) r.w[i] = r.x[i] = 0; vread(o, r.w, r.x); vread(h, r.w, r.x, k); r.n = W);
        else
            OP(UNPACK, -1, k, 0, 0, "", lg::bit<W - k - 1, 0> h; lg::bit<k - 1, 0> o; self.unpack(h, o); for (int i = 0; i < kMaxWords; i++) r.w[i] = r.x[i] = 0; vread(o, r.w, r.x); vread(h, r.w, r.x, k); r.n = W);
    }
}
// operations that move bits of a register of type S into one of type A
template <typename A, typename S>
void pair_ops() {
    constexpr bool L = A::is_4state;
    static_assert(L == S::is_4state);
    constexpr int m = vinfo<A>::msb, l = vinfo<A>::lsb, W = A::size, SW = S::size;
    constexpr int lo = m < l ? m : l, hi = m < l ? l : m;
    constexpr bool desc = m >= l, sdesc = vinfo<S>::msb >= vinfo<S>::lsb;
    const int me = vec_type<A>(), ot = vec_type<S>();
    if constexpr (desc || SW <= W) {
        OP(UPD, ot, 0, 0, 0, "", SRC; self.update(a.i, a.j, src));
        OP(HELD, ot, 0, 0, 0, "", SRC; auto ref = self.slice_ref(a.i, a.j); ref = src; self.set((int)a.n, (bool)a.v); ref = src);
        OP(UPD, ot, 0, 0, 0, "ref", SRC; self.slice_ref(a.i, a.j) = src);
        OP(UPDB, ot, SW, 1, 0, "up", SRC; self.template slice_ref<SW, true>(lg::bit<31, 0, true>(a.i)) = src);
        OP(UPDB, ot, SW, 0, 0, "down", SRC; self.template slice_ref<SW, false>(lg::logic<31, 0, true>(a.i)) = src);
    }
    if constexpr (l >= 0 && m >= 0) {
        if constexpr (desc) {
            constexpr int top = hi < W ? hi : W - 1;
            if constexpr (top >= lo) {
                OP(UPDCT, ot, top, lo, 0, "all", SRC; (self.template update<top, lo>(src)));
                OP(UPDCT, ot, top, top, 0, "top", SRC; (self.template update<top, top>(src)));
            }
            if constexpr (top > lo + 2) {
                OP(UPDCT, ot, top - 1, lo + 1, 0, "inner", SRC; (self.template update<top - 1, lo + 1>(src)));
                OP(UPDCT, ot, lo + 1 + top / 2 - lo / 2 < top ? lo + 1 + top / 2 - lo / 2 : top, lo + 1, 0, "ref", SRC;
                   (self.template slice_ref<(lo + 1 + top / 2 - lo / 2 < top ? lo + 1 + top / 2 - lo / 2 : top), lo + 1>() = src));
            }
            if constexpr (top > lo) {
                [&]<int... K>(std::integer_sequence<int, K...>) {
                    (
                        [&] {
                            constexpr int qk = K + (K % 2 ? 6 : 1), qh = part_of(top, lo, SW + 7, qk).h, ql = part_of(top, lo, SW + 7, qk).l;
                            const std::string nm = "r" + std::to_string(qh) + "_" + std::to_string(ql);
                            if constexpr (K % 2)
                                OP(UPDCT, ot, qh, ql, 0, nm.c_str(), SRC; (self.template update<qh, ql>(src)));
                            else
                                OP(UPDCT, ot, qh, ql, 0, nm.c_str(), SRC; (self.template slice_ref<qh, ql>() = src));
                        }(),
                        ...);
                }(std::make_integer_sequence<int, 3>{});
            }
        } else if constexpr (SW > 1 && SW <= W && lo + SW - 1 < W) {
            OP(UPDCT, ot, lo, lo + SW - 1, 0, "asc", SRC; (self.template update<lo, lo + SW - 1>(src)));
            if constexpr (hi < W) OP(UPDCT, ot, hi - SW + 1, hi, 0, "asclow", SRC; (self.template update<hi - SW + 1, hi>(src)));
        }
    }
    if constexpr (assignable(W, SW)) OP(ASSIGN, ot, 0, 0, 0, "", SRC; self = src);
    OP(XBIT, ot, 0, 0, 0, "", SRC; self.set(a.i, src[a.j]));
    constexpr int n1 = SW > 2 ? SW / 2 + 1 : 1;
    if constexpr (desc || n1 <= W) {
        OP(XFER, ot, n1, 0, 0, "", SRC; self.update(a.i, a.j, src.template slice<n1>((int)a.n, (int)a.nhi)));
    }
    if constexpr (assignable(W, n1)) OP(XASSIGN, ot, n1, 0, 0, "", SRC; self = src.template slice<n1>((int)a.n, (int)a.nhi));
    if constexpr (sdesc && vinfo<S>::lsb == 0 && SW > 2 && assignable(W, SW - 1)) {
        OP(XASSIGN, ot, SW - 1, 1, 0, "ct", SRC; (self = src.template slice<SW - 1, 1>()));
    }
    if constexpr (assignable(W, SW + 7)) OP(XEXT, ot, SW + 7, 0, 0, "", SRC; self = src.template extend<SW + 7>());
}
// packed arrays
template <typename T, int am, int al>
int parr_type() {
    using A = lg::packed_array<T, am, al>;
    static int id = -1;
    if (id >= 0) return id;
    RegType t;
    t.name = std::string("pa") + (T::is_4state ? "l" : "b") + (T::is_signed ? "s" : "") + std::to_string(T::size) + "[" + std::to_string(am) + ":" + std::to_string(al) + "]";
    t.kind = T_parr;
    t.size = sizeof(A);
    t.align = alignof(A);
    t.W = (int)A::array_size;
    t.is4 = T::is_4state;
    t.elem = T::size;
    t.sgn = T::is_signed;
    t.elem4 = T::is_4state;
    t.amsb = am;
    t.alsb = al;
    t.msb = t.W - 1;
    t.lsb = 0;
    t.init = [](void* p) { new (p) A(); };
    t.write = [](void* p, const uint64_t* w, const uint64_t* x) { vwrite(*static_cast<A*>(p), w, x); };
    t.read = [](const void* p, uint64_t* w, uint64_t* x) {
        for (int i = 0; i < kMaxWords; i++) w[i] = x[i] = 0;
        vread(*static_cast<const A*>(p), w, x);
    };
    t.text = true;
    t.to_text = [](const void* p, Res& r, char base) { result_text(r, static_cast<const A*>(p)->str(std::string_view(&base, 1))); };
    t.from_text = [](void* p, const Arg& a) { new (p) A(std::string_view(a.text, a.len)); };
    return id = add_type(t);
}
template <typename I>
I index_value(const Arg& a) {
    I v;
    uint64_t w[kMaxWords] = {a.n, a.nhi}, x[kMaxWords] = {a.xm, 0};
    vwrite(v, w, x);
    return v;
}
template <typename A, typename S, typename I>
void parr_index_ops(int me, int ot) {
    constexpr int iw = I::size, is = vinfo<I>::sgn;
    const std::string v = "[" + std::string(is ? "s" : "u") + std::to_string(iw) + "]";
    OP(PIDX, -1, iw, is, 0, v.c_str(), result(r, self[index_value<I>(a)]));
    OP(PUPD, ot, iw, is, 0, v.c_str(), SRC; self.update(index_value<I>(a), src));
}
template <typename T, int am, int al, typename S>
void parr_ops() {
    using A = lg::packed_array<T, am, al>;
    constexpr int lo = am < al ? am : al, hi = am < al ? al : am;
    const int me = parr_type<T, am, al>(), ot = vec_type<S>();
    parr_index_ops<A, S, lg::logic<7, 0>>(me, ot);
    parr_index_ops<A, S, lg::logic<3, 0>>(me, ot);
    parr_index_ops<A, S, lg::logic<0, 0>>(me, ot);
    parr_index_ops<A, S, lg::logic<31, 0, true>>(me, ot);
    parr_index_ops<A, S, lg::logic<7, 0, true>>(me, ot);
    parr_index_ops<A, S, lg::logic<65, 0>>(me, ot);
    parr_index_ops<A, S, lg::logic<63, 0>>(me, ot);
    constexpr bool cts = T::is_4state || A::array_size <= 64;  // constant element selects the library accepts
    if constexpr (T::is_4state) {
        OP(PUPDCT, ot, lo, lo, 0, "lo", SRC; (self.template update<lo, lo>(src)));
        OP(PUPDCT, ot, hi, hi, 0, "hi", SRC; (self.template update<hi, hi>(src)));
    }
    if constexpr (cts) {
        OP(PSLICECT, -1, lo, lo, 0, "lo", result(r, self.template slice_array<lo, lo>()));
        OP(PSLICECT, -1, hi, hi, 0, "hi", result(r, self.template slice_array<hi, hi>()));
    }
    if constexpr (T::is_4state && am >= al && hi > lo + 1) {
        OP(PUPDCT, ot, hi, lo + 1, 0, "upper", SRC; (self.template update<hi, lo + 1>(src)));
        OP(PUPDCT, ot, hi - 1, lo, 0, "lower", SRC; (self.template update<hi - 1, lo>(src)));
    }
    if constexpr (cts && am >= al && hi > lo + 1) {
        OP(PSLICECT, -1, hi, lo + 1, 0, "upper", result(r, self.template slice_array<hi, lo + 1>()));
        OP(PSLICECT, -1, hi - 1, lo, 0, "lower", result(r, self.template slice_array<hi - 1, lo>()));
    }
    OP(COPY, me, 0, 0, 0, "", A t(*static_cast<const A*>(other_)); self = t);
    OP(SWAP, me, 0, 0, 0, "", A& o = *static_cast<A*>(other_); A t = self; self = o; o = t);
    OP(TEXT, -1, 0, 0, 0, "", self = A(std::string_view(a.text, a.len)));
    OP(STR, -1, 0, 0, 0, "", result_text(r, self.str("b")));
}
// unpacked arrays
template <typename T, int am, int al>
int uarr_type() {
    using A = lg::unpacked_array<T, am, al>;
    static int id = -1;
    if (id >= 0) return id;
    RegType t;
    t.name = std::string("ua") + (T::is_4state ? "l" : "b") + (T::is_signed ? "s" : "") + std::to_string(T::size) + "[" + std::to_string(am) + ":" + std::to_string(al) + "]";
    t.kind = T_uarr;
    t.size = sizeof(A);
    t.align = alignof(A);
    t.W = (int)(A::size * T::size);
    t.is4 = T::is_4state;
    t.elem = T::size;
    t.sgn = T::is_signed;
    t.elem4 = T::is_4state;
    t.amsb = am;
    t.alsb = al;
    t.msb = t.W - 1;
    t.lsb = 0;
    t.init = [](void* p) { new (p) A(); };
    t.write = [](void* p, const uint64_t* w, const uint64_t* x) {
        A& v = *static_cast<A*>(p);
        for (size_t i = 0; i < A::size; i++) vwrite(v.value[i], w, x, (int)(i * T::size));
    };
    t.read = [](const void* p, uint64_t* w, uint64_t* x) {
        const A& v = *static_cast<const A*>(p);
        for (int i = 0; i < kMaxWords; i++) w[i] = x[i] = 0;
        for (size_t i = 0; i < A::size; i++) vread(v.value[i], w, x, (int)(i * T::size));
    };
    return id = add_type(t);
}
template <typename T, int am, int al, typename S>
void uarr_ops() {
    using A = lg::unpacked_array<T, am, al>;
    constexpr int lo = am < al ? am : al, hi = am < al ? al : am;
    const int me = uarr_type<T, am, al>(), ot = vec_type<S>();
    OP(UIDX, -1, 0, 0, 0, "", result(r, self[a.i]));
    OP(UUPDCT, ot, lo, 0, 0, "lo", SRC; self.template update<lo>(src));
    OP(UUPDCT, ot, hi, 0, 0, "hi", SRC; self.template update<hi>(src));
    OP(UUPDCT, ot, lo + (hi - lo) / 2, 0, 0, "mid", SRC; self.template update<lo + (hi - lo) / 2>(src));
    OP(UUPDCT, ot, lo + 1, 0, 0, "second", SRC; self.template update<lo + 1>(src));
    OP(UUPDCT, ot, hi + 1, 0, 0, "above", SRC; self.template update<hi + 1>(src));
    OP(UUPDCT, ot, lo - 1, 0, 0, "below", SRC; self.template update<lo - 1>(src));
    if constexpr (assignable(T::size, S::size)) OP(UELEM, ot, 0, 0, 0, "", SRC; self.value[a.j] = src);
    OP(USET, -1, 0, 0, 0, "", self.value[a.j].set(vinfo<T>::msb >= vinfo<T>::lsb ? vinfo<T>::lsb + a.i : vinfo<T>::lsb - a.i, (bool)a.v));
    OP(COPY, me, 0, 0, 0, "", A t(*static_cast<const A*>(other_)); self = t);
    OP(SWAP, me, 0, 0, 0, "", A& o = *static_cast<A*>(other_); A t = self; self = o; o = t);
}
}  // namespace regs
