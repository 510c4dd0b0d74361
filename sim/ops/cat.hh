// Operation catalogue: every public operation of the library, as an entry that runs on operands
// placed by the harness in the tagged arena.  The lambdas below are compiled with the seam
// instrumentation (see rt.hh); everything else treats them as opaque.
#pragma once
#include <cstdint>
#include <cstring>
#include <new>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>

#include "../rt/rt.hh"
#include "logic/array.hh"
#include "logic/logic.hh"
#include "logic/struct.hh"
#include "logic/union.hh"

namespace cat {

// canonical printable observation of a value
struct Obs {
    static constexpr uint32_t cap = 1400;
    uint32_t n = 0;
    char s[cap];
    void ch(char c) {
        if (n < cap - 1) s[n++] = c;
    }
    void str(const char* p) {
        while (*p) ch(*p++);
    }
    void hex(uint64_t v, int digits = 16) {
        for (int i = digits - 1; i >= 0; i--) ch("0123456789abcdef"[(v >> (4 * i)) & 15]);
    }
    void bytes(const void* p, size_t k) {
        for (size_t i = 0; i < k; i++) {
            unsigned char c = ((const unsigned char*)p)[i];
            if (c >= 32 && c < 127 && c != '\\')
                ch((char)c);
            else {
                ch('\\');
                hex(c, 2);
            }
        }
    }
};

struct Span {
    uint32_t lo, hi;
};
struct TypeInfo {
    const char* name;
    uint32_t size, align;
    void (*fill)(void*, rt::Rng&);
    void (*observe)(const void*, Obs&);
    void (*destroy)(void*);
    // sub-ranges of the object an operation may touch (null: all of it)
    int (*spans)(const void*, Span*);
    // rebuilds the value from its declared bits (null: not a value with bits)
    void (*canon)(void*);
};
struct Param {
    const TypeInfo* type;
    bool mut;
};
enum : uint32_t {
    F_FMT = 1,     // produces text; may allocate
    F_PARSE = 2,   // reads text
    F_MUT = 4,     // writes an operand
    F_CONST = 8,   // only const operands
    F_COMP = 16,   // computing or updating values
    F_BIG = 32,    // some operand wider than 64 bits
    F_RESTORE = 64,
};
constexpr int kMaxParams = 5;
struct Op {
    std::string name;
    uint32_t flags;
    int np;
    Param p[kMaxParams];
    const TypeInfo* result;  // null: void
    void (*call)(void** slots, void* res);
};

// ---------------------------------------------------------------- helpers on library types
template <typename T>
struct is_vec : std::false_type {};
template <int m, int l, bool s, bool a>
struct is_vec<logic::logic<m, l, s, a>> : std::true_type {};
template <int m, int l, bool s, bool a>
struct is_vec<logic::bit<m, l, s, a>> : std::true_type {};

// raw word access through the public data members
template <int m, int l, bool s, bool a>
uint64_t word(const logic::bit<m, l, s, a>& b, uint32_t i) {
    using B = logic::bit<m, l, s, a>;
    uint64_t v;
    if constexpr (B::native_num)
        v = static_cast<uint64_t>(b.value);
    else
        v = b.value.values[i];
    uint64_t rest = B::size - 64ull * i;
    if (rest < 64) v &= (1ull << rest) - 1;
    return v;
}
template <int m, int l, bool s, bool a>
void set_word(logic::bit<m, l, s, a>& b, uint32_t i, uint64_t v) {
    using B = logic::bit<m, l, s, a>;
    uint64_t rest = B::size - 64ull * i;
    if (rest < 64) v &= (1ull << rest) - 1;
    if constexpr (B::native_num) {
        if constexpr (s && B::size > 1 && B::size < 64) {
            if ((v >> (B::size - 1)) & 1) v |= ~((1ull << B::size) - 1);
        }
        b.value = static_cast<typename B::T>(v);
    } else
        b.value.values[i] = v;
}
template <int m, int l, bool s, bool a>
constexpr uint32_t nwords(const logic::bit<m, l, s, a>&) {
    return (logic::bit<m, l, s, a>::size + 63) / 64;
}
template <typename T>
void observe_vec(const T& v, Obs& o) {
    constexpr uint32_t n = (T::size + 63) / 64;
    if constexpr (T::is_4state) {
        o.ch('L');
        for (uint32_t i = n; i-- > 0;) o.hex(word(v.value, i));
        o.ch('/');
        for (uint32_t i = n; i-- > 0;) o.hex(word(v.xz_mask, i));
    } else {
        o.ch('B');
        for (uint32_t i = n; i-- > 0;) o.hex(word(v, i));
    }
}
inline uint64_t rnd_word(rt::Rng& r, int style) {
    switch (style) {
        case 0: return r.next();
        case 1: return 0;
        case 2: return ~0ull;
        case 3: return 1ull << r.below(64);
        case 4: return ~(1ull << r.below(64));
        case 5: return r.next() & r.next() & r.next();
        case 6: return r.below(16);
        default: return r.next() | r.next();
    }
}
// shapes that concern the whole vector, not each word for itself
template <typename B>
void fill_shape(B& b, rt::Rng& r) {
    constexpr uint32_t W = B::size;
    const uint32_t n = nwords(b);
    uint64_t w[(W + 63) / 64] = {};
    auto ones = [&](uint32_t lo, uint32_t hi) {  // [lo,hi)
        for (uint32_t i = lo; i < hi && i < W; i++) w[i / 64] |= 1ull << (i % 64);
    };
    uint32_t k = (uint32_t)r.below(W + 1);
    switch (r.below(11)) {
        case 0: ones(k ? k - 1 : 0, k ? k : 1); break;             // one bit
        case 1: ones(W - 1, W); break;                             // most negative
        case 2: ones(0, W - 1); break;                             // largest
        case 3: ones(0, k); break;
        case 4: ones(k, W); break;
        case 5: ones(k, k + 1 + (uint32_t)r.below(W)); break;      // a run
        case 6: w[0] = r.below(W + 70); break;                     // a plausible shift amount or index
        case 7:                                                    // -small
            ones(0, W);
            w[0] -= r.below(20);
            break;
        case 8:                                                    // d * 10^e
            w[0] = 1 + r.below(9);
            for (uint32_t e = (uint32_t)r.below(W * 3 / 10 + 1); e > 0; e--) {
                unsigned __int128 c = 0;
                for (uint32_t i = 0; i < n; i++) {
                    c += (unsigned __int128)w[i] * 10;
                    w[i] = (uint64_t)c;
                    c >>= 64;
                }
            }
            if (r.chance(1, 3)) w[0]--;
            break;
        case 9:                                                    // nothing in the low word
            for (uint32_t i = 1; i < n; i++) w[i] = rnd_word(r, (int)r.below(8));
            break;
        default:                                                   // nothing in the high words
            for (uint32_t i = 0; i <= r.below(n) && i < n; i++) w[i] = rnd_word(r, (int)r.below(8));
    }
    for (uint32_t i = 0; i < n; i++) set_word(b, i, w[i]);
}
template <typename B>
void fill_bits(B& b, rt::Rng& r, bool quiet) {
    if (r.chance(quiet ? 1u : 3u, 8)) return fill_shape(b, r);
    int style = quiet ? (r.chance(3, 4) ? 1 : 5) : (int)r.below(8);
    for (uint32_t i = 0; i < nwords(b); i++) set_word(b, i, rnd_word(r, r.chance(1, 4) && !quiet ? (int)r.below(8) : style));
}
template <typename T>
void fill_vec(T& v, rt::Rng& r) {
    if constexpr (T::is_4state) {
        fill_bits(v.value, r, false);
        fill_bits(v.xz_mask, r, r.chance(3, 5));
    } else
        fill_bits(v, r, false);
}

template <int Lo, int Hi>
struct In {  // integer argument in [Lo,Hi]
    int v;
};
template <int Lo, int Hi>
struct AnyIx {  // index, mostly in [Lo,Hi], sometimes outside, near or far
    int v;
};
template <typename T>
struct is_any_ix : std::false_type {};
template <int a, int b>
struct is_any_ix<AnyIx<a, b>> : std::true_type {};
inline int any_index(int lo, int hi, rt::Rng& r) {
    switch (r.below(10)) {
        case 0: return lo - 1 - (int)r.below(4);
        case 1: return hi + 1 + (int)r.below(5);
        case 2: return (int)(r.below(40) * 64) - 1200 + lo;
        case 3: {
            static const int far[] = {INT32_MAX - 2000, INT32_MIN + 2000, 1 << 30, -(1 << 30), 65536, -65536, 1000000007, INT32_MIN / 2 - 5};
            return far[r.below(8)] + (int)r.below(70);
        }
        default: return lo + (int)r.below((uint64_t)(hi - lo) + 1);
    }
}
template <typename T>
struct is_in : std::false_type {};
template <int a, int b>
struct is_in<In<a, b>> : std::true_type {};
template <uint32_t N>
struct Text {  // value text, right-aligned so that anything beyond it is foreign
    uint32_t len;
    char d[N];
    std::string_view sv() const { return {d + N - len, len}; }
};
template <uint32_t W>
struct NumText : Text<((W + 24 + 7) / 8) * 8> {};
template <uint32_t W>
struct BadText : Text<((W + 24 + 7) / 8) * 8> {};
struct FmtText : Text<28> {};
template <typename T>
struct is_text : std::false_type {};
template <uint32_t W>
struct is_text<NumText<W>> : std::true_type {};
template <uint32_t W>
struct is_text<BadText<W>> : std::true_type {};
template <>
struct is_text<FmtText> : std::true_type {};
template <typename T>
struct is_bad : std::false_type {};
template <uint32_t W>
struct is_bad<BadText<W>> : std::true_type {};

void gen_number_text(char* buf, uint32_t cap, uint32_t& len, uint32_t width, rt::Rng& r);
void damage_text(char* buf, uint32_t cap, uint32_t& len, rt::Rng& r);
void gen_format(char* buf, uint32_t cap, uint32_t& len, rt::Rng& r);

template <typename T>
struct name_of {
    static const char* get() { return "?"; }
};

template <typename T>
struct is_parr : std::false_type {};
template <typename T, int m, int l>
struct is_parr<logic::packed_array<T, m, l>> : std::true_type {};
template <typename T>
struct is_uarr : std::false_type {};
template <typename T, int m, int l>
struct is_uarr<logic::unpacked_array<T, m, l>> : std::true_type {};
template <typename T>
struct is_pair : std::false_type {};
template <typename A, typename B>
struct is_pair<std::pair<A, B>> : std::true_type {};

template <typename T>
struct is_bn : std::false_type {};
template <uint64_t n, bool s>
struct is_bn<logic::big_num<n, s>> : std::true_type {
    static constexpr uint64_t size = n;
    static constexpr bool sign = s;
};
template <typename T>
constexpr uint64_t bn_size = is_bn<T>::size;
template <typename T>
constexpr bool bn_signed = is_bn<T>::sign;

template <typename T>
void fill_any(void* p, rt::Rng& r) {
    if constexpr (is_bn<T>::value) {
        T* v = new (p) T();
        logic::bit<(int)bn_size<T> - 1, 0> b;
        fill_bits(b, r, false);
        for (uint32_t i = 0; i < v->values.size(); i++) v->values[i] = word(b, i);
    } else if constexpr (is_vec<T>::value) {
        T* v = new (p) T();
        fill_vec(*v, r);
    } else if constexpr (is_parr<T>::value) {
        T* v = new (p) T();
        fill_vec(*v, r);
    } else if constexpr (is_uarr<T>::value) {
        T* v = new (p) T();
        for (auto& e : v->value) fill_vec(e, r);
    } else if constexpr (is_in<T>::value) {
        []<int a, int b>(In<a, b>* q, rt::Rng& r) { q->v = a + (int)r.below((uint64_t)(b - a) + 1); }(static_cast<T*>(p), r);
    } else if constexpr (is_any_ix<T>::value) {
        []<int a, int b>(AnyIx<a, b>* q, rt::Rng& r) { q->v = any_index(a, b, r); }(static_cast<T*>(p), r);
    } else if constexpr (std::is_same_v<T, FmtText>) {
        T* t = new (p) T();
        uint32_t n = 0;
        char b[28];
        gen_format(b, 28, n, r);
        t->len = n;
        memcpy(t->d + 28 - n, b, n);
    } else if constexpr (is_text<T>::value) {
        T* t = new (p) T();
        constexpr uint32_t cap = sizeof(t->d);
        char b[cap];
        uint32_t n = 0;
        gen_number_text(b, cap, n, cap - 24, r);
        if (is_bad<T>::value) damage_text(b, cap, n, r);
        t->len = n;
        memcpy(t->d + cap - n, b, n);
    } else if constexpr (std::is_same_v<T, bool>) {
        *static_cast<bool*>(p) = r.below(2);
    } else if constexpr (std::is_integral_v<T>) {
        *static_cast<T*>(p) = (T)rnd_word(r, (int)r.below(8));
    }
}
template <typename T>
void observe_any(const void* p, Obs& o) {
    const T& v = *static_cast<const T*>(p);
    if constexpr (is_bn<T>::value) {
        o.ch('N');
        for (auto i = v.values.size(); i-- > 0;) o.hex(v.values[i]);
    } else if constexpr (is_vec<T>::value || is_parr<T>::value) {
        observe_vec(v, o);
    } else if constexpr (is_uarr<T>::value) {
        for (auto const& e : v.value) {
            observe_vec(e, o);
            o.ch(';');
        }
    } else if constexpr (std::is_same_v<T, std::string>) {
        o.ch('"');
        o.bytes(v.data(), v.size() < 1000 ? v.size() : 1000);
        o.ch('"');
        if (v.size() >= 1000) {  // a wide field: the rest as a digest
            uint64_t h = v.size();
            for (unsigned char c : v) h = (h ^ c) * 0x9E3779B97F4A7C15ull;
            o.hex(h);
        }
    } else if constexpr (is_text<T>::value) {
        o.ch('t');
        o.bytes(v.d + sizeof(v.d) - v.len, v.len);
    } else if constexpr (std::is_same_v<T, bool>) {
        o.str(v ? "true" : "false");
    } else if constexpr (std::is_integral_v<T>) {
        o.ch('i');
        o.hex((uint64_t)v);
    } else if constexpr (is_in<T>::value || is_any_ix<T>::value) {
        o.ch('i');
        o.hex((uint64_t)(int64_t)v.v, 8);
    } else if constexpr (is_pair<T>::value) {
        observe_any<typename T::first_type>(&v.first, o);
        o.ch(',');
        observe_any<typename T::second_type>(&v.second, o);
    }
}
template <typename T>
void destroy_any(void* p) {
    static_cast<T*>(p)->~T();
}
template <typename T>
void canon_vec(T& v) {
    T t;
    if constexpr (T::is_4state) {
        for (uint32_t i = 0; i < nwords(v.value); i++) set_word(t.value, i, word(v.value, i));
        for (uint32_t i = 0; i < nwords(v.value); i++) set_word(t.xz_mask, i, word(v.xz_mask, i));
    } else
        for (uint32_t i = 0; i < nwords(v); i++) set_word(t, i, word(v, i));
    v = t;
}
template <typename T>
constexpr bool has_canon = is_vec<T>::value || is_parr<T>::value || is_uarr<T>::value || is_bn<T>::value;
template <typename T>
void canon_any(void* p) {
    T& v = *static_cast<T*>(p);
    if constexpr (is_bn<T>::value) {
        constexpr uint64_t rest = bn_size<T> % 64;
        if (rest) v.values[v.values.size() - 1] &= (1ull << rest) - 1;
    } else if constexpr (is_uarr<T>::value) {
        for (auto& e : v.value) canon_vec(e);
    } else
        canon_vec(v);
}
template <typename T>
int text_spans(const void* p, Span* s) {
    const T& t = *static_cast<const T*>(p);
    s[0] = {0, 4};
    uint32_t off = (uint32_t)((const char*)t.d - (const char*)p);
    s[1] = {off + (uint32_t)sizeof(t.d) - t.len, off + (uint32_t)sizeof(t.d)};
    return 2;
}
template <typename T>
constexpr TypeInfo make_info() {
    TypeInfo t{};
    t.name = "";
    t.size = sizeof(T);
    t.align = alignof(T);
    t.fill = &fill_any<T>;
    t.observe = &observe_any<T>;
    t.destroy = &destroy_any<T>;
    t.spans = nullptr;
    if constexpr (is_text<T>::value) t.spans = &text_spans<T>;
    if constexpr (has_canon<T>) t.canon = &canon_any<T>;
    return t;
}
template <typename T>
inline constexpr TypeInfo info_v = make_info<T>();
template <typename T>
constexpr const TypeInfo* type_info() {
    return &info_v<T>;
}

template <typename F, typename R, typename... P, size_t... I>
inline void call_seq(void** s, void* res, std::index_sequence<I...>) {
    if constexpr (std::is_void_v<R>)
        F{}(*static_cast<std::remove_reference_t<P>*>(s[I])...);
    else
        new (res) R(F{}(*static_cast<std::remove_reference_t<P>*>(s[I])...));
}
template <typename F, typename R, typename... P>
void call_op(void** s, void* res) {
    call_seq<F, R, P...>(s, res, std::index_sequence_for<P...>{});
}
void add_op_raw(const char* name, const std::string* suffix, uint32_t flags, int np, const Param* p,
                const TypeInfo* result, void (*call)(void**, void*));
template <typename F, typename R, typename... P>
inline void reg_impl(const char* name, const std::string* t, uint32_t flags, R (F::*)(P...) const) {
    static_assert(sizeof...(P) <= kMaxParams);
    static constexpr Param ps[sizeof...(P) + 1] = {
        Param{type_info<std::remove_cvref_t<P>>(), !std::is_const_v<std::remove_reference_t<P>>}..., Param{}};
    if constexpr (std::is_void_v<R>)
        add_op_raw(name, t, flags, sizeof...(P), ps, nullptr, &call_op<F, R, P...>);
    else
        add_op_raw(name, t, flags, sizeof...(P), ps, type_info<R>(), &call_op<F, R, P...>);
}
template <typename F>
inline void reg(const char* name, const std::string& t, uint32_t flags, F) {
    reg_impl<F>(name, &t, flags, &F::operator());
}

// The build leaves out registrations whose source line it finds in an error message (see build.py):
// code the library no longer accepts costs those operations, not the whole check.
#ifndef SIM_SKIP
#define SIM_SKIP -1
#endif
constexpr bool skip_line(int l) {
    constexpr int list[] = {SIM_SKIP};
    for (int x : list)
        if (x >= 0 && l >= x - 1 && l <= x + 3) return true;
    return false;
}
#define REG(...) \
    if constexpr (!skip_line(__LINE__)) reg(__VA_ARGS__)

// names of vector types
template <typename T>
std::string vname() {
    std::string s = T::is_4state ? "l" : "b";
    s += std::to_string(T::size);
    s += T::is_signed ? "s" : "u";
    return s;
}

struct Registrar {
    explicit Registrar(void (*f)());
};
}  // namespace cat
