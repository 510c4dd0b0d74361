#include "catalog.hh"

#include <stdio.h>
#include <stdlib.h>
#include <algorithm>

namespace cat {
static std::vector<void (*)()>& regs() {
    static std::vector<void (*)()> r;
    return r;
}
Registrar::Registrar(void (*f)()) { regs().push_back(f); }
std::vector<Op>& ops() {
    static std::vector<Op> o;
    return o;
}
static std::unordered_map<std::string, int> g_index;
const std::unordered_map<std::string, int>& op_index() { return g_index; }
void add_op_raw(const char* name, const std::string* suffix, uint32_t flags, int np, const Param* p,
                const TypeInfo* result, void (*call)(void**, void*)) {
    Op o;
    o.name = std::string(name) + *suffix;
    o.flags = flags;
    o.np = np;
    bool mut = false;
    for (int i = 0; i < np; i++) {
        o.p[i] = p[i];
        mut |= p[i].mut;
    }
    o.flags |= mut ? F_MUT : F_CONST;
    o.result = result;
    o.call = call;
    ops().push_back(o);
}
void load_catalog() {
    for (auto f : regs()) f();
    auto& v = ops();
    std::stable_sort(v.begin(), v.end(), [](const Op& a, const Op& b) { return a.name < b.name; });
    v.erase(std::unique(v.begin(), v.end(), [](const Op& a, const Op& b) { return a.name == b.name; }), v.end());
    for (size_t i = 0; i < v.size(); i++) g_index[v[i].name] = (int)i;
}

// ---------------------------------------------------------------- generated texts
// A well-formed number: binary digits possibly with x/z, hex, octal or decimal.
void gen_number_text(char* buf, uint32_t cap, uint32_t& len, uint32_t width, rt::Rng& r) {
    char t[1024];
    uint32_t n = 0;
    auto put = [&](char c) {
        if (n < sizeof t) t[n++] = c;
    };
    int base = (int)r.below(6);  // 0,1 binary 2 hex 3 octal 4 characters 5 decimal
    bool xz = r.chance(1, 3);
    uint32_t digits;
    auto bits = 1 + r.below(width ? width : 1);
    if (r.chance(1, 3)) bits = width;
    switch (base) {
        case 0:
        case 1: digits = (uint32_t)bits; break;
        case 2: digits = (uint32_t)(bits + 3) / 4; break;
        case 3: digits = (uint32_t)bits / 3; break;
        case 4: digits = (uint32_t)std::min<uint64_t>(bits / 7, 40); break;
        default: digits = (uint32_t)std::min<uint64_t>(bits * 3 / 10 + 1, r.chance(1, 4) ? 40 : 19); break;
    }
    if (digits < 1) digits = 1;
    if (base == 4) {
        bool dec = r.chance(1, 2);
        for (uint32_t i = 0; i < digits; i++) put((char)(dec ? '0' + (i == 0 ? 1 + r.below(9) : r.below(10)) : ' ' + 8 + r.below(87)));
    } else {
        static const char* pre[] = {"'b", "'B", "'h", "'o", "", "'d"};
        bool upper = r.chance(1, 8);
        if (r.chance(1, 2)) {
            char w[29];
            int k = snprintf(w, sizeof w, "%u", width);
            for (int i = 0; i < k; i++) put(w[i]);
        }
        put(pre[base][0]);
        put(upper ? (char)(pre[base][1] & ~32) : pre[base][1]);
        for (uint32_t i = 0; i < digits; i++) {
            if (xz && base != 5 && r.chance(1, 4)) {
                put("xzXZ?"[r.below(4)]);
                continue;
            }
            switch (base) {
                case 0:
                case 1: put((char)('0' + r.below(2))); break;
                case 2: put("0123456789ABCDEFabcdef"[r.below(22)]); break;
                case 5: put((char)('0' + r.below(10))); break;
                default: put((char)('0' + r.below(8))); break;
            }
            if (r.chance(1, 40)) put('_');
        }
    }
    if (n > cap) n = cap;
    memcpy(buf, t, n);
    len = n;
}
void damage_text(char* buf, uint32_t cap, uint32_t& len, rt::Rng& r) {
    int k = 1 + (int)r.below(3);
    while (k--) {
        switch (r.below(7)) {
            case 0: len = len ? (uint32_t)r.below(len + 1) : 0; break;            // torn: prefix survives
            case 1:
                if (len) buf[r.below(len)] = (char)r.next();
                break;                                                             // byte flip
            case 2:
                if (len) buf[r.below(len)] ^= (char)(1u << r.below(8));
                break;
            case 3:
                if (len > 1) {                                                     // lost prefix
                    uint32_t c = (uint32_t)r.below(len);
                    memmove(buf, buf + c, len - c);
                    len -= c;
                }
                break;
            case 4:
                if (len) buf[r.below(len)] = "'bhodxz_-+ .$\0\n"[r.below(15)];
                break;
            case 5:                                                               // zero-filled sector
                if (len) {
                    uint32_t a = (uint32_t)r.below(len);
                    memset(buf + a, 0, len - a);
                }
                break;
            default:                                                              // doubled write
                if (len && len * 2 <= cap) {
                    memcpy(buf + len, buf, len);
                    len *= 2;
                } else if (len < cap)
                    buf[len++] = '9';
        }
    }
}
void gen_format(char* buf, uint32_t cap, uint32_t& len, rt::Rng& r) {
    static const char* k[] = {"b", "h", "x", "o", "d", "s", "B", "H", "X", "O", "D", "0b", "0h", "0d", "8b", "20d", "16h", "3o", "70b", "100d", "40x"};
    static const char* odd[] = {"", "0", "00b", "1b", "0s", "5s", "0o", "12x", "7d", "300b", "129h", "64b", "65b", "0x", "z", "%d", "-8d", "8", "bb", "b8", " b", "999"};
    const char* s = r.chance(1, 5) ? odd[r.below(sizeof odd / sizeof *odd)] : k[r.below(sizeof k / sizeof *k)];
    char w[29];
    if (r.chance(1, 6)) {
        snprintf(w, sizeof w, "%u%c", (unsigned)r.below(r.chance(1, 2) ? 30 : r.chance(1, 4) ? 10000 : 400), "bhxods"[r.below(6)]);
        s = w;
    }
    if (r.chance(1, 12)) {  // a width written with many digits
        static const char* huge[] = {"18446744073709551616h", "99999999999999999999999999d", "340282366920938463463374b"};
        if (r.chance(1, 6))
            s = huge[r.below(3)];
        else {
            snprintf(w, sizeof w, "%0*u%c", 12 + (int)r.below(14), (unsigned)r.below(r.chance(1, 2) ? 30 : 300), "bhxods"[r.below(6)]);
            s = w;
        }
    }
    len = (uint32_t)strlen(s);
    if (len > cap) len = cap;
    memcpy(buf, s, len);
}
}  // namespace cat
