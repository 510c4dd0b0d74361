// Simulated designs: processes that read and update registers (C09), arrays (C11), and that are
// killed and restarted from durable storage (C08).
//
// One run = registers, processes and a program, executed in a forked child under the scheduler of
// rt.cc.  Every operation of the program is a real operation of the library; a per-bit model (one
// state per declared bit, written from the statement of the properties) executes the same program
// and is compared after every operation.
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "../rt/rt.hh"
#include "reg.hh"

using namespace regs;
using rt::mix;
using rt::Rng;

// ------------------------------------------------------------------ catalogue
namespace regs {
static std::vector<void (*)()>& fns() {
    static std::vector<void (*)()> r;
    return r;
}
Registrar::Registrar(void (*f)()) { fns().push_back(f); }
std::vector<RegType>& types() {
    static std::vector<RegType> t;
    return t;
}
std::vector<ROp>& rops() {
    static std::vector<ROp> o;
    return o;
}
int add_type(const RegType& t) {
    for (size_t i = 0; i < types().size(); i++)
        if (types()[i].name == t.name) return (int)i;
    types().push_back(t);
    return (int)types().size() - 1;
}
void add_op(int kind, int self, int other, int p0, int p1, int p2, const char* variant, OpFn fn) {
    ROp o{kind, self, other, p0, p1, p2, "", fn};
    o.name = std::string(kind_name(kind)) + (variant[0] ? "." : "") + variant + ":" + types()[self].name + (other >= 0 ? ":" + types()[other].name : "");
    rops().push_back(o);
}
}  // namespace regs

namespace {
std::map<std::string, int> g_opidx;
void load_ops() {
    for (auto f : fns()) f();
    auto& v = rops();
    // type ids depend on registration order only; order operations by name
    std::stable_sort(v.begin(), v.end(), [](const ROp& a, const ROp& b) { return a.name < b.name; });
    v.erase(std::unique(v.begin(), v.end(), [](const ROp& a, const ROp& b) { return a.name == b.name; }), v.end());
    for (size_t i = 0; i < v.size(); i++) {
        g_opidx[v[i].name] = (int)i;
        types()[v[i].self].ops.push_back((int)i);
    }
}

// ------------------------------------------------------------------ model
enum : uint8_t { B0 = 0, B1 = 1, BX = 2, BZ = 3 };
using Bits = std::vector<uint8_t>;  // by position, least significant first

int pos_of(const RegType& t, int64_t idx) {
    int64_t p = t.msb >= t.lsb ? idx - t.lsb : t.lsb - idx;
    return p >= 0 && p < t.W ? (int)p : -1;
}
int lo_of(const RegType& t) { return std::min(t.msb, t.lsb); }
int hi_of(const RegType& t) { return std::max(t.msb, t.lsb); }
Bits zext(const Bits& b, int n) {
    Bits r = b;
    r.resize(n, B0);
    return r;
}
// widen (or cut) a register as its signedness says
Bits ext(const Bits& b, bool sgn, int n) {
    Bits r = zext(b, n);
    if (sgn && !b.empty())
        for (int i = (int)b.size(); i < n; i++) r[i] = b.back();
    return r;
}
Bits cut(const Bits& b, int from, int n) {
    Bits r(n, B0);
    for (int i = 0; i < n; i++)
        if (from + i >= 0 && from + i < (int)b.size()) r[i] = b[from + i];
    return r;
}
Bits slice_of(const RegType& t, const Bits& b, int a, int c) {  // declared indices, all in range
    int n = abs(a - c) + 1, p = std::min(t.msb >= t.lsb ? a - t.lsb : t.lsb - a, t.msb >= t.lsb ? c - t.lsb : t.lsb - c);
    return cut(b, p, n);
}
void put_range(const RegType& t, Bits& b, int a, int c, const Bits& src) {
    int s = std::min(a, c), e = std::max(a, c), n = e - s + 1;
    bool desc = t.msb >= t.lsb;
    for (int i = s; i <= e; i++) {
        int p = pos_of(t, i);
        if (p < 0) continue;
        int k = desc ? i - s : n - 1 - (i - s);
        b[p] = k < (int)src.size() ? src[k] : B0;
    }
}
void put_elem(const RegType& t, Bits& b, int e, int count, const Bits& src) {
    for (int i = 0; i < t.elem * count; i++) b[e * t.elem + i] = i < (int)src.size() ? src[i] : B0;
}
Bits deflt(bool four, int n) { return Bits(n, four ? BX : B0); }

struct Expect {
    bool has = false;
    Bits bits;
    bool text = false;
    std::string str;
};
std::string text_of(const Bits& b) {
    std::string s;
    for (size_t i = b.size(); i-- > 0;) s += "01xz"[b[i]];
    return s;
}
Bits from_num(uint64_t n, int bits, int W) {
    Bits r(W, B0);
    for (int i = 0; i < W && i < bits && i < 64; i++) r[i] = (n >> i) & 1;
    return r;
}
// element addressed by an index operand: -1 unknown or out of range
int elem_of(const RegType& t, const ROp& op, const Arg& a) {
    int w = op.p0;
    uint64_t m = w >= 64 ? ~0ull : (1ull << w) - 1;
    if (a.xm & m) return -1;
    if (w > 64 && (a.nhi & ((1ull << (w - 64)) - 1))) return -1;
    uint64_t v = a.n & m;
    int lo = std::min(t.amsb, t.alsb), hi = std::max(t.amsb, t.alsb);
    if (op.p1) {
        int64_t s = (int64_t)(v << (64 - w)) >> (64 - w);
        return s >= lo && s <= hi ? (int)(s - lo) : -1;
    }
    return v < (1ull << 31) && (int64_t)v >= lo && (int64_t)v <= hi ? (int)((int64_t)v - lo) : -1;
}

void model_apply(const ROp& op, const Arg& a, Bits& self, Bits* other_, bool alias, Expect& e) {
    const RegType& t = types()[op.self];
    const RegType* ot = op.other >= 0 ? &types()[op.other] : nullptr;
    Bits src = other_ ? *other_ : Bits();  // the source is read before anything is written
    auto setb = [&](int64_t idx, uint8_t st) {
        int p = pos_of(t, idx);
        if (p >= 0) self[p] = st;
    };
    auto bit_at = [&](const RegType& ty, const Bits& b, int64_t idx) -> uint8_t {
        int p = pos_of(ty, idx);
        return p < 0 ? (ty.is4 ? BX : B0) : b[p];
    };
    auto ret = [&](Bits b) {
        e.has = true;
        e.bits = std::move(b);
    };
    switch (op.kind) {
        case SET: setb(a.i, a.v ? B1 : B0); break;
        case SETL: setb(a.i, t.is4 ? a.st : a.st & 1); break;
        case SETX: setb(a.i, BX); break;
        case SETZ: setb(a.i, BZ); break;
        case SETCT: setb(op.p0, a.v ? B1 : B0); break;
        case SETCT2: setb(op.p0, op.p1 ? B1 : B0); break;
        case SETXCT: setb(op.p0, BX); break;
        case SETZCT: setb(op.p0, BZ); break;
        case UPD: put_range(t, self, a.i, a.j, src); break;
        case HELD:
            put_range(t, self, a.i, a.j, src);
            setb((int)a.n, a.v ? B1 : B0);
            put_range(t, self, a.i, a.j, alias ? Bits(self) : src);
            break;
        case UPDCT: put_range(t, self, op.p0, op.p1, src); break;
        case UPDB: put_range(t, self, a.i, op.p1 ? a.i + op.p0 - 1 : a.i - op.p0 + 1, src); break;
        case IDX: ret({bit_at(t, self, a.i)}); break;
        case GETCT: ret({bit_at(t, self, op.p0)}); break;
        case XSET:
        case ZSET: {
            int p = pos_of(t, a.i);
            ret({(uint8_t)(p >= 0 && self[p] == (op.kind == XSET ? BX : BZ))});
            break;
        }
        case XSETCT: ret({(uint8_t)(bit_at(t, self, op.p0) == BX)}); break;
        case ZSETCT: ret({(uint8_t)(bit_at(t, self, op.p0) == BZ)}); break;
        case SLICE: ret(slice_of(t, self, a.i, a.j)); break;
        case SLICECT: ret(slice_of(t, self, op.p0, op.p1)); break;
        case SLICEB: ret(slice_of(t, self, a.i, op.p1 ? a.i + op.p0 - 1 : a.i - op.p0 + 1)); break;
        case UNPACK: ret(self); break;
        case ASSIGN: self = ext(src, ot->sgn, t.W); break;
        case ASSIGNINT:
        case CTORINT: self = from_num(a.n, op.p0, t.W); break;
        case COPY:
        case MOVE: self = src; break;
        case SWAP: {
            Bits tmp = self;
            self = src;
            *other_ = tmp;
            break;
        }
        case TEXT:
            if (!memchr(a.text, '\'', a.len)) {  // characters
                for (int i = 0; i < t.W; i++) self[i] = (a.text[a.len - 1 - i / 8] >> (i % 8)) & 1;
                break;
            }
            for (int i = 0; i < t.W; i++) {
                char c = a.text[a.len - 1 - i];
                self[i] = c == '1' ? B1 : c == 'x' ? BX : c == 'z' ? BZ : B0;
            }
            break;
        case STR:
            e.text = true;
            e.str = text_of(self);
            break;
        case EXT: ret(ext(self, t.sgn, op.p0)); break;
        case XFER: put_range(t, self, a.i, a.j, slice_of(*ot, src, (int)a.n, (int)a.nhi)); break;
        case XASSIGN: self = zext(op.p1 ? cut(src, 1, op.p0) : slice_of(*ot, src, (int)a.n, (int)a.nhi), t.W); break;
        case XEXT: self = ext(ext(src, ot->sgn, op.p0), ot->sgn, t.W); break;
        case XBIT: setb(a.i, bit_at(*ot, src, a.j)); break;
        case PUPD: {
            int el = elem_of(t, op, a);
            if (el >= 0) put_elem(t, self, el, 1, src);
            break;
        }
        case PIDX: {
            int el = elem_of(t, op, a);
            ret(el < 0 ? deflt(t.is4, t.elem) : cut(self, el * t.elem, t.elem));
            break;
        }
        case PUPDCT:
        case PSLICECT: {
            int lo = std::min(t.amsb, t.alsb), s = std::min(op.p0, op.p1) - lo, n = abs(op.p0 - op.p1) + 1;
            if (op.kind == PUPDCT)
                put_elem(t, self, s, n, src);
            else
                ret(cut(self, s * t.elem, n * t.elem));
            break;
        }
        case UUPDCT: {
            int lo = std::min(t.amsb, t.alsb), hi = std::max(t.amsb, t.alsb);
            if (op.p0 >= lo && op.p0 <= hi) put_elem(t, self, op.p0 - lo, 1, ext(src, ot->sgn, t.elem));
            break;
        }
        case UIDX: {
            int lo = std::min(t.amsb, t.alsb), hi = std::max(t.amsb, t.alsb);
            ret(a.i >= lo && a.i <= hi ? cut(self, (a.i - lo) * t.elem, t.elem) : deflt(t.elem4, t.elem));
            break;
        }
        case UELEM: put_elem(t, self, a.j, 1, ext(src, ot->sgn, t.elem)); break;
        case USET: self[a.j * t.elem + a.i] = a.v ? B1 : B0; break;
    }
}

// ------------------------------------------------------------------ program
constexpr int kMaxItems = 500, kMaxRegs = 28, kMaxPhases = 6, kSlotData = 740;
struct RegInst {
    int type, owner;  // owner: thread, -1: shared by all processes
    uint64_t seed;
};
struct Item {
    int uid = 0, tid = 0, op = -1;  // op -1: save the process's registers
    int self = -1, other = -1;
    uint64_t seed = 0;
};
struct Crash {
    int uid, sub;
    uint32_t k;
};
struct Pre {
    int phase;
    rt::Preempt p;
};
struct Spec {
    std::string prop;
    uint64_t seed = 0, garbage = 0;
    int nth = 1;
    std::vector<RegInst> regs;
    std::vector<Item> items;
    std::vector<Crash> crashes;
    std::vector<Pre> pre;
    rt::SchedCfg cfg;
    bool replay = false;
};
struct Outcome {
    int v = 0, uid = -1;
    std::string msg, op;
    uint64_t hash = 0, sched = 0;
    bool judged = true;
};
struct Slot {
    uint64_t seq, sum;
    int pc, dirty, n;
    int reg[kMaxRegs], len[kMaxRegs], text[kMaxRegs];
    char data[kMaxRegs][kSlotData];
};
enum { C_checks, C_bits, C_oob, C_xidx, C_saves, C_restores, C_torn, C_alias, C_fmt_b, C_fmt_h, C_fmt_d, C_fmt_s, C_ops, C_kinds0, C_N = C_kinds0 + KINDS };
constexpr uint64_t kCovBits = 1u << 21, kStateBits = 1u << 24;
struct Shared {
    rt::Report rep;
    uint64_t cnt[C_N];
    unsigned char opseen[16384 / 8];
    Slot slot[rt::kMaxThreads][2];
};
Shared* g_sh;
unsigned char *g_cover, *g_states;

// the states of n bits: independent, sparse, dense, one-hot, runs that end next to word boundaries,
// one word that differs from the others
void gen_states(Rng& r, uint8_t* b, int n, bool four) {
    int style = (int)r.below(9);
    int base = (int)r.below(4), mark = (int)r.below(4), at = (int)r.below(n), len = 1 + (int)r.below(n), run = 0, cur = 0, unit = r.chance(1, 2) ? 64 : r.chance(1, 2) ? 32 : 8;
    for (int i = 0; i < n; i++) {
        int c;
        switch (style) {
            case 0: c = (int)r.below(4); break;
            case 1: c = (int)r.below(2); break;
            case 2: c = r.chance(1, 8) ? 2 + (int)r.below(2) : (int)r.below(2); break;
            case 3: c = r.chance(1, 8) ? (int)r.below(4) : B0; break;
            case 4: c = 2 + (int)r.below(2); break;
            case 5: c = r.chance(1, 8) ? (int)r.below(4) : B1; break;
            case 6: c = i == at ? mark : base; break;
            case 7:
                if (run-- <= 0) {
                    cur = (int)r.below(4);
                    run = r.chance(1, 2) ? unit - i % unit - 1 : (int)r.below(len);
                    if (r.chance(1, 6)) run += (int)r.below(3) - 1;
                }
                c = cur;
                break;
            default: c = i / unit == at / unit ? (int)r.below(four && (mark & 1) ? 4 : 2) : base; break;
        }
        b[i] = (uint8_t)(four ? c : c & 1);
    }
}
void gen_text(const RegType& t, Rng& r, Arg& a) {
    if (t.W % 8 == 0 && r.chance(1, 4)) {  // characters
        a.len = t.W / 8;
        for (uint32_t i = 0; i < a.len; i++) {
            int c = 0x20 + (int)r.below(0x5f);
            a.text[i] = c == '\'' ? 'q' : c;
        }
        return;
    }
    // a literal: 'b0101 or 4'b0101
    int n = r.chance(1, 2) ? snprintf(a.text, 8, "'b") : snprintf(a.text, 8, "%d'b", t.W);
    a.len = n + t.W;
    uint8_t st[64 * kMaxWords];
    gen_states(r, st, t.W, t.is4);
    for (int i = 0; i < t.W; i++) a.text[n + i] = "01xz"[st[t.W - 1 - i]];
}
int pick_idx(const RegType& t, Rng& r, bool oob) {
    int lo = lo_of(t), hi = hi_of(t);
    if (oob && r.chance(1, 7)) {
        g_sh->cnt[C_oob]++;
        int d = r.chance(1, 3) ? 64 * (1 + (int)r.below(3)) : r.chance(1, 3) ? 32 : r.chance(1, 4) ? 1 + (int)r.below(2000) : 1 + (int)r.below(4);
        return r.chance(1, 2) ? hi + d : lo - d;
    }
    if (r.chance(1, 6)) return lo;
    if (r.chance(1, 6)) return hi;
    if (t.W > 64 && r.chance(1, 4)) return lo + 62 + (int)r.below(std::min(4, t.W - 62));
    return lo + (int)r.below(t.W);
}
void pick_range(const RegType& t, Rng& r, int n, int& a, int& b) {  // n indices, all in range
    int s = lo_of(t) + (int)r.below(t.W - n + 1);
    if (r.chance(1, 5)) s = lo_of(t);
    if (r.chance(1, 5)) s = hi_of(t) - n + 1;
    a = s;
    b = s + n - 1;
    if (r.chance(1, 2)) std::swap(a, b);
}
void pick_target(const RegType& t, Rng& r, int sw, int& a, int& b) {  // written part select
    int n = sw;
    if (t.msb >= t.lsb && r.chance(1, 2)) n = 1 + (int)r.below(r.chance(1, 3) ? t.W : std::min(t.W, 6));
    if (n > t.W) n = t.msb >= t.lsb ? t.W : n;
    int s = lo_of(t) + (n <= t.W ? (int)r.below(t.W - n + 1) : 0);
    if (r.chance(1, 5)) s = hi_of(t) - n + 1;
    if (r.chance(1, 8)) {
        g_sh->cnt[C_oob]++;
        s += r.chance(1, 2) ? 1 + (int)r.below(5) : -1 - (int)r.below(5);
    }
    a = s;
    b = s + n - 1;
    if (r.chance(1, 2)) std::swap(a, b);
}
uint64_t rnd_num(Rng& r) {
    switch (r.below(6)) {
        case 0: return r.next();
        case 1: return r.below(16);
        case 2: return ~0ull;
        case 3: return 1ull << r.below(64);
        case 4: return r.next() & r.next() & r.next();
        default: return ~(1ull << r.below(64));
    }
}
void gen_arg(const ROp& op, uint64_t seed, Arg& a) {
    const RegType& t = types()[op.self];
    const RegType* ot = op.other >= 0 ? &types()[op.other] : nullptr;
    Rng r(mix(seed, 0xA26));
    a.v = (int)r.below(2);
    a.st = (int)r.below(4);
    if (!t.is4) a.st &= 1;
    switch (op.kind) {
        case SET: case SETL: case SETX: case SETZ: case IDX: case XSET: case ZSET: a.i = pick_idx(t, r, true); break;
        case UPD: pick_target(t, r, ot->W, a.i, a.j); break;
        case HELD:
            pick_target(t, r, ot->W, a.i, a.j);
            a.n = (uint64_t)(int64_t)pick_idx(t, r, true);
            break;
        case UPDB: {
            int x, y;
            pick_target(t, r, ot->W, x, y);
            a.i = op.p1 ? std::min(x, y) : std::max(x, y);
            break;
        }
        case SLICE: pick_range(t, r, op.p0, a.i, a.j); break;
        case SLICEB: {
            int x, y;
            pick_range(t, r, op.p0, x, y);
            int s = std::min(x, y);
            if (s < 0) s = 0;
            a.i = op.p1 ? s : s + op.p0 - 1;
            break;
        }
        case ASSIGNINT: case CTORINT:
            a.n = rnd_num(r);
            if (op.p0 < 64) a.n &= (1ull << op.p0) - 1;
            if (t.W == 1) a.n &= 1;  // as a bool
            break;
        case TEXT: gen_text(t, r, a); break;
        case XFER: {
            int x, y;
            pick_range(*ot, r, op.p0, x, y);
            a.n = (uint64_t)(int64_t)x;
            a.nhi = (uint64_t)(int64_t)y;
            pick_target(t, r, op.p0, a.i, a.j);
            break;
        }
        case XASSIGN: {
            int x, y;
            if (op.p1 == 0) {
                pick_range(*ot, r, op.p0, x, y);
                a.n = (uint64_t)(int64_t)x;
                a.nhi = (uint64_t)(int64_t)y;
            }
            break;
        }
        case XBIT:
            a.i = pick_idx(t, r, true);
            a.j = pick_idx(*ot, r, true);
            break;
        case PUPD: case PIDX: {
            int lo = std::min(t.amsb, t.alsb), n = abs(t.amsb - t.alsb) + 1;
            int64_t v = lo + (int)r.below(n);
            if (r.chance(1, 5)) {
                g_sh->cnt[C_oob]++;
                v = r.chance(1, 3) ? (int64_t)rnd_num(r) : r.chance(1, 2) ? lo + n + (int)r.below(4) : lo - 1 - (int)r.below(4);
            }
            a.n = (uint64_t)v;
            if (op.p0 < 64) a.n &= (1ull << op.p0) - 1;
            if (t.W == 1) a.n &= 1;  // as a bool
            if (op.p0 > 64) a.nhi = r.chance(1, 4) ? r.below(1ull << std::min(op.p0 - 64, 8)) : 0;
            if (r.chance(1, 7)) {
                g_sh->cnt[C_xidx]++;
                a.xm = r.chance(1, 2) ? 1ull << r.below(std::min(op.p0, 64)) : rnd_num(r);
                if (op.p0 < 64) a.xm &= (1ull << op.p0) - 1;
            }
            break;
        }
        case UIDX: {
            int lo = std::min(t.amsb, t.alsb), n = abs(t.amsb - t.alsb) + 1;
            a.i = lo + (int)r.below(n);
            if (r.chance(1, 4)) {
                g_sh->cnt[C_oob]++;
                a.i = r.chance(1, 3) ? (int)r.next() >> 2 : r.chance(1, 2) ? lo + n + (int)r.below(4) : lo - 1 - (int)r.below(4);
            }
            break;
        }
        case UELEM: a.j = (int)r.below(abs(t.amsb - t.alsb) + 1); break;
        case USET:
            a.j = (int)r.below(abs(t.amsb - t.alsb) + 1);
            a.i = (int)r.below(t.elem);
            break;
    }
}

// ------------------------------------------------------------------ execution in a child
const Spec* S;
int g_phase;
Crash g_crash;  // the crash of this phase (uid < 0: none)
uint64_t g_poison;
void* g_at[kMaxRegs];
int g_tag[kMaxRegs];
std::vector<Bits> M;  // the model
std::vector<int> g_own[rt::kMaxThreads];  // items of each process

Bits raw_bits(int reg) {
    const RegType& t = types()[S->regs[reg].type];
    uint64_t w[kMaxWords], x[kMaxWords];
    t.read(g_at[reg], w, x);
    Bits b(t.W);
    for (int i = 0; i < t.W; i++) b[i] = ((w[i / 64] >> (i % 64)) & 1) | (((x[i / 64] >> (i % 64)) & 1) << 1);
    return b;
}
Bits init_bits(const RegInst& ri, bool& dflt) {
    const RegType& t = types()[ri.type];
    Rng r(mix(ri.seed, 1));
    dflt = r.chance(1, 3);
    if (dflt) return deflt(t.is4, t.W);
    Bits b(t.W);
    gen_states(r, b.data(), t.W, t.is4);
    return b;
}
void write_raw(int reg, const Bits& b) {
    const RegType& t = types()[S->regs[reg].type];
    uint64_t w[kMaxWords] = {}, x[kMaxWords] = {};
    for (int i = 0; i < t.W; i++) {
        w[i / 64] |= (uint64_t)(b[i] & 1) << (i % 64);
        x[i / 64] |= (uint64_t)(b[i] >> 1) << (i % 64);
    }
    t.write(g_at[reg], w, x);
}
void note_state(int reg, const Bits& b) {
    uint64_t h = mix(S->regs[reg].type, 3);
    for (auto s : b) h = h * 0x100000001B3ull + s + 1;
    rt::log_event(h);
    h = mix(h, 9) % kStateBits;
    g_states[h / 8] |= 1 << (h % 8);
}
void check_reg(int reg, int uid, const char* what) {
    Bits got = raw_bits(reg);
    g_sh->cnt[C_checks]++;
    g_sh->cnt[C_bits] += got.size();
    note_state(reg, got);
    const RegType& t = types()[S->regs[reg].type];
    if (t.clean && !t.clean(g_at[reg]))
        rt::violate(rt::V_model, uid, "%s register r%d (%s) does not compare equal to the value with the same bits %.*s", what, reg, t.name.c_str(), 130,
                    text_of(got).c_str());
    if (got != M[reg])
        rt::violate(rt::V_model, uid, "%s register r%d (%s) holds %.*s, the model %.*s", what, reg, types()[S->regs[reg].type].name.c_str(), 130,
                    text_of(got).c_str(), 130, text_of(M[reg]).c_str());
}
[[noreturn]] void die_now() {
    rt::log_event(0xDEAD);
    rt::g_rep->crashed = 1;
    rt::g_rep->done = 1;
    _exit(0);
}
struct Armed {  // crash inside (or right after) sub-operation `sub` of item `uid`
    bool on;
    Armed(int uid, int sub) : on(g_crash.uid == uid && g_crash.sub == sub) {
        if (on) rt::set_crash(g_crash.k);
    }
    void after() {
        if (on) die_now();
    }
};
const char* exc_name(int e) { return e == 1 ? "std::exception" : "unknown exception"; }
template <typename F>
void guarded(int uid, F f) {
    int exc = 0;
    char what[100] = "";
    rt::poison_stack(mix(g_poison, uid));
    errno = (int)(mix(g_poison, 77 + uid) & 0x7f);
    rt::op_begin(uid);
    try {
        f();
    } catch (const std::exception& e) {
        exc = 1;
        strncpy(what, e.what(), 99);
    } catch (...) {
        exc = 2;
    }
    rt::op_end();
    if (exc) rt::violate(rt::V_threw, uid, "raised %s %s", exc_name(exc), what);
}
bool shared_item(const Item& it) {
    return S->regs[it.self].owner < 0 || (it.other >= 0 && S->regs[it.other].owner < 0);
}
void exec_op(const Item& it) {
    const ROp& op = rops()[it.op];
    Arg a;
    Res r;
    gen_arg(op, it.seed, a);
    g_sh->cnt[C_ops]++;
    g_sh->cnt[C_kinds0 + op.kind]++;
    if ((size_t)it.op < 16384) g_sh->opseen[it.op / 8] |= 1 << (it.op % 8);
    bool shared = shared_item(it);
    bool wr_other = op.kind == SWAP || op.kind == MOVE;
    rt::boundary(it.uid);
    if (shared) rt::nonpreempt(true);
    if (it.other >= 0) rt::own(g_tag[it.other], it.uid, wr_other);
    rt::own(g_tag[it.self], it.uid, true);
    if (it.other == it.self) g_sh->cnt[C_alias]++;
    {
        Armed cr(it.uid, 0);
        guarded(it.uid, [&] { op.fn(g_at[it.self], it.other >= 0 ? g_at[it.other] : nullptr, a, r); });
        cr.after();
    }
    if (it.other >= 0) rt::own(g_tag[it.other], -1, false);
    rt::own(g_tag[it.self], -1, false);
    Expect e;
    Bits before = M[it.self];
    if (it.other == it.self) {
        Bits copy = M[it.self];
        model_apply(op, a, M[it.self], &copy, true, e);
    } else
        model_apply(op, a, M[it.self], it.other >= 0 ? &M[it.other] : nullptr, false, e);
    if (e.has) {
        Bits got(r.n);
        for (int i = 0; i < r.n; i++) got[i] = ((r.w[i / 64] >> (i % 64)) & 1) | (((r.x[i / 64] >> (i % 64)) & 1) << 1);
        g_sh->cnt[C_checks]++;
        g_sh->cnt[C_bits] += got.size();
        if (got != e.bits)
            rt::violate(rt::V_model, it.uid, "read i=%d j=%d n=%lx/%lx of r%d = %.100s returned %.100s, the model says %.100s", a.i, a.j, (unsigned long)a.n,
                        (unsigned long)a.xm, it.self, text_of(before).c_str(), text_of(got).c_str(), text_of(e.bits).c_str());
    }
    if (!r.clean)
        rt::violate(rt::V_model, it.uid, "read i=%d j=%d n=%lx/%lx of r%d = %.100s returned a value that is not equal to the one with the same bits", a.i, a.j,
                    (unsigned long)a.n, (unsigned long)a.xm, it.self, text_of(before).c_str());
    if (e.text) {
        g_sh->cnt[C_checks]++;
        std::string got(r.text, std::min(r.len, (int)sizeof r.text));
        if (got != e.str) rt::violate(rt::V_model, it.uid, "text %.150s, the model says %.150s", got.c_str(), e.str.c_str());
    }
    char w[100];
    snprintf(w, sizeof w, "i=%d j=%d n=%lx/%lx:", a.i, a.j, (unsigned long)a.n, (unsigned long)a.nhi);
    check_reg(it.self, it.uid, w);
    if (it.other >= 0) check_reg(it.other, it.uid, "source");
    if (shared) rt::nonpreempt(false);
}
uint64_t slot_sum(const Slot& s) {
    uint64_t h = mix(s.seq, s.pc);
    for (int i = 0; i < s.n; i++) {
        h = mix(h, mix(s.reg[i], mix(s.len[i], s.text[i])));
        for (int k = 0; k < s.len[i]; k++) h = (h ^ (unsigned char)s.data[i][k]) * 0x100000001B3ull;
    }
    return h | 1;
}
int newest(int tid) {
    int best = -1;
    for (int i = 0; i < 2; i++) {
        const Slot& s = g_sh->slot[tid][i];
        if (s.sum && s.sum == slot_sum(s) && (best < 0 || s.seq > g_sh->slot[tid][best].seq)) best = i;
    }
    return best;
}
void do_save(const Item& it, int pc) {
    int tid = it.tid, cur = newest(tid);
    Slot& s = g_sh->slot[tid][cur == 0 ? 1 : 0];
    s.sum = 0;
    s.dirty = 1;
    s.seq = (cur < 0 ? 0 : g_sh->slot[tid][cur].seq) + 1;
    s.pc = pc;
    s.n = 0;
    int sub = 0;
    for (int reg = 0; reg < (int)S->regs.size(); reg++) {
        if (S->regs[reg].owner != tid) continue;
        const RegType& t = types()[S->regs[reg].type];
        rt::boundary(it.uid);
        uint64_t how = mix(it.seed, reg);
        bool text = t.text && how % 3 != 0, known = true;
        for (auto b : M[reg]) known &= b < BX;
        char base = 'b';  // x and z bits are told apart in binary only
        if (known && how % 5 == 1) base = 'h';
        bool chars = known && t.W % 8 == 0;
        for (int i = 0; chars && i < t.W; i += 8) {
            int c = 0;
            for (int k = 0; k < 8; k++) c |= M[reg][i + k] << k;
            chars = c >= 0x20 && c < 0x7f && c != '\'';
        }
        if (chars && how % 2) base = 's';
        if (known && how % 5 == 2 && t.W <= 64 && !t.sgn) base = 'd';
        int n = s.n;
        Armed cr(it.uid, sub++);
        if (text) {
            Res r;
            rt::own(g_tag[reg], it.uid, false);
            guarded(it.uid, [&] { t.to_text(g_at[reg], r, base); });
            rt::own(g_tag[reg], -1, false);
            cr.after();
            if (r.len < 0 || r.len > kSlotData || r.len > (int)sizeof r.text) rt::violate(rt::V_model, it.uid, "saved text of r%d has %d characters", reg, r.len);
            memcpy(s.data[n], r.text, r.len);
            s.len[n] = r.len;
        } else {
            memcpy(s.data[n], g_at[reg], t.size);
            s.len[n] = (int)t.size;
            cr.after();
        }
        s.text[n] = text ? base : 0;
        s.reg[n] = reg;
        s.n++;
    }
    rt::boundary(it.uid);
    s.dirty = 0;  // flush
    s.sum = slot_sum(s);
    g_sh->cnt[C_saves]++;
    for (int i = 0; i < s.n; i++) check_reg(s.reg[i], it.uid, "saved");
}
void thread_fn(int tid, void*) {
    size_t from = 0;
    if (g_phase > 0) {  // restart from what is durable
        int b = newest(tid);
        int uid = kMaxItems + tid;
        if (b >= 0) {
            Slot& s = g_sh->slot[tid][b];
            from = s.pc;
            for (size_t i = 0; i < from; i++) {
                const Item& it = S->items[g_own[tid][i]];
                if (it.op < 0) continue;
                Arg a;
                Expect e;
                gen_arg(rops()[it.op], it.seed, a);
                Bits copy;
                if (it.other == it.self) copy = M[it.self];
                model_apply(rops()[it.op], a, M[it.self], it.other < 0 ? nullptr : it.other == it.self ? &copy : &M[it.other], it.other == it.self, e);
            }
            for (int i = 0; i < s.n; i++) {
                int reg = s.reg[i];
                const RegType& t = types()[S->regs[reg].type];
                rt::boundary(uid);
                if (s.text[i]) {
                    Arg a;
                    int k = s.text[i] == 's' ? 0 : snprintf(a.text, 8, "'%c", s.text[i]);
                    a.len = k + std::min<int>(s.len[i], sizeof a.text - k);
                    memcpy(a.text + k, s.data[i], a.len - k);
                    g_sh->cnt[C_fmt_b + (s.text[i] == 'h') + 2 * (s.text[i] == 'd') + 3 * (s.text[i] == 's')]++;
                    rt::own(g_tag[reg], uid, true);
                    guarded(uid, [&] { t.from_text(g_at[reg], a); });
                    rt::own(g_tag[reg], -1, false);
                } else
                    memcpy(g_at[reg], s.data[i], t.size);
            }
            g_sh->cnt[C_restores]++;
            for (int i = 0; i < s.n; i++) check_reg(s.reg[i], uid, s.text[i] ? "restored from text" : "restored from bytes");
        }
    }
    for (size_t i = from; i < g_own[tid].size(); i++) {
        const Item& it = S->items[g_own[tid][i]];
        if (it.op < 0)
            do_save(it, (int)i + 1);
        else
            exec_op(it);
    }
}
[[noreturn]] void child(const Spec& s, int phase) {
    S = &s;
    g_phase = phase;
    g_crash = phase < (int)s.crashes.size() ? s.crashes[phase] : Crash{-1, 0, 0};
    uint64_t garbage = mix(s.garbage, phase);
    g_poison = garbage;
    rt::g_rep = &g_sh->rep;
    rt::set_cover(g_cover, kCovBits);
    rt::set_clock(garbage);
    rt::child_begin(garbage);
    Rng pr(mix(garbage, 5));
    std::vector<int> order;
    for (int i = 0; i < (int)s.regs.size(); i++) order.push_back(i);
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[pr.below(i)]);
    uint64_t p = rt::kArenaBase + 256 + pr.below(8) * 8;
    for (int i : order) {
        const RegType& t = types()[s.regs[i].type];
        if (pr.chance(1, 4)) p += 8 * pr.below(9);
        p = (p + t.align - 1) & ~(uint64_t)(t.align - 1);
        g_at[i] = (void*)p;
        p += t.size;
    }
    if (p + 512 > rt::kArenaBase + rt::kArenaSize) rt::violate(rt::V_harness, -1, "arena full");
    Rng g(mix(garbage, 9));
    for (uint64_t q = rt::kArenaBase; q < p + 512; q += 8) *(uint64_t*)q = g.next();
    M.clear();
    for (int i = 0; i < (int)s.regs.size(); i++) {
        const RegType& t = types()[s.regs[i].type];
        bool d;
        Bits b = init_bits(s.regs[i], d);
        t.init(g_at[i]);
        if (!d) write_raw(i, b);
        M.push_back(b);
        g_tag[i] = rt::new_tag(-1, false, s.regs[i].owner < 0);
        rt::tag_range(g_at[i], t.size, g_tag[i]);
    }
    for (auto& v : g_own) v.clear();
    for (int i = 0; i < (int)s.items.size(); i++) g_own[s.items[i].tid].push_back(i);
    rt::SchedCfg cfg = s.cfg;
    cfg.seed = mix(cfg.seed, phase);
    cfg.race = false;
    static std::vector<rt::Preempt> list;
    if (s.replay) {
        for (auto& q : s.pre)
            if (q.phase == phase) list.push_back(q.p);
        cfg.replay = true;
        cfg.list = list.data();
        cfg.nlist = (int)list.size();
    }
    rt::set_budget(3000000);
    for (int i = 0; i < (int)s.regs.size(); i++) {
        bool d;
        init_bits(s.regs[i], d);
        check_reg(i, -1, d ? "default-initialised" : "initialised");
    }
    rt::run_threads(s.nth, thread_fn, nullptr, cfg);
    for (int i = 0; i < (int)s.regs.size(); i++) check_reg(i, -1, "at the end");
    g_sh->rep.done = 1;
    _exit(0);
}

// ------------------------------------------------------------------ statistics
struct Totals {
    uint64_t runs = 0, items = 0, crashes = 0, restarts = 0, discarded = 0, nontrivial = 0, hashsum = 0, rechecked = 0;
    rt::Stats st{};
    std::unordered_set<uint64_t> scheds, opargs;
    std::map<std::string, uint64_t> kinds;
    std::vector<std::string> samples;
} T;
void add_stats(const rt::Stats& a) {
    T.st.accesses += a.accesses;
    T.st.points += a.points;
    T.st.switches += a.switches;
    T.st.static_acc += a.static_acc;
    T.st.heap_acc += a.heap_acc;
    T.st.arena_acc += a.arena_acc;
    T.st.shared_acc += a.shared_acc;
    T.st.guard_inits += a.guard_inits;
    T.st.allocs += a.allocs;
    T.st.forced += a.forced;
    T.st.stalls += a.stalls;
    T.st.steps += a.steps;
    T.st.max_op_steps = std::max(T.st.max_op_steps, a.max_op_steps);
}
std::string op_name(const Spec& s, int uid) {
    if (uid >= kMaxItems) return "restore";
    for (auto& it : s.items)
        if (it.uid == uid) return it.op < 0 ? "save" : rops()[it.op].name;
    return "";
}
bool counts(const std::string& prop, int v) {
    (void)prop;
    switch (v) {
        case rt::V_model:
        case rt::V_threw:
        case rt::V_crashed:
        case rt::V_foreign_write:
        case rt::V_modified: return true;
        case rt::V_foreign_read: return false;  // C03's business
        case rt::V_heap: return prop == "C08";  // a value that refers to another process's memory
        case rt::V_hung: return true;
        default: return false;
    }
}
std::vector<Pre> g_recorded;
Outcome evaluate(Spec& s) {
    Outcome o;
    g_recorded.clear();
    memset(g_sh->slot, 0, sizeof g_sh->slot);
    o.hash = 17;
    o.sched = 5;
    for (int phase = 0; phase < kMaxPhases; phase++) {
        rt::Report& rep = g_sh->rep;
        memset(&rep, 0, sizeof rep);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) child(s, phase);
        if (pid < 0) {
            perror("fork");
            exit(70);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (!rep.done && rep.v == 0) {
            rep.v = rt::V_crashed;
            rep.uid = -1;
            snprintf(rep.msg, sizeof rep.msg, "process ended early (%s %d)", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
            for (int i = 0; i < rt::kMaxThreads; i++)
                if (rep.uid < 0 && rep.cur_uid[i] > 0) rep.uid = rep.cur_uid[i];
        }
        add_stats(rep.st);
        o.hash = mix(o.hash, rep.hash);
        o.sched = mix(o.sched, rep.schedhash);
        for (int i = 0; i < rep.npre; i++) g_recorded.push_back({phase, rep.pre[i]});
        if (rep.v) {
            if (rep.v == rt::V_harness && getenv("SIM_DEBUG")) fprintf(stderr, "harness: %s\n", rep.msg);
            o.v = rep.v;
            o.uid = rep.uid;
            o.msg = (phase ? "after restart " + std::to_string(phase) + ": " : std::string()) + rep.msg;
            o.op = op_name(s, rep.uid);
            o.judged = counts(s.prop, rep.v);
            return o;
        }
        if (!rep.crashed) break;
        T.crashes++;
        T.restarts++;
        // what was written since the last flush survives block by block
        Rng r(mix(s.garbage, 0x7EA2 + phase));
        for (auto& two : g_sh->slot)
            for (auto& sl : two)
                if (sl.dirty) {
                    for (int i = 0; i < sl.n; i++)
                        for (int b = 0; b < sl.len[i]; b += 64)
                            if (r.chance(1, 2)) {
                                for (int k = b; k < std::min(b + 64, sl.len[i]); k++) sl.data[i][k] = (char)r.next();
                                g_sh->cnt[C_torn]++;
                            }
                    if (r.chance(1, 2)) sl.sum = r.next();
                    sl.dirty = 0;
                }
    }
    return o;
}

// ------------------------------------------------------------------ generation
std::vector<int> g_vec, g_arr, g_struct, g_any;
void build_pools() {
    for (int i = 0; i < (int)types().size(); i++) {
        const RegType& t = types()[i];
        if (t.ops.empty()) continue;
        g_any.push_back(i);
        if (t.kind == T_vec) g_vec.push_back(i);
        else g_arr.push_back(i);
        for (const char* n : {"lu[23:0]", "bu[69:0]", "lu[69:0]", "bu[39:0]"})
            if (t.name == n) g_struct.push_back(i);
    }
}
bool field_kind(int k) { return k == UPD || k == UPDCT || k == UPDB || k == HELD || k == SLICE || k == SLICECT || k == SLICEB || k == XFER || k == UNPACK || k == COPY; }
Spec generate(const std::string& prop, uint64_t seed) {
    Spec s;
    s.prop = prop;
    s.seed = seed;
    Rng r(mix(seed, prop[1] * 256 + prop[2]));
    s.garbage = r.next();
    s.nth = prop == "C08" ? 1 + (int)r.below(3) : 1 + (int)r.below(4);
    std::set<int> focus;
    int nf = 1 + (int)r.below(3);
    while (nf--) {
        const std::vector<int>& pool = prop == "C09" ? g_vec : prop == "C11" ? (r.chance(1, 6) && !g_struct.empty() ? g_struct : g_arr) : g_any;
        if (!pool.empty()) focus.insert(pool[r.below(pool.size())]);
    }
    // swarm: a random subset of kinds
    bool on[KINDS];
    int dens = 1 + (int)r.below(4);
    for (auto& b : on) b = r.chance(dens, 4);
    std::vector<int> cand;
    for (int pass = 0; pass < 2 && cand.size() < 4; pass++) {
        cand.clear();
        for (int t : focus)
            for (int o : types()[t].ops) {
                if (!on[rops()[o].kind] && pass == 0) continue;
                if (prop == "C11" && types()[t].kind == T_vec && !field_kind(rops()[o].kind)) continue;
                cand.push_back(o);
            }
    }
    if (cand.empty()) return s;
    // registers: the focus types twice, every source type once - shared or one copy per process
    int mode = prop == "C08" ? 1 : (int)r.below(3);  // 0 all shared, 1 all private, 2 focus shared and sources private
    if (s.nth > 2 && mode != 0) s.nth = 2;
    std::map<int, std::vector<int>> byt[rt::kMaxThreads];  // type -> registers visible to a process
    auto add_reg = [&](int type, bool shared) {
        int copies = shared ? 1 : s.nth;
        if ((int)s.regs.size() + copies > kMaxRegs) return false;
        for (int c = 0; c < copies; c++) {
            RegInst ri{type, shared ? -1 : c, r.next()};
            int id = (int)s.regs.size();
            s.regs.push_back(ri);
            for (int t = 0; t < s.nth; t++)
                if (shared || t == c) byt[t][type].push_back(id);
        }
        return true;
    };
    for (int t : focus) add_reg(t, mode != 1);
    for (int t : focus)
        if (r.chance(2, 3)) add_reg(t, mode != 1);
    // operations that can be used
    std::vector<int> use;
    std::set<int> srcs;
    int want = 1 + (int)r.below(30);
    for (int k = 0; k < want; k++) {
        int o = cand[r.below(cand.size())];
        int ot = rops()[o].other;
        if (ot >= 0 && !byt[0].count(ot)) {
            if (!add_reg(ot, mode == 0)) continue;
            srcs.insert(ot);
        }
        use.push_back(o);
    }
    std::vector<int> feed;  // changes to the sources
    for (int t : srcs)
        for (int o : types()[t].ops)
            if (rops()[o].other < 0 || byt[0].count(rops()[o].other))
                if (prop != "C11" || r.chance(1, 4)) feed.push_back(o);
    if (use.empty()) return s;
    int n = r.chance(1, 4) ? 3 + (int)r.below(12) : r.chance(1, 3) ? 120 + (int)r.below(160) : 20 + (int)r.below(100);
    for (int k = 0; k < n; k++) {
        Item it;
        it.uid = (int)s.items.size();
        it.tid = (int)r.below(s.nth);
        it.op = !feed.empty() && r.chance(1, 4) ? feed[r.below(feed.size())] : use[r.below(use.size())];
        const ROp& op = rops()[it.op];
        auto& a = byt[it.tid][op.self];
        if (a.empty()) continue;
        it.self = a[r.below(a.size())];
        if (op.other >= 0) {
            auto& b = byt[it.tid][op.other];
            if (b.empty()) continue;
            it.other = b[r.below(b.size())];
        }
        it.seed = r.next();
        if (prop == "C08" && r.chance(1, 8)) {
            Item sv;
            sv.uid = it.uid;
            sv.tid = it.tid;
            sv.seed = r.next();
            s.items.push_back(sv);
            it.uid++;
        }
        s.items.push_back(it);
    }
    if (prop == "C08" && !s.items.empty()) {
        std::vector<int> saves;
        for (auto& it : s.items)
            if (it.op < 0) saves.push_back(it.uid);
        int nc = 1 + (int)r.below(4);
        int lo = 0;
        for (int c = 0; c < nc; c++) {
            Crash cr;
            if (!saves.empty() && r.chance(2, 5))
                cr.uid = saves[r.below(saves.size())];
            else
                cr.uid = s.items[lo + r.below(s.items.size() - lo)].uid;
            cr.sub = s.items[cr.uid].op < 0 ? (int)r.below(1 + s.regs.size() / s.nth) : 0;
            cr.k = 1 + (uint32_t)r.below(1ull << r.below(11));
            s.crashes.push_back(cr);
            if (r.chance(1, 2)) lo = std::min<int>(cr.uid, (int)s.items.size() - 1);
        }
    }
    static const uint32_t dens2[] = {2, 4, 10, 30, 100, 400, 2000};
    s.cfg.num = r.chance(1, 12) ? 0 : 1;
    s.cfg.den = dens2[r.below(7)];
    s.cfg.bnum = (uint32_t)r.below(3);
    s.cfg.bden = 3;
    s.cfg.seed = r.next();
    if (r.chance(1, 4) && s.nth > 1) {
        s.cfg.stall_tid = (int)r.below(s.nth);
        s.cfg.stall_at = (uint32_t)r.below(r.chance(1, 2) ? 40 : 400);
    }
    return s;
}

// ------------------------------------------------------------------ replay files
std::string verdict(const Outcome& o) {
    return std::string(rt::vname(o.v)) + " uid " + std::to_string(o.uid) + " hash " + std::to_string(o.hash);
}
std::string save(const Spec& s, const Outcome& o) {
    std::ostringstream f;
    f << "simregs-replay 1\nproperty " << s.prop << "\nseed " << s.seed << "\ngarbage " << s.garbage << "\nthreads " << s.nth << "\n";
    for (size_t i = 0; i < s.regs.size(); i++)
        f << "register " << i << " " << types()[s.regs[i].type].name << " owner " << s.regs[i].owner << " init " << s.regs[i].seed << "\n";
    for (auto& it : s.items)
        f << "op " << it.uid << " thread " << it.tid << " " << (it.op < 0 ? "save" : rops()[it.op].name) << " self " << it.self << " other " << it.other << " args "
          << it.seed << "\n";
    for (auto& c : s.crashes) f << "crash in-op " << c.uid << " part " << c.sub << " at-point " << c.k << "\n";
    for (auto& q : s.pre) {
        auto& p = q.p;
        f << (p.kind == rt::P_env ? "env " : p.kind == 2 ? "stall " : "switch ") << q.phase << " " << p.tid << " in-op " << p.uid << " at-point " << p.k << " to "
          << p.target << "\n";
    }
    f << "expect " << verdict(o) << "\nmessage " << o.msg << "\n";
    return f.str();
}
bool load(const char* path, Spec& s, std::string& expect) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[4096];
    s.replay = true;
    bool ok = true;
    while (fgets(line, sizeof line, f)) {
        std::istringstream in(line);
        std::string k, w, name;
        in >> k;
        if (k == "property") in >> s.prop;
        if (k == "seed") in >> s.seed;
        if (k == "garbage") in >> s.garbage;
        if (k == "threads") in >> s.nth;
        if (k == "register") {
            RegInst ri{-1, 0, 0};
            int id;
            in >> id >> name >> w >> ri.owner >> w >> ri.seed;
            for (size_t i = 0; i < types().size(); i++)
                if (types()[i].name == name) ri.type = (int)i;
            if (ri.type < 0) ok = false;
            s.regs.push_back(ri);
        }
        if (k == "op") {
            Item it;
            in >> it.uid >> w >> it.tid >> name >> w >> it.self >> w >> it.other >> w >> it.seed;
            if (name != "save") {
                auto q = g_opidx.find(name);
                if (q == g_opidx.end())
                    ok = false;
                else
                    it.op = q->second;
            }
            s.items.push_back(it);
        }
        if (k == "crash") {
            Crash c{};
            in >> w >> c.uid >> w >> c.sub >> w >> c.k;
            s.crashes.push_back(c);
        }
        if (k == "env" || k == "stall" || k == "switch") {
            Pre q{};
            in >> q.phase >> q.p.tid >> w >> q.p.uid >> w >> q.p.k >> w >> q.p.target;
            q.p.kind = k == "env" ? rt::P_env : k == "stall" ? 2 : rt::P_switch;
            s.pre.push_back(q);
        }
        if (k == "expect") {
            int uid;
            uint64_t h;
            in >> name >> w >> uid >> w >> h;
            expect = name + " uid " + std::to_string(uid) + " hash " + std::to_string(h);
        }
    }
    fclose(f);
    return ok;
}

// ------------------------------------------------------------------ minimisation
double now_s() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
template <typename V, typename Try>
void shrink(std::vector<V>& v, Try attempt) {
    for (size_t chunk = std::max<size_t>(1, v.size() / 2);; chunk /= 2) {
        for (size_t i = 0; i < v.size();) {
            std::vector<V> keep = v;
            size_t e = std::min(v.size(), i + chunk);
            v.erase(v.begin() + i, v.begin() + e);
            if (!attempt()) {
                v = keep;
                i += chunk;
            }
        }
        if (chunk <= 1) break;
    }
}
Outcome minimise(Spec& s, Outcome o) {
    int evals = 1500;
    double deadline = now_s() + 25;
    Outcome best = o;
    auto attempt = [&]() {
        if (evals-- <= 0 || now_s() > deadline) return false;
        Outcome n = evaluate(s);
        if (n.v == best.v && n.judged && n.op == best.op && n.v) {
            best = n;
            return true;
        }
        return false;
    };
    for (int round = 0; round < 2; round++) {
        shrink(s.crashes, attempt);
        shrink(s.items, attempt);
        shrink(s.pre, attempt);
    }
    // registers nobody uses any more
    Spec keep = s;
    std::vector<int> map(s.regs.size(), -1);
    std::vector<RegInst> left;
    for (size_t i = 0; i < s.regs.size(); i++) {
        bool used = false;
        for (auto& it : s.items) used |= it.self == (int)i || it.other == (int)i;
        for (auto& it : s.items) used |= it.op < 0 && it.tid == s.regs[i].owner;
        if (used) {
            map[i] = (int)left.size();
            left.push_back(s.regs[i]);
        }
    }
    s.regs = left;
    for (auto& it : s.items) {
        if (it.self >= 0) it.self = map[it.self];
        if (it.other >= 0) it.other = map[it.other];
    }
    auto has = [&](int uid) {
        for (auto& it : s.items)
            if (it.uid == uid) return true;
        return uid >= kMaxItems;
    };
    std::erase_if(s.pre, [&](auto& p) { return !has(p.p.uid); });
    evals = 1;
    deadline = now_s() + 5;
    if (!attempt()) s = keep;
    return best;
}
struct Known {
    std::string prop, kind, op;
};
std::vector<Known> g_known;
bool is_known(const std::string& prop, const Outcome& o, int* which) {
    for (size_t i = 0; i < g_known.size(); i++)
        if (g_known[i].prop == prop && g_known[i].kind == rt::vname(o.v) && g_known[i].op == o.op) {
            *which = (int)i;
            return true;
        }
    return false;
}
std::string jesc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if ((unsigned char)c < 32 || (unsigned char)c > 126)
            r += '?';
        else
            r += c;
    }
    return r;
}
}  // namespace

int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; i++) {
        std::string k = argv[i];
        if (k.rfind("--", 0) == 0) a[k.substr(2)] = i + 1 < argc && strncmp(argv[i + 1], "--", 2) ? argv[++i] : "1";
    }
    auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    rt::init();
    try {
        throw 1;
    } catch (int) {
    }
    load_ops();
    build_pools();
    auto shm = [](size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) exit(70);
        return p;
    };
    g_sh = (Shared*)shm(sizeof(Shared));
    g_cover = (unsigned char*)shm(kCovBits / 8);
    g_states = (unsigned char*)shm(kStateBits / 8);
    if (a.count("list")) {
        for (auto& o : rops()) printf("%s\n", o.name.c_str());
        return 0;
    }
    if (a.count("replay")) {
        Spec s;
        std::string expect;
        if (!load(a["replay"].c_str(), s, expect)) {
            printf("REPLAY-ERROR cannot load\n");
            return 4;
        }
        Outcome o = evaluate(s);
        std::string v = verdict(o);
        printf("RESULT %s\nEXPECT %s\nJUDGED %d\nOP %s\nMESSAGE %s\n", v.c_str(), expect.c_str(), o.judged, o.op.c_str(), o.msg.c_str());
        bool same = v == expect || (o.v && o.msg.find("cpu-time") != std::string::npos);
        printf(same ? "REPRODUCED\n" : "DIFFERENT\n");
        return o.v && o.judged ? 1 : 0;
    }
    std::string prop = a["prop"];
    uint64_t base = strtoull(a.count("seed") ? a["seed"].c_str() : "1", nullptr, 0);
    uint64_t start = (uint64_t)num("start", 0), stride = (uint64_t)num("stride", 1);
    uint64_t maxruns = (uint64_t)num("runs", 1e15);
    double deadline = now_s() + num("time", 10);
    std::string out = a["out"];
    if (a.count("known")) {
        std::istringstream in(a["known"]);
        std::string e;
        while (std::getline(in, e, '\x01')) {
            size_t p1 = e.find(':'), p2 = e.find(':', p1 + 1);
            if (p2 != std::string::npos) g_known.push_back({e.substr(0, p1), e.substr(p1 + 1, p2 - p1 - 1), e.substr(p2 + 1)});
        }
    }
    bool survey = a.count("survey");
    std::map<std::string, std::string> seen;
    std::map<int, uint64_t> knownhit;
    bool found = false;
    Outcome viol;
    Spec vspec;
    uint64_t vseed = 0;
    double t0 = now_s();
    int mismatch = 0;
    for (uint64_t n = 0; n < maxruns && now_s() < deadline; n++) {
        uint64_t id = start + n * stride;
        uint64_t seed = mix(base * 0x1000003ull + 17, id);
        Spec s = generate(prop, seed);
        if (s.items.empty()) continue;
        uint64_t cr0 = T.crashes, sw0 = T.st.switches;
        Outcome o = evaluate(s);
        T.runs++;
        T.items += s.items.size();
        T.hashsum += mix(o.hash, id);
        uint64_t wl = 5;
        for (auto& it : s.items) {
            uint64_t h = mix(it.op, mix(it.seed, it.tid));
            wl = mix(wl, mix(h, it.self * 64 + it.other));
            if (T.opargs.size() < 2000000) T.opargs.insert(mix(it.op, it.seed));
        }
        bool nontriv = T.crashes != cr0 || T.st.switches != sw0 || s.items.size() > 1;
        if (T.scheds.size() < 2000000 && !o.v && T.scheds.insert(mix(o.sched, wl)).second && nontriv) T.nontrivial++;
        if (T.samples.size() < 6 && n % 37 == 0) {
            std::string d = "seed " + std::to_string(seed) + ": " + std::to_string(s.nth) + " processes, " + std::to_string(s.regs.size()) + " registers (" +
                            types()[s.regs[0].type].name + ", ...), " + std::to_string(s.items.size()) + " operations, " + std::to_string(T.st.switches - sw0) +
                            " switches, " + std::to_string(T.crashes - cr0) + " crashes";
            T.samples.push_back(d);
        }
        if (n % 50 == 7 && !o.v) {
            Spec s2 = generate(prop, seed);
            Outcome o2 = evaluate(s2);
            T.rechecked++;
            if (o2.hash != o.hash) mismatch++;
        }
        if (!o.v) continue;
        T.kinds[rt::vname(o.v)]++;
        if (!o.judged) {
            T.discarded++;
            if (survey && seen.size() < 400) {
                std::string key = std::string("UNJUDGED ") + rt::vname(o.v) + " " + o.op;
                if (!seen.count(key)) seen[key] = o.msg, printf("%s seed=%llu :: %s\n", key.c_str(), (unsigned long long)seed, o.msg.c_str());
            }
            continue;
        }
        int which = 0;
        if (is_known(prop, o, &which)) {
            knownhit[which]++;
            continue;
        }
        if (survey) {
            std::string key = std::string(rt::vname(o.v)) + " " + o.op;
            if (!seen.count(key)) {
                seen[key] = o.msg;
                printf("%s seed=%llu :: %s\n", key.c_str(), (unsigned long long)seed, o.msg.c_str());
                fflush(stdout);
            }
            continue;
        }
        s.pre = g_recorded;
        s.replay = true;
        Outcome o2 = evaluate(s);
        if (o2.v != o.v || o2.op != o.op) {
            mismatch++;
            fprintf(stderr, "not reproducible: seed %llu %s -> %s\n", (unsigned long long)seed, verdict(o).c_str(), verdict(o2).c_str());
            continue;
        }
        viol = minimise(s, o2);
        vspec = s;
        vseed = seed;
        found = true;
        break;
    }
    double el = now_s() - t0;
    auto pop = [](unsigned char* p, uint64_t bits) {
        uint64_t c = 0;
        for (uint64_t i = 0; i < bits / 8; i++) c += __builtin_popcount(p[i]);
        return c;
    };
    if (found && a.count("replay-out")) {
        FILE* f = fopen(a["replay-out"].c_str(), "w");
        if (f) {
            std::string t = save(vspec, viol);
            fwrite(t.data(), 1, t.size(), f);
            fclose(f);
        }
    }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) return 70;
    auto* c = g_sh->cnt;
    fprintf(f, "{\"found\":%s,\"mismatch\":%d,\"elapsed\":%.3f,\"runs\":%lu,\"items\":%lu,\"discarded\":%lu,", found ? "true" : "false", mismatch, el, T.runs,
            T.items, T.discarded);
    fprintf(f, "\"nontrivial\":%lu,\"rechecked\":%lu,\"hashsum\":%lu,\"scheds\":%zu,\"opargs\":%zu,\"ops_run\":%lu,\"ops_total\":%zu,\"blocks_covered\":%lu,",
            T.nontrivial, T.rechecked, T.hashsum, T.scheds.size(), T.opargs.size(), pop(g_sh->opseen, 16384), rops().size(), pop(g_cover, kCovBits));
    fprintf(f, "\"crashes\":%lu,\"restarts\":%lu,\"torn\":%lu,\"checkpoints\":%lu,\"restores\":%lu,\"oob_index\":%lu,\"x_index\":%lu,\"checked_bits\":%lu,\"model_checks\":%lu,\"states\":%lu,\"aliased\":%lu,\"text_b\":%lu,\"text_h\":%lu,\"text_d\":%lu,\"text_s\":%lu,",
            T.crashes, T.restarts, c[C_torn], c[C_saves], c[C_restores], c[C_oob], c[C_xidx], c[C_bits], c[C_checks], pop(g_states, kStateBits), c[C_alias], c[C_fmt_b], c[C_fmt_h], c[C_fmt_d], c[C_fmt_s]);
#define ST(x) fprintf(f, "\"" #x "\":%lu,", (unsigned long)T.st.x)
    ST(accesses); ST(points); ST(switches); ST(static_acc); ST(heap_acc); ST(arena_acc); ST(shared_acc); ST(guard_inits); ST(allocs); ST(forced); ST(stalls);
    ST(max_op_steps); ST(steps);
    fprintf(f, "\"opkinds\":{");
    bool cm = false;
    for (int k = 0; k < KINDS; k++)
        if (c[C_kinds0 + k]) fprintf(f, "%s\"%s\":%lu", cm ? "," : "", kind_name(k), c[C_kinds0 + k]), cm = true;
    fprintf(f, "},\"kinds\":{");
    cm = false;
    for (auto& k : T.kinds) fprintf(f, "%s\"%s\":%lu", cm ? "," : "", k.first.c_str(), k.second), cm = true;
    fprintf(f, "},\"known\":{");
    cm = false;
    for (auto& k : knownhit) fprintf(f, "%s\"%d\":%lu", cm ? "," : "", k.first, k.second), cm = true;
    fprintf(f, "},\"samples\":[");
    cm = false;
    for (auto& k : T.samples) fprintf(f, "%s\"%s\"", cm ? "," : "", jesc(k).c_str()), cm = true;
    fprintf(f, "],\"viol\":{\"kind\":\"%s\",\"uid\":%d,\"op\":\"%s\",\"msg\":\"%s\",\"seed\":%lu}}\n", rt::vname(viol.v), viol.uid, jesc(viol.op).c_str(),
            jesc(viol.msg).c_str(), vseed);
    if (f != stdout) fclose(f);
    return found ? 1 : mismatch ? 5 : 0;
}
