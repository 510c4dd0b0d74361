// Simulated concurrent callers of the library (C01-C07, C10, C12).
//
// One run = a set of op instances distributed over simulated caller threads, executed in a forked
// child of a process that never ran library code.  The reference for every op instance is the same
// op executed alone in its own pristine child ("solo").  See DESIGN.md.
#include <cxxabi.h>
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <functional>
#include <locale>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include "catalog.hh"

using namespace cat;
using rt::mix;
using rt::Rng;

namespace {
constexpr int kMaxItems = 400;
constexpr uint64_t kCovBits = 1u << 21;

struct Item {
    int uid = 0, tid = 0, op = 0;
    uint64_t seed[kMaxParams] = {};
    int share[kMaxParams] = {-1, -1, -1, -1, -1};
    int rep = -1;  // repetition group (leak rule)
    uint32_t hist = 0;  // operands (bit k: operand k) that earlier operations computed
    bool handler = false;  // executed by a handler that interrupts the thread's other operations
};
enum { A_unload, A_init, A_destroy, A_fork };
struct Act {  // happens right before operation uid
    int uid, kind;
};
struct Spec {
    std::string prop;
    uint64_t seed = 0, garbage = 0, clock = 0;
    int nth = 1;
    std::vector<Item> items;
    std::vector<rt::Fault> faults;
    rt::SchedCfg cfg;
    std::vector<rt::Preempt> pre;
    std::vector<Act> acts;
    bool replay = false, reuse = false;
    bool fresh = false;  // C15: other argument values in every round
};
enum { E_none, E_alloc, E_std, E_other };
struct ItemOut {
    int done;
    int exc;
    uint32_t allocs;
    int net;
    uint32_t points;
    uint64_t steps, stack;
    uint64_t muthash;
    int64_t live;
    int fd;
    Obs obs;
};
struct Shared {
    rt::Report rep;
    int nout;
    int64_t mark[4];  // bytes held after 1/8, 1/4, 1/2 and all rounds
    int fdmark[4];
    ItemOut out[kMaxItems];
};
Shared *g_sh, *g_solo;
unsigned char* g_cover;

struct Solo {
    int v = 0;
    std::string msg, obs;
    int exc = 0;
    uint32_t allocs = 0, points = 0;
    uint64_t steps = 0, stack = 0;
};
struct Outcome {
    int v = 0;
    int uid = -1;
    std::string msg;
    uint64_t hash = 0, sched = 0;
    std::string op;
    bool judged = true;
};

// ------------------------------------------------------------------ ambient environment
struct Grouping : std::numpunct<char> {
    char ts, dp;
    std::string g;
    Grouping(char t, char d, std::string gr) : ts(t), dp(d), g(std::move(gr)) {}
    char do_thousands_sep() const override { return ts; }
    char do_decimal_point() const override { return dp; }
    std::string do_grouping() const override { return g; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
struct OddCtype : std::ctype<char> {  // treats digits as blanks and knows no case
    static const mask* tab() {
        static mask t[table_size];
        memcpy(t, classic_table(), sizeof t);
        for (int c = '0'; c <= '9'; c++) t[c] = space;
        return t;
    }
    OddCtype() : std::ctype<char>(tab()) {}
    char do_toupper(char c) const override { return c; }
    char do_tolower(char c) const override { return c; }
    const char* do_toupper(char*, const char* hi) const override { return hi; }
    const char* do_tolower(char*, const char* hi) const override { return hi; }
};
std::locale* g_loc[4];
int g_loc_now = 0;
constexpr int kEnvKinds = 10;
void env_init() {
    g_loc[0] = new std::locale(std::locale::classic());
    g_loc[1] = new std::locale(std::locale::classic(), new Grouping(',', '.', "\3"));
    g_loc[2] = new std::locale(std::locale::classic(), new Grouping('.', ',', "\1"));
    g_loc[3] = new std::locale(*g_loc[2], new OddCtype());
}
void env_apply(int kind) {
    static const int rounds[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    if (kind < 4) {
        std::locale::global(*g_loc[kind]);
        g_loc_now = kind;
    } else if (kind < 8)
        fesetround(rounds[kind - 4]);
    else if (kind == 8)
        rt::set_clock(0xC10C0000ull + (uint64_t)g_loc_now);
    else
        setlocale(LC_ALL, setlocale(LC_ALL, nullptr)[0] == 'C' && setlocale(LC_ALL, nullptr)[1] == 0 ? "C.UTF-8" : "C");
}
bool g_check_env = false;

// ------------------------------------------------------------------ executing a set of items in a child
struct Slot {
    void* p = nullptr;
};
struct Placed {
    void* arg[kMaxParams];
    void* res;
};
// operands that are put into the same storage again right before each operation starts (histories
// in which a caller reuses its variables and buffers)
struct Refill {
    int k;  // -1: result
    const TypeInfo* t;
    void* p;
    uint64_t seed;
    int tag;
};
std::vector<Refill> g_refill[kMaxItems];
const Spec* g_spec;
std::vector<int> g_idx;
Placed g_placed[kMaxItems];
uint64_t g_poison;
bool g_solo_run;
int g_rounds = 1, g_round = 0;  // C15: the whole history is executed so many times

uint64_t hash_obs(const Obs& o, uint64_t h) {
    for (uint32_t i = 0; i < o.n; i++) h = (h ^ (unsigned char)o.s[i]) * 0x100000001B3ull;
    return h;
}
uint64_t mut_hash(const Item& it, Obs* into) {
    const Op& op = ops()[it.op];
    uint64_t h = 1469598103934665603ull;
    static Obs tmp[1];
    for (int k = 0; k < op.np; k++) {
        if (!op.p[k].mut) continue;
        tmp->n = 0;
        op.p[k].type->observe(g_placed[it.uid].arg[k], *tmp);
        h = hash_obs(*tmp, h);
        if (into) {
            into->ch('|');
            for (uint32_t i = 0; i < tmp->n; i++) into->ch(tmp->s[i]);
        }
    }
    return h;
}
Shared* g_into;

int next_fd() {  // the number the next descriptor gets: grows when descriptors are kept
    int fd = fcntl(2, F_DUPFD, 3);
    if (fd >= 0) close(fd);
    return fd;
}
// C16: an operand that is the outcome of earlier operations.  Alone, the operation gets the value
// with the same bits instead.
struct Maker {
    int op, k;  // k: -1 result, else the operand it updates
};
std::map<const TypeInfo*, std::vector<std::vector<Maker>>> g_makers;  // per family
void compute_operand(const TypeInfo* t, void* dst, uint64_t seed, int depth) {
    Rng r(seed);
    auto f = g_makers.find(t);
    if (f == g_makers.end()) return t->fill(dst, r);
    auto& fam = f->second[r.below(f->second.size())];
    Maker m = fam[r.below(fam.size())];
    const Op& op = ops()[m.op];
    void* a[kMaxParams];
    std::vector<std::vector<uint64_t>> mem(kMaxParams + 1);
    auto room = [&](int k, uint32_t size, uint32_t align) {
        mem[k].resize((size + align) / 8 + 2);
        uint64_t p = (uint64_t)mem[k].data();
        return (void*)((p + align - 1) & ~(uint64_t)(align - 1));
    };
    for (int k = 0; k < op.np; k++) {
        a[k] = room(k, op.p[k].type->size, op.p[k].type->align);
        uint64_t sd = r.next();
        if (depth < 3 && r.chance(1, 3) && op.p[k].type->canon)
            compute_operand(op.p[k].type, a[k], sd, depth + 1);
        else {
            Rng q(sd);
            op.p[k].type->fill(a[k], q);
        }
    }
    void* res = op.result ? room(kMaxParams, op.result->size, op.result->align) : nullptr;
    bool ok = true;
    try {
        op.call(a, res);
    } catch (...) {
        ok = false;
    }
    if (ok && res && m.k >= 0) op.result->destroy(res);
    if (!ok) {
        t->fill(dst, r);
        return;
    }
    memcpy(dst, m.k < 0 ? res : a[m.k], t->size);
}
void exec_item(const Item& it) {
    const Op& op = ops()[it.op];
    Placed& pl = g_placed[it.uid];
    ItemOut& o = g_into->out[it.uid];
    if (!it.handler) rt::boundary(it.uid);
    for (auto& f : g_refill[it.uid]) {
        Span sp[8];
        rt::tag_range(f.p, f.t->size, 0);
        rt::own(f.tag, it.uid, f.k < 0 || op.p[f.k].mut);
        if (f.k >= 0) {
            Rng r(g_spec->fresh && g_round ? mix(f.seed, g_round) : f.seed);
            f.t->fill(f.p, r);
        }
        int n = f.k >= 0 && f.t->spans ? f.t->spans(f.p, sp) : 0;
        for (int j = 0; j < n; j++) rt::tag_range((char*)f.p + sp[j].lo, sp[j].hi - sp[j].lo, f.tag);
        if (!n) rt::tag_range(f.p, f.t->size, f.tag);
    }
    if (it.hist)
        for (int k = 0; k < op.np; k++)
            if (it.hist >> k & 1) {
                compute_operand(op.p[k].type, pl.arg[k], it.seed[k], 0);
                if (g_solo_run) op.p[k].type->canon(pl.arg[k]);
            }
    rt::poison_stack(mix(g_poison, it.uid));
    o.exc = E_none;
    o.obs.n = 0;
    int round0 = fegetround();
    int64_t net0 = rt::net_blocks();
    const char* exname = nullptr;
    errno = (int)(mix(g_poison, 77 + it.uid) & 0x7f);
    rt::op_begin(it.uid);
    try {
        op.call(pl.arg, pl.res);
    } catch (const std::bad_alloc&) {
        o.exc = E_alloc;
    } catch (const std::exception& e) {
        o.exc = E_std;
        exname = typeid(e).name();
    } catch (...) {
        o.exc = E_other;
    }
    rt::op_end();
    o.steps = rt::steps_in_op();
    o.points = rt::points_in_op();
    o.stack = rt::stack_in_op();
    o.allocs = rt::allocs_in_op();
    if (g_spec->prop == "C16" && !o.exc) {  // what counts is the declared bits, not the holder
        if (op.result && op.result->canon) op.result->canon(pl.res);
        for (int k = 0; k < op.np; k++)
            if (op.p[k].mut && op.p[k].type->canon) op.p[k].type->canon(pl.arg[k]);
    }
    if (o.exc) {
        o.obs.str("throws ");
        o.obs.str(o.exc == E_alloc ? "bad_alloc" : exname ? exname : "unknown");
    } else if (op.result) {
        op.result->observe(pl.res, o.obs);
        op.result->destroy(pl.res);
    }
    o.muthash = mut_hash(it, &o.obs);
    o.net = (int)(rt::net_blocks() - net0);
    if (g_spec->prop == "C15") {
        o.live = rt::op_live_bytes();
        o.fd = next_fd();
        rt::log_event((uint64_t)o.live * 64 + o.fd);
    }
    o.done = 1;
    if (g_check_env) {
        if (fegetround() != round0 && rt::points_in_op() == 0) {}
        if (!(std::locale() == *g_loc[g_loc_now]))
            rt::violate(rt::V_diverged, it.uid, "operation changed the global locale");
    }
}
std::vector<int> g_pending[rt::kMaxThreads];  // handler operations not yet executed
int pick_handler(int tid) { return g_pending[tid].empty() ? -1 : g_spec->items[g_pending[tid].front()].uid; }
void run_handler(int uid) {
    for (auto& q : g_pending)
        for (size_t i = 0; i < q.size(); i++)
            if (g_spec->items[q[i]].uid == uid) {
                int n = q[i];
                q.erase(q.begin() + i);
                exec_item(g_spec->items[n]);
                return;
            }
}
void thread_fn(int tid, void*) {
    for (g_round = 1; g_round < g_rounds; g_round++) {  // C15 only; the last round is the one below
        for (int i : g_idx) exec_item(g_spec->items[i]);
        for (int k = 0; k < 3; k++)
            if (g_round == g_rounds >> (3 - k)) {
                g_into->mark[k] = rt::op_live_bytes();
                g_into->fdmark[k] = next_fd();
            }
    }
    g_round = 0;
    for (int i : g_idx) {
        const Item& it = g_spec->items[i];
        if (it.tid != tid || (it.handler && !g_solo_run)) continue;
        if (!g_solo_run)
            for (auto& a : g_spec->acts) {
                if (a.uid != it.uid) continue;
                rt::log_event(0xAC7000 + a.kind);
                if (a.kind == A_unload) rt::statics_unload();
                if (a.kind == A_init) rt::statics_init();
                if (a.kind == A_destroy) rt::statics_destroy();
                if (a.kind == A_fork) rt::forked_child();
            }
        exec_item(it);
    }
    if (g_rounds > 1) {
        g_into->mark[3] = rt::op_live_bytes();
        g_into->fdmark[3] = next_fd();
    }
    while (!g_pending[tid].empty()) run_handler(pick_handler(tid));
}

// runs in the forked child; never returns
[[noreturn]] void child(const Spec& s, const std::vector<int>& idx, Shared* sh, bool solo, uint64_t garbage) {
    g_into = sh;
    g_spec = &s;
    g_idx = idx;
    g_poison = garbage;
    rt::g_rep = &sh->rep;
    rt::set_cover(g_cover, kCovBits);
    rt::set_clock(solo ? s.clock + 1 : s.clock);
    rt::child_begin(garbage);
    for (auto& a : s.acts)
        if (a.kind == A_destroy && s.nth == 1 && !solo) rt::own_thread_exit(true);
    Rng pr(mix(garbage, 5));
    // --- place operands and results, tightly packed and interleaved
    struct Want {
        int item, k;  // k == -1: result; item == -1: shared group k
        const TypeInfo* t;
        uint64_t seed;
    };
    std::vector<Want> want;
    std::map<int, Want> groups;
    std::map<int, void*> gptr;
    bool const reuse = s.reuse && !solo;
    std::map<std::tuple<int, const TypeInfo*, int>, Refill> slots;
    for (int i : idx) {
        const Item& it = s.items[i];
        const Op& op = ops()[it.op];
        g_refill[it.uid].clear();
        if (reuse) {
            std::map<const TypeInfo*, int> nth;
            for (int k = 0; k <= op.np; k++) {
                const TypeInfo* t = k == op.np ? op.result : op.p[k].type;
                if (!t) continue;
                auto key = std::make_tuple(it.tid, t, k == op.np ? -1 : nth[t]++);
                auto f = slots.find(key);
                if (f == slots.end()) {
                    f = slots.emplace(key, Refill{}).first;
                    want.push_back(Want{-2, (int)slots.size(), t, 0});
                    f->second.tag = (int)slots.size();
                }
            }
            continue;
        }
        for (int k = 0; k < op.np; k++) {
            Want w{i, k, op.p[k].type, it.seed[k]};
            if (it.share[k] >= 0 && !op.p[k].mut) {
                w.item = -1;
                w.k = it.share[k];
                groups.emplace(w.k, w);
            } else
                want.push_back(w);
        }
        if (op.result) want.push_back(Want{i, -1, op.result, 0});
    }
    for (auto& g : groups) want.push_back(g.second);
    for (size_t i = want.size(); i > 1; i--) std::swap(want[i - 1], want[pr.below(i)]);
    uint64_t p = rt::kArenaBase + 256 + (pr.below(8) * 8);
    std::vector<uint64_t> at(want.size());
    for (size_t i = 0; i < want.size(); i++) {
        uint64_t al = want[i].t->align ? want[i].t->align : 1;
        if (solo) p += 24;  // alone, foreign bytes surround every operand
        p = (p + al - 1) & ~(al - 1);
        at[i] = p;
        p += want[i].t->size;
    }
    if (p + 512 > rt::kArenaBase + rt::kArenaSize) rt::violate(rt::V_harness, -1, "arena full");
    {
        Rng g(mix(garbage, 9));
        for (uint64_t q = rt::kArenaBase; q < p + 512; q += 8) *(uint64_t*)q = g.next();
    }
    rt::nonpreempt(false);
    for (size_t i = 0; i < want.size(); i++) {
        Want& w = want[i];
        void* a = (void*)at[i];
        int tag;
        if (w.item == -2) {
            for (auto& q : slots)
                if (q.second.tag == w.k && !q.second.p) {
                    q.second.p = a;
                    break;
                }
            continue;
        }
        if (w.item < 0) {
            Rng r(w.seed);
            w.t->fill(a, r);
            tag = rt::new_tag(-1, false, true);
            gptr[w.k] = a;
            for (int j : idx) {
                const Op& op = ops()[s.items[j].op];
                for (int k = 0; k < op.np; k++)
                    if (s.items[j].share[k] == w.k && !op.p[k].mut) {
                        rt::allow(tag, s.items[j].uid, false);
                        g_placed[s.items[j].uid].arg[k] = a;
                        break;
                    }
                for (int k = 0; k < op.np; k++)
                    if (s.items[j].share[k] == w.k && !op.p[k].mut) g_placed[s.items[j].uid].arg[k] = a;
            }
        } else {
            const Item& it = s.items[w.item];
            if (w.k >= 0) {
                Rng r(w.seed);
                w.t->fill(a, r);
                g_placed[it.uid].arg[w.k] = a;
                tag = rt::new_tag(it.uid, ops()[it.op].p[w.k].mut, false);
            } else {
                g_placed[it.uid].res = a;
                tag = rt::new_tag(it.uid, true, false);
            }
        }
        Span sp[8];
        int n = 0;
        if (w.t->spans && !(w.item >= 0 && w.k < 0)) n = w.t->spans(a, sp);
        if (n)
            for (int j = 0; j < n; j++) rt::tag_range((char*)a + sp[j].lo, sp[j].hi - sp[j].lo, tag);
        else
            rt::tag_range(a, w.t->size, tag);
    }
    if (reuse) {
        for (auto& q : slots) q.second.tag = rt::new_tag(-1, false, false);
        for (int i : idx) {
            const Item& it = s.items[i];
            const Op& op = ops()[it.op];
            std::map<const TypeInfo*, int> nth;
            for (int k = 0; k <= op.np; k++) {
                const TypeInfo* t = k == op.np ? op.result : op.p[k].type;
                if (!t) continue;
                Refill f = slots[std::make_tuple(it.tid, t, k == op.np ? -1 : nth[t]++)];
                f.t = t;
                f.k = k == op.np ? -1 : k;
                f.seed = f.k < 0 ? 0 : it.seed[k];
                (f.k < 0 ? g_placed[it.uid].res : g_placed[it.uid].arg[k]) = f.p;
                g_refill[it.uid].push_back(f);
            }
        }
    }
    std::map<int, uint64_t> ghash;
    static Obs tmp;
    for (auto& g : groups) {
        tmp.n = 0;
        g.second.t->observe(gptr[g.first], tmp);
        ghash[g.first] = hash_obs(tmp, 1);
    }
    rt::set_env_hook(env_apply);
    rt::set_intr_hook(pick_handler, run_handler);
    g_solo_run = solo;
    if (!solo)
        for (int i : idx)
            if (s.items[i].handler) g_pending[s.items[i].tid].push_back(i);
    g_check_env = s.prop == "C07";
    rt::SchedCfg cfg = s.cfg;
    if (solo) {
        cfg = rt::SchedCfg();
        cfg.replay = true;
        rt::set_faults(nullptr, 0);
        rt::set_budget(6000000);
        Item* one = const_cast<Item*>(&s.items[idx[0]]);
        one->tid = 0;
    } else {
        rt::set_faults(s.faults.data(), (int)s.faults.size());
        if (s.replay) {
            cfg.replay = true;
            cfg.list = s.pre.data();
            cfg.nlist = (int)s.pre.size();
        }
        rt::set_budget(g_rounds > 1 ? 4000000000ull : 6000000);
    }
    rt::run_threads(solo ? 1 : s.nth, thread_fn, nullptr, cfg);
    for (int i : idx) {
        const Item& it = s.items[i];
        if (sh->rep.forked && !sh->out[it.uid].done) continue;
        if (!reuse && mut_hash(it, nullptr) != sh->out[it.uid].muthash)
            rt::violate(rt::V_modified, it.uid, "a finished operation's destination changed afterwards");
    }
    for (auto& g : groups) {
        tmp.n = 0;
        g.second.t->observe(gptr[g.first], tmp);
        if (hash_obs(tmp, 1) != ghash[g.first]) rt::violate(rt::V_modified, -1, "a shared read-only operand changed");
    }
    sh->rep.done = 1;
    _exit(0);
}
void run_child(const Spec& s, const std::vector<int>& idx, Shared* sh, bool solo, uint64_t garbage) {
    memset(&sh->rep, 0, sizeof sh->rep);
    for (int i : idx) sh->out[s.items[i].uid].done = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) child(s, idx, sh, solo, garbage);
    if (pid < 0) {
        perror("fork");
        exit(70);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!sh->rep.done && sh->rep.v == 0) {
        sh->rep.v = WIFSIGNALED(st) ? rt::V_crashed : rt::V_crashed;
        sh->rep.uid = -1;
        snprintf(sh->rep.msg, sizeof sh->rep.msg, "process ended early (%s %d)", WIFSIGNALED(st) ? "signal" : "exit",
                 WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        for (int i = 0; i < rt::kMaxThreads; i++)
            if (sh->rep.uid < 0 && sh->rep.cur_uid[i] > 0) sh->rep.uid = sh->rep.cur_uid[i];
    }
}

// ------------------------------------------------------------------ statistics
struct Totals {
    uint64_t runs = 0, items = 0, solos = 0, dropped = 0, discarded = 0, known = 0, nontrivial = 0, computed = 0;
    uint64_t hashsum = 0, rechecked = 0, faults_planned = 0, damaged = 0;
    rt::Stats st{};
    std::unordered_set<uint64_t> scheds, opargs;
    std::set<int> opsrun;
    std::map<std::string, uint64_t> kinds;
    uint64_t maxsolo = 0;
    std::string maxsolo_op;
    std::vector<std::string> samples;
    uint64_t acts[4] = {};
} T;
void add_stats(const rt::Stats& a) {
    T.st.accesses += a.accesses;
    T.st.points += a.points;
    T.st.switches += a.switches;
    T.st.static_acc += a.static_acc;
    T.st.heap_acc += a.heap_acc;
    T.st.arena_acc += a.arena_acc;
    T.st.shared_acc += a.shared_acc;
    T.st.atomics += a.atomics;
    T.st.guard_inits += a.guard_inits;
    T.st.guard_waits += a.guard_waits;
    T.st.lock_ops += a.lock_ops;
    T.st.allocs += a.allocs;
    T.st.alloc_fail += a.alloc_fail;
    T.st.env_changes += a.env_changes;
    T.st.forced += a.forced;
    T.st.stalls += a.stalls;
    T.st.clock_reads += a.clock_reads;
    T.st.steps += a.steps;
    T.st.interrupts += a.interrupts;
    T.st.max_op_steps = std::max(T.st.max_op_steps, a.max_op_steps);
}

std::string obs_str(const Obs& o) { return std::string(o.s, o.n); }
std::string item_key(const Item& it) {
    std::string k((const char*)&it.op, sizeof it.op);
    k.append((const char*)it.seed, sizeof it.seed);
    k.append((const char*)&it.hist, sizeof it.hist);
    return k;
}
std::map<std::string, Solo> g_solo_cache;

Solo& solo_of(const Spec& s, int i) {
    std::string key = item_key(s.items[i]);
    auto f = g_solo_cache.find(key);
    if (f != g_solo_cache.end()) return f->second;
    Spec one;
    one.prop = s.prop;
    one.clock = s.clock;
    one.nth = 1;
    one.items.push_back(s.items[i]);
    one.items[0].uid = 0;
    one.items[0].tid = 0;
    for (int k = 0; k < kMaxParams; k++) one.items[0].share[k] = -1;
    run_child(one, {0}, g_solo, true, mix(s.garbage, 0x5010 + s.items[i].op));
    Solo r;
    r.v = g_solo->rep.v;
    r.msg = g_solo->rep.msg;
    if (!r.v) {
        r.obs = obs_str(g_solo->out[0].obs);
        r.exc = g_solo->out[0].exc;
        r.allocs = g_solo->out[0].allocs;
        r.points = g_solo->out[0].points;
        r.steps = g_solo->out[0].steps;
        r.stack = g_solo->out[0].stack;
        T.st.max_stack = std::max(T.st.max_stack, r.stack);
        if (r.steps > T.maxsolo) {
            T.maxsolo = r.steps;
            T.maxsolo_op = ops()[s.items[i].op].name;
        }
    }
    T.solos++;
    return g_solo_cache[key] = r;
}

// C16: the whole program on operands entered directly, in one undisturbed process
bool reference_run(const Spec& s, std::vector<Solo>& ref) {
    Spec one = s;
    one.nth = 1;
    one.faults.clear();
    one.acts.clear();
    std::vector<int> idx;
    for (size_t i = 0; i < one.items.size(); i++) {
        idx.push_back((int)i);
        one.items[i].tid = 0;
    }
    run_child(one, idx, g_solo, true, mix(s.garbage, 0x5016));
    T.solos += idx.size();
    if (g_solo->rep.v) return false;  // one of them cannot be executed: each one for itself, then
    for (auto& it : s.items) {
        Solo r;
        r.obs = obs_str(g_solo->out[it.uid].obs);
        r.exc = g_solo->out[it.uid].exc;
        ref.push_back(r);
    }
    return true;
}

// ------------------------------------------------------------------ judging
bool is_conf(int v) { return v == rt::V_foreign_read || v == rt::V_foreign_write || v == rt::V_heap || v == rt::V_modified; }
constexpr uint64_t kSoloBudget = 4000000;
constexpr uint64_t kStackBudget = 98304;

// does this fate of a lone execution break the property itself?
bool solo_breaks(const std::string& prop, const Op& op, const Solo& r, std::string& why) {
    why = r.msg;
    if (prop == "C02" && r.v == rt::V_modified && (op.flags & F_CONST)) return true;
    if (prop == "C03") return is_conf(r.v) || r.v == rt::V_crashed;
    if (prop == "C06" && (op.flags & F_COMP)) {
        if (r.exc) {
            why = "a value computation " + r.obs;
            return true;
        }
        return r.v == rt::V_crashed;
    }
    if (prop == "C10") {
        if (r.v == 0 && r.steps > kSoloBudget) {
            why = "needs " + std::to_string(r.steps) + " steps";
            return true;
        }
        if (r.v == 0 && r.stack > kStackBudget) {
            why = "needs " + std::to_string(r.stack) + " bytes of stack";
            return true;
        }
        return r.v == rt::V_hung;
    }
    if (prop == "C12" && (op.flags & F_PARSE)) {
        if (r.exc && r.exc != E_std && r.exc != E_alloc) {
            why = "raises something that is not a standard exception";
            return true;
        }
        return is_conf(r.v) || r.v == rt::V_crashed || r.v == rt::V_hung;
    }
    return false;
}
// is a violation of kind v seen in the combined run one of this property?
bool multi_counts(const std::string& prop, int v) {
    if (prop == "C15") return v == rt::V_leak;
    if (prop == "C16") return v == rt::V_diverged || v == rt::V_threw || v == rt::V_crashed;
    switch (v) {
        case rt::V_harness: return false;
        case rt::V_race: return prop == "C01" || prop == "C02";
        case rt::V_leak: return prop == "C05";
        case rt::V_hung: return prop == "C10" || prop == "C01" || prop == "C02" || prop == "C04" || prop == "C12" || prop == "C05" || prop == "C13" || prop == "C14";
        case rt::V_foreign_read:
        case rt::V_foreign_write:
        case rt::V_heap:
        case rt::V_modified: return prop != "C10" && prop != "C06";
        case rt::V_crashed: return prop != "C10";
        case rt::V_diverged:
        case rt::V_threw: return prop != "C10" && prop != "C03";
        default: return false;
    }
}
bool exc_allowed(const Spec& s, const Item& it) {
    if (s.prop != "C05") return false;
    for (auto& f : s.faults)
        if (f.uid == it.uid) return true;
    return false;
}

// C15: what operations hold after their results are gone must stop growing
constexpr int kSoak = 2048;  // executions
uint64_t g_soaks = 0;
Outcome evaluate_growth(Spec& s, const std::function<void(Spec&)>& plan_faults) {
    Outcome o;
    if (plan_faults) plan_faults(s);
    if (s.items.empty()) return o;
    std::vector<int> idx;
    for (size_t i = 0; i < s.items.size(); i++) idx.push_back((int)i);
    auto blame = [&](int v, int uid, const std::string& msg) {
        o.v = v;
        o.uid = uid;
        o.msg = msg;
        for (auto& it : s.items)
            if (it.uid == uid) o.op = ops()[it.op].name;
        o.judged = multi_counts(s.prop, v);
    };
    auto once = [&](int rounds) {
        g_rounds = rounds;
        run_child(s, idx, g_sh, false, s.garbage);
        g_rounds = 1;
        add_stats(g_sh->rep.st);
        T.items += idx.size() * rounds;
        o.hash = mix(o.hash, g_sh->rep.hash);
        o.sched = g_sh->rep.schedhash;
        if (g_sh->rep.v) blame(g_sh->rep.v, g_sh->rep.uid, g_sh->rep.msg);
        return g_sh->rep.v == 0;
    };
    if (!once(1)) return o;
    char b[400];
    if (s.cfg.serial) {
        auto* l = g_sh->rep.live;
        bool grows = s.nth > 2;
        for (int i = 1; i < s.nth; i++) grows &= l[i] > l[i - 1];
        if (grows) {
            snprintf(b, sizeof b, "each of %d threads that executed the same operations and ended left memory behind: %ld, %ld, %ld ... bytes are held", s.nth,
                     (long)l[0], (long)l[1], (long)l[2]);
            blame(rt::V_leak, s.items.back().uid, b);
        }
        return o;
    }
    int n = (int)s.items.size(), worst = 0;
    int64_t first = 0, last = 0, best = -1;
    int fd0 = 0;
    for (int i = 0; i < n; i++) {
        ItemOut& out = g_sh->out[s.items[i].uid];
        if (!out.done) {
            blame(rt::V_harness, s.items[i].uid, "item not executed");
            return o;
        }
        if (i == 0) fd0 = out.fd;
        int64_t before = i ? g_sh->out[s.items[i - 1].uid].live : 0;
        if (i < n / 2)
            first = std::max(first, out.live);
        else if (out.live - before > best)
            best = out.live - before, worst = i;
        last = out.live;
        if (i == n - 1 && (last > first || out.fd > fd0)) {
            g_soaks++;
            int rounds = std::max(8, kSoak / n);
            if (!once(rounds)) return o;
            auto* m = g_sh->mark;
            auto* d = g_sh->fdmark;
            if (m[0] < m[1] && m[1] < m[2] && m[2] < m[3]) {
                snprintf(b, sizeof b, "after %d, %d, %d and %d executions %ld, %ld, %ld and %ld bytes are held by operations that ended", rounds / 8 * n, rounds / 4 * n,
                         rounds / 2 * n, rounds * n, (long)m[0], (long)m[1], (long)m[2], (long)m[3]);
                blame(rt::V_leak, s.items[worst].uid, b);
            } else if (d[0] < d[1] && d[1] < d[2] && d[2] < d[3]) {
                snprintf(b, sizeof b, "file descriptors are kept open: %d, %d, %d, %d", d[0], d[1], d[2], d[3]);
                blame(rt::V_leak, s.items[worst].uid, b);
            }
        }
    }
    return o;
}
// Execute spec; fills outcome.  Items whose lone execution is not clean are removed first (or are
// the violation).
bool g_trace = false;
Outcome evaluate(Spec& s, bool generating, const std::function<void(Spec&)>& plan_faults) {
    if (s.prop == "C15") return evaluate_growth(s, plan_faults);
    Outcome o;
    std::vector<int> idx;
    std::vector<Solo> ref;
    bool const whole = s.prop == "C16" && reference_run(s, ref);
    for (size_t i = 0; i < s.items.size(); i++) {
        if (whole) {
            idx.push_back((int)i);
            continue;
        }
        Item& it = s.items[i];
        Solo& r = solo_of(s, (int)i);
        std::string why;
        const Op& op = ops()[it.op];
        if (solo_breaks(s.prop, op, r, why)) {
            o.v = r.v ? r.v : s.prop == "C10" ? rt::V_hung : rt::V_threw;
            o.uid = it.uid;
            o.msg = "executed alone: " + why;
            o.op = op.name;
            Item keep = it;
            if (generating) {
                s.items = {keep};
                s.items[0].tid = 0;
                s.nth = 1;
                s.faults.clear();
            }
            o.hash = mix(std::hash<std::string>()(o.msg + o.op), 1);
            return o;
        }
        if (r.v)
            T.dropped++;
        else
            idx.push_back((int)i);
    }
    if (plan_faults) plan_faults(s);
    if (idx.empty()) return o;
    run_child(s, idx, g_sh, false, s.garbage);
    rt::Report& rep = g_sh->rep;
    add_stats(rep.st);
    for (auto& x : s.acts) T.acts[x.kind]++;
    T.items += idx.size();
    for (int i : idx) T.computed += __builtin_popcount(s.items[i].hist);
    o.hash = rep.hash;
    o.sched = rep.schedhash;
    for (auto& sp : idx) o.hash = mix(o.hash, g_sh->out[s.items[sp].uid].done ? hash_obs(g_sh->out[s.items[sp].uid].obs, 7) : 0);
    auto blame = [&](int v, int uid, const std::string& msg) {
        o.v = v;
        o.uid = uid;
        o.msg = msg;
        for (auto& it : s.items)
            if (it.uid == uid) o.op = ops()[it.op].name;
    };
    if (rep.v) {
        if (rep.v == rt::V_harness && rep.uid < 0 && getenv("SIM_DEBUG")) fprintf(stderr, "harness: %s\n", rep.msg);
        blame(rep.v, rep.uid, rep.msg);
        o.judged = multi_counts(s.prop, rep.v);
        if (s.prop == "C04" && rep.v == rt::V_race) o.judged = false;
        return o;
    }
    for (int i : idx) {
        Item& it = s.items[i];
        ItemOut& out = g_sh->out[it.uid];
        Solo& r = whole ? ref[i] : solo_of(s, i);
        if (!out.done && rep.forked) continue;  // another thread of the parent process
        if (!out.done) {
            blame(rt::V_harness, it.uid, "item not executed");
            o.judged = false;
            return o;
        }
        if (s.prop == "C10" && out.steps > r.steps * 8 + 20000) {
            blame(rt::V_hung, it.uid, "needs " + std::to_string(out.steps) + " steps next to other threads, " + std::to_string(r.steps) + " alone");
            return o;
        }
        std::string got = obs_str(out.obs);
        if (got == r.obs) continue;
        if (out.exc && exc_allowed(s, it) && out.exc != E_other) continue;
        char b[1200];
        snprintf(b, sizeof b, "observed %.450s  -- %s: %.450s", got.c_str(), s.items[i].hist ? "on the same bits entered directly" : "alone", r.obs.c_str());
        blame(out.exc && !r.exc ? rt::V_threw : rt::V_diverged, it.uid, b);
        o.judged = multi_counts(s.prop, o.v);
        return o;
    }
    if (s.prop == "C05") {
        std::map<int, std::vector<int>> reps;
        for (int i : idx)
            if (s.items[i].rep >= 0) {
                bool faulted = false;
                for (auto& f : s.faults) faulted |= f.uid == s.items[i].uid;
                if (faulted) reps[s.items[i].rep].push_back(i);
            }
        for (auto& g : reps) {
            if (g.second.size() < 3) continue;
            int pos = 0;
            for (int i : g.second) pos += g_sh->out[s.items[i].uid].net > 0;
            if (pos == (int)g.second.size()) {
                blame(rt::V_leak, s.items[g.second.back()].uid, "every failed attempt keeps memory allocated");
                return o;
            }
        }
    }
    return o;
}

// ------------------------------------------------------------------ generation
struct Pools {
    std::vector<int> all, fmt, parse, bad, comp, cons, histc;
    std::map<std::string, std::vector<int>> family;  // name before '<'
    std::vector<std::string> fam_all, fam_fmt, fam_parse, fam_comp, fam_cons, fam_bad, fam_hist;
} P;
void build_pools() {
    auto& v = ops();
    std::set<std::string> fa, ff, fp, fc, fk, fb, fh;
    std::map<const TypeInfo*, std::map<std::string, std::vector<Maker>>> makers;
    for (int i = 0; i < (int)v.size(); i++) {
        std::string f = v[i].name.substr(0, v[i].name.find('<'));
        P.family[f].push_back(i);
        P.all.push_back(i);
        fa.insert(f);
        if (v[i].flags & F_FMT) P.fmt.push_back(i), ff.insert(f);
        if (v[i].flags & F_PARSE) {
            P.parse.push_back(i), fp.insert(f);
            if (f.find("bad") != std::string::npos) P.bad.push_back(i), fb.insert(f);
        }
        if (v[i].flags & F_COMP) P.comp.push_back(i), fc.insert(f);
        bool h = false;
        for (int k = 0; k < v[i].np; k++) {
            h |= v[i].p[k].type->canon != nullptr;
            if (v[i].p[k].mut && v[i].p[k].type->canon) makers[v[i].p[k].type][f].push_back({i, k});
        }
        if (v[i].result && v[i].result->canon) makers[v[i].result][f].push_back({i, -1});
        if (h) P.histc.push_back(i), fh.insert(f);
        if (v[i].flags & F_CONST && v[i].np > 0) P.cons.push_back(i), fk.insert(f);
    }
    auto cp = [](std::set<std::string>& a, std::vector<std::string>& b) { b.assign(a.begin(), a.end()); };
    cp(fa, P.fam_all);
    cp(ff, P.fam_fmt);
    cp(fp, P.fam_parse);
    cp(fc, P.fam_comp);
    cp(fk, P.fam_cons);
    cp(fb, P.fam_bad);
    cp(fh, P.fam_hist);
    for (auto& m : makers)
        for (auto& f : m.second) g_makers[m.first].push_back(f.second);
}
void gen_sched(Spec& s, Rng& r) {
    static const uint32_t dens[] = {2, 4, 10, 30, 100, 400, 2000};
    s.cfg.num = r.chance(1, 12) ? 0 : 1;
    s.cfg.den = dens[r.below(7)];
    s.cfg.bnum = (uint32_t)r.below(3);
    s.cfg.bden = 3;
    s.cfg.seed = r.next();
    if (r.chance(1, 4) && s.nth > 1) {
        s.cfg.stall_tid = (int)r.below(s.nth);
        s.cfg.stall_at = (uint32_t)r.below(r.chance(1, 2) ? 40 : 400);
    }
}
// choose operation and family in swarm fashion
struct Chooser {
    std::vector<int> cand;
    int pick(Rng& r) { return cand[r.below(cand.size())]; }
};
Chooser choose(const std::vector<int>& pool, const std::vector<std::string>& fams, Rng& r) {
    Chooser c;
    int mode = (int)r.below(100);
    if (mode < 35) {  // one family, then possibly one or two members
        const std::string& f = fams[r.below(fams.size())];
        std::vector<int> m;
        for (int i : P.family[f])
            if (std::binary_search(pool.begin(), pool.end(), i)) m.push_back(i);
        int n = 1 + (int)r.below(3);
        while (n-- && !m.empty()) c.cand.push_back(m[r.below(m.size())]);
    } else if (mode < 60) {
        int n = 1 + (int)r.below(3);
        while (n--) {
            const std::string& f = fams[r.below(fams.size())];
            for (int i : P.family[f])
                if (std::binary_search(pool.begin(), pool.end(), i)) c.cand.push_back(i);
        }
    } else if (mode < 80) {
        int n = 2 + (int)r.below(5);
        while (n--) c.cand.push_back(pool[r.below(pool.size())]);
    } else
        c.cand = pool;
    if (c.cand.empty()) c.cand = pool;
    return c;
}
// operand seeds: sometimes drawn from a small pool, so that instances differ in one operand only
struct Seeds {
    int n;
    std::vector<uint64_t> v[kMaxParams];
    Seeds(Rng& r, int per) : n(per) {
        for (auto& x : v)
            for (int i = 0; i < per; i++) x.push_back(r.next());
    }
    void give(Item& it, Rng& r) {
        for (int k = 0; k < kMaxParams; k++) it.seed[k] = n ? v[k][r.below(v[k].size())] : r.next();
        if (r.chance(1, 8)) it.seed[1] = it.seed[0];  // equal operands where the types agree
    }
};

Spec generate(const std::string& prop, uint64_t seed) {
    Spec s;
    s.prop = prop;
    s.seed = seed;
    Rng r(mix(seed, prop[1] * 256 + prop[2]));
    s.garbage = r.next();
    s.clock = r.next();
    auto add = [&](Item it) {
        it.uid = (int)s.items.size();
        s.items.push_back(it);
    };
    int per = r.chance(1, 2) ? 0 : 1 + (int)r.below(3);
    if (prop == "C01" || prop == "C02" || prop == "C10") {
        s.nth = 2 + (int)r.below(3);
        bool sharing = prop == "C02" || (prop == "C10" && r.chance(1, 3));
        Chooser c = prop == "C02" && r.chance(2, 3) ? choose(P.cons, P.fam_cons, r)
                    : r.chance(1, 3)                ? choose(P.fmt, P.fam_fmt, r)
                                                    : choose(P.all, P.fam_all, r);
        if (sharing && per == 0) per = 2;
        Seeds sd(r, per);
        std::map<std::pair<const TypeInfo*, uint64_t>, int> groups;
        int each = 1 + (int)r.below(s.nth == 2 ? 8 : 5);
        bool mirror = r.chance(1, 3);  // all threads do the same list
        std::vector<Item> first;
        for (int t = 0; t < s.nth; t++)
            for (int k = 0; k < each; k++) {
                Item it;
                if (mirror && t > 0)
                    it = first[k];
                else {
                    it.op = c.pick(r);
                    sd.give(it, r);
                    if (sharing) {
                        const Op& op = ops()[it.op];
                        for (int q = 0; q < op.np; q++)
                            if (!op.p[q].mut && r.chance(5, 6)) {
                                auto g = groups.emplace(std::make_pair(op.p[q].type, it.seed[q]), (int)groups.size());
                                it.share[q] = g.first->second;
                            }
                    }
                }
                it.tid = t;
                if (t == 0) first.push_back(it);
                add(it);
            }
        gen_sched(s, r);
        if (prop == "C10") {
            s.cfg.race = false;
            s.cfg.stall_tid = (int)r.below(s.nth);
            s.cfg.stall_at = (uint32_t)r.below(r.chance(1, 2) ? 30 : 300);
        }
    } else if (prop == "C03") {
        s.nth = 1 + (int)r.below(2);
        Chooser c = choose(P.all, P.fam_all, r);
        Seeds sd(r, 0);
        int n = 4 + (int)r.below(12);
        for (int i = 0; i < n; i++) {
            Item it;
            it.op = c.pick(r);
            sd.give(it, r);
            it.tid = (int)r.below(s.nth);
            add(it);
        }
        gen_sched(s, r);
        s.cfg.race = false;
    } else if (prop == "C04") {
        s.nth = r.chance(3, 4) ? 1 : 2;
        Chooser c = r.chance(1, 3) ? choose(P.fmt, P.fam_fmt, r) : r.chance(1, 5) ? choose(P.parse, P.fam_parse, r) : choose(P.all, P.fam_all, r);
        int distinct = 2 + (int)r.below(20);
        std::vector<Item> base;
        if (per == 0 && r.chance(1, 2)) per = 2;
        Seeds sd(r, per);
        for (int i = 0; i < distinct; i++) {
            Item it;
            it.op = c.pick(r);
            sd.give(it, r);
            base.push_back(it);
        }
        int n = r.chance(1, 3) ? distinct + (int)r.below(16) : r.chance(1, 3) ? 200 + (int)r.below(150) : 20 + (int)r.below(80);
        for (int i = 0; i < n; i++) {
            Item it = i < distinct && r.chance(1, 2) ? base[i] : base[r.below(base.size())];
            it.tid = (int)r.below(s.nth);
            add(it);
        }
        s.reuse = r.chance(1, 2);
        s.cfg.num = 0;
        s.cfg.bnum = 1;
        s.cfg.bden = 2;
        s.cfg.seed = r.next();
        s.cfg.race = false;
    } else if (prop == "C05") {
        s.nth = 1 + (int)r.below(3);
        Chooser c = r.chance(5, 6) ? choose(P.fmt, P.fam_fmt, r) : choose(P.parse, P.fam_parse, r);
        Seeds sd(r, per);
        int n = 1 + (int)r.below(4);
        int grp = 0;
        for (int t = 0; t < s.nth; t++)
            for (int i = 0; i < n; i++) {
                Item it;
                it.op = c.pick(r);
                sd.give(it, r);
                it.tid = t;
                int reps = r.chance(2, 3) ? 4 : 1;
                if (reps > 1) it.rep = grp++;
                for (int k = 0; k < reps; k++) add(it);
                it.rep = -1;
            }
        gen_sched(s, r);
        s.cfg.race = false;
        s.cfg.stall_tid = -1;
    } else if (prop == "C06") {
        s.nth = 1 + (int)r.below(2);
        Chooser c = choose(P.comp, P.fam_comp, r);
        Seeds sd(r, 0);
        int n = 6 + (int)r.below(14);
        for (int i = 0; i < n; i++) {
            Item it;
            it.op = c.pick(r);
            sd.give(it, r);
            it.tid = (int)r.below(s.nth);
            add(it);
        }
        gen_sched(s, r);
        s.cfg.race = false;
    } else if (prop == "C07") {
        s.nth = 1 + (int)r.below(2);
        Chooser c = r.chance(3, 5) ? choose(P.fmt, P.fam_fmt, r) : r.chance(1, 3) ? choose(P.parse, P.fam_parse, r) : choose(P.all, P.fam_all, r);
        Seeds sd(r, per);
        int n = 3 + (int)r.below(12);
        for (int i = 0; i < n; i++) {
            Item it;
            it.op = c.pick(r);
            sd.give(it, r);
            it.tid = (int)r.below(s.nth);
            add(it);
        }
        gen_sched(s, r);
        s.cfg.race = false;
        s.cfg.env_kinds = kEnvKinds;
        s.cfg.env_num = 1;
        s.cfg.env_den = r.chance(1, 2) ? 3 : 25;
    } else if (prop == "C13") {
        // the process is being initialised, running, being torn down, or a forked copy
        int mode = (int)r.below(10);
        Chooser c = r.chance(1, 2) ? choose(P.fmt, P.fam_fmt, r) : r.chance(1, 3) ? choose(P.parse, P.fam_parse, r) : choose(P.all, P.fam_all, r);
        if (per == 0 && r.chance(1, 2)) per = 2;
        Seeds sd(r, per);
        gen_sched(s, r);
        s.cfg.race = false;
        s.cfg.stall_tid = -1;
        if (mode < 7) {
            s.nth = 1;
            int distinct = 1 + (int)r.below(6);
            std::vector<Item> base;
            for (int i = 0; i < distinct; i++) {
                Item it;
                it.op = c.pick(r);
                sd.give(it, r);
                base.push_back(it);
            }
            auto some = [&](int act) {
                int n = 1 + (int)r.below(8);
                for (int i = 0; i < n; i++) {
                    if (i == 0 && act >= 0) s.acts.push_back({(int)s.items.size(), act});
                    add(base[r.below(base.size())]);
                }
            };
            if (mode < 5) {
                some(A_unload);
                if (r.chance(2, 3)) some(A_init);
            } else
                some(-1);
            if (mode > 2) some(A_destroy);
        } else {
            s.nth = 2 + (int)r.below(2);
            int n = 2 + (int)r.below(5);
            for (int t = 0; t < s.nth; t++)
                for (int i = 0; i < n; i++) {
                    Item it;
                    it.op = c.pick(r);
                    sd.give(it, r);
                    it.tid = t;
                    add(it);
                }
            s.acts.push_back({(int)r.below(s.items.size()), A_fork});
        }
    } else if (prop == "C14") {
        s.nth = r.chance(3, 4) ? 1 : 2;
        Chooser c = r.chance(1, 3) ? choose(P.fmt, P.fam_fmt, r) : r.chance(1, 5) ? choose(P.parse, P.fam_parse, r) : choose(P.all, P.fam_all, r);
        Chooser h = r.chance(2, 3) ? c : choose(P.all, P.fam_all, r);
        if (per == 0 && r.chance(1, 3)) per = 2;
        Seeds sd(r, per);
        int n = 1 + (int)r.below(4), m = 1 + (int)r.below(8);
        for (int t = 0; t < s.nth; t++)
            for (int i = 0; i < n + m; i++) {
                Item it;
                it.op = i < n ? c.pick(r) : h.pick(r);
                sd.give(it, r);
                it.tid = t;
                it.handler = i >= n;
                add(it);
            }
        gen_sched(s, r);
        static const uint32_t dens[] = {3, 10, 30, 100, 400, 1500};
        s.cfg.intr_num = 1;
        s.cfg.intr_den = dens[r.below(6)];
        s.cfg.race = false;
        s.cfg.stall_tid = -1;
    } else if (prop == "C15") {
        Chooser c = r.chance(1, 3)   ? choose(P.fmt, P.fam_fmt, r)
                    : r.chance(1, 3) ? choose(P.parse, P.fam_parse, r)
                    : r.chance(1, 4) ? choose(P.bad, P.fam_bad, r)
                                     : choose(P.all, P.fam_all, r);
        Seeds sd(r, per);
        s.cfg.num = 0;
        s.cfg.bnum = 0;
        s.cfg.race = false;
        s.reuse = true;
        if (r.chance(1, 4)) {  // threads come and go
            s.nth = 4;
            s.cfg.serial = true;
            int n = 1 + (int)r.below(12);
            std::vector<Item> list;
            for (int i = 0; i < n; i++) {
                Item it;
                it.op = c.pick(r);
                sd.give(it, r);
                list.push_back(it);
            }
            for (int t = 0; t < s.nth; t++)
                for (auto it : list) {
                    it.tid = t;
                    add(it);
                }
        } else {
            s.nth = 1;
            s.fresh = r.chance(1, 2);
            int distinct = 1 + (int)r.below(6), n = 2 * distinct + (int)r.below(60);
            std::vector<Item> base;
            for (int i = 0; i < distinct; i++) {
                Item it;
                it.op = c.pick(r);
                sd.give(it, r);
                base.push_back(it);
            }
            for (int i = 0; i < n; i++) {
                Item it = base[i % distinct];
                if (s.fresh) sd.give(it, r);
                add(it);
            }
        }
    } else if (prop == "C16") {
        s.nth = 1 + (int)r.below(2);
        Chooser c = choose(P.histc, P.fam_hist, r);
        Seeds sd(r, 0);
        int n = 6 + (int)r.below(150);
        for (int i = 0; i < n; i++) {
            Item it;
            it.op = c.pick(r);
            sd.give(it, r);
            it.tid = (int)r.below(s.nth);
            const Op& op = ops()[it.op];
            for (int k = 0; k < op.np; k++)
                if (op.p[k].type->canon && g_makers.count(op.p[k].type) && r.chance(3, 4)) it.hist |= 1u << k;
            add(it);
        }
        gen_sched(s, r);
        s.cfg.race = false;
    } else if (prop == "C12") {
        s.nth = 1 + (int)r.below(2);
        Chooser c = r.chance(2, 3) ? choose(P.bad, P.fam_bad, r) : choose(P.parse, P.fam_parse, r);
        Chooser g = choose(P.parse, P.fam_parse, r);
        Seeds sd(r, 0);
        int n = 3 + (int)r.below(10);
        for (int i = 0; i < n; i++) {
            Item it;
            it.op = r.chance(2, 3) ? c.pick(r) : g.pick(r);
            sd.give(it, r);
            it.tid = (int)r.below(s.nth);
            add(it);
        }
        gen_sched(s, r);
        s.cfg.race = false;
    }
    return s;
}
// faults depend on how many allocations the op makes alone
void plan_faults(Spec& s) {
    Rng r(mix(s.seed, 0xFA017));
    if (s.prop == "C06") {
        for (auto& it : s.items)
            if (r.chance(4, 5) && (int)s.faults.size() < rt::kMaxFaults) s.faults.push_back({it.uid, 1, 1});
    }
    if (s.prop == "C15" && !s.cfg.serial && r.chance(1, 2)) {  // some of the attempts fail
        for (auto& it : s.items)
            if (r.chance(1, 3) && (int)s.faults.size() < rt::kMaxFaults) s.faults.push_back({it.uid, (int)r.below(2), 1 + (uint32_t)r.below(6)});
    }
    if (s.prop == "C05") {
        for (size_t i = 0; i < s.items.size(); i++) {
            Item& it = s.items[i];
            Solo& so = solo_of(s, (int)i);
            bool head = it.rep < 0 || i == 0 || s.items[i - 1].rep != it.rep;
            if (!head) continue;
            if (so.allocs == 0 && r.chance(3, 4)) continue;
            rt::Fault f{it.uid, (int)r.below(3), 0};
            if (f.mode == 2)
                f.n = 16u << r.below(6);
            else
                f.n = 1 + (uint32_t)r.below(so.allocs + 1);
            if (it.rep < 0) {
                if (r.chance(1, 2)) s.faults.push_back(f);
                continue;
            }
            for (int k = 0; k < 3; k++) {  // the fourth attempt is not faulted
                f.uid = it.uid + k;
                if ((int)s.faults.size() < rt::kMaxFaults) s.faults.push_back(f);
            }
        }
    }
    T.faults_planned += s.faults.size();
}

// ------------------------------------------------------------------ replay files
std::string save(const Spec& s, const Outcome& o) {
    std::ostringstream f;
    f << "simops-replay 1\nproperty " << s.prop << "\nseed " << s.seed << "\ngarbage " << s.garbage << "\nclock " << s.clock
      << "\nthreads " << s.nth << "\nrace " << (s.cfg.race ? 1 : 0) << "\n";
    if (s.reuse) f << "reuse 1\n";
    if (s.fresh) f << "fresh 1\n";
    if (s.cfg.serial) f << "serial 1\n";
    for (auto& it : s.items) {
        f << (it.handler ? "handler " : "op ") << it.uid << " thread " << it.tid << " rep " << it.rep << " " << ops()[it.op].name;
        for (int k = 0; k < kMaxParams; k++) f << " " << it.seed[k] << " " << it.share[k];
        if (it.hist) f << " computed " << it.hist;
        f << "\n";
    }
    for (auto& p : s.pre)
        f << (p.kind == rt::P_env ? "env " : p.kind == rt::P_intr ? "interrupt " : p.kind == 2 ? "stall " : "switch ") << p.tid << " in-op " << p.uid << " at-point " << p.k
          << " to " << p.target << "\n";
    static const char* an[] = {"unload", "init", "destroy", "fork"};
    for (auto& x : s.acts) f << "before-op " << x.uid << " " << an[x.kind] << "\n";
    for (auto& x : s.faults) f << "allocfail " << x.uid << " mode " << x.mode << " n " << x.n << "\n";
    f << "expect " << rt::vname(o.v) << " uid " << o.uid << " hash " << o.hash << "\n";
    f << "message " << o.msg << "\n";
    return f.str();
}
bool load(const char* path, Spec& s, std::string& expect) {
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[4096];
    s.replay = true;
    while (fgets(line, sizeof line, f)) {
        std::istringstream in(line);
        std::string k, w, name;
        in >> k;
        if (k == "property") in >> s.prop;
        if (k == "seed") in >> s.seed;
        if (k == "garbage") in >> s.garbage;
        if (k == "clock") in >> s.clock;
        if (k == "threads") in >> s.nth;
        if (k == "race") {
            int b;
            in >> b;
            s.cfg.race = b;
        }
        if (k == "reuse") s.reuse = true;
        if (k == "fresh") s.fresh = true;
        if (k == "serial") s.cfg.serial = true;
        if (k == "before-op") {
            Act x{};
            in >> x.uid >> name;
            x.kind = name == "unload" ? A_unload : name == "init" ? A_init : name == "destroy" ? A_destroy : A_fork;
            s.acts.push_back(x);
        }
        if (k == "op" || k == "handler") {
            Item it;
            it.handler = k == "handler";
            in >> it.uid >> w >> it.tid >> w >> it.rep >> name;
            auto q = op_index().find(name);
            if (q == op_index().end()) {
                fclose(f);
                return false;
            }
            it.op = q->second;
            for (int i = 0; i < kMaxParams; i++) in >> it.seed[i] >> it.share[i];
            if (in >> w && w == "computed") in >> it.hist;
            s.items.push_back(it);
        }
        if (k == "env" || k == "stall" || k == "switch" || k == "interrupt") {
            rt::Preempt p{};
            in >> p.tid >> w >> p.uid >> w >> p.k >> w >> p.target;
            p.kind = k == "env" ? rt::P_env : k == "interrupt" ? rt::P_intr : k == "stall" ? 2 : rt::P_switch;
            s.pre.push_back(p);
        }
        if (k == "allocfail") {
            rt::Fault x{};
            in >> x.uid >> w >> x.mode >> w >> x.n;
            s.faults.push_back(x);
        }
        if (k == "expect") {
            int uid;
            uint64_t h;
            in >> name >> w >> uid >> w >> h;
            expect = name + " uid " + std::to_string(uid) + " hash " + std::to_string(h);
        }
    }
    fclose(f);
    return true;
}
std::string verdict(const Outcome& o) {
    return std::string(rt::vname(o.v)) + " uid " + std::to_string(o.uid) + " hash " + std::to_string(o.hash);
}

// ------------------------------------------------------------------ minimisation
struct Budget {
    int evals = 400;
    double deadline = 0;
};
double now_s() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
template <typename V, typename Try>
void shrink(std::vector<V>& v, Try attempt) {
    for (size_t chunk = std::max<size_t>(1, v.size() / 2);; chunk /= 2) {
        for (size_t i = 0; i < v.size();) {
            std::vector<V> keep = v;
            size_t e = std::min(v.size(), i + chunk);
            v.erase(v.begin() + i, v.begin() + e);
            if (!attempt()) {
                v = keep;
                i += chunk;
            }
        }
        if (chunk <= 1) break;
    }
}
Outcome minimise(Spec& s, Outcome o) {
    Budget b;
    b.deadline = now_s() + 25;
    Outcome best = o;
    auto attempt = [&]() {
        if (b.evals-- <= 0 || now_s() > b.deadline) return false;
        Spec t = s;
        Outcome n = evaluate(t, false, nullptr);
        if (n.v == best.v && n.judged && n.op == best.op && n.v) {
            best = n;
            return true;
        }
        return false;
    };
    for (int round = 0; round < 2; round++) {
        shrink(s.items, attempt);
        shrink(s.pre, attempt);
        shrink(s.faults, attempt);
        shrink(s.acts, attempt);
    }
    // drop what refers to deleted items
    Spec keep = s;
    auto has = [&](int uid) {
        for (auto& it : s.items)
            if (it.uid == uid) return true;
        return false;
    };
    std::erase_if(s.pre, [&](auto& p) { return !has(p.uid); });
    std::erase_if(s.faults, [&](auto& p) { return !has(p.uid); });
    b.evals = 1;
    if (!attempt()) s = keep;
    return best;
}

uint64_t g_known_hits = 0;
struct Known {
    std::string prop, kind, op;
};
std::vector<Known> g_known;
bool is_known(const std::string& prop, const Outcome& o, int* which) {
    for (size_t i = 0; i < g_known.size(); i++)
        if (g_known[i].prop == prop && g_known[i].kind == rt::vname(o.v) && g_known[i].op == o.op) {
            *which = (int)i;
            return true;
        }
    return false;
}
std::string jesc(const std::string& s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if ((unsigned char)c < 32 || (unsigned char)c > 126)
            r += '?';
        else
            r += c;
    }
    return r;
}
}  // namespace

int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; i++) {
        std::string k = argv[i];
        if (k.rfind("--", 0) == 0) a[k.substr(2)] = i + 1 < argc && strncmp(argv[i + 1], "--", 2) ? argv[++i] : "1";
    }
    auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
    rt::init();
    try {
        throw 1;  // let the unwinder build its tables once, before any child exists
    } catch (int) {
    }
    env_init();
    load_catalog();
    build_pools();
    auto shm = [](size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) exit(70);
        return p;
    };
    g_sh = (Shared*)shm(sizeof(Shared));
    g_solo = (Shared*)shm(sizeof(Shared));
    g_cover = (unsigned char*)shm(kCovBits / 8);

    if (a.count("list")) {
        for (auto& o : ops()) printf("%s\n", o.name.c_str());
        return 0;
    }
    if (a.count("audit")) {  // which operations leave bits beyond the declared ones
        for (auto& f : g_makers)
            for (auto& v : f.second)
                for (auto& m : v) {
                    Op& op = ops()[m.op];
                    if (op.name.find("bad") != std::string::npos) continue;
                    const TypeInfo* t = f.first;
                    uint64_t buf[6][256];
                    pid_t pid = fork();
                    if (pid == 0) {
                        for (int n = 0; n < 300; n++) {
                            void* arg[kMaxParams];
                            Rng r(mix(n, 77));
                            for (int k = 0; k < op.np; k++) op.p[k].type->fill(arg[k] = buf[k], r);
                            try { op.call(arg, buf[5]); } catch (...) { continue; }
                            uint64_t c[256];
                            void* src = m.k < 0 ? (void*)buf[5] : arg[m.k];
                            memset(c, 0, sizeof c);
                            memcpy(c, src, t->size);
                            uint64_t o0 = c[0];
                            t->canon(c);
                            if (memcmp(c, src, t->size)) {
                                printf("UNCLEAN %s k=%d n=%d raw %016lx canon %016lx\n", op.name.c_str(), m.k, n, o0, c[0]);
                                break;
                            }
                        }
                        fflush(stdout);
                        _exit(0);
                    }
                    int st; waitpid(pid, &st, 0);
                    if (st) printf("DIED %s\n", op.name.c_str());
                    fflush(stdout);
                }
        return 0;
    }
    if (a.count("replay")) {
        Spec s;
        std::string expect;
        if (!load(a["replay"].c_str(), s, expect)) {
            printf("REPLAY-ERROR cannot load\n");
            return 4;
        }
        Outcome o = evaluate(s, false, nullptr);
        std::string v = verdict(o);
        printf("RESULT %s\nEXPECT %s\nJUDGED %d\nOP %s\nMESSAGE %s\n", v.c_str(), expect.c_str(), o.judged, o.op.c_str(), o.msg.c_str());
        bool same = v == expect || (o.v && o.msg.find("cpu-time") != std::string::npos);
        printf(same ? "REPRODUCED\n" : "DIFFERENT\n");
        return o.v && o.judged ? 1 : 0;
    }
    std::string prop = a["prop"];
    uint64_t base = strtoull(a.count("seed") ? a["seed"].c_str() : "1", nullptr, 0);
    uint64_t start = (uint64_t)num("start", 0), stride = (uint64_t)num("stride", 1);
    uint64_t maxruns = (uint64_t)num("runs", 1e15);
    double deadline = now_s() + num("time", 10);
    std::string out = a["out"];
    if (a.count("known")) {
        std::istringstream in(a["known"]);  // prop:kind:op;...
        std::string e;
        while (std::getline(in, e, '\x01')) {
            size_t p1 = e.find(':'), p2 = e.find(':', p1 + 1);
            if (p2 != std::string::npos) g_known.push_back({e.substr(0, p1), e.substr(p1 + 1, p2 - p1 - 1), e.substr(p2 + 1)});
        }
    }
    bool survey = a.count("survey");
    std::map<std::string, std::string> seen;
    std::map<int, uint64_t> knownhit;
    bool found = false;
    Outcome viol;
    Spec vspec;
    uint64_t vseed = 0;
    double t0 = now_s();
    int mismatch = 0;
    for (uint64_t n = 0; n < maxruns && now_s() < deadline; n++) {
        uint64_t id = start + n * stride;
        uint64_t seed = mix(base * 0x1000003ull + 17, id);
        g_solo_cache.clear();
        Spec s = generate(prop, seed);
        Outcome o = evaluate(s, true, plan_faults);
        T.runs++;
        T.hashsum += mix(o.hash, id);
        uint64_t wl = 5;  // the workload: which operation on which arguments, in which order, on which thread
        for (auto& it : s.items) wl = mix(wl, mix(std::hash<std::string>()(item_key(it)), it.tid));
        for (auto& x : s.faults) wl = mix(wl, mix(x.uid, mix(x.mode, x.n)));
        for (auto& x : s.acts) wl = mix(wl, mix(x.uid, 77 + x.kind));
        bool nontriv = g_sh->rep.st.switches || g_sh->rep.st.alloc_fail || g_sh->rep.st.env_changes || s.items.size() > 1;
        if (T.scheds.size() < 2000000 && !o.v && T.scheds.insert(mix(g_sh->rep.schedhash, wl)).second && nontriv) T.nontrivial++;
        for (auto& it : s.items) {
            if (T.opargs.size() < 2000000) T.opargs.insert(mix(std::hash<std::string>()(item_key(it)), 11));
            T.opsrun.insert(it.op);
            if (ops()[it.op].name.find("bad") != std::string::npos) T.damaged++;
        }
        if (T.samples.size() < 6 && n % 37 == 0 && !s.items.empty()) {
            std::string d = "seed " + std::to_string(seed) + ": " + std::to_string(s.nth) + " threads, " + std::to_string(s.items.size()) +
                            " ops (" + ops()[s.items[0].op].name + ", ...), " + std::to_string(g_sh->rep.st.switches) + " switches, " +
                            std::to_string(g_sh->rep.st.alloc_fail) + " failed allocations, " + std::to_string(g_sh->rep.st.env_changes) +
                            " environment changes";
            T.samples.push_back(d);
        }
        if (n % 50 == 7 && !o.v) {  // determinism: the same seed again must give the same execution
            std::vector<rt::Preempt> none;
            g_solo_cache.clear();
            Spec s2 = generate(prop, seed);
            Outcome o2 = evaluate(s2, true, plan_faults);
            T.rechecked++;
            if (o2.hash != o.hash) mismatch++;
        }
        if (!o.v) continue;
        T.kinds[rt::vname(o.v)]++;
        if (!o.judged) {
            T.discarded++;
            if (survey && seen.size() < 400) {
                std::string key = std::string("UNJUDGED ") + rt::vname(o.v) + " " + o.op;
                if (!seen.count(key)) seen[key] = o.msg, printf("%s seed=%llu :: %s\n", key.c_str(), (unsigned long long)seed, o.msg.c_str());
            }
            continue;
        }
        int which = 0;
        if (is_known(prop, o, &which)) {
            knownhit[which]++;
            continue;
        }
        if (survey) {
            std::string key = std::string(rt::vname(o.v)) + " " + o.op;
            if (!seen.count(key)) {
                seen[key] = o.msg;
                printf("%s seed=%llu :: %s\n", key.c_str(), (unsigned long long)seed, o.msg.c_str());
                fflush(stdout);
            }
            continue;
        }
        // turn the recorded decisions into an explicit list and confirm
        if (!s.items.empty()) {
            s.pre.assign(g_sh->rep.pre, g_sh->rep.pre + (o.msg.rfind("executed alone", 0) == 0 ? 0 : g_sh->rep.npre));
            s.replay = true;
            Spec t = s;
            Outcome o2 = evaluate(t, false, nullptr);
            if (o2.v != o.v || o2.op != o.op) {
                mismatch++;
                fprintf(stderr, "not reproducible: seed %llu %s -> %s\n", (unsigned long long)seed, verdict(o).c_str(), verdict(o2).c_str());
                continue;
            }
            o = o2;
        }
        viol = minimise(s, o);
        vspec = s;
        vseed = seed;
        found = true;
        break;
    }
    double el = now_s() - t0;
    uint64_t cov = 0;
    for (uint64_t i = 0; i < kCovBits / 8; i++) cov += __builtin_popcount(g_cover[i]);
    if (found && a.count("replay-out")) {
        FILE* f = fopen(a["replay-out"].c_str(), "w");
        if (f) {
            std::string t = save(vspec, viol);
            fwrite(t.data(), 1, t.size(), f);
            fclose(f);
        }
    }
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) return 70;
    fprintf(f, "{\"found\":%s,\"mismatch\":%d,\"elapsed\":%.3f,\"runs\":%lu,\"items\":%lu,\"solos\":%lu,\"dropped\":%lu,\"discarded\":%lu,", found ? "true" : "false",
            mismatch, el, T.runs, T.items, T.solos, T.dropped, T.discarded);
    fprintf(f, "\"nontrivial\":%lu,\"rechecked\":%lu,\"hashsum\":%lu,\"scheds\":%zu,\"opargs\":%zu,\"ops_run\":%zu,\"ops_total\":%zu,\"blocks_covered\":%lu,", T.nontrivial,
            T.rechecked, T.hashsum, T.scheds.size(), T.opargs.size(), T.opsrun.size(), ops().size(), cov);
    fprintf(f, "\"faults_planned\":%lu,\"damaged\":%lu,\"max_solo_steps\":%lu,\"max_solo_op\":\"%s\",", T.faults_planned, T.damaged, T.maxsolo, jesc(T.maxsolo_op).c_str());
#define ST(x) fprintf(f, "\"" #x "\":%lu,", (unsigned long)T.st.x)
    ST(accesses); ST(points); ST(switches); ST(static_acc); ST(heap_acc); ST(arena_acc); ST(shared_acc); ST(atomics);
    ST(guard_inits); ST(guard_waits); ST(lock_ops); ST(allocs); ST(alloc_fail); ST(env_changes); ST(forced); ST(stalls);
    ST(clock_reads); ST(max_op_steps); ST(steps); ST(interrupts); ST(max_stack);
    fprintf(f, "\"soaks\":%lu,\"computed\":%lu,", g_soaks, T.computed);
    fprintf(f, "\"statics_unloaded\":%lu,\"initialisers_run\":%lu,\"destructors_run\":%lu,\"forks\":%lu,", T.acts[0], T.acts[1], T.acts[2], T.acts[3]);
    fprintf(f, "\"kinds\":{");
    bool c = false;
    for (auto& k : T.kinds) fprintf(f, "%s\"%s\":%lu", c ? "," : "", k.first.c_str(), k.second), c = true;
    fprintf(f, "},\"known\":{");
    c = false;
    for (auto& k : knownhit) fprintf(f, "%s\"%d\":%lu", c ? "," : "", k.first, k.second), c = true;
    fprintf(f, "},\"samples\":[");
    c = false;
    for (auto& k : T.samples) fprintf(f, "%s\"%s\"", c ? "," : "", jesc(k).c_str()), c = true;
    fprintf(f, "],\"viol\":{\"kind\":\"%s\",\"uid\":%d,\"op\":\"%s\",\"msg\":\"%s\",\"seed\":%lu}}\n", rt::vname(viol.v), viol.uid, jesc(viol.op).c_str(),
            jesc(viol.msg).c_str(), vseed);
    if (f != stdout) fclose(f);
    return found ? 1 : mismatch ? 5 : 0;
}
