// See rt.hh.  This file is NOT instrumented.
#include "rt.hh"

#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <new>

extern "C" {
extern char rt_first_data[], rt_last_data[], rt_first_bss[], rt_last_bss[];
extern char __data_start[], _end[];
}

namespace rt {

Report* g_rep = nullptr;
static Report g_dummy;

const char* vname(int v) {
    static const char* n[] = {"none",   "race",  "foreign-read", "foreign-write", "heap-error",
                              "hung",   "threw", "diverged",     "leak",          "crashed",
                              "model-mismatch", "operand-modified", "harness-error"};
    return v >= 0 && v <= V_harness ? n[v] : "?";
}

// ------------------------------------------------------------------ threads
enum { S_run, S_blocked, S_stalled, S_done };
struct Th {
    int tid = 0;
    bool active = false;
    int nonpre = 0;
    int uid = -1;
    uint64_t steps = 0;
    uint32_t k = 0;
    uint64_t total_points = 0;
    uint32_t allocs = 0;
    int64_t net = 0;
    uint32_t vc[kMaxThreads] = {};
    int state = S_done;
    uint64_t block = 0;
    uint64_t spin_addr = 0;
    uint32_t spin = 0;
    uint64_t slo = 0, shi = 0;
    int futex = 0;
    bool stalled_once = false;
    uint32_t crash_k = 0;
    int depth = 0;    // nested handler operations
    uint64_t sp_min = 0, sp_top = 0;
    char altstack[16384];
};
static Th g_th[kMaxThreads];
static __thread Th* me __attribute__((tls_model("local-exec"))) = nullptr;
static int g_nth = 0;
static volatile bool g_sim = false;  // sim heap on
static SchedCfg g_cfg;
static Rng g_rng;
static ThreadFn g_fn;
static void* g_arg;
static uint64_t g_budget = 2000000;
static void (*g_env)(int) = nullptr;
static int (*g_pick)(int) = nullptr;
static void (*g_handler)(int) = nullptr;
static bool g_poison_free = false;
static Fault g_faults[kMaxFaults];
static int g_nfaults = 0;
static Rng g_clock;
static int g_main_futex = 0;

static inline void hash(uint64_t x) {
    uint64_t h = g_rep->hash;
    h ^= x;
    h *= 0x9E3779B97F4A7C15ull;
    h ^= h >> 29;
    g_rep->hash = h;
}
void log_event(uint64_t x) { hash(x); }

static void fwait(int* w) {
    while (__atomic_load_n(w, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(w, 0, __ATOMIC_RELAXED);
}
static void fwake(int* w) {
    __atomic_store_n(w, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void violate(int v, int uid, const char* fmt, ...) {
    if (g_rep->v == V_none) {
        g_rep->v = v;
        g_rep->uid = uid;
        g_rep->tid = me ? me->tid : -1;
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(g_rep->msg, sizeof g_rep->msg, fmt, ap);
        va_end(ap);
        for (int i = 0; i < kMaxThreads; i++) g_rep->cur_uid[i] = g_th[i].uid;
    }
    _exit(3);
}

const char* describe(uint64_t p, char* buf, size_t n) {
    if (p >= kArenaBase && p < kArenaBase + kArenaSize)
        snprintf(buf, n, "operand-arena+0x%lx", (unsigned long)(p - kArenaBase));
    else if (p >= kHeapBase && p < kHeapBase + kHeapSize)
        snprintf(buf, n, "heap+0x%lx", (unsigned long)(p - kHeapBase));
    else if (p >= kStackBase && p < kStackBase + kStackSize * kMaxThreads)
        snprintf(buf, n, "stack-of-thread-%d", (int)((p - kStackBase) / kStackSize));
    else if (p >= (uint64_t)__data_start && p < (uint64_t)_end)
        snprintf(buf, n, "static@0x%lx", (unsigned long)p);
    else
        snprintf(buf, n, "0x%lx", (unsigned long)p);
    return buf;
}

// ------------------------------------------------------------------ scheduling
static void switch_to(Th* t) {
    Th* m = me;
    if (t == m) return;
    g_rep->st.switches++;
    g_rep->schedhash = (g_rep->schedhash ^ (uint64_t)(t->tid + 1 + 8 * m->k + 4096ull * (uint32_t)m->uid)) * 0x100000001B3ull;
    hash(0x5C00 + t->tid);
    fwake(&t->futex);
    fwait(&m->futex);
}
static Th* next_runnable(Th* m) {  // deterministic: cyclic
    for (int i = 1; i <= g_nth; i++) {
        Th* t = &g_th[(m->tid + i) % g_nth];
        if (t != m && t->state == S_run) return t;
    }
    for (int i = 1; i <= g_nth; i++) {
        Th* t = &g_th[(m->tid + i) % g_nth];
        if (t != m && t->state == S_stalled) {
            t->state = S_run;
            return t;
        }
    }
    return nullptr;
}
static void forced_yield() {
    Th* t = next_runnable(me);
    if (t) {
        g_rep->st.forced++;
        switch_to(t);
    }
}
static void block_on(uint64_t addr) {
    me->state = S_blocked;
    me->block = addr;
    Th* t = next_runnable(me);
    if (!t) violate(V_hung, me->uid, "deadlock: every thread waits (thread %d op %d)", me->tid, me->uid);
    switch_to(t);
}
static void unblock(uint64_t addr) {
    for (int i = 0; i < g_nth; i++)
        if (g_th[i].state == S_blocked && g_th[i].block == addr) g_th[i].state = S_run;
}
static void record(int kind, int uid, uint32_t k, int target) {
    if (g_rep->npre < kMaxPre) g_rep->pre[g_rep->npre++] = Preempt{me->tid, uid, k, target, kind};
}
enum { P_stall = P_stallk };
static void do_stall() {
    me->state = S_stalled;
    g_rep->st.stalls++;
    Th* t = next_runnable(me);
    if (t == nullptr || t == me) {
        me->state = S_run;
        return;
    }
    switch_to(t);
}
// the running operation is interrupted: a handler runs operation `uid` on the same thread
static void do_intr(int uid) {
    Th* m = me;
    g_rep->st.interrupts++;
    g_rep->schedhash = (g_rep->schedhash ^ (0x1A7ull + m->k + 4096ull * (uint32_t)uid)) * 0x100000001B3ull;
    hash(0x1A7000 + uid);
    int e = errno, u = m->uid, nonpre = m->nonpre;
    uint64_t steps = m->steps, sa = m->spin_addr, lo = m->sp_min, top = m->sp_top;
    uint32_t k = m->k, allocs = m->allocs, sp = m->spin, ck = m->crash_k;
    bool a = m->active;
    m->active = false;
    m->depth++;
    g_handler(uid);
    m->depth--;
    m->active = a;
    m->uid = u;
    m->nonpre = nonpre;
    m->steps = steps;
    m->spin_addr = sa;
    m->sp_min = lo;
    m->sp_top = top;
    m->k = k;
    m->allocs = allocs;
    m->spin = sp;
    m->crash_k = ck;
    errno = e;
}
static void do_env(int kind) {
    g_rep->st.env_changes++;
    hash(0xE000 + kind);
    bool a = me->active;
    me->active = false;
    int e = errno;
    if (g_env) g_env(kind);
    errno = e;
    me->active = a;
}
static Th* random_other() {
    int c[kMaxThreads], n = 0;
    for (int i = 0; i < g_nth; i++)
        if (&g_th[i] != me && g_th[i].state == S_run) c[n++] = i;
    return n ? &g_th[c[g_rng.below(n)]] : nullptr;
}

static void decide(int uid, uint32_t k, bool bound) {
    if (me->nonpre) return;
    if (g_cfg.replay) {
        for (int i = 0; i < g_cfg.nlist; i++) {
            const Preempt& p = g_cfg.list[i];
            if (p.tid != me->tid || p.uid != uid || p.k != k) continue;
            if (p.kind == P_env) {
                do_env(p.target);
                record(p.kind, uid, k, p.target);
            } else if (p.kind == P_intr) {
                record(p.kind, uid, k, p.target);
                do_intr(p.target);
            } else if (p.kind == P_stall) {
                record(p.kind, uid, k, 0);
                do_stall();
            } else if (p.target < g_nth && g_th[p.target].state == S_run) {
                record(p.kind, uid, k, p.target);
                switch_to(&g_th[p.target]);
            }
        }
        return;
    }
    if (g_cfg.env_kinds && g_rng.chance(g_cfg.env_num, g_cfg.env_den) && g_rep->npre < kMaxPre - 2) {
        int kind = (int)g_rng.below(g_cfg.env_kinds);
        record(P_env, uid, k, kind);
        do_env(kind);
    }
    if (g_cfg.intr_num && !bound && me->active && me->depth < 3 && g_rep->npre < (int)g_cfg.max_switch &&
        g_rng.chance(g_cfg.intr_num, g_cfg.intr_den)) {
        int h = g_pick(me->tid);
        if (h >= 0) {
            record(P_intr, uid, k, h);
            do_intr(h);
        }
    }
    if (g_nth < 2 || g_rep->npre >= (int)g_cfg.max_switch) return;
    if (me->tid == g_cfg.stall_tid && !me->stalled_once && me->total_points >= g_cfg.stall_at) {
        me->stalled_once = true;
        record(P_stall, uid, k, 0);
        do_stall();
        return;
    }
    bool sw = bound ? g_rng.chance(g_cfg.bnum, g_cfg.bden) : g_rng.chance(g_cfg.num, g_cfg.den);
    if (!sw) return;
    Th* t = random_other();
    if (!t) return;
    record(P_switch, uid, k, t->tid);
    switch_to(t);
}
static inline void point() {
    Th* m = me;
    m->k++;
    m->total_points++;
    g_rep->st.points++;
    if (m->crash_k && m->k == m->crash_k) {  // power loss: nothing after this point happens
        hash(0xDEAD0000ull + m->k);
        g_rep->crashed = 1;
        g_rep->done = 1;
        _exit(0);
    }
    decide(m->uid, m->k, false);
}
constexpr uint64_t kStackReserve = 36864;
static inline void step(Th* m) {
    uint64_t sp = (uint64_t)__builtin_frame_address(0);
    if (sp < m->sp_min) {
        m->sp_min = sp;
        if (sp < m->slo + kStackReserve) violate(V_hung, m->uid, "operation used up the stack");
    }
    if (++m->steps > g_budget)
        violate(V_hung, m->uid, "operation did not finish within %lu simulated steps", (unsigned long)g_budget);
}

// ------------------------------------------------------------------ race detector
struct Cell {
    uint32_t w[kMaxThreads], r[kMaxThreads], aw[kMaxThreads], ar[kMaxThreads];
    uint32_t gen;
    int wuid, ruid;
};
static Cell* g_sh_static;  // indexed by byte from tracked start
static Cell* g_sh_heap;    // indexed by 8-byte granule
static uint32_t g_static_gen = 1;

static bool tracked_static(uint64_t a) {
    return (a >= (uint64_t)rt_first_data && a < (uint64_t)rt_last_data) ||
           (a >= (uint64_t)rt_first_bss && a < (uint64_t)rt_last_bss);
}
static void race(uint64_t a, bool w, Cell& c, int other) {
    char b[64];
    g_rep->other_uid = other;
    violate(V_race, me->uid, "unsynchronised %s of %s conflicts with op %d", w ? "write" : "read",
            describe(a, b, sizeof b), other);
    (void)c;
}
static void race_check(Cell& c, uint64_t a, bool w, bool atomic) {
    Th* m = me;
    for (int t = 0; t < g_nth; t++) {
        if (t == m->tid) continue;
        if (c.w[t] > m->vc[t]) race(a, w, c, c.wuid);
        if (w && c.r[t] > m->vc[t]) race(a, w, c, c.ruid);
        if (!atomic) {
            if (c.aw[t] > m->vc[t]) race(a, w, c, c.wuid);
            if (w && c.ar[t] > m->vc[t]) race(a, w, c, c.ruid);
        }
    }
    if (w) {
        (atomic ? c.aw : c.w)[m->tid] = m->vc[m->tid];
        c.wuid = m->uid;
    } else {
        (atomic ? c.ar : c.r)[m->tid] = m->vc[m->tid];
        c.ruid = m->uid;
    }
}

// ------------------------------------------------------------------ heap
struct Blk {
    uint64_t size;
    uint32_t magic, pad;
    uint64_t self, pad2;
};
constexpr uint32_t kLive = 0xA110C8ED, kFreed = 0xF4EEF4EE;
static uint64_t g_hp = kHeapBase + 64;      // sim bump pointer
static uint64_t g_hh = kHarnessHeap + 64;   // harness bump pointer
static uint64_t g_hh_end = kHarnessHeap;
static uint32_t* g_blkmap;                  // 16-byte granule -> block header offset/16
static uint64_t g_live = 0;
static int64_t g_oplive = 0;
static Rng g_garb;
static bool g_mapped = false;
struct FreeNode {
    FreeNode* next;
};
static FreeNode* g_free[64];

static void* fixed_map(uint64_t base, uint64_t size) {
    void* p = mmap((void*)base, size, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)base) {
        static const char m[] = "rt: cannot reserve address range\n";
        (void)!write(2, m, sizeof m - 1);
        _exit(70);
    }
    return p;
}
static void map_all() {
    if (g_mapped) return;
    g_mapped = true;
    g_rep = &g_dummy;
    fixed_map(kHarnessHeap, 1ull << 32);
    g_hh_end = kHarnessHeap + (1ull << 32);
}
static int cls_of(size_t n) {
    int c = 5;
    while ((1ull << c) < n) c++;
    return c;
}
static void* harness_alloc(size_t n, size_t align) {
    map_all();
    if (align <= 16) {
        int c = cls_of(n + sizeof(Blk));
        FreeNode* f = g_free[c];
        char* raw;
        if (f) {
            g_free[c] = f->next;
            raw = (char*)f;
        } else {
            g_hh = (g_hh + 15) & ~15ull;
            raw = (char*)g_hh;
            g_hh += 1ull << c;
        }
        Blk* b = (Blk*)raw;
        b->size = n;
        b->magic = kLive;
        b->pad = c;
        return raw + sizeof(Blk);
    }
    g_hh = ((g_hh + sizeof(Blk) + align - 1) & ~(align - 1));
    Blk* b = (Blk*)(g_hh - sizeof(Blk));
    b->size = n;
    b->magic = kLive;
    b->pad = 0;
    void* r = (void*)g_hh;
    g_hh += (n + 31) & ~15ull;
    return r;
}
static void* sim_alloc(size_t n, size_t align) {
    if (n > (1ull << 22)) return nullptr;
    if (align < 16) align = 16;
    uint64_t p = (g_hp + sizeof(Blk) + 48 + align - 1) & ~(align - 1);
    uint64_t e = p + n;
    uint64_t pe = (e + 15) & ~15ull;
    if (pe + 4096 > kHeapBase + kHeapSize) return nullptr;
    Blk* b = (Blk*)(p - sizeof(Blk));
    b->size = n;
    b->magic = kLive;
    b->self = p;
    b->pad2 = me && me->active;
    if (b->pad2) g_oplive += (int64_t)n;
    for (uint64_t q = p; q < pe || q == p; q += 16)
        g_blkmap[(q - kHeapBase) / 16] = (uint32_t)((p - kHeapBase) / 16);
    for (uint64_t q = p; q + 8 <= pe; q += 8) *(uint64_t*)q = g_garb.next();
    g_hp = pe + 32;
    g_live++;
    return (void*)p;
}
static bool fault_now(size_t n) {
    Th* m = me;
    if (!m || !m->active) return false;
    m->allocs++;
    g_rep->st.allocs++;
    hash(0xA0000 + n);
    for (int i = 0; i < g_nfaults; i++) {
        Fault& f = g_faults[i];
        if (f.uid != m->uid) continue;
        bool hit = f.mode == 0 ? m->allocs == f.n : f.mode == 1 ? m->allocs >= f.n : n >= f.n;
        if (hit) {
            g_rep->st.alloc_fail++;
            g_rep->fired[i]++;
            hash(0xFA11);
            return true;
        }
    }
    return false;
}
static void* do_alloc(size_t n, size_t align) {
    if (g_sim && me) {
        if (fault_now(n)) return nullptr;
        me->net++;
        return sim_alloc(n, align);
    }
    return harness_alloc(n, align);
}
static void do_free(void* p) {
    if (!p) return;
    uint64_t a = (uint64_t)p;
    if (a >= kHeapBase && a < kHeapBase + kHeapSize) {
        Blk* b = (Blk*)(a - sizeof(Blk));
        if (a % 16 || b->magic != kLive || b->self != a)
            violate(V_heap, me ? me->uid : -1, "bad or double free");
        b->magic = kFreed;
        g_live--;
        if (b->pad2) g_oplive -= (int64_t)b->size;
        if (me) me->net--;
        uint64_t pe = (a + b->size + 15) & ~15ull;
        for (uint64_t q = a; q + 8 <= pe; q += 8) *(uint64_t*)q = g_garb.next();
        return;
    }
    if (a >= kHarnessHeap && a < g_hh_end) {
        Blk* b = (Blk*)(a - sizeof(Blk));
        int c = b->pad;
        if (g_poison_free && c) {
            memset(p, 0xDD, b->size);  // and never handed out again
            return;
        }
        if (c) {
            FreeNode* f = (FreeNode*)b;
            f->next = g_free[c];
            g_free[c] = f;
        }
    }
}
uint64_t live_blocks() { return g_live; }
int64_t op_live_bytes() { return g_oplive; }

static void heap_check(uint64_t a, size_t n, bool w) {
    uint32_t idx = g_blkmap[(a - kHeapBase) / 16];
    char b[64];
    if (!idx)
        violate(V_heap, me->uid, "%s outside any heap block (%s)", w ? "write" : "read", describe(a, b, sizeof b));
    uint64_t p = kHeapBase + 16ull * idx;
    Blk* k = (Blk*)(p - sizeof(Blk));
    if (k->magic != kLive || a < p || a + n > p + k->size)
        violate(V_heap, me->uid, "%s of %lu bytes %s a heap block of %lu bytes at offset %ld", w ? "write" : "read",
                (unsigned long)n, k->magic == kFreed ? "in freed" : "past", (unsigned long)k->size, (long)(a - p));
}

// ------------------------------------------------------------------ arena tags
struct Tag {
    int uid;
    bool write, shared;
    int na;
    int allow[40];
    bool aw[40];
};
static uint16_t* g_tagmap;
static Tag g_tags[4096];
static int g_ntags = 1;

int new_tag(int uid, bool write, bool shared) {
    if (g_ntags >= 4096) violate(V_harness, uid, "too many tags");
    Tag& t = g_tags[g_ntags];
    t.uid = uid;
    t.write = write;
    t.shared = shared;
    t.na = 0;
    return g_ntags++;
}
void tag_range(const void* p, size_t n, int tag) {
    uint64_t o = (uint64_t)p - kArenaBase;
    for (size_t i = 0; i < n; i++) g_tagmap[o + i] = (uint16_t)tag;
}
void allow(int tag, int uid, bool write) {
    Tag& t = g_tags[tag];
    if (t.na >= 40) violate(V_harness, uid, "too many readers");
    t.aw[t.na] = write;
    t.allow[t.na++] = uid;
}
void own(int tag, int uid, bool write) {
    g_tags[tag].uid = uid;
    g_tags[tag].write = write;
}
static void arena_check(uint64_t a, size_t n, bool w) {
    int uid = me->uid;
    for (size_t i = 0; i < n; i++) {
        int t = g_tagmap[a - kArenaBase + i];
        bool ok = false, other_known = t != 0;
        if (t) {
            Tag& g = g_tags[t];
            if (g.uid == uid && (!w || g.write))
                ok = true;
            else
                for (int j = 0; j < g.na; j++)
                    if (g.allow[j] == uid && (!w || g.aw[j])) ok = true;
            if (!ok && w && g.uid == uid) {
                violate(V_modified, uid, "operation writes its read-only operand (byte +%lu)", (unsigned long)i);
            }
            if (!ok && w)
                for (int j = 0; j < g.na; j++)
                    if (g.allow[j] == uid)
                        violate(V_modified, uid, "operation writes a shared read-only operand");
            if (g.shared) g_rep->st.shared_acc++;
        }
        if (!ok) {
            int owner = other_known ? g_tags[t].uid : -1;
            g_rep->other_uid = owner;
            char b[64];
            violate(w ? V_foreign_write : V_foreign_read, uid, "operation %s storage outside its operands (%s, owner op %d)",
                    w ? "writes" : "reads", describe(a + i, b, sizeof b), owner);
        }
    }
}

// ------------------------------------------------------------------ access entry point
static inline bool on_own_stack(Th* m, uint64_t a) { return a >= m->slo && a < m->shi; }

static void access_slow(Th* m, uint64_t a, size_t n, bool w, bool atomic) {
    if (a >= kArenaBase && a < kArenaBase + kArenaSize) {
        point();
        g_rep->st.arena_acc++;
        hash(a * 2 + w);
        arena_check(a, n, w);
    } else if (a >= kHeapBase && a < kHeapBase + kHeapSize) {
        point();
        g_rep->st.heap_acc++;
        hash(a * 2 + w);
        heap_check(a, n, w);
        if (g_nth > 1 && g_cfg.race)
            for (uint64_t q = a & ~7ull; q < a + n; q += 8)
                race_check(g_sh_heap[(q - kHeapBase) / 8], q, w, atomic);
    } else if (a >= (uint64_t)__data_start && a < (uint64_t)_end) {
        point();
        g_rep->st.static_acc++;
        hash(a * 2 + w);
        if (g_nth > 1 && g_cfg.race && tracked_static(a))
            for (uint64_t q = a; q < a + n; q++)
                race_check(g_sh_static[q - (uint64_t)__data_start], q, w, atomic);
    } else if (a >= kStackBase && a < kStackBase + kStackSize * kMaxThreads) {
        violate(w ? V_foreign_write : V_foreign_read, m->uid, "operation %s another thread's stack", w ? "writes" : "reads");
    } else if (a < 4096) {
        violate(V_crashed, m->uid, "null pointer access");
    } else if (a >= kHarnessHeap && a < kHarnessHeap + (1ull << 32)) {
        // storage of the simulator itself (only reachable through wild pointers)
        if (w) violate(V_foreign_write, m->uid, "operation writes simulator storage");
    }
}
static inline void acc(const volatile void* p, size_t n, bool w) {
    Th* m = me;
    if (!m || !m->active || !n) return;
    step(m);
    uint64_t a = (uint64_t)p;
    if (on_own_stack(m, a)) return;
    if (!w && a < (uint64_t)__data_start) return;
    g_rep->st.accesses++;
    m->spin = 0;
    access_slow(m, a, n, w, false);
}

// ------------------------------------------------------------------ sync variables
struct Sync {
    uint64_t addr;
    uint32_t vc[kMaxThreads];
    int owner;  // lock owner tid+1
    int count;
    int readers;
    int state;  // once/guard
};
static Sync g_sync[1024];
static Sync* sync_of(uint64_t a) {
    uint64_t h = (a >> 2) * 0x9E3779B97F4A7C15ull >> 54;
    for (int i = 0; i < 1024; i++) {
        Sync* s = &g_sync[(h + i) & 1023];
        if (s->addr == a) return s;
        if (!s->addr) {
            s->addr = a;
            return s;
        }
    }
    violate(V_harness, -1, "too many sync variables");
}
static void acquire(Sync* s) {
    for (int i = 0; i < kMaxThreads; i++)
        if (s->vc[i] > me->vc[i]) me->vc[i] = s->vc[i];
}
static void release(Sync* s) {
    for (int i = 0; i < kMaxThreads; i++)
        if (me->vc[i] > s->vc[i]) s->vc[i] = me->vc[i];
    me->vc[me->tid]++;
}
static void atomic_pre(const volatile void* p, size_t n, bool w) {
    Th* m = me;
    if (!m || !m->active) return;
    step(m);
    uint64_t a = (uint64_t)p;
    if (on_own_stack(m, a)) return;
    g_rep->st.atomics++;
    if (m->spin_addr == a) {
        if (++m->spin >= 50 && !m->nonpre) {
            m->spin = 0;
            forced_yield();
        }
    } else {
        m->spin_addr = a;
        m->spin = 0;
    }
    access_slow(m, a, n, w, true);
}
static void atomic_post(const volatile void* p, int mo, bool rd, bool wr) {
    Th* m = me;
    if (!m || !m->active || on_own_stack(m, (uint64_t)p)) return;
    Sync* s = sync_of((uint64_t)p);
    if (rd && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) acquire(s);
    if (wr && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST)) release(s);
}

// ------------------------------------------------------------------ control
static void on_signal(int sig) {
    const char* n = sig == SIGSEGV  ? "SIGSEGV"
                    : sig == SIGFPE ? "SIGFPE"
                    : sig == SIGABRT ? "SIGABRT"
                    : sig == SIGBUS ? "SIGBUS"
                    : sig == SIGILL ? "SIGILL"
                                    : "cpu-time limit";
    int uid = me ? me->uid : -1;
    if (sig == SIGALRM || sig == SIGPROF || sig == SIGVTALRM) {
        if (uid < 0)
            for (int i = 0; i < g_nth; i++)
                if (g_th[i].active) uid = g_th[i].uid;
        violate(V_hung, uid, "operation did not finish (%s)", n);
    }
    violate(me && me->active ? V_crashed : V_harness, uid, "process killed by %s", n);
}

static void at_main();
// Moves the program text into anonymous huge pages: forked children then share it without page
// faults (a child is forked for every execution).  Purely an optimisation.
extern "C" char __executable_start[], etext[];
static void text_to_anon() {
    uint64_t lo = ((uint64_t)__executable_start + 0x1fffff) & ~0x1fffffull, hi = (uint64_t)etext & ~0x1fffffull;
    if (hi <= lo) return;
    size_t n = hi - lo;
    char* raw = (char*)mmap(nullptr, n + 0x200000, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (raw == MAP_FAILED) return;
    char* p = (char*)(((uint64_t)raw + 0x1fffff) & ~0x1fffffull);
    madvise(p, n, MADV_HUGEPAGE);
    memcpy(p, (void*)lo, n);
    if (mprotect(p, n, PROT_READ | PROT_EXEC)) return;
    mremap(p, n, n, MREMAP_MAYMOVE | MREMAP_FIXED, (void*)lo);
}

void init() {
    at_main();
    text_to_anon();
    map_all();
    fixed_map(kArenaBase, kArenaSize);
    fixed_map(kHeapBase, kHeapSize);
    fixed_map(kStackBase, kStackSize * kMaxThreads);
    auto anon = [](size_t n) {
        void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) _exit(71);
        return p;
    };
    g_blkmap = (uint32_t*)anon(kHeapSize / 16 * 4);
    g_tagmap = (uint16_t*)anon(kArenaSize * 2);
    g_sh_heap = (Cell*)anon(kHeapSize / 8 * sizeof(Cell));
    g_sh_static = (Cell*)anon(((uint64_t)_end - (uint64_t)__data_start) * sizeof(Cell));
    g_rep = &g_dummy;
}
void child_begin(uint64_t garbage) {
    g_sim = true;
    g_garb = Rng(garbage ^ 0x6A09E667F3BCC909ull);
    g_hp = kHeapBase + 64 + 16 * ((garbage >> 7) & 255);  // another process, other addresses
    g_live = 0;
    g_ntags = 1;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL, SIGALRM, SIGPROF, SIGVTALRM};
    for (int s : sigs) sigaction(s, &sa, nullptr);
    struct itimerval it = {{0, 0}, {3, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
    struct itimerval ir = {{0, 0}, {60, 0}};
    setitimer(ITIMER_REAL, &ir, nullptr);
}
void child_end() { g_sim = false; }
void set_faults(const Fault* f, int n) {
    g_nfaults = n < kMaxFaults ? n : kMaxFaults;
    for (int i = 0; i < g_nfaults; i++) g_faults[i] = f[i];
    g_rep->nfired = g_nfaults;
}
void set_env_hook(void (*fn)(int)) { g_env = fn; }
void set_budget(uint64_t s) { g_budget = s; }
void set_clock(uint64_t s) { g_clock = Rng(s); }
void set_intr_hook(int (*pick)(int), void (*run)(int)) {
    g_pick = pick;
    g_handler = run;
}
uint64_t stack_in_op() { return me && me->sp_top > me->sp_min ? me->sp_top - me->sp_min : 0; }

// ------------------------------------------------------------------ life of the process
static char *g_load_data, *g_load_bss, *g_init_data, *g_init_bss;
static size_t g_ndata, g_nbss;
struct Dtor {
    void (*f)(void*);
    void* a;
};
static Dtor g_dtors[4096];
static int g_ndtors = 0;
// thread-local objects of the one thread that goes through the end of the process
static bool g_own_exit = false;
static Dtor g_tdtors[256];
static int g_ntdtors = 0;
void own_thread_exit(bool on) { g_own_exit = on; }
extern "C" int __cxa_thread_atexit(void (*)(void*), void*, void*) noexcept;
static char* copy_of(const char* p, size_t n) {
    char* c = (char*)mmap(nullptr, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (c == MAP_FAILED) _exit(71);
    memcpy(c, p, n);
    return c;
}
// before every dynamic initialiser of the program
__attribute__((constructor(101))) static void at_load() {
    g_ndata = rt_last_data - rt_first_data;
    g_nbss = rt_last_bss - rt_first_bss;
    g_load_data = copy_of(rt_first_data, g_ndata);
    g_load_bss = copy_of(rt_first_bss, g_nbss);
}
static void at_main() {
    g_init_data = copy_of(rt_first_data, g_ndata);
    g_init_bss = copy_of(rt_first_bss, g_nbss);
}
static void diff_copy(char* to, const char* from, const char* base, size_t n) {
    for (size_t i = 0; i < n; i++)
        if (from[i] != base[i]) to[i] = from[i];
}
void statics_unload() {
    diff_copy(rt_first_data, g_load_data, g_init_data, g_ndata);
    diff_copy(rt_first_bss, g_load_bss, g_init_bss, g_nbss);
    hash(0x57A71C01);
}
void statics_init() {
    diff_copy(rt_first_data, g_init_data, g_load_data, g_ndata);
    diff_copy(rt_first_bss, g_init_bss, g_load_bss, g_nbss);
    hash(0x57A71C02);
}
void statics_destroy() {
    g_poison_free = true;
    while (g_ntdtors > 0) {  // thread-local objects of the exiting thread are destroyed first
        Dtor d = g_tdtors[--g_ntdtors];
        d.f(d.a);
    }
    while (g_ndtors > 0) {
        Dtor d = g_dtors[--g_ndtors];
        d.f(d.a);
    }
    hash(0x57A71C03);
}
void forked_child() {
    g_rep->forked = 1;
    for (int i = 0; i < g_nth; i++)
        if (&g_th[i] != me) g_th[i].state = S_done;
    hash(0xF02C);
}
uint32_t allocs_in_op() { return me ? me->allocs : 0; }
uint64_t steps_in_op() { return me ? me->steps : 0; }
uint32_t points_in_op() { return me ? me->k : 0; }
int64_t net_blocks() { return me ? me->net : 0; }
static unsigned char* g_cov = nullptr;
static uint64_t g_covbits = 0;
void set_cover(unsigned char* b, uint64_t n) {
    g_cov = b;
    g_covbits = n;
}
bool in_op() { return me && me->active; }
void nonpreempt(bool on) {
    if (me) me->nonpre += on ? 1 : -1;
}

void set_crash(uint32_t k) {
    if (me) me->crash_k = k;
}
void op_begin(int uid) {
    Th* m = me;
    m->uid = uid;
    m->k = 0;
    m->steps = 0;
    m->allocs = 0;
    m->spin = 0;
    m->spin_addr = 0;
    hash(0x0B00000000ull + uid);
    m->sp_top = m->sp_min = (uint64_t)__builtin_frame_address(0);
    m->active = true;
}
void op_end() {
    Th* m = me;
    m->active = false;
    m->crash_k = 0;
    g_rep->st.steps += m->steps;
    if (m->steps > g_rep->st.max_op_steps) g_rep->st.max_op_steps = m->steps;
    hash(0x0E00000000ull + m->steps);
}
void boundary(int uid) {
    Th* m = me;
    m->total_points++;
    m->uid = uid;
    g_rep->st.points++;
    decide(uid, 0, true);
}
__attribute__((noinline)) void poison_stack(uint64_t seed) {
    volatile uint64_t buf[1024];
    Rng r(seed);
    for (int i = 0; i < 1024; i += 4) {
        uint64_t x = r.next();
        buf[i] = x;
        buf[i + 1] = ~x;
        buf[i + 2] = x * 3;
        buf[i + 3] = x >> 7;
    }
    __asm__ volatile("" ::: "memory");
}

// The thread ends: whoever is next runs after the destructors of the thread's own thread_locals,
// so these run while nobody else does.  (Destructors of thread-specific data run last.)
static pthread_key_t g_last_key;
static void last_rites(void* a) {
    Th* m = (Th*)a;
    m->state = S_done;
    m->uid = -1;
    hash(0xD0E0 + m->tid);
    Th* t = next_runnable(m);
    if (t) {
        g_rep->st.switches++;
        me = nullptr;
        fwake(&t->futex);
    } else {
        for (int i = 0; i < g_nth; i++)
            if (g_th[i].state == S_blocked)
                violate(V_hung, g_th[i].uid, "deadlock: thread %d still waits after the others finished", i);
        me = nullptr;
        fwake(&g_main_futex);
    }
}
static void* thread_main(void* a) {
    Th* m = (Th*)a;
    me = m;
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = m->altstack;
    ss.ss_size = sizeof m->altstack;
    sigaltstack(&ss, nullptr);
    fwait(&m->futex);
    pthread_setspecific(g_last_key, m);
    g_fn(m->tid, g_arg);
    return nullptr;
}

void run_threads(int n, ThreadFn fn, void* arg, const SchedCfg& cfg) {
    g_cfg = cfg;
    g_rng = Rng(cfg.seed ^ 0xBB67AE8584CAA73Bull);
    g_fn = fn;
    g_arg = arg;
    g_nth = n;
    static uint32_t base[kMaxThreads];  // clocks persist across phases in one child: join
    pthread_t pt[kMaxThreads];
    static bool key = false;
    if (!key) pthread_key_create(&g_last_key, last_rites);
    key = true;
    for (int i = 0; i < n; i++) {
        Th* t = &g_th[i];
        t->tid = i;
        t->active = false;
        t->state = S_run;
        t->uid = -1;
        t->k = 0;
        t->total_points = 0;
        t->stalled_once = false;
        t->crash_k = 0;
        t->nonpre = 0;
        t->depth = 0;
        t->net = 0;
        t->futex = 0;
        for (int j = 0; j < kMaxThreads; j++) t->vc[j] = base[j];
        t->vc[i] = base[i] + 1;
        t->slo = kStackBase + kStackSize * i;
        t->shi = t->slo + kStackSize;
    }
    auto start = [&](int i) {  // thread creation is the simulator's business
        g_sim = false;
        Th* t = &g_th[i];
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void*)(t->slo + 4096), kStackSize - 4096);
        if (pthread_create(&pt[i], &at, thread_main, t)) violate(V_harness, -1, "pthread_create failed");
        pthread_attr_destroy(&at);
        g_sim = true;
    };
    if (cfg.serial) {
        for (int i = 0; i < n; i++) {
            g_nth = i + 1;
            g_main_futex = 0;
            start(i);
            fwake(&g_th[i].futex);
            fwait(&g_main_futex);
            pthread_join(pt[i], nullptr);
            g_rep->live[i] = g_oplive;
            hash(0x11FE + (uint64_t)g_oplive);
        }
    } else {
        g_main_futex = 0;
        for (int i = 0; i < n; i++) start(i);
        fwake(&g_th[0].futex);
        fwait(&g_main_futex);
        if (g_rep->forked) return;  // the other threads are gone, nobody to join
        for (int i = 0; i < n; i++) pthread_join(pt[i], nullptr);
    }
    uint32_t mx = 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < kMaxThreads; j++)
            if (g_th[i].vc[j] > mx) mx = g_th[i].vc[j];
    for (int j = 0; j < kMaxThreads; j++) base[j] = mx;
}

uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9E3779B97F4A7C15ull + b);
    r.next();
    return r.next();
}

}  // namespace rt

using namespace rt;

// ================================================================== allocator symbols
extern "C" {
void* malloc(size_t n) {
    void* p = do_alloc(n, 16);
    if (!p) errno = ENOMEM;
    return p;
}
void free(void* p) { do_free(p); }
void* calloc(size_t a, size_t b) {
    size_t n = a * b;
    if (b && n / b != a) return nullptr;
    void* p = do_alloc(n, 16);
    if (p) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    Blk* b = (Blk*)((char*)p - sizeof(Blk));
    void* q = do_alloc(n, 16);
    if (!q) return nullptr;
    memcpy(q, p, b->size < n ? b->size : n);
    do_free(p);
    return q;
}
void* memalign(size_t al, size_t n) { return do_alloc(n, al); }
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al); }
int posix_memalign(void** p, size_t al, size_t n) {
    *p = do_alloc(n, al);
    return *p ? 0 : ENOMEM;
}
void* valloc(size_t n) { return do_alloc(n, 4096); }
void* pvalloc(size_t n) { return do_alloc(n, 4096); }
size_t malloc_usable_size(void* p) { return p ? ((Blk*)((char*)p - sizeof(Blk)))->size : 0; }
}
static void* op_new(size_t n, size_t al = 16) {
    void* p = do_alloc(n ? n : 1, al);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return op_new(n); }
void* operator new[](size_t n) { return op_new(n); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_alloc(n ? n : 1, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_alloc(n ? n : 1, 16); }
void operator delete(void* p) noexcept { do_free(p); }
void operator delete[](void* p) noexcept { do_free(p); }
void operator delete(void* p, size_t) noexcept { do_free(p); }
void operator delete[](void* p, size_t) noexcept { do_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_free(p); }

// ================================================================== tsan ABI
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {
    Th* m = me;
    if (!m || !m->active) return;
    step(m);
    point();
}
void __tsan_func_exit() {}
// one call per basic block: bounds loops that touch no memory, and measures coverage
void __sanitizer_cov_trace_pc() {
    Th* m = me;
    if (!m || !m->active) return;
    step(m);
    if (g_cov) {
        uint64_t pc = (uint64_t)__builtin_return_address(0);
        uint64_t h = (pc * 0x9E3779B97F4A7C15ull >> 24) & (g_covbits - 1);
        g_cov[h >> 3] |= (unsigned char)(1u << (h & 7));
    }
}
#define RW(N)                                                            \
    void __tsan_read##N(void* p) { acc(p, N, false); }                   \
    void __tsan_write##N(void* p) { acc(p, N, true); }                   \
    void __tsan_unaligned_read##N(void* p) { acc(p, N, false); }         \
    void __tsan_unaligned_write##N(void* p) { acc(p, N, true); }         \
    void __tsan_volatile_read##N(void* p) { acc(p, N, false); }          \
    void __tsan_volatile_write##N(void* p) { acc(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc(p, n, false); }
void __tsan_write_range(void* p, size_t n) { acc(p, n, true); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true); }
void __tsan_vptr_read(void** p) { acc(p, 8, false); }

typedef unsigned __int128 u128;
#define AT(BITS, T)                                                                                       \
    T __tsan_atomic##BITS##_load(const volatile T* a, int mo) {                                           \
        atomic_pre(a, sizeof(T), false);                                                                  \
        T v = *a;                                                                                         \
        atomic_post(a, mo, true, false);                                                                  \
        return v;                                                                                         \
    }                                                                                                     \
    void __tsan_atomic##BITS##_store(volatile T* a, T v, int mo) {                                        \
        atomic_pre(a, sizeof(T), true);                                                                   \
        *a = v;                                                                                           \
        atomic_post(a, mo, false, true);                                                                  \
    }                                                                                                     \
    T __tsan_atomic##BITS##_exchange(volatile T* a, T v, int mo) {                                        \
        atomic_pre(a, sizeof(T), true);                                                                   \
        T o = *a;                                                                                         \
        *a = v;                                                                                           \
        atomic_post(a, mo, true, true);                                                                   \
        return o;                                                                                         \
    }                                                                                                     \
    T __tsan_atomic##BITS##_fetch_add(volatile T* a, T v, int mo) {                                       \
        atomic_pre(a, sizeof(T), true);                                                                   \
        T o = *a;                                                                                         \
        *a = (T)(o + v);                                                                                  \
        atomic_post(a, mo, true, true);                                                                   \
        return o;                                                                                         \
    }                                                                                                     \
    T __tsan_atomic##BITS##_fetch_sub(volatile T* a, T v, int mo) {                                       \
        atomic_pre(a, sizeof(T), true);                                                                   \
        T o = *a;                                                                                         \
        *a = (T)(o - v);                                                                                  \
        atomic_post(a, mo, true, true);                                                                   \
        return o;                                                                                         \
    }                                                                                                     \
    T __tsan_atomic##BITS##_fetch_and(volatile T* a, T v, int mo) {                                       \
        atomic_pre(a, sizeof(T), true);                                                                   \
        T o = *a;                                                                                         \
        *a = (T)(o & v);                                                                                  \
        atomic_post(a, mo, true, true);                                                                   \
        return o;                                                                                         \
    }                                                                                                     \
    T __tsan_atomic##BITS##_fetch_or(volatile T* a, T v, int mo) {                                        \
        atomic_pre(a, sizeof(T), true);                                                                   \
        T o = *a;                                                                                         \
        *a = (T)(o | v);                                                                                  \
        atomic_post(a, mo, true, true);                                                                   \
        return o;                                                                                         \
    }                                                                                                     \
    T __tsan_atomic##BITS##_fetch_xor(volatile T* a, T v, int mo) {                                       \
        atomic_pre(a, sizeof(T), true);                                                                   \
        T o = *a;                                                                                         \
        *a = (T)(o ^ v);                                                                                  \
        atomic_post(a, mo, true, true);                                                                   \
        return o;                                                                                         \
    }                                                                                                     \
    T __tsan_atomic##BITS##_fetch_nand(volatile T* a, T v, int mo) {                                      \
        atomic_pre(a, sizeof(T), true);                                                                   \
        T o = *a;                                                                                         \
        *a = (T)(~(o & v));                                                                               \
        atomic_post(a, mo, true, true);                                                                   \
        return o;                                                                                         \
    }                                                                                                     \
    int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {        \
        atomic_pre(a, sizeof(T), true);                                                                   \
        T o = *a;                                                                                         \
        if (o == *c) {                                                                                    \
            *a = v;                                                                                       \
            atomic_post(a, mo, true, true);                                                               \
            return 1;                                                                                     \
        }                                                                                                 \
        *c = o;                                                                                           \
        atomic_post(a, fmo, true, false);                                                                 \
        return 0;                                                                                         \
    }                                                                                                     \
    int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {          \
        return __tsan_atomic##BITS##_compare_exchange_strong(a, c, v, mo, fmo);                           \
    }                                                                                                     \
    T __tsan_atomic##BITS##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {              \
        __tsan_atomic##BITS##_compare_exchange_strong(a, &c, v, mo, fmo);                                 \
        return c;                                                                                         \
    }
AT(8, unsigned char)
AT(16, unsigned short)
AT(32, unsigned int)
AT(64, unsigned long)
AT(128, u128)
void __tsan_atomic_thread_fence(int) {
    Th* m = me;
    if (!m || !m->active) return;
    step(m);
    Sync* s = sync_of(1);
    acquire(s);
    release(s);
    point();
}
void __tsan_atomic_signal_fence(int) {}

// ================================================================== renamed calls of instrumented code
void* sim_memcpy(void* d, const void* s, size_t n) {
    acc(s, n, false);
    acc(d, n, true);
    return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
    acc(s, n, false);
    acc(d, n, true);
    return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
    acc(d, n, true);
    return memset(d, c, n);
}
int sim_memcmp(const void* a, const void* b, size_t n) {
    acc(a, n, false);
    acc(b, n, false);
    return memcmp(a, b, n);
}
void* sim_memchr(const void* a, int c, size_t n) {
    // memchr stops at the match; only bytes up to it count as read
    const char* p = (const char*)a;
    size_t i = 0;
    Th* m = me;
    if (m && m->active && !on_own_stack(m, (uint64_t)a)) {
        for (; i < n; i++) {
            acc(p + i, 1, false);
            if (p[i] == (char)c) return (void*)(p + i);
        }
        return nullptr;
    }
    return (void*)memchr(a, c, n);
}
size_t sim_strlen(const char* p) {
    Th* m = me;
    if (m && m->active && !on_own_stack(m, (uint64_t)p) && (uint64_t)p >= (uint64_t)__data_start) {
        size_t i = 0;
        for (;; i++) {
            acc(p + i, 1, false);
            if (!p[i]) return i;
        }
    }
    return strlen(p);
}
void* sim_new(size_t n) {
    Th* m = me;
    if (m && m->active) point();
    return operator new(n);
}
void sim_delete(void* p) {
    Th* m = me;
    if (m && m->active) point();
    operator delete(p);
}
void sim_delete_sz(void* p, size_t) { sim_delete(p); }
void* sim_new_arr(size_t n) { return sim_new(n); }
void sim_delete_arr(void* p) { sim_delete(p); }
void sim_delete_arr_sz(void* p, size_t) { sim_delete(p); }

// an index outside an array of known size (compiled in for the checks of storage only)
void __ubsan_handle_out_of_bounds(const char* const* where, uint64_t index) {
    Th* m = me;
    if (!m || !m->active) return;
    char f[120];
    const char* p = *where ? strrchr(*where, '/') : nullptr;
    snprintf(f, sizeof f, "%s:%u", p ? p + 1 : "?", (unsigned)((const uint32_t*)(where + 1))[0]);
    violate(V_foreign_read, m->uid, "index %ld is outside the array (%s)", (long)index, f);
}
// destructors of static objects run when the simulator says so
int sim_cxa_atexit(void (*f)(void*), void* a, void*) {
    if (g_ndtors < 4096) g_dtors[g_ndtors++] = {f, a};
    return 0;
}
int sim_thread_atexit(void (*f)(void*), void* a, void* d) {
    if (!g_own_exit || g_ntdtors == 256) return __cxa_thread_atexit(f, a, d);
    g_tdtors[g_ntdtors++] = {f, a};
    return 0;
}
int sim_atexit(void (*f)()) { return sim_cxa_atexit((void (*)(void*))f, nullptr, nullptr); }

// function-local statics
int sim_guard_acquire(uint64_t* g) {
    volatile unsigned char* b = (volatile unsigned char*)g;
    Th* m = me;
    if (!m || !m->active) {
        if (b[0]) return 0;
        return 1;
    }
    step(m);
    point();
    Sync* s = sync_of((uint64_t)g);
    for (;;) {
        if (b[0]) {
            acquire(s);
            return 0;
        }
        if (!s->owner) {
            s->owner = m->tid + 1;
            g_rep->st.guard_inits++;
            acquire(s);
            hash(0x61000 + m->tid);
            return 1;
        }
        if (s->owner == m->tid + 1) violate(V_hung, m->uid, "recursive initialisation of a function-local static");
        g_rep->st.guard_waits++;
        if (m->nonpre) violate(V_hung, m->uid, "static initialisation blocked");
        block_on((uint64_t)g);
    }
}
void sim_guard_release(uint64_t* g) {
    volatile unsigned char* b = (volatile unsigned char*)g;
    Th* m = me;
    b[0] = 1;
    if (!m || !m->active) return;
    Sync* s = sync_of((uint64_t)g);
    s->owner = 0;
    release(s);
    unblock((uint64_t)g);
    point();
}
void sim_guard_abort(uint64_t* g) {
    Th* m = me;
    if (!m || !m->active) return;
    Sync* s = sync_of((uint64_t)g);
    s->owner = 0;
    release(s);
    unblock((uint64_t)g);
}

// locks
static int lock_impl(void* mu, bool recursive, bool try_only, bool rd) {
    Th* m = me;
    if (!m || !m->active) return 0;
    step(m);
    g_rep->st.lock_ops++;
    point();
    Sync* s = sync_of((uint64_t)mu);
    for (;;) {
        if (rd ? s->owner == 0 : (s->owner == 0 && s->readers == 0)) {
            if (rd)
                s->readers++;
            else {
                s->owner = m->tid + 1;
                s->count = 1;
            }
            acquire(s);
            return 0;
        }
        if (!rd && recursive && s->owner == m->tid + 1) {
            s->count++;
            return 0;
        }
        if (try_only) return EBUSY;
        if (m->nonpre) violate(V_hung, m->uid, "operation blocks on a lock that an earlier operation left held");
        block_on((uint64_t)mu);
    }
}
static int unlock_impl(void* mu) {
    Th* m = me;
    if (!m || !m->active) return 0;
    Sync* s = sync_of((uint64_t)mu);
    if (s->owner) {
        if (--s->count == 0) s->owner = 0;
    } else if (s->readers)
        s->readers--;
    release(s);
    unblock((uint64_t)mu);
    point();
    return 0;
}
static bool is_rec(pthread_mutex_t* mu) { return (mu->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int sim_pthread_mutex_lock(pthread_mutex_t* mu) { return lock_impl(mu, is_rec(mu), false, false); }
int sim_pthread_mutex_trylock(pthread_mutex_t* mu) { return lock_impl(mu, is_rec(mu), true, false); }
int sim_pthread_mutex_timedlock(pthread_mutex_t* mu, const void*) { return lock_impl(mu, is_rec(mu), false, false); }
int sim_pthread_mutex_clocklock(pthread_mutex_t* mu, int, const void*) { return lock_impl(mu, is_rec(mu), false, false); }
int sim_pthread_mutex_unlock(pthread_mutex_t* mu) { return unlock_impl(mu); }
int sim_pthread_rwlock_rdlock(void* mu) { return lock_impl(mu, false, false, true); }
int sim_pthread_rwlock_wrlock(void* mu) { return lock_impl(mu, false, false, false); }
int sim_pthread_rwlock_tryrdlock(void* mu) { return lock_impl(mu, false, true, true); }
int sim_pthread_rwlock_trywrlock(void* mu) { return lock_impl(mu, false, true, false); }
int sim_pthread_rwlock_unlock(void* mu) { return unlock_impl(mu); }
int sim_pthread_spin_lock(void* mu) { return lock_impl(mu, false, false, false); }
int sim_pthread_spin_unlock(void* mu) { return unlock_impl(mu); }
int sim_pthread_once(int* o, void (*f)()) {
    Th* m = me;
    if (!m || !m->active) {
        if (!*o) {
            *o = 2;
            f();
        }
        return 0;
    }
    point();
    Sync* s = sync_of((uint64_t)o);
    for (;;) {
        if (s->state == 2) {
            acquire(s);
            return 0;
        }
        if (s->state == 0) {
            s->state = 1;
            acquire(s);
            try {
                f();
            } catch (...) {
                s->state = 0;
                release(s);
                unblock((uint64_t)o);
                throw;
            }
            s->state = 2;
            *o = 2;
            release(s);
            unblock((uint64_t)o);
            return 0;
        }
        if (m->nonpre) violate(V_hung, m->uid, "once-initialisation blocked");
        block_on((uint64_t)o);
    }
}
int sim_pthread_cond_wait(void*, pthread_mutex_t* mu) {
    unlock_impl(mu);
    if (me && me->active) forced_yield();
    return lock_impl(mu, is_rec(mu), false, false);  // spurious wake-ups are legal
}
static int sim_yield() {
    Th* m = me;
    if (!m || !m->active) return 0;
    step(m);
    point();
    if (!m->nonpre) forced_yield();
    return 0;
}
int sim_sched_yield() { return sim_yield(); }
int sim_nanosleep(const void*, void*) { return sim_yield(); }
int sim_clock_nanosleep(int, int, const void*, void*) { return sim_yield(); }
int sim_usleep(unsigned) { return sim_yield(); }
// clocks, randomness, environment variables: all from the run's seed
static uint64_t seam() {
    if (me && me->active) {
        g_rep->st.clock_reads++;
        step(me);
        point();
    }
    return g_clock.next();
}
int sim_clock_gettime(int, struct timespec* t) {
    uint64_t v = seam();
    t->tv_sec = (time_t)(v % 4000000000ull);
    t->tv_nsec = (long)(v >> 34) % 1000000000;
    return 0;
}
int sim_gettimeofday(struct timeval* t, void*) {
    uint64_t v = seam();
    t->tv_sec = (time_t)(v % 4000000000ull);
    t->tv_usec = 0;
    return 0;
}
time_t sim_time(time_t* t) {
    time_t v = (time_t)(seam() % 4000000000ull);
    if (t) *t = v;
    return v;
}
long sim_clock() { return (long)(seam() >> 20); }
int sim_rand() { return (int)(seam() & 0x7fffffff); }
long sim_random() { return (long)(seam() & 0x7fffffff); }
long sim_chrono_now() { return (long)(seam() >> 2); }
long sim_chrono_now2() { return (long)(seam() >> 2); }
unsigned sim_random_device(void*) { return (unsigned)seam(); }
char* sim_getenv(const char*) {
    static char v[4][8] = {"1", "C", "0", "de_DE"};
    uint64_t s = seam();
    return s & 1 ? nullptr : v[(s >> 1) & 3];
}
}
