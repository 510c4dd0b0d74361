// Deterministic simulation runtime for Kuree/logic.
//
// The code under test is compiled with gcc -fsanitize=thread, but it is linked against THIS
// runtime instead of libtsan: every memory access, atomic operation, function-local static
// initialisation, lock, allocation, clock read and memcpy-like call the library makes arrives
// here.  That is the seam: caller threads are real threads, but exactly one holds the baton, and
// who holds it next is decided here from the run's seed (or from an explicit replay list).
#pragma once
#include <cstddef>
#include <cstdint>

namespace rt {

constexpr int kMaxThreads = 6;
constexpr uint64_t kArenaBase = 0x200000000000ull;  // operands and results of simulated ops
constexpr uint64_t kArenaSize = 1ull << 20;
constexpr uint64_t kHeapBase = 0x210000000000ull;  // heap seen by simulated ops
constexpr uint64_t kHeapSize = 1ull << 26;
constexpr uint64_t kStackBase = 0x220000000000ull;  // stacks (and TLS) of simulated threads
constexpr uint64_t kStackSize = 1ull << 18;
constexpr uint64_t kHarnessHeap = 0x230000000000ull;

struct Rng {  // splitmix64; the only source of randomness anywhere
    uint64_t s;
    explicit Rng(uint64_t seed = 0) : s(seed) {}
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
};
uint64_t mix(uint64_t a, uint64_t b);

// what went wrong first in a run
enum V : int {
    V_none = 0,
    V_race,           // two unsynchronised conflicting accesses to process-wide state
    V_foreign_read,   // an operation read storage that belongs to somebody else
    V_foreign_write,  // ... wrote
    V_heap,           // heap access outside a live block, bad free
    V_hung,           // step budget exceeded or deadlock
    V_threw,          // an operation raised something it must not
    V_diverged,       // observation differs from the reference execution
    V_leak,
    V_crashed,        // signal or process exit
    V_model,          // differs from the reference model
    V_modified,       // a read-only operand changed
    V_harness,        // internal error of the simulator itself
};
const char* vname(int v);

enum { P_switch = 0, P_env = 1, P_stallk = 2, P_intr = 3 };
struct Preempt {
    int tid;     // thread that is running
    int uid;     // op instance it is in
    uint32_t k;  // k-th scheduling point inside that op instance
    int target;  // thread to switch to, or environment change
    int kind;
};

struct Fault {
    int uid;
    int mode;    // 0 fail n-th allocation only, 1 fail all from n-th on, 2 fail those >= n bytes
    uint32_t n;
};

constexpr int kMaxPre = 400;
constexpr int kMaxFaults = 64;

struct SchedCfg {
    bool replay = false;  // use `list` instead of the rng
    uint64_t seed = 1;
    uint32_t num = 0, den = 1;          // preemption probability at a scheduling point
    uint32_t bnum = 1, bden = 2;        // ... at an op boundary
    uint32_t env_num = 0, env_den = 1;  // environment change probability
    int env_kinds = 0;
    uint32_t max_switch = 300;
    uint32_t intr_num = 0, intr_den = 1;  // an operation of the same thread's handler runs here
    int stall_tid = -1;                 // this thread is descheduled at its stall_at-th point ...
    uint32_t stall_at = 0;
    bool race = true;                   // report happens-before races
    bool serial = false;                // each thread starts after the one before it has ended
    const Preempt* list = nullptr;
    int nlist = 0;
};

struct Stats {
    uint64_t accesses, points, switches, static_acc, heap_acc, arena_acc, shared_acc, atomics,
        guard_inits, guard_waits, lock_ops, allocs, alloc_fail, env_changes, forced, stalls,
        clock_reads, max_op_steps, steps, interrupts, max_stack;
};

struct Report {  // lives in shared memory
    int v;
    int uid;
    int tid;
    int other_uid;
    char msg[400];
    uint64_t hash;       // event-log hash: every access, decision and fault
    uint64_t schedhash;  // order of thread switches only
    Stats st;
    int npre;
    int done;
    int crashed;
    int forked;
    Preempt pre[kMaxPre];
    int cur_uid[kMaxThreads];
    int64_t live[kMaxThreads];  // serial: bytes that operations hold after the i-th thread ended
    int nfired;
    int fired[kMaxFaults];
};
extern Report* g_rep;

// ---- control (called from the harness, never from the code under test) ----
void init();                        // reserve the fixed address ranges (once, in the zygote)
void child_begin(uint64_t garbage); // in a forked child: fill arena, sim heap on
void child_end();
int new_tag(int uid, bool write, bool shared);  // owner op instance; -1 = list of readers
void tag_range(const void* p, size_t n, int tag);
void allow(int tag, int uid, bool write);
void own(int tag, int uid, bool write);  // who may touch the tagged bytes now
void set_crash(uint32_t k);              // the process dies at the k-th point of this thread's next op (0: not)

using ThreadFn = void (*)(int tid, void* arg);
void run_threads(int n, ThreadFn fn, void* arg, const SchedCfg& cfg);

void op_begin(int uid);  // enter the code under test on this thread
void op_end();
void boundary(int uid);  // scheduling point between ops (outside op_begin/op_end)
void nonpreempt(bool on);
bool in_op();
void set_faults(const Fault* f, int n);
// handler operations: pick returns the next one of this thread (or -1), run executes it nested
void set_intr_hook(int (*pick)(int tid), void (*run)(int uid));
uint64_t stack_in_op();             // deepest stack use of the current operation
// life of the process: static storage of the instrumented objects as the loader left it, as the
// initialisers left it, and after the registered destructors ran
void statics_unload();
void statics_init();
void statics_destroy();
void own_thread_exit(bool on);  // the running thread will go through statics_destroy
void forked_child();                // all other threads cease to exist at this point
uint32_t allocs_in_op();
uint64_t steps_in_op();
uint32_t points_in_op();
int64_t net_blocks();               // blocks this thread allocated minus freed
uint64_t coverage_points();         // distinct basic blocks of the code under test seen by this process
void set_cover(unsigned char* bitmap, uint64_t bits);
void poison_stack(uint64_t seed);
void set_env_hook(void (*fn)(int kind));
void set_budget(uint64_t steps);
void set_clock(uint64_t seed);  // what clock/rand/getenv seams return
uint64_t live_blocks();
int64_t op_live_bytes();            // bytes allocated by operations and not yet freed
void log_event(uint64_t x);
[[noreturn]] void violate(int v, int uid, const char* fmt, ...);
const char* describe(uint64_t p, char* buf, size_t n);

}  // namespace rt
