// Deterministic simulation of threads that call the library at the same time (C08).
//
// The library is compiled with -fsanitize=thread, but the callbacks are implemented here: every
// instrumented memory access, atomic operation, lock, allocation, library call and exit is a
// scheduling point. Real threads run one at a time; a seeded scheduler decides at each point who
// goes on. A happens-before race detector watches all accesses to globals and heap.
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <wchar.h>
#include <csignal>
#include <mutex>
#include <condition_variable>
#include <new>

#include "common.h"
#include "driver.h"

static Corpus& corpus = *new Corpus;
static std::string& self_path = *new std::string;

// ---------------------------------------------------------------------------------------------
// Plan
// ---------------------------------------------------------------------------------------------
struct TCall
{
    std::string src;
    i64 fail_at = -1;
};
struct Switch
{
    int t;
    u64 n;
    int to;
};
struct Plan
{
    std::string profile;
    std::vector<std::vector<TCall>> threads;
    int kind = 0;       // scheduling strategy, see pick()
    u64 param = 1;
    u64 seed = 0;
    u64 est = 1000;     // expected number of scheduling points
    bool explicit_ = false;
    std::vector<Switch> sw;

    std::string text() const
    {
        std::ostringstream o;
        o << "profile " << profile << "\n";
        for (size_t t = 0; t < threads.size(); ++t) {
            o << "thread\n";
            for (auto& c : threads[t])
                o << "call fail_at=" << c.fail_at << " src=" << enc(c.src) << "\n";
        }
        if (explicit_) {
            o << "schedule explicit\n";
            for (auto& s : sw)
                o << "switch " << s.t << " " << s.n << " " << s.to << "\n";
        } else {
            o << "schedule " << kind << " " << param << " " << seed << " " << est << "\n";
        }
        return o.str();
    }
    static Plan parse(const std::string& t)
    {
        Plan p;
        std::istringstream in(t);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line);
            std::string w;
            l >> w;
            if (w == "profile")
                l >> p.profile;
            else if (w == "thread")
                p.threads.push_back({});
            else if (w == "call" && !p.threads.empty()) {
                TCall c;
                std::string kv;
                while (l >> kv) {
                    if (kv.rfind("src=", 0) == 0)
                        c.src = dec(kv.substr(4));
                    if (kv.rfind("fail_at=", 0) == 0)
                        c.fail_at = std::atoll(kv.c_str() + 8);
                }
                p.threads.back().push_back(c);
            } else if (w == "schedule") {
                std::string k;
                l >> k;
                if (k == "explicit")
                    p.explicit_ = true;
                else {
                    p.kind = std::atoi(k.c_str());
                    l >> p.param >> p.seed >> p.est;
                }
            } else if (w == "switch") {
                Switch s{};
                l >> s.t >> s.n >> s.to;
                p.sw.push_back(s);
            }
        }
        return p;
    }
};

struct Out : RunOutcome
{
};

// ---------------------------------------------------------------------------------------------
// Shared with the parent
// ---------------------------------------------------------------------------------------------
struct Shared
{
    volatile u64 len, lost, in_len;
    volatile u64 yields, switches, forced;
    volatile u64 nsw;
    volatile u64 site_hash;
    volatile u64 failed;          // allocations that failed
    volatile u64 probes[16];
    volatile u64 counts[8];       // scheduling points of each thread
    char fail_class[64];
    char fail_text[512];
    volatile u64 fail_pc[2];
    Switch sw[1 << 16];
    char in[4 << 20];
    char rec[16 << 20];
};
static Shared* sh;
enum
{
    PR_GLOBAL_WRITE, PR_GLOBAL_READ, PR_FOREIGN_HEAP, PR_FOREIGN_STACK, PR_LOCK, PR_LOCK_WAIT, PR_ATOMIC, PR_EXIT, PR_SECOND_EXIT, PR_GUARD, PR_GUARD_WAIT, PR_UNSAFE_LIBC, PR_SWITCH_IN_EXIT
};
static const char* const probe_name[] = {"global_writes", "global_reads", "foreign_heap", "foreign_stack", "locks", "lock_waits", "atomics", "exit_called", "second_exit_parked", "static_init", "static_init_waits", "unsafe_libc", "switches_during_exit"};

static void rec_raw(const void* p, size_t n)
{
    if (sh->len + n > sizeof sh->rec) {
        sh->lost = 1;
        return;
    }
    memcpy(sh->rec + sh->len, p, n);
    sh->len = sh->len + n;
}
static void rec64(u64 v)
{
    rec_raw(&v, 8);
}

// ---------------------------------------------------------------------------------------------
// Memory layout
// ---------------------------------------------------------------------------------------------
constexpr int MAXT = 5; // 0 is everything before the threads start
constexpr u64 ARENA_BASE = 0x100000000000ULL, ARENA_SIZE = 32ULL << 20;
constexpr u64 STACK_BASE = 0x180000000000ULL, STACK_SIZE = 1ULL << 20;
constexpr u64 SHADOW_BASE = 0x200000000000ULL;
extern "C" char __data_start, _end;

struct Cell
{
    uint32_t w_clk, w_pc;
    uint8_t w_tid, w_mask, w_atomic, freed;
    uint8_t r_mask[MAXT], r_atomic[MAXT];
    uint16_t pad;
    uint32_t r_clk[MAXT], r_pc[MAXT];
};
static_assert(sizeof(Cell) == 64);

struct VC
{
    uint32_t c[MAXT];
};

enum State
{
    RUNNABLE, BLOCKED, DONE, PARKED
};
struct Thr
{
    int id = 0;
    State st = RUNNABLE;
    const void* wait_on = nullptr;
    u64 n = 0;      // scheduling points passed
    VC vc{};
    uint32_t futex = 0;
    bool in_rt = false;
    // allocator
    u64 top = 0;
    struct FreeBlk* fl[64] = {};
    i64 allocs = 0, fail_at = -1;
    // explicit schedule
    size_t next_sw = 0;
    int prio = 0;
};
static Thr thr[MAXT];
static int nthr;             // threads 1..nthr
static int cur;
static __thread Thr* self;
static bool active;          // threads are running
static bool boot = true;     // static initialisation
static int exiting;
static u64 total, cap = 60000000;

[[noreturn]] static void fail_run(const char* cls, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->fail_text, sizeof sh->fail_text, fmt, ap);
    va_end(ap);
    snprintf(sh->fail_class, sizeof sh->fail_class, "%s", cls);
    sh->yields = total;
    _exit(88);
}

// ---------------------------------------------------------------------------------------------
// Scheduler
// ---------------------------------------------------------------------------------------------
static int s_kind;
static u64 s_param, s_rng, s_count, s_points[16];
static int s_npoints;
static bool s_explicit;
static Switch* s_sw[MAXT];   // explicit schedule of each thread
static size_t s_nsw[MAXT];

static u64 srnd()
{
    u64 r = mix64(s_rng);
    s_rng += 0x9E3779B97F4A7C15ULL;
    return r;
}

static void futex_wait(uint32_t* p)
{
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
static void futex_post(uint32_t* p)
{
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

static void log_switch(Thr* t, int to)
{
    if (sh->nsw < sizeof sh->sw / sizeof sh->sw[0])
        sh->sw[sh->nsw] = {t->id, t->n, to};
    sh->nsw = sh->nsw + 1;
}

static void go(Thr* t, int to)
{
    sh->switches = sh->switches + 1;
    if (exiting)
        sh->probes[PR_SWITCH_IN_EXIT]++;
    cur = to;
    futex_post(&thr[to].futex);
    if (t->st != DONE)
        futex_wait(&t->futex);
}

static int runnable(int* out)
{
    int n = 0;
    for (int i = 1; i <= nthr; ++i)
        if (thr[i].st == RUNNABLE)
            out[n++] = i;
    return n;
}

static int best_prio()
{
    int b = 0;
    for (int i = 1; i <= nthr; ++i)
        if (thr[i].st == RUNNABLE && (!b || thr[i].prio > thr[b].prio))
            b = i;
    return b;
}

// what kind of point this is
enum
{
    P_HEAP, P_SHARED, P_SYNC
};

// who runs after this point; t itself to go on
static int choose(Thr* t, int what)
{
    int r[MAXT];
    if (s_explicit) {
        size_t& k = t->next_sw;
        while (k < s_nsw[t->id] && s_sw[t->id][k].n < t->n)
            ++k;
        if (k < s_nsw[t->id] && s_sw[t->id][k].n == t->n) {
            int to = s_sw[t->id][k].to;
            ++k;
            if (to >= 1 && to <= nthr && thr[to].st == RUNNABLE)
                return to;
        }
        return t->id;
    }
    bool sw = false;
    switch (s_kind) {
    case 0: // random gaps
        if (s_count-- == 0) {
            sw = true;
            s_count = srnd() % (2 * s_param);
        }
        break;
    case 1: // at shared accesses and calls only
        if (what != P_HEAP && srnd() % s_param == 0)
            sw = true;
        break;
    case 2: // a few chosen instants
        for (int i = 0; i < s_npoints; ++i)
            if (s_points[i] == total)
                sw = true;
        break;
    case 3: // priorities that change at a few chosen instants
        for (int i = 0; i < s_npoints; ++i)
            if (s_points[i] == total)
                t->prio = -1 - i;
        return best_prio();
    case 4: // lockstep
        if (++s_count % s_param == 0) {
            for (int k = 1; k <= nthr; ++k) {
                int to = (t->id - 1 + k) % nthr + 1;
                if (thr[to].st == RUNNABLE)
                    return to;
            }
        }
        return t->id;
    case 5: // at writes to shared memory and around locks, else random gaps
        if ((what == P_SHARED && srnd() % s_param == 0) || (what == P_SYNC && srnd() % 4 == 0))
            sw = true;
        break;
    default:
        break;
    }
    if (!sw)
        return t->id;
    const int n = runnable(r);
    return r[srnd() % (u64)n];
}

static void point(Thr* t, int what, u64 site)
{
    t->n++;
    total++;
    if (total > cap)
        fail_run("no_end", "more than %llu scheduling points", (unsigned long long)cap);
    int to = choose(t, what);
    if (to == t->id && t->n % 400000 == 0) { // nobody waits for ever
        for (int k = 1; k <= nthr; ++k) {
            int o = (t->id - 1 + k) % nthr + 1;
            if (o != t->id && thr[o].st == RUNNABLE) {
                to = o;
                sh->forced = sh->forced + 1;
                for (int i = 1; i <= nthr; ++i)
                    if (thr[i].prio <= t->prio)
                        t->prio = thr[i].prio - 1;
                break;
            }
        }
    }
    if (to != t->id) {
        log_switch(t, to);
        sh->site_hash = mix64(sh->site_hash ^ site ^ ((u64)to << 56));
        go(t, to);
    }
}

// the current thread cannot go on
static void leave(Thr* t)
{
    t->n++;
    int r[MAXT];
    const int n = runnable(r);
    if (!n) {
        if (t->st == DONE) {
            bool all = true;
            for (int i = 1; i <= nthr; ++i)
                all &= thr[i].st == DONE;
            if (all) {
                rec64(0xE4D);
                sh->yields = total;
                for (int i = 1; i <= nthr; ++i)
                    sh->counts[i] = thr[i].n;
                _exit(0);
            }
        }
        fail_run("deadlock", "no thread can go on");
    }
    int to = 0;
    if (s_explicit) {
        to = choose(t, P_SYNC);
        if (to == t->id)
            to = r[0];
    } else if (s_kind == 3) {
        to = best_prio();
    } else {
        to = r[srnd() % (u64)n];
    }
    log_switch(t, to);
    go(t, to);
}

static void block_on(Thr* t, const void* p)
{
    t->st = BLOCKED;
    t->wait_on = p;
    leave(t);
}
static void wake(const void* p)
{
    for (int i = 1; i <= nthr; ++i)
        if (thr[i].st == BLOCKED && thr[i].wait_on == p) {
            thr[i].st = RUNNABLE;
            thr[i].wait_on = nullptr;
        }
}

// ---------------------------------------------------------------------------------------------
// Happens-before
// ---------------------------------------------------------------------------------------------
struct Sync
{
    const void* addr;
    VC vc;
    int owner;     // writer of a lock
    int depth;
    int readers;
    int rd[MAXT];
};
static Sync syncs[4096];
static Sync* sync_of(const void* p)
{
    size_t i = mix64((u64)p) % 4096;
    for (int k = 0; k < 4096; ++k, i = (i + 1) % 4096) {
        if (syncs[i].addr == p)
            return &syncs[i];
        if (!syncs[i].addr) {
            syncs[i].addr = p;
            return &syncs[i];
        }
    }
    fail_run("simulator", "too many locks");
}
static void acquire(Thr* t, Sync* s)
{
    for (int i = 0; i < MAXT; ++i)
        if (s->vc.c[i] > t->vc.c[i])
            t->vc.c[i] = s->vc.c[i];
}
static void release(Thr* t, Sync* s, bool merge)
{
    for (int i = 0; i < MAXT; ++i)
        if (!merge || t->vc.c[i] > s->vc.c[i])
            s->vc.c[i] = t->vc.c[i];
    t->vc.c[t->id]++;
}

static Cell* shadow(u64 a)
{
    // arenas, then globals
    if (a - ARENA_BASE < ARENA_SIZE * MAXT)
        return (Cell*)SHADOW_BASE + (a - ARENA_BASE) / 8;
    const u64 g = (u64)&__data_start & ~7ULL;
    if (a >= g && a < (u64)&_end)
        return (Cell*)SHADOW_BASE + ARENA_SIZE * MAXT / 8 + (a - g) / 8;
    return nullptr;
}

static void race(Thr* t, u64 a, bool write, u64 pc, int other, bool owrite, uint32_t opc)
{
    sh->fail_pc[0] = pc;
    sh->fail_pc[1] = opc;
    const bool heap = a - ARENA_BASE < ARENA_SIZE * MAXT;
    fail_run("race", "%s of %s memory by thread %d and %s by thread %d without synchronisation", write ? "write" : "read", heap ? "heap" : "global", t->id, owrite ? "write" : "read", other);
}

static void check_cell(Thr* t, Cell* c, u64 a, uint8_t m, bool write, bool atomic, u64 pc)
{
    const int id = t->id;
    if (c->freed) {
        sh->fail_pc[0] = pc;
        sh->fail_pc[1] = c->w_pc;
        fail_run("use_after_free", "thread %d %s heap memory that %s", id, write ? "writes" : "reads", c->w_tid == id ? "it has released" : "another thread has released");
    }
    if ((c->w_mask & m) && c->w_tid != id && c->w_clk > t->vc.c[c->w_tid] && !(atomic && c->w_atomic))
        race(t, a, write, pc, c->w_tid, true, c->w_pc);
    if (write) {
        for (int u = 1; u <= nthr; ++u)
            if (u != id && (c->r_mask[u] & m) && c->r_clk[u] > t->vc.c[u] && !(atomic && c->r_atomic[u]))
                race(t, a, true, pc, u, false, c->r_pc[u]);
        if (c->w_tid == id && c->w_clk == t->vc.c[id])
            c->w_mask |= m;
        else
            c->w_mask = m;
        c->w_tid = (uint8_t)id;
        c->w_clk = t->vc.c[id];
        c->w_atomic = atomic;
        c->w_pc = (uint32_t)pc;
    } else {
        if (c->r_clk[id] == t->vc.c[id])
            c->r_mask[id] |= m;
        else
            c->r_mask[id] = m;
        c->r_clk[id] = t->vc.c[id];
        c->r_atomic[id] = atomic;
        c->r_pc[id] = (uint32_t)pc;
    }
}

// before an access: a scheduling point, then the race check
static void access(const void* p, size_t n, bool write, bool atomic, u64 pc)
{
    Thr* t = self;
    if (!t || !active || t->in_rt || !n)
        return;
    u64 a = (u64)p;
    if (a - STACK_BASE < STACK_SIZE * MAXT) {
        if ((a - STACK_BASE) / STACK_SIZE == (u64)t->id)
            return;
        sh->probes[PR_FOREIGN_STACK]++;
        t->in_rt = true;
        point(t, P_SHARED, pc);
        t->in_rt = false;
        return;
    }
    Cell* c = shadow(a);
    if (!c)
        return;
    t->in_rt = true;
    const bool heap = a - ARENA_BASE < ARENA_SIZE * MAXT;
    int what = P_HEAP;
    if (!heap) {
        what = P_SHARED;
        sh->probes[write ? PR_GLOBAL_WRITE : PR_GLOBAL_READ]++;
    } else if ((a - ARENA_BASE) / ARENA_SIZE != (u64)t->id) {
        what = P_SHARED;
        sh->probes[PR_FOREIGN_HEAP]++;
    }
    point(t, what, pc);
    const u64 end = a + n;
    while (a < end) {
        const u64 g = a & ~7ULL;
        const u64 e = end < g + 8 ? end : g + 8;
        const uint8_t m = (uint8_t)(((1u << (e - a)) - 1) << (a - g));
        check_cell(t, shadow(g), a, m, write, atomic, pc);
        a = e;
    }
    t->in_rt = false;
}
#define PC ((u64)__builtin_return_address(0))

// a call into a library function: scheduling point
static Thr* call_point(u64 pc, int what = P_SYNC)
{
    Thr* t = self;
    if (!t || !active || t->in_rt)
        return nullptr;
    t->in_rt = true;
    point(t, what, pc);
    t->in_rt = false;
    return t;
}

// ---------------------------------------------------------------------------------------------
// Allocator: each thread its own addresses
// ---------------------------------------------------------------------------------------------
struct FreeBlk
{
    u64 magic, size, room;
    FreeBlk* next;
};
constexpr u64 MAGIC = 0x7A110CA7EDULL;

static void cells(void* p, u64 n, bool freed, Thr* t, u64 pc)
{
    Cell* c = shadow((u64)p);
    for (u64 i = 0; i < (n + 7) / 8; ++i) {
        memset(&c[i], 0, sizeof(Cell));
        c[i].freed = freed;
        c[i].w_pc = (uint32_t)pc;
        c[i].w_tid = t ? (uint8_t)t->id : 0;
    }
}

static bool in_arena(const void* p)
{
    return (u64)p - ARENA_BASE < ARENA_SIZE * MAXT;
}

static void* sim_alloc(size_t n, u64 pc)
{
    Thr* t = self;
    if (t && active && !t->in_rt) {
        call_point(pc);
        const i64 k = t->allocs++;
        if (k == t->fail_at) {
            sh->failed = sh->failed + 1;
            return nullptr;
        }
    } else if (boot) {
        t = &thr[0];
        if (!t->top && mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED)
            _exit(2);
    } else {
        return malloc(n);
    }
    const u64 room = n ? (n + 31) & ~31ULL : 32;
    const u64 k = room / 32;
    FreeBlk* b;
    if (k < 64 && t->fl[k]) {
        b = t->fl[k];
        t->fl[k] = b->next;
    } else {
        if (t->top + room + sizeof(FreeBlk) > ARENA_SIZE) {
            if (room > ARENA_SIZE / 2 || !active)
                return nullptr;
            fail_run("too_large", "the heap of the simulation is exhausted");
        }
        b = (FreeBlk*)(ARENA_BASE + (u64)t->id * ARENA_SIZE + t->top);
        t->top += room + sizeof(FreeBlk);
    }
    b->magic = MAGIC;
    b->size = n;
    b->room = room;
    if (active)
        cells(b + 1, room, false, t, pc);
    memset(b + 1, 0xA5, room);
    return b + 1;
}

static void sim_release(void* p, u64 pc)
{
    if (!p)
        return;
    if (!in_arena(p)) {
        free(p);
        return;
    }
    FreeBlk* b = (FreeBlk*)p - 1;
    Thr* t = self;
    if (t && active && !t->in_rt) {
        call_point(pc);
        if (b->magic != MAGIC)
            fail_run("bad_free", "thread %d releases memory that is not allocated", t->id);
        t->in_rt = true;
        // releasing is a write to the whole block
        const u64 a = (u64)p;
        for (u64 i = 0; i < (b->size + 7) / 8; ++i)
            check_cell(t, shadow(a + 8 * i), a + 8 * i, 0xFF, true, false, pc);
        t->in_rt = false;
        cells(p, b->room, true, t, pc);
    } else if (!boot) {
        return;
    }
    b->magic = 0xDEAD;
    memset(p, 0xDD, b->size);
    const u64 owner = ((u64)p - ARENA_BASE) / ARENA_SIZE;
    const u64 k = b->room / 32;
    if (k < 64 && owner != 0) {
        b->next = thr[owner].fl[k];
        thr[owner].fl[k] = b;
    }
}

extern "C" {
void* sim_malloc(size_t n) { return sim_alloc(n, PC); }
void sim_free(void* p) { sim_release(p, PC); }
void* sim_calloc(size_t a, size_t b)
{
    void* p = sim_alloc(a * b, PC);
    if (p)
        memset(p, 0, a * b);
    return p;
}
void* sim_realloc(void* p, size_t n)
{
    if (!p)
        return sim_alloc(n, PC);
    if (!in_arena(p))
        return realloc(p, n);
    void* q = sim_alloc(n, PC);
    if (q) {
        const size_t old = ((FreeBlk*)p - 1)->size;
        memcpy(q, p, old < n ? old : n);
        sim_release(p, PC);
    }
    return q;
}
char* sim_strdup(const char* s)
{
    const size_t n = strlen(s) + 1;
    access(s, n, false, false, PC);
    char* p = (char*)sim_alloc(n, PC);
    if (p)
        memcpy(p, s, n);
    return p;
}
static void* new_(size_t n, u64 pc)
{
    void* p = sim_alloc(n, pc);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* sim__Znwm(size_t n) { return new_(n, PC); }
void* sim__Znam(size_t n) { return new_(n, PC); }
void* sim__ZnwmRKSt9nothrow_t(size_t n, const void*) { return sim_alloc(n, PC); }
void* sim__ZnamRKSt9nothrow_t(size_t n, const void*) { return sim_alloc(n, PC); }
void sim__ZdlPv(void* p) { sim_release(p, PC); }
void sim__ZdaPv(void* p) { sim_release(p, PC); }
void sim__ZdlPvm(void* p, size_t) { sim_release(p, PC); }
void sim__ZdaPvm(void* p, size_t) { sim_release(p, PC); }

// ---------------------------------------------------------------------------------------------
// Instrumentation callbacks
// ---------------------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define ACC(N) \
    void __tsan_read##N(void* p) { access(p, N, false, false, PC); } \
    void __tsan_write##N(void* p) { access(p, N, true, false, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, false, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, false, PC); } \
    void __tsan_unaligned_volatile_read##N(void* p) { access(p, N, false, false, PC); } \
    void __tsan_unaligned_volatile_write##N(void* p) { access(p, N, true, false, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, long n) { access(p, (size_t)n, false, false, PC); }
void __tsan_write_range(void* p, long n) { access(p, (size_t)n, true, false, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, false, PC); }

static void at_before(const volatile void* p, size_t n, bool write, int mo, u64 pc)
{
    Thr* t = self;
    if (!t || !active || t->in_rt)
        return;
    sh->probes[PR_ATOMIC]++;
    access((const void*)p, n, write, true, pc);
    if (!shadow((u64)p))
        call_point(pc);
    (void)mo;
}
static void at_sync(const volatile void* p, bool load, bool store, int mo)
{
    Thr* t = self;
    if (!t || !active || t->in_rt)
        return;
    Sync* s = sync_of((const void*)p);
    const bool acq = mo == 1 || mo == 2 || mo == 4 || mo == 5, rel = mo == 3 || mo == 4 || mo == 5;
    if (load && acq)
        acquire(t, s);
    if (store) {
        if (rel)
            release(t, s, load);
        else if (!load) // a plain relaxed store ends the release sequence
            memset(&s->vc, 0, sizeof s->vc);
    }
}
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) { at_before(p, sizeof(T), false, mo, PC); T v = __atomic_load_n(p, 5); at_sync(p, true, false, mo); return v; } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { at_before(p, sizeof(T), true, mo, PC); at_sync(p, false, true, mo); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { at_before(p, sizeof(T), true, mo, PC); at_sync(p, true, true, mo); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { at_before(p, sizeof(T), true, mo, PC); at_sync(p, true, true, mo); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { at_before(p, sizeof(T), true, mo, PC); at_sync(p, true, true, mo); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { at_before(p, sizeof(T), true, mo, PC); at_sync(p, true, true, mo); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { at_before(p, sizeof(T), true, mo, PC); at_sync(p, true, true, mo); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { at_before(p, sizeof(T), true, mo, PC); at_sync(p, true, true, mo); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { at_before(p, sizeof(T), true, mo, PC); at_sync(p, true, true, mo); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T d, int mo, int fmo) { at_before(p, sizeof(T), true, mo, PC); bool ok = __atomic_compare_exchange_n(p, e, d, false, 5, 5); at_sync(p, true, ok, ok ? mo : fmo); return ok; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T d, int mo, int fmo) { at_before(p, sizeof(T), true, mo, PC); bool ok = __atomic_compare_exchange_n(p, e, d, false, 5, 5); at_sync(p, true, ok, ok ? mo : fmo); return ok; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T d, int mo, int fmo) { at_before(p, sizeof(T), true, mo, PC); bool ok = __atomic_compare_exchange_n(p, &e, d, false, 5, 5); at_sync(p, true, ok, ok ? mo : fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static int fence_obj;
void __tsan_atomic_thread_fence(int mo)
{
    // over-approximates ordering: fences synchronise with each other
    if (Thr* t = call_point(PC)) {
        Sync* s = sync_of(&fence_obj);
        acquire(t, s);
        release(t, s, true);
    }
    (void)mo;
}
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------------------------------------
// Locks
// ---------------------------------------------------------------------------------------------
static bool lock_try(Thr* t, Sync* s, bool shared)
{
    if (shared) {
        if (s->owner && s->owner != t->id)
            return false;
        if (s->owner)
            return false;
        s->readers++;
        s->rd[t->id]++;
    } else {
        if (s->owner == t->id)
            return false;
        if (s->owner || s->readers)
            return false;
        s->owner = t->id;
        s->depth = 1;
    }
    acquire(t, s);
    return true;
}
static int do_lock(const void* m, bool shared, bool try_, bool recursive, u64 pc)
{
    Thr* t = call_point(pc);
    if (!t)
        return 0;
    t->in_rt = true;
    sh->probes[PR_LOCK]++;
    Sync* s = sync_of(m);
    int r = 0;
    if (recursive && s->owner == t->id)
        s->depth++;
    else
        while (!lock_try(t, s, shared)) {
            if (try_) {
                r = EBUSY;
                break;
            }
            sh->probes[PR_LOCK_WAIT]++;
            block_on(t, m);
        }
    t->in_rt = false;
    return r;
}
static int do_unlock(const void* m, u64 pc)
{
    Thr* t = self;
    if (!t || !active || t->in_rt)
        return 0;
    t->in_rt = true;
    Sync* s = sync_of(m);
    if (s->owner == t->id) {
        if (--s->depth == 0) {
            s->owner = 0;
            release(t, s, true);
            wake(m);
        }
    } else if (s->rd[t->id]) {
        s->rd[t->id]--;
        s->readers--;
        release(t, s, true);
        if (!s->readers)
            wake(m);
    } else {
        fail_run("bad_unlock", "thread %d releases a lock it does not hold", t->id);
    }
    t->in_rt = false;
    call_point(pc);
    return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t* m) { return do_lock(m, false, false, m->__data.__kind & 1, PC); }
int sim_pthread_mutex_trylock(pthread_mutex_t* m) { return do_lock(m, false, true, m->__data.__kind & 1, PC); }
int sim_pthread_mutex_timedlock(pthread_mutex_t* m, const void*) { return do_lock(m, false, false, m->__data.__kind & 1, PC); }
int sim_pthread_mutex_unlock(pthread_mutex_t* m) { return do_unlock(m, PC); }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return do_lock(m, true, false, false, PC); }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return do_lock(m, false, false, false, PC); }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return do_lock(m, true, true, false, PC); }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return do_lock(m, false, true, false, PC); }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* m) { return do_unlock(m, PC); }
int sim_pthread_spin_lock(pthread_spinlock_t* m) { return do_lock((const void*)m, false, false, false, PC); }
int sim_pthread_spin_trylock(pthread_spinlock_t* m) { return do_lock((const void*)m, false, true, false, PC); }
int sim_pthread_spin_unlock(pthread_spinlock_t* m) { return do_unlock((const void*)m, PC); }
// a wait may always end spuriously: release, let others run, take again
static void cond_wait(const void* m, u64 pc)
{
    do_unlock(m, pc);
    call_point(pc);
    do_lock(m, false, false, false, pc);
}
int sim_pthread_cond_wait(void*, pthread_mutex_t* m) { cond_wait(m, PC); return 0; }
void sim__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void*, std::unique_lock<std::mutex>* l) { cond_wait(l->mutex()->native_handle(), PC); }
void sim__ZNSt18condition_variable10notify_oneEv(void*) { call_point(PC); }
void sim__ZNSt18condition_variable10notify_allEv(void*) { call_point(PC); }
int sim_pthread_cond_signal(void*) { call_point(PC); return 0; }
int sim_pthread_cond_broadcast(void*) { call_point(PC); return 0; }
int sim_sched_yield() { call_point(PC); return 0; }
int sim_nanosleep(const void*, void*) { call_point(PC); return 0; }
int sim_usleep(unsigned) { call_point(PC); return 0; }

// initialisation of static variables inside functions
static int once_begin(const void* g, const volatile uint8_t* done, u64 pc)
{
    Thr* t = call_point(pc);
    if (!t)
        return *done ? 0 : 2;
    t->in_rt = true;
    sh->probes[PR_GUARD]++;
    Sync* s = sync_of(g);
    int r;
    for (;;) {
        if (*done) {
            acquire(t, s);
            r = 0;
            break;
        }
        if (!s->owner) {
            s->owner = t->id;
            acquire(t, s);
            r = 1;
            break;
        }
        sh->probes[PR_GUARD_WAIT]++;
        block_on(t, g);
    }
    t->in_rt = false;
    return r;
}
static void once_end(const void* g, volatile uint8_t* done, bool ok, u64 pc)
{
    if (ok)
        *done = 1;
    Thr* t = self;
    if (!t || !active || t->in_rt)
        return;
    t->in_rt = true;
    Sync* s = sync_of(g);
    s->owner = 0;
    release(t, s, true);
    wake(g);
    t->in_rt = false;
    call_point(pc);
}
int sim___cxa_guard_acquire(uint64_t* g) { return once_begin(g, (volatile uint8_t*)g, PC) ? 1 : 0; }
void sim___cxa_guard_release(uint64_t* g) { once_end(g, (volatile uint8_t*)g, true, PC); }
void sim___cxa_guard_abort(uint64_t* g) { once_end(g, (volatile uint8_t*)g, false, PC); }
int sim_pthread_once(pthread_once_t* o, void (*fn)())
{
    const u64 pc = PC;
    if (once_begin(o, (volatile uint8_t*)o, pc)) {
        try {
            fn();
        } catch (...) {
            once_end(o, (volatile uint8_t*)o, false, pc);
            throw;
        }
        once_end(o, (volatile uint8_t*)o, true, pc);
    }
    return 0;
}

// ---------------------------------------------------------------------------------------------
// C library
// ---------------------------------------------------------------------------------------------
#define RD(p, n) access((p), (n), false, false, PC)
#define WR(p, n) access((p), (n), true, false, PC)
void* sim_memcpy(void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { RD(s, n); WR(d, n); return memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { WR(d, n); return memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { RD(a, n); RD(b, n); return memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, size_t n) { RD(a, n); return (void*)memchr(a, c, n); }
size_t sim_strlen(const char* s) { RD(s, strlen(s) + 1); return strlen(s); }
size_t sim_strnlen(const char* s, size_t m) { RD(s, strnlen(s, m)); return strnlen(s, m); }
int sim_strcmp(const char* a, const char* b) { RD(a, strlen(a) + 1); RD(b, strlen(b) + 1); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, size_t n) { RD(a, strnlen(a, n)); RD(b, strnlen(b, n)); return strncmp(a, b, n); }
int sim_strcasecmp(const char* a, const char* b) { RD(a, strlen(a) + 1); RD(b, strlen(b) + 1); return strcasecmp(a, b); }
int sim_strncasecmp(const char* a, const char* b, size_t n) { RD(a, strnlen(a, n)); RD(b, strnlen(b, n)); return strncasecmp(a, b, n); }
char* sim_strchr(const char* s, int c) { RD(s, strlen(s) + 1); return (char*)strchr(s, c); }
char* sim_strrchr(const char* s, int c) { RD(s, strlen(s) + 1); return (char*)strrchr(s, c); }
char* sim_strstr(const char* a, const char* b) { RD(a, strlen(a) + 1); RD(b, strlen(b) + 1); return (char*)strstr(a, b); }
char* sim_strpbrk(const char* a, const char* b) { RD(a, strlen(a) + 1); RD(b, strlen(b) + 1); return (char*)strpbrk(a, b); }
size_t sim_strspn(const char* a, const char* b) { RD(a, strlen(a) + 1); return strspn(a, b); }
size_t sim_strcspn(const char* a, const char* b) { RD(a, strlen(a) + 1); return strcspn(a, b); }
char* sim_strcpy(char* d, const char* s) { RD(s, strlen(s) + 1); WR(d, strlen(s) + 1); return strcpy(d, s); }
char* sim_strncpy(char* d, const char* s, size_t n) { RD(s, strnlen(s, n)); WR(d, n); return strncpy(d, s, n); }
char* sim_strcat(char* d, const char* s) { RD(s, strlen(s) + 1); WR(d, strlen(d) + strlen(s) + 1); return strcat(d, s); }
char* sim_strncat(char* d, const char* s, size_t n) { RD(s, strnlen(s, n)); WR(d, strlen(d) + strnlen(s, n) + 1); return strncat(d, s, n); }
int sim_vsnprintf(char* d, size_t n, const char* f, va_list ap)
{
    char tmp[64];
    va_list aq;
    va_copy(aq, ap);
    const int need = vsnprintf(tmp, sizeof tmp, f, aq);
    va_end(aq);
    if (n && need >= 0)
        WR(d, (size_t)need + 1 < n ? (size_t)need + 1 : n);
    return vsnprintf(d, n, f, ap);
}
int sim_snprintf(char* d, size_t n, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    const int r = sim_vsnprintf(d, n, f, ap);
    va_end(ap);
    return r;
}
int sim_vsprintf(char* d, const char* f, va_list ap)
{
    return sim_vsnprintf(d, 1 << 20, f, ap);
}
int sim_sprintf(char* d, const char* f, ...)
{
    va_list ap;
    va_start(ap, f);
    const int r = sim_vsnprintf(d, 1 << 20, f, ap);
    va_end(ap);
    return r;
}
int sim_vfprintf(FILE* o, const char* f, va_list ap) { call_point(PC); return vfprintf(o, f, ap); }
int sim_fprintf(FILE* o, const char* f, ...)
{
    call_point(PC);
    va_list ap;
    va_start(ap, f);
    const int r = vfprintf(o, f, ap);
    va_end(ap);
    return r;
}
int sim_fputs(const char* s, FILE* o) { RD(s, strlen(s) + 1); call_point(PC); return fputs(s, o); }
int sim_fputc(int c, FILE* o) { call_point(PC); return fputc(c, o); }
int sim_putc(int c, FILE* o) { call_point(PC); return fputc(c, o); }
int sim_puts(const char* s) { call_point(PC); return puts(s); }
size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* o) { RD(p, a * b); call_point(PC); return fwrite(p, a, b, o); }
int sim_fflush(FILE* o) { call_point(PC); return fflush(o); }

// functions that keep hidden state: a call counts as a write of that state
static char hidden[16][8];
static void unsafe(int k, u64 pc)
{
    if (self && active && !self->in_rt)
        sh->probes[PR_UNSAFE_LIBC]++;
    access(hidden[k], 8, true, false, pc);
}
char* sim_strtok(char* s, const char* d) { unsafe(0, PC); return strtok(s, d); }
char* sim_setlocale(int c, const char* l);
struct tm* sim_localtime(const time_t* t) { unsafe(2, PC); return localtime(t); }
struct tm* sim_gmtime(const time_t* t) { unsafe(2, PC); return gmtime(t); }
char* sim_ctime(const time_t* t) { unsafe(2, PC); return ctime(t); }
char* sim_strerror(int e) { unsafe(3, PC); return strerror(e); }
int sim_setenv(const char* a, const char* b, int c) { unsafe(4, PC); return setenv(a, b, c); }
int sim_unsetenv(const char* a) { unsafe(4, PC); return unsetenv(a); }
int sim_putenv(char* a) { unsafe(4, PC); return putenv(a); }
struct lconv* sim_localeconv();

void sim_exit(int code)
{
    Thr* t = self;
    if (t && active && !t->in_rt) {
        call_point(PC);
        if (exiting) {
            // the C library lets only one thread leave
            sh->probes[PR_SECOND_EXIT]++;
            t->in_rt = true;
            t->st = PARKED;
            leave(t);
        }
        exiting = t->id;
        sh->probes[PR_EXIT]++;
        rec64(0xE817);
        rec64((u64)t->id);
        call_point(PC);
    }
    exit(code);
}
void sim_abort() { abort(); }

void simthr_result(int kind, const uint64_t* data, unsigned long words)
{
    // record of one finished call; thread and call were written by the caller's frame
    rec64(0xCA11);
    rec64((u64)self->id);
    rec64((u64)kind);
    rec64((u64)self->allocs);
    rec64(words * 8);
    rec_raw(data, words * 8);
}
void simthr_call(const char* src, unsigned long len, const char* name);
} // extern "C"

#include <locale.h>
extern "C" char* sim_setlocale(int c, const char* l)
{
    access(hidden[1], 8, l != nullptr, false, PC);
    return setlocale(c, l);
}
extern "C" struct lconv* sim_localeconv()
{
    unsafe(5, PC);
    return localeconv();
}

// ---------------------------------------------------------------------------------------------
// A run
// ---------------------------------------------------------------------------------------------
static const Plan* the_plan;
static pthread_key_t end_key;
static pthread_t handles[MAXT];

static void thread_end(void* p)
{
    // last code of a thread, after the destructors of its thread-local objects
    Thr* t = (Thr*)p;
    t->in_rt = true;
    t->st = DONE;
    leave(t);
}

static void* thread_main(void* p)
{
    Thr* t = (Thr*)p;
    self = t;
    t->in_rt = true;
    pthread_setspecific(end_key, t);
    futex_wait(&t->futex);
    static const char* const names[] = {"in.s", "in.s", "in.s", "in.s", "in.s"};
    for (auto& c : the_plan->threads[(size_t)t->id - 1]) {
        t->allocs = 0;
        t->fail_at = c.fail_at;
        t->in_rt = false;
        simthr_call(c.src.data(), c.src.size(), names[t->id]);
        t->in_rt = true;
    }
    t->in_rt = false; // destructors of thread-local objects are observed
    return nullptr;
}

static int err_fd = -1;
static std::string take_err()
{
    struct stat st;
    fstat(err_fd, &st);
    std::string s((size_t)st.st_size, 0);
    (void)!pread(err_fd, s.data(), s.size(), 0);
    (void)!ftruncate(err_fd, 0);
    lseek(err_fd, 0, SEEK_SET);
    return s;
}

static void run_child(const Plan* pl)
{
    dup2(err_fd, 2);
    rlimit c0{0, 0};
    setrlimit(RLIMIT_CORE, &c0);
    rlimit rl{40, 45};
    setrlimit(RLIMIT_CPU, &rl);
    the_plan = pl;
    nthr = (int)pl->threads.size();
    s_explicit = pl->explicit_;
    s_kind = pl->kind;
    s_param = pl->param ? pl->param : 1;
    s_rng = pl->seed;
    s_count = s_kind == 0 ? srnd() % (2 * s_param) : 0;
    if (s_kind == 2 || s_kind == 3) {
        s_npoints = (int)(s_param < 16 ? s_param : 16);
        for (int i = 0; i < s_npoints; ++i)
            s_points[i] = 1 + srnd() % (pl->est ? pl->est : 1);
    }
    for (int i = 1; i <= nthr; ++i) {
        std::vector<Switch>* v = new std::vector<Switch>;
        for (auto& s : pl->sw)
            if (s.t == i)
                v->push_back(s);
        s_sw[i] = v->data();
        s_nsw[i] = v->size();
    }
    int prios[MAXT];
    for (int i = 1; i <= nthr; ++i)
        prios[i] = i;
    for (int i = nthr; i > 1; --i)
        std::swap(prios[i], prios[1 + srnd() % (u64)i]);
    pthread_key_create(&end_key, thread_end);
    thr[0].vc.c[0] = 1;
    for (int i = 1; i <= nthr; ++i) {
        thr[i].id = i;
        thr[i].vc.c[0] = 1; // everything before is ordered
        thr[i].vc.c[i] = 1;
        thr[i].prio = 10 + prios[i];
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void*)(STACK_BASE + (u64)i * STACK_SIZE), STACK_SIZE);
        if (pthread_create(&handles[i], &at, thread_main, &thr[i])) {
            fail_run("simulator", "no thread");
        }
    }
    int first = 1;
    if (s_explicit) {
        for (auto& s : pl->sw)
            if (s.t == 0 && s.to >= 1 && s.to <= nthr)
                first = s.to;
    } else
        first = s_kind == 3 ? best_prio() : 1 + (int)(srnd() % (u64)nthr);
    Thr none;
    log_switch(&none, first);
    active = true;
    cur = first;
    futex_post(&thr[first].futex);
    for (;;)
        pause();
}

static int zyg_cmd[2], zyg_ans[2];
static void zygote()
{
    u64 x;
    while (read(zyg_cmd[0], &x, 8) == 8) {
        pid_t pid = fork();
        if (pid == 0) {
            static Plan p;
            p = Plan::parse(std::string(sh->in, sh->in_len));
            run_child(&p);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        if (write(zyg_ans[1], &st, sizeof st) != sizeof st)
            break;
    }
    _exit(0);
}

static int run_in_zygote(const std::string& plan)
{
    sh->len = sh->lost = sh->yields = sh->switches = sh->forced = sh->nsw = sh->failed = 0;
    sh->site_hash = 1;
    sh->fail_class[0] = sh->fail_text[0] = 0;
    sh->fail_pc[0] = sh->fail_pc[1] = 0;
    for (auto& p : sh->probes)
        p = 0;
    if (plan.size() > sizeof sh->in) {
        std::fprintf(stderr, "simulator: plan too large\n");
        std::exit(2);
    }
    std::memcpy(sh->in, plan.data(), plan.size());
    sh->in_len = plan.size();
    take_err();
    int st = 0;
    u64 go_ = 1;
    if (write(zyg_cmd[1], &go_, 8) != 8 || read(zyg_ans[0], &st, sizeof st) != sizeof st) {
        std::fprintf(stderr, "simulator: zygote lost\n");
        std::exit(2);
    }
    return st;
}

struct Ref
{
    int kind = 0; // 1 image, 2 rejected
    std::string image, message;
    int status = 0;
    u64 points = 0, allocs = 0;
};
static const Ref& reference(const std::string& src)
{
    static std::unordered_map<std::string, Ref>& cache = *new std::unordered_map<std::string, Ref>;
    auto it = cache.find(src);
    if (it != cache.end())
        return it->second;
    if (cache.size() > 6000)
        cache.clear();
    Ref r;
    Plan p;
    p.profile = "reference";
    p.threads.push_back({TCall{src, -1}});
    p.explicit_ = true;
    const int st = run_in_zygote(p.text());
    r.message = take_err();
    r.points = sh->yields;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->len >= 48 && !sh->lost) {
        u64 w[5];
        std::memcpy(w, sh->rec, sizeof w);
        if (w[2] == 1) {
            r.kind = 1;
            r.allocs = w[3];
            r.image.assign(sh->rec + 40, w[4]);
        }
    } else if (WIFEXITED(st) && WEXITSTATUS(st) != 88 && !r.message.empty()) {
        r.kind = 2;
        r.status = WEXITSTATUS(st);
        r.points = 20000;
        r.allocs = 60;
    }
    return cache.emplace(src, std::move(r)).first->second;
}

static std::string where(u64 pc)
{
    if (!pc)
        return "?";
    char cmd[512];
    std::snprintf(cmd, sizeof cmd, "addr2line -C -s -f -e '%s' 0x%llx 2>/dev/null", self_path.c_str(), (unsigned long long)pc - 1);
    std::string out;
    if (FILE* f = popen(cmd, "r")) {
        char b[512];
        while (fgets(b, sizeof b, f))
            out += b;
        pclose(f);
    }
    for (char& c : out)
        if (c == '\n')
            c = ' ';
    return out;
}

static std::map<std::string, std::vector<Switch>>& recorded = *new std::map<std::string, std::vector<Switch>>;

static Out execute(const Plan& plan, bool want_trace)
{
    Out out;
    Hash log;
    for (auto& t : plan.threads)
        for (auto& c : t)
            (void)reference(c.src);
    const int st = run_in_zygote(plan.text());
    const std::string err = take_err();
    const bool exited = WIFEXITED(st);
    const int code = exited ? WEXITSTATUS(st) : -1;
    const std::string rec(sh->rec, sh->len);
    const std::string ending = exited ? "exit status " + std::to_string(code) : "signal " + std::to_string(WTERMSIG(st));
    std::vector<Switch> sw;
    for (u64 i = 0; i < sh->nsw && i < sizeof sh->sw / sizeof sh->sw[0]; ++i)
        sw.push_back(sh->sw[i]);
    const bool sw_full = sh->nsw <= sizeof sh->sw / sizeof sh->sw[0];
    const std::string fclass = sh->fail_class, ftext = sh->fail_text;
    const u64 pcs[2] = {sh->fail_pc[0], sh->fail_pc[1]};
    const u64 yields = sh->yields, switches = sh->switches, failed = sh->failed;
    u64 pr[16];
    for (int i = 0; i < 16; ++i)
        pr[i] = sh->probes[i];
    const bool lost = sh->lost;
    log.add(sh->site_hash);
    for (auto& s : sw) {
        log.add((u64)s.t);
        log.add(s.n);
        log.add((u64)s.to);
    }
    log.add((u64)st);
    if (exited)
        log.add(err);
    log.add(fclass);
    log.add(ftext);
    const auto tr = [&](const std::string& s) {
        if (want_trace)
            out.trace += "  " + s + "\n";
    };
    if (want_trace) {
        size_t k = 0;
        for (auto& s : sw) {
            if (++k > 60) {
                tr("... " + std::to_string(sw.size() - 60) + " more switches");
                break;
            }
            tr(s.t ? "thread " + std::to_string(s.t) + " at its point " + std::to_string(s.n) + ": switch to thread " + std::to_string(s.to) : "start with thread " + std::to_string(s.to));
        }
    }
    if (fclass == "too_large") {
        out.probe["too_large"]++;
        out.hash = log.h;
        return out;
    }
    // rejecting threads
    int rejecting = 0, reject_thread = 0;
    std::string message;
    bool anything = false;
    for (size_t t = 0; t < plan.threads.size(); ++t)
        for (auto& c : plan.threads[t]) {
            const Ref& r = reference(c.src);
            if (r.kind == 0)
                anything = true;
            if (r.kind == 2) {
                rejecting++;
                reject_thread = (int)t + 1;
                message = r.message;
                break;
            }
        }
    std::vector<size_t> done(plan.threads.size() + 1, 0);
    size_t pos = 0;
    bool ended = false;
    int exit_by = 0;
    const auto get = [&](u64& v) {
        if (pos + 8 > rec.size())
            return false;
        std::memcpy(&v, rec.data() + pos, 8);
        pos += 8;
        return true;
    };
    u64 v;
    if (fclass == "simulator") {
        std::fprintf(stderr, "simulator: %s\n", ftext.c_str());
        std::exit(2);
    }
    while (!out.bad() && get(v)) {
        if (v == 0xE4D) {
            ended = true;
            break;
        }
        if (v == 0xE817) {
            get(v);
            exit_by = (int)v;
            tr("thread " + std::to_string(exit_by) + " calls exit");
            continue;
        }
        u64 t, kind, allocs, n;
        if (v != 0xCA11 || !get(t) || !get(kind) || !get(allocs) || !get(n) || pos + n > rec.size())
            break;
        const std::string img(rec.data() + pos, n);
        pos += n;
        const size_t i = done[t]++;
        log.add(t);
        log.add(kind);
        log.add(img);
        tr("thread " + std::to_string(t) + " call " + std::to_string(i) + (kind == 1 ? ": image of " + std::to_string(n) + " bytes" : kind == 2 ? ": out of memory" : ": exception"));
        const TCall& c = plan.threads[t - 1][i];
        const Ref& r = reference(c.src);
        if (kind == 1) {
            if (r.kind == 1 && img != r.image)
                out.violate("wrong_image", "thread " + std::to_string(t) + ", call " + std::to_string(i) + ": the image differs from that of the source assembled alone");
            else if (r.kind == 2)
                out.violate("accepted", "thread " + std::to_string(t) + ", call " + std::to_string(i) + ": accepted a source that is rejected when assembled alone");
        } else if (kind == 2) {
            if (c.fail_at < 0)
                out.violate("exception", "thread " + std::to_string(t) + " ran out of memory without cause");
        } else if (r.kind) {
            out.violate("exception", "thread " + std::to_string(t) + " threw");
        }
    }
    if (!fclass.empty() && !out.bad()) {
        std::string text = ftext;
        if (pcs[0] && want_trace) {
            text += " (" + where(pcs[0]) + "/ " + where(pcs[1]) + ")";
        }
        out.violate(fclass, text);
        tr(fclass + ": " + text);
    }
    if (!out.bad() && !lost && !anything) {
        if (ended) {
            for (size_t t = 0; t < plan.threads.size(); ++t)
                for (size_t i = 0; i < plan.threads[t].size(); ++i)
                    if (reference(plan.threads[t][i].src).kind == 2 && plan.threads[t][i].fail_at < 0 && done[t + 1] > i)
                        out.violate("accepted", "a rejected source did not end the process");
        } else {
            tr("process ended with " + ending + "; stderr: " + err);
            if (!exited)
                out.violate("crash", "the process died of signal " + std::to_string(WTERMSIG(st)) + (exit_by ? " while thread " + std::to_string(exit_by) + " was exiting" : "") + ": " + err.substr(0, 300));
            else if (!rejecting)
                out.violate("spurious_failure", "the process ended with " + ending + " although every source is valid: " + err.substr(0, 300));
            else if (code == 0)
                out.violate("bad_status", "a source was rejected, but the process ended with status 0");
            else if (rejecting == 1 && err != message)
                out.violate("wrong_message", "stderr is \"" + err.substr(0, 300) + "\" instead of \"" + message.substr(0, 300) + "\"");
            else if (rejecting == 1 && exit_by && exit_by != reject_thread)
                out.violate("wrong_thread", "thread " + std::to_string(exit_by) + " ended the process");
            else
                out.probe["rejected_while_others_ran"]++;
        }
    }
    for (auto& x : out.violations)
        log.add(x.first);
    for (int i = 0; i < 13; ++i)
        if (pr[i])
            out.probe[probe_name[i]] += pr[i];
    if (failed)
        out.fired["alloc_failed"] += failed;
    if (switches)
        out.fired["preemptions"] += switches;
    if (plan.kind == 3 && !plan.explicit_)
        out.fired["stalled_thread_runs"]++;
    out.hash = log.h;
    out.steps = (i64)yields;
    out.switches = switches;
    out.nontrivial = switches > plan.threads.size();
    if (out.bad() && !plan.explicit_ && sw_full)
        recorded[plan.text()] = sw;
    return out;
}

// ---------------------------------------------------------------------------------------------
// Generation
// ---------------------------------------------------------------------------------------------
static std::string any_source(Rng& r, bool want_valid, const std::string* fam)
{
    GenOpts o;
    o.max_insns = r.chance(1, 20) ? 30 : (int)r.range(1, 5);
    o.family = fam;
    for (int i = 0; i < 20; ++i) {
        std::string s;
        if (want_valid) {
            s = r.chance(1, 8) ? gen_odd(r, corpus) : gen_program(r, corpus, o);
        } else if (r.chance(1, 2))
            s = gen_invalid(r, corpus, o);
        else {
            std::string how;
            s = gen_damage(r, gen_program(r, corpus, o), how);
        }
        if (s.size() > 20000)
            continue;
        const Ref& ref = reference(s);
        if (want_valid ? ref.kind == 1 : ref.kind == 2)
            return s;
    }
    return want_valid ? "NOP;\n" : "NOP\n";
}

static Plan generate(u64 seed, const std::string& prof)
{
    Rng r(mix64(seed ^ hash_str(prof)));
    Plan p;
    p.profile = prof;
    const int n = r.chance(1, 2) ? 2 : (int)r.range(2, 4);
    std::string fam;
    if (r.chance(1, 2)) {
        auto it = corpus.family.begin();
        std::advance(it, (long)r.below(corpus.family.size()));
        fam = it->first;
    }
    const std::string* f = fam.empty() ? nullptr : &fam;
    const bool same = r.chance(1, 3);
    const std::string common = same ? any_source(r, true, f) : "";
    const int rejecting = r.chance(2, 5) ? (int)r.below((u64)n) : -1;
    const bool several = rejecting >= 0 && r.chance(1, 8);
    const bool oom = r.chance(1, 6);
    u64 est = 0;
    for (int t = 0; t < n; ++t) {
        std::vector<TCall> v;
        const int k = r.chance(2, 3) ? 1 : (int)r.range(1, 3);
        for (int i = 0; i < k; ++i) {
            TCall c;
            const bool bad = (t == rejecting || several) && i + 1 == k;
            c.src = bad ? any_source(r, false, f) : same ? common : any_source(r, true, f);
            const Ref& ref = reference(c.src);
            est += ref.points;
            if (oom && !bad && r.chance(1, 2))
                c.fail_at = (i64)r.below(ref.allocs + 1);
            v.push_back(c);
        }
        p.threads.push_back(v);
    }
    p.est = est;
    p.seed = r.next();
    p.kind = (int)r.below(6);
    switch (p.kind) {
    case 0: p.param = 1ULL << r.below(13); break;
    case 1: p.param = 1 + r.below(8); break;
    case 2: p.param = 1 + r.below(5); break;
    case 3: p.param = r.below(5); break;
    case 4: p.param = 1ULL << r.below(9); break;
    default: p.param = 1 + r.below(4); break;
    }
    if (p.kind == 3 && p.param == 0)
        p.param = 1;
    return p;
}

static std::vector<Plan> reductions(const Plan& p)
{
    std::vector<Plan> v;
    if (!p.explicit_) {
        // the same schedule written out
        auto it = recorded.find(p.text());
        if (it == recorded.end())
            return v;
        Plan q = p;
        q.explicit_ = true;
        q.sw = it->second;
        v.push_back(q);
        return v;
    }
    // fewer threads
    const size_t n = p.threads.size();
    for (size_t t = 0; n > 1 && t < n; ++t) {
        Plan q = p;
        q.threads.erase(q.threads.begin() + (long)t);
        q.sw.clear();
        for (auto s : p.sw) {
            if (s.t == (int)t + 1 || s.to == (int)t + 1)
                continue;
            if (s.t > (int)t + 1)
                s.t--;
            if (s.to > (int)t + 1)
                s.to--;
            q.sw.push_back(s);
        }
        v.push_back(q);
    }
    // fewer switches
    const size_t m = p.sw.size();
    for (size_t parts : {(size_t)1, (size_t)2, (size_t)4, (size_t)8, (size_t)16}) {
        if (m < parts)
            break;
        const size_t w = (m + parts - 1) / parts;
        for (size_t a = 0; a < m; a += w) {
            Plan q = p;
            q.sw.erase(q.sw.begin() + (long)a, q.sw.begin() + (long)std::min(m, a + w));
            v.push_back(q);
        }
    }
    if (m <= 40)
        for (size_t i = 0; i < m; ++i) {
            Plan q = p;
            q.sw.erase(q.sw.begin() + (long)i);
            v.push_back(q);
        }
    // fewer calls, no failures, shorter sources
    for (size_t t = 0; t < n; ++t)
        for (size_t i = 0; i < p.threads[t].size(); ++i) {
            if (p.threads[t].size() > 1) {
                Plan q = p;
                q.threads[t].erase(q.threads[t].begin() + (long)i);
                v.push_back(q);
            }
            const TCall& c = p.threads[t][i];
            if (c.fail_at >= 0) {
                Plan q = p;
                q.threads[t][i].fail_at = -1;
                v.push_back(q);
            }
            std::vector<std::string> lines;
            std::istringstream in(c.src);
            std::string l;
            while (std::getline(in, l))
                lines.push_back(l + "\n");
            if (lines.size() > 1 && lines.size() < 40)
                for (size_t k = 0; k < lines.size(); ++k) {
                    std::string s;
                    for (size_t j = 0; j < lines.size(); ++j)
                        if (j != k)
                            s += lines[j];
                    if (reference(s).kind != reference(c.src).kind)
                        continue;
                    Plan q = p;
                    q.threads[t][i].src = s;
                    v.push_back(q);
                }
        }
    return v;
}

static u64 state_hash(const Plan&, const Out& o)
{
    return o.hash;
}

int main(int argc, char** argv)
{
    boot = false;
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        if (personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) != -1)
            execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a = parse_args(argc, argv);
    {
        char b[4096];
        ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
        self_path.assign(b, n > 0 ? (size_t)n : 0);
    }
    // threads of a run take turns: one processor serves them best
    if (a.count("worker")) {
        cpu_set_t have, s;
        CPU_ZERO(&have);
        if (!sched_getaffinity(0, sizeof have, &have) && CPU_COUNT(&have) > 0) {
            int want = std::atoi(a["worker"].c_str()) % CPU_COUNT(&have);
            for (int i = 0; i < CPU_SETSIZE; ++i)
                if (CPU_ISSET(i, &have) && want-- == 0) {
                    CPU_ZERO(&s);
                    CPU_SET(i, &s);
                    sched_setaffinity(0, sizeof s, &s);
                }
        }
    }
    err_fd = memfd_create("err", MFD_CLOEXEC);
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (err_fd < 0 || sh == MAP_FAILED || pipe(zyg_cmd) || pipe(zyg_ans))
        return 2;
    const u64 gsize = ((u64)&_end - ((u64)&__data_start & ~7ULL)) / 8 + 2;
    const u64 ssize = (ARENA_SIZE * MAXT / 8 + gsize) * sizeof(Cell);
    const int fl = MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE;
    if (mmap((void*)SHADOW_BASE, ssize, PROT_READ | PROT_WRITE, fl, -1, 0) == MAP_FAILED ||
        mmap((void*)STACK_BASE, STACK_SIZE * MAXT, PROT_READ | PROT_WRITE, fl, -1, 0) == MAP_FAILED)
        return 2;
    if (mmap((void*)(ARENA_BASE + ARENA_SIZE), ARENA_SIZE * (MAXT - 1), PROT_READ | PROT_WRITE, fl, -1, 0) == MAP_FAILED)
        return 2;
    if (fork() == 0) {
        close(zyg_cmd[1]);
        close(zyg_ans[0]);
        zygote();
    }
    close(zyg_cmd[0]);
    close(zyg_ans[1]);
    signal(SIGPIPE, SIG_IGN);
    corpus.load(a["corpus"]);
    return drive<Plan, Out>(a, generate, execute, reductions, state_hash);
}
