// Deterministic simulation of the library inside one process: histories of calls (C09), failing
// allocations (C10), damaged storage of the source (C11), little memory and stack (C19), and what a call
// leaves behind in its caller's process (C21).
//
// Each run is a forked child. The simulator owns the allocator (addresses, contents of fresh and
// recycled memory, failures), the stack the call starts on, errno, the locale, the bytes of the
// source, and counts executed steps. The library is the real code of the tree.
#include <fcntl.h>
#include <locale.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#endif
#include <cerrno>
#include <csignal>
#include <locale>
#include <new>

#include "common.h"
#include "driver.h"
#include "words.h"
#include "nxas.h"
#ifndef SIM_ASAN
#include "state.h"
#endif

static Corpus corpus;
static std::string locdir;

// ---------------------------------------------------------------------------------------------
// Allocator
// ---------------------------------------------------------------------------------------------
#ifndef SIM_ASAN
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
}

struct Arena
{
    char* base = nullptr;
    size_t size = 0, top = 0, call_top = 0;
    bool on = false;
    int fill = 0;     // contents of fresh memory
    int reuse = 0;    // 0: never, 1: last freed first, 2: first freed first
    int skew = 0;     // gaps between blocks
    u64 seed = 0;
    u64 count = 0;    // allocations of this call
    i64 live = 0, live_bytes = 0;
    i64 fail_at = -1; // index of the failing allocation
    bool fail_on = false; // and all later ones
    i64 fail_also = -1;
    u64 failed = 0;
    i64 limit = 0;    // bytes that may be in use at once, 0: no limit
    i64 peak = 0;
};
static Arena ar;

struct Block
{
    u64 magic;
    u64 size;
    Block* next;
    u64 pad;
};
static Block* free_head[128];
static Block* free_tail[128];

// blocks up to 2 KB come in steps of 32 bytes, larger ones in powers of two
static int klass(size_t n)
{
    size_t k = (n + 31) / 32;
    if (k < 63)
        return (int)k;
    int c = 63;
    for (size_t room = 4096; room < n && c < 127; room *= 2)
        ++c;
    return c;
}
static size_t klass_room(int k)
{
    return k < 63 ? (size_t)k * 32 : (size_t)4096 << (k - 63);
}

static void paint(void* p, size_t n, int fill, u64 seed)
{
    unsigned char* b = (unsigned char*)p;
    switch (fill) {
    case 0: std::memset(p, 0, n); break;
    case 1: std::memset(p, 0xFF, n); break;
    case 2: std::memset(p, 0xA5, n); break;
    case 3: std::memset(p, 0x01, n); break;
    case 4: std::memset(p, ';', n); break;
    case 5:
        for (size_t i = 0; i < n; ++i)
            b[i] = (unsigned char)(mix64(seed + i / 8) >> (8 * (i % 8)));
        break;
    case 6: {
        static const char t[] = "R0, R1;\nlab_0:\nMOV R3, R4 @WAIT 5;\n";
        for (size_t i = 0; i < n; ++i)
            b[i] = (unsigned char)t[i % (sizeof t - 1)];
        break;
    }
    default: // plausible pointers
        for (size_t i = 0; i + 8 <= n; i += 8) {
            u64 v = (u64)ar.base + (mix64(seed + i) % 65536 & ~7ULL);
            std::memcpy(b + i, &v, 8);
        }
        break;
    }
}

static void* arena_alloc(size_t n)
{
    const u64 idx = ar.count++;
    if ((ar.fail_at >= 0 && (idx == (u64)ar.fail_at || (ar.fail_on && idx > (u64)ar.fail_at))) || (ar.fail_also >= 0 && idx == (u64)ar.fail_also)) {
        ar.failed++;
        return nullptr;
    }
    if (ar.limit && (n > (512u << 20) || ar.live_bytes + (i64)n > ar.limit)) {
        ar.failed++;
        return nullptr;
    }
    if (n > (512u << 20))
        return nullptr; // no system has that much to give
    const size_t want = (n + 15) & ~(size_t)15;
    const int k = klass(want ? want : 16);
    Block* b = nullptr;
    if (ar.reuse && free_head[k]) {
        b = free_head[k];
        free_head[k] = b->next;
        if (!b->next)
            free_tail[k] = nullptr;
    } else {
        size_t room = k < 63 || ar.reuse ? klass_room(k) : want;
        size_t gap = ar.skew ? (mix64(ar.seed + idx) % (u64)ar.skew) * 16 : 0;
        if (ar.top + gap + room + sizeof(Block) + 64 > ar.size) {
            // arena exhausted: a history this large is outside the simulation, one call that large is not
            if (ar.top - ar.call_top > (ar.size / 4) * 3)
                return nullptr;
            _exit(97);
        }
        b = (Block*)(ar.base + ar.top + gap);
        ar.top += gap + room + sizeof(Block);
        b->pad = room;
    }
    b->magic = 0x51A110CULL;
    b->size = n;
    ar.live++;
    ar.live_bytes += (i64)n;
    ar.peak = std::max(ar.peak, ar.live_bytes);
    paint(b + 1, want, ar.fill, ar.seed + idx * 977);
    return b + 1;
}

static bool in_arena(void* p)
{
    return (char*)p >= ar.base && (char*)p < ar.base + ar.size;
}

static void arena_free(void* p)
{
    Block* b = (Block*)p - 1;
    if (b->magic != 0x51A110CULL) {
        static const char m[] = "simulator: bad free\n";
        (void)!write(2, m, sizeof m - 1);
        abort();
    }
    b->magic = 0xDEAD;
    ar.live--;
    ar.live_bytes -= (i64)b->size;
    paint(p, b->size, ar.fill, ar.seed ^ 0x5555);
    const int k = klass(b->pad);
    if (!ar.reuse || b->pad != klass_room(k))
        return;
    if (ar.reuse == 1) {
        b->next = free_head[k];
        free_head[k] = b;
        if (!b->next)
            free_tail[k] = b;
    } else {
        b->next = nullptr;
        if (free_tail[k])
            free_tail[k]->next = b;
        else
            free_head[k] = b;
        free_tail[k] = b;
    }
}

static void* sim_malloc(size_t n)
{
    return ar.on ? arena_alloc(n) : __real_malloc(n);
}
static void sim_free(void* p)
{
    if (!p)
        return;
    if (in_arena(p))
        arena_free(p);
    else
        __real_free(p);
}

extern "C" {
void* __wrap_malloc(size_t n)
{
    return sim_malloc(n);
}
void __wrap_free(void* p)
{
    sim_free(p);
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (!ar.on)
        return __real_calloc(a, b);
    void* p = sim_malloc(a * b);
    if (p)
        std::memset(p, 0, a * b);
    return p;
}
void* __wrap_realloc(void* p, size_t n)
{
    if (!ar.on && !(p && in_arena(p)))
        return __real_realloc(p, n);
    void* q = sim_malloc(n);
    if (!q)
        return nullptr;
    if (p) {
        size_t old = in_arena(p) ? (size_t)((Block*)p - 1)->size : n;
        std::memcpy(q, p, std::min(old, n));
        sim_free(p);
    }
    return q;
}
char* __wrap_strdup(const char* s)
{
    size_t n = std::strlen(s) + 1;
    char* p = (char*)sim_malloc(n);
    if (p)
        std::memcpy(p, s, n);
    return p;
}
char* __wrap_strndup(const char* s, size_t m)
{
    size_t n = strnlen(s, m);
    char* p = (char*)sim_malloc(n + 1);
    if (p) {
        std::memcpy(p, s, n);
        p[n] = 0;
    }
    return p;
}
}
void* operator new(size_t n)
{
    void* p = sim_malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n)
{
    return operator new(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    return sim_malloc(n ? n : 1);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept
{
    return sim_malloc(n ? n : 1);
}
void operator delete(void* p) noexcept { sim_free(p); }
void operator delete[](void* p) noexcept { sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p); }
#endif

// ---------------------------------------------------------------------------------------------
// Clock, process number, environment and randomness: decided by the plan
// ---------------------------------------------------------------------------------------------
static u64 world;     // 0: neutral
static u64 world_asked;
#ifndef SIM_ASAN
extern "C" {
char* __real_getenv(const char*);
static u64 ask(const char* what)
{
    if (!ar.on)
        return 0;
    const u64 k = world_asked++;
    return world ? mix64(world * 0x9E3779B97F4A7C15ULL + k + hash_str(what)) : 0;
}
time_t __wrap_time(time_t* t)
{
    const time_t v = 1600000000 + (time_t)(ask("time") % 2000000000);
    if (t)
        *t = v;
    return v;
}
int __wrap_clock_gettime(clockid_t, struct timespec* ts)
{
    const u64 v = ask("clock");
    ts->tv_sec = 1600000000 + (time_t)(v % 2000000000);
    ts->tv_nsec = (long)(v >> 32) % 1000000000;
    return 0;
}
int __wrap_gettimeofday(struct timeval* tv, void*)
{
    const u64 v = ask("clock");
    tv->tv_sec = 1600000000 + (time_t)(v % 2000000000);
    tv->tv_usec = (long)(v >> 32) % 1000000;
    return 0;
}
clock_t __wrap_clock(void)
{
    return (clock_t)(ask("cpu") % 100000000);
}
i64 __wrap__ZNSt6chrono3_V212system_clock3nowEv(void)
{
    return 1600000000000000000LL + (i64)(ask("clock") % 1000000000000000000ULL);
}
i64 __wrap__ZNSt6chrono3_V212steady_clock3nowEv(void)
{
    return 1000000000LL + (i64)(ask("clock") % 1000000000000000ULL);
}
pid_t __wrap_getpid(void)
{
    return 1000 + (pid_t)(ask("pid") % 30000);
}
static bool true_rand; // C21: the caller's own sequence
int __wrap_rand(void)
{
    if (true_rand)
        return __real_rand();
    return (int)(ask("rand") & 0x7fffffff);
}
long __wrap_random(void)
{
    if (true_rand)
        return __real_rand();
    return (long)(ask("rand") & 0x7fffffff);
}
char* __wrap_getenv(const char* n)
{
    static char one[] = "1", empty[] = "", text[] = "vertex";
    if (!ar.on)
        return __real_getenv(n);
    if (!world)
        return nullptr;
    switch (mix64(world + hash_str(n)) % 4) {
    case 0: return one;
    case 1: return empty;
    case 2: return own_words.empty() || world % 3 == 0 ? text : (char*)own_words[mix64(world) % own_words.size()].c_str();
    default: return nullptr;
    }
}
char* __wrap_secure_getenv(const char* n)
{
    return __wrap_getenv(n);
}
}
#endif

// ---------------------------------------------------------------------------------------------
// Steps (C11): every edge executed in the library
// ---------------------------------------------------------------------------------------------
struct Shared
{
    volatile u64 steps;
    volatile u64 cap;
    volatile u64 over;
    volatile u64 stuck; // waits for ever
    volatile u64 len;   // bytes of the record
    volatile u64 lost;
    volatile u64 in_len; // the plan to run
    volatile u64 exit_seen; // the caller's exit handlers ran
    volatile u64 said;      // bytes the caller wrote to standard output
    volatile u64 wrote_err; // 1 + the first call that came back after something was written to standard error
    char note[400];         // what a call changed in the process
    char in[32 << 20];
    char rec[48 << 20];
};
static Shared* sh;
static u64 steps_left = ~0ULL;
#ifdef SIM_ASAN
extern "C" __attribute__((no_sanitize_address)) void __sanitizer_cov_trace_pc(void)
{
    if (--steps_left == 0) {
        sh->over = 1;
        _exit(77);
    }
}
#endif

static void record(const void* p, size_t n)
{
    if (sh->len + n > sizeof sh->rec) {
        sh->lost = 1;
        return;
    }
    std::memcpy(sh->rec + sh->len, p, n);
    sh->len = sh->len + n;
}
static void record64(u64 v)
{
    record(&v, 8);
}

// ---------------------------------------------------------------------------------------------
// Plan
// ---------------------------------------------------------------------------------------------
struct Call
{
    std::string src;
    int fill = 0, stack = 0, err = 0, loc = 0, depth = 0;
    int inplace = 0;   // reuse the buffer of the previous source
    int repeat = 1;
    int world = 0;     // clock, process number, environment variables
    int name = 0;      // which file name is passed
    int vary = 0;      // each repetition has one more line end behind it
    int tight = 0;     // little heap and stack: just what the source entitles it to
    i64 fail_at = -1, fail_on = 0, fail_also = -1;
};

struct Plan
{
    std::string profile;
    u64 base = 0; // arena address selector
    int reuse = 0, skew = 0;
    std::vector<Call> calls;
    std::string damage; // how the last source was made (informative)

    std::string text() const
    {
        std::ostringstream o;
        o << "profile " << profile << "\n";
        o << "arena " << base << " " << reuse << " " << skew << "\n";
        for (auto& c : calls)
            o << "call fill=" << c.fill << " stack=" << c.stack << " errno=" << c.err << " locale=" << c.loc << " depth=" << c.depth << " inplace=" << c.inplace << " repeat=" << c.repeat << " world=" << c.world << " name=" << c.name << " vary=" << c.vary << " tight=" << c.tight << " fail_at=" << c.fail_at << " fail_on=" << c.fail_on << " fail_also=" << c.fail_also << " src=" << enc(c.src) << "\n";
        if (!damage.empty())
            o << "# damage: " << damage << "\n";
        return o.str();
    }
    static Plan parse(const std::string& t)
    {
        Plan p;
        std::istringstream in(t);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line);
            std::string w;
            l >> w;
            if (w == "profile")
                l >> p.profile;
            else if (w == "arena")
                l >> p.base >> p.reuse >> p.skew;
            else if (w == "call") {
                Call c;
                std::string kv;
                while (l >> kv) {
                    size_t e = kv.find('=');
                    std::string k = kv.substr(0, e), v = kv.substr(e + 1);
                    if (k == "src")
                        c.src = dec(v);
                    i64 n = std::atoll(v.c_str());
                    if (k == "fill") c.fill = (int)n;
                    if (k == "stack") c.stack = (int)n;
                    if (k == "errno") c.err = (int)n;
                    if (k == "locale") c.loc = (int)n;
                    if (k == "depth") c.depth = (int)n;
                    if (k == "inplace") c.inplace = (int)n;
                    if (k == "repeat") c.repeat = (int)n;
                    if (k == "world") c.world = (int)n;
                    if (k == "name") c.name = (int)n;
                    if (k == "vary") c.vary = (int)n;
                    if (k == "tight") c.tight = (int)n;
                    if (k == "fail_at") c.fail_at = n;
                    if (k == "fail_on") c.fail_on = n;
                    if (k == "fail_also") c.fail_also = n;
                }
                p.calls.push_back(c);
            }
        }
        return p;
    }
};

struct Out : RunOutcome
{
};

// ---------------------------------------------------------------------------------------------
// The call itself
// ---------------------------------------------------------------------------------------------
enum Res
{
    IMAGE = 1, BAD_ALLOC = 2, OTHER_EXC = 3
};

static std::string* source_string;
static const char* source_name;
static const char* const file_names[] = {"in.s", "b.asm", "shaders/water/refraction pass with a long name.nxas", "x"};
static std::vector<u64>* result_vec;
static int call_res;

__attribute__((noinline)) static void do_call()
{
    try {
        *result_vec = nxas::assemble(*source_string, source_name);
        call_res = IMAGE;
    } catch (const std::bad_alloc&) {
        call_res = BAD_ALLOC;
    } catch (...) {
        call_res = OTHER_EXC;
    }
}

// leave recognisable garbage where the call's frames will be
__attribute__((noinline)) static void scribble(int fill, u64 seed)
{
    const size_t n = 96 * 1024;
    char* p = (char*)__builtin_alloca(n);
    unsigned char pat[256];
#ifndef SIM_ASAN
    paint(pat, sizeof pat, fill, seed);
#else
    std::memset(pat, fill, sizeof pat);
    (void)seed;
#endif
    for (size_t i = 0; i < n; i += 256)
        std::memcpy(p + i, pat, 256);
    asm volatile("" ::"r"(p) : "memory");
}

__attribute__((noinline)) static void deeper(int depth)
{
    if (depth <= 0) {
        do_call();
        return;
    }
    volatile char pad[48];
    pad[0] = (char)depth;
    deeper(depth - 1);
    pad[1] = pad[0];
}

// What a source of n bytes entitles its assembly to
static const size_t stack_room = 128 << 10;
static i64 heap_room(size_t n)
{
    return (1 << 20) + 300 * (i64)n;
}
// What may be kept between calls, n being the size of the largest source so far
static i64 kept_room(size_t n)
{
    return (512 << 10) + 32 * (i64)n;
}

#ifndef SIM_ASAN
static ucontext_t back_here, over_there;
static void on_small_stack(int depth)
{
    deeper(depth);
}
// The call on a stack of stack_room bytes, with nothing below it
static u64 small_stack_call(int depth, int fill)
{
    static char* area = nullptr;
    const size_t guard = (size_t)64 << 20;
    if (!area) {
        area = (char*)mmap(nullptr, guard + stack_room, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (area == MAP_FAILED || mprotect(area + guard, stack_room, PROT_READ | PROT_WRITE))
            _exit(99);
    }
    char* st = area + guard;
    std::memset(st, fill ? 0xA5 : 0, stack_room);
    getcontext(&over_there);
    over_there.uc_stack.ss_sp = st;
    over_there.uc_stack.ss_size = stack_room;
    over_there.uc_link = &back_here;
    makecontext(&over_there, (void (*)())on_small_stack, 1, depth);
    swapcontext(&back_here, &over_there);
    size_t k = 0;
    while (k < stack_room && st[k] == (char)(fill ? 0xA5 : 0))
        ++k;
    return stack_room - k;
}
#endif

struct Comma : std::numpunct<char>
{
    char do_decimal_point() const override
    {
        return ',';
    }
    char do_thousands_sep() const override
    {
        return '.';
    }
    std::string do_grouping() const override
    {
        return "\1";
    }
};

static bool set_locale(int l)
{
    switch (l) {
    case 0: return setlocale(LC_ALL, "C") != nullptr;
    case 1: return setlocale(LC_ALL, "de_DE.UTF-8") != nullptr;
    case 2: return setlocale(LC_NUMERIC, "de_DE.UTF-8") != nullptr;
    case 5: return setlocale(LC_ALL, "de_DE.ISO-8859-1") != nullptr;
    case 6: return setlocale(LC_ALL, "tr_TR.ISO-8859-9") != nullptr;
    case 3: {
        locale_t x = newlocale(LC_ALL_MASK, "de_DE.UTF-8", (locale_t)0);
        if (!x)
            return false;
        uselocale(x);
        return true;
    }
    default:
        std::locale::global(std::locale(std::locale::classic(), new Comma));
        return true;
    }
}

// ---------------------------------------------------------------------------------------------
// Reference: a fresh process, neutral environment
// ---------------------------------------------------------------------------------------------
struct Ref
{
    int kind = 0; // 1 image, 2 rejected with status 1, 0 anything else
    std::string image, message;
    u64 allocs = 0;
    std::optional<ModelImage> model;
};

static int err_fd = -1;
static std::string take_err()
{
    struct stat st;
    fstat(err_fd, &st);
    std::string s((size_t)st.st_size, 0);
    (void)!pread(err_fd, s.data(), s.size(), 0);
    (void)!ftruncate(err_fd, 0);
    lseek(err_fd, 0, SEEK_SET);
    return s;
}

static void child_setup()
{
    dup2(err_fd, 2);
    rlimit c0{0, 0};
    setrlimit(RLIMIT_CORE, &c0);
    rlimit rl{30, 35};
    setrlimit(RLIMIT_CPU, &rl);
    // at most 3 GB more than now
    if (FILE* f = std::fopen("/proc/self/statm", "r")) {
        unsigned long long v[6];
        if (std::fscanf(f, "%llu %llu %llu %llu %llu %llu", v, v + 1, v + 2, v + 3, v + 4, v + 5) == 6) {
            rlimit d{v[5] * 4096 + (3ULL << 30), v[5] * 4096 + (3ULL << 30)};
            setrlimit(RLIMIT_DATA, &d);
        }
        std::fclose(f);
    }
}

static void arena_setup(const Plan& p)
{
#ifndef SIM_ASAN
    ar.size = (size_t)2 << 30;
    void* want = (void*)(0x200000000000ULL + (p.base % 4096) * 0x10000000ULL);
    ar.base = (char*)mmap(want, ar.size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (ar.base == MAP_FAILED)
        _exit(99);
    ar.top = 4096 + (size_t)(p.base % 61) * 16;
    ar.reuse = p.reuse;
    ar.skew = p.skew;
#else
    (void)p;
#endif
}

#ifndef SIM_ASAN
// ---------------------------------------------------------------------------------------------
// The caller (C21): sets things up in ways of its own and looks whether they stay so
// ---------------------------------------------------------------------------------------------
static int out_fd = -1;
static unsigned caller_seed;
static const std::string *the_source, *the_copy;
static void changed(const std::string& what)
{
    if (!sh->note[0])
        std::snprintf(sh->note, sizeof sh->note, "%s", what.c_str());
}
static void own_handler(int) {}
static void own_new_handler()
{
    throw std::bad_alloc();
}
static void caller_setup(u64 x)
{
    dup2(out_fd, 1);
    caller_seed = (unsigned)x + 7;
    true_rand = true;
    std::atexit([] {
        sh->exit_seen = 1;
        if (the_source && *the_source != *the_copy)
            changed("the source differs when the exit handlers run");
    });
    x = mix64(x);
    if (x & 1)
        signal(SIGUSR1, own_handler);
    if (x & 2)
        signal(SIGINT, SIG_IGN);
    if (x & 4)
        std::set_new_handler(own_new_handler);
    sigset_t m;
    sigemptyset(&m);
    sigaddset(&m, SIGUSR2);
    if (x & 8)
        sigprocmask(SIG_BLOCK, &m, nullptr);
    if (x & 16)
        umask(077);
    if (x & 32)
        (void)!chdir("/");
    if (x & 64)
        setenv("NXAS_CALLER", "1", 1);
    if (x & 128)
        std::cerr << std::hex, std::cout.precision(3);
    if (x & 256)
        (void)!open("/dev/null", O_RDONLY);
    optind = 3;
}
static ProcessState caller_before(const Call& c, const std::string&)
{
    static const int mode[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    fesetround(c.world % 3 == 2 ? mode[c.world / 3 % 4] : FE_TONEAREST);
    // not flushed: it has to come out even if the call ends the process
    sh->said = sh->said + (u64)std::printf("caller\n");
    set_positions(caller_seed);
    return observe_state();
}
static void caller_after(const ProcessState& before, const std::string& what, u64 index)
{
    struct stat se{};
    fstat(err_fd, &se);
    if (se.st_size && !sh->wrote_err)
        sh->wrote_err = index + 1;
    const ProcessState after = observe_state();
    fesetround(FE_TONEAREST);
    if (!what.empty())
        changed(what + " was changed");
    for (size_t i = 0; i < after.v.size(); ++i)
        if (after.v[i].second != before.v[i].second)
            changed(after.v[i].first + " changed from \"" + before.v[i].second.substr(0, 150) + "\" to \"" + after.v[i].second.substr(0, 150) + "\"");
    const std::string p = ask_positions(caller_seed);
    if (!p.empty())
        changed(p + " changed");
    std::fflush(stdout);
    struct stat st{};
    fstat(out_fd, &st);
    if ((u64)st.st_size != sh->said)
        changed("something was written to standard output");
}
static void take_out()
{
    (void)!ftruncate(out_fd, 0);
    lseek(out_fd, 0, SEEK_SET);
}
#endif

// ---------------------------------------------------------------------------------------------
// A small process forked before anything else was allocated; every run is a child of it.
// ---------------------------------------------------------------------------------------------
static void run_child(const Plan* pl, u64 cap, bool c11)
{
    child_setup();
    if (c11 || pl->profile == "C19" || pl->profile == "reference") {
        const rlim_t t = c11 ? 60 : pl->profile == "C19" ? 20 : 10;
        rlimit rl{t, t + 5};
        setrlimit(RLIMIT_CPU, &rl);
    }
    arena_setup(*pl);
#ifndef SIM_ASAN
    const bool c21 = pl->profile == "C21";
    if (c21)
        caller_setup(pl->base);
#endif
    steps_left = cap ? cap : ~0ULL;
    std::string* reused = new std::string;
    std::vector<u64> result;
    result_vec = &result;
    for (size_t i = 0; i < pl->calls.size(); ++i) {
        const Call& c = pl->calls[i];
        for (int rep = 0; rep < c.repeat; ++rep) {
            record64(0xBE61);
            record64(i);
            std::string* s;
            if (c.inplace) {
                // the same buffer, with what is left of the previous source behind the end
                if (reused->capacity() < c.src.size())
                    reused->reserve(c.src.size() * 2 + 64);
                reused->assign(c.src);
                if (c.vary)
                    reused->append((size_t)rep, '\n');
                s = reused;
            } else {
                s = new std::string(c.src);
                if (c.vary)
                    s->append((size_t)rep, '\n');
                s->shrink_to_fit();
            }
#ifdef SIM_ASAN
            // nothing behind the terminating null may be looked at
            s->reserve(std::max<size_t>(32, s->size()));
            ASAN_POISON_MEMORY_REGION(s->data() + s->size() + 1, s->capacity() - s->size());
#endif
            source_string = s;
            std::string* name = new std::string(file_names[c.name & 3]);
            name->shrink_to_fit();
            source_name = name->c_str();
            world = (u64)c.world;
            world_asked = 0;
            set_locale(c.loc);
            call_res = 0;
            result.clear();
            result.shrink_to_fit();
            if (!c11)
                scribble(c.stack, 1000 + i);
#ifndef SIM_ASAN
            ar.fill = c.fill;
            ar.seed = mix64(pl->base * 31 + i);
            ar.count = 0;
            ar.call_top = ar.top;
            ar.failed = 0;
            ar.fail_at = c.fail_at;
            ar.fail_on = c.fail_on;
            ar.fail_also = c.fail_also;
            const i64 live0 = ar.live, bytes0 = ar.live_bytes;
            ar.limit = c.tight ? bytes0 + heap_room(s->size()) : 0;
            ar.peak = bytes0;
            u64 stack_used = 0;
            ProcessState before;
            std::string source_was, name_was;
            if (c21) {
                before = caller_before(c, *s);
                source_was = *s;
                name_was = *name;
                the_source = s;
                the_copy = &source_was;
            }
            ar.on = true;
#endif
            errno = c.err;
#ifndef SIM_ASAN
            if (c.tight)
                stack_used = small_stack_call(c.depth, c.stack);
            else
#endif
                deeper(c.depth);
#ifndef SIM_ASAN
            ar.on = false;
            ar.limit = 0;
            if (c21)
                caller_after(before, *s != source_was ? "the source" : *name != name_was ? "the file name" : "", i);
            const u64 peak = (u64)(ar.peak - bytes0);
            const i64 kept = ar.live_bytes - (in_arena(result.data()) ? (i64)((Block*)(void*)result.data() - 1)->size : 0);
            const u64 failed = ar.failed, count = ar.count;
            // the returned vector is the caller's
            i64 live1 = ar.live - (in_arena(result.data()) ? 1 : 0);
            ar.fail_at = ar.fail_also = -1;
#else
            const u64 failed = 0, count = 0;
            i64 live0 = 0, live1 = 0, kept = 0;
            const u64 peak = 0, stack_used = 0;
#endif
            if (c.loc == 3)
                uselocale(LC_GLOBAL_LOCALE);
            if (c.loc == 4)
                std::locale::global(std::locale::classic());
            setlocale(LC_ALL, "C");
            record64((u64)call_res);
            record64(failed);
            record64(count);
            record64((u64)(live1 - live0));
            record64(peak);
            record64((u64)kept);
            record64(stack_used);
            record64(result.size() * 8);
            record(result.data(), result.size() * 8);
            std::memset(name->data(), '#', name->size());
            delete name;
            if (c.inplace)
                continue;
#ifdef SIM_ASAN
            ASAN_UNPOISON_MEMORY_REGION(s->data(), s->capacity() + 1);
#endif
            std::memset(s->data(), '#', s->size());
            delete s;
        }
    }
    record64(0xE4D);
    sh->steps = cap ? cap - steps_left : 0;
    _exit(0);
}

// Waits for the child. A child that sleeps and uses no processor time waits for something that
// never happens: it is the only thread of its process.
static int wait_child(pid_t pid)
{
#ifdef SIM_ASAN
    const int patience = 15; // the sanitizer's report is made by another process
#else
    const int patience = 3;
#endif
    itimerval iv{{1, 0}, {1, 0}}, off{};
    setitimer(ITIMER_REAL, &iv, nullptr);
    int st = 0, idle = 0;
    unsigned long long last = ~0ULL;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        char b[512] = {};
        const int fd = open(("/proc/" + std::to_string(pid) + "/stat").c_str(), O_RDONLY);
        if (fd < 0 || read(fd, b, sizeof b - 1) <= 0) {
            close(fd);
            continue;
        }
        close(fd);
        const char* e = std::strrchr(b, ')');
        char state = 'R';
        unsigned long long ut = 0, kt = 0;
        if (!e || std::sscanf(e + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &state, &ut, &kt) != 3)
            continue;
        idle = state == 'S' && ut + kt == last ? idle + 1 : 0;
        last = ut + kt;
        if (idle >= patience) {
            sh->stuck = 1;
            kill(pid, SIGKILL);
        }
    }
    setitimer(ITIMER_REAL, &off, nullptr);
    return st;
}

static int zyg_cmd[2], zyg_ans[2];
static void zygote()
{
    struct sigaction sa{};
    sa.sa_handler = [](int) {};
    sigaction(SIGALRM, &sa, nullptr);
    u64 cap;
    while (read(zyg_cmd[0], &cap, 8) == 8) {
        pid_t pid = fork();
        if (pid == 0) {
            Plan p = Plan::parse(std::string(sh->in, sh->in_len));
            run_child(&p, cap, p.profile == "C11");
        }
        const int st = wait_child(pid);
        if (write(zyg_ans[1], &st, sizeof st) != sizeof st)
            break;
    }
    _exit(0);
}

static int run_in_zygote(const std::string& plan, u64 cap)
{
    sh->len = 0;
    sh->lost = 0;
    sh->over = 0;
    sh->steps = 0;
    sh->stuck = 0;
    sh->exit_seen = 0;
    sh->said = 0;
    sh->wrote_err = 0;
    sh->note[0] = 0;
#ifndef SIM_ASAN
    take_out();
#endif
    if (plan.size() > sizeof sh->in) {
        std::fprintf(stderr, "simulator: plan too large\n");
        std::exit(2);
    }
    std::memcpy(sh->in, plan.data(), plan.size());
    sh->in_len = plan.size();
    take_err();
    int st = 0;
    if (write(zyg_cmd[1], &cap, 8) != 8 || read(zyg_ans[0], &st, sizeof st) != sizeof st) {
        std::fprintf(stderr, "simulator: zygote lost\n");
        std::exit(2);
    }
    return st;
}

static const Ref& reference(const std::string& src, int name = 0)
{
    static std::unordered_map<std::string, Ref> cache;
    const std::string key = std::to_string(name) + src;
    auto it = cache.find(key);
    if (it != cache.end())
        return it->second;
    if (cache.size() > 6000)
        cache.clear();
    Ref ref;
    ref.model = model_image(corpus, src);
    Plan p;
    p.profile = "reference";
    p.reuse = 1;
    p.calls.push_back({});
    p.calls[0].src = src;
    p.calls[0].name = name;
    const int st = run_in_zygote(p.text(), 0);
    ref.message = take_err();
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !sh->lost && sh->len >= 88) {
        u64 w[10];
        std::memcpy(w, sh->rec, sizeof w);
        if (w[2] == IMAGE) {
            ref.kind = 1;
            ref.allocs = w[4];
            ref.image.assign(sh->rec + sizeof w, w[9]);
        }
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 1) {
        ref.kind = 2;
    }
    return cache.emplace(key, std::move(ref)).first->second;
}

static bool right_image(const Ref& r, const char* p, size_t n)
{
    std::string got(p, n);
    if (r.model && !model_accepts(*r.model, got))
        return false;
    return got == r.image;
}

// Is "file:line:col" of the message inside the source?
static bool parse_position(const std::string& m, long& line, long& col)
{
    size_t k = m.find("in.s:");
    if (k == std::string::npos)
        return false;
    k += 5;
    // skip escape sequences
    std::string s;
    for (size_t i = k; i < m.size() && s.size() < 64; ++i) {
        if (m[i] == '\33') {
            while (i < m.size() && m[i] != 'm')
                ++i;
            continue;
        }
        s += m[i];
    }
    return std::sscanf(s.c_str(), "%ld:%ld", &line, &col) == 2;
}

static bool inside(const std::string& src, long line, long col)
{
    if (line < 1 || col < 1)
        return false;
    std::vector<long> width{0};
    for (char c : src) {
        if (c == '\n')
            width.push_back(0);
        else
            width.back() += c == '\t' ? 8 : 1; // tabs count up to 8
    }
    if ((size_t)line > width.size())
        return false;
    return col <= width[(size_t)line - 1] + 1;
}

static std::string asan_summary(const std::string& report)
{
    static const std::string head = "ERROR: AddressSanitizer: ";
    std::string kind = report.size() > head.size() ? report.substr(head.size()) : report;
    kind = kind.substr(0, kind.find_first_of(" \n"));
    std::string out = "AddressSanitizer: " + kind;
    if (kind == "stack-overflow")
        return out;
    size_t pos = 0;
    for (int frames = 0; frames < 4;) {
        pos = report.find(" in ", pos);
        if (pos == std::string::npos)
            break;
        const size_t bol = report.rfind('\n', pos) + 1, end = report.find('\n', pos);
        if (report.find("    #", bol) == bol) {
            std::string f = report.substr(pos + 4, end - pos - 4);
            out += (frames ? " < " : " in ") + f;
            ++frames;
        } else if (frames)
            break;
        if (end == std::string::npos)
            break;
        pos = end;
    }
    return out;
}

// ---------------------------------------------------------------------------------------------
// Execution
// ---------------------------------------------------------------------------------------------
static std::string only_kind; // when set: the one kind of report that counts
static Out execute(const Plan& plan, bool want_trace)
{
    Out out;
    Hash log;
    const bool c11 = plan.profile == "C11", c21 = plan.profile == "C21";
    // references first, they use the record buffer too
    if (!c11)
        for (auto& c : plan.calls)
            (void)reference(c.src, c.name);
    if (plan.profile == "C19")
        for (auto& c : plan.calls)
            if (!reference(c.src, c.name).kind) {
                out.probe["no_reference"]++; // time is not what is judged
                return out;
            }
    u64 cap = 0;
    if (c11) {
        const u64 n = plan.calls[0].src.size();
        cap = 5000000 + 20000 * n + 60 * n * n;
    }
    const int st = run_in_zygote(plan.text(), cap);
    std::string err = take_err();
    // the sanitizer's report holds process numbers and addresses: keep the kind and the functions
    if (size_t k = err.find("ERROR: AddressSanitizer"); k != std::string::npos)
        err = asan_summary(err.substr(k));
    const bool exited = WIFEXITED(st);
    const int code = exited ? WEXITSTATUS(st) : -1;
    if (code == 99) {
        std::fprintf(stderr, "simulator: no arena\n");
        std::exit(2);
    }
    // walk the record
    std::string rec(sh->rec, sh->len);
    const bool lost = sh->lost || code == 97, over = sh->over, stuck = sh->stuck;
    const u64 nsteps = sh->steps;
    size_t pos = 0;
    const auto get = [&](u64& v) {
        if (pos + 8 > rec.size())
            return false;
        std::memcpy(&v, rec.data() + pos, 8);
        pos += 8;
        return true;
    };
    const auto tr = [&](const std::string& s) {
        if (want_trace)
            out.trace += "  " + s + "\n";
    };
    int last_begun = -1;
    bool ended = false;
    size_t largest = 0;
    std::vector<i64> grow;
    int grow_call = -1;
    const std::string ending = exited ? "exit " + std::to_string(code) : "signal " + std::to_string(WTERMSIG(st));
    u64 v;
    u64 calls_done = 0;
    while (get(v)) {
        if (v == 0xE4D) {
            ended = true;
            break;
        }
        u64 idx, res, failed, count, delta, peak, kept, stack_used, n;
        if (v != 0xBE61 || !get(idx))
            break;
        last_begun = (int)idx;
        if (!get(res))
            break; // the process ended inside this call
        if (!get(failed) || !get(count) || !get(delta) || !get(peak) || !get(kept) || !get(stack_used) || !get(n) || pos + n > rec.size())
            break;
        last_begun = -1;
        ++calls_done;
        const Call& c = plan.calls[idx];
        const char* img = rec.data() + pos;
        pos += n;
        log.add(idx);
        log.add(res);
        log.add(failed);
        log.add(count);
        log.add(hash_str(std::string(img, n)));
        tr("call " + std::to_string(idx) + ": " + (res == IMAGE ? "image of " + std::to_string(n) + " bytes" : res == BAD_ALLOC ? "out of memory" : "exception") + ", allocations " + std::to_string(count) + ", failed " + std::to_string(failed));
        if (failed)
            out.fired[res == BAD_ALLOC ? "alloc_failed_thrown" : "alloc_failed_survived"]++;
        if (c.loc)
            out.fired["foreign_locale"]++;
        if (c.err)
            out.fired["stale_errno"]++;
        if (c.fill)
            out.fired["heap_garbage"]++;
        if (c.stack)
            out.fired["stack_garbage"]++;
        if (c.inplace)
            out.fired["source_buffer_reused"]++;
        if (c.world)
            out.fired["clock_pid_environment"]++;
        if (c11 || c21)
            continue;
        const Ref& ref = reference(c.src, c.name);
        if (c.tight) {
            out.fired["little_memory"]++;
            tr("    bytes at once " + std::to_string(peak) + " for a source of " + std::to_string(c.src.size()) + ", stack " + std::to_string(stack_used));
            if (std::getenv("SIM_MEASURE"))
                std::fprintf(stderr, "M %zu peak %llu kept %lld stack %llu res %d\n", c.src.size(), (unsigned long long)peak, (long long)kept, (unsigned long long)stack_used, (int)res);
            if (failed && res != IMAGE) {
                out.violate("memory", "call " + std::to_string(idx) + ": more than " + std::to_string(heap_room(c.src.size())) + " bytes of memory in use at once for a source of " + std::to_string(c.src.size()) + " bytes");
                break;
            }
            largest = std::max(largest, c.src.size() + (c.vary ? (size_t)c.repeat : 0));
            if ((i64)kept > kept_room(largest)) {
                out.violate("kept", "after call " + std::to_string(idx) + " " + std::to_string((i64)kept) + " bytes are still in use");
                break;
            }
        }
        if (res == IMAGE) {
            if (ref.kind == 1 && !right_image(ref, img, n)) {
                out.violate("wrong_image", "call " + std::to_string(idx) + " returned an image that differs from that of the same source assembled alone" + (failed ? " (an allocation failed)" : ""));
                break;
            }
            if (ref.kind == 2) {
                out.violate("accepted", "call " + std::to_string(idx) + " accepted a source that is rejected when assembled alone: " + ref.message);
                break;
            }
        } else if (res == OTHER_EXC || (res == BAD_ALLOC && !failed)) {
            if (ref.kind) {
                out.violate("exception", "call " + std::to_string(idx) + " threw although the source has a result");
                break;
            }
        }
        // a leak: the same call leaves more behind every time
        if (res == BAD_ALLOC || res == IMAGE) {
            if (grow_call != (int)idx)
                grow.clear();
            grow_call = (int)idx;
            grow.push_back((i64)delta);
            if (c.repeat >= 4 && (int)grow.size() == c.repeat) {
                bool all = true;
                for (size_t k = 1; k < grow.size(); ++k)
                    all &= grow[k] > 0;
                if (all) {
                    out.violate("leak", "every repetition of call " + std::to_string(idx) + " leaves " + std::to_string(grow[1]) + " block(s) allocated");
                    break;
                }
            }
        }
    }
    if (lost)
        out.probe["record_full"]++;
    if (!out.bad() && !ended && !lost) {
        const Call* c = last_begun >= 0 ? &plan.calls[(size_t)last_begun] : nullptr;
        log.add(0xF00D);
        log.add((u64)st);
        log.add(err);
        tr("process ended inside call " + std::to_string(last_begun) + ": " + ending + (err.empty() ? "" : "; stderr: " + err));
        if (c11) {
            const std::string& src = plan.calls[0].src;
            if (stuck)
                out.violate("no_end", "the call waits for ever");
            else if (over)
                out.violate("no_end", "more than " + std::to_string(cap) + " steps for " + std::to_string(src.size()) + " bytes");
            else if (!exited && WTERMSIG(st) == SIGXCPU)
                out.violate("no_end", "60 s of processor time for " + std::to_string(src.size()) + " bytes");
            else if (!exited)
                out.violate("crash", "assembling died of signal " + std::to_string(WTERMSIG(st)) + ": " + err.substr(0, 600));
            else if (code != 1)
                out.violate(code == 66 ? "out_of_bounds" : "bad_status", "assembling ended with status " + std::to_string(code) + ": " + err.substr(0, 900));
            else if (err.find("error") == std::string::npos)
                out.violate("no_message", "rejected without an error message: \"" + err.substr(0, 200) + "\"");
            else {
                long ln = 0, col = 0;
                if (parse_position(err, ln, col)) {
                    out.probe["located"]++;
                    if (!inside(src, ln, col))
                        out.violate("bad_position", "the message points outside the source: " + err.substr(0, 300));
                } else {
                    out.probe["not_located"]++;
                }
                out.probe["rejected"]++;
            }
        } else if (c21) {
#ifndef SIM_ASAN
            // the source was rejected: the process ends, but in the ordinary way
            if (exited && code == 1) {
                struct stat so{};
                fstat(out_fd, &so);
                out.probe["rejected"]++;
                if (!sh->exit_seen)
                    out.violate("no_exit_handlers", "call " + std::to_string(last_begun) + " ended the process without running the caller's exit handlers: " + err.substr(0, 300));
                else if ((u64)so.st_size != sh->said)
                    out.violate("output_lost", "standard output has " + std::to_string(so.st_size) + " bytes instead of the " + std::to_string(sh->said) + " the caller wrote");
            } else
                out.probe["not_judged"]++;
#endif
        } else if (stuck) {
            out.violate("no_end", "call " + std::to_string(last_begun) + " waits for ever");
        } else if (!c) {
            out.violate("crash", "process ended between calls: " + ending);
        } else {
            const Ref& ref = reference(c->src, c->name);
            if (c->tight && !exited && WTERMSIG(st) == SIGXCPU)
                out.probe["too_slow"]++;
            else if (c->tight && !exited)
                out.violate("stack", "call " + std::to_string(last_begun) + " (a source of " + std::to_string(c->src.size()) + " bytes, " + std::to_string(stack_room) + " bytes of stack) ended with " + ending + ": " + err.substr(0, 400));
            else if (ref.kind == 1)
                out.violate(exited ? "spurious_failure" : "crash", "call " + std::to_string(last_begun) + " ended the process (" + ending + ") although the source is valid: " + err.substr(0, 400));
            else if (ref.kind == 2) {
                if (!exited || code != 1)
                    out.violate("crash", "call " + std::to_string(last_begun) + " ended with " + ending + " instead of status 1: " + err.substr(0, 400));
                else if (err != ref.message)
                    out.violate("wrong_message", "diagnostic \"" + err.substr(0, 300) + "\" instead of \"" + ref.message.substr(0, 300) + "\"");
                else
                    out.probe["rejected_alike"]++;
            }
        }
    } else if (c11 && ended) {
        out.probe["image"]++;
        if (!calls_done)
            out.violate("crash", "no result");
    }
    if (c11 && !out.bad() && ended) {
        // record: res was checked only for exceptions
        u64 w = 0;
        if (rec.size() >= 24)
            std::memcpy(&w, rec.data() + 16, 8);
        if (w != IMAGE)
            out.violate("exception", "assembling threw");
    }
    if (c21 && sh->wrote_err && sh->wrote_err <= plan.calls.size() && !out.bad()) {
        const Call& c = plan.calls[sh->wrote_err - 1];
        // (a rejected source may run out of memory half way through its diagnostic)
        if (reference(c.src, c.name).kind == 1)
            out.violate("stderr_used", "call " + std::to_string(sh->wrote_err - 1) + " wrote to standard error although the source is accepted: " + err.substr(0, 300));
    }
    if (c21 && sh->note[0] && !out.bad()) {
        sh->note[sizeof sh->note - 1] = 0;
        out.violate("left_changed", std::string("after a call ") + sh->note);
    }
    if (!only_kind.empty())
        out.violations.erase(std::remove_if(out.violations.begin(), out.violations.end(), [](const auto& v) {
                                 return v.second.find("AddressSanitizer: " + only_kind) == std::string::npos;
                             }),
                             out.violations.end());
    log.add((u64)st);
    for (auto& x : out.violations)
        log.add(x.first);
    out.hash = log.h;
    out.steps = c11 ? (i64)nsteps : (i64)calls_done;
    if (c11) {
        out.fired["damage:" + plan.damage.substr(0, plan.damage.find(' '))]++;
        out.nontrivial = plan.damage != "none";
        Hash h;
        h.h = out.hash;
        h.add(plan.calls[0].src);
        out.hash = h.h;
    } else if (c21) {
        out.nontrivial = calls_done > 0;
    } else if (plan.profile == "C10") {
        out.nontrivial = out.fired.count("alloc_failed_thrown") || out.fired.count("alloc_failed_survived");
    } else {
        out.nontrivial = calls_done + !ended > 1 || !out.fired.empty();
    }
    return out;
}

// ---------------------------------------------------------------------------------------------
// Generation
// ---------------------------------------------------------------------------------------------
static std::string any_source(Rng& r, bool want_valid, const std::string* fam, bool large = false)
{
    GenOpts o;
    o.max_insns = r.chance(1, 6) ? 40 : (int)r.range(1, 8);
    if (large && r.chance(1, 100))
        o.min_insns = 300, o.max_insns = 1500;
    o.family = fam;
    for (int i = 0; i < 20; ++i) {
        std::string s;
        if (want_valid || r.chance(1, 3))
            s = gen_program(r, corpus, o);
        else if (r.chance(1, 3))
            s = gen_invalid(r, corpus, o);
        else if (r.chance(1, 2))
            s = gen_odd(r, corpus);
        else {
            std::string how;
            s = gen_damage(r, gen_program(r, corpus, o), how);
        }
        const Ref& ref = reference(s);
        if (ref.kind == 1 || (!want_valid && ref.kind == 2))
            return s;
    }
    return "NOP;\n";
}

// The source without one of its labels, or without any.
static std::string drop_labels(Rng& r, std::string v)
{
    const bool all = r.chance(1, 2);
    std::vector<std::pair<size_t, size_t>> d;
    for (size_t k = 0; (k = v.find(':', k)) != std::string::npos; ++k) {
        size_t b = v.find_last_of(" \t\r\n;", k);
        b = b == std::string::npos ? 0 : b + 1;
        d.push_back({b, k + 1 - b});
    }
    if (d.empty())
        return v;
    const size_t one = r.below(d.size());
    for (size_t i = d.size(); i-- > 0;)
        if (all || i == one)
            v.erase(d[i].first, d[i].second);
    return v;
}

// A source, very many calls, and then the source again or one that lacks a part of it: whatever
// the first call left behind is old, but a counter of 8 or 16 bits may have come round.
static void gen_c09_wrap(Rng& r, Plan& p)
{
    Call first, fill, last;
    if (r.chance(1, 2)) {
        const std::string l = "lab_" + std::to_string(r.below(9));
        first.src = l + ":\nNOP;\nBRA " + l + ";\n";
    } else {
        first.src = any_source(r, true, nullptr);
    }
    switch (r.below(3)) {
    case 0: fill.src = "NOP;"; break;
    case 1: fill.src = "l: BRA l;\n"; break;
    default: fill.src = "@P0 MOV R1, R2 @WAIT 3;\n"; break;
    }
    const int base = r.chance(1, 16) ? (r.chance(2, 3) ? 65536 : 32768) : r.chance(1, 4) ? (1 << r.range(4, 10)) : 256;
    fill.repeat = base + (int)r.range(-3, 2);
    if (r.chance(1, 3)) {
        // many labels, then sources with one of them each at another place: one of the calls has the old number
        first.src.clear();
        for (int i = 0; i < 7; ++i)
            first.src += "m" + std::to_string(i) + ":\n";
        first.src += "NOP;\nBRA m0;\n";
        fill.repeat = base - 4;
        p.calls = {first, fill};
        for (int i = 0; i < 7; ++i) {
            Call x;
            x.src = "NOP;\nNOP;\nm" + std::to_string(i) + ":\nBRA m" + std::to_string(i) + ";\n";
            p.calls.push_back(x);
        }
        return;
    } else {
        if (r.chance(1, 2))
            fill.repeat = base - 1;
        last.src = r.chance(1, 2) ? drop_labels(r, first.src) : r.chance(1, 2) ? first.src : any_source(r, false, nullptr);
    }
    if (reference(last.src).kind == 0)
        last.src = first.src;
    p.calls = {first, fill, last};
    if (r.chance(1, 8))
        p.calls.insert(p.calls.begin(), fill);
}

static Plan gen_c09(Rng& r)
{
    Plan p;
    p.base = r.below(4096);
    p.reuse = (int)r.below(3);
    p.skew = r.chance(1, 2) ? 0 : (int)r.range(1, 64);
    if (r.chance(1, 50)) {
        gen_c09_wrap(r, p);
        return p;
    }
    std::string fam;
    if (r.chance(1, 2)) {
        auto it = corpus.family.begin();
        std::advance(it, (long)r.below(corpus.family.size()));
        fam = it->first;
    }
    const std::string* f = fam.empty() ? nullptr : &fam;
    int n;
    switch (r.below(10)) {
    case 0: n = (int)r.range(200, 700); break;
    case 1: n = (int)r.range(20, 80); break;
    case 2: n = 1; break;
    default: n = (int)r.range(2, 8); break;
    }
    std::vector<std::string> pool;
    const int np = (int)r.range(1, 5);
    for (int i = 0; i < np; ++i)
        pool.push_back(any_source(r, true, f, n < 20));
    const bool swarm_loc = r.chance(1, 3), swarm_err = r.chance(1, 2), swarm_fill = r.chance(2, 3), swarm_inplace = r.chance(1, 2), swarm_stack = r.chance(2, 3), swarm_world = r.chance(1, 2), swarm_name = r.chance(1, 4);
    for (int i = 0; i < n; ++i) {
        Call c;
        const bool last = i + 1 == n;
        if (last && r.chance(1, 2))
            c.src = any_source(r, false, f);
        else if (n < 20 && r.chance(1, 3))
            c.src = any_source(r, true, f);
        else
            c.src = r.pick(pool);
        if (r.chance(1, 5)) {
            // a variant of the same source: of the same length, or with the same characters
            std::string v = c.src;
            const auto places = [&](auto pred) {
                std::vector<size_t> d;
                for (size_t k = 0; k < v.size(); ++k)
                    if (pred((unsigned char)v[k]))
                        d.push_back(k);
                return d;
            };
            switch (r.below(7)) {
            case 5:
                v = drop_labels(r, v);
                break;
            case 0:
            case 1: // one digit changed
            case 2: { // two digits swapped
                const auto d = places([](int ch) { return ch >= '0' && ch <= '9'; });
                if (d.empty())
                    break;
                if (r.chance(1, 2))
                    v[r.pick(d)] = (char)('0' + r.below(10));
                else
                    std::swap(v[r.pick(d)], v[r.pick(d)]);
                break;
            }
            case 3: { // two lines swapped
                std::vector<std::string> lines;
                for (size_t k = 0; k < v.size();) {
                    size_t e = v.find('\n', k);
                    e = e == std::string::npos ? v.size() : e + 1;
                    lines.push_back(v.substr(k, e - k));
                    k = e;
                }
                if (lines.size() < 2)
                    break;
                const size_t x = r.below(lines.size()), y = r.below(lines.size());
                std::swap(lines[x], lines[y]);
                v.clear();
                for (auto& l : lines)
                    v += l;
                break;
            }
            case 4: { // more or less empty space somewhere
                const auto d = places([](int ch) { return ch == '\n' || ch == ' '; });
                if (d.empty())
                    break;
                const size_t k = r.pick(d);
                v.insert(k, std::string(r.range(1, 3), v[k]));
                break;
            }
            default: // one instruction more or less at the end
                if (r.chance(1, 2)) {
                    v += (v.empty() || v.back() == '\n' ? "NOP;\n" : "\nNOP;\n");
                } else {
                    size_t k = v.size() > 1 ? v.rfind('\n', v.size() - 2) : std::string::npos;
                    if (k != std::string::npos)
                        v.resize(k + 1);
                }
                break;
            }
            if (v != c.src) {
                const Ref& ref = reference(v);
                if (ref.kind == 1 || (last && ref.kind == 2))
                    c.src = v;
            }
        }
        if (swarm_loc && r.chance(1, 4)) {
            // letters that are letters in some locales only, or have another upper case there
            std::string v = c.src;
            static const char* letter[] = {"\xe9", "\xfd", "\xdd", "\xc3\xa9", "\xaa", "\xb2", "\xa0", "\xff", "\x85"};
            const std::string l = letter[r.below(9)];
            std::vector<size_t> d;
            switch (r.below(3)) {
            case 0: // in the name of a label
                for (size_t k = 0; (k = v.find("lab_0", k)) != std::string::npos; k += l.size() + 1)
                    v.replace(k, 5, l + "t");
                break;
            case 1: // anywhere
                v.insert(r.below(v.size() + 1), l);
                break;
            default: // lower or upper case
                for (size_t k = 0; k < v.size(); ++k)
                    if (std::isalpha((unsigned char)v[k]))
                        d.push_back(k);
                if (!d.empty()) {
                    const size_t k = r.pick(d);
                    v[k] = (char)(v[k] ^ 0x20);
                }
                if (r.chance(1, 4))
                    for (auto& ch : v)
                        ch = ch >= 'A' && ch <= 'Z' ? (char)(ch + 32) : ch;
                break;
            }
            if (v != c.src) {
                const Ref& ref = reference(v);
                if (ref.kind == 1 || (last && ref.kind == 2))
                    c.src = v;
            }
        }
        if (swarm_fill)
            c.fill = (int)r.below(8);
        if (swarm_stack)
            c.stack = (int)r.below(8);
        if (swarm_err && r.chance(1, 2)) {
            static const int e[] = {ERANGE, EINVAL, EINTR, ENOENT, ENOMEM, EDOM};
            c.err = e[r.below(6)];
        }
        if (swarm_loc)
            c.loc = (int)r.below(7);
        if (swarm_world && r.chance(1, 2))
            c.world = (int)r.range(1, 1000000);
        if (swarm_name && r.chance(1, 2))
            c.name = (int)r.below(4);
        if (r.chance(1, 2))
            c.depth = (int)r.below(300);
        c.inplace = swarm_inplace && r.chance(2, 3);
        if (!last && n < 20 && r.chance(1, 10))
            c.repeat = (int)r.range(2, r.chance(1, 10) ? 300 : 6);
        if (!last && n < 20 && i + 2 == n && r.chance(1, 300)) {
            // a counter of 8 or 16 bits has come round
            static const int wrap[] = {255, 256, 512, 1024, 4096, 32768, 65535, 65536};
            c.src = r.chance(1, 2) ? "NOP;" : "l: BRA l;\n";
            c.repeat = wrap[r.below(8)] + (int)r.range(-2, 2);
            c.fill = c.stack = c.depth = 0;
        }
        p.calls.push_back(c);
    }
    return p;
}

static Plan gen_c10(Rng& r)
{
    Plan p;
    p.base = r.below(4096);
    p.reuse = (int)r.below(3);
    const int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        Call c;
        const bool last = i + 1 == n;
        c.src = any_source(r, !(last && r.chance(1, 4)), nullptr);
        const Ref& ref = reference(c.src);
        c.fill = (int)r.below(8);
        c.inplace = r.chance(1, 2);
        i64 m = ref.kind == 1 ? (i64)ref.allocs : 60;
        if (m < 1)
            m = 1;
        if (i == 0 || r.chance(2, 3)) {
            switch (r.below(4)) {
            case 0: c.fail_at = r.range(0, std::min<i64>(m - 1, 12)); break;
            case 1: c.fail_at = m - 1 - r.range(0, std::min<i64>(m - 1, 8)); break;
            default: c.fail_at = r.range(0, m - 1); break;
            }
            c.fail_on = r.chance(1, 4);
            if (r.chance(1, 5))
                c.fail_also = c.fail_at + r.range(1, 6);
            if (r.chance(1, 2) && ref.kind == 1)
                c.repeat = 4;
        } else if (r.chance(1, 8) && ref.kind == 1) {
            c.repeat = 4;
        }
        p.calls.push_back(c);
    }
    return p;
}

static Plan gen_c11(Rng& r)
{
    Plan p;
    Call c;
    GenOpts o;
    switch (r.below(20)) {
    case 0: o.min_insns = 20, o.max_insns = 120; break;
    case 1:
    case 2: o.min_insns = o.max_insns = 1; break;
    default: o.max_insns = 10; break;
    }
    std::string fam;
    if (r.chance(1, 3)) {
        auto it = corpus.family.begin();
        std::advance(it, (long)r.below(corpus.family.size()));
        fam = it->first;
        o.family = &fam;
    }
    std::string s;
    if (r.chance(1, 400)) {
        c.src = gen_huge(r, corpus);
        p.damage = "block_over_and_over " + std::to_string(c.src.size());
        p.calls.push_back(c);
        return p;
    }
    if (r.chance(2, 5)) {
        // blocks of instructions of one mnemonic mixed up
        if (fam.empty()) {
            auto it = corpus.family.begin();
            std::advance(it, (long)r.below(corpus.family.size()));
            fam = it->first;
        }
        s = gen_splice(r, corpus, fam) + ";\n";
        if (r.chance(1, 4))
            s = gen_splice(r, corpus, fam) + ";\n" + s;
        if (r.chance(4, 5)) {
            c.src = s;
            p.damage = "blocks_mixed";
            p.calls.push_back(c);
            return p;
        }
    } else if (r.chance(1, 12))
        s = r.pick(corpus.rejects) + ";\n";
    else if (r.chance(1, 8))
        s = gen_odd(r, corpus);
    else if (r.chance(1, 10))
        s = gen_invalid(r, corpus, o);
    else
        s = gen_program(r, corpus, o);
    c.src = gen_damage(r, s, p.damage);
    p.calls.push_back(c);
    return p;
}

static Plan gen_c21(Rng& r)
{
    Plan p = gen_c10(r);
    for (auto& c : p.calls) {
        c.loc = r.chance(1, 2) ? 0 : (int)r.below(7);
        c.world = r.chance(1, 2) ? 0 : (int)r.range(1, 1000000);
        c.name = (int)r.below(4);
        c.err = r.chance(1, 3) ? ERANGE : 0;
        if (r.chance(1, 2))
            c.fail_at = c.fail_also = -1, c.fail_on = 0;
        if (r.chance(1, 40)) {
            // a large one
            const std::string t = gen_many(r, corpus);
            if (&c == &p.calls.back() || reference(t).kind == 1)
                c.src = t, c.repeat = 1;
        }
    }
    return p;
}

static Plan gen_c19(Rng& r)
{
    Plan p;
    p.base = r.below(4096);
    p.reuse = 1;
    if (r.chance(1, 12)) {
        // very many sources, none twice
        Call c;
        c.src = std::string(8000, ' ') + "NOP;\n";
        for (int k = 0; k < 20; ++k) {
            std::string t = gen_many(r, corpus);
            if (t.size() < 8000 && reference(t).kind == 1) {
                c.src = t;
                break;
            }
        }
        c.tight = c.vary = 1;
        c.repeat = (int)std::min<size_t>(300, 1500000 / c.src.size());
        p.calls.push_back(c);
        return p;
    }
    const int n = r.chance(1, 2) ? 1 : (int)r.range(2, 6);
    for (int i = 0; i < n; ++i) {
        Call c;
        const bool last = i + 1 == n;
        const int how = (int)r.below(4);
        if (how == 0)
            c.src = any_source(r, !last, nullptr, true);
        else
            c.src = gen_many(r, corpus);
        if (!last && reference(c.src).kind != 1)
            continue;
        c.tight = 1;
        if (r.chance(1, 4))
            c.fill = (int)r.below(8);
        c.stack = (int)r.below(2);
        c.inplace = r.chance(1, 4);
        if (c.src.size() < 3000 && !last && r.chance(1, 4))
            c.repeat = (int)r.range(2, 400);
        p.calls.push_back(c);
    }
    return p;
}

static Plan generate(u64 seed, const std::string& prof)
{
    Rng r(mix64(seed ^ hash_str(prof)));
    Plan p = prof == "C09" ? gen_c09(r) : prof == "C10" ? gen_c10(r) : prof == "C19" ? gen_c19(r) : prof == "C21" ? gen_c21(r) : gen_c11(r);
    p.profile = prof;
    return p;
}

static std::vector<Plan> reductions(const Plan& p)
{
    std::vector<Plan> v;
    const size_t n = p.calls.size();
    for (size_t parts : {(size_t)2, (size_t)4, (size_t)8}) {
        if (n < parts)
            break;
        size_t w = (n + parts - 1) / parts;
        for (size_t a = 0; a < n; a += w) {
            Plan q = p;
            q.calls.erase(q.calls.begin() + (long)a, q.calls.begin() + (long)std::min(n, a + w));
            if (!q.calls.empty())
                v.push_back(q);
        }
    }
    if (n > 1 && n <= 24)
        for (size_t i = 0; i < n; ++i) {
            Plan q = p;
            q.calls.erase(q.calls.begin() + (long)i);
            v.push_back(q);
        }
    for (size_t i = 0; i < n && n <= 12; ++i) {
        const Call& c = p.calls[i];
        const auto alt = [&](auto fn) {
            Plan q = p;
            fn(q.calls[i]);
            v.push_back(q);
        };
        if (c.repeat > 1 && c.fail_at < 0)
            alt([](Call& x) { x.repeat = x.repeat > 4 ? x.repeat / 2 : 1; });
        if (c.fill) alt([](Call& x) { x.fill = 0; });
        if (c.stack) alt([](Call& x) { x.stack = 0; });
        if (c.err) alt([](Call& x) { x.err = 0; });
        if (c.loc) alt([](Call& x) { x.loc = 0; });
        if (c.depth) alt([](Call& x) { x.depth = 0; });
        if (c.inplace) alt([](Call& x) { x.inplace = 0; });
        if (c.world) alt([](Call& x) { x.world = 0; });
        if (c.name) alt([](Call& x) { x.name = 0; });
        if (c.fail_also >= 0) alt([](Call& x) { x.fail_also = -1; });
        if (c.fail_on) alt([](Call& x) { x.fail_on = 0; });
        if (c.fail_at > 0) {
            alt([](Call& x) { x.fail_at /= 2; });
            alt([](Call& x) { x.fail_at -= 1; });
        }
        // the source: drop spans
        const std::string& s = c.src;
        if (s.size() > 1) {
            for (size_t parts : {(size_t)2, (size_t)4, (size_t)8, (size_t)16, (size_t)32}) {
                if (s.size() < parts)
                    break;
                size_t w = (s.size() + parts - 1) / parts;
                for (size_t a = 0; a < s.size(); a += w) {
                    std::string t = s.substr(0, a) + (a + w < s.size() ? s.substr(a + w) : "");
                    alt([&](Call& x) { x.src = t; });
                }
            }
            if (s.size() <= 40)
                for (size_t a = 0; a < s.size(); ++a) {
                    std::string t = s.substr(0, a) + s.substr(a + 1);
                    alt([&](Call& x) { x.src = t; });
                }
        }
    }
    return v;
}

static u64 state_hash(const Plan&, const Out& o)
{
    return o.hash;
}

#ifdef SIM_ASAN
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:exitcode=66:abort_on_error=0:handle_abort=0:handle_segv=1:detect_stack_use_after_return=1:allocator_may_return_null=0:color=never:fast_unwind_on_malloc=1:malloc_context_size=3";
}
#endif

int main(int argc, char** argv)
{
    // fixed addresses: one seed is one execution
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        if (personality(ADDR_NO_RANDOMIZE | personality(0xffffffff)) != -1)
            execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a = parse_args(argc, argv);
    locdir = a["locales"];
    only_kind = a["only"];
    setenv("LOCPATH", locdir.c_str(), 1);
    if (!a["objects"].empty()) {
        Corpus language;
        language.load(a["corpus"]);
        harvest(a["objects"], language);
    }
    err_fd = memfd_create("err", MFD_CLOEXEC);
#ifndef SIM_ASAN
    out_fd = memfd_create("out", MFD_CLOEXEC);
#endif
    sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (err_fd < 0 || sh == MAP_FAILED || pipe(zyg_cmd) || pipe(zyg_ans))
        return 2;
    if (fork() == 0) {
        close(zyg_cmd[1]);
        close(zyg_ans[0]);
        zygote();
    }
    close(zyg_cmd[0]);
    close(zyg_ans[1]);
    signal(SIGPIPE, SIG_IGN);
    corpus.load(a["corpus"]);
    if ((a["profile"] == "C09" || a["profile"] == "C21") && (!set_locale(1) || !set_locale(5) || !set_locale(6))) {
        std::fprintf(stderr, "simulator: the test locale is missing in %s\n", locdir.c_str());
        return 2;
    }
    setlocale(LC_ALL, "C");
    return drive<Plan, Out>(a, generate, execute, reductions, state_hash);
}
