// Deterministic simulation of the nxas command-line tool.
//
// The nodes are real nxas processes. Every system call they make is intercepted with ptrace; a
// process runs only when the scheduler releases it, and it is stopped again at the entry of its
// next system call that touches the simulated world (files of the scratch directory, stderr).
// The simulator decides who runs next, what each call returns and when a process dies.
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/sysinfo.h>
#include <sys/utsname.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <csignal>
#include <ctime>
#include <elf.h>
#include <filesystem>
#include <sys/time.h>

#include "common.h"
#include "driver.h"
#include "words.h"
#include "nxas.h"

static Corpus corpus;
static std::string bin_path = "nxas";      // the tool
static std::string bin_alloc_path;         // the tool with the failing allocator linked in
static std::string scratch;                // directory of this worker
static std::string world;                  // scratch + "/w", the cwd of the processes

// ---------------------------------------------------------------------------------------------
// Reference: what the library of the same tree makes of a source, in a process of its own.
// ---------------------------------------------------------------------------------------------
struct Ref
{
    bool ok = false, slow = false;
    std::string image, message;
    std::optional<ModelImage> model;
};

// waitpid, but a process that sleeps and uses no processor time for several seconds waits for
// something that never happens (nothing in the simulation makes it sleep): it is killed.
static bool wait_for(pid_t pid, int& st, int flags, bool& stuck)
{
    int idle = 0;
    unsigned long long last = ~0ULL;
    for (;;) {
        const pid_t w = waitpid(pid, &st, flags);
        if (w == pid)
            return true;
        if (w >= 0 || errno != EINTR)
            return false;
        char b[512] = {};
        const int fd = open(("/proc/" + std::to_string(pid) + "/stat").c_str(), O_RDONLY | O_CLOEXEC);
        const ssize_t k = fd < 0 ? -1 : read(fd, b, sizeof b - 1);
        if (fd >= 0)
            close(fd);
        const char* e = k > 0 ? std::strrchr(b, ')') : nullptr;
        char state = 'R';
        unsigned long long ut = 0, kt = 0;
        if (!e || std::sscanf(e + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &state, &ut, &kt) != 3)
            continue;
        idle = state == 'S' && ut + kt == last ? idle + 1 : 0;
        last = ut + kt;
        if (idle >= 5) {
            stuck = true;
            kill(pid, SIGKILL);
        }
    }
}

static const Ref& reference(const std::string& src)
{
    static std::unordered_map<std::string, Ref> cache;
    auto it = cache.find(src);
    if (it != cache.end())
        return it->second;
    if (cache.size() > 4000)
        cache.clear();
    Ref ref;
    ref.model = model_image(corpus, src);
    const int pf = (int)memfd_create("ref", MFD_CLOEXEC), ef = (int)memfd_create("ref", MFD_CLOEXEC);
    if (pf < 0 || ef < 0)
        std::abort();
    std::fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        dup2(ef, 2);
        rlimit rl{10, 15};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit c0{0, 0};
        setrlimit(RLIMIT_CORE, &c0);
        std::vector<u64> v = nxas::assemble(src, "in.s");
        std::string out = "K";
        out.append((const char*)v.data(), v.size() * 8);
        size_t o = 0;
        while (o < out.size()) {
            ssize_t k = write(pf, out.data() + o, out.size() - o);
            if (k <= 0)
                _exit(9);
            o += (size_t)k;
        }
        _exit(0);
    }
    int st = 0;
    bool stuck = false;
    wait_for(pid, st, 0, stuck);
    const auto all = [](int f) {
        struct stat b;
        std::string t;
        if (!fstat(f, &b)) {
            t.resize((size_t)b.st_size);
            (void)!pread(f, t.data(), t.size(), 0);
        }
        close(f);
        return t;
    };
    const std::string out = all(pf);
    ref.message = all(ef);
    ref.ok = !out.empty() && out[0] == 'K' && WIFEXITED(st) && WEXITSTATUS(st) == 0;
    ref.slow = WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU;
    if (src.find('\0') != std::string::npos)
        ref.ok = false; // whatever the library says
    if (ref.ok)
        ref.image = out.substr(1);
    return cache.emplace(src, std::move(ref)).first->second;
}

static bool right_image(const std::string& src, const std::string& got)
{
    const Ref& r = reference(src);
    if (r.model)
        return model_accepts(*r.model, got) && (!r.model->dksh || got == r.image);
    return r.ok && got == r.image;
}

// ---------------------------------------------------------------------------------------------
// Plan
// ---------------------------------------------------------------------------------------------
enum Cls
{
    OPEN_R, READ_R, SEEK_R, STAT_R, CLOSE_R, MMAP_R,
    OPEN_W, WRITE_W, CLOSE_W, SYNC_W, SEEK_W, STAT_W,
    NAME, ERRW, WAIT, ANY, NCLS
};
static const char* cls_name[] = {"open_r", "read_r", "seek_r", "stat_r", "close_r", "mmap_r", "open_w", "write_w",
                                 "close_w", "sync_w", "seek_w", "stat_w", "name", "errw", "wait", "any"};
enum Kind
{
    SHORT, ERR, FULL, KILL_BEFORE, KILL_AFTER, KILL_TORN, TERM, NKIND
};
static const char* kind_name[] = {"short", "err", "full", "kill_before", "kill_after", "kill_torn", "term"};

struct Fault
{
    int proc = 0, cls = 0;
    int k = 0; // k-th call of that class of that process, -1: every one
    int kind = 0;
    i64 arg = 0;  // bytes / errno / budget
    i64 arg2 = 0; // bytes that survive a failed close
};

// What surrounds a process apart from its command line and files
struct Around
{
    std::vector<std::string> env;
    std::string name = "nxas"; // argv[0]
    int in = 0;                // standard input: 0 empty, 1 closed, 2 a program
    int out = 0;               // standard output: 0 open, 1 closed
    int tty = 0;               // the standard streams say that they are terminals
    int mask = 022;            // umask
    int extra = 0;             // more open descriptors
    i64 stack = 0, heap = 0;   // limits in bytes, 0: none
    int decoys = 0;            // the files it asks for exist, and a few more
    int machine = 0;           // another user, parent, host and size of machine, 0: the real one

    bool plain() const
    {
        return env.empty() && name == "nxas" && !in && !out && !tty && mask == 022 && !extra && !stack && !heap && !decoys && !machine;
    }
};

struct Proc
{
    std::vector<std::string> argv; // without argv[0]
    int phase = 0;
    int nonseek = 0;        // the input behaves like 1: a pipe, 2: a file made up as it is read, without a size
    bool no_stderr = false; // started with fd 2 closed
    i64 alloc_fail = -1;    // the n-th allocation fails
    int pid = 0;            // its process number, 0: one of its own
    Around around;
    // what the generator knows about it
    int in = -1, out = -1; // index in names, -1: none
};

struct Action
{
    int at = 0;   // global step
    int kind = 0; // 0: atomically replace file a with contents c
    std::string a, c;
};

struct Plan
{
    std::string profile;
    std::vector<std::pair<std::string, std::string>> files; // name, contents ("\x01dir" = directory, "\x01link:" = symlink, "\x01hard:")
    std::vector<Proc> procs;
    std::vector<Fault> faults;
    std::vector<Action> actions;
    std::vector<int> sched;
    u64 rnd = 1;         // what the system's random numbers are
    i64 clock = 1000000; // microseconds after the epoch at the start (plus a fixed date)
    i64 tick = 50;       // microseconds per call

    std::string text() const
    {
        std::ostringstream o;
        o << "profile " << profile << "\n";
        o << "system " << rnd << " " << clock << " " << tick << "\n";
        for (auto& f : files)
            o << "file " << enc(f.first) << " " << enc(f.second) << "\n";
        for (auto& p : procs) {
            o << "proc " << p.phase << " " << p.nonseek << " " << p.no_stderr << " " << p.alloc_fail << " " << p.pid;
            for (auto& a : p.argv)
                o << " " << enc(a);
            o << "\n";
            const Around& x = p.around;
            if (!x.plain()) {
                o << "around " << x.in << " " << x.out << " " << x.tty << " " << x.mask << " " << x.extra << " " << x.stack << " " << x.heap << " " << x.decoys << " " << x.machine << " " << enc(x.name);
                for (auto& e : x.env)
                    o << " " << enc(e);
                o << "\n";
            }
        }
        for (auto& f : faults)
            o << "fault proc=" << f.proc << " call=" << cls_name[f.cls] << " nth=" << f.k << " kind=" << kind_name[f.kind] << " arg=" << f.arg << " arg2=" << f.arg2 << "\n";
        for (auto& a : actions)
            o << "action " << a.at << " " << a.kind << " " << enc(a.a) << " " << enc(a.c) << "\n";
        if (!sched.empty()) {
            o << "sched";
            for (int s : sched)
                o << " " << s;
            o << "\n";
        }
        return o.str();
    }

    static Plan parse(const std::string& t)
    {
        Plan p;
        std::istringstream in(t);
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream l(line);
            std::string w;
            l >> w;
            if (w == "profile") {
                l >> p.profile;
            } else if (w == "system") {
                l >> p.rnd >> p.clock >> p.tick;
            } else if (w == "file") {
                std::string a, b;
                l >> a >> b;
                p.files.push_back({dec(a), dec(b)});
            } else if (w == "proc") {
                Proc q;
                l >> q.phase >> q.nonseek >> q.no_stderr >> q.alloc_fail >> q.pid;
                std::string a;
                while (l >> a)
                    q.argv.push_back(dec(a));
                p.procs.push_back(q);
            } else if (w == "around" && !p.procs.empty()) {
                Around& x = p.procs.back().around;
                std::string a;
                l >> x.in >> x.out >> x.tty >> x.mask >> x.extra >> x.stack >> x.heap >> x.decoys >> x.machine >> a;
                x.name = dec(a);
                while (l >> a)
                    x.env.push_back(dec(a));
            } else if (w == "fault") {
                Fault f;
                std::string kv;
                while (l >> kv) {
                    size_t e = kv.find('=');
                    std::string k = kv.substr(0, e), v = kv.substr(e + 1);
                    if (k == "proc") f.proc = std::atoi(v.c_str());
                    if (k == "nth") f.k = std::atoi(v.c_str());
                    if (k == "arg") f.arg = std::atoll(v.c_str());
                    if (k == "arg2") f.arg2 = std::atoll(v.c_str());
                    if (k == "call")
                        for (int i = 0; i < NCLS; ++i)
                            if (v == cls_name[i]) f.cls = i;
                    if (k == "kind")
                        for (int i = 0; i < NKIND; ++i)
                            if (v == kind_name[i]) f.kind = i;
                }
                p.faults.push_back(f);
            } else if (w == "action") {
                Action a;
                std::string x, y;
                l >> a.at >> a.kind >> x >> y;
                a.a = dec(x);
                a.c = dec(y);
                p.actions.push_back(a);
            } else if (w == "sched") {
                int v;
                while (l >> v)
                    p.sched.push_back(v);
            }
        }
        return p;
    }
};

// ---------------------------------------------------------------------------------------------
// The simulated world
// ---------------------------------------------------------------------------------------------
static void wipe_dir(const std::string& d)
{
    DIR* h = opendir(d.c_str());
    if (!h)
        return;
    while (dirent* e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        std::string p = d + "/" + n;
        if (e->d_type == DT_DIR) {
            wipe_dir(p);
            rmdir(p.c_str());
        } else {
            unlink(p.c_str());
        }
    }
    closedir(h);
}

using Snap = std::map<std::string, std::string>;
static void snapshot(Snap& s, const std::string& sub)
{
    DIR* h = opendir((world + "/" + sub).c_str());
    if (!h)
        return;
    while (dirent* e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        n = sub + n;
        struct stat st;
        std::string p = world + "/" + n;
        if (lstat(p.c_str(), &st))
            continue;
        if (S_ISREG(st.st_mode)) {
            s[n] = slurp(p);
        } else if (S_ISDIR(st.st_mode)) {
            s[n] = "\x01" "dir";
            snapshot(s, n + "/");
        } else if (S_ISLNK(st.st_mode)) {
            char b[256];
            ssize_t k = readlink(p.c_str(), b, 255);
            s[n] = "\x01link:" + std::string(b, k > 0 ? (size_t)k : 0);
        }
    }
    closedir(h);
}
static Snap snapshot()
{
    Snap s;
    snapshot(s, "");
    return s;
}

struct FdInfo
{
    bool sim = false, writable = false;
    i64 written = 0;
    std::string path;
};

struct Node
{
    int idx = 0;
    pid_t pid = -1;
    bool started = false, ended = false, pending = false, killed = false;
    int status = 0;
    user_regs_struct regs{}; // at the entry of the pending call
    int cls = -1;
    std::map<int, FdInfo> fds;
    int count[NCLS] = {};
    i64 budget = -1; // bytes left on the full disk, -1: unlimited
    i64 calls = 0, interrupted = 0;
    u64 randoms = 0;
    i64 sticky = 0; // the disk is broken: every further write fails
    bool out_opened = false;
    // which faults fired on it
    bool hard_in = false, hard_out = false, hard_err = false, benign = false;
    bool hard_open_in = false, hard_read_in = false, hard_open_out = false;
    bool name_failed = false; // a call that renames or removes was made to fail
    int stderr_fd = -1, stdout_fd = -1;
    std::string stderr_text, stdout_text;
    i64 wake = 0;         // it sleeps until this step; blocked: the step in which it last asked
    bool blocked = false; // the lock it wants was taken when it last asked
    u64 moved = 0; // a path was replaced in the call that is being made: the register's value
};

struct Outcome : RunOutcome
{
};

static bool peek(pid_t pid, u64 addr, void* dst, size_t n)
{
    iovec l{dst, n}, r{(void*)addr, n};
    return process_vm_readv(pid, &l, 1, &r, 1, 0) == (ssize_t)n;
}

static bool poke(pid_t pid, u64 addr, const void* src, size_t n)
{
    iovec l{(void*)src, n}, r{(void*)addr, n};
    return process_vm_writev(pid, &l, 1, &r, 1, 0) == (ssize_t)n;
}

static std::string peek_str(pid_t pid, u64 addr)
{
    std::string s;
    for (size_t i = 0; i < 4096; ++i) {
        char c;
        if (!peek(pid, addr + i, &c, 1) || !c)
            break;
        s += c;
    }
    return s;
}

struct World
{
    const Plan& plan;
    Outcome& out;
    std::vector<Node> nodes;
    Snap initial;
    i64 step = 0;
    Hash log;
    std::string trace;
    bool want_trace = false;
    bool invariant_on = true;
    std::set<std::string> asked;        // names of files that it looked for
    std::set<std::string> asked_outside; // and of files outside the directory that are not there
    const std::set<std::string>* redirect = nullptr; // those that are given a decoy
    i64 slept = 0; // microseconds that went by while everybody slept
    i64 cap = 40000;

    World(const Plan& p, Outcome& o) : plan(p), out(o)
    {
        // every byte may come or go in a piece of its own, and every piece be interrupted a few times
        for (auto& f : p.files)
            cap += (i64)(f.second.size() * 40 * p.procs.size());
        for (auto& a : p.actions)
            cap += (i64)(a.c.size() * 40 * p.procs.size());
    }

    bool sim_path(const std::string& p) const
    {
        if (p.empty())
            return false;
        if (p[0] != '/')
            return true;
        return p.rfind(world + "/", 0) == 0;
    }

    std::string rel(const std::string& p) const
    {
        std::string q = p;
        if (q.rfind(world + "/", 0) == 0)
            q = q.substr(world.size() + 1);
        while (q.rfind("./", 0) == 0)
            q = q.substr(2);
        return q;
    }

    void setup()
    {
        wipe_dir(world);
        for (auto& f : plan.files) {
            std::string p = world + "/" + f.first;
            if (f.second == "\x01" "dir")
                mkdir(p.c_str(), 0755);
            else if (f.second.rfind("\x01link:", 0) == 0)
                (void)!symlink(f.second.substr(6).c_str(), p.c_str());
            else if (f.second.rfind("\x01hard:", 0) == 0)
                (void)!link((world + "/" + f.second.substr(6)).c_str(), p.c_str());
            else {
                const size_t d = f.first.rfind('/');
                if (d != std::string::npos)
                    mkdir((world + "/" + f.first.substr(0, d)).c_str(), 0755);
                spit(p, f.second);
            }
        }
        for (size_t i = 0; i < plan.files.size(); ++i)
            set_times(world + "/" + plan.files[i].first, mix64((u64)plan.rnd + i));
        initial = snapshot();
    }

    // Which file is the newer one is a matter of chance, too.
    static void set_times(const std::string& path, u64 x)
    {
        timespec t[2];
        t[0].tv_sec = t[1].tv_sec = x % 5 == 4 ? 1900000000 : 1600000000 + (time_t)(x % 5) * 1000; // the last is yet to come
        t[0].tv_nsec = t[1].tv_nsec = (long)(x >> 8) % 1000000000;
        if (t[1].tv_nsec < 0)
            t[0].tv_nsec = t[1].tv_nsec = 0;
        utimensat(AT_FDCWD, path.c_str(), t, AT_SYMLINK_NOFOLLOW);
    }

    void start(Node& n)
    {
        const Proc& pr = plan.procs[n.idx];
        n.stderr_fd = (int)memfd_create("err", MFD_CLOEXEC);
        const std::string exe = pr.alloc_fail >= 0 ? bin_alloc_path : bin_path;
        std::vector<char*> av;
        av.push_back((char*)pr.around.name.c_str());
        for (auto& a : pr.argv)
            av.push_back((char*)a.c_str());
        av.push_back(nullptr);
        std::string envs = "NXAS_SIM_FAIL_ALLOC=" + std::to_string(pr.alloc_fail);
        std::vector<char*> ev;
        for (auto& e : pr.around.env)
            ev.push_back((char*)e.c_str());
        ev.push_back((char*)"LANG=C");
        ev.push_back((char*)envs.c_str());
        ev.push_back(nullptr);
        n.stdout_fd = (int)memfd_create("out", MFD_CLOEXEC);
        std::fflush(nullptr);
        pid_t pid = vfork_child(exe, av.data(), ev.data(), n.stderr_fd, n.stdout_fd, pr);
        n.pid = pid;
        n.started = true;
        int st;
        bool stuck = false;
        if (!wait_for(pid, st, __WALL, stuck) || !WIFSTOPPED(st))
            die("cannot trace the tool");
        ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
        no_vdso(n);
        run_to_next(n);
    }

    // the clock is asked with system calls, and the random bytes of the start are the plan's
    void no_vdso(Node& n)
    {
        user_regs_struct r;
        ptrace(PTRACE_GETREGS, n.pid, 0, &r);
        u64 a = r.rsp, v = 0, argc = 0;
        if (!peek(n.pid, a, &argc, 8))
            die("stack");
        a += 8 * (argc + 2);
        do {
            if (!peek(n.pid, a, &v, 8))
                die("stack");
            a += 8;
        } while (v);
        for (;; a += 16) {
            u64 e[2];
            if (!peek(n.pid, a, e, 16))
                die("stack");
            if (e[0] == AT_NULL)
                break;
            if (e[0] == AT_SYSINFO_EHDR) {
                e[0] = AT_IGNORE;
                poke(n.pid, a, e, 16);
            } else if (e[0] == AT_RANDOM) {
                u64 b[2] = {random_word(n), random_word(n)};
                poke(n.pid, e[1], b, 16);
            }
        }
    }

    u64 random_word(Node& n)
    {
        return mix64(plan.rnd * 1000003 + (u64)n.idx * 7919 + n.randoms++);
    }

    int pid_of(const Node& n) const
    {
        return plan.procs[n.idx].pid ? plan.procs[n.idx].pid : 4100 + n.idx;
    }

    // calls whose result the simulator makes up: clock, process number, random numbers
    void made_up(Node& n)
    {
        user_regs_struct q;
        ptrace(PTRACE_GETREGS, n.pid, 0, &q);
        if ((i64)q.rax < 0 && (i64)n.regs.orig_rax != SYS_getrandom && (i64)n.regs.orig_rax != SYS_ioctl)
            return;
        const i64 us = 1700000000000000LL + plan.clock + plan.tick * step + slept;
        switch ((i64)n.regs.orig_rax) {
        case SYS_getpid:
            q.rax = (u64)pid_of(n);
            break;
        case SYS_ioctl:
            if (n.regs.rsi == TCGETS) {
                char t[36] = {};
                poke(n.pid, n.regs.rdx, t, sizeof t);
                q.rax = 0;
            } else if (n.regs.rsi == TIOCGWINSZ) {
                const u64 m = mix64((u64)plan.procs[n.idx].around.machine);
                winsize t{24, 80, 0, 0};
                if (plan.procs[n.idx].around.machine)
                    t = {(unsigned short)(m % 3 ? m % 100 : 0), (unsigned short)(m / 3 % 3 ? m / 128 % 300 : m / 16 % 20), 0, 0};
                poke(n.pid, n.regs.rdx, &t, sizeof t);
                q.rax = 0;
            }
            break;
        case SYS_clock_gettime: {
            timespec t{us / 1000000, us % 1000000 * 1000};
            if (n.regs.rdi != CLOCK_REALTIME && n.regs.rdi != CLOCK_REALTIME_COARSE)
                t.tv_sec -= 1699990000;
            poke(n.pid, n.regs.rsi, &t, sizeof t);
            break;
        }
        case SYS_gettimeofday: {
            timeval t{us / 1000000, us % 1000000};
            poke(n.pid, n.regs.rdi, &t, sizeof t);
            break;
        }
        case SYS_time: {
            time_t t = us / 1000000;
            if (n.regs.rdi)
                poke(n.pid, n.regs.rdi, &t, sizeof t);
            q.rax = (u64)t;
            break;
        }
        case SYS_getuid:
        case SYS_geteuid:
        case SYS_getgid:
        case SYS_getegid: {
            const u64 m = (u64)plan.procs[n.idx].around.machine;
            q.rax = m % 3 ? 1000 + m % 50 : 0;
            break;
        }
        case SYS_getppid: {
            const u64 m = (u64)plan.procs[n.idx].around.machine;
            q.rax = m % 4 ? 2 + m * 7 % 30000 : 1;
            break;
        }
        case SYS_uname: {
            utsname u{};
            peek(n.pid, n.regs.rdi, &u, sizeof u);
            const u64 m = (u64)plan.procs[n.idx].around.machine;
            std::snprintf(u.nodename, sizeof u.nodename, "%s", m % 3 == 0 ? "localhost" : m % 3 == 1 ? "build-host-7" : "");
            std::snprintf(u.release, sizeof u.release, "%d.%d.0", (int)(m % 5 + 2), (int)(m / 5 % 20));
            poke(n.pid, n.regs.rdi, &u, sizeof u);
            break;
        }
        case SYS_sched_getaffinity: {
            const u64 m = (u64)plan.procs[n.idx].around.machine;
            const u64 b = m % 3 == 0 ? 1 : m % 3 == 1 ? 3 : ~0ULL;
            if (q.rax >= 8)
                poke(n.pid, n.regs.rdx, &b, 8);
            break;
        }
        case SYS_sysinfo: {
            struct sysinfo u{};
            peek(n.pid, n.regs.rdi, &u, sizeof u);
            const u64 m = (u64)plan.procs[n.idx].around.machine;
            u.mem_unit = 1;
            u.totalram = m % 2 ? 256ul << 20 : 64ul << 30;
            u.freeram = u.totalram / (m % 7 + 1);
            u.uptime = (long)(m * 13 % 1000000);
            u.loads[0] = m % 5 << 16;
            poke(n.pid, n.regs.rdi, &u, sizeof u);
            break;
        }
        case SYS_getrandom: {
            std::string b;
            while (b.size() < n.regs.rsi && b.size() < 4096) {
                u64 w = random_word(n);
                b.append((const char*)&w, 8);
            }
            b.resize(std::min<size_t>(b.size(), n.regs.rsi));
            poke(n.pid, n.regs.rdi, b.data(), b.size());
            q.rax = b.size();
            break;
        }
        }
        ptrace(PTRACE_SETREGS, n.pid, 0, &q);
        out.probe["made_up_" + std::to_string((i64)n.regs.orig_rax)]++;
    }

    static pid_t vfork_child(const std::string& exe, char** av, char** ev, int efd, int ofd, const Proc& pr)
    {
        const bool no_stderr = pr.no_stderr;
        const Around& x = pr.around;
        pid_t pid = fork();
        if (pid)
            return pid;
        personality(ADDR_NO_RANDOMIZE);
        sigset_t none;
        sigemptyset(&none);
        sigprocmask(SIG_SETMASK, &none, nullptr);
        for (int sig = 1; sig < 32; ++sig)
            signal(sig, SIG_DFL);
        if (chdir(world.c_str()))
            _exit(120);
        int nul = open("/dev/null", O_RDWR);
        dup2(nul, 0);
        dup2(ofd, 1);
        if (x.in == 1)
            close(0);
        if (x.in == 2) {
            const int f = (int)memfd_create("in", 0);
            static const char t[] = "NOP;\nEXIT;\n";
            (void)!write(f, t, sizeof t - 1);
            lseek(f, 0, SEEK_SET);
            dup2(f, 0);
        }
        if (x.out == 1)
            close(1);
        umask((mode_t)x.mask);
        if (no_stderr)
            close(2);
        else
            dup2(efd, 2);
        rlimit rl{15, 20};
        setrlimit(RLIMIT_CPU, &rl);
        rlimit c0{0, 0};
        setrlimit(RLIMIT_CORE, &c0);
        for (int fd = 3; fd < 64; ++fd)
            close(fd);
        for (int k = 0; k < x.extra; ++k) {
            const int f = open("/dev/null", O_RDWR);
            if (f < 3)
                close(f);
        }
        if (x.stack) {
            rlimit l{(rlim_t)x.stack, (rlim_t)x.stack};
            setrlimit(RLIMIT_STACK, &l);
        }
        if (x.heap) {
            rlimit l{(rlim_t)x.heap, (rlim_t)x.heap};
            setrlimit(RLIMIT_DATA, &l);
        }
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        execve(exe.c_str(), av, ev);
        _exit(121);
    }

    [[noreturn]] void die(const char* why)
    {
        std::fprintf(stderr, "simulator error: %s (errno %d)\n", why, errno);
        std::exit(2);
    }

    static bool path_in_rsi(const Node& n)
    {
        switch ((i64)n.regs.orig_rax) {
        case SYS_openat:
        case SYS_newfstatat:
        case SYS_statx:
        case SYS_faccessat:
        case SYS_faccessat2:
        case SYS_readlinkat: return true;
        default: return false;
        }
    }
    // The name in a call that looks for a file
    static std::string looked_for(const Node& n)
    {
        switch ((i64)n.regs.orig_rax) {
        case SYS_open:
        case SYS_openat:
        case SYS_stat:
        case SYS_lstat:
        case SYS_newfstatat:
        case SYS_statx:
        case SYS_access:
        case SYS_faccessat:
        case SYS_faccessat2:
        case SYS_readlink:
        case SYS_readlinkat: return peek_str(n.pid, path_in_rsi(n) ? n.regs.rsi : n.regs.rdi);
        default: return "";
        }
    }
    // A call on something outside the simulated directory is being entered
    void look(Node& n)
    {
        if (plan.profile != "C20")
            return;
        const std::string p = looked_for(n);
        if (p.empty())
            return;
        if (sim_path(p)) {
            asked.insert(rel(p));
            return;
        }
        struct stat st;
        if (stat(p.c_str(), &st) && errno == ENOENT && p.rfind("/proc/", 0))
            asked_outside.insert(p);
        if (redirect && redirect->count(p)) {
            const u64 a = (n.regs.rsp - 512) & ~15ULL;
            if (!poke(n.pid, a, "decoy", 6))
                return;
            user_regs_struct q = n.regs;
            n.moved = path_in_rsi(n) ? q.rsi : q.rdi;
            (path_in_rsi(n) ? q.rsi : q.rdi) = a;
            ptrace(PTRACE_SETREGS, n.pid, 0, &q);
            out.fired["decoy_outside"]++;
        }
    }

    // Continue the node until it stops at the entry of a call that touches the simulated world
    // (left pending), or ends.
    void run_to_next(Node& n)
    {
        n.pending = false;
        int sig = 0;
        bool entry = true;
        for (;;) {
            if (ptrace(PTRACE_SYSCALL, n.pid, 0, sig))
                die("ptrace");
            sig = 0;
            int st;
            bool stuck = false;
            if (!wait_for(n.pid, st, __WALL, stuck))
                die("waitpid");
            if (stuck)
                out.violate("hang", "p" + std::to_string(n.idx) + " waits for ever");
            if (WIFEXITED(st) || WIFSIGNALED(st)) {
                n.ended = true;
                n.status = st;
                finish(n);
                return;
            }
            int s = WSTOPSIG(st);
            if (s == (SIGTRAP | 0x80)) {
                if (entry) {
                    ptrace(PTRACE_GETREGS, n.pid, 0, &n.regs);
                    int c = classify(n);
                    if (c >= 0) {
                        n.cls = c;
                        n.pending = true;
                        return;
                    }
                    look(n);
                    if ((i64)n.regs.orig_rax == SYS_tgkill || (i64)n.regs.orig_rax == SYS_kill) {
                        // a signal to itself
                        if ((int)n.regs.rdi == pid_of(n)) {
                            user_regs_struct q = n.regs;
                            q.rdi = (u64)n.pid;
                            ptrace(PTRACE_SETREGS, n.pid, 0, &q);
                        }
                    }
                } else {
                    if (n.moved) {
                        user_regs_struct q;
                        ptrace(PTRACE_GETREGS, n.pid, 0, &q);
                        (path_in_rsi(n) ? q.rsi : q.rdi) = n.moved;
                        ptrace(PTRACE_SETREGS, n.pid, 0, &q);
                        n.moved = 0;
                    }
                    switch ((i64)n.regs.orig_rax) {
                    case SYS_ioctl:
                        if (plan.procs[n.idx].around.tty && n.regs.rdi <= 2 && !fd(n, (i64)n.regs.rdi))
                            made_up(n);
                        break;
                    case SYS_getuid:
                    case SYS_geteuid:
                    case SYS_getgid:
                    case SYS_getegid:
                    case SYS_getppid:
                    case SYS_uname:
                    case SYS_sched_getaffinity:
                    case SYS_sysinfo:
                        if (plan.procs[n.idx].around.machine)
                            made_up(n);
                        break;
                    case SYS_getpid:
                    case SYS_clock_gettime:
                    case SYS_gettimeofday:
                    case SYS_time:
                    case SYS_getrandom: made_up(n); break;
                    }
                }
                entry = !entry;
            } else if (s == SIGTRAP) {
                // exec stop and the like
            } else {
                sig = s;
            }
        }
    }

    void finish(Node& n)
    {
        struct stat st;
        if (n.stderr_fd >= 0 && !fstat(n.stderr_fd, &st)) {
            n.stderr_text.resize((size_t)st.st_size);
            (void)!pread(n.stderr_fd, n.stderr_text.data(), n.stderr_text.size(), 0);
            close(n.stderr_fd);
            n.stderr_fd = -1;
        }
        if (n.stdout_fd >= 0 && !fstat(n.stdout_fd, &st)) {
            n.stdout_text.resize((size_t)st.st_size);
            (void)!pread(n.stdout_fd, n.stdout_text.data(), n.stdout_text.size(), 0);
            close(n.stdout_fd);
            n.stdout_fd = -1;
        }
        std::string e = WIFEXITED(n.status) ? "exit " + std::to_string(WEXITSTATUS(n.status)) : "signal " + std::to_string(WTERMSIG(n.status));
        note(n, e, -1, 0, "");
    }

    void note(Node& n, const std::string& what, i64 len, i64 res, const std::string& fault)
    {
        log.add((u64)n.idx);
        log.add(what);
        log.add((u64)len);
        log.add((u64)res);
        log.add(fault);
        if (want_trace) {
            std::ostringstream o;
            o << "  [" << step << "] p" << n.idx << " " << what;
            if (len >= 0)
                o << " len=" << len;
            if (what.rfind("exit", 0) && what.rfind("signal", 0))
                o << " -> " << res;
            if (!fault.empty())
                o << "   <== " << fault;
            trace += o.str() + "\n";
        }
    }

    FdInfo* fd(Node& n, i64 f)
    {
        auto it = n.fds.find((int)f);
        return it == n.fds.end() ? nullptr : &it->second;
    }

    int classify(Node& n)
    {
        const auto& r = n.regs;
        const i64 nr = (i64)r.orig_rax;
        const auto rw = [&](i64 f, int cr, int cw) -> int {
            FdInfo* i = fd(n, f);
            if (!i)
                return (f == 2 && cw == WRITE_W && !plan.procs[n.idx].no_stderr) ? ERRW : -1;
            return i->writable ? cw : cr;
        };
        switch (nr) {
        case SYS_open:
        case SYS_creat:
        case SYS_openat: {
            u64 pa = nr == SYS_openat ? r.rsi : r.rdi;
            int flags = nr == SYS_openat ? (int)r.rdx : nr == SYS_creat ? (O_CREAT | O_WRONLY | O_TRUNC) : (int)r.rsi;
            std::string p = peek_str(n.pid, pa);
            bool w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
            if (!sim_path(p))
                return w ? OPEN_W : -1;
            return w ? OPEN_W : OPEN_R;
        }
        case SYS_read:
        case SYS_pread64:
        case SYS_readv:
        case SYS_preadv:
        case SYS_preadv2: {
            int c = rw((i64)r.rdi, READ_R, READ_R);
            return c;
        }
        case SYS_write:
        case SYS_pwrite64:
        case SYS_writev:
        case SYS_pwritev:
        case SYS_pwritev2:
            return rw((i64)r.rdi, WRITE_W, WRITE_W);
        case SYS_sendfile:
            return rw((i64)r.rdi, WRITE_W, WRITE_W);
        case SYS_copy_file_range:
            return rw((i64)r.rdx, WRITE_W, WRITE_W);
        case SYS_lseek:
            return rw((i64)r.rdi, SEEK_R, SEEK_W) == ERRW ? -1 : rw((i64)r.rdi, SEEK_R, SEEK_W);
        case SYS_fstat:
            return fd(n, (i64)r.rdi) ? rw((i64)r.rdi, STAT_R, STAT_W) : -1;
        case SYS_newfstatat:
        case SYS_statx: {
            FdInfo* i = fd(n, (i64)(int)r.rdi);
            if (i)
                return i->writable ? STAT_W : STAT_R;
            return sim_path(peek_str(n.pid, r.rsi)) ? STAT_R : -1;
        }
        case SYS_stat:
        case SYS_lstat:
        case SYS_access:
            return sim_path(peek_str(n.pid, r.rdi)) ? STAT_R : -1;
        case SYS_close:
            return fd(n, (i64)r.rdi) ? rw((i64)r.rdi, CLOSE_R, CLOSE_W) : -1;
        case SYS_mmap: {
            FdInfo* i = fd(n, (i64)(int)r.r8);
            return i && !(r.r10 & MAP_ANONYMOUS) ? MMAP_R : -1;
        }
        case SYS_fsync:
        case SYS_fdatasync:
        case SYS_ftruncate:
        case SYS_fallocate:
        case SYS_sync_file_range:
            return fd(n, (i64)r.rdi) ? SYNC_W : -1;
        case SYS_rename:
        case SYS_renameat:
        case SYS_renameat2:
        case SYS_link:
        case SYS_linkat:
        case SYS_symlink:
        case SYS_symlinkat:
        case SYS_unlink:
        case SYS_unlinkat:
        case SYS_truncate:
        case SYS_mkdir:
        case SYS_mkdirat:
        case SYS_rmdir:
            return NAME;
        case SYS_nanosleep:
        case SYS_clock_nanosleep:
        case SYS_sched_yield:
            return WAIT;
        case SYS_poll:
            return r.rsi == 0 ? WAIT : -1;
        case SYS_flock:
            return r.rsi & (LOCK_NB | LOCK_UN) ? -1 : WAIT;
        case SYS_fcntl:
            return r.rsi == F_SETLKW || r.rsi == F_OFD_SETLKW ? WAIT : -1;
        default:
            return -1;
        }
    }

    // Sleeping takes simulated time only; a process that waits for a lock asks again when another has
    // made a step.
    void exec_wait(Node& n)
    {
        const i64 nr = (i64)n.regs.orig_rax;
        const bool lock = nr == SYS_flock || nr == SYS_fcntl;
        user_regs_struct r = n.regs;
        i64 us = 1;
        if (lock) {
            if (nr == SYS_flock)
                r.rsi |= LOCK_NB;
            else
                r.rsi = n.regs.rsi == F_SETLKW ? F_SETLK : F_OFD_SETLK;
        } else {
            timespec t{};
            if (nr == SYS_poll) {
                us = std::max<i64>(1, (int)r.rdx) * 1000;
            } else if (nr != SYS_sched_yield && peek(n.pid, nr == SYS_nanosleep ? r.rdi : r.rdx, &t, sizeof t)) {
                us = (i64)t.tv_sec * 1000000 + t.tv_nsec / 1000;
                if (nr == SYS_clock_nanosleep && r.rsi == TIMER_ABSTIME) {
                    us -= plan.clock + plan.tick * step + slept + (r.rdi == CLOCK_REALTIME ? 1700000000000000LL : 10000000000LL);
                }
            }
            us = std::max<i64>(us, 1);
            r.orig_rax = (u64)-1;
        }
        ptrace(PTRACE_SETREGS, n.pid, 0, &r);
        int st;
        bool stuck = false;
        if (ptrace(PTRACE_SYSCALL, n.pid, 0, 0) || !wait_for(n.pid, st, __WALL, stuck) || !WIFSTOPPED(st))
            die("exec_wait");
        user_regs_struct q;
        ptrace(PTRACE_GETREGS, n.pid, 0, &q);
        i64 res = lock ? (i64)q.rax : 0;
        q.rax = (u64)res;
        q.rsi = n.regs.rsi;
        n.blocked = lock && (res == -EWOULDBLOCK || res == -EACCES);
        if (n.blocked) {
            q.rip = n.regs.rip - 2; // ask again
            q.rax = (u64)nr;
            n.wake = step;
        } else if (!lock) {
            n.wake = step + std::max<i64>(1, std::min<i64>(us / std::max<i64>(1, plan.tick), (i64)1 << 40));
        }
        ptrace(PTRACE_SETREGS, n.pid, 0, &q);
        out.probe[lock ? n.blocked ? "lock_taken" : "lock_got" : "slept"]++;
        note(n, "wait#" + std::to_string(nr), -1, res, "");
        run_to_next(n);
    }

    static i64 call_len(const Node& n)
    {
        switch ((i64)n.regs.orig_rax) {
        case SYS_read:
        case SYS_pread64:
        case SYS_write:
        case SYS_pwrite64:
            return (i64)n.regs.rdx;
        case SYS_sendfile:
            return (i64)n.regs.r10;
        case SYS_copy_file_range:
            return (i64)n.regs.r8;
        case SYS_readv:
        case SYS_writev:
        case SYS_preadv:
        case SYS_pwritev:
        case SYS_preadv2:
        case SYS_pwritev2: {
            i64 t = 0;
            for (u64 i = 0; i < n.regs.rdx && i < 64; ++i) {
                iovec v;
                if (!peek(n.pid, n.regs.rsi + i * sizeof v, &v, sizeof v))
                    return -1;
                t += (i64)v.iov_len;
            }
            return t;
        }
        default:
            return -1;
        }
    }

    // Execute the pending call of n, subject to faults.
    void exec_pending(Node& n)
    {
        const int c = n.cls;
        const int kth = n.count[c]++;
        const int kany = n.count[ANY]++;
        n.calls++;
        step++;
        const i64 nr = (i64)n.regs.orig_rax;
        const i64 len = call_len(n);
        std::string what = std::string(cls_name[c]) + "#" + std::to_string(nr);
        i64 limit = -1, err = 0, lost = -1;
        bool kb = false, ka = false, is_short = false;
        std::string ftxt;
        const Proc& pr = plan.procs[n.idx];
        if (plan.profile == "C20") {
            const std::string p = looked_for(n);
            if (!p.empty() && sim_path(p))
                asked.insert(rel(p));
        }
        auto mark = [&](bool hard) {
            if (!hard) {
                n.benign = true;
                return;
            }
            if (c == ERRW)
                n.hard_err = true;
            else if (c == OPEN_R || c == READ_R || c == SEEK_R || c == STAT_R || c == MMAP_R) {
                n.hard_in = true;
                if (c == OPEN_R) n.hard_open_in = true;
                if (c == READ_R) n.hard_read_in = true;
            } else if (c == CLOSE_R) {
                n.benign = true;
            } else {
                n.hard_out = true;
                if (c == OPEN_W) n.hard_open_out = true;
            }
        };
        // a write outside the scratch directory is refused and recorded
        std::string opath;
        if (c == OPEN_R || c == OPEN_W) {
            opath = peek_str(n.pid, nr == SYS_openat ? n.regs.rsi : n.regs.rdi);
            what += ":" + rel(opath);
            if (c == OPEN_W && !opath.empty() && !sim_path(opath)) {
                err = EACCES;
                out.violate("stray_write", "p" + std::to_string(n.idx) + " opened " + opath + " for writing");
            }
        }
        if (c == NAME) {
            std::string p = peek_str(n.pid, nr == SYS_symlinkat ? n.regs.rdx : (nr == SYS_symlink || nr == SYS_renameat || nr == SYS_renameat2 || nr == SYS_linkat || nr == SYS_unlinkat || nr == SYS_mkdirat) ? n.regs.rsi : n.regs.rdi);
            what += ":" + rel(p);
            if (!p.empty() && !sim_path(p)) {
                err = EACCES;
                out.violate("stray_write", "p" + std::to_string(n.idx) + " tried to change " + p);
            }
        }
        int term = 0;
        for (auto& f : plan.faults) {
            if (f.proc != n.idx)
                continue;
            if (f.cls != c && f.cls != ANY)
                continue;
            const int kk = f.cls == ANY ? kany : kth;
            if (f.kind == ERR && f.arg == EINTR) {
                // arg2 further calls, or all but every arg2-th, are interrupted as well
                if (f.k >= 0 ? kk < f.k || kk > f.k + f.arg2 : kk % std::max<i64>(2, f.arg2) == 0)
                    continue;
            } else if (f.k >= 0 && f.k != kk)
                continue;
            switch (f.kind) {
            case SHORT:
                if (len > f.arg && f.arg > 0 && (c == READ_R || c == WRITE_W || c == ERRW)) {
                    limit = limit < 0 ? f.arg : std::min(limit, f.arg);
                    ftxt = "short " + std::to_string(limit);
                    is_short = true;
                    mark(false);
                }
                break;
            case ERR:
                if (err)
                    break; // one result per call
                err = f.arg;
                ftxt = "errno " + std::to_string(err);
                out.fired["err_" + std::string(cls_name[c]) + "_" + std::to_string(err)]++;
                n.interrupted += err == EINTR;
                mark(!(err == EINTR && c != OPEN_R && c != OPEN_W) || c == ERRW);
                if (c == CLOSE_W)
                    lost = f.arg2;
                if (c == NAME)
                    n.name_failed = true;
                break;
            case FULL:
                if (c == WRITE_W) {
                    n.budget = f.arg;
                    out.fired["disk_full_armed"]++;
                }
                break;
            case KILL_BEFORE:
                kb = true;
                out.fired["kill_before"]++;
                ftxt = "killed before the call";
                break;
            case KILL_AFTER:
                ka = true;
                out.fired["kill_after"]++;
                ftxt = "killed after the call";
                break;
            case KILL_TORN:
                ka = true;
                if (c == WRITE_W && len > f.arg)
                    limit = f.arg;
                out.fired["kill_torn"]++;
                ftxt = "torn write, killed";
                break;
            case TERM:
                term = (int)f.arg;
                out.fired["signal_" + std::to_string(term)]++;
                ftxt = "signal " + std::to_string(term) + " after the call";
                break;
            }
        }
        if (kb) {
            kill_node(n, what, ftxt);
            return;
        }
        if (c == WAIT) {
            exec_wait(n);
            return;
        }
        // where the contents of a half-written file are judged, a disk that failed once stays so
        if (c == WRITE_W && (plan.profile == "C03" || plan.profile == "C06")) {
            if (n.sticky && !err) {
                err = n.sticky;
                ftxt = "errno " + std::to_string(err) + " again";
            } else if (err && err != EINTR && err != EAGAIN) {
                n.sticky = err;
            }
        }
        if (pr.nonseek && ((c == SEEK_R && (pr.nonseek == 1 || (int)n.regs.rdx == SEEK_END)) || c == MMAP_R)) {
            err = c != SEEK_R ? ENODEV : pr.nonseek == 1 ? ESPIPE : EINVAL;
            ftxt = "not seekable";
            out.fired["nonseekable"]++;
            n.benign = true;
        }
        if (pr.nonseek == 1 && nr == SYS_pread64) {
            err = ESPIPE;
            n.benign = true;
        }
        if (c == WRITE_W && n.budget >= 0 && !err) {
            if (n.budget == 0 && len > 0) {
                err = ENOSPC;
                ftxt = "disk full";
                out.fired["disk_full_hit"]++;
                mark(true);
            } else if (len > n.budget) {
                limit = limit < 0 ? n.budget : std::min(limit, n.budget);
                ftxt = "disk nearly full, " + std::to_string(limit) + " bytes fit";
            }
        }
        // KILL_TORN with 0 bytes: nothing reaches the disk
        if (ka && limit == 0) {
            kill_node(n, what, ftxt);
            return;
        }
        user_regs_struct r = n.regs;
        std::vector<iovec> saved;
        const bool skip = err && c != CLOSE_R && c != CLOSE_W;
        if (skip) {
            r.orig_rax = (u64)-1;
            ptrace(PTRACE_SETREGS, n.pid, 0, &r);
        } else if (limit >= 0 && limit < len) {
            switch (nr) {
            case SYS_read:
            case SYS_pread64:
            case SYS_write:
            case SYS_pwrite64:
                r.rdx = (u64)limit;
                ptrace(PTRACE_SETREGS, n.pid, 0, &r);
                break;
            case SYS_sendfile:
                r.r10 = (u64)limit;
                ptrace(PTRACE_SETREGS, n.pid, 0, &r);
                break;
            case SYS_copy_file_range:
                r.r8 = (u64)limit;
                ptrace(PTRACE_SETREGS, n.pid, 0, &r);
                break;
            default: {
                saved.resize(n.regs.rdx);
                peek(n.pid, n.regs.rsi, saved.data(), saved.size() * sizeof(iovec));
                std::vector<iovec> v = saved;
                i64 left = limit;
                for (auto& e : v) {
                    e.iov_len = std::min<u64>(e.iov_len, (u64)left);
                    left -= (i64)e.iov_len;
                }
                poke(n.pid, n.regs.rsi, v.data(), v.size() * sizeof(iovec));
            }
            }
        }
        int st;
        bool stuck = false;
        if (ptrace(PTRACE_SYSCALL, n.pid, 0, 0) || !wait_for(n.pid, st, __WALL, stuck))
            die("exec_pending");
        if (stuck)
            out.violate("hang", "p" + std::to_string(n.idx) + " waits for ever");
        if (!WIFSTOPPED(st)) {
            n.ended = true;
            n.pending = false;
            n.status = st;
            finish(n);
            return;
        }
        user_regs_struct q;
        ptrace(PTRACE_GETREGS, n.pid, 0, &q);
        i64 res = (i64)q.rax;
        if (err)
            res = -err;
        if (is_short && res == limit)
            out.fired[std::string("short_") + cls_name[c]]++;
        q.rax = (u64)res;
        q.rdx = n.regs.rdx;
        if (nr == SYS_sendfile)
            q.r10 = n.regs.r10;
        if (nr == SYS_copy_file_range)
            q.r8 = n.regs.r8;
        ptrace(PTRACE_SETREGS, n.pid, 0, &q);
        if (!saved.empty())
            poke(n.pid, n.regs.rsi, saved.data(), saved.size() * sizeof(iovec));
        if (c == WRITE_W && res > 0) {
            if (n.budget >= 0)
                n.budget = std::max<i64>(0, n.budget - res);
            if (FdInfo* f = fd(n, (i64)n.regs.rdi))
                f->written += res;
        }
        // bookkeeping of descriptors
        if ((c == OPEN_R || c == OPEN_W) && res >= 0) {
            FdInfo f;
            f.sim = true;
            f.writable = c == OPEN_W;
            f.path = rel(opath);
            n.fds[(int)res] = f;
            if (c == OPEN_W)
                n.out_opened = true;
        }
        if (c == CLOSE_R || c == CLOSE_W) {
            auto it = n.fds.find((int)n.regs.rdi);
            if (it != n.fds.end()) {
                // delayed writes that never reached the disk: reported only now
                if (lost >= 0 && it->second.writable && it->second.written > 0) {
                    std::string p = world + "/" + it->second.path;
                    struct stat ss;
                    if (!stat(p.c_str(), &ss) && ss.st_size > 0)
                        (void)!truncate(p.c_str(), std::min<i64>(lost, (i64)ss.st_size - 1));
                }
                n.fds.erase(it);
            }
        }
        if (pr.nonseek && (c == STAT_R) && res == 0) {
            // looks like a pipe
            if (nr == SYS_statx) {
                struct statx ss;
                if (peek(n.pid, n.regs.r8, &ss, sizeof ss) && S_ISREG(ss.stx_mode)) {
                    if (pr.nonseek == 1)
                        ss.stx_mode = (uint16_t)((ss.stx_mode & ~S_IFMT) | S_IFIFO);
                    ss.stx_size = 0;
                    poke(n.pid, n.regs.r8, &ss, sizeof ss);
                }
            } else if (nr == SYS_fstat || nr == SYS_stat || nr == SYS_newfstatat || nr == SYS_lstat) {
                u64 a = nr == SYS_newfstatat ? n.regs.rdx : n.regs.rsi;
                struct stat ss;
                if (peek(n.pid, a, &ss, sizeof ss) && S_ISREG(ss.st_mode)) {
                    if (pr.nonseek == 1)
                        ss.st_mode = (ss.st_mode & ~(mode_t)S_IFMT) | S_IFIFO;
                    ss.st_size = 0;
                    poke(n.pid, a, &ss, sizeof ss);
                }
            }
        }
        note(n, what, len, (c == STAT_R || c == MMAP_R) && res > 0 ? 1 : res, ftxt);
        if (invariant_on && (c == OPEN_W || c == WRITE_W || c == CLOSE_W || c == SYNC_W || c == NAME))
            check_invariant(n);
        if (ka) {
            kill_node(n, "killed", ftxt);
            return;
        }
        if (term) {
            // asked to end: what it does about that, if it survives, is part of the run
            n.killed = true;
            kill(n.pid, term);
        }
        run_to_next(n);
    }

    void kill_node(Node& n, const std::string& what, const std::string& ftxt)
    {
        kill(n.pid, SIGKILL);
        int st;
        bool stuck = false;
        wait_for(n.pid, st, __WALL, stuck);
        n.ended = true;
        n.killed = true;
        n.pending = false;
        n.status = st;
        note(n, what, -1, -9, ftxt);
        finish(n);
        if (invariant_on)
            check_invariant(n);
    }

    // --- the invariant of a single-writer run, checked after every step that changes the disk ---
    std::function<void(Node&)> invariant;
    void check_invariant(Node& n)
    {
        if (invariant)
            invariant(n);
    }

    void act(const Action& a)
    {
        std::string t = world + "/.sim-new";
        spit(t, a.c);
        set_times(t, mix64((u64)plan.rnd + 77));
        std::rename(t.c_str(), (world + "/" + a.a).c_str());
        out.fired["input_replaced"]++;
        log.add("act" + a.a);
        if (want_trace)
            trace += "  [" + std::to_string(step) + "] " + a.a + " atomically replaced by another version\n";
    }

    void run()
    {
        nodes.resize(plan.procs.size());
        for (size_t i = 0; i < nodes.size(); ++i)
            nodes[i].idx = (int)i;
        int maxphase = 0;
        for (auto& p : plan.procs)
            maxphase = std::max(maxphase, p.phase);
        size_t si = 0;
        size_t ai = 0;
        for (int ph = 0; ph <= maxphase; ++ph) {
            if (ph > 0 && on_phase)
                on_phase(ph);
            for (auto& n : nodes)
                if (plan.procs[n.idx].phase == ph)
                    start(n);
            int cur = -1;
            i64 progress = step;
            for (;;) {
                while (ai < plan.actions.size() && plan.actions[ai].at <= step)
                    act(plan.actions[ai++]);
                std::vector<int> run;
                for (auto& n : nodes)
                    if (n.started && !n.ended && n.pending)
                        run.push_back(n.idx);
                if (run.empty())
                    break;
                // those that sleep or wait for a lock let the others go first
                std::vector<int> awake;
                i64 first = -1;
                for (int i : run) {
                    Node& n = nodes[i];
                    if (n.blocked ? progress > n.wake : n.wake <= step)
                        awake.push_back(i);
                    else if (!n.blocked && (first < 0 || n.wake < first))
                        first = n.wake;
                }
                if (awake.empty() && first < 0) {
                    for (int i : run) {
                        out.violate("hang", "p" + std::to_string(i) + " waits for ever for a lock");
                        kill_node(nodes[i], "cap", "deadlock");
                    }
                    continue;
                }
                if (awake.empty()) {
                    slept += (first - step) * plan.tick;
                    for (int i : run)
                        if (!nodes[i].blocked)
                            nodes[i].wake -= first - step;
                    continue;
                }
                run = awake;
                int pick;
                if (run.size() == 1) {
                    pick = run[0];
                } else if (si < plan.sched.size()) {
                    pick = run[(size_t)plan.sched[si++] % run.size()];
                } else {
                    pick = std::find(run.begin(), run.end(), cur) != run.end() ? cur : run[0];
                }
                if (pick != cur && cur >= 0)
                    out.switches++;
                cur = pick;
                nodes[pick].blocked = false;
                exec_pending(nodes[pick]);
                if (!nodes[pick].blocked)
                    progress = step;
                if (step > cap) {
                    for (auto& n : nodes)
                        if (n.started && !n.ended) {
                            out.violate("hang", "p" + std::to_string(n.idx) + " made more than " + std::to_string(cap) + " calls without ending");
                            kill_node(n, "cap", "step cap");
                        }
                    break;
                }
            }
        }
        out.steps = step;
        out.hash = log.h;
        out.trace = trace;
    }
    std::function<void(int)> on_phase;
};

// ---------------------------------------------------------------------------------------------
// Oracles
// ---------------------------------------------------------------------------------------------
struct Cmd
{
    bool usable = false;
    std::string in, out;
};

// what the command line means (two operands, in any order, one input and "-o <output>")
static Cmd parse_cmd(const Proc& p)
{
    Cmd c;
    bool has_in = false, has_out = false, bad = false;
    for (size_t i = 0; i < p.argv.size(); ++i) {
        if (p.argv[i] == "-o") {
            if (has_out || i + 1 == p.argv.size()) {
                bad = true;
                break;
            }
            c.out = p.argv[++i];
            has_out = true;
        } else {
            if (has_in) {
                bad = true;
                break;
            }
            c.in = p.argv[i];
            has_in = true;
        }
    }
    c.usable = has_in && has_out && !bad;
    return c;
}

static std::string strip(const std::string& p)
{
    std::string q = p;
    while (q.rfind("./", 0) == 0)
        q = q.substr(2);
    return q;
}

// resolve one level of link names used by the generator
static std::string resolve(const Plan& p, const std::string& name)
{
    std::string n = strip(name);
    for (auto& f : p.files) {
        if (f.first != n)
            continue;
        if (f.second.rfind("\x01link:", 0) == 0 || f.second.rfind("\x01hard:", 0) == 0)
            return resolve(p, f.second.substr(6));
    }
    return n;
}

static const std::string* file_of(const Plan& p, const std::string& name)
{
    std::string n = resolve(p, name);
    for (auto& f : p.files)
        if (f.first == n)
            return &f.second;
    return nullptr;
}

// The same command on the same files in a neutral and in another surrounding
static Outcome execute_c20(const Plan& plan, bool want_trace)
{
    Outcome out;
    const Cmd c = parse_cmd(plan.procs[0]);
    struct Seen
    {
        int status = 0;
        std::string err, out, image;
        bool file = false;
    };
    const auto see = [&](World& w) {
        Seen x;
        x.status = w.nodes[0].status;
        x.err = w.nodes[0].stderr_text;
        x.out = w.nodes[0].stdout_text;
        struct stat st;
        const std::string o = world + "/" + strip(c.out);
        if (c.usable && WIFEXITED(x.status) && WEXITSTATUS(x.status) == 0 && !stat(o.c_str(), &st) && S_ISREG(st.st_mode)) {
            x.file = true;
            x.image = slurp(o);
        }
        return x;
    };
    Plan p1 = plan;
    p1.procs[0].around = Around();
    p1.procs[0].pid = 0;
    p1.rnd = 1;
    p1.clock = 1000000;
    p1.tick = 50;
    // an old output is part of the surroundings
    if (c.usable && resolve(plan, c.out) != resolve(plan, c.in))
        for (size_t i = 0; i < p1.files.size(); ++i)
            if (p1.files[i].first == strip(c.out) && (p1.files[i].second.empty() || p1.files[i].second[0] != '\x01')) {
                p1.files.erase(p1.files.begin() + (long)i);
                break;
            }
    World w1(p1, out);
    w1.want_trace = want_trace;
    w1.setup();
    w1.run();
    const std::string t1 = w1.trace;
    const u64 h1 = w1.log.h;
    const Seen a = see(w1);

    Plan p2 = plan;
    const Around& ar = plan.procs[0].around;
    if (ar.decoys) {
        static const char* text[] = {"", "1\n", "NOP;\n", "-o other.bin\n", "num_gprs 4\noutput other.bin\nverbose=1\n", ".dksh compute\n.num_gprs 7\nEXIT;\n", "\xff\xfe\x01garbage", "#define R0 R1\nR0=R1\nMOV=NOP\n"};
        const std::string t = text[(size_t)(ar.decoys - 1) % 8];
        std::set<std::string> have;
        for (auto& f : p2.files)
            have.insert(f.first);
        have.insert(strip(c.in));
        have.insert(strip(c.out));
        w1.asked.insert("decoy");
        w1.asked.insert("a.s");
        w1.asked.insert("zz.inc");
        for (auto& f : w1.asked)
            if (!f.empty() && f != "." && f.back() != '/' && f.find("..") == std::string::npos && f.size() < 200 && f.rfind("nodir/", 0) && !have.count(f)) {
                p2.files.push_back({f, t});
                out.fired["decoy"]++;
            }
    }
    World w2(p2, out);
    if (ar.decoys)
        w2.redirect = &w1.asked_outside;
    w2.want_trace = want_trace;
    w2.setup();
    w2.run();
    const Seen b = see(w2);
    const auto status = [](int s) { return WIFEXITED(s) ? "status " + std::to_string(WEXITSTATUS(s)) : "signal " + std::to_string(WTERMSIG(s)); };
    const bool heard = !plan.procs[0].no_stderr;
    if (!out.bad()) {
        if (a.status != b.status)
            out.violate("depends", "the run ends with " + status(b.status) + " instead of " + status(a.status) + (b.err.empty() ? "" : ": " + b.err.substr(0, 300)));
        else if (a.file != b.file || a.image != b.image)
            out.violate("depends", "the output differs (" + std::to_string(b.image.size()) + " bytes instead of " + std::to_string(a.image.size()) + ")");
        else if (heard && a.err != b.err)
            out.violate("depends", "the message is \"" + b.err.substr(0, 300) + "\" instead of \"" + a.err.substr(0, 300) + "\"");
        else if (!ar.out && a.out != b.out)
            out.violate("depends", "standard output holds \"" + b.out.substr(0, 300) + "\" instead of \"" + a.out.substr(0, 300) + "\"");
    }
    if (!ar.env.empty()) out.fired["environment_variables"] += ar.env.size();
    if (ar.name != "nxas") out.fired["other_program_name"]++;
    if (ar.in) out.fired[ar.in == 1 ? "stdin_closed" : "stdin_full"]++;
    if (ar.out) out.fired["stdout_closed"]++;
    if (ar.tty) out.fired["terminal"]++;
    if (ar.machine) out.fired["another_user_and_machine"]++;
    if (ar.mask != 022) out.fired["umask"]++;
    if (ar.extra) out.fired["open_descriptors"]++;
    if (WIFEXITED(b.status))
        out.probe["exit_" + std::to_string(WEXITSTATUS(b.status))]++;
    out.trace = want_trace ? "  neutral surroundings:\n" + t1 + "  other surroundings:\n" + w2.trace : "";
    out.steps = w1.step + w2.step;
    Hash h;
    h.add(h1);
    h.add(w2.log.h);
    for (auto* x : {&a, &b}) {
        h.add((u64)x->status);
        h.add(x->err);
        h.add(x->out);
        h.add(x->image);
    }
    for (auto& e : ar.env)
        h.add(e);
    for (auto& v : out.violations)
        h.add(v.first);
    out.hash = h.h;
    out.nontrivial = !ar.plain();
    return out;
}

static Outcome execute(const Plan& plan, bool want_trace)
{
    if (plan.profile == "C20")
        return execute_c20(plan, want_trace);
    Outcome out;
    if (plan.profile == "C19")
        for (auto& f : plan.files)
            if (f.second.size() > 4000 && reference(f.second).slow) {
                out.probe["no_reference"]++; // time is not what is judged
                return out;
            }
    World w(plan, out);
    w.want_trace = want_trace;
    const std::string& prof = plan.profile;
    const bool single = plan.procs.size() == 1 || (plan.procs.size() == 2 && plan.procs[1].phase == 1);

    std::vector<Cmd> cmds;
    for (auto& p : plan.procs)
        cmds.push_back(parse_cmd(p));

    const auto versions = [&](const Cmd& c) {
        std::vector<std::string> v;
        const std::string* f = file_of(plan, c.in);
        if (f && (f->empty() || (*f)[0] != '\x01'))
            v.push_back(*f);
        for (auto& a : plan.actions)
            if (a.a == resolve(plan, c.in))
                v.push_back(a.c);
        return v;
    };
    const auto valid_any = [&](const Cmd& c) {
        for (auto& v : versions(c))
            if (reference(v).ok)
                return true;
        return false;
    };

    // Output at every instant: untouched unless the program is valid, and then the old contents or
    // a prefix of the new image. Other files: never touched.
    Snap base;
    const auto disk_ok = [&](Node& n, bool ended) {
        const Cmd& c = cmds[n.idx];
        Snap now = snapshot();
        // the output: its name, what the name stands for, and other names of the same file
        const std::string on = c.usable ? strip(c.out) : std::string(), o = c.usable ? resolve(plan, c.out) : std::string();
        const auto is_output = [&](const std::string& f) { return c.usable && (f == on || f == o || resolve(plan, f) == o); };
        std::vector<std::string> vs = versions(c);
        bool any_ok = false;
        for (auto& v : vs)
            any_ok |= reference(v).ok;
        const auto prefix = [&](const std::string& x) {
            for (auto& v : vs) {
                const Ref& r = reference(v);
                if (r.ok && x.size() <= r.image.size() && r.image.compare(0, x.size(), x) == 0)
                    return true;
            }
            return false;
        };
        for (auto& f : base) {
            auto it = now.find(f.first);
            if (it != now.end() && it->second == f.second)
                continue;
            bool replaced = false;
            for (auto& a : plan.actions)
                replaced |= a.a == f.first;
            if (!is_output(f.first)) {
                if (it == now.end() || !replaced) {
                    out.violate("other_file", "file \"" + f.first + "\" was " + (it == now.end() ? "removed" : "modified") + " by p" + std::to_string(n.idx));
                    return;
                }
                continue;
            }
            if (!any_ok) {
                out.violate("output_touched", "output changed although the source is not valid or not readable (p" + std::to_string(n.idx) + ")");
                return;
            }
            if (it == now.end()) {
                out.violate("output_removed", "the output file disappeared");
                return;
            }
            if (!prefix(it->second)) {
                out.violate("output_garbage", "output holds neither its old contents nor a prefix of the image");
                return;
            }
        }
        for (auto& f : now) {
            if (base.count(f.first))
                continue;
            if (!is_output(f.first)) {
                if (ended && !n.name_failed) {
                    out.violate("leftover", "p" + std::to_string(n.idx) + " left the file \"" + f.first + "\" behind");
                    return;
                }
                continue;
            }
            if (!any_ok || !prefix(f.second)) {
                out.violate(any_ok ? "output_garbage" : "output_touched", any_ok ? "output holds something else than a prefix of the image" : "output created although the source is not valid or not readable (p" + std::to_string(n.idx) + ")");
                return;
            }
        }
    };
    if (single && (prof == "C03" || prof == "C06"))
        w.invariant = [&](Node& n) {
            if (!out.bad())
                disk_ok(n, false);
        };
    w.on_phase = [&](int) { base = snapshot(); };
    w.setup();
    base = w.initial;
    w.run();

    // ---- end of run ----
    for (auto& n : w.nodes) {
        if (!n.started || out.bad())
            continue;
        const Cmd& c = cmds[n.idx];
        const Proc& pr = plan.procs[n.idx];
        const bool exited = WIFEXITED(n.status);
        const int code = exited ? WEXITSTATUS(n.status) : -1;
        const std::string who = "p" + std::to_string(n.idx);
        std::vector<std::string> vs = versions(c);
        if (code == 0)
            out.probe["exit_0"]++;
        else if (exited)
            out.probe["exit_failure"]++;
        else
            out.probe[n.killed ? "killed" : "died"]++;
        if (prof == "C19" && !n.killed && !exited && WTERMSIG(n.status) == SIGXCPU) {
            out.probe["too_slow"]++;
            continue;
        }
        if (!n.killed && !exited && WTERMSIG(n.status) == SIGXCPU)
            out.violate("hang", who + " used 15 s of processor time without ending");
        // the file the process wrote is the last one that process phase wrote: for phase 0 of a two
        // phase plan the contents were overwritten later, so only look at the last phase
        bool last = true;
        for (auto& p : plan.procs)
            if (p.phase > pr.phase)
                last = false;

        if (code == 0) {
            if (!c.usable) {
                out.violate("bad_success", who + " exited with 0 on an unusable command line");
                continue;
            }
            if (last) {
                const std::string op = world + "/" + strip(c.out);
                struct stat st;
                bool ex = !stat(op.c_str(), &st) && S_ISREG(st.st_mode);
                std::string got = ex ? slurp(op) : "";
                bool ok = false;
                for (auto& v : vs)
                    if (right_image(v, got))
                        ok = true;
                // several writers of the same output: they all write the same image in our plans
                if (!ex || !ok) {
                    std::string d = !ex ? "there is no output file" : "output has " + std::to_string(got.size()) + " bytes";
                    if (!vs.empty() && reference(vs[0]).ok)
                        d += ", the image has " + std::to_string(reference(vs[0]).image.size());
                    else
                        d += ", the source is not valid";
                    out.violate("false_success", who + " exited with 0 but the output is not the image of the input: " + d);
                    continue;
                }
            }
        }
        if (prof == "C04" && !n.killed && pr.alloc_fail < 0) {
            if (!exited) {
                out.violate("abnormal_end", who + " died of signal " + std::to_string(WTERMSIG(n.status)));
                continue;
            }
            if (code != 0 && !n.hard_err && !pr.no_stderr) {
                if (n.stderr_text.find("error") == std::string::npos || n.stderr_text.size() < 12) {
                    out.violate("silent_failure", who + " failed with status " + std::to_string(code) + " and no error message");
                    continue;
                }
                // strip the decoration: something must be said after "error:"
                std::string m = n.stderr_text;
                size_t k = m.find("error:");
                std::string tail = k == std::string::npos ? m : m.substr(k + 6);
                bool said = false;
                for (size_t i = 0; i < tail.size(); ++i) {
                    if (tail[i] == '\33') {
                        while (i < tail.size() && tail[i] != 'm')
                            ++i;
                        continue;
                    }
                    if (isalnum((unsigned char)tail[i]))
                        said = true;
                }
                if (!said) {
                    out.violate("silent_failure", who + " failed with an empty error message");
                    continue;
                }
                struct stat st;
                const bool in_missing = c.usable && !file_of(plan, c.in);
                const bool in_dir = c.usable && file_of(plan, c.in) && *file_of(plan, c.in) == "\x01" "dir";
                if (c.usable && !n.count[OPEN_W] && (n.hard_open_in || n.hard_read_in || in_missing || in_dir) && n.stderr_text.find(strip(c.in)) == std::string::npos) {
                    out.violate("unnamed_file", who + " could not read its input but the message does not name it: " + n.stderr_text);
                    continue;
                }
                if (c.usable && n.hard_open_out && !n.hard_in && valid_any(c) && n.stderr_text.find(strip(c.out)) == std::string::npos) {
                    out.violate("unnamed_file", who + " could not open its output but the message does not name it: " + n.stderr_text);
                    continue;
                }
                (void)st;
            }
            // a write that failed, a source that is wrong and an input that cannot be read are failures
        }
        if (!n.killed && !n.hard_in && !n.hard_out && !n.hard_err && pr.alloc_fail < 0 && c.usable && !pr.no_stderr) {
            // nothing but benign irregularities: a valid program must be assembled, an invalid one refused
            bool dest_ok = true;
            const std::string* of = file_of(plan, c.out);
            if (of && *of == "\x01" "dir")
                dest_ok = false;
            if (strip(c.out).rfind("nodir/", 0) == 0 || c.out.empty())
                dest_ok = false;
            bool all_ok = !vs.empty();
            for (auto& v : vs)
                if (!reference(v).ok || (reference(v).model && !model_accepts(*reference(v).model, reference(v).image)))
                    all_ok = false;
            if (all_ok && dest_ok && code != 0 && (prof == "C05" || prof == "C06" || prof == "C07" || prof == "C19")) {
                out.violate("benign_failure", who + " failed (" + (exited ? "status " + std::to_string(code) : "signal " + std::to_string(WTERMSIG(n.status))) + ") although nothing went wrong: " + n.stderr_text);
                continue;
            }
            const i64 bound = 400 + 3 * (i64)plan.faults.size() + 3 * n.interrupted + (single ? 4 * (i64)(vs.empty() ? 0 : vs[0].size()) : 4000);
            if (prof == "C05" && n.calls > bound && n.benign) {
                out.violate("no_progress", who + " made " + std::to_string(n.calls) + " calls, bound " + std::to_string(bound));
                continue;
            }
            out.probe["benign_only_run"]++;
        }
        if (single && (prof == "C03") && pr.phase == 0) {
            disk_ok(n, !n.killed);
            if (out.bad())
                continue;
            // refused: nothing may have changed
            const bool refused = !n.killed && code != 0 && !n.hard_out && !pr.no_stderr;
            // memory may also run out after the output was opened: that is a failed write (see disk_ok)
            if (pr.alloc_fail >= 0 ? code != 0 && !n.out_opened : refused) {
                Snap now = snapshot();
                const bool dir_out = c.usable && file_of(plan, c.out) && *file_of(plan, c.out) == "\x01" "dir";
                if (!dir_out && now != base && plan.actions.empty()) {
                    out.violate("output_touched", who + " failed before writing but the directory changed");
                    continue;
                }
                out.probe["refused_untouched"]++;
            }
        }
        if (prof == "C19" && c.usable) {
            out.fired["little_memory"]++;
            if (!exited)
                out.violate("memory", who + " died of signal " + std::to_string(WTERMSIG(n.status)) + " with " + std::to_string(pr.around.heap) + " bytes of data and " + std::to_string(pr.around.stack) + " bytes of stack: " + n.stderr_text.substr(0, 300));
            else if (vs.size() == 1 && !reference(vs[0]).ok) {
                const std::string& m = reference(vs[0]).message;
                const size_t k = m.find("error:");
                if (n.stderr_text.find(k == std::string::npos ? m : m.substr(k)) == std::string::npos)
                    out.violate("memory", who + " says \"" + n.stderr_text.substr(0, 300) + "\" instead of \"" + m.substr(0, 300) + "\"");
            }
        }
        if (prof == "C10" && pr.alloc_fail >= 0) {
            out.fired[code == 0 ? "alloc_not_reached" : "alloc_failed"]++;
            if (code != 0 && single && !n.out_opened && snapshot() != base)
                out.violate("output_touched", who + " ran out of memory before writing but the directory changed");
        }
    }
    // recovery: the last phase is fault free and must succeed
    if (!out.bad() && prof == "C06") {
        Node& n = w.nodes.back();
        const Cmd& c = cmds.back();
        const bool exited = WIFEXITED(n.status);
        if (plan.procs.size() == 2 && plan.procs[1].phase == 1 && valid_any(c)) {
            if (!exited || WEXITSTATUS(n.status) != 0)
                out.violate("no_recovery", "the run after the crash or failure did not succeed: " + n.stderr_text);
            if (w.nodes[0].killed)
                out.probe["recovered_after_kill"]++;
            else if (!WIFEXITED(w.nodes[0].status) || WEXITSTATUS(w.nodes[0].status))
                out.probe["recovered_after_failure"]++;
        }
    }
    if (!out.bad() && prof == "C07") {
        Snap now = snapshot();
        std::set<std::string> outs;
        bool any_killed = false;
        for (auto& c : cmds)
            if (c.usable) {
                outs.insert(resolve(plan, c.out));
                outs.insert(strip(c.out));
            }
        for (auto& n : w.nodes)
            any_killed |= n.killed || n.name_failed;
        for (auto& f : now)
            if (!base.count(f.first) && !outs.count(f.first) && !any_killed)
                out.violate("leftover", "parallel runs left the file \"" + f.first + "\" behind");
        for (auto& f : base)
            if (!outs.count(f.first) && (!now.count(f.first) || now[f.first] != f.second))
                out.violate("other_file", "parallel runs changed \"" + f.first + "\"");
        for (auto& n : w.nodes) {
            // a run refused on its own is refused in parallel, with the same message
            const Cmd& c = cmds[n.idx];
            if (!c.usable || n.killed || n.hard_in || n.hard_out || n.hard_err)
                continue;
            auto vs = versions(c);
            if (vs.size() == 1 && !reference(vs[0]).ok) {
                if (!WIFEXITED(n.status) || WEXITSTATUS(n.status) == 0)
                    out.violate("false_success", "an invalid program was accepted in a parallel run");
                std::string m = reference(vs[0]).message;
                size_t k = m.find("error:");
                std::string tail = k == std::string::npos ? m : m.substr(k);
                if (n.stderr_text.find(tail) == std::string::npos)
                    out.violate("mixed_message", "diagnostic of a parallel run is \"" + n.stderr_text + "\" instead of \"" + m + "\"");
            }
        }
    }
    Hash h;
    h.h = out.hash;
    for (auto& f : snapshot()) {
        h.add(f.first);
        h.add(f.second);
    }
    for (auto& n : w.nodes) {
        h.add((u64)n.status);
        h.add(n.stderr_text);
    }
    for (auto& v : out.violations)
        h.add(v.first);
    out.hash = h.h;
    // a run is non-trivial if a fault or another process's step landed inside it
    u64 f = 0;
    for (auto& x : out.fired)
        f += x.second;
    out.nontrivial = f > 0 || out.switches > 0;
    return out;
}

// ---------------------------------------------------------------------------------------------
// Generation
// ---------------------------------------------------------------------------------------------
static std::string sized_program(Rng& r, bool model_only)
{
    GenOpts o;
    o.allow_extra = !model_only && r.chance(2, 3);
    switch (r.below(12)) {
    case 0: o.min_insns = 60, o.max_insns = 400; break;
    case 1: o.min_insns = 500, o.max_insns = 1500; break;
    case 2: o.min_insns = o.max_insns = (int)r.range(0, 3); break;
    default: o.max_insns = 14; break;
    }
    if (r.chance(1, 10)) {
        // an image whose size is a multiple of what a writer might take at once, or next to it
        static const int size[] = {128, 256, 512, 1024, 2048, 4096, 8160, 8192, 16384, 32768};
        const int k = r.chance(1, 20) ? 65536 : size[r.below(10)] * (int)r.range(1, r.chance(1, 4) ? 3 : 1);
        o.min_insns = o.max_insns = std::max(0, 3 * (k / 32 + (int)r.range(-1, 1)) - (int)r.below(3));
        o.allow_dksh = false;
    }
    std::string s = gen_program(r, corpus, o);
    if (r.chance(1, 300)) {
        // a long file
        const size_t want = (size_t)r.range(100000, !r.chance(1, 4) ? 1200000 : r.chance(1, 5) ? 40000000 : 9000000);
        if (s.size() < want) {
            const std::string pad(want - s.size(), r.chance(1, 2) ? '\n' : ' ');
            s = r.chance(1, 2) || s.empty() || s[0] == '.' ? s + pad : pad + "\n" + s;
        }
    }
    if (r.chance(1, 400)) {
        // a long image
        std::string one;
        do
            one = r.pick(corpus.vec) + ";\n";
        while (one.size() > 40 || one.find("LABEL") != std::string::npos);
        const size_t n = (size_t)r.range(8000, !r.chance(1, 4) ? 60000 : r.chance(1, 4) ? 800000 : 250000);
        s.clear();
        for (size_t i = 0; i < n; ++i)
            s += one;
    }
    if (r.chance(1, 4)) {
        // pad the text to a size next to a buffer boundary
        static const int base[] = {4096, 8191, 8192, 16382, 16384, 32768, 65536, 12288, 1024, 512};
        i64 want = base[r.below(10)] + r.range(-3, 3);
        if ((i64)s.size() < want) {
            size_t k = (size_t)(want - (i64)s.size());
            // keep label lines at line starts: pad with blank lines after the text or before it
            if (r.chance(1, 2) || s.empty() || s[0] == '.')
                s += std::string(k, r.chance(1, 2) ? '\n' : ' ');
            else
                s = std::string(k, '\n') + s;
        }
    }
    return s;
}

static std::string old_output(Rng& r, const std::string& src)
{
    const Ref& ref = reference(src);
    if (ref.ok && !ref.image.empty() && r.chance(1, 3)) {
        // nearly what will be written
        std::string s = ref.image;
        switch (r.below(6)) {
        case 0: break;
        case 1: s[r.chance(1, 3) ? s.size() - 1 : r.below(s.size())] ^= (char)(1 << r.below(8)); break;
        case 2: s.resize(r.below(s.size())); break;
        case 3: s += std::string((size_t)r.range(1, 100), r.chance(1, 2) ? '\0' : 'z'); break;
        case 4: s.assign(s.size(), r.chance(1, 2) ? '\0' : 'q'); break;
        default: {
            // the image of a program that differs a little
            const size_t k = 8 * r.below(s.size() / 8);
            for (size_t i = k; i < k + 8 && i < s.size(); ++i)
                s[i] = (char)r.below(256);
            break;
        }
        }
        return s;
    }
    switch (r.below(5)) {
    case 0: return "";
    case 1: return "previous output";
    case 2: return std::string((size_t)r.range(1, 200000), 'Z');
    case 3: {
        std::string s;
        for (int i = 0; i < 600; ++i)
            s += (char)r.below(256);
        return s;
    }
    default: return std::string((size_t)r.range(1, 600), 'y');
    }
}

// the usual errors several times, and what drivers and network file systems come up with
static const int errs_open_r[] = {EACCES, ENOENT, EMFILE, EIO, ELOOP, ENOMEM, EINTR, EACCES, ENOENT, EMFILE, EIO, EINTR, EPERM, ENFILE, EBUSY, EAGAIN, ESTALE, ETIMEDOUT, ENXIO, ENODEV, EOVERFLOW, ENOTDIR};
static const int errs_read[] = {EIO, EIO, EINTR, EISDIR, EIO, EINTR, EIO, EINTR, ESTALE, ENXIO, EAGAIN, EBADF, EINVAL, EPERM, EACCES, ENOMEM, ETIMEDOUT, ECONNRESET, ENODATA, EREMOTEIO, EOVERFLOW, ENODEV, EBUSY};
static const int errs_open_w[] = {EACCES, EROFS, ENOSPC, EMFILE, EIO, EDQUOT, EINTR, EACCES, EROFS, ENOSPC, EMFILE, EIO, EINTR, EPERM, ENFILE, EBUSY, ETXTBSY, EISDIR, ENXIO, ESTALE, ETIMEDOUT, ENOMEM, EAGAIN};
static const int errs_write[] = {EIO, ENOSPC, EDQUOT, EINTR, EFBIG, EIO, EIO, ENOSPC, EDQUOT, EINTR, EIO, ENOSPC, EPIPE, EAGAIN, EPERM, EINVAL, EBADF, ENXIO, ESTALE, ENOMEM, ETIMEDOUT, EROFS, ECONNRESET, EACCES};
static const int errs_close[] = {EIO, ENOSPC, EDQUOT, EIO, ENOSPC, EDQUOT, ESTALE, ETIMEDOUT, EFBIG};
static const int errs_sync[] = {EIO, EIO, ENOSPC, EDQUOT};
static const int errs_name[] = {EIO, EIO, EACCES, EPERM, EROFS, ENOSPC, EDQUOT, EBUSY, EXDEV, ESTALE};
static const int errs_stat[] = {EIO, EIO, EACCES, ENOMEM, EOVERFLOW, ESTALE};
template <size_t N>
static int pick(Rng& r, const int (&a)[N])
{
    return a[r.below(N)];
}

static i64 short_len(Rng& r)
{
    switch (r.below(4)) {
    case 0: return 1;
    case 1: return r.range(2, 16);
    case 2: return 8 * r.range(1, 64);
    default: return r.range(1, 8192);
    }
}

static void benign_faults(Rng& r, Plan& p, int proc, size_t insize)
{
    if (r.chance(2, 3)) {
        Fault f;
        f.proc = proc;
        f.cls = READ_R;
        f.kind = SHORT;
        f.k = r.chance(1, 2) ? -1 : (int)r.below(4);
        f.arg = short_len(r);
        if (insize > 20000 && f.k < 0)
            f.arg = (i64)insize / 20000 + r.range(64, 5000);
        p.faults.push_back(f);
    }
    if (r.chance(2, 3)) {
        Fault f;
        f.proc = proc;
        f.cls = WRITE_W;
        f.kind = SHORT;
        f.k = r.chance(1, 2) ? -1 : (int)r.below(3);
        f.arg = short_len(r);
        if (f.k < 0 && insize > 20000)
            f.arg = (i64)insize / 20000 + r.range(64, 5000);
        p.faults.push_back(f);
    }
}

static void eintr_faults(Rng& r, Plan& p, int proc)
{
    if (r.chance(1, 2)) {
        Fault f;
        f.proc = proc;
        f.cls = r.chance(1, 2) ? READ_R : WRITE_W;
        f.kind = ERR;
        f.arg = EINTR;
        f.k = (int)r.below(3);
        if (r.chance(1, 4))
            f.arg2 = r.range(1, r.chance(1, 2) ? 9 : 300);
        else if (r.chance(1, 6))
            f.k = -1, f.arg2 = r.range(2, 12);
        p.faults.push_back(f);
    }
}

static void input_fault(Rng& r, Plan& p, int proc)
{
    Fault f;
    f.proc = proc;
    f.kind = ERR;
    switch (r.below(8)) {
    case 0: f.cls = OPEN_R; f.arg = pick(r, errs_open_r); f.k = 0; break;
    case 1: f.cls = SEEK_R; f.arg = r.chance(1, 2) ? ESPIPE : EIO; f.k = r.chance(1, 2) ? -1 : (int)r.below(3); break;
    case 2: f.cls = STAT_R; f.arg = pick(r, errs_stat); f.k = r.chance(1, 2) ? -1 : 0; break;
    case 3: f.cls = CLOSE_R; f.arg = EIO; f.k = 0; break;
    default: f.cls = READ_R; f.arg = pick(r, errs_read); f.k = r.chance(1, 4) ? -1 : (int)r.below(5); break;
    }
    if (f.k < 0 && (f.arg == EINTR || f.arg == EAGAIN))
        f.k = 0;
    p.faults.push_back(f);
}

static void output_fault(Rng& r, Plan& p, int proc, size_t imgsize)
{
    Fault f;
    f.proc = proc;
    f.kind = ERR;
    switch (r.below(9)) {
    case 0: f.cls = OPEN_W; f.arg = pick(r, errs_open_w); f.k = 0; break;
    case 1: f.cls = CLOSE_W; f.arg = pick(r, errs_close); f.k = 0; f.arg2 = r.range(0, (i64)imgsize); break;
    case 2: f.cls = SYNC_W; f.arg = pick(r, errs_sync); f.k = 0; break;
    case 3: f.cls = NAME; f.arg = pick(r, errs_name); f.k = (int)r.below(2); break;
    case 4:
    case 5: {
        f.cls = WRITE_W;
        f.kind = FULL;
        f.k = 0;
        switch (r.below(4)) {
        case 0: f.arg = 0; break;
        case 1: f.arg = (i64)imgsize - r.range(1, 8); break;
        case 2: f.arg = 4096; break;
        default: f.arg = r.range(0, (i64)imgsize + 1); break;
        }
        if (f.arg < 0)
            f.arg = 0;
        break;
    }
    default: f.cls = WRITE_W; f.arg = pick(r, errs_write); f.k = r.chance(1, 4) ? -1 : (int)r.below(4); break;
    }
    if (f.k < 0 && (f.arg == EINTR || f.arg == EAGAIN))
        f.k = 0;
    p.faults.push_back(f);
}

static void stderr_fault(Rng& r, Plan& p, int proc)
{
    Fault f;
    f.proc = proc;
    f.cls = ERRW;
    f.kind = ERR;
    static const int e[] = {EIO, EPIPE, ENOSPC, EBADF};
    f.arg = pick(r, e);
    f.k = r.chance(1, 2) ? -1 : (int)r.below(4);
    p.faults.push_back(f);
}

static void kill_fault(Rng& r, Plan& p, int proc, size_t imgsize)
{
    Fault f;
    f.proc = proc;
    if (r.chance(1, 3)) {
        f.cls = WRITE_W;
        f.kind = KILL_TORN;
        f.k = (int)r.below(2);
        f.arg = r.range(0, (i64)imgsize);
    } else if (r.chance(1, 2)) {
        static const int cs[] = {OPEN_R, READ_R, CLOSE_R, OPEN_W, WRITE_W, CLOSE_W, NAME, SYNC_W};
        f.cls = pick(r, cs);
        f.kind = r.chance(1, 2) ? KILL_BEFORE : KILL_AFTER;
        f.k = (int)r.below(2);
    } else {
        f.cls = ANY;
        f.kind = r.chance(1, 2) ? KILL_BEFORE : KILL_AFTER;
        f.k = (int)r.below(9);
    }
    if (r.chance(1, 4)) {
        static const int sig[] = {SIGTERM, SIGINT, SIGHUP, SIGTERM, SIGINT, SIGQUIT, SIGALRM, SIGUSR1};
        f.kind = TERM;
        f.arg = pick(r, sig);
    }
    p.faults.push_back(f);
}

// other names for the files of a plan
static void rename_file(Plan& p, const std::string& from, const std::string& to)
{
    for (auto& f : p.files) {
        if (f.first == from)
            f.first = to;
        if (f.second == "\x01link:" + from || f.second == "\x01hard:" + from)
            f.second = f.second.substr(0, 6) + to;
    }
    for (auto& q : p.procs)
        for (auto& a : q.argv) {
            if (a == from)
                a = to;
            else if (a == "./" + from)
                a = "./" + to;
        }
    for (auto& a : p.actions)
        if (a.a == from)
            a.a = to;
}

static void other_names(Rng& r, Plan& p)
{
    const std::string u = "q" + std::to_string(r.below(90) + 10);
    bool sub = false;
    for (const char* from : {"prog.s", "prog.bin"}) {
        const std::string ext = std::string(from).substr(4), odd = ext == ".s" ? "i" : "o";
        std::string to;
        switch (r.below(12)) {
        case 0: to = "a program 1" + ext; break;
        case 1: to = "100%s%d%n" + ext; break;
        case 2: to = std::string((size_t)r.range(100, 230), 'n') + ext; break;
        case 3: to = "." + u + ext; break;
        case 4: to = u + odd; break;
        case 5: to = "-" + u + ext; break;
        case 6: to = "\xc3\xa9\xff" + ext; break;
        case 7: to = u + ext + ".tmp"; break;
        case 8: to = "prog" + ext + ext; break;
        case 9: to = "#" + u + ext + "~"; break;
        default: to = "sub/" + std::string(from); sub = true; break;
        }
        rename_file(p, from, to);
    }
    if (sub)
        p.files.insert(p.files.begin(), {"sub", "\x01" "dir"});
    if (r.chance(1, 8)) {
        // a long way to the file
        const i64 k = r.chance(1, 2) ? r.range(30, 140) : r.range(140, 1800);
        std::string way;
        for (i64 i = 0; i < k; ++i)
            way += "./";
        for (auto& pr : p.procs)
            for (auto& a : pr.argv)
                if (!a.empty() && a[0] != '-' && a[0] != '/' && a.size() + way.size() < 4000 && way[0])
                    a = way + a;
    }
}

static std::string locdir;
static void other_surroundings(Rng& r, Plan& p)
{
    Around& x = p.procs[0].around;
    static const char* value[] = {"1", "0", "", "yes", "vertex", "de_DE.UTF-8", "tr_TR.ISO-8859-9", "other.bin", "prog.s", "/nonexistent", ".", "-1", "debug", "C", "99999999999999999999", "never"};
    static const char* usual[] = {"TERM", "NO_COLOR", "CLICOLOR_FORCE", "TMPDIR", "TMP", "TEMP", "HOME", "PWD", "COLUMNS", "LINES", "TZ", "POSIXLY_CORRECT", "SOURCE_DATE_EPOCH", "USER", "DEBUG", "VERBOSE", "XDG_CONFIG_HOME", "NXAS_DEBUG", "NXASFLAGS", "NXAS_OPTIONS"};
    const auto val = [&] { return !own_words.empty() && r.chance(1, 2) ? own_words[r.below(own_words.size())] : std::string(value[r.below(16)]); };
    if (r.chance(3, 4)) {
        if (r.chance(2, 3)) {
            static const char* name[] = {"de_DE.UTF-8", "de_DE.ISO-8859-1", "tr_TR.ISO-8859-9"};
            static const char* cat[] = {"LC_ALL", "LANG", "LC_NUMERIC", "LC_CTYPE"};
            x.env.push_back("LOCPATH=" + locdir);
            x.env.push_back(std::string(cat[r.chance(1, 2) ? 0 : r.below(4)]) + "=" + name[r.below(3)]);
        }
        const bool same = r.chance(1, 2);
        const std::string v0 = val();
        const int all = (int)r.below(3);
        for (auto& n : own_names)
            if (all == 0 || (all == 1 && r.chance(1, 10)) || (all == 2 && r.chance(1, 100)))
                x.env.push_back(n + "=" + (same ? v0 : val()));
        for (auto& n : usual)
            if (r.chance(1, 3))
                x.env.push_back(std::string(n) + "=" + (same ? v0 : val()));
    }
    if (r.chance(1, 6)) {
        static const char* name[] = {"", "/usr/bin/nxas", "nxas-debug", "a.out", "nxas.exe", "cc", "nxdisas", "%s%s%n"};
        x.name = name[r.below(8)];
        if (!own_words.empty() && r.chance(2, 3))
            x.name = (r.chance(1, 3) ? "/usr/bin/" : r.chance(1, 4) ? "./" : "") + own_words[r.below(own_words.size())];
    }
    if (r.chance(1, 4))
        x.in = (int)r.range(1, 2);
    if (r.chance(1, 6))
        x.out = 1;
    if (!x.out && x.in != 1 && r.chance(1, 4))
        x.tty = 1;
    if (r.chance(1, 6)) {
        static const int m[] = {0, 077, 0777, 0111};
        x.mask = m[r.below(4)];
    }
    if (r.chance(1, 8))
        x.extra = (int)r.range(1, 40);
    if (p.faults.empty() && r.chance(1, 2))
        x.decoys = (int)r.range(1, 8);
    if (r.chance(1, 3))
        x.machine = (int)r.range(1, 100000);
}

static Plan generate_plain(Rng& r, const std::string& prof);
static Plan generate(u64 seed, const std::string& prof)
{
    Rng r(mix64(seed ^ hash_str(prof)));
    Plan p = generate_plain(r, prof);
    if (prof != "C07" && r.chance(1, 6))
        other_names(r, p);
    p.rnd = r.next() >> 1;
    p.clock = r.chance(1, 2) ? r.range(0, 2000000000) : 999900 + r.range(0, 150);
    p.tick = r.chance(1, 4) ? 0 : r.range(1, 100000);
    if (prof == "C20")
        other_surroundings(r, p);
    if (prof == "C19") {
        Around& x = p.procs[0].around;
        size_t n = 0;
        for (auto& f : p.files)
            if (f.first == "prog.s" || f.second.size() > n)
                n = std::max(n, f.second.size());
        x.stack = 256 << 10;
        x.heap = (4 << 20) + 300 * (i64)n;
    }
    // the process number of the crashed run is given to another one
    if (prof == "C06" && p.procs.size() == 2 && r.chance(2, 3))
        p.procs[0].pid = p.procs[1].pid = 4100;
    return p;
}

static Plan generate_plain(Rng& r, const std::string& prof)
{
    Plan p;
    p.profile = prof;

    if (prof == "C07") {
        const int np = (int)r.range(2, 4);
        const bool same = r.chance(1, 5); // the same source to the same output
        GenOpts o;
        o.max_insns = r.chance(1, 8) ? 300 : 10;
        std::string shared;
        for (int i = 0; i < np; ++i) {
            Proc q;
            std::string in = "in" + std::to_string(i) + ".s", on = "out" + std::to_string(i) + ".bin";
            if (r.chance(1, 6))
                on = "in" + std::to_string(i) + ".o";
            std::string src;
            if (same) {
                if (i == 0)
                    shared = gen_program(r, corpus, o);
                src = shared;
                in = "in0.s";
                on = "out0.bin";
            } else {
                src = r.chance(1, 6) ? gen_invalid(r, corpus, o) : gen_program(r, corpus, o);
                if (i > 0 && r.chance(1, 4)) {
                    in = "in0.s"; // several readers of one source
                }
            }
            bool have = false;
            for (auto& f : p.files)
                have |= f.first == in;
            if (!have)
                p.files.push_back({in, src});
            if (!same && r.chance(1, 3))
                p.files.push_back({on, old_output(r, src)});
            if (r.chance(1, 2))
                q.argv = {in, "-o", on};
            else
                q.argv = {"-o", on, in};
            p.procs.push_back(q);
            if (!same && r.chance(1, 4))
                benign_faults(r, p, i, 1000);
            if (!same && r.chance(1, 6))
                kill_fault(r, p, i, 400);
            else if (!same && r.chance(1, 6))
                r.chance(1, 2) ? input_fault(r, p, i) : output_fault(r, p, i, 200);
        }
        if (r.chance(1, 3))
            p.files.push_back({"bystander.txt", "do not touch"});
        const int n = (int)r.range(4, 60);
        const bool sticky = r.chance(1, 2);
        int cur = 0;
        for (int i = 0; i < n; ++i) {
            if (!sticky || r.chance(1, 3))
                cur = (int)r.below(12);
            p.sched.push_back(cur);
        }
        return p;
    }

    // one process, one input, one output
    const bool alloc = prof == "C10";
    std::string src = sized_program(r, r.chance(1, 3));
    bool invalid = false;
    if (prof == "C19" && r.chance(1, 2))
        src = gen_many(r, corpus);
    const bool may_invalid = prof == "C19" || prof == "C20" || prof == "C02" || prof == "C03" || prof == "C04";
    if (may_invalid && r.chance(prof == "C03" ? 2 : 1, 5)) {
        GenOpts o;
        src = gen_invalid(r, corpus, o);
        invalid = true;
        if (prof == "C20" && r.chance(1, 6))
            src = std::string((size_t)r.range(900, 12000), r.chance(1, 2) ? '\n' : ' ') + src; // numbers of four digits
    }
    if (prof == "C02" && r.chance(1, 5) && !src.empty()) {
        // a block of the file was lost and reads as zeros
        if (r.chance(1, 6))
            src += std::string((size_t)r.range(8192, r.chance(1, 3) ? 1200000 : 140000), r.chance(1, 2) ? '\n' : ' ');
        size_t a = r.below(src.size()), n = 1 + r.below(r.chance(1, 2) ? 4 : 600);
        if (r.chance(1, 2)) {
            src.append(n, '\0');
        } else {
            for (size_t i = a; i < src.size() && i < a + n; ++i)
                src[i] = '\0';
        }
    }
    if (prof == "C02" && r.chance(1, 12)) {
        // bytes that some readers take for something else than contents
        static const char* odd[] = {"\xef\xbb\xbf", "\x1a", "\xff\xfe", "\r", "\\\n", "\x04", "\xff", "#!/bin/nxas\n", "\f", "\x1a\nNOP;\n", "\n\x1a"};
        const std::string t = odd[r.below(11)];
        src = r.chance(1, 2) ? t + src : r.chance(1, 2) ? src + t : src.substr(0, src.size() / 2) + t + src.substr(src.size() / 2);
    }
    const bool giant = prof == "C02" && r.chance(1, 2000);
    if (giant) {
        // a file of a size at which limits are set, with something to assemble behind that
        static const int mib[] = {1, 2, 4, 8, 10, 16, 32, 64};
        GenOpts o;
        o.allow_dksh = false;
        src = gen_program(r, corpus, o) + "\n";
        src.append((size_t)mib[r.below(8)] << 20, r.chance(1, 2) ? '\n' : ' ');
        src += "\nNOP;\n";
    }
    std::string in = r.chance(1, 12) ? "./prog.s" : "prog.s", on = r.chance(1, 12) ? "./prog.bin" : "prog.bin";
    p.files.push_back({"prog.s", src});
    bool alias = false;
    if (r.chance(1, 10)) {
        switch (r.below(3)) {
        case 0: on = "prog.s"; alias = true; break;
        case 1: p.files.push_back({"link.bin", "\x01link:prog.s"}); on = "link.bin"; alias = true; break;
        default: p.files.push_back({"hard.bin", "\x01hard:prog.s"}); on = "hard.bin"; alias = true; break;
        }
    } else if (r.chance(1, 10)) {
        p.files.push_back({"target.bin", old_output(r, src)});
        p.files.push_back({"link.bin", "\x01link:target.bin"});
        on = "link.bin";
    } else if (r.chance(1, 2)) {
        p.files.push_back({"prog.bin", old_output(r, src)});
    }
    if (r.chance(1, 4))
        p.files.push_back({"bystander.txt", "do not touch"});
    Proc q;
    if (r.chance(2, 3))
        q.argv = {in, "-o", on};
    else
        q.argv = {"-o", on, in};
    if ((prof == "C03" || prof == "C04" || prof == "C20") && r.chance(1, 6)) {
        switch (r.below(12)) {
        case 8: q.argv = {in, "-o", on, "-o", on}; break;
        case 9: q.argv = {in, "-o", on, r.chance(1, 2) ? "extra.s" : "-O2"}; break;
        case 10: q.argv = {r.chance(1, 2) ? "-v" : "--", in, "-o", on}; break;
        case 11: q.argv = {in, "-o", r.chance(1, 2) ? "" : "-o"}; break;
        case 0: q.argv = {in}; break;
        case 1: q.argv = {"-o", on}; break;
        case 2: q.argv = {in, "-o"}; break;
        case 3: q.argv = {in, in, "-o", on}; break;
        case 4: q.argv = {in, "-o", on, "-o", "other.bin"}; break;
        case 5: q.argv = {}; break;
        case 6: q.argv = {"missing.s", "-o", on}; break;
        default:
            p.files.push_back({"dir", "\x01" "dir"});
            if (r.chance(1, 2))
                q.argv = {"dir", "-o", on};
            else if (r.chance(1, 2))
                q.argv = {in, "-o", "dir"};
            else
                q.argv = {in, "-o", "nodir/x.bin"};
            break;
        }
    }
    if (prof != "C01" && r.chance(1, 8))
        q.nonseek = r.chance(1, 3) ? 2 : 1;
    if (prof == "C05" && r.chance(1, 3))
        q.nonseek = r.chance(1, 3) ? 2 : 1;
    if ((prof == "C04" || prof == "C01") && r.chance(1, 12))
        q.no_stderr = true;
    size_t img = 0;
    if (!alloc) {
        const Ref& ref = reference(src);
        img = ref.ok ? ref.image.size() : 64;
    }
    if (prof == "C01") {
        if (r.chance(1, 3))
            benign_faults(r, p, 0, src.size());
        if (r.chance(4, 5))
            output_fault(r, p, 0, img);
        if (r.chance(1, 6))
            output_fault(r, p, 0, img);
        if (r.chance(1, 8))
            input_fault(r, p, 0);
        if (r.chance(1, 12))
            stderr_fault(r, p, 0);
        if (r.chance(1, 8)) {
            kill_fault(r, p, 0, img);
            Fault& f = p.faults.back();
            f.kind = TERM;
            f.arg = r.chance(1, 2) ? SIGTERM : r.chance(1, 2) ? SIGINT : SIGHUP;
        }
    } else if (giant) {
        if (r.chance(1, 2))
            benign_faults(r, p, 0, src.size());
    } else if (prof == "C02") {
        if (r.chance(1, 3))
            benign_faults(r, p, 0, src.size());
        if (r.chance(2, 3))
            input_fault(r, p, 0);
        if (r.chance(1, 6))
            input_fault(r, p, 0);
        if (r.chance(1, 8))
            output_fault(r, p, 0, img);
        if (r.chance(1, 4) && !alias) {
            Action a;
            a.at = (int)r.below(8);
            a.a = "prog.s";
            a.c = sized_program(r, true);
            p.actions.push_back(a);
        }
    } else if (prof == "C03") {
        if (r.chance(1, 4))
            benign_faults(r, p, 0, src.size());
        if (r.chance(1, 3))
            input_fault(r, p, 0);
        if (r.chance(1, 2))
            kill_fault(r, p, 0, img);
        else if (r.chance(1, 4))
            output_fault(r, p, 0, img);
        // short writes in pieces, so that a kill finds the file half written
        if (r.chance(1, 4)) {
            Fault f;
            f.cls = WRITE_W;
            f.kind = SHORT;
            f.k = -1;
            f.arg = r.range(8, 128);
            if (img > 4000)
                f.arg = (i64)img / 20;
            p.faults.push_back(f);
        }
        if (!bin_alloc_path.empty() && p.faults.empty() && r.chance(1, 3))
            q.alloc_fail = r.range(0, 120);
    } else if (prof == "C04") {
        if (r.chance(1, 4))
            benign_faults(r, p, 0, src.size());
        switch (r.below(4)) {
        case 0: input_fault(r, p, 0); break;
        case 1: output_fault(r, p, 0, img); break;
        case 2: input_fault(r, p, 0); output_fault(r, p, 0, img); break;
        default: break;
        }
        if (r.chance(1, 4))
            stderr_fault(r, p, 0);
        eintr_faults(r, p, 0);
    } else if (prof == "C05") {
        benign_faults(r, p, 0, src.size());
        eintr_faults(r, p, 0);
        if (r.chance(1, 10)) {
            Fault f;
            f.cls = CLOSE_R;
            f.kind = ERR;
            f.arg = EIO;
            p.faults.push_back(f);
        }
    } else if (prof == "C06") {
        if (r.chance(1, 4))
            benign_faults(r, p, 0, src.size());
        if (r.chance(3, 4))
            kill_fault(r, p, 0, img);
        else
            r.chance(1, 2) ? input_fault(r, p, 0) : output_fault(r, p, 0, img);
        if (alias)
            q.argv = {"prog.s", "-o", "prog.bin"};
        q.no_stderr = false;
        p.procs.push_back(q);
        Proc again = q;
        again.phase = 1;
        again.nonseek = false;
        p.procs.push_back(again);
        return p;
    } else if (prof == "C20") {
        if (r.chance(1, 8))
            benign_faults(r, p, 0, src.size());
        else if (r.chance(1, 8))
            r.chance(1, 2) ? input_fault(r, p, 0) : output_fault(r, p, 0, img);
    } else if (prof == "C10") {
        q.nonseek = false;
        q.alloc_fail = r.chance(1, 2) ? r.range(0, 40) : r.range(0, 600);
    }
    (void)invalid;
    p.procs.push_back(q);
    return p;
}

// ---------------------------------------------------------------------------------------------
// Minimisation steps
// ---------------------------------------------------------------------------------------------
static std::vector<Plan> reductions(const Plan& p)
{
    std::vector<Plan> v;
    for (size_t i = 0; i < p.faults.size(); ++i) {
        Plan q = p;
        q.faults.erase(q.faults.begin() + (long)i);
        v.push_back(q);
    }
    for (size_t i = 0; i < p.actions.size(); ++i) {
        Plan q = p;
        q.actions.erase(q.actions.begin() + (long)i);
        v.push_back(q);
    }
    if (p.procs.size() > 1 && p.profile == "C07") {
        for (size_t i = 0; i < p.procs.size(); ++i) {
            Plan q = p;
            q.procs.erase(q.procs.begin() + (long)i);
            std::vector<Fault> fs;
            for (auto f : q.faults) {
                if (f.proc == (int)i)
                    continue;
                if (f.proc > (int)i)
                    --f.proc;
                fs.push_back(f);
            }
            q.faults = fs;
            v.push_back(q);
        }
    }
    if (!p.sched.empty()) {
        for (size_t n : {(size_t)0, p.sched.size() / 2, p.sched.size() - 1}) {
            Plan q = p;
            q.sched.resize(n);
            v.push_back(q);
        }
        if (p.sched.size() <= 24)
            for (size_t i = 0; i < p.sched.size(); ++i) {
                Plan q = p;
                q.sched.erase(q.sched.begin() + (long)i);
                v.push_back(q);
            }
    }
    for (size_t i = 0; i < p.files.size(); ++i) {
        const std::string& c = p.files[i].second;
        bool used = false;
        for (auto& pr : p.procs)
            for (auto& a : pr.argv)
                used |= strip(a) == p.files[i].first;
        for (auto& f : p.files)
            used |= f.second.rfind("\x01link:" + p.files[i].first, 0) == 0 || f.second.rfind("\x01hard:" + p.files[i].first, 0) == 0;
        if (!used || c.empty() || c[0] != '\x01') {
            Plan q = p;
            if (!used) {
                q.files.erase(q.files.begin() + (long)i);
                v.push_back(q);
            }
        }
        if (!c.empty() && c[0] == '\x01')
            continue;
        // halves by lines, then single lines
        std::vector<std::string> ls;
        std::string cur;
        for (char ch : c) {
            cur += ch;
            if (ch == '\n') {
                ls.push_back(cur);
                cur.clear();
            }
        }
        if (!cur.empty())
            ls.push_back(cur);
        const auto with = [&](size_t a, size_t b) {
            std::string s;
            for (size_t k = 0; k < ls.size(); ++k)
                if (k < a || k >= b)
                    s += ls[k];
            Plan q = p;
            q.files[i].second = s;
            v.push_back(q);
        };
        if (ls.size() > 1) {
            for (size_t parts : {(size_t)2, (size_t)4, (size_t)8}) {
                size_t w = (ls.size() + parts - 1) / parts;
                for (size_t a = 0; a < ls.size(); a += w)
                    with(a, std::min(ls.size(), a + w));
            }
            if (ls.size() <= 16)
                for (size_t a = 0; a < ls.size(); ++a)
                    with(a, a + 1);
        } else if (c.size() > 40) {
            Plan q = p;
            q.files[i].second = c.substr(0, c.size() / 2);
            v.push_back(q);
        }
    }
    for (size_t i = 0; i < p.procs.size(); ++i) {
        if (p.procs[i].nonseek) {
            Plan q = p;
            q.procs[i].nonseek = false;
            v.push_back(q);
        }
        const Around& x = p.procs[i].around;
        const auto alt = [&](auto fn) {
            Plan q = p;
            fn(q.procs[i].around);
            v.push_back(q);
        };
        if (!x.env.empty()) {
            alt([](Around& y) { y.env.clear(); });
            const size_t n = x.env.size();
            for (size_t parts : {(size_t)2, (size_t)4, (size_t)16, (size_t)64}) {
                const size_t w = (n + parts - 1) / parts;
                for (size_t k = 0; k < n; k += w)
                    alt([&](Around& y) { y.env.erase(y.env.begin() + (long)k, y.env.begin() + (long)std::min(n, k + w)); });
                if (w == 1)
                    break;
            }
        }
        if (x.name != "nxas") alt([](Around& y) { y.name = "nxas"; });
        if (x.in) alt([](Around& y) { y.in = 0; });
        if (x.out) alt([](Around& y) { y.out = 0; });
        if (x.tty) alt([](Around& y) { y.tty = 0; });
        if (x.machine) alt([](Around& y) { y.machine = 0; });
        if (x.mask != 022) alt([](Around& y) { y.mask = 022; });
        if (x.extra) alt([](Around& y) { y.extra = 0; });
        if (x.decoys) alt([](Around& y) { y.decoys = 0; });
        if (p.procs[i].no_stderr) {
            Plan q = p;
            q.procs[i].no_stderr = false;
            v.push_back(q);
        }
    }
    for (size_t i = 0; i < p.faults.size(); ++i) {
        if (p.faults[i].k > 0) {
            Plan q = p;
            q.faults[i].k = 0;
            v.push_back(q);
        }
    }
    return v;
}

static u64 state_hash(const Plan&, const Outcome& o)
{
    return o.hash;
}

int main(int argc, char** argv)
{
    signal(SIGPIPE, SIG_IGN);
    struct sigaction sa{};
    sa.sa_handler = [](int) {};
    sigaction(SIGALRM, &sa, nullptr);
    itimerval iv{{1, 0}, {1, 0}};
    setitimer(ITIMER_REAL, &iv, nullptr);
    std::map<std::string, std::string> a = parse_args(argc, argv);
    corpus.load(a["corpus"]);
    bin_path = a["nxas"];
    bin_alloc_path = a["nxas-alloc"];
    scratch = a["scratch"];
    world = scratch + "/w";
    locdir = a["locales"];
    if (a.count("objects"))
        harvest(a["objects"], corpus);
    mkdir(scratch.c_str(), 0755);
    mkdir(world.c_str(), 0755);
    int rc = drive<Plan, Outcome>(a, generate, execute, reductions, state_hash);
    wipe_dir(scratch);
    rmdir(scratch.c_str());
    return rc;
}
