// What a library call finds in its caller's process and has to leave as it was (C21).
#pragma once
#include <dirent.h>
#include <fenv.h>
#include <getopt.h>
#include <sys/prctl.h>
#include <xmmintrin.h>
#include <csignal>
#include <iostream>

#include "common.h"

extern "C" int __real_rand(void);
extern "C" char** environ;

struct ProcessState
{
    std::vector<std::pair<std::string, std::string>> v;
    void put(const char* what, const std::string& x)
    {
        v.emplace_back(what, x);
    }
    void put(const char* what, long x)
    {
        v.emplace_back(what, std::to_string(x));
    }
};

static std::string entries(const char* dir, bool names)
{
    std::set<std::string> s;
    DIR* d = opendir(dir);
    if (!d)
        return "?";
    const std::string own = std::to_string(dirfd(d));
    while (dirent* e = readdir(d))
        if (e->d_name[0] != '.' && own != e->d_name)
            s.insert(e->d_name);
    closedir(d);
    if (!names)
        return std::to_string(s.size());
    std::string t;
    for (auto& x : s) {
        char to[512];
        const ssize_t n = readlink((std::string(dir) + "/" + x).c_str(), to, sizeof to);
        t += x + ">" + (n > 0 ? std::string(to, (size_t)n) : "") + (std::string(to, n > 0 ? (size_t)n : 0).find("memfd:") != std::string::npos ? "" : "@" + std::to_string(lseek(std::atoi(x.c_str()), 0, SEEK_CUR))) + " ";
    }
    return t;
}

static void put_stream(ProcessState& s, const char* name, std::ios& x)
{
    char b[200];
    std::snprintf(b, sizeof b, "flags %lx precision %ld width %ld fill %d exceptions %d state %d tie %p buffer %p locale %s", (long)x.flags(), (long)x.precision(), (long)x.width(),
                  x.fill(), (int)x.exceptions(), (int)x.rdstate(), (void*)x.tie(), (void*)x.rdbuf(), x.getloc().name().c_str());
    s.put(name, b);
}

static char token_text[16];
static ProcessState observe_state()
{
    ProcessState s;
    s.put("the C locale", setlocale(LC_ALL, nullptr));
    s.put("the thread's locale", (long)uselocale((locale_t)0));
    s.put("the decimal point", localeconv()->decimal_point);
    s.put("the C++ locale", std::locale().name());
    s.put("the C++ locale's decimal point", std::string(1, std::use_facet<std::numpunct<char>>(std::locale()).decimal_point()));
    s.put("the rounding mode", fegetround());
    s.put("the floating-point traps", fegetexcept());
    s.put("the SSE control register", (long)(_mm_getcsr() & ~0x3fu));
    unsigned short cw = 0;
    asm volatile("fnstcw %0" : "=m"(cw));
    s.put("the x87 control word", cw);
    std::string h;
    for (int i = 1; i < 32; ++i) {
        struct sigaction a{};
        if (!sigaction(i, nullptr, &a))
            h += std::to_string((long)a.sa_handler) + "/" + std::to_string(a.sa_flags) + " ";
    }
    s.put("the signal handlers", h);
    sigset_t m;
    sigemptyset(&m);
    sigprocmask(SIG_SETMASK, nullptr, &m);
    h.clear();
    for (int i = 1; i < 64; ++i)
        h += sigismember(&m, i) ? '1' : '0';
    s.put("the signal mask", h);
    h.clear();
    for (char** e = environ; e && *e; ++e)
        h += std::string(*e) + "\n";
    s.put("the environment variables", h);
    char dir[4096];
    s.put("the working directory", getcwd(dir, sizeof dir) ? dir : "?");
    const mode_t um = umask(022);
    umask(um);
    s.put("the file creation mask", (long)um);
    s.put("the open files", entries("/proc/self/fd", true));
    s.put("the number of threads", entries("/proc/self/task", false));
    char name[32] = {};
    prctl(PR_GET_NAME, name);
    s.put("the thread's name", name);
    itimerval t{};
    getitimer(ITIMER_REAL, &t);
    s.put("the timer", (long)(t.it_value.tv_sec != 0 || t.it_value.tv_usec != 0));
    for (int r : {RLIMIT_STACK, RLIMIT_CORE, RLIMIT_NOFILE, RLIMIT_FSIZE}) {
        rlimit l{};
        getrlimit((__rlimit_resource_t)r, &l);
        s.put("a resource limit", (long)l.rlim_cur);
    }
    s.put("the new handler", (long)std::get_new_handler());
    s.put("the terminate handler", (long)std::get_terminate());
    put_stream(s, "the state of std::cout", std::cout);
    put_stream(s, "the state of std::cerr", std::cerr);
    put_stream(s, "the state of std::clog", std::clog);
    put_stream(s, "the state of std::cin", std::cin);
    s.put("optind", optind);
    return s;
}

// Positions inside libc that asking would move: set before the call, asked after it
static void set_positions(unsigned seed)
{
    srand(seed);
    std::strcpy(token_text, "a b c");
    (void)strtok(token_text, " ");
}
static std::string ask_positions(unsigned seed)
{
    const int got = __real_rand();
    srand(seed);
    if (got != __real_rand())
        return "the sequence of rand()";
    const char* t = strtok(nullptr, " ");
    if (!t || std::strcmp(t, "b"))
        return "the position of strtok";
    return "";
}
