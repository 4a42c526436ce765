"""What is built and what is run for each property."""
import os

WORKERS = 8
GXX = "/usr/bin/g++"


def cmake(run, b, repo, name, flags, targets, extra=()):
    d = b + "/" + name
    run(["cmake", "-S", repo, "-B", d, "-G", "Ninja", "-DCMAKE_CXX_COMPILER=" + GXX, "-DCMAKE_BUILD_TYPE=None",
         "-DCMAKE_CXX_FLAGS=" + flags] + list(extra))
    run(["ninja", "-C", d] + targets)


def build_plain(run, b, repo, sim):
    cmake(run, b, repo, "plain", "-O1 -g", ["nxas", "nxas_lib"], ["-DCMAKE_EXE_LINKER_FLAGS=-static"])


def build_alloc(run, b, repo, sim):
    run([GXX, "-O1", "-c", sim + "/allocfail.cpp", "-o", b + "/allocfail.o"])
    cmake(run, b, repo, "alloc", "-O1 -g", ["nxas"],
          ["-DCMAKE_EXE_LINKER_FLAGS=-static", "-DCMAKE_CXX_STANDARD_LIBRARIES=" + b + "/allocfail.o"])


def build_simcli(run, b, repo, sim):
    run([GXX, "-std=c++20", "-O1", "-g", "-Wall", "-I" + repo + "/include", "-I" + sim, sim + "/simcli.cpp",
         "-o", b + "/simcli", b + "/plain/libnxas_lib.a"])


WRAP_ALLOC = "-Wl," + ",".join("--wrap=" + f for f in ("malloc", "free", "calloc", "realloc", "strdup", "strndup"))
WRAP_WORLD = "-Wl," + ",".join("--wrap=" + f for f in (
    "time", "clock_gettime", "gettimeofday", "clock", "getpid", "rand", "random", "getenv", "secure_getenv",
    "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt6chrono3_V212steady_clock3nowEv"))


def build_simlib(run, b, repo, sim):
    run([GXX, "-std=c++20", "-O1", "-g", "-Wall", "-I" + repo + "/include", "-I" + sim, sim + "/simlib.cpp",
         "-o", b + "/simlib", b + "/plain/libnxas_lib.a", WRAP_ALLOC, WRAP_WORLD])


def build_words(run, b, repo, sim):
    # never run: its strings are read, and so none is folded into code
    cmake(run, b, repo, "words", "-w -O0 -fno-builtin -fmerge-constants", ["nxas_lib", "nxas"], ["-DCMAKE_EXE_LINKER_FLAGS="])


def build_locales(run, b, repo, sim):
    os.makedirs(b + "/locales", exist_ok=True)
    run(["localedef", "-i", "de_DE", "-f", "UTF-8", "--no-archive", b + "/locales/de_DE.UTF-8"])
    run(["localedef", "-i", "de_DE", "-f", "ISO-8859-1", "--no-archive", b + "/locales/de_DE.ISO-8859-1"])
    run(["localedef", "-i", "tr_TR", "-f", "ISO-8859-9", "--no-archive", b + "/locales/tr_TR.ISO-8859-9"])


def build_asan(run, b, repo, sim):
    cmake(run, b, repo, "asan", "-O1 -g -fsanitize=address -fsanitize-coverage=trace-pc -D_GLIBCXX_ASSERTIONS",
          ["nxas_lib"], ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY"])
    run([GXX, "-std=c++20", "-O1", "-g", "-Wall", "-DSIM_ASAN", "-fsanitize=address", "-I" + repo + "/include",
         "-I" + sim, sim + "/simlib.cpp", "-o", b + "/simlib-asan", b + "/asan/libnxas_lib.a"])


def build_asan_tables(run, b, repo, sim):
    """The same, with the tables of inline and template functions guarded as well: a sanitizer does not
    guard what the linker may merge, so they are made local here. That gives every file its own copy of
    such data; of what these runs find only accesses outside a global count."""
    try:
        cmake(run, b, repo, "tables", "-w -O1 -g -fsanitize=address -fsanitize-coverage=trace-pc -D_GLIBCXX_ASSERTIONS -fno-weak",
              ["nxas_lib"], ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY"])
        run([GXX, "-std=c++20", "-O1", "-g", "-Wall", "-DSIM_ASAN", "-fsanitize=address", "-I" + repo + "/include",
             "-I" + sim, sim + "/simlib.cpp", "-o", b + "/simlib-tables", b + "/tables/libnxas_lib.a"])
    except Exception as e:
        with open(b + "/simlib-tables.skip", "w") as f:
            f.write(str(e)[-2000:])


def build_simthr(run, b, repo, sim):
    cmake(run, b, repo, "thr", "-O1 -g -fno-pie -U_FORTIFY_SOURCE -fsanitize=thread -fno-builtin -D_GLIBCXX_EXTERN_TEMPLATE=0",
          ["nxas_lib"], ["-DCMAKE_TRY_COMPILE_TARGET_TYPE=STATIC_LIBRARY"])
    d = b + "/thr/"
    inc = ["-I" + repo + "/include", "-I" + sim]
    run([GXX, "-std=c++20", "-O1", "-g", "-fno-pie", "-U_FORTIFY_SOURCE", "-fsanitize=thread", "-fno-builtin",
         "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + inc + ["-c", sim + "/thrcall.cpp", "-o", d + "thrcall.o"])
    run([GXX, "-std=c++20", "-O2", "-g", "-Wall", "-fno-pie", "-U_FORTIFY_SOURCE", "-fno-builtin"] + inc +
        ["-c", sim + "/simthr.cpp", "-o", d + "simthr.o"])
    # every function the simulator stands in for
    syms = [l.split()[2] for l in run(["nm", d + "simthr.o"]).splitlines() if " T sim_" in l]
    with open(d + "redefine", "w") as f:
        f.write("".join("%s %s\n" % (x[4:], x) for x in syms))
    for x in ("libnxas_lib.a", "thrcall.o"):
        run(["objcopy", "--redefine-syms=" + d + "redefine", d + x, d + "sim-" + x])
    # the library first: its instrumented copies of inline functions are the ones linked
    run([GXX, "-no-pie", "-g", "-o", b + "/simthr", d + "sim-thrcall.o", "-Wl,--whole-archive", d + "sim-libnxas_lib.a",
         "-Wl,--no-whole-archive", d + "simthr.o", "-lpthread"])


BUILD = {"simthr": build_simthr, "plain": build_plain, "alloc": build_alloc, "simcli": build_simcli, "simlib": build_simlib,
         "locales": build_locales, "words": build_words, "asan": build_asan, "tables": build_asan_tables}

SIMS = {
    "simcli": {"build": ["plain", "alloc", "simcli"], "bin": "simcli",
               "args": ["nxas={b}/plain/nxas", "nxas-alloc={b}/alloc/nxas"]},
    "simcli-env": {"build": ["plain", "alloc", "locales", "words", "simcli"], "bin": "simcli",
                   "args": ["nxas={b}/plain/nxas", "nxas-alloc={b}/alloc/nxas", "locales={b}/locales", "objects={b}/words"]},
    "simlib": {"build": ["plain", "locales", "words", "simlib"], "bin": "simlib", "args": ["locales={b}/locales", "objects={b}/words"]},
    "simthr": {"build": ["simthr"], "bin": "simthr", "args": []},
    "simlib-tables": {"build": ["locales", "tables"], "bin": "simlib-tables",
                      "args": ["locales={b}/locales", "only=global-buffer-overflow"], "optional": True},
    "simlib-asan": {"build": ["locales", "asan"], "bin": "simlib-asan", "args": ["locales={b}/locales"]},
}

CLI_COMP = {
    "real": ["the nxas executable (command line, file reading, assembler, container writer, file writing), one process per node",
             "libstdc++ and glibc", "the kernel's file system (tmpfs) for calls that are not faulted"],
    "stub": ["results of faulted system calls (ptrace)", "the scheduler of the processes",
             "the death of a process (SIGKILL at a chosen call, torn writes)",
             "clock, process number, random numbers, file times"],
}
CLI_MEASURE = "hash of the full event log of the run (process, call, length, result, fault), the final files, exit statuses and stderr texts"


def cli(prof, quick, thorough):
    return {"sim": "simcli", "profile": prof, "runs": {"quick": quick, "thorough": thorough},
            "seconds": {"quick": 150, "thorough": 1500}}


def clicheck(prof, rule, quick=30000, thorough=400000):
    return {"technique": "deterministic simulation of the tool's processes: every file system call intercepted, seeded faults, kills and schedules, checked against a reference model",
            "note": "Seeded search, not enumeration: evidence on the runs made. The executable is real; the results of its calls on the simulated files are chosen by the simulator. Trusts ptrace, the kernel's tmpfs for calls that are not faulted, and the library's fault-free result (cross-checked with an independent layout model).",
            "stages": [cli(prof, quick, thorough)], "rule": rule, "measure": CLI_MEASURE, "components": CLI_COMP,
            "assumptions": ["failures are injected at system calls of the tool; file data reach the disk in call order; where half-written output is judged (C03, C06) a disk that failed once keeps failing",
                            "the expected image of a source is the library's own result for it in a fault-free process, cross-checked with an independent layout model and the project's test vectors where the source only uses those"]}


CHECKS = {
    "C01": clicheck("C01", "seeded plans: source program, old output, command line, write-side faults (failed open, short, interrupted and failing writes, full disk at any byte, failing close that loses data), occasionally read-side faults; non-trivial: at least one fault fired"),
    "C02": clicheck("C02", "seeded plans: source program, read-side faults (failed open, short, interrupted and failing reads, non-seekable input), zeroed blocks, atomic replacement of the input at any step; non-trivial: at least one fault fired"),
    "C03": clicheck("C03", "seeded plans: valid and invalid sources, bad command lines, aliased output, read and write faults, allocation failures and kills at any call, torn writes; the directory is checked after every call that changes it; non-trivial: a fault fired"),
    "C04": clicheck("C04", "seeded plans: valid and invalid sources, bad command lines, missing files, directories, read, write, stderr faults; non-trivial: a fault fired"),
    "C05": clicheck("C05", "seeded plans of valid sources with irregularities only: short reads and writes of any size, interrupted calls, non-seekable input; non-trivial: one fired"),
    "C06": clicheck("C06", "seeded plans: a run that is killed at any call or fails, then a fault-free run of the same command; non-trivial: a fault fired"),
    "C07": clicheck("C07", "seeded plans: 2 to 4 processes of the tool in one directory, seeded interleaving of their calls, faults and kills on some; non-trivial: a fault fired or the scheduler switched between live processes"),
}

CHECKS["C20"] = clicheck("C20", "seeded plans: a command (valid, invalid, unusable, sometimes with failing calls) is run in neutral surroundings and again in others: environment variables (locales, usual names, every name that occurs as a string in the tool's own code), program name, standard streams closed, full or terminals, umask, open descriptors, clock, process number, old output, and files under every name the neutral run looked for; non-trivial: the surroundings differ")
CHECKS["C20"]["stages"][0]["sim"] = "simcli-env"

LIB_COMP = {
    "real": ["the nxas library (tokenizer, parser, encoder, container writer, diagnostics), linked into the simulator and called in a process forked per run",
             "libstdc++ and glibc"],
    "stub": ["the allocator (addresses, contents of fresh memory, failures decided by the seed)", "the C locale and errno before each call", "clock, process number, environment variables and random numbers",
             "contents of the unused stack"],
}
LIB_MEASURE = "hash of the run's log: for every call its outcome, number of allocations and failures, image; the ending of the process and its stderr text"


def lib(sim, prof, quick, thorough):
    return {"sim": sim, "profile": prof, "runs": {"quick": quick, "thorough": thorough},
            "seconds": {"quick": 120, "thorough": 1500}}


CHECKS["C09"] = {
    "technique": "deterministic simulation of call histories in one process: seeded sequence of calls, memory layout and contents, locale and errno, compared call by call with a solo run of the same source",
    "note": "Seeded search, not enumeration. Oracle: the library's own result for the source in a fresh process with the C locale and zeroed memory.",
    "stages": [lib("simlib", "C09", 20000, 600000)],
    "rule": "seeded plans: 1 to 700 calls, with repetitions up to 65538 (valid, variants of one another, rejected at the end, repeated, buffer reused in place), each with a memory layout, garbage in fresh heap and dead stack, locale, stale errno, clock, process number, environment, file name; non-trivial: more than one call or a disturbance fired",
    "measure": LIB_MEASURE, "components": LIB_COMP,
    "assumptions": ["the process is single-threaded in these runs (C08 has the threads)"]}
CHECKS["C10"] = {
    "technique": "deterministic simulation with allocation failures at seeded positions in call histories of the library and in runs of the tool, compared with the reference result, with allocator balance",
    "note": "Seeded search, not enumeration. Failures are those of operator new and the malloc family; failing stack growth is not injected.",
    "stages": [lib("simlib", "C10", 160000, 2400000), cli("C10", 20000, 200000)],
    "rule": "seeded plans: call histories with one or several failing allocations per call at any position, or from a position on; the tool with failing allocations at any position and a directory model; non-trivial: an allocation failed",
    "measure": LIB_MEASURE, "components": {"real": LIB_COMP["real"] + CLI_COMP["real"], "stub": LIB_COMP["stub"] + CLI_COMP["stub"]},
    "assumptions": ["an allocation fails by operator new throwing std::bad_alloc or malloc returning NULL"]}
CHECKS["C19"] = {
    "technique": "deterministic simulation with a seeded limit on resources: an allocator that refuses what exceeds the budget of the source, a small stack, histories of calls, results compared with runs with ample memory",
    "note": "Seeded search, not enumeration. The limits are about ten times what the present code needs, so that the check tells growth from proportion and not one layout from another.",
    "stages": [lib("simlib", "C19", 3200, 60000), cli("C19", 4000, 80000)],
    "rule": "seeded plans: 1 to 6 calls (up to 400 repetitions) on sources in which one thing occurs very often (labels and branches, one instruction, blanks, one long token, directives) or on ordinary and rejected ones, each with the heap and stack its size entitles it to; the tool on such sources under limits of data and stack; non-trivial: a call was made under the limit",
    "measure": LIB_MEASURE, "components": {"real": LIB_COMP["real"] + CLI_COMP["real"], "stub": LIB_COMP["stub"] + CLI_COMP["stub"] + ["the limits of heap and stack"]},
    "assumptions": ["memory is what operator new and the malloc family give out (library), the kernel's count of data pages (tool)"]}
CHECKS["C21"] = {
    "technique": "deterministic simulation of a calling process: seeded histories of calls with failing allocations from a caller in a seeded state, everything of it compared before and after each call and at exit",
    "note": "Seeded search, not enumeration. Decides what a call leaves behind, not its result.",
    "stages": [lib("simlib", "C21", 40000, 1000000)],
    "rule": "seeded plans: a caller (locales, rounding mode, signal handlers and mask, environment, directory, umask, descriptors, stream states, new handler, unflushed output) makes 1 to 4 calls, one or several allocations failing at any position in half of them, the last source possibly rejected; non-trivial: a call returned or threw",
    "measure": LIB_MEASURE, "components": {"real": LIB_COMP["real"], "stub": LIB_COMP["stub"] + ["the caller"]},
    "assumptions": ["of the process what is compared is: source and file name, C and C++ locales, floating-point control, signal handlers and mask, environment, working directory, umask, open descriptors and their positions, threads, timer, limits, new and terminate handlers, C++ stream states, rand(), strtok, optind, standard output and error"]}
CHECKS["C11"] = {
    "technique": "deterministic simulation of damaged storage: seeded damage to stored sources, every memory access checked (AddressSanitizer, container assertions), step counter as a bounded-progress clock",
    "note": "Seeded search, not enumeration. Decides safety and progress of the assembler on damaged text, not which of image or diagnostic is right.",
    "stages": [lib("simlib-asan", "C11", 80000, 3000000), dict(lib("simlib-tables", "C11", 40000, 1000000), shift=500000)],
    "rule": "seeded plans: a program from the corpus or generator, 1 to 5 damages (cut, changed bits or bytes, lost, repeated, swapped, zeroed or inserted blocks, spliced sources, very long repetitions); non-trivial: damaged",
    "measure": "hash of the damaged source and of how assembling it ended (status, message)",
    "components": {"real": LIB_COMP["real"], "stub": ["the stored source (damaged by the seed)"]},
    "time": "simulated time is the number of basic blocks the library executed (simulated_steps)",
    "assumptions": ["out-of-bounds accesses are those AddressSanitizer and libstdc++'s container assertions see"]}
CHECKS["C08"] = {
    "technique": "deterministic simulation of threads: every memory access, lock, allocation, library call and exit is a scheduling point of a seeded scheduler; happens-before race detection; results compared with solo runs",
    "note": "Seeded search, not enumeration. Sequentially consistent interleavings; weak-memory effects are covered only through race detection. Code of libc and libstdc++.so runs without scheduling points inside.",
    "stages": [lib("simthr", "C08", 150000, 3000000)],
    "rule": "seeded plans: 2 to 4 threads, 1 to 3 calls each (same or different sources, same mnemonic, one or more rejected), failing allocations, six scheduling strategies (random gaps, at shared accesses, few instants, priorities with a stalled thread, lockstep, around locks); non-trivial: more switches than threads",
    "measure": "hash of the schedule (every switch: thread, its point, code address) and of all results",
    "components": {"real": ["the nxas library, compiled with access instrumentation, in real threads of one process", "libstdc++ and glibc"],
                   "stub": ["thread scheduling", "locks, once, static-initialisation guards, condition variables", "allocator", "the race to exit()"]},
    "time": "simulated time is the number of scheduling points (simulated_steps)",
    "assumptions": ["when several threads' sources are rejected only a failing status is required"]}
