// The search loop shared by the simulators: seeded generation, execution, determinism gate,
// minimisation, replay files, statistics.
#pragma once
#include <sys/stat.h>
#include <unistd.h>
#include "common.h"

struct RunOutcome
{
    std::vector<std::pair<std::string, std::string>> violations; // class, text
    std::map<std::string, u64> fired, probe;
    i64 steps = 0;
    u64 hash = 0;
    u64 switches = 0;
    bool nontrivial = false;
    std::string trace;

    void violate(const std::string& cls, const std::string& text)
    {
        violations.push_back({cls, text});
    }
    bool bad() const
    {
        return !violations.empty();
    }
};

inline std::map<std::string, std::string> parse_args(int argc, char** argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i < argc; ++i) {
        std::string s = argv[i];
        size_t e = s.find('=');
        if (e == std::string::npos)
            a[s] = "1";
        else
            a[s.substr(0, e)] = s.substr(e + 1);
    }
    return a;
}

// mode=search profile= seed= worker= workers= runs= seconds= out= replay-dir=
// mode=replay file=
// mode=hashes : print the hash of each run (determinism check)
template <class Plan, class Out, class Gen, class Exec, class Red, class SH>
int drive(std::map<std::string, std::string>& a, Gen gen, Exec exec, Red reductions, SH state_hash)
{
    const std::string mode = a["mode"];
    if (mode == "replay") {
        const std::string t = slurp(a["file"]);
        std::string want;
        {
            std::istringstream in(t);
            std::string l;
            while (std::getline(in, l))
                if (l.rfind("violation-class ", 0) == 0)
                    want = l.substr(16);
        }
        Plan p = Plan::parse(t);
        Out o = exec(p, true);
        std::printf("%s", o.trace.c_str());
        std::printf("hash %016llx\n", (unsigned long long)o.hash);
        bool same = false;
        for (auto& v : o.violations) {
            std::printf("VIOLATED %s: %s\n", v.first.c_str(), v.second.c_str());
            same |= v.first == want || want.empty();
        }
        if (o.violations.empty())
            std::printf("no violation\n");
        return o.violations.empty() ? 0 : same ? 1 : 3;
    }
    const std::string prof = a["profile"];
    const u64 seed = std::strtoull(a["seed"].c_str(), nullptr, 10);
    const u64 worker = std::strtoull(a["worker"].c_str(), nullptr, 10);
    const u64 workers = std::max<u64>(1, std::strtoull(a["workers"].c_str(), nullptr, 10));
    const u64 runs = std::strtoull(a["runs"].c_str(), nullptr, 10);
    const double limit = a.count("seconds") ? std::atof(a["seconds"].c_str()) : 1e18;
    const u64 base = mix64(seed * 0x100000001ULL + 77);
    const u64 first = a.count("first") ? std::strtoull(a["first"].c_str(), nullptr, 10) : 0;

    if (mode == "hashes") {
        for (u64 i = first; i < first + runs; ++i) {
            Plan p = gen(base + i, prof);
            Out o = exec(p, false);
            std::printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)o.hash);
        }
        return 0;
    }

    const double t0 = now_s();
    std::map<std::string, u64> fired, probe;
    std::unordered_set<u64> distinct;
    u64 done = 0, nontrivial = 0, steps = 0, switches = 0, flaky = 0;
    std::string samples, viol;
    int nsamples = 0;
    std::string status = "ok", vclass, vtext, vfile;
    u64 vrun = 0;
    int rc = 0;
    const auto report = [&] {
        const double dt = now_s() - t0;
        std::ostringstream j;
        const auto dump = [&](const char* k, std::map<std::string, u64>& m) {
            j << "\"" << k << "\":{";
            bool f = true;
            for (auto& x : m) {
                j << (f ? "" : ",") << json_str(x.first) << ":" << x.second;
                f = false;
            }
            j << "},";
        };
        j << "{\"status\":" << json_str(status) << ",\"runs\":" << done << ",\"nontrivial\":" << nontrivial << ",\"steps\":" << steps << ",\"switches\":" << switches << ",\"flaky\":" << flaky << ",\"seconds\":" << dt << ",";
        dump("fired", fired);
        dump("probe", probe);
        j << "\"vclass\":" << json_str(vclass) << ",\"vtext\":" << json_str(vtext) << ",\"vfile\":" << json_str(vfile) << ",\"vrun\":" << vrun << ",\"samples\":[" << samples << "],\"distinct\":" << distinct.size() << "}\n";
        {
            std::ofstream hs(a["out"] + ".hashes", std::ios::binary);
            for (u64 h : distinct)
                hs.write((const char*)&h, 8);
        }
        spit(a["out"] + ".tmp", j.str());
        std::rename((a["out"] + ".tmp").c_str(), a["out"].c_str());
    };
    for (u64 i = worker; i < runs; i += workers) {
        if (now_s() - t0 > limit) {
            status = "time";
            break;
        }
        Plan p = gen(base + i, prof);
        Out o = exec(p, false);
        ++done;
        steps += (u64)o.steps;
        switches += o.switches;
        for (auto& f : o.fired)
            fired[f.first] += f.second;
        for (auto& f : o.probe)
            probe[f.first] += f.second;
        if (o.nontrivial) {
            ++nontrivial;
            if (distinct.size() < 3000000)
                distinct.insert(state_hash(p, o));
        }
        if (nsamples < 3 && o.nontrivial && worker == 0 && p.text().size() < 1500) {
            Out t = exec(p, true);
            samples += (nsamples ? "," : "") + json_str("run " + std::to_string(i) + ": " + p.text() + t.trace);
            ++nsamples;
        }
        if (!o.bad())
            continue;
        // gate: the same plan again must give the same event log and the same verdict
        const std::string cls = o.violations[0].first;
        Out o2 = exec(p, false);
        // the code under test may draw on something the simulator does not decide (an instruction that
        // gives random numbers, say): a violation that comes back every time is one all the same
        bool loose = false;
        if (o2.hash != o.hash && o2.bad() && o2.violations[0].first == cls) {
            loose = true;
            for (int k = 0; k < 4 && loose; ++k) {
                Out x = exec(p, false);
                loose = x.bad() && x.violations[0].first == cls;
            }
        }
        if (!loose && (o2.hash != o.hash || !o2.bad() || o2.violations[0].first != cls)) {
            ++flaky;
            vtext = o.violations[0].second;
            vrun = i;
            if (flaky > 20) {
                status = "nondeterministic";
                rc = 4;
                break;
            }
            continue;
        }
        u64 tried = 0;
        const auto emit = [&](const Plan& best, const Out& fin) {
            char name[128];
            std::snprintf(name, sizeof name, "/%s-seed%llu-run%llu.replay", prof.c_str(), (unsigned long long)seed, (unsigned long long)i);
            vfile = a["replay-dir"] + name;
            mkdir(a["replay-dir"].c_str(), 0755);
            std::ostringstream r;
            r << "# property " << prof << " seed " << seed << " run " << i << " (" << tried << " reductions tried)\n";
            if (loose)
                r << "loose\n# the violation comes back in every repetition, the event log does not: the code draws on something outside the simulation\n";
            r << "sim " << a["sim"] << "\n";
            r << "violation-class " << cls << "\n";
            for (auto& v : fin.violations)
                r << "# " << v.first << ": " << enc(v.second) << "\n";
            r << best.text();
            std::istringstream tr(fin.trace);
            std::string l;
            while (std::getline(tr, l))
                r << "#| " << l << "\n";
            r << "hash " << std::hex << fin.hash << "\n";
            spit(vfile + ".tmp", r.str());
            std::rename((vfile + ".tmp").c_str(), vfile.c_str());
            vclass = cls;
            vtext = fin.violations.empty() ? o.violations[0].second : fin.violations[0].second;
            vrun = i;
            status = "violation";
            report();
        };
        emit(p, o2); // should it take too long to minimise it
        // minimise
        Plan best = p;
        const double m0 = now_s();
        bool progress = true;
        while (progress && now_s() - m0 < 25) {
            progress = false;
            for (Plan& q : reductions(best)) {
                if (now_s() - m0 > 25)
                    break;
                ++tried;
                Out x = exec(q, false);
                if (x.bad() && x.violations[0].first == cls) {
                    Out y = exec(q, false);
                    if (loose ? !y.bad() || y.violations[0].first != cls : y.hash != x.hash)
                        continue;
                    best = q;
                    progress = true;
                    break;
                }
            }
        }
        Out fin = exec(best, true);
        if (!fin.bad()) {
            best = p;
            fin = exec(best, true);
        }
        emit(best, fin);
        rc = 1;
        break;
    }
    report();
    if (flaky && rc == 0)
        rc = 4;
    return rc;
}
