// Shared by the simulators: PRNG, hashing, plan text format, workload generator, reference model.
#pragma once
#include <algorithm>
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

using u64 = uint64_t;
using i64 = int64_t;

inline u64 mix64(u64 z)
{
    z += 0x9E3779B97F4A7C15ULL;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

// The only source of randomness. One integer decides a run.
struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next()
    {
        u64 r = mix64(s);
        s += 0x9E3779B97F4A7C15ULL;
        return r;
    }
    u64 below(u64 n)
    {
        return n ? next() % n : 0;
    }
    i64 range(i64 lo, i64 hi)
    {
        return lo + (i64)below((u64)(hi - lo + 1));
    }
    bool chance(unsigned num, unsigned den)
    {
        return below(den) < num;
    }
    template <class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[below(v.size())];
    }
};

struct Hash
{
    u64 h = 0xcbf29ce484222325ULL;
    void byte(uint8_t b)
    {
        h = (h ^ b) * 0x100000001b3ULL;
    }
    void add(u64 v)
    {
        for (int i = 0; i < 8; ++i)
            byte((uint8_t)(v >> (8 * i)));
    }
    void add(const std::string& s)
    {
        add(s.size());
        for (char c : s)
            byte((uint8_t)c);
    }
};

inline u64 hash_str(const std::string& s)
{
    Hash h;
    h.add(s);
    return mix64(h.h);
}

// percent encoding, one word per string
// (long runs of one byte are written as %*<byte>*<count>*)
inline std::string enc(const std::string& s)
{
    static const char digit[] = "0123456789abcdef";
    std::string o = "=";
    for (size_t i = 0; i < s.size(); ++i) {
        const unsigned char c = (unsigned char)s[i];
        size_t n = 1;
        while (i + n < s.size() && s[i + n] == s[i])
            ++n;
        if (n > 200) {
            o += "%*";
            o += digit[c >> 4];
            o += digit[c & 15];
            o += "*" + std::to_string(n) + "*";
            i += n - 1;
            continue;
        }
        if (c > 32 && c < 127 && c != '%') {
            o += (char)c;
        } else {
            o += '%';
            o += digit[c >> 4];
            o += digit[c & 15];
        }
    }
    return o;
}

inline std::string dec(const std::string& s)
{
    const auto hex = [](const char* p) {
        const char t[3] = {p[0], p[1], 0};
        return (char)std::strtol(t, nullptr, 16);
    };
    std::string o;
    for (size_t i = 1; i < s.size(); ++i) {
        if (s[i] == '%' && i + 1 < s.size() && s[i + 1] == '*') {
            const char c = hex(&s[i + 2]);
            char* end;
            o.append((size_t)std::strtoull(&s[i + 5], &end, 10), c);
            i = (size_t)(end - s.c_str());
        } else if (s[i] == '%') {
            o += hex(&s[i + 1]);
            i += 2;
        } else {
            o += s[i];
        }
    }
    return o;
}

inline std::string slurp(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

inline void spit(const std::string& path, const std::string& data)
{
    std::ofstream f(path, std::ios::binary);
    f.write(data.data(), (std::streamsize)data.size());
}

inline std::string json_str(const std::string& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c < 32 || c > 126) {
            std::snprintf(b, 8, "\\u%04x", c);
            o += b;
        } else {
            o += (char)c;
        }
    }
    return o + "\"";
}

inline double now_s()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

// ---------------------------------------------------------------------------------------------
// Workload
// ---------------------------------------------------------------------------------------------
struct Corpus
{
    std::vector<std::string> vec;     // instruction texts with a known encoding (the project's own test vectors)
    std::unordered_map<std::string, u64> code;
    std::vector<std::string> extra;   // further instruction texts, one or more per row of the instruction table
    std::vector<std::string> rejects; // texts that are not valid instructions
    std::map<std::string, std::vector<std::string>> family; // mnemonic -> texts

    static std::string mnemonic(const std::string& s)
    {
        size_t i = 0;
        while (i < s.size() && s[i] == '@') {
            i = s.find(' ', i);
            if (i == std::string::npos)
                return s;
            ++i;
        }
        size_t j = s.find_first_of(" .", i);
        return s.substr(i, j == std::string::npos ? j : j - i);
    }

    void load(const std::string& dir)
    {
        std::string l;
        std::ifstream a(dir + "/vectors.txt");
        while (std::getline(a, l)) {
            size_t sp = l.find(' ');
            if (sp == std::string::npos)
                continue;
            std::string t = l.substr(sp + 1);
            if (t.find(':') != std::string::npos || t.find('@', 1) != std::string::npos)
                continue;
            code[t] = std::strtoull(l.substr(0, sp).c_str(), nullptr, 16);
            vec.push_back(t);
            family[mnemonic(t)].push_back(t);
        }
        std::ifstream b(dir + "/extra.txt");
        while (std::getline(b, l)) {
            if (l.empty())
                continue;
            extra.push_back(l);
            family[mnemonic(l)].push_back(l);
        }
        for (const char* n : {"/rejects.txt", "/rejects_extra.txt"}) {
            std::ifstream c(dir + n);
            while (std::getline(c, l))
                if (!l.empty())
                    rejects.push_back(l);
        }
        if (vec.size() < 900 || extra.size() < 900 || rejects.size() < 20) {
            std::fprintf(stderr, "corpus missing in %s\n", dir.c_str());
            std::exit(2);
        }
    }
};

struct GenOpts
{
    int min_insns = 0, max_insns = 12;
    bool allow_extra = true;     // instructions without a known encoding
    bool allow_dksh = true;
    bool fancy_space = true;
    const std::string* family = nullptr; // restrict to one mnemonic
};

inline std::string gen_sched(Rng& r)
{
    std::string s;
    if (r.chance(1, 3))
        s += " @WAIT " + std::to_string(r.below(16));
    if (r.chance(1, 4))
        s += " @WB " + std::to_string(r.below(6));
    if (r.chance(1, 4))
        s += " @RB " + std::to_string(r.below(6));
    if (r.chance(1, 5))
        s += r.chance(1, 2) ? " @Y" : " @YIELD";
    if (r.chance(1, 3)) {
        int a = (int)r.below(6);
        s += " @DEP " + std::to_string(a);
        if (r.chance(1, 3))
            s += " @DEP " + std::to_string((a + 1 + (int)r.below(5)) % 6);
    }
    return s;
}

inline std::string gen_space(Rng& r, bool fancy)
{
    if (!fancy)
        return "\n";
    switch (r.below(10)) {
    case 0: return "\r\n";
    case 1: return "\n\n";
    case 2: return "\n  \t";
    case 3: return " ";
    case 4: return "\n\t\n ";
    default: return "\n";
    }
}

// A number at which buffers and counters tend to end, or next to one.
inline int edge_size(Rng& r, int max)
{
    static const int edge[] = {8, 10, 15, 16, 20, 24, 31, 32, 48, 63, 64, 80, 100, 127, 128, 200, 255, 256, 300, 400, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096, 8192, 16384, 32767, 32768, 65535, 65536};
    int k = 0;
    while (k < (int)(sizeof edge / sizeof edge[0]) && edge[k] <= max)
        ++k;
    return k ? edge[r.below((u64)k)] + (int)r.range(-1, 1) : max;
}

// A valid program in which every construct is exercised: options, labels, forward and backward
// branches, scheduling annotations and instructions of every table row.
inline std::string gen_program(Rng& r, const Corpus& c, const GenOpts& o)
{
    std::string s;
    const int n = (int)r.range(o.min_insns, o.max_insns);
    const bool dksh = o.allow_dksh && r.chance(1, 4) && n > 0;
    bool main_placed = false;
    if (dksh) {
        s += ".dksh compute\n";
        if (r.chance(1, 2))
            s += ".workgroup_size " + std::to_string(1 + r.below(64)) + " " + std::to_string(1 + r.below(8)) + " " + std::to_string(1 + r.below(4)) + "\n";
        if (r.chance(1, 2))
            s += ".shared_memory " + std::to_string(r.below(4096)) + "\n";
        if (r.chance(1, 2))
            s += ".local_memory " + std::to_string(r.below(4096)) + "\n";
    } else if (n > 0 && r.chance(1, 16)) {
        s += ".type compute\n";
    }
    std::vector<int> labels; // instruction index the label precedes
    std::vector<std::string> names;
    int nl = n > 0 ? (int)r.below(4) : 0;
    if (nl && n <= 400 && r.chance(1, 16))
        nl = r.chance(1, 4) ? edge_size(r, 300) : (int)r.range(4, 40);
    for (int i = 0; i < nl; ++i) {
        labels.push_back((int)r.below((u64)n));
        names.push_back("lab_" + std::to_string(i));
    }
    if (nl && r.chance(1, 12)) {
        // names of any length that differ early or late only
        const size_t len = r.chance(1, 2) ? (size_t)edge_size(r, 1100) : (size_t)r.range(8, 80);
        const bool late = r.chance(1, 2);
        for (int i = 0; i < nl; ++i)
            if (names[i].size() < len)
                names[i] = late ? "lab_" + std::string(len - names[i].size(), 'x') + names[i].substr(4)
                                : names[i] + std::string(len - names[i].size(), '_');
    }
    const std::vector<std::string>* fam = nullptr;
    if (o.family) {
        auto it = c.family.find(*o.family);
        if (it != c.family.end())
            fam = &it->second;
    }
    for (int i = 0; i < n; ++i) {
        // labels are recognised at the start of a line only
        bool line_start = s.empty() || s.back() == '\n';
        if (dksh && !main_placed && i == 0) {
            s += "main:\n";
            main_placed = true;
            line_start = true;
        }
        for (int j = 0; j < nl; ++j) {
            if (labels[j] == i) {
                if (!line_start)
                    s += "\n", line_start = true;
                s += names[j] + ":" + (r.chance(1, 2) ? "\n" : " ");
                line_start = s.back() == '\n';
            }
        }
        std::string t;
        if (nl && r.chance(1, 6)) {
            t = "BRA " + names[r.below((u64)nl)];
        } else if (fam && r.chance(3, 4)) {
            t = r.pick(*fam);
        } else if (o.allow_extra && r.chance(1, 2)) {
            t = r.pick(c.extra);
        } else {
            t = r.pick(c.vec);
        }
        size_t p;
        while ((p = t.find("LABEL")) != std::string::npos)
            t.replace(p, 5, nl ? names[0] : "0x8");
        if (o.fancy_space && r.chance(1, 12)) {
            size_t q = t.find(", ");
            if (q != std::string::npos)
                t.replace(q, 2, ",");
        }
        s += t;
        if (r.chance(1, 3))
            s += gen_sched(r);
        s += ";";
        s += gen_space(r, o.fancy_space);
    }
    if (o.fancy_space && r.chance(1, 5))
        s += "  \n";
    return s;
}

// A program that must be rejected: one broken instruction at an arbitrary position.
inline std::string gen_invalid(Rng& r, const Corpus& c, const GenOpts& o)
{
    GenOpts q = o;
    q.max_insns = std::max(1, o.max_insns);
    std::string s = gen_program(r, c, q);
    std::string bad;
    switch (r.below(6)) {
    case 1: bad = "NOSUCHINSN R0"; break;
    case 2: bad = "MOV R0, R256"; break;
    case 3: bad = "IADD R0, R1"; break;
    default: bad = r.pick(c.rejects); break;
    }
    // insert after a random ';'
    std::vector<size_t> pos;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == ';')
            pos.push_back(i + 1);
    size_t at = pos.empty() || r.chance(1, 4) ? s.size() : r.pick(pos);
    std::string lead = "\n";
    if (r.chance(1, 3)) {
        // put the mistake on a line or in a column at which a counter of 8 or 16 bits wraps, or nearly so
        static const int edge[] = {127, 128, 255, 256, 512, 768, 1024, 4096, 32768, 65535, 65536};
        const size_t have = (size_t)std::count(s.begin(), s.begin() + (long)at, '\n') + 1;
        const bool big = r.chance(1, 8);
        const size_t want = (size_t)(edge[r.below(big ? 11 : 7)] + r.range(-1, 2));
        if (r.chance(2, 3)) {
            if (want > have)
                lead += std::string(want - have - 1, '\n');
            if (r.chance(1, 3))
                lead += std::string((size_t)r.below(9), ' ');
        } else {
            lead += std::string(want - 1, ' ');
        }
    }
    s.insert(at, lead + bad + ";\n");
    return s;
}

// Sources with unusual option lines: accepted or rejected, but always alike.
inline std::string gen_odd(Rng& r, const Corpus& c)
{
    static const char* names[] = {".dksh", ".type", ".num_gprs", ".workgroup_size", ".shared_memory", ".local_memory", ".unknown", "."};
    static const char* args[] = {"compute", "vertex", "fragment", "pixel", "geometry", "hull", "domain", "tess_eval", "tess_control", "nothing", "5", "16", "-1", "0x7fffffff", "4294967296", "1.5", "R4", "RZ", "P2", "!PT", "1 2 3", "8 8", "1 2 3 4", "-", "[", ";", "@", "", "1e9", "0x", "99999999999999999999", "main", "64 1 1", "a_rather_long_name_that_does_not_fit_into_any_small_buffer_of_any_kind"};
    std::string s;
    const int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        s += names[r.below(sizeof names / sizeof names[0])];
        s += r.chance(1, 12) ? "\n" : " ";
        s += args[r.below(sizeof args / sizeof args[0])];
        s += r.chance(1, 16) ? " " : "\n";
    }
    if (r.chance(3, 4))
        s = (r.chance(1, 3) ? std::string(".dksh compute\n") : std::string(".dksh ") + args[r.below(10)] + "\n") + s;
    if (r.chance(3, 4))
        s += "main:\n";
    const int k = (int)r.below(3);
    for (int i = 0; i < k; ++i)
        s += r.pick(c.vec) + ";\n";
    if (r.chance(1, 4))
        s += "lab_0: " + std::string(r.chance(1, 2) ? "BRA lab_0" : "SSY nowhere") + ";\n";
    if (r.chance(1, 12)) {
        // very many of something
        const int what = (int)r.below(6);
        const int m = edge_size(r, r.chance(1, 6) ? (what == 3 ? 2100 : 9000) : 600);
        std::string t;
        for (int i = 0; i < m; ++i) {
            switch (what) {
            case 0: t += "l" + std::to_string(i) + ":\n"; break;
            case 1: t += "NOP;"; break;
            case 2: t += ".shared_memory " + std::to_string(i) + "\n"; break;
            case 3: t += "l" + std::to_string(i) + ": NOP;\n"; break;
            case 4: t += "BRA l0;\n"; break;
            default: t += " "; break;
            }
        }
        if (what == 4)
            t += "l0:\n";
        s = r.chance(1, 2) ? t + s : s + t;
        if (what != 2 && r.chance(1, 2))
            s += "NOP;\n";
    }
    return s;
}

// An instruction put together from blocks of several stored instructions of one mnemonic: the
// modifiers of one, operands of others.
inline std::string gen_splice(Rng& r, const Corpus& c, const std::string& fam)
{
    const auto& v = c.family.at(fam);
    const auto split = [](const std::string& t, std::vector<std::string>& mods, std::vector<std::string>& ops, std::string& head) {
        size_t b = 0;
        head.clear();
        if (!t.empty() && t[0] == '@') {
            b = t.find(' ') + 1;
            head = t.substr(0, b);
        }
        size_t e = t.find(' ', b);
        std::string m = t.substr(b, e == std::string::npos ? e : e - b);
        size_t d;
        head += m.substr(0, m.find('.'));
        while ((d = m.rfind('.')) != std::string::npos) {
            mods.insert(mods.begin(), m.substr(d));
            m.resize(d);
        }
        if (e == std::string::npos)
            return;
        std::string rest = t.substr(e + 1), cur;
        for (char ch : rest) {
            if (ch == ',') {
                ops.push_back(cur);
                cur.clear();
            } else if (!(ch == ' ' && cur.empty())) {
                cur += ch;
            }
        }
        ops.push_back(cur);
    };
    std::vector<std::string> mods, ops;
    std::string head;
    split(r.pick(v), mods, ops, head);
    const int n = (int)r.range(1, 4);
    for (int i = 0; i < n; ++i) {
        std::vector<std::string> m2, o2;
        std::string h2;
        split(r.pick(v), m2, o2, h2);
        switch (r.below(8)) {
        case 0: // its modifiers
            mods = m2;
            break;
        case 6:
        case 7: { // a modifier of another instruction, or of none
            std::vector<std::string> m3, o3;
            std::string h3, x = ".QQ";
            split(r.pick(r.chance(1, 2) ? c.vec : c.extra), m3, o3, h3);
            if (!m3.empty())
                x = r.pick(m3);
            if (!mods.empty() && r.chance(1, 2))
                mods[r.below(mods.size())] = x;
            else if (!ops.empty() && r.chance(1, 3))
                ops[r.below(ops.size())] += x;
            else
                mods.insert(mods.begin() + (long)r.below(mods.size() + 1), x);
            break;
        }
        case 1: // one more modifier
            if (!m2.empty())
                mods.insert(mods.begin() + (long)r.below(mods.size() + 1), r.pick(m2));
            break;
        case 5: { // an operand's suffix or sign
            if (ops.empty())
                break;
            std::string& x = ops[r.below(ops.size())];
            static const char* suf[] = {".reuse", ".CC", ".H0_H0", ".H1_H1", ".H1", ".H0", ".B1", ".NEG", ".ABS", ".INV", ".U16", ".X", ".F32", ".S32", ".U8"};
            static const char* pre[] = {"-", "|", "~", "!", "+"};
            if (r.chance(1, 2))
                x += suf[r.below(sizeof suf / sizeof suf[0])];
            else if (r.chance(1, 4))
                x = "-|" + x + "|";
            else
                x = pre[r.below(5)] + x;
            break;
        }
        default: // one operand
            if (!o2.empty() && !ops.empty()) {
                size_t k = r.below(std::min(ops.size(), o2.size()));
                ops[k] = o2[r.chance(5, 6) ? k : r.below(o2.size())];
            }
            break;
        }
    }
    if (!mods.empty() && r.chance(1, 4))
        mods.erase(mods.begin() + (long)r.below(mods.size()));
    std::string s = head;
    for (auto& m : mods)
        s += m;
    for (size_t i = 0; i < ops.size(); ++i)
        s += (i ? ", " : " ") + ops[i];
    size_t p;
    while ((p = s.find("LABEL")) != std::string::npos)
        s.replace(p, 5, "0x10");
    return s;
}

// Very long sources made of one block over and over.
inline std::string gen_huge(Rng& r, const Corpus& c)
{
    static const char* unit[] = {"a:", "lab:\n", "x: ", "\n", " ", "\t", "\r\n", ";", "@", ".", "!", "P", "R", "-", "- ", "0", "1", "A", ".dksh\n", "NOP;", "NOP;\n", "é", "[", "|", "|R1", "+", "+1", "@WAIT 1 ", ".CC", ",", "R1,", "a:b:"};
    std::string u = unit[r.below(sizeof unit / sizeof unit[0])];
    if (r.chance(1, 3))
        u = (r.chance(1, 2) ? "l: " : "") + r.pick(c.vec) + ";\n";
    const size_t bytes = (size_t)r.range(1000, r.chance(1, 3) ? 400000 : 20000);
    std::string s;
    if (r.chance(1, 3))
        s = r.pick(c.vec) + (r.chance(1, 2) ? ";\n" : " ");
    while (s.size() < bytes)
        s += u;
    if (r.chance(1, 2))
        s += ";\n";
    return s;
}

// Damage to the stored bytes of a source.
// A source in which one thing comes very often
inline std::string gen_many(Rng& r, const Corpus& c)
{
    const size_t bytes = (size_t)r.range(2000, r.chance(1, 4) ? 200000 : 40000);
    std::string s;
    switch (r.below(7)) {
    case 0: { // labels and branches
        const size_t labels = (size_t)r.range(1, r.chance(1, 2) ? 200 : 2000), insns = std::min<size_t>(8000, 2000000 / labels);
        const std::string stem = r.chance(1, 2) ? "l" : "a_label_with_quite_a_long_name_";
        for (size_t i = 0; i < labels; ++i) {
            s += stem + std::to_string(i) + ":\n";
            if (r.chance(1, 2))
                s += "BRA " + stem + std::to_string(r.below(labels)) + ";\n";
        }
        std::string one = r.chance(1, 2) ? "BRA " + stem + "0" : r.pick(c.vec);
        for (size_t i = 0; i < insns && s.size() < 200000; ++i)
            s += one + ";\n";
        break;
    }
    case 1: { // one instruction
        const std::string one = (r.chance(1, 8) ? "LEA R1, R2, R3" : r.pick(c.vec)) + (r.chance(1, 2) ? " @WAIT 2" : "") + ";\n";
        while (s.size() < bytes)
            s += one;
        break;
    }
    case 2: { // labels only, perhaps all on one line
        const std::string sep = r.chance(1, 2) ? ":" : ":\n";
        for (size_t i = 0; s.size() < bytes / 4; ++i)
            s += "l" + std::to_string(i) + sep;
        s += "NOP;\n";
        break;
    }
    case 3: { // nothing much
        static const char* u[] = {"\n", " ", "\t", ";", "// no code\n", "NOP;"};
        const std::string x = u[r.below(6)];
        while (s.size() < bytes)
            s += x;
        s += "\nNOP;\n";
        break;
    }
    case 4: { // one long token
        static const char* u[] = {"a", "0", "1", "A.", "-", "R", "_", "@", ".D", "0x"};
        const std::string x = u[r.below(10)];
        if (r.chance(1, 2))
            s = r.pick(c.vec) + " ";
        while (s.size() < bytes)
            s += x;
        s += r.chance(1, 2) ? ":\nNOP;\n" : ";\n";
        break;
    }
    case 5: // directives
        while (s.size() < bytes / 8)
            s += ".dksh compute\n.num_gprs " + std::to_string(r.below(60)) + "\n";
        s += "NOP;\n";
        break;
    default:
        return gen_huge(r, c);
    }
    if (r.chance(1, 6))
        s += r.pick(c.rejects) + ";\n";
    return s;
}

inline std::string gen_damage(Rng& r, std::string s, std::string& how)
{
    const int n = r.chance(1, 3) ? (int)r.range(2, 4) : 1;
    how.clear();
    static const std::string hot = "+-~|[]@,;.: \t\r\n!PpRrTtZzXx0123456789aAfFeEdDcC\"\\{}()_%$#/*'`<>=&^?\v\f\xff\x80\x7f\x01";
    for (int i = 0; i < n; ++i) {
        if (s.empty())
            s = "\n";
        const size_t at = r.below(s.size());
        const auto note = [&](const std::string& t) { how += (how.empty() ? "" : ", ") + t; };
        switch (r.below(17)) {
        case 14:
        case 15: {
            // a number that became another one
            std::vector<std::pair<size_t, size_t>> nums;
            for (size_t k = 0; k < s.size();) {
                if (!(s[k] >= '0' && s[k] <= '9')) {
                    ++k;
                    continue;
                }
                size_t e = k;
                while (e < s.size() && std::isxdigit((unsigned char)s[e]))
                    ++e;
                if (e == k + 1 && s[k] == '0' && e < s.size() && (s[e] == 'x' || s[e] == 'X')) {
                    ++e;
                    while (e < s.size() && std::isxdigit((unsigned char)s[e]))
                        ++e;
                }
                nums.push_back({k, e - k});
                k = e;
            }
            if (nums.empty())
                break;
            const auto x = r.pick(nums);
            u64 v;
            switch (r.below(4)) {
            case 0: v = r.below(300); break;
            case 1: v = r.next() >> r.below(64); break;
            default: v = ((u64)1 << r.below(64)) + (u64)r.range(-2, 2); break;
            }
            char t[40];
            std::snprintf(t, sizeof t, r.chance(1, 2) ? "0x%llx" : r.chance(1, 12) ? "0%llo" : "%llu", (unsigned long long)v);
            std::string u = t;
            if (r.chance(1, 8))
                u += r.chance(1, 2) ? ".5" : "e30";
            if (r.chance(1, 8))
                u = "-" + u;
            s.replace(x.first, x.second, u);
            note("number " + std::to_string(x.first));
            break;
        }
        case 13: {
            // a token that became as long as a buffer might be: its last character, or another, over and over
            static const std::string fill = "0123456789aAfFxXzZ_.-+:R";
            if (r.chance(1, 2)) {
                // first the kind of token, then one of these, then the place in it
                if (r.chance(1, 4)) {
                    static const char* num[] = {"FADD R0, R1, 2.5;\n", "DADD R0, R2, 1.5;\n", "FMUL32I R0, R1, -0.75;\n", "HADD2 R0, R1, 1.5, 1.5;\n", "MOV32I R0, 0x10;\n", "lab_99: NOP;\n", "TEX.NODEP R0, R1, 0x1, 2D, 0xf;\n", ".num_gprs 8\n", "BRA lab_77;\n", "@!P0 NOP @WAIT 3;\n"};
                    s += num[r.below(10)];
                }
                std::vector<std::pair<size_t, size_t>> kinds[7];
                for (size_t k = 0; k < s.size();) {
                    const size_t b0 = s.find_first_not_of(" ,;\n\t\r[]|@", k);
                    if (b0 == std::string::npos)
                        break;
                    size_t e0 = s.find_first_of(" ,;\n\t\r[]|@", b0);
                    if (e0 == std::string::npos)
                        e0 = s.size();
                    k = e0;
                    const std::string t = s.substr(b0, e0 - b0);
                    const bool digit = t.find_first_of("0123456789") <= 1 && (std::isdigit((unsigned char)t[0]) || t[0] == '-' || t[0] == '+');
                    const int kind = t.back() == ':' ? 0 : digit ? (t.find('.') != std::string::npos ? 1 : 2)
                                     : t.size() > 1 && t[0] == 'R' && std::isdigit((unsigned char)t[1]) ? 3
                                     : t[0] == '.' ? 4 : t.find('.') != std::string::npos ? 5 : 6;
                    kinds[kind].push_back({b0, e0});
                }
                const auto& of = kinds[r.below(7)];
                if (!of.empty()) {
                    const auto x = of[r.below(of.size())];
                    const size_t pos = r.chance(1, 2) ? x.second - (s[x.second - 1] == ':' ? 1 : 0) : x.first + r.below(x.second - x.first + 1);
                    const size_t want = (size_t)edge_size(r, r.chance(1, 10) ? 70000 : r.chance(1, 3) ? 300 : r.chance(1, 3) ? 5000 : 1100);
                    const char ch = pos > 0 && r.chance(1, 2) ? s[pos - 1] : fill[r.below(fill.size())];
                    if (want > x.second - x.first)
                        s.insert(pos, std::string(want - (x.second - x.first), ch));
                    note("long " + std::to_string(pos) + "+" + std::to_string(want));
                    break;
                }
            }
            size_t e = s.find_first_of(" ,;\n\t\r.[]:", at);
            if (e == std::string::npos)
                e = s.size();
            const size_t b = s.find_last_of(" ,;\n\t\r.[]:", e ? e - 1 : 0);
            const size_t have = e - (b == std::string::npos || b >= e ? 0 : b + 1);
            const size_t want = (size_t)edge_size(r, r.chance(1, 10) ? 70000 : 1100);
            const char ch = e > 0 && r.chance(1, 2) ? s[e - 1] : fill[r.below(fill.size())];
            if (want > have)
                s.insert(e, std::string(want - have, ch));
            note("long " + std::to_string(at) + "+" + std::to_string(want));
            break;
        }
        case 0:
            s.resize(at);
            note("cut " + std::to_string(at));
            break;
        case 1:
            s[at] = (char)(s[at] ^ (1 << r.below(8)));
            note("bitflip " + std::to_string(at));
            break;
        case 2:
            s[at] = (char)r.below(256);
            note("byte " + std::to_string(at));
            break;
        case 3:
        case 4:
        case 5:
            s[at] = hot[r.below(hot.size())];
            note("char " + std::to_string(at));
            break;
        case 6: {
            size_t m = 1 + r.below(r.chance(1, 2) ? 3 : 64);
            s.erase(at, m);
            note("lost " + std::to_string(at) + "+" + std::to_string(m));
            break;
        }
        case 7: {
            size_t m = 1 + r.below(r.chance(1, 2) ? 3 : 64);
            std::string t = s.substr(at, m);
            int k = r.chance(1, 8) ? (int)r.range(10, 400) : 1;
            std::string u;
            while (k--)
                u += t;
            s.insert(at, u);
            note("repeated " + std::to_string(at) + "+" + std::to_string(m));
            break;
        }
        case 8: {
            size_t m = 1 + r.below(16), b = r.below(s.size());
            for (size_t k = 0; k < m && at + k < s.size() && b + k < s.size(); ++k)
                std::swap(s[at + k], s[b + k]);
            note("swapped " + std::to_string(at) + " " + std::to_string(b));
            break;
        }
        case 9: {
            size_t m = 1 + r.below(r.chance(1, 2) ? 2 : 32);
            for (size_t k = at; k < at + m && k < s.size(); ++k)
                s[k] = 0;
            note("zeroed " + std::to_string(at) + "+" + std::to_string(m));
            break;
        }
        case 10: {
            std::string t;
            int k = (int)r.range(1, 4);
            while (k--)
                t += hot[r.below(hot.size())];
            s.insert(at, t);
            note("inserted " + std::to_string(at));
            break;
        }
        case 11: {
            // a block of another source
            static const char* frag[] = {"@P0 ", "@!PT ", ".CC", ".reuse", "-c[0x1f][0xfffc]", "|R1|", "0x7fffffffffffffff", "-0x8000000000000000", "999999999999999999999999", "1.0e39", "1.", "+INF", "-QNAN", "a[RZ+0x3ff]", "[R2+-0x800000]", "CC.T", ".PO", ".H0_H0", ".B3", ".X", "P7", "P", "!P", "!", "R255", "RZ", "R", "PT", "lab_0:", ":", "@WAIT 15", "@DEP 5 @DEP 5", "@WB 6", "1D", "2D", "-1D", "ARRAY_CUBE", "SR_TID", ".dksh compute\n", ".num_gprs x\n", "\n.type vertex\n", "0x", "08", "0b1", "//", "// x", "/*", "*/", "#", "\"", "\"a\"", "'a'", "(", "${", "\\\n", "1e", "1e+", "1e-400", "1.5e5000", ".5", "+0", "-0", "-0.0", "NAN", "INF", "0x1p3", "0x1.8p1", "R256", "R00", "R1000000000000", "P8", "c[0x12][0x0]", "c[-1][0]", "c[0][0x10000]", "c[0][R1]", "c[0][", "c[", "a[", "a[]", "[", "[]", "[R]", "[R1", "[R1+", "[R1-4]", "[R1+R2]", "[RZ+RZ]", "[0x10]", "[-0x10]", "SR0", "SR_", "B0", ".dksh ", ".", "..", "@", "@@", "@P", "@P0", "@R0", "@!", "@WAIT", "@WAIT -1", "@WAIT 16", "@YIELD @Y", "@DEP 6", "@RB -1", "@NOTHING", "1-1", "1+", "--5", "NOP", "BRA -", "IADD.PO", "VMAD.PO.SHR_15"};
            std::string t = frag[r.below(sizeof frag / sizeof frag[0])];
            if (r.chance(1, 3))
                s.replace(at, std::min<size_t>(t.size(), s.size() - at), t);
            else
                s.insert(at, (r.chance(1, 2) ? " " : "") + t);
            note("fragment " + std::to_string(at));
            break;
        }
        case 12: {
            // lines swapped, lost or doubled
            size_t a = s.rfind('\n', at), b = s.find('\n', at);
            a = a == std::string::npos ? 0 : a + 1;
            b = b == std::string::npos ? s.size() : b + 1;
            if (b <= a)
                break;
            std::string t = s.substr(a, b - a);
            if (r.chance(1, 2))
                s.erase(a, b - a);
            else
                s.insert(r.chance(1, 2) ? a : 0, t);
            note("line " + std::to_string(a));
            break;
        }
        default: {
            // one token replaced by another of the same text
            std::vector<std::pair<size_t, size_t>> tk;
            size_t b = 0;
            while (b < s.size()) {
                size_t e = s.find_first_of(" ,;\n\t\r.", b);
                if (e == std::string::npos)
                    e = s.size();
                if (e > b)
                    tk.push_back({b, e - b});
                b = e + 1;
            }
            if (tk.size() < 2)
                break;
            auto x = r.pick(tk), y = r.pick(tk);
            std::string t = s.substr(y.first, y.second);
            s.replace(x.first, x.second, t);
            note("token " + std::to_string(x.first));
            break;
        }
        }
    }
    if (how.empty())
        how = "none";
    return s;
}

// ---------------------------------------------------------------------------------------------
// Reference model: an independent, trivial assembler for the texts the generator emits. Encodings
// come from the project's own test vectors; layout (bundles, scheduling words, padding, branch
// displacements) is computed here. Returns nothing when the source uses a text it does not know.
// ---------------------------------------------------------------------------------------------
struct ModelImage
{
    bool dksh = false;
    std::vector<u64> code;
};

inline std::string collapse(const std::string& s)
{
    std::string o;
    for (char ch : s) {
        if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') {
            if (!o.empty() && o.back() != ' ')
                o += ' ';
        } else {
            o += ch;
        }
    }
    while (!o.empty() && o.back() == ' ')
        o.pop_back();
    return o;
}

inline std::optional<ModelImage> model_image(const Corpus& c, const std::string& src)
{
    struct Ins
    {
        u64 code = 0;
        std::string target;
        u64 sched = 0;
    };
    ModelImage m;
    std::vector<Ins> ins;
    std::map<std::string, size_t> labels;
    std::string cur;
    size_t i = 0;
    std::string text = src;
    // options first
    while (i < text.size() && text[i] == '.') {
        size_t e = text.find('\n', i);
        if (e == std::string::npos)
            return {};
        std::string l = text.substr(i, e - i);
        if (l == ".dksh compute")
            m.dksh = true;
        else if (l != ".type compute" && l.rfind(".workgroup_size ", 0) && l.rfind(".shared_memory ", 0) && l.rfind(".local_memory ", 0))
            return {};
        i = e + 1;
    }
    while (i < text.size()) {
        size_t e = text.find(';', i);
        std::string raw = text.substr(i, e == std::string::npos ? e : e - i);
        std::string st = collapse(raw);
        // labels
        for (;;) {
            size_t k = st.find(':');
            if (k == std::string::npos)
                break;
            std::string name = st.substr(0, k);
            if (name != "main" && name.rfind("lab_", 0))
                return {};
            labels.emplace(name, ins.size());
            st = collapse(st.substr(k + 1));
            if (!st.empty() && st[0] == ' ')
                st = st.substr(1);
        }
        if (e == std::string::npos) {
            if (!st.empty())
                return {};
            break;
        }
        i = e + 1;
        // scheduling suffixes
        u64 stall = 0, yield = 0, wb = 7, rb = 7, wait = 0;
        Ins n;
        size_t at = st.find(" @");
        std::string body = st.substr(0, at);
        if (at != std::string::npos) {
            std::istringstream ss(st.substr(at));
            std::string w;
            while (ss >> w) {
                int v = 0;
                if (w == "@WAIT") { ss >> v; stall = (u64)v; }
                else if (w == "@WB") { ss >> v; wb = (u64)v; }
                else if (w == "@RB") { ss >> v; rb = (u64)v; }
                else if (w == "@DEP") { ss >> v; wait |= 1ULL << v; }
                else if (w == "@Y" || w == "@YIELD") yield = 1;
                else return {};
            }
        }
        n.sched = stall | yield << 4 | wb << 5 | rb << 8 | wait << 11;
        if (body.rfind("BRA lab_", 0) == 0) {
            n.target = body.substr(4);
            n.code = 0xE24000000007000FULL;
        } else {
            auto it = c.code.find(body);
            if (it == c.code.end()) {
                std::string b2;
                for (size_t q = 0; q < body.size(); ++q) {
                    b2 += body[q];
                    if (body[q] == ',' && q + 1 < body.size() && body[q + 1] != ' ')
                        b2 += ' ';
                }
                it = c.code.find(b2);
                if (it == c.code.end())
                    return {};
            }
            if (body.find(".reuse") != std::string::npos)
                return {};
            n.code = it->second;
        }
        ins.push_back(n);
    }
    const auto addr = [](size_t k) { return (i64)(8 + (k / 3) * 32 + (k % 3) * 8); };
    for (size_t k = 0; k < ins.size(); ++k) {
        if (k % 3 == 0) {
            u64 w = 0;
            for (size_t a = 0; a < 3; ++a)
                w |= (k + a < ins.size() ? ins[k + a].sched : 0x7E0ULL) << (21 * a);
            m.code.push_back(w);
        }
        u64 v = ins[k].code;
        if (!ins[k].target.empty()) {
            auto it = labels.find(ins[k].target);
            if (it == labels.end())
                return {};
            i64 d = addr(it->second) - addr(k) - 8;
            v |= ((u64)d & 0x7FFFFFULL) << 20;
            if (d < 0)
                v |= 1ULL << 43;
        }
        m.code.push_back(v);
    }
    while (m.code.size() % 4)
        m.code.push_back(0x50B0000000070F00ULL);
    return m;
}

// Is `img` (raw bytes) consistent with the model?
inline bool model_accepts(const ModelImage& m, const std::string& img)
{
    std::string code((const char*)m.code.data(), m.code.size() * 8);
    if (!m.dksh)
        return img == code;
    return img.size() >= 256 + code.size() && img.compare(0, 4, "DKSH") == 0 && img.compare(256, code.size(), code) == 0;
}
