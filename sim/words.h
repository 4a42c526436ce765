// Strings of the code under test itself: names it might look up in the environment, words it might
// compare a variable's value or the program's name with.
#pragma once
#include <elf.h>
#include <filesystem>

#include "common.h"

static std::vector<std::string> own_names, own_words;

static void harvest(const std::string& dir, const Corpus& corpus)
{
    std::set<std::string> names, words;
    for (auto& e : std::filesystem::recursive_directory_iterator(dir)) {
        if (e.path().extension() != ".o" || e.path().string().find("/src/") == std::string::npos)
            continue;
        const std::string o = slurp(e.path().string());
        Elf64_Ehdr h;
        if (o.size() < sizeof h)
            continue;
        std::memcpy(&h, o.data(), sizeof h);
        for (int i = 0; i < h.e_shnum; ++i) {
            Elf64_Shdr s;
            if (h.e_shoff + (u64)(i + 1) * sizeof s > o.size())
                break;
            std::memcpy(&s, o.data() + h.e_shoff + (u64)i * sizeof s, sizeof s);
            if (s.sh_type != SHT_PROGBITS || !(s.sh_flags & SHF_STRINGS) || s.sh_entsize != 1 || !(s.sh_flags & SHF_ALLOC) || s.sh_offset + s.sh_size > o.size())
                continue;
            for (u64 k = 0; k < s.sh_size;) {
                const std::string cur(o.c_str() + s.sh_offset + k);
                k += cur.size() + 1;
                bool name = cur.size() >= 3, word = cur.size() >= 2;
                for (unsigned char ch : cur) {
                    name &= std::isalnum(ch) || ch == '_';
                    word &= ch > ' ' && ch < 127 && ch != '%';
                }
                if (cur.size() > 40)
                    continue;
                if (name && !std::isdigit((unsigned char)cur[0]))
                    names.insert(cur);
                if (word && !(cur.size() == 5 && cur.compare(0, 2, "SR") == 0))
                    words.insert(cur);
            }
        }
    }
    // the language of the sources is left out
    std::set<std::string> known;
    const auto learn = [&](const std::string& t) {
        std::string cur;
        for (char ch : t + " ")
            if (std::isalnum((unsigned char)ch) || ch == '_')
                cur += ch;
            else {
                known.insert(cur);
                cur.clear();
            }
    };
    for (auto& t : corpus.vec)
        learn(t);
    for (auto& t : corpus.extra)
        learn(t);
    own_names.assign(names.begin(), names.end());
    for (auto& w : words) {
        const size_t dot = w.find_first_not_of(".");
        if (!known.count(dot == std::string::npos ? w : w.substr(dot)))
            own_words.push_back(w);
    }
}
