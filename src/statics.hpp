// The static variables of the library, for harnesses which need them as they are in a process that has just started.
#pragma once
#include <elf.h>
#include <set>
#include "jn.hpp"
namespace jav {
struct Statics {
    std::vector<std::pair<char *, std::string>> v;
    // harness: how the names of the harness's own sources begin
    explicit Statics(const std::string &harness, const std::function<bool(const std::string &)> &wanted = [](const std::string &) { return true; }) {
        FILE *f = fopen("/proc/self/exe", "rb"); if (!f) return; std::string s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
        auto *h = (Elf64_Ehdr *)s.data(); auto *sec = (Elf64_Shdr *)(s.data() + h->e_shoff); if (h->e_type != ET_EXEC) return;
        for (int i = 0; i < h->e_shnum; i++) if (sec[i].sh_type == SHT_SYMTAB) {
            auto *sym = (Elf64_Sym *)(s.data() + sec[i].sh_offset); const char *names = s.data() + sec[sec[i].sh_link].sh_offset; bool mine = false;
            for (size_t k = 0; k < sec[i].sh_size / sizeof *sym; k++) {
                int type = ELF64_ST_TYPE(sym[k].st_info); std::string name = names + sym[k].st_name;
                if (type == STT_FILE) { size_t dot = name.rfind('.'); std::string end = dot == std::string::npos ? "" : name.substr(dot); mine = (end == ".c" || end == ".cpp") && name.compare(0, harness.size(), harness) && name.compare(0, 7, "mcsched") && name.compare(0, 3, "crt") && wanted(name); continue; }
                bool local = ELF64_ST_BIND(sym[k].st_info) == STB_LOCAL;
                bool java = name.compare(0, 2, "_Z") == 0 && (name.find("4Java") != std::string::npos || name.find("5Javax") != std::string::npos || name.find("6moody") != std::string::npos || name.find("9libcuckoo") != std::string::npos);
                if (!(local && mine) && !java) continue;
                if (type != STT_OBJECT || !sym[k].st_size || sym[k].st_shndx == SHN_UNDEF || sym[k].st_shndx >= h->e_shnum || !(sec[sym[k].st_shndx].sh_flags & SHF_WRITE) || name.compare(0, 3, "_ZT") == 0) continue;
                v.push_back({(char *)sym[k].st_value, std::string((char *)sym[k].st_value, sym[k].st_size)});
            }
        }
    }
    void restore() { for (auto &x : v) for (size_t i = 0; i < x.second.size(); i++) ((volatile char *)x.first)[i] = x.second[i]; }
};
}  // namespace jav
