// Native side of the harness API: runs the real code on recorded inputs.
#define IRSYM_NATIVE 1
#include "sym.hpp"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <vector>
#include <unistd.h>
namespace {
std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> m; return m; }
std::map<std::string, std::uint64_t> in; std::map<std::string, int> occ; std::map<std::string, int> par;
std::string nm(const char* n) { return std::string(n) + "#" + std::to_string(occ[n]++); }
}
irsym_native::Reg::Reg(const char* n, void (*f)()) { reg()[n] = f; }
extern "C" {
std::uint64_t irsym_bits(const char* name, int n) { auto it = in.find(nm(name)); std::uint64_t v = it == in.end() ? 0 : it->second; return n >= 64 ? v : v & ((std::uint64_t(1) << n) - 1); }
void irsym_bytes(void* p, std::size_t n, const char* name) { std::string b = n ? nm(name) : ""; for (std::size_t i = 0; i < n; ++i) { auto it = in.find(b + "[" + std::to_string(i) + "]"); ((unsigned char*)p)[i] = it == in.end() ? 0 : (unsigned char)it->second; } }
void irsym_assume(bool c) { if (!c) { std::printf("ASSUME-FALSE\n"); std::fflush(stdout); _exit(67); } }
void irsym_check(bool c, const char* m) { if (!c) { std::printf("CHECK-FAILED: %s\n", m); std::fflush(stdout); _exit(66); } }
void irsym_fail(const char* m) { std::printf("CHECK-FAILED: %s\n", m); std::fflush(stdout); _exit(66); }
void irsym_cover(const char*) {}
void irsym_observe(const char* n, std::uint64_t v) { std::printf("OBS %s %llx\n", n, (unsigned long long)v); }
std::uint64_t irsym_concretize(std::uint64_t v) { return v; }
int irsym_param(const char* n, int d) { auto it = par.find(n); return it == par.end() ? d : it->second; }
void irsym_stop() { std::printf("DONE\n"); std::fflush(stdout); _exit(0); }
void irsym_print(const char* n, std::uint64_t v) { std::fprintf(stderr, "%s = %llu\n", n, (unsigned long long)v); }
std::uint64_t irsym_live_heap() { return 0; }
}
int main(int argc, char** argv)
{
    // file: lines "entry NAME", "param NAME VALUE", "in NAME HEX"
    FILE* f = std::fopen(argv[1], "r"); if (!f) return 99; char k[32], a[512]; unsigned long long v; std::string entry;
    char line[2048]; while (std::fgets(line, sizeof line, f)) {
        if (std::sscanf(line, "entry %511s", a) == 1) entry = a;
        else if (std::sscanf(line, "param %511s %lld", a, (long long*)&v) == 2) par[a] = (int)v;
        else if (std::sscanf(line, "in %511s %llx", a, &v) == 2) in[a] = v; }
    std::fclose(f); (void)k; (void)argc;
    auto it = reg().find(entry); if (it == reg().end()) { std::fprintf(stderr, "no entry %s\n", entry.c_str()); return 98; }
    it->second(); std::printf("DONE\n"); std::fflush(stdout); _exit(0);
}

#include <archon/core/terminate.hpp>
// used only when the unit does not link archon/core/terminate.cpp
__attribute__((weak)) void archon::core::impl::do_terminate(const char* message, const char* file, long line, archon::core::Span<const archon::core::impl::TerminateVal2>) noexcept
{
    std::fprintf(stderr, "Assertion: %s at %s:%ld\n", message, file, line);
    std::abort();
}
