// Bounded search for concrete failing inputs: case generator plumbing.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <type_traits>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>

namespace vs {

struct Rng
{
    std::uint64_t s;
    explicit Rng(std::uint64_t seed) : s(seed) {}
    std::uint64_t u64()
    {
        std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    int in(int a, int b) { return a + (int)(u64() % (std::uint64_t)((std::int64_t)b - a + 1)); }
    bool p(int num, int den) { return (int)(u64() % den) < num; }
    double unit() { return (u64() >> 11) * (1.0 / 9007199254740992.0); }
    template<typename T> T const & pick(std::vector<T> const & v) { return v[u64() % v.size()]; }
};

// a generator whose next outputs include extreme ones (every value it may legitimately produce)
template<typename G> auto spice_(G & g, Rng & r, int) -> decltype(g.RESp()[g.index], void())
{
    g();
    using V = std::remove_reference_t<decltype(g.RESp()[0])>;
    std::size_t const n = sizeof (g.aRES) / sizeof (V) - 64 / sizeof (V);
    for (std::size_t i = 0; i < n; ++i)
        if (r.p(1, 6))
        {
            unsigned const y = r.p(1, 2) ? 0xffffffffu - (r.p(1, 2) ? 0 : r.in(0, 300)) : (r.p(1, 2) ? 0 : r.in(0, 3));
            if constexpr (std::is_floating_point_v<V>) g.RESp()[i] = V((y + 0.5) / 4294967296.0); else g.RESp()[i] = y;
        }
}
template<typename G> void spice_(G &, Rng &, long) {}
template<typename G> void spice(G & g, Rng & r) { if (r.p(1, 3)) spice_(g, r, 0); }

struct Fail { std::string msg; };

[[noreturn]] inline void fail(char const * fmt, ...)
{
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    throw Fail{buf};
}

using Case = std::function<void(Rng &)>;
// property -> list of (name, generator)
using Table = std::map<std::string, std::vector<std::pair<std::string, Case>>>;

inline int main_(int argc, char ** argv, Table const & table)
{
    std::string prop; std::uint64_t seed = 1, one = ~0ULL; double secs = 5; std::string prog;
    std::uint64_t maxc = ~0ULL;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i];
        if (a == "--prop") prop = argv[i + 1];
        else if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--time") secs = atof(argv[i + 1]);
        else if (a == "--case") one = strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--max") maxc = strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--progress") prog = argv[i + 1];
    }
    auto it = table.find(prop);
    if (it == table.end() || it->second.empty()) { printf("NOGEN\n"); return 0; }
    auto const & gens = it->second;
    // current case, readable after a crash of this process
    volatile std::uint64_t * cur = nullptr; std::uint64_t dummy[2];
    if (!prog.empty())
    {
        int fd = open(prog.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, 16) == 0)
            cur = (std::uint64_t *)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    if (!cur || cur == MAP_FAILED) cur = dummy;
    auto t0 = std::chrono::steady_clock::now();
    std::uint64_t n = 0;
    std::map<std::string, std::uint64_t> counts;
    for (std::uint64_t c = (one == ~0ULL ? 0 : one); ; ++c)
    {
        if (one == ~0ULL)
        {
            if (c >= maxc) break;
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        }
        cur[0] = c; cur[1] = 1;
        auto const & g = gens[c % gens.size()];
        Rng rng(seed * 0x100000001b3ULL + c * 0x9e3779b97f4a7c15ULL + 12345);
        try
        {
            g.second(rng);
        }
        catch (Fail const & f)
        {
            printf("FAIL property=%s generator=%s seed=%llu case=%llu: %s\n", prop.c_str(), g.first.c_str(),
                (unsigned long long)seed, (unsigned long long)c, f.msg.c_str());
            return 3;
        }
        catch (std::exception const & e)
        {
            printf("FAIL property=%s generator=%s seed=%llu case=%llu: unexpected exception: %s\n", prop.c_str(), g.first.c_str(),
                (unsigned long long)seed, (unsigned long long)c, e.what());
            return 3;
        }
        ++n; ++counts[g.first];
        if (one != ~0ULL) break;
    }
    cur[1] = 0;
    printf("OK cases=%llu", (unsigned long long)n);
    for (auto const & [k, v] : counts) printf(" %s=%llu", k.c_str(), (unsigned long long)v);
    printf("\n");
    return 0;
}

}
