// Small property-testing runtime: choice-sequence generators, isolated workers,
// shrinking, replay files and coverage accounting.
//
// Every random decision of a case goes through Src::draw; the recorded sequence of
// draws *is* the case.  Shrinking edits that sequence; a replay file stores it.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <stdexcept>
#include <sstream>
#include <cmath>
#include <cstring>

namespace vh
{
inline uint64_t mix64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) {
        h ^= c[i];
        h *= 1099511628211ull;
    }
    return h;
}
inline uint64_t fnvs(const std::string &s) { return fnv(s.data(), s.size()); }

struct Src
{
    uint64_t state = 0;
    bool replaying = false;
    std::vector<uint64_t> input; // when replaying
    std::vector<uint64_t> rec;
    size_t pos = 0;
    int size = 50; // 0..100 growth hint

    // uniform in [0, n); n == 0 means full 64 bit range
    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if (replaying) {
            v = pos < input.size() ? input[pos] : 0;
            if (n && v >= n)
                v = n - 1;
        } else {
            state += 0x9e3779b97f4a7c15ull;
            v = mix64(state);
            if (n)
                v = (uint64_t)(((unsigned __int128)v * n) >> 64);
        }
        ++pos;
        rec.push_back(v);
        return v;
    }
    // integer in [lo, hi]; shrinks towards lo
    int64_t i(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo) + 1); }
    // integer in [lo, hi] that shrinks towards `to`
    int64_t ito(int64_t lo, int64_t hi, int64_t to)
    {
        uint64_t v = draw((uint64_t)(hi - lo) + 1);
        // order: to, to+1, to-1, ...
        int64_t up = hi - to, dn = to - lo;
        int64_t m = std::min(up, dn);
        if ((int64_t)v <= 2 * m)
            return (v & 1) ? to + (int64_t)((v + 1) / 2) : to - (int64_t)(v / 2);
        int64_t k = (int64_t)v - 2 * m;
        return up > dn ? to + m + k : to - m - k;
    }
    bool chance(int num, int den) { return draw(den) >= (uint64_t)(den - num); } // 0 -> false
    bool b() { return draw(2) != 0; }
    double unit() { return (double)draw(1ull << 53) / (double)(1ull << 53); }
    double f(double lo, double hi) { return lo + (hi - lo) * unit(); }
    template<class T>
    const T &pick(const std::vector<T> &v)
    {
        return v[draw(v.size())];
    }
    template<class T>
    T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + draw(l.size()));
    }
    // small-biased count in [lo, hi], scaled with the case size
    int count(int lo, int hi)
    {
        int span = hi - lo;
        int top = lo + std::max(span > 0 ? 1 : 0, (int)((int64_t)span * size / 100));
        if (chance(1, 8))
            top = hi;
        if (top > hi)
            top = hi;
        return (int)i(lo, top);
    }
    std::vector<uint8_t> bytes(int n)
    {
        std::vector<uint8_t> r(n);
        for (auto &x : r)
            x = (uint8_t)draw(256);
        return r;
    }
    int32_t i32()
    {
        switch (draw(6)) {
            case 0: return (int32_t)i(0, 10);
            case 1: return (int32_t)-i(0, 10);
            case 2: return (int32_t)ito(-32768, 32767, 0);
            case 3: return pick<int32_t>({INT32_MAX, INT32_MIN, -1, 32767, 32768, 65535, 65536, -32768, -32769});
            default: return (int32_t)(uint32_t)draw(1ull << 32);
        }
    }
    float f32()
    {
        switch (draw(5)) {
            case 0: return (float)ito(-16, 16, 0);
            case 1: return (float)ito(-4096, 4096, 0);
            case 2: return (float)f(-4096, 4096);
            case 3: return (float)f(-1, 1);
            default: return (float)(f(-1, 1) * std::pow(10.0, (double)ito(-6, 6, 0)));
        }
    }
};

struct Failure
{
    std::string key; // stable identifier of what fails (used for known findings)
    std::string msg;
};
struct Discard
{
};

struct Case
{
    Src s;
    bool nontrivial = false;
    uint64_t sig = 0;
    std::string desc;
    std::vector<std::string> labels;
    std::string scratch; // per-worker scratch directory (exists, emptied between cases)
    bool thorough = false;
    char *live = nullptr; // copy of the description that survives a crash
    void label(const std::string &l) { labels.push_back(l); }
    void nt(bool v = true) { nontrivial = nontrivial || v; }
    void describe(const std::string &d)
    {
        if (desc.size() < 1500)
            desc += (desc.empty() ? "" : "; ") + d;
        if (live)
            snprintf(live, 4096, "%s", desc.c_str());
    }
    [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Failure{key, msg}; }
    void require(bool ok, const std::string &key, const std::string &msg = "")
    {
        if (!ok)
            throw Failure{key, msg};
    }
    template<class F>
    void requiref(bool ok, const std::string &key, F &&mk)
    {
        if (!ok)
            throw Failure{key, mk()};
    }
};

struct Sub
{
    const char *name;
    std::function<void(Case &)> fn;
    int64_t quick;
    int64_t thorough;
    // failing runs only reproduce under some thread schedules: accept one
    // reproduction out of many instead of three out of three
    bool schedule = false;
    int cpu_limit = 60; // seconds of CPU per case before it counts as not terminating
    // the code under test may end the process with exit(non-zero): a clean rejection
    bool exit_ok = false;
};

template<class... A>
std::string cat(const A &...a)
{
    std::ostringstream o;
    o.precision(17);
    ((o << a), ...);
    return o.str();
}

std::string hexs(const std::vector<uint8_t> &v, size_t max = 64);

// provided by vh.cc
int main_impl(int argc, char **argv, const char *property, const char *rule, const std::vector<Sub> &subs,
    const std::vector<std::string> &assumptions);
// number of worker processes in use (for harnesses that start threads themselves)
} // namespace vh

#define VH_MAIN(PROP, RULE, ASSUME, ...)                                                                               \
    int main(int argc, char **argv)                                                                                    \
    {                                                                                                                  \
        std::vector<vh::Sub> subs{__VA_ARGS__};                                                                        \
        return vh::main_impl(argc, argv, PROP, RULE, subs, ASSUME);                                                    \
    }
