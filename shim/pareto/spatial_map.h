// Minimal stand-in for alandefreitas/pareto (submodule not present in this
// sandbox).  Only the part ericw-tools uses: emplace, find_intersection over a
// closed box, end.  Entries are ordered by their last coordinate so that a box
// query is a range scan.
#pragma once
#include <array>
#include <cstddef>
#include <initializer_list>
#include <map>
#include <utility>

namespace pareto
{
template<class T, size_t N>
struct point
{
    std::array<T, N> v{};
    point() = default;
    point(std::initializer_list<T> l)
    {
        size_t i = 0;
        for (auto x : l) {
            if (i < N)
                v[i++] = x;
        }
    }
    const T &operator[](size_t i) const { return v[i]; }
};

template<class T, size_t N, class V>
class spatial_map
{
    struct entry
    {
        point<T, N> first;
        V second;
    };
    std::multimap<T, entry> data;

public:
    class iterator
    {
        friend class spatial_map;
        typename std::multimap<T, entry>::iterator it;

    public:
        bool operator==(const iterator &o) const { return it == o.it; }
        bool operator!=(const iterator &o) const { return it != o.it; }
        entry *operator->() const { return &it->second; }
        entry &operator*() const { return it->second; }
    };
    void emplace(const point<T, N> &p, const V &v) { data.emplace(p[N - 1], entry{p, v}); }
    iterator end()
    {
        iterator r;
        r.it = data.end();
        return r;
    }
    iterator find_intersection(const point<T, N> &lo, const point<T, N> &hi)
    {
        iterator r;
        for (r.it = data.lower_bound(lo[N - 1]); r.it != data.end() && !(hi[N - 1] < r.it->first); ++r.it) {
            bool ok = true;
            for (size_t i = 0; i < N; ++i) {
                const T &x = r.it->second.first[i];
                if (x < lo[i] || hi[i] < x)
                    ok = false;
            }
            if (ok)
                return r;
        }
        return end();
    }
    void clear() { data.clear(); }
    bool empty() const { return data.empty(); }
    size_t size() const { return data.size(); }
};
} // namespace pareto
