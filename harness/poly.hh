// convex polygons and bodies in double precision, independent of the code under test
#pragma once
#include "vh.hh"
#include <algorithm>
#include <array>
#include <optional>
namespace pg
{
using V = std::array<double, 3>;
inline V operator+(V a, V b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
inline V operator-(V a, V b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V operator*(V a, double f) { return {a[0] * f, a[1] * f, a[2] * f}; }
inline double dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V cross(V a, V b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double len(V a) { return std::sqrt(dot(a, a)); }
inline V unit(V a) { return a * (1 / len(a)); }
inline std::string str(V a) { return vh::cat("(", a[0], " ", a[1], " ", a[2], ")"); }
template<typename T>
V vec(const T &t)
{
    return {(double)t[0], (double)t[1], (double)t[2]};
}
struct Plane
{
    V n{};
    double d = 0;
    double at(V p) const { return dot(n, p) - d; }
    Plane operator-() const { return {n * -1, -d}; }
};
inline bool same(const Plane &a, const Plane &b) { return dot(a.n, b.n) > 1 - 1e-7 && std::fabs(a.d - b.d) < 1e-4; }
using Poly = std::vector<V>;
inline Poly cut(const Poly &p, const Plane &pl) // the part behind
{
    Poly r;
    for (size_t i = 0; i < p.size(); ++i) {
        V a = p[i], b = p[(i + 1) % p.size()];
        double x = pl.at(a), y = pl.at(b);
        if (std::fabs(x) < 1e-7)
            x = 0;
        if (std::fabs(y) < 1e-7)
            y = 0;
        if (x <= 0)
            r.push_back(a);
        if ((x < 0 && y > 0) || (x > 0 && y < 0))
            r.push_back(a + (b - a) * (x / (x - y)));
    }
    return r.size() >= 3 ? r : Poly{};
}
inline double area(const Poly &p)
{
    V a{};
    for (size_t i = 1; i + 1 < p.size(); ++i)
        a = a + cross(p[i] - p[0], p[i + 1] - p[0]);
    return len(a) / 2;
}
inline double width(const Poly &p) // about
{
    double l = 1e-9;
    for (size_t k = 0; k < p.size(); ++k)
        l = std::max(l, len(p[(k + 1) % p.size()] - p[k]));
    return area(p) / l;
}
inline V mid(const Poly &p)
{
    V r{};
    for (auto &q : p)
        r = r + q * (1.0 / p.size());
    return r;
}
// a big polygon on a plane, clockwise seen from its front
inline Poly base(const Plane &p, double L = 8192)
{
    int k = std::fabs(p.n[2]) > 0.5 ? 0 : 2;
    V up{};
    up[k] = 1;
    V u = unit(cross(up, p.n)), v = cross(p.n, u);
    V o = p.n * p.d;
    return {o - u * L - v * L, o - u * L + v * L, o + u * L + v * L, o + u * L - v * L};
}
// distance from an inner point to the polygon's edges, negative outside
inline double inset(const Poly &p, V n, V q, double shortest = 1e-6)
{
    double r = 1e9;
    for (size_t k = 0; k < p.size(); ++k) {
        V e = p[(k + 1) % p.size()] - p[k];
        double l = len(e);
        if (l < shortest)
            continue;
        // clockwise seen from the front: the inside is on the right
        V in = cross(n, e) * (-1 / l);
        r = std::min(r, dot(in, q - p[k]));
    }
    return r;
}
// distance to the nearest edge, negative outside; for polygons of any shape
inline double within(const Poly &p, V n, V q)
{
    int k = std::fabs(n[0]) > std::fabs(n[1]) && std::fabs(n[0]) > std::fabs(n[2]) ? 0 : std::fabs(n[1]) > std::fabs(n[2]) ? 1 : 2;
    int a = (k + 1) % 3, b = (k + 2) % 3;
    bool in = false;
    double r = 1e9;
    for (size_t i = 0; i < p.size(); ++i) {
        V u = p[i], v = p[(i + 1) % p.size()];
        if ((u[b] > q[b]) != (v[b] > q[b]) && q[a] < u[a] + (v[a] - u[a]) * (q[b] - u[b]) / (v[b] - u[b]))
            in = !in;
        V d = v - u;
        double l = dot(d, d), t = l > 0 ? std::clamp(dot(q - u, d) / l, 0.0, 1.0) : 0;
        r = std::min(r, len(q - u - d * t));
    }
    return in ? r : -r;
}
// a convex body by its outward planes
struct Body
{
    std::vector<Plane> pl;
    std::vector<Poly> faces() const
    {
        std::vector<Poly> r;
        for (auto &p : pl) {
            Poly w = base(p);
            for (auto &q : pl)
                if (&q != &p && !w.empty())
                    w = cut(w, q);
            r.push_back(w);
        }
        return r;
    }
    bool in(V p, double eps) const
    {
        for (auto &q : pl)
            if (q.at(p) > eps)
                return false;
        return true;
    }
    bool empty() const
    {
        for (auto &f : faces())
            if (!f.empty())
                return false;
        return true;
    }
};
inline Body box(V lo, V hi)
{
    Body b;
    for (int k = 0; k < 3; ++k) {
        V n{};
        n[k] = 1;
        b.pl.push_back({n, hi[k]});
        b.pl.push_back({n * -1, -lo[k]});
    }
    return b;
}
// a point inside, drawn
inline V inside(vh::Src &s, const std::vector<Poly> &faces)
{
    V r{};
    double t = 0;
    for (auto &f : faces)
        for (auto &q : f) {
            double k = 0.01 + (double)s.draw(1000) / 1000;
            r = r + q * k;
            t += k;
        }
    return r * (1 / t);
}
inline V inside(vh::Src &s, const Poly &f) { return inside(s, std::vector<Poly>{f}); }
// does the segment meet the body grown by g?
inline bool hits(const Body &b, V p, V q, double g)
{
    double t0 = 0, t1 = 1;
    for (auto &pl : b.pl) {
        double x = pl.at(p) - g, y = pl.at(q) - g;
        if (x > 0 && y > 0)
            return false;
        if (x <= 0 && y <= 0)
            continue;
        double t = x / (x - y);
        if (x > 0)
            t0 = std::max(t0, t);
        else
            t1 = std::min(t1, t);
    }
    return t0 <= t1;
}
}
