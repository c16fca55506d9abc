// Small BSPs holding convex faces, for the harnesses that work on faces.
#pragma once
#include "vh.hh"
#include <common/bspfile.hh>
#include <common/bsputils.hh>
#include <algorithm>

namespace mg
{
struct IV
{
    int64_t x, y;
};
// convex hull of random grid points, counter-clockwise in (a, b); at least 3 corners
inline std::vector<IV> convex(vh::Src &s, int lo, int hi)
{
    for (int tries = 0;; ++tries) {
        int n = (int)s.i(3, 7);
        std::vector<IV> p(n);
        for (auto &q : p) {
            q.x = s.i(lo, hi);
            q.y = s.i(lo, hi);
        }
        if (tries > 20)
            p = {{lo, lo}, {hi, lo}, {hi, hi}, {lo, hi}};
        std::sort(p.begin(), p.end(), [](const IV &a, const IV &b) { return a.x != b.x ? a.x < b.x : a.y < b.y; });
        std::vector<IV> h;
        auto cr = [](IV o, IV a, IV b) { return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x); };
        for (int pass = 0; pass < 2; ++pass) {
            size_t base = h.size();
            for (auto &q : p) {
                while (h.size() >= base + 2 && cr(h[h.size() - 2], h.back(), q) <= 0)
                    h.pop_back();
                h.push_back(q);
            }
            h.pop_back();
            std::reverse(p.begin(), p.end());
        }
        if (h.size() >= 3)
            return h;
    }
}

struct Frame
{
    qvec3d o, u, v, n; // u x v points along +n
};
// a plane with an integer frame: axial (all six facings) or tilted
inline Frame frame(vh::Src &s, bool axial_only = false)
{
    static const int nrm[][3] = {{0, 0, 1}, {0, 0, -1}, {0, 1, 0}, {0, -1, 0}, {1, 0, 0}, {-1, 0, 0}, {1, 1, 0},
        {-1, 1, 0}, {1, 0, -1}, {0, 1, 1}, {1, 1, 1}, {-1, -1, 1}, {1, 2, 0}, {2, -1, 3}, {-1, 3, -2}, {0, -3, 4},
        {3, 0, 1}, {-5, 1, 1}};
    const int *k = nrm[s.draw(axial_only ? 6 : 18)];
    qvec3d n(k[0], k[1], k[2]);
    qvec3d u;
    if (k[0] == 0 && k[1] == 0)
        u = {1, 0, 0};
    else
        u = {(double)-k[1], (double)k[0], 0};
    // reduce
    double g = std::max(1.0, (double)std::__gcd(std::abs((int)u[0]), std::abs((int)u[1])));
    u = u * (1 / g);
    qvec3d v = qv::cross(n, u);
    double g2 = std::max(1, std::__gcd(std::__gcd(std::abs((int)v[0]), std::abs((int)v[1])), std::abs((int)v[2])));
    v = v * (1 / g2);
    Frame f;
    f.u = u;
    f.v = v;
    f.n = qv::normalize(n);
    f.o = qvec3d(s.ito(-300, 300, 0), s.ito(-300, 300, 0), s.ito(-300, 300, 0));
    return f;
}

struct Builder
{
    mbsp_t m;
    std::vector<qvec3f> pool;
    Builder()
    {
        m.dedges.push_back({0, 0});
    }
    int vertex(const qvec3f &p)
    {
        for (size_t i = 0; i < m.dvertexes.size(); ++i)
            if (m.dvertexes[i] == p)
                return (int)i;
        m.dvertexes.push_back(p);
        return (int)m.dvertexes.size() - 1;
    }
    int plane(const qvec3d &n, double d)
    {
        dplane_t pl{};
        pl.normal = qvec3f(n);
        pl.dist = (float)d;
        pl.type = std::fabs(n[0]) == 1 ? 0 : std::fabs(n[1]) == 1 ? 1 : std::fabs(n[2]) == 1 ? 2 : 3;
        m.dplanes.push_back(pl);
        return (int)m.dplanes.size() - 1;
    }
    // points clockwise seen from the front (the side n points to)
    int face(vh::Src &s, const std::vector<qvec3f> &pts, const qvec3d &n, int texinfo, bool share_edges = true)
    {
        bool flip = s.b();
        mface_t f{};
        double d = qv::dot(qvec3d(pts[0]), n);
        f.planenum = plane(flip ? -n : n, flip ? -d : d);
        f.side = flip;
        f.texinfo = texinfo;
        f.lightofs = -1;
        f.styles.fill(255);
        f.firstedge = (int)m.dsurfedges.size();
        f.numedges = (int)pts.size();
        std::vector<uint32_t> vi;
        for (auto &p : pts)
            vi.push_back(vertex(p));
        for (size_t i = 0; i < vi.size(); ++i) {
            uint32_t a = vi[i], b = vi[(i + 1) % vi.size()];
            int found = 0;
            if (share_edges)
                for (size_t e = 1; e < m.dedges.size() && !found; ++e)
                    if (m.dedges[e][0] == b && m.dedges[e][1] == a)
                        found = -(int)e;
            if (!found) {
                if (s.b()) {
                    m.dedges.push_back({a, b});
                    found = (int)m.dedges.size() - 1;
                } else {
                    m.dedges.push_back({b, a});
                    found = -((int)m.dedges.size() - 1);
                }
            }
            m.dsurfedges.push_back(found);
        }
        m.dfaces.push_back(f);
        return (int)m.dfaces.size() - 1;
    }
};

// world points of a hull placed on a frame, clockwise seen from the front
inline std::vector<qvec3f> place(const Frame &f, const std::vector<IV> &h, int rot = 0)
{
    std::vector<qvec3f> r;
    for (size_t i = 0; i < h.size(); ++i) {
        auto &q = h[(h.size() - i + rot) % h.size()];
        qvec3d p = f.o + f.u * (double)q.x + f.v * (double)q.y;
        r.push_back(qvec3f(p));
    }
    return r;
}
} // namespace mg
