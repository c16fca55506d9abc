// Worlds for vis: a box cut into convex cells, some solid, with the portals between the
// open ones, the files vis reads, a crash-prone process to run it in, and reference bounds.
#pragma once
#include "bspmodel.hh"
#include <common/bspfile.hh>
#include <common/bsputils.hh>
#include <vis/vis.hh>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>

namespace vm
{
using vh::Case;
using vh::Src;
struct V3
{
    double x = 0, y = 0, z = 0;
    double &operator[](int i) { return i == 0 ? x : i == 1 ? y : z; }
    double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
inline V3 operator+(V3 a, V3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; }
inline V3 operator-(V3 a, V3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; }
inline V3 operator*(V3 a, double f) { return {a.x * f, a.y * f, a.z * f}; }
inline double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
inline V3 cross(V3 a, V3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline double len(V3 a) { return std::sqrt(dot(a, a)); }
inline V3 unit(V3 a) { return a * (1 / len(a)); }
struct Pl
{
    V3 n;
    double d = 0;
    double dist(V3 p) const { return dot(n, p) - d; }
    Pl flip() const { return {n * -1, -d}; }
};
using Poly = std::vector<V3>;

// the part with dist >= -slack
inline Poly clip(const Poly &w, const Pl &p, double slack = 0)
{
    Poly o;
    for (size_t i = 0; i < w.size(); ++i) {
        V3 a = w[i], b = w[(i + 1) % w.size()];
        double da = p.dist(a) + slack, db = p.dist(b) + slack;
        if (da >= -1e-9)
            o.push_back(a);
        if ((da > 1e-9 && db < -1e-9) || (da < -1e-9 && db > 1e-9))
            o.push_back(a + (b - a) * (da / (da - db)));
    }
    return o.size() < 3 ? Poly{} : o;
}
inline double area(const Poly &w)
{
    V3 s;
    for (size_t i = 2; i < w.size(); ++i)
        s = s + cross(w[i - 1] - w[0], w[i] - w[0]);
    return len(s) / 2;
}
// a big polygon on the plane, counter-clockwise seen from its front
inline Poly base(const Pl &p, double r = 40000)
{
    V3 u = std::fabs(p.n.z) < 0.9 ? V3{0, 0, 1} : V3{1, 0, 0};
    u = unit(u - p.n * dot(u, p.n));
    V3 v = cross(p.n, u), o = p.n * p.d;
    return {o + u * -r + v * -r, o + u * r + v * -r, o + u * r + v * r, o + u * -r + v * r};
}
// drops repeated and collinear points; empty if nothing of a decent size is left
inline Poly tidy(const Poly &in)
{
    Poly w;
    for (auto &p : in)
        if (w.empty() || len(p - w.back()) > 0.01)
            w.push_back(p);
    while (w.size() > 1 && len(w.front() - w.back()) <= 0.01)
        w.pop_back();
    for (size_t i = 0; i < w.size() && w.size() >= 3;) {
        V3 a = w[(i + w.size() - 1) % w.size()], b = w[i], c = w[(i + 1) % w.size()];
        if (len(cross(unit(b - a), unit(c - b))) < 1e-4)
            w.erase(w.begin() + i);
        else
            ++i;
    }
    return w.size() < 3 ? Poly{} : w;
}

struct Node
{
    Pl p;
    int child[2]; // >= 0 node, < 0 leaf -1-n
};
struct Portal
{
    int a, b; // leafs; the plane's normal points into b
    Pl p;
    Poly w; // counter-clockwise seen from b
    bool written = false;
    int index = -1; // position in the file
};
struct World
{
    std::vector<Node> nodes;
    int root = 0;
    int cells = 0;
    std::vector<bool> solid; // of each cell
    std::vector<int> leaf; // cell -> open leaf number (visleaf), -1 if solid
    int leafs = 0, clusters = 0;
    std::vector<int> cluster; // leaf -> cluster
    std::vector<Portal> portals; // between leafs
    std::vector<std::array<V3, 2>> bounds; // of each leaf
    double size[3];
    int slivers = 0;
    double grid = 16;

    int find(V3 p) const
    {
        int n = root;
        while (n >= 0)
            n = nodes[n].child[nodes[n].p.dist(p) >= 0 ? 0 : 1];
        return leaf[-1 - n];
    }
};

struct Opt
{
    int max_cells = 30;
    bool clusters = true;
    bool lattice_only = false; // only axial planes
};

inline World gen_world(Src &s, const Opt &o)
{
    World w;
    w.grid = s.pick<double>({64, 32, 16, 64, 32});
    int k[3] = {(int)s.i(2, 12), (int)s.i(2, 12), (int)s.i(1, 4)};
    for (int i = 0; i < 3; ++i)
        w.size[i] = k[i] * w.grid;
    int target = s.chance(1, 8) ? (int)s.i(2, 12) : (int)s.i(12, o.max_cells);
    int oblique = o.lattice_only ? 0 : (int)s.draw(4); // of 8
    int solidity = (int)s.i(0, 6); // of 10
    // split the largest-looking cell again and again
    struct Cell
    {
        std::vector<Pl> ps; // inside is in front of every plane
        int node, side;
    };
    std::vector<Pl> box;
    for (int i = 0; i < 3; ++i) {
        V3 n;
        n[i] = 1;
        box.push_back({n, 0});
        box.push_back({n * -1, -w.size[i]});
    }
    auto verts = [&](const std::vector<Pl> &ps) {
        std::vector<V3> v;
        for (size_t i = 0; i < ps.size(); ++i) {
            Poly f = base(ps[i]);
            for (size_t j = 0; j < ps.size() && !f.empty(); ++j)
                if (j != i)
                    f = clip(f, ps[j]);
            v.insert(v.end(), f.begin(), f.end());
        }
        return v;
    };
    std::vector<Cell> cells{{box, -1, 0}};
    int tries = 0;
    while ((int)cells.size() < target && tries++ < target * 6) {
        int ci = (int)s.draw(cells.size());
        // prefer cells made early: they are the large ones
        ci = std::min(ci, (int)s.draw(cells.size()));
        V3 n;
        int axis = (int)s.draw(3);
        n[axis] = 1;
        V3 at;
        for (int i = 0; i < 3; ++i)
            at[i] = w.grid * s.i(0, k[i]);
        if ((int)s.draw(8) < oblique) {
            V3 m{(double)s.ito(-2, 2, 1), (double)s.ito(-2, 2, 1), s.chance(1, 3) ? (double)s.ito(-1, 1, 0) : 0};
            if (len(m) > 0.5)
                n = unit(m);
        }
        Pl p{n, dot(n, at)};
        auto vs = verts(cells[ci].ps);
        double lo = 1e9, hi = -1e9;
        for (auto &v : vs)
            lo = std::min(lo, p.dist(v)), hi = std::max(hi, p.dist(v));
        if (lo > -7 || hi < 7)
            continue; // does not cut the cell, or leaves next to nothing
        // the split's own face has to be of some size
        int nn = (int)w.nodes.size();
        w.nodes.push_back({p, {0, 0}});
        if (cells[ci].node >= 0)
            w.nodes[cells[ci].node].child[cells[ci].side] = nn;
        else
            w.root = nn;
        Cell b = cells[ci];
        b.ps.push_back(p.flip());
        b.node = nn;
        b.side = 1;
        cells[ci].ps.push_back(p);
        cells[ci].node = nn;
        cells[ci].side = 0;
        cells.push_back(b);
    }
    w.cells = (int)cells.size();
    for (int i = 0; i < w.cells; ++i) {
        if (cells[i].node >= 0)
            w.nodes[cells[i].node].child[cells[i].side] = -1 - i;
        else
            w.root = -1 - i;
        bool sol = (int)s.draw(10) >= 10 - solidity;
        w.solid.push_back(sol);
        w.leaf.push_back(sol ? -1 : w.leafs++);
    }
    if (!w.leafs) {
        w.solid[0] = false;
        w.leaf[0] = w.leafs++;
    }
    w.bounds.resize(w.leafs);
    for (int i = 0; i < w.cells; ++i)
        if (w.leaf[i] >= 0) {
            V3 lo{1e9, 1e9, 1e9}, hi{-1e9, -1e9, -1e9};
            for (auto &v : verts(cells[i].ps))
                for (int j = 0; j < 3; ++j)
                    lo[j] = std::min(lo[j], v[j]), hi[j] = std::max(hi[j], v[j]);
            w.bounds[w.leaf[i]] = {lo, hi};
        }
    // clusters: whole subtrees merge, as detail does
    w.cluster.assign(w.leafs, -1);
    bool detail = o.clusters && s.chance(2, 5);
    std::function<void(int, std::vector<int> &)> under = [&](int n, std::vector<int> &out) {
        if (n < 0) {
            if (w.leaf[-1 - n] >= 0)
                out.push_back(w.leaf[-1 - n]);
            return;
        }
        under(w.nodes[n].child[0], out);
        under(w.nodes[n].child[1], out);
    };
    std::function<void(int, int)> assign = [&](int n, int depth) {
        std::vector<int> ls;
        under(n, ls);
        if (ls.empty())
            return;
        if (n < 0 || (detail && depth > 0 && s.chance(1, 4))) {
            for (int l : ls)
                w.cluster[l] = w.clusters;
            w.clusters++;
            return;
        }
        assign(w.nodes[n].child[0], depth + 1);
        assign(w.nodes[n].child[1], depth + 1);
    };
    assign(w.root, 0);
    if (!detail) // leafs and clusters are the same numbers then
        for (int i = 0; i < w.leafs; ++i)
            w.cluster[i] = i;
    if (w.clusters == w.leafs)
        for (int i = 0; i < w.leafs; ++i)
            w.cluster[i] = i;
    // portals
    std::function<void(int, std::vector<Pl>)> portalize = [&](int n, std::vector<Pl> region) {
        if (n < 0)
            return;
        auto &nd = w.nodes[n];
        Poly f = base(nd.p);
        for (auto &p : region) {
            f = clip(f, p);
            if (f.empty())
                break;
        }
        std::function<void(int, Poly, std::vector<std::pair<int, Poly>> &)> down = [&](int m, Poly q, std::vector<std::pair<int, Poly>> &out) {
            if (q.empty() || area(q) < 1e-6)
                return;
            if (m < 0) {
                out.push_back({-1 - m, q});
                return;
            }
            down(w.nodes[m].child[0], clip(q, w.nodes[m].p), out);
            down(w.nodes[m].child[1], clip(q, w.nodes[m].p.flip()), out);
        };
        std::vector<std::pair<int, Poly>> front;
        down(nd.child[0], f, front);
        for (auto &[fc, q] : front) {
            std::vector<std::pair<int, Poly>> back;
            down(nd.child[1], q, back);
            for (auto &[bc, r] : back) {
                if (w.leaf[fc] < 0 || w.leaf[bc] < 0)
                    continue;
                Poly t = tidy(r);
                if (t.empty() || area(t) < 0.5) {
                    w.slivers++;
                    continue;
                }
                Portal po;
                po.a = w.leaf[bc];
                po.b = w.leaf[fc];
                po.p = nd.p;
                po.w = t;
                po.written = w.cluster[po.a] != w.cluster[po.b];
                w.portals.push_back(po);
            }
        }
        auto r0 = region, r1 = region;
        r0.push_back(nd.p);
        r1.push_back(nd.p.flip());
        portalize(nd.child[0], r0);
        portalize(nd.child[1], r1);
    };
    portalize(w.root, box);
    // any order and orientation in the file
    for (size_t i = w.portals.size(); i > 1; --i)
        std::swap(w.portals[i - 1], w.portals[s.draw(i)]);
    for (auto &p : w.portals)
        if (s.chance(1, 2)) {
            std::swap(p.a, p.b);
            p.p = p.p.flip();
            std::reverse(p.w.begin(), p.w.end());
        }
    int idx = 0;
    for (auto &p : w.portals)
        if (p.written)
            p.index = idx++;
    return w;
}

inline std::string prt_text(const World &w, int form, bool q2)
{
    int n = 0;
    for (auto &p : w.portals)
        n += p.written;
    std::string t;
    if (q2 || form == 0)
        t = vh::cat("PRT1\n", w.clusters, "\n", n, "\n");
    else if (form == 1)
        t = vh::cat("PRT2\n", w.leafs, "\n", w.clusters, "\n", n, "\n");
    else
        t = vh::cat("PRT1-AM\n", w.clusters, "\n", n, "\n", w.leafs, "\n");
    for (auto &p : w.portals)
        if (p.written) {
            // the first cluster is the one the (clockwise) winding faces: write it clockwise from a
            t += vh::cat(p.w.size(), " ", w.cluster[p.a], " ", w.cluster[p.b], " ");
            for (auto &v : p.w)
                t += vh::cat("(", v.x, " ", v.y, " ", v.z, " ) ");
            t += "\n";
        }
    if (!q2 && form == 1)
        for (int c = 0; c < w.clusters; ++c) {
            for (int l = 0; l < w.leafs; ++l)
                if (w.cluster[l] == c)
                    t += vh::cat(l, " ");
            t += "-1\n";
        }
    else if (!q2 && form == 2)
        for (int l = 0; l < w.leafs; ++l)
            t += vh::cat(w.cluster[l], "\n");
    return t;
}

// ---- sight ------------------------------------------------------------------
// how far a line through `at` along `dir` stays from the polygon's outline (negative: outside)
inline double clearance(const Poly &w, const Pl &p, V3 at, V3 dir)
{
    double c = 1e9;
    for (size_t i = 0; i < w.size(); ++i) {
        V3 a = w[i], b = w[(i + 1) % w.size()];
        V3 in = unit(cross(p.n, b - a)); // counter-clockwise: inward
        double flat = dot(at - a, in);
        if (flat < 0)
            return -1;
        // distance between the line and the edge's line
        V3 e = unit(b - a), m = cross(dir, e);
        double l = len(m);
        c = std::min(c, l > 1e-9 ? std::fabs(dot(a - at, m)) / l : len(cross(at - a, dir)));
    }
    return c;
}
struct Sight
{
    std::vector<int> leafs; // in order along the line
    std::vector<double> clear; // of the portal entered through (first: 1e9)
    std::vector<int> via; // portal index (in w.portals) entered through
};
// follows a ray from inside a leaf
inline void follow(const World &w, int leaf, V3 at, V3 dir, double margin, Sight &out)
{
    std::vector<bool> been(w.leafs);
    been[leaf] = true;
    for (int step = 0; step < 64; ++step) {
        int best = -1;
        double bt = 1e18, bc = 0;
        for (size_t i = 0; i < w.portals.size(); ++i) {
            auto &p = w.portals[i];
            if (p.a != leaf && p.b != leaf)
                continue;
            double dn = dot(p.p.n, dir) * (p.a == leaf ? 1 : -1);
            if (dn < 0.02)
                continue;
            double t = -p.p.dist(at) / dot(p.p.n, dir);
            if (t < 1e-3)
                continue;
            double c = clearance(p.w, p.p, at + dir * t, dir);
            if (c < (p.written ? margin : 1e-6))
                continue;
            if (t < bt)
                bt = t, best = (int)i, bc = c;
        }
        if (best < 0)
            return;
        auto &p = w.portals[best];
        leaf = p.a == leaf ? p.b : p.a;
        if (been[leaf])
            return;
        been[leaf] = true;
        at = at + dir * bt;
        out.leafs.push_back(leaf);
        out.clear.push_back(p.written ? bc : 1e9);
        out.via.push_back(best);
    }
}
// all leafs along the line through a point of a portal
inline Sight sight(const World &w, int portal, V3 at, V3 dir, double margin)
{
    auto &p = w.portals[portal];
    Sight s;
    if (dot(p.p.n, dir) < 0)
        dir = dir * -1;
    double c = clearance(p.w, p.p, at, dir);
    if (c < (p.written ? margin : 1e-6) || std::fabs(dot(p.p.n, dir)) < 0.02)
        return s;
    Sight back, fwd;
    follow(w, p.a, at, dir * -1, margin, back);
    follow(w, p.b, at, dir, margin, fwd);
    // back entries are (leaf, portal between it and the previous one)
    for (size_t i = back.leafs.size(); i-- > 0;) {
        s.leafs.push_back(back.leafs[i]);
        s.clear.push_back(i + 1 < back.leafs.size() ? back.clear[i + 1] : 1e9);
        s.via.push_back(i + 1 < back.leafs.size() ? back.via[i + 1] : -1);
    }
    s.leafs.push_back(p.a);
    s.clear.push_back(back.leafs.empty() ? 1e9 : back.clear[0]);
    s.via.push_back(back.leafs.empty() ? -1 : back.via[0]);
    s.leafs.push_back(p.b);
    s.clear.push_back(p.written ? c : 1e9);
    s.via.push_back(portal);
    for (size_t i = 0; i < fwd.leafs.size(); ++i) {
        s.leafs.push_back(fwd.leafs[i]);
        s.clear.push_back(fwd.clear[i]);
        s.via.push_back(fwd.via[i]);
    }
    return s;
}
inline V3 inside(Src &s, const Poly &w)
{
    V3 r;
    double t = 0;
    for (auto &v : w) {
        double f = s.unit() + 1e-3;
        r = r + v * f;
        t += f;
    }
    return r * (1 / t);
}

// ---- running vis ---------------------------------------------------------------
struct Bits
{
    // rows[cluster][leaf or cluster]
    std::vector<std::vector<bool>> leaf; // as stored: for each leaf (or Q2 cluster)
    std::vector<std::vector<bool>> phs;
    std::vector<std::vector<bool>> cl; // cluster x cluster
};
inline std::vector<bool> row(const std::vector<uint8_t> &d, size_t at, int n, Case &c, const char *what)
{
    std::vector<uint8_t> o;
    size_t nb = (n + 7) / 8;
    while (o.size() < nb) {
        c.require(at < d.size(), "row", vh::cat(what, " row runs past the visibility data"));
        if (d[at]) {
            o.push_back(d[at++]);
            continue;
        }
        c.require(at + 1 < d.size() && d[at + 1], "row", vh::cat(what, " row has a bad zero run"));
        o.insert(o.end(), d[at + 1], 0);
        at += 2;
    }
    c.require(o.size() == nb, "row", vh::cat(what, " row has ", o.size(), " bytes instead of ", nb));
    std::vector<bool> r;
    for (int i = 0; i < n; ++i)
        r.push_back(o[i >> 3] >> (i & 7) & 1);
    for (int i = n; i < (int)nb * 8; ++i)
        c.require(!(o[i >> 3] >> (i & 7) & 1), "row", vh::cat(what, " row has bits past the last leaf"));
    return r;
}

struct Crash
{
    int at = -1; // end the process at this call of write/remove/rename on the state files
    double part = 0; // how much of the write gets done
    bool jump = false; // five minutes pass between any two looks at the clock
};
extern Crash crash;
extern int calls;
extern bool armed;

// 0: done; 1: failed with an error; 2: crashed as asked; other: signal
inline int run_vis(const std::vector<std::string> &args, Crash cr = {}, int *ncalls = nullptr, std::string *log = nullptr)
{
    std::string out = log ? *log : std::string("/dev/null");
    int fd[2];
    if (pipe(fd))
        abort();
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (!pid) {
        close(fd[0]);
        int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(o, 1);
        dup2(o, 2);
        alarm(120);
        crash = cr;
        calls = 0;
        armed = true;
        int rc = 1;
        try {
            std::vector<std::string> a{"vis"};
            a.insert(a.end(), args.begin(), args.end());
            rc = vis_main(a) ? 1 : 0;
        } catch (const std::exception &e) {
            fprintf(stderr, "exception: %s\n", e.what());
            fflush(stderr);
            rc = 1;
        }
        armed = false;
        fflush(stdout);
        if (::write(fd[1], &calls, sizeof calls) < 0) { }
        _exit(rc);
    }
    close(fd[1]);
    int n = 0;
    if (read(fd[0], &n, sizeof n) != sizeof n)
        n = -1;
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (ncalls)
        *ncalls = n;
    if (WIFSIGNALED(st))
        return 1000 + WTERMSIG(st);
    return WEXITSTATUS(st) == 77 ? 2 : WEXITSTATUS(st);
}

struct Files
{
    std::string dir, bsp, prt, state, tmp;
};
struct Made
{
    bool q2 = false;
    int form = 0;
    const bspversion_t *ver = nullptr;
    Files f;
    mbsp_t m;
};
// writes the .bsp and .prt; `fill` may add faces and the like
inline Made write_world(Case &c, const World &w, bool q2, const std::function<void(mbsp_t &)> &fill = {})
{
    Made k;
    k.q2 = q2;
    k.ver = q2 ? c.s.pick<const bspversion_t *>({&bspver_q2, &bspver_qbism}) : c.s.pick<const bspversion_t *>({&bspver_q1, &bspver_bsp2, &bspver_bsp2rmq, &bspver_hl, &bspver_h2});
    k.form = w.clusters == w.leafs ? (int)c.s.draw(3) : (int)c.s.i(1, 2);
    k.f.dir = c.scratch;
    k.f.bsp = c.scratch + "/map.bsp";
    k.f.prt = c.scratch + "/map.prt";
    k.f.state = c.scratch + "/map.vis";
    k.f.tmp = c.scratch + "/map.vi0";
    mbsp_t &m = k.m;
    m.loadversion = k.ver;
    m.dentdata = "{\n\"classname\" \"worldspawn\"\n}\n";
    m.dleafs.resize(w.leafs + 1);
    m.dleafs[0].contents = q2 ? 1 : CONTENTS_SOLID;
    m.dleafs[0].cluster = -1;
    m.dleafs[0].visofs = -1;
    for (int i = 0; i < w.leafs; ++i) {
        auto &l = m.dleafs[i + 1];
        l.contents = q2 ? 0 : CONTENTS_EMPTY;
        l.cluster = q2 ? w.cluster[i] : -1;
        l.visofs = -1;
        for (int j = 0; j < 3; ++j) {
            l.mins[j] = (float)std::floor(w.bounds[i][0][j]);
            l.maxs[j] = (float)std::ceil(w.bounds[i][1][j]);
        }
        for (auto &a : l.ambient_level)
            a = (uint8_t)c.s.draw(256);
    }
    m.dmodels.resize(1);
    m.dmodels[0].visleafs = w.leafs;
    m.dmodels[0].headnode = {};
    m.dplanes.push_back({});
    m.dplanes[0].normal = {1, 0, 0};
    m.dnodes.push_back({});
    m.dnodes[0].children = {-1, -2};
    m.dnodes[0].mins = m.dnodes[0].maxs = {};
    m.dnodes[0].planenum = 0;
    m.dnodes[0].firstface = m.dnodes[0].numfaces = 0;
    m.dleafs[0].mins = m.dleafs[0].maxs = {};
    m.dmodels[0].mins = m.dmodels[0].maxs = m.dmodels[0].origin = {};
    if (fill)
        fill(m);
    bspdata_t d;
    d.version = &bspver_generic;
    d.bsp = m;
    if (!ConvertBSPFormat(&d, k.ver))
        throw std::runtime_error(vh::cat("harness: cannot convert to ", k.ver->short_name, " b ", w.bounds[0][0].x, " ", w.bounds[0][1].x, " ", w.size[0]));
    WriteBSPFile(fs::path(k.f.bsp), &d);
    std::string t = prt_text(w, k.form, q2);
    bm::spew(k.f.prt, {t.begin(), t.end()});
    return k;
}
inline mbsp_t load(const std::string &p)
{
    bspdata_t d;
    fs::path fp(p);
    LoadBSPFile(fp, &d);
    ConvertBSPFormat(&d, &bspver_generic);
    return std::move(std::get<mbsp_t>(d.bsp));
}
// the rows vis wrote, checked for form
inline Bits read_rows(Case &c, const World &w, const Made &k, const mbsp_t &m)
{
    Bits r;
    r.cl.assign(w.clusters, std::vector<bool>(w.clusters));
    if (k.q2) {
        c.require((int)m.dvis.bit_offsets.size() == w.clusters, "clusters", vh::cat(m.dvis.bit_offsets.size(), " rows for ", w.clusters, " clusters"));
        for (int i = 0; i < w.clusters; ++i) {
            // bits start after the header of the file's lump
            r.cl[i] = row(m.dvis.bits, m.dvis.get_bit_offset(VIS_PVS, i), w.clusters, c, "PVS");
            r.phs.push_back(row(m.dvis.bits, m.dvis.get_bit_offset(VIS_PHS, i), w.clusters, c, "PHS"));
        }
        r.leaf = r.cl;
        return r;
    }
    c.require((int)m.dleafs.size() == w.leafs + 1, "leafs", "number of leafs changed");
    std::vector<int> ofs(w.clusters, -2);
    for (int i = 0; i < w.leafs; ++i) {
        int o = m.dleafs[i + 1].visofs, cl = w.cluster[i];
        c.require(o >= 0, "visofs", vh::cat("leaf ", i + 1, " got no row"));
        r.leaf.push_back(row(m.dvis.bits, o, w.leafs, c, "PVS"));
    }
    for (int i = 0; i < w.leafs; ++i)
        for (int j = 0; j < w.leafs; ++j)
            if (r.leaf[i][j])
                r.cl[w.cluster[i]][w.cluster[j]] = true;
    for (int i = 0; i < w.leafs; ++i)
        for (int j = 0; j < w.leafs; ++j)
            c.require(r.leaf[i][j] == r.cl[w.cluster[i]][w.cluster[j]], "cluster-expansion",
                vh::cat("leaf ", i, " (cluster ", w.cluster[i], ") and leaf ", j, " (cluster ", w.cluster[j], ") differ from their clusters"));
    return r;
}

// ---- upper bounds -----------------------------------------------------------------
struct Ref
{
    const World &w;
    struct Q
    {
        Pl p; // into the neighbour
        Poly w; // grown
        int to;
    };
    std::vector<Q> q;
    std::vector<std::vector<int>> out; // cluster -> portals leaving it
    static constexpr double SLACK = 0.25;

    static Poly grow(const Poly &w, const Pl &p, double g)
    {
        Poly r;
        size_t n = w.size();
        for (size_t i = 0; i < n; ++i) {
            V3 a = w[(i + n - 1) % n], b = w[i], c = w[(i + 1) % n];
            V3 e1 = unit(b - a), e2 = unit(c - b);
            V3 o1 = cross(e1, p.n), o2 = cross(e2, p.n); // outward
            double d = 1 + dot(o1, o2);
            if (d < 0.05)
                r.push_back(b + o1 * g + e1 * g), r.push_back(b + o2 * g - e2 * g);
            else
                r.push_back(b + (o1 + o2) * (g / d));
        }
        return r;
    }
    Ref(const World &w, double g)
        : w(w)
    {
        out.resize(w.clusters);
        for (auto &p : w.portals) {
            if (!p.written)
                continue;
            Poly gw = grow(p.w, p.p, g);
            out[w.cluster[p.a]].push_back((int)q.size());
            q.push_back({p.p, gw, w.cluster[p.b]});
            Poly r(gw.rbegin(), gw.rend());
            out[w.cluster[p.b]].push_back((int)q.size());
            q.push_back({p.p.flip(), r, w.cluster[p.a]});
        }
    }
    static bool any(const Poly &w, const Pl &p, double min)
    {
        for (auto &v : w)
            if (p.dist(v) > min)
                return true;
        return false;
    }
    static double nearest(const Poly &w, const Pl &p)
    {
        double m = 1e18;
        for (auto &v : w)
            m = std::min(m, std::fabs(p.dist(v)));
        return m;
    }
    // clusters that a flood through the portals in front of portal i reaches
    std::vector<bool> flood(int i, double visdist = 0) const
    {
        std::vector<char> see(q.size());
        for (size_t j = 0; j < q.size(); ++j)
            see[j] = (int)j != i && any(q[j].w, q[i].p, -SLACK) && any(q[i].w, q[j].p.flip(), -SLACK) &&
                     (visdist <= 0 || (nearest(q[j].w, q[i].p) <= visdist + 4 && nearest(q[i].w, q[j].p) <= visdist + 4));
        std::vector<bool> r(w.clusters);
        std::vector<int> st{q[i].to};
        r[q[i].to] = true;
        while (!st.empty()) {
            int x = st.back();
            st.pop_back();
            for (int j : out[x])
                if (see[j] && !r[q[j].to])
                    r[q[j].to] = true, st.push_back(q[j].to);
        }
        return r;
    }
    std::vector<bool> fast(int cluster, double visdist = 0) const
    {
        std::vector<bool> r(w.clusters);
        r[cluster] = true;
        for (int i : out[cluster]) {
            auto f = flood(i, visdist);
            for (int j = 0; j < w.clusters; ++j)
                r[j] = r[j] || f[j];
        }
        return r;
    }
    long budget = 0;
    // clips the target by the planes that separate source from pass
    static Poly separate(const Poly &src, const Poly &pass, Poly target, bool flip)
    {
        for (size_t i = 0; i < src.size() && !target.empty(); ++i) {
            V3 a = src[i], e = src[(i + 1) % src.size()] - a;
            for (auto &v : pass) {
                V3 n = cross(e, v - a);
                double l = len(n);
                if (l < 1)
                    continue;
                Pl s{n * (1 / l), 0};
                s.d = dot(s.n, v);
                // pass in front, source behind
                double smax = -1e9, smin = 1e9, pmin = 1e9, pmax = -1e9;
                for (auto &x : src)
                    smax = std::max(smax, s.dist(x)), smin = std::min(smin, s.dist(x));
                for (auto &x : pass)
                    pmin = std::min(pmin, s.dist(x)), pmax = std::max(pmax, s.dist(x));
                if (smin > -1e-6 && pmax < 1e-6) {
                    s = s.flip();
                } else if (!(smax < 1e-6 && pmin > -1e-6))
                    continue;
                if (std::max(std::fabs(pmin), std::fabs(pmax)) < 0.5)
                    continue;
                if (flip)
                    s = s.flip();
                target = clip(target, s, SLACK);
                if (target.empty())
                    break;
            }
        }
        return target;
    }
    void flow(int from, const Pl &srcp, const Poly &src, int via, const Poly &pass, int level, std::vector<char> &stack, std::vector<bool> &seen, const std::vector<bool> &bound)
    {
        if (--budget < 0)
            return;
        int at = q[via].to;
        seen[at] = true;
        stack[at] = 1;
        for (int j : out[at]) {
            int to = q[j].to;
            if (!bound[to] || stack[to])
                continue;
            // could anything new come of it?
            auto f = floods[j];
            bool more = false;
            for (int x = 0; x < w.clusters && !more; ++x)
                more = f[x] && bound[x] && !seen[x];
            if (!more)
                continue;
            Poly t = clip(q[j].w, srcp, SLACK);
            if (t.empty())
                continue;
            Poly s = src;
            if (!pass.empty()) {
                t = clip(t, q[via].p, SLACK);
                s = clip(src, q[j].p.flip(), SLACK);
                if (t.empty() || s.empty())
                    continue;
                // vis keeps the planes of its tests 0 and 1 from one target for the next and may know
                // only some of them: what has to hide a target are tests 2 and 3
                if (level > 2)
                    s = separate(t, pass, s, false);
                if (level > 3 && !s.empty())
                    s = separate(pass, t, s, true);
                if (s.empty())
                    continue;
            }
            flow(from, srcp, s, j, t, level, stack, seen, bound);
        }
        stack[at] = 0;
    }
    std::vector<std::vector<bool>> floods;
    // empty if it takes too long
    std::vector<bool> full(int cluster, int level, double visdist = 0)
    {
        if (floods.empty())
            for (size_t i = 0; i < q.size(); ++i)
                floods.push_back(flood((int)i));
        std::vector<bool> r(w.clusters);
        r[cluster] = true;
        for (int i : out[cluster]) {
            std::vector<bool> seen(w.clusters);
            std::vector<char> stack(w.clusters);
            budget = 4000;
            flow(cluster, q[i].p, q[i].w, i, {}, level, stack, seen, visdist > 0 ? flood(i, visdist) : floods[i]);
            if (budget < 0)
                return {};
            for (int j = 0; j < w.clusters; ++j)
                r[j] = r[j] || seen[j];
        }
        return r;
    }
};
} // namespace vm
