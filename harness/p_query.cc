#include "bspmodel.hh"
#include <common/bsputils.hh>
using namespace bm;
using vh::Case;
using vh::Src;
using V = std::array<double, 3>;

struct Tree
{
    mbsp_t m;
    bool q2;
};
static double pd(const dplane_t &p, const V &x) { return (double)p.normal[0] * x[0] + (double)p.normal[1] * x[1] + (double)p.normal[2] * x[2] - p.dist; }

// too near to say; a point exactly on an axial plane is not: it counts as in front
static bool near_plane(const dplane_t &p, const V &x)
{
    double d = pd(p, x);
    return std::fabs(d) < 1e-9 && !(p.type < 3 && d == 0);
}

static dplane_t gen_plane(Src &s)
{
    dplane_t p{};
    int k = (int)s.draw(5);
    if (k < 3) {
        p.normal = {};
        p.normal[k] = 1; // engines rely on axial planes facing the positive axis
        p.dist = (float)s.ito(-200, 200, 0);
        p.type = k;
    } else {
        qvec3d n;
        double l = 0;
        while (l < 0.1) {
            n = {(double)s.ito(-4, 4, 1), (double)s.ito(-4, 4, 1), (double)s.ito(-4, 4, 1)};
            l = qv::length(n);
            if (l < 0.1)
                n = {1, 1, 0}, l = qv::length(n);
        }
        n = n / l;
        for (int i = 0; i < 3; ++i)
            p.normal[i] = (float)n[i];
        p.dist = (float)s.ito(-200, 200, 0);
        int big = 0;
        for (int i = 1; i < 3; ++i)
            if (std::fabs(p.normal[i]) > std::fabs(p.normal[big]))
                big = i;
        bool axial = false;
        for (int i = 0; i < 3; ++i)
            if (p.normal[i] == 1 || p.normal[i] == -1) {
                axial = true;
                if (p.normal[i] == 1)
                    p.type = i;
                else {
                    p.normal = -p.normal;
                    p.type = i;
                }
            }
        if (!axial)
            p.type = 3 + big;
        else
            for (int i = 0; i < 3; ++i)
                p.normal[i] = p.normal[i] == 1 ? 1.f : 0.f;
    }
    return p;
}
static int grow(Src &s, mbsp_t &m, int depth, const std::vector<int> &contents)
{
    if (depth == 0 || s.chance(1, 6)) {
        mleaf_t l{};
        l.contents = s.pick(contents);
        l.cluster = s.chance(1, 5) ? -1 : (int)s.draw(6);
        l.visofs = -1;
        m.dleafs.push_back(l);
        return -(int)m.dleafs.size();
    }
    int n = (int)m.dnodes.size();
    m.dnodes.push_back({});
    m.dplanes.push_back(gen_plane(s));
    m.dnodes[n].planenum = (int)m.dplanes.size() - 1;
    m.dnodes[n].firstface = m.dnodes[n].numfaces = 0;
    int a = grow(s, m, depth - 1, contents);
    int b = grow(s, m, depth - 1, contents);
    m.dnodes[n].children = {a, b};
    return n;
}
static int grow_clip(Src &s, mbsp_t &m, int depth)
{
    if (depth == 0 || s.chance(1, 6))
        return s.pick<int>({-1, -2, -3, -4, -5, -6});
    int n = (int)m.dclipnodes.size();
    m.dclipnodes.push_back({});
    m.dplanes.push_back(gen_plane(s));
    m.dclipnodes[n].planenum = (int)m.dplanes.size() - 1;
    int a = grow_clip(s, m, depth - 1);
    int b = grow_clip(s, m, depth - 1);
    m.dclipnodes[n].children = {a, b};
    return n;
}
static Tree gen_tree(Src &s)
{
    Tree t;
    t.q2 = s.b();
    t.m = {};
    t.m.loadversion = t.q2 ? &bspver_q2 : s.pick<const bspversion_t *>({&bspver_q1, &bspver_bsp2, &bspver_h2, &bspver_hl});
    std::vector<int> cont = t.q2 ? std::vector<int>{0, 1, 32, 8, 2, 1 | (1 << 27), 1 << 16} : std::vector<int>{-1, -2, -3, -4, -5, -6};
    int models = (int)s.i(1, 2);
    int depth = (int)s.i(1, 6);
    t.m.dleafs.push_back({});
    t.m.dleafs[0].contents = t.q2 ? 1 : -2;
    t.m.dleafs[0].cluster = -1;
    for (int i = 0; i < models; ++i) {
        dmodelh2_t d{};
        // a second model's tree lives behind the first one's in the same lumps
        d.headnode[0] = grow(s, t.m, depth, cont);
        for (int h = 1; h < 3; ++h)
            d.headnode[h] = grow_clip(s, t.m, depth);
        t.m.dmodels.push_back(d);
    }
    return t;
}
static V gen_pt(Src &s, const mbsp_t &m)
{
    V p{(double)s.f(-256, 256), (double)s.f(-256, 256), (double)s.f(-256, 256)};
    if (!m.dplanes.empty() && s.chance(2, 3)) {
        auto &pl = m.dplanes[s.draw(m.dplanes.size())];
        double d = pd(pl, p), off = s.pick<double>({0, 0.05, -0.05, 0.15, -0.15, 1e-4, -1e-4, 3, -3});
        for (int i = 0; i < 3; ++i)
            p[i] -= (d - off) * pl.normal[i];
    }
    return p;
}
static qvec3d q(const V &v) { return {v[0], v[1], v[2]}; }

static void points(Case &c)
{
    Tree t = gen_tree(c.s);
    auto &m = t.m;
    int np = 12;
    c.describe(vh::cat(m.loadversion->short_name, ", ", m.dnodes.size(), " nodes, ", m.dclipnodes.size(), " clipnodes, ", m.dmodels.size(), " models"));
    c.nt(m.dnodes.size() >= 4);
    for (int k = 0; k < np; ++k) {
        V p = gen_pt(c.s, m);
        const dmodelh2_t &mod = m.dmodels[c.s.draw(m.dmodels.size())];
        // hull 0
        bool amb = false;
        int n = mod.headnode[0];
        while (n >= 0) {
            double d = pd(m.dplanes[m.dnodes[n].planenum], p);
            amb |= near_plane(m.dplanes[m.dnodes[n].planenum], p);
            n = m.dnodes[n].children[d >= 0 ? 0 : 1];
        }
        const mleaf_t *want = &m.dleafs[-1 - n];
        if (!amb) {
            const mleaf_t *got = BSP_FindLeafAtPoint(&m, &mod, q(p));
            c.require(got == want, "leaf", vh::cat("point (", p[0], " ", p[1], " ", p[2], ") found in leaf ", got - m.dleafs.data(), ", is in ", want - m.dleafs.data()));
            c.require(BSP_FindContentsAtPoint(&m, {0}, &mod, q(p)) == want->contents, "contents", "hull 0 contents differ");
            c.require(BSP_FindContentsAtPoint(&m, {}, &mod, q(p)) == want->contents, "contents", "default hull contents differ");
        }
        // solidity within 0.1 of a plane counts both sides
        bool amb2 = false;
        std::function<bool(int)> solid = [&](int x) -> bool {
            if (x < 0) {
                int ct = m.dleafs[-1 - x].contents;
                return t.q2 ? (ct & 1) : (ct == -2 || ct == -6);
            }
            double d = pd(m.dplanes[m.dnodes[x].planenum], p);
            amb2 |= std::fabs(std::fabs(d) - 0.1) < 1e-6;
            if (d > 0.1)
                return solid(m.dnodes[x].children[0]);
            if (d < -0.1)
                return solid(m.dnodes[x].children[1]);
            bool a = solid(m.dnodes[x].children[0]), b = solid(m.dnodes[x].children[1]);
            return a || b;
        };
        bool ws = solid(mod.headnode[0]);
        if (!amb2) {
            c.require(Light_PointInSolid(&m, &mod, q(p)) == ws, "solid", vh::cat("point (", p[0], " ", p[1], " ", p[2], ") solid: want ", ws));
            bool am = false;
            (void)am;
            bool ww = solid(m.dmodels[0].headnode[0]);
            if (!amb2)
                c.require(Light_PointInWorld(&m, q(p)) == ww, "world-solid", "Light_PointInWorld differs");
        }
        // clip hulls
        for (int h = 1; h < 3; ++h) {
            int x = mod.headnode[h], par = 0, side = -1;
            bool amb3 = false;
            while (x >= 0) {
                double d = pd(m.dplanes[m.dclipnodes[x].planenum], p);
                amb3 |= near_plane(m.dplanes[m.dclipnodes[x].planenum], p);
                par = x;
                side = d >= 0 ? 0 : 1;
                x = m.dclipnodes[x].children[side];
            }
            if (amb3)
                continue;
            c.require(BSP_FindContentsAtPoint(&m, {(uint8_t)h}, &mod, q(p)) == x, "clip-contents", vh::cat("hull ", h, " contents at (", p[0], " ", p[1], " ", p[2], ")"));
            auto info = BSP_FindClipnodeAtPoint(&m, {(uint8_t)h}, &mod, q(p));
            c.require(info.contents == x && info.parent_clipnode == par && (side < 0 || (int)info.side == side), "clipnode", vh::cat("hull ", h, " clipnode"));
        }
    }
    // leaf enumeration
    for (auto &mod : m.dmodels) {
        std::vector<int> want, got;
        std::function<void(int)> rec = [&](int x) {
            if (x < 0) {
                want.push_back(-1 - x);
                return;
            }
            rec(m.dnodes[x].children[0]);
            rec(m.dnodes[x].children[1]);
        };
        rec(mod.headnode[0]);
        BSP_VisitAllLeafs(m, mod, [&](const mleaf_t &l) { got.push_back(&l - m.dleafs.data()); });
        std::sort(want.begin(), want.end());
        std::sort(got.begin(), got.end());
        c.require(want == got, "visit", "BSP_VisitAllLeafs does not visit every leaf of the model once");
        if (&mod == &m.dmodels[0]) {
            std::map<int, std::multiset<int>> w;
            for (int l : want)
                if (m.dleafs[l].cluster != -1)
                    w[m.dleafs[l].cluster].insert(l);
            auto g = ClusterToLeafnumsMap(&m);
            bool ok = g.size() == w.size();
            for (auto &[k, v] : g)
                ok = ok && w.count(k) && std::multiset<int>(v.begin(), v.end()) == w[k];
            c.require(ok, "cluster-map", "ClusterToLeafnumsMap differs");
        }
    }
    // model lookup by name
    for (int i = -1; i < 4; ++i) {
        const dmodelh2_t *g = BSP_DModelForModelString(&m, "*" + std::to_string(i));
        const dmodelh2_t *w = i >= 0 && i < (int)m.dmodels.size() ? &m.dmodels[i] : nullptr;
        c.require(g == w, "model-string", vh::cat("model string *", i));
    }
    c.require(BSP_DModelForModelString(&m, "progs/player.mdl") == nullptr, "model-string", "non-brush model resolved");
}

// faces lying on node planes: found exactly by points of the face facing the right way
static void faces(Case &c)
{
    Tree t = gen_tree(c.s);
    auto &m = t.m;
    if (m.dmodels[0].headnode[0] < 0)
        throw vh::Discard{};
    // a node on the path of a random point; the face sits at the point's projection
    V p{c.s.f(-100, 100), c.s.f(-100, 100), c.s.f(-100, 100)};
    std::vector<int> path;
    int n = m.dmodels[0].headnode[0];
    // walk to a random depth, staying clear of every plane on the way
    while (n >= 0) {
        path.push_back(n);
        if (c.s.chance(1, 3))
            break;
        double d = pd(m.dplanes[m.dnodes[n].planenum], p);
        n = m.dnodes[n].children[d >= 0 ? 0 : 1];
    }
    int node = path.back();
    auto &pl = m.dplanes[m.dnodes[node].planenum];
    double d0 = pd(pl, p);
    for (int i = 0; i < 3; ++i)
        p[i] -= d0 * pl.normal[i];
    // in-plane basis
    qvec3d nn{pl.normal[0], pl.normal[1], pl.normal[2]};
    qvec3d u = std::fabs(nn[0]) < 0.8 ? qv::cross(nn, qvec3d{1, 0, 0}) : qv::cross(nn, qvec3d{0, 1, 0});
    u = qv::normalize(u);
    qvec3d v = qv::cross(nn, u);
    int k = (int)c.s.i(3, 8);
    double r = c.s.f(8, 40);
    int side = (int)c.s.draw(2);
    // regular polygon, clockwise seen from its front (Quake winding)
    m.dedges.push_back({0, 0});
    mface_t f{};
    f.planenum = m.dnodes[node].planenum;
    f.side = side;
    f.texinfo = -1;
    f.lightofs = -1;
    f.firstedge = (int)m.dsurfedges.size();
    f.numedges = k;
    int v0 = (int)m.dvertexes.size();
    qvec3d c0{p[0], p[1], p[2]};
    for (int i = 0; i < k; ++i) {
        double a = 2 * M_PI * i / k * (side ? 1 : -1);
        qvec3d x = c0 + u * (r * cos(a)) + v * (r * sin(a));
        m.dvertexes.push_back(qvec3f(x[0], x[1], x[2]));
    }
    for (int i = 0; i < k; ++i) {
        uint32_t a = v0 + i, b = v0 + (i + 1) % k;
        if (c.s.b()) {
            m.dsurfedges.push_back((int)m.dedges.size());
            m.dedges.push_back({a, b});
        } else {
            m.dsurfedges.push_back(-(int)m.dedges.size());
            m.dedges.push_back({b, a});
        }
    }
    // decoy faces before and after it
    mface_t decoy = f;
    for (int i = 0; i < 3; ++i)
        m.dfaces.push_back(decoy);
    m.dfaces[1] = f;
    m.dnodes[node].firstface = 1;
    m.dnodes[node].numfaces = 1;
    const mface_t *face = &m.dfaces[1];
    c.nt(m.dnodes.size() >= 3);
    c.describe(vh::cat(k, "-gon of radius ", r, " on node ", node, " of ", m.dnodes.size(), ", side ", side));
    // accessors
    qvec3d fn = side ? -nn : nn;
    c.require(qv::distance(Face_Normal(&m, face), fn) < 1e-5, "normal", "Face_Normal");
    auto plq = Face_Plane(&m, face);
    c.require(std::fabs(plq.dist - (side ? -pl.dist : pl.dist)) < 1e-4, "plane", "Face_Plane dist");
    c.require(Face_GetNum(&m, face) == 1, "num", "Face_GetNum");
    auto pts = Face_Points(&m, face);
    auto w = Face_Winding(&m, face);
    c.require((int)pts.size() == k && (int)w.size() == k, "points", "point count");
    for (int i = 0; i < k; ++i) {
        c.require(pts[i] == m.dvertexes[v0 + i] && Face_VertexAtIndex(&m, face, i) == v0 + i && Face_PointAtIndex(&m, face, i) == pts[i] &&
                      GetSurfaceVertexPoint(&m, face, i) == pts[i],
            "points", vh::cat("vertex ", i, " of the face"));
        c.require(qv::distance(w[i], qvec3d(pts[i])) < 1e-6, "winding", "Face_Winding");
    }
    auto cen = Face_Centroid(&m, face);
    c.require(qv::distance(qvec3d(cen), c0) < 0.05, "centroid", vh::cat("centroid of a regular polygon off by ", qv::distance(qvec3d(cen), c0)));
    double apo = r * cos(M_PI / k);
    for (int it = 0; it < 6; ++it) {
        double a = c.s.f(0, 2 * M_PI), rr;
        bool inside = c.s.b();
        rr = inside ? c.s.f(0, apo - 0.5) : c.s.f(r + 0.5, r + 60);
        double off = c.s.pick<double>({0, 0.05, -0.05});
        qvec3d x = c0 + u * (rr * cos(a)) + v * (rr * sin(a)) + nn * off;
        // does the descent reach the node? (stay clear of the undecided band)
        V xv{x[0], x[1], x[2]};
        bool amb = false;
        std::function<bool(int)> reach = [&](int y) -> bool {
            if (y < 0)
                return false;
            double d = pd(m.dplanes[m.dnodes[y].planenum], xv);
            amb |= std::fabs(std::fabs(d) - 0.1) < 1e-3;
            if (y == node)
                return std::fabs(d) <= 0.1;
            if (d > 0.1)
                return reach(m.dnodes[y].children[0]);
            if (d < -0.1)
                return reach(m.dnodes[y].children[1]);
            bool r0 = reach(m.dnodes[y].children[0]), r1 = reach(m.dnodes[y].children[1]);
            return r0 || r1;
        };
        bool reached = reach(m.dmodels[0].headnode[0]);
        if (amb)
            continue;
        bool want = reached && inside;
        c.label(want ? "hit" : "miss");
        auto *mod = &m.dmodels[0];
        c.require(BSP_FindFaceAtPoint(&m, mod, x, fn) == (want ? face : nullptr), "find", vh::cat("face lookup, want ", want));
        c.require(BSP_FindFaceAtPoint(&m, mod, x) == (want ? face : nullptr), "find-any", vh::cat("face lookup without a normal, want ", want));
        c.require(BSP_FindFaceAtPoint(&m, mod, x, -fn) == nullptr, "find-opposite", "a face facing away was returned");
        auto v = BSP_FindFacesAtPoint(&m, mod, x, fn);
        c.require(v.size() == (want ? 1u : 0u), "find-all", vh::cat("found ", v.size(), " faces"));
        if (reached) {
            for (int sgn : {1, -1}) {
                auto *nd = BSP_FindNodeAtPoint(&m, mod, x, nn * sgn);
                // some node with this normal touching the point
                c.require(nd != nullptr, "node", "no node found at a point on the node's plane");
                auto &np = m.dplanes[nd->planenum];
                c.require(std::fabs(std::fabs(qv::dot(qvec3d(np.normal), nn)) - 1) < 0.011 && std::fabs(pd(np, xv)) <= 0.1 + 1e-6, "node-plane", "wrong node returned");
            }
        }
    }
    // leaf mark faces / brushes
    mleaf_t lf{};
    lf.firstmarksurface = 2;
    m.dleaffaces = {0, 0, 2, 1, 0, 2};
    lf.nummarksurfaces = (uint32_t)c.s.i(0, 4);
    auto mf = Leaf_Markfaces(&m, &lf);
    c.require(mf.size() == lf.nummarksurfaces, "markfaces", "count");
    for (size_t i = 0; i < mf.size(); ++i)
        c.require(mf[i] == &m.dfaces[m.dleaffaces[2 + i]], "markfaces", "wrong face");
    m.dbrushes.resize(4);
    m.dleafbrushes = {3, 1, 0, 2};
    lf.firstleafbrush = 1;
    lf.numleafbrushes = (uint32_t)c.s.i(0, 3);
    auto lb = Leaf_Brushes(&m, &lf);
    c.require(lb.size() == lf.numleafbrushes, "brushes", "count");
    for (size_t i = 0; i < lb.size(); ++i)
        c.require(lb[i] == &m.dbrushes[m.dleafbrushes[1 + i]], "brushes", "wrong brush");
    dmodelh2_t fm{};
    fm.firstface = 1;
    fm.numfaces = 1;
    auto bb = Model_BoundsOfFaces(m, fm);
    for (int ax = 0; ax < 3; ++ax) {
        float lo = 1e9, hi = -1e9;
        for (auto &x : pts) {
            lo = std::min(lo, x[ax]);
            hi = std::max(hi, x[ax]);
        }
        c.require(bb.mins()[ax] == lo && bb.maxs()[ax] == hi, "bounds", "Model_BoundsOfFaces");
    }
}

VH_MAIN("C05", "the tree has at least three nodes", (std::vector<std::string>{"points closer than 1e-9 to a splitting plane (1e-6 to the 0.1 tolerance band) are not judged"}),
    vh::Sub{"points", points, 15000, 500000}, vh::Sub{"faces", faces, 25000, 600000})
