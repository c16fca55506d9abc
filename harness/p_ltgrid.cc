// C30: the grid of light for moving things
#include "ltcase.hh"

struct Reader
{
    Case &c;
    const std::vector<uint8_t> &d;
    size_t at = 0;
    uint8_t u8()
    {
        if (at >= d.size())
            c.fail("size", cat("the lump ends early, at ", d.size(), " bytes"));
        return d[at++];
    }
    uint32_t u32()
    {
        uint32_t r = u8();
        r |= u8() << 8;
        r |= u8() << 16;
        return r | (uint32_t)u8() << 24;
    }
    float f32()
    {
        uint32_t x = u32();
        float f;
        memcpy(&f, &x, 4);
        return f;
    }
};
using I3 = std::array<int, 3>;
struct Point
{
    bool occluded = false, seen = false;
    std::vector<std::pair<int, std::array<int, 3>>> styles;
};
struct Grid
{
    V dist{}, mins{};
    I3 size{};
    int styles = 0;
    std::vector<Point> pts;
    int leafs = 0, nodes = 0;
    Point &at(int x, int y, int z) { return pts[x + size[0] * (y + (size_t)size[1] * z)]; }
};
static Grid parse(Case &c, const std::vector<uint8_t> &d)
{
    Reader r{c, d};
    Grid g;
    for (auto &x : g.dist)
        x = r.f32();
    for (auto &x : g.size)
        x = (int)r.u32();
    for (auto &x : g.mins)
        x = r.f32();
    g.styles = r.u8();
    for (auto x : g.size)
        if (x < 0 || x > 4096)
            c.fail("size", cat("grid of ", g.size[0], "x", g.size[1], "x", g.size[2]));
    uint32_t root = r.u32();
    struct Node
    {
        I3 at;
        std::array<uint32_t, 8> kid;
        int used = 0;
    };
    struct Leaf
    {
        I3 mins, size;
        std::vector<Point> pts;
        int used = 0;
    };
    uint32_t n = r.u32();
    if ((size_t)n * 44 > d.size())
        c.fail("size", cat(n, " nodes"));
    std::vector<Node> nodes(n);
    for (auto &x : nodes) {
        for (auto &k : x.at)
            k = (int)r.u32();
        for (auto &k : x.kid)
            k = r.u32();
    }
    n = r.u32();
    if ((size_t)n * 24 > d.size())
        c.fail("size", cat(n, " leafs"));
    std::vector<Leaf> leafs(n);
    for (auto &x : leafs) {
        for (auto &k : x.mins)
            k = (int)r.u32();
        for (auto &k : x.size)
            k = (int)r.u32();
        size_t count = (size_t)x.size[0] * x.size[1] * x.size[2];
        if (count > d.size())
            c.fail("size", "leaf larger than the lump");
        for (size_t i = 0; i < count; ++i) {
            Point p;
            int k = r.u8();
            if (k == 255)
                p.occluded = true;
            else
                for (int j = 0; j < k; ++j) {
                    int style = r.u8();
                    int R = r.u8(), G = r.u8(), B = r.u8();
                    p.styles.push_back({style, {R, G, B}});
                }
            x.pts.push_back(std::move(p));
        }
    }
    if (r.at != d.size())
        c.fail("size", cat("the lump has ", d.size(), " bytes, its contents ", r.at));
    g.leafs = (int)leafs.size();
    g.nodes = (int)nodes.size();
    g.pts.resize((size_t)g.size[0] * g.size[1] * g.size[2]);
    // every point by the way an engine looks it up
    for (int z = 0; z < g.size[2]; ++z)
        for (int y = 0; y < g.size[1]; ++y)
            for (int x = 0; x < g.size[0]; ++x) {
                uint32_t i = root;
                int depth = 0;
                while (!(i & 0xC0000000u)) {
                    if (i >= nodes.size() || ++depth > 32)
                        c.fail("tree", cat("leads to node ", i, " of ", nodes.size()));
                    auto &nd = nodes[i];
                    nd.used = 1;
                    i = nd.kid[4 * (x >= nd.at[0]) + 2 * (y >= nd.at[1]) + (z >= nd.at[2])];
                }
                Point &p = g.at(x, y, z);
                if (i & 0x40000000u) {
                    p.occluded = true;
                    continue;
                }
                i &= 0x3fffffffu;
                if (i >= leafs.size())
                    c.fail("tree", cat("leads to leaf ", i, " of ", leafs.size()));
                auto &l = leafs[i];
                I3 rel{x - l.mins[0], y - l.mins[1], z - l.mins[2]};
                for (int k = 0; k < 3; ++k)
                    if (rel[k] < 0 || rel[k] >= l.size[k])
                        c.fail("tree", cat("point ", x, " ", y, " ", z, " leads to leaf ", i, ", which is from ", l.mins[0], " ", l.mins[1], " ", l.mins[2], " and of size ", l.size[0], " ", l.size[1], " ", l.size[2]));
                ++l.used;
                p = l.pts[rel[0] + l.size[0] * (rel[1] + (size_t)l.size[1] * rel[2])];
            }
    for (auto &l : leafs)
        if (l.used != l.size[0] * l.size[1] * l.size[2])
            c.fail("tree", cat("a leaf of ", l.size[0], "x", l.size[1], "x", l.size[2], " points is used for ", l.used));
    for (auto &x : nodes)
        if (!x.used)
            c.fail("tree", "a node is not used");
    return g;
}
// what the leafs around a point are: 1 open, 2 solid
static int around(const mbsp_t &b, int n, V p, bool q2)
{
    while (n >= 0) {
        double d = plane_at(b, b.dnodes[n].planenum, p);
        if (std::fabs(d) < 0.15)
            return around(b, b.dnodes[n].children[0], p, q2) | around(b, b.dnodes[n].children[1], p, q2);
        n = b.dnodes[n].children[d < 0];
    }
    int k = b.dleafs[-1 - n].contents;
    return (q2 ? k & 1 : k == -2 || k == -6) ? 2 : 1;
}
// the light at a point, whichever way one looks; nothing if it depends on hairs
static std::optional<std::map<int, V>> want(const Setup &u, const std::vector<Face> &world, V p)
{
    std::map<int, V> r;
    auto &walls = u.model.of.at(-1);
    auto &w = u.model.w;
    if (walls.near(p, 0.3))
        return {};
    auto side = [](V d) { return std::max({std::fabs(d[0]), std::fabs(d[1]), std::fabs(d[2])}); };
    for (bool positive : {true, false}) {
        for (auto &l : u.model.lights) {
            if (l.formula == 4 || (l.light > 0) != positive || l.light == 0)
                continue;
            V to = l.at - p;
            double dist = len(to);
            if (dist < 0.2)
                return {};
            // the side of a cube that gets most
            V n{};
            int k = 0;
            for (int i = 1; i < 3; ++i)
                if (std::fabs(to[i]) > std::fabs(to[k]))
                    k = i;
            n[k] = to[k] > 0 ? 1 : -1;
            bool unsure = false;
            V x = contribution(w, l, n, p, true, unsure);
            double b = std::fabs(bright(x));
            if (unsure)
                return {};
            if (b <= w.gate * 0.99)
                continue;
            if (b <= w.gate * 1.01)
                return {};
            int v = walls.between(p, l.at);
            if (v < 0 || slips(world, p, l.at))
                return {};
            if (!v)
                r[l.style] = r[l.style] + x;
        }
        for (auto &l : u.model.suns) {
            if ((l.light > 0) != positive || l.light == 0)
                continue;
            V x = l.color * ((1 - l.anglescale + l.anglescale * side(l.to)) * l.light / 255);
            double b = std::fabs(bright(x));
            if (b <= w.gate * 0.99)
                continue;
            if (b <= w.gate * 1.01)
                return {};
            int v = walls.sees_sky(p, l.to);
            if (v < 0 || slips(world, p, p + l.to * 8000))
                return {};
            if (v)
                r[l.style] = r[l.style] + x;
        }
    }
    for (auto &[k, v] : r)
        v = finish(w, v);
    return r;
}
static void grid(Case &c)
{
    Setup u;
    setup(c, u);
    Src &s = c.s;
    auto &m = u.m;
    std::vector<std::string> args{"-visapprox", "none", "-bounce", "0", "-lightgrid"};
    V dist{32, 32, 32};
    if (s.chance(3, 4)) {
        double all = s.pick<double>({24, 40, 64, 20.5});
        for (auto &x : dist)
            x = s.b() ? all : s.pick<double>({16, 24, 48, 96, 33});
        args.push_back("-lightgrid_dist");
        for (auto x : dist)
            args.push_back(f2s(x));
    }
    if (s.chance(1, 4)) {
        u.model.w.gate = s.pick<double>({0.5, 1, 0.001});
        args.push_back("-gate");
        args.push_back(f2s(u.model.w.gate));
    }
    // bounds
    V lo{1e9, 1e9, 1e9}, hi{-1e9, -1e9, -1e9};
    auto fs = faces(u.out.bsp, m.q2);
    for (auto &f : fs)
        if (!f.model)
            for (auto &p : f.pts)
                for (int k = 0; k < 3; ++k) {
                    lo[k] = std::min(lo[k], p[k]);
                    hi[k] = std::max(hi[k], p[k]);
                }
    std::string hints;
    if (s.chance(1, 3)) {
        int n = (int)s.i(1, 4);
        V a{1e9, 1e9, 1e9}, b{-1e9, -1e9, -1e9};
        for (int i = 0; i < n; ++i) {
            V p{};
            for (int k = 0; k < 3; ++k) {
                p[k] = (double)s.i((int)m.lo[k] - 20, (int)m.hi[k] + 20);
                a[k] = std::min(a[k], p[k]);
                b[k] = std::max(b[k], p[k]);
            }
            Ent e{"info_null"};
            e.origin = p;
            e.kv.push_back({"_lightgrid_hint", "1"});
            hints += text_of(e);
        }
        if (b[0] > a[0] && b[1] > a[1] && b[2] > a[2])
            lo = a, hi = b, c.label("hints");
        set_entities(u.out.base, u.ents + hints);
    }
    double total = 1;
    for (int k = 0; k < 3; ++k)
        total *= std::ceil((hi[k] - lo[k]) / dist[k]);
    if (total > 60000)
        c.fail("harness", cat("grid of ", total)); // the maps are not that large
    c.describe(about(u));
    for (auto &a : args)
        c.describe(a);
    c.describe(hints);
    std::vector<uint8_t> before = bm::slurp(u.out.base + ".bsp");
    int threads = (int)s.i(1, 4);
    if (threads > 1) {
        args.push_back("-threads");
        args.push_back(std::to_string(threads));
    }
    Lit r = light(u.out.base, args);
    if (!r.bspx.count("LIGHTGRID_OCTREE"))
        c.fail("lump", "no LIGHTGRID_OCTREE");
    auto lump = r.bspx.at("LIGHTGRID_OCTREE");
    Grid g = parse(c, lump);
    for (int k = 0; k < 3; ++k) {
        if (std::fabs(g.dist[k] - dist[k]) > 1e-4 || std::fabs(g.mins[k] - lo[k]) > 1e-3)
            c.fail("frame", cat("distances ", str(g.dist), ", from ", str(g.mins), "; should be ", str(dist), " and ", str(lo)));
        double x = (hi[k] - lo[k]) / dist[k], n = std::ceil(x);
        if (g.size[k] != (int)n && std::fabs(x - std::round(x)) > 1e-4)
            c.fail("frame", cat("size ", g.size[0], " ", g.size[1], " ", g.size[2], " for ", str(lo), " to ", str(hi), " at ", str(dist)));
    }
    // the points
    int checked = 0, shut = 0, lit = 0, most = 0, nudged = 0;
    auto moved_ = moved(u, faces(r.bsp, m.q2));
    for (auto &p : g.pts)
        most = std::max(most, (int)p.styles.size());
    if (most != g.styles && !(g.pts.empty()))
        c.fail("styles", cat("the lump says ", g.styles, " styles at most, a point has ", most));
    int n = (int)g.pts.size(), step = std::max(1, n / 300);
    int root = r.bsp.dmodels[0].headnode[0];
    for (int i = n ? (int)s.draw(step) : 0; i < n; i += step) {
        int x = i % g.size[0], y = i / g.size[0] % g.size[1], z = i / g.size[0] / g.size[1];
        V at{lo[0] + x * dist[0], lo[1] + y * dist[1], lo[2] + z * dist[2]}, p = at;
        int k = around(r.bsp, root, p, m.q2);
        bool sure = k != 3;
        if (k == 2)
            for (int j = 0; j < 6 && sure && k == 2; ++j) {
                V q = at;
                q[j / 2] += j % 2 ? 2 : -2;
                int o = around(r.bsp, root, q, m.q2);
                if (o == 3)
                    sure = false;
                else if (o == 1)
                    p = q, k = 1, ++nudged;
            }
        if (!sure)
            continue;
        auto &got = g.pts[i];
        if (got.occluded != (k == 2))
            c.fail("solid", cat("the point ", str(at), " is ", k == 2 ? "in the solid" : "open", ", the grid says otherwise"));
        if (k == 2) {
            ++shut;
            continue;
        }
        std::set<int> seen;
        for (auto &[st, col] : got.styles)
            if (!seen.insert(st).second)
                c.fail("styles", cat("the point ", str(at), " has style ", st, " twice"));
        bool inside = false;
        for (auto *b : u.casters)
            inside = inside || b->in(p, 0.3);
        if (inside)
            continue;
        auto e = want(u, moved_, p);
        if (!e || e->size() > 4)
            continue;
        ++checked;
        for (auto &[st, col] : got.styles) {
            V x = e->count(st) ? e->at(st) : V{};
            if (e->count(st))
                lit += bright(x) > 2;
            for (int j = 0; j < 3; ++j) {
                double tol = 0.8 + x[j] * 0.004, up = 0;
                if (u.model.w.gamma > 1) {
                    double gm = u.model.w.gamma;
                    up = 255 * std::pow(std::pow(std::max(x[j], 0.0) / 255, gm) + 0.02 / 255, 1 / gm) - x[j];
                }
                if (col[j] < x[j] - tol - up || col[j] > x[j] + tol + up)
                    c.fail("colour", cat("the point ", str(p), " has ", col[0], " ", col[1], " ", col[2], " of style ", st, ", not ", str(x)));
            }
        }
        for (auto &[st, x] : *e)
            if (!seen.count(st) && bright(x) > 1.1)
                c.fail("style missing", cat("the point ", str(p), " is lit ", str(x), " by style ", st));
    }
    if (s.chance(1, 6)) {
        // nothing else changes, however many threads there are
        auto slim = [&](const std::vector<uint8_t> &b, const std::vector<std::string> &a) {
            std::ofstream(u.out.base + ".bsp", std::ios::binary).write((const char *)b.data(), b.size());
            return light(u.out.base, a);
        };
        args = {args.begin(), threads > 1 ? args.end() - 2 : args.end()};
        Lit one = slim(before, args);
        if (!one.bspx.count("LIGHTGRID_OCTREE") || one.bspx.at("LIGHTGRID_OCTREE") != lump)
            c.fail("threads", cat("the lump differs between ", threads, " threads and one"));
        args.erase(std::find(args.begin(), args.end(), "-lightgrid"));
        Lit none = slim(before, args);
        if (none.bspx.count("LIGHTGRID_OCTREE"))
            c.fail("lump", "a LIGHTGRID_OCTREE without -lightgrid");
        // (where they are stored is a matter of which face is ready first)
        for (auto &f : fs) {
            if (m.q2 && f.flags & 4) // lit only if there is no grid to find the light of what is below it
                continue;
            auto &a = none.bsp.dfaces[f.num], &b = one.bsp.dfaces[f.num];
            size_t size = (size_t)f.size[0] * f.size[1] * (m.q2 || m.ver == &bspver_hl ? 3 : 1), k = 0;
            while (k < 4 && a.styles[k] != 255)
                ++k;
            if (a.styles != b.styles || (a.lightofs < 0) != (b.lightofs < 0) || (a.lightofs >= 0 && f.sure && memcmp(none.bsp.dlightdata.data() + a.lightofs, one.bsp.dlightdata.data() + b.lightofs, size * k)))
                c.fail("lump", cat("the light of face ", f.num, " differs with -lightgrid: ", k, " styles ", (int)a.styles[0], " and ", (int)b.styles[0], " at ", a.lightofs, " and ", b.lightofs, ", ", size, " each"));
        }
        c.label("run again");
    }
    c.nt(checked > 20 && lit > 5 && shut > 0);
    if (g.nodes)
        c.label("nodes");
    if (nudged)
        c.label("nudged");
    if (shut)
        c.label("solid points");
}
static const std::vector<std::string> assume{};
VH_MAIN("C30", "more than 20 points of the grid were compared, more than 5 colours of them bright, and some points were in the solid", assume,
    vh::Sub{"grid", grid, 500, 10000, false, 120, false})
