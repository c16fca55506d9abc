// C25: the portals, clusters and areas qbsp writes
#include "qmap.hh"
#include <common/entdata.h>
#include <sstream>
using namespace qm;

struct Prt
{
    int ver = 0, leafs = 0, clusters = 0;
    struct P
    {
        int front = 0, back = 0;
        Poly w;
        V n{};
        double d = 0;
    };
    std::vector<P> portals;
    std::vector<int> cluster; // of each leaf
    std::string lines;        // the portals as they stand
};
static Prt read(Case &c, const std::string &path)
{
    auto d = bm::slurp(path);
    std::istringstream in(std::string(d.begin(), d.end()));
    Prt r;
    std::string l;
    auto line = [&] {
        if (!std::getline(in, l))
            c.fail("prt", "too short");
        return l;
    };
    auto num = [&] {
        line();
        char *e;
        long v = strtol(l.c_str(), &e, 10);
        if (l.empty() || *e || v < 0)
            c.fail("prt", cat("not a count: ", l));
        return (int)v;
    };
    line();
    if (l == "PRT1")
        r.ver = 1;
    else if (l == "PRT2")
        r.ver = 2;
    else
        c.fail("prt", cat("header ", l));
    r.leafs = num();
    r.clusters = r.ver == 2 ? num() : r.leafs;
    int n = num();
    for (int i = 0; i < n; ++i) {
        line();
        r.lines += l + "\n";
        Prt::P p;
        const char *s = l.c_str();
        int used = 0, k = 0;
        if (sscanf(s, "%d %d %d%n", &k, &p.front, &p.back, &used) != 3 || k < 3)
            c.fail("prt", cat("portal ", i, ": ", l));
        s += used;
        for (int j = 0; j < k; ++j) {
            V v;
            used = 0;
            if (sscanf(s, " (%lf %lf %lf )%n", &v[0], &v[1], &v[2], &used) != 3 || !used)
                c.fail("prt", cat("portal ", i, " point ", j, ": ", l));
            s += used;
            p.w.push_back(v);
        }
        while (*s == ' ')
            ++s;
        if (*s)
            c.fail("prt", cat("portal ", i, " goes on: ", l));
        if (p.front < 0 || p.back < 0 || p.front >= r.clusters || p.back >= r.clusters || p.front == p.back)
            c.fail("prt", cat("portal ", i, " joins ", p.front, " and ", p.back, " of ", r.clusters));
        r.portals.push_back(p);
    }
    r.cluster.assign(r.leafs, -1);
    if (r.ver == 2) {
        for (int k = 0; k < r.clusters; ++k) {
            line();
            std::istringstream q(l);
            int v;
            int m = 0;
            bool end = false;
            while (q >> v) {
                if (end)
                    c.fail("prt", "a cluster goes on after -1");
                if (v == -1) {
                    end = true;
                    continue;
                }
                if (v < 0 || v >= r.leafs || r.cluster[v] >= 0)
                    c.fail("prt", cat("leaf ", v, " is listed wrongly or twice"));
                r.cluster[v] = k;
                ++m;
            }
            if (!end || !m)
                c.fail("prt", cat("cluster ", k, " is empty or does not end"));
        }
        for (int v : r.cluster)
            if (v < 0)
                c.fail("prt", "a leaf belongs to no cluster");
    } else
        for (int k = 0; k < r.leafs; ++k)
            r.cluster[k] = k;
    if (std::getline(in, l) && !l.empty())
        c.fail("prt", cat("more lines: ", l));
    for (size_t i = 0; i < r.portals.size(); ++i) {
        auto &p = r.portals[i];
        V n{};
        V o = mid(p.w);
        for (size_t k = 0; k < p.w.size(); ++k)
            n = n + cross(p.w[(k + 1) % p.w.size()] - o, p.w[k] - o);
        if (len(n) < 1e-6)
            c.fail("winding", cat("portal ", i, " has no area"));
        p.n = unit(n);
        p.d = dot(p.n, o);
        for (auto &q : p.w) {
            if (std::fabs(dot(p.n, q) - p.d) > 0.02)
                c.fail("winding", cat("portal ", i, " is not flat by ", dot(p.n, q) - p.d));
            if (inset(p.w, p.n, q, 0.05) < -0.02)
                c.fail("winding", cat("portal ", i, " is not convex at ", str(q)));
        }
    }
    return r;
}
// the leafs along a segment
static void leafs_on(const mbsp_t &b, int n, V p, V q, std::vector<int> &out)
{
    for (int guard = 0; n >= 0 && guard < 100000; ++guard) {
        double x = plane_at(b, b.dnodes[n].planenum, p), y = plane_at(b, b.dnodes[n].planenum, q);
        if (x >= 0 && y >= 0)
            n = b.dnodes[n].children[0];
        else if (x < 0 && y < 0)
            n = b.dnodes[n].children[1];
        else {
            int sd = x < 0;
            V m = p + (q - p) * (x / (x - y));
            leafs_on(b, b.dnodes[n].children[sd], p, m, out);
            leafs_on(b, b.dnodes[n].children[!sd], m, q, out);
            return;
        }
    }
    if (out.empty() || out.back() != -1 - n)
        out.push_back(-1 - n);
}
static bool is_detail(const Map &m, const Brush &b)
{
    if (m.q2)
        return b.contents & (1 << 27);
    return b.kind == DETAIL || b.kind == WALL || b.kind == FENCE || (b.kind == ILLUS && m.ents[b.ent].cls != "func_illusionary_visblocker");
}
static bool visblock(const Map &m, V p)
{
    for (auto &b : m.brushes)
        if (b.model == 0 && m.ents[b.ent].cls == "func_illusionary_visblocker" && b.b.in(p, 0))
            return true;
    return false;
}
static bool detail_at(const Map &m, V p)
{
    for (auto &b : m.brushes)
        if (b.model == 0 && is_detail(m, b) && b.b.in(p, 0.1))
            return true;
    return false;
}
static void portals(Case &c)
{
    Src &s = c.s;
    Opt o;
    o.visblock = true;
    o.overlap = s.b();
    o.detail = s.chance(3, 4);
    Map m = gen(c, o);
    if (s.chance(1, 3))
        m.args.push_back(m.q2 ? "-nochop" : "-chop");
    if (s.chance(1, 4))
        m.args.push_back("-nofill");
    bool precise = !m.has("-nofill");
    if (s.chance(1, 6)) {
        m.args.push_back("-forcegoodtree");
        precise = true;
    }
    if (!m.q2 && s.chance(1, 3))
        m.args.push_back("-notranswater");
    if (!m.q2 && (!o.detail || s.chance(1, 3))) {
        for (auto &e : m.ents)
            if (e.cls == "func_detail_illusionary")
                e.cls = "func_illusionary_visblocker";
        write_text(m);
    }
    bool force = !m.q2 && s.chance(1, 5);
    c.describe(about(m));
    Out out = compile(c, m);
    auto &b = out.bsp;
    if (out.pts)
        c.fail("leak", "a sealed map leaks");
    if (!out.prt)
        c.fail("prt", "no .prt");
    Prt prt = read(c, out.base + ".prt");
    if (force) {
        Out f = compile(c, m, "f", {"-forceprt1"});
        Prt q = read(c, f.base + ".prt");
        if (q.ver != 1 || q.leafs != prt.clusters || q.lines != prt.lines)
            c.fail("forceprt1", cat("PRT", q.ver, " with ", q.leafs, " of ", prt.clusters, " clusters, portals the same: ", q.lines == prt.lines));
        if (f.bytes != out.bytes)
            c.fail("forceprt1", "changes the map");
    }
    if (m.q2 && prt.ver != 1)
        c.fail("prt", "PRT2 in Quake II");
    // leafs and clusters
    std::vector<int> cluster(b.dleafs.size(), -1);
    std::vector<int> size(prt.clusters, 0);
    {
        std::vector<int> todo{b.dmodels[0].headnode[0]}, found;
        while (!todo.empty()) {
            int n = todo.back();
            todo.pop_back();
            if (n < 0) {
                found.push_back(-1 - n);
                continue;
            }
            todo.push_back(b.dnodes[n].children[1]);
            todo.push_back(b.dnodes[n].children[0]);
        }
        int k = 0, vis = 0;
        for (int l : found) {
            if (m.q2) {
                cluster[l] = b.dleafs[l].cluster;
                if ((cluster[l] < 0) != ((b.dleafs[l].contents & 1) != 0) || cluster[l] >= prt.clusters)
                    c.fail("cluster", cat("leaf ", l, " with contents ", b.dleafs[l].contents, " is in cluster ", cluster[l], " of ", prt.clusters));
                vis += cluster[l] >= 0;
            } else if (l) {
                if (l != ++k)
                    c.fail("leafs", cat("leaf ", l, " comes ", k, ". in the tree"));
                if (l > prt.leafs)
                    c.fail("leafs", cat("leaf ", l, ", but .prt has ", prt.leafs));
                cluster[l] = prt.cluster[l - 1];
                ++vis;
            }
            if (cluster[l] >= 0)
                ++size[cluster[l]];
        }
        if (!m.q2 && (vis != prt.leafs || b.dmodels[0].visleafs != vis))
            c.fail("leafs", cat(vis, " leafs, ", prt.leafs, " in .prt, ", b.dmodels[0].visleafs, " in the model"));
        for (int k = 0; k < prt.clusters; ++k)
            if (!size[k])
                c.fail("cluster", cat("cluster ", k, " has no leaf"));
    }
    std::string seen;
    // each portal lies between the clusters it names
    for (size_t i = 0; i < prt.portals.size(); ++i) {
        auto &p = prt.portals[i];
        for (int t = 0; t < 3; ++t) {
            V x = inside(s, p.w);
            if (inset(p.w, p.n, x, 0.05) < 1)
                continue;
            int f = cluster[leaf_at(b, 0, x + p.n * 0.01)], k = cluster[leaf_at(b, 0, x - p.n * 0.01)];
            // detail does not cut them
            if ((f == p.front || (f < 0 && detail_at(m, x))) && (k == p.back || (k < 0 && detail_at(m, x))))
                continue;
            if (f != p.front || k != p.back)
                c.fail("place", cat("portal ", i, " at ", str(x), " joins ", p.front, " and ", p.back, ", but lies between ", f, " and ", k));
        }
    }
    auto count = [&](V x, V n, int a, int k, std::string *why) {
        int r = 0;
        for (auto &p : prt.portals) {
            if (std::fabs(dot(p.n, x) - p.d) > 0.05 || std::fabs(dot(p.n, n)) < 0.999)
                continue;
            if (inset(p.w, p.n, x, 0.05) < -0.05)
                continue;
            bool same = dot(p.n, n) > 0;
            if ((same ? p.front : p.back) == a && (same ? p.back : p.front) == k)
                ++r;
            else
                *why += cat(" one between ", p.front, " and ", p.back);
        }
        return r;
    };
    auto clear = [&](const Map &mm, V p, V q) { // no plane of a structural brush between them
        for (auto &br : mm.brushes)
            if (br.model == 0 && !is_detail(mm, br))
                for (auto &pl : br.b.pl)
                    if ((pl.at(p) < 0.05) != (pl.at(q) < 0.05) || std::fabs(pl.at(p)) < 0.1 || std::fabs(pl.at(q)) < 0.1)
                        return false;
        return true;
    };
    // and wherever one cluster meets another there is one
    int judged = 0, open = 0, same = 0;
    bool details = false;
    for (auto &br : m.brushes)
        details = details || (br.model == 0 && is_detail(m, br));
    for (int t = 0; t < 80; ++t) {
        V p = sample(s, m, 0), q;
        double far = s.chance(1, 2) ? 30 : 200;
        for (int k = 0; k < 3; ++k)
            q[k] = p[k] + far * ((double)s.draw(2001) / 1000 - 1);
        if (cluster[leaf_at(b, 0, p)] < 0 || cluster[leaf_at(b, 0, q)] < 0)
            continue;
        if (precise && clear(m, p, q)) {
            ++same;
            if (cluster[leaf_at(b, 0, p)] != cluster[leaf_at(b, 0, q)])
                c.fail("detail", cat("only detail lies between ", str(p), " and ", str(q), ", but they are in clusters ", cluster[leaf_at(b, 0, p)], " and ", cluster[leaf_at(b, 0, q)]));
        }
        // where the line crosses a node's plane
        std::vector<std::pair<double, int>> cuts;
        {
            std::function<void(int, double, double)> walk = [&](int n, double t0, double t1) {
                if (n < 0)
                    return;
                V a = p + (q - p) * t0, e = p + (q - p) * t1;
                double x = plane_at(b, b.dnodes[n].planenum, a), y = plane_at(b, b.dnodes[n].planenum, e);
                if (x >= 0 && y >= 0)
                    walk(b.dnodes[n].children[0], t0, t1);
                else if (x < 0 && y < 0)
                    walk(b.dnodes[n].children[1], t0, t1);
                else {
                    double tm = t0 + (t1 - t0) * (x / (x - y));
                    cuts.push_back({tm, b.dnodes[n].planenum});
                    walk(b.dnodes[n].children[x < 0], t0, tm);
                    walk(b.dnodes[n].children[x >= 0], tm, t1);
                }
            };
            walk(b.dmodels[0].headnode[0], 0, 1);
        }
        for (auto &[tm, pn] : cuts) {
            V x = p + (q - p) * tm;
            V n = vec(b.dplanes[pn].normal);
            int A = leaf_at(b, 0, x + n * 0.3), B = leaf_at(b, 0, x - n * 0.3);
            if (A == B)
                continue;
            std::vector<int> on;
            leafs_on(b, b.dmodels[0].headnode[0], x + n * 0.3, x - n * 0.3, on);
            if (on.size() != 2)
                continue;
            bool good = true;
            V u = unit(cross(n, std::fabs(n[0]) < 0.9 ? V{1, 0, 0} : V{0, 1, 0})), v = cross(n, u);
            for (V d : {u, v, u * -1, v * -1})
                good = good && leaf_at(b, 0, x + n * 0.1 + d * 0.4) == A && leaf_at(b, 0, x - n * 0.1 + d * 0.4) == B;
            if (!good)
                continue;
            int ca = cluster[A], cb = cluster[B];
            if ((ca < 0 || cb < 0) && detail_at(m, x))
                continue;
            std::string why;
            int got = count(x, n, ca, cb, &why);
            if (!why.empty())
                c.fail("place", cat("at ", str(x), " clusters ", ca, " and ", cb, " meet, but there is", why));
            if (ca < 0 || cb < 0)
                continue; // count found none of such
            int want = 1;
            if (ca == cb)
                want = 0;
            else {
                // what can be seen through
                bool single = size[ca] == 1 && size[cb] == 1 && !details; // the clusters are these leafs
                int xa = b.dleafs[A].contents, xb = b.dleafs[B].contents;
                if (m.q2) {
                    auto bits = [](int k) { return k & (1 << 27 | 1 << 28) ? 0 : k; };
                    if (!single && (xa | xb) & 127)
                        continue;
                    if (!single) {
                        // someone else in the cluster may hold something
                        bool plain = true;
                        for (size_t l = 0; l < cluster.size(); ++l)
                            if (cluster[l] == ca || cluster[l] == cb)
                                plain = plain && !(b.dleafs[l].contents & 127);
                        if (!plain)
                            continue;
                    }
                    want = ((xa ^ xb) & 127) == 0 || ((bits(xa) ^ bits(xb)) & 127) == 0;
                } else {
                    if (!single && (m.has("-notranswater") || xa == -6 || xb == -6))
                        continue;
                    bool va = xa != -6 && visblock(m, x + n * 0.3), vb = xb != -6 && visblock(m, x - n * 0.3);
                    if (!single) {
                        bool any = false;
                        for (auto &e : m.ents)
                            any = any || e.cls == "func_illusionary_visblocker";
                        if (any && (details || !(va || vb)))
                            continue;
                    }
                    auto seen = [&](int k) { return k == -1 || k == -2 || (k <= -3 && k >= -5 && !m.has("-notranswater")) ? 0 : k; };
                    if (va || vb)
                        want = 0;
                    else
                        want = seen(xa) == seen(xb);
                    // liquids in one another are opaque to each other
                    auto liquids = [&](V y) {
                        uint64_t k = kinds(at(m, 0, y));
                        return k & (1ull << WATER | 1ull << SLIME | 1ull << LAVA);
                    };
                    if (m.has("-notranswater") && want && xa != -6 && !va && !vb)
                        want = liquids(x + n * 0.3) == liquids(x - n * 0.3);
                    // detail in water
                    if (m.has("-notranswater") && want == 0 && !va && !vb) {
                        bool det = false;
                        for (auto &br : m.brushes)
                            if (br.model == 0 && is_detail(m, br) && (br.b.in(x + n * 0.3, 0.5) || br.b.in(x - n * 0.3, 0.5)))
                                det = true;
                        if (det)
                            continue;
                    }
                }
            }
            ++judged;
            open += want;
            if (got != want)
                c.fail(want ? "missing" : "extra", cat(got, " portals at ", str(x), " between clusters ", ca, " and ", cb, " of contents ", b.dleafs[A].contents, " and ", b.dleafs[B].contents, ", not ", want));
        }
    }
    // hints divide
    for (auto &br : m.brushes) {
        if (br.kind != HINT || br.model != 0 || !precise)
            continue;
        for (int t = 0; t < 4; ++t) {
            size_t i = s.draw(br.faces.size());
            if (br.faces[i].empty())
                continue;
            V x = inside(s, br.faces[i]), n = br.b.pl[i].n;
            if (inset(br.faces[i], n, x, 0.05) < 0.5)
                continue;
            int A = leaf_at(b, 0, x + n * 0.2), B = leaf_at(b, 0, x - n * 0.2);
            if (cluster[A] < 0 || cluster[B] < 0)
                continue;
            if (cluster[A] == cluster[B])
                c.fail("hint", cat("the hint at ", str(x), " does not divide cluster ", cluster[A]));
        }
    }
    c.nt(judged > 20 && open > 5 && prt.portals.size() > 3);
}
// what lets nothing through
static Reach flood(const Map &m, bool ap)
{
    Reach r;
    for (auto &b : m.brushes)
        if (b.model == 0 && (b.kind == SOLID || b.kind == SKY || (b.kind == DETAIL) || (ap && b.kind == AREAPORTAL)))
            r.walls.push_back(&b.b);
    return r;
}
static void areas(Case &c)
{
    Src &s = c.s;
    Opt o;
    o.visblock = true;
    o.q2 = true;
    o.areaportals = true;
    o.leaks = s.chance(1, 4);
    o.maxbrushes = 8;
    o.models = false;
    Map m = gen(c, o);
    c.describe(about(m));
    Out out = compile(c, m);
    auto &b = out.bsp;
    auto ents = EntData_Parse(b);
    std::vector<int> ap; // brushes
    for (size_t i = 0; i < m.brushes.size(); ++i)
        if (m.brushes[i].kind == AREAPORTAL)
            ap.push_back((int)i);
    if (b.dareas.empty() || b.dareas[0].numareaportals)
        c.fail("areas", "area 0 has portals");
    if (out.pts) {
        if (!m.leak)
            c.fail("leak", "a sealed map leaks");
        if (b.dareas.size() != 2)
            c.fail("areas", cat(b.dareas.size(), " areas in a leaking map"));
        for (auto &l : b.dleafs)
            if (!(l.contents & 1) && l.area != 1)
                c.fail("areas", cat("a leaf of a leaking map is in area ", l.area));
        for (auto &e : ents)
            if (e.get("classname") == "func_areaportal" && e.has("style"))
                c.fail("areas", "an area portal of a leaking map has a number");
        c.nt(!ap.empty());
        return;
    }
    // numbers of the portals in order
    {
        int k = 0;
        for (auto &e : ents)
            if (e.get("classname") == "func_areaportal") {
                ++k;
                if (e.get("style") != std::to_string(k))
                    c.fail("style", cat("area portal ", k, " has style ", e.get("style")));
                if (e.has("model"))
                    c.fail("style", "an area portal has a model");
            }
        if (k != (int)ap.size())
            c.fail("style", cat(k, " area portals of ", ap.size()));
    }
    for (auto &l : b.dleafs)
        if (l.area < 0 || l.area >= (int)b.dareas.size() || ((l.contents & 1) && l.area))
            c.fail("areas", cat("a leaf with contents ", l.contents, " is in area ", l.area, " of ", b.dareas.size()));
    auto room = [&](V p) {
        for (size_t i = 0; i < m.rooms.size(); ++i) {
            bool in = true;
            for (int k = 0; k < 3; ++k)
                in = in && p[k] > m.rooms[i].first[k] + 0.1 && p[k] < m.rooms[i].second[k] - 0.1;
            if (in)
                return (int)i;
        }
        return -1;
    };
    std::vector<bool> closed(m.rooms.size(), true); // behind room i
    for (size_t i = 0; i + 1 < m.rooms.size(); ++i)
        closed[i] = m.part[i] != m.part[i + 1];
    std::vector<int> num(m.rooms.size(), 0);
    for (size_t k = 0; k < ap.size(); ++k)
        for (size_t i = 0; i + 1 < m.rooms.size(); ++i)
            if (m.ents[m.brushes[ap[k]].ent].kv[0].second == "a" + std::to_string(i)) {
                closed[i] = true;
                num[i] = (int)k + 1;
            }
    // where the people are
    Reach all = flood(m, true);
    std::vector<std::vector<V>> spots(m.rooms.size());
    std::vector<int> area(m.rooms.size(), 0);
    int judged = 0;
    auto area_of = [&](V p) { return b.dleafs[leaf_at(b, 0, p)].area; };
    // the rooms nobody can be cut off in: walled only by the generator's rooms
    auto clean = [&](V p) {
        double mg = margin(m, 0, p);
        return mg > 0.3 && !(b.dleafs[leaf_at(b, 0, p)].contents & 1) && !(b.dleafs[leaf_at(b, 0, p)].contents & 0x8000);
    };
    std::vector<V> pts;
    for (auto &q : m.occupants)
        if (clean(q))
            pts.push_back(q);
    for (int t = 0; t < 80; ++t) {
        V p = anywhere(s, m, 0);
        if (room(p) < 0 || !clean(p))
            continue;
        pts.push_back(p);
    }
    std::vector<int> group(pts.size());
    for (size_t i = 0; i < pts.size(); ++i) {
        int a = area_of(pts[i]);
        if (a == 0)
            c.fail("areas", cat("the leaf at ", str(pts[i]), " is in no area"));
        for (size_t j = 0; j < i; ++j) {
            int ri = room(pts[i]), rj = room(pts[j]);
            bool split = false;
            for (int k = std::min(ri, rj); k < std::max(ri, rj); ++k)
                split = split || closed[k];
            int a2 = area_of(pts[j]);
            if (split) {
                ++judged;
                if (a == a2)
                    c.fail("areas", cat(str(pts[i]), " and ", str(pts[j]), " are both in area ", a, " though cut off by a portal or wall"));
            } else if (all.see(pts[i], pts[j])) {
                ++judged;
                if (a != a2)
                    c.fail("areas", cat(str(pts[i]), " in area ", a, " sees ", str(pts[j]), " in area ", a2));
            }
        }
    }
    // the portals listed
    std::map<std::array<int, 3>, int> listed; // number, area, other
    std::vector<int> used(b.dareaportals.size(), 0);
    for (size_t i = 1; i < b.dareas.size(); ++i) {
        auto &d = b.dareas[i];
        for (int k = 0; k < (int)d.numareaportals; ++k) {
            size_t at = d.firstareaportal + k;
            if (at == 0 || at >= b.dareaportals.size())
                c.fail("portals", cat("area ", i, " lists portal ", at, " of ", b.dareaportals.size()));
            ++used[at];
            auto &q = b.dareaportals[at];
            if (q.portalnum < 1 || q.portalnum > ap.size() || q.otherarea >= b.dareas.size() || q.otherarea == i)
                c.fail("portals", cat("area ", i, " lists portal number ", q.portalnum, " of ", ap.size(), " to area ", q.otherarea));
            ++listed[{(int)q.portalnum, (int)i, (int)q.otherarea}];
        }
    }
    for (auto &[k, n] : listed)
        if (n != 1 || (k[2] && !listed.count({k[0], k[2], k[1]})))
            c.fail("portals", cat("portal ", k[0], " from area ", k[1], " to ", k[2], " is listed ", n, " times, back ", listed.count({k[0], k[2], k[1]})));
    // and where a portal can be walked through it is
    for (size_t i = 0; i + 1 < m.rooms.size(); ++i) {
        if (!num[i])
            continue;
        auto &pb = m.brushes[ap[num[i] - 1]];
        for (int t = 0; t < 6; ++t) {
            V p = inside(s, pb.faces), l = p, r = p;
            l[0] = pb.lo[0] - 1.5 - (double)s.draw(16);
            r[0] = pb.hi[0] + 1.5 + (double)s.draw(16);
            Reach open = flood(m, false);
            if (room(l) < 0 || room(r) < 0 || !clean(l) || !clean(r) || !open.see(l, r))
                continue;
            ++judged;
            int a = area_of(l), a2 = area_of(r);
            if (!listed.count({num[i], a, a2}))
                c.fail("portals", cat("portal ", num[i], " between areas ", a, " and ", a2, " is not listed"));
        }
    }
    c.nt(judged > 40 && !ap.empty());
}
VH_MAIN("C25", "portals: more than 20 meetings of leafs judged, 5 of them open, more than 3 portals; areas: more than 40 pairs judged and an area portal",
    (std::vector<std::string>{"meetings of leafs narrower than 0.8 units are not judged"}), vh::Sub{"portals", portals, 3000, 100000}, vh::Sub{"areas", areas, 1500, 50000})
