// C19: portal files
#include "vh.hh"
#include "bspmodel.hh"
#include <common/prtfile.hh>
#include <common/bspfile.hh>
#include <common/cmdlib.hh>
#include <fmt/core.h>
using vh::Case;

struct P
{
    int leaf[2];
    std::vector<std::array<double, 3>> pts;
};
struct Model
{
    int form = 0; // 0 PRT1, 1 PRT2, 2 PRT1-AM
    int leafs = 0, clusters = 0;
    std::vector<P> portals;
    std::vector<int> cluster; // of each leaf
};
static double coord(Case &c)
{
    switch (c.s.draw(5)) {
        case 0: return (double)c.s.ito(-64, 64, 0);
        case 1: return (double)c.s.ito(-4096, 4096, 0);
        case 2: return (double)c.s.ito(-40000, 40000, 0) / 8;
        case 3: return c.s.f(-4096, 4096);
        default: return c.s.f(-1, 1) * 1e-6;
    }
}
static std::string num(Case &c, double v)
{
    char b[64];
    if (v == std::floor(v) && c.s.b())
        snprintf(b, sizeof b, "%.0f", v);
    else if (c.s.chance(1, 4))
        snprintf(b, sizeof b, "%.17e", v);
    else
        snprintf(b, sizeof b, "%.17g", v);
    return b;
}
static Model gen(Case &c)
{
    Model m;
    m.form = (int)c.s.draw(3);
    m.clusters = c.s.count(1, 40);
    m.leafs = m.form == 0 ? m.clusters : m.clusters + (int)c.s.draw(10);
    int n = c.s.count(0, 12);
    for (int i = 0; i < n; ++i) {
        P p;
        for (auto &l : p.leaf)
            l = c.s.chance(1, 4) ? m.clusters - 1 : (int)c.s.draw(m.clusters);
        int k = c.s.chance(1, 8) ? (int)c.s.i(20, 64) : (int)c.s.i(3, 8);
        for (int j = 0; j < k; ++j)
            p.pts.push_back({coord(c), coord(c), coord(c)});
        m.portals.push_back(p);
    }
    for (int i = 0; i < m.leafs; ++i)
        m.cluster.push_back(m.form == 0 ? i : i < m.clusters && c.s.chance(1, 2) ? i : (int)c.s.draw(m.clusters));
    return m;
}
static std::string text(Case &c, const Model &m)
{
    static const char *magic[] = {"PRT1", "PRT2", "PRT1-AM"};
    std::string s = std::string(magic[m.form]) + "\n";
    std::string sep = c.s.chance(1, 4) ? " " : "\n";
    if (m.form == 0)
        s += vh::cat(m.clusters, sep, m.portals.size());
    else if (m.form == 1)
        s += vh::cat(m.leafs, sep, m.clusters, sep, m.portals.size());
    else
        s += vh::cat(m.clusters, sep, m.portals.size(), sep, m.leafs);
    s += "\n";
    std::string in = c.s.b() ? "" : " ", out = c.s.b() ? "" : " ", gap = c.s.chance(1, 4) ? "\n" : " ";
    for (auto &p : m.portals) {
        s += vh::cat(p.pts.size(), " ", p.leaf[0], " ", p.leaf[1], " ");
        for (auto &q : p.pts)
            s += "(" + in + num(c, q[0]) + " " + num(c, q[1]) + " " + num(c, q[2]) + out + ")" + gap;
        s += "\n";
    }
    if (m.form == 1)
        for (int k = 0; k < m.clusters; ++k) {
            for (int i = 0; i < m.leafs; ++i)
                if (m.cluster[i] == k)
                    s += vh::cat(i, " ");
            s += "-1\n";
        }
    else if (m.form == 2)
        for (int i = 0; i < m.leafs; ++i)
            s += vh::cat(m.cluster[i], "\n");
    return s;
}
static void exact(Case &c)
{
    Model m = gen(c);
    bool q2 = c.s.chance(1, 3);
    auto s = text(c, m);
    c.nt(!m.portals.empty());
    c.describe(vh::cat("form ", m.form, " ", m.clusters, " clusters ", m.leafs, " leafs ", m.portals.size(), " portals", q2 ? " quake 2" : ""));
    std::string path = c.scratch + "/m.prt";
    bm::spew(path, {s.begin(), s.end()});
    bool threw = false;
    prtfile_t r{};
    try {
        r = LoadPrtFile(path, q2 ? &bspver_q2 : &bspver_q1);
    } catch (const std::exception &e) {
        threw = true;
        c.require(q2 && m.form != 0, "refused", std::string("refused: ") + e.what());
    }
    if (q2 && m.form != 0) {
        c.require(threw, "q2-form", "Quake II accepted a form it cannot use");
        return;
    }
    c.require(r.portalleafs == m.clusters, "clusters", vh::cat(r.portalleafs, " not ", m.clusters));
    if (!q2)
        c.require(r.portalleafs_real == m.leafs, "leafs", vh::cat(r.portalleafs_real, " not ", m.leafs));
    c.require(r.portals.size() == m.portals.size(), "portals", vh::cat(r.portals.size(), " not ", m.portals.size()));
    for (size_t i = 0; i < m.portals.size(); ++i) {
        auto &g = r.portals[i];
        auto &w = m.portals[i];
        c.require(g.leafnums[0] == w.leaf[0] && g.leafnums[1] == w.leaf[1], "portal-leafs", vh::cat("portal ", i));
        c.require(g.winding.size() == w.pts.size(), "portal-points", vh::cat("portal ", i, " has ", g.winding.size(), " points"));
        for (size_t j = 0; j < w.pts.size(); ++j)
            for (int k = 0; k < 3; ++k)
                c.requiref(g.winding[j][k] == w.pts[j][k], "portal-coords", [&] { return vh::cat("portal ", i, " point ", j, ": ", g.winding[j][k], " not ", w.pts[j][k]); });
    }
    if (q2)
        return;
    if (m.form != 0 && m.leafs == m.clusters) {
        // as many leafs as clusters: the identity is assumed
        c.require(r.dleafinfos.size() == (size_t)m.leafs + 1, "map-size", vh::cat(r.dleafinfos.size()));
        return;
    }
    c.require(r.dleafinfos.size() == (size_t)m.leafs + 1, "map-size", vh::cat(r.dleafinfos.size(), " entries for ", m.leafs, " leafs"));
    for (int i = 0; i < m.leafs; ++i)
        c.require(r.dleafinfos[i + 1].cluster == m.cluster[i], "map", vh::cat("leaf ", i, " is in cluster ", r.dleafinfos[i + 1].cluster, " not ", m.cluster[i]));
}
static void damaged(Case &c)
{
    Model m = gen(c);
    if (c.s.b())
        m.clusters = std::min(m.clusters, 6); // leaf numbers near the limit
    auto s = text(c, m);
    std::string what;
    bool must = false; // certainly refused
    int k = (int)c.s.draw(6);
    if (k == 0) {
        // cut before the last number that is needed
        size_t need = s.find_last_of("0123456789");
        if (m.form == 0 && !m.portals.empty())
            must = true;
        else if (m.form != 0 && m.leafs != m.clusters)
            must = true;
        need = s.find_last_of("0123456789", need);
        while (need && isdigit((unsigned char)s[need - 1]))
            --need;
        s.resize(c.s.draw(need + 1));
        what = "cut";
    } else if (k == 1 && !m.portals.empty()) {
        auto &p = m.portals[c.s.draw(m.portals.size())];
        p.leaf[c.s.draw(2)] = c.s.pick<int>({m.clusters, m.clusters + 1, -1, 1 << 20, -2147483647 - 1});
        s = text(c, m);
        must = true;
        what = "leaf number";
    } else if (k == 2 && m.form != 0 && m.leafs != m.clusters) {
        int i = (int)c.s.draw(m.leafs);
        if (m.form == 2)
            m.cluster[i] = c.s.pick<int>({m.clusters, -1, 1 << 20}), s = text(c, m);
        else {
            size_t at = s.rfind("-1\n");
            s.insert(at, vh::cat(c.s.pick<int>({m.leafs, m.leafs + 1, 1 << 20}), " "));
        }
        must = true;
        what = "cluster map";
    } else if (k == 3 && !m.portals.empty()) {
        auto &p = m.portals[c.s.draw(m.portals.size())];
        int n = c.s.pick<int>({0, 1, 2, 65, 100});
        p.pts.resize(n);
        s = text(c, m);
        must = true;
        what = vh::cat(n, " points");
    } else {
        int n = 1 + (int)c.s.draw(3);
        for (int i = 0; i < n && !s.empty(); ++i) {
            size_t at = c.s.draw(s.size());
            switch (c.s.draw(3)) {
                case 0: s[at] = c.s.pick<char>({'(', ')', ' ', '-', 'x', '\n', '.', 'e', '0', '\0'}); break;
                case 1: s.erase(at, 1 + c.s.draw(10)); break;
                default: s.insert(at, c.s.pick<std::string>({" ", "-1 ", "(", ")", "1", " 0 "}));
            }
        }
        what = "edited";
    }
    c.nt();
    bool q2 = m.form == 0 && c.s.chance(1, 4);
    c.describe(vh::cat("form ", m.form, " ", m.clusters, "/", m.leafs, " ", what, q2 ? " quake 2" : ""));
    // a huge leaf count only asks for memory
    std::string path = c.scratch + "/m.prt";
    bm::spew(path, {s.begin(), s.end()});
    prtfile_t r{};
    try {
        r = LoadPrtFile(path, q2 ? &bspver_q2 : &bspver_q1);
    } catch (const std::exception &) {
        c.label("refused");
        return;
    }
    c.require(!must, "accepted", what + " was accepted");
    c.label("accepted");
    for (auto &p : r.portals) {
        c.require(p.leafnums[0] >= 0 && p.leafnums[0] < r.portalleafs && p.leafnums[1] >= 0 && p.leafnums[1] < r.portalleafs, "leaf-range", vh::cat(p.leafnums[0], " ", p.leafnums[1]));
        c.require(p.winding.size() >= 3 && p.winding.size() <= 64, "points-range", vh::cat(p.winding.size(), " points"));
        for (size_t j = 0; j < p.winding.size(); ++j)
            for (int k = 0; k < 3; ++k)
                (void)(volatile double)p.winding[j][k];
    }
    if (!q2) {
        c.require(r.dleafinfos.size() == (size_t)r.portalleafs_real + 1, "map-size", vh::cat(r.dleafinfos.size()));
        for (size_t i = 1; i < r.dleafinfos.size(); ++i)
            c.require(r.dleafinfos[i].cluster >= 0 && r.dleafinfos[i].cluster < std::max(1, r.portalleafs), "cluster-range", vh::cat("leaf ", i - 1));
    }
}
// debugging portal files hold every winding, and read back as such
static void debug(Case &c)
{
    std::vector<polylib::winding_t> ws;
    int n = c.s.count(0, 8);
    for (int i = 0; i < n; ++i) {
        int k = (int)c.s.i(3, 9);
        polylib::winding_t w(k);
        for (int j = 0; j < k; ++j)
            w[j] = {coord(c), coord(c), coord(c)};
        ws.push_back(std::move(w));
    }
    c.nt(n > 0);
    c.describe(vh::cat(n, " windings"));
    std::string path = c.scratch + "/d.prt";
    WriteDebugPortals(ws, path);
    auto d = bm::slurp(path);
    std::string s(d.begin(), d.end());
    std::istringstream in(s);
    std::string magic;
    int leafs, count;
    in >> magic >> leafs >> count;
    c.require(magic == "PRT1" && leafs == 0 && count == n, "debug-header", s.substr(0, 40));
    for (int i = 0; i < n; ++i) {
        int k, a, b;
        in >> k >> a >> b;
        c.require(in && k == (int)ws[i].size() && a == 0 && b == 0, "debug-portal", vh::cat("portal ", i));
        for (int j = 0; j < k; ++j) {
            char l = 0, r = 0;
            double v[3] = {};
            in >> l >> v[0] >> v[1] >> v[2] >> r;
            c.require(in && l == '(' && r == ')', "debug-syntax", vh::cat("portal ", i));
            for (int m = 0; m < 3; ++m)
                c.requiref(v[m] == ws[i][j][m], "debug-coords", [&] { return vh::cat(v[m], " not ", ws[i][j][m]); });
        }
    }
    in >> magic;
    c.require(in.eof(), "debug-end", "text after the portals");
}
VH_MAIN("C19", "the file has at least one portal, or was damaged",
    (std::vector<std::string>{"when leafs and clusters are equally many the reader assigns clusters by number whatever the map in the file says; the map is not checked then",
        "built with AddressSanitizer"}),
    vh::Sub{"exact", exact, 8000, 200000}, vh::Sub{"damaged", damaged, 14000, 400000, false, 10}, vh::Sub{"debug", debug, 3000, 60000})
