// C20: visibility never misses a sight line, and stays within the documented bounds
#include "vismodel.hh"
#include "viscrash.hh"
using namespace vm;

static const double MARGIN = 0.75; // beam radius a sight line has to have
static const double GROW = 1.5; // how much portals are widened for the upper bound

struct Run
{
    int level = 4;
    bool fast = false;
    double visdist = 0;
    double ratio = -1; // -targetchecks
    int threads = 1;
    std::vector<std::string> args(const std::string &bsp) const
    {
        std::vector<std::string> a{"-threads", std::to_string(threads), "-nostate"};
        if (level != 4)
            a.insert(a.end(), {"-level", std::to_string(level)});
        if (fast)
            a.push_back("-fast");
        if (visdist > 0)
            a.insert(a.end(), {"-visdist", vh::cat(visdist)});
        if (ratio >= 0)
            a.insert(a.end(), {"-targetchecks", vh::cat(ratio)});
        a.push_back(bsp);
        return a;
    }
    std::string text() const { return vh::cat("level ", level, fast ? " fast" : "", visdist > 0 ? vh::cat(" visdist ", visdist) : std::string(), ratio >= 0 ? vh::cat(" targetchecks ", ratio) : std::string(), " threads ", threads); }
};

static Bits go(Case &c, const World &w, const Made &k, const Run &r, const bm::bytes &bsp)
{
    bm::spew(k.f.bsp, bsp);
    std::string log = c.scratch + "/log.txt";
    int rc = run_vis(r.args(k.f.bsp), {}, nullptr, &log);
    if (rc) {
        auto l = bm::slurp(log);
        c.fail("refused", vh::cat("vis ends with ", rc, " (", r.text(), "): ", std::string(l.begin(), l.end()).substr(0, 400)));
    }
    return read_rows(c, w, k, load(k.f.bsp));
}
static std::string set(const std::vector<bool> &v)
{
    std::string s;
    for (size_t i = 0; i < v.size(); ++i)
        if (v[i])
            s += vh::cat(" ", i);
    return s;
}

static void bounds(Case &c)
{
    Opt o;
    o.max_cells = c.thorough ? 120 : 70;
    o.lattice_only = c.s.chance(1, 2);
    World w = gen_world(c.s, o);
    bool q2 = c.s.chance(1, 3);
    Made k = write_world(c, w, q2);
    auto bsp = bm::slurp(k.f.bsp);
    int np = 0;
    for (auto &p : w.portals)
        np += p.written;
    Run r;
    r.level = c.s.chance(1, 2) ? 4 : (int)c.s.draw(5);
    r.threads = c.s.chance(1, 4) ? (int)c.s.i(2, 8) : 1;
    if (c.s.chance(1, 4))
        r.ratio = c.s.pick<double>({0, 1, 5, 100});
    if (c.s.chance(1, 5))
        r.visdist = c.s.f(w.grid / 2, w.grid * 6);
    c.describe(vh::cat(k.ver->short_name, ", ", w.cells, " cells, ", w.leafs, " leafs, ", w.clusters, " clusters, ", np, " portals, grid ", w.grid, ", ", r.text()));
    Bits full = go(c, w, k, r, bsp);
    Run rf = r;
    rf.fast = true;
    Bits fast = go(c, w, k, rf, bsp);

    // every cluster sees itself
    for (int i = 0; i < w.clusters; ++i) {
        c.require(full.cl[i][i] && fast.cl[i][i], "self", vh::cat("cluster ", i, " does not see itself"));
        for (int j = 0; j < w.clusters; ++j)
            if (full.cl[i][j] && !fast.cl[i][j])
                c.fail("fast", vh::cat("cluster ", i, " sees ", j, " but not with -fast"));
    }
    // upper bounds
    Ref ref(w, GROW);
    int hidden = 0, undecided = 0;
    for (int i = 0; i < w.clusters; ++i) {
        auto f = ref.fast(i, r.visdist);
        for (int j = 0; j < w.clusters; ++j)
            if (fast.cl[i][j] && !f[j])
                c.fail("fast-bound", vh::cat("-fast: cluster ", i, " lists ", j, ", which no chain of portals in front of one of its portals reaches", r.visdist > 0 ? " within -visdist" : "", "; listed", set(fast.cl[i]), "; reachable", set(f)));
        auto u = ref.full(i, r.level, r.visdist);
        if (u.empty()) {
            ++undecided;
            continue;
        }
        for (int j = 0; j < w.clusters; ++j) {
            if (full.cl[i][j] && !u[j])
                c.fail("flow-bound", vh::cat("cluster ", i, " lists ", j, ", hidden even through portals widened by ", GROW, "; listed", set(full.cl[i]), "; bound", set(u)));
            hidden += !u[j] && f[j];
        }
    }
    if (hidden)
        c.label("hidden-cluster");
    if (undecided)
        c.label("undecided-bound");
    // sight lines
    if (w.portals.empty())
        return;
    std::set<std::pair<int, int>> seen;
    size_t longest = 0;
    int lines = 120;
    for (int i = 0; i < lines; ++i) {
        int pi = (int)c.s.draw(w.portals.size());
        auto &p = w.portals[pi];
        V3 at = inside(c.s, p.w), dir;
        if (c.s.b()) {
            auto &p2 = w.portals[c.s.draw(w.portals.size())];
            dir = inside(c.s, p2.w) - at;
            if (len(dir) < 1)
                continue;
        } else {
            dir = {c.s.f(-1, 1), c.s.f(-1, 1), c.s.f(-1, 1)};
            if (len(dir) < 0.1)
                continue;
        }
        dir = unit(dir);
        Sight s = sight(w, pi, at, dir, MARGIN);
        longest = std::max(longest, s.leafs.size());
        for (size_t a = 0; a < s.leafs.size(); ++a)
            for (size_t b = a + 1; b < s.leafs.size(); ++b) {
                if (!seen.insert({s.leafs[a], s.leafs[b]}).second && r.visdist <= 0)
                    continue;
                // -visdist hides what lies beyond: every pair of portals on the way has to be near enough
                bool near_enough = true;
                if (r.visdist > 0)
                    for (size_t x = a + 1; x <= b && near_enough; ++x)
                        for (size_t y = x + 1; y <= b; ++y) {
                            auto &px = w.portals[s.via[x]], &py = w.portals[s.via[y]];
                            if (px.written && py.written && (Ref::nearest(px.w, py.p) > r.visdist - 0.01 || Ref::nearest(py.w, px.p) > r.visdist - 0.01))
                                near_enough = false;
                        }
                int ca = w.cluster[s.leafs[a]], cb = w.cluster[s.leafs[b]];
                if (!near_enough)
                    continue;
                double mc = 1e9;
                for (size_t x = a + 1; x <= b; ++x)
                    mc = std::min(mc, s.clear[x]);
                for (auto *bits : {&fast, &full})
                    for (int d = 0; d < 2; ++d)
                        if (!bits->cl[d ? cb : ca][d ? ca : cb])
                            c.fail(bits == &fast ? "fast-missing" : "missing",
                                vh::cat("cluster ", d ? cb : ca, " does not list ", d ? ca : cb, bits == &fast ? " (-fast)" : "", ", but a line through (", at.x, " ", at.y, " ", at.z, ") along (", dir.x, " ", dir.y, " ", dir.z, ") runs through ",
                                    b - a, " portals staying ", mc, " from their edges"));
            }
    }
    c.nt(longest >= 4 && hidden > 0);
    if (longest >= 6)
        c.label("long-line");
}

VH_MAIN("C20", "at least one sight line through 4 or more leafs was tested and at least one cluster that -fast could list is provably hidden",
    (std::vector<std::string>{"worlds are boxes cut into convex leafs by axial and oblique planes through a grid of 16, 32 or 64 units; portals with less than half a square unit are left out",
        "sight lines count only if they stay 0.75 units from the edges of every portal; the upper bound widens portals by 1.5 units"}),
    vh::Sub{"bounds", bounds, 2500, 200000, true})
