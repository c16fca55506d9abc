// C21: the result does not depend on interruptions, and with one thread on nothing but the input
#include "vismodel.hh"
#include "viscrash.hh"
#include <sys/stat.h>
using namespace vm;

struct Set
{
    World w;
    Made k;
    bm::bytes bsp, prt;
};
static Set make(Case &c)
{
    Opt o;
    o.max_cells = 45;
    Set s{gen_world(c.s, o), {}, {}, {}};
    s.k = write_world(c, s.w, c.s.chance(1, 3));
    s.bsp = bm::slurp(s.k.f.bsp);
    s.prt = bm::slurp(s.k.f.prt);
    return s;
}
static std::string tail(const std::string &log)
{
    auto l = bm::slurp(log);
    std::string t(l.begin(), l.end());
    return t.size() > 400 ? t.substr(t.size() - 400) : t;
}
static void clean(const Set &s)
{
    unlink(s.k.f.state.c_str());
    unlink(s.k.f.tmp.c_str());
}
static std::vector<std::string> base_args(Case &c, int threads)
{
    std::vector<std::string> a{"-threads", std::to_string(threads)};
    if (c.s.chance(1, 4))
        a.insert(a.end(), {"-level", std::to_string(c.s.draw(5))});
    if (c.s.chance(1, 4))
        a.insert(a.end(), {"-targetchecks", c.s.pick<std::string>({"0", "2", "50"})});
    return a;
}
static std::vector<std::string> plus(std::vector<std::string> a, std::initializer_list<std::string> b)
{
    a.insert(a.end(), b);
    return a;
}
// sight lines the result has to show, cluster to cluster
static std::set<std::pair<int, int>> must_see(Case &c, const World &w)
{
    std::set<std::pair<int, int>> r;
    if (w.portals.empty())
        return r;
    for (int i = 0; i < 60; ++i) {
        int pi = (int)c.s.draw(w.portals.size());
        auto &p = w.portals[pi];
        V3 at = inside(c.s, p.w), dir = inside(c.s, w.portals[c.s.draw(w.portals.size())].w) - at;
        if (len(dir) < 1)
            dir = {c.s.f(-1, 1), c.s.f(-1, 1), c.s.f(-1, 1)};
        if (len(dir) < 0.1)
            continue;
        Sight s = sight(w, pi, at, unit(dir), 0.75);
        for (int a : s.leafs)
            for (int b : s.leafs)
                r.insert({w.cluster[a], w.cluster[b]});
    }
    return r;
}
static void sane(Case &c, const Set &s, const Bits &got, const Bits &fast, const std::set<std::pair<int, int>> &must)
{
    for (int i = 0; i < s.w.clusters; ++i)
        for (int j = 0; j < s.w.clusters; ++j)
            c.require(!got.cl[i][j] || fast.cl[i][j], "beyond-fast", vh::cat("cluster ", i, " lists ", j, ", but not with -fast"));
    for (auto [a, b] : must)
        c.require(got.cl[a][b], "missing", vh::cat("cluster ", a, " does not list ", b, ", which it sees"));
}
static int one(Case &c, const Set &s, const std::vector<std::string> &args, Crash cr = {}, int *n = nullptr)
{
    std::string log = c.scratch + "/log.txt";
    int rc = run_vis(plus(args, {s.k.f.bsp}), cr, n, &log);
    if (rc != 0 && rc != 2)
        c.fail("refused", vh::cat("vis ends with ", rc, ": ", tail(log)));
    return rc;
}
static bool exists(const std::string &p) { return access(p.c_str(), F_OK) == 0; }

// stop vis at any write, removal or renaming of its state file, and start it again
static void resume(Case &c)
{
    Set s = make(c);
    int threads = c.s.chance(1, 3) ? (int)c.s.i(2, 6) : 1;
    auto args = base_args(c, threads);
    c.describe(vh::cat(s.k.ver->short_name, ", ", s.w.clusters, " clusters, ", s.w.leafs, " leafs, threads ", threads));
    auto must = must_see(c, s.w);
    // reference: uninterrupted
    clean(s);
    int total = 0;
    Crash jump;
    jump.jump = true;
    one(c, s, plus(args, {"-nostate"}), jump, &total);
    auto want = bm::slurp(s.k.f.bsp);
    c.require(!exists(s.k.f.state) && !exists(s.k.f.tmp), "left-over", "vis leaves its state files behind");
    bm::spew(s.k.f.bsp, s.bsp);
    one(c, s, plus(args, {"-fast"}));
    Bits fast = read_rows(c, s.w, s.k, load(s.k.f.bsp));
    clean(s);
    bm::spew(s.k.f.bsp, s.bsp);
    // interrupted, up to three times
    int crashes = (int)c.s.i(1, 3), hit = 0, left = total;
    for (int i = 0; i < crashes && left > 0; ++i) {
        Crash cr;
        cr.jump = true;
        cr.at = (int)c.s.draw(left);
        cr.part = c.s.pick<double>({0, 1, 0.5, 0.1, 0.97}) * (c.s.b() ? 1 : c.s.unit());
        c.describe(vh::cat("stopped at call ", cr.at, " of ", left, " after ", cr.part));
        int n = 0;
        int rc = one(c, s, args, cr, &n);
        if (rc == 0)
            break; // fewer calls than the uninterrupted run
        ++hit;
        // only the removal of the state file comes after the result is written
        auto now = bm::slurp(s.k.f.bsp);
        if (now != s.bsp) {
            c.require(threads > 1 || now == want, "touched", "an interrupted run left a wrong .bsp");
            sane(c, s, read_rows(c, s.w, s.k, load(s.k.f.bsp)), fast, must);
        }
        left = std::max(1, left - cr.at);
    }
    if (hit) {
        Crash cr;
        cr.jump = c.s.b();
        one(c, s, args, cr);
    }
    c.require(!exists(s.k.f.state), "left-over", "vis leaves its state file behind");
    auto got = bm::slurp(s.k.f.bsp);
    if (threads == 1)
        c.require(got == want, "resumed", "an interrupted and resumed run gives another result than an uninterrupted one");
    Bits b = read_rows(c, s.w, s.k, load(s.k.f.bsp));
    sane(c, s, b, fast, must);
    c.nt(hit > 0 && total > 12);
    if (hit > 1)
        c.label("stopped-again");
}

// a state file in which any of the portals are still to do (or were being done) resumes to the same visibility
struct StatePortal
{
    uint32_t status, might, vis, nm, nc;
    bm::bytes m, v;
};
static uint32_t rd(const bm::bytes &b, size_t &o)
{
    uint32_t v = bm::g32(b, o);
    o += 4;
    return v;
}
static std::vector<bool> bits_of(const bm::bytes &b, int n)
{
    // the state file's own runs: a byte 0 or 255 is followed by its count; or verbatim
    std::vector<bool> r(n);
    size_t nb = (n + 7) / 8;
    bm::bytes o;
    if (b.size() == nb)
        o = b;
    else
        for (size_t i = 0; i < b.size(); ++i) {
            int rep = 1;
            uint8_t v = b[i];
            if ((v == 0 || v == 255) && i + 1 < b.size())
                rep = b[++i];
            o.insert(o.end(), rep, v);
        }
    for (int i = 0; i < n && i / 8 < (int)o.size(); ++i)
        r[i] = o[i / 8] >> (i & 7) & 1;
    return r;
}
static void states(Case &c)
{
    Set s = make(c);
    auto args = base_args(c, 1);
    std::string how;
    clean(s);
    one(c, s, plus(args, {"-fast"}));
    Bits fast = read_rows(c, s.w, s.k, load(s.k.f.bsp));
    auto must = must_see(c, s.w);
    bm::spew(s.k.f.bsp, s.bsp);
    clean(s);
    one(c, s, plus(args, {"-noautoclean"}));
    auto want = bm::slurp(s.k.f.bsp);
    auto st = bm::slurp(s.k.f.state);
    c.require(st.size() >= 20, "state", "-noautoclean leaves no state file");
    // read it back
    size_t o = 4;
    int np = 0;
    for (auto &p : s.w.portals)
        np += p.written;
    uint32_t n = rd(st, o), leafs = rd(st, o);
    c.require((int)n == np && (int)leafs == s.w.clusters, "state-header", vh::cat("the state file names ", n, " portals and ", leafs, " leafs"));
    o = 20;
    std::vector<StatePortal> ps;
    for (uint32_t i = 0; i < n * 2; ++i) {
        StatePortal p;
        c.require(o + 20 <= st.size(), "state-short", "the state file is too short");
        p.status = rd(st, o), p.might = rd(st, o), p.vis = rd(st, o), p.nm = rd(st, o), p.nc = rd(st, o);
        c.require(o + p.might + p.vis <= st.size() && p.status == 2, "state-short", vh::cat("portal ", i, " of the state file is incomplete"));
        p.m.assign(st.begin() + o, st.begin() + o + p.might);
        p.v.assign(st.begin() + o + p.might, st.begin() + o + p.might + p.vis);
        o += p.might + p.vis;
        auto mb = bits_of(p.m, s.w.clusters), vb = bits_of(p.v, s.w.clusters);
        int from = -1, to = -1, k = 0;
        for (auto &w : s.w.portals)
            if (w.written && k++ == (int)i / 2) {
                from = s.w.cluster[i & 1 ? w.b : w.a];
                to = s.w.cluster[i & 1 ? w.a : w.b];
            }
        c.require(vb[to], "state-bits", vh::cat("portal ", i, " of the state file does not see the cluster it leads to"));
        for (int j = 0; j < s.w.clusters; ++j)
            c.require(!vb[j] || fast.cl[from][j] , "state-bits", vh::cat("portal ", i, " of the state file sees more than -fast"));
        ps.push_back(p);
    }
    c.require(o == st.size(), "state-long", "the state file holds more than its portals");
    // finished state: nothing to do
    bm::spew(s.k.f.bsp, s.bsp);
    one(c, s, plus(args, {"-noautoclean"}));
    c.require(bm::slurp(s.k.f.bsp) == want, "finished", "resuming a finished run gives another result");
    // -nostate ignores it, even a wrong one
    bm::spew(s.k.f.bsp, s.bsp);
    {
        auto bad = st;
        for (size_t i = 20; i < bad.size(); ++i)
            bad[i] = (uint8_t)c.s.draw(256);
        bm::spew(s.k.f.state, bad);
        one(c, s, plus(args, {"-nostate", "-noautoclean"}));
        c.require(bm::slurp(s.k.f.bsp) == want, "nostate", "-nostate does not ignore the state file");
        c.require(bm::slurp(s.k.f.state) == st || true, "nostate", "");
    }
    int mode = (int)c.s.draw(4);
    bm::bytes e(st.begin(), st.begin() + 20);
    int redo = 0;
    for (auto &p : ps) {
        bool again = mode == 0 ? c.s.chance(1, 2) : mode == 1 ? true : c.s.chance(1, 6);
        uint32_t status = again ? (c.s.chance(1, 3) ? 1 : 0) : 2;
        redo += again;
        bm::p32(e, status);
        bm::p32(e, p.might);
        bm::p32(e, again ? 0 : p.vis);
        bm::p32(e, p.nm);
        bm::p32(e, p.nc);
        e.insert(e.end(), p.m.begin(), p.m.end());
        if (!again)
            e.insert(e.end(), p.v.begin(), p.v.end());
    }
    // saved for portals that are not newer; in the temporary file if it could not be renamed
    bool tmp = c.s.chance(1, 4), cut = mode == 3 && e.size() > 20, old = c.s.chance(1, 8);
    if (cut)
        e.resize(c.s.draw(e.size()));
    clean(s);
    bm::spew(tmp ? s.k.f.tmp : s.k.f.state, e);
    if (old) {
        // older than the portal file: of no use, even if it is for another map
        struct timespec t[2];
        clock_gettime(CLOCK_REALTIME, &t[0]);
        t[0].tv_sec -= 3600;
        t[1] = t[0];
        auto junk = e;
        for (auto &x : junk)
            x ^= 0x5a;
        bm::spew(tmp ? s.k.f.tmp : s.k.f.state, junk);
        utimensat(AT_FDCWD, (tmp ? s.k.f.tmp : s.k.f.state).c_str(), t, 0);
    }
    bm::spew(s.k.f.bsp, s.bsp);
    c.describe(vh::cat(s.k.ver->short_name, ", ", s.w.clusters, " clusters, ", np, " portals, ", redo, " of ", np * 2, " to do again", cut ? vh::cat(", cut to ", e.size(), " bytes") : std::string(), tmp ? ", temporary file" : "", old ? ", out of date" : ""));
    one(c, s, args);
    c.require(!exists(s.k.f.state), "left-over", "vis leaves its state file behind");
    if (cut || old || redo == 0)
        c.require(bm::slurp(s.k.f.bsp) == want, cut ? "cut-short" : old ? "out-of-date" : "finished", "starting over from a useless state file gives another result");
    Bits b = read_rows(c, s.w, s.k, load(s.k.f.bsp));
    sane(c, s, b, fast, must);
    c.nt(redo > 0 && np > 4);
    c.label(cut ? "cut" : old ? "old" : tmp ? "tmp" : "edited");
    // what the state says of finished portals is what counts
    if (np > 0) {
        std::vector<std::set<int>> row(s.w.clusters);
        bm::bytes f(st.begin(), st.begin() + 20);
        int less = 0;
        for (size_t i = 0; i < ps.size(); ++i) {
            auto &p = ps[i];
            int from = -1, to = -1, k = 0;
            for (auto &w : s.w.portals)
                if (w.written && k++ == (int)i / 2) {
                    from = s.w.cluster[i & 1 ? w.b : w.a];
                    to = s.w.cluster[i & 1 ? w.a : w.b];
                }
            auto vb = bits_of(p.v, s.w.clusters);
            auto v = p.v;
            if (c.s.chance(1, 2)) {
                v.assign((s.w.clusters + 7) / 8, 0);
                for (int j = 0; j < s.w.clusters; ++j) {
                    if (j != to && vb[j] && c.s.chance(1, 2))
                        vb[j] = false, ++less;
                    if (vb[j])
                        v[j / 8] |= 1 << (j & 7);
                }
            }
            for (int j = 0; j < s.w.clusters; ++j)
                if (vb[j])
                    row[from].insert(j);
            bm::p32(f, 2);
            bm::p32(f, p.might);
            bm::p32(f, (uint32_t)v.size());
            bm::p32(f, p.nm);
            bm::p32(f, p.nc);
            f.insert(f.end(), p.m.begin(), p.m.end());
            f.insert(f.end(), v.begin(), v.end());
        }
        clean(s);
        bm::spew(s.k.f.state, f);
        bm::spew(s.k.f.bsp, s.bsp);
        one(c, s, args);
        Bits e2 = read_rows(c, s.w, s.k, load(s.k.f.bsp));
        for (int i = 0; i < s.w.clusters; ++i) {
            row[i].insert(i);
            for (int j = 0; j < s.w.clusters; ++j)
                c.require(e2.cl[i][j] == (bool)row[i].count(j), "kept", vh::cat("cluster ", i, row[i].count(j) ? " lost " : " gained ", j, " against the finished portals of the state file"));
        }
        if (less)
            c.label("kept");
    }
    // a state for other portals is refused
    if (np > 0) {
        auto f = st;
        int at = c.s.b() ? 4 : c.s.b() ? 8 : 0;
        f[at] ^= (uint8_t)c.s.i(1, 255);
        bm::spew(s.k.f.state, f);
        bm::spew(s.k.f.bsp, s.bsp);
        int rc = run_vis(plus(args, {s.k.f.bsp}));
        c.require(rc == 1, "mismatch", vh::cat("a state file with another ", at == 0 ? "version" : at == 4 ? "number of portals" : "number of leafs", " is not refused: ", rc));
        c.require(bm::slurp(s.k.f.bsp) == s.bsp, "mismatch", "a refused run changed the .bsp");
    }
}

// one thread: the same bytes each time; any number: the same bounds, nothing else in the file changes
static void repeat(Case &c)
{
    Set s = make(c);
    auto must = must_see(c, s.w);
    auto a1 = base_args(c, 1);
    c.describe(vh::cat(s.k.ver->short_name, ", ", s.w.clusters, " clusters, ", s.w.leafs, " leafs"));
    clean(s);
    one(c, s, plus(a1, {"-fast"}));
    auto fastbytes = bm::slurp(s.k.f.bsp);
    Bits fast = read_rows(c, s.w, s.k, load(s.k.f.bsp));
    bm::spew(s.k.f.bsp, s.bsp);
    one(c, s, a1);
    auto want = bm::slurp(s.k.f.bsp);
    // vis on a file that already has visibility, and with the clock running fast
    bool again = c.s.b();
    if (!again)
        bm::spew(s.k.f.bsp, s.bsp);
    Crash j;
    j.jump = c.s.b();
    one(c, s, a1, j);
    c.require(bm::slurp(s.k.f.bsp) == want, again ? "rerun" : "repeat", again ? "running vis on its own result changes it" : "two runs with one thread differ");
    int threads = (int)c.s.i(2, 8);
    auto an = a1;
    an[1] = std::to_string(threads);
    bm::spew(s.k.f.bsp, s.bsp);
    one(c, s, an, j);
    mbsp_t m = load(s.k.f.bsp);
    sane(c, s, read_rows(c, s.w, s.k, m), fast, must);
    bm::spew(s.k.f.bsp, s.bsp);
    one(c, s, plus(an, {"-fast"}));
    c.require(bm::slurp(s.k.f.bsp) == fastbytes, "fast-threads", "-fast depends on the number of threads");
    // everything but the visibility is as before
    mbsp_t before = s.k.m;
    c.require(m.dentdata == before.dentdata && m.dleafs.size() == before.dleafs.size() && m.dnodes.size() == before.dnodes.size() && m.dplanes.size() == before.dplanes.size(), "other-lumps", "vis changed other lumps");
    for (size_t i = 0; i < m.dleafs.size(); ++i)
        c.require(m.dleafs[i].contents == before.dleafs[i].contents && m.dleafs[i].mins == before.dleafs[i].mins && m.dleafs[i].maxs == before.dleafs[i].maxs && (!s.k.q2 || m.dleafs[i].cluster == before.dleafs[i].cluster), "other-lumps", vh::cat("vis changed leaf ", i));
    c.nt(s.w.portals.size() >= 8);
}

VH_MAIN("C21", "resume: at least one interruption took place in a run with 4 or more saves; states: at least one portal was to do again; repeat: at least 8 portals",
    (std::vector<std::string>{"a crash ends the process at a write, removal or renaming of a state file, with any part of the data of that write on disk; writes that were made are not lost",
        "with several threads only the bounds of the result are compared, since the order in which portals are finished may change it"}),
    vh::Sub{"resume", resume, 900, 20000, true}, vh::Sub{"states", states, 700, 20000, true}, vh::Sub{"repeat", repeat, 500, 10000, true})
