// C26: leaks are found and shown; the same input gives the same files; -onlyents
#include "qmap.hh"
#include <common/entdata.h>
#include <csetjmp>
#include <dlfcn.h>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
using namespace qm;

// exit() within the code under test comes back here
static jmp_buf left;
static bool leaving = false;
static int left_with = 0;
extern "C" void exit(int code) noexcept
{
    if (leaving) {
        leaving = false;
        left_with = code;
        longjmp(left, 1);
    }
    static auto *real = (void (*)(int))dlsym(RTLD_NEXT, "exit");
    real(code);
    abort();
}
static std::vector<V> trail(Case &c, const std::string &path)
{
    auto d = bm::slurp(path);
    std::istringstream in(std::string(d.begin(), d.end()));
    std::vector<V> r;
    std::string l;
    while (std::getline(in, l)) {
        V v;
        int used = 0;
        if (sscanf(l.c_str(), "%lf %lf %lf%n", &v[0], &v[1], &v[2], &used) != 3 || used != (int)l.size())
            c.fail("pts", cat("not a point: ", l));
        r.push_back(v);
    }
    return r;
}
static bool seals(const Brush &b) { return b.model == 0 && (b.kind == SOLID || b.kind == SKY); }
static void leaks(Case &c)
{
    Src &s = c.s;
    Opt o;
    o.leaks = s.chance(4, 5);
    o.models = false;
    Map m = gen(c, o);
    if (s.chance(1, 4))
        m.args.push_back(m.q2 ? "-nochop" : "-chop");
    // somebody in the void
    V blo = m.lo, bhi = m.hi;
    for (auto &b : m.brushes)
        for (int k = 0; k < 3; ++k) {
            blo[k] = std::min(blo[k], b.lo[k]);
            bhi[k] = std::max(bhi[k], b.hi[k]);
        }
    bool astray = false;
    std::vector<V> who = m.occupants;
    if (s.chance(1, 3)) {
        Ent e{"info_null"};
        V p = (blo + bhi) * 0.5;
        int k = (int)s.draw(3);
        p[k] = s.b() ? bhi[k] + 4 : blo[k] - 4;
        p = cell(p);
        bool on = !m.hole && s.chance(1, 3);
        if (on) {
            // right on the wall, as some maps have it
            p = (m.lo + m.hi) * 0.5;
            p[k] = s.b() ? m.hi[k] : m.lo[k];
            for (int j = 0; j < 3; ++j)
                if (j != k)
                    p[j] = std::round(p[j]);
            for (size_t j = 6; j < m.brushes.size() && on; ++j)
                on = !m.brushes[j].b.in(p, 8);
            if (!on)
                throw vh::Discard{};
        }
        if (len(p) < 2)
            throw vh::Discard{};
        e.origin = p;
        int w = on ? 4 : (int)s.draw(4);
        if (w == 4)
            ; // he does not count
        else if (w == 0)
            e.kv.push_back({"_nofill", "1"});
        else if (w == 1)
            e.kv.push_back({"_lightgrid_hint", "1"});
        else {
            if (w == 3)
                e.kv.push_back({s.b() ? "_nofill" : "_lightgrid_hint", "0"});
            astray = true;
            who.push_back(p);
        }
        m.ents.push_back(e);
        write_text(m);
    }
    bool nofill = s.chance(1, 8), keep = s.chance(1, 4);
    if (nofill)
        m.args.push_back("-nofill");
    if (keep)
        m.args.push_back("-keepprt");
    double dist = 0;
    if (s.chance(1, 3)) {
        dist = (double)s.i(1, 40);
        m.args.push_back("-leakdist");
        m.args.push_back(std::to_string((int)dist));
    }
    if (s.chance(1, 3)) {
        m.args.push_back("-filltype");
        m.args.push_back(s.chance(1, 4) ? "inside" : "outside");
    }
    c.describe(about(m) + (astray ? ", somebody outside" : ""));
    // what an earlier run left
    for (const char *e : {".prt", ".pts"})
        if (s.b())
            bm::spew(c.scratch + "/m" + e, {'o', 'l', 'd', '\n'});
    Out out = compile(c, m);
    Reach r;
    for (auto &b : m.brushes)
        if (seals(b))
            r.walls.push_back(&b.b);
    r.from = who;
    auto outside = [&](V p) {
        for (int k = 0; k < 3; ++k)
            if (p[k] < blo[k] - 0.5 || p[k] > bhi[k] + 0.5)
                return true;
        return false;
    };
    // ways out
    bool sure = astray;
    std::vector<V> all = who;
    for (int t = 0; t < 60 && !sure && m.hole; ++t) {
        V p;
        if (t % 3 == 0)
            p = anywhere(s, m, 0);
        else {
            auto &[a, b] = *m.hole;
            int k = b[0] - a[0] == 0 ? 0 : 0;
            for (k = 0; k < 3; ++k)
                p[k] = a[k] + (b[k] - a[k]) * ((double)s.draw(1000) + 0.5) / 1000;
            if (t % 3 == 2) {
                // straight out
                for (k = 0; k < 3; ++k)
                    if (a[k] <= m.lo[k] + 0.01)
                        p[k] = blo[k] - 8;
                    else if (b[k] >= m.hi[k] - 0.01)
                        p[k] = bhi[k] + 8;
            }
        }
        if (r(p) && outside(p))
            sure = true;
    }
    if (nofill) {
        if (out.pts || !out.prt)
            c.fail("nofill", cat(".pts ", out.pts, " .prt ", out.prt));
        return;
    }
    if (sure && !out.pts)
        c.fail("leak", "the leak is not found");
    if (!m.leak && !astray && out.pts)
        c.fail("leak", "a sealed map leaks");
    if (out.prt != (!out.pts || keep))
        c.fail("prt", cat(".prt is there: ", out.prt, ", leaking: ", out.pts, ", kept: ", keep));
    if (out.prt && bm::slurp(out.base + ".prt").size() < 5)
        c.fail("prt", "an old .prt is left");
    if (out.pts) {
        auto t = trail(c, out.base + ".pts");
        if (!t.empty()) {
            for (auto &p : t)
                for (auto &b : m.brushes)
                    if (seals(b) && b.b.in(p, -0.15))
                        c.fail("trail", cat("leads through ", kind_name(b.kind), " at ", str(p)));
            std::vector<V> way = t; // without points between
            if (dist) {
                Out w = compile(c, m, "w", {"-leakdist", "0"});
                way = trail(c, w.base + ".pts");
                size_t seg = 0;
                double at = -1; // along it
                for (size_t i = 0; i < t.size(); ++i) {
                    bool ok = false;
                    for (; seg + 1 < way.size() && !ok; seg += 2, at = -1) {
                        V a = way[seg], e = way[seg + 1];
                        double l = len(e - a), want = at < 0 ? 0 : at + dist;
                        if (want < l - dist + 1e-6 && len(a + (e - a) * (l > 0 ? want / l : 0) - t[i]) < 0.01) {
                            ok = true;
                            at = want;
                            break;
                        }
                        if (want < l - dist - 0.01)
                            break;
                    }
                    if (!ok)
                        c.fail("trail", cat("point ", i, " ", str(t[i]), " with -leakdist ", dist, " is not the next along the trail"));
                }
            }
            bool from = false;
            for (auto &p : who)
                from = from || len(p - way[0]) < 0.01;
            if (!from)
                c.fail("trail", cat("starts at ", str(way[0]), " where nobody is"));
            for (size_t i = 0; i + 1 < way.size(); ++i) {
                if (i % 2 == 1 && len(way[i + 1] - way[i]) > 0.01)
                    c.fail("trail", "has a gap");
                for (int k = 1; k < 8; ++k) {
                    V p = way[i] + (way[i + 1] - way[i]) * (k / 8.0);
                    for (auto &b : m.brushes)
                        if (seals(b) && b.b.in(p, -0.15))
                            c.fail("trail", cat("leads through ", kind_name(b.kind), " at ", str(p)));
                }
            }
            if (!dist) {
                if (t.size() % 2)
                    c.fail("trail", cat(t.size(), " points"));
                // and it ends in sight of the void
                V e = t.back();
                bool free = outside(e);
                for (int k = 0; k < 6 && !free; ++k) {
                    V q = e;
                    q[k / 2] = k & 1 ? bhi[k / 2] + 9 : blo[k / 2] - 9;
                    free = r.see(e, q);
                }
                for (int k = 0; k < 3000 && !free; ++k) {
                    V q = anywhere(s, m, 100);
                    free = outside(q) && r.see(e, q);
                }
                if (!free) {
                    // on the edge of something?
                    bool touch = false;
                    for (auto &b : m.brushes)
                        touch = touch || (seals(b) && b.b.in(e, 0.05));
                    if (!touch)
                        c.fail("trail", cat("ends at ", str(e), " inside"));
                }
            }
            c.nt(t.size() >= 4 && sure);
        }
        if (t.empty()) {
            // somebody stands in the void
            bool free = false;
            for (auto &e : who) {
                for (int k = 0; k < 3; ++k)
                    free = free || e[k] <= blo[k] || e[k] >= bhi[k];
                for (int k = 0; k < 6 && !free; ++k) {
                    V q = e;
                    q[k / 2] = k & 1 ? bhi[k / 2] + 9 : blo[k / 2] - 9;
                    free = r.see(e, q);
                }
                for (int k = 0; k < 3000 && !free; ++k) {
                    V q = anywhere(s, m, 100);
                    free = outside(q) && r.see(e, q);
                }
            }
            if (!free)
                c.fail("trail", "is empty, though nobody stands in the void");
        }
        // nothing is filled
        for (int k = 0; k < 10; ++k) {
            V p = anywhere(s, m, 60);
            if (!outside(p) || margin(m, 0, p) < 0.2)
                continue;
            int l = leaf_at(out.bsp, 0, p);
            int want = native(m, at(m, 0, p));
            int got = out.bsp.dleafs[l].contents;
            if (got != want)
                c.fail("filled", cat("the void at ", str(p), " of a leaking map is ", got, ", not ", want));
        }
    }
    // -leaktest makes it an error
    if (s.chance(1, 4)) {
        int st = 0;
        if (!setjmp(left)) {
            leaving = true;
            compile(c, m, "t", {"-leaktest"});
        } else
            st = left_with;
        leaving = false;
        int want = out.pts ? 1 : 0;
        if (st != want)
            c.fail("leaktest", cat("-leaktest ended with status ", st, ", leaking: ", out.pts));
    }
    if (!out.pts)
        c.nt(m.brushes.size() > 8);
}
static std::string hexdiff(const std::vector<uint8_t> &a, const std::vector<uint8_t> &b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i])
        ++i;
    return cat(a.size(), " and ", b.size(), " bytes, first difference at ", i);
}
static void repeat(Case &c)
{
    Src &s = c.s;
    Opt o;
    o.overlap = s.b();
    o.leaks = s.chance(1, 5);
    Map m = gen(c, o);
    if (s.chance(1, 4))
        m.args.push_back(m.q2 ? "-nochop" : "-chop");
    if (!m.q2 && s.chance(1, 3))
        m.args.push_back("-wrbrushes");
    c.describe(about(m));
    auto file = [&](const Out &x, const char *e) {
        return std::filesystem::exists(x.base + e) ? bm::slurp(x.base + e) : std::vector<uint8_t>{1, 2, 3};
    };
    static const char *E[] = {".bsp", ".prt", ".pts", ".texinfo.json"};
    Out a = compile(c, m, "m", {"-threads", "1"});
    std::vector<std::vector<uint8_t>> first;
    for (auto *e : E)
        first.push_back(file(a, e));
    for (int k = 0; k < 2; ++k) {
        Out b = compile(c, m, "m", {"-threads", k ? "8" : "3"});
        for (int i = 0; i < 4; ++i)
            if (file(b, E[i]) != first[i])
                c.fail("repeat", cat(E[i], " differs with other threads: ", hexdiff(file(b, E[i]), first[i])));
    }
    c.nt(a.bsp.dleafs.size() > 10);
}
static void onlyents(Case &c)
{
    Src &s = c.s;
    Opt o;
    o.may_q2 = false;
    o.minmodels = s.b();
    Map m = gen(c, o);
    if (s.chance(1, 3))
        m.args.push_back("-wrbrushes");
    c.describe(about(m));
    Out a = compile(c, m);
    // other keys, more people
    Map k = m;
    int changes = 0;
    for (auto &e : k.ents)
        if (e.cls.rfind("func_", 0) != 0 && s.b()) {
            e.kv.push_back({"note", "n" + std::to_string(s.draw(1000))});
            ++changes;
        } else if (e.model > 0 && s.b()) {
            e.kv.push_back({"note", "m" + std::to_string(s.draw(1000))});
            ++changes;
        }
    if (s.b()) {
        Ent e{"light"};
        e.origin = V{(double)s.i(-99, 99), 5, 7};
        k.ents.push_back(e);
        ++changes;
    }
    write_text(k);
    Out b = compile(c, k, "m", {"-onlyents"});
    // the whole compiled anew has the same entities
    if (b.bsp.dentdata == a.bsp.dentdata && changes)
        c.fail("onlyents", "the entities stayed as they were");
    auto ents = EntData_Parse(b.bsp);
    size_t at = 0;
    for (auto &e : k.ents) {
        if (e.cls == "func_group" || e.cls.rfind("func_detail", 0) == 0)
            continue;
        if (at >= ents.size())
            c.fail("onlyents", "too few entities");
        auto &d = ents[at++];
        if (d.get("classname") != e.cls)
            c.fail("onlyents", cat("entity ", at, " is ", d.get("classname"), ", not ", e.cls));
        if (e.model > 0 ? d.get("model") != cat("*", e.model) : d.has("model"))
            c.fail("onlyents", cat("entity ", at, " has model ", d.get("model"), ", not ", e.model));
        for (auto &[x, y] : e.kv)
            if (d.get(x) != y)
                c.fail("onlyents", cat("entity ", at, " key ", x, " is ", d.get(x), ", not ", y));
    }
    if (at != ents.size())
        c.fail("onlyents", "more entities");
    // and all else stays
    auto lump = [&](const Out &q, int i) {
        uint32_t h[2];
        memcpy(h, q.bytes.data() + 4 + i * 8, 8);
        return std::vector<uint8_t>(q.bytes.begin() + h[0], q.bytes.begin() + h[0] + h[1]);
    };
    for (int i = 1; i < 15; ++i)
        if (lump(a, i) != lump(b, i))
            c.fail("onlyents", cat("changed lump ", i));
    if (a.bspx != b.bspx)
        c.fail("onlyents", "changed the extra lumps");
    if (a.ver != b.ver)
        c.fail("onlyents", "changed the format");
    if (!b.prt)
        c.fail("onlyents", "removed the portal file");
    c.nt(changes > 0);
}
VH_MAIN("C26", "leaks: a certain leak with a trail of 4 points or more, or a sealed map of more than 8 brushes; repeat: more than 10 leafs; onlyents: something changed",
    (std::vector<std::string>{"whether a map leaks is judged only where a line of sight to the void exists or the shell is closed"}), vh::Sub{"leaks", leaks, 3000, 100000}, vh::Sub{"repeat", repeat, 800, 30000}, vh::Sub{"onlyents", onlyents, 1000, 30000})
