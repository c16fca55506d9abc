// C23: qbsp keeps the contents of the map
#include "qmap.hh"
#include <common/entdata.h>
using namespace qm;

template<typename A, typename B>
static void eq(Case &c, const A &got, const B &want, const char *what)
{
    if (!(got == want))
        c.fail(what, cat("is ", got, ", not ", want));
}
static void options(Case &c, Map &m)
{
    Src &s = c.s;
    if (s.chance(1, 4))
        m.args.push_back(m.q2 ? "-nochop" : "-chop");
    if (s.chance(1, 6))
        m.args.push_back("-forcegoodtree");
    if (s.chance(1, 6)) {
        m.args.push_back("-maxnodesize");
        m.args.push_back("64");
    }
    if (s.chance(1, 6)) {
        m.args.push_back("-midsplitsurffraction");
        m.args.push_back("0.5");
    }
    if (s.chance(1, 6))
        m.args.push_back("-nofill");
}
static void world(Case &c)
{
    Opt o;
    o.visblock = true;
    Map m = gen(c, o);
    options(c, m);
    c.describe(about(m));
    Out out = compile(c, m);
    auto &b = out.bsp;
    int n = 0;
    int solid = m.q2 ? 1 : -2;
    bool fill = !m.has("-nofill");
    Reach seen = reach(m);
    for (int t = 0; t < 120; ++t) {
        V p = sample(c.s, m, 0);
        if (margin(m, 0, p) < 0.1)
            continue;
        auto v = at(m, 0, p);
        int want = native(m, v);
        int leaf = leaf_at(b, 0, p);
        c.require(leaf >= 0 && leaf < (int)b.dleafs.size(), "tree", cat("leaf ", leaf));
        int got = b.dleafs[leaf].contents;
        if (m.q2 && got & 1)
            got = 1;
        ++n;
        if (fill && sealed(m, p)) {
            if (got != solid && !(got == -6 && want == -6)) // sky stays
                c.fail("sealed", cat("nobody can get to ", str(p), " in ", names(v), ", but it is ", got));
            continue;
        }
        bool sure = want == solid || !fill || seen(p);
        if (got != want && (sure || got != solid))
            c.fail("contents", cat("at ", str(p), " in ", names(v), " the leaf is ", got, ", not ", want, sure ? "" : " (or solid)"));
    }
    c.nt(n > 40 && m.brushes.size() > 10);
}
static const double HULL_Q1[][6] = {{0, 0, 0, 0, 0, 0}, {-16, -16, -24, 16, 16, 32}, {-32, -32, -24, 32, 32, 64}};
static const double HULL_H2[][6] = {{0, 0, 0, 0, 0, 0}, {-16, -16, -24, 16, 16, 32}, {-24, -24, -20, 24, 24, 20}, {-16, -16, -12, 16, 16, 16}, {-8, -8, -8, 8, 8, 8}, {-28, -28, -40, 28, 28, 40}};
static const double HULL_HL[][6] = {{0, 0, 0, 0, 0, 0}, {-16, -16, -36, 16, 16, 36}, {-32, -32, -32, 32, 32, 32}, {-16, -16, -18, 16, 16, 18}};
static void hulls(Case &c)
{
    Opt o;
    o.visblock = true;
    o.may_q2 = false;
    Map m = gen(c, o);
    options(c, m);
    if (c.s.chance(1, 4)) {
        // somebody stands right on the floor
        V p = m.occupants[0];
        p[2] = m.rooms[0].first[2] + (m.ver == &bspver_hl ? 36 : 24);
        bool clear = true;
        for (auto &br : m.brushes)
            if (br.model == 0 && !br.shell)
                clear = clear && !(br.lo[0] < p[0] + 40 && br.hi[0] > p[0] - 40 && br.lo[1] < p[1] + 40 && br.hi[1] > p[1] - 40 && br.lo[2] < p[2] + 72 && br.hi[2] > p[2] - 40);
        if (clear && len(p) > 1) {
            m.occupants[0] = p;
            m.ents[1].origin = p;
            write_text(m);
        }
    }
    c.describe(about(m));
    Out out = compile(c, m);
    auto &b = out.bsp;
    bool fill = !m.has("-nofill");
    auto *H = m.ver == &bspver_h2 ? HULL_H2 : m.ver == &bspver_hl ? HULL_HL : HULL_Q1;
    int nh = m.ver == &bspver_h2 ? 6 : m.ver == &bspver_hl ? 4 : 3;
    int n = 0, solids = 0;
    for (int h = 1; h < nh; ++h) {
        V lo{H[h][0], H[h][1], H[h][2]}, hi{H[h][3], H[h][4], H[h][5]};
        std::vector<std::vector<Body>> walls(m.models);
        for (auto &br : m.brushes)
            if (stops(br) && br.model >= 0)
                walls[br.model].push_back(swell(br, hi * -1, lo * -1));
        Reach seen;
        for (auto &w : walls[0])
            seen.walls.push_back(&w);
        for (auto p : m.occupants) {
            p[2] += 0.2; // off the floor
            bool ok = true;
            for (auto &w : walls[0])
                ok = ok && !w.in(p, 0.1);
            if (ok)
                seen.from.push_back(p);
        }
        for (int t = 0; t < 60; ++t) {
            int mo = t % 3 == 0 ? (int)c.s.draw(m.models) : 0;
            V p = sample(c.s, m, mo);
            V off{};
            for (auto &e : m.ents)
                if (e.model == mo && mo)
                    off = e.offset;
            bool in = false, out = true;
            for (auto &w : walls[mo]) {
                in = in || w.in(p, -0.1);
                out = out && !w.in(p, 0.1);
            }
            if (!in && !out)
                continue;
            V q = p - off;
            int got = clip_at(b, mo, h, q);
            ++n;
            if (got != -1 && got != -2)
                c.fail("value", cat("clip contents ", got, " at ", str(p)));
            if (in) {
                ++solids;
                if (got != -2)
                    c.fail("blocked", cat("hull ", h, " of model ", mo, " is ", got, " at ", str(p), ", where a box overlaps a brush"));
            } else if (mo || !fill || seen(p)) {
                if (got != -1)
                    c.fail("free", cat("hull ", h, " of model ", mo, " is ", got, " at ", str(p), ", where a box fits"));
            }
        }
    }
    c.nt(n > 40 && solids > 5);
}
// Quake II: what is bumped into are the brushes the leafs list
static void brushes(Case &c)
{
    Opt o;
    o.q2 = true;
    o.overlap = c.s.chance(1, 4);
    Map m = gen(c, o);
    options(c, m);
    c.describe(about(m));
    Out out = compile(c, m);
    auto &b = out.bsp;
    std::vector<V> offs(m.models);
    for (auto &e : m.ents)
        if (e.model > 0)
            offs[e.model] = e.offset;
    auto plane = [&](uint32_t side) {
        auto &pl = b.dplanes[b.dbrushsides[side].planenum];
        return Plane{vec(pl.normal), pl.dist};
    };
    for (auto &db : b.dbrushes)
        if (db.firstside < 0 || db.numsides < 4 || db.firstside + db.numsides > (int)b.dbrushsides.size())
            c.fail("brush", cat("sides ", db.firstside, " +", db.numsides, " of ", b.dbrushsides.size()));
    // which brush of the map is it?
    std::vector<const Brush *> who(b.dbrushes.size());
    int known = 0;
    for (size_t i = 0; i < b.dbrushes.size(); ++i) {
        auto &db = b.dbrushes[i];
        bool any = false;
        for (auto &br : m.brushes) {
            if (br.model < 0)
                continue;
            bool all = true;
            for (auto &q : br.b.pl) {
                bool hit = false;
                for (int k = 0; k < db.numsides && !hit; ++k) {
                    Plane z = plane(db.firstside + k);
                    hit = dot(z.n, q.n) > 1 - 1e-6 && std::fabs(z.d + dot(z.n, offs[br.model]) - q.d) < 0.05;
                }
                all = all && hit;
            }
            if (!all)
                continue;
            any = true;
            if ((db.contents & ~(1 << 28)) == br.contents) {
                who[i] = who[i] ? who[i] : &br;
                ++known;
            }
        }
        if (!any)
            c.fail("brush", cat("brush ", i, " has not the planes of any brush of the map"));
        if (!who[i])
            c.fail("brush", cat("brush ", i, " has the contents ", db.contents, ", which no brush of its planes has"));
        // and what its sides look like
        auto &br = *who[i];
        bool alone = true;
        for (auto &o2 : m.brushes)
            alone = alone && (&o2 == &br || len(o2.lo - br.lo) > 0.01 || len(o2.hi - br.hi) > 0.01);
        for (size_t f = 0; f < br.b.pl.size() && alone; ++f) {
            if (br.faces[f].empty())
                continue;
            bool ok = false;
            std::string have;
            for (int k = 0; k < db.numsides; ++k) {
                Plane z = plane(db.firstside + k);
                if (dot(z.n, br.b.pl[f].n) < 1 - 1e-6)
                    continue;
                auto tn = b.dbrushsides[db.firstside + k].texinfo;
                if (tn == -1 && br.sides[f].flags & 0x80) {
                    ok = true;
                    continue;
                }
                if (tn == -1) {
                    have += "none; ";
                    continue; // of a bevel
                }
                if (tn < 0 || tn >= (int)b.texinfo.size())
                    c.fail("brush", cat("texinfo ", tn));
                auto &t = b.texinfo[tn];
                ok = ok || (br.sides[f].tex == t.texture.data() && t.value == br.sides[f].value && (t.flags.native & 0xff) == (br.sides[f].flags & 0xff));
                have += cat(t.texture.data(), " ", t.flags.native, " ", t.value, "; ");
            }
            if (!ok)
                c.fail("brush", cat("a side of brush ", i, " (", kind_name(br.kind), ") should be ", br.sides[f].tex, " ", br.sides[f].flags, " ", br.sides[f].value, ", is ", have));
        }
        // a box meets it where a box meets the brush
        V lo = c.s.pick<V>({V{-16, -16, -24}, V{-16, -16, -24}, V{-32, -8, -4}, V{-4, -4, -4}, V{-1, -2, -40}}), hi = c.s.pick<V>({V{16, 16, 32}, V{32, 32, 4}, V{4, 4, 4}, V{2, 60, 1}});
        Body fat = swell(br, hi * -1, lo * -1);
        for (int t = 0; t < 12; ++t) {
            V p = inside(c.s, br.faces);
            for (int k = 0; k < 3; ++k)
                p[k] += ((double)c.s.draw(1001) / 1000 * 2.4 - 1.2) * (hi[k] - lo[k]);
            bool in = fat.in(p, -0.1), outside = !fat.in(p, 0.1), hit = true;
            if (!in && !outside)
                continue;
            for (int k = 0; k < db.numsides; ++k) {
                Plane z = plane(db.firstside + k);
                double d = z.d + dot(z.n, offs[br.model]) - dot(z.n, p);
                for (int a = 0; a < 3; ++a)
                    d -= z.n[a] * (z.n[a] > 0 ? lo[a] : hi[a]);
                hit = hit && d > 0;
            }
            if (hit != in)
                c.fail("bevel", cat("a box ", str(lo), " to ", str(hi), " at ", str(p), in ? " overlaps" : " misses", " the ", kind_name(br.kind), " brush ", i, " from ", str(br.lo), " to ", str(br.hi), ", its planes say otherwise"));
        }
    }
    int n = 0, in = 0;
    bool fill = !m.has("-nofill");
    for (int t = 0; t < 160; ++t) {
        int mo = t % 4 == 0 ? (int)c.s.draw(m.models) : 0;
        V p = mo ? V{} : sample(c.s, m, 0);
        if (mo) {
            std::vector<const Brush *> own;
            for (auto &br : m.brushes)
                if (br.model == mo)
                    own.push_back(&br);
            p = inside(c.s, own[c.s.draw(own.size())]->faces);
        }
        if (margin(m, mo, p) < 0.1)
            continue;
        auto v = at(m, mo, p);
        int leaf = leaf_at(b, mo, p - offs[mo]);
        c.require(leaf >= 0 && leaf < (int)b.dleafs.size(), "tree", cat("leaf ", leaf));
        auto &l = b.dleafs[leaf];
        int got = l.contents & 1 ? 1 : l.contents, want = native(m, v);
        if (got != want || (fill && !mo && sealed(m, p)))
            continue; // the other checks look at that
        c.require((size_t)l.firstleafbrush + l.numleafbrushes <= b.dleafbrushes.size(), "list", cat("leaf ", leaf, " lists ", l.firstleafbrush, " +", l.numleafbrushes, " of ", b.dleafbrushes.size()));
        ++n;
        int met = 0;
        std::set<int> which;
        for (uint32_t k = 0; k < l.numleafbrushes; ++k) {
            auto bn = b.dleafbrushes[l.firstleafbrush + k];
            c.require(bn < b.dbrushes.size(), "list", cat("brush ", bn));
            if (who[bn]->model == mo && who[bn]->b.in(p, 0)) {
                met |= b.dbrushes[bn].contents;
                which.insert(bn);
            }
        }
        in += met != 0;
        met = met & 1 ? 1 : met & ~(1 << 28);
        if (met != (got & ~(1 << 28)))
            c.fail("list", cat("model ", mo, " at ", str(p), " in ", names(v), " is ", got, ", but the brushes its leaf lists there are ", met));
    }
    c.nt(n > 40 && in > 10 && known > 8);
}
static void models(Case &c)
{
    Opt o;
    o.visblock = true;
    o.maxbrushes = 4;
    o.minmodels = 1;
    Map m = gen(c, o);
    options(c, m);
    c.describe(about(m));
    Out out = compile(c, m);
    auto &b = out.bsp;
    eq(c, (int)b.dmodels.size(), m.models, "models");
    int n = 0, in = 0;
    for (int mo = 1; mo < m.models; ++mo) {
        V off{};
        V lo{1e9, 1e9, 1e9}, hi{-1e9, -1e9, -1e9};
        for (auto &e : m.ents)
            if (e.model == mo)
                off = e.offset;
        for (auto &br : m.brushes)
            if (br.model == mo)
                for (int k = 0; k < 3; ++k) {
                    lo[k] = std::min(lo[k], br.lo[k] - off[k]);
                    hi[k] = std::max(hi[k], br.hi[k] - off[k]);
                }
        for (int k = 0; k < 3; ++k) {
            double s = m.q2 ? 0 : 1;
            if (std::fabs(b.dmodels[mo].mins[k] - (lo[k] + s)) > 0.05 || std::fabs(b.dmodels[mo].maxs[k] - (hi[k] - s)) > 0.05)
                c.fail("bounds", cat("model ", mo, " axis ", k, ": ", b.dmodels[mo].mins[k], " to ", b.dmodels[mo].maxs[k], ", brushes ", lo[k], " to ", hi[k]));
        }
        for (int t = 0; t < 60; ++t) {
            V p;
            if (t & 1) {
                p = sample(c.s, m, mo);
            } else {
                std::vector<const Brush *> own;
                for (auto &br : m.brushes)
                    if (br.model == mo)
                        own.push_back(&br);
                p = inside(c.s, own[c.s.draw(own.size())]->faces);
            }
            if (margin(m, mo, p) < 0.1)
                continue;
            auto v = at(m, mo, p);
            int leaf = leaf_at(b, mo, p - off);
            c.require(leaf >= 0 && leaf < (int)b.dleafs.size(), "tree", cat("leaf ", leaf));
            int got = b.dleafs[leaf].contents;
            if (m.q2 && got & 1)
                got = 1;
            int want = native(m, v);
            ++n;
            in += !v.empty();
            if (got != want)
                c.fail("contents", cat("model ", mo, " at ", str(p), " in ", names(v), " is ", got, ", not ", want));
        }
    }
    // the entities that come out
    auto ents = EntData_Parse(b);
    size_t at = 0;
    for (auto &e : m.ents) {
        if (e.cls == "func_group" || e.cls.rfind("func_detail", 0) == 0 || e.cls == "func_illusionary_visblocker")
            continue;
        if (at >= ents.size())
            c.fail("entities", "too few");
        auto &d = ents[at++];
        eq(c, d.get("classname"), e.cls, "entity");
        if (e.model > 0)
            eq(c, d.get("model"), cat("*", e.model), "model key");
        else
            c.require(!d.has("model"), "model key", d.get("model"));
        for (auto &[k, v] : e.kv)
            eq(c, d.get(k), v, "key");
        if (e.origin || e.offset != V{}) {
            qvec3f q;
            d.get_vector("origin", q);
            c.require(len(vec(q) - (e.origin ? *e.origin : e.offset)) < 0.01, "origin", d.get("origin"));
        }
    }
    eq(c, at, ents.size(), "entities");
    c.nt(n > 20 && in > 5);
}
VH_MAIN("C23", "more than 40 points judged in a map of more than 10 brushes; hulls: more than 40 points, 5 of them blocked; models: more than 20, 5 of them inside; brushes: more than 40 points, 10 of them in listed brushes",
    (std::vector<std::string>{"points within 0.1 units of a plane are not judged"}), vh::Sub{"world", world, 3000, 100000}, vh::Sub{"hulls", hulls, 2000, 100000}, vh::Sub{"models", models, 2000, 100000}, vh::Sub{"brushes", brushes, 1500, 100000})
