// C24: the faces and the structure qbsp writes
#include "qmap.hh"
#include <common/entdata.h>
using namespace qm;

enum
{
    B_SOLID = 1,
    B_SKY = 2,
    B_WALL = 4,
    B_WINDOW = 8,
    B_AUX = 16,
    B_LAVA = 32,
    B_SLIME = 64,
    B_WATER = 128,
    B_MIST = 256,
    B_MIRROR = 1024,   // faces on the inside, too
    B_NOMIRROR = 2048, // and never
    B_DETAIL = 4096,
    B_NOCLIP = 8192 // keeps faces inside the same contents
};
static int bits(const Map &m, const Brush &b)
{
    static const int K[] = {B_SOLID, B_SOLID | B_DETAIL, B_WALL, B_WINDOW, B_MIST, B_WATER, B_SLIME, B_LAVA, B_SKY, 0, 0, B_WINDOW, B_AUX, B_MIST, 0};
    int r = K[b.kind];
    if (m.q2 && b.kind == SKY)
        r = B_SOLID;
    if (b.model > 0 && !m.q2)
        r = B_WINDOW; // as fences
    return r;
}
// what its entity says on top of that
static int special(const Map &m, const Brush &b)
{
    int r = 0;
    auto &e = m.ents[b.ent];
    if (b.model == 0 && e.cls == "func_illusionary_visblocker")
        r = B_MIRROR;
    for (auto &[k, v] : e.kv) {
        if (k == "_mirrorinside")
            r = (r & ~(B_MIRROR | B_NOMIRROR)) | (v == "0" ? B_NOMIRROR : B_MIRROR);
        if (k == "_noclipfaces" && v != "0")
            r |= B_NOCLIP;
    }
    return r;
}
static int combine(const Map &m, const std::vector<const Brush *> &v)
{
    int r = 0;
    bool solid = false, sky = false;
    for (auto *b : v) {
        int k = bits(m, *b);
        solid = solid || (k & (B_SOLID | B_DETAIL)) == B_SOLID;
        sky = sky || k == B_SKY;
        r |= k | (special(m, *b) & B_NOCLIP);
    }
    if (solid)
        return B_SOLID;
    if (sky && !m.q2)
        return B_SKY;
    return r;
}
static int strongest(int b)
{
    for (int i = 0; i <= 8; ++i)
        if (b & (1 << i))
            return 1 << i;
    return 0;
}
struct Want
{
    bool known = false;
    const Side *side = nullptr; // none: no face
    const Brush *brush = nullptr;
    int front = 0, back = 0;
};
// what should be seen at p (on a plane facing n)
static Want want(const Map &m, int model, V p, V n)
{
    Want w;
    const double E = 0.3;
    std::vector<const Brush *> f, b;
    struct Own
    {
        const Brush *br;
        const Side *sd;
        bool out; // its side faces along n
    };
    std::vector<Own> own;
    for (auto &br : m.brushes) {
        if (br.model != model)
            continue;
        bool inf = true, inb = true;
        for (size_t i = 0; i < br.b.pl.size(); ++i) {
            auto &q = br.b.pl[i];
            double d = q.at(p);
            double c = dot(q.n, n);
            if (std::fabs(d) < 0.02 && std::fabs(std::fabs(c) - 1) < 1e-6) {
                inf = inf && c < 0;
                inb = inb && c > 0;
                continue;
            }
            if (std::fabs(d) < 2 * E && std::fabs(d) >= 0.02 && std::fabs(c) > 0.999)
                return w; // nearly the same plane
            if (std::fabs(d) < 2 * E) {
                // it matters only if the rest of the brush is near
                bool near = true;
                for (auto &z : br.b.pl)
                    near = near && z.at(p) < 2 * E;
                if (near)
                    return w;
            }
            inf = inf && d < 0;
            inb = inb && d < 0;
        }
        if (inf)
            f.push_back(&br);
        if (inb)
            b.push_back(&br);
        if (inf != inb)
            for (size_t i = 0; i < br.b.pl.size(); ++i) {
                auto &q = br.b.pl[i];
                double c = dot(q.n, n);
                if (std::fabs(q.at(p)) < 0.02 && std::fabs(std::fabs(c) - 1) < 1e-6)
                    own.push_back({&br, &br.sides[i], c > 0});
            }
    }
    w.front = combine(m, f);
    w.back = combine(m, b);
    w.known = true;
    if (w.front & B_SOLID)
        return w;
    bool q2 = m.q2;
    if (!q2 && (w.front & (B_SOLID | B_SKY)) && (w.back & (B_SOLID | B_SKY)))
        return w;
    if (!q2 && w.front & B_SKY)
        return w;
    int vis = strongest(((w.front | w.back) & B_NOCLIP) ? w.front | w.back : w.front ^ w.back);
    w.front &= ~B_NOCLIP;
    w.back &= ~B_NOCLIP;
    if (!vis)
        return w;
    bool side = false;
    for (auto &o : own) {
        int k = bits(m, *o.br);
        if (!(k & vis))
            continue;
        // seen from the front: its outside, or its inside
        bool inner = !o.out;
        if (inner) {
            int sp = special(m, *o.br);
            if (sp & B_NOMIRROR)
                continue;
            if (!(sp & B_MIRROR) && (q2 ? (vis & (B_WINDOW | B_AUX)) != 0 : !(k & (B_WATER | B_SLIME | B_LAVA))))
                continue;
        }
        if (w.brush && side != inner) {
            w.known = false; // brushes on both sides have one here
            return w;
        }
        side = inner;
        if (w.brush && m.chops()) {
            w.known = false; // either
            return w;
        }
        if (!w.brush || o.br->line > w.brush->line) {
            w.brush = o.br;
            w.side = o.sd;
        }
    }
    if (w.side) {
        auto &t = w.side->tex;
        bool skip = t == "skip" || t == "e/skip" || t == "hint" || t == "e/hint" || t == "clip" || t == "e/clip";
        if (m.q2 && (w.side->flags & 0x80) && !(w.side->flags & 1))
            skip = true;
        if (skip)
            w.side = nullptr;
    }
    return w;
}
struct Face
{
    Poly w;
    V n;
    int model;
};
static void options(Case &c, Map &m)
{
    Src &s = c.s;
    if (!m.q2)
        m.args.push_back("-missing_textures_as_zero_size");
    auto opt = [&](int k, std::initializer_list<const char *> a) {
        if (s.chance(1, k))
            for (auto *x : a)
                m.args.push_back(x);
    };
    opt(4, {m.q2 ? "-nochop" : "-chop"});
    opt(8, {"-forcegoodtree"});
    opt(8, {"-midsplitsurffraction", "0.5"});
    opt(8, {"-nofill"});
    opt(6, {"-nomerge"});
    opt(6, {"-nomergeacrossliquids"});
    opt(8, {"-noedgereuse"});
    if (s.chance(1, 4)) {
        m.args.push_back("-subdivide");
        m.args.push_back(std::to_string(s.pick<int>({64, 128, 240, 500})));
    }
    if (!m.q2) {
        opt(5, {"-splitturb", "0"});
        opt(6, {"-splitsky"});
    }
    if (s.chance(1, 3)) {
        // insides
        for (auto &e : m.ents)
            if (!e.brushes.empty() && e.cls != "worldspawn" && e.cls != "func_group" && e.cls != "func_detail" && e.cls != "func_areaportal") {
                if (s.chance(1, 3))
                    e.kv.push_back({"_mirrorinside", s.chance(1, 4) ? "0" : "1"});
                if (!m.chops() && s.chance(1, 3))
                    e.kv.push_back({"_noclipfaces", s.chance(1, 6) ? "0" : "1"});
            }
        write_text(m);
    }
    if (s.chance(1, 4)) {
        m.args.push_back("-tjunc");
        m.args.push_back(s.pick<const char *>({"none", "rotate", "retopologize", "mwt"}));
    }
    if (s.chance(1, 6)) {
        m.args.push_back("-maxedges");
        m.args.push_back(std::to_string(s.pick<int>({5, 8, 16})));
    }
}
template<typename A, typename B>
static void eq(Case &c, const A &got, const B &want, const char *key, const std::string &what)
{
    if (!(got == want))
        c.fail(key, cat(what, " is ", got, ", not ", want));
}
static std::string argval(const Map &m, const char *a, const char *def)
{
    for (size_t i = 0; i + 1 < m.args.size(); ++i)
        if (m.args[i] == a)
            return m.args[i + 1];
    return def;
}
static std::vector<Face> structure(Case &c, const Map &m, const Out &o)
{
    auto &b = o.bsp;
    auto idx = [&](int64_t i, size_t n, const char *what) {
        if (i < 0 || i >= (int64_t)n)
            c.fail("index", cat(what, " ", i, " of ", n));
    };
    std::vector<Face> fs(b.dfaces.size());
    size_t maxedges = std::stoi(argval(m, "-maxedges", m.q2 ? "100000" : "64"));
    for (size_t i = 0; i < b.dfaces.size(); ++i) {
        auto &f = b.dfaces[i];
        idx(f.planenum, b.dplanes.size(), "face plane");
        idx(f.texinfo, b.texinfo.size(), "face texinfo");
        if (f.numedges < 3 || (size_t)f.numedges > maxedges)
            c.fail("edges", cat("face ", i, " has ", f.numedges, " edges"));
        for (int k = 0; k < f.numedges; ++k) {
            idx((int64_t)f.firstedge + k, b.dsurfedges.size(), "surfedge");
            int e = b.dsurfedges[f.firstedge + k];
            if (e == 0)
                c.fail("index", "edge 0 is used");
            idx(std::abs(e), b.dedges.size(), "edge");
            auto &ed = b.dedges[std::abs(e)];
            idx(ed[0], b.dvertexes.size(), "vertex");
            idx(ed[1], b.dvertexes.size(), "vertex");
            int e2 = b.dsurfedges[f.firstedge + (k + 1) % f.numedges];
            auto &n2 = b.dedges[std::abs(e2)];
            if (ed[e < 0 ? 0 : 1] != n2[e2 < 0 ? 1 : 0])
                c.fail("edges", cat("face ", i, ": edge ", k, " and the next do not meet"));
            fs[i].w.push_back(vec(b.dvertexes[ed[e < 0 ? 1 : 0]]));
        }
        auto &pl = b.dplanes[f.planenum];
        V n = vec(pl.normal);
        double d = pl.dist;
        if (f.side) {
            n = n * -1;
            d = -d;
        }
        fs[i].n = n;
        V a{};
        double round = 0;
        for (size_t k = 0; k < fs[i].w.size(); ++k) {
            if (std::fabs(dot(n, fs[i].w[k]) - d) > 0.1)
                c.fail("planar", cat("face ", i, " leaves its plane by ", dot(n, fs[i].w[k]) - d));
            round += len(fs[i].w[k] - fs[i].w[(k + 1) % fs[i].w.size()]);
            if (k)
                a = a + cross(fs[i].w[k] - fs[i].w[0], fs[i].w[(k + 1) % fs[i].w.size()] - fs[i].w[0]);
        }
        if (dot(a, n) > 0.1 * round)
            c.fail("facing", cat("face ", i, " is wound against its plane"));
        // convex
        for (auto &p : fs[i].w)
            if (inset(fs[i].w, n, p, 0.5) < -0.15) // points are snapped to edges up to 0.1 away
                { std::string t; for (auto &q : fs[i].w) t += " " + str(q); c.fail("convex", cat("face ", i, " is not convex at ", str(p), ": ", inset(fs[i].w, n, p), ":", t)); }
    }
    // models share out the faces in order
    int face = 0;
    for (size_t mo = 0; mo < b.dmodels.size(); ++mo) {
        auto &md = b.dmodels[mo];
        eq(c, md.firstface, face, "faces", cat("first face of model ", mo));
        face += md.numfaces;
        idx((int64_t)face, b.dfaces.size() + 1, "model faces");
        for (int k = 0; k < md.numfaces; ++k)
            fs[md.firstface + k].model = (int)mo;
    }
    eq(c, (size_t)face, b.dfaces.size(), "faces", "number of faces of all models");
    // the trees
    std::vector<int> seen_node(b.dnodes.size()), seen_leaf(b.dleafs.size()), seen_face(b.dfaces.size());
    for (size_t mo = 0; mo < b.dmodels.size(); ++mo) {
        auto &md = b.dmodels[mo];
        int visleafs = 0;
        std::function<void(int, V, V)> walk = [&](int n, V lo, V hi) {
            if (n < 0) {
                int l = -1 - n;
                idx(l, b.dleafs.size(), "leaf");
                auto &lf = b.dleafs[l];
                if (l != 0 || m.q2)
                    ++seen_leaf[l];
                visleafs += l != 0;
                if (l != 0)
                    for (int k = 0; k < 3; ++k)
                        if (lf.mins[k] < lo[k] - 1 || lf.maxs[k] > hi[k] + 1)
                            c.fail("bounds", cat("leaf ", l, " reaches out of its node"));
                if (lf.nummarksurfaces) {
                    idx(lf.firstmarksurface, b.dleaffaces.size() + 1, "first leaf face");
                    idx((int64_t)lf.firstmarksurface + lf.nummarksurfaces, b.dleaffaces.size() + 1, "last leaf face");
                }
                return;
            }
            idx(n, b.dnodes.size(), "node");
            auto &nd = b.dnodes[n];
            if (++seen_node[n] > 1)
                c.fail("tree", cat("node ", n, " is met twice"));
            idx(nd.planenum, b.dplanes.size(), "node plane");
            V l2 = vec(nd.mins), h2 = vec(nd.maxs);
            for (int k = 0; k < 3; ++k)
                if (l2[k] < lo[k] - 1 || h2[k] > hi[k] + 1)
                    c.fail("bounds", cat("node ", n, " reaches out of its parent"));
            auto &pl = b.dplanes[nd.planenum];
            for (uint32_t k = 0; k < nd.numfaces; ++k) {
                idx((int64_t)nd.firstface + k, b.dfaces.size(), "node face");
                auto &f = b.dfaces[nd.firstface + k];
                ++seen_face[nd.firstface + k];
                auto &fp = b.dplanes[f.planenum];
                if (std::fabs(std::fabs(dot(vec(pl.normal), vec(fp.normal))) - 1) > 1e-4)
                    c.fail("node faces", cat("face ", nd.firstface + k, " is not on its node's plane"));
                for (auto &p : fs[nd.firstface + k].w)
                    if (std::fabs(dot(vec(pl.normal), p) - pl.dist) > 0.2)
                        c.fail("node faces", cat("face ", nd.firstface + k, " is off its node's plane"));
            }
            walk(nd.children[0], l2, h2);
            walk(nd.children[1], l2, h2);
        };
        V big{1e6, 1e6, 1e6};
        walk(md.headnode[0], big * -1, big);
        (void)visleafs;
    }
    for (size_t n = 0; n < b.dnodes.size(); ++n)
        if (!seen_node[n])
            c.fail("tree", cat("node ", n, " belongs to no model"));
    for (size_t l = m.q2 ? 0 : 1; l < b.dleafs.size(); ++l)
        if (seen_leaf[l] != 1 && !(m.q2 && l == 0))
            c.fail("tree", cat("leaf ", l, " is met ", seen_leaf[l], " times"));
    for (size_t f = 0; f < b.dfaces.size(); ++f)
        if (seen_face[f] != 1)
            c.fail("node faces", cat("face ", f, " is on ", seen_face[f], " nodes"));
    for (auto f : b.dleaffaces)
        idx(f, b.dfaces.size(), "leaf face");
    // faces share edges only if they are seen from the same contents
    {
        std::vector<std::set<int>> from(b.dfaces.size());
        for (auto &lf : b.dleafs)
            for (uint32_t k = 0; k < lf.nummarksurfaces; ++k)
                from[b.dleaffaces[lf.firstmarksurface + k]].insert(lf.contents);
        std::map<int, int> who;
        for (size_t i = 0; i < b.dfaces.size() && m.has("-nomergeacrossliquids") && !m.q2; ++i)
            if (from[i].count(-1) && (from[i].count(-3) || from[i].count(-4) || from[i].count(-5)))
                c.fail("merge", cat("face ", i, " lies in liquid and in the air in spite of -nomergeacrossliquids"));
        for (size_t i = 0; i < b.dfaces.size(); ++i)
            for (int k = 0; k < b.dfaces[i].numedges; ++k) {
                int e = b.dsurfedges[b.dfaces[i].firstedge + k];
                who.emplace(e, (int)i);
                if (!who.count(-e))
                    continue;
                if (m.has("-noedgereuse"))
                    c.fail("edges", cat("edge ", e, " is used twice with -noedgereuse"));
                int o = who[-e];
                bool meet = from[o].empty() || from[i].empty();
                for (int x : from[o])
                    meet = meet || from[i].count(x);
                if (!meet && m.has("-nomerge"))
                    c.fail("edges", cat("edge ", e, " is shared by faces ", o, " and ", i, " in different contents, ", *from[o].begin(), "..", *from[o].rbegin(), " and ", *from[i].begin(), "..", *from[i].rbegin(), " textures ", b.texinfo[b.dfaces[o].texinfo].miptex, " ", b.texinfo[b.dfaces[i].texinfo].miptex, " planes ", str(vec(b.dplanes[b.dfaces[o].planenum].normal)), " ", str(vec(b.dplanes[b.dfaces[i].planenum].normal))));
            }
    }
    // clip nodes
    for (auto &n : b.dclipnodes) {
        idx(n.planenum, b.dplanes.size(), "clipnode plane");
        for (int k = 0; k < 2; ++k)
            if (n.children[k] < -2 || n.children[k] >= (int)b.dclipnodes.size())
                c.fail("index", cat("clipnode child ", n.children[k]));
    }
    for (auto &p : b.dplanes) {
        if (std::fabs(len(vec(p.normal)) - 1) > 1e-4)
            c.fail("plane", "normal is not of length 1");
        int t = 6;
        for (int k = 0; k < 3; ++k)
            if (p.normal[k] == 1)
                t = k;
        if (t < 3 && p.type != t)
            c.fail("plane", cat("type ", p.type, " of an axial plane ", t));
        if (t == 6) {
            int k = 0;
            for (int j = 1; j < 3; ++j)
                if (std::fabs(p.normal[j]) > std::fabs(p.normal[k]) + 1e-6)
                    k = j;
            bool tie = false;
            for (int j = 0; j < 3; ++j)
                tie = tie || (j != k && std::fabs(std::fabs(p.normal[j]) - std::fabs(p.normal[k])) < 1e-5);
            if (std::fabs(p.normal[k]) < 1 - 1e-6 && !tie && p.type != 3 + k)
                c.fail("plane", cat("type ", p.type, " of a plane ", str(vec(p.normal))));
        }
    }
    for (auto &t : b.texinfo)
        if (!m.q2)
            idx(t.miptex, b.dtex.textures.size(), "miptex");
    return fs;
}
static std::string texname(const Map &m, const mbsp_t &b, const mface_t &f)
{
    auto &t = b.texinfo[f.texinfo];
    if (m.q2)
        return t.texture.data();
    return b.dtex.textures[t.miptex].name;
}
static void faces(Case &c)
{
    Opt op;
    op.overlap = true;
    op.visblock = true;
    Map m = gen(c, op);
    options(c, m);
    c.describe(about(m));
    Out out = compile(c, m);
    auto &b = out.bsp;
    auto fs = structure(c, m, out);
    const int solid_leaf = m.q2 ? 1 : -2;
    V off[8] = {};
    for (auto &e : m.ents)
        if (e.model > 0)
            off[e.model] = e.offset;
    int solid = 0, n = 0, found = 0;
    auto same_tex = [&](int fi, const Side &s, V p) {
        auto &f = b.dfaces[fi];
        if (texname(m, b, f) != s.tex)
            c.fail("texture", cat("face at ", str(p), " has texture ", texname(m, b, f), ", not ", s.tex));
        auto &t = b.texinfo[f.texinfo];
        V q = p - off[fs[fi].model];
        for (int k = 0; k < 2; ++k) {
            auto v = s.vecs(k);
            double a = v[0] * p[0] + v[1] * p[1] + v[2] * p[2] + v[3];
            double g = t.vecs.at(k, 0) * q[0] + t.vecs.at(k, 1) * q[1] + t.vecs.at(k, 2) * q[2] + t.vecs.at(k, 3);
            if (std::fabs(a - g) > 0.02)
                c.fail("alignment", cat("face at ", str(p), " axis ", k, " is at texel ", g, ", not ", a));
        }
        if (m.q2) {
            if (t.flags.native != s.flags || t.value != s.value)
                c.fail("flags", cat("face at ", str(p), " has flags ", t.flags.native, " value ", t.value, ", not ", s.flags, " ", s.value));
        } else {
            bool special = (s.tex[0] == '*' && m.has("-splitturb")) || (s.tex.rfind("sky", 0) == 0 && !m.has("-splitsky"));
            if ((t.flags.native & 1) != special)
                c.fail("flags", cat("face at ", str(p), " of ", s.tex, " has flags ", t.flags.native));
        }
    };
    // what brushes show
    for (int t = 0; t < 200; ++t) {
        auto &br = m.brushes[c.s.draw(m.brushes.size())];
        if (br.model < 0)
            continue;
        int i = (int)c.s.draw(br.sides.size());
        if (br.faces[i].empty())
            continue;
        V p = inside(c.s, br.faces[i]);
        V pn = br.b.pl[i].n;
        if (c.s.chance(1, 3))
            pn = pn * -1;
        auto w = want(m, br.model, p, pn);
        if (!w.known || w.front & B_WALL)
            continue;
        V q = p - off[br.model];
        // filled in?
        int lf = leaf_at(b, br.model, q + pn * 0.3);
        int got = b.dleafs[lf].contents;
        if (!(w.front & (B_SOLID | B_SKY)) && br.model == 0 && (m.q2 ? got & 1 : got == -2) && !(w.front & (B_WINDOW | B_WALL | B_AUX)))
            continue;
        if (br.model == 0 && !m.q2 && (w.front & (B_WINDOW | B_WALL)) && got == -2)
            if (lf == 0)
                continue;
        if (br.model == 0 && m.q2 && got & 1)
            continue;
        // and behind?
        int lb = leaf_at(b, br.model, q - pn * 0.3);
        int gotb = b.dleafs[lb].contents;
        bool bsolid = m.q2 ? gotb & 1 : (gotb == -2 && lb == 0);
        if (br.model == 0 && !(w.back & (B_SOLID | B_SKY)) && bsolid)
            continue; // other side filled
        int hits = 0, which = -1;
        bool seam = false;
        auto &md = b.dmodels[br.model];
        for (int fi = md.firstface; fi < md.firstface + md.numfaces; ++fi) {
            auto &f = fs[fi];
            if (dot(f.n, pn) < 1 - 1e-4 || std::fabs(dot(f.n, q - f.w[0])) > 0.1)
                continue;
            double in = within(f.w, f.n, q);
            if (std::fabs(in) < 0.05)
                seam = true;
            if (in > 0) {
                ++hits;
                which = fi;
            }
        }
        if (seam)
            continue;
        ++n;
        std::string where = cat("at ", str(p), " of model ", br.model, " facing ", str(pn), " between ", w.front, " and ", w.back);
        if (!w.side) {
            if (hits)
                c.fail("extra", cat("a face ", where, " of ", texname(m, b, b.dfaces[which])));
            continue;
        }
        if (hits != 1 && getenv("VH_DUMP"))
            for (int fi = md.firstface; fi < md.firstface + md.numfaces; ++fi)
                if (dot(fs[fi].n, pn) > 1 - 1e-4 && std::fabs(dot(fs[fi].n, q - fs[fi].w[0])) < 0.1) {
                    fprintf(stderr, "face %d:", fi);
                    for (auto &z : fs[fi].w)
                        fprintf(stderr, " (%.9g %.9g %.9g)", z[0], z[1], z[2]);
                    fprintf(stderr, " %s\n", texname(m, b, b.dfaces[fi]).c_str());
                }
        if (hits != 1)
            c.fail("missing", cat(hits, " faces ", where, ", where ", w.side->tex, " should be seen"));
        ++found;
        solid += w.back == B_SOLID;
        same_tex(which, *w.side, p);
        // the leaf in front sees it
        bool marked = false;
        int ln = leaf_at(b, br.model, q + pn * 0.05);
        V tu = unit(cross(pn, std::fabs(pn[2]) < 0.9 ? V{0, 0, 1} : V{1, 0, 0})), tv = cross(pn, tu);
        bool edge = false; // of the leaf
        for (int k = 0; k < 8; ++k)
            edge = edge || leaf_at(b, br.model, q + pn * (k & 1 ? 0.05 : 0.3) + (k & 2 ? tu : tv) * (k & 4 ? 0.3 : -0.3)) != ln;
        if (edge)
            continue;
        auto &leaf = b.dleafs[ln];
        for (uint32_t k = 0; k < leaf.nummarksurfaces; ++k)
            marked = marked || (int)b.dleaffaces[leaf.firstmarksurface + k] == which;
        if (!marked)
            c.fail("marks", cat("the leaf in front does not list the face ", where));
    }
    // boxes hold what is in them
    for (int t = 0; t < 160; ++t) {
        V p;
        if (t < 60)
            p = sample(c.s, m, 0);
        else { // in front of a corner of a face
            if (fs.empty())
                break;
            auto &f = fs[c.s.draw(fs.size())];
            if (f.model)
                continue;
            V mid{};
            for (auto &z : f.w)
                mid = mid + z * (1.0 / f.w.size());
            V z = f.w[c.s.draw(f.w.size())];
            p = z + unit(mid - z) * 0.1 + f.n * 0.1;
        }
        int l = leaf_at(b, 0, p);
        auto &lf = b.dleafs[l];
        bool in = l != 0 && lf.contents != solid_leaf;
        for (int k = 0; k < 3; ++k)
            in = in && p[k] > m.lo[k] && p[k] < m.hi[k];
        if (!in)
            continue;
        for (int k = 0; k < 3; ++k)
            if (p[k] < lf.mins[k] - 0.1 || p[k] > lf.maxs[k] + 0.1)
                c.fail("bounds", cat("leaf ", l, " holds ", str(p), " but its box is from ", lf.mins[0], " ", lf.mins[1], " ", lf.mins[2], " to ", lf.maxs[0], " ", lf.maxs[1], " ", lf.maxs[2]));
    }
    // faces that show something else
    for (size_t fi = 0; fi < fs.size() && fi < 400; ++fi) {
        auto &f = fs[fi];
        V q = inside(c.s, f.w);
        if (within(f.w, f.n, q) < 0.1)
            continue;
        auto w = want(m, f.model, q + off[f.model], f.n);
        if (!w.known || w.front & B_WALL)
            continue;
        if (!w.side && getenv("VH_DUMP"))
            fprintf(stderr, "leafs %d %d\n", b.dleafs[leaf_at(b, f.model, q + f.n * 0.2)].contents, b.dleafs[leaf_at(b, f.model, q - f.n * 0.2)].contents);
        if (!w.side && getenv("VH_DUMP"))
            for (auto &z : f.w)
                fprintf(stderr, " (%.9g %.9g %.9g)", z[0], z[1], z[2]);
        if (!w.side)
            c.fail("extra", cat("a face at ", str(q), " of model ", f.model, " facing ", str(f.n), " between ", w.front, " and ", w.back, " of ", texname(m, b, b.dfaces[fi])));
        same_tex((int)fi, *w.side, q + off[f.model]);
        // size
        auto &t = b.texinfo[b.dfaces[fi].texinfo];
        bool plain = m.q2 ? !(t.flags.native & (4 | 8)) : !(t.flags.native & 1);
        if (plain && w.side) {
            int lim = std::stoi(argval(m, "-subdivide", m.ver == &bspver_qbism ? "496" : "240"));
            for (int k = 0; k < 2; ++k) {
                double lo = 1e9, hi = -1e9;
                for (auto &p : f.w) {
                    double v = t.vecs.at(k, 0) * p[0] + t.vecs.at(k, 1) * p[1] + t.vecs.at(k, 2) * p[2];
                    lo = std::min(lo, v);
                    hi = std::max(hi, v);
                }
                if (hi - lo > lim + 0.1)
                    c.fail("size", cat("face at ", str(q), " is ", hi - lo, " texels wide, more than ", lim));
            }
        }
    }
    // no vertex of a face within an edge of another one of its kind
    bool specials = false; // contents that differ in these are not of one kind
    for (auto &e : m.ents)
        for (auto &[k, v] : e.kv)
            specials = specials || k == "_mirrorinside" || k == "_noclipfaces";
    if (argval(m, "-tjunc", "mwt") == "mwt" && !specials) {
        for (size_t mo = 0; mo < b.dmodels.size(); ++mo) {
            auto &md = b.dmodels[mo];
            std::vector<int> good;
            std::map<int, int> group;
            for (int fi = md.firstface; fi < md.firstface + md.numfaces; ++fi) {
                auto w = want(m, (int)mo, mid(fs[fi].w) + off[mo], fs[fi].n);
                if (!w.known || w.front != 0 || !w.side)
                    continue;
                int g = w.back & B_SOLID ? B_SOLID : w.back;
                bool mixed = (g & (g - 1)) != 0;
                for (auto &br : m.brushes) {
                    if (br.model != (int)mo || w.back == B_SOLID || (bits(m, br) & B_SOLID ? B_SOLID : bits(m, br)) == g || !bits(m, br))
                        continue;
                    bool near = true;
                    for (int k = 0; k < 3; ++k) {
                        double lo = 1e9, hi = -1e9;
                        for (auto &p : fs[fi].w) {
                            lo = std::min(lo, p[k] + off[mo][k]);
                            hi = std::max(hi, p[k] + off[mo][k]);
                        }
                        near = near && br.lo[k] < hi + 0.5 && br.hi[k] > lo - 0.5;
                    }
                    mixed = mixed || near;
                }
                if (mixed)
                    continue;
                group[fi] = g;
                good.push_back(fi);
            }
            for (int x : good) {
                V lo = fs[x].w[0], hi = lo;
                for (auto &p : fs[x].w)
                    for (int k = 0; k < 3; ++k) {
                        lo[k] = std::min(lo[k], p[k] - 1);
                        hi[k] = std::max(hi[k], p[k] + 1);
                    }
                for (int y : good)
                    for (auto &p : fs[y].w) {
                        if (group[x] != group[y])
                            break;
                        if (p[0] < lo[0] || p[0] > hi[0] || p[1] < lo[1] || p[1] > hi[1] || p[2] < lo[2] || p[2] > hi[2])
                            continue;
                        for (size_t k = 0; k < fs[x].w.size(); ++k) {
                            V a = fs[x].w[k], d = fs[x].w[(k + 1) % fs[x].w.size()] - a;
                            double l = len(d);
                            if (l < 0.5)
                                continue;
                            double t = dot(p - a, d) / l;
                            if (t < 0.5 || t > l - 0.5)
                                continue;
                            if (len(p - a - d * (t / l)) < 0.005)
                                {
                                    std::string t;
                                    for (auto &q : fs[x].w)
                                        t += " " + str(q);
                                    t += ",";
                                    for (auto &q : fs[y].w)
                                        t += " " + str(q);
                                    c.fail("t-junction", cat("(kind ", group[x], ", ", b.dfaces[x].texinfo, " ", texname(m, b, b.dfaces[x]), " ", texname(m, b, b.dfaces[y]), ") vertex ", str(p), " of face ", y, " lies within edge ", k, " of face ", x, ":", t));
                                }
                        }
                    }
            }
        }
    }
    c.nt(n > 20 && found > 5);
}
VH_MAIN("C24", "more than 20 places judged, 5 of them with faces", (std::vector<std::string>{"places within 0.6 units of other planes of near brushes are not judged"}), vh::Sub{"faces", faces, 3000, 100000})
