#include "bspmodel.hh"
using namespace bm;
using vh::Case;
using vh::Src;

// ---- model of the generic representation ------------------------------------
static bytes enc_generic(const mbsp_t &m)
{
    // every field of the generic form, for comparisons only
    bytes o;
    auto put = [&](const bytes &b) {
        p32(o, b.size());
        o.insert(o.end(), b.begin(), b.end());
    };
    put(bytes(m.dentdata.begin(), m.dentdata.end()));
    put(enc(m.dmodels));
    put(enc(m.dvis));
    put(m.dvis.bits);
    put(m.dlightdata);
    put(enc(m.dtex));
    for (auto &t : m.dtex.textures) {
        put(bytes(t.name.begin(), t.name.end()));
        p32(o, t.null_texture);
        if (!t.null_texture) {
            p32(o, t.width);
            p32(o, t.height);
        }
    }
    for (auto l : m.dleafs) {
        p32(o, l.contents);
        p32(o, l.visofs);
        for (int i = 0; i < 3; ++i) {
            pf(o, l.mins[i]);
            pf(o, l.maxs[i]);
        }
        p32(o, l.firstmarksurface);
        p32(o, l.nummarksurfaces);
        for (auto a : l.ambient_level)
            p8(o, a);
        p32(o, l.cluster);
        p32(o, l.area);
        p32(o, l.firstleafbrush);
        p32(o, l.numleafbrushes);
    }
    put(enc(m.dplanes));
    put(enc(m.dvertexes));
    put(enc(m.dnodes));
    for (auto t : m.texinfo) {
        Enc e{o};
        texvecs(e, t.vecs);
        p32(o, t.flags.native);
        p32(o, t.miptex);
        p32(o, t.value);
        for (char c : t.texture)
            p8(o, c);
        p32(o, t.nexttexinfo);
    }
    for (auto f : m.dfaces) {
        p32(o, (uint32_t)(f.planenum >> 32));
        p32(o, (uint32_t)f.planenum);
        p32(o, f.side);
        p32(o, f.firstedge);
        p32(o, f.numedges);
        p32(o, f.texinfo);
        for (auto s : f.styles)
            p8(o, s);
        p32(o, f.lightofs);
    }
    put(enc(m.dclipnodes));
    put(enc(m.dedges));
    put(enc(m.dleaffaces));
    put(enc(m.dleafbrushes));
    put(enc(m.dsurfedges));
    put(enc(m.dareas));
    put(enc(m.dareaportals));
    put(enc(m.dbrushes));
    put(enc(m.dbrushsides));
    return o;
}

struct Over
{
    std::string what;
};
static void chk(bool in, const char *what)
{
    if (!in)
        throw Over{what};
}
static int64_t nar(int64_t v, int64_t lo, int64_t hi, const char *what)
{
    chk(v >= lo && v <= hi, what);
    return v;
}
static int16_t i16(int64_t v, const char *w) { return (int16_t)nar(v, -32768, 32767, w); }
static uint16_t u16(int64_t v, const char *w) { return (uint16_t)nar(v, 0, 65535, w); }
static int16_t lo16(float v, const char *w)
{
    double f = std::floor((double)v);
    chk(f >= -32768 && f <= 32767, w);
    return (int16_t)f;
}
static int16_t hi16(float v, const char *w)
{
    double f = std::ceil((double)v);
    chk(f >= -32768 && f <= 32767, w);
    return (int16_t)f;
}
static void pbounds16(bytes &o, const qvec3f &mn, const qvec3f &mx, const char *w)
{
    for (int i = 0; i < 3; ++i)
        p16(o, lo16(mn[i], w));
    for (int i = 0; i < 3; ++i)
        p16(o, hi16(mx[i], w));
}
static void pboundsf(bytes &o, const qvec3f &mn, const qvec3f &mx)
{
    for (int i = 0; i < 3; ++i)
        pf(o, mn[i]);
    for (int i = 0; i < 3; ++i)
        pf(o, mx[i]);
}

// what the given generic BSP must look like on disk in `v`; throws Over when a value
// does not fit
static Lumps expect(mbsp_t &m, const bspversion_t *v)
{
    bool q2 = is_q2(v);
    bool small = v == &bspver_q1 || v == &bspver_h2 || v == &bspver_hl; // 16-bit Quake
    bool rmq = v == &bspver_bsp2rmq || v == &bspver_h2bsp2rmq;
    bool q2s = v == &bspver_q2;
    Lumps r;
    bytes planes = enc(m.dplanes), verts = enc(m.dvertexes), surfedges = enc(m.dsurfedges), nodes, ti, faces, clip, leafs,
          edges, marks, models;
    for (auto &n : m.dnodes) {
        p32(nodes, n.planenum);
        for (auto c : n.children)
            if (small)
                p16(nodes, i16(c, "node children"));
            else
                p32(nodes, c);
        if (small || rmq || q2s)
            pbounds16(nodes, n.mins, n.maxs, "node bounds");
        else
            pboundsf(nodes, n.mins, n.maxs);
        if (small || q2s) {
            p16(nodes, u16(n.firstface, "node firstface"));
            p16(nodes, u16(n.numfaces, "node numfaces"));
        } else {
            p32(nodes, n.firstface);
            p32(nodes, n.numfaces);
        }
    }
    for (auto &t : m.texinfo) {
        Enc e{ti};
        auto vecs = t.vecs;
        texvecs(e, vecs);
        if (!q2) {
            p32(ti, t.miptex);
            p32(ti, t.flags.native);
        } else {
            p32(ti, t.flags.native);
            p32(ti, t.value);
            for (char c : t.texture)
                p8(ti, c);
            p32(ti, t.nexttexinfo);
        }
    }
    for (auto &f : m.dfaces) {
        if (small || q2s) {
            if (q2s)
                p16(faces, u16(f.planenum, "face plane"));
            else
                p16(faces, i16(f.planenum, "face plane"));
            p16(faces, i16(f.side, "face side"));
            p32(faces, f.firstedge);
            p16(faces, i16(f.numedges, "face numedges"));
            p16(faces, i16(f.texinfo, "face texinfo"));
        } else {
            if (q2)
                nar(f.planenum, 0, UINT32_MAX, "face plane");
            else
                nar(f.planenum, INT32_MIN, INT32_MAX, "face plane");
            p32(faces, (uint32_t)f.planenum);
            p32(faces, f.side);
            p32(faces, f.firstedge);
            p32(faces, f.numedges);
            p32(faces, f.texinfo);
        }
        for (auto s : f.styles)
            p8(faces, s);
        p32(faces, f.lightofs);
    }
    for (auto &l : m.dleafs) {
        p32(leafs, l.contents);
        if (!q2) {
            p32(leafs, l.visofs);
        } else if (q2s) {
            p16(leafs, i16(l.cluster, "leaf cluster"));
            p16(leafs, i16(l.area, "leaf area"));
        } else {
            p32(leafs, l.cluster);
            p32(leafs, l.area);
        }
        if (small || rmq || q2s)
            pbounds16(leafs, l.mins, l.maxs, "leaf bounds");
        else
            pboundsf(leafs, l.mins, l.maxs);
        auto cnt = [&](uint32_t x, const char *w) {
            if (small || q2s)
                p16(leafs, u16(x, w));
            else
                p32(leafs, x);
        };
        cnt(l.firstmarksurface, "leaf firstmarksurface");
        cnt(l.nummarksurfaces, "leaf nummarksurfaces");
        if (!q2) {
            for (auto a : l.ambient_level)
                p8(leafs, a);
        } else {
            cnt(l.firstleafbrush, "leaf firstleafbrush");
            cnt(l.numleafbrushes, "leaf numleafbrushes");
        }
    }
    for (auto &c : m.dclipnodes) {
        p32(clip, c.planenum);
        for (auto ch : c.children)
            if (small)
                p16(clip, (uint16_t)nar(ch, -15, 0xfff0, "clipnode children"));
            else
                p32(clip, ch);
    }
    for (auto &e : m.dedges)
        for (auto x : e)
            if (small || q2s)
                p16(edges, u16(x, "edge vertex"));
            else
                p32(edges, x);
    auto idx = [&](const std::vector<uint32_t> &a, const char *w) {
        bytes o;
        for (auto x : a)
            if (small || q2s)
                p16(o, u16(x, w));
            else
                p32(o, x);
        return o;
    };
    marks = idx(m.dleaffaces, "leaf face");
    for (auto &x : m.dmodels) {
        for (int i = 0; i < 3; ++i)
            pf(models, x.mins[i]);
        for (int i = 0; i < 3; ++i)
            pf(models, x.maxs[i]);
        for (int i = 0; i < 3; ++i)
            pf(models, x.origin[i]);
        int nh = q2 ? 1 : is_h2(v) ? 8 : 4;
        for (int h = 0; h < nh; ++h)
            p32(models, x.headnode[h]);
        if (!q2)
            p32(models, x.visleafs);
        p32(models, x.firstface);
        p32(models, x.numfaces);
    }
    if (!q2) {
        r = {{0, enc(m.dentdata)}, {1, planes}, {2, enc(m.dtex)}, {3, verts}, {4, m.dvis.bits}, {5, nodes}, {6, ti},
            {7, faces}, {8, m.dlightdata}, {9, clip}, {10, leafs}, {11, marks}, {12, edges}, {13, surfedges},
            {14, models}};
    } else {
        bytes bsides;
        for (auto &b : m.dbrushsides)
            if (q2s) {
                p16(bsides, u16(b.planenum, "brushside plane"));
                p16(bsides, i16(b.texinfo, "brushside texinfo"));
            } else {
                p32(bsides, b.planenum);
                p32(bsides, b.texinfo);
            }
        r = {{0, enc(m.dentdata)}, {1, planes}, {2, verts}, {3, enc(m.dvis)}, {4, nodes}, {5, ti}, {6, faces},
            {7, m.dlightdata}, {8, leafs}, {9, marks}, {10, idx(m.dleafbrushes, "leaf brush")}, {11, edges},
            {12, surfedges}, {13, models}, {14, enc(m.dbrushes)}, {15, bsides}, {17, enc(m.dareas)},
            {18, enc(m.dareaportals)}};
    }
    return r;
}

// generic values that mostly fit 16-bit formats
struct SmallGen : Gen
{
    int big; // 1-in-`big` values is allowed to exceed 16-bit limits (0: never)
    SmallGen(Src &s, int big) : Gen{s}, big(big) { }
    bool over() { return big && s.chance(1, big); }
};

static void gen_generic(Src &s, mbsp_t &m, bool q2, int big, int hi)
{
    SmallGen g{s, big};
    auto u = [&]() -> uint32_t {
        if (g.over())
            return (uint32_t)s.pick<int64_t>({65536, 65537, 100000, 0xffffffffll, 0x80000000ll, 0x7fffffffll});
        return s.b() ? (uint32_t)s.draw(10) : s.pick<uint32_t>({65535, 65534, 32768, 32767, 255, 256, 1000});
    };
    auto sgn = [&]() -> int32_t {
        if (g.over())
            return s.pick<int32_t>({32768, -32769, 65535, 65536, INT32_MAX, INT32_MIN, -65536});
        return s.b() ? (int32_t)s.ito(-10, 10, 0) : s.pick<int32_t>({32767, -32768, 255, -255, 32766, -32767, 1000});
    };
    auto bound = [&]() -> float {
        if (g.over())
            return s.pick<float>({32768.f, -32769.f, 40000.f, -50000.f, 1e9f, -1e9f, 32767.5f, -32768.5f, 1e30f, 3e9f});
        switch (s.draw(4)) {
            case 0: return (float)s.ito(-32768, 32767, 0);
            case 1: return s.pick<float>({32767.f, -32768.f, 32766.5f, -32767.5f, 0.25f, -0.25f, -0.f});
            default: return (float)s.f(-4000, 4000);
        }
    };
    auto bounds = [&](qvec3f &mn, qvec3f &mx) {
        for (int i = 0; i < 3; ++i) {
            mn[i] = bound();
            mx[i] = bound();
        }
    };
    m.dentdata = gen_text(s, 20);
    gen(s, m.dplanes, 0, hi);
    gen(s, m.dvertexes, 0, hi);
    gen(s, m.dsurfedges, 0, hi);
    gen(s, m.dlightdata, 0, 9);
    m.dnodes.resize(s.count(0, hi));
    for (auto &n : m.dnodes) {
        n.planenum = s.i32();
        n.children = {sgn(), sgn()};
        bounds(n.mins, n.maxs);
        n.firstface = u();
        n.numfaces = u();
    }
    m.texinfo.resize(s.count(0, hi));
    for (auto &t : m.texinfo) {
        Gen gg{s};
        texvecs(gg, t.vecs);
        t.flags.native = s.i32();
        t.miptex = s.i32();
        t.value = s.i32();
        for (auto &c : t.texture)
            c = q2 ? (char)s.draw(128) : 0;
        t.nexttexinfo = s.i32();
    }
    m.dfaces.resize(s.count(0, hi));
    for (auto &f : m.dfaces) {
        f.planenum = g.over() ? s.pick<int64_t>({65536, -1, 32768, -32769, 1ll << 31, -(1ll << 31) - 1, 1ll << 32, 0xffffffffll})
                              : s.pick<int64_t>({0, 1, 2, 32767, 7, 1000});
        f.side = sgn();
        f.firstedge = s.i32();
        f.numedges = sgn();
        f.texinfo = sgn();
        for (auto &x : f.styles)
            x = (uint8_t)s.draw(256);
        f.lightofs = s.i32();
    }
    m.dleafs.resize(s.count(0, hi));
    for (auto &l : m.dleafs) {
        l.contents = s.i32();
        l.visofs = s.i32();
        bounds(l.mins, l.maxs);
        l.firstmarksurface = u();
        l.nummarksurfaces = u();
        for (auto &a : l.ambient_level)
            a = (uint8_t)s.draw(256);
        l.cluster = sgn();
        l.area = sgn();
        l.firstleafbrush = u();
        l.numleafbrushes = u();
    }
    m.dedges.resize(s.count(0, hi));
    for (auto &e : m.dedges)
        e = {u(), u()};
    m.dleaffaces.resize(s.count(0, hi));
    for (auto &e : m.dleaffaces)
        e = u();
    m.dmodels.resize(s.count(0, 4));
    Gen gg{s};
    for (auto &x : m.dmodels)
        fields(gg, x);
    if (!q2) {
        gen_tex(s, m.dtex, 2);
        m.dvis.bits = s.bytes(s.count(0, 9));
        m.dclipnodes.resize(s.count(0, hi));
        for (auto &c : m.dclipnodes) {
            c.planenum = s.i32();
            for (auto &x : c.children)
                x = g.over() ? s.pick<int32_t>({-16, 0xfff1, 0xffff, 65536, -32768, INT32_MAX, INT32_MIN})
                             : s.pick<int32_t>({-1, -2, -15, 0, 5, 32767, 32768, 0xfff0, 0xffef, -6});
        }
    } else {
        gen_mvis(s, m.dvis);
        m.dleafbrushes.resize(s.count(0, hi));
        for (auto &e : m.dleafbrushes)
            e = u();
        gen(s, m.dbrushes, 0, hi);
        gen(s, m.dareas, 0, hi);
        gen(s, m.dareaportals, 0, hi);
        m.dbrushsides.resize(s.count(0, hi));
        for (auto &b : m.dbrushsides) {
            b.planenum = u();
            b.texinfo = sgn();
        }
    }
}

static bytes raw_bounds(const mbsp_t &m)
{
    return {};
}

// generic -> every format: exact narrowing or refusal that keeps the data
static void narrow(Case &c)
{
    bool q2 = c.s.b();
    auto *to = q2 ? c.s.pick<const bspversion_t *>({&bspver_q2, &bspver_qbism})
                  : c.s.pick<const bspversion_t *>({&bspver_q1, &bspver_h2, &bspver_hl, &bspver_bsp2rmq,
                        &bspver_h2bsp2rmq, &bspver_bsp2, &bspver_h2bsp2});
    bspdata_t d;
    d.version = &bspver_generic;
    d.loadversion = to;
    mbsp_t &m = d.bsp.emplace<mbsp_t>();
    m.loadversion = to;
    int big = c.s.pick<int>({0, 0, 300, 100, 30});
    gen_generic(c.s, m, q2, big, 5);
    d.bspx.entries["KEEP"] = {1, 2, 3};
    bytes before = enc_generic(m);
    std::string over;
    Lumps want;
    try {
        want = expect(m, to);
    } catch (Over &o) {
        over = o.what;
    }
    c.nt(m.dnodes.size() + m.dleafs.size() + m.dfaces.size() + m.dclipnodes.size() >= 3);
    c.label(over.empty() ? "fits" : "overflow");
    c.describe(vh::cat("generic -> ", to->short_name, ", ", over.empty() ? "fits" : "overflow: " + over));
    bool ok = ConvertBSPFormat(&d, to);
    c.require(d.bspx.entries.size() == 1 && d.bspx.entries["KEEP"] == bytes{1, 2, 3}, "bspx", "BSPX entries changed by conversion");
    if (!over.empty()) {
        c.require(!ok, "overflow-accepted", vh::cat("conversion to ", to->short_name, " accepted a value that does not fit: ", over));
        c.require(d.version == &bspver_generic, "refused-version", "a refused conversion changed the version");
        c.require(std::holds_alternative<mbsp_t>(d.bsp) && enc_generic(std::get<mbsp_t>(d.bsp)) == before, "refused-data",
            "a refused conversion changed the data");
        return;
    }
    c.require(ok, "fitting-refused", vh::cat("conversion to ", to->short_name, " refused data that fits"));
    c.require(d.version == to, "version", "version not updated");
    std::string df = diff_lumps(want, enc_lumps(d), q2);
    c.require(df.empty(), "narrow", vh::cat("generic -> ", to->short_name, ": ", df));
    if (!q2) {
        bool h2 = false;
        std::visit([&](auto &b) { using T = std::decay_t<decltype(b)>; if constexpr (std::is_base_of_v<q1bsp_tag_t, T>) h2 = std::holds_alternative<dmodelh2_vector>(b.dmodels); }, d.bsp);
        c.require(h2 == is_h2(to), "model-kind", "wrong model record kind for the target format");
    }
}

// format -> generic -> same format is lossless, and the generic form holds the same values
static void lossless(Case &c)
{
    auto *ver = c.s.pick(versions());
    bspdata_t d;
    gen_bsp(c.s, d, ver, 7);
    d.file = "some/where.bsp";
    auto bspx = gen_bspx(c.s, 3);
    for (auto &[k, v] : bspx)
        d.bspx.entries[k] = v;
    Lumps want = enc_lumps(d);
    auto orig = d.bsp;
    c.label(ver->short_name);
    c.nt(want.size() > 10 && want[5].size() > 0);
    c.describe(vh::cat(ver->short_name, " -> generic -> ", ver->short_name));
    c.require(ConvertBSPFormat(&d, &bspver_generic), "to-generic", "conversion to generic refused");
    c.require(d.version == &bspver_generic && d.loadversion == ver, "loadversion", "original version not remembered");
    mbsp_t &m = std::get<mbsp_t>(d.bsp);
    c.require(m.loadversion == ver && m.file == fs::path("some/where.bsp"), "mbsp-origin", "origin not recorded in the generic form");
    // value checks on the generic form
    auto veq = [](const auto &a, const qvec3f &b) { return (float)a[0] == b[0] && (float)a[1] == b[1] && (float)a[2] == b[2]; };
    auto up16 = [](int16_t v) { int32_t x = (uint16_t)v; return x > 0xfff0 ? x - 0x10000 : x; };
    std::visit(
        [&](auto &b) {
            using T = std::decay_t<decltype(b)>;
            if constexpr (!std::is_same_v<T, std::monostate> && !std::is_same_v<T, mbsp_t>) {
                c.require(m.dentdata == b.dentdata && m.dlightdata == b.dlightdata, "generic-blob", "entities or lighting changed");
                c.require(m.dnodes.size() == b.dnodes.size() && m.dleafs.size() == b.dleafs.size() && m.dfaces.size() == b.dfaces.size() &&
                              m.texinfo.size() == b.texinfo.size() && m.dedges.size() == b.dedges.size(), "generic-counts", "element counts changed");
                for (size_t i = 0; i < b.dnodes.size(); ++i) {
                    auto &x = b.dnodes[i];
                    auto &g = m.dnodes[i];
                    c.require(g.planenum == x.planenum && g.children[0] == x.children[0] && g.children[1] == x.children[1] &&
                                  veq(x.mins, g.mins) && veq(x.maxs, g.maxs) && g.firstface == x.firstface && g.numfaces == x.numfaces,
                        "generic-node", vh::cat("node ", i, " differs in the generic form"));
                }
                for (size_t i = 0; i < b.dfaces.size(); ++i) {
                    auto &x = b.dfaces[i];
                    auto &g = m.dfaces[i];
                    c.require(g.planenum == x.planenum && g.side == x.side && g.firstedge == x.firstedge && g.numedges == x.numedges &&
                                  g.texinfo == x.texinfo && g.styles == x.styles && g.lightofs == x.lightofs,
                        "generic-face", vh::cat("face ", i, " differs in the generic form"));
                }
                for (size_t i = 0; i < b.dedges.size(); ++i)
                    c.require(m.dedges[i][0] == b.dedges[i][0] && m.dedges[i][1] == b.dedges[i][1], "generic-edge", "edge differs in the generic form");
                for (size_t i = 0; i < b.texinfo.size(); ++i)
                    c.require(m.texinfo[i].flags.native == b.texinfo[i].flags && m.texinfo[i].vecs == b.texinfo[i].vecs, "generic-texinfo", "texinfo differs in the generic form");
                for (size_t i = 0; i < b.dleafs.size(); ++i) {
                    auto &x = b.dleafs[i];
                    auto &g = m.dleafs[i];
                    c.require(g.contents == x.contents && veq(x.mins, g.mins) && veq(x.maxs, g.maxs), "generic-leaf", vh::cat("leaf ", i, " differs in the generic form"));
                    if constexpr (std::is_base_of_v<q1bsp_tag_t, T>) {
                        c.require(g.visofs == x.visofs && g.ambient_level == x.ambient_level && g.firstmarksurface == x.firstmarksurface && g.nummarksurfaces == x.nummarksurfaces,
                            "generic-leaf", vh::cat("leaf ", i, " differs in the generic form"));
                    } else {
                        c.require(g.cluster == x.cluster && g.area == x.area && g.firstmarksurface == x.firstleafface && g.nummarksurfaces == x.numleaffaces &&
                                      g.firstleafbrush == x.firstleafbrush && g.numleafbrushes == x.numleafbrushes,
                            "generic-leaf", vh::cat("leaf ", i, " differs in the generic form"));
                    }
                }
                if constexpr (std::is_base_of_v<q1bsp_tag_t, T>) {
                    c.require(m.dvis.bits == b.dvisdata && m.dleaffaces.size() == b.dmarksurfaces.size() && m.dclipnodes.size() == b.dclipnodes.size(), "generic-counts", "element counts changed");
                    for (size_t i = 0; i < b.dmarksurfaces.size(); ++i)
                        c.require(m.dleaffaces[i] == b.dmarksurfaces[i], "generic-mark", "marksurface differs");
                    for (size_t i = 0; i < b.texinfo.size(); ++i)
                        c.require(m.texinfo[i].miptex == b.texinfo[i].miptex, "generic-texinfo", "miptex differs");
                    for (size_t i = 0; i < b.dclipnodes.size(); ++i)
                        for (int k = 0; k < 2; ++k) {
                            int32_t e;
                            if constexpr (std::is_same_v<T, bsp29_t>)
                                e = up16(b.dclipnodes[i].children[k]);
                            else
                                e = b.dclipnodes[i].children[k];
                            c.require(m.dclipnodes[i].children[k] == e && m.dclipnodes[i].planenum == b.dclipnodes[i].planenum, "generic-clipnode", vh::cat("clipnode ", i, " differs"));
                        }
                } else {
                    c.require(m.dbrushes.size() == b.dbrushes.size() && m.dbrushsides.size() == b.dbrushsides.size() && m.dareas == b.dareas && m.dareaportals == b.dareaportals, "generic-counts", "element counts changed");
                    for (size_t i = 0; i < b.dbrushsides.size(); ++i)
                        c.require(m.dbrushsides[i].planenum == b.dbrushsides[i].planenum && m.dbrushsides[i].texinfo == b.dbrushsides[i].texinfo, "generic-brushside", "brush side differs");
                    for (size_t i = 0; i < b.texinfo.size(); ++i)
                        c.require(m.texinfo[i].value == b.texinfo[i].value && m.texinfo[i].texture == b.texinfo[i].texture && m.texinfo[i].nexttexinfo == b.texinfo[i].nexttexinfo, "generic-texinfo", "texinfo differs");
                }
            }
        },
        orig);
    c.require(d.bspx.entries.size() == bspx.size(), "bspx", "BSPX entries changed");
    for (auto &[k, v] : bspx)
        c.require(d.bspx.entries[k] == v, "bspx", "BSPX entries changed");
    c.require(ConvertBSPFormat(&d, ver), "back-refused", "conversion back to the original format refused");
    c.require(d.version == ver, "back-version", "version not restored");
    std::string df = diff_lumps(want, enc_lumps(d), is_q2(ver));
    c.require(df.empty(), "roundtrip", vh::cat(ver->short_name, ": ", df));
    // same version: no-op; format to format without going through generic: refused, unchanged
    c.require(ConvertBSPFormat(&d, ver), "noop", "same-version conversion refused");
    auto *other = c.s.pick(versions());
    if (other != ver) {
        c.require(!ConvertBSPFormat(&d, other), "direct", "a direct format-to-format conversion claims success");
        c.require(d.version == ver && diff_lumps(want, enc_lumps(d), is_q2(ver)).empty(), "direct-data", "a refused conversion changed the data");
    }
}

// an end-to-end file conversion, the way the tools do it
static void file_convert(Case &c)
{
    auto *ver = c.s.pick(versions());
    bspdata_t d;
    gen_bsp(c.s, d, ver, 5);
    Lumps want = enc_lumps(d);
    auto bspx = gen_bspx(c.s, 3);
    for (auto &[k, v] : bspx)
        d.bspx.entries[k] = v;
    std::string p = c.scratch + "/a.bsp", p2 = c.scratch + "/b.bsp";
    WriteBSPFile(p, &d);
    bspdata_t r;
    fs::path fp = p;
    LoadBSPFile(fp, &r);
    c.require(ConvertBSPFormat(&r, &bspver_generic), "to-generic", "refused");
    c.require(ConvertBSPFormat(&r, r.loadversion), "to-original", "refused");
    WriteBSPFile(p2, &r);
    Parsed ps = parse_file(ver, slurp(p2));
    c.require(ps.ok, "container", ps.err);
    std::string df = diff_lumps(want, ps.lumps, is_q2(ver));
    c.require(df.empty(), "file", df);
    c.require(ps.bspx == bspx, "file-bspx", "BSPX lumps changed by load -> generic -> save");
    c.nt(want.size() > 8);
    c.describe(vh::cat(ver->short_name, " file through generic, ", bspx.size(), " bspx"));
}

VH_MAIN("C02", "the structure holds at least three elements whose width differs between formats",
    (std::vector<std::string>{"no NaN bounds are generated"}), vh::Sub{"narrow", narrow, 60000, 2000000},
    vh::Sub{"lossless", lossless, 25000, 600000}, vh::Sub{"file", file_convert, 4000, 60000})
