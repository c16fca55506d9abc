// C27: how the light is stored
#include "ltcase.hh"
#include <common/entdata.h>

struct Range
{
    size_t from, to;
    int face;
    const char *what;
};
static int shift_of(const Lit &r, int f)
{
    auto it = r.bspx.find("LMSHIFT");
    return it == r.bspx.end() ? 4 : it->second[f];
}
static int32_t i32(const uint8_t *p) { return (int32_t)(p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24); }
static float f32(const uint8_t *p)
{
    float f;
    memcpy(&f, p, 4);
    return f;
}
static bool coloured(const Setup &u)
{
    V white{255, 255, 255};
    for (auto &l : u.model.lights)
        if (l.color != white)
            return true;
    for (auto &l : u.model.suns)
        if (l.color != white)
            return true;
    return u.model.w.mincolor != white;
}
// everything that is not lighting is as it was
static void untouched(Case &c, const Setup &u, const std::string &was, const std::string &now)
{
    auto bare = [](const std::string &base, const std::string &to, std::string &ents) {
        bspdata_t d;
        fs::path p = base;
        LoadBSPFile(p, &d);
        auto version = d.version;
        ConvertBSPFormat(&d, &bspver_generic);
        auto &b = std::get<mbsp_t>(d.bsp);
        ents = b.dentdata;
        b.dentdata.clear();
        b.dlightdata.clear();
        for (auto &f : b.dfaces) {
            f.lightofs = -1;
            f.styles = {255, 255, 255, 255};
        }
        for (auto &t : {"LMSHIFT", "LMOFFSET", "LMSTYLE", "LMSTYLE16", "DECOUPLED_LM", "RGBLIGHTING", "LIGHTINGDIR", "FACENORMALS", "LIGHTGRID_OCTREE"})
            d.bspx.entries.erase(t);
        ConvertBSPFormat(&d, version);
        WriteBSPFile(to, &d);
        return bm::slurp(to);
    };
    std::string a, b, dir = c.scratch;
    if (bare(was, dir + "/bare1.bsp", a) != bare(now, dir + "/bare2.bsp", b))
        c.fail("other lumps", "light changed something besides the light");
    mbsp_t ma, mb;
    ma.dentdata = a;
    mb.dentdata = b;
    auto ea = EntData_Parse(ma), eb = EntData_Parse(mb);
    if (ea.size() != eb.size())
        c.fail("entities", cat(ea.size(), " entities became ", eb.size()));
    for (size_t i = 0; i < ea.size(); ++i) {
        bool sw = ea[i].get("classname").substr(0, 5) == "light" && (!ea[i].get("targetname").empty());
        std::string want;
        if (sw) {
            // the styles of switched lights are numbered in order
            std::vector<std::string> names;
            for (size_t k = 0; k <= i; ++k) {
                auto t = ea[k].get("targetname");
                if (ea[k].get("classname").substr(0, 5) == "light" && !t.empty() && std::find(names.begin(), names.end(), t) == names.end())
                    names.push_back(t);
            }
            want = std::to_string(32 + (int)(std::find(names.begin(), names.end(), ea[i].get("targetname")) - names.begin()));
            if (eb[i].get("style") != want)
                c.fail("switched", cat("light ", i, " (", ea[i].get("targetname"), ") has style ", eb[i].get("style"), ", not ", want));
        }
        for (auto &[k, v] : ea[i])
            if (!(sw && k == "style") && eb[i].get(k) != v)
                c.fail("entities", cat("entity ", i, ": ", k, " became ", eb[i].get(k)));
        for (auto &[k, v] : eb[i])
            if (!(sw && k == "style") && !ea[i].has(k))
                c.fail("entities", cat("entity ", i, " got ", k, "=", v));
    }
    (void)u;
}
struct Stored // of a face, as far as it is certain
{
    std::vector<int> style;
    std::vector<uint8_t> rgb;
    size_t per = 0;
    bool clear = false;
};
using All = std::map<int, Stored>;
static All check(Case &c, const Setup &u, const Lit &r, bool wantlit, bool extlit, bool bspxlit, bool extlux, bool bspxlux, bool novanilla, bool decoupled, bool scaled, int facestyles, int extra)
{
    bool rgb = u.m.q2 || u.m.ver == &bspver_hl;
    auto has = [&](const char *n) { return r.bspx.count(n) != 0; };
    size_t len = r.bsp.dlightdata.size();
    if (rgb) {
        if (len % 3)
            c.fail("size", cat(len, " bytes of light are not a multiple of three"));
        len /= 3;
        if (r.lit || r.lux || has("RGBLIGHTING") || has("LIGHTINGDIR"))
            c.fail("files", "a game with coloured light got coloured light besides");
    } else {
        if (extlit != r.lit.has_value())
            c.fail("files", cat(".lit ", r.lit ? "written" : "not written"));
        if (bspxlit != has("RGBLIGHTING"))
            c.fail("files", cat("RGBLIGHTING ", has("RGBLIGHTING") ? "written" : "not written"));
        if (extlux != r.lux.has_value())
            c.fail("files", cat(".lux ", r.lux ? "written" : "not written"));
        if (bspxlux != has("LIGHTINGDIR"))
            c.fail("files", cat("LIGHTINGDIR ", has("LIGHTINGDIR") ? "written" : "not written"));
        if (novanilla && bspxlit) {
            if (len)
                c.fail("novanilla", "-novanilla wrote light");
            len = r.bspx.at("RGBLIGHTING").size() / 3;
        }
        static const uint8_t head[8] = {'Q', 'L', 'I', 'T', 1, 0, 0, 0};
        for (auto *f : {&r.lit, &r.lux})
            if (*f && ((*f)->size() < 8 || memcmp((*f)->data(), head, 8)))
                c.fail("header", cat("the ", f == &r.lit ? ".lit" : ".lux", " does not start as it should"));
        if (r.lit && !(novanilla && bspxlit) && r.lit->size() != 8 + 3 * len)
            c.fail("size", cat("a .lit of ", r.lit->size(), " for ", len, " luxels"));
        if (r.lux && !(novanilla && bspxlit) && r.lux->size() != 8 + 3 * len)
            c.fail("size", cat("a .lux of ", r.lux->size(), " for ", len, " luxels"));
        if (has("RGBLIGHTING") && r.bspx.at("RGBLIGHTING").size() != 3 * len)
            c.fail("size", cat("RGBLIGHTING of ", r.bspx.at("RGBLIGHTING").size(), " for ", len, " luxels"));
        if (has("LIGHTINGDIR") && r.bspx.at("LIGHTINGDIR").size() != 3 * len)
            c.fail("size", cat("LIGHTINGDIR of ", r.bspx.at("LIGHTINGDIR").size(), " for ", len, " luxels"));
        if (r.lit && has("RGBLIGHTING") && r.lit->size() == 8 + 3 * len && memcmp(r.lit->data() + 8, r.bspx.at("RGBLIGHTING").data(), 3 * len))
            c.fail("copies", "RGBLIGHTING is not what the .lit holds");
        if (r.lux && has("LIGHTINGDIR") && r.lux->size() == 8 + 3 * len && memcmp(r.lux->data() + 8, r.bspx.at("LIGHTINGDIR").data(), 3 * len))
            c.fail("copies", "LIGHTINGDIR is not what the .lux holds");
    }
    (void)wantlit;
    // the colours
    std::vector<uint8_t> grey;
    const uint8_t *col;
    if (rgb)
        col = r.bsp.dlightdata.data();
    else if (r.lit && r.lit->size() == 8 + 3 * len)
        col = r.lit->data() + 8;
    else if (has("RGBLIGHTING"))
        col = r.bspx.at("RGBLIGHTING").data();
    else {
        for (auto b : r.bsp.dlightdata)
            grey.insert(grey.end(), {b, b, b});
        col = grey.data();
    }
    const uint8_t *dir = rgb ? nullptr : r.lux && r.lux->size() == 8 + 3 * len ? r.lux->data() + 8 : has("LIGHTINGDIR") ? r.bspx.at("LIGHTINGDIR").data() : nullptr;
    int unit = rgb ? 3 : 1;
    size_t nf = r.bsp.dfaces.size();
    if (has("LMSHIFT") != scaled)
        c.fail("lumps", cat("LMSHIFT ", scaled ? "lost" : "appeared"));
    if (scaled && r.bspx.at("LMSHIFT").size() != nf)
        c.fail("lumps", "LMSHIFT has the wrong size");
    if (has("LMOFFSET") && r.bspx.at("LMOFFSET").size() != 4 * nf)
        c.fail("lumps", "LMOFFSET has the wrong size");
    int per = 4;
    if (has("LMSTYLE")) {
        per = (int)(r.bspx.at("LMSTYLE").size() / nf);
        if (r.bspx.at("LMSTYLE").size() % nf || per > facestyles)
            c.fail("lumps", cat("LMSTYLE of ", r.bspx.at("LMSTYLE").size(), " for ", nf, " faces"));
    }
    if (!scaled && facestyles <= 4 && (has("LMOFFSET") || has("LMSTYLE")))
        c.fail("lumps", "LMOFFSET or LMSTYLE without need");
    if (has("LMSTYLE16"))
        c.fail("lumps", "LMSTYLE16 without need");
    if (has("DECOUPLED_LM") != decoupled)
        c.fail("lumps", cat("DECOUPLED_LM ", decoupled ? "missing" : "appeared"));
    if (decoupled && r.bspx.at("DECOUPLED_LM").size() != 40 * nf)
        c.fail("lumps", "DECOUPLED_LM has the wrong size");
    auto fs = faces(r.bsp, u.m.q2), world = moved(u, fs);
    std::vector<Range> used;
    All out;
    auto range = [&](const Face &f, long long ofs, int n, const char *what) {
        if (ofs % unit)
            c.fail("range", cat("face ", f.num, ": ", what, " offset ", ofs));
        ofs /= unit;
        size_t size = (size_t)f.size[0] * f.size[1] * n;
        if (ofs < 0 || ofs + size > len)
            c.fail("range", cat("face ", f.num, ": ", what, " light of ", n, " styles, ", f.size[0], "x", f.size[1], " at ", ofs, " of ", len));
        used.push_back({(size_t)ofs, ofs + size, f.num, what});
        return (size_t)ofs;
    };
    Tally t;
    int lit = 0;
    for (auto &f : fs) {
        auto &face = r.bsp.dfaces[f.num];
        int n = 0;
        while (n < 4 && face.styles[n] != 255)
            ++n;
        for (int i = n; i < 4; ++i)
            if (face.styles[i] != 255)
                c.fail("styles", cat("face ", f.num, ": gap in the styles"));
        Maps van, sup;
        for (int i = 0; i < n; ++i)
            van.style[van.n++] = face.styles[i];
        sup = van;
        if (has("LMSTYLE")) {
            sup.n = 0;
            auto *p = r.bspx.at("LMSTYLE").data() + (size_t)per * f.num;
            while (sup.n < per && p[sup.n] != 255)
                sup.style[sup.n] = p[sup.n], ++sup.n;
            for (int i = sup.n; i < per; ++i)
                if (p[i] != 255)
                    c.fail("styles", cat("face ", f.num, ": gap in LMSTYLE"));
            for (int i = 0; i < n || i < std::min(sup.n, 4); ++i)
                if (i >= n || i >= sup.n || van.style[i] != sup.style[i])
                    c.fail("styles", cat("face ", f.num, ": the styles of LMSTYLE are others, ", sup.n, " not ", n));
        }
        for (auto *x : {&van, &sup})
            for (int i = 0; i < x->n; ++i)
                for (int k = 0; k < i; ++k)
                    if (x->style[i] == x->style[k])
                        c.fail("styles", cat("face ", f.num, " has style ", x->style[i], " twice"));
        if (van.n > facestyles || sup.n > facestyles)
            c.fail("styles", cat("face ", f.num, " has ", sup.n, " styles"));
        int32_t so = face.lightofs;
        if (has("LMOFFSET"))
            so = i32(r.bspx.at("LMOFFSET").data() + 4 * f.num);
        if (!f.lit) {
            if (n || face.lightofs != -1 || so != -1 || sup.n)
                c.fail("unlit", cat("face ", f.num, " (", f.tex, ") takes no light but has ", n, " styles at ", face.lightofs));
            if (decoupled) {
                auto *p = r.bspx.at("DECOUPLED_LM").data() + 40 * f.num;
                if (i32(p + 4) != -1)
                    c.fail("unlit", cat("face ", f.num, " (", f.tex, ") takes no light but has decoupled light"));
            }
            continue;
        }
        if (u.m.q2 && !sup.n)
            c.fail("styles", cat("face ", f.num, " would be drawn fully bright"));
        lit += sup.n > 0;
        Face s = f; // the face as it is stored in full
        if (decoupled) {
            auto *p = r.bspx.at("DECOUPLED_LM").data() + 40 * f.num;
            so = i32(p + 4);
            if (sup.n) {
                s.size[0] = p[0] | p[1] << 8;
                s.size[1] = p[2] | p[3] << 8;
                s.scale = 1;
                s.mins[0] = s.mins[1] = 0;
                s.s = {f32(p + 8), f32(p + 12), f32(p + 16)};
                s.so = f32(p + 20);
                s.t = {f32(p + 24), f32(p + 28), f32(p + 32)};
                s.to = f32(p + 36);
                // the face lies inside
                for (auto &v : s.pts)
                    for (int k = 0; k < 2; ++k) {
                        double x = k ? dot(s.t, v) + s.to : dot(s.s, v) + s.so;
                        if (x < -0.01 || x > s.size[k] - 1 + 0.01)
                            c.fail("decoupled", cat("face ", f.num, ": vertex ", str(v), " is at ", x, " of ", s.size[k], " luxels"));
                    }
            }
        } else if (scaled)
            extents(s, 1 << shift_of(r, f.num));
        bool same = !decoupled && s.scale == 16;
        // where
        if (!sup.n) {
            if (face.lightofs != -1 || so != -1)
                c.fail("unlit", cat("face ", f.num, " has no style but an offset of ", face.lightofs, " or ", so));
            continue;
        }
        // where the extents are a matter of rounding the size of the ranges is, too
        if (!s.sure || !f.sure)
            continue;
        if (!same && novanilla) {
            if (face.lightofs != -1)
                c.fail("novanilla", cat("face ", f.num, " has plain light"));
        } else {
            if (!n)
                c.fail("styles", cat("face ", f.num, " has no styles in the map"));
            van.at = col + 3 * range(f, face.lightofs, n, "plain");
        }
        if (same && so != face.lightofs)
            c.fail("offset", cat("face ", f.num, " is at ", face.lightofs, ", and at ", so));
        sup.at = same ? van.at : col + 3 * range(s, so, sup.n, "scaled");
        if (same && sup.n > n) { // the rest of them
            used.pop_back();
            range(s, so, sup.n, "plain");
        }
        if (!rgb && !(novanilla && bspxlit)) {
            // plain bytes are the brightest colour
            for (auto *m : {&van, &sup}) {
                auto &e = m == &van ? f : s;
                if (!m->at)
                    continue;
                for (size_t i = 0; i < (size_t)e.size[0] * e.size[1] * m->n; ++i) {
                    const uint8_t *p = m->at + 3 * i;
                    int g = r.bsp.dlightdata[(m->at - col) / 3 + i], b = std::max({p[0], p[1], p[2]});
                    if (g != b)
                        c.fail("grey", cat("face ", f.num, ": light of ", (int)p[0], " ", (int)p[1], " ", (int)p[2], " is ", g, " in the map"));
                }
            }
        }
        if (van.at && !same) {
            for (int k = 0; k < n; ++k)
                for (int y = 0; y < f.size[1]; ++y)
                    for (int x = 0; x < f.size[0]; ++x) {
                        const uint8_t *p = van.at + 3 * ((size_t)(k * f.size[1] + y) * f.size[0] + x);
                        auto at = [&](int a, int b) {
                            a = std::clamp(a, 0, s.size[0] - 1);
                            b = std::clamp(b, 0, s.size[1] - 1);
                            return sup.at + 3 * ((size_t)(k * s.size[1] + b) * s.size[0] + a);
                        };
                        if (decoupled) {
                            if (extra > 1)
                                continue;
                            V q = f.at(x, y);
                            double a = dot(s.s, q) + s.so, b = dot(s.t, q) + s.to;
                            int ia = (int)std::floor(a), ib = (int)std::floor(b);
                            bool wobbly = std::fabs(a - std::round(a)) < 0.01 || std::fabs(b - std::round(b)) < 0.01;
                            for (int j = 0; j < 3; ++j) {
                                int lo = 255, hi = 0;
                                for (int da = wobbly ? -1 : 0; da <= (wobbly ? 2 : 1); ++da)
                                    for (int db = wobbly ? -1 : 0; db <= (wobbly ? 2 : 1); ++db) {
                                        lo = std::min<int>(lo, at(ia + da, ib + db)[j]);
                                        hi = std::max<int>(hi, at(ia + da, ib + db)[j]);
                                    }
                                if ((p[j] < lo - 1 || p[j] > hi + 1))
                                    c.fail("plain", cat("face ", f.num, ": luxel ", x, " ", y, " of ", f.size[0], "x", f.size[1], " style ", van.style[k], " is ", (int)p[j], ", around ", a, " ", b, " of ", s.size[0], "x", s.size[1], " it is ", lo, " to ", hi));
                            }
                        } else {
                            const uint8_t *q = at(x * s.size[0] / f.size[0], y * s.size[1] / f.size[1]);
                            if (memcmp(p, q, 3))
                                c.fail("plain", cat("face ", f.num, ": luxel ", x, " ", y, " of ", f.size[0], "x", f.size[1], " style ", van.style[k], " is ", (int)p[0], " ", (int)p[1], " ", (int)p[2], ", scaled (", s.size[0], "x", s.size[1], ") it is ", (int)q[0], " ", (int)q[1], " ", (int)q[2]));
                        }
                    }
        }
        sup.grey = col == grey.data();
        // (with two sizes of the same light both are limited to what the map has room for)
        compare(c, u, r, world, s, sup, extra, same || novanilla ? facestyles : std::min(facestyles, 4), t);
        {
            auto &o = out[f.num];
            o.per = (size_t)s.size[0] * s.size[1];
            o.style.assign(sup.style, sup.style + sup.n);
            o.rgb.assign(sup.at, sup.at + 3 * o.per * sup.n);
            V off{};
            for (auto &e : u.m.ents)
                if (e.model == f.model)
                    off = e.offset;
            // brightest first
            o.clear = !decoupled && extra == 1 && !sup.grey && u.casters.empty();
            size_t inside = 0;
            for (int y = 0; y < s.size[1] && o.clear; ++y)
                for (int x = 0; x < s.size[0] && o.clear; ++x) {
                    V q = s.at(x, y), p = q + s.n + off;
                    inside += inset(s.pts, s.n, q) > 0.1;
                    o.clear = !u.model.walls.near(p, 0.3) && !maybe_solid(r.bsp, r.bsp.dmodels[0].headnode[0], p, u.m.q2) && !(f.model && maybe_solid(r.bsp, r.bsp.dmodels[f.model].headnode[0], p - off, u.m.q2));
                }
            if (o.clear && inside > 0.85 * o.per) {
                double last = 1e9;
                for (int k = 0; k < sup.n; ++k) {
                    double a = 0;
                    for (size_t i = 0; i < o.per * 3; ++i)
                        a += o.rgb[k * o.per * 3 + i];
                    a /= o.per * 3;
                    if (a > last * 1.3 + 3)
                        c.fail("order", cat("face ", f.num, ": style ", o.style[k], " is ", a, " on average, the one before only ", last, ", ", s.size[0], "x", s.size[1], " ", f.tex, " ", f.model, " in ", str(s.pts[0]), str(s.pts[1]), str(s.pts[2])));
                    last = std::min(last, a);
                }
                if (sup.n > 1)
                    c.label("order of styles");
            }
        }
        if (dir && !decoupled) {
            // directions have length one
            for (size_t i = 0; i < (size_t)s.size[0] * s.size[1] * sup.n; ++i) {
                const uint8_t *p = dir + (sup.at - col) + 3 * i;
                double l = 0;
                for (int j = 0; j < 3; ++j)
                    l += std::pow(p[j] / 128.0 - 1, 2);
                if (l < 0.96 || l > 1.03)
                    c.fail("direction", cat("face ", f.num, ": direction ", (int)p[0], " ", (int)p[1], " ", (int)p[2]));
            }
        }
    }
    std::sort(used.begin(), used.end(), [](auto &a, auto &b) { return a.from < b.from; });
    for (size_t i = 1; i < used.size(); ++i)
        if (used[i].from < used[i - 1].to)
            c.fail("overlap", cat("the ", used[i].what, " light of face ", used[i].face, " at ", used[i].from, " and the ", used[i - 1].what, " light of face ", used[i - 1].face, " up to ", used[i - 1].to));
    c.nt(lit > 3 && t.checked > 10);
    return out;
}
static void store(Case &c)
{
    Setup u;
    setup(c, u);
    Src &s = c.s;
    bool rgb = u.m.q2 || u.m.ver == &bspver_hl;
    std::vector<std::string> args{"-visapprox", "none", "-bounce", "0"};
    int extra = s.pick<int>({1, 1, 1, 2});
    if (extra > 1)
        args.push_back("-extra");
    bool extlit = false, bspxlit = false, extlux = false, bspxlux = false;
    auto flag = [&](const char *n) { args.push_back(n); };
    switch (s.draw(7)) {
        case 0: break;
        case 1: flag("-lit"), extlit = true; break;
        case 2: flag("-bspxlit"), bspxlit = true; break;
        case 3: flag("-bspx"), bspxlit = bspxlux = true; break;
        case 4: flag("-lit"), flag("-lux"), extlit = extlux = true; break;
        case 5: flag("-bspxlux"), bspxlux = true; break;
        case 6: flag("-bspxlit"), flag("-lit"), flag("-lux"), flag("-bspxlux"), bspxlit = extlit = extlux = bspxlux = true; break;
    }
    bool novanilla = false, decoupled = false, scaled = false;
    int facestyles = 4;
    if (s.chance(1, 3)) {
        facestyles = s.pick<int>({1, 2, 3, 8, 16, 6});
        flag("-facestyles");
        args.push_back(std::to_string(facestyles));
    }
    int mode = (int)s.draw(4);
    if (mode == 1) {
        // a scale for every face
        scaled = true;
        bspdata_t d;
        fs::path p = u.out.base + ".bsp";
        LoadBSPFile(p, &d);
        auto version = d.version;
        ConvertBSPFormat(&d, &bspver_generic);
        std::vector<uint8_t> v(std::get<mbsp_t>(d.bsp).dfaces.size());
        int kinds = (int)s.draw(2);
        for (auto &x : v)
            x = kinds ? s.pick<uint8_t>({4, 3, 4, 2}) : s.pick<uint8_t>({3, 2});
        d.bspx.transfer("LMSHIFT", v);
        c.describe("with LMSHIFT");
        ConvertBSPFormat(&d, version);
        WriteBSPFile(p, &d);
    } else if (mode == 2) {
        scaled = true;
        flag("-lmshift");
        args.push_back(s.pick<const char *>({"3", "4", "2"}));
    } else if (mode == 3) {
        decoupled = true;
        facestyles = std::min(facestyles, 4);
        if (args[args.size() - 2] == "-facestyles")
            args.back() = std::to_string(facestyles);
        flag("-world_units_per_luxel");
        args.push_back(s.pick<const char *>({"8", "16", "12", "5.5", "24"}));
    }
    if (mode && s.chance(1, 3)) {
        novanilla = true;
        flag("-novanilla");
    }
    // what a colour brings
    if (!rgb && !extlit && !bspxlit && coloured(u))
        (novanilla ? bspxlit : extlit) = true;
    for (auto &a : args)
        c.describe(a);
    c.describe(about(u));
    // left by an earlier run
    if (s.b()) {
        std::ofstream(u.out.base + ".lit") << "old";
    }
    std::string was = c.scratch + "/was.bsp";
    std::filesystem::copy_file(u.out.base + ".bsp", was, std::filesystem::copy_options::overwrite_existing);
    Lit r = light(u.out.base, args);
    untouched(c, u, was, u.out.base + ".bsp");
    All all = check(c, u, r, true, extlit, bspxlit, extlux, bspxlux, novanilla, decoupled, scaled, facestyles, extra);
    if (scaled)
        c.label("scaled");
    if (decoupled)
        c.label("decoupled");
    if (novanilla)
        c.label("novanilla");
    if (facestyles > 4)
        c.label("many styles");
    // lighting it again
    std::vector<std::string> more = args;
    if (mode == 2)
        more.erase(std::find(more.begin(), more.end(), "-lmshift"), std::find(more.begin(), more.end(), "-lmshift") + 2);
    Lit r2 = light(u.out.base, more);
    if (r2.bytes != r.bytes || r2.lit != r.lit || r2.lux != r.lux)
        c.fail("again", "lighting it a second time gave something else");
    bool small = r.bytes.size() < 400000;
    // fewer styles: the first ones, with the same light; however many threads there are
    if (small && s.chance(1, 2)) {
        int k = 1 + (int)s.draw(std::max(1, std::min(facestyles, 4) - 1));
        std::vector<std::string> some = args;
        auto it = std::find(some.begin(), some.end(), "-facestyles");
        if (it == some.end())
            some.insert(some.begin(), {"-facestyles", std::to_string(k)});
        else
            it[1] = std::to_string(k);
        some.push_back("-threads");
        some.push_back(s.pick<const char *>({"2", "4", "3"}));
        std::filesystem::copy_file(was, u.out.base + ".bsp", std::filesystem::copy_options::overwrite_existing);
        Lit r3 = light(u.out.base, some);
        All few = check(c, u, r3, true, extlit, bspxlit, extlux, bspxlux, novanilla, decoupled, scaled, k, extra);
        int fewer = 0;
        for (auto &[f, x] : all) {
            auto it = few.find(f);
            size_t n = std::min<size_t>(k, x.style.size());
            if (it == few.end() || it->second.style != std::vector<int>(x.style.begin(), x.style.begin() + n) || it->second.rgb != std::vector<uint8_t>(x.rgb.begin(), x.rgb.begin() + n * x.per * 3))
                c.fail("fewer", cat("face ", f, " has other light with -facestyles ", k, " and several threads"));
            fewer += n < x.style.size();
        }
        for (auto &[f, x] : few)
            if (!all.count(f))
                c.fail("fewer", cat("face ", f, " is only lit with -facestyles ", k));
        if (fewer)
            c.label("fewer styles");
        std::ofstream(u.out.base + ".bsp", std::ios::binary).write((const char *)r.bytes.data(), r.bytes.size());
    }
    // flags of another map
    if (small && s.chance(1, 3)) {
        std::string js = u.out.base + ".texinfo.json";
        std::string kept = std::filesystem::exists(js) ? [&] { auto v = bm::slurp(js); return std::string(v.begin(), v.end()); }() : std::string();
        bool had = std::filesystem::exists(js);
        auto again = [&] {
            std::filesystem::copy_file(was, u.out.base + ".bsp", std::filesystem::copy_options::overwrite_existing);
            return light(u.out.base, args);
        };
        std::filesystem::remove(js);
        Lit none = again();
        std::string body;
        size_t n = r.bsp.texinfo.size();
        for (size_t i = 0; i < n; ++i)
            if (s.chance(1, 2)) {
                body += cat(body.empty() ? "" : ",", "\"", i, "\":");
                switch (s.draw(4)) {
                    case 0: body += "{\"light_ignore\":true}"; break;
                    case 1: body += "{\"maxlight\":20,\"no_shadow\":true}"; break;
                    case 2: body += "{\"minlight\":90,\"surflight_group\":1,\"light_alpha\":0.5}"; break;
                    case 3: body += "{\"lightcolorscale\":0,\"minlight_color\":[255,0,0],\"minlight\":50}"; break;
                }
            }
        body += cat(body.empty() ? "" : ",", "\"", n + s.draw(3), "\":{\"no_phong\":true}");
        std::ofstream(js) << "{" << body << "}";
        Lit other = again();
        if (other.bytes != none.bytes || other.lit != none.lit)
            c.fail("foreign flags", "a .texinfo.json of another map changed the light");
        c.label("foreign flags");
        if (had)
            std::ofstream(js, std::ios::binary) << kept;
        else
            std::filesystem::remove(js);
        std::ofstream(u.out.base + ".bsp", std::ios::binary).write((const char *)r.bytes.data(), r.bytes.size());
    }
    // only entities
    {
        if (s.b())
            std::ofstream(u.out.base + ".lit") << "kept";
        else
            std::filesystem::remove(u.out.base + ".lit");
        auto lit = std::filesystem::exists(u.out.base + ".lit");
        bool done = s.b(); // lit before
        if (!done)
            std::filesystem::copy_file(was, u.out.base + ".bsp", std::filesystem::copy_options::overwrite_existing);
        bspdata_t d;
        Lit before;
        load(u.out.base, before);
        std::vector<std::string> only{"-onlyents"};
        if (bspxlit && !novanilla)
            only.push_back("-bspxlit");
        Lit o = light(u.out.base, only);
        for (size_t i = 0; done && i < r.bsp.dfaces.size(); ++i)
            if (o.bsp.dfaces[i].styles != r.bsp.dfaces[i].styles || o.bsp.dfaces[i].lightofs != r.bsp.dfaces[i].lightofs)
                c.fail("onlyents", cat("-onlyents changed face ", i));
        if (o.bsp.dentdata != r.bsp.dentdata)
            c.fail("onlyents", "-onlyents gives other entities");
        if (o.bsp.dlightdata != before.bsp.dlightdata || o.bspx != before.bspx)
            c.fail("onlyents", "-onlyents changed the light");
        untouched(c, u, was, u.out.base + ".bsp");
        if (o.lit.has_value() != lit || (lit && o.lit->size() != 4))
            c.fail("onlyents", "-onlyents touched the .lit");
        std::ofstream(u.out.base + ".bsp", std::ios::binary).write((const char *)r.bytes.data(), r.bytes.size());
    }
    // only the .lit
    if (!rgb && !mode && facestyles <= 4 && !novanilla && !r.bsp.dlightdata.empty()) {
        std::vector<std::string> only = args;
        only.push_back("-litonly");
        if (!extlit)
            only.push_back("-lit");
        Lit o = light(u.out.base, only);
        if (o.bytes != r.bytes)
            c.fail("litonly", "-litonly changed the map");
        if (!o.lit)
            c.fail("litonly", "-litonly wrote no .lit");
        if (r.lit && *o.lit != *r.lit)
            c.fail("litonly", "-litonly wrote another .lit than before");
        if (o.lit->size() != 8 + 3 * r.bsp.dlightdata.size())
            c.fail("litonly", cat("a .lit of ", o.lit->size(), " for ", r.bsp.dlightdata.size(), " luxels"));
        for (size_t i = 0; i < r.bsp.dlightdata.size(); ++i) {
            auto *p = o.lit->data() + 8 + 3 * i;
            if (std::max({p[0], p[1], p[2]}) != r.bsp.dlightdata[i])
                c.fail("litonly", cat("luxel ", i, " is ", (int)r.bsp.dlightdata[i], " in the map, ", (int)p[0], " ", (int)p[1], " ", (int)p[2], " in the .lit"));
        }
        c.label("litonly");
    }
}
static const std::vector<std::string> assume{};
VH_MAIN("C27", "at least four lit faces, and more than 10 luxels whose light does not depend on hairs were compared", assume,
    vh::Sub{"store", store, 400, 8000, false, 120, false})
