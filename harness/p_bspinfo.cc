// C17: what bspinfo tells about a map
#include "meshgen.hh"
#include "bspmodel.hh"
#include <common/bspinfo.hh>
#include <common/json.hh>
#include <common/log.hh>
#include <common/settings.hh>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#define STB_IMAGE_STATIC
#define STB_IMAGE_IMPLEMENTATION
#define STBI_ONLY_PNG
#include <../3rdparty/stb_image.h>
namespace tool
{
#define main bspinfo_main
#include <../bspinfo/main.cc>
#undef main
}
using vh::Case;
using vh::Src;
using vh::cat;

struct Png
{
    int w = 0, h = 0;
    std::vector<uint8_t> px;
};
static bool png(const std::vector<uint8_t> &b, Png &p)
{
    int n;
    auto *d = stbi_load_from_memory(b.data(), (int)b.size(), &p.w, &p.h, &n, 4);
    if (!d)
        return false;
    p.px.assign(d, d + (size_t)p.w * p.h * 4);
    stbi_image_free(d);
    return n == 4;
}
static bool unbase64(const std::string &s, std::vector<uint8_t> &out)
{
    if (s.size() % 4)
        return false;
    static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    uint32_t acc = 0;
    int pad = 0;
    for (size_t i = 0; i < s.size(); ++i) {
        size_t v = al.find(s[i]);
        if (s[i] == '=') {
            if (i + 2 < s.size())
                return false;
            v = 0;
            ++pad;
        } else if (v == std::string::npos || pad)
            return false;
        acc = acc << 6 | (uint32_t)v;
        if (i % 4 == 3)
            for (int k = 16; k >= 0; k -= 8)
                out.push_back((uint8_t)(acc >> k));
    }
    out.resize(out.size() - pad);
    return true;
}
static std::string hexof(const std::vector<uint8_t> &b)
{
    std::string r;
    for (auto x : b) {
        r += "0123456789abcdef"[x >> 4];
        r += "0123456789abcdef"[x & 15];
    }
    return r;
}
static void fill(Src &s, std::vector<uint8_t> &v, size_t n)
{
    uint64_t st = s.draw(0);
    v.resize(n);
    for (auto &x : v) {
        st += 0x9e3779b97f4a7c15ull;
        x = (uint8_t)vh::mix64(st);
    }
}

// ---- the geometry and its lightmaps ----------------------------------------------------
struct Lit
{
    int w, h, ofs; // ofs in luxels for .lit, bytes otherwise; -1 = no lightmap
    std::array<uint8_t, 4> styles;
    texvecf lm; // world to luxel
};
struct World
{
    mg::Builder b;
    bspxentries_t bspx;
    std::vector<uint8_t> lit;
    std::vector<Lit> faces;
    bool use_bspx = false, use_dec = false, rgb = false;
    bool spread = false;
};
static int luxels(double lo, double hi, double sc) { return (int)(std::ceil(hi / sc) - std::floor(lo / sc)) + 1; }
// faces with axial texture projections and whole coordinates: their lightmaps are computed exactly
static void world(Case &c, World &w, bool lmdata)
{
    Src &s = c.s;
    auto &m = w.b.m;
    m.loadversion = s.pick<const bspversion_t *>({&bspver_q1, &bspver_q2, &bspver_hl, &bspver_bsp2, &bspver_h2, &bspver_qbism});
    w.rgb = m.loadversion == &bspver_hl || m.loadversion == &bspver_q2 || m.loadversion == &bspver_qbism;
    int n = s.count(0, 8);
    m.texinfo.resize(1 + s.draw(3));
    bool big = s.chance(1, 8);
    int ninfo = (int)m.texinfo.size();
    for (auto &t : m.texinfo)
        t.texture = {};
    std::vector<uint8_t> shift;
    std::vector<uint8_t> lmoffset, dec;
    int at = (int)s.draw(7), huge = s.chance(1, 12) ? (int)s.draw(n + 1) : -1;
    int unit = lmdata && !w.lit.empty() ? 1 : 1;
    (void)unit;
    for (int i = 0; i < n; ++i) {
        auto f = mg::frame(s, true);
        auto h = mg::convex(s, -40, 40);
        int sc = big ? 4 : 1 << s.draw(2);
        for (auto &q : h) {
            q.x *= sc;
            q.y *= sc;
        }
        int tid = (int)s.draw(ninfo);
        int id = w.b.face(s, mg::place(f, h, (int)s.draw(h.size())), f.n, tid);
        (void)id;
    }
    // projections that suit every face: each axis of the world has a share
    for (auto &t : m.texinfo) {
        static const int P[][6] = {{1, 2, 4, 2, 1, -3}, {1, -2, 1, 1, 1, 2}, {2, 1, 1, -1, 2, 1}};
        const int *p = P[s.draw(3)];
        float k = s.pick<float>({1, 0.5, 2});
        t.vecs.set_row(0, qvec4f(p[0] * k, p[1] * k, p[2] * k, (float)s.ito(-64, 64, 0)));
        t.vecs.set_row(1, qvec4f(p[3] * k, p[4] * k, p[5] * k, (float)s.ito(-64, 64, 0)));
    }
    int nstyles = (int)s.i(1, 4);
    std::vector<int> pool;
    for (int i = 0; i < nstyles; ++i)
        pool.push_back(s.chance(1, 2) ? i : s.chance(1, 3) ? (int)s.i(250, 254) : (int)s.draw(255));
    for (int i = 0; i < n; ++i) {
        auto &f = m.dfaces[i];
        Lit l;
        int sh = w.use_bspx ? (int)s.i(2, 5) : 4;
        shift.push_back((uint8_t)sh);
        auto &tv = m.texinfo[f.texinfo].vecs;
        double lo[2] = {1e18, 1e18}, hi[2] = {-1e18, -1e18};
        for (int k = 0; k < f.numedges; ++k) {
            auto &p = Face_PointAtIndex(&m, &f, k);
            for (int r = 0; r < 2; ++r) {
                double v = (double)p[0] * tv.at(r, 0) + (double)p[1] * tv.at(r, 1) + (double)p[2] * tv.at(r, 2) + tv.at(r, 3);
                lo[r] = std::min(lo[r], v);
                hi[r] = std::max(hi[r], v);
            }
        }
        double scale = 1 << sh;
        l.w = luxels(lo[0], hi[0], scale);
        l.h = luxels(lo[1], hi[1], scale);
        if (l.w > 700 || l.h > 700)
            throw vh::Discard{};
        for (int r = 0; r < 2; ++r) {
            for (int k = 0; k < 4; ++k)
                l.lm.at(r, k) = (float)(tv.at(r, k) / scale);
            l.lm.at(r, 3) -= (float)std::floor(lo[r] / scale);
        }
        bool unlit = s.chance(1, 5);
        if (w.use_dec) {
            l.w = big ? (int)s.i(100, 300) : (int)s.i(1, 20);
            l.h = big ? (int)s.i(100, 300) : (int)s.i(1, 20);
            if (i == huge)
                (s.b() ? l.w : l.h) = (int)s.i(511, 900);
            if (unlit && s.b())
                l.w = l.h = 0;
            // any invertible transform will do
            static const float R[][6] = {{1, 2, 4, 2, 1, -3}, {1, -2, 1, 1, 1, 2}, {2, 1, 1, -1, 2, 1}};
            const float *p = R[s.draw(3)];
            float k = s.pick<float>({0.0625f, 0.5f, 0.125f});
            l.lm.set_row(0, qvec4f(p[0] * k, p[1] * k, p[2] * k, (float)s.ito(-64, 64, 0)));
            l.lm.set_row(1, qvec4f(p[3] * k, p[4] * k, p[5] * k, (float)s.ito(-64, 64, 0)));
            bm::p16(dec, (uint16_t)l.w);
            bm::p16(dec, (uint16_t)l.h);
        }
        l.styles.fill(255);
        int ns = (int)s.i(1, std::min<int>(4, (int)pool.size()));
        std::vector<int> use = pool;
        for (int k = 0; k < ns; ++k) {
            int j = (int)s.draw(use.size());
            l.styles[k] = (uint8_t)use[j];
            use.erase(use.begin() + j);
            if (use.empty())
                break;
        }
        // a style listed twice counts once
        for (int k = 0; k < 4; ++k)
            for (int j = 0; j < k; ++j)
                if (l.styles[j] == l.styles[k])
                    l.styles[k] = 255;
        for (int k = 0; k < 3; ++k)
            if (l.styles[k] == 255)
                std::swap(l.styles[k], l.styles[k + 1]);
        if (unlit) {
            l.ofs = -1;
            if (s.b())
                l.styles.fill(255);
        } else {
            l.ofs = at;
            int used = 0;
            for (auto st : l.styles)
                used += st != 255;
            at += l.w * l.h * used * (w.rgb && w.lit.empty() ? 3 : 1) + (int)s.draw(3);
        }
        f.styles = l.styles;
        // the places not used hold something else
        f.lightofs = w.use_bspx || w.use_dec ? (int)s.draw(1000) : l.ofs;
        bm::p32(lmoffset, (uint32_t)l.ofs);
        if (w.use_dec) {
            bm::p32(dec, (uint32_t)l.ofs);
            for (int r = 0; r < 2; ++r)
                for (int k = 0; k < 4; ++k)
                    bm::pf(dec, l.lm.at(r, k));
        }
        w.faces.push_back(l);
    }
    at += 8;
    if (!w.lit.empty()) {
        fill(s, w.lit, 3 * at);
        fill(s, m.dlightdata, 8);
    } else if (lmdata)
        fill(s, m.dlightdata, at);
    if (w.use_bspx) {
        w.bspx["LMSHIFT"] = shift;
        w.bspx["LMOFFSET"] = lmoffset;
    }
    if (w.use_dec)
        w.bspx["DECOUPLED_LM"] = dec;
    c.nt(n >= 2 && lmdata);
    c.describe(cat(n, " faces", big ? ", large" : "", huge >= 0 && huge < n ? ", one huge" : "", w.use_dec ? ", decoupled" : w.use_bspx ? ", LMSHIFT" : "", w.lit.empty() ? "" : ", lit", " ", m.loadversion->name));
}
// images[style] and uv per face, wherever they come from
static void check_atlas(Case &c, const World &w, const std::map<int, Png> &img, const std::map<int, std::vector<qvec2d>> &uvs, double tol, int W, int H)
{
    auto &m = w.b.m;
    std::set<int> want;
    bool data = !m.dlightdata.empty();
    for (auto &f : w.faces)
        if (data && f.ofs >= 0)
            for (auto st : f.styles)
                if (st != 255)
                    want.insert(st);
    std::set<int> got;
    for (auto &[k, v] : img)
        got.insert(k);
    auto list = [](const std::set<int> &x) {
        std::string r;
        for (auto i : x)
            r += cat(" ", i);
        return r;
    };
    c.require(got == want, "styles", cat("lightmaps for the styles", list(got), ", not", list(want)));
    for (auto &[k, p] : img)
        c.require(p.w == W && p.h == H, "size", cat("the lightmap of style ", k, " is ", p.w, "x", p.h, ", of the first ", W, "x", H));
    if (w.faces.empty())
        return;
    c.require(uvs.size() == w.faces.size(), "uvs", cat("coordinates for ", uvs.size(), " of ", w.faces.size(), " faces"));
    struct R
    {
        int x, y, w, h;
    };
    std::vector<R> rect;
    for (size_t i = 0; i < w.faces.size(); ++i) {
        auto &l = w.faces[i];
        auto &f = m.dfaces[i];
        auto &u = uvs.at((int)i);
        c.require((int)u.size() == f.numedges, "uvs", cat("face ", i, " has ", u.size(), " coordinates"));
        R r{};
        bool any = false;
        for (int k = 0; k < f.numedges; ++k) {
            auto &p = Face_PointAtIndex(&m, &f, k);
            int xy[2];
            for (int a = 0; a < 2; ++a) {
                double lm = (double)p[0] * l.lm.at(a, 0) + (double)p[1] * l.lm.at(a, 1) + (double)p[2] * l.lm.at(a, 2) + l.lm.at(a, 3);
                double o = u[k][a] * (a ? H : W) - 0.5 - lm;
                if (W * H == 0)
                    o = 0;
                double t = tol * (1 + std::fabs(lm)) * (W + H);
                c.require(std::fabs(o - std::round(o)) < std::max(t, 0.02) && (!any || std::fabs(o - (a ? r.y : r.x)) < 0.3), "uv",
                    cat("face ", i, " corner ", k, ": ", a ? "t" : "s", " ", u[k][a], " puts luxel 0 at ", o, any ? cat(", other corners at ", a ? r.y : r.x) : ""));
                xy[a] = (int)std::round(o);
            }
            r.x = xy[0];
            r.y = xy[1];
            any = true;
        }
        r.w = std::max(l.w, 1);
        r.h = std::max(l.h, 1);
        c.require(r.x >= 0 && r.y >= 0 && r.x + r.w <= W && r.y + r.h <= H, "inside", cat("face ", i, "'s ", r.w, "x", r.h, " luxels at ", r.x, ",", r.y, " of ", W, "x", H));
        rect.push_back(r);
    }
    for (size_t i = 0; i < rect.size(); ++i)
        for (size_t j = 0; j < i; ++j) {
            auto &a = rect[i], &b = rect[j];
            c.require(a.x + a.w <= b.x || b.x + b.w <= a.x || a.y + a.h <= b.y || b.y + b.h <= a.y, "overlap",
                cat("faces ", j, " and ", i, " share luxels: ", b.x, ",", b.y, " ", b.w, "x", b.h, " and ", a.x, ",", a.y, " ", a.w, "x", a.h));
        }
    int mx = 0, my = 0;
    for (auto &r : rect) {
        mx = std::max(mx, r.x + r.w);
        my = std::max(my, r.y + r.h);
    }
    c.require(mx == W && my == H, "trim", cat("the atlas is ", W, "x", H, " but its faces end at ", mx, ",", my));
    const uint8_t *src = w.lit.empty() ? m.dlightdata.data() : w.lit.data();
    bool rgb = w.rgb || !w.lit.empty();
    for (auto &[st, p] : img) {
        std::vector<uint8_t> ex((size_t)W * H * 4);
        for (size_t i = 0; i < rect.size(); ++i) {
            auto &l = w.faces[i];
            int slot = -1;
            for (int k = 0; k < 4 && slot < 0; ++k)
                if (l.styles[k] == st)
                    slot = k;
            if (slot < 0 || l.ofs < 0)
                continue;
            const uint8_t *q = src + (size_t)l.ofs * (w.lit.empty() ? 1 : 3) + (size_t)slot * l.w * l.h * (rgb ? 3 : 1);
            for (int y = 0; y < l.h; ++y)
                for (int x = 0; x < l.w; ++x) {
                    uint8_t *o = &ex[4 * ((size_t)(rect[i].y + y) * W + rect[i].x + x)];
                    for (int k = 0; k < 3; ++k)
                        o[k] = rgb ? q[k] : q[0];
                    o[3] = 255;
                    q += rgb ? 3 : 1;
                }
        }
        for (size_t i = 0; i < ex.size(); ++i)
            if (ex[i] != p.px[i])
                c.fail("pixels", cat("style ", st, " at ", i / 4 % W, ",", i / 4 / W, ": ", (int)p.px[i], ", not ", (int)ex[i]));
    }
}
static void atlas(Case &c)
{
    World w;
    w.use_dec = c.s.chance(1, 2);
    w.use_bspx = !w.use_dec && c.s.b();
    if (c.s.chance(1, 3))
        w.lit.resize(1);
    world(c, w, true);
    auto &m = w.b.m;
    auto a = build_lightmap_atlas(m, w.bspx, w.lit, w.use_bspx, w.use_dec || c.s.b());
    std::map<int, Png> img;
    int W = 0, H = 0;
    for (auto &[k, t] : a.style_to_lightmap_atlas) {
        Png p;
        p.w = t.width;
        p.h = t.height;
        c.require(t.meta.width == t.width && t.meta.height == t.height && t.pixels.size() == (size_t)t.width * t.height, "size", "the texture's sizes differ");
        p.px.assign((const uint8_t *)t.pixels.data(), (const uint8_t *)t.pixels.data() + t.pixels.size() * 4);
        if (img.empty()) {
            W = p.w;
            H = p.h;
        }
        img[k] = std::move(p);
    }
    std::map<int, std::vector<qvec2d>> uvs;
    for (auto &[k, v] : a.facenum_to_lightmap_uvs)
        for (auto &u : v)
            uvs[k].push_back(qvec2d(u));
    if (img.empty()) {
        // nothing to look at
        for (auto &f : w.faces)
            c.require(f.ofs < 0 || f.styles[0] == 255, "styles", "no lightmaps at all");
        return;
    }
    check_atlas(c, w, img, uvs, 4e-7, W, H);
}

// ---- everything else ---------------------------------------------------------------------
static json num(float f) { return json((double)f); }
static json vec(const qvec3f &v) { return json::array({num(v[0]), num(v[1]), num(v[2])}); }
static qvec3f rv(Src &s) { return qvec3f(s.f32(), s.f32(), s.f32()); }
static std::string text(Src &s, int hi)
{
    std::string r;
    int n = s.count(0, hi);
    for (int i = 0; i < n; ++i)
        switch (s.draw(8)) {
            case 0: r += s.pick<const char *>({"\"", "\\", "\n", "\t", "{", "}"}); break;
            case 1: r += s.pick<const char *>({"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x01", "\x7f"}); break;
            default: r += (char)s.i(32, 126);
        }
    return r;
}
struct Tex
{
    bool image = false;
    int w, h;
    std::vector<uint8_t> rgba;
};
// a texture as it lies in the file, with or without pixels
static Tex texture(Case &c, miptex_t &t, const gamedef_t *g, bool plain)
{
    Src &s = c.s;
    Tex r;
    t.name = plain ? cat("t", s.draw(100)) : text(s, 15).substr(0, 15);
    // cut short in the middle of a character
    while (!t.name.empty() && ((uint8_t)t.name.back() >= 0x80))
        t.name.pop_back();
    bool none = s.chance(1, 4);
    r.w = (int)s.i(1, 6) * 8;
    r.h = (int)s.i(1, 4) * 8;
    if (s.chance(1, 3)) {
        r.w = (int)s.i(1, 20);
        r.h = (int)s.i(1, 20);
    }
    t.width = r.w;
    t.height = r.h;
    t.data.clear();
    for (int i = 0; i < 16; ++i)
        t.data.push_back(i < (int)t.name.size() ? t.name[i] : 0);
    bm::p32(t.data, r.w);
    bm::p32(t.data, r.h);
    int at = 40;
    for (int i = 0; i < 4; ++i) {
        t.offsets[i] = none ? 0 : at;
        bm::p32(t.data, t.offsets[i]);
        at += (r.w >> i) * (r.h >> i);
    }
    if (none)
        return r;
    std::vector<uint8_t> px;
    fill(s, px, at - 40);
    t.data.insert(t.data.end(), px.begin(), px.end());
    std::vector<qvec3b> pal = g->get_default_palette();
    r.image = true;
    if (g->id == GAME_HALF_LIFE) {
        std::vector<uint8_t> p;
        fill(s, p, 768);
        pal.clear();
        for (int i = 0; i < 256; ++i)
            pal.push_back(qvec3b(p[3 * i], p[3 * i + 1], p[3 * i + 2]));
        if (s.chance(1, 8))
            r.image = false;
        else {
            bm::p16(t.data, 256);
            t.data.insert(t.data.end(), p.begin(), p.end());
        }
    }
    while (t.data.size() % 4)
        t.data.push_back(0);
    if (r.image)
        for (int i = 0; i < r.w * r.h; ++i) {
            for (int k = 0; k < 3; ++k)
                r.rgba.push_back(pal[px[i]][k]);
            r.rgba.push_back(px[i] == 255 ? 0 : 255);
        }
    return r;
}
static std::vector<uint8_t> slurp(const std::string &p) { return bm::slurp(p); }
static void same(Case &c, const json &got, const json &want, const std::string &path)
{
    if (want.is_array()) {
        c.require(got.is_array() && got.size() == want.size(), "json", cat(path, " is ", got.dump().substr(0, 80), ", not ", want.dump().substr(0, 80)));
        for (size_t i = 0; i < want.size(); ++i)
            same(c, got[i], want[i], cat(path, "[", i, "]"));
        return;
    }
    if (want.is_object()) {
        c.require(got.is_object(), "json", cat(path, " is no object"));
        for (auto &[k, v] : want.items()) {
            c.require(got.contains(k), "json", cat(path, " lacks ", k));
            same(c, got[k], v, path + "." + k);
        }
        for (auto &[k, v] : got.items())
            c.require(want.contains(k), "json", cat(path, " has ", k, ": ", v.dump().substr(0, 60)));
        return;
    }
    c.require(got == want, "json", cat(path, " is ", got.dump().substr(0, 100), ", not ", want.dump().substr(0, 100)));
}
static void report(Case &c)
{
    Src &s = c.s;
    World w;
    w.use_dec = s.chance(1, 3);
    bool lmdata = s.chance(2, 3);
    world(c, w, lmdata);
    auto &m = w.b.m;
    auto *game = m.loadversion->game;
    settings::common_settings opt;
    game->init_filesystem(c.scratch + "/x.bsp", opt);
    int hi = 4;
    json want = json::object();
    auto arr = [&](const char *k) -> json & { return want[k] = json::array(); };
    // models
    int n = s.count(0, hi);
    for (int i = 0; i < n; ++i) {
        dmodelh2_t q{};
        q.mins = rv(s), q.maxs = rv(s), q.origin = rv(s);
        for (auto &h : q.headnode)
            h = s.i32();
        q.visleafs = s.i32(), q.firstface = s.i32(), q.numfaces = s.i32();
        m.dmodels.push_back(q);
        if (!i)
            arr("models");
        want["models"].push_back({{"mins", vec(q.mins)}, {"maxs", vec(q.maxs)}, {"origin", vec(q.origin)}, {"headnode", q.headnode}, {"visleafs", q.visleafs},
            {"firstface", q.firstface}, {"numfaces", q.numfaces}});
    }
    // visibility
    if (s.chance(2, 3)) {
        m.dvis.bits = s.bytes(s.count(0, 12));
        if (s.b())
            m.dvis.bit_offsets.resize(s.count(0, 4));
        for (auto &o : m.dvis.bit_offsets)
            o = {s.i32(), s.i32()};
        if (!m.dvis.bits.empty()) {
            if (m.dvis.bit_offsets.empty())
                want["visdata"] = hexof(m.dvis.bits);
            else {
                json p = json::array(), h = json::array();
                for (auto &o : m.dvis.bit_offsets) {
                    p.push_back(o[0]);
                    h.push_back(o[1]);
                }
                want["visdata"] = {{"pvs", p}, {"phs", h}, {"bits", hexof(m.dvis.bits)}};
            }
        }
    }
    if (!m.dlightdata.empty())
        want["lightdata"] = hexof(m.dlightdata);
    bool odd = s.chance(1, 10); // text that is not UTF-8 is shown with replacements
    m.dentdata = odd ? "{\"message\" \"\xc7\xef\xec\xe4\"}" : text(s, 40);
    if (!m.dentdata.empty())
        want["entdata"] = m.dentdata + '\0';
    n = s.count(0, hi);
    for (int i = 0; i < n; ++i) {
        mleaf_t q{};
        q.contents = s.i32(), q.visofs = s.i32(), q.mins = rv(s), q.maxs = rv(s);
        q.firstmarksurface = (uint32_t)s.i32(), q.nummarksurfaces = (uint32_t)s.i32();
        for (auto &a : q.ambient_level)
            a = (uint8_t)s.draw(256);
        q.cluster = s.i32(), q.area = s.i32(), q.firstleafbrush = (uint32_t)s.i32(), q.numleafbrushes = (uint32_t)s.i32();
        m.dleafs.push_back(q);
        if (!i)
            arr("leafs");
        want["leafs"].push_back({{"contents", q.contents}, {"visofs", q.visofs}, {"mins", vec(q.mins)}, {"maxs", vec(q.maxs)}, {"firstmarksurface", q.firstmarksurface},
            {"nummarksurfaces", q.nummarksurfaces}, {"ambient_level", q.ambient_level}, {"cluster", q.cluster}, {"area", q.area}, {"firstleafbrush", q.firstleafbrush},
            {"numleafbrushes", q.numleafbrushes}});
    }
    n = s.count(0, hi);
    for (int i = 0; i < n; ++i) {
        dplane_t q{};
        q.normal = rv(s), q.dist = s.f32(), q.type = s.i32();
        m.dplanes.push_back(q);
    }
    for (auto &q : m.dplanes) {
        if (!want.contains("planes"))
            arr("planes");
        want["planes"].push_back({{"normal", vec(q.normal)}, {"dist", num(q.dist)}, {"type", q.type}});
    }
    n = s.count(0, hi);
    for (int i = 0; i < n; ++i)
        m.dvertexes.push_back(rv(s));
    for (auto &q : m.dvertexes) {
        if (!want.contains("vertexes"))
            arr("vertexes");
        want["vertexes"].push_back(vec(q));
    }
    n = m.dplanes.empty() ? 0 : s.count(0, hi);
    for (int i = 0; i < n; ++i) {
        bsp2_dnode_t q{};
        q.planenum = (int)s.draw(m.dplanes.size());
        q.children = {s.i32(), s.i32()};
        q.mins = rv(s), q.maxs = rv(s), q.firstface = (uint32_t)s.i32(), q.numfaces = (uint32_t)s.i32();
        m.dnodes.push_back(q);
        if (!i)
            arr("nodes");
        auto &p = m.dplanes[q.planenum];
        want["nodes"].push_back({{"planenum", q.planenum}, {"children", q.children}, {"mins", vec(q.mins)}, {"maxs", vec(q.maxs)}, {"firstface", q.firstface},
            {"numfaces", q.numfaces}, {"plane", json::array({num(p.normal[0]), num(p.normal[1]), num(p.normal[2]), num(p.dist)})}});
    }
    arr("texinfo");
    for (auto &q : m.texinfo) {
        q.flags.native = s.i32();
        q.miptex = s.i32();
        q.value = s.i32();
        q.nexttexinfo = s.i32();
        auto nm = text(s, 20).substr(0, 31);
        while (!nm.empty() && ((uint8_t)nm.back() >= 0x80))
            nm.pop_back();
        q.texture = {};
        std::copy(nm.begin(), nm.end(), q.texture.begin());
        json v = json::array({json::array(), json::array()});
        for (int r = 0; r < 2; ++r)
            for (int k = 0; k < 4; ++k)
                v[r].push_back(num(q.vecs.at(r, k)));
        want["texinfo"].push_back({{"vecs", v}, {"flags", q.flags.native}, {"miptex", q.miptex}, {"value", q.value}, {"texture", nm}, {"nexttexinfo", q.nexttexinfo}});
    }
    for (auto &q : m.dfaces) {
        if (!want.contains("faces"))
            arr("faces");
        json v = json::array();
        for (int k = 0; k < q.numedges; ++k) {
            int e = m.dsurfedges[q.firstedge + k];
            v.push_back(vec(m.dvertexes[e < 0 ? m.dedges[-e][1] : m.dedges[e][0]]));
        }
        want["faces"].push_back({{"planenum", q.planenum}, {"side", q.side}, {"firstedge", q.firstedge}, {"numedges", q.numedges}, {"texinfo", q.texinfo}, {"styles", q.styles},
            {"lightofs", q.lightofs}, {"vertices", v}});
    }
    n = s.count(0, hi);
    for (int i = 0; i < n; ++i) {
        bsp2_dclipnode_t q{};
        q.planenum = s.i32();
        q.children = {s.i32(), s.i32()};
        m.dclipnodes.push_back(q);
        if (!i)
            arr("clipnodes");
        want["clipnodes"].push_back({{"planenum", q.planenum}, {"children", q.children}});
    }
    arr("edges");
    for (auto &q : m.dedges)
        want["edges"].push_back(q);
    auto list = [&](auto &v, const char *k) {
        int n = s.count(0, hi);
        for (int i = 0; i < n; ++i)
            v.push_back(s.i32());
        for (auto &q : v) {
            if (!want.contains(k))
                arr(k);
            want[k].push_back(q);
        }
    };
    list(m.dleaffaces, "leaffaces");
    list(m.dsurfedges, "surfedges");
    list(m.dleafbrushes, "leafbrushes");
    n = s.count(0, hi);
    for (int i = 0; i < n; ++i) {
        q2_dbrushside_qbism_t q{};
        q.planenum = (uint32_t)s.i32();
        q.texinfo = s.i32();
        m.dbrushsides.push_back(q);
        if (!i)
            arr("brushsides");
        want["brushsides"].push_back({{"planenum", q.planenum}, {"texinfo", q.texinfo}});
    }
    n = s.count(0, hi);
    for (int i = 0; i < n; ++i) {
        dbrush_t q{};
        q.firstside = s.i32();
        q.numsides = s.i32();
        q.contents = s.i32();
        m.dbrushes.push_back(q);
        if (!i)
            arr("brushes");
        want["brushes"].push_back({{"firstside", q.firstside}, {"numsides", q.numsides}, {"contents", q.contents}});
    }
    // textures: pictures are checked apart
    std::vector<Tex> tx;
    n = game->id == GAME_QUAKE_II ? 0 : s.count(0, 3);
    for (int i = 0; i < n; ++i) {
        miptex_t t;
        if (!i)
            arr("textures");
        if (s.chance(1, 5)) {
            t.null_texture = true;
            tx.push_back({});
            want["textures"].push_back(nullptr);
        } else {
            tx.push_back(texture(c, t, game, false));
            want["textures"].push_back({{"name", t.name}, {"width", t.width}, {"height", t.height}});
        }
        m.dtex.textures.push_back(t);
    }
    // extensions
    if (s.chance(1, 3)) {
        json models = json::array();
        std::vector<uint8_t> b;
        int nm = (int)s.draw(3);
        for (int i = 0; i < nm; ++i) {
            int ver = s.i32(), id = s.i32(), nb = (int)s.draw(3), nf = s.i32();
            bm::p32(b, ver), bm::p32(b, id), bm::p32(b, nb), bm::p32(b, nf);
            json br = json::array();
            for (int k = 0; k < nb; ++k) {
                qvec3f lo = rv(s), hi = rv(s);
                int16_t cont = (int16_t)s.draw(65536);
                int faces = (int)s.draw(3);
                for (int a = 0; a < 3; ++a)
                    bm::pf(b, lo[a]);
                for (int a = 0; a < 3; ++a)
                    bm::pf(b, hi[a]);
                bm::p16(b, (uint16_t)cont);
                bm::p16(b, (uint16_t)faces);
                json fs = json::array();
                for (int f = 0; f < faces; ++f) {
                    qvec3f nn = rv(s);
                    float d = s.f32();
                    for (int a = 0; a < 3; ++a)
                        bm::pf(b, nn[a]);
                    bm::pf(b, d);
                    fs.push_back({{"normal", vec(nn)}, {"dist", num(d)}});
                }
                br.push_back({{"mins", vec(lo)}, {"maxs", vec(hi)}, {"contents", cont}, {"faces", fs}});
            }
            models.push_back({{"ver", ver}, {"modelnum", id}, {"numbrushes", nb}, {"numfaces", nf}, {"brushes", br}});
        }
        w.bspx["BRUSHLIST"] = b;
        want["brushlist"] = models;
    }
    if (s.chance(1, 3))
        w.bspx[s.pick<const char *>({"RGBLIGHTING", "LIGHTINGDIR", "LMSHIFT", "MINE"})] = s.bytes(s.count(0, 12));
    json brushlist = want.contains("brushlist") ? want["brushlist"] : json();
    want.erase("brushlist");
    for (auto &[k, v] : w.bspx) {
        if (!want.contains("bspxentries"))
            arr("bspxentries");
        json e = {{"lumpname", k}};
        if (k == "BRUSHLIST")
            e["models"] = brushlist;
        else if (k == "DECOUPLED_LM") {
            e["faces"] = json::array();
            for (auto &l : w.faces) {
                json t = json::array({json::array(), json::array()});
                for (int r = 0; r < 2; ++r)
                    for (int a = 0; a < 4; ++a)
                        t[r].push_back(num(l.lm.at(r, a)));
                e["faces"].push_back({{"lmwidth", l.w}, {"lmheight", l.h}, {"offset", l.ofs}, {"world_to_lm_space", t}});
            }
        } else
            e["lumpdata"] = hexof(v);
        want["bspxentries"].push_back(e);
    }
    bspdata_t d;
    d.version = &bspver_generic;
    d.loadversion = m.loadversion;
    d.bspx.entries = w.bspx;
    serialize_bsp(d, m, c.scratch + "/out.bsp.json");
    json got;
    try {
        auto b = slurp(c.scratch + "/out.bsp.json");
        got = json::parse(b.begin(), b.end());
    } catch (json::exception &e) {
        c.fail("parse", cat("the report is no JSON: ", e.what()));
    }
    for (size_t i = 0; i < tx.size(); ++i) {
        auto &t = got["textures"][i];
        if (tx[i].rgba.empty()) {
            if (t.is_object()) {
                c.require(!t.contains("mips") || (t["mips"].size() == 1 && t["mips"][0].is_null()), "picture", cat("texture ", i, " has a picture"));
                t.erase("mips");
            }
            continue;
        }
        c.require(t.contains("mips") && t["mips"].size() == 1 && t["mips"][0].is_string(), "picture", cat("texture ", i, " has no picture"));
        std::string str = t["mips"][0];
        std::vector<uint8_t> b;
        Png p;
        c.require(str.compare(0, 22, "data:image/png;base64,") == 0 && unbase64(str.substr(22), b) && png(b, p), "picture", cat("texture ", i, "'s picture cannot be read"));
        c.require(p.w == tx[i].w && p.h == tx[i].h && p.px == tx[i].rgba, "picture", cat("texture ", i, "'s picture is not the texture"));
        t.erase("mips");
    }
    if (odd) {
        got.erase("entdata");
        want.erase("entdata");
    }
    same(c, got, want, "report");
    // geometry
    std::string obj = c.scratch + "/out.bsp.geometry.obj";
    auto ob = slurp(obj);
    std::map<int, Png> img;
    int W = 0, H = 0;
    for (int i = 0; i < 256; ++i) {
        auto b = slurp(cat(c.scratch, "/out.bsp.lm_", i, ".png"));
        if (b.empty())
            continue;
        Png p;
        c.require(png(b, p), "png", cat("the lightmap of style ", i, " cannot be read"));
        W = p.w, H = p.h;
        img[i] = std::move(p);
    }
    if (w.faces.empty()) {
        c.require(ob.empty() && img.empty(), "obj", "geometry of no faces");
        return;
    }
    std::istringstream is(std::string(ob.begin(), ob.end()));
    std::string line;
    std::vector<qvec3d> v, vn, vt;
    size_t face = 0;
    std::map<int, std::vector<qvec2d>> uvs;
    while (std::getline(is, line)) {
        std::istringstream l(line);
        std::string k;
        l >> k;
        qvec3d q{};
        if (k == "v" || k == "vn") {
            l >> q[0] >> q[1] >> q[2];
            (k == "v" ? v : vn).push_back(q);
        } else if (k == "vt") {
            l >> q[0] >> q[1];
            vt.push_back(q);
        } else if (k == "f") {
            c.require(face < m.dfaces.size(), "obj", "more faces than the map has");
            auto &f = m.dfaces[face];
            std::vector<int> idx;
            std::string t;
            while (l >> t) {
                int a = 0, b = 0, e = 0;
                c.require(sscanf(t.c_str(), "%d/%d/%d", &a, &b, &e) == 3 && a == b && b == e && a >= 1 && a <= (int)v.size(), "obj", cat("face ", face, " has the corner ", t));
                idx.push_back(a - 1);
            }
            c.require((int)idx.size() == f.numedges, "obj", cat("face ", face, " has ", idx.size(), " corners"));
            // the other way round than in the map
            int r0 = -1;
            for (int k = 0; k < f.numedges; ++k) {
                int ours = f.numedges - 1 - k;
                auto &p = Face_PointAtIndex(&m, &f, ours);
                for (int a = 0; a < 3; ++a)
                    c.require((float)v[idx[k]][a] == p[a] && (float)vn[idx[k]][a] == m.dplanes[f.planenum].normal[a], "obj", cat("face ", face, " corner ", k, " is not the map's"));
            }
            (void)r0;
            uvs[(int)face].resize(f.numedges);
            for (int k = 0; k < f.numedges; ++k)
                uvs[(int)face][f.numedges - 1 - k] = qvec2d(vt[idx[k]][0], 1 - vt[idx[k]][1]);
            ++face;
        } else
            c.fail("obj", cat("the geometry has the line ", line));
    }
    c.require(face == m.dfaces.size() && v.size() == vn.size() && v.size() == vt.size(), "obj", cat("the geometry has ", face, " faces"));
    if (img.empty()) {
        for (auto &f : w.faces)
            c.require(f.ofs < 0 || f.styles[0] == 255 || m.dlightdata.empty(), "styles", "no lightmaps at all");
        return;
    }
    check_atlas(c, w, img, uvs, 1e-6, W, H);
}

// ---- the tool -----------------------------------------------------------------------------
static void thetool(Case &c)
{
    Src &s = c.s;
    World w;
    world(c, w, false);
    auto &m = w.b.m;
    bool q2 = m.loadversion->game->id == GAME_QUAKE_II;
    auto *game = m.loadversion->game;
    std::vector<std::string> names;
    int nt = (int)s.i(1, 4);
    for (int i = 0; i < nt; ++i) {
        miptex_t t;
        texture(c, t, game, true);
        names.push_back(t.name);
        if (!q2)
            m.dtex.textures.push_back(t);
    }
    for (auto &t : m.texinfo) {
        t.miptex = q2 ? 0 : (int)s.draw(nt);
        t.texture = {};
        auto &n = names[q2 ? s.draw(nt) : t.miptex];
        if (q2)
            std::copy(n.begin(), n.end(), t.texture.begin());
        t.nexttexinfo = -1;
    }
    bool loop = false;
    if (q2) {
        for (auto &t : m.texinfo)
            if (s.b())
                t.nexttexinfo = (int)s.draw(m.texinfo.size());
        for (size_t i = 0; i < m.texinfo.size(); ++i) {
            int at = (int)i;
            for (size_t k = 0; k <= m.texinfo.size() && at != -1; ++k)
                at = m.texinfo[at].nexttexinfo;
            loop = loop || at != -1;
        }
    }
    c.nt(m.dfaces.size() >= 2);
    std::map<std::string, double> area;
    for (size_t i = 0; i < m.dfaces.size(); ++i) {
        auto &f = m.dfaces[i];
        auto pts = Face_Points(&m, &f);
        qvec3d a{};
        for (size_t k = 1; k + 1 < pts.size(); ++k)
            a += qv::cross(qvec3d(pts[k]) - qvec3d(pts[0]), qvec3d(pts[k + 1]) - qvec3d(pts[0]));
        auto &t = m.texinfo[f.texinfo];
        area[q2 ? std::string(t.texture.data()) : names[t.miptex]] += qv::length(a) / 2;
    }
    m.dmodels.push_back({});
    m.dmodels[0].mins = {-1, -1, -1};
    m.dmodels[0].maxs = {1, 1, 1};
    m.dleafs.push_back({});
    m.dnodes.push_back({});
    m.dnodes[0].children = {-1, -1};
    m.dclipnodes.push_back({});
    if (m.dplanes.empty())
        m.dplanes.push_back({});
    bspdata_t d;
    d.version = &bspver_generic;
    d.loadversion = m.loadversion;
    d.bsp = m;
    if (!ConvertBSPFormat(&d, m.loadversion))
        throw vh::Discard{};
    std::string path = c.scratch + "/map.bsp", out = c.scratch + "/out.txt";
    WriteBSPFile(path, &d);
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(fd, 1);
        dup2(fd, 2);
        logging::mask = bitflags<logging::flag>();
        std::string arg = s.b() ? path : path.substr(0, path.size() - 4);
        char *av[] = {(char *)"bspinfo", (char *)arg.c_str(), nullptr};
        int r = 3;
        r = tool::bspinfo_main(2, av);
        fflush(stdout);
        _exit(r);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    c.require(WIFEXITED(st), "crash", cat("bspinfo ends with signal ", WTERMSIG(st)));
    auto ob = slurp(out);
    std::string txt(ob.begin(), ob.end());
    c.require((WEXITSTATUS(st) != 0) == loop, "loop", cat("bspinfo exits with ", WEXITSTATUS(st), loop ? " for texture chains that never end: " : ": ", txt.substr(0, 300)));
    c.require((txt.find("INFINITE LOOP") != std::string::npos) == loop, "loop", "the loop is not reported");
    // usage: name,area by area
    std::map<std::string, double> got;
    double last = 1e30;
    std::istringstream is(txt);
    std::string line;
    while (std::getline(is, line)) {
        auto k = line.find(',');
        if (k == std::string::npos || line[0] != 't' || line.find_first_not_of("0123456789", k + 1) != std::string::npos)
            continue;
        double a = atof(line.c_str() + k + 1);
        c.require(!got.count(line.substr(0, k)) && a <= last, "usage", cat("textures are listed twice or out of order: ", line));
        last = a;
        got[line.substr(0, k)] = a;
    }
    c.require(got.size() == area.size(), "usage", cat(got.size(), " textures listed, not ", area.size()));
    for (auto &[k, v] : area)
        c.require(got.count(k) && std::fabs(got[k] - v) <= 0.5 + 1e-6 * v, "usage", cat("texture ", k, " covers ", got.count(k) ? got[k] : -1, ", not ", v));
    auto b = slurp(c.scratch + "/map.bsp.json");
    c.require(!b.empty(), "report", "bspinfo wrote no report");
    json j = json::parse(b.begin(), b.end());
    c.require((j.contains("faces") ? j["faces"].size() : 0) == m.dfaces.size() && j["texinfo"].size() == m.texinfo.size(), "report", "the report lacks faces");
}

static bool prepared = (logging::mask = bitflags<logging::flag>(), true);
VH_MAIN("C17", "two faces or more with lightmap data (report, atlas), two faces or more (tool)",
    (std::vector<std::string>{"finite numbers; names of at most 31 (texinfo) and 15 (texture) bytes", "faces on axial planes, so that their lightmap size is computed exactly"}),
    vh::Sub{"atlas", atlas, 12000, 400000}, vh::Sub{"report", report, 8000, 300000}, vh::Sub{"tool", thetool, 1500, 40000})
