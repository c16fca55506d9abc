// C06: lightmap extents, coordinate systems, sampling, .lit files
#include "meshgen.hh"
#include "bspmodel.hh"
using vh::Case;
using LD = long double;

// texture axes that map the face without degenerating
static void texvecs(Case &c, const mg::Frame &f, texvecf &tv, bool exact)
{
    for (int tries = 0;; ++tries) {
        qvec3d s, t;
        if (exact || c.s.b()) {
            // axis-aligned projection with power of two scales
            int ax = std::fabs(f.n[0]) >= std::fabs(f.n[1]) && std::fabs(f.n[0]) >= std::fabs(f.n[2]) ? 0 : std::fabs(f.n[1]) >= std::fabs(f.n[2]) ? 1 : 2;
            double a = c.s.pick<double>({1, 0.5, 2, -1, -0.25}), b = c.s.pick<double>({1, 0.5, 2, -1, -4});
            s[(ax + 1) % 3] = a;
            t[(ax + 2) % 3] = b;
            if (c.s.b())
                std::swap(s, t);
        } else
            for (int k = 0; k < 3; ++k) {
                s[k] = c.s.f(-1.5, 1.5);
                t[k] = c.s.f(-1.5, 1.5);
            }
        double det = std::fabs(qv::dot(qv::cross(s, t), f.n));
        if (det < 0.05 * qv::length(s) * qv::length(t) || det < 0.05) {
            if (tries < 30)
                continue;
            s = f.u;
            t = f.v;
        }
        double so = exact ? (double)c.s.ito(-64, 64, 0) : c.s.f(-200, 200), to = exact ? (double)c.s.ito(-64, 64, 0) : c.s.f(-200, 200);
        tv.set_row(0, qvec4f((float)s[0], (float)s[1], (float)s[2], (float)so));
        tv.set_row(1, qvec4f((float)t[0], (float)t[1], (float)t[2], (float)to));
        return;
    }
}
static LD coord(const texvecf &tv, int r, const qvec3f &p)
{
    return (LD)p[0] * tv.at(r, 0) + (LD)p[1] * tv.at(r, 1) + (LD)p[2] * tv.at(r, 2) + tv.at(r, 3);
}

struct Setup
{
    mg::Builder b;
    mg::Frame f;
    std::vector<qvec3f> pts;
    int face;
    mtexinfo_t *ti;
};
static void setup(Case &c, Setup &s, bool exact)
{
    s.f = mg::frame(c.s, c.s.chance(1, 3));
    auto h = mg::convex(c.s, -40, 40);
    for (auto &q : h) {
        int k = (int)c.s.i(1, 6);
        (void)k;
    }
    double sc = c.s.pick<double>({1, 2, 4, 0.5});
    for (auto &q : h)
        q.x = (int64_t)(q.x * (sc < 1 ? 1 : sc)), q.y = (int64_t)(q.y * (sc < 1 ? 1 : sc));
    s.pts = mg::place(s.f, h, (int)c.s.draw(h.size()));
    // decoys before and after
    s.b.m.texinfo.resize(3);
    s.b.m.loadversion = &bspver_q1;
    s.b.m.texinfo[0].vecs.set_row(0, {0, 0, 1, 5});
    s.b.m.texinfo[0].vecs.set_row(1, {1, 0, 0, 7});
    s.b.m.texinfo[2] = s.b.m.texinfo[0];
    texvecs(c, s.f, s.b.m.texinfo[1].vecs, exact);
    s.b.face(c.s, {qvec3f(0, 0, 0), qvec3f(0, 10, 0), qvec3f(10, 0, 0)}, {0, 0, 1}, 0);
    s.face = s.b.face(c.s, s.pts, s.f.n, 1);
    s.ti = &s.b.m.texinfo[1];
}
static void bounds_ok(Case &c, const faceextents_t &e, const std::vector<qvec3f> &pts)
{
    for (int k = 0; k < 3; ++k) {
        float lo = 1e9, hi = -1e9;
        for (auto &p : pts) {
            lo = std::min(lo, p[k]);
            hi = std::max(hi, p[k]);
        }
        c.require(e.bounds.mins()[k] == lo && e.bounds.maxs()[k] == hi, "bounds", vh::cat("bounds on axis ", k));
        c.require(std::fabs(e.origin[k] - (lo + hi) / 2) < 0.01, "origin", "centre of the bounding sphere");
    }
    double rad = 0;
    for (auto &p : pts)
        rad = std::max(rad, (double)qv::distance(p, e.origin));
    c.require(e.radius >= rad - 0.01 && e.radius <= qv::length(qvec3d(e.bounds.size())) / 2 + 0.01, "radius", "bounding sphere radius");
}
static void inverse_ok(Case &c, const faceextents_t &e, const Setup &s)
{
    // points of the face's plane
    for (int i = 0; i < 4; ++i) {
        qvec3d p = s.f.o + s.f.u * c.s.f(-60, 60) + s.f.v * c.s.f(-60, 60);
        qvec3f pf(p);
        for (int r = 0; r < 2; ++r) {
            double w = (double)coord(s.ti->vecs, r, pf), g = e.worldToTexCoord(pf)[r];
            c.require(std::fabs(w - g) < 0.02 + 1e-5 * std::fabs(w), "tex", vh::cat("world to texture: ", g, " want ", w));
        }
        auto back = e.texCoordToWorld(e.worldToTexCoord(pf));
        c.require(qv::distance(qvec3d(back), p) < 0.2, "tex-inverse", vh::cat("texture to world is off by ", qv::distance(qvec3d(back), p)));
        auto back2 = e.LMCoordToWorld(e.worldToLMCoord(pf));
        c.require(qv::distance(qvec3d(back2), p) < 0.2, "lm-inverse", vh::cat("lightmap to world is off by ", qv::distance(qvec3d(back2), p)));
    }
}
static bool ambiguous(LD v, bool exact)
{
    LD r = roundl(v);
    return exact ? false : fabsl(v - r) < 1e-3L;
}

static void standard(Case &c)
{
    bool exact = c.s.b();
    Setup s;
    setup(c, s, exact);
    float scale = exact ? c.s.pick<float>({16, 8, 4, 1, 32, 2}) : c.s.pick<float>({16, 8, 12.5f, 3, 1, 64});
    LD mn[2] = {1e18L, 1e18L}, mx[2] = {-1e18L, -1e18L};
    for (auto &p : s.pts)
        for (int r = 0; r < 2; ++r) {
            LD v = coord(s.ti->vecs, r, p);
            mn[r] = std::min(mn[r], v);
            mx[r] = std::max(mx[r], v);
        }
    bool ex = exact;
    auto &m = s.b.m;
    faceextents_t e(m.dfaces[s.face], m, scale);
    int want[2];
    for (int r = 0; r < 2; ++r) {
        LD a = mn[r] / scale, b = mx[r] / scale;
        if (ambiguous(a, ex) || ambiguous(b, ex))
            throw vh::Discard{};
        want[r] = (int)(ceill(b) - floorl(a)) + 1;
    }
    c.nt(want[0] > 2 && want[1] > 2);
    c.describe(vh::cat(s.pts.size(), "-gon, scale ", scale, ", ", want[0], "x", want[1], exact ? ", exact" : ""));
    c.require(e.width() == want[0] && e.height() == want[1], "size", vh::cat("lightmap is ", e.width(), "x", e.height(), ", want ", want[0], "x", want[1]));
    c.require(e.numsamples() == want[0] * want[1] && e.lmsize()[0] == want[0] && e.lmsize()[1] == want[1], "samples", "numsamples/lmsize");
    bounds_ok(c, e, s.pts);
    inverse_ok(c, e, s);
    for (auto &p : s.pts) {
        auto lm = e.worldToLMCoord(p);
        for (int r = 0; r < 2; ++r) {
            double w = (double)(coord(s.ti->vecs, r, p) / scale - floorl(mn[r] / scale));
            c.require(std::fabs(lm[r] - w) < 0.01 + 1e-4 * std::fabs(w), "lm", vh::cat("vertex lands at luxel ", lm[r], ", want ", w));
            c.require(lm[r] > -0.05 && lm[r] < want[r] - 1 + 0.05, "outside", vh::cat("vertex lands outside the lightmap: ", lm[r], " of ", want[r]));
        }
    }
    // plain accessors
    auto tc = Face_WorldToTexCoord(&m, &m.dfaces[s.face], s.pts[0]);
    for (int r = 0; r < 2; ++r) {
        c.require(tc[r] == (float)(double)coord(s.ti->vecs, r, s.pts[0]) || std::fabs(tc[r] - (double)coord(s.ti->vecs, r, s.pts[0])) < 1e-4, "tc", "Face_WorldToTexCoord");
    }
}

static void decoupled(Case &c)
{
    bool grid = c.s.b(); // world_units_per_luxel or explicit matrix
    Setup s;
    setup(c, s, false);
    auto &m = s.b.m;
    auto &face = m.dfaces[s.face];
    if (grid) {
        float wupl = c.s.pick<float>({16, 8, 4, 1, 2, 12.5f, 0.5f});
        faceextents_t e(face, m, world_units_per_luxel_t{}, wupl);
        int ax = 0;
        for (int k = 1; k < 3; ++k)
            if (std::fabs(s.f.n[k]) > std::fabs(s.f.n[ax]) + 1e-6)
                ax = k;
        int ties = 0;
        for (int k = 0; k < 3; ++k)
            ties += std::fabs(std::fabs(s.f.n[k]) - std::fabs(s.f.n[ax])) < 1e-6;
        c.label(ties > 1 ? "tied axis" : "clear axis");
        std::vector<std::vector<int>> options;
        for (int a = 0; a < 3; ++a)
            if (std::fabs(std::fabs(s.f.n[a]) - std::fabs(s.f.n[ax])) < 1e-6) {
                int d[2];
                bool amb = false;
                int kk = 0;
                for (int k = 0; k < 3; ++k) {
                    if (k == a)
                        continue;
                    double lo = 1e9, hi = -1e9;
                    for (auto &p : s.pts) {
                        lo = std::min(lo, (double)p[k]);
                        hi = std::max(hi, (double)p[k]);
                    }
                    // either direction of the axis
                    double A = lo / wupl, B = hi / wupl;
                    amb = amb || (wupl == 12.5f && (std::fabs(A - std::round(A)) < 1e-3 || std::fabs(B - std::round(B)) < 1e-3));
                    d[kk++] = (int)(std::ceil(B) - std::floor(A)) + 1;
                }
                if (amb)
                    throw vh::Discard{};
                options.push_back({d[0], d[1]});
            }
        c.nt(e.width() > 2 && e.height() > 2);
        c.describe(vh::cat(s.pts.size(), "-gon, ", wupl, " units per luxel, ", e.width(), "x", e.height()));
        bool ok = false;
        for (auto &o : options)
            ok = ok || (e.width() == o[0] && e.height() == o[1]) || (e.width() == o[1] && e.height() == o[0]);
        c.require(ok, "wupl-size", vh::cat("lightmap is ", e.width(), "x", e.height(), ", want (some order of) ", options[0][0], "x", options[0][1]));
        for (auto &p : s.pts) {
            auto lm = e.worldToLMCoord(p);
            c.require(lm[0] > -0.05 && lm[1] > -0.05 && lm[0] < e.width() - 1 + 0.05 && lm[1] < e.height() - 1 + 0.05, "outside",
                vh::cat("vertex lands outside the lightmap: ", lm[0], ",", lm[1], " of ", e.width(), "x", e.height()));
        }
        // one luxel step is `wupl` units along two world axes
        qvec2f a = e.worldToLMCoord(s.pts[0]);
        for (auto &p : s.pts) {
            qvec2f b = e.worldToLMCoord(p);
            std::vector<double> g{std::fabs(b[0] - a[0]) * wupl, std::fabs(b[1] - a[1]) * wupl};
            bool hit = false;
            for (int k = 0; k < 3 && !hit; ++k) {
                if (std::fabs(std::fabs(s.f.n[k]) - std::fabs(s.f.n[ax])) > 1e-6)
                    continue;
                std::vector<double> w;
                for (int j = 0; j < 3; ++j)
                    if (j != k)
                        w.push_back(std::fabs(p[j] - s.pts[0][j]));
                hit = (std::fabs(g[0] - w[0]) < 0.05 && std::fabs(g[1] - w[1]) < 0.05) || (std::fabs(g[0] - w[1]) < 0.05 && std::fabs(g[1] - w[0]) < 0.05);
            }
            c.require(hit, "wupl-scale", "luxels are not the requested size");
        }
        bounds_ok(c, e, s.pts);
        inverse_ok(c, e, s);
    } else {
        texvecf w2l;
        texvecs(c, s.f, w2l, false);
        uint16_t w = (uint16_t)(c.s.chance(1, 8) ? 0 : c.s.i(1, 300)), h = (uint16_t)(c.s.chance(1, 8) ? 0 : c.s.i(1, 300));
        faceextents_t e(face, m, w, h, w2l);
        c.nt(w && h);
        c.describe(vh::cat("explicit ", w, "x", h));
        if (w && h)
            c.require(e.width() == w && e.height() == h && e.numsamples() == w * h, "explicit-size", "explicit lightmap size not kept");
        for (auto &p : s.pts) {
            auto lm = e.worldToLMCoord(p);
            for (int r = 0; r < 2; ++r)
                c.require(std::fabs(lm[r] - (double)coord(w2l, r, p)) < 0.01 + 1e-4 * std::fabs(lm[r]), "explicit-lm", "explicit world to luxel transform not used");
        }
        bounds_ok(c, e, s.pts);
        inverse_ok(c, e, s);
    }
}

static void sample(Case &c)
{
    mbsp_t m;
    m.loadversion = c.s.pick<const bspversion_t *>({&bspver_q1, &bspver_hl, &bspver_q2, &bspver_bsp2, &bspver_h2});
    bool rgb = m.loadversion == &bspver_hl || m.loadversion == &bspver_q2;
    faceextents_t e;
    e.lm_extents = {(int)c.s.i(0, 12), (int)c.s.i(0, 12)};
    int w = e.width(), h = e.height();
    int ofs = (int)c.s.i(0, 40);
    bool lit = !rgb && c.s.b();
    m.dlightdata = c.s.bytes(ofs + w * h * (rgb ? 3 : 1));
    std::vector<uint8_t> ld;
    if (lit)
        ld = c.s.bytes(3 * (ofs + w * h));
    c.nt(w > 1 && h > 1);
    c.describe(vh::cat(w, "x", h, " at ", ofs, rgb ? " rgb" : lit ? " lit" : " mono"));
    c.require(w == e.lm_extents[0] + 1 && h == e.lm_extents[1] + 1, "wh", "width/height");
    for (int i = 0; i < 6; ++i) {
        int x = (int)c.s.i(0, w - 1), y = (int)c.s.i(0, h - 1);
        auto g = LM_Sample(&m, lit ? &ld : nullptr, e, ofs, {x, y});
        int px = y * w + x;
        for (int k = 0; k < 3; ++k) {
            uint8_t want = lit ? ld[3 * (ofs + px) + k] : rgb ? m.dlightdata[ofs + 3 * px + k] : m.dlightdata[ofs + px];
            c.require(g[k] == want, "sample", vh::cat("luxel ", x, ",", y, " channel ", k, ": got ", (int)g[k], " want ", (int)want));
        }
    }
    auto none = LM_Sample(&m, lit ? &ld : nullptr, e, -1, {0, 0});
    c.require(none[0] == 0 && none[1] == 0 && none[2] == 0, "unlit", "a face without lightmap is not black");
}

static void litfile(Case &c)
{
    std::vector<uint8_t> body = c.s.bytes(c.s.count(0, 200)), f{'Q', 'L', 'I', 'T', 1, 0, 0, 0};
    int bad = c.s.chance(1, 4) ? (int)c.s.i(1, 3) : 0;
    if (bad == 1)
        f[c.s.draw(4)] ^= (uint8_t)c.s.i(1, 255);
    if (bad == 2)
        f[4 + c.s.draw(4)] ^= (uint8_t)c.s.i(1, 255);
    f.insert(f.end(), body.begin(), body.end());
    if (bad == 3)
        f.resize(c.s.draw(8));
    bm::spew(c.scratch + "/a.lit", f);
    c.nt(body.size() > 3 || bad);
    c.describe(vh::cat(body.size(), " bytes", bad ? ", damaged header" : ""));
    try {
        auto g = LoadLitFile(c.scratch + "/a.lit");
        c.require(!bad, "lit-bad", "a damaged .lit header was accepted");
        c.require(g == body, "lit-data", vh::cat("loaded ", g.size(), " bytes of ", body.size()));
    } catch (const std::runtime_error &) {
        c.require(bad != 0, "lit-good", "a valid .lit file was refused");
    }
}

VH_MAIN("C06", "the lightmap is more than two luxels in each direction / holds more than one luxel",
    (std::vector<std::string>{"faces whose coordinates land within 1e-3 luxel of a grid line without being exact are not judged",
        "lightmap size rule: floor of the smallest and ceiling of the largest coordinate, plus one (the engines' rule)"}),
    vh::Sub{"standard", standard, 60000, 2000000}, vh::Sub{"decoupled", decoupled, 60000, 2000000},
    vh::Sub{"sample", sample, 40000, 1000000}, vh::Sub{"lit", litfile, 10000, 300000})
