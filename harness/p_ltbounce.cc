// C31: light from surfaces, and light they throw back
#include "ltcase.hh"
#include <vis/vis.hh>
#include <common/json.hh>
#include <numeric>

struct Iv
{
    V lo{}, hi{};
    void add(V c, bool sure)
    {
        if (sure)
            lo = lo + c;
        hi = hi + c;
    }
    void add(const Iv &o)
    {
        lo = lo + o.lo;
        hi = hi + o.hi;
    }
};
static bool trace = false; // to look at a replay
using Ivs = std::map<int, Iv>;
struct Emit
{
    V at{}, n{};
    bool omni = false, rescale = true;
    double scale = 1, hot = 16, skydist = 0;
    int style = 0;
    V lo{}, hi{}; // colour times area
    int face = -1;
};
struct Glow
{
    // what makes a texture shine
    std::string tex;
    bool flag = false; // Quake II's SURF_LIGHT
    int value = 0;
    bool tmpl = false; // a template entity
    bool rad = true;
    V color{};
    bool spot = false; // _surface_spotlight of a template that shines all around its face
    int omni = 0; // 1: _surface_spotlight 0
    int style = 0;
    int offset = 0;
    std::optional<V> json; // surflight_color
    double minscale = 0;
    Light l; // as a template
};
struct World2
{
    Setup u;
    std::vector<Glow> glows;
    std::vector<Emit> direct;
    double sls = 1, slss = 1;
    double bounce = 0, bcs = 0;
    bool styled = true;
};
static V vmin0(V v)
{
    for (auto &x : v)
        x = std::max(x, 0.0);
    return v;
}
static double top(V v) { return std::max({v[0], v[1], v[2]}); }
static Ent read_ent(const Ent &e) { return e; }

static const std::vector<Face> *careful = nullptr; // embree's triangles are not watertight: count on rays that slip through
static bool visible(const Setup &u, int model, V p, V at, bool &sure)
{
    int v = u.model.blocks(model).between(p, at);
    if (careful && v != -1 && slips(*careful, p, at))
        v = -1;
    sure = v == 0;
    return v != 1;
}
// light of the emitters at a point
static void emitted(const World2 &w, const std::vector<Emit> &es, V p, V n, bool two, int model, Ivs &r, int face)
{
    for (auto &e : es) {
        V dir = p - e.at;
        double dist = len(dir);
        if (dist < 1e-3) {
            r[e.style].add(e.hi * (1 / (e.hot * e.hot)), false);
            continue;
        }
        dir = dir * (1 / dist);
        double dp1 = dot(e.n, dir), dp2 = two ? 1 : -dot(dir, n);
        bool sure = true;
        double f;
        if (e.omni) {
            f = dp2 * 0.5;
            dist += e.skydist;
        } else {
            if (dp1 < -0.0101 || dp2 < -0.0101)
                continue;
            if (dp1 < -0.0099 || dp2 < -0.0099)
                sure = false;
            if (e.rescale)
                f = (0.5 + 0.5 * dp1) * (0.5 + 0.5 * dp2);
            else
                f = dp1 * dp2;
        }
        if (f <= 0)
            continue;
        double k = f * e.scale / std::pow(std::max(dist, e.hot), 2);
        V lo = e.lo * k, hi = e.hi * k;
        if (top(hi) <= 0.0099)
            continue;
        if (top(lo) <= 0.0101)
            lo = {};
        if (trace)
            fprintf(stderr, "  from %s facing %s (face %d) style %d: %s to %s%s\n", str(e.at).c_str(), str(e.n).c_str(), e.face, e.style, str(lo).c_str(), str(hi).c_str(), sure ? "" : " ?");
        bool vs;
        if (!visible(w.u, model, p, e.at, vs))
            continue;
        if (trace)
            fprintf(stderr, "   seen %d\n", vs);
        Iv x;
        x.hi = hi;
        if (sure && vs)
            x.lo = lo;
        r[e.style].add(x);
    }
    (void)face;
}
// all that gives light before minlight, at a point that is not in doubt
static void direct_at(const World2 &w, V p, V n, bool two, V facepoint, int model, bool positive, Ivs &r)
{
    auto &m = w.u.model;
    for (auto &l : m.lights) {
        if (l.formula == 4 || l.light == 0 || (l.light > 0) != positive)
            continue;
        bool sure = true;
        if (!l.bleed && !two) {
            double d = dot(n, l.at - facepoint);
            if (d < -0.01)
                continue;
            if (d < 0.01)
                sure = false;
        }
        bool unsure = false;
        V c = contribution(m.w, l, n, p, two, unsure);
        double dist = len(l.at - p);
        if (unsure) {
            sure = false;
            c = l.color * (falloff(m.w, l, std::max(dist, 0.2)) / 255);
        }
        double b = std::fabs(bright(c));
        if (b <= m.w.gate * 0.99)
            continue;
        if (b <= m.w.gate * 1.01)
            sure = false;
        bool vs;
        if (!visible(w.u, model, p, l.at, vs))
            continue;
        sure = sure && vs;
        if (positive)
            r[l.style].add(c, sure);
        else {
            r[l.style].lo = r[l.style].lo + c;
            if (sure)
                r[l.style].hi = r[l.style].hi + c;
        }
    }
}
// no more than this, anywhere within some distance
static void most(const World2 &w, const std::vector<Emit> &es, V p, double slack, Ivs &r)
{
    for (auto &l : w.u.model.lights)
        if (l.light > 0 && l.formula != 4)
            r[l.style].hi = r[l.style].hi + l.color * (falloff(w.u.model.w, l, std::max(0.5, len(l.at - p) - slack)) / 255);
    for (auto &e : es)
        r[e.style].hi = r[e.style].hi + e.hi * (e.scale / std::pow(std::max(e.hot, len(e.at - p) - slack), 2));
}
static bool in_doubt(const World2 &w, const mbsp_t &b, const Face &f, V p, V off)
{
    auto &u = w.u;
    bool in = u.model.walls.near(p, 0.3) || maybe_solid(b, b.dmodels[0].headnode[0], p, u.m.q2) || (f.model && maybe_solid(b, b.dmodels[f.model].headnode[0], p - off, u.m.q2));
    for (auto &x : u.m.brushes)
        in = in || (f.model && x.model == f.model && x.b.in(p, 0.3));
    for (auto *x : u.casters)
        in = in || x->in(p, 0.3);
    return in;
}
static V offset_of(const Setup &u, int model)
{
    for (auto &e : u.m.ents)
        if (model && e.model == model)
            return e.offset;
    return {};
}
static V middle(const Face &f, bool &sure)
{
    // corners on straight edges do not count
    std::vector<V> k;
    size_t n = f.pts.size();
    for (size_t i = 0; i < n; ++i) {
        V a = unit(f.pts[i] - f.pts[(i + n - 1) % n]), b = unit(f.pts[(i + 1) % n] - f.pts[i]);
        double d = dot(a, b);
        if (d >= 1 - 0.0001) {
            if (d < 1 - 0.00009)
                sure = false;
            continue;
        }
        if (d > 1 - 0.00011)
            sure = false;
        k.push_back(f.pts[i]);
    }
    V c{};
    for (auto &p : k)
        c = c + p * (1.0 / k.size());
    return c;
}
static double area_of(const Face &f)
{
    V s{};
    for (size_t i = 2; i < f.pts.size(); ++i)
        s = s + cross(f.pts[i - 1] - f.pts[0], f.pts[i] - f.pts[0]) * 0.5;
    return std::fabs(dot(s, f.n));
}
static bool two_sided(const World2 &w, const Face &f) { return w.u.m.q2 ? (f.flags & 0x38) != 0 : watery(f); }
static V nearest(const Poly &pts, V n, V q)
{
    if (inset(pts, n, q) >= 0)
        return q;
    V best{};
    double bd = 1e18;
    for (size_t i = 0; i < pts.size(); ++i) {
        V a = pts[i], d = pts[(i + 1) % pts.size()] - a;
        double t = std::clamp(dot(q - a, d) / std::max(1e-12, dot(d, d)), 0.0, 1.0);
        V p = a + d * t;
        if (len(p - q) < bd)
            bd = len(p - q), best = p;
    }
    return best;
}
// what a point on the face gets
static void exact(const World2 &w, const mbsp_t &b, const Face &f, V on, const std::vector<Emit> &es, V off, Ivs &r)
{
    V p = on + f.n + off;
    bool two = two_sided(w, f);
    if (in_doubt(w, b, f, p, off)) {
        most(w, es, p, 3, r);
        return;
    }
    direct_at(w, p, f.n, two, on + off, f.model, true, r);
    emitted(w, es, p, f.n, two, f.model, r, f.num);
}
// what a sample of the face gets; before minlight
static Ivs sample(const World2 &w, const mbsp_t &b, const Face &f, int ls, int lt, const std::vector<Emit> &es, V off, const std::vector<const Face *> &flush)
{
    Ivs r;
    V q = f.at(ls, lt);
    double in = inset(f.pts, f.n, q);
    if (in >= 0.05) {
        exact(w, b, f, q, es, off, r);
        return r;
    }
    // past the edges the light may be that of the faces beside it in the same plane, or that at the edge
    auto worst = [&](const Ivs &x) {
        for (auto &[k, v] : x)
            for (int j = 0; j < 3; ++j)
                r[k].hi[j] = std::max(r[k].hi[j], v.hi[j]);
    };
    auto away = [&](const Face &g, V &on) {
        on = nearest(g.pts, g.n, q);
        V d = on - q;
        double ds = dot(f.s, d) / f.scale, dt = dot(f.t, d) / f.scale;
        return std::sqrt(ds * ds + dt * dt);
    };
    V on;
    double d = away(f, on);
    if (flush.empty()) {
        if (d > 1.1)
            return r;
        exact(w, b, f, on, es, off, r);
        if (d > 0.9)
            for (auto &[k, v] : r)
                v.lo = {};
        return r;
    }
    Ivs x;
    exact(w, b, f, on, es, off, x);
    worst(x);
    for (auto *g : flush) {
        d = away(*g, on);
        if (d > 1.1)
            continue;
        x.clear();
        if (on == q)
            exact(w, b, *g, q, es, off, x);
        else
            most(w, es, on + f.n + off, 3, x);
        worst(x);
    }
    return r;
}

static Poly cut(const Poly &p, int axis, double m, bool front)
{
    Poly r;
    for (size_t i = 0; i < p.size(); ++i) {
        V a = p[i], b = p[(i + 1) % p.size()];
        double x = a[axis] - m, y = b[axis] - m;
        if (!front)
            x = -x, y = -y;
        if (x >= 0)
            r.push_back(a);
        if ((x > 0 && y < 0) || (x < 0 && y > 0))
            r.push_back(a + (b - a) * (x / (x - y)));
    }
    return r;
}
static void dice(const Poly &p, const std::function<void(const Poly &)> &f, bool &sure)
{
    for (int i = 0; i < 3; ++i) {
        double lo = 1e18, hi = -1e18;
        for (auto &v : p)
            lo = std::min(lo, v[i]), hi = std::max(hi, v[i]);
        double mid = (lo + hi) * 0.5, m = 128 * std::floor(mid / 128 + 0.5);
        double frac = mid / 128 + 0.5 - std::floor(mid / 128 + 0.5);
        if (hi - lo > 16 && (frac < 1e-4 || frac > 1 - 1e-4))
            sure = false;
        if (std::fabs(hi - m - 8) < 0.01 || std::fabs(m - lo - 8) < 0.01)
            sure = false;
        if (hi - m < 8 || m - lo < 8)
            continue;
        dice(cut(p, i, m, true), f, sure);
        dice(cut(p, i, m, false), f, sure);
        return;
    }
    f(p);
}
static V centroid(const Poly &p, double &area)
{
    V c{};
    area = 0;
    for (size_t i = 2; i < p.size(); ++i) {
        double a = len(cross(p[i - 1] - p[0], p[i] - p[0])) * 0.5;
        c = c + (p[0] + p[i - 1] + p[i]) * (a / 3);
        area += a;
    }
    return c * (1 / std::max(area, 1e-12));
}
static void run_quiet_vis(const std::string &base)
{
    fflush(stdout);
    int saved = dup(1), n = open("/dev/null", O_WRONLY);
    dup2(n, 1);
    close(n);
    logging::mask = bitflags<logging::flag>();
    vis_main({"vis", "-quiet", "-nolog", "-threads", "2", base + ".bsp"});
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
}
// the texture names the glow may have
static void prepare(World2 &w, Map &m, Src &s, int n)
{
    for (int i = 0; i < n; ++i) {
        Glow g;
        g.tex = cat(m.q2 ? "e/" : "", "glow", i);
        w.glows.push_back(g);
    }
    auto may = [&](const Brush &b) { return b.kind == SOLID || b.kind == DETAIL || b.kind == WALL; };
    for (auto &b : m.brushes) {
        if (!may(b))
            continue;
        for (auto &sd : b.sides)
            if (n && s.chance(b.shell ? 1 : 2, 7))
                sd.tex = w.glows[s.draw(n)].tex;
    }
}
static std::string textures(const mbsp_t &b, bool q2, size_t i)
{
    auto &ti = b.texinfo[i];
    return q2 ? std::string(ti.texture.data()) : ti.miptex >= 0 && ti.miptex < (int)b.dtex.textures.size() ? b.dtex.textures[ti.miptex].name : "";
}
static void surfaces(Case &c)
{
    World2 w;
    auto &u = w.u;
    Src &s = c.s;
    int nglow = (int)s.i(0, 2);
    bool wantvis = s.chance(1, 2), bouncing = s.chance(1, 2);
    if (!nglow)
        bouncing = true;
    std::vector<int> flag;
    u.prepare = [&](Map &m, Src &s) {
        prepare(w, m, s, nglow);
        for (auto &g : w.glows)
            if (m.q2 && s.b()) {
                g.flag = true;
                g.value = s.chance(1, 3) ? (int)s.i(1, 30) : (int)s.i(20, 600);
                for (auto &b : m.brushes)
                    for (auto &sd : b.sides)
                        if (sd.tex == g.tex)
                            sd.flags = 1, sd.value = g.value;
            }
        if (wantvis)
            for (auto &b : m.brushes)
                wantvis = wantvis && !(m.q2 && b.kind == WATER);
    };
    setup(c, u, false);
    auto &m = u.m;
    // the world's keys
    std::vector<std::pair<std::string, std::string>> kv;
    w.sls = w.slss = m.q2 ? 0.65 : 1;
    w.bcs = m.q2 ? 0.5 : 0;
    w.bounce = m.q2 ? 0.85 : 1;
    w.styled = m.q2;
    auto key = [&](double &v, const char *k, std::vector<double> of) {
        if (s.chance(1, 4)) {
            v = of[s.draw(of.size())];
            kv.push_back({std::string("_") + k, n2s(v)});
        }
    };
    key(w.sls, "surflightscale", {0.25, 2, 1});
    if (bouncing) {
        key(w.bounce, "bouncescale", {0.5, 2, 4});
        key(w.bcs, "bouncecolorscale", {0, 1, 0.5});
        if (s.chance(1, 4)) {
            w.styled = s.b();
            kv.push_back({"_bouncestyled", w.styled ? "1" : "0"});
        }
    }
    double range = m.q2 ? 1 : 0.5;
    key(range, "range", {0.25, 2, 1});
    u.model.w.range = range;
    std::string t;
    Ent w0{"worldspawn"};
    w0.kv = kv;
    t = text_of(w0) + u.ents.substr(u.ents.find("}\n") + 2);
    nlohmann::json json;
    {
        auto bytes = bm::slurp(u.out.base + ".texinfo.json");
        json = bytes.empty() ? nlohmann::json::object() : nlohmann::json::parse(std::string((char *)bytes.data(), bytes.size()));
    }
    bool touched = false;
    auto say = [&](const std::string &tex, const char *k, nlohmann::json v) {
        for (size_t i = 0; i < u.out.bsp.texinfo.size(); ++i)
            if (textures(u.out.bsp, m.q2, i) == tex)
                json[std::to_string(i)][k] = v, touched = true;
    };
    std::string told;
    for (auto &g : w.glows) {
        for (auto &x : g.color)
            x = (double)s.i(0, 255);
        g.color[s.draw(3)] = (double)s.i(60, 255);
        g.tmpl = !g.flag || s.chance(1, 4);
        bool json_color = g.flag || s.chance(1, 4);
        if (json_color) {
            V k{};
            for (auto &x : k)
                x = (double)s.i(0, 255);
            k[s.draw(3)] = (double)s.i(60, 255);
            g.json = k;
            say(g.tex, "surflight_color", nlohmann::json::array({(int)k[0], (int)k[1], (int)k[2]}));
            told += cat(" ", g.tex, " has surflight_color ", str(k));
        }
        if (g.flag)
            told += cat(" ", g.tex, " shines ", g.value);
        g.minscale = s.chance(1, 2) ? 0 : s.pick<double>({0.05, 0.2, 1});
        if (g.flag) {
            say(g.tex, "surflight_minlight_scale", g.minscale);
            told += cat(" minlight times ", g.minscale);
        }
        if (!g.tmpl)
            continue;
        Ent e{"light"};
        e.origin = V{(double)s.i(-40, 40), (double)s.i(-40, 40), (double)s.i(-40, 40)};
        e.kv.push_back({"_surface", g.tex});
        auto &l = g.l;
        l.light = (double)(s.chance(1, 3) ? s.i(1, 40) : s.i(40, 500));
        e.kv.push_back({"light", n2s(l.light)});
        bool defkind = m.q2;
        g.rad = s.chance(2, 3);
        if (g.flag)
            g.rad = true;
        if (g.rad != defkind || s.chance(1, 3))
            e.kv.push_back({"_surface_radiosity", g.rad ? "1" : "0"});
        if (s.chance(4, 5) || g.rad) {
            e.kv.push_back({"_color", v2s(g.color)});
            l.color = g.color;
        }
        g.style = s.chance(1, 4) ? (int)s.pick<int>({1, 6, 40}) : 0;
        l.style = g.style;
        if (g.style)
            e.kv.push_back({"style", std::to_string(g.style)});
        e.kv.push_back({"_surflight_minlight_scale", n2s(g.flag ? 0.0 : g.minscale)});
        if (g.rad) {
            if (s.chance(1, 5)) {
                g.omni = 1;
                e.kv.push_back({"_surface_spotlight", "0"});
            }
        } else {
            if (s.chance(1, 3)) {
                g.spot = true;
                e.kv.push_back({"_surface_spotlight", "1"});
            }
            if (s.chance(1, 3)) {
                g.offset = (int)s.i(1, 12);
                e.kv.push_back({"_surface_offset", std::to_string(g.offset)});
            }
            l.formula = s.pick<int>({0, 0, 1, 2, 5});
            if (l.formula)
                e.kv.push_back({"delay", std::to_string(l.formula)});
            if (s.chance(1, 3)) {
                l.wait = s.pick<double>({0.5, 2, 4});
                e.kv.push_back({"wait", n2s(l.wait)});
            }
            if (s.chance(1, 3)) {
                l.anglescale = s.pick<double>({0, 1});
                e.kv.push_back({"_anglescale", n2s(l.anglescale)});
            }
        }
        t += text_of(e);
        for (auto &[k, v] : e.kv)
            told += " " + k + "=" + v;
    }
    set_entities(u.out.base, t);
    if (touched)
        std::ofstream(u.out.base + ".texinfo.json") << json;
    c.describe(about(u));
    for (auto &[k, v] : kv)
        c.describe(k + "=" + v);
    c.describe(told);
    std::vector<std::string> args{"-lit"};
    if (wantvis && u.out.prt) {
        run_quiet_vis(u.out.base);
        c.label("vis");
        args.insert(args.end(), {"-visapprox", s.b() ? "vis" : "auto"});
    } else {
        wantvis = false;
        args.insert(args.end(), {"-visapprox", "none"});
    }
    args.insert(args.end(), {"-bounce", bouncing ? "1" : "0"});
    for (auto &a : args)
        c.describe(a);
    if (const char *d = getenv("VH_DUMP"))
        for (const char *x : {".bsp", ".texinfo.json"})
            if (std::filesystem::exists(u.out.base + x))
                std::filesystem::copy_file(u.out.base + x, std::string(d) + "/m" + x, std::filesystem::copy_options::overwrite_existing);
    Lit r = light(u.out.base, args);
    auto fs = faces(r.bsp, m.q2), world = moved(u, fs);

    // the surfaces that give light
    auto glow_of = [&](const std::string &tex) -> const Glow * {
        for (auto &g : w.glows)
            if (g.tex == tex)
                return &g;
        return nullptr;
    };
    size_t nq1 = 0;
    std::vector<Light> all_lights;
    for (auto &f : fs) {
        auto *g = glow_of(f.tex);
        if (!g || f.pts.size() < 3)
            continue;
        V off = offset_of(u, f.model);
        double a = area_of(f);
        if (g->tmpl && !g->rad) {
            bool sure = true;
            size_t first = u.model.lights.size();
            dice(f.pts, [&](const Poly &p) {
                double pa;
                V at = centroid(p, pa);
                Light l = g->l;
                l.at = at + f.n * (g->offset ? g->offset : 2) + off;
                l.spot = g->spot;
                l.dir = f.n;
                l.cone = l.inner = m.q2 ? 20 : 40;
                if (pa < 0.5 || in_doubt(w, r.bsp, f, l.at, off) || u.model.walls.near(l.at, 0.5))
                    l.falloff = -5; // it may be moved a little
                u.model.lights.push_back(l);
                ++nq1;
            }, sure);
            if (!sure) // or a lot
                for (size_t i = first; i < u.model.lights.size(); ++i)
                    u.model.lights[i].falloff = -150;
        }
        if (a < 0.98)
            continue;
        bool sure = a > 1.02;
        V at = middle(f, sure) + f.n + off;
        if (u.model.walls.near(at, 0.4))
            sure = false; // behind a hair of something
        auto put = [&](V color, double light, bool omni, bool sky, int style) {
            Emit e;
            e.at = at;
            e.n = f.n;
            e.omni = omni;
            e.rescale = !sky;
            e.scale = omni ? w.slss : w.sls;
            e.style = style;
            e.hi = color * (std::floor(light) / 255 * a);
            e.lo = sure ? e.hi * std::min(1.0, top(color) / 255 * std::floor(light)) : V{}; // faint ones are fainter still
            e.face = f.num;
            w.direct.push_back(e);
        };
        if (g->flag)
            put(*g->json, g->value, false, false, 0);
        if (g->tmpl && g->rad)
            put(g->json ? *g->json : g->color, g->l.light, g->omni, false, g->style);
    }
    if (getenv("VH_LIGHTS")) {
        for (auto &l : u.model.lights)
            fprintf(stderr, "light %s %g falloff %g spot %d\n", str(l.at).c_str(), l.light, l.falloff, l.spot);
        for (auto &e : w.direct)
            fprintf(stderr, "emit %s facing %s %s %s\n", str(e.at).c_str(), str(e.n).c_str(), str(e.lo).c_str(), str(e.hi).c_str());
    }
    all_lights = u.model.lights;
    bool doubts = false;
    for (auto &l : u.model.lights)
        doubts = doubts || l.falloff < 0;
    if (doubts)
        c.label("light in doubt");
    // lights in doubt count as emitters between nothing and everything: leave the luxels they may reach
    auto reach = [&](V p, Ivs &iv) {
        for (auto &l : all_lights)
            if (l.falloff < 0) {
                Light k = l;
                k.falloff = 0;
                double d = std::max(0.5, len(l.at - p) + l.falloff);
                iv[l.style].hi = iv[l.style].hi + l.color * (std::fabs(falloff(u.model.w, k, d)) / 255);
            }
    };
    std::vector<Light> sure_lights;
    for (auto &l : u.model.lights)
        if (l.falloff >= 0)
            sure_lights.push_back(l);

    // what comes back
    auto thrown = [&] {
    std::vector<Emit> back;
    if (bouncing) {
        auto keep = u.model.lights;
        for (auto &f : fs) {
            if (!f.lit || f.pts.size() < 3)
                continue;
            if (f.tex.empty() || two_sided(w, f) || f.tex[0] == '{' || f.tex.find("sky") != std::string::npos || f.tex.find("water") != std::string::npos)
                continue;
            auto *g = glow_of(f.tex);
            if (g && (g->flag || (g->tmpl && g->rad)))
                continue;
            bool shadow = !f.model;
            for (auto &e : m.ents)
                if (f.model && e.model == f.model)
                    for (auto &[k, v] : e.kv)
                        shadow = shadow || k == "_shadow";
            if (!shadow)
                continue;
            double a = area_of(f);
            if (a < 0.98)
                continue;
            bool sure = a > 1.02 && f.sure;
            V off = offset_of(u, f.model);
            V at = middle(f, sure) + f.n + off;
            if (u.model.walls.near(at, 0.4))
                sure = false;
            Ivs sum;
            int n = f.size[0] * f.size[1];
            std::vector<const Face *> flush;
            for (auto &g : fs)
                if (&g != &f && g.model == f.model && dot(g.n, f.n) > 0.99999 && std::fabs(g.d - f.d) < 0.01 && g.pts.size() > 2)
                    flush.push_back(&g);
            u.model.lights = sure_lights;
            for (int i = 0; i < n; ++i) {
                auto x = sample(w, r.bsp, f, i % f.size[0], i / f.size[0], w.direct, off, flush);
                V p = f.at(i % f.size[0], i / f.size[0]) + off;
                reach(p, x);
                for (auto &[k, v] : x)
                    sum[k].add(v);
            }
            u.model.lights = keep;
            for (auto &[k, v] : sum) {
                if (k && !w.styled)
                    continue;
                V avg = g && g->json ? *g->json : V{};
                V lo = v.lo, hi = v.hi;
                for (int j = 0; j < 3; ++j) {
                    double blend = (127 * (1 - w.bcs) + avg[j] * w.bcs) / 255;
                    lo[j] *= blend / n;
                    hi[j] *= blend / n;
                }
                Emit e;
                e.at = at;
                e.n = f.n;
                e.rescale = false;
                e.hot = 128;
                e.scale = w.bounce * 0.5;
                e.style = k;
                e.face = f.num;
                e.hi = hi * a;
                e.lo = sure ? lo * (a * std::min(1.0, top(lo))) : V{};
                if (getenv("VH_LIGHTS"))
                    fprintf(stderr, "back %d %s area %g n %d: %s to %s\n", f.num, f.tex.c_str(), a, n, str(v.lo * (1.0 / n)).c_str(), str(v.hi * (1.0 / n)).c_str());
                if (top(e.hi) > 0)
                    back.push_back(e);
            }
        }
    }
    return back;
    };
    std::vector<Emit> back = thrown(), back2;
    bool have2 = false;
    int checked = 0, sharp = 0;
    double got_direct = 0, got_back = 0;
    for (auto &f : fs) {
        if (!f.lit || !f.sure || f.pts.size() < 3)
            continue;
        auto mp = maps_of(c, u, r, f);
        V off = offset_of(u, f.model);
        bool two = two_sided(w, f);
        int W = f.size[0], H = f.size[1];
        int step = std::max(1, W * H / 16);
        for (int i = (int)s.draw(step); i < W * H; i += step) {
            int ls = i % W, lt = i / W;
            V q = f.at(ls, lt);
            if (inset(f.pts, f.n, q) < 0.2)
                continue;
            V p = q + f.n + off;
            if (in_doubt(w, r.bsp, f, p, off))
                continue;
            double d0 = 0, d1 = 0;
            auto find = [&](const std::vector<Emit> &back) {
            Ivs iv;
            auto &L = u.model.lights;
            L = sure_lights;
            direct_at(w, p, f.n, two, q + off, f.model, true, iv);
            emitted(w, w.direct, p, f.n, two, f.model, iv, f.num);
            reach(p, iv);
            d0 = d1 = 0;
            for (auto &[k, v] : iv)
                d0 += bright(v.lo);
            for (auto &l : L)
                if (l.formula == 4) {
                    auto &x = iv[l.style];
                    if (bright(x.lo) > l.light + 0.02)
                        continue;
                    bool vs;
                    if (!visible(u, f.model, p, l.at, vs))
                        continue;
                    V k = l.color * (l.light / 255);
                    for (int j = 0; j < 3; ++j) {
                        if (vs && bright(x.hi) < l.light - 0.02)
                            x.lo[j] = std::max(x.lo[j], k[j]);
                        x.hi[j] = std::max(x.hi[j], k[j]);
                    }
                }
            emitted(w, back, p, f.n, two, f.model, iv, f.num);
            for (auto &[k, v] : iv)
                d1 += bright(v.lo);
            if (auto *g = glow_of(f.tex); g && (g->flag || (g->tmpl && g->rad)) && area_of(f) > 1.02) {
                // what shines looks bright itself
                double k = g->minscale * (g->flag ? g->value : std::floor(g->l.light)) / 255;
                V col = g->json ? *g->json : g->color;
                if (!g->flag && g->tmpl)
                    col = g->color;
                if (k > 0)
                    for (int j = 0; j < 3; ++j) {
                        auto &x = iv[g->flag ? 0 : g->style];
                        x.lo[j] = std::max(x.lo[j], col[j] * k);
                        x.hi[j] = std::max(x.hi[j], col[j] * k);
                    }
            }
            direct_at(w, p, f.n, two, q + off, f.model, false, iv);
            L = all_lights;
            return iv;
            };
            if (auto *g = glow_of(f.tex); g && (g->flag || (g->tmpl && g->rad)) && area_of(f) <= 1.02)
                continue;
            Ivs iv = find(back);
            ++checked;
            if (const char *at = getenv("VH_AT"); at && str(p) == at) {
                trace = true;
                Ivs x;
                fprintf(stderr, "direct %g all %g\n", d0, d1);
                emitted(w, w.direct, p, f.n, two, f.model, x, f.num);
                emitted(w, back, p, f.n, two, f.model, x, f.num);
                trace = false;
            }
            got_direct += d0;
            got_back += d1 - d0;
            std::set<int> seen;
            auto again = [&](int style, V &lo, V &hi) {
                careful = &world;
                if (!have2)
                    back2 = thrown(), have2 = true;
                auto x = find(back2);
                careful = nullptr;
                Iv e = x.count(style) ? x[style] : Iv{};
                lo = vmin0(e.lo) * range, hi = vmin0(e.hi) * range;
            };
            for (int k = 0; k < mp.n; ++k) {
                const uint8_t *g = mp.at + ((size_t)k * W * H + i) * 3;
                int st = mp.style[k];
                seen.insert(st);
                Iv e = iv.count(st) ? iv[st] : Iv{};
                V lo = vmin0(e.lo) * range, hi = vmin0(e.hi) * range;
                if (top(hi) - top(lo) < 5)
                    ++sharp;
                for (int j = 0; j < 3; ++j) {
                    double tol = 0.3 + 0.006 * hi[j];
                    bool high = g[j] > hi[j] + tol, low = g[j] < std::floor(lo[j] - tol) && top(hi) <= 254;
                    if (top(hi) > 254)
                        high = false;
                    if (!high && !low)
                        continue;
                    V l2 = lo, h2 = hi;
                    again(st, l2, h2);
                    if (top(h2) > 254)
                        continue;
                    if (g[j] > h2[j] + tol || g[j] < std::floor(l2[j] - tol))
                        c.fail(low ? "dark" : "bright", cat("face ", f.num, " (", f.tex, ", model ", f.model, ") at ", str(p), " facing ", str(f.n), " style ", st, ": ", (int)g[0], " ", (int)g[1], " ", (int)g[2], ", not ", str(lo), " to ", str(hi), " (luxel ", ls, " ", lt, " of ", W, "x", H, ", ", w.direct.size(), " surface lights, ", nq1, " lights of surfaces, ", back.size(), " bounced)"));
                }
            }
            for (auto &[st, e] : iv) {
                V lo = vmin0(e.lo) * range, hi = vmin0(e.hi) * range;
                if (mp.n < 4 && !seen.count(st) && bright(lo) > 1.1) {
                    again(st, lo, hi);
                    if (bright(lo) > 1.1)
                        c.fail("style missing", cat("face ", f.num, " (", f.tex, ", model ", f.model, ") at ", str(p), " gets ", str(lo), " by style ", st, " and has none"));
                }
            }
        }
    }
    if (getenv("VH_ALL"))
        fprintf(stderr, "checked %d sharp %d direct %g back %g\n", checked, sharp, got_direct, got_back);
    c.nt(sharp > 20 && (!w.direct.empty() || nq1 || got_back > 10));
    if (!w.direct.empty())
        c.label("surface light");
    if (nq1)
        c.label("lights of surfaces");
    if (got_back > 10)
        c.label("bounced");
    (void)read_ent;
}
static const std::vector<std::string> assume{};
VH_MAIN("C31", "more than 20 luxels were bounded closely and a surface gave or threw back light", assume,
    vh::Sub{"surfaces", surfaces, 500, 6000, false, 120, false})
