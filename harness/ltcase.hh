// cases for the light checks: a generated map with lights, and what the luxels should hold
#pragma once
#include "qlight.hh"
using namespace ql;


[[maybe_unused]] static void no_skip(Map &m, Src &s)
{
    for (auto &b : m.brushes)
        for (auto &sd : b.sides) {
            if ((sd.tex == "skip" || sd.tex == "e/skip"))
                sd.tex = m.q2 ? "e/wall0" : "wall0", sd.flags = 0;
            if (sd.flags == 1)
                sd.flags = sd.value = 0; // no surface lights
        }
    (void)s;
}
[[maybe_unused]] static std::string f2s(double d) { return n2s(d); }
[[maybe_unused]] static std::string v2s(V v) { return f2s(v[0]) + " " + f2s(v[1]) + " " + f2s(v[2]); }
[[maybe_unused]] static V angles(double yaw, double pitch)
{
    double y = yaw * M_PI / 180, p = pitch * M_PI / 180;
    return {std::cos(y) * std::cos(p), std::sin(y) * std::cos(p), std::sin(p)};
}
[[maybe_unused]] static std::string color(Src &s, V &c)
{
    if (s.chance(1, 3)) { // 0 to 1
        for (auto &x : c)
            x = (double)s.i(0, 8) / 8;
        std::string r = v2s(c);
        c = c * 255;
        return r;
    }
    for (auto &x : c)
        x = (double)s.i(2, 255);
    return v2s(c);
}
struct Setup
{
    Map m;
    Out out;
    Model model;
    std::string ents;
    std::vector<Ent> extra;
    std::vector<const Body *> casters; // of models
    std::function<void(Map &, Src &)> prepare; // the map before it is written
    std::vector<Ent> models;
};
[[maybe_unused]] static V open_spot(Case &c, const Setup &u, bool &ok)
{
    auto &m = u.m;
    ok = false;
    V p{};
    for (int i = 0; i < 8 && !ok; ++i) {
        p = anywhere(c.s, m, 0);
        for (auto &x : p)
            x = std::round(x * 4) / 4;
        int l = leaf_at(u.out.bsp, 0, p);
        int k = u.out.bsp.dleafs[l].contents;
        bool open = m.q2 ? !(k & 1) : k != -2 && k != -6;
        ok = open && !u.model.walls.near(p, 0.5);
    }
    return p;
}
[[maybe_unused]] static void setup(Case &c, Setup &u, bool worldkeys = true)
{
    Src &s = c.s;
    Opt o;
    o.only = {SOLID, SOLID, DETAIL, SKY, SKY, WATER, WALL, FENCE};
    o.maxbrushes = 10;
    u.m = gen(c, o);
    auto &m = u.m;
    no_skip(m, s);
    for (auto &b : m.brushes) {
        // what the game does not have, or what would be filtered
        if (m.q2 && (b.kind == WALL || b.kind == FENCE)) {
            b.kind = DETAIL;
            b.contents = b.written = 1 | 1 << 27;
            for (auto &sd : b.sides)
                sd.tex = "e/dtl0";
        }
        // some of the shell is sky
        if (b.shell && s.chance(1, 4)) {
            b.kind = SKY;
            for (auto &sd : b.sides) {
                sd.tex = m.q2 ? "e/sky0" : "sky0";
                sd.flags = m.q2 ? 4 : 0;
            }
        }
    }
    if (u.prepare)
        u.prepare(m, s);
    write_text(m);
    u.out = compile(c, m, "m", m.q2 ? std::vector<std::string>{} : std::vector<std::string>{"-missing_textures_as_zero_size"});
    u.model.walls = blocks_of(m);
    auto &w = u.model.w;
    auto &kv = w.kv;
    w.range = m.q2 ? 1 : 0.5;
    double global = 0.5;
    if (worldkeys) {
        if (s.chance(1, 4)) {
            w.minlight = (double)s.i(1, 200) / (m.q2 ? 128 : 1); // in Quake II 1 is 128
            kv.push_back({s.b() ? "light" : "_minlight", f2s(w.minlight)});
            if (m.q2)
                w.minlight *= 128;
            if (s.b())
                kv.push_back({"_minlight_color", color(s, w.mincolor)});
            if (s.chance(1, 3)) {
                w.addmin = true;
                kv.push_back({"_addmin", "1"});
            }
        }
        if (s.chance(1, 6)) {
            w.dist = s.pick<double>({0.5, 2, 0.25, 3});
            kv.push_back({"_dist", f2s(w.dist)});
        }
        if (s.chance(1, 6)) {
            w.range = s.pick<double>({0.25, 1, 2, 0.75});
            kv.push_back({"_range", f2s(w.range)});
        }
        if (s.chance(1, 6)) {
            w.gamma = s.pick<double>({2, 0.5, 1.5});
            kv.push_back({"_gamma", f2s(w.gamma)});
        }
        if (s.chance(1, 6)) {
            w.maxlight = (double)s.i(10, 200);
            kv.push_back({"_maxlight", f2s(w.maxlight)});
        }
        if (s.chance(1, 6)) {
            global = s.pick<double>({0, 1, 0.25});
            kv.push_back({"_anglescale", f2s(global)});
        }
        if (s.chance(1, 3)) {
            for (int i = 0; i < 2; ++i) {
                if (!s.b())
                    continue;
                Sun sun;
                sun.light = (double)s.i(20, 400) * (s.chance(1, 6) ? -1 : 1);
                double yaw = (double)s.i(0, 359), pitch = (double)s.i(-90, -10);
                if (s.chance(1, 4))
                    pitch = -pitch;
                sun.to = angles(yaw, pitch) * -1;
                sun.anglescale = global;
                kv.push_back({i ? "_sun2" : "_sunlight", f2s(sun.light)});
                kv.push_back({i ? "_sun2_mangle" : "_sun_mangle", f2s(yaw) + " " + f2s(pitch) + " 0"});
                if (s.b())
                    kv.push_back({i ? "_sun2_color" : "_sunlight_color", color(s, sun.color)});
                u.model.suns.push_back(sun);
            }
        }
    }
    int n = (int)s.i(1, 5);
    std::vector<std::string> names;
    int styles[] = {0, 0, 0, 1, 5, 33, 62};
    for (int i = 0; i < n; ++i) {
        Light l;
        bool ok;
        l.at = open_spot(c, u, ok);
        if (!ok)
            continue;
        l.ent.cls = s.pick<const char *>({"light", "light", "light_torch_small_walltorch", "light_fluoro"});
        auto key = [&](std::string k, std::string v) { l.ent.kv.push_back({(s.chance(1, 3) && k != "style" && k != "target" && k != "targetname" ? "_" : "") + k, v}); };
        l.ent.origin = l.at;
        l.formula = s.pick<int>({0, 0, 0, 1, 2, 3, 4, 5});
        l.light = l.formula == 3 || l.formula == 4 ? (double)s.i(5, 120) : (double)s.i(50, 600);
        if (s.chance(1, 8) && l.formula != 4)
            l.light = -l.light;
        if (s.chance(1, 10))
            l.light = 300;
        else
            key("light", f2s(l.light));
        if (l.formula)
            key("delay", std::to_string(l.formula));
        if (s.chance(1, 3)) {
            l.wait = s.pick<double>({0.5, 2, 0.25, 1.5, 4});
            key("wait", f2s(l.wait));
        }
        l.anglescale = global;
        if (s.chance(1, 3)) {
            l.anglescale = s.pick<double>({0, 1, 0.25, 0.75});
            key(s.b() ? "anglescale" : "anglesense", f2s(l.anglescale));
        }
        if (s.b())
            key("color", color(s, l.color));
        l.style = styles[s.draw(7)];
        if (l.style)
            key("style", std::to_string(l.style));
        if (s.chance(1, 5)) {
            // switched: its style goes by the name, in order of appearance
            std::string t = s.pick<const char *>({"ta", "tb", "tc"});
            auto it = std::find(names.begin(), names.end(), t);
            if (it == names.end())
                it = names.insert(names.end(), t);
            l.style = 32 + (int)(it - names.begin());
            key("targetname", t);
        }
        if (l.formula == 0 && s.chance(1, 5)) {
            l.falloff = (double)s.i(64, 500);
            l.ent.kv.push_back({"_falloff", f2s(l.falloff)});
        }
        if (s.chance(1, 8)) {
            l.bleed = true;
            key("bleed", "1");
        }
        if (s.chance(1, 4) && l.formula != 4) {
            l.spot = true;
            V target{};
            bool aimed = false;
            if (s.b()) {
                bool found;
                target = open_spot(c, u, found);
                aimed = found && len(target - l.at) > 8;
            }
            if (aimed) {
                Ent t{"info_null"};
                t.origin = target;
                std::string name = "spot" + std::to_string(i);
                t.kv.push_back({"targetname", name});
                u.extra.push_back(t);
                key("target", name);
                l.dir = unit(target - l.at);
            } else {
                double yaw = (double)s.i(0, 359), pitch = (double)s.i(-90, 90);
                key("mangle", f2s(yaw) + " " + f2s(pitch) + " 0");
                l.dir = angles(yaw, pitch);
            }
            l.cone = m.q2 ? 20 : 40;
            if (s.b()) {
                l.cone = (double)s.i(20, 170);
                if (m.q2 && s.b())
                    l.ent.kv.push_back({"_cone", f2s(l.cone / 2)});
                else
                    key("angle", f2s(l.cone));
            }
            l.inner = l.cone;
            if (s.b()) {
                l.inner = (double)s.i(10, 170);
                key("softangle", f2s(l.inner));
                if (l.inner > l.cone)
                    l.inner = l.cone;
            }
        }
        u.model.lights.push_back(l);
    }
    // brush models: shadows, minlight
    for (auto &e : m.ents) {
        if (e.model <= 0)
            continue;
        u.model.of[e.model] = u.model.walls;
    }
    u.model.of[0] = u.model.of[-1] = u.model.walls; // -1: for what is no model
    for (auto &e : m.ents) {
        if (e.model <= 0)
            continue;
        if (worldkeys && s.chance(1, 4)) {
            World own = w;
            own.minlight = (double)s.i(1, 200) / (m.q2 ? 128 : 1);
            e.kv.push_back({"_minlight", f2s(own.minlight)});
            double least = w.minlight; // the map's, if it is more
            if (m.q2) {
                own.minlight *= 128;
                least /= 128;
            }
            if (s.b())
                e.kv.push_back({"_minlight_color", color(s, own.mincolor)});
            if (own.minlight <= least)
                own.minlight = least, own.mincolor = w.mincolor;
            if (s.chance(1, 3)) {
                own.maxlight = (double)s.i(10, 200) / (m.q2 ? 128 : 1);
                e.kv.push_back({"_maxlight", f2s(own.maxlight)});
                if (m.q2)
                    own.maxlight *= 128;
            }
            u.model.own[e.model] = own;
        }
        if (!s.chance(1, 2))
            continue;
        int how = (int)s.draw(4);
        const char *keys[] = {"_shadow", "_shadow", "_shadowself", "_shadowworldonly"};
        e.kv.push_back({keys[how], "1"});
        for (auto &b : m.brushes)
            if (b.model == e.model) {
                u.casters.push_back(&b.b);
                for (auto &[k, bl] : u.model.of)
                    if (how <= 1 || (how == 2 && k == e.model) || (how == 3 && k == 0))
                        bl.solid.push_back(&b.b);
            }
    }
    // a light without position has nothing to do with it
    std::string t;
    Ent w0{"worldspawn"};
    w0.kv = kv;
    t = text_of(w0);
    std::vector<std::string> rest;
    for (auto &l : u.model.lights)
        t += text_of(l.ent);
    for (auto &e : u.extra)
        t += text_of(e);
    for (auto &e : m.ents)
        if (e.model > 0) {
            Ent x{e.cls};
            x.kv = e.kv;
            x.kv.push_back({"model", "*" + std::to_string(e.model)});
            if (e.offset != V{})
                x.origin = e.offset;
            t += text_of(x);
        }
    u.ents = t;
    set_entities(u.out.base, t);
    if (const char *d = getenv("VH_DUMP"))
        std::filesystem::copy_file(u.out.base + ".bsp", std::string(d) + "/m.bsp", std::filesystem::copy_options::overwrite_existing);
}
[[maybe_unused]] static std::string about(const Setup &u)
{
    std::string r = about(u.m);
    r += cat(", ", u.model.lights.size(), " lights, ", u.model.suns.size(), " suns");
    for (auto &[k, v] : u.model.w.kv)
        r += " " + k + "=" + v;
    for (auto &l : u.model.lights) {
        r += " {" + str(l.at);
        for (auto &[k, v] : l.ent.kv)
            r += " " + k + "=" + v;
        r += "}";
    }
    return r;
}
// where the light of a face is in the data, rgb
[[maybe_unused]] static Maps maps_of(Case &c, const Setup &u, const Lit &r, const Face &f)
{
    Maps x;
    auto &face = r.bsp.dfaces[f.num];
    for (int i = 0; i < 4 && face.styles[i] != 255; ++i)
        x.style[x.n++] = face.styles[i];
    if (!x.n)
        return x;
    size_t ofs = face.lightofs, size = (size_t)f.size[0] * f.size[1] * 3 * x.n;
    bool rgb = u.m.q2 || u.m.ver == &bspver_hl;
    const std::vector<uint8_t> &d = rgb ? r.bsp.dlightdata : *r.lit;
    if (!rgb)
        ofs = ofs * 3 + 8;
    if (face.lightofs < 0 || ofs + size > d.size())
        c.fail("range", cat("face ", f.num, " has ", x.n, " styles of ", f.size[0], "x", f.size[1], " at ", face.lightofs));
    x.at = d.data() + ofs;
    return x;
}
// embree's triangles are not watertight: a ray along an edge may slip through
[[maybe_unused]] static double apart(V a, V b, V c, V d)
{
    // between two segments
    V u = b - a, v = d - c, w = a - c;
    double A = dot(u, u), B = dot(u, v), C = dot(v, v), D = dot(u, w), E = dot(v, w), det = A * C - B * B;
    double s = det > 1e-9 ? (B * E - C * D) / det : 0;
    s = std::clamp(s, 0.0, 1.0);
    double t = C > 1e-12 ? std::clamp((B * s + E) / C, 0.0, 1.0) : 0;
    s = A > 1e-12 ? std::clamp((B * t - D) / A, 0.0, 1.0) : 0;
    return len(a + u * s - c - v * t);
}
[[maybe_unused]] static bool slips(const std::vector<Face> &fs, V a, V b)
{
    for (auto &f : fs) {
        double x = dot(f.n, a) - f.d, y = dot(f.n, b) - f.d;
        if ((x > 0.1 && y > 0.1) || (x < -0.1 && y < -0.1))
            continue;
        for (size_t i = 0; i < f.pts.size(); ++i) {
            if (apart(a, b, f.pts[i], f.pts[(i + 1) % f.pts.size()]) < 0.05)
                return true;
            if (i > 1 && apart(a, b, f.pts[0], f.pts[i]) < 0.05) // as it is cut into triangles
                return true;
        }
    }
    return false;
}
[[maybe_unused]] static bool slips(const std::vector<Face> &fs, const Setup &u, const Face &f, double a, double b, int extra, V off)
{
    for (int k = 0; k < extra * extra; ++k) {
        V p = f.at(a - 0.5 + 0.5 / extra + (double)(k % extra) / extra, b - 0.5 + 0.5 / extra + (double)(k / extra) / extra) + f.n + off;
        for (auto &l : u.model.lights)
            if (slips(fs, p, l.at))
                return true;
        for (auto &l : u.model.suns)
            if (slips(fs, p, p + l.to * 8000))
                return true;
    }
    return false;
}
// solid, or so close to the planes that it may be taken to be
[[maybe_unused]] static bool maybe_solid(const mbsp_t &b, int n, V p, bool q2)
{
    while (n >= 0) {
        double d = plane_at(b, b.dnodes[n].planenum, p);
        if (std::fabs(d) < 0.15 && maybe_solid(b, b.dnodes[n].children[0], p, q2))
            return true;
        n = b.dnodes[n].children[d < -0.15 || std::fabs(d) < 0.15 ? 1 : 0];
    }
    int k = b.dleafs[-1 - n].contents;
    return q2 ? k & 1 : k == -2 || k == -6;
}
[[maybe_unused]] static bool watery(const Face &f) { return f.tex[0] == '*'; }
// the faces with the models where they are
inline std::vector<Face> moved(const Setup &u, std::vector<Face> fs)
{
    for (auto &f : fs)
        for (auto &e : u.m.ents)
            if (f.model && e.model == f.model) {
                f.d += dot(f.n, e.offset);
                for (auto &p : f.pts)
                    p = p + e.offset;
            }
    return fs;
}
struct Tally
{
    int checked = 0, dark = 0;
};
// the luxels of a face against the model
inline void compare(Case &c, const Setup &u, const Lit &r, const std::vector<Face> &world, const Face &f, const Maps &mp, int extra, int maxstyles, Tally &tally)
{
    static const bool all = getenv("VH_ALL") != nullptr; // to look at a replay
    Src &s = c.s;
    if (!f.lit || !f.sure || f.pts.size() < 3)
        return;
    V off{};
    for (auto &e : u.m.ents)
        if (e.model == f.model)
            off = e.offset;
    bool two = u.m.q2 ? (f.flags & 0x38) != 0 : watery(f);
    int w = f.size[0], h = f.size[1];
    if (all)
        for (auto &p : f.pts) fprintf(stderr, "face %d: %s\n", f.num, str(p).c_str());
    int step = all ? 1 : std::max(1, w * h / 40);
    for (int i = (int)s.draw(step); i < w * h; i += step) {
        int ls = i % w, lt = i / w;
        std::map<int, V> sum;
        bool sure = true;
        for (int k = 0; k < extra * extra && sure; ++k) {
            double a = ls - 0.5 + 0.5 / extra + (double)(k % extra) / extra, b = lt - 0.5 + 0.5 / extra + (double)(k / extra) / extra;
            V q = f.at(a, b);
            if (inset(f.pts, f.n, q) < 0.2) {
                sure = false;
                break;
            }
            V p = q + f.n + off;
            bool in = u.model.walls.near(p, 0.3) || maybe_solid(r.bsp, r.bsp.dmodels[0].headnode[0], p, u.m.q2) || (f.model && maybe_solid(r.bsp, r.bsp.dmodels[f.model].headnode[0], p - off, u.m.q2));
            for (auto &b : u.m.brushes)
                in = in || (f.model && b.model == f.model && b.b.in(p, 0.3));
            for (auto *b : u.casters)
                in = in || b->in(p, 0.3);
            if (in) {
                sure = false;
                break;
            }
            auto v = u.model(p, f.n, two, q + off, f.model);
            if (!v) {
                sure = false;
                break;
            }
            for (auto &[st, x] : *v)
                sum[st] = sum[st] + x * (1.0 / (extra * extra));
        }
        if (all && !sure)
            fprintf(stderr, "%d (%d,%d) %s: %d, contents %d\n", f.num, ls, lt, str(f.at(ls, lt) + f.n + off).c_str(), mp.n ? mp.at[i * 3] : -1, r.bsp.dleafs[leaf_at(r.bsp, 0, f.at(ls, lt) + f.n + off)].contents);
        if (!sure)
            continue;
        ++tally.checked;
        std::set<int> seen;
        for (int k = 0; k < mp.n; ++k) {
            const uint8_t *g = mp.at + ((size_t)k * w * h + i) * 3;
            V e = sum.count(mp.style[k]) ? sum[mp.style[k]] : V{};
            seen.insert(mp.style[k]);
            if (mp.grey)
                e = V{1, 1, 1} * std::max({e[0], e[1], e[2]});
            for (int j = 0; j < 3; ++j) {
                double tol = 0.3 + e[j] * 0.004, up = 0; // small errors grow with the gamma
                if (u.model.w.gamma > 1) {
                    double g = u.model.w.gamma;
                    up = 255 * std::pow(std::pow(std::max(e[j], 0.0) / 255, g) + 0.02 / 255, 1 / g) - e[j];
                }
                if (all && !j)
                    fprintf(stderr, "%d (%d,%d) %s style %d: %d want %g\n", f.num, ls, lt, str(f.at(ls, lt) + f.n + off).c_str(), mp.style[k], g[j], e[j]);
                else if (!all && (g[j] < std::floor(e[j] - tol - up) || g[j] > e[j] + tol + up) && !slips(world, u, f, ls, lt, extra, off))
                    c.fail(g[j] < e[j] ? "dark" : "bright", cat("face ", f.num, " (", f.tex, ", model ", f.model, ") at ", str(f.at(ls, lt) + f.n + off), " facing ", str(f.n), " style ", mp.style[k], ": ", (int)g[0], " ", (int)g[1], " ", (int)g[2], ", not ", str(e), " (luxel ", ls, " ", lt, " of ", w, "x", h, ", in contents ", r.bsp.dleafs[leaf_at(r.bsp, 0, f.at(ls, lt) + f.n + off)].contents, ")"));
            }
            tally.dark += bright(e) < 1;
        }
        for (auto &[st, e] : sum)
            if (mp.n < maxstyles && !seen.count(st) && bright(e) > 1.1 && !slips(world, u, f, ls, lt, extra, off))
                c.fail("style missing", cat("face ", f.num, " (", f.tex, ") at ", str(f.at(ls, lt) + f.n + off), " is lit ", str(e), " by style ", st));
    }
}
