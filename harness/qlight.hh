// running the light compiler on generated maps, and the model of what it should do
#pragma once
#include "qmap.hh"
#include <light/light.hh>
#include <common/bspxfile.hh>
#include <fcntl.h>
#include <unistd.h>
namespace ql
{
using namespace qm;

struct Light
{
    V at{};
    double light = 300;
    int formula = 0;
    V color{255, 255, 255};
    double wait = 1;
    double anglescale = 0.5;
    int style = 0;
    double falloff = 0;
    bool spot = false, bleed = false;
    V dir{}; // the way it shines
    double cone = 40, inner = 40; // whole angles
    Ent ent;
};
struct Sun
{
    V to{}; // towards it
    double light = 0;
    V color{255, 255, 255};
    double anglescale = 0.5;
    int style = 0;
};
struct World
{
    double minlight = 0;
    V mincolor{255, 255, 255};
    bool addmin = false;
    double dist = 1, range = 0.5, gamma = 1, maxlight = 0;
    double gate = 0.01;
    std::vector<std::pair<std::string, std::string>> kv;
};
struct Lit
{
    mbsp_t bsp;
    bspxentries_t bspx;
    std::vector<uint8_t> bytes;
    std::optional<std::vector<uint8_t>> lit, lux;
};
inline void set_entities(const std::string &base, const std::string &ents)
{
    bspdata_t d;
    fs::path p = base + ".bsp";
    LoadBSPFile(p, &d);
    auto version = d.version;
    ConvertBSPFormat(&d, &bspver_generic);
    std::get<mbsp_t>(d.bsp).dentdata = ents;
    ConvertBSPFormat(&d, version);
    WriteBSPFile(p, &d);
}
inline std::string text_of(const Ent &e)
{
    std::string t = "{\n\"classname\" \"" + e.cls + "\"\n";
    if (e.origin)
        t += "\"origin\" \"" + n2s((*e.origin)[0]) + " " + n2s((*e.origin)[1]) + " " + n2s((*e.origin)[2]) + "\"\n";
    for (auto &[k, v] : e.kv)
        t += "\"" + k + "\" \"" + v + "\"\n";
    return t + "}\n";
}
inline void load(const std::string &base, Lit &r)
{
    bspdata_t d;
    fs::path p = base + ".bsp";
    r.bytes = bm::slurp(base + ".bsp");
    LoadBSPFile(p, &d);
    ConvertBSPFormat(&d, &bspver_generic);
    r.bsp = std::move(std::get<mbsp_t>(d.bsp));
    r.bspx.clear();
    for (auto &[k, v] : d.bspx.entries)
        r.bspx[k] = v;
    r.lit.reset();
    r.lux.reset();
    if (std::filesystem::exists(base + ".lit"))
        r.lit = bm::slurp(base + ".lit");
    if (std::filesystem::exists(base + ".lux"))
        r.lux = bm::slurp(base + ".lux");
}
inline int run(const std::string &base, const std::vector<std::string> &args)
{
    std::vector<std::string> a{"light", "-quiet", "-nolog"};
    if (std::find(args.begin(), args.end(), "-threads") == args.end())
        a.insert(a.end(), {"-threads", "1"});
    a.insert(a.end(), args.begin(), args.end());
    a.push_back(base + ".bsp");
    logging::mask = bitflags<logging::flag>();
    struct Quiet
    {
        int saved;
        Quiet()
        {
            fflush(stdout);
            saved = dup(1);
            int n = open("/dev/null", O_WRONLY);
            dup2(n, 1);
            close(n);
        }
        ~Quiet()
        {
            fflush(stdout);
            dup2(saved, 1);
            close(saved);
        }
    } q;
    return light_main(a);
}
inline Lit light(const std::string &base, const std::vector<std::string> &args)
{
    run(base, args);
    Lit r;
    load(base, r);
    return r;
}

// ---- faces -----------------------------------------------------------------------------------
struct Face
{
    int num = 0, model = 0;
    V n{}; // outwards
    double d = 0;
    Poly pts;
    V s{}, t{};
    double so = 0, to = 0;
    int mins[2], size[2];
    bool sure = true; // the extents are not a matter of rounding
    std::string tex;
    int flags = 0, value = 0;
    bool lit = false;
    V offset{};
    // the point of a luxel, on the face
    double scale = 16;
    V at(double ls, double lt) const
    {
        // solve s.p = S, t.p = T, n.p = d
        double S = (mins[0] + ls) * scale - so, T = (mins[1] + lt) * scale - to;
        V a = cross(t, n), b = cross(n, s), c = cross(s, t);
        double det = dot(s, a);
        return (a * S + b * T + c * d) * (1 / det);
    }
};
inline void extents(Face &f, double scale)
{
    f.scale = scale;
    for (int k = 0; k < 2; ++k) {
        double lo = 1e18, hi = -1e18;
        for (auto &p : f.pts) {
            double v = k ? dot(f.t, p) + f.to : dot(f.s, p) + f.so;
            lo = std::min(lo, v);
            hi = std::max(hi, v);
        }
        lo /= scale;
        hi /= scale;
        double a = std::floor(lo), b = std::ceil(hi);
        if (std::fabs(lo - std::round(lo)) < 1e-4) {
            a = std::round(lo);
            f.sure = f.sure && lo == std::round(lo);
        }
        if (std::fabs(hi - std::round(hi)) < 1e-4) {
            b = std::round(hi);
            f.sure = f.sure && hi == std::round(hi);
        }
        f.mins[k] = (int)a;
        f.size[k] = (int)(b - a) + 1;
    }
}
inline std::vector<Face> faces(const mbsp_t &b, bool q2, double scale = 16)
{
    std::vector<Face> r;
    std::vector<int> model(b.dfaces.size(), 0);
    for (size_t m = 0; m < b.dmodels.size(); ++m)
        for (int i = 0; i < b.dmodels[m].numfaces; ++i)
            model[b.dmodels[m].firstface + i] = (int)m;
    for (size_t i = 0; i < b.dfaces.size(); ++i) {
        auto &f = b.dfaces[i];
        Face x;
        x.num = (int)i;
        x.model = model[i];
        auto &pl = b.dplanes[f.planenum];
        x.n = vec(pl.normal);
        x.d = pl.dist;
        if (f.side) {
            x.n = x.n * -1;
            x.d = -x.d;
        }
        for (int k = 0; k < f.numedges; ++k) {
            int e = b.dsurfedges[f.firstedge + k];
            x.pts.push_back(vec(b.dvertexes[e < 0 ? b.dedges[-e][1] : b.dedges[e][0]]));
        }
        auto &ti = b.texinfo[f.texinfo];
        x.s = {ti.vecs.at(0, 0), ti.vecs.at(0, 1), ti.vecs.at(0, 2)};
        x.t = {ti.vecs.at(1, 0), ti.vecs.at(1, 1), ti.vecs.at(1, 2)};
        x.so = ti.vecs.at(0, 3);
        x.to = ti.vecs.at(1, 3);
        x.flags = ti.flags.native;
        x.value = ti.value;
        x.tex = q2 ? std::string(ti.texture.data()) : (ti.miptex >= 0 && ti.miptex < (int)b.dtex.textures.size()) ? b.dtex.textures[ti.miptex].name : "";
        x.lit = q2 ? !(x.flags & (0x80 | 0x200)) : !(x.flags & 1);
        extents(x, scale);
        r.push_back(x);
    }
    return r;
}
// the luxels as the engine finds them
struct Maps
{
    const uint8_t *at = nullptr; // [style][t][s][rgb]
    int n = 0;
    int style[16];
    bool grey = false; // the three are the brightest of the colour
};

// ---- the world as light sees it -------------------------------------------------------------------
struct Blocks
{
    std::vector<const Body *> solid, sky;
    // 0 clear, 1 blocked, -1 cannot say
    int between(V a, V b, double g = 0.3) const
    {
        bool maybe = false;
        for (auto *v : {&solid, &sky})
            for (auto *x : *v) {
                if (hits(*x, a, b, -g))
                    return 1;
                maybe = maybe || hits(*x, a, b, g);
            }
        return maybe ? -1 : 0;
    }
    bool near(V p, double g) const
    {
        for (auto *v : {&solid, &sky})
            for (auto *x : *v)
                if (x->in(p, g))
                    return true;
        return false;
    }
    static bool enter(const Body &b, V p, V dir, double g, double &t)
    {
        double t0 = 0, t1 = 1e9;
        for (auto &pl : b.pl) {
            double x = pl.at(p) - g, v = dot(pl.n, dir);
            if (std::fabs(v) < 1e-12) {
                if (x > 0)
                    return false;
                continue;
            }
            double k = -x / v;
            if (v < 0)
                t0 = std::max(t0, k);
            else
                t1 = std::min(t1, k);
        }
        t = t0;
        return t0 <= t1;
    }
    // does the ray first meet the sky? 1 yes, 0 no, -1 cannot say
    int sees_sky(V p, V dir, double g = 0.3) const
    {
        // the first certain hit of each kind, and the first possible one
        double cs = 1e9, ms = 1e9, ck = 1e9, mk = 1e9, t;
        for (auto *x : solid) {
            if (enter(*x, p, dir, -g, t))
                cs = std::min(cs, t);
            if (enter(*x, p, dir, g, t))
                ms = std::min(ms, t);
        }
        for (auto *x : sky) {
            if (enter(*x, p, dir, -g, t))
                ck = std::min(ck, t);
            if (enter(*x, p, dir, g, t))
                mk = std::min(mk, t);
        }
        if (ck < 1e8 && ck + 2 < ms)
            return 1;
        if (cs < 1e8 && cs + 2 < mk)
            return 0;
        return -1;
    }
};
inline Blocks blocks_of(const Map &m)
{
    Blocks r;
    for (auto &b : m.brushes) {
        if (b.model)
            continue;
        if (b.kind == SKY)
            r.sky.push_back(&b.b);
        else if (b.kind <= ILLUS || b.kind == WINDOW || b.kind == AUX || b.kind == MIST)
            r.solid.push_back(&b.b);
    }
    return r;
}
inline double falloff(const World &w, const Light &l, double dist)
{
    if (l.falloff > 0 && l.formula == 0)
        return l.falloff > dist ? l.light * (1 - dist / l.falloff) : 0;
    if (l.formula == 3 || l.formula == 4)
        return l.light;
    double v = w.dist * l.wait * dist;
    switch (l.formula) {
        case 1: return l.light / (v / 128);
        case 5: v += 128;
        case 2: return l.light / (v * v / (128 * 128));
        default: return l.light > 0 ? std::max(0.0, l.light - v) : std::min(0.0, l.light + v);
    }
}
// before the shadows
inline V contribution(const World &w, const Light &l, V n, V p, bool twosided, bool &unsure)
{
    V to = l.at - p;
    double dist = len(to);
    if (dist < 0.2)
        unsure = true;
    to = to * (1 / dist);
    double a = dot(to, n);
    if (l.bleed || twosided)
        a = std::fabs(a);
    if (std::fabs(a) < 1e-4)
        unsure = true;
    if (a < 0)
        return {};
    a = 1 - l.anglescale + l.anglescale * a;
    double spot = 1;
    if (l.spot) {
        double f = dot(l.dir, to), f1 = -std::cos(l.cone / 2 * M_PI / 180), f2 = -std::cos(l.inner / 2 * M_PI / 180);
        if (std::fabs(f - f1) < 1e-4 || std::fabs(f - f2) < 1e-4)
            unsure = true;
        if (f > f1)
            return {};
        if (f > f2)
            spot = 1 - (f - f2) / (f1 - f2);
    }
    return l.color * (falloff(w, l, dist) * a * spot / 255);
}
inline double bright(V c) { return (c[0] + c[1] + c[2]) / 3; }
inline V finish(const World &w, V c)
{
    for (auto &x : c)
        x = std::max(x, 0.0);
    double m = std::max({c[0], c[1], c[2]});
    if (w.maxlight > 0 && m > w.maxlight * 2)
        c = c * (w.maxlight * 2 / m);
    c = c * w.range;
    if (w.gamma != 1)
        for (auto &x : c)
            x = std::pow(x / 255, 1 / w.gamma) * 255;
    m = std::max({c[0], c[1], c[2]});
    if (m > 255)
        c = c * (255 / m);
    return c;
}
// the light at a sample; nothing if it depends on hairs
struct Model
{
    World w;
    std::vector<Light> lights;
    std::vector<Sun> suns;
    Blocks walls;
    std::map<int, Blocks> of; // what casts shadows on a model, if it is not just the walls
    std::map<int, World> own; // the light keys of models
    const Blocks &blocks(int model) const { return of.count(model) ? of.at(model) : walls; }
    std::optional<std::map<int, V>> operator()(V p, V n, bool twosided, V facepoint, int model = 0) const
    {
        std::map<int, V> r;
        auto &walls = blocks(model);
        auto &w = own.count(model) ? own.at(model) : this->w;
        auto cast = [&](bool positive) {
            for (auto &l : lights) {
                if (l.formula == 4 || (l.light > 0) != positive || l.light == 0)
                    continue;
                if (!l.bleed && !twosided) {
                    double d = dot(n, l.at - facepoint); // lights behind the face
                    if (std::fabs(d) < 0.01)
                        return false;
                    if (d < 0)
                        continue;
                }
                bool unsure = false;
                V c = contribution(w, l, n, p, twosided, unsure);
                double b = std::fabs(bright(c));
                if (unsure)
                    return false;
                if (b <= w.gate * 0.99)
                    continue;
                if (b <= w.gate * 1.01)
                    return false;
                int v = walls.between(p, l.at);
                if (v < 0)
                    return false;
                if (v == 0)
                    r[l.style] = r[l.style] + c;
            }
            for (auto &l : suns) {
                if ((l.light > 0) != positive || l.light == 0)
                    continue;
                double a = dot(l.to, n);
                if (std::fabs(a) < 0.011 && !twosided) // grazing
                    return false;
                if (a < 0 && !twosided)
                    continue;
                a = 1 - l.anglescale + l.anglescale * std::fabs(a);
                V c = l.color * (a * l.light / 255);
                double b = std::fabs(bright(c));
                if (b <= w.gate * 0.99)
                    continue;
                if (b <= w.gate * 1.01)
                    return false;
                int v = walls.sees_sky(p, l.to);
                if (v < 0)
                    return false;
                if (v)
                    r[l.style] = r[l.style] + c;
            }
            return true;
        };
        if (!cast(true))
            return {};
        for (auto &l : lights)
            if (l.formula == 4) {
                V &c = r[l.style];
                if (!w.addmin) {
                    if (std::fabs(bright(c) - l.light) < 0.02)
                        return {};
                    if (bright(c) > l.light)
                        continue;
                }
                int v = walls.between(p, l.at);
                if (v < 0)
                    return {};
                if (v)
                    continue;
                V k = l.color * (l.light / 255);
                if (w.addmin)
                    c = c + k;
                else
                    for (int i = 0; i < 3; ++i)
                        c[i] = std::max(c[i], k[i]);
            }
        if (w.minlight) {
            V k = w.mincolor * (w.minlight / 255);
            V &c = r[0];
            if (w.addmin)
                c = c + k;
            else
                for (int i = 0; i < 3; ++i)
                    c[i] = std::max(c[i], k[i]);
        }
        if (!cast(false))
            return {};
        for (auto &[k, v] : r)
            v = finish(w, v);
        return r;
    }
};
}
