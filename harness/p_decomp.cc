// C18: decompiling gives back the solids, their contents and their textures
#include "bspmodel.hh"
#include <common/bsputils.hh>
#include <common/decompile.hh>
#include <common/fs.hh>
#include <common/log.hh>
#include <fstream>
#include <memory>
using vh::Case;
using vh::cat;
using vh::Src;
using V = std::array<double, 3>;

static V operator+(V a, V b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V operator-(V a, V b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V operator*(V a, double f) { return {a[0] * f, a[1] * f, a[2] * f}; }
static double dot(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V cross(V a, V b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static V unit(V a) { return a * (1 / std::sqrt(dot(a, a))); }
static std::string str(V a) { return cat("(", a[0], " ", a[1], " ", a[2], ")"); }
struct Plane
{
    V n;
    double d;
    double at(V p) const { return dot(n, p) - d; }
    Plane operator-() const { return {n * -1, -d}; }
};
using Poly = std::vector<V>;
static Poly cut(const Poly &p, const Plane &pl) // the part behind
{
    Poly r;
    for (size_t i = 0; i < p.size(); ++i) {
        V a = p[i], b = p[(i + 1) % p.size()];
        double x = pl.at(a), y = pl.at(b);
        if (std::fabs(x) < 1e-7)
            x = 0;
        if (std::fabs(y) < 1e-7)
            y = 0;
        if (x <= 0)
            r.push_back(a);
        if ((x < 0 && y > 0) || (x > 0 && y < 0))
            r.push_back(a + (b - a) * (x / (x - y)));
    }
    return r.size() >= 3 ? r : Poly{};
}
static double area(const Poly &p)
{
    V a{};
    for (size_t i = 1; i + 1 < p.size(); ++i)
        a = a + cross(p[i] - p[0], p[i + 1] - p[0]);
    return std::sqrt(dot(a, a)) / 2;
}
static double width(const Poly &p) // about
{
    double len = 1e-9;
    for (size_t k = 0; k < p.size(); ++k) {
        V d = p[(k + 1) % p.size()] - p[k];
        len = std::max(len, dot(d, d));
    }
    return area(p) / std::sqrt(len);
}
static V mid(const Poly &p)
{
    V r{};
    for (auto &q : p)
        r = r + q * (1.0 / p.size());
    return r;
}
// a big polygon on a plane, clockwise seen from its front
static Poly base(const Plane &p)
{
    int k = std::fabs(p.n[2]) > 0.5 ? 0 : 2;
    V up{};
    up[k] = 1;
    V u = unit(cross(up, p.n)), v = cross(p.n, u);
    V o = p.n * p.d;
    double L = 8192;
    return {o - u * L - v * L, o - u * L + v * L, o + u * L + v * L, o + u * L - v * L};
}
// a convex body by its outward planes
struct Body
{
    std::vector<Plane> pl;
    std::vector<Poly> faces() const
    {
        std::vector<Poly> r;
        for (auto &p : pl) {
            Poly w = base(p);
            for (auto &q : pl)
                if (&q != &p && !w.empty())
                    w = cut(w, q);
            r.push_back(w);
        }
        return r;
    }
    bool in(V p, double eps) const
    {
        for (auto &q : pl)
            if (q.at(p) > eps)
                return false;
        return true;
    }
};
static Plane gen_plane(Src &s, V through, bool axial)
{
    Plane p{};
    if (axial || s.chance(2, 3)) {
        p.n[s.draw(3)] = 1;
    } else {
        static const int N[][3] = {{1, 1, 0}, {1, -1, 0}, {0, 1, 1}, {1, 0, -1}, {1, 1, 1}, {3, 4, 0}, {-2, 1, 2}, {1, 2, 0}};
        auto *n = N[s.draw(8)];
        p.n = unit(V{(double)n[0], (double)n[1], (double)n[2]});
    }
    p.d = dot(p.n, through);
    if (dot(p.n, p.n) == 1 && (p.n[0] == 1 || p.n[1] == 1 || p.n[2] == 1))
        p.d = std::round(p.d);
    p.d = (float)p.d;
    for (auto &x : p.n)
        x = (float)x;
    return p;
}

// ---- maps -------------------------------------------------------------------------------
struct Leaf
{
    Body b;
    int contents;
    int num;
};
struct Face
{
    Poly w;
    V n;
    int texinfo;
    int model;
    bool inner; // looks into what is filled
};
struct Ent
{
    std::vector<std::pair<std::string, std::string>> kv;
    int model = -1;
    bool group = false;
    int areaportal = -1; // brush number
    V origin{};
    bool moved = false;
};
struct World
{
    mbsp_t m{};
    bool q2 = false;
    std::vector<std::vector<Leaf>> leafs; // per model
    std::vector<std::vector<Leaf>> clip;
    std::vector<Face> faces;
    std::vector<Ent> ents;
    std::vector<std::string> names; // texture by texinfo
};
static int add_plane(World &w, const Plane &p)
{
    for (size_t i = 0; i < w.m.dplanes.size(); ++i)
        if (w.m.dplanes[i].normal == qvec3f((float)p.n[0], (float)p.n[1], (float)p.n[2]) && w.m.dplanes[i].dist == (float)p.d)
            return (int)i;
    dplane_t d{};
    for (int k = 0; k < 3; ++k)
        d.normal[k] = (float)p.n[k];
    d.dist = (float)p.d;
    d.type = 3;
    for (int k = 0; k < 3; ++k)
        if (d.normal[k] == 1)
            d.type = k;
    w.m.dplanes.push_back(d);
    return (int)w.m.dplanes.size() - 1;
}
static int strength(int c) { return c == -2 ? 5 : c == -6 ? 4 : c == -1 ? 0 : -c - 2; } // water 1, slime 2, lava 3
// splits a body, returns false if a side would be thin
static bool halves(const Body &b, const Plane &p, Body &front, Body &back)
{
    double lo = 1e9, hi = -1e9;
    for (auto &f : b.faces())
        for (auto &q : f) {
            lo = std::min(lo, p.at(q));
            hi = std::max(hi, p.at(q));
        }
    if (lo > -16 || hi < 16)
        return false;
    front = back = b;
    front.pl.push_back(-p);
    back.pl.push_back(p);
    return true;
}
static V inside(Src &s, const Body &b)
{
    V r{};
    double t = 0;
    for (auto &f : b.faces())
        for (auto &q : f) {
            double k = 0.01 + (double)s.draw(1000) / 1000;
            r = r + q * k;
            t += k;
        }
    return r * (1 / t);
}
static int grow(Case &c, World &w, int model, const Body &b, int depth, bool axial, bool root, int &firstface_end)
{
    Src &s = c.s;
    Plane p{};
    Body f, k;
    bool ok = false;
    if (depth > 0 && (root || !s.chance(1, 6)))
        for (int t = 0; t < 4 && !ok; ++t) {
            p = gen_plane(s, inside(s, b), axial);
            ok = halves(b, p, f, k);
        }
    if (!ok) {
        if (root) {
            p = gen_plane(s, mid(b.faces()[0]) * 0.5 + mid(b.faces()[1]) * 0.5, true);
            p.n = {1, 0, 0};
            p.d = std::round(dot(p.n, mid({b.faces()[0][0], b.faces()[1][0]})));
            if (!halves(b, p, f, k))
                throw vh::Discard{};
        } else {
            mleaf_t l{};
            static const int C[] = {-1, -2, -2, -1, -3, -6, -4, -5};
            l.contents = C[s.draw(8)];
            l.visofs = -1;
            Leaf me{b, l.contents, -1};
            if (l.contents == -2 && s.b())
                me.num = 0; // they share the first
            else {
                me.num = (int)w.m.dleafs.size();
                w.m.dleafs.push_back(l);
            }
            w.leafs[model].push_back(me);
            return -1 - me.num;
        }
    }
    int n = (int)w.m.dnodes.size();
    w.m.dnodes.push_back({});
    w.m.dnodes[n].planenum = add_plane(w, p);
    size_t l0 = w.leafs[model].size();
    int a = grow(c, w, model, f, depth - 1, axial, false, firstface_end);
    size_t l1 = w.leafs[model].size();
    int d = grow(c, w, model, k, depth - 1, axial, false, firstface_end);
    size_t l2 = w.leafs[model].size();
    w.m.dnodes[n].children = {a, d};
    // the faces on this node lie between a leaf in front and one behind
    w.m.dnodes[n].firstface = (uint32_t)w.m.dfaces.size();
    for (size_t i = l0; i < l1; ++i)
        for (size_t j = l1; j < l2; ++j) {
            auto &x = w.leafs[model][i], &y = w.leafs[model][j];
            if (x.contents == y.contents)
                continue;
            Poly q = base(p);
            for (auto *z : {&x, &y})
                for (auto &pl : z->b.pl) {
                    if (q.empty() || (std::fabs(dot(pl.n, p.n)) > 1 - 1e-9 && std::fabs(pl.d - p.d * (dot(pl.n, p.n) > 0 ? 1 : -1)) < 1e-6))
                        continue;
                    q = cut(q, pl);
                }
            if (q.empty() || area(q) < 1)
                continue;
            std::vector<Poly> parts{q};
            if (s.chance(1, 3)) {
                // cut once more across
                Plane e = gen_plane(s, mid(q), true);
                if (std::fabs(dot(e.n, p.n)) < 0.5) {
                    Poly u = cut(q, e), v = cut(q, -e);
                    if (!u.empty() && !v.empty() && area(u) > 64 && area(v) > 64)
                        parts = {u, v};
                }
            }
            bool front = strength(x.contents) < strength(y.contents); // visible from the front
            int high = front ? y.contents : x.contents;
            bool two = high != -2 && high != -6 && (front ? x : y).contents == -1 && s.b();
            for (auto &part : parts)
                for (int side = 0; side < (two ? 2 : 1); ++side) {
                    bool fr = front != (side == 1);
                    if (s.chance(1, 8))
                        continue; // the compiler may leave faces out
                    mface_t face{};
                    face.planenum = w.m.dnodes[n].planenum;
                    face.side = !fr;
                    face.lightofs = -1;
                    face.styles.fill(255);
                    face.firstedge = (int)w.m.dsurfedges.size();
                    face.numedges = (int)part.size();
                    Poly o = part;
                    if (!fr)
                        std::reverse(o.begin(), o.end());
                    int v0 = (int)w.m.dvertexes.size();
                    for (size_t t = 0; t < o.size(); ++t) {
                        w.m.dvertexes.push_back(qvec3f((float)o[t][0], (float)o[t][1], (float)o[t][2]));
                        w.m.dedges.push_back({(uint32_t)(v0 + t), (uint32_t)(v0 + (t + 1) % o.size())});
                        w.m.dsurfedges.push_back((int)w.m.dedges.size() - 1);
                    }
                    // a texture that goes with the contents
                    int kind = high == -2 ? 0 : high == -6 ? 1 : high == -3 ? 2 : high == -4 ? 3 : 4;
                    face.texinfo = kind * 3 + (int)s.draw(3);
                    w.faces.push_back({part, p.n * (fr ? 1 : -1), face.texinfo, model, side == 1});
                    w.m.dfaces.push_back(face);
                }
        }
    w.m.dnodes[n].numfaces = (uint32_t)w.m.dfaces.size() - w.m.dnodes[n].firstface;
    return n;
}
static int grow_clip(Case &c, World &w, int model, const Body &b, int depth, bool root)
{
    Src &s = c.s;
    Plane p{};
    Body f, k;
    bool ok = false;
    if (depth > 0 && (root || !s.chance(1, 5)))
        for (int t = 0; t < 8 && !ok; ++t) {
            p = gen_plane(s, inside(s, b), false);
            ok = halves(b, p, f, k);
        }
    if (!ok) {
        if (root)
            throw vh::Discard{};
        int cont = s.pick<int>({-1, -2, -2});
        w.clip[model].push_back({b, cont, -1});
        return cont;
    }
    int n = (int)w.m.dclipnodes.size();
    w.m.dclipnodes.push_back({});
    w.m.dclipnodes[n].planenum = add_plane(w, p);
    int a = grow_clip(c, w, model, f, depth - 1, false);
    int d = grow_clip(c, w, model, k, depth - 1, false);
    w.m.dclipnodes[n].children = {a, d};
    return n;
}
static Body box(V lo, V hi)
{
    Body b;
    for (int k = 0; k < 3; ++k) {
        V n{};
        n[k] = 1;
        b.pl.push_back({n, hi[k]});
        b.pl.push_back({n * -1, -lo[k]});
    }
    return b;
}
static void texinfos(Case &c, World &w)
{
    Src &s = c.s;
    static const char *N[] = {"wall", "sky", "*water", "*slime", "*lava"};
    for (int i = 0; i < 15; ++i) {
        std::string n = cat(N[i / 3], i % 3);
        w.names.push_back(n);
        mtexinfo_t t{};
        t.nexttexinfo = -1;
        for (int r = 0; r < 2; ++r)
            t.vecs.set_row(r, qvec4f((float)s.ito(-8, 8, 1) / 4, (float)s.ito(-8, 8, 1 - r) / 4, (float)s.ito(-8, 8, r) / 4, (float)s.ito(-100, 100, 0)));
        for (int r = 0; r < 2; ++r)
            if (t.vecs.at(r, 0) == 0 && t.vecs.at(r, 1) == 0 && t.vecs.at(r, 2) == 0)
                t.vecs.at(r, r) = 1;
        t.miptex = i;
        miptex_t m;
        m.name = n;
        m.width = m.height = 16;
        w.m.dtex.textures.push_back(m);
        w.m.texinfo.push_back(t);
    }
}
static std::string fnum(double d) { return cat((float)d); }
static void entities(Case &c, World &w, int models)
{
    Src &s = c.s;
    static const char *CN[] = {"func_wall", "trigger_multiple", "func_door", "trigger_", "func_trigger_"};
    int ne = models + (int)s.draw(3);
    int next = 1;
    for (int i = 0; i < ne; ++i) {
        Ent e;
        std::string cls = i ? (next < models && (s.b() || ne - i <= models - next)) ? CN[s.draw(5)] : "light" : "worldspawn";
        bool brush = i && cls != "light";
        e.kv.push_back({"classname", cls});
        int nk = (int)s.draw(3);
        for (int k = 0; k < nk; ++k)
            e.kv.push_back({s.pick<const char *>({"message", "target", "angle", "_k"}) + std::to_string(k), s.pick<const char *>({"hello", "", "1 2 3", "a b"})});
        if (brush) {
            e.model = next++;
            e.kv.insert(e.kv.begin() + s.draw(e.kv.size() + 1), {"model", cat("*", e.model)});
        } else if (!i)
            e.model = 0;
        if (i && s.b()) {
            V o{(double)s.ito(-100, 100, 0), (double)s.ito(-100, 100, 0), (double)s.ito(-100, 100, 0)};
            if (s.chance(1, 4))
                o = {};
            if (s.b())
                o[0] += 0.5;
            e.origin = o;
            e.moved = brush && (o[0] || o[1] || o[2]);
            e.kv.insert(e.kv.begin() + s.draw(e.kv.size() + 1), {"origin", fnum(o[0]) + " " + fnum(o[1]) + " " + fnum(o[2])});
        }
        w.ents.push_back(e);
    }
    if (s.chance(1, 4)) {
        Ent e;
        e.group = true;
        e.kv = {{"classname", "func_group"}};
        w.ents.insert(w.ents.begin() + 1 + s.draw(w.ents.size()), e);
    }
}
static void set_entdata(World &w)
{
    w.m.dentdata.clear();
    for (auto &e : w.ents) {
        w.m.dentdata += "{\n";
        for (auto &[k, v] : e.kv)
            w.m.dentdata += "\"" + k + "\" \"" + v + "\"\n";
        w.m.dentdata += "}\n";
    }
}

// ---- the decompiled map --------------------------------------------------------------------
struct Side
{
    V pt[3];
    Plane pl;
    std::string tex;
    double ax[2][3], sh[2], sc[2], rot;
    bool ext = false;
    int contents = 0, flags = 0, value = 0;
};
struct Brush
{
    std::vector<Side> sides;
    int source = -1;
    bool in(V p, double eps) const
    {
        for (auto &s : sides)
            if (s.pl.at(p) > eps)
                return false;
        return true;
    }
};
struct OutEnt
{
    std::vector<std::pair<std::string, std::string>> kv;
    std::vector<Brush> brushes;
};
static std::vector<OutEnt> parse(Case &c, const std::string &path)
{
    auto b = bm::slurp(path);
    std::istringstream is(std::string(b.begin(), b.end()));
    std::vector<OutEnt> r;
    std::string line;
    int depth = 0, src = -1;
    while (std::getline(is, line)) {
        if (line == "{") {
            ++depth;
            if (depth == 1)
                r.emplace_back();
            else {
                r.back().brushes.emplace_back();
                r.back().brushes.back().source = src;
                src = -1;
            }
        } else if (line == "}")
            --depth;
        else if (line.compare(0, 24, "// generated from brush #") == 0 || line.compare(0, 2, "//") == 0) {
            auto k = line.find('#');
            if (k != std::string::npos)
                src = atoi(line.c_str() + k + 1);
        } else if (line.empty())
            ;
        else if (line[0] == '"') {
            std::vector<size_t> q;
            for (size_t i = 0; i < line.size(); ++i)
                if (line[i] == '"')
                    q.push_back(i);
            c.require(depth == 1 && q.size() == 4, "syntax", line);
            r.back().kv.push_back({line.substr(1, q[1] - 1), line.substr(q[2] + 1, q[3] - q[2] - 1)});
        } else {
            Side s;
            char t[256];
            int used = 0;
            auto &p = s.pt;
            int n = sscanf(line.c_str(), "( %lf %lf %lf ) ( %lf %lf %lf ) ( %lf %lf %lf ) %255s [ %lf %lf %lf %lf ] [ %lf %lf %lf %lf ] %lf %lf %lf%n", &p[0][0], &p[0][1], &p[0][2], &p[1][0],
                &p[1][1], &p[1][2], &p[2][0], &p[2][1], &p[2][2], t, &s.ax[0][0], &s.ax[0][1], &s.ax[0][2], &s.sh[0], &s.ax[1][0], &s.ax[1][1], &s.ax[1][2], &s.sh[1], &s.rot, &s.sc[0],
                &s.sc[1], &used);
            c.require(n == 21 && depth == 2, "syntax", cat("a side reads ", line));
            s.tex = t;
            n = sscanf(line.c_str() + used, "%d %d %d", &s.contents, &s.flags, &s.value);
            c.require(n <= 0 || n == 3, "syntax", cat("a side reads ", line));
            s.ext = n == 3;
            V nn = cross(p[0] - p[1], p[2] - p[1]);
            c.require(dot(nn, nn) > 0, "syntax", cat("a side has no plane: ", line));
            s.pl.n = unit(nn);
            s.pl.d = dot(s.pl.n, p[1]);
            r.back().brushes.back().sides.push_back(s);
        }
    }
    c.require(depth == 0, "syntax", "braces do not match");
    return r;
}
static std::vector<OutEnt> run(Case &c, World &w, const decomp_options &o)
{
    set_entdata(w);
    std::string path = c.scratch + "/out.map";
    {
        std::ofstream f(path);
        DecompileBSP(&w.m, o, f);
    }
    if (getenv("VHDUMP"))
        std::filesystem::copy_file(path, getenv("VHDUMP"), std::filesystem::copy_options::overwrite_existing);
    return parse(c, path);
}
static V world_coord(const mtexinfo_t &t, V p)
{
    V r{};
    for (int k = 0; k < 2; ++k)
        r[k] = p[0] * t.vecs.at(k, 0) + p[1] * t.vecs.at(k, 1) + p[2] * t.vecs.at(k, 2) + t.vecs.at(k, 3);
    return r;
}
static V side_coord(const Side &s, V p)
{
    V r{};
    for (int k = 0; k < 2; ++k)
        r[k] = (p[0] * s.ax[k][0] + p[1] * s.ax[k][1] + p[2] * s.ax[k][2]) / s.sc[k] + s.sh[k];
    return r;
}
// checks the entities and takes the origin brush out
static std::map<int, std::vector<Brush>> ent_check(Case &c, World &w, std::vector<OutEnt> &out, bool hull)
{
    std::map<int, std::vector<Brush>> r;
    size_t at = 0;
    for (auto &e : w.ents) {
        if (e.group)
            continue;
        c.require(at < out.size(), "entities", cat("there are ", out.size(), " entities"));
        auto &o = out[at++];
        std::vector<std::pair<std::string, std::string>> want;
        for (auto &kv : e.kv)
            if (!(kv.first == "model") && !(kv.first == "origin" && e.model > 0) && !(kv.first == "style" && e.areaportal >= 0))
                want.push_back(kv);
        std::string a, b;
        for (auto &kv : want)
            a += kv.first + "=" + kv.second + " ";
        for (auto &kv : o.kv)
            b += kv.first + "=" + kv.second + " ";
        c.require(a == b, "keys", cat("entity ", at - 1, " has the keys ", b, " not ", a));
        std::vector<Brush> br;
        int origins = 0;
        for (auto &q : o.brushes) {
            std::string ot = w.q2 ? "e1u1/origin" : "origin";
            if (!q.sides.empty() && q.sides[0].tex == ot) {
                ++origins;
                for (auto &s : q.sides) {
                    int ax = std::fabs(s.pl.n[0]) > 0.5 ? 0 : std::fabs(s.pl.n[1]) > 0.5 ? 1 : 2;
                    c.require(s.tex == ot && std::fabs(s.pl.d - (e.origin[ax] * s.pl.n[ax] + 8)) < 1e-6 && q.sides.size() == 6, "origin", cat("the origin brush's plane ", str(s.pl.n), " ", s.pl.d, " for ", str(e.origin)));
                    c.require(!w.q2 || (s.ext && s.contents == 1 << 24), "origin", "the origin brush's contents");
                }
            } else
                br.push_back(q);
        }
        c.require(origins == (e.moved ? 1 : 0), "origin", cat("entity ", at - 1, " has ", origins, " origin brushes for the origin ", str(e.origin)));
        if (e.model < 0 && e.areaportal < 0)
            c.require(br.empty(), "brushes", "a point entity has brushes");
        if (e.moved)
            for (auto &q : br)
                for (auto &s : q.sides) {
                    s.pl.d -= dot(s.pl.n, e.origin);
                    for (int k = 0; k < 2; ++k)
                        s.sh[k] += (e.origin[0] * s.ax[k][0] + e.origin[1] * s.ax[k][1] + e.origin[2] * s.ax[k][2]) / s.sc[k];
                }
        r[e.model >= 0 ? e.model : e.areaportal >= 0 ? 1000 + e.areaportal : -1] = br;
        (void)hull;
    }
    c.require(at == out.size(), "entities", cat("there are ", out.size(), " entities, not ", at));
    return r;
}
static const char *contents_name(int c) { return c == -1 ? "empty" : c == -2 ? "solid" : c == -3 ? "water" : c == -4 ? "slime" : c == -5 ? "lava" : "sky"; }
static int by_texture(const std::string &t)
{
    return t.compare(0, 3, "sky") == 0 ? -6 : t.compare(0, 6, "*water") == 0 ? -3 : t.compare(0, 6, "*slime") == 0 ? -4 : t.compare(0, 5, "*lava") == 0 ? -5 : -2;
}
static void q1_world(Case &c, World &w, bool wantclip)
{
    Src &s = c.s;
    w.m.loadversion = s.pick<const bspversion_t *>({&bspver_q1, &bspver_bsp2, &bspver_h2, &bspver_hl});
    w.m.dleafs.push_back({});
    w.m.dleafs[0].contents = -2;
    w.m.dedges.push_back({0, 0});
    texinfos(c, w);
    int models = (int)s.i(1, 3);
    w.leafs.resize(models);
    w.clip.resize(models);
    int depth = (int)s.i(1, 5);
    bool axial = s.b();
    for (int i = 0; i < models; ++i) {
        V lo{(double)s.i(-256, -64), (double)s.i(-256, -64), (double)s.i(-256, -64)}, hi{(double)s.i(64, 256), (double)s.i(64, 256), (double)s.i(64, 256)};
        Body b = box(lo, hi);
        int fe = 0;
        dmodelh2_t d{};
        d.headnode[0] = grow(c, w, i, b, depth, axial, true, fe);
        auto &n = w.m.dnodes[d.headnode[0]];
        n.mins = qvec3f((float)lo[0], (float)lo[1], (float)lo[2]);
        n.maxs = qvec3f((float)hi[0], (float)hi[1], (float)hi[2]);
        d.mins = n.mins;
        d.maxs = n.maxs;
        if (wantclip)
            for (int h = 1; h < 3; ++h) {
                w.clip[i].clear();
                d.headnode[h] = grow_clip(c, w, i, b, depth, true);
            }
        w.m.dmodels.push_back(d);
    }
    // what is thinner than the decompiler's tolerance (0.1) may be lost
    for (auto &ls : w.leafs)
        for (auto &l : ls)
            for (auto &f : l.b.faces()) {
                if (!f.empty() && width(f) < 0.5)
                    throw vh::Discard{};
            }
    for (auto &f : w.faces)
        if (width(f.w) < 0.5)
            throw vh::Discard{};
    entities(c, w, models);
    size_t n = 0;
    for (auto &l : w.leafs)
        for (auto &x : l)
            n += x.contents != -1;
    c.nt(n >= 3);
    c.describe(cat(models, " models, ", n, " filled leafs, ", w.faces.size(), " faces ", axial ? "axial " : "", w.m.loadversion->name));
}
static double margin(const std::vector<Leaf> &ls, V p)
{
    double m = 1e9;
    for (auto &l : ls)
        for (auto &q : l.b.pl)
            m = std::min(m, std::fabs(q.at(p)));
    return m;
}
static void solids(Case &c, const std::vector<Leaf> &ls, const std::vector<Brush> &br, int model, bool textures)
{
    for (int t = 0; t < 60; ++t) {
        auto &l = ls[c.s.draw(ls.size())];
        V p = inside(c.s, l.b);
        if (margin(ls, p) < 0.05)
            continue;
        if (getenv("VHDUMP")) {
            fprintf(stderr, "point %s contents %d planes", str(p).c_str(), l.contents);
            for (auto &q : l.b.pl)
                fprintf(stderr, " %s:%g", str(q.n).c_str(), q.d);
            fprintf(stderr, "\n");
        }
        bool edge = false;
        for (auto &b : br)
            for (auto &q : b.sides)
                edge = edge || std::fabs(q.pl.at(p)) < 0.01;
        if (edge)
            continue;
        std::string in;
        int n = 0, cont = -1;
        bool strange = false;
        for (auto &b : br)
            if (b.in(p, 0)) {
                ++n;
                for (auto &s : b.sides) {
                    if (by_texture(s.tex) != by_texture(b.sides[0].tex))
                        strange = true;
                    in += s.tex + " ";
                }
                cont = by_texture(b.sides[0].tex);
            }
        c.require(n == (l.contents == -1 ? 0 : 1), "solids", cat("model ", model, ": ", str(p), " lies in ", contents_name(l.contents), " and in ", n, " brushes ", in));
        if (n && textures)
            c.require(!strange && cont == l.contents, "contents", cat("model ", model, ": ", str(p), " lies in ", contents_name(l.contents), " and in a brush textured ", in));
    }
}
static void quake(Case &c)
{
    World w;
    q1_world(c, w, false);
    decomp_options o;
    o.geometryOnly = c.s.chance(1, 4);
    auto out = run(c, w, o);
    auto br = ent_check(c, w, out, false);
    if (getenv("VHDUMP")) {
        for (auto &f : w.faces) {
            fprintf(stderr, "face n %s tex %d:", str(f.n).c_str(), f.texinfo);
            for (auto &p : f.w)
                fprintf(stderr, " %s", str(p).c_str());
            fprintf(stderr, "\n");
        }
    }
    for (size_t i = 0; i < w.leafs.size(); ++i) {
        if (!br.count((int)i))
            continue;
        bool trigger = false;
        for (auto &e : w.ents)
            trigger = trigger || (e.model == (int)i && i && e.kv.end() != std::find_if(e.kv.begin(), e.kv.end(), [](auto &kv) { return kv.first == "classname" && kv.second.compare(0, 8, "trigger_") == 0; }));
        solids(c, w.leafs[i], br[(int)i], (int)i, !o.geometryOnly && !trigger);
        if (trigger)
            for (auto &b : br[(int)i])
                for (auto &s : b.sides)
                    c.require(s.tex == "trigger", "trigger", cat("a trigger's side is textured ", s.tex));
        if (o.geometryOnly || trigger)
            continue;
        for (auto &f : w.faces) {
            if (f.model != (int)i || f.inner || area(f.w) < 64)
                continue;
            // a point of the face, inside the brush that has it
            Poly k = f.w;
            V at{};
            double t = 0;
            for (auto &q : k) {
                double x = 0.2 + (double)c.s.draw(100) / 100;
                at = at + q * x;
                t += x;
            }
            at = at * (1 / t);
            V p = at - f.n * 0.2;
            bool close = false;
            for (auto &l : w.leafs[i])
                for (auto &q : l.b.pl)
                    close = close || (std::fabs(q.at(p)) < 0.1 && std::fabs(dot(q.n, f.n)) < 0.9999);
            for (auto &g : w.faces) // another face's edge
                if (g.model == f.model)
                    for (size_t e = 0; e < g.w.size(); ++e) { // leafs are split there
                        V x = cross(g.w[(e + 1) % g.w.size()] - g.w[e], g.n);
                        close = close || std::fabs(dot(p - g.w[e], x)) / std::sqrt(dot(x, x)) < 0.3;
                    }
            if (close)
                continue;
            int n = 0, sides = 0;
            for (auto &b : br[(int)i])
                if (b.in(p, 0)) {
                    ++n;
                    for (auto &s : b.sides)
                        if (dot(s.pl.n, f.n) > 0.99999 && std::fabs(s.pl.at(at)) < 0.05) {
                            ++sides;
                            auto &ti = w.m.texinfo[f.texinfo];
                            V x = world_coord(ti, at), y = side_coord(s, at);
                            c.require(s.tex == w.names[f.texinfo], "texture", cat("the face at ", str(at), " facing ", str(f.n), " is textured ", s.tex, ", not ", w.names[f.texinfo]));
                            c.require(std::fabs(x[0] - y[0]) < 0.02 && std::fabs(x[1] - y[1]) < 0.02, "alignment", cat("the texture ", s.tex, " at ", str(at), " is at ", y[0], ",", y[1], ", not ", x[0], ",", x[1]));
                        }
                }
            c.require(n == 1 && sides == 1, "texture", cat("the face at ", str(at), " facing ", str(f.n), " belongs to ", n, " brushes with ", sides, " sides"));
        }
    }
}
static void hull(Case &c)
{
    World w;
    q1_world(c, w, true);
    decomp_options o;
    o.hullnum = 2;
    auto out = run(c, w, o);
    auto br = ent_check(c, w, out, true);
    for (size_t i = 0; i < w.leafs.size(); ++i)
        if (br.count((int)i))
            solids(c, w.clip[i], br[(int)i], (int)i, false);
    // and the pictures of leafs
    for (size_t i = 0; i < w.leafs.size(); ++i)
        for (int h : {0, 2}) {
            auto v = VisualizeLeafs(w.m, (int)i, h);
            auto &ls = h ? w.clip[i] : w.leafs[i];
            size_t n = 0;
            double vol = 0, got = 0;
            std::map<uint64_t, double> per, gper;
            double room = 1; // corners may be cut off by a tenth of an unit
            auto add = [&](double &x, const std::vector<Poly> &f) {
                V o{};
                for (auto &p : f)
                    if (!p.empty())
                        o = p[0];
                for (auto &p : f) {
                    for (size_t k = 1; k + 1 < p.size(); ++k)
                        x += dot(p[0] - o, cross(p[k] - o, p[k + 1] - o)) / 6;
                    room += p.empty() ? 0 : 0.02 * area(p);
                }
            };
            for (auto &l : ls)
                if (l.contents != -1) {
                    ++n;
                    double x = 0;
                    add(x, l.b.faces());
                    vol += std::fabs(x);
                    per[w.m.loadversion->game->create_contents_from_native(l.contents).flags] += std::fabs(x);
                }
            if (getenv("VHDUMP")) {
                for (auto &l : ls)
                    for (auto &q : l.b.faces()) {
                        fprintf(stderr, "leaf %d:", l.contents);
                        for (auto &p : q)
                            fprintf(stderr, " %s", str(p).c_str());
                        fprintf(stderr, "\n");
                    }
                for (auto &l : v)
                    for (auto &q : l.windings) {
                        fprintf(stderr, "shown:");
                        for (auto &p : q)
                            fprintf(stderr, " (%.17g %.17g %.17g)", p[0], p[1], p[2]);
                        fprintf(stderr, "\n");
                    }
            }
            c.require(v.size() == n, "leafs", cat("hull ", h, " shows ", v.size(), " of ", n, " leafs"));
            for (auto &l : v) {
                std::vector<Poly> f;
                for (auto &q : l.windings) {
                    Poly p;
                    for (auto &k : q)
                        p.push_back({k[0], k[1], k[2]});
                    f.push_back(p);
                }
                double x = 0;
                add(x, f);
                got += std::fabs(x);
                gper[l.contents.flags] += std::fabs(x);
            }
            c.require(std::fabs(got - vol) < 5e-3 * vol + room, "volume", cat("hull ", h, " shows a volume of ", got, ", not ", vol));
            for (auto &[k, x] : per)
                c.require(std::fabs(gper[k] - x) < 5e-3 * x + room, "volume", cat("hull ", h, " shows a volume of ", gper[k], " for contents ", k, ", not ", x));
        }
}

// ---- Quake II -----------------------------------------------------------------------------
static uint64_t serial;
static void quake2(Case &c)
{
    Src &s = c.s;
    World w;
    w.q2 = true;
    w.m.loadversion = s.pick<const bspversion_t *>({&bspver_q2, &bspver_qbism});
    w.m.dedges.push_back({0, 0});
    fs::clear();
    fs::addArchive(c.scratch);
    std::filesystem::create_directories(c.scratch + "/textures");
    // names are never used twice in a process: what is known of a texture is kept
    uint64_t id = s.draw(1ull << 40) * 1000 + (uint64_t)getpid() % 1000 + (serial += 1ull << 52);
    struct Wal
    {
        int flags, contents, value;
        bool there;
    };
    std::vector<Wal> wal;
    static const int CT[] = {1, 1, 2, 8, 16, 32, 64, 1 | 1 << 27, 1 << 16, 1 << 17, 3 << 16, 0, 1 << 15, 4};
    int ntex = (int)s.i(1, 5);
    for (int i = 0; i < ntex; ++i) {
        mtexinfo_t t{};
        t.nexttexinfo = -1;
        t.flags.native = s.chance(1, 2) ? 0 : (int)s.draw(512);
        t.value = s.chance(1, 2) ? 0 : (int)s.draw(1000);
        for (int r = 0; r < 2; ++r)
            t.vecs.set_row(r, qvec4f((float)s.ito(-8, 8, 1) / 4, (float)s.ito(-8, 8, 1 - r) / 4, (float)s.ito(-8, 8, r) / 4, (float)s.ito(-100, 100, 0)));
        for (int r = 0; r < 2; ++r)
            if (t.vecs.at(r, 0) == 0 && t.vecs.at(r, 1) == 0 && t.vecs.at(r, 2) == 0)
                t.vecs.at(r, r) = 1;
        std::string n = s.chance(1, 8) ? "" : cat("x", id, "/t", i);
        n = n.substr(0, 31);
        std::copy(n.begin(), n.end(), t.texture.begin());
        w.names.push_back(n);
        Wal l{};
        if (!n.empty() && s.chance(1, 3)) {
            l.there = true;
            l.flags = s.b() ? t.flags.native : (int)s.draw(512);
            l.value = s.chance(3, 4) ? t.value : (int)s.draw(100);
            l.contents = s.b() ? CT[s.draw(14)] : (int)s.draw(3);
            std::vector<uint8_t> b(100);
            std::copy(n.begin(), n.end(), b.begin());
            std::vector<uint8_t> x;
            bm::p32(x, l.flags), bm::p32(x, l.contents), bm::p32(x, l.value);
            std::copy(x.begin(), x.end(), b.begin() + 88);
            auto path = c.scratch + "/textures/" + n + ".wal";
            std::filesystem::create_directories(std::filesystem::path(path).parent_path());
            bm::spew(path, b);
        }
        wal.push_back(l);
        w.m.texinfo.push_back(t);
    }
    int models = (int)s.i(1, 3);
    struct Src2
    {
        Body b;
        std::vector<int> ti;
        int contents;
        std::set<int> models;
    };
    std::vector<Src2> brushes;
    int nb = s.count(0, 10), portals = 0;
    for (int i = 0; i < nb; ++i) {
        Src2 b;
        V o{(double)s.ito(-200, 200, 0), (double)s.ito(-200, 200, 0), (double)s.ito(-200, 200, 0)};
        b.b = box(o - V{(double)s.i(8, 64), (double)s.i(8, 64), (double)s.i(8, 64)}, o + V{(double)s.i(8, 64), (double)s.i(8, 64), (double)s.i(8, 64)});
        for (int t = (int)s.draw(3); t > 0; --t) {
            Body f, k;
            Plane p = gen_plane(s, inside(s, b.b), false);
            if (s.b())
                p = -p;
            if (halves(b.b, p, f, k)) {
                auto fc = k.faces();
                bool thin = false;
                for (auto &q : fc)
                    thin = thin || (!q.empty() && (area(q) < 16 || width(q) < 1));
                if (!thin) {
                    b.b = k;
                    for (size_t z = fc.size(); z-- > 0;)
                        if (fc[z].empty())
                            b.b.pl.erase(b.b.pl.begin() + z);
                }
            }
        }
        b.contents = CT[s.draw(14)];
        portals += b.contents == 1 << 15;
        dbrush_t d{};
        d.firstside = (int)w.m.dbrushsides.size();
        d.numsides = (int)b.b.pl.size();
        d.contents = b.contents;
        for (auto &p : b.b.pl) {
            q2_dbrushside_qbism_t x{};
            x.planenum = (uint32_t)add_plane(w, p);
            int t = s.chance(1, 10) ? -1 : (int)s.draw(ntex);
            x.texinfo = t;
            b.ti.push_back(t);
            w.m.dbrushsides.push_back(x);
        }
        w.m.dbrushes.push_back(d);
        brushes.push_back(b);
    }
    // leafs list the brushes; any tree will do
    std::function<int(int, int)> tree = [&](int model, int depth) -> int {
        if (!depth || s.chance(1, 4)) {
            mleaf_t l{};
            l.contents = s.pick<int>({0, 1});
            l.firstleafbrush = (uint32_t)w.m.dleafbrushes.size();
            for (int i = 0; i < nb; ++i)
                if (i % models == model && s.chance(1, 2)) {
                    w.m.dleafbrushes.push_back(i);
                    brushes[i].models.insert(model);
                }
            l.numleafbrushes = (uint32_t)w.m.dleafbrushes.size() - l.firstleafbrush;
            w.m.dleafs.push_back(l);
            return -(int)w.m.dleafs.size();
        }
        int n = (int)w.m.dnodes.size();
        w.m.dnodes.push_back({});
        w.m.dnodes[n].planenum = add_plane(w, gen_plane(s, {}, false));
        int a = tree(model, depth - 1), b = tree(model, depth - 1);
        w.m.dnodes[n].children = {a, b};
        return n;
    };
    for (int i = 0; i < models; ++i) {
        dmodelh2_t d{};
        d.headnode[0] = tree(i, (int)s.draw(4));
        w.m.dmodels.push_back(d);
    }
    entities(c, w, models);
    // area portals find their brush by counting
    if (portals && s.chance(2, 3)) {
        Ent e;
        int k = (int)s.i(1, portals);
        e.kv = {{"classname", "func_areaportal"}, {"style", std::to_string(k)}, {"targetname", "p"}};
        for (int i = 0; i < nb; ++i)
            if (brushes[i].contents == 1 << 15 && !--k)
                e.areaportal = i;
        w.ents.push_back(e);
    }
    decomp_options o;
    o.geometryOnly = s.chance(1, 5);
    c.nt(nb >= 3);
    c.describe(cat(models, " models, ", nb, " brushes", o.geometryOnly ? ", geometry only" : ""));
    auto out = run(c, w, o);
    auto got = ent_check(c, w, out, false);
    for (auto &[ent, br] : got) {
        if (ent == -1)
            continue;
        std::set<int> want;
        for (int i = 0; i < nb; ++i)
            if (ent >= 1000 ? i == ent - 1000 : brushes[i].models.count(ent) && brushes[i].contents != 1 << 15)
                want.insert(i);
        std::set<int> have;
        bool trigger = false;
        for (auto &e : w.ents)
            if (e.model == ent && ent > 0)
                for (auto &kv : e.kv)
                    trigger = trigger || (kv.first == "classname" && kv.second.compare(0, 8, "trigger_") == 0);
        for (auto &b : br) {
            c.require(b.source >= 0 && b.source < nb && have.insert(b.source).second, "brushes", cat("brush ", b.source, " comes more than once"));
            if (!want.count(b.source))
                continue;
            auto &q = brushes[b.source];
            c.require(b.sides.size() == q.b.pl.size(), "sides", cat("brush ", b.source, " has ", b.sides.size(), " sides, not ", q.b.pl.size()));
            for (size_t k = 0; k < q.b.pl.size(); ++k) {
                const Side *m = nullptr;
                for (auto &x : b.sides)
                    if (dot(x.pl.n, q.b.pl[k].n) > 0.99999 && std::fabs(x.pl.d - q.b.pl[k].d) < 0.02)
                        m = &x;
                c.require(m, "sides", cat("brush ", b.source, " lacks the side ", str(q.b.pl[k].n), " ", q.b.pl[k].d));
                if (o.geometryOnly && !trigger)
                    continue;
                int t = q.ti[k];
                std::string tex;
                int fl = 0, val = 0;
                bool align = false;
                if (trigger) {
                    tex = "e1u1/trigger";
                    fl = 0x80;
                    val = !o.geometryOnly && q.contents && t >= 0 ? w.m.texinfo[t].value : 0;
                } else if (!q.contents) {
                    tex = "e1u1/hint";
                    fl = 0x100;
                } else if (t >= 0) {
                    tex = w.names[t];
                    fl = w.m.texinfo[t].flags.native;
                    val = w.m.texinfo[t].value;
                    align = true;
                    if (q.contents & (3 << 16) && !tex.empty())
                        tex = q.contents & 1 << 16 ? "e1u1/clip" : "e1u1/clip_mon";
                } else
                    fl = 0x80;
                if (!tex.empty())
                    c.require(m->tex == tex, "texture", cat("brush ", b.source, " side ", k, " is textured ", m->tex, ", not ", tex));
                else {
                    // one of the brush's other textures, or one that goes with the contents
                    bool ok = false;
                    static const std::pair<int, const char *> D[] = {{32, "e1u1/water4"}, {16, "e1u1/sewer1"}, {8, "e1u1/brlava"}, {1 << 16, "e1u1/clip"}, {1 << 17, "e1u1/clip_mon"}, {1 << 15, "e1u1/trigger"}};
                    std::string def = "e1u1/skip";
                    for (auto &[bit, n] : D)
                        if (q.contents & bit) {
                            def = n;
                            break;
                        }
                    bool any = false;
                    for (auto x : q.ti)
                        any = any || (x >= 0 && !w.names[x].empty());
                    for (auto x : q.ti)
                        ok = ok || (x >= 0 && !w.names[x].empty() && (m->tex == w.names[x] || (q.contents & (3 << 16) && m->tex == (q.contents & 1 << 16 ? "e1u1/clip" : "e1u1/clip_mon"))));
                    c.require(any ? ok : m->tex == def, "texture", cat("brush ", b.source, " side ", k, " without texture is textured ", m->tex));
                }
                // contents, flags and value are written unless the texture says the same
                bool write = q.contents || fl || val;
                int tw = -1;
                for (int x = 0; x < ntex; ++x)
                    if (w.names[x] == m->tex && wal[x].there)
                        tw = x;
                if (tw >= 0 && (wal[tw].contents & ~3) == (q.contents & ~3) && wal[tw].flags == fl && wal[tw].value == val)
                    write = false;
                if (!(t >= 0 && w.names[t].empty())) {
                    c.require(m->ext == write, "flags", cat("brush ", b.source, " side ", k, m->ext ? " has" : " lacks", " flags: ", q.contents, " ", fl, " ", val));
                    c.require(!write || (m->contents == q.contents && m->flags == fl && m->value == val), "flags",
                        cat("brush ", b.source, " side ", k, " has ", m->contents, " ", m->flags, " ", m->value, ", not ", q.contents, " ", fl, " ", val));
                }
                if (align && !trigger) {
                    auto pts = q.b.faces()[k];
                    for (auto &p : pts) {
                        V x = world_coord(w.m.texinfo[t], p), y = side_coord(*m, p);
                        c.require(std::fabs(x[0] - y[0]) < 0.02 && std::fabs(x[1] - y[1]) < 0.02, "alignment", cat("brush ", b.source, " side ", k, ": the texture at ", str(p), " is at ", y[0], ",", y[1], ", not ", x[0], ",", x[1]));
                    }
                }
            }
        }
        c.require(have == want, "brushes", cat("model ", ent, " has ", have.size(), " brushes, not ", want.size()));
    }
}

static bool prepared = (logging::mask = bitflags<logging::flag>(), true);
VH_MAIN("C18", "three filled leafs (quake, hull) or brushes (quake2) or more",
    (std::vector<std::string>{"the map's bounds are not planes of its nodes (compilers leave room)", "points within 0.05 units of a plane are not judged", "leafs at least 16 units thick across each split"}),
    vh::Sub{"quake", quake, 12000, 400000}, vh::Sub{"hull", hull, 6000, 200000}, vh::Sub{"quake2", quake2, 15000, 500000})
