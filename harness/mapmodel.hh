// Generated .map text with an independent model of what it means.
#pragma once
#include "vh.hh"
#include <optional>
#include <array>
namespace mm
{
using vh::Case;
using LD = long double;
using V3 = std::array<double, 3>;
inline V3 sub(const V3 &a, const V3 &b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
inline V3 cross(const V3 &a, const V3 &b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline double dot(const V3 &a, const V3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline double len(const V3 &a) { return std::sqrt(dot(a, a)); }

enum Style { QUAKED, VALVE, ETP };
struct Vecs
{
    LD v[2][4]{};
    LD uv(int r, const V3 &p) const { return v[r][0] * p[0] + v[r][1] * p[1] + v[r][2] * p[2] + v[r][3]; }
};
struct Side
{
    V3 p[3];
    std::string tex;
    Style style = QUAKED;
    double axis[2][3]{}, shift[2]{}, rot = 0, scale[2]{1, 1};
    bool tx2 = false;
    int next = 0; // number of extended values
    int32_t ext[3]{};
    // model
    bool kept = true;
    V3 n{};
    double dist = 0;
    bool valid = true;
    Vecs vecs;
    size_t line = 0;
};
struct Brush
{
    std::vector<Side> sides;
};
struct Ent
{
    std::vector<std::pair<std::string, std::string>> kv;
    std::vector<Brush> brushes;
};

// dominant axis; -1 when it cannot be told apart
inline int axis_index(const V3 &n)
{
    static const int ax[6] = {2, 2, 0, 0, 1, 1};
    static const int sg[6] = {1, -1, 1, -1, 1, -1};
    double best = 0;
    int bi = 0;
    for (int i = 0; i < 6; ++i) {
        double d = n[ax[i]] * sg[i];
        if (d > best) {
            best = d;
            bi = i;
        }
    }
    for (int i = 0; i < 6; ++i) {
        double d = n[ax[i]] * sg[i];
        if (i != bi && d != best && std::fabs(d - best) < 1e-9)
            return -1;
    }
    return bi;
}
// the Quake rule: drop the dominant axis of the plane, rotate, scale, shift
inline Vecs quaked_vecs(const V3 &n, const double shift[2], double rot, const double scale[2])
{
    int a = axis_index(n);
    if (a < 0)
        throw vh::Discard{};
    a /= 2; // 0 floor/ceiling, 1 x walls, 2 y walls
    int s = a == 1 ? 1 : 0, t = a == 0 ? 1 : 2;
    // base: u along +s, v along -t
    LD th = (LD)rot * acosl(-1.0L) / 180;
    LD C = cosl(th), S = sinl(th);
    Vecs r;
    LD base[2][2] = {{1, 0}, {0, -1}};
    for (int i = 0; i < 2; ++i) {
        LD x = C * base[i][0] - S * base[i][1], y = S * base[i][0] + C * base[i][1];
        LD sc = scale[i] == 0 ? 1 : scale[i];
        r.v[i][s] = x / sc;
        r.v[i][t] = y / sc;
        r.v[i][3] = shift[i];
    }
    return r;
}
inline Vecs side_vecs(const Side &s)
{
    Vecs r;
    if (s.style == QUAKED)
        return quaked_vecs(s.n, s.shift, s.rot, s.scale);
    if (s.style == VALVE) {
        for (int i = 0; i < 2; ++i) {
            for (int k = 0; k < 3; ++k)
                r.v[i][k] = (LD)s.axis[i][k] / s.scale[i];
            r.v[i][3] = s.shift[i];
        }
        return r;
    }
    // QuArK: the texture's origin is the first point, its two edges the vectors to the
    // others (swapped for type 1), 128 units long in texture space
    V3 e0 = sub(s.p[s.tx2 ? 1 : 2], s.p[0]), e1 = sub(s.p[s.tx2 ? 2 : 1], s.p[0]);
    // u is affine on the plane, with u(e0)=128, u(e1)=0; v(e0)=0, v(e1)=-128
    LD a = dot(e0, e0), b = dot(e0, e1), d = dot(e1, e1), det = a * d - b * b;
    LD small = det / (128.0L * 128 * 128 * 128);
    if (small < 1e-4L * 0.999L)
        return r; // counts as degenerate: repaired
    if (small < 1e-4L * 1.001L)
        throw vh::Discard{};
    for (int k = 0; k < 3; ++k) {
        r.v[0][k] = 128 * (d * e0[k] - b * e1[k]) / det;
        r.v[1][k] = -128 * (a * e1[k] - b * e0[k]) / det;
    }
    for (int i = 0; i < 2; ++i)
        r.v[i][3] = -(r.v[i][0] * s.p[0][0] + r.v[i][1] * s.p[0][1] + r.v[i][2] * s.p[0][2]);
    return r;
}
// 1 valid, 0 not, -1 too close to call
inline int valid_projection(const V3 &n, const Vecs &w)
{
    LD c[3];
    float f[2][3];
    for (int i = 0; i < 2; ++i)
        for (int k = 0; k < 3; ++k) {
            f[i][k] = (float)w.v[i][k];
            float r = std::rint(f[i][k]);
            if (std::fabs(f[i][k] - r) < 1e-4f)
                f[i][k] = r;
        }
    for (int k = 0; k < 3; ++k)
        c[k] = (LD)f[0][(k + 1) % 3] * f[1][(k + 2) % 3] - (LD)f[0][(k + 2) % 3] * f[1][(k + 1) % 3];
    LD l = sqrtl(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]);
    if (l == 0)
        return 0;
    LD m0 = sqrtl((LD)f[0][0] * f[0][0] + (LD)f[0][1] * f[0][1] + (LD)f[0][2] * f[0][2]), m1 = sqrtl((LD)f[1][0] * f[1][0] + (LD)f[1][1] * f[1][1] + (LD)f[1][2] * f[1][2]);
    if (l < 1e-3L * m0 * m1 || l < 1e-6L)
        return -1;
    LD cs = fabsl((c[0] * n[0] + c[1] * n[1] + c[2] * n[2]) / l);
    if (cs < 3e-5L)
        return 0;
    if (cs < 3e-4L)
        return -1;
    return 1;
}
// fills the model fields of a brush's sides
inline void resolve(Brush &b)
{
    std::vector<Side *> kept;
    for (auto &s : b.sides) {
        V3 c = cross(sub(s.p[0], s.p[1]), sub(s.p[2], s.p[1]));
        double l = len(c);
        s.kept = l > 0;
        if (l > 0 && l < 1e-3)
            throw vh::Discard{};
        if (!s.kept)
            continue;
        s.n = {c[0] / l, c[1] / l, c[2] / l};
        s.dist = dot(s.p[1], s.n);
        for (auto *o : kept)
            for (int sg : {1, -1}) {
                double dn = 0, dd = std::fabs(s.dist - sg * o->dist);
                for (int k = 0; k < 3; ++k)
                    dn = std::max(dn, std::fabs(s.n[k] - sg * o->n[k]));
                if (dn < 5e-7 && dd < 5e-5)
                    s.kept = false;
                else if (dn < 5e-6 && dd < 5e-4)
                    throw vh::Discard{};
            }
        if (!s.kept)
            continue;
        s.vecs = side_vecs(s);
        int v = valid_projection(s.n, s.vecs);
        if (v < 0)
            throw vh::Discard{};
        s.valid = v;
        if (!v) {
            double z[2]{0, 0}, o[2]{1, 1};
            s.vecs = quaked_vecs(s.n, z, 0, o);
        }
        kept.push_back(&s);
    }
}

// a number, spelled one of several ways
inline double number(Case &c, double lo, double hi, std::string &out)
{
    char buf[64];
    switch (c.s.draw(6)) {
        case 0:
        case 1:
        case 2: snprintf(buf, sizeof buf, "%lld", (long long)c.s.ito((int64_t)std::ceil(lo), (int64_t)std::floor(hi), std::clamp<int64_t>(0, (int64_t)std::ceil(lo), (int64_t)std::floor(hi)))); break;
        case 3: snprintf(buf, sizeof buf, "%.*f", (int)c.s.i(0, 9), c.s.f(lo, hi)); break;
        case 4: snprintf(buf, sizeof buf, "%.17g", c.s.f(lo, hi)); break;
        default: snprintf(buf, sizeof buf, "%.*e", (int)c.s.i(0, 8), c.s.f(lo, hi)); break;
    }
    out = buf;
    return strtod(buf, nullptr);
}
// numbers that are parsed from text: the writer keeps the spelling
struct NumText
{
    std::string t;
    double v;
};
inline NumText num(Case &c, double lo, double hi)
{
    NumText n;
    n.v = number(c, lo, hi, n.t);
    return n;
}
struct Text
{
    std::string s;
    size_t line = 1;
    void put(const std::string &t)
    {
        s += t;
        line += std::count(t.begin(), t.end(), '\n');
    }
    // blanks that stay on the line
    void sp(Case &c) { put(c.s.chance(1, 6) ? c.s.pick<std::string>({"  ", "\t", " \t "}) : " "); }
    // blanks that may break the line
    void ws(Case &c)
    {
        switch (c.s.draw(6)) {
            case 0:
            case 1:
            case 2: put("\n"); break;
            case 3: put("\r\n\t"); break;
            case 4: put("\n\n  "); break;
            default: put(c.s.pick<std::string>({" // note\n", "\n; comment { ( \"\n", "\n//\n", " //TX1 is not a face\n"})); break;
        }
    }
};
inline std::string texname(Case &c)
{
    switch (c.s.draw(8)) {
        case 0: return "*water1";
        case 1: return "+0btn";
        case 2: return "e1u1/metal_1";
        case 3: return "{fence";
        case 4: return c.s.pick<std::string>({"two words", "a\tb", "", "trailing ", " lead"});
        case 5: return c.s.pick<std::string>({"//slashes", ";semi", "a//b", "a;b", "((", "]", "__TB_empty"});
        default: {
            std::string r;
            int n = (int)c.s.i(1, 15);
            for (int i = 0; i < n; ++i)
                r += (char)c.s.pick<char>({'a', 'b', 'z', '0', '9', '_', '-', '/', '.', '#', '~', '!', '%', 'Q'});
            if (r.substr(0, 2) == "//")
                r[0] = 'x';
            return r;
        }
    }
}
inline bool needs_quotes(const std::string &t)
{
    if (t.empty() || t[0] == ';' || t.substr(0, 2) == "//")
        return true;
    for (unsigned char ch : t)
        if (ch <= 32)
            return true;
    return false;
}
struct Opt
{
    bool degenerate = true; // collinear points, duplicate planes, unusable projections
    double range = 1024;
};
inline void gen_points(Case &c, Side &s, std::string txt[3][3], const Opt &o, const Brush &b)
{
    int kind = o.degenerate ? (int)c.s.draw(12) : 99;
    if (kind == 10 && !b.sides.empty()) {
        // same plane again, possibly flipped, other points when it is axial
        auto &q = b.sides[c.s.draw(b.sides.size())];
        bool flip = c.s.b();
        for (int i = 0; i < 3; ++i)
            s.p[i] = q.p[flip ? 2 - i : i];
    } else if (c.s.chance(1, 3)) {
        // axial plane
        int a = (int)c.s.draw(3);
        double d = (double)c.s.ito(-(int64_t)o.range, (int64_t)o.range, 0);
        double x = (double)c.s.ito(-500, 500, 0), y = (double)c.s.ito(-500, 500, 0);
        double w = (double)c.s.i(1, 128), h = (double)c.s.i(1, 128);
        int u = (a + 1) % 3, v = (a + 2) % 3;
        bool flip = c.s.b();
        for (int i = 0; i < 3; ++i)
            s.p[i][a] = d;
        s.p[0][u] = x;
        s.p[0][v] = y;
        s.p[flip ? 2 : 1][u] = x + w;
        s.p[flip ? 2 : 1][v] = y;
        s.p[flip ? 1 : 2][u] = x;
        s.p[flip ? 1 : 2][v] = y + h;
    } else {
        for (int i = 0; i < 3; ++i)
            for (int k = 0; k < 3; ++k) {
                auto n = num(c, -o.range, o.range);
                s.p[i][k] = n.v;
                txt[i][k] = n.t;
            }
        if (kind == 11) { // no normal
            int a = (int)c.s.draw(3), bb = (a + 1 + (int)c.s.draw(2)) % 3;
            s.p[a] = s.p[bb];
            for (int k = 0; k < 3; ++k)
                txt[a][k] = txt[bb][k];
        }
        return;
    }
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k) {
            char buf[64];
            snprintf(buf, sizeof buf, "%.17g", s.p[i][k]);
            txt[i][k] = buf;
        }
}
inline void gen_side(Case &c, Brush &b, Text &t, const Opt &o)
{
    Side s;
    std::string pt[3][3];
    gen_points(c, s, pt, o, b);
    s.tex = texname(c);
    s.style = (Style)c.s.draw(3);
    s.line = t.line;
    for (int i = 0; i < 3; ++i) {
        if (i) {
            if (c.s.chance(1, 12))
                t.put("\n");
            else
                t.sp(c);
        }
        t.put("(");
        for (int k = 0; k < 3; ++k) {
            t.sp(c);
            t.put(pt[i][k]);
        }
        t.sp(c);
        t.put(")");
    }
    t.sp(c);
    t.put(needs_quotes(s.tex) || c.s.chance(1, 10) ? "\"" + s.tex + "\"" : s.tex);
    auto out = [&](const NumText &n) {
        t.sp(c);
        t.put(n.t);
        return n.v;
    };
    auto scale = [&]() {
        NumText n;
        if (s.style != VALVE && c.s.chance(1, 20))
            n = {"0", 0};
        else {
            do
                n = num(c, -8, 8);
            while (std::fabs(n.v) < 0.05 && !c.s.replaying);
            if (std::fabs(n.v) < 0.05)
                n = {"1", 1};
        }
        return out(n);
    };
    if (s.style == VALVE) {
        bool bad = o.degenerate && c.s.chance(1, 10);
        int ax = -1;
        for (int i = 0; i < 2; ++i) {
            t.sp(c);
            t.put("[");
            for (int k = 0; k < 3; ++k) {
                NumText n = num(c, -1.5, 1.5);
                if (bad) {
                    // zero or parallel axes
                    if (i == 0) {
                        int64_t z = c.s.i(-2, 2);
                        n = {std::to_string(z), (double)z};
                    } else {
                        if (ax < 0)
                            ax = (int)c.s.i(0, 2);
                        double z = s.axis[0][k] * ax;
                        n = {std::to_string((int)z), (double)(int)z};
                    }
                } else if (c.s.b()) {
                    int64_t z = c.s.i(-1, 1);
                    n = {std::to_string(z), (double)z};
                }
                s.axis[i][k] = out(n);
            }
            s.shift[i] = out(num(c, -512, 512));
            t.sp(c);
            t.put("]");
        }
        s.rot = out(num(c, -360, 360));
        s.scale[0] = scale();
        s.scale[1] = scale();
        if (bad) {
            // keep parallel axes exactly parallel after scaling: powers of two only
            // (anything else is too close to call and discarded by the model)
        }
    } else {
        s.shift[0] = out(num(c, -512, 512));
        s.shift[1] = out(num(c, -512, 512));
        s.rot = out(c.s.chance(1, 3) ? NumText{"90", 90} : num(c, -360, 360));
        s.scale[0] = scale();
        s.scale[1] = scale();
    }
    if (c.s.chance(1, 3)) {
        s.next = (int)c.s.i(1, 3);
        for (int i = 0; i < s.next; ++i) {
            s.ext[i] = c.s.i32();
            t.sp(c);
            t.put(std::to_string(s.ext[i]));
        }
    }
    if (s.style == ETP) {
        s.tx2 = c.s.b();
        t.sp(c);
        t.put(s.tx2 ? "//TX2" : "//TX1");
        if (c.s.chance(1, 4))
            t.put(" trailing text");
    } else if (c.s.chance(1, 8))
        t.put(s.style == VALVE ? c.s.pick<std::string>({" // c", " ; c", " //", " // TX1"}) : c.s.pick<std::string>({" // c", " ; c", " //TX3", " //TX", " //", " // TX1"}));
    b.sides.push_back(s);
}
inline std::string word(Case &c, bool value)
{
    std::string r;
    int n = (int)c.s.i(value ? 0 : 1, 12);
    for (int i = 0; i < n; ++i)
        r += c.s.pick<char>({'a', 'b', 'c', 'z', '_', '0', '9', '-', '.', ' ', '{', '(', '/', ';', '#'});
    if (!value) {
        // keys are stored without leading and trailing blanks
        // (and a key that is just a brace cannot be expressed)
        size_t i = r.find_first_not_of(' '), j = r.find_last_not_of(' ');
        if (i != std::string::npos && i == j && (r[i] == '{' || r[i] == '}'))
            r = "k";
    } else if (r == "{")
        r = "v";
    return r;
}
inline std::string trim(std::string s)
{
    while (!s.empty() && s.front() == ' ')
        s.erase(s.begin());
    while (!s.empty() && s.back() == ' ')
        s.pop_back();
    return s;
}
struct Map
{
    std::vector<Ent> ents;
    std::string text;
    std::vector<std::pair<size_t, size_t>> bodies; // text range inside each entity's braces
};
inline Map gen(Case &c, const Opt &o = {})
{
    Map m;
    Text t;
    int ne = c.s.count(0, 5);
    if (c.s.chance(1, 4))
        t.put("// Game: Quake\n");
    for (int e = 0; e < ne; ++e) {
        Ent en;
        t.put("{");
        size_t from = t.s.size();
        t.ws(c);
        int items = c.s.count(0, 6);
        for (int i = 0; i < items; ++i) {
            if (c.s.b()) {
                auto k = word(c, false), v = word(c, true);
                t.put("\"" + k + "\"");
                t.sp(c);
                t.put("\"" + v + "\"");
                t.ws(c);
                k = trim(k);
                auto it = std::find_if(en.kv.begin(), en.kv.end(), [&](auto &p) { return p.first == k; });
                if (it == en.kv.end())
                    en.kv.push_back({k, v});
                else
                    it->second = v;
            } else {
                Brush b;
                t.put("{");
                t.ws(c);
                int ns = c.s.count(0, 8);
                for (int s = 0; s < ns; ++s) {
                    gen_side(c, b, t, o);
                    t.put(c.s.chance(1, 6) ? "\r\n" : "\n");
                }
                t.put("}");
                t.ws(c);
                resolve(b);
                en.brushes.push_back(b);
            }
        }
        size_t to = t.s.size();
        t.put("}");
        m.bodies.push_back({from, to});
        t.ws(c);
        m.ents.push_back(en);
    }
    m.text = t.s;
    return m;
}
} // namespace mm
