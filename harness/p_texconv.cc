// C09: texture definition conversions
#include "mapmodel.hh"
#include "bspmodel.hh"
#include <common/mapfile.hh>
#include <common/settings.hh>
#include <common/imglib.hh>
#include <common/fs.hh>
#include <common/log.hh>
using vh::Case;
using namespace mm;

static map_file_t parse(const std::string &t)
{
    map_file_t m;
    parser_t p(t, {"test.map"});
    m.parse(p);
    return m;
}
static std::string fmtd(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
static std::string line(const Side &s)
{
    std::string t;
    for (int i = 0; i < 3; ++i)
        t += "( " + fmtd(s.p[i][0]) + " " + fmtd(s.p[i][1]) + " " + fmtd(s.p[i][2]) + " ) ";
    t += s.tex + " ";
    if (s.style == VALVE) {
        for (int i = 0; i < 2; ++i)
            t += "[ " + fmtd(s.axis[i][0]) + " " + fmtd(s.axis[i][1]) + " " + fmtd(s.axis[i][2]) + " " + fmtd(s.shift[i]) + " ] ";
    } else
        t += fmtd(s.shift[0]) + " " + fmtd(s.shift[1]) + " ";
    t += fmtd(s.rot) + " " + fmtd(s.scale[0]) + " " + fmtd(s.scale[1]);
    if (s.next)
        t += " " + std::to_string(s.ext[0]) + " " + std::to_string(s.ext[1]) + " " + std::to_string(s.ext[2]);
    if (s.style == ETP)
        t += s.tx2 ? " //TX2" : " //TX1";
    return t;
}
// a face whose triangle is not a sliver
static void triangle(Case &c, Side &s)
{
    for (int tries = 0;; ++tries) {
        if (tries > 20)
            throw vh::Discard{};
        bool axial = c.s.b(), whole = c.s.b();
        int a = (int)c.s.draw(3);
        for (int i = 0; i < 3; ++i)
            for (int k = 0; k < 3; ++k) {
                double v = c.s.f(-500, 500);
                s.p[i][k] = whole ? std::round(v) : v;
            }
        if (axial)
            s.p[1][a] = s.p[2][a] = s.p[0][a];
        V3 e0 = sub(s.p[0], s.p[1]), e1 = sub(s.p[2], s.p[1]), n = cross(e0, e1);
        double l = len(n), m = std::max({len(e0), len(e1), len(sub(s.p[2], s.p[0]))});
        if (len(e0) < 20 || len(e1) < 20 || l < 0.15 * m * m)
            continue;
        s.n = {n[0] / l, n[1] / l, n[2] / l};
        s.dist = dot(s.p[1], s.n);
        if (axis_index(s.n) < 0)
            continue;
        return;
    }
}
static double scalev(Case &c)
{
    double v = c.s.chance(1, 3) ? c.s.pick<double>({1, 0.5, 2, 0.25}) : c.s.f(0.2, 6);
    return c.s.b() ? -v : v;
}
static Side gen(Case &c, int style, bool want_shear, bool &shear)
{
    Side s;
    triangle(c, s);
    s.tex = c.s.pick<std::string>({"base", "e1u1/wall", "no_such"});
    s.style = (Style)style;
    shear = false;
    for (int i = 0; i < 2; ++i) {
        s.shift[i] = c.s.b() ? (double)c.s.ito(-900, 900, 0) : c.s.f(-900, 900);
        s.scale[i] = scalev(c);
    }
    s.rot = c.s.chance(1, 3) ? c.s.pick<double>({0, 90, 180, 270, 45, -90}) : c.s.f(-360, 360);
    if (style == VALVE) {
        // a standard projection of its own, moved into the Valve form
        double one[2] = {1, 1}, zero[2] = {0, 0};
        Vecs q = quaked_vecs(s.n, zero, c.s.f(-180, 180), one);
        if (want_shear) {
            shear = true;
            double k = c.s.f(-0.9, 0.9);
            if (std::fabs(k) < 0.05)
                k = 0.3;
            for (int j = 0; j < 3; ++j)
                q.v[0][j] += k * q.v[1][j];
        }
        for (int i = 0; i < 2; ++i) {
            double t = c.s.b() ? 0 : c.s.f(-1, 1); // along the face's normal: no effect on the face up to the shift
            for (int j = 0; j < 3; ++j)
                s.axis[i][j] = (double)q.v[i][j] + t * s.n[j];
        }
    } else if (style == ETP) {
        s.tx2 = c.s.b();
        shear = true; // in general
        double area = len(cross(sub(s.p[1], s.p[0]), sub(s.p[2], s.p[0])));
        if (area < 400)
            throw vh::Discard{};
    }
    if (c.s.b()) {
        s.next = 3;
        for (auto &e : s.ext)
            e = c.s.i32();
    }
    s.vecs = side_vecs(s);
    if (valid_projection(s.n, s.vecs) != 1)
        throw vh::Discard{};
    return s;
}
static map_file_t load(Case &c, const std::vector<Side> &ss)
{
    std::string t = "{\n\"classname\" \"worldspawn\"\n{\n";
    for (auto &s : ss)
        t += line(s) + "\n";
    t += "}\n}\n";
    auto g = parse(t);
    if (g.entities.size() != 1 || g.entities[0].brushes.size() != 1 || g.entities[0].brushes[0].faces.size() != ss.size())
        throw vh::Discard{}; // duplicate planes
    return g;
}
static V3 facepoint(Case &c, const Side &s)
{
    double a = c.s.unit(), b = c.s.unit();
    V3 r;
    for (int k = 0; k < 3; ++k)
        r[k] = s.p[0][k] + a * (s.p[1][k] - s.p[0][k]) + b * (s.p[2][k] - s.p[0][k]);
    return r;
}
static void untouched(Case &c, const brush_side_t &g, const Side &s)
{
    c.require(g.texture == s.tex, "texture", "texture name changed");
    for (int i = 0; i < 3; ++i)
        for (int k = 0; k < 3; ++k)
            c.require(g.planepts[i][k] == s.p[i][k], "points", "plane points changed");
    c.require(g.extended_info.has_value() == (s.next > 0), "ext", "surface values appeared or vanished");
    if (s.next)
        c.require(g.extended_info->contents == s.ext[0] && g.extended_info->flags.native == s.ext[1] && g.extended_info->value == s.ext[2], "ext", "surface values changed");
}
static settings::common_settings &opts()
{
    static settings::common_settings o;
    return o;
}
// world-wide: any form to Valve 220
static void valve(Case &c)
{
    std::vector<Side> ss;
    int n = c.s.count(1, 6);
    int moved = 0;
    for (int i = 0; i < n; ++i) {
        bool sh;
        ss.push_back(gen(c, (int)c.s.draw(3), c.s.b(), sh));
        moved += ss.back().style != VALVE;
    }
    auto g = load(c, ss);
    auto before = g;
    c.nt(moved > 0 && n > 1);
    c.describe(vh::cat(n, " faces, ", moved, " to convert"));
    for (int times = (int)c.s.i(1, 2); times; --times)
        g.convert_to(texcoord_style_t::valve_220, nullptr, opts());
    std::ostringstream o;
    g.write(o);
    auto h = parse(o.str());
    c.require(h.entities.size() == 1 && h.entities[0].brushes.size() == 1 && h.entities[0].brushes[0].faces.size() == ss.size(), "shape", "faces lost");
    c.require(g.entities[0].brushes[0].base_format == texcoord_style_t::quaked, "base", "base format");
    for (int i = 0; i < n; ++i) {
        auto &f = g.entities[0].brushes[0].faces[i];
        auto &s = ss[i];
        c.require(std::holds_alternative<texdef_valve_t>(f.raw), "style", "not converted");
        untouched(c, f, s);
        auto &v = std::get<texdef_valve_t>(f.raw);
        if (s.style == VALVE) {
            for (int r = 0; r < 2; ++r) {
                c.require(v.shift[r] == s.shift[r] && v.scale[r] == s.scale[r], "kept", "a Valve 220 definition was altered");
                for (int k = 0; k < 3; ++k)
                    c.require(v.axis.at(r, k) == s.axis[r][k], "kept", "a Valve 220 definition was altered");
            }
            c.require(v.rotate == s.rot, "kept", "a Valve 220 rotation was altered");
        }
        for (int j = 0; j < 3; ++j) {
            V3 p = {c.s.f(-1000, 1000), c.s.f(-1000, 1000), c.s.f(-1000, 1000)};
            qvec3d q(p[0], p[1], p[2]);
            auto u0 = before.entities[0].brushes[0].faces[i].vecs.uvs(q), u1 = h.entities[0].brushes[0].faces[i].vecs.uvs(q);
            for (int r = 0; r < 2; ++r) {
                double w = (double)s.vecs.uv(r, p), tol = 0.005 + 1e-5 * std::fabs(w);
                // the loader itself rounds vectors within 1e-4 of an integer
                double lt = tol + 1.1e-4 * (std::fabs(p[0]) + std::fabs(p[1]) + std::fabs(p[2]) + 1);
                double gw = (v.axis.at(r, 0) * p[0] + v.axis.at(r, 1) * p[1] + v.axis.at(r, 2) * p[2]) / v.scale[r] + v.shift[r];
                c.require(std::fabs(gw - w) < lt, "uv", vh::cat("face ", i, " texture coordinate ", r, " moved from ", w, " to ", gw));
                c.require(std::fabs(gw - u0[r]) < tol || s.style == VALVE, "uv-exact", vh::cat("face ", i, " texture coordinate ", r, " moved from ", u0[r], " to ", gw));
                c.require(std::fabs(u1[r] - u0[r]) < lt, "uv-written", vh::cat("face ", i, " texture coordinate ", r, " moved from ", u0[r], " to ", u1[r], " when written"));
            }
        }
    }
}
static void put32(std::vector<uint8_t> &d, uint32_t v)
{
    for (int i = 0; i < 4; ++i)
        d.push_back(v >> (8 * i));
}
static void wal(const std::string &path, const std::string &name, uint32_t w, uint32_t h)
{
    std::vector<uint8_t> d(32, 0);
    std::copy(name.begin(), name.end(), d.begin());
    put32(d, w);
    put32(d, h);
    uint32_t o = 100;
    for (int i = 0; i < 4; ++i) {
        put32(d, o);
        o += (w >> i) * (h >> i);
    }
    d.resize(d.size() + 32);
    for (int i = 0; i < 3; ++i)
        put32(d, 0);
    d.resize(o);
    std::filesystem::create_directories(std::filesystem::path(path).parent_path());
    bm::spew(path, d);
}
static void quaked(Case &c)
{
    bool textured = c.s.chance(1, 3), shear = false;
    uint32_t W = 0, H = 0;
    const gamedef_t *game = nullptr;
    if (textured) {
        W = (uint32_t)c.s.pick<int>({64, 16, 32, 128, 48, 96}), H = (uint32_t)c.s.pick<int>({64, 16, 32, 256, 48});
        game = bspver_q2.game;
        wal(c.scratch + "/textures/base.wal", "base", W, H);
        wal(c.scratch + "/textures/e1u1/wall.wal", "e1u1/wall", W, H);
        fs::clear();
        fs::addArchive(c.scratch);
    }
    int style = (int)c.s.pick<int>({VALVE, VALVE, QUAKED, ETP});
    Side s = gen(c, style, c.s.chance(1, 3), shear);
    auto g = load(c, {s});
    // the loader's vectors (C08 judges those)
    for (int i = 0; i < 2; ++i)
        for (int k = 0; k < 4; ++k)
            s.vecs.v[i][k] = g.entities[0].brushes[0].faces[0].vecs.at(i, k);
    if (style == QUAKED || c.s.chance(1, 4))
        g.convert_to(texcoord_style_t::valve_220, game, opts());
    g.convert_to(texcoord_style_t::quaked, game, opts());
    auto &f = g.entities[0].brushes[0].faces[0];
    c.require(std::holds_alternative<texdef_quake_ed_t>(f.raw), "style", "not converted");
    c.require(g.entities[0].brushes[0].base_format == texcoord_style_t::quaked, "base", "base format");
    untouched(c, f, s);
    auto &q = std::get<texdef_quake_ed_t>(f.raw);
    Side r;
    r.n = s.n;
    for (int i = 0; i < 2; ++i) {
        r.shift[i] = q.shift[i];
        r.scale[i] = q.scale[i];
    }
    r.rot = q.rotate;
    Vecs w = quaked_vecs(s.n, r.shift, r.rot, r.scale);
    // shear as seen on the dominant axis plane
    {
        int a = axis_index(s.n) / 2;
        int x = a == 1 ? 1 : 0, y = a == 0 ? 1 : 2, z = a == 0 ? 2 : a == 1 ? 0 : 1;
        LD m[2][2];
        for (int i = 0; i < 2; ++i) {
            m[i][0] = s.vecs.v[i][x] - s.vecs.v[i][z] * s.n[x] / s.n[z];
            m[i][1] = s.vecs.v[i][y] - s.vecs.v[i][z] * s.n[y] / s.n[z];
        }
        LD l0 = sqrtl(m[0][0] * m[0][0] + m[0][1] * m[0][1]), l1 = sqrtl(m[1][0] * m[1][0] + m[1][1] * m[1][1]);
        LD cs = fabsl(m[0][0] * m[1][0] + m[0][1] * m[1][1]) / l0 / l1;
        shear = cs > 1e-5L;
        if ((shear && cs < 0.002L) || cs > 0.9L || l0 < 0.1L || l1 < 0.1L || l0 > 12 || l1 > 12)
            throw vh::Discard{};
    }
    c.label(shear ? "sheared" : "unsheared");
    c.label(style == VALVE ? "from Valve 220" : style == ETP ? "from QuArK" : "back from Valve 220");
    c.nt(!(s.rot == 0 && s.scale[0] == 1));
    c.describe(line(s));
    bool have = textured && s.tex != "no_such";
    auto differs = [&](int row, LD got, LD want) {
        LD d = got - want;
        if (have) {
            LD size = row ? H : W;
            d -= size * roundl(d / size);
        }
        return fabsl(d) > 0.03L + 1e-5L * fabsl(want);
    };
    c.require(std::isfinite(q.rotate) && q.scale[0] != 0 && q.scale[1] != 0, "degenerate", vh::cat("converted to rotation ", q.rotate, ", scale ", q.scale[0], " ", q.scale[1]));
    for (int i = 0; i < 5; ++i) {
        V3 p = i < 3 ? s.p[i] : facepoint(c, s);
        for (int row = shear && i ? 1 : 0; row < 2; ++row) {
            LD got = w.uv(row, p), want = s.vecs.uv(row, p);
            c.requiref(!differs(row, got, want), shear ? "uv-shear" : "uv",
                [&] { return vh::cat("texture coordinate ", row, " at face point ", i, " moved from ", (double)want, " to ", (double)got, " (shift ", q.shift[0], " ", q.shift[1], " rotate ", q.rotate, " scale ", q.scale[0], " ", q.scale[1], ")"); });
        }
    }
    if (have)
        for (int i = 0; i < 2; ++i)
            c.require(std::fabs(q.shift[i]) < (i ? H : W) + 0.01, "shift-range", vh::cat("shift ", q.shift[i], " not reduced to the texture's size"));
}
// brush primitives: coordinates relative to the face's own axes, in texture sizes
static void primitives(Case &c)
{
    uint32_t W = (uint32_t)c.s.pick<int>({64, 16, 32, 128, 48, 96}), H = (uint32_t)c.s.pick<int>({64, 16, 32, 256, 48});
    bool sh;
    Side s = gen(c, (int)c.s.draw(3), c.s.b(), sh);
    wal(c.scratch + "/textures/base.wal", "base", W, H);
    wal(c.scratch + "/textures/e1u1/wall.wal", "e1u1/wall", W, H);
    fs::clear();
    fs::addArchive(c.scratch);
    auto g = load(c, {s});
    const gamedef_t *game = c.s.chance(1, 6) ? nullptr : bspver_q2.game;
    bool can = game && s.tex != "no_such";
    c.describe(line(s));
    c.label(can ? "converted" : "refused");
    c.nt(can);
    try {
        g.convert_to(texcoord_style_t::brush_primitives, game, opts());
        c.require(can, "accepted", "conversion without a known texture size was not refused");
    } catch (const std::exception &e) {
        c.require(!can, "refused", vh::cat("conversion refused: ", e.what()));
        return;
    }
    auto &f = g.entities[0].brushes[0].faces[0];
    c.require(std::holds_alternative<texdef_bp_t>(f.raw), "style", "not converted");
    c.require(g.entities[0].brushes[0].base_format == texcoord_style_t::brush_primitives, "base", "base format");
    untouched(c, f, s);
    auto &m = std::get<texdef_bp_t>(f.raw).axis;
    // axis base of the format: x rotated by yaw then pitch onto the normal
    V3 n = s.n;
    for (auto &v : n)
        if (std::fabs(v) < 1e-6)
            v = 0;
    double h = std::hypot(n[0], n[1]);
    if (h != 0 && h < 1e-4)
        throw vh::Discard{};
    double cz = h ? n[0] / h : 1, sz = h ? n[1] / h : 0;
    double sy = -n[2] / std::hypot(h, n[2]), cy = h / std::hypot(h, n[2]);
    V3 tx{-sz, cz, 0}, ty{-sy * cz, -sy * sz, -cy};
    for (int i = 0; i < 4; ++i) {
        V3 p = facepoint(c, s);
        double a = dot(tx, p), b = dot(ty, p);
        for (int r = 0; r < 2; ++r) {
            double want = (double)s.vecs.uv(r, p) / (r ? H : W), got = m.at(r, 0) * a + m.at(r, 1) * b + m.at(r, 2);
            c.require(std::fabs(got - want) < (0.25 + 1e-5 * std::fabs(want)) / (r ? H : W), "uv", vh::cat("coordinate ", r, " is ", got, ", want ", want));
        }
    }
}
VH_MAIN("C09", "more than one face with one to convert / a rotated or scaled projection / a converted face",
    (std::vector<std::string>{"the standard form cannot hold sheared projections: for those the T coordinate on the face and S at its first point are required to stay",
        "texture vectors within 1e-4 of integers are rounded on loading, so 0.25 units are allowed at up to 1000 units from the origin"}),
    vh::Sub{"valve", valve, 30000, 1000000}, vh::Sub{"quaked", quaked, 60000, 2000000}, vh::Sub{"primitives", primitives, 20000, 600000})
