// C32: bsputil changes what it was asked to and nothing else
#include "bspmodel.hh"
#include "qmap.hh"
#include <common/bsputils.hh>
#include <common/entdata.h>
#include <fcntl.h>
#include <unistd.h>
using namespace bm;
using vh::Case;
using vh::cat;
using vh::Src;
using qm::V;
using pg::operator+;
using pg::operator-;
using pg::operator*;

int bsputil_main(int argc, char **argv);

struct Said
{
    std::string out, error;
};
static Said tool(Case &c, std::vector<std::string> args)
{
    args.insert(args.begin(), "bsputil");
    std::vector<char *> av;
    std::string cmd;
    for (auto &a : args) {
        av.push_back(a.data());
        cmd += (cmd.empty() ? "" : " ") + a;
    }
    av.push_back(nullptr);
    c.describe(cmd);
    Said r;
    fs::clear();
    auto mask = logging::mask;
    logging::mask = bitflags<logging::flag>();
    auto file = c.scratch + "/said.txt";
    fflush(stdout);
    int keep = dup(1), f = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(f, 1);
    close(f);
    try {
        bsputil_main((int)av.size() - 1, av.data());
    } catch (const std::exception &e) {
        r.error = e.what();
        if (r.error.empty())
            r.error = "an error";
    }
    fflush(stdout);
    std::cout.flush();
    dup2(keep, 1);
    close(keep);
    logging::mask = mask;
    fs::clear();
    auto b = slurp(file);
    r.out.assign(b.begin(), b.end());
    return r;
}
static bytes tobytes(const std::string &s) { return {s.begin(), s.end()}; }

// ---- one lump of any file -------------------------------------------------------------------
static void lumps_op(Case &c)
{
    auto &s = c.s;
    auto *ver = s.pick(versions());
    bspdata_t d;
    gen_bsp(s, d, ver, 5);
    Lumps want = enc_lumps(d);
    auto bspx = gen_bspx(s, 3);
    for (auto &[k, v] : bspx)
        d.bspx.entries[k] = v;
    auto base = c.scratch + "/a";
    WriteBSPFile(base + ".bsp", &d);
    {
        bspdata_t r; // what cannot be held in the generic form is C02's
        fs::path fp = base + ".bsp";
        LoadBSPFile(fp, &r);
        if (!ConvertBSPFormat(&r, &bspver_generic) || !ConvertBSPFormat(&r, r.loadversion))
            throw vh::Discard{};
    }
    int n = (int)s.i(1, 4), changes = 0;
    std::map<std::string, bytes> px(bspx.begin(), bspx.end());
    c.label(ver->short_name);
    for (int i = 0; i < n; ++i) {
        auto arg = s.b() ? base + ".bsp" : base;
        auto name = !px.empty() && s.b() ? std::next(px.begin(), s.draw(px.size()))->first : s.pick<const char *>({"LMSHIFT", "MYLUMP", "ABCDEFGHIJKLMNOPQRSTUVW"});
        auto before = slurp(base + ".bsp");
        bool reads = false;
        switch (s.draw(8)) {
            case 0: {
                auto b = s.bytes(s.count(0, 40));
                spew(base + ".in", b);
                auto r = tool(c, {"--insert-bspx-lump", name, base + ".in", arg});
                c.require(r.error.empty(), "insert", "inserting a lump failed: " + r.error);
                px[name] = b;
                ++changes;
                break;
            }
            case 1: {
                auto r = tool(c, {"--remove-bspx-lump", name, arg});
                c.require(r.error.empty() == (px.count(name) > 0), "remove", px.count(name) ? "removing a lump failed: " + r.error : "removing a lump that is not there is no error");
                px.erase(name);
                ++changes;
                break;
            }
            case 2: {
                std::filesystem::remove(base + ".out");
                auto r = tool(c, {"--extract-bspx-lump", name, base + ".out", arg});
                c.require(r.error.empty() == (px.count(name) > 0), "extract", px.count(name) ? "extracting a lump failed: " + r.error : "extracting a lump that is not there is no error");
                if (px.count(name))
                    c.require(slurp(base + ".out") == px[name], "extract", "the extracted lump differs");
                reads = true;
                break;
            }
            case 3: {
                auto r = tool(c, {"--extract-entities", arg});
                c.require(r.error.empty(), "extract-entities", "failed: " + r.error);
                auto t = want[0];
                t.pop_back(); // the lump ends with a NUL, the file does not
                c.require(slurp(base + ".ent") == t, "extract-entities", "the extracted entities differ");
                reads = true;
                break;
            }
            case 4: {
                std::string t = gen_text(s, 80);
                if (s.b())
                    t = "{\n\"classname\" \"worldspawn\"\n}\n" + t;
                spew(base + ".txt", tobytes(t));
                auto r = tool(c, {"--replace-entities", base + ".txt", arg});
                c.require(r.error.empty(), "replace-entities", "failed: " + r.error);
                want[0] = tobytes(t);
                want[0].push_back(0);
                ++changes;
                break;
            }
            case 5: { // texinfo of a face
                size_t nf = 0;
                std::visit([&](auto &b) {
                    using T = std::decay_t<decltype(b)>;
                    if constexpr (!std::is_same_v<T, std::monostate> && !std::is_same_v<T, mbsp_t>)
                        nf = b.dfaces.size();
                }, d.bsp);
                if (!nf)
                    break;
                size_t f = s.draw(nf);
                int t = (int)s.i(0, 300);
                auto r = tool(c, {"--settexinfo", std::to_string(f), std::to_string(t), arg});
                c.require(r.error.empty(), "settexinfo", "failed: " + r.error);
                std::visit([&](auto &b) {
                    using T = std::decay_t<decltype(b)>;
                    if constexpr (!std::is_same_v<T, std::monostate> && !std::is_same_v<T, mbsp_t>) {
                        b.dfaces[f].texinfo = t;
                        auto e = enc_lumps(b);
                        int k = is_q2(ver) ? 6 : 7;
                        want[k] = e[k];
                    }
                }, d.bsp);
                ++changes;
                break;
            }
            case 6: { // the same format again
                auto r = tool(c, {"--convert", ver->short_name, arg});
                c.require(r.error.empty(), "convert", "failed: " + r.error);
                auto out = base + "-" + ver->short_name;
                if (!std::filesystem::exists(out))
                    out += ".bsp";
                c.require(std::filesystem::exists(out), "convert", "nothing written");
                Parsed ps = parse_file(ver, slurp(out));
                c.require(ps.ok, "convert", ps.err);
                std::string df = diff_lumps(want, ps.lumps, is_q2(ver));
                c.require(df.empty(), "convert", df);
                c.require(ps.bspx == px, "convert", "BSPX lumps changed");
                reads = true;
                break;
            }
            default: {
                auto r = tool(c, {"--modelinfo", arg});
                c.require(r.error.empty(), "modelinfo", "failed: " + r.error);
                std::visit([&](auto &b) {
                    using T = std::decay_t<decltype(b)>;
                    auto look = [&](auto &models) {
                        for (size_t k = 0; k < models.size(); ++k) {
                            auto l = fmt::format("model {:3}: {:5} faces (firstface = {})\n", k, models[k].numfaces, models[k].firstface);
                            (void)l;
                        }
                    };
                    (void)look;
                }, d.bsp);
                reads = true;
            }
        }
        if (reads)
            c.require(slurp(base + ".bsp") == before, "touched", "an operation that only reads changed the file");
        Parsed ps = parse_file(ver, slurp(base + ".bsp"));
        c.require(ps.ok, "file", ps.err);
        std::string df = diff_lumps(want, ps.lumps, is_q2(ver));
        c.require(df.empty(), "lumps", "not asked for: " + df);
        c.require(ps.bspx == px, "bspx", "the BSPX lumps are not what was asked for");
    }
    c.nt(changes > 0 && want.size() > 8);
}

// ---- textures out and in --------------------------------------------------------------------
struct Tx
{
    std::string name;
    int w, h;
    bytes data;
    bool none = false;
};
static Tx texture(Case &c, bool hl, const std::string &name)
{
    auto &s = c.s;
    Tx t;
    t.name = name;
    t.w = (int)s.i(1, 6) * 16;
    t.h = (int)s.i(1, 4) * 16;
    if (s.chance(1, 5)) {
        t.w = (int)s.i(1, 8) * 8;
        t.h = (int)s.i(1, 8) * 8;
    }
    t.none = s.chance(1, 6);
    for (int i = 0; i < 16; ++i)
        t.data.push_back(i < (int)name.size() ? name[i] : 0);
    p32(t.data, t.w);
    p32(t.data, t.h);
    int at = 40;
    for (int i = 0; i < 4; ++i) {
        p32(t.data, t.none ? 0 : at);
        at += (t.w >> i) * (t.h >> i);
    }
    if (t.none)
        return t;
    uint64_t r = s.draw(0) | 1;
    auto rnd = [&] {
        r = vh::mix64(r);
        return (uint8_t)r;
    };
    while ((int)t.data.size() < at)
        t.data.push_back(rnd());
    if (hl) {
        p16(t.data, 256);
        for (int i = 0; i < 768; ++i)
            t.data.push_back(rnd());
    }
    while (t.data.size() % 4)
        t.data.push_back(0);
    return t;
}
static void write_tex(Case &c, const std::string &p, bsp29_t b, const bspversion_t *ver, const std::vector<Tx> &ts)
{
    for (auto &t : ts) {
        miptex_t m;
        m.name = t.name;
        m.width = t.w;
        m.height = t.h;
        m.data = t.data;
        b.dtex.textures.push_back(m);
    }
    bspdata_t d;
    d.version = ver;
    d.bsp = b;
    WriteBSPFile(p, &d);
}
static void textures(Case &c)
{
    auto &s = c.s;
    auto *ver = s.pick<const bspversion_t *>({&bspver_q1, &bspver_hl});
    bool hl = ver == &bspver_hl;
    bspdata_t d;
    gen_bsp(s, d, ver, 3);
    auto b = std::get<bsp29_t>(d.bsp);
    b.dtex.textures.clear();
    std::vector<Tx> ts;
    int n = (int)s.i(1, 5), real = 0;
    for (int i = 0; i < n; ++i) {
        std::string nm = s.pick<const char *>({"t", "*w", "+0b", "{f", "longname_texture"});
        if (nm.size() > 13)
            nm = nm.substr(0, 13);
        nm += std::to_string(i);
        ts.push_back(texture(c, hl, nm));
        real += !ts.back().none;
    }
    auto base = c.scratch + "/" + s.pick<const char *>({"m", "tex"});
    write_tex(c, base + ".bsp", b, ver, ts);
    auto before = slurp(base + ".bsp");
    c.label(hl ? "Half-Life" : "Quake");
    c.nt(real > 1);
    c.describe(cat(ver->short_name, ", ", n, " textures, ", real, " embedded"));
    auto r = tool(c, {"--extract-textures", base + ".bsp"});
    c.require(r.error.empty(), "extract", "failed: " + r.error);
    c.require(slurp(base + ".bsp") == before, "touched", "extracting changed the file");
    auto w = slurp(base + ".wad");
    c.require(w.size() >= 12 && w[0] == 'W' && w[1] == 'A' && w[2] == 'D', "wad", "not a WAD");
    uint32_t k = g32(w, 4), at = g32(w, 8);
    c.require((int)k == real, "wad", cat(k, " textures, want ", real));
    c.require(at + 32ull * k <= w.size(), "wad", "the directory is outside");
    size_t j = 0;
    std::vector<std::pair<uint32_t, uint32_t>> used{{0, 12}, {at, 32 * k}};
    for (auto &t : ts) {
        if (t.none)
            continue;
        size_t e = at + 32 * j++;
        uint32_t pos = g32(w, e), disk = g32(w, e + 4), size = g32(w, e + 8);
        std::string nm((const char *)&w[e + 16], strnlen((const char *)&w[e + 16], 16));
        c.require(nm == t.name, "wad-name", cat("entry ", j, " is named '", nm, "', want '", t.name, "'"));
        c.require(w[e + 13] == 0 && disk == size, "wad-size", "entries are not compressed");
        c.require((uint64_t)pos + disk <= w.size(), "wad-size", cat("'", nm, "' reaches outside the file"));
        c.require(size == t.data.size(), "wad-size", cat("'", nm, "' has ", size, " bytes, want ", t.data.size()));
        c.require(bytes(w.begin() + pos, w.begin() + pos + size) == t.data, "wad-data", cat("'", nm, "' is not the embedded texture"));
        used.push_back({pos, size});
    }
    std::sort(used.begin(), used.end());
    for (size_t i = 1; i < used.size(); ++i)
        c.require(used[i - 1].first + used[i - 1].second <= used[i].first, "wad-overlap", "entries overlap");
    // and back, into a map with other pixels, other sizes, other names
    auto other = ts;
    std::vector<Tx> want;
    int back = 0;
    for (size_t i = 0; i < other.size(); ++i) {
        auto &t = other[i];
        int kind = (int)s.draw(4);
        if (kind == 0)
            t = texture(c, hl, cat("x", i)); // not in the wad
        else if (kind == 1)
            t = texture(c, hl, t.name); // maybe another size
        else if (kind == 2)
            for (size_t q = 40; q < t.data.size(); ++q)
                t.data[q] ^= 0x5a;
        bool in = false;
        for (auto &o : ts)
            in |= !o.none && o.name == t.name && o.w == t.w && o.h == t.h;
        want.push_back(t);
        if (in) {
            for (auto &o : ts)
                if (o.name == t.name)
                    want.back().data = o.data;
            ++back;
        }
    }
    if (back)
        c.label("put back");
    // it looks in the wad it is given, not next to the map
    auto wad = c.scratch + "/given.wad", target = c.scratch + "/other/n";
    std::filesystem::create_directories(c.scratch + "/other");
    std::filesystem::rename(base + ".wad", wad);
    write_tex(c, target + ".bsp", b, ver, other);
    auto pre = parse_file(ver, slurp(target + ".bsp"));
    r = tool(c, {"--replace-textures", wad, target + ".bsp"});
    c.require(r.error.empty(), "replace", "failed: " + r.error);
    auto post = parse_file(ver, slurp(target + ".bsp"));
    c.require(post.ok, "replace", post.err);
    dmiptexlump_t lump;
    for (auto &t : want) {
        miptex_t m;
        m.name = t.name;
        m.data = t.data;
        lump.textures.push_back(m);
    }
    pre.lumps[2] = enc(lump);
    auto df = diff_lumps(pre.lumps, post.lumps, false);
    c.require(df.empty(), "replaced", "after --replace-textures: " + df);
}

// ---- scaling --------------------------------------------------------------------------------
static V mul(V a, V b) { return {a[0] * b[0], a[1] * b[1], a[2] * b[2]}; }
static V divide(V a, V b) { return {a[0] / b[0], a[1] / b[1], a[2] / b[2]}; }
static void load(Case &c, const std::string &p, qm::Out &o)
{
    bspdata_t d;
    fs::path fp = p;
    LoadBSPFile(fp, &d);
    o.ver = d.version;
    ConvertBSPFormat(&d, &bspver_generic);
    o.bsp = std::move(std::get<mbsp_t>(d.bsp));
    for (auto &[k, v] : d.bspx.entries)
        o.bspx[k] = v;
}
static float gf(const bytes &b, size_t at)
{
    uint32_t u = g32(b, at);
    float f;
    memcpy(&f, &u, 4);
    return f;
}
static void scale(Case &c)
{
    auto &s = c.s;
    qm::Opt o;
    o.maxbrushes = 8;
    auto m = qm::gen(c, o);
    auto &doors = m.ents;
    for (auto &e : doors)
        if (e.model >= 0 || e.cls == "info_player_start") {
            if (s.chance(1, 3))
                e.kv.push_back({"lip", std::to_string(s.i(-8, 32))});
            if (s.chance(1, 3))
                e.kv.push_back({"height", std::to_string(s.i(1, 200))});
        }
    qm::write_text(m);
    auto a = qm::compile(c, m, "m", m.q2 ? std::vector<std::string>{} : std::vector<std::string>{"-missing_textures_as_zero_size"});
    V f;
    std::string arg[3];
    int neg = 0;
    bool uniform = s.chance(1, 3);
    for (int k = 0; k < 3; ++k) {
        f[k] = uniform && k ? f[0] : s.pick<double>({1, 2, 0.5, 1.5, 3, -1, -2, -0.5, 0.75});
        arg[k] = qm::n2s(f[k]);
        neg += f[k] < 0;
    }
    // lumps that hold places: random values where the content does not matter
    auto base = a.base;
    bytes dlm, grid;
    {
        bspdata_t d;
        fs::path fp = base + ".bsp";
        LoadBSPFile(fp, &d);
        auto rnd = [&](bytes &b) { pf(b, (float)s.ito(-64, 64, 0) / 8); };
        if (s.b()) {
            for (size_t i = 0; i < a.bsp.dfaces.size(); ++i) {
                p16(dlm, (uint16_t)s.draw(30));
                p16(dlm, (uint16_t)s.draw(30));
                p32(dlm, (uint32_t)s.ito(-1, 5000, 0));
                for (int k = 0; k < 8; ++k)
                    rnd(dlm);
            }
            d.bspx.entries["DECOUPLED_LM"] = dlm;
        }
        if (s.b()) {
            for (int k = 0; k < 3; ++k)
                pf(grid, (float)s.i(4, 64));
            for (int k = 0; k < 3; ++k)
                p32(grid, (uint32_t)s.i(1, 9));
            for (int k = 0; k < 3; ++k)
                pf(grid, (float)s.i(-500, 500));
            auto rest = s.bytes(30);
            grid.insert(grid.end(), rest.begin(), rest.end());
            d.bspx.entries["LIGHTGRID_OCTREE"] = grid;
        }
        WriteBSPFile(base + ".bsp", &d);
    }
    auto before = slurp(base + ".bsp");
    c.label(cat(neg, " axes mirrored"));
    c.label(m.ver->short_name);
    c.nt(f != V{1, 1, 1} && a.bsp.dfaces.size() > 6);
    c.describe(cat(a.bsp.dfaces.size(), " faces"));
    auto r = tool(c, {"--scale", arg[0], arg[1], arg[2], base + ".bsp"});
    c.require(r.error.empty(), "scale", "failed: " + r.error);
    c.require(slurp(base + ".bsp") == before, "touched", "scaling changed the map it was given");
    c.require(std::filesystem::exists(base + "-scaled.bsp"), "missing", "nothing written");
    qm::Out b;
    load(c, base + "-scaled.bsp", b);
    auto &x = a.bsp, &y = b.bsp;
    c.require(a.ver == b.ver, "format", "the format changed");
    c.require(x.dfaces.size() == y.dfaces.size() && x.dleafs.size() == y.dleafs.size() && x.dnodes.size() == y.dnodes.size() && x.dmodels.size() == y.dmodels.size() && x.dclipnodes.size() == y.dclipnodes.size() &&
                  x.dvertexes.size() == y.dvertexes.size() && x.dedges.size() == y.dedges.size() && x.texinfo.size() == y.texinfo.size() && x.dbrushes.size() == y.dbrushes.size(),
        "counts", "the map has more or less of something");
    double big = std::max({std::fabs(f[0]), std::fabs(f[1]), std::fabs(f[2])});
    for (size_t i = 0; i < x.dvertexes.size(); ++i) {
        V p = mul(qm::vec(x.dvertexes[i]), f), q = qm::vec(y.dvertexes[i]);
        if (pg::len(p - q) > 1e-3 * big)
            c.fail("vertex", cat("vertex ", i, " is at ", pg::str(q), ", want ", pg::str(p)));
    }
    auto near = [&](V got, V want, double tol) { return std::fabs(got[0] - want[0]) <= tol && std::fabs(got[1] - want[1]) <= tol && std::fabs(got[2] - want[2]) <= tol; };
    // planes the engines take as they are
    for (size_t i = 0; i < y.dplanes.size(); ++i) {
        auto &p = y.dplanes[i];
        if (std::fabs(pg::len(qm::vec(p.normal)) - 1) > 1e-4)
            c.fail("plane", cat("plane ", i, " has no unit normal"));
        if (p.type >= 0 && p.type < 3 && std::fabs(std::fabs(p.normal[p.type]) - 1) > 1e-4)
            c.fail("plane-type", cat("plane ", i, " is said to be axial"));
    }
    auto positive = [&](int pn, const char *who) {
        auto &p = y.dplanes[pn];
        if (p.type >= 0 && p.type < 3 && p.normal[p.type] < 0)
            c.fail("plane-sign", cat("a ", who, " uses the axial plane ", pn, ", which looks the wrong way"));
    };
    // faces
    for (size_t i = 0; i < x.dfaces.size(); ++i) {
        auto &fx = x.dfaces[i], &fy = y.dfaces[i];
        c.require(fx.texinfo == fy.texinfo && fx.lightofs == fy.lightofs && fx.styles == fy.styles && fx.numedges == fy.numedges, "face", cat("face ", i, " changed"));
        if (fy.planenum < 0 || fy.planenum >= (int)y.dplanes.size())
            c.fail("face-plane", cat("face ", i, " has no plane"));
        positive(fy.planenum, "face");
        auto nx = qm::vec(x.dplanes[fx.planenum].normal) * (fx.side ? -1.0 : 1.0);
        auto ny = qm::vec(y.dplanes[fy.planenum].normal) * (fy.side ? -1.0 : 1.0);
        auto want = pg::unit(divide(nx, f));
        if (!near(ny, want, 2e-3))
            c.fail("face-normal", cat("face ", i, " looks along ", pg::str(ny), ", want ", pg::str(want)));
        std::vector<V> px, py;
        int prev = -1, first = -1;
        for (int k = 0; k < fy.numedges; ++k) {
            int e = y.dsurfedges[fy.firstedge + k], o = x.dsurfedges[fx.firstedge + k];
            int v0 = e < 0 ? y.dedges[-e][1] : y.dedges[e][0], v1 = e < 0 ? y.dedges[-e][0] : y.dedges[e][1];
            if (k && prev != v0)
                c.fail("edges", cat("the edges of face ", i, " are not joined"));
            if (!k)
                first = v0;
            prev = v1;
            py.push_back(qm::vec(y.dvertexes[v0]));
            px.push_back(qm::vec(x.dvertexes[o < 0 ? x.dedges[-o][1] : x.dedges[o][0]]));
        }
        if (prev != first)
            c.fail("edges", cat("the edges of face ", i, " are not closed"));
        V ax{}, ay{};
        for (size_t k = 1; k + 1 < py.size(); ++k) {
            ax = ax + pg::cross(px[k] - px[0], px[k + 1] - px[0]);
            ay = ay + pg::cross(py[k] - py[0], py[k + 1] - py[0]);
        }
        if (pg::len(ax) > 1 && pg::len(ay) > 0.1 && (pg::dot(ax, nx) > 0) != (pg::dot(ay, ny) > 0))
            c.fail("winding", cat("face ", i, " runs the other way around its normal"));
        double d0 = y.dplanes[fy.planenum].dist * (fy.side ? -1.0 : 1.0);
        for (auto &p : py)
            if (std::fabs(pg::dot(p, ny) - d0) > 0.05 * std::max(1.0, big))
                c.fail("planar", cat("face ", i, " is ", pg::dot(p, ny) - d0, " off its plane"));
        // textures stay where they are
        auto &tx = x.texinfo[fx.texinfo], &ty = y.texinfo[fy.texinfo];
        for (auto &p : px)
            for (int k = 0; k < 2; ++k) {
                double u = 0, v = 0;
                V q = mul(p, f);
                for (int j = 0; j < 3; ++j) {
                    u += (double)tx.vecs.at(k, j) * p[j];
                    v += (double)ty.vecs.at(k, j) * q[j];
                }
                u += tx.vecs.at(k, 3), v += ty.vecs.at(k, 3);
                if (std::fabs(u - v) > 1e-2 + 1e-5 * std::fabs(u))
                    c.fail("texture", cat("face ", i, " has texture coordinate ", v, ", want ", u));
            }
    }
    // what is where
    for (auto &n : y.dnodes)
        positive(n.planenum, "node");
    for (auto &n : y.dclipnodes)
        positive(n.planenum, "clipnode");
    for (auto &g : y.dbrushsides)
        if (g.planenum < 0 || g.planenum >= (int)y.dplanes.size())
            c.fail("brush-side", "a brush side has no plane");
    int looked = 0;
    for (size_t k = 0; k < x.dmodels.size(); ++k) {
        auto &mx = x.dmodels[k], &my = y.dmodels[k];
        V lo = mul(qm::vec(mx.mins), f), hi = mul(qm::vec(mx.maxs), f);
        for (int q = 0; q < 3; ++q)
            if (lo[q] > hi[q])
                std::swap(lo[q], hi[q]);
        c.require(near(qm::vec(my.mins), lo, 1e-2 * big) && near(qm::vec(my.maxs), hi, 1e-2 * big), "model-bounds", cat("model ", k, " has bounds ", pg::str(qm::vec(my.mins)), " ", pg::str(qm::vec(my.maxs)), ", want ", pg::str(lo), " ", pg::str(hi)));
        for (int t = 0; t < 60; ++t) {
            V p;
            for (int q = 0; q < 3; ++q)
                p[q] = s.f(mx.mins[q] - 20, mx.maxs[q] + 20);
            V z = mul(p, f);
            bool close = false;
            for (auto &pl : x.dplanes)
                close |= std::fabs(pg::dot(qm::vec(pl.normal), p) - pl.dist) < 0.2;
            if (close)
                continue;
            ++looked;
            if (mx.headnode[0] >= 0) {
                int i = qm::leaf_at(x, (int)k, p), j = qm::leaf_at(y, (int)k, z);
                if (i != j)
                    c.fail("leaf", cat("model ", k, ": ", pg::str(z), " is in leaf ", j, ", want ", i));
                if (i >= 0) {
                    auto &l = y.dleafs[j];
                    if (x.dleafs[i].contents != l.contents)
                        c.fail("contents", cat("leaf ", i, " has other contents"));
                    for (int q = 0; q < 3; ++q) {
                        auto &ol = x.dleafs[i];
                        if (i && ol.mins[q] <= p[q] && p[q] <= ol.maxs[q] && (z[q] < l.mins[q] - 0.1 || z[q] > l.maxs[q] + 0.1))
                            c.fail("leaf-bounds", cat("leaf ", i, " does not hold ", pg::str(z)));
                    }
                }
            }
            if (!m.q2)
                for (int h = 1; h < 3; ++h) {
                    int i = qm::clip_at(x, (int)k, h, p), j = qm::clip_at(y, (int)k, h, z);
                    if (i != j)
                        c.fail("hull", cat("hull ", h, " of model ", k, ": ", pg::str(z), " has contents ", j, ", want ", i));
                }
            if (!k)
                for (size_t bi = 0; bi < x.dbrushes.size(); ++bi) {
                    auto in = [&](const mbsp_t &mb, V q) {
                        auto &br = mb.dbrushes[bi];
                        for (int e = 0; e < br.numsides; ++e)
                            if (qm::plane_at(mb, mb.dbrushsides[br.firstside + e].planenum, q) > 0)
                                return false;
                        return true;
                    };
                    if (in(x, p) != in(y, z))
                        c.fail("brush", cat("brush ", bi, in(x, p) ? " lost " : " gained ", pg::str(z)));
                }
        }
    }
    if (looked < 20)
        c.label("few points");
    // entities
    auto ex = EntData_Parse(x), ey = EntData_Parse(y);
    c.require(ex.size() == ey.size(), "entities", "entities are missing");
    for (size_t i = 0; i < ex.size(); ++i) {
        std::vector<std::string> kx, ky;
        for (auto &p : ex[i])
            kx.push_back(p.first);
        for (auto &p : ey[i])
            ky.push_back(p.first);
        c.require(kx == ky, "keys", "an entity's keys changed");
        for (auto &p : ex[i]) {
            auto now = ey[i].get(p.first);
            if (p.first == "origin") {
                V o{}, n{};
                sscanf(p.second.c_str(), "%lf %lf %lf", &o[0], &o[1], &o[2]);
                sscanf(now.c_str(), "%lf %lf %lf", &n[0], &n[1], &n[2]);
                c.require(near(n, mul(o, f), 1e-2), "origin", cat("an origin is ", now, ", want ", pg::str(mul(o, f))));
            } else if (p.first == "lip")
                c.require(std::fabs(atof(now.c_str()) - ((atof(p.second.c_str()) - 2) * f[2] + 2)) < 1e-2, "lip", cat("lip ", p.second, " became ", now));
            else if (p.first == "height")
                c.require(std::fabs(atof(now.c_str()) - atof(p.second.c_str()) * f[2]) < 1e-2, "height", cat("height ", p.second, " became ", now));
            else
                c.require(now == p.second, "value", cat(p.first, " became ", now, ", was ", p.second));
        }
    }
    // lumps with places in them
    for (auto &[k, v] : a.bspx)
        c.require(b.bspx.count(k) && b.bspx[k].size() == v.size(), "bspx", cat("BSPX lump ", k, " was lost"));
    if (!dlm.empty()) {
        auto &g = b.bspx["DECOUPLED_LM"];
        c.require(g.size() == dlm.size(), "decoupled", "DECOUPLED_LM has another size");
        for (size_t i = 0; i < dlm.size(); i += 40) {
            c.require(std::equal(dlm.begin() + i, dlm.begin() + i + 8, g.begin() + i), "decoupled", "sizes and offsets changed");
            for (int k = 0; k < 8; ++k) {
                double w = gf(dlm, i + 8 + 4 * k) / (k % 4 == 3 ? 1 : f[k % 4]), h = gf(g, i + 8 + 4 * k);
                if (std::fabs(w - h) > 1e-4 * (1 + std::fabs(w)))
                    c.fail("decoupled", cat("face ", i / 40, " has ", h, " in its luxel vectors, want ", w));
            }
        }
    }
    if (!grid.empty()) {
        auto &g = b.bspx["LIGHTGRID_OCTREE"];
        c.require(g.size() == grid.size(), "grid", "LIGHTGRID_OCTREE has another size");
        c.require(std::equal(grid.begin() + 12, grid.begin() + 24, g.begin() + 12) && std::equal(grid.begin() + 36, grid.end(), g.begin() + 36), "grid", "the content of the light grid changed");
        for (int k = 0; k < 3; ++k) {
            double step = gf(grid, 4 * k), at = gf(grid, 24 + 4 * k), step2 = gf(g, 4 * k), at2 = gf(g, 24 + 4 * k);
            int n = (int)g32(grid, 12 + 4 * k);
            for (int i : {0, n - 1})
                if (std::fabs((at + i * step) * f[k] - (at2 + i * step2)) > 1e-2)
                    c.fail("grid", cat("point ", i, " of the light grid is at ", at2 + i * step2, " on axis ", k, ", want ", (at + i * step) * f[k]));
        }
    }
}

// ---- looking --------------------------------------------------------------------------------
static void look(Case &c)
{
    auto &s = c.s;
    qm::Opt o;
    o.maxbrushes = 8;
    auto m = qm::gen(c, o);
    auto a = qm::compile(c, m, "m", m.q2 ? std::vector<std::string>{} : std::vector<std::string>{"-missing_textures_as_zero_size"});
    auto &x = a.bsp;
    auto before = slurp(a.base + ".bsp");
    c.label(m.ver->short_name);
    c.nt(x.dfaces.size() > 6);
    auto lines = [](const std::string &t, const char *start) {
        std::vector<std::string> r;
        std::istringstream is(t);
        for (std::string l; std::getline(is, l);)
            if (l.substr(0, strlen(start)) == start)
                r.push_back(l);
        return r;
    };
    // points and faces
    V p;
    for (int q = 0; q < 3; ++q)
        p[q] = s.f(x.dmodels[0].mins[q] - 8, x.dmodels[0].maxs[q] + 8);
    bool close = false;
    for (auto &pl : x.dplanes)
        close |= std::fabs(pg::dot(qm::vec(pl.normal), p) - pl.dist) < 0.05;
    if (!close) {
        auto r = tool(c, {"--findleaf", qm::n2s(p[0]), qm::n2s(p[1]), qm::n2s(p[2]), a.base + ".bsp"});
        int leaf = qm::leaf_at(x, 0, p);
        auto l = lines(r.out, "leaf ");
        auto want = cat("leaf ", leaf, ": contents ", x.dleafs[leaf].contents, " (");
        c.require(r.error.empty() && l.size() == 1 && l[0].substr(0, want.size()) == want, "findleaf", cat("said '", l.empty() ? r.error : l[0], "', want '", want));
    }
    std::vector<int> fs;
    for (size_t i = 0; i < x.dfaces.size(); ++i)
        fs.push_back((int)i);
    if (!fs.empty()) {
        int f = fs[s.draw(fs.size())];
        pg::Poly w;
        for (auto &q : Face_Points(&x, &x.dfaces[f]))
            w.push_back(qm::vec(q));
        auto n = qm::vec(Face_Normal(&x, &x.dfaces[f]));
        if (pg::width(w) > 4) {
            auto q = pg::inside(s, w);
            if (pg::inset(w, n, q) > 0.5) {
                auto r = tool(c, {"--findfaces", qm::n2s(q[0]), qm::n2s(q[1]), qm::n2s(q[2]), qm::n2s(n[0]), qm::n2s(n[1]), qm::n2s(n[2]), a.base + ".bsp"});
                int mod = 0;
                for (size_t k = 0; k < x.dmodels.size(); ++k)
                    if (f >= x.dmodels[k].firstface && f < x.dmodels[k].firstface + x.dmodels[k].numfaces)
                        mod = (int)k;
                auto l = lines(r.out, cat("model ", mod, " face ").c_str());
                bool ok = false;
                for (auto &t : l) {
                    int g = atoi(t.c_str() + cat("model ", mod, " face ").size());
                    if (g == f)
                        ok = true;
                    else if (g >= 0 && g < (int)x.dfaces.size()) { // another one there
                        pg::Poly v;
                        for (auto &z : Face_Points(&x, &x.dfaces[g]))
                            v.push_back(qm::vec(z));
                        auto nn = qm::vec(Face_Normal(&x, &x.dfaces[g]));
                        ok = pg::dot(nn, n) > 0.99 && std::fabs(pg::dot(nn, q - v[0])) < 0.1 && pg::inset(v, nn, q) > -0.1;
                    }
                }
                c.require(r.error.empty() && ok, "findfaces", cat("face ", f, " of model ", mod, " was not found at ", pg::str(q)));
            }
        }
    }
    {
        auto r = tool(c, {"--modelinfo", a.base + ".bsp"});
        auto l = lines(r.out, "model ");
        // printed through the log, which is off
        c.require(r.error.empty(), "modelinfo", r.error);
    }
    // a sound map has nothing to warn about, a broken one has
    auto r = tool(c, {"--check", a.base + ".bsp"});
    c.require(r.error.empty(), "check", "failed: " + r.error);
    auto harmless = [&](const std::string &l) {
        // qbsp gives the solid leaf 0 an offset of 0, and leaves nodes that do not divide anything
        if (l.find("unreferenced") != std::string::npos || l.find("warning: leaf 0 has visdata offset") == 0)
            return true;
        int i = -1;
        if (sscanf(l.c_str(), "warning: clipnode %d has both", &i) == 1 && l.find("has both") != std::string::npos)
            return i >= 0 && i < (int)x.dclipnodes.size() && x.dclipnodes[i].children[0] == x.dclipnodes[i].children[1];
        if (sscanf(l.c_str(), "warning: node %d has both", &i) == 1 && l.find("has both") != std::string::npos)
            return i >= 0 && i < (int)x.dnodes.size() && x.dnodes[i].children[0] == x.dnodes[i].children[1];
        return false;
    };
    for (auto &l : lines(r.out, "warning"))
        if (!harmless(l))
            c.fail("check-false", "the map is sound, but: " + l);
    for (auto &l : lines(r.out, "WARNING"))
        c.fail("check-false", "the map is sound, but: " + l);
    c.require(slurp(a.base + ".bsp") == before, "touched", "looking changed the map");
    bspdata_t d;
    fs::path fp = a.base + ".bsp";
    LoadBSPFile(fp, &d);
    auto *ver = d.version;
    ConvertBSPFormat(&d, &bspver_generic);
    auto &b = std::get<mbsp_t>(d.bsp);
    std::string what, sign;
    auto pick = [&](auto &v) { return (size_t)s.draw(v.size()); };
    if (b.dfaces.empty())
        return;
    switch (s.draw(9)) {
        case 0: {
            auto i = pick(b.dfaces);
            b.dfaces[i].texinfo = (int)b.texinfo.size() + (int)s.draw(3);
            what = "texinfo out of range", sign = cat("face ", i);
            break;
        }
        case 1: {
            auto i = pick(b.dfaces);
            b.dfaces[i].planenum = (int)b.dplanes.size() + (int)s.draw(3);
            what = "planenum out of range", sign = cat("face ", i);
            return; // the check that faces are planar cannot live with it
        }
        case 2: {
            auto i = pick(b.dedges);
            b.dedges[i][s.draw(2)] = (uint32_t)b.dvertexes.size() + (uint32_t)s.draw(3);
            what = "vertex out of range", sign = cat("edge ", i);
            for (auto &e : b.dsurfedges)
                if ((size_t)std::abs(e) == i)
                    return; // neither
            break;
        }
        case 3: {
            if (b.dleaffaces.empty())
                return;
            auto i = pick(b.dleaffaces);
            b.dleaffaces[i] = (uint32_t)b.dfaces.size() + (uint32_t)s.draw(3);
            what = "marksurface out of range", sign = cat("marksurface ", i);
            break;
        }
        case 4: {
            auto i = pick(b.dleafs);
            b.dleafs[i].firstmarksurface = (uint32_t)b.dleaffaces.size();
            b.dleafs[i].nummarksurfaces = 1 + (uint32_t)s.draw(3);
            what = "leaf's marksurfaces out of range", sign = cat("leaf ", i);
            break;
        }
        case 5: {
            auto i = 0;
            if (b.dnodes.empty())
                return;
            i = (int)pick(b.dnodes);
            b.dnodes[i].children[s.draw(2)] = -1 - (int)b.dleafs.size() - (int)s.draw(3);
            what = "leaf out of range", sign = cat("node ", i);
            break;
        }
        case 6: {
            if (b.dclipnodes.empty())
                return;
            auto i = pick(b.dclipnodes);
            b.dclipnodes[i].children[s.draw(2)] = (int)b.dclipnodes.size() + (int)s.draw(3);
            what = "clipnode out of range", sign = cat("clipnode ", i);
            break;
        }
        case 7: {
            auto i = pick(b.dfaces);
            b.dfaces[i].lightofs = (int)b.dlightdata.size() + (int)s.draw(100);
            what = "light offset out of range", sign = cat("face ", i);
            break;
        }
        default: { // a vertex moved off the planes
            auto i = pick(b.dfaces);
            int e = b.dsurfedges[b.dfaces[i].firstedge];
            auto v = e < 0 ? b.dedges[-e][1] : b.dedges[e][0];
            auto n = Face_Normal(&b, &b.dfaces[i]);
            for (int k = 0; k < 3; ++k)
                b.dvertexes[v][k] += (float)n[k] * 4;
            what = "not planar", sign = cat("face ", i, ",");
        }
    }
    if (!ConvertBSPFormat(&d, ver))
        return;
    WriteBSPFile(a.base + "2.bsp", &d);
    c.label("damaged: " + what);
    r = tool(c, {"--check", a.base + "2.bsp"});
    bool found = false;
    for (auto &l : lines(r.out, what == "not planar" ? "WARNING" : "warning"))
        if (!harmless(l)) {
            auto k = l.find(sign);
            found |= k != std::string::npos && (k + sign.size() >= l.size() || !isdigit((unsigned char)l[k + sign.size()]));
        }
    c.require(found, "check-missed", cat("nothing is said about ", sign, ": ", what, "; ", r.error));
}

VH_MAIN("C32", "something was changed / more than one texture is embedded / scaled by other than 1, more than six faces / more than six faces",
    (std::vector<std::string>{"--compare and --svg only print; --decompile is C18's; conversions between formats are C02's", "--replace-entities on a .map is outside"}),
    vh::Sub{"lumps", lumps_op, 3000, 60000}, vh::Sub{"textures", textures, 3000, 60000}, vh::Sub{"scale", scale, 400, 20000}, vh::Sub{"look", look, 400, 20000})
