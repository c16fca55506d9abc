#include "bspmodel.hh"
using namespace bm;
using vh::Case;

static void nt_lumps(Case &c, const Lumps &l, const bspversion_t *v)
{
    int filled = 0;
    for (auto &[n, b] : l)
        filled += b.size() > 4;
    c.nt(filled >= 8);
    c.label(v->short_name);
}

// files laid out by the model -> LoadBSPFile -> the in-memory lumps are the model's
static void load_layout(Case &c)
{
    auto *ver = c.s.pick(versions());
    bspdata_t d;
    gen_bsp(c.s, d, ver, 7);
    Lumps want = enc_lumps(d);
    nt_lumps(c, want, ver);
    int n = num_lumps(ver);
    std::vector<int> order(n), gaps(n);
    for (int i = 0; i < n; ++i)
        order[i] = i;
    bool shuffled = c.s.b();
    if (shuffled)
        for (int i = n - 1; i > 0; --i)
            std::swap(order[i], order[c.s.i(0, i)]);
    for (auto &g : gaps)
        g = c.s.chance(1, 5) ? (int)c.s.i(1, 3) : 0;
    auto bspx = gen_bspx(c.s, 5);
    bool wx = !bspx.empty();
    Lumps disk = want;
    bool h2 = is_h2(ver);
    bytes file = build_file(ver, disk, order, gaps, &bspx, wx);
    std::string path = c.scratch + "/a.bsp";
    spew(path, file);
    c.describe(vh::cat(ver->short_name, " ", file.size(), " bytes", shuffled ? ", shuffled lumps" : "", ", ", bspx.size(), " bspx"));
    bspdata_t r;
    fs::path fp = path;
    LoadBSPFile(fp, &r);
    c.requiref(r.version == ver, h2 ? "version-h2" : "version",
        [&] { return vh::cat("a ", ver->short_name, " file was detected as ", r.version->short_name); });
    Lumps got = enc_lumps(r);
    std::string df = diff_lumps(want, got, is_q2(ver));
    c.require(df.empty(), "load", df);
    // parsed miptex headers
    std::visit(
        [&](auto &b) {
            using T = std::decay_t<decltype(b)>;
            if constexpr (std::is_base_of_v<q1bsp_tag_t, T>) {
                auto &src = std::get<T>(d.bsp);
                for (size_t i = 0; i < src.dtex.textures.size(); ++i) {
                    auto &a = src.dtex.textures[i];
                    auto &g = b.dtex.textures[i];
                    c.require(g.null_texture == a.null_texture, "miptex-null", "missing-texture marker changed");
                    if (!a.null_texture)
                        c.requiref(g.name == a.name && g.width == a.width && g.height == a.height &&
                                       g.offsets == a.offsets,
                            "miptex-header", [&] { return vh::cat("texture ", i, " header: got '", g.name, "' ", g.width, "x", g.height, ", want '", a.name, "' ", a.width, "x", a.height); });
                }
            }
            if constexpr (!std::is_same_v<T, std::monostate> && !std::is_same_v<T, mbsp_t>) {
                auto &src = std::get<T>(d.bsp);
                c.requiref(b.dentdata == src.dentdata, "entities", [&] { return vh::cat("entity text changed: ", b.dentdata.size(), " vs ", src.dentdata.size()); });
            }
        },
        r.bsp);
    // BSPX
    c.require(r.bspx.entries.size() == bspx.size(), "bspx-count", vh::cat("loaded ", r.bspx.entries.size(), " BSPX lumps of ", bspx.size()));
    for (auto &[k, v] : bspx) {
        auto it = r.bspx.entries.find(k);
        c.require(it != r.bspx.entries.end() && it->second == v, "bspx-load", "BSPX lump '" + k + "' lost or changed");
    }
    // written back: same lumps at consistent offsets, and writing is a fixed point
    std::string p2 = c.scratch + "/b.bsp", p3 = c.scratch + "/c.bsp";
    WriteBSPFile(p2, &r);
    bytes f2 = slurp(p2);
    Parsed ps = parse_file(ver, f2);
    c.require(ps.ok, "written-container", ps.err);
    df = diff_lumps(want, ps.lumps, is_q2(ver));
    c.require(df.empty(), "rewrite", df);
    c.require(ps.bspx == bspx, "bspx-write", vh::cat("BSPX lumps after writing: ", ps.bspx.size(), " of ", bspx.size(), " or contents changed"));
    bspdata_t r2;
    fs::path fp2 = p2;
    LoadBSPFile(fp2, &r2);
    WriteBSPFile(p3, &r2);
    bytes f3 = slurp(p3);
    Parsed ps3 = parse_file(ver, f3);
    c.require(ps3.ok && ps3.lumps == ps.lumps && ps3.bspx == ps.bspx && f2.size() == f3.size(), "not-stable",
        "writing, loading and writing again changed the file");
    if (bspx.size() < 2)
        c.require(f2 == f3, "not-byte-stable", "writing, loading and writing again changed bytes");
}

// in-memory structures -> WriteBSPFile -> the bytes are the model's -> LoadBSPFile
static void write_layout(Case &c)
{
    auto *ver = c.s.pick(versions());
    bspdata_t d;
    gen_bsp(c.s, d, ver, 9);
    auto bspx = gen_bspx(c.s, 5);
    for (auto &[k, v] : bspx) {
        auto copy = v;
        if (c.s.b())
            d.bspx.transfer(k.c_str(), copy);
        else
            d.bspx.transfer(k.c_str(), std::vector<uint8_t>(v));
    }
    Lumps want = enc_lumps(d);
    nt_lumps(c, want, ver);
    c.describe(vh::cat(ver->short_name, " ", want.size(), " lumps, ", bspx.size(), " bspx"));
    std::string p = c.scratch + "/a.bsp";
    WriteBSPFile(p, &d);
    bytes f = slurp(p);
    Parsed ps = parse_file(ver, f);
    c.require(ps.ok, "written-container", ps.err);
    std::string df = diff_lumps(want, ps.lumps, is_q2(ver));
    c.require(df.empty(), "write", df);
    c.require(ps.bspx == bspx && ps.has_bspx == !bspx.empty(), "bspx-write", "BSPX lumps changed by writing");
    bspdata_t r;
    fs::path fp = p;
    LoadBSPFile(fp, &r);
    c.require(r.version == ver, "version", vh::cat("written as ", ver->short_name, ", detected as ", r.version->short_name));
    df = diff_lumps(want, enc_lumps(r), is_q2(ver));
    c.require(df.empty(), "reload", df);
    c.require(r.bspx.entries.size() == bspx.size(), "bspx-reload", "BSPX lumps lost on reload");
    for (auto &[k, v] : bspx)
        c.require(r.bspx.entries.count(k) && r.bspx.entries[k] == v, "bspx-reload", "BSPX lump '" + k + "' changed");
}

// texture payloads of any length survive up to alignment padding
static void odd_textures(Case &c)
{
    bspdata_t d;
    auto *ver = c.s.pick<const bspversion_t *>({&bspver_q1, &bspver_hl, &bspver_bsp2});
    gen_bsp(c.s, d, ver, 2);
    dmiptexlump_t *t = nullptr;
    std::visit([&](auto &b) { using T = std::decay_t<decltype(b)>; if constexpr (std::is_base_of_v<q1bsp_tag_t, T>) t = &b.dtex; }, d.bsp);
    t->textures.clear();
    int n = c.s.count(1, 5);
    for (int i = 0; i < n; ++i) {
        miptex_t m;
        m.null_texture = c.s.chance(1, 5);
        m.width = m.height = 16;
        m.offsets = {};
        if (!m.null_texture) {
            m.data = c.s.bytes(40 + (int)c.s.i(0, 30));
            m.data[15] = 0;
        }
        t->textures.push_back(m);
    }
    c.nt(n >= 2);
    auto src = t->textures;
    std::string p = c.scratch + "/a.bsp";
    WriteBSPFile(p, &d);
    bspdata_t r;
    fs::path fp = p;
    LoadBSPFile(fp, &r);
    dmiptexlump_t *g = nullptr;
    std::visit([&](auto &b) { using T = std::decay_t<decltype(b)>; if constexpr (std::is_base_of_v<q1bsp_tag_t, T>) g = &b.dtex; }, r.bsp);
    c.require(g && g->textures.size() == src.size(), "texture-count", "texture count changed");
    for (size_t i = 0; i < src.size(); ++i) {
        auto &a = src[i];
        auto &b = g->textures[i];
        c.require(a.null_texture == b.null_texture, "texture-null", "missing marker changed");
        if (a.null_texture)
            continue;
        bool ok = b.data.size() >= a.data.size() && b.data.size() <= ((a.data.size() + 3) & ~size_t(3)) &&
                  std::equal(a.data.begin(), a.data.end(), b.data.begin());
        for (size_t k = a.data.size(); ok && k < b.data.size(); ++k)
            ok = b.data[k] == 0;
        c.require(ok, "texture-data", vh::cat("texture ", i, " of ", src.size(), ": ", a.data.size(), " bytes became ", b.data.size()));
        std::string name((const char *)a.data.data(), strnlen((const char *)a.data.data(), 16));
        c.require(b.name == name && b.width == g32(a.data, 16) && b.height == g32(a.data, 20), "texture-header", "miptex header misparsed");
    }
}

VH_MAIN("C01", "at least eight lumps of the file hold data",
    (std::vector<std::string>{"float bit patterns are compared exactly; NaNs are not generated",
        "Hexen II files satisfy the reference ranges real compilers emit (the format has no marker of its own)"}),
    vh::Sub{"load", load_layout, 40000, 1000000}, vh::Sub{"write", write_layout, 40000, 1000000},
    vh::Sub{"textures", odd_textures, 10000, 200000})
