// C03: arbitrarily damaged BSP files are refused or loaded exactly as the directory says.
#include "bspmodel.hh"
#include <common/bsputils.hh>
#include <common/log.hh>
using namespace bm;
using vh::Case;

static int recsize(const bspversion_t *v, int n)
{
    bool small = v == &bspver_q1 || v == &bspver_h2 || v == &bspver_hl;
    bool rmq = v == &bspver_bsp2rmq || v == &bspver_h2bsp2rmq;
    bool ism = v == &bspver_qbism;
    if (!is_q2(v)) {
        switch (n) {
            case LUMP_PLANES: return 20;
            case LUMP_VERTEXES: return 12;
            case LUMP_NODES: return small ? 24 : rmq ? 32 : 44;
            case LUMP_TEXINFO: return 40;
            case LUMP_FACES: return small ? 20 : 28;
            case LUMP_CLIPNODES: return small ? 8 : 12;
            case LUMP_LEAFS: return small ? 28 : rmq ? 32 : 44;
            case LUMP_MARKSURFACES: return small ? 2 : 4;
            case LUMP_EDGES: return small ? 4 : 8;
            case LUMP_SURFEDGES: return 4;
            case LUMP_MODELS: return is_h2(v) ? 80 : 64;
            default: return 1;
        }
    }
    switch (n) {
        case Q2_LUMP_PLANES: return 20;
        case Q2_LUMP_VERTEXES: return 12;
        case Q2_LUMP_NODES: return ism ? 44 : 28;
        case Q2_LUMP_TEXINFO: return 76;
        case Q2_LUMP_FACES: return ism ? 28 : 20;
        case Q2_LUMP_LEAFS: return ism ? 52 : 28;
        case Q2_LUMP_LEAFFACES: return ism ? 4 : 2;
        case Q2_LUMP_LEAFBRUSHES: return ism ? 4 : 2;
        case Q2_LUMP_EDGES: return ism ? 8 : 4;
        case Q2_LUMP_SURFEDGES: return 4;
        case Q2_LUMP_MODELS: return 48;
        case Q2_LUMP_BRUSHES: return 12;
        case Q2_LUMP_BRUSHSIDES: return ism ? 8 : 4;
        case Q2_LUMP_AREAS: return 8;
        case Q2_LUMP_AREAPORTALS: return 8;
        default: return 1;
    }
}

static bytes base_file(Case &c, const bspversion_t *ver, std::map<std::string, bytes> &bspx)
{
    bspdata_t d;
    gen_bsp(c.s, d, ver, 4);
    bspx = gen_bspx(c.s, 4);
    int n = num_lumps(ver);
    std::vector<int> order(n), gaps(n, 0);
    for (int i = 0; i < n; ++i)
        order[i] = i;
    return build_file(ver, enc_lumps(d), order, gaps, &bspx, !bspx.empty());
}
static void set32(bytes &b, size_t at, uint32_t v)
{
    for (int i = 0; i < 4; ++i)
        if (at + i < b.size())
            b[at + i] = (v >> (8 * i)) & 255;
}
static uint32_t nasty(Case &c, size_t sz)
{
    switch (c.s.draw(8)) {
        case 0: return (uint32_t)c.s.i(0, 8);
        case 1: return (uint32_t)-(int)c.s.i(1, 80);
        case 2: return (uint32_t)(sz + c.s.ito(-8, 8, 0));
        case 3: return c.s.pick<uint32_t>({0x7fffffff, 0x80000000, 0xffffffff, 0x7ffffffc, 0x40000000, 0x3fffffff, 0x10000000, 0x20000001});
        case 4: return (uint32_t)c.s.draw(sz + 1);
        case 5: return 1u << c.s.draw(32);
        default: return (uint32_t)c.s.draw(1ull << 32);
    }
}

static void mutate(Case &c, bytes &f, const bspversion_t *ver, std::string &what, size_t bspx_at)
{
    size_t dir = magic(ver).size();
    switch (c.s.draw(9)) {
        case 0:
            f.resize(c.s.draw(f.size() + 1));
            what += " truncate";
            break;
        case 1: { // directory entry
            int n = (int)c.s.draw(num_lumps(ver));
            set32(f, dir + 8 * n + 4 * c.s.draw(2), nasty(c, f.size()));
            what += vh::cat(" dir:", lump_name(is_q2(ver), n));
            break;
        }
        case 2: { // both halves: an overflowing pair
            int n = (int)c.s.draw(num_lumps(ver));
            uint32_t o = nasty(c, f.size());
            set32(f, dir + 8 * n, o);
            set32(f, dir + 8 * n + 4, c.s.b() ? (uint32_t)(0x100000000ull - o) + (uint32_t)c.s.draw(64) : nasty(c, f.size()));
            what += vh::cat(" dirpair:", lump_name(is_q2(ver), n));
            break;
        }
        case 3: // head of a table lump
        {
            int n = is_q2(ver) ? Q2_LUMP_VISIBILITY : LUMP_TEXTURES;
            if (f.size() < dir + 8 * n + 8)
                break;
            uint32_t o = g32(f, dir + 8 * n), l = g32(f, dir + 8 * n + 4);
            if (o < f.size() && l)
                set32(f, o + 4 * c.s.draw(std::min<uint32_t>(l, 48) / 4 + 1), nasty(c, c.s.b() ? l : f.size()));
            what += " table";
            break;
        }
        case 4:
            if (bspx_at && bspx_at + 8 < f.size()) {
                set32(f, bspx_at + 4, nasty(c, f.size()));
                what += " bspx-count";
            }
            break;
        case 5:
            if (bspx_at && bspx_at + 40 < f.size()) {
                size_t k = c.s.draw(4);
                size_t at = bspx_at + 8 + 32 * k;
                if (c.s.b()) {
                    uint32_t o = nasty(c, f.size());
                    set32(f, at + 24, o);
                    set32(f, at + 28, c.s.b() ? (uint32_t)(0x100000000ull - o) + (uint32_t)c.s.draw(64) : nasty(c, f.size()));
                } else
                    for (int i = 0; i < 24; ++i)
                        if (at + i < f.size())
                            f[at + i] = (uint8_t)c.s.i(1, 255);
                what += " bspx-entry";
            }
            break;
        case 6:
            if (!f.empty())
                f[c.s.draw(f.size())] = (uint8_t)c.s.draw(256);
            what += " byte";
            break;
        case 7:
            if (!f.empty())
                set32(f, c.s.draw(f.size()) & ~3ull, nasty(c, f.size()));
            what += " word";
            break;
        default: {
            int n = (int)c.s.i(0, 40);
            for (int i = 0; i < n; ++i)
                f.push_back((uint8_t)c.s.draw(256));
            what += " append";
        }
    }
}

static void damaged(Case &c)
{
    auto *ver = c.s.pick(versions());
    std::map<std::string, bytes> bx;
    bytes f = base_file(c, ver, bx);
    size_t bspx_at = 0;
    for (size_t i = 0; i + 8 <= f.size() && !bx.empty(); i += 4)
        if (!memcmp(&f[i], "BSPX", 4))
            bspx_at = i;
    std::string what;
    int k = (int)c.s.i(0, 3);
    for (int i = 0; i < k; ++i)
        mutate(c, f, ver, what, bspx_at);
    if (c.s.chance(1, 20))
        f.resize(c.s.draw(std::min<size_t>(f.size(), 200) + 1));
    c.nt(k > 0);
    c.describe(vh::cat(ver->short_name, " ", f.size(), " bytes:", what.empty() ? " intact" : what));

    // what the bytes say
    const bspversion_t *dv = nullptr;
    for (auto *v : {&bspver_q1, &bspver_hl, &bspver_bsp2, &bspver_bsp2rmq, &bspver_q2, &bspver_qbism}) {
        bytes m = magic(v);
        if (f.size() >= m.size() && std::equal(m.begin(), m.end(), f.begin()))
            dv = v;
    }
    bool must_refuse = false, must_accept = true;
    std::string why;
    std::vector<std::pair<int64_t, int64_t>> dir;
    size_t end = 0;
    int nl = 0;
    if (!dv || f.size() < magic(dv).size() + 8 * num_lumps(dv)) {
        must_refuse = true;
        why = !dv ? "unsupported format" : "truncated header";
    } else {
        nl = num_lumps(dv);
        for (int i = 0; i < nl; ++i) {
            int64_t o = (int32_t)g32(f, magic(dv).size() + 8 * i), l = (int32_t)g32(f, magic(dv).size() + 8 * i + 4);
            dir.push_back({o, l});
            bool used = !(is_q2(dv) && i == Q2_LUMP_POP);
            if (l && (o < 0 || l < 0 || o + l > (int64_t)f.size())) {
                if (used) {
                    must_refuse = true;
                    why = vh::cat(lump_name(is_q2(dv), i), " lump lies outside the file");
                }
                must_accept = false;
            } else if (l) {
                end = std::max<size_t>(end, o + l);
            } else if (o > (int64_t)end)
                end = o; // an empty lump still counts for the BSPX position
            if (used && l > 0 && recsize(dv, i) > 1 && l % recsize(dv, i) &&
                !(i == LUMP_MODELS && !is_q2(dv) && l % 80 == 0)) {
                must_refuse = true;
                why = vh::cat(lump_name(is_q2(dv), i), " lump is not a whole number of records");
            }
        }
    }
    std::string path = c.scratch + "/x.bsp";
    spew(path, f);
    bspdata_t r;
    bool ok = true;
    try {
        fs::path fp = path;
        LoadBSPFile(fp, &r);
    } catch (const ericwtools_error &) {
        ok = false;
    }
    c.label(ok ? "accepted" : "refused");
    if (must_refuse) {
        c.require(!ok, "accepted-bad", "a file was loaded although its " + why);
        return;
    }
    if (!ok) {
        if (k == 0)
            c.require(f.size() < 200, "refused-good", "an undamaged file was refused");
        // textures / visibility tables may be broken; everything else is in range
        int tn = is_q2(dv) ? Q2_LUMP_VISIBILITY : LUMP_TEXTURES;
        c.require(!must_accept || dir[tn].second > 0, "refused-good", "refused although every lump is in range" + what);
        return;
    }
    // loaded: each record lump holds exactly the file's bytes
    Lumps got = enc_lumps(r);
    bool q2 = is_q2(dv);
    for (int i = 0; i < nl; ++i) {
        if (i == 0 || (q2 && (i == Q2_LUMP_VISIBILITY || i == Q2_LUMP_POP)) || (!q2 && i == LUMP_TEXTURES))
            continue;
        bytes want;
        if (dir[i].second > 0)
            want.assign(f.begin() + dir[i].first, f.begin() + dir[i].first + dir[i].second);
        const bytes &g = got[i];
        // booleans etc. do not exist in these records, so re-encoding is exact; NaN payloads are copied bitwise
        c.requiref(g == want, "lump-bytes", [&] { return vh::cat("lump ", lump_name(q2, i), " differs from the bytes in the file (", g.size(), " vs ", want.size(), ")"); });
    }
    // BSPX: entries up to the first invalid one
    end = (end + 3) & ~size_t(3);
    std::map<std::string, bytes> want;
    if (end + 8 <= f.size() && !memcmp(&f[end], "BSPX", 4)) {
        uint32_t n = g32(f, end + 4);
        for (uint32_t i = 0; i < n; ++i) {
            size_t at = end + 8 + 32 * (size_t)i;
            if (at + 32 > f.size())
                break;
            uint64_t o = g32(f, at + 24), l = g32(f, at + 28);
            if (o + l > f.size())
                break;
            want[std::string((const char *)&f[at], strnlen((const char *)&f[at], 24))] = bytes(f.begin() + o, f.begin() + o + l);
        }
    }
    c.requiref(r.bspx.entries.size() == want.size(), "bspx", [&] { return vh::cat("loaded ", r.bspx.entries.size(), " BSPX lumps, the file has ", want.size(), " valid ones"); });
    for (auto &[n, b] : want)
        c.require(r.bspx.entries.count(n) && r.bspx.entries[n] == b, "bspx", "BSPX lump '" + n + "' differs from the file");
    // still convertible or refused
    try {
        ConvertBSPFormat(&r, &bspver_generic);
    } catch (const ericwtools_error &) {
    }
}

static void pbytes(bytes &o, const bytes &b) { o.insert(o.end(), b.begin(), b.end()); }

// structured extension lumps: intact ones decode to the model and re-encode to the same
// bytes, damaged ones end the decode
static void extension(Case &c)
{
    int kind = (int)c.s.draw(3);
    bytes lump;
    if (kind == 0) { // BRUSHLIST
        bspxbrushes want;
        int nm = c.s.count(0, 3);
        for (int m = 0; m < nm; ++m) {
            bspxbrushes_permodel pm;
            pm.ver = c.s.chance(1, 6) ? c.s.i32() : 1;
            pm.modelnum = (int32_t)c.s.i(0, 5);
            int nb = c.s.count(0, 4);
            bytes body;
            int nfaces = 0;
            for (int b = 0; b < nb; ++b) {
                bspxbrushes_perbrush pb;
                qvec3f mn, mx;
                for (int k = 0; k < 3; ++k) {
                    mn[k] = (float)c.s.i(-500, 500);
                    mx[k] = mn[k] + (float)c.s.i(0, 500);
                }
                pb.bounds = aabb3f(mn, mx);
                pb.contents = (int16_t)c.s.ito(-32768, 32767, -2);
                for (int k = 0; k < 3; ++k)
                    pf(body, mn[k]);
                for (int k = 0; k < 3; ++k)
                    pf(body, mx[k]);
                p16(body, (uint16_t)pb.contents);
                int nf = c.s.count(0, 4);
                p16(body, nf);
                for (int q = 0; q < nf; ++q) {
                    bspxbrushes_perface pl;
                    for (int k = 0; k < 3; ++k) {
                        pl.normal[k] = c.s.f32();
                        pf(body, pl.normal[k]);
                    }
                    pl.dist = c.s.f32();
                    pf(body, pl.dist);
                    pb.faces.push_back(pl);
                    ++nfaces;
                }
                pm.brushes.push_back(pb);
            }
            pm.numfaces = nfaces;
            p32(lump, pm.ver);
            p32(lump, pm.modelnum);
            p32(lump, nb);
            p32(lump, nfaces);
            pbytes(lump, body);
            want.models.push_back(pm);
        }
        std::ostringstream os;
        os << endianness<std::endian::little>;
        os <= want;
        std::string w = os.str();
        c.require(bytes(w.begin(), w.end()) == lump, "brushlist-write", "BRUSHLIST bytes");
        bool dmg = c.s.b();
        if (dmg) {
            if (c.s.b())
                lump.resize(c.s.draw(lump.size() + 1));
            else if (!lump.empty())
                set32(lump, c.s.draw(lump.size()) & ~3ull, nasty(c, lump.size()));
        }
        c.nt(nm > 0);
        c.describe(vh::cat("BRUSHLIST ", nm, " models", dmg ? " damaged" : ""));
        imemstream st(lump.data(), lump.size());
        st >> endianness<std::endian::little>;
        bspxbrushes got;
        st >= got;
        size_t cells = 0;
        for (auto &m : got.models) {
            cells += 16;
            for (auto &b : m.brushes)
                cells += 28 + 16 * b.faces.size();
        }
        if (!dmg) {
            c.require(got.models.size() == want.models.size(), "brushlist-read", "model count");
            std::ostringstream o2;
            o2 << endianness<std::endian::little>;
            o2 <= got;
            c.require(o2.str() == w, "brushlist-read", "BRUSHLIST did not survive");
            for (size_t m = 0; m < got.models.size(); ++m)
                c.require(got.models[m].numfaces == want.models[m].numfaces, "brushlist-read", "numfaces");
        } else
            c.require(cells <= lump.size() + (1u << 21), "brushlist-invented", "more brushes than the lump can hold");
    } else if (kind == 1) { // FACENORMALS
        mbsp_t bsp;
        int nf = c.s.count(0, 5), nn = c.s.count(0, 6);
        bspxfacenormals want;
        p32(lump, nn);
        for (int i = 0; i < nn; ++i) {
            qvec3f v;
            for (int k = 0; k < 3; ++k) {
                v[k] = c.s.f32();
                pf(lump, v[k]);
            }
            want.normals.push_back(v);
        }
        for (int i = 0; i < nf; ++i) {
            mface_t f{};
            f.numedges = (int32_t)c.s.i(0, 6);
            bsp.dfaces.push_back(f);
            auto &pfc = want.per_face.emplace_back();
            for (int e = 0; e < f.numedges; ++e) {
                bspxfacenormals_per_vert v{(uint32_t)c.s.i(0, 9), (uint32_t)c.s.i(0, 9), (uint32_t)c.s.i(0, 9)};
                p32(lump, v.normal);
                p32(lump, v.tangent);
                p32(lump, v.bitangent);
                pfc.per_vert.push_back(v);
            }
        }
        std::ostringstream os;
        os << endianness<std::endian::little>;
        os <= want;
        std::string w = os.str();
        c.require(bytes(w.begin(), w.end()) == lump, "facenormals-write", "FACENORMALS bytes");
        size_t full = lump.size();
        bool dmg = c.s.b();
        if (dmg) {
            if (c.s.b())
                lump.resize(c.s.draw(lump.size() + 1));
            else
                set32(lump, c.s.b() ? 0 : (c.s.draw(lump.size()) & ~3ull), nasty(c, lump.size()));
        }
        c.nt(nf > 0);
        c.describe(vh::cat("FACENORMALS ", nf, " faces", dmg ? " damaged" : ""));
        bspxentries_t entries;
        if (c.s.chance(1, 20)) {
            c.require(!BSPX_FaceNormals(bsp, entries), "facenormals-absent", "found without a lump");
            return;
        }
        entries["FACENORMALS"] = lump;
        auto got = BSPX_FaceNormals(bsp, entries);
        if (!dmg) {
            c.require(got.has_value(), "facenormals-read", "refused");
            std::ostringstream o2;
            o2 << endianness<std::endian::little>;
            o2 <= *got;
            c.require(o2.str() == w && got->per_face.size() == (size_t)nf, "facenormals-read", "FACENORMALS did not survive");
        } else if (lump.size() < full && g32(bytes(lump.size() >= 4 ? lump : bytes(4, 0)), 0) == (uint32_t)nn)
            c.require(!got, "facenormals-truncated", "a truncated lump was returned as complete");
    } else { // DECOUPLED_LM
        int n = c.s.count(1, 6);
        std::vector<bspx_decoupled_lm_perface> want(n);
        std::ostringstream os;
        os << endianness<std::endian::little>;
        for (auto &w : want) {
            w.lmwidth = (uint16_t)c.s.draw(65536);
            w.lmheight = (uint16_t)c.s.draw(65536);
            w.offset = c.s.i32();
            p16(lump, w.lmwidth);
            p16(lump, w.lmheight);
            p32(lump, (uint32_t)w.offset);
            for (int r = 0; r < 2; ++r)
                for (int k = 0; k < 4; ++k) {
                    float v = c.s.f32();
                    w.world_to_lm_space.set_row(r, [&] { auto row = w.world_to_lm_space.row(r); row[k] = v; return row; }());
                    pf(lump, v);
                }
            os <= w;
        }
        std::string w = os.str();
        c.require(bytes(w.begin(), w.end()) == lump, "decoupled-write", "DECOUPLED_LM bytes");
        c.nt(n > 1);
        c.describe(vh::cat("DECOUPLED_LM ", n, " faces"));
        bspxentries_t entries;
        entries["DECOUPLED_LM"] = lump;
        for (int i = 0; i < n; ++i) {
            auto g = BSPX_DecoupledLM(entries, i);
            c.require(g.lmwidth == want[i].lmwidth && g.lmheight == want[i].lmheight && g.offset == want[i].offset, "decoupled-read", vh::cat("face ", i));
            for (int r = 0; r < 2; ++r)
                c.require(g.world_to_lm_space.row(r) == want[i].world_to_lm_space.row(r), "decoupled-read", vh::cat("matrix of face ", i));
        }
        (void)BSPX_DecoupledLM(entries, n + (int)c.s.i(0, 3));
    }
}

VH_MAIN("C03", "the file was damaged in at least one place / the extension lump holds at least one element",
    (std::vector<std::string>{"ends of the process by the tools' own assertion (exit 1) count as a clean refusal",
        "refusal is required only for lumps outside the file, partial records, unknown formats and truncated headers; damaged texture and visibility tables may be refused or repaired"}),
    vh::Sub{"damaged", damaged, 24000, 1500000, false, 20, true}, vh::Sub{"extension", extension, 60000, 2000000, false, 20, false})
