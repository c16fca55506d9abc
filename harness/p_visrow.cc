#include "bspmodel.hh"
#include <common/bsputils.hh>
using namespace bm;
using vh::Case;
using vh::Src;

// what every Quake engine does with a row: copy non-zero bytes, expand {0, n} to n zeros
static bool engine_expand(const bytes &in, size_t at, size_t n, bytes &out, size_t *used)
{
    out.clear();
    size_t i = at;
    while (out.size() < n) {
        if (i >= in.size())
            return false;
        uint8_t b = in[i++];
        if (b) {
            out.push_back(b);
            continue;
        }
        if (i >= in.size())
            return false;
        int k = in[i++];
        if (!k)
            return false;
        for (int j = 0; j < k; ++j)
            out.push_back(0);
    }
    if (used)
        *used = i - at;
    return out.size() == n; // a run never crosses the end of the row
}
static bytes gen_row(Src &s, int maxlen, bool *longrun = nullptr)
{
    bytes r;
    int n = s.count(0, maxlen);
    while ((int)r.size() < n) {
        int k;
        switch (s.draw(5)) {
            case 0: r.push_back((uint8_t)s.i(1, 255)); break;
            case 1: r.push_back(0); break;
            case 2:
                k = (int)s.i(1, 40);
                for (int i = 0; i < k; ++i)
                    r.push_back(0);
                break;
            case 3:
                k = s.pick<int>({253, 254, 255, 256, 257, 509, 510, 511, 512, 765});
                for (int i = 0; i < k; ++i)
                    r.push_back(0);
                if (longrun)
                    *longrun = true;
                break;
            default:
                k = (int)s.i(1, 6);
                for (int i = 0; i < k; ++i)
                    r.push_back((uint8_t)s.draw(256));
        }
    }
    r.resize(n);
    return r;
}

static void row_roundtrip(Case &c)
{
    bool lr = false;
    bytes row = gen_row(c.s, c.s.chance(1, 4) ? 1200 : 60, &lr);
    bytes prefix = c.s.bytes(c.s.count(0, 3)), enc = prefix;
    CompressRow(row.data(), row.size(), std::back_inserter(enc));
    c.require(std::equal(prefix.begin(), prefix.end(), enc.begin()), "prefix", "earlier output modified");
    size_t zeros = std::count(row.begin(), row.end(), 0);
    c.nt(zeros >= 2 && zeros < row.size());
    if (lr)
        c.label("run>=253");
    c.describe(vh::cat("row of ", row.size(), " bytes, ", zeros, " zero, compressed to ", enc.size() - prefix.size()));
    bytes out;
    size_t used = 0;
    bool ok = engine_expand(enc, prefix.size(), row.size(), out, &used);
    c.requiref(ok && out == row, "engine", [&] { return vh::cat("an engine expands the compressed row to different bits: row ", vh::hexs(row), " enc ", vh::hexs(enc)); });
    c.require(used == enc.size() - prefix.size(), "trailing", "compressed row has bytes an engine never reads");
    // zero runs are never longer than needed
    for (size_t i = prefix.size(); i < enc.size(); ++i)
        if (!enc[i]) {
            c.require(i + 1 < enc.size() && enc[i + 1] >= 1, "run", "zero-length run");
            ++i;
        }
    bytes dec(row.size() + 8, 0x5A);
    DecompressVis(enc.data() + prefix.size(), enc.data() + enc.size(), dec.data(), dec.data() + row.size());
    c.requiref(std::equal(row.begin(), row.end(), dec.begin()), "decompress", [&] { return vh::cat("DecompressVis(CompressRow(x)) != x for ", vh::hexs(row)); });
    for (size_t i = row.size(); i < dec.size(); ++i)
        c.require(dec[i] == 0x5A, "overrun", "DecompressVis wrote past its output");
}

// any byte string: stays in bounds and writes the longest well-formed prefix
static void hostile(Case &c)
{
    bytes in = c.s.bytes(c.s.count(0, 40));
    for (auto &b : in)
        if (c.s.chance(1, 3))
            b = 0;
    size_t n = c.s.count(0, 300);
    c.nt(in.size() > 4);
    std::vector<uint8_t> inx(in), out(n + 600, 0xA5);
    DecompressVis(inx.data(), inx.data() + inx.size(), out.data(), out.data() + n);
    bytes want;
    size_t i = 0;
    while (want.size() < n) {
        if (i >= in.size())
            break;
        uint8_t b = in[i++];
        if (b) {
            want.push_back(b);
            continue;
        }
        if (i >= in.size())
            break;
        int k = in[i++];
        if (!k)
            break;
        while (k-- && want.size() < n)
            want.push_back(0);
    }
    c.describe(vh::cat("input ", vh::hexs(in), " into ", n, " bytes"));
    c.require(std::equal(want.begin(), want.end(), out.begin()), "prefix", "well-formed prefix decoded differently");
    for (size_t k = want.size(); k < out.size(); ++k)
        c.require(out[k] == 0xA5, "overrun", vh::cat("byte ", k, " written past the decodable prefix of ", want.size()));
}

// whole-map visibility: rows laid out as the tools store them
static void whole_map(Case &c)
{
    bool q2 = c.s.b();
    mbsp_t m{};
    m.loadversion = q2 ? c.s.pick<const bspversion_t *>({&bspver_q2, &bspver_qbism})
                       : c.s.pick<const bspversion_t *>({&bspver_q1, &bspver_bsp2, &bspver_hl, &bspver_h2});
    int clusters = c.s.count(1, c.s.chance(1, 5) ? 200 : 40);
    m.dmodels.resize(1);
    m.dmodels[0].visleafs = q2 ? 0 : clusters;
    int nleafs = q2 ? clusters + (int)c.s.i(1, 5) : clusters + 1 + (int)c.s.i(0, 3);
    size_t rowlen = (clusters + 7) / 8;
    std::vector<bytes> rows(clusters);
    if (q2)
        m.dvis.resize(clusters);
    std::vector<int> ofs(clusters);
    for (int i = 0; i < clusters; ++i) {
        bytes r(rowlen, 0);
        for (int k = 0; k < clusters; ++k)
            if (c.s.chance(1, 3))
                r[k >> 3] |= 1 << (k & 7);
        rows[i] = r;
        ofs[i] = m.dvis.bits.size();
        CompressRow(r.data(), r.size(), std::back_inserter(m.dvis.bits));
        if (q2)
            m.dvis.set_bit_offset(VIS_PVS, i, ofs[i]);
    }
    m.dleafs.resize(nleafs);
    std::vector<int> vrow(nleafs, -1); // row of the leaf
    for (int l = 0; l < nleafs; ++l) {
        auto &lf = m.dleafs[l];
        lf.visofs = -1;
        lf.cluster = -1;
        if (q2) {
            if (c.s.chance(5, 6)) {
                lf.cluster = (int)c.s.draw(clusters);
                vrow[l] = lf.cluster;
            }
        } else if (l >= 1 && l <= clusters) {
            // several leafs may share one row
            int r = c.s.chance(1, 4) ? (int)c.s.draw(clusters) : l - 1;
            lf.visofs = ofs[r];
            vrow[l] = r;
        }
    }
    c.nt(clusters >= 9);
    c.describe(vh::cat(m.loadversion->short_name, ", ", clusters, " clusters, ", nleafs, " leafs"));
    c.require(DecompressedVisSize(&m) == rowlen, "row-size", vh::cat("row size ", DecompressedVisSize(&m), " for ", clusters));
    if (q2)
        for (int i = 0; i < clusters; ++i)
            c.require(m.dvis.get_bit_offset(VIS_PVS, i) == ofs[i] && m.dvis.bit_offsets[i][0] == ofs[i] + 4 + 8 * clusters, "offset",
                "cluster offset is not relative to the start of the visibility lump");
    auto all = DecompressAllVis(&m);
    std::set<int> keys;
    for (int i = 0; i < clusters; ++i) {
        bool used = q2;
        for (int l = 0; l < nleafs && !used; ++l)
            used = vrow[l] == i;
        int key = q2 ? i : ofs[i];
        if (used)
            keys.insert(key);
        if (used)
            c.require(all.count(key) && all[key] == rows[i], "all-rows", vh::cat("row ", i, " of ", clusters, " not recovered"));
    }
    c.require(all.size() == keys.size(), "all-count", "unexpected rows");
    for (int a = 0; a < nleafs; ++a) {
        if (vrow[a] < 0)
            continue;
        auto &row = all[q2 ? m.dleafs[a].cluster : m.dleafs[a].visofs];
        for (int b = 0; b < nleafs; ++b) {
            int bit = q2 ? m.dleafs[b].cluster : b - 1;
            bool want = bit >= 0 && bit < clusters && (row[bit >> 3] >> (bit & 7) & 1);
            bool got = Pvs_LeafVisible(&m, row, &m.dleafs[b]);
            c.require(want == got, "leaf-visible", vh::cat("leaf ", a, " sees leaf ", b, ": got ", got, " want ", want));
        }
    }
}

VH_MAIN("C04", "rows mix zero and non-zero bytes (or at least nine clusters / a five-byte hostile input)",
    (std::vector<std::string>{}), vh::Sub{"row", row_roundtrip, 60000, 2000000},
    vh::Sub{"hostile", hostile, 40000, 2000000}, vh::Sub{"map", whole_map, 8000, 200000})
