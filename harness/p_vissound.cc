// C22: what can be heard follows from what can be seen
#include "vismodel.hh"
#include "viscrash.hh"
using namespace vm;

static int go(Case &c, const Made &k, std::vector<std::string> a)
{
    std::string log = c.scratch + "/log.txt";
    a.push_back(k.f.bsp);
    int rc = run_vis(a, {}, nullptr, &log);
    if (rc) {
        auto l = bm::slurp(log);
        c.fail("refused", vh::cat("vis ends with ", rc, ": ", std::string(l.begin(), l.end()).substr(0, 400)));
    }
    return rc;
}
static void check_phs(Case &c, const std::vector<std::vector<bool>> &pvs, const std::vector<std::vector<bool>> &phs, const char *what)
{
    int n = (int)pvs.size();
    for (int i = 0; i < n; ++i) {
        std::vector<bool> want(n);
        for (int j = 0; j < n; ++j)
            if (pvs[i][j])
                for (int k = 0; k < n; ++k)
                    want[k] = want[k] || pvs[j][k];
        for (int k = 0; k < n; ++k)
            want[k] = want[k] || pvs[i][k];
        for (int k = 0; k < n; ++k)
            c.require(phs[i][k] == want[k], "phs", vh::cat(what, ": cluster ", i, phs[i][k] ? " hears " : " does not hear ", k, ", of ", n));
    }
}
// the PHS that goes with the PVS vis found
static void phs(Case &c)
{
    Opt o;
    o.max_cells = 60;
    World w = gen_world(c.s, o);
    Made k = write_world(c, w, true);
    std::vector<std::string> a{"-threads", "1"};
    if (c.s.chance(1, 4))
        a.push_back("-fast");
    go(c, k, a);
    mbsp_t m = load(k.f.bsp);
    Bits b = read_rows(c, w, k, m);
    check_phs(c, b.cl, b.phs, "vis");
    int hid = 0, heard = 0;
    for (int i = 0; i < w.clusters; ++i)
        for (int j = 0; j < w.clusters; ++j)
            hid += !b.cl[i][j], heard += b.phs[i][j] && !b.cl[i][j];
    c.nt(heard > 0);
    c.describe(vh::cat(k.ver->short_name, ", ", w.clusters, " clusters, ", hid, " hidden pairs, ", heard, " of them heard"));
    // -phsonly on the result: the same rows
    unlink(k.f.prt.c_str());
    go(c, k, {"-phsonly"});
    mbsp_t m2 = load(k.f.bsp);
    Bits b2 = read_rows(c, w, k, m2);
    c.require(b2.cl == b.cl, "phsonly-pvs", "-phsonly changed the PVS");
    c.require(b2.phs == b.phs, "phsonly", "-phsonly gives another PHS");
}
// -phsonly on any PVS, symmetric or not
static void phsonly(Case &c)
{
    int n = c.s.chance(1, 12) ? (int)c.s.i(200, c.thorough || c.s.chance(1, 12) ? 2400 : 600) : c.s.count(1, 120);
    int dens = (int)c.s.draw(4);
    std::vector<std::vector<bool>> pvs(n, std::vector<bool>(n));
    for (int i = 0; i < n; ++i) {
        pvs[i][i] = !c.s.chance(1, 10);
        int k = dens == 0 ? 1 : dens == 1 ? 3 : dens == 2 ? n / 4 : n;
        if (n > 200)
            k = std::min(k, 4);
        for (int j = 0; j < k; ++j)
            pvs[i][c.s.chance(1, 8) ? n - 1 : (int)c.s.draw(n)] = true;
    }
    mbsp_t m;
    Made k;
    World w;
    k.q2 = true;
    k.ver = c.s.pick<const bspversion_t *>({&bspver_q2, &bspver_qbism});
    k.f.bsp = c.scratch + "/map.bsp";
    m.loadversion = k.ver;
    m.dmodels.resize(1);
    m.dmodels[0] = {};
    m.dleafs.resize(1);
    m.dleafs[0] = {};
    m.dvis.resize(n);
    std::vector<int> order(n);
    for (int i = 0; i < n; ++i)
        order[i] = i;
    if (c.s.b())
        for (int i = n; i > 1; --i)
            std::swap(order[i - 1], order[c.s.draw(i)]);
    for (int i : order) {
        std::vector<uint8_t> r((n + 7) / 8);
        for (int j = 0; j < n; ++j)
            if (pvs[i][j])
                r[j >> 3] |= 1 << (j & 7);
        m.dvis.set_bit_offset(VIS_PVS, i, m.dvis.bits.size());
        for (size_t x = 0; x < r.size(); ++x) {
            m.dvis.bits.push_back(r[x]);
            if (!r[x]) {
                int rep = 1;
                while (x + 1 < r.size() && !r[x + 1] && rep < 255)
                    ++rep, ++x;
                m.dvis.bits.push_back(rep);
            }
        }
    }
    bspdata_t d;
    d.version = &bspver_generic;
    d.bsp = m;
    if (!ConvertBSPFormat(&d, k.ver))
        throw vh::Discard{};
    WriteBSPFile(fs::path(k.f.bsp), &d);
    c.describe(vh::cat(k.ver->short_name, ", ", n, " clusters, density ", dens));
    c.nt(n > 8 && dens < 3);
    go(c, k, {"-phsonly"});
    mbsp_t r = load(k.f.bsp);
    w.clusters = n;
    Bits b = read_rows(c, w, k, r);
    c.require(b.cl == pvs, "phsonly-pvs", "-phsonly changed the PVS");
    check_phs(c, b.cl, b.phs, "-phsonly");
    // doing it again changes nothing but the room taken
    go(c, k, {"-phsonly"});
    b = read_rows(c, w, k, load(k.f.bsp));
    c.require(b.cl == pvs, "phsonly-pvs", "a second -phsonly changed the PVS");
    check_phs(c, b.cl, b.phs, "second -phsonly");
}

static void ambient(Case &c)
{
    Opt o;
    o.max_cells = 60;
    World w = gen_world(c.s, o);
    std::vector<std::string> names = {"sky1", "SKY", "Sky_x", "*water0", "*WATER", "*04water1", "*04Water2", "*slime", "*SLIME1", "*lava1", "*Lava", "brick", "water1", "*wate", "lava", "*tele", "slime", "xsky", "*04wat", "*lav", "*slim", "sk"};
    std::vector<std::string> tex;
    std::vector<std::vector<int>> faces(w.leafs);
    std::vector<int> ftex;
    int nt = (int)c.s.i(1, 6);
    for (int i = 0; i < nt; ++i)
        tex.push_back(c.s.pick(names));
    int nf = (int)c.s.draw(w.leafs + 1);
    for (int i = 0; i < nf; ++i)
        ftex.push_back((int)c.s.draw(nt));
    if (nf)
        for (int l = 0; l < w.leafs; ++l)
            while (c.s.chance(1, 3))
                faces[l].push_back((int)c.s.draw(nf));
    Made k = write_world(c, w, false, [&](mbsp_t &m) {
        for (int i = 0; i < nt; ++i) {
            mtexinfo_t t{};
            t.miptex = i;
            t.vecs = texvecf{1, 0, 0, 0, 0, 1, 0, 0};
            m.texinfo.push_back(t);
            miptex_t mt;
            mt.name = tex[i];
            mt.width = mt.height = 16;
            if (c.s.chance(1, 12)) {
                mt.null_texture = true; // not in the file, not even its name
                tex[i] = "";
            } else {
                mt.data.assign(40, 0);
                memcpy(mt.data.data(), tex[i].data(), tex[i].size());
                mt.data[16] = mt.data[20] = 16;
            }
            m.dtex.textures.push_back(mt);
        }
        m.dvertexes = {{0, 0, 0}, {64, 0, 0}, {0, 64, 0}};
        m.dedges = {{0, 1}, {0, 1}, {1, 2}, {2, 0}};
        m.dsurfedges = {1, 2, 3, -1, -3, -2};
        for (int i = 0; i < nf; ++i) {
            mface_t f{};
            f.texinfo = ftex[i];
            f.numedges = 3;
            f.firstedge = c.s.b() ? 0 : 3;
            f.lightofs = -1;
            m.dfaces.push_back(f);
        }
        for (int l = 0; l < w.leafs; ++l) {
            m.dleafs[l + 1].firstmarksurface = (uint32_t)m.dleaffaces.size();
            m.dleafs[l + 1].nummarksurfaces = (uint32_t)faces[l].size();
            for (int f : faces[l])
                m.dleaffaces.push_back(f);
        }
    });
    bool off[4] = {c.s.chance(1, 5), c.s.chance(1, 5), c.s.chance(1, 5), c.s.chance(1, 5)}, all = c.s.chance(1, 12);
    std::vector<std::string> a{"-threads", c.s.pick<std::string>({"1", "4"})};
    const char *opt[4] = {"-noambientsky", "-noambientwater", "-noambientslime", "-noambientlava"};
    for (int i = 0; i < 4; ++i)
        if (off[i])
            a.push_back(opt[i]);
    if (all) {
        a.push_back("-noambient");
        off[0] = off[1] = off[2] = off[3] = true;
    }
    if (c.s.chance(1, 4))
        a.push_back("-fast");
    go(c, k, a);
    mbsp_t m = load(k.f.bsp);
    Bits b = read_rows(c, w, k, m);
    auto low = [](std::string s) {
        for (auto &x : s)
            x = (char)tolower(x);
        return s;
    };
    auto starts = [](const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; };
    int loud = 0, quiet = 0;
    for (int i = 0; i < w.leafs; ++i) {
        int want[4] = {0, 0, 0, 0}; // water, sky, slime, lava
        for (int j = 0; j < w.leafs; ++j)
            if (b.leaf[i][j])
                for (int f : faces[j]) {
                    std::string n = low(tex[ftex[f]]);
                    if (starts(n, "sky") && !off[0])
                        want[1] = 255;
                    if ((starts(n, "*water") || starts(n, "*04water")) && !off[1])
                        want[0] = 255;
                    if (starts(n, "*slime") && !off[2])
                        want[0] = 255; // slime sounds like water
                    if (starts(n, "*lava") && !off[3])
                        want[3] = 255;
                }
        for (int x = 0; x < 4; ++x) {
            int g = m.dleafs[i + 1].ambient_level[x];
            c.require(g == want[x], "ambient", vh::cat("leaf ", i + 1, " sound ", x, " is ", g, ", not ", want[x]));
            (want[x] ? loud : quiet)++;
        }
    }
    c.nt(loud > 0 && quiet > loud / 4 && w.leafs > 4);
    c.label(w.leafs != w.clusters ? "detail" : "plain");
    c.describe(vh::cat(k.ver->short_name, ", ", w.leafs, " leafs, ", w.clusters, " clusters, ", nf, " faces, ", loud, " sounds", all ? ", -noambient" : ""));
}

VH_MAIN("C22", "phs: some cluster is heard but not seen; phsonly: more than 8 clusters and not everything visible; ambient: some leafs hear a sound and others do not",
    (std::vector<std::string>{"worlds are generated as for C20; the rows read back from the written .bsp are the visibility the sounds have to follow"}),
    vh::Sub{"phs", phs, 2400, 40000, true}, vh::Sub{"phsonly", phsonly, 1800, 30000}, vh::Sub{"ambient", ambient, 3000, 40000, true})
