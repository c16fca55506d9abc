// C36: the keys of brush entities reach the faces, the shifts and the brush list
#include "qmap.hh"
#include <cstring>
#include <common/json.hh>
using namespace qm;
using nlohmann::json;

static const double SCALES[] = {0.0625, 0.125, 0.25, 0.5, 1, 2, 4, 0.3, 0.75, 3, 8};
static std::string num(Src &s, std::initializer_list<const char *> l) { return std::vector<const char *>(l)[s.draw(l.size())]; }
static std::string some_case(Src &s, std::string t)
{
    if (s.chance(1, 4))
        for (auto &ch : t)
            ch = (char)toupper(ch);
    return t;
}
static void key(Src &s, std::vector<std::pair<std::string, std::string>> &kv, const Map &m, int which)
{
    auto put = [&](std::string k, std::string v) {
        for (auto &[a, b] : kv)
            if (a == k)
                return;
        kv.push_back({k, v});
    };
    switch (which) {
        case 0: put("_dirt", num(s, {"-1", "1", "0", "-2"})); break;
        case 1: put("_bounce", num(s, {"-1", "1", "0"})); break;
        case 2: put("_minlight", num(s, {"-1", "30", "0", "0.5", "-7", "200"})); break;
        case 3: put("_lightignore", num(s, {"1", "0", "2"})); break;
        case 4: put("_surflight_rescale", num(s, {"1", "0"})); break;
        case 5: put("_surflight_color", num(s, {"1 0.5 0", "255 128 3", "0.25 0.25 0.25", "12 12"})); break;
        case 6: put("_surflight_style", num(s, {"3", "0", "40"})); break;
        case 7: put("_surflight_targetname", num(s, {"t1", "some where"})); break;
        case 8: put("_surflight_minlight_scale", num(s, {"0", "2.5", "0.125"})); break;
        case 9: {
            // a texture, or a part of its name
            int i = (int)s.draw(11);
            std::string t = "nothing";
            if (!m.brushes.empty() && s.chance(4, 5)) {
                auto &b = m.brushes[s.draw(m.brushes.size())];
                t = b.sides[s.draw(b.sides.size())].tex;
            }
            if (s.chance(1, 6))
                t.pop_back();
            put("_minlight_exclude" + (i == 0 ? "" : std::to_string(i)), some_case(s, t));
            break;
        }
        case 10: put("_shadow", num(s, {"-1", "1", "0"})); break;
        case 11: put("_phong", num(s, {"1", "0", "1"})); break;
        case 12: put("_phong_angle", num(s, {"30", "0", "400", "89.5"})); break;
        case 13: put("_phong_angle_concave", num(s, {"20", "0", "361", "-4"})); break;
        case 14: put("_phong_group", num(s, {"1", "2", "0"})); break;
        case 15: put("_maxlight", num(s, {"100", "600", "-3", "0", "0.5"})); break;
        case 16: put("_lightcolorscale", num(s, {"0.5", "1", "0", "2", "-1"})); break;
        case 17: put("_surflight_group", num(s, {"1", "0", "5"})); break;
        case 18: put("_world_units_per_luxel", num(s, {"4", "8", "2.5"})); break;
        case 19: put("_object_channel_mask", num(s, {"1", "2", "6"})); break;
        case 20: put("_mincolor", num(s, {"1 0.5 0.25", "255 0 10", "0 0 0", "300 20 4"})); break;
        case 21: put("_minlight_color", num(s, {"0.5 0.5 1", "20 30 40"})); break;
        case 22: put("_light_alpha", num(s, {"0.5", "0", "1", "3", "-1"})); break;
        case 23: put("_light_twosided", num(s, {"1", "0"})); break;
        case 24: put("_lmscale", n2s(SCALES[s.draw(11)])); break;
        case 25: put(s.b() ? "_litwater" : "_splitturb", num(s, {"0", "1"})); break;
    }
}
static const int KEYS = 26;

struct Kv
{
    std::map<std::string, std::string> m;
    bool has(const char *k) const { return m.count(k) > 0; }
    std::string get(const std::string &k) const { return m.count(k) ? m.at(k) : ""; }
    double f(const char *k) const { return strtod(get(k).c_str(), nullptr); }
    int i(const char *k) const { return (int)strtol(get(k).c_str(), nullptr, 10); }
    int vec(const char *k, double *o) const
    {
        float a[3] = {0, 0, 0};
        int n = has(k) ? sscanf(get(k).c_str(), "%f %f %f", a, a + 1, a + 2) : 0;
        for (int j = 0; j < 3; ++j)
            o[j] = a[j];
        return n;
    }
};
static bool same_name(const std::string &a, const std::string &b)
{
    if (a.size() != b.size())
        return false;
    for (size_t i = 0; i < a.size(); ++i)
        if (tolower(a[i]) != tolower(b[i]))
            return false;
    return true;
}
static bool liquid(int k) { return k == WATER || k == SLIME || k == LAVA; }
// what light is to know of a face
static json expected(const Map &m, const std::vector<Kv> &kv, const Brush &b, const std::string &tex)
{
    const Kv &e = kv[b.ent], &w = kv[0];
    json j = json::object();
    double a[3];
    if (e.i("_dirt") == -1)
        j["no_dirt"] = true;
    if (e.i("_bounce") == -1)
        j["no_bounce"] = true;
    bool nomin = e.i("_minlight") == -1;
    for (int i = 0; i <= 9; ++i) {
        std::string t = e.get("_minlight_exclude" + (i ? std::to_string(i) : std::string()));
        nomin = nomin || (!t.empty() && same_name(t, tex));
    }
    if (nomin)
        j["no_minlight"] = true;
    if (e.i("_lightignore") == 1)
        j["light_ignore"] = true;
    if (e.has("_surflight_rescale"))
        j["surflight_rescale"] = e.i("_surflight_rescale") == 1;
    if (e.vec("_surflight_color", a) == 3) {
        bool unit = a[0] <= 1 && a[1] <= 1 && a[2] <= 1;
        j["surflight_color"] = {(int)(a[0] * (unit ? 255 : 1)), (int)(a[1] * (unit ? 255 : 1)), (int)(a[2] * (unit ? 255 : 1))};
    }
    if (e.i("_surflight_style"))
        j["surflight_style"] = e.i("_surflight_style");
    if (e.has("_surflight_targetname"))
        j["surflight_targetname"] = e.get("_surflight_targetname");
    if (e.has("_surflight_minlight_scale") || w.has("_surflight_minlight_scale"))
        j["surflight_minlight_scale"] = (e.has("_surflight_minlight_scale") ? e : w).f("_surflight_minlight_scale");
    int sh = e.i("_shadow");
    if (sh == -1 || (sh != 1 && (b.kind == ILLUS || (m.q2 && liquid(b.kind)))))
        j["no_shadow"] = true;
    double angle = (e.has("_phong_angle") ? e : w).f("_phong_angle");
    if ((e.has("_phong") ? e : w).i("_phong") && angle == 0)
        angle = 89;
    if (angle)
        j["phong_angle"] = std::min(std::max(angle, 0.0), 360.0);
    double con = std::min(std::max(e.f("_phong_angle_concave"), 0.0), 360.0);
    if (con)
        j["phong_angle_concave"] = con;
    if (e.i("_phong_group"))
        j["phong_group"] = e.i("_phong_group");
    if (e.has("_minlight"))
        j["minlight"] = std::max(0.0, e.f("_minlight"));
    if (e.f("_maxlight") > 0)
        j["maxlight"] = std::min(e.f("_maxlight"), 510.0);
    double lcs = std::min(std::max(e.f("_lightcolorscale"), 0.0), 1.0);
    if (e.has("_lightcolorscale") && lcs != 1)
        j["lightcolorscale"] = lcs;
    if (e.i("_surflight_group"))
        j["surflight_group"] = e.i("_surflight_group");
    if (e.has("_world_units_per_luxel"))
        j["world_units_per_luxel"] = e.f("_world_units_per_luxel");
    if (e.has("_object_channel_mask"))
        j["object_channel_mask"] = e.i("_object_channel_mask");
    e.vec("_mincolor", a);
    if (a[0] == 0 && a[1] == 0 && a[2] == 0)
        e.vec("_minlight_color", a);
    if (a[0] || a[1] || a[2]) {
        bool unit = a[0] <= 1 && a[1] <= 1 && a[2] <= 1;
        json c = json::array();
        for (int i = 0; i < 3; ++i)
            c.push_back((int)std::min(255.0, a[i] * (unit ? 255 : 1)));
        j["minlight_color"] = c;
    }
    if (e.has("_light_alpha"))
        j["light_alpha"] = std::min(std::max(e.f("_light_alpha"), 0.0), 1.0);
    if (e.has("_light_twosided"))
        j["light_twosided"] = e.i("_light_twosided") != 0;
    return j;
}
static bool agree(const json &a, const json &b)
{
    if (a.is_object()) {
        if (!b.is_object() || a.size() != b.size())
            return false;
        for (auto it = a.begin(); it != a.end(); ++it)
            if (!b.contains(it.key()) || !agree(it.value(), b.at(it.key())))
                return false;
        return true;
    }
    if (a.is_number() && b.is_number())
        return std::fabs(a.get<double>() - b.get<double>()) <= 1e-5 * (1 + std::fabs(a.get<double>()));
    return a == b;
}
static int shift_of(const Map &m, const std::vector<Kv> &kv, int ent, double global)
{
    double v = kv[ent].has("_lmscale") ? kv[ent].f("_lmscale") : global;
    int i = (int)(16 * v), r = 0;
    if (i == 0)
        i = 16;
    while (i > 1) {
        ++r;
        i /= 2;
    }
    return r;
}
struct LBrush
{
    float lo[3], hi[3];
    int contents;
    std::vector<std::array<float, 4>> faces;
};
struct LModel
{
    int ver, modelnum;
    std::vector<LBrush> brushes;
};
using List = std::vector<LModel>;
static bool parse(const std::vector<uint8_t> &r, List &l)
{
    size_t at = 0;
    auto take = [&](void *p, size_t n) {
        if (at + n > r.size())
            return false;
        memcpy(p, r.data() + at, n);
        at += n;
        return true;
    };
    while (at < r.size()) {
        LModel m;
        int32_t h[4];
        if (!take(h, 16))
            return false;
        m.ver = h[0], m.modelnum = h[1];
        int faces = 0;
        for (int i = 0; i < h[2]; ++i) {
            LBrush b;
            int16_t cn;
            uint16_t nf;
            if (!take(b.lo, 12) || !take(b.hi, 12) || !take(&cn, 2) || !take(&nf, 2))
                return false;
            b.contents = cn;
            faces += nf;
            for (int k = 0; k < nf; ++k) {
                std::array<float, 4> f;
                if (!take(f.data(), 16))
                    return false;
                b.faces.push_back(f);
            }
            m.brushes.push_back(b);
        }
        if (faces != h[3])
            return false;
        l.push_back(m);
    }
    return true;
}
static const Side *side_at(const Map &m, int model, V p, V n, const std::string &tex, std::vector<const Brush *> &who)
{
    const Side *r = nullptr;
    for (auto &b : m.brushes) {
        if (b.model != model || !b.b.in(p, 0.2))
            continue;
        for (size_t i = 0; i < b.b.pl.size(); ++i)
            if (std::fabs(b.b.pl[i].at(p)) < 0.1 && std::fabs(dot(b.b.pl[i].n, n)) > 0.999 && same_name(b.sides[i].tex, tex)) {
                r = &b.sides[i];
                if (who.empty() || who.back() != &b)
                    who.push_back(&b);
            }
    }
    return r;
}
static json load(const std::string &p)
{
    std::ifstream f(p);
    json j;
    f >> j;
    return j;
}

static void keys(Case &c)
{
    Opt o;
    o.maxbrushes = 20;
    o.overlap = c.s.chance(1, 4);
    Map m = gen(c, o);
    Src &s = c.s;
    // a few common keys, so that entities differ in one of them
    int pool = (int)s.i(1, 5);
    std::vector<int> common;
    for (int i = 0; i < pool; ++i)
        common.push_back((int)s.draw(KEYS));
    // groups for the brushes of the world
    if (s.b()) {
        std::vector<int> free;
        for (int bi : m.ents[0].brushes)
            if (!m.brushes[bi].shell && m.brushes[bi].kind != HINT)
                free.push_back(bi);
        for (int bi : free)
            if (s.b()) {
                Ent e{"func_group"};
                e.brushes.push_back(bi);
                auto &wb = m.ents[0].brushes;
                wb.erase(std::find(wb.begin(), wb.end(), bi));
                m.brushes[bi].ent = (int)m.ents.size();
                m.ents.push_back(e);
            }
    }
    // few textures, laid alike
    if (s.chance(2, 3))
        for (auto &b : m.brushes)
            for (auto &sd : b.sides) {
                if (isdigit(sd.tex.back()))
                    sd.tex.back() = '0';
                for (int i = 0; i < 2; ++i) {
                    sd.axis[i][3] = 0;
                    sd.scale[i] = 1;
                }
            }
    // nothing under a common name on faces with different keys can be told by its texture alone
    for (auto &e : m.ents) {
        if (e.brushes.empty())
            continue;
        int n = (int)s.draw(5);
        for (int i = 0; i < n; ++i)
            key(s, e.kv, m, s.chance(3, 4) ? common[s.draw(common.size())] : (int)s.draw(KEYS));
    }
    double global = 1;
    if (s.chance(1, 4)) {
        global = SCALES[s.draw(11)];
        m.args.push_back("-lmscale");
        m.args.push_back(n2s(global));
    }
    bool lit = s.chance(1, 4), brushlist = !m.q2 && s.b(), none = s.chance(1, 12);
    if (lit && !m.q2)
        m.args.push_back("-splitturb");
    else
        lit = true; // the default
    if (!m.q2 && s.chance(1, 5)) {
        lit = false;
        m.args.push_back("-litwater");
        m.args.push_back("0");
    }
    if (brushlist)
        m.args.push_back(s.chance(1, 3) ? "-wrbrushesonly" : s.b() ? "-wrbrushes" : "-bspx");
    if (none)
        m.args.push_back("-noextendedsurfflags");
    if (!m.q2 && s.b())
        m.args.push_back("-missing_textures_as_zero_size");
    if (s.chance(1, 3))
        m.args.push_back("-nomerge");
    if (s.chance(1, 3)) {
        m.args.push_back("-subdivide");
        m.args.push_back(s.pick<const char *>({"64", "0", "500"}));
    }
    std::vector<Kv> kv;
    for (auto &e : m.ents) {
        Kv k;
        for (auto &[a, b] : e.kv)
            k.m[a] = b;
        kv.push_back(k);
    }
    write_text(m);
    std::string flags = c.scratch + "/m.texinfo.json";
    bool stale = s.b();
    if (stale)
        {
        std::string old = "{\"1000000\":{\"no_dirt\":true}}";
        bm::spew(flags, std::vector<uint8_t>(old.begin(), old.end()));
    }
    Out out = compile(c, m);
    auto &b = out.bsp;
    c.describe(cat("a map of ", m.brushes.size(), " brushes in ", m.ents.size(), " entities"));
    bool file = std::filesystem::exists(flags);
    if (none)
        c.require(!file, "texinfo-file", "-noextendedsurfflags left a .texinfo.json");
    json j = file ? load(flags) : json::object();
    for (auto it = j.begin(); it != j.end(); ++it)
        c.require(std::stoull(it.key()) < b.texinfo.size(), "texinfo-file", cat(".texinfo.json names texinfo ", it.key(), " of ", b.texinfo.size()));
    std::vector<uint8_t> shifts;
    if (out.bspx.count("LMSHIFT")) {
        shifts = out.bspx["LMSHIFT"];
        c.require(shifts.size() == b.dfaces.size(), "lmshift", cat(shifts.size(), " shifts for ", b.dfaces.size(), " faces"));
    }
    int checked = 0, apart = 0, odd = 0;
    std::map<std::string, std::set<std::string>> seen;
    for (size_t mi = 0; mi < b.dmodels.size(); ++mi) {
        V off{};
        for (auto &e : m.ents)
            if (e.model == (int)mi)
                off = e.offset;
        for (int fi = b.dmodels[mi].firstface; fi < b.dmodels[mi].firstface + b.dmodels[mi].numfaces; ++fi) {
            auto &f = b.dfaces[fi];
            V p{};
            V lo{1e9, 1e9, 1e9}, hi{-1e9, -1e9, -1e9};
            double ex[2][2] = {{1e9, -1e9}, {1e9, -1e9}};
            auto &ti = b.texinfo[f.texinfo];
            for (int k = 0; k < f.numedges; ++k) {
                auto v = vec(b.dvertexes[Face_VertexAtIndex(&b, &f, k)]);
                p = p + v * (1.0 / f.numedges);
                for (int q = 0; q < 2; ++q) {
                    double t = ti.vecs.at(q, 0) * v[0] + ti.vecs.at(q, 1) * v[1] + ti.vecs.at(q, 2) * v[2] + ti.vecs.at(q, 3);
                    ex[q][0] = std::min(ex[q][0], t);
                    ex[q][1] = std::max(ex[q][1], t);
                }
            }
            p = p + off;
            V n = vec(b.dplanes[f.planenum].normal);
            std::string tex = Face_TextureName(&b, &f);
            std::vector<const Brush *> who;
            side_at(m, (int)mi, p, n, tex, who);
            if (who.empty())
                continue; // C24 looks at that
            json got = j.contains(std::to_string(f.texinfo)) ? j[std::to_string(f.texinfo)] : json::object();
            got.erase("is_nodraw");
            got.erase("is_hint");
            if (!none) {
                bool ok = false;
                std::string wanted;
                json g2 = got;
                for (auto *br : who) {
                    json w = expected(m, kv, *br, tex);
                    ok = ok || agree(w, g2);
                    wanted += w.dump() + " ";
                    seen[tex].insert(w.dump());
                }
                ++checked;
                if (!ok)
                    c.fail("flags", cat("face ", fi, " of model ", mi, " (", tex, ", around ", str(p), ") has ", got.dump(), " instead of ", wanted, " after entity ", who[0]->ent, ", a ", m.ents[who[0]->ent].cls));
                if (who.size() == 1 && !expected(m, kv, *who[0], tex).empty())
                    ++apart;
            }
            // light on liquids
            if (!m.q2 && tex[0] == '*' && who.size() == 1) {
                auto &k = kv[who[0]->ent];
                bool l = k.has("_litwater") ? k.i("_litwater") > 0 : k.has("_splitturb") ? k.i("_splitturb") > 0 : lit;
                if (!(ti.flags.native & TEX_SPECIAL) != l)
                    c.fail("litwater", cat("face ", fi, " of ", tex, " is ", l ? "special" : "lit", " but should not be"));
            }
            // its shift
            bool ok = false;
            int have = shifts.empty() ? 4 : shifts[fi], want = 4;
            for (auto *br : who) {
                want = shift_of(m, kv, br->ent, global);
                ok = ok || want == have;
            }
            odd += have != 4;
            if (!ok)
                c.fail("lmshift", cat("face ", fi, " of model ", mi, " has the shift ", have, shifts.empty() ? " (there are none)" : "", " instead of ", want));
            bool special = m.q2 ? (ti.flags.native & (4 | 8)) != 0 : (ti.flags.native & TEX_SPECIAL) != 0;
            if (!special && have < 4 && !m.has("0"))
                for (int q = 0; q < 2; ++q) {
                    double lux = ex[q][1] - ex[q][0];
                    if (lux > (255 << have) + 1)
                        c.fail("extents", cat("face ", fi, " spans ", lux, " texels, with luxels of ", 1 << have));
                }
        }
    }
    if (!shifts.empty()) {
        bool any = false;
        for (auto x : shifts)
            any = any || x != 4;
        c.require(any, "lmshift", "a lump of nothing but default shifts");
    }
    for (auto &[t, w] : seen)
        if (w.size() > 1)
            c.label("texture with different keys");
    if (odd)
        c.label("shifts");
    // brush list
    if (brushlist) {
        c.require(out.bspx.count("BRUSHLIST") == 1, "brushlist", "no BRUSHLIST");
        auto &raw = out.bspx["BRUSHLIST"];
        List l;
        c.require(parse(raw, l), "brushlist", "BRUSHLIST has another size than its numbers say");
        std::set<int> models;
        for (auto &pm : l) {
            c.require(models.insert(pm.modelnum).second, "brushlist", cat("model ", pm.modelnum, " is there twice"));
            c.require(pm.modelnum >= 0 && pm.modelnum < (int)b.dmodels.size() && pm.ver == 1, "brushlist", cat("model ", pm.modelnum, " version ", pm.ver));
            V off{};
            for (auto &e : m.ents)
                if (e.model == pm.modelnum)
                    off = e.offset;
            std::vector<const Brush *> mine;
            for (auto &br : m.brushes)
                if (br.model == pm.modelnum && br.kind != ILLUS)
                    mine.push_back(&br);
            c.require(mine.size() == pm.brushes.size(), "brushlist", cat("model ", pm.modelnum, " has ", pm.brushes.size(), " brushes instead of ", mine.size()));
            std::vector<bool> used(mine.size());
            for (auto &lb : pm.brushes) {
                bool found = false;
                for (size_t i = 0; i < mine.size() && !found; ++i) {
                    auto &br = *mine[i];
                    static const int C[] = {-2, -2, -2, -2, -1, -3, -4, -5, -6, -8};
                    bool same = !used[i] && (br.kind == HINT || lb.contents == C[br.kind]);
                    for (int k = 0; k < 3; ++k)
                        same = same && std::fabs(lb.lo[k] + off[k] - br.lo[k]) < 0.05 && std::fabs(lb.hi[k] + off[k] - br.hi[k]) < 0.05;
                    if (!same)
                        continue;
                    std::vector<bool> hit(br.b.pl.size());
                    for (size_t k = 0; k < br.b.pl.size(); ++k)
                        hit[k] = std::fabs(br.b.pl[k].n[0]) > 0.9999 || std::fabs(br.b.pl[k].n[1]) > 0.9999 || std::fabs(br.b.pl[k].n[2]) > 0.9999;
                    for (auto &pf : lb.faces) {
                        V n{pf[0], pf[1], pf[2]};
                        double d = pf[3] + dot(n, off);
                        for (auto &poly : br.faces)
                            for (auto &q : poly)
                                same = same && dot(n, q) - d < 0.1;
                        for (size_t k = 0; k < br.b.pl.size(); ++k)
                            if (dot(n, br.b.pl[k].n) > 0.99999 && std::fabs(br.b.pl[k].d - d) < 0.05)
                                hit[k] = true;
                        if (std::fabs(n[0]) > 0.9999 || std::fabs(n[1]) > 0.9999 || std::fabs(n[2]) > 0.9999)
                            c.fail("brushlist", "an axial plane is stored");
                    }
                    for (bool h : hit)
                        same = same && h;
                    if (same) {
                        used[i] = true;
                        found = true;
                    }
                }
                if (!found)
                    c.fail("brushlist", cat("model ", pm.modelnum, " has a brush of ", lb.lo[0], " ", lb.lo[1], " ", lb.lo[2], " to ", lb.hi[0], " ", lb.hi[1], " ", lb.hi[2], " contents ", lb.contents, " with ", lb.faces.size(), " planes that is not in the map"));
            }
        }
        for (auto &br : m.brushes)
            if (br.model >= 0 && br.kind != ILLUS)
                c.require(models.count(br.model) > 0, "brushlist", cat("model ", br.model, " is left out"));
        c.label("brush list");
    } else
        c.require(!out.bspx.count("BRUSHLIST"), "brushlist", "a BRUSHLIST nobody asked for");
    c.nt(apart >= 20 || (checked >= 20 && odd));
}
VH_MAIN("C36", "at least 20 faces whose entity has keys that change what light is told, or 20 faces and luxels of other sizes", (std::vector<std::string>{"faces that lie within none of the brush sides of their texture are left to C24"}), vh::Sub{"keys", keys, 1500, 100000})
