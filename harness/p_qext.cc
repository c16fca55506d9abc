// C37: prefabs, aliases and replaced textures
#include "qmap.hh"
#include <common/entdata.h>
using namespace qm;

struct M3
{
    double a[3][3];
    V operator*(V v) const
    {
        V r;
        for (int i = 0; i < 3; ++i)
            r[i] = a[i][0] * v[0] + a[i][1] * v[1] + a[i][2] * v[2];
        return r;
    }
    V back(V v) const // of a rotation
    {
        V r;
        for (int i = 0; i < 3; ++i)
            r[i] = a[0][i] * v[0] + a[1][i] * v[1] + a[2][i] * v[2];
        return r;
    }
};
// nose down, turned left, rolled: forward is +x, left +y, up +z
static M3 turned(V ang)
{
    double p = ang[0] * M_PI / 180, y = ang[1] * M_PI / 180, r = ang[2] * M_PI / 180;
    V f{cos(p) * cos(y), cos(p) * sin(y), -sin(p)};
    V l{-sin(y), cos(y), 0}, u = cross(f, l);
    V l2 = l * cos(r) + u * sin(r), u2 = u * cos(r) - l * sin(r);
    M3 m;
    for (int i = 0; i < 3; ++i) {
        m.a[i][0] = f[i];
        m.a[i][1] = l2[i];
        m.a[i][2] = u2[i];
    }
    return m;
}
struct Place
{
    M3 rot;
    V scale, origin;
    int model; // 0: of the world
    std::string name;
    std::string cls;
    V to(V p) const { return rot * V{p[0] * scale[0], p[1] * scale[1], p[2] * scale[2]} + origin; }
    V from(V p) const
    {
        p = rot.back(p - origin);
        return {p[0] / scale[0], p[1] / scale[1], p[2] / scale[2]};
    }
};
static std::string str3(V v) { return n2s(v[0]) + " " + n2s(v[1]) + " " + n2s(v[2]); }

static void prefabs(Case &c)
{
    Src &s = c.s;
    Opt o;
    o.maxbrushes = 3;
    Map m = gen(c, o);
    if (s.chance(1, 4))
        m.args.push_back(m.q2 ? "-nochop" : "-chop");
    // the prefab
    Map pm;
    pm.q2 = m.q2;
    pm.ver = m.ver;
    pm.ents.push_back({"worldspawn"});
    int nb = (int)s.i(1, 4), fresh = 0;
    for (int i = 0; i < nb; ++i) {
        V a, b;
        for (int k = 0; k < 3; ++k) {
            a[k] = (double)s.i(-80, 60);
            b[k] = a[k] + (double)s.i(8, 60);
        }
        int ent = 0;
        if (s.chance(1, 3)) {
            pm.ents.push_back({s.pick<const char *>({"func_group", "func_wall"})});
            ent = (int)pm.ents.size() - 1;
        }
        auto pl = convex(s, a, b, (int)s.draw(4));
        int bi = add(pm, s, *pl, s.chance(1, 5) ? WATER : SOLID, ent);
        auto &br = pm.brushes[bi];
        for (auto &sd : br.sides) {
            sd.tex = std::string(m.q2 ? "e/" : br.kind == WATER ? "*" : "") + "pf" + std::to_string(fresh++);
            sd.flags = 0;
            sd.value = 0;
        }
    }
    if (s.b()) { // nobody takes these
        Ent e{"light"};
        e.origin = V{1, 2, 3};
        pm.ents.insert(pm.ents.begin() + 1 + s.draw(pm.ents.size()), e);
    }
    if (s.b())
        pm.ents[0].kv.push_back({"message", "of the prefab"});
    write_text(pm);
    std::string file = c.scratch + "/prefab.map";
    bm::spew(file, std::vector<uint8_t>(pm.text.begin(), pm.text.end()));
    if (const char *d = getenv("VH_DUMP"))
        bm::spew(std::string(d) + "/prefab.map", std::vector<uint8_t>(pm.text.begin(), pm.text.end()));
    // where it goes
    std::vector<Place> at_;
    int np = (int)s.i(1, 3);
    std::vector<Ent> mine;
    for (int i = 0; i < np; ++i) {
        Place pl;
        V ang{};
        Ent e{"misc_external_map"};
        e.kv.push_back({"_external_map", file});
        pl.cls = s.pick<const char *>({"func_wall", "func_door", "func_group", "func_detail", "func_wall"});
        if (m.q2 && pl.cls == "func_detail")
            pl.cls = "func_group";
        e.kv.push_back({"_external_map_classname", pl.cls});
        pl.name = "pf" + std::to_string(i);
        e.kv.push_back({"targetname", pl.name});
        switch (s.draw(5)) {
            case 0: break;
            case 1:
            case 2:
                for (int k = 0; k < 3; ++k)
                    ang[k] = s.b() ? (double)s.i(-180, 360) : 90.0 * (double)s.i(-1, 3);
                e.kv.push_back({"_external_map_angles", str3(ang)});
                if (s.chance(1, 4) && len(ang) > 1)
                    e.kv.push_back({"_external_map_angle", "77"}); // the long version wins
                break;
            default:
                ang[1] = s.b() ? (double)s.i(-180, 360) : 90.0 * (double)s.i(0, 3);
                e.kv.push_back({"_external_map_angle", n2s(ang[1])});
        }
        pl.scale = {1, 1, 1};
        static const double S[] = {0.5, 1, 2, 1.5, 0.75, 3};
        if (s.chance(1, 3)) {
            double f = S[s.draw(6)];
            pl.scale = {f, f, f};
            e.kv.push_back({"_external_map_scale", n2s(f)});
        } else if (s.chance(1, 2)) {
            pl.scale = {S[s.draw(6)], S[s.draw(6)], S[s.draw(6)]};
            e.kv.push_back({"_external_map_scale", str3(pl.scale)});
        }
        pl.rot = turned(ang);
        auto &room = m.rooms[s.draw(m.rooms.size())];
        for (int k = 0; k < 3; ++k)
            pl.origin[k] = (double)s.i((int)room.first[k], (int)room.second[k]);
        if (s.chance(1, 6))
            pl.origin = {};
        else
            e.origin = pl.origin;
        if (!e.origin && s.b())
            e.origin = pl.origin;
        // models are numbered by entities
        pl.model = pl.cls == "func_wall" || pl.cls == "func_door" ? m.models++ : 0;
        e.model = pl.model ? pl.model : -1;
        m.ents.push_back(e);
        at_.push_back(pl);
    }
    write_text(m);
    // what comes of it
    for (auto &pl : at_)
        for (auto &pb : pm.brushes) {
            Brush b;
            b.kind = pl.model && !m.q2 ? (int)SOLID : pl.cls == "func_detail" && pb.kind == SOLID ? (int)DETAIL : pb.kind;
            b.contents = pb.contents;
            b.model = pl.model;
            for (auto &q : pb.b.pl) {
                V n = pl.rot * V{q.n[0] / pl.scale[0], q.n[1] / pl.scale[1], q.n[2] / pl.scale[2]};
                Plane z;
                z.n = unit(n);
                V on = q.n * q.d;
                z.d = dot(z.n, pl.to(on));
                b.b.pl.push_back(z);
            }
            b.faces = b.b.faces();
            b.lo = {1e9, 1e9, 1e9};
            b.hi = {-1e9, -1e9, -1e9};
            for (auto &f : b.faces)
                for (auto &q : f)
                    for (int k = 0; k < 3; ++k) {
                        b.lo[k] = std::min(b.lo[k], q[k]);
                        b.hi[k] = std::max(b.hi[k], q[k]);
                    }
            m.brushes.push_back(b);
        }
    bool anybody = false; // a map that is solid all over has no tree
    for (auto &p : m.occupants) {
        bool free = true;
        for (auto &br : m.brushes)
            free = free && !(br.model == 0 && br.b.in(p, 4));
        anybody = anybody || free;
    }
    if (!anybody)
        throw vh::Discard{};
    c.describe(cat(about(m), "; ", nb, " brushes in the prefab, as ", at_[0].cls, np > 1 ? " and others" : ""));
    Out out = compile(c, m);
    auto &b = out.bsp;
    c.require((int)b.dmodels.size() == m.models, "models", cat(b.dmodels.size(), " models instead of ", m.models));
    auto ents = EntData_Parse(b);
    for (auto &pl : at_) {
        entdict_t *d = nullptr;
        for (auto &e : ents)
            if (e.get("targetname") == pl.name)
                d = &e;
        if (!pl.model) {
            c.require(!d, "entity", "an entity whose brushes went into the world is still there");
            continue;
        }
        c.require(d, "entity", "the entity is lost");
        c.require(d->get("classname") == pl.cls, "entity", cat("classname ", d->get("classname"), " instead of ", pl.cls));
        c.require(d->get("model") == cat("*", pl.model), "entity", cat("model ", d->get("model"), " instead of *", pl.model));
        c.require(!d->has("origin") || d->get("origin") == "0 0 0", "entity", cat("origin ", d->get("origin")));
    }
    for (auto &e : ents)
        c.require(e.get("classname") != "misc_external_map" && e.get("message") != "of the prefab" && e.get("origin") != "1 2 3", "entity", "something of the prefab besides brushes is there");
    // points
    int n = 0, in = 0;
    Reach seen = reach(m);
    for (int t = 0; t < 150; ++t) {
        auto &pl = at_[s.draw(at_.size())];
        int mo = pl.model;
        V p;
        V l;
        if (t % 3)
            l = inside(s, pm.brushes[s.draw(pm.brushes.size())].faces);
        else
            for (int k = 0; k < 3; ++k)
                l[k] = (double)s.i(-100, 130) + 0.37;
        p = pl.to(l);
        if (margin(m, mo, p) < 0.15)
            continue;
        bool inside_map = true;
        for (int k = 0; k < 3; ++k)
            inside_map = inside_map && p[k] > m.lo[k] && p[k] < m.hi[k];
        auto v = at(m, mo, p);
        int want = native(m, v);
        int leaf = leaf_at(b, mo, p);
        c.require(leaf >= 0 && leaf < (int)b.dleafs.size(), "tree", cat("leaf ", leaf));
        int got = b.dleafs[leaf].contents, solid = m.q2 ? 1 : -2;
        if (m.q2 && got & 1)
            got = 1;
        ++n;
        in += !v.empty();
        bool sure = mo || want == solid || (inside_map && seen(p));
        if (got != want && (sure || got != solid))
            c.fail("contents", cat("at ", str(p), " (", str(l), " of the prefab, now ", pl.cls, ") in ", names(v), " the leaf is ", got, ", not ", want));
    }
    // faces
    int faces = 0;
    std::map<std::string, std::pair<const Brush *, int>> side;
    for (auto &br : pm.brushes)
        for (size_t i = 0; i < br.sides.size(); ++i)
            side[br.sides[i].tex] = {&br, (int)i};
    for (size_t mi = 0; mi < b.dmodels.size(); ++mi)
        for (int fi = b.dmodels[mi].firstface; fi < b.dmodels[mi].firstface + b.dmodels[mi].numfaces; ++fi) {
            auto &f = b.dfaces[fi];
            auto it = side.find(Face_TextureName(&b, &f));
            if (it == side.end())
                continue;
            auto &sd = it->second.first->sides[it->second.second];
            auto &ti = b.texinfo[f.texinfo];
            Poly win;
            for (int k = 0; k < f.numedges; ++k)
                win.push_back(vec(b.dvertexes[Face_VertexAtIndex(&b, &f, k)]));
            if (width(win) < 0.5)
                continue; // what is left of an edge
            ++faces;
            bool ok = false, home = false;
            double worst = 1e9;
            std::string away;
            for (auto &pl : at_) {
                if (pl.model != (int)mi)
                    continue;
                bool on = true;
                double tol = 0.3 / std::min({pl.scale[0], pl.scale[1], pl.scale[2], 1.0});
                double far = 0;
                for (int k = 0; k < f.numedges; ++k) {
                    V v = vec(b.dvertexes[Face_VertexAtIndex(&b, &f, k)]), l = pl.from(v);
                    away += cat(str(v), " at ", str(l), " off ", it->second.first->b.pl[it->second.second].at(l), "; ");
                    for (auto &z : it->second.first->b.pl)
                        if (z.at(l) > tol)
                            away += cat("(", str(z.n), " ", z.d, " by ", z.at(l), ") ");
                    on = on && std::fabs(it->second.first->b.pl[it->second.second].at(l)) < tol && it->second.first->b.in(l, tol * 30); // clipped at shallow angles
                    for (int q = 0; q < 2; ++q) {
                        auto vv = sd.vecs(q);
                        double w = vv[0] * l[0] + vv[1] * l[1] + vv[2] * l[2] + vv[3];
                        double g = ti.vecs.at(q, 0) * v[0] + ti.vecs.at(q, 1) * v[1] + ti.vecs.at(q, 2) * v[2] + ti.vecs.at(q, 3);
                        far = std::max(far, std::fabs(w - g));
                    }
                }
                home = home || on;
                if (on)
                    worst = std::min(worst, far);
                ok = ok || (on && far < 1); // vertices are moved by up to a tenth
            }
            if (!home)
                c.fail("faces", cat("a face of ", it->first, " in model ", mi, " is not on that side of the prefab, it is ", away));
            if (!ok)
                c.fail("texture", cat("the texture of ", it->first, " in model ", mi, " is off by ", worst));
        }
    c.nt(in > 20 && (faces > 0 || n > 60));
}

static void aliases(Case &c)
{
    Src &s = c.s;
    Opt o;
    o.maxbrushes = 4;
    o.minmodels = 1;
    Map m = gen(c, o);
    // the definitions
    static const char *C[] = {"my_torch", "my_wall", "my_group", "other", "light_odd", "func_door", "info_player_start"};
    static const char *TO[] = {"misc_model", "func_wall", "func_group", "info_null", "light", "func_plat", "info_player_deathmatch"};
    static const char *K[] = {"model", "spawnflags", "delay", "targetname", "angle", "_thing"};
    struct Def
    {
        bool cls = false;
        std::string to;
        std::vector<std::pair<std::string, std::string>> kv;
    };
    std::map<std::string, Def> defs;
    int files = (int)s.i(1, 2); // each after an option of its own
    std::vector<std::string> text(files);
    for (int i = 0; i < 7; ++i) {
        if (s.chance(1, 3))
            continue;
        Def d;
        d.cls = i == 1 || i == 2 || s.chance(5, 6);
        d.to = TO[i];
        std::string t = cat(C[i], s.b() ? " // an alias\n" : "\n", "{\n");
        std::vector<std::pair<std::string, std::string>> all;
        int n = (int)s.draw(3);
        for (int k = 0; k < n; ++k) {
            std::string key = K[s.draw(6)];
            bool dup = false;
            for (auto &[a, b] : d.kv)
                dup = dup || a == key;
            if (!dup)
                d.kv.push_back({key, cat("v", s.draw(9))});
        }
        all = d.kv;
        if (d.cls)
            all.insert(all.begin() + s.draw(all.size() + 1), {"classname", d.to});
        for (auto &[a, b] : all)
            t += cat("\"", a, "\" \"", b, "\"", s.chance(1, 4) ? " // takes its place\n" : "\n");
        t += "}\n";
        text[s.draw(files)] += t + (s.b() ? "\n" : "");
        defs[C[i]] = d;
    }
    bool any = false;
    for (int i = 0; i < files; ++i) {
        if (text[i].empty())
            text[i] = "nothing\n{\n\"classname\" \"nothing_else\"\n}\n";
        std::string f = cat(c.scratch, "/a", i, ".def");
        bm::spew(f, std::vector<uint8_t>(text[i].begin(), text[i].end()));
        m.args.push_back("-aliasdef");
        m.args.push_back(f);
    }
    // entities under these names
    int n = (int)s.i(1, 5);
    for (int i = 0; i < n; ++i) {
        Ent e{C[std::vector<int>{0, 3, 4}[s.draw(3)]]};
        e.origin = m.occupants[0] + V{(double)s.i(1, 5), 0, 0};
        int k = (int)s.draw(3);
        for (int j = 0; j < k; ++j) {
            std::string key = K[s.draw(6)];
            bool dup = false;
            for (auto &[a, b] : e.kv)
                dup = dup || a == key;
            if (!dup)
                e.kv.push_back({key, cat("w", s.draw(9))});
        }
        m.ents.push_back(e);
    }
    for (auto &e : m.ents)
        if (e.model > 0 && e.cls == "func_wall")
            e.cls = "my_wall";
        else if (e.cls == "func_group" && defs.count("my_group") && s.b())
            e.cls = "my_group";
    write_text(m);
    c.describe(cat(about(m), "; ", defs.size(), " aliases"));
    Out out = compile(c, m);
    auto &b = out.bsp;
    c.require((int)b.dmodels.size() == m.models, "models", cat(b.dmodels.size(), " models instead of ", m.models));
    auto ents = EntData_Parse(b);
    size_t at = 0;
    int hit = 0;
    for (auto &e : m.ents) {
        std::string cls = e.cls;
        auto kv = e.kv;
        if (defs.count(cls)) {
            auto &d = defs[cls];
            ++hit;
            if (d.cls)
                cls = d.to;
            for (auto &p : d.kv) {
                bool has = false;
                for (auto &q : kv)
                    has = has || q.first == p.first;
                if (!has || p.first == "classname")
                    kv.push_back(p);
            }
        }
        if (cls == "func_group" || cls.rfind("func_detail", 0) == 0 || cls == "func_illusionary_visblocker")
            continue;
        c.require(at < ents.size(), "entities", cls + " is lost");
        auto &d = ents[at++];
        c.require(d.get("classname") == cls, "classname", cat(d.get("classname"), " instead of ", cls, ", written as ", e.cls));
        if (e.model > 0)
            kv.push_back({"model", cat("*", e.model)});
        std::map<std::string, std::string> want;
        for (auto &[k, v] : kv)
            want[k] = v; // the model's number comes last
        for (auto &[k, v] : want)
            c.require(d.get(k) == v, "key", cat(k, " of a ", cls, " is \"", d.get(k), "\" instead of \"", v, "\""));
        for (auto k : K)
            c.require(d.has(k) == (want.count(k) > 0), "key", cat(cls, " has a ", k, " nobody gave it"));
    }
    c.require(at == ents.size(), "entities", cat(ents.size(), " instead of ", at));
    (void)any;
    c.nt(hit >= 1 && m.ents.size() >= 4);
}
VH_MAIN("C37", "prefabs: more than 20 points inside brushes of a placed prefab; aliases: an entity under an alias among at least 4 entities", (std::vector<std::string>{"points within 0.15 units of a plane are not judged", "texture positions may be off by a texel, since vertices are"}), vh::Sub{"prefabs", prefabs, 1500, 60000}, vh::Sub{"aliases", aliases, 1000, 40000})
