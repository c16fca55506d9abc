// C29: smoothed normals
#include "ltcase.hh"
#include <common/json.hh>

static double ang(V a, V b) { return std::acos(std::clamp(dot(a, b) / (len(a) * len(b)), -1.0, 1.0)); }
static V vertex_area(const Poly &p) // normal times area
{
    V r{};
    for (size_t i = 1; i + 1 < p.size(); ++i)
        r = r + cross(p[i] - p[0], p[i + 1] - p[0]) * 0.5;
    return r;
}
static V centroid(const Poly &p)
{
    V r{};
    double a = 0;
    for (size_t i = 1; i + 1 < p.size(); ++i) {
        double t = len(cross(p[i] - p[0], p[i + 1] - p[0]));
        r = r + (p[0] + p[i] + p[i + 1]) * (t / 3);
        a += t;
    }
    return r * (1 / a);
}
static uint32_t u32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static float f32(const uint8_t *p)
{
    float f;
    memcpy(&f, p, 4);
    return f;
}
struct Wish
{
    double angle = 0, concave = 0; // as it is in effect
    int group = 0;
    bool none = false;
};
// a prism or pyramid stump with n sides
static std::vector<std::array<V, 3>> round_thing(Src &s, V lo, V hi)
{
    int n = (int)s.i(5, 12), axis = (int)s.draw(3);
    double turn = s.unit() * 6.28;
    V mid = (lo + hi) * 0.5, half = (hi - lo) * 0.5;
    int u = (axis + 1) % 3, v = (axis + 2) % 3;
    double taper = s.pick<double>({1, 1, 0.75, 0.5});
    auto corner = [&](int i, bool top) {
        V p{};
        double a = turn + i * 2 * M_PI / n, k = top ? taper : 1;
        p[u] = std::round(mid[u] + half[u] * std::cos(a) * k);
        p[v] = std::round(mid[v] + half[v] * std::sin(a) * k);
        p[axis] = top ? hi[axis] : lo[axis];
        return p;
    };
    std::vector<std::array<V, 3>> r;
    V up{};
    up[axis] = 1;
    r.push_back(points(up, hi));
    r.push_back(points(up * -1, lo));
    for (int i = 0; i < n; ++i) {
        V a = corner(i, false), b = corner(i + 1, false), t = corner(i, true);
        if (len(a - b) < 1)
            continue;
        std::array<V, 3> x{a, b, t};
        // outwards
        auto pl = plane_of(x);
        if (dot(pl.n, mid) > pl.d)
            x = {b, a, t};
        r.push_back(x);
    }
    return r;
}
static void phong(Case &c)
{
    Src &s = c.s;
    Map m;
    m.ver = s.pick<const bspversion_t *>({&bspver_q1, &bspver_q1, &bspver_bsp2, &bspver_hl, &bspver_h2, &bspver_q2, &bspver_q2, &bspver_qbism});
    m.q2 = m.ver == &bspver_q2 || m.ver == &bspver_qbism;
    V lo{-256, -256, -160}, hi{256, 256, 160};
    m.lo = lo - V{16, 16, 16};
    m.hi = hi + V{16, 16, 16};
    m.rooms.push_back({lo, hi});
    std::vector<Wish> wish(1);
    std::vector<std::string> sayings;
    auto name = [&](int ent) { return std::string(m.q2 ? "e/p" : "p") + std::to_string(ent); };
    auto kinds = [&](Ent &e, Wish &w, bool model) {
        std::string said = e.cls;
        auto key = [&](std::string k, std::string v) {
            e.kv.push_back({k, v});
            said += " " + k + "=" + v;
        };
        switch (s.draw(6)) {
            case 0: break;
            case 1:
            case 2: key("_phong", "1"), w.angle = 89; break;
            default: {
                w.angle = (double)s.i(5, 170);
                key("_phong_angle", f2s(w.angle));
                if (s.b())
                    key("_phong", "1");
            }
        }
        if (s.chance(1, 3)) {
            w.concave = (double)s.i(1, 170);
            key("_phong_angle_concave", f2s(w.concave));
        }
        if (s.chance(1, 3)) {
            w.group = (int)s.i(1, 2);
            key("_phong_group", std::to_string(w.group));
        }
        (void)model;
        sayings.push_back(said);
    };
    m.ents.push_back({"worldspawn"});
    bool world = s.chance(1, 3); // others inherit then
    if (world)
        kinds(m.ents[0], wish[0], false);
    for (int k = 0; k < 3; ++k)
        for (int d = 0; d < 2; ++d) {
            V a = m.lo, b = m.hi;
            (d ? a[k] : b[k]) = d ? hi[k] : lo[k];
            add(m, s, box_planes(a, b), SOLID, 0, true);
        }
    Ent player{"info_player_start"};
    player.origin = V{-240, -240, 140};
    m.occupants.push_back(*player.origin);
    int n = (int)s.i(1, 5);
    for (int i = 0; i < n; ++i) {
        Ent e{s.pick<const char *>({"func_group", "func_detail", "func_group", "func_wall", "func_detail"})};
        if (m.q2 && e.cls == "func_detail")
            e.cls = "func_group";
        Wish w = {};
        bool model = e.cls == "func_wall";
        if (wish[0].angle && !model) {
            // (the world's angle goes for all that is part of it)
            w.angle = wish[0].angle;
            if (s.chance(1, 3)) {
                w.concave = (double)s.i(1, 170);
                e.kv.push_back({"_phong_angle_concave", f2s(w.concave)});
            }
            if (s.chance(1, 3)) {
                w.group = (int)s.i(1, 2);
                e.kv.push_back({"_phong_group", std::to_string(w.group)});
            }
            sayings.push_back(e.cls);
            for (auto &[k, v] : e.kv)
                sayings.back() += " " + k + "=" + v;
        } else if (model && wish[0].angle) {
            w.angle = (double)s.i(5, 170);
            e.kv.push_back({"_phong_angle", f2s(w.angle)});
            sayings.push_back(e.cls + " _phong_angle=" + f2s(w.angle));
        } else
            kinds(e, w, model);
        if (model)
            e.model = m.models++;
        m.ents.push_back(e);
        wish.push_back(w);
        int ent = (int)m.ents.size() - 1;
        int parts = (int)s.i(1, 3);
        V at{(double)s.i(-11, 7) * 16, (double)s.i(-11, 7) * 16, s.b() ? -160.0 : (double)s.i(-9, 4) * 16};
        for (int k = 0; k < parts; ++k) {
            V size{(double)s.i(2, 7) * 16, (double)s.i(2, 7) * 16, (double)s.i(1, 6) * 16};
            V b = at + size;
            for (int j = 0; j < 3; ++j)
                b[j] = std::min(b[j], hi[j] - 16);
            if (b[0] - at[0] < 16 || b[1] - at[1] < 16 || b[2] - at[2] < 16)
                break;
            int before = (int)m.brushes.size();
            int kind = e.cls == "func_detail" ? DETAIL : SOLID;
            if (s.chance(2, 3))
                add(m, s, round_thing(s, at, b), kind, ent);
            else if (auto q = convex(s, at, b, (int)s.i(1, 3)))
                add(m, s, *q, kind, ent);
            for (int j = before; j < (int)m.brushes.size(); ++j)
                m.brushes[j].model = model ? e.model : 0;
            // the next one beside it, so that they share an edge
            int axis = (int)s.draw(3);
            at[axis] = b[axis];
        }
    }
    m.ents.push_back(player);
    for (auto &b : m.brushes)
        for (auto &sd : b.sides) {
            sd.tex = name(b.ent);
            sd.flags = sd.value = 0;
            sd.scale[0] = std::fabs(sd.scale[0]);
            if (m.q2) {
                b.written = b.contents = 1;
                if (s.chance(1, 6))
                    sd.value = (int)s.i(1, 2);
                if (s.chance(1, 12))
                    sd.flags = s.pick<int>({1, 0x40, 2});
            }
        }
    write_text(m);
    for (auto &x : sayings)
        c.describe(x);
    c.describe(about(m));
    Out out = compile(c, m, "m", m.q2 ? std::vector<std::string>{} : std::vector<std::string>{"-missing_textures_as_zero_size"});
    // some materials refuse it
    std::string json = bm::slurp(out.base + ".texinfo.json").empty() ? "{}" : std::string((char *)bm::slurp(out.base + ".texinfo.json").data(), bm::slurp(out.base + ".texinfo.json").size());
    int refuses = s.chance(1, 4) ? (int)s.i(1, (int)wish.size() - 1) : 0;
    if (refuses && refuses < (int)wish.size()) {
        nlohmann::json j = nlohmann::json::parse(json);
        for (size_t i = 0; i < out.bsp.texinfo.size(); ++i) {
            auto &ti = out.bsp.texinfo[i];
            std::string t = m.q2 ? std::string(ti.texture.data()) : ti.miptex >= 0 && ti.miptex < (int)out.bsp.dtex.textures.size() ? out.bsp.dtex.textures[ti.miptex].name : "";
            if (t == name(refuses))
                j[std::to_string(i)]["no_phong"] = true;
        }
        wish[refuses].none = true;
        std::ofstream(out.base + ".texinfo.json") << j;
        c.describe(cat("entity ", refuses, " has no_phong"));
    }
    std::vector<std::string> args{"-wrnormals", "-phongdebug", "-bounce", "0"};
    bool rgb = m.q2 || m.ver == &bspver_hl;
    if (!rgb)
        args.push_back("-lit");
    Lit r = light(out.base, args);
    auto fs = faces(r.bsp, m.q2);
    // normals as stored
    if (!r.bspx.count("FACENORMALS"))
        c.fail("lump", "no FACENORMALS");
    auto &l = r.bspx.at("FACENORMALS");
    size_t total = 0;
    for (auto &f : fs)
        total += f.pts.size();
    if (l.size() < 4)
        c.fail("lump", "FACENORMALS too small");
    size_t count = u32(l.data());
    if (l.size() != 4 + 12 * count + 12 * total)
        c.fail("lump", cat("FACENORMALS of ", l.size(), " bytes for ", count, " normals and ", total, " vertices"));
    auto stored = [&](size_t i) {
        V v{};
        for (int k = 0; k < 3; ++k)
            v[k] = f32(l.data() + 4 + 12 * i + 4 * k);
        return v;
    };
    // and as they should be
    size_t nf = fs.size();
    std::vector<Wish> w(nf);
    std::map<int, std::vector<int>> at; // faces at a vertex
    auto vertex = [&](int f, int k) {
        auto &x = r.bsp.dfaces[f];
        int e = r.bsp.dsurfedges[x.firstedge + k];
        return (int)(e < 0 ? r.bsp.dedges[-e][1] : r.bsp.dedges[e][0]);
    };
    std::vector<V> area(nf), mid(nf);
    for (size_t f = 0; f < nf; ++f) {
        for (size_t e = 0; e < wish.size(); ++e)
            if (fs[f].tex == name((int)e))
                w[f] = wish[e];
        if (m.q2 && !w[f].group && fs[f].value && !(fs[f].flags & 1))
            w[f].group = fs[f].value;
        if (w[f].angle == 0 && w[f].group)
            w[f].angle = 89;
        if (w[f].concave == 0)
            w[f].concave = w[f].angle;
        for (size_t k = 0; k < fs[f].pts.size(); ++k)
            at[vertex((int)f, (int)k)].push_back((int)f);
        area[f] = vertex_area(fs[f].pts);
        mid[f] = centroid(fs[f].pts);
    }
    // slivers whose area and angles are anything
    std::vector<bool> poor(nf, false);
    for (size_t f = 0; f < nf; ++f) {
        auto &q = fs[f].pts;
        std::set<int> seen;
        for (size_t k = 0; k < q.size(); ++k) {
            V a = q[(k + 1) % q.size()] - q[k], b = q[(k + 2) % q.size()] - q[(k + 1) % q.size()];
            if (len(a) < 0.25 || !seen.insert(vertex((int)f, (int)k)).second || dot(cross(a, b), area[f]) < -1e-3 * len(a) * len(b) * len(area[f]))
                poor[f] = true;
        }
        if (q.size() < 3 || len(area[f]) < 4)
            poor[f] = true;
    }
    std::vector<std::set<int>> with(nf);
    std::vector<bool> unsure(nf, false);
    int pairs = 0, apart_ = 0, concaves = 0;
    for (size_t f = 0; f < nf; ++f) {
        if (w[f].none || (!w[f].angle && !w[f].concave))
            continue;
        std::set<int> near;
        for (size_t k = 0; k < fs[f].pts.size(); ++k)
            near.insert(at[vertex((int)f, (int)k)].begin(), at[vertex((int)f, (int)k)].end());
        for (int g : near) {
            if (g == (int)f || w[g].none || (!w[g].angle && !w[g].concave) || w[f].group != w[g].group)
                continue;
            int mask = m.q2 ? 4 | 8 | 16 | 32 | 64 | 128 : 1;
            if ((fs[f].flags & mask) != (fs[g].flags & mask))
                continue;
            double d = dot(fs[f].n, mid[g]) - fs[f].d;
            bool concave = d > 0.1;
            double convexlimit = std::min(w[f].angle, w[g].angle), concavelimit = std::min(w[f].concave, w[g].concave);
            double limit = concave ? concavelimit : convexlimit;
            double a = ang(fs[f].n, fs[g].n) * 180 / M_PI;
            bool same = (a <= convexlimit) == (a <= concavelimit);
            if (std::fabs(a - limit) < 0.15 || (!same && std::fabs(d - 0.1) < 0.05))
                unsure[f] = true;
            if (a <= limit) {
                with[f].insert(g);
                pairs += a > 1;
                concaves += concave;
            } else
                ++apart_;
        }
    }
    const uint8_t *p = l.data() + 4 + 12 * count;
    int checked = 0, bent = 0;
    std::vector<std::vector<V>> normals(nf);
    for (size_t f = 0; f < nf; ++f)
        for (size_t k = 0; k < fs[f].pts.size(); ++k, p += 12) {
            for (int j = 0; j < 3; ++j)
                if (u32(p + 4 * j) >= count)
                    c.fail("lump", cat("face ", f, " names normal ", u32(p + 4 * j), " of ", count));
            V got = stored(u32(p)), tangent = stored(u32(p + 4)), bitangent = stored(u32(p + 8));
            normals[f].push_back(got);
            if (std::fabs(len(got) - 1) > 0.01)
                c.fail("length", cat("face ", f, " vertex ", k, ": normal ", str(got)));
            if (unsure[f])
                continue;
            V want{};
            int v = vertex((int)f, (int)k);
            double total = 0;
            bool thin = false;
            auto part = [&](int g) {
                auto &q = fs[g].pts;
                for (size_t j = 0; j < q.size(); ++j)
                    if (vertex(g, (int)j) == v) {
                        V a = q[(j + q.size() - 1) % q.size()] - q[j], b = q[(j + 1) % q.size()] - q[j];
                        double x = len(area[g]) * ang(a, b);
                        if (poor[g])
                            thin = true;
                        want = want + fs[g].n * x;
                        total += x;
                    }
            };
            part((int)f);
            for (int g : with[f])
                part(g);
            if (thin || len(want) < 0.05 * total) // the directions cancel
                continue;
            want = unit(want);
            ++checked;
            bent += dot(want, fs[f].n) < 0.9999;
            if (len(got - want) > 0.012)
                c.fail(with[f].empty() ? "flat" : "normal", cat("face ", f, " (", fs[f].tex, ", ", with[f].size(), " neighbours) at ", str(fs[f].pts[k]), ": normal ", str(got), ", not ", str(want), ", the face's is ", str(fs[f].n)));
            // along the texture's axes, mixed the same way
            auto mixed = [&](int which, V got) {
                V sum{};
                double total = 0, rough = 0;
                auto part = [&](int g) {
                    V ax = which ? unit(cross(fs[g].s, fs[g].n)) : unit(cross(fs[g].t, fs[g].n));
                    if (dot(ax, which ? fs[g].t : fs[g].s) < 0)
                        ax = ax * -1;
                    double lean = len(cross(unit(fs[g].t), fs[g].n));
                    if (which)
                        lean = len(cross(unit(fs[g].s), fs[g].n));
                    auto &q = fs[g].pts;
                    for (size_t j = 0; j < q.size(); ++j)
                        if (vertex(g, (int)j) == v) {
                            double x = len(area[g]) * ang(q[(j + q.size() - 1) % q.size()] - q[j], q[(j + 1) % q.size()] - q[j]);
                            sum = sum + ax * x;
                            total += x;
                            if (lean < 0.05)
                                rough += x;
                        }
                };
                part((int)f);
                for (int g : with[f])
                    part(g);
                if (len(sum) < 0.05 * total || rough > 0)
                    return;
                if (len(got - unit(sum)) > 0.012)
                    c.fail(which ? "bitangent" : "tangent", cat("face ", f, " (", fs[f].tex, "), normal ", str(fs[f].n), ", s ", str(fs[f].s), ", t ", str(fs[f].t), ", ", with[f].size(), " neighbours: ", str(got), ", not ", str(unit(sum))));
            };
            mixed(0, tangent);
            mixed(1, bitangent);
        }
    // how they are used
    Setup u;
    u.m = m;
    Blocks walls = blocks_of(m);
    double top = m.q2 ? 255 : 127.5;
    const uint8_t *col = rgb ? r.bsp.dlightdata.data() : r.lit && r.lit->size() >= 8 ? r.lit->data() + 8 : nullptr;
    size_t len_ = rgb ? r.bsp.dlightdata.size() : r.lit ? r.lit->size() - 8 : 0;
    int luxels = 0;
    for (auto &f : fs) {
        if (!f.lit || !f.sure || f.pts.size() < 3)
            continue;
        if (!w[f.num].angle && w[f.num].concave) // a limit for concave joints means nothing by itself
            continue;
        auto &face = r.bsp.dfaces[f.num];
        const uint8_t *q = col + (rgb ? 1 : 3) * (size_t)face.lightofs;
        if (face.lightofs >= 0 && (!col || q + 3 * f.size[0] * f.size[1] > col + len_))
            c.fail("luxels", cat("face ", f.num, " has its light outside the lump"));
        int step = std::max(1, f.size[0] * f.size[1] / 12);
        for (int i = (int)s.draw(step); i < f.size[0] * f.size[1]; i += step) {
            V x = f.at(i % f.size[0], i / f.size[0]);
            if (inset(f.pts, f.n, x) < 0.3)
                continue;
            bool in = walls.near(x + f.n, 0.3) || maybe_solid(r.bsp, r.bsp.dmodels[0].headnode[0], x + f.n, m.q2) || (f.model && maybe_solid(r.bsp, r.bsp.dmodels[f.model].headnode[0], x + f.n, m.q2));
            for (auto &b : m.brushes)
                in = in || (b.model && b.b.in(x + f.n, 0.3));
            if (in)
                continue;
            // mixed from the corners of a triangle, whichever way the face is cut
            V least{1e9, 1e9, 1e9}, most{-1, -1, -1};
            int found = 0;
            size_t k = f.pts.size();
            for (size_t o = 0; o < k; ++o)
                for (size_t j = 1; j + 1 < k; ++j) {
                    size_t id[3] = {o, (o + j) % k, (o + j + 1) % k};
                    V a = f.pts[id[0]], b = f.pts[id[1]], d = f.pts[id[2]];
                    V N = cross(b - a, d - a);
                    double A = dot(N, N);
                    if (A < 1e-6)
                        continue;
                    double wa = dot(cross(b - x, d - x), N) / A, wb = dot(cross(d - x, a - x), N) / A, wd = 1 - wa - wb;
                    double eps = -0.02;
                    if (wa < eps || wb < eps || wd < eps)
                        continue;
                    V mix = normals[f.num][id[0]] * wa + normals[f.num][id[1]] * wb + normals[f.num][id[2]] * wd;
                    ++found;
                    for (int z = 0; z < 3; ++z) {
                        least[z] = std::min(least[z], std::fabs(mix[z]));
                        most[z] = std::max(most[z], std::fabs(mix[z]));
                    }
                }
            if (found <= 0)
                continue;
            ++luxels;
            if (face.lightofs < 0)
                c.fail("luxels", cat("face ", f.num, " has no light, though ", str(x), " is in the open"));
            const uint8_t *g = q + 3 * i;
            for (int z = 0; z < 3; ++z)
                if (g[z] < least[z] * top - 3.5 || g[z] > most[z] * top + 3.5)
                    c.fail("luxel", cat("face ", f.num, " (", f.tex, ") at ", str(x), ": normal of ", (int)g[0], " ", (int)g[1], " ", (int)g[2], ", not ", str(least * top), " to ", str(most * top)));
        }
    }
    if (concaves)
        c.label("smooth concave joint");
    if (apart_)
        c.label("too sharp");
    if (refuses)
        c.label("refused");
    c.nt(bent > 5 && checked > 20 && luxels > 5);
}
static const std::vector<std::string> assume{};
VH_MAIN("C29", "more than 5 vertices have a normal that is not their face's, and more than 5 luxels were compared", assume,
    vh::Sub{"phong", phong, 400, 8000, false, 120, false})
