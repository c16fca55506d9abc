// generated maps with a known layout, compiled by the real qbsp, and the model of what they hold
#pragma once
#include "bspmodel.hh"
#include "poly.hh"
#include <common/bsputils.hh>
#include <common/bspfile.hh>
#include <common/fs.hh>
#include <common/log.hh>
#include <qbsp/qbsp.hh>
#include <qbsp/map.hh>
#include <fstream>
#include <memory>
namespace qm
{
using namespace pg;
using vh::Case;
using vh::cat;
using vh::Src;

enum Kind
{
    SOLID,
    DETAIL,
    WALL, // func_detail_wall
    FENCE,
    ILLUS,
    WATER,
    SLIME,
    LAVA,
    SKY,
    CLIP,
    HINT,
    WINDOW,
    AUX,
    MIST,
    MCLIP, // monster clip
    AREAPORTAL,
    KINDS
};
inline const char *kind_name(int k)
{
    static const char *N[] = {"solid", "detail", "detail wall", "fence", "illusionary", "water", "slime", "lava", "sky", "clip", "hint", "window", "aux", "mist", "monsterclip", "areaportal"};
    return N[k];
}
struct Side
{
    std::array<V, 3> pts; // integers
    std::string tex;
    std::array<std::array<double, 4>, 2> axis; // unit axis and shift
    double scale[2];
    int flags = 0, value = 0;
    std::array<double, 4> vecs(int i) const { return {axis[i][0] / scale[i], axis[i][1] / scale[i], axis[i][2] / scale[i], axis[i][3]}; }
};
struct Brush
{
    Body b;
    std::vector<Side> sides;
    std::vector<Poly> faces;
    V lo, hi;
    int kind = SOLID;
    int contents = 0; // Quake II
    int written = 0;  // and as the map file says it
    int ent = 0;      // entity it is written in
    int model = 0;    // model it ends up in, -1 if in none
    bool shell = false;
    bool nodraw = false;
    int line = 0;
};
struct Ent
{
    std::string cls;
    std::vector<std::pair<std::string, std::string>> kv;
    std::vector<int> brushes;
    std::optional<V> origin; // point
    int model = -1;
    V offset{}; // origin brush
};
struct Opt
{
    bool q2 = false, may_q2 = true;
    bool leaks = false;
    int kinds = KINDS;
    bool models = true;
    int minmodels = 0;
    int maxbrushes = 14;
    bool detail = true;
    bool overlap = false; // brushes on the same planes
    bool visblock = false;    // func_illusionary_visblocker, too
    bool areaportals = false; // some of the doorways hold one
    std::vector<int> only; // kinds to choose from
};
struct Map
{
    const bspversion_t *ver = nullptr;
    bool q2 = false;
    std::vector<Brush> brushes;
    std::vector<Ent> ents;
    V lo, hi;                              // outside of the shell
    std::vector<std::pair<V, V>> rooms;    // inside
    std::vector<V> occupants;
    bool leak = false;
    std::vector<int> part; // rooms joined by doorways
    std::vector<std::pair<V, V>> doors; // the holes in the walls behind the rooms, empty if there is none
    std::optional<std::pair<V, V>> hole; // the leak's
    std::vector<bool> lived; // somebody in that part
    int models = 1;
    std::vector<std::string> args;
    std::string text;
    bool chops() const { return q2 ? !has("-nochop") : has("-chop"); }
    bool has(const char *a) const { return std::find(args.begin(), args.end(), a) != args.end(); }
};
inline V cell(V v) { return {std::round(v[0]), std::round(v[1]), std::round(v[2])}; }

// three integer points on a plane with an integer normal, so that ( a b c ) faces along n
inline std::array<V, 3> points(V n, V o)
{
    V u = std::fabs(n[0]) + std::fabs(n[1]) > 0 ? V{n[1], -n[0], 0} : V{1, 0, 0};
    V v = cross(n, u);
    auto shrink = [](V &a) {
        for (int k = 8; k > 1; --k)
            if (std::fmod(a[0], k) == 0 && std::fmod(a[1], k) == 0 && std::fmod(a[2], k) == 0)
                a = a * (1.0 / k);
    };
    shrink(u);
    shrink(v);
    u = u * 16;
    v = v * 16;
    // cross(a - b, c - b) along n
    std::array<V, 3> r{o + u, o, o + v};
    if (dot(cross(u, v), n) < 0)
        r = {o + v, o, o + u};
    return r;
}
inline Plane plane_of(const std::array<V, 3> &p)
{
    Plane r;
    r.n = unit(cross(p[0] - p[1], p[2] - p[1]));
    r.d = dot(r.n, p[1]);
    return r;
}
inline void texture(Src &s, Side &sd, V n)
{
    // axes that are not perpendicular to the face
    int k = std::fabs(n[0]) > std::fabs(n[1]) && std::fabs(n[0]) > std::fabs(n[2]) ? 0 : std::fabs(n[1]) > std::fabs(n[2]) ? 1 : 2;
    V a{}, b{};
    a[k == 0 ? 1 : 0] = 1;
    b[k == 2 ? 1 : 2] = -1;
    sd.axis[0] = {a[0], a[1], a[2], (double)s.ito(-64, 64, 0)};
    sd.axis[1] = {b[0], b[1], b[2], (double)s.ito(-64, 64, 0)};
    for (int i = 0; i < 2; ++i)
        sd.scale[i] = s.pick<double>({1, 1, 0.5, 2, -1});
}
inline int add(Map &m, Src &s, const std::vector<std::array<V, 3>> &planes, int kind, int ent, bool shell = false)
{
    Brush b;
    b.kind = kind;
    b.ent = ent;
    b.shell = shell;
    for (auto &p : planes)
        b.b.pl.push_back(plane_of(p));
    b.faces = b.b.faces();
    b.lo = {1e9, 1e9, 1e9};
    b.hi = {-1e9, -1e9, -1e9};
    for (size_t i = 0; i < planes.size(); ++i) {
        if (b.faces[i].empty())
            continue;
        for (auto &q : b.faces[i])
            for (int k = 0; k < 3; ++k) {
                b.lo[k] = std::min(b.lo[k], q[k]);
                b.hi[k] = std::max(b.hi[k], q[k]);
            }
    }
    static const char *Q1[] = {"wall", "dtl", "dwall", "fence", "illus", "*water", "*slime", "*lava", "sky", "clip", "hint", "", "", "", "", ""};
    static const char *Q2[] = {"e/wall", "e/dtl", "", "", "", "e/water", "e/slime", "e/lava", "e/sky", "e/clip", "e/hint", "e/window", "e/aux", "e/mist", "e/mclip", "e/portal"};
    static const int C[] = {1, 1 | 1 << 27, 0, 0, 0, 32, 16, 8, 1, 1 << 16, 0, 2, 4, 64, 1 << 17, 1 << 15};
    b.contents = C[kind];
    if (m.q2 && kind >= WATER && kind != SKY && kind != CLIP && kind != HINT && kind != AREAPORTAL && s.chance(1, 4))
        b.contents |= 1 << 27;
    int written = b.contents;
    if (m.q2 && (kind == CLIP || kind == MCLIP || kind == AUX || kind == MIST))
        b.contents |= 1 << 27; // always so
    b.written = s.b() ? b.contents : written;
    for (auto &p : planes) {
        Side sd;
        sd.pts = p;
        bool plain = kind == CLIP || kind == HINT || kind == MCLIP || kind == AREAPORTAL;
        sd.tex = std::string(m.q2 ? Q2[kind] : Q1[kind]) + (plain ? "" : std::to_string(s.draw(3)));
        texture(s, sd, plane_of(p).n);
        if (m.q2) {
            if (kind == SKY)
                sd.flags = 4;
            if (kind == HINT)
                sd.flags = 0x100;
            if (kind == SOLID && s.chance(1, 10)) {
                sd.flags = 1; // light
                sd.value = (int)s.draw(500);
            }
        }
        b.sides.push_back(sd);
    }
    if (!shell && kind <= WALL && s.chance(1, 10)) {
        // some sides are not drawn
        for (auto &sd : b.sides)
            if (s.b()) {
                sd.tex = m.q2 ? "e/skip" : "skip";
                sd.flags = m.q2 ? 0x80 : 0;
                sd.value = 0;
                b.nodraw = true;
            }
    }
    m.brushes.push_back(b);
    m.ents[ent].brushes.push_back((int)m.brushes.size() - 1);
    return (int)m.brushes.size() - 1;
}
inline std::vector<std::array<V, 3>> box_planes(V lo, V hi)
{
    std::vector<std::array<V, 3>> r;
    for (int k = 0; k < 3; ++k) {
        V n{};
        n[k] = 1;
        r.push_back(points(n, hi));
        n[k] = -1;
        r.push_back(points(n, lo));
    }
    return r;
}
// a box or a convex body cut from one, at least 8 thick
inline std::optional<std::vector<std::array<V, 3>>> convex(Src &s, V lo, V hi, int cuts)
{
    auto p = box_planes(lo, hi);
    Body b = box(lo, hi);
    static const int N[][3] = {{1, 1, 0}, {1, -1, 0}, {0, 1, 1}, {1, 0, -1}, {1, 1, 1}, {3, 4, 0}, {-2, 1, 2}, {1, 2, 0}, {0, -2, 1}, {1, -1, 1}};
    for (int i = 0; i < cuts; ++i) {
        auto *n = N[s.draw(10)];
        double sg = s.b() ? -1 : 1;
        V nn{n[0] * sg, n[1] * sg, n[2] * sg};
        V o{(double)s.i((int)lo[0], (int)hi[0]), (double)s.i((int)lo[1], (int)hi[1]), (double)s.i((int)lo[2], (int)hi[2])};
        auto pts = points(nn, o);
        Plane pl = plane_of(pts);
        Body k = b;
        k.pl.push_back(pl);
        double front = 0, back = 0;
        for (auto &f : b.faces())
            for (auto &q : f) {
                front = std::max(front, pl.at(q));
                back = std::max(back, -pl.at(q));
            }
        if (front < 4 || back < 8)
            continue;
        bool thin = false;
        auto fs = k.faces();
        for (auto &f : fs)
            thin = thin || (!f.empty() && (width(f) < 4 || area(f) < 32));
        if (thin)
            continue;
        p.push_back(pts);
        b = k;
        for (size_t z = p.size(); z-- > 0;)
            if (fs[z].empty()) {
                p.erase(p.begin() + z);
                b.pl.erase(b.pl.begin() + z);
            }
    }
    return p;
}
inline void room_hole(Map &m, Src &s, V lo, V hi, int axis, V hlo, V hhi, bool shell)
{
    // a slab with a rectangular hole: four boxes around it
    int a = (axis + 1) % 3, b = (axis + 2) % 3;
    auto put = [&](V l, V h) {
        for (int k = 0; k < 3; ++k)
            if (h[k] - l[k] < 1)
                return;
        add(m, s, box_planes(l, h), SOLID, 0, shell);
    };
    V l = lo, h = hi;
    h[a] = hlo[a];
    put(l, h);
    l = lo, h = hi;
    l[a] = hhi[a];
    put(l, h);
    l = lo, h = hi;
    l[a] = hlo[a], h[a] = hhi[a], h[b] = hlo[b];
    put(l, h);
    l = lo, h = hi;
    l[a] = hlo[a], h[a] = hhi[a], l[b] = hhi[b];
    put(l, h);
}
inline std::string n2s(double d)
{
    char t[64];
    snprintf(t, sizeof t, "%.12g", d);
    return t;
}
inline void write_text(Map &m)
{
    std::string t;
    int line = 0;
    for (auto &e : m.ents) {
        for (int bi : e.brushes)
            m.brushes[bi].line = line++;
        t += "{\n\"classname\" \"" + e.cls + "\"\n";
        for (auto &[k, v] : e.kv)
            t += "\"" + k + "\" \"" + v + "\"\n";
        if (e.origin)
            t += "\"origin\" \"" + n2s((*e.origin)[0]) + " " + n2s((*e.origin)[1]) + " " + n2s((*e.origin)[2]) + "\"\n";
        for (int bi : e.brushes) {
            auto &b = m.brushes[bi];
            t += "{\n";
            for (auto &s : b.sides) {
                for (auto &p : s.pts)
                    t += "( " + n2s(p[0]) + " " + n2s(p[1]) + " " + n2s(p[2]) + " ) ";
                t += s.tex;
                for (int i = 0; i < 2; ++i)
                    t += " [ " + n2s(s.axis[i][0]) + " " + n2s(s.axis[i][1]) + " " + n2s(s.axis[i][2]) + " " + n2s(s.axis[i][3]) + " ]";
                t += " 0 " + n2s(s.scale[0]) + " " + n2s(s.scale[1]);
                if (m.q2)
                    t += " " + std::to_string(b.written) + " " + std::to_string(s.flags) + " " + std::to_string(s.value);
                t += "\n";
            }
            t += "}\n";
        }
        if (e.offset != V{}) {
            auto bp = box_planes(e.offset - V{8, 8, 8}, e.offset + V{8, 8, 8});
            t += "{\n";
            for (auto &pts : bp) {
                for (auto &p : pts)
                    t += "( " + n2s(p[0]) + " " + n2s(p[1]) + " " + n2s(p[2]) + " ) ";
                t += m.q2 ? "e/origin [ 1 0 0 0 ] [ 0 -1 0 0 ] 0 1 1 16777216 0 0\n" : "origin [ 1 0 0 0 ] [ 0 -1 0 0 ] 0 1 1\n";
            }
            t += "}\n";
        }
        t += "}\n";
    }
    m.text = t;
}
inline Map gen(Case &c, Opt o = {})
{
    Src &s = c.s;
    Map m;
    m.q2 = o.q2 || (o.may_q2 && s.chance(1, 3));
    m.ver = m.q2 ? s.pick<const bspversion_t *>({&bspver_q2, &bspver_qbism}) : s.pick<const bspversion_t *>({&bspver_q1, &bspver_bsp2, &bspver_bsp2rmq, &bspver_h2, &bspver_hl});
    m.ents.push_back({"worldspawn"});
    // the rooms
    V at{(double)s.ito(-300, 300, 0), (double)s.ito(-300, 300, 0), (double)s.ito(-300, 300, 0)};
    int n = (int)s.i(1, 3);
    double d = (double)s.i(128, 320), h = (double)s.i(128, 320), x = 0;
    double wall = (double)s.i(8, 32);
    std::vector<double> ends;
    for (int i = 0; i < n; ++i) {
        double w = (double)s.i(128, 320);
        m.rooms.push_back({at + V{x, 0, 0}, at + V{x + w, d, h}});
        x += w + wall;
    }
    x -= wall;
    V lo = at, hi = at + V{x, d, h};
    m.lo = lo - V{wall, wall, wall};
    m.hi = hi + V{wall, wall, wall};
    int hole = o.leaks && s.chance(1, 2) ? (int)s.draw(6) : -1;
    m.leak = hole >= 0;
    for (int k = 0; k < 3; ++k)
        for (int sd = 0; sd < 2; ++sd) {
            V l = m.lo, u = m.hi;
            if (sd)
                l[k] = hi[k];
            else
                u[k] = lo[k];
            for (int j = 0; j < k; ++j) {
                l[j] = lo[j];
                u[j] = hi[j];
            }
            if (hole == k * 2 + sd) {
                // the hole leads out of the first room
                V a = m.rooms[0].first, b = m.rooms[0].second;
                V hl, hh;
                for (int j = 0; j < 3; ++j) {
                    hl[j] = a[j] + (double)s.i(16, 64);
                    hh[j] = hl[j] + (double)s.i(4, 60);
                }
                if (k == 0 && sd == 1) {
                    // the last room's far wall: the leak is the last room's
                    m.leak = false;
                }
                hl[k] = l[k], hh[k] = u[k];
                m.hole = {hl, hh};
                room_hole(m, s, l, u, k, hl, hh, true);
                (void)b;
            } else
                add(m, s, box_planes(l, u), SOLID, 0, true);
        }
    // walls between them, with doorways
    std::vector<bool> open;
    for (int i = 0; i + 1 < n; ++i) {
        V l = m.rooms[i].second, u = m.rooms[i + 1].first;
        V a{l[0], lo[1], lo[2]}, b{u[0], hi[1], hi[2]};
        bool door = s.chance(3, 4);
        open.push_back(door);
        if (door) {
            V hl{0, lo[1] + (double)s.i(0, 60), lo[2] + (double)s.i(0, 60)};
            V hh = hl + V{0, (double)s.i(8, 64), (double)s.i(8, 64)};
            room_hole(m, s, a, b, 0, hl, hh, false);
            hl[0] = a[0], hh[0] = b[0];
            m.doors.push_back({hl, hh});
        } else {
            add(m, s, box_planes(a, b), SOLID, 0);
            m.doors.push_back({});
        }
    }
    // who is there
    auto spot = [&](int room) {
        auto &[a, b] = m.rooms[room];
        V p;
        for (int k = 0; k < 3; ++k)
            p[k] = std::min((double)s.i((int)a[k] + (k == 2 ? 66 : 42), (int)b[k] - 42), b[k] - (k == 2 ? 66 : 42));
        p[2] = std::max(p[2], a[2] + 40);
        return p;
    };
    auto person = [&](const char *cls, int room) {
        Ent e{cls};
        e.origin = spot(room);
        bool zero = std::fabs((*e.origin)[0]) + std::fabs((*e.origin)[1]) + std::fabs((*e.origin)[2]) < 1;
        if (zero)
            (*e.origin)[0] += 1;
        m.occupants.push_back(*e.origin);
        m.ents.push_back(e);
    };
    person("info_player_start", 0);
    bool occupied_last = n == 1;
    for (int i = 1; i < n; ++i)
        if (s.b()) {
            person("light", i);
            occupied_last = occupied_last || i == n - 1;
        }
    m.part = {0};
    for (int i = 1; i < n; ++i)
        m.part.push_back(m.part.back() + (open[i - 1] ? 0 : 1));
    m.lived.assign(m.part.back() + 1, false);
    for (auto &p : m.occupants)
        for (int i = 0; i < n; ++i)
            if (p[0] > m.rooms[i].first[0] && p[0] < m.rooms[i].second[0])
                m.lived[m.part[i]] = true;
    if (hole == 1) {
        // leaks if the last room is occupied or reached from an occupied one
        bool r = occupied_last;
        for (int i = n - 1; !r && i > 0 && open[i - 1]; --i)
            for (auto &p : m.occupants)
                r = r || (p[0] > m.rooms[i - 1].first[0] && p[0] < m.rooms[i - 1].second[0]);
        // an unoccupied room between may be closed off by brushes
        m.leak = occupied_last;
        if (!occupied_last && r)
            throw vh::Discard{};
    }
    // things in the rooms
    int nb = s.count(0, o.maxbrushes);
    static const int G1[] = {SOLID, SOLID, DETAIL, WALL, FENCE, ILLUS, WATER, SLIME, LAVA, SKY, CLIP, HINT};
    static const int G2[] = {SOLID, SOLID, DETAIL, WINDOW, AUX, MIST, WATER, SLIME, LAVA, SKY, CLIP, MCLIP, HINT};
    std::map<int, int> group; // kind -> entity
    for (int i = 0; i < nb; ++i) {
        int kind = !o.only.empty() ? o.only[s.draw(o.only.size())] : m.q2 ? G2[s.draw(13)] : G1[s.draw(12)];
        if (!o.detail && (kind == DETAIL || kind == WALL || kind == FENCE || kind == CLIP || kind == AUX || kind == MIST || kind == MCLIP))
            kind = SOLID;
        V a, b;
        V rl = lo - V{8, 8, 8}, rh = hi + V{8, 8, 8};
        for (int k = 0; k < 3; ++k) {
            int sz = (int)s.i(8, 120);
            a[k] = (double)s.i((int)rl[k], std::max((int)rl[k], (int)rh[k] - sz));
            if (o.overlap && s.chance(1, 3)) {
                // on a plane of another one
                auto &ob = m.brushes[s.draw(m.brushes.size())];
                a[k] = std::round(s.b() ? ob.lo[k] : ob.hi[k]);
                if (s.b())
                    a[k] -= sz;
            }
            b[k] = a[k] + sz;
        }
        // people want room
        bool near = false;
        for (auto &p : m.occupants)
            near = near || (p[0] > a[0] - 36 && p[0] < b[0] + 36 && p[1] > a[1] - 36 && p[1] < b[1] + 36 && p[2] > a[2] - 68 && p[2] < b[2] + 68);
        auto pl = convex(s, a, b, (int)s.draw(4));
        if (near)
            continue;
        int ent = 0;
        if (!m.q2 && (kind == DETAIL || kind == WALL || kind == FENCE || kind == ILLUS)) {
            if (!group.count(kind) || s.b()) {
                group[kind] = (int)m.ents.size();
                m.ents.push_back({kind == DETAIL ? "func_detail" : kind == WALL ? "func_detail_wall" : kind == FENCE ? "func_detail_fence" : o.visblock && s.chance(1, 3) ? "func_illusionary_visblocker" : "func_detail_illusionary"});
            }
            ent = group[kind];
        } else if (kind == SOLID && s.chance(1, 5)) {
            ent = (int)m.ents.size();
            m.ents.push_back({"func_group"});
        }
        add(m, s, *pl, kind, ent);
    }
    for (size_t i = 0; o.areaportals && i < m.doors.size(); ++i)
        if (open[i] && s.chance(2, 3)) {
            auto [a, b] = m.doors[i];
            if (s.b()) {
                a = a - V{0, 4, 4};
                b = b + V{0, 4, 4};
            }
            if (s.b())
                a[0] += 2;
            Ent e{"func_areaportal"};
            e.kv.push_back({"targetname", "a" + std::to_string(i)});
            m.ents.push_back(e);
            add(m, s, box_planes(a, b), AREAPORTAL, (int)m.ents.size() - 1);
        }
    // models of their own
    int nm = o.models ? o.minmodels + (int)s.draw(3 - o.minmodels) : 0;
    for (int i = 0; i < nm; ++i) {
        Ent e{s.pick<const char *>({"func_wall", "func_door", "trigger_multiple"})};
        e.model = m.models++;
        int ei = (int)m.ents.size();
        if (s.b())
            e.kv.push_back({"targetname", "t" + std::to_string(s.draw(100))});
        m.ents.push_back(e);
        int k = (int)s.i(1, 3);
        V a0;
        for (int j = 0; j < k; ++j) {
            V a, b;
            for (int q = 0; q < 3; ++q) {
                int sz = (int)s.i(8, 64);
                a[q] = (double)s.i((int)lo[q], std::max((int)lo[q], (int)hi[q] - sz));
                b[q] = a[q] + sz;
            }
            a0 = a;
            auto pl = convex(s, a, b, (int)s.draw(3));
            int bi = add(m, s, *pl, SOLID, ei);
            m.brushes[bi].model = e.model;
        }
        if (s.chance(1, 3) && a0 != V{} && !o.leaks) {
            // an entity with an origin is somebody
            m.ents[ei].offset = a0;
            for (int r = 0; r < n; ++r)
                if (a0[0] >= m.rooms[r].first[0] - 0.1 && a0[0] <= m.rooms[r].second[0] + 0.1)
                    m.lived[m.part[r]] = true;
        }
    }
    write_text(m);
    return m;
}

// ---- compiling -----------------------------------------------------------------------------
struct Out
{
    mbsp_t bsp;
    bspxentries_t bspx;
    const bspversion_t *ver = nullptr;
    std::string base;
    bool prt = false, pts = false;
    std::vector<uint8_t> bytes;
};
inline std::vector<std::string> ver_args(const bspversion_t *v)
{
    if (v == &bspver_bsp2)
        return {"-bsp2"};
    if (v == &bspver_bsp2rmq)
        return {"-2psb"};
    if (v == &bspver_h2)
        return {"-hexen2"};
    if (v == &bspver_hl)
        return {"-hlbsp"};
    if (v == &bspver_q2)
        return {"-q2bsp"};
    if (v == &bspver_qbism)
        return {"-qbism"};
    return {};
}
inline Out compile(Case &c, const Map &m, const std::string &name = "m", std::vector<std::string> extra = {})
{
    Out o;
    o.base = c.scratch + "/" + name;
    bm::spew(o.base + ".map", std::vector<uint8_t>(m.text.begin(), m.text.end()));
    if (const char *d = getenv("VH_DUMP")) // to look at a replay
        bm::spew(std::string(d) + "/" + name + ".map", std::vector<uint8_t>(m.text.begin(), m.text.end()));
    std::vector<std::string> args{"qbsp", "-noverbose", "-nopercent"};
    for (auto &a : ver_args(m.ver))
        args.push_back(a);
    for (auto &a : m.args)
        args.push_back(a);
    for (auto &a : extra)
        args.push_back(a);
    args.push_back(o.base + ".map");
    args.push_back(o.base + ".bsp");
    logging::mask = bitflags<logging::flag>();
    InitQBSP(args);
    logging::mask = bitflags<logging::flag>();
    ProcessFile();
    logging::close();
    bspdata_t d;
    fs::path p = o.base + ".bsp";
    o.bytes = bm::slurp(o.base + ".bsp");
    LoadBSPFile(p, &d);
    o.ver = d.version;
    ConvertBSPFormat(&d, &bspver_generic);
    o.bsp = std::move(std::get<mbsp_t>(d.bsp));
    for (auto &[k, v] : d.bspx.entries)
        o.bspx[k] = v;
    o.prt = std::filesystem::exists(o.base + ".prt");
    o.pts = std::filesystem::exists(o.base + ".pts");
    return o;
}

// ---- looking into the compiled map ------------------------------------------------------------
inline double plane_at(const mbsp_t &b, int pn, V p)
{
    auto &pl = b.dplanes[pn];
    return dot(vec(pl.normal), p) - pl.dist;
}
inline int leaf_at(const mbsp_t &b, int model, V p)
{
    int n = b.dmodels[model].headnode[0];
    for (int guard = 0; n >= 0; ++guard) {
        if (guard > 100000)
            return -1;
        n = b.dnodes[n].children[plane_at(b, b.dnodes[n].planenum, p) < 0 ? 1 : 0];
    }
    return -1 - n;
}
inline int clip_at(const mbsp_t &b, int model, int hull, V p)
{
    int n = b.dmodels[model].headnode[hull];
    for (int guard = 0; n >= 0; ++guard) {
        if (guard > 100000)
            return -100;
        n = b.dclipnodes[n].children[plane_at(b, b.dclipnodes[n].planenum, p) < 0 ? 1 : 0];
    }
    return n;
}
// distance to the nearest plane of any brush of a model
inline double margin(const Map &m, int model, V p)
{
    double r = 1e9;
    for (auto &b : m.brushes)
        if (b.model == model)
            for (auto &q : b.b.pl)
                r = std::min(r, std::fabs(q.at(p)));
    return r;
}
inline std::vector<const Brush *> at(const Map &m, int model, V p)
{
    std::vector<const Brush *> r;
    for (auto &b : m.brushes)
        if (b.model == model && b.b.in(p, 0))
            r.push_back(&b);
    return r;
}
inline uint64_t kinds(const std::vector<const Brush *> &v)
{
    uint64_t r = 0;
    for (auto *b : v)
        r |= 1ull << b->kind;
    return r;
}
inline std::string names(const std::vector<const Brush *> &v)
{
    std::string r;
    for (auto *b : v)
        r += std::string(r.empty() ? "" : "+") + kind_name(b->kind);
    return r.empty() ? "nothing" : r;
}
// what the leaf holding these brushes says
inline int native(const Map &m, const std::vector<const Brush *> &v)
{
    uint64_t k = kinds(v);
    auto has = [&](int x) { return (k >> x & 1) != 0; };
    if (m.q2) {
        if (has(SOLID) || has(SKY))
            return 1;
        int r = 0;
        for (auto *b : v)
            r |= b->contents;
        return r & 1 ? 1 : r; // solid leafs are merged, whatever else they hold
    }
    if (has(SOLID))
        return -2;
    if (has(SKY))
        return -6;
    if (has(DETAIL) || has(WALL) || has(FENCE))
        return -2;
    if (has(LAVA))
        return -5;
    if (has(SLIME))
        return -4;
    if (has(WATER))
        return -3;
    return -1;
}
inline bool blocks(const Brush &b) { return b.model == 0 && (b.kind <= FENCE || b.kind == SKY || b.kind == WINDOW || b.kind == AUX); }
// points certainly reached from somebody: they see them, or a point they see sees them
struct Reach
{
    std::vector<const Body *> walls;
    std::vector<V> from;
    bool see(V a, V p) const
    {
        for (auto *b : walls)
            if (hits(*b, a, p, 0.01))
                return false;
        return true;
    }
    bool operator()(V p, size_t keep = 40)
    {
        for (auto &o : from)
            if (see(o, p)) {
                if (from.size() < keep)
                    from.push_back(p);
                return true;
            }
        return false;
    }
};
inline Reach reach(const Map &m)
{
    Reach r;
    for (auto &b : m.brushes)
        if (blocks(b))
            r.walls.push_back(&b.b);
    r.from = m.occupants;
    return r;
}
// certainly nowhere anybody can get to
inline bool sealed(const Map &m, V p)
{
    if (m.leak)
        return false;
    bool out = false;
    for (int k = 0; k < 3; ++k)
        out = out || p[k] < m.lo[k] || p[k] > m.hi[k];
    if (out)
        return true;
    for (size_t i = 0; i < m.rooms.size(); ++i) {
        bool in = true;
        for (int k = 0; k < 3; ++k)
            in = in && p[k] > m.rooms[i].first[k] && p[k] < m.rooms[i].second[k];
        if (in)
            return !m.lived[m.part[i]];
    }
    return false;
}
// everything within a box of the body
inline Body swell(const Brush &br, V lo, V hi)
{
    Body r;
    std::vector<V> pts;
    for (auto &f : br.faces)
        for (auto &q : f)
            pts.push_back(q);
    auto put = [&](V n) {
        n = unit(n);
        double d = -1e9;
        for (auto &q : pts)
            d = std::max(d, dot(n, q));
        for (int k = 0; k < 3; ++k)
            d += n[k] * (n[k] > 0 ? hi[k] : lo[k]);
        for (auto &q : r.pl)
            if (dot(q.n, n) > 1 - 1e-9)
                return;
        r.pl.push_back({n, d});
    };
    for (int k = 0; k < 3; ++k) {
        V n{};
        n[k] = 1;
        put(n);
        put(n * -1);
    }
    for (size_t i = 0; i < br.faces.size(); ++i) {
        auto &f = br.faces[i];
        if (f.empty())
            continue;
        put(br.b.pl[i].n);
        for (size_t k = 0; k < f.size(); ++k) {
            V e = f[(k + 1) % f.size()] - f[k];
            if (len(e) < 1e-3)
                continue;
            for (int a = 0; a < 3; ++a) {
                V x{};
                x[a] = 1;
                V n = cross(unit(e), x);
                if (len(n) < 1e-4)
                    continue;
                put(n);
                put(n * -1);
            }
        }
    }
    return r;
}
inline bool stops(const Brush &b) // walking
{
    return b.kind <= FENCE || b.kind == SKY || b.kind == CLIP;
}
inline V anywhere(Src &s, const Map &m, double out)
{
    V r;
    for (int k = 0; k < 3; ++k) {
        double w = m.hi[k] - m.lo[k] + 2 * out;
        r[k] = m.lo[k] - out + w * ((double)s.draw(1 << 20) + 0.5) / (1 << 20);
    }
    return r;
}
// random point: anywhere, or inside a brush
inline V sample(Src &s, const Map &m, int model)
{
    if (s.b() || m.brushes.empty())
        return anywhere(s, m, 40);
    auto &b = m.brushes[s.draw(m.brushes.size())];
    (void)model;
    return inside(s, b.faces);
}
inline std::string about(const Map &m)
{
    std::string r = cat(m.ver->name, ", ", m.rooms.size(), " rooms", m.leak ? ", leaking" : "", ", ", m.models, " models, brushes:");
    std::map<int, int> n;
    for (auto &b : m.brushes)
        if (!b.shell)
            ++n[b.kind];
    for (auto &[k, v] : n)
        r += cat(" ", v, " ", kind_name(k));
    for (auto &a : m.args)
        r += " " + a;
    return r;
}
}
