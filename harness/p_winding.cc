// C15: polygons are clipped, measured and stored exactly
#include "vh.hh"
#include "meshgen.hh"
#include <common/polylib.hh>
#include <common/log.hh>
using vh::Case;
using vh::Src;
using namespace polylib;
typedef long double L;
typedef std::vector<qvec3d> Pts;

static std::string str(const qvec3d &p) { return vh::cat("(", p[0], " ", p[1], " ", p[2], ")"); }
template<class W>
static Pts pts(const W &w)
{
    Pts r;
    for (size_t i = 0; i < w.size(); ++i)
        r.push_back(qvec3d(w[i]));
    return r;
}
static std::string strs(const Pts &v)
{
    std::string s;
    for (auto &p : v)
        s += str(p) + " ";
    return s;
}
static L dotl(const qvec3d &a, const qvec3d &b) { return (L)a[0] * b[0] + (L)a[1] * b[1] + (L)a[2] * b[2]; }
static L area(const Pts &p)
{
    L x = 0, y = 0, z = 0;
    for (size_t i = 2; i < p.size(); ++i) {
        qvec3d a = p[i - 1] - p[0], b = p[i] - p[0];
        x += (L)a[1] * b[2] - (L)a[2] * b[1];
        y += (L)a[2] * b[0] - (L)a[0] * b[2];
        z += (L)a[0] * b[1] - (L)a[1] * b[0];
    }
    return sqrtl(x * x + y * y + z * z) / 2;
}
static double dist(const qvec3d &a, const qvec3d &b) { return std::sqrt((double)dotl(a - b, a - b)); }

struct Poly
{
    Pts p; // clockwise seen from the side the normal points to
    qvec3d n;
    L d;
};
static Poly gen_poly(Src &s)
{
    Poly r;
    auto fr = mg::frame(s);
    auto hull = mg::convex(s, -40, 40);
    double k = s.pick<double>({1, 0.5, 0.125, 3.7, 12});
    r.n = fr.n;
    qvec3d o = fr.o;
    if (s.chance(1, 4))
        o = qvec3d(s.f(-4000, 4000), s.f(-4000, 4000), s.f(-4000, 4000));
    int rot = (int)s.draw(hull.size());
    for (size_t i = 0; i < hull.size(); ++i) {
        auto &q = hull[(hull.size() - i + rot) % hull.size()];
        r.p.push_back(o + fr.u * (q.x * k) + fr.v * (q.y * k));
        // points along an edge
        while (s.chance(1, 10)) {
            auto &q2 = hull[(2 * hull.size() - i - 1 + rot) % hull.size()];
            qvec3d b = o + fr.u * (q2.x * k) + fr.v * (q2.y * k);
            r.p.push_back(r.p.back() + (b - r.p.back()) * s.pick<double>({0.5, 0.25, 0.9}));
        }
    }
    r.d = dotl(r.n, r.p[0]);
    return r;
}
static qplane3d gen_plane(Src &s, const Poly &q, bool &axial)
{
    qplane3d pl;
    axial = false;
    qvec3d at = q.p[s.draw(q.p.size())];
    switch (s.draw(6)) {
        case 0: { // axial
            int a = (int)s.draw(3);
            pl.normal = {};
            pl.normal[a] = s.b() ? 1 : -1;
            axial = true;
            break;
        }
        case 1: // through an edge
        case 2: {
            size_t i = s.draw(q.p.size());
            qvec3d e = q.p[(i + 1) % q.p.size()] - q.p[i];
            at = q.p[i];
            pl.normal = qv::normalize(qv::cross(e, q.n));
            if (s.b())
                pl.normal = -pl.normal;
            break;
        }
        case 3: // the polygon's own plane, or one parallel to it
            pl.normal = s.b() ? q.n : -q.n;
            break;
        default: {
            do
                pl.normal = qvec3d(s.f(-1, 1), s.f(-1, 1), s.f(-1, 1));
            while (qv::length(pl.normal) < 0.1);
            pl.normal = qv::normalize(pl.normal);
        }
    }
    if (s.chance(2, 3)) {
        qvec3d c{};
        double t = 0;
        for (auto &p : q.p) {
            double w = s.unit();
            c += p * w;
            t += w;
        }
        if (t > 0)
            at = c * (1 / t);
    }
    pl.dist = (double)dotl(pl.normal, at);
    if (s.chance(1, 4))
        pl.dist += s.pick<double>({0.05, -0.05, 0.2, -0.2, 1e-5, -1e-5, 50, -50});
    return pl;
}

template<class W>
static void run_clip(Case &c, const char *kind)
{
    Src &s = c.s;
    Poly q = gen_poly(s);
    bool axial, keepon = s.b();
    qplane3d pl = gen_plane(s, q, axial);
    double eps = s.pick<double>({0.1, 0.1, 0.01, 0, 1e-4, 1});
    W w;
    if (s.b())
        w = W(q.p.begin(), q.p.end());
    else
        for (auto &p : q.p)
            w.push_back(p);
    c.describe(vh::cat(kind, " ", strs(q.p), "by ", str(pl.normal), " ", pl.dist, " epsilon ", eps, keepon ? " keepon" : ""));
    // reference sides; a distance next to the epsilon may go either way
    size_t n = q.p.size();
    std::vector<int> side(n);
    std::vector<L> d(n);
    int cnt[3] = {0, 0, 0};
    for (size_t i = 0; i < n; ++i) {
        d[i] = dotl(pl.normal, q.p[i]) - pl.dist;
        if (fabsl(fabsl(d[i]) - eps) < 1e-9)
            throw vh::Discard{};
        side[i] = d[i] > eps ? 0 : d[i] < -eps ? 1 : 2;
        cnt[side[i]]++;
    }
    std::vector<double> ds(n + 1);
    std::vector<planeside_t> ss(n + 1);
    auto cs = w.calc_sides(pl, ds.data(), ss.data(), eps);
    auto cs2 = w.calc_sides(pl, nullptr, nullptr, eps);
    c.require(cs == cs2, "sides", "counts differ without output");
    for (int i = 0; i < 3; ++i)
        c.require((int)cs[i] == cnt[i], "sides", vh::cat("count of side ", i, " is ", cs[i], ", not ", cnt[i]));
    for (size_t i = 0; i <= n; ++i)
        c.require(ss[i] == side[i % n] && fabsl(ds[i] - d[i % n]) < 1e-8, "sides", vh::cat("point ", i, " is on side ", (int)ss[i], " at ", ds[i], ", not ", side[i % n], " at ", (double)d[i % n]));
    // reference halves
    std::optional<Pts> want[2];
    if (keepon && !cnt[0] && !cnt[1])
        want[0] = q.p;
    else if (!cnt[0])
        want[1] = q.p;
    else if (!cnt[1])
        want[0] = q.p;
    else {
        Pts h[2];
        for (size_t i = 0; i < n; ++i) {
            size_t j = (i + 1) % n;
            for (int x = 0; x < 2; ++x)
                if (side[i] == x || side[i] == 2)
                    h[x].push_back(q.p[i]);
            if (side[i] + side[j] == 1 && side[i] != 2 && side[j] != 2) {
                L t = d[i] / (d[i] - d[j]);
                qvec3d m;
                for (int k = 0; k < 3; ++k)
                    m[k] = (double)(q.p[i][k] + t * ((L)q.p[j][k] - q.p[i][k]));
                h[0].push_back(m);
                h[1].push_back(m);
            }
        }
        want[0] = h[0];
        want[1] = h[1];
    }
    auto cmp = [&](const char *what, bool has, const Pts &got, const std::optional<Pts> &ex) {
        c.require(has == ex.has_value(), "clip", vh::cat(what, has ? " gives a polygon" : " gives nothing"));
        if (!has)
            return;
        c.require(got.size() == ex->size(), "clip", vh::cat(what, " has ", got.size(), " points, not ", ex->size(), ": ", strs(got), "; expected ", strs(*ex)));
        for (size_t i = 0; i < got.size(); ++i) {
            bool orig = false;
            for (auto &p : q.p)
                orig = orig || p == (*ex)[i];
            c.require(orig ? got[i] == (*ex)[i] || dist(got[i], (*ex)[i]) < 1e-12 : dist(got[i], (*ex)[i]) < 1e-6, "clip", vh::cat(what, ": point ", i, " is ", str(got[i]), ", not ", str((*ex)[i])));
            if (!orig && axial)
                for (int k = 0; k < 3; ++k)
                    if (std::fabs(pl.normal[k]) == 1)
                        c.require(got[i][k] == pl.dist * pl.normal[k], "axial", vh::cat(what, ": split point ", str(got[i]), " is off the axial plane"));
        }
    };
    auto r = w.clip(pl, eps, keepon);
    c.require(pts(w) == q.p, "clip-const", "clip changes its polygon");
    Pts f = r[0] ? pts(*r[0]) : Pts{}, b = r[1] ? pts(*r[1]) : Pts{};
    cmp("front", !!r[0], f, want[0]);
    cmp("back", !!r[1], b, want[1]);
    // pieces together have the polygon's area, and each stays on its side
    L total = area(q.p), tol = 1e-6 * (1 + total);
    bool on = cnt[2] > 0;
    if (!on)
        c.require(fabsl(area(f) + area(b) - total) < tol, "area", vh::cat("the pieces' areas ", (double)area(f), " + ", (double)area(b), " differ from ", (double)total));
    for (auto &p : f)
        c.require(!cnt[0] || dotl(pl.normal, p) - pl.dist > -eps - 1e-6, "wrong-side", "the front piece reaches behind the plane");
    for (auto &p : b)
        c.require(dotl(pl.normal, p) - pl.dist < eps + 1e-6, "wrong-side", "the back piece reaches in front of the plane");
    W w1 = w.clone(), w2 = w.clone();
    auto cf = w1.clip_front(pl, eps, keepon);
    auto cb = w2.clip_back(pl, eps, keepon);
    c.require(!!cf == !!r[0] && (!cf || pts(*cf) == f), "clip_front", "clip_front differs from clip");
    c.require(!!cb == !!r[1] && (!cb || pts(*cb) == b), "clip_back", "clip_back differs from clip");
    c.nt(cnt[0] && cnt[1]);
    if (on && cnt[0] && cnt[1])
        c.label("split-with-on-points");
    if (axial)
        c.label("axial");
}
static void clip(Case &c)
{
    switch (c.s.draw(3)) {
        case 0: run_clip<winding_t>(c, "heap"); break;
        case 1: run_clip<winding_base_t<winding_storage_stack_t<double, 96>>>(c, "stack"); break;
        default: run_clip<winding_base_t<winding_storage_hybrid_t<double, 4>>>(c, "hybrid");
    }
}

static void measure(Case &c)
{
    Src &s = c.s;
    Poly q = gen_poly(s);
    winding_t w(q.p.begin(), q.p.end());
    c.describe(strs(q.p));
    size_t n = q.p.size();
    L a = area(q.p), scale = 1;
    qvec3d ce{}, lo = q.p[0], hi = q.p[0];
    for (auto &p : q.p) {
        ce += p;
        for (int k = 0; k < 3; ++k) {
            lo[k] = std::min(lo[k], p[k]);
            hi[k] = std::max(hi[k], p[k]);
            scale = std::max(scale, fabsl(p[k]));
        }
    }
    ce = ce * (1.0 / n);
    double tol = 1e-10 * scale * scale + 1e-9;
    c.require(fabsl(w.area() - a) < tol * 10, "area", vh::cat("area ", w.area(), ", not ", (double)a));
    c.require(dist(w.center(), ce) < 1e-9 * scale, "center", vh::cat("center ", str(w.center())));
    auto bb = w.bounds();
    c.require(bb.mins() == lo && bb.maxs() == hi, "bounds", "wrong bounds");
    // plane: of the first corner that is one
    qvec3d e1 = q.p[0] - q.p[1], e2 = q.p[2] - q.p[1];
    bool corner = qv::length(qv::cross(e1, e2)) > 1e-3 * qv::length(e1) * qv::length(e2);
    if (corner) {
        auto pl = w.plane();
        c.require(dist(pl.normal, q.n) < 1e-6, "plane", vh::cat("normal ", str(pl.normal), ", not ", str(q.n)));
        c.require(fabsl(pl.dist - dotl(pl.normal, q.p[0])) < 1e-6, "plane", "dist");
        // edges: inside points are inside, outside points are not
        auto we = w.winding_edges();
        c.require(we.size() == n, "edges", "number of edge planes");
        for (int t = 0; t < 8; ++t) {
            qvec3d p{};
            double sum = 0;
            for (auto &x : q.p) {
                double k = 0.02 + s.unit();
                p += x * k;
                sum += k;
            }
            p = p * (1 / sum);
            bool out = s.b();
            if (out) {
                size_t i = s.draw(n), j = (i + 1) % n;
                qvec3d mid = q.p[i] + (q.p[j] - q.p[i]) * s.unit();
                qvec3d nr = qv::normalize(qv::cross(q.p[j] - q.p[i], q.n)); // inwards for clockwise points
                if (dotl(nr, ce - q.p[i]) > 0)
                    nr = -nr;
                p = mid + nr * s.f(0.01, 50);
            }
            p += q.n * s.f(-20, 20);
            c.require(PointInWindingEdges(we, p) == !out, "edges", vh::cat("point ", str(p), out ? " outside is taken as inside" : " inside is taken as outside"));
        }
        // a sound polygon is accepted, a broken one refused
        bool sound = a > 1.01;
        for (size_t i = 0; i < n; ++i) {
            double l = dist(q.p[i], q.p[(i + 1) % n]);
            if (l < 0.11)
                sound = false;
            for (int k = 0; k < 3; ++k)
                if (fabs(q.p[i][k]) > 65000)
                    sound = false;
        }
        auto accepted = [](const winding_t &x) {
            try {
                x.check();
                return true;
            } catch (const std::exception &) {
                return false;
            }
        };
        if (sound) {
            c.require(accepted(w), "check", "check refuses a sound polygon");
            winding_t bad = w.clone();
            int how = (int)s.draw(4);
            if (how == 0)
                bad[s.draw(n)][s.draw(3)] = s.b() ? 66000 : -66000;
            else if (how == 1 && n > 3) {
                size_t i = 3 + s.draw(n - 3);
                bad[i] += q.n * (s.b() ? 0.5 : -0.5);
            } else if (how == 2) {
                size_t i = s.draw(n);
                bad[(i + 1) % n] = bad[i] + qvec3d(0.01, 0, 0);
            } else
                bad.resize(2);
            if (!(how == 1 && n <= 3))
                c.require(!accepted(bad), "check", vh::cat("check accepts a broken polygon: ", strs(pts(bad))));
        }
    }
    // flip, translate, equality
    auto fl = w.flip();
    Pts rev(q.p.rbegin(), q.p.rend());
    c.require(pts(fl) == rev && pts(w) == q.p, "flip", "flip does not reverse the points");
    qvec3d off(s.ito(-50, 50, 0), s.ito(-50, 50, 0), s.f(-5, 5));
    auto tr = w.translate(off);
    for (size_t i = 0; i < n; ++i)
        c.require(dist(tr[i], q.p[i] + off) == 0, "translate", "translate");
    c.require(pts(w) == q.p, "translate", "translate changes its polygon");
    {
        Pts o;
        size_t k = s.draw(n);
        bool back = s.b(), moved = s.chance(1, 3);
        for (size_t i = 0; i < n; ++i)
            o.push_back(q.p[back ? (k + n - i) % n : (k + i) % n]);
        if (moved) {
            int ax = (int)s.draw(3);
            o[s.draw(n)][ax] += s.b() ? 0.06 : -0.06;
        } else
            for (auto &p : o)
                p += qvec3d(s.f(-0.04, 0.04), s.f(-0.04, 0.04), s.f(-0.04, 0.04));
        bool close = false; // another assignment of points might fit
        for (size_t i = 0; i < n; ++i)
            for (size_t j = i + 1; j < n; ++j)
                if (dist(q.p[i], q.p[j]) < 0.5)
                    close = true;
        if (!close) {
            winding_t w2(o.begin(), o.end());
            c.require(w.undirectional_equal(w2) == !moved, "equal", vh::cat(moved ? "different" : "equal", " polygons compare otherwise: ", strs(o)));
            c.require(w.directional_equal(w2) == (!moved && !back), "equal", vh::cat("directional: ", strs(o)));
            o.pop_back();
            winding_t w3(o.begin(), o.end());
            c.require(!w.undirectional_equal(w3), "equal", "polygons of different size compare equal");
        }
    }
    {
        bool ax;
        auto pl = gen_plane(s, q, ax);
        L mx = 0;
        for (auto &p : q.p)
            mx = std::max(mx, fabsl(dotl(pl.normal, p) - pl.dist));
        c.require(fabsl(w.max_dist_off_plane(pl) - mx) < 1e-8, "off-plane", "max_dist_off_plane");
    }
    // colinear points go, corners stay
    {
        Pts want;
        bool vague = false;
        for (size_t i = 0; i < n; ++i) {
            qvec3d v1 = qv::normalize(q.p[(i + 1) % n] - q.p[i]), v2 = qv::normalize(q.p[i] - q.p[(i + n - 1) % n]);
            L dt = dotl(v1, v2);
            if (fabsl(dt - (1 - 1e-4L)) < 1e-7)
                vague = true;
            if (dt < 1 - 1e-4L)
                want.push_back(q.p[i]);
        }
        if (!vague) {
            auto w4 = w.clone();
            w4.remove_colinear();
            c.require(pts(w4) == want, "colinear", vh::cat("remove_colinear gives ", strs(pts(w4)), "; expected ", strs(want)));
            // the same for a face
            mg::Builder bd;
            std::vector<qvec3f> pf;
            for (auto &p : q.p)
                pf.push_back(qvec3f(p));
            bool dup = false;
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < i; ++j)
                    dup = dup || pf[i] == pf[j];
            if (!dup) {
                bd.face(s, {pf[0], pf[1], pf[2]}, q.n, 0);
                int fi = bd.face(s, pf, q.n, 0);
                auto wf = winding_t::from_face(&bd.m, &bd.m.dfaces[fi]);
                winding_t ref;
                for (auto &p : pf)
                    ref.push_back(qvec3d(p));
                ref.remove_colinear();
                c.require(pts(wf) == pts(ref), "from-face", vh::cat("from_face gives ", strs(pts(wf))));
            }
            c.nt(want.size() != n || s.b());
        }
    }
}

// a plane as a polygon; boxes as polygons; dicing
static void build(Case &c)
{
    Src &s = c.s;
    auto fr = mg::frame(s);
    qvec3d nr = fr.n;
    if (s.b()) {
        do
            nr = qvec3d(s.f(-1, 1), s.f(-1, 1), s.f(-1, 1));
        while (qv::length(nr) < 0.1);
        nr = qv::normalize(nr);
    }
    qplane3d pl{nr, s.f(-5000, 5000)};
    double ext = s.pick<double>({10000, 100, 131072, 1});
    auto w = winding_t::from_plane(pl, ext);
    c.describe(vh::cat("plane ", str(pl.normal), " ", pl.dist, " extent ", ext));
    c.require(w.size() == 4, "from-plane", "number of points");
    qvec3d org = pl.normal * pl.dist;
    for (size_t i = 0; i < 4; ++i) {
        c.require(fabsl(dotl(pl.normal, w[i]) - pl.dist) < 1e-6 * (1 + ext), "from-plane", "a point is off the plane");
        c.require(std::fabs(dist(w[i], org) - ext * std::sqrt(2.0)) < 1e-6 * ext + 1e-9, "from-plane", "not a square of the given extent around the plane's foot");
        c.require(std::fabs(dist(w[i], w[(i + 1) % 4]) - 2 * ext) < 1e-6 * ext + 1e-9, "from-plane", "not a square");
    }
    c.require(dist(w.plane().normal, pl.normal) < 1e-6, "from-plane", "the polygon faces the other way");
    // box
    qvec3d lo(s.f(-900, 900), s.ito(-500, 500, 0), s.f(-60, 60)), hi = lo + qvec3d(s.f(1, 800), s.i(1, 700), s.f(0.5, 90));
    aabb3d box(lo, hi);
    auto ws = winding_t::aabb_windings(box);
    L total = 0, vol = 0;
    qvec3d mid = (lo + hi) * 0.5;
    for (int i = 0; i < 6; ++i) {
        c.require(ws[i].size() == 4, "box", vh::cat("side ", i, " has ", ws[i].size(), " points"));
        for (auto &p : ws[i])
            for (int k = 0; k < 3; ++k)
                c.require(std::min(std::fabs(p[k] - lo[k]), std::fabs(p[k] - hi[k])) < 1e-6, "box", vh::cat("side ", i, ": point ", str(p), " is no corner"));
        L a = area(pts(ws[i]));
        total += a;
        auto pn = ws[i].plane();
        vol += a * (dotl(pn.normal, ws[i][0]) - dotl(pn.normal, mid)) / 3;
    }
    qvec3d sz = hi - lo;
    c.require(fabsl(total - 2 * ((L)sz[0] * sz[1] + (L)sz[1] * sz[2] + (L)sz[0] * sz[2])) < 1e-4 * total, "box", "areas");
    c.require(fabsl(vol - (L)sz[0] * sz[1] * sz[2]) < 1e-4 * vol, "box", "the sides do not face outwards");
    // dice
    Poly q = gen_poly(s);
    double sub = s.pick<double>({16, 64, 100, 32.5});
    winding_t dw(q.p.begin(), q.p.end());
    auto db = dw.bounds();
    double cells = 1;
    for (int k = 0; k < 3; ++k)
        cells *= 1 + (db.maxs()[k] - db.mins()[k]) / sub;
    if (cells > 20000)
        throw vh::Discard{};
    L sum = 0;
    int pieces = 0;
    L want = area(q.p);
    dw.dice(sub, [&](winding_t &p) {
        ++pieces;
        sum += area(pts(p));
        auto b = p.bounds();
        for (int k = 0; k < 3; ++k) {
            c.require(std::floor((b.mins()[k] + 1) / sub) >= std::floor((b.maxs()[k] - 1) / sub), "dice", vh::cat("a piece spans a whole grid plane on axis ", k, ": ", strs(pts(p))));
            c.require(b.mins()[k] >= db.mins()[k] - 1e-6 && b.maxs()[k] <= db.maxs()[k] + 1e-6, "dice", "a piece reaches outside");
        }
        for (auto &x : p)
            c.require(fabsl(dotl(q.n, x) - q.d) < 1e-5, "dice", "a piece is off the plane");
    });
    c.require(fabsl(sum - want) < 1e-5 * (want + 1) + 0.2 * pieces * (sub > 20 ? 1 : 1), "dice", vh::cat("the ", pieces, " pieces' areas are ", (double)sum, ", not ", (double)want));
    c.nt(pieces > 2);
    c.label(pieces > 1 ? "diced" : "whole");
}

// any sequence of operations on the storages acts as on a plain list
template<class W, class W2>
static void run_storage(Case &c, const char *kind, size_t cap)
{
    Src &s = c.s;
    typedef std::vector<qvec3d> M;
    const int K = 3;
    W w[K];
    M m[K];
    std::string log = kind;
    auto pt = [&] { return qvec3d(s.ito(-9, 9, 0), s.ito(-99, 99, 0), s.ito(-999, 999, 0)); };
    auto check = [&](int k) {
        auto &x = w[k];
        auto &y = m[k];
        c.require(x.size() == y.size() && x.empty() == y.empty() && !!x == !y.empty(), "size", vh::cat(log, ": size ", x.size(), ", not ", y.size()));
        const W &cx = x;
        size_t i = 0;
        for (auto it = x.begin(); it != x.end(); ++it, ++i)
            c.require(i < y.size() && *it == y[i], "iterate", vh::cat(log, ": element ", i, " reached by iterator"));
        c.require(i == y.size(), "iterate", vh::cat(log, ": iterator reaches ", i, " of ", y.size()));
        i = 0;
        for (auto &p : cx)
            c.require(p == y[i++], "iterate", vh::cat(log, ": const iterator"));
        c.require((size_t)(x.end() - x.begin()) == y.size() && (size_t)(cx.end() - cx.begin()) == y.size(), "iterate", "distance");
        for (i = 0; i < y.size(); ++i)
            c.require(x[i] == y[i] && cx[i] == y[i] && x.at(i) == y[i] && cx.at(i) == y[i] && *(x.begin() + i) == y[i], "element", vh::cat(log, ": element ", i, " is ", str(x[i]), ", not ", str(y[i])));
        if (!y.empty()) {
            auto it = cx.begin();
            auto old = it++;
            c.require(*old == y[0], "iterate", vh::cat(log, ": it++ gives ", str(*old), ", not the element before"));
            c.require(it == cx.begin() + 1, "iterate", vh::cat(log, ": it++ does not advance"));
            auto e = x.end();
            --e;
            c.require(*e == y.back(), "iterate", vh::cat(log, ": last element"));
            auto e2 = x.end();
            e2 -= y.size();
            c.require(e2 == x.begin() && !(e2 != x.begin()), "iterate", "end - size");
        }
    };
    int steps = c.s.count(2, 40), grown = 0;
    for (int t = 0; t < steps; ++t) {
        int k = (int)s.draw(K), o = (int)s.draw(K);
        switch (s.draw(9)) {
            case 0:
            case 1:
            case 2:
            case 3:
                if (m[k].size() < cap) {
                    auto p = pt();
                    if (s.b())
                        w[k].push_back(p);
                    else {
                        auto &r = w[k].emplace_back(p[0], p[1], p[2]);
                        c.require(r == p, "emplace", "emplace_back returns something else");
                    }
                    m[k].push_back(p);
                    grown += m[k].size() == 5;
                    log += vh::cat(" push", k);
                }
                break;
            case 4: {
                size_t n = s.draw(std::min<size_t>(cap, 12) + 1), old = m[k].size();
                w[k].resize(n);
                m[k].resize(n);
                for (size_t i = old; i < n; ++i)
                    w[k][i] = m[k][i] = pt();
                log += vh::cat(" resize", k, ":", n);
                break;
            }
            case 5:
                w[k].clear();
                m[k].clear();
                log += vh::cat(" clear", k);
                break;
            case 6:
                if (k != o) {
                    w[k] = w[o].clone();
                    m[k] = m[o];
                    log += vh::cat(" ", k, "=clone", o);
                } else {
                    auto x = w[k].template clone<typename W2::vec3_type_storage>();
                    c.require(pts(x) == m[k], "clone", vh::cat(log, ": clone to another storage"));
                }
                break;
            case 7:
                if (k != o) {
                    w[k] = std::move(w[o]);
                    w[o].clear();
                    m[k] = std::move(m[o]);
                    m[o].clear();
                    log += vh::cat(" ", k, "=move", o);
                } else {
                    W t(std::move(w[k]));
                    c.require(pts(t) == m[k], "move", vh::cat(log, ": move construction"));
                    if (s.b())
                        w[k] = std::move(t);
                    else {
                        w[k] = W(m[k].begin(), m[k].end());
                    }
                    log += vh::cat(" remove", k);
                }
                break;
            case 8:
                if (!m[k].empty()) {
                    size_t i = s.draw(m[k].size());
                    w[k].at(i) = m[k][i] = pt();
                }
                break;
        }
        for (int x = 0; x < K; ++x)
            check(x);
    }
    c.describe(log);
    c.nt(steps > 8 && (grown > 0 || cap < 6));
}
template<class S>
struct tag
{
    typedef S vec3_type_storage;
};
static void storage(Case &c)
{
    typedef winding_storage_heap_t<double> H;
    typedef winding_storage_stack_t<double, 12> S;
    typedef winding_storage_hybrid_t<double, 4> Y;
    switch (c.s.draw(4)) {
        case 0: run_storage<winding_base_t<H>, tag<winding_storage_hybrid_t<double, 4>>>(c, "heap", 40); break;
        case 1: run_storage<winding_base_t<S>, tag<H>>(c, "stack", 12); break;
        default: run_storage<winding_base_t<Y>, tag<H>>(c, "hybrid", 40);
    }
    // the stack kind refuses more than it holds
    winding_base_t<S> f;
    for (int i = 0; i < 12; ++i)
        f.push_back(qvec3d(i));
    bool threw = false;
    try {
        if (c.s.b())
            f.push_back(qvec3d(12));
        else if (c.s.b())
            f.resize(13);
        else
            winding_base_t<S> g(13);
    } catch (const std::bad_alloc &) {
        threw = true;
    }
    c.require(threw, "overflow", "the fixed storage takes more points than it has room for");
}

VH_MAIN("C15", "clip: the plane splits the polygon; measure: half of the polygons, and all with colinear points; build: diced into 3 or more pieces; storage: more than 8 steps, growing past the built-in room",
    (std::vector<std::string>{"polygons are convex hulls of grid points on 18 plane directions, up to 4000 units from the origin, with extra points along edges",
        "planes within 1e-9 of putting a point on the other side of the epsilon are skipped; split points may differ by 1e-6"}),
    vh::Sub{"clip", clip, 60000, 3000000}, vh::Sub{"measure", measure, 30000, 1500000}, vh::Sub{"build", build, 6000, 200000}, vh::Sub{"storage", storage, 20000, 1000000})
