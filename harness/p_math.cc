// C34: vectors, planes, matrices, boxes and the geometry helpers compute what they say
#include "vh.hh"
#include "meshgen.hh"
#include <common/qvec.hh>
#include <common/aabb.hh>
#include <common/mathlib.hh>
#include <common/polylib.hh>
using vh::Case;
using vh::Src;
typedef long double L;
struct V
{
    L x[3];
    L &operator[](int i) { return x[i]; }
    L operator[](int i) const { return x[i]; }
};
template<class T>
static V v(const qvec<T, 3> &a) { return {(L)a[0], (L)a[1], (L)a[2]}; }
static V operator+(V a, V b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
static V operator-(V a, V b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
static V operator*(V a, L k) { return {a[0] * k, a[1] * k, a[2] * k}; }
static L dt(V a, V b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
static V cr(V a, V b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
static L ln(V a) { return sqrtl(dt(a, a)); }
static V un(V a) { return a * (1 / ln(a)); }
template<class T, size_t N>
static std::string str(const qvec<T, N> &p)
{
    std::string s = "(";
    for (size_t i = 0; i < N; ++i)
        s += vh::cat(i ? " " : "", p[i]);
    return s + ")";
}

template<class T>
static T num(Src &s)
{
    if constexpr (std::is_integral_v<T>)
        return (T)s.ito(-1000, 1000, 0);
    else
        switch (s.draw(4)) {
            case 0: return (T)s.ito(-8, 8, 0);
            case 1: return (T)s.f(-1, 1);
            case 2: return (T)s.f(-4096, 4096);
            default: return (T)(s.ito(-4096, 4096, 0) * 0.125);
        }
}
template<class T, size_t N>
static qvec<T, N> vec(Src &s)
{
    qvec<T, N> r;
    for (size_t i = 0; i < N; ++i)
        r[i] = num<T>(s);
    return r;
}
static bool near(L a, L b, L tol) { return fabsl(a - b) <= tol; }
template<class T>
static L eps() { return std::is_same_v<T, float> ? 2e-6L : 4e-15L; }

template<class T, size_t N>
static void vec_ops(Case &c, const char *kind)
{
    Src &s = c.s;
    auto a = vec<T, N>(s), b = vec<T, N>(s);
    if (s.chance(1, 4))
        for (size_t i = 0; i < N; ++i)
            if (s.b())
                b[i] = a[i];
    T k = num<T>(s);
    c.describe(vh::cat(kind, N, " ", str(a), " ", str(b), " ", k));
    auto eq = [&](const char *what, const qvec<T, N> &got, std::function<T(size_t)> f) {
        for (size_t i = 0; i < N; ++i)
            if (!(got[i] == f(i)))
                c.fail("vector", vh::cat(what, ": element ", i, " of ", str(got), " is not ", f(i)));
    };
    bool bz = false;
    for (size_t i = 0; i < N; ++i)
        bz = bz || b[i] == 0;
    eq("+", a + b, [&](size_t i) { return a[i] + b[i]; });
    eq("-", a - b, [&](size_t i) { return a[i] - b[i]; });
    eq("*", a * b, [&](size_t i) { return a[i] * b[i]; });
    eq("* scalar", a * k, [&](size_t i) { return a[i] * k; });
    eq("negation", -a, [&](size_t i) { return -a[i]; });
    auto t = a;
    eq("+=", t += b, [&](size_t i) { return a[i] + b[i]; });
    eq("+= left", t, [&](size_t i) { return a[i] + b[i]; });
    t = a;
    t -= b;
    eq("-=", t, [&](size_t i) { return a[i] - b[i]; });
    t = a;
    t *= b;
    eq("*=", t, [&](size_t i) { return a[i] * b[i]; });
    t = a;
    t *= k;
    eq("*= scalar", t, [&](size_t i) { return a[i] * k; });
    if (!bz) {
        eq("/", a / b, [&](size_t i) { return a[i] / b[i]; });
        t = a;
        t /= b;
        eq("/=", t, [&](size_t i) { return a[i] / b[i]; });
    }
    if (k != 0) {
        eq("/ scalar", a / k, [&](size_t i) { return a[i] / k; });
        t = a;
        t /= k;
        eq("/= scalar", t, [&](size_t i) { return a[i] / k; });
    }
    eq("min", qv::min(a, b), [&](size_t i) { return a[i] < b[i] ? a[i] : b[i]; });
    eq("max", qv::max(a, b), [&](size_t i) { return a[i] > b[i] ? a[i] : b[i]; });
    eq("abs", qv::abs(a), [&](size_t i) { return a[i] < 0 ? -a[i] : a[i]; });
    T mx = a[0];
    for (auto &x : a)
        mx = std::max(mx, x);
    c.require(qv::max(a) == mx, "vector", "greatest element");
    // construction and conversion
    eq("fill", qvec<T, N>(k), [&](size_t) { return k; });
    eq("two of them", qvec<T, N>(k, a[0]), [&](size_t i) { return i == 0 ? k : i == 1 ? a[0] : 0; });
    std::array<T, N> arr;
    for (size_t i = 0; i < N; ++i)
        arr[i] = a[i];
    eq("array", qvec<T, N>(arr), [&](size_t i) { return a[i]; });
    qvec<T, N + 1> up(a);
    qvec<T, N + 1> ext(a, k);
    for (size_t i = 0; i <= N; ++i)
        c.require(up[i] == (i < N ? a[i] : 0) && ext[i] == (i < N ? a[i] : k), "vector", "extension");
    eq("truncation", qvec<T, N>(ext), [&](size_t i) { return a[i]; });
    eq("cast", qvec<T, N>(qvec<double, N>(a)), [&](size_t i) { return a[i]; });
    // order
    int cmp = 0;
    for (size_t i = 0; i < N && !cmp; ++i)
        cmp = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
    c.require((a < b) == (cmp < 0) && (a <= b) == (cmp <= 0) && (a > b) == (cmp > 0) && (a >= b) == (cmp >= 0) && (a == b) == (cmp == 0) && (a != b) == (cmp != 0), "order", "comparison");
    c.require(qv::equalExact(a, b) == (cmp == 0) && qv::emptyExact(a) == (a == qvec<T, N>(T(0))), "order", "equalExact");
    // lengths
    L d = 0, mag = 0;
    for (size_t i = 0; i < N; ++i)
        d += (L)a[i] * b[i], mag += fabsl((L)a[i] * b[i]);
    c.require(near(qv::dot(a, b), d, mag * N * eps<T>()), "dot", vh::cat("dot is ", qv::dot(a, b), ", not ", (double)d));
    L l2 = 0, e2 = 0;
    for (size_t i = 0; i < N; ++i)
        l2 += (L)a[i] * a[i], e2 += ((L)a[i] - b[i]) * ((L)a[i] - b[i]);
    c.require(near(qv::length2(a), l2, l2 * N * eps<T>()), "length", "length2");
    if constexpr (!std::is_integral_v<T>) {
        L scale = 1;
        for (size_t i = 0; i < N; ++i)
            scale = std::max({scale, fabsl(a[i]), fabsl(b[i])});
        c.require(near(qv::length(a), sqrtl(l2), (sqrtl(l2) + 1e-30L) * N * eps<T>()), "length", "length");
        c.require(near(qv::distance(a, b), sqrtl(e2), scale * N * eps<T>()), "length", "distance");
        c.require(near(qv::distance2(a, b), e2, scale * scale * N * 2 * eps<T>()), "length", "distance2");
        T len;
        auto n = qv::normalize(a, len), n2 = qv::normalize(a), n3 = a;
        T len3 = qv::normalizeInPlace(n3);
        c.require(n == n2 && n == n3 && len == len3, "normalize", "the three forms differ");
        for (size_t i = 0; i < N; ++i)
            c.require(l2 == 0 ? n[i] == 0 : near(n[i], a[i] / sqrtl(l2), 4 * N * eps<T>()), "normalize", vh::cat("normalize gives ", str(n)));
        c.require(near(len, sqrtl(l2), (sqrtl(l2) + 1e-30L) * N * eps<T>()), "normalize", "length");
        qvec<T, N> dir;
        double gd = GetDir(a, b, dir);
        c.require(near(gd, sqrtl(e2), scale * N * eps<T>()), "normalize", "GetDir distance");
        if (e2 > scale * scale * 1e-6)
            for (size_t i = 0; i < N; ++i)
                c.require(near(dir[i], ((L)b[i] - a[i]) / sqrtl(e2), scale / sqrtl(e2) * 8 * N * eps<T>()), "normalize", "GetDir direction");
        eq("floor", qv::floor(a), [&](size_t i) { return std::floor(a[i]); });
        eq("ceil", qv::ceil(a), [&](size_t i) { return std::ceil(a[i]); });
        T ep = (T)s.pick<double>({0.5, 0.001, 4});
        bool close = true, gt = true, emp = true;
        for (size_t i = 0; i < N; ++i) {
            close = close && std::fabs(a[i] - b[i]) <= ep;
            gt = gt && a[i] <= ep;
            emp = emp && std::fabs(a[i]) <= ep;
        }
        c.require(qv::epsilonEqual(a, b, ep) == close && qv::epsilonEmpty(a, ep) == emp && qv::gate(a, ep) == gt, "epsilon", "epsilon comparisons");
        size_t big = qv::indexOfLargestMagnitudeComponent(a);
        for (size_t i = 0; i < N; ++i)
            c.require(big < N && std::fabs(a[big]) >= std::fabs(a[i]) && (i >= big || std::fabs(a[i]) < std::fabs(a[big])), "largest", "indexOfLargestMagnitudeComponent");
        T fr = (T)s.unit();
        auto mi = mix(a, b, fr);
        for (size_t i = 0; i < N; ++i)
            c.require(near(mi[i], (L)a[i] * (1 - (L)fr) + (L)b[i] * fr, scale * 4 * eps<T>()), "mix", "mix");
        auto av = avg(a, b, a);
        for (size_t i = 0; i < N; ++i)
            c.require(near(av[i], ((L)a[i] * 2 + b[i]) / 3, scale * 8 * eps<T>()), "avg", "avg");
        if constexpr (N == 3) {
            V x = cr(v(a), v(b));
            auto g = qv::cross(a, b);
            for (int i = 0; i < 3; ++i)
                c.require(near(g[i], x[i], scale * scale * 4 * eps<T>()), "cross", vh::cat("cross gives ", str(g)));
            // planes
            qplane3<T> p{qv::normalize(a), k};
            if (l2 > 0) {
                c.require(near(p.distance_to(b), dt(v(p.normal), v(b)) - k, (scale + fabsl(k)) * 8 * eps<T>()), "plane", "distance_to");
                auto m = -p;
                c.require(m.normal == -p.normal && m.dist == -p.dist && p.vec4() == qvec<T, 4>(p.normal[0], p.normal[1], p.normal[2], k), "plane", "negation");
                qplane3<T> p2 = p;
                int at = (int)s.draw(5);
                T by = (T)s.pick<double>({0.5e-6, 3e-6, 0.5e-4, 3e-4});
                if (at < 3)
                    p2.normal[at] += by;
                else if (at == 3)
                    p2.dist += by;
                bool same = at < 3 ? std::fabs(p.normal[at] - p2.normal[at]) <= (T)1e-6 : std::fabs(p.dist - p2.dist) <= (T)1e-4;
                c.require(qv::epsilonEqual(p, p2) == same, "plane", "epsilonEqual");
                c.require((p == p2) == (p.normal == p2.normal && p.dist == p2.dist) && (p < p2) == (p.normal < p2.normal || (p.normal == p2.normal && p.dist < p2.dist)), "plane", "order");
                // tangents
                auto [ta, bi] = qv::MakeTangentAndBitangentUnnormalized(p.normal);
                V n0 = v(p.normal);
                c.require(fabsl(dt(v(ta), n0)) < 1e-5 && fabsl(dt(v(bi), n0)) < 1e-5 && ln(v(ta)) > 0.1 && ln(v(bi)) > 0.1, "tangent", "tangents not on the plane");
                c.require(dt(un(cr(v(ta), v(bi))), n0) > 0.999, "tangent", "tangents on the wrong side");
                // direction to angles and back
                auto mg = qv::mangle_from_vec(p.normal);
                auto back = qv::vec_from_mangle(mg);
                c.require(ln(v(back) - n0) < 2e-3, "mangle", vh::cat("direction ", str(p.normal), " gives angles ", str(mg), ", which stand for ", str(back)));
                auto sn = qv::Snap(p.normal);
                int ax = -1;
                for (int i = 0; i < 3; ++i)
                    if (std::fabs(std::fabs(p.normal[i]) - 1) < (T)1e-6 && ax < 0)
                        ax = i;
                if (ax < 0)
                    c.require(sn == p.normal, "snap", "Snap changes a vector that is not axial");
                else
                    for (int i = 0; i < 3; ++i)
                        c.require(sn[i] == (i == ax ? (p.normal[i] > 0 ? 1 : -1) : 0), "snap", "Snap");
            }
            T area = qv::TriangleArea(a, b, qvec<T, 3>(T(1), T(2), T(3)));
            c.require(near(area, ln(cr(v(b) - v(a), V{1, 2, 3} - v(a))) / 2, scale * scale * 10 * eps<T>()), "area", "TriangleArea");
        }
    }
    c.nt(a != b);
}
static void vectors(Case &c)
{
    switch (c.s.draw(7)) {
        case 0: vec_ops<int32_t, 3>(c, "int"); break;
        case 1: vec_ops<float, 2>(c, "float"); break;
        case 2: vec_ops<float, 3>(c, "float"); break;
        case 3: vec_ops<float, 4>(c, "float"); break;
        case 4: vec_ops<double, 2>(c, "double"); break;
        case 5: vec_ops<double, 4>(c, "double"); break;
        default: vec_ops<double, 3>(c, "double");
    }
    Src &s = c.s;
    double x = num<double>(s);
    c.require(Q_rint(x) == std::floor(x + 0.5), "rint", "Q_rint");
    int n = (int)s.draw(1000);
    c.require(align_value<4>(n) == (n + 3) / 4 * 4 && align_value<7>(n) == (n + 6) / 7 * 7, "align", vh::cat("align_value of ", n));
    qvec3f col((float)s.f(-0.2, 1.2), (float)s.f(-0.2, 1.2), (float)s.f(0, 1));
    bool in = true;
    for (auto &k : col)
        in = in && k >= 0 && k <= 1;
    c.require(qv::normalize_color_format(col) == (in ? col * 255 : col), "colour", "normalize_color_format");
}

template<class T, size_t N>
static qmat<T, N, N> mat(Src &s)
{
    qmat<T, N, N> m;
    for (size_t r = 0; r < N; ++r)
        for (size_t k = 0; k < N; ++k)
            m.at(r, k) = (T)(s.b() ? s.ito(-6, 6, 0) : s.f(-4, 4));
    return m;
}
template<class T, size_t N>
static L det(const qmat<T, N, N> &m)
{
    L a[N][N], d = 1;
    for (size_t r = 0; r < N; ++r)
        for (size_t k = 0; k < N; ++k)
            a[r][k] = m.at(r, k);
    for (size_t i = 0; i < N; ++i) {
        size_t p = i;
        for (size_t r = i; r < N; ++r)
            if (fabsl(a[r][i]) > fabsl(a[p][i]))
                p = r;
        if (a[p][i] == 0)
            return 0;
        if (p != i) {
            for (size_t k = 0; k < N; ++k)
                std::swap(a[p][k], a[i][k]);
            d = -d;
        }
        d *= a[i][i];
        for (size_t r = i + 1; r < N; ++r) {
            L f = a[r][i] / a[i][i];
            for (size_t k = i; k < N; ++k)
                a[r][k] -= f * a[i][k];
        }
    }
    return d;
}
template<class T, size_t N>
static void mat_ops(Case &c)
{
    Src &s = c.s;
    auto a = mat<T, N>(s), b = mat<T, N>(s);
    auto x = vec<T, N>(s);
    qmat<T, N, N> id;
    for (size_t r = 0; r < N; ++r)
        for (size_t k = 0; k < N; ++k) {
            c.require(id.at(r, k) == (r == k), "matrix", "identity");
            L w = 0, mag = 0;
            for (size_t i = 0; i < N; ++i)
                w += (L)a.at(r, i) * b.at(i, k), mag += fabsl((L)a.at(r, i) * b.at(i, k));
            c.require(near((a * b).at(r, k), w, mag * 8 * eps<T>()), "matrix", "product");
            c.require(a.transpose().at(k, r) == a.at(r, k), "matrix", "transpose");
            c.require((a * T(3)).at(r, k) == a.at(r, k) * 3, "matrix", "scaling");
            c.require(a.row(r)[k] == a.at(r, k) && a.col(k)[r] == a.at(r, k), "matrix", "row and column");
        }
    auto y = a * x;
    for (size_t r = 0; r < N; ++r) {
        L w = 0, mag = 0;
        for (size_t i = 0; i < N; ++i)
            w += (L)a.at(r, i) * x[i], mag += fabsl((L)a.at(r, i) * x[i]);
        c.require(near(y[r], w, mag * 8 * eps<T>()), "matrix", "product with a vector");
    }
    auto t = a;
    size_t k = s.draw(N);
    t.set_row(k, x);
    for (size_t r = 0; r < N; ++r)
        for (size_t i = 0; i < N; ++i)
            c.require(t.at(r, i) == (r == k ? x[i] : a.at(r, i)), "matrix", "set_row");
    t = a;
    t.set_col(k, x);
    for (size_t r = 0; r < N; ++r)
        for (size_t i = 0; i < N; ++i)
            c.require(t.at(r, i) == (i == k ? x[r] : a.at(r, i)), "matrix", "set_col");
    c.require(qmat<T, N, N>(qmat<double, N, N>(a)) == a && (a == b) == (a.m_values == b.m_values), "matrix", "cast");
    // inverse
    if constexpr (!(std::is_same_v<T, double> && N != 4)) {
        bool singular = s.chance(1, 6);
        if (singular) // exactly, in any arithmetic
            for (size_t i = 0; i < N; ++i) {
                if (N == 2)
                    a.at(1, i) = a.at(0, i) * 2;
                else
                    a.at(1, i) = 0;
            }
        L d = det(a);
        auto inv = qv::inverse(a);
        std::string txt;
        for (auto &q : a.m_values)
            txt += vh::cat(q, " ");
        c.describe(vh::cat("matrix ", txt));
        if (d == 0 && !singular)
            return; // rounding decides
        if (d == 0) {
            bool nan = true;
            for (auto &q : inv.m_values)
                nan = nan && std::isnan(q);
            c.require(nan, "inverse", "a singular matrix has an inverse");
        } else if (fabsl(d) > 0.5) {
            auto p = a * inv;
            L big = 1;
            for (auto &q : inv.m_values)
                big = std::max(big, (L)std::fabs(q));
            for (size_t r = 0; r < N; ++r)
                for (size_t i = 0; i < N; ++i)
                    c.require(near(p.at(r, i), r == i, big * 300 * eps<T>() * (1 + 1000 / fabsl(d))), "inverse", vh::cat("a matrix times its inverse has ", p.at(r, i), " at ", r, ",", i, "; determinant ", (double)d));
            c.nt();
        }
    }
}
static void matrices(Case &c)
{
    Src &s = c.s;
    switch (s.draw(4)) {
        case 0: mat_ops<double, 4>(c); break;
        case 1: mat_ops<float, 4>(c); break;
        case 2: mat_ops<float, 3>(c); break;
        default: mat_ops<float, 2>(c);
    }
    auto rm = qmat<double, 2, 3>::row_major({1, 2, 3, 4, 5, 6});
    c.require(rm.at(0, 2) == 3 && rm.at(1, 0) == 4 && rm.transpose().at(2, 1) == 6, "matrix", "row_major");
    // rotations
    double a = s.f(-7, 7);
    qmat3x3d R[3] = {RotateAboutX(a), RotateAboutY(a), RotateAboutZ(a)};
    qvec3d p(num<double>(s), num<double>(s), num<double>(s));
    for (int k = 0; k < 3; ++k) {
        auto q = R[k] * p;
        int i = (k + 1) % 3, j = (k + 2) % 3; // turns axis i towards axis j
        L w[3];
        w[k] = p[k];
        w[i] = cosl(a) * p[i] - sinl(a) * p[j];
        w[j] = sinl(a) * p[i] + cosl(a) * p[j];
        for (int x = 0; x < 3; ++x)
            c.require(near(q[x], w[x], 1e-10L * (1 + ln(v(p)))), "rotation", vh::cat("rotation about axis ", k, " by ", a, " takes ", str(p), " to ", str(q)));
    }
    qvec3f n;
    if (s.chance(1, 3)) {
        n = {};
        n[s.draw(3)] = s.b() ? 1 : -1;
    } else {
        do
            n = qvec3f((float)s.f(-1, 1), (float)s.f(-1, 1), (float)s.f(-1, 1));
        while (qv::length(n) < 0.1f);
        n = qv::normalize(n);
    }
    auto M = RotateFromUpToSurfaceNormal(n);
    auto up = M * qvec3f(0, 0, 1);
    c.require(ln(v(up) - v(n)) < 2e-3, "rotation", vh::cat("RotateFromUpToSurfaceNormal takes up to ", str(up), ", not ", str(n)));
    auto mm = M * M.transpose();
    for (int r = 0; r < 3; ++r)
        for (int k = 0; k < 3; ++k)
            c.require(near(mm.at(r, k), r == k, 1e-5), "rotation", "RotateFromUpToSurfaceNormal is no rotation");
    c.require(det(M) > 0.99, "rotation", "RotateFromUpToSurfaceNormal mirrors");
}

static void boxes(Case &c)
{
    Src &s = c.s;
    auto pt = [&] { return qvec3d(s.ito(-6, 6, 0), s.ito(-6, 6, 0), s.chance(1, 4) ? s.f(-6, 6) : s.ito(-6, 6, 0)); };
    auto mk = [&] {
        qvec3d a = pt(), b = pt();
        return aabb3d(qv::min(a, b), qv::max(a, b));
    };
    aabb3d a = mk(), b = mk();
    qvec3d p = pt();
    c.describe(vh::cat(str(a.mins()), "-", str(a.maxs()), " ", str(b.mins()), "-", str(b.maxs()), " ", str(p)));
    double e = s.chance(1, 2) ? 0 : s.f(0, 2);
    bool dis = false, dit = false, in = true, con = true;
    for (int i = 0; i < 3; ++i) {
        dis = dis || a.maxs()[i] < b.mins()[i] - e || a.mins()[i] > b.maxs()[i] + e;
        dit = dit || a.maxs()[i] <= b.mins()[i] - e || a.mins()[i] >= b.maxs()[i] + e;
        in = in && p[i] >= a.mins()[i] && p[i] <= a.maxs()[i];
        con = con && b.mins()[i] >= a.mins()[i] && b.maxs()[i] <= a.maxs()[i];
    }
    c.require(a.disjoint(b, e) == dis, "disjoint", vh::cat("disjoint is ", !dis, " with epsilon ", e));
    c.require(a.disjoint_or_touching(b, e) == dit, "disjoint", vh::cat("disjoint_or_touching is ", !dit, " with epsilon ", e));
    c.require(a.containsPoint(p) == in && a.contains(b) == con, "contains", "contains");
    auto is = a.intersectWith(b);
    qvec3d lo = qv::max(a.mins(), b.mins()), hi = qv::min(a.maxs(), b.maxs());
    bool hit = lo[0] <= hi[0] && lo[1] <= hi[1] && lo[2] <= hi[2];
    c.require(is.valid == hit && (!hit || (is.bbox.mins() == lo && is.bbox.maxs() == hi)), "intersect", "intersectWith");
    auto box = [&](const char *what, const aabb3d &g, const qvec3d &lo, const qvec3d &hi) { c.require(g.mins() == lo && g.maxs() == hi, "box", vh::cat(what, " gives ", str(g.mins()), "-", str(g.maxs()))); };
    qvec3d ulo = qv::min(a.mins(), b.mins()), uhi = qv::max(a.maxs(), b.maxs()), plo = qv::min(a.mins(), p), phi = qv::max(a.maxs(), p);
    box("union", a + b, ulo, uhi);
    box("union", a.unionWith(b), ulo, uhi);
    box("expand", a + p, plo, phi);
    aabb3d t = a;
    t += b;
    box("+= box", t, ulo, uhi);
    t = a;
    t += p;
    box("+= point", t, plo, phi);
    box("translate", a.translate(p), a.mins() + p, a.maxs() + p);
    qvec3d g(e, e * 2, 1);
    box("grow", a.grow(g), a.mins() - g, a.maxs() + g);
    std::vector<qvec3d> ps;
    int n = (int)s.i(1, 6);
    qvec3d l2, h2;
    for (int i = 0; i < n; ++i) {
        ps.push_back(pt());
        l2 = i ? qv::min(l2, ps[i]) : ps[i];
        h2 = i ? qv::max(h2, ps[i]) : ps[i];
    }
    box("points", aabb3d(ps.begin(), ps.end()), l2, h2);
    aabb3d em;
    for (auto &q : ps)
        em += q;
    box("points one by one", em, l2, h2);
    c.require(!aabb3d{}.containsPoint(p), "empty", "an empty box contains a point");
    c.require(a.size() == a.maxs() - a.mins() && qv::epsilonEqual(a.centroid(), (a.mins() + a.maxs()) * 0.5, 1e-12), "box", "size");
    c.require(near(a.volume(), (L)a.size()[0] * a.size()[1] * a.size()[2], 1e-9), "box", "volume");
    c.require(a.valid(), "box", "valid");
    auto pl = aabb_planes(a);
    bool inp = true;
    for (auto &x : pl)
        inp = inp && x.distance_to(p) <= 0;
    c.require(inp == in, "planes", "the planes of a box do not bound it");
    c.nt(hit && !con);
}

typedef std::vector<qvec3f> FP;
struct Face
{
    FP p;
    V n;
    V mid;
    L size;
};
static Face gen_face(Src &s)
{
    Face f;
    auto fr = mg::frame(s);
    auto hull = mg::convex(s, -30, 30);
    double k = s.pick<double>({1, 2, 4.5});
    for (auto &q : mg::place(mg::Frame{fr.o, fr.u * k, fr.v * k, fr.n}, hull, (int)s.draw(5)))
        f.p.push_back(q);
    f.n = v(fr.n);
    f.mid = {0, 0, 0};
    f.size = 0;
    for (auto &q : f.p)
        f.mid = f.mid + v(q) * (1.0L / f.p.size());
    for (auto &q : f.p)
        f.size = std::max({f.size, ln(v(q)), ln(v(q) - f.mid)});
    return f;
}
static L seg(V a, V b, V p, V *at = nullptr)
{
    V d = b - a;
    L l = dt(d, d), t = l ? dt(p - a, d) / l : 0;
    t = std::max(0.0L, std::min(1.0L, t));
    V q = a + d * t;
    if (at)
        *at = q;
    return ln(p - q);
}
// signed distance inside the outline, positive inside
static L inside(const Face &f, V p)
{
    L m = 1e30L;
    for (size_t i = 0; i < f.p.size(); ++i) {
        V a = v(f.p[i]), b = v(f.p[(i + 1) % f.p.size()]);
        m = std::min(m, dt(un(cr(b - a, f.n)), p - a));
    }
    return m;
}
static void polygons(Case &c)
{
    Src &s = c.s;
    Face f = gen_face(s);
    std::string t;
    for (auto &q : f.p)
        t += str(q) + " ";
    c.describe(t);
    L tol = 1e-5 * (f.size + 10);
    auto n = FaceNormal(f.p);
    c.require(ln(v(n) - f.n) < 1e-4, "normal", vh::cat("FaceNormal gives ", str(n)));
    auto pp = PolyPlane(f.p);
    c.require(ln(v(qvec3f(pp)) - f.n) < 1e-4 && near(pp[3], dt(f.n, v(f.p[0])), 20 * tol), "normal", "PolyPlane");
    c.require(FaceNormal({f.p[0], f.p[1], f.p[0]}) == qvec3f(0.f) && FaceNormal({f.p[0], f.p[1]}) == qvec3f(0.f), "normal", "a degenerate face has a normal");
    auto ep = MakeInwardFacingEdgePlanes(f.p);
    c.require(ep.size() == f.p.size(), "edges", "number of edge planes");
    c.require(MakeInwardFacingEdgePlanes({f.p[0], f.p[1]}).empty() && !EdgePlanes_PointInside({}, f.p[0]), "edges", "a line has edge planes");
    // area, centroid
    L A = 0;
    V C{0, 0, 0};
    for (size_t i = 2; i < f.p.size(); ++i) {
        V a = v(f.p[0]), b = v(f.p[i - 1]), d = v(f.p[i]);
        L w = ln(cr(b - a, d - a)) / 2;
        A += w;
        C = C + (a + b + d) * (w / 3);
    }
    C = C * (1 / A);
    c.require(near(qv::PolyArea(f.p.begin(), f.p.end()), A, 1e-4 * A + tol), "area", vh::cat("PolyArea ", qv::PolyArea(f.p.begin(), f.p.end()), ", not ", (double)A));
    c.require(ln(v(qv::PolyCentroid(f.p.begin(), f.p.end())) - C) < 30 * tol, "centroid", vh::cat("PolyCentroid ", str(qv::PolyCentroid(f.p.begin(), f.p.end()))));
    for (int k = 0; k < 6; ++k) {
        // a point on the plane, inside or around
        V q{0, 0, 0};
        L sum = 0;
        for (auto &x : f.p) {
            L w = s.unit();
            q = q + v(x) * w;
            sum += w;
        }
        q = sum > 0 ? q * (1 / sum) : f.mid;
        if (s.b())
            q = f.mid + (q - f.mid) * s.pick<double>({1.5, 3, 6});
        L off = s.b() ? 0 : s.f(-30, 30);
        V qo = q + f.n * off;
        qvec3f P((float)qo[0], (float)qo[1], (float)qo[2]);
        L in = inside(f, v(P));
        c.require(near(EdgePlanes_PointInsideDist(ep, P), in, 20 * tol), "inside", vh::cat("EdgePlanes_PointInsideDist of ", str(P), " is ", EdgePlanes_PointInsideDist(ep, P), ", not ", (double)in));
        if (fabsl(in + POINT_EQUAL_EPSILON) > 20 * tol)
            c.require(EdgePlanes_PointInside(ep, P) == (in > -POINT_EQUAL_EPSILON), "inside", vh::cat("EdgePlanes_PointInside of ", str(P)));
        auto pr = ProjectPointOntoPlane(pp, P);
        c.require(ln(v(pr) - (v(P) - f.n * (dt(f.n, v(P)) - dt(f.n, v(f.p[0]))))) < 30 * tol, "project", vh::cat("ProjectPointOntoPlane of ", str(P), " is ", str(pr)));
        c.require(near(DistAbovePlane(MakePlane(n, f.p[1]), P), dt(f.n, v(P) - v(f.p[1])), 30 * tol), "project", "DistAbovePlane");
        L best = 1e30L;
        for (size_t i = 0; i < f.p.size(); ++i)
            best = std::min(best, seg(v(f.p[i]), v(f.p[(i + 1) % f.p.size()]), v(P)));
        auto [bi, bp] = ClosestPointOnPolyBoundary(f.p, P);
        c.require(bi >= 0 && bi < (int)f.p.size() && near(ln(v(bp) - v(P)), best, 10 * tol), "closest", vh::cat("ClosestPointOnPolyBoundary of ", str(P), " is ", str(bp)));
        c.require(seg(v(f.p[bi]), v(f.p[(bi + 1) % f.p.size()]), v(bp)) < 10 * tol, "closest", "the closest point is not on its edge");
        // normals
        FP nr;
        V g = {s.f(-1, 1), s.f(-1, 1), s.f(-1, 1)}; // a linear field
        V g2 = {s.f(-.02, .02), s.f(-.02, .02), s.f(-.02, .02)};
        auto field = [&](V x) { return qvec3f((float)(g[0] + dt(g2, x)), (float)(g[1] - dt(g2, x) * 2), (float)(g[2] + g2[1] * x[2])); };
        for (auto &x : f.p)
            nr.push_back(field(v(x)));
        auto [ok, in2] = InterpolateNormal(f.p, nr, pr);
        L inp = inside(f, v(pr));
        if (inp > 30 * tol)
            c.require(ok, "interpolate", vh::cat("InterpolateNormal finds nothing at ", str(pr)));
        // the epsilon counts for each triangle of the fan, which reaches out further at sharp corners
        L fan = -1e30L;
        for (size_t i = 2; i < f.p.size(); ++i) {
            Face tri = f;
            tri.p = {f.p[0], f.p[i - 1], f.p[i]};
            fan = std::max(fan, inside(tri, v(pr)));
        }
        if (fan < -POINT_EQUAL_EPSILON - 30 * tol)
            c.require(!ok, "interpolate", vh::cat("InterpolateNormal finds a normal outside at ", str(pr)));
        L cond = 0; // how much slivers magnify rounding
        for (size_t i = 2; i < f.p.size(); ++i) {
            V a = v(f.p[i - 1]) - v(f.p[0]), b = v(f.p[i]) - v(f.p[0]);
            L cx = ln(cr(a, b));
            cond = std::max(cond, dt(a, a) * dt(b, b) / std::max(1e-9L, cx * cx));
        }
        if (ok && inp > 0 && cond < 1e5) {
            auto want = field(v(pr));
            c.require(ln(v(in2) - v(want)) < 0.03 + 300 * tol + 3e-6 * cond, "interpolate", vh::cat("InterpolateNormal gives ", str(in2), " at ", str(pr), ", not ", str(want)));
        }
        c.nt(in > 0 && f.p.size() > 3);
    }
    // random points lie inside
    auto st = PolyRandomPoint_Setup(f.p);
    for (int k = 0; k < 4; ++k) {
        float r1 = (float)s.unit(), r2 = (float)s.unit(), r3 = (float)s.unit();
        if (s.chance(1, 8))
            r1 = s.b() ? 1.f : 0.f;
        if (s.chance(1, 8))
            r2 = s.b() ? 1.f : 0.f;
        auto q = PolyRandomPoint(st, r1, r2, r3);
        c.require(inside(f, v(q)) > -20 * tol && fabsl(dt(f.n, v(q)) - dt(f.n, v(f.p[0]))) < 20 * tol, "random", vh::cat("PolyRandomPoint gives ", str(q), " for ", r1, " ", r2, " ", r3));
        // the triangle is the one the fraction of the area falls into
        L acc = 0;
        size_t tri = 2;
        bool edge = false;
        for (; tri < f.p.size(); ++tri) {
            acc += ln(cr(v(f.p[tri - 1]) - v(f.p[0]), v(f.p[tri]) - v(f.p[0]))) / 2 / A;
            edge = edge || fabsl(acc - r1) < 1e-5;
            if (r1 <= acc)
                break;
        }
        if (!edge && tri < f.p.size()) {
            Face tf = f;
            tf.p = {f.p[0], f.p[tri - 1], f.p[tri]};
            c.require(inside(tf, v(q)) > -20 * tol, "random", vh::cat("PolyRandomPoint takes the wrong triangle for ", r1));
        }
    }
    // shrinking and clipping
    float am = (float)s.f(0.2, 6);
    auto sh = ShrinkPoly(f.p, am);
    for (auto &q : sh)
        c.require(inside(f, v(q)) > am - 0.11 - 20 * tol, "shrink", vh::cat("ShrinkPoly by ", am, " leaves ", str(q), " at ", (double)inside(f, v(q))));
    if (inside(f, C) > am + 0.2)
        c.require(!sh.empty(), "shrink", "ShrinkPoly leaves nothing");
    if (!sh.empty() && inside(f, C) > am + 0.2) {
        bool hold = true;
        Face sf = f;
        sf.p = sh;
        L m = inside(sf, C);
        hold = m > inside(f, C) - am - 0.12 - 20 * tol;
        c.require(hold, "shrink", "ShrinkPoly cuts off too much");
    }
    qvec3f cn = qv::normalize(qvec3f((float)s.f(-1, 1), (float)s.f(-1, 1), (float)s.f(0.1, 1)));
    qvec4f cp(cn[0], cn[1], cn[2], (float)dt(v(cn), C));
    auto [fp, bp2] = ClipPoly(f.p, cp);
    L fa = 0, ba = 0;
    for (size_t i = 2; i < fp.size(); ++i)
        fa += ln(cr(v(fp[i - 1]) - v(fp[0]), v(fp[i]) - v(fp[0]))) / 2;
    for (size_t i = 2; i < bp2.size(); ++i)
        ba += ln(cr(v(bp2[i - 1]) - v(bp2[0]), v(bp2[i]) - v(bp2[0]))) / 2;
    for (auto &q : fp)
        c.require(dt(v(cn), v(q)) - cp[3] > -0.11 - tol || bp2.empty(), "clip", "ClipPoly front");
    for (auto &q : bp2)
        c.require(dt(v(cn), v(q)) - cp[3] < 0.11 + tol, "clip", "ClipPoly back");
    L per = 0;
    for (size_t i = 0; i < f.p.size(); ++i)
        per += ln(v(f.p[i]) - v(f.p[(i + 1) % f.p.size()]));
    // points within the epsilon count for both sides: a band that widens with shallow planes
    L band = (0.12 + tol) / std::max(1e-3L, ln(cr(v(cn), f.n)));
    c.require(near(fa + ba, A, band * per), "clip", vh::cat("ClipPoly's parts have areas ", (double)fa, " and ", (double)ba, " of ", (double)A));
}

static void lines(Case &c)
{
    Src &s = c.s;
    auto pt = [&] { return qvec3f((float)s.ito(-60, 60, 0), (float)s.ito(-60, 60, 0), (float)(s.b() ? s.ito(-60, 60, 0) : s.f(-60, 60))); };
    qvec3f a = pt(), b = pt(), p = pt();
    if (a == b)
        b[0] += 5;
    c.describe(vh::cat(str(a), " ", str(b), " ", str(p)));
    V d = v(b) - v(a);
    L l = ln(d), t = dt(v(p) - v(a), d) / (l * l);
    V on = v(a) + d * t;
    L tol = 2e-3;
    c.require(near(FractionOfLine(a, b, p), t, 1e-4 * (1 + fabsl(t))), "fraction", vh::cat("FractionOfLine is ", FractionOfLine(a, b, p), ", not ", (double)t));
    c.require(FractionOfLine(a, a, p) == 0, "fraction", "FractionOfLine of a point");
    c.require(ln(v(ClosestPointOnLine(a, b, p)) - on) < tol, "closest", "ClosestPointOnLine");
    c.require(near(DistToLine(a, b, p), ln(v(p) - on), tol), "closest", "DistToLine");
    V sp;
    L sd = seg(v(a), v(b), v(p), &sp);
    c.require(ln(v(ClosestPointOnLineSegment(a, b, p)) - sp) < tol, "closest", vh::cat("ClosestPointOnLineSegment is ", str(ClosestPointOnLineSegment(a, b, p))));
    c.require(near(DistToLineSegment(a, b, p), sd, tol), "closest", "DistToLineSegment");
    float step = (float)s.pick<double>({1, 0.5, 7, 100});
    auto along = PointsAlongLine(a, b, step);
    c.require(PointsAlongLine(a, a, step).empty(), "along", "points along a point");
    if (fabsl(l / step - roundl(l / step)) > 1e-4)
        c.require((int)along.size() == (int)(l / step) + 1, "along", vh::cat("PointsAlongLine gives ", along.size(), " points"));
    for (size_t i = 0; i < along.size(); ++i)
        c.require(ln(v(along[i]) - (v(a) + d * (step * i / l))) < tol, "along", "PointsAlongLine");
    // overlap: segments along one line or apart
    {
        L u0 = s.f(-1.5, 2.5), u1 = s.f(-1.5, 2.5), off = s.b() ? 0 : s.f(0.3, 3);
        V side = cr(d, V{0.3, 0.9, -0.2});
        if (ln(side) < 1e-3)
            side = cr(d, V{1, 0, 0});
        if (ln(side) > 1e-3) {
            V o = un(side) * off;
            bool one = s.b();
            V q0 = v(a) + d * u0 + o, q1 = v(a) + d * u1 + (one ? V{0, 0, 0} : o);
            qvec3f Q0((float)q0[0], (float)q0[1], (float)q0[2]), Q1((float)q1[0], (float)q1[1], (float)q1[2]);
            bool over = off == 0 && !(std::max(u0, u1) < 0) && !(std::min(u0, u1) > 1);
            L m = 1e-3;
            if (fabsl(std::max(u0, u1)) > m && fabsl(std::min(u0, u1) - 1) > m)
                c.require(LinesOverlap(a, b, Q0, Q1) == over, "overlap", vh::cat("LinesOverlap of ", str(Q0), " ", str(Q1), " at ", (double)u0, " ", (double)u1, " off ", (double)off));
        }
    }
    // triangles
    qvec3d A(num<double>(s), num<double>(s), num<double>(s)), B = A + qvec3d(s.f(5, 90), s.f(-40, 40), s.f(-40, 40)), C = A + qvec3d(s.f(-40, 40), s.f(5, 90), s.f(-40, 40));
    if (ln(cr(v(B) - v(A), v(C) - v(A))) > 50) {
        qvec3d bc(s.f(-1, 2), s.f(-1, 2), 0);
        bc[2] = 1 - bc[0] - bc[1];
        auto P = qv::Barycentric_ToPoint(bc, A, B, C);
        V w = v(A) * bc[0] + v(B) * bc[1] + v(C) * bc[2];
        c.require(ln(v(P) - w) < 1e-8, "barycentric", "Barycentric_ToPoint");
        auto back = qv::Barycentric_FromPoint(P, A, B, C);
        c.require(ln(v(back) - v(bc)) < 1e-5, "barycentric", vh::cat("Barycentric_FromPoint gives ", str(back), ", not ", str(bc)));
        double r1 = s.unit(), r2 = s.unit();
        auto rb = qv::Barycentric_Random(r1, r2);
        c.require(rb[0] >= -1e-12 && rb[1] >= -1e-12 && rb[2] >= -1e-12 && near(rb[0] + rb[1] + rb[2], 1, 1e-12), "barycentric", "Barycentric_Random leaves the triangle");
        c.require(near(rb[0], 1 - sqrtl(r1), 1e-9) && near(rb[1], r2 * sqrtl(r1), 1e-9), "barycentric", "Barycentric_Random is not uniform");
        c.nt();
    }
    // angles
    {
        qvec3f n = qv::normalize(qvec3f((float)s.f(-1, 1), (float)s.f(-1, 1), (float)s.f(0.2, 1)));
        V e1 = un(cr(v(n), fabsl(n[0]) < 0.9 ? V{1, 0, 0} : V{0, 1, 0})), e2 = cr(v(n), e1);
        double deg = s.f(-175, 175), base = s.f(0, 360);
        auto at = [&](double dg) { V q = e1 * cosl(dg * M_PIl / 180) + e2 * sinl(dg * M_PIl / 180); return qvec3f((float)q[0], (float)q[1], (float)q[2]); };
        if (std::fabs(deg) > 1) {
            float g = SignedDegreesBetweenUnitVectors(at(base), at(base + deg), n);
            c.require(near(g, -deg, 0.1), "angle", vh::cat("SignedDegreesBetweenUnitVectors is ", g, " for a turn of ", deg, " counterclockwise"));
        }
        // two faces that meet at an edge
        double d1 = s.f(-80, 80);
        qvec3f n1 = at(90 + base), n2 = at(90 + base + d1); // d1 > 0: turns towards e1's negative: valley
        qvec3f edge(0.f);
        V w1 = v(at(base)) * -40, w2 = v(at(base + d1)) * 40;
        qvec3f c1((float)w1[0], (float)w1[1], (float)w1[2]), c2((float)w2[0], (float)w2[1], (float)w2[2]);
        auto k = FacePairConcavity(c1, n1, c2, n2);
        if (std::fabs(d1) > 1)
            c.require(k == (d1 > 0 ? concavity_t::Concave : concavity_t::Convex), "concavity", vh::cat("faces meeting at ", d1, " degrees are taken as ", (int)k));
    }
}

static void sampling(Case &c)
{
    Src &s = c.s;
    // bilinear
    float x = (float)s.pick<double>({s.unit(), 0, 1}), y = (float)s.pick<double>({s.unit(), 0, 1});
    auto w = bilinearWeights(x, y);
    c.require(near(w[0], (1 - (L)x) * (1 - (L)y), 1e-6) && near(w[1], (L)x * (1 - (L)y), 1e-6) && near(w[2], (1 - (L)x) * y, 1e-6) && near(w[3], (L)x * y, 1e-6), "bilinear", "bilinearWeights");
    double q[4] = {s.f(-9, 9), s.f(-9, 9), s.f(-9, 9), s.f(-9, 9)};
    c.require(near(bilinearInterpolate(q[0], q[1], q[2], q[3], x, y), (q[0] * (1 - (L)x) + q[1] * (L)x) * (1 - (L)y) + (q[2] * (1 - (L)x) + q[3] * (L)x) * y, 1e-4), "bilinear", "bilinearInterpolate");
    qvec2i size((int)s.i(2, 20), (int)s.i(2, 20));
    qvec2f pos;
    for (int i = 0; i < 2; ++i)
        pos[i] = (float)(s.b() ? s.i(0, size[i] - 1) : s.f(-0.5, size[i] - 0.5));
    c.describe(vh::cat("bilinear at ", str(pos), " of ", str(size)));
    auto wc = bilinearWeightsAndCoords(pos, size);
    L sum = 0, mx = 0, my = 0;
    for (auto &[at, wt] : wc) {
        c.require(at[0] >= 0 && at[0] < size[0] && at[1] >= 0 && at[1] < size[1], "bilinear", vh::cat("sample ", str(at), " is outside of ", str(size)));
        c.require(wt >= -1e-6, "bilinear", "a weight is negative");
        for (int i = 0; i < 2; ++i)
            if (wt > 1e-5)
                c.require(std::fabs(at[i] - std::min(std::max(pos[i], 0.f), size[i] - 1.f)) < 1.0001, "bilinear", "a sample is not adjacent");
        sum += wt;
        mx += (L)wt * at[0];
        my += (L)wt * at[1];
    }
    c.require(near(sum, 1, 1e-5), "bilinear", "weights do not sum up to 1");
    c.require(near(mx, std::min(std::max(pos[0], 0.f), size[0] - 1.f), 1e-4) && near(my, std::min(std::max(pos[1], 0.f), size[1] - 1.f), 1e-4), "bilinear", vh::cat("the samples' centre is ", (double)mx, " ", (double)my));
    // distributions
    int n = c.s.count(1, 30);
    std::vector<float> pdf;
    L total = 0;
    for (int i = 0; i < n; ++i) {
        pdf.push_back((float)(s.chance(1, 5) ? 0 : s.f(0, 10)));
        total += pdf.back();
    }
    if (total > 0.01) {
        auto cdf = MakeCDF(pdf);
        c.require((int)cdf.size() == n, "cdf", "size");
        L acc = 0;
        for (int i = 0; i < n; ++i) {
            acc += pdf[i] / total;
            c.require(near(cdf[i], acc, 1e-4) && (i == 0 || cdf[i] >= cdf[i - 1]), "cdf", vh::cat("element ", i, " is ", cdf[i], ", not ", (double)acc));
        }
        for (int k = 0; k < 5; ++k) {
            float r = s.chance(1, 5) ? 1.f : (float)s.unit();
            int i = SampleCDF(cdf, r);
            c.require(i >= 0 && i < n, "sample", vh::cat("SampleCDF of ", r, " gives ", i));
            c.require((i == 0 || cdf[i - 1] < r) && (r <= cdf[i] || (cdf[i] == cdf[n - 1] && r > 0.999)), "sample", vh::cat("SampleCDF of ", r, " gives ", i));
        }
        c.nt(n > 2);
    }
    // filters
    float wd = (float)s.f(0.3, 4), fx = (float)s.f(-5, 5), fy = (float)s.f(-5, 5);
    float g = Filter_Gaussian(wd, wd * 2, fx, fy);
    auto g1 = [](L w, L x) { return fabsl(x) > w ? 0.0L : expl(-x * x / 2) - expl(-w * w / 2); };
    c.require(near(g, g1(wd, fx) * g1(wd * 2, fy), 1e-5), "filter", "Filter_Gaussian");
    float a = (float)s.i(1, 3);
    L r = sqrtl((L)fx * fx + (L)fy * fy);
    if (fabsl(r - a) > 1e-4) {
        L want = r == 0 ? 1 : r >= a ? 0 : a * sinl(M_PIl * r) * sinl(M_PIl * r / a) / (M_PIl * M_PIl * r * r);
        c.require(near(Lanczos2D(fx, fy, a), want, 1e-4), "filter", vh::cat("Lanczos2D is ", Lanczos2D(fx, fy, a), ", not ", (double)want));
    }
    c.require(Lanczos2D(0, 0, a) == 1, "filter", "Lanczos2D at 0");
    double rnd = Random();
    c.require(rnd >= 0 && rnd <= 1, "random", "Random");
}

VH_MAIN("C34", "vectors: two different vectors; matrices: an invertible matrix; boxes: overlapping but not nested; polygons: a point inside a polygon of 4 or more corners; lines: a triangle of some size; sampling: a distribution of 3 or more values",
    (std::vector<std::string>{"expected values are computed in long double; tolerances are those of float or double arithmetic at the sizes used (up to about 4000 units)"}),
    vh::Sub{"vectors", vectors, 60000, 3000000}, vh::Sub{"matrices", matrices, 40000, 2000000}, vh::Sub{"boxes", boxes, 40000, 2000000}, vh::Sub{"polygons", polygons, 20000, 1000000}, vh::Sub{"lines", lines, 30000, 1500000},
    vh::Sub{"sampling", sampling, 30000, 1500000})
