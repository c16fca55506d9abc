// C35: byte streams, name comparisons, checksums and number conversions
#include "vh.hh"
#include <common/cmdlib.hh>
#include <common/qvec.hh>
#include <common/numeric_cast.hh>
#include <common/bitflags.hh>
#include <common/mathlib.hh>
using vh::Case;
using vh::Src;

static std::string Q(const std::string &s) { return "\"" + s + "\""; }
template<class T>
static std::string le_bytes(T v, bool big)
{
    std::string r(sizeof(T), 0);
    memcpy(r.data(), &v, sizeof(T)); // the sandbox is little endian
    if (big)
        std::reverse(r.begin(), r.end());
    return r;
}
enum class en8 : uint8_t { a = 1, b = 200 };
enum class en32 : int32_t { a = -5, b = 70000 };
struct rec_t
{
    uint8_t a;
    int16_t b;
    std::array<float, 3> c;
    en32 d;
    auto stream_data() { return std::tie(a, b, c, d); }
};
struct hand_t
{
    uint32_t x;
    void stream_write(std::ostream &s) const { s <= x <= (uint16_t)7; }
    void stream_read(std::istream &s)
    {
        uint16_t y;
        s >= x;
        s >= y;
    }
};

// a history of stream operations against a plain vector with two positions
template<class S>
static void history(Case &c, S &st, std::vector<char> &buf, std::string model, bool in, bool out)
{
    Src &s = c.s;
    size_t rp = 0, wp = 0;
    bool big = false, dead = false;
    int n = s.count(1, 30);
    std::string log;
    int seeks = 0;
    for (int k = 0; k < n; ++k) {
        if (s.chance(1, 8)) {
            big = s.b();
            if constexpr (std::is_base_of_v<std::ostream, S>) {
                if (big)
                    static_cast<std::ostream &>(st) << endianness<std::endian::big>;
                else
                    static_cast<std::ostream &>(st) << endianness<std::endian::little>;
            } else {
                if (big)
                    static_cast<std::istream &>(st) >> endianness<std::endian::big>;
                else
                    static_cast<std::istream &>(st) >> endianness<std::endian::little>;
            }
        }
        int op = (int)s.draw(6);
        if (op < 2 && out) {
            std::string b;
            if constexpr (std::is_base_of_v<std::ostream, S>) {
                std::ostream &o = st;
                uint64_t r = s.draw(0);
                double d = s.f(-1e6, 1e6);
                switch (s.draw(17)) {
                    case 0: o <= (uint8_t)r; b = le_bytes((uint8_t)r, big); break;
                    case 1: o <= (int8_t)r; b = le_bytes((int8_t)r, big); break;
                    case 2: o <= (char)r; b = le_bytes((char)r, big); break;
                    case 3: o <= (uint16_t)r; b = le_bytes((uint16_t)r, big); break;
                    case 4: o <= (int16_t)r; b = le_bytes((int16_t)r, big); break;
                    case 5: o <= (uint32_t)r; b = le_bytes((uint32_t)r, big); break;
                    case 6: o <= (int32_t)r; b = le_bytes((int32_t)r, big); break;
                    case 7: o <= (uint64_t)r; b = le_bytes((uint64_t)r, big); break;
                    case 8: o <= (int64_t)r; b = le_bytes((int64_t)r, big); break;
                    case 9: o <= (float)d; b = le_bytes((float)d, big); break;
                    case 10: o <= d; b = le_bytes(d, big); break;
                    case 11: {
                        rec_t q{(uint8_t)r, (int16_t)(r >> 8), {(float)d, 1, -2}, en32::b};
                        o <= q;
                        b = le_bytes(q.a, big) + le_bytes(q.b, big) + le_bytes(q.c[0], big) + le_bytes(q.c[1], big) + le_bytes(q.c[2], big) + le_bytes((int32_t)q.d, big);
                        break;
                    }
                    case 12: {
                        std::array<en8, 3> q{en8::a, en8::b, (en8)(r & 255)};
                        o <= q;
                        b = std::string{(char)1, (char)200, (char)(r & 255)};
                        break;
                    }
                    case 13: o <= padding_n(r % 9); b = std::string(r % 9, 0); break;
                    case 14: o <= padding<3>(); b = std::string(3, 0); break;
                    case 15: o <= hand_t{(uint32_t)r}; b = le_bytes((uint32_t)r, big) + le_bytes((uint16_t)7, big); break;
                    default: {
                        auto q = s.bytes((int)(r % 20));
                        b.assign(q.begin(), q.end());
                        o.write(b.data(), b.size());
                    }
                }
                log += vh::cat("w", b.size(), " ");
                if (dead)
                    continue; // writes to a failed stream do nothing
                size_t room = model.size() - wp;
                if (b.size() > room) {
                    c.require(!st, "write", vh::cat("writing ", b.size(), " bytes with room for ", room, " does not fail: ", log));
                    // how much of it got in is unspecified: adopt it, but nothing before may change
                    for (size_t i = wp; i < model.size(); ++i)
                        model[i] = buf[i];
                    dead = true;
                } else {
                    c.require(!!st, "write", vh::cat("writing ", b.size(), " bytes with room for ", room, " fails: ", log));
                    std::copy(b.begin(), b.end(), model.begin() + wp);
                    wp += b.size();
                }
            }
        } else if (op < 4 && in) {
            if constexpr (std::is_base_of_v<std::istream, S>) {
                std::istream &i = st;
                size_t have = model.size() - rp, want = 0;
                std::string got;
                auto num = [&](auto v) {
                    v = 0;
                    want = sizeof v;
                    i >= v;
                    got = le_bytes(v, big);
                };
                switch (s.draw(15)) {
                    case 0: num((uint8_t)0); break;
                    case 1: num((int8_t)0); break;
                    case 2: num((char)0); break;
                    case 3: num((uint16_t)0); break;
                    case 4: num((int16_t)0); break;
                    case 5: num((uint32_t)0); break;
                    case 6: num((int32_t)0); break;
                    case 7: num((uint64_t)0); break;
                    case 8: num((int64_t)0); break;
                    case 9: num((float)0); break;
                    case 10: num((double)0); break;
                    case 11: {
                        rec_t q{};
                        want = 19;
                        i >= q;
                        got = le_bytes(q.a, big) + le_bytes(q.b, big) + le_bytes(q.c[0], big) + le_bytes(q.c[1], big) + le_bytes(q.c[2], big) + le_bytes((int32_t)q.d, big);
                        break;
                    }
                    case 12: {
                        padding<3> q;
                        want = 3;
                        i >= q;
                        got = have >= 3 ? model.substr(rp, 3) : "";
                        break;
                    }
                    case 13: {
                        hand_t q{};
                        want = 6;
                        i >= q;
                        got = have >= 6 ? le_bytes(q.x, big) + model.substr(rp + 4, 2) : "";
                        break;
                    }
                    default: {
                        want = s.draw(20);
                        got.resize(want);
                        i.read(got.data(), want);
                    }
                }
                log += vh::cat("r", want, " ");
                if (dead)
                    continue;
                if (want > have) {
                    c.require(!st, "read", vh::cat("reading ", want, " of ", have, " bytes does not fail: ", log));
                    dead = true;
                } else {
                    c.require(!!st, "read", vh::cat("reading ", want, " of ", have, " bytes fails: ", log));
                    c.require(got == model.substr(rp, want), "read", vh::cat("read other bytes at ", rp, big ? " (big endian): " : ": ", log));
                    rp += want;
                }
            }
        } else if (op == 4) {
            st.clear();
            if (dead) { // positions after a failure are unspecified within the buffer
                if constexpr (std::is_base_of_v<std::istream, S>)
                    if (in) {
                        auto t = (long)static_cast<std::istream &>(st).tellg();
                        c.require(t >= 0 && t <= (long)model.size(), "range", vh::cat("the read position is ", t, " of ", model.size(), ": ", log));
                        rp = t;
                    }
                if constexpr (std::is_base_of_v<std::ostream, S>)
                    if (out) {
                        auto t = (long)static_cast<std::ostream &>(st).tellp();
                        c.require(t >= 0 && t <= (long)model.size(), "range", vh::cat("the write position is ", t, " of ", model.size(), ": ", log));
                        wp = t;
                    }
                dead = false;
            }
            bool rd = in && (!out || s.b());
            auto dir = s.pick<std::ios_base::seekdir>({std::ios_base::beg, std::ios_base::cur, std::ios_base::end});
            long sz = (long)model.size();
            long target = s.chance(1, 6) ? s.ito(-5, sz + 5, 0) : s.i(0, sz);
            long base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::end ? sz : (long)(rd ? rp : wp);
            bool ok = target >= 0 && target <= sz;
            bool absolute = dir == std::ios_base::beg && s.b();
            log += vh::cat(rd ? "seekg(" : "seekp(", target, ") ");
            ++seeks;
            if constexpr (std::is_base_of_v<std::istream, S>)
                if (rd) {
                    auto &i = static_cast<std::istream &>(st);
                    absolute ? i.seekg(target) : i.seekg(target - base, dir);
                }
            if constexpr (std::is_base_of_v<std::ostream, S>)
                if (!rd) {
                    auto &o = static_cast<std::ostream &>(st);
                    absolute ? o.seekp(target) : o.seekp(target - base, dir);
                }
            c.require(!!st == ok, "seek", vh::cat("moving to ", target, " of ", sz, ok ? " fails: " : " does not fail: ", log));
            if (ok)
                (rd ? rp : wp) = target;
            else
                st.clear(); // the position stays
        } else if (!dead) {
            if constexpr (std::is_base_of_v<std::istream, S>)
                if (in) {
                    auto t = (long)static_cast<std::istream &>(st).tellg();
                    c.require(t == (long)rp, "tell", vh::cat("the read position is ", t, ", not ", rp, ": ", log));
                }
            if constexpr (std::is_base_of_v<std::ostream, S>)
                if (out) {
                    auto t = (long)static_cast<std::ostream &>(st).tellp();
                    c.require(t == (long)wp, "tell", vh::cat("the write position is ", t, ", not ", wp, ": ", log));
                }
        }
        c.require(std::equal(buf.begin(), buf.end(), model.begin(), model.end()), "bytes", vh::cat("the buffer holds other bytes: ", log));
    }
    c.nt(n > 5 && seeks);
}
static void streams(Case &c)
{
    Src &s = c.s;
    auto r = s.bytes(s.count(0, 60));
    std::string model(r.begin(), r.end());
    std::vector<char> buf(model.begin(), model.end()); // its ends are guarded by AddressSanitizer
    c.describe(vh::cat(model.size(), " bytes"));
    switch (s.draw(4)) {
        case 0: {
            memstream st(buf.data(), buf.size());
            history(c, st, buf, model, true, true);
            break;
        }
        case 1: {
            imemstream st(buf.data(), buf.size());
            history(c, st, buf, model, true, false);
            break;
        }
        case 2: {
            omemstream st(buf.data(), buf.size());
            history(c, st, buf, model, false, true);
            break;
        }
        default: {
            // sizes
            omemsizestream st;
            std::ostringstream os;
            st << endianness<std::endian::little>;
            os << endianness<std::endian::little>;
            int n = s.count(0, 20);
            for (int k = 0; k < n; ++k) {
                uint64_t v = s.draw(0);
                switch (s.draw(7)) {
                    case 0: st <= (uint8_t)v; os <= (uint8_t)v; break;
                    case 1: st <= (uint32_t)v; os <= (uint32_t)v; break;
                    case 2: st <= padding_n(v % 40); os <= padding_n(v % 40); break;
                    case 3: st.put('x'); os.put('x'); break;
                    case 4: {
                        std::string t(v % 300, 'a');
                        st.write(t.data(), t.size());
                        os.write(t.data(), t.size());
                        break;
                    }
                    case 5: st << "text " << (v % 1000); os << "text " << (v % 1000); break;
                    default: {
                        rec_t q{};
                        st <= q;
                        os <= q;
                    }
                }
                c.require(!!st, "size", "the size stream fails");
                c.require((size_t)st.tellp() == os.str().size(), "size", vh::cat("the size stream counts ", (long)st.tellp(), " of ", os.str().size(), " bytes"));
            }
            c.nt(n > 5);
        }
    }
    // deserialize
    rec_t q{(uint8_t)s.draw(256), (int16_t)s.draw(65536), {(float)s.f(-9, 9), 2, 3}, en32::a};
    std::ostringstream os;
    os << endianness<std::endian::little>;
    os <= q;
    std::string t = os.str();
    c.require(t == le_bytes(q.a, false) + le_bytes(q.b, false) + le_bytes(q.c[0], false) + le_bytes(q.c[1], false) + le_bytes(q.c[2], false) + le_bytes((int32_t)q.d, false), "bytes", "a record is written otherwise");
    auto b = deserialize<rec_t>(std::vector<uint8_t>(t.begin(), t.end()));
    c.require(b.a == q.a && b.b == q.b && b.c == q.c && b.d == q.d, "read", "deserialize");
    auto sv = StringToVector(t);
    c.require(std::string(sv.begin(), sv.end()) == t, "bytes", "StringToVector");
}

static std::string word(Src &s, const char *alpha, int maxn)
{
    std::string r;
    int n = s.count(0, maxn), k = (int)strlen(alpha);
    for (int i = 0; i < n; ++i)
        r += alpha[s.draw(k)];
    return r;
}
static char low(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static std::string lowered(std::string s)
{
    for (auto &c : s)
        c = low(c);
    return s;
}
// names as a list of runs: digits as (value without leading zeros), others lower case
struct Tok
{
    bool num;
    std::string t;
    size_t zeros;
};
static std::vector<Tok> toks(const std::string &x)
{
    std::vector<Tok> r;
    for (size_t i = 0; i < x.size();) {
        size_t j = i;
        bool d = isdigit((unsigned char)x[i]);
        while (j < x.size() && !!isdigit((unsigned char)x[j]) == d)
            ++j;
        std::string t = x.substr(i, j - i);
        size_t z = 0;
        if (d)
            while (z + 1 < t.size() && t[z] == '0')
                ++z;
        r.push_back({d, d ? t.substr(z) : lowered(t), z});
        i = j;
    }
    return r;
}
// <0, 0, >0 by natural order, ignoring leading zeros
static int natural(const std::string &a, const std::string &b)
{
    auto x = toks(a), y = toks(b);
    for (size_t i = 0; i < x.size() && i < y.size(); ++i) {
        if (x[i].num != y[i].num)
            return x[i].num ? -1 : 1;
        if (x[i].num) {
            if (x[i].t.size() != y[i].t.size())
                return x[i].t.size() < y[i].t.size() ? -1 : 1;
            if (x[i].t != y[i].t)
                return x[i].t < y[i].t ? -1 : 1;
        } else {
            auto &p = x[i].t, &q = y[i].t;
            size_t k = 0;
            while (k < p.size() && k < q.size() && p[k] == q[k])
                ++k;
            if (k < p.size() && k < q.size())
                return p[k] < q[k] ? -1 : 1;
            if (p.size() != q.size()) {
                // one goes on with text where the other has a number or ends
                bool pl = p.size() > q.size();
                bool other_num = pl ? i + 1 < y.size() : i + 1 < x.size();
                (void)other_num;
                return pl ? 1 : -1; // numbers come before text, and the end before both
            }
        }
    }
    return x.size() == y.size() ? 0 : x.size() < y.size() ? -1 : 1;
}
static void names(Case &c)
{
    Src &s = c.s;
    const char *alpha = s.pick<const char *>({"aAbB_", "abcXYZ019", "0123", "a0b1 ", "ab.zZ@[`{"});
    std::string w[3];
    for (auto &x : w)
        x = word(s, alpha, 9);
    if (s.b()) { // related
        w[1] = w[0];
        if (!w[1].empty()) {
            size_t k = s.draw(w[1].size());
            w[1][k] = s.b() ? (char)toupper(w[1][k]) : alpha[s.draw(strlen(alpha))];
        }
        if (s.chance(1, 3))
            w[2] = w[1] + word(s, alpha, 2);
    }
    c.describe(vh::cat(Q(w[0]), " ", Q(w[1]), " ", Q(w[2])));
    case_insensitive_less cl;
    case_insensitive_equal ce;
    case_insensitive_hash ch;
    natural_case_insensitive_less nl;
    natural_case_insensitive_equal ne;
    natural_less nsl;
    natural_equal nse;
    bool rel = false;
    for (auto &a : w)
        for (auto &b : w) {
            std::string la = lowered(a), lb = lowered(b);
            bool eq = la == lb;
            c.require(string_iequals(a, b) == eq && ce(a, b) == eq && (Q_strcasecmp(a, b) == 0) == eq && ne(a, b) == eq, "equal", vh::cat(Q(a), " and ", Q(b), " compare ", eq ? "different" : "equal"));
            c.require(nse(a, b) == (a == b), "equal", "natural_equal");
            c.require(cl(a, b) == (la < lb) && (Q_strcasecmp(a, b) < 0) == (la < lb), "order", vh::cat(Q(a), " and ", Q(b), " are in the wrong order"));
            if (eq)
                c.require(ch(a) == ch(b), "hash", vh::cat(Q(a), " and ", Q(b), " hash differently"));
            for (size_t n = 0; n < 6; ++n)
                c.require((Q_strncasecmp(a, b, n) == 0) == (la.substr(0, n) == lb.substr(0, n)), "equal", vh::cat("Q_strncasecmp ", n));
            auto at = string_ifind(a, b);
            size_t want = la.find(lb);
            c.require((size_t)(at - std::string_view(a).begin()) == (want == std::string::npos ? a.size() : want), "find", vh::cat("string_ifind of ", Q(b), " in ", Q(a)));
            // an empty needle is found at the end of an empty text, which reads as "not found"
            if (!(a.empty() && b.empty()))
                c.require(string_icontains(a, b) == (want != std::string::npos), "find", vh::cat("string_icontains of ", Q(b), " in ", Q(a)));
            int nat = natural(a, b);
            for (auto &x : {a, b})
                for (auto &t : toks(x))
                    if (t.zeros)
                        nat = 0; // how superfluous zeros are ordered is unspecified
            rel = rel || (nat != 0 && (la < lb) != (nat < 0));
            if (nat)
                c.require(nl(a, b) == (nat < 0), "natural", vh::cat(Q(a), nat < 0 ? " does not come before " : " comes before ", Q(b)));
            if (a == b)
                c.require(!nl(a, b) && !nsl(a, b), "natural", vh::cat(Q(a), " comes before itself"));
            c.require(!(nl(a, b) && nl(b, a)) && !(nsl(a, b) && nsl(b, a)), "natural", vh::cat(Q(a), " and ", Q(b), " come before each other"));
            if (!eq)
                c.require(nl(a, b) || nl(b, a), "natural", vh::cat(Q(a), " and ", Q(b), " count as the same"));
            else
                c.require(!nl(a, b), "natural", vh::cat(Q(a), " comes before ", Q(b)));
        }
    c.nt(rel || (w[0] != w[1] && lowered(w[0]) == lowered(w[1])));
    for (auto &x : w)
        for (auto &y : w)
            for (auto &z : w) {
                if (nl(x, y) && nl(y, z))
                    c.require(nl(x, z), "natural", vh::cat(Q(x), " < ", Q(y), " < ", Q(z), ", but not ", Q(x), " < ", Q(z)));
                if (nsl(x, y) && nsl(y, z))
                    c.require(nsl(x, z), "natural", vh::cat("case sensitive: ", Q(x), " < ", Q(y), " < ", Q(z), ", but not ", Q(x), " < ", Q(z)));
                auto e = [&](const std::string &p, const std::string &q) { return !nl(p, q) && !nl(q, p); };
                if (e(x, y) && e(y, z))
                    c.require(e(x, z), "natural", vh::cat(Q(x), " = ", Q(y), " = ", Q(z), ", but not ", Q(x), " = ", Q(z)));
            }
}

template<class D, class S>
static void cast1(Case &c, S v)
{
    bool over = (__int128)v < (__int128)std::numeric_limits<D>::lowest() || (__int128)v > (__int128)std::numeric_limits<D>::max();
    c.require(numeric_cast_will_overflow<D, S>(v) == over, "cast", vh::cat((long double)v, over ? " fits in " : " does not fit in ", sizeof(D), " bytes, signed ", std::is_signed_v<D>));
    bool thrown = false;
    D r{};
    try {
        r = numeric_cast<D>(v, "message");
    } catch (std::overflow_error &e) {
        thrown = std::string(e.what()) == "message";
    }
    c.require(thrown == over && (over || (__int128)r == (__int128)v), "cast", vh::cat("casting ", (long double)v));
}
template<class S>
static void casts(Case &c, S v)
{
    cast1<int8_t>(c, v);
    cast1<uint8_t>(c, v);
    cast1<int16_t>(c, v);
    cast1<uint16_t>(c, v);
    cast1<int32_t>(c, v);
    cast1<uint32_t>(c, v);
    cast1<int64_t>(c, v);
    cast1<uint64_t>(c, v);
}
enum class fl : uint32_t {};
template<class T>
static void bounds(Case &c, const qvec3d &p)
{
    auto want = [&](bool up) {
        std::array<__int128, 3> r;
        bool over = false;
        for (int i = 0; i < 3; ++i) {
            r[i] = (__int128)(up ? std::ceil(p[i]) : std::floor(p[i]));
            over = over || r[i] < std::numeric_limits<T>::lowest() || r[i] > std::numeric_limits<T>::max();
        }
        return std::make_pair(over, r);
    };
    for (bool up : {false, true}) {
        auto [over, w] = want(up);
        bool thrown = false;
        qvec<T, 3> g{};
        try {
            g = up ? aabb_maxs_cast<T>(p) : aabb_mins_cast<T>(p);
        } catch (std::overflow_error &) {
            thrown = true;
        }
        c.require(thrown == over, "bounds", vh::cat("rounding ", p[0], " ", p[1], " ", p[2], over ? " is not refused" : " is refused"));
        for (int i = 0; i < 3 && !over; ++i)
            c.require(g[i] == w[i], "bounds", vh::cat(p[i], " rounds ", up ? "up" : "down", " to ", (long)g[i]));
    }
}
static void numbers(Case &c)
{
    Src &s = c.s;
    int64_t v = (int64_t)s.draw(0) >> s.draw(64);
    if (s.b()) {
        int k = (int)s.pick<int>({7, 8, 15, 16, 31, 32, 63});
        v = (int64_t)(((uint64_t)1 << k) + (uint64_t)s.ito(-2, 2, 0));
        if (s.b())
            v = (int64_t)(0 - (uint64_t)v);
    }
    c.describe(vh::cat("number ", v));
    casts(c, (int8_t)v);
    casts(c, (uint8_t)v);
    casts(c, (int16_t)v);
    casts(c, (uint16_t)v);
    casts(c, (int32_t)v);
    casts(c, (uint32_t)v);
    casts(c, (int64_t)v);
    casts(c, (uint64_t)v);
    // vectors
    qvec3d p{s.f(-40000, 40000), s.f(-200, 70000), s.b() ? s.f(-5e9, 5e9) : (double)s.ito(-33000, 33000, 0)};
    if (s.b())
        p = {s.f(-300, 300), s.f(-3, 3), (double)s.ito(-3, 3, 0)};
    bounds<int16_t>(c, p);
    bounds<int32_t>(c, p);
    bounds<uint8_t>(c, p);
    auto fp = aabb_mins_cast<float>(p), fq = aabb_maxs_cast<float>(p);
    for (int i = 0; i < 3; ++i)
        c.require(fp[i] == (float)p[i] && fq[i] == (float)p[i], "bounds", "float bounds");
    std::array<int32_t, 5> src;
    for (auto &x : src)
        x = (int32_t)(s.chance(1, 9) ? v : s.ito(-128, 127, 0));
    bool over = false, over3 = false;
    for (int i = 0; i < 5; ++i)
        if (src[i] < -128 || src[i] > 127)
            over = true, over3 = over3 || i < 3;
    auto tried = [&](auto f) {
        try {
            f();
        } catch (std::overflow_error &) {
            return true;
        }
        return false;
    };
    std::array<int8_t, 7> d7{};
    std::array<int8_t, 3> d3{};
    c.require(tried([&] { d7 = array_cast<std::array<int8_t, 7>>(src); }) == over, "array", "array_cast refusal");
    c.require(tried([&] { d3 = array_cast<std::array<int8_t, 3>>(src); }) == over3, "array", "array_cast refusal");
    for (int i = 0; i < 7 && !over; ++i)
        c.require(d7[i] == (i < 5 ? src[i] : 0), "array", "array_cast");
    for (int i = 0; i < 3 && !over3; ++i)
        c.require(d3[i] == src[i], "array", "array_cast");
    // rounding helpers
    uint32_t al = (uint32_t)s.draw(100000);
    c.require(align_value<4>(al) == (al + 3) / 4 * 4 && align_value<7>(al) == (al + 6) / 7 * 7, "align", vh::cat("align_value ", al));
    double q = s.b() ? s.f(-1000, 1000) : s.ito(-50, 50, 0) / 2.0;
    c.require(Q_rint(q) == std::floor(q + 0.5), "rint", vh::cat("Q_rint ", q));
    // sets of flags
    uint32_t fa = (uint32_t)s.draw(1ull << 32), fb = (uint32_t)s.draw(1ull << 32);
    bitflags<fl> A((fl)fa), B((fl)fb);
    auto u = [](bitflags<fl> x) { return (uint32_t)(fl)x; };
    c.require(u(A | B) == (fa | fb) && u(A & B) == (fa & fb) && u(A ^ B) == (fa ^ fb) && u(~A) == ~fa, "flags", "set operations");
    auto C = A;
    C |= B;
    c.require(u(C) == (fa | fb), "flags", "|=");
    C = A;
    C &= B;
    c.require(u(C) == (fa & fb), "flags", "&=");
    C = A;
    C ^= B;
    c.require(u(C) == (fa ^ fb) && u(A) == fa, "flags", "^=");
    c.require((bool)A == !!fa && !A == !fa && (A == B) == (fa == fb) && (A != B) == (fa != fb) && (A == (fl)fb) == (fa == fb), "flags", "tests");
    c.require(!bitflags<fl>() && nth_bit<uint32_t>(7) == 128, "flags", "empty");
    // checksums
    int n = s.count(0, 60);
    auto data = s.bytes(n);
    uint16_t crc = 0xffff, step;
    CRC_Init(step);
    for (auto b : data) {
        crc ^= (uint16_t)(b << 8);
        for (int i = 0; i < 8; ++i)
            crc = (crc & 0x8000) ? (uint16_t)((crc << 1) ^ 0x1021) : (uint16_t)(crc << 1);
        CRC_ProcessByte(step, b);
        c.require(step == crc, "crc", vh::cat("the checksum is ", step, ", not ", crc));
    }
    c.require(CRC_Block(data.data(), n) == crc, "crc", "the checksum of a block");
    c.nt(n > 1);
}

VH_MAIN("C35", "streams: more than 5 operations and a move; names: natural and plain order differ, or names differ only in case; numbers: a checksum of two bytes or more",
    (std::vector<std::string>{"names without NUL characters and outside of non-ASCII letters", "conversions of whole numbers and doubles"}),
    vh::Sub{"streams", streams, 60000, 3000000}, vh::Sub{"names", names, 60000, 3000000}, vh::Sub{"numbers", numbers, 60000, 3000000})
