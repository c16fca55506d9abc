// C11: settings
#include <fcntl.h>
#include <unistd.h>
#include "vh.hh"
#include <common/settings.hh>
#include <common/log.hh>
#include <memory>
using vh::Case;
using namespace settings;
using Source = settings::source;
enum class color_t
{
    red = 0,
    green = 1,
    blue = 5
};
enum Kind { BOOL, IBOOL, INT, FLOAT, OINT, OFLOAT, STR, PATH, SET, VEC, COLOR, MANGLE, ENUM, FUNC, VALID, NKINDS };
static const char *KN[] = {"bool", "invertible", "int", "float", "int?", "float?", "string", "path", "set", "vec3", "color", "mangle", "enum", "func", "validated"};

struct M
{
    Kind kind;
    std::vector<std::string> names;
    int src = 0;
    int64_t i = 0, idef = 0; // bool / int / enum
    double f = 0, fdef = 0, lo = 0, hi = 0, om = 0;
    std::string s, sdef;
    std::set<std::string> set;
    double v[3]{}, vdef[3]{};
    int calls = 0;
    setting_base *p = nullptr;
    int *counter = nullptr;
};
struct Box : setting_container
{
};
struct World
{
    Box box;
    std::vector<std::shared_ptr<void>> own;
    std::vector<M> m;
    std::vector<int> redirect; // settings behind the redirect
    std::string redirect_name;
    setting_base *redirect_p = nullptr;
    int counter = 0;
};
static double rnd3(Case &c)
{
    return c.s.pick<double>({0, 0.5, 1, 2, 255, -1, 90, 45, 180, 0.25, 300, -45});
}
static void mangle(const double in[3], double out[3])
{
    double y = in[0] * M_PI / 180, p = in[1] * M_PI / 180;
    out[0] = std::cos(y) * std::cos(p);
    out[1] = std::sin(y) * std::cos(p);
    out[2] = std::sin(p);
}
static void xform(Kind k, const double in[3], double out[3])
{
    if (k == MANGLE)
        return mangle(in, out);
    bool unit = k == COLOR;
    for (int j = 0; j < 3; ++j)
        unit = unit && in[j] >= 0 && in[j] <= 1;
    for (int j = 0; j < 3; ++j)
        out[j] = unit ? in[j] * 255 : in[j];
}
// the same plan builds any number of equal worlds
struct Plan
{
    std::vector<M> m;
    std::vector<int> redirect;
};
static Plan plan(Case &c)
{
    Plan p;
    int n = c.s.count(1, 10);
    for (int i = 0; i < n; ++i) {
        M m;
        m.kind = (Kind)c.s.draw(NKINDS);
        int nn = (int)c.s.i(1, 3);
        for (int k = 0; k < nn; ++k)
            m.names.push_back(vh::cat(c.s.pick<std::string>({"opt", "x", "light", "n"}), i, "_", k));
        m.idef = m.i = m.kind == ENUM ? c.s.pick<int>({0, 1, 5}) : m.kind <= IBOOL ? c.s.i(0, 1) : 0;
        if (m.kind == INT || m.kind == OINT || m.kind == VALID) {
            m.lo = c.s.pick<double>({-2147483648.0, 0, -10, 1, -1});
            m.hi = c.s.pick<double>({2147483647.0, 100, 5, 2});
            m.i = m.idef = c.s.i((int64_t)std::max(m.lo, -20.0), (int64_t)std::min(m.hi, 20.0));
            m.om = c.s.i((int64_t)std::max(m.lo, -20.0), (int64_t)std::min(m.hi, 20.0));
        }
        if (m.kind == FLOAT || m.kind == OFLOAT) {
            m.lo = c.s.pick<double>({-1e30, 0, -1, 0.5});
            m.hi = c.s.pick<double>({1e30, 1, 10, 512});
            if (m.lo >= m.hi)
                m.lo = 0;
            m.f = m.fdef = (float)c.s.f(std::max(m.lo, -20.0), std::min(m.hi, 20.0));
            m.om = (float)c.s.f(std::max(m.lo, -20.0), std::min(m.hi, 20.0));
        }
        if (m.kind == STR || m.kind == PATH)
            m.s = m.sdef = c.s.pick<std::string>({"", "abc", "a/b"});
        if (m.kind == VEC || m.kind == COLOR || m.kind == MANGLE) {
            double in[3] = {rnd3(c), rnd3(c), rnd3(c)};
            for (int k = 0; k < 3; ++k)
                m.s += vh::cat(in[k], " "); // remembered for the constructor
            xform(m.kind == MANGLE ? VEC : m.kind, in, m.vdef);
            if (m.kind != VEC)
                for (int k = 0; k < 3; ++k)
                    m.vdef[k] = in[k]; // constructors do not transform through the derived class
            for (int k = 0; k < 3; ++k)
                m.v[k] = m.vdef[k];
            m.s.clear();
        }
        p.m.push_back(m);
    }
    // a redirect over settings that read the same value
    std::vector<int> bools;
    for (int i = 0; i < n; ++i)
        if (p.m[i].kind == BOOL)
            bools.push_back(i);
    if (bools.size() > 1)
        p.redirect = {bools[0], bools[1]};
    return p;
}
static std::unique_ptr<World> build(const Plan &pl)
{
    auto w = std::make_unique<World>();
    w->m = pl.m;
    static setting_group g1{"G", 3, expected_source::commandline};
    for (auto &m : w->m) {
        nameset ns(std::initializer_list<std::string>{m.names[0]});
        for (size_t k = 1; k < m.names.size(); ++k)
            ns.push_back(m.names[k]);
        auto add = [&](auto *x) {
            using T = std::decay_t<decltype(*x)>;
            w->own.push_back(std::shared_ptr<void>(x, [](void *q) { delete (T *)q; }));
            m.p = x;
        };
        auto *b = &w->box;
        switch (m.kind) {
            case BOOL: add(new setting_bool(b, ns, m.i != 0, &g1)); break;
            case IBOOL: add(new setting_invertible_bool(b, ns, m.i != 0, &g1)); break;
            case INT: add(new setting_int32(b, ns, (int)m.i, (int)m.lo, (int)m.hi)); break;
            case OINT: add(new setting_int32(b, ns, (int)m.i, (int)m.lo, (int)m.hi, can_omit_argument_tag(), (int)m.om)); break;
            case FLOAT: add(new setting_scalar(b, ns, (float)m.f, (float)m.lo, (float)m.hi)); break;
            case OFLOAT: add(new setting_scalar(b, ns, (float)m.f, (float)m.lo, (float)m.hi, can_omit_argument_tag(), (float)m.om)); break;
            case STR: add(new setting_string(b, ns, m.s)); break;
            case PATH: add(new setting_path(b, ns, m.s)); break;
            case SET: add(new setting_set(b, ns)); break;
            case VEC: add(new setting_vec3(b, ns, (float)m.v[0], (float)m.v[1], (float)m.v[2])); break;
            case COLOR: add(new setting_color(b, ns, (float)m.v[0], (float)m.v[1], (float)m.v[2])); break;
            case MANGLE: add(new setting_mangle(b, ns, (float)m.v[0], (float)m.v[1], (float)m.v[2])); break;
            case ENUM: add(new setting_enum<color_t>(b, ns, (color_t)m.i, {{"red", color_t::red}, {"Green", color_t::green}, {"blue10", color_t::blue}})); break;
            case FUNC: {
                int *cnt = &w->counter;
                add(new setting_func(b, ns, [cnt](Source s) { *cnt += 1 + 100 * (int)s; }));
                break;
            }
            case VALID: add(new setting_validator<setting_int32>([](setting_int32 &x) { return x.value() % 3 != 0; }, b, ns, (int)m.i, (int)m.lo, (int)m.hi)); break;
            default: break;
        }
    }
    if (pl.redirect.size() > 1) {
        auto *r = new setting_redirect(&w->box, "both", {w->m[pl.redirect[0]].p, w->m[pl.redirect[1]].p});
        w->own.push_back(std::shared_ptr<void>(r, [](void *q) { delete (setting_redirect *)q; }));
        w->redirect_p = r;
        w->redirect = pl.redirect;
    }
    return w;
}
static bool apply(M &m, int src)
{
    if (src < m.src)
        return false;
    m.src = src;
    return true;
}
static void check(Case &c, World &w, const std::vector<M> &model, int counter, const std::string &after)
{
    for (size_t i = 0; i < model.size(); ++i) {
        auto &m = model[i];
        auto *p = w.m[i].p;
        auto id = vh::cat("after ", after, ": ", KN[m.kind], " '", m.names[0], "' ");
        if (m.kind != FUNC) {
            c.require((int)p->get_source() == m.src, "source", vh::cat(id, "comes from ", (int)p->get_source(), ", want ", m.src));
            c.require(p->is_changed() == (m.src != 0), "changed", id + "is_changed");
        }
        auto num = [&](double g, double want) { c.require(g == want || std::fabs(g - want) <= 1e-6 * std::fabs(want), "value", vh::cat(id, "is ", g, ", want ", want)); };
        switch (m.kind) {
            case BOOL:
            case IBOOL: num(((setting_bool *)p)->value(), m.i); break;
            case INT:
            case OINT:
            case VALID: num(((setting_int32 *)p)->value(), m.i); break;
            case FLOAT:
            case OFLOAT: num(((setting_scalar *)p)->value(), (float)m.f); break;
            case STR: c.require(((setting_string *)p)->value() == m.s, "value", id + "is '" + ((setting_string *)p)->value() + "', want '" + m.s + "'"); break;
            case PATH: c.require(((setting_path *)p)->value() == fs::path(m.s), "value", id + "is '" + ((setting_path *)p)->value().string() + "', want '" + m.s + "'"); break;
            case ENUM: num((int)((setting_enum<color_t> *)p)->value(), m.i); break;
            case SET: {
                auto &v = ((setting_set *)p)->values();
                c.require(std::set<std::string>(v.begin(), v.end()) == m.set, "value", vh::cat(id, "holds ", v.size(), " values, want ", m.set.size()));
                break;
            }
            case VEC:
            case COLOR:
            case MANGLE:
                for (int k = 0; k < 3; ++k) {
                    double g = ((setting_vec3 *)p)->value()[k];
                    c.require(std::fabs(g - m.v[k]) <= 1e-5 * (1 + std::fabs(m.v[k])), "value", vh::cat(id, "component ", k, " is ", g, ", want ", m.v[k]));
                }
                break;
            default: break;
        }
    }
    c.require(w.counter == counter, "func", vh::cat("after ", after, ": callback state ", w.counter, ", want ", counter));
}
// tokens for a value, its effect on a copy of the model, and whether it is refused
struct Val
{
    std::vector<std::string> tok;
    bool bad = false;
};
static std::string spell(Case &c, double v, bool integral)
{
    char b[64];
    if (integral)
        snprintf(b, sizeof b, "%.0f", v);
    else
        snprintf(b, sizeof b, c.s.b() ? "%.9g" : "%f", v);
    return b;
}
// `more`: whether another token follows that could be taken for a value
static Val value(Case &c, M &m, int src, bool invert, bool last, int &counter, bool map)
{
    Val v;
    switch (m.kind) {
        case BOOL:
        case IBOOL: {
            int k = (int)c.s.draw(4);
            bool t;
            if (k == 3) {
                t = true;
            } else {
                v.tok.push_back(k == 0 ? "0" : k == 1 ? "1" : "-1");
                t = k == 1;
            }
            if (invert)
                t = !t;
            if (apply(m, src))
                m.i = t;
            break;
        }
        case INT:
        case OINT:
        case VALID: {
            int k = (int)c.s.draw(8);
            double x;
            if (k == 7) { // no number
                bool garbage = c.s.b() || !last;
                if (garbage)
                    v.tok.push_back(m.kind == OINT ? "-verbose_x" : "word");
                if (m.kind != OINT) {
                    v.bad = true;
                    break;
                }
                v.tok.clear(); // an omitted argument
                x = m.om;
            } else {
                x = k < 4 ? (double)c.s.i(-30, 200) : (double)c.s.pick<int64_t>({2147483647ll, 2147483648ll, 4294967296ll, 4294967301ll, -2147483648ll, -2147483649ll, -5000000000ll, 99999999999ll});
                v.tok.push_back(spell(c, x, true));
            }
            x = std::clamp(x, m.lo, m.hi);
            if (apply(m, src))
                m.i = (int64_t)x;
            if (m.kind == VALID)
                v.bad = m.i % 3 == 0;
            break;
        }
        case FLOAT:
        case OFLOAT: {
            int k = (int)c.s.draw(8);
            double x;
            if (k == 7) {
                if (m.kind != OFLOAT) {
                    v.bad = true;
                    if (c.s.b() || !last)
                        v.tok.push_back("word");
                    break;
                }
                x = m.om;
            } else {
                auto t = spell(c, k < 4 ? c.s.f(-20, 20) : c.s.f(-2000, 2000), c.s.chance(1, 4));
                v.tok.push_back(t);
                x = (float)strtod(t.c_str(), nullptr);
            }
            x = std::clamp(x, (double)(float)m.lo, (double)(float)m.hi);
            if (apply(m, src))
                m.f = x;
            break;
        }
        case STR:
        case PATH: {
            if (last && c.s.chance(1, 12)) {
                v.bad = true;
                break;
            }
            std::string t = c.s.pick<std::string>({"word", "a/b.map", "1", "-x", "two words", "id1"});
            v.tok.push_back(t);
            if (apply(m, src))
                m.s = t;
            break;
        }
        case SET: {
            if (last && c.s.chance(1, 12)) {
                v.bad = true;
                break;
            }
            std::string t = c.s.pick<std::string>({"a", "b", "c", "path/x"});
            v.tok.push_back(t);
            if (apply(m, src))
                m.set.insert(t);
            break;
        }
        case VEC:
        case COLOR: {
            double in[3];
            for (int k = 0; k < 3; ++k) {
                in[k] = rnd3(c);
                v.tok.push_back(vh::cat(in[k]));
            }
            if (c.s.chance(1, 8)) {
                if (c.s.b() || !last)
                    v.tok[c.s.draw(3)] = "word";
                else
                    v.tok.resize(c.s.draw(3));
                v.bad = true;
                break;
            }
            double o[3];
            xform(m.kind, in, o);
            if (apply(m, src))
                std::copy(o, o + 3, m.v);
            break;
        }
        case MANGLE: {
            double in[3]{};
            int n = (int)c.s.i(1, 3);
            for (int k = 0; k < n; ++k) {
                in[k] = rnd3(c);
                v.tok.push_back(vh::cat(in[k]));
            }
            double o[3];
            mangle(in, o);
            if (apply(m, src))
                std::copy(o, o + 3, m.v);
            break;
        }
        case ENUM: {
            int k = (int)c.s.draw(9);
            if (k == 8) {
                v.bad = true;
                if (c.s.b() || !last)
                    v.tok.push_back("purple");
                break;
            }
            static const char *t[] = {"red", "green", "GREEN", "Blue10", "0", "1", "5", "bLUE10"};
            static const int r[] = {0, 1, 1, 5, 0, 1, 5, 5};
            v.tok.push_back(t[k]);
            if (apply(m, src))
                m.i = r[k];
            break;
        }
        case FUNC: counter += 1 + 100 * src; break;
        default: break;
    }
    return v;
}
static std::string optname(Case &c, const M &m, bool &invert)
{
    std::string n = m.names[c.s.draw(m.names.size())];
    invert = m.kind == IBOOL && c.s.b();
    return (invert ? "no" : "") + n;
}
static bool greedy(Kind k) { return k == BOOL || k == IBOOL || k == OINT || k == OFLOAT || k == MANGLE; }

static void history(Case &c)
{
    Plan pl = plan(c);
    auto w = build(pl);
    auto model = pl.m;
    int counter = 0;
    auto other = build(pl);
    auto omodel = pl.m;
    int ocounter = 0;
    int ops = c.s.count(1, 12), sets = 0;
    check(c, *w, model, counter, "construction");
    for (int o = 0; o < ops; ++o) {
        bool second = c.s.chance(1, 4);
        World &W = second ? *other : *w;
        auto &Mo = second ? omodel : model;
        int &Co = second ? ocounter : counter;
        std::string what;
        switch (c.s.draw(6)) {
            case 0:
            case 1: { // a command line
                std::vector<std::string> a, rest;
                int n = c.s.count(0, 6);
                bool bad = false;
                what = "command line";
                for (int k = 0; k < n && !bad; ++k) {
                    if (W.redirect_p && c.s.chance(1, 6)) {
                        a.push_back("-both");
                        int t = (int)c.s.draw(3);
                        if (t)
                            a.push_back(t == 1 ? "1" : "0");
                        for (int i : W.redirect)
                            if (apply(Mo[i], 3))
                                Mo[i].i = t != 2;
                        ++sets;
                        continue;
                    }
                    auto &m = Mo[c.s.draw(Mo.size())];
                    bool inv;
                    auto name = optname(c, m, inv);
                    bool last = k == n - 1;
                    // the model of a refused option is not checked afterwards
                    auto v = value(c, m, 3, inv, last, Co, false);
                    a.push_back(c.s.pick<std::string>({"-", "--", "---"}) + c.s.pick<std::string>({"", "", "_", "__"}) + name);
                    a.insert(a.end(), v.tok.begin(), v.tok.end());
                    if (v.bad)
                        bad = true;
                    ++sets;
                }
                bool unknown = !bad && c.s.chance(1, 12);
                if (unknown)
                    a.push_back(c.s.pick<std::string>({"-nosuchoption", "-", "--", "-_"}));
                if (!bad && !unknown) {
                    int r = (int)c.s.i(0, 3);
                    for (int k = 0; k < r; ++k)
                        rest.push_back(k ? c.s.pick<std::string>({"b.map", "-late", "x y", "1"}) : "file.bsp");
                    a.insert(a.end(), rest.begin(), rest.end());
                }
                for (auto &t : a)
                    what += " " + t;
                c.describe(what);
                std::vector<const char *> av;
                for (auto &t : a)
                    av.push_back(t.c_str());
                token_parser_t p((int)av.size(), av.data(), {"command line"});
                bool threw = false;
                std::vector<std::string> got;
                try {
                    got = W.box.parse(p);
                } catch (const parse_exception &e) {
                    threw = true;
                    c.require(strlen(e.what()) > 0, "message", "empty error message");
                }
                c.require(threw == (bad || unknown), threw ? "refused" : "accepted", (threw ? "refused: " : "accepted: ") + what);
                if (threw)
                    return;
                c.require(got == rest, "remainder", vh::cat(got.size(), " words left, want ", rest.size(), ": ", what));
                break;
            }
            case 2: { // a key from the map or the game
                auto &m = Mo[c.s.draw(Mo.size())];
                bool inv;
                auto name = c.s.pick<std::string>({"", "_", "__"}) + optname(c, m, inv);
                auto saved = m;
                int src = (int)c.s.i(1, 3), cs = Co;
                auto v = value(c, m, src, inv, true, Co, true);
                if (v.bad && m.kind != VALID)
                    m = saved, Co = cs;
                std::string t;
                for (auto &x : v.tok)
                    t += (t.empty() ? "" : " ") + (x.find(' ') != std::string::npos ? "\"" + x + "\"" : x);
                what = vh::cat("key ", name, "=", t, " from ", src);
                c.describe(what);
                auto r = W.box.set_setting(name, t, (Source)src);
                c.require(r == (v.bad ? setting_error::INVALID : setting_error::NONE), "set-result", vh::cat(what, " gave ", (int)r));
                ++sets;
                break;
            }
            case 3: {
                std::vector<std::pair<std::string, std::string>> kv;
                int s = (int)c.s.i(1, 2);
                int n = c.s.count(1, 5);
                entdict_t d;
                std::set<std::string> used;
                for (int k = 0; k < n; ++k) {
                    if (c.s.chance(1, 6)) {
                        d.set("unknown_key", "5");
                        continue;
                    }
                    auto &m = Mo[c.s.draw(Mo.size())];
                    bool inv;
                    auto name = c.s.pick<std::string>({"", "_", "__"}) + optname(c, m, inv);
                    if (!used.insert(name).second)
                        continue;
                    auto saved = m;
                    int cs = Co;
                    auto v = value(c, m, s, inv, true, Co, true);
                    if (v.bad && m.kind != VALID)
                        m = saved, Co = cs;
                    std::string t;
                    for (auto &x : v.tok)
                        t += (t.empty() ? "" : " ") + (x.find(' ') != std::string::npos ? "\"" + x + "\"" : x);
                    d.set(name, t);
                    what += " " + name + "=" + t;
                    ++sets;
                }
                what = vh::cat(s == 1 ? "game" : "map", " keys", what);
                c.describe(what);
                W.box.set_settings(d, (Source)s);
                break;
            }
            case 4: {
                if (c.s.b()) {
                    what = "reset";
                    W.box.reset();
                    for (size_t i = 0; i < Mo.size(); ++i) {
                        auto &m = Mo[i];
                        m.src = 0;
                        m.i = m.idef;
                        m.f = m.fdef;
                        m.s = m.sdef;
                        m.set.clear();
                        std::copy(m.vdef, m.vdef + 3, m.v);
                    }
                } else {
                    what = "copy";
                    auto &F = second ? model : omodel;
                    W.box.copy_from(second ? w->box : other->box);
                    Mo = F;
                }
                c.describe(what);
                break;
            }
            default: { // names
                what = "lookup";
                for (size_t i = 0; i < Mo.size(); ++i)
                    for (auto &n : Mo[i].names) {
                        c.require(W.box.find_setting(n) == W.m[i].p && W.box.find_setting("_" + n) == W.m[i].p, "find", "setting " + n + " not found");
                        c.require((W.box.find_setting("no" + n) == W.m[i].p) == (Mo[i].kind == IBOOL), "find-no", "inverted name of " + n);
                        c.require(!W.box.find_setting(n + "z"), "find-extra", "found " + n + "z");
                    }
                bool threw = false;
                try {
                    c.require(W.box.set_setting("nosuch", "1", Source::MAP) == setting_error::MISSING, "missing", "an unknown key is not reported missing");
                    W.box.set_setting("nosuch", "1", Source::COMMANDLINE);
                } catch (const parse_exception &) {
                    threw = true;
                }
                c.require(threw, "missing-cmd", "an unknown option was ignored");
            }
        }
        check(c, W, Mo, Co, what);
        check(c, second ? *w : *other, second ? model : omodel, second ? counter : ocounter, what + " (other container)");
    }
    c.nt(sets > 2);
}
// direct values with sources, defaults and text form
static void values(Case &c)
{
    Plan pl = plan(c);
    auto w = build(pl);
    auto model = pl.m;
    int n = c.s.count(1, 12);
    c.nt(n > 2);
    for (int o = 0; o < n; ++o) {
        size_t i = c.s.draw(model.size());
        auto &m = model[i];
        int src = (int)c.s.i(0, 3);
        auto *p = w->m[i].p;
        c.describe(vh::cat(KN[m.kind], " from ", src));
        switch (m.kind) {
            case BOOL:
            case IBOOL: {
                bool v = c.s.b();
                ((setting_bool *)p)->set_value(v, (Source)src);
                if (apply(m, src))
                    m.i = v;
                c.require(((setting_bool *)p)->default_value() == (m.idef != 0), "default", "default changed");
                break;
            }
            case INT:
            case OINT:
            case VALID: {
                int v = (int)c.s.i(-1000, 1000);
                ((setting_int32 *)p)->set_value(v, (Source)src);
                if (apply(m, src))
                    m.i = (int64_t)std::clamp((double)v, m.lo, m.hi);
                c.require(((setting_int32 *)p)->default_value() == m.idef, "default", "default changed");
                c.require(((setting_int32 *)p)->boolValue() == (m.i > 0), "bool", "boolValue");
                c.require(p->string_value() == std::to_string(m.i), "text", "text of an integer is " + p->string_value());
                break;
            }
            case FLOAT:
            case OFLOAT: {
                float v = (float)c.s.f(-1000, 1000);
                ((setting_scalar *)p)->set_value(v, (Source)src);
                if (apply(m, src))
                    m.f = std::clamp(v, (float)m.lo, (float)m.hi);
                c.require(((setting_scalar *)p)->default_value() == (float)m.fdef, "default", "default changed");
                c.require(((setting_scalar *)p)->boolValue() == (m.f > 0), "bool", "boolValue");
                break;
            }
            case STR:
                ((setting_string *)p)->set_value("v" + std::to_string(o), (Source)src);
                if (apply(m, src))
                    m.s = "v" + std::to_string(o);
                break;
            case SET:
                ((setting_set *)p)->add_value("v" + std::to_string(o), (Source)src);
                if (apply(m, src))
                    m.set.insert("v" + std::to_string(o));
                break;
            case ENUM: {
                int v = c.s.pick<int>({0, 1, 5});
                ((setting_enum<color_t> *)p)->set_value((color_t)v, (Source)src);
                if (apply(m, src))
                    m.i = v;
                c.require(p->string_value() == (m.i == 0 ? "red" : m.i == 1 ? "Green" : "blue10"), "text", "text of an enum is " + p->string_value());
                break;
            }
            case VEC:
            case COLOR:
            case MANGLE: {
                double in[3] = {rnd3(c), rnd3(c), rnd3(c)}, out[3];
                xform(m.kind, in, out);
                ((setting_vec3 *)p)->set_value(qvec3f((float)in[0], (float)in[1], (float)in[2]), (Source)src);
                if (apply(m, src))
                    std::copy(out, out + 3, m.v);
                break;
            }
            default: break;
        }
        check(c, *w, model, 0, vh::cat("set_value on ", KN[m.kind], " from source ", src));
    }
}
static void help(Case &c)
{
    setting_container d;
    d.program_name = "tool";
    setting_group g1{"First", 10, expected_source::commandline}, g2{"Second", 20, expected_source::commandline};
    std::vector<std::vector<std::string>> names;
    std::vector<std::string> desc;
    desc.reserve(32);
    std::vector<std::unique_ptr<setting_base>> own;
    std::set<std::string> used;
    int n = (int)c.s.i(1, 12);
    size_t longest = 0;
    for (int i = 0; i < n; ++i) {
        std::vector<std::string> l;
        int k = (int)c.s.i(1, 3);
        for (int j = 0; j < k; ++j) {
            std::string t(1 + c.s.draw(c.s.chance(1, 2) ? 60 : 14), 'a');
            for (auto &ch : t)
                ch = "abcdefghijklmnopqrstuvwxyz_0123456789"[c.s.draw(37)];
            if (used.insert(t).second)
                l.push_back(t);
        }
        if (l.empty())
            continue;
        longest = std::max(longest, l[0].size());
        names.push_back(l);
        desc.push_back("what " + std::to_string(i) + " does");
        nameset ns(l[0]);
        ns.insert(ns.end(), l.begin() + 1, l.end());
        auto *g = c.s.chance(1, 4) ? nullptr : c.s.b() ? &g1 : &g2;
        switch (c.s.draw(5)) {
            case 0: own.emplace_back(new setting_bool(&d, ns, c.s.b(), g, desc.back().c_str())); break;
            case 1: own.emplace_back(new setting_int32(&d, ns, (int)c.s.i(-5, 5), g, desc.back().c_str())); break;
            case 2: own.emplace_back(new setting_scalar(&d, ns, (float)c.s.i(-5, 5), g, desc.back().c_str())); break;
            case 3: own.emplace_back(new setting_set(&d, ns, "\"a file\" <multiple allowed>", g, desc.back().c_str())); break;
            default: own.emplace_back(new setting_string(&d, ns, "x", "\"a text\"", g, desc.back().c_str())); break;
        }
    }
    std::string file = c.scratch + "/help.txt";
    fflush(stdout);
    int keep = dup(1), to = open(file.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(to, 1);
    close(to);
    bool quit = false;
    std::string what;
    try {
        const char *av[] = {"tool", c.s.pick<const char *>({"-help", "-h", "-?", "--help"})};
        token_parser_t p(1, av + 1, {"command line"});
        d.parse(p);
    } catch (quit_after_help_exception &) {
        quit = true;
    } catch (std::exception &e) {
        what = e.what();
    }
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    c.describe(vh::cat(names.size(), " options, the longest name has ", longest, " letters"));
    if (!quit)
        c.fail("help", "the help ended early: " + what);
    std::ifstream f(file);
    std::string text((std::istreambuf_iterator<char>(f)), {});
    size_t lines = 0;
    for (size_t i = 0; i < names.size(); ++i) {
        size_t at = text.find("  -" + names[i][0] + " ");
        if (at == std::string::npos)
            c.fail("help", "nothing on -" + names[i][0]);
        std::string line = text.substr(at, text.find('\n', at) - at);
        if (line.size() < desc[i].size() || line.substr(line.size() - desc[i].size()) != desc[i])
            c.fail("help", "-" + names[i][0] + " is not described: " + line);
        for (size_t j = 1; j < names[i].size(); ++j)
            if (text.find("\\" + names[i][j] + "\n") == std::string::npos)
                c.fail("help", "nothing on " + names[i][j]);
        ++lines;
    }
    c.nt(lines >= 3);
}
VH_MAIN("C11", "at least three settings were set; help: at least three options listed",
    (std::vector<std::string>{"integers for enumerations are among their values; numbers carry no trailing text"}),
    vh::Sub{"history", history, 60000, 2000000}, vh::Sub{"values", values, 30000, 1000000}, vh::Sub{"help", help, 2000, 100000})
