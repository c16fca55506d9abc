// C07: entity text
#include "vh.hh"
#include "guard.hh"
#include <common/entdata.h>
#include <common/parser.hh>
#include <common/bspfile.hh>
#include <common/log.hh>
using vh::Case;
using KV = std::vector<std::pair<std::string, std::string>>;

static std::string key(Case &c)
{
    if (c.s.chance(2, 3))
        return c.s.pick<std::string>({"classname", "origin", "angle", "target", "_light", "wad", "message", "model", "light", "k"});
    std::string r;
    int n = (int)c.s.i(1, 10);
    for (int i = 0; i < n; ++i) {
        char ch = (char)c.s.i(33, 126);
        r += (ch == '"' || ch == '\\') ? '_' : ch;
    }
    return r == "}" ? "k}" : r;
}
static std::string value(Case &c)
{
    std::string r;
    int n = c.s.count(0, 20);
    for (int i = 0; i < n; ++i)
        switch (c.s.draw(8)) {
            case 0: r += ' '; break;
            case 1: r += c.s.pick<std::string>({"\\n", "\\\\", "\\b", "\\q", "\\\"x", "{", "}", "//", ";"}); break;
            case 2: r += (char)c.s.i(128, 255); break;
            case 3: r += '\t'; break;
            default: {
                char ch = (char)c.s.i(32, 126);
                r += (ch == '"' || ch == '\\') ? '/' : ch;
            }
        }
    return r == "}" ? "}}" : r;
}
static std::string ws(Case &c, bool need)
{
    std::string r = need ? c.s.pick<std::string>({" ", "\n", "\t", "\r\n"}) : "";
    while (c.s.chance(1, 3))
        r += c.s.pick<std::string>({" ", "\n", "\t", "// comment \"x\" { }\n", "; quark\n", "\r\n"});
    return r;
}
static void put(KV &kv, const std::string &k, const std::string &v)
{
    for (auto &[a, b] : kv)
        if (a == k) {
            b = v;
            return;
        }
    kv.push_back({k, v});
}
static std::string show(const std::string &t)
{
    std::string r;
    for (unsigned char ch : t)
        r += ch == '\n' ? std::string("\\n") : (ch < 32 || ch > 126) ? std::string("?") : std::string(1, ch);
    return r;
}
static KV dump(const entdict_t &e) { return KV(e.begin(), e.end()); }

static void same(Case &c, const std::vector<entdict_t> &got, const std::vector<KV> &want, const char *k)
{
    c.require(got.size() == want.size(), k, vh::cat(got.size(), " entities, want ", want.size()));
    for (size_t i = 0; i < want.size(); ++i) {
        KV g = dump(got[i]);
        c.require(g.size() == want[i].size(), k, vh::cat("entity ", i, " has ", g.size(), " keys, want ", want[i].size()));
        for (size_t j = 0; j < g.size(); ++j)
            c.require(g[j] == want[i][j], k, vh::cat("entity ", i, " pair ", j, ": got '", g[j].first, "'='", g[j].second, "', want '", want[i][j].first, "'='", want[i][j].second, "'"));
    }
}

static void roundtrip(Case &c)
{
    int n = c.s.count(0, 6);
    std::vector<KV> want;
    std::string t = ws(c, false);
    std::vector<std::pair<size_t, size_t>> spans; // [first byte of '{', byte after '}')
    bool quoted_keys_only = true;
    (void)quoted_keys_only;
    for (int i = 0; i < n; ++i) {
        KV kv;
        size_t a = t.size();
        t += "{" + ws(c, true);
        int m = c.s.count(0, 7);
        for (int k = 0; k < m; ++k) {
            std::string kk = key(c), v = value(c);
            std::string pad1 = c.s.chance(1, 8) ? c.s.pick<std::string>({" ", "  ", "\t", " \t"}) : "", pad2 = c.s.chance(1, 8) ? c.s.pick<std::string>({" ", "  ", "\t", "\t "}) : "";
            t += "\"" + pad1 + kk + pad2 + "\"" + ws(c, c.s.b());
            bool trailing = c.s.chance(1, 12); // value ending in a lone backslash, line end follows
            if (trailing)
                v += "\\";
            bool bare = !trailing && !v.empty() && c.s.chance(1, 6) && v.find_first_of(" \t\"\\;") == std::string::npos && v.find("//") == std::string::npos &&
                        std::all_of(v.begin(), v.end(), [](char ch) { return ch > 32; }) && v != "}" && v != "{";
            t += bare ? v : "\"" + v + "\"";
            t += trailing ? (c.s.b() ? "\n" : "\r\n") : ws(c, bare);
            put(kv, kk, v);
        }
        t += "}";
        spans.push_back({a, t.size()});
        t += ws(c, true);
        want.push_back(kv);
    }
    size_t pairs = 0;
    for (auto &k : want)
        pairs += k.size();
    c.nt(n >= 2 && pairs >= 3);
    c.describe(vh::cat(n, " entities, ", pairs, " pairs: ", show(t)));
    std::vector<entdict_t> got;
    {
        GuardBuf g(t);
        parser_t p(g.data, g.size, parser_source_location("ents"));
        got = EntData_Parse(p);
    }
    same(c, got, want, "parse");
    std::string w = EntData_Write(got);
    std::vector<entdict_t> again;
    {
        GuardBuf g(w);
        parser_t p(g.data, g.size, parser_source_location("ents"));
        again = EntData_Parse(p);
    }
    same(c, again, want, "write");
    c.require(EntData_Write(again) == w, "write-stable", "writing is not a fixed point");
    c.require(std::equal(again.begin(), again.end(), got.begin(), got.end()), "equality", "operator== says re-read entities differ");
    // the documented layout of the written text
    std::string lay;
    for (auto &kv : want) {
        lay += "{\n";
        for (auto &[k, v] : kv)
            lay += "\"" + k + "\" \"" + v + "\"\n";
        lay += "}\n";
    }
    c.require(w == lay, "layout", "written text is not one quoted pair per line");
    // through a bsp
    mbsp_t bsp;
    bsp.dentdata = w;
    same(c, EntData_Parse(bsp), want, "bsp");
    // cut anywhere inside an entity: refused; between entities: the whole ones
    size_t cut = c.s.draw(t.size() + 1);
    size_t whole = 0;
    bool inside = false;
    for (auto &[a, b] : spans) {
        if (b <= cut)
            ++whole;
        else if (cut > a)
            inside = true;
    }
    std::string ct = t.substr(0, cut);
    bool incomment = false; // a cut comment between entities is fine
    GuardBuf g(ct);
    parser_t p(g.data, g.size, parser_source_location("ents"));
    (void)incomment;
    try {
        auto part = EntData_Parse(p);
        c.require(!inside, "cut-accepted", "text cut inside an entity was accepted");
        same(c, part, std::vector<KV>(want.begin(), want.begin() + whole), "cut");
    } catch (const ericwtools_error &) {
        // between entities a stray '/' of a cut comment may also be refused
        c.require(inside || (cut && ct.back() == '/'), "cut-refused", "text cut between entities was refused");
    }
}

static std::string num(Case &c, double &v)
{
    char b[64];
    switch (c.s.draw(5)) {
        case 0: v = (double)c.s.ito(-100000, 100000, 0); snprintf(b, sizeof b, "%d", (int)v); break;
        case 1: v = c.s.f(-4096, 4096); snprintf(b, sizeof b, "%.17g", v); break;
        case 2: v = c.s.ito(-400, 400, 0) / 8.0; snprintf(b, sizeof b, "%.3f", v); break;
        case 3: v = c.s.ito(-999, 999, 0) * 1000.0; snprintf(b, sizeof b, "%.2e", v); v = strtod(b, nullptr); break;
        default: v = c.s.ito(-99, 99, 0) / 100.0; snprintf(b, sizeof b, "%g", v); v = strtod(b, nullptr); break;
    }
    return b;
}

static void edits(Case &c)
{
    KV m;
    entdict_t e;
    if (c.s.b()) {
        e = entdict_t{{"classname", "light"}, {"light", "300"}};
        m = {{"classname", "light"}, {"light", "300"}};
    }
    int n = c.s.count(1, 30);
    std::set<std::string> kinds;
    for (int i = 0; i < n; ++i) {
        std::string k = key(c);
        auto it = std::find_if(m.begin(), m.end(), [&](auto &p) { return p.first == k; });
        bool has = it != m.end();
        switch (c.s.draw(8)) {
            case 0:
            case 1:
            case 2: {
                std::string v = value(c);
                e.set(k, v);
                put(m, k, v);
                kinds.insert("set");
                break;
            }
            case 3:
                e.remove(k);
                if (has) {
                    m.erase(it);
                    kinds.insert("remove");
                }
                break;
            case 4: {
                std::string to = key(c);
                if (to == k || std::any_of(m.begin(), m.end(), [&](auto &p) { return p.first == to; }))
                    break;
                e.rename(k, to);
                if (has) {
                    auto v = it->second;
                    m.erase(it);
                    // the renamed pair may sit anywhere: locate it, the others keep their order
                    size_t at = e.find(to) - e.begin();
                    c.require(at <= m.size(), "rename", "renamed key not found");
                    m.insert(m.begin() + at, {to, v});
                    kinds.insert("rename");
                } else
                    c.require(!e.has(to), "rename", "renaming a missing key created one");
                break;
            }
            case 5: {
                double v;
                std::string s = num(c, v);
                std::string tail = c.s.pick<std::string>({"", " ", " 5", "x"});
                e.set(k, s + tail);
                put(m, k, s + tail);
                double want = strtod(s.c_str(), nullptr);
                c.require(e.get_float(k) == want || std::fabs(e.get_float(k) - want) <= 1e-12 * std::fabs(want), "float", vh::cat("get_float('", s, tail, "') = ", e.get_float(k)));
                if (s.find_first_of("e.") == std::string::npos)
                    c.require(e.get_int(k) == (int)want, "int", vh::cat("get_int('", s, "') = ", e.get_int(k)));
                kinds.insert("number");
                break;
            }
            case 6: {
                double v[3];
                std::string s;
                int comps = (int)c.s.i(0, 3);
                for (int j = 0; j < comps; ++j)
                    s += (j ? c.s.pick<std::string>({" ", "  ", "\t"}) : std::string()) + num(c, v[j]);
                if (comps < 3 && c.s.b())
                    s += " abc";
                e.set(k, s);
                put(m, k, s);
                qvec3f o(9, 9, 9);
                int r = e.get_vector(k, o);
                c.require(std::max(r, 0) == comps, "vector-count", vh::cat("get_vector('", s, "') read ", r));
                for (int j = 0; j < 3; ++j) {
                    double want = j < comps ? strtod(vh::cat(v[j]).c_str(), nullptr) : 0;
                    c.require(std::fabs(o[j] - want) <= 1e-6 * (1 + std::fabs(want)), "vector", vh::cat("component ", j, " of '", s, "' is ", o[j]));
                }
                kinds.insert("vector");
                break;
            }
            default:
                c.require(e.has(k) == has, "has", "has('" + k + "')");
                c.require(e.get(k) == (has ? it->second : ""), "get", "get('" + k + "')");
                c.require((e.find(k) != e.end()) == has, "find", "find('" + k + "')");
                if (!has) {
                    qvec3f o(1, 1, 1);
                    c.require(e.get_float(k) == 0 && e.get_int(k) == 0 && e.get_vector(k, o) <= 0 && o == qvec3f(0, 0, 0), "missing", "a missing key is not zero");
                }
        }
        c.require(dump(e) == m && e.size() == m.size(), "pairs", vh::cat("after edit ", i, " of key '", k, "' the pairs differ from the model"));
    }
    c.nt(kinds.size() >= 2);
    c.describe(vh::cat(n, " edits, ", m.size(), " keys left"));
    std::string w = EntData_Write({e});
    parser_t p(std::string_view(w), parser_source_location("x"));
    bool clean = true;
    for (auto &[k, v] : m)
        clean = clean && !v.empty();
    auto r = EntData_Parse(p);
    c.require(r.size() == 1 && dump(r[0]) == m, "edit-write", "edited entity did not survive writing");
}

VH_MAIN("C07", "at least two entities with three pairs in all / two kinds of edit",
    (std::vector<std::string>{"keys and values hold no bare double quote and are not exactly a closing brace (the text format cannot express them)", "renaming onto a key that is already present is not judged"}),
    vh::Sub{"roundtrip", roundtrip, 60000, 2000000}, vh::Sub{"edits", edits, 60000, 2000000})
