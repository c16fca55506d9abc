// C33: maputil shows scripts the map, takes back what they make of it and saves it
#include "mapmodel.hh"
#include "bspmodel.hh"
#include "poly.hh"
#include <common/mapfile.hh>
#include <common/settings.hh>
#include <common/fs.hh>
#include <common/log.hh>
#include <common/json.hh>
#include <fcntl.h>
#include <unistd.h>
using vh::Case;
using vh::cat;
using vh::Src;
using pg::operator+;
using pg::operator-;
using pg::operator*;

int maputil_main(int argc, char **argv);
extern map_file_t map_file;
extern settings::common_settings common_options;

static map_file_t parse(const std::string &t)
{
    map_file_t m;
    parser_t p(t, {"test.map"});
    m.parse(p);
    return m;
}
static std::string text(map_file_t m)
{
    std::ostringstream o;
    m.write(o);
    return o.str();
}
static std::string num(double d)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
static std::string lnum(double d) // a float in Lua, too
{
    auto r = num(d);
    return r.find_first_of(".en") == std::string::npos ? r + ".0" : r;
}
static void spew(const std::string &p, const std::string &t) { bm::spew(p, std::vector<uint8_t>(t.begin(), t.end())); }
static std::string slurp(const std::string &p)
{
    auto b = bm::slurp(p);
    return {b.begin(), b.end()};
}
// runs the tool, gives back what it said
static std::string tool(Case &c, std::vector<std::string> args)
{
    args.insert(args.begin(), "maputil");
    std::vector<char *> av;
    std::string cmd;
    for (auto &a : args) {
        av.push_back(a.data());
        cmd += (cmd.empty() ? "" : " ") + (a.size() > 60 ? a.substr(0, 60) + "..." : a);
    }
    av.push_back(nullptr);
    c.describe(cmd);
    std::string said;
    auto mask = logging::mask;
    logging::mask = bitflags<logging::flag>(logging::flag::ALL);
    logging::set_print_callback([&](logging::flag, const char *s) { said += s; });
    fflush(stdout);
    int keep = dup(1), null = open("/dev/null", O_WRONLY);
    dup2(null, 1);
    close(null);
    auto undo = [&] {
        fflush(stdout);
        std::cout.flush();
        dup2(keep, 1);
        close(keep);
        logging::set_print_callback({});
        logging::mask = mask;
    };
    try {
        maputil_main((int)av.size() - 1, av.data());
    } catch (const std::exception &e) {
        undo();
        c.fail("refused", cat("maputil gave up: ", e.what()));
    }
    undo();
    return said;
}
static std::string lq(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        char b[8];
        if (ch == '"' || ch == '\\' || ch < 32 || ch >= 127) {
            snprintf(b, sizeof b, "\\%03d", ch);
            r += b;
        } else
            r += (char)ch;
    }
    return r + "\"";
}

// ---- what a script has to see --------------------------------------------------------------
static const char *DUMP = R"LUA(
local function q(s) return string.format("%d:%s", #s, s) end
local function n(v) assert(math.type(v) ~= nil, type(v)) return string.format("%.17g", v) end
local function keys(t) local r = {} for k in pairs(t) do r[#r + 1] = tostring(k) end table.sort(r) return table.concat(r, ",") end
local function vec(t) local r = {} for i, v in ipairs(t) do r[i] = n(v) end return table.concat(r, " ") end
function dump(name)
  local f = assert(io.open(name, "wb"))
  for _, e in ipairs(entities) do
    f:write("entity\n")
    for _, d in ipairs(e.dict or {}) do f:write("key ", q(d[1]), " ", q(d[2]), " ", #d, "\n") end
    for _, b in ipairs(e.brushes or {}) do
      f:write("brush\n")
      for _, s in ipairs(b) do
        f:write("side ", q(s.texture), " ", keys(s.raw), "\n")
        for i = 1, 3 do f:write(" ", vec(s.plane_points[i])) end
        f:write("\n")
        for k, r in pairs(s.raw) do
          if r.shift then f:write("def ", vec(r.shift), " ", n(r.rotate), " ", vec(r.scale), "\n") end
          if r.axis then f:write("axis ", vec(r.axis[1]), " ", vec(r.axis[2]), "\n") end
          if r.tx2 ~= nil then f:write("tx2 ", tostring(r.tx2), "\n") end
        end
        if s.info then f:write("info ", n(s.info.contents), " ", n(s.info.flags), " ", n(s.info.value), "\n") end
        f:write("plane ", vec(s.plane), "\nvecs ", vec(s.vecs[1]), " ", vec(s.vecs[2]), "\n")
      end
    end
  end
  f:close()
end
)LUA";
static std::string dumped(const map_file_t &m)
{
    std::string o;
    auto q = [](const std::string &s) { return cat(s.size(), ":", s); };
    for (auto &e : m.entities) {
        o += "entity\n";
        for (auto &p : e.epairs)
            o += "key " + q(p.first) + " " + q(p.second) + " 2\n";
        for (auto &b : e.brushes) {
            o += "brush\n";
            for (auto &s : b.faces) {
                const texdef_quake_ed_t *d = nullptr;
                const texdef_bp_t *a = nullptr;
                const texdef_etp_t *etp = nullptr;
                std::string name;
                if (auto *v = std::get_if<texdef_valve_t>(&s.raw))
                    d = v, a = v, name = "valve";
                else if (auto *v = std::get_if<texdef_etp_t>(&s.raw))
                    d = v, etp = v, name = "etp";
                else if (auto *v = std::get_if<texdef_quake_ed_t>(&s.raw))
                    d = v, name = "quaked";
                else if (auto *v = std::get_if<texdef_bp_t>(&s.raw))
                    a = v, name = "bp";
                o += "side " + q(s.texture) + " " + name + "\n";
                for (auto &p : s.planepts)
                    o += " " + num(p[0]) + " " + num(p[1]) + " " + num(p[2]);
                o += "\n";
                if (d)
                    o += "def " + num(d->shift[0]) + " " + num(d->shift[1]) + " " + num(d->rotate) + " " + num(d->scale[0]) + " " + num(d->scale[1]) + "\n";
                if (a) {
                    o += "axis";
                    for (int i = 0; i < 2; ++i)
                        for (int k = 0; k < 3; ++k)
                            o += " " + num(a->axis.at(i, k));
                    o += "\n";
                }
                if (etp)
                    o += cat("tx2 ", etp->tx2 ? "true" : "false", "\n");
                if (s.extended_info)
                    o += "info " + num(s.extended_info->contents) + " " + num(s.extended_info->flags.native) + " " + num(s.extended_info->value) + "\n";
                o += "plane " + num(s.plane.normal[0]) + " " + num(s.plane.normal[1]) + " " + num(s.plane.normal[2]) + " " + num(s.plane.dist) + "\nvecs";
                for (int i = 0; i < 2; ++i)
                    for (int k = 0; k < 4; ++k)
                        o += " " + num(s.vecs.at(i, k));
                o += "\n";
            }
        }
    }
    return o;
}
static void same_text(Case &c, const char *key, const std::string &got, const std::string &want, const std::string &what)
{
    if (got == want)
        return;
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i])
        ++i;
    size_t a = want.rfind('\n', i ? i - 1 : 0);
    a = a == std::string::npos || i == 0 ? 0 : a + 1;
    auto line = [&](const std::string &s) { return a > s.size() ? std::string("nothing") : "'" + s.substr(a, std::min<size_t>(200, s.find('\n', a) - a)) + "'"; };
    c.fail(key, cat(what, ": ", line(got), ", want ", line(want)));
}

// ---- a session: scripts, queries, conversions and saves, one after another ------------------
static mm::Side clean_side(Case &c)
{
    mm::Side s;
    int a = (int)c.s.draw(3), u = (a + 1) % 3, v = (a + 2) % 3;
    double d = (double)c.s.ito(-500, 500, 0), x = (double)c.s.ito(-500, 500, 0), y = (double)c.s.ito(-500, 500, 0);
    bool flip = c.s.b();
    for (auto &p : s.p)
        p = {};
    for (int i = 0; i < 3; ++i)
        s.p[i][a] = d;
    s.p[0][u] = x, s.p[0][v] = y;
    s.p[flip ? 2 : 1][u] = x + (double)c.s.i(16, 128), s.p[flip ? 2 : 1][v] = y;
    s.p[flip ? 1 : 2][u] = x, s.p[flip ? 1 : 2][v] = y + (double)c.s.i(16, 128);
    return s;
}
// `edits' as Lua, and the same done to the map
static std::string edit(Case &c, map_file_t &m)
{
    auto &s = c.s;
    std::string o;
    int n = (int)s.count(0, 5);
    for (int i = 0; i < n; ++i) {
        std::vector<std::array<size_t, 3>> sides;
        for (size_t e = 0; e < m.entities.size(); ++e)
            for (size_t b = 0; b < m.entities[e].brushes.size(); ++b)
                for (size_t f = 0; f < m.entities[e].brushes[b].faces.size(); ++f)
                    sides.push_back({e, b, f});
        int op = (int)s.draw(11);
        if (op <= 4 && sides.empty())
            op = 5 + (int)s.draw(6);
        if (m.entities.empty() && op < 10)
            op = 10;
        std::string at;
        brush_side_t *f = nullptr;
        std::array<size_t, 3> w{};
        if (op <= 4) {
            w = sides[s.draw(sides.size())];
            f = &m.entities[w[0]].brushes[w[1]].faces[w[2]];
            at = cat("entities[", w[0] + 1, "].brushes[", w[1] + 1, "][", w[2] + 1, "]");
        }
        size_t ei = m.entities.empty() ? 0 : s.draw(m.entities.size());
        auto *e = m.entities.empty() ? nullptr : &m.entities[ei];
        std::string en = cat("entities[", ei + 1, "]");
        switch (op) {
            case 0:
                f->texture = mm::texname(c);
                o += at + ".texture = " + lq(f->texture) + "\n";
                break;
            case 1: { // move the brush
                auto &b = m.entities[w[0]].brushes[w[1]];
                int d[3];
                for (int &x : d)
                    x = (int)s.ito(-64, 64, 0);
                for (auto &x : b.faces)
                    for (auto &p : x.planepts)
                        for (int k = 0; k < 3; ++k)
                            p[k] += d[k];
                o += cat("for _, s in ipairs(entities[", w[0] + 1, "].brushes[", w[1] + 1, "]) do for _, p in ipairs(s.plane_points) do p[1] = p[1] + ", d[0], " p[2] = p[2] + ", d[1], " p[3] = p[3] + ", d[2], " end end\n");
                break;
            }
            case 2: { // another texture definition
                texdef_quake_ed_t q;
                for (int k = 0; k < 2; ++k) {
                    q.shift[k] = s.b() ? (double)s.ito(-512, 512, 0) : s.f(-512, 512);
                    q.scale[k] = s.b() ? 1 : s.f(0.1, 4);
                }
                q.rotate = s.b() ? 0 : s.f(-360, 360);
                std::string d = "shift = {" + lnum(q.shift[0]) + ", " + lnum(q.shift[1]) + "}, rotate = " + lnum(q.rotate) + ", scale = {" + lnum(q.scale[0]) + ", " + lnum(q.scale[1]) + "}";
                int k = (int)s.draw(3);
                if (k == 0) {
                    f->raw = q;
                    o += at + ".raw = { quaked = { " + d + " } }\n";
                } else if (k == 1) {
                    bool t = s.b();
                    f->raw = texdef_etp_t{q, t};
                    o += at + ".raw = { etp = { " + d + ", tx2 = " + (t ? "true" : "false") + " } }\n";
                } else {
                    texdef_valve_t v;
                    static_cast<texdef_quake_ed_t &>(v) = q;
                    std::string a;
                    for (int i = 0; i < 2; ++i) {
                        a += i ? ", {" : "{";
                        for (int j = 0; j < 3; ++j) {
                            v.axis.at(i, j) = s.b() ? (double)s.i(-1, 1) : s.f(-1.5, 1.5);
                            a += (j ? ", " : "") + lnum(v.axis.at(i, j));
                        }
                        a += "}";
                    }
                    f->raw = v;
                    o += at + ".raw = { valve = { " + d + ", axis = { " + a + " } } }\n";
                }
                break;
            }
            case 3:
                if (s.chance(1, 3)) {
                    f->extended_info.reset();
                    o += at + ".info = nil\n";
                } else {
                    texinfo_quake2_t q;
                    q.contents = s.i32();
                    q.flags.native = s.i32();
                    q.value = s.i32();
                    f->extended_info = q;
                    o += cat(at, ".info = { contents = ", q.contents, ", flags = ", q.flags.native, ", value = ", q.value, " }\n");
                }
                break;
            case 4: { // one field
                o += at;
                if (s.b()) {
                    double v = s.f(-64, 64);
                    int k = (int)s.draw(2);
                    std::visit([&](auto &x) {
                        if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, texdef_bp_t>)
                            x.shift[k] = v;
                    }, f->raw);
                    const char *nm = std::holds_alternative<texdef_valve_t>(f->raw) ? "valve" : std::holds_alternative<texdef_etp_t>(f->raw) ? "etp" : "quaked";
                    o += cat(".raw.", nm, ".shift[", k + 1, "] = ", lnum(v), "\n");
                } else {
                    int p = (int)s.draw(3), k = (int)s.draw(3);
                    double v = s.b() ? (double)s.ito(-512, 512, 0) : s.f(-512, 512);
                    f->planepts[p][k] = v;
                    o += cat(".plane_points[", p + 1, "][", k + 1, "] = ", lnum(v), "\n");
                }
                break;
            }
            case 5: { // keys
                auto k = mm::trim(mm::word(c, false)), v = mm::word(c, true);
                if (k.empty())
                    k = "k";
                o += en + ".dict = " + en + ".dict or {}\n";
                size_t j = 0, at = (size_t)-1;
                for (auto &p : e->epairs) {
                    if (p.first == k)
                        at = j;
                    ++j;
                }
                if (at == (size_t)-1)
                    o += cat("table.insert(", en, ".dict, { ", lq(k), ", ", lq(v), " })\n");
                else
                    o += cat(en, ".dict[", at + 1, "][2] = ", lq(v), "\n");
                e->epairs.set(k, v);
                break;
            }
            case 6:
                if (e->epairs.size()) {
                    size_t j = s.draw(e->epairs.size());
                    auto it = e->epairs.begin();
                    std::advance(it, j);
                    e->epairs.remove(std::string(it->first));
                    o += cat("table.remove(", en, ".dict, ", j + 1, ")\n");
                }
                break;
            case 7:
                if (!e->brushes.empty()) {
                    size_t j = s.draw(e->brushes.size());
                    if (s.b()) {
                        e->brushes.erase(e->brushes.begin() + j);
                        o += cat("table.remove(", en, ".brushes, ", j + 1, ")\n");
                    } else { // twice
                        auto b = e->brushes[j];
                        e->brushes.push_back(b);
                        o += cat("table.insert(", en, ".brushes, (load('return ' .. show(", en, ".brushes[", j + 1, "])))())\n");
                    }
                }
                break;
            case 8: { // a new brush
                brush_t b{};
                o += en + ".brushes = " + en + ".brushes or {}\n";
                o += "table.insert(" + en + ".brushes, {";
                int k = (int)s.i(1, 6);
                for (int i = 0; i < k; ++i) {
                    auto sd = clean_side(c);
                    brush_side_t f{};
                    f.texture = mm::texname(c);
                    f.raw = texdef_quake_ed_t{qvec2d(0, 0), 0, qvec2d(1, 1)};
                    o += " { texture = " + lq(f.texture) + ", raw = { quaked = { shift = {0, 0}, rotate = 0, scale = {1, 1} } }, plane_points = {";
                    for (int p = 0; p < 3; ++p) {
                        for (int q = 0; q < 3; ++q)
                            f.planepts[p][q] = sd.p[p][q];
                        o += cat(" {", sd.p[p][0], ", ", sd.p[p][1], ", ", sd.p[p][2], "},");
                    }
                    o += " } },";
                    b.faces.push_back(f);
                }
                o += " })\n";
                e->brushes.push_back(b);
                break;
            }
            case 9:
                m.entities.erase(m.entities.begin() + ei);
                o += cat("table.remove(entities, ", ei + 1, ")\n");
                break;
            case 10: {
                map_entity_t n{};
                size_t j = s.draw(m.entities.size() + 1);
                o += cat("table.insert(entities, ", j + 1, ", { dict = {");
                int k = (int)s.draw(3);
                for (int i = 0; i < k; ++i) {
                    auto v = mm::word(c, true);
                    n.epairs.set(cat("n", i), v);
                    o += cat(" { \"n", i, "\", ", lq(v), " },");
                }
                o += " } })\n";
                m.entities.insert(m.entities.begin() + j, n);
                break;
            }
        }
    }
    return o;
}
static const char *SHOW = R"LUA(
function show(t)
  if type(t) == "table" then
    local r = {}
    for k, v in pairs(t) do r[#r + 1] = "[" .. (type(k) == "number" and k or string.format("%q", k)) .. "]=" .. show(v) end
    return "{" .. table.concat(r, ",") .. "}"
  end
  return string.format("%q", t)
end
)LUA";

// what reading the map again makes of it; sides it would drop are too close to call here
static bool settle(map_file_t &m)
{
    auto w = text(m);
    map_file_t h;
    try {
        h = parse(w);
    } catch (const std::exception &) {
        return false;
    }
    if (h.entities.size() != m.entities.size())
        return false;
    for (size_t e = 0; e < h.entities.size(); ++e) {
        if (h.entities[e].brushes.size() != m.entities[e].brushes.size())
            return false;
        for (size_t b = 0; b < h.entities[e].brushes.size(); ++b)
            if (h.entities[e].brushes[b].faces.size() != m.entities[e].brushes[b].faces.size())
                return false;
    }
    if (text(h) != w)
        return false;
    m = h;
    return true;
}

static void session(Case &c)
{
    auto &s = c.s;
    auto mask = logging::mask;
    logging::mask = {};
    mm::Opt o;
    o.degenerate = s.chance(1, 4);
    auto model = mm::gen(c, o);
    map_file_t m = parse(model.text);
    logging::mask = mask;
    auto base = c.scratch + "/m";
    spew(base + ".map", model.text);
    std::vector<std::string> args{base + (s.b() ? ".map" : "")};
    struct Check
    {
        std::string file, want, what;
    };
    std::vector<Check> checks;
    std::string said; // what the queries have to print, in order
    int nops = (int)s.i(1, 5), changes = 0;
    bool reparsed = false; // locations of committed entities are gone
    if (s.chance(1, 4)) {
        args.push_back("--game");
        args.push_back(s.pick<const char *>({"quake", "Quake", "quake2", "hexen2", "halflife"}));
    }
    for (int i = 0; i < nops; ++i) {
        switch (s.draw(6)) {
            case 0:
            case 1: {
                auto f = cat(c.scratch, "/s", i, ".lua"), d = cat(c.scratch, "/d", i, ".txt"), d2 = cat(c.scratch, "/e", i, ".txt");
                std::string lua = std::string(DUMP) + SHOW;
                bool look = s.b(), commit = s.chance(3, 4);
                if (look) {
                    lua += "dump(" + lq(d) + ")\n";
                    checks.push_back({d, dumped(m), "what the script saw"});
                }
                auto next = m;
                lua += edit(c, next);
                if (commit) {
                    logging::mask = {};
                    bool ok = settle(next);
                    logging::mask = mask;
                    if (!ok)
                        throw vh::Discard{};
                    m = next;
                    lua += "commit_map()\n";
                    c.label("commit");
                    ++changes;
                    reparsed = true;
                    if (s.chance(1, 4)) { // what comes after does not count
                        lua += s.pick<const char *>({"entities = {}\n", "entities[1] = nil\n", "error('stop')\n"});
                    }
                } else
                    c.label("script without commit");
                spew(f, lua);
                if (c.s.replaying && getenv("VH_ALL"))
                    fprintf(stderr, "%s\n", lua.c_str());
                args.push_back("--script");
                args.push_back(f);
                break;
            }
            case 2: {
                args.push_back("--strip_extended_info");
                for (auto &e : m.entities)
                    for (auto &b : e.brushes)
                        for (auto &f : b.faces)
                            f.extended_info.reset();
                c.label("strip");
                ++changes;
                break;
            }
            case 3: {
                // compared with the library's conversion, which C09 judges
                bool valve = s.b();
                args.push_back("--convert");
                args.push_back(valve ? "valve" : "quake");
                if (!valve && std::find(args.begin(), args.end(), "--game") != args.end()) {
                    args.pop_back();
                    args.back() = "--strip_extended_info";
                    for (auto &e : m.entities)
                        for (auto &b : e.brushes)
                            for (auto &f : b.faces)
                                f.extended_info.reset();
                    break;
                }
                logging::mask = {};
                m.convert_to(valve ? texcoord_style_t::valve_220 : texcoord_style_t::quaked, nullptr, common_options);
                logging::mask = mask;
                c.label("convert");
                ++changes;
                break;
            }
            case 4: {
                // which entities does it hold for?
                std::string k = "k", v = "v", expr;
                std::vector<std::pair<std::string, std::string>> all;
                for (auto &e : m.entities)
                    for (auto &p : e.epairs)
                        all.push_back({p.first, p.second});
                if (!all.empty()) {
                    auto &p = all[s.draw(all.size())];
                    k = p.first, v = p.second;
                }
                auto f = "entity[" + lq(k) + "]";
                int kind = (int)s.draw(6);
                auto n = (double)s.ito(-10, 10, 0);
                switch (kind) {
                    case 0: expr = "return " + f + " == " + lq(v); break;
                    case 1: expr = "return " + f; break;
                    case 2: expr = "return not " + f; break;
                    case 3: expr = "local x = tonumber(" + f + ") return x and x >= " + num(n); break;
                    case 4: expr = "return #" + f + " > 2"; break; // fails where there is none
                    case 5: expr = "return #entities > " + num(n + 2) + " and " + f + " ~= nil"; break;
                }
                for (auto &e : m.entities) {
                    bool has = false;
                    std::string g;
                    for (auto &p : e.epairs)
                        if (p.first == k)
                            has = true, g = p.second;
                    bool hit = false, bad = false;
                    switch (kind) {
                        case 0: hit = has && g == v; break;
                        case 1: hit = has; break;
                        case 2: hit = !has; break;
                        case 3: {
                            char *end = nullptr;
                            std::string t = g;
                            while (!t.empty() && isspace((unsigned char)t.back()))
                                t.pop_back();
                            double x = strtod(t.c_str(), &end);
                            if (has && !t.empty() && (t.find_first_not_of("0123456789.-") != std::string::npos)) {
                                // what Lua takes for a number is Lua's business: only the plain ones are judged
                                hit = false;
                                if (*end == 0 && end != t.c_str())
                                    throw vh::Discard{};
                                if (t.find_first_of("xX") != std::string::npos)
                                    throw vh::Discard{};
                            } else
                                hit = has && !t.empty() && *end == 0 && end != t.c_str() && x >= n;
                            break;
                        }
                        case 4: bad = !has, hit = has && g.size() > 2; break;
                        case 5: hit = (double)m.entities.size() > n + 2 && has; break;
                    }
                    if (bad)
                        said += "error\n";
                    else if (hit) {
                        std::string cls;
                        for (auto &p : e.epairs)
                            if (p.first == "classname")
                                cls = p.second;
                        said += "MATCHED: " + cls + " @ " + (reparsed ? std::string("*") : fmt::format("{}", e.location.line_number.value_or(0))) + "\n";
                    }
                }
                args.push_back("--query");
                args.push_back(expr);
                c.label("query");
                break;
            }
            default: {
                auto f = cat(c.scratch, "/o", i);
                args.push_back("--save");
                args.push_back(f + (s.b() ? ".map" : ""));
                checks.push_back({f + ".map", text(m), cat("saved after ", changes, " changes")});
            }
        }
    }
    auto f = c.scratch + "/last.map";
    args.push_back("--save");
    args.push_back(f);
    checks.push_back({f, text(m), "saved at the end"});
    if (s.chance(1, 3)) { // a script that only looks, after everything
        auto d = c.scratch + "/last.txt", l = c.scratch + "/last.lua";
        spew(l, std::string(DUMP) + "dump(" + lq(d) + ")\n");
        args.push_back("--script");
        args.push_back(l);
        checks.push_back({d, dumped(m), "what the last script saw"});
    }
    size_t nb = 0;
    for (auto &e : m.entities)
        nb += e.brushes.size();
    c.nt(changes && nb);
    c.describe(cat(m.entities.size(), " entities, ", nb, " brushes"));
    if (model.text.size() < 500)
        c.describe(model.text);
    auto out = tool(c, args);
    for (auto &k : checks) {
        c.require(std::filesystem::exists(k.file), "missing", k.what + ": nothing written; " + out.substr(0, 600));
        same_text(c, k.what[0] == 'w' ? "script" : "saved", slurp(k.file), k.want, k.what);
    }
    // the queries
    std::string got;
    std::istringstream is(out);
    for (std::string l; std::getline(is, l);) {
        if (l.substr(0, 9) == "MATCHED: ") {
            auto a = l.rfind(" @ ");
            auto where = a == std::string::npos ? "" : l.substr(a + 3);
            if (reparsed)
                where = "";
            // "file[line N]" or the like: the number is what counts
            size_t z = where.find_last_of("0123456789");
            size_t y = z;
            while (z != std::string::npos && y && isdigit((unsigned char)where[y - 1]))
                --y;
            got += l.substr(0, a) + " @ " + (z == std::string::npos ? "*" : where.substr(y, z - y + 1)) + "\n";
        } else if (l.substr(0, 21) == "can't execute query: ")
            got += "error\n";
    }
    if (reparsed) { // every place is unknown then
        std::string t;
        std::istringstream is2(said);
        for (std::string l; std::getline(is2, l);)
            t += (l.rfind(" @ ") == std::string::npos ? l : l.substr(0, l.rfind(" @ ")) + " @ *") + "\n";
        said = t;
    }
    same_text(c, "query", got, said, "what the queries found");
}

// ---- create_winding: the polygon of a side ----------------------------------------------------
static void winding(Case &c)
{
    auto &s = c.s;
    pg::Body b;
    std::vector<std::array<pg::V, 3>> pts;
    pg::V lo{-1, -1, -1}, hi;
    for (int k = 0; k < 3; ++k) {
        lo[k] = (double)s.ito(-400, 400, 0);
        hi[k] = lo[k] + (double)s.i(8, 256);
    }
    auto put = [&](pg::V n, pg::V o) {
        n = pg::unit(n);
        auto f = pg::base({n, pg::dot(n, o)}, 64);
        std::array<pg::V, 3> t{f[0], f[1], f[2]};
        // three points, seen clockwise from outside
        pg::V m = pg::cross(t[0] - t[1], t[2] - t[1]);
        if (pg::dot(m, n) < 0)
            std::swap(t[0], t[2]);
        pts.push_back(t);
        b.pl.push_back({n, pg::dot(n, o)});
    };
    for (int k = 0; k < 3; ++k)
        for (int sg : {-1, 1}) {
            pg::V n{};
            n[k] = sg;
            put(n, sg < 0 ? lo : hi);
        }
    int cuts = (int)s.draw(4);
    for (int i = 0; i < cuts; ++i) {
        pg::V n{(double)s.i(-3, 3), (double)s.i(-3, 3), (double)s.i(-3, 3)}, o;
        if (pg::len(n) < 1.1)
            n = {1, 1, 0};
        for (int k = 0; k < 3; ++k)
            o[k] = s.f(lo[k], hi[k]);
        put(n, o);
    }
    for (size_t i = 0; i < b.pl.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            if (std::fabs(pg::dot(b.pl[i].n, b.pl[j].n)) > 1 - 1e-6 && std::fabs(std::fabs(b.pl[i].d) - std::fabs(b.pl[j].d)) < 1)
                throw vh::Discard{};
    std::vector<size_t> order(pts.size());
    for (size_t i = 0; i < order.size(); ++i)
        order[i] = i;
    for (size_t i = order.size(); i > 1; --i)
        std::swap(order[i - 1], order[s.draw(i)]);
    std::string t = "{\n\"classname\" \"worldspawn\"\n{\n";
    for (size_t i : order) {
        for (auto &p : pts[i])
            t += "( " + num(p[0]) + " " + num(p[1]) + " " + num(p[2]) + " ) ";
        t += "wall 0 0 0 1 1\n";
    }
    t += "}\n}\n";
    auto base = c.scratch + "/w";
    spew(base + ".map", t);
    double extents = s.pick<double>({2048, 4096, 65536});
    spew(base + ".lua", cat("local f = io.open(", lq(base + ".txt"), ", 'wb')\nlocal b = entities[1].brushes[1]\nfor _, s in ipairs(b) do\n  local w = create_winding(s, b, ", extents,
                            ")\n  f:write(w and #w or 0)\n  for _, p in ipairs(w or {}) do f:write(' ', string.format('%.17g %.17g %.17g', p[1], p[2], p[3])) end\n  f:write('\\n')\nend\nf:close()\n"));
    c.describe(cat(cuts, " cuts"));
    c.describe(t);
    auto out = tool(c, {base + ".map", "--script", base + ".lua", "--save", base + ".out"});
    c.require(std::filesystem::exists(base + ".txt"), "missing", out.substr(0, 500));
    std::istringstream is(slurp(base + ".txt"));
    int some = 0;
    for (size_t i : order) {
        std::string l;
        c.require((bool)std::getline(is, l), "sides", "fewer sides than the brush has");
        std::istringstream ls(l);
        size_t n = 0;
        ls >> n;
        pg::Poly w(n);
        for (auto &p : w)
            ls >> p[0] >> p[1] >> p[2];
        auto want = pg::base(b.pl[i], 65536);
        for (size_t j = 0; j < b.pl.size() && !want.empty(); ++j)
            if (j != i)
                want = pg::cut(want, b.pl[j]);
        double wa = want.size() < 3 ? 0 : pg::area(want), ga = w.size() < 3 ? 0 : pg::area(w);
        double per = 0;
        for (size_t k = 0; k < want.size(); ++k)
            per += pg::len(want[(k + 1) % want.size()] - want[k]);
        if (std::fabs(wa - ga) > 1e-2 + 1e-3 * per)
            c.fail("area", cat("side ", i, " has an area of ", ga, ", want ", wa));
        if (wa > 1 && pg::width(want) > 0.1)
            ++some;
        for (auto &p : w) {
            if (std::fabs(b.pl[i].at(p)) > 1e-3)
                c.fail("plane", cat("a corner of side ", i, " at ", pg::str(p), " is off its plane"));
            for (size_t j = 0; j < b.pl.size(); ++j)
                if (b.pl[j].at(p) > 1e-3)
                    c.fail("outside", cat("a corner of side ", i, " at ", pg::str(p), " is outside the brush"));
        }
        if (ga > 1 && w.size() >= 3) {
            pg::V a{};
            for (size_t k = 1; k + 1 < w.size(); ++k)
                a = a + pg::cross(w[k] - w[0], w[k + 1] - w[0]);
            // clockwise seen from outside, as everywhere in the tools
            if (pg::dot(a, b.pl[i].n) > 0)
                c.fail("winding", cat("side ", i, " runs the wrong way"));
        }
    }
    c.nt(some >= 4 && cuts);
}

// ---- load_json: the file's values, wherever they are ------------------------------------------
static nlohmann::json value(Case &c, int depth)
{
    auto &s = c.s;
    int k = (int)s.draw(depth > 0 ? 8 : 5);
    switch (k) {
        case 0: return s.b();
        case 1: return (int64_t)s.i32();
        case 2: return s.f(-1e6, 1e6);
        case 3: {
            std::string t;
            int n = (int)s.draw(8);
            for (int i = 0; i < n; ++i)
                t += s.chance(1, 6) ? s.pick<const char *>({"\n", "\"", "\\", "\xc3\xa9", "\t"}) : std::string(1, (char)s.i(32, 126));
            return t;
        }
        case 4: return (uint64_t)s.draw(1ull << 50);
        case 5: case 6: {
            nlohmann::json o = nlohmann::json::object();
            int n = (int)s.draw(4);
            for (int i = 0; i < n; ++i)
                o[s.pick<const char *>({"a", "b", "a key", "1", "\"", ""})] = value(c, depth - 1);
            return o;
        }
        default: {
            nlohmann::json a = nlohmann::json::array();
            int n = (int)s.draw(5);
            for (int i = 0; i < n; ++i)
                a.push_back(value(c, depth - 1));
            return a;
        }
    }
}
static void walk(const nlohmann::json &v, const std::string &at, std::string &lua, std::string &want, int &n)
{
    ++n;
    if (v.is_object() || v.is_array()) {
        lua += "o(type(" + at + ")) local c = 0 for _ in pairs(" + at + ") do c = c + 1 end o(c)\n";
        want += cat("table\n", v.size(), "\n");
        lua += "do\n";
        if (v.is_object())
            for (auto it = v.begin(); it != v.end(); ++it)
                walk(it.value(), at + "[" + lq(it.key()) + "]", lua, want, n);
        else
            for (size_t i = 0; i < v.size(); ++i)
                walk(v[i], cat(at, "[", i + 1, "]"), lua, want, n);
        lua += "end\n";
    } else if (v.is_string()) {
        lua += "o(type(" + at + ")) o(" + at + ")\n";
        want += "string\n" + v.get<std::string>() + "\n";
    } else if (v.is_boolean()) {
        lua += "o(tostring(" + at + "))\n";
        want += v.get<bool>() ? "true\n" : "false\n";
    } else {
        lua += "o(string.format('%.17g', " + at + "))\n";
        want += num(v.get<double>()) + "\n";
    }
}
static void jsons(Case &c)
{
    auto j = value(c, 4);
    if (!j.is_object() && !j.is_array())
        j = nlohmann::json::array({j});
    auto base = c.scratch + "/j";
    std::string t = c.s.b() ? j.dump() : j.dump(2);
    spew(base + ".json", t);
    spew(base + ".map", "{\n\"classname\" \"worldspawn\"\n}\n");
    std::string lua = cat("local f = io.open(", lq(base + ".txt"), ", 'wb')\nlocal function o(x) f:write(tostring(x), '\\n') end\nlocal j = load_json(", lq(base + ".json"), ")\n"), want;
    int n = 0;
    walk(j, "j", lua, want, n);
    int bad = (int)c.s.draw(4); // damaged and missing files are errors a script can catch
    if (bad == 1)
        spew(base + "2.json", t.substr(0, t.size() - 1));
    if (bad)
        lua += "o(pcall(load_json, " + lq(base + (bad == 1 ? "2.json" : "3.json")) + ") == true)\n", want += "false\n";
    lua += "f:close()\n";
    spew(base + ".lua", lua);
    c.nt(n > 4);
    c.describe(t.substr(0, 300));
    auto out = tool(c, {base + ".map", "--script", base + ".lua", "--save", base + ".out"});
    c.require(std::filesystem::exists(base + ".txt"), "missing", out.substr(0, 500));
    same_text(c, "json", slurp(base + ".txt"), want, "load_json");
}

VH_MAIN("C33", "the map has brushes and was changed / a side is cut and four have an area / more than four values",
    (std::vector<std::string>{"brush primitive (brushDef) maps are outside: the tools refuse to read them", "conversions are compared with the library's, which C09 judges"}),
    vh::Sub{"session", session, 20000, 400000}, vh::Sub{"winding", winding, 8000, 200000}, vh::Sub{"json", jsons, 6000, 200000})
