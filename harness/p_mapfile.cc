// C08: .map files
#include "mapmodel.hh"
#include <common/mapfile.hh>
#include <common/log.hh>
using vh::Case;
using namespace mm;

static map_file_t parse(const std::string &t)
{
    map_file_t m;
    parser_t p(t, {"test.map"});
    m.parse(p);
    return m;
}
static std::string text(map_file_t &m)
{
    std::ostringstream o;
    m.write(o);
    return o.str();
}
static std::array<double, 2> arr(const qvec2d &v) { return {v[0], v[1]}; }

static void compare(Case &c, const map_file_t &g, const Map &m)
{
    c.require(g.entities.size() == m.ents.size(), "entities", vh::cat(g.entities.size(), " entities, want ", m.ents.size()));
    for (size_t e = 0; e < m.ents.size(); ++e) {
        auto &ge = g.entities[e];
        auto &me = m.ents[e];
        std::vector<std::pair<std::string, std::string>> kv;
        for (auto &p : ge.epairs)
            kv.push_back({p.first, p.second});
        c.require(kv == me.kv, "pairs", vh::cat("entity ", e, ": pairs differ"));
        std::vector<const Brush *> want;
        for (auto &b : me.brushes)
            for (auto &s : b.sides)
                if (s.kept) {
                    want.push_back(&b);
                    break;
                }
        c.require(ge.brushes.size() == want.size(), "brushes", vh::cat("entity ", e, ": ", ge.brushes.size(), " brushes, want ", want.size()));
        for (size_t b = 0; b < want.size(); ++b) {
            std::vector<const Side *> ws;
            for (auto &s : want[b]->sides)
                if (s.kept)
                    ws.push_back(&s);
            auto &gb = ge.brushes[b];
            auto id = vh::cat("entity ", e, " brush ", b, ": ");
            c.require(gb.base_format == texcoord_style_t::quaked, "format", id + "base format");
            c.require(gb.faces.size() == ws.size(), "faces", vh::cat(id, gb.faces.size(), " faces, want ", ws.size()));
            for (size_t f = 0; f < ws.size(); ++f) {
                auto &gf = gb.faces[f];
                auto &w = *ws[f];
                auto fid = vh::cat(id, "face ", f, ": ");
                for (int i = 0; i < 3; ++i)
                    for (int k = 0; k < 3; ++k)
                        c.require(gf.planepts[i][k] == w.p[i][k], "points", vh::cat(fid, "point ", i, " is ", gf.planepts[i][k], " on axis ", k, ", want ", w.p[i][k]));
                for (int k = 0; k < 3; ++k)
                    c.require(std::fabs(gf.plane.normal[k] - w.n[k]) < 1e-9, "normal", vh::cat(fid, "normal[", k, "] is ", gf.plane.normal[k], ", want ", w.n[k]));
                c.require(std::fabs(gf.plane.dist - w.dist) < 1e-6, "dist", vh::cat(fid, "dist is ", gf.plane.dist, ", want ", w.dist));
                c.require(gf.texture == w.tex, "texture", vh::cat(fid, "texture '", gf.texture, "', want '", w.tex, "'"));
                c.require(gf.location.line_number.has_value() && *gf.location.line_number == w.line, "line", vh::cat(fid, "on line ", gf.location.line_number.value_or(0), ", want ", w.line));
                const texdef_quake_ed_t *q = nullptr;
                if (w.style == QUAKED) {
                    c.require(std::holds_alternative<texdef_quake_ed_t>(gf.raw), "style", fid + "not the standard format");
                    q = &std::get<texdef_quake_ed_t>(gf.raw);
                } else if (w.style == VALVE) {
                    c.require(std::holds_alternative<texdef_valve_t>(gf.raw), "style", fid + "not Valve 220");
                    auto &v = std::get<texdef_valve_t>(gf.raw);
                    q = &v;
                    for (int i = 0; i < 2; ++i)
                        for (int k = 0; k < 3; ++k)
                            c.require(v.axis.at(i, k) == w.axis[i][k], "axis", vh::cat(fid, "axis ", i, k, " is ", v.axis.at(i, k), ", want ", w.axis[i][k]));
                } else {
                    c.require(std::holds_alternative<texdef_etp_t>(gf.raw), "style", fid + "not QuArK");
                    auto &v = std::get<texdef_etp_t>(gf.raw);
                    q = &v;
                    c.require(v.tx2 == w.tx2, "tx", fid + "QuArK type");
                }
                for (int i = 0; i < 2; ++i) {
                    c.require(q->shift[i] == w.shift[i], "shift", vh::cat(fid, "shift ", i, " is ", q->shift[i], ", want ", w.shift[i]));
                    c.require(q->scale[i] == w.scale[i], "scale", vh::cat(fid, "scale ", i, " is ", q->scale[i], ", want ", w.scale[i]));
                }
                c.require(q->rotate == w.rot, "rotate", vh::cat(fid, "rotation ", q->rotate, ", want ", w.rot));
                c.require(gf.extended_info.has_value() == (w.next > 0), "ext", vh::cat(fid, "has ", gf.extended_info ? "" : "no ", "surface values, want ", w.next));
                if (w.next) {
                    int32_t got[3] = {gf.extended_info->contents, gf.extended_info->flags.native, gf.extended_info->value};
                    for (int i = 0; i < 3; ++i)
                        c.require(got[i] == (i < w.next ? w.ext[i] : 0), "ext-value", vh::cat(fid, "surface value ", i, " is ", got[i], ", want ", i < w.next ? w.ext[i] : 0));
                }
                for (int i = 0; i < 2; ++i)
                    for (int k = 0; k < 4; ++k) {
                        double want1 = (double)w.vecs.v[i][k], gv = gf.vecs.at(i, k), tol = 2e-6 * (1 + std::fabs(want1)) + (w.style == ETP ? 1e-5 * (1 + std::fabs(want1)) : 0);
                        double r = std::rint(want1);
                        bool ok = std::fabs(gv - want1) <= tol || (gv == std::rint(gv) && std::fabs(gv - want1) <= 1.01e-4 + tol);
                        if (std::fabs(want1 - r) < 0.9e-4 - tol)
                            ok = gv == r;
                        c.require(ok, w.valid ? "vecs" : "vecs-repaired", vh::cat(fid, "texture vector [", i, "][", k, "] is ", gv, ", want ", want1, w.valid ? "" : " (repaired)"));
                    }
            }
        }
    }
}
static bool same(const brush_side_t &a, const brush_side_t &b, std::string &why)
{
    auto chk = [&](bool ok, const char *w) {
        if (!ok && why.empty())
            why = w;
    };
    chk(a.texture == b.texture, "texture");
    chk(a.planepts == b.planepts, "points");
    chk(a.raw.index() == b.raw.index(), "style");
    if (!why.empty())
        return false;
    std::visit(
        [&](auto &x) {
            using T = std::decay_t<decltype(x)>;
            auto &y = std::get<T>(b.raw);
            if constexpr (!std::is_same_v<T, texdef_bp_t>) {
                chk(arr(x.shift) == arr(y.shift) && arr(x.scale) == arr(y.scale) && x.rotate == y.rotate, "texture definition");
                if constexpr (std::is_same_v<T, texdef_etp_t>)
                    chk(x.tx2 == y.tx2, "QuArK type");
                if constexpr (std::is_same_v<T, texdef_valve_t>)
                    for (int i = 0; i < 2; ++i)
                        for (int k = 0; k < 3; ++k)
                            chk(x.axis.at(i, k) == y.axis.at(i, k), "axes");
            }
        },
        a.raw);
    chk(a.extended_info.has_value() == b.extended_info.has_value(), "surface values");
    if (a.extended_info && b.extended_info)
        chk(a.extended_info->contents == b.extended_info->contents && a.extended_info->flags.native == b.extended_info->flags.native && a.extended_info->value == b.extended_info->value, "surface values");
    chk(a.plane == b.plane, "plane");
    for (int i = 0; i < 2; ++i)
        for (int k = 0; k < 4; ++k)
            chk(a.vecs.at(i, k) == b.vecs.at(i, k), "texture vectors");
    return why.empty();
}

static void roundtrip(Case &c)
{
    Map m = gen(c);
    size_t nb = 0, ns = 0, dropped = 0, bad = 0;
    for (auto &e : m.ents) {
        nb += e.brushes.size();
        for (auto &b : e.brushes)
            for (auto &s : b.sides) {
                ++ns;
                dropped += !s.kept;
                bad += s.kept && !s.valid;
            }
    }
    if (dropped)
        c.label("dropped face");
    if (bad)
        c.label("repaired projection");
    c.nt(nb > 1 && ns > 4);
    c.describe(vh::cat(m.ents.size(), " entities, ", nb, " brushes, ", ns, " sides"));
    if (m.text.size() < 500)
        c.describe(m.text);
    auto g = parse(m.text);
    compare(c, g, m);
    auto w = text(g);
    map_file_t h;
    try {
        h = parse(w);
    } catch (const std::exception &e) {
        c.fail("write-parse", vh::cat("written text was refused: ", e.what()));
    }
    c.require(h.entities.size() == g.entities.size(), "write-entities", "number of entities");
    for (size_t e = 0; e < g.entities.size(); ++e) {
        auto &a = g.entities[e], &b = h.entities[e];
        c.require(std::equal(a.epairs.begin(), a.epairs.end(), b.epairs.begin(), b.epairs.end()), "write-pairs", "pairs differ after writing");
        c.require(a.brushes.size() == b.brushes.size(), "write-brushes", "number of brushes after writing");
        for (size_t i = 0; i < a.brushes.size(); ++i) {
            auto &x = a.brushes[i], &y = b.brushes[i];
            c.require(x.faces.size() == y.faces.size(), "write-faces", "number of faces after writing");
            for (size_t f = 0; f < x.faces.size(); ++f) {
                std::string why;
                c.require(same(x.faces[f], y.faces[f], why), "write-face", vh::cat("entity ", e, " brush ", i, " face ", f, ": ", why, " changed by writing"));
            }
        }
    }
    c.require(text(h) == w, "write-stable", "writing is not a fixed point");
}

// text that is not a map is refused
static void refuse(Case &c)
{
    Map m = gen(c);
    std::string t = m.text, what;
    int kind = (int)c.s.draw(6);
    if (m.bodies.empty())
        throw vh::Discard{};
    auto body = m.bodies[c.s.draw(m.bodies.size())];
    if (kind == 0) { // ends inside an entity
        size_t at = body.first + c.s.draw(body.second - body.first + 1);
        t = t.substr(0, at);
        what = "cut inside an entity";
    } else {
        // damage one face line: must find one
        std::vector<size_t> lines;
        size_t p = 0;
        while ((p = t.find("\n( ", p)) != std::string::npos)
            lines.push_back(++p);
        if (lines.empty())
            throw vh::Discard{};
        size_t a = lines[c.s.draw(lines.size())], z = t.find('\n', a);
        // the point part of the line
        size_t pts = t.substr(a, z - a).rfind(")");
        if (pts == std::string::npos)
            throw vh::Discard{};
        std::string l = t.substr(a, z - a);
        if (kind == 1) { // brackets
            std::vector<size_t> br;
            size_t q = 0;
            int closes = 0;
            for (; q < l.size() && closes < 3; ++q)
                if ((l[q] == '(' || l[q] == ')') && (!q || (unsigned char)l[q - 1] <= 32) && q + 1 < l.size() + 1 && (q + 1 == l.size() || (unsigned char)l[q + 1] <= 32)) {
                    if (q)
                        br.push_back(q);
                    closes += l[q] == ')';
                }
            if (br.empty())
                throw vh::Discard{};
            l[br[c.s.draw(br.size())]] = 'x';
            what = "missing bracket";
        } else if (kind == 2) { // not a number
            size_t q = l.find_first_of("0123456789");
            if (q == std::string::npos)
                throw vh::Discard{};
            size_t b0 = q;
            while (b0 && (unsigned char)l[b0 - 1] > 32)
                --b0;
            size_t e0 = q;
            while (e0 < l.size() && (unsigned char)l[e0] > 32)
                ++e0;
            l = l.substr(0, b0) + c.s.pick<std::string>({"abc", "(", ")", "x1", "-", "."}) + l.substr(e0);
            what = "not a number";
        } else if (kind == 3) { // line ends after the points
            l = l.substr(0, 1) + " 0 0 0 ) ( 0 1 0 ) ( 1 0 0 )" + c.s.pick<std::string>({"", " tex", " tex 0", " tex 0 0 0 1", " tex [ 1 0 0", " tex [ 1 0 0 0 ] [ 0 1 0 0 ] 0 1", " tex // 0 0 0 1 1"});
            what = "incomplete face";
        } else if (kind == 4) { // missing valve bracket
            l = "( 0 0 0 ) ( 0 1 0 ) ( 1 0 0 ) tex " + c.s.pick<std::string>({"[ 1 0 0 0 [ 0 1 0 0 ] 0 1 1", "[ 1 0 0 0 ] 0 1 0 0 ] 0 1 1", "[ 1 0 0 0 ] [ 0 1 0 0 0 1 1", "[ 1 0 0 0 0 ] [ 0 1 0 0 ] 0 1 1"});
            what = "bad Valve 220 brackets";
        } else {
            t = t + c.s.pick<std::string>({"x", "\"key\" \"value\"", "}", "( 0 0 0 )"}) + "\n";
            what = "text outside entities";
            l.clear();
        }
        if (!l.empty())
            t = t.substr(0, a) + l + t.substr(z);
    }
    c.nt(true);
    c.label(what);
    c.describe(what);
    if (t.size() < 500)
        c.describe(t);
    try {
        parse(t);
    } catch (const std::exception &) {
        return;
    }
    c.fail("accepted", "a damaged map was accepted: " + what);
}

VH_MAIN("C08", "at least two brushes and five sides / every damaged map",
    (std::vector<std::string>{"brush primitive (brushDef) maps are outside: the tools refuse them ('todo BP')", "planes or projections within a factor of a few of the tools' tolerances are not judged"}),
    vh::Sub{"roundtrip", roundtrip, 40000, 1500000}, vh::Sub{"refuse", refuse, 30000, 1000000, false, 60, true})
