// C16: what contents and surface flags mean
#include "vh.hh"
#include <common/bspfile.hh>
#include <common/log.hh>
using vh::Case;
using vh::Src;
typedef contentflags_t CF;
typedef uint64_t U;

static const gamedef_t *Q1() { return bspver_q1.game; }
static const gamedef_t *H2() { return bspver_h2.game; }
static const gamedef_t *HL() { return bspver_hl.game; }
static const gamedef_t *Q2() { return bspver_q2.game; }

static const char *BITS[] = {"SOLID", "SKY", "DETAIL_WALL", "WINDOW", "AUX", "LAVA", "SLIME", "WATER", "MIST", "ORIGIN", "PLAYERCLIP", "MONSTERCLIP", "AREAPORTAL",
    "ILLUSIONARY_VISBLOCKER", "DETAIL", "MIRROR_INSIDE", "MIRROR_INSIDE_SET", "SUPPRESS_CLIPPING_SAME_TYPE", "CURRENT_0", "CURRENT_90", "CURRENT_180", "CURRENT_270",
    "CURRENT_UP", "CURRENT_DOWN", "TRANSLUCENT", "LADDER", "MONSTER", "DEADMONSTER"};
enum : U
{
    SOLID = 1, SKY = 2, WALL = 4, WINDOW = 8, AUX = 16, LAVA = 32, SLIME = 64, WATER = 128, MIST = 256, ORIGIN = 512, PCLIP = 1024, MCLIP = 2048, AREAP = 4096, VISB = 8192,
    DETAIL = 1 << 14, MIRROR = 1 << 15, MIRROR_SET = 1 << 16, NOCLIPSAME = 1 << 17, TRANS = 1 << 24, LADDER = 1 << 25
};
static const U VIS = 511, LIQ = LAVA | SLIME | WATER, INVIS = ORIGIN | PCLIP | MCLIP | AREAP | VISB;

static std::string name(U f)
{
    std::string r;
    for (int i = 0; i < 38; ++i)
        if (f >> i & 1)
            r += (r.empty() ? "" : "|") + (i < 28 ? std::string(BITS[i]) : vh::cat("BIT", i));
    return r.empty() ? "EMPTY" : r;
}
static U gen(Src &s)
{
    U r = 0;
    int n = (int)s.draw(4);
    for (int i = 0; i < n; ++i)
        r |= 1ull << (s.chance(3, 4) ? s.draw(18) : s.draw(38));
    if (s.chance(1, 3))
        r |= 1ull << s.draw(9);
    if (s.chance(1, 4))
        r |= DETAIL;
    if (s.chance(1, 6))
        r |= TRANS;
    return r;
}
static int strongest(U f)
{
    for (int i = 0; i < 9; ++i)
        if (f >> i & 1)
            return i;
    return -1;
}

// ---- conversions ---------------------------------------------------------------------
// native Quake II bit of each of ours
static const std::pair<U, uint32_t> NATIVE[] = {{SOLID, 1}, {WINDOW, 2}, {AUX, 4}, {LAVA, 8}, {SLIME, 16}, {WATER, 32}, {MIST, 64}, {AREAP, 1u << 15}, {PCLIP, 1u << 16},
    {MCLIP, 1u << 17}, {1ull << 18, 1u << 18}, {1ull << 19, 1u << 19}, {1ull << 20, 1u << 20}, {1ull << 21, 1u << 21}, {1ull << 22, 1u << 22}, {1ull << 23, 1u << 23},
    {ORIGIN, 1u << 24}, {1ull << 26, 1u << 25}, {1ull << 27, 1u << 26}, {DETAIL, 1u << 27}, {TRANS, 1u << 28}, {LADDER, 1u << 29}};
static void native(Case &c)
{
    Src &s = c.s;
    uint32_t n = (uint32_t)s.draw(1ull << 32);
    if (s.b())
        n = (1u << s.draw(32)) | (s.b() ? 1u << s.draw(32) : 0) | (s.b() ? 1u << s.draw(32) : 0);
    c.describe(vh::cat("native ", n));
    CF f = Q2()->create_contents_from_native((int32_t)n);
    c.require((uint32_t)Q2()->contents_to_native(f) == n, "native", vh::cat("Quake II contents ", n, " come back as ", (uint32_t)Q2()->contents_to_native(f)));
    for (auto &[ours, theirs] : NATIVE)
        c.require(!!(f.flags & ours) == !!(n & theirs), "native", vh::cat("Quake II contents ", n, " become ", name(f.flags)));
    c.require(!(f.flags & (SKY | WALL | VISB | MIRROR | MIRROR_SET | NOCLIPSAME)), "native", vh::cat("Quake II contents ", n, " become ", name(f.flags)));
    // flags of ours that Quake II files have no room for are left out of them
    CF more = CF::make(f.flags | (s.draw(8) << 15));
    c.require((uint32_t)Q2()->contents_to_native(more) == n, "native", vh::cat(name(more.flags), " becomes ", (uint32_t)Q2()->contents_to_native(more)));
    bool refused = false;
    U bad = s.pick<U>({SKY, WALL});
    try {
        Q2()->contents_to_native(CF::make(f.flags | bad));
    } catch (std::invalid_argument &) {
        refused = true;
    }
    c.require(refused, "native", vh::cat(name(f.flags | bad), " has a Quake II form"));
    // Quake
    static const std::pair<int, U> Q[] = {{-1, 0}, {-2, SOLID}, {-3, WATER}, {-4, SLIME}, {-5, LAVA}, {-6, SKY}};
    for (auto *g : {Q1(), H2(), HL()}) {
        int v = (int)s.ito(-12, 4, -1);
        const U *want = nullptr;
        for (auto &q : Q)
            if (q.first == v)
                want = &q.second;
        refused = false;
        CF r{};
        try {
            r = g->create_contents_from_native(v);
        } catch (std::invalid_argument &) {
            refused = true;
        }
        c.require(refused == !want, "native", vh::cat("Quake contents ", v, refused ? " are refused" : " are accepted"));
        if (want)
            c.require(r.flags == *want && g->contents_to_native(r) == v, "native", vh::cat("Quake contents ", v, " become ", name(r.flags), " and ", g->contents_to_native(r)));
        U x = gen(s);
        int out = 0;
        refused = false;
        try {
            out = g->contents_to_native(CF::make(x));
        } catch (std::invalid_argument &) {
            refused = true;
        }
        int st = strongest(x);
        static const int out_of[] = {-2, -6, 0, 0, 0, -5, -4, -3, 0};
        int w = st < 0 ? -1 : out_of[st];
        c.require(refused == !w && (refused || out == w), "native", vh::cat(name(x), " becomes Quake contents ", refused ? "(refused)" : vh::cat(out)));
    }
    // names
    static const char *CN[] = {"SOLID", "WINDOW", "AUX", "LAVA", "SLIME", "WATER", "MIST", nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, "AREAPORTAL", "PLAYERCLIP",
        "MONSTERCLIP", "CURRENT_0", "CURRENT_90", "CURRENT_180", "CURRENT_270", "CURRENT_UP", "CURRENT_DOWN", "ORIGIN", "MONSTER", "DEADMONSTER", "DETAIL", "TRANSLUCENT", "LADDER", nullptr, nullptr};
    static const char *SN[] = {"LIGHT", "SLICK", "SKY", "WARP", "TRANS33", "TRANS66", "FLOWING", "NODRAW", "HINT"};
    int k = (int)s.draw(32);
    std::string nm = CN[k] ? CN[k] : vh::cat(1u << k);
    for (auto &ch : nm)
        if (s.b())
            ch = (char)tolower(ch);
    c.require((uint32_t)Q2()->contents_from_string(nm) == 1u << k, "names", vh::cat("contents named ", nm, " are ", Q2()->contents_from_string(nm)));
    c.require(Q2()->contents_from_string(nm + "x") == 0 && Q1()->contents_from_string(nm) == 0, "names", vh::cat("contents named ", nm, "x"));
    k = (int)s.draw(26);
    nm = k < 9 ? SN[k] : k == 25 ? "alphatest" : vh::cat(1u << k);
    for (auto &ch : nm)
        if (s.b())
            ch = (char)tolower(ch);
    c.require((uint32_t)Q2()->surfflags_from_string(nm) == 1u << k, "names", vh::cat("the surface flag named ", nm, " is ", Q2()->surfflags_from_string(nm)));
    c.require(Q2()->surfflags_from_string(nm + "x") == 0 && Q1()->surfflags_from_string(nm) == 0 && Q1()->surfflags_from_string("Special") == 1, "names", "surface flags");
    U x = gen(s) & ((1ull << 28) - 1);
    std::string want;
    for (int i = 0; i < 28; ++i)
        if (x >> i & 1)
            want += (want.empty() ? "" : " | ") + std::string(BITS[i]);
    if (!x)
        want = "EMPTY";
    for (auto *g : {Q1(), Q2()})
        c.require(CF::make(x).to_string(g) == want, "display", vh::cat(name(x), " is shown as ", CF::make(x).to_string(g)));
    c.nt(__builtin_popcount(n) > 1);
}

// ---- algebra -------------------------------------------------------------------------
static void algebra(Case &c)
{
    Src &s = c.s;
    U x = gen(s), y = s.chance(1, 6) ? x : gen(s), z = gen(s);
    c.describe(vh::cat(name(x), " and ", name(y)));
    CF a = CF::make(x), b = CF::make(y), d = CF::make(z);
    const gamedef_t *g = s.pick<const gamedef_t *>({Q1(), Q2(), H2(), HL()});
    bool q2 = g == Q2();
    auto says = [&](bool got, bool want, const char *what) {
        c.require(got == want, "is", vh::cat(q2 ? "Quake II: " : "Quake: ", name(x), want ? " is not " : " is ", what));
    };
    bool det = x & DETAIL, sol = x & SOLID;
    says(a.is_any_detail(g), det, "detail");
    says(a.is_any_solid(g), sol, "any solid");
    says(a.is_solid(g), sol && !det, "structural solid");
    says(a.is_detail_solid(g), sol && det, "detail solid");
    says(a.is_detail_wall(g), det && (x & WALL) && !(q2 && sol), "detail wall");
    says(a.is_detail_fence(g), det && (x & WINDOW) && !(q2 && sol), "detail fence");
    says(a.is_detail_illusionary(g), det && (x & (q2 ? MIST | AUX : MIST)) && !(q2 && sol), "detail illusionary");
    says(a.is_fence(g), a.is_detail_fence(g) || a.is_detail_illusionary(g), "fence");
    says(a.is_sky(g), !q2 && (x & SKY), "sky");
    says(a.is_origin(g), x & ORIGIN, "origin");
    says(a.is_clip(g), x & (q2 ? PCLIP | MCLIP : (U)PCLIP), "clip");
    says(a.is_empty(g), !(x & (q2 ? VIS | INVIS : VIS | ORIGIN | PCLIP)), "empty");
    bool liquid = q2 ? (x & (LIQ | AREAP)) != 0 : strongest(x) >= 5 && strongest(x) <= 7;
    says(a.is_liquid(g), liquid, "liquid");
    says(g->contents_seals_map(a), (sol && !det) || (!q2 && (x & SKY)), "sealing");
    int st = strongest(x);
    bool tw = s.b();
    bool opaque = q2 ? st >= 0 && !(x & TRANS) : st == 0 || st == 1 || st == 2 || (!tw && st >= 5 && st <= 7);
    says(g->contents_are_opaque(a, tw), opaque, tw ? "opaque (transwater)" : "opaque");
    says(a.is_valid(g, false), true, "valid");
    says(a.is_valid(g, true), !q2 || (x & VIS), "strictly valid");
    auto valid = a;
    valid.make_valid(g);
    says(valid.flags == x, true, "left alone when made valid");
    says(a.visible_contents_index() == st && a.visible_contents().flags == (st < 0 ? 0 : 1ull << st), true, "shown by its strongest visible contents");
    c.require(a.equals(g, b) == (x == y) && g->contents_are_equal(a, b) == (x == y), "equal", "equals");
    c.require(a.types_equal(b, g) == (q2 ? (x & (VIS | INVIS)) == (y & (VIS | INVIS)) : x == y), "equal", "types_equal");
    bool clips = (q2 ? (x & VIS) == (y & VIS) : x == y) && !(x & NOCLIPSAME);
    c.require(a.will_clip_same_type(g, b) == clips && g->contents_clip_same_type(a, b) == clips, "clipsame", vh::cat(name(x), clips ? " does not clip " : " clips ", name(y)));
    c.require(a.will_clip_same_type(g) == !(x & NOCLIPSAME), "clipsame", vh::cat(name(x), " clipping itself"));
    // made contents
    auto made = [&](CF got, U want, const char *what) { c.require(got.flags == want, "make", vh::cat(what, " of ", name(x), " is ", name(got.flags))); };
    made(g->create_empty_contents(), 0, "empty contents");
    made(g->create_solid_contents(), SOLID, "solid contents");
    made(g->clear_detail(a), x & ~DETAIL, "clear_detail");
    made(g->set_detail(a), x | DETAIL, "set_detail");
    made(g->create_detail_solid_contents(a), q2 ? x | SOLID | DETAIL : SOLID | DETAIL, "detail solid");
    made(g->create_detail_wall_contents(a), q2 ? (x & ~SOLID) | WALL | DETAIL : WALL | DETAIL, "detail wall");
    made(g->create_detail_fence_contents(a), q2 ? (x & ~SOLID) | WINDOW | DETAIL | TRANS : WINDOW | DETAIL, "detail fence");
    made(g->create_detail_illusionary_contents(a), q2 ? (x & ~SOLID) | MIST | DETAIL : MIST | DETAIL, "detail illusionary");
    for (std::optional<bool> m : {std::optional<bool>(), std::optional<bool>(true), std::optional<bool>(false)}) {
        CF q = a;
        q.set_mirrored(m);
        c.require(q.mirror_inside() == m && (q.flags & ~(MIRROR | MIRROR_SET)) == (x & ~(MIRROR | MIRROR_SET)), "mirror", "set_mirrored");
        CF r = CF::make(x & ~NOCLIPSAME);
        r.set_clips_same_type(m);
        c.require(r.flags == ((x & ~NOCLIPSAME) | (m && !*m ? NOCLIPSAME : 0)) && r.clips_same_type() == (m && !*m ? m : std::nullopt), "mirror", "set_clips_same_type");
    }
    // two brushes in one place
    bool ss = a.is_solid(g) || b.is_solid(g);
    U want = ss ? (U)SOLID : !q2 && ((x | y) & SKY) ? (U)SKY : x | y;
    CF ab = g->combine_contents(a, b);
    c.require(ab.flags == want, "combine", vh::cat("combined they are ", name(ab.flags)));
    c.require(g->combine_contents(b, a).flags == want, "combine", "the order matters");
    // with detail solid made structural by nothing, combining is associative
    c.require(g->combine_contents(ab, d).flags == g->combine_contents(a, g->combine_contents(b, d)).flags ||
                  (((x | y | z) & SOLID) && ((x | y | z) & DETAIL)),
        "combine", vh::cat("with ", name(z), ", grouping matters"));
    // two leafs in one cluster
    want = (x | y) & ~(x & y & SOLID ? 0 : (U)SOLID);
    c.require(g->cluster_contents(a, b).flags == want && g->cluster_contents(b, a).flags == want, "cluster", vh::cat("clustered they are ", name(g->cluster_contents(a, b).flags)));
    // sight between neighbours
    bool see;
    auto clear = [&](U f) { return q2 ? f & (TRANS | DETAIL) : (f & DETAIL) || (tw && (f & LIQ)); };
    U ex = clear(x) ? 0 : x & VIS, ey = clear(y) ? 0 : y & VIS;
    see = !((x | y) & SOLID) && ((x & VIS) == (y & VIS) || ex == ey);
    c.require(g->portal_can_see_through(a, b, tw) == see, "see", vh::cat(q2 ? "Quake II: " : "Quake: ", see ? "one cannot see between " : "one can see between ", name(x), " and ", name(y), tw ? " with" : " without", " transwater"));
    c.require(g->portal_can_see_through(b, a, tw) == see, "see", "sight has a direction");
    // faces between neighbours
    U diff = ((x | y) & NOCLIPSAME) ? x | y : x ^ y;
    U shown = strongest(diff) < 0 ? 0 : 1ull << strongest(diff);
    if (!q2 && (x & (SOLID | SKY)) && (y & (SOLID | SKY)))
        shown = 0;
    CF pv = g->portal_visible_contents(a, b);
    c.require(pv.flags == shown && g->portal_visible_contents(b, a).flags == shown, "portal", vh::cat("between them ", name(pv.flags), " shows"));
    for (auto side : {SIDE_FRONT, SIDE_BACK}) {
        bool face = shown && (z & shown);
        if (face && side == SIDE_BACK) {
            if (z & MIRROR_SET)
                face = z & MIRROR;
            else
                face = q2 ? !(shown & (WINDOW | AUX)) : (z & LIQ) != 0;
        }
        c.require(g->portal_generates_face(pv, d, side) == face, "portal", vh::cat("a brush of ", name(z), face ? " has no face on its " : " has a face on its ", side == SIDE_FRONT ? "front" : "back", " where ", name(shown), " shows"));
    }
    c.nt(x != y && (x & VIS) && (y & VIS));
    // export
    for (auto t : {gamedef_t::remap_type_t::brush, gamedef_t::remap_type_t::leaf}) {
        U r = x;
        if (q2)
            r = (x & WALL) ? (U)SOLID : t == gamedef_t::remap_type_t::leaf && (x & SOLID) ? (U)SOLID : x;
        else if (a.is_detail_fence(g) || a.is_detail_wall(g))
            r = SOLID;
        else
            r = x & ~MIST;
        c.require(g->contents_remap_for_export(a, t).flags == r, "export", vh::cat(name(x), " is exported as ", name(g->contents_remap_for_export(a, t).flags)));
    }
}

// ---- what a map's brushes mean ---------------------------------------------------------
static void faces(Case &c)
{
    Src &s = c.s;
    static const char *stems[] = {"origin", "hint", "hintskip", "clip", "*lava", "*slime", "*water", "*teleport", "*", "sky", "wall", "lava", "skip", "trigger", "skin", "sk", "clipper", "*lav", "hint2", "", "aa/trigger", "e1/skip"};
    std::string t = stems[s.draw(std::size(stems))];
    bool suffix = s.chance(1, 3);
    if (suffix)
        t += s.pick<const char *>({"1", "x", "_2", "B"});
    std::string l = t;
    for (auto &ch : t)
        if (s.chance(1, 3))
            ch = (char)toupper(ch);
    for (auto &ch : l)
        ch = (char)tolower(ch);
    surfflags_t f{};
    f.native = (int32_t)(s.b() ? s.draw(1 << 10) : (1u << s.draw(26)));
    uint32_t nat = (uint32_t)f.native;
    CF given = CF::make(gen(s) & ~(SKY | WALL | VISB));
    c.describe(vh::cat("texture '", t, "' flags ", nat, " contents ", name(given.flags)));
    for (auto *g : {Q1(), H2(), HL()}) {
        U want = SOLID;
        auto starts = [&](const char *p) { return l.compare(0, strlen(p), p) == 0; };
        if (l == "origin")
            want = ORIGIN;
        else if (l == "hint" || l == "hintskip")
            want = 0;
        else if (l == "clip")
            want = PCLIP;
        else if (starts("*lava"))
            want = LAVA;
        else if (starts("*slime"))
            want = SLIME;
        else if (starts("*"))
            want = WATER;
        else if (starts("sky"))
            want = SKY;
        c.require(g->face_get_contents(t, f, given).flags == want, "texture", vh::cat("'", t, "' means ", name(g->face_get_contents(t, f, given).flags)));
        bool special = nat & 1;
        for (bool p : {false, true})
            for (bool q : {false, true})
                c.require(g->surf_is_lightmapped(f, t.c_str(), p, q) == (l != "trigger" && l != "skip" && !special), "lit", vh::cat("'", t, "' with flags ", nat));
        c.require(g->surf_is_emissive(f, t.c_str()) == (l != "trigger"), "emissive", vh::cat("'", t, "'"));
        c.require(g->surf_is_subdivided(f) == !special && g->surfflags_are_valid(f) == !(nat & ~1u) && f.is_valid(g) == !(nat & ~1u), "flags", vh::cat("flags ", nat));
        c.require(g->texinfo_is_hintskip(f, t) == (l != "hint"), "hint", vh::cat("'", t, "'"));
    }
    auto *g = Q2();
    U w = given.flags;
    if (nat & (0x100 | 0x200))
        w = 0;
    else {
        if (!(w & (VIS | INVIS)))
            w |= SOLID;
        if (nat & (0x10 | 0x20 | 1u << 25)) {
            w |= TRANS;
            if (w & SOLID)
                w = (w & ~SOLID) | WINDOW;
        }
        if (w & (TRANS | MIST | AUX | PCLIP | MCLIP))
            w |= DETAIL;
    }
    CF got = g->face_get_contents(t, f, given);
    c.require(got.flags == w, "texture", vh::cat("they mean ", name(got.flags), ", not ", name(w)));
    for (bool p : {false, true})
        for (bool q : {false, true}) {
            bool lit = !(nat & (0x80 | 0x200));
            if (q && (nat & 4))
                lit = false;
            if (p && (nat & 0x80))
                lit = true;
            if (t.size() >= 8 && t.substr(t.size() - 8) == "/trigger")
                lit = false;
            c.require(g->surf_is_lightmapped(f, t.c_str(), p, q) == lit, "lit", vh::cat("Quake II: '", t, "' with flags ", nat, p ? " light_nodraw" : "", q ? " lightgrid" : "", lit ? " is not lit" : " is lit"));
        }
    c.require(g->surf_is_emissive(f, t.c_str()) && g->surf_is_subdivided(f) == !(nat & 4) && g->surfflags_are_valid(f), "flags", vh::cat("Quake II flags ", nat));
    c.require(g->texinfo_is_hintskip(f, t) == !(nat & 0x100), "hint", "Quake II");
    // phong shading is kept apart by some flags
    surfflags_t h{};
    h.native = f.native ^ (s.chance(1, 4) ? 0 : 1 << s.draw(26));
    uint32_t m = 4 | 8 | 16 | 32 | 64 | 128;
    c.require(g->surfflags_may_phong(f, h) == ((nat & m) == ((uint32_t)h.native & m)), "phong", vh::cat("Quake II flags ", nat, " and ", h.native));
    c.require(Q1()->surfflags_may_phong(f, h) == ((nat & 1) == ((uint32_t)h.native & 1)), "phong", vh::cat("flags ", nat, " and ", h.native));
    c.nt(l != "wall" || (nat & 0x3ff));
    // the tools' own face flags are told apart, ordered and only written when used
    auto setn = [&](surfflags_t &q, int field) {
        switch (field) {
            case 0: q.native ^= 1 << s.draw(20); break;
            case 1: q.is_nodraw = !q.is_nodraw; break;
            case 2: q.is_hint = !q.is_hint; break;
            case 3: q.is_hintskip = !q.is_hintskip; break;
            case 4: q.no_dirt = !q.no_dirt; break;
            case 5: q.no_shadow = !q.no_shadow; break;
            case 6: q.no_bounce = !q.no_bounce; break;
            case 7: q.no_minlight = !q.no_minlight; break;
            case 8: q.no_expand = !q.no_expand; break;
            case 9: q.no_phong = !q.no_phong; break;
            case 10: q.light_ignore = !q.light_ignore; break;
            case 11: q.surflight_rescale = q.surflight_rescale ? std::nullopt : std::optional<bool>(s.b()); break;
            case 12: q.surflight_style = q.surflight_style ? *q.surflight_style + 1 : (int)s.draw(3); break;
            case 13: q.surflight_targetname = q.surflight_targetname.value_or("a") + "b"; break;
            case 14: q.surflight_color = q.surflight_color ? std::nullopt : std::optional<qvec3b>(qvec3b((uint8_t)s.draw(3), 0, 0)); break;
            case 15: q.surflight_minlight_scale = q.surflight_minlight_scale.value_or(0) + 0.5f; break;
            case 16: q.phong_angle += 1; break;
            case 17: q.phong_angle_concave += 1; break;
            case 18: q.phong_group += 1; break;
            case 19: q.minlight = q.minlight ? std::nullopt : std::optional<float>((float)s.draw(3)); break;
            case 20: q.minlight_color[s.draw(3)] += 1; break;
            case 21: q.light_alpha = q.light_alpha ? std::nullopt : std::optional<float>((float)s.draw(3)); break;
            case 22: q.light_twosided = q.light_twosided ? std::nullopt : std::optional<bool>(s.b()); break;
            case 23: q.maxlight += 1; break;
            case 24: q.lightcolorscale += 1; break;
            case 25: q.surflight_group += 1; break;
            case 26: q.world_units_per_luxel = q.world_units_per_luxel ? std::nullopt : std::optional<float>((float)s.draw(3)); break;
            default: q.object_channel_mask = q.object_channel_mask ? std::nullopt : std::optional<int>((int)s.draw(3));
        }
    };
    surfflags_t p[3] = {};
    c.require(!p[0].needs_write(), "write", "face flags that are not set need to be written");
    int fa = (int)s.draw(28);
    setn(p[1], fa);
    c.require(p[1].needs_write(), "write", vh::cat("face flag ", fa, " does not need to be written"));
    int n = (int)s.draw(4);
    for (int i = 0; i < n; ++i)
        setn(p[0], (int)s.draw(28));
    p[1] = p[0];
    setn(p[1], fa);
    p[2] = s.b() ? p[0] : p[1];
    setn(p[2], (int)s.draw(28));
    c.require((p[0] < p[1]) != (p[1] < p[0]) && (p[0] > p[1]) == (p[1] < p[0]) && (p[1] > p[0]) == (p[0] < p[1]), "order", vh::cat("faces that differ in flag ", fa, " are not ordered"));
    for (auto &i : p)
        for (auto &j : p)
            for (auto &k : p)
                if (i < j && j < k)
                    c.require(i < k, "order", "the order of face flags is not transitive");
    c.require(!(p[2] < p[2]), "order", "irreflexive");
}

static bool prepared = (logging::mask = bitflags<logging::flag>(), true);
VH_MAIN("C16", "native: two native bits or more; algebra: two different visible contents; faces: a special texture or flag",
    (std::vector<std::string>{"contents are any combination of the bits of one game; grouping is compared for combinations without both solid and detail"}),
    vh::Sub{"native", native, 60000, 3000000}, vh::Sub{"algebra", algebra, 120000, 6000000}, vh::Sub{"faces", faces, 60000, 3000000})
