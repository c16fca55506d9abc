// C13: images, their metadata and the texture cache
#include "vh.hh"
#include "bspmodel.hh"
#include <common/fs.hh>
#include <common/imglib.hh>
#include <common/cmdlib.hh>
#include <common/settings.hh>
#include <common/log.hh>
#include <common/bspfile.hh>
#include <common/entdata.h>
using vh::Case;
using Data = std::vector<uint8_t>;
namespace sf = std::filesystem;

struct Px
{
    uint8_t v[4];
    bool operator==(const Px &o) const { return !memcmp(v, o.v, 4); }
};
struct Img
{
    int w = 0, h = 0;
    std::vector<Px> px;
};
static void p16(Data &d, uint32_t v)
{
    d.push_back((uint8_t)v);
    d.push_back((uint8_t)(v >> 8));
}
static void p32(Data &d, uint32_t v)
{
    p16(d, v);
    p16(d, v >> 16);
}
static void be32(Data &d, uint32_t v)
{
    for (int i = 3; i >= 0; --i)
        d.push_back((uint8_t)(v >> (8 * i)));
}
using Pal = std::vector<std::array<uint8_t, 3>>;
static Pal engine_palette(const gamedef_t *g)
{
    Pal p;
    for (auto &c : g->get_default_palette())
        p.push_back({(uint8_t)c[0], (uint8_t)c[1], (uint8_t)c[2]});
    return p;
}
static Pal random_palette(Case &c)
{
    Pal p(256);
    for (auto &e : p)
        for (auto &b : e)
            b = (uint8_t)c.s.draw(256);
    return p;
}
static Img indexed(const Data &idx, int w, int h, const Pal &p)
{
    Img im;
    im.w = w;
    im.h = h;
    if (p.empty()) // Half-Life without a palette: no pixels
        return im;
    for (auto i : idx)
        im.px.push_back(Px{{p[i][0], p[i][1], p[i][2], (uint8_t)(i == 255 ? 0 : 255)}});
    return im;
}
static Data indices(Case &c, int n)
{
    Data d(n);
    for (auto &b : d)
        b = c.s.chance(1, 6) ? 255 : (uint8_t)c.s.draw(256);
    return d;
}

struct Wal
{
    std::string name, anim;
    uint32_t w, h;
    int32_t flags, contents, value;
    Data idx;
};
static Wal gen_wal(Case &c, int maxdim = 12)
{
    Wal w;
    w.name = "whatever";
    w.anim = c.s.chance(1, 3) ? std::string() : c.s.chance(1, 4) ? std::string(32, 'n') : "e1u1/next" + std::to_string(c.s.draw(3));
    w.w = (uint32_t)c.s.i(1, maxdim);
    w.h = (uint32_t)c.s.i(1, maxdim);
    w.flags = c.s.b() ? (int32_t)c.s.draw(1 << 12) : c.s.i32();
    w.contents = c.s.b() ? (int32_t)(1u << c.s.draw(31)) : c.s.i32();
    w.value = c.s.i32();
    w.idx = indices(c, (int)(w.w * w.h));
    return w;
}
static void fixed(Data &d, const std::string &s, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        d.push_back(i < s.size() ? (uint8_t)s[i] : 0);
}
static Data enc_wal(Case &c, const Wal &w)
{
    Data d;
    fixed(d, w.name, 32);
    p32(d, w.w);
    p32(d, w.h);
    uint32_t gap = (uint32_t)c.s.draw(5), off = 100 + gap;
    p32(d, off);
    for (int i = 1; i < 4; ++i)
        p32(d, off + i);
    fixed(d, w.anim, 32);
    p32(d, (uint32_t)w.flags);
    p32(d, (uint32_t)w.contents);
    p32(d, (uint32_t)w.value);
    for (uint32_t i = 0; i < gap; ++i)
        d.push_back(77);
    d.insert(d.end(), w.idx.begin(), w.idx.end());
    for (uint64_t i = c.s.draw(4); i; --i)
        d.push_back(99);
    return d;
}
struct Mip
{
    uint32_t w, h;
    Data idx;
    bool own = false; // Half-Life palette
    Pal pal;
    bool empty = false; // no pixels stored
};
static Mip gen_mip(Case &c, bool hl)
{
    Mip m;
    m.w = 8 * (uint32_t)c.s.i(1, 3);
    m.h = 8 * (uint32_t)c.s.i(1, 3);
    if (c.s.chance(1, 4)) {
        m.w = (uint32_t)c.s.i(1, 20);
        m.h = (uint32_t)c.s.i(1, 20);
    }
    m.idx = indices(c, (int)(m.w * m.h));
    m.own = hl && c.s.chance(3, 4);
    if (m.own)
        m.pal = random_palette(c);
    m.empty = c.s.chance(1, 12);
    return m;
}
static Data enc_mip(Case &c, const Mip &m, const std::string &name)
{
    Data d;
    fixed(d, name, 16);
    p32(d, m.w);
    p32(d, m.h);
    uint32_t off = 40 + (m.empty ? 0 : (uint32_t)c.s.draw(4) * 4);
    uint32_t o[4], at = off;
    for (int i = 0; i < 4; ++i) {
        o[i] = at;
        at += (m.w >> i) * (m.h >> i);
    }
    if (!m.empty && !m.own && c.s.chance(1, 6))
        o[3] = c.s.b() ? 0 : 1000000; // no room for a palette
    for (int i = 0; i < 4; ++i)
        p32(d, m.empty ? (c.s.chance(1, 3) ? 0xffffffffu : 0u) : o[i]);
    if (m.empty)
        return d;
    while (d.size() < off)
        d.push_back(1);
    d.insert(d.end(), m.idx.begin(), m.idx.end());
    for (int i = 1; i < 4; ++i)
        for (uint32_t k = (m.w >> i) * (m.h >> i); k; --k)
            d.push_back((uint8_t)(k * 7 + i));
    if (m.own) {
        p16(d, 256);
        for (auto &e : m.pal)
            d.insert(d.end(), e.begin(), e.end());
        p16(d, 0);
    } else if (c.s.chance(1, 4)) {
        p16(d, 255); // a table of another size is not a palette
        for (int i = 0; i < 768; ++i)
            d.push_back((uint8_t)i);
    }
    return d;
}
static Img random_rgba(Case &c, int maxdim, bool alpha)
{
    Img im;
    im.w = (int)c.s.i(1, maxdim);
    im.h = (int)c.s.i(1, maxdim);
    int few = (int)c.s.draw(2);
    std::vector<Px> base;
    for (int i = 0; i < 3; ++i)
        base.push_back(Px{{(uint8_t)c.s.draw(256), (uint8_t)c.s.draw(256), (uint8_t)c.s.draw(256), (uint8_t)(alpha ? c.s.pick<int>({0, 126, 127, 128, 255}) : 255)}});
    for (int i = 0; i < im.w * im.h; ++i) {
        if (few)
            im.px.push_back(base[c.s.draw(3)]);
        else
            im.px.push_back(Px{{(uint8_t)c.s.draw(256), (uint8_t)c.s.draw(256), (uint8_t)c.s.draw(256), (uint8_t)(alpha ? c.s.draw(256) : 255)}});
    }
    return im;
}
static Data enc_tga(Case &c, const Img &im, bool alpha)
{
    Data d;
    bool rle = c.s.b(), top = c.s.b();
    int idlen = c.s.chance(1, 4) ? (int)c.s.draw(6) : 0;
    d.push_back((uint8_t)idlen);
    d.push_back(0);
    d.push_back(rle ? 10 : 2);
    for (int i = 0; i < 9; ++i)
        d.push_back(0);
    p16(d, (uint32_t)im.w);
    p16(d, (uint32_t)im.h);
    d.push_back(alpha ? 32 : 24);
    d.push_back((uint8_t)((top ? 0x20 : 0) | (alpha ? 8 : 0)));
    for (int i = 0; i < idlen; ++i)
        d.push_back('i');
    std::vector<Px> seq;
    for (int y = 0; y < im.h; ++y)
        for (int x = 0; x < im.w; ++x)
            seq.push_back(im.px[(top ? y : im.h - 1 - y) * im.w + x]);
    auto one = [&](const Px &p) {
        d.push_back(p.v[2]);
        d.push_back(p.v[1]);
        d.push_back(p.v[0]);
        if (alpha)
            d.push_back(p.v[3]);
    };
    if (!rle)
        for (auto &p : seq)
            one(p);
    else
        for (size_t i = 0; i < seq.size();) {
            size_t run = 1;
            while (i + run < seq.size() && run < 128 && seq[i + run] == seq[i])
                ++run;
            if (run > 1) {
                d.push_back((uint8_t)(0x80 | (run - 1)));
                one(seq[i]);
                i += run;
            } else {
                size_t n = 1;
                while (i + n < seq.size() && n < 128 && !(seq[i + n] == seq[i + n - 1]))
                    ++n;
                d.push_back((uint8_t)(n - 1));
                for (size_t k = 0; k < n; ++k)
                    one(seq[i + k]);
                i += n;
            }
        }
    return d;
}
static uint32_t crc(const uint8_t *p, size_t n)
{
    uint32_t r = ~0u;
    while (n--) {
        r ^= *p++;
        for (int i = 0; i < 8; ++i)
            r = (r >> 1) ^ (0xedb88320u & (0u - (r & 1)));
    }
    return ~r;
}
static void chunk(Data &d, const char *tag, const Data &body)
{
    be32(d, (uint32_t)body.size());
    size_t at = d.size();
    d.insert(d.end(), tag, tag + 4);
    d.insert(d.end(), body.begin(), body.end());
    be32(d, crc(&d[at], d.size() - at));
}
static Data enc_png(Case &c, const Img &im, bool alpha)
{
    Data d{0x89, 'P', 'N', 'G', 13, 10, 26, 10}, hdr, raw, z;
    be32(hdr, (uint32_t)im.w);
    be32(hdr, (uint32_t)im.h);
    hdr.insert(hdr.end(), {8, (uint8_t)(alpha ? 6 : 2), 0, 0, 0});
    chunk(d, "IHDR", hdr);
    int bpp = alpha ? 4 : 3;
    std::vector<Data> rows(im.h);
    for (int y = 0; y < im.h; ++y) {
        for (int x = 0; x < im.w; ++x)
            for (int k = 0; k < bpp; ++k)
                rows[y].push_back(im.px[y * im.w + x].v[k]);
        int ft = (int)c.s.draw(3); // none, sub, up
        raw.push_back((uint8_t)ft);
        for (size_t i = 0; i < rows[y].size(); ++i) {
            uint8_t left = i >= (size_t)bpp ? rows[y][i - bpp] : 0, up = y ? rows[y - 1][i] : 0;
            raw.push_back((uint8_t)(rows[y][i] - (ft == 1 ? left : ft == 2 ? up : 0)));
        }
    }
    z = {0x78, 0x01, 0x01};
    p16(z, (uint32_t)raw.size());
    p16(z, ~(uint32_t)raw.size());
    z.insert(z.end(), raw.begin(), raw.end());
    uint32_t a = 1, b = 0;
    for (auto v : raw) {
        a = (a + v) % 65521;
        b = (b + a) % 65521;
    }
    be32(z, (b << 16) | a);
    chunk(d, "IDAT", z);
    chunk(d, "IEND", {});
    return d;
}

static const gamedef_t *game_of(int g)
{
    switch (g) {
        case 0: return bspver_q1.game;
        case 1: return bspver_q2.game;
        case 2: return bspver_hl.game;
        default: return bspver_h2.game;
    }
}
static const bspversion_t *ver_of(int g)
{
    switch (g) {
        case 0: return &bspver_q1;
        case 1: return &bspver_q2;
        case 2: return &bspver_hl;
        default: return &bspver_h2;
    }
}
static void check_pixels(Case &c, const img::texture &t, const Img &want, const std::string &key)
{
    c.require(t.width == (uint32_t)want.w && t.height == (uint32_t)want.h, key + "-size", vh::cat(t.width, "x", t.height, " for ", want.w, "x", want.h));
    c.require(t.pixels.size() == want.px.size(), key + "-count", vh::cat(t.pixels.size(), " pixels, expected ", want.px.size()));
    for (size_t i = 0; i < want.px.size(); ++i) {
        auto &p = t.pixels[i];
        c.requiref(!memcmp(&p, want.px[i].v, 4), key + "-pixel", [&] {
            return vh::cat("pixel ", i, " is ", (int)p[0], ",", (int)p[1], ",", (int)p[2], ",", (int)p[3], " not ", (int)want.px[i].v[0], ",", (int)want.px[i].v[1], ",",
                (int)want.px[i].v[2], ",", (int)want.px[i].v[3]);
        });
    }
}
static Data enc_pcx(Case &c, const Pal &p)
{
    Data d{10, 5, 1, 8};
    for (int i = 0; i < 124; ++i)
        d.push_back((uint8_t)c.s.draw(256));
    for (uint64_t i = c.s.draw(40); i; --i)
        d.push_back((uint8_t)i);
    d.push_back(12);
    for (auto &e : p)
        d.insert(d.end(), e.begin(), e.end());
    return d;
}
// sets up the global palette; returns what it has to be
static Pal setup_palette(Case &c, int g, const std::string &dir)
{
    auto game = game_of(g);
    Pal pal = engine_palette(game);
    if (g == 1 && c.s.b()) {
        sf::create_directories(dir + "/pics");
        auto own = random_palette(c);
        auto d = enc_pcx(c, own);
        int k = (int)c.s.draw(4);
        if (k == 1)
            d[c.s.draw(4)] ^= 1; // not an 8 bit PCX file
        else if (k == 2)
            d.resize(c.s.draw(2) ? c.s.draw(128) : 127);
        else
            pal = own;
        bm::spew(dir + "/pics/colormap.pcx", d);
        c.label("colormap.pcx");
    }
    img::init_palette(game);
    c.require(img::palette.size() == (g == 2 ? 0 : 256), "palette-size", vh::cat(img::palette.size(), " colours"));
    for (size_t i = 0; i < img::palette.size(); ++i)
        c.require(img::palette[i][0] == pal[i][0] && img::palette[i][1] == pal[i][1] && img::palette[i][2] == pal[i][2], "palette", vh::cat("colour ", i));
    return pal;
}

struct Meta
{
    uint32_t w = 0, h = 0;
    int32_t flags = 0, contents = 0, value = 0;
    std::string anim;
    bool has_color = false;
    int col[3] = {};
};
static const char *Q2C[] = {"SOLID", "WINDOW", "AUX", "LAVA", "SLIME", "WATER", "MIST", "128", "256", "512", "1024", "2048", "4096", "8192", "16384", "AREAPORTAL", "PLAYERCLIP", "MONSTERCLIP",
    "CURRENT_0", "CURRENT_90", "CURRENT_180", "CURRENT_270", "CURRENT_UP", "CURRENT_DOWN", "ORIGIN", "MONSTER", "DEADMONSTER", "DETAIL", "TRANSLUCENT", "LADDER"};
static const char *Q2S[] = {"LIGHT", "SLICK", "SKY", "WARP", "TRANS33", "TRANS66", "FLOWING", "NODRAW", "HINT"};
static std::string anycase(Case &c, std::string s)
{
    int k = (int)c.s.draw(3);
    for (auto &ch : s)
        if (k == 1 || (k == 2 && c.s.b()))
            ch = (char)tolower((unsigned char)ch);
    return s;
}
static std::string item(Case &c, bool contents, bool q2, int32_t &val)
{
    int k = (int)c.s.draw(3);
    if (k == 0) {
        val = c.s.b() ? (int32_t)c.s.draw(1 << 16) : c.s.i32();
        return std::to_string(val);
    }
    if (k == 1 && c.s.chance(1, 4)) {
        val = 0;
        return "\"no such name\"";
    }
    int i = (int)c.s.draw(contents ? std::size(Q2C) : std::size(Q2S));
    val = q2 ? (int32_t)(1u << i) : 0;
    return "\"" + anycase(c, contents ? Q2C[i] : Q2S[i]) + "\"";
}
static std::string bits(Case &c, bool contents, bool q2, int32_t &val)
{
    if (c.s.b())
        return item(c, contents, q2, val);
    std::string s = "[";
    val = 0;
    int n = (int)c.s.draw(4);
    for (int i = 0; i < n; ++i) {
        int32_t v;
        s += (i ? ", " : "") + item(c, contents, q2, v);
        val |= v;
    }
    return s + "]";
}
// a .wal_json document that overrides some fields of `m`; false when it is not valid
static bool gen_json(Case &c, bool q2, Meta &m, std::string &text)
{
    std::vector<std::string> f;
    if (c.s.b()) {
        m.w = (uint32_t)c.s.i(1, 256);
        f.push_back("\"width\": " + std::to_string(m.w));
    } else if (c.s.chance(1, 8))
        f.push_back("\"width\": \"64\""); // not an integer: ignored
    if (c.s.b()) {
        m.h = (uint32_t)c.s.i(1, 256);
        f.push_back("\"height\": " + std::to_string(m.h));
    }
    if (c.s.b()) {
        m.value = c.s.i32();
        f.push_back("\"value\": " + std::to_string(m.value));
    }
    if (c.s.b())
        f.push_back("\"contents\": " + bits(c, true, q2, m.contents));
    if (c.s.b())
        f.push_back("\"flags\": " + bits(c, false, q2, m.flags));
    if (c.s.b()) {
        m.anim = c.s.pick<std::string>({"", "e1u1/n", "x"});
        f.push_back("\"animation\": \"" + m.anim + "\"");
    }
    bool ok = true;
    if (c.s.b()) {
        for (auto &k : m.col)
            k = (int)c.s.draw(256);
        m.has_color = true;
        if (c.s.chance(1, 10)) {
            f.push_back(c.s.b() ? "\"color\": [1, 2]" : "\"color\": \"red\"");
            ok = false;
        } else
            f.push_back(vh::cat("\"color\": [", m.col[0], ", ", m.col[1], ", ", m.col[2], "]"));
    }
    for (size_t i = f.size(); i > 1; --i)
        std::swap(f[i - 1], f[c.s.draw(i)]);
    text = "{";
    for (size_t i = 0; i < f.size(); ++i)
        text += (i ? ",\n" : "\n") + f[i];
    text += "\n}\n";
    if (c.s.chance(1, 12)) {
        text.resize(text.size() - 1 - c.s.draw(text.size() - 1) - 1);
        ok = false;
    }
    return ok;
}
#ifndef IMAGE_LIB
static void decode(Case &c)
{
    fs::clear();
    img::clear();
    fs::addArchive(c.scratch, false);
    int g = (int)c.s.draw(4), kind = (int)c.s.draw(4);
    bool meta = c.s.chance(1, 6);
    Pal pal = setup_palette(c, g, c.scratch);
    auto game = game_of(g);
    std::string nm = c.s.pick<std::string>({"tex", "e1u1/wall", "{fence", "+0slip"});
    c.nt();
    if (kind == 0) {
        auto w = gen_wal(c);
        auto d = enc_wal(c, w);
        auto t = img::load_wal(nm, d, meta, game);
        c.describe(vh::cat("wal ", w.w, "x", w.h, " game ", g, meta ? " meta" : ""));
        c.require(t.has_value(), "wal-refused", "a sound wal was refused");
        c.require(t->meta.name == nm && t->meta.extension == img::ext::WAL, "wal-name", t->meta.name);
        c.require(t->meta.width == w.w && t->meta.height == w.h && t->width == w.w && t->height == w.h, "wal-size", vh::cat(t->width, "x", t->height));
        c.require(t->meta.flags.native == w.flags && (int32_t)t->meta.contents_native == w.contents && t->meta.value == w.value, "wal-meta", "flags, contents or value");
        c.require(t->meta.animation == w.anim, "wal-animation", "'" + t->meta.animation + "' not '" + w.anim + "'");
        if (!meta)
            check_pixels(c, *t, indexed(w.idx, (int)w.w, (int)w.h, pal), "wal");
        else
            c.require(t->pixels.empty(), "wal-meta-pixels", "pixels loaded");
    } else if (kind == 1) {
        auto m = gen_mip(c, g == 2);
        auto d = enc_mip(c, m, nm);
        auto t = img::load_mip(nm, d, meta, game);
        c.describe(vh::cat("mip ", m.w, "x", m.h, " game ", g, m.own ? " own palette" : "", m.empty ? " empty" : "", meta ? " meta" : ""));
        c.require(t.has_value(), "mip-refused", "a sound mip was refused");
        c.require(t->meta.name == nm && t->meta.extension == img::ext::MIP, "mip-name", t->meta.name);
        c.require(t->meta.width == m.w && t->meta.height == m.h && t->width == m.w && t->height == m.h, "mip-size", vh::cat(t->width, "x", t->height));
        if (meta || m.empty)
            c.require(t->pixels.empty(), "mip-meta-pixels", "pixels loaded");
        else
            check_pixels(c, *t, indexed(m.idx, (int)m.w, (int)m.h, m.own ? m.pal : pal), "mip");
    } else {
        bool alpha = c.s.b();
        auto im = random_rgba(c, 14, alpha);
        auto d = kind == 2 ? enc_tga(c, im, alpha) : enc_png(c, im, alpha);
        auto t = img::load_stb(nm, d, meta, game);
        c.describe(vh::cat(kind == 2 ? "tga " : "png ", im.w, "x", im.h, alpha ? " alpha" : "", meta ? " meta" : ""));
        c.require(t.has_value(), "stb-refused", "a sound image was refused");
        c.require(t->meta.name == nm && t->meta.width == (uint32_t)im.w && t->meta.height == (uint32_t)im.h && t->width == (uint32_t)im.w && t->height == (uint32_t)im.h, "stb-meta",
            "name or size");
        if (!meta)
            check_pixels(c, *t, im, "stb");
        else
            c.require(t->pixels.empty(), "stb-meta-pixels", "pixels loaded");
    }
    // truncated files give nothing, or no pixels
    if (kind < 2 && c.s.chance(1, 3)) {
        Data d;
        size_t hdr = kind == 0 ? 100 : 40;
        int w = (int)c.s.i(1, 9), h = (int)c.s.i(1, 9);
        fixed(d, "x", kind == 0 ? 32 : 16);
        p32(d, (uint32_t)w);
        p32(d, (uint32_t)h);
        p32(d, (uint32_t)hdr);
        while (d.size() < hdr)
            d.push_back(0);
        size_t full = hdr + (size_t)(w * h);
        d.resize(full, 3);
        size_t cut = c.s.draw(full);
        d.resize(cut);
        auto t = kind == 0 ? img::load_wal("x", d, false, game) : img::load_mip("x", d, false, game);
        if (cut < hdr)
            c.require(!t, "truncated-header", vh::cat("loaded from ", cut, " bytes"));
        else
            c.require(!t || t->pixels.empty(), "truncated-pixels", vh::cat("pixels from ", cut, " of ", full, " bytes"));
        c.label("truncated");
    }
}

static void check_meta(Case &c, const img::texture_meta &g, const Meta &m, const std::string &nm)
{
    c.require(g.name == nm, "meta-name", "'" + g.name + "'");
    c.requiref(g.width == m.w && g.height == m.h, "meta-size", [&] { return vh::cat(g.width, "x", g.height, " not ", m.w, "x", m.h); });
    c.requiref(g.flags.native == m.flags, "meta-flags", [&] { return vh::cat(g.flags.native, " not ", m.flags); });
    c.requiref((int32_t)g.contents_native == m.contents, "meta-contents", [&] { return vh::cat((int32_t)g.contents_native, " not ", m.contents); });
    c.requiref(g.value == m.value, "meta-value", [&] { return vh::cat(g.value, " not ", m.value); });
    c.requiref(g.animation == m.anim, "meta-animation", [&] { return g.animation + " not " + m.anim; });
    c.require(g.color_override.has_value() == m.has_color, "meta-color", "presence");
    if (m.has_color)
        for (int i = 0; i < 3; ++i)
            c.require((*g.color_override)[i] == m.col[i], "meta-color", "component");
}
static Meta from_wal(const Wal &w)
{
    Meta m;
    m.w = w.w;
    m.h = w.h;
    m.flags = w.flags;
    m.contents = w.contents;
    m.value = w.value;
    m.anim = w.anim;
    return m;
}

// which file a texture name stands for
static void lookup(Case &c)
{
    fs::clear();
    img::clear();
    int g = (int)c.s.draw(4);
    auto game = game_of(g);
    fs::addArchive(c.scratch, false);
    img::init_palette(game);
    Pal pal = engine_palette(game);
    settings::common_settings opts;
    std::string nm = c.s.pick<std::string>({"wall", "e1u1/wall", "v1.5/pipe", "e1u1/box.2"});
    bool noprefix = c.s.chance(1, 4), miponly = c.s.chance(1, 6);
    bool q2dir = g == 1 && !noprefix;
    const char *order[] = {".png", ".jpg", ".tga", ".wal", ".mip", ""};
    std::map<int, std::pair<bool, Img>> have; // readable, content
    std::string what;
    Wal wal;
    bool have_wal = false;
    // files in the other place are never meant
    for (int place = 0; place < 2; ++place) {
        if (place && c.s.b())
            continue;
        bool in_textures = place == 0 ? q2dir : !q2dir;
        std::string base = c.scratch + (in_textures ? "/textures/" : "/") + nm;
        sf::create_directories(sf::path(base).parent_path());
        for (int e = 0; e < 6; ++e) {
            if (c.s.b())
                continue;
            if (e == 1 || (e == 5 && nm == "e1u1"))
                continue;
            Img im;
            Data d;
            bool readable = true;
            if (e == 0 || e == 2) {
                bool alpha = c.s.b();
                im = random_rgba(c, 5, alpha);
                d = e == 0 ? enc_png(c, im, alpha) : enc_tga(c, im, alpha);
                if (c.s.chance(1, 4)) {
                    d.resize(10);
                    readable = false;
                }
            } else if (e == 3) {
                auto w = gen_wal(c, 5);
                im = indexed(w.idx, (int)w.w, (int)w.h, pal);
                d = enc_wal(c, w);
                if (c.s.chance(1, 4)) {
                    d.resize(c.s.draw(100));
                    readable = false;
                } else if (place == 0) {
                    wal = w;
                    have_wal = true;
                }
            } else {
                auto m = gen_mip(c, g == 2);
                m.empty = false;
                im = indexed(m.idx, (int)m.w, (int)m.h, m.own ? m.pal : pal);
                d = enc_mip(c, m, "n");
                if (c.s.chance(1, 4)) {
                    d.resize(c.s.draw(40));
                    readable = false;
                }
            }
            bm::spew(base + order[e], d);
            if (place == 0) {
                have[e] = {readable, im};
                what += std::string(order[e][0] ? order[e] : ".(none)") + (readable ? "" : "!");
            }
        }
    }
    c.describe(vh::cat("game ", g, " ", nm, noprefix ? " no prefix" : "", miponly ? " mip only" : "", " files ", what));
    const Img *want = nullptr;
    for (int e = miponly ? 5 : 0; e < 6 && !want; ++e)
        if (have.count(e) && have[e].first)
            want = &have[e].second;
    c.nt(have.size() > 1);
    auto [tex, res, data] = img::load_texture(nm, false, game, opts, noprefix, miponly);
    c.require(tex.has_value() == (want != nullptr), "lookup-found", want ? "not found" : "found something");
    if (want)
        check_pixels(c, *tex, *want, "lookup");
    if (noprefix && g == 1)
        return;
    // its metadata
    Meta m;
    bool exists = have_wal;
    if (have_wal)
        m = from_wal(wal);
    if (c.s.chance(2, 3)) {
        std::string text;
        Meta over = m;
        bool ok = gen_json(c, g == 1, over, text);
        std::string base = c.scratch + (q2dir ? "/textures/" : "/") + nm;
        bm::spew(base + ".wal_json", Data(text.begin(), text.end()));
        if (ok) {
            m = over;
            exists = true;
        }
        c.describe("json " + text);
        c.label(have_wal ? "json over wal" : "json alone");
    }
    auto [meta, res2, data2] = img::load_texture_meta(nm, game, opts);
    c.require(meta.has_value() == exists, "meta-found", exists ? "no metadata" : "metadata out of nothing");
    if (exists)
        check_meta(c, *meta, m, nm);
}

static void average(const Img &im, double out[3])
{
    double s[3] = {};
    int n = 0;
    for (auto &p : im.px)
        if (p.v[3] >= 127) {
            ++n;
            for (int i = 0; i < 3; ++i)
                s[i] += p.v[i];
        }
    for (int i = 0; i < 3; ++i)
        out[i] = n ? s[i] / n : 0;
}
static void want_color(const Img &im, float boost, double out[3])
{
    average(im, out);
    if (boost <= 0)
        return;
    double sat[3], mx = 0;
    for (int i = 0; i < 3; ++i) {
        double f = std::floor(out[i]) / 255;
        sat[i] = 2 * f * f;
        mx = std::max(mx, sat[i]);
    }
    for (int i = 0; i < 3; ++i) {
        if (mx > 1)
            sat[i] /= mx;
        out[i] = out[i] * (1 - boost) + 255 * sat[i] * boost;
    }
}
static void check_color(Case &c, const qvec3b &g, const double w[3], double tol, const std::string &nm)
{
    for (int i = 0; i < 3; ++i)
        c.requiref(g[i] <= w[i] + tol && g[i] >= w[i] - 1 - tol, "average-color", [&] { return vh::cat(nm, ": component ", i, " is ", (int)g[i], ", expected about ", w[i]); });
}

static void cache(Case &c)
{
    fs::clear();
    img::clear();
    int g = (int)c.s.draw(3);
    auto game = game_of(g);
    fs::addArchive(c.scratch, false);
    img::init_palette(game);
    Pal pal = engine_palette(game);
    settings::common_settings opts;
    float boost = c.s.chance(1, 3) ? (float)c.s.pick<double>({0.25, 0.5, 1.0}) : 0.f;
    opts.tex_saturation_boost.set_value(boost, settings::source::COMMANDLINE);
    mbsp_t bsp{};
    bsp.loadversion = ver_of(g);
    struct W
    {
        Img im;
        bool have_px = false;
        Meta meta;
        bool have_meta = false;
        bool complete = true;
    };
    std::map<std::string, W> want;
    std::string ents = "{\n\"classname\" \"worldspawn\"\n}\n";
    int n = c.s.count(1, 5);
    c.describe(vh::cat("game ", g, " boost ", boost));
    for (int i = 0; i < n; ++i) {
        std::string nm = vh::cat(g == 1 ? "e1u1/" : "", "tex", i, c.s.b() ? "A" : "");
        W w;
        std::string base = c.scratch + (g == 1 ? "/textures/" : "/") + nm;
        sf::create_directories(sf::path(base).parent_path());
        if (g == 1) {
            int k = (int)c.s.draw(5);
            if (k < 2) {
                auto wl = gen_wal(c, 5);
                bm::spew(base + ".wal", enc_wal(c, wl));
                w.im = indexed(wl.idx, (int)wl.w, (int)wl.h, pal);
                w.have_px = true;
                w.meta = from_wal(wl);
                w.have_meta = true;
            }
            if (k == 1 || k == 2) {
                bool alpha = c.s.b();
                w.im = random_rgba(c, 6, alpha);
                w.have_px = true;
                bm::spew(base + ".tga", enc_tga(c, w.im, alpha));
            }
            if (c.s.b()) {
                std::string text;
                Meta over = w.meta;
                if (gen_json(c, true, over, text)) {
                    w.meta = over;
                    w.have_meta = true;
                }
                bm::spew(base + ".wal_json", Data(text.begin(), text.end()));
            }
            if (c.s.chance(1, 4))
                ents += "{\n\"classname\" \"light" + std::string(c.s.b() ? "_torch" : "") + "\"\n\"_project_texture\" \"" + nm + "\"\n}\n";
            else {
                int reps = (int)c.s.i(1, 2);
                for (int r = 0; r < reps; ++r) {
                    mtexinfo_t ti{};
                    auto s = r ? anycase(c, nm) : nm;
                    snprintf(ti.texture.data(), ti.texture.size(), "%s", s.c_str());
                    bsp.texinfo.push_back(ti);
                }
            }
            c.describe(vh::cat(nm, " kind ", k, w.have_meta ? " meta" : ""));
        } else {
            miptex_t mt;
            mt.name = nm;
            int k = (int)c.s.draw(6);
            if (k != 5) {
                auto m = gen_mip(c, g == 2);
                mt.data = enc_mip(c, m, nm);
                mt.width = m.w;
                mt.height = m.h;
                w.meta.w = m.w;
                w.meta.h = m.h;
                w.have_meta = true;
                if (!m.empty) {
                    w.im = indexed(m.idx, (int)m.w, (int)m.h, m.own ? m.pal : pal);
                    w.have_px = m.own || g != 2;
                }
            } else
                mt.null_texture = true;
            if (c.s.chance(1, 3)) {
                bool alpha = c.s.b();
                w.im = random_rgba(c, 30, alpha);
                w.have_px = true;
                bm::spew(base + ".tga", enc_tga(c, w.im, alpha));
                c.label("replacement");
            }
            w.complete = w.have_meta && w.have_px;
            bsp.dtex.textures.push_back(mt);
            c.describe(vh::cat(nm, " kind ", k, w.have_px ? "" : " no pixels"));
        }
        want[nm] = w;
    }
    bsp.dentdata = ents;
    if (g != 1 && bsp.dtex.textures.empty())
        throw vh::Discard{};
    c.nt();
    img::load_textures(&bsp, opts);
    c.require(img::textures.size() == want.size(), "cache-size", vh::cat(img::textures.size(), " textures, expected ", want.size()));
    for (auto &[nm, w] : want) {
        auto q = anycase(c, nm);
        auto t = img::find(q);
        c.require(t != nullptr, "cache-find", q);
        c.require(!img::find(nm + "x"), "cache-find-other", nm + "x");
        if (w.have_px)
            check_pixels(c, *t, w.im, "cache");
        else
            c.require(t->pixels.empty(), "cache-no-pixels", nm);
        if (g == 1) {
            if (w.have_meta)
                check_meta(c, t->meta, w.meta, nm);
        } else if (w.have_meta)
            c.require(t->meta.width == w.meta.w && t->meta.height == w.meta.h, "cache-meta", nm);
        if (!w.complete)
            continue;
        uint32_t mw = w.have_meta ? w.meta.w : t->meta.width, mh = w.have_meta ? w.meta.h : t->meta.height;
        float ws = mw && mh ? (float)((double)t->width / mw) : 1, hs = mw && mh ? (float)((double)t->height / mh) : 1;
        c.requiref(std::abs(t->width_scale - ws) <= 1e-5 * ws && std::abs(t->height_scale - hs) <= 1e-5 * hs, "cache-scale",
            [&] { return vh::cat(nm, ": ", t->width_scale, " ", t->height_scale, " not ", ws, " ", hs); });
        if (w.have_meta && w.meta.has_color) {
            for (int i = 0; i < 3; ++i)
                c.require(t->averageColor[i] == w.meta.col[i], "color-override", nm);
        } else {
            double col[3];
            want_color(w.im, boost, col);
            check_color(c, t->averageColor, col, boost > 0 ? 1.01 : 1e-6, nm);
        }
    }
}

VH_MAIN("C13", "an image, a name with at least two candidate files, or a cache of textures was loaded",
    (std::vector<std::string>{"JPEG decoding is third-party code and not checked", "average colours are compared within one step, two with the saturation boost"}),
    vh::Sub{"decode", decode, 16000, 400000}, vh::Sub{"lookup", lookup, 8000, 200000}, vh::Sub{"cache", cache, 6000, 150000})
#endif
