// C14: damaged texture, palette and metadata files
#define IMAGE_LIB
#include "p_image.cc"

static uint32_t nasty(Case &c, size_t sz)
{
    switch (c.s.draw(8)) {
        case 0: return (uint32_t)c.s.i(0, 8);
        case 1: return (uint32_t)-(int)c.s.i(1, 80);
        case 2: return (uint32_t)(sz + c.s.ito(-8, 8, 0));
        case 3: return c.s.pick<uint32_t>({0x7fffffff, 0x80000000, 0xffffffff, 0x7ffffffc, 0x40000000, 0x10000, 0x10001, 0x20001});
        case 4: return (uint32_t)c.s.draw(sz + 1);
        case 5: return 1u << c.s.draw(32);
        default: return (uint32_t)c.s.draw(1ull << 32);
    }
}
static void damage(Case &c, Data &d, std::string &what)
{
    int n = 1 + (int)c.s.draw(3);
    while (n--)
        switch (c.s.draw(4)) {
            case 0:
                d.resize(c.s.draw(d.size() + 1));
                what += " cut";
                break;
            case 1:
            case 2:
                if (d.size() >= 4) {
                    size_t hdr = std::min<size_t>(d.size() / 4, 26), at = 4 * c.s.draw(c.s.b() ? hdr : d.size() / 4);
                    if (at + 4 > d.size())
                        break;
                    uint32_t v = nasty(c, d.size());
                    for (int i = 0; i < 4; ++i)
                        d[at + i] = (uint8_t)(v >> (8 * i));
                    what += vh::cat(" word@", at, "=", v);
                }
                break;
            default:
                if (!d.empty()) {
                    size_t at = c.s.draw(d.size());
                    d[at] = (uint8_t)c.s.draw(256);
                    what += vh::cat(" byte@", at);
                }
        }
}
static void consistent(Case &c, const std::optional<img::texture> &t, bool meta)
{
    if (!t)
        return;
    c.label("loaded");
    c.require(t->pixels.empty() || (!meta && t->pixels.size() == (size_t)t->width * t->height), "pixel-count", vh::cat(t->pixels.size(), " pixels for ", t->width, "x", t->height));
    c.require(t->meta.width == t->width && t->meta.height == t->height, "sizes", "declared and actual size differ");
    auto avg = img::calculate_average(t->pixels);
    (void)avg;
}
static void images(Case &c)
{
    fs::clear();
    img::clear();
    int g = (int)c.s.draw(4);
    auto game = game_of(g);
    img::init_palette(game);
    Data d;
    bool wal = c.s.b(), meta = c.s.chance(1, 5);
    if (wal)
        d = enc_wal(c, gen_wal(c));
    else
        d = enc_mip(c, gen_mip(c, g == 2), "tex");
    std::string what;
    damage(c, d, what);
    c.nt();
    c.describe(vh::cat(wal ? "wal" : "mip", " game ", g, what));
    // an exact allocation: reading past it is caught by the sanitizer
    Data exact(d);
    exact.shrink_to_fit();
    fs::data file(std::move(exact));
    consistent(c, wal ? img::load_wal("t", file, meta, game) : img::load_mip("t", file, meta, game), meta);
    if (wal)
        (void)img::load_wal_meta("t", file, game);
}
static void palettes(Case &c)
{
    fs::clear();
    img::clear();
    fs::addArchive(c.scratch, false);
    sf::create_directories(c.scratch + "/pics");
    auto d = enc_pcx(c, random_palette(c));
    std::string what;
    damage(c, d, what);
    bm::spew(c.scratch + "/pics/colormap.pcx", d);
    c.nt();
    c.describe("pcx" + what);
    img::init_palette(bspver_q2.game);
    c.require(img::palette.size() == 256, "palette-size", vh::cat(img::palette.size(), " colours"));
    bool readable = d.size() >= 768 && d[0] == 10 && d[1] == 5 && d[2] == 1 && d[3] == 8;
    auto def = engine_palette(bspver_q2.game);
    for (int i = 0; i < 256; ++i)
        for (int k = 0; k < 3; ++k) {
            uint8_t want = readable ? d[d.size() - 768 + 3 * i + k] : def[i][k];
            c.require(img::palette[i][k] == want, readable ? "palette-read" : "palette-default", vh::cat("colour ", i));
        }
}
static void metadata(Case &c)
{
    fs::clear();
    img::clear();
    fs::addArchive(c.scratch, false);
    int g = (int)c.s.draw(4);
    settings::common_settings opts;
    std::string base = c.scratch + (g == 1 ? "/textures/t" : "/t");
    sf::create_directories(sf::path(base).parent_path());
    std::string text;
    Meta m;
    gen_json(c, g == 1, m, text);
    int n = 1 + (int)c.s.draw(3);
    for (int i = 0; i < n && !text.empty(); ++i) {
        size_t at = c.s.draw(text.size());
        switch (c.s.draw(4)) {
            case 0: text[at] = (char)c.s.draw(256); break;
            case 1: text.erase(at, c.s.draw(8)); break;
            case 2: text.insert(at, c.s.pick<std::string>({"[", "]", "{", "}", "\"", ",", ":", "null", "1e99", "-1", "99999999999999999999", "true", "[[[[", "\\u0000"})); break;
            default: {
                // another value for a field
                size_t col = text.find(':', at);
                size_t end = col == std::string::npos ? col : text.find_first_of(",\n", col);
                if (end != std::string::npos)
                    text.replace(col + 1, end - col - 1, c.s.pick<std::string>({"null", "[]", "{}", "[1]", "[1,2]", "[\"a\",{}]", "[300,-1,2]", "true", "1.5", "\"x\"", "{\"a\":1}", "[null,null,null]"}));
            }
        }
    }
    bm::spew(base + ".wal_json", Data(text.begin(), text.end()));
    bool wal = c.s.b();
    if (wal) {
        auto d = enc_wal(c, gen_wal(c));
        std::string w;
        if (c.s.b())
            damage(c, d, w);
        bm::spew(base + ".wal", d);
    }
    c.nt();
    c.describe(vh::cat("game ", g, wal ? " wal" : "", " json ", text));
    auto [meta, r, f] = img::load_texture_meta("t", game_of(g), opts);
    if (meta)
        c.label("loaded");
}
VH_MAIN("C14", "the file was damaged in at least one place",
    (std::vector<std::string>{"image formats decoded by the bundled stb_image are not damaged", "built with AddressSanitizer: any access outside the file's bytes ends the case"}),
    vh::Sub{"images", images, 30000, 900000}, vh::Sub{"palettes", palettes, 4000, 80000}, vh::Sub{"metadata", metadata, 6000, 150000})
