// C12: search paths and archives
#include "vh.hh"
#include "bspmodel.hh"
#include <common/fs.hh>
#include <common/cmdlib.hh>
#include <common/log.hh>
#include <unistd.h>
#include <memory>
using vh::Case;
using Data = std::vector<uint8_t>;
namespace sf = std::filesystem;

static std::string lower(std::string s)
{
    for (auto &c : s)
        c = (char)tolower((unsigned char)c);
    return s;
}
struct Box
{
    std::string path; // as created (absolute)
    int kind = 0;     // 0 directory, 1 pak, 2 wad
    bool usable = true;
    std::map<std::string, Data> files;    // directory: exact names, archives: lower case
    std::set<std::string> out_of_file;    // archive entries that lie outside the file
    std::set<std::string> dirs;           // names of directories inside a directory
    std::vector<std::string> names;       // as spelled
};
static void put(Data &d, uint32_t v)
{
    for (int i = 0; i < 4; ++i)
        d.push_back((uint8_t)(v >> (8 * i)));
}
static std::string fname(Case &c, int max)
{
    int k = (int)c.s.draw(6);
    std::string base = c.s.pick<std::string>({"a", "b", "wall", "SKY1", "Metal_2", "x.wal", "maps/start.bsp", "textures/e1/w.tga", "light", "+0slip"});
    if (max < 20 && base.find('/') != std::string::npos)
        base = "lump";
    if (k == 0) { // names near the field's size
        int n = max - (int)c.s.draw(2);
        while ((int)base.size() < n)
            base += (char)('a' + base.size() % 26);
        base.resize(n);
        if (base.back() == '/')
            base.back() = 'q';
    } else if (k == 1)
        base += std::to_string(c.s.draw(4));
    return base;
}
static Data content(Case &c, int id)
{
    Data d = c.s.bytes(c.s.count(0, 40));
    d.push_back((uint8_t)id); // tells equal names in different places apart
    d.push_back((uint8_t)(id >> 8));
    return d;
}
static int serial;
static Data build_pak(Case &c, Box &b, int n)
{
    Data f{'P', 'A', 'C', 'K'}, body, dir;
    uint32_t base = 12 + (uint32_t)c.s.draw(9);
    for (int i = 0; i < n; ++i) {
        auto nm = fname(c, 56);
        if (b.files.count(lower(nm)))
            continue;
        auto d = content(c, ++serial);
        uint32_t off = base + (uint32_t)body.size(), sz = (uint32_t)d.size();
        body.insert(body.end(), d.begin(), d.end());
        if (c.s.chance(1, 10)) {
            b.out_of_file.insert(lower(nm));
            if (c.s.b())
                off = c.s.pick<uint32_t>({0xffffffffu, 0x7fffffffu, 1000000u});
            else
                sz = c.s.pick<uint32_t>({0xffffffffu, 0x7fffffffu, 100000u});
        }
        std::string fld = nm;
        fld.resize(56, '\0');
        // bytes behind the terminator are noise
        for (size_t k = nm.size() + 1; k < 56; ++k)
            fld[k] = (char)c.s.draw(3);
        dir.insert(dir.end(), fld.begin(), fld.end());
        put(dir, off);
        put(dir, sz);
        b.files[lower(nm)] = d;
        b.names.push_back(nm);
    }
    bool dirfirst = false;
    (void)dirfirst;
    put(f, base + (uint32_t)body.size());
    put(f, (uint32_t)dir.size());
    f.resize(base, 0xee);
    f.insert(f.end(), body.begin(), body.end());
    f.insert(f.end(), dir.begin(), dir.end());
    return f;
}
static Data build_wad(Case &c, Box &b, int n)
{
    Data f{'W', 'A', 'D', (uint8_t)(c.s.b() ? '2' : '3')}, body, dir;
    int cnt = 0;
    uint32_t base = 12;
    for (int i = 0; i < n; ++i) {
        auto nm = fname(c, 16);
        if (b.files.count(lower(nm)))
            continue;
        ++cnt;
        auto d = content(c, ++serial);
        uint32_t off = base + (uint32_t)body.size(), sz = (uint32_t)d.size();
        body.insert(body.end(), d.begin(), d.end());
        if (c.s.chance(1, 10)) {
            b.out_of_file.insert(lower(nm));
            (c.s.b() ? off : sz) = c.s.pick<uint32_t>({0xffffffffu, 0x7fffffffu, 100000u});
        }
        put(dir, off);
        put(dir, sz);
        put(dir, c.s.b() ? sz : 12345); // uncompressed size: not used for stored lumps
        dir.push_back(0x44);
        dir.push_back(0);
        dir.push_back((uint8_t)c.s.draw(256));
        dir.push_back((uint8_t)c.s.draw(256));
        std::string fld = nm;
        fld.resize(16, '\0');
        for (size_t k = nm.size() + 1; k < 16; ++k)
            fld[k] = (char)c.s.draw(3);
        dir.insert(dir.end(), fld.begin(), fld.end());
        b.files[lower(nm)] = d;
        b.names.push_back(nm);
    }
    put(f, (uint32_t)cnt);
    put(f, base + (uint32_t)body.size());
    f.insert(f.end(), body.begin(), body.end());
    f.insert(f.end(), dir.begin(), dir.end());
    return f;
}
static void spew(const std::string &p, const Data &d)
{
    sf::create_directories(sf::path(p).parent_path());
    bm::spew(p, d);
}
static std::string show(const std::string &p, const std::string &scratch)
{
    return p.rfind(scratch, 0) == 0 ? "<tmp>" + p.substr(scratch.size()) : p;
}
static const std::string *contains(const Box &b, const std::string &n, std::string &key)
{
    key = b.kind ? lower(n) : n;
    auto it = b.files.find(key);
    return it == b.files.end() ? nullptr : &it->first;
}

static void search(Case &c)
{
    serial = 0;
    fs::clear();
    std::string cwd = c.scratch + "/cwd";
    sf::create_directories(cwd);
    if (chdir(cwd.c_str()))
        throw vh::Discard{};
    std::vector<Box> boxes;
    int n = c.s.count(1, 6);
    std::vector<std::string> pool; // names to ask for
    for (int i = 0; i < n; ++i) {
        Box b;
        b.kind = (int)c.s.draw(3);
        int nf = c.s.count(0, 8);
        // some archives live in the current directory
        std::string where = c.s.chance(1, 4) ? cwd : c.scratch + "/g";
        if (b.kind == 0) {
            b.path = vh::cat(c.scratch, "/dir", i);
            sf::create_directories(b.path);
            for (int k = 0; k < nf; ++k) {
                auto nm = fname(c, 40);
                if (b.files.count(nm) || sf::exists(b.path + "/" + nm))
                    continue;
                if (c.s.chance(1, 8)) {
                    sf::create_directories(b.path + "/" + nm);
                    b.dirs.insert(nm);
                    continue;
                }
                std::error_code ec;
                sf::create_directories(sf::path(b.path + "/" + nm).parent_path(), ec);
                if (ec || sf::exists(b.path + "/" + nm))
                    continue;
                auto d = content(c, ++serial);
                bm::spew(b.path + "/" + nm, d);
                b.files[nm] = d;
                b.names.push_back(nm);
            }
        } else {
            b.path = vh::cat(where, "/arc", i, b.kind == 1 ? c.s.pick<std::string>({".pak", ".PAK"}) : c.s.pick<std::string>({".wad", ".Wad"}));
            auto d = b.kind == 1 ? build_pak(c, b, nf) : build_wad(c, b, nf);
            if (c.s.chance(1, 6)) {
                int k = (int)c.s.draw(3);
                if (k == 0)
                    d[c.s.draw(4)] ^= 0x20;
                else if (k == 1)
                    d.resize(c.s.draw(12));
                else { // the table cut short
                    size_t cut = b.files.empty() ? 0 : 1 + c.s.draw(b.kind == 1 ? 64 : 32);
                    if (cut)
                        d.resize(d.size() - cut);
                }
                if (k != 2 || !b.files.empty())
                    b.usable = false;
            }
            spew(b.path, d);
        }
        for (auto &x : b.names)
            pool.push_back(x);
        for (auto &x : b.dirs)
            pool.push_back(x);
        boxes.push_back(b);
    }
    // loose files
    Box loose;
    int nl = c.s.count(0, 4);
    for (int k = 0; k < nl; ++k) {
        auto nm = !pool.empty() && c.s.b() ? c.s.pick(pool) : fname(c, 40);
        if (sf::exists(cwd + "/" + nm) || nm.size() > 60)
            continue;
        std::error_code ec;
        sf::create_directories(sf::path(cwd + "/" + nm).parent_path(), ec);
        if (ec)
            continue;
        if (c.s.chance(1, 6)) {
            sf::create_directories(cwd + "/" + nm);
            continue;
        }
        auto d = content(c, ++serial);
        bm::spew(cwd + "/" + nm, d);
        loose.files[nm] = d;
        pool.push_back(nm);
    }
    // model of the search path, most recent first
    std::vector<int> dirs, arcs;
    std::map<int, std::shared_ptr<fs::archive_like>> handle;
    auto add = [&](int i) -> bool {
        auto &b = boxes[i];
        auto &l = b.kind ? arcs : dirs;
        if (std::find(l.begin(), l.end(), i) != l.end())
            return true;
        if (!b.usable)
            return false;
        l.insert(l.begin(), i);
        return true;
    };
    int ops = c.s.count(2, 25), hits = 0;
    for (int o = 0; o < ops; ++o) {
        if (o == 0 || c.s.chance(1, 3)) {
            int i = (int)c.s.draw(boxes.size());
            auto &b = boxes[i];
            std::string p = b.path;
            bool found = true;
            switch (c.s.draw(6)) {
                case 0: // a path that does not exist, but the name does here
                    if (b.kind && b.path.rfind(cwd, 0) == 0)
                        p = c.scratch + "/nowhere/" + sf::path(b.path).filename().string();
                    break;
                case 1:
                    p = c.scratch + "/none/missing.pak";
                    found = false;
                    break;
                case 2:
                    if (b.kind == 0)
                        p = b.path + "/../" + sf::path(b.path).filename().string();
                    break;
                default: break;
            }
            auto &lst = b.kind ? arcs : dirs;
            bool was = std::find(lst.begin(), lst.end(), i) != lst.end();
            bool ext = c.s.b();
            auto h = fs::addArchive(p, ext);
            bool want = found && add(i);
            c.describe("add " + show(p, c.scratch));
            c.require((bool)h == want, "add", vh::cat("adding ", show(p, c.scratch), h ? " worked" : " failed"));
            if (want) {
                c.require(sf::equivalent(h->pathname, b.path), "add-path", "another archive was returned for " + show(p, c.scratch));
                if (was && handle.count(i))
                    c.require(h == handle[i], "add-twice", "adding " + show(p, c.scratch) + " twice gave two archives");
                else if (!was)
                    c.require(h->external == ext, "external", "external flag");
                handle[i] = h;
            }
            continue;
        }
        if (c.s.chance(1, 40)) {
            fs::clear();
            dirs.clear();
            arcs.clear();
            handle.clear();
            c.describe("clear");
            continue;
        }
        // ask for a file
        bool prefer = c.s.b();
        std::string q = pool.empty() || c.s.chance(1, 8) ? fname(c, 30) : c.s.pick(pool);
        if (c.s.chance(1, 4))
            q = c.s.b() ? lower(q) : [&] { auto s = q; for (auto &ch : s) ch = (char)toupper((unsigned char)ch); return s; }();
        int direct = -1, wantbox = -1; // -2 loose
        std::string ask = q, fn = q;
        if (c.s.chance(1, 5)) { // inside a named archive
            int i = (int)c.s.draw(boxes.size());
            if (boxes[i].kind) {
                ask = boxes[i].path + "/" + q;
                direct = i;
            }
        } else if (c.s.chance(1, 8) && boxes.size()) { // absolute path of a file
            auto &b = boxes[c.s.draw(boxes.size())];
            if (b.kind == 0 && !b.names.empty())
                ask = fn = b.path + "/" + c.s.pick(b.names);
        }
        std::string key, where;
        const Data *want = nullptr;
        bool none = false;
        if (direct >= 0 && boxes[direct].usable) {
            add(direct);
            wantbox = direct;
            contains(boxes[direct], q, key);
            fn = q;
        } else {
            for (int pass = 0; pass < 4 && wantbox == -1; ++pass) {
                // loose first: here, directories, archives; otherwise archives, directories, here
                int what = prefer ? pass : 2 - pass;
                if (what == 0) {
                    if (sf::is_regular_file(ask))
                        wantbox = -2;
                } else if (what == 1 && ask[0] != '/') {
                    for (int i : dirs)
                        if (contains(boxes[i], ask, key)) {
                            wantbox = i;
                            break;
                        }
                } else if (what == 2 && ask[0] != '/') {
                    for (int i : arcs)
                        if (contains(boxes[i], ask, key)) {
                            wantbox = i;
                            break;
                        }
                }
            }
            fn = ask;
        }
        Data dl;
        if (wantbox == -1)
            none = true;
        else if (wantbox == -2) {
            dl = bm::slurp(ask);
            want = &dl;
        } else {
            auto it = boxes[wantbox].files.find(key);
            if (it != boxes[wantbox].files.end() && !boxes[wantbox].out_of_file.count(key))
                want = &it->second;
        }
        auto desc = vh::cat("ask ", show(ask, c.scratch), prefer ? " (loose first)" : "");
        c.describe(desc);
        auto r = fs::where(ask, prefer);
        c.require((bool)r == !none, "found", vh::cat(desc, ": ", r ? "found in " + show(r.archive->pathname.string(), c.scratch) : "not found"));
        auto data = fs::load(ask, prefer);
        c.require(data.has_value() == (want != nullptr), "load", vh::cat(desc, ": ", data ? "loaded" : "not loaded"));
        if (r) {
            if (wantbox >= 0)
                c.require(!r.archive->pathname.empty() && sf::equivalent(r.archive->pathname, boxes[wantbox].path), "archive",
                    vh::cat(desc, ": found in ", show(r.archive->pathname.string(), c.scratch), ", want ", show(boxes[wantbox].path, c.scratch)));
            else
                c.require(r.archive->pathname.empty(), "loose", desc + ": not the loose file");
            c.require(r.filename == fs::path(fn), "filename", desc + ": file name " + r.filename.string());
            if (direct < 0 || !boxes[direct].usable)
                c.require(wantbox == -2 || r.archive->contains(r.filename), "contains", desc + ": archive denies the file");
        }
        if (want) {
            ++hits;
            c.require(*data == *want, "data", vh::cat(desc, ": ", data->size(), " bytes differ from the file's ", want->size()));
        }
    }
    c.nt(hits > 1 && n > 1);
    c.label(vh::cat(std::min<size_t>(dirs.size(), 3), " dirs ", std::min<size_t>(arcs.size(), 3), " archives"));
}
static void paths(Case &c)
{
    std::string cwd = c.scratch + "/cwd";
    sf::create_directories(cwd);
    if (chdir(cwd.c_str()))
        throw vh::Discard{};
    // splitting
    std::string arc = c.s.b() ? c.scratch + "/p/q.pak" : "q.pak";
    bool exists = c.s.chance(3, 4);
    if (exists)
        spew(sf::absolute(arc).string(), Data{1, 2});
    std::string inner = c.s.pick<std::string>({"a", "maps/x.bsp", "d/e/f.wal"});
    std::string whole = arc + "/" + inner;
    c.describe(show(whole, c.scratch));
    c.nt(exists);
    auto sp = fs::splitArchivePath(whole);
    c.require((bool)sp == exists, "split", "splitArchivePath");
    if (exists)
        c.require(sp.archive == fs::path(arc) && sp.filename == fs::path(inner), "split-parts", sp.archive.string() + " + " + sp.filename.string());
    auto want = exists ? sf::path(arc).parent_path() / inner : sf::path(whole);
    c.require(fs::resolveArchivePath(whole) == want, "resolve", "resolveArchivePath gave " + fs::resolveArchivePath(whole).string());
    // extensions
    std::string dir = c.s.pick<std::string>({"", "a/", "a.b/", "/x/y.z/", "./"}), stem = c.s.pick<std::string>({"map", "m.2", "name.bsp", ".hidden", "x."}), ext = c.s.pick<std::string>({"bsp", ".bsp", ".map"});
    std::string file = dir + stem;
    size_t dot = stem.rfind('.');
    bool has = dot != std::string::npos && dot != 0;
    std::string e = ext[0] == '.' ? ext : "." + ext;
    c.require(DefaultExtension(file, ext) == fs::path(has ? file : file + e), "default-ext", "DefaultExtension(" + file + ", " + ext + ") = " + DefaultExtension(file, ext).string());
}
VH_MAIN("C12", "at least two files loaded from at least two places / an archive that exists",
    (std::vector<std::string>{"names are unique within an archive ignoring case"}),
    vh::Sub{"search", search, 12000, 400000}, vh::Sub{"paths", paths, 4000, 100000})
