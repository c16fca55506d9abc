// Independent byte-level model of every on-disk BSP layout.
//
// The field order and widths below are written from the formats' public definitions
// (Quake, Hexen II, Half-Life, BSP2, 2PSB, Quake II, Qbism), not from the
// repository's serialisers: Enc is the oracle for what must be on disk.
#pragma once
#include "vh.hh"
#include <common/bspfile.hh>
#include <common/bspfile_q1.hh>
#include <common/bspfile_q2.hh>
#include <common/bspxfile.hh>
#include <common/fs.hh>
#include <common/log.hh>
#include <common/cmdlib.hh>
#include <fstream>

namespace bm
{
using bytes = std::vector<uint8_t>;

inline void p8(bytes &o, uint8_t v) { o.push_back(v); }
inline void p16(bytes &o, uint16_t v)
{
    o.push_back(v & 255);
    o.push_back(v >> 8);
}
inline void p32(bytes &o, uint32_t v)
{
    for (int i = 0; i < 4; ++i)
        o.push_back((v >> (8 * i)) & 255);
}
inline void pf(bytes &o, float f)
{
    uint32_t v;
    memcpy(&v, &f, 4);
    p32(o, v);
}
inline uint32_t g32(const bytes &b, size_t o) { return b[o] | b[o + 1] << 8 | b[o + 2] << 16 | (uint32_t)b[o + 3] << 24; }

struct Enc
{
    bytes &o;
    void u8(uint8_t &v) { p8(o, v); }
    void c8(char &v) { p8(o, (uint8_t)v); }
    void i16(int16_t &v) { p16(o, (uint16_t)v); }
    void u16(uint16_t &v) { p16(o, v); }
    void i32(int32_t &v) { p32(o, (uint32_t)v); }
    void u32(uint32_t &v) { p32(o, v); }
    void f32(float &v) { pf(o, v); }
};

struct Gen
{
    vh::Src &s;
    void u8(uint8_t &v) { v = (uint8_t)s.draw(256); }
    void c8(char &v) { v = (char)s.draw(256); }
    void i16(int16_t &v)
    {
        switch (s.draw(3)) {
            case 0: v = (int16_t)s.ito(-8, 8, 0); break;
            case 1: v = s.pick<int16_t>({32767, -32768, -1, -15, -16, -17, 256, -256}); break;
            default: v = (int16_t)s.ito(-32768, 32767, 0);
        }
    }
    void u16(uint16_t &v)
    {
        switch (s.draw(3)) {
            case 0: v = (uint16_t)s.draw(8); break;
            case 1: v = s.pick<uint16_t>({65535, 32768, 32767, 65520, 65521, 256, 255}); break;
            default: v = (uint16_t)s.draw(65536);
        }
    }
    void i32(int32_t &v) { v = s.i32(); }
    void u32(uint32_t &v) { v = (uint32_t)s.i32(); }
    void f32(float &v) { v = s.f32(); }
};

template<class V>
void vec3f(V &v, qvec3f &q)
{
    v.f32(q[0]);
    v.f32(q[1]);
    v.f32(q[2]);
}
template<class V>
void vec3s(V &v, qvec3s &q)
{
    v.i16(q[0]);
    v.i16(q[1]);
    v.i16(q[2]);
}

// ---- records, on-disk order -------------------------------------------------
template<class V>
void fields(V &v, dplane_t &p)
{
    vec3f(v, p.normal);
    v.f32(p.dist);
    v.i32(p.type);
}
template<class V>
void fields(V &v, qvec3f &p)
{
    vec3f(v, p);
}
template<class V>
void fields(V &v, bsp29_dnode_t &n)
{
    v.i32(n.planenum);
    v.i16(n.children[0]);
    v.i16(n.children[1]);
    vec3s(v, n.mins);
    vec3s(v, n.maxs);
    v.u16(n.firstface);
    v.u16(n.numfaces);
}
template<class V, class N>
void node_i32_s16_u32(V &v, N &n)
{
    v.i32(n.planenum);
    v.i32(n.children[0]);
    v.i32(n.children[1]);
    vec3s(v, n.mins);
    vec3s(v, n.maxs);
}
template<class V>
void fields(V &v, bsp2rmq_dnode_t &n)
{
    node_i32_s16_u32(v, n);
    v.u32(n.firstface);
    v.u32(n.numfaces);
}
template<class V>
void fields(V &v, q2_dnode_t &n)
{
    node_i32_s16_u32(v, n);
    v.u16(n.firstface);
    v.u16(n.numfaces);
}
template<class V>
void fields(V &v, bsp2_dnode_t &n)
{
    v.i32(n.planenum);
    v.i32(n.children[0]);
    v.i32(n.children[1]);
    vec3f(v, n.mins);
    vec3f(v, n.maxs);
    v.u32(n.firstface);
    v.u32(n.numfaces);
}
template<class V>
void texvecs(V &v, texvecf &t)
{
    for (int r = 0; r < 2; ++r)
        for (int c = 0; c < 4; ++c) {
            float x = t.at(r, c);
            v.f32(x);
            t.at(r, c) = x;
        }
}
template<class V>
void fields(V &v, texinfo_t &t)
{
    texvecs(v, t.vecs);
    v.i32(t.miptex);
    v.i32(t.flags);
}
template<class V>
void fields(V &v, q2_texinfo_t &t)
{
    texvecs(v, t.vecs);
    v.i32(t.flags);
    v.i32(t.value);
    for (auto &c : t.texture)
        v.c8(c);
    v.i32(t.nexttexinfo);
}
template<class V, class F>
void face_tail(V &v, F &f)
{
    for (auto &x : f.styles)
        v.u8(x);
    v.i32(f.lightofs);
}
template<class V>
void fields(V &v, bsp29_dface_t &f)
{
    v.i16(f.planenum);
    v.i16(f.side);
    v.i32(f.firstedge);
    v.i16(f.numedges);
    v.i16(f.texinfo);
    face_tail(v, f);
}
template<class V>
void fields(V &v, q2_dface_t &f)
{
    v.u16(f.planenum);
    v.i16(f.side);
    v.i32(f.firstedge);
    v.i16(f.numedges);
    v.i16(f.texinfo);
    face_tail(v, f);
}
template<class V>
void fields(V &v, bsp2_dface_t &f)
{
    v.i32(f.planenum);
    v.i32(f.side);
    v.i32(f.firstedge);
    v.i32(f.numedges);
    v.i32(f.texinfo);
    face_tail(v, f);
}
template<class V>
void fields(V &v, q2_dface_qbism_t &f)
{
    v.u32(f.planenum);
    v.i32(f.side);
    v.i32(f.firstedge);
    v.i32(f.numedges);
    v.i32(f.texinfo);
    face_tail(v, f);
}
template<class V>
void fields(V &v, bsp29_dclipnode_t &c)
{
    v.i32(c.planenum);
    v.i16(c.children[0]);
    v.i16(c.children[1]);
}
template<class V>
void fields(V &v, bsp2_dclipnode_t &c)
{
    v.i32(c.planenum);
    v.i32(c.children[0]);
    v.i32(c.children[1]);
}
template<class V>
void fields(V &v, bsp29_dleaf_t &l)
{
    v.i32(l.contents);
    v.i32(l.visofs);
    vec3s(v, l.mins);
    vec3s(v, l.maxs);
    v.u16(l.firstmarksurface);
    v.u16(l.nummarksurfaces);
    for (auto &a : l.ambient_level)
        v.u8(a);
}
template<class V>
void fields(V &v, bsp2rmq_dleaf_t &l)
{
    v.i32(l.contents);
    v.i32(l.visofs);
    vec3s(v, l.mins);
    vec3s(v, l.maxs);
    v.u32(l.firstmarksurface);
    v.u32(l.nummarksurfaces);
    for (auto &a : l.ambient_level)
        v.u8(a);
}
template<class V>
void fields(V &v, bsp2_dleaf_t &l)
{
    v.i32(l.contents);
    v.i32(l.visofs);
    vec3f(v, l.mins);
    vec3f(v, l.maxs);
    v.u32(l.firstmarksurface);
    v.u32(l.nummarksurfaces);
    for (auto &a : l.ambient_level)
        v.u8(a);
}
template<class V>
void fields(V &v, q2_dleaf_t &l)
{
    v.i32(l.contents);
    v.i16(l.cluster);
    v.i16(l.area);
    vec3s(v, l.mins);
    vec3s(v, l.maxs);
    v.u16(l.firstleafface);
    v.u16(l.numleaffaces);
    v.u16(l.firstleafbrush);
    v.u16(l.numleafbrushes);
}
template<class V>
void fields(V &v, q2_dleaf_qbism_t &l)
{
    v.i32(l.contents);
    v.i32(l.cluster);
    v.i32(l.area);
    vec3f(v, l.mins);
    vec3f(v, l.maxs);
    v.u32(l.firstleafface);
    v.u32(l.numleaffaces);
    v.u32(l.firstleafbrush);
    v.u32(l.numleafbrushes);
}
template<class V>
void fields(V &v, uint16_t &x)
{
    v.u16(x);
}
template<class V>
void fields(V &v, uint32_t &x)
{
    v.u32(x);
}
template<class V>
void fields(V &v, int32_t &x)
{
    v.i32(x);
}
template<class V>
void fields(V &v, uint8_t &x)
{
    v.u8(x);
}
template<class V>
void fields(V &v, bsp29_dedge_t &e)
{
    v.u16(e[0]);
    v.u16(e[1]);
}
template<class V>
void fields(V &v, bsp2_dedge_t &e)
{
    v.u32(e[0]);
    v.u32(e[1]);
}
template<class V, class M>
void q1model(V &v, M &m)
{
    vec3f(v, m.mins);
    vec3f(v, m.maxs);
    vec3f(v, m.origin);
    for (auto &h : m.headnode)
        v.i32(h);
    v.i32(m.visleafs);
    v.i32(m.firstface);
    v.i32(m.numfaces);
}
template<class V>
void fields(V &v, dmodelq1_t &m)
{
    q1model(v, m);
}
template<class V>
void fields(V &v, dmodelh2_t &m)
{
    q1model(v, m);
}
template<class V>
void fields(V &v, q2_dmodel_t &m)
{
    vec3f(v, m.mins);
    vec3f(v, m.maxs);
    vec3f(v, m.origin);
    v.i32(m.headnode);
    v.i32(m.firstface);
    v.i32(m.numfaces);
}
template<class V>
void fields(V &v, darea_t &a)
{
    v.i32(a.numareaportals);
    v.i32(a.firstareaportal);
}
template<class V>
void fields(V &v, dareaportal_t &a)
{
    v.i32(a.portalnum);
    v.i32(a.otherarea);
}
template<class V>
void fields(V &v, dbrush_t &b)
{
    v.i32(b.firstside);
    v.i32(b.numsides);
    v.i32(b.contents);
}
template<class V>
void fields(V &v, q2_dbrushside_t &b)
{
    v.u16(b.planenum);
    v.i16(b.texinfo);
}
template<class V>
void fields(V &v, q2_dbrushside_qbism_t &b)
{
    v.u32(b.planenum);
    v.i32(b.texinfo);
}

template<class T>
bytes enc(const std::vector<T> &a)
{
    bytes o;
    Enc e{o};
    for (auto v : a)
        fields(e, v);
    return o;
}
inline bytes enc(const std::string &s)
{
    bytes o(s.begin(), s.end());
    o.push_back(0);
    return o;
}
// Quake II visibility lump: count, {pvs, phs} byte offsets, rows
inline bytes enc(const mvis_t &m)
{
    bytes o;
    if (m.bit_offsets.empty())
        return o;
    p32(o, m.bit_offsets.size());
    for (auto &b : m.bit_offsets) {
        p32(o, b[0]);
        p32(o, b[1]);
    }
    o.insert(o.end(), m.bits.begin(), m.bits.end());
    return o;
}
// Quake miptex lump: count, offsets (-1: missing), each texture 4-aligned
inline bytes enc(const dmiptexlump_t &t)
{
    bytes o, d;
    p32(o, t.textures.size());
    size_t base = 4 + 4 * t.textures.size();
    for (auto &x : t.textures) {
        if (x.null_texture) {
            p32(o, 0xffffffffu);
            continue;
        }
        while (d.size() % 4)
            d.push_back(0);
        p32(o, base + d.size());
        d.insert(d.end(), x.data.begin(), x.data.end());
    }
    o.insert(o.end(), d.begin(), d.end());
    return o;
}

// ---- lump tables ------------------------------------------------------------
template<class B, class F>
void q1lumps(B &b, F &&f)
{
    f(0, "entities", b.dentdata);
    f(1, "planes", b.dplanes);
    f(2, "textures", b.dtex);
    f(3, "vertexes", b.dvertexes);
    f(4, "visibility", b.dvisdata);
    f(5, "nodes", b.dnodes);
    f(6, "texinfo", b.texinfo);
    f(7, "faces", b.dfaces);
    f(8, "lighting", b.dlightdata);
    f(9, "clipnodes", b.dclipnodes);
    f(10, "leafs", b.dleafs);
    f(11, "marksurfaces", b.dmarksurfaces);
    f(12, "edges", b.dedges);
    f(13, "surfedges", b.dsurfedges);
    if (std::holds_alternative<dmodelh2_vector>(b.dmodels))
        f(14, "models", std::get<dmodelh2_vector>(b.dmodels));
    else if (std::holds_alternative<dmodelq1_vector>(b.dmodels))
        f(14, "models", std::get<dmodelq1_vector>(b.dmodels));
}
template<class B, class F>
void q2lumps(B &b, F &&f)
{
    f(0, "entities", b.dentdata);
    f(1, "planes", b.dplanes);
    f(2, "vertexes", b.dvertexes);
    f(3, "visibility", b.dvis);
    f(4, "nodes", b.dnodes);
    f(5, "texinfo", b.texinfo);
    f(6, "faces", b.dfaces);
    f(7, "lighting", b.dlightdata);
    f(8, "leafs", b.dleafs);
    f(9, "leaffaces", b.dleaffaces);
    f(10, "leafbrushes", b.dleafbrushes);
    f(11, "edges", b.dedges);
    f(12, "surfedges", b.dsurfedges);
    f(13, "models", b.dmodels);
    f(14, "brushes", b.dbrushes);
    f(15, "brushsides", b.dbrushsides);
    f(17, "areas", b.dareas);
    f(18, "areaportals", b.dareaportals);
}
template<class F>
void lumps(bsp29_t &b, F &&f)
{
    q1lumps(b, f);
}
template<class F>
void lumps(bsp2rmq_t &b, F &&f)
{
    q1lumps(b, f);
}
template<class F>
void lumps(bsp2_t &b, F &&f)
{
    q1lumps(b, f);
}
template<class F>
void lumps(q2bsp_t &b, F &&f)
{
    q2lumps(b, f);
}
template<class F>
void lumps(q2bsp_qbism_t &b, F &&f)
{
    q2lumps(b, f);
}

// encoded lumps by number
using Lumps = std::map<int, bytes>;
template<class B>
Lumps enc_lumps(B &b)
{
    Lumps r;
    lumps(b, [&](int n, const char *, auto &x) { r[n] = enc(x); });
    return r;
}
inline Lumps enc_lumps(bspdata_t &d)
{
    Lumps r;
    std::visit(
        [&](auto &b) {
            using T = std::decay_t<decltype(b)>;
            if constexpr (!std::is_same_v<T, std::monostate> && !std::is_same_v<T, mbsp_t>)
                r = enc_lumps(b);
        },
        d.bsp);
    return r;
}
inline bool is_q2(const bspversion_t *v) { return v == &bspver_q2 || v == &bspver_qbism; }
inline int num_lumps(const bspversion_t *v) { return is_q2(v) ? 19 : 15; }
inline const char *lump_name(bool q2, int n)
{
    static const char *q1n[] = {"entities", "planes", "textures", "vertexes", "visibility", "nodes", "texinfo", "faces",
        "lighting", "clipnodes", "leafs", "marksurfaces", "edges", "surfedges", "models"};
    static const char *q2n[] = {"entities", "planes", "vertexes", "visibility", "nodes", "texinfo", "faces", "lighting",
        "leafs", "leaffaces", "leafbrushes", "edges", "surfedges", "models", "brushes", "brushsides", "pop", "areas",
        "areaportals"};
    return q2 ? q2n[n] : q1n[n];
}
// the first bytes of each format, as published
inline bytes magic(const bspversion_t *v)
{
    if (v == &bspver_q1 || v == &bspver_h2)
        return {29, 0, 0, 0};
    if (v == &bspver_hl)
        return {30, 0, 0, 0};
    if (v == &bspver_bsp2 || v == &bspver_h2bsp2)
        return {'B', 'S', 'P', '2'};
    if (v == &bspver_bsp2rmq || v == &bspver_h2bsp2rmq)
        return {'2', 'P', 'S', 'B'};
    if (v == &bspver_q2)
        return {'I', 'B', 'S', 'P', 38, 0, 0, 0};
    if (v == &bspver_qbism)
        return {'Q', 'B', 'S', 'P', 38, 0, 0, 0};
    return {};
}
inline const std::vector<const bspversion_t *> &versions()
{
    static std::vector<const bspversion_t *> v{&bspver_q1, &bspver_h2, &bspver_h2bsp2, &bspver_h2bsp2rmq, &bspver_bsp2,
        &bspver_bsp2rmq, &bspver_hl, &bspver_q2, &bspver_qbism};
    return v;
}
inline bool is_h2(const bspversion_t *v)
{
    return v == &bspver_h2 || v == &bspver_h2bsp2 || v == &bspver_h2bsp2rmq;
}

// ---- generation -------------------------------------------------------------
template<class T>
void gen(vh::Src &s, std::vector<T> &a, int lo, int hi)
{
    a.resize(s.count(lo, hi));
    Gen g{s};
    for (auto &x : a)
        fields(g, x);
}
inline std::string gen_text(vh::Src &s, int hi)
{
    std::string r;
    int n = s.count(0, hi);
    for (int i = 0; i < n; ++i)
        r += s.chance(1, 6) ? (char)s.i(1, 255) : (char)s.i(32, 126);
    return r;
}
inline void gen_tex(vh::Src &s, dmiptexlump_t &t, int hi)
{
    int n = s.count(0, hi);
    for (int i = 0; i < n; ++i) {
        miptex_t m;
        if (s.chance(1, 5)) {
            m.null_texture = true;
            m.width = m.height = 0;
            m.offsets = {};
        } else {
            // 40-byte header + payload (a multiple of four: the writer aligns each texture)
            bytes h;
            std::string name;
            int l = (int)s.i(0, 15);
            for (int k = 0; k < l; ++k)
                name += (char)s.i(33, 126);
            for (int k = 0; k < 16; ++k)
                h.push_back(k < l ? name[k] : 0);
            uint32_t w = (uint32_t)s.i(0, 64), hh = (uint32_t)s.i(0, 64);
            p32(h, w);
            p32(h, hh);
            std::array<int32_t, 4> ofs;
            for (auto &o : ofs) {
                o = (int32_t)s.i(0, 4000);
                p32(h, o);
            }
            auto extra = s.bytes(4 * s.count(0, 10));
            h.insert(h.end(), extra.begin(), extra.end());
            m.name = name;
            m.width = w;
            m.height = hh;
            m.offsets = ofs;
            m.data = h;
        }
        t.textures.push_back(m);
    }
}
template<class M>
void gen_models(vh::Src &s, std::vector<M> &v, int hi)
{
    v.resize(s.chance(1, 4) ? s.pick<int>({4, 5, 10}) : s.count(1, hi));
    Gen g{s};
    for (auto &m : v)
        fields(g, m);
}
template<class B>
void gen_q1(vh::Src &s, B &b, const bspversion_t *ver, int hi)
{
    b.dentdata = gen_text(s, 60);
    gen(s, b.dplanes, 0, hi);
    gen_tex(s, b.dtex, 4);
    gen(s, b.dvertexes, 0, hi);
    gen(s, b.dvisdata, 0, 23);
    gen(s, b.dnodes, 1, hi);
    gen(s, b.texinfo, 0, hi);
    gen(s, b.dfaces, 0, hi);
    gen(s, b.dlightdata, 0, 23);
    gen(s, b.dclipnodes, 1, hi);
    gen(s, b.dleafs, 1, hi);
    gen(s, b.dmarksurfaces, 0, hi);
    gen(s, b.dedges, 0, hi);
    gen(s, b.dsurfedges, 0, hi);
    if (is_h2(ver)) {
        auto &v = b.dmodels.template emplace<dmodelh2_vector>();
        gen_models(s, v, 6);
        // what every real file satisfies and the format detection relies on
        for (auto &m : v) {
            m.visleafs = (int32_t)s.i(0, b.dleafs.size());
            m.firstface = (int32_t)s.i(0, b.dfaces.size());
            m.numfaces = (int32_t)s.i(0, b.dfaces.size() - m.firstface);
            m.headnode[0] = (int32_t)s.i(-3, b.dnodes.size() - 1);
            for (int h = 1; h < 8; ++h)
                m.headnode[h] = (int32_t)s.i(-3, b.dclipnodes.size() - 1);
        }
    } else {
        auto &v = b.dmodels.template emplace<dmodelq1_vector>();
        gen_models(s, v, 6);
        for (auto &m : v) {
            for (int k = 0; k < 3; ++k) {
                m.mins[k] = -1.0f - (float)s.i(0, 4000);
                m.maxs[k] = 1.0f + (float)s.i(0, 4000);
            }
        }
    }
}
inline void gen_mvis(vh::Src &s, mvis_t &m)
{
    int n = s.count(0, 6);
    m.bit_offsets.resize(n);
    for (auto &b : m.bit_offsets)
        for (auto &x : b)
            x = s.i32();
    if (n)
        m.bits = s.bytes(s.count(0, 20));
}
template<class B>
void gen_q2(vh::Src &s, B &b, int hi)
{
    b.dentdata = gen_text(s, 60);
    gen(s, b.dplanes, 0, hi);
    gen(s, b.dvertexes, 0, hi);
    gen_mvis(s, b.dvis);
    gen(s, b.dnodes, 0, hi);
    gen(s, b.texinfo, 0, hi);
    gen(s, b.dfaces, 0, hi);
    gen(s, b.dlightdata, 0, 23);
    gen(s, b.dleafs, 0, hi);
    gen(s, b.dleaffaces, 0, hi);
    gen(s, b.dleafbrushes, 0, hi);
    gen(s, b.dedges, 0, hi);
    gen(s, b.dsurfedges, 0, hi);
    gen(s, b.dmodels, 0, hi);
    gen(s, b.dbrushes, 0, hi);
    gen(s, b.dbrushsides, 0, hi);
    gen(s, b.dareas, 0, hi);
    gen(s, b.dareaportals, 0, hi);
}
inline void gen_bsp(vh::Src &s, bspdata_t &d, const bspversion_t *ver, int hi)
{
    d.version = ver;
    d.loadversion = nullptr;
    if (ver == &bspver_q1 || ver == &bspver_h2 || ver == &bspver_hl)
        gen_q1(s, d.bsp.emplace<bsp29_t>(), ver, hi);
    else if (ver == &bspver_bsp2 || ver == &bspver_h2bsp2)
        gen_q1(s, d.bsp.emplace<bsp2_t>(), ver, hi);
    else if (ver == &bspver_bsp2rmq || ver == &bspver_h2bsp2rmq)
        gen_q1(s, d.bsp.emplace<bsp2rmq_t>(), ver, hi);
    else if (ver == &bspver_q2)
        gen_q2(s, d.bsp.emplace<q2bsp_t>(), hi);
    else
        gen_q2(s, d.bsp.emplace<q2bsp_qbism_t>(), hi);
}
inline std::map<std::string, bytes> gen_bspx(vh::Src &s, int hi)
{
    std::map<std::string, bytes> r;
    int n = s.count(0, hi);
    for (int i = 0; i < n; ++i) {
        std::string name;
        if (s.chance(1, 2))
            name = s.pick<std::string>({"RGBLIGHTING", "LIGHTINGDIR", "LMSHIFT", "BRUSHLIST", "FACENORMALS",
                "DECOUPLED_LM", "LIGHTGRID_OCTREE", "LMSTYLE", "LMSTYLE16", "LMOFFSET", "VERTEXNORMALS"});
        else {
            int l = (int)s.i(1, 23);
            for (int k = 0; k < l; ++k)
                name += (char)s.i(33, 126);
        }
        r[name] = s.bytes(s.count(0, 21));
    }
    return r;
}

// ---- files ------------------------------------------------------------------
inline bytes slurp(const std::string &p)
{
    std::ifstream f(p, std::ios::binary);
    return bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
inline void spew(const std::string &p, const bytes &b)
{
    std::ofstream f(p, std::ios::binary);
    f.write((const char *)b.data(), b.size());
}

// Builds a file from encoded lumps; `order` and `gaps` vary the physical layout.
inline bytes build_file(const bspversion_t *ver, const Lumps &l, const std::vector<int> &order,
    const std::vector<int> &gaps, const std::map<std::string, bytes> *bspx, bool with_bspx)
{
    bytes o = magic(ver);
    size_t dir = o.size();
    int n = num_lumps(ver);
    o.resize(dir + 8 * n, 0);
    auto set = [&](size_t at, uint32_t v) {
        for (int i = 0; i < 4; ++i)
            o[at + i] = (v >> (8 * i)) & 255;
    };
    size_t end = o.size();
    for (size_t i = 0; i < order.size(); ++i) {
        int k = order[i];
        o.resize((o.size() + 3) & ~size_t(3), 0);
        o.resize(o.size() + 4 * gaps[i], 0xAA);
        auto it = l.find(k);
        size_t len = it == l.end() ? 0 : it->second.size();
        set(dir + 8 * k, o.size());
        set(dir + 8 * k + 4, len);
        if (len)
            o.insert(o.end(), it->second.begin(), it->second.end());
        end = o.size();
    }
    (void)end;
    if (with_bspx) {
        o.resize((o.size() + 3) & ~size_t(3), 0);
        for (char c : std::string("BSPX"))
            o.push_back(c);
        p32(o, bspx->size());
        size_t xdir = o.size();
        o.resize(o.size() + 32 * bspx->size(), 0);
        size_t i = 0;
        for (auto &[name, data] : *bspx) {
            for (size_t k = 0; k < name.size(); ++k)
                o[xdir + 32 * i + k] = name[k];
            set(xdir + 32 * i + 24, o.size());
            set(xdir + 32 * i + 28, data.size());
            o.insert(o.end(), data.begin(), data.end());
            o.resize((o.size() + 3) & ~size_t(3), 0);
            ++i;
        }
    }
    return o;
}
struct Parsed
{
    bool ok = false;
    std::string err;
    Lumps lumps;
    std::map<int, std::pair<uint32_t, uint32_t>> dir;
    std::map<std::string, bytes> bspx;
    bool has_bspx = false;
};
// Independent reader of the container (header directory + BSPX directory).
inline Parsed parse_file(const bspversion_t *ver, const bytes &f)
{
    Parsed p;
    bytes m = magic(ver);
    if (f.size() < m.size() || !std::equal(m.begin(), m.end(), f.begin())) {
        p.err = "bad magic";
        return p;
    }
    size_t end = 0;
    int n = num_lumps(ver);
    if (f.size() < m.size() + 8 * n) {
        p.err = "short header";
        return p;
    }
    for (int i = 0; i < n; ++i) {
        uint64_t o = g32(f, m.size() + 8 * i), l = g32(f, m.size() + 8 * i + 4);
        if (o + l > f.size()) {
            p.err = vh::cat("lump ", lump_name(is_q2(ver), i), " [", o, ",+", l, ") outside the file of ", f.size());
            return p;
        }
        if (l && o < m.size() + 8 * n) {
            p.err = vh::cat("lump ", lump_name(is_q2(ver), i), " overlaps the header");
            return p;
        }
        if (l && o % 4) {
            p.err = vh::cat("lump ", lump_name(is_q2(ver), i), " is not 4-aligned");
            return p;
        }
        p.dir[i] = {(uint32_t)o, (uint32_t)l};
        p.lumps[i] = bytes(f.begin() + o, f.begin() + o + l);
        end = std::max(end, size_t(o + l));
    }
    for (auto &[i, a] : p.dir)
        for (auto &[j, b] : p.dir)
            if (i < j && a.second && b.second && a.first < b.first + b.second && b.first < a.first + a.second) {
                p.err = vh::cat("lumps ", lump_name(is_q2(ver), i), " and ", lump_name(is_q2(ver), j), " overlap");
                return p;
            }
    end = (end + 3) & ~size_t(3);
    if (end + 8 <= f.size() && !memcmp(&f[end], "BSPX", 4)) {
        p.has_bspx = true;
        uint32_t k = g32(f, end + 4);
        for (uint32_t i = 0; i < k; ++i) {
            size_t at = end + 8 + 32 * i;
            if (at + 32 > f.size()) {
                p.err = "BSPX directory outside the file";
                return p;
            }
            std::string name((const char *)&f[at], strnlen((const char *)&f[at], 24));
            uint64_t o = g32(f, at + 24), l = g32(f, at + 28);
            if (o + l > f.size()) {
                p.err = "BSPX lump outside the file";
                return p;
            }
            p.bspx[name] = bytes(f.begin() + o, f.begin() + o + l);
        }
    }
    p.ok = true;
    return p;
}
inline std::string diff_lumps(const Lumps &want, const Lumps &got, bool q2)
{
    for (auto &[n, w] : want) {
        auto it = got.find(n);
        bytes empty;
        const bytes &g = it == got.end() ? empty : it->second;
        if (g != w) {
            size_t i = 0;
            while (i < g.size() && i < w.size() && g[i] == w[i])
                ++i;
            return vh::cat("lump ", lump_name(q2, n), ": expected ", w.size(), " bytes, got ", g.size(),
                ", first difference at byte ", i, "\n  want ", vh::hexs(bytes(w.begin() + std::min(i / 4 * 4, w.size()), w.end()), 32),
                "\n  got  ", vh::hexs(bytes(g.begin() + std::min(i / 4 * 4, g.size()), g.end()), 32));
        }
    }
    for (auto &[n, g] : got)
        if (!want.count(n) && !g.empty())
            return vh::cat("unexpected data in lump ", lump_name(q2, n));
    return "";
}
} // namespace bm
