From 74a6cd08de89ff9952434fc4e1047b3942dc06a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:11 +0000
Subject: [PATCH 01/85] fix: make the Embree 4 ray streams compile

The Embree 4 branches used a member that no longer exists (_numrays) and passed
the whole ray_io record where Embree expects its RTCRayHit/RTCRay member, so the
light tool could not be built against Embree 4.
---
 include/light/trace_embree.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/light/trace_embree.hh b/include/light/trace_embree.hh
index f866be4..d44d4d9 100644
--- a/include/light/trace_embree.hh
+++ b/include/light/trace_embree.hh
@@ -264,8 +264,8 @@ public:
 
 #ifdef HAVE_EMBREE4
         RTCIntersectArguments embree4_args = ctx2.setup_intersection_arguments();
-        for (int i = 0; i < _numrays; ++i)
-            rtcIntersect1(scene, &_rays[i], &embree4_args);
+        for (auto &ray : _rays)
+            rtcIntersect1(scene, &ray.ray, &embree4_args);
 #else
         rtcIntersect1M(scene, &ctx2, &_rays.data()->ray, _rays.size(), sizeof(_rays[0]));
 #endif
@@ -346,8 +346,8 @@ public:
         ray_source_info ctx2(this, self, shadowmask);
 #ifdef HAVE_EMBREE4
         RTCOccludedArguments embree4_args = ctx2.setup_occluded_arguments();
-        for (int i = 0; i < _numrays; ++i)
-            rtcOccluded1(scene, &_rays[i], &embree4_args);
+        for (auto &ray : _rays)
+            rtcOccluded1(scene, &ray.ray, &embree4_args);
 #else
         rtcOccluded1M(scene, &ctx2, &_rays.data()->ray, _rays.size(), sizeof(_rays[0]));
 #endif
-- 
2.43.0


From f1099fa1c5b374561e7c8f1cb44c71ac2927ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:38 +0000
Subject: [PATCH 02/85] fix: bound membuf reads, writes and seeks to the buffer

---
 common/cmdlib.cc | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index f90d9b2..8b62585 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -152,6 +152,14 @@ void membuf::setpptrs(char *first, char *next, char *end)
 
 membuf::pos_type membuf::seekpos(pos_type off, std::ios_base::openmode which)
 {
+    // refuse to move outside of the buffer
+    if ((which & std::ios_base::in) && (off < 0 || off > (egptr() - eback()))) {
+        return pos_type(off_type(-1));
+    }
+    if ((which & std::ios_base::out) && (off < 0 || off > (epptr() - pbase()))) {
+        return pos_type(off_type(-1));
+    }
+
     if (which & std::ios_base::in) {
         setg(eback(), eback() + off, egptr());
     }
@@ -169,6 +177,19 @@ membuf::pos_type membuf::seekpos(pos_type off, std::ios_base::openmode which)
 
 membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which)
 {
+    // refuse to move outside of the buffer
+    auto out_of_range = [&](const char *first, const char *next, const char *end) {
+        const off_type from = dir == std::ios_base::cur ? next - first : dir == std::ios_base::end ? end - first : 0;
+        return off < -from || off > (end - first) - from;
+    };
+
+    if ((which & std::ios_base::in) && out_of_range(eback(), gptr(), egptr())) {
+        return pos_type(off_type(-1));
+    }
+    if ((which & std::ios_base::out) && out_of_range(pbase(), pptr(), epptr())) {
+        return pos_type(off_type(-1));
+    }
+
     if (which & std::ios_base::in) {
         if (dir == std::ios_base::cur)
             gbump(off);
@@ -196,15 +217,15 @@ membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::
 
 std::streamsize membuf::xsputn(const char_type *s, std::streamsize n)
 {
-    if (pptr() == epptr()) {
-        return traits_type::eof();
-    }
-
     std::streamsize free_space = epptr() - pptr();
     std::streamsize num_write = std::min(free_space, n);
 
-    memcpy(pptr(), s, n);
-    setpptrs(pbase(), pptr() + n, epptr());
+    if (num_write <= 0) {
+        return 0;
+    }
+
+    memcpy(pptr(), s, num_write);
+    setpptrs(pbase(), pptr() + num_write, epptr());
 
     return num_write;
 }
@@ -216,15 +237,15 @@ membuf::int_type membuf::overflow(int_type ch)
 
 std::streamsize membuf::xsgetn(char_type *s, std::streamsize n)
 {
-    if (gptr() == egptr()) {
-        return traits_type::eof();
-    }
-
     std::streamsize free_space = egptr() - gptr();
     std::streamsize num_read = std::min(free_space, n);
 
-    memcpy(s, gptr(), n);
-    setg(eback(), gptr() + n, egptr());
+    if (num_read <= 0) {
+        return 0;
+    }
+
+    memcpy(s, gptr(), num_read);
+    setg(eback(), gptr() + num_read, egptr());
 
     return num_read;
 }
-- 
2.43.0


From 6617d4c5fcb75889bc187aa23e49eb775b22187a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:46 +0000
Subject: [PATCH 03/85] fix: round Quake II leaf maxs outward when narrowing

---
 common/bspfile_q2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile_q2.cc b/common/bspfile_q2.cc
index a49816b..06dadfc 100644
--- a/common/bspfile_q2.cc
+++ b/common/bspfile_q2.cc
@@ -180,7 +180,7 @@ q2_dleaf_t::q2_dleaf_t(const mleaf_t &model)
       cluster(numeric_cast<int16_t>(model.cluster, "dleaf_t::cluster")),
       area(numeric_cast<int16_t>(model.area, "dleaf_t::area")),
       mins(aabb_mins_cast<int16_t>(model.mins, "dleaf_t::mins")),
-      maxs(aabb_mins_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
+      maxs(aabb_maxs_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
       firstleafface(numeric_cast<uint16_t>(model.firstmarksurface, "dleaf_t::firstmarksurface")),
       numleaffaces(numeric_cast<uint16_t>(model.nummarksurfaces, "dleaf_t::nummarksurfaces")),
       firstleafbrush(numeric_cast<uint16_t>(model.firstleafbrush, "dleaf_t::firstleafbrush")),
-- 
2.43.0


From 242e98d7f159bfc36aa060592863a055cc42e000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 04/85] fix: report unsupported BSP versions instead of
 formatting a null name

---
 include/common/bspfile_common.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/common/bspfile_common.hh b/include/common/bspfile_common.hh
index 082081d..847ee71 100644
--- a/include/common/bspfile_common.hh
+++ b/include/common/bspfile_common.hh
@@ -478,6 +478,11 @@ struct fmt::formatter<bspversion_t>
             return fmt::format_to(ctx.out(), "{}:{}", ident, v.version.value());
         }
 
+        // unknown versions only have the number from the file
+        if (!v.short_name) {
+            return fmt::format_to(ctx.out(), "{}", v.ident);
+        }
+
         // Q1-esque BSPs are printed as, ex, bsp29
         return fmt::format_to(ctx.out(), "{}", v.short_name);
     }
-- 
2.43.0


From fd18b8b99db8e5e9b5d2292c2fd7d39006155106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 05/85] fix: reject BSP lumps and tables outside of the file

---
 common/bspfile.cc                 | 28 +++++++++++++++++++++++-----
 common/bspfile_generic.cc         | 30 ++++++++++++++++++++++++++----
 include/common/bspfile_generic.hh |  4 ++--
 3 files changed, 51 insertions(+), 11 deletions(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index f79d0ec..9ed4d6e 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -27,6 +27,7 @@
 #include <common/numeric_cast.hh>
 
 #include <cstdint>
+#include <cstring>
 #include <limits.h>
 
 #include <fmt/core.h>
@@ -2244,6 +2245,17 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
         logging::print("BSP is version {}\n", temp_version);
         Error("Sorry, this bsp version is not supported.");
     } else {
+        // the header and every lump have to lie inside the file
+        if (!stream) {
+            FError("\"{}\" has a truncated header", filename);
+        }
+        for (const lump_t &lump : lumps) {
+            if (lump.filelen && (lump.fileofs < 0 || lump.filelen < 0 ||
+                                    static_cast<size_t>(lump.fileofs) + lump.filelen > file_data->size())) {
+                FError("\"{}\" has a lump outside of the file", filename);
+            }
+        }
+
         // special case handling for Hexen II
         if (bspdata->version->game->id == GAME_QUAKE && isHexen2((dheader_t *)file_data->data(), bspdata->version)) {
             if (bspdata->version == &bspver_q1) {
@@ -2280,10 +2292,13 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
     // detect BSPX
     /*bspx header is positioned exactly+4align at the end of the last lump position (regardless of order)*/
     for (i = 0, bspxofs = 0; i < lumps.size(); i++) {
-        bspxofs = std::max(bspxofs, static_cast<size_t>(lumps[i].fileofs + lumps[i].filelen));
+        if (lumps[i].fileofs < 0) {
+            continue;
+        }
+        bspxofs = std::max(bspxofs, static_cast<size_t>(lumps[i].fileofs) + lumps[i].filelen);
     }
 
-    bspxofs = (bspxofs + 3) & ~3;
+    bspxofs = (bspxofs + 3) & ~static_cast<size_t>(3);
 
     /*okay, so that's where it *should* be if it exists */
     if (bspxofs + sizeof(bspx_header_t) <= file_data->size()) {
@@ -2305,13 +2320,16 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
                 return;
             }
 
-            if (xlump.fileofs > file_data->size() || (xlump.fileofs + xlump.filelen) > file_data->size()) {
+            if (xlump.fileofs > file_data->size() || xlump.filelen > file_data->size() - xlump.fileofs) {
                 logging::print("WARNING: invalid BSPX lump at index {}\n", i);
                 return;
             }
 
-            bspdata->bspx.transfer(xlump.lumpname.data(), std::vector<uint8_t>(file_data->begin() + xlump.fileofs,
-                                                              file_data->begin() + xlump.fileofs + xlump.filelen));
+            // the name is only null terminated if it's shorter than the field
+            const std::string lumpname(xlump.lumpname.data(), strnlen(xlump.lumpname.data(), xlump.lumpname.size()));
+
+            bspdata->bspx.transfer(lumpname.c_str(), std::vector<uint8_t>(file_data->begin() + xlump.fileofs,
+                                                         file_data->begin() + xlump.fileofs + xlump.filelen));
         }
     }
 }
diff --git a/common/bspfile_generic.cc b/common/bspfile_generic.cc
index 879f7e5..3d061b7 100644
--- a/common/bspfile_generic.cc
+++ b/common/bspfile_generic.cc
@@ -20,6 +20,8 @@
 #include <common/bspfile.hh>
 #include <common/cmdlib.hh>
 
+#include <cstring>
+
 // dmodelh2_t
 
 void dmodelh2_t::stream_write(std::ostream &s) const
@@ -56,10 +58,18 @@ void mvis_t::resize(size_t numclusters)
 
 void mvis_t::stream_read(std::istream &stream, const lump_t &lump)
 {
-    int32_t numclusters;
+    int32_t numclusters = 0;
 
     stream >= numclusters;
 
+    // the offset table has to fit in the lump
+    if (numclusters < 0 ||
+        static_cast<int64_t>(numclusters) * static_cast<int64_t>(sizeof(bit_offsets[0])) + sizeof(int32_t) >
+            lump.filelen) {
+        stream.setstate(std::ios_base::failbit);
+        return;
+    }
+
     resize(numclusters);
 
     // read cluster -> offset tables
@@ -115,10 +125,10 @@ void miptex_t::stream_read(std::istream &stream, size_t len)
 
     imemstream miptex_stream(data.data(), len);
 
-    dmiptex_t dtex;
+    dmiptex_t dtex{};
     miptex_stream >= dtex;
 
-    name = dtex.name.data();
+    name = std::string(dtex.name.data(), strnlen(dtex.name.data(), dtex.name.size()));
     width = dtex.width;
     height = dtex.height;
     offsets = dtex.offsets;
@@ -133,9 +143,16 @@ void miptex_t::stream_write(std::ostream &stream) const
 
 void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
 {
-    int32_t nummiptex;
+    int32_t nummiptex = 0;
     stream >= nummiptex;
 
+    // the offset table has to fit in the lump
+    if (nummiptex < 0 ||
+        static_cast<int64_t>(nummiptex) * static_cast<int64_t>(sizeof(int32_t)) + sizeof(int32_t) > lump.filelen) {
+        stream.setstate(std::ios_base::failbit);
+        return;
+    }
+
     // load in all of the offsets, we need them
     // to calculate individual data sizes
     std::vector<int32_t> offsets(nummiptex);
@@ -177,6 +194,11 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
             next_offset = lump.filelen;
         }
 
+        if (next_offset > lump.filelen) {
+            stream.setstate(std::ios_base::failbit);
+            return;
+        }
+
         if (next_offset > offset) {
             tex.stream_read(stream, next_offset - offset);
         }
diff --git a/include/common/bspfile_generic.hh b/include/common/bspfile_generic.hh
index 60cb29e..a11d352 100644
--- a/include/common/bspfile_generic.hh
+++ b/include/common/bspfile_generic.hh
@@ -102,7 +102,7 @@ struct dmiptex_t
 struct miptex_t
 {
     std::string name;
-    uint32_t width, height;
+    uint32_t width = 0, height = 0;
     std::vector<uint8_t> data;
     /**
      * set at read time if the offset is -1
@@ -111,7 +111,7 @@ struct miptex_t
     /**
      * exposed for testing -notex
      */
-    std::array<int32_t, MIPLEVELS> offsets;
+    std::array<int32_t, MIPLEVELS> offsets{};
 
     size_t stream_size() const;
 
-- 
2.43.0


From b5b51d2d92b5d28454544f3694d0f9c6b75bc1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:26 +0000
Subject: [PATCH 06/85] fix: stop reading truncated BSPX lumps at their end

---
 common/bsputils.cc |  4 ++++
 common/bspxfile.cc | 14 +++++++-------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/common/bsputils.cc b/common/bsputils.cc
index 2b04800..6e611b0 100644
--- a/common/bsputils.cc
+++ b/common/bsputils.cc
@@ -802,6 +802,10 @@ std::optional<bspxfacenormals> BSPX_FaceNormals(const mbsp_t &bsp, const bspxent
 
     bspxfacenormals result;
     result.stream_read(stream, bsp);
+    if (!stream) {
+        logging::print("WARNING: truncated FACENORMALS lump\n");
+        return std::nullopt;
+    }
     return result;
 }
 
diff --git a/common/bspxfile.cc b/common/bspxfile.cc
index c80c771..7dc6499 100644
--- a/common/bspxfile.cc
+++ b/common/bspxfile.cc
@@ -108,13 +108,13 @@ void bspxbrushes_permodel::stream_read(std::istream &s)
 
     s >= modelnum;
 
-    int32_t numbrushes;
+    int32_t numbrushes = 0;
     s >= numbrushes;
     s >= numfaces;
 
-    brushes.resize(numbrushes);
-    for (auto &brush : brushes) {
-        s >= brush;
+    // don't trust the count, a truncated lump ends the brushes early
+    for (int32_t i = 0; s && i < numbrushes; ++i) {
+        s >= brushes.emplace_back();
     }
 }
 
@@ -166,7 +166,7 @@ void bspxfacenormals_per_face::stream_write(std::ostream &s) const
 
 void bspxfacenormals_per_face::stream_read(std::istream &s, const mface_t &f)
 {
-    for (int i = 0; i < f.numedges; ++i) {
+    for (int i = 0; s && i < f.numedges; ++i) {
         bspxfacenormals_per_vert v;
         s >= v;
         per_vert.push_back(v);
@@ -196,10 +196,10 @@ void bspxfacenormals::stream_read(std::istream &s, const mbsp_t &bsp)
     per_face.clear();
 
     // read normals table
-    uint32_t size;
+    uint32_t size = 0;
     s >= size;
 
-    for (uint32_t i = 0; i < size; ++i) {
+    for (uint32_t i = 0; s && i < size; ++i) {
         qvec3f v;
         s >= v;
         normals.push_back(v);
-- 
2.43.0


From e6da551c07d66ea2566ee9cc16a7fe6a933e7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:00 +0000
Subject: [PATCH 07/85] fix: don't match the generic BSP version when loading a
 file

---
 common/bspfile.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 9ed4d6e..13755fc 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1739,6 +1739,10 @@ const bspversion_t bspver_qbism{Q2_QBISMIDENT, Q2_BSPVERSION, "qbism", "Quake II
 static bool BSPVersionSupported(int32_t ident, std::optional<int32_t> version, const bspversion_t **out_version)
 {
     for (const bspversion_t *bspver : bspversions) {
+        if (!bspver->game) {
+            // the generic in-memory format never exists on disk
+            continue;
+        }
         if (bspver->ident == ident && bspver->version == version) {
             if (bspver->game->id == GAME_HEXEN_II) {
                 // HACK: don't detect as Hexen II here, it's done later (isHexen2).
-- 
2.43.0


From cea7524ef68bd0d2bfd4b01b2d61b740bafe3cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:20 +0000
Subject: [PATCH 08/85] fix: reject textures that start outside of their lump

---
 common/bspfile_generic.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/bspfile_generic.cc b/common/bspfile_generic.cc
index 3d061b7..36d1e8f 100644
--- a/common/bspfile_generic.cc
+++ b/common/bspfile_generic.cc
@@ -172,6 +172,12 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
             continue;
         }
 
+        // the texture has to start inside the lump
+        if (offset > lump.filelen) {
+            stream.setstate(std::ios_base::failbit);
+            return;
+        }
+
         // move to miptex position (technically required
         // because there might be dummy data between the offsets
         // and the mip textures themselves...)
-- 
2.43.0


From 8db0d66478070706849cf54125036909bf14dfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:08 +0000
Subject: [PATCH 09/85] fix: don't append a stray byte when loading a .lit file

---
 common/bsputils.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/common/bsputils.cc b/common/bsputils.cc
index 6e611b0..8b98dd5 100644
--- a/common/bsputils.cc
+++ b/common/bsputils.cc
@@ -1143,9 +1143,8 @@ std::vector<uint8_t> LoadLitFile(const fs::path &path)
     }
 
     std::vector<uint8_t> litdata;
-    while (stream.good()) {
-        uint8_t b;
-        stream >= b;
+    uint8_t b;
+    while (stream >= b) {
         litdata.push_back(b);
     }
 
-- 
2.43.0


From 104415f32955131085bc6045f9315622a44622b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:06 +0000
Subject: [PATCH 10/85] fix: refuse .lit files with a truncated header

---
 common/bsputils.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/bsputils.cc b/common/bsputils.cc
index 8b98dd5..f8c2104 100644
--- a/common/bsputils.cc
+++ b/common/bsputils.cc
@@ -1130,15 +1130,15 @@ std::vector<uint8_t> LoadLitFile(const fs::path &path)
     std::ifstream stream(path, std::ios_base::in | std::ios_base::binary);
     stream >> endianness<std::endian::little>;
 
-    std::array<char, 4> ident;
+    std::array<char, 4> ident{};
     stream >= ident;
     if (ident != std::array<char, 4>{'Q', 'L', 'I', 'T'}) {
         throw std::runtime_error("invalid lit ident");
     }
 
-    int version;
+    int version = 0;
     stream >= version;
-    if (version != 1) {
+    if (!stream || version != 1) {
         throw std::runtime_error("invalid lit version");
     }
 
-- 
2.43.0


From 44c28c6b7f1347d398ea8330f906e8a19c973b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 11/85] fix: keep the tokenizer inside its text

---
 common/parser.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/common/parser.cc b/common/parser.cc
index c3df3e4..08b95ad 100644
--- a/common/parser.cc
+++ b/common/parser.cc
@@ -92,6 +92,9 @@ bool parser_t::parse_token(parseflags flags)
         return result;
     }
 
+    // the character `n` past the current one, or 0 past the end of the text
+    auto peek = [this](ptrdiff_t n = 0) -> char { return n < end - pos ? pos[n] : '\0'; };
+
     was_quoted = false;
     token.clear();
     auto token_p = std::back_inserter(token);
@@ -117,9 +120,9 @@ skipspace:
     }
 
     /* comment field */
-    if ((pos[0] == '/' && pos[1] == '/') || pos[0] == ';') { // quark writes ; comments in q2 maps
+    if ((peek() == '/' && peek(1) == '/') || peek() == ';') { // quark writes ; comments in q2 maps
         if (flags & PARSE_COMMENT) {
-            while (*pos && *pos != '\n') {
+            while (peek() && peek() != '\n') {
                 *token_p++ = *pos++;
             }
             goto out;
@@ -129,7 +132,7 @@ skipspace:
         if (flags & PARSE_SAMELINE)
             FError("{}: Line is incomplete", location);
         while (*pos++ != '\n') {
-            if (!*pos) {
+            if (!peek()) {
                 if (flags & PARSE_SAMELINE)
                     FError("{}: Line is incomplete", location);
                 return false;
@@ -143,18 +146,18 @@ skipspace:
 
     /* copy token */
 
-    if (*pos == '"') {
+    if (peek() == '"') {
         was_quoted = true;
         pos++;
-        while (*pos != '"') {
-            if (!*pos)
+        while (peek() != '"') {
+            if (!peek())
                 FError("{}: EOF inside quoted token", location);
             if (*pos == '\\') {
                 // small note. the vanilla quake engine just parses the "foo" stuff then goes and looks for \n
                 // explicitly within strings. this means ONLY \n works, and double-quotes cannot be used either in maps
                 // _NOR SAVED GAMES_. certain editors can write "wad" "c:\foo\" which is completely fucked. so lets try
                 // to prevent more brokenness and encourage map editors to switch to using sane wad keys.
-                switch (pos[1]) {
+                switch (peek(1)) {
                     case 'n':
                     case '\'':
                     case 'r':
@@ -177,14 +180,14 @@ skipspace:
                     case '9': // too lazy to validate these. doesn't break stuff.
                         break;
                     case '\"':
-                        if (pos[2] == '\r' || pos[2] == '\n') {
+                        if (peek(2) == '\r' || peek(2) == '\n') {
                             logging::print("WARNING: {}: escaped double-quote at end of string\n", location);
                         } else {
                             *token_p++ = *pos++;
                         }
                         break;
                     default:
-                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, pos[1]);
+                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, peek(1));
                         break;
                 }
             }
@@ -192,7 +195,7 @@ skipspace:
         }
         pos++;
     } else {
-        while (*pos > 32) {
+        while (peek() > 32) {
             *token_p++ = *pos++;
         }
     }
-- 
2.43.0


From 631346713c26985b6837c179a0ac47267670acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:32 +0000
Subject: [PATCH 12/85] fix: trim trailing whitespace of entity keys from the
 end

---
 common/entdata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/entdata.cc b/common/entdata.cc
index cbc72e5..541b3b2 100644
--- a/common/entdata.cc
+++ b/common/entdata.cc
@@ -169,11 +169,11 @@ void entdict_t::parse(parser_base_t &parser)
             FError("closing brace without data");
 
         // trim whitespace from start/end
-        while (std::isspace(keystr.front())) {
+        while (!keystr.empty() && std::isspace(static_cast<unsigned char>(keystr.front()))) {
             keystr.erase(keystr.begin());
         }
-        while (std::isspace(keystr.back())) {
-            keystr.erase(keystr.cbegin());
+        while (!keystr.empty() && std::isspace(static_cast<unsigned char>(keystr.back()))) {
+            keystr.pop_back();
         }
 
         set(keystr, parser.token);
-- 
2.43.0


From 29cac590d64cb18ab9df54e381e9b4d04ac141a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 13/85] fix: evaluate the converted texture definition on the
 face's own plane

---
 common/mapfile.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 777c789..2641596 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -725,6 +725,7 @@ namespace convert_to_quaked
     static qvec2f evalTexDefAtPoint(const texdef_quake_ed_t &texdef, const qplane3d &faceplane, const qvec3f &point)
     {
         brush_side_t temp;
+        temp.plane = faceplane;
         temp.set_texinfo(texdef_quake_ed_t { texdef.shift, texdef.rotate, texdef.scale });
 
         const qmat4x4f worldToTexSpace_res = texVecsTo4x4Matrix(faceplane, temp.vecs);
-- 
2.43.0


From 56aa907758244ff224a2e39565a66fa646db57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 14/85] fix: separate the QuArK comment from the texture scale

---
 common/mapfile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 2641596..459f441 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -504,7 +504,7 @@ void brush_side_t::write_texinfo(std::ostream &stream, const texdef_valve_t &tex
 void brush_side_t::write_texinfo(std::ostream &stream, const texdef_etp_t &texdef)
 {
     write_texinfo(stream, (const texdef_quake_ed_t &) texdef);
-    ewt::print(stream, "//TX{}", texdef.tx2 ? '2' : '1');
+    ewt::print(stream, " //TX{}", texdef.tx2 ? '2' : '1');
 }
 
 void brush_side_t::write_texinfo(std::ostream &stream, const texdef_bp_t &texdef)
-- 
2.43.0


From afef2aff6a6b1e3af206cad074f8cbb796381c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 15/85] fix: initialize omitted surface values and the Valve
 220 rotation

---
 common/mapfile.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 459f441..484dd4a 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -189,7 +189,7 @@ void brush_side_t::parse_extended_texinfo(parser_t &parser)
     if (!parse_quark_comment(parser)) {
         // Parse extra Quake 2 surface info
         if (parser.parse_token(PARSE_OPTIONAL)) {
-            texinfo_quake2_t q2_info;
+            texinfo_quake2_t q2_info{};
 
             q2_info.contents = std::stoi(parser.token);
 
@@ -851,7 +851,7 @@ namespace convert_to_valve
 {
     static texdef_valve_t TexDef_BSPToValve(const texvecf &in_vecs)
     {
-        texdef_valve_t res;
+        texdef_valve_t res{};
 
         // From the valve -> bsp code,
         //
-- 
2.43.0


From adc1dc56abfa19c4fca7ad42224d8015751fd760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 16/85] fix: don't trim an empty entity key when parsing a .map

---
 common/mapfile.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 484dd4a..175f935 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -1052,10 +1052,10 @@ void map_entity_t::parse_entity_dict(parser_t &parser)
     std::string key = std::move(parser.token);
 
     // trim whitespace from start/end
-    while (std::isspace(key.front())) {
+    while (!key.empty() && std::isspace((unsigned char)key.front())) {
         key.erase(key.begin());
     }
-    while (std::isspace(key.back())) {
+    while (!key.empty() && std::isspace((unsigned char)key.back())) {
         key.erase(key.end() - 1);
     }
 
-- 
2.43.0


From 7f75fa16e1a052b7f38d44d0c9532e1912fb7bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:44 +0000
Subject: [PATCH 17/85] fix: normalize negative shifts, and shifts of textures
 of unknown size

---
 common/mapfile.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 175f935..50afae1 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -742,15 +742,15 @@ namespace convert_to_quaked
 
     qvec2f normalizeShift(const std::optional<img::texture_meta> &texture, const qvec2f &in)
     {
-        if (!texture) {
+        if (!texture || texture->width == 0 || texture->height == 0) {
             return in; // can't do anything without knowing the texture size.
         }
 
-        int fullWidthOffsets = static_cast<int>(in[0]) / texture->width;
-        int fullHeightOffsets = static_cast<int>(in[1]) / texture->height;
+        int fullWidthOffsets = static_cast<int>(in[0]) / static_cast<int>(texture->width);
+        int fullHeightOffsets = static_cast<int>(in[1]) / static_cast<int>(texture->height);
 
-        qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * texture->width),
-            in[1] - static_cast<float>(fullHeightOffsets * texture->height));
+        qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * static_cast<int>(texture->width)),
+            in[1] - static_cast<float>(fullHeightOffsets * static_cast<int>(texture->height)));
         return result;
     }
 
-- 
2.43.0


From f9193270852b54ced582b1c8f8af3638d0f140ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:07 +0000
Subject: [PATCH 18/85] fix: quote texture names with blanks when writing a
 .map

---
 common/mapfile.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index 50afae1..e4a4903 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -514,9 +514,12 @@ void brush_side_t::write_texinfo(std::ostream &stream, const texdef_bp_t &texdef
 
 void brush_side_t::write(std::ostream &stream)
 {
-    ewt::print(stream, "( {} {} {} ) ( {} {} {} ) ( {} {} {} ) {} ", planepts[0][0], planepts[0][1], planepts[0][2],
+    // names the tokenizer would split or skip need quotes
+    const bool quote = texture.empty() || texture.find_first_of(" \t\r\n;") != std::string::npos || texture.starts_with("//");
+
+    ewt::print(stream, "( {} {} {} ) ( {} {} {} ) ( {} {} {} ) {}{}{} ", planepts[0][0], planepts[0][1], planepts[0][2],
         planepts[1][0], planepts[1][1], planepts[1][2], planepts[2][0], planepts[2][1], planepts[2][2],
-        texture);
+        quote ? "\"" : "", texture, quote ? "\"" : "");
 
     std::visit([this, &stream](auto &&x) { write_texinfo(stream, x); }, raw);
 }
-- 
2.43.0


From 2728e6c7f17fde911f66ff2ed077f471f0983e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:23 +0000
Subject: [PATCH 19/85] fix: solve for the converted texture definition in
 double precision

---
 common/mapfile.cc | 64 +++++++++++++++++++++++------------------------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index e4a4903..ec0c9b9 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -559,10 +559,10 @@ namespace convert_to_quaked
         }
     }
 
-    static qvec2f projectToAxisPlane(const qvec3d &snapped_normal, const qvec3d &point)
+    static qvec2d projectToAxisPlane(const qvec3d &snapped_normal, const qvec3d &point)
     {
         const std::pair<int, int> axes = getSTAxes(snapped_normal);
-        const qvec2f proj(point[axes.first], point[axes.second]);
+        const qvec2d proj(point[axes.first], point[axes.second]);
         return proj;
     }
 
@@ -709,41 +709,41 @@ namespace convert_to_quaked
         return {};
     }
 
-    static qmat4x4f texVecsTo4x4Matrix(const qplane3d &faceplane, const texvecf &in_vecs)
+    static qmat4x4d texVecsTo4x4Matrix(const qplane3d &faceplane, const texvecf &in_vecs)
     {
         //           [s]
         // T * vec = [t]
         //           [distOffPlane]
         //           [?]
 
-        qmat4x4f T{
-            in_vecs.at(0, 0), in_vecs.at(1, 0), static_cast<float>(faceplane.normal[0]), 0, // col 0
-            in_vecs.at(0, 1), in_vecs.at(1, 1), static_cast<float>(faceplane.normal[1]), 0, // col 1
-            in_vecs.at(0, 2), in_vecs.at(1, 2), static_cast<float>(faceplane.normal[2]), 0, // col 2
-            in_vecs.at(0, 3), in_vecs.at(1, 3), static_cast<float>(-faceplane.dist), 1 // col 3
+        qmat4x4d T{
+            in_vecs.at(0, 0), in_vecs.at(1, 0), faceplane.normal[0], 0, // col 0
+            in_vecs.at(0, 1), in_vecs.at(1, 1), faceplane.normal[1], 0, // col 1
+            in_vecs.at(0, 2), in_vecs.at(1, 2), faceplane.normal[2], 0, // col 2
+            in_vecs.at(0, 3), in_vecs.at(1, 3), -faceplane.dist, 1 // col 3
         };
         return T;
     }
 
-    static qvec2f evalTexDefAtPoint(const texdef_quake_ed_t &texdef, const qplane3d &faceplane, const qvec3f &point)
+    static qvec2d evalTexDefAtPoint(const texdef_quake_ed_t &texdef, const qplane3d &faceplane, const qvec3d &point)
     {
         brush_side_t temp;
         temp.plane = faceplane;
         temp.set_texinfo(texdef_quake_ed_t { texdef.shift, texdef.rotate, texdef.scale });
 
-        const qmat4x4f worldToTexSpace_res = texVecsTo4x4Matrix(faceplane, temp.vecs);
-        const qvec2f uv = qvec2f(worldToTexSpace_res * qvec4f(point[0], point[1], point[2], 1.0f));
+        const qmat4x4d worldToTexSpace_res = texVecsTo4x4Matrix(faceplane, temp.vecs);
+        const qvec2d uv = qvec2d(worldToTexSpace_res * qvec4d(point[0], point[1], point[2], 1.0));
         return uv;
     }
 
-    static texdef_quake_ed_t addShift(const texdef_quake_ed_t &texdef, const qvec2f shift)
+    static texdef_quake_ed_t addShift(const texdef_quake_ed_t &texdef, const qvec2d shift)
     {
         texdef_quake_ed_t res = texdef;
         res.shift = shift;
         return res;
     }
 
-    qvec2f normalizeShift(const std::optional<img::texture_meta> &texture, const qvec2f &in)
+    qvec2d normalizeShift(const std::optional<img::texture_meta> &texture, const qvec2d &in)
     {
         if (!texture || texture->width == 0 || texture->height == 0) {
             return in; // can't do anything without knowing the texture size.
@@ -752,8 +752,8 @@ namespace convert_to_quaked
         int fullWidthOffsets = static_cast<int>(in[0]) / static_cast<int>(texture->width);
         int fullHeightOffsets = static_cast<int>(in[1]) / static_cast<int>(texture->height);
 
-        qvec2f result(in[0] - static_cast<float>(fullWidthOffsets * static_cast<int>(texture->width)),
-            in[1] - static_cast<float>(fullHeightOffsets * static_cast<int>(texture->height)));
+        qvec2d result(in[0] - static_cast<double>(fullWidthOffsets * static_cast<int>(texture->width)),
+            in[1] - static_cast<double>(fullHeightOffsets * static_cast<int>(texture->height)));
         return result;
     }
 
@@ -765,26 +765,26 @@ namespace convert_to_quaked
         texture_axis_t axis(faceplane);
         qvec3d &snapped_normal = axis.snapped_normal;
 
-        const qmat4x4f worldToTexSpace = texVecsTo4x4Matrix(faceplane, in_vecs);
+        const qmat4x4d worldToTexSpace = texVecsTo4x4Matrix(faceplane, in_vecs);
 
         // Grab the UVs of the 3 reference points
-        qvec2f facepoints_uvs[3];
+        qvec2d facepoints_uvs[3];
         for (int i = 0; i < 3; i++) {
-            facepoints_uvs[i] = qvec2f(worldToTexSpace * qvec4f(facepoints[i][0], facepoints[i][1], facepoints[i][2], 1.0));
+            facepoints_uvs[i] = qvec2d(worldToTexSpace * qvec4d(facepoints[i][0], facepoints[i][1], facepoints[i][2], 1.0));
         }
 
         // Project the 3 reference points onto the axis plane. They are now 2d points.
-        qvec2f facepoints_projected[3];
+        qvec2d facepoints_projected[3];
         for (int i = 0; i < 3; i++) {
             facepoints_projected[i] = projectToAxisPlane(snapped_normal, facepoints[i]);
         }
 
         // Now make 2 vectors out of our 3 points (so we are ignoring translation for now)
-        const qvec2f p0p1 = facepoints_projected[1] - facepoints_projected[0];
-        const qvec2f p0p2 = facepoints_projected[2] - facepoints_projected[0];
+        const qvec2d p0p1 = facepoints_projected[1] - facepoints_projected[0];
+        const qvec2d p0p2 = facepoints_projected[2] - facepoints_projected[0];
 
-        const qvec2f p0p1_uv = facepoints_uvs[1] - facepoints_uvs[0];
-        const qvec2f p0p2_uv = facepoints_uvs[2] - facepoints_uvs[0];
+        const qvec2d p0p1_uv = facepoints_uvs[1] - facepoints_uvs[0];
+        const qvec2d p0p2_uv = facepoints_uvs[2] - facepoints_uvs[0];
 
         /*
         Find a 2x2 transformation matrix that maps p0p1 to p0p1_uv, and p0p2 to p0p2_uv
@@ -811,18 +811,18 @@ namespace convert_to_quaked
 
         */
 
-        const qmat4x4f M{
+        const qmat4x4d M{
             p0p1[0], 0, p0p2[0], 0, // col 0
             p0p1[1], 0, p0p2[1], 0, // col 1
             0, p0p1[0], 0, p0p2[0], // col 2
             0, p0p1[1], 0, p0p2[1] // col 3
         };
 
-        const qmat4x4f Minv = qv::inverse(M);
-        const qvec4f abcd = Minv * qvec4f(p0p1_uv[0], p0p1_uv[1], p0p2_uv[0], p0p2_uv[1]);
+        const qmat4x4d Minv = qv::inverse(M);
+        const qvec4d abcd = Minv * qvec4d(p0p1_uv[0], p0p1_uv[1], p0p2_uv[0], p0p2_uv[1]);
 
-        const qmat2x2f texPlaneToUV{abcd[0], abcd[2], // col 0
-            abcd[1], abcd[3]}; // col 1
+        const qmat2x2f texPlaneToUV(qmat2x2d{abcd[0], abcd[2], // col 0
+            abcd[1], abcd[3]}); // col 1
 
         {
             // self check
@@ -837,10 +837,10 @@ namespace convert_to_quaked
         const texdef_quake_ed_t res = Reverse_QuakeEd(texPlaneToUV, faceplane, false);
 
         // figure out shift based on facepoints[0]
-        const qvec3f testpoint = facepoints[0];
-        qvec2f uv0_actual = evalTexDefAtPoint(addShift(res, qvec2f(0, 0)), faceplane, testpoint);
-        qvec2f uv0_desired = qvec2f(worldToTexSpace * qvec4f(testpoint[0], testpoint[1], testpoint[2], 1.0f));
-        qvec2f shift = uv0_desired - uv0_actual;
+        const qvec3d testpoint = facepoints[0];
+        qvec2d uv0_actual = evalTexDefAtPoint(addShift(res, qvec2d(0, 0)), faceplane, testpoint);
+        qvec2d uv0_desired = qvec2d(worldToTexSpace * qvec4d(testpoint[0], testpoint[1], testpoint[2], 1.0));
+        qvec2d shift = uv0_desired - uv0_actual;
 
         // sometime we have very large shift values, normalize them to be smaller
         shift = normalizeShift(texture, shift);
-- 
2.43.0


From ae88f6ace6b3cb613247886586d10c505406aaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:28 +0000
Subject: [PATCH 20/85] fix: don't drop scaled texture projections with a
 slight shear

---
 common/mapfile.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/common/mapfile.cc b/common/mapfile.cc
index ec0c9b9..a9c0c4e 100644
--- a/common/mapfile.cc
+++ b/common/mapfile.cc
@@ -691,8 +691,11 @@ namespace convert_to_quaked
                 const qmat2x2f applyAngleGuessM = rotation2x2_deg(angleGuess);
                 const qmat2x2f Mguess = applyGuessedFlipM * applyAbsScaleM * applyAngleGuessM * axisFlipsM;
 
-                if (fabs(M.at(0, 0) - Mguess.at(0, 0)) < 0.001 && fabs(M.at(1, 0) - Mguess.at(1, 0)) < 0.001 &&
-                    fabs(M.at(0, 1) - Mguess.at(0, 1)) < 0.001 && fabs(M.at(1, 1) - Mguess.at(1, 1)) < 0.001) {
+                // the shear check above tolerates 0.001 relative to the scale
+                const double epsilon = 0.002 * std::max({1.0, absXscale, absYscale});
+
+                if (fabs(M.at(0, 0) - Mguess.at(0, 0)) < epsilon && fabs(M.at(1, 0) - Mguess.at(1, 0)) < epsilon &&
+                    fabs(M.at(0, 1) - Mguess.at(0, 1)) < epsilon && fabs(M.at(1, 1) - Mguess.at(1, 1)) < epsilon) {
 
                     texdef_quake_ed_t reversed;
                     reversed.rotate = angleGuess;
-- 
2.43.0


From bdccbd28b38eef7b6fd12591a7c359d3677a52f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:53 +0000
Subject: [PATCH 21/85] fix: invert settings given as _no keys in the map

---
 common/settings.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/settings.cc b/common/settings.cc
index c08fe4d..9caf71c 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -178,7 +178,9 @@ setting_invertible_bool::setting_invertible_bool(
 
 bool setting_invertible_bool::parse(const std::string &setting_name, parser_base_t &parser, source source)
 {
-    return parseInternal(parser, source, setting_name.compare(0, 2, "no") == 0 ? false : true);
+    return parseInternal(parser, source, 
+        // keys from the map may have leading underscores
+        setting_name.compare(std::min(setting_name.find_first_not_of('_'), setting_name.size()), 2, "no") == 0 ? false : true);
 }
 
 // setting_redirect
-- 
2.43.0


From 95e84458eac2b3841cc68f17fad989a3ba0b2f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:53 +0000
Subject: [PATCH 22/85] fix: clamp integer settings that do not fit their type

---
 common/settings.cc         | 7 ++++---
 include/common/settings.hh | 4 +++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/common/settings.cc b/common/settings.cc
index 9caf71c..7a04f61 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -178,9 +178,10 @@ setting_invertible_bool::setting_invertible_bool(
 
 bool setting_invertible_bool::parse(const std::string &setting_name, parser_base_t &parser, source source)
 {
-    return parseInternal(parser, source, 
-        // keys from the map may have leading underscores
-        setting_name.compare(std::min(setting_name.find_first_not_of('_'), setting_name.size()), 2, "no") == 0 ? false : true);
+    // keys from the map may have leading underscores
+    const size_t start = std::min(setting_name.find_first_not_of('_'), setting_name.size());
+
+    return parseInternal(parser, source, setting_name.compare(start, 2, "no") != 0);
 }
 
 // setting_redirect
diff --git a/include/common/settings.hh b/include/common/settings.hh
index 179e08f..2e7f4bd 100644
--- a/include/common/settings.hh
+++ b/include/common/settings.hh
@@ -305,7 +305,9 @@ public:
                 if constexpr (std::is_floating_point_v<T>) {
                     f = std::stod(parser.token);
                 } else {
-                    f = static_cast<T>(std::stoull(parser.token));
+                    // values that don't fit are clamped, not wrapped
+                    f = static_cast<T>(std::clamp<long long>(
+                        std::stoll(parser.token), std::numeric_limits<T>::min(), std::numeric_limits<T>::max()));
                 }
                 // if no exception was thrown then we parsed a float/int here successfully
                 Q_assert(parser.parse_token());
-- 
2.43.0


From 45659cf14a6b9f6e183a49650cae13cb40e06269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:54 +0000
Subject: [PATCH 23/85] fix: read archive names that fill their whole field

---
 common/fs.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index 2f98216..f4d4dca 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -22,6 +22,7 @@
 #include "common/cmdlib.hh"
 #include "common/fs.hh"
 #include "common/log.hh"
+#include <algorithm>
 #include <fstream>
 #include <memory>
 #include <array>
@@ -61,6 +62,13 @@ struct directory_archive : archive_like
     }
 };
 
+// names that fill their whole field are not null terminated
+template<size_t N>
+static std::string fixed_string(const std::array<char, N> &str)
+{
+    return std::string(str.begin(), std::find(str.begin(), str.end(), '\0'));
+}
+
 struct pak_archive : archive_like
 {
     std::ifstream pakstream;
@@ -111,7 +119,7 @@ struct pak_archive : archive_like
 
             pakstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.offset, file.size);
+            files[fixed_string(file.name)] = std::make_tuple(file.offset, file.size);
         }
     }
 
@@ -189,7 +197,7 @@ struct wad_archive : archive_like
 
             wadstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.filepos, file.disksize);
+            files[fixed_string(file.name)] = std::make_tuple(file.filepos, file.disksize);
         }
     }
 
-- 
2.43.0


From 69b6cb59787b5dc7d689aec1763067aec5770fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:54 +0000
Subject: [PATCH 24/85] fix: don't load files outside of their archive, or fail
 after one

---
 common/fs.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index f4d4dca..1880e3c 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -69,6 +69,22 @@ static std::string fixed_string(const std::array<char, N> &str)
     return std::string(str.begin(), std::find(str.begin(), str.end(), '\0'));
 }
 
+// reads part of an archive, or nothing if it doesn't lie inside of the file
+static data load_range(std::ifstream &stream, uint64_t offset, uint64_t size)
+{
+    stream.clear();
+    stream.seekg(0, std::ios_base::end);
+
+    if (const std::streamoff end = stream.tellg(); end < 0 || offset + size > static_cast<uint64_t>(end)) {
+        return std::nullopt;
+    }
+
+    std::vector<uint8_t> data(size);
+    stream.seekg(offset);
+    stream.read(reinterpret_cast<char *>(data.data()), size);
+    return data;
+}
+
 struct pak_archive : archive_like
 {
     std::ifstream pakstream;
@@ -133,11 +149,7 @@ struct pak_archive : archive_like
             return std::nullopt;
         }
 
-        pakstream.seekg(std::get<0>(it->second));
-        uintmax_t size = std::get<1>(it->second);
-        std::vector<uint8_t> data(size);
-        pakstream.read(reinterpret_cast<char *>(data.data()), size);
-        return data;
+        return load_range(pakstream, std::get<0>(it->second), std::get<1>(it->second));
     }
 };
 
@@ -211,11 +223,7 @@ struct wad_archive : archive_like
             return std::nullopt;
         }
 
-        wadstream.seekg(std::get<0>(it->second));
-        uintmax_t size = std::get<1>(it->second);
-        std::vector<uint8_t> data(size);
-        wadstream.read(reinterpret_cast<char *>(data.data()), size);
-        return data;
+        return load_range(wadstream, std::get<0>(it->second), std::get<1>(it->second));
     }
 };
 
-- 
2.43.0


From 1d6a87d1a1063ce81c164b73ad1de785c37069dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:54 +0000
Subject: [PATCH 25/85] fix: refuse archives whose directory is cut short

---
 common/fs.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index 1880e3c..eb415a5 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -126,14 +126,14 @@ struct pak_archive : archive_like
 
         size_t totalFiles = header.size / sizeof(pak_file);
 
-        files.reserve(totalFiles);
-
         pakstream.seekg(header.offset);
 
         for (size_t i = 0; i < totalFiles; i++) {
             pak_file file;
 
-            pakstream >= file;
+            if (!(pakstream >= file)) {
+                throw std::runtime_error("Truncated directory");
+            }
 
             files[fixed_string(file.name)] = std::make_tuple(file.offset, file.size);
         }
@@ -200,14 +200,14 @@ struct wad_archive : archive_like
             throw std::runtime_error("Bad magic");
         }
 
-        files.reserve(header.numlumps);
-
         wadstream.seekg(header.infotableofs);
 
         for (size_t i = 0; i < header.numlumps; i++) {
             wad_lump_header file;
 
-            wadstream >= file;
+            if (!(wadstream >= file)) {
+                throw std::runtime_error("Truncated directory");
+            }
 
             files[fixed_string(file.name)] = std::make_tuple(file.filepos, file.disksize);
         }
-- 
2.43.0


From 975c88a67051886b7534b9ad54a1e2c586242e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:54 +0000
Subject: [PATCH 26/85] fix: don't find directories when looking for files in a
 directory

---
 common/fs.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/fs.cc b/common/fs.cc
index eb415a5..9054703 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -38,7 +38,9 @@ struct directory_archive : archive_like
 
     bool contains(const path &filename) override
     {
-        return exists(!pathname.empty() ? (pathname / filename) : filename);
+        const path p = !pathname.empty() ? (pathname / filename) : filename;
+
+        return exists(p) && !is_directory(p);
     }
 
     data load(const path &filename) override
-- 
2.43.0


From 27d98f83e980c6a0d64879d9eeedd427f456eccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:39 +0000
Subject: [PATCH 27/85] fix: refuse archives whose header is cut short

---
 common/fs.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index 9054703..fb1e285 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -120,7 +120,9 @@ struct pak_archive : archive_like
 
         pak_header header;
 
-        pakstream >= header;
+        if (!(pakstream >= header)) {
+            throw std::runtime_error("Truncated header");
+        }
 
         if (header.magic != std::array<char, 4>{'P', 'A', 'C', 'K'}) {
             throw std::runtime_error("Bad magic");
@@ -196,7 +198,9 @@ struct wad_archive : archive_like
 
         wad_header header;
 
-        wadstream >= header;
+        if (!(wadstream >= header)) {
+            throw std::runtime_error("Truncated header");
+        }
 
         if (header.identification != wad2_ident && header.identification != wad3_ident) {
             throw std::runtime_error("Bad magic");
-- 
2.43.0


From 3c465fbc7aedca5d411c83d9b2ccd0a5b060cb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:48 +0000
Subject: [PATCH 28/85] fix: refuse truncated wal, mip and palette images

---
 common/imglib.cc | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/common/imglib.cc b/common/imglib.cc
index 4b4079b..f9cead6 100644
--- a/common/imglib.cc
+++ b/common/imglib.cc
@@ -63,6 +63,11 @@ static bool LoadPCXPalette(const fs::path &filename, std::vector<qvec3b> &palett
     pcx_t pcx;
     stream >= pcx;
 
+    if (!stream || file->size() < 768) {
+        logging::funcprint("Failed to load '{}'. PCX file is cut short.\n", filename);
+        return false;
+    }
+
     if (pcx.manufacturer != 0x0a || pcx.version != 5 || pcx.encoding != 1 || pcx.bits_per_pixel != 8) {
         logging::funcprint("Failed to load '{}'. Unsupported PCX file.\n", filename);
         return false;
@@ -107,6 +112,12 @@ static void convert_paletted_to_32_bit(
     }
 }
 
+// whether the pixels of an image start and end within a file
+static bool pixels_inside(uint64_t offset, uint64_t width, uint64_t height, uint64_t file_size)
+{
+    return offset <= file_size && (!height || width <= (file_size - offset) / height);
+}
+
 /*
 ============================================================================
 WAL IMAGE
@@ -135,6 +146,12 @@ std::optional<texture> load_wal(
     q2_miptex_t mt;
     stream >= mt;
 
+    // must be able to at least read the header
+    if (!stream) {
+        logging::funcprint("Failed to fully load wal {}. Header incomplete.\n", name);
+        return std::nullopt;
+    }
+
     texture tex;
 
     tex.meta.extension = ext::WAL;
@@ -148,9 +165,15 @@ std::optional<texture> load_wal(
     tex.meta.contents_native = mt.contents;
     tex.meta.flags = {mt.flags};
     tex.meta.value = mt.value;
-    tex.meta.animation = mt.animname.data();
+    tex.meta.animation.assign(mt.animname.begin(), std::find(mt.animname.begin(), mt.animname.end(), '\0'));
 
     if (!meta_only) {
+        // sanity check
+        if (!pixels_inside(mt.offsets[0], mt.width, mt.height, file->size())) {
+            logging::funcprint("wal offset0 overrun for {}\n", name);
+            return tex;
+        }
+
         stream.seekg(mt.offsets[0]);
         std::vector<uint8_t> pixels(mt.width * mt.height);
         stream.read(reinterpret_cast<char *>(pixels.data()), pixels.size());
@@ -201,7 +224,7 @@ std::optional<texture> load_mip(
 
         // convert the data into RGBA.
         // sanity check
-        if (header.offsets[0] + (header.width * header.height) > file->size()) {
+        if (!pixels_inside(header.offsets[0], header.width, header.height, file->size())) {
             logging::funcprint("mip offset0 overrun for {}\n", name);
             return tex;
         }
@@ -220,7 +243,7 @@ std::optional<texture> load_mip(
         if (game->id == GAME_HALF_LIFE) {
             bool valid_mip_palette = true;
 
-            int32_t mip3_size = (header.width >> 3) * (header.height >> 3);
+            uint64_t mip3_size = uint64_t(header.width >> 3) * (header.height >> 3);
             size_t palette_size = sizeof(uint16_t) + (sizeof(qvec3b) * 256);
 
             if (header.offsets[3] <= 0) {
-- 
2.43.0


From 8126c2374cd53171da15b3f79be915374dc16aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:48 +0000
Subject: [PATCH 29/85] fix: don't divide by zero for the average of
 transparent textures

---
 common/imglib.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/imglib.cc b/common/imglib.cc
index f9cead6..436a8ed 100644
--- a/common/imglib.cc
+++ b/common/imglib.cc
@@ -346,6 +346,11 @@ qvec3b calculate_average(const std::vector<qvec4b> &pixels)
         }
     }
 
+    // nothing but transparent pixels
+    if (!n) {
+        return {};
+    }
+
     return avg /= n;
 }
 
-- 
2.43.0


From 603326a66d35daa7c939d17b9b0b4bf43a0af9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:48 +0000
Subject: [PATCH 30/85] fix: base .wal_json metadata on the .wal it overrides

---
 common/imglib.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/common/imglib.cc b/common/imglib.cc
index 436a8ed..99fa288 100644
--- a/common/imglib.cc
+++ b/common/imglib.cc
@@ -407,10 +407,17 @@ std::optional<texture_meta> load_wal_json_meta(
         meta.name = name;
 
         {
-            fs::path wal = fs::path(name).replace_extension(".wal");
+            // the .wal that would be used in place of the .wal_json
+            fs::path prefix;
+
+            if (game->id == GAME_QUAKE_II) {
+                prefix = "textures";
+            }
+
+            fs::path wal = (prefix / name) += ".wal";
 
             if (auto wal_file = fs::load(wal))
-                if (auto wal_meta = load_wal_meta(wal.string(), wal_file, game))
+                if (auto wal_meta = load_wal_meta(name, wal_file, game))
                     meta = *wal_meta;
         }
 
@@ -455,6 +462,7 @@ std::optional<texture_meta> load_wal_json_meta(
             } else if (flags.is_string()) {
                 meta.flags.native = game->surfflags_from_string(flags.get<std::string>());
             } else if (flags.is_array()) {
+                meta.flags.native = 0;
                 for (auto &flag : flags) {
                     if (flag.is_number_integer()) {
                         meta.flags.native |= flag.get<int32_t>();
-- 
2.43.0


From 5e3ea58f80a8c59bdfe8d5230124d50d8e01ae57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:48 +0000
Subject: [PATCH 31/85] fix: don't convert Half-Life textures without any
 palette

---
 common/imglib.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/common/imglib.cc b/common/imglib.cc
index 99fa288..5a20ec7 100644
--- a/common/imglib.cc
+++ b/common/imglib.cc
@@ -104,6 +104,12 @@ void init_palette(const gamedef_t *game)
 static void convert_paletted_to_32_bit(
     const std::vector<uint8_t> &pixels, std::vector<qvec4b> &output, const std::vector<qvec3b> &pal)
 {
+    // Half-Life has no palette to fall back on if a texture lacks its own
+    if (pal.size() < 256) {
+        logging::funcprint("no palette to convert texture with\n");
+        return;
+    }
+
     output.resize(pixels.size());
 
     for (size_t i = 0; i < pixels.size(); i++) {
-- 
2.43.0


From 3f48fc9e94194ba371655f45b8ce2f7a058f0411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:02 +0000
Subject: [PATCH 32/85] fix: stop reading cut short portal files at their end
 and keep leafs in range

---
 common/prtfile.cc | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index 0720231..508afda 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -51,7 +51,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
     if (magic == PORTALFILE) {
         f >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
 
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -66,7 +66,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs_real >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else if (magic == PORTALFILEAM) {
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -74,38 +74,44 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs >> numportals >> result.portalleafs_real;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else {
         FError("unknown header: {}\n", magic);
     }
 
+    if (result.portalleafs < 0 || result.portalleafs_real < 0 || numportals < 0) {
+        FError("invalid counts in {} header\n", magic);
+    }
+
     for (int i = 0; i < numportals; i++) {
         prtfile_portal_t p;
         int numpoints;
 
         f >> numpoints >> p.leafnums[0] >> p.leafnums[1];
-        if (f.bad())
+        if (!f)
             FError("reading portal {}", i);
+        if (numpoints < 3)
+            FError("portal {} has too few points", i);
         if (numpoints > PRT_MAX_WINDING)
             FError("portal {} has too many points", i);
-        if ((unsigned)p.leafnums[0] > (unsigned)result.portalleafs ||
-            (unsigned)p.leafnums[1] > (unsigned)result.portalleafs)
+        if ((unsigned)p.leafnums[0] >= (unsigned)result.portalleafs ||
+            (unsigned)p.leafnums[1] >= (unsigned)result.portalleafs)
             FError("out of bounds leaf in portal {}", i);
 
         auto &w = p.winding;
         w.resize(numpoints);
 
         for (int j = 0; j < numpoints; j++) {
-            while (!f.bad() && f.get() != '(')
+            while (f && f.get() != '(')
                 ;
 
             f >> w[j][0] >> w[j][1] >> w[j][2];
 
-            while (!f.bad() && f.get() != ')')
+            while (f && f.get() != ')')
                 ;
 
-            if (f.bad())
+            if (!f)
                 FError("reading portal {}", i);
         }
 
@@ -138,7 +144,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
             while (1) {
                 int leafnum;
                 f >> leafnum;
-                if (f.bad() || f.eof())
+                if (!f)
                     break;
                 if (leafnum < 0)
                     break;
@@ -146,18 +152,18 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
                     FError("Invalid leaf number in cluster map ({} >= {})", leafnum, result.portalleafs_real);
                 result.dleafinfos[leafnum + 1].cluster = i;
             }
-            if (f.bad() || f.eof())
+            if (!f)
                 break;
         }
         if (i < result.portalleafs)
             FError("Couldn't read cluster map ({} / {})\n", i, result.portalleafs);
     } else if (magic == PORTALFILEAM) {
-        result.dleafinfos.resize(result.portalleafs + 1);
+        result.dleafinfos.resize(result.portalleafs_real + 1);
 
         for (int i = 0; i < result.portalleafs_real; i++) {
             int clusternum;
             f >> clusternum;
-            if (f.bad() || f.eof()) {
+            if (!f) {
                 Error("Unexpected end of cluster map\n");
             }
             if (clusternum < 0 || clusternum >= result.portalleafs) {
-- 
2.43.0


From c6be7bb3b1adb89a8c8e1f9ab4b1920f2daf6d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:02 +0000
Subject: [PATCH 33/85] fix: include the last clusters in the PHS

---
 vis/soundpvs.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 225ca62..121de88 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -166,7 +166,6 @@ void CalcPHS(mbsp_t *bsp)
     logging::funcheader();
 
     const int32_t leafbytes = (portalleafs + 7) >> 3;
-    const int32_t leaflongs = leafbytes / sizeof(long);
 
     // increase the bits size with approximately how much space we'll need
     bsp->dvis.bits.reserve(bsp->dvis.bits.size() * 2);
@@ -200,10 +199,8 @@ void CalcPHS(mbsp_t *bsp)
                 const uint8_t *src_compressed = bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PVS, index);
                 DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),
                     uncompressed_2.data() + uncompressed_2.size());
-                const long *src = reinterpret_cast<long *>(uncompressed_2.data());
-                long *dest = reinterpret_cast<long *>(uncompressed.data());
-                for (int32_t l = 0; l < leaflongs; l++)
-                    dest[l] |= src[l];
+                for (int32_t l = 0; l < leafbytes; l++)
+                    uncompressed[l] |= uncompressed_2[l];
             }
         }
         for (int32_t j = 0; j < portalleafs; j++)
-- 
2.43.0


From db720ec3689f4d364ff1bc2c9c9d0b1244fc6a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:02 +0000
Subject: [PATCH 34/85] fix: keep the mightsee bits that other vis threads are
 reading

---
 vis/flow.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vis/flow.cc b/vis/flow.cc
index ab5d839..b18c560 100644
--- a/vis/flow.cc
+++ b/vis/flow.cc
@@ -295,8 +295,9 @@ TargetChecks(visstats_t &stats, const pstack_t* const head, const pstack_t* cons
         FreeStackWinding(stack.pass, stack);
     }
 
-    // transfer results back to prevstack
-    *prevstack->mightsee = std::move(local);
+    // transfer results back to prevstack. other threads may be reading the mightsee of
+    // the base portal, so keep its storage
+    std::copy_n(local.data(), (portalleafs + leafbits_t::mask) >> leafbits_t::shift, prevstack->mightsee->data());
 
     return numchecks;
 }
-- 
2.43.0


From 99d9eea24f2e27f7116af9d3b45eadfa2bb8cba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:41 +0000
Subject: [PATCH 35/85] fix: start over from vis state files that are cut short

---
 vis/state.cc | 85 ++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 26 deletions(-)

diff --git a/vis/state.cc b/vis/state.cc
index 6059c64..c9260a4 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -94,22 +94,29 @@ static int CompressBits(uint8_t *out, const leafbits_t &in)
     return numbytes;
 }
 
-static void DecompressBits(leafbits_t &dst, const uint8_t *src)
+static bool DecompressBits(leafbits_t &dst, const uint8_t *src, size_t srclen)
 {
     const size_t numbytes = (portalleafs + 7) >> 3;
+    const uint8_t *const end = src + srclen;
 
     dst.resize(portalleafs);
 
     for (size_t i = 0; i < numbytes; i++) {
+        if (src == end)
+            return false;
+
         uint8_t val = *src++;
         uint32_t shift = (i << 3) & leafbits_t::mask;
         dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)val << shift;
         if (val != 0 && val != 0xff)
             continue;
 
+        if (src == end)
+            return false;
+
         int32_t rep = *src++;
-        if (i + rep > numbytes)
-            FError("overflow");
+        if (!rep || i + rep > numbytes)
+            return false;
 
         /* Already wrote the first byte, add (rep - 1) copies */
         while (--rep) {
@@ -118,6 +125,8 @@ static void DecompressBits(leafbits_t &dst, const uint8_t *src)
             dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)val << shift;
         }
     }
+
+    return true;
 }
 
 static void CopyLeafBits(leafbits_t &dst, const uint8_t *src, size_t numleafs)
@@ -131,6 +140,27 @@ static void CopyLeafBits(leafbits_t &dst, const uint8_t *src, size_t numleafs)
     }
 }
 
+// read one bitstring of a portal; returns false if it's cut short or damaged
+static bool ReadLeafBits(std::istream &in, leafbits_t &dst, uint32_t len)
+{
+    const uint32_t numbytes = (portalleafs + 7) >> 3;
+
+    if (len > numbytes)
+        return false;
+
+    std::vector<uint8_t> compressed(len);
+    in.read((char *)compressed.data(), len);
+
+    if (!in)
+        return false;
+
+    if (len < numbytes)
+        return DecompressBits(dst, compressed.data(), len);
+
+    CopyLeafBits(dst, compressed.data(), portalleafs);
+    return true;
+}
+
 void SaveVisState()
 {
     int vis_len, might_len;
@@ -197,7 +227,6 @@ void CleanVisState()
 bool LoadVisState()
 {
     fs::file_time_type prt_time, state_time;
-    int numbytes;
     dvisstate_t state;
     dportal_t pstate;
 
@@ -231,6 +260,12 @@ bool LoadVisState()
 
     in >= state;
 
+    /* vis may have been stopped while writing the file */
+    if (!in) {
+        logging::print("State file is cut short, will be overwritten\n");
+        return false;
+    }
+
     /* Sanity check the headers */
     if (state.version != VIS_STATE_VERSION) {
         FError("state file version does not match");
@@ -239,45 +274,43 @@ bool LoadVisState()
         FError("state file {} does not match portal file {}", statefile, portalfile);
     }
 
-    /* Move back the start time to simulate already elapsed time */
-    starttime -= duration(state.time_elapsed);
-
-    numbytes = (portalleafs + 7) >> 3;
-    std::vector<uint8_t> compressed(numbytes);
-
     /* Update the portal information */
     for (auto &p : portals) {
         in >= pstate;
 
-        p.status = static_cast<pstatus_t>(pstate.status);
-        p.nummightsee = pstate.nummightsee;
-        p.numcansee = pstate.numcansee;
+        bool valid = in && pstate.status <= pstat_done && (pstate.status != pstat_done || pstate.vis) &&
+                     ReadLeafBits(in, p.mightsee, pstate.might);
 
-        in.read((char *)compressed.data(), pstate.might);
-        p.mightsee.resize(portalleafs);
+        p.visbits.resize(portalleafs);
 
-        if (pstate.might < numbytes) {
-            DecompressBits(p.mightsee, compressed.data());
-        } else {
-            CopyLeafBits(p.mightsee, compressed.data(), portalleafs);
+        if (valid && pstate.vis) {
+            valid = ReadLeafBits(in, p.visbits, pstate.vis);
         }
 
-        p.visbits.resize(portalleafs);
+        if (!valid) {
+            logging::print("State file is cut short, will be overwritten\n");
 
-        if (pstate.vis) {
-            in.read((char *)compressed.data(), pstate.vis);
-            if (pstate.vis < numbytes) {
-                DecompressBits(p.visbits, compressed.data());
-            } else {
-                CopyLeafBits(p.visbits, compressed.data(), portalleafs);
+            /* Start over */
+            for (auto &restart : portals) {
+                restart.status = pstat_none;
+                restart.nummightsee = 0;
+                restart.numcansee = 0;
             }
+            return false;
         }
 
+        p.status = static_cast<pstatus_t>(pstate.status);
+        p.nummightsee = pstate.nummightsee;
+        p.numcansee = pstate.numcansee;
+
         /* Portals that were in progress need to be started again */
         if (p.status == pstat_working) {
             p.status = pstat_none;
         }
     }
 
+    /* Move back the start time to simulate already elapsed time */
+    starttime -= duration(state.time_elapsed);
+
     return true;
 }
-- 
2.43.0


From 07138366d36051f3a2533ee5a3ea3b506059d11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:57 +0000
Subject: [PATCH 36/85] fix: return the old position from the winding
 iterators' postfix operators

---
 include/common/polylib.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/common/polylib.hh b/include/common/polylib.hh
index ef21023..91f0d79 100644
--- a/include/common/polylib.hh
+++ b/include/common/polylib.hh
@@ -329,10 +329,11 @@ public:
             return *this;
         }
 
-        constexpr iterator_base &operator++(int) noexcept
+        constexpr iterator_base operator++(int) noexcept
         {
+            iterator_base _Tmp = *this;
             index++;
-            return *this;
+            return _Tmp;
         }
 
         constexpr iterator_base &operator--() noexcept
@@ -343,8 +344,9 @@ public:
 
         constexpr iterator_base operator--(int) noexcept
         {
+            iterator_base _Tmp = *this;
             index--;
-            return *this;
+            return _Tmp;
         }
 
         constexpr iterator_base &operator+=(const difference_type _Off) noexcept
-- 
2.43.0


From 6ca5022f1b448e10b899229f421711c855430147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:23 +0000
Subject: [PATCH 37/85] fix: drop the overflowing points of a hybrid winding
 that shrinks

---
 include/common/polylib.hh | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/common/polylib.hh b/include/common/polylib.hh
index 91f0d79..80a9b26 100644
--- a/include/common/polylib.hh
+++ b/include/common/polylib.hh
@@ -448,7 +448,7 @@ public:
             vector = std::move(move.vector);
         }
 
-        move.count = 0;
+        move.clear();
     }
 
     // assignment copy
@@ -464,6 +464,8 @@ public:
             vector.reserve(count);
             vector.resize(count - N);
             memcpy(&vector.front(), &copy.vector.front(), (count - N) * sizeof(vec3_type));
+        } else {
+            vector.clear();
         }
 
         return *this;
@@ -480,9 +482,11 @@ public:
         // move vector data, if available
         if (count > N) {
             vector = std::move(move.vector);
+        } else {
+            vector.clear();
         }
 
-        move.count = 0;
+        move.clear();
 
         return *this;
     }
@@ -567,6 +571,8 @@ public:
         // resize vector if necessary
         if (new_size > N) {
             vector.resize(new_size - N);
+        } else {
+            vector.clear();
         }
 
         count = new_size;
@@ -574,7 +580,11 @@ public:
 
     inline void reserve(size_t size) { }
 
-    inline void clear() { count = 0; }
+    inline void clear()
+    {
+        count = 0;
+        vector.clear();
+    }
 };
 
 // Winding type, with storage template. Doesn't inherit the storage,
-- 
2.43.0


From 6980327c2ffc28d81dc3a8cc1692f5c0633d3f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:24 +0000
Subject: [PATCH 38/85] fix: divide rather than multiply in qvec's element-wise
 operator/=

---
 include/common/qvec.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/common/qvec.hh b/include/common/qvec.hh
index c4f72fc..d450c57 100644
--- a/include/common/qvec.hh
+++ b/include/common/qvec.hh
@@ -277,7 +277,7 @@ public:
     template<typename F>
     constexpr qvec operator/=(const qvec<F, N> &other)
     {
-        return *this = *this * other;
+        return *this = *this / other;
     }
 
     [[nodiscard]] constexpr qvec<T, 3> xyz() const
-- 
2.43.0


From 9b5cd2218d47b15c369e894a84a18384b50df057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:04 +0000
Subject: [PATCH 39/85] fix: sample cumulative distributions that round to less
 than 1

---
 common/mathlib.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/mathlib.cc b/common/mathlib.cc
index 6a4a32c..01e8117 100644
--- a/common/mathlib.cc
+++ b/common/mathlib.cc
@@ -123,6 +123,8 @@ std::vector<float> MakeCDF(const std::vector<float> &pdf)
 int SampleCDF(const std::vector<float> &cdf, float sample)
 {
     const size_t size = cdf.size();
+    // rounding can leave the last entry slightly below 1
+    sample = std::min(sample, cdf.back());
     for (size_t i = 0; i < size; i++) {
         float cdfVal = cdf.at(i);
         if (sample <= cdfVal) {
-- 
2.43.0


From 808366e0b16e37dd9792a907398d9585ad1d33fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:57 +0000
Subject: [PATCH 40/85] fix: count single characters put into an omemsizestream

---
 common/cmdlib.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index 8b62585..455a233 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -338,7 +338,7 @@ std::streamsize omemsizebuf::xsputn(const char_type *s, std::streamsize n)
 
 omemsizebuf::int_type omemsizebuf::overflow(int_type ch)
 {
-    setpptrs(pbase(), epptr(), epptr() + 1);
+    setpptrs(pbase(), epptr() + 1, epptr() + 1);
     return ch;
 }
 
-- 
2.43.0


From 91eea5d4c99792a6e2979c0649af127fc3b58448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:16 +0000
Subject: [PATCH 41/85] fix: order names with leading zeros consistently

---
 common/cmdlib.cc | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index 455a233..ab42a1d 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -592,26 +592,21 @@ bool natstrlt(const char *s1, const char *s2, bool case_sensitive)
                     return false;
                 else {
                     state = st_numeric;
-                    if (sz1 == 0)
-                        while (*p1 == '0') {
-                            p1++;
-                            sz1++;
-                        }
-                    else
-                        while (*p1 == '0')
-                            p1++;
-                    if (sz2 == 0)
-                        while (*p2 == '0') {
-                            p2++;
-                            sz2++;
-                        }
-                    else
-                        while (*p2 == '0')
-                            p2++;
+                    // superfluous zeros only matter for the first number that has another count of them
+                    unsigned long zeros1 = 0;
+                    unsigned long zeros2 = 0;
+                    while (*p1 == '0') {
+                        p1++;
+                        zeros1++;
+                    }
+                    while (*p2 == '0') {
+                        p2++;
+                        zeros2++;
+                    }
                     if (sz1 == sz2) {
-                        sz1 = 0;
-                        sz2 = 0;
-                    };
+                        sz1 = zeros1;
+                        sz2 = zeros2;
+                    }
                     if (!t_digit(*p1))
                         p1--;
                     if (!t_digit(*p2))
@@ -653,15 +648,11 @@ bool natstrlt(const char *s1, const char *s2, bool case_sensitive)
                 break;
         }
     }
-    if (sz1 < sz2)
-        return true;
-    if (sz1 > sz2)
-        return false;
     if (*p1 == 0 && *p2 != 0)
         return true;
     if (*p1 != 0 && *p2 == 0)
         return false;
-    return false;
+    return sz1 < sz2;
 }
 
 bool stlnatstrlt(const std::string &s1, const std::string &s2, bool case_sensitive)
-- 
2.43.0


From 3ff2f15eeb8d16db52bfa73359c5783c92ef4af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:53 +0000
Subject: [PATCH 42/85] fix: see through Quake II portals whose sides look the
 same, not those that differ

---
 common/bspfile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index 13755fc..334f2e0 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1185,7 +1185,7 @@ struct gamedef_q2_t : public gamedef_t
         if (!(c0 ^ c1))
             return true;
 
-        return (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) != 0);
+        return (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) == 0);
     }
 
     bool contents_seals_map(const contentflags_t &contents) const override
-- 
2.43.0


From 5fa63cfcc1f68406c9f6d6540dbee89a9085f0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 43/85] fix: write two digits per byte in bspinfo's reports

---
 common/bspinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index 932441a..1cc4c62 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -40,7 +40,7 @@ static std::string hex_string(const uint8_t *bytes, const size_t count)
     std::string str;
 
     for (size_t i = 0; i < count; ++i) {
-        fmt::format_to(std::back_inserter(str), "{:x}", bytes[i]);
+        fmt::format_to(std::back_inserter(str), "{:02x}", bytes[i]);
     }
 
     return str;
-- 
2.43.0


From 8d0fa1d2a24f7996a0e21c49d15cc06218fec238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:28 +0000
Subject: [PATCH 44/85] fix: report PHS offsets apart from the PVS offsets

---
 common/bspinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index 1cc4c62..dec2ca8 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -572,7 +572,7 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
             json &visdata = (j.emplace("visdata", json::object())).first.value();
 
             json &pvs = (visdata.emplace("pvs", json::array())).first.value();
-            json &phs = (visdata.emplace("pvs", json::array())).first.value();
+            json &phs = (visdata.emplace("phs", json::array())).first.value();
 
             for (auto &offset : bsp.dvis.bit_offsets) {
                 pvs.push_back(offset[VIS_PVS]);
-- 
2.43.0


From 322fe1cfede5c5c74adba27cf7049c0116658a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 45/85] fix: leave faces without lightmap out of the lightmap
 atlas

---
 common/bspinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index dec2ca8..308a0f3 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -404,7 +404,7 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
                 continue;
             }
 
-            if (bsp.dlightdata.empty()) {
+            if (bsp.dlightdata.empty() || rect.lightofs < 0) {
                 continue;
             }
 
-- 
2.43.0


From cd7905a3825f4ce553f998369869090e05c2bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 46/85] fix: don't search forever for room for faces with large
 lightmaps

---
 common/bspinfo.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index 308a0f3..d8b084a 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -236,7 +236,7 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
         size_t x = 0, y = 0;
     };
 
-    constexpr size_t atlas_size = 512;
+    size_t atlas_size = 512;
     const uint8_t *lightdata_source;
     bool is_rgb;
     bool is_lit;
@@ -309,6 +309,11 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
         return {};
     }
 
+    // every face has to fit in an atlas
+    for (auto &rect : rectangles) {
+        atlas_size = std::max({atlas_size, (size_t)rect.extents.width() + 1, (size_t)rect.extents.height() + 1});
+    }
+
     // sort faces
     std::sort(rectangles.begin(), rectangles.end(), [](const face_rect &a, const face_rect &b) -> bool {
         int32_t a_height = a.extents.height();
-- 
2.43.0


From 46220e51d93c58edd7a2c7e7a991f89048a817bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 47/85] fix: export the lightmaps of style 254, too

---
 common/bspinfo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index d8b084a..d7eb39a 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -392,7 +392,7 @@ full_atlas_t build_lightmap_atlas(const mbsp_t &bsp, const bspxentries_t &bspx,
 
     // compile all of the styles that are available
     // TODO: LMSTYLE16
-    for (size_t i = 0; i < INVALID_LIGHTSTYLE_OLD - 1; i++) {
+    for (size_t i = 0; i < INVALID_LIGHTSTYLE_OLD; i++) {
         bool any_written = false;
 
         for (auto &rect : rectangles) {
-- 
2.43.0


From 3e165e9e653caee4ba4650e846af26fad8d23178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 48/85] fix: don't write pictures of textures without pixels

---
 common/bspinfo.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index d7eb39a..a97979a 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -183,13 +183,19 @@ static void Base64EncodeTo(const uint8_t *data, size_t in_len, T p)
     }
 }
 
-static std::string serialize_image(const std::optional<img::texture> &texture_opt)
+static json serialize_image(const std::optional<img::texture> &texture_opt)
 {
     if (!texture_opt) {
         FError("can't serialize image in BSP?");
     }
 
     auto &texture = texture_opt.value();
+
+    if (texture.pixels.empty()) {
+        // no pixels in the BSP, or no palette for them
+        return nullptr;
+    }
+
     std::vector<uint8_t> buf;
     stbi_write_png_to_func(
         [](void *context, void *data, int size) {
-- 
2.43.0


From 834f102169382ea17cddc24bb902ef2a29df3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 49/85] fix: write reports of maps whose text is not UTF-8

---
 common/bspinfo.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/bspinfo.cc b/common/bspinfo.cc
index a97979a..8e4de45 100644
--- a/common/bspinfo.cc
+++ b/common/bspinfo.cc
@@ -836,7 +836,9 @@ void serialize_bsp(const bspdata_t &bspdata, const mbsp_t &bsp, const fs::path &
     export_obj_and_lightmaps(bsp, bspdata.bspx.entries, false, true, fs::path(name).replace_extension(".geometry.obj"),
         fs::path(name).replace_extension(".lm.png"));
 
-    std::ofstream(name, std::fstream::out | std::fstream::trunc) << std::setw(4) << j;
+    // text in the BSP need not be UTF-8 (Quake has coloured letters above 127)
+    std::ofstream(name, std::fstream::out | std::fstream::trunc)
+        << j.dump(4, ' ', false, json::error_handler_t::replace);
 
     logging::print("wrote {}\n", name);
 }
-- 
2.43.0


From bfe7d4d0443e7e5220761e685a3203b258a8e331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:39 +0000
Subject: [PATCH 50/85] fix: move brush models back to their origin wherever
 the key stands

---
 common/decompile.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index 2d3bdb2..bd2b4b0 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -1144,16 +1144,17 @@ static void DecompileEntity(
         return;
     }
 
+    // Find the brush model first: the keys come in any order, and the handling
+    // of "origin" depends on it
+    if (const std::string &model = dict.get("model"); !model.empty() && model[0] == '*') {
+        modelNum = atoi(model.c_str() + 1);
+    }
+
     // First, print the key/values for this entity
     ewt::print(file, "{{\n");
     for (const auto &keyValue : dict) {
         if (keyValue.first == "model" && !keyValue.second.empty() && keyValue.second[0] == '*') {
             // strip "model" "*NNN" key/values
-
-            std::string modelNumString = keyValue.second;
-            modelNumString.erase(0, 1); // erase first character
-
-            modelNum = atoi(modelNumString.c_str());
             continue;
         } else if (areaportal_brush && keyValue.first == "style") {
             continue;
-- 
2.43.0


From fdb30407d348c526029ab3d56e3ae1384fe118f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:37 +0000
Subject: [PATCH 51/85] fix: keep scaled textures aligned when moving brush
 models back

---
 common/decompile.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/decompile.cc b/common/decompile.cc
index bd2b4b0..bf158be 100644
--- a/common/decompile.cc
+++ b/common/decompile.cc
@@ -172,8 +172,8 @@ struct compiled_brush_t
                     v += brush_offset.value();
                 }
 
-                side.valve.shift[0] -= qv::dot(brush_offset.value(), side.valve.axis.row(0));
-                side.valve.shift[1] -= qv::dot(brush_offset.value(), side.valve.axis.row(1));
+                side.valve.shift[0] -= qv::dot(brush_offset.value(), side.valve.axis.row(0)) / side.valve.scale[0];
+                side.valve.shift[1] -= qv::dot(brush_offset.value(), side.valve.axis.row(1)) / side.valve.scale[1];
             }
 
 #if 0
-- 
2.43.0


From b9e455949d2e59a5cade4ea1409d548dcd872689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 52/85] fix: keep every face within -maxedges

---
 qbsp/tjunc.cc | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/qbsp/tjunc.cc b/qbsp/tjunc.cc
index dfa5f2a..d6cac76 100644
--- a/qbsp/tjunc.cc
+++ b/qbsp/tjunc.cc
@@ -244,7 +244,7 @@ The face was created successfully, but may have way too many edges.
 Cut it down to the minimum amount of faces that are within the
 max edge count.
 
-Modifies `superface`. Adds the results to the end of `output`.
+Consumes `superface`. Adds the results to the end of `output`.
 ==================
 */
 static void SplitFaceIntoFragments(
@@ -268,8 +268,31 @@ static void SplitFaceIntoFragments(
         superface.resize(superface.size() - maxedges + 2);
     }
 
-    // move the first face to the end, since that's logically where it belongs now
-    output.splice(output.end(), output, output.begin());
+    // the remainder is the last of its fragments
+    output.push_back(std::move(superface));
+}
+
+/*
+==================
+LimitFaceEdges
+
+Splits all of the faces that have more edges than -maxedges allows.
+==================
+*/
+static void LimitFaceEdges(std::list<std::vector<size_t>> &faces, tjunc_stats_t &stats)
+{
+    if (!qbsp_options.maxedges.value()) {
+        return;
+    }
+
+    std::list<std::vector<size_t>> output;
+
+    for (auto &face : faces) {
+        Q_assert(face.size() >= 3);
+        SplitFaceIntoFragments(face, output, stats);
+    }
+
+    faces = std::move(output);
 }
 
 static float AngleOfTriangle(const qvec3d &a, const qvec3d &b, const qvec3d &c)
@@ -766,7 +789,12 @@ static void FixFaceEdges(node_t *headnode, face_t *f, tjunc_stats_t &stats)
 {
     // we were asked not to bother fixing any of the faces.
     if (qbsp_options.tjunc.value() == settings::tjunclevel_t::NONE) {
-        f->fragments.emplace_back(face_fragment_t{f->original_vertices});
+        std::list<std::vector<size_t>> faces{f->original_vertices};
+        LimitFaceEdges(faces, stats);
+
+        for (auto &face : faces) {
+            f->fragments.emplace_back(face_fragment_t{std::move(face)});
+        }
         return;
     }
 
@@ -860,13 +888,7 @@ static void FixFaceEdges(node_t *headnode, face_t *f, tjunc_stats_t &stats)
     Q_assert(faces.size());
 
     // split giant superfaces into subfaces if we have an edge limit.
-    if (qbsp_options.maxedges.value()) {
-        for (auto &face : faces) {
-            Q_assert(face.size() >= 3);
-            SplitFaceIntoFragments(face, faces, stats);
-            Q_assert(face.size() >= 3);
-        }
-    }
+    LimitFaceEdges(faces, stats);
 
     // move the results into the face
     f->fragments.reserve(faces.size());
-- 
2.43.0


From 0d4efe14b0ba4b196638491d8850157f1fe9b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:53 +0000
Subject: [PATCH 53/85] fix: recognise all flat triangles when closing
 t-junctions

---
 qbsp/tjunc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qbsp/tjunc.cc b/qbsp/tjunc.cc
index d6cac76..9cb3087 100644
--- a/qbsp/tjunc.cc
+++ b/qbsp/tjunc.cc
@@ -23,6 +23,7 @@
 
 #include <qbsp/qbsp.hh>
 #include <qbsp/map.hh>
+#include <algorithm>
 #include <atomic>
 
 struct tjunc_stats_t : logging::stat_tracker_t
@@ -301,7 +302,8 @@ static float AngleOfTriangle(const qvec3d &a, const qvec3d &b, const qvec3d &c)
     double den = sqrt(pow((b[0] - a[0]), 2) + pow((b[1] - a[1]), 2) + pow((b[2] - a[2]), 2)) *
                 sqrt(pow((c[0] - a[0]), 2) + pow((c[1] - a[1]), 2) + pow((c[2] - a[2]), 2));
 
-    return acos(num / den) * (180.0 / 3.141592653589793238463);
+    // rounding may take the cosine of a flat triangle out of the domain of acos
+    return acos(std::clamp(num / den, -1.0, 1.0)) * (180.0 / 3.141592653589793238463);
 }
 
 // Check whether the given input triangle would be valid
-- 
2.43.0


From a61e2aa91cbf40176c3bb758765c66dda32d4ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:27 +0000
Subject: [PATCH 54/85] fix: keep splitting when only hint brushes stand in the
 way

---
 qbsp/brushbsp.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qbsp/brushbsp.cc b/qbsp/brushbsp.cc
index 8bb06bf..c5ecd6c 100644
--- a/qbsp/brushbsp.cc
+++ b/qbsp/brushbsp.cc
@@ -981,7 +981,8 @@ static side_t *SelectSplitPlane(
     }
 
     side_t *bestside = nullptr;
-    int bestvalue = -99999;
+    // no valid plane is ever refused, however bad: what it separates would end up in one leaf
+    int bestvalue = INT_MIN;
 
     // the search order goes: (changed from q2 tools - see q2_detail_leak_test.map for the issue
     // with the vanilla q2 tools method):
@@ -1065,7 +1066,7 @@ static side_t *SelectSplitPlane(
                     value += 5; // axial is better
                 value -= epsilonbrush * 1000; // avoid!
 
-                // never split a hint side except with another hint
+                // don't split a hint side except with another hint, unless no other plane is left
                 if (hintsplit && !(side.get_texinfo().flags.is_hint))
                     value = -9999999;
 
-- 
2.43.0


From 4c0b6aa14e0ae320c41f1d9ad48f5126e7cf6fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:30 +0000
Subject: [PATCH 55/85] fix: list the brushes of merged leafs in the same order
 in every run

---
 qbsp/tree.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qbsp/tree.cc b/qbsp/tree.cc
index e1e2ff1..47795a5 100644
--- a/qbsp/tree.cc
+++ b/qbsp/tree.cc
@@ -20,6 +20,7 @@
 */
 
 #include <qbsp/tree.hh>
+#include <qbsp/map.hh>
 
 #include <qbsp/qbsp.hh>
 #include <qbsp/brush.hh>
@@ -95,8 +96,17 @@ static void ConvertNodeToLeaf(node_t *node, const contentflags_t &contents)
     original_brushes.insert(original_brushes.end(), nodedata->children[base ^ 1]->get_leafdata()->original_brushes.begin(),
                             nodedata->children[base ^ 1]->get_leafdata()->original_brushes.end());
 
-    std::sort(original_brushes.begin(), original_brushes.end(),
-        [](const bspbrush_t *a, const bspbrush_t *b) { return a->mapbrush < b->mapbrush; });
+    // in the order of the map file, which, unlike that of the pointers, is the same in every run
+    std::sort(original_brushes.begin(), original_brushes.end(), [](const bspbrush_t *a, const bspbrush_t *b) {
+        if (a->mapbrush == b->mapbrush)
+            return false;
+        const auto &la = a->mapbrush->line, &lb = b->mapbrush->line;
+        if (la.line_number != lb.line_number)
+            return la.line_number < lb.line_number;
+        if (la.source_name && lb.source_name && *la.source_name != *lb.source_name)
+            return *la.source_name < *lb.source_name;
+        return a->mapbrush < b->mapbrush;
+    });
     auto unique = std::unique(original_brushes.begin(), original_brushes.end());
     original_brushes.erase(unique, original_brushes.end());
 
-- 
2.43.0


From 2fe0d4a903f02c7d3d810676144be2869591203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:52 +0000
Subject: [PATCH 56/85] fix: do not repeat lightmap rows and columns when the
 size does not divide evenly in floats

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 6d5c83e..1bed32d 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -408,8 +408,8 @@ static void WriteSingleLightmap(const mbsp_t *bsp, const mface_t *face, const li
 
     for (int t = 0; t < output_height; t++) {
         for (int s = 0; s < output_width; s++) {
-            const int input_sample_s = (s / (float)output_width) * actual_width;
-            const int input_sample_t = (t / (float)output_height) * actual_height;
+            const int input_sample_s = (s * actual_width) / output_width;
+            const int input_sample_t = (t * actual_height) / output_height;
             const int sampleindex = (input_sample_t * actual_width) + input_sample_s;
 
             if (lit || out) {
-- 
2.43.0


From b09f68f859042fc9340f7d4f17b3e981bb1de4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:42 +0000
Subject: [PATCH 57/85] fix: look for solids around the samples of moved brush
 models where they are drawn

---
 light/ltface.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/ltface.cc b/light/ltface.cc
index b7fc218..6b9b182 100644
--- a/light/ltface.cc
+++ b/light/ltface.cc
@@ -300,10 +300,10 @@ static void CalcPoints_Debug(const lightsurf_t *surf, const mbsp_t *bsp)
 /// This is used for marking sample points as occluded.
 static bool Light_PointInAnySolid(const mbsp_t *bsp, const dmodelh2_t *self, const qvec3f &point)
 {
-    if (Light_PointInSolid(bsp, self, point))
+    auto *self_modelinfo = ModelInfoForModel(bsp, self - bsp->dmodels.data());
+    if (Light_PointInSolid(bsp, self, point - self_modelinfo->offset))
         return true;
 
-    auto *self_modelinfo = ModelInfoForModel(bsp, self - bsp->dmodels.data());
     if (self_modelinfo->object_channel_mask.value() == CHANNEL_MASK_DEFAULT) {
         if (Light_PointInWorld(bsp, point))
             return true;
-- 
2.43.0


From 1c003a4881da89b9d0225364f9306c75e88f6c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:15 +0000
Subject: [PATCH 58/85] fix: write the unscaled lightmap to the space reserved
 for it

---
 light/write.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index 1bed32d..b949858 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1068,7 +1068,9 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
                 }
             } else {
-                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
+                lightmap_intermediate_data_t vanilla_data = intermediate_data[i];
+                vanilla_data.lightofs = vanilla_data.vanilla_lightofs;
+                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, vanilla_data);
                 SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             }
         });
-- 
2.43.0


From 502bf50a2b8f7749a3539633f8610852d561a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:15 +0000
Subject: [PATCH 59/85] fix: take a face's offset from its LMSHIFT data once
 that is known

---
 light/write.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index b949858..b4b20cf 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1057,12 +1057,12 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             } else if (faces_sup.empty()) {
                 SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             } else if (light_options.novanilla.value() || faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
+                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
                 if (faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
                     f->lightofs = faces_sup[i].lightofs;
                 } else {
                     f->lightofs = -1;
                 }
-                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
                 for (int j = 0; j < MAXLIGHTMAPS; j++) {
                     f->styles[j] =
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
-- 
2.43.0


From e4b5d080ede4e36e2285e113c7ded359ef77a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:15 +0000
Subject: [PATCH 60/85] fix: reset the lightmaps of faces that also have
 LMSHIFT data

---
 light/light.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/light/light.cc b/light/light.cc
index a971fcf..3b51988 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -621,15 +621,15 @@ static void CreateLightmapSurfaces(mbsp_t *bsp)
                 for (size_t i = 0; i < MAXLIGHTMAPSSUP; i++) {
                     facesup->styles[i] = INVALID_LIGHTSTYLE;
                 }
-            } else {
-                face->lightofs = -1;
-                for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
-                    face->styles[i] = INVALID_LIGHTSTYLE_OLD;
-                }
+            }
 
-                if (facesup_decoupled) {
-                    facesup_decoupled->offset = -1;
-                }
+            face->lightofs = -1;
+            for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
+                face->styles[i] = INVALID_LIGHTSTYLE_OLD;
+            }
+
+            if (facesup_decoupled) {
+                facesup_decoupled->offset = -1;
             }
         }
 
-- 
2.43.0


From e98e6b39c48a4ead72605bb4f60dd9453eadbe6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:15 +0000
Subject: [PATCH 61/85] fix: round down when sampling a decoupled lightmap left
 of or above its first luxel

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index b4b20cf..fc63a80 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -494,8 +494,8 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
             decoupled_lm_coord = decoupled_lm_coord * light_options.extra.value();
 
             // split into integer/fractional part for bilinear interpolation
-            const int coord_floor_x = (int)decoupled_lm_coord[0];
-            const int coord_floor_y = (int)decoupled_lm_coord[1];
+            const int coord_floor_x = (int)floor(decoupled_lm_coord[0]);
+            const int coord_floor_y = (int)floor(decoupled_lm_coord[1]);
 
             const float coord_frac_x = decoupled_lm_coord[0] - coord_floor_x;
             const float coord_frac_y = decoupled_lm_coord[1] - coord_floor_y;
-- 
2.43.0


From 8f984de34315be5ff4e6decd98682831f42ef5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:03 +0000
Subject: [PATCH 62/85] fix: fill in occluded samples when deriving a lightmap
 from a decoupled one

---
 light/write.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/light/write.cc b/light/write.cc
index fc63a80..3c5cb74 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -470,6 +470,9 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
     // this is the lightmap data in the "decoupled" coordinate system
     std::vector<qvec4f> fullres = LightmapColorsToGLMVector(lightsurf, lm);
 
+    // removes all transparent pixels by averaging from adjacent pixels
+    fullres = FloodFillTransparent(fullres, lightsurf->width, lightsurf->height);
+
     // maps a luxel in the vanilla lightmap to the corresponding position in the decoupled lightmap
     const qmat4x4f vanillaLMToDecoupled =
         lightsurf->extents.worldToLMMatrix * lightsurf->vanilla_extents.lmToWorldMatrix;
-- 
2.43.0


From 3444c1bdf50bad7906c1a276a213469415796bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:03 +0000
Subject: [PATCH 63/85] fix: keep coloured lightmaps with -novanilla, they are
 not stored anywhere else

---
 light/light.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/light/light.cc b/light/light.cc
index 3b51988..93ba827 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -1456,7 +1456,8 @@ int light_main(int argc, const char **argv)
     }
 
     /* -novanilla + internal lighting = no grey lightmap */
-    if (light_options.novanilla.value() && (light_options.write_litfile & lightfile::bspx)) {
+    if (light_options.novanilla.value() && (light_options.write_litfile & lightfile::bspx) &&
+        !bsp.loadversion->game->has_rgb_lightmap) {
         bsp.dlightdata.clear();
     }
 
-- 
2.43.0


From 3979f7f835d9c477fdb6f7d11e839ddfde6e017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:15 +0000
Subject: [PATCH 64/85] fix: write grey light values when deriving a lightmap
 from a decoupled one

---
 light/write.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 3c5cb74..ae39efe 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -517,8 +517,8 @@ static void WriteSingleLightmap_FromDecoupled(const mbsp_t *bsp, const mface_t *
                 }
 
                 if (out) {
-                    // FIXME: implement
-                    *out++ = 0;
+                    // same as in WriteSingleLightmap
+                    *out++ = std::clamp(std::max({color[0], color[1], color[2]}), 0.0f, 255.0f);
                 }
             }
 
-- 
2.43.0


From e7a5789864c924a8a7ff95602eb808480a1100a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:14 +0000
Subject: [PATCH 65/85] fix: light: no_phong in .texinfo.json was stored as
 no_expand

---
 light/light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/light.cc b/light/light.cc
index 93ba827..c1e6441 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -993,7 +993,7 @@ static void LoadExtendedTexinfoFlags(const fs::path &sourcefilename, const mbsp_
             flags.no_expand = val.at("no_expand").get<bool>();
         }
         if (val.contains("no_phong")) {
-            flags.no_expand = val.at("no_phong").get<bool>();
+            flags.no_phong = val.at("no_phong").get<bool>();
         }
         if (val.contains("light_ignore")) {
             flags.light_ignore = val.at("light_ignore").get<bool>();
-- 
2.43.0


From 278874c91eaf316bf4a815fb3cc81ccd8e56bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:09 +0000
Subject: [PATCH 66/85] fix: light: normalise tangents before they are weighted
 and stored, as bitangents are

---
 light/phong.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/light/phong.cc b/light/phong.cc
index 15d27fc..92d5cfa 100644
--- a/light/phong.cc
+++ b/light/phong.cc
@@ -563,7 +563,7 @@ void CalculateVertexNormals(const mbsp_t *bsp)
 
         // face tangent
         auto t1 = TexSpaceToWorld(bsp, &f);
-        std::tuple<qvec3f, qvec3f> tangents(t1.col(0).xyz(), qv::normalize(t1.col(1).xyz()));
+        std::tuple<qvec3f, qvec3f> tangents(qv::normalize(t1.col(0).xyz()), qv::normalize(t1.col(1).xyz()));
 
         // gather up f and neighboursToSmooth
         std::vector<const mface_t *> fPlusNeighbours;
@@ -586,7 +586,7 @@ void CalculateVertexNormals(const mbsp_t *bsp)
 
             // f2 face tangent
             auto t2 = TexSpaceToWorld(bsp, f2);
-            std::tuple<qvec3f, qvec3f> f2_tangents(t2.col(0).xyz(), qv::normalize(t2.col(1).xyz()));
+            std::tuple<qvec3f, qvec3f> f2_tangents(qv::normalize(t2.col(0).xyz()), qv::normalize(t2.col(1).xyz()));
 
             // walk the vertices of f2, and add their contribution to smoothedNormals
             for (int j = 0; j < f2->numedges; j++) {
-- 
2.43.0


From 5da0a712023d4d157b31526bc993d91c8c7ae840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:13 +0000
Subject: [PATCH 67/85] fix: light: _bouncecolorscale in worldspawn was read
 too late to matter

---
 light/light.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/light/light.cc b/light/light.cc
index c1e6441..59caa7c 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -1403,12 +1403,13 @@ int light_main(int argc, const char **argv)
 
     LoadExtendedTexinfoFlags(source, &bsp);
 
-    CacheTextures(bsp);
-
     LoadEntities(light_options, &bsp);
 
     light_options.postinitialize(argc, argv);
 
+    // uses _bouncecolorscale, which may be set in worldspawn
+    CacheTextures(bsp);
+
     all_uncompressed_vis = DecompressAllVis(&bsp, true);
     FindModelInfo(&bsp);
 
-- 
2.43.0


From 0a34417a77bb881d4e0908f8b93d64a374fe7941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:13 +0000
Subject: [PATCH 68/85] fix: light: bounce light of moved brush models came
 from where they were built

---
 light/bounce.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/light/bounce.cc b/light/bounce.cc
index 124c31d..58565cc 100644
--- a/light/bounce.cc
+++ b/light/bounce.cc
@@ -150,6 +150,11 @@ static bool MakeBounceLightsThread(const settings::worldspawn_keys &cfg, const m
         return false;
     }
 
+    // models are lit, and cast light, where they stand
+    for (auto &pt : winding) {
+        pt += ModelInfoForFace(bsp, &face - bsp->dfaces.data())->offset;
+    }
+
     // Create winding...
     winding.remove_colinear();
 
-- 
2.43.0


From 5ff0fe48c437464c28648c264f47ec0f31a8a834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:13 +0000
Subject: [PATCH 69/85] fix: light: surface lights were culled when any of the
 leafs they touch is out of sight

---
 light/ltface.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/light/ltface.cc b/light/ltface.cc
index 6b9b182..f1a4493 100644
--- a/light/ltface.cc
+++ b/light/ltface.cc
@@ -1994,11 +1994,14 @@ static bool
 SurfaceLight_VisCull(const mbsp_t *bsp, const std::vector<uint8_t> *pvs, const lightsurf_t *lightsurf_b)
 {
     if (pvs && light_options.visapprox.value() == visapprox_t::VIS) {
+        // the surface may touch several leafs, it can only be culled if none of them is visible
         for (auto &leaf : lightsurf_b->leaves) {
-            if (VisCullEntity(bsp, *pvs, leaf)) {
-                return true;
+            if (!VisCullEntity(bsp, *pvs, leaf)) {
+                return false;
             }
         }
+
+        return !lightsurf_b->leaves.empty();
     }
 
     return false;
-- 
2.43.0


From 2a38cb0d36bf6046c50ce98b8599723cb2221a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:13 +0000
Subject: [PATCH 70/85] fix: light: surface lights were culled by their light
 on the far side of a face

---
 light/ltface.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/light/ltface.cc b/light/ltface.cc
index f1a4493..baa82fa 100644
--- a/light/ltface.cc
+++ b/light/ltface.cc
@@ -1969,7 +1969,8 @@ inline qvec3f GetSurfaceLighting(const settings::worldspawn_keys &cfg, const sur
 
 static bool // mxd
 SurfaceLight_SphereCull(const surfacelight_t *vpl, const lightsurf_t *lightsurf,
-    const surfacelight_t::per_style_t &vpl_settings, const float &bouncelight_gate, const float &hotspot_clamp)
+    const surfacelight_t::per_style_t &vpl_settings, const float &bouncelight_gate, const float &standard_scale,
+    const float &sky_scale, const float &hotspot_clamp)
 {
     if (light_options.visapprox.value() == visapprox_t::RAYS &&
         vpl->bounds.disjoint(lightsurf->extents.bounds, 0.001f)) {
@@ -1979,12 +1980,17 @@ SurfaceLight_SphereCull(const surfacelight_t *vpl, const lightsurf_t *lightsurf,
     }
 
     const settings::worldspawn_keys &cfg = *lightsurf->cfg;
-    const qvec3f dir = qvec3f(lightsurf->extents.origin) - qvec3f(vpl->pos); // vpl -> sample point
-    const float dist = qv::length(dir) + lightsurf->extents.radius;
+    const qvec3f origin = lightsurf->extents.origin;
+
+    // distance from the closest emission point to the closest point of the bounding sphere
+    float dist = FLT_MAX;
+    for (const qvec3f &point : vpl->points) {
+        dist = std::min(dist, qv::distance(origin, point));
+    }
+    dist = std::max(0.0f, dist - static_cast<float>(lightsurf->extents.radius));
 
     // Get light contribution
-    const qvec3f color = SurfaceLight_ColorAtDist(cfg,
-        vpl_settings.omnidirectional ? cfg.surflightskyscale.value() : cfg.surflightscale.value(),
+    const qvec3f color = SurfaceLight_ColorAtDist(cfg, vpl_settings.omnidirectional ? sky_scale : standard_scale,
         vpl_settings.totalintensity, vpl_settings.color, dist, hotspot_clamp);
 
     return qv::gate(color, (float)bouncelight_gate);
@@ -2026,7 +2032,8 @@ LightFace_SurfaceLight(const mbsp_t *bsp, lightsurf_t *lightsurf, lightmapdict_t
 
             if (vpl_setting.bounce_level != bounce_depth)
                 continue;
-            else if (SurfaceLight_SphereCull(&vpl, lightsurf, vpl_setting, surflight_gate, hotspot_clamp))
+            else if (SurfaceLight_SphereCull(
+                         &vpl, lightsurf, vpl_setting, surflight_gate, standard_scale, sky_scale, hotspot_clamp))
                 continue;
             else if (SurfaceLight_VisCull(bsp, &lightsurf->pvs, surf_ptr))
                 continue;
-- 
2.43.0


From bb0a8ec25c6995b444e5e2ca933da6cffd709e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:14 +0000
Subject: [PATCH 71/85] fix: maputil: scripts crashed on maps in the standard
 and QuArK formats

The format's name was set once for its own format and then again as "bp",
with the wrong table.
---
 maputil/maputil.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/maputil/maputil.cc b/maputil/maputil.cc
index fb5ed6c..3e970e2 100644
--- a/maputil/maputil.cc
+++ b/maputil/maputil.cc
@@ -313,9 +313,9 @@ static void maputil_make_brush_side(lua_State *state, const brush_side_t &side)
 
     if (std::holds_alternative<texdef_quake_ed_t>(side.raw)) {
         lua_setfield(state, -2, "quaked");
-    } if (std::holds_alternative<texdef_etp_t>(side.raw)) {
+    } else if (std::holds_alternative<texdef_etp_t>(side.raw)) {
         lua_setfield(state, -2, "etp");
-    } if (std::holds_alternative<texdef_valve_t>(side.raw)) {
+    } else if (std::holds_alternative<texdef_valve_t>(side.raw)) {
         lua_setfield(state, -2, "valve");
     } else {
         lua_setfield(state, -2, "bp");
-- 
2.43.0


From 8bac60542081a2a846912d50217d11dc84c90309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:25 +0000
Subject: [PATCH 72/85] fix: maputil: maps committed by scripts had no planes
 and texture vectors

The next script saw zeroes and --convert made texture definitions out of
them.
---
 maputil/maputil.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/maputil/maputil.cc b/maputil/maputil.cc
index 3e970e2..135d174 100644
--- a/maputil/maputil.cc
+++ b/maputil/maputil.cc
@@ -555,6 +555,34 @@ static void maputil_copy_side(lua_State *state, brush_side_t &side)
     lua_pop(state, 1);
 }
 
+// calculate the plane and texture vecs, which Lua can't write, from the
+// values it can; as in brush_t::parse_brush_face
+static void maputil_update_side(brush_side_t &side)
+{
+    double length;
+    qvec3d normal = qv::normalize(
+        qv::cross(side.planepts[0] - side.planepts[1], side.planepts[2] - side.planepts[1]), length);
+
+    if (length < NORMAL_EPSILON || std::holds_alternative<texdef_bp_t>(side.raw)) {
+        return;
+    }
+
+    side.plane = {normal, qv::dot(side.planepts[1], normal)};
+
+    std::visit([&side](auto &&x) { side.set_texinfo(x); }, side.raw);
+
+    for (size_t i = 0; i < 2; i++) {
+        for (size_t j = 0; j < 4; j++) {
+            double r = Q_rint(side.vecs.at(i, j));
+            if (fabs(side.vecs.at(i, j) - r) < ZERO_EPSILON) {
+                side.vecs.at(i, j) = r;
+            }
+        }
+    }
+
+    side.validate_texture_projection();
+}
+
 static void maputil_copy_brush(lua_State *state, brush_t &brush)
 {
     // count sides
@@ -565,6 +593,7 @@ static void maputil_copy_brush(lua_State *state, brush_t &brush)
     lua_iterate_array(state, [&brush](auto state, auto index) {
         brush_side_t &side = brush.faces[index];
         maputil_copy_side(state, side);
+        maputil_update_side(side);
         return true;
     });
 }
-- 
2.43.0


From c730f099f16c926b4b4419b4fe68a4f90fa76fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 73/85] fix: bsputil: extracted wads had wrong sizes and
 offsets

Lumps are written as they are in the bsp, which need not be the size of
the four mips (Half-Life palettes, padding, odd sizes).
---
 bsputil/bsputil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 973266b..c2f7be1 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -96,7 +96,7 @@ void ExportWad(std::ofstream &wadfile, const mbsp_t *bsp)
             continue;
 
         lump.filepos = filepos;
-        lump.size = sizeof(dmiptex_t) + miptex.width * miptex.height / 64 * 85;
+        lump.size = miptex.data.size();
         lump.disksize = lump.size;
         snprintf(lump.name.data(), sizeof(lump.name), "%s", miptex.name.data());
 
-- 
2.43.0


From bab321285c8e3283cb188f3691c8bb25ea8c927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 74/85] fix: bsputil: edges of faces mirrored by --scale did
 not join up

---
 bsputil/bsputil.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index c2f7be1..851987c 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -993,6 +993,11 @@ int bsputil_main(int argc, char **argv)
                 for (auto &s : bsp.dfaces) {
                     std::reverse(
                         bsp.dsurfedges.data() + s.firstedge, bsp.dsurfedges.data() + (s.firstedge + s.numedges));
+
+                    // each edge is followed the other way round now
+                    for (int32_t e = s.firstedge; e < s.firstedge + s.numedges; e++) {
+                        bsp.dsurfedges[e] = -bsp.dsurfedges[e];
+                    }
                 }
             }
 
-- 
2.43.0


From ea0c57725dce4c0b531c33988467ee57813549fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 75/85] fix: bsputil: --scale turned planes over when two axes
 were mirrored

---
 bsputil/bsputil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 851987c..9fcef3e 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -1016,7 +1016,7 @@ int bsputil_main(int argc, char **argv)
                         pt *= scalar;
                     }
 
-                    if (flip_faces) {
+                    if (flip_faces & 1) {
                         std::reverse(pts.begin(), pts.end());
                     }
 
-- 
2.43.0


From 2ad1f7b1fc7ab777079faf272916d463e4df3a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 76/85] fix: bsputil: --scale left clipnodes and sides of faces
 on the wrong planes

---
 bsputil/bsputil.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 9fcef3e..c71016f 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -1083,8 +1083,23 @@ int bsputil_main(int argc, char **argv)
                 v.planenum = plane_remap[v.planenum];
             }
 
+            for (auto &v : bsp.dclipnodes) {
+                v.planenum = plane_remap[v.planenum];
+
+                if (v.planenum & 1) {
+                    std::reverse(v.children.begin(), v.children.end());
+                    v.planenum &= ~1;
+                }
+            }
+
             for (auto &v : bsp.dfaces) {
                 v.planenum = plane_remap[v.planenum];
+
+                // same plane as the node's
+                if (v.planenum & 1) {
+                    v.side = !v.side;
+                    v.planenum &= ~1;
+                }
             }
 
             auto scaleTexInfo = [&](mtexinfo_t &t) {
-- 
2.43.0


From a885083ddd9a80ae0b0ec6b2b2666fccde9a752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 77/85] fix: bsputil: --scale misplaced the light grid on
 mirrored axes

---
 bsputil/bsputil.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index c71016f..0b703e1 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -1186,10 +1186,8 @@ int bsputil_main(int argc, char **argv)
                     qvec3f grid_mins;
                     istream >= grid_mins;
 
-                    qvec3f scaled_mins = grid_mins * scalar;
-                    qvec3f scaled_maxs = (grid_mins + original_grid_dist * (grid_size - qvec3i{1, 1, 1})) * scalar;
-
-                    ostream <= qv::min(scaled_mins, scaled_maxs);
+                    // the grid steps backwards from here on mirrored axes
+                    ostream <= qvec3f(grid_mins * scalar);
                 }
             }
 
-- 
2.43.0


From f0b347745acd43dbacc4f93962b1df62f2252d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 78/85] fix: bsputil: --check warned about faces without light
 and leafs without vis

---
 bsputil/bsputil.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 0b703e1..6864463 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -270,7 +270,7 @@ static void CheckBSPFile(const mbsp_t *bsp)
         /* lightofs check */
         if (face->lightofs < -1)
             fmt::print("warning: face {} has negative light offset ({})\n", i, face->lightofs);
-        if (face->lightofs >= bsp->dlightdata.size())
+        if (face->lightofs >= 0 && face->lightofs >= bsp->dlightdata.size())
             fmt::print("warning: face {} has light offset out of range "
                        "({} >= {})\n",
                 i, face->lightofs, bsp->dlightdata.size());
@@ -296,7 +296,7 @@ static void CheckBSPFile(const mbsp_t *bsp)
 
         for (j = 0; j < 2; j++) {
             const uint32_t vertex = (*edge)[j];
-            if (vertex > bsp->dvertexes.size())
+            if (vertex >= bsp->dvertexes.size())
                 fmt::print("warning: edge {} has vertex {} out range "
                            "({} >= {})\n",
                     i, j, vertex, bsp->dvertexes.size());
@@ -330,7 +330,7 @@ static void CheckBSPFile(const mbsp_t *bsp)
                 i, leaf->firstmarksurface, endmarksurface - 1, bsp->dleaffaces.size());
         if (leaf->visofs < -1)
             fmt::print("warning: leaf {} has negative visdata offset ({})\n", i, leaf->visofs);
-        if (leaf->visofs >= bsp->dvis.bits.size())
+        if (leaf->visofs >= 0 && leaf->visofs >= bsp->dvis.bits.size())
             fmt::print("warning: leaf {} has visdata offset out of range "
                        "({} >= {})\n",
                 i, leaf->visofs, bsp->dvis.bits.size());
-- 
2.43.0


From b7ed8812114d1cbc27c5252278d057e371ba6335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 79/85] fix: bsputil: --extract-entities crashed on a bsp
 without entities

---
 bsputil/bsputil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsputil/bsputil.cc b/bsputil/bsputil.cc
index 6864463..f5cbf54 100644
--- a/bsputil/bsputil.cc
+++ b/bsputil/bsputil.cc
@@ -1333,7 +1333,7 @@ int bsputil_main(int argc, char **argv)
 
             mbsp_t &bsp = std::get<mbsp_t>(bspdata.bsp);
 
-            uint32_t crc = CRC_Block((unsigned char *)bsp.dentdata.data(), bsp.dentdata.size() - 1);
+            uint32_t crc = CRC_Block((unsigned char *)bsp.dentdata.data(), bsp.dentdata.empty() ? 0 : bsp.dentdata.size() - 1);
 
             source.replace_extension(".ent");
             fmt::print("-> writing {} [CRC: {:04x}]... ", source, crc);
-- 
2.43.0


From 042098321deb00ca94996a0d6bf15a9991dedc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:41 +0000
Subject: [PATCH 80/85] fix: qbsp: output the LMSHIFT lump when faces have
 other lightmap scales

---
 qbsp/faces.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qbsp/faces.cc b/qbsp/faces.cc
index 3c37e26..80191cf 100644
--- a/qbsp/faces.cc
+++ b/qbsp/faces.cc
@@ -212,6 +212,8 @@ static void EmitFaceFragment(face_t *face, face_fragment_t *fragment, emit_faces
 
     // emit lmshift
     map.exported_lmshifts.push_back(face->original_side->lmshift);
+    if (face->original_side->lmshift != 4)
+        map.needslmshifts = true; // we only want them if they differ from the default
     Q_assert(map.bsp.dfaces.size() == map.exported_lmshifts.size());
 
     out.planenum = ExportMapPlane(face->planenum & ~1);
-- 
2.43.0


From 875cf67416ba4fc8000c7624ee7fe52e2cddeca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:12 +0000
Subject: [PATCH 81/85] fix: qbsp: -lmscale applies to entities without
 _lmscale

---
 qbsp/map.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qbsp/map.cc b/qbsp/map.cc
index 44e5e11..8e5a2ce 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -3179,7 +3179,8 @@ void ProcessMapBrushes()
             entity.rotation = rotation_t::none;
 
             /* entities with custom lmscales are important for the qbsp to know about */
-            int i = 16 * entity.epairs.get_float("_lmscale");
+            int i = 16 * (entity.epairs.has("_lmscale") ? entity.epairs.get_float("_lmscale")
+                                                        : qbsp_options.lmscale.value());
             if (!i) {
                 i = 16; // if 0, pick a suitable default
             }
-- 
2.43.0


From 1f880436da03176e80244f340eeb4dbda1c77371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:24 +0000
Subject: [PATCH 82/85] fix: light: a .texinfo.json of another map zeroed the
 defaults of all flags

---
 light/light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/light.cc b/light/light.cc
index 59caa7c..43ed796 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -961,7 +961,7 @@ static void LoadExtendedTexinfoFlags(const fs::path &sourcefilename, const mbsp_
 
         if (index >= bsp->texinfo.size()) {
             logging::print("WARNING: Extended texinfo flags in {} does not match bsp, ignoring\n", filename);
-            memset(extended_texinfo_flags.data(), 0, bsp->texinfo.size() * sizeof(surfflags_t));
+            extended_texinfo_flags.assign(bsp->texinfo.size(), surfflags_t{});
             return;
         }
 
-- 
2.43.0


From 6cbda23880997373ab112269619b598c53642722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:10 +0000
Subject: [PATCH 83/85] fix: qbsp: entities on a plane fell into the wall when
 rounding moved the plane

---
 qbsp/outside.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qbsp/outside.cc b/qbsp/outside.cc
index f550bbd..ba650d9 100644
--- a/qbsp/outside.cc
+++ b/qbsp/outside.cc
@@ -82,10 +82,10 @@ static node_t *PointInLeaf(node_t *node, const qvec3d &point, bool prefer_sealin
 
     double dist = nodedata->get_plane().distance_to(point);
 
-    if (dist > 0) {
+    if (dist > QBSP_EQUAL_EPSILON) {
         // point is on the front of the node plane
         return PointInLeaf(nodedata->children[0], point, prefer_sealing);
-    } else if (dist < 0) {
+    } else if (dist < -QBSP_EQUAL_EPSILON) {
         // point is on the back of the node plane
         return PointInLeaf(nodedata->children[1], point, prefer_sealing);
     } else {
-- 
2.43.0


From e64676574b0fd209e202f792ad993e67abcd162f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:00 +0000
Subject: [PATCH 84/85] fix: qbsp: the interior of func_illusionary_visblocker
 was solid

---
 qbsp/map.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/qbsp/map.cc b/qbsp/map.cc
index 8e5a2ce..8148aab 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -2492,7 +2492,17 @@ static contentflags_t Brush_GetContents(const mapentity_t &entity, const mapbrus
     }
 
     if (string_iequals(entity.epairs.get("classname"), "func_illusionary_visblocker")) {
-        base_contents = contentflags_t::make(base_contents.flags | EWT_INVISCONTENTS_ILLUSIONARY_VISBLOCKER);
+        if (qbsp_options.target_game->id != GAME_QUAKE_II) {
+            // like water, but the interior is saved as CONTENTS_EMPTY, whatever the textures are
+            base_contents = contentflags_t::make(
+                (base_contents.flags & (EWT_CFLAG_MIRROR_INSIDE | EWT_CFLAG_MIRROR_INSIDE_SET | EWT_CFLAG_SUPPRESS_CLIPPING_SAME_TYPE)) |
+                EWT_VISCONTENTS_MIST | EWT_INVISCONTENTS_ILLUSIONARY_VISBLOCKER);
+            if (!base_contents.mirror_inside().has_value()) {
+                base_contents.set_mirrored(true);
+            }
+        } else {
+            base_contents = contentflags_t::make(base_contents.flags | EWT_INVISCONTENTS_ILLUSIONARY_VISBLOCKER);
+        }
     }
 
     // non-Q2: -transwater implies liquids are detail
-- 
2.43.0


From 875d8a28721a1faa78870954ea9b5be51018a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:55 +0000
Subject: [PATCH 85/85] fix: settings: -help stopped at options with long names

---
 common/settings.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/settings.cc b/common/settings.cc
index 7a04f61..f5f2767 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -547,7 +547,8 @@ void setting_container::print_help()
         }
 
         for (auto setting : grouped.second) {
-            size_t numPadding = std::max(static_cast<size_t>(0), 28 - (setting->primary_name().size() + 4));
+            const size_t nameWidth = setting->primary_name().size() + 4;
+            const size_t numPadding = nameWidth < 28 ? 28 - nameWidth : 0;
             fmt::print(
                 "  -{} {:{}}    {}\n", setting->primary_name(), setting->format(), numPadding, setting->description());
 
-- 
2.43.0

