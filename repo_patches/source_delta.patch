From b124deeb45d7312afdef21fdc5bd4834d44dabc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 01/42] fix: reject out-of-range requests whose offset + shape
 wraps around

checkRequestShape compared offset + shape with the dataset shape, so that a
request with a huge offset or shape passed the check (and then ran away).
---
 include/z5/dataset.hxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/z5/dataset.hxx b/include/z5/dataset.hxx
index 5e241b1..97a0017 100644
--- a/include/z5/dataset.hxx
+++ b/include/z5/dataset.hxx
@@ -49,7 +49,8 @@ namespace z5 {
                 throw std::runtime_error("Request has wrong dimension");
             }
             for(int d = 0; d < shape_.size(); ++d) {
-                if(offset[d] + shape[d] > shape_[d]) {
+                // compare without computing offset + shape, which can wrap around
+                if(offset[d] > shape_[d] || shape[d] > shape_[d] - offset[d]) {
                     throw std::runtime_error(
                         "Request is out of range: " + std::to_string(offset[d]) + " + " +
                         std::to_string(shape[d]) + " > " + std::to_string(shape_[d]) +
-- 
2.43.0


From 5ff2be90931c0110ce3a6ad588595db0be481dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 02/42] fix: compute block / request overlaps in 64 bit

The differences between block and request coordinates were stored in int, which
truncates for extents of 2^31 and more (wrong overlaps and overlap flags).
---
 include/z5/util/blocking.hxx | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/z5/util/blocking.hxx b/include/z5/util/blocking.hxx
index 1b244b5..6f5505a 100644
--- a/include/z5/util/blocking.hxx
+++ b/include/z5/util/blocking.hxx
@@ -155,34 +155,29 @@ namespace util {
 
             bool completeOvlp = true;
             std::size_t blockEnd, roiEnd;
-            int offDiff, endDiff;
             for(unsigned d = 0; d < nDim; ++d) {
 
                 // first we calculate the block end coordinate
                 blockEnd = blockBegin[d] + blockShape[d];
                 // next the roi end
                 roiEnd = roiBegin[d] + roiShape[d];
-                // then we calculate the difference between the block begin / end
-                // and the request begin / end
-                offDiff = blockBegin[d] - roiBegin[d];
-                endDiff = roiEnd - blockEnd;
 
-                // if the offset difference is negative, we are at a starting block
+                // if the block begins before the request, we are at a starting block
                 // that is not completely overlapping
                 // -> set all values accordingly
-                if(offDiff < 0) {
+                if(blockBegin[d] < roiBegin[d]) {
                     beginInRoi[d] = 0; // start block -> no local offset
-                    beginInBlock[d] = -offDiff;
+                    beginInBlock[d] = roiBegin[d] - blockBegin[d];
                     completeOvlp = false;
                     // if this block is the beginning block as well as the end block,
                     // we need to adjust the local shape accordingly
                     shapeInRoi[d] = (blockEnd <= roiEnd) ? blockEnd - roiBegin[d] : roiEnd - roiBegin[d];
                 }
 
-                // if the end difference is negative, we are at a last block
+                // if the block ends after the request, we are at a last block
                 // that is not completely overlapping
                 // -> set all values accordingly
-                else if(endDiff < 0) {
+                else if(roiEnd < blockEnd) {
                     beginInRoi[d] = blockBegin[d] - roiBegin[d];
                     beginInBlock[d] = 0;
                     completeOvlp = false;
-- 
2.43.0


From 18f400a8cab56255f86cf6021b1fded76a6639bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 03/42] fix: do not drop chunks of negative zeros as fill value

---
 include/z5/util/format_data.hxx | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 6f9606c..96d65e9 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cmath>
+#include <type_traits>
+
 #include "z5/handle.hxx"
 
 namespace z5 {
@@ -91,6 +94,23 @@ namespace util {
     }
 
 
+    // check if a value can be represented by the fill value without changing it
+    // (-0.0 == 0.0, but the sign would be lost)
+    template<class T>
+    inline bool isFillValue(const T & val, const T & fillValue) {
+        if(!(val == fillValue)) {
+            return false;
+        }
+        if constexpr(std::is_floating_point_v<T>) {
+            return std::signbit(val) == std::signbit(fillValue);
+        } else if constexpr(!std::is_integral_v<T>) {  // complex types
+            return isFillValue(val.real(), fillValue.real()) && isFillValue(val.imag(), fillValue.imag());
+        } else {
+            return true;
+        }
+    }
+
+
     template<class CHUNK, class T, class COMPRESSOR>
     inline bool data_to_buffer(const z5::handle::Chunk<CHUNK> & chunk,
                                const void * dataIn,
@@ -115,7 +135,7 @@ namespace util {
             // we need the temporary reference to capture in the lambda
             const bool isEmpty = std::all_of(static_cast<const T*>(dataIn),
                                              static_cast<const T*>(dataIn) + chunkSize,
-                                             [fillValue](const T val){return val == fillValue;});
+                                             [fillValue](const T val){return isFillValue(val, fillValue);});
             // return false if the chunk is empty
             if(isEmpty) {
                 return false;
-- 
2.43.0


From deba4d739fbd5bbf47876bb27e12f4d6195e802b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:25 +0000
Subject: [PATCH 04/42] fix: write gzip framing for n5 and zarr v3, whose
 metadata cannot declare zlib

---
 include/z5/metadata.hxx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index b572004..f6cd0ce 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -478,6 +478,13 @@ namespace z5 {
         // we need to make a copy of the compression options, because they are const
         auto internalCompressionOptions = compressionOptions;
         types::defaultCompressionOptions(internalCompressor, internalCompressionOptions, createAsZarr);
+        #ifdef WITH_ZLIB
+        // n5 and zarr v3 only know "gzip", so the stream must have gzip framing;
+        // plain zlib streams can only be declared in zarr v2 metadata
+        if(internalCompressor == types::zlib && !(createAsZarr && zarrFormat != 3)) {
+            internalCompressionOptions["useZlib"] = false;
+        }
+        #endif
 
         // sharding is only valid for zarr v3, and the shard shape must be a
         // whole multiple of the (inner) chunk shape along every axis
-- 
2.43.0


From 4ba5203f75727e83f16e8c15c68cf2485f2a4a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:41 +0000
Subject: [PATCH 05/42] fix: do not read missing compression option keys

---
 include/z5/types/types.hxx | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index b22db3b..cbf366b 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -235,29 +235,29 @@ namespace types {
     inline void readZarrCompressionOptionsFromJson(Compressor compressor,
                                                    const nlohmann::json & jOpts,
                                                    CompressionOptions & options) {
-        std::string codec;
+        // the options are optional, use our defaults for the ones that are not given
         switch(compressor) {
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.value("cname", std::string("lz4"));
+                        options["level"] = jOpts.value("clevel", 5);
+                        options["shuffle"] = jOpts.value("shuffle", 1);
                         // load blocksize with default value 0
                         options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
                         break;
             #endif
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
+            case zlib: options["level"] = jOpts.value("level", 5);
                        options["useZlib"] = jOpts["id"].get<std::string>() == "zlib";
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["level"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.value("level", 5); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["acceleration"].get<int>(); break;
+            case lz4: options["level"] = jOpts.value("acceleration", 6); break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.value("level", 3); break;
             #endif
             // raw compression has no parameters
             default: break;
@@ -309,26 +309,26 @@ namespace types {
     inline void readN5CompressionOptionsFromJson(Compressor compressor,
                                                  const nlohmann::json & jOpts,
                                                  CompressionOptions & options) {
-        std::string codec;
+        // the options are optional, use our defaults for the ones that are not given
         switch(compressor) {
             #ifdef WITH_ZLIB
-            case zlib: options["level"] = jOpts["level"].get<int>();
+            case zlib: options["level"] = jOpts.value("level", 5);
                        options["useZlib"] = false;
                        break;
             #endif
             #ifdef WITH_BZIP2
-            case bzip2: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case bzip2: options["level"] = jOpts.value("blockSize", 5); break;
             #endif
             #ifdef WITH_XZ
-            case xz: options["level"] = jOpts["preset"].get<int>(); break;
+            case xz: options["level"] = jOpts.value("preset", 6); break;
             #endif
             #ifdef WITH_LZ4
-            case lz4: options["level"] = jOpts["blockSize"].get<int>(); break;
+            case lz4: options["level"] = jOpts.value("blockSize", 6); break;
             #endif
             #ifdef WITH_BLOSC
-            case blosc: options["codec"] = jOpts["cname"].get<std::string>();
-                        options["level"] = jOpts["clevel"].get<int>();
-                        options["shuffle"] = jOpts["shuffle"].get<int>();
+            case blosc: options["codec"] = jOpts.value("cname", std::string("lz4"));
+                        options["level"] = jOpts.value("clevel", 5);
+                        options["shuffle"] = jOpts.value("shuffle", 1);
                         // load blocksize with default value 0
                         options["blocksize"] = (jOpts.find("blocksize") == jOpts.end()) ? 0 : jOpts["blocksize"].get<int>();
                         // load nthreads with default value 1
@@ -336,7 +336,7 @@ namespace types {
                         break;
             #endif
             #ifdef WITH_ZSTD
-            case zstd: options["level"] = jOpts["level"].get<int>(); break;
+            case zstd: options["level"] = jOpts.value("level", 3); break;
             #endif
             // raw compression has no parameters
             default: break;
-- 
2.43.0


From 2cff0d4c9d6ec7eb08524db9916b2240b1394d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:41 +0000
Subject: [PATCH 06/42] fix: refuse big endian zarr v3 arrays instead of
 misreading them

---
 include/z5/metadata.hxx    | 3 ++-
 include/z5/types/types.hxx | 9 +++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index f6cd0ce..777f402 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -374,7 +374,8 @@ namespace z5 {
                 chunkShape = outerShape;
             }
 
-            types::readV3CodecsFromJson(*innerCodecs, compressor, compressionOptions);
+            types::readV3CodecsFromJson(*innerCodecs, types::datatypeSize(dtype),
+                                        compressor, compressionOptions);
         }
 
     public:
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index cbf366b..bd1c8d6 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -506,17 +506,22 @@ namespace types {
         }
     }
 
-    // parse a zarr v3 codec list into a Compressor + CompressionOptions (ignores the ``bytes`` codec)
+    // parse a zarr v3 codec list into a Compressor + CompressionOptions (only checks the ``bytes`` codec)
     inline void readV3CodecsFromJson(const nlohmann::json & jCodecs,
+                                     std::size_t typesize,
                                      Compressor & compressor,
                                      CompressionOptions & options) {
         compressor = raw;
         for(const auto & c : jCodecs) {
             const std::string name = c.at("name").get<std::string>();
+            const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
             if(name == "bytes") {
+                // the data is always (de)serialized as little endian
+                if(typesize > 1 && cfg.value("endian", std::string("little")) != "little") {
+                    throw std::runtime_error("z5: zarr v3 bytes codec is only supported with little endian");
+                }
                 continue;
             }
-            const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
             if(name == "gzip") {
                 #ifdef WITH_ZLIB
                 compressor = zlib;
-- 
2.43.0


From df38ea8fe329b56dd87d894a28359847164b25b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 07/42] fix: reject zero chunk extents and inconsistent shard
 shapes in metadata

---
 include/z5/metadata.hxx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 777f402..38240ad 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -408,6 +408,21 @@ namespace z5 {
             if(shape.size() != chunkShape.size()) {
                 throw std::runtime_error("Dimension of shape and chunks does not agree");
             }
+            for(const auto extent : chunkShape) {
+                if(extent == 0) {
+                    throw std::runtime_error("Chunk shape has a zero entry");
+                }
+            }
+            if(!shardShape.empty()) {
+                if(shardShape.size() != chunkShape.size()) {
+                    throw std::runtime_error("Dimension of shards and chunks does not agree");
+                }
+                for(std::size_t d = 0; d < shardShape.size(); ++d) {
+                    if(shardShape[d] == 0 || shardShape[d] % chunkShape[d] != 0) {
+                        throw std::runtime_error("Shard shape must be a multiple of the chunk shape");
+                    }
+                }
+            }
         }
 
 
@@ -497,7 +512,7 @@ namespace z5 {
                 throw std::runtime_error("z5::createDatasetMetadata: shard shape and chunk shape dimension mismatch");
             }
             for(std::size_t d = 0; d < shardShape.size(); ++d) {
-                if(shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
+                if(chunkShape[d] == 0 || shardShape[d] < chunkShape[d] || shardShape[d] % chunkShape[d] != 0) {
                     throw std::runtime_error("z5::createDatasetMetadata: shard shape must be a multiple of the chunk shape");
                 }
             }
-- 
2.43.0


From 7359b2fd1be884189c58a47eaf50eef3671b46eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:42 +0000
Subject: [PATCH 08/42] fix: validate settings before creating the dataset

---
 include/z5/filesystem/factory.hxx | 7 ++++++-
 include/z5/s3/factory.hxx         | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/z5/filesystem/factory.hxx b/include/z5/filesystem/factory.hxx
index 2d0c806..e786729 100644
--- a/include/z5/filesystem/factory.hxx
+++ b/include/z5/filesystem/factory.hxx
@@ -59,9 +59,14 @@ namespace factory_detail {
         const handle::Dataset & dataset,
         const DatasetMetadata & metadata
     ) {
+        // serialize the metadata and instantiate the dataset first, so that unsupported
+        // settings are rejected before anything is created
+        nlohmann::json j;
+        metadata.toJson(j);
+        auto ds = factory_detail::makeDataset(dataset, metadata);
         dataset.create();
         writeMetadata(dataset, metadata);
-        return factory_detail::makeDataset(dataset, metadata);
+        return ds;
     }
 
 
diff --git a/include/z5/s3/factory.hxx b/include/z5/s3/factory.hxx
index 8ad541b..f499e94 100644
--- a/include/z5/s3/factory.hxx
+++ b/include/z5/s3/factory.hxx
@@ -86,9 +86,14 @@ namespace factory_detail {
         const handle::Dataset & dataset,
         const DatasetMetadata & metadata
     ) {
+        // serialize the metadata and instantiate the dataset first, so that unsupported
+        // settings are rejected before anything is created
+        nlohmann::json j;
+        metadata.toJson(j);
+        auto ds = factory_detail::makeDatasetTyped(dataset, metadata);
         dataset.create();
         writeMetadata(dataset, metadata);
-        return factory_detail::makeDatasetTyped(dataset, metadata);
+        return ds;
     }
 
 
-- 
2.43.0


From e01e80053c5cb87747eb4b4db3eb9ef72f16f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 09/42] fix: refuse zarr and n5 metadata with missing keys or
 invalid shapes

---
 include/z5/metadata.hxx | 45 ++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 38240ad..3f9ca4a 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <string>
@@ -144,14 +145,14 @@ namespace z5 {
         void fromJsonZarr(const nlohmann::json & j) {
             checkJson(j);
             try {
-                dtype = types::Datatypes::zarrToDtype().at(j["dtype"]);
+                dtype = types::Datatypes::zarrToDtype().at(j.at("dtype"));
             } catch(std::out_of_range) {
                 throw std::runtime_error("Unsupported zarr dtype: " + static_cast<std::string>(j["dtype"]));
             }
-            shape = types::ShapeType(j["shape"].begin(), j["shape"].end());
-            chunkShape = types::ShapeType(j["chunks"].begin(), j["chunks"].end());
+            shape = shapeFromJson(j.at("shape"));
+            chunkShape = shapeFromJson(j.at("chunks"));
 
-            const auto & fillValJson = j["fill_value"];
+            const auto & fillValJson = j.at("fill_value");
             if(fillValJson.type() == nlohmann::json::value_t::string) {
                 if (fillValJson == "NaN") {
                     fillValue = std::numeric_limits<double>::quiet_NaN();
@@ -175,9 +176,9 @@ namespace z5 {
                 zarrDelimiter = ".";
             }
 
-            const auto & compressionOpts = j["compressor"];
+            const auto & compressionOpts = j.at("compressor");
 
-            std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts["id"];
+            const std::string zarrCompressorId = compressionOpts.is_null() ? "raw" : compressionOpts.at("id").get<std::string>();
             try {
                 compressor = types::Compressors::zarrToCompressor().at(zarrCompressorId);
             } catch(std::out_of_range) {
@@ -190,13 +191,15 @@ namespace z5 {
 
         void fromJsonN5(const nlohmann::json & j) {
 
-            dtype = types::Datatypes::n5ToDtype().at(j["dataType"]);
+            dtype = types::Datatypes::n5ToDtype().at(j.at("dataType"));
 
             // N5-Axis order: we need to reverse the shape when reading from metadata
-            shape = types::ShapeType(j["dimensions"].rbegin(), j["dimensions"].rend());
+            shape = shapeFromJson(j.at("dimensions"));
+            std::reverse(shape.begin(), shape.end());
 
             // N5-Axis order: we need to reverse the chunk shape when reading from metadata
-            chunkShape = types::ShapeType(j["blockSize"].rbegin(), j["blockSize"].rend());
+            chunkShape = shapeFromJson(j.at("blockSize"));
+            std::reverse(chunkShape.begin(), chunkShape.end());
 
             // we need to deal with two different encodings for compression in n5:
             // in the old format, we only have the field 'compressionType', indicating which compressor should be used
@@ -321,11 +324,10 @@ namespace z5 {
             } catch(std::out_of_range) {
                 throw std::runtime_error("Unsupported zarr v3 data_type: " + j.at("data_type").get<std::string>());
             }
-            shape = types::ShapeType(j.at("shape").begin(), j.at("shape").end());
+            shape = shapeFromJson(j.at("shape"));
 
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
-            const auto & gridShape = j.at("chunk_grid").at("configuration").at("chunk_shape");
-            types::ShapeType outerShape(gridShape.begin(), gridShape.end());
+            const auto outerShape = shapeFromJson(j.at("chunk_grid").at("configuration").at("chunk_shape"));
 
             // chunk key encoding
             const auto & cke = j.at("chunk_key_encoding");
@@ -363,8 +365,7 @@ namespace z5 {
                 if(c.at("name") == "sharding_indexed") {
                     sharded = true;
                     const auto & scfg = c.at("configuration");
-                    const auto & innerShapeJson = scfg.at("chunk_shape");
-                    chunkShape = types::ShapeType(innerShapeJson.begin(), innerShapeJson.end());
+                    chunkShape = shapeFromJson(scfg.at("chunk_shape"));
                     shardShape = outerShape;
                     innerCodecs = &scfg.at("codecs");
                     break;
@@ -403,6 +404,22 @@ namespace z5 {
 
     private:
 
+        // read a shape, which must be an array of non-negative integers
+        static types::ShapeType shapeFromJson(const nlohmann::json & j) {
+            if(!j.is_array()) {
+                throw std::runtime_error("Invalid shape in metadata: " + j.dump());
+            }
+            types::ShapeType out;
+            for(const auto & extent : j) {
+                if(!extent.is_number_integer() || (!extent.is_number_unsigned() && extent.get<int64_t>() < 0)) {
+                    throw std::runtime_error("Invalid shape in metadata: " + j.dump());
+                }
+                out.push_back(extent.get<std::size_t>());
+            }
+            return out;
+        }
+
+
         // make sure that shapes agree
         void checkShapes() {
             if(shape.size() != chunkShape.size()) {
-- 
2.43.0


From 3e5b12b172bc60f43c7ec76995bb6be2f893b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 10/42] fix: refuse zarr v3 grids, codecs and shard layouts
 that are not supported

---
 include/z5/metadata.hxx    | 28 ++++++++++++++++++++++++++++
 include/z5/types/types.hxx |  9 +++++++++
 2 files changed, 37 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 3f9ca4a..3ed23a7 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -326,6 +326,14 @@ namespace z5 {
             }
             shape = shapeFromJson(j.at("shape"));
 
+            // anything that changes the layout and that we don't support must be refused
+            if(j.at("chunk_grid").at("name") != "regular") {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: only regular chunk grids are supported");
+            }
+            if(j.contains("storage_transformers") && !j.at("storage_transformers").empty()) {
+                throw std::runtime_error("z5.DatasetMetadata.fromJsonV3: storage transformers are not supported");
+            }
+
             // outer chunk grid (== shard shape when sharded, else inner chunk shape)
             const auto outerShape = shapeFromJson(j.at("chunk_grid").at("configuration").at("chunk_shape"));
 
@@ -368,6 +376,7 @@ namespace z5 {
                     chunkShape = shapeFromJson(scfg.at("chunk_shape"));
                     shardShape = outerShape;
                     innerCodecs = &scfg.at("codecs");
+                    checkShardCodec(codecs, scfg);
                     break;
                 }
             }
@@ -420,6 +429,25 @@ namespace z5 {
         }
 
 
+        // make sure that the shards are laid out in the only way that we support:
+        // a single sharding codec, with a crc32c-checked little endian index at the end
+        static void checkShardCodec(const nlohmann::json & codecs, const nlohmann::json & config) {
+            if(codecs.size() != 1) {
+                throw std::runtime_error("z5: zarr v3 sharding can't be combined with other codecs");
+            }
+            if(config.value("index_location", std::string("end")) != "end") {
+                throw std::runtime_error("z5: zarr v3 shard index is only supported at the end");
+            }
+            const auto & indexCodecs = config.at("index_codecs");
+            if(!indexCodecs.is_array() || indexCodecs.size() != 2 ||
+               indexCodecs[0].at("name") != "bytes" ||
+               indexCodecs[0].at("configuration").at("endian") != "little" ||
+               indexCodecs[1].at("name") != "crc32c") {
+                throw std::runtime_error("z5: unsupported zarr v3 shard index codecs");
+            }
+        }
+
+
         // make sure that shapes agree
         void checkShapes() {
             if(shape.size() != chunkShape.size()) {
diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index bd1c8d6..53478d1 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -512,8 +512,17 @@ namespace types {
                                      Compressor & compressor,
                                      CompressionOptions & options) {
         compressor = raw;
+        // we support the bytes codec followed by at most one compressor
+        if(!jCodecs.is_array() || jCodecs.empty() || jCodecs.size() > 2 || jCodecs[0].at("name") != "bytes") {
+            throw std::runtime_error("z5: unsupported zarr v3 codecs: " + jCodecs.dump());
+        }
+        bool first = true;
         for(const auto & c : jCodecs) {
             const std::string name = c.at("name").get<std::string>();
+            if(!first && name == "bytes") {
+                throw std::runtime_error("z5: unsupported zarr v3 codecs: " + jCodecs.dump());
+            }
+            first = false;
             const nlohmann::json cfg = c.contains("configuration") ? c.at("configuration") : nlohmann::json::object();
             if(name == "bytes") {
                 // the data is always (de)serialized as little endian
-- 
2.43.0


From a4a257464e4518ba5b490b8ead1a0537bc7c757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:39 +0000
Subject: [PATCH 11/42] fix: refuse invalid dimension separators and chunk key
 encodings

---
 include/z5/metadata.hxx | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 3ed23a7..f5bbead 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -59,6 +59,7 @@ namespace z5 {
                 shardShape(shardShape)
         {
             checkShapes();
+            checkChunkKeys();
         }
 
 
@@ -96,6 +97,7 @@ namespace z5 {
                 fromJsonN5(j);
             }
             checkShapes();
+            checkChunkKeys();
         }
 
     private:
@@ -471,6 +473,21 @@ namespace z5 {
         }
 
 
+        // make sure that the chunk keys are valid; other separators are not
+        // part of the zarr specification and can map different chunks to the same key
+        void checkChunkKeys() {
+            if(!isZarr) {
+                return;
+            }
+            if(zarrDelimiter != "." && zarrDelimiter != "/") {
+                throw std::runtime_error("Invalid dimension separator: " + zarrDelimiter);
+            }
+            if(zarrFormat == 3 && chunkKeyEncoding != "default" && chunkKeyEncoding != "v2") {
+                throw std::runtime_error("Invalid chunk key encoding: " + chunkKeyEncoding);
+            }
+        }
+
+
         // make sure that fixed metadata values agree
         void checkJson(const nlohmann::json & j) {
 
-- 
2.43.0


From f5d24b22d10c3447731a04fa192adde98f46724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:19 +0000
Subject: [PATCH 12/42] fix: refuse non-zero fill values for n5, which cannot
 store them

---
 include/z5/metadata.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index f5bbead..80bf545 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -127,6 +127,11 @@ namespace z5 {
 
         void toJsonN5(nlohmann::json & j) const {
 
+            // n5 has no fill value, so it would be lost when the dataset is opened again
+            if(fillValue != 0) {
+                throw std::runtime_error("z5.DatasetMetadata.toJsonN5: n5 only supports fill value 0");
+            }
+
             // N5-Axis order: we need to reverse the shape when writing to metadata
             types::ShapeType rshape(shape.rbegin(), shape.rend());
             j["dimensions"] = rshape;
-- 
2.43.0


From 76d3eb95a8885fdf7da075f843783097d3dc6346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:19 +0000
Subject: [PATCH 13/42] fix: refuse unknown zarr format versions on creation

---
 include/z5/metadata.hxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 80bf545..94d25cc 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -484,6 +484,9 @@ namespace z5 {
             if(!isZarr) {
                 return;
             }
+            if(zarrFormat != 2 && zarrFormat != 3) {
+                throw std::runtime_error("Invalid Zarr format: " + std::to_string(zarrFormat));
+            }
             if(zarrDelimiter != "." && zarrDelimiter != "/") {
                 throw std::runtime_error("Invalid dimension separator: " + zarrDelimiter);
             }
-- 
2.43.0


From 775b179984ba0c69bdebd12e73ac43e633546cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:34 +0000
Subject: [PATCH 14/42] fix: parallel_foreach over forward iterators did not
 compile

---
 include/z5/util/threadpool.hxx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index 4aedd4f..eb9e72a 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -389,10 +389,7 @@ inline void parallel_foreach_impl(
     F && f,
     std::forward_iterator_tag
 ){
-    if (nItems == 0)
-        nItems = std::distance(iter, end);
-
-    std::ptrdiff_t workload = nItems;
+    std::ptrdiff_t workload = nItems == 0 ? std::distance(iter, end) : nItems;
     const float workPerThread = float(workload)/pool.nThreads();
     const std::ptrdiff_t chunkedWorkPerThread = (std::max<std::ptrdiff_t>)(int(workPerThread/3.0f+0.5f), 1);
 
-- 
2.43.0


From 37115a113e59fe217d35661e53244ac9fd3e1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:34 +0000
Subject: [PATCH 15/42] fix: wake every thread that waits for the thread pool
 to finish

---
 include/z5/util/threadpool.hxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/z5/util/threadpool.hxx b/include/z5/util/threadpool.hxx
index eb9e72a..be3db5c 100644
--- a/include/z5/util/threadpool.hxx
+++ b/include/z5/util/threadpool.hxx
@@ -245,7 +245,7 @@ inline void ThreadPool::init(const ParallelOptions & options)
                         ++processed;
                         --busy;
                         lock.unlock();
-                        finish_condition.notify_one();
+                        finish_condition.notify_all();
                     }
                 }
             }
-- 
2.43.0


From 66993b2ae03bb6601b578297df6468acaa519ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:45 +0000
Subject: [PATCH 16/42] fix: write chunk and shard files completely or not at
 all

Chunk and shard files were truncated and rewritten in place: an interrupted or failed
write of one chunk of a shard destroyed the others, concurrent writes of one chunk mixed
their bytes, readers could see partial files, and errors on closing went unnoticed.
---
 include/z5/filesystem/file_io.hxx | 64 +++++++++++++++++++++++++++++++
 include/z5/filesystem/store.hxx   | 11 +-----
 2 files changed, 66 insertions(+), 9 deletions(-)
 create mode 100644 include/z5/filesystem/file_io.hxx

diff --git a/include/z5/filesystem/file_io.hxx b/include/z5/filesystem/file_io.hxx
new file mode 100644
index 0000000..8a53238
--- /dev/null
+++ b/include/z5/filesystem/file_io.hxx
@@ -0,0 +1,64 @@
+#pragma once
+
+#include <atomic>
+#include <fstream>
+#include <ios>
+#include <stdexcept>
+#include <string>
+
+#ifdef _WIN32
+#include <process.h>
+#else
+#include <unistd.h>
+#endif
+
+#include "z5/common.hxx"
+
+
+namespace z5 {
+namespace filesystem {
+namespace io_detail {
+
+    // path of a temporary file next to 'path', not used by any other thread or process
+    inline fs::path temporaryPath(const fs::path & path) {
+        static std::atomic<std::size_t> counter{0};
+        #ifdef _WIN32
+        const auto pid = _getpid();
+        #else
+        const auto pid = getpid();
+        #endif
+        fs::path tmp(path);
+        tmp += "." + std::to_string(pid) + "-" + std::to_string(counter++) + ".partial";
+        return tmp;
+    }
+
+    // Write the complete file or throw: the data is written to a temporary file, which
+    // replaces the file at 'path' only after everything was written. Hence neither an error
+    // nor an interruption leave a truncated file behind, and concurrent readers and writers
+    // of the file see one of the complete contents.
+    // 'what' names the object kind ("chunk" / "shard" / ...) in error messages
+    inline void writeFile(const fs::path & path, const char * data, const std::size_t size,
+                          const char * what) {
+        const fs::path tmp = temporaryPath(path);
+        std::ofstream file(tmp, std::ios::binary);
+        if(!file.is_open()) {
+            throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
+        }
+        file.write(data, size);
+        // closing flushes the stream, which can still fail
+        file.close();
+        std::error_code err;
+        if(file.good()) {
+            fs::rename(tmp, path, err);
+            if(!err) {
+                return;
+            }
+        }
+        std::error_code ignored;
+        fs::remove(tmp, ignored);
+        throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
+    }
+
+}  // namespace io_detail
+}
+}
diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 02de523..13a683b 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -3,6 +3,7 @@
 #include <fstream>
 #include <ios>
 
+#include "z5/filesystem/file_io.hxx"
 #include "z5/filesystem/handle.hxx"
 #include "z5/generic/store.hxx"
 #include "z5/util/util.hxx"
@@ -37,15 +38,7 @@ namespace store_detail {
     }
 
     inline void writeFile(const fs::path & path, const std::vector<char> & buffer, const char * what) {
-        std::ofstream file(path, std::ios::binary);
-        if(!file.is_open()) {
-            throw std::runtime_error(std::string("z5: cannot open ") + what + " file for writing: " + path.string());
-        }
-        file.write(buffer.data(), buffer.size());
-        if(!file.good()) {
-            throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
-        }
-        file.close();
+        io_detail::writeFile(path, buffer.data(), buffer.size(), what);
     }
 
 }  // namespace store_detail
-- 
2.43.0


From 40c6b3f37bf55996c1788a46553f65f308165344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:34 +0000
Subject: [PATCH 17/42] fix: write metadata and attribute documents completely
 or not at all

The documents were truncated before they were serialized and no error was checked: a value
that cannot be serialized, a full disk or an interruption lost all attributes, or all
metadata of an array, and a document that could not be opened was only seen as invalid JSON.
---
 include/z5/filesystem/attributes.hxx | 16 ++++------------
 include/z5/filesystem/file_io.hxx    | 15 +++++++++++++++
 include/z5/filesystem/metadata.hxx   |  8 ++------
 3 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index 3a31197..a504750 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -1,8 +1,6 @@
 #pragma once
 
-#include <fstream>
-#include <iomanip>
-
+#include "z5/filesystem/file_io.hxx"
 #include "z5/filesystem/handle.hxx"
 #include "z5/generic/attributes.hxx"
 
@@ -35,24 +33,18 @@ namespace attrs_detail {
             if(!fs::exists(path)) {
                 return false;
             }
-            std::ifstream file(path);
-            file >> j;
-            file.close();
+            io_detail::readJson(path, j);
             return true;
         }
 
         // compact serialization (zarr v2 '.zattrs', n5 'attributes.json')
         inline void write(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
-            file << j;
-            file.close();
+            io_detail::writeText(base_ / name, j.dump());
         }
 
         // pretty serialization (zarr.json and metadata files)
         inline void writePretty(const std::string & name, const nlohmann::json & j) const {
-            std::ofstream file(base_ / name);
-            file << std::setw(4) << j << std::endl;
-            file.close();
+            io_detail::writeText(base_ / name, j.dump(4) + "\n");
         }
 
     private:
diff --git a/include/z5/filesystem/file_io.hxx b/include/z5/filesystem/file_io.hxx
index 8a53238..ff48938 100644
--- a/include/z5/filesystem/file_io.hxx
+++ b/include/z5/filesystem/file_io.hxx
@@ -12,6 +12,8 @@
 #include <unistd.h>
 #endif
 
+#include "nlohmann/json.hpp"
+
 #include "z5/common.hxx"
 
 
@@ -59,6 +61,19 @@ namespace io_detail {
         throw std::runtime_error(std::string("z5: failed to write ") + what + " file: " + path.string());
     }
 
+    inline void writeText(const fs::path & path, const std::string & text) {
+        writeFile(path, text.data(), text.size(), "metadata");
+    }
+
+    // read the JSON document at 'path'; throws if it cannot be read or parsed
+    inline void readJson(const fs::path & path, nlohmann::json & j) {
+        std::ifstream file(path);
+        if(!file.is_open()) {
+            throw std::runtime_error("z5: cannot open metadata file for reading: " + path.string());
+        }
+        file >> j;
+    }
+
 }  // namespace io_detail
 }
 }
diff --git a/include/z5/filesystem/metadata.hxx b/include/z5/filesystem/metadata.hxx
index dcab787..c51f530 100644
--- a/include/z5/filesystem/metadata.hxx
+++ b/include/z5/filesystem/metadata.hxx
@@ -10,15 +10,11 @@ namespace filesystem {
 namespace metadata_detail {
 
     inline void writeMetadata(const fs::path & path, const nlohmann::json & j) {
-        std::ofstream file(path);
-        file << std::setw(4) << j << std::endl;
-        file.close();
+        io_detail::writeText(path, j.dump(4) + "\n");
     }
 
     inline void readMetadata(const fs::path & path, nlohmann::json & j) {
-        std::ifstream file(path);
-        file >> j;
-        file.close();
+        io_detail::readJson(path, j);
     }
 
     inline bool getMetadataPath(const handle::Dataset & handle, fs::path & path) {
-- 
2.43.0


From f11653392b2d88634e0aa3f28545faa876b55dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:24 +0000
Subject: [PATCH 18/42] fix: check the headers of n5 chunks

The number of dimensions, the mode and the shape in the header were trusted, although they
decide how many elements are written to the caller's buffer: a varlen chunk, an edge chunk
stored with the full chunk shape or a corrupt header overflowed it. Header queries used
uninitialized values for truncated files.
---
 include/z5/filesystem/store.hxx        | 77 +++++++++++---------------
 include/z5/multiarray/array_access.hxx |  9 ++-
 include/z5/util/format_data.hxx        | 54 +++++++++++++++---
 3 files changed, 84 insertions(+), 56 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 13a683b..773b59d 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -6,6 +6,7 @@
 #include "z5/filesystem/file_io.hxx"
 #include "z5/filesystem/handle.hxx"
 #include "z5/generic/store.hxx"
+#include "z5/util/format_data.hxx"
 #include "z5/util/util.hxx"
 
 
@@ -89,61 +90,45 @@ namespace store_detail {
         // read the varlen mode / size from an n5 chunk header; false if the chunk is not varlen
         static inline bool readVarlenFromHeader(const ChunkHandleType & chunk,
                                                 std::size_t & chunkSize) {
-            std::ifstream file(chunk.path(), std::ios::binary);
-
-            // read the mode
-            uint16_t mode;
-            file.read((char *) &mode, 2);
-            util::reverseEndiannessInplace(mode);
-
-            if(mode == 0) {
-                return false;
+            types::ShapeType chunkShape;
+            std::size_t size;
+            const bool isVarlen = readN5Header(chunk, chunkShape, size);
+            if(isVarlen) {
+                chunkSize = size;
             }
-
-            // read the number of dimensions
-            uint16_t ndim;
-            file.read((char *) &ndim, 2);
-            util::reverseEndiannessInplace(ndim);
-
-            // advance the file by ndim * 4 to skip the shape
-            file.seekg((ndim + 1) * 4);
-
-            uint32_t varlength;
-            file.read((char*) &varlength, 4);
-            util::reverseEndiannessInplace(varlength);
-            chunkSize = varlength;
-
-            file.close();
-            return true;
+            return isVarlen;
         }
 
         // read the chunk shape from an n5 chunk header
         static inline void readShapeFromHeader(const ChunkHandleType & chunk,
                                                types::ShapeType & chunkShape) {
-            std::ifstream file(chunk.path(), std::ios::binary);
-
-            // advance the file by 2 to skip the mode
-            file.seekg(2);
+            std::size_t size;
+            readN5Header(chunk, chunkShape, size);
+        }
 
-            // read the number of dimensions
-            uint16_t ndim;
-            file.read((char *) &ndim, 2);
-            util::reverseEndiannessInplace(ndim);
+    private:
 
-            // read temporary shape with uint32 entries
-            std::vector<uint32_t> shapeTmp(ndim);
-            for(int d = 0; d < ndim; ++d) {
-                file.read((char *) &shapeTmp[d], 4);
+        // read and check the header of an n5 chunk; returns true for varlen chunks
+        static inline bool readN5Header(const ChunkHandleType & chunk,
+                                        types::ShapeType & chunkShape, std::size_t & size) {
+            std::ifstream file(chunk.path(), std::ios::binary);
+            if(!file.is_open()) {
+                throw std::runtime_error("z5: cannot open chunk file for reading: " + chunk.path().string());
             }
-            util::reverseEndiannessInplace<uint32_t>(shapeTmp.begin(), shapeTmp.end());
-
-            // N5-Axis order: we need to reverse the chunk shape read from the header
-            std::reverse(shapeTmp.begin(), shapeTmp.end());
-
-            chunkShape.resize(ndim);
-            std::copy(shapeTmp.begin(), shapeTmp.end(), chunkShape.begin());
-
-            file.close();
+            // mode, number of dimensions, shape and, for varlen chunks, the size
+            const std::size_t ndim = chunk.defaultShape().size();
+            std::vector<char> buffer((ndim + 2) * 4);
+            file.read(buffer.data(), buffer.size());
+            buffer.resize(file.gcount());
+            if(file.bad()) {
+                throw std::runtime_error("z5: failed to read chunk file: " + chunk.path().string());
+            }
+            std::size_t headerLength;
+            const bool isVarlen = util::read_n5_header(buffer, chunkShape, size, headerLength);
+            if(chunkShape.size() != ndim) {
+                throw std::runtime_error("z5: invalid n5 chunk: the number of dimensions does not match");
+            }
+            return isVarlen;
         }
 
     };
diff --git a/include/z5/multiarray/array_access.hxx b/include/z5/multiarray/array_access.hxx
index 70f426c..5983bfa 100644
--- a/include/z5/multiarray/array_access.hxx
+++ b/include/z5/multiarray/array_access.hxx
@@ -121,9 +121,11 @@ namespace multiarray {
             std::size_t chunkStoreSize = maxChunkSize;
             std::size_t headerLength = 0;
             if(!isZarr) {
-                if(util::read_n5_header(dataBuffer, chunkStoreSize, headerLength)) {
+                types::ShapeType storedShape;
+                if(util::read_n5_header(dataBuffer, storedShape, chunkStoreSize, headerLength)) {
                     throw std::runtime_error("Can't read from varlen chunks to multiarray");
                 }
+                util::check_n5_shape(storedShape, chunkShape, maxChunkShape);
             }
 
             // edge chunk stored at full size (zarr) -> use the default chunk shape; the
@@ -277,10 +279,13 @@ namespace multiarray {
                                            if(!ds.chunkExists(chunkId)) {
                                                return false;
                                            }
-                                           if(ds.readChunk(chunkId, &buf[0])) {
+                                           // check before reading: the buffer only fits the chunk
+                                           std::size_t varlenSize;
+                                           if(ds.checkVarlenChunk(chunkId, varlenSize)) {
                                                throw std::runtime_error(
                                                    "Can't write to varlen chunks from multiarray");
                                            }
+                                           ds.readChunk(chunkId, &buf[0]);
                                            return true;
                                        });
             ds.writeChunk(chunkId, &buffer[0]);
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index 96d65e9..c040b87 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -4,6 +4,7 @@
 #include <type_traits>
 
 #include "z5/handle.hxx"
+#include "z5/multiarray/array_util.hxx"
 
 namespace z5 {
 namespace util {
@@ -183,11 +184,12 @@ namespace util {
     }
 
     // Parse the n5 chunk header at the start of `buffer`. Returns true for varlen
-    // chunks, sets `data_size` to the number of elements in the payload and
-    // `header_length` to the header's byte length -- the payload starts at
-    // buffer.data() + header_length (the header is NOT removed from the buffer,
-    // which would memmove the whole compressed payload).
+    // chunks, sets `data_shape` to the shape in the header, `data_size` to the number
+    // of elements in the payload and `header_length` to the header's byte length -- the
+    // payload starts at buffer.data() + header_length (the header is NOT removed from the
+    // buffer, which would memmove the whole compressed payload).
     inline bool read_n5_header(const std::vector<char> & buffer,
+                               types::ShapeType & data_shape,
                                std::size_t & data_size,
                                std::size_t & header_length) {
         // every read below is validated against the buffer size first: a truncated
@@ -206,6 +208,9 @@ namespace util {
         memcpy(&ndim, &buffer[2], 2);
         util::reverseEndiannessInplace(ndim);
 
+        if(mode > 1) {
+            throw std::runtime_error("z5: n5 chunk mode is not supported");
+        }
         const bool is_varlen = mode == 1;
         const std::size_t fullHeaderLen = (ndim + 1) * 4 + (is_varlen ? 4 : 0);
         if(buffer.size() < fullHeaderLen) {
@@ -221,6 +226,7 @@ namespace util {
 
         // // N5-Axis order: we need to reverse the chunk shape read from the header
         std::reverse(shape.begin(), shape.end());
+        data_shape.assign(shape.begin(), shape.end());
 
         std::size_t headerlen = (ndim + 1) * 4;
 
@@ -240,6 +246,24 @@ namespace util {
         return is_varlen;
     }
 
+    inline bool read_n5_header(const std::vector<char> & buffer,
+                               std::size_t & data_size,
+                               std::size_t & header_length) {
+        types::ShapeType data_shape;
+        return read_n5_header(buffer, data_shape, data_size, header_length);
+    }
+
+    // The shape of a (not varlen) n5 chunk in its header decides how many elements are
+    // decoded, so it must be one of the valid shapes: that of the chunk in the grid, which is
+    // clipped at the boundary, or the full chunk shape, which other writers use there as well.
+    inline void check_n5_shape(const types::ShapeType & storedShape,
+                               const types::ShapeType & chunkShape,
+                               const types::ShapeType & defaultShape) {
+        if(storedShape != chunkShape && storedShape != defaultShape) {
+            throw std::runtime_error("z5: invalid n5 chunk: the shape in the header does not match");
+        }
+    }
+
 
     template<class T, class CHUNK, class COMPRESSOR>
     inline bool buffer_to_data(const z5::handle::Chunk<CHUNK> & chunk,
@@ -251,19 +275,33 @@ namespace util {
         std::size_t chunk_size = chunk.defaultSize();
         std::size_t header_length = 0;
         bool is_varlen = false;
+        // n5 edge chunk that is stored with the full chunk shape
+        bool is_padded = false;
 
         if(!is_zarr) {
-            is_varlen = read_n5_header(buffer, chunk_size, header_length);
+            types::ShapeType stored_shape;
+            is_varlen = read_n5_header(buffer, stored_shape, chunk_size, header_length);
+            if(!is_varlen) {
+                check_n5_shape(stored_shape, chunk.shape(), chunk.defaultShape());
+                is_padded = stored_shape != chunk.shape();
+            }
         }
+        // the output only holds the part of the chunk that is inside of the dataset
+        std::vector<T> padded(is_padded ? chunk_size : 0);
+        T * decoded = is_padded ? padded.data() : static_cast<T*>(dataOut);
 
         // decode straight past the header (no copy / memmove of the payload)
         decompress<T>(buffer.data() + header_length, buffer.size() - header_length,
-                      dataOut, chunk_size, compressor);
+                      decoded, chunk_size, compressor);
 
         // reverse the endianness for N5 data (unless datatype is byte)
         if(!is_zarr && sizeof(T) > 1) {
-            util::reverseEndiannessInplace<T>(static_cast<T*>(dataOut),
-                                              static_cast<T*>(dataOut) + chunk_size);
+            util::reverseEndiannessInplace<T>(decoded, decoded + chunk_size);
+        }
+        if(is_padded) {
+            const types::ShapeType strides = multiarray::cOrderStrides(chunk.defaultShape());
+            multiarray::copyView(multiarray::ConstArrayView<T>(padded.data(), chunk.shape(), strides),
+                                 multiarray::makeView(static_cast<T*>(dataOut), chunk.shape()));
         }
         return is_varlen;
     }
-- 
2.43.0


From 09acd7bd208b6bf907b829072a587bfb6faa3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 19/42] fix: report chunks that do not decode to the complete
 chunk

Truncated raw chunks and compressed data that decodes to fewer elements (e.g. a lz4 block
cut at a sequence boundary) left the rest of the output buffer unchanged, which returned
uninitialized memory or values of other chunks as data.
---
 include/z5/compression/bzip2_compressor.hxx |  3 +++
 include/z5/compression/lz4_compressor.hxx   |  3 +++
 include/z5/compression/xz_compressor.hxx    |  3 +++
 include/z5/compression/zlib_compressor.hxx  | 13 ++++++++++---
 include/z5/compression/zstd_compressor.hxx  |  3 +++
 include/z5/util/format_data.hxx             |  8 ++++----
 6 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index d80203c..9d4738a 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -95,6 +95,9 @@ namespace compression {
                 std::string err = "Exception during bzip decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
             }
+            if(bzs.avail_out != 0) {
+                throw std::runtime_error("z5: bzip2 data does not have the expected chunk size");
+            }
 
 		}
 
diff --git a/include/z5/compression/lz4_compressor.hxx b/include/z5/compression/lz4_compressor.hxx
index 1cefe94..85eb33c 100644
--- a/include/z5/compression/lz4_compressor.hxx
+++ b/include/z5/compression/lz4_compressor.hxx
@@ -51,6 +51,9 @@ namespace compression {
             if(compressed <= 0) {
                 std::string err = "Exception during lz4 decompression: (" + std::to_string(compressed)  + ")";
     		    throw std::runtime_error(err);
+            }
+            if(static_cast<std::size_t>(compressed) != sizeOut * sizeof(T)) {
+                throw std::runtime_error("z5: lz4 data does not have the expected chunk size");
             }
 		}
 
diff --git a/include/z5/compression/xz_compressor.hxx b/include/z5/compression/xz_compressor.hxx
index 4ecb92c..05bed0d 100644
--- a/include/z5/compression/xz_compressor.hxx
+++ b/include/z5/compression/xz_compressor.hxx
@@ -127,6 +127,9 @@ namespace compression {
             if(ret != LZMA_STREAM_END) {
                 std::string err = "Exception during xz decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
+            }
+            if(lzs.total_out != sizeOut * sizeof(T)) {
+                throw std::runtime_error("z5: xz data does not have the expected chunk size");
             }
 		}
 
diff --git a/include/z5/compression/zlib_compressor.hxx b/include/z5/compression/zlib_compressor.hxx
index 74579f0..1d9214e 100644
--- a/include/z5/compression/zlib_compressor.hxx
+++ b/include/z5/compression/zlib_compressor.hxx
@@ -99,9 +99,7 @@ namespace compression {
             }
 
             // Pick the wrapper from the metadata flag (zlib for zarr-v2 "zlib", gzip
-            // for n5 / zarr-v2 "gzip" / zarr-v3). Pass a non-null actual-size pointer so
-            // that, like the previous zlib code, a stream decoding to fewer than the
-            // expected bytes still succeeds (only an overflow is an error).
+            // for n5 / zarr-v2 "gzip" / zarr-v3).
             std::size_t actualOut = 0;
             libdeflate_result res = useZlibEncoding_ ?
                 libdeflate_zlib_decompress(decompressor, dataIn, nBytesIn, dataOut, sizeOutBytes, &actualOut) :
@@ -121,6 +119,7 @@ namespace compression {
             if(res != LIBDEFLATE_SUCCESS) {
                 throw std::runtime_error("z5: libdeflate decompression failed (" + std::to_string((int) res) + ")");
             }
+            checkSize(actualOut, sizeOutBytes);
         }
 
 #else // WITH_LIBDEFLATE -- stock zlib backend
@@ -209,6 +208,7 @@ namespace compression {
                 std::string err = "Exception during zlib decompression: (" + std::to_string(ret)  + ")";
     		    throw std::runtime_error(err);
     		}
+            checkSize(zs.total_out, sizeOut * sizeof(T));
 		}
 
 #endif // WITH_LIBDEFLATE
@@ -225,6 +225,13 @@ namespace compression {
         }
 
     private:
+        // a stream that decodes to fewer bytes would leave a part of the output unchanged
+        static void checkSize(const std::size_t size, const std::size_t expected) {
+            if(size != expected) {
+                throw std::runtime_error("z5: zlib data does not have the expected chunk size");
+            }
+        }
+
         void init(const DatasetMetadata & metadata) {
             level_ = std::get<int>(metadata.compressionOptions.at("level"));
             useZlibEncoding_ = std::get<bool>(metadata.compressionOptions.at("useZlib"));
diff --git a/include/z5/compression/zstd_compressor.hxx b/include/z5/compression/zstd_compressor.hxx
index a1238cf..5b7003d 100644
--- a/include/z5/compression/zstd_compressor.hxx
+++ b/include/z5/compression/zstd_compressor.hxx
@@ -49,6 +49,9 @@ namespace compression {
                 std::string err = "Exception during zstd decompression: " +
                                  std::string(ZSTD_getErrorName(decompressed));
                 throw std::runtime_error(err);
+            }
+            if(decompressed != sizeOut * sizeof(T)) {
+                throw std::runtime_error("z5: zstd data does not have the expected chunk size");
             }
 		}
 
diff --git a/include/z5/util/format_data.hxx b/include/z5/util/format_data.hxx
index c040b87..30ab9fc 100644
--- a/include/z5/util/format_data.hxx
+++ b/include/z5/util/format_data.hxx
@@ -164,10 +164,10 @@ namespace util {
                            const std::size_t data_size, const COMPRESSOR & compressor) {
         // we don't need to decompress for raw compression
         if(compressor->type() == 0) {
-            // bound the copy by the output capacity: a corrupt chunk (or corrupt shard
-            // slot length) must not overflow the caller's buffer
-            if(nBytes > data_size * sizeof(T)) {
-                throw std::runtime_error("z5: raw chunk is larger than the expected chunk size");
+            // the chunk must fill the output exactly: a corrupt chunk (or corrupt shard slot
+            // length) must not overflow the caller's buffer nor leave parts of it unchanged
+            if(nBytes != data_size * sizeof(T)) {
+                throw std::runtime_error("z5: raw chunk does not have the expected chunk size");
             }
             // mem-copy the binary data that was read to typed out data
             memcpy((T*) dataOut, buffer, nBytes);
-- 
2.43.0


From ad67f53999459c27ad4e74c489e49f61e3a356ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:41 +0000
Subject: [PATCH 20/42] fix: validate blosc data against its actual size

blosc takes the compressed size from the header of the data: truncated or corrupt chunks
were read out of bounds.
---
 include/z5/compression/blosc_compressor.hxx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/z5/compression/blosc_compressor.hxx b/include/z5/compression/blosc_compressor.hxx
index 716bf5f..2f731e1 100644
--- a/include/z5/compression/blosc_compressor.hxx
+++ b/include/z5/compression/blosc_compressor.hxx
@@ -47,9 +47,17 @@ namespace compression {
             dataOut.resize(sizeCompressed);
         }
 
-        void decompress(const char * dataIn, std::size_t, T * dataOut, std::size_t sizeOut) const {
+        void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
+
+            // blosc reads the compressed length from its own header; make sure that it does
+            // not exceed the data and that the data fills the output exactly
+            std::size_t nBytesOut;
+            if(blosc_cbuffer_validate(dataIn, nBytesIn, &nBytesOut) < 0 ||
+               nBytesOut != sizeOut * sizeof(T)) {
+                throw std::runtime_error("z5: blosc data is corrupt or does not have the expected chunk size");
+            }
 
-            // decompress the data (blosc reads the compressed length from its own header)
+            // decompress the data
             int sizeDecompressed = blosc_decompress_ctx(
                 dataIn, dataOut,
                 sizeOut * sizeof(T),
-- 
2.43.0


From fd1863ed7655ea893913e4e80b25b2b324d8c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:53 +0000
Subject: [PATCH 21/42] fix: report missing chunks when reading single chunks
 of sharded datasets

---
 include/z5/generic/sharded_dataset.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/z5/generic/sharded_dataset.hxx b/include/z5/generic/sharded_dataset.hxx
index 716a850..8dce36e 100644
--- a/include/z5/generic/sharded_dataset.hxx
+++ b/include/z5/generic/sharded_dataset.hxx
@@ -68,6 +68,10 @@ namespace generic {
         inline bool readChunk(const types::ShapeType & chunkIndices, void * dataOut) const {
             std::vector<char> buffer;
             readRawChunk(chunkIndices, buffer);
+            // a missing chunk yields an empty buffer
+            if(buffer.empty()) {
+                throw std::runtime_error("Trying to read a chunk that does not exist");
+            }
             util::decompress<T>(buffer, dataOut, defaultChunkSize(), Mixin::compressor_);
             return false;  // no varlen in zarr v3
         }
-- 
2.43.0


From 41c10103ae66761e75ca996dd32b7fe0fed20e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:53 +0000
Subject: [PATCH 22/42] fix: reject chunk ids with the wrong number of
 dimensions

The ids were read out of bounds.
---
 include/z5/handle.hxx        | 3 +++
 include/z5/util/sharding.hxx | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 5e08656..d5fcc9e 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -221,6 +221,9 @@ namespace handle {
         // compute the chunk shape, clipped if overhanging the boundary
         inline types::ShapeType computeBoundedShape() const {
             const int ndim = defaultShape_.size();
+            if(chunkIndices_.size() != ndim) {
+                throw std::runtime_error("Invalid chunk: wrong number of dimensions");
+            }
             types::ShapeType out(ndim);
             for(int d = 0; d < ndim; ++d) {
                 out[d] = ((chunkIndices_[d] + 1) * defaultShape_[d] <= datasetShape_[d]) ? defaultShape_[d] :
diff --git a/include/z5/util/sharding.hxx b/include/z5/util/sharding.hxx
index d4fc63d..64cce4d 100644
--- a/include/z5/util/sharding.hxx
+++ b/include/z5/util/sharding.hxx
@@ -4,6 +4,7 @@
 #include <functional>
 #include <limits>
 #include <numeric>
+#include <stdexcept>
 #include <vector>
 
 #include "z5/types/types.hxx"
@@ -55,6 +56,9 @@ namespace util {
     // outer shard id of an inner chunk id
     inline types::ShapeType shardId(const types::ShapeType & innerId,
                                     const types::ShapeType & cps) {
+        if(innerId.size() != cps.size()) {
+            throw std::runtime_error("Invalid chunk: wrong number of dimensions");
+        }
         types::ShapeType sid(innerId.size());
         for(std::size_t d = 0; d < innerId.size(); ++d) {
             sid[d] = innerId[d] / cps[d];
-- 
2.43.0


From 3991b28db291e00dd8b21e1503931cb1befe6ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:12 +0000
Subject: [PATCH 23/42] fix: reject requests from python with the wrong number
 of coordinates

The coordinates were read out of bounds.
---
 src/python/lib/dataset.cxx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/python/lib/dataset.cxx b/src/python/lib/dataset.cxx
index e327a4b..23cbfdd 100644
--- a/src/python/lib/dataset.cxx
+++ b/src/python/lib/dataset.cxx
@@ -48,12 +48,21 @@ namespace z5 {
     }
 
 
+    // the library reads as many coordinates as the array has dimensions
+    inline void checkRoiBegin(const std::vector<std::size_t> & roiBegin, const std::size_t ndim) {
+        if(roiBegin.size() != ndim) {
+            throw std::runtime_error("Request has wrong dimension");
+        }
+    }
+
+
     template<class T>
     inline void writePySubarray(const Dataset & ds,
                                 const nb::ndarray<nb::numpy, const T, nb::c_contig> in,
                                 const std::vector<std::size_t> & roiBegin,
                                 const int numberOfThreads) {
         const auto view = constViewFromArray<T>(in);
+        checkRoiBegin(roiBegin, view.ndim());
         multiarray::writeSubarray<T>(ds, view, roiBegin.begin(), numberOfThreads);
     }
 
@@ -64,6 +73,7 @@ namespace z5 {
                                const std::vector<std::size_t> & roiBegin,
                                const int numberOfThreads) {
         const auto view = viewFromArray<T>(out);
+        checkRoiBegin(roiBegin, view.ndim());
         multiarray::readSubarray<T>(ds, view, roiBegin.begin(), numberOfThreads);
     }
 
@@ -74,6 +84,8 @@ namespace z5 {
                               const std::vector<std::size_t> & roiShape,
                               const T val,
                               const int numberOfThreads) {
+        checkRoiBegin(roiBegin, ds.dimension());
+        checkRoiBegin(roiShape, ds.dimension());
         multiarray::writeScalar<T>(ds, roiBegin.begin(), roiShape.begin(), val, numberOfThreads);
     }
 
-- 
2.43.0


From 9524ea853ee4e1676e107c1eae4a46480816641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:43 +0000
Subject: [PATCH 24/42] fix: report metadata documents with trailing content

---
 include/z5/factory.hxx            | 8 ++------
 include/z5/filesystem/file_io.hxx | 3 ++-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/z5/factory.hxx b/include/z5/factory.hxx
index 7c324f9..5dd8dfb 100644
--- a/include/z5/factory.hxx
+++ b/include/z5/factory.hxx
@@ -22,9 +22,7 @@ namespace z5 {
             const fs::path v3 = root / key / "zarr.json";
             if(fs::exists(v3)) {
                 nlohmann::json j;
-                std::ifstream file(v3);
-                file >> j;
-                file.close();
+                filesystem::io_detail::readJson(v3, j);
                 zarrFormat = 3;
                 if(j.contains("chunk_key_encoding")) {
                     const auto & cke = j["chunk_key_encoding"];
@@ -44,9 +42,7 @@ namespace z5 {
             const fs::path v2 = root / key / ".zarray";
             if(fs::exists(v2)) {
                 nlohmann::json j;
-                std::ifstream file(v2);
-                file >> j;
-                file.close();
+                filesystem::io_detail::readJson(v2, j);
                 zarrFormat = 2;
                 const auto it = j.find("dimension_separator");
                 if(it != j.end()) {
diff --git a/include/z5/filesystem/file_io.hxx b/include/z5/filesystem/file_io.hxx
index ff48938..06c9cca 100644
--- a/include/z5/filesystem/file_io.hxx
+++ b/include/z5/filesystem/file_io.hxx
@@ -71,7 +71,8 @@ namespace io_detail {
         if(!file.is_open()) {
             throw std::runtime_error("z5: cannot open metadata file for reading: " + path.string());
         }
-        file >> j;
+        // the whole file: content behind the document is an error as well
+        j = nlohmann::json::parse(file);
     }
 
 }  // namespace io_detail
-- 
2.43.0


From c18cf2c51e15c7d2eede6cd84fb9585cddbfc308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:47 +0000
Subject: [PATCH 25/42] fix: leave no node without metadata behind when its
 creation fails

---
 include/z5/filesystem/factory.hxx | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/z5/filesystem/factory.hxx b/include/z5/filesystem/factory.hxx
index e786729..300f9b1 100644
--- a/include/z5/filesystem/factory.hxx
+++ b/include/z5/filesystem/factory.hxx
@@ -38,6 +38,20 @@ namespace factory_detail {
             });
     }
 
+    // create the directory of a new node and write its metadata; if the latter fails,
+    // no node without metadata is left behind
+    template<class HANDLE, class METADATA>
+    inline void createNode(const HANDLE & handle, const METADATA & metadata) {
+        handle.create();
+        try {
+            writeMetadata(handle, metadata);
+        } catch(...) {
+            std::error_code ignored;
+            fs::remove(handle.path(), ignored);
+            throw;
+        }
+    }
+
 }
 
     // factory function to open an existing dataset
@@ -64,24 +78,19 @@ namespace factory_detail {
         nlohmann::json j;
         metadata.toJson(j);
         auto ds = factory_detail::makeDataset(dataset, metadata);
-        dataset.create();
-        writeMetadata(dataset, metadata);
+        factory_detail::createNode(dataset, metadata);
         return ds;
     }
 
 
     template<class GROUP>
     inline void createFile(const z5::handle::File<GROUP> & file, const bool isZarr, const int zarrFormat=2) {
-        file.create();
-        Metadata fmeta(isZarr, zarrFormat);
-        writeMetadata(file, fmeta);
+        factory_detail::createNode(file, Metadata(isZarr, zarrFormat));
     }
 
 
     inline void createGroup(const handle::Group & group, const bool isZarr, const int zarrFormat=2) {
-        group.create();
-        Metadata fmeta(isZarr, zarrFormat);
-        writeMetadata(group, fmeta);
+        factory_detail::createNode(group, Metadata(isZarr, zarrFormat));
     }
 
 
-- 
2.43.0


From c784f8323a87c6617522f21f235dfa66f6a7c58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:27 +0000
Subject: [PATCH 26/42] fix: leave the padding of zarr chunks out of unique
 values and trivial chunks

---
 include/z5/util/functions.hxx | 64 ++++++++++++++++++++++++-----------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/include/z5/util/functions.hxx b/include/z5/util/functions.hxx
index 367456c..1654804 100644
--- a/include/z5/util/functions.hxx
+++ b/include/z5/util/functions.hxx
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+
 #include "z5/common.hxx"
 #include "z5/util/for_each.hxx"
 
@@ -7,22 +9,46 @@
 namespace z5 {
 namespace util {
 
-    // Size a read buffer and report how many of its elements readChunk will fill.
-    // readChunk always writes the full (default) chunk size for zarr (chunks are
+    // Read the elements of a chunk that belong to the dataset.
+    // readChunk always fills the full (default) chunk size for zarr (chunks are
     // stored padded), the clipped chunk size for plain n5, and the actual element
     // count for varlen n5 chunks -- sizing the buffer by getChunkSize alone would
-    // overflow on zarr edge chunks.
+    // overflow on zarr edge chunks. The padding of zarr edge chunks is not part of
+    // the dataset and is dropped.
     template<class T>
-    inline std::size_t prepareChunkReadBuffer(const Dataset & ds,
-                                              const types::ShapeType & chunk,
-                                              std::vector<T> & data) {
+    inline void readChunkElements(const Dataset & ds,
+                                  const types::ShapeType & chunk,
+                                  std::vector<T> & data) {
         std::size_t dataSize;
         const bool isVarlen = ds.checkVarlenChunk(chunk, dataSize);
+        data.resize(std::max(ds.defaultChunkSize(), dataSize));
+        ds.readChunk(chunk, &data[0]);
+
         if(!isVarlen && ds.isZarr()) {
-            dataSize = ds.defaultChunkSize();
+            const auto & fullShape = ds.defaultChunkShape();
+            types::ShapeType chunkShape;
+            ds.getChunkShape(chunk, chunkShape);
+            // move the rows inside of the dataset to the front
+            const std::size_t rowSize = chunkShape.back();
+            types::ShapeType row(chunkShape.size(), 0);
+            dataSize = 0;
+            for(int d = 0; d >= 0;) {
+                std::size_t offset = 0;
+                for(std::size_t i = 0; i < row.size(); ++i) {
+                    offset = offset * fullShape[i] + row[i];
+                }
+                std::copy(data.begin() + offset, data.begin() + offset + rowSize, data.begin() + dataSize);
+                dataSize += rowSize;
+                // next row
+                for(d = static_cast<int>(row.size()) - 2; d >= 0; --d) {
+                    if(++row[d] < chunkShape[d]) {
+                        break;
+                    }
+                    row[d] = 0;
+                }
+            }
         }
-        data.resize(std::max(ds.defaultChunkSize(), dataSize));
-        return dataSize;
+        data.resize(dataSize);
     }
 
 
@@ -48,11 +74,12 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
-            // check vector for number of uniques and if we only have a single unique, remove it
-            const auto uniques = std::set<T>(data.begin(), data.begin() + dataSize);
-            const bool remove = (uniques.size() == 1) ? (removeSpecificValue ? (*uniques.begin() == value ? true : false) : true) : false;
+            readChunkElements(ds, chunk, data);
+            // if all elements have the same value, remove the chunk (NaNs are never the same value)
+            const T single = removeSpecificValue ? value : (data.empty() ? value : data.front());
+            const bool remove = !data.empty() && std::all_of(data.begin(), data.end(), [single](const T val) {
+                return val == single;
+            });
             if(remove) {
                 ds.removeChunk(chunk);
             }
@@ -104,10 +131,9 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
+            readChunkElements(ds, chunk, data);
             auto & threadSet = (tid == 0) ? uniques : threadData[tid - 1];
-            threadSet.insert(data.begin(), data.begin() + dataSize);
+            threadSet.insert(data.begin(), data.end());
         });
 
         // merge the per thread data
@@ -136,9 +162,7 @@ namespace util {
                 return;
             }
             std::vector<T> data;
-            const std::size_t dataSize = prepareChunkReadBuffer(ds, chunk, data);
-            ds.readChunk(chunk, &data[0]);
-            data.resize(dataSize);
+            readChunkElements(ds, chunk, data);
             auto & threadMap = (tid == 0) ? uniques : threadData[tid - 1];
             for(const T val : data) {
                 auto mIt = threadMap.find(val);
-- 
2.43.0


From 6286030d1ad360919290d985befad860db47741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:56 +0000
Subject: [PATCH 27/42] fix: a shard that is removed while it is read is
 absent, not an error

---
 include/z5/filesystem/store.hxx | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/z5/filesystem/store.hxx b/include/z5/filesystem/store.hxx
index 773b59d..a542d13 100644
--- a/include/z5/filesystem/store.hxx
+++ b/include/z5/filesystem/store.hxx
@@ -15,11 +15,19 @@ namespace filesystem {
 
 namespace store_detail {
 
+    // returns false if the file does not exist (which includes that another thread or
+    // process removed it just now)
     // 'what' names the object kind ("chunk" / "shard") in error messages
-    inline void readFile(const fs::path & path, std::vector<char> & buffer, const char * what) {
+    inline bool readFile(const fs::path & path, std::vector<char> & buffer, const char * what) {
+        if(!fs::exists(path)) {
+            return false;
+        }
         // open input stream and read the filesize
         std::ifstream file(path, std::ios::binary);
         if(!file.is_open()) {
+            if(!fs::exists(path)) {
+                return false;
+            }
             throw std::runtime_error(std::string("z5: cannot open ") + what + " file for reading: " + path.string());
         }
 
@@ -36,6 +44,7 @@ namespace store_detail {
             throw std::runtime_error(std::string("z5: failed to read ") + what + " file: " + path.string());
         }
         file.close();
+        return true;
     }
 
     inline void writeFile(const fs::path & path, const std::vector<char> & buffer, const char * what) {
@@ -59,11 +68,7 @@ namespace store_detail {
 
         static inline bool read(const ChunkHandleType & chunk, std::vector<char> & buffer,
                                 const char * what = "chunk") {
-            if(!fs::exists(chunk.path())) {
-                return false;
-            }
-            store_detail::readFile(chunk.path(), buffer, what);
-            return true;
+            return store_detail::readFile(chunk.path(), buffer, what);
         }
 
         static inline void write(const ChunkHandleType & chunk, const std::vector<char> & buffer,
-- 
2.43.0


From 528bbd6582407a69b7195274cca046d9d3392aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:37 +0000
Subject: [PATCH 28/42] fix: convert scalars to the dataset's type like numpy

Out-of-range integers were wrapped or truncated silently.
---
 src/python/module/z5py/dataset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/module/z5py/dataset.py b/src/python/module/z5py/dataset.py
index 6a4c245..73e58b7 100644
--- a/src/python/module/z5py/dataset.py
+++ b/src/python/module/z5py/dataset.py
@@ -536,6 +536,11 @@ class Dataset:
 
         # broadcast scalar
         if isinstance(item, (numbers.Number, np.number)):
+            # convert to the dataset's type like numpy, in particular refuse integers
+            # that are out of range
+            scalar = np.empty((), dtype=self.dtype)
+            scalar[...] = item
+            item = scalar.item()
             _z5py.write_scalar(self._impl, roi_begin,
                                list(shape), item,
                                str(self.dtype), self.n_threads)
-- 
2.43.0


From cd9a20bacee68bc69644d4cc0c316ca086a11515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:37 +0000
Subject: [PATCH 29/42] fix: accept the index -size, reject floats and bools as
 indices

Like numpy, the index -size is the first element; floats were truncated and
bools taken for integers.
---
 src/python/module/z5py/shape_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index 99c2ea2..f44dde8 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -41,10 +41,10 @@ def slice_to_start_stop(s, size):
 def int_to_start_stop(i, size):
     """For a single dimension with a given size, turn an int into slice(start, stop)
     pair."""
-    if -size < i < 0:
-        start = i + size
-    elif i >= size or i < -size:
+    if i >= size or i < -size:
         raise ValueError('Index ({}) out of range (0-{})'.format(i, size - 1))
+    elif i < 0:
+        start = i + size
     else:
         start = i
     return slice(start, start + 1)
@@ -160,7 +160,7 @@ def normalize_slices(slices, shape):
         d = len(normalized)
         if isinstance(item, slice):
             normalized.append(slice_to_start_stop(item, shape[d]))
-        elif isinstance(item, numbers.Number):
+        elif isinstance(item, numbers.Integral) and not isinstance(item, bool):
             squeeze.append(d)
             normalized.append(int_to_start_stop(int(item), shape[d]))
         elif isinstance(item, type(Ellipsis)):
-- 
2.43.0


From cd25c58bf184e2d1a3b4f46cf55bd5293d1e8af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:51 +0000
Subject: [PATCH 30/42] fix: compare the shape of assigned arrays up to leading
 and trailing singletons

Arrays like (2, 3) were accepted for (1, 6), and (1,) was refused for (1, 1).
---
 src/python/module/z5py/shape_utils.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/python/module/z5py/shape_utils.py b/src/python/module/z5py/shape_utils.py
index f44dde8..63a8f4e 100644
--- a/src/python/module/z5py/shape_utils.py
+++ b/src/python/module/z5py/shape_utils.py
@@ -85,20 +85,18 @@ def rectify_shape(arr, required_shape):
 
     is_leading = True
     for window in sliding_window(required_shape, len(important_shape)):
-        if window == important_shape:
-            if is_leading:
-                is_leading = False
-                continue
-            else:
-                break
-        if is_leading:
+        if is_leading and window == important_shape:
+            is_leading = False
+        elif is_leading:
             if window[0] != 1:
                 break
         else:
             if window[-1] != 1:
                 break
     else:
-        return arr.reshape(required_shape)
+        # all windows only differ by singletons, if the important shape is one of them
+        if not is_leading:
+            return arr.reshape(required_shape)
 
     raise ValueError(msg)
 
-- 
2.43.0


From f4bb375f857a26023899e2985e603900e09b138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:14 +0000
Subject: [PATCH 31/42] fix: keep the zlib framing that n5 metadata declares

Chunks of datasets with useZlib were written with gzip framing, which readers of
zlib streams refuse.
---
 include/z5/types/types.hxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/z5/types/types.hxx b/include/z5/types/types.hxx
index 53478d1..dd20191 100644
--- a/include/z5/types/types.hxx
+++ b/include/z5/types/types.hxx
@@ -313,7 +313,7 @@ namespace types {
         switch(compressor) {
             #ifdef WITH_ZLIB
             case zlib: options["level"] = jOpts.value("level", 5);
-                       options["useZlib"] = false;
+                       options["useZlib"] = jOpts.value("useZlib", false);
                        break;
             #endif
             #ifdef WITH_BZIP2
@@ -356,6 +356,10 @@ namespace types {
         switch(compressor) {
             #ifdef WITH_ZLIB
             case zlib: jOpts["level"] = std::get<int>(options.at("level"));
+                       // the framing is gzip unless this is given
+                       if(std::get<bool>(options.at("useZlib"))) {
+                           jOpts["useZlib"] = true;
+                       }
                        break;
             #endif
             #ifdef WITH_BZIP2
-- 
2.43.0


From 61bae6a3964514eba208ac731291a8a0e8b754e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:59 +0000
Subject: [PATCH 32/42] fix: keep node names inside of the container

Names with a leading slash or with '..' led out of the container, so that groups
and datasets outside of it could be created, opened and removed. Names of
metadata files broke the group they were created in.
---
 include/z5/factory.hxx               |  4 ++--
 include/z5/filesystem/attributes.hxx |  2 +-
 include/z5/filesystem/handle.hxx     | 31 +++++++++++++++++++++++++---
 include/z5/generic/attributes.hxx    |  8 ++++---
 4 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/z5/factory.hxx b/include/z5/factory.hxx
index 5dd8dfb..7276b1c 100644
--- a/include/z5/factory.hxx
+++ b/include/z5/factory.hxx
@@ -19,7 +19,7 @@ namespace z5 {
                                        std::string & zarrDelimiter, int & zarrFormat,
                                        std::string & chunkKeyEncoding) {
             // zarr v3
-            const fs::path v3 = root / key / "zarr.json";
+            const fs::path v3 = root / filesystem::handle::nodeName(key) / "zarr.json";
             if(fs::exists(v3)) {
                 nlohmann::json j;
                 filesystem::io_detail::readJson(v3, j);
@@ -39,7 +39,7 @@ namespace z5 {
                 return;
             }
             // zarr v2
-            const fs::path v2 = root / key / ".zarray";
+            const fs::path v2 = root / filesystem::handle::nodeName(key) / ".zarray";
             if(fs::exists(v2)) {
                 nlohmann::json j;
                 filesystem::io_detail::readJson(v2, j);
diff --git a/include/z5/filesystem/attributes.hxx b/include/z5/filesystem/attributes.hxx
index a504750..f738f6b 100644
--- a/include/z5/filesystem/attributes.hxx
+++ b/include/z5/filesystem/attributes.hxx
@@ -95,7 +95,7 @@ namespace attrs_detail {
     template<class GROUP>
     inline bool isSubGroup(const z5::handle::Group<GROUP> & group, const std::string & key){
         attrs_detail::JsonIO io(group.path());
-        return generic::isSubGroup(io, group.isZarr(), key);
+        return generic::isSubGroup(io, group.isZarr(), handle::nodeName(key));
     }
 
 }
diff --git a/include/z5/filesystem/handle.hxx b/include/z5/filesystem/handle.hxx
index 94937a2..56639b0 100644
--- a/include/z5/filesystem/handle.hxx
+++ b/include/z5/filesystem/handle.hxx
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <algorithm>
 #include <atomic>
+#include <stdexcept>
 #include <string>
 
 #include "z5/handle.hxx"
@@ -12,6 +14,29 @@ namespace filesystem {
 namespace handle {
 
 
+    // the name of a node relative to a group, as it is used in paths:
+    // leading (h5py style), trailing and repeated slashes are ignored, and names
+    // that lead out of the group or clash with the metadata files are rejected
+    inline std::string nodeName(const std::string & key) {
+        std::string name;
+        std::size_t begin = 0;
+        while(begin <= key.size()) {
+            const std::size_t end = std::min(key.find('/', begin), key.size());
+            const std::string part = key.substr(begin, end - begin);
+            begin = end + 1;
+            if(part.empty()) {
+                continue;
+            }
+            if(part == "." || part == ".." || part == ".zgroup" || part == ".zarray" || part == ".zattrs" ||
+               part == "zarr.json" || part == "attributes.json" || part.find('\0') != std::string::npos) {
+                throw std::invalid_argument("Invalid name of a group or dataset: " + key);
+            }
+            name += (name.empty() ? "" : "/") + part;
+        }
+        return name;
+    }
+
+
     class HandleImpl {
 
     public:
@@ -57,7 +82,7 @@ namespace handle {
         }
 
         inline bool elementExists(const std::string & name) const {
-            fs::path p = path_ / name;
+            const fs::path p = path_ / nodeName(name);
             return fs::exists(p) && fs::is_directory(p);
         }
 
@@ -83,7 +108,7 @@ namespace handle {
 
         template<class GROUP>
         Group(const z5::handle::Group<GROUP> & group, const std::string & key)
-            : BaseType(group.mode()), HandleImpl(group.path() / key) {
+            : BaseType(group.mode()), HandleImpl(group.path() / nodeName(key)) {
         }
 
         Group(const fs::path & path, const FileMode mode=FileMode())
@@ -195,7 +220,7 @@ namespace handle {
                 const std::string & zarrDelimiter=".", const int zarrFormat=2,
                 const std::string & chunkKeyEncoding="default")
             : BaseType(group.mode(), zarrDelimiter, zarrFormat, chunkKeyEncoding),
-              HandleImpl(group.path() / key) {
+              HandleImpl(group.path() / nodeName(key)) {
         }
 
         Dataset(const fs::path & path, const FileMode & mode)
diff --git a/include/z5/generic/attributes.hxx b/include/z5/generic/attributes.hxx
index 81b2c4f..4507ff1 100644
--- a/include/z5/generic/attributes.hxx
+++ b/include/z5/generic/attributes.hxx
@@ -107,6 +107,8 @@ namespace attrs_impl {
     // is the child node 'key' of the group a sub-group (as opposed to a dataset)?
     template<class IO>
     inline bool isSubGroup(const IO & io, const bool isZarr, const std::string & key) {
+        // (the empty key is the group itself)
+        const std::string prefix = key.empty() ? key : key + "/";
         if constexpr(IO::hasNodeExists) {
             if(!io.nodeExists(key)) {
                 return false;
@@ -114,19 +116,19 @@ namespace attrs_impl {
         }
         if(isZarr) {
             // zarr v3: zarr.json distinguishes group vs array via node_type
-            const std::string v3Name = key + "/zarr.json";
+            const std::string v3Name = prefix + "zarr.json";
             if(io.exists(v3Name)) {
                 nlohmann::json j;
                 io.read(v3Name, j);
                 return j.value("node_type", std::string("group")) == "group";
             }
             // zarr v2: a group has a .zgroup file / object
-            return io.exists(key + "/.zgroup");
+            return io.exists(prefix + ".zgroup");
         } else {
             // n5 has no group markers: everything without the full set of
             // dataset metadata attributes is a group
             nlohmann::json j;
-            if(!io.read(key + "/attributes.json", j)) {
+            if(!io.read(prefix + "attributes.json", j)) {
                 return true;
             }
             return !z5::handle::hasAllN5DatasetAttributes(j);
-- 
2.43.0


From 21c2d97ea06fa36be5a418bbdb8a58f9dd37f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:49 +0000
Subject: [PATCH 33/42] fix: create the intermediate groups of nested names,
 and nodes only inside of groups

Intermediate groups had no metadata (so they could not be opened in zarr) or were
left behind when the creation failed, children could be created inside of
datasets, chunk directories were members, and the parents and names of nested
groups were wrong. Deleting '' or '/' removed the group itself.
---
 src/python/module/z5py/group.py | 140 +++++++++++++++++++++-----------
 1 file changed, 93 insertions(+), 47 deletions(-)

diff --git a/src/python/module/z5py/group.py b/src/python/module/z5py/group.py
index cb30dbf..8043d10 100644
--- a/src/python/module/z5py/group.py
+++ b/src/python/module/z5py/group.py
@@ -60,19 +60,41 @@ class Group(Mapping):
     def __len__(self):
         return len(self._handle.keys())
 
+    @staticmethod
+    def _split_name(name):
+        # names are relative to the group; like leading slashes (h5py), trailing and
+        # repeated slashes are ignored. Names must not lead out of the group
+        parts = [part for part in name.split('/') if part]
+        if any(part in ('.', '..') for part in parts):
+            raise ValueError("Invalid name of a group or dataset: %s" % name)
+        return parts
+
     def __contains__(self, name):
-        return self._handle.has(name.lstrip('/'))
+        try:
+            parts = self._split_name(name)
+            # only groups have children (the chunks of a dataset can be in sub-directories)
+            for ii in range(1, len(parts)):
+                parent = '/'.join(parts[:ii])
+                if not (self._handle.has(parent) and self._handle.is_sub_group(parent)):
+                    return False
+            return self._handle.has('/'.join(parts))
+        except ValueError:
+            # not a valid name
+            return False
 
     def __delitem__(self, name):
         if not self._handle.mode().can_write():
             raise ValueError("Cannot call delete on file not opened with write permissions.")
+        parts = self._split_name(name)
+        if not parts:
+            raise ValueError("A group cannot delete itself")
         if name not in self:
             raise KeyError("%s does not exist" % name)
-        if self.is_sub_group(name.lstrip('/')):
-            handle = self._handle_factory(self._handle, name.lstrip('/'))
-            handle.remove()
+        obj = self[name]
+        if isinstance(obj, Group):
+            obj._handle.remove()
         else:
-            _z5py.remove_dataset(self[name]._impl, 1)
+            _z5py.remove_dataset(obj._impl, 1)
 
     def __getitem__(self, name):
         """ Access group or dataset in the container.
@@ -87,13 +109,44 @@ class Group(Mapping):
         """
         if name not in self:
             raise KeyError("Key %s does not exist" % name)
+        obj = self
+        for part in self._split_name(name):
+            obj = obj._open_child(part)
+        return obj
 
-        if self.is_sub_group(name.lstrip('/')):
-            handle = self._handle_factory(self._handle, name.lstrip('/'))
-            return Group(handle, self._handle_factory, self, self._name + '/' + name,
-                         self._dimension_separator, self._zarr_format)
-        else:
-            return Dataset._open_dataset(self, name.lstrip('/'))
+    def _open_child(self, name):
+        if self._handle.is_sub_group(name):
+            return self._make_group(self._handle_factory(self._handle, name), name)
+        return Dataset._open_dataset(self, name)
+
+    def _make_group(self, handle, name):
+        return Group(handle, self._handle_factory, self, self._name + '/' + name,
+                     self._dimension_separator, self._zarr_format)
+
+    def _create_child_group(self, name):
+        return self._make_group(_z5py.create_group(self._handle, name, self._zarr_format), name)
+
+    def _create_node(self, name, create):
+        # call 'create' with the group that contains the new node and the name of the node
+        # in it; for nested paths, missing intermediate groups are created (with their
+        # metadata), and removed again if the node cannot be created
+        *parents, name = self._split_name(name)
+        group, created = self, []
+        try:
+            for part in parents:
+                if part in group:
+                    group = group[part]
+                    if not isinstance(group, Group):
+                        raise TypeError("Incompatible object (Dataset) %s already exists" % group.name)
+                else:
+                    group = group._create_child_group(part)
+                    created.append(group)
+            return create(group, name)
+        except Exception:
+            for group in reversed(created):
+                if len(group) == 0:
+                    group._handle.remove()
+            raise
 
     @property
     def attrs(self):
@@ -146,7 +199,7 @@ class Group(Mapping):
         Returns:
             bool: True if ``name`` refers to a sub-group.
         """
-        return self._handle.is_sub_group(name)
+        return name in self and self._handle.is_sub_group('/'.join(self._split_name(name)))
 
     def create_group(self, name):
         """ Create a new group.
@@ -164,9 +217,7 @@ class Group(Mapping):
             raise ValueError("Cannot create group with read-only permissions.")
         if name in self:
             raise KeyError("An object with name %s already exists" % name)
-        handle = _z5py.create_group(self._handle, name, self._zarr_format)
-        return Group(handle, self._handle_factory, self, self._name + '/' + name,
-                     self._dimension_separator, self._zarr_format)
+        return self._create_node(name, Group._create_child_group)
 
     def require_group(self, name):
         """ Require group.
@@ -181,15 +232,13 @@ class Group(Mapping):
             ``Group``: group of the requested name.
         """
         if name in self:
-            if not self.is_sub_group(name):
+            group = self[name]
+            if not isinstance(group, Group):
                 raise TypeError("Incompatible object (Dataset) already exists")
-            handle = self._handle_factory(self._handle, name)
-        else:
-            if not self._handle.mode().can_write():
-                raise ValueError("Cannot create group with read-only permissions.")
-            handle = _z5py.create_group(self._handle, name, self._zarr_format)
-        return Group(handle, self._handle_factory, self, self._name + '/' + name,
-                     self._dimension_separator, self._zarr_format)
+            return group
+        if not self._handle.mode().can_write():
+            raise ValueError("Cannot create group with read-only permissions.")
+        return self._create_node(name, Group._create_child_group)
 
     #
     # Dataset functionality
@@ -236,27 +285,17 @@ class Group(Mapping):
         if name in self:
             raise KeyError("Dataset %s is already existing." % name)
 
-        # For nested paths, create intermediate groups with proper metadata
-        parts = name.lstrip('/').split('/')
-        if len(parts) > 1:
-            group = self
-            for part in parts[:-1]:
-                group = group.require_group(part)
-            return group.create_dataset(parts[-1], shape, dtype,
-                                        data, chunks, compression,
-                                        fillvalue, n_threads,
-                                        shards=shards,
-                                        chunk_key_encoding=chunk_key_encoding,
-                                        **compression_options)
-
-        return Dataset._create_dataset(self, name, shape, dtype,
-                                       data, chunks, compression,
-                                       fillvalue, n_threads,
-                                       compression_options,
-                                       self._dimension_separator,
-                                       zarr_format=self._zarr_format,
-                                       shards=shards,
-                                       chunk_key_encoding=chunk_key_encoding)
+        def create(group, name):
+            return Dataset._create_dataset(group, name, shape, dtype,
+                                           data, chunks, compression,
+                                           fillvalue, n_threads,
+                                           compression_options,
+                                           self._dimension_separator,
+                                           zarr_format=self._zarr_format,
+                                           shards=shards,
+                                           chunk_key_encoding=chunk_key_encoding)
+
+        return self._create_node(name, create)
 
     def require_dataset(self, name, shape,
                         dtype=None, chunks=None,
@@ -282,9 +321,16 @@ class Group(Mapping):
         """
         # NOTE write permissions are only required if the dataset does not exist;
         # _require_dataset checks this on its creation path
-        return Dataset._require_dataset(self, name, shape, dtype, chunks,
-                                        n_threads, dimension_separator=self._dimension_separator,
-                                        zarr_format=self._zarr_format, **kwargs)
+        def require(group, name):
+            return Dataset._require_dataset(group, name, shape, dtype, chunks,
+                                            n_threads, dimension_separator=self._dimension_separator,
+                                            zarr_format=self._zarr_format, **kwargs)
+
+        if name not in self and not self._handle.mode().can_write():
+            raise ValueError("Cannot create dataset with read-only permissions.")
+        if name in self and not self._split_name(name):
+            raise TypeError("Incompatible object (Group) already exists")
+        return self._create_node(name, require)
 
     def visititems(self, func, _root=None):
         """ Recursively visit names and objects in this group.
-- 
2.43.0


From fafa8f0737d4fc3959f2de8870932b8042f1fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 34/42] fix: do not turn n5 groups into datasets by writing
 attributes

Groups and datasets are told apart by their attributes; groups with the attributes
of a dataset could not be opened any more. Datasets with both the old and the new
compression attribute were taken for groups.
---
 include/z5/attributes.hxx | 20 ++++++++++++++++++++
 include/z5/handle.hxx     | 15 ++++-----------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/z5/attributes.hxx b/include/z5/attributes.hxx
index 045644c..d102a39 100644
--- a/include/z5/attributes.hxx
+++ b/include/z5/attributes.hxx
@@ -79,6 +79,21 @@ namespace attrs_detail {
         filesystem::readAttributes(group, j);
     }
 
+    namespace attrs_detail {
+        // n5 tells groups and datasets apart by their attributes
+        template<class GROUP>
+        inline void protectN5Group(const handle::Group<GROUP> & group, const nlohmann::json & j) {
+            nlohmann::json merged = nlohmann::json::object();
+            z5::readAttributes(group, merged);
+            for(auto jIt = j.begin(); jIt != j.end(); ++jIt) {
+                merged[jIt.key()] = jIt.value();
+            }
+            if(handle::hasAllN5DatasetAttributes(merged)) {
+                throw std::runtime_error("Can't write the attributes of a dataset to a group");
+            }
+        }
+    }
+
     template<class GROUP>
     inline void writeAttributes(const handle::Group<GROUP> & group, const nlohmann::json & j) {
 
@@ -88,6 +103,10 @@ namespace attrs_detail {
             throw std::invalid_argument(err.c_str());
         }
 
+        if(!group.isZarr()) {
+            attrs_detail::protectN5Group(group, j);
+        }
+
         #ifdef WITH_S3
         if(group.isS3()) {
             s3::writeAttributes(group, j);
@@ -141,6 +160,7 @@ namespace attrs_detail {
 
         if(!file.isZarr()) {
             attrs_detail::protectN5FileAttributes(j);
+            attrs_detail::protectN5Group(file, j);
         }
 
         #ifdef WITH_S3
diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index d5fcc9e..6f4b791 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -240,17 +240,10 @@ namespace handle {
     };
 
 
-    inline bool hasAllN5DatasetAttributes(nlohmann::json & j) {
-        const std::set<std::string> protectedAttributes = {"dimensions", "blockSize", "dataType",
-                                                           "compressionType", "compression"};
-        int nFound = 0;
-        for(auto jIt = j.begin(); jIt != j.end(); ++jIt) {
-            if(protectedAttributes.find(jIt.key()) != protectedAttributes.end()) {
-                ++nFound;
-            }
-        }
-        // NOTE we only expect to find one of "compressionType" and "compression"
-        return nFound == (protectedAttributes.size() - 1);
+    inline bool hasAllN5DatasetAttributes(const nlohmann::json & j) {
+        // older versions of n5 store "compressionType" instead of "compression"
+        return j.is_object() && j.contains("dimensions") && j.contains("blockSize") && j.contains("dataType") &&
+               (j.contains("compression") || j.contains("compressionType"));
     }
 }
 }
-- 
2.43.0


From 956a70a7901c16df6f3853e5ca14c6414b065d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:19 +0000
Subject: [PATCH 35/42] fix: report the deletion of missing attributes, refuse
 integers beyond 64 bit

Deleting a missing key passed silently, unlike for other mutable mappings, and
integers beyond 64 bit were stored as rounded floating point numbers.
---
 src/python/module/z5py/attribute_manager.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/python/module/z5py/attribute_manager.py b/src/python/module/z5py/attribute_manager.py
index 1ae15bc..1f18e0c 100644
--- a/src/python/module/z5py/attribute_manager.py
+++ b/src/python/module/z5py/attribute_manager.py
@@ -63,6 +63,11 @@ def set_json_decoder(decoder):
     _JSON_DECODER = decoder
 
 
+def _check_int(literal):
+    if not -2 ** 63 <= int(literal) < 2 ** 64:
+        raise OverflowError("Integers in attributes must fit into 64 bit: %s" % literal)
+
+
 class AttributeManager(MutableMapping):
     """ Provides access to custom user attributes.
 
@@ -83,7 +88,11 @@ class AttributeManager(MutableMapping):
         self._write_attributes({key: item})
 
     def __delitem__(self, key):
+        missing = key not in self
+        # fails for reserved attributes
         _z5py.remove_attribute(self._handle, key)
+        if missing:
+            raise KeyError(key)
 
     def update(self, *args, **kwargs):
         """ Update multiple attributes with a single read-modify-write.
@@ -102,6 +111,8 @@ class AttributeManager(MutableMapping):
 
     def _write_attributes(self, attributes):
         attributes = json.dumps(attributes, cls=_JSON_ENCODER)
+        # integers that do not fit into 64 bit would be stored as floating point numbers
+        json.loads(attributes, parse_int=_check_int)
         _z5py.write_attributes(self._handle, attributes)
 
     def __iter__(self):
-- 
2.43.0


From 04c6140cde1c4166439507345f42d9cd9660c23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:59 +0000
Subject: [PATCH 36/42] fix: refuse n5 containers of major versions above 9

Only the first digit of the version was looked at.
---
 src/python/module/z5py/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 9192344..0c1c4ee 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -149,7 +149,7 @@ class File(Group):
         else:
             version = metadata.get('n5', None)
             if version is not None:
-                major_version = int(version[0])
+                major_version = int(version.split('.')[0])
                 if major_version > 4:
                     raise RuntimeError("Can't open n5 file with major version bigger than 4")
 
-- 
2.43.0


From 60b6240fda07d23523d49251d10cc7070b2492d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:59 +0000
Subject: [PATCH 37/42] fix: refuse unknown zarr formats before anything is
 created or removed

Files and groups of unknown zarr formats could be created, but not opened any more;
opening a file in mode 'w' with an invalid format removed the existing container first.
---
 include/z5/metadata.hxx        | 9 +++++----
 src/python/module/z5py/file.py | 5 +++++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/z5/metadata.hxx b/include/z5/metadata.hxx
index 94d25cc..f546422 100644
--- a/include/z5/metadata.hxx
+++ b/include/z5/metadata.hxx
@@ -25,7 +25,11 @@ namespace z5 {
                                       n5Major(2),
                                       n5Minor(0),
                                       n5Patch(0)
-        {}
+        {
+            if(isZarr && zarrFormat != 2 && zarrFormat != 3) {
+                throw std::runtime_error("Invalid Zarr format: " + std::to_string(zarrFormat));
+            }
+        }
         inline std::string n5Format() const {
             return std::to_string(n5Major) + "." + std::to_string(n5Minor) + "." + std::to_string(n5Patch);
         }
@@ -484,9 +488,6 @@ namespace z5 {
             if(!isZarr) {
                 return;
             }
-            if(zarrFormat != 2 && zarrFormat != 3) {
-                throw std::runtime_error("Invalid Zarr format: " + std::to_string(zarrFormat));
-            }
             if(zarrDelimiter != "." && zarrDelimiter != "/") {
                 throw std::runtime_error("Invalid dimension separator: " + zarrDelimiter);
             }
diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index 0c1c4ee..a822992 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -6,6 +6,7 @@ usual entry point to z5py (similar to ``h5py.File``). :class:`ZarrFile` /
 container stored in an S3 (or S3-compatible) bucket.
 """
 import json
+import numbers
 import os
 import errno
 
@@ -112,6 +113,10 @@ class File(Group):
             if is_zarr:
                 raise RuntimeError("Zarr file cannot be opened in N5 format")
 
+        # an existing container must not be removed for one that cannot be created
+        if not isinstance(zarr_format, numbers.Integral) or zarr_format not in (2, 3):
+            raise ValueError("Invalid zarr format: %s" % (zarr_format,))
+
         handle = _z5py.File(path, _z5py.FileMode(self.file_modes[mode]))
         mode = handle.mode()
 
-- 
2.43.0


From 655ed6798693648ed8d1d533194cc125c7308c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:50 +0000
Subject: [PATCH 38/42] fix: report failed s3 requests instead of taking them
 for absent objects or complete results

---
 include/z5/s3/handle.hxx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 3576e42..43bd595 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -251,7 +251,11 @@ namespace detail {
         Aws::S3::Model::HeadObjectRequest request;
         request.SetBucket(Aws::String(bucket.c_str(), bucket.size()));
         request.SetKey(Aws::String(key.c_str(), key.size()));
-        return client.HeadObject(request).IsSuccess();
+        const auto outcome = client.HeadObject(request);
+        if(!outcome.IsSuccess() && !isNotFound(outcome.GetError())) {
+            throw makeS3Error("could not check for object in S3", key, outcome.GetError());
+        }
+        return outcome.IsSuccess();
     }
 
     inline void deleteObject(Aws::S3::S3Client & client,
@@ -309,6 +313,13 @@ namespace detail {
             if(!outcome.IsSuccess()) {
                 throw makeS3Error("could not delete objects from S3", prefix, outcome.GetError());
             }
+            // the request can succeed although some of the objects could not be deleted
+            const auto & errors = outcome.GetResult().GetErrors();
+            if(!errors.empty()) {
+                throw std::runtime_error("z5: could not delete object from S3: " +
+                                         std::string(errors.front().GetKey().c_str()) + " (" +
+                                         std::string(errors.front().GetMessage().c_str()) + ")");
+            }
         }
     }
 
@@ -379,7 +390,7 @@ namespace handle {
             do {
                 auto outcome = client->ListObjectsV2(request);
                 if(!outcome.IsSuccess()) {
-                    break;
+                    throw detail::makeS3Error("could not list objects in S3", bucketPrefix, outcome.GetError());
                 }
                 object_list = outcome.GetResult();
                 for(const auto & common_prefix : object_list.GetCommonPrefixes()) {
-- 
2.43.0


From f8ac6a0f16fd6b1597af0226837edb8c6c2e760f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:51 +0000
Subject: [PATCH 39/42] fix: s3: relative path of nodes whose name starts with
 the name of another node

---
 include/z5/s3/factory.hxx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/z5/s3/factory.hxx b/include/z5/s3/factory.hxx
index f499e94..9792964 100644
--- a/include/z5/s3/factory.hxx
+++ b/include/z5/s3/factory.hxx
@@ -124,12 +124,12 @@ namespace factory_detail {
         if(a.empty()) {
             return b;
         }
-        if(b.size() >= a.size() && b.compare(0, a.size(), a) == 0) {
-            std::string rel = b.substr(a.size());
-            if(!rel.empty() && rel.front() == '/') {
-                rel.erase(0, 1);
-            }
-            return rel;
+        if(b == a) {
+            return "";
+        }
+        // (a name can start with the name of another node)
+        if(b.compare(0, a.size() + 1, a + "/") == 0) {
+            return b.substr(a.size() + 1);
         }
         return b;
     }
-- 
2.43.0


From a458044165da1ae85945a1f2097ddc40266c30b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:20 +0000
Subject: [PATCH 40/42] fix: s3: names of groups and datasets as on the file
 system, metadata objects are no members

---
 include/z5/filesystem/handle.hxx | 22 +---------------------
 include/z5/handle.hxx            | 26 ++++++++++++++++++++++++++
 include/z5/s3/attributes.hxx     |  2 +-
 include/z5/s3/factory.hxx        |  2 +-
 include/z5/s3/handle.hxx         | 28 ++++++++++++++++------------
 5 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/include/z5/filesystem/handle.hxx b/include/z5/filesystem/handle.hxx
index 56639b0..ff14d92 100644
--- a/include/z5/filesystem/handle.hxx
+++ b/include/z5/filesystem/handle.hxx
@@ -14,27 +14,7 @@ namespace filesystem {
 namespace handle {
 
 
-    // the name of a node relative to a group, as it is used in paths:
-    // leading (h5py style), trailing and repeated slashes are ignored, and names
-    // that lead out of the group or clash with the metadata files are rejected
-    inline std::string nodeName(const std::string & key) {
-        std::string name;
-        std::size_t begin = 0;
-        while(begin <= key.size()) {
-            const std::size_t end = std::min(key.find('/', begin), key.size());
-            const std::string part = key.substr(begin, end - begin);
-            begin = end + 1;
-            if(part.empty()) {
-                continue;
-            }
-            if(part == "." || part == ".." || part == ".zgroup" || part == ".zarray" || part == ".zattrs" ||
-               part == "zarr.json" || part == "attributes.json" || part.find('\0') != std::string::npos) {
-                throw std::invalid_argument("Invalid name of a group or dataset: " + key);
-            }
-            name += (name.empty() ? "" : "/") + part;
-        }
-        return name;
-    }
+    using z5::handle::nodeName;
 
 
     class HandleImpl {
diff --git a/include/z5/handle.hxx b/include/z5/handle.hxx
index 6f4b791..dce3b7e 100644
--- a/include/z5/handle.hxx
+++ b/include/z5/handle.hxx
@@ -1,6 +1,9 @@
 #pragma once
 
+#include <algorithm>
 #include <set>
+#include <stdexcept>
+#include <string>
 #include "z5/types/types.hxx"
 #include "z5/util/file_mode.hxx"
 #include "z5/util/util.hxx"
@@ -36,6 +39,29 @@ namespace handle {
      * be implemented for each backend, see for example "filesystem/dataset.hxx".
      */
 
+    // the name of a node relative to a group, as it is used in paths:
+    // leading (h5py style), trailing and repeated slashes are ignored, and names
+    // that lead out of the group or clash with the metadata files are rejected
+    inline std::string nodeName(const std::string & key) {
+        std::string name;
+        std::size_t begin = 0;
+        while(begin <= key.size()) {
+            const std::size_t end = std::min(key.find('/', begin), key.size());
+            const std::string part = key.substr(begin, end - begin);
+            begin = end + 1;
+            if(part.empty()) {
+                continue;
+            }
+            if(part == "." || part == ".." || part == ".zgroup" || part == ".zarray" || part == ".zattrs" ||
+               part == "zarr.json" || part == "attributes.json" || part.find('\0') != std::string::npos) {
+                throw std::invalid_argument("Invalid name of a group or dataset: " + key);
+            }
+            name += (name.empty() ? "" : "/") + part;
+        }
+        return name;
+    }
+
+
     class Handle {
     public:
         Handle(const FileMode mode) : mode_(mode){}
diff --git a/include/z5/s3/attributes.hxx b/include/z5/s3/attributes.hxx
index 3c3ef5c..d6a5124 100644
--- a/include/z5/s3/attributes.hxx
+++ b/include/z5/s3/attributes.hxx
@@ -109,7 +109,7 @@ namespace attrs_detail {
     template<class GROUP>
     inline bool isSubGroup(const z5::handle::Group<GROUP> & group, const std::string & key){
         attrs_detail::JsonIO io(group);
-        return generic::isSubGroup(io, group.isZarr(), key);
+        return generic::isSubGroup(io, group.isZarr(), handle::nodeName(key));
     }
 
 }
diff --git a/include/z5/s3/factory.hxx b/include/z5/s3/factory.hxx
index 9792964..58962fe 100644
--- a/include/z5/s3/factory.hxx
+++ b/include/z5/s3/factory.hxx
@@ -38,7 +38,7 @@ namespace factory_detail {
                                    std::string & chunkKeyEncoding) {
         auto client = detail::makeClient(root);
         const auto & bucket = root.bucketName();
-        const std::string base = detail::joinKey(root.nameInBucket(), key);
+        const std::string base = detail::joinKey(root.nameInBucket(), handle::nodeName(key));
 
         std::string content;
         // zarr v3
diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 43bd595..3692a2a 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -66,7 +66,7 @@ namespace detail {
 
     // join an object-key prefix with a name (no leading slash for a root prefix)
     inline std::string joinKey(const std::string & base, const std::string & name) {
-        return base.empty() ? name : base + "/" + name;
+        return (base.empty() || name.empty()) ? base + name : base + "/" + name;
     }
 
     // build an S3 client configured for the given endpoint / region / credentials.
@@ -328,6 +328,8 @@ namespace detail {
 
 namespace handle {
 
+    using z5::handle::nodeName;
+
     // common functionality for S3 File and Group handles. Stores the bucket /
     // key as well as the client configuration (endpoint / region / credentials)
     // so that any handle can build a correctly-configured S3 client.
@@ -408,13 +410,15 @@ namespace handle {
 
         inline bool inImpl(const std::string & name) const {
             auto client = makeClient();
-            const std::string key = detail::joinKey(nameInBucket_, name);
-            // exact object (metadata file or zarr v2 "."-delimited chunk)
-            if(detail::objectExists(*client, bucketName_, key)) {
-                return true;
-            }
-            // sub-group / sub-dataset: anything under "name/"
-            return anyObjectWithPrefix(*client, key + "/");
+            // a group or dataset: anything under "name/" (not a metadata object or chunk)
+            const std::string key = detail::joinKey(nameInBucket_, nodeName(name));
+            return anyObjectWithPrefix(*client, key.empty() ? key : key + "/");
+        }
+
+        // check for an object directly under this handle's prefix
+        inline bool hasObject(const std::string & name) const {
+            auto client = makeClient();
+            return detail::objectExists(*client, bucketName_, detail::joinKey(nameInBucket_, name));
         }
 
         // remove every object under this handle's prefix
@@ -426,11 +430,11 @@ namespace handle {
 
         inline bool isZarrGroup() const {
             // zarr v2 uses .zgroup, zarr v3 uses zarr.json
-            return inImpl(".zgroup") || inImpl("zarr.json");
+            return hasObject(".zgroup") || hasObject("zarr.json");
         }
         inline bool isZarrDataset() const {
             // zarr v2 uses .zarray, zarr v3 uses zarr.json
-            return inImpl(".zarray") || inImpl("zarr.json");
+            return hasObject(".zarray") || hasObject("zarr.json");
         }
 
         inline const std::string & bucketNameImpl() const {return bucketName_;}
@@ -525,7 +529,7 @@ namespace handle {
         Group(const z5::handle::Group<GROUP> & group, const std::string & key)
             : BaseType(group.mode()),
               S3HandleImpl(group.bucketName(),
-                           (group.nameInBucket() == "") ? key : group.nameInBucket() + "/" + key,
+                           detail::joinKey(group.nameInBucket(), nodeName(key)),
                            group.endpoint(), group.region(), group.anon(),
                            group.accessKey(), group.secretKey()){}
 
@@ -573,7 +577,7 @@ namespace handle {
                 const std::string & chunkKeyEncoding="default")
             : BaseType(group.mode(), zarrDelimiter, zarrFormat, chunkKeyEncoding),
               S3HandleImpl(group.bucketName(),
-                           (group.nameInBucket() == "") ? key : group.nameInBucket() + "/" + key,
+                           detail::joinKey(group.nameInBucket(), nodeName(key)),
                            group.endpoint(), group.region(), group.anon(),
                            group.accessKey(), group.secretKey()){}
 
-- 
2.43.0


From aba05f2a914ae5a87a3605043baea623376bbc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:21 +0000
Subject: [PATCH 41/42] fix: s3: refuse unknown zarr formats before a container
 is removed, and the removal of what does not exist

---
 include/z5/s3/factory.hxx      | 4 ++--
 include/z5/s3/handle.hxx       | 9 +++++++++
 src/python/module/z5py/file.py | 2 ++
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/z5/s3/factory.hxx b/include/z5/s3/factory.hxx
index 58962fe..c81a5d4 100644
--- a/include/z5/s3/factory.hxx
+++ b/include/z5/s3/factory.hxx
@@ -100,8 +100,8 @@ namespace factory_detail {
     template<class GROUP>
     inline void createFile(const z5::handle::File<GROUP> & file, const bool isZarr,
                            const int zarrFormat=2) {
-        file.create();
         Metadata fmeta(isZarr, zarrFormat);
+        file.create();
         writeMetadata(file, fmeta);
     }
 
@@ -109,8 +109,8 @@ namespace factory_detail {
     template<class GROUP>
     inline void createGroup(const z5::handle::Group<GROUP> & group, const bool isZarr,
                             const int zarrFormat=2) {
-        group.create();
         Metadata fmeta(isZarr, zarrFormat);
+        group.create();
         writeMetadata(group, fmeta);
     }
 
diff --git a/include/z5/s3/handle.hxx b/include/z5/s3/handle.hxx
index 3692a2a..9671a88 100644
--- a/include/z5/s3/handle.hxx
+++ b/include/z5/s3/handle.hxx
@@ -509,6 +509,9 @@ namespace handle {
                 const std::string err = "Cannot remove file in file mode " + mode().printMode();
                 throw std::invalid_argument(err.c_str());
             }
+            if(!exists()) {
+                throw std::invalid_argument("Cannot remove non-existing file.");
+            }
             removeImpl();
         }
 
@@ -555,6 +558,9 @@ namespace handle {
                 const std::string err = "Cannot remove group in group mode " + mode().printMode();
                 throw std::invalid_argument(err.c_str());
             }
+            if(!exists()) {
+                throw std::invalid_argument("Cannot remove non-existing group.");
+            }
             removeImpl();
         }
 
@@ -624,6 +630,9 @@ namespace handle {
                 const std::string err = "Cannot remove dataset in dataset mode " + mode().printMode();
                 throw std::invalid_argument(err.c_str());
             }
+            if(!exists()) {
+                throw std::invalid_argument("Cannot remove non-existing dataset.");
+            }
             removeImpl();
         }
 
diff --git a/src/python/module/z5py/file.py b/src/python/module/z5py/file.py
index a822992..5f59a57 100644
--- a/src/python/module/z5py/file.py
+++ b/src/python/module/z5py/file.py
@@ -248,6 +248,8 @@ class S3File(Group):
         is_zarr = True if use_zarr_format is None else use_zarr_format
         if not is_zarr:
             raise NotImplementedError("Only the zarr format is supported for S3 containers")
+        if not isinstance(zarr_format, numbers.Integral) or zarr_format not in (2, 3):
+            raise ValueError("Invalid zarr format: %s" % (zarr_format,))
 
         if dimension_separator is None:
             dimension_separator = '/' if zarr_format == 3 else '.'
-- 
2.43.0


From a29c1c2cb6636c3e925659b2b193e5a109f60771 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:06:07 +0000
Subject: [PATCH 42/42] fix: refuse chunks beyond the 32 bit sizes of bzip2 and
 zlib streams

The stream structures of bzip2 and (stock) zlib hold sizes in 32 bit: a chunk of more than 4 GiB was
compressed modulo 2^32 bytes without an error, the rest of the data was lost.
---
 include/z5/compression/bzip2_compressor.hxx | 17 +++++++++++++++++
 include/z5/compression/zlib_compressor.hxx  |  7 +++++++
 2 files changed, 24 insertions(+)

diff --git a/include/z5/compression/bzip2_compressor.hxx b/include/z5/compression/bzip2_compressor.hxx
index 9d4738a..bf4f185 100644
--- a/include/z5/compression/bzip2_compressor.hxx
+++ b/include/z5/compression/bzip2_compressor.hxx
@@ -4,6 +4,9 @@
 
 #include <bzlib.h>
 
+#include <limits>
+#include <stdexcept>
+
 #include "z5/compression/compressor_base.hxx"
 #include "z5/metadata.hxx"
 
@@ -25,11 +28,16 @@ namespace compression {
 
         void compress(const T * dataIn, std::vector<char> & dataOut, std::size_t sizeIn) const {
 
+            // the sizes of a bzip2 stream are 32 bit; without this check the end of a larger
+            // chunk would silently be dropped
+            checkStreamSize(sizeIn * sizeof(T));
+
             // resize the out data
             dataOut.clear();
             // the output buffer must be 1% + 600 bytes larger than the input
             std::size_t outSize = sizeof(T) * (sizeIn + static_cast<std::size_t>(0.01 * static_cast<float>(sizeIn)));
             outSize += 600;
+            checkStreamSize(outSize);
             dataOut.resize(outSize);
 
             // low - level API
@@ -66,6 +74,9 @@ namespace compression {
 
         void decompress(const char * dataIn, std::size_t nBytesIn, T * dataOut, std::size_t sizeOut) const {
 
+            checkStreamSize(nBytesIn);
+            checkStreamSize(sizeOut * sizeof(T));
+
             // create the bzip2 stream
             bz_stream bzs;
             bzs.opaque = NULL;
@@ -111,6 +122,12 @@ namespace compression {
 
 
     private:
+        static void checkStreamSize(const std::size_t size) {
+            if(size > std::numeric_limits<unsigned int>::max()) {
+                throw std::runtime_error("z5: chunk is too large for bzip2 compression");
+            }
+        }
+
         void init(const DatasetMetadata & metadata) {
             clevel_ = std::get<int>(metadata.compressionOptions.at("level"));
         }
diff --git a/include/z5/compression/zlib_compressor.hxx b/include/z5/compression/zlib_compressor.hxx
index 1d9214e..7f1587f 100644
--- a/include/z5/compression/zlib_compressor.hxx
+++ b/include/z5/compression/zlib_compressor.hxx
@@ -9,6 +9,7 @@
 #endif
 
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #include <string>
 
@@ -147,6 +148,12 @@ namespace compression {
             // directly into it (no 256kb scratch buffer, no per-block vector::insert).
             const std::size_t sizeInBytes = sizeIn * sizeof(T);
             const uLong bound = deflateBound(&zs, sizeInBytes);
+            // the sizes of a zlib stream are 32 bit; without this check the end of a larger
+            // chunk would silently be dropped
+            if(sizeInBytes > std::numeric_limits<uInt>::max() || bound > std::numeric_limits<uInt>::max()) {
+                deflateEnd(&zs);
+                throw std::runtime_error("z5: chunk is too large for zlib compression");
+            }
             dataOut.resize(bound);
 
             zs.next_in = (Bytef*) dataIn;
-- 
2.43.0

