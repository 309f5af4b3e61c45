From 7d7682768bbfa8767ac96a52442775b4315269f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:46 +0000
Subject: [PATCH 01/15] fix: sw842_decompress: reject a repeat template with
 fewer than 8 bytes decoded

---
 src/serial/842_decompress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial/842_decompress.c b/src/serial/842_decompress.c
index 580b9ba..6895583 100644
--- a/src/serial/842_decompress.c
+++ b/src/serial/842_decompress.c
@@ -328,7 +328,7 @@ int sw842_decompress(const uint8_t *in, size_t ilen,
 			if (ret)
 				return ret;
 
-			if (p.out == out) /* no previous bytes */
+			if (p.out - out < 8) /* no previous 8 bytes */
 				return -EINVAL;
 
 			/* copy rep + 1 */
-- 
2.43.0


From bc137f0799f8fbbdc2fac561b50c21822b9799a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:46 +0000
Subject: [PATCH 02/15] fix: report errors of single chunks from the sequential
 chunked functions

---
 src/common/trivial_chunked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index e69c43a..b009c75 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -25,7 +25,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			ret = rets[i]; \
 	} \
  \
-	return 0; \
+	return ret; \
 }
 
 #define LIB842_DEFINE_TRIVIAL_CHUNKED_DECOMPRESS LIB842_DEFINE_TRIVIAL_CHUNKED_COMPRESS
-- 
2.43.0


From 6c5fad02cfc46b706883ae3bea3c96b893f4ca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:46 +0000
Subject: [PATCH 03/15] fix: do not truncate chunk offsets to 32 bits in the
 sequential chunked functions

---
 src/common/trivial_chunked.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/trivial_chunked.h b/src/common/trivial_chunked.h
index b009c75..f78592d 100644
--- a/src/common/trivial_chunked.h
+++ b/src/common/trivial_chunked.h
@@ -13,7 +13,7 @@ int chunked_compress_func(size_t numchunks, int *rets, \
 			  const uint8_t *in, size_t istride, const size_t *ilens, \
 			  uint8_t *out, size_t ostride, size_t *olens) { \
 	int ret = 0; \
-	for (unsigned int i = 0, soffset = 0, doffset = 0; \
+	for (size_t i = 0, soffset = 0, doffset = 0; \
 	     i < numchunks; \
 	     i++, soffset += istride, doffset += ostride) { \
 		if (ilens[i] == SIZE_MAX) \
-- 
2.43.0


From 36dbb0e66835382ffd5cf34de419c214a07045bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:52:46 +0000
Subject: [PATCH 04/15] fix: streams: make _quit atomic, worker threads poll it
 without the lock

---
 include/lib842/stream/comp.h   | 2 +-
 include/lib842/stream/decomp.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lib842/stream/comp.h b/include/lib842/stream/comp.h
index c545dc5..0140b8c 100644
--- a/include/lib842/stream/comp.h
+++ b/include/lib842/stream/comp.h
@@ -112,7 +112,7 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the compression threads to quit (for cleanup)
-	bool _quit;
+	std::atomic<bool> _quit;
 
 	unsigned _offset_sync_epoch_multiple_log2;
 };
diff --git a/include/lib842/stream/decomp.h b/include/lib842/stream/decomp.h
index 7b8d808..4942737 100644
--- a/include/lib842/stream/decomp.h
+++ b/include/lib842/stream/decomp.h
@@ -15,6 +15,7 @@
 #include <lib842/stream/block.h>
 #include <lib842/common.h>
 
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <thread>
@@ -110,7 +111,7 @@ private:
 	detail::barrier _finalize_barrier;
 
 	// If set to true, causes the decompression threads to quit (for cleanup)
-	bool _quit;
+	std::atomic<bool> _quit;
 };
 
 } // namespace stream
-- 
2.43.0


From 0d3be08f6f7a0ea73b391c9e84b97db6ae5ed9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:53 +0000
Subject: [PATCH 05/15] fix: Block::get_chunk: an uncompressed chunk needs a
 source, do not assert that there is none

---
 include/lib842/stream/block.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lib842/stream/block.h b/include/lib842/stream/block.h
index 9790384..5339b45 100644
--- a/include/lib842/stream/block.h
+++ b/include/lib842/stream/block.h
@@ -50,7 +50,7 @@ struct Block {
 		if (sizes[chunk_no] == 0) // Chunk not present ('gap')
 			return nullptr;
 		if (sizes[chunk_no] == CHUNK_SIZE) { // Uncompressible chunk - read from source
-			assert(source == nullptr);
+			assert(source != nullptr);
 			return static_cast<const uint8_t *>(source) + chunk_no * CHUNK_SIZE;
 		}
 		return chunk_buffer.get() + chunk_no * chunk_padding;
-- 
2.43.0


From c31ece1a7c8c85a45199d9f101866eca0ff304ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:05 +0000
Subject: [PATCH 06/15] fix: DataDecompressionStream: do not check
 uninitialized results of skipped chunks

---
 src/stream/DataDecompressionStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 03aaf73..4d52480 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -211,6 +211,7 @@ bool DataDecompressionStream::handle_block(const Block &block,
 					   stats_per_thread_t &stats) const {
 	std::array<int, NUM_CHUNKS_PER_BLOCK> chunk_rets;
 	std::array<size_t, NUM_CHUNKS_PER_BLOCK> input_chunk_sizes, output_chunk_sizes;
+	chunk_rets.fill(0); // Not set by the implementation for skipped chunks
 	output_chunk_sizes.fill(CHUNK_SIZE);
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
-- 
2.43.0


From 94ab6d093953f7c0137e38a5ab0127490b414d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:05 +0000
Subject: [PATCH 07/15] fix: DataDecompressionStream: report chunks that do not
 decompress to their full size as an error

---
 src/stream/DataDecompressionStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stream/DataDecompressionStream.cpp b/src/stream/DataDecompressionStream.cpp
index 4d52480..dc012fe 100644
--- a/src/stream/DataDecompressionStream.cpp
+++ b/src/stream/DataDecompressionStream.cpp
@@ -249,8 +249,8 @@ bool DataDecompressionStream::handle_block(const Block &block,
 #endif
 
 	for (size_t i = 0; i < NUM_CHUNKS_PER_BLOCK; i++) {
-		assert(chunk_rets[i] == 0);
-		assert(output_chunk_sizes[i] == CHUNK_SIZE);
+		if (chunk_rets[i] != 0 || output_chunk_sizes[i] != CHUNK_SIZE)
+			return false;
 	}
 
 	return true;
-- 
2.43.0


From 8b08b2da7d8a9067435d07b6b9e82a200d53c272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:25 +0000
Subject: [PATCH 08/15] fix: optsw842_compress: do not read past an empty input

---
 src/serial_optimized/842_compress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index c790a4a..2125a1a 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -606,7 +606,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		*olen = 0;
 
 		/* make initial 'last' different so we don't match the first time */
-		last = ~read64(p->in);
+		last = p->ilen > 7 ? ~read64(p->in) : 0;
 
 		while (p->ilen > 7) {
 			next = read64(p->in);
-- 
2.43.0


From f645b960491bb94a0639db81372002819899c888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:25 +0000
Subject: [PATCH 09/15] fix: optsw842_compress: set *olen to 0 when the input
 length is rejected

---
 src/serial_optimized/842_compress.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index 2125a1a..d71458a 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -574,6 +574,7 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 		fprintf(stderr,
 			"Can only compress multiples of 8 bytes, but len is len %zu (%% 8 = %zu)\n",
 			ilen, ilen % 8);
+		*olen = 0;
 		return -EINVAL;
 	}
 
-- 
2.43.0


From 039bc467a6116e19649969d598670d1dc9a4ef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:25 +0000
Subject: [PATCH 10/15] fix: optsw842_compress: return -ENOMEM when an
 allocation fails

---
 src/serial_optimized/842_compress.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/serial_optimized/842_compress.cpp b/src/serial_optimized/842_compress.cpp
index d71458a..9ee63b5 100644
--- a/src/serial_optimized/842_compress.cpp
+++ b/src/serial_optimized/842_compress.cpp
@@ -585,6 +585,10 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 	}
 
 	auto *p = (struct sw842_param *)malloc(sizeof(struct sw842_param));
+	if (p == nullptr) {
+		*olen = 0;
+		return -ENOMEM;
+	}
 
 	std::fill(std::begin(p->hashes), std::end(p->hashes), 0);
 
@@ -600,6 +604,11 @@ int optsw842_compress(const uint8_t *in, size_t ilen,
 	p->ilen = ilen;
 
 	p->stream = stream_open(out, *olen);
+	if (p->stream == nullptr) {
+		free(p);
+		*olen = 0;
+		return -ENOMEM;
+	}
 
 	try {
 		p->olen = *olen;
-- 
2.43.0


From 7eb969c08e365b8d6cba6e55d0fcc9c8ecb2170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:25 +0000
Subject: [PATCH 11/15] fix: sw842_compress: return -ENOMEM when the working
 memory cannot be allocated

---
 src/serial/842_compress.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/serial/842_compress.c b/src/serial/842_compress.c
index 525e87e..0eda9f5 100644
--- a/src/serial/842_compress.c
+++ b/src/serial/842_compress.c
@@ -545,6 +545,11 @@ int sw842_compress(const uint8_t *in, size_t ilen,
 	uint8_t repeat_count = 0;
 	uint32_t crc;
 
+	if (p == NULL) {
+		*olen = 0;
+		return -ENOMEM;
+	}
+
 	p->htable2 = NULL;
 	p->htable4 = NULL;
 	p->htable8 = NULL;
-- 
2.43.0


From d1e29755c47a600338bf26155a9e934510003de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:54:25 +0000
Subject: [PATCH 12/15] fix: cl.h: declare the parameters of
 CLDeviceDecompressor::decompress in the order they are used

---
 include/lib842/cl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lib842/cl.h b/include/lib842/cl.h
index 9e63fe3..e1be12a 100644
--- a/include/lib842/cl.h
+++ b/include/lib842/cl.h
@@ -121,8 +121,8 @@ public:
 			const cl::Buffer &outputBuffer,
 			size_t outputOffset,
 			const cl::Buffer &outputChunkSizes,
-			const cl::Buffer &returnValues,
 			const cl::Buffer &chunkShuffleMap,
+			const cl::Buffer &returnValues,
 			const cl::vector<cl::Event> *events = nullptr,
 			cl::Event *event = nullptr) const;
 
-- 
2.43.0


From db04e4427778439cced561199d2dd7a3f5d1b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:21 +0000
Subject: [PATCH 13/15] fix: OpenCL: an unusable program cache must not prevent
 the decompressor from being used

---
 src/ocl/cl842decompress.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 3a2582c..05a9e5c 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -226,7 +226,8 @@ void CLDeviceDecompressor::buildProgram(
 	cl::Program::Binaries binaries;
 	try {
 		binaries = cache.find();
-	} catch (const std::ifstream::failure &) {
+	} catch (const std::exception &) {
+		// Not readable, or malformed (e.g. with absurd lengths)
 		m_debug_logger()
 			<< "Could not read lib842's OpenCL program cache, regenerating"
 			<< std::endl;
@@ -260,7 +261,14 @@ void CLDeviceDecompressor::buildProgram(
 		throw;
 	}
 #ifdef LIB842_CLDECOMPRESS_USE_PROGRAM_CACHE
-	cache.set(m_program.getInfo<CL_PROGRAM_BINARIES>());
+	auto programBinaries = m_program.getInfo<CL_PROGRAM_BINARIES>();
+	try {
+		cache.set(programBinaries);
+	} catch (const std::ofstream::failure &) {
+		m_debug_logger()
+			<< "Could not write lib842's OpenCL program cache"
+			<< std::endl;
+	}
 #endif
 }
 
-- 
2.43.0


From ffd9e108b9257b5936a457bf0cf6008e890ad984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:21 +0000
Subject: [PATCH 14/15] fix: cl842_decompress: do not let exceptions other than
 cl::Error out of the C API

---
 src/ocl/cl842decompress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index 05a9e5c..b393867 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -477,7 +477,7 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 		int ret;
 		decompressor.decompress(in, ilen, &ilen, out, *olen, olen, nullptr, &ret, nullptr);
 		return ret;
-	} catch (const cl::Error &) {
+	} catch (...) {
 		// Not a great error value, but we shouldn't let C++ exceptions
 		// propagate out from the C API
 		return -ENOMEM;
-- 
2.43.0


From 532dbd038ee6717ee3ea73c67909208f59e998b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:41:49 +0000
Subject: [PATCH 15/15] fix: cl842_decompress: never split the input into
 several chunks

---
 src/ocl/cl842decompress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ocl/cl842decompress.cpp b/src/ocl/cl842decompress.cpp
index b393867..5067121 100644
--- a/src/ocl/cl842decompress.cpp
+++ b/src/ocl/cl842decompress.cpp
@@ -471,7 +471,7 @@ int cl842_decompress(const uint8_t *in, size_t ilen,
 {
 	try {
 		static lib842::CLHostDecompressor decompressor(
-			65536, 99999 /* Doesn't matter */,
+			65536, static_cast<size_t>(1) << 48 /* Always a single chunk */,
 			lib842::CLDecompressorInputFormat::ALWAYS_COMPRESSED_CHUNKS,
 			true, false);
 		int ret;
-- 
2.43.0

