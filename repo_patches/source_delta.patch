From 3034bccfdd4d97234bc64f766f45122c73e3de9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 01/56] fix: decompress frames whose size is a multiple of the
 superblock size

---
 stenos/internal/stenos.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 524d348..6b096f0 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1114,6 +1114,9 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Compute superblock count
 	size_t super_block_remaining = decompressed % opts->superblock_size;
 	size_t super_block_count = decompressed / opts->superblock_size + (super_block_remaining ? 1 : 0);
+	if (super_block_remaining == 0)
+		// The last superblock is a full one
+		super_block_remaining = opts->superblock_size;
 
 	if (opts->threads <= 1 || super_block_count == 1) {
 		// Mono thread decompression
-- 
2.43.0


From 1f6b0e714b4a8f83e0201d89094154bd2e6e2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 02/56] fix: write the superblock size exactly when the header
 shift announces it

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 6b096f0..63af7db 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -865,7 +865,7 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 	stenos::write_uint64_7(dst, bytes);
 	dst += 7;
 
-	if (opts->custom_blocksize_shift != STENOS_NO_BLOCK_SHIFT) {
+	if (opts->shift == 255) {
 		// Write custom superblock size
 		if STENOS_UNLIKELY (dst + 4 > dst_end)
 			return STENOS_ERROR_DST_OVERFLOW;
-- 
2.43.0


From cd22146b62d20c2d0b55d2520a36cbb4579ecd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 03/56] fix: stenos_get_info rejects an invalid bytesoftype
 instead of dividing by zero

---
 stenos/internal/stenos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 63af7db..5d254df 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1042,6 +1042,8 @@ size_t stenos_get_info(const void* _src, size_t bytesoftype, size_t bytes, steno
 		src += 4;
 	}
 	else {
+		if STENOS_UNLIKELY (bytesoftype == 0 || bytesoftype >= STENOS_MAX_BYTESOFTYPE)
+			return STENOS_ERROR_INVALID_BYTESOFTYPE;
 		info->superblock_size = stenos::super_block_size(bytesoftype * 256) << shift;
 	}
 
-- 
2.43.0


From 0f651c46ed020eea8bfe7983c1c3cee41b00e1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 04/56] fix: reject frames announcing a null superblock size

---
 stenos/internal/stenos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 5d254df..c52b611 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1103,6 +1103,8 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			return STENOS_ERROR_SRC_OVERFLOW;
 		superblock_size = stenos::read_LE_32(src);
 		src += 4;
+		if STENOS_UNLIKELY (superblock_size == 0)
+			return STENOS_ERROR_INVALID_INPUT;
 	}
 	else
 		// Default superblock size
-- 
2.43.0


From 6be4f79ce847ce5ab082cc07958723f9e1f28853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 05/56] fix: stenos_reset_context resets the custom block size

---
 stenos/internal/stenos.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index c52b611..b87bad7 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -244,11 +244,8 @@ void stenos_destroy_context(stenos_context* ctx)
 
 void stenos_reset_context(stenos_context* ctx)
 {
-	if (ctx) {
-		ctx->level = 1;
-		ctx->threads = 1;
-		ctx->t.nanoseconds = 0;
-	}
+	if (ctx)
+		ctx->reset_parameters();
 }
 
 size_t stenos_set_level(stenos_context* ctx, int level)
-- 
2.43.0


From 88d21db90a97fe0b98ce024c41b07405cd572335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 06/56] fix: limit the default superblock size for big types

---
 stenos/internal/stenos.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index b87bad7..56f2c90 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -139,6 +139,8 @@ struct stenos_context_s
 				new_superblock_size = stenos::super_block_size(block_size);
 				if (bytes > new_superblock_size) {
 					shift = (9 - 1) / 2;
+					while (shift && (new_superblock_size << (size_t)shift) >= STENOS_MAX_BLOCK_BYTES)
+						--shift;
 					new_superblock_size = new_superblock_size << (size_t)shift;
 				}
 			}
@@ -159,6 +161,8 @@ struct stenos_context_s
 				new_superblock_size = stenos::super_block_size(block_size);
 				if (bytes > new_superblock_size) {
 					shift = level ? (level - 1) / 2 : 0;
+					while (shift && (new_superblock_size << (size_t)shift) >= STENOS_MAX_BLOCK_BYTES)
+						--shift;
 					new_superblock_size = new_superblock_size << (size_t)shift;
 				}
 			}
-- 
2.43.0


From cf2c9abc55af7869fb0a2e00d5c352a9fb57dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 07/56] fix: stenos_make_context returns NULL when the
 allocation fails

---
 stenos/internal/stenos.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 56f2c90..9aee0ca 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -235,6 +235,8 @@ struct stenos_context_s
 stenos_context* stenos_make_context()
 {
 	stenos_context* ctx = (stenos_context*)malloc(sizeof(stenos_context_s));
+	if STENOS_UNLIKELY (!ctx)
+		return nullptr;
 	return new (ctx) stenos_context_s();
 }
 
-- 
2.43.0


From 5b4e68f140db22bb28a7923cdf7748465255d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 08/56] fix: report the failure to allocate a pool task

---
 stenos/internal/tiny_pool.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 5768792..94bee07 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -84,8 +84,9 @@ namespace stenos
 
 				// Allocate
 				TaskBuffer* res = (TaskBuffer*)malloc(s + sizeof(TaskBuffer));
-				if (res)
-					new (res) TaskBuffer{ nullptr, s };
+				if (!res)
+					return nullptr;
+				new (res) TaskBuffer{ nullptr, s };
 				return res->data();
 			}
 
@@ -179,6 +180,8 @@ namespace stenos
 			{
 				try {
 					Task<U>* t = (Task<U>*)allocate_task(sizeof(Task<U>));
+					if (!t)
+						return nullptr;
 					return new (t) Task<U>(std::forward<U>(u));
 				}
 				catch (...) {
-- 
2.43.0


From 0c69f216b9e75830353cac424cb8b1d9ddadefe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 09/56] fix: check the source size before decoding a copied
 block

---
 stenos/internal/block_compress.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 7e0f42a..8207657 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1822,6 +1822,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
@@ -2117,6 +2119,8 @@ namespace stenos
 
 			if (*anchor == __STENOS_BLOCK_COPY) {
 				src = anchor + 1;
+				if STENOS_UNLIKELY ((size_t)(end - src) < block_size)
+					return STENOS_ERROR_SRC_OVERFLOW;
 				memcpy(dst, src, block_size);
 				src += block_size;
 				continue;
-- 
2.43.0


From 4118720f242415f9f94dfc3d8dae8b57b161f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 10/56] fix: do not read one byte past the source when decoding
 a RLE row

---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 8207657..a5054c8 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1957,7 +1957,7 @@ namespace stenos
 			uint8_t has_first;
 			if STENOS_UNLIKELY (remaining < 16) {
 				has_first = (mask & 1);
-				memcpy(&buff, src - (mask & 1), remaining + 1);
+				memcpy(&buff, src - (mask & 1), remaining + (mask & 1));
 			}
 			else {
 				has_first = (mask & 1);
-- 
2.43.0


From 7e50c5942a851a06ad0ea73d40e81591d1007390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 11/56] fix: check for the source end in the generic row
 decoder

---
 stenos/internal/block_compress.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index a5054c8..2dd42d0 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1684,7 +1684,11 @@ namespace stenos
 			uint32_t lines2 = lines & (~1u);
 			for (uint32_t i = 0; i < lines2; i += 2) {
 				src = decode_line(headers[i], src, end, dst, i, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 				src = decode_line(headers[i + 1], src, end, dst, i + 1, inner_stride, outer_stride, mins);
+				if STENOS_UNLIKELY (!src)
+					return nullptr;
 			}
 			if (lines != lines2) {
 				src = decode_line(headers[lines2], src, end, dst, lines2, inner_stride, outer_stride, mins);
@@ -1728,6 +1732,9 @@ namespace stenos
 							      const uint8_t* STENOS_RESTRICT end,
 							      uint32_t lines = 16) noexcept
 		{
+			if STENOS_UNLIKELY (end - src < (ptrdiff_t)(lines / 2 + (lines & 1)))
+				return nullptr;
+
 			// read compressed mins
 			vector16 headers, mins;
 			auto lines2 = lines & (~1u);
-- 
2.43.0


From d2c88e94c009dcdf0ea4a2256b5b3ee6e81f5145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 12/56] fix: validate match offsets in the LZ decoder

---
 stenos/internal/lz_compress.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/lz_compress.h b/stenos/internal/lz_compress.h
index fcdb889..24fb65e 100644
--- a/stenos/internal/lz_compress.h
+++ b/stenos/internal/lz_compress.h
@@ -255,13 +255,16 @@ namespace stenos
 			for (uint8_t j = 0; j < 8; ++j) {
 				if ((anchor >> j) & 1) {
 					// Copy Bytes from offset in dst
+					if STENOS_UNLIKELY (in == end)
+						return nullptr;
 					uint16_t offset = *in & 127U;
 					if (*in++ > 127U) {
 						if STENOS_UNLIKELY (in == end)
 							return nullptr;
 						offset |= ((*in++) << 7U);
 					}
-					STENOS_ASSERT_DEBUG(dst - offset * Bytes >= _dst, "");
+					if STENOS_UNLIKELY (offset == 0 || (size_t)(dst - _dst) < (size_t)offset * Bytes)
+						return nullptr;
 					dst = inline_memcpy<Bytes>(dst, dst - offset * Bytes);
 				}
 				else {
-- 
2.43.0


From 8e2049b2c4564682134cf682c7fa959a9ecb8922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 13/56] fix: size of the partial block compression buffer

---
 stenos/internal/block_compress.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index 2dd42d0..df3cf42 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -319,15 +319,15 @@ namespace stenos
 				buffer = align_buffer(buffer);
 				this->arrays = reinterpret_cast<vector256*>(buffer);
 				this->partial_buffer = static_cast<char*>(buffer) + 256 * bytesoftype;
-				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 256 * bytesoftype + 256);
-				this->firsts = (static_cast<char*>(buffer) + 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype);
+				this->packs = reinterpret_cast<PackBits*>(static_cast<char*>(buffer) + 512 * bytesoftype);
+				this->firsts = (static_cast<char*>(buffer) + 512 * bytesoftype + sizeof(PackBits) * bytesoftype);
 			}
 		};
 
 		// Size of internal compression buffer for given bytesoftype
 		static STENOS_ALWAYS_INLINE size_t compression_buffer_size(size_t bytesoftype) noexcept
 		{
-			return 256 * bytesoftype + 256 + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
+			return 512 * bytesoftype + sizeof(PackBits) * bytesoftype + bytesoftype + 16; // Add 16 for alignment
 		}
 
 		// Bit scan reverse on 2 * 16 bytes
-- 
2.43.0


From 7f9a539a7811b1df4f266002eed7e28ba76447d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 14/56] fix: an empty block stream is an error when bytes are
 expected

---
 stenos/internal/block_compress.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index df3cf42..f553cba 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1803,8 +1803,10 @@ namespace stenos
 
 	static STENOS_ALWAYS_INLINE size_t block_decompress(const void* STENOS_RESTRICT _src, size_t size, size_t bytesoftype, size_t bytes, void* STENOS_RESTRICT _dst) noexcept
 	{
-		if STENOS_UNLIKELY (bytes == 0 || size == 0)
+		if STENOS_UNLIKELY (bytes == 0)
 			return 0;
+		if STENOS_UNLIKELY (size == 0)
+			return STENOS_ERROR_SRC_OVERFLOW;
 
 		const uint8_t* src = static_cast<const uint8_t*>(_src);
 		const uint8_t* saved = src;
@@ -2096,8 +2098,10 @@ namespace stenos
 
 	static STENOS_ALWAYS_INLINE size_t block_decompress_sse(const void* STENOS_RESTRICT _src, size_t size, size_t bytesoftype, size_t bytes, void* STENOS_RESTRICT _dst) noexcept
 	{
-		if STENOS_UNLIKELY (bytes == 0 || size == 0)
+		if STENOS_UNLIKELY (bytes == 0)
 			return 0;
+		if STENOS_UNLIKELY (size == 0)
+			return STENOS_ERROR_SRC_OVERFLOW;
 
 		const uint8_t* src = static_cast<const uint8_t*>(_src);
 		const uint8_t* saved = src;
-- 
2.43.0


From cca764fb08192a5213724d94259f2409cb952f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 15/56] fix: reject zstd superblocks that do not decompress to
 the expected size

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 9aee0ca..b0f9ce7 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -697,7 +697,7 @@ namespace stenos
 			case STENOS_FRAME_HEADER_ZSTD: {
 				// Direct zstd compression
 				auto r = ZSTD_decompress(dst, dsize, src, csize);
-				if STENOS_UNLIKELY (ZSTD_isError(r))
+				if STENOS_UNLIKELY (ZSTD_isError(r) || r != dsize)
 					return STENOS_ERROR_INVALID_INPUT;
 			} break;
 			case STENOS_FRAME_HEADER_TRANSPOSED_ZSTD: {
-- 
2.43.0


From 1671a862345e4b8155f83c2130844e45c843f01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 16/56] fix: inverse delta of less than a vector of bytes

---
 stenos/internal/delta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/delta.cpp b/stenos/internal/delta.cpp
index 0ce4ded..a37f640 100644
--- a/stenos/internal/delta.cpp
+++ b/stenos/internal/delta.cpp
@@ -299,7 +299,7 @@ namespace stenos
 				dst += 16;
 			}
 			while (src < end) {
-				*dst = dst[-1] + *src;
+				*dst = (src == (const char*)_src ? 0 : dst[-1]) + *src;
 				++src;
 				++dst;
 			}
@@ -406,7 +406,7 @@ namespace stenos
 				dst += 32;
 			}
 			while (src < end) {
-				*dst = dst[-1] + *src;
+				*dst = (src == (const char*)_src ? 0 : dst[-1]) + *src;
 				++src;
 				++dst;
 			}
-- 
2.43.0


From a25700572b8f1a0010382a10a9def1779e86cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 17/56] fix: initialize the LZ hash table

---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index f553cba..bfc4860 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -1208,7 +1208,7 @@ namespace stenos
 
 			// Test LZ compression for level 2
 			if (level == 2 && bytesoftype % 4 == 0 && full_size * 3 > block_size) {
-				uint16_t buffer[256];
+				uint16_t buffer[256] = { 0 };
 
 				// To avoid dst overflow, we need at least 8 * bytesoftype + 1 bytes above full_size
 				if STENOS_UNLIKELY (dst_end > dst + (full_size + bytesoftype * 8u + 2u)) { // add one byte for __STENOS_BLOCK_LZ
-- 
2.43.0


From 74457632fc4654fc39e5d7b661e61189034647b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 18/56] fix: an expired time limit must not affect later
 compressions with the same context

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index b0f9ce7..2984843 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -179,9 +179,9 @@ struct stenos_context_s
 		}
 
 		// Initialize the time constraint
+		t.finish_memcpy.store(false);
 		if (t.nanoseconds) {
 			t.total_bytes = bytes;
-			t.finish_memcpy.store(false);
 			t.processed_bytes.store(0);
 			t.timer.tick();
 		}
-- 
2.43.0


From 426daac1527dd98b5e007f3540021f91b47fd188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 19/56] fix: integer overflow for a high thread count and a
 time limit

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 2984843..d3d5bfa 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -125,7 +125,7 @@ struct stenos_context_s
 
 		if (t.nanoseconds) {
 			// try to have at least thread * 32 super block
-			size_t required_superblock_count = threads * 32;
+			size_t required_superblock_count = (size_t)threads * 32;
 			size_t required_superblock_size = bytes / required_superblock_count;
 
 			size_t block_count = required_superblock_size / block_size;
-- 
2.43.0


From d85d43853dab7a2498420212f8c9738deb50716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 20/56] fix: keep the context consistent when the allocation of
 its buffers fails

---
 stenos/internal/stenos.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index d3d5bfa..9aa3344 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -193,9 +193,10 @@ struct stenos_context_s
 		// Ensure that we have the requested number of buffers
 		try {
 			if (thread_buffers.size() < (size_t)size) {
-				thread_buffers.resize((size_t)size, nullptr);
-				tmp_buffers1.resize((size_t)size, nullptr);
+				// thread_buffers is the last one as its size tells if all vectors are ready
 				tmp_buffers2.resize((size_t)size, nullptr);
+				tmp_buffers1.resize((size_t)size, nullptr);
+				thread_buffers.resize((size_t)size, nullptr);
 			}
 		}
 		catch (...) {
-- 
2.43.0


From 4c816816c02621edf07edd77887602bb9495e351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 21/56] fix: no exception leaves stenos_decompress_generic

---
 stenos/internal/stenos.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 9aa3344..c7e0866 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1162,7 +1162,13 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	// Multithread decompression
 
 	const int threads = (int)std::min((size_t)opts->threads, super_block_count);
-	std::vector<Block> blocks((size_t)threads);
+	std::vector<Block> blocks;
+	try {
+		blocks.resize((size_t)threads);
+	}
+	catch (...) {
+		return STENOS_ERROR_ALLOC;
+	}
 	if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(threads)))
 		return STENOS_ERROR_ALLOC;
 
-- 
2.43.0


From 616c6c086afac3873d3abc9e72fff091c67d43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 22/56] fix: wait for queued tasks before returning an error

---
 stenos/internal/stenos.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index c7e0866..535b536 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -964,8 +964,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 							    opts->t.processed_bytes.fetch_add(in_size);
 					    }
 				    }
-			    }))
+			    })) {
+				// Wait for the tasks already in the queue
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
@@ -1002,8 +1005,11 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 					    else {
 						    memcpy(opts->thread_buffers[i]->dst, opts->thread_buffers[i]->bytes, opts->thread_buffers[i]->dst_size);
 					    }
-				    }))
+				    })) {
+					// Wait for the tasks already in the queue
+					stenos::pool->wait();
 					return STENOS_ERROR_ALLOC;
+				}
 			}
 			stenos::pool->wait();
 
@@ -1203,8 +1209,11 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			if (!stenos::pool->push([&, i]() {
 				    Block& bl = blocks[(size_t)i];
 				    bl.ret = stenos::decompress_generic_superblock(opts, bl.code, bl.src, bytesoftype, bl.csize, bl.dst, bl.dsize, opts->thread_buffers[(size_t)i]);
-			    }))
+			    })) {
+				// Wait for the tasks already in the queue
+				stenos::pool->wait();
 				return STENOS_ERROR_ALLOC;
+			}
 		}
 		stenos::pool->wait();
 
-- 
2.43.0


From f7ef1da04a990bfd0680b74497b45d34b742af96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 23/56] fix: lost wake up with several threads waiting for the
 pool

---
 stenos/internal/tiny_pool.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 94bee07..7c80e6f 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -235,7 +235,7 @@ namespace stenos
 		detail::TaskList list;
 		std::vector<std::thread> threads;
 		bool finish = false;
-		bool waiting = false;
+		unsigned waiting = 0; // number of threads inside wait()
 		unsigned processing = 0;
 
 		void do_work() noexcept
@@ -287,9 +287,9 @@ namespace stenos
 		void wait() noexcept
 		{
 			std::unique_lock<std::mutex> lock(mutex);
-			waiting = true;
+			++waiting;
 			wait_condition.wait(lock, [this] { return (this->processing == 0) && this->list.empty(); });
-			waiting = false;
+			--waiting;
 		}
 
 		template<class U>
-- 
2.43.0


From ae51ede6d243ec41e7fd67a3be4c968c5fb4110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 24/56] fix: do not read the pool state without lock

---
 stenos/internal/tiny_pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index 7c80e6f..dcacb07 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -240,7 +240,7 @@ namespace stenos
 
 		void do_work() noexcept
 		{
-			while (!finish) {
+			for (;;) {
 				std::unique_lock<std::mutex> lock(mutex);
 				--processing;
 
-- 
2.43.0


From 0e5fb98277f37678eb09233c5ab1fe6e5345f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:55 +0000
Subject: [PATCH 25/56] fix: retry the allocation of the thread local
 compression buffer after a failure

---
 stenos/internal/block_compress.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/block_compress.h b/stenos/internal/block_compress.h
index bfc4860..d153254 100644
--- a/stenos/internal/block_compress.h
+++ b/stenos/internal/block_compress.h
@@ -939,7 +939,7 @@ namespace stenos
 			if (buf.buffer)
 				stenos::aligned_free(buf.buffer);
 			buf.buffer = stenos::aligned_malloc(size, 16);
-			buf.size = size;
+			buf.size = buf.buffer ? size : 0;
 		}
 		return buf.buffer;
 	}
-- 
2.43.0


From 91f53acc4f525a66d3b71d2e1e80a9a08d673523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 26/56] fix: start one thread when the hardware concurrency is
 unknown

---
 stenos/internal/tiny_pool.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index dcacb07..ade96b6 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -263,14 +263,10 @@ namespace stenos
 	public:
 		// Constructor, only function that might throw
 		tiny_pool(unsigned nthreads)
-		  : threads(nthreads)
-		  , processing(nthreads)
+		  : threads(nthreads ? nthreads : 1)
+		  , processing(nthreads ? nthreads : 1)
 		{
-			if (nthreads == 0) {
-				processing = 1;
-				threads.resize(1);
-			}
-			for (unsigned i = 0; i < nthreads; ++i)
+			for (size_t i = 0; i < threads.size(); ++i)
 				threads[i] = std::thread([this]() { this->do_work(); });
 		}
 		~tiny_pool() noexcept
-- 
2.43.0


From 7bf03bcfe03beb7be7fadb2bdf35b4babf922072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 27/56] fix: use after free and ABA in the pool task allocator

---
 stenos/internal/tiny_pool.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/stenos/internal/tiny_pool.h b/stenos/internal/tiny_pool.h
index ade96b6..3197456 100644
--- a/stenos/internal/tiny_pool.h
+++ b/stenos/internal/tiny_pool.h
@@ -52,7 +52,8 @@ namespace stenos
 		struct TaskAllocation
 		{
 
-			std::atomic<TaskBuffer*> first{ nullptr };
+			std::mutex mutex;
+			TaskBuffer* first{ nullptr };
 
 			~TaskAllocation() noexcept
 			{
@@ -64,9 +65,10 @@ namespace stenos
 			TaskBuffer* pop() noexcept
 			{
 				// Extract a buffer from the list
-				auto f = first.load(std::memory_order_relaxed);
-				while (f && !first.compare_exchange_strong(f, f->next))
-					;
+				std::lock_guard<std::mutex> lock(mutex);
+				auto f = first;
+				if (f)
+					first = f->next;
 				return f;
 			}
 
@@ -94,11 +96,9 @@ namespace stenos
 			{
 				// Insert the buffer in the list
 				TaskBuffer* b = (TaskBuffer*)((uint8_t*)p - sizeof(TaskBuffer));
-				auto f = first.load(std::memory_order_relaxed);
-				b->next = f;
-				while (!first.compare_exchange_strong(f, b)) {
-					b->next = f;
-				}
+				std::lock_guard<std::mutex> lock(mutex);
+				b->next = first;
+				first = b;
 			}
 
 			static STENOS_ALWAYS_INLINE TaskAllocation& instance()
-- 
2.43.0


From 506383b761384858740ce9354cd41f55b9e7dddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 28/56] fix: cvector copy assignment to an empty vector and
 exception propagation

---
 stenos/cvector.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a910398..30cec10 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2601,7 +2601,8 @@ namespace stenos
 
 				if STENOS_CONSTEXPR (assign_alloc<Allocator>::value) {
 					if (get_allocator() != other.get_allocator()) {
-						destroy_internal(d_data);
+						if (d_data)
+							destroy_internal(d_data);
 						d_data = nullptr;
 					}
 				}
@@ -2612,19 +2613,15 @@ namespace stenos
 				else {
 					internal_type* tmp = make_internal(get_allocator());
 					try {
-						try {
-							other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
-						}
-						catch (...) {
-							destroy_internal(tmp);
-							throw;
-						}
-						destroy_internal(d_data);
-						d_data = tmp;
+						other.for_each(0, other.size(), [tmp](const T& v) { tmp->push_back(v); });
 					}
 					catch (...) {
 						destroy_internal(tmp);
+						throw;
 					}
+					if (d_data)
+						destroy_internal(d_data);
+					d_data = tmp;
 				}
 			}
 			return *this;
-- 
2.43.0


From c79afff97431f233946d71a680184d6c9bf69888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:11 +0000
Subject: [PATCH 29/56] fix: cvector releases its compression context

---
 stenos/cvector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 30cec10..5d68b0d 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1455,7 +1455,11 @@ namespace stenos
 				stenos_set_level(d_ctx, level);
 			}
 
-			~CompressedVectorInternal() noexcept { clear(); }
+			~CompressedVectorInternal() noexcept
+			{
+				clear();
+				stenos_destroy_context(d_ctx);
+			}
 
 			/// @brief Deallocate compressed memory for given bucket
 			void dealloc_bucket(size_t index) noexcept
-- 
2.43.0


From 6a050f8bc1c45bd84dea8a94e6dcbbfd76e550dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 30/56] fix: cvector serialization of a full last block

---
 stenos/cvector.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 5d68b0d..253c5bf 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -3052,16 +3052,17 @@ namespace stenos
 					// check if last bucket is empty
 					auto* buffer = &d_data->d_buckets.back();
 					auto* raw = buffer->load_decompressed();
-					if (!raw || raw->size == 0)
+					if (raw && raw->size == 0)
 						goto end;
 
 					// check if last bucket is full and compressed
-					if (raw->size == block_size && raw->buffer) {
-						size_t csize = stenos_private_block_csize(raw->buffer);
+					if (!raw || (raw->size == block_size && raw->buffer && !raw->dirty)) {
+						char* compressed = buffer->data.find_compressed();
+						size_t csize = stenos_private_block_csize(compressed);
 						if STENOS_UNLIKELY (dst + csize > dst_end)
 							return STENOS_ERROR_DST_OVERFLOW;
 
-						memcpy(dst, raw->buffer, csize);
+						memcpy(dst, compressed, csize);
 						dst += csize;
 						goto end;
 					}
@@ -3263,12 +3264,13 @@ namespace stenos
 				// check if last bucket is empty
 				auto* buffer = &d_data->d_buckets.back();
 				auto* raw = buffer->data.raw();
-				if (!raw || raw->size == 0)
+				if (raw && raw->size == 0)
 					goto end;
 
 				// check if last bucket is full and compressed
-				if (raw->size == block_size && raw->buffer) {
-					oss.write((char*)raw->buffer, stenos_private_block_csize(raw->buffer));
+				if (!raw || (raw->size == block_size && raw->buffer && !raw->dirty)) {
+					char* compressed = buffer->data.find_compressed();
+					oss.write(compressed, stenos_private_block_csize(compressed));
 					if STENOS_UNLIKELY (!oss)
 						return STENOS_ERROR_DST_OVERFLOW;
 					goto end;
-- 
2.43.0


From 2d9123d002db6c99c18cc01e1de7eaed728eaa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 31/56] fix: keep modifications of cvector::for_each when it
 stops early or throws

---
 stenos/cvector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 253c5bf..c5b8580 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2303,6 +2303,8 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// the functor might modify values and then stop or throw
+					cur->mark_dirty(this);
 					remaining -= to_process;
 					size_t en = pos + to_process;
 					for (size_t p = pos; p != en; ++p, ++res)
@@ -2310,7 +2312,6 @@ namespace stenos
 							return res;
 					pos = 0;
 					++bindex;
-					cur->mark_dirty(this);
 				}
 				return res;
 			}
@@ -2367,12 +2368,13 @@ namespace stenos
 					if (!cur) {
 						cur = this->decompress_bucket(bindex);
 					}
+					// the functor might modify values and then stop or throw
+					cur->mark_dirty(this);
 					difference_type low = bindex == first_bucket ? first_index : 0;
 					difference_type high = bindex == last_bucket ? last_index : static_cast<difference_type>(block_size - 1);
 					for (difference_type i = high; i >= low; --i, ++res)
 						if (!eval_functor(std::forward<Functor>(fun), cur->at((unsigned)i)))
 							return res;
-					cur->mark_dirty(this);
 				}
 
 				return res;
-- 
2.43.0


From bea62dbe31587f12939c02cc4ca09ae5c259ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 32/56] fix: cvector unused decompression contexts do not
 reference any block

---
 stenos/cvector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index c5b8580..2564df0 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -702,7 +702,7 @@ namespace stenos
 			RawBuffer<T, block_size>* res = reinterpret_cast<RawBuffer<T, block_size>*>(al.allocate(sizeof(RawBuffer<T, block_size>)));
 			res->size = 0;
 			res->dirty = 0;
-			res->block_index = 0;
+			res->block_index = RawBuffer<T, block_size>::invalid_index;
 			res->buffer = nullptr;
 			res->left = res->right = nullptr;
 			return res;
@@ -1847,16 +1847,16 @@ namespace stenos
 				if (d_buckets.empty() || d_buckets.back().data.compressed()) {
 					// no buckets or the back buffer is compressed, create a new one
 					RawType* raw = make_or_find_free_context();
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
+					raw->mark_dirty();
 					raw->block_index = d_buckets.size() - 1;
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
 					RawType* raw = compress_bucket(d_buckets.size() - 1);
-					raw->mark_dirty();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
+					raw->mark_dirty();
 					raw->block_index = d_buckets.size() - 1;
 				}
 			}
-- 
2.43.0


From 8deb0ffb030827732aef55bc01cb507e5613ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:41 +0000
Subject: [PATCH 33/56] fix: dereferencing a cvector reverse iterator returned
 a dangling reference

---
 stenos/cvector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 2564df0..a1413bd 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1087,8 +1087,8 @@ namespace stenos
 		public:
 			using T = typename Compressed::value_type;
 			using value_type = ValueWrapper<T>;
-			using reference = ref_type;
-			using const_reference = const_ref_type&;
+			using reference = const_ref_type;
+			using const_reference = const_ref_type;
 			using pointer = const T*;
 			using const_pointer = const T*;
 			using difference_type = typename Compressed::difference_type;
@@ -1159,7 +1159,7 @@ namespace stenos
 				return it;
 			}
 
-			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> const_reference
+			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> const_ref_type&
 			{
 				STENOS_ASSERT_DEBUG(this->abspos >= 0 && this->abspos < static_cast<difference_type>(this->c()->size()), "attempt to dereference an invalid iterator");
 				if (!is_valid())
@@ -1205,8 +1205,8 @@ namespace stenos
 			using ref_type = typename Compressed::ref_type;
 			using const_ref_type = typename Compressed::const_ref_type;
 			using value_type = typename base_type::value_type;
-			using reference = ref_type&;
-			using const_reference = const_ref_type&;
+			using reference = ref_type; // not a C++ reference: std::reverse_iterator dereferences a temporary iterator
+			using const_reference = const_ref_type;
 			using pointer = value_type*;
 			using const_pointer = const value_type*;
 			using difference_type = typename Compressed::difference_type;
@@ -1234,7 +1234,7 @@ namespace stenos
 				base_type::operator=(static_cast<const base_type>(other));
 				return *this;
 			}
-			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> reference { return reinterpret_cast<reference>(const_cast<this_type*>(this)->base_type::operator*()); }
+			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> ref_type& { return reinterpret_cast<ref_type&>(const_cast<this_type*>(this)->base_type::operator*()); }
 			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const_pointer { return base_type::operator->(); }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedIter&
 			{
-- 
2.43.0


From 407673a7eeb8c277af05dc8d356910f41ccf534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 34/56] fix: cvector::compression_ratio does not compile

---
 stenos/cvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index a1413bd..741c913 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1577,8 +1577,8 @@ namespace stenos
 				decompressed_size *= block_size * sizeof(T);
 				size_t compress_size = 0;
 				for (size_t i = 0; i < d_buckets.size(); ++i)
-					if (d_buckets[i].buffer)
-						compress_size += stenos_private_block_csize(d_buckets[i].data.find_compressed());
+					if (auto buf = d_buckets[i].data.find_compressed())
+						compress_size += stenos_private_block_csize(buf);
 				return (compress_size && decompressed_size) ? decompressed_size / static_cast<float>(compress_size) : 0.f;
 			}
 
-- 
2.43.0


From 2dafe3c0e9cff681d144dde7edb1d44996ef1daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 35/56] fix: cvector constructors release their memory when an
 element or an allocation throws

---
 stenos/cvector.hpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 741c913..cb6b1fb 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2504,8 +2504,7 @@ namespace stenos
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		cvector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2513,8 +2512,7 @@ namespace stenos
 		/// @param count new cvector size
 		/// @param alloc allocator object
 		explicit cvector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			resize(count);
 		}
@@ -2528,11 +2526,9 @@ namespace stenos
 		/// @param other other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allcoator object
 		cvector(const cvector& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(nullptr)
+		  : cvector(alloc)
 		{
 			if (other.size()) {
-				d_data = make_internal(alloc);
 				// calling push_back is faster than resize + copy
 				other.for_each(0, other.size(), [this](const T& v) { this->push_back(v); });
 			}
@@ -2550,8 +2546,7 @@ namespace stenos
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		cvector(cvector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_data, other.d_data);
@@ -2568,8 +2563,7 @@ namespace stenos
 		/// @param alloc allocator object
 		template<class Iter, detail::IfIsInputIterator<Iter> = true>
 		cvector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_data(make_internal(alloc))
+		  : cvector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From 085325c7b04929258eec4c63671ee02a15b281e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 36/56] fix: cvector::insert at a position does not compile

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index cb6b1fb..6abd18e 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2782,7 +2782,7 @@ namespace stenos
 
 		/// @brief Inserts count copies of the value before pos
 		/// Basic exception guarantee.
-		void insert(size_type pos, size_type count, const T& value) { insert(pos, cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
+		void insert(size_type pos, size_type count, const T& value) { insert(cbegin() + static_cast<difference_type>(pos), cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
 
 		/// @brief Inserts count copies of the value before pos
 		/// @return Iterator pointing to the first element inserted, or it if count==0
-- 
2.43.0


From f55f42f66cf9e58680827a857fd2af45673825bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 37/56] fix: stenos_bound covers custom block sizes

---
 stenos/stenos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/stenos.h b/stenos/stenos.h
index bb0957c..c9b4f15 100644
--- a/stenos/stenos.h
+++ b/stenos/stenos.h
@@ -36,7 +36,7 @@ namespace stenos
 	*/
 	inline constexpr size_t compress_bound(size_t bytes)
 	{
-		constexpr size_t min_superblock_size = 65792; /* Minimum superblock size, for bytesoftype 257*/
+		constexpr size_t min_superblock_size = 256; /* Minimum superblock size, for bytesoftype 1 and a custom block size of shift 0*/
 		size_t super_block_count = bytes / min_superblock_size + (bytes % min_superblock_size ? 1 : 0);
 		return 12 + (super_block_count == 0 ? 1 : super_block_count) * 4 + bytes;
 	}
-- 
2.43.0


From 334586a5c74324be6f7ecce887f276a851d5e52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:05 +0000
Subject: [PATCH 38/56] fix: SSE2 unshuffle of 12 byte elements stored bytes
 4..15 of every 16th element

---
 stenos/internal/shuffle-sse2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/shuffle-sse2.cpp b/stenos/internal/shuffle-sse2.cpp
index 9644f40..fb64915 100644
--- a/stenos/internal/shuffle-sse2.cpp
+++ b/stenos/internal/shuffle-sse2.cpp
@@ -378,7 +378,7 @@ static void unshuffle12_sse2(uint8_t* const dest, const uint8_t* const src, cons
 	int j;
 	__m128i xmm1[16], xmm2[16];
 
-	__m128i mask = setr_epi8(0x0, 0x0, 0x0, 0x0, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff);
+	__m128i mask = setr_epi8(0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x0, 0x0, 0x0, 0x0);
 
 	for (i = 0; i < vectorizable_elements; i += sizeof(__m128i)) {
 		/* Load 16 elements (256 bytes) into 16 XMM registers. */
-- 
2.43.0


From 19d9e40f3ca1afec93296ec95afec087489e4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:51 +0000
Subject: [PATCH 39/56] fix: for_each with a functor that takes a reference and
 returns a value

---
 stenos/cvector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 6abd18e..dd1762e 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -409,7 +409,7 @@ namespace stenos
 		struct ResultOf
 		{
 			template<class F, class... Args>
-			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args... args)
+			static STENOS_ALWAYS_INLINE bool apply(F&& f, Args&&... args)
 			{
 				return std::forward<F>(f)(std::forward<Args>(args)...);
 			}
-- 
2.43.0


From c055c25f59f3c6de5e7410af2cbcbf1480141165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:35 +0000
Subject: [PATCH 40/56] fix: an empty frame with an incomplete header was
 decompressed

---
 stenos/internal/stenos.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 535b536..3c9cee8 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1100,8 +1100,6 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 	src += 7;
 	if STENOS_UNLIKELY (decompressed > dst_size)
 		return STENOS_ERROR_DST_OVERFLOW;
-	if (decompressed == 0)
-		return 0;
 
 	// Compute superblock size
 	size_t block_size = bytesoftype * 256;
@@ -1120,6 +1118,9 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 		// Default superblock size
 		superblock_size = stenos::super_block_size(block_size) << shift;
 
+	if (decompressed == 0)
+		return 0;
+
 	// Clear buffers
 	if (superblock_size != opts->superblock_size)
 		opts->clear_buffers();
-- 
2.43.0


From 1b068786e24c1a4b814526adf331c08c5f5b422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:37 +0000
Subject: [PATCH 41/56] fix: superblock sizes no frame can have were accepted,
 sizes over 2 GB overflowed in the transposition

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 3c9cee8..8e1937e 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -1111,7 +1111,7 @@ size_t stenos_decompress_generic(stenos_context* opts, const void* _src, size_t
 			return STENOS_ERROR_SRC_OVERFLOW;
 		superblock_size = stenos::read_LE_32(src);
 		src += 4;
-		if STENOS_UNLIKELY (superblock_size == 0)
+		if STENOS_UNLIKELY (superblock_size == 0 || superblock_size >= STENOS_MAX_BLOCK_BYTES)
 			return STENOS_ERROR_INVALID_INPUT;
 	}
 	else
-- 
2.43.0


From b50e2b695a9bad5655df666ca5127317d6ba7af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:45 +0000
Subject: [PATCH 42/56] fix: cvector removed a block and corrupted its state
 when a compressed buffer could not be allocated

---
 stenos/cvector.hpp | 36 +++++++-----------------------------
 1 file changed, 7 insertions(+), 29 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index dd1762e..e165ae6 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1619,7 +1619,7 @@ namespace stenos
 						size_t r = compress(raw->storage);
 						if (r != stenos_private_block_csize(raw->buffer)) {
 							// Free old buffer, alloc new one, update compressed size, might throw (fine)
-							char* buff = this->allocate_buffer_for_compression((unsigned)r, &d_buckets[index], index, raw);
+							char* buff = this->allocate_buffer_for_compression((unsigned)r);
 
 							if (raw->buffer)
 								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
@@ -1676,37 +1676,16 @@ namespace stenos
 			}
 
 			/// @brief Allocate and return buffer of given size.
-			/// In case of exception, decompress and destroy values, deallocate previous buffer, remove bucket, remove decompression context and rethrow.
-			auto allocate_buffer_for_compression(unsigned size, BucketType* bucket, size_t bucket_index, RawType* context) -> char*
+			/// In case of exception, unlock the given context (if any) and rethrow: buckets, contexts and values are unchanged.
+			auto allocate_buffer_for_compression(unsigned size, RawType* locked = nullptr) -> char*
 			{
 				char* buff = nullptr;
 				try {
 					buff = RebindAlloc<char>(*this).allocate(size); //(char*)malloc(r);
 				}
 				catch (...) {
-					// unlock bucket
-					unlock(context);
-					// deallocate
-					if (bucket->data) {
-						// first destroy values
-						char* buffer = bucket->data.find_compressed();
-						if (!std::is_trivially_destructible<T>::value) {
-							context->size = block_size;
-							this->decompress(bucket, context->storage);
-							context->clear_values();
-						}
-						RebindAlloc<char>(*this).deallocate(buffer, stenos_private_block_csize(buffer));
-					}
-					// remove context
-					erase_context(context);
-					// remove bucket
-					d_buckets.erase(d_buckets.begin() + static_cast<difference_type>(bucket_index));
-
-					// update indexes
-					for (size_t i = bucket_index; i < d_buckets.size(); ++i)
-						if (auto raw = d_buckets[i].load_decompressed())
-							raw->block_index = i;
-
+					if (locked)
+						unlock(locked);
 					throw;
 				}
 				return buff;
@@ -1765,7 +1744,6 @@ namespace stenos
 
 				RawType* found_raw = *found;
 				BucketType* found_bucket = (*found)->block_index == RawType::invalid_index ? nullptr : &d_buckets[(*found)->block_index];
-				size_t saved_index = (*found)->block_index;
 
 				// Compress context if dirty
 				if (found_raw->dirty) {
@@ -1776,7 +1754,7 @@ namespace stenos
 
 					if (r != stenos_private_block_csize(found_raw->buffer)) {
 						// Free old memory, alloc new one
-						char* buff = allocate_buffer_for_compression((unsigned)r, found_bucket, saved_index, found_raw);
+						char* buff = allocate_buffer_for_compression((unsigned)r, found_raw);
 						if (found_raw->buffer)
 							RebindAlloc<char>(*this).deallocate(found_raw->buffer, stenos_private_block_csize(found_raw->buffer));
 						found_raw->buffer = buff;
@@ -1829,7 +1807,7 @@ namespace stenos
 				// Compress
 				size_t r = compress(decompressed->storage);
 				if (r != stenos_private_block_csize(decompressed->buffer)) {
-					char* buff = allocate_buffer_for_compression((unsigned)r, bucket, index, decompressed);
+					char* buff = allocate_buffer_for_compression((unsigned)r);
 					if (decompressed->buffer)
 						RebindAlloc<char>(*this).deallocate(decompressed->buffer, stenos_private_block_csize(decompressed->buffer));
 					decompressed->buffer = buff;
-- 
2.43.0


From c9a17bb3c2c9bf1e4aef4a895d4fb9988fcc8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:45 +0000
Subject: [PATCH 43/56] fix: cvector left a block locked forever when freeing
 an additional context failed

---
 stenos/cvector.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index e165ae6..99f6326 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1764,7 +1764,13 @@ namespace stenos
 
 					// Use this opportunity to free another context if possible
 					if (!start && d_contexts.size() > d_buckets.size() / 16) {
-						RawType* raw = find_free_context(exclude, &found);
+						// This is optional: ignore a failure, found_raw is still locked
+						RawType* raw = nullptr;
+						try {
+							raw = find_free_context(exclude, &found);
+						}
+						catch (...) {
+						}
 						if (raw)
 							erase_context(raw);
 					}
-- 
2.43.0


From de03d44bd638d3c99ad090fe311cc98b25ec6eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:58 +0000
Subject: [PATCH 44/56] fix: cvector::shrink_to_fit lost contexts when an
 allocation failed

---
 stenos/cvector.hpp | 41 +++++++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 99f6326..e315ac6 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1588,6 +1588,29 @@ namespace stenos
 			/// @brief Compress dirty blocks and release all unnecessary decompssion contexts
 			void shrink_to_fit()
 			{
+				// Compress all dirty contexts first, as it might throw: the contexts must stay in the list.
+				for (RawType* raw : d_contexts) {
+					// Keep the non full decompression context (back context)
+					if (raw->size > 0 && raw->size < elems_per_block)
+						continue;
+
+					// If the context is dirty, compress it
+					if (raw->dirty) {
+						STENOS_ASSERT_DEBUG(raw->block_index != RawType::invalid_index, "raw block must belong to an existing bucket");
+						// Compress
+						size_t r = compress(raw->storage);
+						if (r != stenos_private_block_csize(raw->buffer)) {
+							// Free old buffer, alloc new one, update compressed size, might throw (fine)
+							char* buff = this->allocate_buffer_for_compression((unsigned)r);
+
+							if (raw->buffer)
+								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
+							raw->buffer = buff;
+						}
+						memcpy(raw->buffer, compression_buffer(), r);
+					}
+				}
+
 				ContextType new_contexts;
 
 				const size_t max_buffers = 1;
@@ -1610,24 +1633,6 @@ namespace stenos
 						continue;
 					}
 
-					// If the context is dirty, compress it
-					if (raw->dirty) {
-						// Find the corresponding PackBuffer, excluding front and back buckets
-						size_t index = raw->block_index;
-						STENOS_ASSERT_DEBUG(index != RawType::invalid_index, "raw block must belong to an existing bucket");
-						// Compress
-						size_t r = compress(raw->storage);
-						if (r != stenos_private_block_csize(raw->buffer)) {
-							// Free old buffer, alloc new one, update compressed size, might throw (fine)
-							char* buff = this->allocate_buffer_for_compression((unsigned)r);
-
-							if (raw->buffer)
-								RebindAlloc<char>(*this).deallocate(raw->buffer, stenos_private_block_csize(raw->buffer));
-							raw->buffer = buff;
-						}
-						memcpy(raw->buffer, compression_buffer(), r);
-					}
-
 					// Unlink this decompression context with its compressed buffer
 					if (raw->block_index != RawType::invalid_index)
 						d_buckets[raw->block_index].data.set(raw->buffer, Compressed);
-- 
2.43.0


From 7aa98c2010df8099809431a413b0a3131ac438d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 45/56] fix: cvector::resize leaked the elements of a block
 when a constructor threw

---
 stenos/cvector.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index e315ac6..0c3c159 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2047,10 +2047,16 @@ namespace stenos
 						while (size() < new_size - block_size) {
 							size_t r = 0;
 							// Generic way to compress one value repeated
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i));
+							// construct, might throw, see below
+							try {
+								for (raw.size = 0; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size));
+							}
+							catch (...) {
+								// Destroy the elements built so far
+								raw.clear_values();
+								throw;
+							}
 							// compress
 							r = compress(raw.storage);
 
@@ -2101,10 +2107,16 @@ namespace stenos
 
 						while (size() < new_size - block_size) {
 							size_t r = 0;
-							raw.size = block_size;
-							// construct, might throw, fine
-							for (unsigned i = 0; i < block_size; ++i)
-								construct_ptr(&raw.at(i), val);
+							// construct, might throw, see below
+							try {
+								for (raw.size = 0; raw.size < block_size; ++raw.size)
+									construct_ptr(&raw.at(raw.size), val);
+							}
+							catch (...) {
+								// Destroy the elements built so far
+								raw.clear_values();
+								throw;
+							}
 							// compress
 							r = compress(raw.storage);
 
-- 
2.43.0


From 21ac153c07c150f72ba63b917db1b6e9d9845ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 46/56] fix: element access of cvector that has to allocate was
 declared noexcept

---
 stenos/cvector.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 0c3c159..2e09bdb 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -770,7 +770,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper(RefWrapper<C>&& v) noexcept;
+			ValueWrapper(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE ValueWrapper& operator=(const T& v)
 			{
@@ -795,7 +795,7 @@ namespace stenos
 			template<class C>
 			ValueWrapper& operator=(const ConstRefWrapper<C>& v);
 			template<class C>
-			ValueWrapper& operator=(RefWrapper<C>&& v) noexcept;
+			ValueWrapper& operator=(RefWrapper<C>&& v);
 
 			STENOS_ALWAYS_INLINE const T& get() const { return value; }
 			STENOS_ALWAYS_INLINE operator T&() noexcept { return value; }
@@ -912,7 +912,7 @@ namespace stenos
 			}
 			STENOS_ALWAYS_INLINE RefWrapper(const RefWrapper& other) noexcept = default;
 
-			STENOS_ALWAYS_INLINE auto move() noexcept -> T&&
+			STENOS_ALWAYS_INLINE auto move() -> T&&
 			{
 				auto raw = this->decompress_if_needed();
 				if (!std::is_trivially_move_assignable<T>::value)
@@ -998,7 +998,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>::ValueWrapper(RefWrapper<C>&& v)
 		  : value(std::move(v.move()))
 		{
 		}
@@ -1012,7 +1012,7 @@ namespace stenos
 		}
 		template<class T>
 		template<class C>
-		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v) noexcept
+		STENOS_ALWAYS_INLINE ValueWrapper<T>& ValueWrapper<T>::operator=(RefWrapper<C>&& v)
 		{
 			value = std::move(v.move());
 			return *this;
@@ -1021,13 +1021,13 @@ namespace stenos
 		// Overload swap function for RefWrapper
 
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>&& a, RefWrapper<Compressed>&& b)
 		{
 			using wrapper = RefWrapper<Compressed>;
 			const_cast<wrapper&>(a).swap(const_cast<wrapper&>(b));
 		}
 		template<class Compressed>
-		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b) noexcept
+		STENOS_ALWAYS_INLINE void swap(RefWrapper<Compressed>& a, RefWrapper<Compressed>& b)
 		{
 			(a).swap((b));
 		}
@@ -1166,7 +1166,7 @@ namespace stenos
 					new (as_ref()) const_ref_type(c()->cat(static_cast<size_t>(abspos)));
 				return *as_ref();
 			}
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const T* { return &((operator*()).get()); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> const T* { return &((operator*()).get()); }
 			STENOS_ALWAYS_INLINE auto operator+=(difference_type diff) noexcept -> CompressedConstIter&
 			{
 				this->abspos += diff;
@@ -1235,7 +1235,7 @@ namespace stenos
 				return *this;
 			}
 			STENOS_ALWAYS_INLINE auto operator*() const noexcept -> ref_type& { return reinterpret_cast<ref_type&>(const_cast<this_type*>(this)->base_type::operator*()); }
-			STENOS_ALWAYS_INLINE auto operator->() const noexcept -> const_pointer { return base_type::operator->(); }
+			STENOS_ALWAYS_INLINE auto operator->() const -> const_pointer { return base_type::operator->(); }
 			STENOS_ALWAYS_INLINE auto operator++() noexcept -> CompressedIter&
 			{
 				base_type::operator++();
@@ -3220,7 +3220,7 @@ namespace std
 	///////////////////////////
 
 	template<class Compress>
-	STENOS_ALWAYS_INLINE typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other) noexcept
+	STENOS_ALWAYS_INLINE typename Compress::value_type move(stenos::detail::RefWrapper<Compress>& other)
 	{
 		return stenos_detail::MoveObject<typename Compress::value_type>::apply(other.move());
 	}
-- 
2.43.0


From 3598ac2578e0124e1cab761ed5aff17e2d8ec530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:29 +0000
Subject: [PATCH 47/56] fix: inserting or assigning n copies terminated when
 copying the value threw

---
 stenos/cvector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 2e09bdb..df41c12 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -235,7 +235,7 @@ namespace stenos
 		  : pos(_pos)
 		{
 		}
-		cvalue_iterator(size_type _pos, const T& _value) noexcept
+		cvalue_iterator(size_type _pos, const T& _value)
 		  : pos(_pos)
 		  , value(_value)
 		{
@@ -248,7 +248,7 @@ namespace stenos
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -260,7 +260,7 @@ namespace stenos
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -285,13 +285,13 @@ namespace stenos
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
-- 
2.43.0


From 4bd4d11cbd26b3f05e4e65e2229a27d3727fd219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:25 +0000
Subject: [PATCH 48/56] fix: cvector::push_back of an element of the vector
 itself when its last block is full

---
 stenos/cvector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index df41c12..3fd2619 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1842,7 +1842,8 @@ namespace stenos
 					raw->block_index = d_buckets.size() - 1;
 				}
 				else if (d_buckets.back().load_decompressed()->size == elems_per_block) {
-					RawType* raw = compress_bucket(d_buckets.size() - 1);
+					// Reuse the context of the last block, except if this block is referenced (as in vec.push_back(vec[0]))
+					RawType* raw = d_buckets.back().ref_count.value() == 0 ? compress_bucket(d_buckets.size() - 1) : make_or_find_free_context();
 					// might throw, fine as we did not specify yet the block index
 					d_buckets.push_back(BucketType(raw));
 					raw->mark_dirty();
-- 
2.43.0


From ca402da2a3d5d780556e42675fae4091a0ccde5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:44 +0000
Subject: [PATCH 49/56] fix: cvector::insert of n copies of an element of the
 vector itself never returned

---
 stenos/cvector.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 3fd2619..e0a2af1 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2784,12 +2784,21 @@ namespace stenos
 
 		/// @brief Inserts count copies of the value before pos
 		/// Basic exception guarantee.
-		void insert(size_type pos, size_type count, const T& value) { insert(cbegin() + static_cast<difference_type>(pos), cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
+		void insert(size_type pos, size_type count, const T& value) { insert(cbegin() + static_cast<difference_type>(pos), count, value); }
 
 		/// @brief Inserts count copies of the value before pos
 		/// @return Iterator pointing to the first element inserted, or it if count==0
 		/// Basic exception guarantee.
-		auto insert(const_iterator pos, size_type count, const T& value) -> iterator { return insert(pos, cvalue_iterator<T>(0, value), cvalue_iterator<T>(count, value)); }
+		auto insert(const_iterator pos, size_type count, const T& value) -> iterator
+		{
+			// The value might be an element of this vector, in which case its block is referenced and cannot be locked:
+			// append on the right side and rotate
+			const difference_type dist = pos.abspos;
+			const size_type old_size = size();
+			resize(old_size + count, value);
+			std::rotate(begin() + dist, begin() + static_cast<difference_type>(old_size), end());
+			return begin() + dist;
+		}
 
 		/// @brief Removes the last element of the container.
 		/// Calling pop_back on an empty container results in undefined behavior.
-- 
2.43.0


From a1c3fab4b7df3c7afb03a80b37c2036cb5da6b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:46 +0000
Subject: [PATCH 50/56] fix: std::copy of a cvector range did not compile

---
 stenos/cvector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index e0a2af1..c6f579c 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -946,6 +946,7 @@ namespace stenos
 				}
 				return *this;
 			}
+			STENOS_ALWAYS_INLINE auto operator=(const RefWrapper& other) -> RefWrapper& { return *this = static_cast<const base_type&>(other); }
 			STENOS_ALWAYS_INLINE auto operator=(RefWrapper&& other) -> RefWrapper&
 			{
 				if STENOS_LIKELY (std::addressof(other) != this) {
-- 
2.43.0


From 1a59a79fee9fb06f37e831d13ead42df6643a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:46 +0000
Subject: [PATCH 51/56] fix: assigning an element of a cvector from another one
 emptied the latter

---
 stenos/cvector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index c6f579c..0bfabf5 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -952,10 +952,11 @@ namespace stenos
 				if STENOS_LIKELY (std::addressof(other) != this) {
 					auto raw_this = this->decompress_if_needed(other.bucket);
 					auto raw_other = other.decompress_if_needed(this->bucket);
-					if (!std::is_trivially_move_assignable<T>::value)
+					// move only types are moved, the other element keeps its value otherwise (as in vec[0] = vec[1])
+					if (!std::is_copy_constructible<T>::value)
 						raw_other->mark_dirty();
 					raw_this->mark_dirty();
-					raw_this->at(this->bpos) = std::move(raw_other->at(other.bpos));
+					raw_this->at(this->bpos) = static_cast<conv_type>(raw_other->at(other.bpos));
 				}
 				return *this;
 			}
-- 
2.43.0


From 0a945b29946dcd0dbb0d42e28e939d5d9da25cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:15 +0000
Subject: [PATCH 52/56] fix: data race between the copy tasks when the
 destination is too small

---
 stenos/internal/stenos.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stenos/internal/stenos.cpp b/stenos/internal/stenos.cpp
index 8e1937e..a12e627 100644
--- a/stenos/internal/stenos.cpp
+++ b/stenos/internal/stenos.cpp
@@ -914,7 +914,7 @@ size_t stenos_compress_generic(stenos_context* opts, const void* _src, size_t by
 
 	const bool raw_memcpy = !opts->t.nanoseconds && opts->level == 0;	     // Check for direct memcpy (level 0)
 	const int threads = (int)std::min((size_t)opts->threads, super_block_count); // Compute number of threads
-	size_t res_code = 0;
+	std::atomic<size_t> res_code{ 0 }; // written by the copy tasks
 
 	if (!raw_memcpy) {
 		if STENOS_UNLIKELY (stenos::has_error(opts->ensure_has_buffers(threads)))
-- 
2.43.0


From 7ed53075e3d4e02a2909f1c2dc6916a99d001fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:44 +0000
Subject: [PATCH 53/56] fix: zstd was never used again in a thread where its
 context could once not be allocated

---
 stenos/internal/zstd_wrapper.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stenos/internal/zstd_wrapper.h b/stenos/internal/zstd_wrapper.h
index 54f8d6a..c7944ce 100644
--- a/stenos/internal/zstd_wrapper.h
+++ b/stenos/internal/zstd_wrapper.h
@@ -73,6 +73,8 @@ namespace stenos
 			}
 		};
 		thread_local ZSTDContext ctx;
+		if (!ctx.ctx)
+			ctx.ctx = ZSTD_createCCtx(); // the first attempt failed, memory might be back
 		if (!ctx.ctx)
 			return STENOS_ERROR_ALLOC;
 
-- 
2.43.0


From 78167cb0b812fd23e28f50c00a849da2c6605664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:18 +0000
Subject: [PATCH 54/56] fix: const element accessors of cvector locked the
 block twice and could deadlock with for_each

---
 stenos/cvector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 0bfabf5..c81cb6e 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1194,7 +1194,7 @@ namespace stenos
 				tmp -= diff;
 				return tmp;
 			}
-			STENOS_ALWAYS_INLINE const_ref_type operator[](difference_type diff) const noexcept { return c()->at(abspos + diff); }
+			STENOS_ALWAYS_INLINE const_ref_type operator[](difference_type diff) const noexcept { return c()->cat(static_cast<size_t>(abspos + diff)); }
 		};
 
 		/// @brief iterator type for cvector
@@ -2875,7 +2875,7 @@ namespace stenos
 			// random access
 			if (pos >= size())
 				throw std::out_of_range("");
-			return (d_data->at(pos));
+			return (d_data->cat(pos));
 		}
 		/// @brief Returns a reference wrapper to the element at specified location pos, with bounds checking.
 		STENOS_ALWAYS_INLINE auto at(size_type pos) -> ref_type
@@ -2890,7 +2890,7 @@ namespace stenos
 		{
 			// random access
 			STENOS_ASSERT_DEBUG(d_data, "empty cvector");
-			return (d_data->at(pos));
+			return (d_data->cat(pos));
 		}
 		/// @brief Returns a reference wrapper to the element at specified location pos, without bounds checking.
 		STENOS_ALWAYS_INLINE auto operator[](size_type pos) noexcept -> ref_type
@@ -2910,7 +2910,7 @@ namespace stenos
 		STENOS_ALWAYS_INLINE auto back() const noexcept -> const_ref_type
 		{
 			STENOS_ASSERT_DEBUG(d_data, "empty cvector");
-			return d_data->back();
+			return d_data->cat(size() - 1);
 		}
 		/// @brief Returns a reference wrapper to the first element in the container.
 		STENOS_ALWAYS_INLINE auto front() noexcept -> ref_type
@@ -2922,7 +2922,7 @@ namespace stenos
 		STENOS_ALWAYS_INLINE auto front() const noexcept -> const_ref_type
 		{
 			STENOS_ASSERT_DEBUG(d_data, "empty cvector");
-			return d_data->front();
+			return d_data->cat(0);
 		}
 
 		/// @brief Returns an iterator to the first element of the cvector.
-- 
2.43.0


From 2b0e73d55415f10ae0a7fcd991380b1a4fa3927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:14 +0000
Subject: [PATCH 55/56] fix: move assignment of cvector released memory through
 a different allocator

---
 stenos/cvector.hpp | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index c81cb6e..5a8d18e 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -2438,6 +2438,20 @@ namespace stenos
 			a.deallocate(data, 1);
 		}
 
+		/// @brief Build the internal data, with the allocator of this vector, from the elements of other
+		internal_type* move_elements(cvector& other)
+		{
+			internal_type* tmp = make_internal(get_allocator());
+			try {
+				other.for_each(0, other.size(), [tmp](T& v) { tmp->push_back(std::move(v)); });
+			}
+			catch (...) {
+				destroy_internal(tmp);
+				throw;
+			}
+			return tmp;
+		}
+
 		void make_data_if_null()
 		{
 			if (!d_data)
@@ -2590,9 +2604,24 @@ namespace stenos
 		/// @brief Move assignment operator.
 		/// @param other another container to use as data source
 		/// @return reference to this
-		auto operator=(cvector&& other) noexcept(noexcept(std::declval<cvector&>().swap(std::declval<cvector&>()))) -> cvector&
+		auto operator=(cvector&& other) noexcept(std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value || detail::is_always_equal<Allocator>::value) -> cvector&
 		{
-			this->swap(other);
+			if (this != std::addressof(other)) {
+				if STENOS_CONSTEXPR (std::allocator_traits<Allocator>::propagate_on_container_move_assignment::value) {
+					// The content follows its allocator
+					std::swap(d_data, other.d_data);
+					std::swap(get_allocator(), other.get_allocator());
+				}
+				else if (get_allocator() == other.get_allocator())
+					std::swap(d_data, other.d_data);
+				else {
+					// The content cannot be released by another allocator: move the elements
+					internal_type* tmp = move_elements(other);
+					if (d_data)
+						destroy_internal(d_data);
+					d_data = tmp;
+				}
+			}
 			return *this;
 		}
 
-- 
2.43.0


From a4c9fe905de91077246c78c1138db25d7bd402b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:27 +0000
Subject: [PATCH 56/56] fix: cvector::compression_ratio counted blocks that are
 not compressed

---
 stenos/cvector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stenos/cvector.hpp b/stenos/cvector.hpp
index 5a8d18e..9d79097 100644
--- a/stenos/cvector.hpp
+++ b/stenos/cvector.hpp
@@ -1573,14 +1573,14 @@ namespace stenos
 			/// @brief Returns the compression ratio achieved by the block encoder
 			auto compression_ratio() const noexcept -> float
 			{
-				size_t decompressed_size = d_buckets.size();
-				if (d_buckets.size() && !d_buckets.back().data.find_compressed())
-					--decompressed_size;
-				decompressed_size *= block_size * sizeof(T);
+				size_t decompressed_size = 0;
 				size_t compress_size = 0;
 				for (size_t i = 0; i < d_buckets.size(); ++i)
-					if (auto buf = d_buckets[i].data.find_compressed())
+					if (auto buf = d_buckets[i].data.find_compressed()) {
+						// Blocks that are not compressed yet do not count
+						decompressed_size += block_size * sizeof(T);
 						compress_size += stenos_private_block_csize(buf);
+					}
 				return (compress_size && decompressed_size) ? decompressed_size / static_cast<float>(compress_size) : 0.f;
 			}
 
-- 
2.43.0

