From 2d7ce81657b045d296659c038a398ab191e7fa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 01/18] fix: base64 encode refuses single byte input

---
 src/data/base64.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data/base64.c b/src/data/base64.c
index 2d7b613..40c06bd 100644
--- a/src/data/base64.c
+++ b/src/data/base64.c
@@ -24,13 +24,13 @@ int lcu_base64_encode(char* out_buf_encoded, const char* src_buf_plain, const si
 {
 	size_t i;
 	char* p;
-    if (src_buf_len < 2)
+    if (src_buf_len < 1)
     {
         return -1;
     }
 
 	p = out_buf_encoded;
-	for (i = 0; i < src_buf_len - 2; i += 3)
+	for (i = 0; i + 2 < src_buf_len; i += 3)
 	{
 		*p++ = basis_64[(src_buf_plain[i] >> 2) & 0x3F];
 		*p++ = basis_64[((src_buf_plain[i] & 0x3) << 4) |
-- 
2.43.0


From 297b4ba15d1fa746e7343c5d7ab879a23c89df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 02/18] fix: integer_rounddown_pow_of_two returns 0 above 2^31

---
 src/data/integer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/integer.c b/src/data/integer.c
index 44a3815..449a4d7 100644
--- a/src/data/integer.c
+++ b/src/data/integer.c
@@ -37,5 +37,6 @@ uint32_t integer_rounddown_pow_of_two(uint32_t i)
 	{
 		return roundup_integer;
 	}
-	return (roundup_integer >> 1);
+	// round up overflow to 0 when i is bigger than 2^31, in that case 2^31 is the answer.
+	return roundup_integer ? (roundup_integer >> 1) : (1U << 31);
 }
-- 
2.43.0


From af9c3658297158a8a0125424af533a4ab800d6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 03/18] fix: hashmap_foreach goes on after callback asked to
 stop

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index c90b6cd..8c34c88 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -372,8 +372,9 @@ void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 	{
 		return;
 	}
+	bool go_on = true;
 	hashmap_enter(map);
-	for (i = 0; i < map->bucketCount; i++)
+	for (i = 0; go_on && i < map->bucketCount; i++)
 	{
 		Entry* entry = map->buckets[i];
 		while (entry != NULL)
@@ -381,6 +382,7 @@ void hashmap_foreach(hashmap_t* map, hashmap_iter_cb callback, void* context) {
 			Entry* next = entry->next;
 			if (!callback(entry->key, entry->value, context))
 			{
+				go_on = false;
 				break;
 			}
 			entry = next;
-- 
2.43.0


From ddbc6ad3150c3f51136a93568fe058411e4ff568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:02 +0000
Subject: [PATCH 04/18] fix: RingBuffer_create_with_mem gets zero capacity from
 a block above 2^31 bytes

---
 src/ring/ringbuffer.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ring/ringbuffer.c b/src/ring/ringbuffer.c
index 17debbc..95c7738 100644
--- a/src/ring/ringbuffer.c
+++ b/src/ring/ringbuffer.c
@@ -47,6 +47,16 @@ static inline uint32_t pri_roundup_pow_of_two(uint32_t x)
 	return (uint32_t)(2 << counter);
 }
 
+static inline uint32_t pri_rounddown_pow_of_two(uint32_t x)
+{
+	// clear lowest bit until only the highest one left.
+	while (x & (x - 1))
+	{
+		x &= (x - 1);
+	}
+	return x;
+}
+
 struct __ring_buffer_t
 {
 	bool need_free_myself; /* mark struct and buffer whether is allocated by ourself */
@@ -75,7 +85,7 @@ ring_buffer_handle RingBuffer_create_with_mem(__in void* buf, __in uint32_t buf_
 	if (!pri_is_power_of_2(ring_buf_size))
 	{
 		RING_LOGW("%s buf_size=%u is not power of 2", __func__, ring_buf_size);
-		ring_buf_size = (pri_roundup_pow_of_two(ring_buf_size) >> 1);
+		ring_buf_size = pri_rounddown_pow_of_two(ring_buf_size);
 		RING_LOGW("%s changed buf_size to %u ", __func__, ring_buf_size);
 	}
 	ring_buffer_handle ring_buffer_p = (ring_buffer_handle)buf;
-- 
2.43.0


From e2179d9c11beea0262c58b16fcb604d3af9fca1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 05/18] fix: auto_cover_buf tells a caught-up reader that its
 data is covered

---
 src/ring/autocover_buffer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index e468983..25ffc54 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -69,8 +69,9 @@ static int auto_cover_buf_internal_read(const auto_cover_buf_handle buf_handle,
 	if (ring_write_off - ring_read_off == ring_available_data)
 	{
 		//current ring read from "out --> in"
-		//so "cover_read_off" should big(or equal) than "ring_read_off", small than "ring_write_off"
-		if (cover_read_off >= ring_read_off && cover_read_off < ring_write_off)
+		//so "cover_read_off" should big(or equal) than "ring_read_off", small(or equal) than "ring_write_off"
+		//"cover_read_off" equal "ring_write_off" means reader has caught up with writer, nothing can read now.
+		if (cover_read_off >= ring_read_off && cover_read_off <= ring_write_off)
 		{
 			real_can_read_len = ring_available_data - (cover_read_off - ring_read_off);
 		}
-- 
2.43.0


From eb6027cc53f12e508b61cc11d93d5a3fdec2f1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 06/18] fix: auto_cover_buf_read aborts on a request above
 INT_MAX

---
 src/ring/autocover_buffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index 25ffc54..bce4b4d 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -101,7 +101,7 @@ static int auto_cover_buf_internal_read(const auto_cover_buf_handle buf_handle,
 	}
 	ASSERT_ABORT(real_can_read_len <= (int)ring_available_data);
 
-	if (target && real_can_read_len >= (int)request_read_len)
+	if (target && real_can_read_len >= 0 && (uint32_t)real_can_read_len >= request_read_len)
 	{
 		//perform discard
 		const uint32_t should_discard_len = ring_available_data - real_can_read_len;
@@ -136,7 +136,7 @@ int auto_cover_buf_read(__in const auto_cover_buf_handle buf_handle,
 		return available_read_data;
 	}
 	int real_read_len;
-	if (available_read_data < (int)req_read_len)
+	if ((uint32_t)available_read_data < req_read_len)
 	{
 		//error: not enough data, we NOT perform read operation.
 		real_read_len = AUTO_COVER_BUF_ERR_DATA_NOT_ENOUGH;
-- 
2.43.0


From 250a6b083e2861e5c96770d64faf1cd868293794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 07/18] fix: auto_cover_buf_write aborts when data is bigger
 than the whole buffer

---
 src/ring/autocover_buffer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ring/autocover_buffer.c b/src/ring/autocover_buffer.c
index bce4b4d..990b05a 100644
--- a/src/ring/autocover_buffer.c
+++ b/src/ring/autocover_buffer.c
@@ -154,6 +154,11 @@ int auto_cover_buf_write(__in const auto_cover_buf_handle buf_handle,
 {
 	ASSERT(buf_handle);
 	ASSERT(source);
+	if (write_len > buf_handle->ring_buffer_size)
+	{
+		//error: can't hold all of it, we NOT perform write operation.
+		return AUTO_COVER_BUF_ERR_INVALID_PARAM;
+	}
 	AUTOCOVER_LOCK(buf_handle);
 
 	const uint32_t ring_available_write = RingBuffer_available_write(buf_handle->ring);
-- 
2.43.0


From 222a3f7706acff93d5ebea91bec160fedf5a7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 08/18] fix: msg_queue_pop does not tell the size of the popped
 msg

---
 src/ring/msg_queue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index 697e1c8..ce61c6b 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -96,6 +96,7 @@ msg_q_code_e msg_queue_pop(__in msg_queue msg_queue_p, __out void* msg_p, __inou
 	ASSERT_ABORT(read_bytes == sizeof(msg_header_t));
 	read_bytes = RingBuffer_read(msg_queue_p->ring_buf_p, msg_p, header.msg_size);
 	ASSERT_ABORT(read_bytes == header.msg_size);
+	*msg_size_p = header.msg_size; // tell caller the msg real size
 	return MSG_Q_CODE_SUCCESS;
 }
 
-- 
2.43.0


From 65d06b22c71c340bb3b2b256d431a09d3736c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 09/18] fix: msg_queue_destroy dereferences NULL queue

---
 src/ring/msg_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring/msg_queue.c b/src/ring/msg_queue.c
index ce61c6b..66362eb 100644
--- a/src/ring/msg_queue.c
+++ b/src/ring/msg_queue.c
@@ -120,7 +120,7 @@ uint32_t msg_queue_available_push_bytes(__in msg_queue msg_queue_p)
 
 void msg_queue_destroy(__inout msg_queue* msg_queue_pp)
 {
-	if (!msg_queue_pp || !((*msg_queue_pp)->ring_buf_p))
+	if (!msg_queue_pp || !(*msg_queue_pp) || !((*msg_queue_pp)->ring_buf_p))
 	{
 		return;
 	}
-- 
2.43.0


From 5afea63f440a713f85e4c8c2d3cdb7b5b509d547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 10/18] fix: strreplace never ends on an empty pattern

---
 src/mem/strings.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index bf405eb..bcb8b24 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -113,6 +113,17 @@ char* strreplace(char const* const original,
 	const char* oriptr;
 	const char* patloc;
 
+	// an empty pattern occurs nowhere, there is nothing to replace
+	if (0 == patlen)
+	{
+		char* const copied = (char*)malloc(sizeof(char) * (orilen + 1));
+		if (NULL != copied)
+		{
+			memcpy(copied, original, orilen + 1);
+		}
+		return copied;
+	}
+
 	// find how many times the pattern occurs in the original string
 	for (oriptr = original; NULL != (patloc = strstr(oriptr, pattern)); oriptr = patloc + patlen)
 	{
-- 
2.43.0


From b5a0ed33f68f3693f72b53993905c23eabc2beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 11/18] fix: strnutf8len reads the byte after max_count

---
 src/mem/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index bcb8b24..6091284 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -198,7 +198,7 @@ size_t strnutf8len(const char* utf8str, size_t max_count)
 {
 	size_t code_points = 0;
 	size_t chars_count = 0;
-	while (*utf8str && chars_count < max_count) 
+	while (chars_count < max_count && *utf8str) 
 	{
 		code_points += ((*utf8str & 0xC0) != 0x80);
 		++utf8str;
-- 
2.43.0


From 139588486d41e70684d05745d861a644d24e443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 12/18] fix: str_char2hex overruns a small buffer and loses the
 last digit

---
 src/mem/strings.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/mem/strings.c b/src/mem/strings.c
index 6091284..9543aff 100644
--- a/src/mem/strings.c
+++ b/src/mem/strings.c
@@ -212,17 +212,26 @@ size_t str_char2hex(char* out_hex_str, size_t out_hex_str_capacity,
 {
 #define ONE_HEX_STR_SIZE (3U)
 	size_t len_hex_str = 0U;
+	if (0U == out_hex_str_capacity)
+	{
+		return 0U;
+	}
 	out_hex_str[0] = '\0';
 
-	if (chars_count * ONE_HEX_STR_SIZE >= out_hex_str_capacity)
+	if (chars_count > (out_hex_str_capacity - 1U) / ONE_HEX_STR_SIZE)
 	{
-		len_hex_str = snprintf(out_hex_str, out_hex_str_capacity - 1U, "hex truncated(%zu):", chars_count);
-		chars_count = out_hex_str_capacity / ONE_HEX_STR_SIZE - 1U;
+		int ret_prefix = snprintf(out_hex_str, out_hex_str_capacity, "hex truncated(%zu):", chars_count);
+		len_hex_str = ret_prefix < 0 ? 0U : (size_t)ret_prefix;
+		if (len_hex_str >= out_hex_str_capacity)
+		{
+			return out_hex_str_capacity - 1U; // no room for any hex
+		}
+		chars_count = (out_hex_str_capacity - 1U - len_hex_str) / ONE_HEX_STR_SIZE;
 	}
 	for (size_t chars_index = 0U; chars_index < chars_count; ++chars_index)
 	{
 		int ret_sn = snprintf(out_hex_str + len_hex_str,
-			out_hex_str_capacity - len_hex_str - 1,
+			out_hex_str_capacity - len_hex_str,
 			" %02x", (unsigned char)chars[chars_index]);
 		if (ONE_HEX_STR_SIZE != ret_sn /*ret_sn < 0*/) /* should be ONE_HEX_STR_SIZE */
 		{
-- 
2.43.0


From a5fd3ea6a853b684d8dabd25f237e3a320d3e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 13/18] fix: lcu_strndup reads past len

---
 src/mem/allocator.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index ad0f4f4..68da9a1 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -62,10 +62,10 @@ char* lcu_strdup(const char* str)
 
 char* lcu_strndup_trace(const char* str, size_t len, const char* file_path, const char* func_name, int file_line)
 {
-	size_t size = strlen(str);
-	if (len < size)
+	size_t size = 0;
+	while (size < len && str[size] != '\0') // str may not be terminated within len
 	{
-		size = len;
+		++size;
 	}
 	size_t real_size = allocation_tracker_resize_for_canary(size + 1);
 	void* ptr = malloc(real_size);
-- 
2.43.0


From e0ae2019e31c184a7d98a887d52d0efb8a8e1954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 14/18] fix: lcu_malloc and lcu_calloc give a too small block
 when the size overflows

---
 src/mem/allocator.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 68da9a1..075bc7f 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -18,6 +18,7 @@
  ******************************************************************************/
 
 #include "mem/mem_debug.h"
+#include <stdint.h>
 #include <stdlib.h>
 #include <string.h>
 #include "mem/allocator.h"
@@ -92,6 +93,10 @@ char* lcu_strndup(const char* str, size_t len)
 void* lcu_malloc_trace(size_t size, const char* file_path, const char* func_name, int file_line)
 {
 	size_t real_size = allocation_tracker_resize_for_canary(size);
+	if (real_size < size)
+	{
+		return NULL;
+	}
 	void* ptr = malloc(real_size);
 	if (!ptr)
 	{
@@ -107,8 +112,16 @@ void* lcu_malloc(size_t size)
 
 void* lcu_calloc_trace(size_t item_count, size_t item_size, const char* file_path, const char* func_name, int file_line)
 {
+	if (item_size != 0 && item_count > SIZE_MAX / item_size)
+	{
+		return NULL;
+	}
 	size_t request_size = item_count * item_size;
 	size_t real_size = allocation_tracker_resize_for_canary(request_size);
+	if (real_size < request_size)
+	{
+		return NULL;
+	}
 	void* ptr = calloc(1, real_size);
 	if (!ptr)
 	{
-- 
2.43.0


From 783256cd190024c03714d779dc5dbfad1d3e1b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:20 +0000
Subject: [PATCH 15/18] fix: lcu_realloc loses the content when memory is not
 tracked

---
 src/mem/allocator.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mem/allocator.c b/src/mem/allocator.c
index 075bc7f..9f26749 100644
--- a/src/mem/allocator.c
+++ b/src/mem/allocator.c
@@ -153,12 +153,23 @@ void* lcu_realloc_trace(void* ptr, size_t size, const char* file_path, const cha
 		return NULL;
 	}
 
+	if (size > SIZE_MAX - 2048U)
+	{
+		return NULL;
+	}
+
 	if (NULL == ptr)
 	{
 		/* a little trick: give more memory than you need, for maybe reduce realloc times */
 		return lcu_malloc_trace(size + 2048U, file_path, func_name, file_line);
 	}
 
+	if (0 == allocation_tracker_resize_for_canary(0))
+	{
+		//memory is not tracked, only the heap knows the current size.
+		return realloc(ptr, size);
+	}
+
 	size_t cur_ptr_size = allocation_tracker_ptr_size(ALLOCTOR_ID, ptr);
 	if (cur_ptr_size && size <= cur_ptr_size)
 	{
-- 
2.43.0


From 9805909c1a989f852825b9ffc34f68f3dab29b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 16/18] fix: stringbuilder_appendnstr appended bytes behind a
 string shorter than len

---
 src/mem/stringbuilder.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index a64fd98..604daf4 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -115,6 +115,15 @@ int stringbuilder_appendnstr(stringbuilder_t* sb, const char* str, size_t len)
 	{
 		len = strlen(str);
 	}
+	else
+	{
+		// str may be shorter than len
+		const char* end = (const char*)memchr(str, '\0', len);
+		if (end)
+		{
+			len = (size_t)(end - str);
+		}
+	}
 	if (len == 0)
 	{
 		return -2;
-- 
2.43.0


From 97860251e5c16a21e5be30d2ae8c8b0246ee4651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:02 +0000
Subject: [PATCH 17/18] fix: stringbuilder_appendf took a failed format for a
 huge length

---
 src/mem/stringbuilder.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mem/stringbuilder.c b/src/mem/stringbuilder.c
index 604daf4..7f221c5 100644
--- a/src/mem/stringbuilder.c
+++ b/src/mem/stringbuilder.c
@@ -149,12 +149,13 @@ int stringbuilder_appendf(stringbuilder_t* sb, const char* format, ...)
 
 	va_start(va, format);
 	// first we get the string length that will write. ('\0' is not belong of the length)
-	size_t len = vsnprintf(NULL, 0, format, va);
+	int format_len = vsnprintf(NULL, 0, format, va);
 	va_end(va);
-	if (len < 1)
+	if (format_len < 1)
 	{
 		return -2;
 	}
+	const size_t len = (size_t)format_len;
 
 	if (sb_ensure_space(sb, len) != 0)
 	{
-- 
2.43.0


From 377aec0b877e5c231df4e4d4cca7c4f262c95fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 18/18] fix: hashmap_put told ENOMEM for a stored pair when the
 table could not grow

---
 src/data/hashmap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/hashmap.c b/src/data/hashmap.c
index 8c34c88..9ea6f5b 100644
--- a/src/data/hashmap.c
+++ b/src/data/hashmap.c
@@ -133,10 +133,12 @@ static void expandIfNecessary(hashmap_t* map)
 	}
 	// Start off with a 0.33 load factor.
 	size_t newBucketCount = map->bucketCount << 1;
+	int saved_errno = errno;
 	Entry** newBuckets = (Entry**)(calloc(newBucketCount, sizeof(Entry*)));
 	if (newBuckets == NULL)
 	{
-		// Abort expansion.
+		// Abort expansion. The entry is stored anyway, so errno must not tell ENOMEM.
+		errno = saved_errno;
 		return;
 	}
 	// Move over existing entries.
-- 
2.43.0

