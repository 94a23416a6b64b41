From a9f40fd5ca373e49601cfae35c8f2c5df3b3306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 01/32] fix: do not decode varints past the end of an entry's
 key or value

Entry decoding and the triplet/pair value codec passed unbounded pointers to
the varint decoders, so a truncated key or value made them read past the end
of the buffer, and an rdata length without a terminating byte made rrset
decoding loop forever.
---
 dnstable/dnstable-private.h | 25 +++++++++++++++++++++++++
 dnstable/entry.c            | 22 ++++++++++++++--------
 dnstable/triplet.c          | 26 +++++++++++++++++++-------
 3 files changed, 58 insertions(+), 15 deletions(-)

diff --git a/dnstable/dnstable-private.h b/dnstable/dnstable-private.h
index 142fc97..ee21c67 100644
--- a/dnstable/dnstable-private.h
+++ b/dnstable/dnstable-private.h
@@ -109,6 +109,31 @@ bytes_compare(const uint8_t *a, size_t len_a,
 	return (ret);
 }
 
+/*
+ * Decode a varint which must lie entirely within the first len bytes of buf.
+ * Returns the number of bytes consumed, or 0 if buf does not start with a
+ * complete varint of the given width.
+ */
+static inline size_t
+bounded_varint_decode32(const uint8_t *buf, size_t len, uint32_t *val)
+{
+	unsigned n = mtbl_varint_length_packed(buf, len);
+
+	if (n == 0 || n > 5)
+		return (0);
+	return (mtbl_varint_decode32(buf, val));
+}
+
+static inline size_t
+bounded_varint_decode64(const uint8_t *buf, size_t len, uint64_t *val)
+{
+	unsigned n = mtbl_varint_length_packed(buf, len);
+
+	if (n == 0 || n > 10)
+		return (0);
+	return (mtbl_varint_decode64(buf, val));
+}
+
 struct dnstable_iter *
 dnstable_query_iter_fileset(struct dnstable_query *, struct mtbl_fileset *);
 
diff --git a/dnstable/entry.c b/dnstable/entry.c
index 20ecf04..a8632af 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -631,7 +631,7 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	const uint8_t *p = buf;
 	const uint8_t *end = buf + len_buf;
 	uint8_t name[WDNS_MAXLEN_NAME];
-	size_t len_name;
+	size_t len, len_name;
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -646,9 +646,10 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	len = bounded_varint_decode32(p, end - p, &e->rrtype);
+	if (len == 0)
 		return (dnstable_res_failure);
+	p += len;
 
 	/* bailiwick */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -667,7 +668,11 @@ decode_rrset(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		wdns_rdata_t *rdata;
 		uint32_t len_rdata;
 
-		p += mtbl_varint_decode32(p, &len_rdata);
+		len = bounded_varint_decode32(p, end - p, &len_rdata);
+		if (len == 0)
+			return (dnstable_res_failure);
+		p += len;
+
 		if (len_rdata > USHRT_MAX)
 			return (dnstable_res_failure);
 
@@ -723,7 +728,7 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 	const uint8_t *data;
 	const uint8_t *slice;
 	uint8_t name[WDNS_MAXLEN_NAME];
-	size_t len_name, len_slice;
+	size_t len, len_name, len_slice;
 	wdns_rdata_t *rdata;
 
 	if (len_buf < sizeof(uint16_t))
@@ -741,9 +746,10 @@ decode_rdata(struct dnstable_entry *e, const uint8_t *buf, size_t len_buf)
 		return (dnstable_res_failure);
 
 	/* rrtype */
-	p += mtbl_varint_decode32(p, &e->rrtype);
-	if (p > end)
+	len = bounded_varint_decode32(p, end - p, &e->rrtype);
+	if (len == 0)
 		return (dnstable_res_failure);
+	p += len;
 
 	/* rrname */
 	if (wdns_len_uname(p, end, &len_name) != wdns_res_success)
@@ -803,7 +809,7 @@ decode_version(struct dnstable_entry *e,
 		return (dnstable_res_failure);
 
 	e->v_type = key[0];
-	len = mtbl_varint_decode32(val, &e->version);
+	len = bounded_varint_decode32(val, len_val, &e->version);
 	if (len == len_val)
 		return (dnstable_res_success);
 
diff --git a/dnstable/triplet.c b/dnstable/triplet.c
index ebb23d0..3a0ea58 100644
--- a/dnstable/triplet.c
+++ b/dnstable/triplet.c
@@ -29,10 +29,17 @@ triplet_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2, uint64_t val3)
 dnstable_res
 triplet_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2, uint64_t *val3)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val3);
+	size_t len, bytes_read = 0;
+
+	if ((len = bounded_varint_decode64(buf + bytes_read, len_buf - bytes_read, val1)) == 0)
+		return (dnstable_res_failure);
+	bytes_read += len;
+	if ((len = bounded_varint_decode64(buf + bytes_read, len_buf - bytes_read, val2)) == 0)
+		return (dnstable_res_failure);
+	bytes_read += len;
+	if ((len = bounded_varint_decode64(buf + bytes_read, len_buf - bytes_read, val3)) == 0)
+		return (dnstable_res_failure);
+	bytes_read += len;
 	if (bytes_read == len_buf)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
@@ -50,9 +57,14 @@ pair_pack(uint8_t *orig_buf, uint64_t val1, uint64_t val2)
 dnstable_res
 pair_unpack(const uint8_t *buf, size_t len_buf, uint64_t *val1, uint64_t *val2)
 {
-	size_t bytes_read = 0;
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val1);
-	bytes_read += mtbl_varint_decode64(buf + bytes_read, val2);
+	size_t len, bytes_read = 0;
+
+	if ((len = bounded_varint_decode64(buf + bytes_read, len_buf - bytes_read, val1)) == 0)
+		return (dnstable_res_failure);
+	bytes_read += len;
+	if ((len = bounded_varint_decode64(buf + bytes_read, len_buf - bytes_read, val2)) == 0)
+		return (dnstable_res_failure);
+	bytes_read += len;
 	if (bytes_read == len_buf)
 		return (dnstable_res_success);
 	return (dnstable_res_failure);
-- 
2.43.0


From 1d192c430bfc509c8f0fcebc21a44ce4f2b0673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 02/32] fix: reject an rdata index equal to the number of
 rdatas

dnstable_entry_get_rdata() let the index one past the last rdata through to
the vector accessor, which aborts.
---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index a8632af..ee887e1 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1003,7 +1003,7 @@ dnstable_entry_get_rdata(struct dnstable_entry *e, size_t i,
 	if (e->e_type == DNSTABLE_ENTRY_TYPE_RRSET ||
 	    e->e_type == DNSTABLE_ENTRY_TYPE_RDATA)
 	{
-		if (i > rdata_vec_size(e->rdatas))
+		if (i >= rdata_vec_size(e->rdatas))
 			return (dnstable_res_failure);
 		*rdata = rdata_vec_value(e->rdatas, i)->data;
 		*len_rdata = rdata_vec_value(e->rdatas, i)->len;
-- 
2.43.0


From 70c9b850a708bf178b41f24504ceba2d8b8f7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 03/32] fix: do not decode entries of an unknown type as empty
 rrsets

A key whose type byte is none of the documented ones fell through the switch
and came back as an entry of type rrset without name or rdata.
---
 dnstable/entry.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index ee887e1..23a678c 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -857,6 +857,8 @@ dnstable_entry_decode(const uint8_t *key, size_t len_key,
 		e->e_type = DNSTABLE_ENTRY_TYPE_VERSION;
 		if (decode_version(e, key+1, len_key-1, val, len_val) != dnstable_res_success) goto err;
 		break;
+	default:
+		goto err;
 	}
 
 	return (e);
-- 
2.43.0


From e8ad3bb0b869f4be9db6d6fe0f43f6b2b592b39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:14 +0000
Subject: [PATCH 04/32] fix: do not test an rrtype against the byte after its
 bitmap block

An rrtype whose bit lies in the first byte after a (trailing-zero-trimmed)
window block was looked up one byte past the block: in the next block header
or past the end of the value.
---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 23a678c..b4ad170 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1208,7 +1208,7 @@ rrtype_union_check(uint16_t rrtype, const uint8_t *rrtype_map, size_t rrtype_map
 		}
 
 		/* at the right block; are there enough bytes in this block? */
-		if (byte > block_len)
+		if (byte >= block_len)
 			return false;
 		return (rrtype_map[byte] & net_order_bit);
 	}
-- 
2.43.0


From bc03b5f486dcea9cd84560af2f6b1200341e83c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 05/32] fix: encode two-byte base32 groups with four characters

---
 libmy/b32_encode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index 6487fc4..f07c52d 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -92,7 +92,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			k = 5;
 			break;
 		case 2:
-			k = 3;
+			k = 4;
 			break;
 		case 1:
 			k = 2;
-- 
2.43.0


From f1c1a4067f22015d9695d289518c47d55ee102e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 06/32] fix: encode empty input to an empty base32 string

---
 libmy/b32_encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/b32_encode.c b/libmy/b32_encode.c
index f07c52d..b7bd41c 100644
--- a/libmy/b32_encode.c
+++ b/libmy/b32_encode.c
@@ -79,7 +79,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 	const char *end = &dst[size];
 	char *q = dst;
 
-	do {
+	while (i < len) {
 		size_t j, k;
 		uint8_t x[5];
 		char s[8];
@@ -121,7 +121,7 @@ base32_encode(char *dst, size_t size, const void *data, size_t len)
 			break;
 		}
 
-	} while (i < len);
+	}
 
 	return q - dst;
 }
-- 
2.43.0


From 87bd8add9722426cd7dec31d6d3a25f84a0757b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 07/32] fix: do not read past the base64 decoding table

---
 libmy/b64_decode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/b64_decode.c b/libmy/b64_decode.c
index aeaf8ca..1ea9352 100644
--- a/libmy/b64_decode.c
+++ b/libmy/b64_decode.c
@@ -12,7 +12,7 @@ int base64_decode_value(char value_in)
 	static const char decoding[] = {62,-1,-1,-1,63,52,53,54,55,56,57,58,59,60,61,-1,-1,-1,-2,-1,-1,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,-1,-1,-1,-1,-1,-1,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
 	static const char decoding_size = sizeof(decoding);
 	value_in -= 43;
-	if (value_in < 0 || value_in > decoding_size) return -1;
+	if (value_in < 0 || value_in >= decoding_size) return -1;
 	return decoding[(int)value_in];
 }
 
-- 
2.43.0


From edfa4f052c7dc63fa3029fb0e31b5ec9418c8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 08/32] fix: return NULL for any index of an empty heap

---
 libmy/heap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/heap.c b/libmy/heap.c
index ae00269..ef9e585 100644
--- a/libmy/heap.c
+++ b/libmy/heap.c
@@ -170,7 +170,7 @@ heap_peek(struct heap *h)
 void *
 heap_get(struct heap *h, size_t i)
 {
-	if (i > ptrvec_size(h->vec) - 1)
+	if (i >= ptrvec_size(h->vec))
 		return (NULL);
 	return (ptrvec_value(h->vec, i));
 }
-- 
2.43.0


From 73f42f618701341141d48d936840b322b2ba960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:32 +0000
Subject: [PATCH 09/32] fix: keep the fraction of times past 2^31 seconds

---
 libmy/my_time.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/my_time.h b/libmy/my_time.h
index bc3afd3..3e3aa02 100644
--- a/libmy/my_time.h
+++ b/libmy/my_time.h
@@ -80,7 +80,7 @@ my_timespec_to_double(const struct timespec *ts)
 static inline void
 my_timespec_from_double(double seconds, struct timespec *ts) {
 	ts->tv_sec = (time_t) seconds;
-	ts->tv_nsec = (long) ((seconds - ((int) seconds)) * 1E9);
+	ts->tv_nsec = (long) ((seconds - (double) ts->tv_sec) * 1E9);
 }
 
 static inline void
-- 
2.43.0


From 01a926992754b62288c6c7af2018e2ab9938b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 10/32] fix: keep the rate limiter limiting when its rate is
 adjusted

---
 libmy/my_rate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmy/my_rate.c b/libmy/my_rate.c
index 903bc22..db3db75 100644
--- a/libmy/my_rate.c
+++ b/libmy/my_rate.c
@@ -25,7 +25,8 @@
 struct my_rate {
 	struct timespec next_tick, period, start;
 	uint64_t	count;
-	unsigned	adj_rate, rate, freq;
+	double		adj_rate;
+	unsigned	rate, freq;
 };
 
 static inline int64_t
@@ -63,8 +64,7 @@ static inline void
 adjust_rate(struct my_rate *r, struct timespec *now)
 {
 	struct timespec elapsed;
-	double ratio;
-	unsigned actual_rate;
+	double ratio, actual_rate;
 
 	/* amount of time elapsed since first sleep */
 	elapsed = *now;
-- 
2.43.0


From 01c8012f4055612b099e1146a2d7ac8bfea6d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 11/32] fix: escape backslashes when printing strings

---
 libmy/print_string.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libmy/print_string.h b/libmy/print_string.h
index 3b04913..746e039 100644
--- a/libmy/print_string.h
+++ b/libmy/print_string.h
@@ -29,10 +29,9 @@ print_string(const void *data, size_t len, FILE *out)
 	while (len-- != 0) {
 		unsigned c = *(str++);
 		if (isprint(c)) {
-			if (c == '"')
-				fputs("\\\"", out);
-			else
-				fputc(c, out);
+			if (c == '"' || c == '\\')
+				fputc('\\', out);
+			fputc(c, out);
 		} else {
 			fprintf(out, "\\x%02x", c);
 		}
-- 
2.43.0


From e6c720c8223a7325d3acca1d050af63564885dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 12/32] fix: return all 64 bits from atomic64_zero

---
 libmy/atomic_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmy/atomic_64.h b/libmy/atomic_64.h
index 8f4146c..ec61aed 100644
--- a/libmy/atomic_64.h
+++ b/libmy/atomic_64.h
@@ -57,7 +57,7 @@ atomic64_sub(int i, atomic64_t *v) {
  *
  * @param v pointer of type atomic64_t
  */
-static inline int
+static inline int64_t
 atomic64_zero(atomic64_t *v) {
 	return (__sync_fetch_and_and(&v->counter, 0));
 }
-- 
2.43.0


From 5413344d118844cb1ffff896bfec4f3b4ef2301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:52 +0000
Subject: [PATCH 13/32] fix: refuse empty and out-of-range integers in the
 environment

---
 libmy/getenv_int.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmy/getenv_int.h b/libmy/getenv_int.h
index 4576116..74f9b34 100644
--- a/libmy/getenv_int.h
+++ b/libmy/getenv_int.h
@@ -1,6 +1,7 @@
 #ifndef MY_GETENV_INT_H
 #define MY_GETENV_INT_H
 
+#include <errno.h>
 #include <stdbool.h>
 #include <stdlib.h>
 #include <stdint.h>
@@ -13,8 +14,9 @@ getenv_int(const char *name, uint64_t *value) {
 	if (s == NULL)
 		return (false);
 
+	errno = 0;
 	*value = strtoul(s, &t, 0);
-	if (*t != '\0')
+	if (t == s || *t != '\0' || errno == ERANGE)
 		return (false);
 	return (true);
 }
-- 
2.43.0


From 943144594d2a15745125f2305ac90f6e476552bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:29 +0000
Subject: [PATCH 14/32] fix: do not abort when merging long rrtype sets

The bound in the assertions was sizeof(buffer)/sizeof(pointer) = 1024 bytes,
and a set with bits in all 256 window blocks needs more than 8 kB.
---
 dnstable/merge.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dnstable/merge.c b/dnstable/merge.c
index a0b63f1..1f54d43 100644
--- a/dnstable/merge.c
+++ b/dnstable/merge.c
@@ -120,7 +120,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 	memset(bitmap, 0, sizeof(bitmap));
 	uint8_t window_block = 0;
 	uint8_t	bitmap_len = 0;
-	uint8_t result_data[65536 / 8];
+	uint8_t result_data[256 * (1 + 1 + 32)];	/* 256 blocks: window, length, bitmap */
 	uint16_t result_index = 0;
 
 	for (int n = 0; n < count_rrtypes; n++) {
@@ -131,7 +131,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 			/* Per RFC6840, do not write out an empty bitmap */
 			if (bitmap_len > 0) {
 				assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-				       < sizeof(result_data)/sizeof(&result_data[0]));
+				       <= sizeof(result_data));
 
 				memcpy(&result_data[result_index], (const uint8_t*)&window_block,
 				       sizeof(window_block));
@@ -160,7 +160,7 @@ merge_rrtype_bitmaps(const uint8_t *val0, size_t len_val0,
 
 	if (bitmap_len != 0) {
 		assert((result_index + sizeof(window_block) + sizeof(bitmap_len) + bitmap_len)
-		       < sizeof(result_data)/sizeof(&result_data[0]));
+		       <= sizeof(result_data));
 
 		memcpy(&result_data[result_index], (const uint8_t*)&window_block, sizeof(window_block));
 		result_index += sizeof(window_block);
-- 
2.43.0


From 274bded4c1dfa7a8ea89d5054da77709ab9b3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:18 +0000
Subject: [PATCH 15/32] fix: refuse rrtype bitmap blocks longer than 32 bytes

The types listed from such a block were ORed into the window number, so they
came out of order or twice, which merging relies on not happening.
---
 dnstable/entry.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index b4ad170..0827571 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -1136,7 +1136,7 @@ rrtype_union_unpack(const uint8_t *rrtype_map, size_t rrtype_map_size, rrtype_un
 		rrtype_map_size -= 2;
 		rrtype_map += 2;
 
-		if (block_len < 1 || rrtype_map_size < block_len)
+		if (block_len < 1 || block_len > 32 || rrtype_map_size < block_len)
 			return -1; /* corrupt encoding */
 
 		uint16_t lo = 0;
-- 
2.43.0


From a36f046764d3ad03c3f673dcdcb9f5f0d1376dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 16/32] fix: do not decode rrtypes past the end of a key when
 filtering

---
 dnstable/query.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index eb74967..0b02d9c 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -769,7 +769,7 @@ filter_rrtype(void *user, struct mtbl_iter *seek_iter,
 		assert(0);
 	}
 
-	if (mtbl_varint_decode32(&key[len+1], &rrtype) == 0)
+	if (bounded_varint_decode32(&key[len+1], len_key - (len+1), &rrtype) == 0)
 		return (mtbl_res_success);
 
 	if (rrtype == it->query->rrtype)
@@ -805,7 +805,8 @@ filter_rrtype_rdata_name(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len = rdlen;
-	mtbl_varint_decode32(&key[len+1], &rrtype);
+	if (bounded_varint_decode32(&key[len+1], len_key - (len+1), &rrtype) == 0)
+		return (mtbl_res_success);
 
 	switch(rrtype) {
 	CASE_RDATA_NAME_TYPE_ALL:
@@ -823,7 +824,7 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 {
 	struct query_iter *it = user;
 	struct dnstable_query *q = it->query;
-	size_t len, len_name;
+	size_t len, len_name, len_rrtype;
 	uint32_t rrtype;
 
 	*match = false;
@@ -833,7 +834,10 @@ filter_bailiwick(void *user, struct mtbl_iter *seek_iter,
 		return (mtbl_res_success);
 
 	len ++;
-	len += mtbl_varint_decode32(&key[len], &rrtype);
+	len_rrtype = bounded_varint_decode32(&key[len], len_key - len, &rrtype);
+	if (len_rrtype == 0)
+		return (mtbl_res_success);
+	len += len_rrtype;
 	if (len >= len_key)
 		return (mtbl_res_success);
 
-- 
2.43.0


From 98417c0bd1c786e6841875e4c68b26acae65c4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 17/32] fix: do not compare past the end of a short key in
 address queries

---
 dnstable/query.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 0b02d9c..ac3638a 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1141,7 +1141,8 @@ filter_rrtype_ip(void *user, struct mtbl_iter *seek_iter,
 		add_rrtype_to_key(seek_key, it->query->rrtype);
 
 		ret = bytes_compare(ubuf_data(seek_key), ubuf_size(seek_key),
-					key, ubuf_size(seek_key));
+					key, len_key < ubuf_size(seek_key) ?
+					     len_key : ubuf_size(seek_key));
 		if (ret < 0) {
 			/*
 			 * If the start key sorts before the current key, the
-- 
2.43.0


From 43a6e78cc70d08232294c382742a81f266042bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 18/32] fix: do not take the end of a longer label for a
 right-hand wildcard

---
 dnstable/query.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index ac3638a..51b58c0 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -1488,7 +1488,16 @@ is_right_wildcard(struct dnstable_query *q)
 {
 	const wdns_name_t *name = &q->name;
 
-	if (name->len >= 3 &&
+	size_t pos = 0;
+
+	if (name->len < 3)
+		return (false);
+
+	/* the bytes to compare must be the last label, not the end of a longer one */
+	while (pos < name->len - 3)
+		pos += name->data[pos] + 1;
+
+	if (pos == name->len - 3 &&
 	    name->data[name->len - 3] == '\x01' &&
 	   (name->data[name->len - 2] == '*' || name->data[name->len - 2] == '+')) {
 		q->dq_wildplus = name->data[name->len - 2] == '+';
-- 
2.43.0


From bf3c390d868b31a4fe598e1d11e561324e9da1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 19/32] fix: apply the offset of a query to each of its
 iterators

---
 dnstable/query.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 51b58c0..d7019f7 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -112,6 +112,7 @@ struct query_iter {
 	/* remove_strict and possibly ljoin applied in between the time filters. */
 	struct filter_mtbl	*filter_time;
 	struct filter_mtbl	*filter_offset;
+	uint64_t		offset_remaining;
 	struct {
 		uint64_t fileset_merged;
 		uint64_t fileset_files;
@@ -946,12 +947,11 @@ filter_offset(void *user, struct mtbl_iter *seek_iter,
 	      bool *match)
 {
 	struct query_iter *it = user;
-	struct dnstable_query *q = it->query;
 
 	*match = true;
-	if (q->offset > 0) {
+	if (it->offset_remaining > 0) {
 		*match = false;
-		q->offset--;
+		it->offset_remaining--;
 	}
 	return (mtbl_res_success);
 }
@@ -1810,6 +1810,7 @@ dnstable_query_iter_common(struct query_iter *it)
 
 	/* Seeing if we've hit the user supplied offset is always the first check */
 	if (q->offset > 0) {
+		it->offset_remaining = q->offset;
 		FILTER_SET(filter_offset, source);
 	}
 
-- 
2.43.0


From c76eacdaad2bdeea868991c43f8ba76bbbb0bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 20/32] fix: compute the bounds of IPv4 /0 and /1 prefixes

---
 libmy/ip_arith.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index c0390fd..264f395 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -34,7 +34,7 @@ static inline void
 ip4_lower(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr &= htobe32(~((1 << (32 - prefix_len)) - 1));
+	addr &= htobe32(prefix_len == 0 ? 0 : UINT32_MAX << (32 - prefix_len));
 	memcpy(out, &addr, 4);
 }
 
@@ -44,7 +44,7 @@ static inline void
 ip4_upper(const void *address, unsigned prefix_len, void *out) {
 	uint32_t addr;
 	memcpy(&addr, address, 4);
-	addr |= htobe32((1 << (32 - prefix_len)) - 1);
+	addr |= htobe32(prefix_len == 0 ? UINT32_MAX : ~(UINT32_MAX << (32 - prefix_len)));
 	memcpy(out, &addr, 4);
 }
 
-- 
2.43.0


From 1bfb39078a03c0aaf45b387c3d3ded3188b1f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 21/32] fix: do not shift by the word width for IPv6 /0 and /64
 prefixes

---
 libmy/ip_arith.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmy/ip_arith.h b/libmy/ip_arith.h
index 264f395..b146d14 100644
--- a/libmy/ip_arith.h
+++ b/libmy/ip_arith.h
@@ -65,12 +65,12 @@ ip6_lower(const void *address, unsigned prefix_len, void *lower)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[0] = htobe64((prefix_len == 0 ? 0 : UINT64_MAX << (64 - prefix_len)));
 		mask[1] = htobe64(0);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(UINT64_MAX);
-		mask[1] = htobe64(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len));
+		mask[1] = htobe64((prefix_len == 0 ? 0 : UINT64_MAX << (64 - prefix_len)));
 	} else {
 		memset(mask, 0xFF, sizeof(mask));
 	}
@@ -87,12 +87,12 @@ ip6_upper(const void *address, unsigned prefix_len, void *upper)
 {
 	uint64_t addr[2], mask[2];
 	if (prefix_len < 64) {
-		mask[0] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[0] = htobe64(~((prefix_len == 0 ? 0 : UINT64_MAX << (64 - prefix_len))));
 		mask[1] = htobe64(UINT64_MAX);
 	} else if (prefix_len < 128) {
 		prefix_len -= 64;
 		mask[0] = htobe64(0);
-		mask[1] = htobe64(~(((1ULL << prefix_len) - 1ULL) << (64ULL - prefix_len)));
+		mask[1] = htobe64(~((prefix_len == 0 ? 0 : UINT64_MAX << (64 - prefix_len))));
 	} else {
 		memset(&mask, 0, sizeof(mask));
 	}
-- 
2.43.0


From cfcafc4d4086110781de8e2096b15528a61cb580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 22/32] fix: leave the query unchanged when an address or range
 is refused

---
 dnstable/query.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index d7019f7..9b88673 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -252,17 +252,23 @@ query_set_data_rdata_ip_range(struct dnstable_query *q, const char *data)
 	char *s = my_strdup(data);
 	char *addr1, *addr2;
 	char *saveptr = NULL;
+	uint8_t ip1[16], ip2[16];
+	uint8_t len_ip1, len_ip2;
 
 	if ((addr1 = strtok_r(s, "-", &saveptr)) == NULL) goto out;
 	if ((addr2 = strtok_r(NULL, "-", &saveptr)) == NULL) goto out;
 	if (strtok_r(NULL, "-", &saveptr) != NULL) goto out;
 
-	if (!query_load_address(q, addr1, q->ip1, &q->len_ip1)) goto out;
-	if (!query_load_address(q, addr2, q->ip2, &q->len_ip2)) goto out;
-	if (q->len_ip1 != q->len_ip2) {
+	if (!query_load_address(q, addr1, ip1, &len_ip1)) goto out;
+	if (!query_load_address(q, addr2, ip2, &len_ip2)) goto out;
+	if (len_ip1 != len_ip2) {
 		query_set_err(q, "address family mismatch in IP range");
 		goto out;
 	}
+	memcpy(q->ip1, ip1, len_ip1);
+	memcpy(q->ip2, ip2, len_ip2);
+	q->len_ip1 = len_ip1;
+	q->len_ip2 = len_ip2;
 	q->do_rrtype = true;
 	if (q->len_ip1 == 4) {
 		q->rrtype = WDNS_TYPE_A;
@@ -335,9 +341,14 @@ out:
 static dnstable_res
 query_set_data_rdata_ip_address(struct dnstable_query *q, const char *data)
 {
-	q->len_ip2 = 0;
-	if (!query_load_address(q, data, q->ip1, &q->len_ip1))
+	uint8_t ip[16];
+	uint8_t len_ip;
+
+	if (!query_load_address(q, data, ip, &len_ip))
 		return (dnstable_res_failure);
+	memcpy(q->ip1, ip, len_ip);
+	q->len_ip1 = len_ip;
+	q->len_ip2 = 0;
 	q->do_rrtype = true;
 	if (q->len_ip1 == 4)
 		q->rrtype = WDNS_TYPE_A;
-- 
2.43.0


From 1f83f2fea036a7d7d9cda93966674c6abdc51f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 23/32] fix: forget the length of raw data that has been freed
 or refused

---
 dnstable/query.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 9b88673..ed790cb 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -240,9 +240,14 @@ static dnstable_res
 query_set_data_rdata_raw(struct dnstable_query *q, const char *data)
 {
 	my_free(q->rdata);
+	q->len_rdata = 0;
 	if (data == NULL)
 		return (dnstable_res_success);
-	return hex_decode(data, &q->rdata, &q->len_rdata);
+	if (!hex_decode(data, &q->rdata, &q->len_rdata)) {
+		q->len_rdata = 0;
+		return (dnstable_res_failure);
+	}
+	return (dnstable_res_success);
 }
 
 static dnstable_res
-- 
2.43.0


From 7541ef1020c47af4d037906639078db41a9b7684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 24/32] fix: allow source info queries to be created

---
 dnstable/query.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index ed790cb..00ea7bd 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -167,6 +167,7 @@ dnstable_query_init(dnstable_query_type q_type)
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_IP ||
 	       q_type == DNSTABLE_QUERY_TYPE_RDATA_RAW ||
 	       q_type == DNSTABLE_QUERY_TYPE_TIME_RANGE ||
+	       q_type == DNSTABLE_QUERY_TYPE_SOURCE_INFO ||
 	       q_type == DNSTABLE_QUERY_TYPE_VERSION);
 	struct dnstable_query *q = my_calloc(1, sizeof(*q));
 	q->q_type = q_type;
-- 
2.43.0


From faba934442901b667162416e1e571f8353f69232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:33 +0000
Subject: [PATCH 25/32] fix: free the saved bounds of a remove iterator

---
 dnstable/query_mtbl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dnstable/query_mtbl.c b/dnstable/query_mtbl.c
index 951af15..e4717c3 100644
--- a/dnstable/query_mtbl.c
+++ b/dnstable/query_mtbl.c
@@ -727,6 +727,8 @@ remove_iter_free(void *impl)
 		mtbl_iter_destroy(&rit->entries[i].it);
 	}
 	free(rit->entries);
+	free(rit->key);
+	free(rit->key2);
 
 	free(rit);
 }
-- 
2.43.0


From eda7232f2828e27daba520468dd50cada7f86994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:12 +0000
Subject: [PATCH 26/32] fix: treat every spelling of record type 255 as no type
 filter

Spellings of type 255 other than ANY and TYPE255 (TYPE0255, for one) were
taken as a filter for type 255, for which add_rrtype_to_key() aborts.
---
 dnstable/query.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dnstable/query.c b/dnstable/query.c
index 00ea7bd..6deb66a 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -448,6 +448,11 @@ dnstable_query_set_rrtype(struct dnstable_query *q, const char *s_rrtype)
 		query_set_err(q, "unknown rrtype mnemonic");
 		return (dnstable_res_failure);
 	}
+	if (rrtype == WDNS_TYPE_ANY) {
+		/* Other spellings of type 255, such as "TYPE0255". */
+		q->do_rrtype = false;
+		return (dnstable_res_success);
+	}
 	q->rrtype = rrtype;
 	q->do_rrtype = true;
 	return (dnstable_res_success);
-- 
2.43.0


From df12dbc12bd97535ce3e87f9496a0728ca69c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:37 +0000
Subject: [PATCH 27/32] fix: share the handling of record type ANY between its
 spellings

---
 dnstable/query.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dnstable/query.c b/dnstable/query.c
index 6deb66a..a8d9c3d 100644
--- a/dnstable/query.c
+++ b/dnstable/query.c
@@ -450,8 +450,7 @@ dnstable_query_set_rrtype(struct dnstable_query *q, const char *s_rrtype)
 	}
 	if (rrtype == WDNS_TYPE_ANY) {
 		/* Other spellings of type 255, such as "TYPE0255". */
-		q->do_rrtype = false;
-		return (dnstable_res_success);
+		return dnstable_query_set_rrtype(q, "ANY");
 	}
 	q->rrtype = rrtype;
 	q->do_rrtype = true;
-- 
2.43.0


From 261358103f1adcfebad1e89ea7375f34d53b4b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:30 +0000
Subject: [PATCH 28/32] fix: reread a file set's list after it could not be
 opened

---
 libmy/my_fileset.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 09f5078..7278f05 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -60,23 +60,17 @@ path_exists(const char *path)
 }
 
 static bool
-setfile_updated(struct my_fileset *fs)
+setfile_updated(struct my_fileset *fs, struct stat *ss)
 {
-	struct stat ss;
 	int ret;
 
-	ret = stat(fs->setfile, &ss);
+	ret = stat(fs->setfile, ss);
 	if (ret < 0) {
 		fprintf(stderr, "%s: stat('%s') failed: %s\n",
 			__func__, fs->setfile, strerror(errno));
 		return (false);
 	}
-	if (fs->last_ino != ss.st_ino || fs->last_mtime != ss.st_mtime) {
-		fs->last_ino = ss.st_ino;
-		fs->last_mtime = ss.st_mtime;
-		return (true);
-	}
-	return (false);
+	return (fs->last_ino != ss->st_ino || fs->last_mtime != ss->st_mtime);
 }
 
 static int
@@ -158,18 +152,23 @@ my_fileset_reload(struct my_fileset *fs)
 	assert(fs != NULL);
 	struct fileset_entry *ent, **entptr;
 	entry_vec *new_entries;
+	struct stat ss;
 	FILE *fp;
 	char *fname, *line = NULL;
 	size_t len = 0;
 	ubuf *u;
 
-	if (!setfile_updated(fs))
+	if (!setfile_updated(fs, &ss))
 		return;
 
 	fp = fopen(fs->setfile, "r");
 	if (fp == NULL)
 		return;
 
+	/* Only once it can be read, so that a failure above is retried. */
+	fs->last_ino = ss.st_ino;
+	fs->last_mtime = ss.st_mtime;
+
 	u = ubuf_init(64);
 	new_entries = entry_vec_init(1);
 
-- 
2.43.0


From 4300485e2f01911a993c5c08def95f1b30948a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:30 +0000
Subject: [PATCH 29/32] fix: open a file listed twice in a file set once

---
 libmy/my_fileset.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libmy/my_fileset.c b/libmy/my_fileset.c
index 7278f05..52f0f01 100644
--- a/libmy/my_fileset.c
+++ b/libmy/my_fileset.c
@@ -101,6 +101,16 @@ fetch_entry(entry_vec *entries, char *fname)
 	return (ent);
 }
 
+static bool
+has_entry(entry_vec *entries, const char *fname)
+{
+	for (size_t i = 0; i < entry_vec_size(entries); i++) {
+		if (strcmp(entry_vec_value(entries, i)->fname, fname) == 0)
+			return (true);
+	}
+	return (false);
+}
+
 struct my_fileset *
 my_fileset_init(
 	const char *setfile,
@@ -179,7 +189,8 @@ my_fileset_reload(struct my_fileset *fs)
 		ubuf_add_cstr(u, line);
 		ubuf_rstrip(u, '\n');
 		fname = ubuf_cstr(u);
-		if (path_exists(fname)) {
+		/* A name listed twice is one file. */
+		if (path_exists(fname) && !has_entry(new_entries, fname)) {
 			entptr = fetch_entry(fs->entries, fname);
 			if (entptr == NULL) {
 				ent = my_calloc(1, sizeof(*ent));
-- 
2.43.0


From a8cc28e5b06eb62607bfd3e8bd17850796a8d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:11 +0000
Subject: [PATCH 30/32] fix: do not remove a spool file that another consumer
 has claimed

---
 libmy/spooldir.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmy/spooldir.c b/libmy/spooldir.c
index 6c7306d..b339558 100644
--- a/libmy/spooldir.c
+++ b/libmy/spooldir.c
@@ -184,10 +184,13 @@ spooldir_next(struct spooldir *s)
 	ubuf_add_fmt(s->fname, "/%s", fname);
 	ubuf_cterm(s->fname);
 
+	/*
+	 * rename() replaces the destination, and leaves it alone if it fails:
+	 * another consumer may just have claimed this very file.
+	 */
 	if (path_exists(ubuf_cstr(s->fname))) {
-		fprintf(stderr, "%s: WARNING: unlinking destination path %s\n",
+		fprintf(stderr, "%s: WARNING: replacing destination path %s\n",
 			__func__, ubuf_cstr(s->fname));
-		unlink(ubuf_cstr(s->fname));
 	}
 
 	int rename_ret = rename(ubuf_cstr(src_fname), ubuf_cstr(s->fname));
-- 
2.43.0


From 5418cc88b99f7c7b70a15c6d040f78b966526ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:09 +0000
Subject: [PATCH 31/32] fix: leave room for the locale's digit grouping in
 counts

---
 dnstable/entry.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index 0827571..bc695e7 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -63,7 +63,8 @@ dnstable_entry_to_json_fmt(const struct dnstable_entry *e,
 static void
 fmt_uint64(ubuf *u, uint64_t v)
 {
-	char s[sizeof("18,446,744,073,709,551,615")];
+	/* the grouping character of the locale may take several bytes */
+	char s[sizeof("18446744073709551615") + 6 * MB_LEN_MAX];
 	int ret = snprintf(s, sizeof(s), "%'" PRIu64, v);
 	ubuf_append(u, (const uint8_t*) s, ret);
 }
-- 
2.43.0


From 68a540adf5d87e3b0dc48257fec5e660a7334db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:09 +0000
Subject: [PATCH 32/32] fix: format times that have no four-digit year as
 seconds

---
 dnstable/entry.c | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/dnstable/entry.c b/dnstable/entry.c
index bc695e7..5126d40 100644
--- a/dnstable/entry.c
+++ b/dnstable/entry.c
@@ -69,17 +69,29 @@ fmt_uint64(ubuf *u, uint64_t v)
 	ubuf_append(u, (const uint8_t*) s, ret);
 }
 
+/* The last second that the formats with a date can express. */
+#define TIME_MAX_RFC3339	UINT64_C(253402300799)	/* 9999-12-31T23:59:59Z */
+
+/* Convert seconds since the epoch, unless they exceed max or have no date. */
+static bool
+time_to_tm(uint64_t v, uint64_t max, struct tm *gm)
+{
+	time_t tm = v;
+	return (v <= max && gmtime_r(&tm, gm) != NULL);
+}
+
 static void
 fmt_time(ubuf *u, uint64_t v)
 {
-	struct tm gm, *r;
-	time_t tm = v;
+	struct tm gm;
 	char s[sizeof("4294967295-12-31 23:59:59 -0000")];
 	size_t len;
 
-	r = gmtime_r(&tm, &gm);
-	if ((r != NULL) && ((len = strftime(s, sizeof(s), "%Y-%m-%d %H:%M:%S -0000", r)) > 0))
+	if (time_to_tm(v, INT64_MAX, &gm) &&
+	    (len = strftime(s, sizeof(s), "%Y-%m-%d %H:%M:%S -0000", &gm)) > 0)
 		ubuf_append(u, (const uint8_t*) s, len);
+	else
+		append_json_value_int(u, v);
 }
 
 static inline void
@@ -102,14 +114,16 @@ fmt_rfc3339(const struct tm *src, char *dst)
 static void
 fmt_rfc3339_time(ubuf *u, uint64_t v)
 {
-	struct tm gm, *r;
-	time_t tm = v;
+	struct tm gm;
 	char ts[]="0000-00-00T00:00:00Z";
 
-	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
+	/* a time without such a date is given in seconds */
+	if (!time_to_tm(v, TIME_MAX_RFC3339, &gm)) {
+		append_json_value_int(u, v);
+		return;
+	}
 
-	fmt_rfc3339(r, ts);
+	fmt_rfc3339(&gm, ts);
 
 	/*
 	 * fmt_rfc3339 will completely fill the ts array, so ubuf_append_cstr_lit can compute the string
@@ -121,14 +135,16 @@ fmt_rfc3339_time(ubuf *u, uint64_t v)
 static void
 fmt_rfc3339_time_json(ubuf *u, uint64_t v)
 {
-	struct tm gm, *r;
-	time_t tm = v;
+	struct tm gm;
 	char ts[] = "0000-00-00T00:00:00Z";
 
-	r = gmtime_r(&tm, &gm);
-	assert(r != NULL);
+	/* a time without such a date is given in seconds */
+	if (!time_to_tm(v, TIME_MAX_RFC3339, &gm)) {
+		append_json_value_int(u, v);
+		return;
+	}
 
-	fmt_rfc3339(r, ts);
+	fmt_rfc3339(&gm, ts);
 
 	/*
 	 * fmt_rfc3339 will completely fill the ts array, so sizeof can be used to compute the string length
-- 
2.43.0

