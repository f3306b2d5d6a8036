From 8f37874fe8c22387366fcd7b01ef4bf4c3a66850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 01/56] fix: converting a partly read stream to a byte array
 returns only the unread bytes

---
 include/salticidae/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 1ac166a..22d0d00 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -188,7 +188,9 @@ class DataStream {
     }
 
     operator bytearray_t () && {
-        return buffer;
+        buffer.erase(buffer.begin(), buffer.begin() + offset);
+        offset = 0;
+        return std::move(buffer);
     }
 
     operator std::string () const & {
-- 
2.43.0


From 498ae2be12a1bf6dd5b71b74510199ba3cdc1a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 02/56] fix: a refused raw read leaves the stream position
 unchanged and cannot wrap around

---
 include/salticidae/stream.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 22d0d00..553886d 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -115,11 +115,11 @@ class DataStream {
 
     const uint8_t *get_data_inplace(size_t len) {
         auto res = (uint8_t *)&*(buffer.begin() + offset);
-        offset += len;
 #ifndef SALTICIDAE_NOCHECK
-        if (offset > buffer.size())
+        if (len > size())
             throw std::ios_base::failure("insufficient buffer");
 #endif
+        offset += len;
         return res;
     }
 
-- 
2.43.0


From 022ec011c6af63b980e63cb4fdfe3ee9f08e060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 03/56] fix: reject hex strings with non-hex characters

---
 include/salticidae/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 553886d..23d2595 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -170,7 +170,8 @@ class DataStream {
         const char *p;
         uint8_t *bp;
         unsigned int tmp;
-        if (len & 1)
+        if ((len & 1) ||
+            hex_str.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
             throw std::invalid_argument("not a valid hex string");
         buffer.resize(len >> 1);
         offset = 0;
-- 
2.43.0


From fbddff4ab0842f40fda0763d6d187e5db9491cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 04/56] fix: load all bytes of a word in Bits::load without
 overflowing int

---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 23d2595..2ccfd66 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -357,7 +357,7 @@ class _Bits {
         {
             _impl_type x = 0;
             for (unsigned j = 0, k = 0; j < sizeof(_impl_type); j++, k += 8)
-                if (arr < end) x |= *(arr++) << k;
+                if (arr < end) x |= (_impl_type)*(arr++) << k;
             *(ptr++) = x;
         }
     }
-- 
2.43.0


From c0dc723834a88b094ecb3138173c1cffa01531e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 05/56] fix: check the declared size of a serialised bit set
 against the data before allocating

---
 include/salticidae/stream.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 2ccfd66..7848f7e 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -329,7 +329,7 @@ class _Bits {
 
     public:
 
-    _Bits(): data(nullptr) {}
+    _Bits(): data(nullptr), nbits(0), ndata(0) {}
     _Bits(const bytearray_t &arr) {
         load(&*arr.begin(), arr.size());
     }
@@ -381,9 +381,14 @@ class _Bits {
     }
 
     void unserialize(DataStream &s) {
-        s >> nbits;
-        nbits = letoh(nbits);
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
+        uint32_t n;
+        s >> n;
+        n = letoh(n);
+        size_t nd = ((size_t)n + bit_per_datum - 1) / bit_per_datum;
+        if (nd * sizeof(_impl_type) > s.size())
+            throw std::ios_base::failure("insufficient buffer");
+        nbits = n;
+        ndata = nd;
         data = new _impl_type[ndata];
         for (_impl_type *ptr = data.get(); ptr < data.get() + ndata; ptr++)
         {
-- 
2.43.0


From 23843451772bdea2df0a1e97ab2201cdcb5bbff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 06/56] fix: report failed reads through the C stream interface

---
 src/stream.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stream.cpp b/src/stream.cpp
index 6b208aa..6c65681 100644
--- a/src/stream.cpp
+++ b/src/stream.cpp
@@ -99,15 +99,15 @@ bool datastream_put_data(datastream_t *self, const uint8_t *base, size_t size) {
     return true;
 }
 
-uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-
-int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
+uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+
+int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
 
 const uint8_t *datastream_get_data_inplace(datastream_t *self, size_t len) {
     try {
-- 
2.43.0


From 69751628818ce00cc7303e15c6ac2efe022b6c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 07/56] fix: check the declared length of a hash list against
 the data before allocating

---
 include/salticidae/msg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/msg.h b/include/salticidae/msg.h
index 11cf309..c12e141 100644
--- a/include/salticidae/msg.h
+++ b/include/salticidae/msg.h
@@ -253,6 +253,8 @@ class MsgBase {
         s >> size;
         size = letoh(size);
 
+        if (size > s.size() / (256 / 8))
+            throw std::ios_base::failure("insufficient buffer");
         hashes.resize(size);
         for (auto &hash: hashes) s >> hash;
     }
-- 
2.43.0


From 38f31878fc145afa221a47604d69ff7d54c370ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 08/56] fix: SegBuffer::move_pop returns only the unread part
 of the front segment

---
 include/salticidae/buffer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/buffer.h b/include/salticidae/buffer.h
index 6d3f97a..e7f2e66 100644
--- a/include/salticidae/buffer.h
+++ b/include/salticidae/buffer.h
@@ -84,7 +84,10 @@ class SegBuffer {
     }
 
     bytearray_t move_pop() {
-        auto res = std::move(buffer.front().data);
+        auto &front = buffer.front();
+        auto offset = front.offset - front.data.begin();
+        auto res = std::move(front.data);
+        res.erase(res.begin(), res.begin() + offset);
         buffer.pop_front();
         _size -= res.size();
         return res;
-- 
2.43.0


From 21955f9235b57049e9f18a1be1794c5891930517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:01 +0000
Subject: [PATCH 09/56] hook: allow verification builds to override the queue
 block size

---
 include/salticidae/queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index 77636e8..7f881c0 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -87,7 +87,11 @@ class FreeList {
     }
 };
 
+#ifdef SALTICIDAE_VERIF_MPMCQ_SIZE
+const size_t MPMCQ_SIZE = SALTICIDAE_VERIF_MPMCQ_SIZE;
+#else
 const size_t MPMCQ_SIZE = 4096;
+#endif
 
 template<typename T>
 class MPMCQueue {
-- 
2.43.0


From d833b4f0e66f6ea67372324265bbdcb834397a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:00 +0000
Subject: [PATCH 10/56] fix: a dequeue on a stale MPMC head block no longer
 claims slots of a recycled block

---
 include/salticidae/queue.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index 7f881c0..40b8321 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -210,6 +210,13 @@ class MPMCQueue {
             if (!hcnt) continue;
             if (!h->refcnt.compare_exchange_weak(hcnt, hcnt + 1, std::memory_order_relaxed))
                 continue;
+            /* h could have been retired (and even recycled) before the reference
+             * was taken; from now on it cannot be recycled */
+            if (this->head.load(std::memory_order_acquire) != h)
+            {
+                blks.release_ref(h);
+                continue;
+            }
 
             auto hh = h->head.load(std::memory_order_relaxed);
             auto tt = h->tail.load(std::memory_order_relaxed);
-- 
2.43.0


From 2c2ebbb137d3094422af1a49d9dd2df948eeced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:03 +0000
Subject: [PATCH 11/56] fix: a new queue block could be retired before its
 freed flag was cleared, losing elements

---
 include/salticidae/queue.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index 40b8321..c260962 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -140,6 +140,9 @@ class MPMCQueue {
                         }
                     }
                     auto nblk = static_cast<Block *>(_nblk);
+                    // a newly allocated block must not be used (and thus retired)
+                    // by others before its freed flag is cleared below
+                    nblk->freed.store(true, std::memory_order_relaxed);
                     nblk->head.store(0, std::memory_order_relaxed);
                     nblk->tail.store(0, std::memory_order_relaxed);
                     nblk->next.store(nullptr, std::memory_order_relaxed);
-- 
2.43.0


From e7fc35b0e50435f2bec77e377c1e0ff8a2e853bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:10 +0000
Subject: [PATCH 12/56] fix: casting a Box transfers the ownership instead of
 duplicating it

---
 include/salticidae/ref.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index bb5fb3a..b2e555b 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -151,6 +151,7 @@ template<typename T, typename D = default_delete<T>, typename T_, typename D_>
 BoxObj<T, D> static_pointer_cast(BoxObj<T_, D_> &&other) {
     BoxObj<T, D> box{};
     box.obj = static_cast<typename BoxObj<T, D>::type *>(other.obj);
+    other.obj = nullptr;
     return box;
 }
 
-- 
2.43.0


From 875ece5f702289f10a3762d83bbac1be25338462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:10 +0000
Subject: [PATCH 13/56] fix: a moved-from reference-counted pointer is null
 instead of dangling

---
 include/salticidae/ref.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index b2e555b..4fcdeb6 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -309,6 +309,7 @@ class _RcObjBase {
 
     _RcObjBase(_RcObjBase &&other):
             obj(other.obj), ctl(other.ctl) {
+        other.obj = nullptr;
         other.ctl = nullptr;
     }
 
@@ -321,6 +322,7 @@ class _RcObjBase {
     template<typename T_, typename D_>
     _RcObjBase(_RcObjBase<T_, R, D_> &&other):
             obj(other.obj), ctl(other.ctl) {
+        other.obj = nullptr;
         other.ctl = nullptr;
     }
 
@@ -457,6 +459,7 @@ RcObjBase<T, R_, D> static_pointer_cast(RcObjBase<T_, R_, D_> &&other) {
     RcObjBase<T, R_, D> rc{};
     rc.obj = static_cast<typename RcObjBase<T, R_, D>::type *>(other.obj);
     rc.ctl = other.ctl;
+    other.obj = nullptr;
     other.ctl = nullptr;
     return rc;
 }
-- 
2.43.0


From db946bbb82df82111c1e4ad91e22c4632fdc45ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:33 +0000
Subject: [PATCH 14/56] fix: atomic reference counting neither leaks its
 control block nor revives a dying object

---
 include/salticidae/ref.h | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index 4fcdeb6..f260ca0 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -159,6 +159,11 @@ struct _RCCtl {
     size_t ref_cnt;
     size_t weak_cnt;
     void add_ref() { ref_cnt++; }
+    bool try_add_ref() {
+        if (!ref_cnt) return false;
+        ref_cnt++;
+        return true;
+    }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
         if (--ref_cnt) return false;
@@ -178,25 +183,26 @@ struct _RCCtl {
 
 struct _ARCCtl {
     std::atomic_size_t ref_cnt;
+    /* number of weak references, plus one as long as there are strong ones */
     std::atomic_size_t weak_cnt;
-    std::atomic<std::uint8_t> dcnt;
     void add_ref() { ref_cnt++; }
+    bool try_add_ref() {
+        size_t cnt = ref_cnt.load();
+        while (cnt)
+            if (ref_cnt.compare_exchange_weak(cnt, cnt + 1)) return true;
+        return false;
+    }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
-        dcnt++;
-        if (--ref_cnt) { dcnt--; return false; }
-        if (weak_cnt) { dcnt--; return true; }
-        if (!--dcnt) delete this;
+        if (--ref_cnt) return false;
+        release_weak();
         return true;
     }
     void release_weak() {
-        dcnt++;
-        if (--weak_cnt) { dcnt--; return; }
-        if (ref_cnt) { dcnt--; return; }
-        if (!--dcnt) delete this;
+        if (!--weak_cnt) delete this;
     }
     size_t get_cnt() { return ref_cnt.load(); }
-    _ARCCtl(): ref_cnt(1), weak_cnt(0), dcnt(0) {}
+    _ARCCtl(): ref_cnt(1), weak_cnt(1) {}
     ~_ARCCtl() {}
 };
 
@@ -350,11 +356,10 @@ class _RcObjBase {
     }
 
     _RcObjBase(const _WeakObjBase<T, R> &other) {
-        if (other.ctl && other.ctl->ref_cnt)
+        if (other.ctl && other.ctl->try_add_ref())
         {
             obj = other.obj;
             ctl = other.ctl;
-            ctl->add_ref();
         }
         else
         {
-- 
2.43.0


From daced381904ea9bfef00dea9e896e78784bc3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:40 +0000
Subject: [PATCH 15/56] fix: reject network addresses with trailing characters
 after the port

---
 include/salticidae/netaddr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/netaddr.h b/include/salticidae/netaddr.h
index 669ff27..bbc5971 100644
--- a/include/salticidae/netaddr.h
+++ b/include/salticidae/netaddr.h
@@ -66,7 +66,10 @@ struct NetAddr {
         std::string port_str = ip_port_addr.substr(pos + 1);
         long port;
         try {
-            port = std::stol(port_str.c_str());
+            size_t idx;
+            port = std::stol(port_str, &idx);
+            if (idx != port_str.length())
+                throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         } catch (std::logic_error &) {
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         }
-- 
2.43.0


From 32afb582b4a5fdaa517842fafeda95ddcdc2a6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:40 +0000
Subject: [PATCH 16/56] fix: formatted strings of 1024 or more characters keep
 their last character

---
 src/util.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 01f6b06..0a9c058 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -121,10 +121,14 @@ std::string vstringprintf(const char *fmt, va_list _ap) {
     else
     {
         buff.resize(nwrote);
-        if (nwrote > guessed_size)
+        if (nwrote >= guessed_size)
         {
-            if (vsnprintf(&buff[0], nwrote, fmt, ap) != nwrote)
+            /* one more byte for the terminating null character */
+            buff.resize(nwrote + 1);
+            if (vsnprintf(&buff[0], nwrote + 1, fmt, ap) != nwrote)
                 buff = "";
+            else
+                buff.resize(nwrote);
         }
     }
     va_end(ap);
-- 
2.43.0


From 72f249c7f0715c37ac4896071aeaddb78c6ac8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:40 +0000
Subject: [PATCH 17/56] fix: errors built from a text have a defined os error
 code

---
 include/salticidae/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 1ad81c1..6656067 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -125,10 +125,10 @@ class SalticidaeError: public std::exception {
     int oscode;
 
     public:
-    SalticidaeError() : code(SALTI_NORMAL) {}
+    SalticidaeError() : code(SALTI_NORMAL), oscode(0) {}
 
     template<typename... Args>
-    SalticidaeError(const std::string &fmt, Args... args): code(SALTI_ERROR_GENERIC) {
+    SalticidaeError(const std::string &fmt, Args... args): code(SALTI_ERROR_GENERIC), oscode(0) {
         msg = stringprintf(fmt.c_str(), args...);
     }
 
-- 
2.43.0


From 2f8e3bbe23bcb99d962a22322059002571b6e0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:12 +0000
Subject: [PATCH 18/56] fix: reject a second option with the same short name

---
 src/util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index 0a9c058..b09f61d 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -242,7 +242,8 @@ Config::Opt::Opt(const std::string &optname, const std::string &optdoc,
 void Config::add_opt(const std::string &optname, const optval_t &optval, Action action,
                     char short_opt,
                     const std::string &optdoc) {
-    if (conf.count(optname))
+    if (conf.count(optname) ||
+        (short_opt != -1 && conf.count(std::string(1, short_opt))))
         throw SalticidaeError(SALTI_ERROR_OPTNAME_ALREADY_EXISTS);
     opts.push_back(new Opt(optname, optdoc,
                             optval, action, short_opt,
-- 
2.43.0


From 312ac0d9a8f3f5d8623c0af2c0ec5a2cd65be56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:22 +0000
Subject: [PATCH 19/56] fix: report out-of-range and partly numeric option
 values as invalid

---
 include/salticidae/util.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 6656067..6ae83c2 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -316,11 +316,15 @@ class Config {
         OptValInt(int val): val(val) {}
         void set_val(const std::string &strval) override {
             size_t idx;
+            int newval;
             try {
-                val = stoi(strval, &idx);
-            } catch (std::invalid_argument &) {
+                newval = stoi(strval, &idx);
+            } catch (std::logic_error &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
+            if (idx != strval.length())
+                throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
+            val = newval;
         }
         int &get() { return val; }
     };
@@ -336,11 +340,15 @@ class Config {
         OptValDouble(double val): val(val) {}
         void set_val(const std::string &strval) override {
             size_t idx;
+            double newval;
             try {
-                val = stod(strval, &idx);
-            } catch (std::invalid_argument &) {
+                newval = stod(strval, &idx);
+            } catch (std::logic_error &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
+            if (idx != strval.length())
+                throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
+            val = newval;
         }
         double &get() { return val; }
     };
-- 
2.43.0


From f7edb81600fc8f8efec451a11c419dde9eeed74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:42 +0000
Subject: [PATCH 20/56] fix: a failed key or certificate load closes the file

---
 include/salticidae/crypto.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index d17a919..8b7e23e 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -126,7 +126,7 @@ static inline int _tls_pem_no_passswd(char *, int, int, void *) {
 static inline int _tls_pem_with_passwd(char *buf, int size, int, void *) {
     size_t _size = strlen(_passwd) + 1;
     if (_size > (size_t)size)
-        throw SalticidaeError(SALTI_ERROR_TLS_X509);
+        return -1;
     memmove(buf, _passwd, _size);
     return _size - 1;
 }
@@ -177,9 +177,9 @@ class PKey {
         {
             key = PEM_read_PrivateKey(fp, NULL, _tls_pem_no_passswd, NULL);
         }
+        fclose(fp);
         if (key == nullptr)
             throw SalticidaeError(SALTI_ERROR_TLS_KEY);
-        fclose(fp);
         return PKey(key);
     }
 
@@ -265,9 +265,9 @@ class X509 {
         {
             x509 = PEM_read_X509(fp, NULL, _tls_pem_no_passswd, NULL);
         }
+        fclose(fp);
         if (x509 == nullptr)
             throw SalticidaeError(SALTI_ERROR_TLS_X509);
-        fclose(fp);
         return X509(x509);
     }
 
-- 
2.43.0


From 49f2329e0bd6eded56d64f53292a47eaaa2e7bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:54 +0000
Subject: [PATCH 21/56] fix: saving a key or certificate to an unwritable place
 is reported instead of crashing

---
 include/salticidae/crypto.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 8b7e23e..3d9b6c4 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -216,6 +216,8 @@ class PKey {
 
     void save_privkey_to_file(const std::string &fname) {
         FILE *fp = fopen(fname.c_str(), "wb");
+        if (fp == nullptr)
+            throw SalticidaeError(SALTI_ERROR_TLS_X509);
         auto ret = PEM_write_PrivateKey(fp, key, nullptr, nullptr, 0, nullptr, nullptr);
         fclose(fp);
         if (!ret)
@@ -300,6 +302,8 @@ class X509 {
 
     void save_to_file(const std::string &fname) {
         FILE *fp = fopen(fname.c_str(), "wb");
+        if (fp == nullptr)
+            throw SalticidaeError(SALTI_ERROR_TLS_X509);
         auto ret = PEM_write_X509(fp, x509);
         fclose(fp);
         if (!ret)
-- 
2.43.0


From 0e0e5e8aac0987832e04046490c338f99c4dfec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:45 +0000
Subject: [PATCH 22/56] fix: a full receive buffer hands over its messages and
 small segments are merged, so reception cannot stall

---
 include/salticidae/conn.h    |  1 +
 include/salticidae/network.h |  2 +-
 src/conn.cpp                 | 19 +++++++++++++++++--
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index f08ba66..7dcb396 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -107,6 +107,7 @@ class ConnPool {
         static socket_io_func _recv_data_tls_handshake;
         static socket_io_func _send_data_tls_handshake;
         static socket_io_func _recv_data_dummy;
+        static bool make_recv_space(const conn_t &conn);
 
         public:
         Conn(): terminated(false),
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 5aaa3bf..16de9d4 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -691,7 +691,7 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             }
         }
     }
-    if (conn->ready_recv && recv_buffer.len() < conn->max_recv_buff_size)
+    if (conn->ready_recv)
     {
         /* resume reading from socket */
         conn->ev_socket.del();
diff --git a/src/conn.cpp b/src/conn.cpp
index 41704ca..d320d8e 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -104,6 +104,21 @@ void ConnPool::Conn::_send_data(const conn_t &conn, int fd, int events) {
     conn->ready_send = true;
 }
 
+/* ensure there is room in the recv_buffer, returns false if the upper layer is
+ * too busy to consume what has been received */
+bool ConnPool::Conn::make_recv_space(const conn_t &conn) {
+    auto &buffer = conn->recv_buffer;
+    const auto max_len = conn->max_recv_buff_size;
+    if (buffer.len() < max_len) return true;
+    /* let the upper layer take the complete messages */
+    conn->ready_recv = false;
+    conn->cpool->on_read(conn);
+    /* small segments should not use up the buffer */
+    if (buffer.len() >= max_len && buffer.size() < max_len * conn->recv_chunk_size)
+        buffer.push(buffer.pop(buffer.size()));
+    return buffer.len() < max_len;
+}
+
 void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     if (events & FdEvent::ERROR)
     {
@@ -114,7 +129,7 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     ssize_t ret = recv_chunk_size;
     while (ret == (ssize_t)recv_chunk_size)
     {
-        if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
+        if (!make_recv_space(conn))
         {
             /* recv_buffer is full, temporarily mask the READ event */
             conn->ev_socket.del();
@@ -203,7 +218,7 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     auto &tls = conn->tls;
     while (ret == (ssize_t)recv_chunk_size)
     {
-        if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
+        if (!make_recv_space(conn))
         {
             conn->ev_socket.del();
             conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
-- 
2.43.0


From 631fddda9e758fc5bd6647e6280ee1965a9b78ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:03 +0000
Subject: [PATCH 23/56] fix: a blocked TLS write can be retried from another
 address

---
 include/salticidae/crypto.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 3d9b6c4..4756bcb 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -376,7 +376,8 @@ class TLS {
         else
             SSL_set_connect_state(ssl);
 
-        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE);
+        /* a blocked write is retried with the same data at another address */
+        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE | SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
     }
 
     TLS(const TLS &) = delete;
-- 
2.43.0


From 8918fc437172ecc2867f98b7cc33ae249ab4d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:33 +0000
Subject: [PATCH 24/56] fix: closing a broken TLS connection from a user thread
 does not raise SIGPIPE

---
 include/salticidae/crypto.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 4756bcb..800b168 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -29,6 +29,7 @@
 #include "salticidae/util.h"
 
 #ifdef __cplusplus
+#include <signal.h>
 #include <openssl/sha.h>
 #include <openssl/ssl.h>
 #include <openssl/bn.h>
@@ -417,7 +418,22 @@ class TLS {
         return SSL_get_error(ssl, ret);
     }
 
-    void shutdown() { SSL_shutdown(ssl); }
+    void shutdown() {
+        /* the transport may be broken already, which should not kill the
+         * process if the calling thread does not block SIGPIPE */
+        sigset_t mask, old_mask, pending;
+        sigemptyset(&mask);
+        sigaddset(&mask, SIGPIPE);
+        pthread_sigmask(SIG_BLOCK, &mask, &old_mask);
+        SSL_shutdown(ssl);
+        if (!sigismember(&old_mask, SIGPIPE))
+        {
+            int sig;
+            sigpending(&pending);
+            if (sigismember(&pending, SIGPIPE)) sigwait(&mask, &sig);
+            pthread_sigmask(SIG_SETMASK, &old_mask, NULL);
+        }
+    }
 
     ~TLS() { if (ssl) SSL_free(ssl); }
 };
-- 
2.43.0


From 05013e7e4606059996fd35449ff36c24183676ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:09 +0000
Subject: [PATCH 25/56] fix: the message magic setter returns the configuration

---
 include/salticidae/network.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 16de9d4..7bd7116 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -190,6 +190,7 @@ class MsgNetwork: public ConnPool {
 
         Config &msg_magic(uint32_t x) {
             _msg_magic = x;
+            return *this;
         }
     };
 
-- 
2.43.0


From e49c276f6cd19048660988fb83e7a9e3272c2584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:08 +0000
Subject: [PATCH 26/56] fix: only accepted messages are counted as sent

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 7bd7116..f0a9fc7 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -733,11 +733,12 @@ inline bool MsgNetwork<OpcodeType>::_send_msg(const Msg &msg, const conn_t &conn
     SALTICIDAE_LOG_DEBUG("wrote message %s to %s",
                 std::string(msg).c_str(),
                 std::string(*conn).c_str());
+    if (!conn->write(std::move(msg_data))) return false;
 #ifdef SALTICIDAE_MSG_STAT
     conn->nsent++;
     conn->nsentb += msg.get_length();
 #endif
-    return conn->write(std::move(msg_data));
+    return true;
 }
 
 template<typename O, O _, O __>
-- 
2.43.0


From 420df9c7b82e598f574c70df084412b36abc33e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:09 +0000
Subject: [PATCH 27/56] fix: messages following one with a wrong checksum are
 processed without waiting for more data

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index f0a9fc7..0425e94 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -681,7 +681,7 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             if (!msg.verify_checksum())
             {
                 SALTICIDAE_LOG_WARN("checksums do not match, dropping the message");
-                break;
+                continue;
             }
 #endif
             if (!incoming_msgs.enqueue(std::make_pair(msg, conn), false))
-- 
2.43.0


From e498f9212e20680caa63c3973ef436cfb078d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:07 +0000
Subject: [PATCH 28/56] fix: nothing after an oversized header is taken as a
 message

---
 include/salticidae/network.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 0425e94..80aa6f8 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -666,6 +666,8 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
                 SALTICIDAE_LOG_WARN(
                         "oversized message from %s, terminating the connection",
                         std::string(*conn).c_str());
+                /* what follows should not be taken as messages */
+                conn->msg_sleep = true;
                 throw MsgNetworkError(SALTI_ERROR_CONN_OVERSIZED_MSG);
             }
             msg_state = Conn::PAYLOAD;
-- 
2.43.0


From 61c82a77cb5299a3455cb8db82bc34e60b90ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:42 +0000
Subject: [PATCH 29/56] fix: an oversized message found while draining a full
 queue closes the connection instead of aborting

---
 include/salticidae/network.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 80aa6f8..b59b03b 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -145,7 +145,12 @@ class MsgNetwork: public ConnPool {
                     return;
                 }
                 conn->msg_sleep = false;
-                on_read(conn);
+                try {
+                    on_read(conn);
+                } catch (...) {
+                    this->recoverable_error(std::current_exception(), -1);
+                    this->worker_terminate(conn);
+                }
             });
     }
 
-- 
2.43.0


From e548793be7a83784120b48c84bfad41634d9c584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:34 +0000
Subject: [PATCH 30/56] fix: the CA check option takes the flag instead of a
 pointer that always enables it

---
 include/salticidae/conn.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 7dcb396..9817b8d 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -473,7 +473,7 @@ class ConnPool {
             return *this;
         }
 
-        Config &tls_skip_ca_check(bool *x) {
+        Config &tls_skip_ca_check(bool x) {
             _tls_skip_ca_check = x;
             return *this;
         }
-- 
2.43.0


From f5bb019e73162f476ba6311beb6c20a0c4d927d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:29 +0000
Subject: [PATCH 31/56] fix: errors of one TLS connection do not end other
 connections of the same worker

---
 include/salticidae/crypto.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 800b168..f291d77 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -33,6 +33,7 @@
 #include <openssl/sha.h>
 #include <openssl/ssl.h>
 #include <openssl/bn.h>
+#include <openssl/err.h>
 
 namespace salticidae {
 
@@ -387,6 +388,7 @@ class TLS {
     bool do_handshake(int &want_io_type) {
         /* want_io_type: 0 for read, 1 for write */
         /* return true if handshake is completed */
+        ERR_clear_error();
         auto ret = SSL_do_handshake(ssl);
         if (ret == 1) return true;
         auto err = SSL_get_error(ssl, ret);
@@ -406,11 +408,15 @@ class TLS {
         return X509(x509);
     }
 
+    /* get_error() looks at the error queue of the thread, so the errors left
+     * by other connections should be removed before each operation */
     inline int send(const void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_write(ssl, buff, size);
     }
 
     inline int recv(void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_read(ssl, buff, size);
     }
 
-- 
2.43.0


From 18a47d9d15a805f2863d8fa8fe900c61bfdbdc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:18 +0000
Subject: [PATCH 32/56] fix: a client that reconnects from its address stays
 reachable whatever order the ends are noticed

---
 include/salticidae/network.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index b59b03b..e910f93 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -283,7 +283,9 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     using Msg = typename MsgNet::Msg;
 
     private:
-    std::unordered_map<NetAddr, typename MsgNet::conn_t> addr2conn;
+    /* a client may reconnect from the same address before its previous
+     * connection is gone */
+    std::unordered_multimap<NetAddr, typename MsgNet::conn_t> addr2conn;
 
     public:
     class Conn: public MsgNet::Conn {
@@ -1379,7 +1381,6 @@ void ClientNetwork<OpcodeType>::on_dispatcher_setup(const ConnPool::conn_t &_con
     assert(conn->get_mode() == Conn::PASSIVE);
     const auto &addr = conn->get_addr();
     auto cn = conn->get_net();
-    cn->addr2conn.erase(addr);
     cn->addr2conn.insert(std::make_pair(addr, conn));
 }
 
@@ -1387,7 +1388,14 @@ template<typename OpcodeType>
 void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    conn->get_net()->addr2conn.erase(conn->get_addr());
+    auto &addr2conn = conn->get_net()->addr2conn;
+    auto range = addr2conn.equal_range(conn->get_addr());
+    for (auto it = range.first; it != range.second; it++)
+        if (it->second == conn)
+        {
+            addr2conn.erase(it);
+            break;
+        }
 }
 
 template<typename OpcodeType>
@@ -1416,10 +1424,14 @@ inline bool ClientNetwork<OpcodeType>::send_msg(const MsgType &msg, const NetAdd
 
 template<typename OpcodeType>
 inline bool ClientNetwork<OpcodeType>::_send_msg(const Msg &msg, const NetAddr &addr) {
-    auto it = addr2conn.find(addr);
-    if (it == addr2conn.end())
+    typename MsgNet::conn_t conn;
+    auto range = addr2conn.equal_range(addr);
+    for (auto it = range.first; it != range.second; it++)
+        if (!conn || !it->second->is_terminated())
+            conn = it->second;
+    if (!conn)
         throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
-    return MsgNet::_send_msg(msg, it->second);
+    return MsgNet::_send_msg(msg, conn);
 }
 
 template<typename O, O OPCODE_PING, O _>
-- 
2.43.0


From fdc83e32b726bf01041a69dba8c094f33fb4ab75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:18 +0000
Subject: [PATCH 33/56] fix: a client network stops its threads before its
 address table is destroyed

---
 include/salticidae/network.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index e910f93..1aacde4 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -309,6 +309,8 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     ClientNetwork(const EventContext &ec, const Config &config):
         MsgNet(ec, config) {}
 
+    virtual ~ClientNetwork() { this->stop(); }
+
     using MsgNet::send_msg;
     template<typename MsgType>
     inline bool send_msg(const MsgType &msg, const NetAddr &addr);
-- 
2.43.0


From 1b58e5d0bdb1e794b18b95b166298a1c65981384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:42 +0000
Subject: [PATCH 34/56] fix: a deferred message refused by a client's full send
 buffer is reported

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 1aacde4..dd85d09 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1412,7 +1412,8 @@ inline int32_t ClientNetwork<OpcodeType>::_send_msg_deferred(Msg &&msg, const Ne
     this->disp_tcall->async_call(
             [this, msg=std::move(msg), addr, id](ThreadCall::Handle &) {
         try {
-            _send_msg(msg, addr);
+            if (!_send_msg(msg, addr))
+                throw ClientNetworkError(SALTI_ERROR_CONN_NOT_READY);
         } catch (...) { this->recoverable_error(std::current_exception(), id); }
     });
     return id;
-- 
2.43.0


From 5f8b342f575b3dedd1cd709cd0edb049a2455ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:52 +0000
Subject: [PATCH 35/56] fix: the client address table is not read while the
 dispatcher changes it

---
 include/salticidae/network.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index dd85d09..3b14cf0 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -286,6 +286,11 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     /* a client may reconnect from the same address before its previous
      * connection is gone */
     std::unordered_multimap<NetAddr, typename MsgNet::conn_t> addr2conn;
+    /* the table is changed by the dispatcher and read by any sender */
+    mutable std::shared_timed_mutex addr2conn_lock;
+
+    using addr2conn_slock_t = std::shared_lock<std::shared_timed_mutex>;
+    using addr2conn_ulock_t = std::unique_lock<std::shared_timed_mutex>;
 
     public:
     class Conn: public MsgNet::Conn {
@@ -1383,6 +1388,7 @@ void ClientNetwork<OpcodeType>::on_dispatcher_setup(const ConnPool::conn_t &_con
     assert(conn->get_mode() == Conn::PASSIVE);
     const auto &addr = conn->get_addr();
     auto cn = conn->get_net();
+    addr2conn_ulock_t _g(cn->addr2conn_lock);
     cn->addr2conn.insert(std::make_pair(addr, conn));
 }
 
@@ -1390,7 +1396,7 @@ template<typename OpcodeType>
 void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    auto &addr2conn = conn->get_net()->addr2conn;
+    addr2conn_ulock_t _g(addr2conn_lock);
     auto range = addr2conn.equal_range(conn->get_addr());
     for (auto it = range.first; it != range.second; it++)
         if (it->second == conn)
@@ -1428,10 +1434,13 @@ inline bool ClientNetwork<OpcodeType>::send_msg(const MsgType &msg, const NetAdd
 template<typename OpcodeType>
 inline bool ClientNetwork<OpcodeType>::_send_msg(const Msg &msg, const NetAddr &addr) {
     typename MsgNet::conn_t conn;
-    auto range = addr2conn.equal_range(addr);
-    for (auto it = range.first; it != range.second; it++)
-        if (!conn || !it->second->is_terminated())
-            conn = it->second;
+    {
+        addr2conn_slock_t _g(addr2conn_lock);
+        auto range = addr2conn.equal_range(addr);
+        for (auto it = range.first; it != range.second; it++)
+            if (!conn || !it->second->is_terminated())
+                conn = it->second;
+    }
     if (!conn)
         throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
     return MsgNet::_send_msg(msg, conn);
-- 
2.43.0


From fe2f8f52e9079f001b2cbb9ab65bb47a760302a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:08 +0000
Subject: [PATCH 36/56] fix: a superseded connection attempt no longer refers
 to the peer

---
 include/salticidae/network.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 3b14cf0..a57e31a 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -993,7 +993,10 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
     conn->peer = p;
     conn->manual = false;
     if (p->outbound_conn)
+    {
+        p->outbound_conn->peer = nullptr;
         this->disp_terminate(p->outbound_conn);
+    }
     p->outbound_conn = conn;
     assert(pending_peers.count(conn->get_addr()) == 0);
 }
@@ -1124,7 +1127,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: terminating stale handshake connection %s",
                             tty_secondary_color, id_hex.c_str(), tty_reset_color,
                             std::string(*old_conn).c_str());
-                        assert(old_conn->peer == nullptr);
+                        old_conn->peer = nullptr;
                         this->disp_terminate(old_conn);
                     }
                     old_conn = conn;
@@ -1219,8 +1222,13 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ntry = ntry;
             p->cur_ntry = ntry;
             p->retry_delay = retry_delay;
-            p->inbound_conn = nullptr;
-            p->outbound_conn = nullptr;
+            if (p->outbound_conn)
+            {
+                /* give up the ongoing attempt */
+                p->outbound_conn->peer = nullptr;
+                this->disp_terminate(p->outbound_conn);
+                p->outbound_conn = nullptr;
+            }
             p->ev_ping_timer.del();
             p->nonce = 0;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
-- 
2.43.0


From da33b36108cc4f06b92323dbec240d04900111af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:08 +0000
Subject: [PATCH 37/56] fix: losing a manually initiated connection that became
 the peer's link is noticed

---
 include/salticidae/network.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index a57e31a..ee55db7 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -954,6 +954,8 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
     }
     old_conn = new_conn;
     new_conn->peer = p;
+    /* a connection initiated by the user is no longer temporary */
+    new_conn->manual = false;
     this->user_tcall->async_call([this, conn=p->conn](ThreadCall::Handle &) {
         if (peer_cb) peer_cb(conn, true);
     });
-- 
2.43.0


From c50db196d7cd08c5eb2bb8e69698ac1abf89a3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:45 +0000
Subject: [PATCH 38/56] fix: changing a peer's address during a handshake ends
 the attempt instead of aborting

---
 include/salticidae/network.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index ee55db7..a6c2d68 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1117,7 +1117,12 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         return;
                     }
                     auto &p = pit->second;
-                    assert(!p->addr.is_null() && p->addr == conn->get_addr());
+                    if (p->addr.is_null() || p->addr != conn->get_addr())
+                    {
+                        /* the address has been changed since the attempt */
+                        this->disp_terminate(conn);
+                        return;
+                    }
                     if (p->state != Peer::State::DISCONNECTED ||
                         p->addr != msg.claimed_addr) return;
                     SALTICIDAE_LOG_DEBUG("%s%s%s: outbound handshake to %s%s%s",
-- 
2.43.0


From 16826d532ff3ac47b99eb9df09aa719c82d8d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:15 +0000
Subject: [PATCH 39/56] fix: a peer told to give up does not turn inbound
 attempts down

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index a6c2d68..9e11459 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1237,7 +1237,7 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
                 p->outbound_conn = nullptr;
             }
             p->ev_ping_timer.del();
-            p->nonce = 0;
+            p->nonce = ntry ? 0 : passive_nonce;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
-- 
2.43.0


From cd309d047cfc963ae837d0b71d75e9abf9235dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:32 +0000
Subject: [PATCH 40/56] fix: a peer keeps retrying when the connection that
 replaces its link fails

---
 include/salticidae/network.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 9e11459..f1f873a 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -877,6 +877,10 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
             delete iping;
         });
         p->inbound_conn = nullptr;
+        /* still retry in case the inbound handshake does not succeed */
+        if (p->cur_ntry > 0) p->cur_ntry--;
+        if (p->cur_ntry)
+            p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
         return;
     }
     this->user_tcall->async_call([this, conn](ThreadCall::Handle &) {
-- 
2.43.0


From dd00c7118a95f8c5174fbe1a7d5329f426bd9daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:12 +0000
Subject: [PATCH 41/56] fix: the rest of a partially sent message does not
 corrupt the peer's next link

---
 include/salticidae/conn.h    | 4 +++-
 include/salticidae/network.h | 2 ++
 src/conn.cpp                 | 8 ++++++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index 9817b8d..a8fe86d 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -92,6 +92,8 @@ class ConnPool {
         /** does not need to wait if true */
         bool ready_send;
         bool ready_recv;
+        /** the first segment of send_buffer is what is left of a partially sent one */
+        bool send_partial;
 
         typedef void (socket_io_func)(const conn_t &, int, int);
         socket_io_func *send_data_func;
@@ -117,7 +119,7 @@ class ConnPool {
             worker(nullptr),
             cpool(nullptr),
             mode(ConnMode::PASSIVE),
-            ready_send(false), ready_recv(false),
+            ready_send(false), ready_recv(false), send_partial(false),
             send_data_func(nullptr), recv_data_func(nullptr),
             tls(nullptr), peer_cert(nullptr) {}
         Conn(const Conn &) = delete;
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index f1f873a..09cf88c 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -948,6 +948,8 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
     {
         /* there is some previously terminated connection */
         assert(p->conn->is_terminated());
+        /* the rest of a message that was being sent is of no use */
+        if (old_conn->send_partial) old_conn->send_buffer.move_pop();
         for (;;)
         {
             bytearray_t buff_seg = old_conn->send_buffer.move_pop();
diff --git a/src/conn.cpp b/src/conn.cpp
index d320d8e..3f4a127 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -89,13 +89,17 @@ void ConnPool::Conn::_send_data(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+                conn->send_partial = true;
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->send_partial = false;
     }
     /* the send_buffer is empty though the kernel buffer is still available, so
      * temporarily mask the WRITE event and mark the `ready_send` flag */
@@ -194,13 +198,17 @@ void ConnPool::Conn::_send_data_tls(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+                conn->send_partial = true;
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->send_partial = false;
     }
     conn->ev_socket.del();
     conn->ev_socket.add(conn->ready_recv ? 0 : FdEvent::READ);
-- 
2.43.0


From 650490a60c0aa12ec8b43ffd4b5cf5b037fdc02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:17 +0000
Subject: [PATCH 42/56] fix: a receive buffer of one segment does not stall at
 a partial message

---
 src/conn.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/conn.cpp b/src/conn.cpp
index 3f4a127..3de21d1 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -119,7 +119,10 @@ bool ConnPool::Conn::make_recv_space(const conn_t &conn) {
     conn->cpool->on_read(conn);
     /* small segments should not use up the buffer */
     if (buffer.len() >= max_len && buffer.size() < max_len * conn->recv_chunk_size)
+    {
         buffer.push(buffer.pop(buffer.size()));
+        return true;
+    }
     return buffer.len() < max_len;
 }
 
-- 
2.43.0


From 29623184ee88275f04e86a43d577b63a1746e11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:13 +0000
Subject: [PATCH 43/56] fix: a bounded send buffer does not drop what is handed
 over to the peer's next link

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 09cf88c..abe3876 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -954,7 +954,8 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
         {
             bytearray_t buff_seg = old_conn->send_buffer.move_pop();
             if (!buff_seg.size()) break;
-            new_conn->write(std::move(buff_seg));
+            /* these have been accepted already */
+            new_conn->send_buffer.push(std::move(buff_seg), true);
         }
         old_conn->peer = nullptr;
     }
-- 
2.43.0


From 389f4fd30ad288687a4562e1067b30825c569044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:47 +0000
Subject: [PATCH 44/56] fix: a message sent while the peer's link is being
 replaced is not left behind

---
 include/salticidae/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index abe3876..a7f6ed5 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1030,7 +1030,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::PASSIVE)
                 {
                     auto pid = get_peer_id(conn, msg.claimed_addr);
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
@@ -1112,7 +1112,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::ACTIVE)
                 {
                     auto pid = get_peer_id(conn, conn->get_addr());
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
-- 
2.43.0


From c8bd5e132f34b42b64c6f488ffd330f843db2fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:14 +0000
Subject: [PATCH 45/56] fix: an attempt never loses against a peer that does
 not try to connect itself

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index a7f6ed5..139243b 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -497,7 +497,8 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
                 uint16_t n;
                 if (!RAND_bytes((uint8_t *)&n, 2))
                     throw PeerNetworkError(SALTI_ERROR_RAND_SOURCE);
-                nonce = n + 1;
+                /* always wins over a side that does not try */
+                nonce = n % (passive_nonce - 1) + 1;
             }
             return nonce;
         }
-- 
2.43.0


From 462471191d6b73e29ecfad58defb1ef3b56c83f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:20 +0000
Subject: [PATCH 46/56] fix: the number of connection attempts respects the
 limit given to conn_peer

---
 include/salticidae/network.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 139243b..ecc47c3 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -850,6 +850,8 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
      * 1. p2p is connected
      * 2. p2p is disconnected, but it is trying to do an active connection by
      * start_active_conn() */
+    /* a link that is lost counts as a try (failed attempts have been counted) */
+    if (p->state == Peer::State::CONNECTED && p->cur_ntry > 0) p->cur_ntry--;
     if (p->state != Peer::State::DISCONNECTED)
     {
         assert(p->conn == conn);
@@ -879,7 +881,6 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
         });
         p->inbound_conn = nullptr;
         /* still retry in case the inbound handshake does not succeed */
-        if (p->cur_ntry > 0) p->cur_ntry--;
         if (p->cur_ntry)
             p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
         return;
@@ -889,7 +890,6 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
     });
     p->inbound_conn = nullptr;
     /* auto retry the connection */
-    if (p->cur_ntry > 0) p->cur_ntry--;
     if (p->cur_ntry)
     {
         p->nonce = 0;
@@ -1249,8 +1249,10 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
+                    if (p->cur_ntry > 0) p->cur_ntry--;
                     start_active_conn(p);
-                    p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
+                    if (p->cur_ntry)
+                        p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
                 } catch (...) { this->disp_error_cb(std::current_exception()); }
             });
 
-- 
2.43.0


From 58f6655a4c0fb2d9662638275f616db1e0f93752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:20 +0000
Subject: [PATCH 47/56] fix: the number of pending connections is read as the
 number it is

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index ecc47c3..6096794 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1345,7 +1345,7 @@ bool PeerNetwork<O, _, __>::has_peer(const PeerId &pid) const {
 
 template<typename O, O _, O __>
 size_t PeerNetwork<O, _, __>::get_npending() const {
-    return *(static_cast<bool *>(this->disp_tcall->call(
+    return *(static_cast<size_t *>(this->disp_tcall->call(
                 [this](ThreadCall::Handle &h) {
         h.set_result(pending_peers.size());
     }).get()));
-- 
2.43.0


From e59ff9687f89da8f98c5dae71260c4f536ea0fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:18 +0000
Subject: [PATCH 48/56] fix: withdrawing a peer's address while it is tried
 ends the attempts instead of aborting

---
 include/salticidae/network.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 6096794..c58d55f 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1249,6 +1249,12 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
+                    if (p->addr.is_null())
+                    {
+                        /* the address was withdrawn, there is nothing to try */
+                        p->nonce = passive_nonce;
+                        return;
+                    }
                     if (p->cur_ntry > 0) p->cur_ntry--;
                     start_active_conn(p);
                     if (p->cur_ntry)
-- 
2.43.0


From 4b11efbea64d6d1f2af531c4975c0fa35296e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:32 +0000
Subject: [PATCH 49/56] fix: a heartbeat reply on a connection attempt does not
 ping a link that does not exist

---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index c58d55f..77c58ec 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1171,7 +1171,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
             else /* heartbeat pong */
             {
                 auto p = conn->peer;
-                if (!p)
+                if (!p || p->state != Peer::State::CONNECTED)
                 {
                     SALTICIDAE_LOG_WARN("%s%s%s: unexpected pong mesage",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color);
-- 
2.43.0


From 881c8b2772375900ccf4dacfd3a8d7bd8ef49d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:35 +0000
Subject: [PATCH 50/56] fix: a connection that is a peer's link does not become
 another peer's link as well

---
 include/salticidae/network.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 77c58ec..2d4fa9b 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -505,7 +505,7 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
 
         public:
         ~Peer() {
-            if (inbound_conn) inbound_conn->peer = nullptr;
+            if (inbound_conn && inbound_conn->peer == this) inbound_conn->peer = nullptr;
             if (outbound_conn) outbound_conn->peer = nullptr;
         }
     };
@@ -1047,6 +1047,12 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                     }
                     if (!msg.nonce) return; // ignore manual connection
                     auto &p = pit->second;
+                    if (conn->peer && conn->peer != p.get())
+                    {
+                        /* it is the link of another peer already */
+                        this->disp_terminate(conn);
+                        return;
+                    }
                     if (p->state == Peer::State::CONNECTED)
                     {
                         // defer the handling of the inbound connection
@@ -1070,7 +1076,8 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                         assert(old_conn->peer == nullptr);
                         this->disp_terminate(old_conn);
                     }
-                    old_conn = conn;
+                    /* the handshake of this connection ends here either way */
+                    old_conn = nullptr;
                     if (msg.nonce < p->get_nonce() || p->addr.is_null())
                     {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: choses connection %s",
-- 
2.43.0


From f9947fb156e63368167ab6238d40b516def0dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:22 +0000
Subject: [PATCH 51/56] fix: the C interface reports a message that a full send
 buffer refuses

---
 src/network.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/network.cpp b/src/network.cpp
index d81b569..f888ff9 100644
--- a/src/network.cpp
+++ b/src/network.cpp
@@ -295,8 +295,7 @@ void peernetwork_conn_free(const peernetwork_conn_t *self) { delete self; }
 
 bool peernetwork_send_msg(peernetwork_t *self, const msg_t * msg, const peerid_t *peer) {
     try {
-        self->_send_msg(*msg, *peer);
-        return true;
+        return self->_send_msg(*msg, *peer);
     } catch (...) {
         return false;
     }
@@ -365,8 +364,7 @@ void clientnetwork_conn_free(const clientnetwork_conn_t *self) { delete self; }
 
 bool clientnetwork_send_msg(clientnetwork_t *self, const msg_t * msg, const netaddr_t *addr) {
     try {
-        self->_send_msg(*msg, *addr);
-        return true;
+        return self->_send_msg(*msg, *addr);
     } catch (...) {
         return false;
     }
-- 
2.43.0


From ce83084b6dfe46ed53adfaf4af87aecace81c727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 52/56] fix: a bit set of nearly 2^32 bits gets room for its
 bits

---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 7848f7e..11310f7 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -341,7 +341,7 @@ class _Bits {
 
     _Bits(const uint8_t *arr, uint32_t len) { load(arr, len); }
     _Bits(uint32_t nbits): nbits(nbits) {
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
+        ndata = ((size_t)nbits + bit_per_datum - 1) / bit_per_datum;
         data = new _impl_type[ndata];
     }
 
-- 
2.43.0


From 59cae32e3b39a310a95aaeb50a77fb236619fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:02 +0000
Subject: [PATCH 53/56] fix: a client that returned is reached through its
 latest connection

---
 include/salticidae/network.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 2d4fa9b..72f70fb 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -288,6 +288,7 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     std::unordered_multimap<NetAddr, typename MsgNet::conn_t> addr2conn;
     /* the table is changed by the dispatcher and read by any sender */
     mutable std::shared_timed_mutex addr2conn_lock;
+    uint64_t conn_seq = 0; /* only used by the dispatcher */
 
     using addr2conn_slock_t = std::shared_lock<std::shared_timed_mutex>;
     using addr2conn_ulock_t = std::unique_lock<std::shared_timed_mutex>;
@@ -295,6 +296,7 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     public:
     class Conn: public MsgNet::Conn {
         friend ClientNetwork;
+        uint64_t seq = 0; /* the order in which connections are accepted */
         public:
         Conn() = default;
         ClientNetwork *get_net() {
@@ -305,7 +307,11 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     using conn_t = ArcObj<Conn>;
 
     protected:
-    ConnPool::Conn *create_conn() override { return new Conn(); }
+    ConnPool::Conn *create_conn() override {
+        auto conn = new Conn();
+        conn->seq = ++conn_seq;
+        return conn;
+    }
     void on_dispatcher_setup(const ConnPool::conn_t &) override;
     void on_dispatcher_teardown(const ConnPool::conn_t &) override;
 
@@ -1475,9 +1481,15 @@ inline bool ClientNetwork<OpcodeType>::_send_msg(const Msg &msg, const NetAddr &
     {
         addr2conn_slock_t _g(addr2conn_lock);
         auto range = addr2conn.equal_range(addr);
+        uint64_t latest = 0;
         for (auto it = range.first; it != range.second; it++)
-            if (!conn || !it->second->is_terminated())
-                conn = it->second;
+        {
+            /* the latest one, an older one could be gone without notice */
+            auto seq = static_cast<Conn *>(it->second.get())->seq;
+            if (conn && seq < latest) continue;
+            conn = it->second;
+            latest = seq;
+        }
     }
     if (!conn)
         throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
-- 
2.43.0


From 600b0b3dd5f3cc3b4e5a23a480cfbd71715f0328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:56 +0000
Subject: [PATCH 54/56] fix: a connection attempt that cannot be started does
 not stop the network

---
 include/salticidae/network.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 72f70fb..dae742d 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1269,7 +1269,16 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
                         return;
                     }
                     if (p->cur_ntry > 0) p->cur_ntry--;
-                    start_active_conn(p);
+                    try {
+                        start_active_conn(p);
+                    } catch (const ConnPoolError &) {
+                        /* cannot even try for now (e.g., no descriptor left),
+                         * which counts as a failed attempt */
+                        this->recoverable_error(std::current_exception(), -1);
+                        if (!p->cur_ntry &&
+                            (!p->outbound_conn || p->outbound_conn->is_terminated()))
+                            p->nonce = passive_nonce;
+                    }
                     if (p->cur_ntry)
                         p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
                 } catch (...) { this->disp_error_cb(std::current_exception()); }
-- 
2.43.0


From a47ac9c71878bfd507a082f9da9e45b59d6d6bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:56 +0000
Subject: [PATCH 55/56] fix: the descriptor of a connection that cannot be set
 up is closed

---
 src/conn.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/conn.cpp b/src/conn.cpp
index 3de21d1..346467c 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -339,10 +339,13 @@ void ConnPool::accept_client(int fd, int) {
             int one = 1;
             if (setsockopt(client_fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
                 //setsockopt(client_fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
-                setsockopt(client_fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
-                throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
-            if (fcntl(client_fd, F_SETFL, O_NONBLOCK) == -1)
-                throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
+                setsockopt(client_fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0 ||
+                fcntl(client_fd, F_SETFL, O_NONBLOCK) == -1)
+            {
+                int err = errno;
+                close(client_fd);
+                throw ConnPoolError(SALTI_ERROR_ACCEPT, err);
+            }
 
             NetAddr addr((struct sockaddr_in *)&client_addr);
             conn_t conn = create_conn();
@@ -423,10 +426,13 @@ ConnPool::conn_t ConnPool::_connect(const NetAddr &addr) {
         throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
     if (setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, (const char *)&one, sizeof(one)) < 0 ||
         //setsockopt(fd, SOL_SOCKET, SO_REUSEPORT, (const char *)&one, sizeof(one)) < 0 ||
-        setsockopt(fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0)
-        throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
-    if (fcntl(fd, F_SETFL, O_NONBLOCK) == -1)
-        throw ConnPoolError(SALTI_ERROR_CONNECT, errno);
+        setsockopt(fd, SOL_TCP, TCP_NODELAY, (const char *)&one, sizeof(one)) < 0 ||
+        fcntl(fd, F_SETFL, O_NONBLOCK) == -1)
+    {
+        int err = errno;
+        close(fd);
+        throw ConnPoolError(SALTI_ERROR_CONNECT, err);
+    }
     conn_t conn = create_conn();
     conn->send_buffer.set_capacity(max_send_buff_size);
     conn->recv_chunk_size = recv_chunk_size;
-- 
2.43.0


From 763b5080d3c35e13a66c267cc7265f09da10b0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:21 +0000
Subject: [PATCH 56/56] fix: a failure to accept a connection does not end
 listening for good

---
 include/salticidae/conn.h |  1 +
 src/conn.cpp              | 12 +++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index a8fe86d..8cfc758 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -208,6 +208,7 @@ class ConnPool {
 
     /* owned by the dispatcher */
     FdEvent ev_listen;
+    TimerEvent ev_listen_retry;
     std::unordered_map<int, conn_t> pool;
     int listen_fd;  /**< for accepting new network connections */
 
diff --git a/src/conn.cpp b/src/conn.cpp
index 346467c..3fa5c97 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -43,6 +43,9 @@
 
 namespace salticidae {
 
+/** the delay (in seconds) before accepting again after accept() failed */
+static const double accept_retry_delay = 0.1;
+
 ConnPool::Conn::operator std::string() const {
     DataStream s;
     s << "<Conn "
@@ -331,8 +334,11 @@ void ConnPool::accept_client(int fd, int) {
         socklen_t addr_size = sizeof(struct sockaddr_in);
         if ((client_fd = accept(fd, &client_addr, &addr_size)) < 0)
         {
+            int err = errno;
+            /* the cause can be temporary (e.g., no descriptor left) */
             ev_listen.del();
-            throw ConnPoolError(SALTI_ERROR_ACCEPT, errno);
+            ev_listen_retry.add(accept_retry_delay);
+            throw ConnPoolError(SALTI_ERROR_ACCEPT, err);
         }
         else
         {
@@ -392,6 +398,7 @@ void ConnPool::_listen(NetAddr listen_addr) {
     if (listen_fd != -1)
     { /* reset the previous listen() */
         ev_listen.clear();
+        ev_listen_retry.clear();
         close(listen_fd);
     }
     if ((listen_fd = socket(AF_INET, SOCK_STREAM, IPPROTO_TCP)) < 0)
@@ -415,6 +422,9 @@ void ConnPool::_listen(NetAddr listen_addr) {
         throw ConnPoolError(SALTI_ERROR_LISTEN, errno);
     ev_listen = FdEvent(disp_ec, listen_fd,
                 std::bind(&ConnPool::accept_client, this, _1, _2));
+    ev_listen_retry = TimerEvent(disp_ec, [this](TimerEvent &) {
+        ev_listen.add(FdEvent::READ);
+    });
     ev_listen.add(FdEvent::READ);
     SALTICIDAE_LOG_INFO("listening to %u", ntohs(listen_addr.port));
 }
-- 
2.43.0

