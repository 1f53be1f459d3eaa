From 1d5bbde3875010c87f184ac26d97f0ec3ee68c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:35 +0000
Subject: [PATCH 01/41] fix: any copy, move and aliasing assignment

Moving an any leaked the in-buffer value, and moved a heap value without
transferring ownership of its allocation, which leaked the allocation or
left the moved-from any freeing memory owned by nobody.
Self-assignment, and assignment from a value held by the any itself,
destroyed the source before reading it.
---
 include/dap/any.h | 69 ++++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/include/dap/any.h b/include/dap/any.h
index b05f03d..88ad63e 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -20,6 +20,8 @@
 #include <assert.h>
 #include <stdint.h>
 
+#include <utility>  // std::move
+
 namespace dap {
 
 template <typename T>
@@ -68,6 +70,9 @@ class any {
   static inline void* alignUp(void* val, size_t alignment);
   inline void alloc(size_t size, size_t align);
   inline void free();
+  // take() moves the value of other to this any, leaving other null.
+  // This any must not hold a value.
+  inline void take(any& other);
   inline bool isInBuffer(void* ptr) const;
 
   void* value = nullptr;
@@ -92,15 +97,8 @@ any::any(const any& other) noexcept : type(other.type) {
   }
 }
 
-any::any(any&& other) noexcept : type(other.type) {
-  if (other.isInBuffer(other.value)) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, other.value);
-  } else {
-    value = other.value;
-  }
-  other.value = nullptr;
-  other.type = nullptr;
+any::any(any&& other) noexcept {
+  take(other);
 }
 
 void any::reset() {
@@ -113,41 +111,39 @@ void any::reset() {
 }
 
 any& any::operator=(const any& rhs) {
+  // rhs may be this any, or be held by the value of this any. Copy rhs before
+  // releasing the current value.
+  any copy(rhs);
   reset();
-  type = rhs.type;
-  if (rhs.value != nullptr) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, rhs.value);
-  }
+  take(copy);
   return *this;
 }
 
 any& any::operator=(any&& rhs) noexcept {
+  // rhs may be this any, or be held by the value of this any. Take rhs before
+  // releasing the current value.
+  any moved(std::move(rhs));
   reset();
-  type = rhs.type;
-  if (rhs.isInBuffer(rhs.value)) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, rhs.value);
-  } else {
-    value = rhs.value;
-  }
-  rhs.value = nullptr;
-  rhs.type = nullptr;
+  take(moved);
   return *this;
 }
 
 template <typename T>
 any& any::operator=(const T& val) {
   if (!is<T>()) {
+    // val may be held by the value of this any. Copy val before releasing the
+    // current value.
+    any copy;
+    copy.type = TypeOf<T>::type();
+    copy.alloc(copy.type->size(), copy.type->alignment());
+    copy.type->copyConstruct(copy.value, &val);
     reset();
-    type = TypeOf<T>::type();
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, &val);
+    take(copy);
   } else {
 #ifdef __clang_analyzer__
     assert(value != nullptr);
 #endif
-    *reinterpret_cast<T*>(value) = val;
+    *reinterpret_cast<T*>(value) = T(val);
   }
   return *this;
 }
@@ -200,6 +196,25 @@ void any::free() {
   value = nullptr;
 }
 
+void any::take(any& other) {
+  assert(value == nullptr);
+  if (other.value == nullptr) {
+    return;
+  }
+  type = other.type;
+  if (other.heap != nullptr) {
+    value = other.value;
+    heap = other.heap;
+    other.value = nullptr;
+    other.heap = nullptr;
+    other.type = nullptr;
+  } else {
+    alloc(type->size(), type->alignment());
+    type->copyConstruct(value, other.value);
+    other.reset();
+  }
+}
+
 bool any::isInBuffer(void* ptr) const {
   auto addr = reinterpret_cast<uintptr_t>(ptr);
   return addr >= reinterpret_cast<uintptr_t>(buffer) &&
-- 
2.43.0


From c3a6cfc9ceabaec896fcc36490fb09dda41ab8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:20 +0000
Subject: [PATCH 02/41] fix: hold the error mutex when reporting handler errors

The errors raised while registering handlers and looking up responses read
the error handler without holding the mutex that guards it, which raced
with a concurrent call to onError(). Also pass the sequence number with the
type that the format string expects.
---
 src/session.cpp | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index ffc7775..e98d7d3 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -183,8 +183,8 @@ class Impl : public dap::Session {
               .emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second;
       if (!added) {
-        errorfLocked("Request handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Request handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
@@ -193,7 +193,7 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseMutex);
       auto responseIt = responseMap.find(seq);
       if (responseIt == responseMap.end()) {
-        errorfLocked("Unknown response with sequence %d", seq);
+        error("Unknown response with sequence %lld", (long long)seq);
         return {};
       }
       auto out = std::move(responseIt->second);
@@ -208,8 +208,7 @@ class Impl : public dap::Session {
       auto added =
           responseMap.emplace(seq, std::make_pair(typeinfo, handler)).second;
       if (!added) {
-        errorfLocked("Response handler for sequence %d already registered",
-                     seq);
+        error("Response handler for sequence %d already registered", seq);
       }
     }
 
@@ -227,8 +226,8 @@ class Impl : public dap::Session {
           eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second;
       if (!added) {
-        errorfLocked("Event handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Event handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
@@ -244,19 +243,12 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseSentMutex);
       auto added = responseSentMap.emplace(typeinfo, handler).second;
       if (!added) {
-        errorfLocked("Response sent handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Response sent handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
    private:
-    void errorfLocked(const char* format, ...) {
-      va_list vararg;
-      va_start(vararg, format);
-      errorLocked(format, vararg);
-      va_end(vararg);
-    }
-
     void errorLocked(const char* format, va_list args) {
       char buf[2048];
       vsnprintf(buf, sizeof(buf), format, args);
@@ -441,7 +433,8 @@ class Impl : public dap::Session {
     GenericResponseHandler handler;
     std::tie(typeinfo, handler) = handlers.response(requestSeq);
     if (!typeinfo) {
-      handlers.error("Unknown response with sequence %d", requestSeq);
+      handlers.error("Unknown response with sequence %lld",
+                     (long long)requestSeq);
       return;
     }
 
-- 
2.43.0


From 14dd9168fb7c3f67d1edc639c372a805d939ca87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:32 +0000
Subject: [PATCH 03/41] fix: guard the list of owned TypeInfos with a mutex

The TypeInfos of arrays, optionals and variants are created lazily on first
use. When two threads first use two different types at the same time, both
appended to the unguarded list.
---
 src/typeof.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/typeof.cpp b/src/typeof.cpp
index 055421c..d16b34d 100644
--- a/src/typeof.cpp
+++ b/src/typeof.cpp
@@ -16,6 +16,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <vector>
 
 namespace {
@@ -67,7 +68,8 @@ struct TypeInfos {
   dap::BasicTypeInfo<dap::object> object = {"object"};
   dap::BasicTypeInfo<dap::any> any = {"any"};
   NullTI null;
-  std::vector<std::unique_ptr<dap::TypeInfo>> types;
+  std::mutex typesMutex;
+  std::vector<std::unique_ptr<dap::TypeInfo>> types;  // guarded by typesMutex
 
  private:
   TypeInfos() = default;
@@ -130,7 +132,9 @@ const TypeInfo* TypeOf<null>::type() {
 }
 
 void TypeInfo::deleteOnExit(TypeInfo* ti) {
-  TypeInfos::get()->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
+  auto typeinfos = TypeInfos::get();
+  std::unique_lock<std::mutex> lock(typeinfos->typesMutex);
+  typeinfos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
 }
 
 void initialize() {
-- 
2.43.0


From f92f83ef6cc9a398a10f5b3206f8ac6b6bcae394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:16 +0000
Subject: [PATCH 04/41] fix: send all the bytes of a socket write, without
 raising SIGPIPE

::send() may send only part of the data, which was reported as success and
corrupted the stream. Writing to a socket closed by the peer raised SIGPIPE,
which terminates the process, instead of returning false. Reads and writes
interrupted by a signal are retried.
---
 src/socket.cpp | 50 +++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 43 insertions(+), 7 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index e9402d3..6d1182c 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -16,6 +16,8 @@
 
 #include "rwmutex.h"
 
+#include <algorithm>  // std::min
+
 #if defined(_WIN32)
 #include <winsock2.h>
 #include <ws2tcpip.h>
@@ -34,6 +36,7 @@ namespace {
 std::atomic<int> wsaInitCount = {0};
 }  // anonymous namespace
 #else
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 namespace {
@@ -74,6 +77,24 @@ bool setBlocking(SOCKET s, bool blocking) {
 #endif
 }
 
+// Flags to pass to ::send(). Where supported, ask for an error instead of a
+// SIGPIPE signal when the peer has closed the connection.
+#if defined(MSG_NOSIGNAL)
+constexpr int SendFlags = MSG_NOSIGNAL;
+#else
+constexpr int SendFlags = 0;
+#endif
+
+// interrupted() returns true if the last failing call was interrupted by a
+// signal before any data was transferred.
+bool interrupted() {
+#if defined(_WIN32)
+  return false;
+#else
+  return errno == EINTR;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -205,9 +226,14 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return 0;
     }
-    auto len =
-        recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
-    return (len < 0) ? 0 : len;
+    while (true) {
+      auto len =
+          recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
+      if (len < 0 && interrupted()) {
+        continue;
+      }
+      return (len < 0) ? 0 : len;
+    }
   }
 
   bool write(const void* buffer, size_t bytes) {
@@ -215,11 +241,21 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return false;
     }
-    if (bytes == 0) {
-      return true;
+    auto data = reinterpret_cast<const char*>(buffer);
+    while (bytes > 0) {
+      // ::send() may send fewer bytes than requested.
+      auto count = static_cast<int>(std::min<size_t>(bytes, 1 << 30));
+      auto len = ::send(s, data, count, SendFlags);
+      if (len < 0 && interrupted()) {
+        continue;
+      }
+      if (len <= 0) {
+        return false;
+      }
+      data += len;
+      bytes -= static_cast<size_t>(len);
     }
-    return ::send(s, reinterpret_cast<const char*>(buffer),
-                  static_cast<int>(bytes), 0) > 0;
+    return true;
   }
 
  private:
-- 
2.43.0


From cd675f3f0486e64bd44b95c248251fc8d4465117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:30 +0000
Subject: [PATCH 05/41] fix: deadlock when a server socket cannot be bound

Failing to bind or listen destroyed the shared socket while its read lock
was held, and the destructor then blocked forever waiting for the write
lock. Starting a server on a port in use never returned.
---
 src/socket.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 6d1182c..4586b7e 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -269,17 +269,15 @@ namespace dap {
 Socket::Socket(const char* address, const char* port)
     : shared(Shared::create(address, port)) {
   if (shared) {
+    bool listening = false;
     shared->lock([&](SOCKET socket, const addrinfo* info) {
-      if (bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
-        shared.reset();
-        return;
-      }
-
-      if (listen(socket, 0) != 0) {
-        shared.reset();
-        return;
-      }
+      listening = bind(socket, info->ai_addr, (int)info->ai_addrlen) == 0 &&
+                  listen(socket, 0) == 0;
     });
+    if (!listening) {
+      // Must not be called with the lock held, as this closes the socket.
+      shared.reset();
+    }
   }
 }
 
-- 
2.43.0


From 7550eef9ce7f85dcb554ca4ec09e3d5f215ac10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:43 +0000
Subject: [PATCH 06/41] fix: close the descriptor of a socket that has errored

isOpen() forgot the descriptor of an errored socket without closing it.
---
 src/socket.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 4586b7e..38ce1cc 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -185,8 +185,7 @@ class dap::Socket::Shared : public dap::ReaderWriter {
         return true;
       }
     }
-    WLock lock(mutex);
-    s = InvalidSocket;
+    close();
     return false;
   }
 
-- 
2.43.0


From f7a7117f7f4188b473ca07c1adcf266fec7b2625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:55 +0000
Subject: [PATCH 07/41] fix: connect timeouts with large descriptors and long
 timeouts

select() overflows the fd_set when the descriptor is FD_SETSIZE or larger,
corrupting the stack, and the timeout in microseconds overflowed 32 bits for
timeouts of 72 minutes or more.
---
 src/socket.cpp | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 38ce1cc..95659be 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -25,7 +25,7 @@
 #include <netdb.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <sys/socket.h>
 #include <unistd.h>
 #endif
@@ -95,6 +95,29 @@ bool interrupted() {
 #endif
 }
 
+// waitWritable() waits for the socket to become writable or to error.
+// Returns false if the timeout was reached first.
+bool waitWritable(SOCKET s, uint32_t timeoutMillis) {
+#if defined(_WIN32)
+  fd_set fdset;
+  FD_ZERO(&fdset);
+  FD_SET(s, &fdset);
+
+  timeval tv;
+  tv.tv_sec = static_cast<long>(timeoutMillis / 1000);
+  tv.tv_usec = static_cast<long>(timeoutMillis % 1000) * 1000;
+  return select(0, nullptr, &fdset, nullptr, &tv) > 0;
+#else
+  // Note: select() cannot be used, as it only supports descriptors less than
+  // FD_SETSIZE.
+  pollfd fd = {};
+  fd.fd = s;
+  fd.events = POLLOUT;
+  auto timeout = std::min<uint32_t>(timeoutMillis, 0x7fffffff);
+  return poll(&fd, 1, static_cast<int>(timeout)) > 0;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -341,17 +364,8 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
         out = shared;
       }
     } else {
-      const auto microseconds = timeoutMillis * 1000;
-
-      fd_set fdset;
-      FD_ZERO(&fdset);
-      FD_SET(socket, &fdset);
-
-      timeval tv;
-      tv.tv_sec = microseconds / 1000000;
-      tv.tv_usec = microseconds - static_cast<uint32_t>(tv.tv_sec * 1000000);
-      res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
-      if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
+      if (waitWritable(socket, timeoutMillis) && !errored(socket) &&
+          setBlocking(socket, true)) {
         out = shared;
       }
     }
-- 
2.43.0


From f9f172da3d69b4b96d8d774ec57e48a582a81b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:36 +0000
Subject: [PATCH 08/41] fix: detect the end of the stream when reading messages

When the peer closed a TCP connection, or stdin reached the end of file, the
reader remained open while every read returned no data. The session's
receive thread then spun forever and the closed handler was never called.
---
 src/content_stream.cpp | 9 +++++++--
 src/content_stream.h   | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index c5264aa..e346a86 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -33,11 +33,12 @@ ContentReader& ContentReader::operator=(ContentReader&& rhs) noexcept {
   buf = std::move(rhs.buf);
   reader = std::move(rhs.reader);
   on_invalid_data = std::move(rhs.on_invalid_data);
+  end_of_stream = rhs.end_of_stream;
   return *this;
 }
 
 bool ContentReader::isOpen() {
-  return reader ? reader->isOpen() : false;
+  return reader ? (reader->isOpen() && !end_of_stream) : false;
 }
 
 void ContentReader::close() {
@@ -149,7 +150,11 @@ bool ContentReader::buffer(size_t bytes) {
     uint8_t chunk[256];
     auto numWant = std::min(sizeof(chunk), bytes);
     auto numGot = reader->read(chunk, numWant);
-    if (numGot == 0) {
+    // read() only returns no data when there is no more data to come. The
+    // reader itself may still be open, as is the case for a socket which was
+    // closed by the peer.
+    end_of_stream = (numGot == 0);
+    if (end_of_stream) {
       return false;
     }
     for (size_t i = 0; i < numGot; i++) {
diff --git a/src/content_stream.h b/src/content_stream.h
index eee998e..5940cd9 100644
--- a/src/content_stream.h
+++ b/src/content_stream.h
@@ -52,6 +52,7 @@ class ContentReader {
   std::shared_ptr<Reader> reader;
   std::deque<uint8_t> buf;
   OnInvalidData on_invalid_data;
+  bool end_of_stream = false;
 };
 
 class ContentWriter {
-- 
2.43.0


From 24d140610a7c258503761a43c7f7b68d706e1e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:49 +0000
Subject: [PATCH 09/41] fix: reject malformed Content-Length values

A length that does not fit in size_t wrapped to an unrelated length, and a
NUL byte in the header was silently skipped, so that invalid headers were
treated as valid, even when invalid data is to close the stream.
---
 src/content_stream.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index e346a86..19d9d76 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -18,6 +18,7 @@
 
 #include <string.h>   // strlen
 #include <algorithm>  // std::min
+#include <limits>     // std::numeric_limits
 
 namespace dap {
 
@@ -68,8 +69,12 @@ std::string ContentReader::read() {
     if (c == 0) {
       break;
     }
+    auto digit = size_t(c) - size_t('0');
+    if (len > (std::numeric_limits<size_t>::max() - digit) / 10) {
+      return badHeader();  // Length is not representable.
+    }
     len *= 10;
-    len += size_t(c) - size_t('0');
+    len += digit;
   }
   if (len == 0) {
     return "";
@@ -134,6 +139,9 @@ char ContentReader::matchAny(const char* chars) {
     return false;
   }
   int c = buf.front();
+  if (c == 0) {
+    return 0;  // strchr() would match the terminator of chars.
+  }
   if (auto p = strchr(chars, c)) {
     buf.pop_front();
     return *p;
-- 
2.43.0


From 7b8ebdd9fc20b762204af740c663b4a1078effe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:28 +0000
Subject: [PATCH 10/41] fix: close on a missing or zero Content-Length

With OnInvalidData::kClose, a header without a length, or with a length of
zero, did not close the stream, and a message directly following the bad
header was still delivered.
---
 src/content_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index 19d9d76..7c482d0 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -77,7 +77,7 @@ std::string ContentReader::read() {
     len += digit;
   }
   if (len == 0) {
-    return "";
+    return badHeader();
   }
 
   // Expect \r\n\r\n
-- 
2.43.0


From 56ef2171e0f380099f1171ea88e5115f0f856039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:47 +0000
Subject: [PATCH 11/41] fix: leak of messages that are never dispatched

The arguments of a request or event were only freed by calling the payload.
Payloads still queued when the session is destroyed, and payloads returned
by getPayload() that are not called, leaked them.
---
 src/session.cpp | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index e98d7d3..fb034e6 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -280,6 +280,19 @@ class Impl : public dap::Session {
         responseSentMap;
   };  // EventHandlers
 
+  // construct() returns a newly constructed value of the given type.
+  // The value is owned by the payload that dispatches it, as the payload may be
+  // dropped without being called.
+  static std::shared_ptr<uint8_t> construct(const dap::TypeInfo* typeinfo) {
+    auto data = std::shared_ptr<uint8_t>(
+        new uint8_t[typeinfo->size()], [typeinfo](uint8_t* ptr) {
+          typeinfo->destruct(ptr);
+          delete[] ptr;
+        });
+    typeinfo->construct(data.get());
+    return data;
+  }
+
   Payload processMessage(const std::string& str) {
     auto d = dap::json::Deserializer(str);
     dap::string type;
@@ -324,21 +337,18 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = construct(typeinfo);
 
     if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return typeinfo->deserialize(d, data);
+          return typeinfo->deserialize(d, data.get());
         })) {
       handlers.error("Failed to deserialize request");
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
     return [=] {
       handler(
-          data,
+          data.get(),
           [=](const dap::TypeInfo* typeinfo, const void* data) {
             // onSuccess
             dap::json::Serializer s;
@@ -375,8 +385,6 @@ class Impl : public dap::Session {
               handler(nullptr, &error);
             }
           });
-      typeinfo->destruct(data);
-      delete[] data;
     };
   }
 
@@ -396,13 +404,12 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = construct(typeinfo);
 
     // "body" is an optional field for some events, such as "Terminated Event".
     bool body_ok = true;
     d->field("body", [&](dap::Deserializer* d) {
-      if (!typeinfo->deserialize(d, data)) {
+      if (!typeinfo->deserialize(d, data.get())) {
         body_ok = false;
       }
       return true;
@@ -410,16 +417,10 @@ class Impl : public dap::Session {
 
     if (!body_ok) {
       handlers.error("Failed to deserialize event '%s' body", event.c_str());
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
-    return [=] {
-      handler(data);
-      typeinfo->destruct(data);
-      delete[] data;
-    };
+    return [=] { handler(data.get()); };
   }
 
   void processResponse(const dap::Deserializer* d) {
-- 
2.43.0


From c33e30a26516495cf065bfec56088fc03c60be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:25 +0000
Subject: [PATCH 12/41] fix: complete requests that fail with a malformed or
 long error

A response without a success field, or a failure without a message, was
dropped after forgetting the request, so its future never completed. A
failure with an empty message was reported as success, and messages were
truncated at 2047 bytes and at the first NUL.
---
 src/session.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index fb034e6..205c2b2 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -442,6 +442,8 @@ class Impl : public dap::Session {
     dap::boolean success = false;
     if (!d->field("success", &success)) {
       handlers.error("Response missing int 'success' field");
+      auto error = dap::Error("Response missing int 'success' field");
+      handler(nullptr, &error);
       return;
     }
 
@@ -460,9 +462,9 @@ class Impl : public dap::Session {
       std::string message;
       if (!d->field("message", &message)) {
         handlers.error("Failed to deserialize message");
-        return;
       }
-      auto error = dap::Error("%s", message.c_str());
+      // Note: An empty Error message represents success.
+      auto error = dap::Error(message.empty() ? "Request failed" : message);
       handler(nullptr, &error);
     }
   }
-- 
2.43.0


From 21c83e12932d78d422fca28e2236ac4a9531727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:40 +0000
Subject: [PATCH 13/41] fix: return from a pipe read as soon as there is data

Reader::read() blocks until at least one byte is read, but the pipe blocked
until the whole of the requested size was read.
---
 src/io.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index b4133e5..6ec58d0 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -43,19 +43,15 @@ class Pipe : public dap::ReaderWriter {
     std::unique_lock<std::mutex> lock(mutex);
     auto out = reinterpret_cast<uint8_t*>(buffer);
     size_t n = 0;
-    while (true) {
-      cv.wait(lock, [&] { return closed || data.size() > 0; });
-      if (closed) {
-        return n;
-      }
-      for (; n < bytes && data.size() > 0; n++) {
-        out[n] = data.front();
-        data.pop_front();
-      }
-      if (n == bytes) {
-        return n;
-      }
+    cv.wait(lock, [&] { return closed || data.size() > 0; });
+    if (closed) {
+      return n;
+    }
+    for (; n < bytes && data.size() > 0; n++) {
+      out[n] = data.front();
+      data.pop_front();
     }
+    return n;
   }
 
   bool write(const void* buffer, size_t bytes) override {
-- 
2.43.0


From 06730f09edc8c287e80fa20486ffaf380e5b5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:34 +0000
Subject: [PATCH 14/41] fix: abort when sending a string that is not valid
 UTF-8

nlohmann's dump() throws by default on invalid UTF-8, which aborts as
exceptions are disabled. Strings such as file paths and program output are
not guaranteed to be valid UTF-8. Replace the invalid sequences instead.
---
 src/nlohmann_json_serializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 7834230..0674c1e 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -157,7 +157,9 @@ NlohmannSerializer::~NlohmannSerializer() {
 }
 
 std::string NlohmannSerializer::dump() const {
-  return json->dump();
+  // Invalid UTF-8 sequences are replaced with U+FFFD. By default these would
+  // throw, which with JSON_NOEXCEPTION aborts the process.
+  return json->dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
 }
 
 bool NlohmannSerializer::serialize(dap::boolean v) {
-- 
2.43.0


From 645ce159ce61d10e0f2c1717876980504af92948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:44 +0000
Subject: [PATCH 15/41] fix: abort on malformed messages with the jsoncpp
 serializer

Any message from the peer that is not valid JSON, or that is nested too
deeply for jsoncpp, terminated the process.
---
 src/jsoncpp_json_serializer.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 954b0e5..ea749f9 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -17,7 +17,6 @@
 #include "null_json_serializer.h"
 
 #include <json/json.h>
-#include <cstdlib>
 #include <memory>
 
 namespace dap {
@@ -148,10 +147,16 @@ Json::Value JsonCppDeserializer::parse(const std::string& text) {
   auto jsonReader = std::unique_ptr<Json::CharReader>(builder.newCharReader());
   Json::Value json;
   std::string error;
-  if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
-                         &error)) {
-    // cppdap expects that the JSON layer does not throw exceptions.
-    std::abort();
+  // cppdap expects that the JSON layer does not throw exceptions.
+  // Text that cannot be parsed is treated as a null, which fails to deserialize
+  // as any other type.
+  try {
+    if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
+                           &error)) {
+      return Json::Value();
+    }
+  } catch (const Json::Exception&) {
+    return Json::Value();  // Thrown if the nesting is too deep.
   }
   return json;
 }
-- 
2.43.0


From 4aa55129f5e6202d8f0fa6042b7d27c3b0437c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:18 +0000
Subject: [PATCH 16/41] fix: rapidjson assertions on values of the wrong type

Deserializing an array or object from any other type of JSON value called
rapidjson functions that assert on the type, instead of returning false.
A peer could terminate the process with a message like {"seq":1,"type":
"event","event":"loadedSource","body":{"source":{"sources":1}}}.
---
 src/rapid_json_serializer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 178db99..607a1db 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -75,6 +75,9 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
 }
 
 bool RapidDeserializer::deserialize(dap::object* v) const {
+  if (!json()->IsObject()) {
+    return false;
+  }
   v->reserve(json()->MemberCount());
   for (auto el = json()->MemberBegin(); el != json()->MemberEnd(); el++) {
     dap::any el_val;
@@ -117,7 +120,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
 }
 
 size_t RapidDeserializer::count() const {
-  return json()->Size();
+  return json()->IsArray() ? json()->Size() : 0;
 }
 
 bool RapidDeserializer::array(
-- 
2.43.0


From 7d45006e3750a42e81aea9de6ff698156731f8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:29 +0000
Subject: [PATCH 17/41] fix: parse the whole of the text with full precision in
 rapidjson

The text was parsed up to the first NUL byte, so that text with trailing
data was accepted, and rapidjson's default number parsing may be off by
several units in the last place, so that numbers did not round-trip.
---
 src/rapid_json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 607a1db..1e46d62 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -24,7 +24,7 @@ namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.c_str());
+  doc->Parse<rapidjson::kParseFullPrecisionFlag>(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
-- 
2.43.0


From 31d1cacf5a89229acf9cf81db1d2edc951e2be6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:39 +0000
Subject: [PATCH 18/41] fix: integers outside of 32 bits and strings with NULs
 in a rapidjson any

Deserializing an any failed for integers that do not fit in an int32, and
truncated strings at the first NUL.
---
 src/rapid_json_serializer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 1e46d62..0d4213c 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -95,10 +95,10 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
     *v = dap::boolean(json()->GetBool());
   } else if (json()->IsDouble()) {
     *v = dap::number(json()->GetDouble());
-  } else if (json()->IsInt()) {
-    *v = dap::integer(json()->GetInt());
+  } else if (json()->IsInt64()) {
+    *v = dap::integer(json()->GetInt64());
   } else if (json()->IsString()) {
-    *v = dap::string(json()->GetString());
+    *v = dap::string(json()->GetString(), json()->GetStringLength());
   } else if (json()->IsNull()) {
     *v = null();
   } else if (json()->IsObject()) {
-- 
2.43.0


From d2c18871aa78d2d93c98c01524a2e01b56d405dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:50 +0000
Subject: [PATCH 19/41] fix: strings and keys with NULs, and null roots, with
 rapidjson

Strings and object keys were truncated at the first NUL character. A null
any serialized by a root serializer was written as an empty object.
---
 src/rapid_json_serializer.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 0d4213c..e05602a 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -70,7 +70,7 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
   if (!json()->IsString()) {
     return false;
   }
-  *v = json()->GetString();
+  *v = dap::string(json()->GetString(), json()->GetStringLength());
   return true;
 }
 
@@ -85,7 +85,8 @@ bool RapidDeserializer::deserialize(dap::object* v) const {
     if (!d.deserialize(&el_val)) {
       return false;
     }
-    (*v)[el->name.GetString()] = el_val;
+    (*v)[std::string(el->name.GetString(), el->name.GetStringLength())] =
+        el_val;
   }
   return true;
 }
@@ -195,11 +196,13 @@ bool RapidSerializer::serialize(const dap::object& v) {
     json()->SetObject();
   }
   for (auto& it : v) {
-    if (!json()->HasMember(it.first.c_str())) {
-      rapidjson::Value name_value{it.first.c_str(), allocator};
-      json()->AddMember(name_value, rapidjson::Value(), allocator);
+    rapidjson::Value name_value{
+        it.first.data(), static_cast<uint32_t>(it.first.length()), allocator};
+    if (!json()->HasMember(name_value)) {
+      rapidjson::Value name_copy{name_value, allocator};
+      json()->AddMember(name_copy, rapidjson::Value(), allocator);
     }
-    rapidjson::Value& member = (*json())[it.first.c_str()];
+    rapidjson::Value& member = (*json())[name_value];
     RapidSerializer s(&member, allocator);
     if (!s.serialize(it.second)) {
       return false;
@@ -222,6 +225,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    json()->SetNull();
   } else {
     // reachable if array or custom serialized type is nested inside other dap::object
     auto type = get_any_type(v);
-- 
2.43.0


From 369206fe0b5688de9380aa1b04e38525dac88cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:08 +0000
Subject: [PATCH 20/41] fix: deserializing an object from a value of another
 type

Deserializer::deserialize() must return false when the stored value is not
of the correct type, but the nlohmann and jsoncpp serializers accepted
arrays and primitives as objects.
---
 src/jsoncpp_json_serializer.cpp  | 3 +++
 src/nlohmann_json_serializer.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index ea749f9..4b0d66a 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -67,6 +67,9 @@ bool JsonCppDeserializer::deserialize(dap::string* v) const {
 }
 
 bool JsonCppDeserializer::deserialize(dap::object* v) const {
+  if (!json->isObject()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto i = json->begin(); i != json->end(); i++) {
     JsonCppDeserializer d(&*i);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 0674c1e..4af6729 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -70,6 +70,9 @@ bool NlohmannDeserializer::deserialize(dap::string* v) const {
 }
 
 bool NlohmannDeserializer::deserialize(dap::object* v) const {
+  if (!json->is_object()) {
+    return false;
+  }
   v->reserve(json->size());
   for (auto& el : json->items()) {
     NlohmannDeserializer d(&el.value());
-- 
2.43.0


From 594120f89610f08368e250a68044e3f468982dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:29 +0000
Subject: [PATCH 21/41] fix: reject integers that are not representable

Integers greater than the maximum int64 were wrapped to negative values by
the nlohmann and rapidjson serializers.
---
 src/nlohmann_json_serializer.cpp | 20 ++++++++++++++++++--
 src/rapid_json_serializer.cpp    |  3 ---
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 4af6729..6880b51 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -21,6 +21,22 @@
 #define JSON_NOEXCEPTION 1
 #include <nlohmann/json.hpp>
 
+#include <limits>
+
+namespace {
+
+// isInt64() returns true if the JSON value is an integer that can be
+// represented by an int64_t.
+bool isInt64(const nlohmann::json& json) {
+  if (json.is_number_unsigned()) {
+    return json.get<uint64_t>() <=
+           static_cast<uint64_t>(std::numeric_limits<int64_t>::max());
+  }
+  return json.is_number_integer();
+}
+
+}  // anonymous namespace
+
 namespace dap {
 namespace json {
 
@@ -46,7 +62,7 @@ bool NlohmannDeserializer::deserialize(dap::boolean* v) const {
 }
 
 bool NlohmannDeserializer::deserialize(dap::integer* v) const {
-  if (!json->is_number_integer()) {
+  if (!isInt64(*json)) {
     return false;
   }
   *v = json->get<int64_t>();
@@ -90,7 +106,7 @@ bool NlohmannDeserializer::deserialize(dap::any* v) const {
     *v = dap::boolean(json->get<bool>());
   } else if (json->is_number_float()) {
     *v = dap::number(json->get<double>());
-  } else if (json->is_number_integer()) {
+  } else if (isInt64(*json)) {
     *v = dap::integer(json->get<int64_t>());
   } else if (json->is_string()) {
     *v = json->get<std::string>();
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index e05602a..8a18714 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -51,9 +51,6 @@ bool RapidDeserializer::deserialize(dap::integer* v) const {
   } else if (json()->IsInt64()) {
     *v = json()->GetInt64();
     return true;
-  } else if (json()->IsUint64()) {
-    *v = static_cast<int64_t>(json()->GetUint64());
-    return true;
   }
   return false;
 }
-- 
2.43.0


From baadc5037c91c2b0746018538acef04ffbbf5feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:13 +0000
Subject: [PATCH 22/41] fix: reading the fields of a JSON array with nlohmann

An array was treated as an object without any fields, so that an array in
place of a structure was accepted if all of the fields are optional.
---
 src/nlohmann_json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 6880b51..8133176 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -151,7 +151,7 @@ bool NlohmannDeserializer::array(
 bool NlohmannDeserializer::field(
     const std::string& name,
     const std::function<bool(dap::Deserializer*)>& cb) const {
-  if (!json->is_structured()) {
+  if (!json->is_object()) {
     return false;
   }
   auto it = json->find(name);
-- 
2.43.0


From c1c2f67ec4d41b41fd378fc35053a09f4399cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:18 +0000
Subject: [PATCH 23/41] fix: deserializing a variant from a value of none of
 its types

A variant can hold a value of any of its template argument types, but
deserializing accepted a JSON value of any type, leaving a variant for which
is<T>() is false for all of its types.
---
 include/dap/serialization.h |  7 ++++++-
 include/dap/variant.h       | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/dap/serialization.h b/include/dap/serialization.h
index c7d4c5e..0244299 100644
--- a/include/dap/serialization.h
+++ b/include/dap/serialization.h
@@ -112,7 +112,12 @@ bool Deserializer::deserialize(dap::optional<T>* opt) const {
 
 template <typename T0, typename... Types>
 bool Deserializer::deserialize(dap::variant<T0, Types...>* var) const {
-  return deserialize(&var->value);
+  any value;
+  if (!deserialize(&value) || !dap::variant<T0, Types...>::holds(value)) {
+    return false;
+  }
+  var->value = std::move(value);
+  return true;
 }
 
 template <typename T>
diff --git a/include/dap/variant.h b/include/dap/variant.h
index 96e57c2..b36d218 100644
--- a/include/dap/variant.h
+++ b/include/dap/variant.h
@@ -64,6 +64,10 @@ class variant {
  private:
   friend class Serializer;
   friend class Deserializer;
+
+  // holds() returns true iff val is of one of the variant's types.
+  static inline bool holds(const any& val);
+
   any value;
 };
 
@@ -103,6 +107,16 @@ constexpr bool variant<T0, Types...>::accepts() {
   return detail::TypeIsIn<T, T0, Types...>::value;
 }
 
+template <typename T0, typename... Types>
+bool variant<T0, Types...>::holds(const any& val) {
+  for (bool is : {val.is<T0>(), val.is<Types>()...}) {
+    if (is) {
+      return true;
+    }
+  }
+  return false;
+}
+
 }  // namespace dap
 
 #endif  // dap_variant_h
-- 
2.43.0


From a8a1933c44ec1286c81610f7b691f191fc9a5ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:29 +0000
Subject: [PATCH 24/41] fix: requests without arguments and events without a
 body

The "arguments" of a request and the "body" of an event may be omitted when
all of the fields are optional, for example for the Disconnect request and
the Terminated event, but these were dropped as malformed.
---
 src/session.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 205c2b2..a7661e3 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -19,6 +19,7 @@
 
 #include "chan.h"
 #include "json_serializer.h"
+#include "null_json_serializer.h"
 #include "socket.h"
 
 #include <stdarg.h>
@@ -33,6 +34,15 @@
 
 namespace {
 
+// MissingObject is the Deserializer for an optional "arguments" or "body" field
+// that is not present. It behaves as an object without any fields.
+struct MissingObject : public dap::json::NullDeserializer {
+  bool field(const std::string&,
+             const std::function<bool(dap::Deserializer*)>& cb) const override {
+    return cb(&dap::json::NullDeserializer::instance);
+  }
+};
+
 class Impl : public dap::Session {
  public:
   void setOnInvalidData(dap::OnInvalidData onInvalidData_) override {
@@ -293,6 +303,13 @@ class Impl : public dap::Session {
     return data;
   }
 
+  // objectOrMissing() returns d, or a MissingObject if d is the Deserializer of
+  // a field that is not present.
+  static const dap::Deserializer* objectOrMissing(const dap::Deserializer* d) {
+    static const MissingObject missing;
+    return (d == &dap::json::NullDeserializer::instance) ? &missing : d;
+  }
+
   Payload processMessage(const std::string& str) {
     auto d = dap::json::Deserializer(str);
     dap::string type;
@@ -339,8 +356,9 @@ class Impl : public dap::Session {
 
     auto data = construct(typeinfo);
 
+    // "arguments" is an optional field for some requests, such as "Disconnect".
     if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return typeinfo->deserialize(d, data.get());
+          return typeinfo->deserialize(objectOrMissing(d), data.get());
         })) {
       handlers.error("Failed to deserialize request");
       return {};
@@ -409,7 +427,7 @@ class Impl : public dap::Session {
     // "body" is an optional field for some events, such as "Terminated Event".
     bool body_ok = true;
     d->field("body", [&](dap::Deserializer* d) {
-      if (!typeinfo->deserialize(d, data.get())) {
+      if (!typeinfo->deserialize(objectOrMissing(d), data.get())) {
         body_ok = false;
       }
       return true;
-- 
2.43.0


From 9bc2e60aee474109e8742a3caf9e942607ed474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:47 +0000
Subject: [PATCH 25/41] fix: stack overflow on deeply nested messages

The nlohmann and rapidjson back ends recurse for each level of nesting, and
a message of a few hundred kilobytes of '[' overflowed the stack.
---
 src/session.cpp | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/session.cpp b/src/session.cpp
index a7661e3..0be3098 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -43,6 +43,37 @@ struct MissingObject : public dap::json::NullDeserializer {
   }
 };
 
+// The maximum number of JSON arrays and objects that a message may nest.
+// The JSON libraries and (de)serializers are recursive, so without a limit a
+// message could exhaust the stack.
+constexpr size_t MaxNesting = 512;
+
+// exceedsMaxNesting() returns true if the arrays and objects of the JSON text
+// are nested deeper than MaxNesting.
+bool exceedsMaxNesting(const std::string& json) {
+  size_t depth = 0;
+  bool inString = false;
+  for (size_t i = 0; i < json.size(); i++) {
+    auto c = json[i];
+    if (inString) {
+      if (c == '\\') {
+        i++;  // Skip the escaped character.
+      } else if (c == '"') {
+        inString = false;
+      }
+    } else if (c == '"') {
+      inString = true;
+    } else if (c == '[' || c == '{') {
+      if (++depth > MaxNesting) {
+        return true;
+      }
+    } else if ((c == ']' || c == '}') && depth > 0) {
+      depth--;
+    }
+  }
+  return false;
+}
+
 class Impl : public dap::Session {
  public:
   void setOnInvalidData(dap::OnInvalidData onInvalidData_) override {
@@ -311,6 +342,11 @@ class Impl : public dap::Session {
   }
 
   Payload processMessage(const std::string& str) {
+    if (exceedsMaxNesting(str)) {
+      handlers.error("Message is nested too deeply");
+      return {};
+    }
+
     auto d = dap::json::Deserializer(str);
     dap::string type;
     if (!d.field("type", &type)) {
-- 
2.43.0


From 6790fe109ca3cc9c156793928cc2e4475717eca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:09 +0000
Subject: [PATCH 26/41] fix: forget the response handler of a request that
 failed to send

The handler stayed registered for the life of the session, and a response
with its sequence number would complete the already failed request again.
---
 src/session.cpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 0be3098..82a6d4a 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -151,17 +151,17 @@ class Impl : public dap::Session {
     handlers.put(seq, responseTypeInfo, responseHandler);
 
     dap::json::Serializer s;
-    if (!s.object([&](dap::FieldSerializer* fs) {
-          return fs->field("seq", dap::integer(seq)) &&
-                 fs->field("type", "request") &&
-                 fs->field("command", requestTypeInfo->name()) &&
-                 fs->field("arguments", [&](dap::Serializer* s) {
-                   return requestTypeInfo->serialize(s, request);
-                 });
-        })) {
-      return false;
-    }
-    return send(s.dump());
+    bool sent = s.object([&](dap::FieldSerializer* fs) {
+      return fs->field("seq", dap::integer(seq)) &&
+             fs->field("type", "request") &&
+             fs->field("command", requestTypeInfo->name()) &&
+             fs->field("arguments", [&](dap::Serializer* s) {
+               return requestTypeInfo->serialize(s, request);
+             });
+    }) && send(s.dump());
+
+    // A request that was not sent must not be completed by a later response.
+    return sent || !handlers.removeResponse(seq);
   }
 
   bool send(const dap::TypeInfo* typeinfo, const void* event) override {
@@ -253,6 +253,13 @@ class Impl : public dap::Session {
       }
     }
 
+    // removeResponse() removes the handler for the response with the given
+    // sequence number, returning false if there is none.
+    bool removeResponse(int64_t seq) {
+      std::unique_lock<std::mutex> lock(responseMutex);
+      return responseMap.erase(seq) > 0;
+    }
+
     std::pair<const dap::TypeInfo*, GenericEventHandler> event(
         const std::string& name) {
       std::unique_lock<std::mutex> lock(eventMutex);
-- 
2.43.0


From ded2f47a81404393f4d4ba655e4d2f9064b18cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:28 +0000
Subject: [PATCH 27/41] fix: reads and writes of a closed file use freed memory

File::read() and File::write() accessed the FILE after (or while) close()
freed it. They now fail once the file is closed, and close() waits for those
in progress.
---
 src/io.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 6ec58d0..4612de0 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -112,6 +112,9 @@ class File : public dap::ReaderWriter {
   void close() override {
     if (closable) {
       if (!closed.exchange(true)) {
+        // Wait for reads and writes that are using the file.
+        std::unique_lock<std::mutex> readLock(readMutex);
+        std::unique_lock<std::mutex> writeLock(writeMutex);
         fclose(f);
       }
     }
@@ -120,6 +123,9 @@ class File : public dap::ReaderWriter {
     std::unique_lock<std::mutex> lock(readMutex);
     auto out = reinterpret_cast<char*>(buffer);
     for (size_t i = 0; i < n; i++) {
+      if (closed) {
+        return i;
+      }
       int c = fgetc(f);
       if (c == EOF) {
         return i;
@@ -130,6 +136,9 @@ class File : public dap::ReaderWriter {
   }
   bool write(const void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(writeMutex);
+    if (closed) {
+      return false;
+    }
     if (fwrite(buffer, 1, n, f) == n) {
       fflush(f);
       return true;
-- 
2.43.0


From 5253498884c4591f6136e0133336a68d54d7bf40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:42 +0000
Subject: [PATCH 28/41] fix: writef() truncated text longer than 2047 bytes

The formatted text was cut to a fixed size buffer without an error.
---
 src/io.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 4612de0..3203a2a 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -22,6 +22,7 @@
 #include <deque>
 #include <mutex>
 #include <string>
+#include <vector>
 
 namespace {
 
@@ -250,14 +251,20 @@ std::shared_ptr<Writer> spy(const std::shared_ptr<Writer>& w,
 }
 
 bool writef(const std::shared_ptr<Writer>& w, const char* msg, ...) {
-  char buf[2048];
-
   va_list vararg;
   va_start(vararg, msg);
-  vsnprintf(buf, sizeof(buf), msg, vararg);
+  int len = vsnprintf(nullptr, 0, msg, vararg);
+  va_end(vararg);
+  if (len < 0) {
+    return false;
+  }
+
+  std::vector<char> buf(static_cast<size_t>(len) + 1);
+  va_start(vararg, msg);
+  vsnprintf(buf.data(), buf.size(), msg, vararg);
   va_end(vararg);
 
-  return w->write(buf, strlen(buf));
+  return w->write(buf.data(), static_cast<size_t>(len));
 }
 
 }  // namespace dap
-- 
2.43.0


From ec50545acb2c43264b65b6cd2c9a9b4c17b06633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:01 +0000
Subject: [PATCH 29/41] fix: formatted error messages were truncated to 2047
 bytes

---
 src/session.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 82a6d4a..1aa418f 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -561,12 +561,20 @@ namespace dap {
 Error::Error(const std::string& message) : message(message) {}
 
 Error::Error(const char* msg, ...) {
-  char buf[2048];
   va_list vararg;
   va_start(vararg, msg);
-  vsnprintf(buf, sizeof(buf), msg, vararg);
+  int len = vsnprintf(nullptr, 0, msg, vararg);
   va_end(vararg);
-  message = buf;
+  if (len < 0) {
+    message = msg;
+    return;
+  }
+
+  std::vector<char> buf(static_cast<size_t>(len) + 1);
+  va_start(vararg, msg);
+  vsnprintf(buf.data(), buf.size(), msg, vararg);
+  va_end(vararg);
+  message.assign(buf.data(), static_cast<size_t>(len));
 }
 
 Session::~Session() = default;
-- 
2.43.0


From 3bebda778b3878328a41dd4f6b517e0a668c9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:13 +0000
Subject: [PATCH 30/41] fix: release the held lock when an RLock or WLock is
 move-assigned

The RWMutex held before the assignment stayed locked for ever.
---
 src/rwmutex.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rwmutex.h b/src/rwmutex.h
index 9e85891..c87d7ee 100644
--- a/src/rwmutex.h
+++ b/src/rwmutex.h
@@ -122,8 +122,13 @@ RLock::RLock(RLock&& other) {
 }
 
 RLock& RLock::operator=(RLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockReader();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 
@@ -163,8 +168,13 @@ WLock::WLock(WLock&& other) {
 }
 
 WLock& WLock::operator=(WLock&& other) {
-  m = other.m;
-  other.m = nullptr;
+  if (this != &other) {
+    if (m != nullptr) {
+      m->unlockWriter();
+    }
+    m = other.m;
+    other.m = nullptr;
+  }
   return *this;
 }
 }  // namespace dap
-- 
2.43.0


From 24d7822149ef3953a96466b8f08d1133f35c97a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:39 +0000
Subject: [PATCH 31/41] fix: TCP reads of 2GiB or more failed

The size was cast to an int, which made it negative or zero.
---
 src/socket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 95659be..bc734e4 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -249,8 +249,8 @@ class dap::Socket::Shared : public dap::ReaderWriter {
       return 0;
     }
     while (true) {
-      auto len =
-          recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
+      auto count = static_cast<int>(std::min<size_t>(bytes, 1 << 30));
+      auto len = recv(s, reinterpret_cast<char*>(buffer), count, 0);
       if (len < 0 && interrupted()) {
         continue;
       }
-- 
2.43.0


From 9113a12624c644a865bab9098eb3dba16e9b4698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:54 +0000
Subject: [PATCH 32/41] fix: a signal during accept() stopped the server

An accept() that is interrupted, or that finds a connection which the client has
already aborted, was taken for the end of the server.
---
 src/socket.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/socket.cpp b/src/socket.cpp
index bc734e4..3510130 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -95,6 +95,17 @@ bool interrupted() {
 #endif
 }
 
+// acceptAgain() returns true if the last failing call to ::accept() should be
+// repeated: it was interrupted by a signal, or the client had gone before its
+// connection was accepted.
+bool acceptAgain() {
+#if defined(_WIN32)
+  return WSAGetLastError() == WSAECONNRESET;
+#else
+  return errno == EINTR || errno == ECONNABORTED;
+#endif
+}
+
 // waitWritable() waits for the socket to become writable or to error.
 // Returns false if the timeout was reached first.
 bool waitWritable(SOCKET s, uint32_t timeoutMillis) {
@@ -310,6 +321,9 @@ std::shared_ptr<ReaderWriter> Socket::accept() const {
       if (socket != InvalidSocket && !errored(socket)) {
         init();
         auto accepted = ::accept(socket, 0, 0);
+        while (accepted == InvalidSocket && acceptAgain()) {
+          accepted = ::accept(socket, 0, 0);
+        }
         if (accepted != InvalidSocket) {
           out = std::make_shared<Shared>(accepted);
           out->setOptions();
-- 
2.43.0


From 21a5e11950a7ab05bf33bc28603faa119d40115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:09 +0000
Subject: [PATCH 33/41] fix: a signal during connect() made it fail

Interrupted connects complete on their own, and an interrupted poll() was taken
for a timeout.
---
 src/socket.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 3510130..926a464 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -16,7 +16,8 @@
 
 #include "rwmutex.h"
 
-#include <algorithm>  // std::min
+#include <algorithm>  // std::max, std::min
+#include <chrono>
 
 #if defined(_WIN32)
 #include <winsock2.h>
@@ -124,8 +125,19 @@ bool waitWritable(SOCKET s, uint32_t timeoutMillis) {
   pollfd fd = {};
   fd.fd = s;
   fd.events = POLLOUT;
-  auto timeout = std::min<uint32_t>(timeoutMillis, 0x7fffffff);
-  return poll(&fd, 1, static_cast<int>(timeout)) > 0;
+  using clock = std::chrono::steady_clock;
+  auto end = clock::now() + std::chrono::milliseconds(timeoutMillis);
+  while (true) {
+    auto left = std::chrono::duration_cast<std::chrono::milliseconds>(
+                    end - clock::now())
+                    .count();
+    left = std::max<decltype(left)>(0, std::min<decltype(left)>(left, 1 << 30));
+    auto res = poll(&fd, 1, static_cast<int>(left));
+    if (res < 0 && interrupted()) {
+      continue;
+    }
+    return res > 0;
+  }
 #endif
 }
 
@@ -139,6 +151,14 @@ bool errored(SOCKET s) {
   return error != 0;
 }
 
+// waitConnected() waits for a blocking connect that was interrupted by a signal
+// to complete, which it does on its own. Returns true if it succeeded.
+bool waitConnected(SOCKET s) {
+  while (!waitWritable(s, 1000)) {
+  }
+  return !errored(s);
+}
+
 }  // anonymous namespace
 
 class dap::Socket::Shared : public dap::ReaderWriter {
@@ -362,7 +382,8 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
     }
 
     if (timeoutMillis == 0) {
-      if (::connect(socket, info->ai_addr, (int)info->ai_addrlen) == 0) {
+      if (::connect(socket, info->ai_addr, (int)info->ai_addrlen) == 0 ||
+          (interrupted() && waitConnected(socket))) {
         out = shared;
       }
       return;
-- 
2.43.0


From fe279fdeda684a1a22e74ae0d0d2e5ce034c28b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:07 +0000
Subject: [PATCH 34/41] fix: struct type descriptions did not outlive static
 destruction

The TypeInfo of structs were static objects, destructed at program exit whether
or not dap::initialize() was called. Let the library own them, like those of all
other types, so they exist until the last dap::terminate().
---
 include/dap/typeof.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 43c9289..54f30be 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -208,8 +208,8 @@ M member_type(M T::*);
             [&](FieldSerializer* fs) { return serializeFields(fs, obj); }); \
       }                                                                     \
     };                                                                      \
-    static TI typeinfo;                                                     \
-    return &typeinfo;                                                       \
+    static auto typeinfo = TypeInfo::create<TI>();                          \
+    return typeinfo;                                                        \
   }
 
 // DAP_STRUCT_TYPEINFO() is a helper for declaring and implementing a TypeOf<>
@@ -249,8 +249,8 @@ M member_type(M T::*);
         });                                                               \
       }                                                                   \
     };                                                                    \
-    static TI typeinfo;                                                   \
-    return &typeinfo;                                                     \
+    static auto typeinfo = TypeInfo::create<TI>();                        \
+    return typeinfo;                                                      \
   }
 
 // DAP_STRUCT_TYPEINFO_EXT() is a helper for declaring and implementing a
-- 
2.43.0


From ff4c68e689b90f24148b7f606a2a783a6ae9013a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:58 +0000
Subject: [PATCH 35/41] fix: the hex field of StackFrameFormat was not
 serialized

StackFrameFormat derives from ValueFormat, whose field was neither encoded nor
decoded. Fix the type description and the generator it comes from.
---
 src/protocol_types.cpp             | 20 +++++++++++---------
 tools/protocol_gen/protocol_gen.go | 13 +++++++++++--
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/protocol_types.cpp b/src/protocol_types.cpp
index 2ae9100..9ae44cc 100644
--- a/src/protocol_types.cpp
+++ b/src/protocol_types.cpp
@@ -289,15 +289,17 @@ DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrame,
                               DAP_FIELD(presentationHint, "presentationHint"),
                               DAP_FIELD(source, "source"));
 
-DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrameFormat,
-                              "",
-                              DAP_FIELD(includeAll, "includeAll"),
-                              DAP_FIELD(line, "line"),
-                              DAP_FIELD(module, "module"),
-                              DAP_FIELD(parameterNames, "parameterNames"),
-                              DAP_FIELD(parameterTypes, "parameterTypes"),
-                              DAP_FIELD(parameterValues, "parameterValues"),
-                              DAP_FIELD(parameters, "parameters"));
+DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(
+    StackFrameFormat,
+    ValueFormat,
+    "",
+    DAP_FIELD(includeAll, "includeAll"),
+    DAP_FIELD(line, "line"),
+    DAP_FIELD(module, "module"),
+    DAP_FIELD(parameterNames, "parameterNames"),
+    DAP_FIELD(parameterTypes, "parameterTypes"),
+    DAP_FIELD(parameterValues, "parameterValues"),
+    DAP_FIELD(parameters, "parameters"));
 
 DAP_IMPLEMENT_STRUCT_TYPEINFO(StepInTarget,
                               "",
diff --git a/tools/protocol_gen/protocol_gen.go b/tools/protocol_gen/protocol_gen.go
index c5e112c..b275618 100644
--- a/tools/protocol_gen/protocol_gen.go
+++ b/tools/protocol_gen/protocol_gen.go
@@ -297,8 +297,17 @@ func (s *cppStruct) WriteHeader(w io.Writer) {
 }
 func (s *cppStruct) WriteCPP(w io.Writer) {
 	// typeinfo
-	io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
-	io.WriteString(w, s.name)
+	switch s.base {
+	case "", "Request", "Response", "Event":
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
+		io.WriteString(w, s.name)
+	default:
+		// Also serialize the fields of the base structure.
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(")
+		io.WriteString(w, s.name)
+		io.WriteString(w, ",\n                    ")
+		io.WriteString(w, s.base)
+	}
 	io.WriteString(w, ",\n                    \"")
 	io.WriteString(w, s.protoname)
 	io.WriteString(w, "\"")
-- 
2.43.0


From cd61ff94edf6f6641328f05a95ab6276ed27d0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:03 +0000
Subject: [PATCH 36/41] fix: fields of a base's base were lost by
 DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT

The fields of a structure that extends another are those of the whole chain:
deserializeFields() and serializeFields() of an extended structure now begin
with its base's. The base is found from the derived pointer, so it need not be
the first base of the structure.
---
 include/dap/typeof.h | 73 +++++++++++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 24 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 54f30be..7758497 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -227,30 +227,55 @@ M member_type(M T::*);
 // specification. The variadic (...) parameters should be a repeated list of
 // DAP_FIELD()s, one for each field of the struct.
 // Must be used within the 'dap' namespace.
-#define DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(STRUCT, BASE, NAME, ...)        \
-  static_assert(std::is_base_of<BASE, STRUCT>::value,                     \
-                #STRUCT " does not derive from " #BASE);                  \
-  DAP_IMPLEMENT_STRUCT_FIELD_SERIALIZATION(STRUCT, NAME, __VA_ARGS__)     \
-  const ::dap::TypeInfo* TypeOf<STRUCT>::type() {                         \
-    struct TI : BasicTypeInfo<STRUCT> {                                   \
-      TI() : BasicTypeInfo<STRUCT>(NAME) {}                               \
-      bool deserialize(const Deserializer* d, void* obj) const override { \
-        auto derived = static_cast<STRUCT*>(obj);                         \
-        auto base = static_cast<BASE*>(obj);                              \
-        return TypeOf<BASE>::deserializeFields(d, base) &&                \
-               deserializeFields(d, derived);                             \
-      }                                                                   \
-      bool serialize(Serializer* s, const void* obj) const override {     \
-        return s->object([&](FieldSerializer* fs) {                       \
-          auto derived = static_cast<const STRUCT*>(obj);                 \
-          auto base = static_cast<const BASE*>(obj);                      \
-          return TypeOf<BASE>::serializeFields(fs, base) &&               \
-                 serializeFields(fs, derived);                            \
-        });                                                               \
-      }                                                                   \
-    };                                                                    \
-    static auto typeinfo = TypeInfo::create<TI>();                        \
-    return typeinfo;                                                      \
+#define DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(STRUCT, BASE, NAME, ...)            \
+  static_assert(std::is_base_of<BASE, STRUCT>::value,                         \
+                #STRUCT " does not derive from " #BASE);                      \
+  bool TypeOf<STRUCT>::deserializeFields(const Deserializer* fd, void* obj) { \
+    using StructTy = STRUCT;                                                  \
+    BASE* base = static_cast<StructTy*>(obj);                                 \
+    if (!TypeOf<BASE>::deserializeFields(fd, base)) {                         \
+      return false;                                                           \
+    }                                                                         \
+    for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {           \
+      if (!fd->field(field.name, [&](Deserializer* d) {                       \
+            auto ptr = reinterpret_cast<uint8_t*>(obj) + field.offset;        \
+            return field.type->deserialize(d, ptr);                           \
+          })) {                                                               \
+        return false;                                                         \
+      }                                                                       \
+    }                                                                         \
+    return true;                                                              \
+  }                                                                           \
+  bool TypeOf<STRUCT>::serializeFields(FieldSerializer* fs,                   \
+                                       const void* obj) {                     \
+    using StructTy = STRUCT;                                                  \
+    const BASE* base = static_cast<const StructTy*>(obj);                     \
+    if (!TypeOf<BASE>::serializeFields(fs, base)) {                           \
+      return false;                                                           \
+    }                                                                         \
+    for (auto& field : std::initializer_list<Field>{__VA_ARGS__}) {           \
+      if (!fs->field(field.name, [&](Serializer* s) {                         \
+            auto ptr = reinterpret_cast<const uint8_t*>(obj) + field.offset;  \
+            return field.type->serialize(s, ptr);                             \
+          })) {                                                               \
+        return false;                                                         \
+      }                                                                       \
+    }                                                                         \
+    return true;                                                              \
+  }                                                                           \
+  const ::dap::TypeInfo* TypeOf<STRUCT>::type() {                             \
+    struct TI : BasicTypeInfo<STRUCT> {                                       \
+      TI() : BasicTypeInfo<STRUCT>(NAME) {}                                   \
+      bool deserialize(const Deserializer* d, void* obj) const override {     \
+        return deserializeFields(d, obj);                                     \
+      }                                                                       \
+      bool serialize(Serializer* s, const void* obj) const override {         \
+        return s->object(                                                     \
+            [&](FieldSerializer* fs) { return serializeFields(fs, obj); });   \
+      }                                                                       \
+    };                                                                        \
+    static auto typeinfo = TypeInfo::create<TI>();                            \
+    return typeinfo;                                                          \
   }
 
 // DAP_STRUCT_TYPEINFO_EXT() is a helper for declaring and implementing a
-- 
2.43.0


From 858c10b08805da5b8c71cec7c98d7c9a673d691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:35 +0000
Subject: [PATCH 37/41] fix: rapidjson's full precision parsing read out of
 bounds for some numbers

Numbers such as 0.0000000000000000000000000000001e-320 made rapidjson index its
table of powers of ten out of bounds. The text of the numbers is converted by
the standard library instead.
---
 src/rapid_json_serializer.cpp | 56 ++++++++++++++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 8a18714..5ec3d0e 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -17,14 +17,68 @@
 #include "null_json_serializer.h"
 
 #include <rapidjson/document.h>
+#include <rapidjson/memorystream.h>
 #include <rapidjson/prettywriter.h>
 
+#include <cmath>
+#include <locale>
+#include <sstream>
+
+namespace {
+
+// Parser is a Document that converts the numbers of the parsed text itself.
+// rapidjson's conversions are either inexact, or (kParseFullPrecisionFlag) read
+// out of bounds for some very large and very small numbers.
+class Parser : public rapidjson::Document {
+ public:
+  void parse(const std::string& str) {
+    rapidjson::MemoryStream stream(str.data(), str.size());
+    rapidjson::EncodedInputStream<rapidjson::UTF8<>, rapidjson::MemoryStream>
+        input(stream);
+    rapidjson::Reader reader;
+    auto generate = [&](rapidjson::Document&) {
+      constexpr unsigned flags = rapidjson::kParseNumbersAsStringsFlag;
+      return !reader.Parse<flags>(input, *this).IsError();
+    };
+    Populate(generate);
+  }
+
+  // RawNumber() is called by the reader for each number.
+  bool RawNumber(const char* str, rapidjson::SizeType length, bool) {
+    std::istringstream stream(std::string(str, length));
+    stream.imbue(std::locale::classic());
+    if (stream.str().find_first_of(".eE") == std::string::npos) {
+      int64_t i = 0;
+      if (stream >> i) {
+        return Int64(i);
+      }
+      stream.clear();
+      stream.seekg(0);
+      uint64_t u = 0;
+      if (str[0] != '-' && stream >> u) {
+        return Uint64(u);
+      }
+      stream.clear();
+      stream.seekg(0);
+    }
+    double d = 0.0;
+    if (!(stream >> d) && std::abs(d) > 1.0) {
+      return false;  // Out of range.
+    }
+    return std::isfinite(d) && Double(d);
+  }
+};
+
+}  // anonymous namespace
+
 namespace dap {
 namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse<rapidjson::kParseFullPrecisionFlag>(str.data(), str.size());
+  Parser parser;
+  parser.parse(str);
+  doc->Swap(parser);
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
-- 
2.43.0


From 61df93aec7ee4b1643a4ddf5450dd3ad7ed193fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:15 +0000
Subject: [PATCH 38/41] fix: connect with a timeout returned a stream when
 connect() failed at once

A connect() of a non-blocking socket that failed with anything but EINPROGRESS,
such as ENETUNREACH, left the socket unconnected. The poll() of such a socket
reports it as writable and its error has already been consumed, so a stream that
was never connected was returned.
---
 src/socket.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 926a464..6caefed 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -107,6 +107,16 @@ bool acceptAgain() {
 #endif
 }
 
+// connectPending() returns true if the last failing call to ::connect() left the
+// connection to be made in the background.
+bool connectPending() {
+#if defined(_WIN32)
+  return WSAGetLastError() == WSAEWOULDBLOCK;
+#else
+  return errno == EINPROGRESS || errno == EINTR;
+#endif
+}
+
 // waitWritable() waits for the socket to become writable or to error.
 // Returns false if the timeout was reached first.
 bool waitWritable(SOCKET s, uint32_t timeoutMillis) {
@@ -398,7 +408,7 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
       if (setBlocking(socket, true)) {
         out = shared;
       }
-    } else {
+    } else if (connectPending()) {
       if (waitWritable(socket, timeoutMillis) && !errored(socket) &&
           setBlocking(socket, true)) {
         out = shared;
-- 
2.43.0


From e57407a5ce985bdfa7e2b979de6aafc19c420773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:35 +0000
Subject: [PATCH 39/41] fix: a serializer given a second value kept parts of
 the first

Serializer documents that the last value is stored when serialize() is
called several times; objects were merged with the previous one, a null
kept it, and RapidJSON arrays kept surplus elements.
---
 src/jsoncpp_json_serializer.cpp  |  5 ++---
 src/nlohmann_json_serializer.cpp |  5 ++---
 src/rapid_json_serializer.cpp    | 12 +++---------
 3 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 4b0d66a..d7a54fa 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -202,9 +202,7 @@ bool JsonCppSerializer::serialize(const dap::string& v) {
 }
 
 bool JsonCppSerializer::serialize(const dap::object& v) {
-  if (!json->isObject()) {
-    *json = Json::Value(Json::objectValue);
-  }
+  *json = Json::Value(Json::objectValue);
   for (auto& it : v) {
     JsonCppSerializer s(&(*json)[it.first]);
     if (!s.serialize(it.second)) {
@@ -227,6 +225,7 @@ bool JsonCppSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    *json = Json::Value();
   } else {
     // reachable if array or custom serialized type is nested inside other
     auto type = get_any_type(v);
diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 8133176..c4942b2 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -202,9 +202,7 @@ bool NlohmannSerializer::serialize(const dap::string& v) {
 }
 
 bool NlohmannSerializer::serialize(const dap::object& v) {
-  if (!json->is_object()) {
-    *json = nlohmann::json::object();
-  }
+  *json = nlohmann::json::object();
   for (auto& it : v) {
     NlohmannSerializer s(&(*json)[it.first]);
     if (!s.serialize(it.second)) {
@@ -227,6 +225,7 @@ bool NlohmannSerializer::serialize(const dap::any& v) {
     // reachable if dap::object nested is inside other dap::object
     return serialize(v.get<dap::object>());
   } else if (v.is<dap::null>()) {
+    *json = nullptr;
   } else {
     // reachable if array or custom serialized type is nested inside other
     auto type = get_any_type(v);
diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 5ec3d0e..51b8bfe 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -243,9 +243,7 @@ bool RapidSerializer::serialize(const dap::string& v) {
 }
 
 bool RapidSerializer::serialize(const dap::object& v) {
-  if (!json()->IsObject()) {
-    json()->SetObject();
-  }
+  json()->SetObject();
   for (auto& it : v) {
     rapidjson::Value name_value{
         it.first.data(), static_cast<uint32_t>(it.first.length()), allocator};
@@ -292,9 +290,7 @@ bool RapidSerializer::serialize(const dap::any& v) {
 
 bool RapidSerializer::array(size_t count,
                             const std::function<bool(dap::Serializer*)>& cb) {
-  if (!json()->IsArray()) {
-    json()->SetArray();
-  }
+  json()->SetArray();
 
   while (count > json()->Size()) {
     json()->PushBack(rapidjson::Value(), allocator);
@@ -332,9 +328,7 @@ bool RapidSerializer::object(
     }
   };
 
-  if (!json()->IsObject()) {
-    json()->SetObject();
-  }
+  json()->SetObject();
   FS fs{json(), allocator};
   return cb(&fs);
 }
-- 
2.43.0


From 50c931c917301d50dbd5fe0317859f94f923a187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:35 +0000
Subject: [PATCH 40/41] fix: the protocol generator did not emit a structure's
 base before it

A structure with an allOf base was written before the base, or without it
when nothing else referred to the base, so that the sources did not compile.
---
 tools/protocol_gen/protocol_gen.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/protocol_gen/protocol_gen.go b/tools/protocol_gen/protocol_gen.go
index b275618..cbf3e71 100644
--- a/tools/protocol_gen/protocol_gen.go
+++ b/tools/protocol_gen/protocol_gen.go
@@ -488,6 +488,10 @@ func (r *root) buildRootStruct(ty *cppStruct, def *definition) error {
 			return err
 		}
 		ty.base = ref.name
+		if ref.def.cppType != nil {
+			// The base structure must be emitted before this one.
+			ty.deps = append(ty.deps, ref.def.cppType)
+		}
 		if len(def.AllOf) > 2 {
 			return fmt.Errorf("Cannot handle allOf with more than 2 entries")
 		}
-- 
2.43.0


From 408d6bf8d6cfd958bf7bd4e7c2b726e8f6e30df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:51 +0000
Subject: [PATCH 41/41] fix: a file stream reported success when flushing what
 it wrote failed

---
 src/io.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 3203a2a..fd5c97b 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -141,8 +141,7 @@ class File : public dap::ReaderWriter {
       return false;
     }
     if (fwrite(buffer, 1, n, f) == n) {
-      fflush(f);
-      return true;
+      return fflush(f) == 0;
     }
     return false;
   }
-- 
2.43.0

