From 5534a395cc5dc81cb8bca8e2251cc0fec824aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:02 +0000
Subject: [PATCH 01/25] fix: end the receive loop when the reader reports end
 of stream

A Reader whose peer went away (socket EOF, end of a file or of stdin)
returns 0 from read() while isOpen() still says true. The receive thread
then spun for ever at full load and never called the onClose handler.
ContentReader now remembers that its reader has ended.
---
 src/content_stream.cpp | 5 ++++-
 src/content_stream.h   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index c5264aa..a297b40 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -32,12 +32,13 @@ ContentReader::ContentReader(
 ContentReader& ContentReader::operator=(ContentReader&& rhs) noexcept {
   buf = std::move(rhs.buf);
   reader = std::move(rhs.reader);
+  eof = rhs.eof;
   on_invalid_data = std::move(rhs.on_invalid_data);
   return *this;
 }
 
 bool ContentReader::isOpen() {
-  return reader ? reader->isOpen() : false;
+  return reader && !eof ? reader->isOpen() : false;
 }
 
 void ContentReader::close() {
@@ -150,6 +151,8 @@ bool ContentReader::buffer(size_t bytes) {
     auto numWant = std::min(sizeof(chunk), bytes);
     auto numGot = reader->read(chunk, numWant);
     if (numGot == 0) {
+      // Reader::read() only returns 0 once the stream has ended.
+      eof = true;
       return false;
     }
     for (size_t i = 0; i < numGot; i++) {
diff --git a/src/content_stream.h b/src/content_stream.h
index eee998e..5d7da9b 100644
--- a/src/content_stream.h
+++ b/src/content_stream.h
@@ -51,6 +51,7 @@ class ContentReader {
 
   std::shared_ptr<Reader> reader;
   std::deque<uint8_t> buf;
+  bool eof = false;  // true once the reader has returned no more data
   OnInvalidData on_invalid_data;
 };
 
-- 
2.43.0


From 9d6efc7f81b1019b4248ea1d30b00c338698956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:29 +0000
Subject: [PATCH 02/25] fix: RapidJSON deserializer: check types, keep NULs and
 64 bit integers

count() and deserialize(object*) were called on values of any JSON type,
where RapidJSON asserts: one mistyped field from the peer aborted the
process. Strings were cut at the first NUL, and integers that do not fit
in 32 bits were rejected when decoding into an any.
---
 src/rapid_json_serializer.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 178db99..416068f 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -70,11 +70,14 @@ bool RapidDeserializer::deserialize(dap::string* v) const {
   if (!json()->IsString()) {
     return false;
   }
-  *v = json()->GetString();
+  v->assign(json()->GetString(), json()->GetStringLength());
   return true;
 }
 
 bool RapidDeserializer::deserialize(dap::object* v) const {
+  if (!json()->IsObject()) {
+    return false;
+  }
   v->reserve(json()->MemberCount());
   for (auto el = json()->MemberBegin(); el != json()->MemberEnd(); el++) {
     dap::any el_val;
@@ -82,7 +85,8 @@ bool RapidDeserializer::deserialize(dap::object* v) const {
     if (!d.deserialize(&el_val)) {
       return false;
     }
-    (*v)[el->name.GetString()] = el_val;
+    (*v)[std::string(el->name.GetString(), el->name.GetStringLength())] =
+        el_val;
   }
   return true;
 }
@@ -92,10 +96,12 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
     *v = dap::boolean(json()->GetBool());
   } else if (json()->IsDouble()) {
     *v = dap::number(json()->GetDouble());
-  } else if (json()->IsInt()) {
-    *v = dap::integer(json()->GetInt());
+  } else if (json()->IsInt64()) {
+    *v = dap::integer(json()->GetInt64());
+  } else if (json()->IsUint64()) {
+    *v = dap::integer(static_cast<int64_t>(json()->GetUint64()));
   } else if (json()->IsString()) {
-    *v = dap::string(json()->GetString());
+    *v = dap::string(json()->GetString(), json()->GetStringLength());
   } else if (json()->IsNull()) {
     *v = null();
   } else if (json()->IsObject()) {
@@ -117,7 +123,7 @@ bool RapidDeserializer::deserialize(dap::any* v) const {
 }
 
 size_t RapidDeserializer::count() const {
-  return json()->Size();
+  return json()->IsArray() ? json()->Size() : 0;
 }
 
 bool RapidDeserializer::array(
-- 
2.43.0


From 32134c04a191a8edbde450f1440d6a3fc8715fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:29 +0000
Subject: [PATCH 03/25] fix: JsonCpp deserializer: do not abort on malformed
 JSON

A frame whose body is not valid JSON aborted the process. As with the
other JSON libraries, it now fails to deserialize and is reported through
the session's error handler.
---
 src/jsoncpp_json_serializer.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 954b0e5..907b9c0 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -17,7 +17,6 @@
 #include "null_json_serializer.h"
 
 #include <json/json.h>
-#include <cstdlib>
 #include <memory>
 
 namespace dap {
@@ -150,8 +149,8 @@ Json::Value JsonCppDeserializer::parse(const std::string& text) {
   std::string error;
   if (!jsonReader->parse(text.data(), text.data() + text.size(), &json,
                          &error)) {
-    // cppdap expects that the JSON layer does not throw exceptions.
-    std::abort();
+    // Malformed input is reported by the failing field() calls.
+    return Json::Value();
   }
   return json;
 }
-- 
2.43.0


From 7670b50b290b59068d46fcf891ea2bc4391ffa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:29 +0000
Subject: [PATCH 04/25] fix: nlohmann serializer: do not abort on strings that
 are not UTF-8

Sending a message with a string that is not valid UTF-8 (such as the raw
output of a debuggee) aborted the process.
---
 src/nlohmann_json_serializer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nlohmann_json_serializer.cpp b/src/nlohmann_json_serializer.cpp
index 7834230..202e750 100644
--- a/src/nlohmann_json_serializer.cpp
+++ b/src/nlohmann_json_serializer.cpp
@@ -157,7 +157,9 @@ NlohmannSerializer::~NlohmannSerializer() {
 }
 
 std::string NlohmannSerializer::dump() const {
-  return json->dump();
+  // Strings can hold arbitrary bytes. The default error handler would throw
+  // (and so abort, see above) if these are not valid UTF-8.
+  return json->dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
 }
 
 bool NlohmannSerializer::serialize(dap::boolean v) {
-- 
2.43.0


From d5a3c31a71b768e07d2da1c04b747913c3cb2aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:29 +0000
Subject: [PATCH 05/25] fix: guard the list of type infos with a mutex

Type infos are created lazily, on whichever thread first uses the type,
and were appended to the shared list without synchronisation.
---
 src/typeof.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/typeof.cpp b/src/typeof.cpp
index 055421c..3fb735b 100644
--- a/src/typeof.cpp
+++ b/src/typeof.cpp
@@ -16,6 +16,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <vector>
 
 namespace {
@@ -67,6 +68,7 @@ struct TypeInfos {
   dap::BasicTypeInfo<dap::object> object = {"object"};
   dap::BasicTypeInfo<dap::any> any = {"any"};
   NullTI null;
+  std::mutex typesMutex;
   std::vector<std::unique_ptr<dap::TypeInfo>> types;
 
  private:
@@ -130,7 +132,9 @@ const TypeInfo* TypeOf<null>::type() {
 }
 
 void TypeInfo::deleteOnExit(TypeInfo* ti) {
-  TypeInfos::get()->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
+  auto infos = TypeInfos::get();
+  std::unique_lock<std::mutex> lock(infos->typesMutex);
+  infos->types.emplace_back(std::unique_ptr<TypeInfo>(ti));
 }
 
 void initialize() {
-- 
2.43.0


From 46bb4cc5f377376c10b0975c36b75448819ffa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:29 +0000
Subject: [PATCH 06/25] fix: file streams: close waits for reads and writes in
 progress

File::close() called fclose() while another thread could be inside fgetc(),
fwrite() or fflush() on the same FILE, a use of the FILE after it was
released.  Also retry a read interrupted by a signal, which was taken for the
end of the stream, and report data that fflush() could not write.
---
 src/io.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index b4133e5..4b01916 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -14,6 +14,7 @@
 
 #include "dap/io.h"
 
+#include <errno.h>
 #include <atomic>
 #include <condition_variable>
 #include <cstdarg>
@@ -116,6 +117,9 @@ class File : public dap::ReaderWriter {
   void close() override {
     if (closable) {
       if (!closed.exchange(true)) {
+        // Wait for reads and writes in progress before releasing the file.
+        std::unique_lock<std::mutex> readLock(readMutex);
+        std::unique_lock<std::mutex> writeLock(writeMutex);
         fclose(f);
       }
     }
@@ -124,7 +128,15 @@ class File : public dap::ReaderWriter {
     std::unique_lock<std::mutex> lock(readMutex);
     auto out = reinterpret_cast<char*>(buffer);
     for (size_t i = 0; i < n; i++) {
+      if (closed) {
+        return i;
+      }
       int c = fgetc(f);
+      while (c == EOF && ferror(f) && errno == EINTR) {
+        // Interrupted by a signal. This is not the end of the file.
+        clearerr(f);
+        c = fgetc(f);
+      }
       if (c == EOF) {
         return i;
       }
@@ -134,11 +146,10 @@ class File : public dap::ReaderWriter {
   }
   bool write(const void* buffer, size_t n) override {
     std::unique_lock<std::mutex> lock(writeMutex);
-    if (fwrite(buffer, 1, n, f) == n) {
-      fflush(f);
-      return true;
+    if (closed) {
+      return false;
     }
-    return false;
+    return fwrite(buffer, 1, n, f) == n && fflush(f) == 0;
   }
 
  private:
-- 
2.43.0


From eb380f756c496a30d053d54048c249eb5996f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:52 +0000
Subject: [PATCH 07/25] fix: do not deadlock when a server socket cannot be
 bound

When bind() or listen() failed, the Socket constructor destroyed the shared
state from inside Shared::lock(). Its destructor calls close(), which waited
for the read lock held by the very same thread: starting a server on a port in
use hung forever.
---
 src/socket.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index e9402d3..6ded139 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -233,17 +233,16 @@ namespace dap {
 Socket::Socket(const char* address, const char* port)
     : shared(Shared::create(address, port)) {
   if (shared) {
+    bool listening = false;
     shared->lock([&](SOCKET socket, const addrinfo* info) {
-      if (bind(socket, info->ai_addr, (int)info->ai_addrlen) != 0) {
-        shared.reset();
-        return;
-      }
-
-      if (listen(socket, 0) != 0) {
-        shared.reset();
-        return;
-      }
+      listening =
+          bind(socket, info->ai_addr, (int)info->ai_addrlen) == 0 &&
+          listen(socket, 0) == 0;
     });
+    if (!listening) {
+      // Must not be released with the lock above held.
+      shared.reset();
+    }
   }
 }
 
-- 
2.43.0


From 4af11124962a31e8f5a98baf0644303ae65acdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:52 +0000
Subject: [PATCH 08/25] fix: do not take an interrupted recv() for the end of
 the connection

A signal delivered to the thread blocked in recv() made Socket read() return
0, which ended the session.
---
 src/socket.cpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 6ded139..de8db88 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -34,6 +34,7 @@ namespace {
 std::atomic<int> wsaInitCount = {0};
 }  // anonymous namespace
 #else
+#include <errno.h>
 #include <fcntl.h>
 #include <unistd.h>
 namespace {
@@ -74,6 +75,16 @@ bool setBlocking(SOCKET s, bool blocking) {
 #endif
 }
 
+// interrupted() returns true if the last socket call was interrupted by a
+// signal, and needs to be called again.
+bool interrupted() {
+#if defined(_WIN32)
+  return false;
+#else
+  return errno == EINTR;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -205,9 +216,14 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (s == InvalidSocket) {
       return 0;
     }
-    auto len =
-        recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
-    return (len < 0) ? 0 : len;
+    while (true) {
+      auto len =
+          recv(s, reinterpret_cast<char*>(buffer), static_cast<int>(bytes), 0);
+      if (len < 0 && interrupted()) {
+        continue;
+      }
+      return (len < 0) ? 0 : len;
+    }
   }
 
   bool write(const void* buffer, size_t bytes) {
-- 
2.43.0


From f029ec930e648917e0f603443656b10028d29edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:52 +0000
Subject: [PATCH 09/25] fix: send all of the data passed to a socket's write()

send() may transfer less than it was asked to, and be interrupted by a signal:
write() then reported success for a message of which the tail was never sent,
or failure on a healthy connection. Writing to a connection that the peer had
closed raised SIGPIPE, ending the process.
---
 src/socket.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index de8db88..3ef1c47 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -44,6 +44,15 @@ using SOCKET = int;
 
 namespace {
 constexpr SOCKET InvalidSocket = static_cast<SOCKET>(-1);
+
+#if defined(MSG_NOSIGNAL)
+// Report writes to a connection closed by the peer as errors. The default is
+// to raise SIGPIPE, which ends the process.
+constexpr int SendFlags = MSG_NOSIGNAL;
+#else
+constexpr int SendFlags = 0;
+#endif
+
 void init() {
 #if defined(_WIN32)
   if (wsaInitCount++ == 0) {
@@ -158,6 +167,10 @@ class dap::Socket::Shared : public dap::ReaderWriter {
       int l_linger; /* how many seconds to linger for */
     } linger = {false, 0};
     setsockopt(s, SOL_SOCKET, SO_LINGER, (char*)&linger, sizeof(linger));
+
+#if defined(SO_NOSIGPIPE)
+    setsockopt(s, SOL_SOCKET, SO_NOSIGPIPE, (char*)&enable, sizeof(enable));
+#endif  // defined(SO_NOSIGPIPE)
 #endif  // !defined(_WIN32)
 
     // Enable TCP_NODELAY.
@@ -234,8 +247,19 @@ class dap::Socket::Shared : public dap::ReaderWriter {
     if (bytes == 0) {
       return true;
     }
-    return ::send(s, reinterpret_cast<const char*>(buffer),
-                  static_cast<int>(bytes), 0) > 0;
+    auto data = reinterpret_cast<const char*>(buffer);
+    while (bytes > 0) {
+      auto sent = ::send(s, data, static_cast<int>(bytes), SendFlags);
+      if (sent < 0 && interrupted()) {
+        continue;
+      }
+      if (sent <= 0) {
+        return false;
+      }
+      data += sent;
+      bytes -= static_cast<size_t>(sent);
+    }
+    return true;
   }
 
  private:
-- 
2.43.0


From 176df72a270c725fbdec6b3da3c1eb722026bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:52 +0000
Subject: [PATCH 10/25] fix: release the descriptor of a failed socket

isOpen() dropped the descriptor of a socket with a pending error without
closing it.
---
 src/socket.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index 3ef1c47..6a1892c 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -188,8 +188,8 @@ class dap::Socket::Shared : public dap::ReaderWriter {
         return true;
       }
     }
-    WLock lock(mutex);
-    s = InvalidSocket;
+    // The connection has failed. Release the socket.
+    close();
     return false;
   }
 
-- 
2.43.0


From 65ffbe0ca3031374fe25497be5f9c927d020dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:52 +0000
Subject: [PATCH 11/25] fix: keep accepting after an interrupted or aborted
 accept()

A signal, or a client that gave up while its connection was still queued, ended
the accept loop of the server for good.
---
 src/socket.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/socket.cpp b/src/socket.cpp
index 6a1892c..df67c89 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -94,6 +94,16 @@ bool interrupted() {
 #endif
 }
 
+// acceptAgain() returns true if the last accept() failed for a reason that has
+// nothing to do with the listening socket.
+bool acceptAgain() {
+#if defined(_WIN32)
+  return WSAGetLastError() == WSAECONNRESET;
+#else
+  return errno == EINTR || errno == ECONNABORTED;
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -293,6 +303,9 @@ std::shared_ptr<ReaderWriter> Socket::accept() const {
       if (socket != InvalidSocket && !errored(socket)) {
         init();
         auto accepted = ::accept(socket, 0, 0);
+        while (accepted == InvalidSocket && acceptAgain()) {
+          accepted = ::accept(socket, 0, 0);
+        }
         if (accepted != InvalidSocket) {
           out = std::make_shared<Shared>(accepted);
           out->setOptions();
-- 
2.43.0


From 91a5f4b8430c12aad82d74507c32b29bfe9d1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:52 +0000
Subject: [PATCH 12/25] fix: connect() with a timeout

- A connect() that failed at once was waited for as if it were in progress, and
  could then be reported as connected, as its error had already been consumed.
- The timeout overflowed for values above 4294967 milliseconds.
- FD_SET() wrote out of bounds for descriptors above FD_SETSIZE.
- A signal made connect() give up early.
---
 src/socket.cpp | 70 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 12 deletions(-)

diff --git a/src/socket.cpp b/src/socket.cpp
index df67c89..c1a1ded 100644
--- a/src/socket.cpp
+++ b/src/socket.cpp
@@ -16,6 +16,10 @@
 
 #include "rwmutex.h"
 
+#include <algorithm>
+#include <chrono>
+#include <limits>
+
 #if defined(_WIN32)
 #include <winsock2.h>
 #include <ws2tcpip.h>
@@ -23,7 +27,7 @@
 #include <netdb.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
-#include <sys/select.h>
+#include <poll.h>
 #include <sys/socket.h>
 #include <unistd.h>
 #endif
@@ -104,6 +108,57 @@ bool acceptAgain() {
 #endif
 }
 
+// connectInProgress() returns true if the last connect() on a non-blocking
+// socket has not completed yet, rather than failed.
+bool connectInProgress() {
+#if defined(_WIN32)
+  return WSAGetLastError() == WSAEWOULDBLOCK;
+#else
+  return errno == EINPROGRESS;
+#endif
+}
+
+// waitWritable() waits until s becomes writable. Returns false if this did not
+// happen within timeoutMillis milliseconds.
+bool waitWritable(SOCKET s, uint32_t timeoutMillis) {
+#if defined(_WIN32)
+  fd_set fdset;
+  FD_ZERO(&fdset);
+  FD_SET(s, &fdset);
+
+  timeval tv;
+  tv.tv_sec = static_cast<long>(timeoutMillis / 1000);
+  tv.tv_usec = static_cast<long>(timeoutMillis % 1000) * 1000;
+  return select(0, nullptr, &fdset, nullptr, &tv) > 0;
+#else
+  using namespace std::chrono;
+  const auto end = steady_clock::now() + milliseconds(timeoutMillis);
+  while (true) {
+    // Round up, to not give up before the timeout.
+    const int64_t remaining =
+        (duration_cast<microseconds>(end - steady_clock::now()).count() + 999) /
+        1000;
+    pollfd fd = {};
+    fd.fd = s;
+    fd.events = POLLOUT;
+    const int res =
+        ::poll(&fd, 1,
+               static_cast<int>(std::max<int64_t>(
+                   0, std::min<int64_t>(remaining,
+                                        std::numeric_limits<int>::max()))));
+    if (res > 0) {
+      return true;
+    }
+    if (res < 0 && !interrupted()) {
+      return false;
+    }
+    if (steady_clock::now() >= end) {
+      return false;
+    }
+  }
+#endif
+}
+
 bool errored(SOCKET s) {
   if (s == InvalidSocket) {
     return true;
@@ -360,17 +415,8 @@ std::shared_ptr<ReaderWriter> Socket::connect(const char* address,
         out = shared;
       }
     } else {
-      const auto microseconds = timeoutMillis * 1000;
-
-      fd_set fdset;
-      FD_ZERO(&fdset);
-      FD_SET(socket, &fdset);
-
-      timeval tv;
-      tv.tv_sec = microseconds / 1000000;
-      tv.tv_usec = microseconds - static_cast<uint32_t>(tv.tv_sec * 1000000);
-      res = select(static_cast<int>(socket + 1), nullptr, &fdset, nullptr, &tv);
-      if (res > 0 && !errored(socket) && setBlocking(socket, true)) {
+      if (connectInProgress() && waitWritable(socket, timeoutMillis) &&
+          !errored(socket) && setBlocking(socket, true)) {
         out = shared;
       }
     }
-- 
2.43.0


From 6643fabf2831bd4426e5ffe2f68495060b74dac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:28 +0000
Subject: [PATCH 13/25] fix: do not cut off the error message of a response

The message went through the printf-style constructor of Error, which
formats into a fixed buffer and ends at the first NUL.
---
 src/session.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.cpp b/src/session.cpp
index ffc7775..a97d092 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -468,7 +468,7 @@ class Impl : public dap::Session {
         handlers.error("Failed to deserialize message");
         return;
       }
-      auto error = dap::Error("%s", message.c_str());
+      auto error = dap::Error(message);
       handler(nullptr, &error);
     }
   }
-- 
2.43.0


From 54f65c11771c9106b37d0904236fc702b342a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:37 +0000
Subject: [PATCH 14/25] fix: (de)serialize the fields a StackFrameFormat
 inherits

StackFrameFormat extends ValueFormat, whose 'hex' field was neither sent
nor received. Have the generator emit the _EXT form for such structures.
---
 src/protocol_types.cpp             | 19 ++++++++++---------
 tools/protocol_gen/protocol_gen.go | 13 +++++++++++--
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/protocol_types.cpp b/src/protocol_types.cpp
index 2ae9100..db899e9 100644
--- a/src/protocol_types.cpp
+++ b/src/protocol_types.cpp
@@ -289,15 +289,16 @@ DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrame,
                               DAP_FIELD(presentationHint, "presentationHint"),
                               DAP_FIELD(source, "source"));
 
-DAP_IMPLEMENT_STRUCT_TYPEINFO(StackFrameFormat,
-                              "",
-                              DAP_FIELD(includeAll, "includeAll"),
-                              DAP_FIELD(line, "line"),
-                              DAP_FIELD(module, "module"),
-                              DAP_FIELD(parameterNames, "parameterNames"),
-                              DAP_FIELD(parameterTypes, "parameterTypes"),
-                              DAP_FIELD(parameterValues, "parameterValues"),
-                              DAP_FIELD(parameters, "parameters"));
+DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(StackFrameFormat,
+                                  ValueFormat,
+                                  "",
+                                  DAP_FIELD(includeAll, "includeAll"),
+                                  DAP_FIELD(line, "line"),
+                                  DAP_FIELD(module, "module"),
+                                  DAP_FIELD(parameterNames, "parameterNames"),
+                                  DAP_FIELD(parameterTypes, "parameterTypes"),
+                                  DAP_FIELD(parameterValues, "parameterValues"),
+                                  DAP_FIELD(parameters, "parameters"));
 
 DAP_IMPLEMENT_STRUCT_TYPEINFO(StepInTarget,
                               "",
diff --git a/tools/protocol_gen/protocol_gen.go b/tools/protocol_gen/protocol_gen.go
index c5e112c..d6ecdea 100644
--- a/tools/protocol_gen/protocol_gen.go
+++ b/tools/protocol_gen/protocol_gen.go
@@ -297,8 +297,17 @@ func (s *cppStruct) WriteHeader(w io.Writer) {
 }
 func (s *cppStruct) WriteCPP(w io.Writer) {
 	// typeinfo
-	io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
-	io.WriteString(w, s.name)
+	switch s.base {
+	case "", "Request", "Response", "Event":
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO(")
+		io.WriteString(w, s.name)
+	default:
+		// The fields of the base structure are part of this one.
+		io.WriteString(w, "DAP_IMPLEMENT_STRUCT_TYPEINFO_EXT(")
+		io.WriteString(w, s.name)
+		io.WriteString(w, ",\n                    ")
+		io.WriteString(w, s.base)
+	}
 	io.WriteString(w, ",\n                    \"")
 	io.WriteString(w, s.protoname)
 	io.WriteString(w, "\"")
-- 
2.43.0


From 4f4cfb38f77184bc8664ccc6bcadf6096fbc9b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:58 +0000
Subject: [PATCH 15/25] fix: RapidJSON deserializer: parse numbers exactly, and
 the whole body

Numbers were read with up to 3 ULP of error, so a number did not survive
a round trip, and a body was only parsed up to its first NUL.
---
 src/rapid_json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 416068f..2095c87 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -24,7 +24,7 @@ namespace json {
 
 RapidDeserializer::RapidDeserializer(const std::string& str)
     : doc(new rapidjson::Document()) {
-  doc->Parse(str.c_str());
+  doc->Parse<rapidjson::kParseFullPrecisionFlag>(str.data(), str.size());
 }
 
 RapidDeserializer::RapidDeserializer(rapidjson::Value* json) : val(json) {}
-- 
2.43.0


From d7ed227f7f3075cb9638b9e7c049d8ecee9aca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:33 +0000
Subject: [PATCH 16/25] fix: report session errors one at a time, and once

Errors about a second registration and about unknown responses were
reported without holding errorMutex: a data race with onError(), and
with other reports. An unknown response was reported twice, and its
sequence number, a 64 bit integer, was printed with %d.
---
 src/session.cpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index a97d092..8bb61de 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -182,9 +182,10 @@ class Impl : public dap::Session {
           requestMap
               .emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Request handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Request handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
@@ -193,7 +194,6 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseMutex);
       auto responseIt = responseMap.find(seq);
       if (responseIt == responseMap.end()) {
-        errorfLocked("Unknown response with sequence %d", seq);
         return {};
       }
       auto out = std::move(responseIt->second);
@@ -207,9 +207,9 @@ class Impl : public dap::Session {
       std::unique_lock<std::mutex> lock(responseMutex);
       auto added =
           responseMap.emplace(seq, std::make_pair(typeinfo, handler)).second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Response handler for sequence %d already registered",
-                     seq);
+        error("Response handler for sequence %d already registered", seq);
       }
     }
 
@@ -226,9 +226,10 @@ class Impl : public dap::Session {
       auto added =
           eventMap.emplace(typeinfo->name(), std::make_pair(typeinfo, handler))
               .second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Event handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Event handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
@@ -243,20 +244,14 @@ class Impl : public dap::Session {
              const GenericResponseSentHandler& handler) {
       std::unique_lock<std::mutex> lock(responseSentMutex);
       auto added = responseSentMap.emplace(typeinfo, handler).second;
+      lock.unlock();
       if (!added) {
-        errorfLocked("Response sent handler for '%s' already registered",
-                     typeinfo->name().c_str());
+        error("Response sent handler for '%s' already registered",
+              typeinfo->name().c_str());
       }
     }
 
    private:
-    void errorfLocked(const char* format, ...) {
-      va_list vararg;
-      va_start(vararg, format);
-      errorLocked(format, vararg);
-      va_end(vararg);
-    }
-
     void errorLocked(const char* format, va_list args) {
       char buf[2048];
       vsnprintf(buf, sizeof(buf), format, args);
@@ -441,7 +436,8 @@ class Impl : public dap::Session {
     GenericResponseHandler handler;
     std::tie(typeinfo, handler) = handlers.response(requestSeq);
     if (!typeinfo) {
-      handlers.error("Unknown response with sequence %d", requestSeq);
+      handlers.error("Unknown response with sequence %lld",
+                     static_cast<long long>(requestSeq));
       return;
     }
 
-- 
2.43.0


From 1a6b31f369481557abc6e4d34ad56179ca5c373b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:10 +0000
Subject: [PATCH 17/25] fix: a failed request always gets an error

The future of a request never became ready if the response lacked the
'message', and held a success if the message was empty. A response
without 'success' was dropped, and with it the request it answers.
---
 src/session.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 8bb61de..a9514d9 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -432,6 +432,12 @@ class Impl : public dap::Session {
       return;
     }
 
+    dap::boolean success = false;
+    if (!d->field("success", &success)) {
+      handlers.error("Response missing int 'success' field");
+      return;
+    }
+
     const dap::TypeInfo* typeinfo;
     GenericResponseHandler handler;
     std::tie(typeinfo, handler) = handlers.response(requestSeq);
@@ -441,12 +447,6 @@ class Impl : public dap::Session {
       return;
     }
 
-    dap::boolean success = false;
-    if (!d->field("success", &success)) {
-      handlers.error("Response missing int 'success' field");
-      return;
-    }
-
     if (success) {
       auto data = std::unique_ptr<uint8_t[]>(new uint8_t[typeinfo->size()]);
       typeinfo->construct(data.get());
@@ -462,9 +462,9 @@ class Impl : public dap::Session {
       std::string message;
       if (!d->field("message", &message)) {
         handlers.error("Failed to deserialize message");
-        return;
       }
-      auto error = dap::Error(message);
+      // An empty message represents success.
+      auto error = dap::Error(message.empty() ? "Request failed" : message);
       handler(nullptr, &error);
     }
   }
-- 
2.43.0


From 3d471d0c684d9608e765e7bb1e0844883302dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:10 +0000
Subject: [PATCH 18/25] fix: accept requests without arguments and events
 without body

'arguments' and 'body' may be left out where none of their fields are
required, such as the 'terminated' event or the 'disconnect' request.
---
 src/session.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index a9514d9..73b29e9 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -19,6 +19,7 @@
 
 #include "chan.h"
 #include "json_serializer.h"
+#include "null_json_serializer.h"
 #include "socket.h"
 
 #include <stdarg.h>
@@ -33,6 +34,19 @@
 
 namespace {
 
+// deserialize() decodes the "arguments" of a request or the "body" of an event
+// from d. These are optional if the type has no required fields, so decode an
+// absent field like an empty object.
+bool deserialize(const dap::TypeInfo* typeinfo,
+                 dap::Deserializer* d,
+                 void* data) {
+  if (d == &dap::json::NullDeserializer::instance) {
+    dap::json::Deserializer empty("{}");
+    return typeinfo->deserialize(&empty, data);
+  }
+  return typeinfo->deserialize(d, data);
+}
+
 class Impl : public dap::Session {
  public:
   void setOnInvalidData(dap::OnInvalidData onInvalidData_) override {
@@ -331,7 +345,7 @@ class Impl : public dap::Session {
     typeinfo->construct(data);
 
     if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return typeinfo->deserialize(d, data);
+          return deserialize(typeinfo, d, data);
         })) {
       handlers.error("Failed to deserialize request");
       typeinfo->destruct(data);
@@ -405,7 +419,7 @@ class Impl : public dap::Session {
     // "body" is an optional field for some events, such as "Terminated Event".
     bool body_ok = true;
     d->field("body", [&](dap::Deserializer* d) {
-      if (!typeinfo->deserialize(d, data)) {
+      if (!deserialize(typeinfo, d, data)) {
         body_ok = false;
       }
       return true;
-- 
2.43.0


From 22c6f500ad944bd07bb4add1387921bf2fef38aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:25 +0000
Subject: [PATCH 19/25] fix: do not leak the data of messages that are not
 dispatched

The data of a request or event was released by running its payload. It
leaked if the payload was dropped, such as those in the inbox when a
session is destructed.
---
 src/session.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 73b29e9..921b96e 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -34,6 +34,17 @@
 
 namespace {
 
+// construct() returns a new, default-constructed value of the given type.
+std::shared_ptr<uint8_t> construct(const dap::TypeInfo* typeinfo) {
+  std::shared_ptr<uint8_t> data(new uint8_t[typeinfo->size()],
+                                [typeinfo](uint8_t* data) {
+                                  typeinfo->destruct(data);
+                                  delete[] data;
+                                });
+  typeinfo->construct(data.get());
+  return data;
+}
+
 // deserialize() decodes the "arguments" of a request or the "body" of an event
 // from d. These are optional if the type has no required fields, so decode an
 // absent field like an empty object.
@@ -341,21 +352,18 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = construct(typeinfo);
 
     if (!d->field("arguments", [&](dap::Deserializer* d) {
-          return deserialize(typeinfo, d, data);
+          return deserialize(typeinfo, d, data.get());
         })) {
       handlers.error("Failed to deserialize request");
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
     return [=] {
       handler(
-          data,
+          data.get(),
           [=](const dap::TypeInfo* typeinfo, const void* data) {
             // onSuccess
             dap::json::Serializer s;
@@ -392,8 +400,6 @@ class Impl : public dap::Session {
               handler(nullptr, &error);
             }
           });
-      typeinfo->destruct(data);
-      delete[] data;
     };
   }
 
@@ -413,13 +419,12 @@ class Impl : public dap::Session {
       return {};
     }
 
-    auto data = new uint8_t[typeinfo->size()];
-    typeinfo->construct(data);
+    auto data = construct(typeinfo);
 
     // "body" is an optional field for some events, such as "Terminated Event".
     bool body_ok = true;
     d->field("body", [&](dap::Deserializer* d) {
-      if (!deserialize(typeinfo, d, data)) {
+      if (!deserialize(typeinfo, d, data.get())) {
         body_ok = false;
       }
       return true;
@@ -427,15 +432,11 @@ class Impl : public dap::Session {
 
     if (!body_ok) {
       handlers.error("Failed to deserialize event '%s' body", event.c_str());
-      typeinfo->destruct(data);
-      delete[] data;
       return {};
     }
 
     return [=] {
-      handler(data);
-      typeinfo->destruct(data);
-      delete[] data;
+      handler(data.get());
     };
   }
 
-- 
2.43.0


From 0f57d3e8746d86630d2d4b80e0390867fefc7241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:25 +0000
Subject: [PATCH 20/25] fix: forget the response handler of a request that was
 not sent

The handler was kept for the life of the session. A response carrying
its sequence number would assign the future, already assigned with an
error, again.
---
 src/session.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/session.cpp b/src/session.cpp
index 921b96e..67efe8d 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -134,6 +134,10 @@ class Impl : public dap::Session {
 
     handlers.put(seq, responseTypeInfo, responseHandler);
 
+    // If the request cannot be sent, then there will be no response, unless the
+    // endpoint has answered it already.
+    auto answered = [&] { return !handlers.response(seq).first; };
+
     dap::json::Serializer s;
     if (!s.object([&](dap::FieldSerializer* fs) {
           return fs->field("seq", dap::integer(seq)) &&
@@ -143,9 +147,9 @@ class Impl : public dap::Session {
                    return requestTypeInfo->serialize(s, request);
                  });
         })) {
-      return false;
+      return answered();
     }
-    return send(s.dump());
+    return send(s.dump()) || answered();
   }
 
   bool send(const dap::TypeInfo* typeinfo, const void* event) override {
-- 
2.43.0


From 5b1f60fb720d9cf3eae84291602f6ea7210b126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:38 +0000
Subject: [PATCH 21/25] fix: keep the type information of structs until
 terminate()

It was destructed at the end of main(), even while the library was kept
initialized by initialize(): releasing an any that holds a struct in
global state aborted with a pure virtual call.
---
 include/dap/typeof.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dap/typeof.h b/include/dap/typeof.h
index 43c9289..54f30be 100644
--- a/include/dap/typeof.h
+++ b/include/dap/typeof.h
@@ -208,8 +208,8 @@ M member_type(M T::*);
             [&](FieldSerializer* fs) { return serializeFields(fs, obj); }); \
       }                                                                     \
     };                                                                      \
-    static TI typeinfo;                                                     \
-    return &typeinfo;                                                       \
+    static auto typeinfo = TypeInfo::create<TI>();                          \
+    return typeinfo;                                                        \
   }
 
 // DAP_STRUCT_TYPEINFO() is a helper for declaring and implementing a TypeOf<>
@@ -249,8 +249,8 @@ M member_type(M T::*);
         });                                                               \
       }                                                                   \
     };                                                                    \
-    static TI typeinfo;                                                   \
-    return &typeinfo;                                                     \
+    static auto typeinfo = TypeInfo::create<TI>();                        \
+    return typeinfo;                                                      \
   }
 
 // DAP_STRUCT_TYPEINFO_EXT() is a helper for declaring and implementing a
-- 
2.43.0


From 221f3490621e2a34770872c77ea0863a8f5257b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:52 +0000
Subject: [PATCH 22/25] fix: any: move the heap allocation with the value

Moving an any left the heap allocation with the source: it leaked, or was
released while the target still used it. A value held in the buffer of
the source was never destructed. Assigning an any to itself lost it.
---
 include/dap/any.h | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/dap/any.h b/include/dap/any.h
index b05f03d..fbd3678 100644
--- a/include/dap/any.h
+++ b/include/dap/any.h
@@ -92,15 +92,8 @@ any::any(const any& other) noexcept : type(other.type) {
   }
 }
 
-any::any(any&& other) noexcept : type(other.type) {
-  if (other.isInBuffer(other.value)) {
-    alloc(type->size(), type->alignment());
-    type->copyConstruct(value, other.value);
-  } else {
-    value = other.value;
-  }
-  other.value = nullptr;
-  other.type = nullptr;
+any::any(any&& other) noexcept {
+  *this = std::move(other);
 }
 
 void any::reset() {
@@ -113,6 +106,9 @@ void any::reset() {
 }
 
 any& any::operator=(const any& rhs) {
+  if (this == &rhs) {
+    return *this;
+  }
   reset();
   type = rhs.type;
   if (rhs.value != nullptr) {
@@ -123,16 +119,22 @@ any& any::operator=(const any& rhs) {
 }
 
 any& any::operator=(any&& rhs) noexcept {
+  if (this == &rhs) {
+    return *this;
+  }
   reset();
   type = rhs.type;
   if (rhs.isInBuffer(rhs.value)) {
     alloc(type->size(), type->alignment());
     type->copyConstruct(value, rhs.value);
+    rhs.reset();
   } else {
     value = rhs.value;
+    heap = rhs.heap;
+    rhs.value = nullptr;
+    rhs.type = nullptr;
+    rhs.heap = nullptr;
   }
-  rhs.value = nullptr;
-  rhs.type = nullptr;
   return *this;
 }
 
-- 
2.43.0


From 3724672c4d7cd58b9af2b5f1ea03cc675b1e0eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:11 +0000
Subject: [PATCH 23/25] fix: content reader: reject invalid lengths

A length was accepted with a NUL before or after its digits, and one
that exceeds size_t was wrapped around. A header without length was
skipped, instead of closing the reader with OnInvalidData kClose.
---
 src/content_stream.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/content_stream.cpp b/src/content_stream.cpp
index a297b40..e8162f3 100644
--- a/src/content_stream.cpp
+++ b/src/content_stream.cpp
@@ -16,6 +16,7 @@
 
 #include "dap/io.h"
 
+#include <stdint.h>   // SIZE_MAX
 #include <string.h>   // strlen
 #include <algorithm>  // std::min
 
@@ -68,11 +69,14 @@ std::string ContentReader::read() {
     if (c == 0) {
       break;
     }
+    if (len > (SIZE_MAX - 9) / 10) {
+      return badHeader();
+    }
     len *= 10;
     len += size_t(c) - size_t('0');
   }
   if (len == 0) {
-    return "";
+    return badHeader();
   }
 
   // Expect \r\n\r\n
@@ -134,6 +138,10 @@ char ContentReader::matchAny(const char* chars) {
     return false;
   }
   int c = buf.front();
+  // strchr() would find a NUL at the end of chars.
+  if (c == 0) {
+    return 0;
+  }
   if (auto p = strchr(chars, c)) {
     buf.pop_front();
     return *p;
-- 
2.43.0


From e7d0572c3612b861e1f4a281890260faf6e7b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:42 +0000
Subject: [PATCH 24/25] fix: RapidJSON serializer: keep NULs in the names of
 object members

---
 src/rapid_json_serializer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/rapid_json_serializer.cpp b/src/rapid_json_serializer.cpp
index 2095c87..cb7fa84 100644
--- a/src/rapid_json_serializer.cpp
+++ b/src/rapid_json_serializer.cpp
@@ -198,12 +198,16 @@ bool RapidSerializer::serialize(const dap::object& v) {
     json()->SetObject();
   }
   for (auto& it : v) {
-    if (!json()->HasMember(it.first.c_str())) {
-      rapidjson::Value name_value{it.first.c_str(), allocator};
+    // The name can hold NULs.
+    rapidjson::Value name_value{it.first.data(),
+                                static_cast<uint32_t>(it.first.length()),
+                                allocator};
+    auto member = json()->FindMember(name_value);
+    if (member == json()->MemberEnd()) {
       json()->AddMember(name_value, rapidjson::Value(), allocator);
+      member = json()->MemberEnd() - 1;
     }
-    rapidjson::Value& member = (*json())[it.first.c_str()];
-    RapidSerializer s(&member, allocator);
+    RapidSerializer s(&member->value, allocator);
     if (!s.serialize(it.second)) {
       return false;
     }
-- 
2.43.0


From f651159a9c93076dece7b8d3dc20adb570cc1a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:02 +0000
Subject: [PATCH 25/25] fix: reject messages that are nested too deeply

JSON that nests arrays or objects a thousand levels deep aborted the
process (JsonCpp), or exhausted the stack of the receiving thread
(RapidJSON). Comments are not JSON, and could hide the nesting.
---
 src/jsoncpp_json_serializer.cpp |  1 +
 src/session.cpp                 | 34 +++++++++++++++++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/src/jsoncpp_json_serializer.cpp b/src/jsoncpp_json_serializer.cpp
index 907b9c0..4ba2011 100644
--- a/src/jsoncpp_json_serializer.cpp
+++ b/src/jsoncpp_json_serializer.cpp
@@ -144,6 +144,7 @@ bool JsonCppDeserializer::field(
 
 Json::Value JsonCppDeserializer::parse(const std::string& text) {
   Json::CharReaderBuilder builder;
+  builder["allowComments"] = false;
   auto jsonReader = std::unique_ptr<Json::CharReader>(builder.newCharReader());
   Json::Value json;
   std::string error;
diff --git a/src/session.cpp b/src/session.cpp
index 67efe8d..f3912f1 100644
--- a/src/session.cpp
+++ b/src/session.cpp
@@ -58,6 +58,35 @@ bool deserialize(const dap::TypeInfo* typeinfo,
   return typeinfo->deserialize(d, data);
 }
 
+// tooDeep() returns true if the JSON text nests arrays and objects deeper than
+// can be expected to be parsed without exhausting the stack.
+bool tooDeep(const std::string& json) {
+  constexpr int maxDepth = 500;
+  int depth = 0;
+  bool inString = false;
+  for (size_t i = 0; i < json.size(); i++) {
+    switch (json[i]) {
+      case '"':
+        inString = !inString;
+        break;
+      case '\\':
+        i += inString ? 1 : 0;  // Skip the escaped character.
+        break;
+      case '[':
+      case '{':
+        if (!inString && ++depth > maxDepth) {
+          return true;
+        }
+        break;
+      case ']':
+      case '}':
+        depth -= inString ? 0 : 1;
+        break;
+    }
+  }
+  return false;
+}
+
 class Impl : public dap::Session {
  public:
   void setOnInvalidData(dap::OnInvalidData onInvalidData_) override {
@@ -313,6 +342,11 @@ class Impl : public dap::Session {
   };  // EventHandlers
 
   Payload processMessage(const std::string& str) {
+    if (tooDeep(str)) {
+      handlers.error("Message is nested too deeply");
+      return {};
+    }
+
     auto d = dap::json::Deserializer(str);
     dap::string type;
     if (!d.field("type", &type)) {
-- 
2.43.0

