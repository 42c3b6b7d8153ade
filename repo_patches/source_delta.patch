From 66704bfc864791822dcf3878646e03012d259e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 01/32] fix: do not share the auxiliary value buffer between
 threads

TracePoint::read kept the value being read in a function-static variable,
so traces ingested concurrently could swap auxiliary values.
---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index f0365d4..d8e7f7d 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -291,7 +291,7 @@ private:
 
             case AUXILIARY:
                 {
-                    static uint64_t value;
+                    uint64_t value = 0;
                     BINARY_READ(is, &value, sizeof(value));
                     aux.push_back(value);
                     break;
-- 
2.43.0


From ce236709279274c7145d5a4a8892c58852de2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 02/32] fix: compare the data of both points in
 TracePoint::operator==

m_data was compared with itself, so points differing only in variables,
buffer sizes or auxiliary values compared equal.
---
 cffi-interface/trace-db/TracePoint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index d8e7f7d..75f92e3 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -428,7 +428,7 @@ public:
     inline bool operator==(const TracePoint & other) const {
         return m_counter == other.m_counter &&
                m_statement == other.m_statement &&
-               m_data == m_data;
+               m_data == other.m_data;
     }
 
     friend std::size_t hash_value(const TracePoint & tracePoint) {
-- 
2.43.0


From 607475faac0b2b5cb42ad1f53317f980825c0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 03/32] fix: check the descriptor returned by open() before
 select()

A failed open() (or a descriptor which does not fit an fd_set) was passed
to FD_SET, corrupting the stack or waiting forever for a missing file.
---
 cffi-interface/trace-db/Utils.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 4bdc924..77718de 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -54,6 +54,13 @@ inline boost::iostreams::stream_buffer
     int fd = open(filename, O_RDONLY | O_NONBLOCK);
     int result;
 
+    if (fd < 0 || fd >= FD_SETSIZE) {
+        if (fd >= 0) {
+            close(fd);
+        }
+        throw TraceError(std::string(filename) + " could not be opened.");
+    }
+
     /* Now use select() to wait until there is data to read. For a regular
        file, this should return immediately. For a FIFO, it will block until
        some data is written. */
-- 
2.43.0


From 40530ed02e8081b847e8b34c0e896495d91fc1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 04/32] fix: do not read past the dictionary of names

A short or unterminated dictionary was scanned past the end of its buffer,
which also leaked when an exception was thrown.
---
 cffi-interface/trace-db/Trace.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 0337124..6d96dbe 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -13,6 +13,7 @@
 #include <iterator>
 #include <ostream>
 #include <map>
+#include <memory>
 #include <random>
 #include <string>
 #include <utility>
@@ -53,23 +54,27 @@ private:
         uint64_t n_chars = 0;
         uint32_t n_types = 0;
         uint64_t i = 0;
-        char *buf = NULL;
 
         /* Read dictionary of names */
         BINARY_READ(is, &n_chars, sizeof(n_chars));
         if (n_chars > 0) {
-            buf = new char[n_chars];
-            BINARY_READ(is, buf, n_chars);
+            std::unique_ptr<char[]> buf(new char[n_chars]);
+            BINARY_READ(is, buf.get(), n_chars);
+
+            if (!is.good()) {
+                throw TraceEOFError();
+            }
+            if (buf[n_chars - 1] != 0) {
+                throw TraceError("Unterminated dictionary of names.");
+            }
 
             do {
-                m_names.push_back(std::string(buf + i));
+                m_names.push_back(std::string(buf.get() + i));
                 while (buf[i] != 0) {
                     i++;
                 }
                 i++;
             } while (i < n_chars);
-
-            delete[] buf;
         }
 
         /* Read dictionary of types */
-- 
2.43.0


From a2b077c3ef3c20f5589f3d7c2cf619303e34ec49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 05/32] fix: reject scalar types larger than a trace value

The size comes from the trace; larger values overflowed m_value.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 959f5c6..57b46cf 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -149,11 +149,17 @@ private:
         case UNSIGNED:
         case FLOAT:
             {
+                if (m_size > sizeof(m_value)) {
+                    throw TraceError("Invalid size for scalar value.");
+                }
                 BINARY_READ(is, &m_value.u, m_size);
             }
             break;
         case POINTER:
             {
+                if (m_size > sizeof(m_value)) {
+                    throw TraceError("Invalid size for scalar value.");
+                }
                 BINARY_READ(is, &m_value.u, m_size);
                 m_buffer_size = map.computeBufferSize(m_value.u);
                 if (m_buffer_size != UINT64_MAX) {
-- 
2.43.0


From d17773086ef7e0d77415b06bb57e32021602a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 06/32] fix: validate the name index of types read from a trace

get_types() indexes the names with it.
---
 cffi-interface/trace-db/Trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 6d96dbe..1cbd3dd 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -82,7 +82,7 @@ private:
         m_types.reserve(n_types);
 
         for (i = 0; i < n_types; i++) {
-            TypeDescription type(is);
+            TypeDescription type(is, m_names);
             m_types.push_back(type);
         }
 
-- 
2.43.0


From 07209c880e16534a582679dd6ea72d52bd56c4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 07/32] fix: report failure to allocate a blob

The data was read through a null pointer.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 57b46cf..128e4a2 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -9,6 +9,7 @@
 #define __TRACE_VAR_INFO_HPP
 
 #include <istream>
+#include <new>
 #include <ostream>
 #include <string>
 #include <vector>
@@ -179,6 +180,9 @@ private:
                 }
 
                 m_value.ptr = malloc(m_size);
+                if (m_value.ptr == NULL && m_size > 0) {
+                    throw std::bad_alloc();
+                }
                 BINARY_READ(is, m_value.ptr, m_size);
                 break;
             }
-- 
2.43.0


From 23beed78e20080befaf80c9bc199e5f70f21c806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 08/32] fix: do not use the sentinel key of the memory map for
 an allocation

A buffer at address UINT64_MAX removed (deleted) the list head or was
inserted behind it.
---
 cffi-interface/trace-db/MemoryMap.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index e4a688a..d92a6c6 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -36,6 +36,10 @@ private:
     }
 
     void skipListRemove(uint64_t key) {
+        // This value is used as a sentinel and can't be used as a key
+        if (key == UINT64_MAX)
+            return;
+
         snode *update[SKIP_LIST_MAX_HEIGHT + 1];
         snode *current = &m_head;
 
@@ -62,6 +66,10 @@ private:
     }
 
     void skipListUpdate(uint64_t key, uint64_t value) {
+        // This value is used as a sentinel and can't be used as a key
+        if (key == UINT64_MAX)
+            return;
+
         snode *existing = skipListFind(key);
         if (existing && existing->key == key) {
             existing->value = value;
-- 
2.43.0


From 5d53b7d5622cf2ead1366531d6c8d00901776099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 09/32] fix: keep copies in the predicate cache

The keys of the cache in cachedSatisfiesPredicate held references to the
predicate and bindings of the query which created them, and were compared
after these had gone.
---
 cffi-interface/trace-db/QueryObjects.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index ef621e6..5ae721b 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -505,8 +505,8 @@ public:
 class EvaluatePredicate
 {
 private:
-    const Predicate & m_predicate;
-    const FlyweightTraceVarInfos & m_variables;
+    const Predicate m_predicate;
+    const FlyweightTraceVarInfos m_variables;
     std::size_t m_hash;
 
     std::size_t computeHash() const {
-- 
2.43.0


From 84f7c31a1a3c386f52572cb6e2b9a1203ddafd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 10/32] fix: protect the query caches with mutexes

Concurrent queries modified the predicate cache (shared by all databases)
and the point cache of a trace without synchronisation.
---
 cffi-interface/trace-db/Trace.hpp      | 3 +++
 cffi-interface/trace-db/TracePoint.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 1cbd3dd..119dd5b 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -14,6 +14,7 @@
 #include <ostream>
 #include <map>
 #include <memory>
+#include <mutex>
 #include <random>
 #include <string>
 #include <utility>
@@ -44,6 +45,7 @@ private:
 
     mutable MemoryMap m_memory_map;
     mutable std::map<MaskKey, TracePoints> m_getpoints_cache;
+    mutable std::mutex m_mutex;
 
     std::istream & read(std::istream & is) {
         return read(is, 0);
@@ -290,6 +292,7 @@ public:
         // is equal to STATEMENT.
         const std::pair<uint64_t, uint64_t> key =
             std::make_pair(mask, statement);
+        std::lock_guard<std::mutex> lock(m_mutex);
 
         if (m_getpoints_cache.find(key) == m_getpoints_cache.end()) {
             m_getpoints_cache[key] = TracePoints();
diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 75f92e3..529b97c 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -14,6 +14,7 @@
 #include <cstdint>
 #include <functional>
 #include <istream>
+#include <mutex>
 #include <ostream>
 #include <vector>
 #include <unordered_map>
@@ -70,7 +71,9 @@ private:
     cachedSatisfiesPredicate(const Predicate & predicate,
                              const FlyweightTraceVarInfos & variables) const {
         static std::unordered_map<EvaluatePredicate, bool> m_cache;
+        static std::mutex m_mutex;
         EvaluatePredicate functor(predicate, variables);
+        std::lock_guard<std::mutex> lock(m_mutex);
 
         if (m_cache.find(functor) == m_cache.end()) {
             m_cache[functor] = functor();
-- 
2.43.0


From 98936e600b8e8a119fd41e884f5aac3a568c14c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 11/32] fix: evaluate double variables as doubles

The low half of the value was interpreted as a float.
---
 cffi-interface/trace-db/QueryObjects.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cffi-interface/trace-db/QueryObjects.hpp b/cffi-interface/trace-db/QueryObjects.hpp
index 5ae721b..b5f66d4 100644
--- a/cffi-interface/trace-db/QueryObjects.hpp
+++ b/cffi-interface/trace-db/QueryObjects.hpp
@@ -564,6 +564,8 @@ private:
                     return PredicateValue(var.getValue().s);
                 else if (f == POINTER)
                     return PredicateValue(var.getValue().u);
+                else if (f == FLOAT && var.getSize() == sizeof(double))
+                    return PredicateValue(var.getValue().d);
                 else if (f == FLOAT)
                     return PredicateValue(var.getValue().f);
                 else
-- 
2.43.0


From 9e20c3a999713a4252ad4725891ba8409b9457e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 12/32] fix: return one result per point for queries without
 variables

The empty product of bindings added a second one.
---
 cffi-interface/trace-db/Trace.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 119dd5b..29c02ef 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -183,6 +183,7 @@ private:
                              FlyweightTraceVarInfos(),
                              std::vector<uint64_t>());
             hard_query_results.push_back(point);
+            return hard_query_results;
         }
 
         // Find possible bindings for each free variable
-- 
2.43.0


From 6f41589c06fb3ef0ac950c8ff49aa2ee6f8dff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 13/32] fix: initialise the statement of points without a
 statement entry

---
 cffi-interface/trace-db/TracePoint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 529b97c..0138ea8 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -262,6 +262,7 @@ private:
         Aux aux;
 
         m_counter = counter;
+        m_statement = 0;
 
         while (1) {
             char c = (char) INVALID_TAG;
-- 
2.43.0


From c88852f3b85525e4c03e7f0cd0d2bbda48a3829f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 14/32] fix: report read errors between trace entries

An error while reading a tag was taken for the end of the trace.
---
 cffi-interface/trace-db/TracePoint.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 0138ea8..4b1cc5e 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -269,7 +269,9 @@ private:
             BINARY_READ(is, &c, sizeof(c));
             enum trace_entry_tag tag = (trace_entry_tag) c;
 
-            if (!is.good() || tag == END_ENTRY) {
+            if (is.bad()) {
+                throw TraceError("Trace stream in bad state.");
+            } else if (!is.good() || tag == END_ENTRY) {
                 break;
             } else if (c >= INVALID_TAG) {
                 throw TraceError("Invalid trace point tag.");
-- 
2.43.0


From f8df4f382090ebb5db1113d0dea2e32a5aa12d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 15/32] fix: do not accept a trace which ends inside its header

An end of file in the last field of the dictionary of types went unnoticed.
---
 cffi-interface/trace-db/Trace.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 29c02ef..5bf548e 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -88,6 +88,10 @@ private:
             m_types.push_back(type);
         }
 
+        if (!is.good()) {
+            throw TraceEOFError();
+        }
+
         /* Read points */
         for (i = 0; is.good() && (i < max_points || max_points == 0); i++) {
             TracePoint point(is, i, m_names, m_types, m_memory_map);
-- 
2.43.0


From 66acf268ce3ebf308a5cdbff86af79d593e9f758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 16/32] fix: do not write past the end of aux in
 add_trace_points

---
 cffi-interface/trace-db.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index b34b717..e732068 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -97,7 +97,7 @@ int add_trace_points(void /* TraceDB */ *db_ptr,
         Aux aux;
 
         for (uint32_t j = 0; j < c_points[i].n_aux; j++) {
-            aux[j] = c_points[i].aux[j];
+            aux.push_back(c_points[i].aux[j]);
         }
 
         for (uint32_t j = 0; j < c_points[i].n_vars; j++) {
-- 
2.43.0


From ded12b30d9394314727ecd95215b0ccdc9b68083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 17/32] fix: write scalar values with the size of their type

Pointers and floats of other sizes than 8 were written with 8 bytes and
unsigned values of odd sizes with none, although they are read with the
size of the type.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 128e4a2..9bfd699 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -225,6 +225,9 @@ private:
                     BINARY_WRITE(os, &val, sizeof(val));
                     break;
                 }
+            default:
+                BINARY_WRITE(os, &m_value.u, m_size);
+                break;
             }
             break;
         case SIGNED:
@@ -263,14 +266,14 @@ private:
             }
             else {
                 double val = m_value.d;
-                BINARY_WRITE(os, &val, sizeof(val));
+                BINARY_WRITE(os, &val, m_size);
                 break;
             }
             break;
         case POINTER:
             {
                 void *val = m_value.ptr;
-                BINARY_WRITE(os, &val, sizeof(val));
+                BINARY_WRITE(os, &val, m_size);
             }
             break;
         case BLOB:
-- 
2.43.0


From 8a026ad4ec2ceda39a31e0234980aab05f75c13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 18/32] fix: do not write a size for blobs of fixed-size types

The reader only expects one if the type has no size, so traces with such
blobs could not be read back.
---
 cffi-interface/trace-db/Trace.hpp        |  2 +-
 cffi-interface/trace-db/TracePoint.hpp   | 17 ++++++++++++++---
 cffi-interface/trace-db/TraceVarInfo.hpp | 16 ++++++++++++++--
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 5bf548e..4103704 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -127,7 +127,7 @@ private:
         }
 
         for (auto & point : m_points) {
-            os << point;
+            point.write(os, m_types);
         }
 
         return os;
diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 4b1cc5e..573dab8 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -316,7 +316,8 @@ private:
         return is;
     }
 
-    std::ostream & write(std::ostream & os) const {
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions *types) const {
         os.put(STATEMENT_ID);
         BINARY_WRITE(os, &m_statement, sizeof(m_statement));
 
@@ -327,7 +328,11 @@ private:
 
         for (auto & var : getVars()) {
             os.put(VARIABLE);
-            os << var;
+            if (types) {
+                var.get().write(os, *types);
+            } else {
+                os << var;
+            }
         }
 
         for (auto & aux : getAux()) {
@@ -393,6 +398,12 @@ public:
 
     TracePoint& operator=(const TracePoint & other) = delete;
 
+    // Write the point as part of a trace with the given types
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types) const {
+        return write(os, &types);
+    }
+
     inline uint64_t getCounter() const {
         return m_counter;
     }
@@ -449,7 +460,7 @@ public:
 
     friend std::ostream & operator<<(std::ostream & os,
                                      const TracePoint & tracePoint) {
-        return tracePoint.write(os);
+        return tracePoint.write(os, NULL);
     }
 
     template<typename Archive>
diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 9bfd699..1efaa6f 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -194,7 +194,8 @@ private:
         return is;
     }
 
-    std::ostream & write(std::ostream & os) const {
+    std::ostream & write(std::ostream & os,
+                         bool write_blob_size = true) const {
         BINARY_WRITE(os, &m_name_index, sizeof(m_name_index));
         BINARY_WRITE(os, &m_type_index, sizeof(m_type_index));
 
@@ -279,7 +280,9 @@ private:
         case BLOB:
             {
                 void *val = m_value.ptr;
-                BINARY_WRITE(os, &m_size, sizeof(m_size));
+                if (write_blob_size) {
+                    BINARY_WRITE(os, &m_size, sizeof(m_size));
+                }
                 BINARY_WRITE(os, val, m_size);
             }
             break;
@@ -343,6 +346,15 @@ public:
 
     TraceVarInfo& operator=(const TraceVarInfo & other) = delete;
 
+    // Write the variable as part of a trace with the given types;
+    // blobs only have a size of their own if their type has none
+    std::ostream & write(std::ostream & os,
+                         const TypeDescriptions & types) const {
+        return write(os,
+                     m_type_index >= types.size() ||
+                     types[m_type_index].getSize() == 0);
+    }
+
     inline VarValue getValue() const {
         return m_value;
     }
-- 
2.43.0


From da618af809f96292a0b3008484480c634d5e2ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:38 +0000
Subject: [PATCH 19/32] fix: notice a handshake line written after its file was
 first read

The end-of-file indicator of a stream is sticky (glibc >= 2.28), so the
program waited forever when it read the file before the line was written.
---
 instrumentation/c-cpp.lisp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 1f29837..5e99f94 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -318,7 +318,7 @@ void __attribute__((constructor(101))) __bi_setup() {
   if (handshake_file_path) {
     while (access(handshake_file_path, 0) != 0) { sleep(1); }
     handshake_file = fopen(handshake_file_path, \"r\");
-    do { sleep(1); } while (fgets(buffer, 1024, handshake_file) == NULL);
+    do { sleep(1); clearerr(handshake_file); } while (fgets(buffer, 1024, handshake_file) == NULL);
     buffer[strcspn(buffer, \"\\n\")] = 0;
     fclose(handshake_file);
     unlink(handshake_file_path);
-- 
2.43.0


From c513b09a3450005d6b46634a56d009fb3246af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:07 +0000
Subject: [PATCH 20/32] fix: do not leak the descriptor when out of memory in
 openWithTimeout

---
 cffi-interface/trace-db/Utils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/Utils.hpp b/cffi-interface/trace-db/Utils.hpp
index 77718de..13faf65 100644
--- a/cffi-interface/trace-db/Utils.hpp
+++ b/cffi-interface/trace-db/Utils.hpp
@@ -49,6 +49,10 @@ inline boost::iostreams::stream_buffer
                        uint64_t timeout_seconds) {
     namespace ios = boost::iostreams;
 
+    /* Allocated before the file is opened, so that a failure does not leak
+       the descriptor. */
+    ios::file_descriptor_source fds;
+
     /* Open in non-blocking mode. Returns immediately even if file is a FIFO
        with no writer yet. */
     int fd = open(filename, O_RDONLY | O_NONBLOCK);
@@ -84,7 +88,7 @@ inline boost::iostreams::stream_buffer
         int flags = fcntl(fd, F_GETFL, 0);
         fcntl(fd, F_SETFL, flags & ~O_NONBLOCK);
 
-        ios::file_descriptor_source fds(fd, ios::close_handle);
+        fds.open(fd, ios::close_handle);
         return new ios::stream_buffer<ios::file_descriptor_source>(fds);
     }
     else {
-- 
2.43.0


From 89811fef0d4cebf0957e85e2db0373bc0276a615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 21/32] fix: do not leak a memory map node when out of memory

---
 cffi-interface/trace-db/MemoryMap.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/MemoryMap.hpp b/cffi-interface/trace-db/MemoryMap.hpp
index d92a6c6..dcb66d9 100644
--- a/cffi-interface/trace-db/MemoryMap.hpp
+++ b/cffi-interface/trace-db/MemoryMap.hpp
@@ -10,6 +10,7 @@
 
 #include <cstdlib>
 #include <cstdint>
+#include <memory>
 
 #include "TraceBufferSize.hpp"
 
@@ -81,10 +82,11 @@ private:
                 level = m_height;
             }
 
+            std::unique_ptr<snode*[]> next(new snode*[level + 1]);
             snode *new_node = new snode;
             new_node->key = key;
             new_node->value = value;
-            new_node->next = new snode*[level + 1];
+            new_node->next = next.release();
 
             snode *current = &m_head;
             for (unsigned int i = m_height; i >= 1; i--) {
-- 
2.43.0


From 0649f10884ea57b0ae621c8d93c8ab37254e5a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:13 +0000
Subject: [PATCH 22/32] fix: do not truncate long trace names in the handshake

---
 instrumentation/c-cpp.lisp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instrumentation/c-cpp.lisp b/instrumentation/c-cpp.lisp
index 5e99f94..327fba6 100644
--- a/instrumentation/c-cpp.lisp
+++ b/instrumentation/c-cpp.lisp
@@ -313,12 +313,12 @@ void __attribute__((constructor(101))) __bi_setup() {
   static pthread_mutex_t __static_lock;
   FILE *handshake_file = NULL;
   const char *handshake_file_path = getenv(\"~a\");
-  char buffer[1024] = \"/dev/null\";
+  char buffer[4096] = \"/dev/null\";
 
   if (handshake_file_path) {
     while (access(handshake_file_path, 0) != 0) { sleep(1); }
     handshake_file = fopen(handshake_file_path, \"r\");
-    do { sleep(1); clearerr(handshake_file); } while (fgets(buffer, 1024, handshake_file) == NULL);
+    do { sleep(1); clearerr(handshake_file); } while (fgets(buffer, sizeof(buffer), handshake_file) == NULL);
     buffer[strcspn(buffer, \"\\n\")] = 0;
     fclose(handshake_file);
     unlink(handshake_file_path);
-- 
2.43.0


From dc4ddb2b464fa7d97b505cdff66028d63fa3e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:57 +0000
Subject: [PATCH 23/32] fix: do not leave a half-filled point cache when memory
 runs out

getPoints() inserted the cache entry first and filled it afterwards.  When
an allocation failed while filling, the incomplete entry stayed behind and
later queries with the same mask silently missed points.
---
 cffi-interface/trace-db/Trace.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/Trace.hpp b/cffi-interface/trace-db/Trace.hpp
index 4103704..9bbd2ef 100644
--- a/cffi-interface/trace-db/Trace.hpp
+++ b/cffi-interface/trace-db/Trace.hpp
@@ -300,12 +300,13 @@ public:
         std::lock_guard<std::mutex> lock(m_mutex);
 
         if (m_getpoints_cache.find(key) == m_getpoints_cache.end()) {
-            m_getpoints_cache[key] = TracePoints();
+            TracePoints points;
             for (auto & point : m_points) {
                 if ((point.getStatement() & mask) == statement) {
-                    m_getpoints_cache[key].push_back(point);
+                    points.push_back(point);
                 }
             }
+            m_getpoints_cache[key].swap(points);
         }
 
         return m_getpoints_cache[key];
-- 
2.43.0


From 143178325f85e7879cf44af065dab39575b6c6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:57 +0000
Subject: [PATCH 24/32] fix: check allocations when converting points to C
 structures

points_to_array() wrote through the null pointers malloc and calloc return
when memory runs out, crashing get_points() and query_trace().  Report it as
std::bad_alloc instead, giving back what was allocated so far.
---
 cffi-interface/trace.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace.cpp b/cffi-interface/trace.cpp
index 9547b81..6fbcfe8 100644
--- a/cffi-interface/trace.cpp
+++ b/cffi-interface/trace.cpp
@@ -1,5 +1,6 @@
 #include <iostream>
 #include <exception>
+#include <new>
 
 #include "Utils.hpp"
 #include "trace.h"
@@ -103,11 +104,14 @@ c_trace_point_struct* points_to_array(const Trace & trace,
 
     if (results_size > 0) {
         results = (c_trace_point_struct*) malloc(results_size);
+        if (results == NULL) {
+            throw std::bad_alloc();
+        }
 
         size_t i = 0;
         for (auto & tracePoint : points) {
-            FlyweightTraceVarInfos vars(tracePoint.getVars());
-            std::vector<uint64_t> aux(tracePoint.getAux());
+            const FlyweightTraceVarInfos & vars = tracePoint.getVars();
+            const std::vector<uint64_t> & aux = tracePoint.getAux();
             size_t n_vars = vars.size();
             size_t n_aux = aux.size();
             c_trace_var_info_struct *c_vars = (c_trace_var_info_struct*)
@@ -115,6 +119,14 @@ c_trace_point_struct* points_to_array(const Trace & trace,
             uint64_t *c_aux = (uint64_t*)
                 calloc(n_aux, sizeof(uint64_t));
 
+            if ((c_vars == NULL && n_vars > 0) ||
+                (c_aux == NULL && n_aux > 0)) {
+                free(c_vars);
+                free(c_aux);
+                free_trace_points(results, i);
+                throw std::bad_alloc();
+            }
+
             results[i].statement = tracePoint.getStatement();
             results[i].n_aux     = n_aux;
             results[i].n_vars    = n_vars;
-- 
2.43.0


From 1cd6d5ec91205458c8dd68ada42bd372fccb51d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:57 +0000
Subject: [PATCH 25/32] fix: return NULL when get_types, get_names or
 serialize_trace_db run out of memory

They wrote through the null pointer instead.
---
 cffi-interface/trace-db.cpp | 3 +++
 cffi-interface/trace.cpp    | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index e732068..59920fc 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -166,6 +166,9 @@ char* serialize_trace_db(const void /* TraceDB */ *db_ptr)
     std::string t = ss.str();
     char * ret = NULL;
     ret = (char*) malloc(t.length() + 1);
+    if (ret == NULL) {
+        return NULL;
+    }
     memcpy(ret, t.c_str(), t.length() + 1);
     return ret;
 }
diff --git a/cffi-interface/trace.cpp b/cffi-interface/trace.cpp
index 6fbcfe8..3daebd4 100644
--- a/cffi-interface/trace.cpp
+++ b/cffi-interface/trace.cpp
@@ -52,6 +52,10 @@ const char** get_types(const void /* Trace */ *trace_ptr)
     const TypeDescriptions & types = trace->getTypes();
     const char **ret = (const char**) calloc(types.size(), sizeof(char*));
 
+    if (ret == NULL) {
+        return NULL;
+    }
+
     for (uint32_t i = 0; i < types.size(); i++) {
         ret[i] = trace->getNames()[types[i].getNameIndex()].c_str();
     }
@@ -71,6 +75,10 @@ const char** get_names(const void /* Trace */ *trace_ptr)
     const Names & names = trace->getNames();
     const char **ret = (const char**) calloc(names.size(), sizeof(char*));
 
+    if (ret == NULL) {
+        return NULL;
+    }
+
     for (uint32_t i = 0; i < names.size(); i++) {
         ret[i] = trace->getNames()[i].c_str();
     }
-- 
2.43.0


From 3efa2c3d2eefe68df67ed9532a33a3a8dd098961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:44 +0000
Subject: [PATCH 26/32] fix: check the allocation of a blob when restoring a
 snapshot

Restoring wrote the contents through a null pointer when memory ran out.
---
 cffi-interface/trace-db/TraceVarInfo.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 1efaa6f..4cc60e8 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -527,6 +527,9 @@ public:
 
         if (m_format == BLOB) {
             m_value.ptr = malloc(m_size);
+            if (m_value.ptr == NULL && m_size > 0) {
+                throw std::bad_alloc();
+            }
             for (uint32_t i = 0; i < m_size; i++)
                 ar & ((char*) m_value.ptr)[i];
         }
-- 
2.43.0


From 1bd9172a4e5a9d393efcca3be06781dae1998aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:27 +0000
Subject: [PATCH 27/32] fix: do not cache an answer when evaluating a predicate
 fails

The entry could be inserted (as false) before the predicate was evaluated.
When evaluation ran out of memory, the entry stayed behind and the predicate
was considered unsatisfied from then on.
---
 cffi-interface/trace-db/TracePoint.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TracePoint.hpp b/cffi-interface/trace-db/TracePoint.hpp
index 573dab8..b094cbd 100644
--- a/cffi-interface/trace-db/TracePoint.hpp
+++ b/cffi-interface/trace-db/TracePoint.hpp
@@ -76,7 +76,8 @@ private:
         std::lock_guard<std::mutex> lock(m_mutex);
 
         if (m_cache.find(functor) == m_cache.end()) {
-            m_cache[functor] = functor();
+            const bool result = functor();
+            m_cache[functor] = result;
         }
 
         return m_cache[functor];
-- 
2.43.0


From ea7bb575aae9e61b46936a1561432385922fac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:33 +0000
Subject: [PATCH 28/32] fix: do not return a truncated snapshot when memory
 runs out

A failed write to the string stream is only noticed by the next one; when
the last write failed, serialize_trace_db returned incomplete text.
---
 cffi-interface/trace-db.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index 59920fc..ed9c07d 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -162,6 +162,9 @@ char* serialize_trace_db(const void /* TraceDB */ *db_ptr)
     boost::archive::text_oarchive oa(ss);
     const TraceDB *db = (const TraceDB*) db_ptr;
     oa << *db;
+    if (!ss.good()) {
+        return NULL;
+    }
 
     std::string t = ss.str();
     char * ret = NULL;
-- 
2.43.0


From 73d818c6a218e49318181fc17f0e21528fb95d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:24 +0000
Subject: [PATCH 29/32] fix: do not leak the database when restoring a snapshot
 fails

---
 cffi-interface/trace-db.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index ed9c07d..2ed8a21 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -2,6 +2,7 @@
 #include <cassert>
 #include <cstring>
 #include <functional>
+#include <memory>
 #include <vector>
 #include <unordered_set>
 #include <sstream>
@@ -178,14 +179,14 @@ char* serialize_trace_db(const void /* TraceDB */ *db_ptr)
 
 void /* TraceDB */ * deserialize_trace_db(const char* text)
 {
-    TraceDB * db = (TraceDB*) create_db();
+    std::unique_ptr<TraceDB> db((TraceDB*) create_db());
 
     std::stringstream ss;
     ss << std::string(text);
     boost::archive::text_iarchive ia(ss);
     ia >> *db;
 
-    return db;
+    return db.release();
 }
 
 void free_db(void /* TraceDB */ *db_ptr)
-- 
2.43.0


From ae4bf4d316b76963ef2883177362c4567ca13fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:07 +0000
Subject: [PATCH 30/32] fix: order blobs by their contents and do not read past
 shorter ones

---
 cffi-interface/trace-db/TraceVarInfo.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cffi-interface/trace-db/TraceVarInfo.hpp b/cffi-interface/trace-db/TraceVarInfo.hpp
index 4cc60e8..d11b5bf 100644
--- a/cffi-interface/trace-db/TraceVarInfo.hpp
+++ b/cffi-interface/trace-db/TraceVarInfo.hpp
@@ -384,11 +384,16 @@ public:
     }
 
     inline bool operator<(const TraceVarInfo & other) const {
-        if (m_format == BLOB and other.m_format == BLOB) {
+        if ((m_format == BLOB) != (other.m_format == BLOB)) {
+            // The value of a blob is an address, which is not comparable
+            return m_format < other.m_format;
+        }
+        else if (m_format == BLOB and other.m_format == BLOB) {
             std::vector<char> data({(char*) m_value.ptr,
                                     (char*) m_value.ptr + m_size});
             std::vector<char> otherData({(char*) other.m_value.ptr,
-                                         (char*) other.m_value.ptr + m_size});
+                                         (char*) other.m_value.ptr +
+                                         other.m_size});
             return std::tie(data,
                             m_name_index,
                             m_type_index,
-- 
2.43.0


From aafdc26633b971d62a6e5932490411f8ba296d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:07 +0000
Subject: [PATCH 31/32] fix: do not restore a snapshot which is cut short
 inside a name

---
 cffi-interface/trace-db.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cffi-interface/trace-db.cpp b/cffi-interface/trace-db.cpp
index 2ed8a21..fba0e24 100644
--- a/cffi-interface/trace-db.cpp
+++ b/cffi-interface/trace-db.cpp
@@ -185,6 +185,9 @@ void /* TraceDB */ * deserialize_trace_db(const char* text)
     ss << std::string(text);
     boost::archive::text_iarchive ia(ss);
     ia >> *db;
+    if (ss.fail()) {
+        throw TraceError("Truncated trace database.");
+    }
 
     return db.release();
 }
-- 
2.43.0


From 8cf3b16c7caf5b6157409775214b3547f3b43861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:08 +0000
Subject: [PATCH 32/32] fix: reject type formats which are negative as an int

The format of a type description is compared as an int, so that a trace
naming a format of 0x80000000 or more was accepted and kept as an invalid
enumerator.
---
 cffi-interface/trace-db/TypeDescription.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cffi-interface/trace-db/TypeDescription.hpp b/cffi-interface/trace-db/TypeDescription.hpp
index c08b52b..16de8e3 100644
--- a/cffi-interface/trace-db/TypeDescription.hpp
+++ b/cffi-interface/trace-db/TypeDescription.hpp
@@ -55,7 +55,7 @@ private:
         BINARY_READ(is, &m_format, sizeof(m_format));
         BINARY_READ(is, &m_size, sizeof(m_size));
 
-        if (m_format >= INVALID_FORMAT) {
+        if ((uint32_t) m_format >= INVALID_FORMAT) {
             throw TraceError("Invalid type format.");
         }
 
-- 
2.43.0

