From 9f67a068983399e242bc2b90ccc13890aabc1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 1/7] fix: do not strip a lone quote from a group item

---
 src/DefaultLexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index e8efbaf..eb656c8 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -111,7 +111,7 @@ coil::Vector<coil::StringView> coil::DefaultLexer::splitGroup(StringView str) co
         }
 
         size_t stringEnd = i;
-        if (isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
+        if (stringEnd - stringBegin >= 2 && isQuote(str[stringBegin]) && isQuote(str[stringEnd - 1]))
         {
             stringBegin++;
             stringEnd--;
-- 
2.43.0


From 6b9026e174edd17acc5ba6004b8caf3241bab3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 2/7] fix: match lexer delimiters outside of the ASCII range

---
 src/DefaultLexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DefaultLexer.cpp b/src/DefaultLexer.cpp
index eb656c8..a7faa44 100644
--- a/src/DefaultLexer.cpp
+++ b/src/DefaultLexer.cpp
@@ -53,12 +53,12 @@ coil::Expected<coil::ExecutionInput, coil::String> coil::DefaultLexer::parse(Str
 
 bool coil::DefaultLexer::isGroupChar(unsigned char c) const
 {
-    return coil::find(m_groupParentheses.begin(), m_groupParentheses.end(), c) != m_groupParentheses.end();
+    return coil::find(m_groupParentheses.begin(), m_groupParentheses.end(), static_cast<char>(c)) != m_groupParentheses.end();
 }
 
 bool coil::DefaultLexer::isQuote(unsigned char c) const
 {
-    return coil::find(m_quotes.begin(), m_quotes.end(), c) != m_quotes.end();
+    return coil::find(m_quotes.begin(), m_quotes.end(), static_cast<char>(c)) != m_quotes.end();
 }
 
 bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
@@ -66,12 +66,12 @@ bool coil::DefaultLexer::isGroupSeparator(unsigned char c) const
     if (isSpace(c))
         return true;
 
-    return coil::find(m_groupSeparators.begin(), m_groupSeparators.end(), c) != m_groupSeparators.end();
+    return coil::find(m_groupSeparators.begin(), m_groupSeparators.end(), static_cast<char>(c)) != m_groupSeparators.end();
 }
 
 bool coil::DefaultLexer::isSpace(unsigned char c) const
 {
-    return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), c) != m_spaceCharacters.end();
+    return coil::find(m_spaceCharacters.begin(), m_spaceCharacters.end(), static_cast<char>(c)) != m_spaceCharacters.end();
 }
 
 coil::DefaultLexer::CharType coil::DefaultLexer::getCharType(unsigned char c) const
-- 
2.43.0


From d4e541281c930a18d553d3f5a0c29af3de6b22a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 3/7] fix: reject negative numbers with leading whitespace for
 unsigned types

---
 src/StringConv.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StringConv.cpp b/src/StringConv.cpp
index 6a0e214..9cb341d 100644
--- a/src/StringConv.cpp
+++ b/src/StringConv.cpp
@@ -1,5 +1,6 @@
 #include "coil/detail/StringConv.h"
 
+#include "coil/detail/Algorithm.h"
 #include "coil/detail/String.h"
 #include "coil/detail/StringView.h"
 #include "coil/detail/Utils.h"
@@ -49,7 +50,7 @@ namespace
         if (str.empty())
             return false;
 
-        if (str[0] == '-')
+        if (coil::find(str.begin(), str.end(), '-') != str.end())
             return false;
 
         coil::String strCopy = coil::String{str}; // make a C-string to avoid reimplementing strtoX functions
-- 
2.43.0


From e0892305ca3e3f0e0620ab8e4919df44ea4e500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 4/7] fix: allow appending a part of the string to itself

---
 src/String.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index b6da60a..df5c8fe 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -101,7 +101,19 @@ void coil::String::append(char const* str, size_t length)
     validateIsNullTerminated();
 
     size_t oldSize = this->length();
-    resize(oldSize + length);
+    size_t newSize = oldSize + length;
+
+    Buffer oldBuffer; // keeps the old storage alive, because 'str' can point to it
+    if (newSize + 1 > m_buffer.capacity())
+    {
+        Buffer buffer{newSize + 1, sizeof(char)};
+        buffer.copy(m_buffer.data(), m_buffer.size());
+        buffer.resize(m_buffer.size());
+        oldBuffer = coil::move(m_buffer);
+        m_buffer = coil::move(buffer);
+    }
+
+    resize(newSize);
     memcpy(m_buffer.data() + oldSize, str, length);
 
     validateIsNullTerminated();
-- 
2.43.0


From 35197081dbed5c63352f1809ea13357df34321e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:55 +0000
Subject: [PATCH 5/7] fix: never leave the hash map without buckets

---
 include/coil/detail/UnorderedMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index fa8a9c5..0df6fba 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -298,7 +298,7 @@ namespace coil
 
         void rehash(size_t buckets)
         {
-            m_buckets.resize(buckets);
+            m_buckets.resize(buckets > 0 ? buckets : 1);
             resetBuckets();
 
             for (size_t nodeIndex = 0; nodeIndex < m_nodes.size(); nodeIndex++)
-- 
2.43.0


From fd3e7f6eca6a5cb2def1c83b2a0734d6fb5546ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 6/7] fix: update the next node when erasing moves the last
 node of the map

---
 include/coil/detail/UnorderedMap.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/coil/detail/UnorderedMap.h b/include/coil/detail/UnorderedMap.h
index 0df6fba..7283b76 100644
--- a/include/coil/detail/UnorderedMap.h
+++ b/include/coil/detail/UnorderedMap.h
@@ -208,6 +208,12 @@ namespace coil
                     m_buckets[lastNode.bucket] = nodeIndex;
                 }
 
+                if (lastNode.next != invalidIndex)
+                {
+                    COIL_ASSERT(lastNode.next < m_nodes.size());
+                    m_nodes[lastNode.next].prev = nodeIndex;
+                }
+
                 coil::exchange(erasedNode, lastNode);
             }
 
-- 
2.43.0


From 6e1f421820af8b1d223306aed4f84862652b1c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:22 +0000
Subject: [PATCH 7/7] fix: allow copying a moved-from string

---
 include/coil/detail/Buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coil/detail/Buffer.h b/include/coil/detail/Buffer.h
index 83408bd..d4d6f95 100644
--- a/include/coil/detail/Buffer.h
+++ b/include/coil/detail/Buffer.h
@@ -82,7 +82,7 @@ namespace coil
     private:
         char* m_ptr = nullptr;
         size_t m_capacity = 0;
-        size_t m_chunkSize = 0;
+        size_t m_chunkSize = 1;
 
         size_t m_size = 0;
 
-- 
2.43.0

