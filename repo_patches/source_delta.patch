From d531c0809b20f949908745d34692ab9359f52b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:21 +0000
Subject: [PATCH 01/57] fix: deque contents and iteration across storage block
 boundaries

---
 include/cest/deque.hpp | 47 ++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 23edbae..3b8eb9a 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -61,7 +61,7 @@ public:
     constexpr iter&     operator--()                noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -81,7 +81,7 @@ public:
     constexpr operator-(const iter& __x, const iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
@@ -122,7 +122,7 @@ public:
     constexpr const_iter& operator--()              noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -142,7 +142,7 @@ public:
     constexpr operator-(const const_iter& __x, const const_iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
@@ -260,13 +260,16 @@ public:
     return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
   }
   constexpr iterator          end()       noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    const size_type chunk = end_chunk();
+    return {&m_chunks[chunk][end_offset()], &m_chunks[chunk]};
   }
   constexpr const_iterator    end() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    const size_type chunk = end_chunk();
+    return {&m_chunks[chunk][end_offset()], &m_chunks[chunk]};
   }
   constexpr const_iterator   cend() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    const size_type chunk = end_chunk();
+    return {&m_chunks[chunk][end_offset()], &m_chunks[chunk]};
   }
   constexpr reference       front() {
     return m_chunks[m_front_chunk][m_front];
@@ -298,6 +301,14 @@ public:
 
 private:
 
+  // The slot one past the last element; it is always in an allocated chunk.
+  constexpr size_type end_chunk()  const noexcept {
+    return m_back == CHUNK_SIZE - 1 ? m_back_chunk + 1 : m_back_chunk;
+  }
+  constexpr size_type end_offset() const noexcept {
+    return m_back == CHUNK_SIZE - 1 ? 0 : m_back + 1;
+  }
+
   constexpr void push_front_helper()
   {
     if (m_front == 0)
@@ -325,22 +336,18 @@ private:
 
   constexpr void push_back_helper()
   {
-    if (m_back == CHUNK_SIZE - 1)
-    {
-      if (m_back_chunk == m_chunks.size() - 1)
-      {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
-        ++m_back_chunk;
-      }
-      
-      m_back = 0;
-    }
-    else
+    const size_type chunk  = end_chunk();
+    const size_type offset = end_offset();
+
+    // keep the slot after the new element in an allocated chunk too
+    if (offset == CHUNK_SIZE - 1 && chunk == m_chunks.size() - 1)
     {
-      ++m_back;
+      value_type *p = m_alloc.allocate(CHUNK_SIZE);
+      m_chunks.push_back(p);
     }
 
+    m_back_chunk = chunk;
+    m_back       = offset;
     m_size++;
   }
 
-- 
2.43.0


From fe041b2e13359b4a82862bd7fe17f2b038e655c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:21 +0000
Subject: [PATCH 02/57] fix: self-assignment of deque, list, set and map lost
 the contents

---
 include/cest/deque.hpp | 2 ++
 include/cest/list.hpp  | 2 ++
 include/cest/map.hpp   | 2 ++
 include/cest/set.hpp   | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 3b8eb9a..b63ab4b 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -181,6 +181,8 @@ public:
 
   constexpr deque& operator=(const deque& other)
   {
+    if (this == &other) return *this;
+
     clear();
     for (size_type i = 0; i < other.size(); ++i)
       push_back(other[i]);
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 260725b..2ad3180 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -147,6 +147,8 @@ struct list {
 
   constexpr list& operator=(const list& other)
   {
+    if (this == &other) return *this;
+
     clear();
     for (auto it = other.cbegin(); it != other.cend(); ++it)
       push_back(*it);
diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index c31b0fd..d1e201e 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -168,6 +168,8 @@ public:
 
   constexpr map& operator=(const map& other)
   {
+    if (this == &other) return *this;
+
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index f1a86f2..1177838 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -109,6 +109,8 @@ public:
 
   constexpr set& operator=(const set& other)
   {
+    if (this == &other) return *this;
+
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
-- 
2.43.0


From ac06a30e64b4f61e5988c63e041e47da5425a4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 03/57] fix: list and forward_list post-increment and
 post-decrement return an iterator

---
 include/cest/forward_list.hpp | 4 ++--
 include/cest/list.hpp         | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index e4a1948..3c5ec8a 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -52,7 +52,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -86,7 +86,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 2ad3180..cd83316 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -76,7 +76,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                noexcept {
@@ -84,7 +84,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)             noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -118,7 +118,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                      noexcept {
@@ -126,7 +126,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)                   noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
-- 
2.43.0


From d99c58bee42a2a3bae85418c5f4674d00b99f8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:53 +0000
Subject: [PATCH 04/57] fix: map iteration compares node identity, not keys

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index d1e201e..c1b74db 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -62,7 +62,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node == pn->r)
         {
           curr_node = pn;
           pn = pn->p;
@@ -117,7 +117,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node == pn->r)
         {
           curr_node = pn;
           pn = pn->p;
-- 
2.43.0


From 45141382ffb204d19333bf9aa00388fb1c505175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:08 +0000
Subject: [PATCH 05/57] fix: map heterogeneous find did not compile

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index c1b74db..b477c32 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -247,7 +247,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return iterator(n);
   }
 
   template <class K>
@@ -261,7 +261,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return const_iterator(n);
   }
 
   constexpr void rotate_left(node *&n) {
-- 
2.43.0


From f9fc82e9bba60065e9e73922fc8fb029bc6992c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:45 +0000
Subject: [PATCH 06/57] fix: string copies, assignments and searches lost text
 after a null character or from their own buffer

---
 include/cest/string.hpp | 42 ++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 121a071..39216ed 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -62,7 +62,8 @@ public:
   constexpr basic_string(const CharT* s, const Allocator &alloc = Allocator())
   : basic_string(s, traits_type::length(s), alloc) {}
 
-  constexpr basic_string(const basic_string& str) : basic_string(str.c_str()) {}
+  constexpr basic_string(const basic_string& str)
+  : basic_string(str.data(), str.size()) {}
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
@@ -136,7 +137,7 @@ public:
 
   constexpr
   size_type find(const basic_string &str, size_type pos = 0) const noexcept {
-    return this->find(str.data(), pos);
+    return this->find(str.data(), pos, str.size());
   }
 
   constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
@@ -218,24 +219,11 @@ public:
 
   constexpr basic_string& operator=(const CharT* s)
   {
-    //const CharT* s  = str.c_str();
-    size_type count = traits_type::length(s);
-
-    if (m_capacity < count+1) {
-      m_alloc.deallocate(m_p, m_capacity+1);
-      m_capacity = count+1;                    // ensure m_capacity is not 0
-      m_p = m_alloc.allocate(m_capacity+1);    // +1 for the null terminator
-      for (size_type i = 0; i < m_capacity+1; i++)
-        std::construct_at(&m_p[i]);
-    }
-    
-    traits_type::copy(m_p, s, count+1);
-    m_size = count;
-    return *this;
+    return this->assign_helper(s, traits_type::length(s));
   }
 
   constexpr basic_string& operator=(const basic_string& str) {
-    return this->operator=(str.c_str());
+    return this->assign_helper(str.data(), str.size());
   }
 
   constexpr void reserve(size_type new_cap)
@@ -278,6 +266,26 @@ public:
 
 private:
 
+  // s may point into this string; and may contain null characters
+  constexpr basic_string& assign_helper(const CharT* s, size_type count)
+  {
+    if (m_capacity < count+1) {
+      const size_type cap = count+1;           // ensure m_capacity is not 0
+      value_type *p = m_alloc.allocate(cap+1); // +1 for the null terminator
+      for (size_type i = 0; i < cap+1; i++)
+        std::construct_at(&p[i]);
+      traits_type::copy(p, s, count);
+      m_alloc.deallocate(m_p, m_capacity+1);
+      m_p = p;
+      m_capacity = cap;
+    } else {
+      traits_type::move(m_p, s, count);
+    }
+
+    traits_type::assign(this->data()[m_size = count], CharT());
+    return *this;
+  }
+
   static constexpr int _S_compare(size_type n1, size_type n2) noexcept
   {
     const difference_type d = difference_type(n1 - n2);
-- 
2.43.0


From d88b046394b06647db9de72756e20493d518f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:59 +0000
Subject: [PATCH 07/57] fix: string find of a character ignored the start
 position

---
 include/cest/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 39216ed..483d48c 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -140,8 +140,10 @@ public:
     return this->find(str.data(), pos, str.size());
   }
 
-  constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-    auto *p = traits_type::find(this->data(), this->size(), ch);
+  constexpr size_type find(CharT ch, size_type pos = 0) const noexcept {
+    if (pos >= this->size())
+      return npos;
+    auto *p = traits_type::find(this->data() + pos, this->size() - pos, ch);
     return p ? (p-this->data()) : npos;
   }
 
-- 
2.43.0


From a4a5cd1377075199cca0e5d5bd1d0650b85713ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:14 +0000
Subject: [PATCH 08/57] fix: string push_back of its own character, and
 construction from an empty input range

---
 include/cest/string.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 483d48c..9c54049 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -67,7 +67,8 @@ public:
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
-                         const Allocator& alloc = Allocator()) : m_alloc(alloc)
+                         const Allocator& alloc = Allocator())
+  : basic_string(alloc)
   {
     static_assert(std::is_same_v<
       std::input_iterator_tag,
@@ -180,7 +181,8 @@ public:
      return this->find(s, pos, traits_type::length(s));
   }
 
-  constexpr void push_back(const value_type &value) {
+  constexpr void push_back(const value_type &ch) {
+    const value_type value = ch; // ch may be an element of this string
     if (m_size + 1 > m_capacity)
       reserve(m_capacity * 2);
     traits_type::assign(this->data()[  m_size], value);
-- 
2.43.0


From 8674359f4aab6a0188332d2b1f4d3845ca73d7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:43 +0000
Subject: [PATCH 09/57] fix: string constructors that allocate must not be
 noexcept

---
 include/cest/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 9c54049..d1b1b2f 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -34,11 +34,11 @@ public:
 
   static const size_type npos = static_cast<size_type>(-1);
 
-  constexpr basic_string() noexcept(noexcept( Allocator() )) :
+  constexpr basic_string() : // not noexcept: an empty string allocates
     basic_string( Allocator() ) {}
 
   explicit constexpr
-  basic_string(const Allocator& alloc) noexcept : m_alloc(alloc)
+  basic_string(const Allocator& alloc) : m_alloc(alloc)
   {
     m_capacity = 1;                                // Unlike 0, a scalable value
     m_p = m_alloc.allocate(m_capacity+1);          // +1 for the null terminator
-- 
2.43.0


From ea74205ec15cc2f849ab0a1ec4f0a2c793dc030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:58 +0000
Subject: [PATCH 10/57] fix: equality of strings other than char was not
 constexpr

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index d1b1b2f..44992ce 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -309,7 +309,7 @@ private:
 };
 
 template<typename _CharT, typename _Traits, typename _Alloc>
-  inline bool
+  inline constexpr bool
   operator==(const basic_string<_CharT, _Traits, _Alloc>& __lhs,
              const basic_string<_CharT, _Traits, _Alloc>& __rhs)
   noexcept
-- 
2.43.0


From f83286677566a97b7aa68da05967bdf18364f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:13 +0000
Subject: [PATCH 11/57] fix: inserting a string into an ostream stopped at a
 null character

---
 include/cest/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 44992ce..ff345ce 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -4,6 +4,7 @@
 #include "ostream.hpp"
 #include "runtime_ostream.hpp"
 #include <string>      // std::char_traits
+#include <string_view> // std::basic_string_view
 #include <memory>      // std::allocator
 #include <iterator>    // std::reverse_iterator
 #include <limits>      // std::numeric_limits
@@ -379,7 +380,8 @@ operator<<(
   basic_ostream<CharT, Traits>& os,
   const basic_string<CharT, Traits, Allocator>& str)
 {
-  impl::runtime_ostream(os, str.c_str());
+  impl::runtime_ostream(
+    os, std::basic_string_view<CharT,Traits>(str.data(), str.size()));
   return os;
 }
 
-- 
2.43.0


From cb281f3dae79a078bbd41af4c3674df1eb85cde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:19 +0000
Subject: [PATCH 12/57] fix: vector push_back of one of its own elements read
 freed storage

---
 include/cest/vector.hpp | 56 ++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index ffea2bb..3c7e235 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -110,14 +110,7 @@ public:
     if (new_cap > m_capacity)
     {
       value_type *p = m_alloc.allocate(new_cap);
-      for (size_type i = 0; i < m_size; i++)
-        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
-      if (0 != m_capacity) {
-        std::destroy_n(m_p,m_size);
-        m_alloc.deallocate(m_p,m_capacity);
-      }
-      m_p = p;
-      m_capacity = new_cap;
+      relocate(p, new_cap);
     }
   }
 
@@ -186,22 +179,22 @@ public:
 
   constexpr void push_back(const value_type &value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      grow_and_push_back(value);
+    } else {
+      std::construct_at(&m_p[m_size],value);
+      m_size++;
     }
-    std::construct_at(&m_p[m_size++],value);
   }
 
   constexpr void push_back(value_type &&value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      grow_and_push_back(std::forward<T>(value));
+    } else {
+      std::construct_at(&m_p[m_size],std::forward<T>(value));
+      m_size++;
     }
-    std::construct_at(&m_p[m_size++],std::forward<T>(value));
   }
 
   constexpr iterator erase(iterator first, iterator last)
@@ -216,6 +209,33 @@ public:
     return first;
   }
 
+private:
+
+  constexpr void relocate(value_type *p, size_type new_cap)
+  {
+    for (size_type i = 0; i < m_size; i++)
+      std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+    if (0 != m_capacity) {
+      std::destroy_n(m_p,m_size);
+      m_alloc.deallocate(m_p,m_capacity);
+    }
+    m_p = p;
+    m_capacity = new_cap;
+  }
+
+  // value may refer to an element: it is used before the elements are moved
+  template <class U>
+  constexpr void grow_and_push_back(U &&value)
+  {
+    const size_type new_cap = 0 == m_capacity ? 1 : m_capacity * 2;
+    value_type *p = m_alloc.allocate(new_cap);
+    std::construct_at(&p[m_size],std::forward<U>(value));
+    relocate(p, new_cap);
+    m_size++;
+  }
+
+public:
+
   size_type       m_size;
   size_type       m_capacity;
   value_type     *m_p;
-- 
2.43.0


From 3dbb3bac34cb806b931058f2c73618c6982a0bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:32 +0000
Subject: [PATCH 13/57] fix: vector leaked or destroyed unbuilt elements when
 an element's constructor threw

---
 include/cest/vector.hpp | 55 +++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index 3c7e235..fa58d6e 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -42,9 +42,8 @@ public:
   constexpr vector(const vector& other) : vector()
   {
     reserve(other.capacity());
-    m_size = other.size();
-    for (size_type i = 0; i < m_size; i++)
-      std::construct_at(&m_p[i], other.m_p[i]);
+    for (; m_size < other.size(); m_size++)
+      std::construct_at(&m_p[m_size], other.m_p[m_size]);
   }
 
   constexpr vector(vector&& other) : vector()
@@ -54,18 +53,17 @@ public:
 
   constexpr vector(size_type count,
                    const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+    : vector()
   {
-    reserve(count);
-    m_size = count;
-    for (size_type i = 0; i < m_size; i++)
-      std::construct_at(&m_p[i]);
+    m_alloc = alloc;
+    resize(count);
   }
 
   constexpr vector(std::initializer_list<T> init,
                    const Allocator& alloc = Allocator())
-    : m_size{}, m_capacity{}, m_p{}, m_alloc(alloc)
+    : vector()
   {
+    m_alloc = alloc;
     for (const auto &x : init) { push_back(x); }
   }
 
@@ -89,7 +87,7 @@ public:
     if (other.size() >= m_size) {
       for (; i < m_size; i++)
         m_p[i] = other.m_p[i];
-      for (; i < other.size(); i++)
+      for (; i < other.size(); i++, m_size++)
         std::construct_at(&m_p[i], other.m_p[i]);
     } else {
       for (; i < other.size(); i++)
@@ -110,7 +108,12 @@ public:
     if (new_cap > m_capacity)
     {
       value_type *p = m_alloc.allocate(new_cap);
-      relocate(p, new_cap);
+      try {
+        relocate(p, new_cap);
+      } catch (...) {
+        m_alloc.deallocate(p, new_cap);
+        throw;
+      }
     }
   }
 
@@ -119,12 +122,12 @@ public:
     if (count > m_size)
     {
       reserve(count);
-      for (size_type i = m_size; i < count; i++)
-        std::construct_at(&m_p[i]);
+      for (; m_size < count; m_size++)
+        std::construct_at(&m_p[m_size]);
     } else if (count < m_size) {
       std::destroy_n(&m_p[count], m_size-count);
+      m_size = count;
     }
-    m_size = count;
   }
 
   constexpr iterator        begin()       noexcept { return {m_p};          }
@@ -211,10 +214,17 @@ public:
 
 private:
 
+  // if an element's constructor throws, the vector is as before
   constexpr void relocate(value_type *p, size_type new_cap)
   {
-    for (size_type i = 0; i < m_size; i++)
-      std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+    size_type i = 0;
+    try {
+      for (; i < m_size; i++)
+        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+    } catch (...) {
+      std::destroy_n(p, i);
+      throw;
+    }
     if (0 != m_capacity) {
       std::destroy_n(m_p,m_size);
       m_alloc.deallocate(m_p,m_capacity);
@@ -229,8 +239,17 @@ private:
   {
     const size_type new_cap = 0 == m_capacity ? 1 : m_capacity * 2;
     value_type *p = m_alloc.allocate(new_cap);
-    std::construct_at(&p[m_size],std::forward<U>(value));
-    relocate(p, new_cap);
+    bool constructed = false;
+    try {
+      std::construct_at(&p[m_size],std::forward<U>(value));
+      constructed = true;
+      relocate(p, new_cap);
+    } catch (...) {
+      if (constructed)
+        std::destroy_at(&p[m_size]);
+      m_alloc.deallocate(p, new_cap);
+      throw;
+    }
     m_size++;
   }
 
-- 
2.43.0


From 737e175c3f6501c3736bbf7b8377669f71132853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:43 +0000
Subject: [PATCH 14/57] fix: deque was left inconsistent when an allocation or
 an element's constructor threw

---
 include/cest/deque.hpp | 68 ++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index b63ab4b..39dc7df 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -152,10 +152,9 @@ public:
 
   constexpr deque()
   {
-    value_type *p = m_alloc.allocate(CHUNK_SIZE);
+    add_chunk();
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2 - 1;
-    m_chunks.push_back(p);
     m_front_chunk = m_back_chunk = 0;
     m_size = 0;
   }
@@ -202,26 +201,22 @@ public:
 
   constexpr void push_front( const T& value )
   {
-    push_front_helper();
-    std::construct_at(&m_chunks[m_front_chunk][m_front],           value);
+    push_front_helper(value);
   }
 
   constexpr void push_front( T&& value )
   {
-    push_front_helper();
-    std::construct_at(&m_chunks[m_front_chunk][m_front], std::move(value));
+    push_front_helper(std::move(value));
   }
 
   constexpr void push_back( const T& value )
   {
-    push_back_helper();
-    std::construct_at(&m_chunks[m_back_chunk][m_back],             value);
+    push_back_helper(value);
   }
 
   constexpr void push_back( T&& value )
   {
-    push_back_helper();
-    std::construct_at(&m_chunks[m_back_chunk][m_back],   std::move(value));
+    push_back_helper(std::move(value));
   }
 
   constexpr void pop_back()
@@ -311,42 +306,51 @@ private:
     return m_back == CHUNK_SIZE - 1 ? 0 : m_back + 1;
   }
 
-  constexpr void push_front_helper()
+  constexpr void add_chunk()
   {
-    if (m_front == 0)
-    {
-      if (m_front_chunk == 0)
-      {
-        value_type *p = m_alloc.allocate(CHUNK_SIZE);
-        m_chunks.push_back(p);
-        std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
-        ++m_back_chunk;
-      }
-      else {
-        --m_front_chunk;
-      }
-
-      m_front = CHUNK_SIZE - 1;
+    m_chunks.push_back(nullptr);
+    try {
+      m_chunks.back() = m_alloc.allocate(CHUNK_SIZE);
+    } catch (...) {
+      m_chunks.pop_back();
+      throw;
     }
-    else
+  }
+
+  // In both helpers the new element is constructed before the cursors move, so
+  // that an exception leaves the contents as they were.
+
+  template <class U>
+  constexpr void push_front_helper(U&& value)
+  {
+    if (m_front == 0 && m_front_chunk == 0)
     {
-      --m_front;
+      add_chunk();
+      std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
+      ++m_front_chunk;
+      ++m_back_chunk;
     }
 
+    const size_type chunk  = m_front == 0 ? m_front_chunk - 1 : m_front_chunk;
+    const size_type offset = m_front == 0 ? CHUNK_SIZE    - 1 : m_front - 1;
+    std::construct_at(&m_chunks[chunk][offset], std::forward<U>(value));
+
+    m_front_chunk = chunk;
+    m_front       = offset;
     m_size++;
   }
 
-  constexpr void push_back_helper()
+  template <class U>
+  constexpr void push_back_helper(U&& value)
   {
     const size_type chunk  = end_chunk();
     const size_type offset = end_offset();
 
     // keep the slot after the new element in an allocated chunk too
     if (offset == CHUNK_SIZE - 1 && chunk == m_chunks.size() - 1)
-    {
-      value_type *p = m_alloc.allocate(CHUNK_SIZE);
-      m_chunks.push_back(p);
-    }
+      add_chunk();
+
+    std::construct_at(&m_chunks[chunk][offset], std::forward<U>(value));
 
     m_back_chunk = chunk;
     m_back       = offset;
-- 
2.43.0


From 18e379911a5f2eefb766c26f84e6f4bfcfa1aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:00 +0000
Subject: [PATCH 15/57] fix: list, forward_list, set and map leaked or linked a
 node whose construction threw

---
 include/cest/forward_list.hpp | 22 +++++++++++++++++-----
 include/cest/list.hpp         | 14 ++++++++++++--
 include/cest/map.hpp          | 10 ++++++++--
 include/cest/set.hpp          | 10 ++++++++--
 4 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 3c5ec8a..ecc14ba 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -97,13 +97,13 @@ struct forward_list {
   };
 
   constexpr forward_list() = default;
-  constexpr forward_list(const forward_list& x)
+  constexpr forward_list(const forward_list& x) : forward_list()
   {
     const node_base* from = &x.m_front;
           node_base*   to = &this->m_front;
     while (from->next) {
       const node *nextf = static_cast<node*>(from->next);
-      to->next = std::construct_at(m_node_alloc.allocate(1), nextf->value);
+      insert_after(iterator{to}, nextf->value);
       from     = from->next;
         to     =   to->next;
     }
@@ -140,15 +140,27 @@ struct forward_list {
   iterator insert_after(const_iterator pos, const value_type& value) {
     node_base*   p = const_cast<node_base*>(pos.m_node);
     node* new_node = m_node_alloc.allocate(1);
-    p->next        = std::construct_at(new_node,           value, p->next);
+    try {
+      std::construct_at(new_node, value, p->next);
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
+    p->next        = new_node;
     return {new_node};
   }
 
   constexpr
   iterator insert_after(const_iterator pos,      value_type&& value) {
     node_base*   p  = const_cast<node_base*>(pos.m_node);
-    node* new_node  = m_node_alloc.allocate(1);
-    p->next         = std::construct_at(new_node, std::move(value), p->next);
+    node* new_node = m_node_alloc.allocate(1);
+    try {
+      std::construct_at(new_node, std::move(value), p->next);
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
+    p->next        = new_node;
     return {new_node};
   }
 
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index cd83316..c7f9a38 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -218,7 +218,12 @@ struct list {
 
     // As an implicit-lifetime type (P0593R6), node construction isn't needed
     //std::construct_at(&new_node->value, value);
-    std::construct_at(new_node, value);
+    try {
+      std::construct_at(new_node, value);
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
     // ...actually...it is: that exemption doesn't apply for constexpr.
 
     // List_node_base::_M_hook
@@ -243,7 +248,12 @@ struct list {
     node_base*   p = const_cast<node_base*>(pos.m_node);
     node* new_node = m_node_alloc.allocate(1);
 
-    std::construct_at(new_node, value_type(std::forward<Args>(args)...));
+    try {
+      std::construct_at(new_node, value_type(std::forward<Args>(args)...));
+    } catch (...) {
+      m_node_alloc.deallocate(new_node, 1);
+      throw;
+    }
 
     // List_node_base::_M_hook
     new_node->next = p;
diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index b477c32..8d5b93f 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -282,8 +282,14 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
-        n = ret_node = m_node_alloc.allocate(1);
-        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        ret_node = m_node_alloc.allocate(1);
+        try {
+          std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        } catch (...) {
+          m_node_alloc.deallocate(ret_node,1);
+          throw;
+        }
+        n = ret_node;
         m_begin = (!m_begin || m_comp(value.first,m_begin->x.first)) ? n : m_begin;
         added = true;
         m_size++;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index 1177838..184684b 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -218,8 +218,14 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
-        n = ret_node = m_node_alloc.allocate(1);
-        std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        ret_node = m_node_alloc.allocate(1);
+        try {
+          std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
+        } catch (...) {
+          m_node_alloc.deallocate(ret_node,1);
+          throw;
+        }
+        n = ret_node;
         m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
         added = true;
         m_size++;
-- 
2.43.0


From 58adbb69bcbcec430a67d8ebd930662b327795be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:19 +0000
Subject: [PATCH 16/57] fix: shared_ptr assignment, empty copies, moves and
 aliasing broke ownership

---
 include/cest/shared_ptr.hpp | 43 ++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 9b465ed..04b46a2 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -39,18 +39,25 @@ template <typename>
 
 namespace impl {
 
+// The control block's type does not depend on the type of pointer stored, as an
+// object may be shared by pointers to it, and by pointers to its subobjects.
+struct shared_ptr_ctrl
+{
+  constexpr shared_ptr_ctrl() : count_(1) {}
+  virtual constexpr void destroy() = 0;
+  virtual constexpr ~shared_ptr_ctrl() {}
+
+  long count_;
+};
+
 template <typename T, typename Td>
 class shared_ptr_base
 {
-protected:
-  struct ctrl
-  {
-    constexpr ctrl() : count_(1) {}
-    virtual constexpr void destroy() = 0;
-    virtual constexpr ~ctrl() {}
+  template <typename, typename>
+  friend class shared_ptr_base;
 
-    long count_;
-  };
+protected:
+  using ctrl = shared_ptr_ctrl;
 
   template <class U, class Deleter>
   struct ctrl_derived : public ctrl
@@ -81,11 +88,23 @@ public:
     : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
-  template <class Y>
-  constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+  constexpr shared_ptr_base(shared_ptr_base&& r) noexcept
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { r.ptr_ = nullptr; r.pctrl_ = nullptr; }
+
+  template <class Y, class Yd>
+  constexpr shared_ptr_base(const shared_ptr_base<Y,Yd>& r,
+                            element_type* ptr) noexcept
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
+
+  constexpr shared_ptr_base& operator=(shared_ptr_base r) noexcept
+  {
+    using std::swap;
+    swap(ptr_, r.ptr_);
+    swap(pctrl_, r.pctrl_);
+    return *this;
+  }
 
   constexpr ~shared_ptr_base()
   {
-- 
2.43.0


From a7c98f7542c096258d3891407ade37bb140abe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:35 +0000
Subject: [PATCH 17/57] fix: shared_ptr comparison compared only whether the
 pointers were null

---
 include/cest/shared_ptr.hpp | 38 +++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 04b46a2..1f43052 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -180,6 +180,44 @@ public:
   }
 };
 
+//------------------------------------------------------------------------------
+// Comparison operators; otherwise the conversion to bool would be compared
+
+template <typename T, typename U>
+constexpr bool
+operator==(shared_ptr<T> const& a, shared_ptr<U> const& b) noexcept
+{
+  return a.get() == b.get();
+}
+
+template <typename T, typename U>
+constexpr bool
+operator<(shared_ptr<T> const& a, shared_ptr<U> const& b) noexcept
+{
+  return a.get() < b.get();
+}
+
+template <typename T, typename U>
+constexpr bool
+operator<=(shared_ptr<T> const& a, shared_ptr<U> const& b) noexcept
+{
+  return a.get() <= b.get();
+}
+
+template <typename T, typename U>
+constexpr bool
+operator>(shared_ptr<T> const& a, shared_ptr<U> const& b) noexcept
+{
+  return a.get() > b.get();
+}
+
+template <typename T, typename U>
+constexpr bool
+operator>=(shared_ptr<T> const& a, shared_ptr<U> const& b) noexcept
+{
+  return a.get() >= b.get();
+}
+
 template<typename T>
 constexpr cest::ostream&
 operator<<(cest::ostream& o, shared_ptr<T> const& p)
-- 
2.43.0


From 5eca17bd1a71cd4cce1fa662851eeaaa5bd4aa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:52 +0000
Subject: [PATCH 18/57] fix: shared_ptr use count was not safe for concurrent
 owners

---
 include/cest/shared_ptr.hpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 1f43052..35191ff 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -44,6 +44,30 @@ namespace impl {
 struct shared_ptr_ctrl
 {
   constexpr shared_ptr_ctrl() : count_(1) {}
+
+  // Pointers owning the same object may be copied and destroyed concurrently
+  constexpr void acquire() noexcept
+  {
+    if (std::is_constant_evaluated())
+      ++count_;
+    else
+      __atomic_add_fetch(&count_, 1, __ATOMIC_RELAXED);
+  }
+
+  constexpr bool release() noexcept // true if that was the last owner
+  {
+    if (std::is_constant_evaluated())
+      return --count_ == 0;
+    return __atomic_sub_fetch(&count_, 1, __ATOMIC_ACQ_REL) == 0;
+  }
+
+  constexpr long count() const noexcept
+  {
+    if (std::is_constant_evaluated())
+      return count_;
+    return __atomic_load_n(&count_, __ATOMIC_RELAXED);
+  }
+
   virtual constexpr void destroy() = 0;
   virtual constexpr ~shared_ptr_ctrl() {}
 
@@ -88,7 +112,7 @@ public:
     : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) pctrl_->acquire(); }
 
   constexpr shared_ptr_base(shared_ptr_base&& r) noexcept
     : ptr_{r.ptr_}, pctrl_{r.pctrl_} { r.ptr_ = nullptr; r.pctrl_ = nullptr; }
@@ -96,7 +120,7 @@ public:
   template <class Y, class Yd>
   constexpr shared_ptr_base(const shared_ptr_base<Y,Yd>& r,
                             element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) pctrl_->acquire(); }
 
   constexpr shared_ptr_base& operator=(shared_ptr_base r) noexcept
   {
@@ -108,7 +132,7 @@ public:
 
   constexpr ~shared_ptr_base()
   {
-    if (pctrl_ && !--pctrl_->count_)
+    if (pctrl_ && pctrl_->release())
     {
       pctrl_->destroy();
       delete pctrl_;
@@ -116,7 +140,7 @@ public:
   }
 
   constexpr long use_count() const noexcept {
-    return pctrl_ ? pctrl_->count_ : 0;
+    return pctrl_ ? pctrl_->count() : 0;
   }
 
   constexpr element_type* get() const noexcept { return ptr_; }
-- 
2.43.0


From 7f401dbe02d6ca6dd0421d184abccd172baea8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:08 +0000
Subject: [PATCH 19/57] fix: shared_ptr leaked the object when its control
 block could not be allocated

---
 include/cest/shared_ptr.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 35191ff..5506f5f 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -105,11 +105,18 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del<Td>>{ptr,def_del<Td>{}}} {}
+    : shared_ptr_base(ptr, def_del<Td>{}) {}
 
   template <class Y, class Deleter>
-  constexpr shared_ptr_base(Y* ptr, Deleter del)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
+  constexpr shared_ptr_base(Y* ptr, Deleter del) : ptr_{ptr}
+  {
+    try {
+      pctrl_ = new ctrl_derived<Y,Deleter>{ptr,del};
+    } catch (...) {
+      del(ptr);
+      throw;
+    }
+  }
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
     : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) pctrl_->acquire(); }
-- 
2.43.0


From d619e00ae006288acf327b15539be7722e34e883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:24 +0000
Subject: [PATCH 20/57] fix: unique_ptr move assignment left the old object in
 the source

---
 include/cest/memory.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cest/memory.hpp b/include/cest/memory.hpp
index 3ef2462..637fff2 100644
--- a/include/cest/memory.hpp
+++ b/include/cest/memory.hpp
@@ -43,8 +43,7 @@ public:
 
   constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
   {
-    using std::swap;
-    swap(other.ptr_, ptr_);
+    reset(other.release());
     return *this;
   }
 
-- 
2.43.0


From 7349b7e8495fadfdd05206beb88cb99178ee5878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:20 +0000
Subject: [PATCH 21/57] fix: copying a function recursed without end, and a
 const callable was rejected

---
 include/cest/functional.hpp | 41 +++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index a614699..cf06512 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -15,6 +15,7 @@ class virt_impl_f
 {
 public:
   constexpr virtual R operator()(Args... args) = 0;
+  constexpr virtual virt_impl_f* clone() const = 0;
   constexpr virtual ~virt_impl_f() = default;
 };
 
@@ -22,7 +23,11 @@ template <typename F, typename R, typename... Args>
 class impl_f : public virt_impl_f<R , Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(const F& f) : f_(f) {}
+
+  constexpr virtual virt_impl_f<R, Args...>* clone() const override {
+    return new impl_f(f_);
+  }
 
   constexpr virtual R operator()(Args... args) override {
     return f_(std::forward<Args>(args)...);
@@ -35,7 +40,11 @@ template <typename F, typename... Args>
 class impl_f<F, void, Args...> : public virt_impl_f<void, Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(const F& f) : f_(f) {}
+
+  constexpr virtual virt_impl_f<void, Args...>* clone() const override {
+    return new impl_f(f_);
+  }
 
   constexpr virtual void operator()(Args... args) override {
     f_(std::forward<Args>(args)...);
@@ -57,10 +66,20 @@ public:
     return f_->operator()(std::forward<Args>(args)...);
   }
 
-  template<typename F>
+  template<typename F, typename = std::enable_if_t<
+    !std::is_same_v<std::decay_t<F>, function>>>
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
-                         R, Args...>>(std::move(f))){}
+                         R, Args...>>(f)){}
+
+  constexpr function(const function& other) :
+    f_(other.f_ ? other.f_->clone() : nullptr) {}
+  constexpr function(function&&) noexcept = default;
+
+  constexpr function& operator=(function other) noexcept {
+    f_ = std::move(other.f_);
+    return *this;
+  }
 };
 
 template <typename... Args>
@@ -73,10 +92,20 @@ public:
     return f_->operator()(std::forward<Args>(args)...);
   }
 
-  template<typename F>
+  template<typename F, typename = std::enable_if_t<
+    !std::is_same_v<std::decay_t<F>, function>>>
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
-                         void, Args...>>(std::move(f))){}
+                         void, Args...>>(f)){}
+
+  constexpr function(const function& other) :
+    f_(other.f_ ? other.f_->clone() : nullptr) {}
+  constexpr function(function&&) noexcept = default;
+
+  constexpr function& operator=(function other) noexcept {
+    f_ = std::move(other.f_);
+    return *this;
+  }
 };
 
 // Deduction guide borrowed from libcxx
-- 
2.43.0


From 00b2a91bbdac50f4f0d18c9eb70b71b8d754f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:30 +0000
Subject: [PATCH 22/57] fix: pair.hpp included a header that does not exist

---
 include/cest/pair.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/pair.hpp b/include/cest/pair.hpp
index 15ec31f..e9dd425 100644
--- a/include/cest/pair.hpp
+++ b/include/cest/pair.hpp
@@ -1,7 +1,7 @@
 #ifndef _CEST_PAIR_HPP_
 #define _CEST_PAIR_HPP_
 
-#include <pair>
+#include <utility>
 
 namespace cest {
 
-- 
2.43.0


From d4e33ce3c190dcf5f6e4321bd7c20b744bcb5897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:46 +0000
Subject: [PATCH 23/57] fix: the stream objects were defined once per
 translation unit

---
 include/cest/iostream.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/cest/iostream.hpp b/include/cest/iostream.hpp
index c7ffc4f..acd24b3 100644
--- a/include/cest/iostream.hpp
+++ b/include/cest/iostream.hpp
@@ -8,16 +8,16 @@
 namespace cest {
 
 namespace impl {
-  basic_stringbuf cout(string("cout"));
-  basic_stringbuf cerr(string("cerr"));
-  basic_stringbuf clog(string("clog"));
-  basic_stringbuf cin(string("cin"));
+  inline basic_stringbuf cout(string("cout"));
+  inline basic_stringbuf cerr(string("cerr"));
+  inline basic_stringbuf clog(string("clog"));
+  inline basic_stringbuf cin(string("cin"));
 }
 
-ostream cout(&impl::cout);
-ostream cerr(&impl::cerr);
-ostream clog(&impl::clog);
-istream cin(&impl::cin);
+inline ostream cout(&impl::cout);
+inline ostream cerr(&impl::cerr);
+inline ostream clog(&impl::clog);
+inline istream cin(&impl::cin);
 
 using iostream  = basic_iostream<char>;
 using wiostream = basic_iostream<wchar_t>;
-- 
2.43.0


From e866e94458b5fc5ee29c2bbbf50ae133db7325e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:22 +0000
Subject: [PATCH 24/57] fix: inserting a long into an ostream did not compile

---
 include/cest/ostream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 3a9488c..c99f091 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -60,7 +60,10 @@ public:
 
   constexpr __ostream_type&
   operator<<(long __n)
-  { return _M_insert(__n); }
+  {
+    impl::runtime_ostream(*this, __n);
+    return *this;
+  }
 
   constexpr __ostream_type& operator<<(int value)                             {
     impl::runtime_ostream(*this, value);
-- 
2.43.0


From 0da67ce9a1bbd9eecf5921a31c5e8f2b14b17e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:21 +0000
Subject: [PATCH 25/57] fix: the base manipulators had no effect at run time

---
 include/cest/ios_base.hpp | 27 ++++++++++++++++++++++++---
 include/cest/ostream.hpp  |  7 +++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/cest/ios_base.hpp b/include/cest/ios_base.hpp
index c51d052..4f9d394 100644
--- a/include/cest/ios_base.hpp
+++ b/include/cest/ios_base.hpp
@@ -197,11 +197,32 @@ public:
   constexpr fmtflags
   flags() const
   { return _M_flags; }
+
+  constexpr fmtflags
+  setf(fmtflags __fmtfl, fmtflags __mask)
+  {
+    fmtflags __old = _M_flags;
+    _M_flags &= ~__mask;
+    _M_flags |= (__fmtfl & __mask);
+    return __old;
+  }
 };
 
-constexpr ios_base& dec(ios_base& str) { return str; }
-constexpr ios_base& hex(ios_base& str) { return str; }
-constexpr ios_base& oct(ios_base& str) { return str; }
+constexpr ios_base& dec(ios_base& str) {
+  if (!std::is_constant_evaluated())
+    str.setf(ios_base::dec, ios_base::basefield);
+  return str;
+}
+constexpr ios_base& hex(ios_base& str) {
+  if (!std::is_constant_evaluated())
+    str.setf(ios_base::hex, ios_base::basefield);
+  return str;
+}
+constexpr ios_base& oct(ios_base& str) {
+  if (!std::is_constant_evaluated())
+    str.setf(ios_base::oct, ios_base::basefield);
+  return str;
+}
 
 } // namespace cest
 
diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index c99f091..9960d3e 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -55,6 +55,13 @@ public:
   constexpr __ostream_type&
   operator<<(ios_base&       (*__pf)(ios_base&))       {
     __pf(*this);
+    if (!std::is_constant_evaluated())
+    {
+      const auto __base = this->flags() & ios_base::basefield;
+      impl::runtime_ostream(*this, __base == ios_base::hex ? std::hex
+                                 : __base == ios_base::oct ? std::oct
+                                                           : std::dec);
+    }
     return *this;
   }
 
-- 
2.43.0


From f65daa5bf0f7c28b183991f0f9d522803bab22cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:39 +0000
Subject: [PATCH 26/57] fix: inserting a smart pointer into an ostream did not
 compile

---
 include/cest/ostream.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 9960d3e..f5593ce 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -82,6 +82,11 @@ public:
     return *this;
   }
 
+  constexpr __ostream_type& operator<<(const void* value)                     {
+    impl::runtime_ostream(*this, value);
+    return *this;
+  }
+
   constexpr __ostream_type& flush();
 
   protected:
-- 
2.43.0


From baf16f7715f394b066a707662e5bedc8a05d2739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:00 +0000
Subject: [PATCH 27/57] fix: ios_base.hpp, streambuf.hpp and cmath.hpp did not
 include what they use

---
 include/cest/cmath.hpp     | 1 +
 include/cest/ios_base.hpp  | 3 +++
 include/cest/streambuf.hpp | 4 ++++
 3 files changed, 8 insertions(+)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 25e0aae..a8ac844 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -2,6 +2,7 @@
 #define _CEST_CMATH_HPP_
 
 #include "cest/bits/abs.hpp"
+#include <limits> // std::numeric_limits
 
 namespace cest {
 
diff --git a/include/cest/ios_base.hpp b/include/cest/ios_base.hpp
index 4f9d394..cd575dc 100644
--- a/include/cest/ios_base.hpp
+++ b/include/cest/ios_base.hpp
@@ -1,6 +1,9 @@
 #ifndef _CEST_IOS_BASE_HPP_
 #define _CEST_IOS_BASE_HPP_
 
+#include <ios>         // std::streamsize
+#include <type_traits> // std::is_constant_evaluated
+
 namespace cest {
 
   enum _Ios_Fmtflags
diff --git a/include/cest/streambuf.hpp b/include/cest/streambuf.hpp
index a2ff25a..6a9f113 100644
--- a/include/cest/streambuf.hpp
+++ b/include/cest/streambuf.hpp
@@ -1,6 +1,10 @@
 #ifndef _CEST_STREAMBUF_HPP_
 #define _CEST_STREAMBUF_HPP_
 
+#include "ios_base.hpp" // cest::streamsize
+#include <algorithm>    // std::min
+#include <string>       // std::char_traits
+
 namespace cest {
 
 #define _IsUnused __attribute__ ((__unused__))
-- 
2.43.0


From 0d45dbde23a61a4737d5846aef795c785d3ba5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:15 +0000
Subject: [PATCH 28/57] fix: complex functions called std functions which do
 not take a cest::complex

---
 include/cest/complex.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index a87dc0a..70fcf90 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -9,6 +9,8 @@
 
 #include <type_traits>
 #include "cest/algorithm.hpp"
+#include "cest/cmath.hpp"
+#include "cest/istream.hpp"
 
 // Get rid of a macro possibly defined in <complex.h>
 #undef complex
@@ -791,7 +793,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     log10(const complex<_Tp>& __z)
-    { return std::log(__z) / log(_Tp(10.0)); }
+    { return cest::log(__z) / log(_Tp(10.0)); }
 
   // 26.2.8/10 sin(__z): Returns the sine of __z.
   template<typename _Tp>
@@ -869,7 +871,7 @@ namespace cest
         }
       else
         {
-          _Tp __t = sqrt(2 * (std::abs(__z) + abs(__x)));
+          _Tp __t = sqrt(2 * (cest::abs(__z) + abs(__x)));
           _Tp __u = __t / 2;
           return __x > _Tp()
             ? complex<_Tp>(__u, __y / __t)
@@ -902,7 +904,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tan(const complex<_Tp>& __z)
-    { return std::sin(__z) / std::cos(__z); }
+    { return cest::sin(__z) / cest::cos(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -930,7 +932,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tanh(const complex<_Tp>& __z)
-    { return std::sinh(__z) / std::cosh(__z); }
+    { return cest::sinh(__z) / cest::cosh(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -998,14 +1000,14 @@ namespace cest
       if (__x.imag() == _Tp() && __x.real() > _Tp())
         return pow(__x.real(), __y);
 
-      complex<_Tp> __t = std::log(__x);
+      complex<_Tp> __t = cest::log(__x);
       return cest::polar<_Tp>(exp(__y * __t.real()), __y * __t.imag());
     }
 
   template<typename _Tp>
     inline complex<_Tp>
     __complex_pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
-    { return __x == _Tp() ? _Tp() : std::exp(__y * std::log(__x)); }
+    { return __x == _Tp() ? _Tp() : cest::exp(__y * cest::log(__x)); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -1038,7 +1040,7 @@ namespace cest
     {
       return __x > _Tp() ? cest::polar<_Tp>(pow(__x, __y.real()),
 					   __y.imag() * log(__x))
-	                 : std::pow(complex<_Tp>(__x), __y);
+	                 : cest::pow(complex<_Tp>(__x), __y);
     }
 
 } // namespace cest
-- 
2.43.0


From e6c75c184cf725a634928bc8ec9264488d3b0383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:29 +0000
Subject: [PATCH 29/57] fix: complex pow truncated a real exponent to an
 integer

---
 include/cest/complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index 70fcf90..6421100 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -998,7 +998,7 @@ namespace cest
 	return _Tp();
 #endif
       if (__x.imag() == _Tp() && __x.real() > _Tp())
-        return pow(__x.real(), __y);
+        return exp(__y * log(__x.real())); // cest::pow needs an int exponent
 
       complex<_Tp> __t = cest::log(__x);
       return cest::polar<_Tp>(exp(__y * __t.real()), __y * __t.imag());
@@ -1038,7 +1038,7 @@ namespace cest
     inline complex<_Tp>
     pow(const _Tp& __x, const complex<_Tp>& __y)
     {
-      return __x > _Tp() ? cest::polar<_Tp>(pow(__x, __y.real()),
+      return __x > _Tp() ? cest::polar<_Tp>(exp(__y.real() * log(__x)),
 					   __y.imag() * log(__x))
 	                 : cest::pow(complex<_Tp>(__x), __y);
     }
-- 
2.43.0


From 31d37bed5f2a77fa2024469f69996650704ffac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:40 +0000
Subject: [PATCH 30/57] fix: ceil and floor were off by one just below an
 integer

---
 include/cest/cmath.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index a8ac844..a2705dc 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -119,7 +119,7 @@ namespace cest {
   }
 
   constexpr int ceil(double v) {
-    return ((double)(int)v != v && v > 0) ?  v + 1 : v;
+    return ((double)(int)v != v && v > 0) ? (int)v + 1 : (int)v;
   }
 
   constexpr double cos(double x) {
@@ -131,7 +131,7 @@ namespace cest {
   }
 
   constexpr int floor(double v) {
-    return ((double)(int)v != v && v < 0) ?  v - 1 : v;
+    return ((double)(int)v != v && v < 0) ? (int)v - 1 : (int)v;
   }
 
   constexpr double pow(double base, int exponent) {
-- 
2.43.0


From 2552eeb61d9e1cf4e1590aec1fe312ee078242c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 31/57] fix: pow recursed once per unit of the exponent, and
 overflowed on the least int

---
 include/cest/cmath.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index a2705dc..fbfa39e 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -135,10 +135,11 @@ namespace cest {
   }
 
   constexpr double pow(double base, int exponent) {
-    return exponent <  0 ? 1.0 / pow(base,-exponent) :
+    return exponent <  0 ? 1.0 / (base * pow(base,-(exponent+1))) :
            exponent == 0 ? 1.                        :
            exponent == 1 ? base                      :
-           base * pow(base,exponent-1);
+           exponent %  2 ? base * pow(base,exponent-1) :
+           square(pow(base,exponent/2));
   }
 
   constexpr double sqrt(double x) {
-- 
2.43.0


From c04d35c308fb54e3f6aeb269d80cc23993f75d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:13 +0000
Subject: [PATCH 32/57] fix: math functions did not terminate on zero,
 negative, huge or non-finite arguments

---
 include/cest/cmath.hpp | 46 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index fbfa39e..d98c7fe 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -28,17 +28,39 @@ namespace cest {
       return x*x*x;
     }
 
+    constexpr double infinite = std::numeric_limits<double>::infinity();
+    constexpr double not_a_number = std::numeric_limits<double>::quiet_NaN();
+
+    // false for infinities and NaNs
+    constexpr bool is_finite(const double x) {
+      return abs(x) <= std::numeric_limits<double>::max();
+    }
+
+    // sin(3a) = 3sin(a) - 4sin^3(a)
+    constexpr double sin_triple(const double s) {
+      return 3*s - 4*cube(s);
+    }
+
+    // sinh(3a) = 3sinh(a) + 4sinh^3(a)
+    constexpr double sinh_triple(const double s) {
+      return 3*s + 4*cube(s);
+    }
+
+    constexpr double cosh_from_sinh(const double s) {
+      return abs(s) > 1e9 ? abs(s) : sqrt(1.0 + square(s));
+    }
+
     // https://www.cse.wustl.edu/~ychen/131/Notes/SquareRoot/sqrt.html
     constexpr double sqrt_helper(const double x, const double g) {
       return abs(g-x/g) < (tol*g) ? g : sqrt_helper(x,(g+x/g)/2.0);
     }
 
     constexpr double sin_helper(const double x) {
-      return x < tol ? x : 3*(sin_helper(x/3.0)) - 4*cube(sin_helper(x/3.0));
+      return x < tol ? x : sin_triple(sin_helper(x/3.0));
     }
 
     constexpr double sinh_helper(const double x) {
-      return x < tol ? x : 3*(sinh_helper(x/3.0)) + 4*cube(sinh_helper(x/3.0));
+      return x < tol ? x : sinh_triple(sinh_helper(x/3.0));
     }
 
     // atan formulae from http://mathonweb.com/algebra_e-book.htm
@@ -107,7 +129,8 @@ namespace cest {
   } // anonymous namespace
 
   constexpr double atan(double x) {
-    return (x >= 0) ? atan_cmplmntry(x) : -atan_cmplmntry(-x);
+    return x != x   ? x :
+           (x >= 0) ? atan_cmplmntry(x) : -atan_cmplmntry(-x);
   }
 
   constexpr double atan2(double y, double x) {
@@ -127,7 +150,7 @@ namespace cest {
   }
 
   constexpr double cosh(double x) {
-    return sqrt(1.0 + square(sinh(x)));
+    return cosh_from_sinh(sinh(x));
   }
 
   constexpr int floor(double v) {
@@ -143,26 +166,33 @@ namespace cest {
   }
 
   constexpr double sqrt(double x) {
-    return sqrt_helper(x,1.0);
+    return x <  0            ? not_a_number :
+           x == 0 || !is_finite(x) ? x : sqrt_helper(x,1.0);
   }
 
   constexpr double sin(double x) { 
-    return sin_helper(x < 0 ? -x+CEST_M_PI : x);
+    return !is_finite(x) ? not_a_number : sin_helper(x < 0 ? -x+CEST_M_PI : x);
   }
 
   constexpr double sinh(double x) {
-    return x < 0 ? -sinh_helper(-x) : sinh_helper(x);
+    return !is_finite(x) ? x :
+           x < 0 ? -sinh_helper(-x) : sinh_helper(x);
   }
 
   // exp(x) = e^n . e^r (where n is an integer, and -0.5 > r < 0.5
   // exp(r) = e^r = 1 + r + r^2/2 + r^3/6 + r^4/24 + r^5/120
   constexpr double exp(double x) {
-    return pow(CEST_M_E,nearest(x)) * exp_helper(fraction(x));
+    return x != x       ? x                :
+           x >  710.    ? infinite         :
+           x < -746.    ? 0.               :
+           abs(x) > 700 ? square(exp(x/2)) :
+           pow(CEST_M_E,nearest(x)) * exp_helper(fraction(x));
   }
 
   constexpr double log(double x) {
     return x == 0 ? -std::numeric_limits<double>::infinity() :
            x <  0 ?  std::numeric_limits<double>::quiet_NaN() :
+           !is_finite(x) ? x :
            2.0 * log_helper(sqrt(mantissa(x))) + 2.3025851 * exponent(x);
   }
 
-- 
2.43.0


From 2e85bd2e0c488d69dd9fb395ebd4c5a3cca4dc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:12 +0000
Subject: [PATCH 33/57] fix: printf and fprintf without arguments, or with a
 null character, differed from the C library

---
 include/cest/cstdio.hpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 7ba7a78..cf2f0c4 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -17,12 +17,13 @@ constexpr FILE* stdin = &cest::cin;
 constexpr ostream* stdout = &cest::cout;
 constexpr ostream* stderr = &cest::cerr;
 
-// avoid warning: format string is not a string literal (-Wformat-security)
+// avoid warning: format string is not a string literal (-Wformat-security);
+// an argument which the format does not use is evaluated, and then ignored
 constexpr int printf(const char* format)
 {
   if (!std::is_constant_evaluated())
   {
-    return std::printf("%s", format);
+    return std::printf(format, 0);
   }
 
   return 0;
@@ -39,16 +40,6 @@ constexpr int printf(const char* format, Ts&&... xs)
   return 0; // positive; not an error; 0 characters output (constexpr)
 }
 
-constexpr int fprintf(ostream* stream, const char* format)
-{
-  if (!std::is_constant_evaluated())
-  {
-    (*stream) << format;
-  }
-
-  return 0;
-}
-
 // FILE* for param 1 would itroduce the issues described above. 
 template <typename... Ts>
 constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
@@ -56,9 +47,12 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
   if (!std::is_constant_evaluated())
   {
     int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);
+    if (nbytes < 0)
+      return nbytes;
+
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
-    (*stream) << psz;
+    (*stream) << string(psz, nbytes);
     delete [] psz;
     return nbytes;
   }
@@ -66,6 +60,11 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
   return 0;
 }
 
+constexpr int fprintf(ostream* stream, const char* format)
+{
+  return cest::fprintf(stream, format, 0);
+}
+
 constexpr FILE* fmemopen(char* buf, size_t size, const char* /*mode*/)
 {
   return new stringstream(string(buf,size));
-- 
2.43.0


From 5022d61bb7189b46275924d2ce2eb8bee8dcac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:03 +0000
Subject: [PATCH 34/57] fix: deque iterators lacked operations of the category
 they declare

---
 include/cest/deque.hpp | 72 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 39dc7df..f113796 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -5,6 +5,7 @@
 #include <memory>    // std::allocator_traits
 #include <algorithm> // std::rotate
 #include <initializer_list>
+#include <compare> // operator<=>
 
 #define CHUNK_SIZE 1024
 
@@ -77,6 +78,41 @@ public:
       return m_p == rhs.m_p;
     }
 
+    constexpr iter& operator+=(difference_type n) noexcept
+    {
+      const difference_type offset = (m_p - *m_ppchunk) + n;
+      const difference_type chunks = offset >= 0 ? offset / CHUNK_SIZE
+                                   : -((-offset - 1) / CHUNK_SIZE) - 1;
+      if (chunks != 0)
+        m_ppchunk += chunks;
+      m_p = *m_ppchunk + (offset - chunks * CHUNK_SIZE);
+      return *this;
+    }
+
+    constexpr iter& operator-=(difference_type n) noexcept {
+      return *this += -n;
+    }
+
+    constexpr iter operator-(difference_type n) const noexcept {
+      iter tmp(*this); return tmp -= n;
+    }
+
+    friend constexpr iter operator+(iter it, difference_type n) noexcept {
+      return it += n;
+    }
+
+    friend constexpr iter operator+(difference_type n, iter it) noexcept {
+      return it += n;
+    }
+
+    constexpr reference operator[](difference_type n) const noexcept {
+      return *(*this + n);
+    }
+
+    friend constexpr auto operator<=>(const iter& x, const iter& y) noexcept {
+      return (x - y) <=> 0;
+    }
+
     friend difference_type
     constexpr operator-(const iter& __x, const iter& __y) noexcept
     {
@@ -97,6 +133,7 @@ public:
     using pointer           = const value_type*;
     using iterator_category = std::random_access_iterator_tag;
 
+    constexpr const_iter() = default;
     constexpr const_iter(const value_type* p, value_type* const* ppchunk)
       : m_p(p),      m_ppchunk(ppchunk)      {}
     constexpr const_iter(const iter&     it)
@@ -138,6 +175,41 @@ public:
       return m_p == rhs.m_p;
     }
 
+    constexpr const_iter& operator+=(difference_type n) noexcept
+    {
+      const difference_type offset = (m_p - *m_ppchunk) + n;
+      const difference_type chunks = offset >= 0 ? offset / CHUNK_SIZE
+                                   : -((-offset - 1) / CHUNK_SIZE) - 1;
+      if (chunks != 0)
+        m_ppchunk += chunks;
+      m_p = *m_ppchunk + (offset - chunks * CHUNK_SIZE);
+      return *this;
+    }
+
+    constexpr const_iter& operator-=(difference_type n) noexcept {
+      return *this += -n;
+    }
+
+    constexpr const_iter operator-(difference_type n) const noexcept {
+      const_iter tmp(*this); return tmp -= n;
+    }
+
+    friend constexpr const_iter operator+(const_iter it, difference_type n) noexcept {
+      return it += n;
+    }
+
+    friend constexpr const_iter operator+(difference_type n, const_iter it) noexcept {
+      return it += n;
+    }
+
+    constexpr reference operator[](difference_type n) const noexcept {
+      return *(*this + n);
+    }
+
+    friend constexpr auto operator<=>(const const_iter& x, const const_iter& y) noexcept {
+      return (x - y) <=> 0;
+    }
+
     friend difference_type
     constexpr operator-(const const_iter& __x, const const_iter& __y) noexcept
     {
-- 
2.43.0


From 3eae3811d15b719dfec34fe1080ffcd910d1834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:56 +0000
Subject: [PATCH 35/57] fix: deque ignored the allocator it was given

---
 include/cest/deque.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index f113796..a8f479c 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -222,7 +222,10 @@ public:
     value_type* const* m_ppchunk = nullptr; // address of the vector element
   };
 
-  constexpr deque()
+  constexpr deque() : deque( Allocator() ) {}
+
+  explicit constexpr deque(const Allocator& alloc)
+    : m_alloc(alloc), m_chunks(0, chunks_allocator(alloc))
   {
     add_chunk();
     m_front = CHUNK_SIZE / 2;
@@ -238,7 +241,7 @@ public:
   }
 
   constexpr deque(std::initializer_list<T> init,
-                  const Allocator& alloc = Allocator()) : deque()
+                  const Allocator& alloc = Allocator()) : deque(alloc)
   {
     for (const auto &x : init) { push_back(x); }
   }
@@ -429,13 +432,16 @@ private:
     m_size++;
   }
 
+  using chunks_allocator =
+    typename std::allocator_traits<Allocator>::template rebind_alloc<value_type*>;
+
   allocator_type      m_alloc;
   size_type           m_front;
   size_type           m_back;
   size_type           m_front_chunk;
   size_type           m_back_chunk;
   size_type           m_size;
-  vector<value_type*> m_chunks;
+  vector<value_type*, chunks_allocator> m_chunks;
 };
 
 } // namespace cest
-- 
2.43.0


From b0086e511c37c69f2286dbee3fc8d2e892bbf9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:49 +0000
Subject: [PATCH 36/57] fix: shared_ptr destroyed an object through the
 pointer's type, not the type it was given

---
 include/cest/shared_ptr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 5506f5f..e37db9f 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -105,7 +105,8 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : shared_ptr_base(ptr, def_del<Td>{}) {}
+    : shared_ptr_base(ptr, def_del<std::conditional_t<std::is_array_v<Td>,
+                                                      Y[],Y>>{}) {}
 
   template <class Y, class Deleter>
   constexpr shared_ptr_base(Y* ptr, Deleter del) : ptr_{ptr}
-- 
2.43.0


From 9e6b48ed819b97ea318bc67dc1858a5787cc39c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:24 +0000
Subject: [PATCH 37/57] fix: a negative short printed in base 8 or 16 had the
 digits of an int

---
 include/cest/ostream.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index f5593ce..e401832 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -72,6 +72,12 @@ public:
     return *this;
   }
 
+  // not as an int, which would have more digits in another base
+  constexpr __ostream_type& operator<<(short value)                           {
+    impl::runtime_ostream(*this, value);
+    return *this;
+  }
+
   constexpr __ostream_type& operator<<(int value)                             {
     impl::runtime_ostream(*this, value);
     return *this;
-- 
2.43.0


From 44d35f8109a4d900935c97a706e242c6f8a34bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:35 +0000
Subject: [PATCH 38/57] fix: signed and unsigned characters and their strings
 were printed as numbers and addresses

---
 include/cest/ostream.hpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index e401832..d482960 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -123,6 +123,37 @@ operator<<(basic_ostream<CharT,Traits>& os, const CharT* s)
   return os;
 }
 
+// Signed and unsigned char are characters too, rather than numbers and addresses
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, signed char ch)
+{
+  return os << static_cast<char>(ch);
+}
+
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, unsigned char ch)
+{
+  return os << static_cast<char>(ch);
+}
+
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, const signed char* s)
+{
+  impl::runtime_ostream(os, s);
+  return os;
+}
+
+template <class Traits>
+constexpr basic_ostream<char,Traits>&
+operator<<(basic_ostream<char,Traits>& os, const unsigned char* s)
+{
+  impl::runtime_ostream(os, s);
+  return os;
+}
+
 template <class CharT, class Traits >
 constexpr basic_ostream<CharT,Traits> &
 endl(basic_ostream<CharT, Traits> &os)
-- 
2.43.0


From 202c72faf0e7212037107ef29cb1d649de9fa882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:29 +0000
Subject: [PATCH 39/57] fix: flushing a standard output object left its text in
 the process's buffer

---
 include/cest/ostream.hpp         | 1 +
 include/cest/runtime_ostream.hpp | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index d482960..0026bc4 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -218,6 +218,7 @@ endl(basic_ostream<CharT, Traits> &os)
   { this->_M_setstate(ios_base::badbit); }
       if (__err)
   this->setstate(__err);
+      impl::runtime_flush(*this);
       return *this;
     }
 
diff --git a/include/cest/runtime_ostream.hpp b/include/cest/runtime_ostream.hpp
index 24ea8ea..67b18d9 100644
--- a/include/cest/runtime_ostream.hpp
+++ b/include/cest/runtime_ostream.hpp
@@ -34,6 +34,14 @@ constexpr void runtime_ostream(
   }
 }
 
+template <class CharT, class Traits>
+constexpr void runtime_flush(basic_ostream<CharT,Traits>& os)
+{
+  if constexpr (std::is_same_v<basic_ostream<CharT,Traits>,
+                               basic_ostream<char>>)
+    runtime_ostream(os, std::flush);
+}
+
 } // namespace impl
 
 } // namespace cest
-- 
2.43.0


From f73c92299166bf575840dfe2627b9a1c65cc8a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:54 +0000
Subject: [PATCH 40/57] fix: the error of sine and cosine grew with the
 argument until nothing was right

---
 include/cest/cmath.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index d98c7fe..42dfa74 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -55,6 +55,13 @@ namespace cest {
       return abs(g-x/g) < (tol*g) ? g : sqrt_helper(x,(g+x/g)/2.0);
     }
 
+    // The error of sin_helper grows with x: leave out whole turns. Above the
+    // limit the spacing of the doubles approaches that of the turns.
+    constexpr double sin_reduce(const double x) {
+      const long double turn = 6.283185307179586476925L;
+      return x < 1e15 ? (double)(x - turn * (long long)(x/turn)) : x;
+    }
+
     constexpr double sin_helper(const double x) {
       return x < tol ? x : sin_triple(sin_helper(x/3.0));
     }
@@ -171,7 +178,8 @@ namespace cest {
   }
 
   constexpr double sin(double x) { 
-    return !is_finite(x) ? not_a_number : sin_helper(x < 0 ? -x+CEST_M_PI : x);
+    return !is_finite(x) ? not_a_number :
+           sin_helper(sin_reduce(x < 0 ? -x+CEST_M_PI : x));
   }
 
   constexpr double sinh(double x) {
-- 
2.43.0


From 04b2e96119ee1da27e5d97ee2f019e79accfa581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:51 +0000
Subject: [PATCH 41/57] fix: log10 of a complex did not compile for float and
 long double

---
 include/cest/complex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index 6421100..f117d81 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -793,7 +793,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     log10(const complex<_Tp>& __z)
-    { return cest::log(__z) / log(_Tp(10.0)); }
+    { return cest::log(__z) / _Tp(log(_Tp(10.0))); }
 
   // 26.2.8/10 sin(__z): Returns the sine of __z.
   template<typename _Tp>
-- 
2.43.0


From 99628817dc1d79b972359621eaa6417b381050ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:40 +0000
Subject: [PATCH 42/57] fix: constant list and forward_list iterators could not
 be default constructed

---
 include/cest/forward_list.hpp | 1 +
 include/cest/list.hpp         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index ecc14ba..08bf74d 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -70,6 +70,7 @@ struct forward_list {
     using pointer           = const value_type*;
     using iterator_category = std::forward_iterator_tag;
 
+    constexpr const_iter()                                       {}
     constexpr const_iter(const node_base *n) : m_node(n)         {}
     constexpr const_iter(const iter&     it) : m_node(it.m_node) {}
 
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index c7f9a38..1f1b1cd 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -102,6 +102,7 @@ struct list {
     using pointer           = const value_type*;
     using iterator_category = std::bidirectional_iterator_tag;
 
+    constexpr const_iter()                                       {}
     constexpr const_iter(const node_base *n) : m_node(n)         {}
     constexpr const_iter(const iter&     it) : m_node(it.m_node) {}
     
-- 
2.43.0


From 2fd35f5b1858ffe582e812bc4398c27763ab2638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:40 +0000
Subject: [PATCH 43/57] fix: begin() and end() of a mutable map had different
 types, so no algorithm accepted them

---
 include/cest/map.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 8d5b93f..0367b3e 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -176,9 +176,7 @@ public:
     return *this;
   }
 
-// This seems to exist in cppreference.com; but GCC's std::set doesn't have it,
-// and it results in the iterator's type failing std::weakly_incrementable etc.
-//  constexpr     iterator  begin()       noexcept { return iterator{m_begin}; }
+  constexpr       iterator  begin()       noexcept { return iterator{m_begin}; }
   constexpr const_iterator  begin() const noexcept {
     return const_iterator{m_begin};
   }
-- 
2.43.0


From 0e14ed0c003eedade11b7acc2f2639a61a412c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:03 +0000
Subject: [PATCH 44/57] fix: set and map iterators declared themselves
 bidirectional but could not step back

---
 include/cest/map.hpp | 108 +++++++++++++++++++++++++++++++++++--------
 include/cest/set.hpp |  59 ++++++++++++++++++-----
 2 files changed, 137 insertions(+), 30 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 0367b3e..666616e 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -46,7 +46,8 @@ public:
     using difference_type   = ptrdiff_t;
 
     constexpr tree_iter()                  noexcept                 { }
-    explicit constexpr tree_iter(node *np) noexcept : curr_node(np) { }
+    explicit constexpr tree_iter(node *np, const map *mp = nullptr) noexcept
+      : curr_node(np), owner(mp) { }
 
     constexpr reference operator*()  const { return  curr_node->x; }
     constexpr pointer   operator->() const { return &curr_node->x; }
@@ -74,11 +75,45 @@ public:
 
     constexpr tree_iter      operator++(int) // post-increment
     {
-      tree_iter tmp(curr_node);
+      tree_iter tmp(*this);
       ++(*this);
       return tmp; 
     }
 
+    constexpr tree_iter&     operator--()    // pre-decrement
+    {
+      if (!curr_node) // the end: step back to the last element
+      {
+        curr_node = owner->m_root;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else if (curr_node->l)
+      {
+        curr_node = curr_node->l;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else
+      {
+        node *pn = curr_node->p;
+        while (pn && curr_node == pn->l)
+        {
+          curr_node = pn;
+          pn = pn->p;
+        }
+        curr_node = pn;
+      }
+      return *this;
+    }
+
+    constexpr tree_iter      operator--(int) // post-decrement
+    {
+      tree_iter tmp(*this);
+      --(*this);
+      return tmp; 
+    }
+
     friend constexpr bool operator==(const tree_iter &x, const tree_iter &y) {
       return x.curr_node == y.curr_node;
     }
@@ -87,7 +122,8 @@ public:
       return x.curr_node != y.curr_node;
     }
 
-    node *curr_node = nullptr;
+    node      *curr_node = nullptr;
+    const map *owner     = nullptr; // to step back from the end
   };
 
   struct const_tree_iter
@@ -99,9 +135,10 @@ public:
     using difference_type   = ptrdiff_t;
 
     constexpr const_tree_iter()                  noexcept                 { }
-    explicit constexpr const_tree_iter(node *np) noexcept : curr_node(np) { }
+    explicit constexpr const_tree_iter(node *np, const map *mp = nullptr) noexcept
+      : curr_node(np), owner(mp) { }
     constexpr const_tree_iter(const map::iterator& it)  noexcept
-      : curr_node(it.curr_node) { }
+      : curr_node(it.curr_node), owner(it.owner) { }
 
     constexpr reference operator*()  const { return  curr_node->x; }
     constexpr pointer   operator->() const { return &curr_node->x; }
@@ -129,11 +166,45 @@ public:
 
     constexpr const_tree_iter      operator++(int) // post-increment
     {
-      const_tree_iter tmp(curr_node);
+      const_tree_iter tmp(*this);
       ++(*this);
       return tmp; 
     }
 
+    constexpr const_tree_iter&     operator--()    // pre-decrement
+    {
+      if (!curr_node) // the end: step back to the last element
+      {
+        curr_node = owner->m_root;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else if (curr_node->l)
+      {
+        curr_node = curr_node->l;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else
+      {
+        node *pn = curr_node->p;
+        while (pn && curr_node == pn->l)
+        {
+          curr_node = pn;
+          pn = pn->p;
+        }
+        curr_node = pn;
+      }
+      return *this;
+    }
+
+    constexpr const_tree_iter      operator--(int) // post-decrement
+    {
+      const_tree_iter tmp(*this);
+      --(*this);
+      return tmp; 
+    }
+
     friend constexpr bool operator==(const const_tree_iter &x,
                                      const const_tree_iter &y) {
       return x.curr_node == y.curr_node;
@@ -144,7 +215,8 @@ public:
       return x.curr_node != y.curr_node;
     }
 
-    node *curr_node = nullptr;
+    node      *curr_node = nullptr;
+    const map *owner     = nullptr; // to step back from the end
   };
 
   enum eCol { RED, BLACK };
@@ -176,16 +248,16 @@ public:
     return *this;
   }
 
-  constexpr       iterator  begin()       noexcept { return iterator{m_begin}; }
+  constexpr       iterator  begin()       noexcept { return iterator{m_begin,this}; }
   constexpr const_iterator  begin() const noexcept {
-    return const_iterator{m_begin};
+    return const_iterator{m_begin,this};
   }
   constexpr const_iterator cbegin() const noexcept {
-    return const_iterator{m_begin};
+    return const_iterator{m_begin,this};
   }
-  constexpr       iterator    end()       noexcept { return iterator(); }
-  constexpr const_iterator    end() const noexcept { return const_iterator(); }
-  constexpr const_iterator   cend() const noexcept { return const_iterator(); }
+  constexpr       iterator    end()       noexcept { return iterator(nullptr,this); }
+  constexpr const_iterator    end() const noexcept { return const_iterator(nullptr,this); }
+  constexpr const_iterator   cend() const noexcept { return const_iterator(nullptr,this); }
   constexpr size_type        size() const noexcept { return m_size; }
   [[nodiscard]]
   constexpr bool            empty() const noexcept { return 0==m_size; }
@@ -218,7 +290,7 @@ public:
       else                             {              break; }
     }
 
-    return iterator(n);
+    return iterator(n,this);
   }
 
   constexpr const_iterator find(const Key &key) const {
@@ -231,7 +303,7 @@ public:
       else                             {              break; }
     }
 
-    return const_iterator(n);
+    return const_iterator(n,this);
   }
 
   template <class K>
@@ -245,7 +317,7 @@ public:
       else                             {              break; }
     }
 
-    return iterator(n);
+    return iterator(n,this);
   }
 
   template <class K>
@@ -259,7 +331,7 @@ public:
       else                             {              break; }
     }
 
-    return const_iterator(n);
+    return const_iterator(n,this);
   }
 
   constexpr void rotate_left(node *&n) {
@@ -326,7 +398,7 @@ public:
     ins(m_root,nullptr,ins);
     m_root->c = BLACK; // make_black
 
-    return {iterator(ret_node),added};
+    return {iterator(ret_node,this),added};
   }
 
   node *m_root;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index 184684b..2430b6d 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -69,11 +69,45 @@ public:
 
     constexpr const_tree_iter      operator++(int) // post-increment
     {
-      const_tree_iter tmp{curr_node};
+      const_tree_iter tmp{*this};
       ++(*this);
       return tmp; 
     }
 
+    constexpr const_tree_iter&     operator--()    // pre-decrement
+    {
+      if (!curr_node) // the end: step back to the last element
+      {
+        curr_node = owner->m_root;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else if (curr_node->l)
+      {
+        curr_node = curr_node->l;
+        while (curr_node->r)
+          curr_node = curr_node->r;
+      }
+      else
+      {
+        node *pn = curr_node->p;
+        while (pn && curr_node == pn->l)
+        {
+          curr_node = pn;
+          pn = pn->p;
+        }
+        curr_node = pn;
+      }
+      return *this;
+    }
+
+    constexpr const_tree_iter      operator--(int) // post-decrement
+    {
+      const_tree_iter tmp(*this);
+      --(*this);
+      return tmp; 
+    }
+
     friend constexpr bool operator==(const const_tree_iter &x,
                                      const const_tree_iter &y) {
       return x.curr_node == y.curr_node; // this should work constexpr. Test.
@@ -84,7 +118,8 @@ public:
       return x.curr_node != y.curr_node;
     }
 
-    node *curr_node = nullptr;
+    node      *curr_node = nullptr;
+    const set *owner     = nullptr; // to step back from the end
   };
 
   enum eCol { RED, BLACK };
@@ -120,11 +155,11 @@ public:
 // This seems to exist in cppreference.com; but GCC doesn't have it, and
 // it results in the iterator's type failing std::weakly_incrementable etc.
 //  constexpr     iterator  begin()       noexcept { return {m_begin}; }
-  constexpr const_iterator  begin() const noexcept { return {m_begin}; }
-  constexpr const_iterator cbegin() const noexcept { return {m_begin}; }
-  constexpr       iterator    end()       noexcept { return {nullptr}; }
-  constexpr const_iterator    end() const noexcept { return {nullptr}; }
-  constexpr const_iterator   cend() const noexcept { return {nullptr}; }
+  constexpr const_iterator  begin() const noexcept { return {m_begin,this}; }
+  constexpr const_iterator cbegin() const noexcept { return {m_begin,this}; }
+  constexpr       iterator    end()       noexcept { return {nullptr,this}; }
+  constexpr const_iterator    end() const noexcept { return {nullptr,this}; }
+  constexpr const_iterator   cend() const noexcept { return {nullptr,this}; }
   constexpr size_type        size() const noexcept { return m_size;    }
   [[nodiscard]]
   constexpr bool            empty() const noexcept { return 0==m_size; }
@@ -156,7 +191,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,this};
   }
 
   constexpr const_iterator find(const Key &key) const {
@@ -169,7 +204,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,this};
   }
 
   template <class K>
@@ -183,7 +218,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,this};
   }
 
   template <class K>
@@ -197,7 +232,7 @@ public:
       else                       {              break; }
     }
 
-    return {n};
+    return {n,this};
   }
 
   constexpr void rotate_left(node *&n) {
@@ -264,7 +299,7 @@ public:
     ins(m_root,nullptr,ins);
     m_root->c = BLACK; // make_black
 
-    return {iterator{ret_node},added};
+    return {iterator{ret_node,this},added};
   }
 //  std::pair<iterator,bool> insert( value_type&& value );
 
-- 
2.43.0


From 247ec51c005616cdf36213442792589a9f406901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:07 +0000
Subject: [PATCH 45/57] fix: self-assignment of a string was rejected in
 constant expressions

---
 include/cest/string.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index ff345ce..a23d77c 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -283,6 +283,13 @@ private:
       m_alloc.deallocate(m_p, m_capacity+1);
       m_p = p;
       m_capacity = cap;
+    } else if (std::is_constant_evaluated()) {
+      // where move isn't possible between identical addresses; and s, if it is
+      // in this string, isn't before m_p
+      for (size_type i = 0; i < count; i++) {
+        const CharT ch = s[i];
+        traits_type::assign(m_p[i], ch);
+      }
     } else {
       traits_type::move(m_p, s, count);
     }
-- 
2.43.0


From dd9999d462b8f13ab3b0d7bad1eb90d7cb00c01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:55 +0000
Subject: [PATCH 46/57] fix: using ostream.hpp, string.hpp or sstream.hpp
 without iostream.hpp did not link

---
 include/cest/iostream.hpp |  6 ------
 include/cest/ostream.hpp  | 13 +++++++++++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/cest/iostream.hpp b/include/cest/iostream.hpp
index acd24b3..e57f562 100644
--- a/include/cest/iostream.hpp
+++ b/include/cest/iostream.hpp
@@ -8,15 +8,9 @@
 namespace cest {
 
 namespace impl {
-  inline basic_stringbuf cout(string("cout"));
-  inline basic_stringbuf cerr(string("cerr"));
-  inline basic_stringbuf clog(string("clog"));
   inline basic_stringbuf cin(string("cin"));
 }
 
-inline ostream cout(&impl::cout);
-inline ostream cerr(&impl::cerr);
-inline ostream clog(&impl::clog);
 inline istream cin(&impl::cin);
 
 using iostream  = basic_iostream<char>;
diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 0026bc4..87067f1 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -254,6 +254,19 @@ endl(basic_ostream<CharT, Traits> &os)
   return *this;
       }
 
+namespace impl {
+  // Insertions go to the process's streams: these buffers hold no text
+  struct out_streambuf : basic_streambuf<char> {};
+  inline out_streambuf cout;
+  inline out_streambuf cerr;
+  inline out_streambuf clog;
+}
+
+// Defined here, as insertion compares its stream with them
+inline ostream cout(&impl::cout);
+inline ostream cerr(&impl::cerr);
+inline ostream clog(&impl::clog);
+
 } // namespace cest
 
 #endif // _CEST_OSTREAM_HPP_
-- 
2.43.0


From a5bc303ce59fcae409f7acb399ab21088551e0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:26 +0000
Subject: [PATCH 47/57] fix: str() of the string streams called a string buffer
 function that did not exist

---
 include/cest/sstream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cest/sstream.hpp b/include/cest/sstream.hpp
index 4809b3e..8dd0f85 100644
--- a/include/cest/sstream.hpp
+++ b/include/cest/sstream.hpp
@@ -51,6 +51,8 @@ public:
     _M_string(__str.data(), __str.size(), __str.get_allocator())
   { _M_stringbuf_init(__mode); }
 
+  constexpr __string_type str() const { return _M_string; }
+
   constexpr void str(const __string_type& __s)
   {
     _M_string = __s;
-- 
2.43.0


From 6360f920ed07808876495a3428ca1d8bb37955d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:26 +0000
Subject: [PATCH 48/57] fix: a comparison that throws during insertion left the
 element in the set or map

The comparison with the first element was made after the new node had been
linked, so an exception left a node which the size did not count, in a tree
that had not been balanced.
---
 include/cest/map.hpp | 4 +++-
 include/cest/set.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 666616e..054f845 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -352,6 +352,8 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
+        // before the tree changes, as the comparison may throw
+        const bool first = !m_begin || m_comp(value.first,m_begin->x.first);
         ret_node = m_node_alloc.allocate(1);
         try {
           std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
@@ -360,7 +362,7 @@ public:
           throw;
         }
         n = ret_node;
-        m_begin = (!m_begin || m_comp(value.first,m_begin->x.first)) ? n : m_begin;
+        m_begin = first ? n : m_begin;
         added = true;
         m_size++;
         return;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index 2430b6d..7463782 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -253,6 +253,8 @@ public:
     node *ret_node = nullptr; // node added; or the one that prevents insertion
     auto ins = [this,&added,&value,&ret_node](node *&n, node *p, auto &ins_rec) {
       if (!n) {
+        // before the tree changes, as the comparison may throw
+        const bool first = !m_begin || m_comp(value,m_begin->x);
         ret_node = m_node_alloc.allocate(1);
         try {
           std::construct_at(ret_node,value,nullptr,nullptr,p,RED);
@@ -261,7 +263,7 @@ public:
           throw;
         }
         n = ret_node;
-        m_begin = (!m_begin || m_comp(value,m_begin->x)) ? n : m_begin;
+        m_begin = first ? n : m_begin;
         added = true;
         m_size++;
         return;
-- 
2.43.0


From 67c2a4d9aa14f0b4738f8188f234e66be565c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:51 +0000
Subject: [PATCH 49/57] fix: appending to a string again and again took time
 and requests that grew with its square

---
 include/cest/string.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index a23d77c..ae816a7 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -199,15 +199,16 @@ public:
         traits_type::copy(this->data() + this->size(), s, count);
     }
     else {
-      value_type *p = m_alloc.allocate(len+1);
-      for (size_type i = 0; i < len+1; i++)
+      const size_type cap = std::max(len, m_capacity * 2);
+      value_type *p = m_alloc.allocate(cap+1); // +1 for the null terminator
+      for (size_type i = 0; i < cap+1; i++)
         std::construct_at(&p[i]);
       traits_type::copy(p, m_p, m_size);
       traits_type::copy(p + m_size, s, count);
       m_alloc.deallocate(m_p, m_capacity+1);
       m_p = p;
       m_size = len;
-      m_capacity = len;
+      m_capacity = cap;
     }
 
     traits_type::assign(this->data()[m_size = len], CharT());
-- 
2.43.0


From b6f599c5c3817c5691669261c6b29873b805f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:09 +0000
Subject: [PATCH 50/57] fix: a queue or deque that elements pass through kept
 storage for all that had ever passed

---
 include/cest/deque.hpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index a8f479c..14ebb0d 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -392,6 +392,12 @@ private:
     }
   }
 
+  // Of the chunks without elements at one end, how many move to the other end
+  // when that one is full; half, so pushes at both ends don't return them often
+  static constexpr size_type unused(size_type chunks) noexcept {
+    return chunks - chunks / 2;
+  }
+
   // In both helpers the new element is constructed before the cursors move, so
   // that an exception leaves the contents as they were.
 
@@ -400,10 +406,15 @@ private:
   {
     if (m_front == 0 && m_front_chunk == 0)
     {
-      add_chunk();
-      std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + 1, m_chunks.rend());
-      ++m_front_chunk;
-      ++m_back_chunk;
+      size_type n = unused(m_chunks.size() - 1 - end_chunk());
+      if (n == 0)
+      {
+        add_chunk();
+        n = 1;
+      }
+      std::rotate(m_chunks.rbegin(), m_chunks.rbegin() + n, m_chunks.rend());
+      m_front_chunk += n;
+      m_back_chunk  += n;
     }
 
     const size_type chunk  = m_front == 0 ? m_front_chunk - 1 : m_front_chunk;
@@ -418,13 +429,19 @@ private:
   template <class U>
   constexpr void push_back_helper(U&& value)
   {
-    const size_type chunk  = end_chunk();
-    const size_type offset = end_offset();
-
     // keep the slot after the new element in an allocated chunk too
-    if (offset == CHUNK_SIZE - 1 && chunk == m_chunks.size() - 1)
-      add_chunk();
+    if (end_offset() == CHUNK_SIZE - 1 && end_chunk() == m_chunks.size() - 1)
+    {
+      const size_type n = unused(m_front_chunk);
+      if (n == 0)
+        add_chunk();
+      std::rotate(m_chunks.begin(), m_chunks.begin() + n, m_chunks.end());
+      m_front_chunk -= n;
+      m_back_chunk  -= n;
+    }
 
+    const size_type chunk  = end_chunk();
+    const size_type offset = end_offset();
     std::construct_at(&m_chunks[chunk][offset], std::forward<U>(value));
 
     m_back_chunk = chunk;
-- 
2.43.0


From 2099aab5de1bf43ee31a95cf24d63c9147cf97a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:21 +0000
Subject: [PATCH 51/57] fix: reserve of the largest size wrote past a string's
 storage instead of failing

---
 include/cest/string.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index ae816a7..982ec81 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -8,6 +8,7 @@
 #include <memory>      // std::allocator
 #include <iterator>    // std::reverse_iterator
 #include <limits>      // std::numeric_limits
+#include <stdexcept>   // std::length_error
 #include <type_traits> // std::is_same_v
 
 namespace cest {
@@ -236,6 +237,8 @@ public:
   {
     if (new_cap > m_capacity)
     {
+      if (new_cap >= std::allocator_traits<Allocator>::max_size(m_alloc))
+        throw std::length_error("error: too many characters in string::reserve");
       value_type *p = m_alloc.allocate(new_cap+1); // for the null terminator
       for (size_type i = 0; i < new_cap+1; i++)
         std::construct_at(&p[i]);
-- 
2.43.0


From 4aeefb717f55058fb3db48cb6f62fea547fca86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:23 +0000
Subject: [PATCH 52/57] fix: fprintf releases its buffer when the output throws

---
 include/cest/cstdio.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index cf2f0c4..d8f29de 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -52,7 +52,12 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
 
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
-    (*stream) << string(psz, nbytes);
+    try {
+      (*stream) << string(psz, nbytes);
+    } catch (...) {
+      delete [] psz;
+      throw;
+    }
     delete [] psz;
     return nbytes;
   }
-- 
2.43.0


From f40392079285061b028613470f09e7dc5a496a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 53/57] fix: vector erase moves elements that cannot be copied

---
 include/cest/vector.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index fa58d6e..b7d9f71 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -5,6 +5,8 @@
 #include <cstddef>
 #include <algorithm>
 #include <initializer_list>
+#include <type_traits>
+#include <utility>   // std::move
 
 namespace cest {
 
@@ -202,9 +204,17 @@ public:
 
   constexpr iterator erase(iterator first, iterator last)
   {
+    if (first == last)
+      return first;
+
     iterator it1 = first, it2 = last;
     for (; it2 != end(); it2++) {
-      *it1++ = *it2;
+      // as std::move_if_noexcept does, but for assignment
+      if constexpr (std::is_nothrow_move_assignable_v<T> ||
+                   !std::is_copy_assignable_v<T>)
+        *it1++ = std::move(*it2);
+      else
+        *it1++ = *it2;
     }
     const auto num_to_erase = last - first;
     std::destroy_n(end() - num_to_erase, num_to_erase);
-- 
2.43.0


From 4b6517264151e79767cf5440e7d8a41ed94379c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:20 +0000
Subject: [PATCH 54/57] fix: containers find their elements without the
 elements' own operator&

---
 include/cest/deque.hpp        | 22 +++++++++++-----------
 include/cest/forward_list.hpp |  8 ++++----
 include/cest/list.hpp         |  8 ++++----
 include/cest/set.hpp          |  2 +-
 include/cest/vector.hpp       | 22 +++++++++++-----------
 5 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 14ebb0d..4aa8565 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -266,7 +266,7 @@ public:
   constexpr void clear() noexcept
   {
     for (size_type i = 0; i < size(); ++i)
-      std::destroy_n(&(*this)[i], 1);
+      std::destroy_n(std::addressof((*this)[i]), 1);
 
     m_front = CHUNK_SIZE / 2;
     m_back  = CHUNK_SIZE / 2 - 1;
@@ -297,7 +297,7 @@ public:
   constexpr void pop_back()
   {
     if (!empty()) {
-      std::destroy_n(&m_chunks[m_back_chunk][m_back], 1);
+      std::destroy_n(m_chunks[m_back_chunk] + m_back, 1);
       if (m_back == 0) {
         m_back = CHUNK_SIZE - 1;
         --m_back_chunk;
@@ -311,7 +311,7 @@ public:
   constexpr void pop_front()
   {
     if (!empty()) {
-      std::destroy_n(&m_chunks[m_front_chunk][m_front], 1);
+      std::destroy_n(m_chunks[m_front_chunk] + m_front, 1);
       if (m_front == CHUNK_SIZE - 1) {
         m_front = 0;
         ++m_front_chunk;
@@ -323,25 +323,25 @@ public:
   }
 
   constexpr       iterator  begin()       noexcept {
-    return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
+    return {m_chunks[m_front_chunk] + m_front, &m_chunks[m_front_chunk]};
   }
   constexpr const_iterator  begin() const noexcept {
-    return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
+    return {m_chunks[m_front_chunk] + m_front, &m_chunks[m_front_chunk]};
   }
   constexpr const_iterator cbegin() const noexcept {
-    return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
+    return {m_chunks[m_front_chunk] + m_front, &m_chunks[m_front_chunk]};
   }
   constexpr iterator          end()       noexcept {
     const size_type chunk = end_chunk();
-    return {&m_chunks[chunk][end_offset()], &m_chunks[chunk]};
+    return {m_chunks[chunk] + end_offset(), &m_chunks[chunk]};
   }
   constexpr const_iterator    end() const noexcept {
     const size_type chunk = end_chunk();
-    return {&m_chunks[chunk][end_offset()], &m_chunks[chunk]};
+    return {m_chunks[chunk] + end_offset(), &m_chunks[chunk]};
   }
   constexpr const_iterator   cend() const noexcept {
     const size_type chunk = end_chunk();
-    return {&m_chunks[chunk][end_offset()], &m_chunks[chunk]};
+    return {m_chunks[chunk] + end_offset(), &m_chunks[chunk]};
   }
   constexpr reference       front() {
     return m_chunks[m_front_chunk][m_front];
@@ -419,7 +419,7 @@ private:
 
     const size_type chunk  = m_front == 0 ? m_front_chunk - 1 : m_front_chunk;
     const size_type offset = m_front == 0 ? CHUNK_SIZE    - 1 : m_front - 1;
-    std::construct_at(&m_chunks[chunk][offset], std::forward<U>(value));
+    std::construct_at(m_chunks[chunk] + offset, std::forward<U>(value));
 
     m_front_chunk = chunk;
     m_front       = offset;
@@ -442,7 +442,7 @@ private:
 
     const size_type chunk  = end_chunk();
     const size_type offset = end_offset();
-    std::construct_at(&m_chunks[chunk][offset], std::forward<U>(value));
+    std::construct_at(m_chunks[chunk] + offset, std::forward<U>(value));
 
     m_back_chunk = chunk;
     m_back       = offset;
diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 08bf74d..49781e9 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -44,7 +44,7 @@ struct forward_list {
     }
 
     constexpr pointer   operator->()          const noexcept {
-      return &static_cast<node*>(m_node)->value;
+      return std::addressof(static_cast<node*>(m_node)->value);
     }
 
     constexpr auto&     operator++()                noexcept { // pre-incr
@@ -79,7 +79,7 @@ struct forward_list {
     }
 
     constexpr pointer   operator->()                const noexcept {
-      return &static_cast<const node*>(m_node)->value;
+      return std::addressof(static_cast<const node*>(m_node)->value);
     }
 
     constexpr auto&     operator++()                      noexcept {
@@ -178,7 +178,7 @@ struct forward_list {
     while (curr != l) {
       node* tmp  = curr;
       curr = static_cast<node*>(curr->next);
-      std::destroy_at(&tmp->value);
+      std::destroy_at(std::addressof(tmp->value));
       m_node_alloc.deallocate(tmp, 1);
     }
 
@@ -192,7 +192,7 @@ struct forward_list {
     node*   curr = static_cast<node*>(p->next);
 
     p->next = curr->next;
-    std::destroy_at(&curr->value);
+    std::destroy_at(std::addressof(curr->value));
     m_node_alloc.deallocate(curr, 1);
 
     return {p->next};
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 1f1b1cd..80a7386 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -68,7 +68,7 @@ struct list {
     }
 
     constexpr pointer   operator->()          const noexcept {
-      return &static_cast<node*>(m_node)->value;
+      return std::addressof(static_cast<node*>(m_node)->value);
     }
 
     constexpr auto&     operator++()                noexcept { // pre-incr
@@ -111,7 +111,7 @@ struct list {
     }
 
     constexpr pointer   operator->()                const noexcept {
-      return &static_cast<const node*>(m_node)->value;
+      return std::addressof(static_cast<const node*>(m_node)->value);
     }
 
     constexpr auto&     operator++()                      noexcept {
@@ -194,7 +194,7 @@ struct list {
     while (curr != &m_node) {
       node* tmp = static_cast<node*>(curr);
       curr = curr->next;
-      std::destroy_at(&tmp->value);
+      std::destroy_at(std::addressof(tmp->value));
       m_node_alloc.deallocate(tmp, 1);
     }
     
@@ -280,7 +280,7 @@ struct list {
     p->m_unhook();
 
     node* tmp = static_cast<node*>(p);
-    std::destroy_at(&tmp->value);
+    std::destroy_at(std::addressof(tmp->value));
     m_node_alloc.deallocate(tmp, 1);
 
     return ret;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index 7463782..2e5e09f 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -44,7 +44,7 @@ public:
     using iterator_category = std::bidirectional_iterator_tag;
 
     constexpr reference operator*()  const { return  curr_node->x; }
-    constexpr pointer   operator->() const { return &curr_node->x; }
+    constexpr pointer   operator->() const { return std::addressof(curr_node->x); }
 
     constexpr const_tree_iter&     operator++()    // pre-increment
     {
diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index b7d9f71..090911c 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -45,7 +45,7 @@ public:
   {
     reserve(other.capacity());
     for (; m_size < other.size(); m_size++)
-      std::construct_at(&m_p[m_size], other.m_p[m_size]);
+      std::construct_at(m_p + m_size, other.m_p[m_size]);
   }
 
   constexpr vector(vector&& other) : vector()
@@ -90,11 +90,11 @@ public:
       for (; i < m_size; i++)
         m_p[i] = other.m_p[i];
       for (; i < other.size(); i++, m_size++)
-        std::construct_at(&m_p[i], other.m_p[i]);
+        std::construct_at(m_p + i, other.m_p[i]);
     } else {
       for (; i < other.size(); i++)
         m_p[i] = other.m_p[i];
-      std::destroy_n(&m_p[i], m_size - other.size());
+      std::destroy_n(m_p + i, m_size - other.size());
     }
 
     m_size = other.size();
@@ -125,9 +125,9 @@ public:
     {
       reserve(count);
       for (; m_size < count; m_size++)
-        std::construct_at(&m_p[m_size]);
+        std::construct_at(m_p + m_size);
     } else if (count < m_size) {
-      std::destroy_n(&m_p[count], m_size-count);
+      std::destroy_n(m_p + count, m_size-count);
       m_size = count;
     }
   }
@@ -157,7 +157,7 @@ public:
   constexpr const_reverse_iterator
   rend()   const noexcept { return const_reverse_iterator(begin()); }
 
-  constexpr void pop_back() { std::destroy_n(&m_p[--m_size],1); }
+  constexpr void pop_back() { std::destroy_n(m_p + --m_size,1); }
 
   constexpr reference at(size_type pos) {
     if (pos >= m_size) {
@@ -187,7 +187,7 @@ public:
     if (m_capacity == m_size) {
       grow_and_push_back(value);
     } else {
-      std::construct_at(&m_p[m_size],value);
+      std::construct_at(m_p + m_size,value);
       m_size++;
     }
   }
@@ -197,7 +197,7 @@ public:
     if (m_capacity == m_size) {
       grow_and_push_back(std::forward<T>(value));
     } else {
-      std::construct_at(&m_p[m_size],std::forward<T>(value));
+      std::construct_at(m_p + m_size,std::forward<T>(value));
       m_size++;
     }
   }
@@ -230,7 +230,7 @@ private:
     size_type i = 0;
     try {
       for (; i < m_size; i++)
-        std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+        std::construct_at(p + i, std::move_if_noexcept(m_p[i]));
     } catch (...) {
       std::destroy_n(p, i);
       throw;
@@ -251,12 +251,12 @@ private:
     value_type *p = m_alloc.allocate(new_cap);
     bool constructed = false;
     try {
-      std::construct_at(&p[m_size],std::forward<U>(value));
+      std::construct_at(p + m_size,std::forward<U>(value));
       constructed = true;
       relocate(p, new_cap);
     } catch (...) {
       if (constructed)
-        std::destroy_at(&p[m_size]);
+        std::destroy_at(p + m_size);
       m_alloc.deallocate(p, new_cap);
       throw;
     }
-- 
2.43.0


From c26a40b763e8b90c14a9937ef63f766c0bb39a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:06 +0000
Subject: [PATCH 55/57] fix: vector copies its elements from constant ones

---
 include/cest/vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index 090911c..9dc5925 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -45,7 +45,7 @@ public:
   {
     reserve(other.capacity());
     for (; m_size < other.size(); m_size++)
-      std::construct_at(m_p + m_size, other.m_p[m_size]);
+      std::construct_at(m_p + m_size, other[m_size]);
   }
 
   constexpr vector(vector&& other) : vector()
@@ -88,12 +88,12 @@ public:
     size_type i = 0;
     if (other.size() >= m_size) {
       for (; i < m_size; i++)
-        m_p[i] = other.m_p[i];
+        m_p[i] = other[i];
       for (; i < other.size(); i++, m_size++)
-        std::construct_at(m_p + i, other.m_p[i]);
+        std::construct_at(m_p + i, other[i]);
     } else {
       for (; i < other.size(); i++)
-        m_p[i] = other.m_p[i];
+        m_p[i] = other[i];
       std::destroy_n(m_p + i, m_size - other.size());
     }
 
@@ -214,7 +214,7 @@ public:
                    !std::is_copy_assignable_v<T>)
         *it1++ = std::move(*it2);
       else
-        *it1++ = *it2;
+        *it1++ = std::as_const(*it2);
     }
     const auto num_to_erase = last - first;
     std::destroy_n(end() - num_to_erase, num_to_erase);
-- 
2.43.0


From 95e8f4566d8aa072def779c7003d68544692b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:45 +0000
Subject: [PATCH 56/57] fix: set and map nodes take their value by reference

---
 include/cest/map.hpp | 2 +-
 include/cest/set.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 054f845..5c850d8 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -222,7 +222,7 @@ public:
   enum eCol { RED, BLACK };
 
   struct node {
-    constexpr node(value_type x, node* l, node* r, node* p, eCol c)
+    constexpr node(const value_type& x, node* l, node* r, node* p, eCol c)
       : x(x), l(l), r(r), p(p), c(c) {}
     value_type x;
     node      *l, *r, *p;
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index 2e5e09f..c50d6b5 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -125,7 +125,7 @@ public:
   enum eCol { RED, BLACK };
 
   struct node {
-    constexpr node(value_type x, node* l, node* r, node* p, eCol c)
+    constexpr node(const value_type& x, node* l, node* r, node* p, eCol c)
       : x(x), l(l), r(r), p(p), c(c) {}
     value_type x;
     node      *l, *r, *p;
-- 
2.43.0


From 295091cccd77c631e9a4625f9327361ce8b167bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:23 +0000
Subject: [PATCH 57/57] fix: classifying a character needs no storage

isalnum and isupper built a string for every call, and so threw bad_alloc
when there was none to be had.
---
 include/cest/cctype.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cest/cctype.hpp b/include/cest/cctype.hpp
index e94efa8..8ff0339 100644
--- a/include/cest/cctype.hpp
+++ b/include/cest/cctype.hpp
@@ -3,20 +3,22 @@
 
 #include "cest/string.hpp"
 #include <algorithm>
+#include <string_view>
 
 namespace cest {
 
 // returns 8 (non-zero) on a successful find; as do libstdc++ and libc++
 constexpr int isalnum(int ch) {
-  string str("0123456789"
-             "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
-             "abcdefghijklmnopqrstuvwxyz"); // a raw string array includes \0
+  std::string_view str("0123456789"
+                       "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
+                       "abcdefghijklmnopqrstuvwxyz"); // unlike a raw string
+                                                      // array, without \0
   return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 8 : 0;
 }
 
 // returns 256 (non-zero) on a successful find; as do libstdc++ and libc++
 constexpr int isupper(int ch) {
-  string str("ABCDEFGHIJKLMNOPQRSTUVWXYZ");
+  std::string_view str("ABCDEFGHIJKLMNOPQRSTUVWXYZ");
   return std::find(str.cbegin(), str.cend(), ch) != str.cend() ? 256 : 0;
 }
 
-- 
2.43.0

