From 7799ce7b490957739e7635fa313eb07768067344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:23 +0000
Subject: [PATCH 01/42] fix: leave a moved-from String or Array empty in every
 build

The moved-from object lost its buffer but kept its length, offset and
cached hash unless CPPUNIT_VERSION was defined, so using it dereferenced
a null buffer.
---
 src/ReferenceCountedArray.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1c512bd..01c7d41 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -443,11 +443,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       Ref(rca.Ref), offset(rca.offset),
       sublen(rca.sublen), my_hash(rca.my_hash) {
       rca.Ref = nullptr;
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
     }
   public:
     /**
@@ -549,11 +547,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       my_hash = rca.my_hash;
       Ref = rca.Ref;
 
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
       rca.Ref = nullptr;
 
       return *this;
-- 
2.43.0


From 1604303850adeea07e03599819ec31cffe7e2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:45 +0000
Subject: [PATCH 02/42] fix: do not use or leak a shared buffer after giving up
 the reference

COW() copied from the old buffer after decrementing its reference count,
and doDetach() ignored the count reaching zero. When another thread drops
its reference in between, that is a use after free or a leak.
---
 src/ReferenceCountedArray.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 01c7d41..312af28 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -254,10 +254,12 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     /**
      * @brief Detach from the shared reference.
      * This is only called when losing the old buffer or when modifying the buffer (and copy-on-write is used)
-     * @note This does not free the old reference, as it is still in use
+     * @note This frees the old reference if nobody else uses it anymore
      */
     void doDetach() const noexcept {
-      decRef();
+      /* The other owners may be gone by now */
+      if (decRef() < 1)
+        delete Ref;
       Ref = nullptr;
       sublen = 0;
       offset = 0;
@@ -381,14 +383,15 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * Also take a hint size n of the new ReferenceCountedArray's size as to avoid needless copying/allocing.
      */
     inline void COW(size_t n) const {
-      const_pointer oldBuf = constBuf();
+      /* Keeps the shared buffer alive while it is being copied */
+      const ReferenceCountedArray old(*this);
       const size_t oldLength = length();
 
       assert(isShared());
       doDetach(); //Detach from the shared reference
       reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
       sublen = std::min(oldLength, n);
-      std::copy(oldBuf, oldBuf + sublen, Buf());
+      std::copy(old.cbegin(), old.cbegin() + sublen, Buf());
     }
 
   protected:
-- 
2.43.0


From 2bcc6f85fd6c432e9cfe878f240135fc10dbcd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:14 +0000
Subject: [PATCH 03/42] fix: reserve() must not modify shared contents or its
 own last character

reserve() on a shared buffer reallocated or shifted it under the other
owners, String::reserve() wrote a NUL at the end of the buffer even when
shared or in use, and overflowed for npos.
---
 src/ReferenceCountedArray.h | 4 ++++
 src/String.h                | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 312af28..eb0a217 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -606,6 +606,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         double scaling_factor = 1) const {
       if (!Ref) {
         Ref = new ArrayRef<value_type, Allocator>(alloc);
+      } else if (isShared() && capacity() - offset < newSize) {
+        /* The shared buffer must be left alone */
+        COW(newSize);
+        return;
       }
       Ref->reserve(newSize, scaling_factor, offset, sublen);
     }
diff --git a/src/String.h b/src/String.h
index 762f842..a797b45 100755
--- a/src/String.h
+++ b/src/String.h
@@ -136,9 +136,10 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
         void reserve(const size_t newSize,
             double scaling_factor = 1) const override {
-          const size_t realSize = newSize > 0 ? newSize + 1 : newSize;
+          const size_t realSize = newSize > 0 && newSize < npos ? newSize + 1 : newSize;
           ReferenceCountedArray::reserve(realSize, scaling_factor);
-          if (constBuf() != nullptr) {
+          if (constBuf() != nullptr && !isShared() &&
+              offset + length() < capacity()) {
             *Buf(capacity() - offset - 1) = '\0';
           }
         }
-- 
2.43.0


From a096dbd90558c1b41e8fa759cb2fa14b8329c156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:53 +0000
Subject: [PATCH 04/42] fix: inserting a longer array at 0 must not drop the
 old contents

---
 src/ReferenceCountedArray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index eb0a217..17b57ae 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1068,8 +1068,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We're empty, just replace ours with a reference of theirs */
+      if (pos == 0 && isEmpty() && n == slen) {
         *this = rca;
         return;
       }
@@ -1096,8 +1096,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length()) {
+      /* We're empty, just replace ours with a reference of theirs */
+      if (pos == 0 && isEmpty()) {
         *this = rca;
         return;
       }
@@ -1123,8 +1123,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We're empty, just move theirs */
+      if (pos == 0 && isEmpty() && n == slen) {
         *this = std::move(rca);
         return;
       }
@@ -1151,8 +1151,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length()) {
+      /* We're empty, just move theirs */
+      if (pos == 0 && isEmpty()) {
         *this = std::move(rca);
         return;
       }
-- 
2.43.0


From 523aa398f65765a08fae36e4f8ba52213b33196c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:46 +0000
Subject: [PATCH 05/42] fix: inserting an array into itself, or replacing part
 of it with itself

---
 src/ReferenceCountedArray.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 17b57ae..09932b0 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1063,6 +1063,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void insert(size_t pos, const ReferenceCountedArray& rca, size_t n) {
       if (n == 0) return;
+      if (&rca == this) {
+        /* Our buffer is about to move, insert from a reference of it */
+        insert(pos, ReferenceCountedArray(rca), n);
+        return;
+      }
       if (pos != 0)
         validateIndex(pos - 1);
 
@@ -1091,6 +1096,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post The buffer contains all items from rca inserted at index pos.
      */
     void insert(size_t pos, const ReferenceCountedArray& rca) {
+      if (&rca == this) {
+        /* Our buffer is about to move, insert from a reference of it */
+        insert(pos, ReferenceCountedArray(rca));
+        return;
+      }
       if (pos != 0)
         validateIndex(pos - 1);
 
@@ -1243,6 +1253,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void replace(size_t pos, const ReferenceCountedArray& rca, size_t n = npos) {
       if (n == 0) return;
+      if (&rca == this) {
+        /* Our buffer is about to be overwritten, copy from a reference of it */
+        replace(pos, ReferenceCountedArray(rca), n);
+        return;
+      }
       if (pos != 0)
         validateIndex(pos - 1);
 
-- 
2.43.0


From dbb4543341db8c3b9f39872b4cbb5509faf4ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 06/42] fix: writing, inserting or replacing with a reference
 to an own element

The reference dangled, or referred to another element, once the buffer
was reallocated or shifted. replace() one past the end also wrote without
making sure that there is room.
---
 src/ReferenceCountedArray.h | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 09932b0..09e0966 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -845,12 +845,13 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @brief Write an item to the given index
      */
     inline void write(size_t pos, const_reference item) {
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      write(pos, value_type(item));
     };
     inline void write(size_t pos, value_type&& item) {
+      /* The item may be in our buffer, which may be moved */
+      value_type temp(std::move(item));
       getOwnCopy();
-      *(Buf(pos)) = std::move(item);
+      *(Buf(pos)) = std::move(temp);
     };
 
     /**
@@ -1185,14 +1186,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void insert(size_t pos, const_reference item)
     {
-      if (pos != 0)
-        validateIndex(pos - 1);
-
-      AboutToModify(length() + 1);
-      /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + 1));
-      *(Buf(pos)) = item;
-      ++sublen;
+      insert(pos, value_type(item));
     }
 
     /**
@@ -1208,10 +1202,12 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
+      /* The item may be in our buffer, which may be moved */
+      value_type temp(std::move(item));
       AboutToModify(length() + 1);
       /* Shift right */
       std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + 1));
-      *(Buf(pos)) = std::move(item);
+      *(Buf(pos)) = std::move(temp);
       ++sublen;
     }
 
@@ -1223,11 +1219,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post COW is done if needed.
      */
     void replace(size_t pos, const_reference item) {
-      if (pos != 0)
-        validateIndex(pos - 1);
-
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      replace(pos, value_type(item));
     }
 
     /**
@@ -1241,8 +1233,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
-      getOwnCopy();
-      *(Buf(pos)) = std::move(item);
+      /* The item may be in our buffer, which may be moved */
+      value_type temp(std::move(item));
+      AboutToModify(std::max(length(), pos + 1));
+      *(Buf(pos)) = std::move(temp);
     }
 
     /**
-- 
2.43.0


From 65af1768cc12089af07407a461916927b63dff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:47 +0000
Subject: [PATCH 07/42] fix: String::insert and replace with a cstring from the
 own buffer

---
 src/String.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/String.cpp b/src/String.cpp
index bb4ca5c..5289527 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -122,6 +122,11 @@ void String::insert(size_t pos, const char *string, size_t n)
   
   const auto slen = (n == npos) ? std::strlen(string) : n;
 
+  /* Keep the string in place if it is in our own buffer */
+  String own;
+  if (string >= real_begin() && string < real_begin() + capacity())
+    own = *this;
+
   AboutToModify(length() + slen);
   /* Shift right */
   std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + slen));
@@ -146,6 +151,11 @@ void String::replace(size_t pos, const char *string, size_t n)
 
   if (newlen < length())
     newlen = length();
+  /* Keep the string in place if it is in our own buffer */
+  String own;
+  if (string >= real_begin() && string < real_begin() + capacity())
+    own = *this;
+
   AboutToModify(newlen);
   sublen = newlen;
   ::memcpy(Buf(pos), string, slen);
-- 
2.43.0


From c5c1b13d468355476ffafe9f0c7f283ba0d3a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:15 +0000
Subject: [PATCH 08/42] fix: slice() with extreme lengths

A negative length reaching before the start gave a huge length, start +
len could overflow and long arrays were truncated to int.
---
 src/ReferenceCountedArray.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 09e0966..d53e3bb 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -958,9 +958,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * The returned slice is a reference to the original array until modified.
      */
     void slice(ssize_t start, ssize_t len = -1) noexcept {
-      if (len == -1) len = int(length()) - start;
+      if (len == -1) len = length();
       // Start is after the end, set us to an empty array
-      if (start >= static_cast<signed>(length())) {
+      if (start >= static_cast<ssize_t>(length())) {
         offset = length();
         setLength(0);
         return;
@@ -975,11 +975,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       offset += start;
       //If the length of the subarray exceeds the end of the array, truncate to the end of the array
-      if (start + len >= static_cast<signed>(length()))
+      if (len >= static_cast<ssize_t>(length()) - start)
         len = length() - start;
       // If the length is negative, stop from counting backwards from the end
       else if (len < 0)
-        len = length() - start + len;
+        len = std::max<ssize_t>(static_cast<ssize_t>(length()) - start + len, 0);
       setLength(len);
     }
 
-- 
2.43.0


From 297a0634dfc801b9eae9fc687622575b95592e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:39 +0000
Subject: [PATCH 09/42] fix: resize() constructed over live elements, leaking
 them

---
 src/ReferenceCountedArray.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index d53e3bb..1484015 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -650,14 +650,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         setLength(len);
       } else {
         AboutToModify(len);
-        /*
-         * Use constructing for objects but allow memset
-         * for simple types via std::fill.
-         */
-        if __CPP17_IFCONSTEXPR (std::is_class<T>::value)
-          std::uninitialized_fill(Buf(length()), Buf(len), value);
-        else
-          std::fill(Buf(length()), Buf(len), value);
+        /* Every element in the buffer is already constructed */
+        std::fill(Buf(length()), Buf(len), value);
         sublen = len;
       }
     }
-- 
2.43.0


From 33a6efe6cc05b08b01c187975ade1150d3a4afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:09 +0000
Subject: [PATCH 10/42] fix: c_str() read past the end of a full buffer

---
 src/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index a797b45..650d94b 100755
--- a/src/String.h
+++ b/src/String.h
@@ -235,7 +235,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             return "";
           assert(constBuf() != nullptr);
           assert(length() > 0);
-          if (*constBuf(length()) != '\0') {
+          if (offset + length() >= capacity() || *constBuf(length()) != '\0') {
             assert(sublen > 0);
             AboutToModify(length() + 1);
             *(Buf(length())) = '\0';
-- 
2.43.0


From 1e2055d6c4252a29b781c82c901899fc29da87b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:35 +0000
Subject: [PATCH 11/42] fix: references for writing must not refer to shared
 elements

front(), back() and read() gave out writable references into a buffer
that other objects may share, and shift() && and pop() && moved the
element out of it.
---
 src/Array.h                 | 10 +++++-----
 src/ReferenceCountedArray.h | 11 +++++------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 2dfb472..4e6231e 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -117,8 +117,7 @@ class Array : public ReferenceCountedArray<T> {
 
     inline value_type shift() && noexcept {
       assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(*(this->Buf(0)));
+      return static_cast<Array&>(*this).shift();
     }
 
     /**
@@ -127,15 +126,16 @@ class Array : public ReferenceCountedArray<T> {
      */
     inline value_type pop() & {
       assert(!this->isEmpty());
-      value_type temp(this->isShared() ? this->back() : std::move(this->back()));
+      pointer item{this->Buf(this->length() - 1)};
+
+      value_type temp(this->isShared() ? *item : std::move(*item));
       this->pop_back();
       return temp;
     }
 
     inline value_type pop() && noexcept {
       assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(this->back());
+      return static_cast<Array&>(*this).pop();
     }
 
     /**
diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1484015..f46419c 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -828,9 +828,6 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @sa at()
      * Unlike at() this is unchecked.
      */
-    inline reference read(size_t pos) noexcept __attribute__((pure)) {
-      return *(Buf(pos));
-    };
     inline const_reference read(size_t pos) const noexcept __attribute__((pure)) {
       return *(constBuf(pos));
     };
@@ -890,7 +887,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
          */
         inline reference mget(void) {
           rca.getOwnCopy();
-          return rca.read(start);
+          return *(rca.Buf(start));
         }
 
         /*
@@ -989,7 +986,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     inline void push_back(const_reference item) { append(item); };
     inline void push_back(value_type&& item) { append(std::move(item)); };
 
-    inline reference front() noexcept __attribute__((pure)) {
+    inline reference front() {
+      getOwnCopy();
       return *Buf(0);
     }
 
@@ -997,7 +995,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       return *constBuf(0);
     }
 
-    inline reference back() noexcept __attribute__((pure)) {
+    inline reference back() {
+      getOwnCopy();
       return *Buf(length() - 1);
     }
 
-- 
2.43.0


From 8b7d7719b4f4a0d302622b72153c95da202e3504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:00 +0000
Subject: [PATCH 12/42] fix: Array(const_pointer) and Array += Array&& did not
 compile

---
 src/Array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 4e6231e..2e1f6aa 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -74,8 +74,8 @@ class Array : public ReferenceCountedArray<T> {
       if (carray == nullptr || *carray == '\0')
         return;
       while (*carray != '\0') {
-        reserve(ReferenceCountedArray<T>::sublen + 1, 4);
-        *(Buf(ReferenceCountedArray<T>::sublen++)) = *carray++;
+        this->reserve(ReferenceCountedArray<T>::sublen + 1, 4);
+        *(this->Buf(ReferenceCountedArray<T>::sublen++)) = *carray++;
       }
     };
 
@@ -320,7 +320,7 @@ class Array : public ReferenceCountedArray<T> {
     }
 
     inline Array& operator+=(Array&& array) & {
-      append(std::move(array));
+      this->append(std::move(array));
       return *this;
     }
 
-- 
2.43.0


From d25f60c18db0ad7d31086690dc2fd4ffd56ca1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:28 +0000
Subject: [PATCH 13/42] fix: joining empty strings by an empty delimiter tried
 to allocate npos bytes

---
 src/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index 2e1f6aa..7af3fc5 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -155,7 +155,7 @@ class Array : public ReferenceCountedArray<T> {
       size_t str_size = 0, i;
 
       // Preallocate a fully sized String to avoid frequent resizing
-      str_size += (this->length() * delim.length()) - 1;
+      str_size += (this->length() - 1) * delim.length();
       if (quoted)
 	str_size += this->length() * 2;
       for (i = 0; i < this->length(); ++i)
-- 
2.43.0


From d9755658fda6e46b564967f219a346564c34932a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:53 +0000
Subject: [PATCH 14/42] fix: Array += and -= truncated the length to int

---
 src/Array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 7af3fc5..880e999 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -327,7 +327,7 @@ class Array : public ReferenceCountedArray<T> {
     inline Array& operator+=(const int n) & {
       if (!this->length())
         return *this;
-      if (int(this->length()) - n < 0) {
+      if (size_t(n) > this->length()) {
         this->offset = this->length();
         this->setLength(0);
       } else {
@@ -340,7 +340,7 @@ class Array : public ReferenceCountedArray<T> {
     inline Array& operator-=(const int n) & {
       if (!this->length())
         return *this;
-      if (int(this->length()) - n < 0) {
+      if (size_t(n) > this->length()) {
         this->offset = this->length();
         this->setLength(0);
       } else
-- 
2.43.0


From 59e200ce5613c686ead87c076af2862971bfde72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:45 +0000
Subject: [PATCH 15/42] fix: ++ on an Array of int was ambiguous and did not
 compile

---
 src/Array.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index 880e999..9339140 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -263,7 +263,11 @@ class Array : public ReferenceCountedArray<T> {
      * @brief Prefix increment
      */
     inline const Array& operator++() & noexcept {
-      return (*this) += 1;
+      if (this->length()) {
+        ++(this->offset);
+        this->subLength(1);
+      }
+      return *this;
     }
 
     /**
-- 
2.43.0


From eb6d48dadcd2cec85e2b63e50a7cd2772292b178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:48 +0000
Subject: [PATCH 16/42] fix: compare() read past the end of a cstring and
 truncated lengths to int

---
 src/String.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 5289527..14cf455 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -52,7 +52,7 @@ int String::compare(const String& str) const noexcept
   if (diff)
     return diff;
   else
-    return mylen - slen;
+    return (mylen > slen) - (mylen < slen);
 }
 
 int String::compare(const String& str, size_t n) const noexcept
@@ -69,15 +69,15 @@ int String::compare(const String& str, size_t n) const noexcept
   const auto diff = std::memcmp(cbegin(), str.cbegin(), len);
   if (diff)
     return diff;
-  else if (n)
-    return std::min(mylen, n) - slen;
   else
-    return mylen - slen;
+    return (std::min(mylen, n) > slen) - (std::min(mylen, n) < slen);
 }
 
 int String::compare(const char* str) const noexcept
 {
   for (size_t pos = 0; pos < length(); ++pos) {
+    if (*str == '\0')
+      return 1;
     if (*constBuf(pos) != *str++)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
   }
@@ -89,6 +89,8 @@ int String::compare(const char* str, size_t n) const noexcept
   if (n == 0)
     return 0;
   for (size_t pos = 0; pos < length(); ++pos) {
+    if (*str == '\0')
+      return 1;
     if (*constBuf(pos) != *str++ || --n == 0)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
   }
-- 
2.43.0


From 446049f588b34f821384cc2484cc7e674629a987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:51 +0000
Subject: [PATCH 17/42] fix: String::printf() read past its buffer for long or
 failed output

---
 src/String.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 14cf455..04e1a77 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -262,7 +262,18 @@ String String::printf(const char* format, ...) {
   const auto len = vsnprintf(va_out, sizeof(va_out), format, va);
   va_end(va);
 
-  return String(va_out, len);
+  if (len < 0)
+    return String();
+  if (static_cast<size_t>(len) < sizeof(va_out))
+    return String(va_out, len);
+
+  /* Too long for the local buffer */
+  String out;
+  out.resize(len);
+  va_start(va, format);
+  vsnprintf(out.Buf(), static_cast<size_t>(len) + 1, format, va);
+  va_end(va);
+  return out;
 }
 
 String& String::chomp() noexcept {
-- 
2.43.0


From ae33dc446e5ad6db629536022f007fc12339dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 18/42] fix: split(), sub() and subst() by an empty string
 never ended

---
 src/String.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 04e1a77..92295ac 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -223,7 +223,7 @@ Array<String> String::split(const String& delim, size_t limit) const {
     // All done when there's nothing left
     if (it >= cend()) break;
 
-    if ((pos = _find(delim, it - cbegin())) == npos)
+    if (!delim.length() || (pos = _find(delim, it - cbegin())) == npos)
       pos = cend() - it;
     array << (*this)(it - cbegin(), pos);
     assert(++ref);
@@ -340,6 +340,7 @@ size_t String::rfind(const String& str, const size_t lpos) const noexcept {
 }
 
 String String::sub(const String& search, const String& replacement, int limit) const {
+  if (!search.length()) return *this;
   String newStr(length()), search_str(*this);
   size_type pos = 0;
   auto cnt = 0;
-- 
2.43.0


From 146fd49be0a944f3b17d085f9f4804c480fbb7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:58 +0000
Subject: [PATCH 19/42] fix: rifind() ignored lpos

---
 src/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 92295ac..3dcc466 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -323,7 +323,7 @@ size_t String::rifind(const String& str, const size_t lpos) const {
   String str_upper(str.length()), this_upper(length());
   std::transform(str.cbegin(), str.cend(), std::back_inserter(str_upper), ::toupper);
   std::transform(this->cbegin(), this->cend(), std::back_inserter(this_upper), ::toupper);
-  return this_upper.rfind(str_upper);
+  return this_upper.rfind(str_upper, lpos);
 }
 
 size_t String::rfind(const String& str, const size_t lpos) const noexcept {
-- 
2.43.0


From 9c4ac44e070ded8ecc3419b41eb3362ff6a15166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:01 +0000
Subject: [PATCH 20/42] fix: find() from a position without memmem()

It stopped too early, read past the end and returned a position counted
from the beginning instead of from the given position.
---
 src/String.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 3dcc466..6f8a83e 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -302,11 +302,11 @@ size_t String::_find(const String& str, size_t pos) const noexcept {
   return static_cast<const char*>(p) - constBuf(pos);
 #else
   if (mylen >= str.length()) {
-    const auto last_pos = mylen - str.length();
+    const auto last_pos = length() - str.length();
     for (auto i = pos; i <= last_pos; ++i)
       if (str[0] == (*this)[i] && !std::memcmp(cbegin() + i, str.cbegin(),
-            std::min(str.length(), mylen - i)))
-        return i;
+            str.length()))
+        return i - pos;
   }
   return npos;
 #endif
-- 
2.43.0


From ebe6c4790e385de98d766c4083c2045d0f8f700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:04 +0000
Subject: [PATCH 21/42] fix: toupper() and isspace() are undefined for negative
 characters

---
 src/String.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 6f8a83e..86f48eb 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -174,9 +174,9 @@ std::istream& operator>>(std::istream& is, String& string) {
     {
       string += ch;
       is.get(ch);
-    } while (!is.fail() && !isspace(ch));
+    } while (!is.fail() && !isspace(static_cast<unsigned char>(ch)));
 
-    if (isspace(ch))    // put whitespace back on the stream
+    if (isspace(static_cast<unsigned char>(ch)))    // put whitespace back on the stream
     {
       is.putback(ch);
     }
@@ -284,9 +284,9 @@ String& String::chomp() noexcept {
 
 String& String::trim() noexcept {
   // ltrim
-  while (length() && isspace((*this)[0])) { ++offset; subLength(1); }
+  while (length() && isspace(static_cast<unsigned char>((*this)[0]))) { ++offset; subLength(1); }
   // rtrim
-  while (length() && isspace((*this)[length() - 1])) subLength(1);
+  while (length() && isspace(static_cast<unsigned char>((*this)[length() - 1]))) subLength(1);
   return *this;
 }
 
@@ -312,17 +312,21 @@ size_t String::_find(const String& str, size_t pos) const noexcept {
 #endif
 }
 
+static char upcase(unsigned char ch) {
+  return ::toupper(ch);
+}
+
 size_t String::ifind(const String& str) const {
   String str_upper(str.length()), this_upper(length());
-  std::transform(str.cbegin(), str.cend(), std::back_inserter(str_upper), ::toupper);
-  std::transform(this->cbegin(), this->cend(), std::back_inserter(this_upper), ::toupper);
+  std::transform(str.cbegin(), str.cend(), std::back_inserter(str_upper), upcase);
+  std::transform(this->cbegin(), this->cend(), std::back_inserter(this_upper), upcase);
   return this_upper.find(str_upper);
 }
 
 size_t String::rifind(const String& str, const size_t lpos) const {
   String str_upper(str.length()), this_upper(length());
-  std::transform(str.cbegin(), str.cend(), std::back_inserter(str_upper), ::toupper);
-  std::transform(this->cbegin(), this->cend(), std::back_inserter(this_upper), ::toupper);
+  std::transform(str.cbegin(), str.cend(), std::back_inserter(str_upper), upcase);
+  std::transform(this->cbegin(), this->cend(), std::back_inserter(this_upper), upcase);
   return this_upper.rfind(str_upper, lpos);
 }
 
-- 
2.43.0


From 104d6afd3d6ad5421f3289a20b0e677a2b2165f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:00 +0000
Subject: [PATCH 22/42] fix: reading from a Stream positioned past its contents
 underflowed

---
 src/Stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 58a750c..9bfbbf8 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -72,7 +72,7 @@ int Stream::seek(int offset, int whence) {
 }
 
 String Stream::read(size_t maxSize, char delim) {
-  size_t toRead = std::min(maxSize, length() - pos);
+  size_t toRead = pos < length() ? std::min(maxSize, length() - pos) : 0;
 
   /* No need to split the string, return a substring */
   if (!delim) {
-- 
2.43.0


From ad0452b654c9caa6d126b1af02d17800416bf6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:02 +0000
Subject: [PATCH 23/42] fix: a delimited Stream read returned more than the
 requested size

---
 src/Stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 9bfbbf8..1120b06 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -87,7 +87,7 @@ String Stream::read(size_t maxSize, char delim) {
   while ((ret.length() < toRead) && (str[pos] != delim)) {
     ret += str[pos++];
   }
-  if (str.size() > pos && str[pos] == delim) {
+  if (ret.length() < toRead && str[pos] == delim) {
     ret += delim;
     ++pos;
   }
-- 
2.43.0


From 7e9eaa155421c8bf92b28e9801a9d683ea8ef34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:09 +0000
Subject: [PATCH 24/42] fix: leave a moved-from Stream at position 0; move
 assignment was ambiguous

---
 src/Stream.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Stream.h b/src/Stream.h
index 779a13e..c09d431 100644
--- a/src/Stream.h
+++ b/src/Stream.h
@@ -55,7 +55,11 @@ class Stream {
   public:
         Stream() noexcept = default;
         Stream(const Stream& stream) noexcept = default;
-        Stream(Stream&& stream) noexcept = default;
+        Stream(Stream&& stream) noexcept : str(std::move(stream.str)),
+            pos(stream.pos), loading(stream.loading) {
+          stream.pos = 0;
+          stream.loading = false;
+        }
         Stream(const int newSize) {
           if (newSize > 0) reserve(newSize);
         }
@@ -77,8 +81,6 @@ class Stream {
           return *this;
         }
 
-        Stream& operator=(Stream&& stream) & noexcept = default;
-
         void reserve(const size_t) const;
 
         /**
-- 
2.43.0


From 996e0737b7f4c9c48cf53ac186b0c9a4c9b581e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:11 +0000
Subject: [PATCH 25/42] fix: loading an empty file failed

---
 src/Stream.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 1120b06..6a2b5b1 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -113,6 +113,10 @@ int Stream::loadFile(const int fd)
   if (size < 0) {
     return 1;
   }
+  /* mmap() refuses an empty mapping */
+  if (size == 0) {
+    return 0;
+  }
   reserve(size);
   void* map = mmap(0, size, PROT_READ, MAP_PRIVATE, fd, 0);
   if (map == MAP_FAILED) {
-- 
2.43.0


From 4687e9d6ae4833cb72a8b02fce18252f2ae04144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:13 +0000
Subject: [PATCH 26/42] fix: Stream file I/O ignored failures and leaked the
 mapping if puts() throws

---
 src/Stream.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 6a2b5b1..ec723e0 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -122,11 +122,11 @@ int Stream::loadFile(const int fd)
   if (map == MAP_FAILED) {
     return 1;
   }
+  String content(static_cast<const char*>(map), size);
+  munmap(map, size);
   loading = 1;
 
-  puts(String(static_cast<const char*>(map), size));
-
-  munmap(map, size);
+  puts(std::move(content));
 #else
   int my_fd = dup(fd);
   if (my_fd == -1) {
@@ -150,6 +150,11 @@ int Stream::loadFile(const int fd)
   while ((len = fread(buf, 1, sizeof(buf) - 1, f))) {
     puts(String(buf, len));
   }
+  if (ferror(f)) {
+    fclose(f);
+    loading = 0;
+    return 1;
+  }
   fclose(f);
 #endif
   seek(0, SEEK_SET);
@@ -163,7 +168,8 @@ int Stream::writeFile(const String& file, mode_t mode) const
   if (fd == -1)
     return 1;
   int ret = writeFile(fd);
-  close(fd);
+  if (close(fd) != 0)
+    ret = 1;
   return ret;
 }
 
@@ -198,7 +204,7 @@ int Stream::writeFile(const int fd) const
     fclose(f);
     return 1;
   }
-  fclose(f);
+  if (fclose(f)) return 1;
 #endif
   return 0;
 }
-- 
2.43.0


From 466145b6684f842f50e4ce336df7e9c65927d57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:36 +0000
Subject: [PATCH 27/42] fix: reopening an AtomicFile leaked the descriptor and
 the temporary file

---
 src/AtomicFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index e675837..f22f489 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -38,6 +38,9 @@ bool AtomicFile::open(const String& fname, mode_t mode) {
   size_t slash_pos;
   String dir;
 
+  /* Clean up after an earlier file that was not committed */
+  abort();
+
   _fname = fname;
   _mode = mode;
 
-- 
2.43.0


From 712b7be296dea984a49f1c524f2b59332d3ba8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:38 +0000
Subject: [PATCH 28/42] fix: AtomicFile::commit() leaked the descriptor on
 failure

and made system calls on -1 and removed an unrelated name when nothing
was open.
---
 src/AtomicFile.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index f22f489..508184f 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -78,7 +78,11 @@ bool AtomicFile::abort() {
 
 bool AtomicFile::commit() {
   bool result, remove_temp;
+  int fd;
 
+  if (!is_open()) {
+    return false;
+  }
   result = false;
   remove_temp = true;
   if (_mode != mode_t(-1) && fchmod(_fd, _mode) != 0) {
@@ -87,7 +91,9 @@ bool AtomicFile::commit() {
   if (::fsync(_fd) != 0) {
     goto cleanup;
   }
-  if (::close(_fd) != 0) {
+  fd = _fd;
+  _fd = -1;
+  if (::close(fd) != 0) {
     goto cleanup;
   }
   if (std::rename(_tmpname.c_str(), _fname.c_str()) != 0) {
@@ -101,6 +107,9 @@ cleanup:
   if (remove_temp) {
     ::unlink(_tmpname.c_str());
   }
+  if (is_open()) {
+    ::close(_fd);
+  }
   _fd = -1;
   return result;
 }
-- 
2.43.0


From 1a34fc554c15f0ff673dce231fc908d25bd5b3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:43 +0000
Subject: [PATCH 29/42] fix: copying an AtomicFile closed the descriptor and
 removed the file twice

---
 src/AtomicFile.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/AtomicFile.h b/src/AtomicFile.h
index 7391db8..7d0c865 100644
--- a/src/AtomicFile.h
+++ b/src/AtomicFile.h
@@ -43,6 +43,11 @@ class AtomicFile {
     int _fd = -1;
     mode_t _mode = -1;
   public:
+    AtomicFile() = default;
+    /* The descriptor and temporary file have one owner */
+    AtomicFile(const AtomicFile&) = delete;
+    AtomicFile& operator=(const AtomicFile&) = delete;
+
     /**
      * @brief Calling the destructor will abort the file if it has not already been written.
      * @sa abort
-- 
2.43.0


From 95d423cb0c1c5c0bf1e38f12ec2e269b9a1596ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:45 +0000
Subject: [PATCH 30/42] fix: b64dec_buf() read past the input when its length
 is no multiple of 4

---
 src/base64.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/base64.cpp b/src/base64.cpp
index f1d1d5d..b261f2a 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -128,8 +128,17 @@ void b64dec_buf(const unsigned char *data, size_t *len, char *dest, const char*
     charset_index = b64_indexes;
   }
 
+  size_t left = *len;
+  unsigned char last[NUM_ENCODED_BYTES];
+
   /* Convert the encoded base64 character back into our base255 ASCII character */
   while (blocks > 0) {
+    /* Pad an incomplete last block */
+    if (left < NUM_ENCODED_BYTES) {
+      memset(last, PADDING_CHAR, sizeof(last));
+      memcpy(last, data, left);
+      data = last;
+    }
     /* buf[0] is the 6 bits from data[0] + left-most 2 bits of data[1] */
     *buf++ = (charset_index[data[0]] << 2) + ((charset_index[data[1]] & 0x30) >> 4);  /* 0x30 not required but to be clear. */
     if (data[2] != PADDING_CHAR) {
@@ -141,6 +150,7 @@ void b64dec_buf(const unsigned char *data, size_t *len, char *dest, const char*
       }
     }
     data += NUM_ENCODED_BYTES;
+    left -= NUM_ENCODED_BYTES;
     --blocks;
   }
 
-- 
2.43.0


From 6d24fcd0ddeb087c66578235e3b57c0aefd00c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:47 +0000
Subject: [PATCH 31/42] fix: b64dec() wrote before its table for charset
 characters above 127

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index b261f2a..b58c431 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -166,7 +166,7 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
     char charset_index[256];
     memset(charset_index, -1, sizeof(charset_index));
     for (size_t i = 0; i < 64; ++i)
-      charset_index[int(charset[i])] = i;
+      charset_index[static_cast<unsigned char>(charset[i])] = i;
     b64dec_buf(data, len, dest, charset_index);
   }  else
     b64dec_buf(data, len, dest);
-- 
2.43.0


From d41373f6957e7c1d3cab54b991bcbd96fac82303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:48 +0000
Subject: [PATCH 32/42] fix: strlcat() read one byte past a full destination

---
 src/Cstrings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cstrings.cpp b/src/Cstrings.cpp
index a768dfe..18dba8d 100644
--- a/src/Cstrings.cpp
+++ b/src/Cstrings.cpp
@@ -75,7 +75,7 @@ strlcat(char *dst, const char *src, size_t siz)
   size_t dlen;
 
   /* Find the end of dst and adjust bytes left but don't go past end */
-  while (*d != '\0' && n-- != 0)
+  while (n-- != 0 && *d != '\0')
     d++;
   dlen = d - dst;
   n = siz - dlen;
-- 
2.43.0


From 08b1093cfda625239e5b4d0f037e7361362e9e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:09 +0000
Subject: [PATCH 33/42] fix: assigning an initializer list to a HashTable did
 not compile

---
 src/HashTable.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/HashTable.h b/src/HashTable.h
index 9bd6788..750fb20 100644
--- a/src/HashTable.h
+++ b/src/HashTable.h
@@ -116,9 +116,7 @@ class HashTable {
      * @param list An initializer_list
      */
     HashTable& operator=(std::initializer_list<value_type> list) & {
-      for (const auto& item : list) {
-        (*this)[item.key()] = item.value();
-      }
+      map = list;
       return *this;
     }
 
-- 
2.43.0


From 7c52420a667fac2d54a500ec5ec2b48778f704fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:33 +0000
Subject: [PATCH 34/42] fix: converting script numbers to C integers

uint64_t conversion returned 0 for every number, and numbers between
2^63 and 2^64 (and their negatives) wrapped around into the range.
---
 src/ScriptInterpTCL.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 5e1c6ca..5ccfa2d 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -179,9 +179,20 @@ const char* tcl_to_c_cast<const char*>::from(Tcl_Obj* obj, ScriptInterp* si) {
   return tcl_to_c_cast<char*>::from(obj, si);
 }
 
+/**
+ * @brief Get an integer of the range of long
+ * Tcl also accepts the range of unsigned long and wraps it around.
+ */
+static bool getLong(Tcl_Obj* obj, long& v) {
+  double d = 0;
+  return Tcl_GetLongFromObj(0, obj, &v) == TCL_OK &&
+    Tcl_GetDoubleFromObj(0, obj, &d) == TCL_OK &&
+    (v < 0) == (d < 0);
+}
+
 int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < INT8_MIN || v > INT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -195,7 +206,7 @@ int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < 0 || v > UINT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -209,7 +220,7 @@ uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < INT16_MIN || v > INT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -223,7 +234,7 @@ int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < 0 || v > UINT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -237,7 +248,7 @@ uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < INT32_MIN || v > INT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -251,7 +262,7 @@ int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < 0 || v > UINT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -265,7 +276,7 @@ uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK) {
+  if (!getLong(obj, v)) {
     return 0;
     //return "Type Error";
   }
@@ -274,7 +285,10 @@ int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint64_t tcl_to_c_cast<uint64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  double d = 0;
+  /* Values above LONG_MAX wrap around */
+  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK ||
+      Tcl_GetDoubleFromObj(0, obj, &d) != TCL_OK || d < 0) {
     return 0;
     //return "Type Error";
   }
-- 
2.43.0


From afd046647280d45ffe4164a16fbc137f3f8fb8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:42 +0000
Subject: [PATCH 35/42] fix: large unsigned values reached scripts as negative
 numbers

---
 src/ScriptInterpTCL.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 9c4e15e..fd4fae8 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -393,7 +393,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int8_t&>::from(const int8_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint8_t&>::from(const uint8_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int8_t&>::from(value, interp);
+  return c_to_tcl_cast<const int16_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
@@ -403,7 +403,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint16_t&>::from(const uint16_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int16_t&>::from(value, interp);
+  return c_to_tcl_cast<const int32_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
@@ -413,16 +413,19 @@ inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint32_t&>::from(const uint32_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int32_t&>::from(value, interp);
+  return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
     Tcl_Interp* interp) {
-  return Tcl_NewLongObj(value);
+  return Tcl_NewWideIntObj(value);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const uint64_t&>::from(const uint64_t& value,
     Tcl_Interp* interp) {
+  if (value > uint64_t(INT64_MAX))
+    return c_to_tcl_cast<const String&>::from(String::printf("%llu",
+          static_cast<unsigned long long>(value)), interp);
   return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
-- 
2.43.0


From cf0b7879658827b20195d4f53109fdb1c532a19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:04 +0000
Subject: [PATCH 36/42] fix: calling a command by a qualified or changed name
 crashed

The handler was looked up by the name used in the call, in a table shared
by all interpreters, and a null handler was used if it was not found.
---
 src/ScriptInterpTCL.cpp |  5 +++--
 src/ScriptInterpTCL.h   | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 5ccfa2d..61f4586 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,7 +10,6 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::ScriptCmdPtr>ScriptInterpTCL::CmdHandlerData;
 std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
 
 int ScriptInterpTCL::init() {
@@ -66,7 +65,9 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
     ClientData clientData, Tcl_Interp *interp, int objc,
     Tcl_Obj *CONST objv[]) {
   String cmdName(tcl_to_c_cast<String>::from(objv[0], nullptr));
-  ScriptCmdPtr ccd = CmdHandlerData[cmdName];
+  auto cmd = static_cast<ScriptCmdTCL*>(clientData);
+  ScriptCmdPtr ccd = static_cast<ScriptInterpTCL*>(cmd->si)->
+    CmdHandlerData[cmd->cmdName];
 
   if ((size_t(objc) - 1) < ccd->callbackParamMin ||
       size_t(objc) - 1 > ccd->callbackParamMax) {
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index fd4fae8..d79ddb1 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -139,15 +139,21 @@ class ScriptInterpTCL : public ScriptInterp {
       Tcl_Obj* obj, ScriptInterp* si);
   private:
         Tcl_Interp *interp;
-        static std::unordered_map<String, ScriptCmdPtr>
+        std::unordered_map<String, ScriptCmdPtr>
           CmdHandlerData;
 
         ScriptInterpTCL(const ScriptInterpTCL&) = delete;
         ScriptInterpTCL& operator=(const ScriptInterpTCL&) = delete;
 
         struct ScriptCmdTCL : public ScriptCmd {
+          Tcl_Command token = nullptr;
+
           static int _createCommand_callback(ClientData clientData,
               Tcl_Interp *interp, int objc, Tcl_Obj *CONST objv[]);
+          /* The interp (or a script) deleted the command */
+          static void _deleteCommand_callback(ClientData clientData) {
+            static_cast<ScriptCmdTCL*>(clientData)->registered = false;
+          }
 
           ScriptCmdTCL(const ScriptCmdTCL&) = delete;
           ScriptCmdTCL& operator=(const ScriptCmdTCL&) = delete;
@@ -163,15 +169,16 @@ class ScriptInterpTCL : public ScriptInterp {
           virtual void registerCmd() {
             if (registered)
               return;
-            Tcl_CreateObjCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName, _createCommand_callback, nullptr, nullptr);
+            token = Tcl_CreateObjCommand(
+                static_cast<ScriptInterpTCL*>(si)->interp, *cmdName,
+                _createCommand_callback, this, _deleteCommand_callback);
             ScriptCmd::registerCmd();
           }
           virtual void unregisterCmd() {
             if (!registered)
               return;
-            Tcl_DeleteCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName);
+            Tcl_DeleteCommandFromToken(
+                static_cast<ScriptInterpTCL*>(si)->interp, token);
             ScriptCmd::unregisterCmd();
           }
         };
-- 
2.43.0


From 451755874e4ab4b590bfd7d9a078cf2a6e83f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:32 +0000
Subject: [PATCH 37/42] fix: a command deleted while it runs could be called
 again

---
 src/ScriptInterpTCL.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index d79ddb1..e23a17e 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -317,7 +317,12 @@ class ScriptInterpTCL : public ScriptInterp {
         }
 
         virtual void deleteCommand(const String& cmdName) {
-          CmdHandlerData.erase(cmdName);
+          const auto cmd = CmdHandlerData.find(cmdName);
+          if (cmd == std::end(CmdHandlerData))
+            return;
+          /* It may be running */
+          cmd->second->unregisterCmd();
+          CmdHandlerData.erase(cmd);
         }
 
         /* Variable linking */
-- 
2.43.0


From c100ba42dd7dcacd531b800b00113da11a3d4cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:36 +0000
Subject: [PATCH 38/42] fix: linked Strings were cut off at a NUL when read by
 a script

---
 src/ScriptInterpTCL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 61f4586..eee3256 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -114,8 +114,8 @@ const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
 const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
     char *name1, char *name2, int flags) {
   if (value) {
-    Tcl_SetVar2(interp,name1,name2,
-        tcl_to_c_cast<const char*>::from(value, nullptr), flags);
+    Tcl_IncrRefCount(value);
+    Tcl_SetVar2Ex(interp, name1, name2, value, flags);
     Tcl_DecrRefCount(value);
   }
   return nullptr;
-- 
2.43.0


From fe5d2ca5325cd3c47afe8929773a4212ff304873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:45 +0000
Subject: [PATCH 39/42] fix: writing a linked C string read past the end of the
 script value

---
 src/ScriptInterpTCL.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index e23a17e..6692b69 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -268,11 +268,12 @@ class ScriptInterpTCL : public ScriptInterp {
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
 
-          memmove(data->ptr, tcl_to_c_cast<T>::from(obj, nullptr),
-              data->size);
-          if __CPP17_IFCONSTEXPR (std::is_same<T, char*>::value ||
-              std::is_same<T, const char*>::value)
-            static_cast<T>(data->ptr)[data->size - 1] = '\0';
+          if (data->size > 0) {
+            const auto value(tcl_to_c_cast<String>::from(obj, nullptr));
+            const auto len = value.copy(static_cast<T>(data->ptr),
+                data->size - 1);
+            static_cast<T>(data->ptr)[len] = '\0';
+          }
           if (link_var_hook != std::end(link_var_hooks))
             link_var_hook->second(
                 (const void*)(oldval.get()), (const void*)(data->ptr));
-- 
2.43.0


From e8fb53acf31632f7d88fd4f23300361ea01c4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:48 +0000
Subject: [PATCH 40/42] fix: linking a variable again left traces to the
 released record

Converting a list without an interpreter also dereferenced null.
---
 src/ScriptInterpTCL.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index eee3256..639cd11 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -98,6 +98,8 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
 
 void ScriptInterpTCL::setupTraces(const String& varName, ClientData var,
     Tcl_VarTraceProc* get, Tcl_VarTraceProc* set, link_var_hook_t hook_func) {
+  /* Remove the traces of an earlier link */
+  unlinkVar(varName);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get, var);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set, var);
@@ -334,7 +336,8 @@ Array<String> tcl_to_c_cast<Array<String>>::from(Tcl_Obj* obj,
   Tcl_Obj** objv;
 
   // FIXME: Exception
-  if (Tcl_ListObjGetElements((reinterpret_cast<ScriptInterpTCL*>(si))->interp,
+  if (Tcl_ListObjGetElements(
+        si ? (reinterpret_cast<ScriptInterpTCL*>(si))->interp : nullptr,
         obj, &objc, &objv) != TCL_OK)
     return Array<String>();
 
@@ -352,7 +355,8 @@ Array<Array<String>> tcl_to_c_cast<Array<Array<String>>>::from(Tcl_Obj* obj,
   Tcl_Obj** objv;
 
   // FIXME: Exception
-  if (Tcl_ListObjGetElements((reinterpret_cast<ScriptInterpTCL*>(si))->interp,
+  if (Tcl_ListObjGetElements(
+        si ? (reinterpret_cast<ScriptInterpTCL*>(si))->interp : nullptr,
         obj, &objc, &objv) != TCL_OK)
     return Array<Array<String>>();
 
-- 
2.43.0


From e18c80b529290d589dfb9f2f92f77a4df1355d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:29 +0000
Subject: [PATCH 41/42] fix: the hook of a linked variable was found by the
 name used in the script

A qualified name missed it, and interpreters with variables of the same
name called each other's hooks. Keep it with the link.
---
 src/ScriptInterpTCL.cpp | 12 +++++-----
 src/ScriptInterpTCL.h   | 51 ++++++++++++++++-------------------------
 2 files changed, 26 insertions(+), 37 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 639cd11..539b510 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,8 +10,6 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
-
 int ScriptInterpTCL::init() {
   // create interp
   interp = Tcl_CreateInterp();
@@ -96,15 +94,17 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
   return TCL_OK;
 }
 
-void ScriptInterpTCL::setupTraces(const String& varName, ClientData var,
-    Tcl_VarTraceProc* get, Tcl_VarTraceProc* set, link_var_hook_t hook_func) {
+void ScriptInterpTCL::setupTraces(const String& varName, void* ptr,
+    size_t size, Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
+    link_var_hook_t hook_func) {
   /* Remove the traces of an earlier link */
   unlinkVar(varName);
+  auto data = std::make_unique<trace_ptr_data>(ptr, size, hook_func);
+  ClientData var = data.get();
+  trace_ptrs[varName] = std::move(data);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get, var);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set, var);
-  if (hook_func != nullptr)
-    link_var_hooks[varName] = hook_func;
 }
 
 const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 6692b69..9f4dc59 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -197,13 +197,15 @@ class ScriptInterpTCL : public ScriptInterp {
         struct trace_ptr_data {
           void* ptr;
           size_t size;
-          trace_ptr_data(void* _ptr, size_t _size) : ptr(_ptr), size(_size) {};
+          link_var_hook_t hook;
+          trace_ptr_data(void* _ptr, size_t _size, link_var_hook_t _hook) :
+            ptr(_ptr), size(_size), hook(_hook) {};
           trace_ptr_data(const trace_ptr_data&) = delete;
           trace_ptr_data& operator=(const trace_ptr_data&) = delete;
         };
         std::unordered_map<String, std::unique_ptr<trace_ptr_data>> trace_ptrs;
 
-        void setupTraces(const String& name, ClientData var,
+        void setupTraces(const String& name, void* var, size_t size,
             Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
             link_var_hook_t hook_func);
 
@@ -213,8 +215,9 @@ class ScriptInterpTCL : public ScriptInterp {
         template<typename T>
         static inline const char* tcl_traceGet(ClientData clientData,
             Tcl_Interp* interp, char* name1, char* name2, int flags) {
+          auto data = static_cast<const trace_ptr_data*>(clientData);
           return TraceGet(
-              c_to_tcl_cast<T&>::from(*static_cast<T*>(clientData), interp),
+              c_to_tcl_cast<T&>::from(*static_cast<T*>(data->ptr), interp),
               interp, name1, name2, flags);
         }
         template<typename T>
@@ -225,13 +228,6 @@ class ScriptInterpTCL : public ScriptInterp {
               c_to_tcl_cast<T>::from(static_cast<T>(data->ptr),
                 interp), interp, name1, name2, flags);
         }
-        template<typename T>
-        static inline const char* tcl_traceGetPtr(ClientData clientData,
-            Tcl_Interp* interp, char* name1, char* name2, int flags) {
-          return TraceGet(
-              c_to_tcl_cast<T>::from(static_cast<T>(clientData),
-                interp), interp, name1, name2, flags);
-        }
 
         template<typename T>
         static const char* tcl_traceSet(ClientData clientData,
@@ -240,14 +236,13 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto oldval(std::move(*static_cast<T*>(clientData)));
+          auto data = static_cast<const trace_ptr_data*>(clientData);
+          const auto oldval(std::move(*static_cast<T*>(data->ptr)));
 
-          *static_cast<T*>(clientData) =
+          *static_cast<T*>(data->ptr) =
             std::move(tcl_to_c_cast<T>::from(obj, nullptr));
-          const auto link_var_hook = link_var_hooks.find(name1);
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)&oldval, (const void*)(clientData));
+          if (data->hook)
+            data->hook((const void*)&oldval, (const void*)(data->ptr));
           return nullptr;
         }
 
@@ -258,12 +253,11 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto link_var_hook = link_var_hooks.find(name1);
           auto data = static_cast<const trace_ptr_data*>(clientData);
           /* Save oldval */
           typedef typename std::pointer_traits<T>::element_type T_name;
           std::unique_ptr<T_name[]> oldval;
-          if (link_var_hook != std::end(link_var_hooks)) {
+          if (data->hook) {
             oldval = std::move(std::make_unique<T_name[]>(data->size));
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
@@ -274,8 +268,8 @@ class ScriptInterpTCL : public ScriptInterp {
                 data->size - 1);
             static_cast<T>(data->ptr)[len] = '\0';
           }
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
+          if (data->hook)
+            data->hook(
                 (const void*)(oldval.get()), (const void*)(data->ptr));
           return nullptr;
         }
@@ -290,7 +284,6 @@ class ScriptInterpTCL : public ScriptInterp {
   protected:
         virtual int init();
         virtual int destroy();
-        static std::unordered_map<String, link_var_hook_t> link_var_hooks;
 
   public:
         ScriptInterpTCL() : ScriptInterp(), interp(nullptr), trace_ptrs() {
@@ -298,9 +291,8 @@ class ScriptInterpTCL : public ScriptInterp {
         }
         virtual ~ScriptInterpTCL() {
           CmdHandlerData.clear();
-          link_var_hooks.clear();
-          trace_ptrs.clear();
           destroy();
+          trace_ptrs.clear();
         }
 
         virtual String eval(const String& script);
@@ -336,7 +328,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName, (void*) &var, sizeof(T),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
               (Tcl_VarTraceProc*) tcl_traceSet<T>, hook_func);
         }
@@ -349,11 +341,9 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T* var, size_t size,
             link_var_hook_t hook_func = nullptr) {
-          auto data = std::make_unique<trace_ptr_data>(var, size);
-          setupTraces(varName, (ClientData) data.get(),
+          setupTraces(varName, (void*) var, size,
               (Tcl_VarTraceProc*) tcl_traceGetPtrData<const T*>,
               (Tcl_VarTraceProc*) tcl_traceSetPtr<T*>, hook_func);
-          trace_ptrs[varName] = std::move(data);
         }
 
         /**
@@ -365,8 +355,8 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T* var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) var,
-              (Tcl_VarTraceProc*) tcl_traceGetPtr<const T*>,
+          setupTraces(varName, (void*) var, 0,
+              (Tcl_VarTraceProc*) tcl_traceGetPtrData<const T*>,
               (Tcl_VarTraceProc*) TraceSetRO, hook_func);
         }
 
@@ -379,7 +369,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName, (void*) &var, sizeof(T),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
               (Tcl_VarTraceProc*) TraceSetRO, hook_func);
         }
@@ -390,7 +380,6 @@ class ScriptInterpTCL : public ScriptInterp {
          */
         virtual void unlinkVar(const String& varName) {
           Tcl_UnsetVar(interp, *varName, TCL_GLOBAL_ONLY);
-          link_var_hooks.erase(varName);
           trace_ptrs.erase(varName);
         }
 
-- 
2.43.0


From 05f89f8c6b4dafbaa029034ec5ecb5854caabd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:39 +0000
Subject: [PATCH 42/42] fix: do not declare functions that throw as pure

find(item, pos), find(str, pos), ifind and rifind can throw, but were
declared __attribute__((pure)), which clang takes as a promise not to
unwind: std::out_of_range for a position beyond the end terminated the
program instead of reaching the caller.
---
 src/ReferenceCountedArray.h | 2 +-
 src/String.h                | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index f46419c..384a5e3 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -805,7 +805,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @param pos Where to start the search
      * @return The position of the item if found, or npos if not found
      **/
-    size_t find(const_reference item, size_t pos) const __attribute__((pure)) {
+    size_t find(const_reference item, size_t pos) const {
       if (pos != 0)
         validateIndex(pos - 1);
       return _find(item, pos);
diff --git a/src/String.h b/src/String.h
index 650d94b..7976acc 100755
--- a/src/String.h
+++ b/src/String.h
@@ -188,7 +188,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
      * @param pos Where to start the search
          * @return The position of the string if found, or String::npos if not found
          **/
-        size_t find(const String& str, size_t pos) const __attribute__((pure)) {
+        size_t find(const String& str, size_t pos) const {
           if (pos != 0)
             validateIndex(pos - 1);
           return _find(str, pos);
@@ -213,15 +213,14 @@ class String : public ReferenceCountedArray<String_Array_Type> {
          * @return The position of the string if found, or String::npos if not found
          * @sa ifind
          */
-        size_t rifind(const String& str, const size_t lpos = 0) const
-          __attribute__((pure));
+        size_t rifind(const String& str, const size_t lpos = 0) const;
 
         /**
          * @brief Find a string in the string, ignoring case
          * @param str The substring to look for
          * @return The position of the string if found, or String::npos if not found
          **/
-        size_t ifind(const String& str) const __attribute__((pure));
+        size_t ifind(const String& str) const;
 
 	/**
 	 * @brief Cstring accessor
-- 
2.43.0

