From 9aa303e6a6fb8327e2713927838aa7d61f5bc89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 01/44] fix: Latch::isReady reads the counter under the latch
 mutex

---
 src/common/concurrent/Latch.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/concurrent/Latch.cpp b/src/common/concurrent/Latch.cpp
index f149c16..3a66de3 100644
--- a/src/common/concurrent/Latch.cpp
+++ b/src/common/concurrent/Latch.cpp
@@ -45,6 +45,7 @@ void Latch::wait() {
 }
 
 bool Latch::isReady() {
+    std::unique_lock<std::mutex> unique(lock_);
     return counter_ == 0;
 }
 
-- 
2.43.0


From 031315283706e77e6b483b1f26913204d9dd82d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 02/44] fix: AuthResponse::clear and == cover the time zone
 fields

---
 src/common/graph/Response.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index fe18498..332063a 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -211,6 +211,8 @@ struct AuthResponse {
         errorCode = ErrorCode::SUCCEEDED;
         sessionId = nullptr;
         errorMsg = nullptr;
+        timeZoneOffsetSeconds = nullptr;
+        timeZoneName = nullptr;
     }
 
     void clear() {
@@ -230,7 +232,7 @@ struct AuthResponse {
         if (!checkPointer(timeZoneOffsetSeconds.get(), rhs.timeZoneOffsetSeconds.get())) {
             return false;
         }
-        return checkPointer(timeZoneName.get(), timeZoneName.get());
+        return checkPointer(timeZoneName.get(), rhs.timeZoneName.get());
     }
 
     ErrorCode errorCode{ErrorCode::SUCCEEDED};
-- 
2.43.0


From 0f6df3100531b1eaa41488794361ba6a6a22d5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 03/44] fix: plan description equality compares every field

---
 src/common/graph/Response.cpp | 3 +++
 src/common/graph/Response.h   | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/graph/Response.cpp b/src/common/graph/Response.cpp
index 4d91952..adb0e22 100644
--- a/src/common/graph/Response.cpp
+++ b/src/common/graph/Response.cpp
@@ -15,6 +15,9 @@ bool PlanNodeDescription::operator==(const PlanNodeDescription &rhs) const {
     if (id != rhs.id) {
         return false;
     }
+    if (outputVar != rhs.outputVar) {
+        return false;
+    }
     if (!checkPointer(description.get(), rhs.description.get())) {
         return false;
     }
diff --git a/src/common/graph/Response.h b/src/common/graph/Response.h
index 332063a..2f6559c 100644
--- a/src/common/graph/Response.h
+++ b/src/common/graph/Response.h
@@ -361,7 +361,8 @@ struct PlanDescription {
     bool operator==(const PlanDescription &rhs) const {
         return planNodeDescs == rhs.planNodeDescs &&
             nodeIndexMap == rhs.nodeIndexMap &&
-            format == rhs.format;
+            format == rhs.format &&
+            optimize_time_in_us == rhs.optimize_time_in_us;
     }
 
     std::vector<PlanNodeDescription>     planNodeDescs;
-- 
2.43.0


From ad12e152ed1c838173bed7c0c00df3159b793e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 04/44] fix: Cord: append another cord by its own block size,
 and an empty or the same cord

---
 src/common/base/Cord.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/common/base/Cord.cpp b/src/common/base/Cord.cpp
index 102afa2..a388a8f 100644
--- a/src/common/base/Cord.cpp
+++ b/src/common/base/Cord.cpp
@@ -226,17 +226,24 @@ Cord& Cord::operator<<(const char* value) {
 }
 
 Cord& Cord::operator<<(const Cord& rhs) {
+    if (rhs.empty()) {
+        return *this;
+    }
+
+    // Remember where rhs ends, because it grows when it is this cord itself
     char* next = rhs.head_;
-    while (next != rhs.tail_) {
-        write(next, blockContentSize_);
+    char* last = rhs.tail_;
+    int32_t lastSize = rhs.blockPt_;
+    while (next != last) {
+        write(next, rhs.blockContentSize_);
         // Get the pointer to the next block
         memcpy(reinterpret_cast<char*>(&next),
-               next + blockContentSize_,
+               next + rhs.blockContentSize_,
                sizeof(char*));
     }
 
     // Last block
-    write(rhs.tail_, rhs.blockPt_);
+    write(last, lastSize);
 
     return *this;
 }
-- 
2.43.0


From a40801ddb616855dce6438cab3c0f493bd19bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 05/44] fix: Cord: forbid the implicit copy, which released
 every block twice

---
 src/common/base/Cord.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/base/Cord.h b/src/common/base/Cord.h
index 3341571..20f17da 100644
--- a/src/common/base/Cord.h
+++ b/src/common/base/Cord.h
@@ -19,6 +19,10 @@ public:
     explicit Cord(int32_t blockSize);
     virtual ~Cord();
 
+    // The blocks are owned by one cord only
+    Cord(const Cord&) = delete;
+    Cord& operator=(const Cord&) = delete;
+
     size_t size() const noexcept;
     bool empty() const noexcept;
 
-- 
2.43.0


From 9d945cd168198d8097ed0cb36612c1de1ec8d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 06/44] fix: ICord: visit and append the last block when it is
 full, and append a cord to itself

---
 src/common/base/ICord.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index 3432616..25212c6 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -69,7 +69,7 @@ public:
         }
 
         // Last block
-        return visitor(tail_, lengthMod());
+        return visitor(tail_, lastBlockSize());
     }
 
     // Append the cord content to the given string
@@ -86,8 +86,7 @@ public:
         }
 
         // Last block
-        std::size_t lengthModSize = lengthMod();
-        str.append(tail_, lengthModSize == 0 ? kBlockContentSize : lengthModSize);
+        str.append(tail_, lastBlockSize());
 
         return len_;
     }
@@ -181,15 +180,18 @@ public:
     }
 
     ICord<kBlockContentSize>& operator<<(const ICord& rhs) {
+        // Remember where rhs ends, because it grows when it is this cord itself
         char* n = rhs.head_;
-        while (n != rhs.tail_) {
+        char* last = rhs.tail_;
+        std::size_t lastSize = rhs.lastBlockSize();
+        while (n != last) {
             write(n, kBlockContentSize);
             // Get the pointer to the next block
-            n = next(n);
+            n = rhs.next(n);
         }
 
         // Last block
-        write(rhs.tail_, rhs.lengthMod());
+        write(last, lastSize);
 
         return *this;
     }
@@ -208,6 +210,11 @@ private:
         return len_ & (kBlockContentSize - 1);
     }
 
+    // Used size in last block, which is full when the length is a multiple of its size
+    std::size_t lastBlockSize() const {
+        return isFull() ? kBlockContentSize : lengthMod();
+    }
+
     // Is there only inline allocation
     bool isInline() const {
         return len_ < kBlockContentSize;
-- 
2.43.0


From 092c0fbb8b80f839c213c74af4baf1a18871f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 07/44] fix: ICord: stay usable after clear

---
 src/common/base/ICord.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index 25212c6..3c86900 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -47,8 +47,8 @@ public:
 
         len_ = 0;
 
-        head_ = nullptr;
-        tail_ = nullptr;
+        head_ = inlineBlock_;
+        tail_ = head_;
     }
 
     // Apply each block to the visitor until the end or the visitor
-- 
2.43.0


From 28294cf912e56abc6fc266ae65f42b4f072e5521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:17 +0000
Subject: [PATCH 08/44] fix: ICord: forbid the implicit copy, which shared the
 blocks and the inline block

---
 src/common/base/ICord.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/base/ICord.h b/src/common/base/ICord.h
index 3c86900..eaee648 100644
--- a/src/common/base/ICord.h
+++ b/src/common/base/ICord.h
@@ -21,6 +21,10 @@ public:
         clear();
     }
 
+    // The blocks are owned by one cord only
+    ICord(const ICord&) = delete;
+    ICord& operator=(const ICord&) = delete;
+
     size_t size() const noexcept {
         return len_;
     }
-- 
2.43.0


From 82cfb63d969feb34e54ad2db6ef80277ae4e0296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:51 +0000
Subject: [PATCH 09/44] fix: assigning to an EitherOr a reference into its own
 value reads it before destroying it

---
 src/common/base/EitherOr.h | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/src/common/base/EitherOr.h b/src/common/base/EitherOr.h
index 900480d..11aaa9b 100644
--- a/src/common/base/EitherOr.h
+++ b/src/common/base/EitherOr.h
@@ -265,31 +265,23 @@ public:
      *
      **********************************************/
     EitherOr& operator=(const LEFT& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructLeft, v);
-        state_ = State::LEFT_TYPE;
-        return *this;
+        // `v' may be part of the value being held, so it's taken before the reset
+        return *this = EitherOr(v);
     }
 
     EitherOr& operator=(LEFT&& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructLeft, std::move(v));
-        state_ = State::LEFT_TYPE;
-        return *this;
+        // `v' may be part of the value being held, so it's taken before the reset
+        return *this = EitherOr(std::move(v));
     }
 
     EitherOr& operator=(const RIGHT& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructRight, v);
-        state_ = State::RIGHT_TYPE;
-        return *this;
+        // `v' may be part of the value being held, so it's taken before the reset
+        return *this = EitherOr(v);
     }
 
     EitherOr& operator=(RIGHT&& v) noexcept {
-        reset();
-        new (&val_) Variant(kConstructRight, std::move(v));
-        state_ = State::RIGHT_TYPE;
-        return *this;
+        // `v' may be part of the value being held, so it's taken before the reset
+        return *this = EitherOr(std::move(v));
     }
 
     // Assign from a value which can only construct either LEFT or RIGHT,
@@ -300,10 +292,8 @@ public:
         EitherOr
     >&
     operator=(U&& v) noexcept {
-        reset();
-        new (&val_) Variant(convert_to_t<U>, std::forward<U>(v));
-        state_ = convert_to_s<U>;
-        return *this;
+        // `v' may be part of the value being held, so it's taken before the reset
+        return *this = EitherOr(std::forward<U>(v));
     }
 
     EitherOr& operator=(const EitherOr& rhs) noexcept {
-- 
2.43.0


From 0c0bff2e046c9ce35f87b9e6546f8d84757b7ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 10/44] fix: assigning to a StatusOr a reference into its own
 value reads it before destroying it

---
 src/common/base/StatusOr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/base/StatusOr.h b/src/common/base/StatusOr.h
index fa5a85c..00bb32a 100644
--- a/src/common/base/StatusOr.h
+++ b/src/common/base/StatusOr.h
@@ -195,8 +195,10 @@ public:
     // Move assigment operator from a rvalue of any compatible type with `T'
     template <typename U, typename = std::enable_if_t<is_initializable_v<U>>>
     StatusOr& operator=(U &&value) noexcept {
+        // `value' may be part of the value being held, so it's taken before the reset
+        T tmp(std::forward<U>(value));
         destruct();
-        new (&variant_) Variant(std::forward<U>(value));
+        new (&variant_) Variant(std::move(tmp));
         state_ = kValue;
         return *this;
     }
-- 
2.43.0


From 20678fbf897f44d9e9c2ffaf108fda4c9cf2b934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 11/44] fix: a StatusOr whose status assignment throws no
 longer destroys its old content twice

---
 src/common/base/StatusOr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/base/StatusOr.h b/src/common/base/StatusOr.h
index 00bb32a..5e7cfe0 100644
--- a/src/common/base/StatusOr.h
+++ b/src/common/base/StatusOr.h
@@ -205,7 +205,7 @@ public:
 
     // Copy assign from a lvalue of `Status'
     StatusOr& operator=(const Status &status) {
-        destruct();
+        reset();
         new (&variant_) Variant(status);
         state_ = kStatus;
         return *this;
-- 
2.43.0


From f20ec4e777ed0d34bce29b34ce62b822e67663f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 12/44] fix: steps of the same edge type are ordered by ranking
 and properties (compared the type with a vertex)

---
 src/common/datatypes/Path.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/Path.h b/src/common/datatypes/Path.h
index e6c9522..1e163b6 100644
--- a/src/common/datatypes/Path.h
+++ b/src/common/datatypes/Path.h
@@ -98,7 +98,7 @@ struct Step {
         if (dst != rhs.dst) {
             return dst < rhs.dst;
         }
-        if (type != rhs.dst) {
+        if (type != rhs.type) {
             return type < rhs.type;
         }
         if (ranking != rhs.ranking) {
-- 
2.43.0


From b387cfb4620762e2c7cf2df10b0a9b4804106014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 13/44] fix: assigning to a Value one that lives inside its own
 list, map or other payload reads it before destroying the payload

---
 src/common/datatypes/Value.cpp | 94 +++-------------------------------
 1 file changed, 6 insertions(+), 88 deletions(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index dffc374..1f078ed 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1069,8 +1069,10 @@ void Value::clear() {
 }
 
 
-Value& Value::operator=(Value&& rhs) noexcept {
-    if (this == &rhs) { return *this; }
+Value& Value::operator=(Value&& other) noexcept {
+    if (this == &other) { return *this; }
+    // The other value may live inside the payload which is going to be destroyed
+    Value rhs(std::move(other));
     clear();
     if (rhs.type_ == Type::__EMPTY__) { return *this; }
     switch (rhs.type_) {
@@ -1162,92 +1164,8 @@ Value& Value::operator=(Value&& rhs) noexcept {
 
 Value& Value::operator=(const Value& rhs) {
     if (this == &rhs) { return *this; }
-    clear();
-    if (rhs.type_ == Type::__EMPTY__) { return *this; }
-    switch (rhs.type_) {
-        case Type::NULLVALUE:
-        {
-            setN(rhs.value_.nVal);
-            break;
-        }
-        case Type::BOOL:
-        {
-            setB(rhs.value_.bVal);
-            break;
-        }
-        case Type::INT:
-        {
-            setI(rhs.value_.iVal);
-            break;
-        }
-        case Type::FLOAT:
-        {
-            setF(rhs.value_.fVal);
-            break;
-        }
-        case Type::STRING:
-        {
-            setS(*rhs.value_.sVal);
-            break;
-        }
-        case Type::DATE:
-        {
-            setD(rhs.value_.dVal);
-            break;
-        }
-        case Type::TIME:
-        {
-            setT(rhs.value_.tVal);
-            break;
-        }
-        case Type::DATETIME:
-        {
-            setDT(rhs.value_.dtVal);
-            break;
-        }
-        case Type::VERTEX:
-        {
-            setV(rhs.value_.vVal);
-            break;
-        }
-        case Type::EDGE:
-        {
-            setE(rhs.value_.eVal);
-            break;
-        }
-        case Type::PATH:
-        {
-            setP(rhs.value_.pVal);
-            break;
-        }
-        case Type::LIST:
-        {
-            setL(rhs.value_.lVal);
-            break;
-        }
-        case Type::MAP:
-        {
-            setM(rhs.value_.mVal);
-            break;
-        }
-        case Type::SET:
-        {
-            setU(rhs.value_.uVal);
-            break;
-        }
-        case Type::DATASET:
-        {
-            setG(rhs.value_.gVal);
-            break;
-        }
-        default:
-        {
-            assert(false);
-            break;
-        }
-    }
-    type_ = rhs.type_;
-    return *this;
+    // The other value may live inside the payload which is going to be destroyed
+    return *this = Value(rhs);
 }
 
 
-- 
2.43.0


From 78c3448a79c635aed005f978f2fbe972b0d3b066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 14/44] fix: setting a set by rvalue creates the set in the
 union member that is read for sets

---
 src/common/datatypes/Value.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 1f078ed..6f6c468 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -1376,7 +1376,7 @@ void Value::setU(const Set& v) {
 
 void Value::setU(Set&& v) {
     type_ = Type::SET;
-    new (std::addressof(value_.vVal)) std::unique_ptr<Set>(new Set(std::move(v)));
+    new (std::addressof(value_.uVal)) std::unique_ptr<Set>(new Set(std::move(v)));
 }
 
 void Value::setG(const std::unique_ptr<DataSet>& v) {
-- 
2.43.0


From a2eecd5c57d352acd4d3f5379876fd94626b2a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 15/44] fix: INT_MIN % -1 traps in Value's operator%

---
 src/common/datatypes/Value.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/datatypes/Value.cpp b/src/common/datatypes/Value.cpp
index 6f6c468..7e9859c 100644
--- a/src/common/datatypes/Value.cpp
+++ b/src/common/datatypes/Value.cpp
@@ -2286,6 +2286,10 @@ Value operator%(const Value& lhs, const Value& rhs) {
             switch (rhs.type()) {
                 case Value::Type::INT: {
                     int64_t denom = rhs.getInt();
+                    if (denom == -1) {
+                        // The native INT_MIN % -1 traps, though the remainder is 0
+                        return 0;
+                    }
                     if (denom != 0) {
                         return lhs.getInt() % denom;
                     } else {
-- 
2.43.0


From a4afedb0aec6bcdcb949cf2f160e6fa4f7bd34f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:29 +0000
Subject: [PATCH 16/44] fix: the LRU cache read its buckets' statistics without
 their locks

---
 src/common/base/ConcurrentLRUCache.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/common/base/ConcurrentLRUCache.h b/src/common/base/ConcurrentLRUCache.h
index 83e8a48..7d819b2 100644
--- a/src/common/base/ConcurrentLRUCache.h
+++ b/src/common/base/ConcurrentLRUCache.h
@@ -71,7 +71,7 @@ public:
     uint64_t total() {
         uint64_t total = 0;
         for (uint32_t i = 0; i < bucketsNum_; i++) {
-            total += buckets_[i].lru_->total();
+            total += buckets_[i].total();
         }
         return total;
     }
@@ -79,7 +79,7 @@ public:
     uint64_t hits() {
         uint64_t hits = 0;
         for (uint32_t i = 0; i < bucketsNum_; i++) {
-            hits += buckets_[i].lru_->hits();
+            hits += buckets_[i].hits();
         }
         return hits;
     }
@@ -87,7 +87,7 @@ public:
     uint64_t evicts() {
         uint64_t evicts = 0;
         for (uint32_t i = 0; i < bucketsNum_; i++) {
-            evicts += buckets_[i].lru_->evicts();
+            evicts += buckets_[i].evicts();
         }
         return evicts;
     }
@@ -140,6 +140,21 @@ private:
             lru_->clear();
         }
 
+        uint64_t total() {
+            std::lock_guard<std::mutex> guard(lock_);
+            return lru_->total();
+        }
+
+        uint64_t hits() {
+            std::lock_guard<std::mutex> guard(lock_);
+            return lru_->hits();
+        }
+
+        uint64_t evicts() {
+            std::lock_guard<std::mutex> guard(lock_);
+            return lru_->evicts();
+        }
+
         std::mutex lock_;
         std::unique_ptr<LRU<K, V>> lru_;
     };
-- 
2.43.0


From 18c2a519739b20101e8045619c531163973b4681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:29 +0000
Subject: [PATCH 17/44] fix: ObjectPool::empty read the list without the lock

---
 src/common/base/ObjectPool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/base/ObjectPool.h b/src/common/base/ObjectPool.h
index e165b89..f698225 100644
--- a/src/common/base/ObjectPool.h
+++ b/src/common/base/ObjectPool.h
@@ -47,6 +47,7 @@ public:
     }
 
     bool empty() const {
+        folly::SpinLockGuard g(lock_);
         return objects_.empty();
     }
 
@@ -69,7 +70,7 @@ private:
 
     std::list<OwnershipHolder> objects_;
 
-    folly::SpinLock lock_;
+    mutable folly::SpinLock lock_;
 };
 
 }   // namespace nebula
-- 
2.43.0


From f577facf285ff640ac00703be7b3e40d25034978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:33 +0000
Subject: [PATCH 18/44] fix: reservoir sampling draws the slot over all items
 seen including the current one

---
 src/common/algorithm/ReservoirSampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/algorithm/ReservoirSampling.h b/src/common/algorithm/ReservoirSampling.h
index 395b9d7..6f72950 100644
--- a/src/common/algorithm/ReservoirSampling.h
+++ b/src/common/algorithm/ReservoirSampling.h
@@ -26,7 +26,7 @@ public:
             ++cnt_;
             return true;
         } else {
-            auto index = folly::Random::rand64(cnt_);
+            auto index = folly::Random::rand64(cnt_ + 1);
             if (index < num_) {
                 samples_[index] = (std::move(sample));
                 ++cnt_;
-- 
2.43.0


From 7b849c36b4fa8e59b7ea0814c71628c9a2e3194f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 19/44] fix: run the handler of a fatal signal or SIGCHLD once
 per delivery, not twice

---
 src/common/base/SignalHandler.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/common/base/SignalHandler.cpp b/src/common/base/SignalHandler.cpp
index 99e0091..f4b69ff 100644
--- a/src/common/base/SignalHandler.cpp
+++ b/src/common/base/SignalHandler.cpp
@@ -100,11 +100,10 @@ void SignalHandler::doHandle(int sig, siginfo_t *info, void *uctx) {
             break;
         case SIGCHLD:
             // TODO(dutor) Since we rarely use this signal, we regard it as a general one for now.
+        default:
             handleGeneralSignal(sig, info);
             break;
     }
-
-    handleGeneralSignal(sig, info);
 }
 
 
-- 
2.43.0


From e3d4f28c5b98ea7a6286e9aba5d663f32f5d54e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:30 +0000
Subject: [PATCH 20/44] fix: store a signal's handler before the signal is
 registered with the system

---
 src/common/base/SignalHandler.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/common/base/SignalHandler.cpp b/src/common/base/SignalHandler.cpp
index f4b69ff..6be37d8 100644
--- a/src/common/base/SignalHandler.cpp
+++ b/src/common/base/SignalHandler.cpp
@@ -71,14 +71,15 @@ Status SignalHandler::installInternal(int sig, Handler handler) {
     ::memset(&act, 0, sizeof(act));
     act.sa_sigaction = &handlerHook;
     act.sa_flags |= SA_SIGINFO;
-    if (::sigaction(sig, &act, nullptr) != 0) {
-        return Status::Error("Register signal %d failed: %s", sig, ::strerror(errno));
-    }
     auto index = sig - 1;
     if (handlers_[index]) {
         LOG(WARNING) << "Register signal " << sig << " twice!";
     }
+    // The signal may arrive as soon as it is registered
     handlers_[index] = std::move(handler);
+    if (::sigaction(sig, &act, nullptr) != 0) {
+        return Status::Error("Register signal %d failed: %s", sig, ::strerror(errno));
+    }
     return Status::OK();
 }
 
-- 
2.43.0


From 9ff05c41974ae7246be7d77f54ed7cbb21cec0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 21/44] fix: separate the message of a ListenerNotFound status
 from its name

---
 src/common/base/Status.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/base/Status.cpp b/src/common/base/Status.cpp
index 2e9ad75..6d305e1 100644
--- a/src/common/base/Status.cpp
+++ b/src/common/base/Status.cpp
@@ -97,7 +97,7 @@ const char *Status::toString(Code code) {
         case kPermissionError:
             return "PermissionError: ";
         case kListenerNotFound:
-            return "ListenerNotFound";
+            return "ListenerNotFound: ";
     }
     DLOG(FATAL) << "Invalid status code: " << static_cast<uint16_t>(code);
     return "";
-- 
2.43.0


From 094b0c868665c9678962cc36330056ad74dab616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 22/44] fix: cut a status message that is too long for its
 length field instead of taking its length modulo 64K

---
 src/common/base/Status.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/base/Status.cpp b/src/common/base/Status.cpp
index 6d305e1..8b5fae0 100644
--- a/src/common/base/Status.cpp
+++ b/src/common/base/Status.cpp
@@ -10,7 +10,8 @@
 namespace nebula {
 
 Status::Status(Code code, folly::StringPiece msg) {
-    const uint16_t size = msg.size();
+    // A message too long for its length field is cut, not taken modulo 64K
+    const uint16_t size = std::min<size_t>(msg.size(), std::numeric_limits<uint16_t>::max());
     auto state = std::unique_ptr<char[]>(new char[size + kHeaderSize]);
     auto *header = reinterpret_cast<Header*>(state.get());
     header->size_ = size;
-- 
2.43.0


From a9ffe2c8801c7b5548500665dc8e82bf3672430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 23/44] fix: MetaClient::loadData checks the result of
 listHosts before using it

---
 src/common/clients/meta/MetaClient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 0298977..2f3c797 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -261,7 +261,7 @@ bool MetaClient::loadData() {
     }
 
     auto hostsRet = listHosts().get();
-    if (!ret.ok()) {
+    if (!hostsRet.ok()) {
         LOG(ERROR) << "List hosts failed, status:" << hostsRet.status();
         return false;
     }
-- 
2.43.0


From 5465c4731e4ef91cb99ca27ba163fde6d98f5726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 24/44] fix: MetaClient::download does not log the value of a
 failed request

---
 src/common/clients/meta/MetaClient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/clients/meta/MetaClient.cpp b/src/common/clients/meta/MetaClient.cpp
index 2f3c797..4ccb25d 100644
--- a/src/common/clients/meta/MetaClient.cpp
+++ b/src/common/clients/meta/MetaClient.cpp
@@ -3773,7 +3773,8 @@ folly::Future<StatusOr<bool>> MetaClient::download(const std::string& hdfsHost,
             LOG(INFO) << "Download Successfully";
             return true;
         } else {
-            LOG(ERROR) << "Download Failed: " << result.value();
+            LOG(ERROR) << "Download Failed: "
+                       << (result.ok() ? result.value() : result.status().toString());
             return false;
         }
     };
-- 
2.43.0


From 20003201e62ebfa4d36787af1303cca42e40d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 25/44] fix: AggregateExpression::apply does not read the value
 of a failed function lookup

---
 src/common/expression/AggregateExpression.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/expression/AggregateExpression.cpp b/src/common/expression/AggregateExpression.cpp
index 72b3d78..8514f86 100644
--- a/src/common/expression/AggregateExpression.cpp
+++ b/src/common/expression/AggregateExpression.cpp
@@ -54,7 +54,8 @@ const Value& AggregateExpression::eval(ExpressionContext& ctx) {
 }
 
 void AggregateExpression::apply(AggData* aggData, const Value& val) {
-    AggFunctionManager::get(name_).value()(aggData, val);
+    DCHECK(aggFunc_);
+    aggFunc_(aggData, val);
 }
 
 std::string AggregateExpression::toString() const {
-- 
2.43.0


From 9a982cd4f632a9b5c59cae667d54eac5077c29e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:18 +0000
Subject: [PATCH 26/44] fix: GenericWorker releases its event base, eventfd and
 timers before it starts again

start() overwrote the resources of the previous run, used an event base or event
that could not be created, and the destructor freed the timers after their event base.
---
 src/common/thread/GenericWorker.cpp | 21 +++++++++++++++++++--
 src/common/thread/GenericWorker.h   |  1 +
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index d81a20e..1c0376c 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -17,6 +17,12 @@ GenericWorker::GenericWorker() = default;
 GenericWorker::~GenericWorker() {
     stop();
     wait();
+    release();
+}
+
+void GenericWorker::release() {
+    // The timer events belong to the event base, so they go first
+    activeTimers_.clear();
     if (notifier_ != nullptr) {
         event_free(notifier_);
         notifier_ = nullptr;
@@ -27,6 +33,7 @@ GenericWorker::~GenericWorker() {
     }
     if (evfd_ >= 0) {
         ::close(evfd_);
+        evfd_ = -1;
     }
 }
 
@@ -37,9 +44,16 @@ bool GenericWorker::start(std::string name) {
     }
     name_ = std::move(name);
 
+    // Release whatever a previous run has left behind
+    wait();
+    release();
+
     // Create an event base
     evbase_ = event_base_new();
-    DCHECK(evbase_ != nullptr);
+    if (evbase_ == nullptr) {
+        LOG(ERROR) << "Create event base failed";
+        return false;
+    }
 
     // Create an eventfd for async notification
     evfd_ = ::eventfd(0, EFD_NONBLOCK | EFD_CLOEXEC);
@@ -55,7 +69,10 @@ bool GenericWorker::start(std::string name) {
     };
     auto events = EV_READ | EV_PERSIST;
     notifier_  = event_new(evbase_, evfd_, events, cb, this);
-    DCHECK(notifier_ != nullptr);
+    if (notifier_ == nullptr) {
+        LOG(ERROR) << "Create event failed";
+        return false;
+    }
     event_add(notifier_, nullptr);
 
     // Launch a new thread to run the event loop
diff --git a/src/common/thread/GenericWorker.h b/src/common/thread/GenericWorker.h
index 26c7a9e..c7cb72e 100644
--- a/src/common/thread/GenericWorker.h
+++ b/src/common/thread/GenericWorker.h
@@ -148,6 +148,7 @@ private:
 
 private:
     void loop();
+    void release();
     void notify();
     void onNotify();
     uint64_t nextTimerId() {
-- 
2.43.0


From 0d2a12fe60c53292f7e6028bab7875ff936471c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:18 +0000
Subject: [PATCH 27/44] fix: ProcessUtils::runCommand closes the pipe with
 pclose() when reading fails

---
 src/common/process/ProcessUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/process/ProcessUtils.cpp b/src/common/process/ProcessUtils.cpp
index fa19edc..35cd930 100644
--- a/src/common/process/ProcessUtils.cpp
+++ b/src/common/process/ProcessUtils.cpp
@@ -159,7 +159,7 @@ StatusOr<std::string> ProcessUtils::runCommand(const char* command) {
 
     if (ferror(f)) {
         // Something is wrong
-        fclose(f);
+        pclose(f);
         return Status::Error("Failed to read the output of the command");
     }
 
-- 
2.43.0


From b4c82d87f5a36fd297ed9ac998c99cd4729ab881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:55 +0000
Subject: [PATCH 28/44] fix: the local date and time are the UTC ones plus the
 offset

localDate, localTime and localDateTime subtracted the offset of the time zone,
against 'utc + offset = local', dateTimeToUTC and utcToDateTime.
---
 src/common/time/TimeUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/time/TimeUtils.h b/src/common/time/TimeUtils.h
index 5e01b39..65ba3f2 100644
--- a/src/common/time/TimeUtils.h
+++ b/src/common/time/TimeUtils.h
@@ -88,7 +88,7 @@ public:
     static DateTime localDateTime() {
         auto time = unixTime();
         auto dt = TimeConversion::unixSecondsToDateTime(
-            time.seconds - Timezone::getGlobalTimezone().utcOffsetSecs());
+            time.seconds + Timezone::getGlobalTimezone().utcOffsetSecs());
         dt.microsec = time.milliseconds * 1000;
         return dt;
     }
@@ -145,7 +145,7 @@ public:
         if (unixTime == -1) {
             return Status::Error("Get unix time failed: %s.", std::strerror(errno));
         }
-        return TimeConversion::unixSecondsToDate(unixTime -
+        return TimeConversion::unixSecondsToDate(unixTime +
                                                  Timezone::getGlobalTimezone().utcOffsetSecs());
     }
 
@@ -201,7 +201,7 @@ public:
 
     static Time localTime() {
         auto time = unixTime();
-        auto t = TimeConversion::unixSecondsToTime(time.seconds -
+        auto t = TimeConversion::unixSecondsToTime(time.seconds +
                                                    Timezone::getGlobalTimezone().utcOffsetSecs());
         t.microsec = time.milliseconds * 1000;
         return t;
-- 
2.43.0


From b9728b6fcb1816f55d075122fc5bfcc985cbdb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:26 +0000
Subject: [PATCH 29/44] fix: parsing a time rejects second 60, which no time
 value holds

---
 src/common/time/TimeUtils.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/common/time/TimeUtils.h b/src/common/time/TimeUtils.h
index 65ba3f2..f3a59d3 100644
--- a/src/common/time/TimeUtils.h
+++ b/src/common/time/TimeUtils.h
@@ -60,6 +60,10 @@ public:
                 return Status::Error();
             }
         }
+        // The conversion admits leap seconds
+        if (tm.tm_sec > 59) {
+            return Status::Error("Invalid second number `%d'.", tm.tm_sec);
+        }
         DateTime dt;
         dt.year = tm.tm_year + 1900;
         dt.month = tm.tm_mon + 1;
@@ -182,6 +186,10 @@ public:
         if (ss.fail()) {
             return Status::Error();
         }
+        // The conversion admits leap seconds
+        if (tm.tm_sec > 59) {
+            return Status::Error("Invalid second number `%d'.", tm.tm_sec);
+        }
         Time t;
         t.hour = tm.tm_hour;
         t.minute = tm.tm_min;
-- 
2.43.0


From 91ac4b45ad792831a41dff79d506c7d869e24cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:09 +0000
Subject: [PATCH 30/44] fix: Configuration::parseFromString refuses a document
 that is not an object

Looking an item up in any other document throws.
---
 src/common/conf/Configuration.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index 42c25e3..285273d 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -70,6 +70,9 @@ Status Configuration::parseFromFile(const std::string &filename) {
 Status Configuration::parseFromString(const std::string &content) {
     try {
         auto json = folly::parseJson(content);
+        if (!json.isObject()) {
+            return Status::Error("The content is not a JSON object");
+        }
         content_ = std::make_unique<folly::dynamic>(std::move(json));
     } catch (std::exception &e) {
         LOG(ERROR) << e.what();
-- 
2.43.0


From c34da134d1f31246e37343a9cae1f62e439ba799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 31/44] fix: Configuration::parseFromFile fails when the file
 cannot be measured or read completely

---
 src/common/conf/Configuration.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/conf/Configuration.cpp b/src/common/conf/Configuration.cpp
index 285273d..e963f0f 100644
--- a/src/common/conf/Configuration.cpp
+++ b/src/common/conf/Configuration.cpp
@@ -39,6 +39,10 @@ Status Configuration::parseFromFile(const std::string &filename) {
         }
         // get the file size
         auto len = ::lseek(fd, 0, SEEK_END);
+        if (len < 0) {
+            status = Status::Error("Failed to get the size of file \"%s\"", filename.c_str());
+            break;
+        }
         if (len == 0) {
             status = Status::Error("File \"%s\"is empty", filename.c_str());
             break;
@@ -48,7 +52,10 @@ Status Configuration::parseFromFile(const std::string &filename) {
         // TODO(dutor) ::read might be interrupted by signals
         auto buffer = std::make_unique<char[]>(len + 1);
         auto charsRead = ::read(fd, buffer.get(), len);
-        UNUSED(charsRead);
+        if (charsRead != len) {
+            status = Status::Error("Failed to read file \"%s\"", filename.c_str());
+            break;
+        }
         buffer[len] = '\0';
         // strip off all comments
         static const std::regex comment("//.*|#.*");
-- 
2.43.0


From 95e87d96118b22d6c850fbafe41a28ae44ffe409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 32/44] fix: a column expression reads back the size it was
 written as

---
 src/common/expression/ColumnExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/ColumnExpression.cpp b/src/common/expression/ColumnExpression.cpp
index c98066a..2e344cc 100644
--- a/src/common/expression/ColumnExpression.cpp
+++ b/src/common/expression/ColumnExpression.cpp
@@ -39,7 +39,7 @@ void ColumnExpression::writeTo(Encoder &encoder) const {
 }
 
 void ColumnExpression::resetFrom(Decoder &decoder) {
-    index_ = decoder.readValue().getInt();
+    index_ = decoder.readSize();
 }
 
 }   // namespace nebula
-- 
2.43.0


From a574bc3dcad96f9647ac42106f3ab14d336c99d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 33/44] fix: aggregates with and without distinct are not equal

---
 src/common/expression/AggregateExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/expression/AggregateExpression.cpp b/src/common/expression/AggregateExpression.cpp
index 8514f86..edddb62 100644
--- a/src/common/expression/AggregateExpression.cpp
+++ b/src/common/expression/AggregateExpression.cpp
@@ -14,7 +14,7 @@ bool AggregateExpression::operator==(const Expression& rhs) const {
     }
 
     const auto& r = static_cast<const AggregateExpression&>(rhs);
-    return name_ == r.name_ && *arg_ == *(r.arg_);
+    return name_ == r.name_ && distinct_ == r.distinct_ && *arg_ == *(r.arg_);
 }
 
 void AggregateExpression::writeTo(Encoder& encoder) const {
-- 
2.43.0


From 884ccb33b1498996e6ba71ce516ee2344a99618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 34/44] fix: copy and compare a versioned variable without a
 version

---
 src/common/expression/VariableExpression.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/expression/VariableExpression.h b/src/common/expression/VariableExpression.h
index 5abbd1b..c4f3bd9 100644
--- a/src/common/expression/VariableExpression.h
+++ b/src/common/expression/VariableExpression.h
@@ -87,6 +87,9 @@ public:
             return false;
         }
 
+        if (version_ == nullptr || vve.version_ == nullptr) {
+            return version_ == vve.version_;
+        }
         return *version_ == *vve.version_;
     }
 
@@ -95,7 +98,8 @@ public:
     void accept(ExprVisitor* visitor) override;
 
     Expression* clone() const override {
-        return VersionedVariableExpression::make(pool_, var(), version_->clone());
+        return VersionedVariableExpression::make(
+            pool_, var(), version_ != nullptr ? version_->clone() : nullptr);
     }
 
 private:
-- 
2.43.0


From deac4995a0abdc641c658783845587fd8fa99d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:54 +0000
Subject: [PATCH 35/44] fix: copy and compare every parameter of a text search
 expression

---
 src/common/expression/TextSearchExpression.cpp | 6 ++++--
 src/common/expression/TextSearchExpression.h   | 4 ++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/common/expression/TextSearchExpression.cpp b/src/common/expression/TextSearchExpression.cpp
index 1b35f98..90373c2 100644
--- a/src/common/expression/TextSearchExpression.cpp
+++ b/src/common/expression/TextSearchExpression.cpp
@@ -10,7 +10,9 @@
 namespace nebula {
 
 bool TextSearchArgument::operator==(const TextSearchArgument& rhs) const {
-    return val_ == rhs.val_ &&
+    return from_ == rhs.from_ &&
+           prop_ == rhs.prop_ &&
+           val_ == rhs.val_ &&
            op_ == rhs.op_ &&
            fuzziness_ == rhs.fuzziness_ &&
            limit_ == rhs.limit_ &&
@@ -45,7 +47,7 @@ bool TextSearchExpression::operator==(const Expression& rhs) const {
     }
 
     const auto& r = dynamic_cast<const TextSearchExpression&>(rhs);
-    return arg_ == r.arg_;
+    return *arg_ == *r.arg_;
 }
 
 std::string TextSearchExpression::toString() const {
diff --git a/src/common/expression/TextSearchExpression.h b/src/common/expression/TextSearchExpression.h
index 1b0a992..06f1f0b 100644
--- a/src/common/expression/TextSearchExpression.h
+++ b/src/common/expression/TextSearchExpression.h
@@ -127,6 +127,10 @@ public:
 
     Expression* clone() const override {
         auto arg = TextSearchArgument::make(pool_, arg_->from(), arg_->prop(), arg_->val());
+        arg->setOP(arg_->op());
+        arg->setFuzziness(arg_->fuzziness());
+        arg->setLimit(arg_->limit());
+        arg->setTimeout(arg_->timeout());
         return pool_->add(new TextSearchExpression(pool_, kind_, arg));
     }
 
-- 
2.43.0


From ecbf468a83b66faad7d240a5176e59cbcd7f4c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:13 +0000
Subject: [PATCH 36/44] fix: GenericWorker takes purges together with the
 timers they are for

A timer added and purged by another thread between the two steps of onNotify
had its purge handled before the timer was active, and stayed armed for good.
---
 src/common/thread/GenericWorker.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/common/thread/GenericWorker.cpp b/src/common/thread/GenericWorker.cpp
index 1c0376c..0db3e75 100644
--- a/src/common/thread/GenericWorker.cpp
+++ b/src/common/thread/GenericWorker.cpp
@@ -132,10 +132,14 @@ void GenericWorker::onNotify() {
         }
     }
     {
+        // The purges are taken together with the timers, a later purge could be of
+        // a later timer, which would not be active yet.
         decltype(pendingTimers_) newcomings;
+        decltype(purgingingTimers_) purgings;
         {
             std::lock_guard<std::mutex> guard(lock_);
             newcomings.swap(pendingTimers_);
+            purgings.swap(purgingingTimers_);
         }
         auto cb = [] (int fd, int16_t, void *arg) {
             UNUSED(fd);
@@ -158,14 +162,7 @@ void GenericWorker::onNotify() {
             auto id = timer->id_;
             activeTimers_[id] = std::move(timer);
         }
-    }
-    {
-        decltype(purgingingTimers_) newcomings;
-        {
-            std::lock_guard<std::mutex> guard(lock_);
-            newcomings.swap(purgingingTimers_);
-        }
-        for (auto id : newcomings) {
+        for (auto id : purgings) {
             purgeTimerInternal(id);
         }
     }
-- 
2.43.0


From 2ce505a1c5adaca2804c224675cc7e085567c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:12 +0000
Subject: [PATCH 37/44] fix: head() and last() of an empty list are null

They read the first and the last element of a list without elements.
---
 src/common/function/FunctionManager.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 008dc51..371fff1 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1858,7 +1858,8 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::LIST: {
-                    return args[0].get().getList().values.front();
+                    const auto &values = args[0].get().getList().values;
+                    return values.empty() ? Value::kNullValue : values.front();
                 }
                 default: {
                     return Value::kNullBadType;
@@ -1877,7 +1878,8 @@ FunctionManager::FunctionManager() {
                     return Value::kNullValue;
                 }
                 case Value::Type::LIST: {
-                    return args[0].get().getList().values.back();
+                    const auto &values = args[0].get().getList().values;
+                    return values.empty() ? Value::kNullValue : values.back();
                 }
                 default: {
                     return Value::kNullBadType;
-- 
2.43.0


From 299ad6efd883749e7d5ba4180a33457a3670a35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:12 +0000
Subject: [PATCH 38/44] fix: lpad() and rpad() with an empty padding come to an
 end

The loop subtracted the size of the padding, nothing, for ever.
---
 src/common/function/FunctionManager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 371fff1..c83853b 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1273,7 +1273,7 @@ FunctionManager::FunctionManager() {
                     auto extra = args[2].get().getStr();
                     size -= value.size();
                     std::stringstream stream;
-                    while (size > static_cast<int64_t>(extra.size())) {
+                    while (!extra.empty() && size > static_cast<int64_t>(extra.size())) {
                         stream << extra;
                         size -= extra.size();
                     }
@@ -1304,7 +1304,7 @@ FunctionManager::FunctionManager() {
                     std::stringstream stream;
                     stream << value;
                     size -= value.size();
-                    while (size > extra.size()) {
+                    while (!extra.empty() && size > extra.size()) {
                         stream << extra;
                         size -= extra.size();
                     }
-- 
2.43.0


From 6a8f3dc0f6345d184f2b249c14a5f84ab8b164bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:12 +0000
Subject: [PATCH 39/44] fix: range() ends next to the ends of the integers

The next element overflowed and the loop went on from the other end.
---
 src/common/function/FunctionManager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index c83853b..7afa33e 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -1622,8 +1622,11 @@ FunctionManager::FunctionManager() {
             }
 
             List res;
-            for (auto i = start; step > 0? i <= end : i >= end; i = i + step) {
+            for (auto i = start; step > 0? i <= end : i >= end;) {
                 res.emplace_back(i);
+                if (__builtin_add_overflow(i, step, &i)) {
+                    break;
+                }
             }
             return Value(res);
         };
-- 
2.43.0


From 3aa7cc2933d7c208cbc811335ff6f0b6472bb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:12 +0000
Subject: [PATCH 40/44] fix: rand() is not pure

Each call gives another number.
---
 src/common/function/FunctionManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/function/FunctionManager.cpp b/src/common/function/FunctionManager.cpp
index 7afa33e..395062a 100644
--- a/src/common/function/FunctionManager.cpp
+++ b/src/common/function/FunctionManager.cpp
@@ -822,7 +822,7 @@ FunctionManager::FunctionManager() {
         auto &attr = functions_["rand"];
         attr.minArity_ = 0;
         attr.maxArity_ = 0;
-        attr.isPure_ = true;
+        attr.isPure_ = false;
         attr.body_ = [](const auto &args) -> Value {
             UNUSED(args);
             return folly::Random::randDouble01();
-- 
2.43.0


From d6be197984fe22f7fb7f23b3e6849828153e6410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 41/44] fix: a web request of an unknown method does not end
 the process

---
 src/common/webservice/GetFlagsHandler.cpp | 2 +-
 src/common/webservice/GetStatsHandler.cpp | 2 +-
 src/common/webservice/Router.cpp          | 6 ++++--
 src/common/webservice/SetFlagsHandler.cpp | 2 +-
 src/common/webservice/StatusHandler.cpp   | 2 +-
 5 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/common/webservice/GetFlagsHandler.cpp b/src/common/webservice/GetFlagsHandler.cpp
index bfe504b..36d2993 100644
--- a/src/common/webservice/GetFlagsHandler.cpp
+++ b/src/common/webservice/GetFlagsHandler.cpp
@@ -21,7 +21,7 @@ using proxygen::UpgradeProtocol;
 using proxygen::ResponseBuilder;
 
 void GetFlagsHandler::onRequest(std::unique_ptr<HTTPMessage> headers) noexcept {
-    if (headers->getMethod().value() != HTTPMethod::GET) {
+    if (headers->getMethod() != HTTPMethod::GET) {
         // Unsupported method
         err_ = HttpCode::E_UNSUPPORTED_METHOD;
         return;
diff --git a/src/common/webservice/GetStatsHandler.cpp b/src/common/webservice/GetStatsHandler.cpp
index 811a06f..429f53d 100644
--- a/src/common/webservice/GetStatsHandler.cpp
+++ b/src/common/webservice/GetStatsHandler.cpp
@@ -23,7 +23,7 @@ using proxygen::ResponseBuilder;
 using nebula::stats::StatsManager;
 
 void GetStatsHandler::onRequest(std::unique_ptr<HTTPMessage> headers) noexcept {
-    if (headers->getMethod().value() != HTTPMethod::GET) {
+    if (headers->getMethod() != HTTPMethod::GET) {
         // Unsupported method
         err_ = HttpCode::E_UNSUPPORTED_METHOD;
         return;
diff --git a/src/common/webservice/Router.cpp b/src/common/webservice/Router.cpp
index edf8b26..e80d38f 100644
--- a/src/common/webservice/Router.cpp
+++ b/src/common/webservice/Router.cpp
@@ -104,8 +104,10 @@ proxygen::RequestHandler *Route::generateHandler(const std::string &path) const
 }
 
 proxygen::RequestHandler *Router::dispatch(const proxygen::HTTPMessage *msg) const {
-    for (Route *r = head_; r != nullptr; r = r->next()) {
-        if (r->matches(msg->getMethod().value(), msg->getPath())) {
+    auto method = msg->getMethod();
+    // No route takes a method that proxygen does not know
+    for (Route *r = method ? head_ : nullptr; r != nullptr; r = r->next()) {
+        if (r->matches(method.value(), msg->getPath())) {
             return r->generateHandler(msg->getPath());
         }
     }
diff --git a/src/common/webservice/SetFlagsHandler.cpp b/src/common/webservice/SetFlagsHandler.cpp
index baa97a7..201f180 100644
--- a/src/common/webservice/SetFlagsHandler.cpp
+++ b/src/common/webservice/SetFlagsHandler.cpp
@@ -20,7 +20,7 @@ using proxygen::UpgradeProtocol;
 using proxygen::ResponseBuilder;
 
 void SetFlagsHandler::onRequest(std::unique_ptr<HTTPMessage> headers) noexcept {
-    if (headers->getMethod().value() != HTTPMethod::PUT) {
+    if (headers->getMethod() != HTTPMethod::PUT) {
         // Unsupported method
         err_ = HttpCode::E_UNSUPPORTED_METHOD;
         return;
diff --git a/src/common/webservice/StatusHandler.cpp b/src/common/webservice/StatusHandler.cpp
index 5cfb2a8..4536714 100644
--- a/src/common/webservice/StatusHandler.cpp
+++ b/src/common/webservice/StatusHandler.cpp
@@ -19,7 +19,7 @@ using proxygen::UpgradeProtocol;
 using proxygen::ResponseBuilder;
 
 void StatusHandler::onRequest(std::unique_ptr<HTTPMessage> headers) noexcept {
-    if (headers->getMethod().value() != HTTPMethod::GET) {
+    if (headers->getMethod() != HTTPMethod::GET) {
         // Unsupported method
         err_ = HttpCode::E_UNSUPPORTED_METHOD;
         return;
-- 
2.43.0


From 1c32eafcee0fa0fbf4ee9ae37d6b1f3d6678d8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 42/44] fix: StatusHandler is released when its request fails

---
 src/common/webservice/StatusHandler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/common/webservice/StatusHandler.cpp b/src/common/webservice/StatusHandler.cpp
index 4536714..ea2abed 100644
--- a/src/common/webservice/StatusHandler.cpp
+++ b/src/common/webservice/StatusHandler.cpp
@@ -64,6 +64,7 @@ void StatusHandler::requestComplete() noexcept {
 void StatusHandler::onError(ProxygenError error) noexcept {
     LOG(ERROR) << "Web service StorageHttpHandler got error: "
                << proxygen::getErrorString(error);
+    delete this;
 }
 
 folly::dynamic StatusHandler::getStatus() {
-- 
2.43.0


From 4fba4ae6c1f255d833b77a74edba4be963848204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:14 +0000
Subject: [PATCH 43/44] fix: setting flags answers requests without a body or
 not a JSON object of scalars

---
 src/common/webservice/SetFlagsHandler.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/common/webservice/SetFlagsHandler.cpp b/src/common/webservice/SetFlagsHandler.cpp
index 201f180..ee01c09 100644
--- a/src/common/webservice/SetFlagsHandler.cpp
+++ b/src/common/webservice/SetFlagsHandler.cpp
@@ -39,15 +39,17 @@ void SetFlagsHandler::onBody(std::unique_ptr<folly::IOBuf> body) noexcept {
 
 void SetFlagsHandler::onEOM() noexcept {
     folly::dynamic flags;
-    try {
-        std::string body = body_->moveToFbString().toStdString();
-        flags = folly::parseJson(body);
-        if (flags.empty()) {
+    if (err_ == HttpCode::SUCCEEDED) {
+        try {
+            std::string body = body_ ? body_->moveToFbString().toStdString() : "";
+            flags = folly::parseJson(body);
+            if (!flags.isObject() || flags.empty()) {
+                err_ = HttpCode::E_UNPROCESSABLE;
+            }
+        } catch (const std::exception &e) {
+            LOG(ERROR) << "Fail to update flags: " << e.what();
             err_ = HttpCode::E_UNPROCESSABLE;
         }
-    } catch (const std::exception &e) {
-        LOG(ERROR) << "Fail to update flags: " << e.what();
-        err_ = HttpCode::E_UNPROCESSABLE;
     }
     switch (err_) {
         case HttpCode::E_UNSUPPORTED_METHOD:
@@ -69,6 +71,11 @@ void SetFlagsHandler::onEOM() noexcept {
     folly::dynamic failedOptions = folly::dynamic::array();
     for (auto &item : flags.items()) {
         const std::string &name = item.first.asString();
+        if (item.second.isNull() || item.second.isArray() || item.second.isObject()) {
+            // No flag has a value of this kind
+            failedOptions.push_back(name);
+            continue;
+        }
         const std::string &value = item.second.asString();
         const std::string &newValue = gflags::SetCommandLineOption(name.c_str(), value.c_str());
         if (newValue.empty()) {
-- 
2.43.0


From 40ab8efa3874d1fe2e48480b048609258fe2afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:36 +0000
Subject: [PATCH 44/44] fix: showing a flag that does not exist in full does
 not end the process

---
 src/common/webservice/GetFlagsHandler.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/common/webservice/GetFlagsHandler.cpp b/src/common/webservice/GetFlagsHandler.cpp
index 36d2993..6bcdd08 100644
--- a/src/common/webservice/GetFlagsHandler.cpp
+++ b/src/common/webservice/GetFlagsHandler.cpp
@@ -138,6 +138,9 @@ void GetFlagsHandler::addOneFlag(folly::dynamic& vals,
             }
         } else {
             flag["value"] = nullptr;
+            if (verbose_) {
+                flag["default"] = nullptr;
+            }
             LOG(ERROR) << "Don't support converting the type [" << flagname << ":" << type << "]!";
         }
         if (verbose_) {
@@ -148,6 +151,14 @@ void GetFlagsHandler::addOneFlag(folly::dynamic& vals,
         }
     } else {
         flag["value"] = nullptr;
+        if (verbose_) {
+            // Everything that is shown of a flag
+            flag["default"] = nullptr;
+            flag["type"] = "";
+            flag["description"] = "";
+            flag["file"] = "";
+            flag["is_default"] = false;
+        }
     }
 
     vals.push_back(std::move(flag));
-- 
2.43.0

