From 19c31a5eada610282e2a3cdfb10627d8a1195f36 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:16:11 +0000
Subject: [PATCH 001/127] fix: delay line entries lost or late when a latency
 equals the line's length

Resizing for a latency equal to a power of two did not grow the line beyond
it: entries moved out of the wrapped part were written past the end of the
vector, and an entry stored in the slot of the current cycle was not moved by
a later resize and so delivered late.
---
 mpact/sim/generic/delay_line.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/generic/delay_line.h b/mpact/sim/generic/delay_line.h
index ceaf6d7..0a85ba0 100644
--- a/mpact/sim/generic/delay_line.h
+++ b/mpact/sim/generic/delay_line.h
@@ -118,17 +118,17 @@ class DelayLine : public DelayLineInterface {
   // resized so the latency is covered.
   void Resize(
       uint32_t min_size) /*ABSL_EXCLUSIVE_LOCKS_REQUIRED(delay_line_lock_)*/ {
-    // Compute a new size that's >= min_size and is a power of 2
-    // Given that the initial size is a power of two, multiplying the
-    // current size by two until it's greater or equal to min_size is
-    // sufficient.
+    // Compute a new size that's > min_size and is a power of 2. It has to be
+    // strictly greater, so that an entry with a latency of min_size does not
+    // share the slot of the current cycle, and so that the elements moved below
+    // fit.
     uint32_t prev_size = delay_line_.size();
 
     if (min_size < prev_size) {
       return;
     }
 
-    uint32_t new_size = absl::bit_ceil(min_size);
+    uint32_t new_size = absl::bit_ceil(min_size + 1);
 
     mask_ = new_size - 1;
     delay_line_.resize(new_size);
-- 
2.43.0


From ef351d0368c38d70109504e0e2f2b17049e9a4d2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:16:11 +0000
Subject: [PATCH 002/127] fix: DataBufferFactory::Clear() left dangling large
 buffers in the free list

The buckets were cleared in a copy, so buffers of more than 4096 bytes were
handed out, or deleted, again after Clear().
---
 mpact/sim/generic/data_buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.cc b/mpact/sim/generic/data_buffer.cc
index 5482a56..a6c0207 100644
--- a/mpact/sim/generic/data_buffer.cc
+++ b/mpact/sim/generic/data_buffer.cc
@@ -30,7 +30,7 @@ void DataBufferFactory::Clear() {
     }
     short_free_list_[i].clear();
   }
-  for (auto bucket : free_list_) {
+  for (auto& bucket : free_list_) {
     for (auto db : bucket.second) {
       delete db;
     }
-- 
2.43.0


From baba6d6f4415d81ebdf31e67d5402fd1f65656ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:16:11 +0000
Subject: [PATCH 003/127] fix: new and recycled data buffers had a stale
 destination and latency

The members were not initialized, and kept the values of the previous use when
the instance was recycled, so Submit() on a buffer without a destination could
write to a former one.
---
 mpact/sim/generic/data_buffer.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/generic/data_buffer.h b/mpact/sim/generic/data_buffer.h
index e06dcf4..a989bb8 100644
--- a/mpact/sim/generic/data_buffer.h
+++ b/mpact/sim/generic/data_buffer.h
@@ -84,6 +84,8 @@ class DataBufferFactory {
   // Moves the DataBuffer instance on to a free list based on the size of the
   // internal buffer. This method is only called by DataBuffere instances.
   inline void Recycle(DataBuffer* db);
+  // Prepares a recycled DataBuffer instance for its next use.
+  static inline void Reset(DataBuffer* db);
   // The DBStore keeps free DataBuffer instances in free lists by size of
   // the data_ store. That way runtime overhead is reduced, since DataBuffer
   // objects are allocated very frequently.
@@ -269,10 +271,10 @@ class DataBuffer : public ReferenceCount {
 
  private:
   explicit DataBuffer(unsigned size);
-  DataBufferFactory* db_factory_;
-  DataBufferDelayLine* delay_line_;
-  DataBufferDestination* destination_;
-  int latency_;
+  DataBufferFactory* db_factory_ = nullptr;
+  DataBufferDelayLine* delay_line_ = nullptr;
+  DataBufferDestination* destination_ = nullptr;
+  int latency_ = 0;
   unsigned size_;
   void* raw_ptr_;
 };
@@ -320,6 +322,15 @@ inline void DataBufferFactory::Recycle(DataBuffer* db) {
   }
 }
 
+// A recycled instance starts out just like a new one: with a single reference,
+// and without the destination, delay line and latency of its previous use.
+inline void DataBufferFactory::Reset(DataBuffer* db) {
+  db->ResetCounts();
+  db->delay_line_ = nullptr;
+  db->destination_ = nullptr;
+  db->latency_ = 0;
+}
+
 // Search through the DataBuffer recycled store to see if there is a buffer
 // of the appropriate size. If not, allocate a new one.
 inline DataBuffer* DataBufferFactory::Allocate(int size) {
@@ -330,8 +341,7 @@ inline DataBuffer* DataBufferFactory::Allocate(int size) {
       if (!free_list.empty()) {
         db = free_list.back();
         free_list.pop_back();
-        db->IncRef();
-        db->ResetCounts();
+        Reset(db);
         return db;
       }
     } else {
@@ -340,8 +350,7 @@ inline DataBuffer* DataBufferFactory::Allocate(int size) {
         if (!ptr->second.empty()) {
           db = ptr->second.back();
           ptr->second.pop_back();
-          db->IncRef();
-          db->ResetCounts();
+          Reset(db);
           return db;
         }
       }
-- 
2.43.0


From 30311943f3e8795ea1d8c8241e3a38160e54c940 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:33:51 +0000
Subject: [PATCH 004/127] fix: writing a status register released the data
 buffer twice

---
 mpact/sim/generic/status_register.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/status_register.h b/mpact/sim/generic/status_register.h
index e607e95..8d7a096 100644
--- a/mpact/sim/generic/status_register.h
+++ b/mpact/sim/generic/status_register.h
@@ -60,8 +60,8 @@ class StatusRegisterBase : public StateItemBase {
   T Read(T mask);
 
   void SetDataBuffer(DataBuffer* db) override {
-    // Read only state item, so just decrement the ref count and ignore.
-    db->DecRef();
+    // Read only state item, so just ignore the value. The reference held by the
+    // writer is released by DataBuffer::Submit() or the delay line.
   }
 
   void SetEvaluateFunction(int position, Evaluate eval) {
-- 
2.43.0


From 88432da6a29694bb336b8400f53c191b43762861 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:38:50 +0000
Subject: [PATCH 005/127] fix: instantiating the negation of a failing constant
 expression aborted

---
 mpact/sim/decoder/template_expression.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/template_expression.cc b/mpact/sim/decoder/template_expression.cc
index 8d88e7c..3e94409 100644
--- a/mpact/sim/decoder/template_expression.cc
+++ b/mpact/sim/decoder/template_expression.cc
@@ -176,11 +176,11 @@ absl::StatusOr<TemplateExpression*> TemplateNegate::Evaluate(
   // If expression is constant then can return a constant node.
   if (expr.value()->IsConstant()) {
     auto result = -expr.value()->GetValue();
+    delete expr.value();
     if (result.ok()) {
-      delete expr.value();
       return new TemplateConstant(result.value());
     } else {
-      return expr.status();
+      return result.status();
     }
   } else {
     return new TemplateNegate(expr.value());
-- 
2.43.0


From 9911c71ea210c0e4c12abe81f28ec27891d4d705 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 006/127] fix: 64 bit integers were classified as single
 precision values

---
 mpact/sim/generic/type_helpers.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index bd5ec36..ae269d6 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -367,14 +367,14 @@ struct FPTypeInfo<uint64_t> {
   using T = uint64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
@@ -396,14 +396,14 @@ struct FPTypeInfo<int64_t> {
   using T = int64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
-- 
2.43.0


From b00fe5e43f3b016de5bd65b60bd8711d3c5cc7d8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 007/127] fix: SignBit of a negative signed integer was false

---
 mpact/sim/generic/type_helpers.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index ae269d6..13b9c85 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -301,7 +301,7 @@ struct FPTypeInfo<int16_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1 << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) { return value < 0; }
 };
 
 template <>
@@ -359,7 +359,7 @@ struct FPTypeInfo<int32_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) { return value < 0; }
 };
 
 template <>
@@ -417,7 +417,7 @@ struct FPTypeInfo<int64_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) { return value < 0; }
 };
 
 inline float ConvertHalfToSingle(HalfFP half) {
-- 
2.43.0


From 7c6ae7ce21de250c9004e477ea40fdf4d6d5b714 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 008/127] fix: a socket stream closed by EOF closed its
 descriptor again when destroyed

---
 mpact/sim/util/renode/socket_streambuf.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index 5408563..f3b1fbb 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -31,12 +31,12 @@ namespace renode {
 class SocketStreambuf : public std::streambuf {
  public:
   explicit SocketStreambuf(int fd) : fd_(fd) {}
-  ~SocketStreambuf() override { close(fd_); }
+  ~SocketStreambuf() override { Close(); }
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
     if (c == EOF) {
-      close(fd_);
+      Close();
       return c;
     }
     if (c == '\xa') {
@@ -60,6 +60,12 @@ class SocketStreambuf : public std::streambuf {
   }
 
  private:
+  // Close the socket fd, but only once.
+  void Close() {
+    if (fd_ >= 0) close(fd_);
+    fd_ = -1;
+  }
+
   char ch_;
   int fd_;
 };
-- 
2.43.0


From fefc0bd0abf9f5d5610f3e29c34a80de99e365cd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 009/127] fix: a failed read from a socket stream delivered a
 stale character

---
 mpact/sim/util/renode/socket_streambuf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index f3b1fbb..705716a 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -50,10 +50,10 @@ class SocketStreambuf : public std::streambuf {
   // On underflow read character from the socket fd.
   std::streambuf::int_type underflow() override {
     int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    if (count <= 0) return traits_type::eof();
     if (ch_ == '\r') {
       count = read(fd_, &ch_, 1);
-      if (count == 0) return traits_type::eof();
+      if (count <= 0) return traits_type::eof();
     }
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
-- 
2.43.0


From 81c4faff1a5623b477dacd3ada818307f69cbe6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 010/127] fix: a socket stream ignored failed and short writes

---
 mpact/sim/util/renode/socket_streambuf.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index 705716a..9166fe1 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -39,12 +39,9 @@ class SocketStreambuf : public std::streambuf {
       Close();
       return c;
     }
-    if (c == '\xa') {
-      write(fd_, "\r\n", 2);
-      return c;
-    }
-    write(fd_, &c, 1);
-    return c;
+    const char ch = traits_type::to_char_type(c);
+    const bool ok = (ch == '\n') ? Write("\r\n", 2) : Write(&ch, 1);
+    return ok ? c : traits_type::eof();
   }
 
   // On underflow read character from the socket fd.
@@ -66,6 +63,17 @@ class SocketStreambuf : public std::streambuf {
     fd_ = -1;
   }
 
+  // Write all the characters. Returns false if the socket fails.
+  bool Write(const char* data, int size) {
+    while (size > 0) {
+      int count = write(fd_, data, size);
+      if (count <= 0) return false;
+      data += count;
+      size -= count;
+    }
+    return true;
+  }
+
   char ch_;
   int fd_;
 };
-- 
2.43.0


From 53b7c4096c875f55a844cc33d68e0919993bae1a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 011/127] fix: setting a bit just beyond a resource bit set
 wrote out of bounds

---
 mpact/sim/generic/resource_bitset.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 41986ac..aba21b5 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -58,7 +58,7 @@ ResourceBitSet::~ResourceBitSet() {
 void ResourceBitSet::Set(int position) {
   auto word = position / kBitsInUint;
   auto bit = position % kBitsInUint;
-  if (word > size_) Resize(position);
+  if (word >= size_) Resize(position + 1);
   bits_[word] |= static_cast<UInt>(1) << bit;
 }
 
-- 
2.43.0


From 18407ff290befedf0278ea85b694740af86da7e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 012/127] fix: self-assignment of a resource bit set read freed
 memory

---
 mpact/sim/generic/resource_bitset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index aba21b5..5d42bec 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -43,6 +43,7 @@ ResourceBitSet::ResourceBitSet(ResourceBitSet&& rhs) {
 }
 
 ResourceBitSet& ResourceBitSet::operator=(const ResourceBitSet& rhs) {
+  if (this == &rhs) return *this;
   delete[] bits_;
   size_ = rhs.size_;
   bits_ = new UInt[size_];
-- 
2.43.0


From c2d21d646aa161e291a71fd6da6b51e11625cb66 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 013/127] fix: shrinking a resource bit set kept bits beyond
 its new size

---
 mpact/sim/generic/resource_bitset.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 5d42bec..e91bd6b 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -128,8 +128,8 @@ void ResourceBitSet::Resize(int bit_size) {
   if (new_size <= size_) {
     int bit_offset = bit_size % kBitsInUint;
     UInt mask = ~(std::numeric_limits<UInt>::max() << bit_offset);
-    for (int i = new_size; i < size_; ++i) {
-      bits_[i] = bits_[i] & ~mask;
+    for (int i = bit_size / kBitsInUint; i < size_; ++i) {
+      bits_[i] = bits_[i] & mask;
       mask = 0;
     }
     return;
-- 
2.43.0


From 1c0ac6f563527b10e61878c2dafff02ea52ee51f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 014/127] fix: FindNextSetBit dereferenced a null position

---
 mpact/sim/generic/resource_bitset.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index e91bd6b..735b4c3 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -95,6 +95,7 @@ bool ResourceBitSet::FindFirstSetBit(int* position) const {
 bool ResourceBitSet::FindNextSetBit(int* position) const {
   if (position == nullptr) {
     LOG(ERROR) << "null position passed to FindNextSetBit";
+    return false;
   }
   int start_word = *position / kBitsInUint;
   int bit_position = *position % kBitsInUint;
-- 
2.43.0


From 63cb061b5962d20edafb02ab1f3ad6cbf5a14da3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:00:03 +0000
Subject: [PATCH 015/127] fix: a resource operand with latency 0 released its
 resources late

---
 mpact/sim/generic/simple_resource_operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/simple_resource_operand.h b/mpact/sim/generic/simple_resource_operand.h
index 9b6f9b9..36bbbdc 100644
--- a/mpact/sim/generic/simple_resource_operand.h
+++ b/mpact/sim/generic/simple_resource_operand.h
@@ -81,7 +81,7 @@ class SimpleResourceOperand : public ResourceOperandInterface {
   void Acquire() override {
     resource_set_->Acquire();
     // Schedule release
-    delay_line_->Add(latency_, resource_set_);
+    Release(latency_);
   }
 
   std::string AsString() const override { return resource_set_->AsString(); }
-- 
2.43.0


From 55cdf26471cbad1184c231dccf088ef4cf5ba809 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:10:16 +0000
Subject: [PATCH 016/127] fix: a cycle mask ending at a multiple of 64
 overflowed its array

---
 mpact/sim/generic/complex_resource_operand.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index a2413e4..16c1251 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -47,7 +47,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(size_t begin, size_t end) {
         end, ") is greater than cycle depth (", resource_->cycle_depth()));
   }
   // Compute the size of the array needed.
-  span_size_ = (end + 63) / 64;
+  span_size_ = end / 64 + 1;
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and clear the bytes.
-- 
2.43.0


From 9b221f0673055ae9e6ec9f7a1a67160db9f29442 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:10:16 +0000
Subject: [PATCH 017/127] fix: valid cycle masks were refused, and refused ones
 corrupted the operand

---
 mpact/sim/generic/complex_resource_operand.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index 16c1251..12019bb 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -73,10 +73,11 @@ absl::Status ComplexResourceOperand::SetCycleMask(
     return absl::InvalidArgumentError("Span too long for cycle mask");
   }
 
-  span_size_ = span.size();
-  // See if there are any bits set beyond the cycle depth of the resource.
+  // See if there are any bits set beyond the cycle depth of the resource. This
+  // is only possible in the last word of a full length span.
   size_t mod = resource_->cycle_depth() & 0x3f;
-  if (span[span_size_ - 1] >> mod) {
+  if ((mod != 0) && (span.size() == resource_->bit_array().size()) &&
+      (span[span.size() - 1] >> mod)) {
     return absl::InvalidArgumentError(
         absl::StrCat("Bits set beyond the cycle depth of resource '",
                      resource_->name(), "'"));
@@ -92,6 +93,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and copy the span.
+  span_size_ = span.size();
   bit_array_ = new uint64_t[span_size_];
   for (int i = 0; i < span_size_; i++) {
     bit_array_[i] = span[i];
-- 
2.43.0


From c0ae450d8cd453f8c9dc4c34e3dcfb35fcce9088 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:24:24 +0000
Subject: [PATCH 018/127] fix: writing a register's own data buffer to it
 released the buffer

---
 mpact/sim/generic/register.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/register.cc b/mpact/sim/generic/register.cc
index bf7c79a..7fed761 100644
--- a/mpact/sim/generic/register.cc
+++ b/mpact/sim/generic/register.cc
@@ -49,10 +49,11 @@ RegisterBase::~RegisterBase() {
 void RegisterBase::SetDataBuffer(DataBuffer* db) {
   // For now, ignore if the sizes don't match.
   // ABSL_HARDENING_ASSERT(db->size<uint8_t>() == size());
+  // Take the new reference first, in case db is the current data buffer.
+  db->IncRef();
   if (nullptr != data_buffer_) {
     data_buffer_->DecRef();
   }
-  db->IncRef();
   data_buffer_ = db;
 }
 
-- 
2.43.0


From 6384702ba10bf57f2fc93738e2d3f0e8b515e075 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:32:14 +0000
Subject: [PATCH 019/127] fix: the depth configuration entry of a fifo was
 never imported

---
 mpact/sim/generic/fifo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/fifo.cc b/mpact/sim/generic/fifo.cc
index b0e5d39..e5802f7 100644
--- a/mpact/sim/generic/fifo.cc
+++ b/mpact/sim/generic/fifo.cc
@@ -39,7 +39,8 @@ FifoBase::FifoBase(class ArchState* arch_state, absl::string_view name,
       name_(name),
       capacity_(default_capacity),
       reserved_(0) {
-  // empty
+  // The name is the first one in this component, so this cannot fail.
+  AddConfig(&depth_).IgnoreError();
 }
 
 FifoBase::~FifoBase() {
-- 
2.43.0


From c00a72b06146297016653e9d4a8e192397213aff Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:32:14 +0000
Subject: [PATCH 020/127] fix: a refused push to a token fifo used up a token

---
 mpact/sim/generic/token_fifo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 978d62d..7856638 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -67,7 +67,7 @@ bool TokenFifoBase::Push(DataBuffer* db) {
     }
     return false;
   }
-  FifoBase::Push(db);
+  if (!FifoBase::Push(db)) return false;
   // Acquire a token. There is an error if the fifo is not full but a token
   // cannot be acquired.
   if (!token_store_->Acquire().ok()) {
-- 
2.43.0


From 704ce3c615510d2a07c54bbd338d6281ed54e8a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:32:14 +0000
Subject: [PATCH 021/127] fix: popping a token fifo with only reserved slots
 released a token

---
 mpact/sim/generic/token_fifo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 7856638..b1fa7ca 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -81,7 +81,7 @@ bool TokenFifoBase::Push(DataBuffer* db) {
 }
 
 void TokenFifoBase::Pop() {
-  if (IsEmpty()) {
+  if (Available() == 0) {
     if (underflow_program_error() != nullptr) {
       underflow_program_error()->Raise("Underflow in " + name());
     }
-- 
2.43.0


From 34742499335a232a7062fda07f2f8b88754e3700 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:32:14 +0000
Subject: [PATCH 022/127] fix: fifo callbacks were made by pushes and pops that
 had no effect

---
 mpact/sim/generic/fifo_with_notify.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/fifo_with_notify.cc b/mpact/sim/generic/fifo_with_notify.cc
index a4e1db6..9958092 100644
--- a/mpact/sim/generic/fifo_with_notify.cc
+++ b/mpact/sim/generic/fifo_with_notify.cc
@@ -29,15 +29,16 @@ bool FifoWithNotifyBase::Push(DataBuffer* db) {
   if (!IsEmpty()) return FifoBase::Push(db);
 
   auto res = FifoBase::Push(db);
-  if (on_not_empty_) on_not_empty_(this);
+  if (res && on_not_empty_) on_not_empty_(this);
   return res;
 }
 
 // Call base class Pop. Only call the on_empty callback if the fifo is empty
 // after the pop.
 void FifoWithNotifyBase::Pop() {
+  bool was_empty = IsEmpty();
   FifoBase::Pop();
-  if (IsEmpty() && on_empty_) on_empty_(this);
+  if (!was_empty && IsEmpty() && on_empty_) on_empty_(this);
 }
 
 void FifoWithNotifyBase::SetOnNotEmpty(OnEventCallback callback) {
-- 
2.43.0


From 9ad746f7f3d0ced07c5fb084c9feb46f50fb206b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:46:43 +0000
Subject: [PATCH 023/127] fix: replacing an instruction's attributes used the
 wrong delete

---
 mpact/sim/generic/instruction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 6ba87f4..885d24e 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -112,7 +112,7 @@ Instruction::~Instruction() {
 std::string Instruction::AsString() const { return disasm_string_; }
 
 void Instruction::SetAttributes(absl::Span<const int> attributes) {
-  delete attribute_array_;
+  delete[] attribute_array_;
   attribute_array_ = new int[attributes.size()];
   std::memcpy(attribute_array_, attributes.data(),
               attributes.size() * sizeof(int));
-- 
2.43.0


From 3dc945fef463262a2b1274f59f7dc5ca0c044fa8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:46:43 +0000
Subject: [PATCH 024/127] fix: size and opcode of a new instruction were
 uninitialised

---
 mpact/sim/generic/instruction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/instruction.h b/mpact/sim/generic/instruction.h
index 12b66b6..e0cae56 100644
--- a/mpact/sim/generic/instruction.h
+++ b/mpact/sim/generic/instruction.h
@@ -200,11 +200,11 @@ class Instruction : public ReferenceCount {
   // that need to be reserved for writing.
   std::vector<ResourceOperandInterface*> resource_acquire_;
   // Simulated instruction size.
-  int size_;
+  int size_ = 0;
   // Simulated instruction address.
   uint64_t address_;
   // Integer value of the opcode enum.
-  int opcode_;
+  int opcode_ = 0;
   // Text string of disassembly of the instruction.
   std::string disasm_string_;
   // Optional integer attribute array. This allows the decoder to create and
-- 
2.43.0


From 2efef2f666f13502d22f199f43c73b2fc5801320 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:47:08 +0000
Subject: [PATCH 025/127] fix: all but the first child kept pointing to a
 deleted parent instruction

---
 mpact/sim/generic/instruction.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 885d24e..3f696a0 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -103,7 +103,10 @@ Instruction::~Instruction() {
     next_ = nullptr;
   }
   if (child_ != nullptr) {
-    child_->parent_ = nullptr;
+    // Any of the children may be kept alive by other references.
+    for (auto* inst = child_; inst != nullptr; inst = inst->next_) {
+      if (inst->parent_ == this) inst->parent_ = nullptr;
+    }
     child_->DecRef();
     child_ = nullptr;
   }
-- 
2.43.0


From e890f1f0ce4fa16bdcc401ae955bb20173949491 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:47:08 +0000
Subject: [PATCH 026/127] fix: creating a decode cache with an invalid pc
 increment crashed

---
 mpact/sim/generic/decode_cache.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index bbb9a6e..0de343e 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -28,14 +28,13 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
                          DecoderInterface* decoder)
     : decoder_(decoder), instruction_cache_(nullptr) {
   num_entries_ = absl::bit_ceil(props.num_entries);
-  address_shift_ =
-      (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
-  address_inc_ = 1 << address_shift_;
-  if (address_inc_ != props.minimum_pc_increment) {
+  if (!absl::has_single_bit(props.minimum_pc_increment)) {
     // minimum pc increment not a power of 2.
-    instruction_cache_ = nullptr;
     return;
   }
+  address_shift_ =
+      (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
+  address_inc_ = 1 << address_shift_;
   address_mask_ = (num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
@@ -110,6 +109,7 @@ void DecodeCache::InvalidateRange(uint64_t start_address,
 }
 
 void DecodeCache::InvalidateAll() {
+  if (nullptr == instruction_cache_) return;
   for (int entry = 0; entry < num_entries_; ++entry) {
     if (instruction_cache_[entry] != nullptr) {
       instruction_cache_[entry]->DecRef();
-- 
2.43.0


From c80b46708f22b802e1946aa93d33636acd8c3ed2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:47:08 +0000
Subject: [PATCH 027/127] fix: the address mask of a large decode cache was
 sign extended

---
 mpact/sim/generic/decode_cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index 0de343e..9ab6011 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -35,7 +35,7 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
   address_shift_ =
       (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
   address_inc_ = 1 << address_shift_;
-  address_mask_ = (num_entries_ - 1) << address_shift_;
+  address_mask_ = static_cast<uint64_t>(num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
   if (nullptr == instruction_cache_) {
-- 
2.43.0


From e812795e9cde2bfc3fe64d56299d9165a437603e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:47:08 +0000
Subject: [PATCH 028/127] fix: invalidating an unaligned or very large range of
 the decode cache

---
 mpact/sim/generic/decode_cache.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index 9ab6011..1be37fb 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -14,6 +14,7 @@
 
 #include "mpact/sim/generic/decode_cache.h"
 
+#include <algorithm>
 #include <cstdint>
 
 #include "absl/numeric/bits.h"
@@ -103,8 +104,19 @@ void DecodeCache::Invalidate(uint64_t address) {
 
 void DecodeCache::InvalidateRange(uint64_t start_address,
                                   uint64_t end_address) {
-  for (auto loc = start_address; loc < end_address; loc += address_inc_) {
-    Invalidate(loc);
+  if (start_address >= end_address) return;
+  // Visit each entry that may hold an instruction in the range once.
+  uint64_t first = start_address >> address_shift_;
+  uint64_t last = (end_address - 1) >> address_shift_;
+  uint64_t count = std::min<uint64_t>(last - first, num_entries_ - 1) + 1;
+  for (uint64_t i = 0; i < count; ++i) {
+    uint64_t entry = (first + i) & (num_entries_ - 1);
+    Instruction* inst = instruction_cache_[entry];
+    if ((nullptr != inst) && (inst->address() >= start_address) &&
+        (inst->address() < end_address)) {
+      inst->DecRef();
+      instruction_cache_[entry] = nullptr;
+    }
   }
 }
 
-- 
2.43.0


From 5cfb8e860e4bb0db39af21ed6833c3f3e5923b60 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:17:36 +0000
Subject: [PATCH 029/127] fix: performing the actions of an address without
 action point crashed

---
 mpact/sim/generic/action_point_manager_base.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index ea53a81..f5b0360 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -190,6 +190,7 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
   if (it == action_point_map_.end()) {
     LOG(ERROR) << absl::StrCat("No action point found at: ",
                                absl::Hex(address));
+    return;
   }
 
   for (auto& [id, action_ptr] : it->second->action_map) {
-- 
2.43.0


From 8f8126efd8f116a24a772684a61241cb49c35d7a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:17:36 +0000
Subject: [PATCH 030/127] fix: action points were out of step with memory after
 a failed write

---
 .../sim/generic/action_point_manager_base.cc  | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index f5b0360..47fbbf5 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -86,16 +86,18 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
     return absl::NotFoundError(
         absl::StrCat("No action ", id, "found at: ", absl::Hex(address)));
   }
-  // Remove the action.
   auto* action_info = action_it->second;
-  ap->action_map.erase(action_it);
-  ap->num_active -= action_info->is_enabled ? 1 : 0;
-  delete action_info;
+  int num_active = ap->num_active - (action_info->is_enabled ? 1 : 0);
   // If there are no other active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  // If that fails, the action remains.
+  if (num_active == 0) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Remove the action.
+  ap->action_map.erase(action_it);
+  ap->num_active = num_active;
+  delete action_info;
   return absl::OkStatus();
 }
 
@@ -115,13 +117,14 @@ absl::Status ActionPointManagerBase::EnableAction(uint64_t address, int id) {
   }
   // If it is already enabled, return ok.
   if (action_it->second->is_enabled) return absl::OkStatus();
-  action_it->second->is_enabled = true;
-  ap->num_active++;
-  // If there is only one active action (this), write a breakpoint instruction.
-  if (ap->num_active == 1) {
+  // If there are no other active actions, write a breakpoint instruction. If
+  // that fails, the action remains disabled.
+  if (ap->num_active == 0) {
     auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
     if (!status.ok()) return status;
   }
+  action_it->second->is_enabled = true;
+  ap->num_active++;
   return absl::OkStatus();
 }
 
@@ -141,14 +144,15 @@ absl::Status ActionPointManagerBase::DisableAction(uint64_t address, int id) {
   }
   // If it is already disabled, return ok.
   if (!action_it->second->is_enabled) return absl::OkStatus();
-  // Disable the action.
-  action_it->second->is_enabled = false;
-  ap->num_active--;
-  // If there are no active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  // If there are no other active actions, write back the original instruction.
+  // If that fails, the action remains enabled.
+  if (ap->num_active == 1) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Disable the action.
+  action_it->second->is_enabled = false;
+  ap->num_active--;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 85e3ba4660d51604ecac482fce2d7a0c77b7002e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:17:36 +0000
Subject: [PATCH 031/127] fix: an action clearing itself or its neighbours
 invalidated the list being performed

---
 .../sim/generic/action_point_manager_base.cc  | 21 ++++++++++++-------
 mpact/sim/generic/action_point_manager_base.h |  3 ++-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index 47fbbf5..9d90552 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -15,7 +15,9 @@
 #include "mpact/sim/generic/action_point_manager_base.h"
 
 #include <cstdint>
+#include <memory>
 #include <utility>
+#include <vector>
 
 #include "absl/log/log.h"
 #include "absl/status/status.h"
@@ -31,8 +33,7 @@ ActionPointManagerBase::ActionPointManagerBase(
 ActionPointManagerBase::~ActionPointManagerBase() {
   for (auto& [unused, ap_ptr] : action_point_map_) {
     for (auto& [unused, ai_ptr] : ap_ptr->action_map) {
-      ai_ptr->action_fcn = nullptr;
-      delete ai_ptr;
+      ai_ptr->is_enabled = false;
     }
     ap_ptr->action_map.clear();
     delete ap_ptr;
@@ -65,8 +66,8 @@ absl::StatusOr<int> ActionPointManagerBase::SetAction(uint64_t address,
   }
   // Add the function as an enabled action.
   int id = ap->next_id++;
-  auto* action_info =
-      new ActionInfo(std::move(action_fcn), /*is_enabled=*/true);
+  auto action_info = std::make_shared<ActionInfo>(std::move(action_fcn),
+                                                  /*is_enabled=*/true);
   ap->action_map.insert(std::make_pair(id, action_info));
   ap->num_active++;
   return id;
@@ -86,7 +87,7 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
     return absl::NotFoundError(
         absl::StrCat("No action ", id, "found at: ", absl::Hex(address)));
   }
-  auto* action_info = action_it->second;
+  auto action_info = action_it->second;
   int num_active = ap->num_active - (action_info->is_enabled ? 1 : 0);
   // If there are no other active actions, write back the original instruction.
   // If that fails, the action remains.
@@ -97,7 +98,7 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
   // Remove the action.
   ap->action_map.erase(action_it);
   ap->num_active = num_active;
-  delete action_info;
+  action_info->is_enabled = false;
   return absl::OkStatus();
 }
 
@@ -180,7 +181,7 @@ bool ActionPointManagerBase::IsActionEnabled(uint64_t address, int id) const {
 void ActionPointManagerBase::ClearAllActionPoints() {
   for (auto& [address, ap_ptr] : action_point_map_) {
     for (auto& [unused, action_ptr] : ap_ptr->action_map) {
-      delete action_ptr;
+      action_ptr->is_enabled = false;
     }
     ap_ptr->action_map.clear();
     (void)ap_memory_interface_->WriteOriginalInstruction(ap_ptr->address);
@@ -197,7 +198,11 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
     return;
   }
 
-  for (auto& [id, action_ptr] : it->second->action_map) {
+  // The actions may themselves set, clear, enable or disable actions, so work
+  // on a copy of the list.
+  std::vector<std::pair<int, std::shared_ptr<ActionInfo>>> actions(
+      it->second->action_map.begin(), it->second->action_map.end());
+  for (auto& [id, action_ptr] : actions) {
     if (action_ptr->is_enabled) action_ptr->action_fcn(address, id);
   }
 }
diff --git a/mpact/sim/generic/action_point_manager_base.h b/mpact/sim/generic/action_point_manager_base.h
index 798c461..9b7b9b6 100644
--- a/mpact/sim/generic/action_point_manager_base.h
+++ b/mpact/sim/generic/action_point_manager_base.h
@@ -16,6 +16,7 @@
 #define MPACT_SIM_GENERIC_ACTION_POINT_MANAGER_BASE_H_
 
 #include <cstdint>
+#include <memory>
 #include <utility>
 
 #include "absl/container/btree_map.h"
@@ -112,7 +113,7 @@ class ActionPointManagerBase {
     // Number of 'actions' that are enabled.
     int num_active = 0;
     // Map from id to action function struct.
-    absl::btree_map<int, ActionInfo*> action_map;
+    absl::btree_map<int, std::shared_ptr<ActionInfo>> action_map;
     ActionPointInfo(uint64_t address) : address(address) {}
   };
 
-- 
2.43.0


From a19c3bed3db98e21c6e91c4707f95991f9239263 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:27:03 +0000
Subject: [PATCH 032/127] fix: adding a null counter or configuration entry to
 a component crashed

---
 mpact/sim/generic/component.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/generic/component.cc b/mpact/sim/generic/component.cc
index a4aa0f7..e235268 100644
--- a/mpact/sim/generic/component.cc
+++ b/mpact/sim/generic/component.cc
@@ -78,12 +78,18 @@ absl::Status Component::AddChildComponent(Component& child) {
   return absl::OkStatus();
 }
 absl::Status Component::AddCounter(CounterBaseInterface* counter) {
+  if (counter == nullptr) {
+    return absl::InvalidArgumentError("counter is nullptr");
+  }
   if (!counter->IsInitialized()) {
     return absl::InvalidArgumentError("Counter has not been initialized");
   }
   return AddMapEntry(counter->GetName(), counter, &counter_map_);
 }
 absl::Status Component::AddConfig(ConfigBase* config) {
+  if (config == nullptr) {
+    return absl::InvalidArgumentError("config is nullptr");
+  }
   return AddMapEntry(config->name(), config, &config_map_);
 }
 
-- 
2.43.0


From 752d29e4a411372d6fbfccf564c15f43690ba06c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:27:03 +0000
Subject: [PATCH 033/127] fix: a component removed from its parent kept
 pointing to it

---
 mpact/sim/generic/component.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/component.cc b/mpact/sim/generic/component.cc
index e235268..64e34de 100644
--- a/mpact/sim/generic/component.cc
+++ b/mpact/sim/generic/component.cc
@@ -102,6 +102,7 @@ absl::Status Component::RemoveChildComponent(absl::string_view name) {
   if (iter == child_map_.end())
     return absl::NotFoundError(
         absl::StrCat("No such child component '", name, "'"));
+  if (iter->second->parent() == this) iter->second->SetParent(nullptr);
   child_map_.erase(iter);
   return absl::OkStatus();
 }
-- 
2.43.0


From 32aa060fd296cacbd224f2a874c47a0b36df426f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:27:03 +0000
Subject: [PATCH 034/127] fix: values of new configuration entries and counters
 were uninitialised

---
 mpact/sim/generic/config.h   | 2 +-
 mpact/sim/generic/counters.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/config.h b/mpact/sim/generic/config.h
index 346804b..ba31cc7 100644
--- a/mpact/sim/generic/config.h
+++ b/mpact/sim/generic/config.h
@@ -105,7 +105,7 @@ class Config : public ConfigBase {
   using ValueWrittenCallback = std::function<void()>;
 
   Config() = delete;
-  explicit Config(absl::string_view name) : ConfigBase(name) {}
+  explicit Config(absl::string_view name) : ConfigBase(name), value_() {}
   Config(absl::string_view name, T value) : ConfigBase(name), value_(value) {}
   ~Config() override = default;
 
diff --git a/mpact/sim/generic/counters.h b/mpact/sim/generic/counters.h
index a544201..8a413a2 100644
--- a/mpact/sim/generic/counters.h
+++ b/mpact/sim/generic/counters.h
@@ -84,7 +84,8 @@ class CounterValueOutputBase : public CounterBaseInterface {
   // Constructors and destructor.
   // The default constructor does not initialize the counter. A separate call
   // to Initialize(..) is required before it can be added to a component.
-  CounterValueOutputBase() : is_enabled_(false), is_initialized_(false) {}
+  CounterValueOutputBase()
+      : is_enabled_(false), is_initialized_(false), value_() {}
   // Constructs and initializes the counter.
   CounterValueOutputBase(std::string name, std::string about, const T initial)
       : name_(std::move(name)),
-- 
2.43.0


From d35aff972bc061d74f57b47c1054b068c0cdedb1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:45:18 +0000
Subject: [PATCH 035/127] fix: accesses far out of the range of a flat memory
 were not refused

The byte offset and the end of the access were computed modulo 2^64, so that
an access just below base + 2^64 (or >> shift) passed the range check and read
or wrote outside of the buffer.
---
 mpact/sim/util/memory/flat_memory.cc |  6 ++----
 mpact/sim/util/memory/flat_memory.h  | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.cc b/mpact/sim/util/memory/flat_memory.cc
index a3ceee6..3e479bb 100644
--- a/mpact/sim/util/memory/flat_memory.cc
+++ b/mpact/sim/util/memory/flat_memory.cc
@@ -26,9 +26,8 @@ namespace util {
 
 void FlatMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
                       ReferenceCount* context) {
-  ABSL_HARDENING_ASSERT(address >= base_);
+  ABSL_HARDENING_ASSERT(InRange(address, db->size<uint8_t>()));
   uint64_t offset = (address - base_) << shift_;
-  ABSL_HARDENING_ASSERT(offset + db->size<uint8_t>() <= size_);
   uint8_t* ptr = &memory_buffer_[offset];
   db->CopyFrom(ptr);
   if (nullptr != inst) {
@@ -88,9 +87,8 @@ void FlatMemory::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
 }
 
 void FlatMemory::Store(uint64_t address, DataBuffer* db) {
-  ABSL_HARDENING_ASSERT(address >= base_);
+  ABSL_HARDENING_ASSERT(InRange(address, db->size<uint8_t>()));
   uint64_t offset = (address - base_) << shift_;
-  ABSL_HARDENING_ASSERT(offset + db->size<uint8_t>() <= size_);
   uint8_t* ptr = &memory_buffer_[offset];
   db->CopyTo(ptr);
 }
diff --git a/mpact/sim/util/memory/flat_memory.h b/mpact/sim/util/memory/flat_memory.h
index b51c3d8..ab834b6 100644
--- a/mpact/sim/util/memory/flat_memory.h
+++ b/mpact/sim/util/memory/flat_memory.h
@@ -101,6 +101,16 @@ class FlatMemory : public MemoryInterface {
   int shift() const { return shift_; }
 
  private:
+  // Returns true if the access of 'size' bytes at 'address' is contained in the
+  // memory. Written so as to avoid overflow for addresses far out of range.
+  bool InRange(uint64_t address, uint64_t size) const {
+    if (address < base_) return false;
+    uint64_t byte_size = static_cast<uint64_t>(size_);
+    uint64_t unit_offset = address - base_;
+    if (unit_offset > (byte_size >> shift_)) return false;
+    return size <= byte_size - (unit_offset << shift_);
+  }
+
   // Private helper function used for copying data from memory to the
   // databuffer for the vector gather load.
   template <typename T>
@@ -113,9 +123,8 @@ class FlatMemory : public MemoryInterface {
       if (masks[entry]) {
         uint64_t address =
             gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
-        ABSL_HARDENING_ASSERT(address >= base_);
+        ABSL_HARDENING_ASSERT(InRange(address, sizeof(T)));
         uint64_t offset = (address - base_) << shift_;
-        ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
         db->Set<T>(entry, *reinterpret_cast<T*>(&memory_buffer_[offset]));
       }
     }
@@ -133,9 +142,8 @@ class FlatMemory : public MemoryInterface {
       if (masks[entry]) {
         uint64_t address =
             gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
-        ABSL_HARDENING_ASSERT(address >= base_);
+        ABSL_HARDENING_ASSERT(InRange(address, sizeof(T)));
         uint64_t offset = (address - base_) << shift_;
-        ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
         *reinterpret_cast<T*>(&memory_buffer_[offset]) = db->Get<T>(entry);
       }
     }
-- 
2.43.0


From f0e8d0f94d9bcb1634432d22a7cf643dffb4a278 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:45:18 +0000
Subject: [PATCH 036/127] fix: unit stride vectors in a flat memory with units
 larger than a byte

Addresses are in addressable units, but the elements were placed as many units
apart as they have bytes.
---
 mpact/sim/util/memory/flat_memory.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.h b/mpact/sim/util/memory/flat_memory.h
index ab834b6..3aee2d8 100644
--- a/mpact/sim/util/memory/flat_memory.h
+++ b/mpact/sim/util/memory/flat_memory.h
@@ -122,7 +122,8 @@ class FlatMemory : public MemoryInterface {
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry]
+                   : addresses[0] + ((entry * sizeof(T)) >> shift_);
         ABSL_HARDENING_ASSERT(InRange(address, sizeof(T)));
         uint64_t offset = (address - base_) << shift_;
         db->Set<T>(entry, *reinterpret_cast<T*>(&memory_buffer_[offset]));
@@ -141,7 +142,8 @@ class FlatMemory : public MemoryInterface {
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry]
+                   : addresses[0] + ((entry * sizeof(T)) >> shift_);
         ABSL_HARDENING_ASSERT(InRange(address, sizeof(T)));
         uint64_t offset = (address - base_) << shift_;
         *reinterpret_cast<T*>(&memory_buffer_[offset]) = db->Get<T>(entry);
-- 
2.43.0


From b836496f16710a70a3fb0dfcfcfca7cc5e083427 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:45:18 +0000
Subject: [PATCH 037/127] fix: a delayed load from flat memory did not keep its
 instruction alive

The instruction could be deleted (e.g., evicted from the decode cache) before
the function delay line executed it.
---
 mpact/sim/util/memory/flat_memory.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.cc b/mpact/sim/util/memory/flat_memory.cc
index 3e479bb..f0bd1dd 100644
--- a/mpact/sim/util/memory/flat_memory.cc
+++ b/mpact/sim/util/memory/flat_memory.cc
@@ -32,14 +32,16 @@ void FlatMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
   db->CopyFrom(ptr);
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef the instruction and, if non-null, the context before
+      // storing them in the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
@@ -71,14 +73,16 @@ void FlatMemory::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
   }
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef the instruction and, if non-null, the context before
+      // storing them in the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
-- 
2.43.0


From afb636468d776cd4f00a4594ddc1e8ed009fe217 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:45:43 +0000
Subject: [PATCH 038/127] fix: range of a demand memory extending to the end of
 the address space

With a base address other than 0 and the default size the end of the range
wrapped around, and every access was out of bounds. Conversely an access
wrapping around the end of the address space was accepted.
---
 mpact/sim/util/memory/flat_demand_memory.cc | 13 +++++++++----
 mpact/sim/util/memory/flat_demand_memory.h  | 10 ++++++++++
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 841d85f..1c2e1e1 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -33,8 +33,13 @@ FlatDemandMemory::FlatDemandMemory(uint64_t memory_size_in_units,
                                    unsigned addressable_unit_size, uint8_t fill)
     : base_address_(base_address),
       max_address_(base_address + memory_size_in_units),
+      size_in_units_(memory_size_in_units),
       fill_value_(fill),
       allocation_byte_size_(kAllocationSize * addressable_unit_size) {
+  // The memory cannot extend beyond the end of the address space.
+  if (base_address != 0) {
+    size_in_units_ = std::min(memory_size_in_units, ~base_address + 1);
+  }
   // Compute the addressable unit shift.
   ABSL_HARDENING_ASSERT(
       (addressable_unit_size != 0) &&
@@ -49,7 +54,7 @@ void FlatDemandMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
                             ReferenceCount* context) {
   int size_in_units = db->size<uint8_t>() >> addressable_unit_shift_;
   uint64_t high = address + size_in_units;
-  if (address < base_address_ || high > max_address_) [[unlikely]] {
+  if (!InRange(address, size_in_units)) [[unlikely]] {
     LOG(WARNING) << absl::StrFormat(
         "Load access [%x, %x] out of bounds [%x, %x]\n", address, high,
         base_address_, max_address_);
@@ -99,7 +104,7 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
     if (!mask_span[i]) continue;
     uint64_t address = gather ? address_span[i] : address_span[0] + i * el_size;
     uint64_t high = address + size_in_units;
-    if (address < base_address_ || high > max_address_) [[unlikely]] {
+    if (!InRange(address, size_in_units)) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
           "Load access [%x, %x] out of bounds [%x, %x]\n", address, high,
           base_address_, max_address_);
@@ -128,7 +133,7 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 void FlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
   int size_in_units = db->size<uint8_t>() >> addressable_unit_shift_;
   uint64_t high = address + size_in_units;
-  if (address < base_address_ || high > max_address_) [[unlikely]] {
+  if (!InRange(address, size_in_units)) [[unlikely]] {
     LOG(ERROR) << absl::StrFormat(
         "Store access [%x, %x] out of bounds [%x, %x]\n", address, high,
         base_address_, max_address_);
@@ -162,7 +167,7 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
     uint64_t address =
         scatter ? address_span[i] : address_span[0] + i * el_size;
     uint64_t high = address + size_in_units;
-    if (address < base_address_ || high > max_address_) [[unlikely]] {
+    if (!InRange(address, size_in_units)) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
           "Store access [%x, %x] out of bounds [%x, %x]\n", address, high,
           base_address_, max_address_);
diff --git a/mpact/sim/util/memory/flat_demand_memory.h b/mpact/sim/util/memory/flat_demand_memory.h
index 002185b..7d7a1db 100644
--- a/mpact/sim/util/memory/flat_demand_memory.h
+++ b/mpact/sim/util/memory/flat_demand_memory.h
@@ -91,6 +91,15 @@ class FlatDemandMemory : public MemoryInterface {
   void Clear();
 
  private:
+  // Returns true if the access of 'size_in_units' at 'address' is contained in
+  // the memory. Avoids computing the end address of the access or the memory,
+  // as it may be the end of the address space.
+  bool InRange(uint64_t address, uint64_t size_in_units) const {
+    if (address < base_address_) return false;
+    uint64_t offset = address - base_address_;
+    return (offset <= size_in_units_) &&
+           (size_in_units <= size_in_units_ - offset);
+  }
   void LoadStoreHelper(uint64_t address, uint8_t* data_ptr, int size_in_units,
                        bool is_load);
 
@@ -98,6 +107,7 @@ class FlatDemandMemory : public MemoryInterface {
   static constexpr uint64_t kAllocationMask = kAllocationSize - 1;
   uint64_t base_address_;
   uint64_t max_address_;
+  uint64_t size_in_units_;
   uint8_t fill_value_;
   int addressable_unit_shift_;
   int allocation_byte_size_;
-- 
2.43.0


From b9340f67c91deeb0b559c2100ffe23a100ca5a6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:45:43 +0000
Subject: [PATCH 039/127] fix: unit stride vectors in a demand memory with
 units larger than a byte

Addresses are in addressable units, but the elements were placed as many units
apart as they have bytes.
---
 mpact/sim/util/memory/flat_demand_memory.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 1c2e1e1..3c857ed 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -102,7 +102,8 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
   bool gather = address_span.size() > 1;
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
-    uint64_t address = gather ? address_span[i] : address_span[0] + i * el_size;
+    uint64_t address =
+        gather ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (!InRange(address, size_in_units)) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
@@ -165,7 +166,7 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     uint64_t address =
-        scatter ? address_span[i] : address_span[0] + i * el_size;
+        scatter ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (!InRange(address, size_in_units)) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
-- 
2.43.0


From 43f642ddce625dcfff8b2de6482ebfa317f375ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:51:33 +0000
Subject: [PATCH 040/127] fix: tags of unit stride vector stores were cleared
 by the first mask

With the first element masked off no tags were cleared for the elements that
were stored, otherwise the tags of masked off elements were cleared too.
---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 2537544..fa4383e 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -106,19 +106,21 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
 // Untagged vector store.
 void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db) {
-  unsigned num_stores = address_db->size<uint64_t>();
-  if (num_stores == 0) return;
-  unsigned store_size = db->size<uint8_t>() / num_stores;
+  auto address_span = address_db->Get<uint64_t>();
+  if (address_span.empty()) return;
   auto mask_span = mask_db->Get<bool>();
   // Perform stores.
   data_memory_->Store(address_db, mask_db, el_size, db);
   // With no tag data supplied, clear the tags, however, since this is a non
   // tagged store, we are not guaranteed to have proper alignment. Use the 64
   // bit address version of the Store() call for each set of tags.
-  unsigned index = 0;
-  for (auto address : address_db->Get<uint64_t>()) {
+  // If there is only one address it is a unit stride store.
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
     // Clear any affected tags.
-    if (mask_span[index++]) ClearTags(address, store_size);
+    if (!mask_span[i]) continue;
+    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
+              el_size);
   }
 }
 
-- 
2.43.0


From 7f5c1bca5466d78713137ca14bcd8b33beede00c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:51:33 +0000
Subject: [PATCH 041/127] fix: storing only tags to tagged memory crashed

Loads without a data buffer are supported.
---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index fa4383e..a120373 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -78,8 +78,8 @@ void TaggedFlatDemandMemory::Load(uint64_t address, DataBuffer* db,
 void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db,
                                    DataBuffer* tags) {
   if (!CheckRequest(address, db, tags)) return;
-  // Store data and tags.
-  data_memory_->Store(address, db);
+  // Store data and tags. If db is null, this is just a store of tag bits.
+  if (db != nullptr) data_memory_->Store(address, db);
   tag_memory_->Store(address >> tag_granule_shift_, tags);
 }
 
-- 
2.43.0


From f0481c7cfc4c658436e4a2610bbc2e6e42da1ea0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:51:33 +0000
Subject: [PATCH 042/127] fix: no tags for the last granule of a tagged memory

The number of tags was rounded down if the memory did not start or end at a
multiple of the granule, or extended to the end of the address space. Untagged
stores to the last granule were then a fatal error.
---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index a120373..1046f92 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -14,6 +14,7 @@
 
 #include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
 
+#include <algorithm>
 #include <bit>
 #include <cstdint>
 #include <cstring>
@@ -46,8 +47,13 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
                                       addressable_unit_size, fill);
   // 8 tags per byte, so shift by log2(granule).
   tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
-  tag_memory_ = new FlatDemandMemory(memory_size_in_units >> tag_granule_shift_,
-                                     base_address >> tag_granule_shift_, 1, 0);
+  // There is a tag for every granule that is at least partly in the memory.
+  uint64_t last_address =
+      base_address + std::min(memory_size_in_units - 1, ~base_address);
+  uint64_t first_tag = base_address >> tag_granule_shift_;
+  uint64_t last_tag = last_address >> tag_granule_shift_;
+  tag_memory_ =
+      new FlatDemandMemory(last_tag - first_tag + 1, first_tag, 1, 0);
   db_factory_ = new DataBufferFactory();
 }
 
-- 
2.43.0


From 3c4c87efb34995a207143029d75439328251112e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:51:33 +0000
Subject: [PATCH 043/127] fix: tags of a tagged memory with units larger than a
 byte

The tag granule is in bytes, but addresses are in addressable units. They were
compared and shifted as if both were in bytes.
---
 .../util/memory/tagged_flat_demand_memory.cc    | 17 +++++++++++------
 .../sim/util/memory/tagged_flat_demand_memory.h |  1 +
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 1046f92..0577d6c 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -43,10 +43,14 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
                                                unsigned tag_granule)
     : tag_granule_(tag_granule) {
   if (!absl::has_single_bit(tag_granule_)) return;
+  if (tag_granule_ < addressable_unit_size) return;
   data_memory_ = new FlatDemandMemory(memory_size_in_units, base_address,
                                       addressable_unit_size, fill);
-  // 8 tags per byte, so shift by log2(granule).
-  tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
+  // The granule is in bytes, but addresses are in addressable units, so shift
+  // addresses by log2(granule / addressable_unit_size).
+  addressable_unit_shift_ = absl::bit_width(addressable_unit_size) - 1;
+  tag_granule_shift_ =
+      absl::bit_width(tag_granule_) - 1 - addressable_unit_shift_;
   // There is a tag for every granule that is at least partly in the memory.
   uint64_t last_address =
       base_address + std::min(memory_size_in_units - 1, ~base_address);
@@ -125,8 +129,8 @@ void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     // Clear any affected tags.
     if (!mask_span[i]) continue;
-    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
-              el_size);
+    uint64_t offset = (i * el_size) >> addressable_unit_shift_;
+    ClearTags(scatter ? address_span[i] : address_span[0] + offset, el_size);
   }
 }
 
@@ -140,7 +144,7 @@ bool TaggedFlatDemandMemory::CheckRequest(uint64_t address,
         " not aligned to tag granule (", tag_granule_, ")");
     return false;
   }
-  if ((db != nullptr) && (db->size<uint8_t>() & mask)) {
+  if ((db != nullptr) && (db->size<uint8_t>() & (tag_granule_ - 1))) {
     LOG(ERROR) << absl::StrCat(
         "Size (", db->size<uint8_t>(), ") of tagged load to ",
         absl::Hex(address, absl::kZeroPad16),
@@ -182,7 +186,8 @@ void TaggedFlatDemandMemory::FinishLoad(int latency, Instruction* inst,
 // Clear the tags for the given range of memory.
 void TaggedFlatDemandMemory::ClearTags(uint64_t address, unsigned size) {
   uint64_t lo = address >> tag_granule_shift_;
-  uint64_t hi = (address + size - 1) >> tag_granule_shift_;
+  uint64_t hi = (address + ((size - 1) >> addressable_unit_shift_)) >>
+                tag_granule_shift_;
   int num_tags = hi - lo + 1;
   auto* tag_db = db_factory_->Allocate(num_tags);
   std::memset(tag_db->raw_ptr(), 0, num_tags);
diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.h b/mpact/sim/util/memory/tagged_flat_demand_memory.h
index 1c7bbf1..4ae2431 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.h
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.h
@@ -126,6 +126,7 @@ class TaggedFlatDemandMemory : public TaggedMemoryInterface {
 
   unsigned tag_granule_;
   unsigned tag_granule_shift_;
+  unsigned addressable_unit_shift_;
   FlatDemandMemory* data_memory_ = nullptr;
   FlatDemandMemory* tag_memory_ = nullptr;
   generic::DataBufferFactory* db_factory_ = nullptr;
-- 
2.43.0


From 91eb1ee9e87797499cad1121c974ec8bfabe4468 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:52:07 +0000
Subject: [PATCH 044/127] fix: the instruction of a tag load from untagged
 memory was never executed

---
 .../tagged_to_untagged_memory_transactor.cc   | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
index ed08831..1031dc3 100644
--- a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
+++ b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
@@ -61,8 +61,24 @@ void TaggedToUntaggedMemoryTransactor::Load(uint64_t address, DataBuffer* db,
                                             DataBuffer* tags, Instruction* inst,
                                             ReferenceCount* context) {
   std::memset(tags->raw_ptr(), 0, tags->size<uint8_t>());
-  if (db == nullptr) return;
-  target_mem_->Load(address, db, inst, context);
+  if (db != nullptr) {
+    target_mem_->Load(address, db, inst, context);
+    return;
+  }
+  // This is just a load of tag bits, so there is nothing to forward, but the
+  // instruction still has to be executed.
+  if (inst == nullptr) return;
+  if (tags->latency() == 0) {
+    inst->Execute(context);
+    return;
+  }
+  inst->IncRef();
+  if (context != nullptr) context->IncRef();
+  inst->state()->function_delay_line()->Add(tags->latency(), [inst, context]() {
+    inst->Execute(context);
+    if (context != nullptr) context->DecRef();
+    inst->DecRef();
+  });
 }
 
 // For tagged stores, ignore the tags. just forward to the target mem interface.
-- 
2.43.0


From d4263b5110b6de9ece7ffe73e265067f966b6e5e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:52:07 +0000
Subject: [PATCH 045/127] fix: stores across granules did not break load links

Only the tag of the first byte of a store was removed, so that a store
conditional succeeded in spite of an intervening store to its location that
started in an earlier granule. Likewise only the first element of a unit
stride vector store was considered, and masked off elements were too.
---
 mpact/sim/util/memory/atomic_memory.cc        | 29 +++++++++------
 mpact/sim/util/memory/atomic_memory.h         |  2 ++
 mpact/sim/util/memory/atomic_tagged_memory.cc | 36 ++++++++++---------
 mpact/sim/util/memory/atomic_tagged_memory.h  |  2 ++
 4 files changed, 42 insertions(+), 27 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index b121477..e1c2b58 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -132,23 +132,22 @@ void AtomicMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove the tags of any locations written.
+  ClearTags(address, db->size<uint8_t>());
   memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                          int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove the tags of any locations written. If there is only one address, it
+  // is a unit stride store.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  bool scatter = addresses.size() > 1;
+  for (unsigned i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    ClearTags(scatter ? addresses[i] : addresses[0] + i * el_size, el_size);
   }
   memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -261,6 +260,14 @@ void AtomicMemory::WriteBack(Instruction* inst, ReferenceCount* context,
   }
 }
 
+// Clear the load linked tags of the 'size' bytes starting at 'address'.
+void AtomicMemory::ClearTags(uint64_t address, int size) {
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; tag++) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 DataBuffer* AtomicMemory::GetDb(int size) const {
   switch (size) {
     case 1:
diff --git a/mpact/sim/util/memory/atomic_memory.h b/mpact/sim/util/memory/atomic_memory.h
index 1864787..568487a 100644
--- a/mpact/sim/util/memory/atomic_memory.h
+++ b/mpact/sim/util/memory/atomic_memory.h
@@ -76,6 +76,8 @@ class AtomicMemory : public MemoryInterface, public AtomicMemoryOpInterface {
   static constexpr int kTagShift = 3;
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
+  // Clear the load linked tags of the bytes written by a store.
+  void ClearTags(uint64_t address, int size);
   // Returns the db of the given size.
   DataBuffer* GetDb(int size) const;
   MemoryInterface* memory_ = nullptr;
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 9d43890..cfb5993 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -141,33 +141,29 @@ void AtomicTaggedMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove the tags of any locations written.
+  ClearTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove the tags of any locations written.
+  ClearTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove the tags of any locations written. If there is only one address, it
+  // is a unit stride store.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  bool scatter = addresses.size() > 1;
+  for (unsigned i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    ClearTags(scatter ? addresses[i] : addresses[0] + i * el_size, el_size);
   }
   tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -281,6 +277,14 @@ void AtomicTaggedMemory::WriteBack(Instruction* inst, ReferenceCount* context,
   }
 }
 
+// Clear the load linked tags of the 'size' bytes starting at 'address'.
+void AtomicTaggedMemory::ClearTags(uint64_t address, int size) {
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; tag++) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 DataBuffer* AtomicTaggedMemory::GetDb(int size) const {
   switch (size) {
     case 1:
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.h b/mpact/sim/util/memory/atomic_tagged_memory.h
index 5090bf2..b7afc6b 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.h
+++ b/mpact/sim/util/memory/atomic_tagged_memory.h
@@ -82,6 +82,8 @@ class AtomicTaggedMemory : public TaggedMemoryInterface,
   static constexpr int kTagShift = 3;
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
+  // Clear the load linked tags of the bytes written by a store.
+  void ClearTags(uint64_t address, int size);
   // Returns the db of the given size.
   DataBuffer* GetDb(int size) const;
   TaggedMemoryInterface* tagged_memory_ = nullptr;
-- 
2.43.0


From be767306a621d51e38ac6a08848ace7f8b3f29ed Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:52:07 +0000
Subject: [PATCH 046/127] fix: atomic memory operations did not break load
 links

A store conditional succeeded in spite of an intervening atomic operation that
changed its location.
---
 mpact/sim/util/memory/atomic_memory.cc        | 4 +++-
 mpact/sim/util/memory/atomic_tagged_memory.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index e1c2b58..8d8a6b5 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -174,8 +174,8 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
     // Determine if the store is successful.
     if (ll_tag_set_.find(tag) != ll_tag_set_.end()) {
       // Successful SC. Store the value and set result to 0.
+      ClearTags(address, el_size);
       memory_->Store(address, db);
-      ll_tag_set_.erase(tag);
       value = 0;
     }
     auto res = WriteDb(db, value);
@@ -208,6 +208,8 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
       std::swap(tmp_db->Get<uint64_t>()[0], db->Get<uint64_t>()[0]);
       break;
   }
+  // The location is about to be written.
+  ClearTags(address, el_size);
   if (op == Operation::kAtomicSwap) {
     memory_->Store(address, tmp_db);
     WriteBack(inst, context, db);
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index cfb5993..4cc9d08 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -191,8 +191,8 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
     // Determine if the store is successful.
     if (ll_tag_set_.find(tag) != ll_tag_set_.end()) {
       // Successful SC. Store the value and set result to 0.
+      ClearTags(address, el_size);
       tagged_memory_->Store(address, db);
-      ll_tag_set_.erase(tag);
       value = 0;
     }
     auto res = WriteDb(db, value);
@@ -225,6 +225,8 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
       std::swap(tmp_db->Get<uint64_t>()[0], db->Get<uint64_t>()[0]);
       break;
   }
+  // The location is about to be written.
+  ClearTags(address, el_size);
   if (op == Operation::kAtomicSwap) {
     tagged_memory_->Store(address, tmp_db);
     WriteBack(inst, context, db);
-- 
2.43.0


From 122ab62235cd05b813382a553346bdbd17fe1cab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:52:07 +0000
Subject: [PATCH 047/127] fix: tagged stores to atomic tagged memory lost their
 tags

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 4cc9d08..4420dbc 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -143,7 +143,7 @@ void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
   // Remove the tags of any locations written.
   ClearTags(address, db->size<uint8_t>());
-  tagged_memory_->Store(address, db);
+  tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
-- 
2.43.0


From 83df96c7dc636feb04083de66eb48bd35b7cd92f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 14:52:07 +0000
Subject: [PATCH 048/127] fix: storing only tags to atomic tagged memory
 crashed

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 4420dbc..1ddd6cb 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -142,7 +142,7 @@ void AtomicTaggedMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
   // Remove the tags of any locations written.
-  ClearTags(address, db->size<uint8_t>());
+  if (db != nullptr) ClearTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db, tag_db);
 }
 
-- 
2.43.0


From 6ff6e7ad2243e578af09244a32c0ac88a3fa19fd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:05:53 +0000
Subject: [PATCH 049/127] fix: routing of plain accesses next to a target, and
 to tagged targets

A store that ended right before a target was taken as overlapping it, and not
sent to the default target. Accesses that partly overlap a tagged target were
sent to the default target. A default memory target received the accesses to
tagged targets, although it is the fallback if no other target matches.
---
 .../util/memory/single_initiator_router.cc    | 82 +++++++------------
 .../sim/util/memory/single_initiator_router.h |  4 +
 2 files changed, 32 insertions(+), 54 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d07b461..c7d89d4 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -124,36 +124,35 @@ absl::Status SingleInitiatorRouter::AddDefaultTarget<AtomicMemoryOpInterface>(
 // interfaces. These perform lookups to find an appropriate target. Failing that
 // they log an error and return.
 
-// Plain memory load.
-void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
-                                 Instruction* inst, ReferenceCount* context) {
-  int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size - 1});
-  if (it != memory_targets_.end()) {
-    auto& range = it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return it->second->Load(address, db, inst, context);
-    }
-  }
-  // Only use default if there was no match.
-  if ((it == memory_targets_.end()) && (default_memory_target_ != nullptr)) {
-    return default_memory_target_->Load(address, db, inst, context);
+// Find the target of a plain access. Plain accesses can be served by targets of
+// both the MemoryInterface and the TaggedMemoryInterface. The default targets
+// are only used if the access does not overlap the range of any target.
+MemoryInterface* SingleInitiatorRouter::FindTarget(uint64_t address,
+                                                   uint64_t size) const {
+  uint64_t last = address + size - 1;
+  auto it = memory_targets_.find({address, last});
+  if ((it != memory_targets_.end()) && (it->first.base <= address) &&
+      (it->first.top >= last)) {
+    return it->second;
   }
-  // Since the plain memory load can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  auto tagged_it = tagged_targets_.find({address, address});
-  if (tagged_it != tagged_targets_.end()) {
-    auto& range = tagged_it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return tagged_it->second->Load(address, db, inst, context);
-    }
+  auto tagged_it = tagged_targets_.find({address, last});
+  if ((tagged_it != tagged_targets_.end()) &&
+      (tagged_it->first.base <= address) && (tagged_it->first.top >= last)) {
+    return tagged_it->second;
   }
-  // Only use default if there was no match.
-  if ((tagged_it == tagged_targets_.end()) &&
-      (default_tagged_target_ != nullptr)) {
-    return default_tagged_target_->Load(address, db, inst, context);
+  // There is no target containing the whole access.
+  if ((it != memory_targets_.end()) || (tagged_it != tagged_targets_.end())) {
+    return nullptr;
   }
+  if (default_memory_target_ != nullptr) return default_memory_target_;
+  return default_tagged_target_;
+}
+
+// Plain memory load.
+void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
+                                 Instruction* inst, ReferenceCount* context) {
+  auto* target = FindTarget(address, db->size<uint8_t>());
+  if (target != nullptr) return target->Load(address, db, inst, context);
   LOG(ERROR) << absl::StrCat("No target found for address: 0x",
                              absl::Hex(address));
 }
@@ -264,33 +263,8 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 
 // Plain memory store.
 void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
-  int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size});
-  if (it != memory_targets_.end()) {
-    auto& range = it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return it->second->Store(address, db);
-    }
-  }
-  // Only use default if there was no match.
-  if ((it == memory_targets_.end()) && (default_memory_target_ != nullptr)) {
-    return default_memory_target_->Store(address, db);
-  }
-  // Since the plain memory store can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  auto tagged_it = tagged_targets_.find({address, address});
-  if (tagged_it != tagged_targets_.end()) {
-    auto& range = tagged_it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return tagged_it->second->Store(address, db);
-    }
-  }
-  // Only use default if there was no match.
-  if ((tagged_it == tagged_targets_.end()) &&
-      (default_tagged_target_ != nullptr)) {
-    return default_tagged_target_->Store(address, db);
-  }
+  auto* target = FindTarget(address, db->size<uint8_t>());
+  if (target != nullptr) return target->Store(address, db);
   LOG(ERROR) << absl::StrCat("No target found for address: 0x",
                              absl::Hex(address));
 }
diff --git a/mpact/sim/util/memory/single_initiator_router.h b/mpact/sim/util/memory/single_initiator_router.h
index 27e5785..3699038 100644
--- a/mpact/sim/util/memory/single_initiator_router.h
+++ b/mpact/sim/util/memory/single_initiator_router.h
@@ -106,6 +106,10 @@ class SingleInitiatorRouter : public TaggedMemoryInterface,
   std::string_view name() const { return name_; }
 
  private:
+  // Returns the target of the plain access of 'size' bytes at 'address', or
+  // nullptr if there is none.
+  MemoryInterface* FindTarget(uint64_t address, uint64_t size) const;
+
   std::string name_;
   // These maps are used to look up target interfaces based on addresses.
   InterfaceMap<MemoryInterface> memory_targets_;
-- 
2.43.0


From cfd3acac863bc1411212ac958656ef0977494e25 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:05:53 +0000
Subject: [PATCH 050/127] fix: vector accesses were routed by some of their
 elements only

The check ended at the first element without target, and the whole access was
sent to the target of the elements before it. For unit stride accesses only
the first element was considered, even if it was masked off.
---
 .../util/memory/single_initiator_router.cc    | 165 ++++--------------
 .../sim/util/memory/single_initiator_router.h |   5 +
 2 files changed, 35 insertions(+), 135 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index c7d89d4..4c2cdd1 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -148,6 +148,30 @@ MemoryInterface* SingleInitiatorRouter::FindTarget(uint64_t address,
   return default_tagged_target_;
 }
 
+// Find the target of a vector access. Each address that is not masked off is
+// checked, as vector accesses are not split across multiple targets. If there is
+// only one address, it is a unit stride access.
+MemoryInterface* SingleInitiatorRouter::FindVectorTarget(
+    const DataBuffer* address_db, const DataBuffer* mask_db,
+    int el_size) const {
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  bool unit_stride = addresses.size() == 1;
+  MemoryInterface* target = nullptr;
+  for (int i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    uint64_t address = unit_stride ? addresses[0] + i * el_size : addresses[i];
+    auto* tmp_target = FindTarget(address, el_size);
+    if (tmp_target == nullptr) return nullptr;
+    if ((target != nullptr) && (tmp_target != target)) {
+      LOG(ERROR) << "Multiple targets found for vector access";
+      return nullptr;
+    }
+    target = tmp_target;
+  }
+  return target;
+}
+
 // Plain memory load.
 void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
                                  Instruction* inst, ReferenceCount* context) {
@@ -161,74 +185,9 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                  int el_size, DataBuffer* db, Instruction* inst,
                                  ReferenceCount* context) {
-  // This is a vector load, so check each address that is not masked off.
-  // Vector memory loads will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
-  MemoryInterface* memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    // If the mask is true, check this address.
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = memory_targets_.find({address, address + el_size - 1});
-      MemoryInterface* tmp_memory = nullptr;
-      if (it == memory_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
-        tmp_memory = default_memory_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (memory != nullptr) {
-        if (tmp_memory != memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        memory = tmp_memory;
-      }
-    }
-  }
-  if (memory != nullptr) {
-    return memory->Load(address_db, mask_db, el_size, db, inst, context);
-  }
-  // Since the vector memory load can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  TaggedMemoryInterface* tagged_memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size - 1});
-      TaggedMemoryInterface* tmp_memory = nullptr;
-      if (it == tagged_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
-        tmp_memory = default_tagged_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (tagged_memory != nullptr) {
-        if (tmp_memory != tagged_memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        tagged_memory = tmp_memory;
-      }
-    }
-  }
-  if (tagged_memory != nullptr) {
-    return tagged_memory->Load(address_db, mask_db, el_size, db, inst, context);
+  auto* target = FindVectorTarget(address_db, mask_db, el_size);
+  if (target != nullptr) {
+    return target->Load(address_db, mask_db, el_size, db, inst, context);
   }
   LOG(ERROR) << "No target found for vector load";
 }
@@ -272,73 +231,9 @@ void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
 // Vector memory store.
 void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                   int el_size, DataBuffer* db) {
-  // This is a vector store, so check each address that is not masked off.
-  // Vector memory stores will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
-  MemoryInterface* memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    // If the mask is true, check this address.
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = memory_targets_.find({address, address + el_size - 1});
-      MemoryInterface* tmp_memory = nullptr;
-      if (it == memory_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
-        tmp_memory = default_memory_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (memory != nullptr) {
-        if (tmp_memory != memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        memory = tmp_memory;
-      }
-    }
-  }
-  if (memory != nullptr) {
-    return memory->Store(address_db, mask_db, el_size, db);
-  }
-  // Since the vector memory store can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  TaggedMemoryInterface* tagged_memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size});
-      TaggedMemoryInterface* tmp_memory = nullptr;
-      if (it == tagged_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
-        tmp_memory = default_tagged_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size)) break;
-        tmp_memory = it->second;
-      }
-      if (tagged_memory != nullptr) {
-        if (tmp_memory != tagged_memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        tagged_memory = tmp_memory;
-      }
-    }
-  }
-  if (tagged_memory != nullptr) {
-    return tagged_memory->Store(address_db, mask_db, el_size, db);
+  auto* target = FindVectorTarget(address_db, mask_db, el_size);
+  if (target != nullptr) {
+    return target->Store(address_db, mask_db, el_size, db);
   }
   LOG(ERROR) << "No target found for vector store";
 }
diff --git a/mpact/sim/util/memory/single_initiator_router.h b/mpact/sim/util/memory/single_initiator_router.h
index 3699038..0ef3698 100644
--- a/mpact/sim/util/memory/single_initiator_router.h
+++ b/mpact/sim/util/memory/single_initiator_router.h
@@ -109,6 +109,11 @@ class SingleInitiatorRouter : public TaggedMemoryInterface,
   // Returns the target of the plain access of 'size' bytes at 'address', or
   // nullptr if there is none.
   MemoryInterface* FindTarget(uint64_t address, uint64_t size) const;
+  // Returns the common target of the elements of the vector access that are not
+  // masked off, or nullptr if there is none.
+  MemoryInterface* FindVectorTarget(const DataBuffer* address_db,
+                                    const DataBuffer* mask_db,
+                                    int el_size) const;
 
   std::string name_;
   // These maps are used to look up target interfaces based on addresses.
-- 
2.43.0


From 68a9ca84739a7ee6e5ff614812cb4692c11a261f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:05:53 +0000
Subject: [PATCH 051/127] fix: routing a store of only tags crashed

Loads without a data buffer are supported.
---
 mpact/sim/util/memory/single_initiator_router.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index 4c2cdd1..10b7f75 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -241,7 +241,10 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
 // Simple tagged memory store.
 void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db,
                                   DataBuffer* tags) {
-  int size = db->size<uint8_t>();
+  // If db is null, then this is a tag store. The size for routing purposes is
+  // the size of tags * 8.
+  int size =
+      (db != nullptr) ? db->size<uint8_t>() : tags->size<uint8_t>() << 3;
   auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
-- 
2.43.0


From 04a451588d265d0cebcd8cfae498396b34e952d1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:10:18 +0000
Subject: [PATCH 052/127] fix: mapping another target to a range in use was
 ignored without an error

---
 mpact/sim/util/memory/single_initiator_router.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index 10b7f75..55cd0db 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -54,7 +54,8 @@ static absl::Status AddTargetPrivate(
   auto it = map.find({base, top});
   if (it != map.end()) {
     // If it is a duplicate, just ignore it and return ok.
-    if ((it->first.base == base) && (it->first.top == top)) {
+    if ((it->first.base == base) && (it->first.top == top) &&
+        (it->second == interface)) {
       return absl::OkStatus();
     }
     // Otherwise return an error.
-- 
2.43.0


From fb01378033548eb0e478bb9f378689ea5101afdf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:35:23 +0000
Subject: [PATCH 053/127] fix: watching unit stride vector accesses read out of
 bounds

---
 mpact/sim/util/memory/memory_watcher.cc        | 8 ++++++--
 mpact/sim/util/memory/tagged_memory_watcher.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/memory_watcher.cc b/mpact/sim/util/memory/memory_watcher.cc
index 34b7fe5..2033cd3 100644
--- a/mpact/sim/util/memory/memory_watcher.cc
+++ b/mpact/sim/util/memory/memory_watcher.cc
@@ -111,10 +111,12 @@ void MemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
     auto masks = mask_db->Get<bool>();
+    bool unit_stride = addresses.size() == 1;
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -147,10 +149,12 @@ void MemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
     auto masks = mask_db->Get<bool>();
+    bool unit_stride = addresses.size() == 1;
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
diff --git a/mpact/sim/util/memory/tagged_memory_watcher.cc b/mpact/sim/util/memory/tagged_memory_watcher.cc
index 2e72efd..0b694e3 100644
--- a/mpact/sim/util/memory/tagged_memory_watcher.cc
+++ b/mpact/sim/util/memory/tagged_memory_watcher.cc
@@ -112,10 +112,12 @@ void TaggedMemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
     auto masks = mask_db->Get<bool>();
+    bool unit_stride = addresses.size() == 1;
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -163,10 +165,12 @@ void TaggedMemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     int num_entries = mask_db->size<bool>();
     auto addresses = address_db->Get<uint64_t>();
     auto masks = mask_db->Get<bool>();
+    bool unit_stride = addresses.size() == 1;
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      uint64_t address =
+          unit_stride ? addresses[0] + i * el_size : addresses[i];
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
-- 
2.43.0


From 9f602431761040f5ff0e799137336fb351032534 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:35:23 +0000
Subject: [PATCH 054/127] fix: storing only tags through a memory watcher
 crashed

---
 mpact/sim/util/memory/tagged_memory_watcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/tagged_memory_watcher.cc b/mpact/sim/util/memory/tagged_memory_watcher.cc
index 0b694e3..78ba2b7 100644
--- a/mpact/sim/util/memory/tagged_memory_watcher.cc
+++ b/mpact/sim/util/memory/tagged_memory_watcher.cc
@@ -185,7 +185,7 @@ void TaggedMemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
 void TaggedMemoryWatcher::Store(uint64_t address, DataBuffer* db,
                                 DataBuffer* tags) {
   memory_->Store(address, db, tags);
-  if (!st_watch_actions_.empty()) {
+  if (db != nullptr && !st_watch_actions_.empty()) {
     auto [first_match, last] = st_watch_actions_.equal_range(
         AddressRange(address, address + db->size<uint8_t>() - 1));
     while (first_match != last) {
-- 
2.43.0


From 3ade40476773f58f989ea65f314c9cd21ee76d78 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 055/127] fix: creating a cache with a tagged memory crashed

---
 mpact/sim/util/memory/cache.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 8f36b63..3ced6bf 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -76,6 +76,8 @@ Cache::Cache(std::string name, Component* parent,
       dirty_line_writeback_counter_("dirty_line_writeback", 0ULL),
       read_around_counter_("read_around", 0ULL),
       write_around_counter_("write_around", 0ULL),
+      read_non_cacheable_counter_("read_non_cacheable", 0ULL),
+      write_non_cacheable_counter_("write_non_cacheable", 0ULL),
       memory_(tagged_memory),
       tagged_memory_(tagged_memory) {
   // Register the counters.
-- 
2.43.0


From 53b4964b5f3d81611800a513e72c9123ba93fe79 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 056/127] fix: a cache line allocated by a write was not dirty

---
 mpact/sim/util/memory/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 3ced6bf..6db2aaa 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -469,7 +469,7 @@ void Cache::ReplaceBlock(uint64_t block, bool is_read) {
   line.valid = true;
   line.tag = block;
   line.pinned = false;
-  line.dirty = false;
+  line.dirty = !is_read;
   line.lru = cycle_counter_->GetValue();
 }
 
-- 
2.43.0


From 29a5a45ea52d8a7d4c207f50874d5d11b08752c7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 057/127] fix: loads without instruction leaked the context and
 lost the latency

---
 mpact/sim/util/memory/cache.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6db2aaa..dd7bc75 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -247,9 +247,14 @@ void Cache::Load(uint64_t address, DataBuffer* db, Instruction* inst,
 
   if (memory_ == nullptr) return;
 
+  if (inst == nullptr) {  // Just forward and return.
+    memory_->Load(address, db, /*inst=*/nullptr, context);
+    return;
+  }
+
   auto* cache_context = new CacheContext(context, db, inst, db->latency());
   if (context) context->IncRef();
-  if (inst) inst->IncRef();
+  inst->IncRef();
   db->IncRef();
   db->set_latency(0);
   memory_->Load(address, db, cache_inst_, cache_context);
@@ -267,9 +272,14 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
   }
   if (memory_ == nullptr) return;
 
+  if (inst == nullptr) {  // Just forward and return.
+    memory_->Load(address_db, mask_db, el_size, db, /*inst=*/nullptr, context);
+    return;
+  }
+
   auto* cache_context = new CacheContext(context, db, inst, db->latency());
   if (context) context->IncRef();
-  if (inst) inst->IncRef();
+  inst->IncRef();
   db->IncRef();
   db->set_latency(0);
   memory_->Load(address_db, mask_db, el_size, db, cache_inst_, cache_context);
-- 
2.43.0


From a5f51941564788c35afb083573e0247bad9b9c72 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 058/127] fix: a delayed tag load through a cache crashed

---
 mpact/sim/util/memory/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index dd7bc75..0cdad85 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -360,7 +360,7 @@ void Cache::LoadChild(const Instruction* inst) {
     if (cache_context->latency > 0) {
       if (db != nullptr) db->set_latency(cache_context->latency);
       og_inst->state()->function_delay_line()->Add(
-          db->latency(), [og_inst, og_context]() {
+          cache_context->latency, [og_inst, og_context]() {
             og_inst->Execute(og_context);
             if (og_context != nullptr) og_context->DecRef();
             og_inst->DecRef();
-- 
2.43.0


From e57a722bf487cfca494236b0242859ac6ab594ca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 059/127] fix: storing only tags through a cache crashed

---
 mpact/sim/util/memory/cache.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 0cdad85..51d3bb9 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -341,7 +341,16 @@ void Cache::Store(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
 }
 
 void Cache::Store(uint64_t address, DataBuffer* db, DataBuffer* tags) {
-  (void)CacheLookup(address, db->size<uint8_t>(), /*is_read=*/false);
+  // Since db can be nullptr (for a tag only store), the size may have to be
+  // based on the number of tags that are being stored.
+  int size = 0;
+  if (db == nullptr) {
+    int num_tags = tags->size<uint8_t>();
+    size = (address & ~0x7ULL) + (num_tags << 3) - address;
+  } else {
+    size = db->size<uint8_t>();
+  }
+  (void)CacheLookup(address, size, /*is_read=*/false);
   if (tagged_memory_ == nullptr) return;
 
   tagged_memory_->Store(address, db, tags);
-- 
2.43.0


From 152af0a1124dbaa12fb3f8f546766e48195e52b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 060/127] fix: only the first element of unit stride vectors
 was looked up in a cache

---
 mpact/sim/util/memory/cache.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 51d3bb9..a87582f 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -265,9 +265,13 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                  DataBuffer* db, Instruction* inst, ReferenceCount* context) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // If there is only one address, it is a unit stride access.
+  bool unit_stride = address_span.size() == 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/true);
+      uint64_t address =
+          unit_stride ? address_span[0] + i * el_size : address_span[i];
+      (void)CacheLookup(address, el_size, /*is_read=*/true);
     }
   }
   if (memory_ == nullptr) return;
@@ -330,9 +334,13 @@ void Cache::Store(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                   DataBuffer* db) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // If there is only one address, it is a unit stride access.
+  bool unit_stride = address_span.size() == 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/false);
+      uint64_t address =
+          unit_stride ? address_span[0] + i * el_size : address_span[i];
+      (void)CacheLookup(address, el_size, /*is_read=*/false);
     }
   }
   if (memory_ == nullptr) return;
-- 
2.43.0


From 05efa2caa7d28e3142d84de85ea9b531279df13b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 061/127] fix: invalid numbers in a cache configuration threw
 exceptions

---
 mpact/sim/util/memory/cache.cc | 43 +++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index a87582f..e2558a0 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -16,7 +16,9 @@
 
 #include <unistd.h>
 
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <limits>
 #include <string>
 #include <vector>
@@ -26,6 +28,7 @@
 #include "absl/log/log.h"
 #include "absl/numeric/bits.h"
 #include "absl/status/status.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_split.h"
 #include "absl/strings/string_view.h"
@@ -38,6 +41,22 @@ namespace mpact::sim::util {
 
 using ::mpact::sim::generic::Component;
 
+namespace {
+
+// Parses the number at the start of 'text' into 'value', and sets 'size' to the
+// number of characters used. Returns false if there is no valid number.
+bool ParseNumber(const std::string& text, std::string::size_type* size,
+                 int base, uint64_t* value) {
+  if (text.empty() || !absl::ascii_isdigit(text[0])) return false;
+  char* end = nullptr;
+  errno = 0;
+  *value = std::strtoull(text.c_str(), &end, base);
+  *size = end - text.c_str();
+  return errno == 0;
+}
+
+}  // namespace
+
 // Constructors.
 Cache::Cache(std::string name, Component* parent, MemoryInterface* memory)
     : Component(name, parent),
@@ -125,7 +144,10 @@ absl::Status Cache::Configure(const std::string& config,
   }
   // Compute the cache size in bytes, including any suffixes ('k', 'M', 'G').
   std::string::size_type size;
-  uint64_t cache_size = std::stoull(config_vec[0], &size);
+  uint64_t cache_size;
+  if (!ParseNumber(config_vec[0], &size, 10, &cache_size)) {
+    return absl::InvalidArgumentError("Invalid value for cache size");
+  }
   if (size < config_vec[0].size()) {
     auto suffix = config_vec[0].substr(size);
     if (suffix == "k") {
@@ -140,13 +162,14 @@ absl::Status Cache::Configure(const std::string& config,
     }
   }
   // Line size in bytes.
-  uint64_t line_size = std::stoull(config_vec[1], &size);
-  if (size != config_vec[1].size()) {
+  uint64_t line_size;
+  if (!ParseNumber(config_vec[1], &size, 10, &line_size) ||
+      size != config_vec[1].size()) {
     return absl::InvalidArgumentError("Invalid value for line size");
   }
   // Number of sets (set associativity) - 0 means fully set associative.
-  num_sets_ = std::stoull(config_vec[2], &size);
-  if (size != config_vec[2].size()) {
+  if (!ParseNumber(config_vec[2], &size, 10, &num_sets_) ||
+      size != config_vec[2].size()) {
     return absl::InvalidArgumentError("Invalid value for number of sets");
   }
   // Write allocate.
@@ -165,13 +188,15 @@ absl::Status Cache::Configure(const std::string& config,
       return absl::InvalidArgumentError(
           "Invalid (non)cacheable range - must have 3 fields");
     }
-    uint64_t range_start = std::stoull(range_vec[1], &size, 0);
-    if (size != range_vec[1].size()) {
+    uint64_t range_start;
+    if (!ParseNumber(range_vec[1], &size, 0, &range_start) ||
+        size != range_vec[1].size()) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid start address");
     }
-    uint64_t range_end = std::stoull(range_vec[2], &size, 0);
-    if (size != range_vec[2].size()) {
+    uint64_t range_end;
+    if (!ParseNumber(range_vec[2], &size, 0, &range_end) ||
+        size != range_vec[2].size()) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid size");
     }
-- 
2.43.0


From 7fb62a1022bf878cfac2229d8517169e7f636336 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 062/127] fix: a failed cache configuration corrupted the cache

---
 mpact/sim/util/memory/cache.cc | 43 +++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index e2558a0..e3976a5 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -21,8 +21,10 @@
 #include <cstdlib>
 #include <limits>
 #include <string>
+#include <utility>
 #include <vector>
 
+#include "absl/container/btree_set.h"
 #include "absl/functional/bind_front.h"
 #include "absl/log/check.h"
 #include "absl/log/log.h"
@@ -136,7 +138,6 @@ absl::Status Cache::Configure(const std::string& config,
   if (cycle_counter == nullptr) {
     return absl::InvalidArgumentError("Cycle counter is null");
   }
-  cycle_counter_ = cycle_counter;
   // Split the configuration string into fields, make sure there are 4 fields.
   std::vector<std::string> config_vec = absl::StrSplit(config, ',');
   if (config_vec.size() < 4) {
@@ -168,18 +169,22 @@ absl::Status Cache::Configure(const std::string& config,
     return absl::InvalidArgumentError("Invalid value for line size");
   }
   // Number of sets (set associativity) - 0 means fully set associative.
-  if (!ParseNumber(config_vec[2], &size, 10, &num_sets_) ||
+  uint64_t num_sets;
+  if (!ParseNumber(config_vec[2], &size, 10, &num_sets) ||
       size != config_vec[2].size()) {
     return absl::InvalidArgumentError("Invalid value for number of sets");
   }
   // Write allocate.
+  bool write_allocate;
   if (config_vec[3] == "true") {
-    write_allocate_ = true;
+    write_allocate = true;
   } else if (config_vec[3] == "false") {
-    write_allocate_ = false;
+    write_allocate = false;
   } else {
     return absl::InvalidArgumentError("Invalid write allocate value");
   }
+  absl::btree_multiset<AddressRange, AddressRangeLess> non_cacheable_ranges;
+  absl::btree_multiset<AddressRange, AddressRangeLess> cacheable_ranges;
   // If there are more than 4 entries, check for cacheable, or non-cacheable
   // memory ranges. Format is: [c|nc]:<start_address>:<size>
   for (int i = 4; i < config_vec.size(); i++) {
@@ -210,19 +215,17 @@ absl::Status Cache::Configure(const std::string& config,
           "Invalid cacheable range - must start with 'c' or 'nc'");
     }
     if (range_vec[0] == "c") {
-      if (!non_cacheable_ranges_.empty()) {
+      if (!non_cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_cacheable_ = true;
+      cacheable_ranges.insert(AddressRange(range_start, range_end));
     } else {
-      if (!cacheable_ranges_.empty()) {
+      if (!cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      non_cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_non_cacheable_ = true;
+      non_cacheable_ranges.insert(AddressRange(range_start, range_end));
     }
   }
   // Sanity check more cache parameters.
@@ -232,7 +235,7 @@ absl::Status Cache::Configure(const std::string& config,
   if (!absl::has_single_bit(line_size)) {
     return absl::InvalidArgumentError("Line size is not a power of 2");
   }
-  if (num_sets_ != 0 && !absl::has_single_bit(num_sets_)) {
+  if (num_sets != 0 && !absl::has_single_bit(num_sets)) {
     return absl::InvalidArgumentError("Number of sets is not a power of 2");
   }
   if (cache_size == 0) {
@@ -245,19 +248,27 @@ absl::Status Cache::Configure(const std::string& config,
     return absl::InvalidArgumentError("Cache size is less than line size");
   }
   // If num_sets is 0, then the cache is fully associative.
-  if (num_sets_ == 0) {
-    num_sets_ = cache_size / line_size;
+  if (num_sets == 0) {
+    num_sets = cache_size / line_size;
   }
   uint64_t num_lines = cache_size / line_size;
-  if (num_sets_ > num_lines) {
+  if (num_sets > num_lines) {
     return absl::InvalidArgumentError(
         "Cache associativity is greater than the number of lines");
   }
+  // The configuration is valid.
+  cycle_counter_ = cycle_counter;
+  num_sets_ = num_sets;
+  write_allocate_ = write_allocate;
+  has_cacheable_ = !cacheable_ranges.empty();
+  has_non_cacheable_ = !non_cacheable_ranges.empty();
+  cacheable_ranges_ = std::move(cacheable_ranges);
+  non_cacheable_ranges_ = std::move(non_cacheable_ranges);
   delete[] cache_lines_;
   cache_lines_ = new CacheLine[num_lines];
   block_shift_ = absl::bit_width(line_size) - 1;
-  index_mask_ = (1ULL << (absl::bit_width(num_lines / num_sets_) - 1)) - 1;
-  set_shift_ = absl::bit_width(num_sets_) - 1;
+  index_mask_ = (1ULL << (absl::bit_width(num_lines / num_sets) - 1)) - 1;
+  set_shift_ = absl::bit_width(num_sets) - 1;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 468f60d4654ebc0d6a0ab024117b38380e672b15 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:53:29 +0000
Subject: [PATCH 063/127] fix: profiling a first access to the byte at address
 0 crashed

---
 mpact/sim/util/memory/memory_use_profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 35ef4ed..b0a2718 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -59,7 +59,7 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   }
   size = std::min(size, 4);
   uint8_t mask = size > 4 ? 0b11 : 0b1;
-  if ((address >= last_start_) && (address + size - 1 <= last_end_)) {
+  if ((last_used_ != nullptr) && (address >= last_start_) && (address + size - 1 <= last_end_)) {
     return MarkUsedBits(address - last_start_, mask, last_used_);
   }
   auto it = memory_use_map_.find(
-- 
2.43.0


From 7856ef110884a3da1927e29486ec0a7ce86c2a77 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:53:29 +0000
Subject: [PATCH 064/127] fix: only the first word of an access was marked as
 used

---
 mpact/sim/util/memory/memory_use_profiler.cc | 26 +++++++++++++-------
 mpact/sim/util/memory/memory_use_profiler.h  |  3 +++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index b0a2718..bcb2a62 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -14,7 +14,6 @@
 
 #include "mpact/sim/util/memory/memory_use_profiler.h"
 
-#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <ostream>
@@ -40,27 +39,36 @@ MemoryUseTracker::~MemoryUseTracker() {
 }
 
 // Static helper function.
-static inline void MarkUsedBits(uint64_t byte_offset, int mask, uint8_t* bits) {
+static inline void MarkUsedBits(uint64_t byte_offset, uint8_t* bits) {
   // Shift right by two, so that every byte offset becomes a word offset.
   uint64_t word_offset = byte_offset >> 2;
   // Byte offs
   uint64_t byte_index = word_offset >> 3;
   int bit_index = word_offset & 0b111;
 
-  bits[byte_index] |= (mask << bit_index);
+  bits[byte_index] |= (1 << bit_index);
 }
 
 void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
-  // The profiling is done on a word boundary, so word or smaller is marked by
-  // a single bit, double words by 2 bits.
   if (size > 8) {
     LOG(INFO) << "MemoryUseTracker::MarkUsed: not profiling accesses > 8 bytes";
     return;
   }
-  size = std::min(size, 4);
-  uint8_t mask = size > 4 ? 0b11 : 0b1;
+  if (size <= 0) return;
+  // The profiling is done on a word boundary. Mark each word that is accessed.
+  uint64_t first_word = address & ~static_cast<uint64_t>(kGranularity - 1);
+  uint64_t last_word =
+      (address + size - 1) & ~static_cast<uint64_t>(kGranularity - 1);
+  for (uint64_t word = first_word; word != last_word; word += kGranularity) {
+    MarkWordUsed(word);
+  }
+  MarkWordUsed(last_word);
+}
+
+void MemoryUseTracker::MarkWordUsed(uint64_t address) {
+  constexpr int size = kGranularity;
   if ((last_used_ != nullptr) && (address >= last_start_) && (address + size - 1 <= last_end_)) {
-    return MarkUsedBits(address - last_start_, mask, last_used_);
+    return MarkUsedBits(address - last_start_, last_used_);
   }
   auto it = memory_use_map_.find(
       MemoryWatcher::AddressRange{address, address + size - 1});
@@ -79,7 +87,7 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   last_start_ = it->first.start;
   last_end_ = it->first.end;
   last_used_ = it->second;
-  MarkUsedBits(address - last_start_, mask, it->second);
+  MarkUsedBits(address - last_start_, it->second);
 }
 
 // Write out ranges of words that have been used.
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index bd24ae1..b7cc2a3 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -57,6 +57,9 @@ class MemoryUseTracker {
   void WriteUseProfile(std::ostream& os) const;
 
  private:
+  // Marks the word at 'address' (aligned) as used.
+  void MarkWordUsed(uint64_t address);
+
   uint64_t last_start_ = 0;
   uint64_t last_end_ = 0;
   uint8_t* last_used_ = nullptr;
-- 
2.43.0


From be225ec3f126b4ed6f39a7dbdfe952cb60bb83bf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:53:29 +0000
Subject: [PATCH 065/127] fix: use profile ranges reaching the end of a segment
 were wrong or missing

---
 mpact/sim/util/memory/memory_use_profiler.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index bcb2a62..1686840 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -96,8 +96,19 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
   uint64_t range_start = 0;
   uint64_t range_end = 0;
   bool range_started = false;
+  // Last word of the previous segment.
+  uint64_t prev_last_word = 0;
   for (auto const& [range, bits] : memory_use_map_) {
     auto base = range.start;
+    // A range that reaches the end of a segment only continues in an adjacent
+    // segment.
+    if (range_started && (prev_last_word + kGranularity != base)) {
+      os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start,
+                            prev_last_word,
+                            prev_last_word - range_start + kGranularity);
+      range_started = false;
+    }
+    prev_last_word = range.end - (kGranularity - 1);
     int byte_index = 0;
     uint8_t byte = bits[byte_index];
     while (byte_index < kBitsSize) {
@@ -136,6 +147,11 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
       range_started = true;
     }
   }
+  // Output a range that reaches the end of the last segment.
+  if (range_started) {
+    os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, prev_last_word,
+                          prev_last_word - range_start + kGranularity);
+  }
 }
 
 }  // namespace internal
-- 
2.43.0


From 3c109b1fcc4202772801f0b0e09405b18ce7e84f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 15:53:29 +0000
Subject: [PATCH 066/127] fix: only the first element of unit stride vectors
 was profiled

---
 mpact/sim/util/memory/memory_use_profiler.cc | 37 +++++++++-----------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 1686840..79e0962 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -156,6 +156,19 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
 
 }  // namespace internal
 
+// Marks the elements of a vector access that are not masked off as used. If
+// there is only one address, it is a unit stride access.
+static void MarkVectorUsed(DataBuffer* address_db, DataBuffer* mask_db,
+                           int el_size, internal::MemoryUseTracker* tracker) {
+  bool unit_stride = address_db->size<uint64_t>() == 1;
+  for (int i = 0; i < mask_db->size<uint8_t>(); ++i) {
+    if (!mask_db->Get<uint8_t>(i)) continue;
+    uint64_t address = unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                                   : address_db->Get<uint64_t>(i);
+    tracker->MarkUsed(address, el_size);
+  }
+}
+
 MemoryUseProfiler::MemoryUseProfiler() : MemoryUseProfiler(nullptr) {}
 
 MemoryUseProfiler::MemoryUseProfiler(MemoryInterface* memory)
@@ -171,11 +184,7 @@ void MemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                              int el_size, DataBuffer* db, Instruction* inst,
                              ReferenceCount* context) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    MarkVectorUsed(address_db, mask_db, el_size, &tracker_);
   }
   if (memory_) memory_->Load(address_db, mask_db, el_size, db, inst, context);
 }
@@ -188,11 +197,7 @@ void MemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 void MemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                               int el_size, DataBuffer* db) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    MarkVectorUsed(address_db, mask_db, el_size, &tracker_);
   }
   if (memory_) memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -214,11 +219,7 @@ void TaggedMemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db,
                                    Instruction* inst, ReferenceCount* context) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    MarkVectorUsed(address_db, mask_db, el_size, &tracker_);
   }
   if (tagged_memory_)
     tagged_memory_->Load(address_db, mask_db, el_size, db, inst, context);
@@ -240,11 +241,7 @@ void TaggedMemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 void TaggedMemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                     int el_size, DataBuffer* db) {
   if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
+    MarkVectorUsed(address_db, mask_db, el_size, &tracker_);
   }
   if (tagged_memory_) tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
-- 
2.43.0


From ba5ba18e43e6329fd5b43acfb23b12e11e661ed9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 067/127] fix: generated decoders with several top-level
 encoding groups did not compile

---
 mpact/sim/decoder/instruction_group.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/instruction_group.cc b/mpact/sim/decoder/instruction_group.cc
index e3684ea..cdcd514 100644
--- a/mpact/sim/decoder/instruction_group.cc
+++ b/mpact/sim/decoder/instruction_group.cc
@@ -215,10 +215,12 @@ std::tuple<std::string, std::string> InstructionGroup::EmitDecoderCode() {
     std::string name = absl::StrCat(this->name(), "_", absl::Hex(i));
     grp->EmitInitializers(name, &initializers, opcode_enum_);
     grp->EmitDecoders(name, &declarations, &definitions, opcode_enum_);
-    absl::StrAppend(&top_level_decoder, "  auto opcode = Decode", name,
+    // Declare the variables when they are assigned the first time.
+    absl::string_view type = i == 0 ? "auto " : "";
+    absl::StrAppend(&top_level_decoder, "  ", type, "opcode = Decode", name,
                     "(inst_word).first;\n");
-    absl::StrAppend(&w_format_top_level_decoder,
-                    "  auto opcode_format = Decode", name, "(inst_word);\n");
+    absl::StrAppend(&w_format_top_level_decoder, "  ", type,
+                    "opcode_format = Decode", name, "(inst_word);\n");
     if (encoding_group_vec_.size() > 1) {
       absl::StrAppend(&top_level_decoder, "  if (opcode != ", opcode_enum_,
                       "::kNone) return opcode;\n");
-- 
2.43.0


From 288ed3ad398377846d940d3ea7d1f7f76ee62434 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 068/127] fix: decoders for specializations of unconstrained
 encodings did not compile

---
 mpact/sim/decoder/encoding_group.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 33cd871..940b161 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -583,8 +583,11 @@ int EncodingGroup::EmitEncodingIfStatement(
     // Close the if statements.
     indent_str = indent_str.substr(2);
     absl::StrAppend(definitions_ptr, indent_str, "}\n");
-    indent_str = indent_str.substr(2);
-    absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    // There is no enclosing if statement without constraints to be checked.
+    if (count > 0) {
+      indent_str = indent_str.substr(2);
+      absl::StrAppend(definitions_ptr, indent_str, "}\n");
+    }
   }
   return count != 0 ? 1 : 0;
 }
-- 
2.43.0


From b16ae0d5f484ae3fa713a9018721fb40cdb91f94 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 069/127] fix: specializations were lost when groups were
 combined

---
 mpact/sim/decoder/bin_format_visitor.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 03729b6..1a5ab42 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -1463,11 +1463,15 @@ void BinFormatVisitor::ProcessSpecializations(BinEncodingInfo* encoding_info) {
     auto file_index = context_file_map_.at(ctx);
     std::string name = ctx->name->getText();
     std::string parent_name = ctx->parent->getText();
+    Format* format = nullptr;
+    // The parent encoding may also have been copied to groups that combine
+    // other groups, so specialize it in every group that it is part of.
     for (auto& [unused, grp_ptr] : encoding_info->instruction_group_map()) {
       auto iter = grp_ptr->encoding_name_map().find(parent_name);
       if (iter != grp_ptr->encoding_name_map().end()) {
         auto* parent_encoding = iter->second;
-        auto* format = parent_encoding->format();
+        if (format == nullptr) format = parent_encoding->format();
+        if (parent_encoding->format() != format) continue;
         auto* inst_encoding =
             new InstructionEncoding(name, format, /*is_duplicate=*/false);
         for (auto* constraint :
@@ -1478,9 +1482,7 @@ void BinFormatVisitor::ProcessSpecializations(BinEncodingInfo* encoding_info) {
         if (!grp_ptr->AddSpecialization(name, parent_name, inst_encoding)
                  .ok()) {
           delete inst_encoding;
-          continue;
         }
-        break;
       }
     }
   }
-- 
2.43.0


From f2ac7f01f78c9bb6c446de29f67a494c41148eae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 070/127] fix: constraints on fields and overlays of 31 or more
 bits were wrong or refused

---
 mpact/sim/decoder/encoding_group.cc       |  2 +-
 mpact/sim/decoder/instruction_encoding.cc | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 940b161..c621b7c 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -478,7 +478,7 @@ void EncodingGroup::ProcessConstraint(
   std::string name = absl::StrCat(overlay->name(), "_value");
   uint64_t mask = 0;
   // Get the bits that correspond to the overlay.
-  auto result = overlay->GetBitField((1 << overlay->declared_width()) - 1);
+  auto result = overlay->GetBitField((1ULL << overlay->declared_width()) - 1);
   if (result.ok()) {
     mask = result.value();
   } else {
diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 4940273..238aed9 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -151,21 +151,21 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
       }
       // Check that the value is in range.
       if (value < 0) {
-        int64_t min_value = -(1 << (field->width - 1));
+        int64_t min_value = -(1LL << (field->width - 1));
         if (value < min_value) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       } else {
-        if (value >= (1 << (field->width - 1))) {
+        if (value >= (1LL << (field->width - 1))) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       }
     }
-    value &= (1 << field->width) - 1;
+    value &= (1ULL << field->width) - 1;
     auto* constraint = new Constraint();
     constraint->type = type;
     constraint->field = field;
@@ -183,7 +183,7 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
   int width = overlay->computed_width();
   bool is_signed = overlay->is_signed();
   if (!is_signed) {
-    if ((value >= (1 << width)) || (value < 0)) {
+    if ((value >= (1ULL << width)) || (value < 0)) {
       return absl::OutOfRangeError(absl::StrCat(
           "Constraint value exceeds field width for field '", field_name, "'"));
     }
@@ -194,22 +194,22 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
                        field_name));
     }  // Check that the value is in range.
     if (value < 0) {
-      int64_t min_value = -(1 << (width - 1));
+      int64_t min_value = -(1LL << (width - 1));
       if (value < min_value) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
-      value = value & ((1 << width) - 1);
+      value = value & ((1ULL << width) - 1);
     } else {
-      if (value >= (1 << (width - 1))) {
+      if (value >= (1LL << (width - 1))) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
     }
   }
-  value &= (1 << width) - 1;
+  value &= (1ULL << width) - 1;
   auto* constraint = new Constraint();
   constraint->type = type;
   constraint->overlay = overlay;
-- 
2.43.0


From 17fc29ac3f299d43b1fb51749346d2dcd6a3eb7c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:31:07 +0000
Subject: [PATCH 071/127] fix: 64-bit fields, formats and overlay parts were
 accessed with an empty mask

---
 mpact/sim/decoder/format.cc  | 21 +++++++++++++++------
 mpact/sim/decoder/overlay.cc | 17 +++++++++++++----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 1a23903..ea253a7 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -62,6 +62,15 @@ bool FieldOrFormat::operator!=(const FieldOrFormat& rhs) const {
 
 using ::mpact::sim::machine_description::instruction_set::ToPascalCase;
 
+namespace {
+
+// Return a mask of the given number (at most 64) of low bits.
+uint64_t LowBitMask(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
+}  // namespace
+
 Format::Format(std::string name, int width, BinEncodingInfo* encoding_info)
     : Format(name, width, "", encoding_info) {}
 
@@ -397,7 +406,7 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
   // <= 128 bits. For larger formats use the templated extract helper function.
   std::string expr;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << field->width) - 1;
+    uint64_t mask = LowBitMask(field->width);
     if (field->low == 0) {
       expr = absl::StrCat("value & 0x", absl::Hex(mask));
     } else {
@@ -499,7 +508,7 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
                   ToPascalCase(field->name), "(", field_type_name, " value, ",
                   inst_word_type_name, " inst_word) {\n");
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << field->width) - 1) << field->low;
+    uint64_t mask = LowBitMask(field->width) << field->low;
     std::string shift;
     if (field->low != 0) {
       shift = absl::StrCat(" << ", field->low);
@@ -598,7 +607,7 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
                       width, ") - 1;\n");
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & mask;\n");
     } else {
-      uint64_t mask = ((1ULL << width) - 1);
+      uint64_t mask = LowBitMask(width);
       // Extract the bits from the overlay value for the current component.
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & 0x",
                       absl::Hex(mask), "ULL;\n");
@@ -692,7 +701,7 @@ std::string Format::GenerateReplicatedFormatInserter(
   int width = format->declared_width();
   int low = high - width + 1;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << width) - 1;
+    uint64_t mask = LowBitMask(width);
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
                     "  return (inst_word & (~0x",
@@ -748,7 +757,7 @@ std::string Format::GenerateSingleFormatInserter(std::string_view format_alias,
     shift = absl::StrCat(" << ", low);
   }
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << width) - 1) << low;
+    uint64_t mask = LowBitMask(width) << low;
     absl::StrAppend(&h_output, "  return (inst_word & (~0x", absl::Hex(mask),
                     "ULL))", " | ((value ", shift, ") & 0x", absl::Hex(mask),
                     "ULL);\n}\n");
@@ -843,7 +852,7 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
       shift = absl::StrCat(low);
     }
     if (declared_width_ <= 64) {
-      uint64_t mask = (1ULL << width) - 1;
+      uint64_t mask = LowBitMask(width);
       expr =
           absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask), ";\n");
       absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 71e9f89..3f39a11 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -36,6 +36,15 @@ namespace bin_format {
 using ::mpact::sim::machine_description::instruction_set::ToPascalCase;
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+namespace {
+
+// Return a mask of the given number (at most 64) of low bits.
+uint64_t LowBitMask(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
+}  // namespace
+
 BitsOrField::BitsOrField(Field* field, int high, int low, int width)
     : field_(field), high_(high), low_(low), width_(width), position_(-1) {}
 
@@ -159,7 +168,7 @@ absl::Status Overlay::ComputeHighLow() {
         component->set_high(component->high() + component->field()->low);
         component->set_low(component->low() + component->field()->low);
       }
-      mask_ |= ((1LLU << component->width()) - 1) << component->low();
+      mask_ |= LowBitMask(component->width()) << component->low();
     }
     position -= component->width();
   }
@@ -182,7 +191,7 @@ absl::StatusOr<uint64_t> Overlay::GetValue(uint64_t input) const {
       int shift = component->position() - bin_num.width + 1;
       value |= bin_num.value << shift;
     } else {
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowBitMask(component->width()) << component->low();
       int diff = component->high() - component->position();
       auto tmp = (input & mask);
       tmp = (diff < 0) ? tmp << -diff : tmp >> diff;
@@ -197,7 +206,7 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
   for (auto* component : component_vec_) {
     // Constant bits do not map to the instruction word.
     if (component->high() < 0) continue;
-    uint64_t mask = ((1ULL << component->width()) - 1);
+    uint64_t mask = LowBitMask(component->width());
     int shift = component->position() - component->width() + 1;
     uint64_t bits = ((input >> shift) & mask);
     bitfield |= bits << component->low();
@@ -240,7 +249,7 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       absl::StrAppend(&output, ";\n");
     } else {
       // Field or format references are added.
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowBitMask(component->width()) << component->low();
       absl::StrAppend(&output, "  ", result, assign, "(", value, " & 0x",
                       absl::Hex(mask), ")");
       int diff = component->high() - component->position();
-- 
2.43.0


From d6a14fc7e4830576dd525f201ad4ed7bd74f1276 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:31:07 +0000
Subject: [PATCH 072/127] fix: fields extracted from bytes lost their sign or
 bits beyond the 31st

---
 mpact/sim/decoder/bin_format_visitor.cc |  2 +-
 mpact/sim/decoder/format.cc             | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 1a5ab42..c9339e1 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -78,7 +78,7 @@ static inline T ExtractBits(const uint8_t *data, int data_size, int msb,
   while (bits_left > 0) {
     int bwidth = std::min(8 - blsb, bits_left);
     uint8_t bmask = ((1 << bwidth) - 1) << blsb;
-    val |= ((data[byte_low] & bmask) >> blsb) << bits_extracted;
+    val |= static_cast<T>((data[byte_low] & bmask) >> blsb) << bits_extracted;
     blsb = 0;
     bits_left -= bwidth;
     bits_extracted += bwidth;
diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index ea253a7..c0a0302 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -453,9 +453,15 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
     absl::StrAppend(&h_output, "inline ", result_type_name, " Extract",
                     ToPascalCase(field->name), "(const uint8_t *value) {\n");
     int byte_size = (declared_width_ + 7) / 8;
-    absl::StrAppend(&h_output, "  return internal::ExtractBits<",
-                    result_type_name, ">(value, ", byte_size, ", ", field->high,
-                    ", ", field->width, ");\n}\n\n");
+    expr = absl::StrCat("internal::ExtractBits<", result_type_name, ">(value, ",
+                        byte_size, ", ", field->high, ", ", field->width, ")");
+    if (field->is_signed) {
+      int shift = return_width - field->width;
+      absl::StrAppend(&h_output, "  ", result_type_name, " result = ", expr,
+                      " << ", shift, ";\n");
+      expr = absl::StrCat("result >> ", shift);
+    }
+    absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
   }
   return h_output;
 }
-- 
2.43.0


From da342a0dc5be8b3949cb113361daff98cb6be589 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:33:54 +0000
Subject: [PATCH 073/127] fix: inserting an overlay did not clear the bits it
 replaced

---
 mpact/sim/decoder/format.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index c0a0302..4e3e441 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -623,7 +623,12 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
       shift = absl::StrCat(" << ", bits_or_field->low());
     }
     if (declared_width_ <= 128) {
-      absl::StrAppend(&h_output, "  inst_word |= (tmp ", shift, ");\n");
+      std::string mask = use_mask_variable
+                             ? std::string("mask")
+                             : absl::StrCat("0x", absl::Hex(LowBitMask(width)),
+                                            "ULL");
+      absl::StrAppend(&h_output, "  inst_word = (inst_word & ~(", mask, shift,
+                      ")) | (tmp ", shift, ");\n");
     } else {
       absl::StrAppend(&h_output, "  internal::InsertBits(inst_word, ",
                       byte_size, ", ", bits_or_field->high(), ", ", width,
-- 
2.43.0


From 61d81d618284f24e6b57944a4df2bf1cbc15ce5b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:40:20 +0000
Subject: [PATCH 074/127] fix: inserting an overlay wider than its format
 ignored the high bits

---
 mpact/sim/decoder/format.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 4e3e441..644a6bc 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -561,7 +561,11 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
   std::string h_output;
   std::string result_type_name = GetUIntType(computed_width_);
   std::string overlay_type_name;
-  if (computed_width_ <= 128) {
+  if (computed_width_ <= 64) {
+    // Constant bits may make the overlay wider than the format.
+    overlay_type_name =
+        GetUIntType(std::max(computed_width_, overlay->declared_width()));
+  } else if (computed_width_ <= 128) {
     overlay_type_name = result_type_name;
   } else {
     overlay_type_name = GetUIntType(overlay->declared_width());
-- 
2.43.0


From 06b71b51ba22484d9869de1a8fe6240ce8aedf6e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:41:44 +0000
Subject: [PATCH 075/127] fix: extracting an overlay of only zeros returned an
 uninitialized value

---
 mpact/sim/decoder/overlay.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 3f39a11..2b35026 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -262,6 +262,8 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
     }
     assign = " |= ";
   }
+  // The overlay consists of nothing but zeros.
+  if (output.empty()) absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
@@ -320,6 +322,10 @@ std::string Overlay::WritePackedStructValueExtractor(
     }
     assign = " |= ";
   }
+  // The overlay consists of nothing but zeros.
+  if (assign == " = ") {
+    absl::StrAppend(&output, "  ", result, " = 0;\n");
+  }
   return output;
 }
 
@@ -359,6 +365,8 @@ std::string Overlay::WriteComplexValueExtractor(
     }
     assign = " |= ";
   }
+  // The overlay consists of nothing but zeros.
+  if (output.empty()) absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
-- 
2.43.0


From a00cb5af938e9e0529870ec5d1b229d2ab9b9926 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:41:44 +0000
Subject: [PATCH 076/127] fix: the high bits of overlays of more than 32 bits
 were lost

---
 mpact/sim/decoder/overlay.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 2b35026..61e48d9 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -234,6 +234,8 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
                                                absl::string_view result) const {
   std::string output;
   std::string assign = " = ";
+  // Make sure that no bits are lost when shifting left.
+  absl::string_view suffix = declared_width_ > 32 ? "ULL" : "";
   for (auto* component : component_vec_) {
     if (component->high() < 0) {
       // Binary literals are added.
@@ -242,7 +244,7 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
+      absl::StrAppend(&output, "  ", result, assign, bin_num.value, suffix);
       if (shift > 0) {
         absl::StrAppend(&output, " << ", shift);
       }
@@ -251,7 +253,7 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       // Field or format references are added.
       uint64_t mask = LowBitMask(component->width()) << component->low();
       absl::StrAppend(&output, "  ", result, assign, "(", value, " & 0x",
-                      absl::Hex(mask), ")");
+                      absl::Hex(mask), suffix, ")");
       int diff = component->high() - component->position();
       if (diff < 0) {
         absl::StrAppend(&output, " << ", -diff);
-- 
2.43.0


From 61c73156296f4f756f446b07eaae943c576587fe Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:44:36 +0000
Subject: [PATCH 077/127] fix: accessors of replicated formats used the wrong
 bits or did not compile

---
 mpact/sim/decoder/format.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 644a6bc..9e41c99 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -719,7 +719,7 @@ std::string Format::GenerateReplicatedFormatInserter(
     uint64_t mask = LowBitMask(width);
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
-                    "  return (inst_word & (~0x",
+                    "  return (inst_word & ~(0x",
                     absl::Hex(mask), "ULL << low))", " | ((value << low) & (0x",
                     absl::Hex(mask), "ULL << low));\n}\n");
   } else if (declared_width_ <= 128) {
@@ -862,7 +862,7 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
     int low = high - width + 1;
     std::string shift;
     if (size > 1) {
-      shift = absl::StrCat("(", low, " + (index - 1) * ", width, ")");
+      shift = absl::StrCat("(", low, " - index * ", width, ")");
     } else {
       shift = absl::StrCat(low);
     }
@@ -900,7 +900,8 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
   if ((declared_width_ <= 128) &&
       (absl::popcount(static_cast<unsigned>(declared_width_)) > 1)) {
     absl::StrAppend(&h_output, "inline ", return_type, " Extract",
-                    ToPascalCase(format_alias), "(const uint8_t *value) {\n");
+                    ToPascalCase(format_alias), "(const uint8_t *value",
+                    size > 1 ? ", int index" : "", ") {\n");
     int byte_size = (declared_width_ + 7) / 8;
     expr = absl::StrCat("internal::ExtractBits<", return_type, ">(value, ",
                         byte_size, ", ", high);
-- 
2.43.0


From 951405b03e4840257a0f08079d6f9f6394d49920 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:47:20 +0000
Subject: [PATCH 078/127] fix: accessors of fields of 65- to 128-bit formats
 were wrong or did not compile

---
 mpact/sim/decoder/format.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 9e41c99..a7de402 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -433,6 +433,10 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
   std::string sign_extension;
   if (field->is_signed) {
     int shift = return_width - field->width;
+    // There is no implicit conversion from absl::uint128.
+    if (declared_width_ > 64) {
+      expr = absl::StrCat("static_cast<", result_type_name, ">(", expr, ")");
+    }
     sign_extension =
         absl::StrCat("  ", result_type_name, " result = (", expr, ") << ",
                      shift, ";\n  result = result >> ", shift, ";\n");
@@ -533,8 +537,13 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
     if (field->low != 0) {
       absl::StrAppend(&h_output, "  mask = mask << ", field->low, ";\n");
     }
-    absl::StrAppend(&h_output,
-                    "  inst_word = (inst_word & ~mask) | (value & mask);\n"
+    std::string shift;
+    if (field->low != 0) {
+      shift = absl::StrCat(" << ", field->low);
+    }
+    absl::StrAppend(&h_output, "  inst_word = (inst_word & ~mask) | ((value",
+                    shift,
+                    ") & mask);\n"
                     "  return inst_word;\n"
                     "}\n");
   } else if (field->width <= 128) {
-- 
2.43.0


From 7cf3dc4b2d16959ede4d46f177e538a5cadacfa3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:48:24 +0000
Subject: [PATCH 079/127] fix: base formats had accessors on whose bits the
 derived formats disagree

---
 mpact/sim/decoder/format.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index a7de402..92c2918 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -48,10 +48,13 @@ FieldOrFormat::~FieldOrFormat() {
 bool FieldOrFormat::operator==(const FieldOrFormat& rhs) const {
   if (is_field_ != rhs.is_field_) return false;
   if (is_field_) {
-    if (high_ != rhs.high_) return false;
-    if (size_ != rhs.size_) return false;
+    if (field_->high != rhs.field_->high) return false;
+    if (field_->width != rhs.field_->width) return false;
+    if (field_->is_signed != rhs.field_->is_signed) return false;
   } else {
     if (format_ != rhs.format_) return false;
+    if (high_ != rhs.high_) return false;
+    if (size_ != rhs.size_) return false;
   }
   return true;
 }
-- 
2.43.0


From 40786443e1300ef0c1d684592180a843c919359c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:51:54 +0000
Subject: [PATCH 080/127] fix: base formats had accessors for overlays that
 differ in sign or width

---
 mpact/sim/decoder/overlay.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 61e48d9..7982c67 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -215,6 +215,8 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
 }
 
 bool Overlay::operator==(const Overlay& rhs) const {
+  if (is_signed_ != rhs.is_signed_) return false;
+  if (declared_width_ != rhs.declared_width_) return false;
   if (declared_width_ > 64) {
     return WriteComplexValueExtractor("value", "result", "") ==
            rhs.WriteComplexValueExtractor("value", "result", "");
-- 
2.43.0


From 8fedb7c4fc14365ce291d7d4fa99ca68ca404b7a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 17:53:48 +0000
Subject: [PATCH 081/127] fix: decoders mixed up fields of the same name in
 different formats

---
 mpact/sim/decoder/encoding_group.cc | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index c621b7c..a1f123e 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -396,6 +396,24 @@ void EncodingGroup::EmitDecoders(absl::string_view name,
   }
 }
 
+namespace {
+
+// Emit the code for an encoding. Put it in a scope of its own if it extracts
+// any values, as other encodings may have formats that use the same names for
+// different bits.
+void EmitScoped(int indent, const absl::flat_hash_set<std::string>& extracted,
+                absl::string_view statement, std::string* definitions_ptr) {
+  if (extracted.empty()) {
+    absl::StrAppend(definitions_ptr, statement);
+    return;
+  }
+  std::string indent_str(indent + 2, ' ');
+  absl::StrAppend(definitions_ptr, indent_str, "{\n", statement, indent_str,
+                  "}\n");
+}
+
+}  // namespace
+
 void EncodingGroup::EmitComplexDecoderBody(
     std::string* definitions_ptr, absl::string_view index_extraction,
     absl::string_view opcode_enum) const {
@@ -415,16 +433,18 @@ void EncodingGroup::EmitComplexDecoderBody(
   absl::StrAppend(definitions_ptr, "  switch (index) {\n");
   // For each index value, generate the 'case' statement.
   for (auto& [index_value, encodings] : encoding_map) {
-    absl::flat_hash_set<std::string> extracted;
     absl::StrAppend(definitions_ptr, "    case 0x", absl::Hex(index_value),
                     ": {\n");
     int if_count = 0;
     for (auto* encoding : encodings) {
+      absl::flat_hash_set<std::string> extracted;
+      std::string statement;
       for (auto* constraint : encoding->equal_constraints()) {
         ProcessConstraint(extracted, constraint, definitions_ptr);
       }
       if_count += EmitEncodingIfStatement(/*indent*/ 4, encoding, opcode_enum,
-                                          extracted, definitions_ptr);
+                                          extracted, &statement);
+      EmitScoped(/*indent*/ 4, extracted, statement, definitions_ptr);
     }
     if (if_count > 0) absl::StrAppend(definitions_ptr, "      break;\n");
     absl::StrAppend(definitions_ptr, "    }\n");
@@ -438,16 +458,18 @@ void EncodingGroup::EmitComplexDecoderBodyIfSequence(
     std::string* definitions_ptr, absl::string_view opcode_enum) const {
   // For each instruction in the encoding vec, generate the if statement
   // to see if the instruction is matched.
-  absl::flat_hash_set<std::string> extracted;
   int count = 0;
   // For equal constraints, some can be ignored because those bits are
   // wholly considered by the parent groups or the discriminator.
   for (auto* encoding : encoding_vec_) {
+    absl::flat_hash_set<std::string> extracted;
+    std::string statement;
     for (auto* constraint : encoding->equal_constraints()) {
       ProcessConstraint(extracted, constraint, definitions_ptr);
     }
     count += EmitEncodingIfStatement(/*indent*/ 0, encoding, opcode_enum,
-                                     extracted, definitions_ptr);
+                                     extracted, &statement);
+    EmitScoped(/*indent*/ 0, extracted, statement, definitions_ptr);
   }
   if (count > 0) {
     absl::StrAppend(definitions_ptr, "  return std::make_pair(", opcode_enum,
-- 
2.43.0


From 766fd095b0784717ea8e7ebc182b33d838cd3640 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:30:15 +0000
Subject: [PATCH 082/127] fix: a breakpoint gave the command line control for
 good

RenodeStep marked the program as done for every reason to halt. From then on
the command line was always considered in control, so that it used the
simulator while ReNode did, and a step beyond ReNode's quantum never ended.
---
 mpact/sim/util/renode/renode_cli_top.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 6292c2b..2916445 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -88,7 +88,6 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
       if ((halt_reason != *HaltReason::kProgramDone) &&
           (halt_reason != *HaltReason::kNone)) {
         cli_status_ = RunStatus::kHalted;
-        program_done_ = true;
         continue;
       }
       // ProgramHalted request halts the simulation. So transfer control and
-- 
2.43.0


From 05da439517db623758de4fe2580608113ccd1e01 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:44:53 +0000
Subject: [PATCH 083/127] fix: ReNode hung or went on stepping after the
 program ended

After the end of the program RenodeStep waited for the command line for ever
if ReNode found it, and stepped the ended program if the command line had
found it.
---
 mpact/sim/util/renode/renode_cli_top.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 2916445..cec0ddf 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -59,7 +59,7 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
   renode_steps_taken_ = 0;
   renode_steps_to_take_ = num;
   auto renode_take_control = [this]() -> bool {
-    return (cli_status_ == RunStatus::kRunning) ||
+    return program_done_ || (cli_status_ == RunStatus::kRunning) ||
            (renode_steps_taken_ >= renode_steps_to_take_);
   };
   // CLI was either idle, running, or stepping previously when cli run control
@@ -72,8 +72,9 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
     uint64_t stepped = 0;
     run_control_mutex_.Await(absl::Condition(&renode_take_control));
     // See if there is any stepping left to do now that renode has control
-    // again. The steps might have been taken while the CLI was stepping.
-    if (renode_steps_to_take_ <= renode_steps_taken_) break;
+    // again. The steps might have been taken while the CLI was stepping. There
+    // is none once the program is done.
+    if (program_done_ || (renode_steps_to_take_ <= renode_steps_taken_)) break;
 
     auto res = top_->Step(renode_steps_to_take_ - renode_steps_taken_);
     if (res.ok()) {
@@ -152,7 +153,7 @@ absl::Status RenodeCLITop::CLIRun() {
   // This predicate is used to determine when the command line interface is
   // in control for the purposes of issuing a run command.
   auto cli_is_not_running = [this] {
-    return cli_status_ != RunStatus::kRunning;
+    return program_done_ || (cli_status_ != RunStatus::kRunning);
   };
   run_control_mutex_.LockWhen(absl::Condition(&cli_is_not_running));
   if (top_->GetLastHaltReason().value() == *HaltReason::kProgramDone) {
-- 
2.43.0


From 4006eb8744ffe81aeae4e26870a1115bf2701321 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:44:53 +0000
Subject: [PATCH 084/127] fix: the command line could step on after a failed
 step of ReNode

The steps left over by the failed request could be taken by the command line
although ReNode was not waiting for them, so that it never learnt of them.
---
 mpact/sim/util/renode/renode_cli_top.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index cec0ddf..0feef23 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -102,6 +102,8 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
       if (renode_steps_to_take_ <= renode_steps_taken_) break;
     } else {
       status = res.status();
+      // ReNode is not going to take any of the remaining steps of this request.
+      renode_steps_to_take_ = renode_steps_taken_;
       break;
     }
   }
-- 
2.43.0


From 890e2eddc1697ae0bd66797bdf050f1dec54a955 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 18:59:51 +0000
Subject: [PATCH 085/127] fix: a reconnected ReNode instance kept the name
 length of a destroyed one

---
 mpact/sim/util/renode/renode_mpact.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 0b96319..cfd4057 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -204,6 +204,7 @@ void RenodeAgent::Destroy(int32_t id) {
 
   delete dbg_iter->second;
   core_dbg_instances_.erase(dbg_iter);
+  name_length_map_.erase(id);
 
   // Delete the memory access shim.
   auto mem_iter = renode_memory_access_.find(id);
-- 
2.43.0


From 90bfe8fc4e72f8cc186f977f9f737198fd69e58a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:01:32 +0000
Subject: [PATCH 086/127] fix: two ReNode instances could be created with the
 same name

---
 mpact/sim/util/renode/renode_mpact.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index cfd4057..78f3217 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -142,6 +142,11 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
                                                         int32_t),
                                int32_t (*write_callback)(uint64_t, char*,
                                                          int32_t)) {
+  // Make sure that we don't reuse an instance number that may have been created
+  // through Connect.
+  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
+    RenodeAgent::count_++;
+  }
   std::string name = absl::StrCat("renode", count_);
   auto* memory_access = new RenodeMemoryAccess(read_callback, write_callback);
   auto* dbg = CreateMpactSim(name, cpu_type, memory_access);
@@ -149,11 +154,6 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
     delete memory_access;
     return -1;
   }
-  // Make sure that we don't reuse an instance number that may have been created
-  // through Connect.
-  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
-    RenodeAgent::count_++;
-  }
   core_dbg_instances_.emplace(RenodeAgent::count_, dbg);
   name_length_map_.emplace(RenodeAgent::count_, max_name_length);
   renode_memory_access_.emplace(RenodeAgent::count_, memory_access);
-- 
2.43.0


From 6d9b593a72de23c3739f2d3fe9e09a88d5e7de28 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 087/127] fix: some steps of ReNode crashed without a place for
 the status

---
 mpact/sim/util/renode/renode_mpact.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 78f3217..5d8a09a 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -372,7 +372,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   }
 
   if (num_to_step == 0) {
-    *status = static_cast<int32_t>(ExecutionResult::kOk);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kOk);
+    }
     return 0;
   }
 
@@ -390,7 +392,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   // code.
   if (halt_res.value() ==
       *RenodeDebugInterface::HaltReason::kSemihostHaltRequest) {
-    *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    }
     return 0;
   }
   // Perform the stepping.
-- 
2.43.0


From 1c8f047e0b83d2546f0a41fcdc013e9124e07ca9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:03:14 +0000
Subject: [PATCH 088/127] fix: counts of 2^32 and more steps of ReNode were
 truncated

---
 mpact/sim/util/renode/renode_mpact.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 5d8a09a..629e9ea 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -398,7 +398,7 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
     return 0;
   }
   // Perform the stepping.
-  uint32_t total_executed = 0;
+  uint64_t total_executed = 0;
   while (num_to_step > 0) {
     // Check how far to step, and make multiple calls if the number
     // is greater than <int>::max();
-- 
2.43.0


From c5c407e6e7ee3d6c67c9fd57c47dcc6a1bc987a5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:06:26 +0000
Subject: [PATCH 089/127] fix: loading an image that cannot be read was
 reported as a success

---
 mpact/sim/util/renode/renode_mpact.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 629e9ea..694b8ea 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -357,6 +357,10 @@ int32_t RenodeAgent::LoadImage(int32_t id, const char* file_name,
     }
     load_address += gcount;
   } while (image_file.good() && (gcount > 0));
+  if (image_file.bad()) {
+    LOG(ERROR) << "LoadImage: Failed to read input file";
+    return -1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 69796525da349d663d912805efd75f8811a06b23 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:19:35 +0000
Subject: [PATCH 090/127] fix: profiling the last instruction of a program
 wrote outside the counters

---
 mpact/sim/util/other/instruction_profiler.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 966dea3..fcdae4c 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -75,8 +75,9 @@ void InstructionProfiler::AddSampleInternal(uint64_t sample) {
 void InstructionProfiler::WriteProfile(std::ostream& os) {
   os << "Address,Count" << "\n";
   for (auto const& [range, counters] : profile_ranges_) {
-    uint64_t size = range.end - range.start;
-    for (auto i = 0; i < size; ++i) {
+    // The end of the range is inclusive.
+    uint64_t size = range.end - range.start + 1;
+    for (uint64_t i = 0; i < size; ++i) {
       if (counters[i] == 0) continue;
       os << absl::StrFormat("0x%llx,%llu\n", (range.start + i) << shift_,
                             counters[i]);
@@ -114,7 +115,7 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
     // start a new range.
-    size = end - begin - 1;
+    size = end - begin;
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
@@ -124,7 +125,7 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
   }
   // Make the last entry.
   if (begin != 0 || end != 0) {
-    uint64_t size = end - begin - 1;
+    uint64_t size = end - begin;
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
-- 
2.43.0


From 673c80210fe6e56049d021c92c588135ed140278 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:19:35 +0000
Subject: [PATCH 091/127] fix: profiling behind an executable segment wrote
 outside the counters

---
 mpact/sim/util/other/instruction_profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index fcdae4c..a9a4b67 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -119,7 +119,7 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
-        std::make_pair(MemoryWatcher::AddressRange{begin, end}, counters));
+        std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
     begin = vaddr_begin;
     end = vaddr_begin + size;
   }
-- 
2.43.0


From 7a3924957c9468ffa66850188a22898e6f5f5e98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:19:35 +0000
Subject: [PATCH 092/127] fix: profiling the highest address first crashed

---
 mpact/sim/util/other/instruction_profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/instruction_profiler.h b/mpact/sim/util/other/instruction_profiler.h
index 35fbf35..76aae26 100644
--- a/mpact/sim/util/other/instruction_profiler.h
+++ b/mpact/sim/util/other/instruction_profiler.h
@@ -75,7 +75,7 @@ class InstructionProfiler : public CounterValueSetInterface<uint64_t> {
                   MemoryWatcher::AddressRangeLess>
       profile_ranges_;
   uint64_t last_start_ = 0xffff'ffff'ffff'ffffULL;
-  uint64_t last_end_ = 0xffff'ffff'ffff'ffffULL;
+  uint64_t last_end_ = 0;
   uint64_t* last_profile_range_ = nullptr;
 };
 
-- 
2.43.0


From 1e0af81a2bffb6a9e3bc2c50f9310c9c571fbc23 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:20:36 +0000
Subject: [PATCH 093/127] fix: profile ranges after the first had the size of
 the one before

---
 mpact/sim/util/other/instruction_profiler.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index a9a4b67..541a8d8 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -115,9 +115,9 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
     // start a new range.
-    size = end - begin;
-    uint64_t* counters = new uint64_t[size];
-    ::memset(counters, 0, size * sizeof(uint64_t));
+    uint64_t range_size = end - begin;
+    uint64_t* counters = new uint64_t[range_size];
+    ::memset(counters, 0, range_size * sizeof(uint64_t));
     profile_ranges_.insert(
         std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
     begin = vaddr_begin;
-- 
2.43.0


From ab4fd2230050fec6f098ac373be6f80c83b19885 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:20:36 +0000
Subject: [PATCH 094/127] fix: function symbols without a size hid the
 functions around them

---
 mpact/sim/util/program_loader/elf_program_loader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 6ebb974..761a163 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -99,8 +99,11 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
                          other);
       if (type == ELFIO::STT_FUNC) {
         fcn_symbol_map_.emplace(value, name);
+        // Symbols without a size do not cover any addresses.
+        uint64_t range_size = size / text_size_scale_;
+        if (range_size == 0) continue;
         function_range_map_.insert(
-            std::make_pair(AddressRange(value, size / text_size_scale_), name));
+            std::make_pair(AddressRange(value, range_size), name));
       }
     }
   }
-- 
2.43.0


From fff073019474029add0a255a1f46556779f0c299 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:25:13 +0000
Subject: [PATCH 095/127] fix: functions that overlap another one were not
 found by address

---
 .../util/program_loader/elf_program_loader.cc | 22 +++++++++++++++++--
 .../util/program_loader/elf_program_loader.h  |  2 ++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 761a163..0e4f27b 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -60,6 +60,25 @@ ElfProgramLoader::~ElfProgramLoader() {
 }
 
 // Only load the program into the elf reader so that symbols can be looked up.
+// Function symbols may overlap, but the ranges in the map must not: add those
+// parts of the range that are not covered yet.
+void ElfProgramLoader::AddFunctionRange(uint64_t start, uint64_t end,
+                                        const std::string& name) {
+  while (start < end) {
+    // Find the first range that ends after start.
+    auto iter = function_range_map_.lower_bound(AddressRange(start));
+    uint64_t part_end = end;
+    if (iter != function_range_map_.end() && iter->first.start < end) {
+      part_end = iter->first.start;
+    }
+    if (start < part_end) {
+      function_range_map_.emplace(AddressRange(start, part_end - start), name);
+    }
+    if (part_end == end) return;
+    start = iter->first.end;
+  }
+}
+
 absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
     const std::string& file_name) {
   struct stat buffer;
@@ -102,8 +121,7 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
         // Symbols without a size do not cover any addresses.
         uint64_t range_size = size / text_size_scale_;
         if (range_size == 0) continue;
-        function_range_map_.insert(
-            std::make_pair(AddressRange(value, range_size), name));
+        AddFunctionRange(value, value + range_size, name);
       }
     }
   }
diff --git a/mpact/sim/util/program_loader/elf_program_loader.h b/mpact/sim/util/program_loader/elf_program_loader.h
index a1ae625..a9675dd 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.h
+++ b/mpact/sim/util/program_loader/elf_program_loader.h
@@ -105,6 +105,8 @@ class ElfProgramLoader : public ProgramLoaderInterface {
   const ELFIO::elfio* elf_reader() const { return &elf_reader_; }
 
  private:
+  void AddFunctionRange(uint64_t start, uint64_t end, const std::string& name);
+
   const std::vector<MemoryDescriptor>* memories_ = nullptr;
   bool loaded_ = false;
   ELFIO::elfio elf_reader_;
-- 
2.43.0


From ff61c534449ab1e43fe0298bc35fe7a9edfe874e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:28:55 +0000
Subject: [PATCH 096/127] fix: loading another file used the symbol tables of
 the first after they were freed

---
 mpact/sim/util/program_loader/elf_program_loader.cc | 11 ++++++++++-
 mpact/sim/util/program_loader/elf_program_loader.h  |  2 ++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 0e4f27b..2104499 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -52,11 +52,18 @@ ElfProgramLoader::ElfProgramLoader(util::MemoryInterface* memory)
 ElfProgramLoader::ElfProgramLoader(generic::CoreDebugInterface* dbg_if)
     : dbg_if_(dbg_if) {}
 
-ElfProgramLoader::~ElfProgramLoader() {
+ElfProgramLoader::~ElfProgramLoader() { Clear(); }
+
+void ElfProgramLoader::Clear() {
+  loaded_ = false;
   for (auto* symtab : symbol_accessors_) {
     delete symtab;
   }
   symbol_accessors_.clear();
+  fcn_symbol_map_.clear();
+  function_range_map_.clear();
+  has_stack_size_ = false;
+  stack_size_ = 0;
 }
 
 // Only load the program into the elf reader so that symbols can be looked up.
@@ -87,6 +94,8 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
     return absl::NotFoundError(
         absl::StrCat("Unable to open elf file: '", file_name, "'"));
   }
+  // Loading a file invalidates the sections of any file loaded before.
+  Clear();
   if (!elf_reader_.load(file_name)) {
     return absl::InternalError(
         absl::StrCat("Elf loading error for '", file_name, "'"));
diff --git a/mpact/sim/util/program_loader/elf_program_loader.h b/mpact/sim/util/program_loader/elf_program_loader.h
index a9675dd..89e1cea 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.h
+++ b/mpact/sim/util/program_loader/elf_program_loader.h
@@ -105,6 +105,8 @@ class ElfProgramLoader : public ProgramLoaderInterface {
   const ELFIO::elfio* elf_reader() const { return &elf_reader_; }
 
  private:
+  // Forget everything about the file that was loaded.
+  void Clear();
   void AddFunctionRange(uint64_t start, uint64_t end, const std::string& name);
 
   const std::vector<MemoryDescriptor>* memories_ = nullptr;
-- 
2.43.0


From de7bd9e40c8eabe58f09ca42d441e80eff3ca054 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:47:24 +0000
Subject: [PATCH 097/127] fix: escaped characters of gdb packets were
 duplicated

---
 mpact/sim/util/gdbserver/gdbserver.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 7325d9b..60bd2ec 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -55,11 +55,11 @@ constexpr std::string_view kGDBServerVersion =
 // escapes after the command has been "unwrapped".
 std::string UnescapeCommand(std::string_view escaped_command) {
   std::string command;
-  for (int i = 0; i < escaped_command.size(); ++i) {
+  for (size_t i = 0; i < escaped_command.size(); ++i) {
     char c = escaped_command[i];
     if (c == 0x7d) {
-      c = escaped_command[++i] ^ 0x20;
-      command.push_back(c);
+      if (++i == escaped_command.size()) break;
+      c = escaped_command[i] ^ 0x20;
     }
     command.push_back(c);
   }
-- 
2.43.0


From 8372a398c248b3606cbb1ef86fa6c0f5e8ee78e4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:47:24 +0000
Subject: [PATCH 098/127] fix: special characters in replies to gdb broke the
 packet

---
 mpact/sim/util/gdbserver/gdbserver.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 60bd2ec..a9037fd 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -66,6 +66,19 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   return command;
 }
 
+// Escapes the characters that have a special meaning in GDB packets.
+std::string EscapeResponse(std::string_view response) {
+  std::string escaped_response;
+  for (char c : response) {
+    if ((c == '#') || (c == '$') || (c == '}') || (c == '*')) {
+      escaped_response.push_back(0x7d);
+      c ^= 0x20;
+    }
+    escaped_response.push_back(c);
+  }
+  return escaped_response;
+}
+
 }  // namespace
 
 namespace mpact::sim::util::gdbserver {
@@ -260,14 +273,15 @@ void GdbServer::Terminate() {
 }
 
 void GdbServer::Respond(std::string_view response) {
+  std::string escaped_response = EscapeResponse(response);
   // Compute the checksum of the response.
   uint8_t checksum = 0;
-  for (char c : response) {
+  for (char c : escaped_response) {
     checksum += c;
   }
   // Format the response string.
   std::string response_str = absl::StrCat(
-      "$", response, "#", absl::StrFormat("%02x", static_cast<int>(checksum)));
+      "$", escaped_response, "#", absl::StrFormat("%02x", static_cast<int>(checksum)));
   if (log_packets_) {
     LOG(INFO) << absl::StrFormat("Response: '%s'", response_str);
   }
-- 
2.43.0


From bce6dc74b09dda1799579fc1a1a5523b01155b17 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 099/127] fix: gdb packets longer than the buffer were written
 past its end

---
 mpact/sim/util/gdbserver/gdbserver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index a9037fd..727eef9 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -236,6 +236,12 @@ bool GdbServer::Connect(int port) {
         Terminate();
         return false;
       }
+      // Leave room for the checksum.
+      if (buffer_pos >= static_cast<int>(sizeof(buffer_)) - 2) {
+        LOG(ERROR) << absl::StrFormat("Command on port %d is too long", port);
+        Terminate();
+        return false;
+      }
       buffer_[buffer_pos++] = val;
     } while (val != '#');
     // Next read the checksum.
-- 
2.43.0


From 6bc0d08cbd7e9d3d0f8f52d79e1623e7a305e07c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 100/127] fix: a read error on the gdb connection repeated the
 last character forever

---
 mpact/sim/util/gdbserver/gdbserver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index c1e3b4d..b96588f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -61,7 +61,7 @@ class GdbSocketStreambuf : public std::streambuf {
   // On underflow read character from the socket fd.
   std::streambuf::int_type underflow() override {
     int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    if (count <= 0) return traits_type::eof();
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
   }
-- 
2.43.0


From 97041d4e6832c069cf82cc9593021bc4340bbc26 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 101/127] fix: the gdb connection was closed up to three times

---
 mpact/sim/util/gdbserver/gdbserver.cc | 2 ++
 mpact/sim/util/gdbserver/gdbserver.h  | 9 +++------
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 727eef9..0792144 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -267,6 +267,7 @@ void GdbServer::Terminate() {
       (void)shutdown(cli_fd_, SHUT_RDWR);
       (void)close(cli_fd_);
     }
+    cli_fd_ = -1;
   }
   if (server_socket_ != -1) {
     int res = shutdown(server_socket_, SHUT_RDWR);
@@ -274,6 +275,7 @@ void GdbServer::Terminate() {
     if (res >= 0) {
       (void)close(server_socket_);
     }
+    server_socket_ = -1;
   }
   good_ = false;
 }
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index b96588f..aadadcd 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -42,18 +42,15 @@ using ::mpact::sim::generic::DebugInfo;
 // descriptor, so that it can be used to access a socket as an istream/ostream.
 // The overflow and underflow methods are the bare minimum that's required to
 // implement to make this happen. No buffering is performed. This streambuf
-// does not expand \n to \r\n or vice versa.
+// does not expand \n to \r\n or vice versa. The file descriptor is not owned by
+// the streambuf.
 class GdbSocketStreambuf : public std::streambuf {
  public:
   explicit GdbSocketStreambuf(int fd) : fd_(fd) {}
-  ~GdbSocketStreambuf() override { close(fd_); }
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
-    if (c == EOF) {
-      close(fd_);
-      return c;
-    }
+    if (c == EOF) return c;
     write(fd_, &c, 1);
     return c;
   }
-- 
2.43.0


From dfb8390c502c5d97f6c4d9eaafe766174d6e11b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:47:25 +0000
Subject: [PATCH 102/127] fix: another gdb connection leaked the first one and
 kept its modes

---
 mpact/sim/util/gdbserver/gdbserver.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 0792144..b444ed3 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -146,6 +146,22 @@ bool GdbServer::Connect(int port) {
   if (port <= 0) {
     return false;
   }
+  // Release the previous connection, if any.
+  Terminate();
+  delete os_;
+  delete is_;
+  delete out_buf_;
+  delete in_buf_;
+  os_ = nullptr;
+  is_ = nullptr;
+  out_buf_ = nullptr;
+  in_buf_ = nullptr;
+  no_ack_mode_ = false;
+  no_ack_mode_latch_ = false;
+  error_message_supported_ = false;
+  thread_suffix_ = false;
+  thread_select_.clear();
+  good_ = true;
   // Create the socket on the given port.
   server_socket_ =
       socket(/*domain=*/AF_INET, /*type=*/SOCK_STREAM, /*protocol=*/0);
-- 
2.43.0


From 39a87cb23c40d1395322cff6bff813b79f017d42 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 103/127] fix: thread ids out of range made the gdb server
 access other memory

---
 mpact/sim/util/gdbserver/gdbserver.cc | 11 ++++++++++-
 mpact/sim/util/gdbserver/gdbserver.h  |  5 +++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index b444ed3..9838b93 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -348,6 +348,10 @@ int GdbServer::GetThreadId(char command_type, std::string_view command) {
         LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", thread_id_str);
         return 1;
       }
+      if (!IsValidThreadId(thread_id)) {
+        LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", thread_id_str);
+        return 1;
+      }
       return thread_id;
     }
     LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", command);
@@ -751,7 +755,9 @@ void GdbServer::GdbVContinue(std::string_view command) {
     // Otherwise, apply the action to the specified thread.
     int tid;
     bool success = absl::SimpleHexAtoi(tid_str, &tid);
-    if (!success || (tid > core_debug_interfaces_.size())) {
+    // Thread id 0 means any thread.
+    if (success && (tid == 0)) tid = 1;
+    if (!success || !IsValidThreadId(tid)) {
       SendError("invalid thread id");
       return;
     }
@@ -856,6 +862,9 @@ void GdbServer::GdbSelectThread(std::string_view command) {
     }
   }
   if (thread_id == 0) thread_id = 1;
+  if (!IsValidThreadId(thread_id)) {
+    return SendError("invalid thread id");
+  }
   thread_select_[op] = thread_id;
   Respond("OK");
 }
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index aadadcd..283eeda 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -99,6 +99,11 @@ class GdbServer {
   void SendError(std::string_view error);
 
   int GetThreadId(char command_type, std::string_view command);
+  // Returns true if there is a thread with the given id.
+  bool IsValidThreadId(int thread_id) const {
+    return (thread_id >= 1) &&
+           (thread_id <= static_cast<int>(core_debug_interfaces_.size()));
+  }
   // Takes a GDB command string, verifies the checksum, and if it is valid,
   // then submits the command to be parsed.
   void AcceptGdbCommand(std::string_view command);
-- 
2.43.0


From fa115540d89920b7e7397e8b308fc66a85c2795c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 104/127] fix: gdb commands without operands read past the end
 of the packet

---
 mpact/sim/util/gdbserver/gdbserver.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 9838b93..8ea552f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -421,6 +421,8 @@ void GdbServer::AcceptGdbCommand(std::string_view command) {
 }
 
 void GdbServer::ParseGdbCommand(std::string_view command) {
+  // An empty command is not supported.
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       // The command is not handled, so respond with an empty string which will
@@ -729,7 +731,7 @@ void GdbServer::GdbVContinue(std::string_view command) {
   if (command == "?") {
     return Respond("vCont;c;s;");
   }
-  if (command.front() != ';') {
+  if (command.empty() || (command.front() != ';')) {
     return SendError("invalid vCont command");
   }
   command.remove_prefix(1);
@@ -850,6 +852,7 @@ void GdbServer::GdbDetach() {
 }
 
 void GdbServer::GdbSelectThread(std::string_view command) {
+  if (command.empty()) return SendError("invalid thread id");
   int thread_id;
   char op = command.front();
   command.remove_prefix(1);
@@ -1124,6 +1127,7 @@ void GdbServer::GdbWriteRegister(int thread_id,
 }
 
 void GdbServer::GdbQuery(std::string_view command) {
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       break;
@@ -1359,7 +1363,7 @@ void GdbServer::GdbRemoveBreakpoint(char type, std::string_view address_str,
 
 void GdbServer::GdbSupported(std::string_view command) {
   // Read supported GDB features.
-  if (command.front() == ':') {
+  if (!command.empty() && (command.front() == ':')) {
     command.remove_prefix(1);
     std::vector<std::string> features = absl::StrSplit(command, ';');
     for (const std::string& feature : features) {
-- 
2.43.0


From 1eb2691308e747f5d2ee4b751059ea3f4180f276 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 105/127] fix: vCont actions without a thread id were rejected
 by the gdb server

---
 mpact/sim/util/gdbserver/gdbserver.cc | 36 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 8ea552f..d24365f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -736,21 +736,26 @@ void GdbServer::GdbVContinue(std::string_view command) {
   }
   command.remove_prefix(1);
   std::vector<std::string> parts = absl::StrSplit(command, ';');
+  // The actions for each thread, where the leftmost action that matches the
+  // thread applies.
+  std::string actions(core_debug_interfaces_.size(), '\0');
   for (std::string& part : parts) {
     std::string_view part_view = part;
-    std::string_view action = part_view.substr(0, 1);
-    // Get the thread id.
-    std::string_view tid_str = part_view.substr(part.find(':') + 1);
-    // If the tread id is -1, then apply the action to all threads.
+    size_t colon_pos = part_view.find(':');
+    std::string_view action = part_view.substr(0, colon_pos);
+    if ((action != "c") && (action != "s")) {
+      SendError("invalid vCont action");
+      return;
+    }
+    // Get the thread id. If there is none, or if it is -1, then apply the
+    // action to all threads.
+    std::string_view tid_str = "-1";
+    if (colon_pos != std::string_view::npos) {
+      tid_str = part_view.substr(colon_pos + 1);
+    }
     if (tid_str == "-1") {  // all threads
-      if (action == "c") {  // continue
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
-          ContinueThread(tid);
-        }
-      } else if (action == "s") {  // step
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
-          StepThread(tid);
-        }
+      for (char& thread_action : actions) {
+        if (thread_action == '\0') thread_action = action.front();
       }
       continue;
     }
@@ -763,9 +768,12 @@ void GdbServer::GdbVContinue(std::string_view command) {
       SendError("invalid thread id");
       return;
     }
-    if (action == "c") {
+    if (actions[tid - 1] == '\0') actions[tid - 1] = action.front();
+  }
+  for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
+    if (actions[tid - 1] == 'c') {
       ContinueThread(tid);
-    } else if (action == "s") {
+    } else if (actions[tid - 1] == 's') {
       StepThread(tid);
     }
   }
-- 
2.43.0


From 08a11534ab4c57884b996a6e98ec4608f84b382b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 106/127] fix: the gdb server did not answer a continue while
 the core was running

---
 mpact/sim/util/gdbserver/gdbserver.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index d24365f..aaf453e 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -672,15 +672,15 @@ void GdbServer::GdbContinue(int thread_id, std::string_view command) {
       LOG(ERROR) << "Failed to run core: " << status.message();
       return SendError(status.message());
     }
-    // Now wait for the core to halt.
-    status = core_debug_interfaces_[thread_index]->Wait();
-    if (!status.ok()) {
-      LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
-      return SendError(status.message());
-    }
-    // Get the halt reason.
-    Respond(GetHaltReason(thread_index));
   }
+  // Now wait for the core to halt.
+  auto status = core_debug_interfaces_[thread_index]->Wait();
+  if (!status.ok()) {
+    LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
+    return SendError(status.message());
+  }
+  // Get the halt reason.
+  Respond(GetHaltReason(thread_index));
 }
 
 void GdbServer::ContinueThread(int thread_id) {
-- 
2.43.0


From af0f4558aa9c136bf7e7e803dfac045499ee3648 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 107/127] fix: the gdb stop reply for a program that is done
 was malformed

---
 mpact/sim/util/gdbserver/gdbserver.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index aaf453e..244c88f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -630,8 +630,7 @@ std::string GdbServer::GetHaltReason(int thread_id) {
       break;
     case *HaltReason::kProgramDone:
     case *HaltReason::kSemihostHaltRequest:
-      halt_reason_str = "W00thread:1;";
-      break;
+      return "W00";
   }
   return absl::StrCat(halt_reason_str, encoded_pc);
 }
-- 
2.43.0


From e296cefa6e1993417f938c4ebd679886652c0428 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 108/127] fix: the gdb stop reply for a watchpoint had no
 address

---
 mpact/sim/util/gdbserver/gdbserver.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 244c88f..33d1fee 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -825,17 +825,20 @@ void GdbServer::GdbVContinue(std::string_view command) {
       return Respond("T05thread:1;hwbreak:;");
     case *HaltReason::kDataWatchPoint: {
       core_debug_interfaces_[0]->GetWatchpointInfo(address, access_type);
-      std::string encoded_address =
-          HexEncodeNumberInTargetEndianness(debug_info_.GetGprWidth(), address);
+      // Unlike register values, the address is a plain hexadecimal number.
+      std::string encoded_address = absl::StrCat(absl::Hex(address));
       // Need to differentiate between write (watch), read (rwatch), and
       // read/write (awatch) watch points.
       switch (access_type) {
         case generic::AccessType::kLoad:
-          return Respond(absl::StrCat("T05thread:1;rwatch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;rwatch:",
+                                      encoded_address, ";", encoded_pc));
         case generic::AccessType::kStore:
-          return Respond(absl::StrCat("T05thread:1;watch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;watch:",
+                                      encoded_address, ";", encoded_pc));
         case generic::AccessType::kLoadStore:
-          return Respond(absl::StrCat("T05thread:1;awatch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;awatch:",
+                                      encoded_address, ";", encoded_pc));
         default:
           LOG(ERROR) << "Invalid access type: "
                      << static_cast<int>(access_type);
-- 
2.43.0


From 534ffbc1af0fb0ba9975415392542a6935b3735f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 109/127] fix: gdb wrote memory and registers from malformed
 data

---
 mpact/sim/util/gdbserver/gdbserver.cc | 92 +++++++++++++++++----------
 1 file changed, 60 insertions(+), 32 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 33d1fee..0074b05 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -33,6 +33,7 @@
 #include "absl/flags/flag.h"
 #include "absl/log/log.h"
 #include "absl/status/status.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/match.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
@@ -66,6 +67,22 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   return command;
 }
 
+// Converts pairs of hex digits to bytes. Returns false if the string has any
+// other characters.
+bool HexToBytes(std::string_view hex, std::vector<uint8_t>& bytes) {
+  bytes.clear();
+  if (hex.size() % 2 != 0) return false;
+  for (size_t i = 0; i < hex.size(); i += 2) {
+    if (!absl::ascii_isxdigit(hex[i]) || !absl::ascii_isxdigit(hex[i + 1])) {
+      return false;
+    }
+    uint32_t value = 0;
+    (void)absl::SimpleHexAtoi(hex.substr(i, 2), &value);
+    bytes.push_back(static_cast<uint8_t>(value));
+  }
+  return true;
+}
+
 // Escapes the characters that have a special meaning in GDB packets.
 std::string EscapeResponse(std::string_view response) {
   std::string escaped_response;
@@ -961,17 +978,15 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
     }
     return Respond("E01");
   }
-  int num_bytes = 0;
-  for (int i = 0; (i < length) && (data.size() >= 2); ++i) {
-    num_bytes++;
-    std::string_view byte = data.substr(0, 2);
-    data.remove_prefix(2);
-    uint32_t value_tmp;
-    (void)absl::SimpleHexAtoi(byte, &value_tmp);
-    uint8_t value = static_cast<uint8_t>(value_tmp);
-    buffer_[i] = value;
-  }
-  if (num_bytes != length) {
+  std::vector<uint8_t> bytes;
+  if (!HexToBytes(data, bytes)) {
+    LOG(ERROR) << "Invalid memory write format";
+    if (error_message_supported_) {
+      return SendError("invalid memory write format");
+    }
+    return Respond("E01");
+  }
+  if (bytes.size() != length) {
     LOG(ERROR) << "Length does not match data size";
     if (error_message_supported_) {
       return SendError("length does not match data size");
@@ -979,7 +994,7 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
     return Respond("E01");
   }
   auto result =
-      core_debug_interfaces_[0]->WriteMemory(address, buffer_, num_bytes);
+      core_debug_interfaces_[0]->WriteMemory(address, bytes.data(), length);
   if (!result.ok()) {
     LOG(ERROR) << "Failed to write memory: " << result.status().message();
     if (error_message_supported_) {
@@ -1021,25 +1036,36 @@ void GdbServer::GdbReadGprRegisters(int thread_id) {
 
 void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
   int thread_index = thread_id - 1;
+  std::vector<uint8_t> bytes;
+  if (!HexToBytes(data, bytes)) {
+    LOG(ERROR) << "Invalid data format";
+    return SendError("Invalid data format");
+  }
+  // Get all the registers before writing to any of them. As when reading the
+  // registers, gaps in the register numbers are skipped.
+  std::vector<generic::DataBuffer*> data_buffers;
+  size_t size = 0;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
-    if (it == debug_info_.debug_register_map().end()) {
-      LOG(ERROR) << "Internal error - failed to find register";
-      return SendError("Internal error - failed to find register");
-    }
+    if (it == debug_info_.debug_register_map().end()) continue;
     const std::string& register_name = it->second;
     auto result = core_debug_interfaces_[thread_index]->GetRegisterDataBuffer(
         register_name);
-    for (auto& byte : result.value()->Get<uint8_t>()) {
-      if (data.empty()) {
-        LOG(ERROR) << "Invalid data format";
-        return SendError("Invalid data format");
-      }
-      std::string_view byte_str = data.substr(0, 2);
-      data.remove_prefix(2);
-      uint32_t byte_value_tmp;
-      (void)absl::SimpleHexAtoi(byte_str, &byte_value_tmp);
-      byte = static_cast<uint8_t>(byte_value_tmp);
+    if (!result.ok()) {
+      LOG(ERROR) << "Failed to write register: " << result.status().message();
+      return SendError(result.status().message());
+    }
+    data_buffers.push_back(result.value());
+    size += result.value()->size<uint8_t>();
+  }
+  if (bytes.size() != size) {
+    LOG(ERROR) << "Invalid data format";
+    return SendError("Invalid data format");
+  }
+  size_t pos = 0;
+  for (auto* data_buffer : data_buffers) {
+    for (auto& byte : data_buffer->Get<uint8_t>()) {
+      byte = bytes[pos++];
     }
   }
   Respond("OK");
@@ -1125,13 +1151,15 @@ void GdbServer::GdbWriteRegister(int thread_id,
                << result.status().message();
     return SendError(result.status().message());
   }
+  std::vector<uint8_t> bytes;
+  if (!HexToBytes(register_value_str, bytes)) {
+    LOG(ERROR) << "Invalid register value: " << register_value_str;
+    return SendError("invalid register value");
+  }
+  size_t pos = 0;
   for (auto& byte : result.value()->Get<uint8_t>()) {
-    if (register_value_str.empty()) break;
-    std::string_view byte_str = register_value_str.substr(0, 2);
-    register_value_str.remove_prefix(2);
-    uint32_t byte_value_tmp;
-    (void)absl::SimpleHexAtoi(byte_str, &byte_value_tmp);
-    byte = static_cast<uint8_t>(byte_value_tmp);
+    if (pos == bytes.size()) break;
+    byte = bytes[pos++];
   }
   Respond("OK");
 }
-- 
2.43.0


From 14507f4a1ea113854d29062e3d767953a7a31451 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 110/127] fix: host info without a value crashed the gdb server

---
 mpact/sim/util/gdbserver/gdbserver.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 0074b05..ea8d7b8 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -1433,9 +1433,10 @@ void GdbServer::GdbHostInfo() {
   std::string response;
   for (const std::string& part : parts) {
     if (part.empty()) continue;
-    std::vector<std::string> key_value = absl::StrSplit(part, ':');
-    std::string_view key = key_value[0];
-    std::string_view value = key_value[1];
+    size_t colon_pos = part.find(':');
+    if (colon_pos == std::string::npos) continue;
+    std::string_view key = std::string_view(part).substr(0, colon_pos);
+    std::string_view value = std::string_view(part).substr(colon_pos + 1);
     if (key == "triple") {
       absl::StrAppend(&response, key, ":", HexEncodeString(value), ";");
     } else if (key == "distribution_id") {
-- 
2.43.0


From a1cf5518ccde47fbcb5e6f8db0736cc1f8e886ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 19:48:33 +0000
Subject: [PATCH 111/127] fix: the gdb server ignored the address of a step

---
 mpact/sim/util/gdbserver/gdbserver.cc | 26 +++++++++++++++++++++++---
 mpact/sim/util/gdbserver/gdbserver.h  |  2 +-
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index ea8d7b8..7920f8b 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -548,9 +548,15 @@ void GdbServer::ParseGdbCommand(std::string_view command) {
       command.remove_prefix(1);
       return GdbSet(command);
     }
-    case 's':  // Step.
+    case 's': {  // Step.
       command.remove_prefix(1);
-      return GdbStep(GetThreadId('c', command));
+      size_t pos = command.find(";thread:");
+      if (pos == std::string_view::npos) {
+        return GdbStep(GetThreadId('c', ""), command);
+      }
+      std::string_view thread_str = command.substr(pos);
+      return GdbStep(GetThreadId('c', thread_str), command.substr(0, pos));
+    }
     case 'v':  // Verbose commands.
       if (absl::StartsWith(command, "vCont")) {
         command.remove_prefix(5);
@@ -1245,8 +1251,22 @@ void GdbServer::GdbSet(std::string_view command) {
   // TODO(torerik): Implement.
 }
 
-void GdbServer::GdbStep(int thread_id) {
+void GdbServer::GdbStep(int thread_id, std::string_view command) {
   int thread_index = thread_id - 1;
+  if (!command.empty()) {
+    uint64_t address;
+    bool success = absl::SimpleHexAtoi(command, &address);
+    if (!success) {
+      LOG(ERROR) << "Invalid address: " << command;
+      return SendError("invalid address");
+    }
+    auto status =
+        core_debug_interfaces_[thread_index]->WriteRegister("pc", address);
+    if (!status.ok()) {
+      LOG(ERROR) << "Failed to write register pc: " << status.message();
+      return SendError(status.message());
+    }
+  }
   auto result = core_debug_interfaces_[thread_index]->Step(1);
   if (!result.ok()) {
     SendError(result.status().message());
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index 283eeda..f109f01 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -148,7 +148,7 @@ class GdbServer {
   // Set gdbserver features.
   void GdbSet(std::string_view command);
   // Step the simulator.
-  void GdbStep(int thread_id);
+  void GdbStep(int thread_id, std::string_view command);
   void StepThread(int thread_id);
   // Add a breakpoint to the simulator.
   void GdbAddBreakpoint(char type, std::string_view address_str,
-- 
2.43.0


From cb0ec0966584b5320beeb2567cac02367372eb5c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 112/127] fix: errors in the second pass of the assembler were
 ignored

---
 mpact/sim/util/asm/simple_assembler.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 9419fc4..088527b 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -740,11 +740,11 @@ absl::Status SimpleAssembler::ParsePassTwo(
     auto relo_size = relo_vector.size();
     auto address = section_address_map_[section];
     if (line[0] == '.') {
-      auto status = ParseAsmDirective(line, address, symbol_resolver,
-                                      byte_vector, relo_vector);
+      status = ParseAsmDirective(line, address, symbol_resolver, byte_vector,
+                                 relo_vector);
     } else {
-      auto status = ParseAsmStatement(line, address, symbol_resolver,
-                                      byte_vector, relo_vector);
+      status = ParseAsmStatement(line, address, symbol_resolver, byte_vector,
+                                 relo_vector);
     }
     if (!status.ok()) return status;
     // Update section information in the relocation vector.
-- 
2.43.0


From 51493abd9a0189224e62d4800eed3eceeef84123 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 113/127] fix: the assembler made executables with undefined
 symbols

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 088527b..afc6e67 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -388,6 +388,7 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
 
   // Add undefined symbols to the symbol table.
   for (auto const& symbol : undefined_symbols_) {
+    if (symbol_indices_.contains(symbol)) continue;
     auto status = AddSymbol(symbol, 0, 0, ELFIO::STT_NOTYPE, 0, 0, nullptr);
     if (!status.ok()) {
       cleanup();
@@ -395,7 +396,6 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
           "Failed to add undefined symbol '", symbol, "': ", status.message()));
     }
   }
-  undefined_symbols_.clear();
 
   if (bss_section_ != nullptr) {
     bss_section_->set_size(section_address_map_[bss_section_]);
-- 
2.43.0


From 57653631fcffa47c3065ee0daf9bbe69436a028c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 114/127] fix: .align and .space misplaced what followed them
 in the section

---
 mpact/sim/util/asm/simple_assembler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index afc6e67..bb5e018 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -811,6 +811,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     }
     uint64_t address = section_address_map_[section];
     size = ((address + align - 1) & ~(align - 1)) - address;
+    if (section != bss_section_) byte_values.resize(size, 0);
   } else if (match == "bss") {
     // .bss
     SetBssSection(".bss");
@@ -873,6 +874,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     auto res = SimpleTextToInt<uint64_t>(remainder);
     if (!res.ok()) return res.status();
     size = res.value();
+    if (section != bss_section_) byte_values.resize(size, 0);
   } else if (match == "string") {
     // .string
     auto res = GetValues<std::string>(remainder);
-- 
2.43.0


From becdea6fe21f309cca226408a9dd50e03d0ec6f5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 115/127] fix: .align 0 moved the address back to the start of
 the section

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index bb5e018..ebda48a 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -805,7 +805,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     if (!res.ok()) return res.status();
     uint64_t align = res.value();
     // Verify that the alignment is a power of two.
-    if ((align & (align - 1)) != 0) {
+    if ((align == 0) || ((align & (align - 1)) != 0)) {
       return absl::InvalidArgumentError(
           absl::StrCat("Invalid alignment: '", directive, "'"));
     }
-- 
2.43.0


From 7966707f36b024b46574298b245050aaa8019ed0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 116/127] fix: sections were not aligned as their .align
 directives need

---
 mpact/sim/util/asm/simple_assembler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index ebda48a..df32441 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -809,6 +809,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
       return absl::InvalidArgumentError(
           absl::StrCat("Invalid alignment: '", directive, "'"));
     }
+    if (align > section->get_addr_align()) section->set_addr_align(align);
     uint64_t address = section_address_map_[section];
     size = ((address + align - 1) & ~(align - 1)) - address;
     if (section != bss_section_) byte_values.resize(size, 0);
-- 
2.43.0


From 1136effac079fc22eb74c3a12b8b565274a65b8f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 117/127] fix: the assembler accepted statements outside of a
 section

---
 mpact/sim/util/asm/simple_assembler.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index df32441..739ed22 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -348,6 +348,12 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
       auto* section = current_section_;
       uint64_t address =
           (section == nullptr) ? 0 : section_address_map_[section];
+      if ((section == nullptr) &&
+          (statement.empty() ? !label.empty() : statement[0] != '.')) {
+        cleanup();
+        return absl::InvalidArgumentError(
+            absl::StrCat("No section for: '", line, "'"));
+      }
       if (!statement.empty()) {
         absl::Status status;
         // Pass the full line into the parse functions, they are responsible
@@ -928,7 +934,11 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     return absl::InvalidArgumentError(
         absl::StrCat("Unsupported directive: '", directive, "'"));
   }
-  if ((size > 0) && (section != nullptr)) {
+  if (size > 0) {
+    if (section == nullptr) {
+      return absl::InvalidArgumentError(
+          absl::StrCat("No section for directive: '", directive, "'"));
+    }
     if (!section_address_map_.contains(section)) {
       return absl::InternalError(
           absl::StrCat("No address for section '", section->get_name(), "'"));
-- 
2.43.0


From 7ab08a0b4a49a991e6630041cb71e2e19f5fcd16 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 118/127] fix: a label defined twice by directives was accepted

---
 mpact/sim/util/asm/simple_assembler.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 739ed22..714428c 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -955,6 +955,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     }
     auto status = AddSymbol(label, address, size, ELFIO::STT_NOTYPE,
                             ELFIO::STB_LOCAL, 0, section);
+    if (!status.ok()) return status;
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From be0918caa32f0cff9774228fd9141c3e307c6d4f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 119/127] fix: what followed a malformed item of a directive
 was dropped

---
 mpact/sim/util/asm/simple_assembler.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 714428c..3d5e5b7 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -184,6 +184,10 @@ absl::StatusOr<std::vector<T>> GetValues(
     T value = static_cast<T>(result.value());
     values.push_back(value);
   }
+  if (!remainder.empty()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Invalid value: '", remainder, "'"));
+  }
   return values;
 }
 
@@ -201,6 +205,10 @@ absl::StatusOr<std::vector<char>> GetValues<char>(absl::string_view remainder,
           absl::StrCat("Invalid character: '", match, "'"));
     values.push_back(expanded[0]);
   }
+  if (!remainder.empty()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Invalid character: '", remainder, "'"));
+  }
   return values;
 }
 
@@ -214,6 +222,10 @@ absl::StatusOr<std::vector<std::string>> GetValues<std::string>(
   while (RE2::Consume(&remainder, value_re, &match)) {
     values.push_back(ExpandEscapes(match));
   }
+  if (!remainder.empty()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Invalid string: '", remainder, "'"));
+  }
   return values;
 }
 
@@ -227,6 +239,10 @@ absl::StatusOr<std::vector<std::string>> GetLabels(
   while (RE2::Consume(&remainder, label_re, &match)) {
     values.push_back(match);
   }
+  if (!remainder.empty()) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Invalid label: '", remainder, "'"));
+  }
   return values;
 }
 
-- 
2.43.0


From 33308238b0e8ed932a38c8cbc47800fc8a8a81a6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 120/127] fix: 8 and 16 bit values out of range were truncated

---
 mpact/sim/util/asm/simple_assembler.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 3d5e5b7..729bcb6 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -181,6 +181,13 @@ absl::StatusOr<std::vector<T>> GetValues(
   while (RE2::Consume(&remainder, value_re, &match)) {
     auto result = SimpleTextToInt<typename AtoIType<T>::type>(match);
     if (!result.ok()) return result.status();
+    auto wide = static_cast<int64_t>(result.value());
+    if ((sizeof(T) < sizeof(int32_t)) &&
+        ((wide >> (8 * sizeof(T)) != 0) &&
+         (wide >> (8 * sizeof(T) - 1) != -1))) {
+      return absl::InvalidArgumentError(
+          absl::StrCat("Value out of range: ", match));
+    }
     T value = static_cast<T>(result.value());
     values.push_back(value);
   }
-- 
2.43.0


From 36fe8ac6414089f10d2582eaf970142192ed472a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 121/127] fix: strings with an escaped quote were dropped

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 729bcb6..e82a2c8 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -225,7 +225,7 @@ absl::StatusOr<std::vector<std::string>> GetValues<std::string>(
     absl::string_view remainder, ResolverInterface* resolver) {
   std::vector<std::string> values;
   std::string match;
-  static RE2 value_re("\\s*\"([^\"]*)\"\\s*(?:,|$)");
+  static RE2 value_re("\\s*\"((?:[^\"\\\\]|\\\\.)*)\"\\s*(?:,|$)");
   while (RE2::Consume(&remainder, value_re, &match)) {
     values.push_back(ExpandEscapes(match));
   }
-- 
2.43.0


From 67e86a8692b04c4c5d3b6ee66a028137d15152f6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 122/127] fix: the assembler took quoted comment characters for
 comments

---
 mpact/sim/util/asm/simple_assembler.cc | 43 +++++++++++++++++++++-----
 mpact/sim/util/asm/simple_assembler.h  |  3 +-
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index e82a2c8..14d9a90 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -29,6 +29,7 @@
 #include "absl/log/log.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/match.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
 #include "absl/types/span.h"
@@ -168,6 +169,39 @@ std::string ExpandEscapes(absl::string_view text) {
   return result;
 }
 
+// Remove the comment from the given line. The comment string does not start a
+// comment inside a string or a character. A '\' at the end of the line is kept
+// even if it is part of the comment.
+std::string StripComment(absl::string_view line, absl::string_view comment) {
+  size_t pos = 0;
+  while (pos < line.size()) {
+    auto rest = line.substr(pos);
+    if (!comment.empty() && absl::StartsWith(rest, comment)) {
+      return absl::StrCat(line.substr(0, pos), line.back() == '\\' ? "\\" : "");
+    }
+    if (rest[0] == '\'') {
+      // Skip a character ('c' or '\c').
+      size_t size = (rest.size() > 1) && (rest[1] == '\\') ? 4 : 3;
+      if ((rest.size() >= size) && (rest[size - 1] == '\'')) {
+        pos += size;
+        continue;
+      }
+    } else if (rest[0] == '"') {
+      // Skip a string.
+      size_t end = 1;
+      while ((end < rest.size()) && (rest[end] != '"')) {
+        end += rest[end] == '\\' ? 2 : 1;
+      }
+      if (end < rest.size()) {
+        pos += end + 1;
+        continue;
+      }
+    }
+    ++pos;
+  }
+  return std::string(line);
+}
+
 // This function is used to parse a list of values from the remainder of an
 // assembly directive. The values are separated by commas. The type T is the
 // type of the values, and must be an integer type or char. The resolver
@@ -275,7 +309,7 @@ SimpleAssembler::SimpleAssembler(absl::string_view comment, int elf_file_class,
                                  OpcodeAssemblerInterface* opcode_assembler_if)
     : elf_file_class_(elf_file_class),
       opcode_assembler_if_(opcode_assembler_if),
-      comment_re_(absl::StrCat("^(.*?)(?:", comment, ".*?)?(\\\\)?$")),
+      comment_(comment),
       asm_line_re_("^(?:(?:(\\S+)\\s*:)?|\\s)\\s*(.*)\\s*$"),
       directive_re_(
           "^\\.(align|bss|bytes|char|cstring|data|global|long|sect"
@@ -343,13 +377,8 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
       std::string tmp;
       if (!is.good() || is.eof()) break;
       getline(is, tmp);
-      std::string prefix;
-      std::string suffix;
       // Remove comments from the input line.
-      if (!RE2::FullMatch(tmp, comment_re_, &prefix, &suffix)) {
-        return absl::InternalError("Failed to parse comment");
-      }
-      tmp = absl::StrCat(prefix, suffix);
+      tmp = StripComment(tmp, comment_);
       int len = tmp.length();
       // If there is an escaped newline then append the line, up to the  '\',
       // and continue.
diff --git a/mpact/sim/util/asm/simple_assembler.h b/mpact/sim/util/asm/simple_assembler.h
index e2ed324..7374bc8 100644
--- a/mpact/sim/util/asm/simple_assembler.h
+++ b/mpact/sim/util/asm/simple_assembler.h
@@ -180,8 +180,9 @@ class SimpleAssembler {
   ELFIO::section* text_section_ = nullptr;
   ELFIO::section* data_section_ = nullptr;
   ELFIO::section* bss_section_ = nullptr;
+  // The string that starts a comment.
+  std::string comment_;
   // Regular expressions used to parse the assembly source.
-  RE2 comment_re_;
   RE2 asm_line_re_;
   RE2 directive_re_;
   // Set of symbol names declared as global.
-- 
2.43.0


From 71711b6b48af9c61605768efd7520baded71da51 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 123/127] fix: statements could not be continued on the next
 line

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 14d9a90..08667af 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -310,7 +310,7 @@ SimpleAssembler::SimpleAssembler(absl::string_view comment, int elf_file_class,
     : elf_file_class_(elf_file_class),
       opcode_assembler_if_(opcode_assembler_if),
       comment_(comment),
-      asm_line_re_("^(?:(?:(\\S+)\\s*:)?|\\s)\\s*(.*)\\s*$"),
+      asm_line_re_("^(?:(?:(\\S+)\\s*:)?|\\s)\\s*((?:.|\\n)*)\\s*$"),
       directive_re_(
           "^\\.(align|bss|bytes|char|cstring|data|global|long|sect"
           "|short|space|string|type|text|uchar|ulong|ushort|uword|word)(?:\\s+("
-- 
2.43.0


From fa9748be9a2173befd99b2cc6ccb28a021cb5466 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 124/127] fix: all relocation sections claimed to apply to
 .text

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 08667af..875c7c0 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -761,7 +761,7 @@ absl::Status SimpleAssembler::CreateRelocatable(
                                        ? sizeof(ELFIO::Elf64_Rela)
                                        : sizeof(ELFIO::Elf32_Rela));
       rela_section->set_link(symtab_->get_index());
-      rela_section->set_info(text_section_->get_index());
+      rela_section->set_info(section_index);
       rela_section->set_addr_align(8);
       // Process the relocation vector entries.
       absl::Status status;
-- 
2.43.0


From 7678deb1b499897caf26ab0ff1679ef851dfb32c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 125/127] fix: the assembler leaked its resolver when a
 statement was rejected

---
 mpact/sim/util/asm/simple_assembler.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 875c7c0..99ce911 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -417,7 +417,10 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
           status = ParseAsmStatement(line, address, zero_resolver, byte_vector,
                                      relo_vector);
         }
-        if (!status.ok()) return status;
+        if (!status.ok()) {
+          cleanup();
+          return status;
+        }
         // Save the statements for processing in pass two (labels are all
         // processed in pass one).
         lines_.push_back(statement);
@@ -430,7 +433,10 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
         }
         auto status = AddSymbolToCurrentSection(label, symbol_address, 0,
                                                 ELFIO::STT_NOTYPE, 0, 0);
-        if (!status.ok()) return status;
+        if (!status.ok()) {
+          cleanup();
+          return status;
+        }
       }
       continue;
     }
-- 
2.43.0


From a6c519bbe420cdf720c92dcedcb50753a44f4f3f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 126/127] fix: labels of directives ignored the data address
 unit

---
 mpact/sim/util/asm/simple_assembler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 99ce911..c581a9c 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -1011,6 +1011,9 @@ absl::Status SimpleAssembler::ParseAsmDirective(
       return absl::InvalidArgumentError(
           absl::StrCat("Label: '", label, "' defined outside of a section"));
     }
+    if ((section == data_section_) || (section == bss_section_)) {
+      address /= data_address_unit_;
+    }
     auto status = AddSymbol(label, address, size, ELFIO::STT_NOTYPE,
                             ELFIO::STB_LOCAL, 0, section);
     if (!status.ok()) return status;
-- 
2.43.0


From 12a16b3f9b001fe3e3cb1afc23379f39c170f1a4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 20:28:09 +0000
Subject: [PATCH 127/127] fix: the assembler reported success when it could not
 write the file

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index c581a9c..b031871 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -832,7 +832,7 @@ absl::Status SimpleAssembler::ParsePassTwo(
 
 // Top level function that writes the ELF file out to disk.
 absl::Status SimpleAssembler::Write(std::ostream& os) {
-  writer_.save(os);
+  if (!writer_.save(os)) return absl::InternalError("Failed to write file");
   return absl::OkStatus();
 }
 
-- 
2.43.0

