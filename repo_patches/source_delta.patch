From debec423a3bcdb654e3c2c6b66cc9365dc62ed60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:45 +0000
Subject: [PATCH 01/81] fix: parse numbers without integer overflow or lost
 decimals

ParseFloat kept the mantissa in an int (overflow for 10 or more digits) and
dropped decimals after the 7th, ParseInt/ParseUint overflowed silently.
---
 include/sol/pario/numeric_parser.h | 76 ++++++++++++++++++++----------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index 660860c..0635072 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -9,6 +9,7 @@
 #define SOL_PARIO_NUMERIC_PARSER_H__
 
 #include <cmath>
+#include <limits>
 
 namespace sol {
 namespace pario {
@@ -39,14 +40,15 @@ class SOL_EXPORTS NumericParser {
       s = -1;
       p++;
     }
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    // accumulate in a wide type, out-of-range values are parse errors
+    double acc = 0;
+    while (*p >= '0' && *p <= '9') acc = acc * 10 + (*p++ - '0');
 
     int num_dec = 0;
     if (*p == '.') {
       p++;
       while (*p >= '0' && *p <= '9') {
-        acc = acc * 10 + *p++ - '0';
+        acc = acc * 10 + (*p++ - '0');
         num_dec++;
       }
     }
@@ -54,15 +56,23 @@ class SOL_EXPORTS NumericParser {
     if (*p == 'e' || *p == 'E') {
       p++;
       if (*p == '+') p++;
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
+      while (*p >= '0' && *p <= '9') {
+        if (exp_acc < 10000) exp_acc = exp_acc * 10 + *p - '0';
+        p++;
+      }
     }
     if (exp_acc < num_dec)
       return 0;
     else if (exp_acc > 0)
-      acc *= (int)(powf(10.f, (float)(exp_acc - num_dec)));
+      acc *= pow(10., exp_acc - num_dec);
+
+    acc *= s;
+    if (!(acc >= (std::numeric_limits<int>::min)() &&
+          acc <= (std::numeric_limits<int>::max)()))
+      return 0;
 
     end = strip_line(p);
-    return s * acc;
+    return int(acc);
   }
 
   // The following function is a home made strtoi
@@ -71,14 +81,15 @@ class SOL_EXPORTS NumericParser {
     p = strip_line(p);
 
     if (*p == '\0') return 0;
-    unsigned int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    // accumulate in a wide type, out-of-range values are parse errors
+    double acc = 0;
+    while (*p >= '0' && *p <= '9') acc = acc * 10 + (*p++ - '0');
 
     int num_dec = 0;
     if (*p == '.') {
       p++;
       while (*p >= '0' && *p <= '9') {
-        acc = acc * 10 + *p++ - '0';
+        acc = acc * 10 + (*p++ - '0');
         num_dec++;
       }
     }
@@ -86,14 +97,20 @@ class SOL_EXPORTS NumericParser {
     if (*p == 'e' || *p == 'E') {
       p++;
       if (*p == '+') p++;
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
+      while (*p >= '0' && *p <= '9') {
+        if (exp_acc < 10000) exp_acc = exp_acc * 10 + *p - '0';
+        p++;
+      }
     }
     if (exp_acc < num_dec)
       return 0;
     else if (exp_acc > 0)
-      acc *= (unsigned int)(powf(10.f, (float)(exp_acc - num_dec)));
+      acc *= pow(10., exp_acc - num_dec);
+
+    if (!(acc <= (std::numeric_limits<unsigned int>::max)())) return 0;
+
     end = strip_line(p);
-    return acc;
+    return (unsigned int)(acc);
   }
 
   // The following function is a home made strtof. The
@@ -114,20 +131,26 @@ class SOL_EXPORTS NumericParser {
       p++;
     }
 
-    int acc = 0;
-    while (*p >= '0' && *p <= '9') acc = acc * 10 + *p++ - '0';
+    // accumulate in double, digits that double cannot hold only scale the result
+    double acc = 0;
+    int exp_acc = 0;
+    for (; *p >= '0' && *p <= '9'; ++p) {
+      if (acc < 1e17)
+        acc = acc * 10 + (*p - '0');
+      else
+        ++exp_acc;
+    }
 
-    int num_dec = 0;
     if (*p == '.') {
       p++;
-      while (*p >= '0' && *p <= '9' && num_dec != 7) {
-        acc = acc * 10 + *p++ - '0';
-        num_dec++;
+      for (; *p >= '0' && *p <= '9'; ++p) {
+        if (acc < 1e17) {
+          acc = acc * 10 + (*p - '0');
+          --exp_acc;
+        }
       }
-      while (*p >= '0' && *p <= '9') p++;
     }
 
-    int exp_acc = 0;
     if (*p == 'e' || *p == 'E') {
       p++;
       int exp_s = 1;
@@ -136,15 +159,18 @@ class SOL_EXPORTS NumericParser {
         exp_s = -1;
         p++;
       }
-      while (*p >= '0' && *p <= '9') exp_acc = exp_acc * 10 + *p++ - '0';
-      exp_acc *= exp_s;
+      int exp_val = 0;
+      while (*p >= '0' && *p <= '9') {
+        if (exp_val < 10000) exp_val = exp_val * 10 + *p - '0';
+        p++;
+      }
+      exp_acc += exp_s * exp_val;
     }
-    exp_acc -= num_dec;
     end = strip_line(p);
-    if (exp_acc == 0) {
+    if (exp_acc == 0 || acc == 0) {
       return float(s * acc);
     } else {
-      return s * acc * powf(10.f, (float)(exp_acc));
+      return float(s * acc * pow(10., exp_acc));
     }
   }
 
-- 
2.43.0


From 411dc2e91c0affc33a4583a9efe94ea8148c4da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:16 +0000
Subject: [PATCH 02/81] fix: svm writer printed indices above 2^31-1 as
 negative numbers

---
 src/sol/pario/svm_writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/pario/svm_writer.cc b/src/sol/pario/svm_writer.cc
index d32c06b..e62a7d6 100755
--- a/src/sol/pario/svm_writer.cc
+++ b/src/sol/pario/svm_writer.cc
@@ -17,7 +17,7 @@ int SVMWriter::Write(const DataPoint &data) {
   size_t feat_num = data.indexes().size();
   this->file_writer_.Printf("%d", data.label());
   for (size_t i = 0; i < feat_num; ++i) {
-    this->file_writer_.Printf(" %d:%g", data.index(i), data.feature(i));
+    this->file_writer_.Printf(" %u:%g", data.index(i), data.feature(i));
   }
   this->file_writer_.Printf("\n");
   return Status_OK;
-- 
2.43.0


From 9a8772ad18d229248d20a60c68aff7ada5fbe889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:09 +0000
Subject: [PATCH 03/81] fix: decode run length codes above 31 bits without
 overflowing int

---
 include/sol/pario/compress.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sol/pario/compress.h b/include/sol/pario/compress.h
index b014fd7..a339369 100755
--- a/include/sol/pario/compress.h
+++ b/include/sol/pario/compress.h
@@ -33,8 +33,8 @@ inline void run_len_encode(math::Vector<char>& codes, uint64_t i) {
 inline const char* run_len_decode(
     const char* p, uint64_t& i) {  // read an int 7 bits at a time.
   size_t count = 0;
-  while (*p & 128) i = i | ((*(p++) & 127) << 7 * count++);
-  i = i | (*(p++) << 7 * count);
+  while (*p & 128) i = i | (uint64_t(*(p++) & 127) << 7 * count++);
+  i = i | (uint64_t(*(p++)) << 7 * count);
   return p;
 }
 
-- 
2.43.0


From e7c4bcf36966130a9fd9113337e6337c278fd4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:22 +0000
Subject: [PATCH 04/81] fix: report a binary record cut short as an error, not
 as data or end of file

---
 src/sol/pario/binary_reader.cc | 2 +-
 src/sol/pario/file_reader.cc   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index 6c2dd7b..a73a814 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -32,7 +32,7 @@ int BinaryReader::Next(DataPoint& dst_data) {
   if (ret != Status_OK) {
     fprintf(stderr, "load feature number failed!\n");
     this->is_good_ = false;
-    return false;
+    return Status_Invalid_Format;
   }
   if (feat_num > 0) {
     size_t code_len = 0;
diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index 038cbb4..875d6eb 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -81,7 +81,7 @@ int FileReader::Read(char* dst, size_t length) {
   size_t read_len = fread(dst, 1, length, this->file_);
   if (read_len == length) {
     return Status_OK;
-  } else if (feof(this->file_)) {
+  } else if (read_len == 0 && feof(this->file_)) {
     return Status_EndOfFile;
   } else {
     cerr << "Error " << Status_IO_Error << ": only " << read_len
-- 
2.43.0


From e1f30df2b937928648884d5b33df06967de3082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:34 +0000
Subject: [PATCH 05/81] fix: bound memory and validate index codes when reading
 damaged binary records

---
 include/sol/pario/compress.h   | 20 ++++++++++++++++++++
 src/sol/pario/binary_reader.cc | 20 ++++++++++++++++----
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/include/sol/pario/compress.h b/include/sol/pario/compress.h
index a339369..3f1adc7 100755
--- a/include/sol/pario/compress.h
+++ b/include/sol/pario/compress.h
@@ -57,6 +57,26 @@ inline void comp_index(const math::Vector<T>& indexes,
   }
 }
 
+/**
+ * count_index : check the codes and count the indexes encoded in them
+ *
+ * @Param codes: input codes
+ *
+ * @Return number of encoded indexes, 0 if the codes are malformed
+ */
+inline size_t count_index(const math::Vector<char>& codes) {
+  size_t num = 0, len = 0;
+  for (const char* p = codes.begin(); p < codes.end(); ++p) {
+    // a code of a 64 bit integer takes at most 10 bytes
+    if (++len > 10) return 0;
+    if ((*p & 128) == 0) {
+      ++num;
+      len = 0;
+    }
+  }
+  return len == 0 ? num : 0;
+}
+
 /**
  * decomp_index : de-compress the codes to indexes
  *
diff --git a/src/sol/pario/binary_reader.cc b/src/sol/pario/binary_reader.cc
index a73a814..0eea0b7 100755
--- a/src/sol/pario/binary_reader.cc
+++ b/src/sol/pario/binary_reader.cc
@@ -8,6 +8,7 @@
 
 #include "sol/pario/binary_reader.h"
 
+#include <algorithm>
 #include <cstdlib>
 
 #include "sol/pario/compress.h"
@@ -41,10 +42,21 @@ int BinaryReader::Next(DataPoint& dst_data) {
       fprintf(stderr, "read coded index length failed!\n");
       return Status_Invalid_Format;
     }
-    this->comp_codes_.resize(code_len);
-    ret = this->file_reader_.Read(this->comp_codes_.begin(), code_len);
-    if (ret != Status_OK) {
-      fprintf(stderr, "read coded index failed!\n");
+    // read in chunks, so that a corrupted length cannot exhaust the memory
+    const size_t kChunkLen = 1 << 20;
+    this->comp_codes_.clear();
+    for (size_t read_len = 0; read_len < code_len;) {
+      size_t len = (std::min)(kChunkLen, code_len - read_len);
+      this->comp_codes_.resize(read_len + len);
+      ret = this->file_reader_.Read(this->comp_codes_.begin() + read_len, len);
+      if (ret != Status_OK) {
+        fprintf(stderr, "read coded index failed!\n");
+        return Status_Invalid_Format;
+      }
+      read_len += len;
+    }
+    if (count_index(this->comp_codes_) != feat_num) {
+      fprintf(stderr, "coded index number is not correct!\n");
       return Status_Invalid_Format;
     }
     dst_data.Resize(feat_num);
-- 
2.43.0


From ce303168378a5aec2d9d6eddb362fd67e8e1856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:46 +0000
Subject: [PATCH 06/81] fix: reject labels, indices and values without any
 digit

---
 include/sol/pario/numeric_parser.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/sol/pario/numeric_parser.h b/include/sol/pario/numeric_parser.h
index 0635072..b92ff91 100755
--- a/include/sol/pario/numeric_parser.h
+++ b/include/sol/pario/numeric_parser.h
@@ -25,6 +25,13 @@ class SOL_EXPORTS NumericParser {
     return p;
   }
 
+  // whether a number starts at p (after its sign): a digit, or a point and a
+  // digit
+  static inline bool is_number(const char* p) {
+    if (*p == '.') p++;
+    return *p >= '0' && *p <= '9';
+  }
+
   // The following function is a home made strtoi
   static inline int ParseInt(char* p, char*& end) {
     end = p;
@@ -40,6 +47,7 @@ class SOL_EXPORTS NumericParser {
       s = -1;
       p++;
     }
+    if (!is_number(p)) return 0;
     // accumulate in a wide type, out-of-range values are parse errors
     double acc = 0;
     while (*p >= '0' && *p <= '9') acc = acc * 10 + (*p++ - '0');
@@ -80,7 +88,7 @@ class SOL_EXPORTS NumericParser {
     end = p;
     p = strip_line(p);
 
-    if (*p == '\0') return 0;
+    if (!is_number(p)) return 0;
     // accumulate in a wide type, out-of-range values are parse errors
     double acc = 0;
     while (*p >= '0' && *p <= '9') acc = acc * 10 + (*p++ - '0');
@@ -130,6 +138,7 @@ class SOL_EXPORTS NumericParser {
       s = -1;
       p++;
     }
+    if (!is_number(p)) return 0;
 
     // accumulate in double, digits that double cannot hold only scale the result
     double acc = 0;
-- 
2.43.0


From 9e881cb23817b8a57a892c943fc08f7db5767dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:21 +0000
Subject: [PATCH 07/81] fix: lines with NUL bytes doubled the read buffer until
 it overflowed

---
 src/sol/pario/file_reader.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sol/pario/file_reader.cc b/src/sol/pario/file_reader.cc
index 875d6eb..61957aa 100755
--- a/src/sol/pario/file_reader.cc
+++ b/src/sol/pario/file_reader.cc
@@ -8,6 +8,7 @@
 
 #include "sol/pario/file_reader.h"
 
+#include <climits>
 #include <cstring>
 #include <cstdlib>
 #include <stdexcept>
@@ -106,9 +107,19 @@ int FileReader::ReadLine(char*& dst, int& dst_len) {
     }
   }
   while (strrchr(dst, '\n') == nullptr) {
+    len = int(strlen(dst));
+    if (len + 1 < dst_len) {
+      // the buffer is not full: either the last line of the file, or a '\0'
+      if (feof(this->file_)) break;
+      fprintf(stderr, "Error %d: line contains '\\0'\n", Status_Invalid_Format);
+      return Status_Invalid_Format;
+    }
+    if (dst_len > INT_MAX / 2) {
+      fprintf(stderr, "Error %d: line is too long\n", Status_Invalid_Format);
+      return Status_Invalid_Format;
+    }
     dst_len *= 2;
     dst = (char*)realloc(dst, dst_len);
-    len = int(strlen(dst));
     if (fgets(dst + len, dst_len - len, this->file_) == nullptr) break;
   }
   return Status_OK;
-- 
2.43.0


From 7d66a4d5bce19d3b93e9b6f38fa51b4d7f3d7998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:07 +0000
Subject: [PATCH 08/81] fix: forced list dequeue read an empty queue after
 losing the race for its wake-up

---
 include/sol/util/block_queue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 8940a34..0ed4537 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -149,7 +149,10 @@ class BlockQueue {
       if (this->elem_num_ == 0) {
         if (force == true && i > 0 && elem_list[i - 1] != nullptr) {
           this->nonfull_.notify_all();
-          this->nonempty_.wait();
+          // another thread may take the elements before this one wakes up
+          while (this->elem_num_ == 0) {
+            this->nonempty_.wait();
+          }
         } else {
           break;
         }
-- 
2.43.0


From f73c8ca1175a6fe3500d92fde4fec96e9631caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:33 +0000
Subject: [PATCH 09/81] fix: destroying a data iterator could block forever
 when a reader emptied the factory first

---
 include/sol/util/block_queue.h | 18 ++++++++++++++++++
 src/sol/pario/data_iter.cc     |  5 ++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/sol/util/block_queue.h b/include/sol/util/block_queue.h
index 0ed4537..d76379a 100644
--- a/include/sol/util/block_queue.h
+++ b/include/sol/util/block_queue.h
@@ -130,6 +130,24 @@ class BlockQueue {
     return el;
   }
 
+  /// \brief  Dequeue an element if there is one, never blocks.
+  ///
+  /// \param elem storage to save the element
+  ///
+  /// \return true if an element is dequeued
+  bool TryDequeue(T& elem) {
+    this->lock_.lock();
+    bool has_elem = this->elem_num_ > 0;
+    if (has_elem) {
+      elem = this->elems_[this->head_];
+      this->head_ = (this->head_ + 1) % this->queue_size_;
+      --this->elem_num_;
+      this->nonfull_.notify_all();
+    }
+    this->lock_.unlock();
+    return has_elem;
+  }
+
   /// \brief  dequeeu a list of elements
   ///
   /// \param elem_list storage to save the elements
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index f80b73d..67826ca 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -27,9 +27,8 @@ DataIter::DataIter(int batch_size, int batch_num)
 
 DataIter::~DataIter() {
   MiniBatch* mb = nullptr;
-  // clear mini_batch_factory_
-  while (this->mini_batch_factory_.size() > 0) {
-    mb = this->mini_batch_factory_.Dequeue();
+  // clear mini_batch_factory_, the running reader may take elements meanwhile
+  while (this->mini_batch_factory_.TryDequeue(mb)) {
     DeletePointer(mb);
   }
 
-- 
2.43.0


From 834c195d01dcd52410db0de61266b8ccfd53c9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:01 +0000
Subject: [PATCH 10/81] fix: sol_split_data crashed when no destination type is
 given

---
 src/sol/c_api.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index 65ace7c..b829cc7 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -189,5 +189,6 @@ int sol_shuffle_data(const char* src_path, const char* src_type,
 int sol_split_data(const char* src_path, const char* src_type, int fold,
                    const char* output_prefix, const char* dst_type,
                    bool shuffle) {
-  return split(src_path, src_type, fold, output_prefix, dst_type, shuffle);
+  return split(src_path, src_type, fold, output_prefix,
+               dst_type == NULL ? src_type : dst_type, shuffle);
 }
-- 
2.43.0


From 450cb02a509767aaf32a0d71e863ac70f7fae9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:01 +0000
Subject: [PATCH 11/81] fix: analysis of data without features reported a
 dimension of 2^64-1

---
 src/sol/tools.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index bc24e56..06e3ea0 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -86,7 +86,7 @@ int analyze(const string& src_path, const string& src_type,
   }
   fw.Printf("data number  : %lu\n", data_num);
   fw.Printf("feat number  : %lu\n", feat_num);
-  fw.Printf("dimension    : %lu\n", feat_dim - 1);
+  fw.Printf("dimension    : %lu\n", feat_dim > 0 ? feat_dim - 1 : 0);
   fw.Printf("nonzero feat : %lu\n", valid_dim);
   fw.Printf("class num    : %lu\n", map_class_sample_num.size());
   if (feat_dim > 0) {
-- 
2.43.0


From ee141a2e28d94ecbdfb19ad84dd3de42ca78b241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:03 +0000
Subject: [PATCH 12/81] fix: uniform hinge loss gradient returned loss 0
 because of a shadowed variable

---
 src/sol/loss/hinge_loss.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sol/loss/hinge_loss.cc b/src/sol/loss/hinge_loss.cc
index da8e1c4..f19c3d8 100644
--- a/src/sol/loss/hinge_loss.cc
+++ b/src/sol/loss/hinge_loss.cc
@@ -137,16 +137,16 @@ float UniformHingeLoss::gradient(const pario::DataPoint& dp, float* predict,
     gradient[label] = -1;
     this->margin_ =
         this->margin_handler_(dp, predict, predict_label, gradient, cls_num);
-    float loss = (std::max)(
-        0.0f, this->margin_ - predict[label] + false_predict * alpha);
+    loss = (std::max)(0.0f,
+                      this->margin_ - predict[label] + false_predict * alpha);
     if (loss <= 0) {
       for (int i = 0; i < cls_num; ++i) {
         gradient[i] = 0;
       }
     }
   } else {
-    float loss = (std::max)(
-        0.0f, this->margin_ - predict[label] + false_predict * alpha);
+    loss = (std::max)(0.0f,
+                      this->margin_ - predict[label] + false_predict * alpha);
     if (loss > 0) {
       for (int i = 0; i < cls_num; ++i) {
         if (predict[label] <= predict[i]) {
-- 
2.43.0


From f36d4121ceba762ee554a440e279d2a7a846e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:06 +0000
Subject: [PATCH 13/81] fix: uniform logistic loss was NaN when the label
 scores highest

---
 src/sol/loss/logistic_loss.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sol/loss/logistic_loss.cc b/src/sol/loss/logistic_loss.cc
index f5dacca..3ed8546 100644
--- a/src/sol/loss/logistic_loss.cc
+++ b/src/sol/loss/logistic_loss.cc
@@ -107,6 +107,8 @@ float UniformLogisticLoss::loss(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  // no class scores as high as the label: nothing to average
+  if (false_num < 0.5f) return 0;
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
@@ -132,6 +134,11 @@ float UniformLogisticLoss::gradient(const pario::DataPoint& dp, float* predict,
   }
   false_num -= 1;
   false_predict -= predict[label];
+  // no class scores as high as the label: nothing to average
+  if (false_num < 0.5f) {
+    for (int i = 0; i < cls_num; ++i) gradient[i] = 0;
+    return 0;
+  }
 
   float z = false_predict / false_num - predict[label];
   if (z > 100.f) {
-- 
2.43.0


From a7b5a63c957c94182c4ef659fde6841bed21ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:10 +0000
Subject: [PATCH 14/81] fix: initialising a heap kept the first K elements
 instead of the top K

---
 include/sol/util/heap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sol/util/heap.h b/include/sol/util/heap.h
index cdc7e57..0091f51 100644
--- a/include/sol/util/heap.h
+++ b/include/sol/util/heap.h
@@ -114,6 +114,8 @@ void Heap<comparator>::Init(index_t N, index_t K, const real_t* values) {
 
   this->values_ = values;
   this->BuildHeap();
+  // the first K elements are not necessarily the top K ones
+  for (index_t i = K; i < N; ++i) this->UpdateHeap(i);
 }
 
 template <typename comparator>
-- 
2.43.0


From b5d2822e4ddda0038baf9efe6c5bc5695e3127f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:32 +0000
Subject: [PATCH 15/81] fix: PA turned the bias into NaN on an instance without
 non-zero features

---
 src/sol/model/olm/pa.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/olm/pa.cc b/src/sol/model/olm/pa.cc
index 4df3a33..4039ead 100644
--- a/src/sol/model/olm/pa.cc
+++ b/src/sol/model/olm/pa.cc
@@ -19,7 +19,9 @@ PA::PA(int class_num) : OnlineLinearModel(class_num) {
 }
 void PA::Update(const pario::DataPoint& dp, const float*, float loss) {
   const auto& x = dp.data();
-  this->eta_ = loss / (this->eta_coeff_ * Norm2(x));
+  real_t norm = this->eta_coeff_ * Norm2(x);
+  if (norm == 0) return;  // no step on an all-zero instance changes its score
+  this->eta_ = loss / norm;
 
   for (int c = 0; c < this->clf_num_; ++c) {
     if (g(c) == 0) continue;
-- 
2.43.0


From d8810ebdd4657721b7cf6f511d191873fbff56cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:48 +0000
Subject: [PATCH 16/81] fix: normalising an all-zero instance turned it into
 NaN

---
 src/sol/model/model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 82017b4..4942fee 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -302,11 +302,11 @@ void Model::PreProcess(DataPoint& x) {
     switch (this->norm_type_) {
       case op::OpType::kL1:
         norm = reduce<op::plus>(L1(x.data()));
-        x.data() /= norm;
+        if (norm > 0) x.data() /= norm;
         break;
       case op::OpType::kL2:
         norm = reduce<op::plus>(L2(x.data()));
-        x.data() /= sqrt(norm);
+        if (norm > 0) x.data() /= sqrt(norm);
       default:
         break;
     }
-- 
2.43.0


From 266483e13bbe708f14d2c27d39ddf1b25155da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:29 +0000
Subject: [PATCH 17/81] fix: ada-rda learners did not learn the bias during
 training

---
 src/sol/model/olm/ada_rda.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index fe07d66..6be84c9 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -61,7 +61,7 @@ void AdaRDA::Update(const pario::DataPoint& dp, const float*, float loss) {
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 }
 
@@ -254,7 +254,7 @@ void AdaRDA_OFS::Update(const pario::DataPoint& dp, const float* predict,
 
     w(c) = -eta_ * ut_[c].slice(x) / H_[c];
     // update bias
-    w(c)[0] *= bias_eta0_;
+    w(c)[0] = -bias_eta() * ut_[c][0] / H_[c][0];
   }
 
   //truncate weights
-- 
2.43.0


From c3223ef8cf3157eaee3019bd94047cabb39e63a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:32 +0000
Subject: [PATCH 18/81] fix: rda-l1 scored its first example as NaN and skipped
 it

---
 src/sol/model/olm/rda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index e5e9a7a..cb18e41 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -108,7 +108,7 @@ RDA_L1::RDA_L1(int class_num) : RDA(class_num) { this->regularizer_ = &l1_; }
 
 label_t RDA_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
-  real_t t = real_t(cur_iter_num_ - 1.f);
+  real_t t = real_t(cur_iter_num_ - 1 + 1e-20);
   real_t trunc_thresh = l1_.lambda() * t;
   eta_ = 1.f / (t * sigma_);
   for (int c = 0; c < this->clf_num_; ++c) {
-- 
2.43.0


From 5ba8895224c30a9de7f182c6c77c40857e76a32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:53 +0000
Subject: [PATCH 19/81] fix: sop ignored the learned bias while training

---
 src/sol/model/olm/sop.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index d602163..0a68894 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -56,6 +56,8 @@ label_t SOP::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   for (int c = 0; c < this->clf_num_; ++c) {
     w(c) = v(c) / (a_ + X_ + L2(x));
+    // the expression above only touches the features of x
+    w(c)[0] = v(c)[0] / (a_ + X_[0]);
   }
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
-- 
2.43.0


From dd8f2b60cdf5715c2ed232ec9bf7e48b0107c6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:16 +0000
Subject: [PATCH 20/81] fix: eccw compared the margin with phi*v, not
 phi*sqrt(v), and could step backwards

---
 src/sol/model/olm/eccw.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 0e00119..e9a2ec2 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -78,13 +78,13 @@ void ECCW::BeginTrain() {
       *vt += expr::dotmul(sigmas[c], L2(x)) * gc2;
       if (bias_eta != 0) *vt += sigmas[c][0] * gc2;
     }
-    return phi * *vt;
+    return phi * sqrtf(*vt);
   });
 }
 
 void ECCW::Update(const pario::DataPoint& dp, const float*, float loss) {
   const auto& x = dp.data();
-  float mi = phi_ * vi_ - loss;
+  float mi = phi_ * sqrtf(vi_) - loss;
   float tmp = mi * phi_ * phi_;
   float alpha_i =
       (-mi * psi_ + sqrtf(tmp * tmp * 0.25f + vi_ * phi_ * phi_ * xi_)) /
-- 
2.43.0


From eecacc2976b593612017891c07e73bd013801a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:20 +0000
Subject: [PATCH 21/81] fix: eccw shrank the variances by alpha*phi*sqrt(u)
 instead of alpha*phi/sqrt(u)

---
 src/sol/model/olm/eccw.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index e9a2ec2..2e2cf52 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -89,14 +89,13 @@ void ECCW::Update(const pario::DataPoint& dp, const float*, float loss) {
   float alpha_i =
       (-mi * psi_ + sqrtf(tmp * tmp * 0.25f + vi_ * phi_ * phi_ * xi_)) /
       (vi_ * xi_);
-  float ui =
-      0.5f * (-alpha_i * vi_ * phi_ +
-              sqrtf(alpha_i * alpha_i * vi_ * vi_ * phi_ * phi_ + 4.f * vi_));
-  ui *= ui;
-  // float beta_i = alpha_i * phi_ / (sqrtf(ui) + vi_ * alpha_i * phi_);
+  // square root of u, written without cancellation
+  float tmp_i = alpha_i * vi_ * phi_;
+  float sqrt_ui = 2.f * vi_ / (tmp_i + sqrtf(tmp_i * tmp_i + 4.f * vi_));
+  // float beta_i = alpha_i * phi_ / (sqrt_ui + vi_ * alpha_i * phi_);
 
   this->eta_ = alpha_i;
-  tmp = alpha_i * phi_ * sqrtf(ui);
+  tmp = alpha_i * phi_ / sqrt_ui;
   for (int c = 0; c < this->clf_num_; ++c) {
     if (g(c) == 0) continue;
     w(c) -= eta_ * g(c) * Sigmas_[c] * x;
-- 
2.43.0


From 00da023732a8b30159c626e6f7c6ba58973522c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:57 +0000
Subject: [PATCH 22/81] fix: stg truncated only the first class of multi-class
 models

---
 src/sol/model/olm/ogd.cc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 467a4df..27c4441 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -93,21 +93,22 @@ label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   size_t feat_num = x.size();
   int t = cur_iter_num_ - 1;
   float alpha = this->eta_ * l1_.lambda();
-  for (int c = 0; c < this->clf_num_; ++c) {
-    auto& w1 = w(c);
-    // trucate weights
-    for (size_t i = 0; i < feat_num; ++i) {
-      index_t idx = x.index(i);
-      int step = int(t - last_trunc_time_[idx]);
-      if (step < k_) continue;
-      step -= step % k_;
-      w1[idx] = truncate(w1[idx], step * alpha);
-      last_trunc_time_[idx] += step;
+  // truncate weights of all classes
+  for (size_t i = 0; i < feat_num; ++i) {
+    index_t idx = x.index(i);
+    int step = int(t - last_trunc_time_[idx]);
+    if (step < k_) continue;
+    step -= step % k_;
+    for (int c = 0; c < this->clf_num_; ++c) {
+      w(c)[idx] = truncate(w(c)[idx], step * alpha);
     }
-    // truncate bias
-    w1[0] = truncate(w1[0], l1_.lambda() * bias_eta());
-    last_trunc_time_[0] = real_t(t);
+    last_trunc_time_[idx] += step;
+  }
+  // truncate bias
+  for (int c = 0; c < this->clf_num_; ++c) {
+    w(c)[0] = truncate(w(c)[0], l1_.lambda() * bias_eta());
   }
+  last_trunc_time_[0] = real_t(t);
   return OnlineLinearModel::TrainPredict(dp, predicts);
 }
 
-- 
2.43.0


From b3366129a480b4ffd08ddbd7edf34272f3859077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:09 +0000
Subject: [PATCH 23/81] fix: lazy L1 learners truncated the bias twice, and all
 weights again when training went on after a test

---
 include/sol/model/regularizer.h |  1 +
 src/sol/model/olm/ada_fobos.cc  | 11 +++++++++--
 src/sol/model/olm/ogd.cc        | 18 +++++++++++++++---
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index fdc7282..a6108fd 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -75,6 +75,7 @@ class SOL_EXPORTS LazyOnlineL1Regularizer : public OnlineL1Regularizer {
   inline const math::Vector<real_t> &last_update_time() const {
     return this->last_update_time_;
   };
+  void set_last_update_time(real_t t) { this->last_update_time_ = t; }
   void set_initial_t(real_t t0) { this->initial_t_ = t0; }
 
  protected:
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 0775155..bac7619 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -106,7 +106,9 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
         expr::truncate(w(c).slice(x), (eta_ * l1_.lambda()) *
                                           (t - l1_.last_update_time()) / H_[c]);
     // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] =
+        expr::truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                    (t - l1_.last_update_time()[0]) / H_[c][0]);
   }
 
   return OnlineLinearModel::TrainPredict(dp, predicts);
@@ -115,12 +117,17 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 void AdaFOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
+    real_t bias = w(c)[0];
     // trucate weights
     w(c) = expr::truncate(
         w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()) / H_[c]);
     // truncate bias
-    w(c)[0] = expr::truncate(w(c)[0], bias_eta() * l1_.lambda() / H_[c][0]);
+    w(c)[0] =
+        expr::truncate(bias, bias_eta() * l1_.lambda() *
+                                 (t - l1_.last_update_time()[0]) / H_[c][0]);
   }
+  // training may go on: do not truncate for the same examples again
+  l1_.set_last_update_time(t);
   AdaFOBOS::EndTrain();
 }
 
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 27c4441..d42206a 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -106,7 +106,8 @@ label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   }
   // truncate bias
   for (int c = 0; c < this->clf_num_; ++c) {
-    w(c)[0] = truncate(w(c)[0], l1_.lambda() * bias_eta());
+    w(c)[0] = truncate(w(c)[0], l1_.lambda() * bias_eta() *
+                                    (real_t(t) - last_trunc_time_[0]));
   }
   last_trunc_time_[0] = real_t(t);
   return OnlineLinearModel::TrainPredict(dp, predicts);
@@ -115,9 +116,15 @@ label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 void STG::EndTrain() {
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
+    real_t bias = w(c)[0];
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - last_trunc_time_));
+    // truncate bias
+    w(c)[0] =
+        truncate(bias, bias_eta() * l1_.lambda() * (t - last_trunc_time_[0]));
   }
+  // training may go on: do not truncate for the same examples again
+  last_trunc_time_ = t;
   OGD::EndTrain();
 }
 
@@ -150,7 +157,8 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
     w(c) = truncate(w(c).slice(x),
                     (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
     // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda() *
+                                    (t - l1_.last_update_time()[0]));
   }
 
   return OnlineLinearModel::TrainPredict(dp, predicts);
@@ -159,11 +167,15 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 void FOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
   for (int c = 0; c < this->clf_num_; ++c) {
+    real_t bias = w(c)[0];
     // trucate weights
     w(c) = truncate(w(c), (eta_ * l1_.lambda()) * (t - l1_.last_update_time()));
     // truncate bias
-    w(c)[0] = truncate(w(c)[0], bias_eta() * l1_.lambda());
+    w(c)[0] = truncate(bias, bias_eta() * l1_.lambda() *
+                                 (t - l1_.last_update_time()[0]));
   }
+  // training may go on: do not truncate for the same examples again
+  l1_.set_last_update_time(t);
   OGD::EndTrain();
 }
 
-- 
2.43.0


From 6b89fdee5898120fd6ff09d29d6420c5a8cfe5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:03 +0000
Subject: [PATCH 24/81] fix: finishing a loaded lazy L1 model threw when
 features were not seen again

---
 include/sol/model/regularizer.h | 1 +
 src/sol/model/olm/ada_fobos.cc  | 2 ++
 src/sol/model/olm/ogd.cc        | 2 ++
 src/sol/model/regularizer.cc    | 9 ++++++---
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index a6108fd..429cb1e 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -75,6 +75,7 @@ class SOL_EXPORTS LazyOnlineL1Regularizer : public OnlineL1Regularizer {
   inline const math::Vector<real_t> &last_update_time() const {
     return this->last_update_time_;
   };
+  void update_dim(index_t dim);
   void set_last_update_time(real_t t) { this->last_update_time_ = t; }
   void set_initial_t(real_t t0) { this->initial_t_ = t0; }
 
diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index bac7619..15c5db6 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -116,6 +116,8 @@ label_t AdaFOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 
 void AdaFOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  // a loaded model can have more features than were seen since
+  l1_.update_dim(this->dim_);
   for (int c = 0; c < this->clf_num_; ++c) {
     real_t bias = w(c)[0];
     // trucate weights
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index d42206a..2e15482 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -166,6 +166,8 @@ label_t FOBOS_L1::TrainPredict(const pario::DataPoint& dp, float* predicts) {
 
 void FOBOS_L1::EndTrain() {
   real_t t = real_t(cur_iter_num_);
+  // a loaded model can have more features than were seen since
+  l1_.update_dim(this->dim_);
   for (int c = 0; c < this->clf_num_; ++c) {
     real_t bias = w(c)[0];
     // trucate weights
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index c7fe94d..8aa7235 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -65,10 +65,13 @@ int LazyOnlineL1Regularizer::SetParameter(const std::string &name,
 }
 
 void LazyOnlineL1Regularizer::BeginIterate(const pario::DataPoint &dp) {
-  // update dim
+  this->update_dim(dp.dim());
+}
+
+void LazyOnlineL1Regularizer::update_dim(index_t dim) {
   size_t d = this->last_update_time_.dim();
-  if (dp.dim() > d) {
-    this->last_update_time_.resize(dp.dim());
+  if (dim > d) {
+    this->last_update_time_.resize(dim);
     real_t t0 = this->initial_t_;
     this->last_update_time_.slice_op([t0](float &val) { val = t0; }, d);
   }
-- 
2.43.0


From 1fafa96131e776a22c2f106e31c01a7e132b148b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:15 +0000
Subject: [PATCH 25/81] fix: fofs selected features by weight magnitudes from
 before decay and projection

---
 src/sol/model/olm/fofs.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index ba2d2b6..688a0c2 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -72,10 +72,10 @@ void FOFS::Update(const pario::DataPoint& dp, const float* predict,
 
   if (this->B_ > 0) {
     math::Vector<real_t>& abs_w = this->abs_weights_;
-    // update abosulte weights
-    abs_w = L1(w(0).slice(dp.data()));
+    // update abosulte weights, the decay and the projection change all of them
+    abs_w = L1(w(0));
     for (int c = 1; c < this->clf_num_; ++c) {
-      abs_w += L1(w(c).slice(dp.data()));
+      abs_w += L1(w(c));
     }
 
     // update heap
-- 
2.43.0


From e5c08c02d2fe1513a40cea27e3c8ef78fe2197fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:10 +0000
Subject: [PATCH 26/81] fix: changing the budget of a feature-selecting learner
 after training overran its heap

---
 src/sol/model/olm/ada_fobos.cc | 3 ++-
 src/sol/model/olm/ada_rda.cc   | 3 ++-
 src/sol/model/olm/arow.cc      | 3 ++-
 src/sol/model/olm/fofs.cc      | 3 +++
 src/sol/model/olm/ogd.cc       | 3 ++-
 5 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 15c5db6..6814c3e 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -151,8 +151,9 @@ AdaFOBOS_OFS::~AdaFOBOS_OFS() {
 }
 
 void AdaFOBOS_OFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     AdaFOBOS::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     AdaFOBOS::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 6be84c9..3b6fef7 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -168,8 +168,9 @@ AdaRDA_OFS::~AdaRDA_OFS() {
 }
 
 void AdaRDA_OFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     AdaRDA::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     AdaRDA::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 43a69a3..c606845 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -127,8 +127,9 @@ SOFS::~SOFS() {
 }
 
 void SOFS::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     AROW::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     AROW::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 688a0c2..a3b7715 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -20,12 +20,15 @@ void FOFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "eta") {
     this->eta_ = stof(value);
     Check(eta_ >= 0);
+    this->require_reinit_ = true;
   } else if (name == "lambda") {
     this->lambda_ = stof(value);
     Check(this->lambda_ >= 0);
+    this->require_reinit_ = true;
   } else if (name == "B") {
     this->B_ = static_cast<index_t>(stoi(value));
     Check(this->B_ > 0);
+    this->require_reinit_ = true;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 2e15482..229bb8f 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -189,8 +189,9 @@ PET::PET(int class_num) : OGD(class_num) { this->regularizer_ = &(this->l0_); }
 PET::~PET() {}
 
 void PET::SetParameter(const std::string& name, const std::string& value) {
-  if (name == "B") {
+  if (name == "B" || name == "lambda") {
     OGD::SetParameter("lambda", value);
+    this->require_reinit_ = true;
   } else {
     OGD::SetParameter(name, value);
   }
-- 
2.43.0


From ddf799386f3700dcb0bbfecf1ca4a2f9d2ee8a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:11 +0000
Subject: [PATCH 27/81] fix: features dropped by a smaller budget kept their
 weights in sofs and adafobos-ofs

---
 src/sol/model/olm/ada_fobos.cc | 5 +++++
 src/sol/model/olm/arow.cc      | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 6814c3e..97c947e 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -176,6 +176,11 @@ void AdaFOBOS_OFS::BeginTrain() {
       }
     }
     this->min_heap_.Init(this->dim_ - 1, B, this->H_sum_->data() + 1);
+    // features that are not selected any more are dropped
+    for (index_t i = 1; i < this->dim_; ++i) {
+      if (this->min_heap_.isTopK(i - 1)) continue;
+      for (int c = 0; c < this->clf_num_; ++c) w(c)[i] = 0;
+    }
   }
 }
 
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index c606845..6b19ebd 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -152,6 +152,11 @@ void SOFS::BeginTrain() {
       }
     }
     this->max_heap_.Init(this->dim_ - 1, B, this->Sigma_sum_->data() + 1);
+    // features that are not selected any more are dropped
+    for (index_t i = 1; i < this->dim_; ++i) {
+      if (this->max_heap_.isTopK(i - 1)) continue;
+      for (int c = 0; c < this->clf_num_; ++c) w(c)[i] = 0;
+    }
   }
 }
 
-- 
2.43.0


From 47d6c95e008ec874213e7945fd88c8a8f9c41852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:02 +0000
Subject: [PATCH 28/81] fix: a model saved right after training was saved with
 unfinished weights

---
 include/sol/model/model.h | 2 +-
 src/sol/model/model.cc    | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sol/model/model.h b/include/sol/model/model.h
index 6bd32cc..6475631 100644
--- a/include/sol/model/model.h
+++ b/include/sol/model/model.h
@@ -82,7 +82,7 @@ class SOL_EXPORTS Model {
   /// \param path path to save the model
   ///
   /// \return status code, 0 if saved successfully
-  int Save(const std::string &path) const;
+  int Save(const std::string &path);
 
   /// \brief  load model from file
   ///
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 4942fee..3b02b78 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -157,7 +157,9 @@ void Model::BeginTrain() {
   this->require_reinit_ = false;
 }
 
-int Model::Save(const string& path) const {
+int Model::Save(const string& path) {
+  if (this->model_updated_) this->EndTrain();
+
   ofstream out_file(path.c_str(), ios::out);
   if (!out_file) {
     cerr << "open file " << path << " failed\n";
-- 
2.43.0


From 6f9733d9f970b6b184b18e2dd0e4df0de46d14e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 29/81] fix: saved models lost weight digits, so that a loaded
 model could predict other labels

---
 src/sol/model/model.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 3b02b78..f981439 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <iostream>
 #include <iomanip>
+#include <limits>
 #include <string>
 
 #include "sol/util/util.h"
@@ -172,6 +173,8 @@ int Model::Save(const string& path) {
   writer.write(out_file, root);
 
   out_file << "model parameters:\n";
+  // enough digits to read the same values back
+  out_file << setprecision(std::numeric_limits<real_t>::max_digits10);
   this->GetModelParam(out_file);
 
   out_file.close();
-- 
2.43.0


From 571a6044aacab017f51115da6da336091634c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:07 +0000
Subject: [PATCH 30/81] fix: an active smoothness below 1 was neither reported
 nor saved

---
 src/sol/model/online_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 94384bf..19715bd 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -204,7 +204,7 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
   root["online"]["t"] = this->cur_iter_num_;
   root["online"]["dim"] = this->dim_;
   root["online"]["lazy_update"] = this->lazy_update_ ? "true" : "false";
-  if (this->active_smoothness_ >= 1) {
+  if (this->active_smoothness_ > 0) {
     root["online"]["active_smoothness"] = this->active_smoothness_;
   }
   if (this->cost_sensitive_learning_) {
-- 
2.43.0


From 92e5543f0082aaa8c09bb69d2fb8187a6f8e99d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:14 +0000
Subject: [PATCH 31/81] fix: the sparsity threshold of L1 learners was neither
 reported nor saved

---
 include/sol/model/regularizer.h | 2 ++
 src/sol/model/regularizer.cc    | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/include/sol/model/regularizer.h b/include/sol/model/regularizer.h
index 429cb1e..3d05d3e 100644
--- a/include/sol/model/regularizer.h
+++ b/include/sol/model/regularizer.h
@@ -58,6 +58,8 @@ class SOL_EXPORTS OnlineL1Regularizer : public OnlineRegularizer {
 
   virtual void FinalizeRegularization(math::Vector<real_t> &w);
 
+  virtual void GetRegularizerInfo(Json::Value &root) const;
+
  protected:
   real_t sparse_thresh_;
 };
diff --git a/src/sol/model/regularizer.cc b/src/sol/model/regularizer.cc
index 8aa7235..82be638 100644
--- a/src/sol/model/regularizer.cc
+++ b/src/sol/model/regularizer.cc
@@ -48,6 +48,11 @@ void OnlineL1Regularizer::FinalizeRegularization(math::Vector<real_t> &w) {
   });
 }
 
+void OnlineL1Regularizer::GetRegularizerInfo(Json::Value &root) const {
+  OnlineRegularizer::GetRegularizerInfo(root);
+  root["regularizer"]["sparse_thresh"] = this->sparse_thresh_;
+}
+
 LazyOnlineL1Regularizer::LazyOnlineL1Regularizer() : initial_t_(0) {
   this->last_update_time_.resize(1);
   this->last_update_time_ = 0;
-- 
2.43.0


From 6cf1289546511a3a766651dad076c3e26be63f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:17 +0000
Subject: [PATCH 32/81] fix: fofs without a budget could not be loaded after
 saving, a negative budget was accepted

---
 src/sol/model/olm/fofs.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index a3b7715..18cfa59 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -26,8 +26,9 @@ void FOFS::SetParameter(const std::string& name, const std::string& value) {
     Check(this->lambda_ >= 0);
     this->require_reinit_ = true;
   } else if (name == "B") {
-    this->B_ = static_cast<index_t>(stoi(value));
-    Check(this->B_ > 0);
+    int B = stoi(value);
+    Check(B >= 0);
+    this->B_ = static_cast<index_t>(B);
     this->require_reinit_ = true;
   } else {
     OnlineLinearModel::SetParameter(name, value);
-- 
2.43.0


From 00b7880193602636ce7760eef4e75fb188222039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:09 +0000
Subject: [PATCH 33/81] fix: stg shrank weights again for old examples when the
 loss was set between two trainings

---
 include/sol/model/olm/ogd.h |  1 -
 src/sol/model/olm/ogd.cc    | 13 ++++++-------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/sol/model/olm/ogd.h b/include/sol/model/olm/ogd.h
index e300bcd..98dd877 100644
--- a/include/sol/model/olm/ogd.h
+++ b/include/sol/model/olm/ogd.h
@@ -44,7 +44,6 @@ class STG : public OGD {
   STG(int class_num);
 
   virtual void SetParameter(const std::string& name, const std::string& value);
-  virtual void BeginTrain();
   virtual void EndTrain();
 
  protected:
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 229bb8f..fed2049 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -71,7 +71,11 @@ void OGD::set_power_t(float power_t) {
 
 RegisterModel(OGD, "ogd", "Online Gradient Descent");
 
-STG::STG(int class_num) : OGD(class_num), k_(1) { this->regularizer_ = &l1_; }
+STG::STG(int class_num) : OGD(class_num), k_(1) {
+  this->regularizer_ = &l1_;
+  this->last_trunc_time_.resize(this->dim_);
+  this->last_trunc_time_ = real_t(this->initial_t_);
+}
 
 void STG::SetParameter(const std::string& name, const std::string& value) {
   if (name == "k") {
@@ -79,15 +83,10 @@ void STG::SetParameter(const std::string& name, const std::string& value) {
     Check(k_ > 0);
   } else {
     OGD::SetParameter(name, value);
+    if (name == "t") this->last_trunc_time_ = real_t(this->initial_t_);
   }
 }
 
-void STG::BeginTrain() {
-  OGD::BeginTrain();
-  this->last_trunc_time_.resize(this->dim_);
-  this->last_trunc_time_ = real_t(this->initial_t_);
-}
-
 label_t STG::TrainPredict(const pario::DataPoint& dp, float* predicts) {
   const auto& x = dp.data();
   size_t feat_num = x.size();
-- 
2.43.0


From 6e54a7d0e2bd502582cc096e236774516b4debf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:12 +0000
Subject: [PATCH 34/81] fix: loaded stg and fobos-l1 models shrank weights with
 step size 1 until their first update

---
 include/sol/model/olm/ogd.h | 1 +
 src/sol/model/olm/ogd.cc    | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/sol/model/olm/ogd.h b/include/sol/model/olm/ogd.h
index 98dd877..1266436 100644
--- a/include/sol/model/olm/ogd.h
+++ b/include/sol/model/olm/ogd.h
@@ -20,6 +20,7 @@ class OGD : public OnlineLinearModel {
   OGD(int class_num);
 
   virtual void SetParameter(const std::string& name, const std::string& value);
+  virtual void BeginTrain();
 
  protected:
   virtual void Update(const pario::DataPoint& dp, const float* predict,
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index fed2049..d377a58 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -30,6 +30,15 @@ void OGD::SetParameter(const std::string& name, const std::string& value) {
     OnlineLinearModel::SetParameter(name, value);
   }
 }
+
+void OGD::BeginTrain() {
+  OnlineLinearModel::BeginTrain();
+  // a loaded model goes on with the step size it had reached
+  if (this->update_num_ == 0 && this->cur_iter_num_ > 0) {
+    eta_ = eta0_ / this->pow_(this->cur_iter_num_, this->power_t_);
+  }
+}
+
 void OGD::Update(const pario::DataPoint& dp, const float*, float) {
   const auto& x = dp.data();
   eta_ = eta0_ / this->pow_(this->cur_iter_num_, this->power_t_);
-- 
2.43.0


From 0b0d34948e7e721d23c7d211b5ed9c5bc9a8cb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:06 +0000
Subject: [PATCH 35/81] fix: loading a model file without a parameter section
 never ended

---
 src/sol/model/model.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index f981439..8b6e3d1 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -197,9 +197,12 @@ Model* Model::Load(const string& path) {
   }
   if (ret == Status_OK) {
     ostringstream model_info;
-    while (line != "model parameters:") {
-      getline(in_file, line);
-      model_info << line;
+    while (getline(in_file, line) && line != "model parameters:") {
+      model_info << line << "\n";
+    }
+    if (!in_file) {
+      cerr << "no model parameters found in " << path << "\n";
+      return nullptr;
     }
     Json::Value root;
     Json::Reader reader;
-- 
2.43.0


From 6ee83d97635e12ab57e5bd506ace19c18e289b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:10 +0000
Subject: [PATCH 36/81] fix: damaged model settings ended loading with an
 uncaught exception

---
 src/sol/model/model.cc | 51 +++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 8b6e3d1..97526ed 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -204,38 +204,39 @@ Model* Model::Load(const string& path) {
       cerr << "no model parameters found in " << path << "\n";
       return nullptr;
     }
-    Json::Value root;
-    Json::Reader reader;
-    if (reader.parse(model_info.str(), root) == false) {
-      cerr << "parse model file " << path << " failed\n";
-      ret = Status_Invalid_Format;
-    }
-
-    if (ret == Status_OK) {
-      string cls_name = root.get("model", "").asString();
-      int cls_num = root.get("cls_num", "0").asInt();
-      model = Model::Create(cls_name, cls_num);
-      if (model == nullptr) {
-        cerr << "create model failed: no model named " << cls_name << "\n";
+    // damaged files raise errors of many types: parser, type, range, ...
+    try {
+      Json::Value root;
+      Json::Reader reader;
+      if (reader.parse(model_info.str(), root) == false) {
+        cerr << "parse model file " << path << " failed\n";
         ret = Status_Invalid_Format;
-      } else {
-        try {
+      }
+
+      if (ret == Status_OK) {
+        string cls_name = root.get("model", "").asString();
+        int cls_num = root.get("cls_num", 0).asInt();
+        model = Model::Create(cls_name, cls_num);
+        if (model == nullptr) {
+          cerr << "create model failed: no model named " << cls_name << "\n";
+          ret = Status_Invalid_Format;
+        } else {
           ret = model->SetModelInfo(root);
         }
-        catch (invalid_argument& err) {
-          cerr << "set model parameter failed: " << err.what() << "\n";
-          ret = Status_Invalid_Argument;
-        }
       }
+
+      if (ret == Status_OK) {
+        ret = model->SetModelParam(in_file);
+      }
+    }
+    catch (exception& err) {
+      cerr << "load model failed: " << err.what() << "\n";
+      ret = Status_Invalid_Argument;
     }
   }
 
-  if (ret == Status_OK) {
-    ret = model->SetModelParam(in_file);
-  }
   if (ret != Status_OK) {
     DeletePointer(model);
-    DeletePointer(model);
   }
   in_file.close();
   return model;
@@ -257,8 +258,8 @@ void Model::GetModelInfo(Json::Value& root) const {
 int Model::SetModelInfo(const Json::Value& root) {
   try {
     Check(root.get("model", "").asString() == this->name());
-    Check(root.get("cls_num", "").asInt() == this->class_num());
-    Check(root.get("clf_num", "").asInt() == this->clf_num());
+    Check(root.get("cls_num", 0).asInt() == this->class_num());
+    Check(root.get("clf_num", 0).asInt() == this->clf_num());
   }
   catch (invalid_argument& err) {
     cerr << "set model info failed: " << err.what() << "\n";
-- 
2.43.0


From 85fe82e225045fbe8b94b7662965b60c7c488771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:12 +0000
Subject: [PATCH 37/81] fix: loading ignored settings the base model had
 refused

---
 src/sol/model/online_model.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index 19715bd..aac47a0 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -213,7 +213,8 @@ void OnlineModel::GetModelInfo(Json::Value& root) const {
 }
 
 int OnlineModel::SetModelInfo(const Json::Value& root) {
-  Model::SetModelInfo(root);
+  int ret = Model::SetModelInfo(root);
+  if (ret != Status_OK) return ret;
   const Json::Value& online_settings = root["online"];
   if (online_settings.isNull()) {
     cerr << "no online info found for online model\n";
-- 
2.43.0


From 2a4e1efbbe60f5bd8decdcb9b63a0ea790b12804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:22 +0000
Subject: [PATCH 38/81] fix: model files cut within their weights were loaded
 with made-up weights

---
 include/sol/math/matrix.h | 3 ++-
 src/sol/model/model.cc    | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 3f13899..4dc2412 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -211,7 +211,8 @@ std::istream& operator>>(std::istream& is, Matrix<DType>& mat) {
   for (size_t i = 0; i < s2d[0]; ++i) {
     is.ignore((std::numeric_limits<std::streamsize>::max)(), '[');
     for (size_t j = 0; j < s2d[1]; ++j) is >> *pdata++;
-    is.ignore((std::numeric_limits<std::streamsize>::max)(), ']');
+    char end = 0;
+    if (is >> end && end != ']') is.setstate(std::ios::failbit);
     is.ignore((std::numeric_limits<std::streamsize>::max)(), '\n');
   }
   return is;
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 97526ed..118647b 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -227,6 +227,10 @@ Model* Model::Load(const string& path) {
 
       if (ret == Status_OK) {
         ret = model->SetModelParam(in_file);
+        if (ret == Status_OK && in_file.fail()) {
+          cerr << "parameters in " << path << " are incomplete\n";
+          ret = Status_Invalid_Format;
+        }
       }
     }
     catch (exception& err) {
-- 
2.43.0


From 8f63b3d069c1b55ff3c4fcab18bde9e2e8159c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:17 +0000
Subject: [PATCH 39/81] fix: a damaged dimension or class number made loading a
 model allocate gigabytes

---
 src/sol/model/model.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 118647b..c0e77ac 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -204,6 +204,10 @@ Model* Model::Load(const string& path) {
       cerr << "no model parameters found in " << path << "\n";
       return nullptr;
     }
+    streampos param_pos = in_file.tellg();
+    in_file.seekg(0, ios::end);
+    double param_size = double(in_file.tellg() - param_pos);
+    in_file.seekg(param_pos);
     // damaged files raise errors of many types: parser, type, range, ...
     try {
       Json::Value root;
@@ -216,6 +220,13 @@ Model* Model::Load(const string& path) {
       if (ret == Status_OK) {
         string cls_name = root.get("model", "").asString();
         int cls_num = root.get("cls_num", 0).asInt();
+        // each weight takes two characters at least: do not allocate more
+        // than the file can hold
+        double clf_num = cls_num == 2 ? 1 : cls_num;
+        double dim = root["online"].get("dim", 1).asDouble();
+        if (dim < 1 || 2 * clf_num * dim > param_size) {
+          throw invalid_argument("dimension does not match the parameters");
+        }
         model = Model::Create(cls_name, cls_num);
         if (model == nullptr) {
           cerr << "create model failed: no model named " << cls_name << "\n";
-- 
2.43.0


From e1d0ff38be3f0705f6fd9ff837529e4a021b3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:29 +0000
Subject: [PATCH 40/81] fix: an empty or invalid list of pre-selected features
 crashed, and dropped the previous list

---
 src/sol/model/model.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index c0e77ac..a020aa0 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -349,16 +349,13 @@ void Model::FilterFeatures(DataPoint& x) {
 }
 
 int Model::LoadPreSelFeatures(const string& path) {
-  this->max_index_ = 0;
-  this->sel_feat_flags_.clear();
-
   ifstream in_file(path.c_str(), ios::in);
   if (!in_file) {
     cerr << "open file " << path << " failed\n!";
     return Status_IO_Error;
   }
 
-  index_t index = 0;
+  int index = 0;
   string line;
   vector<index_t> indexes;
   // load feature indexes
@@ -368,12 +365,21 @@ int Model::LoadPreSelFeatures(const string& path) {
     // skip comments
     if (*p == '#') continue;
 
-    index = (index_t)(stoi(line));
+    try {
+      index = stoi(line);
+    }
+    catch (logic_error&) {
+      index = 0;
+    }
     if (index <= 0) {
       cerr << "parse index " << line << " failed!\n";
       return Status_Invalid_Format;
     }
-    indexes.push_back(index);
+    indexes.push_back(index_t(index));
+  }
+  if (indexes.empty()) {
+    cerr << "no feature index found in " << path << "!\n";
+    return Status_Invalid_Format;
   }
 
   // find the max index
-- 
2.43.0


From 3fa4c9fb9a234387d55fff066f03777ba32887f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 41/81] fix: cw and eccw turned weights into NaN once the
 variances had underflowed

---
 src/sol/model/olm/cw.cc   | 7 ++++++-
 src/sol/model/olm/eccw.cc | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/cw.cc b/src/sol/model/olm/cw.cc
index a0bdbbd..22aa2a2 100644
--- a/src/sol/model/olm/cw.cc
+++ b/src/sol/model/olm/cw.cc
@@ -5,6 +5,9 @@
 **********************************************************************************/
 
 #include "sol/model/olm/cw.h"
+
+#include <algorithm>
+#include <limits>
 #include <cmath>
 
 using namespace std;
@@ -88,9 +91,11 @@ void CW::Update(const pario::DataPoint& dp, const float*, float loss) {
   float alpha_i =
       (-(1 + 2 * phi_ * Mi) + sqrtf(tmp * tmp - 8 * phi_ * (Mi - phi_ * Vi_))) /
       (4 * phi_ * Vi_);
+  // nothing to learn from an example without any variance left
+  if (!(alpha_i <= (std::numeric_limits<float>::max)())) return;
 
   this->eta_ = alpha_i;
-  tmp = 2 * alpha_i * phi_;
+  tmp = (std::min)(2 * alpha_i * phi_, (std::numeric_limits<float>::max)());
   for (int c = 0; c < this->clf_num_; ++c) {
     if (g(c) == 0) continue;
     w(c) -= eta_ * g(c) * Sigmas_[c] * x;
diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 2e2cf52..552fef3 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -5,6 +5,9 @@
 **********************************************************************************/
 
 #include "sol/model/olm/eccw.h"
+
+#include <algorithm>
+#include <limits>
 #include <cmath>
 
 using namespace std;
@@ -89,13 +92,15 @@ void ECCW::Update(const pario::DataPoint& dp, const float*, float loss) {
   float alpha_i =
       (-mi * psi_ + sqrtf(tmp * tmp * 0.25f + vi_ * phi_ * phi_ * xi_)) /
       (vi_ * xi_);
+  // nothing to learn from an example without any variance left
+  if (!(alpha_i <= (std::numeric_limits<float>::max)())) return;
   // square root of u, written without cancellation
   float tmp_i = alpha_i * vi_ * phi_;
   float sqrt_ui = 2.f * vi_ / (tmp_i + sqrtf(tmp_i * tmp_i + 4.f * vi_));
   // float beta_i = alpha_i * phi_ / (sqrt_ui + vi_ * alpha_i * phi_);
 
   this->eta_ = alpha_i;
-  tmp = alpha_i * phi_ / sqrt_ui;
+  tmp = (std::min)(alpha_i * phi_ / sqrt_ui, (std::numeric_limits<float>::max)());
   for (int c = 0; c < this->clf_num_; ++c) {
     if (g(c) == 0) continue;
     w(c) -= eta_ * g(c) * Sigmas_[c] * x;
-- 
2.43.0


From 29f40d345909949608febe383fbddabf1f02ac76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:38 +0000
Subject: [PATCH 42/81] fix: fobos-l1 and ada-fobos-l1 shrank weights twice for
 examples active learning did not query

---
 src/sol/model/online_linear_model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sol/model/online_linear_model.cc b/src/sol/model/online_linear_model.cc
index 7cb3a03..a8c9c08 100644
--- a/src/sol/model/online_linear_model.cc
+++ b/src/sol/model/online_linear_model.cc
@@ -69,6 +69,10 @@ label_t OnlineLinearModel::Iterate(const DataPoint& dp, float* predicts) {
     }
     float prob = active_smoothness_ / (active_smoothness_ + margin);
     if (prob < dis(gen)) {
+      // the weights have been regularized up to now
+      if (this->regularizer_ != nullptr) {
+        this->online_regularizer()->EndIterate(dp, this->cur_iter_num_);
+      }
       --this->cur_iter_num_;
       return label;
     }
-- 
2.43.0


From c610c674d5f2e457c2391961dddc055a4119b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:19 +0000
Subject: [PATCH 43/81] fix: a refused loss left the model without a loss, or
 with one the learner cannot use

---
 include/sol/model/model.h          |  2 ++
 include/sol/model/olm/perceptron.h |  2 --
 src/sol/model/model.cc             | 19 ++++++++++++++-----
 src/sol/model/olm/alma2.cc         |  4 +---
 src/sol/model/olm/arow.cc          |  6 +-----
 src/sol/model/olm/cw.cc            |  4 +---
 src/sol/model/olm/eccw.cc          |  4 +---
 src/sol/model/olm/perceptron.cc    | 13 +------------
 src/sol/model/olm/sop.cc           |  6 +-----
 9 files changed, 22 insertions(+), 38 deletions(-)

diff --git a/include/sol/model/model.h b/include/sol/model/model.h
index 6475631..0ba8002 100644
--- a/include/sol/model/model.h
+++ b/include/sol/model/model.h
@@ -174,6 +174,8 @@ class SOL_EXPORTS Model {
   int clf_num_;
   // loss function
   loss::Loss *loss_;
+  // type of loss functions the model requires, 0 for any
+  int loss_type_;
   // online,  batch, etc.
   std::string type_;
   // data normalization type
diff --git a/include/sol/model/olm/perceptron.h b/include/sol/model/olm/perceptron.h
index 3ba8fae..48bf93c 100644
--- a/include/sol/model/olm/perceptron.h
+++ b/include/sol/model/olm/perceptron.h
@@ -15,8 +15,6 @@ class Perceptron : public OnlineLinearModel {
  public:
   Perceptron(int class_num);
 
-  virtual void SetParameter(const std::string& name, const std::string& value);
-
  protected:
   virtual void Update(const pario::DataPoint& dp, const float* predict,
                       float loss);
diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index a020aa0..3c0c509 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -12,6 +12,7 @@
 #include <iostream>
 #include <iomanip>
 #include <limits>
+#include <memory>
 #include <string>
 
 #include "sol/util/util.h"
@@ -41,6 +42,7 @@ Model::Model(int class_num, const std::string& type)
     : class_num_(class_num),
       clf_num_(class_num == 2 ? 1 : class_num),
       loss_(nullptr),
+      loss_type_(0),
       type_(type),
       norm_type_(op::OpType::kNone),
       regularizer_(nullptr),
@@ -62,19 +64,26 @@ void Model::SetParameter(const std::string& name, const std::string& value) {
   } else if (name == "clf_num") {
     Check(stoi(value) == this->clf_num());
   } else if (name == "loss") {
-    DeletePointer(this->loss_);
-    this->loss_ = loss::Loss::Create(value);
-    Check(this->loss_ != nullptr);
+    // keep the current loss unless the new one is accepted
+    std::unique_ptr<loss::Loss> new_loss(loss::Loss::Create(value));
+    Check(new_loss != nullptr);
     if (this->clf_num_ == 1 &&
-        ((this->loss_->type() & loss::Loss::Type::BC) == 0)) {
+        ((new_loss->type() & loss::Loss::Type::BC) == 0)) {
       throw invalid_argument(
           "onlye binary loss function can be used with binary problems");
     } else if (this->clf_num_ != 1 &&
-               ((this->loss_->type() & loss::Loss::Type::MC) == 0)) {
+               ((new_loss->type() & loss::Loss::Type::MC) == 0)) {
       throw invalid_argument(
           "onlye multiclass loss function can be used with multiclass "
           "problems");
     }
+    if ((new_loss->type() & this->loss_type_) != this->loss_type_) {
+      throw invalid_argument(this->loss_type_ == loss::Loss::Type::BOOL
+                                 ? "only bool-based loss functions are allowed"
+                                 : "only hinge-based loss functions are allowed");
+    }
+    DeletePointer(this->loss_);
+    this->loss_ = new_loss.release();
     this->require_reinit_ = true;
   } else if (name == "norm") {
     int norm_val = -1;
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index 04d2587..23bfb55 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -21,6 +21,7 @@ ALMA2::ALMA2(int class_num)
   this->SetParameter("p", "2");
   this->SetParameter("alpha", "0.9");
   // loss
+  this->loss_type_ = loss::Loss::Type::HINGE;
   if (class_num == 2) {
     this->SetParameter("loss", "hinge");
   } else {
@@ -51,9 +52,6 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
     OnlineLinearModel::SetParameter(name, value);
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 6b19ebd..7381ab6 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -24,6 +24,7 @@ AROW::AROW(int class_num)
   }
 
   // loss
+  this->loss_type_ = loss::Loss::Type::HINGE;
   if (class_num == 2) {
     this->SetParameter("loss", "hinge");
   } else {
@@ -36,11 +37,6 @@ AROW::~AROW() { DeleteArray(this->Sigmas_); }
 void AROW::SetParameter(const std::string& name, const std::string& value) {
   if (name == "r") {
     this->r_ = stof(value);
-  } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/cw.cc b/src/sol/model/olm/cw.cc
index 22aa2a2..f8f8036 100644
--- a/src/sol/model/olm/cw.cc
+++ b/src/sol/model/olm/cw.cc
@@ -29,6 +29,7 @@ CW::CW(int class_num)
   }
 
   // loss
+  this->loss_type_ = loss::Loss::Type::HINGE;
   if (class_num == 2) {
     this->SetParameter("loss", "hinge");
   } else {
@@ -49,9 +50,6 @@ void CW::SetParameter(const std::string& name, const std::string& value) {
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 552fef3..1ee9b87 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -30,6 +30,7 @@ ECCW::ECCW(int class_num)
   this->set_phi(0.5244f);
 
   // loss
+  this->loss_type_ = loss::Loss::Type::HINGE;
   if (class_num == 2) {
     this->SetParameter("loss", "hinge");
   } else {
@@ -50,9 +51,6 @@ void ECCW::SetParameter(const std::string& name, const std::string& value) {
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0) {
-      throw invalid_argument("only hinge-based loss functions are allowed");
-    }
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "bias_eta") {
     OnlineLinearModel::SetParameter(name, value);
diff --git a/src/sol/model/olm/perceptron.cc b/src/sol/model/olm/perceptron.cc
index 2082897..4bd77cc 100644
--- a/src/sol/model/olm/perceptron.cc
+++ b/src/sol/model/olm/perceptron.cc
@@ -15,6 +15,7 @@ namespace sol {
 namespace model {
 Perceptron::Perceptron(int class_num) : OnlineLinearModel(class_num) {
   // loss
+  this->loss_type_ = loss::Loss::Type::BOOL;
   if (class_num == 2) {
     this->SetParameter("loss", "bool");
   } else {
@@ -22,18 +23,6 @@ Perceptron::Perceptron(int class_num) : OnlineLinearModel(class_num) {
   }
 }
 
-void Perceptron::SetParameter(const std::string& name,
-                              const std::string& value) {
-  if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
-  } else {
-    OnlineLinearModel::SetParameter(name, value);
-  }
-}
-
 void Perceptron::Update(const pario::DataPoint& dp, const float*, float) {
   const auto& x = dp.data();
   this->eta_ = 1.f;
diff --git a/src/sol/model/olm/sop.cc b/src/sol/model/olm/sop.cc
index 0a68894..2c84fa1 100644
--- a/src/sol/model/olm/sop.cc
+++ b/src/sol/model/olm/sop.cc
@@ -24,6 +24,7 @@ SOP::SOP(int class_num) : OnlineLinearModel(class_num), a_(1.f) {
   }
 
   // loss
+  this->loss_type_ = loss::Loss::Type::BOOL;
   if (class_num == 2) {
     this->SetParameter("loss", "bool");
   } else {
@@ -35,11 +36,6 @@ SOP::~SOP() { DeleteArray(this->v_); }
 void SOP::SetParameter(const std::string& name, const std::string& value) {
   if (name == "a") {
     this->a_ = stof(value);
-  } else if (name == "loss") {
-    OnlineLinearModel::SetParameter(name, value);
-    if ((this->loss_->type() & loss::Loss::Type::BOOL) == 0) {
-      throw invalid_argument("only bool-based loss functions are allowed");
-    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
-- 
2.43.0


From 9c10a294bc67b055adb8687a772aefe05478c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:56 +0000
Subject: [PATCH 44/81] fix: refused parameter values were stored all the same

---
 src/sol/model/olm/ada_fobos.cc | 10 ++++++----
 src/sol/model/olm/ada_rda.cc   | 10 ++++++----
 src/sol/model/olm/alma2.cc     | 17 +++++++++++------
 src/sol/model/olm/fofs.cc      | 10 ++++++----
 src/sol/model/olm/ogd.cc       | 10 ++++++----
 src/sol/model/olm/rda.cc       | 10 ++++++----
 src/sol/model/online_model.cc  | 25 ++++++++++++++++---------
 7 files changed, 57 insertions(+), 35 deletions(-)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 97c947e..58e2a70 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -29,12 +29,14 @@ AdaFOBOS::~AdaFOBOS() { DeleteArray(this->H_); }
 
 void AdaFOBOS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float delta = stof(value);
+    Check(delta > 0);
+    this->delta_ = delta;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 3b6fef7..6bb0a84 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -36,12 +36,14 @@ AdaRDA::~AdaRDA() {
 
 void AdaRDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "delta") {
-    this->delta_ = stof(value);
-    Check(delta_ > 0);
+    float delta = stof(value);
+    Check(delta > 0);
+    this->delta_ = delta;
     for (int c = 0; c < this->clf_num_; ++c) this->H_[c] = this->delta_;
   } else if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/alma2.cc b/src/sol/model/olm/alma2.cc
index 23bfb55..d5134da 100644
--- a/src/sol/model/olm/alma2.cc
+++ b/src/sol/model/olm/alma2.cc
@@ -39,23 +39,28 @@ void ALMA2::SetParameter(const std::string& name, const std::string& value) {
     this->square_p1_ = sqrtf(float(this->p_ - 1));
     this->require_reinit_ = true;
   } else if (name == "alpha") {
-    this->alpha_ = stof(value);
+    float alpha = stof(value);
+    Check(alpha > 0);
+    Check(alpha <= 1);
+    this->alpha_ = alpha;
     this->B_ = 1 / this->alpha_;
-    Check(alpha_ > 0);
-    Check(alpha_ <= 1);
     this->require_reinit_ = true;
   } else if (name == "C") {
     this->C_ = stof(value);
   } else if (name == "k") {
-    this->k_ = stoi(value);
-    Check(this->k_ > 0);
+    int k = stoi(value);
+    Check(k > 0);
+    this->k_ = k;
     this->require_reinit_ = true;
   } else if (name == "loss") {
     OnlineLinearModel::SetParameter(name, value);
     this->hinge_base_ = static_cast<loss::HingeBase*>(this->loss_);
   } else if (name == "norm") {
     OnlineLinearModel::SetParameter(name, value);
-    Check(this->norm_type_ == op::OpType::kL2);
+    if (this->norm_type_ != op::OpType::kL2) {
+      this->norm_type_ = op::OpType::kL2;
+      throw invalid_argument("alma2 requires L2 normalization");
+    }
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
diff --git a/src/sol/model/olm/fofs.cc b/src/sol/model/olm/fofs.cc
index 18cfa59..6b11ed6 100644
--- a/src/sol/model/olm/fofs.cc
+++ b/src/sol/model/olm/fofs.cc
@@ -18,12 +18,14 @@ FOFS::~FOFS() {}
 
 void FOFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "eta") {
-    this->eta_ = stof(value);
-    Check(eta_ >= 0);
+    float eta = stof(value);
+    Check(eta >= 0);
+    this->eta_ = eta;
     this->require_reinit_ = true;
   } else if (name == "lambda") {
-    this->lambda_ = stof(value);
-    Check(this->lambda_ >= 0);
+    float lambda = stof(value);
+    Check(lambda >= 0);
+    this->lambda_ = lambda;
     this->require_reinit_ = true;
   } else if (name == "B") {
     int B = stoi(value);
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index d377a58..9b472d4 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -24,8 +24,9 @@ void OGD::SetParameter(const std::string& name, const std::string& value) {
   if (name == "power_t") {
     this->set_power_t(stof(value));
   } else if (name == "eta") {
-    this->eta0_ = stof(value);
-    Check(eta0_ >= 0);
+    float eta0 = stof(value);
+    Check(eta0 >= 0);
+    this->eta0_ = eta0;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -88,8 +89,9 @@ STG::STG(int class_num) : OGD(class_num), k_(1) {
 
 void STG::SetParameter(const std::string& name, const std::string& value) {
   if (name == "k") {
-    this->k_ = stoi(value);
-    Check(k_ > 0);
+    int k = stoi(value);
+    Check(k > 0);
+    this->k_ = k;
   } else {
     OGD::SetParameter(name, value);
     if (name == "t") this->last_trunc_time_ = real_t(this->initial_t_);
diff --git a/src/sol/model/olm/rda.cc b/src/sol/model/olm/rda.cc
index cb18e41..972b5b1 100644
--- a/src/sol/model/olm/rda.cc
+++ b/src/sol/model/olm/rda.cc
@@ -29,8 +29,9 @@ RDA::~RDA() { DeleteArray(this->ut_); }
 
 void RDA::SetParameter(const std::string& name, const std::string& value) {
   if (name == "sigma") {
-    this->sigma_ = stof(value);
-    Check(sigma_ > 0);
+    float sigma = stof(value);
+    Check(sigma > 0);
+    this->sigma_ = sigma;
   } else {
     OnlineLinearModel::SetParameter(name, value);
   }
@@ -139,8 +140,9 @@ ERDA_L1::ERDA_L1(int class_num) : RDA(class_num), rou_(0.f) {
 
 void ERDA_L1::SetParameter(const std::string& name, const std::string& value) {
   if (name == "rou") {
-    this->rou_ = stof(value);
-    Check(rou_ >= 0);
+    float rou = stof(value);
+    Check(rou >= 0);
+    this->rou_ = rou;
   } else {
     RDA::SetParameter(name, value);
   }
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index aac47a0..cde3213 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -81,36 +81,43 @@ OnlineModel::~OnlineModel() { DeletePointer(this->iter_displayer_); }
 void OnlineModel::SetParameter(const std::string& name,
                                const std::string& value) {
   if (name == "bias_eta") {
-    this->bias_eta0_ = stof(value);
-    Check(bias_eta0_ >= 0);
+    float bias_eta0 = stof(value);
+    Check(bias_eta0 >= 0);
+    this->bias_eta0_ = bias_eta0;
   } else if (name == "t") {
     this->set_initial_t(stoi(value));
     if (this->regularizer_ != nullptr) {
       this->regularizer_->SetParameter("t0", value);
     }
   } else if (name == "dim") {
-    this->update_dim(stoi(value));
+    int dim = stoi(value);
+    Check(dim >= 0);
+    this->update_dim(dim);
   } else if (name == "lazy_update") {
     this->lazy_update_ = value == "true" ? true : false;
   } else if (name == "active_smoothness") {
-    this->active_smoothness_ = stof(value);
-    Check(active_smoothness_ > 0);
+    float active_smoothness = stof(value);
+    Check(active_smoothness > 0);
+    this->active_smoothness_ = active_smoothness;
   } else if (name == "cost_margin") {
     if (this->clf_num_ != 1) {
       throw invalid_argument(
           "cost sensitive learning is only allowed in binary classification "
           "yet");
     }
-    this->cost_margin_ = stof(value);
-    Check(cost_margin_ > 0);
+    float cost_margin = stof(value);
+    Check(cost_margin > 0);
+    this->cost_margin_ = cost_margin;
     this->cost_sensitive_learning_ = true;
     this->require_reinit_ = true;
   } else if (name == "exp_show") {
+    int base = stoi(value);
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new ExpIterDisplayer(stoi(value));
+    this->iter_displayer_ = new ExpIterDisplayer(base);
   } else if (name == "step_show") {
+    int step = stoi(value);
     DeletePointer(this->iter_displayer_);
-    this->iter_displayer_ = new StepIterDisplayer(stoi(value));
+    this->iter_displayer_ = new StepIterDisplayer(step);
   } else {
     Model::SetParameter(name, value);
   }
-- 
2.43.0


From 347a625d3672e4067f3cc224d5b959b9d43f3549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:59 +0000
Subject: [PATCH 45/81] fix: feature-selecting learners accepted a negative
 number of features

---
 src/sol/model/olm/ada_fobos.cc | 1 +
 src/sol/model/olm/ada_rda.cc   | 1 +
 src/sol/model/olm/arow.cc      | 1 +
 src/sol/model/olm/ogd.cc       | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/sol/model/olm/ada_fobos.cc b/src/sol/model/olm/ada_fobos.cc
index 58e2a70..4f9a7b0 100644
--- a/src/sol/model/olm/ada_fobos.cc
+++ b/src/sol/model/olm/ada_fobos.cc
@@ -154,6 +154,7 @@ AdaFOBOS_OFS::~AdaFOBOS_OFS() {
 
 void AdaFOBOS_OFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "B" || name == "lambda") {
+    Check(stof(value) >= 0);
     AdaFOBOS::SetParameter("lambda", value);
     this->require_reinit_ = true;
   } else {
diff --git a/src/sol/model/olm/ada_rda.cc b/src/sol/model/olm/ada_rda.cc
index 6bb0a84..7635225 100644
--- a/src/sol/model/olm/ada_rda.cc
+++ b/src/sol/model/olm/ada_rda.cc
@@ -171,6 +171,7 @@ AdaRDA_OFS::~AdaRDA_OFS() {
 
 void AdaRDA_OFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "B" || name == "lambda") {
+    Check(stof(value) >= 0);
     AdaRDA::SetParameter("lambda", value);
     this->require_reinit_ = true;
   } else {
diff --git a/src/sol/model/olm/arow.cc b/src/sol/model/olm/arow.cc
index 7381ab6..b2af409 100644
--- a/src/sol/model/olm/arow.cc
+++ b/src/sol/model/olm/arow.cc
@@ -124,6 +124,7 @@ SOFS::~SOFS() {
 
 void SOFS::SetParameter(const std::string& name, const std::string& value) {
   if (name == "B" || name == "lambda") {
+    Check(stof(value) >= 0);
     AROW::SetParameter("lambda", value);
     this->require_reinit_ = true;
   } else {
diff --git a/src/sol/model/olm/ogd.cc b/src/sol/model/olm/ogd.cc
index 9b472d4..650a4a6 100644
--- a/src/sol/model/olm/ogd.cc
+++ b/src/sol/model/olm/ogd.cc
@@ -200,6 +200,7 @@ PET::~PET() {}
 
 void PET::SetParameter(const std::string& name, const std::string& value) {
   if (name == "B" || name == "lambda") {
+    Check(stof(value) >= 0);
     OGD::SetParameter("lambda", value);
     this->require_reinit_ = true;
   } else {
-- 
2.43.0


From f4447b99e237b281b1a6f2925e7abd3fca40b47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:02 +0000
Subject: [PATCH 46/81] fix: a parameter value out of the range of its type
 escaped the C API as an exception

---
 src/sol/c_api.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index b829cc7..764197d 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -65,7 +65,8 @@ int sol_SetModelParameter(void* model, const char* param_name,
   try {
     m->SetParameter(param_name, param_val);
   }
-  catch (invalid_argument& err) {
+  // invalid_argument, or out_of_range for numbers too large
+  catch (logic_error& err) {
     fprintf(stderr, "%s\n", err.what());
     return Status_Invalid_Argument;
   }
-- 
2.43.0


From 1e484cee1213ff261c27bcf8b554485b0d6700bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:15 +0000
Subject: [PATCH 47/81] fix: element access of constant matrices ignored the
 row

---
 include/sol/math/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 4dc2412..8eec928 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -168,7 +168,7 @@ class Matrix
   inline DType& operator()(size_t x, size_t y) { return this->data(y)[x]; }
 
   inline const DType& operator()(size_t x, size_t y) const {
-    return this->data()[x];
+    return this->data(y)[x];
   }
 
   inline DType& operator[](size_t idx) { return this->storage_->begin()[idx]; }
-- 
2.43.0


From 488a3991b99fc6e2038861df170ca3e9e513ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:26 +0000
Subject: [PATCH 48/81] fix: constructing a vector or matrix from an expression
 always threw

---
 include/sol/math/matrix.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sol/math/matrix.h b/include/sol/math/matrix.h
index 8eec928..21e447c 100644
--- a/include/sol/math/matrix.h
+++ b/include/sol/math/matrix.h
@@ -38,6 +38,7 @@ class Matrix
   Matrix(const expr::Exp<EType, DType, etype>& exp)
       : storage_(nullptr), shape_(nullptr), count_(nullptr) {
     this->init();
+    if (etype == expr::ExprType::kDense) this->resize(exp.self().shape());
     this->assign(exp);
   }
 
@@ -58,6 +59,9 @@ class Matrix
   /// \brief assignment from an expression template
   template <typename EType, int etype>
   Matrix<DType>& operator=(const expr::Exp<EType, DType, etype>& exp) {
+    if (this->count_ == nullptr && etype == expr::ExprType::kDense) {
+      this->resize(exp.self().shape());
+    }
     this->init();
     this->assign(exp);
     return *this;
-- 
2.43.0


From 67f9864e4474a9d049397f175fc5930ae1a793fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:59 +0000
Subject: [PATCH 49/81] fix: lsol_c printed error rates as accuracies

---
 tools/lsol_c.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index 9c67472..acc6a1a 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -90,8 +90,8 @@ int train(cmdline::parser& parser) {
   }
 
   if (ret == Status_OK) {
-    float accu = sol_Train(model, data_iter);
-    fprintf(stdout, "training accuracy: %.4f\n", accu);
+    float err_rate = sol_Train(model, data_iter);
+    fprintf(stdout, "training accuracy: %.4f\n", 1.f - err_rate);
 
     // save model
     if (parser.exist("output")) {
@@ -134,8 +134,8 @@ int test(cmdline::parser& parser) {
       output_path = parser.get<string>("output").c_str();
     }
 
-    float accu = sol_Test(model, data_iter, output_path);
-    fprintf(stdout, "test accuracy: %.4f\n", accu);
+    float err_rate = sol_Test(model, data_iter, output_path);
+    fprintf(stdout, "test accuracy: %.4f\n", 1.f - err_rate);
   }
 
   sol_ReleaseModel(&model);
-- 
2.43.0


From 05d4aa8480276eb90d1a582bff1c6bcf2d40b859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:59 +0000
Subject: [PATCH 50/81] fix: lsol_c crashed on --filter when the model cannot
 be loaded

---
 tools/lsol_c.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index acc6a1a..ff40705 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -116,7 +116,7 @@ int test(cmdline::parser& parser) {
   }
   if (model == nullptr) ret = Status_Invalid_Argument;
 
-  if (parser.exist("filter")) {
+  if (ret == Status_OK && parser.exist("filter")) {
     ret = sol_SetModelParameter(model, "filter",
                                 parser.get<string>("filter").c_str());
   }
-- 
2.43.0


From 50a9236a628e2d05abd1499e2b5af6dec82aa6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:59 +0000
Subject: [PATCH 51/81] fix: sol_train aborted on a parameter value out of
 range

---
 tools/sol_train.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 4087431..9ad0a88 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -8,6 +8,7 @@
 
 #include <string>
 #include <cstdlib>
+#include <stdexcept>
 #include <memory>
 
 #include <sol/sol.h>
@@ -71,7 +72,8 @@ int train(cmdline::parser& parser) {
       try {
         model->SetParameter(strip(opt_pair[0]), strip(opt_pair[1]));
       }
-      catch (invalid_argument& err) {
+      // invalid_argument, or out_of_range for numbers too large
+      catch (logic_error& err) {
         fprintf(stderr, "%s\n", err.what());
         return Status_Invalid_Argument;
       }
-- 
2.43.0


From 29c1e8359898a33ad88749223730b741da86e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:59 +0000
Subject: [PATCH 52/81] fix: sol_train reported success when the model cannot
 be written

---
 tools/sol_train.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 9ad0a88..3731ccb 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -96,7 +96,8 @@ int train(cmdline::parser& parser) {
 
   // save model
   if (!output_path.empty()) {
-    model->Save(output_path);
+    ret = model->Save(output_path);
+    if (ret != Status_OK) return ret;
     fprintf(stdout, "save time: %.3f seconds\n", get_current_time() - end_time);
   }
 
-- 
2.43.0


From 529ef63209072ff960b9bc3175e0dc9a86b27483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:59 +0000
Subject: [PATCH 53/81] fix: saving a model reported success when the disk was
 full

---
 src/sol/model/model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sol/model/model.cc b/src/sol/model/model.cc
index 3c0c509..9fd66d0 100644
--- a/src/sol/model/model.cc
+++ b/src/sol/model/model.cc
@@ -187,6 +187,10 @@ int Model::Save(const string& path) {
   this->GetModelParam(out_file);
 
   out_file.close();
+  if (!out_file) {
+    cerr << "write file " << path << " failed\n";
+    return Status_IO_Error;
+  }
   return Status_OK;
 }
 
-- 
2.43.0


From 23a2ea674ff6a43510d5c4d7f4323d1cfad9017e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 54/81] fix: pysol kept a pointer to a freed string as the name
 of the learner

---
 python/pysol.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index a191277..378ab5c 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -45,7 +45,7 @@ cdef void inspect_iteration(void* user_context,
 cdef class SOL:
     cdef void* _c_model
     cdef void* _c_data_iter
-    cdef const char* algo
+    cdef object algo
     cdef int class_num
     cdef bint verbose
 
@@ -70,7 +70,7 @@ cdef class SOL:
         """
         if algo is not NULL:
             self._c_model = sol_CreateModel(algo, class_num)
-            self.algo = algo
+            self.algo = <bytes>algo
             self.class_num = class_num
             self.set_params(**params)
         else:
@@ -97,7 +97,7 @@ cdef class SOL:
 
     @property
     def name(self):
-        return <bytes>self.algo
+        return self.algo
 
     @property
     def n_classes(self):
-- 
2.43.0


From b8994a05e3218af11d2d250995854c4917f610ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 55/81] fix: pysol called a progress handler that had been
 freed

---
 python/pysol.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index 378ab5c..06d081f 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -46,6 +46,7 @@ cdef class SOL:
     cdef void* _c_model
     cdef void* _c_data_iter
     cdef object algo
+    cdef object handler
     cdef int class_num
     cdef bint verbose
 
@@ -141,7 +142,9 @@ cdef class SOL:
 
     def inspect_learning(self, iterate_handler):
         if self._c_model is not NULL:
-            sol_InspectOnlineIteration(self._c_model, inspect_iteration, <void*>iterate_handler)
+            # the model does not own the handler
+            self.handler = iterate_handler
+            sol_InspectOnlineIteration(self._c_model, inspect_iteration, <void*>self.handler)
 
     def __load_data(self, param1, param2, int pass_num):
         """load data to data_iter
-- 
2.43.0


From 24735058a2744f1d1de7b8d8dd8651e30aefe8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 56/81] fix: pysol misread arrays that are not laid out row by
 row, and used freed labels

---
 python/pysol.pyx | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index 06d081f..adca87f 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -47,6 +47,7 @@ cdef class SOL:
     cdef void* _c_data_iter
     cdef object algo
     cdef object handler
+    cdef object data
     cdef int class_num
     cdef bint verbose
 
@@ -167,10 +168,15 @@ cdef class SOL:
                 param2 = np.zeros(param1.shape[0], dtype=np.float64)
             assert param1.dtype == np.float64, "only float64 data are allowed"
             assert param2.dtype == np.float64, "only float64 labels are allowed"
+            # the library reads the arrays row by row until all data are processed
             X = param1
-            y = param2
+            y = np.ascontiguousarray(param2)
+            if X.ndim != 2 or y.ndim != 1 or X.shape[0] != y.shape[0]:
+                raise ValueError("X must be of shape [n_samples, n_features] and y of shape [n_samples]")
 
             if isinstance(param1, np.ndarray):
+                X = np.ascontiguousarray(X)
+                self.data = (X, y)
                 ret = sol_loadArray(self._c_data_iter,
                         (<np.ndarray[np.float64_t, ndim=2, mode='c']>X).data,
                         (<np.ndarray[np.float64_t, ndim=1, mode='c']>y).data,
@@ -178,12 +184,16 @@ cdef class SOL:
                         (<np.ndarray[np.float64_t, ndim=2, mode='c']>X).strides,
                         pass_num)
             elif isinstance(param1, csr_matrix):
+                indices = np.ascontiguousarray(X.indices, dtype=np.int32)
+                indptr = np.ascontiguousarray(X.indptr, dtype=np.int32)
+                values = np.ascontiguousarray(X.data)
+                self.data = (indices, indptr, values, y)
                 ret= sol_loadCsrMatrix(self._c_data_iter,
-                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>X.indices).data,
-                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>X.indptr).data,
-                        (<np.ndarray[np.float64_t, ndim=1, mode='c']>X.data).data,
+                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>indices).data,
+                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>indptr).data,
+                        (<np.ndarray[np.float64_t, ndim=1, mode='c']>values).data,
                         (<np.ndarray[np.float64_t, ndim=1, mode='c']>y).data,
-                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>X.indptr).shape[0] - 1,
+                        (<np.ndarray[np.int32_t,   ndim=1, mode='c']>indptr).shape[0] - 1,
                         pass_num)
             else:
                 raise TypeError("only data path or numpy.ndarray or csr_matrix are allowed")
-- 
2.43.0


From ea326601f1dbc76650e78bb2754406d680521313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 57/81] fix: pysol reported no error when a model cannot be
 saved

---
 python/pysol.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index adca87f..543ef75 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -317,7 +317,8 @@ cdef class SOL:
             path to save the model
         """
         assert self._c_model is not NULL, "model is not initialized"
-        sol_SaveModel(self._c_model, model_path)
+        if sol_SaveModel(self._c_model, model_path) != 0:
+            raise RuntimeError('save model to %s failed' %(model_path))
 
     def load(self, const char* model_path):
         """Load a model from file
-- 
2.43.0


From 626e95f9852067f937f4c48e90351be14f6aa28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:41 +0000
Subject: [PATCH 58/81] fix: pysol leaked the previous model when loading
 another one

---
 python/pysol.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index 543ef75..765b2ee 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -332,6 +332,8 @@ cdef class SOL:
         -------
         (SOL): Returns self
         """
+        if self._c_model is not NULL:
+            sol_ReleaseModel(&self._c_model)
         self._c_model = sol_RestoreModel(model_path)
         if self._c_model is not NULL:
             params = self.get_params()
-- 
2.43.0


From 2ce9e1842f167cd7781d3b19cf5b9fb0337b1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:57 +0000
Subject: [PATCH 59/81] fix: DataSet.cache_path always failed on its log
 message

---
 python/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dataset.py b/python/dataset.py
index 488e4b3..4abf441 100755
--- a/python/dataset.py
+++ b/python/dataset.py
@@ -83,7 +83,7 @@ class DataSet(object):
             cache_path = os.path.join(self.work_dir, self.data_name + '.bin')
             if os.path.exists(cache_path):
                 return cache_path
-            logging.info('convert data %s to ' %(self.data_path, cache_path))
+            logging.info('convert data %s to %s' %(self.data_path, cache_path))
             if pysol.convert_data(self.data_path, self.dtype, cache_path, 'bin') != 0:
                 sys.exit()
             return cache_path
-- 
2.43.0


From 0a1c1f68467a9584c3699379b50f67756d9ff3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:57 +0000
Subject: [PATCH 60/81] fix: DataSet.split_file mixed slices of different
 splits

---
 python/dataset.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/dataset.py b/python/dataset.py
index 4abf441..f7efb2e 100755
--- a/python/dataset.py
+++ b/python/dataset.py
@@ -132,14 +132,17 @@ class DataSet(object):
         output_prefix = os.path.join(self.work_dir, self.data_name + ".split.")
         is_exist = True
         for i in xrange(split_num):
-            if not os.path.exists('%s%d.%s' %(output_prefix, i, tgt_type)):
+            if not os.path.exists('%s%d.%s' %(output_prefix, i, self.slice_type)):
                 is_exist = False
 
-        extra_file = '%s%d.%s' %(output_prefix, split_num, tgt_type)
-        if os.path.exists(extra_file):
+        #remove the slices of a split into more parts
+        extra_num = split_num
+        extra_file = '%s%d.%s' %(output_prefix, extra_num, self.slice_type)
+        while os.path.exists(extra_file):
             is_exist = False
-            #remove this file
             os.remove(extra_file)
+            extra_num += 1
+            extra_file = '%s%d.%s' %(output_prefix, extra_num, self.slice_type)
 
         if is_exist == True:
             return None
-- 
2.43.0


From 6de00cf4df9b95dca5f64b8e6eceee8f45540bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:57 +0000
Subject: [PATCH 61/81] fix: the second cross validation of a CV object
 averaged in the previous average

---
 python/cv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/cv.py b/python/cv.py
index 664a397..b739b37 100755
--- a/python/cv.py
+++ b/python/cv.py
@@ -135,8 +135,8 @@ class CV(object):
             self.val_scores[:, val_fold_id] = val_accu_list
 
         #calculate the average
-        self.train_scores[:, self.fold_num] = np.sum(self.train_scores, axis=1) / self.fold_num
-        self.val_scores[:, self.fold_num] = np.sum(self.val_scores, axis=1) / self.fold_num
+        self.train_scores[:, self.fold_num] = np.mean(self.train_scores[:, :self.fold_num], axis=1)
+        self.val_scores[:, self.fold_num] = np.mean(self.val_scores[:, :self.fold_num], axis=1)
 
     def __train_val_one_fold(self, model_name, val_fold_id):
         """ cross validation on one fold of data
-- 
2.43.0


From 01cf44406b6e4f25146c7975a44fd43e8a2b271c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:57 +0000
Subject: [PATCH 62/81] fix: cross validation waited forever when a parameter
 value is refused

---
 python/cv.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/python/cv.py b/python/cv.py
index b739b37..f78563e 100755
--- a/python/cv.py
+++ b/python/cv.py
@@ -54,14 +54,19 @@ def train_val_executor(task_queue,
         params = task[3]
         fold_num = task[4]
         val_fold_id = task[5]
-        m = SOL(algo=model_name, class_num=dt.class_num, **params)
-
-        for p in xrange(dt.pass_num):
-            for i in xrange(fold_num):
-                if i == val_fold_id:
-                    continue
-                train_accu = m.fit(dt.split_path(i), dt.slice_type)
-        val_accu = m.score(dt.split_path(val_fold_id), dt.slice_type)
+        try:
+            m = SOL(algo=model_name, class_num=dt.class_num, **params)
+
+            for p in xrange(dt.pass_num):
+                for i in xrange(fold_num):
+                    if i == val_fold_id:
+                        continue
+                    train_accu = m.fit(dt.split_path(i), dt.slice_type)
+            val_accu = m.score(dt.split_path(val_fold_id), dt.slice_type)
+        except Exception as err:
+            #the caller waits for a result of every task
+            result_queue.put((param_idx, None, str(err)))
+            continue
 
         logging.info('Cross validation of %s on %s, Fold %d/%d: \n\t\
                      params: %s\n\t\
@@ -181,6 +186,11 @@ class CV(object):
         for p in processes:
             p.join()
 
+        for k in xrange(self.search_space.size):
+            if train_accu_list[k] is None:
+                raise RuntimeError('cross validation with %s failed: %s'
+                        % (str(self.search_space.get_param(k)), val_accu_list[k]))
+
         return train_accu_list, val_accu_list
 
     def get_best_param(self):
-- 
2.43.0


From 89aef9b250a20bc63183a2e0eaf51dc668d6a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 63/81] fix: sorting a long line of features in descending
 order overflowed the stack

QuickSort took the first feature as the pivot: on (nearly) sorted lines it
needed quadratic time and recursed once per feature.
---
 src/sol/pario/data_point.cc | 57 ++++++++++++-------------------------
 1 file changed, 18 insertions(+), 39 deletions(-)

diff --git a/src/sol/pario/data_point.cc b/src/sol/pario/data_point.cc
index 71aa345..10036bf 100755
--- a/src/sol/pario/data_point.cc
+++ b/src/sol/pario/data_point.cc
@@ -8,7 +8,9 @@
 
 #include "sol/pario/data_point.h"
 
+#include <algorithm>
 #include <utility>
+#include <vector>
 
 namespace sol {
 namespace pario {
@@ -48,47 +50,24 @@ bool DataPoint::IsSorted() const {
   return true;
 }
 
-template <typename T1, typename T2>
-void QuickSort(T1 *a, T2 *b, size_t low, size_t high) {  // from small to great
-  size_t i = low;
-  size_t j = high;
-  T1 temp = a[low];  // select the first element as the indicator
-  T2 temp_ind = b[low];
-
-  while (i < j) {
-    while ((i < j) && (temp < a[j])) {  // scan right side
-      j--;
-    }
-    if (i < j) {
-      a[i] = a[j];
-      b[i] = b[j];
-      i++;
-    }
-
-    while (i < j && (a[i] < temp)) {  // scan left side
-      i++;
-    }
-    if (i < j) {
-      a[j] = a[i];
-      b[j] = b[i];
-      j--;
-    }
-  }
-  a[i] = temp;
-  b[i] = temp_ind;
+void DataPoint::Sort() {
+  if (this->IsSorted()) return;
 
-  if (low < i) {
-    QuickSort(a, b, low, i - 1);  // sort left subset
+  typedef std::pair<index_t, real_t> Feature;
+  index_t *indexes = this->indexes().begin();
+  real_t *feats = this->features().begin();
+  std::vector<Feature> items(this->size());
+  for (size_t i = 0; i < items.size(); ++i) {
+    items[i] = Feature(indexes[i], feats[i]);
   }
-  if (i < high) {
-    QuickSort(a, b, j + 1, high);  // sort right subset
-  }
-}
-
-void DataPoint::Sort() {
-  if (this->IsSorted() == false) {
-    QuickSort(this->indexes().begin(), this->features().begin(), 0,
-              this->indexes().size() - 1);
+  // from small to great, features with the same index keep their order
+  std::stable_sort(items.begin(), items.end(),
+                   [](const Feature &a, const Feature &b) {
+                     return a.first < b.first;
+                   });
+  for (size_t i = 0; i < items.size(); ++i) {
+    indexes[i] = items[i].first;
+    feats[i] = items[i].second;
   }
 }
 
-- 
2.43.0


From eb8a827affe80d189b861f137880b2623fa4bb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:03 +0000
Subject: [PATCH 64/81] fix: NumpyReader read from a wrong address beyond 2 GB
 of an array

---
 src/sol/pario/numpy_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sol/pario/numpy_reader.cc b/src/sol/pario/numpy_reader.cc
index a10cbdf..3790bbc 100644
--- a/src/sol/pario/numpy_reader.cc
+++ b/src/sol/pario/numpy_reader.cc
@@ -7,6 +7,7 @@
 
 #include "sol/pario/numpy_reader.h"
 
+#include <cstddef>
 #include <cstdlib>
 #include <sstream>
 
@@ -82,7 +83,8 @@ int NumpyReader::Next(DataPoint& dst_data) {
   }
 
   // 2. parse features
-  double* ptr = (double*)((char*)this->X_ + this->x_idx_ * this->stride_);
+  double* ptr = (double*)((char*)this->X_ +
+                          static_cast<ptrdiff_t>(this->x_idx_) * this->stride_);
   for (int j = 0; j < this->n_features_; ++j, ++ptr) {
     if (*ptr != 0) {
       dst_data.AddNewFeat(j + 1, static_cast<real_t>(*ptr));
-- 
2.43.0


From 1de8e3dd8757a8069e96540b540c40d83028728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:25 +0000
Subject: [PATCH 65/81] fix: multi-class training wrote outside its arrays on a
 label that is not a class

An example whose label is negative or not below the number of classes is
now predicted and counted as a mistake, and the model learns nothing from it.
---
 src/sol/model/online_linear_model.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sol/model/online_linear_model.cc b/src/sol/model/online_linear_model.cc
index a8c9c08..a0c5d10 100644
--- a/src/sol/model/online_linear_model.cc
+++ b/src/sol/model/online_linear_model.cc
@@ -8,6 +8,7 @@
 #include "sol/model/online_linear_model.h"
 
 #include <algorithm>
+#include <cstdio>
 #include <random>
 #include <limits>
 
@@ -48,6 +49,14 @@ OnlineLinearModel::~OnlineLinearModel() {
 
 label_t OnlineLinearModel::Iterate(const DataPoint& dp, float* predicts) {
   OnlineModel::Iterate(dp, predicts);
+  if (this->clf_num_ > 1 &&
+      (dp.label() < 0 || dp.label() >= this->class_num_)) {
+    // no classifier to learn from the example
+    fprintf(stderr, "ignore example with label %d, which is not in [0, %d)\n",
+            int(dp.label()), this->class_num_);
+    --this->cur_iter_num_;
+    return OnlineLinearModel::TrainPredict(dp, predicts);
+  }
   if (this->regularizer_ != nullptr) {
     this->online_regularizer()->BeginIterate(dp);
   }
-- 
2.43.0


From 7acf9ee861868e759ca2d89bb65002123819c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:38 +0000
Subject: [PATCH 66/81] fix: DataSet.binarize returned the data of another
 threshold

---
 python/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dataset.py b/python/dataset.py
index f7efb2e..782a8e2 100755
--- a/python/dataset.py
+++ b/python/dataset.py
@@ -101,7 +101,7 @@ class DataSet(object):
             return dst_path
 
     def binarize(self, dtype, thresh):
-          dst_path = os.path.join(self.work_dir, self.data_name + '-binary.' + dtype)
+          dst_path = os.path.join(self.work_dir, self.data_name + '-binary-%r.%s' %(thresh, dtype))
           if os.path.exists(dst_path):
               return dst_path
           logging.info('binary[thresh=%f] data %s to %s' %(thresh, self.data_path, dst_path))
-- 
2.43.0


From 2d21c38521d30f1ec51a9a22e1c86d6eeda4a3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:38 +0000
Subject: [PATCH 67/81] fix: the training script ignored --params when
 fine-tuning a model

---
 python/sol_train.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/sol_train.py b/python/sol_train.py
index de9323b..14e4ff5 100644
--- a/python/sol_train.py
+++ b/python/sol_train.py
@@ -181,11 +181,12 @@ def main():
                     'buf_size': args.buf_size,
                     'norm': args.norm}
 
+    if args.params != None:
+        for item in args.params:
+            parts = item.split('=')
+            model_params[parts[0]] = parts[1]
+
     if args.model == None and args.algo != None:
-        if args.params != None:
-            for item in args.params:
-                parts = item.split('=')
-                model_params[parts[0]] = parts[1]
         cv_params = None
         if args.cv != None:
             cv_params = {}
-- 
2.43.0


From fd5995d2e07998b31e7b01e94fb85820fa239414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:43 +0000
Subject: [PATCH 68/81] fix: pysol crashed when asked for the parameters of an
 object without a model

---
 python/pysol.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pysol.pyx b/python/pysol.pyx
index 765b2ee..15d41e8 100644
--- a/python/pysol.pyx
+++ b/python/pysol.pyx
@@ -137,6 +137,8 @@ cdef class SOL:
         -------
         dict: mapping of string to string
         """
+        assert self._c_model is not NULL, "model is not initialized"
+
         params = dict()
         sol_GetModelParameters(self._c_model, get_parameter, <void*>params)
         return params
-- 
2.43.0


From 011ce6c0f88a052031746c628b46773ee7fce370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:02 +0000
Subject: [PATCH 69/81] fix: the data tools reported success when their output
 was not written completely

Errors of the last writes only show when the file is closed (disk full).
---
 include/sol/pario/data_writer.h |  6 ++++--
 include/sol/pario/file_writer.h |  4 +++-
 src/sol/pario/file_writer.cc    | 10 +++++++---
 src/sol/tools.cc                | 17 ++++++++++++++---
 tools/concat.cc                 |  6 +++++-
 5 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/include/sol/pario/data_writer.h b/include/sol/pario/data_writer.h
index 7a62e92..4d41c46 100755
--- a/include/sol/pario/data_writer.h
+++ b/include/sol/pario/data_writer.h
@@ -35,8 +35,10 @@ class SOL_EXPORTS DataWriter {
   /// \return Status code,  Status_OK if succeed
   virtual int Open(const std::string& path, const char* mode = "w");
 
-  /// \brief Close the reader
-  virtual void Close() { this->file_writer_.Close(); }
+  /// \brief Close the writer
+  ///
+  /// \return Status code, Status_OK if everything is written
+  virtual int Close() { return this->file_writer_.Close(); }
 
   /// \brief  Check the status of the data handler
   ///
diff --git a/include/sol/pario/file_writer.h b/include/sol/pario/file_writer.h
index 3ef4d59..9ac15e8 100755
--- a/include/sol/pario/file_writer.h
+++ b/include/sol/pario/file_writer.h
@@ -35,8 +35,10 @@ class SOL_EXPORTS FileWriter {
 
   /**
    * \brief  Close the file
+   *
+   * \return Status code, Status_OK if everything is written
    */
-  void Close();
+  int Close();
 
   /**
    * Good : Test if the file writer is good
diff --git a/src/sol/pario/file_writer.cc b/src/sol/pario/file_writer.cc
index d84a12f..60c89db 100755
--- a/src/sol/pario/file_writer.cc
+++ b/src/sol/pario/file_writer.cc
@@ -46,11 +46,15 @@ int FileWriter::Open(const char* path, const char* mode) {
   return Status_OK;
 }
 
-void FileWriter::Close() {
-  if (this->file_ != nullptr && this->file_ != stdout) {
-    fclose(this->file_);
+int FileWriter::Close() {
+  int ret = Status_OK;
+  if (this->file_ != nullptr) {
+    if (ferror(this->file_) != 0) ret = Status_IO_Error;
+    if ((this->file_ == stdout ? fflush(this->file_) : fclose(this->file_)) != 0)
+      ret = Status_IO_Error;
   }
   this->file_ = nullptr;
+  return ret;
 }
 
 bool FileWriter::Good() {
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 06e3ea0..706408e 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -95,6 +95,9 @@ int analyze(const string& src_path, const string& src_type,
   for (auto& iter : map_class_sample_num) {
     fw.Printf("data number of class %d : %lu\n", iter.first, iter.second);
   }
+  if ((ret = fw.Close()) != Status_OK) {
+    cerr << "Write analysis result to " << output_path << " failed\n";
+  }
   return ret;
 }
 
@@ -163,7 +166,9 @@ int convert(const string& src_path, const string& src_type,
     }
   }
   cout << data_num << " examples converted\n";
-  writer->Close();
+  if ((ret = writer->Close()) != Status_OK) {
+    cerr << "Write data to " << dst_path << " failed\n";
+  }
   delete writer;
   return ret;
 }
@@ -215,7 +220,9 @@ int shuffle(const std::string& src_path, const std::string& src_type,
     writer->Write(*data);
     delete data;
   }
-  writer->Close();
+  if ((ret = writer->Close()) != Status_OK) {
+    cerr << "Write data to " << output_path << " failed\n";
+  }
   delete writer;
   return ret;
 }
@@ -278,8 +285,12 @@ int split(const string& src_path, const string& src_type, int fold_num,
       delete data_list[data_idx];
     }
     end_idx += data_split_num;
-    writer->Close();
+    ret = writer->Close();
     delete writer;
+    if (ret != Status_OK) {
+      cerr << "Write data to " << output_path.str() << " failed\n";
+      break;
+    }
   }
   return ret;
 }
diff --git a/tools/concat.cc b/tools/concat.cc
index a4345f8..635e2eb 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -93,8 +93,12 @@ int main(int argc, char** argv) {
     }
   }
 
-  writer->Close();
+  ret = writer->Close();
   delete writer;
+  if (ret != Status_OK) {
+    cerr << "Write data to " << dst_path << " failed\n";
+    return ret;
+  }
   cout << data_num << " examples concatenated to " << dst_path << "\n";
   return ret;
 }
-- 
2.43.0


From 2def6b92a71cd3a8492e28d89c79cfc7c31bc49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:31 +0000
Subject: [PATCH 70/81] fix: damaged input was cut off silently by the data
 tools and sol_train

The reading thread stopped at the first malformed record, and the programs
reported success with the data before it.
---
 include/sol/pario/data_iter.h      | 7 +++++++
 include/sol/pario/data_read_task.h | 6 ++++++
 src/sol/pario/data_iter.cc         | 6 +++++-
 src/sol/pario/data_read_task.cc    | 4 +++-
 src/sol/tools.cc                   | 8 +++++++-
 tools/concat.cc                    | 2 +-
 tools/sol_train.cc                 | 4 ++++
 7 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/include/sol/pario/data_iter.h b/include/sol/pario/data_iter.h
index 231b005..895d9d3 100755
--- a/include/sol/pario/data_iter.h
+++ b/include/sol/pario/data_iter.h
@@ -48,6 +48,11 @@ class SOL_EXPORTS DataIter {
   /// \return
   virtual MiniBatch* Next(MiniBatch* prev_batch = nullptr);
 
+  /// \brief  status of the data delivered so far
+  ///
+  /// \return Status_OK if no data file was found damaged
+  int status() const { return this->status_; }
+
  protected:
   // mini-batch size
   int batch_size_;
@@ -59,6 +64,8 @@ class SOL_EXPORTS DataIter {
   std::vector<std::shared_ptr<DataReadTask>> readers_;
   // index of running reader
   int running_reader_idx_;
+  // the first error of the readers
+  int status_;
 };  // class DataIter
 }  // namespace pario
 }  // namespace sol
diff --git a/include/sol/pario/data_read_task.h b/include/sol/pario/data_read_task.h
index 7604cf8..1899ec0 100755
--- a/include/sol/pario/data_read_task.h
+++ b/include/sol/pario/data_read_task.h
@@ -34,6 +34,11 @@ class DataReadTask : public ThreadTask {
  public:
   inline bool Good() { return this->reader_ != nullptr; }
 
+  /// \brief  status of reading, valid after the end of the data is delivered
+  ///
+  /// \return Status_OK if all data were read
+  inline int status() const { return this->status_; }
+
  protected:
   virtual void run();
 
@@ -42,6 +47,7 @@ class DataReadTask : public ThreadTask {
   BlockQueue<MiniBatch*>& mini_batch_factory_;
   BlockQueue<MiniBatch*>& mini_batch_buf_;
   int pass_num_;
+  int status_;
 };
 
 }  // namespace pario
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index 67826ca..4e444e6 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -16,7 +16,8 @@ namespace pario {
 DataIter::DataIter(int batch_size, int batch_num)
     : batch_size_(batch_size),
       mini_batch_factory_(batch_num),
-      mini_batch_buf_(batch_num) {
+      mini_batch_buf_(batch_num),
+      status_(Status_OK) {
   for (int i = 0; i < batch_num; ++i) {
     this->mini_batch_factory_.Enqueue(new MiniBatch(batch_size));
   }
@@ -84,6 +85,9 @@ MiniBatch* DataIter::Next(MiniBatch* prev_batch) {
   do {
     el = this->mini_batch_buf_.Dequeue();
     if (el == nullptr) {
+      if (this->running_reader_idx_ >= 0 && this->status_ == Status_OK) {
+        this->status_ = this->readers_[this->running_reader_idx_]->status();
+      }
       if (this->running_reader_idx_ + 1 <
           static_cast<int>(this->readers_.size())) {
         ++this->running_reader_idx_;
diff --git a/src/sol/pario/data_read_task.cc b/src/sol/pario/data_read_task.cc
index bdd2a1b..bd29e94 100644
--- a/src/sol/pario/data_read_task.cc
+++ b/src/sol/pario/data_read_task.cc
@@ -16,7 +16,8 @@ DataReadTask::DataReadTask(const std::string& path, const std::string& dtype,
                            BlockQueue<MiniBatch*>& mini_batch_buf, int pass_num)
     : mini_batch_factory_(mini_batch_factory),
       mini_batch_buf_(mini_batch_buf),
-      pass_num_(pass_num) {
+      pass_num_(pass_num),
+      status_(Status_OK) {
   DataReader* reader = DataReader::Create(dtype);
   if (reader != nullptr) {
     if (reader->Open(path) != Status_OK) {
@@ -54,6 +55,7 @@ void DataReadTask::run() {
     this->mini_batch_buf_.Enqueue(mini_batch);
   }
   reader->Close();
+  this->status_ = status;
   this->mini_batch_buf_.Enqueue(nullptr);
 }
 
diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 706408e..dc31462 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -74,6 +74,7 @@ int analyze(const string& src_path, const string& src_type,
     }
   }
   cout << data_num << " examples analyzed\n";
+  if (data_iter.status() != Status_OK) return data_iter.status();
 
   size_t valid_dim = 0;
   for (size_t i = 0; i < feat_flags.size(); i++) {
@@ -168,6 +169,8 @@ int convert(const string& src_path, const string& src_type,
   cout << data_num << " examples converted\n";
   if ((ret = writer->Close()) != Status_OK) {
     cerr << "Write data to " << dst_path << " failed\n";
+  } else {
+    ret = iter.status();
   }
   delete writer;
   return ret;
@@ -222,6 +225,8 @@ int shuffle(const std::string& src_path, const std::string& src_type,
   }
   if ((ret = writer->Close()) != Status_OK) {
     cerr << "Write data to " << output_path << " failed\n";
+  } else {
+    ret = iter.status();
   }
   delete writer;
   return ret;
@@ -252,7 +257,7 @@ int split(const string& src_path, const string& src_type, int fold_num,
   }
 
   cout << data_num << " examples loaded\n";
-  if (data_num == 0) return ret;
+  if (data_num == 0) return iter.status();
 
   if (shuffle) {
     random_device rd;
@@ -292,6 +297,7 @@ int split(const string& src_path, const string& src_type, int fold_num,
       break;
     }
   }
+  if (ret == Status_OK) ret = iter.status();
   return ret;
 }
 }
diff --git a/tools/concat.cc b/tools/concat.cc
index 635e2eb..e913775 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -100,5 +100,5 @@ int main(int argc, char** argv) {
     return ret;
   }
   cout << data_num << " examples concatenated to " << dst_path << "\n";
-  return ret;
+  return iter.status();
 }
diff --git a/tools/sol_train.cc b/tools/sol_train.cc
index 3731ccb..9263ce4 100644
--- a/tools/sol_train.cc
+++ b/tools/sol_train.cc
@@ -90,6 +90,10 @@ int train(cmdline::parser& parser) {
   double start_time = sol::get_current_time();
   float err_rate = model->Train(iter);
   double end_time = sol::get_current_time();
+  if (iter.status() != Status_OK) {
+    fprintf(stderr, "Error: %s is damaged.\n", input_path.c_str());
+    return iter.status();
+  }
   fprintf(stdout, "training accuracy: %.4f\n", 1.f - err_rate);
   fprintf(stdout, "training time: %.3f seconds\n", end_time - start_time);
   fprintf(stdout, "model sparsity: %.4f%%\n", model->model_sparsity() * 100.f);
-- 
2.43.0


From 3ad4cefddb6d73421b12fdf9581fa44810e41f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 71/81] fix: data tools leaked the writer and the examples when
 they failed

---
 src/sol/tools.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index dc31462..f32d98a 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -138,10 +138,14 @@ int convert(const string& src_path, const string& src_type,
     writer->SetExtraInfo((char*)(&feat_dim));
     if (feat_dim == 0) {
       cerr << "figuring out feature dimension failed\n";
+      delete writer;
       return Status_Invalid_Format;
     }
     ret = iter.AddReader(src_path, src_type);
-    if (ret != Status_OK) return ret;
+    if (ret != Status_OK) {
+      delete writer;
+      return ret;
+    }
   }
   size_t data_num = 0;
   size_t print_thresh = 1000;
@@ -287,7 +291,6 @@ int split(const string& src_path, const string& src_type, int fold_num,
 
     for (; data_idx < end_idx && data_idx < data_num; ++data_idx) {
       writer->Write(*(data_list[data_idx]));
-      delete data_list[data_idx];
     }
     end_idx += data_split_num;
     ret = writer->Close();
@@ -297,6 +300,7 @@ int split(const string& src_path, const string& src_type, int fold_num,
       break;
     }
   }
+  for (DataPoint* dp : data_list) delete dp;
   if (ret == Status_OK) ret = iter.status();
   return ret;
 }
-- 
2.43.0


From 2f46eda79ce3e64278b160f1d6fa50d81eb9a014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:45 +0000
Subject: [PATCH 72/81] fix: splitting lost examples for more than 2^24 of them
 or no fold at all

---
 src/sol/tools.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index f32d98a..d00bc44 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -238,6 +238,8 @@ int shuffle(const std::string& src_path, const std::string& src_type,
 
 int split(const string& src_path, const string& src_type, int fold_num,
           const string& output_prefix, const string& dst_type, bool shuffle) {
+  if (fold_num <= 0) return Status_Invalid_Argument;
+
   DataIter iter;
   int ret = iter.AddReader(src_path, src_type);
   if (ret != Status_OK) return ret;
@@ -269,7 +271,7 @@ int split(const string& src_path, const string& src_type, int fold_num,
     std::shuffle(data_list.begin(), data_list.end(), g);
   }
 
-  size_t data_split_num = size_t(ceil(data_list.size() / float(fold_num)));
+  size_t data_split_num = (data_list.size() + fold_num - 1) / fold_num;
   size_t data_idx = 0;
   size_t end_idx = data_split_num;
 
-- 
2.43.0


From 791cd70f88cbf4ac52991e5e161a4b4944bb1808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:48 +0000
Subject: [PATCH 73/81] fix: newly created examples and sparse vectors crashed
 when used

---
 include/sol/math/sparse_vector.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/sol/math/sparse_vector.h b/include/sol/math/sparse_vector.h
index af2cea7..cacb8d5 100644
--- a/include/sol/math/sparse_vector.h
+++ b/include/sol/math/sparse_vector.h
@@ -131,16 +131,28 @@ class SVector
     return this->values_ == nullptr ? empty_shape : this->values_->shape();
   }
 
-  inline bool empty() const { return this->values_->empty(); }
+  inline bool empty() const { return this->size() == 0; }
 
   /// accessing elements
-  inline Vector<index_t>& indexes() { return *(this->indexes_); }
-  inline const Vector<index_t>& indexes() const { return *(this->indexes_); }
+  inline Vector<index_t>& indexes() {
+    if (this->count_ == nullptr) this->clear();
+    return *(this->indexes_);
+  }
+  inline const Vector<index_t>& indexes() const {
+    static const Vector<index_t> empty_indexes(0);
+    return this->count_ == nullptr ? empty_indexes : *(this->indexes_);
+  }
   inline index_t& index(size_t idx) { return this->indexes()[idx]; }
   inline const index_t& index(size_t idx) const { return this->indexes()[idx]; }
 
-  inline Vector<DType>& values() { return *(this->values_); }
-  inline const Vector<DType>& values() const { return *(this->values_); }
+  inline Vector<DType>& values() {
+    if (this->count_ == nullptr) this->clear();
+    return *(this->values_);
+  }
+  inline const Vector<DType>& values() const {
+    static const Vector<DType> empty_values(0);
+    return this->count_ == nullptr ? empty_values : *(this->values_);
+  }
   inline DType& value(size_t idx) { return this->values()[idx]; }
   inline const DType& value(size_t idx) const { return this->values()[idx]; }
 
-- 
2.43.0


From d880df0c936c1b905569adab38f102c376acd15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:29 +0000
Subject: [PATCH 74/81] fix: messages were mixed into data written to the
 standard output

---
 src/sol/tools.cc | 11 +++++++----
 tools/concat.cc  | 10 ++++++----
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index d00bc44..7c3455b 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -121,10 +121,12 @@ int convert(const string& src_path, const string& src_type,
   }
 
   MiniBatch* mb = nullptr;
+  // keep messages out of data written to the standard output
+  ostream& log = dst_path == "-" ? cerr : cout;
 
   if (dst_type == "csv") {
     // for csv, get extra info
-    cout << "figuring out feature dimension\n";
+    log << "figuring out feature dimension\n";
     index_t feat_dim = 0;
     while (true) {
       mb = iter.Next(mb);
@@ -154,7 +156,7 @@ int convert(const string& src_path, const string& src_type,
     if (mb == nullptr) break;
     data_num += mb->size();
     if (data_num % 1000 > print_thresh) {
-      cout << data_num << " examples converted\r";
+      log << data_num << " examples converted\r";
       print_thresh += 1000;
     }
     if (binaryize == true) {
@@ -170,7 +172,7 @@ int convert(const string& src_path, const string& src_type,
       writer->Write((*mb)[i]);
     }
   }
-  cout << data_num << " examples converted\n";
+  log << data_num << " examples converted\n";
   if ((ret = writer->Close()) != Status_OK) {
     cerr << "Write data to " << dst_path << " failed\n";
   } else {
@@ -218,7 +220,8 @@ int shuffle(const std::string& src_path, const std::string& src_type,
     data_num += mb->size();
   }
 
-  cout << data_num << " examples loaded\n";
+  // keep messages out of data written to the standard output
+  (output_path == "-" ? cerr : cout) << data_num << " examples loaded\n";
   random_device rd;
   mt19937 g(rd());
   std::shuffle(data_list.begin(), data_list.end(), g);
diff --git a/tools/concat.cc b/tools/concat.cc
index e913775..56a31ac 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -52,10 +52,12 @@ int main(int argc, char** argv) {
 
   DataIter iter;
   MiniBatch* mb = nullptr;
+  // keep messages out of data written to the standard output
+  ostream& log = dst_path == "-" ? cerr : cout;
   const vector<string>& input_list = split(src_path, ';');
 
   if (dst_type == "csv") {
-    cout << "analyzing feature dimension\n";
+    log << "analyzing feature dimension\n";
     index_t feat_dim = 0;
     for (const string& input_path : input_list) {
       ret = iter.AddReader(input_path, src_type);
@@ -69,7 +71,7 @@ int main(int argc, char** argv) {
         if (feat_dim < dp.dim()) feat_dim = dp.dim();
       }
     }
-    cout << "total dimension: " << feat_dim << "\n";
+    log << "total dimension: " << feat_dim << "\n";
     writer->SetExtraInfo((char*)(&feat_dim));
   }
 
@@ -88,7 +90,7 @@ int main(int argc, char** argv) {
     }
 
     if (data_num > print_thresh) {
-      cout << data_num << " examples concatenated\r";
+      log << data_num << " examples concatenated\r";
       print_thresh += 10000;
     }
   }
@@ -99,6 +101,6 @@ int main(int argc, char** argv) {
     cerr << "Write data to " << dst_path << " failed\n";
     return ret;
   }
-  cout << data_num << " examples concatenated to " << dst_path << "\n";
+  log << data_num << " examples concatenated to " << dst_path << "\n";
   return iter.status();
 }
-- 
2.43.0


From d2925d51fac4bd42039d8f633bc5d7f04548d7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:29 +0000
Subject: [PATCH 75/81] fix: converting the standard input to csv lost the
 examples silently

---
 src/sol/tools.cc | 8 ++++++++
 tools/concat.cc  | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sol/tools.cc b/src/sol/tools.cc
index 7c3455b..8003ab8 100644
--- a/src/sol/tools.cc
+++ b/src/sol/tools.cc
@@ -123,6 +123,8 @@ int convert(const string& src_path, const string& src_type,
   MiniBatch* mb = nullptr;
   // keep messages out of data written to the standard output
   ostream& log = dst_path == "-" ? cerr : cout;
+  // number of examples seen when figuring out the dimension
+  size_t expected_num = 0;
 
   if (dst_type == "csv") {
     // for csv, get extra info
@@ -131,6 +133,7 @@ int convert(const string& src_path, const string& src_type,
     while (true) {
       mb = iter.Next(mb);
       if (mb == nullptr) break;
+      expected_num += mb->size();
 
       for (int i = 0; i < mb->size(); ++i) {
         DataPoint& pt = (*mb)[i];
@@ -178,6 +181,11 @@ int convert(const string& src_path, const string& src_type,
   } else {
     ret = iter.status();
   }
+  if (ret == Status_OK && data_num < expected_num) {
+    // e.g. the standard input
+    cerr << "Input " << src_path << " cannot be read twice\n";
+    ret = Status_IO_Error;
+  }
   delete writer;
   return ret;
 }
diff --git a/tools/concat.cc b/tools/concat.cc
index 56a31ac..c7d5776 100644
--- a/tools/concat.cc
+++ b/tools/concat.cc
@@ -56,6 +56,8 @@ int main(int argc, char** argv) {
   ostream& log = dst_path == "-" ? cerr : cout;
   const vector<string>& input_list = split(src_path, ';');
 
+  // number of examples seen when analyzing the dimension
+  size_t expected_num = 0;
   if (dst_type == "csv") {
     log << "analyzing feature dimension\n";
     index_t feat_dim = 0;
@@ -66,6 +68,7 @@ int main(int argc, char** argv) {
     while (true) {
       mb = iter.Next(mb);
       if (mb == nullptr) break;
+      expected_num += mb->size();
       for (int i = 0; i < mb->size(); ++i) {
         DataPoint& dp = (*mb)[i];
         if (feat_dim < dp.dim()) feat_dim = dp.dim();
@@ -102,5 +105,10 @@ int main(int argc, char** argv) {
     return ret;
   }
   log << data_num << " examples concatenated to " << dst_path << "\n";
+  if (iter.status() == Status_OK && data_num < expected_num) {
+    // e.g. the standard input
+    cerr << "Input cannot be read twice\n";
+    return Status_IO_Error;
+  }
   return iter.status();
 }
-- 
2.43.0


From 495e0b2fc015afd40ae5082512dc73df164cdf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:15 +0000
Subject: [PATCH 76/81] fix: NumpyReader read wrong rows when they lie 2 GB or
 more apart

---
 include/sol/pario/numpy_reader.h | 6 +++---
 src/sol/c_api.cc                 | 2 +-
 src/sol/pario/numpy_reader.cc    | 6 +++---
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/sol/pario/numpy_reader.h b/include/sol/pario/numpy_reader.h
index 1b1fe4f..27ca63b 100644
--- a/include/sol/pario/numpy_reader.h
+++ b/include/sol/pario/numpy_reader.h
@@ -40,9 +40,9 @@ class SOL_EXPORTS NumpyReader : public DataReader {
 
  public:
   static std::string GeneratePath(double* x, double* y, int rows, int cols,
-                                  int stride);
+                                  long long stride);
   static int ParsePath(const std::string& path, double*& x, double*& y,
-                       int& rows, int& cols, int& stride);
+                       int& rows, int& cols, long long& stride);
 
  protected:
   bool is_good_;
@@ -50,7 +50,7 @@ class SOL_EXPORTS NumpyReader : public DataReader {
   double* Y_;
   int n_samples_;
   int n_features_;
-  int stride_;
+  long long stride_;
   int x_idx_;
 };
 
diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index 764197d..b26d63f 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -155,7 +155,7 @@ SOL_EXPORTS void sol_InspectOnlineIteration(
 int sol_loadArray(void* data_iter, char* X, char* Y, npy_intp* dims,
                   npy_intp* strides, int pass_num) {
   string path = NumpyReader::GeneratePath((double*)X, (double*)Y, int(dims[0]),
-                                          int(dims[1]), int(strides[0]));
+                                          int(dims[1]), strides[0]);
   DataIter* iter = (DataIter*)(data_iter);
   return iter->AddReader(path, "numpy", pass_num);
 }
diff --git a/src/sol/pario/numpy_reader.cc b/src/sol/pario/numpy_reader.cc
index 3790bbc..8552e24 100644
--- a/src/sol/pario/numpy_reader.cc
+++ b/src/sol/pario/numpy_reader.cc
@@ -29,7 +29,7 @@ int NumpyReader::Open(const std::string& path, const char* mode) {
 void NumpyReader::Rewind() { this->x_idx_ = 0; }
 
 std::string NumpyReader::GeneratePath(double* x, double* y, int rows, int cols,
-                                      int stride) {
+                                      long long stride) {
   ostringstream path;
   path << (long long)(x) << ";" << (long long)(y) << ";" << rows << ";" << cols
        << ";" << stride;
@@ -53,7 +53,7 @@ int ParseAddr(T& dst, const std::string& src) {
 }
 
 int NumpyReader::ParsePath(const std::string& path, double*& x, double*& y,
-                           int& rows, int& cols, int& stride) {
+                           int& rows, int& cols, long long& stride) {
   const vector<string>& parts = split(path, ';');
   if (parts.size() != 5) {
     fprintf(stderr, "invalid address (%s) for numpy reader\n", path.c_str());
@@ -68,7 +68,7 @@ int NumpyReader::ParsePath(const std::string& path, double*& x, double*& y,
   if (ret != Status_OK) return ret;
   ret = ParseAddr<int>(cols, parts[3]);
   if (ret != Status_OK) return ret;
-  ret = ParseAddr<int>(stride, parts[4]);
+  ret = ParseAddr<long long>(stride, parts[4]);
   return ret;
 }
 
-- 
2.43.0


From cdec1dce2b006a93a330f8bc259c189d69f7b4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:08 +0000
Subject: [PATCH 77/81] fix: a batch size or number of buffers below 1 made the
 iterator hang or crash

---
 include/sol/pario/data_iter.h |  4 ++--
 src/sol/pario/data_iter.cc    | 13 ++++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/sol/pario/data_iter.h b/include/sol/pario/data_iter.h
index 895d9d3..f0b4321 100755
--- a/include/sol/pario/data_iter.h
+++ b/include/sol/pario/data_iter.h
@@ -26,8 +26,8 @@ class SOL_EXPORTS DataIter {
  public:
   /// \brief  Create a new Data Iterator
   ///
-  /// \param batch_size size of minibatch
-  /// \param batch_num number of mini-batches in buffer
+  /// \param batch_size size of minibatch (at least 1)
+  /// \param batch_num number of mini-batches in buffer (at least 1)
   DataIter(int batch_size = 256, int batch_num = 2);
   virtual ~DataIter();
 
diff --git a/src/sol/pario/data_iter.cc b/src/sol/pario/data_iter.cc
index 4e444e6..8c494f3 100755
--- a/src/sol/pario/data_iter.cc
+++ b/src/sol/pario/data_iter.cc
@@ -7,6 +7,9 @@
 **********************************************************************************/
 
 #include "sol/pario/data_iter.h"
+
+#include <algorithm>
+
 #include "sol/util/util.h"
 
 using namespace std;
@@ -14,12 +17,12 @@ using namespace std;
 namespace sol {
 namespace pario {
 DataIter::DataIter(int batch_size, int batch_num)
-    : batch_size_(batch_size),
-      mini_batch_factory_(batch_num),
-      mini_batch_buf_(batch_num),
+    : batch_size_((std::max)(batch_size, 1)),
+      mini_batch_factory_((std::max)(batch_num, 1)),
+      mini_batch_buf_((std::max)(batch_num, 1)),
       status_(Status_OK) {
-  for (int i = 0; i < batch_num; ++i) {
-    this->mini_batch_factory_.Enqueue(new MiniBatch(batch_size));
+  for (int i = 0; i < (std::max)(batch_num, 1); ++i) {
+    this->mini_batch_factory_.Enqueue(new MiniBatch(this->batch_size_));
   }
   // signal to start next reader
   this->mini_batch_buf_.Enqueue(nullptr);
-- 
2.43.0


From 8f7848b9f1e9a80183f47050aa9745090aef1d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:20 +0000
Subject: [PATCH 78/81] fix: training silently did nothing with a cost margin
 and a loss without margin

---
 include/sol/model/online_model.h |  2 ++
 src/sol/model/online_model.cc    | 25 +++++++++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/sol/model/online_model.h b/include/sol/model/online_model.h
index 84efdec..d9b8474 100644
--- a/include/sol/model/online_model.h
+++ b/include/sol/model/online_model.h
@@ -73,6 +73,8 @@ class OnlineModel : public Model {
 
  protected:
   void set_initial_t(int initial_t);
+  /// \brief  throw invalid_argument if a loss has no margin to weigh costs
+  void CheckCostLoss(const loss::Loss* loss) const;
   virtual void update_dim(index_t dim) { this->dim_ = dim; }
 
  protected:
diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index cde3213..c76bdba 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -14,6 +14,7 @@
 #include <iostream>
 #include <iomanip>
 #include <cmath>
+#include <memory>
 
 using namespace std;
 using namespace sol::pario;
@@ -105,6 +106,7 @@ void OnlineModel::SetParameter(const std::string& name,
           "cost sensitive learning is only allowed in binary classification "
           "yet");
     }
+    this->CheckCostLoss(this->loss_);
     float cost_margin = stof(value);
     Check(cost_margin > 0);
     this->cost_margin_ = cost_margin;
@@ -119,19 +121,26 @@ void OnlineModel::SetParameter(const std::string& name,
     DeletePointer(this->iter_displayer_);
     this->iter_displayer_ = new StepIterDisplayer(step);
   } else {
+    if (name == "loss" && this->cost_sensitive_learning_) {
+      std::unique_ptr<loss::Loss> new_loss(loss::Loss::Create(value));
+      Check(new_loss != nullptr);
+      this->CheckCostLoss(new_loss.get());
+    }
     Model::SetParameter(name, value);
   }
 }
 
-void OnlineModel::BeginTrain() {
-  if (this->cost_sensitive_learning_) {
-    if ((this->loss_->type() & loss::Loss::Type::HINGE) == 0 ||
-        (this->loss_->type() & loss::Loss::Type::BC) == 0) {
-      throw invalid_argument(
-          "only hinge-based loss functions of binary classification are "
-          "allowed in cost sensitive learning");
-    }
+void OnlineModel::CheckCostLoss(const loss::Loss* loss) const {
+  if (loss == nullptr || (loss->type() & loss::Loss::Type::HINGE) == 0 ||
+      (loss->type() & loss::Loss::Type::BC) == 0) {
+    throw invalid_argument(
+        "only hinge-based loss functions of binary classification are "
+        "allowed in cost sensitive learning");
   }
+}
+
+void OnlineModel::BeginTrain() {
+  if (this->cost_sensitive_learning_) this->CheckCostLoss(this->loss_);
 
   Model::BeginTrain();
 }
-- 
2.43.0


From 117dcbc40d3e5eb6f7f8c022eb5cb6b983a2fedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:41 +0000
Subject: [PATCH 79/81] fix: cw and eccw: keep counting the variance of the
 bias after a setting changed

The margin function was set up with the bias step of the moment, which is
zero if the last update step was; the variance of the bias was then left
out for the rest of the training.
---
 src/sol/model/olm/cw.cc   | 2 +-
 src/sol/model/olm/eccw.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sol/model/olm/cw.cc b/src/sol/model/olm/cw.cc
index f8f8036..5106a38 100644
--- a/src/sol/model/olm/cw.cc
+++ b/src/sol/model/olm/cw.cc
@@ -63,7 +63,7 @@ void CW::BeginTrain() {
   OnlineLinearModel::BeginTrain();
   math::Vector<real_t>* sigmas = this->Sigmas_;
   float* vt = &this->Vi_;
-  float bias_eta = this->bias_eta();
+  float bias_eta = this->bias_eta0_;
   float phi = this->phi_;
 
   this->hinge_base_->set_margin([sigmas, vt, bias_eta, phi](
diff --git a/src/sol/model/olm/eccw.cc b/src/sol/model/olm/eccw.cc
index 1ee9b87..5d60089 100644
--- a/src/sol/model/olm/eccw.cc
+++ b/src/sol/model/olm/eccw.cc
@@ -64,7 +64,7 @@ void ECCW::BeginTrain() {
   OnlineLinearModel::BeginTrain();
   math::Vector<real_t>* sigmas = this->Sigmas_;
   float* vt = &this->vi_;
-  float bias_eta = this->bias_eta();
+  float bias_eta = this->bias_eta0_;
   float phi = this->phi_;
 
   this->hinge_base_->set_margin([sigmas, vt, bias_eta, phi](
-- 
2.43.0


From 4f9d57782d1496c501715e85ba3eff77c00861de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:56 +0000
Subject: [PATCH 80/81] fix: report training progress at the configured counts
 when they change during training

A schedule set after some examples reported every example until it had
caught up.
---
 src/sol/model/online_model.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sol/model/online_model.cc b/src/sol/model/online_model.cc
index c76bdba..c2e1ae4 100644
--- a/src/sol/model/online_model.cc
+++ b/src/sol/model/online_model.cc
@@ -160,7 +160,12 @@ float OnlineModel::Train(DataIter& data_iter) {
   size_t next_show_time = size_t(-1);
 
   if (this->iter_displayer_ != nullptr) {
-    next_show_time = this->iter_displayer_->next_show_time();
+    // a displayer set during training starts at its next point of time
+    do {
+      next_show_time = this->iter_displayer_->next_show_time();
+      if (next_show_time > this->cur_data_num_) break;
+      this->iter_displayer_->next();
+    } while (this->iter_displayer_->next_show_time() > next_show_time);
     if (this->iter_callback_ == DefaultIterateFunction &&
         this->cur_data_num_ == 0) {
       cout << "Training Process....\nData No.\tIterate No.\tError Rate\tUpdate "
-- 
2.43.0


From e89ea14890d6ee1f255b8ed39b40ccddc3bae19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:27 +0000
Subject: [PATCH 81/81] fix: lsol_c reported success when the predictions
 cannot be written

---
 include/sol/c_api.h | 2 +-
 src/sol/c_api.cc    | 5 ++++-
 tools/lsol_c.cc     | 7 ++++++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/sol/c_api.h b/include/sol/c_api.h
index d832205..edce382 100644
--- a/include/sol/c_api.h
+++ b/include/sol/c_api.h
@@ -122,7 +122,7 @@ SOL_EXPORTS float sol_Train(void* model, void* data_iter);
 /// \param output_path path to save the predicted results, if no need, leave it
 /// empty
 ///
-/// \return test accuracy
+/// \return test error rate, -1 if the results cannot be saved
 SOL_EXPORTS float sol_Test(void* model, void* data_iter,
                            const char* output_path);
 
diff --git a/src/sol/c_api.cc b/src/sol/c_api.cc
index b26d63f..5f93cbb 100644
--- a/src/sol/c_api.cc
+++ b/src/sol/c_api.cc
@@ -106,7 +106,10 @@ float sol_Test(void* model, void* data_iter, const char* output_path) {
   DataIter* iter = (DataIter*)(data_iter);
   if (output_path != nullptr) {
     ofstream out_file(output_path, ios::out);
-    return m->Test(*iter, &out_file);
+    if (!out_file) return -1.f;
+    float err_rate = m->Test(*iter, &out_file);
+    out_file.close();
+    return out_file ? err_rate : -1.f;
   } else {
     return m->Test(*iter, nullptr);
   }
diff --git a/tools/lsol_c.cc b/tools/lsol_c.cc
index ff40705..f3445b3 100644
--- a/tools/lsol_c.cc
+++ b/tools/lsol_c.cc
@@ -135,7 +135,12 @@ int test(cmdline::parser& parser) {
     }
 
     float err_rate = sol_Test(model, data_iter, output_path);
-    fprintf(stdout, "test accuracy: %.4f\n", 1.f - err_rate);
+    if (err_rate < 0) {
+      fprintf(stderr, "write file %s failed\n", output_path);
+      ret = Status_IO_Error;
+    } else {
+      fprintf(stdout, "test accuracy: %.4f\n", 1.f - err_rate);
+    }
   }
 
   sol_ReleaseModel(&model);
-- 
2.43.0

