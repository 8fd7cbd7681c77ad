From 306853d8f242e64c60962f5665ffd1333e1a78c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:33 +0000
Subject: [PATCH 01/36] fix: Index_carry accepted a position equal to the
 length of the index

---
 src/cpu-kernels/awkward_Index_carry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_Index_carry.cpp b/src/cpu-kernels/awkward_Index_carry.cpp
index 3b1dfc5..4a8b514 100644
--- a/src/cpu-kernels/awkward_Index_carry.cpp
+++ b/src/cpu-kernels/awkward_Index_carry.cpp
@@ -13,7 +13,7 @@ ERROR awkward_index_carry(
   int64_t length) {
   for (int64_t i = 0;  i < length;  i++) {
     T j = carry[i];
-    if (j > lenfromindex) {
+    if (j >= lenfromindex) {
       return failure("index out of range", kSliceNone, j, FILENAME(__LINE__));
     }
     toindex[i] = fromindex[(size_t)(j)];
-- 
2.43.0


From ea57abc541ba0224ef3ce68659ee682563ee0bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:00 +0000
Subject: [PATCH 02/36] fix: broadcasting option-type arrays must not overwrite
 the first array's mask

ByteMaskedArray.bytemask() returns the array's own mask buffer when
valid_when is false, so or-ing the other masks into it in place made
elements of an existing array missing.
---
 src/awkward/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 76bde2e..e4b5412 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -753,7 +753,7 @@ def broadcast_and_apply(  # noqa: C901
                     if mask is None:
                         mask = m
                     else:
-                        nplike.bitwise_or(mask, m, out=mask)
+                        mask = nplike.bitwise_or(mask, m)
 
             nextmask = ak.layout.Index8(mask.view(np.int8))
             index = nplike.full(len(mask), -1, dtype=np.int64)
-- 
2.43.0


From c3921d52a26b373f47f0cffd8a1e820cac98c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 03/36] fix: Forth reads of a negative or overflowing number of
 items must stop with 'read beyond'

---
 src/libawkward/forth/ForthInputBuffer.cpp | 5 ++---
 src/libawkward/forth/ForthMachine.cpp     | 7 +++++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/forth/ForthInputBuffer.cpp b/src/libawkward/forth/ForthInputBuffer.cpp
index 13807d6..c6b5e2c 100644
--- a/src/libawkward/forth/ForthInputBuffer.cpp
+++ b/src/libawkward/forth/ForthInputBuffer.cpp
@@ -15,15 +15,14 @@ namespace awkward {
 
   void*
   ForthInputBuffer::read(int64_t num_bytes, util::ForthError& err) noexcept {
-    int64_t next = pos_ + num_bytes;
-    if (next > length_) {
+    if (num_bytes < 0  ||  num_bytes > length_ - pos_) {
       err = util::ForthError::read_beyond;
       return nullptr;
     }
     void* out = reinterpret_cast<void*>(
         reinterpret_cast<size_t>(ptr_.get()) + (size_t)offset_ + (size_t)pos_
     );
-    pos_ = next;
+    pos_ += num_bytes;
     return out;
   }
 
diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 78474f9..2d51f6c 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2,6 +2,7 @@
 
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/forth/ForthMachine.cpp", line)
 
+#include <limits>
 #include <sstream>
 #include <stdexcept>
 #include <chrono>
@@ -2688,6 +2689,12 @@ namespace awkward {
               return;
             }
             num_items = stack_pop();
+            if (num_items < 0  ||
+                num_items > std::numeric_limits<int64_t>::max() / (int64_t)sizeof(int64_t)) {
+              // the number of bytes to read would be negative or would overflow
+              current_error_ = util::ForthError::read_beyond;
+              return;
+            }
           }
 
           I format = ~bytecode & READ_MASK;
-- 
2.43.0


From ad6e30cec5654172e554d30d76cce4b1f86c44ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 04/36] fix: Forth 'rewind' by a negative number of items moved
 past the end of the output

---
 src/libawkward/forth/ForthOutputBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index 6fdd512..a4e640f 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -67,7 +67,7 @@ namespace awkward {
   void
   ForthOutputBuffer::rewind(int64_t num_items, util::ForthError& err) noexcept {
     int64_t next = length_ - num_items;
-    if (next < 0) {
+    if (num_items < 0  ||  next < 0) {
       err = util::ForthError::rewind_beyond;
     }
     else {
-- 
2.43.0


From 1d43c25e89e551178c0594a367569c5c349eed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 05/36] fix: Forth '/', 'mod' and '/mod' of the minimum integer
 by -1 killed the process (SIGFPE)

---
 src/libawkward/forth/ForthMachine.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 2d51f6c..fbe6d65 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3542,6 +3542,11 @@ namespace awkward {
                 current_error_ = util::ForthError::division_by_zero;
                 return;
               }
+              if (pair[1] == -1) {
+                // C++ integer division would trap on the minimum integer.
+                pair[0] = -pair[0];
+                break;
+              }
               // Forth (gforth, at least) does floor division; C++ does integer division.
               // This makes a difference for negative numerator or denominator.
               T tmp = pair[0] / pair[1];
@@ -3559,6 +3564,11 @@ namespace awkward {
                 current_error_ = util::ForthError::division_by_zero;
                 return;
               }
+              if (pair[1] == -1) {
+                // C++ remainder would trap on the minimum integer.
+                pair[0] = 0;
+                break;
+              }
               // Forth (gforth, at least) does modulo; C++ does remainder.
               // This makes a difference for negative numerator or denominator.
               pair[0] = (pair[1] + (pair[0] % pair[1])) % pair[1];
@@ -3576,6 +3586,12 @@ namespace awkward {
                 current_error_ = util::ForthError::division_by_zero;
                 return;
               }
+              if (two == -1) {
+                // See notes on the minimum integer above.
+                stack_buffer_[stack_depth_ - 1] = -one;
+                stack_buffer_[stack_depth_ - 2] = 0;
+                break;
+              }
               // See notes on division and modulo/remainder above.
               T tmp = one / two;
               stack_buffer_[stack_depth_ - 1] =
-- 
2.43.0


From 3f399d3be904879cfcb4d2e065de756e52d8f8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 06/36] fix: Forth begin and call pushed onto the return stack
 without checking its size

---
 src/libawkward/forth/ForthMachine.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index fbe6d65..e56e677 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -249,6 +249,13 @@ namespace awkward {
     , count_writes_(0)
     , count_nanoseconds_(0)
   {
+    if (recursion_max_depth_ < 1) {
+      throw std::invalid_argument(
+        std::string("AwkwardForth recursion depth must be at least 1")
+        + FILENAME(__LINE__)
+      );
+    }
+
     std::vector<std::string> tokenized;
     std::vector<std::pair<int64_t, int64_t>> linecol;
     tokenize(tokenized, linecol);
@@ -1235,6 +1242,11 @@ namespace awkward {
       return current_error_;
     }
 
+    if (recursion_current_depth_ == recursion_max_depth_) {
+      current_error_ = util::ForthError::recursion_depth_exceeded;
+      return current_error_;
+    }
+
     recursion_target_depth_.push(recursion_current_depth_);
     bytecodes_pointer_push(dictionary_bytecodes_[(IndexTypeOf<int64_t>)index] - BOUND_DICTIONARY);
 
-- 
2.43.0


From 6002ce357860047d6b9a87f9cc4101a89eccf2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:11 +0000
Subject: [PATCH 07/36] fix: Forth 'exit' dropped the caller's 'do' loops, so
 that 'i' was read from before the loop stack

---
 src/libawkward/forth/ForthMachine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index e56e677..d789544 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3174,7 +3174,7 @@ namespace awkward {
               bytecodes_pointer_where()++;
               recursion_current_depth_ -= exitdepth;
               while (do_current_depth_ != 0  &&
-                     do_abs_recursion_depth() != recursion_current_depth_) {
+                     do_abs_recursion_depth() >= recursion_current_depth_) {
                 do_current_depth_--;
               }
 
-- 
2.43.0


From 9a00ddb56152766c94a38c0b6306581daa974c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:39 +0000
Subject: [PATCH 08/36] fix: Forth inputs that are not contiguous were read
 outside of their memory

---
 src/python/forth.cpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/python/forth.cpp b/src/python/forth.cpp
index ae77a4d..98eab1b 100644
--- a/src/python/forth.cpp
+++ b/src/python/forth.cpp
@@ -90,6 +90,24 @@ py::object maybe_throw(const ak::ForthMachineOf<T, I>& self,
   }
 }
 
+int64_t
+contiguous_num_bytes(const py::buffer_info& info, const std::string& name) {
+  int64_t length = info.itemsize;
+  bool contiguous = true;
+  for (int64_t i = (int64_t)info.ndim - 1;  i >= 0;  i--) {
+    if (info.shape[(size_t)i] != 1  &&  info.strides[(size_t)i] != length) {
+      contiguous = false;
+    }
+    length *= info.shape[(size_t)i];
+  }
+  if (length != 0  &&  !contiguous) {
+    throw std::invalid_argument(
+        std::string("AwkwardForth input is not contiguous in memory: ")
+        + name + FILENAME(__LINE__));
+  }
+  return length;
+}
+
 template <typename T, typename I>
 py::class_<ak::ForthMachineOf<T, I>, std::shared_ptr<ak::ForthMachineOf<T, I>>>
 make_ForthMachineOf(const py::handle& m, const std::string& name) {
@@ -228,10 +246,7 @@ make_ForthMachineOf(const py::handle& m, const std::string& name) {
                 std::string name = pair.first.cast<std::string>();
                 py::buffer obj = pair.second.cast<py::buffer>();
                 py::buffer_info info = obj.request(self.input_must_be_writable(name));
-                int64_t length = info.itemsize;
-                for (auto x : info.shape) {
-                  length *= x;
-                }
+                int64_t length = contiguous_num_bytes(info, name);
                 std::shared_ptr<void> ptr = std::shared_ptr<uint8_t>(
                     reinterpret_cast<uint8_t*>(info.ptr), pyobject_deleter<uint8_t>(obj.ptr()));
                 ins[name] = std::make_shared<ak::ForthInputBuffer>(ptr, 0, length);
@@ -289,10 +304,7 @@ make_ForthMachineOf(const py::handle& m, const std::string& name) {
                 std::string name = pair.first.cast<std::string>();
                 py::buffer obj = pair.second.cast<py::buffer>();
                 py::buffer_info info = obj.request(self.input_must_be_writable(name));
-                int64_t length = info.itemsize;
-                for (auto x : info.shape) {
-                  length *= x;
-                }
+                int64_t length = contiguous_num_bytes(info, name);
                 std::shared_ptr<void> ptr = std::shared_ptr<uint8_t>(
                     reinterpret_cast<uint8_t*>(info.ptr), pyobject_deleter<uint8_t>(obj.ptr()));
                 ins[name] = std::make_shared<ak::ForthInputBuffer>(ptr, 0, length);
-- 
2.43.0


From e4eb1c0d932fb4c716f40b7c047348e02e839a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:34 +0000
Subject: [PATCH 09/36] fix: printing datetimes no longer shares gmtime's
 static buffer or crashes on NaT

---
 src/libawkward/array/NumpyArray.cpp | 30 ++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 1dc0ada..751622b 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5,6 +5,7 @@
 
 #include <algorithm>
 #include <complex>
+#include <ctime>
 #include <iomanip>
 #include <numeric>
 #include <sstream>
@@ -686,6 +687,25 @@ namespace awkward {
     }
   }
 
+  const std::string
+  datetime_tostring(time_t time) {
+    // std::gmtime shares one static buffer among all threads; also, a time
+    // that is not representable as a calendar date (including NaT) fails.
+    struct tm broken_down;
+#ifdef _MSC_VER
+    if (gmtime_s(&broken_down, &time) != 0) {
+      return "NaT";
+    }
+#else
+    if (gmtime_r(&time, &broken_down) == nullptr) {
+      return "NaT";
+    }
+#endif
+    char outbuf[30];
+    size_t length = strftime(outbuf, 30, "%Y-%m-%dT%H:%M:%S", &broken_down);
+    return std::string(outbuf, length);
+  }
+
   template <typename T>
   void tostring_as_datetime(kernel::lib ptr_lib,
                    std::stringstream& out,
@@ -696,7 +716,6 @@ namespace awkward {
                    const std::string& format) {
     const std::string units = util::format_to_units(format);
     double scale = util::scale_from_units(format, (uint64_t)util::datetime_units::s);
-    char outbuf[30];
 
     if (length <= 10) {
       for (int64_t i = 0;  i < length;  i++) {
@@ -707,8 +726,7 @@ namespace awkward {
         }
         if (dtype == util::dtype::datetime64) {
           time_t time = (int64_t)(kernel::NumpyArray_getitem_at0(ptr_lib, ptr2) * scale);
-          strftime(outbuf, 30, "%Y-%m-%dT%H:%M:%S", gmtime(&time));
-          out << outbuf;
+          out << datetime_tostring(time);
         }
         else if (dtype == util::dtype::timedelta64) {
           out << (int64_t)kernel::NumpyArray_getitem_at0(ptr_lib, ptr2);
@@ -728,8 +746,7 @@ namespace awkward {
         }
         if (dtype == util::dtype::datetime64) {
           time_t time = (int64_t)(kernel::NumpyArray_getitem_at0(ptr_lib, ptr2) * scale);
-          strftime(outbuf, 30, "%Y-%m-%dT%H:%M:%S", gmtime(&time));
-          out << outbuf;
+          out << datetime_tostring(time);
         }
         else if (dtype == util::dtype::timedelta64) {
           out << (int64_t)kernel::NumpyArray_getitem_at0(ptr_lib, ptr2);
@@ -748,8 +765,7 @@ namespace awkward {
         }
         if (dtype == util::dtype::datetime64) {
           time_t time = (int64_t)(kernel::NumpyArray_getitem_at0(ptr_lib, ptr2) * scale);
-          strftime(outbuf, 30, "%Y-%m-%dT%H:%M:%S", gmtime(&time));
-          out << outbuf;
+          out << datetime_tostring(time);
         }
         else if (dtype == util::dtype::timedelta64) {
           out << (int64_t)kernel::NumpyArray_getitem_at0(ptr_lib, ptr2);
-- 
2.43.0


From 5ffa5b8319f2a1d80ce5dedc6918c369ffcbadf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:34 +0000
Subject: [PATCH 10/36] fix: LayoutBuilder error ids restart for every builder,
 even after a failed construction

---
 src/libawkward/layoutbuilder/LayoutBuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/layoutbuilder/LayoutBuilder.cpp b/src/libawkward/layoutbuilder/LayoutBuilder.cpp
index 0a837c8..e46f8c1 100644
--- a/src/libawkward/layoutbuilder/LayoutBuilder.cpp
+++ b/src/libawkward/layoutbuilder/LayoutBuilder.cpp
@@ -162,11 +162,13 @@ namespace awkward {
                                        bool vm_init)
     : initial_(options.initial()),
       length_(8),
-      builder_(formBuilderFromA(form)),
+      builder_(nullptr),
       vm_(nullptr),
       vm_input_data_("data"),
       vm_source_() {
+    // error ids are numbered while the form builders are constructed
     LayoutBuilder::error_id = 0;
+    builder_ = formBuilderFromA(form);
     vm_source_ = std::string("variable err").append("\n");
     vm_source_.append("input ")
       .append(vm_input_data_).append("\n");
-- 
2.43.0


From 66f83632711c7672c684b4c25b9a8724166bdf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 11/36] fix: merging real arrays with complex arrays keeps
 every element

---
 src/libawkward/array/NumpyArray.cpp | 66 +++++++++++++++++++----------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 751622b..96ac53a 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -2697,7 +2697,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<float>>(
@@ -2705,7 +2706,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<float>>(
@@ -2713,7 +2715,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<float>>(
@@ -2721,7 +2724,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<float>>(
@@ -2729,7 +2733,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<float>>(
@@ -2737,7 +2742,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<float>>(
@@ -2745,7 +2751,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<float>>(
@@ -2753,7 +2760,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<float>>(
@@ -2761,7 +2769,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2774,7 +2783,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<float>>(
@@ -2782,7 +2792,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<float>>(
@@ -2811,7 +2822,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<double>>(
@@ -2819,7 +2831,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<double>>(
@@ -2827,7 +2840,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<double>>(
@@ -2835,7 +2849,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<double>>(
@@ -2843,7 +2858,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<double>>(
@@ -2851,7 +2867,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<double>>(
@@ -2859,7 +2876,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<double>>(
@@ -2867,7 +2885,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<double>>(
@@ -2875,7 +2894,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2888,7 +2908,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<double>>(
@@ -2896,7 +2917,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+            flatlength = flatlength * 2;
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<double>>(
-- 
2.43.0


From 756a7d2359f83488967a2b096393e928da9c9bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 12/36] fix: GrowableBuffer always makes room before it appends

---
 src/libawkward/builder/GrowableBuffer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/builder/GrowableBuffer.cpp b/src/libawkward/builder/GrowableBuffer.cpp
index 38cd6b6..8940aff 100644
--- a/src/libawkward/builder/GrowableBuffer.cpp
+++ b/src/libawkward/builder/GrowableBuffer.cpp
@@ -4,6 +4,7 @@
 
 #include "awkward/builder/GrowableBuffer.h"
 
+#include <algorithm>
 #include <complex>
 #include <cmath>
 #include <cstring>
@@ -123,7 +124,9 @@ namespace awkward {
   void
   GrowableBuffer<T>::append(T datum) {
     if (length_ == reserved_) {
-      set_reserved((int64_t)ceil(reserved_ * options_.resize()));
+      // always make room for at least one more, even if options_.resize() <= 1
+      set_reserved(std::max(reserved_ + 1,
+                            (int64_t)ceil(reserved_ * options_.resize())));
     }
     ptr_.get()[length_] = datum;
     length_++;
-- 
2.43.0


From b256da0ff8bcba4780fc4e99b0906aa87572bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:24 +0000
Subject: [PATCH 13/36] fix: a record key that is only a prefix of a number, or
 out of range, does not exist

---
 src/libawkward/util.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/util.cpp b/src/libawkward/util.cpp
index 0047d71..d0ccbac 100644
--- a/src/libawkward/util.cpp
+++ b/src/libawkward/util.cpp
@@ -516,10 +516,15 @@ namespace awkward {
         }
       }
       if (out == -1) {
+        size_t numchars = 0;
         try {
-          out = (int64_t) std::stoi(key);
+          out = (int64_t) std::stoi(key, &numchars);
         }
-        catch (std::invalid_argument err) {
+        catch (std::logic_error& err) {
+          // std::invalid_argument (not a number) or std::out_of_range
+          numchars = 0;
+        }
+        if (numchars == 0  ||  numchars != key.length()) {
           throw std::invalid_argument(
             std::string("key ") + quote(key)
             + std::string(" does not exist (not in record)") + FILENAME(__LINE__));
-- 
2.43.0


From cce60ab7c1148b4b42314c190f78dcfb8b2d8da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:46 +0000
Subject: [PATCH 14/36] fix: Form::fromjson no longer reads uninitialized flags

---
 src/libawkward/Content.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 39a6e99..b983ff3 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -294,10 +294,10 @@ namespace awkward {
         }
       }
 
-      bool isgen;
-      bool is64;
-      bool isU32;
-      bool is32;
+      bool isgen = false;
+      bool is64 = false;
+      bool isU32 = false;
+      bool is32 = false;
       std::string cls = json["class"].GetString();
 
       if (cls == std::string("NumpyArray")) {
-- 
2.43.0


From 8fdb582b4f31224d955d32d989f38472c2b53904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:46 +0000
Subject: [PATCH 15/36] fix: Form::fromjson accepts the 64-bit sizes that
 Form::tojson writes

---
 src/libawkward/Content.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index b983ff3..54670ac 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -312,7 +312,7 @@ namespace awkward {
           dtype = util::format_to_dtype(format, itemsize);
         }
         else if (json.HasMember("format")  &&  json["format"].IsString()  &&
-                 json.HasMember("itemsize")  &&  json["itemsize"].IsInt()) {
+                 json.HasMember("itemsize")  &&  json["itemsize"].IsInt64()) {
           format = json["format"].GetString();
           itemsize = json["itemsize"].GetInt64();
           dtype = util::format_to_dtype(format, itemsize);
@@ -325,7 +325,7 @@ namespace awkward {
         std::vector<int64_t> s;
         if (json.HasMember("inner_shape")  &&  json["inner_shape"].IsArray()) {
           for (auto& x : json["inner_shape"].GetArray()) {
-            if (x.IsInt()) {
+            if (x.IsInt64()) {
               s.push_back(x.GetInt64());
             }
             else {
@@ -446,7 +446,7 @@ namespace awkward {
             cls + std::string(" is missing its 'content'") + FILENAME(__LINE__));
         }
         FormPtr content = fromjson_part(json["content"]);
-        if (!json.HasMember("size")  ||  !json["size"].IsInt()) {
+        if (!json.HasMember("size")  ||  !json["size"].IsInt64()) {
           throw std::invalid_argument(
             cls + std::string(" is missing its 'size'") + FILENAME(__LINE__));
         }
-- 
2.43.0


From 60246eb80f83ad8c91bed5e3686826cba9b1bd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:46 +0000
Subject: [PATCH 16/36] fix: Index::str2form does not accept prefixes of the
 names it knows

---
 src/libawkward/Index.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libawkward/Index.cpp b/src/libawkward/Index.cpp
index 46fec2a..a8f895a 100644
--- a/src/libawkward/Index.cpp
+++ b/src/libawkward/Index.cpp
@@ -18,19 +18,19 @@
 namespace awkward {
   Index::Form
   Index::str2form(const std::string& str) {
-    if (strncmp(str.c_str(), "i8", str.length()) == 0) {
+    if (str == "i8") {
       return Index::Form::i8;
     }
-    else if (strncmp(str.c_str(), "u8", str.length()) == 0) {
+    else if (str == "u8") {
       return Index::Form::u8;
     }
-    else if (strncmp(str.c_str(), "i32", str.length()) == 0) {
+    else if (str == "i32") {
       return Index::Form::i32;
     }
-    else if (strncmp(str.c_str(), "u32", str.length()) == 0) {
+    else if (str == "u32") {
       return Index::Form::u32;
     }
-    else if (strncmp(str.c_str(), "i64", str.length()) == 0) {
+    else if (str == "i64") {
       return Index::Form::i64;
     }
     else {
-- 
2.43.0


From d2e2455cc6c16a048ae79e4dcffdbf80a265136c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:45 +0000
Subject: [PATCH 17/36] fix: validity error about a misplaced char or byte
 parameter dereferenced a null pointer

---
 src/libawkward/Content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 54670ac..751fc78 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1761,7 +1761,7 @@ namespace awkward {
         // }
       }
       else {
-        return (std::string("at ") + path + std::string(" (") + raw->classname()
+        return (std::string("at ") + path + std::string(" (") + classname()
                 + std::string("): __array__ = \"char\" only allowed for NumpyArray"));
       }
       return std::string("");
@@ -1816,7 +1816,7 @@ namespace awkward {
         // }
       }
       else {
-        return (std::string("at ") + path + std::string(" (") + raw->classname()
+        return (std::string("at ") + path + std::string(" (") + classname()
                 + std::string("): __array__ = \"byte\" only allowed for NumpyArray"));
       }
       return std::string("");
-- 
2.43.0


From ff46314ce9562687505759f5f66405ef67ddac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:24 +0000
Subject: [PATCH 18/36] fix: NumpyForms of dates, times and non-primitive
 formats survive JSON

---
 src/libawkward/Content.cpp          |  9 ++++++++-
 src/libawkward/array/NumpyArray.cpp | 10 +++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 751fc78..8d9ffc5 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -309,7 +309,14 @@ namespace awkward {
           NumpyForm* raw = dynamic_cast<NumpyForm*>(tmp.get());
           format = raw->format();
           itemsize = raw->itemsize();
-          dtype = util::format_to_dtype(format, itemsize);
+          dtype = raw->dtype();
+          // the units of dates and times are only in the format
+          if ((dtype == util::dtype::datetime64  ||
+               dtype == util::dtype::timedelta64)  &&
+              json.HasMember("format")  &&  json["format"].IsString()  &&
+              json["format"].GetString()[0] == format[0]) {
+            format = json["format"].GetString();
+          }
         }
         else if (json.HasMember("format")  &&  json["format"].IsString()  &&
                  json.HasMember("itemsize")  &&  json["itemsize"].IsInt64()) {
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 96ac53a..2226ce4 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -126,10 +126,18 @@ namespace awkward {
 
   void
   NumpyForm::tojson_part(ToJson& builder, bool verbose, bool toplevel) const {
-    std::string p = primitive();
+    std::string p;
+    if (dtype_ != util::dtype::NOT_PRIMITIVE) {
+      p = primitive();
+    }
+    // the units of dates and times are only in the format
+    bool has_units = ((dtype_ == util::dtype::datetime64  ||
+                       dtype_ == util::dtype::timedelta64)  &&
+                      format_ != util::dtype_to_format(dtype_));
     if (verbose  ||
         toplevel  ||
         p.empty()  ||
+        has_units  ||
         !inner_shape_.empty() ||
         has_identities_  ||
         !parameters_.empty()  ||
-- 
2.43.0


From 7d33402e80501f83f15d9ac38d686fc7abaa07ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:10 +0000
Subject: [PATCH 19/36] fix: RegularArray::getitem_range_nowrap slices its
 identities

---
 src/libawkward/array/RegularArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 79080b0..c470a92 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -646,7 +646,7 @@ namespace awkward {
       identities = identities_.get()->getitem_range_nowrap(start, stop);
     }
     return std::make_shared<RegularArray>(
-      identities_,
+      identities,
       parameters_,
       content_.get()->getitem_range_nowrap(start*size_, stop*size_),
       size_,
-- 
2.43.0


From 9c0e4ea80e1e324e6d612921259c9dea4257b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:48 +0000
Subject: [PATCH 20/36] fix: ak.packed keeps parameters and identities, and
 works on size-zero RegularArrays

---
 src/awkward/operations/structure.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 195463b..5a7bb90 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2198,7 +2198,10 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
             new_index[~is_none] = nplike.arange(len(new_index) - nplike.sum(is_none))
 
             return ak.layout.IndexedOptionArray64(
-                ak.layout.Index64(new_index), apply(layout.project(), depth, posaxis)
+                ak.layout.Index64(new_index),
+                apply(layout.project(), depth, posaxis),
+                layout.identities,
+                layout.parameters,
             )
 
         # Project indexed arrays
@@ -2236,7 +2239,11 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
         # UnmaskedArray just wraps another array
         elif isinstance(layout, ak.layout.UnmaskedArray):
-            return ak.layout.UnmaskedArray(apply(layout.content, depth, posaxis))
+            return ak.layout.UnmaskedArray(
+                apply(layout.content, depth, posaxis),
+                layout.identities,
+                layout.parameters,
+            )
 
         # UnionArrays can be simplified
         # and their contents too
@@ -2291,12 +2298,14 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
 
             # Truncate content if it is larger than a perfect
             # multiple of the RegularArray size
-            n, r = divmod(len(content), layout.size)
-            if r != 0:
-                content = truncate(content, n * layout.size)
+            content = truncate(content, len(layout) * layout.size)
 
             return ak.layout.RegularArray(
-                apply(content, depth + 1, posaxis), layout.size
+                apply(content, depth + 1, posaxis),
+                layout.size,
+                len(layout),
+                layout.identities,
+                layout.parameters,
             )
 
         # BitMaskedArrays can change length
-- 
2.43.0


From 82960889fa49a3fe84fd2292f209b2c6d09f36dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:40 +0000
Subject: [PATCH 21/36] fix: ak.isclose keeps the behavior of its inputs

---
 src/awkward/operations/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 5a7bb90..f1046de 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -4445,7 +4445,7 @@ def isclose(
         else:
             return None
 
-    behavior = ak._util.behaviorof(one, two, behavior=behavior)
+    behavior = ak._util.behaviorof(a, b, behavior=behavior)
     out = ak._util.broadcast_and_apply(
         [one, two], getfunction, behavior, pass_depth=False
     )
-- 
2.43.0


From c637d11db29a7af7a9b4e6448ef38129d7267701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:40 +0000
Subject: [PATCH 22/36] fix: ak.where keeps the behavior of its inputs

---
 src/awkward/operations/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index f1046de..98435e5 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1767,7 +1767,7 @@ def where(condition, *args, **kwargs):
             else:
                 return None
 
-        behavior = ak._util.behaviorof(akcondition, left, right)
+        behavior = ak._util.behaviorof(condition, *args)
         out = ak._util.broadcast_and_apply(
             [akcondition, left, right], getfunction, behavior, pass_depth=False
         )
-- 
2.43.0


From df999ea9002311597f01804296b6528ff8692b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:40 +0000
Subject: [PATCH 23/36] fix: ak.from_parquet of an empty dataset honours
 highlevel and behavior

---
 src/awkward/operations/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c1f2913..f820e7c 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -3931,9 +3931,10 @@ def from_parquet(
         dataset = _ParquetFileDataset(source, row_groups, columns, use_threads, options)
 
     if dataset.is_empty:
-        return ak.layout.RecordArray(
+        out = ak.layout.RecordArray(
             [ak.layout.EmptyArray() for _ in dataset.columns], dataset.columns, 0
         )
+        return ak._util.maybe_wrap(out, behavior, highlevel)
 
     if lazy:
         lazy_cache, hold_cache = _regularize_lazy_cache(lazy_cache)
-- 
2.43.0


From 2a4cb90bebb7bc43a4b1ade4d72f76df8a079406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:23 +0000
Subject: [PATCH 24/36] fix: ak.full_like with a dtype honours highlevel and
 behavior

---
 src/awkward/operations/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 98435e5..7b04fc8 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1275,8 +1275,8 @@ def full_like(array, fill_value, highlevel=True, behavior=None, dtype=None):
 
     out = ak._util.recursively_apply(layout, getfunction, pass_depth=False)
     if dtype is not None:
-        out = strings_astype(out, dtype)
-        out = values_astype(out, dtype)
+        out = strings_astype(out, dtype, highlevel=False)
+        out = values_astype(out, dtype, highlevel=False)
     if highlevel:
         return ak._util.wrap(out, ak._util.behaviorof(array, behavior=behavior))
     else:
-- 
2.43.0


From c8fed732a1a5be871fe9fd3a3b8787da1427167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:38 +0000
Subject: [PATCH 25/36] fix: Identities::getitem_at_nowrap steps by rows, not
 by single values

---
 src/libawkward/Identities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Identities.cpp b/src/libawkward/Identities.cpp
index 3cd55f3..a229496 100644
--- a/src/libawkward/Identities.cpp
+++ b/src/libawkward/Identities.cpp
@@ -332,8 +332,8 @@ namespace awkward {
         + FILENAME(__LINE__));
     }
     std::vector<T> out;
-    for (size_t i = (size_t)(offset_ + at);
-         i < (size_t)(offset_ + at + width_);
+    for (size_t i = (size_t)(offset_ + at*width_);
+         i < (size_t)(offset_ + (at + 1)*width_);
          i++) {
       out.push_back(ptr_.get()[i]);
     }
-- 
2.43.0


From d9c1be17edd81d1f68450a041c8829f60e201b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:46 +0000
Subject: [PATCH 26/36] fix: ArrayCache::newkey takes its number in one atomic
 step

---
 src/libawkward/virtual/ArrayCache.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libawkward/virtual/ArrayCache.cpp b/src/libawkward/virtual/ArrayCache.cpp
index c601592..d651598 100644
--- a/src/libawkward/virtual/ArrayCache.cpp
+++ b/src/libawkward/virtual/ArrayCache.cpp
@@ -9,9 +9,7 @@ namespace awkward {
 
   const std::string
   ArrayCache::newkey() {
-    std::string out = std::string("ak") + std::to_string(numkeys);
-    numkeys++;
-    return out;
+    return std::string("ak") + std::to_string(numkeys++);
   }
 
   // Note: if you're creating a pure C++ cache (and it's not ridiculously
-- 
2.43.0


From bbbe40b9dbaa6235d5323532959e6fe503e03587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:31 +0000
Subject: [PATCH 27/36] fix: records made by builders keep the caches of
 virtual arrays inside them

---
 src/libawkward/builder/RecordBuilder.cpp | 4 +---
 src/libawkward/builder/TupleBuilder.cpp  | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/libawkward/builder/RecordBuilder.cpp b/src/libawkward/builder/RecordBuilder.cpp
index 60036f0..d8e5f50 100644
--- a/src/libawkward/builder/RecordBuilder.cpp
+++ b/src/libawkward/builder/RecordBuilder.cpp
@@ -111,13 +111,11 @@ namespace awkward {
       contents.push_back(contents_[i].get()->snapshot());
       recordlookup.get()->push_back(keys_[i]);
     }
-    std::vector<ArrayCachePtr> caches;  // nothing is virtual here
     return std::make_shared<RecordArray>(Identities::none(),
                                          parameters,
                                          contents,
                                          recordlookup,
-                                         length_,
-                                         caches);
+                                         length_);
   }
 
   bool
diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index a6dd45e..f5e4786 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -73,13 +73,11 @@ namespace awkward {
     for (size_t i = 0;  i < contents_.size();  i++) {
       contents.push_back(contents_[i].get()->snapshot());
     }
-    std::vector<ArrayCachePtr> caches;  // nothing is virtual here
     return std::make_shared<RecordArray>(Identities::none(),
                                          util::Parameters(),
                                          contents,
                                          util::RecordLookupPtr(nullptr),
-                                         length_,
-                                         caches);
+                                         length_);
   }
 
   bool
-- 
2.43.0


From 9c16c43f605025de0fea62112d3b4d38517138a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:58 +0000
Subject: [PATCH 28/36] fix: assigning a layout to an array keeps the caches of
 that layout

---
 src/awkward/highlevel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/highlevel.py b/src/awkward/highlevel.py
index 41b82e3..2d033b3 100644
--- a/src/awkward/highlevel.py
+++ b/src/awkward/highlevel.py
@@ -329,6 +329,7 @@ class Array(
     def layout(self, layout):
         if isinstance(layout, (ak.layout.Content, ak.partition.PartitionedArray)):
             self._layout = layout
+            self._caches = ak._util.find_caches(layout)
             self._numbaview = None
         else:
             raise TypeError(
@@ -1639,6 +1640,7 @@ class Record(ak._connect._numpy.NDArrayOperatorsMixin):
     def layout(self, layout):
         if isinstance(layout, ak.layout.Record):
             self._layout = layout
+            self._caches = ak._util.find_caches(layout)
             self._numbaview = None
         else:
             raise TypeError(
-- 
2.43.0


From 13fcd935e9e2ceda26093f0932d9b583535fd514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:41 +0000
Subject: [PATCH 29/36] fix: Forth machine pushes values through the stack
 type, not the instruction type

ForthMachine64 truncated `len`, `pos`, `i`, `j`, `k` and varint/zigzag/nbit values to 32 bits when pushing them on its 64-bit stack, and took `abs` in int.
---
 src/libawkward/forth/ForthMachine.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index d789544..0b64e35 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3,6 +3,7 @@
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/forth/ForthMachine.cpp", line)
 
 #include <limits>
+#include <cstdlib>
 #include <sstream>
 #include <stdexcept>
 #include <chrono>
@@ -2943,7 +2944,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -2969,7 +2970,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -3236,7 +3237,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
               break;
             }
 
@@ -3247,7 +3248,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
               break;
             }
 
@@ -3343,7 +3344,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
+              stack_push((T)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
               break;
             }
 
@@ -3407,7 +3408,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_i());
+              stack_push((T)do_i());
               break;
             }
 
@@ -3416,7 +3417,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_j());
+              stack_push((T)do_j());
               break;
             }
 
@@ -3425,7 +3426,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_k());
+              stack_push((T)do_k());
               break;
             }
 
@@ -3649,7 +3650,7 @@ namespace awkward {
                 return;
               }
               T* top = stack_peek();
-              *top = abs(*top);
+              *top = std::abs(*top);
               break;
             }
 
-- 
2.43.0


From c7b6b74e24da13ec9f9991a462f8466448f4a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:41 +0000
Subject: [PATCH 30/36] fix: Forth words that merely begin with digits are not
 integer literals

---
 src/libawkward/forth/ForthMachine.cpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 0b64e35..4af6e0b 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1420,24 +1420,17 @@ namespace awkward {
   template <typename T, typename I>
   bool
   ForthMachineOf<T, I>::is_integer(const std::string& word, int64_t& value) const {
-    if (word.size() >= 2  &&  word.substr(0, 2) == std::string("0x")) {
-      try {
-        value = (int64_t)std::stoul(word.substr(2, word.size() - 2), nullptr, 16);
-      }
-      catch (std::invalid_argument& err) {
-        return false;
-      }
-      return true;
+    bool is_hex = (word.size() >= 2  &&  word.substr(0, 2) == std::string("0x"));
+    std::string digits = is_hex ? word.substr(2, word.size() - 2) : word;
+    size_t num_parsed = 0;
+    try {
+      value = (int64_t)std::stoul(digits, &num_parsed, is_hex ? 16 : 10);
     }
-    else {
-      try {
-        value = (int64_t)std::stoul(word, nullptr, 10);
-      }
-      catch (std::invalid_argument& err) {
-        return false;
-      }
-      return true;
+    catch (std::invalid_argument& err) {
+      return false;
     }
+    // A word that merely starts with digits is not an integer.
+    return num_parsed == digits.size();
   }
 
   template <typename T, typename I>
-- 
2.43.0


From 6aa2d9a5300a0cec0415a3ee503567021b086377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:41 +0000
Subject: [PATCH 31/36] fix: ForthMachine[word] returns the bytecode of that
 word

Control flow inside earlier definitions creates segments of its own, so the n-th word is not in segment n + 1.
---
 include/awkward/forth/ForthMachine.h  | 5 +++++
 src/libawkward/forth/ForthMachine.cpp | 6 ++++++
 src/python/forth.cpp                  | 3 ++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/awkward/forth/ForthMachine.h b/include/awkward/forth/ForthMachine.h
index a3061ae..92cd505 100644
--- a/include/awkward/forth/ForthMachine.h
+++ b/include/awkward/forth/ForthMachine.h
@@ -59,6 +59,11 @@ namespace awkward {
     const std::vector<std::string>
       dictionary() const;
 
+    /// @brief Segment of the #bytecodes that defines the word at `index` in the
+    /// #dictionary.
+    int64_t
+      dictionary_segment(int64_t index) const;
+
     /// @brief HERE
     int64_t
       stack_max_depth() const noexcept;
diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 4af6e0b..c5650be 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -718,6 +718,12 @@ namespace awkward {
     return dictionary_names_;
   }
 
+  template <typename T, typename I>
+  int64_t
+  ForthMachineOf<T, I>::dictionary_segment(int64_t index) const {
+    return dictionary_bytecodes_[(IndexTypeOf<int64_t>)index] - BOUND_DICTIONARY;
+  }
+
   template <typename T, typename I>
   int64_t
   ForthMachineOf<T, I>::stack_max_depth() const noexcept {
diff --git a/src/python/forth.cpp b/src/python/forth.cpp
index 98eab1b..0c7b496 100644
--- a/src/python/forth.cpp
+++ b/src/python/forth.cpp
@@ -149,7 +149,8 @@ make_ForthMachineOf(const py::handle& m, const std::string& name) {
                 }
               }
               ak::ContentPtr bytecodes = self.get()->bytecodes();
-              return box(bytecodes.get()->getitem_at_nowrap(index + 1));
+              return box(bytecodes.get()->getitem_at_nowrap(
+                  self.get()->dictionary_segment(index)));
             }
             else {
                 throw std::invalid_argument(
-- 
2.43.0


From a7462590d7ab55f23a63f46402362ed7f14eb62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:41 +0000
Subject: [PATCH 32/36] fix: a Forth input read big-endian anywhere must be
 writable

The flag was overwritten by the last read command, so a later read that swaps nothing hid an earlier one that swaps the buffer in place.
---
 src/libawkward/forth/ForthMachine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index c5650be..5b0b055 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1936,7 +1936,7 @@ namespace awkward {
         }
 
         input_names_.push_back(name);
-        input_must_be_writable_.push_back(true);
+        input_must_be_writable_.push_back(false);
 
         pos += 2;
       }
@@ -2368,7 +2368,9 @@ namespace awkward {
           else {
             must_be_writable &= ((bytecode & READ_BIGENDIAN) != 0);
           }
-          input_must_be_writable_[input_index] = must_be_writable;
+          if (must_be_writable) {
+            input_must_be_writable_[input_index] = true;
+          }
 
           bool good = true;
           I nbits = 0;
-- 
2.43.0


From bb7c071f85a44d2d3d6ba5a01a5102fb3d1a5feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:41 +0000
Subject: [PATCH 33/36] fix: Forth zigzag and n-bit reads into an output keep
 all their bits

---
 src/libawkward/forth/ForthMachine.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 5b0b055..6497e62 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2791,7 +2791,7 @@ namespace awkward {
                 stack_push((T)value);   // note: pushing value
               }
               else {
-                output->write_one_int64((T)value, false);   // note: writing value as signed
+                output->write_one_int64(value, false);   // note: writing value as signed
               }
             }
           }
@@ -2811,7 +2811,7 @@ namespace awkward {
               output = current_outputs_[(IndexTypeOf<int64_t>)out_num].get();
             }
 
-            uint64_t mask = (1 << bit_width) - 1;
+            uint64_t mask = bit_width < 64 ? ((uint64_t)1 << bit_width) - 1 : ~(uint64_t)0;
             uint64_t bits_wnd_l = 8;
             uint64_t bits_wnd_r = 0;
             int64_t items_remaining = num_items;
@@ -2847,7 +2847,7 @@ namespace awkward {
                   stack_push((T)tmp);
                 }
                 else {
-                  output->write_one_int64((T)tmp, false);
+                  output->write_one_int64((int64_t)tmp, false);
                 }
                 items_remaining--;
                 bits_wnd_r += (uint64_t)bit_width;
-- 
2.43.0


From 50385233d0fd68fb72f8d56c196cf114ea4c09f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:41 +0000
Subject: [PATCH 34/36] fix: datetime64 and timedelta64 scalars are signed

---
 src/python/content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/content.cpp b/src/python/content.cpp
index dc4da47..5da59d3 100644
--- a/src/python/content.cpp
+++ b/src/python/content.cpp
@@ -84,11 +84,11 @@ box(const std::shared_ptr<ak::Content>& content) {
                    reinterpret_cast<double*>(raw->data())));
         case ak::util::dtype::datetime64:
           return py::module::import("numpy").attr("datetime64")(
-                   reinterpret_cast<uint64_t*>(raw->data()),
+                   reinterpret_cast<int64_t*>(raw->data()),
                    ak::util::format_to_units(raw->format()));
         case ak::util::dtype::timedelta64:
           return py::module::import("numpy").attr("timedelta64")(
-                   reinterpret_cast<uint64_t*>(raw->data()),
+                   reinterpret_cast<int64_t*>(raw->data()),
                    ak::util::format_to_units(raw->format()));
         default:
           if (raw->ptr_lib() == ak::kernel::lib::cuda) {
-- 
2.43.0


From 7f3c69a2f7913aa28fc8579d143c90836d03cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:41 +0000
Subject: [PATCH 35/36] fix: DLPack type of datetime64 and timedelta64 is 64
 bits wide

---
 src/python/dlpack_util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/dlpack_util.cpp b/src/python/dlpack_util.cpp
index ccfcfdf..fff564f 100644
--- a/src/python/dlpack_util.cpp
+++ b/src/python/dlpack_util.cpp
@@ -40,9 +40,9 @@ namespace awkward {
       case ak::util::dtype::float128:
         return {kDLFloat, 128, 1};
       case ak::util::dtype::datetime64:
-        return {kDLInt, 8, 1};
+        return {kDLInt, 64, 1};
       case ak::util::dtype::timedelta64:
-        return {kDLInt, 8, 1};
+        return {kDLInt, 64, 1};
       default:
         break;
       }
-- 
2.43.0


From 4760160338c7306547db642766dbadc44a8ee781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:41 +0000
Subject: [PATCH 36/36] fix: NumpyForm.to_numpy of dates is not boolean

---
 src/python/forms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/forms.cpp b/src/python/forms.cpp
index 280f309..5d76f69 100644
--- a/src/python/forms.cpp
+++ b/src/python/forms.cpp
@@ -514,10 +514,10 @@ make_NumpyForm(const py::handle& m, const std::string& name) {
           dt = "c32";
           break;
         case ak::util::dtype::datetime64:
-          dt = "?";
+          dt = self.format();
           break;
         case ak::util::dtype::timedelta64:
-          dt = "?";
+          dt = self.format();
           break;
         default:
           // FIXME: record arrays; need to parse 'format'
-- 
2.43.0

