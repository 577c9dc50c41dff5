From 4cedc9c544fdf2678233fc337a9ddd5c32e030bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 01/80] fix: ParallelizeResize with a value aborts when it
 shrinks the container

The number of elements to initialise underflowed when the container had
more elements than the requested size.
---
 tachyon/base/parallelize.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/parallelize.h b/tachyon/base/parallelize.h
index 281898d..2be208d 100644
--- a/tachyon/base/parallelize.h
+++ b/tachyon/base/parallelize.h
@@ -311,6 +311,7 @@ void ParallelizeResize(Container& container, size_t size,
   if (container.capacity() > size) {
     size_t old_size = container.size();
     container.resize(size);
+    if (size <= old_size) return;
     auto init_span = absl::MakeSpan(container).last(size - old_size);
     Parallelize(
         init_span,
-- 
2.43.0


From a6b1042ddbacb1d8279890c30ffd47c2d75647d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:35 +0000
Subject: [PATCH 02/80] fix: PointXYZZ conversions ignore zzz when zz is one

---
 .../math/elliptic_curves/short_weierstrass/point_xyzz.h   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
index 80333cf..e2709ad 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
@@ -149,7 +149,7 @@ class PointXYZZ<_Curve,
       const PointXYZZ& point_xyzz = point_xyzzs[i];
       if (point_xyzz.zz_.IsZero()) {
         (*affine_points)[i] = AffinePoint<Curve>::Zero();
-      } else if (point_xyzz.zz_.IsOne()) {
+      } else if (point_xyzz.zz_.IsOne() && point_xyzz.zzz_.IsOne()) {
         (*affine_points)[i] = {point_xyzz.x_, point_xyzz.y_};
       } else {
         const BaseField& z_inv_cubic = zzz_inverses[i];
@@ -199,7 +199,7 @@ class PointXYZZ<_Curve,
   constexpr AffinePoint<Curve> ToAffine() const {
     if (IsZero()) {
       return AffinePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_};
     } else {
       // NOTE(ashjeong): if |zzz_| is 0, |IsZero()| will also evaluate to true,
@@ -216,7 +216,7 @@ class PointXYZZ<_Curve,
   constexpr ProjectivePoint<Curve> ToProjective() const {
     if (IsZero()) {
       return ProjectivePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       return {x_ * zzz_, y_ * zz_, zz_ * zzz_};
@@ -228,7 +228,7 @@ class PointXYZZ<_Curve,
   constexpr JacobianPoint<Curve> ToJacobian() const {
     if (IsZero()) {
       return JacobianPoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       BaseField z = zz_ * zzz_;
-- 
2.43.0


From d485fc7dc92508fe67372f9072a6ecc1bfaca820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 03/80] fix: RationalField::BatchEvaluate ignores its
 coefficient

---
 tachyon/math/base/rational_field.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index eb1bc8f..d03d9f3 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -61,13 +61,13 @@ class RationalField : public Field<RationalField<F>> {
       return false;
     }
     base::Parallelize(*results,
-                      [&ration_fields](absl::Span<F> chunk, size_t chunk_offset,
+                      [&ration_fields, &coeff](absl::Span<F> chunk, size_t chunk_offset,
                                        size_t chunk_size) {
                         size_t start = chunk_offset * chunk_size;
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] = ration_fields[start + i].denominator_;
                         }
-                        CHECK(F::BatchInverseInPlaceSerial(chunk));
+                        CHECK(F::BatchInverseInPlaceSerial(chunk, coeff));
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] *= ration_fields[start + i].numerator_;
                         }
-- 
2.43.0


From a85d982977d620d9257a2b7a99e92bba421072c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:45 +0000
Subject: [PATCH 04/80] fix: RationalField::IsOne and IsMinusOne ignore the
 denominator

---
 tachyon/math/base/rational_field.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index d03d9f3..cc3e462 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -81,11 +81,11 @@ class RationalField : public Field<RationalField<F>> {
   constexpr bool IsZero() const { return numerator_.IsZero(); }
 
   constexpr bool IsOne() const {
-    return numerator_.IsOne() || numerator_ == denominator_;
+    return numerator_ == denominator_;
   }
 
   constexpr bool IsMinusOne() const {
-    return numerator_.IsMinusOne() || (numerator_ + denominator_).IsZero();
+    return (numerator_ + denominator_).IsZero();
   }
 
   std::string ToString() const {
-- 
2.43.0


From fc1c06803d6fbd41c34d5f6ddc8ea6ff985bc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 05/80] fix: MemoryMappedFile never unmaps a region that is not
 page-aligned

CloseHandles() passed the address of the requested region to munmap(), which
refuses addresses that are not page-aligned, so the mapping leaked.
---
 tachyon/base/files/memory_mapped_file_posix.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/files/memory_mapped_file_posix.cc b/tachyon/base/files/memory_mapped_file_posix.cc
index e5ccdfe..2c8c6b7 100644
--- a/tachyon/base/files/memory_mapped_file_posix.cc
+++ b/tachyon/base/files/memory_mapped_file_posix.cc
@@ -138,7 +138,15 @@ void MemoryMappedFile::CloseHandles() {
   // ScopedBlockingCall scoped_blocking_call(FROM_HERE, BlockingType::MAY_BLOCK);
 
   if (!bytes_.empty()) {
-    munmap(bytes_.data(), bytes_.size());
+    // |bytes_| may begin in the middle of a page, whereas munmap() takes the
+    // page-aligned address that mmap() returned.
+    int64_t aligned_start = 0;
+    size_t aligned_size = 0u;
+    int32_t data_offset = 0;
+    CalculateVMAlignedBoundaries(reinterpret_cast<intptr_t>(bytes_.data()),
+                                 bytes_.size(), &aligned_start, &aligned_size,
+                                 &data_offset);
+    munmap(bytes_.data() - data_offset, aligned_size);
   }
   file_.Close();
   bytes_ = absl::Span<uint8_t>();
-- 
2.43.0


From fd85774e5123b87430a68f6cd81a0299fcde929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 06/80] fix: MemoryMappedFile maps and leaks a page for an
 empty region

An empty region at an unaligned offset has a non-empty aligned size, so it was
mapped and reported as a success although the object stayed invalid and never
unmapped it.
---
 tachyon/base/files/memory_mapped_file_posix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/base/files/memory_mapped_file_posix.cc b/tachyon/base/files/memory_mapped_file_posix.cc
index 2c8c6b7..0312aa1 100644
--- a/tachyon/base/files/memory_mapped_file_posix.cc
+++ b/tachyon/base/files/memory_mapped_file_posix.cc
@@ -68,7 +68,7 @@ bool MemoryMappedFile::MapFileRegionToMemory(
     byte_size = region.size;
   }
 
-  if (map_size == 0u) {
+  if (byte_size == 0u) {
     // mmap() requires `map_size > 0`, and this ensures an empty span indicates
     // invalid.
     return false;
-- 
2.43.0


From 1eae5c872fad9c61568c99d01503956ee9031b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 07/80] fix: ContentsEqual never returns when both files fail
 to be read

A read error leaves eof() unset on both streams, so the loop went on forever,
for example when given two directories.
---
 tachyon/base/files/file_util.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tachyon/base/files/file_util.cc b/tachyon/base/files/file_util.cc
index 89205f2..c1929e9 100644
--- a/tachyon/base/files/file_util.cc
+++ b/tachyon/base/files/file_util.cc
@@ -244,6 +244,13 @@ bool ContentsEqual(const FilePath& filename1, const FilePath& filename2) {
     file1.read(buffer1, BUFFER_SIZE);
     file2.read(buffer2, BUFFER_SIZE);
 
+    // A read error sets neither eof() nor a count, and would never end.
+    if (file1.bad() || file2.bad()) {
+      file1.close();
+      file2.close();
+      return false;
+    }
+
     if ((file1.eof() != file2.eof()) ||
         (file1.gcount() != file2.gcount()) ||
         (memcmp(buffer1, buffer2, static_cast<size_t>(file1.gcount())))) {
-- 
2.43.0


From 4fc3d500794241924cbe691e992a21d2eea5a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 08/80] fix: BinFile::Load leaves the previously mapped file
 visible

Loading without mmap after loading with it kept the old mapping, which
GetData() prefers, so the first file was still returned.
---
 tachyon/base/files/bin_file.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/files/bin_file.cc b/tachyon/base/files/bin_file.cc
index 7e116a6..91e0aad 100644
--- a/tachyon/base/files/bin_file.cc
+++ b/tachyon/base/files/bin_file.cc
@@ -25,6 +25,7 @@ bool BinFile::Load(const base::FilePath& path, bool use_mmap) {
       return false;
     }
     vec_ = std::move(vec).value();
+    map_.reset();
     return true;
   }
 }
-- 
2.43.0


From a7005d58dc678a5d06e78de14a83c059c976e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:58 +0000
Subject: [PATCH 09/80] fix: CopyDirectory takes an existing regular file for
 the directory to create

mkdir() failing with EEXIST does not mean that a directory exists. An empty
directory "copied" onto a file was reported as copied, and deleted by a move.
---
 tachyon/base/files/file_util_posix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index 4e1be38..baff86e 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -199,7 +199,7 @@ bool DoCopyDirectory(const FilePath& from_path,
       mode_t mode = (from_stat.st_mode & 01777) | S_IRUSR | S_IXUSR | S_IWUSR;
       if (mkdir(target_path.value().c_str(), mode) == 0)
         continue;
-      if (errno == EEXIST && !open_exclusive)
+      if (errno == EEXIST && !open_exclusive && DirectoryExists(target_path))
         continue;
 
       DPLOG(ERROR) << "CopyDirectory() couldn't create directory: "
-- 
2.43.0


From 4f00cf4968774cf4f931a6bdd41c4bf8a9fe96e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 10/80] fix: CopyDirectory reports success when the source
 could not be enumerated

Errors of opendir(), readdir() and lstat() were ignored, so entries were left
out of the copy while it was reported as complete; a move to another device
then deleted the source.
---
 tachyon/base/files/file_util_posix.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index baff86e..a37d455 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -163,7 +163,9 @@ bool DoCopyDirectory(const FilePath& from_path,
   int traverse_type = FileEnumerator::FILES | FileEnumerator::SHOW_SYM_LINKS;
   if (recursive)
     traverse_type |= FileEnumerator::DIRECTORIES;
-  FileEnumerator traversal(from_path, recursive, traverse_type);
+  FileEnumerator traversal(from_path, recursive, traverse_type, std::string(),
+                           FileEnumerator::FolderSearchPolicy::MATCH_ONLY,
+                           FileEnumerator::ErrorPolicy::STOP_ENUMERATION);
 
   // We have to mimic windows behavior here. |to_path| may not exist yet,
   // start the loop with |to_path|.
@@ -174,6 +176,7 @@ bool DoCopyDirectory(const FilePath& from_path,
                  << from_path.value();
     return false;
   }
+  const bool from_is_directory = S_ISDIR(from_stat.st_mode);
   FilePath from_path_base = from_path;
   if (recursive && DirectoryExists(to_path)) {
     // If the destination already exists and is a directory, then the
@@ -207,6 +210,12 @@ bool DoCopyDirectory(const FilePath& from_path,
       return false;
     }
 
+    // The enumerator leaves the information zeroed if it couldn't be read.
+    if (from_stat.st_mode == 0) {
+      DLOG(ERROR) << "CopyDirectory() couldn't stat: " << current.value();
+      return false;
+    }
+
     if (!S_ISREG(from_stat.st_mode)) {
       DLOG(WARNING) << "CopyDirectory() skipping non-regular file: "
                     << current.value();
@@ -267,6 +276,12 @@ bool DoCopyDirectory(const FilePath& from_path,
     }
   } while (AdvanceEnumeratorWithStat(&traversal, &current, &from_stat));
 
+  // There is nothing to enumerate if the source is a single file.
+  if (from_is_directory && traversal.GetError() != File::FILE_OK) {
+    DLOG(ERROR) << "CopyDirectory() couldn't enumerate: " << from_path.value();
+    return false;
+  }
+
   return true;
 }
 
-- 
2.43.0


From 5974e2c733ec522bb9bf20e9a7962dacdd4696f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:28 +0000
Subject: [PATCH 11/80] fix: CopyFile destroys a file that is copied onto
 itself

The destination was truncated before the source was read, and the copy was
reported as successful.
---
 tachyon/base/files/file_util_posix.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index a37d455..92fced5 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -1274,6 +1274,20 @@ bool CopyFile(const FilePath& from_path, const FilePath& to_path) {
   if (!infile.IsValid())
     return false;
 
+  // Opening the destination truncates it, so a file that is copied onto itself
+  // must be refused before that.
+  stat_wrapper_t from_info;
+  stat_wrapper_t to_info;
+  if (File::Fstat(infile.GetPlatformFile(), &from_info) != 0)
+    return false;
+  if (File::Stat(to_path.value().c_str(), &to_info) == 0) {
+    if (from_info.st_dev == to_info.st_dev &&
+        from_info.st_ino == to_info.st_ino)
+      return false;
+  } else if (errno != ENOENT) {
+    return false;
+  }
+
   File outfile(to_path, File::FLAG_WRITE | File::FLAG_CREATE_ALWAYS);
   if (!outfile.IsValid())
     return false;
-- 
2.43.0


From 03914b05b95b1a5ab1329fc3fff21f991be2e2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 12/80] fix: CopyDirectory takes a destination it can't examine
 for a missing one

When the destination could not be examined (permission, I/O error), it was
treated as missing: the check against copying a tree into itself was bypassed
and entries were put in the wrong place of the destination.
---
 tachyon/base/files/file_util_posix.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index 92fced5..25a1b5d 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -145,9 +145,18 @@ bool DoCopyDirectory(const FilePath& from_path,
     return false;
   }
 
+  // A destination that can't be examined must not be taken for a missing one.
+  stat_wrapper_t to_stat;
+  const bool to_exists = File::Stat(to_path.value().c_str(), &to_stat) == 0;
+  if (!to_exists && errno != ENOENT && errno != ENOTDIR) {
+    DPLOG(ERROR) << "CopyDirectory() couldn't stat destination: "
+                 << to_path.value();
+    return false;
+  }
+
   // This function does not properly handle destinations within the source
   FilePath real_to_path = to_path;
-  if (PathExists(real_to_path))
+  if (to_exists)
     real_to_path = MakeAbsoluteFilePath(real_to_path);
   else
     real_to_path = MakeAbsoluteFilePath(real_to_path.DirName());
@@ -178,7 +187,7 @@ bool DoCopyDirectory(const FilePath& from_path,
   }
   const bool from_is_directory = S_ISDIR(from_stat.st_mode);
   FilePath from_path_base = from_path;
-  if (recursive && DirectoryExists(to_path)) {
+  if (recursive && to_exists && S_ISDIR(to_stat.st_mode)) {
     // If the destination already exists and is a directory, then the
     // top level of source needs to be copied.
     from_path_base = from_path.DirName();
-- 
2.43.0


From 46e333e6383b028b8450c7043d3b6fe5e73d8b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 13/80] fix: sleeping for an unlimited duration aborted

---
 tachyon/base/threading/platform_thread_posix.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/threading/platform_thread_posix.cc b/tachyon/base/threading/platform_thread_posix.cc
index f2b509f..52c61b9 100644
--- a/tachyon/base/threading/platform_thread_posix.cc
+++ b/tachyon/base/threading/platform_thread_posix.cc
@@ -279,8 +279,12 @@ void PlatformThreadBase::Sleep(TimeDelta duration) {
   // NOTE: TimeDelta's microseconds are int64s while timespec's
   // nanoseconds are longs, so this unpacking must prevent overflow.
   sleep_time.tv_sec = static_cast<time_t>(duration.InSeconds());
-  duration -= Seconds(sleep_time.tv_sec);
-  sleep_time.tv_nsec = static_cast<long>(duration.InMicroseconds() * 1000);
+  sleep_time.tv_nsec = 0;
+  // NOTE: An infinite duration has no remainder.
+  if (!duration.is_inf()) {
+    duration -= Seconds(sleep_time.tv_sec);
+    sleep_time.tv_nsec = static_cast<long>(duration.InMicroseconds() * 1000);
+  }
 
   while (nanosleep(&sleep_time, &remaining) == -1 && errno == EINTR)
     sleep_time = remaining;
-- 
2.43.0


From 861eb8805ecac7a80a18192249ca549a2b795be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 14/80] fix: timespec conversions overflowed for extreme
 durations

---
 tachyon/base/time/time_conversion_posix.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tachyon/base/time/time_conversion_posix.cc b/tachyon/base/time/time_conversion_posix.cc
index 8865613..d247efa 100644
--- a/tachyon/base/time/time_conversion_posix.cc
+++ b/tachyon/base/time/time_conversion_posix.cc
@@ -12,17 +12,17 @@ namespace tachyon::base {
 
 // static
 TimeDelta TimeDelta::FromTimeSpec(const timespec& ts) {
-  return TimeDelta(ts.tv_sec * Time::kMicrosecondsPerSecond +
+  return TimeDelta(MakeClampedNum(ts.tv_sec) * Time::kMicrosecondsPerSecond +
                    ts.tv_nsec / Time::kNanosecondsPerMicrosecond);
 }
 
 struct timespec TimeDelta::ToTimeSpec() const {
+  // NOTE: InSeconds() is not used, since it does not scale an infinite delta
+  // and multiplying it back would overflow.
   int64_t microseconds = InMicroseconds();
-  time_t seconds = 0;
-  if (microseconds >= Time::kMicrosecondsPerSecond) {
-    seconds = static_cast<time_t>(InSeconds());
-    microseconds -= seconds * Time::kMicrosecondsPerSecond;
-  }
+  time_t seconds =
+      static_cast<time_t>(microseconds / Time::kMicrosecondsPerSecond);
+  microseconds %= Time::kMicrosecondsPerSecond;
   struct timespec result = {
       seconds,
       static_cast<long>(microseconds * Time::kNanosecondsPerMicrosecond)};
-- 
2.43.0


From 4109ead77688f2e65308206a75632f7101ebe5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:47 +0000
Subject: [PATCH 15/80] fix: concurrent first calls of cpu_allocator() each
 wrapped the allocator

---
 tachyon/device/allocator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tachyon/device/allocator.cc b/tachyon/device/allocator.cc
index c47de77..c0ecc4f 100644
--- a/tachyon/device/allocator.cc
+++ b/tachyon/device/allocator.cc
@@ -17,8 +17,10 @@ limitations under the License.
 
 #include <atomic>
 
+#include "absl/base/attributes.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_format.h"
+#include "absl/synchronization/mutex.h"
 
 #include "tachyon/device/allocator_registry.h"
 #include "tachyon/device/tracking_allocator.h"
@@ -70,6 +72,9 @@ std::string AllocatorAttributes::DebugString() const {
 }
 
 Allocator* cpu_allocator_base() {
+  ABSL_CONST_INIT static absl::Mutex mu(absl::kConstInit);
+  // Concurrent callers must not each wrap the allocator on their own.
+  absl::MutexLock lock(&mu);
   static Allocator* cpu_alloc = AllocatorFactoryRegistry::Get().GetAllocator();
   // TODO(tucker): This really seems wrong.  It's only going to be effective on
   // the first call in a process (but the desired effect is associated with a
-- 
2.43.0


From f589ab5bf6fa4fa3e76648c9d78159f461a71fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:20 +0000
Subject: [PATCH 16/80] fix: MulMatVec sized its result by the vector instead
 of the matrix rows

---
 tachyon/math/matrix/matrix_operations.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/matrix/matrix_operations.h b/tachyon/math/matrix/matrix_operations.h
index 19fe5a6..3dadc22 100644
--- a/tachyon/math/matrix/matrix_operations.h
+++ b/tachyon/math/matrix/matrix_operations.h
@@ -41,8 +41,9 @@ template <typename Derived, typename Derived2,
 math::Vector<F> MulMatVec(const Eigen::MatrixBase<Derived>& matrix,
                           const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
+  CHECK_EQ(matrix.cols(), vector.size());
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -56,8 +57,9 @@ template <typename Derived, typename Derived2,
 math::Vector<F> MulMatVecSerial(const Eigen::MatrixBase<Derived>& matrix,
                                 const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
+  CHECK_EQ(matrix.cols(), vector.size());
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -72,8 +74,9 @@ math::Vector<F> MulMatVec(
     const Eigen::MatrixBase<Derived>& matrix,
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
+  CHECK_EQ(matrix.cols(), vector.size());
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
@@ -98,8 +101,9 @@ math::Vector<F> MulMatVecSerial(
     const Eigen::MatrixBase<Derived>& matrix,
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
+  CHECK_EQ(matrix.cols(), vector.size());
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
-- 
2.43.0


From 033124e300a11e807a81575f0a490fc12391dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 17/80] fix: sparse matrix column count with empty or unsorted
 rows

---
 tachyon/math/matrix/sparse/sparse_matrix.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/matrix/sparse/sparse_matrix.h b/tachyon/math/matrix/sparse/sparse_matrix.h
index ae4f9bc..076ac32 100644
--- a/tachyon/math/matrix/sparse/sparse_matrix.h
+++ b/tachyon/math/matrix/sparse/sparse_matrix.h
@@ -97,11 +97,13 @@ class ELLSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
-    auto it = std::max_element(elements_list_.begin(), elements_list_.end(),
-                               [](const Elements& a, const Elements& b) {
-                                 return a.back().index < b.back().index;
-                               });
-    return it->back().index + 1;
+    size_t max_cols = 0;
+    for (const Elements& elements : elements_list_) {
+      for (const Element& element : elements) {
+        max_cols = std::max(max_cols, element.index + 1);
+      }
+    }
+    return max_cols;
   }
 
   size_t NonZeros() const {
@@ -247,6 +249,7 @@ class CSRSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
+    if (elements_.empty()) return 0;
     auto it = std::max_element(
         elements_.begin(), elements_.end(),
         [](const Element& a, const Element& b) { return a.index < b.index; });
-- 
2.43.0


From 3a65d1dbfa6a3d53ef9d1b1245646475088179fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:09 +0000
Subject: [PATCH 18/80] fix: keep a copy of the base term in the mixed-radix
 FFT

SerialFFT kept a reference into the row it then overwrote, so every transform
whose size has a factor of the small subgroup base was wrong.
---
 .../math/polynomials/univariate/mixed_radix_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 5331a8b..3e0420a 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -249,7 +249,7 @@ class MixedRadixEvaluationDomain
         for (size_t k = 0; k < n; k += q * m) {
           F w_j = F::One();  // ωⱼ is ωₘʲ
           for (size_t j = 0; j < m; ++j) {
-            const F& base_term = a[k + j];
+            const F base_term = a[k + j];
             F w_j_i = w_j;
             for (size_t i = 1; i < q; ++i) {
               terms[i - 1] = a[k + j + i * m];
-- 
2.43.0


From d733e41de3b7d2bb3a3118f58c4418e72dc77b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:17 +0000
Subject: [PATCH 19/80] fix: normalise filter polynomials by the coset offsets

A filter polynomial is 1 on the subdomain; for a domain with an offset the
offset's power was missing, and EvaluateFilterPolynomial ignored both.
---
 .../polynomials/univariate/univariate_evaluation_domain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
index e911a35..4d62c42 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
@@ -404,7 +404,8 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
                                          subdomain.offset_pow_size_}}));
     SparsePoly subdomain_vanishing_poly =
         subdomain.GetVanishingPolynomial() *
-        SparsePoly(SparseCoeffs({{0, size_as_field_element_}}));
+        SparsePoly(
+            SparseCoeffs({{0, size_as_field_element_ * offset_pow_size_}}));
     std::optional<DivResult<DensePoly>> result =
         domain_vanishing_poly.DivMod(subdomain_vanishing_poly);
     CHECK(result);
@@ -424,9 +425,10 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
     } else {
       const std::optional<F> div =
           EvaluateVanishingPolynomial(tau) /
-          (size_as_field_element_ * v_subdomain_of_tau);
+          (size_as_field_element_ * offset_pow_size_ * v_subdomain_of_tau);
       if (LIKELY(div)) {
-        return subdomain.size_as_field_element_ * *div;
+        return subdomain.size_as_field_element_ * subdomain.offset_pow_size_ *
+               *div;
       }
       return std::nullopt;
     }
-- 
2.43.0


From 2cb789e93e70c2d15d1bb51faf602cd1e3df4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 20/80] fix: CosetLDEBatch on a const matrix drops
 reverse_at_last

---
 tachyon/math/polynomials/univariate/radix2_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index aafcf3e..c4e78c7 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -123,7 +123,7 @@ class Radix2EvaluationDomain
       const Eigen::MatrixBase<Derived>& mat, size_t added_bits, F shift,
       Eigen::MatrixBase<Derived>& out, bool reverse_at_last = true) const {
     Derived mat_tmp = mat;
-    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out);
+    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out, reverse_at_last);
   }
 
   template <typename Derived>
-- 
2.43.0


From f6215c675291d4927af2a9103a4f70c5127d61f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:55 +0000
Subject: [PATCH 21/80] fix: keep packed-only twiddle factors apart in the
 cache

A domain created after CosetLDEBatch had cached packed factors of its size got
that item (insert does not replace), without the factors its FFT reads.
---
 .../univariate/radix2_twiddle_cache.h         | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
index d3ae1d9..6308479 100644
--- a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
+++ b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
@@ -4,7 +4,7 @@
 #include <stddef.h>
 
 #include <memory>
-#include <utility>
+#include <tuple>
 #include <vector>
 
 #include "absl/base/thread_annotations.h"
@@ -34,7 +34,6 @@ class Radix2TwiddleCache {
     // For all finite fields
     std::vector<std::vector<F>> roots_vec;
     std::vector<std::vector<F>> inv_roots_vec;
-    bool packed_vec_only;
 
     // clang-format off
     // Precompute |roots_vec| and |inv_roots_vec| for |OutInHelper()| and |InOutHelper()|.
@@ -59,8 +58,6 @@ class Radix2TwiddleCache {
       TRACE_EVENT("Utils", "Radix2TwiddleCache<F>::Item::Init");
       if (domain->log_size_of_group() == 0) return;
 
-      this->packed_vec_only = packed_vec_only;
-
       roots_vec.resize(domain->log_size_of_group());
       inv_roots_vec.resize(domain->log_size_of_group());
 
@@ -126,21 +123,23 @@ class Radix2TwiddleCache {
     static base::NoDestructor<Radix2TwiddleCache> twiddle_cache;
 
     absl::MutexLock lock(&twiddle_cache->mutex_);
+    // NOTE: An item can be in use by domains at any time, so that it is never
+    // replaced. An item having only packed vectors is kept apart from the one
+    // having all of them.
     auto it = twiddle_cache->items_.find(
-        std::make_pair(domain->size(), domain->group_gen()));
-    if (it == twiddle_cache->items_.end() ||
-        (it->second->packed_vec_only && !packed_vec_only)) {
-      it = twiddle_cache->items_.insert(
-          it,
-          std::make_pair(std::make_pair(domain->size(), domain->group_gen()),
-                         std::make_unique<Item>(domain, packed_vec_only)));
+        std::make_tuple(domain->size(), domain->group_gen(), false));
+    if (it == twiddle_cache->items_.end()) {
+      std::unique_ptr<Item>& item = twiddle_cache->items_[std::make_tuple(
+          domain->size(), domain->group_gen(), packed_vec_only)];
+      if (!item) item = std::make_unique<Item>(domain, packed_vec_only);
+      return item.get();
     }
     return it->second.get();
   }
 
  private:
   absl::Mutex mutex_;
-  absl::flat_hash_map<std::pair<size_t, F>, std::unique_ptr<Item>> items_
+  absl::flat_hash_map<std::tuple<size_t, F, bool>, std::unique_ptr<Item>> items_
       ABSL_GUARDED_BY(mutex_);
 };
 
-- 
2.43.0


From 57b5f4546a95483adeaf429e3f04070427c7e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 22/80] fix: Fold of an odd number of coefficients reads past
 the end

---
 .../math/polynomials/univariate/univariate_dense_coefficients.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0f60684..cbecbef 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -184,7 +184,7 @@ class UnivariateDenseCoefficients {
     std::vector<F> coefficients((size + 1) >> 1);
     base::ParallelizeFill(coefficients, F::Zero(),
                           /*threshold=*/ParallelizeThreshold::kFieldInit);
-    OMP_PARALLEL_FOR(size_t i = 0; i < size; i += 2) {
+    OMP_PARALLEL_FOR(size_t i = 0; i < (size & ~size_t{1}); i += 2) {
       coefficients[i >> 1] = coefficients_[i + 1] * r;
       coefficients[i >> 1] += coefficients_[i];
     }
-- 
2.43.0


From c5b084b1fa8811e862211c0aff295403953b5e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:57 +0000
Subject: [PATCH 23/80] fix: LagrangeInterpolate through no points reads an
 empty vector

---
 tachyon/math/polynomials/univariate/lagrange_interpolation.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tachyon/math/polynomials/univariate/lagrange_interpolation.h b/tachyon/math/polynomials/univariate/lagrange_interpolation.h
index 098b9ca..06a457a 100644
--- a/tachyon/math/polynomials/univariate/lagrange_interpolation.h
+++ b/tachyon/math/polynomials/univariate/lagrange_interpolation.h
@@ -30,6 +30,11 @@ bool LagrangeInterpolate(
     return false;
   }
 
+  if (points.size() == 0) {
+    *ret = Poly::Zero();
+    return true;
+  }
+
   if (points.size() == 1) {
     *ret = Poly(Coeffs({evals[0]}, true));
     return true;
-- 
2.43.0


From efab75bdfdadd7289fabcde38e438b6484410980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:48 +0000
Subject: [PATCH 24/80] fix: PippengerAdapter leaves the process with fewer
 OpenMP threads than it had

---
 .../msm/algorithms/pippenger/pippenger_adapter.h             | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h b/tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h
index 021bd37..5c3171b 100644
--- a/tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h
+++ b/tachyon/math/elliptic_curves/msm/algorithms/pippenger/pippenger_adapter.h
@@ -70,7 +70,8 @@ class PippengerAdapter {
       };
 
 #if defined(TACHYON_HAS_OPENMP)
-      int thread_nums = omp_get_max_threads();
+      int max_thread_nums = omp_get_max_threads();
+      int thread_nums = max_thread_nums;
       if (strategy == PippengerParallelStrategy::kParallelWindowAndTerm) {
         size_t window_bits = MSMCtx::ComputeWindowsBits(scalars_size);
         size_t window_size =
@@ -98,7 +99,7 @@ class PippengerAdapter {
             return result;
           });
 #if defined(TACHYON_HAS_OPENMP)
-      omp_set_num_threads(omp_get_max_threads());
+      omp_set_num_threads(max_thread_nums);
 #endif
 
       TRACE_EVENT("Subtask", "CheckResultAndAccumulate");
-- 
2.43.0


From f23db4f836fff7750d945d1cc60f2140cc24760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 25/80] fix: monomials that differ only below the highest
 variable compare equal

---
 .../multivariate/multivariate_sparse_coefficients.h    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 4aa522e..0a14e38 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -81,11 +81,15 @@ class MultivariateSparseCoefficients {
     }
 
     bool operator<(const Literal& other) const {
-      if (elements.back() == other.elements.back()) {
-        return elements.size() < other.elements.size();
-      } else {
+      if (elements.back() != other.elements.back()) {
         return elements.back() < other.elements.back();
       }
+      if (elements.size() != other.elements.size()) {
+        return elements.size() < other.elements.size();
+      }
+      return std::lexicographical_compare(
+          elements.rbegin(), elements.rend(), other.elements.rbegin(),
+          other.elements.rend());
     }
     bool operator==(const Literal& other) const {
       return (Degree() == 0 && other.Degree() == 0) ||
-- 
2.43.0


From 99cbba5ed27657d95a1a0967f596793de87ffce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:37 +0000
Subject: [PATCH 26/80] fix: compacting a multivariate polynomial without terms
 reads past its end

---
 .../polynomials/multivariate/multivariate_sparse_coefficients.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 0a14e38..24e166a 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -305,6 +305,7 @@ class MultivariateSparseCoefficients {
   }
 
   void Compact() {
+    if (terms_.empty()) return;
     auto write_itr = terms_.begin();
     for (auto read_itr = terms_.begin() + 1; read_itr != terms_.end();
          ++read_itr) {
-- 
2.43.0


From b14330922b94bcdf90eb8fd236a57fa646f33dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 27/80] fix: sums of multivariate polynomials forget the number
 of variables

---
 .../polynomials/multivariate/multivariate_polynomial_ops.h     | 3 +++
 .../multivariate/multivariate_sparse_coefficients.h            | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
index c821869..3899796 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
@@ -6,6 +6,7 @@
 #ifndef TACHYON_MATH_POLYNOMIALS_MULTIVARIATE_MULTIVARIATE_POLYNOMIAL_OPS_H_
 #define TACHYON_MATH_POLYNOMIALS_MULTIVARIATE_MULTIVARIATE_POLYNOMIAL_OPS_H_
 
+#include <algorithm>
 #include <utility>
 #include <vector>
 
@@ -149,6 +150,8 @@ class MultivariatePolynomialOp<MultivariateSparseCoefficients<F, MaxDegree>> {
       }
     }
 
+    c.coefficients_.num_vars_ =
+        std::max(a.coefficients_.num_vars_, b.coefficients_.num_vars_);
     c.coefficients_.terms_ = std::move(c_terms);
     c.coefficients_.Compact();
   }
diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 24e166a..74f6910 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -351,7 +351,7 @@ class MultivariateSparseCoefficients {
         });
   }
 
-  size_t num_vars_;
+  size_t num_vars_ = 0;
   std::vector<Term> terms_;
 };
 
-- 
2.43.0


From f44a50d02daa21b617fc91fdbcdf8ff7298415c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:47 +0000
Subject: [PATCH 28/80] fix: Degree of a multivariate zero polynomial reads
 past its terms

---
 .../polynomials/multivariate/multivariate_sparse_coefficients.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 74f6910..1514034 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -267,7 +267,7 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr size_t Degree() const {
-    if (IsConstant()) return 0;
+    if (IsZero() || IsConstant()) return 0;
     return terms_.back().Degree();
   }
 
-- 
2.43.0


From 6cc41e45f371e827aef1493d3c052483606252d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:04 +0000
Subject: [PATCH 29/80] fix: binary Merkle trees of one leaf and openings past
 the leaves read out of bounds

---
 .../merkle_tree/binary_merkle_tree/binary_merkle_tree.h     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
index 7b5036f..37c9358 100644
--- a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
@@ -89,6 +89,10 @@ class BinaryMerkleTree final
   [[nodiscard]] bool DoCreateOpeningProof(size_t index,
                                           BinaryMerkleProof<Hash>* proof) {
     size_t size = storage_->GetSize();
+    if (index >= (size + 1) >> 1) {
+      LOG(ERROR) << "There is no leaf at " << index;
+      return false;
+    }
     index = (size >> 1) + index;
     proof->paths.resize(base::bits::Log2Floor(size));
     size_t i = 0;
@@ -143,6 +147,8 @@ class BinaryMerkleTree final
   }
 
   void BuildTreeFromLeaves(base::Range<size_t> range) const {
+    // A single node is the root of its own tree.
+    if (range.GetSize() == 1) return;
     while (range.GetSize() > 0) {
       for (size_t i = range.from; i < range.to; i += 2) {
         storage_->SetHash(i >> 1,
-- 
2.43.0


From dd0fdeccd57f6322cacda32ad149c37950725d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:03 +0000
Subject: [PATCH 30/80] fix: mixed matrix openings of absent rows and of
 malformed proofs read out of bounds or abort

---
 .../field_merkle_tree_mmcs.h                  | 56 ++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
index 20829be..7e612b6 100644
--- a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
+++ b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
@@ -6,6 +6,7 @@
 #ifndef TACHYON_CRYPTO_COMMITMENTS_MERKLE_TREE_FIELD_MERKLE_TREE_FIELD_MERKLE_TREE_MMCS_H_
 #define TACHYON_CRYPTO_COMMITMENTS_MERKLE_TREE_FIELD_MERKLE_TREE_FIELD_MERKLE_TREE_MMCS_H_
 
+#include <array>
 #include <string>
 #include <type_traits>
 #include <utility>
@@ -15,6 +16,7 @@
 
 #include "tachyon/base/bits.h"
 #include "tachyon/base/containers/container_util.h"
+#include "tachyon/base/logging.h"
 #include "tachyon/base/profiler.h"
 #include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"
 #include "tachyon/crypto/commitments/mixed_matrix_commitment_scheme.h"
@@ -90,10 +92,38 @@ class FieldMerkleTreeMMCS final
     }
   };
 
+  // Matrices whose rows round up to the same power of two share a layer of the
+  // tree, so that they must have the same number of rows.
+  template <typename Matrix>
+  static bool CheckMatrices(const std::vector<Matrix>& matrices) {
+    if (matrices.empty()) {
+      LOG(ERROR) << "There is no matrix to commit to";
+      return false;
+    }
+    std::array<size_t, 65> rows_by_log = {};
+    for (const Matrix& matrix : matrices) {
+      size_t rows = static_cast<size_t>(matrix.rows());
+      if (rows == 0) {
+        LOG(ERROR) << "A matrix has no rows";
+        return false;
+      }
+      size_t& expected = rows_by_log[base::bits::Log2Ceiling(rows)];
+      if (expected == 0) expected = rows;
+      if (expected != rows) {
+        LOG(ERROR) << "matrix rows that round up to the same power of two must "
+                      "be equal: "
+                   << expected << " vs " << rows;
+        return false;
+      }
+    }
+    return true;
+  }
+
   [[nodiscard]] bool DoCommit(
       std::vector<Eigen::Map<const math::RowMajorMatrix<F>>>&& matrices,
       Commitment* commitment, ProverData* prover_data) const {
     TRACE_EVENT("ProofGeneration", "FieldMerkleTreeMMCS::DoCommit");
+    if (!CheckMatrices(matrices)) return false;
 #if TACHYON_CUDA
     *prover_data = FieldMerkleTree<F, N>::MaybeBuildGpu(
         hasher_, packed_hasher_, compressor_, packed_compressor_,
@@ -112,6 +142,7 @@ class FieldMerkleTreeMMCS final
       std::vector<math::RowMajorMatrix<F>>&& owned_matrices,
       Commitment* commitment, ProverData* prover_data) const {
     TRACE_EVENT("ProofGeneration", "FieldMerkleTreeMMCS::DoCommitOwned");
+    if (!CheckMatrices(owned_matrices)) return false;
 #if TACHYON_CUDA
     *prover_data = FieldMerkleTree<F, N>::MaybeBuildOwnedGpu(
         hasher_, packed_hasher_, compressor_, packed_compressor_,
@@ -139,6 +170,16 @@ class FieldMerkleTreeMMCS final
     size_t max_row_size = this->GetMaxRowSize(prover_data);
     uint32_t log_max_row_size = base::bits::Log2Ceiling(max_row_size);
 
+    for (const Eigen::Map<const math::RowMajorMatrix<F>>& matrix :
+         prover_data.leaves()) {
+      size_t row_size = static_cast<size_t>(matrix.rows());
+      uint32_t log_row_size = base::bits::Log2Ceiling(row_size);
+      if (index >> (log_max_row_size - log_row_size) >= row_size) {
+        LOG(ERROR) << "There is no row to open at " << index;
+        return false;
+      }
+    }
+
     // TODO(chokobole): Is it able to be parallelized?
     *openings = base::Map(
         prover_data.leaves(),
@@ -171,7 +212,12 @@ class FieldMerkleTreeMMCS final
       const Proof& proof) const {
     TRACE_EVENT("ProofVerification",
                 "FieldMerkleTreeMMCS::DoVerifyOpeningProof");
-    CHECK_EQ(dimensions_list.size(), opened_values.size());
+    if (dimensions_list.empty() ||
+        dimensions_list.size() != opened_values.size()) {
+      LOG(ERROR) << "The number of opened matrices doesn't match: "
+                 << dimensions_list.size() << " vs " << opened_values.size();
+      return false;
+    }
 
     std::vector<IndexedDimensions> sorted_dimensions_list = base::Map(
         dimensions_list, [](size_t index, math::Dimensions dimensions) {
@@ -184,6 +230,14 @@ class FieldMerkleTreeMMCS final
     absl::Span<const IndexedDimensions> remaining_dimensions_list =
         absl::MakeConstSpan(sorted_dimensions_list);
 
+    uint32_t log_max_height = base::bits::Log2Ceiling(
+        remaining_dimensions_list.front().dimensions.height);
+    if (proof.size() != log_max_height || index >> log_max_height != 0) {
+      LOG(ERROR) << "The proof doesn't lead from row " << index
+                 << " to the root";
+      return false;
+    }
+
     size_t next_layer =
         absl::bit_ceil(remaining_dimensions_list.front().dimensions.height);
     size_t next_layer_size = CountLayers(next_layer, remaining_dimensions_list);
-- 
2.43.0


From 410d9e5338bc3509c73815f14e91069a05aee603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:25 +0000
Subject: [PATCH 31/80] fix: FRI verification aborts on commitments to matrices
 with a single row

---
 tachyon/crypto/commitments/fri/verify.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tachyon/crypto/commitments/fri/verify.h b/tachyon/crypto/commitments/fri/verify.h
index f23bb33..2bbac96 100644
--- a/tachyon/crypto/commitments/fri/verify.h
+++ b/tachyon/crypto/commitments/fri/verify.h
@@ -55,6 +55,10 @@ F VerifyQuery(uint32_t index, uint32_t log_max_num_rows,
                           evals[0]);
     index = index_pair;
   }
+  // Openings of matrices that have a single row are not folded.
+  if (ro_idx != ro_size && ro_num_rows[ro_idx] == config.log_blowup) {
+    folded_eval += ro_values[ro_idx++];
+  }
   CHECK_LT(index, config.Blowup()) << "index was " << index;
   CHECK_EQ(ro_idx, ro_size);
 
-- 
2.43.0


From 5fa595f9706bf460c49905ca3727af4fb5c686fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:25 +0000
Subject: [PATCH 32/80] fix: Lagrange selectors on a larger coset are refused,
 and would be wrong

---
 .../fri/two_adic_multiplicative_coset.h            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
index 976e352..ad19d29 100644
--- a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
+++ b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
@@ -87,26 +87,30 @@ class TwoAdicMultiplicativeCoset {
 
     CHECK_EQ(domain_->offset(), F::One());
     CHECK_NE(coset_shift, F::One());
-    CHECK_GE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
+    CHECK_LE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
     uint32_t rate_bits =
         coset.domain()->log_size_of_group() - domain_->log_size_of_group();
     F s_pow_n = coset_shift.ExpPowOfTwo(domain_->log_size_of_group());
 
     // Evals of Z_H(X) = Xⁿ - 1
+    F coset_gen_pow_n = coset.domain()->group_gen().ExpPowOfTwo(
+        domain_->log_size_of_group());
     size_t evals_size = size_t{1} << rate_bits;
     std::vector<F> evals(evals_size);
     std::vector<F> inv_denoms_inv_zeroifier(evals_size);
     base::Parallelize(
-        evals_size, [this, &s_pow_n, &evals, &inv_denoms_inv_zeroifier](
-                        size_t len, size_t chunk_offset, size_t chunk_size) {
+        evals_size,
+        [&s_pow_n, &coset_gen_pow_n, &evals, &inv_denoms_inv_zeroifier](
+            size_t len, size_t chunk_offset, size_t chunk_size) {
           size_t start = chunk_offset * chunk_size;
-          F eval = s_pow_n * domain_->group_gen().Pow(start);
+          F eval = s_pow_n * coset_gen_pow_n.Pow(start);
           for (size_t i = start; i < start + len; ++i) {
             evals[i] = eval - F::One();
             inv_denoms_inv_zeroifier[i] = evals[i];
+            eval *= coset_gen_pow_n;
           }
           absl::Span<F> inv_denoms_inv_zeroifier_chunk =
-              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], chunk_size);
+              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], len);
           CHECK(F::BatchInverseInPlaceSerial(inv_denoms_inv_zeroifier_chunk));
         });
 
-- 
2.43.0


From 6d775e6230b53053b4c9fc324318feb98b52e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:10 +0000
Subject: [PATCH 33/80] fix: batched transforms over a domain of one element
 abort

---
 .../polynomials/univariate/radix2_evaluation_domain.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index c4e78c7..38bd7f2 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -102,9 +102,11 @@ class Radix2EvaluationDomain
     if constexpr (F::Config::kModulusBits > 32) {
       NOTREACHED();
     }
+    CHECK_EQ(this->size_, static_cast<size_t>(mat.rows()));
+    // The evaluation of a polynomial of degree 0 is its only coefficient.
+    if (this->size_ == 1) return;
     CHECK_GT(cache_->roots_vec.size(), size_t{0});
     CHECK_GT(cache_->packed_roots_vec.size(), size_t{0});
-    CHECK_EQ(this->size_, static_cast<size_t>(mat.rows()));
 
     // The first half looks like a normal DIT.
     ReverseMatrixIndexBits(mat);
@@ -134,9 +136,14 @@ class Radix2EvaluationDomain
     if constexpr (F::Config::kModulusBits > 32) {
       NOTREACHED();
     }
+    CHECK_EQ(this->size_, static_cast<size_t>(mat.rows()));
+    if (this->size_ == 1) {
+      // A polynomial of degree 0 is the same everywhere.
+      out.derived() = mat.replicate(Eigen::Index{1} << added_bits, 1);
+      return;
+    }
     CHECK_GT(cache_->roots_vec.size(), size_t{0});
     CHECK_GT(cache_->packed_roots_vec.size(), size_t{0});
-    CHECK_EQ(this->size_, static_cast<size_t>(mat.rows()));
 
     // The first half looks like a normal DIT.
     ReverseMatrixIndexBits(mat);
-- 
2.43.0


From 58611df5776938418bbab02933ea063da24c35b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 34/80] fix: KZG openings with parameters reloaded from a
 buffer

The constructor that takes the secret's power in G2 prepared {s*G2, -G2}, while
setup prepares {G2, -s*G2}; parameters read back from a buffer therefore
rejected every honest opening.
---
 tachyon/crypto/commitments/kzg/gwc.h     | 4 ++--
 tachyon/crypto/commitments/kzg/shplonk.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/gwc.h b/tachyon/crypto/commitments/kzg/gwc.h
index bb6ebb9..ec51448 100644
--- a/tachyon/crypto/commitments/kzg/gwc.h
+++ b/tachyon/crypto/commitments/kzg/gwc.h
@@ -55,8 +55,8 @@ class GWC final : public UnivariatePolynomialCommitmentScheme<
   GWC(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 41950c9..9c4d82b 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -56,8 +56,8 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
   SHPlonk(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
-- 
2.43.0


From 80d426481e72c455b575e1a2a1f6bc7647bd9dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 35/80] fix: KZG Downsize recomputes the Lagrange basis

Truncating the Lagrange basis of the larger domain does not give the Lagrange
basis of the smaller one, so commitments to evaluations were wrong.
---
 tachyon/crypto/commitments/kzg/kzg.h | 42 ++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/kzg.h b/tachyon/crypto/commitments/kzg/kzg.h
index 5260115..3f911e3 100644
--- a/tachyon/crypto/commitments/kzg/kzg.h
+++ b/tachyon/crypto/commitments/kzg/kzg.h
@@ -15,8 +15,10 @@
 #include <utility>
 #include <vector>
 
+#include "tachyon/base/bits.h"
 #include "tachyon/base/buffer/copyable.h"
 #include "tachyon/base/logging.h"
+#include "tachyon/base/openmp_util.h"
 #include "tachyon/crypto/commitments/batch_commitment_state.h"
 #include "tachyon/math/elliptic_curves/msm/variable_base_msm.h"
 #include "tachyon/math/geometry/point_conversions.h"
@@ -214,8 +216,7 @@ class KZG {
   [[nodiscard]] bool Downsize(size_t n) {
     if (n >= N()) return false;
     g1_powers_of_tau_.resize(n);
-    g1_powers_of_tau_lagrange_.resize(n);
-    return true;
+    return UpdateLagrange();
   }
 
   template <typename ScalarContainer>
@@ -268,6 +269,43 @@ class KZG {
   template <typename, size_t, size_t, typename>
   friend class tachyon::zk::SHPlonkExtension;
 
+  // Recompute |g1_powers_of_tau_lagrange_| for the domain of size |N()| from
+  // |g1_powers_of_tau_|. Since the i-th Lagrange polynomial is
+  // Lᵢ(X) = n⁻¹ * ∑ⱼ(ω⁻ⁱʲ * Xʲ), this is the inverse FFT of the points [τʲ]₁.
+  bool UpdateLagrange() {
+    using Domain = math::UnivariateEvaluationDomain<Field, kMaxDegree>;
+    using JacobianPoint = math::JacobianPoint<Curve>;
+
+    size_t n = N();
+    g1_powers_of_tau_lagrange_.resize(n);
+    // There is no domain of this size, hence no Lagrange basis.
+    if (!base::bits::IsPowerOfTwo(n)) return true;
+
+    std::unique_ptr<Domain> domain = Domain::Create(n);
+    uint32_t log_n = domain->log_size_of_group();
+    std::vector<JacobianPoint> points(n);
+    OMP_PARALLEL_FOR(size_t i = 0; i < n; ++i) {
+      points[base::bits::ReverseBitsLen(i, log_n)] =
+          g1_powers_of_tau_[i].ToJacobian();
+    }
+    for (size_t gap = 1; gap < n; gap *= 2) {
+      std::vector<Field> roots = Field::GetSuccessivePowers(
+          gap, domain->group_gen_inv().Pow(n / (2 * gap)));
+      OMP_PARALLEL_FOR(size_t i = 0; i < n / 2; ++i) {
+        size_t j = i % gap;
+        JacobianPoint& lo = points[2 * i - j];
+        JacobianPoint& hi = points[2 * i - j + gap];
+        JacobianPoint t = roots[j] * hi;
+        hi = lo - t;
+        lo += t;
+      }
+    }
+    OMP_PARALLEL_FOR(size_t i = 0; i < n; ++i) {
+      points[i] *= domain->size_inv();
+    }
+    return JacobianPoint::BatchNormalize(points, &g1_powers_of_tau_lagrange_);
+  }
+
   template <typename BaseContainer, typename ScalarContainer,
             typename OutCommitment>
   bool DoMSM(const BaseContainer& bases, const ScalarContainer& scalars,
-- 
2.43.0


From 87157ad0156f8e9bdc0ccd0c93c9833fd3a8e2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:21 +0000
Subject: [PATCH 36/80] fix: several shuffle arguments in one circuit

The evaluators come in pairs, the product cosets do not: with two shuffles the
second one read past the end of the cosets.
---
 tachyon/zk/shuffle/evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/shuffle/evaluator.h b/tachyon/zk/shuffle/evaluator.h
index a8c773e..d64f780 100644
--- a/tachyon/zk/shuffle/evaluator.h
+++ b/tachyon/zk/shuffle/evaluator.h
@@ -74,7 +74,7 @@ class Evaluator {
     for (size_t i = 0; i < evaluators_.size(); i += 2) {
       const plonk::GraphEvaluator<F>& input_evaluator = evaluators_[i];
       const plonk::GraphEvaluator<F>& evaluator = evaluators_[i + 1];
-      const EvalsOrExtendedEvals& product_coset = product_cosets_[i];
+      const EvalsOrExtendedEvals& product_coset = product_cosets_[i / 2];
 
       plonk::EvaluationInput<EvalsOrExtendedEvals> input_eval_data =
           builder.ExtractEvaluationInput(
-- 
2.43.0


From 12b6f321b634b1e0c56f3ef0e0ad1242289b07d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:35 +0000
Subject: [PATCH 37/80] fix: degree of selectors joining a combination

The degree of the candidate was never looked at (the outer selector's was used
instead), so combining orthogonal selectors could raise a gate above the degree
of the constraint system and honest proofs were refused.
---
 tachyon/zk/plonk/constraint_system/selector_compressor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/selector_compressor.h b/tachyon/zk/plonk/constraint_system/selector_compressor.h
index 923e744..9c168d3 100644
--- a/tachyon/zk/plonk/constraint_system/selector_compressor.h
+++ b/tachyon/zk/plonk/constraint_system/selector_compressor.h
@@ -220,7 +220,7 @@ class SelectorCompressor {
         // Can the new selector join the combination? Reminder: we use
         // |selector.max_degree() - 1| to omit the influence of the virtual
         // selector on the degree, as it will be substituted.
-        size_t new_d = std::max(d, selector.max_degree() - 1);
+        size_t new_d = std::max(d, selectors_[j].max_degree() - 1);
         if (new_d + combination.size() + 1 > max_degree) {
           // Guess not.
           continue;
-- 
2.43.0


From b14b5af35ca01caf55018602fcb67775c1329cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 38/80] fix: lookups into different tables share no argument

When packing lookup inputs, ChunkLookups tried the arguments of every table; an
input that fitted was then checked against another table.
---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 61fc823..074d17f 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -303,6 +303,8 @@ class ConstraintSystem {
     size_t minimum_degree = minimum_degree_.value();
 
     for (const auto& [_, lookup_tracker] : lookups_map_) {
+      // Inputs can only be packed into the arguments of their own table.
+      size_t first_argument_idx = lookups_.size();
       std::vector<std::unique_ptr<Expression<F>>> cloned_input =
           Expression<F>::CloneExpressions(lookup_tracker.inputs[0]);
       std::vector<std::unique_ptr<Expression<F>>> cloned_table =
@@ -316,8 +318,9 @@ class ConstraintSystem {
         size_t cur_input_degree = ComputeColumnDegree(*input);
 
         bool added = false;
-        for (lookup::Argument<F>& lookup_argument : lookups_) {
+        for (size_t i = first_argument_idx; i < lookups_.size(); ++i) {
           // Try to fit input into one of the |lookup_arguments|.
+          lookup::Argument<F>& lookup_argument = lookups_[i];
           size_t cur_argument_degree = lookup_argument.RequiredDegree();
           size_t new_potential_degree = cur_argument_degree + cur_input_degree;
           if (new_potential_degree <= minimum_degree) {
-- 
2.43.0


From ab77634b6094d03f72d6603ad1903899796d6925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:31 +0000
Subject: [PATCH 39/80] fix: a constraint on the zero variable reads an absent
 column

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 5950f87..e31970a 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -78,7 +78,8 @@ class ConstraintSystem {
   std::vector<Cell<F>> MakeRow(const LinearCombination<F>& lc) const {
     std::vector<Cell<F>> row;
     for (const Term<F>& term : lc.terms()) {
-      if (!term.coefficient.IsZero()) {
+      // |Variable::Zero()| has no column in the matrices.
+      if (!term.coefficient.IsZero() && !term.variable.IsZero()) {
         row.push_back({term.coefficient,
                        *term.variable.GetIndex(num_instance_variables_)});
       }
-- 
2.43.0


From d1d98feb52ad70d03dba0684667cb40b0d50a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 40/80] fix: strings of wide characters are serialized in part
 only

---
 tachyon/base/buffer/copyable.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 398e299..18ef5f6 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -47,7 +47,7 @@ class Copyable<std::basic_string_view<CharTy>> {
                       Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -57,7 +57,7 @@ class Copyable<std::basic_string_view<CharTy>> {
   }
 
   static size_t EstimateSize(const std::basic_string_view<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
@@ -67,7 +67,7 @@ class Copyable<std::basic_string<CharTy>> {
   static bool WriteTo(const std::basic_string<CharTy>& value, Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -75,11 +75,12 @@ class Copyable<std::basic_string<CharTy>> {
     size_t size;
     if (!buffer.Read(&size)) return false;
     value->resize(size);
-    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()), size);
+    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
+                       size * sizeof(CharTy));
   }
 
   static size_t EstimateSize(const std::basic_string<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
-- 
2.43.0


From 1099099e114340bb864e67c1f7e820e9f5824457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 41/80] fix: a damaged length asks for any amount of memory

---
 tachyon/base/buffer/copyable.h         | 3 +++
 tachyon/base/buffer/read_only_buffer.h | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 18ef5f6..0e341a6 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -74,6 +74,7 @@ class Copyable<std::basic_string<CharTy>> {
                        std::basic_string<CharTy>* value) {
     size_t size;
     if (!buffer.Read(&size)) return false;
+    if (size > buffer.Remaining() / sizeof(CharTy)) return false;
     value->resize(size);
     return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
                        size * sizeof(CharTy));
@@ -148,6 +149,8 @@ class Copyable<std::vector<T>> {
   static bool ReadFrom(const ReadOnlyBuffer& buffer, std::vector<T>* values) {
     size_t size;
     if (!buffer.Read(&size)) return false;
+    // NOTE: Every element takes at least one byte.
+    if (size > buffer.Remaining()) return false;
     values->resize(size);
     for (T& value : (*values)) {
       if (!buffer.Read(&value)) return false;
diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 1b39223..2353875 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -74,6 +74,11 @@ class TACHYON_EXPORT ReadOnlyBuffer {
 
   [[nodiscard]] bool Done() const { return buffer_offset_ == buffer_len_; }
 
+  // Returns the number of bytes that can still be read.
+  size_t Remaining() const {
+    return buffer_offset_ < buffer_len_ ? buffer_len_ - buffer_offset_ : 0;
+  }
+
   // Returns false when either
   // 1) |buffer_offset| + |size| overflows.
   // 2) if it tries to read more than |buffer_len_|.
-- 
2.43.0


From 3aed1e8fd6bc64897819195cd3583c7487530be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 42/80] fix: floating point values lose their fraction in a
 chosen byte order

---
 tachyon/base/buffer/buffer.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 29daf9d..2849926 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -1,6 +1,8 @@
 #ifndef TACHYON_BASE_BUFFER_BUFFER_H_
 #define TACHYON_BASE_BUFFER_BUFFER_H_
 
+#include <string.h>
+
 #include "tachyon/base/buffer/read_only_buffer.h"
 
 namespace tachyon::base {
@@ -84,11 +86,13 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
             std::enable_if_t<internal::IsBuiltinSerializable<T>::value && \
                              (sizeof(T) == bytes)>* = nullptr>            \
   [[nodiscard]] bool WriteAt(size_t buffer_offset, T value) {             \
+    type bits_value;                                                      \
+    memcpy(&bits_value, &value, bytes);                                   \
     switch (endian_) {                                                    \
       case Endian::kBig:                                                  \
-        return Write##bits##BEAt(buffer_offset, value);                   \
+        return Write##bits##BEAt(buffer_offset, bits_value);              \
       case Endian::kLittle:                                               \
-        return Write##bits##LEAt(buffer_offset, value);                   \
+        return Write##bits##LEAt(buffer_offset, bits_value);              \
       case Endian::kNative:                                               \
         return WriteAt(buffer_offset,                                     \
                        reinterpret_cast<const uint8_t*>(&value), bytes);  \
-- 
2.43.0


From 832154fcff75e930594241444c4a729c10f3a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 43/80] fix: values written together at an offset overwrite
 each other

---
 tachyon/base/buffer/buffer.h           | 2 +-
 tachyon/base/buffer/read_only_buffer.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 2849926..79e803a 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -132,7 +132,7 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
   [[nodiscard]] bool WriteManyAt(size_t buffer_offset, const T& value,
                                  const Args&... args) {
     if (!WriteAt(buffer_offset, value)) return false;
-    return WriteManyAt(buffer_offset, args...);
+    return WriteMany(args...);
   }
 
   [[nodiscard]] virtual bool Grow(size_t size) { return false; }
diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 2353875..156e417 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -204,7 +204,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
     return ReadMany(std::forward<Args>(args)...);
   }
 
-  template <typename T, size_t N>
+  template <typename T>
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value) const {
     return ReadAt(buffer_offset, std::forward<T>(value));
   }
@@ -213,7 +213,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value,
                                 Args&&... args) const {
     if (!ReadAt(buffer_offset, std::forward<T>(value))) return false;
-    return ReadManyAt(buffer_offset, std::forward<Args>(args)...);
+    return ReadMany(std::forward<Args>(args)...);
   }
 
  protected:
-- 
2.43.0


From 6cb9ef2e141aca7859a33516defbfd2ffb58bb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 44/80] fix: the size of a viewed array may overflow

---
 tachyon/base/buffer/read_only_buffer.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 156e417..7644c48 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -142,8 +142,10 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   template <typename T>
   [[nodiscard]] bool ReadPtrAt(size_t buffer_offset, T** ptr,
                                size_t ptr_num) const {
-    size_t size = sizeof(T) * ptr_num;
-    base::CheckedNumeric<size_t> len = buffer_offset;
+    base::CheckedNumeric<size_t> len = ptr_num;
+    size_t size;
+    if (!(len * sizeof(T)).AssignIfValid(&size)) return false;
+    len = buffer_offset;
     size_t size_needed;
     if (!(len + size).AssignIfValid(&size_needed)) return false;
     if (size_needed > buffer_len_) {
-- 
2.43.0


From 67f9cb730200a23df1d45eff0b27759279e62b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 45/80] fix: a moved buffer forgets its byte order

---
 tachyon/base/buffer/read_only_buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 7644c48..fe39a72 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -45,10 +45,12 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   ReadOnlyBuffer(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer& operator=(const ReadOnlyBuffer& other) = delete;
   ReadOnlyBuffer(ReadOnlyBuffer&& other)
-      : buffer_(std::exchange(other.buffer_, nullptr)),
+      : endian_(other.endian_),
+        buffer_(std::exchange(other.buffer_, nullptr)),
         buffer_offset_(std::exchange(other.buffer_offset_, 0)),
         buffer_len_(std::exchange(other.buffer_len_, 0)) {}
   ReadOnlyBuffer& operator=(ReadOnlyBuffer&& other) {
+    endian_ = other.endian_;
     buffer_ = std::exchange(other.buffer_, nullptr);
     buffer_offset_ = std::exchange(other.buffer_offset_, 0);
     buffer_len_ = std::exchange(other.buffer_len_, 0);
-- 
2.43.0


From 4ab4ab4ffd92709bd92691a83496255f0338da09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 46/80] fix: a moved short string buffer refers to the old
 object

---
 tachyon/base/buffer/string_buffer.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/string_buffer.h b/tachyon/base/buffer/string_buffer.h
index e26b543..c6250d9 100644
--- a/tachyon/base/buffer/string_buffer.h
+++ b/tachyon/base/buffer/string_buffer.h
@@ -15,10 +15,13 @@ class TACHYON_EXPORT StringBuffer : public Buffer {
   StringBuffer& operator=(const StringBuffer& other) = delete;
   StringBuffer(StringBuffer&& other)
       : Buffer(std::move(other)),
-        owned_buffer_(std::move(other.owned_buffer_)) {}
+        owned_buffer_(std::move(other.owned_buffer_)) {
+    UpdateBuffer();
+  }
   StringBuffer& operator=(StringBuffer&& other) {
     Buffer::operator=(std::move(other));
     owned_buffer_ = std::move(other.owned_buffer_);
+    UpdateBuffer();
     return *this;
   }
   ~StringBuffer() override = default;
@@ -29,12 +32,16 @@ class TACHYON_EXPORT StringBuffer : public Buffer {
 
   [[nodiscard]] bool Grow(size_t size) override {
     owned_buffer_.resize(size);
-    buffer_ = owned_buffer_.data();
-    buffer_len_ = owned_buffer_.size();
+    UpdateBuffer();
     return true;
   }
 
  protected:
+  void UpdateBuffer() {
+    buffer_ = owned_buffer_.data();
+    buffer_len_ = owned_buffer_.size();
+  }
+
   std::string owned_buffer_;
 };
 
-- 
2.43.0


From 4d2b983053d5b7adedf4945fa6682dae45caaf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:32 +0000
Subject: [PATCH 47/80] fix: Poseidon2 loses its internal shifts when it is
 serialized

---
 .../hashes/sponge/poseidon2/poseidon2_config.h      | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index ca0dfea..512f7b9 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -166,25 +166,30 @@ class Copyable<crypto::Poseidon2Config<Params>> {
                       Buffer* buffer) {
     return Copyable<crypto::PoseidonConfigBase<Params>>::WriteTo(config,
                                                                  buffer) &&
-           buffer->WriteMany(config.internal_diagonal_minus_one);
+           buffer->WriteMany(config.internal_diagonal_minus_one,
+                             config.internal_shifts);
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
                        crypto::Poseidon2Config<Params>* config) {
     crypto::PoseidonConfigBase<Params> base;
-    math::Matrix<F> internal_diagonal_minus_one;
-    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one)) {
+    math::Vector<F> internal_diagonal_minus_one;
+    math::Vector<uint8_t> internal_shifts;
+    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one,
+                         &internal_shifts)) {
       return false;
     }
 
     *config = {std::move(base), std::move(internal_diagonal_minus_one)};
+    config->internal_shifts = std::move(internal_shifts);
     return true;
   }
 
   static size_t EstimateSize(const crypto::Poseidon2Config<Params>& config) {
     const crypto::PoseidonConfigBase<Params>& base =
         static_cast<const crypto::PoseidonConfigBase<Params>&>(config);
-    return base::EstimateSize(base, config.internal_diagonal_minus_one);
+    return base::EstimateSize(base, config.internal_diagonal_minus_one,
+                              config.internal_shifts);
   }
 };
 
-- 
2.43.0


From 3832d3ead7194a838c1714d4d163f209da8279cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:28 +0000
Subject: [PATCH 48/80] fix: damaged matrix dimensions abort the reader

---
 tachyon/math/matrix/matrix_types.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tachyon/math/matrix/matrix_types.h b/tachyon/math/matrix/matrix_types.h
index 20f468a..cafdd28 100644
--- a/tachyon/math/matrix/matrix_types.h
+++ b/tachyon/math/matrix/matrix_types.h
@@ -71,6 +71,13 @@ class Copyable<Eigen::Matrix<Field, Rows, Cols, Options, MaxRows, MaxCols>> {
     Eigen::Index rows, cols;
     Matrix matrix_tmp;
     if (!buffer.ReadMany(&rows, &cols)) return false;
+    if (rows < 0 || cols < 0) return false;
+    // NOTE: Every element takes at least one byte.
+    if (cols != 0 &&
+        static_cast<size_t>(rows) >
+            buffer.Remaining() / static_cast<size_t>(cols)) {
+      return false;
+    }
     if (Rows != Eigen::Dynamic && Cols != Eigen::Dynamic) {
       if (rows != Rows || cols != Cols) return false;
     } else if (Rows != Eigen::Dynamic) {
@@ -132,6 +139,9 @@ class Copyable<Eigen::DiagonalMatrix<Field, Size, MaxSize>> {
     Eigen::Index size;
     DiagonalVector vector_tmp;
     if (!buffer.ReadMany(&size)) return false;
+    if (size < 0 || static_cast<size_t>(size) > buffer.Remaining()) {
+      return false;
+    }
     if (Size != Eigen::Dynamic) {
       if (size != Size) return false;
     } else {
-- 
2.43.0


From 9e345e9f357e58f54e9e38beddbb5e9042fe42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:30 +0000
Subject: [PATCH 49/80] fix: field elements beyond the modulus are read as
 valid

---
 tachyon/math/finite_fields/prime_field_base.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tachyon/math/finite_fields/prime_field_base.h b/tachyon/math/finite_fields/prime_field_base.h
index 210045d..bfed37a 100644
--- a/tachyon/math/finite_fields/prime_field_base.h
+++ b/tachyon/math/finite_fields/prime_field_base.h
@@ -215,6 +215,7 @@ class Copyable<
   static bool ReadFrom(const ReadOnlyBuffer& buffer, T* prime_field) {
     value_type v;
     if (!buffer.Read(&v)) return false;
+    if (v >= T::Config::kModulus) return false;
     if constexpr (T::Config::kUseMontgomery) {
       if (s_is_in_montgomery) {
         *prime_field = T::FromMontgomery(v);
@@ -275,6 +276,11 @@ class RapidJsonValueConverter<
     value_type v;
     if (!RapidJsonValueConverter<value_type>::To(json_value, key, &v, error))
       return false;
+    if (v >= T::Config::kModulus) {
+      *error = absl::Substitute(
+          "value of \"$0\" is greater than or equal to modulus", key);
+      return false;
+    }
 
     if constexpr (T::Config::kUseMontgomery) {
       if (s_is_in_montgomery) {
-- 
2.43.0


From e4e591fa8c8929f03e91c26c5f44ebcca9562765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:30 +0000
Subject: [PATCH 50/80] fix: damaged polynomials abort the reader

---
 .../multivariate/multilinear_dense_evaluations.h       |  3 +++
 .../univariate/univariate_dense_coefficients.h         |  5 +++++
 .../polynomials/univariate/univariate_evaluations.h    |  5 +++++
 .../univariate/univariate_sparse_coefficients.h        | 10 ++++++++++
 4 files changed, 23 insertions(+)

diff --git a/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h b/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
index fda7c47..5d179ea 100644
--- a/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
+++ b/tachyon/math/polynomials/multivariate/multilinear_dense_evaluations.h
@@ -229,6 +229,9 @@ class Copyable<math::MultilinearDenseEvaluations<F, MaxDegree>> {
                        math::MultilinearDenseEvaluations<F, MaxDegree>* evals) {
     std::vector<F> evaluations;
     if (!buffer.Read(&evaluations)) return false;
+    if (base::bits::SafeLog2Ceiling(evaluations.size()) > MaxDegree) {
+      return false;
+    }
     *evals =
         math::MultilinearDenseEvaluations<F, MaxDegree>(std::move(evaluations));
     return true;
diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index cbecbef..61fa761 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -319,6 +319,7 @@ class Copyable<math::UnivariateDenseCoefficients<F, MaxDegree>> {
       math::UnivariateDenseCoefficients<F, MaxDegree>* coeffs) {
     std::vector<F> raw_coeff;
     if (!buffer.Read(&raw_coeff)) return false;
+    if (!raw_coeff.empty() && raw_coeff.size() - 1 > MaxDegree) return false;
     *coeffs =
         math::UnivariateDenseCoefficients<F, MaxDegree>(std::move(raw_coeff));
     return true;
@@ -348,6 +349,10 @@ class RapidJsonValueConverter<math::UnivariateDenseCoefficients<F, MaxDegree>> {
     std::vector<F> coeffs;
     if (!ParseJsonElement(json_value, "coefficients", &coeffs, error))
       return false;
+    if (!coeffs.empty() && coeffs.size() - 1 > MaxDegree) {
+      *error = RapidJsonOutOfRangeError("coefficients", coeffs.size());
+      return false;
+    }
     *value = math::UnivariateDenseCoefficients<F, MaxDegree>(std::move(coeffs));
     return true;
   }
diff --git a/tachyon/math/polynomials/univariate/univariate_evaluations.h b/tachyon/math/polynomials/univariate/univariate_evaluations.h
index 6955448..99fc3c3 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluations.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluations.h
@@ -299,6 +299,7 @@ class Copyable<math::UnivariateEvaluations<F, MaxDegree>> {
                        math::UnivariateEvaluations<F, MaxDegree>* evals) {
     std::vector<F> evals_vec;
     if (!buffer.Read(&evals_vec)) return false;
+    if (!evals_vec.empty() && evals_vec.size() - 1 > MaxDegree) return false;
     *evals = math::UnivariateEvaluations<F, MaxDegree>(evals_vec);
     return true;
   }
@@ -327,6 +328,10 @@ class RapidJsonValueConverter<math::UnivariateEvaluations<F, MaxDegree>> {
     std::vector<F> evals;
     if (!ParseJsonElement(json_value, "evaluations", &evals, error))
       return false;
+    if (!evals.empty() && evals.size() - 1 > MaxDegree) {
+      *error = RapidJsonOutOfRangeError("evaluations", evals.size());
+      return false;
+    }
     *value = math::UnivariateEvaluations<F, MaxDegree>(std::move(evals));
     return true;
   }
diff --git a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
index 4748e1d..ab70f61 100644
--- a/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_sparse_coefficients.h
@@ -355,6 +355,8 @@ class Copyable<math::UnivariateSparseCoefficients<F, MaxDegree>> {
       math::UnivariateSparseCoefficients<F, MaxDegree>* coeffs) {
     std::vector<math::UnivariateTerm<F>> terms;
     if (!buffer.Read(&terms)) return false;
+    if (!base::ranges::is_sorted(terms.begin(), terms.end())) return false;
+    if (!terms.empty() && terms.back().degree > MaxDegree) return false;
     *coeffs = math::UnivariateSparseCoefficients<F, MaxDegree>(terms);
     return true;
   }
@@ -408,6 +410,14 @@ class RapidJsonValueConverter<
                  std::string* error) {
     std::vector<math::UnivariateTerm<F>> terms;
     if (!ParseJsonElement(json_value, "terms", &terms, error)) return false;
+    if (!base::ranges::is_sorted(terms.begin(), terms.end())) {
+      *error = "\"terms\" are not sorted";
+      return false;
+    }
+    if (!terms.empty() && terms.back().degree > MaxDegree) {
+      *error = RapidJsonOutOfRangeError("degree", terms.back().degree);
+      return false;
+    }
     *value = math::UnivariateSparseCoefficients<F, MaxDegree>(std::move(terms));
     return true;
   }
-- 
2.43.0


From 8825c4cab67f26adb572ac1ac3e863246a211d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:30 +0000
Subject: [PATCH 51/80] fix: damaged commitment keys abort the reader

---
 tachyon/crypto/commitments/kzg/kzg.h           | 4 ++++
 tachyon/crypto/commitments/pedersen/pedersen.h | 1 +
 2 files changed, 5 insertions(+)

diff --git a/tachyon/crypto/commitments/kzg/kzg.h b/tachyon/crypto/commitments/kzg/kzg.h
index 3f911e3..8ceb338 100644
--- a/tachyon/crypto/commitments/kzg/kzg.h
+++ b/tachyon/crypto/commitments/kzg/kzg.h
@@ -387,6 +387,10 @@ class Copyable<crypto::KZG<G1Point, MaxDegree, Commitment>> {
     if (!buffer.ReadMany(&g1_powers_of_tau, &g1_powers_of_tau_lagrange)) {
       return false;
     }
+    if (g1_powers_of_tau.size() != g1_powers_of_tau_lagrange.size() ||
+        g1_powers_of_tau.size() > MaxDegree + 1) {
+      return false;
+    }
 
     *pcs =
         PCS(std::move(g1_powers_of_tau), std::move(g1_powers_of_tau_lagrange));
diff --git a/tachyon/crypto/commitments/pedersen/pedersen.h b/tachyon/crypto/commitments/pedersen/pedersen.h
index 136d109..b3d81eb 100644
--- a/tachyon/crypto/commitments/pedersen/pedersen.h
+++ b/tachyon/crypto/commitments/pedersen/pedersen.h
@@ -263,6 +263,7 @@ class Copyable<crypto::Pedersen<Point, MaxSize, Commitment>> {
     if (!buffer.ReadMany(&h, &generators)) {
       return false;
     }
+    if (generators.size() > MaxSize) return false;
 
     *pcs = PCS(std::move(h), std::move(generators));
     return true;
-- 
2.43.0


From 986f181808dc076b6930844e23da7921a6066620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:30 +0000
Subject: [PATCH 52/80] fix: sumcheck proving keys of different polynomials
 compare equal

---
 tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
index 9e91e95..599a7ad 100644
--- a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
+++ b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
@@ -29,7 +29,7 @@ struct SumcheckProvingKey {
 
   bool operator==(const SumcheckProvingKey& other) const {
     return verifying_key == other.verifying_key && terms == other.terms &&
-           flattened_ml_evaluations == flattened_ml_evaluations;
+           flattened_ml_evaluations == other.flattened_ml_evaluations;
   }
   bool operator!=(const SumcheckProvingKey& other) const {
     return !operator==(other);
-- 
2.43.0


From 96571352984d8b6bed7360efb2be907c084744fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:31 +0000
Subject: [PATCH 53/80] fix: JSON that is not an object is searched for members

---
 tachyon/base/json/json.h           | 2 +-
 tachyon/base/json/rapidjson_util.h | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/json/json.h b/tachyon/base/json/json.h
index 82a3388..330372c 100644
--- a/tachyon/base/json/json.h
+++ b/tachyon/base/json/json.h
@@ -25,7 +25,7 @@ bool ParseJson(std::string_view content, T* value, std::string* error) {
                          document.GetErrorOffset());
     return false;
   }
-  return RapidJsonValueConverter<T>::To(document.GetObject(), "", value, error);
+  return RapidJsonValueConverter<T>::To(document, "", value, error);
 }
 
 // Load from file and parse json string and populate |value| on success.
diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index 17d3384..74b1412 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -344,6 +344,10 @@ void AddJsonElement(rapidjson::Value& json_value, std::string_view key,
 template <typename T>
 bool ParseJsonElement(const rapidjson::Value& json_value, std::string_view key,
                       T* value, std::string* error) {
+  if (!json_value.IsObject()) {
+    *error = RapidJsonMismatchedTypeError(key, "object", json_value);
+    return false;
+  }
   auto it = json_value.FindMember(key.data());
   if (it == json_value.MemberEnd()) {
     *error = absl::Substitute("\"$0\" key is not found", key);
-- 
2.43.0


From 90c489a11a17fddb37fea9971308033f878bc3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:31 +0000
Subject: [PATCH 54/80] fix: JSON strings end at an embedded null character

---
 tachyon/base/json/rapidjson_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/base/json/rapidjson_util.h b/tachyon/base/json/rapidjson_util.h
index 74b1412..63d34bc 100644
--- a/tachyon/base/json/rapidjson_util.h
+++ b/tachyon/base/json/rapidjson_util.h
@@ -194,7 +194,7 @@ class RapidJsonValueConverter<std::string> {
       *error = RapidJsonMismatchedTypeError(key, "string", json_value);
       return false;
     }
-    *value = json_value.GetString();
+    *value = {json_value.GetString(), json_value.GetStringLength()};
     return true;
   }
 };
@@ -213,7 +213,7 @@ class RapidJsonValueConverter<std::string_view> {
       *error = RapidJsonMismatchedTypeError(key, "string_view", json_value);
       return false;
     }
-    *value = json_value.GetString();
+    *value = {json_value.GetString(), json_value.GetStringLength()};
     return true;
   }
 };
-- 
2.43.0


From 5952014700e8ffa0f24458d8c79539a93c9e7f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:32 +0000
Subject: [PATCH 55/80] fix: negative numbers are read as their absolute value

---
 tachyon/math/base/big_int.cc | 4 ++++
 tachyon/math/base/big_int.h  | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/base/big_int.cc b/tachyon/math/base/big_int.cc
index a5c10e3..14493fd 100644
--- a/tachyon/math/base/big_int.cc
+++ b/tachyon/math/base/big_int.cc
@@ -18,6 +18,10 @@ bool DoStringToLimbs(std::string_view str, uint64_t* limbs, size_t limb_nums) {
                << ")";
     return false;
   }
+  if (gmp::IsNegative(out)) {
+    LOG(ERROR) << "negative value(" << str << ")";
+    return false;
+  }
   size_t actual_limb_nums = gmp::GetLimbSize(out);
   if (actual_limb_nums > limb_nums) {
     LOG(ERROR) << "actual limb nums(" << actual_limb_nums
diff --git a/tachyon/math/base/big_int.h b/tachyon/math/base/big_int.h
index 881af7a..8ac2576 100644
--- a/tachyon/math/base/big_int.h
+++ b/tachyon/math/base/big_int.h
@@ -1205,7 +1205,11 @@ class RapidJsonValueConverter<math::BigInt<N>> {
       return false;
     std::optional<math::BigInt<N>> tmp =
         math::BigInt<N>::FromHexString(value_str);
-    if (!tmp.has_value()) return false;
+    if (!tmp.has_value()) {
+      *error = absl::Substitute("\"$0\" is not a hexadecimal number of $1 bits",
+                                key, N * 64);
+      return false;
+    }
     *value = std::move(tmp).value();
     return true;
   }
-- 
2.43.0


From 0667cf80245e8f5abddad94ace7d0cf43721b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:29 +0000
Subject: [PATCH 56/80] fix: unused Poseidon2 round constants are uninitialized
 memory

---
 tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index 512f7b9..78337cf 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -30,8 +30,10 @@ template <typename F>
 void FindPoseidon2ARK(const PoseidonGrainLFSRConfig& config,
                       math::Matrix<F>& ark) {
   PoseidonGrainLFSR<F> lfsr(config);
-  ark = math::Matrix<F>(config.num_full_rounds + config.num_partial_rounds,
-                        config.state_len);
+  // NOTE: Partial rounds use the first element only, and the rest is zero.
+  ark = math::Matrix<F>::Constant(
+      config.num_full_rounds + config.num_partial_rounds, config.state_len,
+      F::Zero());
   size_t partial_rounds_start = config.num_full_rounds / 2;
   size_t partial_rounds_end =
       config.num_full_rounds / 2 + config.num_partial_rounds;
-- 
2.43.0


From 510b5cbad478450f395af25cd5c7cf9eea58e901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:40 +0000
Subject: [PATCH 57/80] fix: damaged sparse MDS matrices abort the reader

---
 tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h b/tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h
index 46dec70..b92c986 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/sparse_mds_matrix.h
@@ -123,6 +123,7 @@ class Copyable<crypto::SparseMDSMatrix<F>> {
     if (!buffer.ReadMany(&row, &col_hat)) {
       return false;
     }
+    if (row.size() != col_hat.size() + 1) return false;
 
     *matrix = {std::move(row), std::move(col_hat)};
     return true;
-- 
2.43.0


From 8cf124c1462170b2948ef0d2aefc076d13ce6618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:41 +0000
Subject: [PATCH 58/80] fix: damaged argument data aborts the reader

---
 tachyon/zk/plonk/halo2/argument_data.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tachyon/zk/plonk/halo2/argument_data.h b/tachyon/zk/plonk/halo2/argument_data.h
index f5adc60..86bf3d7 100644
--- a/tachyon/zk/plonk/halo2/argument_data.h
+++ b/tachyon/zk/plonk/halo2/argument_data.h
@@ -244,6 +244,12 @@ class Copyable<zk::plonk::halo2::ArgumentData<Poly, Evals>> {
     if (!buffer.ReadMany(&advice_columns_vec, &advice_blinds_vec, &challenges,
                          &instance_columns_vec, &instance_polys_vec))
       return false;
+    size_t num_circuits = advice_columns_vec.size();
+    if (advice_blinds_vec.size() != num_circuits ||
+        instance_columns_vec.size() != num_circuits ||
+        instance_polys_vec.size() != num_circuits) {
+      return false;
+    }
     *data = zk::plonk::halo2::ArgumentData<Poly, Evals>(
         std::move(advice_columns_vec), std::move(advice_blinds_vec),
         std::move(challenges), std::move(instance_columns_vec),
-- 
2.43.0


From ac89100d569786361a24e947c6db9cff67487160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:50 +0000
Subject: [PATCH 59/80] fix: a reseeded ChaCha20 generator continues the
 previous stream

---
 tachyon/crypto/random/cha_cha20/cha_cha20_rng.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
index 044293c..1d5a284 100644
--- a/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
+++ b/tachyon/crypto/random/cha_cha20/cha_cha20_rng.h
@@ -59,6 +59,13 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
     for (size_t i = 0; i < 8; ++i) {
       input_[i + 4] = absl::little_endian::Load32(&seed[4 * i]);
     }
+    // counter
+    input_[12] = 0;
+    input_[13] = 0;
+    input_[14] = 0;
+    input_[15] = 0;
+    // Discard the output generated from the previous seed.
+    index_ = kMaxIndex;
     return true;
   }
 
@@ -92,12 +99,6 @@ class TACHYON_EXPORT ChaCha20RNG final : public BlockRNG<ChaCha20RNG> {
 
     // seed
     CHECK(SetSeed(absl::Span<const uint8_t>(seed, kSeedSize)));
-
-    // counter
-    input_[12] = 0;
-    input_[13] = 0;
-    input_[14] = 0;
-    input_[15] = 0;
   }
 
   ChaCha20RNG(size_t index, const uint8_t input[kInputSize],
-- 
2.43.0


From cc258df06126449d0f535baaf58e0ea5a077e481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:29 +0000
Subject: [PATCH 60/80] fix: points off the curve are read from a SHA-256 proof

---
 tachyon/zk/plonk/halo2/sha256_transcript.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/halo2/sha256_transcript.h b/tachyon/zk/plonk/halo2/sha256_transcript.h
index 0e4ad45..05a7509 100644
--- a/tachyon/zk/plonk/halo2/sha256_transcript.h
+++ b/tachyon/zk/plonk/halo2/sha256_transcript.h
@@ -126,8 +126,11 @@ class Sha256Reader : public crypto::TranscriptReader<AffinePoint>,
     math::BigInt<4> x;
     math::BigInt<4> y;
     if (!this->buffer_.ReadMany(&x, &y)) return false;
+    if (x >= BaseField::Config::kModulus || y >= BaseField::Config::kModulus) {
+      return false;
+    }
     *point = {BaseField(std::move(x)), BaseField(std::move(y))};
-    return true;
+    return point->IsZero() || point->IsOnCurve();
   }
 
   bool DoReadFromProof(ScalarField* scalar) const override {
-- 
2.43.0


From 5fc1c078dfa57b4aa533ece4307a134dbe70f334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:29 +0000
Subject: [PATCH 61/80] fix: a coordinate beyond the modulus is read from a
 proof

---
 tachyon/zk/plonk/halo2/proof_serializer.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/plonk/halo2/proof_serializer.h b/tachyon/zk/plonk/halo2/proof_serializer.h
index 6f290b8..a85b3b5 100644
--- a/tachyon/zk/plonk/halo2/proof_serializer.h
+++ b/tachyon/zk/plonk/halo2/proof_serializer.h
@@ -54,12 +54,15 @@ class ProofSerializer<math::AffinePoint<Curve>> {
     uint8_t bytes[kByteSize];
     if (!buffer.Read(bytes)) return false;
 
+    BigInt x_bigint;
     BaseField x;
     bool is_odd;
     if (s_use_legacy_serialization) {
       is_odd = bytes[kByteSize - 1] >> 7;
       bytes[kByteSize - 1] &= 0b01111111;
-      x = BaseField::FromBigInt(BigInt::FromBytesLE(bytes));
+      x_bigint = BigInt::FromBytesLE(bytes);
+      if (x_bigint >= BaseField::Config::kModulus) return false;
+      x = BaseField::FromBigInt(x_bigint);
       if (x.IsZero()) {
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
@@ -68,7 +71,9 @@ class ProofSerializer<math::AffinePoint<Curve>> {
       bool is_inf = bytes[kByteSize - 1] >> 7;
       is_odd = (bytes[kByteSize - 1] >> 6) & 1;
       bytes[kByteSize - 1] &= 0b00111111;
-      x = BaseField::FromBigInt(BigInt::FromBytesLE(bytes));
+      x_bigint = BigInt::FromBytesLE(bytes);
+      if (x_bigint >= BaseField::Config::kModulus) return false;
+      x = BaseField::FromBigInt(x_bigint);
       if (x.IsZero() && is_inf) {
         *point_out = math::AffinePoint<Curve>::Zero();
         return true;
-- 
2.43.0


From 6da4e915d7df2d542e1041493448d99eaf5d8590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:05 +0000
Subject: [PATCH 62/80] fix: a malformed or missing circom file aborts the
 process

---
 vendors/circom/circomlib/r1cs/r1cs.h |  5 +++--
 vendors/circom/circomlib/wtns/wtns.h | 18 ++++++++++++------
 vendors/circom/circomlib/zkey/zkey.h | 18 ++++++++++++------
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/vendors/circom/circomlib/r1cs/r1cs.h b/vendors/circom/circomlib/r1cs/r1cs.h
index bac3387..b14be09 100644
--- a/vendors/circom/circomlib/r1cs/r1cs.h
+++ b/vendors/circom/circomlib/r1cs/r1cs.h
@@ -8,6 +8,7 @@
 #include <memory>
 #include <optional>
 #include <string>
+#include <string_view>
 #include <utility>
 #include <vector>
 
@@ -61,13 +62,13 @@ std::unique_ptr<R1CS<F>> ParseR1CS(const base::FilePath& path) {
   uint32_t version;
   if (!buffer.ReadMany(magic, &version)) return nullptr;
   if (memcmp(magic, kR1CSMagic, 4) != 0) {
-    LOG(ERROR) << "Invalid magic: " << magic;
+    LOG(ERROR) << "Invalid magic: " << std::string_view(magic, sizeof(magic));
     return nullptr;
   }
   std::unique_ptr<R1CS<F>> r1cs;
   if (version == 1) {
     r1cs.reset(new v1::R1CS<F>());
-    CHECK(r1cs->ToV1()->Read(buffer));
+    if (!r1cs->ToV1()->Read(buffer)) return nullptr;
   } else {
     LOG(ERROR) << "Invalid version: " << version;
     return nullptr;
diff --git a/vendors/circom/circomlib/wtns/wtns.h b/vendors/circom/circomlib/wtns/wtns.h
index 64a6b0b..71c1589 100644
--- a/vendors/circom/circomlib/wtns/wtns.h
+++ b/vendors/circom/circomlib/wtns/wtns.h
@@ -8,6 +8,7 @@
 
 #include <memory>
 #include <string>
+#include <string_view>
 #include <utility>
 
 #include "circomlib/base/modulus.h"
@@ -52,10 +53,15 @@ template <typename F>
 std::unique_ptr<Wtns<F>> ParseWtns(const base::FilePath& path,
                                    bool use_mmap = true) {
   base::BinFile bin_file;
-  CHECK(bin_file.Load(path, use_mmap));
-  if (use_mmap) {
-    PCHECK(madvise(bin_file.GetData(), bin_file.GetDataLength(),
-                   MADV_SEQUENTIAL) == 0);
+  if (!bin_file.Load(path, use_mmap)) {
+    LOG(ERROR) << "Failed to read file: " << path.value();
+    return nullptr;
+  }
+  if (use_mmap &&
+      madvise(bin_file.GetData(), bin_file.GetDataLength(), MADV_SEQUENTIAL) !=
+          0) {
+    // This is only a hint, the file can be read without it.
+    PLOG(WARNING) << "Failed to madvise: " << path.value();
   }
 
   base::ReadOnlyBuffer buffer = bin_file.ToReadOnlyBuffer();
@@ -64,13 +70,13 @@ std::unique_ptr<Wtns<F>> ParseWtns(const base::FilePath& path,
   uint32_t version;
   if (!buffer.ReadMany(magic, &version)) return nullptr;
   if (memcmp(magic, kWtnsMagic, 4) != 0) {
-    LOG(ERROR) << "Invalid magic: " << magic;
+    LOG(ERROR) << "Invalid magic: " << std::string_view(magic, sizeof(magic));
     return nullptr;
   }
   std::unique_ptr<Wtns<F>> wtns;
   if (version == 2) {
     wtns.reset(new v2::Wtns<F>(std::move(bin_file)));
-    CHECK(wtns->ToV2()->Read(buffer));
+    if (!wtns->ToV2()->Read(buffer)) return nullptr;
   } else {
     LOG(ERROR) << "Invalid version: " << version;
     return nullptr;
diff --git a/vendors/circom/circomlib/zkey/zkey.h b/vendors/circom/circomlib/zkey/zkey.h
index fb9b10c..7bf3ef4 100644
--- a/vendors/circom/circomlib/zkey/zkey.h
+++ b/vendors/circom/circomlib/zkey/zkey.h
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <memory>
 #include <string>
+#include <string_view>
 #include <utility>
 
 #include "circomlib/base/modulus.h"
@@ -58,10 +59,15 @@ template <typename Curve>
 std::unique_ptr<ZKey<Curve>> ParseZKey(const base::FilePath& path,
                                        bool use_mmap = true) {
   base::BinFile bin_file;
-  CHECK(bin_file.Load(path, use_mmap));
-  if (use_mmap) {
-    PCHECK(madvise(bin_file.GetData(), bin_file.GetDataLength(),
-                   MADV_SEQUENTIAL) == 0);
+  if (!bin_file.Load(path, use_mmap)) {
+    LOG(ERROR) << "Failed to read file: " << path.value();
+    return nullptr;
+  }
+  if (use_mmap &&
+      madvise(bin_file.GetData(), bin_file.GetDataLength(), MADV_SEQUENTIAL) !=
+          0) {
+    // This is only a hint, the file can be read without it.
+    PLOG(WARNING) << "Failed to madvise: " << path.value();
   }
 
   base::ReadOnlyBuffer buffer = bin_file.ToReadOnlyBuffer();
@@ -70,13 +76,13 @@ std::unique_ptr<ZKey<Curve>> ParseZKey(const base::FilePath& path,
   uint32_t version;
   if (!buffer.ReadMany(magic, &version)) return nullptr;
   if (memcmp(magic, kZKeyMagic, 4) != 0) {
-    LOG(ERROR) << "Invalid magic: " << magic;
+    LOG(ERROR) << "Invalid magic: " << std::string_view(magic, sizeof(magic));
     return nullptr;
   }
   std::unique_ptr<ZKey<Curve>> zkey;
   if (version == 1) {
     zkey.reset(new v1::ZKey<Curve>(std::move(bin_file)));
-    CHECK(zkey->ToV1()->Read(buffer));
+    if (!zkey->ToV1()->Read(buffer)) return nullptr;
   } else {
     LOG(ERROR) << "Invalid version: " << version;
     return nullptr;
-- 
2.43.0


From 1a0f8ccdc985521b2da29ef94d0e531ea3531b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:53 +0000
Subject: [PATCH 63/80] fix: circom sections with inconsistent sizes are read

---
 vendors/circom/circomlib/base/BUILD.bazel |  1 +
 vendors/circom/circomlib/base/sections.h  | 39 +++++++++++++++++++----
 vendors/circom/circomlib/r1cs/r1cs.h      |  4 +++
 vendors/circom/circomlib/wtns/wtns.h      |  3 ++
 vendors/circom/circomlib/zkey/zkey.h      | 10 ++++++
 5 files changed, 51 insertions(+), 6 deletions(-)

diff --git a/vendors/circom/circomlib/base/BUILD.bazel b/vendors/circom/circomlib/base/BUILD.bazel
index 0fb3351..c5c9b60 100644
--- a/vendors/circom/circomlib/base/BUILD.bazel
+++ b/vendors/circom/circomlib/base/BUILD.bazel
@@ -26,6 +26,7 @@ tachyon_cc_library(
         "@kroma_network_tachyon//tachyon/base:range",
         "@kroma_network_tachyon//tachyon/base/buffer:endian_auto_reset",
         "@kroma_network_tachyon//tachyon/base/buffer:read_only_buffer",
+        "@kroma_network_tachyon//tachyon/base/numerics:checked_math",
     ],
 )
 
diff --git a/vendors/circom/circomlib/base/sections.h b/vendors/circom/circomlib/base/sections.h
index d503865..661fc4e 100644
--- a/vendors/circom/circomlib/base/sections.h
+++ b/vendors/circom/circomlib/base/sections.h
@@ -3,12 +3,14 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <string_view>
 #include <vector>
 
 #include "tachyon/base/buffer/endian_auto_reset.h"
 #include "tachyon/base/buffer/read_only_buffer.h"
 #include "tachyon/base/logging.h"
+#include "tachyon/base/numerics/checked_math.h"
 #include "tachyon/base/range.h"
 
 namespace tachyon::circom {
@@ -32,17 +34,22 @@ class Sections {
     uint32_t num_sections;
     if (!buffer_.Read(&num_sections)) return false;
 
-    sections_.reserve(num_sections);
     for (uint32_t i = 0; i < num_sections; ++i) {
       if (!Add()) return false;
     }
     return true;
   }
 
+  // Returns true if every section lies in the buffer.
+  bool AreInBounds() const {
+    return std::all_of(sections_.begin(), sections_.end(),
+                       [this](const Section<T>& section) {
+                         return section.range.to <= buffer_.buffer_len();
+                       });
+  }
+
   bool MoveTo(T type) const {
-    auto it = std::find_if(
-        sections_.begin(), sections_.end(),
-        [type](const Section<T>& section) { return section.type == type; });
+    auto it = Find(type);
     if (it == sections_.end()) {
       LOG(ERROR) << error_fn_(type) << " is empty";
       return false;
@@ -51,14 +58,34 @@ class Sections {
     return true;
   }
 
+  // Returns true if the section was read to its end, and not beyond.
+  bool IsRead(T type) const {
+    auto it = Find(type);
+    if (it == sections_.end() || buffer_.buffer_offset() != it->range.to) {
+      LOG(ERROR) << error_fn_(type) << " has an inconsistent size";
+      return false;
+    }
+    return true;
+  }
+
  private:
+  typename std::vector<Section<T>>::const_iterator Find(T type) const {
+    return std::find_if(
+        sections_.begin(), sections_.end(),
+        [type](const Section<T>& section) { return section.type == type; });
+  }
+
   bool Add() {
     T type;
     uint64_t size;
     if (!buffer_.ReadMany(&type, &size)) return false;
 
-    sections_.push_back({type, {buffer_.buffer_offset(), size}});
-    buffer_.set_buffer_offset(buffer_.buffer_offset() + size);
+    uint64_t from = buffer_.buffer_offset();
+    uint64_t to;
+    if (!(base::CheckedNumeric<uint64_t>(from) + size).AssignIfValid(&to))
+      return false;
+    sections_.push_back({type, {from, to}});
+    buffer_.set_buffer_offset(to);
     return true;
   }
 
diff --git a/vendors/circom/circomlib/r1cs/r1cs.h b/vendors/circom/circomlib/r1cs/r1cs.h
index b14be09..36f90d3 100644
--- a/vendors/circom/circomlib/r1cs/r1cs.h
+++ b/vendors/circom/circomlib/r1cs/r1cs.h
@@ -212,15 +212,19 @@ struct R1CS : public circom::R1CS<F> {
   bool Read(const base::ReadOnlyBuffer& buffer) override {
     Sections<R1CSSectionType> sections(buffer, &R1CSSectionTypeToString);
     if (!sections.Read()) return false;
+    if (!sections.AreInBounds()) return false;
 
     if (!sections.MoveTo(R1CSSectionType::kHeader)) return false;
     if (!header.Read(buffer)) return false;
+    if (!sections.IsRead(R1CSSectionType::kHeader)) return false;
 
     if (!sections.MoveTo(R1CSSectionType::kConstraints)) return false;
     if (!constraints.Read(buffer, header)) return false;
+    if (!sections.IsRead(R1CSSectionType::kConstraints)) return false;
 
     if (!sections.MoveTo(R1CSSectionType::kWire2LabelIdMap)) return false;
     if (!wire_id_to_label_id_map.Read(buffer, header)) return false;
+    if (!sections.IsRead(R1CSSectionType::kWire2LabelIdMap)) return false;
     return true;
   }
 
diff --git a/vendors/circom/circomlib/wtns/wtns.h b/vendors/circom/circomlib/wtns/wtns.h
index 71c1589..64aaf03 100644
--- a/vendors/circom/circomlib/wtns/wtns.h
+++ b/vendors/circom/circomlib/wtns/wtns.h
@@ -157,12 +157,15 @@ struct Wtns : public circom::Wtns<F> {
   bool Read(const base::ReadOnlyBuffer& buffer) override {
     Sections<WtnsSectionType> sections(buffer, &WtnsSectionTypeToString);
     if (!sections.Read()) return false;
+    if (!sections.AreInBounds()) return false;
 
     if (!sections.MoveTo(WtnsSectionType::kHeader)) return false;
     if (!header.Read(buffer)) return false;
+    if (!sections.IsRead(WtnsSectionType::kHeader)) return false;
 
     if (!sections.MoveTo(WtnsSectionType::kData)) return false;
     if (!data.Read(buffer, header)) return false;
+    if (!sections.IsRead(WtnsSectionType::kData)) return false;
     return true;
   }
 
diff --git a/vendors/circom/circomlib/zkey/zkey.h b/vendors/circom/circomlib/zkey/zkey.h
index 7bf3ef4..b24af42 100644
--- a/vendors/circom/circomlib/zkey/zkey.h
+++ b/vendors/circom/circomlib/zkey/zkey.h
@@ -268,36 +268,46 @@ struct ZKey : public circom::ZKey<Curve> {
 
     Sections<ZKeySectionType> sections(buffer, &ZKeySectionTypeToString);
     if (!sections.Read()) return false;
+    if (!sections.AreInBounds()) return false;
 
     if (!sections.MoveTo(ZKeySectionType::kHeader)) return false;
     if (!header.Read(buffer)) return false;
+    if (!sections.IsRead(ZKeySectionType::kHeader)) return false;
 
     if (!sections.MoveTo(ZKeySectionType::kHeaderGroth)) return false;
     if (!header_groth.Read(buffer)) return false;
+    if (!sections.IsRead(ZKeySectionType::kHeaderGroth)) return false;
     uint32_t num_vars = header_groth.num_vars;
     uint32_t num_public_inputs = header_groth.num_public_inputs;
     uint32_t domain_size = header_groth.domain_size;
 
     if (!sections.MoveTo(ZKeySectionType::kIC)) return false;
     if (!ic.Read(buffer, num_public_inputs + 1)) return false;
+    if (!sections.IsRead(ZKeySectionType::kIC)) return false;
 
     if (!sections.MoveTo(ZKeySectionType::kCoefficients)) return false;
     if (!coefficients.Read(buffer)) return false;
+    if (!sections.IsRead(ZKeySectionType::kCoefficients)) return false;
 
     if (!sections.MoveTo(ZKeySectionType::kPointsA1)) return false;
     if (!points_a1.Read(buffer, num_vars)) return false;
+    if (!sections.IsRead(ZKeySectionType::kPointsA1)) return false;
 
     if (!sections.MoveTo(ZKeySectionType::kPointsB1)) return false;
     if (!points_b1.Read(buffer, num_vars)) return false;
+    if (!sections.IsRead(ZKeySectionType::kPointsB1)) return false;
 
     if (!sections.MoveTo(ZKeySectionType::kPointsB2)) return false;
     if (!points_b2.Read(buffer, num_vars)) return false;
+    if (!sections.IsRead(ZKeySectionType::kPointsB2)) return false;
 
     if (!sections.MoveTo(ZKeySectionType::kPointsC1)) return false;
     if (!points_c1.Read(buffer, num_vars - num_public_inputs - 1)) return false;
+    if (!sections.IsRead(ZKeySectionType::kPointsC1)) return false;
 
     if (!sections.MoveTo(ZKeySectionType::kPointsH1)) return false;
     if (!points_h1.Read(buffer, domain_size)) return false;
+    if (!sections.IsRead(ZKeySectionType::kPointsH1)) return false;
     return true;
   }
 
-- 
2.43.0


From ee98acf360241f5c1c1a119eb1f73811b149dea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:53 +0000
Subject: [PATCH 64/80] fix: circom files for another field are read

---
 vendors/circom/circomlib/base/modulus.h | 7 +++++++
 vendors/circom/circomlib/r1cs/r1cs.h    | 4 ++++
 vendors/circom/circomlib/wtns/wtns.h    | 4 ++++
 vendors/circom/circomlib/zkey/zkey.h    | 6 ++++++
 4 files changed, 21 insertions(+)

diff --git a/vendors/circom/circomlib/base/modulus.h b/vendors/circom/circomlib/base/modulus.h
index 8264038..6e1d3b4 100644
--- a/vendors/circom/circomlib/base/modulus.h
+++ b/vendors/circom/circomlib/base/modulus.h
@@ -34,6 +34,12 @@ struct Modulus {
     return {{bytes.begin(), bytes.end()}};
   }
 
+  // Returns true if this is the modulus of the prime field |F|.
+  template <typename F>
+  bool IsModulusOf() const {
+    return *this == FromBigInt(F::Config::kModulus);
+  }
+
   bool Read(const base::ReadOnlyBuffer& buffer) {
     base::EndianAutoReset reset(buffer, base::Endian::kLittle);
     uint32_t num_bytes;
@@ -42,6 +48,7 @@ struct Modulus {
       LOG(ERROR) << "field size is not a multiple of 8";
       return false;
     }
+    if (num_bytes > buffer.Remaining()) return false;
     bytes.resize(num_bytes);
     return buffer.Read(bytes.data(), bytes.size());
   }
diff --git a/vendors/circom/circomlib/r1cs/r1cs.h b/vendors/circom/circomlib/r1cs/r1cs.h
index 36f90d3..af22789 100644
--- a/vendors/circom/circomlib/r1cs/r1cs.h
+++ b/vendors/circom/circomlib/r1cs/r1cs.h
@@ -217,6 +217,10 @@ struct R1CS : public circom::R1CS<F> {
     if (!sections.MoveTo(R1CSSectionType::kHeader)) return false;
     if (!header.Read(buffer)) return false;
     if (!sections.IsRead(R1CSSectionType::kHeader)) return false;
+    if (!header.modulus.template IsModulusOf<F>()) {
+      LOG(ERROR) << "Unexpected modulus: " << header.modulus.ToString();
+      return false;
+    }
 
     if (!sections.MoveTo(R1CSSectionType::kConstraints)) return false;
     if (!constraints.Read(buffer, header)) return false;
diff --git a/vendors/circom/circomlib/wtns/wtns.h b/vendors/circom/circomlib/wtns/wtns.h
index 64aaf03..a74993f 100644
--- a/vendors/circom/circomlib/wtns/wtns.h
+++ b/vendors/circom/circomlib/wtns/wtns.h
@@ -162,6 +162,10 @@ struct Wtns : public circom::Wtns<F> {
     if (!sections.MoveTo(WtnsSectionType::kHeader)) return false;
     if (!header.Read(buffer)) return false;
     if (!sections.IsRead(WtnsSectionType::kHeader)) return false;
+    if (!header.modulus.template IsModulusOf<F>()) {
+      LOG(ERROR) << "Unexpected modulus: " << header.modulus.ToString();
+      return false;
+    }
 
     if (!sections.MoveTo(WtnsSectionType::kData)) return false;
     if (!data.Read(buffer, header)) return false;
diff --git a/vendors/circom/circomlib/zkey/zkey.h b/vendors/circom/circomlib/zkey/zkey.h
index b24af42..0ed9a1a 100644
--- a/vendors/circom/circomlib/zkey/zkey.h
+++ b/vendors/circom/circomlib/zkey/zkey.h
@@ -277,6 +277,12 @@ struct ZKey : public circom::ZKey<Curve> {
     if (!sections.MoveTo(ZKeySectionType::kHeaderGroth)) return false;
     if (!header_groth.Read(buffer)) return false;
     if (!sections.IsRead(ZKeySectionType::kHeaderGroth)) return false;
+    if (!header_groth.q.template IsModulusOf<BaseField>() ||
+        !header_groth.r.template IsModulusOf<F>()) {
+      LOG(ERROR) << "Unexpected moduli: " << header_groth.q.ToString() << ", "
+                 << header_groth.r.ToString();
+      return false;
+    }
     uint32_t num_vars = header_groth.num_vars;
     uint32_t num_public_inputs = header_groth.num_public_inputs;
     uint32_t domain_size = header_groth.domain_size;
-- 
2.43.0


From 713c15087e5efe6f1221592fe4a06c13a84f15e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:53 +0000
Subject: [PATCH 65/80] fix: r1cs files with inconsistent counts or wire ids
 are read

---
 vendors/circom/circomlib/r1cs/r1cs.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/vendors/circom/circomlib/r1cs/r1cs.h b/vendors/circom/circomlib/r1cs/r1cs.h
index af22789..b32698e 100644
--- a/vendors/circom/circomlib/r1cs/r1cs.h
+++ b/vendors/circom/circomlib/r1cs/r1cs.h
@@ -121,8 +121,15 @@ struct R1CSHeaderSection {
   bool Read(const base::ReadOnlyBuffer& buffer) {
     base::EndianAutoReset reset(buffer, base::Endian::kLittle);
     if (!modulus.Read(buffer)) return false;
-    return buffer.ReadMany(&num_wires, &num_public_outputs, &num_public_inputs,
-                           &num_private_inputs, &num_labels, &num_constraints);
+    if (!buffer.ReadMany(&num_wires, &num_public_outputs, &num_public_inputs,
+                         &num_private_inputs, &num_labels, &num_constraints)) {
+      return false;
+    }
+    if (uint64_t{1} + num_public_outputs + num_public_inputs > num_wires) {
+      LOG(ERROR) << "Too few wires: " << num_wires;
+      return false;
+    }
+    return true;
   }
 
   std::string ToString() const {
@@ -149,16 +156,21 @@ struct R1CSConstraintsSection {
   bool Read(const base::ReadOnlyBuffer& buffer,
             const R1CSHeaderSection& header) {
     base::EndianAutoReset reset(buffer, base::Endian::kLittle);
-    constraints.reserve(header.num_constraints);
     for (uint32_t i = 0; i < header.num_constraints; ++i) {
       Constraint<F> constraint;
       for (uint32_t j = 0; j < 3; ++j) {
         uint32_t n;
         if (!buffer.Read(&n)) return false;
+        // NOTE: |n| comes from the file, each term takes at least its wire id.
+        if (n > buffer.Remaining() / sizeof(uint32_t)) return false;
         std::vector<Term<F>> terms(n);
         for (uint32_t k = 0; k < n; ++k) {
           if (!buffer.ReadMany(&terms[k].wire_id, &terms[k].coefficient))
             return false;
+          if (terms[k].wire_id >= header.num_wires) {
+            LOG(ERROR) << "Invalid wire id: " << terms[k].wire_id;
+            return false;
+          }
         }
         if (j == 0) {
           constraint.a = {std::move(terms)};
@@ -189,6 +201,7 @@ struct R1CSWireId2LabelIdMapSection {
   bool Read(const base::ReadOnlyBuffer& buffer,
             const R1CSHeaderSection& header) {
     base::EndianAutoReset reset(buffer, base::Endian::kLittle);
+    if (header.num_wires > buffer.Remaining() / sizeof(uint64_t)) return false;
     label_ids.resize(header.num_wires);
     for (uint32_t i = 0; i < header.num_wires; ++i) {
       if (!buffer.Read(&label_ids[i])) return false;
@@ -233,7 +246,7 @@ struct R1CS : public circom::R1CS<F> {
   }
 
   size_t GetNumInstanceVariables() const override {
-    return 1 + header.num_public_outputs + header.num_public_inputs;
+    return size_t{1} + header.num_public_outputs + header.num_public_inputs;
   }
 
   size_t GetNumVariables() const override { return header.num_wires; }
-- 
2.43.0


From 11b631cc3d0dd371f0fb78fc119ba3d368cb086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:53 +0000
Subject: [PATCH 66/80] fix: witnesses that are not reduced are read

---
 vendors/circom/circomlib/wtns/wtns.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vendors/circom/circomlib/wtns/wtns.h b/vendors/circom/circomlib/wtns/wtns.h
index a74993f..1cbf790 100644
--- a/vendors/circom/circomlib/wtns/wtns.h
+++ b/vendors/circom/circomlib/wtns/wtns.h
@@ -6,6 +6,7 @@
 #include <string.h>
 #include <sys/mman.h>
 
+#include <atomic>
 #include <memory>
 #include <string>
 #include <string_view>
@@ -133,10 +134,15 @@ struct WtnsDataSection {
     if (!buffer.ReadPtr(&ptr, header.num_witness)) return false;
     witnesses = {ptr, header.num_witness};
 
+    std::atomic<bool> valid = true;
     OMP_PARALLEL_FOR(uint32_t i = 0; i < header.num_witness; ++i) {
-      witnesses[i] = F(witnesses[i].value());
+      if (witnesses[i].value() < F::Config::kModulus) {
+        witnesses[i] = F(witnesses[i].value());
+      } else {
+        valid.store(false, std::memory_order_relaxed);
+      }
     }
-    return true;
+    return valid.load(std::memory_order_relaxed);
   }
 
   std::string ToString() const { return base::ContainerToString(witnesses); }
-- 
2.43.0


From 89e76b945f347696b7e32733b495e9a5188c89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:53 +0000
Subject: [PATCH 67/80] fix: zkey files with unreduced values or indices out of
 range are read

---
 vendors/circom/circomlib/zkey/verifying_key.h | 24 ++++++++++++-
 vendors/circom/circomlib/zkey/zkey.h          | 34 +++++++++++++++----
 2 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/vendors/circom/circomlib/zkey/verifying_key.h b/vendors/circom/circomlib/zkey/verifying_key.h
index a995954..f62fd86 100644
--- a/vendors/circom/circomlib/zkey/verifying_key.h
+++ b/vendors/circom/circomlib/zkey/verifying_key.h
@@ -9,6 +9,26 @@
 
 namespace tachyon::circom {
 
+// Returns true if the coordinates, which are read as they are stored, are less
+// than the modulus.
+template <typename Point>
+bool IsReduced(const Point& point) {
+  using BaseField = typename Point::BaseField;
+
+  if constexpr (BaseField::ExtensionDegree() == 1) {
+    return point.x().value() < BaseField::Config::kModulus &&
+           point.y().value() < BaseField::Config::kModulus;
+  } else {
+    using BasePrimeField = typename BaseField::BasePrimeField;
+
+    static_assert(BaseField::ExtensionDegree() == 2);
+    return point.x().c0().value() < BasePrimeField::Config::kModulus &&
+           point.x().c1().value() < BasePrimeField::Config::kModulus &&
+           point.y().c0().value() < BasePrimeField::Config::kModulus &&
+           point.y().c1().value() < BasePrimeField::Config::kModulus;
+  }
+}
+
 template <typename Curve>
 struct VerifyingKey {
   using G1AffinePoint = typename Curve::G1Curve::AffinePoint;
@@ -33,7 +53,9 @@ struct VerifyingKey {
   bool Read(const base::ReadOnlyBuffer& buffer) {
     return buffer.ReadPtr(&alpha_g1, 1) && buffer.ReadPtr(&beta_g1, 1) &&
            buffer.ReadPtr(&beta_g2, 1) && buffer.ReadPtr(&gamma_g2, 1) &&
-           buffer.ReadPtr(&delta_g1, 1) && buffer.ReadPtr(&delta_g2, 1);
+           buffer.ReadPtr(&delta_g1, 1) && buffer.ReadPtr(&delta_g2, 1) &&
+           IsReduced(*alpha_g1) && IsReduced(*beta_g1) && IsReduced(*beta_g2) &&
+           IsReduced(*gamma_g2) && IsReduced(*delta_g1) && IsReduced(*delta_g2);
   }
 
   // NOTE(chokobole): the fields are represented in montgomery form.
diff --git a/vendors/circom/circomlib/zkey/zkey.h b/vendors/circom/circomlib/zkey/zkey.h
index 0ed9a1a..517b356 100644
--- a/vendors/circom/circomlib/zkey/zkey.h
+++ b/vendors/circom/circomlib/zkey/zkey.h
@@ -5,6 +5,7 @@
 #include <sys/mman.h>
 
 #include <algorithm>
+#include <atomic>
 #include <memory>
 #include <string>
 #include <string_view>
@@ -156,6 +157,10 @@ struct ZKeyHeaderGrothSection {
     if (!r.Read(buffer)) return false;
     if (!buffer.ReadMany(&num_vars, &num_public_inputs, &domain_size))
       return false;
+    if (num_vars <= num_public_inputs) {
+      LOG(ERROR) << "Too few variables: " << num_vars;
+      return false;
+    }
     return vkey.Read(buffer);
   }
 
@@ -183,7 +188,14 @@ struct CommitmentsSection {
     T* ptr;
     if (!buffer.ReadPtr(&ptr, num_commitments)) return false;
     commitments = {ptr, num_commitments};
-    return true;
+
+    std::atomic<bool> valid = true;
+    OMP_PARALLEL_FOR(uint32_t i = 0; i < num_commitments; ++i) {
+      if (!IsReduced(commitments[i])) {
+        valid.store(false, std::memory_order_relaxed);
+      }
+    }
+    return valid.load(std::memory_order_relaxed);
   }
 
   // NOTE(chokobole): the fields are represented in montgomery form.
@@ -214,19 +226,27 @@ struct CoefficientsSection {
     return !operator==(other);
   }
 
-  bool Read(const base::ReadOnlyBuffer& buffer) {
+  bool Read(const base::ReadOnlyBuffer& buffer, uint32_t num_vars,
+            uint32_t domain_size) {
+    base::EndianAutoReset reset(buffer, base::Endian::kLittle);
     uint32_t num_coefficients;
     if (!buffer.Read(&num_coefficients)) return false;
     Coefficient<F>* ptr;
     if (!buffer.ReadPtr(&ptr, num_coefficients)) return false;
     coefficients = {ptr, num_coefficients};
 
+    std::atomic<bool> valid = true;
     OMP_PARALLEL_FOR(size_t i = 0; i < coefficients.size(); ++i) {
-      coefficients[i].value =
-          F::FromMontgomery(coefficients[i].value.ToBigInt());
+      if (coefficients[i].constraint < domain_size &&
+          coefficients[i].signal < num_vars &&
+          coefficients[i].value.value() < F::Config::kModulus) {
+        coefficients[i].value =
+            F::FromMontgomery(coefficients[i].value.ToBigInt());
+      } else {
+        valid.store(false, std::memory_order_relaxed);
+      }
     }
-
-    return true;
+    return valid.load(std::memory_order_relaxed);
   }
 
   std::string ToString() const {
@@ -292,7 +312,7 @@ struct ZKey : public circom::ZKey<Curve> {
     if (!sections.IsRead(ZKeySectionType::kIC)) return false;
 
     if (!sections.MoveTo(ZKeySectionType::kCoefficients)) return false;
-    if (!coefficients.Read(buffer)) return false;
+    if (!coefficients.Read(buffer, num_vars, domain_size)) return false;
     if (!sections.IsRead(ZKeySectionType::kCoefficients)) return false;
 
     if (!sections.MoveTo(ZKeySectionType::kPointsA1)) return false;
-- 
2.43.0


From 1515817de1f0d2feeb1d43af076509eff382a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:49 +0000
Subject: [PATCH 68/80] fix: loading a zkey changes how other threads read
 field elements

---
 vendors/circom/circomlib/zkey/BUILD.bazel | 1 -
 vendors/circom/circomlib/zkey/zkey.h      | 6 ------
 2 files changed, 7 deletions(-)

diff --git a/vendors/circom/circomlib/zkey/BUILD.bazel b/vendors/circom/circomlib/zkey/BUILD.bazel
index c38b8a8..698eb41 100644
--- a/vendors/circom/circomlib/zkey/BUILD.bazel
+++ b/vendors/circom/circomlib/zkey/BUILD.bazel
@@ -37,7 +37,6 @@ tachyon_cc_library(
         ":proving_key",
         "//circomlib/base:modulus",
         "//circomlib/base:sections",
-        "@kroma_network_tachyon//tachyon/base:auto_reset",
         "@kroma_network_tachyon//tachyon/base:logging",
         "@kroma_network_tachyon//tachyon/base:openmp_util",
         "@kroma_network_tachyon//tachyon/base/buffer:copyable",
diff --git a/vendors/circom/circomlib/zkey/zkey.h b/vendors/circom/circomlib/zkey/zkey.h
index 517b356..89f07b5 100644
--- a/vendors/circom/circomlib/zkey/zkey.h
+++ b/vendors/circom/circomlib/zkey/zkey.h
@@ -15,7 +15,6 @@
 #include "circomlib/base/sections.h"
 #include "circomlib/zkey/coefficient.h"
 #include "circomlib/zkey/proving_key.h"
-#include "tachyon/base/auto_reset.h"
 #include "tachyon/base/buffer/endian_auto_reset.h"
 #include "tachyon/base/buffer/read_only_buffer.h"
 #include "tachyon/base/files/bin_file.h"
@@ -281,11 +280,6 @@ struct ZKey : public circom::ZKey<Curve> {
   bool Read(const base::ReadOnlyBuffer& buffer) override {
     using BaseField = typename G1AffinePoint::BaseField;
 
-    base::AutoReset<bool> auto_reset(&base::Copyable<F>::s_is_in_montgomery,
-                                     true);
-    base::AutoReset<bool> auto_reset2(
-        &base::Copyable<BaseField>::s_is_in_montgomery, true);
-
     Sections<ZKeySectionType> sections(buffer, &ZKeySectionTypeToString);
     if (!sections.Read()) return false;
     if (!sections.AreInBounds()) return false;
-- 
2.43.0


From d00d6a579f2164dc88cf8fe7ae5bc50100cb1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:53 +0000
Subject: [PATCH 69/80] fix: C structs are accessed as native types against the
 aliasing rules

With GCC at -O2, tachyon_bls12_381_g2_projective_generator() returned a
point whose z coordinate was partly uninitialized: the compiler moved the
copy of the C struct before the stores to the native one.
---
 tachyon/c/export.h                                 |  9 +++++++++
 .../c/math/elliptic_curves/generator/point.h.tpl   | 14 +++++++-------
 .../generator/ext_field_generator/ext_field.h.tpl  |  2 +-
 .../prime_field_generator/prime_field.h.tpl        |  4 ++--
 4 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/tachyon/c/export.h b/tachyon/c/export.h
index 3c8c448..f70a68d 100644
--- a/tachyon/c/export.h
+++ b/tachyon/c/export.h
@@ -22,4 +22,13 @@
 #define TACHYON_C_EXPORT
 #endif  // defined(TACHYON_C_SHARED_LIB_BUILD)
 
+// The C structs are reinterpreted as the native types they mirror, and the
+// other way around. Without this, compilers are allowed to assume that an
+// access through one of them does not alias an access through the other.
+#if defined(__GNUC__)
+#define TACHYON_C_MAY_ALIAS __attribute__((__may_alias__))
+#else
+#define TACHYON_C_MAY_ALIAS
+#endif  // defined(__GNUC__)
+
 #endif  // TACHYON_C_EXPORT_H_
diff --git a/tachyon/c/math/elliptic_curves/generator/point.h.tpl b/tachyon/c/math/elliptic_curves/generator/point.h.tpl
index 0bdd045..424bb09 100644
--- a/tachyon/c/math/elliptic_curves/generator/point.h.tpl
+++ b/tachyon/c/math/elliptic_curves/generator/point.h.tpl
@@ -19,7 +19,7 @@
  *
  * @example affine_point.cc
  */
-struct tachyon_%{type}_%{g1_or_g2}_affine {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_affine {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
 };
@@ -33,7 +33,7 @@ struct tachyon_%{type}_%{g1_or_g2}_affine {
  *
  * @example projective_point.cc
  */
-struct tachyon_%{type}_%{g1_or_g2}_projective {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_projective {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
   tachyon_%{type}_%{fq_or_fq2} z;
@@ -47,7 +47,7 @@ struct tachyon_%{type}_%{g1_or_g2}_projective {
  * used for internal calculations to speed up the arithmetic on elliptic curves.
  * @example jacobian_point.cc
  */
-struct tachyon_%{type}_%{g1_or_g2}_jacobian {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_jacobian {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
   tachyon_%{type}_%{fq_or_fq2} z;
@@ -61,7 +61,7 @@ struct tachyon_%{type}_%{g1_or_g2}_jacobian {
  * and storing z^2 and z^3 along with the standard coordinates.
  * @example point_xyzz.cc
  */
-struct tachyon_%{type}_%{g1_or_g2}_xyzz {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_xyzz {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
   tachyon_%{type}_%{fq_or_fq2} zz;
@@ -75,7 +75,7 @@ struct tachyon_%{type}_%{g1_or_g2}_xyzz {
  * This structure can be used for operations where only x and y coordinates are required,
  * and the point is known not to be at infinity.
  */
-struct tachyon_%{type}_%{g1_or_g2}_point2 {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_point2 {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
 };
@@ -87,7 +87,7 @@ struct tachyon_%{type}_%{g1_or_g2}_point2 {
  * This structure is a general representation that can be used in various contexts where
  * a third coordinate is necessary for the calculations.
  */
-struct tachyon_%{type}_%{g1_or_g2}_point3 {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_point3 {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
   tachyon_%{type}_%{fq_or_fq2} z;
@@ -100,7 +100,7 @@ struct tachyon_%{type}_%{g1_or_g2}_point3 {
  * This structure is designed for specific algorithms that require an extra coordinate for
  * efficient computation, such as certain multi-scalar multiplication techniques.
  */
-struct tachyon_%{type}_%{g1_or_g2}_point4 {
+struct TACHYON_C_MAY_ALIAS tachyon_%{type}_%{g1_or_g2}_point4 {
   tachyon_%{type}_%{fq_or_fq2} x;
   tachyon_%{type}_%{fq_or_fq2} y;
   tachyon_%{type}_%{fq_or_fq2} z;
diff --git a/tachyon/c/math/finite_fields/generator/ext_field_generator/ext_field.h.tpl b/tachyon/c/math/finite_fields/generator/ext_field_generator/ext_field.h.tpl
index ff71165..0a86c0c 100644
--- a/tachyon/c/math/finite_fields/generator/ext_field_generator/ext_field.h.tpl
+++ b/tachyon/c/math/finite_fields/generator/ext_field_generator/ext_field.h.tpl
@@ -22,7 +22,7 @@
  * This structure models an element in %{display_name}, which is constructed over the base field %{base_field_display_name}.
  * It is used for cryptographic operations that require arithmetic in an extended finite field.
  */
-struct tachyon_%{class_name} {
+struct TACHYON_C_MAY_ALIAS tachyon_%{class_name} {
   tachyon_%{base_field_class_name} c0;
   tachyon_%{base_field_class_name} c1;
 %{if IsCubicExtension}
diff --git a/tachyon/c/math/finite_fields/generator/prime_field_generator/prime_field.h.tpl b/tachyon/c/math/finite_fields/generator/prime_field_generator/prime_field.h.tpl
index b0587c7..3ae4efc 100644
--- a/tachyon/c/math/finite_fields/generator/prime_field_generator/prime_field.h.tpl
+++ b/tachyon/c/math/finite_fields/generator/prime_field_generator/prime_field.h.tpl
@@ -33,7 +33,7 @@
  * This structure is used to represent an element in the finite field %{display_name},
  * of the %{curve} curve. It stores the element as an array of 64-bit limbs.
  */
-struct tachyon_%{class_name} {
+struct TACHYON_C_MAY_ALIAS tachyon_%{class_name} {
   uint64_t limbs[%{limb_nums}];
 };
 %{endif IsECPrimeField}
@@ -45,7 +45,7 @@ struct tachyon_%{class_name} {
  * This structure is used to represent an element in the finite field %{display_name},
  * It stores the element as a 32-bit value.
  */
-struct tachyon_%{class_name} {
+struct TACHYON_C_MAY_ALIAS tachyon_%{class_name} {
   uint32_t value;
 };
 %{endif IsSmallPrimeField}
-- 
2.43.0


From 2b0e4d077858075a4907888de43660be2d533bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:08 +0000
Subject: [PATCH 70/80] fix: writing values in Montgomery form changes how
 other threads write them

---
 tachyon/math/finite_fields/prime_field_base.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tachyon/math/finite_fields/prime_field_base.h b/tachyon/math/finite_fields/prime_field_base.h
index bfed37a..acf3ee1 100644
--- a/tachyon/math/finite_fields/prime_field_base.h
+++ b/tachyon/math/finite_fields/prime_field_base.h
@@ -193,7 +193,7 @@ class Copyable<
   using value_type = typename T::value_type;
   using BigInt = typename T::BigIntTy;
 
-  static bool s_is_in_montgomery;
+  static thread_local bool s_is_in_montgomery;
 
   static bool WriteTo(const T& prime_field, Buffer* buffer) {
     if constexpr (T::Config::kUseMontgomery) {
@@ -237,9 +237,9 @@ class Copyable<
 
 // static
 template <typename T>
-bool Copyable<T, std::enable_if_t<std::is_base_of_v<math::PrimeFieldBase<T>,
-                                                    T>>>::s_is_in_montgomery =
-    false;
+thread_local bool Copyable<
+    T, std::enable_if_t<std::is_base_of_v<math::PrimeFieldBase<T>, T>>>::
+    s_is_in_montgomery = false;
 
 template <typename T>
 class RapidJsonValueConverter<
@@ -248,7 +248,7 @@ class RapidJsonValueConverter<
   using value_type = typename T::value_type;
   using BigInt = typename T::BigIntTy;
 
-  static bool s_is_in_montgomery;
+  static thread_local bool s_is_in_montgomery;
 
   template <typename Allocator>
   static rapidjson::Value From(const T& value, Allocator& allocator) {
@@ -295,7 +295,7 @@ class RapidJsonValueConverter<
 
 // static
 template <typename T>
-bool RapidJsonValueConverter<
+thread_local bool RapidJsonValueConverter<
     T, std::enable_if_t<std::is_base_of_v<math::PrimeFieldBase<T>, T>>>::
     s_is_in_montgomery = false;
 
-- 
2.43.0


From 7710d95252e7b40eb02f9689e214b166f5053d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:46 +0000
Subject: [PATCH 71/80] fix: a copy of a Merkle tree that owns its leaves
 refers to the leaves of the original

---
 .../field_merkle_tree/field_merkle_tree.h        | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h
index 7014d65..9b6a2d9 100644
--- a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h
@@ -48,6 +48,22 @@ class FieldMerkleTree {
   using PackedDigest = std::array<PackedPrimeField, N>;
 
   FieldMerkleTree() = default;
+  FieldMerkleTree(const FieldMerkleTree& other)
+      : owned_leaves_(other.owned_leaves_),
+        // |other.leaves_| refer to |other.owned_leaves_| if it has any.
+        leaves_(other.owned_leaves_.empty()
+                    ? other.leaves_
+                    : base::Map(owned_leaves_,
+                                [](const math::RowMajorMatrix<F>& owned_leaf) {
+                                  return math::Map(owned_leaf);
+                                })),
+        digest_layers_(other.digest_layers_) {}
+  FieldMerkleTree& operator=(const FieldMerkleTree& other) {
+    if (this != &other) *this = FieldMerkleTree(other);
+    return *this;
+  }
+  FieldMerkleTree(FieldMerkleTree&& other) = default;
+  FieldMerkleTree& operator=(FieldMerkleTree&& other) = default;
 
   template <typename Hasher, typename PackedHasher, typename Compressor,
             typename PackedCompressor>
-- 
2.43.0


From 372ff611eeccb364da51344166df859304a537cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:57 +0000
Subject: [PATCH 72/80] fix: give every thread its own random generator

base::Uniform() and base::Bernoulli() drew from one process-wide absl::BitGen,
which is not thread-safe: threads drawing at the same time could get the same
values, or read outside of the generator's state.
---
 tachyon/base/random.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/base/random.cc b/tachyon/base/random.cc
index ecc69b4..849f738 100644
--- a/tachyon/base/random.cc
+++ b/tachyon/base/random.cc
@@ -3,7 +3,8 @@
 namespace tachyon::base {
 
 absl::BitGen& GetAbslBitGen() {
-  static absl::BitGen bitgen;
+  // NOTE: |absl::BitGen| is not thread-safe, so every thread has its own.
+  static thread_local absl::BitGen bitgen;
   return bitgen;
 }
 
-- 
2.43.0


From 0b827969453179b06cdf3715483c300eac6ccdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:36 +0000
Subject: [PATCH 73/80] fix: collect truth values mapped in parallel without
 sharing bytes

ParallelizeMapByChunkSize() and ParallelizeMap() let several threads write the
elements of one std::vector<bool>, which share bytes, when the callback returns
bool: results of other chunks could be lost.
---
 tachyon/base/parallelize.h | 42 ++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/tachyon/base/parallelize.h b/tachyon/base/parallelize.h
index 2be208d..850530d 100644
--- a/tachyon/base/parallelize.h
+++ b/tachyon/base/parallelize.h
@@ -1,7 +1,10 @@
 #ifndef TACHYON_BASE_PARALLELIZE_H_
 #define TACHYON_BASE_PARALLELIZE_H_
 
+#include <stdint.h>
+
 #include <optional>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -53,17 +56,31 @@ void InvokeParallelizeCallback(size_t size, size_t i, size_t num_chunks,
   }
 }
 
-template <typename Container, typename Callable,
+// NOTE: The elements of |std::vector<bool>| share bytes, so that they can't be
+// written in parallel. The values are collected into a vector of this type.
+template <typename ReturnType>
+using MapValue = std::conditional_t<std::is_same_v<ReturnType, bool>, uint8_t,
+                                    ReturnType>;
+
+template <typename ReturnType>
+std::vector<ReturnType> ToMapResult(
+    std::vector<MapValue<ReturnType>>&& values) {
+  if constexpr (std::is_same_v<ReturnType, bool>) {
+    return std::vector<bool>(values.begin(), values.end());
+  } else {
+    return std::move(values);
+  }
+}
+
+template <typename Container, typename Callable, typename Value,
           typename FunctorTraits = internal::MakeFunctorTraits<Callable>,
           typename RunType = typename FunctorTraits::RunType,
-          typename ReturnType = typename FunctorTraits::ReturnType,
           typename ArgList = internal::ExtractArgs<RunType>,
           typename SpanTy = internal::GetType<0, ArgList>,
           size_t ArgNum = internal::GetSize<ArgList>>
 void InvokeParallelizeCallback(Container& container, size_t i,
                                size_t num_chunks, size_t chunk_size,
-                               Callable callback,
-                               std::vector<ReturnType>& values) {
+                               Callable callback, std::vector<Value>& values) {
   size_t len =
       i == num_chunks - 1 ? std::size(container) - i * chunk_size : chunk_size;
   SpanTy chunk(std::data(container) + i * chunk_size, len);
@@ -77,15 +94,14 @@ void InvokeParallelizeCallback(Container& container, size_t i,
   }
 }
 
-template <typename Callable,
+template <typename Callable, typename Value,
           typename FunctorTraits = internal::MakeFunctorTraits<Callable>,
           typename RunType = typename FunctorTraits::RunType,
-          typename ReturnType = typename FunctorTraits::ReturnType,
           typename ArgList = internal::ExtractArgs<RunType>,
           size_t ArgNum = internal::GetSize<ArgList>>
 void InvokeParallelizeCallback(size_t size, size_t i, size_t num_chunks,
                                size_t chunk_size, Callable callback,
-                               std::vector<ReturnType>& values) {
+                               std::vector<Value>& values) {
   size_t len = i == num_chunks - 1 ? size - i * chunk_size : chunk_size;
   if constexpr (ArgNum == 1) {
     values[i] = callback(len);
@@ -207,17 +223,17 @@ std::vector<ReturnType> ParallelizeMapByChunkSize(Container& container,
                                                   Callable callback) {
   if (chunk_size == 0) return {};
   size_t num_chunks = (std::size(container) + chunk_size - 1) / chunk_size;
-  std::vector<ReturnType> values(num_chunks);
+  std::vector<internal::MapValue<ReturnType>> values(num_chunks);
   if (num_chunks == 1) {
     internal::InvokeParallelizeCallback(container, 0, num_chunks, chunk_size,
                                         callback, values);
-    return values;
+    return internal::ToMapResult<ReturnType>(std::move(values));
   }
   OMP_PARALLEL_FOR(size_t i = 0; i < num_chunks; ++i) {
     internal::InvokeParallelizeCallback(container, i, num_chunks, chunk_size,
                                         callback, values);
   }
-  return values;
+  return internal::ToMapResult<ReturnType>(std::move(values));
 }
 
 // Splits the |size| by |chunk_size| and maps each chunk using the provided
@@ -232,17 +248,17 @@ std::vector<ReturnType> ParallelizeMapByChunkSize(size_t size,
                                                   Callable callback) {
   if (chunk_size == 0) return {};
   size_t num_chunks = (size + chunk_size - 1) / chunk_size;
-  std::vector<ReturnType> values(num_chunks);
+  std::vector<internal::MapValue<ReturnType>> values(num_chunks);
   if (num_chunks == 1) {
     internal::InvokeParallelizeCallback(size, 0, num_chunks, chunk_size,
                                         callback, values);
-    return values;
+    return internal::ToMapResult<ReturnType>(std::move(values));
   }
   OMP_PARALLEL_FOR(size_t i = 0; i < num_chunks; ++i) {
     internal::InvokeParallelizeCallback(size, i, num_chunks, chunk_size,
                                         callback, values);
   }
-  return values;
+  return internal::ToMapResult<ReturnType>(std::move(values));
 }
 
 // Splits the |container| into threads and maps each chunk using the provided
-- 
2.43.0


From 29b54edc1958c98a5bd61237fdfd6162ff67acf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:00 +0000
Subject: [PATCH 74/80] fix: the degree of a multivariate polynomial is that of
 its highest term

Degree() returned the degree of the last term, but terms are ordered by their
last variable first: x0^5 + x1 was said to have degree 1.
---
 .../multivariate/multivariate_sparse_coefficients.h      | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 1514034..38dfea4 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -267,8 +267,13 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr size_t Degree() const {
-    if (IsZero() || IsConstant()) return 0;
-    return terms_.back().Degree();
+    // NOTE: The last term is not always the one of the highest degree. E.g, x₁
+    // comes after x₀².
+    size_t degree = 0;
+    for (const Term& term : terms_) {
+      degree = std::max(degree, term.Degree());
+    }
+    return degree;
   }
 
   constexpr F Evaluate(const Point& points) const {
-- 
2.43.0


From 25774bd7727ddf8f0f6a6b86f641ff9481441ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:58 +0000
Subject: [PATCH 75/80] fix: numbering a path with a double extension drops a
 part of its extension

InsertBeforeExtension(), which GetUniquePath() uses, removes a double
extension such as .tar.gz but put only .gz back, because Extension() did
not know double extensions while RemoveExtension() does.
---
 tachyon/base/files/file_path.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/files/file_path.cc b/tachyon/base/files/file_path.cc
index a056934..9dcdd96 100644
--- a/tachyon/base/files/file_path.cc
+++ b/tachyon/base/files/file_path.cc
@@ -188,11 +188,10 @@ FilePath FilePath::BaseName() const {
 
 std::string FilePath::Extension() const {
   FilePath base(BaseName());
-  std::string_view p = base.value();
-  size_t last_separator =
-      p.find_last_of(kExtensionSeparator, std::string::npos);
-  if (last_separator == std::string::npos) return EmptyString();
-  return std::string(p.substr(last_separator, p.length() - last_separator));
+  const std::string::size_type dot = ExtensionSeparatorPosition(base.path_);
+  if (dot == std::string::npos) return EmptyString();
+
+  return base.path_.substr(dot, std::string::npos);
 }
 
 std::string FilePath::FinalExtension() const {
-- 
2.43.0


From 2eb3aea504969dcc2c7ddc9904283a3d2687b760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:36 +0000
Subject: [PATCH 76/80] fix: re-randomizing a Groth16 proof uses uninitialized
 values instead of random ones

---
 tachyon/zk/r1cs/groth16/prove.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tachyon/zk/r1cs/groth16/prove.h b/tachyon/zk/r1cs/groth16/prove.h
index 30a5033..0c1ef75 100644
--- a/tachyon/zk/r1cs/groth16/prove.h
+++ b/tachyon/zk/r1cs/groth16/prove.h
@@ -256,7 +256,7 @@ Proof<Curve> ReRandomizeProof(const VerifyingKey<Curve>& vk,
     F r1;
     F r2;
 
-    bool AreZeroes() const { return r1.IsZero() && r2.IsZero(); }
+    bool HasZero() const { return r1.IsZero() || r2.IsZero(); }
 
     void Sample() {
       r1 = F::Random();
@@ -264,10 +264,11 @@ Proof<Curve> ReRandomizeProof(const VerifyingKey<Curve>& vk,
     }
   };
 
+  // NOTE: |r1| and |r2| are not initialized before they are sampled.
   Randoms randoms;
-  while (randoms.AreZeroes()) {
+  do {
     randoms.Sample();
-  }
+  } while (randoms.HasZero());
 
   // See figure 1 in the paper referenced above:
   //   A' = (1 / r₁)A
-- 
2.43.0


From 5ee535541bfa93dd508d6f5411884b8900cec9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:33 +0000
Subject: [PATCH 77/80] fix: directories can't be created or copied by a
 relative path

---
 tachyon/base/files/file_util_posix.cc | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/files/file_util_posix.cc b/tachyon/base/files/file_util_posix.cc
index 25a1b5d..a6bfcbb 100644
--- a/tachyon/base/files/file_util_posix.cc
+++ b/tachyon/base/files/file_util_posix.cc
@@ -129,6 +129,13 @@ bool AdvanceEnumeratorWithStat(FileEnumerator* traversal,
   return true;
 }
 
+// Returns the directory that contains |path|. Unlike |FilePath::DirName()|, it
+// is the current directory if |path| is a relative path of one component.
+FilePath ParentOf(const FilePath& path) {
+  FilePath parent = path.StripTrailingSeparators().DirName();
+  return parent.empty() ? FilePath(FilePath::kCurrentDirectory) : parent;
+}
+
 bool DoCopyDirectory(const FilePath& from_path,
                      const FilePath& to_path,
                      bool recursive,
@@ -159,7 +166,7 @@ bool DoCopyDirectory(const FilePath& from_path,
   if (to_exists)
     real_to_path = MakeAbsoluteFilePath(real_to_path);
   else
-    real_to_path = MakeAbsoluteFilePath(real_to_path.DirName());
+    real_to_path = MakeAbsoluteFilePath(ParentOf(real_to_path));
   if (real_to_path.empty())
     return false;
 
@@ -190,7 +197,7 @@ bool DoCopyDirectory(const FilePath& from_path,
   if (recursive && to_exists && S_ISDIR(to_stat.st_mode)) {
     // If the destination already exists and is a directory, then the
     // top level of source needs to be copied.
-    from_path_base = from_path.DirName();
+    from_path_base = from_path.StripTrailingSeparators().DirName();
   }
 
   // The Windows version of this function assumes that non-recursive calls
@@ -202,8 +209,10 @@ bool DoCopyDirectory(const FilePath& from_path,
     // current is the source path, including from_path, so append
     // the suffix after from_path to to_path to create the target_path.
     FilePath target_path(to_path);
-    if (from_path_base != current &&
-        !from_path_base.AppendRelativePath(current, &target_path)) {
+    if (from_path_base.empty() && !from_path.ReferencesParent()) {
+      target_path = to_path.Append(current);
+    } else if (from_path_base != current &&
+               !from_path_base.AppendRelativePath(current, &target_path)) {
       return false;
     }
 
@@ -804,7 +813,8 @@ bool CreateDirectoryAndGetError(const FilePath& full_path,
   FilePath last_path = full_path;
   subpaths.push_back(full_path);
   for (FilePath path = full_path.DirName();
-       path.value() != last_path.value(); path = path.DirName()) {
+       !path.empty() && path.value() != last_path.value();
+       path = path.DirName()) {
     subpaths.push_back(path);
     last_path = path;
   }
-- 
2.43.0


From 543c2c7d2da07bc6e7cea80068b4e6cab5c5f6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:07 +0000
Subject: [PATCH 78/80] fix: proofs made for the PSE vendor of Halo2 are never
 accepted

The quotient is evaluated over the whole extended coset, but rotations,
the Lagrange polynomials and the identity permutation were those of one
coset of the domain.
---
 tachyon/zk/lookup/halo2/evaluator.h           |  9 +++++---
 .../lookup/log_derivative_halo2/evaluator.h   | 17 +++++++-------
 .../plonk/permutation/permutation_evaluator.h |  7 +++---
 .../vanishing/circuit_polynomial_builder.h    | 23 +++++++++++++++----
 .../plonk/vanishing/custom_gate_evaluator.h   |  2 +-
 tachyon/zk/shuffle/evaluator.h                | 11 +++++----
 6 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/tachyon/zk/lookup/halo2/evaluator.h b/tachyon/zk/lookup/halo2/evaluator.h
index 58a4c8c..ae43bf6 100644
--- a/tachyon/zk/lookup/halo2/evaluator.h
+++ b/tachyon/zk/lookup/halo2/evaluator.h
@@ -81,10 +81,13 @@ class Evaluator {
         size_t idx = start + j;
 
         F zero = F::Zero();
-        F table_value = ev.Evaluate(evaluation_input, idx, /*scale=*/1, zero);
+        F table_value =
+            ev.Evaluate(evaluation_input, idx, builder.rotation_scale_, zero);
 
-        RowIndex r_next = Rotation(1).GetIndex(idx, /*scale=*/1, builder.n_);
-        RowIndex r_prev = Rotation(-1).GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_next =
+            Rotation(1).GetIndex(idx, builder.rotation_scale_, builder.n_);
+        RowIndex r_prev =
+            Rotation(-1).GetIndex(idx, builder.rotation_scale_, builder.n_);
 
         F a_minus_s = input_coset[idx] - table_coset[idx];
 
diff --git a/tachyon/zk/lookup/log_derivative_halo2/evaluator.h b/tachyon/zk/lookup/log_derivative_halo2/evaluator.h
index 6a4c706..34e0ada 100644
--- a/tachyon/zk/lookup/log_derivative_halo2/evaluator.h
+++ b/tachyon/zk/lookup/log_derivative_halo2/evaluator.h
@@ -119,17 +119,18 @@ class Evaluator {
         if (idx == 0) {
           inputs_value = base::Map(
               inputs_eval_data,
-              [&inputs_evaluator, &cur_idx](
+              [&builder, &inputs_evaluator, &cur_idx](
                   size_t i, plonk::EvaluationInput<EvalsOrExtendedEvals>&
                                 input_eval_data) {
                 return inputs_evaluator[i].Evaluate(input_eval_data, cur_idx,
-                                                    /*scale=*/1, F::Zero());
+                                                    builder.rotation_scale_,
+                                                    F::Zero());
               });
         } else {
           for (size_t i = 0; i < inputs_value.size(); ++i) {
-            inputs_value[i] =
-                inputs_evaluator[i].Evaluate(inputs_eval_data[i], cur_idx,
-                                             /*scale=*/1, F::Zero());
+            inputs_value[i] = inputs_evaluator[i].Evaluate(
+                inputs_eval_data[i], cur_idx, builder.rotation_scale_,
+                F::Zero());
           }
         }
 
@@ -139,10 +140,10 @@ class Evaluator {
             [](F& acc, const F& input) { return acc *= input; });
 
         // τ(X) = t(X) + β
-        F table_value = table_evaluator.Evaluate(table_eval_data, cur_idx,
-                                                 /*scale=*/1, F::Zero());
+        F table_value = table_evaluator.Evaluate(
+            table_eval_data, cur_idx, builder.rotation_scale_, F::Zero());
         RowIndex r_next =
-            Rotation(1).GetIndex(cur_idx, /*scale=*/1, builder.n_);
+            Rotation(1).GetIndex(cur_idx, builder.rotation_scale_, builder.n_);
 
         // LHS = τ(X) * Π(φᵢ(X)) * (ϕ(ω * X) - ϕ(X))
         F lhs = table_value * inputs_prod *
diff --git a/tachyon/zk/plonk/permutation/permutation_evaluator.h b/tachyon/zk/plonk/permutation/permutation_evaluator.h
index a7c55c1..cf52a76 100644
--- a/tachyon/zk/plonk/permutation/permutation_evaluator.h
+++ b/tachyon/zk/plonk/permutation/permutation_evaluator.h
@@ -68,8 +68,8 @@ class PermutationEvaluator {
         TRACE_EVENT("Subtask", "Evaluate permutation constraints part 2");
         // Except for the first set, enforce:
         // l_first(X) * (zⱼ(X) - zⱼ₋₁(ω⁻¹X)) = 0
-        RowIndex r_last =
-            builder.last_rotation_.GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_last = builder.last_rotation_.GetIndex(
+            idx, builder.rotation_scale_, builder.n_);
         for (size_t j = 0; j < product_cosets_.size(); ++j) {
           if (j == 0) continue;
           chunk[i] *= builder.y_;
@@ -83,7 +83,8 @@ class PermutationEvaluator {
         // And for all the sets we enforce: (1 - (l_last(X) + l_blind(X))) *
         // (zⱼ(ωX) * Πⱼ(p(X) + βsⱼ(X) + γ) - zⱼ(X) Πⱼ(p(X) + δʲβX + γ))
         F current_delta = builder.delta_start_ * beta_term;
-        RowIndex r_next = Rotation(1).GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_next =
+            Rotation(1).GetIndex(idx, builder.rotation_scale_, builder.n_);
 
         for (size_t j = 0; j < product_cosets_.size(); ++j) {
           const std::vector<base::Ref<const EvalsOrExtendedEvals>>&
diff --git a/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h b/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h
index d26417b..bab1767 100644
--- a/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h
+++ b/tachyon/zk/plonk/vanishing/circuit_polynomial_builder.h
@@ -109,16 +109,28 @@ class CircuitPolynomialBuilder {
       const std::vector<PermutationProver<Poly, Evals>>& permutation_provers,
       const std::vector<LookupProver>& lookup_provers,
       const std::vector<shuffle::Prover<Poly, Evals>>& shuffle_provers) {
-    CircuitPolynomialBuilder builder(
-        domain->group_gen(), extended_domain->group_gen(), theta, beta, gamma,
-        y, zeta, proving_key, permutation_provers, lookup_provers,
-        shuffle_provers, poly_tables);
+    // NOTE: PSE evaluates over the whole extended coset at once, whereas Scroll
+    // evaluates over the cosets of |domain| one after another.
+    const F& omega = kVendor == halo2::Vendor::kPSE
+                         ? extended_domain->group_gen()
+                         : domain->group_gen();
+    CircuitPolynomialBuilder builder(omega, extended_domain->group_gen(), theta,
+                                     beta, gamma, y, zeta, proving_key,
+                                     permutation_provers, lookup_provers,
+                                     shuffle_provers, poly_tables);
     builder.domain_ = domain;
     builder.extended_domain_ = extended_domain;
 
     builder.n_ = static_cast<int32_t>(n);
     builder.num_parts_ = extended_domain->size() >> domain->log_size_of_group();
     builder.chunk_len_ = cs_degree - 2;
+    if constexpr (kVendor == halo2::Vendor::kPSE) {
+      builder.n_ = static_cast<int32_t>(extended_domain->size());
+      builder.rotation_scale_ = static_cast<int32_t>(builder.num_parts_);
+      builder.l_first_ = proving_key.l_first();
+      builder.l_last_ = proving_key.l_last();
+      builder.l_active_row_ = proving_key.l_active_row();
+    }
 
     builder.delta_ = GetDelta<F>();
 
@@ -253,7 +265,10 @@ class CircuitPolynomialBuilder {
 
   F current_extended_omega_ = F::One();
 
+  // The number of rows that are evaluated at once, and how many of them a
+  // rotation by one skips.
   int32_t n_ = 0;
+  int32_t rotation_scale_ = 1;
   size_t num_parts_ = 0;
   size_t chunk_len_ = 0;
   const F& omega_;
diff --git a/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h b/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h
index d913b17..803ed87 100644
--- a/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h
+++ b/tachyon/zk/plonk/vanishing/custom_gate_evaluator.h
@@ -52,7 +52,7 @@ class CustomGateEvaluator {
     size_t start = chunk_offset * chunk_size;
     for (size_t i = 0; i < chunk.size(); ++i) {
       chunk[i] = evaluator_.Evaluate(evaluation_input, start + i,
-                                     /*scale=*/1, chunk[i]);
+                                     builder.rotation_scale_, chunk[i]);
     }
   }
 
diff --git a/tachyon/zk/shuffle/evaluator.h b/tachyon/zk/shuffle/evaluator.h
index d64f780..02efaab 100644
--- a/tachyon/zk/shuffle/evaluator.h
+++ b/tachyon/zk/shuffle/evaluator.h
@@ -88,12 +88,13 @@ class Evaluator {
       for (size_t j = 0; j < chunk.size(); ++j) {
         size_t idx = start + j;
 
-        F input_value = input_evaluator.Evaluate(input_eval_data, idx,
-                                                 /*scale=*/1, F::Zero());
-        F value = evaluator.Evaluate(eval_data, idx,
-                                     /*scale=*/1, F::Zero());
+        F input_value = input_evaluator.Evaluate(
+            input_eval_data, idx, builder.rotation_scale_, F::Zero());
+        F value = evaluator.Evaluate(eval_data, idx, builder.rotation_scale_,
+                                     F::Zero());
 
-        RowIndex r_next = Rotation(1).GetIndex(idx, /*scale=*/1, builder.n_);
+        RowIndex r_next =
+            Rotation(1).GetIndex(idx, builder.rotation_scale_, builder.n_);
 
         // l_first(X) * (1 - z(X)) = 0
         chunk[j] *= builder.y_;
-- 
2.43.0


From 815c19e56c462ff4ab3b47a0286c24cab784ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:07 +0000
Subject: [PATCH 79/80] fix: the C reader of a PSE proving key skips the fixed
 cosets

Halo2 writes them after the fixed polynomials, and the prover reads them.
---
 tachyon/c/zk/plonk/keys/proving_key_impl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tachyon/c/zk/plonk/keys/proving_key_impl.h b/tachyon/c/zk/plonk/keys/proving_key_impl.h
index cf086a2..24b3ceb 100644
--- a/tachyon/c/zk/plonk/keys/proving_key_impl.h
+++ b/tachyon/c/zk/plonk/keys/proving_key_impl.h
@@ -69,6 +69,9 @@ class ProvingKeyImpl : public tachyon::zk::plonk::ProvingKey<PS> {
     ReadBuffer(buffer, this->l_active_row_);
     ReadBuffer(buffer, this->fixed_columns_);
     ReadBuffer(buffer, this->fixed_polys_);
+    if constexpr (kVendor == tachyon::zk::plonk::halo2::Vendor::kPSE) {
+      ReadBuffer(buffer, this->fixed_cosets_);
+    }
     ReadBuffer(buffer, this->permutation_proving_key_.permutations_);
     ReadBuffer(buffer, this->permutation_proving_key_.polys_);
     if constexpr (kVendor == tachyon::zk::plonk::halo2::Vendor::kPSE) {
-- 
2.43.0


From a0f1bd85edaa7c4df1da7af1f0ea91a8b4e8b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:07 +0000
Subject: [PATCH 80/80] fix: destroying a Halo2 prover, verifier or proving key
 leaks the handle

---
 tachyon/c/zk/plonk/halo2/bn254_prover.cc           | 4 +++-
 tachyon/c/zk/plonk/halo2/bn254_verifier.cc         | 4 +++-
 tachyon/c/zk/plonk/keys/bn254_plonk_proving_key.cc | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/tachyon/c/zk/plonk/halo2/bn254_prover.cc b/tachyon/c/zk/plonk/halo2/bn254_prover.cc
index 92264cf..b38ae64 100644
--- a/tachyon/c/zk/plonk/halo2/bn254_prover.cc
+++ b/tachyon/c/zk/plonk/halo2/bn254_prover.cc
@@ -516,7 +516,9 @@ tachyon_halo2_bn254_prover* tachyon_halo2_bn254_prover_create_from_params(
 }
 
 void tachyon_halo2_bn254_prover_destroy(tachyon_halo2_bn254_prover* prover) {
-  INVOKE_PROVER(Destroy);
+  auto destroy_extra = [prover]() { INVOKE_PROVER(Destroy); };
+  destroy_extra();
+  delete prover;
 }
 
 uint32_t tachyon_halo2_bn254_prover_get_k(
diff --git a/tachyon/c/zk/plonk/halo2/bn254_verifier.cc b/tachyon/c/zk/plonk/halo2/bn254_verifier.cc
index 647c497..3b03291 100644
--- a/tachyon/c/zk/plonk/halo2/bn254_verifier.cc
+++ b/tachyon/c/zk/plonk/halo2/bn254_verifier.cc
@@ -181,7 +181,9 @@ tachyon_halo2_bn254_verifier* tachyon_halo2_bn254_verifier_create_from_params(
 
 void tachyon_halo2_bn254_verifier_destroy(
     tachyon_halo2_bn254_verifier* verifier) {
-  INVOKE_VERIFIER(Destroy);
+  auto destroy_extra = [verifier]() { INVOKE_VERIFIER(Destroy); };
+  destroy_extra();
+  delete verifier;
 }
 
 bool tachyon_halo2_bn254_verifier_verify_proof(
diff --git a/tachyon/c/zk/plonk/keys/bn254_plonk_proving_key.cc b/tachyon/c/zk/plonk/keys/bn254_plonk_proving_key.cc
index 10df3f5..6602822 100644
--- a/tachyon/c/zk/plonk/keys/bn254_plonk_proving_key.cc
+++ b/tachyon/c/zk/plonk/keys/bn254_plonk_proving_key.cc
@@ -106,7 +106,9 @@ tachyon_bn254_plonk_proving_key_create_from_state(uint8_t vendor,
 
 void tachyon_bn254_plonk_proving_key_destroy(
     tachyon_bn254_plonk_proving_key* pk) {
-  INVOKE(Destroy);
+  auto destroy_extra = [pk]() { INVOKE(Destroy); };
+  destroy_extra();
+  delete pk;
 }
 
 const tachyon_bn254_plonk_verifying_key*
-- 
2.43.0

