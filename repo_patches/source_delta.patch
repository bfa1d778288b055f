From 1595bb6412af7651c015db1e6c1ce1dc044efeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 01/59] fix: report failed allocations of aligned buffers

std::malloc's result was used unchecked, which gave buffers with non-zero size and no data.
---
 LitlContainer/LitlContainer/AlignedBuffer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 365b410..bc466ee 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -10,6 +10,8 @@
 
 #include <algorithm> // copy_n
 #include <cstdint> // uintptr_t
+#include <cstdlib> // malloc, free
+#include <new> // bad_alloc
 #include <sstream>
 
 namespace Litl {
@@ -119,6 +121,9 @@ public:
       AlignmentError::mayThrow(m_data, m_as);
     } else {
       m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
+      if (not m_container) {
+        throw std::bad_alloc();
+      }
       m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
     }
   }
@@ -151,6 +156,9 @@ public:
       m_as = other.m_as;
       if (other.owns()) {
         m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
+        if (not m_container) {
+          throw std::bad_alloc();
+        }
         m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
         std::copy_n(other.m_data, m_size, m_data);
       } else {
-- 
2.43.0


From 56b6bfe15feb78ee6b62aa670c51c64fe4c0f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:37 +0000
Subject: [PATCH 02/59] fix: keep ownership in aligned buffer moves and free
 overwritten memory

The move constructor dropped the container of its source (the memory leaked and the new buffer did not own it),
and assignments leaked the memory previously owned.
---
 LitlContainer/LitlContainer/AlignedBuffer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index bc466ee..a60d942 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -142,7 +142,7 @@ public:
   /**
    * @brief Move constructor.
    */
-  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(), m_data(other.m_data) {
+  AlignedBuffer(AlignedBuffer&& other) : m_size(other.m_size), m_as(other.m_as), m_container(other.m_container), m_data(other.m_data) {
     other.release();
     other.reset();
   }
@@ -152,11 +152,13 @@ public:
    */
   AlignedBuffer& operator=(const AlignedBuffer& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       if (other.owns()) {
         m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
         if (not m_container) {
+          reset();
           throw std::bad_alloc();
         }
         m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
@@ -174,6 +176,7 @@ public:
    */
   AlignedBuffer& operator=(AlignedBuffer&& other) {
     if (this != &other) {
+      reset();
       m_size = other.m_size;
       m_as = other.m_as;
       m_container = other.m_container;
-- 
2.43.0


From 1af5da91e1021d02035d6b9b9674b6c72ab565df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:40 +0000
Subject: [PATCH 03/59] fix: report FITS I/O failures and recover from them

---
 LitlIo/LitlIo/Fits.h | 81 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 74 insertions(+), 7 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index fb743e8..35b639e 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -6,6 +6,7 @@
 #define _LITLIO_FITS_H
 
 #include "LitlRaster/Raster.h"
+#include "LitlTypes/Exceptions.h"
 
 #include <fitsio.h>
 #include <string>
@@ -19,11 +20,21 @@ public:
 
   template <typename TRaster>
   TRaster read() {
+    Session session(*this);
     int naxis = 0;
     fits_open_file(&m_fptr, m_filename.c_str(), READONLY, &m_status);
+    mayThrow("Cannot open");
     fits_get_img_dim(m_fptr, &naxis, &m_status);
+    mayThrow("Cannot read number of axes of");
+    if (TRaster::Dimension >= 0 && naxis != TRaster::Dimension) {
+      throw Exception(
+          "FITS error",
+          "Expected " + std::to_string(TRaster::Dimension) + " axes, found " + std::to_string(naxis) + ": " +
+              m_filename);
+    }
     Position<TRaster::Dimension> shape(naxis);
     fits_get_img_size(m_fptr, naxis, shape.data(), &m_status);
+    mayThrow("Cannot read axis lengths of");
     TRaster out(shape);
     fits_read_img(
         m_fptr,
@@ -34,16 +45,18 @@ public:
         out.data(),
         nullptr,
         &m_status);
-    fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
-    m_fptr = nullptr;
+    mayThrow("Cannot read pixels of");
+    session.close();
+    mayThrow("Cannot close");
     return out;
   }
 
   template <typename TRaster>
   void write(TRaster raster) { // FIXME const
-    fits_create_file(&m_fptr, m_filename.c_str(), &m_status);
     auto shape = raster.shape();
+    Session session(*this);
+    fits_create_file(&m_fptr, m_filename.c_str(), &m_status);
+    mayThrow("Cannot create");
     fits_create_img(
         m_fptr,
         BYTE_IMG, // FIXME
@@ -57,12 +70,66 @@ public:
         raster.size(),
         raster.data(),
         &m_status);
-    fits_close_file(m_fptr, &m_status);
-    // FIXME may throw
-    m_fptr = nullptr;
+    fits_flush_file(m_fptr, &m_status);
+    if (m_status) {
+      session.remove();
+    }
+    mayThrow("Cannot write");
+    session.close();
+    mayThrow("Cannot close");
   }
 
 private:
+  /**
+   * @brief One read or write operation, which starts without error and never leaves the file open.
+   */
+  class Session {
+
+  public:
+    explicit Session(Fits& fits) : m_fits(fits) {
+      m_fits.m_status = 0;
+      fits_clear_errmsg();
+    }
+
+    Session(const Session&) = delete;
+    Session& operator=(const Session&) = delete;
+
+    ~Session() {
+      if (m_fits.m_fptr) {
+        int status = 0;
+        fits_close_file(m_fits.m_fptr, &status);
+        m_fits.m_fptr = nullptr;
+      }
+    }
+
+    /// Close the file.
+    void close() {
+      fits_close_file(m_fits.m_fptr, &m_fits.m_status);
+      m_fits.m_fptr = nullptr;
+    }
+
+    /// Close and remove the (partial) file.
+    void remove() {
+      int status = 0;
+      fits_delete_file(m_fits.m_fptr, &status);
+      m_fits.m_fptr = nullptr;
+    }
+
+  private:
+    Fits& m_fits;
+  };
+
+  /**
+   * @brief Throw if the CFITSIO status is an error.
+   */
+  void mayThrow(const std::string& context) const {
+    if (m_status) {
+      char text[FLEN_STATUS];
+      fits_get_errstatus(m_status, text);
+      throw Exception("FITS error", context + " " + m_filename + ": " + text);
+    }
+  }
+
   std::string m_filename;
   fitsfile* m_fptr;
   int m_status;
-- 
2.43.0


From 52996b67b1d12ed9dd65ca7a69231698589f29f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:50 +0000
Subject: [PATCH 04/59] fix: use the actual pixel type in FITS files

---
 LitlIo/LitlIo/Fits.h | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index 35b639e..1dfbfee 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -10,9 +10,45 @@
 
 #include <fitsio.h>
 #include <string>
+#include <type_traits> // decay_t
 
 namespace Litl {
 
+/// @cond
+namespace Internal {
+
+/**
+ * @brief The CFITSIO image type (in the file) and pixel type (in memory) of a given value type.
+ */
+template <typename T>
+struct FitsTypeCode;
+
+#define LITL_FITS_TYPE_CODE(T, image, pixel) \
+  template <> \
+  struct FitsTypeCode<T> { \
+    static constexpr int Image = image; \
+    static constexpr int Pixel = pixel; \
+  };
+
+LITL_FITS_TYPE_CODE(char, BYTE_IMG, TBYTE)
+LITL_FITS_TYPE_CODE(signed char, SBYTE_IMG, TSBYTE)
+LITL_FITS_TYPE_CODE(unsigned char, BYTE_IMG, TBYTE)
+LITL_FITS_TYPE_CODE(short, SHORT_IMG, TSHORT)
+LITL_FITS_TYPE_CODE(unsigned short, USHORT_IMG, TUSHORT)
+LITL_FITS_TYPE_CODE(int, LONG_IMG, TINT)
+LITL_FITS_TYPE_CODE(unsigned int, ULONG_IMG, TUINT)
+LITL_FITS_TYPE_CODE(long, LONGLONG_IMG, TLONG)
+LITL_FITS_TYPE_CODE(unsigned long, ULONGLONG_IMG, TULONG)
+LITL_FITS_TYPE_CODE(long long, LONGLONG_IMG, TLONGLONG)
+LITL_FITS_TYPE_CODE(unsigned long long, ULONGLONG_IMG, TULONGLONG)
+LITL_FITS_TYPE_CODE(float, FLOAT_IMG, TFLOAT)
+LITL_FITS_TYPE_CODE(double, DOUBLE_IMG, TDOUBLE)
+
+#undef LITL_FITS_TYPE_CODE
+
+} // namespace Internal
+/// @endcond
+
 class Fits {
 
 public:
@@ -38,7 +74,7 @@ public:
     TRaster out(shape);
     fits_read_img(
         m_fptr,
-        TBYTE, // FIXME
+        Internal::FitsTypeCode<std::decay_t<decltype(*out.data())>>::Pixel,
         1,
         out.size(),
         nullptr,
@@ -59,13 +95,13 @@ public:
     mayThrow("Cannot create");
     fits_create_img(
         m_fptr,
-        BYTE_IMG, // FIXME
+        Internal::FitsTypeCode<std::decay_t<decltype(*raster.data())>>::Image,
         raster.dimension(),
         shape.data(),
         &m_status);
     fits_write_img(
         m_fptr,
-        TBYTE, // FIXME
+        Internal::FitsTypeCode<std::decay_t<decltype(*raster.data())>>::Pixel,
         1,
         raster.size(),
         raster.data(),
-- 
2.43.0


From 5fac98f0a6af753752dbd19c461501a7336f805f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 05/59] fix: detect FITS files which were not completely
 written

---
 LitlIo/LitlIo/Fits.h | 53 +++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/LitlIo/LitlIo/Fits.h b/LitlIo/LitlIo/Fits.h
index 1dfbfee..1351318 100644
--- a/LitlIo/LitlIo/Fits.h
+++ b/LitlIo/LitlIo/Fits.h
@@ -8,6 +8,7 @@
 #include "LitlRaster/Raster.h"
 #include "LitlTypes/Exceptions.h"
 
+#include <cstdio> // remove
 #include <fitsio.h>
 #include <string>
 #include <type_traits> // decay_t
@@ -93,6 +94,7 @@ public:
     Session session(*this);
     fits_create_file(&m_fptr, m_filename.c_str(), &m_status);
     mayThrow("Cannot create");
+    session.created();
     fits_create_img(
         m_fptr,
         Internal::FitsTypeCode<std::decay_t<decltype(*raster.data())>>::Image,
@@ -107,12 +109,25 @@ public:
         raster.data(),
         &m_status);
     fits_flush_file(m_fptr, &m_status);
+    session.close();
+    if (raster.size() > 0) { // CFITSIO does not report the failure of the last flush: check that the last pixel is there
+      std::decay_t<decltype(*raster.data())> last;
+      fits_open_file(&m_fptr, session.name(), READONLY, &m_status);
+      fits_read_img(
+          m_fptr,
+          Internal::FitsTypeCode<decltype(last)>::Pixel,
+          raster.size(),
+          1,
+          nullptr,
+          &last,
+          nullptr,
+          &m_status);
+      session.close();
+    }
     if (m_status) {
-      session.remove();
+      std::remove(session.name()); // Partial file
     }
     mayThrow("Cannot write");
-    session.close();
-    mayThrow("Cannot close");
   }
 
 private:
@@ -124,6 +139,7 @@ private:
   public:
     explicit Session(Fits& fits) : m_fits(fits) {
       m_fits.m_status = 0;
+      m_name[0] = '\0';
       fits_clear_errmsg();
     }
 
@@ -131,28 +147,33 @@ private:
     Session& operator=(const Session&) = delete;
 
     ~Session() {
+      close();
+    }
+
+    /// Get the actual file name from CFITSIO.
+    void created() {
+      fits_file_name(m_fits.m_fptr, m_name, &m_fits.m_status);
+    }
+
+    const char* name() const {
+      return m_name;
+    }
+
+    /// Close the file, if open, and keep the first error.
+    void close() {
       if (m_fits.m_fptr) {
         int status = 0;
         fits_close_file(m_fits.m_fptr, &status);
         m_fits.m_fptr = nullptr;
+        if (not m_fits.m_status) {
+          m_fits.m_status = status;
+        }
       }
     }
 
-    /// Close the file.
-    void close() {
-      fits_close_file(m_fits.m_fptr, &m_fits.m_status);
-      m_fits.m_fptr = nullptr;
-    }
-
-    /// Close and remove the (partial) file.
-    void remove() {
-      int status = 0;
-      fits_delete_file(m_fits.m_fptr, &status);
-      m_fits.m_fptr = nullptr;
-    }
-
   private:
     Fits& m_fits;
+    char m_name[FLEN_FILENAME];
   };
 
   /**
-- 
2.43.0


From af71da66cfb7deed5e5ec05cf5ab66223f32e482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 06/59] fix: leave the elapsed time unchanged if an increment
 cannot be recorded

---
 LitlRun/LitlRun/Chronometer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRun/LitlRun/Chronometer.h b/LitlRun/LitlRun/Chronometer.h
index 74f8cac..bc40931 100644
--- a/LitlRun/LitlRun/Chronometer.h
+++ b/LitlRun/LitlRun/Chronometer.h
@@ -67,8 +67,8 @@ public:
     m_toc = std::chrono::steady_clock::now();
     m_running = false;
     const auto inc = std::chrono::duration_cast<TUnit>(m_toc - m_tic);
-    m_elapsed += inc;
     m_container.push_back(inc.count());
+    m_elapsed += inc;
     return inc;
   }
 
-- 
2.43.0


From 27892cd9d3060cd94a31425d8da7bcf3911cf279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 07/59] fix: compute the standard deviation of increments
 without cancellation

---
 LitlRun/LitlRun/Chronometer.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/Chronometer.h b/LitlRun/LitlRun/Chronometer.h
index bc40931..2795a6b 100644
--- a/LitlRun/LitlRun/Chronometer.h
+++ b/LitlRun/LitlRun/Chronometer.h
@@ -5,10 +5,10 @@
 #ifndef _LITLRUN_CHRONOMETER_H
 #define _LITLRUN_CHRONOMETER_H
 
-#include <algorithm> // accumulate, min_element, max_element
+#include <algorithm> // min_element, max_element
 #include <chrono>
 #include <cmath> // sqrt
-#include <numeric> // inner_product
+#include <numeric> // accumulate
 #include <vector>
 
 namespace Litl {
@@ -119,8 +119,10 @@ public:
    */
   double stdev() const {
     const auto m = mean();
-    const auto s2 = std::inner_product(m_container.begin(), m_container.end(), m_container.begin(), 0.);
-    return std::sqrt(s2 / count() - m * m);
+    const auto s2 = std::accumulate(m_container.begin(), m_container.end(), 0., [m](double sum, double e) {
+      return sum + (e - m) * (e - m);
+    });
+    return std::sqrt(s2 / count());
   }
 
   /**
-- 
2.43.0


From c1d511181d8cf27172a011091918a5c1e390f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 08/59] fix: measure pipeline steps with a monotonic clock

---
 LitlRun/LitlRun/StepperPipeline.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRun/LitlRun/StepperPipeline.h b/LitlRun/LitlRun/StepperPipeline.h
index d9b2582..8226836 100644
--- a/LitlRun/LitlRun/StepperPipeline.h
+++ b/LitlRun/LitlRun/StepperPipeline.h
@@ -180,9 +180,9 @@ private:
   template <typename S>
   typename S::Return evaluateGet() {
     if (not evaluated<S>()) { // FIXME not thread-safe
-      const auto start = std::chrono::high_resolution_clock::now();
+      const auto start = std::chrono::steady_clock::now();
       Accessor<S>::evaluate(derived());
-      const auto stop = std::chrono::high_resolution_clock::now();
+      const auto stop = std::chrono::steady_clock::now();
       m_milliseconds[key<S>()] = std::chrono::duration<double, std::milli>(stop - start).count();
     }
     return Accessor<S>::get(derived());
-- 
2.43.0


From ab9d9ab9fe91a3acab7f210aaf730b85ff1658a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 09/59] fix: compute the mean and variance of a distribution as
 floating point values

---
 .../LitlContainer/DataDistribution.h          | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 24b9ee5..21e9906 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -46,10 +46,14 @@ public:
    */
   explicit DataDistribution(std::vector<T>&& values) :
       m_values(std::move(values)), m_sorted(std::is_sorted(m_values.begin(), m_values.end())), m_sum(Limits<T>::zero()),
-      m_sum2(m_sum) {
+      m_mean(Limits<Floating>::zero()), m_dev2(m_mean) {
     for (const auto& v : m_values) {
       m_sum += v;
-      m_sum2 += v * v;
+      m_mean += v;
+    }
+    m_mean /= m_values.size();
+    for (const auto& v : m_values) {
+      m_dev2 += (v - m_mean) * (v - m_mean);
     }
   }
 
@@ -107,7 +111,7 @@ public:
    * @brief Compute the mean.
    */
   Floating mean() {
-    return sum() / size();
+    return m_mean;
   }
 
   /**
@@ -121,7 +125,7 @@ public:
    * @brief Compute the variance.
    */
   Floating variance(bool unbiased = true) {
-    return Floating(m_sum2 - m_sum * m_sum() / size()) / (size() - unbiased);
+    return m_dev2 / (size() - unbiased);
   }
 
   /**
@@ -211,9 +215,14 @@ private:
   T m_sum;
 
   /**
-   * @brief The cached sum of squares.
+   * @brief The cached mean.
+   */
+  Floating m_mean;
+
+  /**
+   * @brief The cached sum of squared deviations from the mean.
    */
-  T m_sum2;
+  Floating m_dev2;
 };
 
 } // namespace Litl
-- 
2.43.0


From b68aa4209b9c86ae26237a743b5e873d29f870a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 10/59] fix: weight quantiles and round deviations properly

---
 LitlContainer/LitlContainer/DataDistribution.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 21e9906..5cb0e33 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -132,12 +132,12 @@ public:
    * @brief Compute the median absolute deviation.
    */
   Floating mad() {
-    std::vector<T> absdev(size());
+    std::vector<Floating> absdev(size());
     const auto m = median();
     std::transform(m_values.begin(), m_values.end(), absdev.begin(), [=](auto e) {
       return std::abs(e - m);
     });
-    return DataDistribution<T>(std::move(absdev)).median();
+    return DataDistribution<Floating>(std::move(absdev)).median();
   }
 
   /**
@@ -155,7 +155,9 @@ public:
       return nth(f);
     }
     const auto d = n - f;
-    return nth(f) * d + nth(f + 1) * (1. - d); // FIXME linear(&nth(f), d);
+    const Floating sup = nth(f + 1);
+    const Floating inf = nth(f); // nth() may move values
+    return inf * (1. - d) + sup * d; // FIXME linear(&nth(f), d);
   }
 
   /**
-- 
2.43.0


From 815ef656cd336c944046b7748afcb9dc8a8d5bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 11/59] fix: count the values at the last bound of a histogram
 in the last bin

---
 LitlContainer/LitlContainer/DataDistribution.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataDistribution.h b/LitlContainer/LitlContainer/DataDistribution.h
index 5cb0e33..5f97c8c 100644
--- a/LitlContainer/LitlContainer/DataDistribution.h
+++ b/LitlContainer/LitlContainer/DataDistribution.h
@@ -182,8 +182,9 @@ public:
       }
       ++countIt;
     }
-    if (it != m_values.end() && *it == bins.back()) {
-      ++(*countIt);
+    while (it != m_values.end() && *it == bins.back()) { // The last bin is closed
+      ++out.back();
+      ++it;
     }
     return out;
   }
-- 
2.43.0


From 113dd698105d2ab1b2062ae7845b83384b2d473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:35 +0000
Subject: [PATCH 12/59] fix: make copies of ball and subraster iterators
 independent of the original

---
 LitlRaster/LitlRaster/BoxIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index de8d662..3558366 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -110,7 +110,7 @@ private:
   /**
    * @brief The screened region.
    */
-  const Box<N>& m_region;
+  Box<N> m_region;
 
   /**
    * @brief The current position.
-- 
2.43.0


From 99343ff20c96c5a6f1140e8bf1012b91b3eb71b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:30 +0000
Subject: [PATCH 13/59] fix: make mutable subrasters iterable

---
 LitlRaster/LitlRaster/SubrasterIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 3065c4a..6c00c8c 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -21,7 +21,7 @@ public:
    * @brief Constructor.
    */
   Iterator(const Subraster<TRaster, Value>& subraster, const Position<Dimension>& position) :
-      m_raster(subraster.raster()), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
+      m_raster(subraster.m_raster), m_beginPlane(project(subraster.region())), m_beginIt(m_beginPlane, position),
       m_width(subraster.region().length(0)), m_current(&m_raster[position]), m_eol(m_current + m_width) {}
 
   /**
-- 
2.43.0


From c62bde57e90b38b3a5c2cb19fb12f9baa13cc25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:45 +0000
Subject: [PATCH 14/59] fix: support views and checked construction of rasters
 of variable dimension

---
 LitlRaster/LitlRaster/Raster.h        |  4 +--
 LitlRaster/LitlRaster/impl/Raster.hpp | 39 +++++++++++----------------
 2 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index afa80e7..ec61f9a 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -205,7 +205,7 @@ public:
   template <typename U, typename... TArgs>
   explicit Raster(Position<N> shape, std::initializer_list<U> list, TArgs&&... args) :
       Container(list, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(list.size(), shapeSize(shape));
+    SizeError::mayThrow(list.size(), shapeSize(m_shape));
   }
 
   /**
@@ -223,7 +223,7 @@ public:
   template <typename TIterable, typename std::enable_if_t<isIterable<TIterable>::value>* = nullptr, typename... TArgs>
   explicit Raster(Position<N> shape, TIterable& iterable, TArgs&&... args) :
       Container(iterable, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(shape));
+    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(m_shape));
   }
 
   /// @group_properties
diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 7323eb0..23dc808 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -81,7 +81,9 @@ const Position<N>& Raster<T, N, THolder>::shape() const {
 
 template <typename T, Index N, typename THolder>
 Box<N> Raster<T, N, THolder>::domain() const {
-  return Box<N>::fromShape(Position<N>::zero(), m_shape);
+  auto front = m_shape; // Not zero(), for variable dimension
+  front.fill(0);
+  return Box<N>::fromShape(std::move(front), m_shape);
 }
 
 template <typename T, Index N, typename THolder>
@@ -174,43 +176,34 @@ PtrRaster<T, M> Raster<T, N, THolder>::slice(const Box<N>& region) {
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N> Raster<T, N, THolder>::section(Index front, Index back) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto sectionShape = m_shape;
+  sectionShape[last] = back - front + 1;
+  return PtrRaster<const T, N> {sectionShape, this->data() + front * shapeStride(m_shape, last)};
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N> Raster<T, N, THolder>::section(Index front, Index back) {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = front;
-  b[last] = back;
-  return slice<N>(Box<N>(f, b));
+  auto sectionShape = m_shape;
+  sectionShape[last] = back - front + 1;
+  return PtrRaster<T, N> {sectionShape, this->data() + front * shapeStride(m_shape, last)};
 }
 
 template <typename T, Index N, typename THolder>
 const PtrRaster<const T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) const {
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
-  // FIXME duplication => return section(index, index).slice<N-1>(Box<N>::whole());
+  Position < N == -1 ? -1 : N - 1 > sectionShape(last);
+  std::copy_n(m_shape.begin(), last, sectionShape.begin());
+  return PtrRaster<const T, N == -1 ? -1 : N - 1> {sectionShape, this->data() + index * shapeStride(m_shape, last)};
+  // FIXME duplication
 }
 
 template <typename T, Index N, typename THolder>
 PtrRaster<T, N == -1 ? -1 : N - 1> Raster<T, N, THolder>::section(Index index) {
-  auto region = domain();
   const auto last = dimension() - 1;
-  auto f = Position<N>::zero();
-  auto b = shape() - 1;
-  f[last] = index;
-  b[last] = index;
-  return slice < N == -1 ? -1 : N - 1 > (Box<N>(f, b));
+  Position < N == -1 ? -1 : N - 1 > sectionShape(last);
+  std::copy_n(m_shape.begin(), last, sectionShape.begin());
+  return PtrRaster<T, N == -1 ? -1 : N - 1> {sectionShape, this->data() + index * shapeStride(m_shape, last)};
   // FIXME duplication
 }
 
-- 
2.43.0


From 5b61d920ecc01e9bef753f799ebb7408db50c934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 15/59] fix: correlate every row and every dimension with the
 right pixels

Rows after the first one started from stale pointers, windows were assumed
to be 2D and to start at the pixel, and kernels larger than the image gave
negative inner boxes. Extrapolated values were converted to the kernel type.
Constant kernels can be applied.
---
 LitlTransforms/LitlTransforms/Kernel.h | 56 ++++++++++++++++----------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index 5741e81..f79ef85 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -66,7 +66,7 @@ public:
    * Correlation is like convolution with the reversed kernel.
    */
   template <typename TRaster, typename TMethod>
-  Raster<Value, Dimension> operator*(const Extrapolator<TRaster, TMethod>& in) {
+  Raster<Value, Dimension> operator*(const Extrapolator<TRaster, TMethod>& in) const {
     Raster<Value, Dimension> out(in.shape());
     correlateTo(in, out);
     return out;
@@ -76,10 +76,23 @@ public:
    * @copybrief operator*()
    */
   template <typename TRaster, typename TMethod, typename TOut>
-  void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) {
-    const auto inner = in.domain() - m_window;
-    const auto outers = inner.surround(m_window);
-    correlateWithoutExtrapolation(Litl::rasterize(in), std::move(inner), out);
+  void correlateTo(const Extrapolator<TRaster, TMethod>& in, TOut& out) const {
+    auto front = m_window.front();
+    auto back = m_window.back();
+    for (Index i = 0; i < m_window.dimension(); ++i) { // The window does not necessarily contain the origin
+      front[i] = std::min(front[i], Index(0));
+      back[i] = std::max(back[i], Index(0));
+    }
+    const Box<N> margin(std::move(front), std::move(back));
+    const auto inner = in.domain() - margin;
+    for (Index i = 0; i < inner.dimension(); ++i) {
+      if (inner.length(i) <= 0) { // The window does not fit in the image
+        correlateWithExtrapolation(in, in.domain(), out);
+        return;
+      }
+    }
+    const auto outers = inner.surround(margin);
+    correlateWithoutExtrapolation(Litl::rasterize(in), inner, out);
     for (const auto& o : outers) {
       correlateWithExtrapolation(in, o, out);
     }
@@ -90,36 +103,37 @@ private:
    * @brief Correlate an input raster over a given region.
    */
   template <typename TRasterIn, typename TRasterOut>
-  void correlateWithoutExtrapolation(const TRasterIn& in, Box<N> box, TRasterOut& out) {
+  void correlateWithoutExtrapolation(const TRasterIn& in, Box<N> box, TRasterOut& out) const {
 
     if (box.size() == 0) {
       return;
     }
 
     // Compute constants
-    auto boxWidth = box.template length<0>();
+    const auto boxWidth = box.length(0);
     box.project(); // Keep front hyperplane only
-    const auto inWidth = in.template length<0>();
-    const auto kWidth = m_window.template length<0>();
-    const auto kRowCount = m_window.size() / kWidth;
+    const auto kWidth = m_window.length(0);
 
-    // Prepare iterators
-    auto inIt = in.data();
-    auto outIt = &out[box.front()];
-    auto kIt = m_values.data();
-    const auto distance = outIt - inIt;
+    // Compute the offsets of the window rows with respect to the window front
+    std::vector<Index> kRows;
+    for (const auto& q : project(m_window)) {
+      kRows.push_back(in.index(q - m_window.front()));
+    }
 
     // Loop over the hyperplane
     for (const auto& p : box) {
 
       // Loop over the rows which begin in the hyperplane
-      outIt = &out[p];
-      for (Index i = boxWidth; i > 0; --i, ++outIt, inIt = outIt - distance, kIt = m_values.data()) {
+      auto inIt = &in[p + m_window.front()];
+      auto outIt = &out[p];
+      for (Index i = boxWidth; i > 0; --i, ++inIt, ++outIt) {
 
         // Compute the weighted sum row by row
         T sum {};
-        for (Index j = kRowCount; j > 0; --j, inIt += inWidth, kIt += kWidth) {
-          sum = std::inner_product(kIt, kIt + kWidth, inIt, sum);
+        auto kIt = m_values.data();
+        for (auto offset : kRows) {
+          sum = std::inner_product(kIt, kIt + kWidth, inIt + offset, sum);
+          kIt += kWidth;
         }
         *outIt = sum;
       }
@@ -130,14 +144,14 @@ private:
    * @brief Correlate an input raster over a given region.
    */
   template <typename TExtrapolatorIn, typename TRasterOut>
-  void correlateWithExtrapolation(const TExtrapolatorIn& in, const Box<N>& box, TRasterOut& out) {
+  void correlateWithExtrapolation(const TExtrapolatorIn& in, const Box<N>& box, TRasterOut& out) const {
 
     if (box.size() == 0) {
       return;
     }
 
     // Allocate extrapolation buffer
-    std::vector<T> buffer(m_values.size());
+    std::vector<typename TExtrapolatorIn::Value> buffer(m_values.size());
 
     // Prepare iterators
     const auto bBegin = buffer.begin();
-- 
2.43.0


From b9d46ef3ac369fc9c036f21d3b0d3fd87397c273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:58 +0000
Subject: [PATCH 16/59] fix: shift data samples by an index, not by a pixel
 value

With small pixel types, shifting by more than the largest pixel value went to
the wrong place.
---
 LitlRaster/LitlRaster/Sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 4d9094b..2921c86 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -323,7 +323,7 @@ public:
   /**
    * @brief Move the data pointer forward.
    */
-  DataSamples& operator+=(T n) {
+  DataSamples& operator+=(Index n) {
     m_data += n;
     return *this;
   }
@@ -331,7 +331,7 @@ public:
   /**
    * @brief Move the data pointer backward.
    */
-  DataSamples& operator-=(T n) {
+  DataSamples& operator-=(Index n) {
     *this += -n;
     return *this;
   }
-- 
2.43.0


From 8ffe8a937fc712a0571836c50b8b3c759a476ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:50 +0000
Subject: [PATCH 17/59] fix: compute the default line kernel origin before
 moving the values

The size was read from a possibly moved-from vector (origin 0 with clang).
---
 LitlTransforms/LitlTransforms/LineKernel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 3b87159..eca4dbd 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -40,7 +40,8 @@ public:
   /**
    * @brief Constructor.
    */
-  explicit LineKernel(std::vector<T> values) : LineKernel(std::move(values), values.size() / 2) {}
+  explicit LineKernel(std::vector<T> values) :
+      Container(std::move(values)), m_origin(this->size() / 2), m_bias() {}
 
   /**
    * @brief Get the window.
-- 
2.43.0


From 990412193891dabea43162a1724cfbf650012d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 18/59] fix: compose separable kernels without reversing them

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 2c4acbf..3a79ec0 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -9,6 +9,7 @@
 #include "LitlTransforms/Kernel.h"
 #include "LitlTransforms/LineKernel.h"
 
+#include <algorithm> // max, reverse
 #include <map>
 #include <vector>
 
@@ -147,8 +148,10 @@ public:
       origin[k.first] = k.second.origin();
     }
     auto raster = Raster<Value, Dimension>(shape).fill(T(0));
-    raster[origin] = T(1);
-    return kernelize(*this * raster, origin);
+    raster[shape - 1 - origin] = T(1);
+    auto values = *this * raster; // Correlating with an impulse reverses the kernel
+    std::reverse(values.begin(), values.end());
+    return kernelize(values, origin);
   }
 
   /**
-- 
2.43.0


From b04bf8d45a5e8ac4fb6e47458f89b5086d4c1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 19/59] fix: correlate lines shorter than the kernel, and
 sampled lines up to their end

The kernel or the line were read out of bounds if the line was shorter than
the kernel, the sampling step was greater than 1 or the sampling ended before
the line. Debug output is removed: it read empty images and mismatched the
formats of floating point values.
---
 LitlTransforms/LitlTransforms/Convolution.h   | 56 +++----------------
 LitlTransforms/LitlTransforms/LineKernel.h    | 14 +++--
 .../LitlTransforms/SeparableKernel.h          |  1 -
 3 files changed, 15 insertions(+), 56 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Convolution.h b/LitlTransforms/LitlTransforms/Convolution.h
index 2f891fa..b104757 100644
--- a/LitlTransforms/LitlTransforms/Convolution.h
+++ b/LitlTransforms/LitlTransforms/Convolution.h
@@ -73,6 +73,8 @@ public:
 
     // Set iterators
     const auto step = in.step();
+    const Index size = in.size();
+    const Index back = in.back();
     DataSamples<const TIn>
         unitIn {in.data(), in.size(), {in.front(), in.back()}, in.stride()}; // step = 1 for inner_product
     auto inIt = unitIn.begin();
@@ -82,24 +84,19 @@ public:
     auto outIt = out.begin();
     Index i = in.front();
 
-    printf("in = [%li:%li:%li:%li]\n", in.front(), in.back(), step, in.stride());
-
     // Backward-croped
-    for (; i < m_backward; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
-      printf("Begin (<%li): out[%li] = %i\n", m_backward, i, *outIt); // FIXME rm
+    for (; i < m_backward && i <= back; i += step, inIt += step, ++outIt) {
+      *outIt = std::inner_product(originData() - i, originData() + std::min(m_forward + 1, size - i), inMinIt, m_bias);
     }
 
     // Central
-    for (; i <= in.size() - m_forward - step; i += step, inIt += step, ++outIt) {
+    for (; i < size - m_forward && i <= back; i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
-      printf("Center (<=%li): out[%li] = %i\n", in.size() - m_forward - step, i, *outIt); // FIXME rm
     }
 
     // Forward-croped
-    for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
-      printf("End (<=%li): out[%li] = %i\n", in.back(), i, *outIt); // FIXME rm
+    for (; i <= back; i += step, inIt += step, ++outIt) {
+      *outIt = std::inner_product(this->begin(), originData() + (size - i), inIt, m_bias);
     }
   }
 
@@ -126,7 +123,6 @@ public:
     const auto yTo = std::min(in.template length<1>() - 1, sampling.template along<1>().back + m_forward);
     const auto xStep = sampling.template along<0>().step;
     const auto yStep = sampling.template along<1>().step;
-    printf("%li-%li:%li - %li-%li:%li\n", xFrom, xTo, xStep, yFrom, yTo, yStep);
 
     // Convolve along x-axis
     const Index xConvolvedWidth = (xTo - xFrom + xStep) / xStep;
@@ -136,67 +132,29 @@ public:
         &in[{0, yFrom}],
         in.template length<0>(),
         {xFrom, xTo, xStep});
-    printf("inSamples: %li-%li:%li:%li\n", inSamples.front(), inSamples.back(), inSamples.step(), inSamples.stride());
     DataSamples<typename TRasterOut::Value> xConvolvedSamples(
         xConvolved.data(),
         xConvolvedWidth,
         {0, Limits<Index>::inf()});
-    printf(
-        "xConvolvedSamples: %li-%li:%li:%li\n",
-        xConvolvedSamples.front(),
-        xConvolvedSamples.back(),
-        xConvolvedSamples.step(),
-        xConvolvedSamples.stride());
     for (Index y = yFrom; y <= yTo; ++y) {
-      printf(
-          "in: %li, xConvolved: %li\n",
-          std::distance(in.data(), inSamples.data()),
-          std::distance(xConvolved.data(), xConvolvedSamples.data()));
       sparseCorrelate1dTo(inSamples, xConvolvedSamples);
       inSamples += in.template length<0>();
       xConvolvedSamples += xConvolvedWidth;
     }
 
-    printf("xConvolved:\n%lix%li\n", xConvolvedWidth, xConvolvedHeight);
-    for (Index y = 0; y < xConvolvedHeight; ++y) {
-      for (Index x = 0; x < xConvolvedWidth; ++x) {
-        printf("%i ", xConvolved[{x, y}]);
-      }
-      printf("\n");
-    }
-
     // Convolve along y-axis
     DataSamples<typename TRasterOut::Value> ySamples(
         xConvolved.data(),
         xConvolvedHeight,
         {sampling.template along<1>().front - yFrom, sampling.template along<1>().back - yFrom, yStep},
         xConvolvedWidth);
-    printf("ySamples: %li-%li:%li:%li\n", ySamples.front(), ySamples.back(), ySamples.step(), ySamples.stride());
     DataSamples<typename TRasterOut::Value>
         outSamples(out.data(), out.template length<1>(), {0, Limits<Index>::inf()}, out.template length<0>());
-    printf(
-        "outSamples: %li-%li:%li:%li\n",
-        outSamples.front(),
-        outSamples.back(),
-        outSamples.step(),
-        outSamples.stride());
     for (Index x = xFrom; x <= xTo; x += xStep) {
-      printf(
-          "xConvolved: %li, out: %li\n",
-          std::distance(xConvolved.data(), ySamples.data()),
-          std::distance(out.data(), outSamples.data()));
       sparseCorrelate1dTo(ySamples, outSamples);
       ySamples += 1;
       outSamples += 1;
     }
-
-    printf("out:\n%lix%li\n", out.template length<0>(), out.template length<1>());
-    for (Index y = 0; y < out.template length<1>(); ++y) {
-      for (Index x = 0; x < out.template length<0>(); ++x) {
-        printf("%i ", out[{x, y}]);
-      }
-      printf("\n");
-    }
   }
 
 private:
diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index eca4dbd..9eedb7b 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -86,6 +86,9 @@ public:
 
     // Set up iterators
     const auto step = in.step();
+    const Index size = in.size();
+    const Index back = in.back();
+    const Index forward = Index(this->size()) - m_origin - 1;
     DataSamples<const TIn>
         unitIn {in.data(), in.size(), {in.front(), in.back()}, in.stride()}; // step = 1 for inner_product
     auto inIt = unitIn.begin();
@@ -96,19 +99,18 @@ public:
     auto i = in.front();
 
     // Backward-croped
-    for (; i < m_origin; i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(originData() - i, this->end(), inMinIt, m_bias);
+    for (; i < m_origin && i <= back; i += step, inIt += step, ++outIt) {
+      *outIt = std::inner_product(originData() - i, originData() + std::min(forward + 1, size - i), inMinIt, m_bias);
     }
 
     // Central
-    const auto forward = this->size() - m_origin - 1;
-    for (; i <= in.size() - forward - step; i += step, inIt += step, ++outIt) {
+    for (; i < size - forward && i <= back; i += step, inIt += step, ++outIt) {
       *outIt = std::inner_product(this->begin(), this->end(), inIt, m_bias);
     }
 
     // Forward-croped
-    for (; i <= in.back(); i += step, inIt += step, ++outIt) {
-      *outIt = std::inner_product(this->begin(), originData() + (in.size() - i), inIt, m_bias);
+    for (; i <= back; i += step, inIt += step, ++outIt) {
+      *outIt = std::inner_product(this->begin(), originData() + (size - i), inIt, m_bias);
     }
   }
 
diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 3a79ec0..8d28e6f 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -204,7 +204,6 @@ private:
   void correlateAlongSeqTo(const TRasterIn& in, TRasterOut& out) const {
     const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);
     correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);
-    printf("%li: %i -> %i\n", J0, tmp[0], out[0]);
   }
 
   template <typename TRasterIn, typename TRasterOut>
-- 
2.43.0


From 8385a196b62fdc94a3ab8c092f7e4138b5a768de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:03 +0000
Subject: [PATCH 20/59] fix: make the Laplacian kernel compile

---
 LitlTransforms/LitlTransforms/SeparableKernel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 8d28e6f..3f775c4 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -93,7 +93,8 @@ public:
    * or `{-1, 2, -1}` if sign is -1.
    */
   static SeparableKernel laplacian(T sign = 1) {
-    return SeparableKernel(LineKernel<T>({sign, sign * -2, sign}));
+    const LineKernel<T> kernel({sign, sign * -2, sign});
+    return SeparableKernel(kernel);
   }
 
   /// @group_properties
-- 
2.43.0


From 6f4c68e35a7b6c295c2d051da9f45d1c60489821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 21/59] fix: average the two central values of median filters
 of even windows

The value after the median was used instead of the one before: with windows of
two pixels, past the end. The default region was not the domain. Constant
filters can be applied.
---
 LitlTransforms/LitlTransforms/MedianFilter.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/MedianFilter.h b/LitlTransforms/LitlTransforms/MedianFilter.h
index 6a62f40..e0222bf 100644
--- a/LitlTransforms/LitlTransforms/MedianFilter.h
+++ b/LitlTransforms/LitlTransforms/MedianFilter.h
@@ -8,6 +8,8 @@
 #include "LitlRaster/Raster.h"
 #include "LitlTransforms/Interpolation.h"
 
+#include <algorithm> // max_element, nth_element
+
 namespace Litl {
 
 /**
@@ -47,7 +49,7 @@ public:
    * @brief Apply the filter.
    */
   template <typename TIn>
-  Raster<typename TIn::Value, TIn::Dimension> apply(const TIn& in) {
+  Raster<typename TIn::Value, TIn::Dimension> apply(const TIn& in) const {
     Raster<typename TIn::Value, TIn::Dimension> out(in.shape());
     applyTo(in, out, out.domain());
     return out;
@@ -57,10 +59,18 @@ public:
    * @brief Apply the filter into a given output raster.
    * @param in The input raster or an extrapolator
    * @param out The output raster
-   * @param region The region to filter in the input raster
+   * @param region The region to filter in the input raster (by default, the whole domain)
+   */
+  template <typename TIn, typename TOut>
+  void applyTo(const TIn& in, TOut& out) const {
+    applyTo(in, out, in.domain());
+  }
+
+  /**
+   * @copydoc applyTo()
    */
   template <typename TIn, typename TOut>
-  void applyTo(const TIn& in, TOut& out, const Box<N>& region = Box<N>::whole()) {
+  void applyTo(const TIn& in, TOut& out, const Box<N>& region) const {
     std::vector<typename TIn::Value> neighbors(m_window.size());
     auto it = neighbors.begin();
     for (const auto& p : region) {
@@ -87,8 +97,7 @@ public:
     if (size % 2 == 1) {
       return *n;
     }
-    std::nth_element(b, n + 1, e);
-    return (*n + *(n + 1)) * .5;
+    return *std::max_element(b, n) * .5 + *n * .5; // The mean of the two central values
   }
 
 private:
-- 
2.43.0


From 2d35f9b2ef08e301be3bf14ce28498986970efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:42 +0000
Subject: [PATCH 22/59] fix: fill infinite vectors with the value isInf()
 checks

---
 LitlRaster/LitlRaster/Vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Vector.h b/LitlRaster/LitlRaster/Vector.h
index 11c4c1b..db1d8da 100644
--- a/LitlRaster/LitlRaster/Vector.h
+++ b/LitlRaster/LitlRaster/Vector.h
@@ -105,7 +105,7 @@ public:
    */
   static Vector<T, N> inf() {
     Vector<T, N> res(std::abs(N));
-    return res.fill(-Limits<T>::inf());
+    return res.fill(Limits<T>::inf());
   }
 
   /**
-- 
2.43.0


From 518547177de90c6ffcedddfd62cbfd4cdd2f05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:12 +0000
Subject: [PATCH 23/59] fix: end the iteration over empty boxes and subrasters
 at once

---
 LitlRaster/LitlRaster/BoxIterator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index 3558366..f07efbe 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -22,6 +22,11 @@ public:
    * @brief The beginning position.
    */
   static Position<N> beginPosition(const Box<N>& box) {
+    for (Index i = 0; i < box.dimension(); ++i) {
+      if (box.length(i) <= 0) { // No position to visit
+        return endPosition(box);
+      }
+    }
     return box.front();
   }
 
-- 
2.43.0


From 0af370bdca074d3983e27307dad635518974c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:14 +0000
Subject: [PATCH 24/59] fix: compute the floor of integral negative values

The result was one less than the input.
---
 LitlTypes/LitlTypes/TypeUtils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/TypeUtils.h b/LitlTypes/LitlTypes/TypeUtils.h
index aa1d0db..e82796e 100644
--- a/LitlTypes/LitlTypes/TypeUtils.h
+++ b/LitlTypes/LitlTypes/TypeUtils.h
@@ -165,7 +165,7 @@ inline T clamp(T in, U min, U max) {
 template <typename TInt, typename TFloat>
 TInt floor(TFloat in) {
   TInt out = in;
-  return out - (in < 0);
+  return out - (in < out);
 }
 
 /**
-- 
2.43.0


From 31cb6b28e1c0f1d4db471954c162925a5d416827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:14 +0000
Subject: [PATCH 25/59] fix: interpolate with the right weights, also at
 negative positions

Linear interpolation swapped the weights of the two neighbors, nearest neighbor
interpolation rounded negative positions up, and the neighbors were read, possibly out of
bounds, even if the position was that of a pixel.
---
 .../LitlTransforms/InterpolationMethods.h     | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/InterpolationMethods.h b/LitlTransforms/LitlTransforms/InterpolationMethods.h
index 9f2c8ba..948808f 100644
--- a/LitlTransforms/LitlTransforms/InterpolationMethods.h
+++ b/LitlTransforms/LitlTransforms/InterpolationMethods.h
@@ -60,7 +60,7 @@ struct NearestNeighbor {
   inline T at(TRaster& raster, const Vector<double, TRaster::Dimension>& position) const {
     Position<TRaster::Dimension> integral(position.size());
     std::transform(position.begin(), position.end(), integral.begin(), [](auto e) {
-      return e + .5;
+      return floor<Index>(e + .5);
     });
     return raster[integral];
   }
@@ -100,8 +100,11 @@ struct Linear {
     const auto f = floor<Index>(position.front());
     const auto d = position.front() - f;
     const T p = raster[{f, indices...}];
+    if (d == 0) { // The next pixel may not exist
+      return p;
+    }
     const T n = raster[{f + 1, indices...}];
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 
   template <typename T, Index N, typename TRaster, typename... TIndices>
@@ -111,8 +114,11 @@ struct Linear {
     const auto d = position.back() - f;
     const auto pos = position.template slice<N - 1>();
     const auto p = at<T>(raster, pos, f, indices...);
+    if (d == 0) {
+      return p;
+    }
     const auto n = at<T>(raster, pos, f + 1, indices...);
-    return d * (p - n) + n;
+    return d * (n - p) + p;
   }
 };
 
@@ -126,8 +132,11 @@ struct Cubic {
   inline T at(const TRaster& raster, const Vector<double, 1>& position, TIndices... indices) const {
     const auto f = floor<Index>(position.front());
     const auto d = position.front() - f;
-    const T pp = raster[{f - 1, indices...}];
     const T p = raster[{f, indices...}];
+    if (d == 0) { // The neighbors may not exist
+      return p;
+    }
+    const T pp = raster[{f - 1, indices...}];
     const T n = raster[{f + 1, indices...}];
     const T nn = raster[{f + 2, indices...}];
     return p + 0.5 * (d * (-pp + n) + d * d * (2 * pp - 5 * p + 4 * n - nn) + d * d * d * (-pp + 3 * p - 3 * n + nn));
@@ -139,8 +148,11 @@ struct Cubic {
     const auto f = floor<Index>(position.back());
     const auto d = position.back() - f;
     const auto pos = position.template slice<N - 1>();
-    const auto pp = at<T>(raster, pos, f - 1, indices...);
     const auto p = at<T>(raster, pos, f, indices...);
+    if (d == 0) {
+      return p;
+    }
+    const auto pp = at<T>(raster, pos, f - 1, indices...);
     const auto n = at<T>(raster, pos, f + 1, indices...);
     const auto nn = at<T>(raster, pos, f + 2, indices...);
     return p + 0.5 * (d * (-pp + n) + d * d * (2 * pp - 5 * p + 4 * n - nn) + d * d * d * (-pp + 3 * p - 3 * n + nn));
-- 
2.43.0


From b469f0a079cb29897fe657b69d6602fdec38399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:08 +0000
Subject: [PATCH 26/59] fix: destroy each FFTW plan exactly once, report the
 plans which cannot be created

---
 LitlTransforms/LitlTransforms/Dft.h       | 28 ++++++++---------
 LitlTransforms/LitlTransforms/DftMemory.h | 37 +++++++++++++++++++----
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/Dft.h b/LitlTransforms/LitlTransforms/Dft.h
index f1b9b3b..3ae6082 100644
--- a/LitlTransforms/LitlTransforms/Dft.h
+++ b/LitlTransforms/LitlTransforms/Dft.h
@@ -97,7 +97,7 @@ struct DftTransformMixin {
    * @brief Allocate an FFTW plan.
    */
   template <Index N>
-  static FftwPlanPtr allocateFftwPlan(AlignedRaster<TIn, N>& in, AlignedRaster<TOut, N>& out);
+  static fftw_plan allocateFftwPlan(AlignedRaster<TIn, N>& in, AlignedRaster<TOut, N>& out);
 };
 
 /**
@@ -123,7 +123,7 @@ struct DftTransformMixin<TIn, TOut, Inverse<TTransform>> {
   }
 
   template <Index N>
-  static FftwPlanPtr allocateFftwPlan(AlignedRaster<TOut, N>& in, AlignedRaster<TIn, N>& out);
+  static fftw_plan allocateFftwPlan(AlignedRaster<TOut, N>& in, AlignedRaster<TIn, N>& out);
 };
 
 template <typename TTransform>
@@ -145,26 +145,26 @@ Position<N> RealDftTransform::Base::outShape(const Position<N>& shape) {
 
 template <>
 template <Index N>
-FftwPlanPtr RealDftTransform::Base::allocateFftwPlan(RealDftBuffer<N>& in, ComplexDftBuffer<N>& out) {
+fftw_plan RealDftTransform::Base::allocateFftwPlan(RealDftBuffer<N>& in, ComplexDftBuffer<N>& out) {
   auto shape = fftwShape(in);
-  return std::make_unique<fftw_plan>(fftw_plan_dft_r2c(
+  return fftw_plan_dft_r2c(
       shape.size(),
       shape.data(),
       reinterpret_cast<double*>(in.data()),
       reinterpret_cast<fftw_complex*>(out.data()),
-      FFTW_MEASURE));
+      FFTW_MEASURE);
 }
 
 template <>
 template <Index N>
-FftwPlanPtr Inverse<RealDftTransform>::Base::allocateFftwPlan(ComplexDftBuffer<N>& in, RealDftBuffer<N>& out) {
+fftw_plan Inverse<RealDftTransform>::Base::allocateFftwPlan(ComplexDftBuffer<N>& in, RealDftBuffer<N>& out) {
   auto shape = fftwShape(out);
-  return std::make_unique<fftw_plan>(fftw_plan_dft_c2r(
+  return fftw_plan_dft_c2r(
       shape.size(),
       shape.data(),
       reinterpret_cast<fftw_complex*>(in.data()),
       reinterpret_cast<double*>(out.data()),
-      FFTW_MEASURE));
+      FFTW_MEASURE);
 }
 
 /**
@@ -175,28 +175,28 @@ struct ComplexDftTransform : DftTransformMixin<std::complex<double>, std::comple
 
 template <>
 template <Index N>
-FftwPlanPtr ComplexDftTransform::Base::allocateFftwPlan(ComplexDftBuffer<N>& in, ComplexDftBuffer<N>& out) {
+fftw_plan ComplexDftTransform::Base::allocateFftwPlan(ComplexDftBuffer<N>& in, ComplexDftBuffer<N>& out) {
   auto shape = fftwShape(in);
-  return std::make_unique<fftw_plan>(fftw_plan_dft(
+  return fftw_plan_dft(
       shape.size(),
       shape.data(),
       reinterpret_cast<fftw_complex*>(in.data()),
       reinterpret_cast<fftw_complex*>(out.data()),
       FFTW_FORWARD,
-      FFTW_MEASURE));
+      FFTW_MEASURE);
 }
 
 template <>
 template <Index N>
-FftwPlanPtr Inverse<ComplexDftTransform>::Base::allocateFftwPlan(ComplexDftBuffer<N>& in, ComplexDftBuffer<N>& out) {
+fftw_plan Inverse<ComplexDftTransform>::Base::allocateFftwPlan(ComplexDftBuffer<N>& in, ComplexDftBuffer<N>& out) {
   auto shape = fftwShape(out);
-  return std::make_unique<fftw_plan>(fftw_plan_dft(
+  return fftw_plan_dft(
       shape.size(),
       shape.data(),
       reinterpret_cast<fftw_complex*>(in.data()),
       reinterpret_cast<fftw_complex*>(out.data()),
       FFTW_BACKWARD,
-      FFTW_MEASURE));
+      FFTW_MEASURE);
 }
 
 } // namespace Internal
diff --git a/LitlTransforms/LitlTransforms/DftMemory.h b/LitlTransforms/LitlTransforms/DftMemory.h
index 2117e1f..dab2984 100644
--- a/LitlTransforms/LitlTransforms/DftMemory.h
+++ b/LitlTransforms/LitlTransforms/DftMemory.h
@@ -5,6 +5,8 @@
 #ifndef _LITLTRANSFORMS_DFTMEMORY_H
 #define _LITLTRANSFORMS_DFTMEMORY_H
 
+#include "LitlTypes/Exceptions.h"
+
 #include <complex>
 #include <fftw3.h>
 #include <memory>
@@ -14,12 +16,19 @@ namespace Litl {
 /// @cond
 namespace Internal {
 
+/**
+ * @brief Destroy the plan and free the memory which holds it.
+ */
+struct FftwPlanDeleter {
+  void operator()(fftw_plan* plan) const;
+};
+
 /**
  * @brief RAII wrapper for `fftw_plan`.
  * @details
- * `FftwPlan::get()` returns an `fftw_plan`.
+ * `FftwPlan::get()` returns a pointer to an `fftw_plan`.
  */
-using FftwPlanPtr = std::unique_ptr<fftw_plan>;
+using FftwPlanPtr = std::unique_ptr<fftw_plan, FftwPlanDeleter>;
 
 } // namespace Internal
 /// @endcond
@@ -74,19 +83,35 @@ public:
   template <typename TTransform, typename TIn, typename TOut>
   static Internal::FftwPlanPtr createPlan(TIn& in, TOut& out) {
     instantiate();
-    return TTransform::allocateFftwPlan(in, out);
+    Internal::FftwPlanPtr plan(new fftw_plan(nullptr));
+    *plan = TTransform::allocateFftwPlan(in, out);
+    if (not *plan) {
+      throw Exception("FFTW error", "Cannot create plan");
+    }
+    return plan;
   }
 
   /**
    * @brief Destroy a plan.
    */
   static void destroyPlan(Internal::FftwPlanPtr& plan) {
-    if (plan) {
-      fftw_destroy_plan(*plan);
-    }
+    plan.reset();
   }
 };
 
+/// @cond
+namespace Internal {
+
+inline void FftwPlanDeleter::operator()(fftw_plan* plan) const {
+  if (*plan) {
+    fftw_destroy_plan(*plan);
+  }
+  delete plan;
+}
+
+} // namespace Internal
+/// @endcond
+
 } // namespace Litl
 
 #endif
-- 
2.43.0


From 0eb64681c02a6b8e37312575897172cb2d24a55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:08 +0000
Subject: [PATCH 27/59] fix: guard the FFTW planner, which is not thread-safe

---
 LitlTransforms/LitlTransforms/DftMemory.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/DftMemory.h b/LitlTransforms/LitlTransforms/DftMemory.h
index dab2984..9f45d79 100644
--- a/LitlTransforms/LitlTransforms/DftMemory.h
+++ b/LitlTransforms/LitlTransforms/DftMemory.h
@@ -10,6 +10,7 @@
 #include <complex>
 #include <fftw3.h>
 #include <memory>
+#include <mutex>
 
 namespace Litl {
 
@@ -40,6 +41,8 @@ using FftwPlanPtr = std::unique_ptr<fftw_plan, FftwPlanDeleter>;
  * The destructor, which is executed once (at the end of the program), calls `fftw_cleanup()`.
  */
 class FftwAllocator {
+  friend struct Internal::FftwPlanDeleter;
+
 private:
   /**
    * @brief Private constructor.
@@ -82,9 +85,12 @@ public:
    */
   template <typename TTransform, typename TIn, typename TOut>
   static Internal::FftwPlanPtr createPlan(TIn& in, TOut& out) {
-    instantiate();
+    auto& allocator = instantiate();
     Internal::FftwPlanPtr plan(new fftw_plan(nullptr));
-    *plan = TTransform::allocateFftwPlan(in, out);
+    {
+      std::lock_guard<std::mutex> lock(allocator.m_mutex); // The planner is not thread-safe
+      *plan = TTransform::allocateFftwPlan(in, out);
+    }
     if (not *plan) {
       throw Exception("FFTW error", "Cannot create plan");
     }
@@ -97,6 +103,12 @@ public:
   static void destroyPlan(Internal::FftwPlanPtr& plan) {
     plan.reset();
   }
+
+private:
+  /**
+   * @brief Guard of the planner.
+   */
+  std::mutex m_mutex;
 };
 
 /// @cond
@@ -104,6 +116,7 @@ namespace Internal {
 
 inline void FftwPlanDeleter::operator()(fftw_plan* plan) const {
   if (*plan) {
+    std::lock_guard<std::mutex> lock(FftwAllocator::instantiate().m_mutex);
     fftw_destroy_plan(*plan);
   }
   delete plan;
-- 
2.43.0


From 0e3e85076b4eebbde2c16b8cf330839eec56d13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 28/59] fix: leave aligned buffers unchanged when their copy
 assignment runs out of memory

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index a60d942..37da2b3 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -152,19 +152,21 @@ public:
    */
   AlignedBuffer& operator=(const AlignedBuffer& other) {
     if (this != &other) {
+      void* container = nullptr;
+      if (other.owns()) {
+        container = std::malloc(sizeof(T) * other.m_size + other.m_as - 1);
+        if (not container) { // Leave this unchanged
+          throw std::bad_alloc();
+        }
+      }
       reset();
       m_size = other.m_size;
       m_as = other.m_as;
+      m_container = container;
       if (other.owns()) {
-        m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
-        if (not m_container) {
-          reset();
-          throw std::bad_alloc();
-        }
         m_data = reinterpret_cast<T*>((std::uintptr_t(m_container) + (m_as - 1)) & ~(m_as - 1));
         std::copy_n(other.m_data, m_size, m_data);
       } else {
-        m_container = other.m_container;
         m_data = other.m_data;
       }
     }
-- 
2.43.0


From df07011cd08e07118a1b90e48061cffc55bf5535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 29/59] fix: leave data holders unchanged when their copy
 assignment runs out of memory

---
 LitlContainer/LitlContainer/Holders.h | 31 +++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/LitlContainer/LitlContainer/Holders.h b/LitlContainer/LitlContainer/Holders.h
index 42f1f0a..2a3cc5a 100644
--- a/LitlContainer/LitlContainer/Holders.h
+++ b/LitlContainer/LitlContainer/Holders.h
@@ -88,6 +88,37 @@ public:
     SizeError::mayThrow(m_container.size(), size);
   }
 
+  /**
+   * @brief Copy constructor.
+   */
+  StdHolder(const StdHolder&) = default;
+
+  /**
+   * @brief Move constructor.
+   */
+  StdHolder(StdHolder&&) = default;
+
+  /**
+   * @brief Copy assignment operator.
+   * @details
+   * If memory is lacking, the holder is left unchanged,
+   * which `std::valarray` for example does not ensure.
+   */
+  StdHolder& operator=(const StdHolder& other) {
+    if (m_container.size() == other.m_container.size()) {
+      m_container = other.m_container;
+    } else {
+      Container copy(other.m_container);
+      m_container = std::move(copy);
+    }
+    return *this;
+  }
+
+  /**
+   * @brief Move assignment operator.
+   */
+  StdHolder& operator=(StdHolder&&) = default;
+
   /// @group_properties
 
   /**
-- 
2.43.0


From 4c4a6c0032c9699ebd80685145a025d3d483ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 30/59] fix: keep the shape and the values of rasters
 consistent when copy assignment runs out of memory

---
 LitlRaster/LitlRaster/Raster.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index ec61f9a..d1614d8 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -173,9 +173,23 @@ public:
   /// @group_construction
 
   LITL_VIRTUAL_DTOR(Raster)
-  LITL_DEFAULT_COPYABLE(Raster)
   LITL_DEFAULT_MOVABLE(Raster)
 
+  /**
+   * @brief Copy constructor.
+   */
+  Raster(const Raster&) = default;
+
+  /**
+   * @brief Copy assignment operator.
+   */
+  Raster& operator=(const Raster& other) {
+    auto shape = other.m_shape; // May throw: not after the values have changed
+    Container::operator=(other);
+    m_shape = std::move(shape);
+    return *this;
+  }
+
   /**
    * @brief Forwarding constructor.
    * @param shape The raster shape
-- 
2.43.0


From a3c1984c92c402fe060d6ab0c6d4e52450e6519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 31/59] fix: assign both bounds of a box or none

---
 LitlRaster/LitlRaster/Box.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 7b919f0..156835e 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -38,6 +38,20 @@ public:
    */
   Box(Position<N> front, Position<N> back) : m_front(std::move(front)), m_back(std::move(back)) {}
 
+  LITL_DEFAULT_MOVABLE(Box)
+
+  /**
+   * @brief Copy constructor.
+   */
+  Box(const Box&) = default;
+
+  /**
+   * @brief Copy assignment operator.
+   */
+  Box& operator=(const Box& other) {
+    return *this = Box(other); // Both bounds or none
+  }
+
   /**
    * @brief Create a box from a front position and shape.
    */
-- 
2.43.0


From eb9e3021702418a515e5cd7531c4d7c0324c79fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:25 +0000
Subject: [PATCH 32/59] fix: assign both the values and the window of a kernel
 or none

---
 LitlTransforms/LitlTransforms/Kernel.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/LitlTransforms/LitlTransforms/Kernel.h b/LitlTransforms/LitlTransforms/Kernel.h
index f79ef85..9ea6932 100644
--- a/LitlTransforms/LitlTransforms/Kernel.h
+++ b/LitlTransforms/LitlTransforms/Kernel.h
@@ -32,6 +32,20 @@ public:
    */
   Kernel(const T* values, Box<N> window) : m_values(values, values + window.size()), m_window(std::move(window)) {}
 
+  LITL_DEFAULT_MOVABLE(Kernel)
+
+  /**
+   * @brief Copy constructor.
+   */
+  Kernel(const Kernel&) = default;
+
+  /**
+   * @brief Copy assignment operator.
+   */
+  Kernel& operator=(const Kernel& other) {
+    return *this = Kernel(other); // Both values and window or none
+  }
+
   /**
    * @brief Get the window.
    */
-- 
2.43.0


From ed18f6a81bd8832fa922b17119a7e7474cea368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:08 +0000
Subject: [PATCH 33/59] fix: declare options of a copied ProgramOptions in the
 copy

---
 LitlRun/LitlRun/ProgramOptions.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index 355700e..ef30d1d 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -49,7 +49,7 @@ public:
    * @brief Make a `ProgramOptions` with optional description string.
    */
   ProgramOptions(const std::string& description = "") :
-      m_named(describe(description)), m_add(m_named.add_options()), m_positional(), m_variables() {}
+      m_named(describe(description)), m_positional(), m_variables() {}
 
   /**
    * @brief Declare a positional option.
@@ -71,7 +71,7 @@ public:
    * @brief Declare a positional option with custom semantics.
    */
   void positional(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
     const int maxArgs = value->max_tokens();
     m_positional.add(name, maxArgs);
   }
@@ -102,7 +102,7 @@ public:
    * A short form (1-character) of the option can be provided, separated by a comma.
    */
   void named(const char* name, const ValueSemantics* value, const char* description) {
-    m_add(name, value, description);
+    m_named.add_options()(name, value, description);
   }
 
   /**
@@ -182,7 +182,6 @@ private:
   }
 
   OptionsDescription m_named;
-  boost::program_options::options_description_easy_init m_add;
   PositionalOptionsDescription m_positional;
   boost::program_options::variables_map m_variables;
 };
-- 
2.43.0


From 024916d8e75c8cb8f8634c584e292568f6da229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:08 +0000
Subject: [PATCH 34/59] fix: leave program options unchanged when a command
 line is refused

---
 LitlRun/LitlRun/ProgramOptions.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index ef30d1d..6d9b1fa 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -123,10 +123,12 @@ public:
    * @brief Parse a command line (`main`-like).
    */
   void parse(int argc, const char* const argv[]) {
+    auto variables = m_variables; // May throw: the options are then left unchanged
     boost::program_options::store(
         boost::program_options::command_line_parser(argc, argv).options(m_named).positional(m_positional).run(),
-        m_variables);
-    boost::program_options::notify(m_variables);
+        variables);
+    boost::program_options::notify(variables);
+    m_variables = std::move(variables);
   }
 
   /**
-- 
2.43.0


From a0f8a439a48b7cc926ed360b2763157dafae6499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:08 +0000
Subject: [PATCH 35/59] fix: report the lack of memory when splitting a command
 line

---
 LitlRun/LitlRun/ProgramOptions.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/LitlRun/LitlRun/ProgramOptions.h b/LitlRun/LitlRun/ProgramOptions.h
index 6d9b1fa..ead3e24 100644
--- a/LitlRun/LitlRun/ProgramOptions.h
+++ b/LitlRun/LitlRun/ProgramOptions.h
@@ -154,6 +154,7 @@ public:
    */
   void parse(const std::string& args) {
     std::istringstream iss(args);
+    iss.exceptions(std::ios::badbit); // Lack of memory is not the end of the arguments
     parse(std::vector<std::string>(std::istream_iterator<std::string> {iss}, std::istream_iterator<std::string>()));
   }
 
-- 
2.43.0


From a00e2aebd25fdf1d6c6e0cca9a81dcdaa943709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 36/59] fix: read a scalar operand once, as it may be an
 element of the container

---
 LitlContainer/LitlContainer/Arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 3e86bba..900cf22 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -31,7 +31,7 @@ namespace Litl {
         static_cast<TDerived*>(this)->begin(), \
         static_cast<TDerived*>(this)->end(), \
         static_cast<TDerived*>(this)->begin(), \
-        [&](auto e) { \
+        [=](auto e) { /* Copy rhs, which may be an element of the container */ \
           return e op rhs; \
         }); \
     return static_cast<TDerived&>(*this); \
-- 
2.43.0


From 7cdf9f0db6c42d84eb1e4a840050b7ada54f8a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 37/59] fix: subtract a container from a scalar element by
 element

---
 LitlContainer/LitlContainer/Arithmetic.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 900cf22..2c05ef0 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -86,7 +86,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived, T>,
     boost::modable<TDerived>,
@@ -145,6 +144,17 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
     return *this;
   }
 
+  /**
+   * @brief Compute W = a - U.
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [=](auto e) {
+      return lhs - e;
+    });
+    return res;
+  }
+
   /**
    * @brief Compute the opposite.
    */
@@ -169,7 +179,6 @@ template <typename T, typename TDerived>
 struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     boost::additive<TDerived>,
     boost::additive<TDerived, T>,
-    boost::subtractable2_left<TDerived, T>,
     boost::unit_steppable<TDerived>,
     boost::multiplicative<TDerived>,
     boost::multiplicative<TDerived, T>,
@@ -231,6 +240,17 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
     return *this;
   }
 
+  /**
+   * @brief Compute W = a - U.
+   */
+  friend TDerived operator-(const T& lhs, const TDerived& rhs) {
+    TDerived res = rhs;
+    std::transform(res.begin(), res.end(), res.begin(), [=](auto e) {
+      return lhs - e;
+    });
+    return res;
+  }
+
   /**
    * @brief Compute the opposite.
    */
-- 
2.43.0


From 0c955e5fb3634e02f6ba2d357bef5fc5fcc6e451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 38/59] fix: return a container from the unary plus operator

---
 LitlContainer/LitlContainer/Arithmetic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/Arithmetic.h b/LitlContainer/LitlContainer/Arithmetic.h
index 2c05ef0..6a4726f 100644
--- a/LitlContainer/LitlContainer/Arithmetic.h
+++ b/LitlContainer/LitlContainer/Arithmetic.h
@@ -141,7 +141,7 @@ struct ArithmeticMixin<VectorArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
@@ -237,7 +237,7 @@ struct ArithmeticMixin<EuclidArithmetic, T, TDerived> :
    * @brief Copy.
    */
   TDerived operator+() const {
-    return *this;
+    return static_cast<const TDerived&>(*this);
   }
 
   /**
-- 
2.43.0


From b9c4a100d551aa77629ca666e14cab3920e2dee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 39/59] fix: do not hide the element-wise min() and max()

---
 LitlContainer/LitlContainer/DataContainer.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 82cf2c6..5150e80 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -215,6 +215,16 @@ public:
 
   /// @group_operations
 
+  /**
+   * @brief Inherit the element-wise `min()`.
+   */
+  using MathFunctionsMixin<T, TDerived>::min;
+
+  /**
+   * @brief Inherit the element-wise `max()`.
+   */
+  using MathFunctionsMixin<T, TDerived>::max;
+
   /**
    * @brief Get a reference to the (first) min element.
    * @see `distribution()`
-- 
2.43.0


From 5bb4bf96995fe0f41510036ca740d1b10903c842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 40/59] fix: space values evenly downwards, and in containers
 of zero or one element

---
 LitlContainer/LitlContainer/DataContainer.h | 25 +++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 5150e80..0440d38 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -141,10 +141,11 @@ public:
    */
   TDerived& range(const T& min = Limits<T>::zero(), const T& step = Limits<T>::one()) {
     auto v = min;
+    const auto s = step; // Which may be an element of the container
     auto& t = static_cast<TDerived&>(*this);
     for (auto& e : t) {
       e = v;
-      v += step;
+      v += s;
     }
     return t;
   }
@@ -160,13 +161,23 @@ public:
    * @see `range()`
    */
   TDerived& linspace(const T& min = Limits<T>::zero(), const T& max = Limits<T>::one()) {
-    const auto step = (max - min) / (this->size() - 1);
-    auto it = this->begin();
-    for (std::size_t i = 0; i < this->size() - 1; ++i, ++it) {
-      *it = min + step * i;
+    auto& t = static_cast<TDerived&>(*this);
+    const std::size_t count = this->size();
+    if (count == 0) {
+      return t;
     }
-    *it = max;
-    return static_cast<TDerived&>(*this);
+    const T first = min; // Which may be an element of the container
+    const T last = max;
+    auto it = t.begin();
+    if (count > 1) {
+      const bool descending = last < first; // For the step to be positive, even if unsigned
+      const auto step = (descending ? first - last : last - first) / (count - 1);
+      for (std::size_t i = 0; i < count - 1; ++i, ++it) {
+        *it = descending ? first - step * i : first + step * i;
+      }
+    }
+    *it = last;
+    return t;
   }
 
   /**
-- 
2.43.0


From 322926113ba161fb8e92379c09856af180a0cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:59 +0000
Subject: [PATCH 41/59] fix: shift a box by one of its own bounds

---
 LitlRaster/LitlRaster/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 156835e..1e336db 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -220,7 +220,7 @@ public:
   /**
    * @brief Shift the box by a given vector.
    */
-  Box<N>& operator+=(const Position<N>& shift) {
+  Box<N>& operator+=(Position<N> shift) { // Copy, as it may be a bound of the box
     m_front += shift;
     m_back += shift;
     return *this;
@@ -229,7 +229,7 @@ public:
   /**
    * @brief Shift the box by a given vector.
    */
-  Box<N>& operator-=(const Position<N>& shift) {
+  Box<N>& operator-=(Position<N> shift) { // Copy, as it may be a bound of the box
     m_front -= shift;
     m_back -= shift;
     return *this;
-- 
2.43.0


From 117807895e08e1694b8075bd96028ae305d97bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:49 +0000
Subject: [PATCH 42/59] fix: clamp positions inside boxes (did not compile)

---
 LitlRaster/LitlRaster/Box.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 1e336db..259e00e 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -311,9 +311,9 @@ Box<N> project(const Box<N>& in, Index axis = 0) {
  */
 template <typename T, Index N = 2>
 Vector<T, N> clamp(const Vector<T, N>& position, const Box<N>& box) {
-  Vector<T, N> out(box.size());
+  Vector<T, N> out(box.dimension());
   for (std::size_t i = 0; i < out.size(); ++i) {
-    out[i] = clamp(position[i], box.front[i], box.back[i]); // TODO transform
+    out[i] = clamp(position[i], box.front()[i], box.back()[i]); // TODO transform
   }
   return out;
 }
-- 
2.43.0


From 178b99e1fa4b2b474d66379f875aef85177ad8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:49 +0000
Subject: [PATCH 43/59] fix: copy and invert constant boxes and balls

---
 LitlRaster/LitlRaster/Ball.h | 4 ++--
 LitlRaster/LitlRaster/Box.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 02493f3..41e945a 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -184,14 +184,14 @@ public:
   /**
    * @brief Copy.
    */
-  Ball<N, P> operator+() {
+  Ball<N, P> operator+() const {
     return *this;
   }
 
   /**
    * @brief Invert the sign of each center coordinate.
    */
-  Ball<N, P> operator-() {
+  Ball<N, P> operator-() const {
     return Ball<N, P>(m_radius, -m_center);
   }
 
diff --git a/LitlRaster/LitlRaster/Box.h b/LitlRaster/LitlRaster/Box.h
index 259e00e..47b54e4 100644
--- a/LitlRaster/LitlRaster/Box.h
+++ b/LitlRaster/LitlRaster/Box.h
@@ -270,14 +270,14 @@ public:
   /**
    * @brief Copy.
    */
-  Box<N> operator+() {
+  Box<N> operator+() const {
     return *this;
   }
 
   /**
    * @brief Invert the sign of each coordinate.
    */
-  Box<N> operator-() {
+  Box<N> operator-() const {
     return {-m_front, -m_back};
   }
 
-- 
2.43.0


From 62537d02671ffe81fa32de02cc2695f8021e5f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 44/59] fix: count the positions of a ball, not those of its
 bounding box

---
 LitlRaster/LitlRaster/Ball.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Ball.h b/LitlRaster/LitlRaster/Ball.h
index 41e945a..5f4a8f0 100644
--- a/LitlRaster/LitlRaster/Ball.h
+++ b/LitlRaster/LitlRaster/Ball.h
@@ -99,7 +99,11 @@ public:
    * @brief Compute the ball size, i.e. number of positions.
    */
   Index size() const {
-    return box().size(); // FIXME
+    Index out = 0;
+    for (const auto& p : box()) {
+      out += contains(p);
+    }
+    return out;
   }
 
   /**
@@ -198,6 +202,20 @@ public:
   /// @}
 
 private:
+  /**
+   * @brief Check whether some position is in the ball.
+   */
+  bool contains(const Position<N>& position) const {
+    double distance = 0;
+    Index nonzeros = 0;
+    for (std::size_t i = 0; i < position.size(); ++i) {
+      const double length = std::abs(position[i] - m_center[i]);
+      distance += std::pow(length, P);
+      nonzeros += length != 0;
+    }
+    return P == 0 ? nonzeros <= 1 : distance <= std::pow(m_radius, P); // L0 balls are crosses
+  }
+
   /**
    * @brief The radius.
    */
-- 
2.43.0


From ad969086fa6bac6bd9dfa647d115fc2e2f418e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:02 +0000
Subject: [PATCH 45/59] fix: return the iterator on post-increment of sampling
 iterators

---
 LitlRaster/LitlRaster/Sampling.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 2921c86..a32e139 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -41,7 +41,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(T n) {
@@ -201,7 +202,8 @@ public:
 
     Iterator operator++(int) {
       auto res = *this;
-      ++res;
+      ++*this;
+      return res;
     }
 
     Iterator& operator+=(Index n) {
-- 
2.43.0


From b0607388aedeafdbc9d9ab80f3f48cf9e3d3efce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 46/59] fix: separate the name and value in out-of-bounds
 messages

---
 LitlContainer/LitlContainer/DataContainer.h | 2 +-
 LitlTypes/LitlTypes/Exceptions.h            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/LitlContainer/LitlContainer/DataContainer.h b/LitlContainer/LitlContainer/DataContainer.h
index 0440d38..cd0f060 100644
--- a/LitlContainer/LitlContainer/DataContainer.h
+++ b/LitlContainer/LitlContainer/DataContainer.h
@@ -109,7 +109,7 @@ public:
    */
   const T& at(Index i) const {
     const auto s = size();
-    OutOfBoundsError::mayThrow("Index " + std::to_string(i), i, {-s, s - 1});
+    OutOfBoundsError::mayThrow("Index", i, {-s, s - 1});
     return this->operator[](i >= 0 ? i : i + s);
   }
 
diff --git a/LitlTypes/LitlTypes/Exceptions.h b/LitlTypes/LitlTypes/Exceptions.h
index 0a12817..1cc1a6a 100644
--- a/LitlTypes/LitlTypes/Exceptions.h
+++ b/LitlTypes/LitlTypes/Exceptions.h
@@ -102,7 +102,7 @@ public:
   OutOfBoundsError(const std::string& name, T value, std::pair<T, T> bounds) :
       Exception(
           "Out of bounds error",
-          name + std::to_string(value) + " not in [" + std::to_string(bounds.first) + ", " +
+          name + ": " + std::to_string(value) + " not in [" + std::to_string(bounds.first) + ", " +
               std::to_string(bounds.second) + "]") {}
 
   /**
-- 
2.43.0


From 9840185979778fa200381a07900533b1ae849f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 47/59] fix: check the number of values before copying them to
 a raster

---
 LitlRaster/LitlRaster/Raster.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/LitlRaster/LitlRaster/Raster.h b/LitlRaster/LitlRaster/Raster.h
index d1614d8..ffdc5dc 100644
--- a/LitlRaster/LitlRaster/Raster.h
+++ b/LitlRaster/LitlRaster/Raster.h
@@ -218,9 +218,7 @@ public:
    */
   template <typename U, typename... TArgs>
   explicit Raster(Position<N> shape, std::initializer_list<U> list, TArgs&&... args) :
-      Container(list, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(list.size(), shapeSize(m_shape));
-  }
+      Container(sized(list, shape), std::forward<TArgs>(args)...), m_shape(std::move(shape)) {}
 
   /**
    * @brief Iterable-copy constructor.
@@ -236,9 +234,7 @@ public:
    */
   template <typename TIterable, typename std::enable_if_t<isIterable<TIterable>::value>* = nullptr, typename... TArgs>
   explicit Raster(Position<N> shape, TIterable& iterable, TArgs&&... args) :
-      Container(iterable, std::forward<TArgs>(args)...), m_shape(std::move(shape)) {
-    SizeError::mayThrow(std::distance(std::begin(iterable), std::end(iterable)), shapeSize(m_shape));
-  }
+      Container(sized(iterable, shape), std::forward<TArgs>(args)...), m_shape(std::move(shape)) {}
 
   /// @group_properties
 
@@ -415,6 +411,15 @@ public:
   /// @}
 
 private:
+  /**
+   * @brief Check that some values fit a shape, before they are copied anywhere.
+   */
+  template <typename TValues>
+  static TValues& sized(TValues& values, const Position<N>& shape) {
+    SizeError::mayThrow(std::distance(std::begin(values), std::end(values)), shapeSize(shape));
+    return values;
+  }
+
   /**
    * @brief Raster shape, i.e. length along each axis.
    */
-- 
2.43.0


From 2f93d47c691ab5e422aa3e7af2958bc2802faa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 48/59] fix: check the dimension of positions in Raster::at()

---
 LitlRaster/LitlRaster/impl/Raster.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/LitlRaster/LitlRaster/impl/Raster.hpp b/LitlRaster/LitlRaster/impl/Raster.hpp
index 23dc808..8e82b5a 100644
--- a/LitlRaster/LitlRaster/impl/Raster.hpp
+++ b/LitlRaster/LitlRaster/impl/Raster.hpp
@@ -114,6 +114,7 @@ inline T& Raster<T, N, THolder>::operator[](const Position<N>& pos) {
 
 template <typename T, Index N, typename THolder>
 inline const T& Raster<T, N, THolder>::at(const Position<N>& pos) const {
+  SizeError::mayThrow(pos.size(), m_shape.size()); // For variable dimension
   auto boundedPos = pos;
   for (Index i = 0; i < dimension(); ++i) {
     auto& b = boundedPos[i];
-- 
2.43.0


From 7b73b717f8f2d5c468d708325e0104d8f3754298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 49/59] fix: return the iterator on post-increment of region
 iterators

---
 LitlRaster/LitlRaster/BallIterator.h      | 6 ++++--
 LitlRaster/LitlRaster/BoxIterator.h       | 6 ++++--
 LitlRaster/LitlRaster/SubrasterIterator.h | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/LitlRaster/LitlRaster/BallIterator.h b/LitlRaster/LitlRaster/BallIterator.h
index fe96843..533acd1 100644
--- a/LitlRaster/LitlRaster/BallIterator.h
+++ b/LitlRaster/LitlRaster/BallIterator.h
@@ -42,8 +42,10 @@ public:
     return next();
   }
 
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   bool operator==(const Iterator& rhs) const {
diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index f07efbe..4ff5455 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -63,8 +63,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  const Position<N>* operator++(int) {
-    return &next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
diff --git a/LitlRaster/LitlRaster/SubrasterIterator.h b/LitlRaster/LitlRaster/SubrasterIterator.h
index 6c00c8c..b60d760 100644
--- a/LitlRaster/LitlRaster/SubrasterIterator.h
+++ b/LitlRaster/LitlRaster/SubrasterIterator.h
@@ -48,8 +48,10 @@ public:
   /**
    * @brief Increment operator.
    */
-  Value* operator++(int) {
-    return next();
+  Iterator operator++(int) {
+    auto out = *this;
+    next();
+    return out;
   }
 
   /**
-- 
2.43.0


From 05edc7ae29ad79b6210d61fe08fe1323d08909cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:32 +0000
Subject: [PATCH 50/59] fix: reset iterators of empty boxes to their end

---
 LitlRaster/LitlRaster/BoxIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/BoxIterator.h b/LitlRaster/LitlRaster/BoxIterator.h
index 4ff5455..ff2813f 100644
--- a/LitlRaster/LitlRaster/BoxIterator.h
+++ b/LitlRaster/LitlRaster/BoxIterator.h
@@ -87,7 +87,7 @@ public:
    * @brief Reset the current and followers positions to the initial positions.
    */
   void reset() {
-    m_current = m_region.front();
+    m_current = beginPosition(m_region);
   }
 
 private:
-- 
2.43.0


From a199845ee201ef8f1e6d70cc9fe4f1576c3c5fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:44 +0000
Subject: [PATCH 51/59] fix: refuse aligned buffers whose size in bytes
 overflows

---
 LitlContainer/LitlContainer/AlignedBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/LitlContainer/LitlContainer/AlignedBuffer.h b/LitlContainer/LitlContainer/AlignedBuffer.h
index 37da2b3..79a3ead 100644
--- a/LitlContainer/LitlContainer/AlignedBuffer.h
+++ b/LitlContainer/LitlContainer/AlignedBuffer.h
@@ -120,7 +120,8 @@ public:
     if (m_data) {
       AlignmentError::mayThrow(m_data, m_as);
     } else {
-      m_container = std::malloc(sizeof(T) * m_size + m_as - 1);
+      const bool fits = m_size <= (std::size_t(-1) - (m_as - 1)) / sizeof(T);
+      m_container = fits ? std::malloc(sizeof(T) * m_size + m_as - 1) : nullptr;
       if (not m_container) {
         throw std::bad_alloc();
       }
-- 
2.43.0


From 3b57689c19915389da1e7f6d020fd757a6ee6185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:44 +0000
Subject: [PATCH 52/59] fix: iterate over the samples only, and move data
 samples on post-increment

---
 LitlRaster/LitlRaster/Sampling.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index a32e139..790caee 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -318,7 +318,7 @@ public:
    */
   DataSamples operator++(int) {
     auto res = *this;
-    ++res;
+    ++*this;
     return res;
   }
 
@@ -349,7 +349,7 @@ public:
    * @brief Get an iterator to the end of the sampler.
    */
   Iterator<const DataSamples<T>, const T> end() const {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
@@ -363,7 +363,7 @@ public:
    * @copybrief end()
    */
   Iterator<DataSamples<T>, T> end() {
-    return {*this, size()};
+    return {*this, count()};
   }
 
   /**
-- 
2.43.0


From 6c79984af627f81419b7cf91998a65b519eac200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:07 +0000
Subject: [PATCH 53/59] fix: window of a line kernel whose origin is not its
 first element

---
 LitlTypes/LitlTypes/Segment.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlTypes/LitlTypes/Segment.h b/LitlTypes/LitlTypes/Segment.h
index 70f8e66..1401878 100644
--- a/LitlTypes/LitlTypes/Segment.h
+++ b/LitlTypes/LitlTypes/Segment.h
@@ -15,7 +15,7 @@ public:
   Segment(Index front, Index back) : m_front(front), m_back(back) {}
 
   static Segment fromSize(Index front, std::size_t size) {
-    return Segment(front, size - front - 1);
+    return Segment(front, front + Index(size) - 1);
   }
 
   Index front() const {
-- 
2.43.0


From 21275e258dea7a875a1613b650abaa8b68df7f4f Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 06:28:29 +0000
Subject: [PATCH 54/59] fix: separable kernels combined along a common axis
 applied the first one twice and ignored the second one

---
 .../LitlTransforms/SeparableKernel.h          | 39 +++++++++++++++----
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index 3f775c4..c41e6ec 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -9,8 +9,12 @@
 #include "LitlTransforms/Kernel.h"
 #include "LitlTransforms/LineKernel.h"
 
-#include <algorithm> // max, reverse
+#include <algorithm> // count, max, min, reverse
+#include <initializer_list>
+#include <iterator> // distance, next
 #include <map>
+#include <stdexcept> // out_of_range
+#include <string> // to_string
 #include <vector>
 
 namespace Litl {
@@ -39,6 +43,11 @@ public:
    */
   explicit SeparableKernel(const LineKernel<T>& kernel) : m_kernels {{I0, kernel}, {Is, kernel}...} {}
 
+  /**
+   * @brief Constructor from a map with one `LineKernel` per axis.
+   */
+  explicit SeparableKernel(std::map<Index, LineKernel<T>> kernels) : m_kernels(kernels.begin(), kernels.end()) {}
+
   /**
    * @brief Map-based constructor.
    */
@@ -121,7 +130,7 @@ public:
    * @brief Get the `LineKernel` along given axis.
    */
   const T& operator[](Index axis) const {
-    return m_kernels.at(axis);
+    return kernel(axis, 0);
   }
 
   /**
@@ -145,8 +154,8 @@ public:
     auto shape = Position<Dimension>::one();
     auto origin = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
-      shape[k.first] = k.second.size();
-      origin[k.first] = k.second.origin();
+      shape[k.first] += k.second.size() - 1; // There may be several kernels along an axis
+      origin[k.first] += k.second.origin();
     }
     auto raster = Raster<Value, Dimension>(shape).fill(T(0));
     raster[shape - 1 - origin] = T(1);
@@ -201,9 +210,23 @@ public:
   }
 
 private:
+  static Index countAxis(Index axis, std::initializer_list<Index> axes) {
+    return std::count(axes.begin(), axes.end(), axis);
+  }
+
+  const LineKernel<T>& kernel(Index axis, Index rank) const {
+    const auto range = m_kernels.equal_range(axis);
+    const Index size = std::distance(range.first, range.second);
+    if (size == 0) {
+      throw std::out_of_range("No kernel along axis " + std::to_string(axis));
+    }
+    return std::next(range.first, std::min(rank, size - 1))->second;
+  }
+
   template <typename TRasterIn, typename TRasterOut, Index J0, Index... Js>
   void correlateAlongSeqTo(const TRasterIn& in, TRasterOut& out) const {
-    const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in);
+    const auto rank = countAxis(J0, {I0, Is...}) - countAxis(J0, {J0, Js...}); // Among the kernels along J0
+    const auto tmp = correlateAlong<TRasterIn, TRasterOut, J0>(in, rank);
     correlateAlongSeqTo<TRasterOut, TRasterOut, Js...>(tmp, out);
   }
 
@@ -213,7 +236,7 @@ private:
   }
 
   template <typename TRasterIn, typename TRasterOut, Index J>
-  TRasterOut correlateAlong(const TRasterIn& in) const {
+  TRasterOut correlateAlong(const TRasterIn& in, Index rank) const {
     const auto shape = in.shape();
     const auto length = shape[J];
     const auto stride = shapeStride<J>(shape);
@@ -222,7 +245,7 @@ private:
     for (const auto& p : domain) {
       DataSamples<const typename TRasterIn::Value> inSamples {&in[p], length, {}, stride};
       DataSamples<typename TRasterOut::Value> outSamples {&out[p], length, {}, stride};
-      m_kernels.at(J).correlate(inSamples, outSamples);
+      kernel(J, rank).correlate(inSamples, outSamples);
     }
     return out;
   }
@@ -253,7 +276,7 @@ private:
   }
 
 private:
-  std::map<Index, LineKernel<T>> m_kernels;
+  std::multimap<Index, LineKernel<T>> m_kernels;
 };
 
 } // namespace Litl
-- 
2.43.0


From 3ede4d90e703662a943cbec8f5e16d6b1675459f Mon Sep 17 00:00:00 2001
From: a <a@b>
Date: Thu, 19 Nov 2026 06:28:29 +0000
Subject: [PATCH 55/59] fix: the window of separable kernels and their line
 kernels could not be accessed

---
 .../LitlTransforms/SeparableKernel.h           | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/SeparableKernel.h b/LitlTransforms/LitlTransforms/SeparableKernel.h
index c41e6ec..70907b8 100644
--- a/LitlTransforms/LitlTransforms/SeparableKernel.h
+++ b/LitlTransforms/LitlTransforms/SeparableKernel.h
@@ -112,24 +112,20 @@ public:
    * @brief The logical window of the kernel.
    */
   Box<Dimension> window() const {
-    Box<Dimension> box(Position<Dimension>::zero(), Position<Dimension>::zero());
+    auto front = Position<Dimension>::zero();
+    auto back = Position<Dimension>::zero();
     for (const auto& k : m_kernels) {
-      auto i = k.first;
-      const auto& w = k.second.window();
-      if (w.front() < box[i]) {
-        box[i] = w.front();
-      }
-      if (w.back() > box[i]) {
-        box[i] = w.back();
-      }
+      const auto w = k.second.window();
+      front[k.first] += w.front(); // There may be several kernels along an axis
+      back[k.first] += w.back();
     }
-    return box;
+    return Box<Dimension>(std::move(front), std::move(back));
   }
 
   /**
    * @brief Get the `LineKernel` along given axis.
    */
-  const T& operator[](Index axis) const {
+  const LineKernel<T>& operator[](Index axis) const {
     return kernel(axis, 0);
   }
 
-- 
2.43.0


From a1e3c6084183b15955d015c839bf98962c592b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:21 +0000
Subject: [PATCH 56/59] fix: line kernels could not be made from sequences, nor
 from values and a window

---
 LitlTransforms/LitlTransforms/LineKernel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/LitlTransforms/LitlTransforms/LineKernel.h b/LitlTransforms/LitlTransforms/LineKernel.h
index 9eedb7b..602c38d 100644
--- a/LitlTransforms/LitlTransforms/LineKernel.h
+++ b/LitlTransforms/LitlTransforms/LineKernel.h
@@ -130,7 +130,7 @@ class Sequence;
  */
 template <typename T>
 LineKernel<T> kernelize(const T* values, Segment window) {
-  return LineKernel<T>(std::vector<T>(values, values + window.size()), std::move(window));
+  return LineKernel<T>(std::vector<T>(values, values + window.size()), -window.front());
 }
 
 /**
@@ -139,7 +139,7 @@ LineKernel<T> kernelize(const T* values, Segment window) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
-  return kernelize(values.data(), origin);
+  return kernelize(values.data(), Segment::fromSize(-origin, values.size()));
 }
 
 /**
@@ -150,7 +150,7 @@ LineKernel<T> kernelize(const Sequence<T, THolder>& values, Index origin) {
  */
 template <typename T, typename THolder>
 LineKernel<T> kernelize(const Sequence<T, THolder>& values) {
-  return kernelize(values.data(), values.size() / 2);
+  return kernelize(values, values.size() / 2);
 }
 
 } // namespace Litl
-- 
2.43.0


From 13e5108af08e3827c5c25187d0389d2d9c9c8534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:08 +0000
Subject: [PATCH 57/59] fix: PositionSampling::along(i) could not be compiled

---
 LitlRaster/LitlRaster/Sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 790caee..3f60560 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -156,7 +156,7 @@ public:
    * @copybrief along()
    */
   const IndexSampling& along(Index i) const {
-    return along<i>();
+    return m_samplings[i];
   }
 
 private:
-- 
2.43.0


From 91ea3f3601e6891e31955f15f2c85bb3c2fe607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:08 +0000
Subject: [PATCH 58/59] fix: PositionSampling::shape() wrote out of bounds for
 variable dimension

---
 LitlRaster/LitlRaster/Sampling.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index 3f60560..bc32bbb 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -137,7 +137,7 @@ public:
    * @brief Get the number of samples along each axis.
    */
   Position<N> shape() const {
-    Position<N> res;
+    Position<N> res(m_samplings.size());
     std::transform(m_samplings.begin(), m_samplings.end(), res.begin(), [](const auto& s) {
       return s.size();
     });
-- 
2.43.0


From 41e80bc1fc501a77461b18f65dd8f63e2ccdc38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:04:08 +0000
Subject: [PATCH 59/59] fix: PositionSampling of variable dimension sampled the
 first axis only by default

---
 LitlRaster/LitlRaster/Sampling.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/LitlRaster/LitlRaster/Sampling.h b/LitlRaster/LitlRaster/Sampling.h
index bc32bbb..54d7687 100644
--- a/LitlRaster/LitlRaster/Sampling.h
+++ b/LitlRaster/LitlRaster/Sampling.h
@@ -124,10 +124,15 @@ using IndexSampling = AxisSampling<Index>;
 template <Index N>
 class PositionSampling {
 public:
+  /**
+   * @brief Constructor with unit step along each axis.
+   */
+  PositionSampling(const Box<N>& box) : PositionSampling(box, box.front() - box.front() + 1) {}
+
   /**
    * @brief Constructor.
    */
-  PositionSampling(const Box<N>& box, const Position<N>& step = Position<N>::one()) : m_samplings(step.size()) {
+  PositionSampling(const Box<N>& box, const Position<N>& step) : m_samplings(step.size()) {
     for (std::size_t i = 0; i < m_samplings.size(); ++i) {
       m_samplings[i] = {box.front()[i], box.back()[i], step[i]};
     }
-- 
2.43.0

