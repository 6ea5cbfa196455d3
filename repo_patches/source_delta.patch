From 9bb14121115d858d18a24e622f14336af4489bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:34 +0000
Subject: [PATCH 001/109] fix: element access of the ring buffers (operator[],
 at, data) did not compile

---
 include/edsp/types/fixed_ring_buffer.hpp | 17 ++++++++++++-----
 include/edsp/types/ring_buffer.hpp       | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 726b8c1..6ddcf72 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -26,6 +26,7 @@
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
 #include <array>
+#include <stdexcept>
 
 namespace edsp { inline namespace types {
 
@@ -266,7 +267,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -281,7 +282,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -296,7 +297,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("ring buffer index out of range");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -311,7 +315,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("ring buffer index out of range");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -426,7 +433,7 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index f3e6da6..cb14bd4 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -29,6 +29,7 @@
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
 #include <vector>
+#include <stdexcept>
 
 namespace edsp { inline namespace types {
 
@@ -304,7 +305,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -319,7 +320,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(ring_.begin() + static_cast<int>(i));
         }
 
         /**
@@ -334,7 +335,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("ring buffer index out of range");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -349,7 +353,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("ring buffer index out of range");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -463,7 +470,7 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
-- 
2.43.0


From c51817d6461939cc92795ee2c38fecfd0a748676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:39 +0000
Subject: [PATCH 002/109] fix: ring buffers could not be copied, and a moved
 fixed_ring_buffer kept viewing the storage of its source

---
 include/edsp/types/fixed_ring_buffer.hpp | 27 ++++++++++++++++++++----
 include/edsp/types/ring_buffer.hpp       | 20 +++++++++++++++---
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 6ddcf72..43e218d 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -60,10 +60,22 @@ namespace edsp { inline namespace types {
         typedef std::array<T, MaxSize> container_type;
 
         fixed_ring_buffer()                             = default;
-        fixed_ring_buffer(const fixed_ring_buffer&)     = default;
-        fixed_ring_buffer(fixed_ring_buffer&&) noexcept = default;
-        fixed_ring_buffer& operator=(const fixed_ring_buffer&) = default;
-        fixed_ring_buffer& operator=(fixed_ring_buffer&&) noexcept = default;
+        fixed_ring_buffer(const fixed_ring_buffer& other) : buffer_(other.buffer_) {
+            attach(other);
+        }
+        fixed_ring_buffer(fixed_ring_buffer&& other) noexcept : buffer_(std::move(other.buffer_)) {
+            attach(other);
+        }
+        fixed_ring_buffer& operator=(const fixed_ring_buffer& other) {
+            buffer_ = other.buffer_;
+            attach(other);
+            return *this;
+        }
+        fixed_ring_buffer& operator=(fixed_ring_buffer&& other) noexcept {
+            buffer_ = std::move(other.buffer_);
+            attach(other);
+            return *this;
+        }
 
         /**
          *  @brief Default destructor.
@@ -438,6 +450,13 @@ namespace edsp { inline namespace types {
         }
 
     private:
+        // The ring is a view: a copy must refer to its own storage, never to the one of the source.
+        void attach(const fixed_ring_buffer& other) {
+            const auto front = other.capacity() == 0 ? 0 : &*other.ring_.begin() - other.buffer_.data();
+            ring_            = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_), std::begin(buffer_) + front,
+                                       other.size());
+        }
+
         container_type buffer_{};
         edsp::ring_span<T> ring_{std::begin(buffer_), std::end(buffer_)};
     };
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index cb14bd4..58a5439 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -46,7 +46,6 @@ namespace edsp { inline namespace types {
      * @tparam T  Type of element.
      * @tparam Allocator  Allocator type, defaults to std::allocator<T>.
      */
-    // TODO: Check why the default copy constructor is disabled!
     template <typename T, typename Allocator = std::allocator<T>>
     class ring_buffer {
     public:
@@ -64,9 +63,17 @@ namespace edsp { inline namespace types {
         typedef std::vector<T, Allocator> container_type;
 
         constexpr ring_buffer()                       = default;
-        constexpr ring_buffer(const ring_buffer&)     = default;
+        ring_buffer(const ring_buffer& other) : buffer_(other.buffer_) {
+            attach(other);
+        }
         constexpr ring_buffer(ring_buffer&&) noexcept = default;
-        constexpr ring_buffer& operator=(const ring_buffer&) = default;
+        ring_buffer& operator=(const ring_buffer& other) {
+            if (this != &other) {
+                buffer_ = other.buffer_;
+                attach(other);
+            }
+            return *this;
+        }
         constexpr ring_buffer& operator=(ring_buffer&&) noexcept = default;
 
         /**
@@ -475,6 +482,13 @@ namespace edsp { inline namespace types {
         }
 
     private:
+        // The ring is a view: a copy must refer to its own storage, never to the one of the source.
+        void attach(const ring_buffer& other) {
+            const auto front = other.capacity() == 0 ? 0 : &*other.ring_.begin() - other.buffer_.data();
+            ring_            = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_), std::begin(buffer_) + front,
+                                       other.size());
+        }
+
         container_type buffer_{};
         edsp::ring_span<T> ring_{std::begin(buffer_), std::end(buffer_)};
     };
-- 
2.43.0


From e159b2909d68207f43924a856eae4cf9c22ed26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:01 +0000
Subject: [PATCH 003/109] fix: median returned zero for every sequence

---
 include/edsp/statistics/median.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/edsp/statistics/median.hpp b/include/edsp/statistics/median.hpp
index 2da6ad5..faf7643 100644
--- a/include/edsp/statistics/median.hpp
+++ b/include/edsp/statistics/median.hpp
@@ -23,9 +23,8 @@
 #define EDSP_STATISTICAL_MEDIANT_HPP
 
 #include <edsp/meta/iterator.hpp>
-#include <edsp/meta/unused.hpp>
 #include <algorithm>
-#include <numeric>
+#include <vector>
 
 namespace edsp { namespace statistics {
 
@@ -41,11 +40,14 @@ namespace edsp { namespace statistics {
      * @returns The median of the input range.
      */
     template <typename ForwardIt>
-    constexpr meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
-        // TODO: implement the median: do not use sorting algorithm.
-        meta::unused(first);
-        meta::unused(last);
-        return 0;
+    meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
+        std::vector<meta::value_type_t<ForwardIt>> sorted(first, last);
+        const auto middle = std::begin(sorted) + sorted.size() / 2;
+        std::nth_element(std::begin(sorted), middle, std::end(sorted));
+        if (sorted.size() % 2 != 0) {
+            return *middle;
+        }
+        return (*std::max_element(std::begin(sorted), middle) + *middle) / 2;
     }
 
 }} // namespace edsp::statistics
-- 
2.43.0


From a09a78cf93d2b7017b29e8654285395c496eda65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:01 +0000
Subject: [PATCH 004/109] fix: moving filters kept stale sums and an empty
 window after reset and resize

---
 include/edsp/filter/moving_average_filter.hpp | 5 +++--
 include/edsp/filter/moving_median_filter.hpp  | 4 ++--
 include/edsp/filter/moving_rms_filter.hpp     | 5 +++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 1df4456..4f6964a 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -105,7 +105,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -116,7 +116,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_      = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = 0;
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_median_filter.hpp b/include/edsp/filter/moving_median_filter.hpp
index a8251b7..74147a2 100644
--- a/include/edsp/filter/moving_median_filter.hpp
+++ b/include/edsp/filter/moving_median_filter.hpp
@@ -100,7 +100,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -111,7 +111,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index 92dde0f..b06252f 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -106,7 +106,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::reset() {
-        window_.clear();
+        resize(size());
     }
 
     template <typename T, typename Allocator>
@@ -117,7 +117,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_      = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = 0;
     }
 
     template <typename T, typename Allocator>
-- 
2.43.0


From 4e6a06d6d1656a322be6d87f69ff66cfd1d4a7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:01 +0000
Subject: [PATCH 005/109] fix: moving RMS returned NaN when rounding left a
 negative running sum

---
 include/edsp/filter/moving_rms_filter.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index b06252f..62b8dbe 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -127,7 +127,8 @@ namespace edsp { namespace filter {
         accumulated_ -= window_.front();
         accumulated_ += sqr;
         window_.push_back(sqr);
-        return std::sqrt(accumulated_ / static_cast<T>(window_.size()));
+        // rounding may leave a tiny negative running sum once the large samples left the window
+        return accumulated_ < 0 ? T() : std::sqrt(accumulated_ / static_cast<T>(window_.size()));
     }
 
 }} // namespace edsp::filter
-- 
2.43.0


From 0e6549f4e523a1534c9ade72a4f7dc210ff2e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:17 +0000
Subject: [PATCH 006/109] fix: a leading biquad coefficient set after
 construction was ignored by the filter

---
 include/edsp/filter/biquad.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index 52b5be2..c15aea0 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -280,7 +280,13 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr void biquad<T>::set_a0(const value_type value) noexcept {
-        a0_ = value;
+        // the coefficients are kept normalized, as in the constructor
+        b2_ /= value;
+        b1_ /= value;
+        b0_ /= value;
+        a2_ /= value;
+        a1_ /= value;
+        a0_ = 1;
         reset();
     }
 
-- 
2.43.0


From a5949ac65bc7d28ef6131cf73441934e5a7db7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:17 +0000
Subject: [PATCH 007/109] fix: the single pole/zero biquad had the reciprocal
 of the requested zero

---
 include/edsp/filter/biquad.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index c15aea0..fe16148 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -232,8 +232,8 @@ namespace edsp { namespace filter {
     template <typename T>
     constexpr biquad<T>::biquad(const std::complex<T>& pole, const std::complex<T>& zero) :
         b2_(0),
-        b1_(1),
-        b0_(-zero.real()),
+        b1_(-zero.real()),
+        b0_(1),
         a2_(0),
         a1_(-pole.real()),
         a0_(1) {
-- 
2.43.0


From 8d768c28c8c3fe3c0925c8fe6bf338b8ded5fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:22 +0000
Subject: [PATCH 008/109] fix: band-pass designs were normalised at a frequency
 outside the middle of the band

---
 include/edsp/filter/internal/bilinear/bandpass_transformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp b/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
index 79d29d0..849d642 100644
--- a/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
+++ b/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
@@ -76,7 +76,7 @@ namespace edsp { namespace filter {
             }
 
             const auto wn = analog.w();
-            digital.set_w(2 * std::atan(std::sqrt(std::tan((wc + wn) * 0.5) + std::tan((wc2 + wn) * 0.5))));
+            digital.set_w(2 * std::atan(std::sqrt(std::tan((wc + wn) * 0.5) * std::tan((wc2 + wn) * 0.5))));
             digital.set_gain(analog.gain());
         }
 
-- 
2.43.0


From 38736e0490bc1c4a891c9eb6977a9d8d6c364c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:22 +0000
Subject: [PATCH 009/109] fix: Zoelzer shelves with a negative gain boosted
 instead of cutting

---
 include/edsp/filter/internal/zoelzer_designer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/filter/internal/zoelzer_designer.hpp b/include/edsp/filter/internal/zoelzer_designer.hpp
index acaab1d..3fd9a26 100644
--- a/include/edsp/filter/internal/zoelzer_designer.hpp
+++ b/include/edsp/filter/internal/zoelzer_designer.hpp
@@ -82,7 +82,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::LowShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -108,7 +108,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::HighShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -125,7 +125,7 @@ namespace edsp { namespace filter {
                 const auto b2   = (1 - constants<T>::root_two * K + K * K) * norm;
                 const auto a1   = 2 * (K * K - V) * norm;
                 const auto a2   = (V - std::sqrt(2 * V) * K + K * K) * norm;
-                return biquad<T>(b0, b1, b2, a1, a1, a2);
+                return biquad<T>(1, a1, a2, b0, b1, b2);
             }
         }
     };
-- 
2.43.0


From 6ff6b7592d7650a58708a5cefe5d12c9c93b0f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:54 +0000
Subject: [PATCH 010/109] fix: band-stop designs used the inverse of the
 bandwidth

---
 include/edsp/filter/internal/bilinear/bandstop_transformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp b/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
index 909fc0d..3cddf91 100644
--- a/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
+++ b/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
@@ -47,7 +47,7 @@ namespace edsp { namespace filter {
                 wc = constants<T>::pi - 1e-8;
 
             a  = std::cos((wc + wc2) * 0.5) / std::cos((wc - wc2) * 0.5);
-            b  = math::inv(std::tan((wc - wc2) * 0.5));
+            b  = std::tan((wc - wc2) * 0.5);
             a2 = a * a;
             b2 = b * b;
         }
-- 
2.43.0


From 32f5236539e35212aac3e6e556fef464af19cc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:20 +0000
Subject: [PATCH 011/109] fix: a square oscillator ignored changes of the
 frequency

---
 include/edsp/oscillators/sinusoidal.hpp | 3 ++-
 include/edsp/oscillators/square.hpp     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/edsp/oscillators/sinusoidal.hpp b/include/edsp/oscillators/sinusoidal.hpp
index aa93f17..71b3204 100644
--- a/include/edsp/oscillators/sinusoidal.hpp
+++ b/include/edsp/oscillators/sinusoidal.hpp
@@ -183,7 +183,8 @@ namespace edsp { namespace oscillators {
 
     template <typename T>
     constexpr void oscillator<T>::set_frequency(value_type frequency) noexcept {
-        frequency_ = frequency;
+        frequency_         = frequency;
+        inverse_frequency_ = math::inv(frequency);
     }
 
     template <typename T>
diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index af62169..5ac22c3 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -98,17 +98,17 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr void square_oscillator<T>::set_duty(value_type duty) noexcept {
         meta::expects(duty >= 0 && duty <= 1, "duty must be a real number between 0 and 1.");
-        duty_ = duty * oscillator<T>::inverse_frequency_;
+        duty_ = duty;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::duty() const noexcept {
-        return duty_ * oscillator<T>::frequency_;
+        return duty_;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
-        const auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
+        const auto current_t = std::fmod(oscillator<T>::frequency_ * oscillator<T>::timestamp_, 1);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
         return (current_t >= duty_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
-- 
2.43.0


From 06a0598aebffac26bce5e414a8bfb1161087e0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:20 +0000
Subject: [PATCH 012/109] fix: the duty of a square oscillator was its inactive
 fraction

---
 include/edsp/oscillators/square.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index 5ac22c3..78a4d8b 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -110,7 +110,7 @@ namespace edsp { namespace oscillators {
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
         const auto current_t = std::fmod(oscillator<T>::frequency_ * oscillator<T>::timestamp_, 1);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
-        return (current_t >= duty_ ? 1 : -1) * oscillator<T>::amplitude_;
+        return (current_t < duty_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
 
 }} // namespace edsp::oscillators
-- 
2.43.0


From 2b8a12f5c65d581d0897840e04bf48c456ff4d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:41 +0000
Subject: [PATCH 013/109] fix: an FFT engine executed the plan of its first
 transform for every later one

---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 78 +++++++++++++++----
 1 file changed, 64 insertions(+), 14 deletions(-)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index f015ea7..7c828ef 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -47,6 +47,8 @@ namespace edsp { inline namespace spectral {
         inline fftw_complex* fftw_cast(const std::complex<double>* p) {
             return const_cast<fftw_complex*>(reinterpret_cast<const fftw_complex*>(p));
         }
+
+        enum class fftw_kind { none, complex_dft, complex_idft, real_dft, real_idft, dht, dct, idct };
     } // namespace internal
 
     template <typename T>
@@ -67,14 +69,14 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (outdated(internal::fftw_kind::complex_dft, src, dst))
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::fftw_kind::complex_idft, src, dst)) {
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -82,7 +84,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::fftw_kind::real_dft, src, dst)) {
                 plan_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -90,7 +92,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::fftw_kind::real_idft, src, dst)) {
                 plan_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -98,7 +100,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::fftw_kind::dht, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -106,7 +108,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::fftw_kind::dct, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -114,7 +116,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::fftw_kind::idct, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -143,7 +145,31 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
+        // a plan can only be reused for the same kind of transform on buffers placed in the same way
+        inline bool outdated(internal::fftw_kind kind, const void* src, const void* dst) {
+            const auto src_alignment = fftwf_alignment_of(static_cast<float*>(const_cast<void*>(src)));
+            const auto dst_alignment = fftwf_alignment_of(static_cast<float*>(const_cast<void*>(dst)));
+            const auto in_place      = src == dst;
+            if (kind == kind_ && src_alignment == src_alignment_ && dst_alignment == dst_alignment_ &&
+                in_place == in_place_) {
+                return false;
+            }
+            if (!meta::is_null(plan_)) {
+                fftwf_destroy_plan(plan_);
+                plan_ = nullptr;
+            }
+            kind_          = kind;
+            src_alignment_ = src_alignment;
+            dst_alignment_ = dst_alignment;
+            in_place_      = in_place;
+            return true;
+        }
+
         ::fftwf_plan plan_{nullptr};
+        internal::fftw_kind kind_{internal::fftw_kind::none};
+        int src_alignment_{0};
+        int dst_alignment_{0};
+        bool in_place_{false};
         size_type nfft_;
     };
 
@@ -162,35 +188,35 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (outdated(internal::fftw_kind::complex_dft, src, dst))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (outdated(internal::fftw_kind::complex_idft, src, dst))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (outdated(internal::fftw_kind::real_dft, src, dst))
                 plan_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (meta::is_null(plan_))
+            if (outdated(internal::fftw_kind::real_idft, src, dst))
                 plan_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::fftw_kind::dht, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -198,7 +224,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::fftw_kind::dct, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -206,7 +232,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::fftw_kind::idct, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -235,7 +261,31 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
+        // a plan can only be reused for the same kind of transform on buffers placed in the same way
+        inline bool outdated(internal::fftw_kind kind, const void* src, const void* dst) {
+            const auto src_alignment = fftw_alignment_of(static_cast<double*>(const_cast<void*>(src)));
+            const auto dst_alignment = fftw_alignment_of(static_cast<double*>(const_cast<void*>(dst)));
+            const auto in_place      = src == dst;
+            if (kind == kind_ && src_alignment == src_alignment_ && dst_alignment == dst_alignment_ &&
+                in_place == in_place_) {
+                return false;
+            }
+            if (!meta::is_null(plan_)) {
+                fftw_destroy_plan(plan_);
+                plan_ = nullptr;
+            }
+            kind_          = kind;
+            src_alignment_ = src_alignment;
+            dst_alignment_ = dst_alignment;
+            in_place_      = in_place;
+            return true;
+        }
+
         ::fftw_plan plan_{nullptr};
+        internal::fftw_kind kind_{internal::fftw_kind::none};
+        int src_alignment_{0};
+        int dst_alignment_{0};
+        bool in_place_{false};
         size_type nfft_;
     };
 }} // namespace edsp::spectral
-- 
2.43.0


From 7b5ba2518401c3c43f238ef8e02cc8d3bf11f146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:41 +0000
Subject: [PATCH 014/109] fix: copying an FFT engine destroyed its plan twice

---
 include/edsp/spectral/internal/libfftw_impl.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index 7c828ef..7a6c344 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -61,6 +61,8 @@ namespace edsp { inline namespace spectral {
         using size_type    = int;
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
+        fftw_impl(const fftw_impl&) = delete;
+        fftw_impl& operator=(const fftw_impl&) = delete;
 
         ~fftw_impl() {
             if (!meta::is_null(plan_)) {
@@ -180,6 +182,8 @@ namespace edsp { inline namespace spectral {
         using size_type    = int;
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
+        fftw_impl(const fftw_impl&) = delete;
+        fftw_impl& operator=(const fftw_impl&) = delete;
 
         ~fftw_impl() {
             if (!meta::is_null(plan_)) {
-- 
2.43.0


From 7145e1647035e92ff7f7e0a17070648a5885a9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:41 +0000
Subject: [PATCH 015/109] fix: the biased and unbiased correlation estimates
 were wrongly scaled

---
 include/edsp/spectral/correlation.hpp | 30 +++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/edsp/spectral/correlation.hpp b/include/edsp/spectral/correlation.hpp
index b67dfeb..e010745 100644
--- a/include/edsp/spectral/correlation.hpp
+++ b/include/edsp/spectral/correlation.hpp
@@ -75,9 +75,20 @@ namespace edsp { inline namespace spectral {
             [](const std::complex<value_type>& val) -> std::complex<value_type> { return val * std::conj(val); });
 
         ifft_.idft(meta::data(fft_data_), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
+        ifft_.idft_scale(meta::data(temp_output));
+        auto lag = static_cast<value_type>(0);
         std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+                       [scale, size, &lag](value_type val) {
+                           const auto overlap = static_cast<value_type>(size) - lag++;
+                           switch (scale) {
+                               case CorrelationScale::Biased:
+                                   return val / static_cast<value_type>(size);
+                               case CorrelationScale::Unbiased:
+                                   return val / overlap;
+                               default:
+                                   return val;
+                           }
+                       });
     }
 
     /**
@@ -126,9 +137,20 @@ namespace edsp { inline namespace spectral {
                            -> std::complex<value_type> { return left * std::conj(right); });
 
         ifft_.idft(meta::data(fft_data1), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
+        ifft_.idft_scale(meta::data(temp_output));
+        auto lag = static_cast<value_type>(0);
         std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+                       [scale, size, &lag](value_type val) {
+                           const auto overlap = static_cast<value_type>(size) - lag++;
+                           switch (scale) {
+                               case CorrelationScale::Biased:
+                                   return val / static_cast<value_type>(size);
+                               case CorrelationScale::Unbiased:
+                                   return val / overlap;
+                               default:
+                                   return val;
+                           }
+                       });
     }
 
 }}     // namespace edsp::spectral
-- 
2.43.0


From af623f917cec6966dce70ff8b6858c47d85b111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:09 +0000
Subject: [PATCH 016/109] fix: triangular windows of length 4k+3 were Bartlett
 windows

---
 include/edsp/windowing/triangular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/triangular.hpp b/include/edsp/windowing/triangular.hpp
index 415b0af..73d0f79 100644
--- a/include/edsp/windowing/triangular.hpp
+++ b/include/edsp/windowing/triangular.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type     = meta::value_type_t<OutputIt>;
         using size_type      = meta::diff_type_t<OutputIt>;
         const auto size      = static_cast<size_type>(std::distance(first, last));
-        const value_type rem = size + std::remainder(size, 2);
+        const value_type rem = size + size % 2;
         value_type initial   = -(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - std::abs(initial / rem);
-- 
2.43.0


From 685b1d15512c0e13f253e699a8618f104ebc1e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:09 +0000
Subject: [PATCH 017/109] fix: Welch windows of even length were not symmetric

---
 include/edsp/windowing/welch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/welch.hpp b/include/edsp/windowing/welch.hpp
index bbc3461..c7d5e14 100644
--- a/include/edsp/windowing/welch.hpp
+++ b/include/edsp/windowing/welch.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type   = meta::value_type_t<OutputIt>;
         using size_type    = meta::diff_type_t<OutputIt>;
         const auto size    = static_cast<size_type>(std::distance(first, last));
-        const value_type L = size / 2;
+        const value_type L = static_cast<value_type>(size - 1) / 2;
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - math::square(static_cast<value_type>(i - L) / L);
         }
-- 
2.43.0


From c27a0f9bd08b7994079db60e598c7c28c8ac5c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:57 +0000
Subject: [PATCH 018/109] fix: linear and logarithmic spaces accumulated
 rounding errors and missed their end

---
 include/edsp/algorithm/linspace.hpp | 10 +++++-----
 include/edsp/algorithm/logspace.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/edsp/algorithm/linspace.hpp b/include/edsp/algorithm/linspace.hpp
index 1e5061c..4f4b211 100644
--- a/include/edsp/algorithm/linspace.hpp
+++ b/include/edsp/algorithm/linspace.hpp
@@ -40,11 +40,11 @@ namespace edsp { inline namespace algorithm {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
         const auto size  = static_cast<value_type>(std::trunc(N));
 
-        auto _x1             = static_cast<value_type>(x1);
-        auto _x2             = static_cast<value_type>(x2);
-        const auto increment = (_x2 - _x1) / static_cast<value_type>(size - 1);
-        for (auto i = 0; i < size; ++i, ++d_first, _x1 += increment) {
-            *d_first = _x1;
+        const auto _x1       = static_cast<value_type>(x1);
+        const auto _x2       = static_cast<value_type>(x2);
+        const auto increment = size > 1 ? (_x2 - _x1) / static_cast<value_type>(size - 1) : static_cast<value_type>(0);
+        for (auto i = 0; i < size; ++i, ++d_first) {
+            *d_first = _x1 + static_cast<value_type>(i) * increment;
         }
     }
 
diff --git a/include/edsp/algorithm/logspace.hpp b/include/edsp/algorithm/logspace.hpp
index 8641022..4da9161 100644
--- a/include/edsp/algorithm/logspace.hpp
+++ b/include/edsp/algorithm/logspace.hpp
@@ -39,11 +39,11 @@ namespace edsp { inline namespace algorithm {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
         const auto size  = static_cast<value_type>(std::trunc(N));
 
-        auto _x1             = static_cast<value_type>(x1);
-        auto _x2             = static_cast<value_type>(x2);
-        const auto increment = (_x2 - _x1) / static_cast<value_type>(size - 1);
-        for (auto i = 0; i < size; ++i, ++d_first, _x1 += increment) {
-            *d_first = std::pow(static_cast<value_type>(10), _x1);
+        const auto _x1       = static_cast<value_type>(x1);
+        const auto _x2       = static_cast<value_type>(x2);
+        const auto increment = size > 1 ? (_x2 - _x1) / static_cast<value_type>(size - 1) : static_cast<value_type>(0);
+        for (auto i = 0; i < size; ++i, ++d_first) {
+            *d_first = std::pow(static_cast<value_type>(10), _x1 + static_cast<value_type>(i) * increment);
         }
     }
 
-- 
2.43.0


From 2a6febbaa0b88c2bb0de267bf1e628645f6ca66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:57 +0000
Subject: [PATCH 019/109] fix: the derivative could not be called, it had a
 template parameter that cannot be deduced

---
 include/edsp/algorithm/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/derivative.hpp b/include/edsp/algorithm/derivative.hpp
index fd394f3..71025cf 100644
--- a/include/edsp/algorithm/derivative.hpp
+++ b/include/edsp/algorithm/derivative.hpp
@@ -42,7 +42,7 @@ namespace edsp { inline namespace algorithm {
          * @param last Forward iterator defining the end of the range to examine.
          * @param d_first Output iterator defining the beginning of the destination range.
          */
-    template <typename InputItr, typename OutputIt, typename Numeric>
+    template <typename InputItr, typename OutputIt>
     constexpr void derivative(InputItr first, InputItr last, OutputIt d_first) {
         std::adjacent_difference(first, last, d_first);
     }
-- 
2.43.0


From 823d91364d5076cb5b2dcbc26a103be2611a5072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:57 +0000
Subject: [PATCH 020/109] fix: the silence test could not be called, it had a
 template parameter that cannot be deduced

---
 include/edsp/algorithm/silence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/silence.hpp b/include/edsp/algorithm/silence.hpp
index dfccec9..41523db 100644
--- a/include/edsp/algorithm/silence.hpp
+++ b/include/edsp/algorithm/silence.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace algorithm {
      * @param last Input iterator defining the ending of the input range.
      * @param threshold Threshold .
      */
-    template <typename InputIt, typename OutputIt, typename Numeric>
+    template <typename InputIt, typename Numeric>
     constexpr bool silence(InputIt first, InputIt last, Numeric threshold) {
         return feature::temporal::power(first, last) < threshold;
     }
-- 
2.43.0


From f8596442f44cbf1d31d85a3f76f8dd177acb0f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:57 +0000
Subject: [PATCH 021/109] fix: audspace did not compile

---
 include/edsp/auditory/audspace.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/edsp/auditory/audspace.hpp b/include/edsp/auditory/audspace.hpp
index 82397a9..cf2945f 100644
--- a/include/edsp/auditory/audspace.hpp
+++ b/include/edsp/auditory/audspace.hpp
@@ -27,6 +27,7 @@
 #include <edsp/auditory/melspace.hpp>
 #include <edsp/auditory/erbspace.hpp>
 #include <edsp/auditory/centspace.hpp>
+#include <edsp/meta/advance.hpp>
 
 // TODO: take a look into http://www.ee.ic.ac.uk/hp/staff/dmb/voicebox/voicebox.html
 namespace edsp { namespace auditory {
@@ -55,16 +56,16 @@ namespace edsp { namespace auditory {
     constexpr void audspace(OutputIt d_first, Numeric min, Numeric max, Integer N, auditory_scale scale) {
         switch (scale) {
             case auditory_scale::mel:
-                melspace(d_first, min, max, N);
+                melspace(d_first, meta::advance(d_first, N), min, max);
                 break;
             case auditory_scale::erb:
-                erbspace(d_first, min, max, N);
+                erbspace(d_first, meta::advance(d_first, N), min, max);
                 break;
             case auditory_scale::bark:
-                barkspace(d_first, min, max, N);
+                barkspace(d_first, meta::advance(d_first, N), min, max);
                 break;
             case auditory_scale::cent:
-                centspace(d_first, min, max, N);
+                centspace(d_first, meta::advance(d_first, N), min, max);
                 break;
         }
     }
-- 
2.43.0


From 9480f3d041cf612d58ce85767ccd1dec9f23c60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:05 +0000
Subject: [PATCH 022/109] fix: the RMS feature added one to the sum of squares

---
 include/edsp/feature/temporal/rms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/rms.hpp b/include/edsp/feature/temporal/rms.hpp
index 8249985..ac287f7 100644
--- a/include/edsp/feature/temporal/rms.hpp
+++ b/include/edsp/feature/temporal/rms.hpp
@@ -42,7 +42,7 @@ namespace edsp { namespace feature { inline namespace temporal {
     template <typename ForwardIt>
     constexpr auto rms(ForwardIt first, ForwardIt last) {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
-        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(1));
+        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(0));
         return std::sqrt(accumulated / static_cast<value_type>(std::distance(first, last)));
     }
 }}} // namespace edsp::feature::temporal
-- 
2.43.0


From 681a558e65f389eba72544a53bf2d06e4f76b1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:05 +0000
Subject: [PATCH 023/109] fix: the signal-to-noise ratio read from the first
 signal up to the second

---
 include/edsp/feature/temporal/snr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/snr.hpp b/include/edsp/feature/temporal/snr.hpp
index 2ec7912..23b3166 100644
--- a/include/edsp/feature/temporal/snr.hpp
+++ b/include/edsp/feature/temporal/snr.hpp
@@ -56,7 +56,7 @@ namespace edsp { namespace feature { inline namespace temporal {
         std::transform(first1, last1, first2, std::begin(noise),
                        [](const value_type left, const value_type right) { return left - right; });
 
-        const auto var_ref   = statistics::variance(first1, first2);
+        const auto var_ref   = statistics::variance(first1, last1);
         const auto var_noise = statistics::variance(std::cbegin(noise), std::cend(noise));
         return converter::pow2db(var_ref / var_noise);
     }
-- 
2.43.0


From c6e3de4bfee33fcfaa6761de778fae39bab959b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:30 +0000
Subject: [PATCH 024/109] fix: the decrease feature was always NaN

---
 include/edsp/feature/spectral/spectral_decrease.hpp | 2 +-
 include/edsp/feature/statistics/decrease.hpp        | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_decrease.hpp b/include/edsp/feature/spectral/spectral_decrease.hpp
index 0426ca6..a281d67 100644
--- a/include/edsp/feature/spectral/spectral_decrease.hpp
+++ b/include/edsp/feature/spectral/spectral_decrease.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace feature { inline namespace spectral {
      * The spectral decrease represents the amount of decreasing of the spectral amplitude. It is defined as:
      * \f[
      *
-     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(n-1)}{n}
+     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(0)}{n}
      *
      * \f]
      *
diff --git a/include/edsp/feature/statistics/decrease.hpp b/include/edsp/feature/statistics/decrease.hpp
index 6ad28d6..8f28593 100644
--- a/include/edsp/feature/statistics/decrease.hpp
+++ b/include/edsp/feature/statistics/decrease.hpp
@@ -37,7 +37,7 @@ namespace edsp { namespace feature { inline namespace statistics {
      * The decrease factor represents the amount of decreasing of the signal amplitude. It is defined as:
      * \f[
      *
-     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(n-1)}{n}
+     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(0)}{n}
      *
      * \f]
      *
@@ -51,7 +51,9 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_t       = typename std::iterator_traits<ForwardIt>::value_type;
         auto weighted_sum   = static_cast<value_t>(0);
         auto unweighted_sum = static_cast<value_t>(0);
-        for (value_t i = 0, initial = *first; first != last; ++first, ++i) {
+        const value_t initial = *first;
+        ++first;
+        for (value_t i = 1; first != last; ++first, ++i) {
             weighted_sum += ((*first) - initial) / i;
             unweighted_sum += *first;
         }
-- 
2.43.0


From e056ad05f3e454b0ab887afbc01daa61dfc0bf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:30 +0000
Subject: [PATCH 025/109] fix: the flux feature summed the memory between its
 two ranges

---
 include/edsp/feature/statistics/flux.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/flux.hpp b/include/edsp/feature/statistics/flux.hpp
index d9ecc30..be01426 100644
--- a/include/edsp/feature/statistics/flux.hpp
+++ b/include/edsp/feature/statistics/flux.hpp
@@ -49,7 +49,7 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_type        = meta::value_type_t<InputIt>;
         const auto size         = std::distance(first1, last1);
         const auto current_sum  = std::accumulate(first1, last1, static_cast<value_type>(0));
-        const auto previous_sum = std::accumulate(first1, meta::advance(first2, size), static_cast<value_type>(0));
+        const auto previous_sum = std::accumulate(first2, meta::advance(first2, size), static_cast<value_type>(0));
         auto accumulated        = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
             accumulated += distance<d>(*first1 / current_sum, *first2 / previous_sum);
-- 
2.43.0


From c42860f22270d1138fc87c987a88e1c9a8f0f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:30 +0000
Subject: [PATCH 026/109] fix: the slope feature counted its elements after
 consuming them

---
 include/edsp/feature/statistics/slope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/slope.hpp b/include/edsp/feature/statistics/slope.hpp
index 3789591..294cb7c 100644
--- a/include/edsp/feature/statistics/slope.hpp
+++ b/include/edsp/feature/statistics/slope.hpp
@@ -61,6 +61,7 @@ namespace edsp { namespace feature { inline namespace statistics {
     template <typename ForwardIt>
     constexpr auto slope(ForwardIt first1, ForwardIt last1, ForwardIt first2) {
         using value_type = typename std::iterator_traits<ForwardIt>::value_type;
+        const auto N     = static_cast<value_type>(std::distance(first1, last1));
         auto m_sum       = static_cast<value_type>(0);
         auto f_sum       = static_cast<value_type>(0);
         auto ff_sum      = static_cast<value_type>(0);
@@ -71,7 +72,6 @@ namespace edsp { namespace feature { inline namespace statistics {
             mf_sum += (*first1) * (*first2);
             ff_sum += (*first2) * (*first2);
         }
-        const auto N = static_cast<value_type>(std::distance(first1, last1));
         return (1 / m_sum) * (N * mf_sum - f_sum * m_sum) / (N * ff_sum - (f_sum * f_sum));
     }
 
-- 
2.43.0


From 3f7417dc292363659453b74eb9c58f20ffcff140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 027/109] fix: the variation feature was not the normalised
 cross-correlation

---
 include/edsp/feature/spectral/spectral_variation.hpp | 2 +-
 include/edsp/feature/statistics/variation.hpp        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_variation.hpp b/include/edsp/feature/spectral/spectral_variation.hpp
index a9d8edb..ee03540 100644
--- a/include/edsp/feature/spectral/spectral_variation.hpp
+++ b/include/edsp/feature/spectral/spectral_variation.hpp
@@ -40,7 +40,7 @@ namespace edsp { namespace feature { inline namespace spectral {
      *
      * \f[
      *
-     *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1(k)} \sqrt{\sum_k X_2(k)}}
+     *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1(k)^2} \sqrt{\sum_k X_2(k)^2}}
      *
      * \f]
      *
diff --git a/include/edsp/feature/statistics/variation.hpp b/include/edsp/feature/statistics/variation.hpp
index 5847d51..7153fd3 100644
--- a/include/edsp/feature/statistics/variation.hpp
+++ b/include/edsp/feature/statistics/variation.hpp
@@ -41,7 +41,7 @@ namespace edsp { namespace feature { inline namespace statistics {
     *
     * \f[
     *
-    *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1(k)} \sqrt{\sum_k X_2(k)}}
+    *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1(k)^2} \sqrt{\sum_k X_2(k)^2}}
     *
     * \f]
     *
@@ -61,11 +61,11 @@ namespace edsp { namespace feature { inline namespace statistics {
         auto sum_x2      = static_cast<value_type>(0);
         auto sum_x12     = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
-            sum_x1 += *first1;
-            sum_x2 += *first2;
+            sum_x1 += *first1 * *first1;
+            sum_x2 += *first2 * *first2;
             sum_x12 += *first1 * *first2;
         }
-        return 1 - sum_x2 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
+        return 1 - sum_x12 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
     }
 
 }}} // namespace edsp::feature::statistics
-- 
2.43.0


From 9e923b0b4589548dd4b8670322471397f9c33a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 028/109] fix: the spectral irregularity ignored the
 neighbouring partial

---
 include/edsp/feature/spectral/spectral_irregularity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/spectral/spectral_irregularity.hpp b/include/edsp/feature/spectral/spectral_irregularity.hpp
index 6063c46..e4a9abd 100644
--- a/include/edsp/feature/spectral/spectral_irregularity.hpp
+++ b/include/edsp/feature/spectral/spectral_irregularity.hpp
@@ -52,7 +52,7 @@ namespace edsp { namespace feature { inline namespace spectral {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
         value_type square_diff = 0, square_ampl = 0;
         for (auto until = (last - 1); first != until; ++first) {
-            const value_type diff = (*first + 1) - (*first);
+            const value_type diff = *(first + 1) - (*first);
             square_diff += diff * diff;
             square_ampl += (*first) * (*first);
         }
-- 
2.43.0


From 05c5eed24b866784ba170a8087f0c11edf93d6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 029/109] fix: peak2peak was not the difference of maximum and
 minimum for negative samples

---
 include/edsp/converter/peak2peak.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/converter/peak2peak.hpp b/include/edsp/converter/peak2peak.hpp
index 25b35b0..9f09569 100644
--- a/include/edsp/converter/peak2peak.hpp
+++ b/include/edsp/converter/peak2peak.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace converter {
     template <typename ForwardIt>
     constexpr auto peak2peak(ForwardIt first, ForwardIt last) {
         const auto pair = std::minmax_element(first, last);
-        return std::abs(*pair.second) - std::abs(*pair.first);
+        return *pair.second - *pair.first;
     }
 
 }} // namespace edsp::converter
-- 
2.43.0


From b2246ecdf5e615cfe526a7c6f807f86e3c722b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 030/109] fix: negative odd numbers were even

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index f54e39c..e167f09 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -47,7 +47,7 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_odd(T x) {
-        return (x % 2) == 1;
+        return (x % 2) != 0;
     }
 
     /**
-- 
2.43.0


From a623525d5716aa964562804f658adb010ddf885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 031/109] fix: no number above three was prime

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index e167f09..4f14f8a 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -143,7 +143,7 @@ namespace edsp { inline namespace math {
                 return 0;
             r += 6;
         }
-        return false;
+        return true;
     }
 
     /**
-- 
2.43.0


From ab4da435240efffe4a14fba6bddc082cd794415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 032/109] fix: the power of two helpers truncated their
 argument to 32 bits

---
 include/edsp/math/numeric.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 4f14f8a..866b3d6 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -67,8 +67,8 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_power_two(T x) {
-        const auto tmp = static_cast<std::int32_t>(x);
-        return tmp != 0 && !(tmp & (tmp - 1));
+        const auto tmp = static_cast<std::uint64_t>(x);
+        return !is_negative(x) && tmp != 0 && !(tmp & (tmp - 1));
     }
 
     /**
@@ -168,13 +168,14 @@ namespace edsp { inline namespace math {
         } else if (is_power_two(x)) {
             return x;
         } else {
-            auto _x = static_cast<int32_t>(x);
+            auto _x = static_cast<std::uint64_t>(x);
             --_x;
             _x |= _x >> 1;
             _x |= _x >> 2;
             _x |= _x >> 4;
             _x |= _x >> 8;
             _x |= _x >> 16;
+            _x |= _x >> 32;
             return static_cast<T>(_x + 1);
         }
     }
-- 
2.43.0


From f68fd8e9c03173b2bb52100aeada273888231dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:31 +0000
Subject: [PATCH 033/109] fix: the Manhattan distance could be negative

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 866b3d6..211a3d9 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -289,7 +289,7 @@ namespace edsp { inline namespace math {
         struct distance<distances::manhattan> {
             template <typename T>
             constexpr T operator()(T x, T y) noexcept {
-                return x - y;
+                return std::abs(x - y);
             }
         };
 
-- 
2.43.0


From 7092da2b642a34269ee509ba3e0cb7a78f4d5389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:20 +0000
Subject: [PATCH 034/109] fix: negative numbers were tested for primality as
 huge unsigned ones

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 211a3d9..9bf90c1 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -129,7 +129,7 @@ namespace edsp { inline namespace math {
     template <typename T>
     constexpr bool is_prime(T x) {
         auto n = static_cast<std::uint64_t>(x);
-        if (n <= 1)
+        if (is_negative(x) || n <= 1)
             return 0;
         else if (n <= 3)
             return 1;
-- 
2.43.0


From 0db1a2d46c118dbdfea89710a201b1d6e42743d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:21 +0000
Subject: [PATCH 035/109] fix: leq.hpp uses power without including it

---
 include/edsp/feature/temporal/leq.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/feature/temporal/leq.hpp b/include/edsp/feature/temporal/leq.hpp
index c7fdb72..6b1db5b 100644
--- a/include/edsp/feature/temporal/leq.hpp
+++ b/include/edsp/feature/temporal/leq.hpp
@@ -28,6 +28,7 @@
 #define EDSP_LEQ_HPP
 
 #include <edsp/filter/moving_average_filter.hpp>
+#include <edsp/feature/temporal/power.hpp>
 #include <edsp/feature/temporal/energy.hpp>
 #include <edsp/converter/pow2db.hpp>
 
-- 
2.43.0


From 1255e43f9beb196d05d2c03af2ec7333d901a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:21 +0000
Subject: [PATCH 036/109] fix: rms.hpp uses std::distance without including
 <iterator>

---
 include/edsp/feature/temporal/rms.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/feature/temporal/rms.hpp b/include/edsp/feature/temporal/rms.hpp
index ac287f7..0f4c58c 100644
--- a/include/edsp/feature/temporal/rms.hpp
+++ b/include/edsp/feature/temporal/rms.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_STATISTICAL_RMS_H
 #define EDSP_STATISTICAL_RMS_H
 
+#include <iterator>
 #include <numeric>
 #include <cmath>
 
-- 
2.43.0


From 065988a6da2d514c2b5891ddf5099059299812c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:21 +0000
Subject: [PATCH 037/109] fix: window headers use the math constants without
 including them

---
 include/edsp/windowing/blackman_harris.hpp  | 1 +
 include/edsp/windowing/blackman_nuttall.hpp | 1 +
 include/edsp/windowing/hanning.hpp          | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/edsp/windowing/blackman_harris.hpp b/include/edsp/windowing/blackman_harris.hpp
index 0731ea7..0042828 100644
--- a/include/edsp/windowing/blackman_harris.hpp
+++ b/include/edsp/windowing/blackman_harris.hpp
@@ -23,6 +23,7 @@
 #define EDSP_BLACKMANHARRIS_HARRIS_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <cmath>
 
diff --git a/include/edsp/windowing/blackman_nuttall.hpp b/include/edsp/windowing/blackman_nuttall.hpp
index 21fdab2..b1fd35d 100644
--- a/include/edsp/windowing/blackman_nuttall.hpp
+++ b/include/edsp/windowing/blackman_nuttall.hpp
@@ -23,6 +23,7 @@
 #define EDSP_BLACKMAN_NUTTAL_HARRIS_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 
 namespace edsp { namespace windowing {
diff --git a/include/edsp/windowing/hanning.hpp b/include/edsp/windowing/hanning.hpp
index 82c3fa1..166373f 100644
--- a/include/edsp/windowing/hanning.hpp
+++ b/include/edsp/windowing/hanning.hpp
@@ -23,6 +23,7 @@
 #define EDSP_HANNING_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <cmath>
 
-- 
2.43.0


From 24ab522c7ad590d8ffe20c5afae87efdd81cb8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:21 +0000
Subject: [PATCH 038/109] fix: logspace.hpp and abstract_designer.hpp lack the
 headers they use

---
 include/edsp/algorithm/logspace.hpp                | 1 +
 include/edsp/filter/internal/abstract_designer.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/edsp/algorithm/logspace.hpp b/include/edsp/algorithm/logspace.hpp
index 4da9161..bc6e4fe 100644
--- a/include/edsp/algorithm/logspace.hpp
+++ b/include/edsp/algorithm/logspace.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_ALGORITHM_LOGSPACE_H
 #define EDSP_ALGORITHM_LOGSPACE_H
 
+#include <cmath>
 #include <iterator>
 
 namespace edsp { inline namespace algorithm {
diff --git a/include/edsp/filter/internal/abstract_designer.hpp b/include/edsp/filter/internal/abstract_designer.hpp
index bb1ec10..75a1cef 100644
--- a/include/edsp/filter/internal/abstract_designer.hpp
+++ b/include/edsp/filter/internal/abstract_designer.hpp
@@ -24,6 +24,7 @@
 
 #include <edsp/filter/internal/bilinear/layout_base.hpp>
 #include <edsp/filter/biquad_cascade.hpp>
+#include <edsp/math/constant.hpp>
 #include <complex>
 
 namespace edsp { namespace filter {
-- 
2.43.0


From b1d974b8d2647d03cb4446fa34311f907b1ac3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:15 +0000
Subject: [PATCH 039/109] fix: report environment variables with an empty value
 as found

---
 include/edsp/core/system.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 05b9a14..dc1b26d 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -188,7 +188,7 @@ namespace edsp { inline namespace core {
             if (meta::empty(variable_name)) {
                 return edsp::make_unexpected(error::empty);
             } else {
-                if (!meta::is_null(env_p)) {
+                if (env_p != nullptr) {
                     return env_p;
                 } else {
                     return edsp::make_unexpected(error::not_found);
@@ -221,7 +221,7 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(meta::data(variable_name)));
+            return std::getenv(meta::data(variable_name)) != nullptr;
         }
 
     private:
-- 
2.43.0


From a5eaef0a47237b5b811c8165e82e39d131750625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:15 +0000
Subject: [PATCH 040/109] fix: set_env reports the reason of a failure

---
 include/edsp/core/system.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index dc1b26d..eb9e9fb 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -29,6 +29,7 @@
 #include <edsp/meta/expects.hpp>
 #include <edsp/meta/is_null.hpp>
 #include <edsp/meta/empty.hpp>
+#include <cerrno>
 #include <mutex>
 
 namespace edsp { inline namespace core {
@@ -210,7 +211,17 @@ namespace edsp { inline namespace core {
                 return error::empty;
             } else {
                 const auto result = setenv(meta::data(variable_name), meta::data(variable_value), overwrite);
-                return static_cast<error>(result);
+                if (result == 0) {
+                    return error::no_error;
+                }
+                switch (errno) {
+                    case EINVAL:
+                        return error::invalid_argument;
+                    case ENOMEM:
+                        return error::no_memory;
+                    default:
+                        return error::unknown;
+                }
             }
         }
 
-- 
2.43.0


From 69d27ef5653ea20e27bd7ac0a1bf7123851fd027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:16 +0000
Subject: [PATCH 041/109] fix: environment names and values are views, not
 null-terminated strings

---
 include/edsp/core/system.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index eb9e9fb..b57cbe5 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -31,6 +31,7 @@
 #include <edsp/meta/empty.hpp>
 #include <cerrno>
 #include <mutex>
+#include <string>
 
 namespace edsp { inline namespace core {
 
@@ -185,7 +186,7 @@ namespace edsp { inline namespace core {
         static edsp::expected<edsp::string_view, error>
             get_env(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            const char* env_p = std::getenv(variable_name.data());
+            const char* env_p = std::getenv(to_string(variable_name).c_str());
             if (meta::empty(variable_name)) {
                 return edsp::make_unexpected(error::empty);
             } else {
@@ -210,7 +211,7 @@ namespace edsp { inline namespace core {
             if (meta::empty(variable_name)) {
                 return error::empty;
             } else {
-                const auto result = setenv(meta::data(variable_name), meta::data(variable_value), overwrite);
+                const auto result = setenv(to_string(variable_name).c_str(), to_string(variable_value).c_str(), overwrite);
                 if (result == 0) {
                     return error::no_error;
                 }
@@ -232,10 +233,17 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return std::getenv(meta::data(variable_name)) != nullptr;
+            return std::getenv(to_string(variable_name).c_str()) != nullptr;
         }
 
     private:
+        /**
+         * @brief A null-terminated copy of the characters of a view, as the C environment functions need it.
+         */
+        static std::string to_string(const edsp::string_view& view) {
+            return std::string(view.data(), view.size());
+        }
+
         /**
          * @brief Returns a reference to the global mutex used in all the instances of the system environment class.
          *
-- 
2.43.0


From dc6087c48dce2a06179b3f000b57dac67875fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:11 +0000
Subject: [PATCH 042/109] fix: join keeps what follows a null character

---
 include/edsp/string/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/string/join.hpp b/include/edsp/string/join.hpp
index 476e5c9..ee4a29b 100644
--- a/include/edsp/string/join.hpp
+++ b/include/edsp/string/join.hpp
@@ -46,7 +46,7 @@ namespace edsp { namespace string {
             }
             ss << *first;
         }
-        d_str = ss.str().c_str();
+        d_str = ss.str();
     }
 
 }} // namespace edsp::string
-- 
2.43.0


From 419b735007e8b15d80f564a6a17e2f54312c51c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 043/109] fix: decoder and encoder forget the file they closed

---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 1 +
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 328cb8f..dd9b05c 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -105,6 +105,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c84c887..c0c9cbc 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -121,6 +121,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
-- 
2.43.0


From 3f18159aa613bf350c5550d5c0c232150bac324e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 044/109] fix: decoder and encoder own their file and cannot be
 copied

---
 bindings/python/src/io.cpp                                   | 4 ++--
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 3 +++
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 3 +++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 1199587..7640ecf 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -93,7 +93,7 @@ void add_io_package() {
         .def("artist", &edsp::io::metadata::artist)
         .def("track", &edsp::io::metadata::track);
 
-    bp::class_<encoder>("Encoder", bp::init<std::size_t, std::size_t>())
+    bp::class_<encoder, boost::noncopyable>("Encoder", bp::init<std::size_t, std::size_t>())
         .def("open", &encoder::open)
         .def("is_open", &encoder::is_open)
         .def("close", &encoder::close)
@@ -101,7 +101,7 @@ void add_io_package() {
         .def("samplerate", &encoder::sample_rate)
         .def("write", encoder_wrapper);
 
-    bp::class_<decoder>("Decoder", bp::init<>())
+    bp::class_<decoder, boost::noncopyable>("Decoder", bp::init<>())
         .def("open", &decoder::open)
         .def("is_open", &decoder::is_open)
         .def("close", &decoder::close)
diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index dd9b05c..847bff9 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -81,6 +81,9 @@ namespace edsp { namespace io {
         using value_type = T;
 
         libsndfile_decoder() = default;
+
+        libsndfile_decoder(const libsndfile_decoder&) = delete;
+        libsndfile_decoder& operator=(const libsndfile_decoder&) = delete;
         ~libsndfile_decoder() {
             close();
         }
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c0c9cbc..a416d9b 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -97,6 +97,9 @@ namespace edsp { namespace io {
             info_.format     = SF_FORMAT_WAV | internal::writer<T>::FORMAT;
         }
 
+        libsndfile_encoder(const libsndfile_encoder&) = delete;
+        libsndfile_encoder& operator=(const libsndfile_encoder&) = delete;
+
         ~libsndfile_encoder() {
             close();
         }
-- 
2.43.0


From 4f6b12a9afd4639382521bb85a5c93e7a55a9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 045/109] fix: decoder reads whole frames

---
 .../edsp/io/internal/decoder/libsndfile_decoder_impl.hpp  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 847bff9..625ae7a 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -148,11 +148,17 @@ namespace edsp { namespace io {
             using value_type = meta::value_type_t<OutputIt>;
             static_assert(std::is_same<value_type, underlying_t>::value, "Expecting iterator of the same type");
 
+            if (!is_open()) {
+                return 0;
+            }
+
             index_type total        = std::distance(first, last);
             index_type remaining    = total;
             index_type samples_read = 0;
             do {
-                const auto counter = (remaining > N) ? N : remaining;
+                // libsndfile only transfers whole frames
+                const auto length  = (remaining > N) ? N : remaining;
+                const auto counter = length - length % channels();
                 samples_read       = internal::reader<T>{}.read(file_, meta::data(buffer_), counter);
                 remaining -= samples_read;
                 first = std::copy(std::cbegin(buffer_), std::cbegin(buffer_) + samples_read, first);
-- 
2.43.0


From c66388a316e0d1350322dfff35c02d8729e24928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 046/109] fix: error() returned a reference to a temporary

---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 2 +-
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 625ae7a..3befc61 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -111,7 +111,7 @@ namespace edsp { namespace io {
             file_ = nullptr;
         }
 
-        const edsp::string_view& error() const {
+        edsp::string_view error() const {
             return sf_strerror(file_);
         }
 
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index a416d9b..e26c412 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -127,7 +127,7 @@ namespace edsp { namespace io {
             file_ = nullptr;
         }
 
-        const edsp::string_view& error() const {
+        edsp::string_view error() const {
             return sf_strerror(file_);
         }
 
-- 
2.43.0


From 49079136f4eb4a8a205d0a5b17bd6ef09ac58f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 047/109] fix: the resampler owns its state and cannot be
 copied

---
 bindings/python/src/io.cpp                                | 2 +-
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 7640ecf..88bf99a 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -119,7 +119,7 @@ void add_io_package() {
         .value("Fastest", edsp::io::resample_quality::sinc_fastest)
         .value("ZeroOrderHold", edsp::io::resample_quality::zero_order_hold);
 
-    bp::class_<resampler>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
+    bp::class_<resampler, boost::noncopyable>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
         .def("process", resampler_process_wrapper)
         .def("error_string", resampler_error_string_wrapper)
         .def("quality", &resampler::quality)
diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 0ef7745..9c18b34 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -45,6 +45,9 @@ namespace edsp { namespace io {
             report_error(__PRETTY_FUNCTION__);
         }
 
+        libsamplerate_impl(const libsamplerate_impl&) = delete;
+        libsamplerate_impl& operator=(const libsamplerate_impl&) = delete;
+
         ~libsamplerate_impl() {
             src_delete(state_);
         }
-- 
2.43.0


From b9a6ec218cfe19f343530f5ff1d0ec655dffd484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 048/109] fix: a failed resampling reports no frames

---
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 9c18b34..f7cb355 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -63,6 +63,8 @@ namespace edsp { namespace io {
             data_.data_out           = &(*d_first);
             data_.src_ratio          = ratio_;
             data_.end_of_input       = 0;
+            data_.input_frames_used  = 0;
+            data_.output_frames_gen  = 0;
             error_                   = src_process(state_, &data_);
             report_error(__PRETTY_FUNCTION__);
             return {data_.input_frames_used, data_.output_frames_gen};
-- 
2.43.0


From ef3cd0174489bd1ba0871da62b4cb5905ad0ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:52 +0000
Subject: [PATCH 049/109] fix: Resampler.process overflows its result for
 several channels

---
 bindings/python/src/io.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 88bf99a..3a931ee 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -72,10 +72,9 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
 
     Py_intptr_t final_shape[2] = {sizes.second, res.channels()};
     const auto final_samples   = sizes.second * res.channels();
-    auto final_result          = bn::empty(1, final_shape, bn::dtype::get_builtin<real_t>());
+    auto final_result          = bn::empty(2, final_shape, bn::dtype::get_builtin<real_t>());
     auto final_data            = reinterpret_cast<real_t*>(final_result.get_data());
     std::copy(data, data + final_samples, final_data);
-    final_result.reshape(bp::make_tuple(sizes.second, res.channels()));
     return bp::make_tuple(final_result, sizes.first);
 }
 
-- 
2.43.0


From a0d89c5597c0510dce4b9fa470cd0c6788c755a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:33 +0000
Subject: [PATCH 050/109] fix: Decoder.read past the end of the file or without
 a file

---
 bindings/python/src/io.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 3a931ee..4fa6727 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -47,9 +47,13 @@ auto decoder_wrapper(decoder& dec, unsigned int size) {
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto data            = reinterpret_cast<real_t*>(result.get_data());
     const auto sizes     = dec.read(data, data + size);
-    const auto frames    = sizes / dec.channels();
-    result.reshape(bp::make_tuple(frames, dec.channels()));
-    return result;
+    const auto channels  = std::max<std::ptrdiff_t>(dec.channels(), 1);
+    const auto frames    = sizes / channels;
+
+    Py_intptr_t final_shape[2] = {frames, channels};
+    auto final_result          = bn::empty(2, final_shape, bn::dtype::get_builtin<real_t>());
+    std::copy(data, data + frames * channels, reinterpret_cast<real_t*>(final_result.get_data()));
+    return final_result;
 }
 
 std::string resampler_error_string_wrapper(resampler& res) {
-- 
2.43.0


From 295d93c56c840946beaaebf4a3b7cea2b1ed475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:07 +0000
Subject: [PATCH 051/109] fix: a resampler without channels reports an error
 instead of aborting

---
 .../edsp/io/internal/resampler/libsamplerate_impl.hpp    | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index f7cb355..db63453 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -41,7 +41,12 @@ namespace edsp { namespace io {
             channels_(channels),
             quality_(quality),
             ratio_(factor) {
-            state_ = src_new(quality, static_cast<int>(channels), &error_);
+            // the library aborts instead of failing when it is asked for less than one channel
+            if (channels > 0) {
+                state_ = src_new(quality, static_cast<int>(channels), &error_);
+            } else {
+                error_ = 11; // SRC_ERR_BAD_CHANNEL_COUNT, not exported
+            }
             report_error(__PRETTY_FUNCTION__);
         }
 
@@ -55,7 +60,7 @@ namespace edsp { namespace io {
         template <typename InputIt, typename OutputIt>
         std::pair<size_type, size_type> process(InputIt first, InputIt last, OutputIt d_first) {
             const auto size          = std::distance(first, last);
-            const auto input_frames  = size / channels_;
+            const auto input_frames  = channels_ > 0 ? size / channels_ : 0;
             const auto output_frames = static_cast<std::size_t>(ratio_ * input_frames);
             data_.input_frames       = input_frames;
             data_.output_frames      = output_frames;
-- 
2.43.0


From 85dd6e79dd40066fa2fb13441b04e47f680aab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:29 +0000
Subject: [PATCH 052/109] fix: NaN is not a valid resampling ratio

---
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index db63453..095c24a 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -102,7 +102,7 @@ namespace edsp { namespace io {
         }
 
         static bool valid_ratio(double ratio) {
-            return static_cast<bool>(src_is_valid_ratio(ratio));
+            return ratio > 0 && static_cast<bool>(src_is_valid_ratio(ratio)); // the library accepts NaN
         }
 
     private:
-- 
2.43.0


From a2db850369b7a9b56df58cbc3d4261294134d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:38 +0000
Subject: [PATCH 053/109] fix: adsr::release_rate returns the rate, not the
 time

---
 include/edsp/experimental/envelope/adsr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/experimental/envelope/adsr.hpp b/include/edsp/experimental/envelope/adsr.hpp
index d7b0659..a625fc9 100644
--- a/include/edsp/experimental/envelope/adsr.hpp
+++ b/include/edsp/experimental/envelope/adsr.hpp
@@ -68,7 +68,7 @@ namespace edsp { namespace envelope {
         }
 
         constexpr value_type release_rate() const {
-            return release_time_;
+            return release_rate_;
         }
 
         constexpr value_type decay_rate() const {
-- 
2.43.0


From 133d0f6bef72908beb82a46ddc4293a431db40b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:38 +0000
Subject: [PATCH 054/109] fix: a key press during decay or sustain attacks to
 the full level

---
 include/edsp/experimental/envelope/adsr.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/edsp/experimental/envelope/adsr.hpp b/include/edsp/experimental/envelope/adsr.hpp
index a625fc9..bff46b2 100644
--- a/include/edsp/experimental/envelope/adsr.hpp
+++ b/include/edsp/experimental/envelope/adsr.hpp
@@ -159,9 +159,8 @@ namespace edsp { namespace envelope {
                 case adsr_state::attack:
                     value_ += attack_rate_;
                     if (value_ >= target_) {
-                        value_  = target_;
-                        target_ = sustain_level_;
-                        state_  = adsr_state::decay;
+                        value_ = target_;
+                        state_ = adsr_state::decay;
                     }
                     break;
                 case adsr_state::decay:
-- 
2.43.0


From cbba75c59ccaff649e34b03eeaa47a2d4fb29195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:38 +0000
Subject: [PATCH 055/109] fix: the envelope follower computes its gains

---
 include/edsp/experimental/envelope/ar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/envelope/ar.hpp b/include/edsp/experimental/envelope/ar.hpp
index 1333b07..24bd6e3 100644
--- a/include/edsp/experimental/envelope/ar.hpp
+++ b/include/edsp/experimental/envelope/ar.hpp
@@ -197,9 +197,9 @@ namespace edsp { namespace envelope {
 
     template <typename T>
     constexpr void ar<T>::reset() noexcept {
-        attack_gain_ = (attack_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
+        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
         release_gain_ =
-            (release_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
+            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
         last_ = 0;
     }
 
-- 
2.43.0


From 1d2e7918454d018a84015ba62d8d92a2d31098d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:38 +0000
Subject: [PATCH 056/109] fix: the times of the envelope follower are in
 milliseconds

---
 include/edsp/experimental/envelope/ar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/envelope/ar.hpp b/include/edsp/experimental/envelope/ar.hpp
index 24bd6e3..d27e55f 100644
--- a/include/edsp/experimental/envelope/ar.hpp
+++ b/include/edsp/experimental/envelope/ar.hpp
@@ -197,9 +197,9 @@ namespace edsp { namespace envelope {
 
     template <typename T>
     constexpr void ar<T>::reset() noexcept {
-        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
+        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (attack_time_ * sample_rate_))) : 0;
         release_gain_ =
-            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
+            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (release_time_ * sample_rate_))) : 0;
         last_ = 0;
     }
 
-- 
2.43.0


From eeacdc30e7be184d6ca6de39b3556bdcbbf42311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:38 +0000
Subject: [PATCH 057/109] fix: the mu-law functions capture the compression
 factor

---
 include/edsp/experimental/quantizer/mu_law_compressor.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/quantizer/mu_law_compressor.hpp b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
index 98fc255..608c327 100644
--- a/include/edsp/experimental/quantizer/mu_law_compressor.hpp
+++ b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
@@ -26,6 +26,7 @@
 #include <edsp/math/numeric.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <algorithm>
+#include <cmath>
 #include <functional>
 
 namespace edsp { namespace quantizer {
@@ -51,7 +52,7 @@ namespace edsp { namespace quantizer {
         meta::expects(absolute_max_value > 0, "Expected a maximum absolute value higher than zero");
         meta::expects(compression_factor > 0, "The compression factor should be a positive number");
         using value_type  = meta::value_type_t<InputIt>;
-        const auto lambda = [absolute_max_value](const value_type input) -> value_type {
+        const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    std::log(static_cast<value_type>(1 + compression_factor * ratio)) /
@@ -83,7 +84,7 @@ namespace edsp { namespace quantizer {
         meta::expects(absolute_max_value > 0, "Expected a maximum absolute value higher than zero");
         meta::expects(compression_factor > 0, "The compression factor should be a positive number");
         using value_type  = meta::value_type_t<InputIt>;
-        const auto lambda = [absolute_max_value](const value_type input) -> value_type {
+        const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    (std::pow(static_cast<value_type>(1 + compression_factor), ratio) - 1) /
-- 
2.43.0


From 6f2a69fb9d34b362188243caf91fc19559a0e549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:38 +0000
Subject: [PATCH 058/109] fix: mu-law expansion divides by the compression
 factor

---
 include/edsp/experimental/quantizer/mu_law_compressor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/experimental/quantizer/mu_law_compressor.hpp b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
index 608c327..c36f745 100644
--- a/include/edsp/experimental/quantizer/mu_law_compressor.hpp
+++ b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
@@ -88,7 +88,7 @@ namespace edsp { namespace quantizer {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    (std::pow(static_cast<value_type>(1 + compression_factor), ratio) - 1) /
-                   std::log(static_cast<value_type>(1 + compression_factor));
+                   static_cast<value_type>(compression_factor);
         };
         std::transform(first, last, d_first, std::cref(lambda));
     }
-- 
2.43.0


From f59a58fa8790a2fa12ab5dacee7c8bb11b34fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:30 +0000
Subject: [PATCH 059/109] fix: white noise of floating point samples

---
 include/edsp/random/noise/white_noise_generator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/edsp/random/noise/white_noise_generator.hpp b/include/edsp/random/noise/white_noise_generator.hpp
index 02d2cd4..79cc851 100644
--- a/include/edsp/random/noise/white_noise_generator.hpp
+++ b/include/edsp/random/noise/white_noise_generator.hpp
@@ -24,6 +24,7 @@
 
 #include <random>
 #include <chrono>
+#include <type_traits>
 
 namespace edsp { namespace random {
 
@@ -40,7 +41,7 @@ namespace edsp { namespace random {
          */
         inline white_noise_generator(value_type min, value_type max) :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(min, max)) {}
+            distribution_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -51,8 +52,10 @@ namespace edsp { namespace random {
         }
 
     private:
+        using distribution_type = std::conditional_t<std::is_integral<T>::value, std::uniform_int_distribution<T>,
+                                                     std::uniform_real_distribution<T>>;
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
+        distribution_type distribution_;
     };
 
 }} // namespace edsp::random
-- 
2.43.0


From 8a72859dcf57d82a0e945e484dcba507e069ac30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:30 +0000
Subject: [PATCH 060/109] fix: pink and brown noise use the requested engine

---
 include/edsp/random/noise/brown_noise_generator.hpp | 2 +-
 include/edsp/random/noise/pink_noise_generator.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/random/noise/brown_noise_generator.hpp b/include/edsp/random/noise/brown_noise_generator.hpp
index 9f57e8d..5c3536a 100644
--- a/include/edsp/random/noise/brown_noise_generator.hpp
+++ b/include/edsp/random/noise/brown_noise_generator.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace random {
          * @brief Creates a brown noise sequence generator.
          */
         inline brown_noise_generator(value_type min, value_type max) :
-            generator_(white_noise_generator<value_type>(min, max)) {}
+            generator_(white_noise_generator<value_type, Engine>(min, max)) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
diff --git a/include/edsp/random/noise/pink_noise_generator.hpp b/include/edsp/random/noise/pink_noise_generator.hpp
index 7f9410f..4c5bcfe 100644
--- a/include/edsp/random/noise/pink_noise_generator.hpp
+++ b/include/edsp/random/noise/pink_noise_generator.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace random {
          * @brief Creates a pink noise sequence generator.
          */
         inline pink_noise_generator(value_type min, value_type max) :
-            generator_(white_noise_generator<value_type>(min, max)) {}
+            generator_(white_noise_generator<value_type, Engine>(min, max)) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
-- 
2.43.0


From b90c22540d84dc6dde51afae1f97fd5af63f8fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:47 +0000
Subject: [PATCH 061/109] fix: the distribution generators compile

---
 include/edsp/random/random_generator.hpp | 70 ++++++++++++++++++------
 1 file changed, 52 insertions(+), 18 deletions(-)

diff --git a/include/edsp/random/random_generator.hpp b/include/edsp/random/random_generator.hpp
index e98d5ea..7c47926 100644
--- a/include/edsp/random/random_generator.hpp
+++ b/include/edsp/random/random_generator.hpp
@@ -56,12 +56,12 @@ namespace edsp { namespace random {
 
         template <typename Distribution, typename Engine = std::mt19937>
         struct RandomGeneratorImpl {
-            using value_type = typename Distribution::value_type;
+            using value_type = typename Distribution::result_type;
             template <typename... Args>
             explicit RandomGeneratorImpl(Args... arg) :
                 generator_(
                     Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-                distribution_(Distribution(std::forward(arg...))) {}
+                distribution_(Distribution(arg...)) {}
 
             inline value_type operator()() {
                 return static_cast<value_type>(distribution_(generator_));
@@ -77,73 +77,107 @@ namespace edsp { namespace random {
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Uniform, T>
-            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {};
+            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {
+            using RandomGeneratorImpl<std::uniform_real_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Bernoulli, T>
-            : public RandomGeneratorImpl<std::bernoulli_distribution, T> {};
+            : public RandomGeneratorImpl<std::bernoulli_distribution> {
+            using RandomGeneratorImpl<std::bernoulli_distribution>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Binomial, T>
-            : public RandomGeneratorImpl<std::binomial_distribution<T>> {};
+            : public RandomGeneratorImpl<std::binomial_distribution<T>> {
+            using RandomGeneratorImpl<std::binomial_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Geometric, T>
-            : public RandomGeneratorImpl<std::geometric_distribution<T>> {};
+            : public RandomGeneratorImpl<std::geometric_distribution<T>> {
+            using RandomGeneratorImpl<std::geometric_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Poisson, T>
-            : public RandomGeneratorImpl<std::poisson_distribution<T>> {};
+            : public RandomGeneratorImpl<std::poisson_distribution<T>> {
+            using RandomGeneratorImpl<std::poisson_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Exponential, T>
-            : public RandomGeneratorImpl<std::exponential_distribution<T>> {};
+            : public RandomGeneratorImpl<std::exponential_distribution<T>> {
+            using RandomGeneratorImpl<std::exponential_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
-        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {};
+        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {
+            using RandomGeneratorImpl<std::gamma_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Weibull, T>
-            : public RandomGeneratorImpl<std::weibull_distribution<T>> {};
+            : public RandomGeneratorImpl<std::weibull_distribution<T>> {
+            using RandomGeneratorImpl<std::weibull_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ExtremeValue, T>
-            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {};
+            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {
+            using RandomGeneratorImpl<std::extreme_value_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Normal, T> : public RandomGeneratorImpl<std::normal_distribution<T>> {
+            using RandomGeneratorImpl<std::normal_distribution<T>>::RandomGeneratorImpl;
         };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::LogNormal, T>
-            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {};
+            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {
+            using RandomGeneratorImpl<std::lognormal_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ChiSquared, T>
-            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {};
+            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {
+            using RandomGeneratorImpl<std::chi_squared_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Fisher, T>
-            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {};
+            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {
+            using RandomGeneratorImpl<std::fisher_f_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Student, T>
-            : public RandomGeneratorImpl<std::student_t_distribution<T>> {};
+            : public RandomGeneratorImpl<std::student_t_distribution<T>> {
+            using RandomGeneratorImpl<std::student_t_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Discrete, T>
-            : public RandomGeneratorImpl<std::discrete_distribution<T>> {};
+            : public RandomGeneratorImpl<std::discrete_distribution<T>> {
+            using RandomGeneratorImpl<std::discrete_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseConstant, T>
-            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_constant_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseLinear, T>
-            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_linear_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Cauchy, T> : public RandomGeneratorImpl<std::cauchy_distribution<T>> {
+            using RandomGeneratorImpl<std::cauchy_distribution<T>>::RandomGeneratorImpl;
         };
 
     } // namespace internal
-- 
2.43.0


From 0652e15b57f3639199297a1ef09f54ed820921c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:47 +0000
Subject: [PATCH 062/109] fix: gradient noise compiles and interpolates within
 the cell

---
 .../edsp/random/noise/perlin_noise_generator.hpp  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index 124f112..b1e9fef 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -23,6 +23,8 @@
 #define EDSP_PERLIN_NOISE_GENERATOR_HPP
 
 #include <array>
+#include <cmath>
+#include <cstdint>
 #include <random>
 #include <chrono>
 
@@ -59,7 +61,7 @@ namespace edsp { namespace random {
          */
         inline perlin_noise_generator() :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(0, 511)) {}
+            distribution_(std::uniform_real_distribution<T>(0, 511)) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -69,16 +71,16 @@ namespace edsp { namespace random {
             const auto random_value = distribution_(generator_);
             const auto index        = static_cast<std::int64_t>(random_value) & 0xFF;
             const auto floor_value  = random_value - std::floor(random_value);
-            const auto fade_value   = fade(random_value);
+            const auto fade_value   = fade(floor_value);
             return lerp(fade_value, grad(permutation[index], floor_value),
-                        grad(permutation[index + 1], floor_value - 1)) *
+                        grad(permutation[(index + 1) & 0xFF], floor_value - 1)) *
                    2;
         }
 
     private:
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
-        static constexpr const std::array<T, 512> permutation = {
+        std::uniform_real_distribution<T> distribution_;
+        static constexpr const std::array<std::uint8_t, 256> permutation = {
             {151, 160, 137, 91,  90,  15,  131, 13,  201, 95,  96,  53,  194, 233, 7,   225, 140, 36,  103, 30,
              69,  142, 8,   99,  37,  240, 21,  10,  23,  190, 6,   148, 247, 120, 234, 75,  0,   26,  197, 62,
              94,  252, 219, 203, 117, 35,  11,  32,  57,  177, 33,  88,  237, 149, 56,  87,  174, 20,  125, 136,
@@ -94,5 +96,8 @@ namespace edsp { namespace random {
              222, 114, 67,  29,  24,  72,  243, 141, 128, 195, 78,  66,  215, 61,  156, 180}};
     };
 
+    template <typename T, typename Engine>
+    constexpr const std::array<std::uint8_t, 256> perlin_noise_generator<T, Engine>::permutation;
+
 }}     // namespace edsp::random
 #endif // EDSP_PERLIN_NOISE_GENERATOR_HPP
-- 
2.43.0


From 4e3f1acd1a48210c86d560356656ce899b62dacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:36 +0000
Subject: [PATCH 063/109] fix: the noise headers can be included in any order

---
 include/edsp/random/noise/perlin_noise_generator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index b1e9fef..3277979 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -30,7 +30,7 @@
 
 namespace edsp { namespace random {
 
-    inline namespace internal {
+    namespace internal {
         template <typename T>
         constexpr T fade(T t) noexcept {
             return t * t * t * (t * (t * 6 - 15) + 10);
@@ -71,9 +71,9 @@ namespace edsp { namespace random {
             const auto random_value = distribution_(generator_);
             const auto index        = static_cast<std::int64_t>(random_value) & 0xFF;
             const auto floor_value  = random_value - std::floor(random_value);
-            const auto fade_value   = fade(floor_value);
-            return lerp(fade_value, grad(permutation[index], floor_value),
-                        grad(permutation[(index + 1) & 0xFF], floor_value - 1)) *
+            const auto fade_value   = internal::fade(floor_value);
+            return internal::lerp(fade_value, internal::grad(permutation[index], floor_value),
+                                  internal::grad(permutation[(index + 1) & 0xFF], floor_value - 1)) *
                    2;
         }
 
-- 
2.43.0


From e442873bc4b90c6ad1bfedf9127c2bd3b16b731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:48 +0000
Subject: [PATCH 064/109] fix: logger tab and endl insert the character they
 are documented to insert

---
 include/edsp/core/logger.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 0f52df8..cf6e00e 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -224,11 +224,13 @@ namespace edsp { inline namespace core {
     inline namespace internal {
         struct logger_impl {
             inline static logger& tab(logger& stream) {
-                return stream << '\t';
+                stream.msg_ << '\t';
+                return stream;
             }
 
             inline static logger& endl(logger& stream) {
-                return stream << '\n';
+                stream.msg_ << '\n';
+                return stream;
             }
 
             inline static logger& red(logger& stream) {
-- 
2.43.0


From b12d80ad233e3293fb7c9bd4d01ce221ff54cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:48 +0000
Subject: [PATCH 065/109] fix: logger inserts the whole of a string or string
 view, and nothing past its end

---
 include/edsp/core/logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index cf6e00e..3de8bcb 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -485,13 +485,13 @@ namespace edsp { inline namespace core {
 
     template <typename Char>
     logger& logger::operator<<(const std::basic_string<Char>& str) {
-        msg_ << str.data();
+        msg_ << str;
         return space();
     }
 
     template <typename Char>
     logger& logger::operator<<(const edsp::basic_string_view<Char>& str) {
-        msg_ << str.data();
+        msg_ << str;
         return space();
     }
 
-- 
2.43.0


From 36c18f81397bb53a5053d6c0e02612fc5256f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:48 +0000
Subject: [PATCH 066/109] fix: honour the default minimum level of the logger

---
 include/edsp/core/logger.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 3de8bcb..34bde95 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -430,7 +430,9 @@ namespace edsp { inline namespace core {
 
     logger::~logger() {
         edsp::endc(*this);
-        std::cout << msg_.str();
+        if (type_ != levels::off && type_ >= global_level()) {
+            std::cout << msg_.str();
+        }
     }
 
     logger& logger::space() {
-- 
2.43.0


From 3a788c912dc35e6ef45c66e817cfab8b8872f615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:00 +0000
Subject: [PATCH 067/109] fix: metadata of a file without readable tags is
 empty instead of a crash

---
 .../edsp/io/internal/metadata/libtag_impl.hpp  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/edsp/io/internal/metadata/libtag_impl.hpp b/include/edsp/io/internal/metadata/libtag_impl.hpp
index efba48d..d085054 100644
--- a/include/edsp/io/internal/metadata/libtag_impl.hpp
+++ b/include/edsp/io/internal/metadata/libtag_impl.hpp
@@ -32,27 +32,33 @@ namespace edsp { namespace io {
         explicit libtag_metadata(const std::string& file) : ref_(meta::data(file)) {}
 
         std::string title() const {
-            return ref_.tag()->title().to8Bit();
+            const auto* tag = ref_.tag();
+            return tag != nullptr ? tag->title().to8Bit(true) : std::string();
         }
 
         std::string artist() const {
-            return ref_.tag()->artist().to8Bit();
+            const auto* tag = ref_.tag();
+            return tag != nullptr ? tag->artist().to8Bit(true) : std::string();
         }
 
         std::string album() const {
-            return ref_.tag()->album().to8Bit();
+            const auto* tag = ref_.tag();
+            return tag != nullptr ? tag->album().to8Bit(true) : std::string();
         }
 
         std::string genre() const {
-            return ref_.tag()->genre().to8Bit();
+            const auto* tag = ref_.tag();
+            return tag != nullptr ? tag->genre().to8Bit(true) : std::string();
         }
 
         size_t track() const {
-            return ref_.tag()->track();
+            const auto* tag = ref_.tag();
+            return tag != nullptr ? tag->track() : 0;
         }
 
         size_t year() const {
-            return ref_.tag()->year();
+            const auto* tag = ref_.tag();
+            return tag != nullptr ? tag->year() : 0;
         }
 
     private:
-- 
2.43.0


From 5d012e1eca60f9cdeaeabce9226295089be88e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:01 +0000
Subject: [PATCH 068/109] fix: peak_abs of the C interface returns the absolute
 peak

---
 bindings/c/src/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/statistics.c b/bindings/c/src/statistics.c
index 74f23ef..9e106c7 100644
--- a/bindings/c/src/statistics.c
+++ b/bindings/c/src/statistics.c
@@ -99,7 +99,7 @@ Peak peak(const real_t* data, int size) {
 }
 
 Peak peak_abs(const real_t* data, int size) {
-    const auto peak = edsp::statistics::peak(data, data + size);
+    const auto peak = edsp::statistics::peakabs(data, data + size);
     return Peak{static_cast<int>(peak.first), peak.second};
 }
 
-- 
2.43.0


From 2d2e69219460c6daaa62e35e937e2341aa959c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:01 +0000
Subject: [PATCH 069/109] fix: get_build_date returns the date

---
 bindings/c/src/core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/core.c b/bindings/c/src/core.c
index a9c6dcc..008c021 100644
--- a/bindings/c/src/core.c
+++ b/bindings/c/src/core.c
@@ -43,7 +43,7 @@ const char *get_version() {
 }
 
 const char *get_build_date() {
-    return edsp::library_info::build_time();
+    return edsp::library_info::build_date();
 }
 
 const char *get_build_time() {
-- 
2.43.0


From bd36591cc1350c44cd7cb55e493d0cd1e41ce415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:01 +0000
Subject: [PATCH 070/109] fix: library_info reports the FFT backend and major
 version it was configured with

---
 include/edsp/core/library_info.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/core/library_info.hpp b/include/edsp/core/library_info.hpp
index dbea03a..a51d4d1 100644
--- a/include/edsp/core/library_info.hpp
+++ b/include/edsp/core/library_info.hpp
@@ -79,7 +79,7 @@ namespace edsp { inline namespace core {
         }
 
         static constexpr std::int32_t major_version() noexcept {
-            return E_VERSION_MINOR;
+            return E_VERSION_MAJOR;
         }
 
         static constexpr std::int32_t patch_version() noexcept {
@@ -102,9 +102,9 @@ namespace edsp { inline namespace core {
 #if defined(USE_LIBFFTW)
             return fft_lib::fftw;
 #elif defined(USE_LIBPFFFT)
-            return fft_lib::fftw;
+            return fft_lib::pffft;
 #elif defined(USE_LIBACCELERATE)
-            return fft_lib::fftw;
+            return fft_lib::accelerate;
 #else
             return fft_lib::unknown;
 #endif
-- 
2.43.0


From 9df1bf58d09b3d293706bda507e1d1a087eaed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:15 +0000
Subject: [PATCH 071/109] fix: Python real2complex converts its argument

---
 bindings/python/src/converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 265f9dd..d61b9ac 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -53,7 +53,7 @@ bn::ndarray real2complex_python(bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real        = reinterpret_cast<real_t*>(result.get_data());
+    auto* real        = reinterpret_cast<real_t*>(input.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     real2complex(real, size, result_data);
     return result;
-- 
2.43.0


From 945eb6e91ab6a56bfeb7c02fd49b969a84cd9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:15 +0000
Subject: [PATCH 072/109] fix: Python get_environment returns the error code of
 an unset variable

---
 bindings/python/src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/core.cpp b/bindings/python/src/core.cpp
index 18de363..1e24e99 100644
--- a/bindings/python/src/core.cpp
+++ b/bindings/python/src/core.cpp
@@ -27,7 +27,7 @@
 bp::tuple get_environment_python(const char* tag) {
     int error = 0;
     const char* data = get_environment(tag, &error);
-    return bp::make_tuple(std::string(data), error);
+    return bp::make_tuple(std::string(data != nullptr ? data : ""), error);
 }
 
 void add_core_package() {
-- 
2.43.0


From 718e372bec82d0231004605be56073f8bc2bd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:15 +0000
Subject: [PATCH 073/109] fix: a negative length of the auditory scales raises
 instead of aborting

---
 bindings/python/src/auditory.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/python/src/auditory.cpp b/bindings/python/src/auditory.cpp
index 323e508..b8e694d 100644
--- a/bindings/python/src/auditory.cpp
+++ b/bindings/python/src/auditory.cpp
@@ -37,7 +37,7 @@ constexpr auto converter_python(Functor&& f, T frequency) noexcept {
 }
 
 template <class Functor, typename T, typename Integer>
-bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) noexcept {
+bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* data           = reinterpret_cast<real_t*>(result.get_data());
@@ -77,19 +77,19 @@ real_t erb2hertz(real_t frequency) noexcept {
     return converter_python(edsp::auditory::erb2hertz<real_t>, frequency);
 }
 
-bn::ndarray erbspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray erbspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::erbspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray barkspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray barkspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::barkspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray centspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray centspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::centspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray melspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray melspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::melspace<real_t*, real_t>, min, max, size);
 }
 
-- 
2.43.0


From 3985bef8e11b06b6f99eb9ec66330371448e35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:15 +0000
Subject: [PATCH 074/109] fix: Python pad to less than the input length raises
 instead of overflowing

---
 bindings/python/src/algorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index 9cf43b0..b6ea980 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -155,6 +155,10 @@ bn::ndarray padder_python(bn::ndarray& input, long size) {
     }
 
     const auto input_size = input.shape(0);
+    if (size < input_size) {
+        throw std::invalid_argument("Expected an output size not smaller than the input size");
+    }
+
     Py_intptr_t shape[1]  = {size};
     auto result           = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* in              = reinterpret_cast<real_t*>(input.get_data());
-- 
2.43.0


From 5e62458d383ecd5dc012b0ba7d9b346fc2aabcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:29 +0000
Subject: [PATCH 075/109] fix: Python functions of two arrays check the shape
 of both

---
 bindings/python/src/converter.cpp          | 4 ++++
 bindings/python/src/feature_spectral.cpp   | 6 +++++-
 bindings/python/src/feature_statistics.cpp | 6 +++++-
 bindings/python/src/spectral.cpp           | 4 ++++
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index d61b9ac..859f263 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -64,6 +64,10 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
 
+    if (real.shape(0) != imag.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same length");
+    }
+
     const auto size      = real.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 201a045..8de004b 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -47,9 +47,13 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
+    if (first.get_nd() != 1 || second.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+
+    if (first.shape(0) != second.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same length");
+    }
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
     auto* second_data = reinterpret_cast<real_t*>(second.get_data());
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index aa7e70b..d8b5469 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -44,9 +44,13 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
+    if (first.get_nd() != 1 || second.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+
+    if (first.shape(0) != second.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same length");
+    }
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
     auto* second_data = reinterpret_cast<real_t*>(second.get_data());
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index 8f3bd56..ff835a6 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -30,6 +30,10 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
 
+    if (left.shape(0) != right.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same length");
+    }
+
     const auto size      = left.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
-- 
2.43.0


From c4279b7224636220159541b0e3f78bbd4a148918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:58 +0000
Subject: [PATCH 076/109] fix: Python functions accept arrays of any layout and
 real type

---
 .../include/boost_numpy_dependencies.hpp      |  9 +++++++
 bindings/python/src/algorithm.cpp             | 21 ++++++++++------
 bindings/python/src/converter.cpp             | 18 +++++++++-----
 bindings/python/src/feature_spectral.cpp      |  9 ++++---
 bindings/python/src/feature_statistics.cpp    |  9 ++++---
 bindings/python/src/feature_temporal.cpp      |  6 +++--
 bindings/python/src/filter.cpp                |  3 ++-
 bindings/python/src/io.cpp                    |  6 +++--
 bindings/python/src/spectral.cpp              | 24 ++++++++++++-------
 bindings/python/src/statistics.cpp            |  3 ++-
 10 files changed, 75 insertions(+), 33 deletions(-)

diff --git a/bindings/python/include/boost_numpy_dependencies.hpp b/bindings/python/include/boost_numpy_dependencies.hpp
index 0a5bd0c..e0b09f2 100644
--- a/bindings/python/include/boost_numpy_dependencies.hpp
+++ b/bindings/python/include/boost_numpy_dependencies.hpp
@@ -40,4 +40,13 @@ namespace bp = boost::python;
 namespace bn = boost::python::numpy;
 #endif
 
+/**
+ * @brief Returns the elements of a one-dimensional array stored contiguously with the given type.
+ * @note The elements are only copied if the array has another type or layout.
+ */
+template <typename T>
+inline bn::ndarray contiguous(const bn::ndarray& input) {
+    return bn::from_object(input, bn::dtype::get_builtin<T>(), 1, 1, bn::ndarray::CARRAY_RO);
+}
+
 #endif //EDSP_BOOST_NUMPY_DEPENDENCIES_HPP
diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index b6ea980..9e8836c 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -34,7 +34,8 @@ bn::ndarray execute_inplace(Functor&& f, bn::ndarray& input, Args... arg) {
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in              = reinterpret_cast<real_t*>(input_array.get_data());
     auto out             = reinterpret_cast<real_t*>(result.get_data());
     f(in, size, out, arg...);
     return result;
@@ -47,7 +48,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(input_array.get_data());
     return f(in, size, arg...);
 }
 
@@ -127,8 +129,10 @@ bool equal_python(bn::ndarray& first, bn::ndarray& second) {
         return false;
     }
 
-    auto* first_in  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_in = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_in  = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_in = reinterpret_cast<real_t*>(second_array.get_data());
     return equal(first_in, size, second_in);
 }
 
@@ -141,8 +145,10 @@ bn::ndarray concatenate_python(bn::ndarray& first, bn::ndarray& second) {
     const auto second_size = second.shape(0);
     Py_intptr_t shape[1]   = {first_size + second_size};
     auto result            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto* first_in         = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_in        = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_in         = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_in        = reinterpret_cast<real_t*>(second_array.get_data());
     auto* result_data      = reinterpret_cast<real_t*>(result.get_data());
 
     array_concatenate(first_in, first_size, second_in, second_size, result_data);
@@ -161,7 +167,8 @@ bn::ndarray padder_python(bn::ndarray& input, long size) {
 
     Py_intptr_t shape[1]  = {size};
     auto result           = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto* in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* in              = reinterpret_cast<real_t*>(input_array.get_data());
     auto* result_data     = reinterpret_cast<real_t*>(result.get_data());
 
     array_padder(in, input_size, result_data, size);
diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 859f263..470e7e8 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -29,7 +29,8 @@ real_t peak2rms_python(bn::ndarray& input) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
 
     return peak2rms(data, size);
 }
@@ -39,7 +40,8 @@ real_t peak2peak_python(bn::ndarray& input) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
 
     return peak2peak(data, size);
 }
@@ -53,7 +55,8 @@ bn::ndarray real2complex_python(bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real        = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* real        = reinterpret_cast<real_t*>(input_array.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     real2complex(real, size, result_data);
     return result;
@@ -72,8 +75,10 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real_data   = reinterpret_cast<real_t*>(real.get_data());
-    auto* imag_data   = reinterpret_cast<real_t*>(imag.get_data());
+    const auto real_array = contiguous<real_t>(real);
+    auto* real_data   = reinterpret_cast<real_t*>(real_array.get_data());
+    const auto imag_array = contiguous<real_t>(imag);
+    auto* imag_data   = reinterpret_cast<real_t*>(imag_array.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     ri2complex(real_data, imag_data, size, result_data);
     return result;
@@ -89,7 +94,8 @@ bp::tuple complex2real_python(bn::ndarray& input) {
     auto real            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto imag            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* complex_data = reinterpret_cast<complex_t*>(input.get_data());
+    const auto input_array = contiguous<std::complex<real_t>>(input);
+    auto* complex_data = reinterpret_cast<complex_t*>(input_array.get_data());
     auto* real_data    = reinterpret_cast<real_t*>(real.get_data());
     auto* imag_data    = reinterpret_cast<real_t*>(imag.get_data());
     complex2real(complex_data, size, real_data, imag_data);
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 8de004b..f73dc5c 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -41,7 +41,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
     return f(data, data + size, arg...);
 }
 
@@ -55,8 +56,10 @@ auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
         throw std::invalid_argument("Expected arrays of the same length");
     }
     const auto size   = first.shape(0);
-    auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_data = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_data = reinterpret_cast<real_t*>(second_array.get_data());
     return f(first_data, first_data + size, second_data);
 }
 
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index d8b5469..441cfb9 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -38,7 +38,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
     return f(data, data + size, arg...);
 }
 
@@ -52,8 +53,10 @@ auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
         throw std::invalid_argument("Expected arrays of the same length");
     }
     const auto size   = first.shape(0);
-    auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_data = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_data = reinterpret_cast<real_t*>(second_array.get_data());
     return f(first_data, first_data + size, second_data);
 }
 
diff --git a/bindings/python/src/feature_temporal.cpp b/bindings/python/src/feature_temporal.cpp
index ceedb3c..51e568f 100644
--- a/bindings/python/src/feature_temporal.cpp
+++ b/bindings/python/src/feature_temporal.cpp
@@ -38,7 +38,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(input_array.get_data());
     return f(in, in + size, arg...);
 }
 
@@ -53,7 +54,8 @@ bn::ndarray execute_numpy(Functor&& f, bn::ndarray& input, Args... arg) {
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* data           = reinterpret_cast<real_t*>(result.get_data());
 
-    auto in = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in = reinterpret_cast<real_t*>(input_array.get_data());
     f(in, in + size, data, arg...);
     return result;
 }
diff --git a/bindings/python/src/filter.cpp b/bindings/python/src/filter.cpp
index 2d813af..6a4789a 100644
--- a/bindings/python/src/filter.cpp
+++ b/bindings/python/src/filter.cpp
@@ -30,7 +30,8 @@ auto wrapper_filter(Class& obj, bn::ndarray& input) {
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto data            = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto data            = reinterpret_cast<real_t*>(input_array.get_data());
     auto output          = reinterpret_cast<real_t*>(result.get_data());
     obj.filter(data, data + size, output);
     return result;
diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 4fa6727..3645340 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -38,7 +38,8 @@ auto encoder_wrapper(encoder& enc, bn::ndarray& input) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(input_array.get_data());
     return enc.write(in, in + size);
 }
 
@@ -71,7 +72,8 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
     Py_intptr_t shape[1] = {expected_size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto data            = reinterpret_cast<real_t*>(result.get_data());
-    auto in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in              = reinterpret_cast<real_t*>(input_array.get_data());
     const auto sizes     = res.process(in, in + size, data);
 
     Py_intptr_t final_shape[2] = {sizes.second, res.channels()};
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index ff835a6..e9386ea 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -38,8 +38,10 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* left_data  = reinterpret_cast<real_t*>(left.get_data());
-    auto* right_data = reinterpret_cast<real_t*>(right.get_data());
+    const auto left_array = contiguous<real_t>(left);
+    auto* left_data  = reinterpret_cast<real_t*>(left_array.get_data());
+    const auto right_array = contiguous<real_t>(right);
+    auto* right_data = reinterpret_cast<real_t*>(right_array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(left_data, right_data, size, result_data);
     return result;
@@ -55,7 +57,8 @@ bn::ndarray execute(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(input_array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -71,7 +74,8 @@ bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_fft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(input_array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -87,7 +91,8 @@ bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(input_array.get_data());
     auto result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -103,7 +108,8 @@ bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_fft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(input_array.get_data());
     auto result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -119,7 +125,8 @@ bn::ndarray execute_c2r(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_ifft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<complex_t*>(input.get_data());
+    const auto input_array = contiguous<std::complex<real_t>>(input);
+    auto* input_data = reinterpret_cast<complex_t*>(input_array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -135,7 +142,8 @@ bn::ndarray execute_c2c(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data  = reinterpret_cast<complex_t*>(input.get_data());
+    const auto input_array = contiguous<std::complex<real_t>>(input);
+    auto* input_data  = reinterpret_cast<complex_t*>(input_array.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
diff --git a/bindings/python/src/statistics.cpp b/bindings/python/src/statistics.cpp
index cf684e0..78ad5f6 100644
--- a/bindings/python/src/statistics.cpp
+++ b/bindings/python/src/statistics.cpp
@@ -31,7 +31,8 @@ inline auto execute(Functor&& f, bn::ndarray& input, Arg... arg) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto input_array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(input_array.get_data());
     return f(in, size, arg...);
 }
 
-- 
2.43.0


From 5b0ef762213db1f360d95578a0982e76143e76f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 077/109] fix: ring_span and variant headers can be included
 together

---
 include/edsp/thirdparty/nonstd/ring_span.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/ring_span.hpp b/include/edsp/thirdparty/nonstd/ring_span.hpp
index 1485ff7..43bc288 100644
--- a/include/edsp/thirdparty/nonstd/ring_span.hpp
+++ b/include/edsp/thirdparty/nonstd/ring_span.hpp
@@ -318,7 +318,7 @@ namespace nonstd {
 
     // forward-declare iterator:
 
-    namespace detail {
+    namespace ring_span_detail {
 
         template <class, bool>
         class ring_iterator;
@@ -339,8 +339,8 @@ namespace nonstd {
 
         typedef ring_span<T, Popper> type;
 
-        typedef detail::ring_iterator<type, false> iterator;
-        typedef detail::ring_iterator<type, true> const_iterator;
+        typedef ring_span_detail::ring_iterator<type, false> iterator;
+        typedef ring_span_detail::ring_iterator<type, true> const_iterator;
 
 #    if nsrs_RING_SPAN_LITE_EXTENSION
         typedef std::reverse_iterator<iterator> reverse_iterator;
@@ -579,8 +579,8 @@ namespace nonstd {
         }
 
     private:
-        friend class detail::ring_iterator<ring_span, true>;  // const_iterator;
-        friend class detail::ring_iterator<ring_span, false>; // iterator;
+        friend class ring_span_detail::ring_iterator<ring_span, true>;  // const_iterator;
+        friend class ring_span_detail::ring_iterator<ring_span, false>; // iterator;
 
         size_type normalize_(size_type const idx) const nsrs_noexcept {
             return idx % m_capacity;
@@ -652,7 +652,7 @@ namespace nonstd {
         lhs.swap(rhs);
     }
 
-    namespace detail {
+    namespace ring_span_detail {
 
 //
 // ring iterator:
@@ -815,7 +815,7 @@ class ring_iterator : public std::iterator
             return it;
         }
 
-    } // namespace detail
+    } // namespace ring_span_detail
 } // namespace nonstd
 
 nsrs_RESTORE_WARNINGS()
-- 
2.43.0


From 9b641e94dfa3daf61c806a9623e6e07b98fe2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 078/109] fix: any copies lvalues, lets allocation failures out
 and casts to references

---
 include/edsp/thirdparty/nonstd/any.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/any.hpp b/include/edsp/thirdparty/nonstd/any.hpp
index eee470f..acf4565 100644
--- a/include/edsp/thirdparty/nonstd/any.hpp
+++ b/include/edsp/thirdparty/nonstd/any.hpp
@@ -375,7 +375,7 @@ namespace nonstd {
 
             template <class ValueType, class T = typename std::decay<ValueType>::type,
                       typename = typename std::enable_if<!std::is_same<T, any>::value>::type>
-            any(ValueType&& value) any_noexcept : content(new holder<T>(std::move(value))) {}
+            any(ValueType&& value) : content(new holder<T>(std::forward<ValueType>(value))) {}
 
             template <class T, class... Args,
                       typename = typename std::enable_if<std::is_constructible<T, Args...>::value>::type>
@@ -414,7 +414,7 @@ namespace nonstd {
             template <class ValueType, class T = typename std::decay<ValueType>::type,
                       typename = typename std::enable_if<!std::is_same<T, any>::value>::type>
             any& operator=(ValueType&& value) {
-                any(std::move(value)).swap(*this);
+                any(std::forward<ValueType>(value)).swap(*this);
                 return *this;
             }
 
@@ -530,7 +530,7 @@ namespace nonstd {
 #        endif
                   >
         any_nodiscard inline ValueType any_cast(any const& operand) {
-            const ValueType* result =
+            const typename detail::remove_reference<ValueType>::type* result =
                 any_cast<typename detail::add_const<typename detail::remove_reference<ValueType>::type>::type>(
                     &operand);
 
@@ -549,7 +549,8 @@ namespace nonstd {
 #        endif
                   >
         any_nodiscard inline ValueType any_cast(any& operand) {
-            const ValueType* result = any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
+            typename detail::remove_reference<ValueType>::type* result =
+                any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
 
             if (!result) {
                 throw bad_any_cast();
@@ -568,13 +569,14 @@ namespace nonstd {
 #            endif
                   >
         any_nodiscard inline ValueType any_cast(any&& operand) {
-            const ValueType* result = any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
+            typename detail::remove_reference<ValueType>::type* result =
+                any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
 
             if (!result) {
                 throw bad_any_cast();
             }
 
-            return *result;
+            return static_cast<ValueType>(std::move(*result));
         }
 
 #        endif // any_CPP11_OR_GREATER
-- 
2.43.0


From 7ea242cf6c76fd7deade7dc0117397ebc4bae856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 079/109] fix: expected compares errors, swaps without leaking
 and lets copy failures out

---
 include/edsp/thirdparty/nonstd/expected.hpp | 51 +++++++++++++++------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index bbf4631..9fed5cd 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -310,6 +310,11 @@ namespace nonstd {
                     new (&m_value) value_type(std::move(v));
                 }
 
+                template <typename... Args>
+                void emplace_value(Args&&... args) {
+                    new (&m_value) value_type(std::forward<Args>(args)...);
+                }
+
                 void destruct_value() {
                     m_value.~value_type();
                 }
@@ -322,6 +327,11 @@ namespace nonstd {
                     new (&m_error) error_type(std::move(e));
                 }
 
+                template <typename... Args>
+                void emplace_error(Args&&... args) {
+                    new (&m_error) error_type(std::forward<Args>(args)...);
+                }
+
                 void destruct_error() {
                     m_error.~error_type();
                 }
@@ -385,6 +395,11 @@ namespace nonstd {
                     new (&m_error) error_type(std::move(e));
                 }
 
+                template <typename... Args>
+                void emplace_error(Args&&... args) {
+                    new (&m_error) error_type(std::forward<Args>(args)...);
+                }
+
                 void destruct_error() {
                     m_error.~error_type();
                 }
@@ -838,8 +853,7 @@ namespace nonstd {
                 !std::is_same<expected<T, E>, typename std20::remove_cvref<U>::type>::value &&
                 !std::is_same<nonstd::unexpected_type<E>, typename std20::remove_cvref<U>::type>::value &&
                 !std::is_convertible<U&&, T>::value /*=> explicit */
-                )) noexcept(std::is_nothrow_move_constructible<U>::value&&
-                                std::is_nothrow_move_constructible<E>::value) :
+                )) noexcept(std::is_nothrow_constructible<T, U&&>::value) :
                 has_value_(true) {
                 contained.construct_value(std::forward<U>(value));
             }
@@ -851,22 +865,21 @@ namespace nonstd {
                 !std::is_same<expected<T, E>, typename std20::remove_cvref<U>::type>::value &&
                 !std::is_same<nonstd::unexpected_type<E>, typename std20::remove_cvref<U>::type>::value &&
                 std::is_convertible<U&&, T>::value /*=> non-explicit */
-                )) noexcept(std::is_nothrow_move_constructible<U>::value&&
-                                std::is_nothrow_move_constructible<E>::value) :
+                )) noexcept(std::is_nothrow_constructible<T, U&&>::value) :
                 has_value_(true) {
                 contained.construct_value(std::forward<U>(value));
             }
 
             template <typename... Args nsel_REQUIRES_T(std::is_constructible<T, Args&&...>::value)>
             nsel_constexpr14 explicit expected(nonstd_lite_in_place_t(T), Args&&... args) : has_value_(true) {
-                contained.construct_value(std::forward<Args>(args)...);
+                contained.emplace_value(std::forward<Args>(args)...);
             }
 
             template <typename U, typename... Args nsel_REQUIRES_T(
                                       std::is_constructible<T, std::initializer_list<U>, Args&&...>::value)>
             nsel_constexpr14 explicit expected(nonstd_lite_in_place_t(T), std::initializer_list<U> il, Args&&... args) :
                 has_value_(true) {
-                contained.construct_value(il, std::forward<Args>(args)...);
+                contained.emplace_value(il, std::forward<Args>(args)...);
             }
 
             template <typename G = E>
@@ -899,14 +912,14 @@ namespace nonstd {
 
             template <typename... Args nsel_REQUIRES_T(std::is_constructible<E, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, Args&&... args) : has_value_(false) {
-                contained.construct_error(std::forward<Args>(args)...);
+                contained.emplace_error(std::forward<Args>(args)...);
             }
 
             template <typename U, typename... Args nsel_REQUIRES_T(
-                                      std::is_constructible<T, std::initializer_list<U>, Args&&...>::value)>
+                                      std::is_constructible<E, std::initializer_list<U>, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, std::initializer_list<U> il, Args&&... args) :
                 has_value_(false) {
-                contained.construct_error(il, std::forward<Args>(args)...);
+                contained.emplace_error(il, std::forward<Args>(args)...);
             }
 
             // x.x.4.2 destructor
@@ -926,7 +939,7 @@ namespace nonstd {
             //        std::is_copy_constructible<E>::value &&
             //        std::is_copy_assignable<E>::value )
 
-            expected operator=(expected const& other) {
+            expected& operator=(expected const& other) {
                 expected(other).swap(*this);
                 return *this;
             }
@@ -1206,14 +1219,14 @@ namespace nonstd {
 
             template <typename... Args nsel_REQUIRES_T(std::is_constructible<E, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, Args&&... args) : has_value_(false) {
-                contained.construct_error(std::forward<Args>(args)...);
+                contained.emplace_error(std::forward<Args>(args)...);
             }
 
             template <typename U, typename... Args nsel_REQUIRES_T(
-                                      std::is_constructible<U, std::initializer_list<U>, Args&&...>::value)>
+                                      std::is_constructible<E, std::initializer_list<U>, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, std::initializer_list<U> il, Args&&... args) :
                 has_value_(false) {
-                contained.construct_error(il, std::forward<Args>(args)...);
+                contained.emplace_error(il, std::forward<Args>(args)...);
             }
 
             // destructor
@@ -1244,7 +1257,9 @@ namespace nonstd {
                 return *this;
             }
 
-            void emplace() {}
+            void emplace() {
+                expected().swap(*this);
+            }
 
             // x.x.4.4 swap
 
@@ -1265,6 +1280,7 @@ namespace nonstd {
                     swap(contained.error(), other.contained.error());
                 } else if (bool(*this) && !bool(other)) {
                     contained.construct_error(std::move(other.error()));
+                    other.contained.destruct_error();
                     swap(has_value_, other.has_value_);
                 } else if (!bool(*this) && bool(other)) {
                     other.swap(*this);
@@ -1338,7 +1354,12 @@ namespace nonstd {
 
         template <typename T, typename E>
         constexpr bool operator==(expected<T, E> const& x, expected<T, E> const& y) {
-            return bool(x) != bool(y) ? false : bool(x) == false ? true : *x == *y;
+            return bool(x) != bool(y) ? false : bool(x) == false ? x.error() == y.error() : *x == *y;
+        }
+
+        template <typename E>
+        constexpr bool operator==(expected<void, E> const& x, expected<void, E> const& y) {
+            return bool(x) != bool(y) ? false : bool(x) == false ? x.error() == y.error() : true;
         }
 
         template <typename T, typename E>
-- 
2.43.0


From df5874c9d196d1677ef557dbbdf6a606565ebec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 080/109] fix: optional assignment lets copy failures out and
 swap moves

---
 include/edsp/thirdparty/nonstd/optional.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/optional.hpp b/include/edsp/thirdparty/nonstd/optional.hpp
index aa813c5..480ec03 100644
--- a/include/edsp/thirdparty/nonstd/optional.hpp
+++ b/include/edsp/thirdparty/nonstd/optional.hpp
@@ -892,8 +892,7 @@ namespace nonstd {
                                 //      std::is_copy_constructible<T>::value
                                 //      && std::is_copy_assignable<T>::value
                                 )
-                operator=(optional const& other) noexcept(
-                    std::is_nothrow_move_assignable<T>::value&& std::is_nothrow_move_constructible<T>::value)
+                operator=(optional const& other)
 #        else
             optional& operator=(optional const& other)
 #        endif
@@ -914,7 +913,8 @@ namespace nonstd {
                                 //      std::is_move_constructible<T>::value
                                 //      && std::is_move_assignable<T>::value
                                 )
-                operator=(optional&& other) noexcept {
+                operator=(optional&& other) noexcept(
+                    std::is_nothrow_move_assignable<T>::value&& std::is_nothrow_move_constructible<T>::value) {
                 if (has_value() == true && other.has_value() == false)
                     reset();
                 else if (has_value() == false && other.has_value() == true)
@@ -1032,10 +1032,18 @@ namespace nonstd {
                 if (has_value() == true && other.has_value() == true) {
                     swap(**this, *other);
                 } else if (has_value() == false && other.has_value() == true) {
+#        if optional_CPP11_OR_GREATER
+                    initialize(std::move(*other));
+#        else
                     initialize(*other);
+#        endif
                     other.reset();
                 } else if (has_value() == true && other.has_value() == false) {
+#        if optional_CPP11_OR_GREATER
+                    other.initialize(std::move(**this));
+#        else
                     other.initialize(**this);
+#        endif
                     reset();
                 }
             }
-- 
2.43.0


From 3013ba6a032df40d53bc0bd638facfae36aebd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 081/109] fix: variant assignment destroys the old value and
 small alternatives are accessible

---
 include/edsp/thirdparty/nonstd/variant.hpp | 26 ++++++++++------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/variant.hpp b/include/edsp/thirdparty/nonstd/variant.hpp
index 8cf0139..4f73aeb 100644
--- a/include/edsp/thirdparty/nonstd/variant.hpp
+++ b/include/edsp/thirdparty/nonstd/variant.hpp
@@ -1563,15 +1563,21 @@ namespace nonstd {
 
 #        endif // variant_CPP11_OR_GREATER
 
-            void swap(variant& other) variant_noexcept {
+            void swap(variant& other) {
                 if (valueless_by_exception() && other.valueless_by_exception()) {
                     // no effect
                 } else if (index() == other.index()) {
                     this->swap_value(index(), other);
                 } else {
+#        if variant_CPP11_OR_GREATER
+                    variant tmp(std::move(*this));
+                    *this = std::move(other);
+                    other = std::move(tmp);
+#        else
                     variant tmp(*this);
                     *this = other;
                     other = tmp;
+#        endif
                 }
             }
 
@@ -1588,7 +1594,7 @@ namespace nonstd {
             T& get() {
                 const std::size_t i = index_of<T>();
 
-                if (i != index() || i == max_index()) {
+                if (i != index() || i == variant_npos) {
                     throw bad_variant_access();
                 }
 
@@ -1599,7 +1605,7 @@ namespace nonstd {
             T const& get() const {
                 const std::size_t i = index_of<T>();
 
-                if (i != index() || i == max_index()) {
+                if (i != index() || i == variant_npos) {
                     throw bad_variant_access();
                 }
 
@@ -1637,10 +1643,6 @@ namespace nonstd {
                 return reinterpret_cast<U const*>(ptr());
             }
 
-            variant_constexpr std::size_t max_index() const variant_noexcept {
-                return data_size;
-            }
-
             variant_constexpr type_index_t variant_npos_internal() const variant_noexcept {
                 return static_cast<type_index_t>(-1);
             }
@@ -1651,8 +1653,6 @@ namespace nonstd {
                 } else if (!valueless_by_exception() && other.valueless_by_exception()) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                } else if (index() == other.index()) {
-                    type_index = helper_type::copy(other.type_index, other.ptr(), ptr());
                 } else {
                     // alas exception safety with pre-C++11 needs an extra copy:
 
@@ -1660,9 +1660,9 @@ namespace nonstd {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
 #        if variant_CPP11_OR_GREATER
-                    type_index = helper_type::move(other.type_index, tmp.ptr(), ptr());
+                    type_index = helper_type::move(tmp.type_index, tmp.ptr(), ptr());
 #        else
-                    type_index = helper_type::copy(other.type_index, tmp.ptr(), ptr());
+                    type_index = helper_type::copy(tmp.type_index, tmp.ptr(), ptr());
 #        endif
                 }
                 return *this;
@@ -1676,9 +1676,7 @@ namespace nonstd {
                 } else if (!valueless_by_exception() && other.valueless_by_exception()) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                } else if (index() == other.index()) {
-                    type_index = helper_type::move(other.type_index, other.ptr(), ptr());
-                } else {
+                } else if (this != &other) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
                     type_index = helper_type::move(other.type_index, other.ptr(), ptr());
-- 
2.43.0


From ddd50b2e895c03cd1392a21b381a25cd496e7f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 082/109] fix: string_view searches of empty views

---
 include/edsp/thirdparty/nonstd/string_view.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/string_view.hpp b/include/edsp/thirdparty/nonstd/string_view.hpp
index 37e8e40..f782ee9 100644
--- a/include/edsp/thirdparty/nonstd/string_view.hpp
+++ b/include/edsp/thirdparty/nonstd/string_view.hpp
@@ -627,8 +627,10 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
             nssv_constexpr14 size_type find(basic_string_view v, size_type pos = 0) const nssv_noexcept // (1)
             {
                 return assert(v.size() == 0 || v.data() != nssv_nullptr),
-                       pos >= size() ? npos
-                                     : to_pos(std::search(cbegin() + pos, cend(), v.cbegin(), v.cend(), Traits::eq));
+                       v.empty() ? (pos <= size() ? pos : npos)
+                                 : pos >= size()
+                                       ? npos
+                                       : to_pos(std::search(cbegin() + pos, cend(), v.cbegin(), v.cend(), Traits::eq));
             }
 
             nssv_constexpr14 size_type find(CharT c, size_type pos = 0) const nssv_noexcept // (2)
@@ -705,7 +707,8 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
 
             nssv_constexpr size_type find_last_of(basic_string_view v, size_type pos = npos) const nssv_noexcept // (1)
             {
-                return pos >= size() ? find_last_of(v, size() - 1)
+                return empty() ? npos
+                               : pos >= size() ? find_last_of(v, size() - 1)
                                      : to_pos(std::find_first_of(const_reverse_iterator(cbegin() + pos + 1), crend(),
                                                                  v.cbegin(), v.cend(), Traits::eq));
             }
@@ -753,7 +756,8 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
             nssv_constexpr size_type find_last_not_of(basic_string_view v,
                                                       size_type pos = npos) const nssv_noexcept // (1)
             {
-                return pos >= size()
+                return empty() ? npos
+                               : pos >= size()
                            ? find_last_not_of(v, size() - 1)
                            : to_pos(std::find_if(const_reverse_iterator(cbegin() + pos + 1), crend(), not_in_view(v)));
             }
-- 
2.43.0


From 9300e14771da24ab8abcc4190aeca5dce951732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:10 +0000
Subject: [PATCH 083/109] fix: span includes what it uses

---
 include/edsp/thirdparty/nonstd/span.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/edsp/thirdparty/nonstd/span.hpp b/include/edsp/thirdparty/nonstd/span.hpp
index 44c9fe5..7e622e0 100644
--- a/include/edsp/thirdparty/nonstd/span.hpp
+++ b/include/edsp/thirdparty/nonstd/span.hpp
@@ -403,6 +403,8 @@ span_DISABLE_MSVC_WARNINGS(26439 26440 26472 26473 26481 26490)
 
 #    if span_CONFIG(CONTRACT_VIOLATION_THROWS_V)
 #        include <stdexcept>
+#    else
+#        include <exception>
 #    endif
 
 // Contract violation
-- 
2.43.0


From 0c6b0085462edac5cc58cdfee71bf45fd5086069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:28 +0000
Subject: [PATCH 084/109] fix: Python functions refuse empty arrays instead of
 reading past them

---
 bindings/python/src/converter.cpp          |  6 ++++++
 bindings/python/src/feature_spectral.cpp   |  6 ++++++
 bindings/python/src/feature_statistics.cpp |  6 ++++++
 bindings/python/src/feature_temporal.cpp   |  3 +++
 bindings/python/src/spectral.cpp           | 24 ++++++++++++++++++++++
 bindings/python/src/statistics.cpp         |  3 +++
 6 files changed, 48 insertions(+)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 470e7e8..a4ce644 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -29,6 +29,9 @@ real_t peak2rms_python(bn::ndarray& input) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     const auto input_array = contiguous<real_t>(input);
     auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
 
@@ -40,6 +43,9 @@ real_t peak2peak_python(bn::ndarray& input) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     const auto input_array = contiguous<real_t>(input);
     auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
 
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index f73dc5c..40ecbc9 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -41,6 +41,9 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     const auto input_array = contiguous<real_t>(input);
     auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
     return f(data, data + size, arg...);
@@ -56,6 +59,9 @@ auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
         throw std::invalid_argument("Expected arrays of the same length");
     }
     const auto size   = first.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     const auto first_array = contiguous<real_t>(first);
     auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
     const auto second_array = contiguous<real_t>(second);
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index 441cfb9..afda110 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -38,6 +38,9 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     const auto input_array = contiguous<real_t>(input);
     auto* data      = reinterpret_cast<real_t*>(input_array.get_data());
     return f(data, data + size, arg...);
@@ -53,6 +56,9 @@ auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
         throw std::invalid_argument("Expected arrays of the same length");
     }
     const auto size   = first.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     const auto first_array = contiguous<real_t>(first);
     auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
     const auto second_array = contiguous<real_t>(second);
diff --git a/bindings/python/src/feature_temporal.cpp b/bindings/python/src/feature_temporal.cpp
index 51e568f..3c0463e 100644
--- a/bindings/python/src/feature_temporal.cpp
+++ b/bindings/python/src/feature_temporal.cpp
@@ -38,6 +38,9 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     }
 
     const auto size = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     const auto input_array = contiguous<real_t>(input);
     auto in         = reinterpret_cast<real_t*>(input_array.get_data());
     return f(in, in + size, arg...);
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index e9386ea..469254d 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -35,6 +35,9 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
     }
 
     const auto size      = left.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
@@ -54,6 +57,9 @@ bn::ndarray execute(Functor&& f, bn::ndarray& input) {
     }
 
     const auto size      = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
@@ -71,6 +77,9 @@ bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& input) {
     }
 
     const auto size      = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     Py_intptr_t shape[1] = {get_fft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
@@ -88,6 +97,9 @@ bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& input) {
     }
 
     const auto size      = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
@@ -105,6 +117,9 @@ bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& input) {
     }
 
     const auto size      = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     Py_intptr_t shape[1] = {get_fft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
@@ -122,6 +137,12 @@ bn::ndarray execute_c2r(Functor&& f, bn::ndarray& input) {
     }
 
     const auto size      = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
+    if (get_ifft_size(size) <= 0) {
+        throw std::invalid_argument("Expected at least two values");
+    }
     Py_intptr_t shape[1] = {get_ifft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
@@ -139,6 +160,9 @@ bn::ndarray execute_c2c(Functor&& f, bn::ndarray& input) {
     }
 
     const auto size      = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
diff --git a/bindings/python/src/statistics.cpp b/bindings/python/src/statistics.cpp
index 78ad5f6..0404b47 100644
--- a/bindings/python/src/statistics.cpp
+++ b/bindings/python/src/statistics.cpp
@@ -31,6 +31,9 @@ inline auto execute(Functor&& f, bn::ndarray& input, Arg... arg) {
     }
 
     const auto size = input.shape(0);
+    if (size == 0) {
+        throw std::invalid_argument("Expected a non-empty array");
+    }
     const auto input_array = contiguous<real_t>(input);
     auto in         = reinterpret_cast<real_t*>(input_array.get_data());
     return f(in, size, arg...);
-- 
2.43.0


From 2b702f927d489667ae5b464714d80f6f2b35035d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:50 +0000
Subject: [PATCH 085/109] fix: snr compiles next to the statistical features

---
 include/edsp/feature/temporal/snr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/feature/temporal/snr.hpp b/include/edsp/feature/temporal/snr.hpp
index 23b3166..f07db0f 100644
--- a/include/edsp/feature/temporal/snr.hpp
+++ b/include/edsp/feature/temporal/snr.hpp
@@ -56,9 +56,9 @@ namespace edsp { namespace feature { inline namespace temporal {
         std::transform(first1, last1, first2, std::begin(noise),
                        [](const value_type left, const value_type right) { return left - right; });
 
-        const auto var_ref   = statistics::variance(first1, last1);
-        const auto var_noise = statistics::variance(std::cbegin(noise), std::cend(noise));
-        return converter::pow2db(var_ref / var_noise);
+        const auto var_ref   = edsp::statistics::variance(first1, last1);
+        const auto var_noise = edsp::statistics::variance(std::cbegin(noise), std::cend(noise));
+        return edsp::converter::pow2db(var_ref / var_noise);
     }
 
 }}}    // namespace edsp::feature::temporal
-- 
2.43.0


From 23d1608565bb287ecd6ff654f4d81635d3ace81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:59 +0000
Subject: [PATCH 086/109] fix: inserting into a ring buffer without capacity
 does nothing

---
 include/edsp/types/fixed_ring_buffer.hpp | 12 +++++++++---
 include/edsp/types/ring_buffer.hpp       | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 43e218d..f368114 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -379,7 +379,9 @@ namespace edsp { inline namespace types {
          */
         template <typename... Args>
         void emplace_front(Args... arg) {
-            ring_.emplace_front(arg...);
+            if (capacity() > 0) {
+                ring_.emplace_front(arg...);
+            }
         }
 
         /**
@@ -392,7 +394,9 @@ namespace edsp { inline namespace types {
         */
         template <typename... Args>
         void emplace_back(Args... arg) {
-            ring_.emplace_back(arg...);
+            if (capacity() > 0) {
+                ring_.emplace_back(arg...);
+            }
         }
 
         /**
@@ -404,7 +408,9 @@ namespace edsp { inline namespace types {
          *  to it.
          */
         void push_back(const value_type& item) {
-            ring_.push_back(item);
+            if (capacity() > 0) {
+                ring_.push_back(item);
+            }
         }
 
         /**
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index 58a5439..662fcd3 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -412,7 +412,9 @@ namespace edsp { inline namespace types {
          */
         template <typename... Args>
         void emplace_front(Args... arg) {
-            ring_.emplace_front(arg...);
+            if (capacity() > 0) {
+                ring_.emplace_front(arg...);
+            }
         }
 
         /**
@@ -424,7 +426,9 @@ namespace edsp { inline namespace types {
         */
         template <typename... Args>
         void emplace_back(Args... arg) {
-            ring_.emplace_back(arg...);
+            if (capacity() > 0) {
+                ring_.emplace_back(arg...);
+            }
         }
 
         /**
@@ -436,7 +440,9 @@ namespace edsp { inline namespace types {
          *  to it.
          */
         void push_back(const value_type& item) {
-            ring_.push_back(item);
+            if (capacity() > 0) {
+                ring_.push_back(item);
+            }
         }
 
         /**
-- 
2.43.0


From 7ff8f207f4b961e85b57fea0c6e05a9d77f7a59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:59 +0000
Subject: [PATCH 087/109] fix: a moved-from ring buffer no longer views the
 storage it gave away

---
 include/edsp/types/ring_buffer.hpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index 662fcd3..6663723 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -66,7 +66,11 @@ namespace edsp { inline namespace types {
         ring_buffer(const ring_buffer& other) : buffer_(other.buffer_) {
             attach(other);
         }
-        constexpr ring_buffer(ring_buffer&&) noexcept = default;
+        ring_buffer(ring_buffer&& other) noexcept :
+            buffer_(std::move(other.buffer_)),
+            ring_(std::move(other.ring_)) {
+            other.release();
+        }
         ring_buffer& operator=(const ring_buffer& other) {
             if (this != &other) {
                 buffer_ = other.buffer_;
@@ -74,7 +78,14 @@ namespace edsp { inline namespace types {
             }
             return *this;
         }
-        constexpr ring_buffer& operator=(ring_buffer&&) noexcept = default;
+        ring_buffer& operator=(ring_buffer&& other) noexcept {
+            if (this != &other) {
+                buffer_ = std::move(other.buffer_);
+                ring_   = std::move(other.ring_);
+                other.release();
+            }
+            return *this;
+        }
 
         /**
          *  @brief Creates a %ring_buffer with default constructed elements.
@@ -495,6 +506,12 @@ namespace edsp { inline namespace types {
                                        other.size());
         }
 
+        // The storage has been given away: nothing is left to view.
+        void release() noexcept {
+            buffer_.clear();
+            ring_ = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_));
+        }
+
         container_type buffer_{};
         edsp::ring_span<T> ring_{std::begin(buffer_), std::end(buffer_)};
     };
-- 
2.43.0


From 3616f1c7d7398a5d868e6052baec714f04b04fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:04 +0000
Subject: [PATCH 088/109] fix: span and the moving filters include what they
 use

---
 include/edsp/filter/moving_average_filter.hpp | 1 +
 include/edsp/filter/moving_rms_filter.hpp     | 1 +
 include/edsp/thirdparty/nonstd/span.hpp       | 4 ++++
 3 files changed, 6 insertions(+)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 4f6964a..a5a7b35 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_FILTER_MOVING_AVERAGE_FILTER_H
 #define EDSP_FILTER_MOVING_AVERAGE_FILTER_H
 
+#include <algorithm>
 #include <edsp/types/ring_buffer.hpp>
 
 namespace edsp { namespace filter {
diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index 62b8dbe..9c4295e 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_MOVING_RMS_FILTER_HPP
 #define EDSP_MOVING_RMS_FILTER_HPP
 
+#include <algorithm>
 #include <edsp/types/ring_buffer.hpp>
 #include <cmath>
 
diff --git a/include/edsp/thirdparty/nonstd/span.hpp b/include/edsp/thirdparty/nonstd/span.hpp
index 7e622e0..cad4066 100644
--- a/include/edsp/thirdparty/nonstd/span.hpp
+++ b/include/edsp/thirdparty/nonstd/span.hpp
@@ -397,6 +397,10 @@ span_DISABLE_MSVC_WARNINGS(26439 26440 26472 26473 26481 26490)
 #        include <vector>
 #    endif
 
+#    if !span_CONFIG(NO_EXCEPTIONS)
+#        include <stdexcept>
+#    endif
+
 #    if span_FEATURE(MEMBER_AT) > 1
 #        include <cstdio>
 #    endif
-- 
2.43.0


From 052a1299fea3eacd898e10033554862f308977cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:24 +0000
Subject: [PATCH 089/109] fix: designing an odd-order filter no longer reports
 its zero at infinity as an error

---
 include/edsp/filter/internal/bilinear/layout_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/internal/bilinear/layout_base.hpp b/include/edsp/filter/internal/bilinear/layout_base.hpp
index a2c681b..8b5f213 100644
--- a/include/edsp/filter/internal/bilinear/layout_base.hpp
+++ b/include/edsp/filter/internal/bilinear/layout_base.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_LAYOUT_BASE_HPP
 #define EDSP_LAYOUT_BASE_HPP
 
+#include <edsp/math/complex.hpp>
 #include <edsp/math/numeric.hpp>
 #include <edsp/meta/expects.hpp>
 #include <edsp/meta/ensure.hpp>
@@ -43,8 +44,7 @@ namespace edsp { namespace filter {
     struct complex_pair : public std::pair<std::complex<T>, std::complex<T>> {
         using base = std::pair<std::complex<T>, std::complex<T>>;
         explicit constexpr complex_pair(const std::complex<T>& c1) : base(c1, std::complex<T>(0, 0)) {
-            meta::expects(c1.imag() == 0, "Expected a real number");
-            meta::ensure(this->is_real(), "Expected a real initialization");
+            meta::expects(c1.imag() == 0 || math::is_inf(c1), "Expected a real number or the point at infinity");
         }
 
         constexpr complex_pair() : base(std::complex<T>(0, 0), std::complex<T>(0, 0)) {}
-- 
2.43.0


From 9e3718797ddf09fc0248513d5d8945c049a8ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:39 +0000
Subject: [PATCH 090/109] fix: meta::data of an array is no longer ambiguous

---
 include/edsp/meta/data.hpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/include/edsp/meta/data.hpp b/include/edsp/meta/data.hpp
index decb273..cffa884 100644
--- a/include/edsp/meta/data.hpp
+++ b/include/edsp/meta/data.hpp
@@ -47,16 +47,6 @@ namespace edsp { namespace meta {
         return ptr;
     }
 
-    template <class T, std::size_t N>
-    constexpr T* data(T (&array)[N]) noexcept {
-        return array;
-    }
-
-    template <class T, std::size_t N>
-    constexpr const T* data(const T (&array)[N]) noexcept {
-        return array;
-    }
-
     template <class E>
     constexpr const E* data(const std::initializer_list<E>& il) noexcept {
         return il.begin();
-- 
2.43.0


From 975afd802d511db9eba75822641912a5a353e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:00 +0000
Subject: [PATCH 091/109] fix: meta::equal compares in the precision of its
 type

---
 include/edsp/meta/equal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/meta/equal.hpp b/include/edsp/meta/equal.hpp
index a1b333c..87408f2 100644
--- a/include/edsp/meta/equal.hpp
+++ b/include/edsp/meta/equal.hpp
@@ -33,8 +33,8 @@ namespace edsp { namespace meta {
 
         template <typename T, bool = std::is_floating_point<T>::value>
         struct _equal {
-            constexpr bool operator()(const float& lhs, const float& rhs) {
-                return std::abs(lhs - rhs) < std::numeric_limits<float>::epsilon();
+            constexpr bool operator()(const T& lhs, const T& rhs) {
+                return std::abs(lhs - rhs) < std::numeric_limits<T>::epsilon();
             }
         };
 
-- 
2.43.0


From ad064ed806b3d075250bcfe5bb9500e77e4ffe5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:59 +0000
Subject: [PATCH 092/109] fix: the entropy of a spectrum with empty bins is not
 NaN

---
 include/edsp/feature/spectral/spectral_entropy.hpp | 3 ++-
 include/edsp/feature/statistics/entropy.hpp        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_entropy.hpp b/include/edsp/feature/spectral/spectral_entropy.hpp
index 6505010..5b7b484 100644
--- a/include/edsp/feature/spectral/spectral_entropy.hpp
+++ b/include/edsp/feature/spectral/spectral_entropy.hpp
@@ -58,7 +58,8 @@ namespace edsp { namespace feature { inline namespace spectral {
         const auto sum       = std::accumulate(first, last, static_cast<input_t>(0));
         const auto predicate = [&](const input_t accumulated, const input_t current) {
             const auto normalized = current / sum;
-            return (accumulated + std::log2(normalized) * normalized);
+            // an empty bin carries no information: x log(x) tends to zero
+            return normalized == 0 ? accumulated : (accumulated + std::log2(normalized) * normalized);
         };
         const auto size = static_cast<input_t>(std::distance(first, last));
         const auto acc  = std::accumulate(first, last, static_cast<input_t>(0), predicate);
diff --git a/include/edsp/feature/statistics/entropy.hpp b/include/edsp/feature/statistics/entropy.hpp
index 92bbcb9..e0129f3 100644
--- a/include/edsp/feature/statistics/entropy.hpp
+++ b/include/edsp/feature/statistics/entropy.hpp
@@ -51,7 +51,8 @@ namespace edsp { namespace feature { inline namespace statistics {
     constexpr meta::value_type_t<ForwardIt> entropy(ForwardIt first, ForwardIt last) {
         using input_t        = meta::value_type_t<ForwardIt>;
         const auto predicate = [](const input_t accumulated, const input_t current) {
-            return (accumulated + std::log2(current) * current);
+            // an empty bin carries no information: x log(x) tends to zero
+            return current == 0 ? accumulated : (accumulated + std::log2(current) * current);
         };
         const auto size = static_cast<input_t>(std::distance(first, last));
         const auto acc  = std::accumulate(first, last, static_cast<input_t>(0), predicate);
-- 
2.43.0


From 37abef2c31ceaeb292f8b9fd162fa487f9c255b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:32 +0000
Subject: [PATCH 093/109] fix: index_of and the decoder include what they use

---
 include/edsp/algorithm/indexof.hpp                           | 1 +
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/edsp/algorithm/indexof.hpp b/include/edsp/algorithm/indexof.hpp
index 0810692..791968a 100644
--- a/include/edsp/algorithm/indexof.hpp
+++ b/include/edsp/algorithm/indexof.hpp
@@ -23,6 +23,7 @@
 #ifndef EDSP_INDEX_OF_HPP
 #define EDSP_INDEX_OF_HPP
 
+#include <algorithm>
 #include <iterator>
 
 namespace edsp { inline namespace algorithm {
diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 3befc61..84a151e 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -28,6 +28,7 @@
 #include <edsp/meta/is_signed.hpp>
 #include <edsp/meta/advance.hpp>
 #include <edsp/meta/iterator.hpp>
+#include <array>
 #include <sndfile.h>
 #include <cmath>
 #include <edsp/meta/is_null.hpp>
-- 
2.43.0


From 2f4914670803ed855983cdfb88d56eee0756d8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:57 +0000
Subject: [PATCH 094/109] fix: the default percentage of spectral_rolloff can
 be used

---
 include/edsp/feature/spectral/spectral_rolloff.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/spectral/spectral_rolloff.hpp b/include/edsp/feature/spectral/spectral_rolloff.hpp
index 57a1234..d6f9691 100644
--- a/include/edsp/feature/spectral/spectral_rolloff.hpp
+++ b/include/edsp/feature/spectral/spectral_rolloff.hpp
@@ -43,7 +43,7 @@ namespace edsp { namespace feature { inline namespace spectral {
      * @return Estimated roll-off index.
      * @see statistics::rolloff
      */
-    template <typename ForwardIt, typename Numeric>
+    template <typename ForwardIt, typename Numeric = double>
     constexpr auto spectral_rolloff(ForwardIt first, ForwardIt last, Numeric percentage = 0.95) {
         return statistics::rolloff(first, last, percentage);
     }
-- 
2.43.0


From 08fa20d60906ba7f435b0c6ae1faedc50f35388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:08 +0000
Subject: [PATCH 095/109] fix: Chebyshev shelves whose ripple is not below
 their gain

---
 include/edsp/filter/internal/chebyshev_II_designer.hpp | 4 ++--
 include/edsp/filter/internal/chebyshev_I_designer.hpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/filter/internal/chebyshev_II_designer.hpp b/include/edsp/filter/internal/chebyshev_II_designer.hpp
index b1b6dd0..206f5a3 100644
--- a/include/edsp/filter/internal/chebyshev_II_designer.hpp
+++ b/include/edsp/filter/internal/chebyshev_II_designer.hpp
@@ -73,7 +73,7 @@ namespace edsp { namespace filter {
 
                 gain_db = -gain_db;
                 if (stopband_db >= std::fabs(gain_db))
-                    stopband_db = std::fabs(gain_db);
+                    stopband_db = std::fabs(gain_db) / 2;
                 if (gain_db < 0)
                     stopband_db = -stopband_db;
 
@@ -83,7 +83,7 @@ namespace edsp { namespace filter {
                 const auto g0 = std::pow(G0, math::inv(static_cast<T>(num_poles)));
                 const auto eps =
                     (Gb != G0) ? std::sqrt((math::square(G) - math::square(Gb)) / (math::square(Gb) - math::square(G0)))
-                               : G - 1;
+                               : 1;
                 const auto exponent = std::sqrt(1 + math::inv(math::square(eps)));
                 const auto b        = std::pow(G / eps + Gb * exponent, math::inv(static_cast<T>(num_poles)));
                 const auto v      = std::log(std::pow(math::inv(eps) + exponent, math::inv(static_cast<T>(num_poles))));
diff --git a/include/edsp/filter/internal/chebyshev_I_designer.hpp b/include/edsp/filter/internal/chebyshev_I_designer.hpp
index ab4e35a..d413662 100644
--- a/include/edsp/filter/internal/chebyshev_I_designer.hpp
+++ b/include/edsp/filter/internal/chebyshev_I_designer.hpp
@@ -76,7 +76,7 @@ namespace edsp { namespace filter {
 
                 gain_db = -gain_db;
                 if (ripple_db >= std::fabs(gain_db))
-                    ripple_db = std::fabs(gain_db);
+                    ripple_db = std::fabs(gain_db) / 2;
                 if (gain_db < 0)
                     ripple_db = -ripple_db;
 
@@ -86,7 +86,7 @@ namespace edsp { namespace filter {
                 const auto g0 = std::pow(G0, math::inv(num_poles));
                 const auto eps =
                     (Gb != G0) ? std::sqrt((math::square(G) - math::square(Gb)) / (math::square(Gb) - math::square(G0)))
-                               : G - 1;
+                               : 1;
                 const auto exponent = std::sqrt(1 + math::inv(math::square(eps)));
                 const auto b        = std::pow(G / eps + Gb * exponent, math::inv(static_cast<T>(num_poles)));
                 const auto u        = std::log(b / g0);
-- 
2.43.0


From e261a4245650368cabf07dbb02f78776765d2907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:49 +0000
Subject: [PATCH 096/109] fix: a design with a pole at the origin is not
 rejected

---
 include/edsp/filter/internal/bilinear/layout_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/layout_base.hpp b/include/edsp/filter/internal/bilinear/layout_base.hpp
index 8b5f213..e4740c2 100644
--- a/include/edsp/filter/internal/bilinear/layout_base.hpp
+++ b/include/edsp/filter/internal/bilinear/layout_base.hpp
@@ -61,7 +61,7 @@ namespace edsp { namespace filter {
             if (this->first.imag() != 0) {
                 return this->second == std::conj(this->first);
             } else {
-                return this->second.imag() == 0 && this->second.real() != 0 && this->first.real() != 0;
+                return this->second.imag() == 0;
             }
         }
 
-- 
2.43.0


From 5a37187ba4501745de76933bd23011771161cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 097/109] fix: the Python resampler reserves too little for
 long inputs

---
 bindings/python/src/io.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 3645340..34b0fb1 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -67,7 +67,9 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
     }
 
     const auto size          = input.shape(0);
-    const auto expected_size = static_cast<unsigned int>(size * res.ratio());
+    const auto channels      = std::max<Py_intptr_t>(res.channels(), 1);
+    const auto frames        = static_cast<Py_intptr_t>(static_cast<double>(res.ratio()) * (size / channels));
+    const auto expected_size = frames * channels;
 
     Py_intptr_t shape[1] = {expected_size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-- 
2.43.0


From f756d5dce507045d81cce1867c4f7f47500947dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 098/109] fix: the encoder truncates the length of a block to
 int

---
 .../edsp/io/internal/encoder/libsndfile_encoder_impl.hpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index e26c412..41ff00d 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -46,7 +46,7 @@ namespace edsp { namespace io {
             using value_type            = float;
             static constexpr int FORMAT = SF_FORMAT_FLOAT;
 
-            std::ptrdiff_t write(SNDFILE* file, const float* buffer, int length) {
+            std::ptrdiff_t write(SNDFILE* file, const float* buffer, std::ptrdiff_t length) {
                 return sf_write_float(file, buffer, length);
             }
         };
@@ -56,7 +56,7 @@ namespace edsp { namespace io {
             using value_type            = double;
             static constexpr int FORMAT = SF_FORMAT_DOUBLE;
 
-            std::ptrdiff_t write(SNDFILE* file, const double* buffer, int length) {
+            std::ptrdiff_t write(SNDFILE* file, const double* buffer, std::ptrdiff_t length) {
                 return sf_write_double(file, buffer, length);
             }
         };
@@ -66,7 +66,7 @@ namespace edsp { namespace io {
             using value_type            = int;
             static constexpr int FORMAT = SF_FORMAT_PCM_32;
 
-            std::ptrdiff_t write(SNDFILE* file, const int* buffer, int length) {
+            std::ptrdiff_t write(SNDFILE* file, const int* buffer, std::ptrdiff_t length) {
                 return sf_write_int(file, buffer, length);
             }
         };
@@ -76,7 +76,7 @@ namespace edsp { namespace io {
             using value_type            = short;
             static constexpr int FORMAT = SF_FORMAT_PCM_16;
 
-            std::ptrdiff_t write(SNDFILE* file, const short* buffer, int length) {
+            std::ptrdiff_t write(SNDFILE* file, const short* buffer, std::ptrdiff_t length) {
                 return sf_write_short(file, buffer, length);
             }
         };
-- 
2.43.0


From 66adb9613addf0b13a5e0025c0838dbbece4655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 099/109] fix: linspace and logspace count their points in the
 element type

---
 include/edsp/algorithm/linspace.hpp | 4 ++--
 include/edsp/algorithm/logspace.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/algorithm/linspace.hpp b/include/edsp/algorithm/linspace.hpp
index 4f4b211..249f98b 100644
--- a/include/edsp/algorithm/linspace.hpp
+++ b/include/edsp/algorithm/linspace.hpp
@@ -38,12 +38,12 @@ namespace edsp { inline namespace algorithm {
     template <typename OutputIt, typename Numeric, typename Integer>
     constexpr void linspace(OutputIt d_first, Numeric x1, Numeric x2, Integer N) {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
-        const auto size  = static_cast<value_type>(std::trunc(N));
+        const auto size      = static_cast<std::ptrdiff_t>(std::trunc(N));
 
         const auto _x1       = static_cast<value_type>(x1);
         const auto _x2       = static_cast<value_type>(x2);
         const auto increment = size > 1 ? (_x2 - _x1) / static_cast<value_type>(size - 1) : static_cast<value_type>(0);
-        for (auto i = 0; i < size; ++i, ++d_first) {
+        for (std::ptrdiff_t i = 0; i < size; ++i, ++d_first) {
             *d_first = _x1 + static_cast<value_type>(i) * increment;
         }
     }
diff --git a/include/edsp/algorithm/logspace.hpp b/include/edsp/algorithm/logspace.hpp
index bc6e4fe..06d71b7 100644
--- a/include/edsp/algorithm/logspace.hpp
+++ b/include/edsp/algorithm/logspace.hpp
@@ -38,12 +38,12 @@ namespace edsp { inline namespace algorithm {
     template <typename OutputIt, typename Numeric, typename Integer>
     constexpr void logspace(OutputIt d_first, Numeric x1, Numeric x2, Integer N) {
         using value_type = typename std::iterator_traits<OutputIt>::value_type;
-        const auto size  = static_cast<value_type>(std::trunc(N));
+        const auto size      = static_cast<std::ptrdiff_t>(std::trunc(N));
 
         const auto _x1       = static_cast<value_type>(x1);
         const auto _x2       = static_cast<value_type>(x2);
         const auto increment = size > 1 ? (_x2 - _x1) / static_cast<value_type>(size - 1) : static_cast<value_type>(0);
-        for (auto i = 0; i < size; ++i, ++d_first) {
+        for (std::ptrdiff_t i = 0; i < size; ++i, ++d_first) {
             *d_first = std::pow(static_cast<value_type>(10), _x1 + static_cast<value_type>(i) * increment);
         }
     }
-- 
2.43.0


From 4ea63498fd405b4107282890c0a480ea3d2d3df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 100/109] fix: the triangular window steps in the element type

---
 include/edsp/windowing/triangular.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/edsp/windowing/triangular.hpp b/include/edsp/windowing/triangular.hpp
index 73d0f79..458c54b 100644
--- a/include/edsp/windowing/triangular.hpp
+++ b/include/edsp/windowing/triangular.hpp
@@ -46,10 +46,8 @@ namespace edsp { namespace windowing {
         using size_type      = meta::diff_type_t<OutputIt>;
         const auto size      = static_cast<size_type>(std::distance(first, last));
         const value_type rem = size + size % 2;
-        value_type initial   = -(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
-            *first = 1 - std::abs(initial / rem);
-            initial += 2;
+            *first = 1 - std::abs(static_cast<value_type>(2 * i - (size - 1)) / rem);
         }
     }
 
-- 
2.43.0


From 727c164e7317f21fdbbac409ad285e4f3756227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 101/109] fix: azcr counts the crossings in the element type

---
 include/edsp/feature/temporal/azcr.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/feature/temporal/azcr.hpp b/include/edsp/feature/temporal/azcr.hpp
index 0d605f5..372c456 100644
--- a/include/edsp/feature/temporal/azcr.hpp
+++ b/include/edsp/feature/temporal/azcr.hpp
@@ -52,11 +52,11 @@ namespace edsp { namespace feature { inline namespace temporal {
     constexpr auto azcr(InputIt first, InputIt last) {
         using value_type = typename std::iterator_traits<InputIt>::value_type;
         const auto N     = std::distance(first, last);
-        auto accumulated = static_cast<value_type>(0);
+        auto accumulated = static_cast<std::ptrdiff_t>(0);
         for (first = std::next(first); first != last; ++first) {
-            accumulated += static_cast<value_type>(math::sign(*first) != math::sign(*std::prev(first)));
+            accumulated += static_cast<std::ptrdiff_t>(math::sign(*first) != math::sign(*std::prev(first)));
         }
-        return accumulated / static_cast<value_type>(N - 1);
+        return static_cast<value_type>(accumulated) / static_cast<value_type>(N - 1);
     }
 
 }}} // namespace edsp::feature::temporal
-- 
2.43.0


From 278ab6835cbd784e56b8787a1ddc5e6ab6f127f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:05 +0000
Subject: [PATCH 102/109] fix: centroid, spread and decrease count the bins in
 the element type

---
 include/edsp/feature/statistics/centroid.hpp | 4 ++--
 include/edsp/feature/statistics/decrease.hpp | 4 ++--
 include/edsp/feature/statistics/spread.hpp   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/edsp/feature/statistics/centroid.hpp b/include/edsp/feature/statistics/centroid.hpp
index 593f9ba..d4e35db 100644
--- a/include/edsp/feature/statistics/centroid.hpp
+++ b/include/edsp/feature/statistics/centroid.hpp
@@ -44,8 +44,8 @@ namespace edsp { namespace feature { inline namespace statistics {
         using input_t       = meta::value_type_t<ForwardIt>;
         auto weighted_sum   = static_cast<input_t>(0);
         auto unweighted_sum = static_cast<input_t>(0);
-        for (input_t i = 0; first != last; ++first, ++i) {
-            weighted_sum += i * (*first);
+        for (std::ptrdiff_t i = 0; first != last; ++first, ++i) {
+            weighted_sum += static_cast<input_t>(i) * (*first);
             unweighted_sum += *first;
         }
         return weighted_sum / unweighted_sum;
diff --git a/include/edsp/feature/statistics/decrease.hpp b/include/edsp/feature/statistics/decrease.hpp
index 8f28593..9a1d6b4 100644
--- a/include/edsp/feature/statistics/decrease.hpp
+++ b/include/edsp/feature/statistics/decrease.hpp
@@ -53,8 +53,8 @@ namespace edsp { namespace feature { inline namespace statistics {
         auto unweighted_sum = static_cast<value_t>(0);
         const value_t initial = *first;
         ++first;
-        for (value_t i = 1; first != last; ++first, ++i) {
-            weighted_sum += ((*first) - initial) / i;
+        for (std::ptrdiff_t i = 1; first != last; ++first, ++i) {
+            weighted_sum += ((*first) - initial) / static_cast<value_t>(i);
             unweighted_sum += *first;
         }
         return weighted_sum / unweighted_sum;
diff --git a/include/edsp/feature/statistics/spread.hpp b/include/edsp/feature/statistics/spread.hpp
index 8dd6546..0d9d06b 100644
--- a/include/edsp/feature/statistics/spread.hpp
+++ b/include/edsp/feature/statistics/spread.hpp
@@ -55,8 +55,8 @@ namespace edsp { namespace feature { inline namespace statistics {
         const auto centroid = statistics::centroid(first1, last1);
         auto weighted_sum   = static_cast<value_type>(0);
         auto unweighted_sum = static_cast<value_type>(0);
-        for (value_type i = 0; first1 != last1; ++first1, ++i) {
-            const auto diff = i - centroid;
+        for (std::ptrdiff_t i = 0; first1 != last1; ++first1, ++i) {
+            const auto diff = static_cast<value_type>(i) - centroid;
             weighted_sum += (diff * diff) * (*first1);
             unweighted_sum += *first1;
         }
-- 
2.43.0


From d8d899a8e8fba94d9266e34534f78fb1979e776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:31 +0000
Subject: [PATCH 103/109] fix: the planner of the transform library is entered
 by several threads at once

---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 40 ++++++++++++++++---
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index 7a6c344..46c1b0f 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -32,9 +32,16 @@
 #include <complex>
 #include <fftw3.h>
 #include <algorithm>
+#include <mutex>
 
 namespace edsp { inline namespace spectral {
     namespace internal {
+        // the planner keeps a global state: only the execution of a plan may run in several threads at the same time
+        inline std::mutex& fftw_planner() {
+            static std::mutex mutex;
+            return mutex;
+        }
+
         template <typename T>
         inline T* fftw_cast(const T* p) noexcept {
             return const_cast<T*>(p);
@@ -66,19 +73,23 @@ namespace edsp { inline namespace spectral {
 
         ~fftw_impl() {
             if (!meta::is_null(plan_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 fftwf_destroy_plan(plan_);
             }
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (outdated(internal::fftw_kind::complex_dft, src, dst))
+            if (outdated(internal::fftw_kind::complex_dft, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+            }
             fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
             if (outdated(internal::fftw_kind::complex_idft, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -87,6 +98,7 @@ namespace edsp { inline namespace spectral {
 
         inline void dft(const value_type* src, complex_type* dst) {
             if (outdated(internal::fftw_kind::real_dft, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -95,6 +107,7 @@ namespace edsp { inline namespace spectral {
 
         inline void idft(const complex_type* src, value_type* dst) {
             if (outdated(internal::fftw_kind::real_idft, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -103,6 +116,7 @@ namespace edsp { inline namespace spectral {
 
         inline void dht(const value_type* src, value_type* dst) {
             if (outdated(internal::fftw_kind::dht, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -111,6 +125,7 @@ namespace edsp { inline namespace spectral {
 
         inline void dct(const value_type* src, value_type* dst) {
             if (outdated(internal::fftw_kind::dct, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -119,6 +134,7 @@ namespace edsp { inline namespace spectral {
 
         inline void idct(const value_type* src, value_type* dst) {
             if (outdated(internal::fftw_kind::idct, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -157,6 +173,7 @@ namespace edsp { inline namespace spectral {
                 return false;
             }
             if (!meta::is_null(plan_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 fftwf_destroy_plan(plan_);
                 plan_ = nullptr;
             }
@@ -187,40 +204,50 @@ namespace edsp { inline namespace spectral {
 
         ~fftw_impl() {
             if (!meta::is_null(plan_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 fftw_destroy_plan(plan_);
             }
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (outdated(internal::fftw_kind::complex_dft, src, dst))
+            if (outdated(internal::fftw_kind::complex_dft, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+            }
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (outdated(internal::fftw_kind::complex_idft, src, dst))
+            if (outdated(internal::fftw_kind::complex_idft, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+            }
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (outdated(internal::fftw_kind::real_dft, src, dst))
+            if (outdated(internal::fftw_kind::real_dft, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+            }
             fftw_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (outdated(internal::fftw_kind::real_idft, src, dst))
+            if (outdated(internal::fftw_kind::real_idft, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
+            }
             fftw_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
             if (outdated(internal::fftw_kind::dht, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -229,6 +256,7 @@ namespace edsp { inline namespace spectral {
 
         inline void dct(const value_type* src, value_type* dst) {
             if (outdated(internal::fftw_kind::dct, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -237,6 +265,7 @@ namespace edsp { inline namespace spectral {
 
         inline void idct(const value_type* src, value_type* dst) {
             if (outdated(internal::fftw_kind::idct, src, dst)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -275,6 +304,7 @@ namespace edsp { inline namespace spectral {
                 return false;
             }
             if (!meta::is_null(plan_)) {
+                std::lock_guard<std::mutex> lock(internal::fftw_planner());
                 fftw_destroy_plan(plan_);
                 plan_ = nullptr;
             }
-- 
2.43.0


From 468be8a992e54b6017f9670063a96c4041d0e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 104/109] fix: the lag of a correlation is counted in the
 element type

---
 include/edsp/spectral/correlation.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/spectral/correlation.hpp b/include/edsp/spectral/correlation.hpp
index e010745..1dddbbc 100644
--- a/include/edsp/spectral/correlation.hpp
+++ b/include/edsp/spectral/correlation.hpp
@@ -76,10 +76,10 @@ namespace edsp { inline namespace spectral {
 
         ifft_.idft(meta::data(fft_data_), meta::data(temp_output));
         ifft_.idft_scale(meta::data(temp_output));
-        auto lag = static_cast<value_type>(0);
+        auto lag = decltype(size)(0);
         std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
                        [scale, size, &lag](value_type val) {
-                           const auto overlap = static_cast<value_type>(size) - lag++;
+                           const auto overlap = static_cast<value_type>(size - lag++);
                            switch (scale) {
                                case CorrelationScale::Biased:
                                    return val / static_cast<value_type>(size);
@@ -138,10 +138,10 @@ namespace edsp { inline namespace spectral {
 
         ifft_.idft(meta::data(fft_data1), meta::data(temp_output));
         ifft_.idft_scale(meta::data(temp_output));
-        auto lag = static_cast<value_type>(0);
+        auto lag = decltype(size)(0);
         std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
                        [scale, size, &lag](value_type val) {
-                           const auto overlap = static_cast<value_type>(size) - lag++;
+                           const auto overlap = static_cast<value_type>(size - lag++);
                            switch (scale) {
                                case CorrelationScale::Biased:
                                    return val / static_cast<value_type>(size);
-- 
2.43.0


From e962a06eb56cbd910eab1f99ff2bdda9db44b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 105/109] fix: arrays of a wider floating type are refused by
 the Python io classes

---
 bindings/python/include/boost_numpy_dependencies.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/python/include/boost_numpy_dependencies.hpp b/bindings/python/include/boost_numpy_dependencies.hpp
index e0b09f2..2ce0fa4 100644
--- a/bindings/python/include/boost_numpy_dependencies.hpp
+++ b/bindings/python/include/boost_numpy_dependencies.hpp
@@ -46,7 +46,9 @@ namespace bn = boost::python::numpy;
  */
 template <typename T>
 inline bn::ndarray contiguous(const bn::ndarray& input) {
-    return bn::from_object(input, bn::dtype::get_builtin<T>(), 1, 1, bn::ndarray::CARRAY_RO);
+    const auto type      = bn::dtype::get_builtin<T>();
+    const auto converted = input.attr("astype")(type, "C", "same_kind", false, false);
+    return bn::from_object(converted, type, 1, 1, bn::ndarray::CARRAY_RO);
 }
 
 #endif //EDSP_BOOST_NUMPY_DEPENDENCIES_HPP
-- 
2.43.0


From d72d3f6f5e7a7637a54d2e23d3b4aff0081165c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 106/109] fix: None as an environment name crashes the Python
 interpreter

---
 bindings/python/src/core.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/bindings/python/src/core.cpp b/bindings/python/src/core.cpp
index 1e24e99..656a484 100644
--- a/bindings/python/src/core.cpp
+++ b/bindings/python/src/core.cpp
@@ -23,13 +23,22 @@
 #include "core.hpp"
 #include "boost_numpy_dependencies.hpp"
 #include <cedsp/core.h>
+#include <string>
 
-bp::tuple get_environment_python(const char* tag) {
+bp::tuple get_environment_python(const std::string& tag) {
     int error = 0;
-    const char* data = get_environment(tag, &error);
+    const char* data = get_environment(tag.c_str(), &error);
     return bp::make_tuple(std::string(data != nullptr ? data : ""), error);
 }
 
+auto set_environment_python(const std::string& tag, const std::string& value) {
+    return set_environment(tag.c_str(), value.c_str());
+}
+
+auto exist_environment_python(const std::string& tag) {
+    return exist_environment(tag.c_str());
+}
+
 void add_core_package() {
     std::string nested_name = bp::extract<std::string>(bp::scope().attr("__name__") + ".core");
     bp::object nested_module(bp::handle<>(bp::borrowed(PyImport_AddModule(nested_name.c_str()))));
@@ -46,6 +55,6 @@ void add_core_package() {
     bp::def("get_codec_library", get_codec_library);
     bp::def("get_resample_library", get_resample_library);
     bp::def("get_environment", get_environment_python);
-    bp::def("set_environment", set_environment);
-    bp::def("exist_environment", exist_environment);
+    bp::def("set_environment", set_environment_python);
+    bp::def("exist_environment", exist_environment_python);
 }
\ No newline at end of file
-- 
2.43.0


From 02c739297dd4182abce3dc09f84558302a044abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 107/109] fix: a moving filter without a window crashes the
 Python interpreter

---
 bindings/python/src/filter.cpp | 61 ++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 18 deletions(-)

diff --git a/bindings/python/src/filter.cpp b/bindings/python/src/filter.cpp
index 6a4789a..0e97e29 100644
--- a/bindings/python/src/filter.cpp
+++ b/bindings/python/src/filter.cpp
@@ -21,6 +21,31 @@
 #include "boost_numpy_dependencies.hpp"
 #include <cedsp/types.h>
 #include <edsp/filter.hpp>
+#include <limits>
+
+/**
+ * @brief A moving filter whose window has at least one sample.
+ */
+template <typename Filter>
+struct moving_filter : Filter {
+    explicit moving_filter(real_t size) : Filter(checked(size)) {}
+
+    void resize(std::size_t size) {
+        Filter::resize(checked(static_cast<real_t>(size)));
+    }
+
+private:
+    static std::size_t checked(real_t size) {
+        if (!(size >= 1 && size < static_cast<real_t>(std::numeric_limits<std::ptrdiff_t>::max()))) {
+            throw std::invalid_argument("Expected a window of at least one sample");
+        }
+        return static_cast<std::size_t>(size);
+    }
+};
+
+using moving_median  = moving_filter<edsp::filter::moving_median<real_t>>;
+using moving_average = moving_filter<edsp::filter::moving_average<real_t>>;
+using moving_rms     = moving_filter<edsp::filter::moving_rms<real_t>>;
 
 template <typename Class>
 auto wrapper_filter(Class& obj, bn::ndarray& input) {
@@ -37,15 +62,15 @@ auto wrapper_filter(Class& obj, bn::ndarray& input) {
     return result;
 }
 
-auto wrapper_median_filter(edsp::filter::moving_median<real_t>& obj, bn::ndarray& input) {
+auto wrapper_median_filter(moving_median& obj, bn::ndarray& input) {
     return wrapper_filter(obj, input);
 }
 
-auto wrapper_average_filter(edsp::filter::moving_average<real_t>& obj, bn::ndarray& input) {
+auto wrapper_average_filter(moving_average& obj, bn::ndarray& input) {
     return wrapper_filter(obj, input);
 }
 
-auto wrapper_rms_filter(edsp::filter::moving_rms<real_t>& obj, bn::ndarray& input) {
+auto wrapper_rms_filter(moving_rms& obj, bn::ndarray& input) {
     return wrapper_filter(obj, input);
 }
 
@@ -55,24 +80,24 @@ void add_filter_package() {
     bp::scope().attr("filter") = nested_module;
     bp::scope parent           = nested_module;
 
-    bp::class_<edsp::filter::moving_median<real_t>, boost::noncopyable>("MovingMedianFilter", bp::init<real_t>())
-        .def("size", &edsp::filter::moving_median<real_t>::size)
-        .def("resize", &edsp::filter::moving_median<real_t>::resize)
-        .def("reset", &edsp::filter::moving_median<real_t>::reset)
-        .def("__call__", &edsp::filter::moving_median<real_t>::operator())
+    bp::class_<moving_median, boost::noncopyable>("MovingMedianFilter", bp::init<real_t>())
+        .def("size", &moving_median::size)
+        .def("resize", &moving_median::resize)
+        .def("reset", &moving_median::reset)
+        .def("__call__", &moving_median::operator())
         .def("filter", wrapper_median_filter);
 
-    bp::class_<edsp::filter::moving_average<real_t>, boost::noncopyable>("MovingAverageFilter", bp::init<real_t>())
-        .def("size", &edsp::filter::moving_average<real_t>::size)
-        .def("resize", &edsp::filter::moving_average<real_t>::resize)
-        .def("reset", &edsp::filter::moving_average<real_t>::reset)
-        .def("__call__", &edsp::filter::moving_average<real_t>::operator())
+    bp::class_<moving_average, boost::noncopyable>("MovingAverageFilter", bp::init<real_t>())
+        .def("size", &moving_average::size)
+        .def("resize", &moving_average::resize)
+        .def("reset", &moving_average::reset)
+        .def("__call__", &moving_average::operator())
         .def("filter", wrapper_average_filter);
 
-    bp::class_<edsp::filter::moving_rms<real_t>, boost::noncopyable>("MovingRmsFilter", bp::init<real_t>())
-        .def("size", &edsp::filter::moving_rms<real_t>::size)
-        .def("resize", &edsp::filter::moving_rms<real_t>::resize)
-        .def("reset", &edsp::filter::moving_rms<real_t>::reset)
-        .def("__call__", &edsp::filter::moving_rms<real_t>::operator())
+    bp::class_<moving_rms, boost::noncopyable>("MovingRmsFilter", bp::init<real_t>())
+        .def("size", &moving_rms::size)
+        .def("resize", &moving_rms::resize)
+        .def("reset", &moving_rms::reset)
+        .def("__call__", &moving_rms::operator())
         .def("filter", wrapper_rms_filter);
 }
\ No newline at end of file
-- 
2.43.0


From 1ee7a4a6eb8314dafdc79b00ce8968a9c5e8b01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 108/109] fix: more channels than an int can count abort the
 resampler

---
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 095c24a..540773e 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -23,6 +23,7 @@
 #ifndef EDSP_LIBSAMPLERATE_IMPL_HPP
 #define EDSP_LIBSAMPLERATE_IMPL_HPP
 
+#include <limits>
 #include <edsp/core/logger.hpp>
 #include <samplerate.h>
 
@@ -41,8 +42,8 @@ namespace edsp { namespace io {
             channels_(channels),
             quality_(quality),
             ratio_(factor) {
-            // the library aborts instead of failing when it is asked for less than one channel
-            if (channels > 0) {
+            // the library aborts instead of failing when it is asked for less than one channel, and counts them in an int
+            if (channels > 0 && channels <= std::numeric_limits<int>::max()) {
                 state_ = src_new(quality, static_cast<int>(channels), &error_);
             } else {
                 error_ = 11; // SRC_ERR_BAD_CHANNEL_COUNT, not exported
-- 
2.43.0


From 0a3947342f7befb54b3919a8788b4749ca08ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:39 +0000
Subject: [PATCH 109/109] fix: a rate or channel count beyond an int is written
 as another one

---
 .../io/internal/encoder/libsndfile_encoder_impl.hpp    | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index 41ff00d..9eab4f0 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -32,6 +32,7 @@
 
 #include <sndfile.h>
 #include <cmath>
+#include <limits>
 
 namespace edsp { namespace io {
 
@@ -92,8 +93,8 @@ namespace edsp { namespace io {
         using value_type = T;
 
         libsndfile_encoder(size_t sample_rate, size_t channels) {
-            info_.samplerate = static_cast<int>(sample_rate);
-            info_.channels   = static_cast<int>(channels);
+            info_.samplerate = narrow(sample_rate);
+            info_.channels   = narrow(channels);
             info_.format     = SF_FORMAT_WAV | internal::writer<T>::FORMAT;
         }
 
@@ -152,6 +153,11 @@ namespace edsp { namespace io {
     private:
         using underlying_t = typename internal::writer<T>::value_type;
 
+        /* The library counts in an int, and refuses to open a file with a negative one */
+        static int narrow(size_type value) noexcept {
+            return value <= static_cast<size_type>(std::numeric_limits<int>::max()) ? static_cast<int>(value) : -1;
+        }
+
         /* File descriptor */
         SNDFILE* file_{nullptr};
 
-- 
2.43.0

