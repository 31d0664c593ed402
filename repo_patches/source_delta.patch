From c9dd3cde3b8169aeb6aa91be48b0e405773ba496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:52 +0000
Subject: [PATCH 01/33] fix: do not truncate the baseline offset to int in
 ComputeBaseline

With column-major ordering, the number of preceding baselines was cast to int,
so that pairs with antenna2 >= 65536 (index > INT_MAX) were decoded wrongly.
---
 common/baseline_indices.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/baseline_indices.h b/common/baseline_indices.h
index dd94a85..3f251ce 100644
--- a/common/baseline_indices.h
+++ b/common/baseline_indices.h
@@ -106,7 +106,7 @@ inline std::pair<size_t, size_t> ComputeBaseline(size_t baseline_index,
   } else {
     const size_t antenna2 = (1 + std::sqrt(1 + 8 * baseline_index)) / 2;
     // n is the number of baselines (a,b) with b < antenna2
-    const size_t n = int((antenna2 * (antenna2 - 1)) / 2);
+    const size_t n = (antenna2 * (antenna2 - 1)) / 2;
     const size_t antenna1 = baseline_index - n;
     return {antenna1, antenna2 - 1};
   }
-- 
2.43.0


From 3e464ab2f68c08068f49c2cf2b6a75d03e2a423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:28 +0000
Subject: [PATCH 02/33] fix: let a range that ends at the largest integer
 terminate in expandRangeString

---
 common/StringTools.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/StringTools.cc b/common/StringTools.cc
index 6628312..a1d7921 100644
--- a/common/StringTools.cc
+++ b/common/StringTools.cc
@@ -321,7 +321,8 @@ std::string expandRangeString(const std::string& strng) {
       }
       int lennum = endnum - stnum - 1;
       if (lennum > 0) {
-        int num = strToInt(str.substr(stnum + 1, lennum));
+        // Use a wider type, such that the loops below can step past INT_MAX.
+        long num = strToInt(str.substr(stnum + 1, lennum));
         // Found number, now find possible prefix.
         // We could say that the prefix has to be alphanumeric, but more
         // general is to accept all characters except ([,*; blank and tab.
-- 
2.43.0


From 9884ba8ae42dde62dcfcde8b3387581c94464ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:39 +0000
Subject: [PATCH 03/33] fix: print the Faraday rotation calibration mode by its
 valid setting name

---
 base/CalType.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/CalType.cc b/base/CalType.cc
index 46694f9..0cc5a24 100644
--- a/base/CalType.cc
+++ b/base/CalType.cc
@@ -78,7 +78,7 @@ std::string ToString(CalType caltype) {
     case CalType::kRotationAndDiagonal:
       return "rotation+diagonal";
     case CalType::kFaradayRotation:
-      return "faraday";
+      return "faradayrotation";
     case CalType::kLeakage:
       return "leakage";
     case CalType::kLeakageAmplitude:
-- 
2.43.0


From 715e04e4984dff06fe115c8f11a7d1cbd450305f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:39 +0000
Subject: [PATCH 04/33] fix: initialise the position angle convention of a
 Gaussian source without Stokes

---
 base/GaussianSource.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/GaussianSource.cc b/base/GaussianSource.cc
index ec76e49..7a0b736 100644
--- a/base/GaussianSource.cc
+++ b/base/GaussianSource.cc
@@ -14,6 +14,7 @@ namespace base {
 GaussianSource::GaussianSource(const Direction &direction)
     : PointSource(direction),
       itsPositionAngle(0.0),
+      itsPositionAngleIsAbsolute(true),
       itsMajorAxis(0.0),
       itsMinorAxis(0.0) {}
 
-- 
2.43.0


From 03186907dcafcaf91bc85a91aaccfd5522d50f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:01 +0000
Subject: [PATCH 05/33] fix: return an unsigned value from
 ParameterValue::getUint32

---
 common/ParameterValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterValue.h b/common/ParameterValue.h
index 6c37057..97e9f47 100644
--- a/common/ParameterValue.h
+++ b/common/ParameterValue.h
@@ -56,7 +56,7 @@ class ParameterValue {
   int16_t getInt16() const { return strToInt16(itsValue); }
   uint16_t getUint16() const { return strToUint16(itsValue); }
   int32_t getInt32() const { return strToInt32(itsValue); }
-  int32_t getUint32() const { return strToUint32(itsValue); }
+  uint32_t getUint32() const { return strToUint32(itsValue); }
   int64_t getInt64() const { return strToInt64(itsValue); }
   uint64_t getUint64() const { return strToUint64(itsValue); }
   float getFloat() const { return strToFloat(itsValue); }
-- 
2.43.0


From bedd301e275066ce79a2380ba4150638342b4af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:01 +0000
Subject: [PATCH 06/33] fix: do not overflow the unit buffer when parsing a
 time value

---
 common/ParameterValue.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/ParameterValue.cc b/common/ParameterValue.cc
index 4839575..8d0cfa7 100644
--- a/common/ParameterValue.cc
+++ b/common/ParameterValue.cc
@@ -303,7 +303,7 @@ time_t ParameterValue::StringToTime_t(const std::string& aString) {
   time_t theTime;
   char unit[1024];
   unit[0] = '\0';
-  if (sscanf(aString.c_str(), "%ld%s", &theTime, unit) < 1) {
+  if (sscanf(aString.c_str(), "%ld%1023s", &theTime, unit) < 1) {
     throw ParException(aString + " is not a time value");
   }
   switch (unit[0]) {
-- 
2.43.0


From 6102202834abce96123c9b40ff08facfe7c61fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:01 +0000
Subject: [PATCH 07/33] fix: track keys asked for with a different case in a
 case-insensitive parset

---
 common/ParameterSetImpl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/ParameterSetImpl.cc b/common/ParameterSetImpl.cc
index 44ddfd9..d2b6bd8 100644
--- a/common/ParameterSetImpl.cc
+++ b/common/ParameterSetImpl.cc
@@ -327,7 +327,8 @@ ParameterSetImpl::const_iterator ParameterSetImpl::findKV(
       throw APSException("Key " + aKey + " unknown");
     }
   } else {
-    itsAskedParms.insert(aKey);
+    // Use the stored key, which may differ in case from the requested key.
+    itsAskedParms.insert(iter->first);
   }
 
   return (iter);
-- 
2.43.0


From a8fa62ac022bca412c2f5e9d865ccfc517d233c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 08/33] fix: do not include the cell behind the end in
 Axis::subset

---
 parmdb/Axis.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/parmdb/Axis.cc b/parmdb/Axis.cc
index 24c81ae..2170c67 100644
--- a/parmdb/Axis.cc
+++ b/parmdb/Axis.cc
@@ -338,10 +338,15 @@ Axis::ShPtr Axis::subset(double start, double end, size_t& index) const {
   if (end < rng.second) {
     std::pair<size_t, bool> res = find(end, false);
     einx = res.first;
-    if (einx == 0 && !res.second) {
-      // Entire interval before the range, so make sinx>einx to return
-      // a default axis.
-      sinx = 1;
+    if (!res.second) {
+      if (einx == 0) {
+        // Entire interval before the range, so make sinx>einx to return
+        // a default axis.
+        sinx = 1;
+      } else {
+        // The end is in a hole, so the cell found starts behind the interval.
+        --einx;
+      }
     }
   }
 
-- 
2.43.0


From 1c7ad30583af22e694f0b3c899fea9950f4a1ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 09/33] fix: size the y axis buffers in Grid::toDomains by the
 number of y cells

---
 parmdb/Grid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parmdb/Grid.cc b/parmdb/Grid.cc
index b79a7ed..2b7e43d 100644
--- a/parmdb/Grid.cc
+++ b/parmdb/Grid.cc
@@ -240,7 +240,7 @@ void Grid::toDomains(std::vector<Box>& domains) const {
   unsigned int nry = ny();
   // Prefetch the lower and upper values for both axes.
   std::vector<double> sx(nrx), ex(nrx);
-  std::vector<double> sy(nrx), ey(nrx);
+  std::vector<double> sy(nry), ey(nry);
   for (unsigned int i = 0; i < nrx; ++i) {
     sx[i] = xaxis.lower(i);
     ex[i] = xaxis.upper(i);
-- 
2.43.0


From c5000c4d9cf9b5faf719273eed62cbe5aa0c5862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 10/33] fix: clear spectral terms of the previous component in
 ComponentInfo

---
 base/ComponentInfo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/ComponentInfo.cc b/base/ComponentInfo.cc
index 138fbcb..126fbde 100644
--- a/base/ComponentInfo.cc
+++ b/base/ComponentInfo.cc
@@ -41,6 +41,8 @@ void ComponentInfo::update(const PointSource& component) {
   for (size_t index = 0; index < spec_size; index++) {
     spectrum_[index] = spec[index];
   }
+  // Do not keep terms of a previously inspected component.
+  std::fill(spectrum_.begin() + spec_size, spectrum_.end(), 0.0);
   f0_ = component.referenceFreq();
 }
 
-- 
2.43.0


From 8d5cdce4e5b7b8bc79f713d8944b5c0cd062fe0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:11 +0000
Subject: [PATCH 11/33] fix: use the documented leading dimension of b in
 NormalEquationsSolver

---
 ddecal/linear_solvers/NormalEquationsSolver.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ddecal/linear_solvers/NormalEquationsSolver.h b/ddecal/linear_solvers/NormalEquationsSolver.h
index c863d53..987ccc5 100644
--- a/ddecal/linear_solvers/NormalEquationsSolver.h
+++ b/ddecal/linear_solvers/NormalEquationsSolver.h
@@ -31,6 +31,7 @@ class NormalEquationsSolver final : public LLSSolver {
    * columnwise (N, NRHS)
    */
   bool Solve(std::complex<float>* a, std::complex<float>* b) override {
+    const int leading_dimension = std::max(m_, n_);
     // compute a^dagger a
     for (int n = 0; n < n_; ++n) {
       for (int np = n; np < n_; ++np) {  // fill upper triangle only
@@ -44,7 +45,8 @@ class NormalEquationsSolver final : public LLSSolver {
       for (int n = 0; n < n_; ++n) {
         adaggerb_[n + p * n_] = std::complex<float>(0.0, 0.0);
         for (int m = 0; m < m_; ++m) {
-          adaggerb_[n + p * n_] += std::conj(a[m + n * m_]) * b[m + p * m_];
+          adaggerb_[n + p * n_] +=
+              std::conj(a[m + n * m_]) * b[m + p * leading_dimension];
         }
       }
     }
@@ -57,7 +59,9 @@ class NormalEquationsSolver final : public LLSSolver {
     cposv_(&uplo, &n_, &nrhs_, adaggera_.data(), &n_, adaggerb_.data(), &ldb,
            &info);
 
-    std::copy_n(adaggerb_.data(), n_ * nrhs_, b);
+    for (int p = 0; p < nrhs_; ++p) {
+      std::copy_n(adaggerb_.data() + p * n_, n_, b + p * leading_dimension);
+    }
 
     // Check for full rank
     return info == 0;
-- 
2.43.0


From c2dd64af023147415641673036a0d53d0df1a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:08 +0000
Subject: [PATCH 12/33] fix: do not use the incoming offset in
 FitTEC2ModelParameters

---
 base/PhaseFitter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/PhaseFitter.cc b/base/PhaseFitter.cc
index 6b1b9ef..453b14c 100644
--- a/base/PhaseFitter.cc
+++ b/base/PhaseFitter.cc
@@ -109,6 +109,7 @@ void PhaseFitter::fillDataWithTEC1Model(double alpha) {
 
 void PhaseFitter::FitTEC2ModelParameters(double& alpha, double& beta) const {
   double lowerAlpha = -40000.0e6, upperAlpha = 40000.0e6;
+  beta = 0.0;
   bruteForceSearchTEC2Model(lowerAlpha, upperAlpha, beta);
   alpha = (lowerAlpha + upperAlpha) * 0.5;
   // beta = fitBeta(alpha, beta);
-- 
2.43.0


From ee262f1cec36e8b91a4e6c5caf97d19fda540723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:25 +0000
Subject: [PATCH 13/33] fix: update the total bandwidth when selecting channels

---
 base/DPInfo.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index 0163300..ddc20f1 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -401,6 +401,8 @@ void DPInfo::SelectChannels(unsigned int start_channel,
   // still update the correct channel(s) in the original input MS.
   start_channel_ += start_channel;
   n_channels_ = n_channels;
+  total_bandwidth_ = std::accumulate(effective_bandwidth_.front().begin(),
+                                     effective_bandwidth_.front().end(), 0.0);
 }
 
 void DPInfo::SelectBaselines(const std::vector<unsigned int>& baselines) {
-- 
2.43.0


From 1a2559e614b6e6a7722cbfb327cea01958f9df0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:35 +0000
Subject: [PATCH 14/33] fix: recalculate baseline lengths and autocorrelations
 after setting antennas

---
 base/DPInfo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index ddc20f1..ab34c85 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -266,6 +266,9 @@ void DPInfo::setAntennas(const std::vector<std::string>& antNames,
   antenna_positions_ = antPos;
   antenna1_ = ant1;
   antenna2_ = ant2;
+  // Clear; they'll be recalculated if needed.
+  baseline_lengths_.clear();
+  auto_correlation_indices_.clear();
   // Set which antennae are used.
   setAntUsed();
 }
-- 
2.43.0


From dec4b57e3c178fad4def4e8870dd8e7a0b0bf021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:41 +0000
Subject: [PATCH 15/33] fix: give rows of a BdaBuffer without fields distinct
 offsets

---
 base/BdaBuffer.cc | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/base/BdaBuffer.cc b/base/BdaBuffer.cc
index 26c2ecf..b1ef1f4 100644
--- a/base/BdaBuffer.cc
+++ b/base/BdaBuffer.cc
@@ -114,10 +114,13 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
   if (remaining_capacity_ < n_elements) {
     return false;
   }
+  // All data buffers, flags and weights hold the elements of all earlier rows.
+  // The offset may not depend on which of them exist when adding the row, since
+  // data buffers can also be added after adding rows.
+  const std::size_t offset = GetNumberOfElements();
   remaining_capacity_ -= n_elements;
-  std::size_t offset = 0;
   for (auto data_it = data_.begin(); data_it != data_.end(); ++data_it) {
-    offset = data_it->second.size();
+    assert(offset == data_it->second.size());
     aocommon::UVector<std::complex<float>>& data_vector = data_it->second;
     if (data_it->first == "" && data) {
       data_vector.insert(data_vector.end(), data, data + n_elements);
@@ -126,11 +129,7 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
     }
   }
   if (flags_.capacity() > 0) {
-    if (offset == 0) {
-      offset = flags_.size();
-    } else {
-      assert(offset == flags_.size());
-    }
+    assert(offset == flags_.size());
     if (flags) {
       flags_.insert(flags_.end(), flags, flags + n_elements);
     } else {
@@ -138,11 +137,7 @@ bool BdaBuffer::AddRow(double time, double interval, double exposure,
     }
   }
   if (weights_.capacity() > 0) {
-    if (offset == 0) {
-      offset = weights_.size();
-    } else {
-      assert(offset == weights_.size());
-    }
+    assert(offset == weights_.size());
     if (weights) {
       weights_.insert(weights_.end(), weights, weights + n_elements);
     } else {
-- 
2.43.0


From 0fe4626e5e332888a9176d1832f224f3b289629f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:41 +0000
Subject: [PATCH 16/33] fix: keep the data when a DPBuffer moves extra data
 onto itself

---
 base/DPBuffer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/DPBuffer.cc b/base/DPBuffer.cc
index 7bbebda..aee7f9d 100644
--- a/base/DPBuffer.cc
+++ b/base/DPBuffer.cc
@@ -143,6 +143,8 @@ void DPBuffer::MoveData(DPBuffer& source, const std::string& source_name,
   assert(source.HasData(source_name));
   assert(!target_name.empty());
 
+  if (&source == this && source_name == target_name) return;
+
   if (source_name.empty()) {
     extra_data_[target_name] = std::move(source.data_);
   } else {
-- 
2.43.0


From 63be78b626103319e0b3a86bcab7950b1d980e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 17/33] fix: keep the number of channels in BdaAverager between
 one and the input

---
 steps/BDAAverager.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index 0427218..b40b050 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -155,11 +155,10 @@ void BdaAverager::updateInfo(const DPInfo& _info) {
       nchan = _info.nchan();
       if (bl_threshold_channel_ > 0.0) {
         nchan = std::ceil(lengths[i] / bl_threshold_channel_ * double(nchan));
-        if (nchan > _info.nchan()) {
-          nchan = _info.nchan();
-        } else if (nchan < min_channels_) {
-          nchan = min_channels_;
-        }
+        // There is always at least one channel, also when the baseline length
+        // is zero, and there are at most as many channels as in the input.
+        nchan = std::max({nchan, min_channels_, std::size_t{1}});
+        nchan = std::min<std::size_t>(nchan, _info.nchan());
       }
     } else {
       factor_time = baseline_factors_[i];
-- 
2.43.0


From f73a537a94d1e4962144e8b0d5f7df77601f3dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 18/33] fix: average UVW in BdaAverager when all weights are
 zero

---
 steps/BDAAverager.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/steps/BDAAverager.cc b/steps/BDAAverager.cc
index b40b050..6ed5d5b 100644
--- a/steps/BDAAverager.cc
+++ b/steps/BDAAverager.cc
@@ -336,7 +336,6 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
   const std::size_t n_channels = getInfoOut().chanFreqs(baseline_nr).size();
 
   // Divide data values by their total weight.
-  float total_weight = 0.0f;
   for (std::size_t index = 0; index < bb.weights.size(); ++index) {
     const float weight = bb.weights[index];
     if (weight > 0) {
@@ -344,15 +343,14 @@ void BdaAverager::AddBaseline(std::size_t baseline_nr) {
         data_name_vector.second[index] /= weight;
       }
     }
-    total_weight += weight;
   }
 
-  if (total_weight > 0) {
-    const double factor = 1.0 / bb.times_added;
-    bb.uvw[0] *= factor;
-    bb.uvw[1] *= factor;
-    bb.uvw[2] *= factor;
-  }
+  // The UVW average does not use weights, so it is also valid if all data has
+  // zero weight.
+  const double factor = 1.0 / bb.times_added;
+  bb.uvw[0] *= factor;
+  bb.uvw[1] *= factor;
+  bb.uvw[2] *= factor;
 
   if (bda_buffer_->GetRemainingCapacity() < n_channels * getInfoOut().ncorr()) {
     getNextStep()->process(std::move(bda_buffer_));
-- 
2.43.0


From 256031013f3604bafb7184b0933775a015215b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 19/33] fix: reset the channel mapping when setting the info of
 BdaExpander again

---
 steps/BdaExpander.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/steps/BdaExpander.cc b/steps/BdaExpander.cc
index 278eb29..5e721c8 100644
--- a/steps/BdaExpander.cc
+++ b/steps/BdaExpander.cc
@@ -58,7 +58,7 @@ void BdaExpander::updateInfo(const DPInfo& info_in) {
   }
 
   next_time_slot_to_process_ = 0;
-  channels_mapping_.resize(info_in.nbaselines());
+  channels_mapping_.assign(info_in.nbaselines(), {});
   for (unsigned int k = 0; k < info_in.nbaselines(); k++) {
     int next_chan = 0;
     // Store the mapping between averaged and non averaged channels in the
-- 
2.43.0


From 48d46c55a96c34811f5c2a891bfcc05bb27b6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:02 +0000
Subject: [PATCH 20/33] fix: accept rounding differences when comparing the
 bandwidths of baselines

---
 base/DPInfo.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/DPInfo.cc b/base/DPInfo.cc
index ab34c85..7ad11bc 100644
--- a/base/DPInfo.cc
+++ b/base/DPInfo.cc
@@ -174,8 +174,12 @@ void DPInfo::setChannels(std::vector<std::vector<double>>&& chan_freqs,
 
   const double total_bw = std::accumulate(effective_bw.front().begin(),
                                           effective_bw.front().end(), 0.0);
+  // Averaging channels changes the summation order, which yields rounding
+  // differences when the channel width has no exact floating point value.
+  const double kTolerance = 1.0e-9 * std::abs(total_bw);
   for (std::vector<double>& eff_bw_bl : effective_bw) {
-    if (std::accumulate(eff_bw_bl.begin(), eff_bw_bl.end(), 0.0) != total_bw) {
+    const double bw = std::accumulate(eff_bw_bl.begin(), eff_bw_bl.end(), 0.0);
+    if (!(std::abs(bw - total_bw) <= kTolerance)) {
       throw std::runtime_error("Total BW is not equal for all baselines");
     }
   }
-- 
2.43.0


From af9bc47ee8634c66e85b7a37cda8d289911e1f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 21/33] fix: reset the flush position in Upsample when a time
 slot is skipped entirely

---
 steps/Upsample.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/steps/Upsample.cc b/steps/Upsample.cc
index 80e236c..b744061 100644
--- a/steps/Upsample.cc
+++ b/steps/Upsample.cc
@@ -120,9 +120,10 @@ bool Upsample::process(std::unique_ptr<base::DPBuffer> buffer) {
   // now. Also, determine at which step the next buffer should start to
   // flush in the next call of process.
   unsigned int curIndex = 0;  // Index in the current buffers
-  for (unsigned int prevIndex = first_to_flush_; prevIndex < time_step_;
+  const unsigned int first_prev_index = first_to_flush_;
+  first_to_flush_ = 0;  // reset for next use
+  for (unsigned int prevIndex = first_prev_index; prevIndex < time_step_;
        prevIndex++) {
-    first_to_flush_ = 0;  // reset for next use
     // Advance curIndex until
     // buffers[curIndex].time >= prevBuffers[prevIndex].time
     while (prev_buffers_[prevIndex]->GetTime() >
-- 
2.43.0


From e3dfed8adcc0098764053d3568cc7050e76e438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 22/33] fix: let Upsample finish without input data

---
 steps/Upsample.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steps/Upsample.cc b/steps/Upsample.cc
index b744061..667f91b 100644
--- a/steps/Upsample.cc
+++ b/steps/Upsample.cc
@@ -160,8 +160,8 @@ bool Upsample::process(std::unique_ptr<base::DPBuffer> buffer) {
 }
 
 void Upsample::finish() {
-  // Flush prev_buffers_
-  for (unsigned int i = first_to_flush_; i < time_step_; ++i) {
+  // Flush prev_buffers_. There are none if process() was never called.
+  for (std::size_t i = first_to_flush_; i < prev_buffers_.size(); ++i) {
     getNextStep()->process(std::move(prev_buffers_[i]));
   }
 
-- 
2.43.0


From c268070330598142e2da3830399b7810b96f44df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 23/33] fix: use the current channels when the info of
 PhaseShift is set again

---
 steps/PhaseShift.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/PhaseShift.cc b/steps/PhaseShift.cc
index 163d9f3..93b51f8 100644
--- a/steps/PhaseShift.cc
+++ b/steps/PhaseShift.cc
@@ -79,6 +79,7 @@ void PhaseShift::updateInfo(const DPInfo& infoIn) {
   GetWritableInfoOut().setPhaseCenter(newDir);
   // Calculate 2*pi*freq/C to get correct phase term (in wavelengths).
   const std::vector<double>& freq = infoIn.chanFreqs();
+  itsFreqC.clear();
   itsFreqC.reserve(freq.size());
   for (unsigned int i = 0; i < freq.size(); ++i) {
     itsFreqC.push_back(2.0 * M_PI * freq[i] / casacore::C::c);
-- 
2.43.0


From 6b45775fc97b8972dd28b5d3d4f04a55c0fc7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 24/33] fix: keep the sign of negative limits in the UV ranges
 of UVWFlagger

---
 steps/UVWFlagger.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/steps/UVWFlagger.cc b/steps/UVWFlagger.cc
index 8c9702f..a6178fa 100644
--- a/steps/UVWFlagger.cc
+++ b/steps/UVWFlagger.cc
@@ -21,6 +21,7 @@
 
 #include <algorithm>
 #include <array>
+#include <cmath>
 #include <iostream>
 
 using dp3::base::BdaBuffer;
@@ -363,8 +364,9 @@ std::vector<double> UVWFlagger::fillUVW(const common::ParameterSet& parset,
   if (square) {
     for (std::vector<double>::iterator iter = vals.begin(); iter != vals.end();
          ++iter) {
+      // Keep the sign, since all squared distances exceed a negative limit.
       if (*iter != -1e15) {
-        *iter = *iter * *iter;
+        *iter = *iter * std::abs(*iter);
       }
     }
   }
-- 
2.43.0


From 524fd4dc1279fb7c5ae189a8b0a9646b8d3677b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:59 +0000
Subject: [PATCH 25/33] fix: refuse data without four correlations in
 NullStokes

---
 steps/NullStokes.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/steps/NullStokes.cc b/steps/NullStokes.cc
index 26f02d6..315078c 100644
--- a/steps/NullStokes.cc
+++ b/steps/NullStokes.cc
@@ -11,6 +11,7 @@
 #include "common/ParameterSet.h"
 
 #include <iostream>
+#include <stdexcept>
 
 using dp3::base::DPBuffer;
 using dp3::base::DPInfo;
@@ -97,6 +98,9 @@ bool NullStokes::process(std::unique_ptr<DPBuffer> buffer) {
 }
 
 void NullStokes::updateInfo(const base::DPInfo& info_in) {
+  if (info_in.ncorr() != 4) {
+    throw std::invalid_argument("NullStokes requires 4 correlations.");
+  }
   Step::updateInfo(info_in);
 }
 
-- 
2.43.0


From c09acf8609c68e1b1ee560a85c28f2e422bac608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:12 +0000
Subject: [PATCH 26/33] fix: apply time smearing to polarized point sources
 without frequency smearing

---
 base/Simulator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/Simulator.cc b/base/Simulator.cc
index 52f2ae6..0342e4d 100644
--- a/base/Simulator.cc
+++ b/base/Simulator.cc
@@ -255,7 +255,7 @@ void Simulator::visit(const PointSource& component) {
           ++y_q;
         }  // Channels.
 
-        if (itsCorrectFreqSmearing) {
+        if (itsCorrectTimeSmearing || itsCorrectFreqSmearing) {
 #pragma GCC ivdep
           for (size_t ch = 0; ch < itsNChannel; ++ch) {
             *buffer++ += dcomplex(smear_terms[ch] * temp_prod_real_I[ch],
-- 
2.43.0


From 2722542384740bc4819ea19789491f8fad8e1136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:32 +0000
Subject: [PATCH 27/33] fix: square the UV limits of PreFlagger only once

PreFlagger::PSet::updateInfo squared uvmmin and uvmmax in place, so a second
call with new information used the fourth power of the limits.
---
 steps/PreFlagger.cc | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/steps/PreFlagger.cc b/steps/PreFlagger.cc
index bf7b759..b3aa934 100644
--- a/steps/PreFlagger.cc
+++ b/steps/PreFlagger.cc
@@ -236,6 +236,18 @@ PreFlagger::PSet::PSet(const common::ParameterSet& parset,
   itsMinUV = parset.getDouble(prefix + "uvmmin", -1);
   itsMaxUV = parset.getDouble(prefix + "uvmmax", -1);
   itsFlagOnUV = (itsMinUV >= 0) || (itsMaxUV > 0);
+  // Square the distances to avoid having to take the sqrt in flagUV.
+  if (itsMinUV >= 0) {
+    itsMinUV *= itsMinUV;
+  }
+  if (itsMaxUV > 0) {
+    itsMaxUV *= itsMaxUV;
+  } else {
+    // Make it a very high number.
+    itsMaxUV = 1e30;
+  }
+  if (itsMinUV >= itsMaxUV)
+    throw std::runtime_error("PreFlagger uvmmin should be < uvmmax");
   itsStrFreq =
       parset.getStringVector(prefix + "freqrange", std::vector<std::string>());
   itsStrChan =
@@ -292,19 +304,6 @@ void PreFlagger::PSet::updateInfo(const DPInfo& info) {
   itsAzimuth = fillTimes(itsStrAzim, true, true);
   itsElevation = fillTimes(itsStrElev, true, true);
   itsFlagOnAzEl = !(itsAzimuth.empty() && itsElevation.empty());
-  // Determine if to flag on UV distance.
-  // If so, square the distances to avoid having to take the sqrt in flagUV.
-  if (itsMinUV >= 0) {
-    itsMinUV *= itsMinUV;
-  }
-  if (itsMaxUV > 0) {
-    itsMaxUV *= itsMaxUV;
-  } else {
-    // Make it a very high number.
-    itsMaxUV = 1e30;
-  }
-  if (itsMinUV >= itsMaxUV)
-    throw std::runtime_error("PreFlagger uvmmin should be < uvmmax");
   // Determine if only flagging on time info is done.
   itsFlagOnTimeOnly =
       (!(itsFlagOnUV || itsFlagOnBL || itsFlagOnAzEl || itsFlagOnAmpl ||
-- 
2.43.0


From 97fa9f9df36ca20fc108f93c3ed715778d399587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:46 +0000
Subject: [PATCH 28/33] fix: let a PreFlagger channel selection without matches
 match nothing

If chan or freqrange did not contain any channel of the data, the selection
was ignored, so that together with e.g. a baseline or time selection all
channels of the matching baselines were flagged.
---
 steps/PreFlagger.cc | 10 +++++-----
 steps/PreFlagger.h  |  1 +
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/steps/PreFlagger.cc b/steps/PreFlagger.cc
index b3aa934..ac7ea83 100644
--- a/steps/PreFlagger.cc
+++ b/steps/PreFlagger.cc
@@ -212,6 +212,7 @@ PreFlagger::PSet::PSet(const common::ParameterSet& parset,
     : itsName(prefix),
       itsFlagOnUV(false),
       itsFlagOnBL(false),
+      itsFlagOnChan(false),
       itsFlagOnAmpl(false),
       itsFlagOnPhase(false),
       itsFlagOnReal(false),
@@ -315,11 +316,10 @@ void PreFlagger::PSet::updateInfo(const DPInfo& info) {
   itsFlags.resize({nrbaselines, nrchan});
   itsMatchBL.resize({nrbaselines});
   // Determine the channels to be flagged.
-  if (!(itsStrChan.empty() && itsStrFreq.empty())) {
+  itsFlagOnChan = !(itsStrChan.empty() && itsStrFreq.empty());
+  if (itsFlagOnChan) {
     fillChannels(info);
-    if (!itsChannels.empty()) {
-      itsFlagOnTimeOnly = false;
-    }
+    itsFlagOnTimeOnly = false;
   }
   // Do the same for the child steps.
   for (unsigned int i = 0; i < itsPSets.size(); ++i) {
@@ -508,7 +508,7 @@ xt::xtensor<uint8_t, 2>* PreFlagger::PSet::process(
     flagPtr += n_channels;
   }
   // Flag on channel if necessary.
-  if (!itsChannels.empty()) {
+  if (itsFlagOnChan) {
     flagChannels();
   }
   // Flag on amplitude, phase or real/imaginary if necessary.
diff --git a/steps/PreFlagger.h b/steps/PreFlagger.h
index 8f512fd..4506a8e 100644
--- a/steps/PreFlagger.h
+++ b/steps/PreFlagger.h
@@ -229,6 +229,7 @@ class PreFlagger : public Step {
     bool itsFlagOnTime;      ///< true = do time based flagging
     bool itsFlagOnUV;        ///< true = do uv distance based flagging
     bool itsFlagOnBL;        ///< true = do ant/bl based flagging
+    bool itsFlagOnChan;      ///< true = do channel based flagging
     bool itsFlagOnAmpl;      ///< true = do amplitude based flagging
     bool itsFlagOnPhase;     ///< true = do phase based flagging
     bool itsFlagOnReal;      ///< true = do real based flagging
-- 
2.43.0


From af9d72e6020c738ac51c65d4e91538ece44eb67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:15 +0000
Subject: [PATCH 29/33] fix: forget the baselines of an earlier description in
 Filter

---
 steps/Filter.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steps/Filter.cc b/steps/Filter.cc
index 304e14a..a942182 100644
--- a/steps/Filter.cc
+++ b/steps/Filter.cc
@@ -83,6 +83,7 @@ void Filter::updateInfo(const base::DPInfo& infoIn) {
   itsDoSelect = itsStartChan > 0 || nrChan < getInfoOut().nchan();
 
   // Handle possible baseline selection.
+  itsSelBL.clear();
   if (itsBaselines.hasSelection()) {
     Matrix<bool> selbl(itsBaselines.apply(infoIn));
     const std::vector<int>& ant1 = getInfoOut().getAnt1();
-- 
2.43.0


From 0e86fa592c7c1cf5034e52b8df140415b09f44b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:15 +0000
Subject: [PATCH 30/33] fix: refuse a baseline selection in Filter that matches
 nothing

---
 steps/Filter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/steps/Filter.cc b/steps/Filter.cc
index a942182..fdc9333 100644
--- a/steps/Filter.cc
+++ b/steps/Filter.cc
@@ -8,6 +8,7 @@
 
 #include <cassert>
 #include <cstddef>
+#include <stdexcept>
 #include <tuple>
 
 #include <casacore/tables/Tables/ScalarColumn.h>
@@ -94,6 +95,10 @@ void Filter::updateInfo(const base::DPInfo& infoIn) {
         itsSelBL.push_back(i);
       }
     }
+    if (itsSelBL.empty() && !ant1.empty()) {
+      throw std::runtime_error("Filter " + itsName +
+                               ": no baselines match the baseline selection");
+    }
     if (itsSelBL.size() < ant1.size()) {
       itsDoSelect = true;
     }
-- 
2.43.0


From e003088a28904169b0107a73a6c1e9421ef395d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:24 +0000
Subject: [PATCH 31/33] fix: use the phase center of the MS as direction of
 extra data columns

---
 steps/MsReader.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index a006e4e..037d322 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -684,9 +684,6 @@ void MsReader::InitializeColumns(const bool allow_missing_data,
     if (!tdesc.isColumn(columnName)) {
       missing_columns += columnName + ", ";
     }
-    // Make sure that the extra data columns are available in DPInfo.
-    GetWritableInfoOut().GetDirections()[columnName] =
-        getInfoOut().phaseCenterDirection();
   }
   if (!missing_columns.empty()) {
     missing_columns.erase(missing_columns.size() - 2);
@@ -833,6 +830,13 @@ void MsReader::ReadArrayInformation() {
   GetWritableInfoOut().setArrayInformation(array_position, phase_center,
                                            delay_center, tile_beam_direction);
 
+  // Make sure that the extra data columns are available in DPInfo.
+  // Their direction is the phase center, which is known from here on.
+  for (const std::string& column_name : extra_data_column_names_) {
+    GetWritableInfoOut().GetDirections()[column_name] =
+        getInfoOut().phaseCenterDirection();
+  }
+
   uvw_calculator_ = std::make_unique<base::UVWCalculator>(
       phase_center, array_position, antenna_positions);
 }
-- 
2.43.0


From 69a952a8ab244821b6b197e3abcd71aa32f38ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:25 +0000
Subject: [PATCH 32/33] fix: read the data for autoweight if no step needs them

---
 steps/MsReader.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/steps/MsReader.h b/steps/MsReader.h
index 214b241..010d566 100644
--- a/steps/MsReader.h
+++ b/steps/MsReader.h
@@ -114,6 +114,13 @@ class MsReader : public InputStep {
   /// Finish the processing of this step and subsequent steps.
   void finish() override;
 
+  /// Set the fields to read. Also read the data if they are needed for
+  /// calculating the weights from the autocorrelations.
+  void setFieldsToRead(const dp3::common::Fields& fields) override {
+    InputStep::setFieldsToRead(
+        auto_weight_ && fields.Weights() ? fields | kDataField : fields);
+  }
+
   /// Do nothing, since MsReader sets its info in the constructor.
   void updateInfo(const base::DPInfo&) override {}
 
-- 
2.43.0


From dd7262ce979d8e23e1f1a186fa5c6f750f6aa0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:25 +0000
Subject: [PATCH 33/33] fix: read the last time slot if it is early within the
 time tolerance

---
 steps/MsReader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/steps/MsReader.cc b/steps/MsReader.cc
index 037d322..8e17a87 100644
--- a/steps/MsReader.cc
+++ b/steps/MsReader.cc
@@ -6,6 +6,7 @@
 
 #include "MsReader.h"
 
+#include <algorithm>
 #include <iostream>
 #include <tuple>
 
@@ -227,7 +228,11 @@ bool MsReader::process(std::unique_ptr<DPBuffer> buffer) {
 
     // Stop if at the end, i.e. the above loop completed without hitting an end
     // condition at all, or if there is no data at all.
-    if ((next_time_ > getInfoOut().lastTime() &&
+    // The time tolerance also applies to the last time slot in the MS.
+    const double last_tolerance =
+        useIter ? std::min(time_tolerance_, 0.5 * getInfoOut().timeInterval())
+                : 0.0;
+    if ((next_time_ > getInfoOut().lastTime() + last_tolerance &&
          !casacore::near(next_time_, getInfoOut().lastTime())) ||
         next_time_ == 0.0) {
       return false;
-- 
2.43.0

