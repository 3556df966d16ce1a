From f5240873a86148107ee4fda1b26717f7008a989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 01/91] fix: sort peak indexes again after the merit cut

CExtremum::Find kept the sort indexes of the peak list as it was before
Cut_Threshold removed peaks from it, so that the following selection read
out of bounds or picked the wrong peaks.
---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index b2d69b3..d1dfc77 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -120,6 +120,8 @@ TPointList CExtremum::Find(const TFloat64List &xAxis, const TFloat64List &yAxis,
   Int32 keepMinN = 1;
   if (m_meritCut > 0.0 && maxX.size() > keepMinN) {
     Cut_Threshold(maxX, maxY, keepMinN);
+    // the cut changes the list of peaks: indexes have to be sorted again
+    SortIndexes(maxY);
   }
 
   // refine: eliminate very close candidates when possible.
-- 
2.43.0


From 1ab617caa7668862a679935aff4ef54081c70265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 02/91] fix: peak search miscounts flat parts that are not peak
 plateaus

A flat part of a descending slope was counted as part of the next plateau
and never reset, which shifted the reported position of later plateau peaks
and of the right-border peak (it could even report another sample), and a
low plateau at the right border was reported as a peak.
---
 RedshiftLibrary/src/lib/extremum/extremum.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/extremum/extremum.cpp b/RedshiftLibrary/src/lib/extremum/extremum.cpp
index d1dfc77..8f61408 100644
--- a/RedshiftLibrary/src/lib/extremum/extremum.cpp
+++ b/RedshiftLibrary/src/lib/extremum/extremum.cpp
@@ -364,7 +364,7 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
       continue;
     }
     // Plank is getting larger
-    cnt_plk++;
+    cnt_plk += Int32(plank); // flat part of a descending slope: not a plank
   }
 
   if (!m_allow_extrema_at_border)
@@ -372,6 +372,9 @@ CExtremum::FindAllPeaks(const TFloat64List &xAxis, const TFloat64List &yAxis,
   // last element: check if plank is extended
   if (godown(EndIndex - 1))
     return result;
+  // low plank at the border: no peak here!
+  if (goflat(EndIndex - 1) && !plank)
+    return result;
 
   cnt_plk += Int32(plank); // if no plank, cnt_plk+=0
   Int32 idx = EndIndex - round(cnt_plk / 2);
-- 
2.43.0


From 46c090b1ed76ed0f420a7a274adb007efca3c15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 03/91] fix: read of a removed element in
 CLogZPdfResult::convertToRegular

zstep[1] was read after zstep had been resized to one element; the step of
the refined windows is already in zstep[0] at that point.
---
 RedshiftLibrary/src/lib/operator/logZPdfResult.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
index e6bbe00..5ec8cef 100644
--- a/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
+++ b/RedshiftLibrary/src/lib/operator/logZPdfResult.cpp
@@ -155,8 +155,6 @@ void CLogZPdfResult::convertToRegular(bool fine) {
   zstep.resize(1);
 
   auto param = getZGridParams()[0];
-  if (fine)
-    param.zstep = zstep[1];
   auto target_redshifts = param.getZGrid(logsampling);
 
   interpolateOnGrid(target_redshifts);
-- 
2.43.0


From 11b8373ab82bc99b3e5a47c902b6893f1ea3e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 04/91] fix: keep the integration windows of three or more
 close candidates disjoint

Each candidate was only compared with its immediate neighbour, even when that
neighbour had been identified as a duplicate, so that the windows of the
remaining candidates could overlap (and their probabilities add up to more
than one).
---
 .../src/lib/statistics/pdfcandidatesz.cpp     | 74 ++++++++++---------
 1 file changed, 39 insertions(+), 35 deletions(-)

diff --git a/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp b/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
index 94417e0..4c37e85 100644
--- a/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
+++ b/RedshiftLibrary/src/lib/statistics/pdfcandidatesz.cpp
@@ -110,52 +110,56 @@ CPdfCandidatesZ::SetIntegrationRanges(const TFloat64Range PdfZRange,
             });
 
   // trim overlapping ranges
+  // each candidate is compared with the closest higher one that was kept, until
+  // it does not overlap it, or has been trimmed, or is identified as duplicate
   TStringList duplicates = {};
-  for (auto candidateKey = candidatesKeys.begin();
-       candidateKey != candidatesKeys.end() - 1; ++candidateKey) {
-    std::string &candidateKeyHigh = *candidateKey;
-    std::string &candidateKeyLow = *(candidateKey + 1);
-    Float64 &zHigh = candidates[candidateKeyHigh]->Redshift;
-    Float64 &zLow = candidates[candidateKeyLow]->Redshift;
-
-    Float64 zSizeHighRange =
-        ranges[candidateKeyHigh].GetEnd() - ranges[candidateKeyHigh].GetBegin();
-    Float64 zSizeLowRange =
-        ranges[candidateKeyLow].GetEnd() - ranges[candidateKeyLow].GetBegin();
-
-    Float64 overlap =
-        ranges[candidateKeyLow].GetEnd() - ranges[candidateKeyHigh].GetBegin();
-
-    if (overlap <= 0)
-      continue;
+  TStringList keptKeys = {};
+  for (const std::string &candidateKeyLow : candidatesKeys) {
+    bool keepLow = true;
+    while (keepLow && !keptKeys.empty()) {
+      const std::string candidateKeyHigh = keptKeys.back();
+      const Float64 &zHigh = candidates[candidateKeyHigh]->Redshift;
+      const Float64 &zLow = candidates[candidateKeyLow]->Redshift;
+      Float64 zSizeHighRange = ranges[candidateKeyHigh].GetEnd() -
+                               ranges[candidateKeyHigh].GetBegin();
+      Float64 zSizeLowRange =
+          ranges[candidateKeyLow].GetEnd() - ranges[candidateKeyLow].GetBegin();
+      Float64 overlap = ranges[candidateKeyLow].GetEnd() -
+                        ranges[candidateKeyHigh].GetBegin();
+      if (overlap <= 0)
+        break;
+
+      // in the case of duplicates, split equally the overlap between both
+      // candidates
+      Float64 overlapHighRatio = overlap / zSizeHighRange;
+      Float64 overlapLowRatio = overlap / zSizeLowRange;
+      if (overlapHighRatio < OVERLAP_THRESHOLD_PDF_INTEGRATION &&
+          overlapLowRatio < OVERLAP_THRESHOLD_PDF_INTEGRATION) {
+        Log.LogDebug(Formatter()
+                     << "    CPdfCandidatesZ::SetIntegrationRanges: "
+                        "integration supports overlap for "
+                     << zHigh << " and " << zLow);
+        Float64 midOverlap = ranges[candidateKeyLow].GetEnd() - 0.5 * overlap;
+        ranges[candidateKeyLow].SetEnd(midOverlap);
+        ranges[candidateKeyHigh].SetBegin(midOverlap);
+        break;
+      }
 
-    // in the case of duplicates, split equally the overlap between both
-    // candidates
-    Float64 overlapHighRatio = overlap / zSizeHighRange;
-    Float64 overlapLowRatio = overlap / zSizeLowRange;
-    if (overlapHighRatio < OVERLAP_THRESHOLD_PDF_INTEGRATION &&
-        overlapLowRatio < OVERLAP_THRESHOLD_PDF_INTEGRATION) {
-      Log.LogDebug(Formatter()
-                   << "    CPdfCandidatesZ::SetIntegrationRanges: integration "
-                      "supports overlap for "
-                   << zHigh << " and " << zLow);
-      Float64 midOverlap = ranges[candidateKeyLow].GetEnd() - 0.5 * overlap;
-      ranges[candidateKeyLow].SetEnd(midOverlap);
-      ranges[candidateKeyHigh].SetBegin(midOverlap);
-    } else {
       Log.LogInfo(Formatter()
                   << " CPdfCandidatesZ::SetIntegrationRanges: very close "
                      "candidates are identified "
                   << zHigh << " and " << zLow);
-      std::string candidateKeyToRemove;
       if (candidates[candidateKeyLow]->ValProba >
           candidates[candidateKeyHigh]->ValProba) {
-        candidateKeyToRemove = candidateKeyHigh;
+        duplicates.push_back(candidateKeyHigh);
+        keptKeys.pop_back();
       } else {
-        candidateKeyToRemove = candidateKeyLow;
+        duplicates.push_back(candidateKeyLow);
+        keepLow = false;
       }
-      duplicates.push_back(candidateKeyToRemove);
     }
+    if (keepLow)
+      keptKeys.push_back(candidateKeyLow);
   }
 
   // iterate over computed ranges and check that corresponding zcandidates
-- 
2.43.0


From 8a7c1b491a32bfc13965929893b338ed898dc77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 05/91] fix: refuse chi-square lists that do not match the
 redshift grid

ComputePdf read past the end of the lists instead of raising an error.
---
 RedshiftLibrary/src/lib/operator/pdfz.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/pdfz.cpp b/RedshiftLibrary/src/lib/operator/pdfz.cpp
index c931ed7..3e3ea63 100644
--- a/RedshiftLibrary/src/lib/operator/pdfz.cpp
+++ b/RedshiftLibrary/src/lib/operator/pdfz.cpp
@@ -331,6 +331,11 @@ void COperatorPdfz::ComputePdf(const TFloat64List &merits,
     return;
   }
 
+  // check that the merits are size-compatible
+  if (merits.size() != redshifts.size())
+    THROWG(ErrorCode::INTERNAL_ERROR,
+           "Size do not match between redshifts and merits");
+
   // check that the zPrior is size-compatible
   if (logZPrior.size() != redshifts.size())
     THROWG(ErrorCode::INTERNAL_ERROR,
-- 
2.43.0


From 5216f0185ed1160bc9020ec2a632c546a5345e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 06/91] fix: log sampling test of an axis with less than two
 samples

It read out of bounds.
---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index 73ad893..f11a08d 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -343,6 +343,11 @@ Int32 CSpectrumSpectralAxis::GetIndexAtWaveLength(Float64 waveLength) const {
  * Check if spectralAxis is well rebinned in log
  */
 bool CSpectrumSpectralAxis::CheckLoglambdaSampling() const {
+  if (GetSamplesCount() < 2) { // no step
+    m_isLogSampled = false;
+    return false;
+  }
+
   Float64 logGridStep = log(m_Samples[1] / m_Samples[0]);
 
   Float64 relativelogGridStepTol =
-- 
2.43.0


From 5aae4c01b801fd76d7ec22709d0fbfb397bc23ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 07/91] fix: ApplyOffset forgets the log sampling when the
 offset is not null

The condition was inverted: a shifted axis went on claiming its former log
step, and a null offset declared a log sampled axis not log sampled.
---
 RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index f11a08d..fbaa216 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -169,8 +169,8 @@ void CSpectrumSpectralAxis::ApplyOffset(Float64 wavelengthOffset) {
   for (Int32 i = 0; i < nSamples; i++) {
     m_Samples[i] += wavelengthOffset;
   }
-  if (!wavelengthOffset)
-    m_isLogSampled = false;
+  if (wavelengthOffset)
+    m_isLogSampled = indeterminate;
 }
 
 /**
-- 
2.43.0


From db575bb504eb194a2b4dc080a090d0995a35209a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 08/91] fix: wavelength axes keep their sorted and log sampled
 answers up to date

Multiplying a single sample by a negative number or any axis by zero,
resizing, masking and extracting kept answers of the former samples.
---
 .../RedshiftLibrary/spectrum/spectralaxis.h   |  7 ++++-
 .../src/lib/spectrum/spectralaxis.cpp         | 30 ++++++++++++-------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/spectralaxis.h b/RedshiftLibrary/RedshiftLibrary/spectrum/spectralaxis.h
index 66a793f..5ed4fd9 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/spectralaxis.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/spectralaxis.h
@@ -142,8 +142,13 @@ private:
 inline CSpectrumSpectralAxis
 CSpectrumSpectralAxis::extract(Int32 startIdx, Int32 endIdx) const {
   CSpectrumSpectralAxis spcaxis = CSpectrumAxis::extract(startIdx, endIdx);
+  if (spcaxis.GetSamplesCount() < 2) {
+    spcaxis.m_isSorted = true;
+    return spcaxis;
+  }
   spcaxis.m_isSorted = m_isSorted;
-  spcaxis.m_isLogSampled = m_isLogSampled;
+  // a part of an axis that is not log sampled can be log sampled
+  spcaxis.m_isLogSampled = m_isLogSampled ? m_isLogSampled : indeterminate;
   spcaxis.m_regularLogSamplingStep = m_regularLogSamplingStep;
   return spcaxis;
 }
diff --git a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
index fbaa216..b2d46d1 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectralaxis.cpp
@@ -100,23 +100,30 @@ CSpectrumSpectralAxis::CSpectrumSpectralAxis(Int32 n, Float64 value)
 CSpectrumSpectralAxis &CSpectrumSpectralAxis::operator*=(const Float64 op) {
   CSpectrumAxis::operator*=(op);
   if (op < 0 && !indeterminate(m_isSorted))
-    m_isSorted = m_isSorted ? static_cast<tribool>(false) : indeterminate;
-  if (!op)
+    m_isSorted = m_isSorted ? static_cast<tribool>(GetSamplesCount() < 2)
+                            : indeterminate;
+  if (!op) {
     m_isSorted = (GetSamplesCount() < 2);
+    m_isLogSampled = indeterminate;
+  }
   return *this;
 }
 CSpectrumSpectralAxis &CSpectrumSpectralAxis::operator/=(const Float64 op) {
   CSpectrumAxis::operator/=(op);
   if (op < 0 && !indeterminate(m_isSorted))
-    m_isSorted = m_isSorted ? static_cast<tribool>(false) : indeterminate;
-  if (!op)
+    m_isSorted = m_isSorted ? static_cast<tribool>(GetSamplesCount() < 2)
+                            : indeterminate;
+  if (!op) {
     m_isSorted = (GetSamplesCount() < 2);
+    m_isLogSampled = indeterminate;
+  }
   return *this;
 }
 CSpectrumSpectralAxis
 CSpectrumSpectralAxis::MaskAxis(const TFloat64List &mask) const {
   CSpectrumSpectralAxis spc_axis = CSpectrumAxis::MaskAxis(mask);
-  spc_axis.m_isSorted = m_isSorted;
+  // the remaining samples of an unsorted axis can be sorted
+  spc_axis.m_isSorted = m_isSorted ? m_isSorted : indeterminate;
   if (spc_axis.GetSamplesCount() < 2)
     spc_axis.m_isSorted = true;
   spc_axis.m_isLogSampled = indeterminate;
@@ -124,14 +131,15 @@ CSpectrumSpectralAxis::MaskAxis(const TFloat64List &mask) const {
 }
 
 void CSpectrumSpectralAxis::SetSize(Int32 s) {
-  Float64 sample_size = GetSamplesCount();
+  Int32 sample_size = GetSamplesCount();
   CSpectrumAxis::SetSize(s);
-  if (s < 2)
+  if (s == sample_size)
+    return;
+  // the remaining samples of a sorted axis are sorted
+  const bool staysSorted = s < 2 || (s < sample_size && bool(m_isSorted));
+  resetAxisProperties();
+  if (staysSorted)
     m_isSorted = true;
-  else {
-    if (sample_size < s)
-      resetAxisProperties();
-  }
 }
 /**
  * Shift current axis the input offset in the input direction.
-- 
2.43.0


From 579e4bf66f4c7c57c628d33074f7730b4829bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:55 +0000
Subject: [PATCH 09/91] fix: validate and correct the last sample of the
 wavelength range

The scans stopped before the sample found at the upper bound, so that a
sample exactly there (always the case for the last sample of a spectrum
entirely inside the range) was neither validated nor corrected.
---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 09197c3..8f0f867 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -446,6 +446,8 @@ void CSpectrum::ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const {
 
   Int32 iMin = m_SpectralAxis.GetIndexAtWaveLength(LambdaMin);
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
+  // end is excluded: keep a sample exactly at the end of the range
+  Int32 iEnd = m_SpectralAxis[iMax] <= LambdaMax ? iMax + 1 : iMax;
   Log.LogDetail(Formatter()
                 << "CSpectrum::ValidateFlux - checking on the configured "
                    "lambdaRange = ("
@@ -460,7 +462,7 @@ void CSpectrum::ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const {
 
   // check flux
   TBoolList validSamples = flux.checkFlux();
-  for (Int32 i = iMin; i < iMax; i++) {
+  for (Int32 i = iMin; i < iEnd; i++) {
     // collect invalid values
     if (!validSamples[i]) {
       ++nInvalid;
@@ -496,6 +498,8 @@ void CSpectrum::ValidateNoise(Float64 LambdaMin, Float64 LambdaMax) const {
   const TFloat64List &error = GetFluxAxis().GetError().GetSamplesVector();
   Int32 iMin = m_SpectralAxis.GetIndexAtWaveLength(LambdaMin);
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
+  // end is excluded: keep a sample exactly at the end of the range
+  Int32 iEnd = m_SpectralAxis[iMax] <= LambdaMax ? iMax + 1 : iMax;
   Log.LogDetail(Formatter()
                 << "CSpectrum::ValidateNoise - checking on the configured "
                    "lambdaRange = ("
@@ -509,7 +513,7 @@ void CSpectrum::ValidateNoise(Float64 LambdaMin, Float64 LambdaMax) const {
 
   // check noise
   TBoolList validSamples = GetFluxAxis().GetError().checkNoise();
-  for (Int32 i = iMin; i < iMax; i++) {
+  for (Int32 i = iMin; i < iEnd; i++) {
     if (!validSamples[i]) {
       ++nInvalid;
       invalidElements[to_string(error[i])]++;
@@ -536,9 +540,11 @@ bool CSpectrum::correctSpectrum(Float64 LambdaMin, Float64 LambdaMax,
 
   Int32 iMin = m_SpectralAxis.GetIndexAtWaveLength(LambdaMin);
   Int32 iMax = m_SpectralAxis.GetIndexAtWaveLength(LambdaMax);
+  // end is excluded: keep a sample exactly at the end of the range
+  Int32 iEnd = m_SpectralAxis[iMax] <= LambdaMax ? iMax + 1 : iMax;
 
   bool corrected =
-      GetFluxAxis_().correctFluxAndNoiseAxis(iMin, iMax, coeffCorr);
+      GetFluxAxis_().correctFluxAndNoiseAxis(iMin, iEnd, coeffCorr);
 
   if (corrected)
     ResetContinuum();
-- 
2.43.0


From c338a66c5c56a2b3a9fa8a821f84e5344395fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:07 +0000
Subject: [PATCH 10/91] fix: step compensation for a resampled axis of one
 sample

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
index 3d96da3..7e1b8ed 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebin.cpp
@@ -102,6 +102,8 @@ Float64 CRebin::computeXStepCompensation(
     const TAxisSampleList &Xtgt, Int32 cursor, Float64 xSrcStep) {
   Float64 xDestStep = NAN;
   Float64 xStepCompensation = 1.;
+  if (targetSpectralAxis.GetSamplesCount() < 2)
+    return xStepCompensation; // a single sample has no step
   if (cursor < targetSpectralAxis.GetSamplesCount() - 1) {
     xDestStep = Xtgt[cursor + 1] - Xtgt[cursor];
     xStepCompensation = xSrcStep / xDestStep;
-- 
2.43.0


From acd085ad5758998d5d8853d0b45ad27297168a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 11/91] fix: linear resampling stops at the end of the range

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp
index 405389e..97dd934 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebinLinear.cpp
@@ -61,7 +61,7 @@ void CRebinLinear::rebin(CSpectrumFluxAxis &rebinedFluxAxis,
     // For each sample in the target spectrum that are in between two
     // continous source sample
     while (cursor < targetSpectralAxis.GetSamplesCount() &&
-           Xtgt[cursor] <= Xsrc[k + 1]) {
+           Xtgt[cursor] <= Xsrc[k + 1] && Xtgt[cursor] <= range.GetEnd()) {
       // perform linear interpolation of the flux
       Float64 xSrcStep = (Xsrc[k + 1] - Xsrc[k]);
       Float64 t = (Xtgt[cursor] - Xsrc[k]) / xSrcStep;
-- 
2.43.0


From 56074bb886b8f583761c877c6926a878c864a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:29 +0000
Subject: [PATCH 12/91] fix: fine grid resampling of targets close to the last
 sample

---
 RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
index f2bd3f5..e40a93a 100644
--- a/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/rebin/rebinFineGrid.cpp
@@ -72,8 +72,12 @@ void CRebinFineGrid::rebinFineGrid() {
 
   Int32 k = 0;
   Float64 x = 0.0;
+  Int32 kLast = int((lmax - lmin) / m_dLambdaFineGrid + 0.5);
   for (k = 0; k < nTgt; k++) {
     x = lmin + k * m_dLambdaFineGrid;
+    // the node closest to the last targets can be just after the last sample
+    if (k == kLast)
+      x = std::min(x, lmax);
     if (x < spectralAxis[0] || x > spectralAxis[n - 1]) {
       m_pfgFlux[k] = 0.0;
     } else {
-- 
2.43.0


From 3789337538b094195f6f10cefaf54e5fefb289f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 13/91] fix: continuum estimation with odd reflection whatever
 the component in use

The border fit of the median continuum was made on the component in use:
when this is the continuum or the continuum free flux, not estimated yet,
the estimation called itself without end.
---
 RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h      | 2 ++
 .../src/lib/continuum/irregularsamplingmedian.cpp        | 4 +++-
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp            | 9 +++++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
index ee5410d..ece192c 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
@@ -138,6 +138,8 @@ public:
   bool GetMeanAndStdFluxInRange(TFloat64Range wlRange, Float64 &mean,
                                 Float64 &std) const;
   bool GetLinearRegInRange(TFloat64Range wlRange, Float64 &a, Float64 &b) const;
+  bool GetLinearRegInRange(TFloat64Range wlRange, const CSpectrumFluxAxis &flux,
+                           Float64 &a, Float64 &b) const;
 
   bool RemoveContinuum(CContinuum &remover) const;
   void ValidateFlux(Float64 LambdaMin, Float64 LambdaMax) const;
diff --git a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
index e95f33e..c42b9fc 100644
--- a/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
+++ b/RedshiftLibrary/src/lib/continuum/irregularsamplingmedian.cpp
@@ -193,7 +193,9 @@ Float64 CContinuumIrregularSamplingMedian::FitBorder(const CSpectrum &s,
 
   Float64 a;
   Float64 b;
-  bool ret = s.GetLinearRegInRange(range, a, b);
+  // always on the raw flux: the component in use could be the one being
+  // estimated
+  bool ret = s.GetLinearRegInRange(range, fluxAxis, a, b);
   Int32 k = isRightBorder ? kend : kstart;
   Float64 fitValue = ret ? spectralAxis[k] * a + b : fluxAxis[k];
 
diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index 8f0f867..c08c2b8 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -390,13 +390,18 @@ bool CSpectrum::GetMeanAndStdFluxInRange(TFloat64Range wlRange, Float64 &mean,
 
 bool CSpectrum::GetLinearRegInRange(TFloat64Range wlRange, Float64 &a,
                                     Float64 &b) const {
+  return GetLinearRegInRange(wlRange, GetFluxAxis(), a, b);
+}
+
+bool CSpectrum::GetLinearRegInRange(TFloat64Range wlRange,
+                                    const CSpectrumFluxAxis &flux, Float64 &a,
+                                    Float64 &b) const {
   // wlrange should be totally included in the spectrum lambdarange
   if (wlRange.GetBegin() < m_SpectralAxis.GetLambdaRange().GetBegin() ||
       wlRange.GetEnd() > m_SpectralAxis.GetLambdaRange().GetEnd())
     return false;
 
-  const CSpectrumNoiseAxis &error = GetErrorAxis();
-  const CSpectrumFluxAxis &flux = GetFluxAxis();
+  const CSpectrumNoiseAxis &error = flux.GetError();
 
   TInt32Range iRange = m_SpectralAxis.GetIndexesAtWaveLengthRange(wlRange);
   Int32 n = iRange.GetLength() + 1;
-- 
2.43.0


From 465392cc1e4b33fd07b06a6e821b64a2ea2651d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 14/91] fix: forget the derived data of a spectrum when their
 source changes

The continuum was not estimated again after a change of the spectral axis
or of the errors, a continuum given manually followed ApplyAmplitude and
InvertFlux only when it had been read before, and the fine grid used for
resampling was kept after a change of the spectral axis, of the continuum
settings, after InvertFlux, correctSpectrum or InitSpectrumContinuum, and
through a temporary change of interpolation method.
---
 .../RedshiftLibrary/spectrum/rebin/rebin.h     |  6 +++++-
 .../RedshiftLibrary/spectrum/spectrum.h        |  4 ++++
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp  | 18 +++++++++++++++++-
 3 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h b/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
index cbe7860..83a0924 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/rebin/rebin.h
@@ -67,7 +67,11 @@ public:
                CSpectrum &rebinedSpectrum, CMask &rebinedMask,
                const std::string opt_error_interp);
 
-  virtual void reset(){};
+  // forget the fine grid, also when it is kept by another method (convert)
+  virtual void reset() {
+    m_FineGridInterpolated = false;
+    m_pfgFlux.clear();
+  };
   virtual const std::string &getType() = 0;
 
 protected:
diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
index ece192c..6755816 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/spectrum.h
@@ -293,10 +293,14 @@ inline const CSpectrumNoiseAxis &CSpectrum::GetErrorAxis() const {
 
 inline void CSpectrum::SetErrorAxis(const CSpectrumNoiseAxis &erroraxis) {
   GetFluxAxis_().setError(erroraxis);
+  if (m_spcType == nType_raw)
+    alreadyRemoved = false; // the components have the errors of the raw flux
 }
 
 inline void CSpectrum::SetErrorAxis(CSpectrumNoiseAxis &&erroraxis) {
   GetFluxAxis_().setError(std::move(erroraxis));
+  if (m_spcType == nType_raw)
+    alreadyRemoved = false; // the components have the errors of the raw flux
 }
 
 inline const std::shared_ptr<const CLSF> CSpectrum::GetLSF() const {
diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index c08c2b8..c3be922 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -205,6 +205,8 @@ void CSpectrum::SetSpectralAxis(const CSpectrumSpectralAxis &spectralaxis) {
            "not the same size than flux axis");
   }
   m_SpectralAxis = spectralaxis;
+  alreadyRemoved = false;
+  m_rebin->reset();
 }
 
 void CSpectrum::SetSpectralAxis(CSpectrumSpectralAxis &&spectralaxis) {
@@ -214,6 +216,8 @@ void CSpectrum::SetSpectralAxis(CSpectrumSpectralAxis &&spectralaxis) {
            "not the same size than flux axis");
   }
   m_SpectralAxis = std::move(spectralaxis);
+  alreadyRemoved = false;
+  m_rebin->reset();
 }
 
 void CSpectrum::SetFluxAxis(const CSpectrumFluxAxis &fluxaxis) {
@@ -278,6 +282,7 @@ void CSpectrum::InitSpectrumContinuum(CParameterStore &parameterStore) {
     m_RawFluxAxis.ApplyMeanSmooth(smoothWidth);
   }
   ResetContinuum();
+  m_rebin->reset();
   SetContinuumEstimationMethod(medianRemovalMethod);
   SetMedianWinsize(medianKernelWidth);
   SetMedianEvenReflection(medianEvenReflection);
@@ -345,7 +350,10 @@ bool CSpectrum::InvertFlux() {
   if (alreadyRemoved) {
     m_ContinuumFluxAxis.Invert();
     m_WithoutContinuumFluxAxis.Invert();
+  } else if (m_estimationMethod == "manual") {
+    m_ContinuumFluxAxis.Invert();
   }
+  m_rebin->reset();
   return true;
 }
 
@@ -551,8 +559,10 @@ bool CSpectrum::correctSpectrum(Float64 LambdaMin, Float64 LambdaMax,
   bool corrected =
       GetFluxAxis_().correctFluxAndNoiseAxis(iMin, iEnd, coeffCorr);
 
-  if (corrected)
+  if (corrected) {
     ResetContinuum();
+    m_rebin->reset();
+  }
 
   return corrected;
 }
@@ -575,6 +585,7 @@ void CSpectrum::SetMedianWinsize(Float64 winsize) {
   if (m_medianWindowSize != winsize &&
       m_estimationMethod == "irregularSamplingMedian") {
     ResetContinuum();
+    m_rebin->reset();
   }
   m_medianWindowSize = winsize;
 }
@@ -583,6 +594,7 @@ void CSpectrum::SetMedianEvenReflection(bool medianEvenReflection) {
   if (m_medianEvenReflection != medianEvenReflection &&
       m_estimationMethod == "irregularSamplingMedian") {
     ResetContinuum();
+    m_rebin->reset();
   }
   m_medianEvenReflection = medianEvenReflection;
 }
@@ -591,6 +603,7 @@ void CSpectrum::SetContinuumEstimationMethod(std::string method) const {
   if (m_estimationMethod != method) {
     m_estimationMethod = method;
     ResetContinuum();
+    m_rebin->reset();
   }
 }
 
@@ -602,6 +615,7 @@ void CSpectrum::SetContinuumEstimationMethod(
     const CSpectrumFluxAxis &ContinuumFluxAxis) {
   m_estimationMethod = "manual";
   ResetContinuum();
+  m_rebin->reset();
 
   if (ContinuumFluxAxis.GetSamplesCount() != GetSampleCount()) {
     THROWG(ErrorCode::INTERNAL_ERROR,
@@ -650,6 +664,8 @@ void CSpectrum::ApplyAmplitude(Float64 amplitude) {
   if (alreadyRemoved) {
     m_ContinuumFluxAxis *= amplitude;
     m_WithoutContinuumFluxAxis *= amplitude;
+  } else if (m_estimationMethod == "manual") {
+    m_ContinuumFluxAxis *= amplitude;
   }
   m_rebin->reset();
 }
-- 
2.43.0


From 4ab486a414d3125b768aac6bee22fca20b5d79c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:20 +0000
Subject: [PATCH 15/91] fix: assignment of a spectrum copies its photometry and
 observation id

---
 RedshiftLibrary/src/lib/spectrum/spectrum.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
index c3be922..a564f82 100644
--- a/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/spectrum.cpp
@@ -175,6 +175,8 @@ CSpectrum &CSpectrum::operator=(const CSpectrum &other) {
   m_Name = other.m_Name;
   alreadyRemoved = other.alreadyRemoved;
   m_rebin = CRebin::create(other.m_rebin->getType(), *this);
+  m_photData = other.m_photData;
+  m_obsId = other.m_obsId;
   return *this;
 }
 
@@ -194,6 +196,8 @@ CSpectrum &CSpectrum::operator=(CSpectrum &&other) {
   m_Name = std::move(other.m_Name);
   alreadyRemoved = other.alreadyRemoved;
   m_rebin = CRebin::create(other.m_rebin->getType(), *this);
+  m_photData = std::move(other.m_photData);
+  m_obsId = std::move(other.m_obsId);
 
   return *this;
 }
-- 
2.43.0


From 8efeec18f19e0bf11a8473dcba6ac97b7d4b940e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 16/91] fix: a refused extinction or absorption leaves the
 template as it was

---
 .../src/lib/spectrum/template/template.cpp    | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 814215d..2a4720a 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -207,14 +207,13 @@ bool CTemplate::ApplyDustCoeff(Int32 kDust) {
 
   if (m_kDust == kDust)
     return true;
-  m_kDust = kDust;
 
   CSpectrumFluxAxis &FluxAxis = GetFluxAxis_();
   const CSpectrumSpectralAxis &SpectralAxis = m_SpectralAxis;
   const CSpectrumFluxAxis &NoIsmIgmFluxAxis = m_NoIsmIgmFluxAxis;
 
   for (Int32 k = m_IsmIgm_kstart; k < m_Ism_kend + 1; k++) {
-    if (m_kDust > -1)
+    if (kDust > -1)
       m_computedDustCoeff[k] =
           m_ismCorrectionCalzetti->GetDustCoeff(kDust, SpectralAxis[k]);
     else
@@ -223,6 +222,7 @@ bool CTemplate::ApplyDustCoeff(Int32 kDust) {
     FluxAxis[k] = NoIsmIgmFluxAxis[k] * m_computedMeiksingCoeff[k] *
                   m_computedDustCoeff[k];
   }
+  m_kDust = kDust;
   return true;
 }
 
@@ -324,29 +324,32 @@ void CTemplate::InitIsmIgmConfig(
     THROWG(ErrorCode::INTERNAL_ERROR, "kend outside range");
   }
 
-  m_kDust = -1;
-  m_meiksinIdx = -1;
-
-  m_IsmIgm_kstart = kstart;
-  m_Ism_kend = kend;
-  m_Igm_kend = -1;
-
+  Int32 meiksinRedshiftIdx = undefIdx;
+  Int32 Igm_kend = -1;
   if (!MeiksinInitFailed()) {
-    m_meiksinRedshiftIdx = m_igmCorrectionMeiksin->getRedshiftIndex(
+    meiksinRedshiftIdx = m_igmCorrectionMeiksin->getRedshiftIndex(
         redshift); // index for IGM Meiksin redshift range
 
     // get last index in spectral axis where igm can be applied
-    m_Igm_kend = GetIgmEndIndex(m_IsmIgm_kstart, m_Ism_kend);
+    Igm_kend = GetIgmEndIndex(kstart, kend);
 
-    if (m_meiksinRedshiftIdx == undefIdx && m_Igm_kend != undefIdx)
+    if (meiksinRedshiftIdx == undefIdx && Igm_kend != undefIdx)
       THROWG(ErrorCode::INTERNAL_ERROR,
              Formatter() << "CTemplate::InitIsmIgmConfig: missing "
                             "igm extinction curve for redshift z="
                          << redshift << " and wavelength range =["
-                         << m_SpectralAxis[m_IsmIgm_kstart] << " ; "
-                         << m_SpectralAxis[m_Igm_kend] << "]");
+                         << m_SpectralAxis[kstart] << " ; "
+                         << m_SpectralAxis[Igm_kend] << "]");
   }
 
+  // everything is checked: the current configuration can be replaced
+  m_kDust = -1;
+  m_meiksinIdx = -1;
+  m_meiksinRedshiftIdx = meiksinRedshiftIdx;
+  m_IsmIgm_kstart = kstart;
+  m_Ism_kend = kend;
+  m_Igm_kend = Igm_kend;
+
   if (m_NoIsmIgmFluxAxis.isEmpty()) // initialize when called for the first time
     m_NoIsmIgmFluxAxis = GetFluxAxis();
   else                                   // reset the fluxAxis
-- 
2.43.0


From b4537c72a0fa322dc3b8d9c2c2137d683eb6876c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:46 +0000
Subject: [PATCH 17/91] fix: masked copy of a corrected template

---
 RedshiftLibrary/src/lib/spectrum/template/template.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index 2a4720a..cd5401d 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -106,7 +106,8 @@ CTemplate::CTemplate(const CTemplate &other, const TFloat64List &mask)
                                           m_IsmIgm_kstart, m_Ism_kend);
     } catch (const AmzException &exception) {
       if (exception.getErrorCode() ==
-          ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE) {
+              ErrorCode::CRANGE_VECTBORDERS_OUTSIDERANGE ||
+          exception.getErrorCode() == ErrorCode::CRANGE_NO_INTERSECTION) {
         rangeIsMasked = true;
       } else {
         throw exception;
@@ -126,6 +127,8 @@ CTemplate::CTemplate(const CTemplate &other, const TFloat64List &mask)
           CSpectrumAxis::maskVector(mask, other.m_computedDustCoeff);
       m_computedMeiksingCoeff =
           CSpectrumAxis::maskVector(mask, other.m_computedMeiksingCoeff);
+      if (!MeiksinInitFailed())
+        m_Igm_kend = GetIgmEndIndex(m_IsmIgm_kstart, m_Ism_kend);
     }
   }
 }
-- 
2.43.0


From 231dffc482c5ae59d7b3304efc77c98d66f51bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 18/91] fix: resampling of a template after its corrections
 change

---
 .../RedshiftLibrary/spectrum/template/template.h    |  8 --------
 .../src/lib/spectrum/template/template.cpp          | 13 +++++++++++++
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/template/template.h b/RedshiftLibrary/RedshiftLibrary/spectrum/template/template.h
index ee1205f..a379bf1 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/template/template.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/template/template.h
@@ -214,14 +214,6 @@ inline void CTemplate::SetType(const CSpectrum::EType type) const {
   }
 }
 
-inline void CTemplate::DisableIsmIgm() {
-  // check if not already disabled
-  if (!m_NoIsmIgmFluxAxis.isEmpty()) {
-    GetFluxAxis_() = m_NoIsmIgmFluxAxis;
-    m_NoIsmIgmFluxAxis.clear();
-  }
-}
-
 inline Int32 CTemplate::GetIsmCoeff() const {
   if (!CheckIsmIgmEnabled()) {
     THROWG(ErrorCode::INTERNAL_ERROR, "ism/igm not initialized");
diff --git a/RedshiftLibrary/src/lib/spectrum/template/template.cpp b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
index cd5401d..aa197f1 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/template.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/template.cpp
@@ -44,6 +44,7 @@
 #include "RedshiftLibrary/common/exception.h"
 #include "RedshiftLibrary/common/mask.h"
 #include "RedshiftLibrary/spectrum/template/catalog.h"
+#include "RedshiftLibrary/spectrum/rebin/rebin.h"
 #include "RedshiftLibrary/spectrum/template/template.h"
 
 using namespace NSEpic;
@@ -226,6 +227,7 @@ bool CTemplate::ApplyDustCoeff(Int32 kDust) {
                   m_computedDustCoeff[k];
   }
   m_kDust = kDust;
+  m_rebin->reset();
   return true;
 }
 
@@ -268,6 +270,7 @@ bool CTemplate::ApplyMeiksinCoeff(Int32 meiksinIdx) {
     FluxAxis[k] = NoIsmIgmFluxAxis[k] * m_computedMeiksingCoeff[k] *
                   m_computedDustCoeff[k];
   }
+  m_rebin->reset();
   return true;
 }
 
@@ -359,6 +362,7 @@ void CTemplate::InitIsmIgmConfig(
     GetFluxAxis_() = m_NoIsmIgmFluxAxis; // note: the type component
                                          // (raw/continuum/wocontinuum should
                                          // not have changed)
+  m_rebin->reset();
 
   m_computedMeiksingCoeff.resize(m_SpectralAxis.GetSamplesCount());
   std::fill(m_computedMeiksingCoeff.begin(), m_computedMeiksingCoeff.end(),
@@ -368,6 +372,15 @@ void CTemplate::InitIsmIgmConfig(
   std::fill(m_computedDustCoeff.begin(), m_computedDustCoeff.end(), 1.0);
 }
 
+void CTemplate::DisableIsmIgm() {
+  // check if not already disabled
+  if (!m_NoIsmIgmFluxAxis.isEmpty()) {
+    GetFluxAxis_() = m_NoIsmIgmFluxAxis;
+    m_NoIsmIgmFluxAxis.clear();
+    m_rebin->reset();
+  }
+}
+
 Int32 CTemplate::GetIgmEndIndex(Int32 kstart, Int32 kend) const {
   if (MeiksinInitFailed()) {
     THROWG(ErrorCode::INTERNAL_ERROR, "igm is not initialized");
-- 
2.43.0


From 0a281a496b9e828c5c269707b8af4c7df6d25514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 19/91] fix: template catalog keeps indexes and variants
 consistent around cleared entries

---
 .../spectrum/template/catalog.h               |  3 ++
 .../src/lib/spectrum/template/catalog.cpp     | 43 ++++++++++++-------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/template/catalog.h b/RedshiftLibrary/RedshiftLibrary/spectrum/template/catalog.h
index d62a0cc..eee48b0 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/template/catalog.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/template/catalog.h
@@ -113,6 +113,9 @@ private:
   Int32 GetNonNullTemplateCount(const std::string &category, bool opt_ortho,
                                 bool opt_logsampling) const;
 
+  void ClearDerivedTemplates(const std::string &category, bool opt_ortho,
+                             bool opt_logsampling, Int32 i, bool alltemplates);
+
   TTemplatesRefDict &GetList();
   const TTemplatesRefDict &GetList() const;
 
diff --git a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
index b0358ab..1844d27 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
@@ -101,7 +101,7 @@ CTemplateCatalog::GetTemplateByName(const TStringList &tplCategoryList,
     if (!map.count(cat))
       continue;
     for (const auto &tpl : map.at(cat))
-      if (tpl->GetName() == tplName)
+      if (tpl && tpl->GetName() == tplName)
         return tpl;
   }
   THROWG(ErrorCode::INTERNAL_ERROR,
@@ -177,14 +177,16 @@ void CTemplateCatalog::SetTemplate(const std::shared_ptr<CTemplate> &tpl,
                                    Int32 i) {
   const std::string category = tpl->GetCategory();
 
-  // first clear given template
-  ClearTemplates(category, m_orthogonal, m_logsampling, i);
-
-  // assign new template
-  if (!GetTemplateCount(category))
+  if (!GetTemplateCount(category) && i == 0) {
     Add(tpl);
-  else
-    GetList().at(category).at(i) = tpl;
+    return;
+  }
+
+  // assign new template (throws if i is out of range)
+  GetList().at(category).at(i) = tpl;
+
+  // clear the templates derived from the replaced one
+  ClearDerivedTemplates(category, m_orthogonal, m_logsampling, i, false);
 }
 
 // clear all templates in a category
@@ -217,14 +219,23 @@ void CTemplateCatalog::ClearTemplates(const std::string &category,
       ClearTemplates(category, opt_ortho, opt_logsampling, 0, true);
   }
 
-  // Other templates clearing rules
+  ClearDerivedTemplates(category, opt_ortho, opt_logsampling, i, alltemplates);
+}
+
+// clear the templates derived from one template (or all) of a category
+void CTemplateCatalog::ClearDerivedTemplates(const std::string &category,
+                                             bool opt_ortho,
+                                             bool opt_logsampling, Int32 i,
+                                             bool alltemplates) {
+  // the derived list may be shorter than the list it comes from
+  auto const clear = [&](bool ortho, bool logsampling) {
+    if (alltemplates || i < GetTemplateCount(category, ortho, logsampling))
+      ClearTemplates(category, ortho, logsampling, i, alltemplates);
+  };
   if (!opt_ortho) // if not ortho clear associated ortho
-    ClearTemplates(category, 1, opt_logsampling, i, alltemplates);
-  if (!opt_logsampling && !opt_ortho) { // if original, clear log-sampled
-    ClearTemplates(category, 0, 1, i,
-                   alltemplates); // clear log-sampled (will clear log-sampled
-                                  // ortho recursively)
-  }
+    clear(1, opt_logsampling);
+  if (!opt_logsampling && !opt_ortho) // if original, clear log-sampled
+    clear(0, 1); // (will clear log-sampled ortho recursively)
 }
 
 void CTemplateCatalog::InitContinuumRemoval(
@@ -238,6 +249,8 @@ void CTemplateCatalog::InitContinuumRemoval(
   for (auto it : GetList(0, 0)) {
     const TTemplateRefList &TplList = it.second;
     for (auto tpl : TplList) {
+      if (!tpl) // cleared entry
+        continue;
       tpl->SetContinuumEstimationMethod(ContinuumRemovalMethod);
       tpl->SetMedianWinsize(medianKernelWidth);
       tpl->SetMedianEvenReflection(medianEvenReflection);
-- 
2.43.0


From dec1b2f2e0d9287737e1f7b3249167d18a54fe35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 20/91] fix: log rebinning interpolates over the target grid,
 not half a step outside

---
 .../src/lib/spectrum/logrebinning.cpp           | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index 3eaa3ae..4a105a9 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -143,14 +143,17 @@ std::shared_ptr<CSpectrum> CSpectrumLogRebinning::loglambdaRebinSpectrum(
           loglambda_start_ref +
           ceil((loglambda_start_spc - loglambda_start_ref) / m_logGridStep) *
               m_logGridStep; // ceil to be bigger or equal the first sample
-      lambdaRange_spc.SetBegin(exp(loglambda_start_spc));
+      // exp(log) rounding should not get out of the spectrum
+      lambdaRange_spc.SetBegin(
+          std::max(exp(loglambda_start_spc), lambdaRange_spc.GetBegin()));
     }
     if (lambdaRange_spc.GetEnd() < m_lambdaRange_ref.GetEnd()) {
       loglambda_end_spc =
           loglambda_end_ref -
           ceil((loglambda_end_ref - loglambda_end_spc) / m_logGridStep) *
               m_logGridStep; // ceil to be less or equal the last sample
-      lambdaRange_spc.SetEnd(exp(loglambda_end_spc));
+      lambdaRange_spc.SetEnd(
+          std::min(exp(loglambda_end_spc), lambdaRange_spc.GetEnd()));
     }
     Float64 count_ = (loglambda_end_spc - loglambda_start_spc) /
                      m_logGridStep; // should integer at numerical precision...
@@ -170,9 +173,8 @@ std::shared_ptr<CSpectrum> CSpectrumLogRebinning::loglambdaRebinSpectrum(
   const CSpectrumSpectralAxis targetSpectralAxis =
       computeTargetLogSpectralAxis(lambdaRange_spc, loglambda_count_spc);
 
-  TFloat64Range spcLbdaRange(targetSpectralAxis[0] - 0.5 * m_logGridStep,
-                             targetSpectralAxis[loglambda_count_spc - 1] +
-                                 0.5 * m_logGridStep);
+  TFloat64Range spcLbdaRange(targetSpectralAxis[0],
+                             targetSpectralAxis[loglambda_count_spc - 1]);
 
   // rebin the spectrum
   spectrum.setRebinInterpMethod(m_rebinMethod);
@@ -264,9 +266,8 @@ std::shared_ptr<CTemplate> CSpectrumLogRebinning::loglambdaRebinTemplate(
   templateRebinedLog->m_igmCorrectionMeiksin = tpl->m_igmCorrectionMeiksin;
   CMask mskRebinedLog;
 
-  TFloat64Range tplLbdaRange(targetSpectralAxis[0] - 0.5 * m_logGridStep,
-                             targetSpectralAxis[loglambda_count_tpl - 1] +
-                                 0.5 * m_logGridStep);
+  TFloat64Range tplLbdaRange(targetSpectralAxis[0],
+                             targetSpectralAxis[loglambda_count_tpl - 1]);
 
   tpl->setRebinInterpMethod(m_rebinMethod);
   tpl->Rebin(tplLbdaRange, targetSpectralAxis, *templateRebinedLog,
-- 
2.43.0


From 227de423e91364165ec9523a87c181aef92f0e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 21/91] fix: log-rebinned templates misaligned to lower
 wavelengths are not reused

---
 RedshiftLibrary/src/lib/spectrum/logrebinning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index 4a105a9..1afe0ab 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -296,7 +296,7 @@ bool CSpectrumLogRebinning::checkTemplateAlignment(
   const TAxisSampleList &w = tpl->GetSpectralAxis().GetSamplesVector();
   const Float64 &lstart = lambdaRange_tpl.GetBegin();
   Int32 idx = CIndexing<Float64>::getCloserIndex(w, lstart);
-  return (lstart - w[idx]) / w[idx] <= 2E-7;
+  return std::abs(lstart - w[idx]) / w[idx] <= 2E-7;
 }
 
 TFloat64Range CSpectrumLogRebinning::logRebinTemplateCatalog(
-- 
2.43.0


From 1650f718ad80d6415a12988e2bb5909d00a20aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 22/91] fix: forget the log rebinning of the previous spectrum

---
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 6d113e1..79ddf00 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -86,6 +86,7 @@ the client has the responsibility to add these info to each spectrum
 */
 void CInputContext::RebinInputs() {
 
+  m_logRebin.clear(); // no redshift range left from a previous spectrum
   std::map<std::string, bool> fft_processing;
   m_use_LogLambaSpectrum =
       m_ParameterStore->hasToLogRebin(m_categories, fft_processing);
-- 
2.43.0


From 16bebfedcb6a8766310fc9cecdd191fd40cd5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 23/91] fix: update log-sampled templates only once all of them
 are rebinned

---
 .../src/lib/spectrum/logrebinning.cpp         | 62 ++++++++-----------
 1 file changed, 25 insertions(+), 37 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
index 1afe0ab..586e0b8 100644
--- a/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/logrebinning.cpp
@@ -335,46 +335,34 @@ TFloat64Range CSpectrumLogRebinning::logRebinTemplateCatalog(
   //  rebin only if rebinning parameters are different from previously used ones
   std::shared_ptr<CTemplateCatalog> tplcat =
       m_inputContext.GetTemplateCatalog();
-  const TStringList categoryList = tplcat->GetCategoryList();
-  tplcat->m_logsampling = true;
 
-  // check existence of already  & correctly logsampled templates
-  const Int32 ntpl = tplcat->GetTemplateCount(spectrumModel);
-  if (ntpl > 0) {
-    for (Int32 i = 0; i < ntpl; i++) {
-      std::shared_ptr<const CTemplate> tpl =
-          tplcat->GetTemplate(spectrumModel, i);
-      bool needrebinning = isRebinningNeeded(tpl, lambdaRange_tpl);
-      if (!needrebinning)
-        continue;
+  // rebin the templates which are not already & correctly logsampled
+  const Int32 ntpl = tplcat->GetTemplateCount(spectrumModel, false, false);
+  const Int32 nlogtpl = tplcat->GetTemplateCount(spectrumModel, false, true);
+  std::vector<std::pair<Int32, std::shared_ptr<CTemplate>>> rebinnedTpls;
+  for (Int32 i = 0; i < ntpl; i++) {
+    std::shared_ptr<const CTemplate> tpl =
+        i < nlogtpl ? tplcat->GetTemplate(spectrumModel, i, false, true)
+                    : nullptr;
+    if (tpl && !isRebinningNeeded(tpl, lambdaRange_tpl))
+      continue;
+    std::shared_ptr<const CTemplate> input_tpl =
+        tplcat->GetTemplate(spectrumModel, i, false, false);
+    Log.LogDetail(Formatter()
+                  << " CInputContext::RebinInputs: need to rebin the template: "
+                  << input_tpl->GetName());
+    rebinnedTpls.emplace_back(
+        i, loglambdaRebinTemplate(input_tpl, lambdaRange_tpl,
+                                  loglambda_count_tpl));
+  }
 
-      {
-        Log.LogDetail(
-            Formatter()
-            << " CInputContext::RebinInputs: need to rebin again the template: "
-            << tpl->GetName());
-        tplcat->m_logsampling = false;
-        std::shared_ptr<const CTemplate> input_tpl = tplcat->GetTemplateByName(
-            TStringList{spectrumModel}, tpl->GetName());
-        tplcat->m_logsampling = true;
-        tplcat->SetTemplate(
-            loglambdaRebinTemplate(input_tpl, lambdaRange_tpl,
-                                   loglambda_count_tpl),
-            i); // assigin the tpl pointer to a new rebined template
-      }
-    }
-  } else {
-    // no rebined templates in the category: rebin all templates
-    tplcat->m_logsampling = false;
-    const TTemplateConstRefList TplList =
-        std::const_pointer_cast<const CTemplateCatalog>(tplcat)
-            ->GetTemplateList(TStringList{spectrumModel});
-    tplcat->m_logsampling = true;
-    for (auto tpl : TplList) {
-      std::shared_ptr<CTemplate> rebinnedTpl =
-          loglambdaRebinTemplate(tpl, lambdaRange_tpl, loglambda_count_tpl);
+  // update the catalog, once all the templates have been successfully rebinned
+  tplcat->m_logsampling = true;
+  for (auto const &[i, rebinnedTpl] : rebinnedTpls) {
+    if (i < tplcat->GetTemplateCount(spectrumModel))
+      tplcat->SetTemplate(rebinnedTpl, i);
+    else
       tplcat->Add(rebinnedTpl);
-    }
   }
   tplcat->m_logsampling = false;
 
-- 
2.43.0


From 491d15be4f1678688011bb0f3283aca980921034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 24/91] fix: template fitting with absorption asked for but not
 in the fitted range

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index df1c61c..516d09d 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -86,8 +86,6 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
 
   Int32 EbmvListSize = EbmvList.size();
   Int32 MeiksinListSize = MeiksinList.size();
-  m_option_igmFastProcessing = (MeiksinListSize > 1 ? true : false);
-
   bool apply_priore =
       !logpriore.empty() && !tpl->CalzettiInitFailed() &&
       (logpriore.size() ==
@@ -110,6 +108,7 @@ TFittingIsmIgmResult COperatorTemplateFitting::BasicFit(
 
   if (opt_extinction)
     opt_extinction = igmIsInRange(currentRanges);
+  m_option_igmFastProcessing = opt_extinction && MeiksinListSize > 1;
 
   if (opt_dustFitting || opt_extinction) {
     for (Int32 spcIndex = 0; spcIndex < m_spectra.size(); spcIndex++) {
-- 
2.43.0


From d39debb1c8ac09af25735e775fd30358f590785f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 25/91] fix: sums outside the absorbed range when everything is
 absorbed

---
 RedshiftLibrary/src/lib/operator/templatefitting.cpp         | 5 +++++
 RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/templatefitting.cpp b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
index 516d09d..83ae63e 100644
--- a/RedshiftLibrary/src/lib/operator/templatefitting.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefitting.cpp
@@ -288,6 +288,11 @@ TCrossProductResult COperatorTemplateFitting::ComputeCrossProducts(
   }
 
   if (m_option_igmFastProcessing) {
+    if (kM == 0 && sumsIgmSaved == 0) { // all the samples are in IGM range
+      sumCross_IGM = sumCross;
+      sumT_IGM = sumT;
+      sumS_IGM = sumS;
+    }
     if (kM == 0) {
       m_sumCross_outsideIGM[spcIndex][kEbmv_] = sumCross - sumCross_IGM;
       m_sumT_outsideIGM[spcIndex][kEbmv_] = sumT - sumT_IGM;
diff --git a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
index 536c7e2..90f2b16 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
@@ -295,6 +295,11 @@ void COperatorTemplateFittingPhot::ComputePhotCrossProducts(
   }
 
   if (m_option_igmFastProcessing) {
+    if (kM == 0 && !sumsIgmSaved) { // all the bands are impacted by IGM
+      sumCross_IGM = sumCross_phot;
+      sumT_IGM = sumT_phot;
+      sumS_IGM = sumS_phot;
+    }
     if (kM == 0) {
       m_sumCross_outsideIGM_phot[kEbmv_] = sumCross_phot - sumCross_IGM;
       m_sumT_outsideIGM_phot[kEbmv_] = sumT_phot - sumT_IGM;
-- 
2.43.0


From e2bdf8033b58cec7929574b4dff86b5d2b59628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 26/91] fix: photometric part of the likelihood constant

---
 RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
index 90f2b16..719ca3a 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingwithphot.cpp
@@ -325,9 +325,9 @@ Float64 COperatorTemplateFittingPhot::EstimateLikelihoodCstLog() const {
   const auto &photData = spectrum->GetPhotData();
   for (const auto &b : *m_photBandCat) {
     const std::string &bandName = b.first;
-    sumLogNoise += log(photData->GetFluxErr(bandName) * m_weight);
+    sumLogNoise += log(photData->GetFluxErr(bandName) / m_weight);
   }
-  cstlog -= m_photBandCat->size() * 0.5 * log(2 * M_PI) - sumLogNoise;
+  cstlog -= m_photBandCat->size() * 0.5 * log(2 * M_PI) + sumLogNoise;
 
   return cstlog;
 }
-- 
2.43.0


From e726bc809431deb20103307bab14a1e8c7b73c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 27/91] fix: photometric values of the template fitting model
 include the amplitude

---
 RedshiftLibrary/src/lib/operator/templatefittingBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
index 0ed10ec..14d2a71 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
@@ -146,7 +146,7 @@ TPhotVal COperatorTemplateFittingBase::ComputeSpectrumModel(
                              CSpectrumSpectralAxis::nShiftForward);
   models->addModel(CSpectrum(std::move(modelwav), modelflux),
                    m_spectra[spcIndex]->getObsID());
-  return spcIndex > 0 ? TPhotVal() : getIntegratedFluxes();
+  return spcIndex > 0 ? TPhotVal() : getIntegratedFluxes(amplitude);
 }
 
 void COperatorTemplateFittingBase::RebinTemplate(
-- 
2.43.0


From 04fecc0410a992ddbe0c748b450aa3355b5746ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 28/91] fix: no absorption index reported by the FFT fit when
 nothing is absorbed

---
 RedshiftLibrary/src/lib/operator/templatefittinglog.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
index 8e83cf2..1fd2ddd 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
@@ -721,8 +721,9 @@ Int32 COperatorTemplateFittingLog::FitRangez(
   // wavelength appear
   Int32 enableIGM = m_enableIGM;
   Int32 overrideNIGMTobesaved = -1;
-  if (tplRebinedLambdaGlobal[kstart] > RESTLAMBDA_LYA && nIGM > 1) {
-    overrideNIGMTobesaved = nIGM;
+  if (tplRebinedLambdaGlobal[kstart] > RESTLAMBDA_LYA) {
+    if (nIGM > 1)
+      overrideNIGMTobesaved = nIGM;
     nIGM = 1;
     enableIGM = 0;
     Log.LogDebug(Formatter() << "FitRangez: IGM disabled, "
-- 
2.43.0


From e8dc8a619c68b88a78b30f0890379e2c98200039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 29/91] fix: FFT fit with two redshift splits between the same
 nodes

---
 RedshiftLibrary/src/lib/operator/templatefittinglog.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
index 1fd2ddd..62f4e3b 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittinglog.cpp
@@ -391,6 +391,8 @@ COperatorTemplateFittingLog::FindZRanges(const TFloat64List &redshifts) {
           break;
         Int32 iz = -1;
         TFloat64Index::getClosestLowerIndex(redshifts, z, iz);
+        if (!zsplit.empty() && zsplit.back() == iz)
+          continue; // same redshift interval as the previous split
         zsplit.push_back(iz);
       }
     }
-- 
2.43.0


From 4e9a22407f3bcbad45fb7c559edd5c1760996ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:24 +0000
Subject: [PATCH 30/91] fix: iterate the air to vacuum conversion to
 convergence

---
 RedshiftLibrary/src/lib/line/airvacuum.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/airvacuum.cpp b/RedshiftLibrary/src/lib/line/airvacuum.cpp
index 8bd8b4e..39ee852 100644
--- a/RedshiftLibrary/src/lib/line/airvacuum.cpp
+++ b/RedshiftLibrary/src/lib/line/airvacuum.cpp
@@ -86,7 +86,7 @@ TFloat64List CAirVacuum::AirToVac(const TFloat64List &waveAir) const {
   const Int32 maxiter = 30;
 
   TFloat64List waveVac = waveAir;
-  TFloat64List delta, deltaAir;
+  TFloat64List delta;
   Int32 iter = 0;
   Float64 precision;
 
@@ -98,7 +98,10 @@ TFloat64List CAirVacuum::AirToVac(const TFloat64List &waveAir) const {
 
   do {
     // delta = VacToAir(waveVac) - waveAir;
-    delta = VacToAir(waveVac);
+    // (the vacuum wavelengths may be slightly outside the checked range)
+    delta = AirRefractiveIndex(waveVac);
+    std::transform(waveVac.begin(), waveVac.end(), delta.begin(), delta.begin(),
+                   std::divides<Float64>());
     std::transform(delta.begin(), delta.end(), waveAir.begin(), delta.begin(),
                    std::minus<Float64>());
 
@@ -107,9 +110,10 @@ TFloat64List CAirVacuum::AirToVac(const TFloat64List &waveAir) const {
                    waveVac.begin(), std::minus<Float64>());
 
     precision =
-        *std::max_element(delta.begin(), delta.end(), [](Float64 x, Float64 y) {
-          return (abs(x) < abs(y));
-        });
+        std::abs(*std::max_element(delta.begin(), delta.end(),
+                                   [](Float64 x, Float64 y) {
+                                     return (std::abs(x) < std::abs(y));
+                                   }));
     if (precision <= minprecision)
       break;
 
-- 
2.43.0


From 96ca447cd3d551f2748e7e3bc728cb9553b74f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 31/91] fix: ratio range rule sets element amplitudes, not line
 amplitudes

---
 RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
index 0d1ecc0..5398580 100644
--- a/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
+++ b/RedshiftLibrary/src/lib/line/ruleOIIRatioRange.cpp
@@ -154,8 +154,16 @@ void CRuleRatioRange::Correct(CLMEltListVector &LineModelElementList) {
   constructLogMsg(m_LineA, ampA, correctedA);
   constructLogMsg(m_LineB, ampB, correctedB);
 
-  LineModelElementList.SetElementAmplitude(i1, corrected1, er1);
-  LineModelElementList.SetElementAmplitude(i2, corrected2, er2);
+  // line amplitudes to element amplitudes
+  auto const &params = LineModelElementList.getElementParam();
+  Float64 const nominal1 =
+      params[i1]->GetNominalAmplitude(i1 == iEltA ? idA : idB);
+  Float64 const nominal2 =
+      params[i2]->GetNominalAmplitude(i2 == iEltA ? idA : idB);
+  LineModelElementList.SetElementAmplitude(i1, corrected1 / nominal1,
+                                           er1 / nominal1);
+  LineModelElementList.SetElementAmplitude(i2, corrected2 / nominal2,
+                                           er2 / nominal2);
 }
 
 void CRuleRatioRange::constructLogMsg(const std::string &lineStrA, Float64 ampA,
-- 
2.43.0


From 970bb2c807a769d970346ec43d13ce7d0947b304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 32/91] fix: limiting a line amplitude leaves lines out of
 range unset

---
 RedshiftLibrary/src/lib/linemodel/elementparam.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RedshiftLibrary/src/lib/linemodel/elementparam.cpp b/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
index a65b8ba..8cab1c3 100644
--- a/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/elementparam.cpp
@@ -253,6 +253,8 @@ bool TLineModelElementParam::LimitFittedAmplitude(Int32 line_index,
     Float64 amplitudeRef =
         GetFittedAmplitude(line_index) / m_NominalAmplitudes[line_index];
     for (Int32 index = 0; index != size(); ++index) {
+      if (std::isnan(m_FittedAmplitudes[index]))
+        continue; // line outside lambda range, not fitted
       m_FittedAmplitudes[index] = m_NominalAmplitudes[index] * amplitudeRef;
     }
   }
-- 
2.43.0


From e52d1805429709c08a18400d5de3a0c8be6022c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 33/91] fix: size the amplitudes corrected by the best line
 ratio catalog

---
 RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp b/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
index ec84330..f0eb82b 100644
--- a/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
+++ b/RedshiftLibrary/src/lib/line/catalogsTplRatio.cpp
@@ -187,7 +187,7 @@ Float64 CLineCatalogsTplRatio::GetBestFit(const TInt32List &validLinesIndex,
     Float64 fit = getFitForOneCatalog(validLinesIndex, fittedAmplitudes,
                                       fittedErrors, catalog, ampsCorrected);
 
-    if (fit > 0.0 && !std::isnan(fit) && (fit < coeffMin || coeffMin == -1.)) {
+    if (fit >= 0.0 && !std::isnan(fit) && (fit < coeffMin || coeffMin == -1.)) {
       coeffMin = fit;
       bestFitAmplitudes = std::move(ampsCorrected);
       bestTplRatio = icat;
@@ -196,7 +196,7 @@ Float64 CLineCatalogsTplRatio::GetBestFit(const TInt32List &validLinesIndex,
   // coeff min normalization
   // coeffMin = sqrt(coeffMin);
   // coeffMin /= 1.0;
-  amplitudesCorrected.clear();
+  amplitudesCorrected.assign(validLinesIndex.size(), NAN);
   if (coeffMin < 0.)
     return coeffMin;
 
-- 
2.43.0


From f6cd3eedd3b4360082f52e30c98c3cbd97db9814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 34/91] fix: refuse incoherent line measurement configurations
 with an existing error code

---
 pylibamazed/python/pylibamazed/Parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Parameters.py b/pylibamazed/python/pylibamazed/Parameters.py
index cae312d..896e6a2 100644
--- a/pylibamazed/python/pylibamazed/Parameters.py
+++ b/pylibamazed/python/pylibamazed/Parameters.py
@@ -213,7 +213,7 @@ class Parameters(ParametersAccessor):
             if method == "lineModelSolve":
                 if self.get_linemeas_method(spectrum_model):
                     raise APIException(
-                        ErrorCode.INCOHERENT_CONFIG_OPTION,
+                        ErrorCode.INCOHERENT_CONFIG_OPTIONS,
                         "Cannot run LineMeasSolve from catalog when sequencial processing is selected"
                         "simultaneously."
                     )
-- 
2.43.0


From b396a39351ae9253ee8d3f319ba0321cfa4c06b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:14 +0000
Subject: [PATCH 35/91] fix: models without a redshift solver do not make a
 classification possible

---
 pylibamazed/python/pylibamazed/ProcessFlow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ProcessFlow.py b/pylibamazed/python/pylibamazed/ProcessFlow.py
index f146f5c..3b159df 100644
--- a/pylibamazed/python/pylibamazed/ProcessFlow.py
+++ b/pylibamazed/python/pylibamazed/ProcessFlow.py
@@ -267,7 +267,8 @@ class ProcessFlow:
     def all_redshift_solver_failed(self, rso):
         answer = True
         for obj in self.parameters.get_spectrum_models():
-            if not rso.has_error(obj, "redshiftSolver"):
+            if self.parameters.get_redshift_solver_method(obj) \
+                    and not rso.has_error(obj, "redshiftSolver"):
                 answer = False
                 break
         return answer
-- 
2.43.0


From 306dc916b7f02b6e4eb569099c5078136e5ee66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:34 +0000
Subject: [PATCH 36/91] fix: classify when a spectrum model has no redshift
 solver

---
 .../src/lib/method/classificationsolve.cpp           | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/src/lib/method/classificationsolve.cpp b/RedshiftLibrary/src/lib/method/classificationsolve.cpp
index 874fccb..d7526cc 100644
--- a/RedshiftLibrary/src/lib/method/classificationsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/classificationsolve.cpp
@@ -55,11 +55,15 @@ std::shared_ptr<CSolveResult> CClassificationSolve::compute() {
   std::map<std::string, bool> hasResult;
   std::string stage = "redshiftSolver";
   for (const std::string &spectrumModel : inputContext->m_categories) {
-    const std::string &method =
-        inputContext->GetParameterStore()->Get<std::string>(
-            spectrumModel + "." + stage + ".method");
+    const std::string methodPath = spectrumModel + "." + stage + ".method";
+    // a spectrum model may be processed without redshift solver
+    const std::string method =
+        inputContext->GetParameterStore()->Has<std::string>(methodPath)
+            ? inputContext->GetParameterStore()->Get<std::string>(methodPath)
+            : "";
 
-    if (resultStore->hasSolveResult(spectrumModel, stage, method)) {
+    if (!method.empty() &&
+        resultStore->hasSolveResult(spectrumModel, stage, method)) {
       results[spectrumModel] = std::dynamic_pointer_cast<const CPdfSolveResult>(
           resultStore->GetSolveResult(spectrumModel, stage, method).lock());
       hasResult[spectrumModel] = true;
-- 
2.43.0


From 10d86793f780ea8f8d17d4f299cf485765aecf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:28 +0000
Subject: [PATCH 37/91] fix: fit the continuum of a log-sampled line model on
 the log-sampled spectra

---
 .../RedshiftLibrary/operator/templatefitting.h         |  7 ++++---
 .../RedshiftLibrary/operator/templatefittingBase.h     |  3 ++-
 RedshiftLibrary/src/lib/operator/linemodel.cpp         | 10 +++++++---
 .../src/lib/operator/templatefittingBase.cpp           |  9 +++++----
 4 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/operator/templatefitting.h b/RedshiftLibrary/RedshiftLibrary/operator/templatefitting.h
index b02198a..b35f209 100644
--- a/RedshiftLibrary/RedshiftLibrary/operator/templatefitting.h
+++ b/RedshiftLibrary/RedshiftLibrary/operator/templatefitting.h
@@ -108,9 +108,10 @@ struct TFittingIsmIgmResult : TFittingResult {
 class COperatorTemplateFitting : public COperatorTemplateFittingBase {
 
 public:
-  COperatorTemplateFitting(const TFloat64List &redshifts = TFloat64List())
-      : COperatorTemplateFittingBase(redshifts), m_kStart(m_spectra.size()),
-        m_kEnd(m_spectra.size()){
+  COperatorTemplateFitting(const TFloat64List &redshifts = TFloat64List(),
+                           bool rebinnedSpectra = false)
+      : COperatorTemplateFittingBase(redshifts, rebinnedSpectra),
+        m_kStart(m_spectra.size()), m_kEnd(m_spectra.size()){
 
         };
   virtual ~COperatorTemplateFitting() = default;
diff --git a/RedshiftLibrary/RedshiftLibrary/operator/templatefittingBase.h b/RedshiftLibrary/RedshiftLibrary/operator/templatefittingBase.h
index 895254c..37f821c 100644
--- a/RedshiftLibrary/RedshiftLibrary/operator/templatefittingBase.h
+++ b/RedshiftLibrary/RedshiftLibrary/operator/templatefittingBase.h
@@ -64,7 +64,8 @@ class CModelSpectrumResult;
 class COperatorTemplateFittingBase : public COperator {
 
 public:
-  COperatorTemplateFittingBase(const TFloat64List &redshifts = TFloat64List());
+  COperatorTemplateFittingBase(const TFloat64List &redshifts = TFloat64List(),
+                               bool rebinnedSpectra = false);
 
   virtual ~COperatorTemplateFittingBase() = default;
 
diff --git a/RedshiftLibrary/src/lib/operator/linemodel.cpp b/RedshiftLibrary/src/lib/operator/linemodel.cpp
index 2557b99..ea05d10 100644
--- a/RedshiftLibrary/src/lib/operator/linemodel.cpp
+++ b/RedshiftLibrary/src/lib/operator/linemodel.cpp
@@ -86,13 +86,17 @@ void COperatorLineModel::ComputeFirstPass() {
       ps->GetScoped<std::string>("lineModel.continuumComponent");
 
   makeTFOperator(m_Redshifts);
-  if (!m_templateFittingOperator->IsFFTProcessing()) {
+  const bool useLogSampling =
+      (m_opt_continuumcomponent == "tplFit" ||
+       m_opt_continuumcomponent == "tplFitAuto") &&
+      ps->GetScoped<bool>("lineModel.useLogLambdaSampling");
+  if (!m_templateFittingOperator->IsFFTProcessing() && !useLogSampling) {
     m_fittingManager =
         std::make_shared<CLineModelFitting>(m_templateFittingOperator);
-  } else { // create a default
+  } else { // create a default, on the spectra seen by the line model
     const TFloat64List &redshifts = m_Redshifts;
     m_fittingManager = std::make_shared<CLineModelFitting>(
-        std::make_shared<COperatorTemplateFitting>(redshifts));
+        std::make_shared<COperatorTemplateFitting>(redshifts, useLogSampling));
   }
 
   // TODO: check option tplfit
diff --git a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
index 14d2a71..79899ce 100644
--- a/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
+++ b/RedshiftLibrary/src/lib/operator/templatefittingBase.cpp
@@ -47,9 +47,10 @@ using namespace NSEpic;
 using namespace std;
 
 COperatorTemplateFittingBase::COperatorTemplateFittingBase(
-    const TFloat64List &redshifts)
-    : m_spectra(Context.getSpectra()),
-      m_lambdaRanges(Context.getClampedLambdaRanges()), m_redshifts(redshifts),
+    const TFloat64List &redshifts, bool rebinnedSpectra)
+    : m_spectra(Context.getSpectra(rebinnedSpectra)),
+      m_lambdaRanges(Context.getClampedLambdaRanges(rebinnedSpectra)),
+      m_redshifts(redshifts),
       m_templateRebined_bf(m_spectra.size()),
       m_spcSpectralAxis_restframe(m_spectra.size()),
       m_mskRebined_bf(m_spectra.size()),
@@ -164,7 +165,7 @@ void COperatorTemplateFittingBase::RebinTemplate(
   // redshift in restframe the tgtSpectralAxis, i.e., division by (1+Z)
   // Shouldn't ShiftByWaveLength be static ?
   m_spcSpectralAxis_restframe[spcIndex].ShiftByWaveLength(
-      Context.getSpectra()[spcIndex]->GetSpectralAxis(), onePlusRedshift,
+      m_spectra[spcIndex]->GetSpectralAxis(), onePlusRedshift,
       CSpectrumSpectralAxis::nShiftBackward);
   m_spcSpectralAxis_restframe[spcIndex].ClampLambdaRange(
       lambdaRange_restframe, spcLambdaRange_restframe);
-- 
2.43.0


From b0c368487ce5b413bd2bf5e1b31dbf63818a2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:53 +0000
Subject: [PATCH 38/91] fix: add the templates of a directory shared by several
 spectrum models only once

---
 pylibamazed/python/pylibamazed/CalibrationLibrary.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/CalibrationLibrary.py b/pylibamazed/python/pylibamazed/CalibrationLibrary.py
index ed0ef2a..98596c6 100644
--- a/pylibamazed/python/pylibamazed/CalibrationLibrary.py
+++ b/pylibamazed/python/pylibamazed/CalibrationLibrary.py
@@ -138,6 +138,7 @@ class CalibrationLibrary:
         self.parameters = parameters
         self.calibration_dir = os.path.expanduser(calibration_dir)
         self.templates_catalogs = dict()
+        self.loaded_template_dirs = set()
         self.templates_ratios = dict()
         self.line_catalogs = dict()
         self.line_catalogs_df = dict()
@@ -213,7 +214,11 @@ class CalibrationLibrary:
         # Temporary hack before handling process flow in api
         if "all" not in self.templates_catalogs:
             self.templates_catalogs["all"] = CTemplateCatalog()
-        self._load_templates("all", template_dir)
+        # several spectrum models can share the same directory: add its templates only once
+        template_path = os.path.realpath(os.path.join(self.calibration_dir, template_dir))
+        if template_path not in self.loaded_template_dirs:
+            self._load_templates("all", template_dir)
+            self.loaded_template_dirs.add(template_path)
 
     def load_linecatalog(self, object_type, solve_method):
         line_catalog_file = os.path.join(
-- 
2.43.0


From 7dcb17f4f81ecd428fa61ae07e5f4cdd8a0caeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:20 +0000
Subject: [PATCH 39/91] fix: convolve the IGM curves again for every spectrum
 with its own LSF, over the ranges of all observations

---
 .../spectrum/fluxcorrectionmeiksin.h           |  4 ++++
 .../src/lib/processflow/inputcontext.cpp       | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h b/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
index da05e50..bddc6c6 100644
--- a/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
+++ b/RedshiftLibrary/RedshiftLibrary/spectrum/fluxcorrectionmeiksin.h
@@ -71,6 +71,10 @@ public:
   void convolveByLSF(const std::shared_ptr<const CLSF> &lsf,
                      const TFloat64Range &lambdaRange);
   bool isConvolved() { return m_convolved; };
+  void resetConvolution() {
+    m_corrections.clear();
+    m_convolved = false;
+  };
   Int32 getIdxCount() const {
     return m_rawCorrections[0].fluxcorr.size();
   }; // harcoded value from the number of cols in the ascii files
diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 79ddf00..5c2d6d3 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -212,12 +212,20 @@ void CInputContext::Init() {
        boost::combine(m_spectra, m_lambdaRanges)) {
     spectrum_ptr->ValidateSpectrum(*lambdaRange_ptr, enableInputSpcCorrect);
     spectrum_ptr->InitSpectrumContinuum(*m_ParameterStore);
-    // convolve IGM by LSF
+  }
 
-    if (!m_igmcorrectionMeiksin->isConvolved() ||
-        m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData")
-      m_igmcorrectionMeiksin->convolveByLSF(spectrum_ptr->GetLSF(),
-                                            *lambdaRange_ptr);
+  // convolve IGM by LSF (the same for all observations), over all the lambda
+  // ranges, dropping the curves convolved for a previous spectrum
+  if (!m_igmcorrectionMeiksin->isConvolved() ||
+      m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData") {
+    TFloat64Range convolRange = *m_lambdaRanges.front();
+    for (auto const &lambdaRange_ptr : m_lambdaRanges)
+      convolRange = TFloat64Range(
+          std::min(convolRange.GetBegin(), lambdaRange_ptr->GetBegin()),
+          std::max(convolRange.GetEnd(), lambdaRange_ptr->GetEnd()));
+    m_igmcorrectionMeiksin->resetConvolution();
+    m_igmcorrectionMeiksin->convolveByLSF(m_spectra.front()->GetLSF(),
+                                          convolRange);
   }
 
   // insert extinction correction objects if needed
-- 
2.43.0


From cc5884013409cd7e0fae5a6d45a70162ad40499d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 40/91] fix: keep the fitted line model when there is no
 continuum

---
 RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index 254a1b7..c6179ba 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -383,6 +383,10 @@ Float64 CLineModelFitting::fit(Float64 redshift,
 
     for (Int32 itratio = 0; itratio < ntplratio; itratio++) {
 
+      // start from the continuum and leave the fitted model afterwards
+      if (getContinuumComponent() == "noContinuum")
+        m_models->reinitAllModels();
+
       if (m_lineRatioManager->init(redshift, itratio))
         continue;
 
@@ -404,9 +408,6 @@ Float64 CLineModelFitting::fit(Float64 redshift,
 
         m_lineRatioManager->saveResults(itratio);
       }
-      if (getContinuumComponent() == "noContinuum") {
-        m_models->reinitAllModels();
-      }
     }
   }
 
-- 
2.43.0


From eb41890fbee3355831265c3a619d06382ffff08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 41/91] fix: refresh the line model of every observation before
 its chi-square

---
 RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp   | 2 +-
 RedshiftLibrary/src/lib/linemodel/tplcorrmanager.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp b/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp
index 3135228..62b8072 100644
--- a/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/rulesmanager.cpp
@@ -55,7 +55,7 @@ CRulesManager::CRulesManager(
 
 Float64 CRulesManager::computeMerit(Int32 iratio) {
   applyRules(true);
-  getModel().refreshModel();
+  refreshAllModels();
   return getLeastSquareMerit();
 }
 
diff --git a/RedshiftLibrary/src/lib/linemodel/tplcorrmanager.cpp b/RedshiftLibrary/src/lib/linemodel/tplcorrmanager.cpp
index e96e9c3..3d6fe7e 100644
--- a/RedshiftLibrary/src/lib/linemodel/tplcorrmanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/tplcorrmanager.cpp
@@ -97,7 +97,7 @@ Float64 CTplCorrManager::computeMerit(Int32 itratio) {
     m_elementsVector->SetElementAmplitude(
         elt_idx, correctedAmplitudes[iValidLine] / nominalAmp, er);
   }
-  getModel().refreshModel();
+  refreshAllModels();
   return getLeastSquareMerit();
 }
 
-- 
2.43.0


From 2c7f6ac28910c495798b1bab2ded14dcfafa69da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:39 +0000
Subject: [PATCH 42/91] fix: leave the best line ratio fitted with tplCorr

---
 .../src/lib/linemodel/linemodelfitting.cpp            | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index c6179ba..15c431d 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -367,6 +367,7 @@ Float64 CLineModelFitting::fit(Float64 redshift,
       redshift); // multiple fitting steps for lineRatioType=tplratio/tplratio
   Int32 nContinuum = 1;
   Int32 savedIdxContinuumFitted = -1; // for continuum tplfit
+  Int32 savedIdxRatioFitted = undefIdx; // for tplCorr
   if (isContinuumComponentTplfitxx() && !m_forcedisableMultipleContinuumfit)
     nContinuum = m_opt_fitcontinuum_maxN;
   // 'on the fly' initialization
@@ -400,6 +401,7 @@ Float64 CLineModelFitting::fit(Float64 redshift,
         bestMerit = _merit;
         bestMeritPrior = _meritprior;
         savedIdxContinuumFitted = k;
+        savedIdxRatioFitted = itratio;
         Int32 modelSolutionLevel =
             m_lineRatioType == "rules" ? Int32(enableLogging) : 0;
         modelSolution = GetModelSolution(modelSolutionLevel);
@@ -422,6 +424,15 @@ Float64 CLineModelFitting::fit(Float64 redshift,
       }
     }
   }
+  if (m_lineRatioType == "tplCorr" && savedIdxRatioFitted != undefIdx) {
+    // leave the best ratio fitted, not the last one
+    if (getContinuumComponent() == "noContinuum")
+      m_models->reinitAllModels();
+    m_lineRatioManager->init(redshift, savedIdxRatioFitted);
+    m_fitter->fit(redshift);
+    m_lineRatioManager->computeMerit(savedIdxRatioFitted);
+    modelSolution = GetModelSolution(Int32(enableLogging));
+  }
   if (m_lineRatioType == "tplRatio") {
     m_lineRatioManager->resetToBestRatio(redshift);
     Int32 modelSolutionLevel = Int32(enableLogging);
-- 
2.43.0


From 39df3ca2adfbc902676a6800eb191098884d6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:40 +0000
Subject: [PATCH 43/91] fix: prepare the line supports of a reloaded line model
 solution

---
 RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index 15c431d..3ac6711 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -788,14 +788,12 @@ void CLineModelFitting::LoadModelSolution(
   for (auto &spcIndex : m_spectraIndex) {
     const CSpectrumSpectralAxis &spectralAxis = getSpectrum().GetSpectralAxis();
     for (Int32 iElts = 0; iElts < getElementList().size(); iElts++) {
-      getElementList()[iElts]->computeOutsideLambdaRange();
-
-      if (!getElementList()[iElts]->IsOutsideLambdaRange())
-
-        getElementList()[iElts]->prepareSupport(
-            spectralAxis, modelSolution.Redshift, getLambdaRange());
+      // the support may be that of another redshift
+      getElementList()[iElts]->prepareSupport(
+          spectralAxis, modelSolution.Redshift, getLambdaRange());
     }
   }
+  m_ElementsVector->setGlobalOutsideLambdaRangeFromSpectra();
 
   return;
 }
-- 
2.43.0


From 0d4e64a0551f40fe6ae07650507b3ec6cf9cf553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:57 +0000
Subject: [PATCH 44/91] fix: look for the wavelength range in the filtered
 spectrum

---
 .../python/pylibamazed/AbstractSpectrumReader.py       | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
index c3ccbba..29e7e61 100644
--- a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
+++ b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
@@ -266,16 +266,18 @@ class AbstractSpectrumReader:
 
     def _check_wavelengths(self):
         """Looks if lambda range specified in parameters is contained in spectrum range."""
-        for obs_id in self.waves.keys():
+        filtered_waves = {obs_id: np.array(self._editable_waves(obs_id)) for obs_id in self.waves.keys()}
+        if self.parameters.get_multiobs_method() == "merge":
+            filtered_waves = {"": np.concatenate(list(filtered_waves.values()))}
+        for obs_id, obs_waves in filtered_waves.items():
             [params_lambda_min, params_lambda_max] = self.parameters.get_lambda_range(obs_id)
-            obs_waves = np.array(self.waves.get(obs_id))
             if obs_waves.size == 0:
                 raise APIException(
                     ErrorCode.INVALID_SPECTRUM,
                     "Filtered spectrum is empty"
                 )
-            spectrum_lambda_min = obs_waves[0]
-            spectrum_lambda_max = obs_waves[-1]
+            spectrum_lambda_min = obs_waves.min()
+            spectrum_lambda_max = obs_waves.max()
 
             params_lambda_range_in_spectrum_lambdas = spectrum_lambda_min <= params_lambda_min \
                 and spectrum_lambda_max >= params_lambda_max
-- 
2.43.0


From 759de05fdfc54b8eaad3d83e7c7bcd7d97599444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:57 +0000
Subject: [PATCH 45/91] fix: accept the documented column names in spectrum
 filters

---
 pylibamazed/python/pylibamazed/FilterLoader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/FilterLoader.py b/pylibamazed/python/pylibamazed/FilterLoader.py
index 002d4ad..41857fd 100644
--- a/pylibamazed/python/pylibamazed/FilterLoader.py
+++ b/pylibamazed/python/pylibamazed/FilterLoader.py
@@ -80,10 +80,13 @@ class ParamJsonFilterLoader(AbstractFilterLoader):
         super().__init__(FitlerItemClass)
 
     def get_filters(self, params: Parameters) -> FilterList:
+        # names of the mandatory columns in parameters and in the spectrum reader
+        columns = {"Wave": "waves", "Flux": "fluxes", "Err": "errors"}
         filters: List[FilterItem] = []
         json_filters = params.get_filters()
         if json_filters is None:
             return None
         for filter in json_filters:
-            filters.append(self.FilterItemClass(filter["key"], filter["instruction"], filter["value"]))
+            filters.append(self.FilterItemClass(
+                columns.get(filter["key"], filter["key"]), filter["instruction"], filter["value"]))
         return FilterList(filters)
-- 
2.43.0


From 19039e028b714333392b37ac91bfd59513e77f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:57 +0000
Subject: [PATCH 46/91] fix: allow the documented not-xor filter instruction

---
 pylibamazed/python/pylibamazed/Filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/Filter.py b/pylibamazed/python/pylibamazed/Filter.py
index 868da36..eec4be5 100644
--- a/pylibamazed/python/pylibamazed/Filter.py
+++ b/pylibamazed/python/pylibamazed/Filter.py
@@ -53,7 +53,7 @@ class FilterItem:
     - value: with which value we want to make the comparison
     """
 
-    allowed_instructions = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^"]
+    allowed_instructions = ["<", ">", "<=", ">=", "=", "in", "~in", "!=", "&", "~&", "0&", "^", "~^"]
 
     def __init__(self, key: str, instruction: str, value: any):
         self.check_instruction(instruction)
-- 
2.43.0


From ab77ddb8830740135d60b6b4aff90bec627192cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:57 +0000
Subject: [PATCH 47/91] fix: refuse spectrum columns of different lengths and
 match columns by position

---
 .../python/pylibamazed/AbstractSpectrumReader.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
index 29e7e61..d7ea9a9 100644
--- a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
+++ b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
@@ -302,7 +302,13 @@ class AbstractSpectrumReader:
 
     def _sizes_are_consistent(self) -> bool:
         expected_size = self.waves.size()
-        return all(container.size() == expected_size for container in self._all_containers())
+        return all(
+            container.size() == expected_size for container in self._all_containers()
+        ) and all(
+            len(container.get(obs_id)) == len(self.waves.get(obs_id))
+            for container in self._all_containers()
+            for obs_id in self.waves.keys() if obs_id in container.keys()
+        )
 
     def _obs_ids_are_consistent(self) -> bool:
         """Checks that all keys from waves conatiner are present in all other containers.
@@ -454,14 +460,14 @@ class AbstractSpectrumReader:
         for obs_id in self.waves.keys():
             # Creates dataframe with mandatory columns
             full_spectrum = pd.DataFrame({
-                "waves": self.waves.get(obs_id),
-                "fluxes": self.fluxes.get(obs_id),
-                "errors": self.errors.get(obs_id),
+                "waves": np.asarray(self.waves.get(obs_id)),
+                "fluxes": np.asarray(self.fluxes.get(obs_id)),
+                "errors": np.asarray(self.errors.get(obs_id)),
             })
             for col_key in self.others:
                 obs_others = self.others[col_key].get(obs_id)
                 if obs_others is not None:
-                    full_spectrum[col_key] = obs_others
+                    full_spectrum[col_key] = np.asarray(obs_others)
 
             self.editable_spectra.append(full_spectrum, obs_id)
 
-- 
2.43.0


From bb5fd95149176034b49dc6411be658cd0d51cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:57 +0000
Subject: [PATCH 48/91] fix: use the observation id in the ASCII reader

---
 pylibamazed/python/pylibamazed/ASCIISpectrumReader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ASCIISpectrumReader.py b/pylibamazed/python/pylibamazed/ASCIISpectrumReader.py
index 58ad45f..264b276 100644
--- a/pylibamazed/python/pylibamazed/ASCIISpectrumReader.py
+++ b/pylibamazed/python/pylibamazed/ASCIISpectrumReader.py
@@ -67,13 +67,13 @@ class ASCIISpectrumReader(AbstractSpectrumReader):
     """
 
     def load_wave(self, spectrum, obs_id=""):
-        self.waves.append(spectrum.wave)
+        self.waves.append(spectrum.wave, obs_id)
 
     def load_flux(self, spectrum, obs_id=""):
-        self.fluxes.append(spectrum.flux)
+        self.fluxes.append(spectrum.flux, obs_id)
 
     def load_error(self, spectrum, obs_id=""):
-        self.errors.append(spectrum.err)
+        self.errors.append(spectrum.err, obs_id)
 
     def load_lsf(self, spectrum, obs_id=""):
         pass
-- 
2.43.0


From a56436d83217883ea3395059c945a2da9bb139bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:57 +0000
Subject: [PATCH 49/91] fix: refuse observations that do not match those of the
 parameters

---
 pylibamazed/python/pylibamazed/AbstractSpectrumReader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
index d7ea9a9..0ae26f1 100644
--- a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
+++ b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
@@ -241,6 +241,14 @@ class AbstractSpectrumReader:
                 "Names of error, wavelength, flux and other arrays should be the same"
             )
 
+        if self.parameters.get_multiobs_method() == "full" \
+                and set(self.waves.keys()) != set(self.parameters.get_observation_ids()):
+            raise APIException(
+                ErrorCode.INVALID_NAME,
+                f"Observations {list(self.waves.keys())} are not those of the parameters: "
+                f"{self.parameters.get_observation_ids()}"
+            )
+
         self._merge_spectrum_in_dataframe()
         self._apply_filters(self._get_filters())
         self._check_wavelengths()
-- 
2.43.0


From 071aa19acb7d4a5e93d728f40df0b662830637fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 50/91] fix: accept the component noContinuum in template
 fitting

---
 RedshiftLibrary/src/lib/method/templatefittingsolve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
index 9c776a2..12e02d5 100644
--- a/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
+++ b/RedshiftLibrary/src/lib/method/templatefittingsolve.cpp
@@ -128,7 +128,7 @@ std::shared_ptr<CSolveResult> CTemplateFittingSolve::compute() {
   EType _type = nType_raw;
   if (opt_spcComponent == "raw") {
     _type = nType_raw;
-  } else if (opt_spcComponent == "nocontinuum") {
+  } else if (opt_spcComponent == "noContinuum") {
     _type = nType_noContinuum;
     scopeStr = "templatefitting_nocontinuum";
   } else if (opt_spcComponent == "continuum") {
-- 
2.43.0


From c8856e83633dbe4cc157b39c6f4a7efb045af5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 51/91] fix: read the continuum fit settings only when the
 continuum is fitted

---
 RedshiftLibrary/src/lib/linemodel/continuummanager.cpp | 2 +-
 RedshiftLibrary/src/lib/operator/linemodel.cpp         | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp b/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp
index 8b8a78c..598b37d 100644
--- a/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp
@@ -29,7 +29,7 @@ CContinuumManager::CContinuumManager(const CSpcModelVectorPtr &models,
   std::shared_ptr<const CParameterStore> ps = Context.GetParameterStore();
   setContinuumComponent(ps->GetScoped<std::string>("continuumComponent"));
 
-  if (m_ContinuumComponent != "noContinuum") {
+  if (isContinuumComponentTplfitxx()) {
     m_opt_fitcontinuum_neg_threshold =
         ps->GetScoped<Float64>("continuumFit.negativeThreshold");
     m_opt_fitcontinuum_null_amp_threshold =
diff --git a/RedshiftLibrary/src/lib/operator/linemodel.cpp b/RedshiftLibrary/src/lib/operator/linemodel.cpp
index ea05d10..24cb128 100644
--- a/RedshiftLibrary/src/lib/operator/linemodel.cpp
+++ b/RedshiftLibrary/src/lib/operator/linemodel.cpp
@@ -112,8 +112,10 @@ void COperatorLineModel::ComputeFirstPass() {
 
   // commom between firstpass and secondpass processes
   // TODO not pretty, maybe move fitcontinuum_prior help building to operator
-  m_phelperContinuum =
-      m_fittingManager->getContinuumManager()->SetFitContinuum_PriorHelper();
+  if (m_opt_continuumcomponent == "tplFit" ||
+      m_opt_continuumcomponent == "tplFitAuto")
+    m_phelperContinuum =
+        m_fittingManager->getContinuumManager()->SetFitContinuum_PriorHelper();
 
   Log.LogInfo("  Operator-Linemodel: start processing");
 
-- 
2.43.0


From 29de011a6890e9458c990ac15367e6db4ade8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 52/91] fix: know the air-vacuum conversion peckreeder1972 by
 its documented name

---
 RedshiftLibrary/src/lib/line/airvacuum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/airvacuum.cpp b/RedshiftLibrary/src/lib/line/airvacuum.cpp
index 39ee852..8c94d70 100644
--- a/RedshiftLibrary/src/lib/line/airvacuum.cpp
+++ b/RedshiftLibrary/src/lib/line/airvacuum.cpp
@@ -51,7 +51,8 @@ CAirVacuumConverter::Get(const std::string &converterName) {
     return (std::make_shared<CAirVacEdlen1953>());
   else if (converterName == "edlen1966")
     return (std::make_shared<CAirVacEdlen1966>());
-  else if (converterName == "PeckReeder1972")
+  else if (converterName == "peckreeder1972" ||
+           converterName == "PeckReeder1972")
     return (std::make_shared<CAirVacPeckReeder1972>());
   else if (converterName == "ciddor1996")
     return (std::make_shared<CAirVacCiddor1996>());
-- 
2.43.0


From df66b3d4caa6bafb820b6325304e89fa14e622e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:18 +0000
Subject: [PATCH 53/91] fix: give the rule balmerSingle one name

---
 RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp   | 2 +-
 pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp b/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp
index fd4aae6..5ec6cfe 100644
--- a/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp
+++ b/RedshiftLibrary/src/lib/line/rule2singlelinesamplitude.cpp
@@ -52,7 +52,7 @@ CRule2SingleLinesAmplitude::CRule2SingleLinesAmplitude()
       m_Coefficient(0) {}
 
 void CRule2SingleLinesAmplitude::SetUp(bool EnabledArgument, ...) {
-  Name = "balmersingle";
+  Name = "balmerSingle";
   Enabled = EnabledArgument;
   va_list Arguments;
   va_start(Arguments, EnabledArgument);
diff --git a/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv b/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv
index e8b5741..65cc198 100644
--- a/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv
+++ b/pylibamazed/auxdir/pylibamazed/rename_params_v1_to_treed.csv
@@ -20,7 +20,7 @@ nocontinuum,noContinuum,value,value
 onlyextrema,onlyextrema,value,value
 bestchi2,bestChi2,value,value
 strongweak,strongWeak,value,value
-balmerSingle,balmerSingle,value,value
+balmersingle,balmerSingle,value,value
 ratiorange,ratioRange,value,value
 GaussianConstantWidth,gaussianConstantWidth,value,value
 GaussianConstantResolution,gaussianConstantResolution,value,value
-- 
2.43.0


From 9d18123e0881d469135bea8ee563e7b0b3fb1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 54/91] fix: do not share the default continuum removal between
 documents

---
 pylibamazed/python/pylibamazed/ParametersExtender.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersExtender.py b/pylibamazed/python/pylibamazed/ParametersExtender.py
index a9948eb..3635827 100644
--- a/pylibamazed/python/pylibamazed/ParametersExtender.py
+++ b/pylibamazed/python/pylibamazed/ParametersExtender.py
@@ -81,14 +81,15 @@ class ParametersExtender:
     def _extend_continuum_removal(self):
         is_present = self.checker.continuum_removal_presence_condition()
         if not is_present:
-            self.extended_accessor.parameters["continuumRemoval"] = self.default_continuum_removal_section
+            self.extended_accessor.parameters["continuumRemoval"] = \
+                copy.deepcopy(self.default_continuum_removal_section)
 
     def _extend_template_catalog_continuum_removal(self):
         is_present = self.checker.template_catalog_continuum_removal_presence_condition()
         if not is_present:
             self.extended_accessor.get_template_catalog_section(True)
             self.extended_accessor.get_template_catalog_section()["continuumRemoval"] = \
-                self.default_continuum_removal_section
+                copy.deepcopy(self.default_continuum_removal_section)
 
     def _extend_continuum_reestimation(self):
         for spectrum_model in self.initial_accessor.get_spectrum_models([]):
-- 
2.43.0


From a96e3e1a2019cd272aa2064c20e53ad76b95cf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 55/91] fix: give continuumReestimation its default with the
 hybrid fitting method

---
 pylibamazed/python/pylibamazed/ParametersExtender.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersExtender.py b/pylibamazed/python/pylibamazed/ParametersExtender.py
index 3635827..a49cb56 100644
--- a/pylibamazed/python/pylibamazed/ParametersExtender.py
+++ b/pylibamazed/python/pylibamazed/ParametersExtender.py
@@ -93,7 +93,8 @@ class ParametersExtender:
 
     def _extend_continuum_reestimation(self):
         for spectrum_model in self.initial_accessor.get_spectrum_models([]):
-            is_present = self.checker.linemodelsolve_continuumreestimation_presence_condition(spectrum_model)
+            is_present = self.checker.linemodelsolve_continuumreestimation_presence_condition(spectrum_model) \
+                and self.initial_accessor.get_linemodel_continuum_reestimation(spectrum_model) is not None
             if not is_present:
                 self.extended_accessor.get_linemodel_solve_linemodel_section(True)
                 self.extended_accessor.get_linemodel_solve_linemodel_section(spectrum_model, True)[
-- 
2.43.0


From 01df0a86a0c908b29dcfed71afaf047bb9346d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 56/91] fix: accept models without template directory when no
 template is needed

---
 pylibamazed/python/pylibamazed/CalibrationLibrary.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/CalibrationLibrary.py b/pylibamazed/python/pylibamazed/CalibrationLibrary.py
index 98596c6..622df4f 100644
--- a/pylibamazed/python/pylibamazed/CalibrationLibrary.py
+++ b/pylibamazed/python/pylibamazed/CalibrationLibrary.py
@@ -205,15 +205,18 @@ class CalibrationLibrary:
                 self.templates_catalogs[object_type].Add(template)
 
     def load_templates_catalog(self, object_type):
+        # "all": temporary hack before handling process flow in api
         self.templates_catalogs[object_type] = CTemplateCatalog()
         template_dir = self.parameters.get_template_dir(object_type)
+        if "all" not in self.templates_catalogs:
+            self.templates_catalogs["all"] = CTemplateCatalog()
+        if template_dir is None:
+            # nothing needs templates for this spectrum model (see ParametersChecker)
+            return
 
         zlog.LogInfo(f"Loading {object_type} templates: {template_dir}")
 
         self._load_templates(object_type, template_dir)
-        # Temporary hack before handling process flow in api
-        if "all" not in self.templates_catalogs:
-            self.templates_catalogs["all"] = CTemplateCatalog()
         # several spectrum models can share the same directory: add its templates only once
         template_path = os.path.realpath(os.path.join(self.calibration_dir, template_dir))
         if template_path not in self.loaded_template_dirs:
-- 
2.43.0


From 6a593860d05b6b1d12e350a47489b465c6495c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:10 +0000
Subject: [PATCH 57/91] fix: check sourceSize for the LSF
 gaussianNISPVSSPSF201707

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index bec4140..3962a7f 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -178,7 +178,7 @@ class ParametersChecker:
 
     def _check_GaussianNISPSIM_lsf_type(self):
         self._check_dependant_parameter_presence(
-            self.accessor.get_lsf_type() == "GaussianNISPSIM201707",
+            self.accessor.get_lsf_type() in ["gaussianNISPVSSPSF201707", "GaussianNISPSIM201707"],
             self.accessor.get_lsf_sourcesize() is not None,
             "lsf sourceSize",
             "lsf sourceSize"
-- 
2.43.0


From afba6423582ac26f8b42fc5261369c554bf13188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 58/91] fix: do not take medianEvenReflection false for missing

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 3962a7f..019184f 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -270,7 +270,7 @@ class ParametersChecker:
     def _check_IrregularSamplingMedian_kernel_width(self, fromTemplateCatalog=False):
         self._check_dependant_parameter_presence(
             self.median_kernel_presence_condition(fromTemplateCatalog),
-            self.accessor.get_continuum_removal_median_kernel_width(fromTemplateCatalog),
+            self.accessor.get_continuum_removal_median_kernel_width(fromTemplateCatalog) is not None,
             "continuumRemoval medianKernelWidth",
             "continuumRemoval medianKernelWidth"
         )
@@ -278,7 +278,7 @@ class ParametersChecker:
     def _check_IrregularSamplingMedian_kernel_reflection(self, fromTemplateCatalog=False):
         self._check_dependant_parameter_presence(
             self.median_kernel_presence_condition(fromTemplateCatalog),
-            self.accessor.get_continuum_median_kernel_reflection(fromTemplateCatalog),
+            self.accessor.get_continuum_median_kernel_reflection(fromTemplateCatalog) is not None,
             "continuumRemoval medianEvenReflection",
             "continuumRemoval medianEvenReflection"
         )
-- 
2.43.0


From d799c741ca124b8c2bc7d926d5fd06a415f58545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:11 +0000
Subject: [PATCH 59/91] fix: do not require the continuum removal when the
 continuum is not reestimated

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 019184f..1ccfd6a 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -251,7 +251,7 @@ class ParametersChecker:
             if template_fitting_spectrum_component not in [None, "raw"] \
                 or template_combination_spectrum_component not in [None, "raw"] \
                     or linemodel_continuum_component in ["fromSpectrum", "tplFitAuto"] \
-                    or linemodel_continuum_reestimation not in [None, "never"]:
+                    or linemodel_continuum_reestimation not in [None, "no", "never"]:
                 continuum_removal_necessity = True
         return continuum_removal_necessity
 
-- 
2.43.0


From a14185d70310186fac682453ea65cc99c07d17df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 60/91] fix: give the version 2 schema the names the library
 reads

---
 .../pylibamazed/jsonschema-v2/general.json    |   2 +-
 .../jsonschema-v2/line_model_priors.json      |   4 +-
 .../jsonschema-v2/line_model_solve.json       |  15 +-
 .../jsonschema-v2/linemeas_solver.json        | 314 +++++++++---------
 .../auxdir/pylibamazed/jsonschema-v2/lsf.json |   2 +-
 .../pylibamazed/jsonschema-v2/lya_fit.json    |   4 +-
 .../jsonschema-v2/reliability_solver.json     |  11 +-
 .../jsonschema-v2/spectrum_model.json         |   7 +-
 .../jsonschema-v2/template_fitting_solve.json |   2 +-
 9 files changed, 189 insertions(+), 172 deletions(-)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json
index 1eeb56d..6225bf7 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/general.json
@@ -55,7 +55,7 @@
       ],
       "items": false
     },
-    "airvacuumMethod": {
+    "airVacuumMethod": {
       "type": "string",
       "enum": [
         "",
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json
index e0f4d04..80a51a4 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_priors.json
@@ -7,7 +7,7 @@
     "betaA",
     "betaTE",
     "betaZ",
-    "catalogDirpath"
+    "catalogDirPath"
   ],
   "additionalProperties": false,
   "properties": {
@@ -26,7 +26,7 @@
       "title": "Beta Z",
       "description": "Weight to redshift prior (redshift bins), the chi2 penalty is thus `-2 betaZ log(P(z))`"
     },
-    "catalogDirpath": {
+    "catalogDirPath": {
       "type": "string",
       "title": "Catalog directory path",
       "description": "Absolute path to the calibration file containing the parameters probability, empty string unset all priors"
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
index e8614a0..61e1461 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
@@ -25,16 +25,15 @@
         "lineRatioType",
         "continuumComponent",
         "strongLinesPrior",
-        "euclidNHaemittersStrength",
+        "nOfZPriorStrength",
         "pdfCombination",
         "nSigmaSupport",
-        "haPrior",
+        "hAlphaPrior",
         "extremaCountB",
         "enablePhotometry",
         "lya",
         "firstPass",
         "secondPassLcFittingMethod",
-        "secondPass",
         "pdf",
         "tplRatio"
       ],
@@ -226,7 +225,7 @@
           "title": "Strong lines prior",
           "description": "\n * **-1**: no prior \n * **else**: use this value (positive below 1) as a low probability when no strong line is measured (the measured amplitude is s>0) & probability is set to 1 when a strong line is observed"
         },
-        "euclidNHaemittersStrength": {
+        "nOfZPriorStrength": {
           "type": "number",
           "title": "Pozetti N(z) prior",
           "description": "Strength (beta) of the penalty. The chi2 penalty is -2 beta log(P(z)). No penalty for a negative or zero values"
@@ -245,7 +244,7 @@
           "title": "Support size",
           "description": "Full (not half) size of each line support in sigma of the gaussian profile "
         },
-        "haPrior": {
+        "hAlphaPrior": {
           "type": "number",
           "title": "Ha prior",
           "description": "\n * **-1**: no prior \n * **positive below 1**: low multiplicative prior probability (posterior penalization) when Ha line is not measured (the measured amplitude is <=0 or is not the strongest measured line) \n * **else**: prior probability is set to 1 when Ha line is strongest measured line, typical value between 1e-1 to 1e-5"
@@ -283,8 +282,12 @@
           "$ref": "line_model_first_pass.json"
         },
         "secondPassLcFittingMethod": {
-          "type": "string",
+          "type": [
+            "number",
+            "string"
+          ],
           "enum": [
+            -1,
             "-1",
             "svdlc",
             "svdlcp2",
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json
index 6fca5bb..9d80423 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/linemeas_solver.json
@@ -5,162 +5,180 @@
   "type": "object",
   "additionalProperties": false,
   "required": [
-    "lineModel"
+    "method",
+    "lineMeasSolve"
   ],
   "properties": {
-    "lineModel": {
-      "required": [
-        "continuumComponent",
-        "improveBalmerFit",
-        "lineTypeFilter",
-        "lineForceFilter",
-        "polynomialDegree",
-        "lya",
-        "lineCatalog",
-        "nSigmaSupport",
-        "lineWidthType",
-        "fittingMethod",
-        "velocityFit",
-        "lbdaOffsetFit",
-        "ampOffsetFit",
-        "lineRatioType"
+    "method": {
+      "type": "string",
+      "enum": [
+        "lineMeasSolve"
       ],
+      "title": "Method",
+      "description": "Name of the method to apply for line measurement."
+    },
+    "lineMeasSolve": {
       "type": "object",
       "additionalProperties": false,
+      "required": [
+        "lineModel"
+      ],
       "properties": {
-        "continuumComponent": {
-          "type": "string",
-          "enum": [
-            "fromSpectrum",
-            "tplFit",
-            "tplFitAuto",
-            "noContinuum"
-          ],
-          "title": "Continuum processing method",
-          "description": "Selects the method for processing the continuum: \n * **fromSpectrum**: remove an estimated continuum (the continuum estmation is then tuned via continuumRemoval parameters). The redshift is thus only estimated from the lines \n * **tplfit** : fit a set of redshifted template (aka \"fullmodel\" ie contiuum model + line model) \n * **tplfitauto** : same than \"tplFit\", but switch to \"fromSpectrum\" if the fitted continuum amplitude is found significantly negative (at all z)"
-        },
-        "improveBalmerFit": {
-          "type": "boolean",
-          "title": "Wether to improve Balmer fit",
-          "description": "Used only if `lineRatioType=rules`"
-        },
-        "lineTypeFilter": {
-          "type": "string",
-          "enum": [
-            "E",
-            "A",
-            "no"
-          ],
-          "title": "Filter on lines type",
-          "description": "Restrictions on the type of line to fit: \n * **E**: Emission \n * **A**: Absorption \n * **no**: fit all"
-        },
-        "lineForceFilter": {
-          "type": "string",
-          "enum": [
-            "W",
-            "S",
-            "no"
-          ],
-          "title": "Filter on lines force",
-          "description": "Restrict the strength category of lines to fit: \n * **W**: Weak \n * **S**: strong \n * **no**: fit all"
-        },
-        "polynomialDegree": {
-          "type": "integer",
-          "title": "Polynomial degree",
-          "description": "Value between 0 and 2, referring to the polynom degree to represent the continuum below lines. Useful only if ampOffsetFit=True."
-        },
-        "lya": {
-          "$ref": "lya_fit.json"
-        },
-        "lineCatalog": {
-          "type": "string",
-          "title": "Line catalog path",
-          "description": "Path to line catalog file"
-        },
-        "nSigmaSupport": {
-          "type": "number",
-          "title": "Support size",
-          "description": "Full (not half) size of each line support in sigma of the gaussian profile."
-        },
-        "lineWidthType": {
-          "type": "string",
-          "enum": [
-            "combined",
-            "instrumentDriven",
-            "velocityDriven"
-          ],
-          "title": "Line width type",
-          "description": "Selects which component are included in the line width \n * **instrumentDriven**: only instrument resolution (no intrinsic line width due to velocity dispersion) \n * **velocityDriven**: only line velocity dispersion (assuming negligible instrument PSF) \n * **combined**: both instrument resolution and velocity dispersion"
-        },
-        "fittingMethod": {
-          "type": "string",
-          "enum": [
-            "individual",
-            "svd",
-            "hybrid",
-            "lbfgsb"
-          ],
-          "title": "Line fitting method",
-          "description": "Line fitting method: \n* **individual**: independant fit of all lines amplitude \n * **svd**: joint fit of all lines amplitude (sparsity not exploited) \n * **hybrid**: svd only for groups of lines sharings pixels (eg. Ha and N2), independant fit for the other lines \n * **lbfgsb**: like hybrid but using non-linear least-square fit instead of svd to fit jointly the 3 Gaussian parameters (amplitude, position and width). Based on l-bfgs-b algorithm (bounded gradient descent). \n Note: it is not relevant when lineRatioType = tplRatio, because one set of ratio corresponds to a unique amplitude fitted for all lines, and thus it is using the individual fitter"
-        },
-        "velocityFit": {
-          "type": "boolean",
-          "title": "Wether to fit line width",
-          "discription": "Wether 2nd pass includes line width fitting. Used only if `fittingMethod=lbfgsb` (for linemeas)."
-        },
-        "emVelocityFitMin": {
-          "type": "number",
-          "title": "Emission lines velocity min",
-          "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for emission lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "emVelocityFitMax": {
-          "type": "number",
-          "title": "Emission lines velocity max",
-          "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for emission lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "absVelocityFitMin": {
-          "type": "number",
-          "title": "Aborption lines velocity min",
-          "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for absorption lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "absVelocityFitMax": {
-          "type": "number",
-          "title": "Aborption lines velocity max",
-          "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for absorption lines. To specify only if fittingMethod is lbfgsb."
-        },
-        "lbdaOffsetFit": {
-          "type": "boolean",
-          "title": "Wether to fit wavelength offset",
-          "description": "Wether to include wavelength offset fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
-        },
-        "ampOffsetFit": {
-          "type": "boolean",
-          "title": "Wether to fit amplitude offset",
-          "description": "Wether to use line's polynomial offset in the profile fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
-        },
-        "lineRatioType": {
-          "type": "string",
-          "enum": [
-            "tplRatio",
-            "rules",
-            "tplCorr"
-          ],
-          "title": "Line ratio type",
-          "description": "\n * **rules**: fit all lines amplitude independently with eventualy some constraints (see rules parameter below) \n * **tplRatio**: fit one amplitude with fixed line ratios coming from template-ratio catalogs"
-        },
-        "rules": {
-          "type": "string",
-          "enum": [
-            "all",
-            "no",
-            "strongWeak",
-            "balmerSingle",
-            "ratioRange"
+        "lineModel": {
+          "required": [
+            "continuumComponent",
+            "improveBalmerFit",
+            "lineTypeFilter",
+            "lineForceFilter",
+            "polynomialDegree",
+            "lya",
+            "lineCatalog",
+            "nSigmaSupport",
+            "lineWidthType",
+            "fittingMethod",
+            "velocityFit",
+            "lbdaOffsetFit",
+            "ampOffsetFit",
+            "lineRatioType"
           ],
-          "title": "Rules",
-          "description": "Selects used rules (only for `lineRatioType=rules`)"
+          "type": "object",
+          "additionalProperties": false,
+          "properties": {
+            "continuumComponent": {
+              "type": "string",
+              "enum": [
+                "fromSpectrum",
+                "tplFit",
+                "tplFitAuto",
+                "noContinuum"
+              ],
+              "title": "Continuum processing method",
+              "description": "Selects the method for processing the continuum: \n * **fromSpectrum**: remove an estimated continuum (the continuum estmation is then tuned via continuumRemoval parameters). The redshift is thus only estimated from the lines \n * **tplfit** : fit a set of redshifted template (aka \"fullmodel\" ie contiuum model + line model) \n * **tplfitauto** : same than \"tplFit\", but switch to \"fromSpectrum\" if the fitted continuum amplitude is found significantly negative (at all z)"
+            },
+            "improveBalmerFit": {
+              "type": "boolean",
+              "title": "Wether to improve Balmer fit",
+              "description": "Used only if `lineRatioType=rules`"
+            },
+            "lineTypeFilter": {
+              "type": "string",
+              "enum": [
+                "E",
+                "A",
+                "no"
+              ],
+              "title": "Filter on lines type",
+              "description": "Restrictions on the type of line to fit: \n * **E**: Emission \n * **A**: Absorption \n * **no**: fit all"
+            },
+            "lineForceFilter": {
+              "type": "string",
+              "enum": [
+                "W",
+                "S",
+                "no"
+              ],
+              "title": "Filter on lines force",
+              "description": "Restrict the strength category of lines to fit: \n * **W**: Weak \n * **S**: strong \n * **no**: fit all"
+            },
+            "polynomialDegree": {
+              "type": "integer",
+              "title": "Polynomial degree",
+              "description": "Value between 0 and 2, referring to the polynom degree to represent the continuum below lines. Useful only if ampOffsetFit=True."
+            },
+            "lya": {
+              "$ref": "lya_fit.json"
+            },
+            "lineCatalog": {
+              "type": "string",
+              "title": "Line catalog path",
+              "description": "Path to line catalog file"
+            },
+            "nSigmaSupport": {
+              "type": "number",
+              "title": "Support size",
+              "description": "Full (not half) size of each line support in sigma of the gaussian profile."
+            },
+            "lineWidthType": {
+              "type": "string",
+              "enum": [
+                "combined",
+                "instrumentDriven",
+                "velocityDriven"
+              ],
+              "title": "Line width type",
+              "description": "Selects which component are included in the line width \n * **instrumentDriven**: only instrument resolution (no intrinsic line width due to velocity dispersion) \n * **velocityDriven**: only line velocity dispersion (assuming negligible instrument PSF) \n * **combined**: both instrument resolution and velocity dispersion"
+            },
+            "fittingMethod": {
+              "type": "string",
+              "enum": [
+                "individual",
+                "svd",
+                "hybrid",
+                "lbfgsb"
+              ],
+              "title": "Line fitting method",
+              "description": "Line fitting method: \n* **individual**: independant fit of all lines amplitude \n * **svd**: joint fit of all lines amplitude (sparsity not exploited) \n * **hybrid**: svd only for groups of lines sharings pixels (eg. Ha and N2), independant fit for the other lines \n * **lbfgsb**: like hybrid but using non-linear least-square fit instead of svd to fit jointly the 3 Gaussian parameters (amplitude, position and width). Based on l-bfgs-b algorithm (bounded gradient descent). \n Note: it is not relevant when lineRatioType = tplRatio, because one set of ratio corresponds to a unique amplitude fitted for all lines, and thus it is using the individual fitter"
+            },
+            "velocityFit": {
+              "type": "boolean",
+              "title": "Wether to fit line width",
+              "discription": "Wether 2nd pass includes line width fitting. Used only if `fittingMethod=lbfgsb` (for linemeas)."
+            },
+            "emVelocityFitMin": {
+              "type": "number",
+              "title": "Emission lines velocity min",
+              "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for emission lines. To specify only if fittingMethod is lbfgsb."
+            },
+            "emVelocityFitMax": {
+              "type": "number",
+              "title": "Emission lines velocity max",
+              "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for emission lines. To specify only if fittingMethod is lbfgsb."
+            },
+            "absVelocityFitMin": {
+              "type": "number",
+              "title": "Aborption lines velocity min",
+              "description": "Tabulation of velocity for line width fitting in km s-1: minimal value for absorption lines. To specify only if fittingMethod is lbfgsb."
+            },
+            "absVelocityFitMax": {
+              "type": "number",
+              "title": "Aborption lines velocity max",
+              "description": "Tabulation of velocity for line width fitting in km s-1: maximal value for absorption lines. To specify only if fittingMethod is lbfgsb."
+            },
+            "lbdaOffsetFit": {
+              "type": "boolean",
+              "title": "Wether to fit wavelength offset",
+              "description": "Wether to include wavelength offset fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
+            },
+            "ampOffsetFit": {
+              "type": "boolean",
+              "title": "Wether to fit amplitude offset",
+              "description": "Wether to use line's polynomial offset in the profile fitting. Relevant only for `fittingMethod=svd`, `hybrid` or `lbfgsb`"
+            },
+            "lineRatioType": {
+              "type": "string",
+              "enum": [
+                "tplRatio",
+                "rules",
+                "tplCorr"
+              ],
+              "title": "Line ratio type",
+              "description": "\n * **rules**: fit all lines amplitude independently with eventualy some constraints (see rules parameter below) \n * **tplRatio**: fit one amplitude with fixed line ratios coming from template-ratio catalogs"
+            },
+            "rules": {
+              "type": "string",
+              "enum": [
+                "all",
+                "no",
+                "strongWeak",
+                "balmerSingle",
+                "ratioRange"
+              ],
+              "title": "Rules",
+              "description": "Selects used rules (only for `lineRatioType=rules`)"
+            }
+          }
         }
       }
     }
   }
-}
+}
\ No newline at end of file
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
index 795b5b7..e548425 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lsf.json
@@ -36,7 +36,7 @@
       "title": "Source size",
       "description": "Must be specified if and only if LSFType=gaussianNISPVSSPSF201707"
     },
-    "gaussianVariablewidthFileName": {
+    "gaussianVariableWidthFileName": {
       "type": "string",
       "title": "Path to file where width array is saved",
       "description": "Must be specified if and only if LSFType=gaussianVariableWidth"
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json
index d5c7a1e..56edae2 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/lya_fit.json
@@ -80,12 +80,12 @@
           "title": "Delta fit step",
           "description": "Tabulation of Lya offset, step value (in Angtr\u00f6ms)"
         },
-        "swicthFixedToFit": {
+        "switchFixedToFit": {
           "type": "boolean",
           "title": "Force Lya fit",
           "description": "For `ASYMFIXED` profiles only: \n * **true**: fit Lya shape (alpha, width & offset) and forget values from template-ratio catalog \n * **false**: use Lya shape values from template-ratio catalog."
         },
-        "swicthFitToFixed": {
+        "switchFitToFixed": {
           "type": "boolean",
           "title": "Force lya fit disabling",
           "description": "For ASYMFIT profiles only: \n * **true**: set hard coded values for Lya shape (alpha=2.0, width=2.0, offset=0.0) \n * **false**: fit or use template-ratio values depending on lyaforcefit parameter."
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
index 0a29609..afd3be8 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/reliability_solver.json
@@ -12,13 +12,10 @@
     "method": {
       "title": "Method",
       "description": "Name of the method to apply for reliability estimation.",
-      "type": "array",
-      "items": {
-        "type": "string",
-        "enum": [
-          "deepLearningSolver"
-        ]
-      }
+      "type": "string",
+      "enum": [
+        "deepLearningSolver"
+      ]
     },
     "deepLearningSolver": {
       "title": "Deep learning solver",
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
index d5808a1..c092313 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/spectrum_model.json
@@ -7,8 +7,7 @@
     "stages",
     "redshiftRange",
     "redshiftStep",
-    "redshiftSampling",
-    "templateDir"
+    "redshiftSampling"
   ],
   "additionalProperties": false,
   "properties": {
@@ -46,12 +45,12 @@
       "type": "string",
       "title": "Template directory"
     },
-    "linemeasDzHalf": {
+    "lineMeasDzHalf": {
       "type": "number",
       "title": "Redshift range radius",
       "description": "Radius for redshift range around Zref "
     },
-    "linemeasRedshiftStep": {
+    "lineMeasRedshiftStep": {
       "type": "number",
       "title": "Redshift step"
     },
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json
index aed9869..25c5cf9 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/template_fitting_solve.json
@@ -19,7 +19,7 @@
   "properties": {
     "fftProcessing": {
       "description": "Using FFT for Least-square template fitting (in log lambda)",
-      "type": "bool"
+      "type": "boolean"
     },
     "overlapThreshold": {
       "description": "Minimal fraction of the spectrum to be covered by the redshifted template to proceed (at each redshift)",
-- 
2.43.0


From 57ea43e4444f44f05935a5295d56481058dda81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 61/91] fix: require the priors of the line ratios

---
 .../auxdir/pylibamazed/jsonschema-v1/line_model_solve.json     | 3 +++
 .../auxdir/pylibamazed/jsonschema-v2/line_model_solve.json     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v1/line_model_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v1/line_model_solve.json
index 345a68e..3a4043c 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v1/line_model_solve.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v1/line_model_solve.json
@@ -319,6 +319,9 @@
         },
         "tplratio": {
           "type": "object",
+          "required": [
+            "priors"
+          ],
           "properties": {
             "priors": {
               "$ref": "line_model_priors.json"
diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
index 61e1461..3e665ab 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
@@ -312,6 +312,9 @@
         },
         "tplRatio": {
           "type": "object",
+          "required": [
+            "priors"
+          ],
           "properties": {
             "priors": {
               "$ref": "line_model_priors.json"
-- 
2.43.0


From 9b7478413581db16528977aac973994dafb18182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:53 +0000
Subject: [PATCH 62/91] fix: require the settings of the velocity fit and of
 the photometry of the line model

---
 .../python/pylibamazed/ParametersAccessor.py  | 12 +++++++++++
 .../python/pylibamazed/ParametersChecker.py   | 20 +++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/pylibamazed/python/pylibamazed/ParametersAccessor.py b/pylibamazed/python/pylibamazed/ParametersAccessor.py
index e17b9b3..6383e64 100644
--- a/pylibamazed/python/pylibamazed/ParametersAccessor.py
+++ b/pylibamazed/python/pylibamazed/ParametersAccessor.py
@@ -283,6 +283,18 @@ class ParametersAccessor:
             "enablePhotometry"
         )
 
+    def get_line_model_photometry_weight(self, spectrum_model: str) -> float:
+        return self._get_on_None(
+            self._get_on_None(self.get_linemodel_solve_linemodel_section(spectrum_model), "photometry"),
+            "weight"
+        )
+
+    def get_linemodel_velocity_fit(self, spectrum_model: str) -> bool:
+        return self._get_on_None(self.get_linemodel_solve_linemodel_section(spectrum_model), "velocityFit")
+
+    def get_linemodel_velocity_fit_param(self, spectrum_model: str, param: str) -> float:
+        return self._get_on_None(self.get_linemodel_solve_linemodel_section(spectrum_model), param)
+
     def get_solve_method_igm_fit(self, spectrum_model: str, solve_method: str) -> bool:
         igmfit = None
         if solve_method == "lineModelSolve":
diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 1ccfd6a..2f79992 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -409,6 +409,7 @@ class ParametersChecker:
         self._check_linemodelsolve_section(spectrum_model)
 
         self._check_linemodelsolve_improveBalmerFit(spectrum_model)
+        self._check_linemodelsolve_velocityfit_params(spectrum_model)
         self._check_linemodelsolve_lineratiotype_rules(spectrum_model)
 
         self._check_lineratiotype_tplratio_catalog(spectrum_model)
@@ -417,6 +418,7 @@ class ParametersChecker:
         self._check_linemodelsolve_continuumreestimation(spectrum_model)
 
         self._check_lineModelSolve_exclusive_fft_photometry(spectrum_model)
+        self._check_linemodelsolve_photometry_weight(spectrum_model)
         self._check_linemodelsolve_continuumfit_section(spectrum_model)
         self._check_linemodelsolve_continuumfit_ism(spectrum_model)
         self._check_linemodelsolve_secondpass_section(spectrum_model)
@@ -452,6 +454,24 @@ class ParametersChecker:
                 "activate improveBalmerFit"
             )
 
+    def _check_linemodelsolve_velocityfit_params(self, spectrum_model: str):
+        params = ["emVelocityFitMin", "emVelocityFitMax", "emVelocityFitStep",
+                  "absVelocityFitMin", "absVelocityFitMax", "absVelocityFitStep"]
+        for param in params:
+            self._check_dependant_parameter_presence(
+                self.accessor.get_linemodel_velocity_fit(spectrum_model),
+                self.accessor.get_linemodel_velocity_fit_param(spectrum_model, param) is not None,
+                error_message=f"lineModelSolve {param} for object {spectrum_model}"
+            )
+
+    def _check_linemodelsolve_photometry_weight(self, spectrum_model: str) -> None:
+        self._check_dependant_parameter_presence(
+            self.accessor.get_line_model_photometry(spectrum_model),
+            self.accessor.get_line_model_photometry_weight(spectrum_model) is not None,
+            error_message=f"object {spectrum_model} lineModelSolve photometry weight",
+            warning_message=f"object {spectrum_model} lineModelSolve photometry weight"
+        )
+
     def _check_lineratiotype_tplratio_catalog(self, spectrum_model):
         self._check_dependant_parameter_presence(
             self.accessor.get_linemodel_line_ratio_type(spectrum_model) in ["tplRatio", "tplCorr"],
-- 
2.43.0


From 58c2c5ff7b7fe6599dc0637bffaa68190e67dcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:18 +0000
Subject: [PATCH 63/91] fix: convert the names of settings only, not those
 given by the user

---
 .../python/pylibamazed/ParametersConverter.py | 42 +++++++++++++++----
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersConverter.py b/pylibamazed/python/pylibamazed/ParametersConverter.py
index 17b36ac..8a57252 100644
--- a/pylibamazed/python/pylibamazed/ParametersConverter.py
+++ b/pylibamazed/python/pylibamazed/ParametersConverter.py
@@ -36,7 +36,7 @@
 # The fact that you are presently reading this means that you have had
 # knowledge of the CeCILL-C license and that you accept its terms.
 # ============================================================================
-import json
+import copy
 from abc import ABC, abstractmethod
 
 import pandas as pd
@@ -80,20 +80,44 @@ class ParametersConverterV2(ParametersConverter):
 
 
 class ParametersConverterV1(ParametersConverter):
+    # settings (version 1 names) whose value is a name given by the user: file, directory, column...
+    user_names = ["objects", "calibrationDir", "lambdarange", "photometryTransmissionDir", "photometryBand", "filters",
+                  "additional_cols", "template_dir", "linecatalog", "tplratio_catalog", "catalog_dirpath",
+                  "GaussianVariablewidthFileName", "reliability_model"]
+
     def convert(self, raw_params: dict) -> dict:
-        params = raw_params.copy()
-        params_str = json.dumps(params)
         renaming_df = pd.read_csv(v1_to_treed_filename)
-        for _, row in renaming_df.iterrows():
-            params_str = params_str.replace(
-                f"\"{row.loc['old_name']}\"", f"\"{row.loc['new_name']}\"")
-        renamed_params = json.loads(params_str)
+        self.renaming = dict(zip(renaming_df["old_name"], renaming_df["new_name"]))
+        self.spectrum_models = raw_params.get("objects", [])
+        renamed_params = {
+            name if name in self.spectrum_models else self.renaming.get(name, name): self.rename(name, value)
+            for name, value in raw_params.items()
+        }
 
         self.update_redshift_part(renamed_params)
         self.update_linemeas_part(renamed_params)
         self.update_reliability_part(renamed_params)
         return renamed_params
 
+    def rename(self, name: str, value):
+        """ Renames the settings, and the values of the settings that are not names given by the user
+        """
+        if name in self.user_names:
+            return copy.deepcopy(value)
+        if isinstance(value, dict):
+            return {self.renaming.get(key, key): self.rename(key, val) for key, val in value.items()}
+        if isinstance(value, list):
+            return [self.rename(name, val) for val in value]
+        if isinstance(value, str):
+            return self.renaming.get(value, value)
+        return value
+
+    def pop(self, renamed_params: dict, spectrum_model: str, name: str):
+        if name not in renamed_params[spectrum_model]:
+            raise APIException(ErrorCode.INVALID_PARAMETER_FILE,
+                               f"Missing parameter {spectrum_model} {name}")
+        return renamed_params[spectrum_model].pop(name)
+
     def update_redshift_part(self, renamed_params):
         redshift_methods = ["lineModelSolve", "templateFittingSolve", "tplCombinationSolve"]
         for spectrum_model in renamed_params.get("spectrumModels", []):
@@ -113,7 +137,7 @@ class ParametersConverterV1(ParametersConverter):
                 renamed_params[spectrum_model].setdefault("stages", []).append("lineMeasSolver")
                 renamed_params[spectrum_model]["lineMeasSolver"] = {
                     "method": "lineMeasSolve",
-                    "lineMeasSolve": renamed_params[spectrum_model].pop("lineMeasSolve")
+                    "lineMeasSolve": self.pop(renamed_params, spectrum_model, "lineMeasSolve")
                 }
 
     def update_reliability_part(self, renamed_params):
@@ -123,7 +147,7 @@ class ParametersConverterV1(ParametersConverter):
                 renamed_params[spectrum_model]["reliabilitySolver"] = {
                     "method": "deepLearningSolver",
                     "deepLearningSolver": {
-                        "reliabilityModel": renamed_params[spectrum_model].pop("reliabilityModel")
+                        "reliabilityModel": self.pop(renamed_params, spectrum_model, "reliabilityModel")
                     }
                 }
             else:
-- 
2.43.0


From 3e46716803fe1c18a1c462e1a771b2a350302301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:40 +0000
Subject: [PATCH 64/91] fix: ISM correction of the line ratios of a model
 without template

---
 RedshiftLibrary/RedshiftLibrary/processflow/inputcontext.h | 4 ++++
 RedshiftLibrary/src/lib/linemodel/continuummanager.cpp     | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/RedshiftLibrary/RedshiftLibrary/processflow/inputcontext.h b/RedshiftLibrary/RedshiftLibrary/processflow/inputcontext.h
index 29b5b74..5f7504a 100644
--- a/RedshiftLibrary/RedshiftLibrary/processflow/inputcontext.h
+++ b/RedshiftLibrary/RedshiftLibrary/processflow/inputcontext.h
@@ -171,6 +171,10 @@ public:
           &ismcorrectionCalzetti) {
     m_ismcorrectionCalzetti = ismcorrectionCalzetti;
   }
+  std::shared_ptr<const CSpectrumFluxCorrectionCalzetti>
+  getfluxCorrectionCalzetti() const {
+    return m_ismcorrectionCalzetti;
+  }
   void Init();
 
   void resetSpectrumSpecific();
diff --git a/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp b/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp
index 598b37d..c9c9914 100644
--- a/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/continuummanager.cpp
@@ -180,6 +180,8 @@ Float64 CContinuumManager::getContinuumScaleMargCorrection() const {
 
 std::shared_ptr<const CSpectrumFluxCorrectionCalzetti>
 CContinuumManager::getIsmCorrectionFromTpl() {
+  if (!m_tplCatalog->GetTemplateCount(m_tplCategory)) // model without template
+    return Context.GetInputContext()->getfluxCorrectionCalzetti();
   return m_tplCatalog->GetTemplate(m_tplCategory, 0)->m_ismCorrectionCalzetti;
 }
 
-- 
2.43.0


From 9e1f74270a2e84e7fbc670129c528956204c31f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:38 +0000
Subject: [PATCH 65/91] fix: template fitting without lsf

---
 RedshiftLibrary/src/lib/processflow/inputcontext.cpp  |  9 +++++----
 .../python/pylibamazed/AbstractSpectrumReader.py      | 11 ++++++++---
 pylibamazed/python/pylibamazed/ParametersChecker.py   |  3 +++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
index 5c2d6d3..1fafc77 100644
--- a/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
+++ b/RedshiftLibrary/src/lib/processflow/inputcontext.cpp
@@ -216,16 +216,17 @@ void CInputContext::Init() {
 
   // convolve IGM by LSF (the same for all observations), over all the lambda
   // ranges, dropping the curves convolved for a previous spectrum
-  if (!m_igmcorrectionMeiksin->isConvolved() ||
-      m_ParameterStore->Get<std::string>("lsf.lsfType") == "fromSpectrumData") {
+  auto const lsf = m_spectra.front()->GetLSF(); // none if IGM is not fitted
+  if (lsf && (!m_igmcorrectionMeiksin->isConvolved() ||
+              m_ParameterStore->Get<std::string>("lsf.lsfType") ==
+                  "fromSpectrumData")) {
     TFloat64Range convolRange = *m_lambdaRanges.front();
     for (auto const &lambdaRange_ptr : m_lambdaRanges)
       convolRange = TFloat64Range(
           std::min(convolRange.GetBegin(), lambdaRange_ptr->GetBegin()),
           std::max(convolRange.GetEnd(), lambdaRange_ptr->GetEnd()));
     m_igmcorrectionMeiksin->resetConvolution();
-    m_igmcorrectionMeiksin->convolveByLSF(m_spectra.front()->GetLSF(),
-                                          convolRange);
+    m_igmcorrectionMeiksin->convolveByLSF(lsf, convolRange);
   }
 
   // insert extinction correction objects if needed
diff --git a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
index 0ae26f1..b149c62 100644
--- a/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
+++ b/pylibamazed/python/pylibamazed/AbstractSpectrumReader.py
@@ -253,15 +253,20 @@ class AbstractSpectrumReader:
         self._apply_filters(self._get_filters())
         self._check_wavelengths()
         self._add_cspectra()
+        self._add_lsf()
+        self._add_photometric_data()
+
+    def _add_lsf(self):
+        lsf_type = self.parameters.get_lsf_type()
+        if lsf_type is None:  # not needed
+            return
         lsf_factory = CLSFFactory.GetInstance()
         lsf_args = self._lsf_args()
-        lsf_type = self.parameters.get_lsf_type()
-        if self.parameters.get_lsf_type() == "fromSpectrumData":
+        if lsf_type == "fromSpectrumData":
             lsf_type = self.lsf_type
         lsf = lsf_factory.Create(lsf_type, lsf_args)
         for obs_id in self.parameters.get_observation_ids():
             self._spectra[obs_id].SetLSF(lsf)
-        self._add_photometric_data()
 
     def _get_filters(self):
         return self.filter_loader_class().get_filters(self.parameters)
diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index 2f79992..bbcefe2 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -166,7 +166,10 @@ class ParametersChecker:
     def _check_lsf_section(self) -> None:
         lsf_needed = False
         for spectrum_model in self.accessor.get_spectrum_models([]):
+            # the lines, and the IGM absorption of the templates, are convolved by the lsf
             if self.accessor.get_redshift_solver_method(spectrum_model) == "lineModelSolve" \
+                    or self.accessor.get_solve_method_igm_fit(
+                        spectrum_model, self.accessor.get_redshift_solver_method(spectrum_model)) \
                     or ("lineMeasSolver" in self.accessor.get_stages(spectrum_model)):
                 lsf_needed = True
         self._check_dependant_parameter_presence(
-- 
2.43.0


From c70b285163d4ed90db6cf001cc5009c3f1e75e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:59 +0000
Subject: [PATCH 66/91] fix: require the line model settings of the line model
 solver

---
 .../auxdir/pylibamazed/jsonschema-v2/line_model_solve.json     | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
index 3e665ab..a63f752 100644
--- a/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
+++ b/pylibamazed/auxdir/pylibamazed/jsonschema-v2/line_model_solve.json
@@ -4,6 +4,9 @@
   "title": "Line model solver",
   "description": "Parameters for line model solve schema",
   "type": "object",
+  "required": [
+    "lineModel"
+  ],
   "additionalProperties": false,
   "properties": {
     "lineModel": {
-- 
2.43.0


From 8e2e2ff3ec8f0374e45c29a737ea94d42bc2f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:06 +0000
Subject: [PATCH 67/91] fix: no reestimation of a continuum that does not come
 from the spectrum

---
 pylibamazed/python/pylibamazed/ParametersChecker.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/ParametersChecker.py b/pylibamazed/python/pylibamazed/ParametersChecker.py
index bbcefe2..1e9ce72 100644
--- a/pylibamazed/python/pylibamazed/ParametersChecker.py
+++ b/pylibamazed/python/pylibamazed/ParametersChecker.py
@@ -492,7 +492,10 @@ class ParametersChecker:
         )
 
     def linemodelsolve_continuumreestimation_presence_condition(self, spectrum_model):
-        return self.accessor.get_linemodel_fitting_method(spectrum_model) == "hybrid"
+        # only the continuum estimated from the spectrum can be reestimated
+        return self.accessor.get_linemodel_fitting_method(spectrum_model) == "hybrid" \
+            and self.accessor.get_linemodel_continuum_component(spectrum_model) not in [
+                "tplFit", "tplFitAuto", "noContinuum"]
 
     def _check_linemodelsolve_continuumreestimation(self, spectrum_model):
         self._check_dependant_parameter_presence(
-- 
2.43.0


From 98df58ee38a6b28984830e912a49226abb180697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 68/91] fix: write datasets of one line or with any text

---
 pylibamazed/python/pylibamazed/H5Writer.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pylibamazed/python/pylibamazed/H5Writer.py b/pylibamazed/python/pylibamazed/H5Writer.py
index 5f6a00b..dbfff95 100644
--- a/pylibamazed/python/pylibamazed/H5Writer.py
+++ b/pylibamazed/python/pylibamazed/H5Writer.py
@@ -37,6 +37,7 @@
 # knowledge of the CeCILL-C license and that you accept its terms.
 # ============================================================================
 
+import numpy as np
 import pandas as pd
 from pylibamazed.AbstractOutput import root_stages, spectrum_model_stages
 from pylibamazed.Exception import APIException
@@ -52,7 +53,9 @@ def _create_dataset_from_dict(h5_node, name, source, compress=False):
     dtypes = dict()
     for (k, v) in dict(df.dtypes).items():
         if v == "O":
-            dtypes[k] = f'S{df[k].str.len().max()}'
+            # hdf5 strings are bytes: lengths are those of the encoded strings
+            df[k] = df[k].str.encode("utf-8")
+            dtypes[k] = f'S{max(df[k].str.len().max(), 1)}'
         else:
             dtypes[k] = str(v)
 
@@ -64,6 +67,14 @@ def _create_dataset_from_dict(h5_node, name, source, compress=False):
                            compression="lzf")
 
 
+def _set_attributes(h5_node, source):
+    for name, value in source.items():
+        if isinstance(value, np.ndarray) and value.dtype.kind in "UO":
+            # h5py does not write arrays of unicode strings
+            value = np.char.encode(value.astype(str), "utf-8")
+        h5_node.attrs[name] = value
+
+
 class H5Writer():
 
     def __init__(self, output):
@@ -90,9 +101,7 @@ class H5Writer():
                                           ds,
                                           dataset)
             else:
-                object_results_node.create_group(ds)
-                for attr_name, attr in dataset.items():
-                    object_results_node.get(ds).attrs[attr_name] = attr
+                _set_attributes(object_results_node.create_group(ds), dataset)
 
     def write_hdf5_candidate_level(self, object_type, object_results_node):
         if self.output.parameters.get_redshift_solver_method(object_type):
@@ -111,9 +120,7 @@ class H5Writer():
                     if ds_dim == 0:
                         continue
                     elif ds_dim == 1:
-                        candidate.create_group(ds)
-                        for attr_name, attr in dataset.items():
-                            candidate.get(ds).attrs[attr_name] = attr
+                        _set_attributes(candidate.create_group(ds), dataset)
                     else:
                         try:
                             _create_dataset_from_dict(candidate,
-- 
2.43.0


From d27c2844f30d2a1d3cd93b9b07ac59301bb53cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 69/91] fix: give the first pass pdf when it is asked for

---
 pylibamazed/python/pylibamazed/AbstractOutput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylibamazed/python/pylibamazed/AbstractOutput.py b/pylibamazed/python/pylibamazed/AbstractOutput.py
index 7e7d3d2..b4d1c99 100644
--- a/pylibamazed/python/pylibamazed/AbstractOutput.py
+++ b/pylibamazed/python/pylibamazed/AbstractOutput.py
@@ -207,7 +207,8 @@ class AbstractOutput:
         pdfHandle = pdf_builder.add_params(
             self,
             object_type,
-            self.parameters.get_redshift_sampling(object_type) == "log"
+            self.parameters.get_redshift_sampling(object_type) == "log",
+            "Firstpass" in attribute
         ).build()
         if "Native" not in attribute:
             pdfHandle.convertToRegular()
-- 
2.43.0


From fec8bdf59c54fdbd51d872e40609ca4e2753e45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:32 +0000
Subject: [PATCH 70/91] fix: report the model of the measured lines of every
 observation

---
 RedshiftLibrary/RedshiftLibrary/operator/linemodel.h |  2 +-
 RedshiftLibrary/src/lib/method/linemeassolve.cpp     |  4 +---
 RedshiftLibrary/src/lib/operator/linemodel.cpp       | 12 ++++++++----
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/operator/linemodel.h b/RedshiftLibrary/RedshiftLibrary/operator/linemodel.h
index 0934510..6c7b2cf 100644
--- a/RedshiftLibrary/RedshiftLibrary/operator/linemodel.h
+++ b/RedshiftLibrary/RedshiftLibrary/operator/linemodel.h
@@ -129,7 +129,7 @@ public:
                    Float64 redshift);
 
   void setHapriorOption(Int32 opt);
-  const CSpectrum &
+  std::shared_ptr<CModelSpectrumResult>
   getFittedModelWithoutcontinuum(const CLineModelSolution &bestModelSolution);
   TZGridListParams getSPZGridParams();
 
diff --git a/RedshiftLibrary/src/lib/method/linemeassolve.cpp b/RedshiftLibrary/src/lib/method/linemeassolve.cpp
index 5a6f657..78962d1 100644
--- a/RedshiftLibrary/src/lib/method/linemeassolve.cpp
+++ b/RedshiftLibrary/src/lib/method/linemeassolve.cpp
@@ -87,9 +87,7 @@ std::shared_ptr<CSolveResult> CLineMeasSolve::compute() {
   }
 
   std::shared_ptr<CModelSpectrumResult> modelspc =
-      std::make_shared<CModelSpectrumResult>();
-  modelspc->addModel(
-      m_linemodel.getFittedModelWithoutcontinuum(bestModelSolution), "");
+      m_linemodel.getFittedModelWithoutcontinuum(bestModelSolution);
   std::shared_ptr<const CLineModelSolution> res =
       std::make_shared<CLineModelSolution>(std::move(bestModelSolution));
   resultStore->StoreScopedGlobalResult("linemeas", res);
diff --git a/RedshiftLibrary/src/lib/operator/linemodel.cpp b/RedshiftLibrary/src/lib/operator/linemodel.cpp
index 24cb128..a1b381d 100644
--- a/RedshiftLibrary/src/lib/operator/linemodel.cpp
+++ b/RedshiftLibrary/src/lib/operator/linemodel.cpp
@@ -1811,13 +1811,17 @@ CLineModelSolution COperatorLineModel::computeForLineMeas(
  * @param bestModelSolution : linemodel solution corresponding to the best Z
  * @return std::shared_ptr<const CModelSpectrumResult>
  */
-const CSpectrum &COperatorLineModel::getFittedModelWithoutcontinuum(
+std::shared_ptr<CModelSpectrumResult>
+COperatorLineModel::getFittedModelWithoutcontinuum(
     const CLineModelSolution &bestModelSolution) {
   // make sure polynom info are correctly set. it s up to refresh model to use
   // these coeffs
   m_fittingManager->LoadModelSolution(bestModelSolution);
   m_fittingManager->refreshAllModels();
-  m_fittingManager->getSpectraIndex()
-      .reset(); // TODO dummy implementation, should return all models
-  return m_fittingManager->getSpectrumModel().GetModelSpectrum();
+  auto models = std::make_shared<CModelSpectrumResult>();
+  for (auto &obs : m_fittingManager->getSpectraIndex())
+    models->addModel(m_fittingManager->getSpectrumModel().GetModelSpectrum(),
+                     m_fittingManager->getSpectrum().getObsID());
+  m_fittingManager->getSpectraIndex().reset();
+  return models;
 }
-- 
2.43.0


From e8c94ec75f7e3a489269cce29972d93349713a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:32 +0000
Subject: [PATCH 71/91] fix: give the model of a template combination at the
 wavelengths of the spectrum

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 7c7d479..552604f 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -652,9 +652,6 @@ COperatorTplcombination::ComputeSpectrumModel(
       modelFlux[k] += amplitudes[iddl] * tmp[k] * extinction[k];
     }
   }
-  modelSpcAxis.ShiftByWaveLength((1.0 + redshift),
-                                 CSpectrumSpectralAxis::nShiftForward);
-
   // Deallocate the rebined template and mask buffers
   m_templatesRebined_bf.clear();
   m_masksRebined_bf.clear();
-- 
2.43.0


From 9ccd3dd5b5ebda470774066eb3db307399d12ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:32 +0000
Subject: [PATCH 72/91] fix: report the model of a template combination under
 its observation

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 552604f..6050e23 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -657,7 +657,8 @@ COperatorTplcombination::ComputeSpectrumModel(
   m_masksRebined_bf.clear();
   std::shared_ptr<CModelSpectrumResult> ret =
       std::make_shared<CModelSpectrumResult>();
-  ret->addModel(CSpectrum(std::move(modelSpcAxis), std::move(modelFlux)), "");
+  ret->addModel(CSpectrum(std::move(modelSpcAxis), std::move(modelFlux)),
+                spectrum.getObsID());
   return ret;
 }
 
-- 
2.43.0


From efccc6c8fa07a3f1e8731dfa536b9a73e0022770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 73/91] fix: scale the photometric fluxes of the model by its
 amplitude

---
 RedshiftLibrary/src/lib/operator/linemodel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/linemodel.cpp b/RedshiftLibrary/src/lib/operator/linemodel.cpp
index a1b381d..d6814aa 100644
--- a/RedshiftLibrary/src/lib/operator/linemodel.cpp
+++ b/RedshiftLibrary/src/lib/operator/linemodel.cpp
@@ -1044,6 +1044,9 @@ COperatorLineModel::buildExtremaResults(const TCandidateZbyRank &zCandidates,
       } else {
         m_fittingManager->getSpectraIndex().reset();
         phot_values = m_fittingManager->getSpectrumModel().getPhotValues();
+        // computed for an amplitude of one
+        for (auto &[band, value] : phot_values)
+          value *= cont.tplAmplitude;
       }
       ExtremaResult->m_modelPhotValues[i] =
           std::make_shared<CModelPhotValueResult>(std::move(phot_values));
-- 
2.43.0


From 99e5a51dfc089bf2037caa3f8db0ebb3dc4e3686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:17 +0000
Subject: [PATCH 74/91] fix: keep the amplitudes of the best template
 combination

---
 .../src/lib/operator/tplcombination.cpp       | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 6050e23..65d36fc 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -298,28 +298,34 @@ void COperatorTplcombination::BasicFit(
                                  << " +- " << COV(iddl, iddl) * normFactor);
       }
 
-      // save the fitted amps and fitErrors, etc...
+      // save the fitted amps and fitErrors, etc... of the best fit
+      bool const isBest = chisq < fittingResults.chiSquare;
+      TFloat64List amplitudes(nddl);
       Float64 a, err2, err, sA = 0, sE = 0;
       for (Int32 iddl = 0; iddl < nddl; iddl++) {
         a = gsl_vector_get(c, iddl);
-        fittingResults.fittingAmplitudes[iddl] = a * normFactor;
+        amplitudes[iddl] = a * normFactor;
         err2 = COV(iddl, iddl);
         err = std::sqrt(err2);
-        fittingResults.fittingAmplitudeErrors[iddl] = err * normFactor;
-        fittingResults.fittingAmplitudeSigmas[iddl] = a / err;
+        if (isBest) {
+          fittingResults.fittingAmplitudes[iddl] = amplitudes[iddl];
+          fittingResults.fittingAmplitudeErrors[iddl] = err * normFactor;
+          fittingResults.fittingAmplitudeSigmas[iddl] = a / err;
+        }
         sA += a * a;
         sE += err2;
       }
       SNR = std::sqrt(sA / sE);
       fittingResults.fittingAmplitudesInterm[kEbmv_][kigm] =
-          fittingResults.fittingAmplitudes; // saving
+          std::move(amplitudes); // saving
 
       // save covariance matrix into MtM
-      for (Int32 iddl = 0; iddl < nddl; iddl++) {
-        for (Int32 iddc = 0; iddc < nddl; iddc++) {
-          fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
+      if (isBest)
+        for (Int32 iddl = 0; iddl < nddl; iddl++) {
+          for (Int32 iddc = 0; iddc < nddl; iddc++) {
+            fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
+          }
         }
-      }
       if (fittingResults.fittingAmplitudes.size() != nddl) {
         Log.LogDebug(Formatter() << " Found nfittedamps(="
                                  << fittingResults.fittingAmplitudes.size()
@@ -328,7 +334,7 @@ void COperatorTplcombination::BasicFit(
                                  << nddl << ")");
       }
 
-      if (chisq < fittingResults.chiSquare) {
+      if (isBest) {
         fittingResults.chiSquare = chisq;
         fittingResults.SNR = SNR;
         fittingResults.MeiksinIdx =
-- 
2.43.0


From 94849d1390bce2ac8b8b06274a0323c376907fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:45 +0000
Subject: [PATCH 75/91] fix: combine a single template

---
 .../src/lib/operator/tplcombination.cpp            | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 65d36fc..dfb2208 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -283,13 +283,13 @@ void COperatorTplcombination::BasicFit(
 
 #define C(i) (gsl_vector_get(c, (i)))
 #define COV(i, j) (gsl_matrix_get(cov, (i), (j)))
-      Log.LogDebug(Formatter() << "# best fit: Y = " << C(0) << " X1 + " << C(1)
-                               << " X2 ...");
-      Log.LogDebug(Formatter() << "# covariance matrix:");
-      Log.LogDebug(Formatter() << "[");
-      Log.LogDebug(Formatter() << "  " << COV(0, 0) << ", " << COV(0, 1));
-      Log.LogDebug(Formatter() << "  " << COV(1, 0) << "," << COV(1, 1));
-      Log.LogDebug(Formatter() << "]");
+      Log.LogDebug(Formatter() << "# best fit: Y = sum of c_i X_i");
+      for (Int32 iddl = 0; iddl < nddl; iddl++) {
+        Log.LogDebug(Formatter() << "# c_" << iddl << " = " << C(iddl));
+        for (Int32 iddc = 0; iddc < nddl; iddc++)
+          Log.LogDebug(Formatter() << "# covariance " << iddl << ", " << iddc
+                                   << " = " << COV(iddl, iddc));
+      }
       Log.LogDebug(Formatter() << "# chisq/n = " << chisq / n);
 
       for (Int32 iddl = 0; iddl < nddl; iddl++) {
-- 
2.43.0


From 8cd79cffd0850394eb163d058d9f9c50cce39b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:45 +0000
Subject: [PATCH 76/91] fix: covariance of the combination amplitudes in the
 unit of the amplitudes

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index dfb2208..a07ff53 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -323,7 +323,8 @@ void COperatorTplcombination::BasicFit(
       if (isBest)
         for (Int32 iddl = 0; iddl < nddl; iddl++) {
           for (Int32 iddc = 0; iddc < nddl; iddc++) {
-            fittingResults.COV[iddl][iddc] = COV(iddl, iddc);
+            fittingResults.COV[iddl][iddc] =
+                COV(iddl, iddc) * normFactor * normFactor;
           }
         }
       if (fittingResults.fittingAmplitudes.size() != nddl) {
-- 
2.43.0


From e1850d95e9b74d15ba44f78dbfb71d4124ece826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:45 +0000
Subject: [PATCH 77/91] fix: chi2 of a combination of dependent templates

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index a07ff53..38397c5 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -267,6 +267,15 @@ void COperatorTplcombination::BasicFit(
         gsl_multifit_wlinear(X, w, y, c, cov, &chisq, work);
         gsl_multifit_linear_free(work);
       }
+      // chi2 of the fitted amplitudes: the one GSL returns is too low when the
+      // templates are not independent over the fitted range
+      chisq = 0.;
+      for (Int32 i = 0; i < n; i++) {
+        Float64 residual = gsl_vector_get(y, i);
+        for (Int32 iddl = 0; iddl < nddl; iddl++)
+          residual -= gsl_matrix_get(X, i, iddl) * gsl_vector_get(c, iddl);
+        chisq += gsl_vector_get(w, i) * residual * residual;
+      }
       chisq += dtd_complement; // complement with the dtd value, only in the
                                // case of DisextinctData.
       //
-- 
2.43.0


From 809bba6516b24b4371de29c4bd63636dd535db2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:46 +0000
Subject: [PATCH 78/91] fix: amplitude errors of a combination on a null flux

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 38397c5..69fc87a 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -709,11 +709,11 @@ Float64 COperatorTplcombination::EstimateLikelihoodCstLog(
 Float64
 COperatorTplcombination::GetNormFactor(const CSpectrumFluxAxis spcFluxAxis,
                                        Int32 kStart, Int32 n) {
-  Float64 maxabsval = DBL_MIN;
+  Float64 maxabsval = 0.;
   for (Int32 k = 0; k < n; k++) {
     if (maxabsval < std::abs(spcFluxAxis[k + kStart])) {
       maxabsval = std::abs(spcFluxAxis[k + kStart]);
     }
   }
-  return maxabsval;
+  return maxabsval > 0. ? maxabsval : 1.;
 }
-- 
2.43.0


From 20123e92e6c76d3da24e7e1773f198aaf9a73174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:03 +0000
Subject: [PATCH 79/91] fix: amplitudes of a combination of dependent templates

---
 RedshiftLibrary/src/lib/operator/tplcombination.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/operator/tplcombination.cpp b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
index 69fc87a..e8669bf 100644
--- a/RedshiftLibrary/src/lib/operator/tplcombination.cpp
+++ b/RedshiftLibrary/src/lib/operator/tplcombination.cpp
@@ -264,7 +264,12 @@ void COperatorTplcombination::BasicFit(
       {
         gsl_multifit_linear_workspace *work =
             gsl_multifit_linear_alloc(n, nddl);
-        gsl_multifit_wlinear(X, w, y, c, cov, &chisq, work);
+        // with a tolerance above the rounding of the templates, or templates
+        // that depend on one another get huge opposite amplitudes
+        const Float64 tolerance = 1e-12;
+        size_t rank;
+        gsl_multifit_wlinear_tsvd(X, w, y, tolerance, c, cov, &chisq, &rank,
+                                  work);
         gsl_multifit_linear_free(work);
       }
       // chi2 of the fitted amplitudes: the one GSL returns is too low when the
-- 
2.43.0


From 2017482a928279de2067b04746ba8de5748a9306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:56 +0000
Subject: [PATCH 80/91] fix: derivative of the skewed line profile with respect
 to its centre

---
 RedshiftLibrary/src/lib/line/lineprofileASYM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
index 2f180fa..24667e6 100644
--- a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
+++ b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
@@ -140,7 +140,7 @@ Float64 CLineProfileASYM::GetLineProfileDerivX0(Float64 x, Float64 x0,
   Float64 val =
       xsurc / sigma * exp(-0.5 * xsurc2) *
           (1.0 + erf(m_asym_alpha / sqrt(2.0) * xsurc)) -
-      m_asym_alpha / sqrt(2 * M_PI) / sigma * exp(-(1 + alpha2) / 2 * xsurc2);
+      m_asym_alpha * sqrt(2 / M_PI) / sigma * exp(-(1 + alpha2) / 2 * xsurc2);
   return val;
 }
 
-- 
2.43.0


From 4ccbec9feca49fa5b77426c174d8fdbdc1f47fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:57 +0000
Subject: [PATCH 81/91] fix: mode centring of profiles with negative asymmetry

---
 RedshiftLibrary/src/lib/line/lineprofileASYM.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
index 24667e6..9a88f85 100644
--- a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
+++ b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
@@ -93,7 +93,9 @@ Float64 CLineProfileASYM::GetXSurc(Float64 xc, Float64 &sigma,
     Float64 sigmaz = std::sqrt(1 - muz * muz);
     Float64 gamma1 = ((4 - M_PI) / 2.0) * pow(delta * std::sqrt(2 / M_PI), 3.) /
                      pow(1 - 2 * delta * delta / M_PI, 3. / 2.);
-    m0 = muz - gamma1 * sigmaz / 2.0 - 0.5 * exp(-2 * M_PI / m_asym_alpha);
+    m0 = muz - gamma1 * sigmaz / 2.0 -
+         std::copysign(0.5, m_asym_alpha) *
+             exp(-2 * M_PI / std::abs(m_asym_alpha));
   }
 
   xc = xc + sigma * m0;
-- 
2.43.0


From 38b12b9073180c4af9d89c89969cdff1b5db2e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:57 +0000
Subject: [PATCH 82/91] fix: refuse skewed profiles with a missing offset

---
 RedshiftLibrary/src/lib/line/lineprofileASYM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
index 9a88f85..ac9f020 100644
--- a/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
+++ b/RedshiftLibrary/src/lib/line/lineprofileASYM.cpp
@@ -182,7 +182,7 @@ TAsymParams CLineProfileASYM::GetAsymParams() const {
 
 bool CLineProfileASYM::isValid() const {
   if (std::isnan(m_asym_sigma_coeff) || std::isnan(m_asym_alpha) ||
-      std::isnan(m_asym_alpha)) {
+      std::isnan(m_asym_delta)) {
     return 0;
   }
   return 1;
-- 
2.43.0


From 881fde82098f9c402c16e0540edd91aa7f4c0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:57 +0000
Subject: [PATCH 83/91] fix: refuse variable-width LSF with missing widths

---
 RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp b/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp
index 23009b2..d94cb2d 100644
--- a/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/LSFVariableWidth.cpp
@@ -87,7 +87,7 @@ bool CLSFGaussianVariableWidth::IsValid() const {
            "and width axis");
   }
   for (Float64 w : m_width)
-    if (w <= 0.)
+    if (!(w > 0.))
       return false;
   return true;
 }
-- 
2.43.0


From 151fa876445f0ec1506686cebf32e85bc3a5fa7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:42 +0000
Subject: [PATCH 84/91] fix: hand the extinction corrections to every template

---
 .../src/lib/spectrum/template/catalog.cpp        | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
index 1844d27..f38c448 100644
--- a/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
+++ b/RedshiftLibrary/src/lib/spectrum/template/catalog.cpp
@@ -267,17 +267,15 @@ void CTemplateCatalog::SetIsmIgmCorrection(
 
   for (const auto &it : GetList(0, 0)) {
     const auto &cat = it.first;
-    if (parameterStore->HasTplIsmExtinction(cat) && !it.second.empty() &&
-        it.second[0]->CalzettiInitFailed()) {
-      for (const auto &tpl : it.second) {
+    const bool ism = parameterStore->HasTplIsmExtinction(cat);
+    const bool igm = parameterStore->HasTplIgmExtinction(cat);
+    for (const auto &tpl : it.second) {
+      if (!tpl) // cleared entry
+        continue;
+      if (ism && tpl->CalzettiInitFailed())
         tpl->m_ismCorrectionCalzetti = ismCorrectionCalzetti;
-      }
-    }
-    if (parameterStore->HasTplIgmExtinction(cat) && !it.second.empty() &&
-        it.second[0]->MeiksinInitFailed()) {
-      for (const auto &tpl : it.second) {
+      if (igm && tpl->MeiksinInitFailed())
         tpl->m_igmCorrectionMeiksin = igmCorrectionMeiksin;
-      }
     }
   }
 }
-- 
2.43.0


From 502b3ab662635c7681be55b89cf1bf8eb4821acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:25 +0000
Subject: [PATCH 85/91] fix: try the largest wavelength offset of the lines

---
 RedshiftLibrary/src/lib/linemodel/abstractfitter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/abstractfitter.cpp b/RedshiftLibrary/src/lib/linemodel/abstractfitter.cpp
index b56f6db..bbcb7ab 100644
--- a/RedshiftLibrary/src/lib/linemodel/abstractfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/abstractfitter.cpp
@@ -354,7 +354,7 @@ Int32 CAbstractFitter::GetLambdaOffsetSteps(bool atLeastOneOffsetToFit) const {
   Int32 nSteps =
       atLeastOneOffsetToFit
           ? int((m_LambdaOffsetMax - m_LambdaOffsetMin) / m_LambdaOffsetStep +
-                0.5)
+                1.5)
           : 1;
 
   return nSteps;
-- 
2.43.0


From df4fa0383afa90be7d8b8516382248211c942546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:46 +0000
Subject: [PATCH 86/91] fix: choose the offset of lines fitted together with
 the model they leave

---
 RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h | 3 ++-
 RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp       | 8 +++++++-
 RedshiftLibrary/src/lib/linemodel/svdfitter.cpp           | 5 +++--
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h b/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h
index 6418faf..94bf172 100644
--- a/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h
+++ b/RedshiftLibrary/RedshiftLibrary/linemodel/spectrummodel.h
@@ -27,7 +27,8 @@ public:
   void refreshModel(CLine::EType lineTypeFilter = CLine::EType::nType_All);
   void reinitModelUnderElements(const TInt32List &filterEltsIdx, Int32 lineIdx);
   void refreshModelUnderElements(const TInt32List &filterEltsIdx,
-                                 Int32 lineIdx = undefIdx);
+                                 Int32 lineIdx = undefIdx,
+                                 bool withAmplitudeOffsets = false);
 
   CSpectrumFluxAxis
   getModel(const TInt32List &eIdx_list,
diff --git a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
index 076539e..a3a94e9 100644
--- a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
@@ -127,10 +127,16 @@ void CSpectrumModel::refreshModel(CLine::EType lineTypeFilter) {
  * Works as refreshModel.
  **/
 void CSpectrumModel::refreshModelUnderElements(const TInt32List &filterEltsIdx,
-                                               Int32 lineIdx) {
+                                               Int32 lineIdx,
+                                               bool withAmplitudeOffsets) {
   reinitModelUnderElements(filterEltsIdx, lineIdx);
   const CSpectrumSpectralAxis &spectralAxis = m_SpectrumModel.GetSpectralAxis();
   CSpectrumFluxAxis modelFluxAxis = m_SpectrumModel.GetFluxAxis();
+
+  if (withAmplitudeOffsets && m_enableAmplitudeOffsets)
+    m_Elements->addToSpectrumAmplitudeOffset(spectralAxis, modelFluxAxis,
+                                             filterEltsIdx);
+
   // create spectrum model
   for (Int32 iElts : filterEltsIdx)
     (*m_Elements)[iElts]->addToSpectrumModel(
diff --git a/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp b/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
index 0489024..998c18a 100644
--- a/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/svdfitter.cpp
@@ -298,9 +298,10 @@ void CSvdFitter::fitAmplitudesLinSolveAndLambdaOffset(TInt32List EltsIdx,
       continue;
 
     Float64 sumFit = 0.0;
-    getModel().refreshModelUnderElements(EltsIdx);
+    getModel().refreshModelUnderElements(EltsIdx, undefIdx, true);
 
-    sumFit += getModelResidualRmsUnderElements(EltsIdx, false);
+    sumFit += getModelResidualRmsUnderElements(EltsIdx, true);
+    m_spectraIndex.reset(); // dummy implementation
 
     if (sumFit < bestMerit) {
       bestMerit = sumFit;
-- 
2.43.0


From 201810888a4c825ae85e418a78116bed9e09873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:51 +0000
Subject: [PATCH 87/91] fix: compare the joint fit of Balmer lines with the fit
 it replaces

---
 .../src/lib/linemodel/hybridfitter.cpp        | 65 +++++++------------
 1 file changed, 25 insertions(+), 40 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
index 452faf0..de0ec25 100644
--- a/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/hybridfitter.cpp
@@ -234,7 +234,6 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
 
     // find the linesMore unique elements indexes
     TInt32List ilinesMore;
-    TInt32List linesMoreIds;
     for (Int32 imore = 0; imore < linetagsMore[itag].size(); imore++) {
       std::string tagMore = linetagsMore[itag][imore];
       auto const &[iElt_lineMore, lineMore_id] =
@@ -244,7 +243,6 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
         continue;
 
       ilinesMore.push_back(iElt_lineMore);
-      linesMoreIds.push_back(lineMore_id);
     }
     std::sort(ilinesMore.begin(), ilinesMore.end());
     ilinesMore.erase(std::unique(ilinesMore.begin(), ilinesMore.end()),
@@ -268,55 +266,42 @@ void CHybridFitter::improveBalmerFit(Float64 redshift) {
       continue;
     }
 
-    // simulatneous fit with linsolve
-    Float64 modelErr_init =
-        getModelResidualRmsUnderElements({iElt_lineA}, true);
-    Float64 ampA = getElementParam()[iElt_lineA]->GetFittedAmplitude(lineA_id);
-    Float64 amp_errorA =
-        getElementParam()[iElt_lineA]->GetFittedAmplitudeStd(lineA_id);
-    Float64 ampE = getElementParam()[iElt_lineE]->GetFittedAmplitude(lineE_id);
-    Float64 amp_errorE =
-        getElementParam()[iElt_lineE]->GetFittedAmplitudeStd(lineE_id);
-    TFloat64List ampsMore;
-    TFloat64List ampErrorsMore;
-    for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
-      Float64 amp = getElementParam()[ilinesMore[imore]]->GetFittedAmplitude(0);
-      Float64 ampErr =
-          getElementParam()[ilinesMore[imore]]->GetFittedAmplitudeStd(0);
-      ampsMore.push_back(amp);
-      ampErrorsMore.push_back(ampErr);
-    }
-
     TInt32List eltsIdx;
     eltsIdx.push_back(iElt_lineA);
     eltsIdx.push_back(iElt_lineE);
     for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
       eltsIdx.push_back(ilinesMore[imore]);
     }
-    TFloat64List ampsfitted;
-    TFloat64List errorsfitted;
-    fitAmplitudesLinSolve(eltsIdx, ampsfitted, errorsfitted, redshift);
+
+    // keep the previous amplitudes, and their residual
+    std::vector<TFloat64List> ampsInit;
+    std::vector<TFloat64List> ampErrorsInit;
+    std::vector<TPolynomCoeffs> polynomCoeffsInit;
+    for (Int32 idx : eltsIdx) {
+      auto const &param = getElementParam()[idx];
+      ampsInit.push_back(param->m_FittedAmplitudes);
+      ampErrorsInit.push_back(param->m_FittedAmplitudesStd);
+      polynomCoeffsInit.push_back(param->GetPolynomCoeffs());
+    }
+    getModel().refreshModelUnderElements(eltsIdx, undefIdx, true);
+    Float64 modelErr_init =
+        getModelResidualRmsUnderElements({iElt_lineA}, true);
+    m_spectraIndex.reset(); // dummy implementation
+
+    // simultaneous fit with linsolve
+    fitAmplitudesLinSolvePositive(eltsIdx, redshift);
 
     // decide if the fit is better than previous amps
-    getModel().refreshModelUnderElements(eltsIdx);
+    getModel().refreshModelUnderElements(eltsIdx, undefIdx, true);
     Float64 modelErr_withfit =
         getModelResidualRmsUnderElements({iElt_lineA}, true);
+    m_spectraIndex.reset(); // dummy implementation
     if (modelErr_withfit > modelErr_init) {
-      Float64 nominal_ampA =
-          getElementParam()[iElt_lineA]->GetNominalAmplitude(lineA_id);
-      Float64 nominal_ampE =
-          getElementParam()[iElt_lineE]->GetNominalAmplitude(lineE_id);
-      m_ElementsVector->SetElementAmplitude(iElt_lineA, ampA / nominal_ampA,
-                                            amp_errorA / nominal_ampA);
-      m_ElementsVector->SetElementAmplitude(iElt_lineE, ampE / nominal_ampE,
-                                            amp_errorE / nominal_ampE);
-      for (Int32 imore = 0; imore < ilinesMore.size(); imore++) {
-        Float64 nominal_ampMore =
-            getElementParam()[ilinesMore[imore]]->GetNominalAmplitude(
-                linesMoreIds[imore]);
-        m_ElementsVector->SetElementAmplitude(
-            ilinesMore[imore], ampsMore[imore] / nominal_ampMore,
-            ampErrorsMore[imore] / nominal_ampMore);
+      for (size_t i = 0; i < eltsIdx.size(); i++) {
+        auto const &param = getElementParam()[eltsIdx[i]];
+        param->m_FittedAmplitudes = ampsInit[i];
+        param->m_FittedAmplitudesStd = ampErrorsInit[i];
+        param->SetPolynomCoeffs(polynomCoeffsInit[i]);
       }
     }
   }
-- 
2.43.0


From 8450611cffd71dbc936ed198e462d80e12c425e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:27 +0000
Subject: [PATCH 88/91] fix: weight the residual under the lines by the error
 of the spectrum

---
 RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
index a3a94e9..3f7fa17 100644
--- a/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/spectrummodel.cpp
@@ -392,12 +392,8 @@ std::pair<Float64, Float64>
 CSpectrumModel::getModelSquaredResidualUnderElements(TInt32List const &EltsIdx,
                                                      bool with_continuum,
                                                      bool with_weight) const {
-  // before elementlistcutting this variable was
-  // CElementList::m_ErrorNoContinuum, a reference initialized twice in
-  // CElementList constructor, first init to m_spcFluxAxisNoContinuum.GetError()
-  // and after to spectrumFluxAxis.GetError
-  const CSpectrumNoiseAxis &errorNoContinuum =
-      m_SpectrumModel.GetFluxAxis().GetError();
+  // the flux axis of the model has no error: use the one of the spectrum
+  const CSpectrumNoiseAxis &errorNoContinuum = m_inputSpc->GetErrorAxis();
   const CSpectrumFluxAxis &fluxRef =
       with_continuum ? getSpcFluxAxis() : getSpcFluxAxisNoContinuum();
 
-- 
2.43.0


From e2e58c21c1e166f0794e448ac8253a9361ba9d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:32 +0000
Subject: [PATCH 89/91] fix: reload a line model solution on the supports it
 was fitted on

---
 .../src/lib/linemodel/linemodelfitting.cpp    | 35 +++++++++++++------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index 3ac6711..80e4b02 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -747,8 +747,6 @@ void CLineModelFitting::LoadModelSolution(
     elt_param->setFittedAmplitude(
         elt_line_index, modelSolution.Amplitudes[iRestLine],
         modelSolution.AmplitudesUncertainties[iRestLine]);
-    m_ElementsVector->getElementParam()[eIdx]->setLambdaOffset(
-        elt_line_index, modelSolution.Offset[iRestLine]);
 
     if (element_done[eIdx])
       continue;
@@ -765,6 +763,30 @@ void CLineModelFitting::LoadModelSolution(
     element_done[eIdx] = true;
   }
 
+  // as when the solution was fitted, the supports are those of the lines
+  // without their fitted offsets
+  m_ElementsVector->resetAsymfitParams();
+  for (auto &spcIndex : m_spectraIndex) {
+    const CSpectrumSpectralAxis &spectralAxis = getSpectrum().GetSpectralAxis();
+    for (Int32 iElts = 0; iElts < getElementList().size(); iElts++) {
+      // the support may be that of another redshift
+      getElementList()[iElts]->prepareSupport(
+          spectralAxis, modelSolution.Redshift, getLambdaRange());
+    }
+  }
+
+  for (Int32 iRestLine = 0; iRestLine < m_RestLineList.size(); iRestLine++) {
+    Int32 eIdx = modelSolution.ElementId[iRestLine];
+    if (eIdx == undefIdx || modelSolution.OutsideLambdaRange[iRestLine])
+      continue;
+    auto const &elt_param = getElementParam()[eIdx];
+    Int32 elt_line_index =
+        elt_param->getLineIndex(modelSolution.lineId[iRestLine]);
+    if (elt_line_index != undefIdx)
+      elt_param->setLambdaOffset(elt_line_index,
+                                 modelSolution.Offset[iRestLine]);
+  }
+
   if (!std::isnan(modelSolution.LyaWidthCoeff) or
       !std::isnan(modelSolution.LyaAlpha) or
       !std::isnan(modelSolution.LyaDelta)) {
@@ -784,15 +806,6 @@ void CLineModelFitting::LoadModelSolution(
         getElementParam()[elt_idx]->SetSymIgmParams(
             {modelSolution.LyaIgm, modelSolution.Redshift});
   }
-
-  for (auto &spcIndex : m_spectraIndex) {
-    const CSpectrumSpectralAxis &spectralAxis = getSpectrum().GetSpectralAxis();
-    for (Int32 iElts = 0; iElts < getElementList().size(); iElts++) {
-      // the support may be that of another redshift
-      getElementList()[iElts]->prepareSupport(
-          spectralAxis, modelSolution.Redshift, getLambdaRange());
-    }
-  }
   m_ElementsVector->setGlobalOutsideLambdaRangeFromSpectra();
 
   return;
-- 
2.43.0


From 0f1e1ddeb2edea68229da554ff65370f75088676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:26 +0000
Subject: [PATCH 90/91] fix: sample shared by two lines of an element counted
 twice

---
 RedshiftLibrary/src/lib/linemodel/element.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/element.cpp b/RedshiftLibrary/src/lib/linemodel/element.cpp
index 69a5cb0..f9ab487 100644
--- a/RedshiftLibrary/src/lib/linemodel/element.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/element.cpp
@@ -320,7 +320,7 @@ void CLineModelElement::prepareSupport(
         // compute overlapping region
         Int32 max = std::max(x1, y1);
         Int32 min = std::min(x2, y2);
-        if (max - min < 0) { // case of overlapping
+        if (max - min <= 0) { // case of overlapping
           m_StartNoOverlap[i] = std::min(x1, y1);
           m_EndNoOverlap[i] = std::max(x2, y2);
           m_StartNoOverlap[j] =
@@ -384,7 +384,7 @@ void CLineModelElement::prepareSupport(
         y2 = m_EndNoOverlap[j];
         Int32 max = std::max(x1, y1);
         Int32 min = std::min(x2, y2);
-        if (max - min < 0) {
+        if (max - min <= 0) {
           supportNoOverlap_has_duplicates = true;
           break;
         }
-- 
2.43.0


From a074e3341ee8008b50d9cfb7174cf427f900ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:19 +0000
Subject: [PATCH 91/91] fix: samples counted twice in the signal to noise of
 the lines

---
 .../src/lib/linemodel/linemodelfitting.cpp    | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
index 80e4b02..17c2dfb 100644
--- a/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
+++ b/RedshiftLibrary/src/lib/linemodel/linemodelfitting.cpp
@@ -605,8 +605,7 @@ std::pair<Float64, Float64> CLineModelFitting::getCumulSNRStrongEL() const {
 
   m_spectraIndex.reset(); // TODO #8797
   // Retrieve all the strone emission lines supports in a list of range
-  TInt32RangeList supportList;
-  TBoolList isStrongList;
+  std::vector<std::pair<TInt32Range, bool>> supports;
   TInt32List validEltsIdx = getElementList().GetModelValidElementsIndexes();
   for (Int32 iElts : validEltsIdx) {
     auto const &elt = getElementList()[iElts];
@@ -617,11 +616,23 @@ std::pair<Float64, Float64> CLineModelFitting::getCumulSNRStrongEL() const {
       if (elt->IsOutsideLambdaRangeLine(index))
         continue;
       auto const &line = elt_param->GetLines()[index];
-      isStrongList.push_back(line.IsStrong());
-      supportList.push_back(elt->getTheoreticalSupportSubElt(index));
+      supports.emplace_back(elt->getTheoreticalSupportSubElt(index),
+                            line.IsStrong());
     }
   }
 
+  // by increasing wavelength, to merge all the ranges that overlap
+  std::sort(supports.begin(), supports.end(),
+            [](auto const &a, auto const &b) {
+              return a.first.GetBegin() < b.first.GetBegin();
+            });
+  TInt32RangeList supportList;
+  TBoolList isStrongList;
+  for (auto const &[support, isStrong] : supports) {
+    supportList.push_back(support);
+    isStrongList.push_back(isStrong);
+  }
+
   // merge overlapping ranges
   TInt32RangeList nonOverlappingSupportList;
   TBoolList nonOverlappingIsStrongList;
@@ -648,7 +659,7 @@ std::pair<Float64, Float64> CLineModelFitting::getCumulSNRStrongEL() const {
       Float64 const ysup = supportList[l].GetEnd();
       Float64 const max = std::max(xinf, yinf);
       Float64 const min = std::min(xsup, ysup);
-      if (max - min < 0) {
+      if (max - min <= 0) {
         processedSupport.push_back(l);
         support.SetBegin(std::min(xinf, yinf));
         support.SetEnd(std::max(xsup, ysup));
-- 
2.43.0

