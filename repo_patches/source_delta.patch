From baf1b39ae906293758e2e7824e1f695559d589e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 01/78] fix: exponential average filter compares with the state
 of its own channel

---
 dsptoolbox/classes/exponential_average_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/exponential_average_filter.py b/dsptoolbox/classes/exponential_average_filter.py
index 307348c..2b0cb3a 100644
--- a/dsptoolbox/classes/exponential_average_filter.py
+++ b/dsptoolbox/classes/exponential_average_filter.py
@@ -47,7 +47,7 @@ class ExponentialAverageFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
-        if x > self.state:  # Ascending
+        if x > self.state[0, channel]:  # Ascending
             y = (
                 x * self.increase_coefficient
                 + (1 - self.increase_coefficient) * self.state[0, channel]
-- 
2.43.0


From 3268ee6d8eb85ad22d259a8a1aea0743f8b4b6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 02/78] fix: FIRFilter with a single coefficient can process
 samples

---
 dsptoolbox/classes/fir_filter_realtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index cb3a2f6..1eb5465 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -59,6 +59,8 @@ class FIRFilter(RealtimeFilter):
     def process_sample(self, x: float, channel: int):
         """Process a sample."""
         y = self.b[0] * x
+        if self.order == 0:
+            return y
 
         write_index = self.current_state_ind[channel]
         for i in range(self.order):
-- 
2.43.0


From 14ab883a9ff89b09c231c2256bc2a2eee6f983a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 03/78] fix: IIRFilter leaves the passed coefficients
 unmodified and supports order 0

---
 dsptoolbox/classes/iir_filter_realtime.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index b30fced..f1d3535 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -24,8 +24,8 @@ class IIRFilter(RealtimeFilter):
             Denominator coefficients
 
         """
-        b /= a[0]
-        a /= a[0]
+        b = b / a[0]
+        a = a / a[0]
         self.order = max(len(b), len(a)) - 1
         self.b = np.pad(b, ((0, self.order + 1 - len(b))))
         self.a = np.pad(a, ((0, self.order + 1 - len(a))))
@@ -57,6 +57,9 @@ class IIRFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
+        if self.order == 0:
+            return self.b[0] * x
+
         y = self.b[0] * x + self.state[0, channel]
         for i in range(self.order - 1):
             self.state[i, channel] = (
-- 
2.43.0


From edae7666857caf4ab4229fedad63c46b70ca58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 04/78] fix: StateSpaceFilter supports first-order systems

---
 dsptoolbox/classes/state_space_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index 18d3e0a..6dcdd06 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -48,9 +48,9 @@ class StateSpaceFilter(RealtimeFilter):
         """
         assert A.ndim == 2, "Matrix A should have exactly 2 dimensions"
         assert len(B) == A.shape[1], "Matrix B dimensions are not valid"
-        self.A = A.squeeze()
-        self.B = B.squeeze()
-        self.C = C.squeeze()
+        self.A = A
+        self.B = np.atleast_1d(B.squeeze())
+        self.C = np.atleast_1d(C.squeeze())
         self.D = D.squeeze()
         self.set_n_channels(1)
 
-- 
2.43.0


From 02e27a4d91adb4dd1a5acddb5d75dbdbe3e96ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 05/78] fix: StateSpaceFilter.from_filter aligns b and a of
 different lengths

---
 dsptoolbox/classes/state_space_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index 6dcdd06..dbb38c1 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -71,6 +71,10 @@ class StateSpaceFilter(RealtimeFilter):
 
         """
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
+        # tf2ss aligns the coefficients at their last entry
+        length = max(len(b), len(a))
+        b = np.pad(b, (0, length - len(b)))
+        a = np.pad(a, (0, length - len(a)))
         return StateSpaceFilter(*tf2ss(b, a))
 
     @staticmethod
-- 
2.43.0


From 0a343ef3f39693e95433cfc7257eb76bf95e1f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 06/78] fix: ParallelFilter places FIR coefficients with the
 configured offset

---
 dsptoolbox/classes/parallel_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index c69c405..75e71b5 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -226,8 +226,7 @@ class ParallelFilter(RealtimeFilter):
             ff = np.zeros(
                 ((self.fir_offset_samples) * (len(self.__fir_coefficients) - 1) + 1)
             )
-            ff[:: self.fir_offset_samples + 1] = self.__fir_coefficients[:-1]
-            ff[-1] = self.__fir_coefficients[-1]
+            ff[:: self.fir_offset_samples] = self.__fir_coefficients
             self.__fir_coefficients = ff
 
         self.__compute_filter_bank()
-- 
2.43.0


From efa501b43a7db8b9b7943d72e9d0ea06d4033481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 07/78] fix: overlap-save filter supports odd FFT lengths

---
 dsptoolbox/classes/fir_filter_realtime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 1eb5465..4488eca 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -137,9 +137,10 @@ class FIRFilterOverlapSave(RealtimeFilter):
 
         """
         self.buffer[-self.blocksize :, channel] = block
-        output_data = fft.irfft(fft.rfft(self.buffer[:, channel]) * self.fir_spectrum)[
-            -self.blocksize :
-        ]
+        output_data = fft.irfft(
+            fft.rfft(self.buffer[:, channel]) * self.fir_spectrum,
+            n=self.total_length,
+        )[-self.blocksize :]
 
         # Roll buffer
         self.buffer[: -self.blocksize, channel] = self.buffer[self.blocksize :, channel]
-- 
2.43.0


From 292efd55a0a2ea1627fa3d6137db959546479c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 08/78] fix: uniformly partitioned FIR keeps one buffer index
 per channel

---
 dsptoolbox/classes/fir_filter_realtime.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 4488eca..03a56d1 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -201,8 +201,8 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
             partitioned[: len(partition), n] = partition
         self.partitioned_spectrum = fft.rfft(partitioned, axis=0, n=self.fft_size)
 
-        # Buffer index for filter
-        self.buffer_ind = 0
+        # Buffer index for filter (per channel)
+        self.buffer_ind = np.zeros(n_channels, dtype=np.int_)
 
         # Helper for avoiding allocations in process
         self.buffer_index_helper = np.arange(self.n_partitions)
@@ -222,22 +222,20 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         self.input_buffer[-self.blocksize :, channel] = block
 
         # Transform input
-        self.buffer_spectra[:, self.buffer_ind, channel] = fft.rfft(
+        buffer_ind = self.buffer_ind[channel]
+        self.buffer_spectra[:, buffer_ind, channel] = fft.rfft(
             self.input_buffer[:, channel]
         )
 
         # Accumulate output of all filters with buffers
         output = np.sum(
             self.partitioned_spectrum
-            * self.buffer_spectra[
-                :, self.buffer_ind - self.buffer_index_helper, channel
-            ],
+            * self.buffer_spectra[:, buffer_ind - self.buffer_index_helper, channel],
             axis=1,
         )
 
         # Advance filter buffer
-        self.buffer_ind += 1
-        self.buffer_ind %= self.n_partitions
+        self.buffer_ind[channel] = (buffer_ind + 1) % self.n_partitions
 
         # Get output
         return fft.irfft(output)[-self.blocksize :]
-- 
2.43.0


From c04bfb1db40df270e8f18dd14f7bb5974ddfe445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:06 +0000
Subject: [PATCH 09/78] fix: multichannel partitioned FIR does not rescale the
 filter coefficients

---
 dsptoolbox/classes/fir_filter_realtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 03a56d1..79e829f 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -260,7 +260,9 @@ class FIRUniformPartitionedMultichannel(FIRUniformPartitioned):
 
         """
         # Bring into standard form
-        self.fir = Signal.from_time_data(fir, 10000).time_data
+        self.fir = Signal.from_time_data(
+            fir, 10000, constrain_amplitude=False
+        ).time_data
 
     def prepare(self, blocksize_samples: int):  # type: ignore
         """Prepares the processing.
-- 
2.43.0


From c0de8748d4ce75ee90b12466d44cc1155e84a0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 10/78] fix: lattice-ladder filter normalizes coefficients when
 a0 is not 1

---
 dsptoolbox/classes/lattice_ladder_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 9a3c900..b1be34a 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -134,7 +134,7 @@ class LatticeLadderFilter(RealtimeFilter):
                 return LatticeLadderFilter(k, c, filt.sampling_rate_hz)
 
             b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
-            k, c = _get_lattice_ladder_coefficients_iir(b, a)
+            k, c = _get_lattice_ladder_coefficients_iir(b / a[0], a / a[0])
             return LatticeLadderFilter(k, c, filt.sampling_rate_hz)
 
         # FIR
@@ -466,7 +466,7 @@ def _get_lattice_ladder_coefficients_iir_sos(
     """
     # Normalize second-order sections individually
     if not np.all(sos[:, 3] == 1.0):
-        sos /= sos[:, 3]
+        sos /= sos[:, 3][:, None]
 
     n_sections = sos.shape[0]
     k = np.zeros((n_sections, 2))
-- 
2.43.0


From f2f21d7b72b4e486092a6710f8a3f9fdf9627085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 11/78] fix: filter state returned from stateful filtering
 keeps one entry per channel

---
 dsptoolbox/classes/filter_helpers.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 004644c..42c39e8 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -279,9 +279,7 @@ def _filter_on_signal(
 
     # zi packing
     if zi is not None:
-        zi_new = []
-        for n in range(signal.number_of_channels):
-            zi_new.append(zi[:, :, n])
+        zi = [zi[:, :, n] for n in range(signal.number_of_channels)]
     return new_signal, zi
 
 
@@ -376,9 +374,7 @@ def _filter_on_signal_ba(
 
     # zi packing
     if zi is not None:
-        zi_new = []
-        for n in range(zi.shape[1]):
-            zi_new.append(zi[:, n])
+        zi = [zi[:, n] for n in range(zi.shape[1])]
     return new_signal, zi
 
 
-- 
2.43.0


From b93aafd18f6706f9bce1eae683110d6632bdca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 12/78] fix: stateful FIR filtering supports a single
 coefficient

---
 dsptoolbox/classes/filter_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 42c39e8..fcd5ce3 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -490,7 +490,7 @@ def _lfilter_fir(
     # Use zi's and take zf's
     if zi is not None:
         y[: zi.shape[0], :] += zi
-        zf = y[-zi.shape[0] :, :]
+        zf = y[x.shape[0] :, :]
 
     # Trim output
     y = y[: x.shape[0], :]
-- 
2.43.0


From a55d7e016f554e700ef5a12af708fb9c68fc4424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 13/78] fix: Linkwitz-Riley filter bank keeps separate allpass
 states per crossover

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index a2b65dc..3b3b96b 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -207,7 +207,7 @@ class LRFilterBank:
                     allp_zi_l = sosfilt_zi(self.sos[i2][0])  # Low band
                     allp_zi_h = sosfilt_zi(self.sos[i2][1])  # High band
                     al.append([allp_zi_l, allp_zi_h])
-                    allpass_zi.append(al)
+                allpass_zi.append(al)
             self.channels_zi.append([cross_zi, allpass_zi])
 
     # ======== Filtering ======================================================
-- 
2.43.0


From 423c945fe4de2a06a301ec85b054b8e8789b9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 14/78] fix: changing the spectrum smoothing invalidates the
 cached spectrum and CSM

---
 dsptoolbox/classes/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 652e0d3..5264eb0 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -702,6 +702,8 @@ class Signal(MultichannelData):
         """
         assert new_smoothing >= 0.0, "Smoothing must be positive or zero"
         self._spectrum_parameters["smoothing"] = float(new_smoothing)
+        self.__spectrum_state_update = True
+        self.__csm_state_update = True
 
     def set_spectrogram_parameters(
         self,
-- 
2.43.0


From 9bb9f2c353ad139fd234e5d7aba579b4a0e7d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 15/78] fix: time vector stays consistent after a failure and
 is not shared with the caller

---
 dsptoolbox/classes/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 5264eb0..f42b139 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -199,10 +199,10 @@ class Signal(MultichannelData):
 
     def _generate_time_vector(self):
         """Internal method to generate a time vector on demand."""
-        self.__time_vector_update = False
         self.__time_vector_s = np.linspace(
             0, len(self.time_data) / self.sampling_rate_hz, len(self.time_data)
         )
+        self.__time_vector_update = False
 
     # ======== Properties and setters =========================================
     @property
@@ -376,7 +376,7 @@ class Signal(MultichannelData):
         """Corresponding time vector for the signal."""
         if self.__time_vector_update:
             self._generate_time_vector()
-        return self.__time_vector_s
+        return self.__time_vector_s.copy()
 
     @property
     def time_data_imaginary(self) -> NDArray[np.float64] | None:
-- 
2.43.0


From 4961bef968290f77209b8a4e16db8d06112add60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 16/78] fix: spectrogram is only marked as up to date when it
 was cached

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index f42b139..d18818b 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1046,9 +1046,9 @@ class Signal(MultichannelData):
                 self._spectrogram_parameters["padding"],
                 self._spectrogram_parameters["scaling"],
             )
-            self.__spectrogram_state_update = False
             if self.activate_cache:
                 self.spectrogram = deepcopy(spectrogram)
+                self.__spectrogram_state_update = False
             return spectrogram[0], spectrogram[1], spectrogram[2]
 
         return (
-- 
2.43.0


From 40611b990c04b0ec5113c66ce73418db270ef459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:35 +0000
Subject: [PATCH 17/78] fix: setting or clearing the time window invalidates
 cached spectra

---
 dsptoolbox/classes/impulse_response.py | 1 +
 dsptoolbox/classes/signal.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index e1c6913..109ebec 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -149,6 +149,7 @@ class ImpulseResponse(Signal):
             window.shape == self.time_data.shape
         ), f"{window.shape} does not match shape {self.time_data.shape}"
         self.window = window
+        self._update_state()
         return self
 
     def plot_time(self) -> tuple[Figure, list[Axes]]:
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index d18818b..82afe43 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -857,6 +857,7 @@ class Signal(MultichannelData):
         """Deletes the time window of the signal in case there is any."""
         if hasattr(self, "window"):
             del self.window
+            self.__update_state()
         return self
 
     # ======== Getters ========================================================
-- 
2.43.0


From ced9754a26e4fbbdccd7b0598a79b9fe81a4ebf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 18/78] fix: plots and FFT cross-spectral matrix do not touch
 spectrum parameters or cache

---
 dsptoolbox/classes/impulse_response.py |  5 +--
 dsptoolbox/classes/signal.py           | 52 ++++++++++++--------------
 2 files changed, 25 insertions(+), 32 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 109ebec..ca07a6a 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -289,10 +289,7 @@ class ImpulseResponse(Signal):
             List containing the two axes of the plot.
 
         """
-        prior_smoothing = self.spectrum_smoothing
-        self.spectrum_smoothing = smoothing
-        f, sp = self.get_spectrum()
-        self.spectrum_smoothing = prior_smoothing
+        f, sp = self._get_spectrum_with_parameters(smoothing=float(smoothing))
         sp_abs = np.abs(sp)
 
         match normalize:
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 82afe43..5457310 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -4,7 +4,7 @@ Signal class
 
 from warnings import warn
 from pickle import dump, HIGHEST_PROTOCOL
-from copy import deepcopy
+from copy import copy, deepcopy
 import numpy as np
 import soundfile as sf
 from matplotlib.figure import Figure
@@ -992,17 +992,15 @@ class Signal(MultichannelData):
             else:
                 # Ensure a complex type of scaling during computation of
                 # spectrum
-                old_scaling = self.spectrum_scaling
-                self.spectrum_scaling = SpectrumScaling.FFTBackward
-
-                f, sp = self.get_spectrum()
+                f, sp = self._get_spectrum_with_parameters(
+                    scaling=SpectrumScaling.FFTBackward
+                )
                 csm = _csm_fft(
                     sp,
-                    old_scaling,
+                    self.spectrum_scaling,
                     self.window if hasattr(self, "window") else None,
                     self.sampling_rate_hz,
                 )
-                self.spectrum_scaling = old_scaling
             if self.activate_cache:
                 self.csm = [f.copy(), csm.copy()]
                 self.__csm_state_update = False
@@ -1058,6 +1056,18 @@ class Signal(MultichannelData):
             self.spectrogram[2].copy(),
         )
 
+    def _get_spectrum_with_parameters(
+        self, **parameters
+    ) -> tuple[NDArray[np.float64], NDArray[np.complex128 | np.float64]]:
+        """Spectrum computed with some parameters replaced by the passed ones.
+        The parameters and the cache of the signal are left untouched.
+
+        """
+        temporary = copy(self)
+        temporary.activate_cache = False
+        temporary._spectrum_parameters = self._spectrum_parameters | parameters
+        return temporary.get_spectrum(force_computation=True)
+
     # ======== Plots ==========================================================
     def plot_magnitude(
         self,
@@ -1104,14 +1114,8 @@ class Signal(MultichannelData):
           when no normalization is active.
 
         """
-        # Handle smoothing
-        prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
-
-        # Get spectrum
-        f, sp = self.get_spectrum()
-
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        # Get spectrum without smoothing
+        f, sp = self._get_spectrum_with_parameters(smoothing=0)
 
         f, mag_db = _get_normalized_spectrum(
             f=f,
@@ -1333,15 +1337,12 @@ class Signal(MultichannelData):
             Axes.
 
         """
-        # Handle spectrum parameters
-        prior_spectrum_parameters = self._spectrum_parameters
-        self.set_spectrum_parameters(
-            SpectrumMethod.FFT,
+        f, sp = self._get_spectrum_with_parameters(
+            method=SpectrumMethod.FFT,
             scaling=SpectrumScaling.FFTBackward,
             smoothing=0,
+            pad_to_fast_length=True,
         )
-        f, sp = self.get_spectrum()
-        self._spectrum_parameters = prior_spectrum_parameters
 
         ph = np.angle(sp)
 
@@ -1496,15 +1497,10 @@ class Signal(MultichannelData):
             self.spectrum_method == SpectrumMethod.FFT
         ), "Phase cannot be plotted since the spectrum is welch."
 
-        prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
-
-        # Get spectrum
-        f, sp = self.get_spectrum()
+        # Get spectrum without smoothing
+        f, sp = self._get_spectrum_with_parameters(smoothing=0)
         ph = np.angle(sp)
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
-
         if remove_ir_latency is None:
             pass
         elif type(remove_ir_latency) is str:
-- 
2.43.0


From b214959cf99dab972a6e9204f20381eabcdf9fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 19/78] fix: spectral distances do not change the spectrum
 parameters of their inputs

---
 dsptoolbox/distances/distances.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 7386460..3262106 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -80,6 +80,7 @@ def log_spectral(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
+    insig1, insig2 = insig1.copy(), insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
@@ -166,6 +167,7 @@ def itakura_saito(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
+    insig1, insig2 = insig1.copy(), insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
-- 
2.43.0


From f58568de7c3c61c3d7ce2136c7928a8d1e4e6134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 20/78] fix: fw_snr_seg does not sort the arrays of the caller

---
 dsptoolbox/distances/distances.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 3262106..ec656e2 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -342,8 +342,7 @@ def fw_snr_seg(
         multichannel = True
     # Frequency range
     assert len(f_range_hz) == 2, "Frequency range must have lower and upper bounds"
-    f_range = np.asarray(f_range_hz)
-    f_range.sort()
+    f_range = np.sort(f_range_hz)
     assert f_range[1] < fs_hz // 2, (
         f"Upper frequency range {f_range[1]} must be smaller than nyquist "
         + f"frequency {fs_hz // 2}"
@@ -351,8 +350,7 @@ def fw_snr_seg(
     assert f_range[0] > 0, "Frequency range must be positive"
     # SNR range
     assert len(snr_range_db) == 2, "SNR range must have lower and upper bounds"
-    snr_range_db = np.asarray(snr_range_db)
-    snr_range_db.sort()
+    snr_range_db = np.sort(snr_range_db)
     # Time window
     length_samp = int(75e-3 * fs_hz)
     if length_samp % 2 == 1:
-- 
2.43.0


From 4c0f2c6d782825d6e51de36a82cbb37ea0e2c2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 21/78] fix: collapsing a MultiBandSignal leaves its first band
 unmodified

---
 dsptoolbox/classes/multibandsignal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index e383c41..27f3fb9 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -416,7 +416,7 @@ class MultiBandSignal:
             self.same_sampling_rate
         ), "Collapsing is only available for same sampling rate bands"
         if self.bands[0].time_data_imaginary is None:
-            initial = self.bands[0].time_data
+            initial = self.bands[0].time_data.copy()
             for n in range(1, len(self.bands)):
                 initial += self.bands[n].time_data
         else:
-- 
2.43.0


From 62766123afc4da27baed7941a36314a9dfd91dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 22/78] fix: mel spectrogram and mfcc do not change the
 spectrogram parameters of the input

---
 dsptoolbox/transforms/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 2ca9f99..8b1cc6e 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -173,6 +173,7 @@ def log_mel_spectrogram(
 
     """
     if stft_parameters is not None:
+        s = s.copy()
         s.set_spectrogram_parameters(**stft_parameters)
     time_s, f_hz, sp = s.get_spectrogram()
 
@@ -403,6 +404,7 @@ def mfcc(
 
     """
     if stft_parameters is not None:
+        signal = signal.copy()
         signal.set_spectrogram_parameters(**stft_parameters)
     time_s, f, sp = signal.get_spectrogram()
 
-- 
2.43.0


From cb5dd49d49ef49b36360d687ebfde02161d759cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 23/78] fix: filter_and_resample_signal does not add
 coefficients to the filter

---
 dsptoolbox/classes/filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 5818d95..99a02d4 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -782,9 +782,9 @@ class Filter:
         # Check if standard or polyphase representation is to be used
         if self.is_fir:
             polyphase = True
+            ba = self.ba
         else:
-            if not hasattr(self, "ba"):
-                self.ba: list = list(sig.sos2tf(self.sos))
+            ba = self.ba if hasattr(self, "ba") else list(sig.sos2tf(self.sos))
             polyphase = False
 
         # Check if down- or upsampling is required
@@ -795,7 +795,7 @@ class Filter:
             new_time_data = _filter_and_downsample(
                 time_data=signal.time_data,
                 down_factor=fraction[1],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba,
                 polyphase=polyphase,
             )
         elif fraction[1] == 1:
@@ -806,7 +806,7 @@ class Filter:
             new_time_data = _filter_and_upsample(
                 time_data=signal.time_data,
                 up_factor=fraction[0],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba,
                 polyphase=polyphase,
             )
 
-- 
2.43.0


From 26283029d8242904dd648da663d513a64d40c8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 24/78] fix: group_delay does not change the spectrum method of
 the signal

---
 dsptoolbox/transfer_functions/transfer_functions.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index b82a953..5eca1f5 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -900,10 +900,7 @@ def group_delay(
     f = np.fft.rfftfreq(td.shape[0], 1 / signal.sampling_rate_hz)
 
     if not analytic_computation:
-        spec_parameters = signal._spectrum_parameters
-        signal.spectrum_method = SpectrumMethod.FFT
         sp = rfft_scipy(td, axis=0)
-        signal._spectrum_parameters = spec_parameters
 
         if remove_ir_latency:
             assert (
-- 
2.43.0


From 25d3cae145141bf83736f7938c1b29cd9acec2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 25/78] fix: find_modes does not change the spectrum method of
 the signal

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 3f66b86..e0ee322 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -180,11 +180,11 @@ def find_modes(
         "Range of frequencies must have a " + "minimum and a maximum value"
     )
     assert type(signal) is ImpulseResponse, "This is only valid for an impulse response"
-    signal.spectrum_method = SpectrumMethod.FFT
 
     # Pad signal to have a resolution of around 1 Hz
     length = signal.sampling_rate_hz
     signal = pad_trim(signal, length)
+    signal.spectrum_method = SpectrumMethod.FFT
     f, sp = signal.get_spectrum()
 
     # Setting up frequency range
-- 
2.43.0


From a35033aba2834e39abf7610a9078281928a26157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 26/78] fix: harmonic_distortion_analysis leaves the passed
 list and impulse responses unmodified

---
 dsptoolbox/transfer_functions/transfer_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 5eca1f5..e714abb 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1551,10 +1551,10 @@ def harmonic_distortion_analysis(
                 each_ir.number_of_channels == 1
             ), "Only single-channel IRs are supported"
 
-        ir2 = ir.pop(0)
-        ir2._spectrum_parameters["smoothing"] = smoothing
+        ir2 = ir[0].copy()
+        ir2.spectrum_smoothing = smoothing
 
-        harm = ir
+        harm = [h.copy() for h in ir[1:]]
         n_harmonics = len(harm)
         if chirp_range_hz is None:
             chirp_range_hz = [0, ir2.sampling_rate_hz // 2]
-- 
2.43.0


From 85da856397e2c87728c6553208357193980cfe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 27/78] fix: lufs_integrated does not change the signal

---
 dsptoolbox/standard/gain_and_level.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index f5a065d..6c0dbe0 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -262,10 +262,9 @@ def lufs_integrated(s: Signal) -> float:
     DIFF_GAMMA_R = 10
 
     # Filter handling amplitude
-    constrained = s.constrain_amplitude
-    s.constrain_amplitude = False
-    s_prefiltered = k_filter.filter_signal(s)
-    s.constrain_amplitude = constrained
+    s_prefiltered = s.copy()
+    s_prefiltered.constrain_amplitude = False
+    s_prefiltered = k_filter.filter_signal(s_prefiltered)
 
     # Compute blocks
     z_ji = np.mean(
-- 
2.43.0


From 208e888cd1d6a7acf186078dd51dbc111d7374fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:54 +0000
Subject: [PATCH 28/78] fix: Spectrum.to_signal does not change the
 interpolator parameters

---
 dsptoolbox/classes/spectrum.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 3b19d30..863238a 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -395,12 +395,14 @@ class Spectrum(MultichannelData):
                 1 / sampling_rate_hz,
             )
 
-        self.set_interpolator_parameters(
+        interpolator = self.copy().set_interpolator_parameters(
             InterpolationDomain.MagnitudePhase,
             InterpolationScheme.Pchip,
             InterpolationEdgeHandling.ZeroPad,
         )
-        spectrum = self.get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
+        spectrum = interpolator.get_interpolated_spectrum(
+            requested_freqs, SpectrumType.Complex
+        )
 
         return __td_from_spec(spectrum, length_seconds, sampling_rate_hz)
 
-- 
2.43.0


From ef0d59079f56e153d8fb65979154ea928ee3091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 29/78] fix: rejected bands leave the MultiBandSignal unchanged

---
 dsptoolbox/classes/multibandsignal.py | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 27f3fb9..c7649b6 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -145,41 +145,35 @@ class MultiBandSignal:
             new_bands = list(new_bands)
         assert type(new_bands) is list, "bands has to be a list"
         if new_bands:
-            # Check length and number of channels
-            self.__number_of_channels = new_bands[0].number_of_channels
+            # Everything is checked before anything is changed
             sr = []
-            complex_data = new_bands[0].time_data_imaginary is not None
             for s in new_bands:
                 assert isinstance(s, Signal), (
                     f"{type(s)} is not a valid " + "band type. Use Signal objects"
                 )
-                assert s.number_of_channels == self.number_of_channels, (
+                assert s.number_of_channels == new_bands[0].number_of_channels, (
                     "Signals have different number of channels. This "
                     + "behaviour is not supported"
                 )
-                assert (s.time_data_imaginary is not None) == complex_data, (
+                assert s.is_complex_signal == new_bands[0].is_complex_signal, (
                     "Some bands have imaginary time data and others do "
                     + "not. This behavior is not supported."
                 )
                 sr.append(s.sampling_rate_hz)
-            if self.same_sampling_rate:
-                self.sampling_rate_hz = new_bands[0].sampling_rate_hz
-                expected_length_samples = new_bands[0].length_samples
-            else:
-                self.sampling_rate_hz = sr
-            # Check sampling rate and duration
-            if self.same_sampling_rate:
-                for s in new_bands:
-                    assert s.sampling_rate_hz == self.sampling_rate_hz, (
+                if self.same_sampling_rate:
+                    assert s.sampling_rate_hz == new_bands[0].sampling_rate_hz, (
                         "Not all Signals have the same sampling rate. "
                         + "If you wish to create a multirate system, set "
                         + "same_sampling_rate to False"
                     )
-                    assert s.time_data.shape[0] == expected_length_samples, (
+                    assert s.length_samples == new_bands[0].length_samples, (
                         "The length of the bands is not always the same. "
                         + "This behaviour is not supported if there is a "
                         + "constant sampling rate"
                     )
+            number_of_channels = new_bands[0].number_of_channels
+            self.sampling_rate_hz = sr[0] if self.same_sampling_rate else sr
+            self.__number_of_channels = number_of_channels
         self.__bands: list[Signal] = new_bands
 
     @property
-- 
2.43.0


From fa068cb165f940a6461dafb204e6da6b0c6a33ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 30/78] fix: initializing or failing to filter leaves the
 filter state complete

---
 dsptoolbox/classes/filter.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 99a02d4..530ec0c 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -342,16 +342,18 @@ class Filter:
         assert (
             number_of_channels > 0
         ), """Zi's have to be initialized for at least one channel"""
-        self.zi = []
-        if hasattr(self, "sos"):
-            for _ in range(number_of_channels):
-                self.zi.append(sig.sosfilt_zi(self.sos))
-        else:
-            for _ in range(number_of_channels):
-                self.zi.append(sig.lfilter_zi(self.ba[0], self.ba[1]))
-
+        self.zi = self._get_steady_state_zi(number_of_channels)
         return self
 
+    def _get_steady_state_zi(self, number_of_channels: int) -> list:
+        """Steady-state zi for the given number of channels. The state of the
+        filter is not changed."""
+        if hasattr(self, "sos"):
+            return [sig.sosfilt_zi(self.sos) for _ in range(number_of_channels)]
+        return [
+            sig.lfilter_zi(self.ba[0], self.ba[1]) for _ in range(number_of_channels)
+        ]
+
     @property
     def metadata(self) -> dict:
         """Get a dictionary with metadata about the filter properties."""
@@ -700,16 +702,18 @@ class Filter:
         # Zi – create always for all channels and selected channels will get
         # updated while filtering
         if activate_zi:
+            # The state of the filter is only updated after filtering
             if not hasattr(self, "zi"):
-                self.initialize_zi(signal.number_of_channels)
-            if len(self.zi) != signal.number_of_channels:
+                zi_old = self._get_steady_state_zi(signal.number_of_channels)
+            elif len(self.zi) != signal.number_of_channels:
                 warn(
                     "zi values of the filter have not been correctly "
                     + "intialized for the number of channels. They have now"
                     + " been corrected"
                 )
-                self.initialize_zi(signal.number_of_channels)
-            zi_old = self.zi
+                zi_old = self._get_steady_state_zi(signal.number_of_channels)
+            else:
+                zi_old = self.zi
         else:
             zi_old = None
 
-- 
2.43.0


From 9838012a78c0c55a7625b661bdb055e3d4a48ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 31/78] fix: rejected filters or failed stateful filtering
 leave the FilterBank unchanged

---
 dsptoolbox/classes/filterbank.py | 97 +++++++++++++++++++-------------
 1 file changed, 57 insertions(+), 40 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 31e200f..a408d2f 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -1,4 +1,5 @@
 from pickle import dump, HIGHEST_PROTOCOL
+from contextlib import contextmanager
 from copy import deepcopy
 import numpy as np
 from warnings import warn
@@ -133,10 +134,28 @@ class FilterBank:
             Default: 1.
 
         """
-        for f in self.filters:
-            f.initialize_zi(number_of_channels)
+        with self._restore_zi_on_failure():
+            for f in self.filters:
+                f.initialize_zi(number_of_channels)
         return self
 
+    @contextmanager
+    def _restore_zi_on_failure(self, active: bool = True):
+        """When the block fails, all filters recover their previous states."""
+        if not active:
+            yield
+            return
+        states = [getattr(f, "zi", None) for f in self.filters]
+        try:
+            yield
+        except BaseException:
+            for f, zi in zip(self.filters, states):
+                if zi is not None:
+                    f.zi = zi
+                elif hasattr(f, "zi"):
+                    del f.zi
+            raise
+
     @property
     def sampling_rate_hz(self) -> int | list[int]:
         """Get the sampling rate(s) in Hz.
@@ -223,21 +242,18 @@ class FilterBank:
             new_filters = list(new_filters)
         assert type(new_filters) is list, "Filters have to be passed as a list"
         if new_filters:
-            if self.same_sampling_rate:
-                self.sampling_rate_hz = new_filters[0].sampling_rate_hz
-            else:
-                sr = []
-                for f in new_filters:
-                    sr.append(f.sampling_rate_hz)
-                self.sampling_rate_hz = sr
             for ind, f in enumerate(new_filters):
                 assert (
                     type(f) is Filter
                 ), f"Object at index {ind} is not a supported Filter"
                 if self.same_sampling_rate:
                     assert (
-                        f.sampling_rate_hz == self.sampling_rate_hz
+                        f.sampling_rate_hz == new_filters[0].sampling_rate_hz
                     ), "Sampling rates do not match"
+            if self.same_sampling_rate:
+                self.sampling_rate_hz = new_filters[0].sampling_rate_hz
+            else:
+                self.sampling_rate_hz = [f.sampling_rate_hz for f in new_filters]
         self.__filters = new_filters
 
     @property
@@ -311,7 +327,6 @@ class FilterBank:
 
         """
         if not self.filters:
-            self.sampling_rate_hz = filt.sampling_rate_hz
             self.filters = [filt]
         else:
             fs = self.filters.copy()
@@ -460,20 +475,21 @@ class FilterBank:
             assert not activate_zi, (
                 "Zero-phase filtering and zi cannot be used at " + "the same time"
             )
-        if activate_zi:
-            if not hasattr(self.filters[0], "zi"):
-                self.initialize_zi(signal.number_of_channels)
-            if len(self.filters[0].zi) != signal.number_of_channels:
-                self.initialize_zi(signal.number_of_channels)
-
-        new_sig = _filterbank_on_signal(
-            signal,
-            self.filters,
-            mode=mode,
-            activate_zi=activate_zi,
-            zero_phase=zero_phase,
-            same_sampling_rate=self.same_sampling_rate,
-        )
+        with self._restore_zi_on_failure(activate_zi):
+            if activate_zi:
+                if not hasattr(self.filters[0], "zi"):
+                    self.initialize_zi(signal.number_of_channels)
+                if len(self.filters[0].zi) != signal.number_of_channels:
+                    self.initialize_zi(signal.number_of_channels)
+
+            new_sig = _filterbank_on_signal(
+                signal,
+                self.filters,
+                mode=mode,
+                activate_zi=activate_zi,
+                zero_phase=zero_phase,
+                same_sampling_rate=self.same_sampling_rate,
+            )
         return new_sig
 
     def filter_multiband_signal(
@@ -512,21 +528,22 @@ class FilterBank:
             assert not activate_zi, (
                 "Zero-phase filtering and zi cannot be used at " + "the same time"
             )
-        if activate_zi:
-            if not hasattr(self.filters[0], "zi"):
-                self.initialize_zi(mbsignal.number_of_channels)
-            if len(self.filters[0].zi) != mbsignal.number_of_channels:
-                self.initialize_zi(mbsignal.number_of_channels)
-
-        new_sig = mbsignal.copy()
-
-        for n in range(mbsignal.number_of_bands):
-            new_sig.bands[n] = self.filters[n].filter_signal(
-                mbsignal.bands[n],
-                channels=None,
-                activate_zi=activate_zi,
-                zero_phase=zero_phase,
-            )
+        with self._restore_zi_on_failure(activate_zi):
+            if activate_zi:
+                if not hasattr(self.filters[0], "zi"):
+                    self.initialize_zi(mbsignal.number_of_channels)
+                if len(self.filters[0].zi) != mbsignal.number_of_channels:
+                    self.initialize_zi(mbsignal.number_of_channels)
+
+            new_sig = mbsignal.copy()
+
+            for n in range(mbsignal.number_of_bands):
+                new_sig.bands[n] = self.filters[n].filter_signal(
+                    mbsignal.bands[n],
+                    channels=None,
+                    activate_zi=activate_zi,
+                    zero_phase=zero_phase,
+                )
         return new_sig
 
     # ======== Get impulse ====================================================
-- 
2.43.0


From 9d02bea605b6d5bde2082b930256a2a5e72610a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 32/78] fix: failed stateful filtering leaves the
 Linkwitz-Riley states unchanged

---
 dsptoolbox/filterbanks/_filterbank.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 3b3b96b..7d7a1ac 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -194,7 +194,7 @@ class LRFilterBank:
         # all_cross_zi = [[cross0_zi], [cross1_zi], [cross2_zi], ...]
         # cross0_zi = [[low_zi, high_zi], [allpass1_zi], [allpass2_zi], ...]
         # allpass1_zi = [low_zi, high_zi]
-        self.channels_zi = []
+        channels_zi = []
         for _ in range(number_of_channels):
             cross_zi = []
             allpass_zi = []
@@ -208,7 +208,8 @@ class LRFilterBank:
                     allp_zi_h = sosfilt_zi(self.sos[i2][1])  # High band
                     al.append([allp_zi_l, allp_zi_h])
                 allpass_zi.append(al)
-            self.channels_zi.append([cross_zi, allpass_zi])
+            channels_zi.append([cross_zi, allpass_zi])
+        self.channels_zi = channels_zi
 
     # ======== Filtering ======================================================
     def filter_signal(
@@ -240,6 +241,24 @@ class LRFilterBank:
             A MultiBandSignal object containing all bands and all channels.
 
         """
+        if not activate_zi:
+            return self._filter_signal(s, mode, False, zero_phase)
+
+        # Recover the previous states in case of failure
+        previous_zi = deepcopy(getattr(self, "channels_zi", None))
+        try:
+            return self._filter_signal(s, mode, True, zero_phase)
+        except BaseException:
+            if previous_zi is not None:
+                self.channels_zi = previous_zi
+            elif hasattr(self, "channels_zi"):
+                del self.channels_zi
+            raise
+
+    def _filter_signal(
+        self, s: Signal, mode: FilterBankMode, activate_zi: bool, zero_phase: bool
+    ) -> MultiBandSignal | Signal:
+        """Backend for `filter_signal()`."""
         if mode == FilterBankMode.Sequential:
             warn(
                 "sequential mode is not supported for this filter bank. "
-- 
2.43.0


From 235701ec0421c03dce1d0833a8bb251f507c25b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 33/78] fix: rejected spectral data and failed trim or resample
 leave the Spectrum unchanged

---
 dsptoolbox/classes/spectrum.py | 35 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 863238a..68cfaac 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -260,13 +260,12 @@ class Spectrum(MultichannelData):
             data.shape[0] == self.number_frequency_bins
         ), "Spectral data and frequency vector lengths do not match"
         is_magnitude = np.isrealobj(data)
-        self.__spectral_data = data.astype(
-            np.float64 if is_magnitude else np.complex128
-        )
-        if self.is_magnitude:
+        data = data.astype(np.float64 if is_magnitude else np.complex128)
+        if is_magnitude:
             assert np.all(
-                self.__spectral_data >= 0.0
+                data >= 0.0
             ), "No negative values are allowed for the magnitude spectrum"
+        self.__spectral_data = data
 
     @property
     def is_magnitude(self) -> bool:
@@ -430,10 +429,21 @@ class Spectrum(MultichannelData):
 
         """
         s = self.__freqs_to_slice(f_lower_hz, f_upper_hz, inclusive)
-        self.frequency_vector_hz = self.frequency_vector_hz[s]
-        self.spectral_data = self.spectral_data[s, ...]
+        self.__set_frequencies_and_data(
+            self.frequency_vector_hz[s], self.spectral_data[s, ...]
+        )
         return self
 
+    def __set_frequencies_and_data(self, new_freqs_hz, new_data):
+        """Replace frequency vector and spectral data together. Nothing is
+        changed if they are not valid.
+
+        """
+        new = Spectrum(new_freqs_hz, new_data)
+        self.__frequency_vector_type = new.frequency_vector_type
+        self.__frequency_vector_hz = new.frequency_vector_hz
+        self.__spectral_data = new.spectral_data
+
     def sum_channels(self, power_sum: bool = True) -> "Spectrum":
         """Sum all channels of the spectrum and return new spectrum with single channel.
 
@@ -476,7 +486,7 @@ class Spectrum(MultichannelData):
         self
 
         """
-        self.set_interpolator_parameters(
+        interpolator = self.copy().set_interpolator_parameters(
             (
                 InterpolationDomain.Power
                 if self.is_magnitude
@@ -485,12 +495,11 @@ class Spectrum(MultichannelData):
             self.__int_scheme,
             self.__int_edges,
         )
-        new_sp = self.get_interpolated_spectrum(
+        new_sp = interpolator.get_interpolated_spectrum(
             new_freqs_hz,
             (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
         )
-        self.frequency_vector_hz = new_freqs_hz
-        self.spectral_data = new_sp
+        self.__set_frequencies_and_data(new_freqs_hz, new_sp)
         return self
 
     def normalize(
@@ -519,7 +528,7 @@ class Spectrum(MultichannelData):
         normalization_value = (
             values if reference_channel is None else values[0, reference_channel]
         )
-        self.spectral_data /= normalization_value
+        self.spectral_data = self.spectral_data / normalization_value
         return self
 
     def apply_gain(self, gain_db: float | NDArray[np.float64]):
@@ -540,7 +549,7 @@ class Spectrum(MultichannelData):
         assert (
             len(gains) == 1 or len(gains) == self.number_of_channels
         ), "Number of gains is not compatible"
-        self.spectral_data *= from_db(gains, True)
+        self.spectral_data = self.spectral_data * from_db(gains, True)
         return self
 
     def get_interpolated_spectrum(
-- 
2.43.0


From e63b82d3c47e4ad3180d3a2e269def92e9e414d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 34/78] fix: constraining the amplitude keeps the imaginary
 part and is not left half-done

---
 dsptoolbox/classes/signal.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 5457310..c4681f2 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -279,14 +279,14 @@ class Signal(MultichannelData):
             if new_time_data_imag is not None:
                 time_data_max = max(time_data_max, np.max(np.abs(new_time_data_imag)))
             if time_data_max > 1.0:
-                new_time_data /= time_data_max
+                new_time_data = new_time_data / time_data_max
                 warn(
                     "Signal was over 0 dBFS, normalizing to 0 dBFS "
                     + "peak level was triggered"
                 )
                 # Imaginary part is also scaled by same factor as real part
                 if new_time_data_imag is not None:
-                    new_time_data_imag /= time_data_max
+                    new_time_data_imag = new_time_data_imag / time_data_max
                 self.__amplitude_scale_factor = 1.0 / time_data_max
             else:
                 self.__amplitude_scale_factor = 1.0
@@ -449,11 +449,18 @@ class Signal(MultichannelData):
 
         """
         assert type(nca) is bool, "constrain_amplitude must be of type boolean"
+        previous = getattr(self, "constrain_amplitude", nca)
         self.__constrain_amplitude = nca
         # Restart time data setter for triggering normalization if needed
         if nca and hasattr(self, "time_data"):
             ntd = self.time_data
-            self.time_data = ntd
+            if self.is_complex_signal:
+                ntd = ntd + 1j * self.time_data_imaginary
+            try:
+                self.time_data = ntd
+            except BaseException:
+                self.__constrain_amplitude = previous
+                raise
 
     @property
     def calibrated_signal(self) -> bool:
-- 
2.43.0


From cc64d68f8bbc8b1faba9ede5ccafeee03be5d311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 35/78] fix: adding a channel keeps the imaginary part of a
 complex signal

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index c4681f2..423fa7a 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -856,7 +856,7 @@ class Signal(MultichannelData):
                     + f"{self.time_data.shape[0]}. Activate allow_padding_trimming "
                     + "for allowing this channel to be added"
                 )
-        self.time_data = np.concatenate([self.time_data, new_time_data], axis=1)
+        self.time_data = np.concatenate([self._get_data(), new_time_data], axis=1)
         self.__update_state()
         return self
 
-- 
2.43.0


From 330a59c9e4321fb271c406afd606d65b9fcded66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 36/78] fix: appending multiband signals uses each band of the
 first one

---
 dsptoolbox/standard/appending.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/appending.py b/dsptoolbox/standard/appending.py
index 54b93e5..cd293f9 100644
--- a/dsptoolbox/standard/appending.py
+++ b/dsptoolbox/standard/appending.py
@@ -115,7 +115,7 @@ def append_signals(
         signals_without_first = signals.copy()  # Shallow copy
         signals_without_first.pop(0)
         for n in range(signals[0].number_of_bands):
-            new_band = signals[0].bands[0].copy()
+            new_band = signals[0].bands[n].copy()
             for s in signals_without_first:
                 new_band = append_signals(
                     [new_band, s.bands[n]], allow_padding_trimming, at_end
-- 
2.43.0


From 0a0eb243669da1a1723d6e967f956fe381802853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:33 +0000
Subject: [PATCH 37/78] fix: coherence and interpolation domain follow the
 channels of a Spectrum

---
 dsptoolbox/classes/spectrum.py | 61 +++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 68cfaac..d0724ca 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -429,11 +429,56 @@ class Spectrum(MultichannelData):
 
         """
         s = self.__freqs_to_slice(f_lower_hz, f_upper_hz, inclusive)
+        coherence = self.__get_valid_coherence()
+        if coherence is not None:
+            coherence = coherence[s, ...].copy()
         self.__set_frequencies_and_data(
             self.frequency_vector_hz[s], self.spectral_data[s, ...]
         )
+        if coherence is not None:
+            self.coherence = coherence
         return self
 
+    def __get_valid_coherence(self) -> NDArray[np.float64] | None:
+        """Return the coherence when it corresponds to the spectral data."""
+        if self.has_coherence and self.coherence.shape == self.spectral_data.shape:
+            return self.coherence
+        return None
+
+    def remove_channel(self, channel_number: int = -1):
+        new = self.copy()
+        coherence = new.__get_valid_coherence()
+        super(Spectrum, new).remove_channel(channel_number)
+        if coherence is not None:
+            new.set_coherence(np.delete(coherence, channel_number, axis=-1))
+        self.__dict__.update(new.__dict__)
+        return self
+
+    remove_channel.__doc__ = MultichannelData.remove_channel.__doc__
+
+    def swap_channels(self, new_order):
+        new = self.copy()
+        coherence = new.__get_valid_coherence()
+        super(Spectrum, new).swap_channels(new_order)
+        if coherence is not None:
+            new_order = np.atleast_1d(np.asarray(new_order).squeeze())
+            new.set_coherence(coherence[:, new_order])
+        self.__dict__.update(new.__dict__)
+        return self
+
+    swap_channels.__doc__ = MultichannelData.swap_channels.__doc__
+
+    def get_channels(self, channels: int | ArrayLike):
+        coherence = self.__get_valid_coherence()
+        new_spectrum = super().get_channels(channels)
+        if coherence is not None:
+            new_spectrum.set_coherence(
+                coherence[:, np.atleast_1d(np.asarray(channels).squeeze())]
+            )
+        return new_spectrum
+
+    get_channels.__doc__ = MultichannelData.get_channels.__doc__
+
     def __set_frequencies_and_data(self, new_freqs_hz, new_data):
         """Replace frequency vector and spectral data together. Nothing is
         changed if they are not valid.
@@ -1021,15 +1066,21 @@ class Spectrum(MultichannelData):
     ) -> "Spectrum":
         """Create a copy with new spectral data."""
         new_spectrum = Spectrum(self.frequency_vector_hz, data)
-        # Copy interpolator parameters
+        # Copy interpolator parameters. A complex domain is not possible for
+        # magnitude data
         new_spectrum.set_interpolator_parameters(
-            self.__int_domain,
+            (
+                InterpolationDomain.Power
+                if new_spectrum.is_magnitude and self.__int_domain.is_complex()
+                else self.__int_domain
+            ),
             self.__int_scheme,
             self.__int_edges,
         )
-        # Copy coherence if it exists
-        if self.has_coherence:
-            new_spectrum.set_coherence(self.coherence)
+        # Copy coherence if it corresponds to the new data
+        coherence = self.__get_valid_coherence()
+        if coherence is not None and coherence.shape == new_spectrum._get_data().shape:
+            new_spectrum.set_coherence(coherence.copy())
         return new_spectrum
 
     def _update_state(self) -> None:
-- 
2.43.0


From e4d8c6bd83f399d68f1fe8d71db33e31a5e760f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 38/78] fix: swapping the bands or filters of a container with
 a single one

---
 dsptoolbox/classes/filterbank.py      | 2 +-
 dsptoolbox/classes/multibandsignal.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index a408d2f..63ca1a2 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -387,7 +387,7 @@ class FilterBank:
         self
 
         """
-        new_order = np.array(new_order).squeeze()
+        new_order = np.atleast_1d(np.array(new_order).squeeze())
         assert new_order.ndim == 1, (
             "Too many or too few dimensions are given in the new "
             + "arrangement vector"
diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index c7649b6..df06d17 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -378,7 +378,7 @@ class MultiBandSignal:
             New rearrangement of bands.
 
         """
-        new_order = array(new_order).squeeze()
+        new_order = atleast_1d(array(new_order).squeeze())
         assert new_order.ndim == 1, (
             "Too many or too few dimensions are given in the new "
             + "arrangement vector"
-- 
2.43.0


From 3a6294dd9804d898e1a7bebf180f35620eb5d640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:43 +0000
Subject: [PATCH 39/78] fix: MultiBandSignal.get_all_bands does not rescale
 impulse responses

---
 dsptoolbox/classes/multibandsignal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index df06d17..21910c7 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -494,7 +494,10 @@ class MultiBandSignal:
                         + self.bands[n].time_data_imaginary[:, channel] * 1j
                     )
             return self.__get_type_of_signal_bands()(
-                None, new_time_data, self.sampling_rate_hz
+                None,
+                new_time_data,
+                self.sampling_rate_hz,
+                self.bands[0].constrain_amplitude,
             )
 
         new_time_data = []
-- 
2.43.0


From 5b4fcc494766e766203eff3305ec9aaee07cb9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 40/78] fix: ImpulseResponse.from_signal does not share its
 samples with the signal

---
 dsptoolbox/classes/impulse_response.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index ca07a6a..2ec8e59 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -80,12 +80,13 @@ class ImpulseResponse(Signal):
         """
         ir = ImpulseResponse(
             None,
-            signal.time_data,
+            signal.time_data.copy(),
             signal.sampling_rate_hz,
             signal.constrain_amplitude,
         )
         ir.calibrated_signal = signal.calibrated_signal
-        ir.time_data_imaginary = signal.time_data_imaginary
+        if signal.is_complex_signal:
+            ir.time_data_imaginary = signal.time_data_imaginary.copy()
         return ir
 
     @staticmethod
-- 
2.43.0


From 378c79ca7c382a1d6d1ef17afab7cd1ace5eaff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:06 +0000
Subject: [PATCH 41/78] fix: copy_with_new_time_data owns its samples alone

---
 dsptoolbox/classes/signal.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 423fa7a..f6043e9 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1665,17 +1665,12 @@ class Signal(MultichannelData):
 
         Notes
         -----
-        - This signal object will own the time data alone, so when passing an
-          array, it is checked whether its memory belongs to another array or
-          not. If so, a copy is made.
+        - This signal object will own the time data alone, so a copy of the
+          passed array is made.
 
         """
-        # Copy if the underlying memory belongs to another array
         if isinstance(new_time_data, np.ndarray):
-            new_time_data = (
-                new_time_data if new_time_data.base is None else new_time_data.copy()
-            )
-        #
+            new_time_data = new_time_data.copy()
         new_signal = Signal.from_time_data(
             new_time_data, self.sampling_rate_hz, self.constrain_amplitude
         )
-- 
2.43.0


From d4477a754cd05a49adbfaf740191d4b965ece85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 42/78] fix: windows keep their own extra parameter

---
 dsptoolbox/standard/enums.py | 40 ++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/standard/enums.py b/dsptoolbox/standard/enums.py
index ff80e69..ed81325 100644
--- a/dsptoolbox/standard/enums.py
+++ b/dsptoolbox/standard/enums.py
@@ -389,8 +389,32 @@ class Window(Enum):
         Refer to `scipy.signal.windows` for more information.
 
         """
-        self.__extra_parameter = extra_parameter
-        return self
+        # The enum members are shared by the whole process, so the parameter
+        # is saved in a new object
+        new_window = object.__new__(Window)
+        new_window._name_ = self._name_
+        new_window._value_ = self._value_
+        new_window.__extra_parameter = extra_parameter
+        return new_window
+
+    def __eq__(self, other):
+        if not isinstance(other, Window):
+            return NotImplemented
+        return self._value_ == other._value_ and np.array_equal(
+            getattr(self, "_Window__extra_parameter", None),
+            getattr(other, "_Window__extra_parameter", None),
+        )
+
+    def __hash__(self):
+        return hash(self._value_)
+
+    def __reduce_ex__(self, protocol):
+        if not hasattr(self, "_Window__extra_parameter"):
+            return super().__reduce_ex__(protocol)
+        return Window.with_extra_parameter, (
+            Window(self._value_),
+            self.__extra_parameter,
+        )
 
     def to_scipy_format(self):
         """Parse to format for passing to
@@ -398,7 +422,7 @@ class Window(Enum):
 
         """
         if self.needs_extra_parameter():
-            if self == Window.GeneralGaussian:
+            if self.name == Window.GeneralGaussian.name:
                 return (
                     self.__to_str(),
                     self.extra_parameter[0],
@@ -408,20 +432,20 @@ class Window(Enum):
         return self.__to_str()
 
     def __to_str(self) -> str:
-        if self == Window.KaiserBesselDerived:
+        if self.name == Window.KaiserBesselDerived.name:
             return "kaiser_bessel_derived"
-        if self == Window.GeneralCosine:
+        if self.name == Window.GeneralCosine.name:
             return "general_cosine"
-        if self == Window.GeneralGaussian:
+        if self.name == Window.GeneralGaussian.name:
             return "general_gaussian"
-        if self == Window.GeneralHamming:
+        if self.name == Window.GeneralHamming.name:
             return "general_hamming"
 
         return self.name.lower()
 
     def needs_extra_parameter(self) -> bool:
         """When True, window type requires a new parameter."""
-        return self in (
+        return Window(self.value) in (
             Window.Kaiser,
             Window.KaiserBesselDerived,
             Window.Gaussian,
-- 
2.43.0


From 66420d7bef42f47b65d51d88e95b36e54c5d68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 43/78] fix: scale_spectrum leaves the passed spectrum
 untouched

---
 dsptoolbox/helpers/spectrum_utilities.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 37c9d91..2caf6b9 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -314,6 +314,9 @@ def _scale_spectrum(
 
     factor = scaling.get_scaling_factor(time_length_samples, sampling_rate_hz, window)
 
+    # Scaling is done on a copy, the input belongs to the caller
+    spectrum = spectrum.copy()
+
     # One-sided fix for DC and Nyquist (assuming input was linear)
     spectrum[0] /= 2**0.5
     if time_length_samples % 2 == 0:
-- 
2.43.0


From 302536727145a66ac9031665ccdefb83e16257ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 44/78] fix: audio effects keep the state of a use apart from
 their parameters

---
 dsptoolbox/effects/effects.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index d8bd109..cc09eb0 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -24,6 +24,7 @@ from .enums import DistortionType
 from scipy.signal.windows import get_window
 import numpy as np
 from numpy.typing import NDArray
+from copy import copy
 from warnings import warn
 
 __all__ = [
@@ -35,6 +36,9 @@ __all__ = [
 class AudioEffect:
     """Base class for audio effects."""
 
+    # Attributes of the last use that the effect exposes
+    _readable_after_use: tuple[str, ...] = ()
+
     def __init__(self, description: str | None = None):
         """Base constructor for an audio effect.
 
@@ -62,7 +66,13 @@ class AudioEffect:
 
         """
         if isinstance(signal, Signal):
-            return self._apply_this_effect(signal)
+            # The state of a use is kept apart from the effect, since another
+            # use must not see it
+            use = copy(self)
+            output = use._apply_this_effect(signal)
+            for name in self._readable_after_use:
+                setattr(self, name, getattr(use, name))
+            return output
         elif type(signal) is MultiBandSignal:
             new_mbs = signal.copy()
             for i, b in enumerate(new_mbs.bands):
@@ -143,6 +153,8 @@ class SpectralSubtractor(AudioEffect):
 
     """
 
+    _readable_after_use = ("window_length", "window", "step_size")
+
     def __init__(
         self,
         adaptive_mode: bool = True,
-- 
2.43.0


From 8e7bcc9ede155b9b5dce25b92d6d695139f5d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 45/78] fix: Compressor applies its post gain and leaves its
 input untouched

---
 dsptoolbox/effects/effects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index cc09eb0..3caa032 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -996,7 +996,7 @@ class Compressor(AudioEffect):
 
         # If normalize or absolute
         if self.relative_to_peak_level:
-            td /= self._peak_values
+            td = td / self._peak_values
 
         attack_time_samples = int(self.attack_time_ms * 1e-3 * fs_hz)
         release_time_samples = int(self.release_time_ms * 1e-3 * fs_hz)
@@ -1021,7 +1021,7 @@ class Compressor(AudioEffect):
             td = self._restore_rms_values(td)
 
         # Post-compression gain
-        td = self._add_gain_in_db(td, self.pre_gain_db)
+        td = self._add_gain_in_db(td, self.post_gain_db)
 
         return signal.copy_with_new_time_data(td)
 
-- 
2.43.0


From be163e4c9b53bfb4dbc1fee38718329cf854912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:23 +0000
Subject: [PATCH 46/78] fix: DigitalDelay leaves None parameters unchanged and
 takes a callable saturation

---
 dsptoolbox/effects/effects.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 3caa032..28e30fe 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1363,11 +1363,13 @@ class DigitalDelay(AudioEffect):
 
     def __set_parameters(self, delay_time_ms: float, feedback: int):
         """Internal method to change parameters."""
-        assert delay_time_ms > 0, "Delay time must be larger than 0"
-        self.delay_ms = delay_time_ms
+        if delay_time_ms is not None:
+            assert delay_time_ms > 0, "Delay time must be larger than 0"
+            self.delay_ms = delay_time_ms
 
-        assert feedback > 0, "Feedback must be larger than one"
-        self.feedback = feedback
+        if feedback is not None:
+            assert feedback > 0, "Feedback must be larger than one"
+            self.feedback = feedback
 
     def set_parameters(
         self, delay_time_ms: float | None = None, feedback: float | None = None
@@ -1404,7 +1406,8 @@ class DigitalDelay(AudioEffect):
         """
         if saturation is None:
             saturation = "digital"
-        saturation = saturation.lower()
+        if isinstance(saturation, str):
+            saturation = saturation.lower()
         if saturation == "digital":
 
             def func(x):
-- 
2.43.0


From a0af7abf25db2eb0568d61d9c8520309a8b7be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 47/78] fix: rejected effect parameters leave the effect
 unchanged

---
 dsptoolbox/effects/_effects.py |  2 ++
 dsptoolbox/effects/effects.py  | 21 ++++++++++++++++++++-
 dsptoolbox/helpers/other.py    | 20 ++++++++++++++++++++
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 4aa6219..5412f62 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -5,6 +5,7 @@ Backend for the effects module
 import numpy as np
 from numpy.typing import NDArray
 
+from ..helpers.other import _all_or_nothing
 from ..helpers.smoothing import _get_smoothing_factor_ema
 from ..plots import general_plot
 from ..tools import from_db
@@ -368,6 +369,7 @@ class LFO:
         if random_phase is not None:
             self.random_phase = random_phase
 
+    @_all_or_nothing
     def set_parameters(
         self,
         frequency_hz: float | tuple | None = None,
diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 28e30fe..ae7e800 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -16,7 +16,7 @@ from ._effects import (
     get_time_period_from_musical_rhythm,
 )
 from ..plots import general_plot
-from ..helpers.other import _get_next_power_2, _pad_trim
+from ..helpers.other import _all_or_nothing, _get_next_power_2, _pad_trim
 from ..helpers.gain_and_level import _rms, to_db
 from ..standard.enums import SpectrumMethod, SpectrumScaling, Window
 from .enums import DistortionType
@@ -258,6 +258,7 @@ class SpectralSubtractor(AudioEffect):
                     self.adaptive_mode = False
             self.spectrum_to_subtract = spectrum_to_subtract
 
+    @_all_or_nothing
     def set_advanced_parameters(
         self,
         overlap_percent: int = 50,
@@ -360,6 +361,7 @@ class SpectralSubtractor(AudioEffect):
         ), "Release time for activity detector must be 0 or above"
         self.ad_release_time_ms = ad_release_time_ms
 
+    @_all_or_nothing
     def set_parameters(
         self,
         adaptive_mode: bool | None = None,
@@ -613,6 +615,7 @@ class Distortion(AudioEffect):
             post_gain_db=post_gain_db,
         )
 
+    @_all_or_nothing
     def set_advanced_parameters(
         self,
         type_of_distortion: (
@@ -839,6 +842,7 @@ class Compressor(AudioEffect):
         if relative_to_peak_level is not None:
             self.relative_to_peak_level = relative_to_peak_level
 
+    @_all_or_nothing
     def set_parameters(
         self,
         threshold_dbfs: float | None = None,
@@ -881,6 +885,7 @@ class Compressor(AudioEffect):
         assert self.ratio is not None, "None is not a valid value"
         assert self.relative_to_peak_level is not None, "None is not a valid value"
 
+    @_all_or_nothing
     def set_advanced_parameters(
         self,
         knee_factor_db: float = 0,
@@ -1075,6 +1080,7 @@ class Tremolo(AudioEffect):
                 assert depth > 0 and depth <= 1, "Depth must be in ]0, 1]"
             self.depth = depth
 
+    @_all_or_nothing
     def set_parameters(
         self,
         depth: float | None = None,
@@ -1256,6 +1262,16 @@ class Chorus(AudioEffect):
             if len(self.depths_ms) == 1:
                 self.depths_ms = np.repeat(self.depths_ms, self.number_of_voices)
 
+        # Parameters that were left unchanged must still fit all voices
+        for name in ("base_delays_ms", "depths_ms", "modulators"):
+            values = getattr(self, name)
+            if len(values) == 1:
+                values = [values[0]] * self.number_of_voices
+                setattr(self, name, values)
+            assert (
+                len(values) == self.number_of_voices
+            ), f"Length of {name} does not match the number of voices"
+
         if mix_percent is not None:
             mix_percent /= 100
             assert (
@@ -1263,6 +1279,7 @@ class Chorus(AudioEffect):
             ), "Mix percent must be below 100 and above 0"
             self.mix = mix_percent
 
+    @_all_or_nothing
     def set_parameters(
         self,
         depths_ms: float | NDArray[np.float64] | None = None,
@@ -1371,6 +1388,7 @@ class DigitalDelay(AudioEffect):
             assert feedback > 0, "Feedback must be larger than one"
             self.feedback = feedback
 
+    @_all_or_nothing
     def set_parameters(
         self, delay_time_ms: float | None = None, feedback: float | None = None
     ):
@@ -1391,6 +1409,7 @@ class DigitalDelay(AudioEffect):
         assert self.delay_ms is not None
         assert self.feedback is not None
 
+    @_all_or_nothing
     def set_advanced_parameters(self, saturation: str | None = None):
         """This function sets the advanced parameters for the delay effect.
 
diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index 9964ce1..3dfe0cf 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -1,3 +1,4 @@
+from functools import wraps
 from os import sep
 import numpy as np
 from numpy.typing import NDArray
@@ -257,3 +258,22 @@ def _pad_trim(
     if throw_axis:
         new_vec = new_vec[:, 0]
     return new_vec
+
+
+def _all_or_nothing(set_parameters):
+    """Decorator for methods that set parameters: if a value is rejected, the
+    object keeps all its previous parameters.
+
+    """
+
+    @wraps(set_parameters)
+    def wrapper(self, *args, **kwargs):
+        previous = self.__dict__.copy()
+        try:
+            return set_parameters(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(previous)
+            raise
+
+    return wrapper
-- 
2.43.0


From f05fc4212448a1252d6d8ad1237c33635ec9624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 48/78] fix: CalibrationData with low signal-to-noise ratio
 computes its factors

---
 dsptoolbox/classes/calibration_data.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/calibration_data.py b/dsptoolbox/classes/calibration_data.py
index b026879..15cf2bb 100644
--- a/dsptoolbox/classes/calibration_data.py
+++ b/dsptoolbox/classes/calibration_data.py
@@ -2,6 +2,7 @@ import numpy as np
 from numpy.typing import NDArray
 
 from ..standard import append_signals, rms
+from ..standard.enums import SpectrumMethod, SpectrumScaling
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
 
@@ -116,10 +117,11 @@ class CalibrationData:
             self.__update = False
 
     def _get_rms_from_spectrum(self):
-        self.calibration_signal.set_spectrum_parameters(
-            method="standard", scaling="amplitude spectrum"
+        signal = self.calibration_signal.copy()
+        signal.set_spectrum_parameters(
+            method=SpectrumMethod.FFT, scaling=SpectrumScaling.AmplitudeSpectrum
         )
-        f, sp = self.calibration_signal.get_spectrum()
+        f, sp = signal.get_spectrum()
         ind1k = np.argmin(np.abs(f - 1e3))
         return np.abs(sp[ind1k, :])
 
-- 
2.43.0


From c65ace9bc98c823a00b1781a1c175cfbe75d0587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 49/78] fix: ParallelFilter uses new parameters and
 coefficients in all of its filters

---
 dsptoolbox/classes/parallel_filter.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index 75e71b5..cfb35c3 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -11,6 +11,7 @@ from .filterbank import FilterBank
 from .filter import Filter
 from .signal import Signal
 from ..generators import dirac
+from ..helpers.other import _all_or_nothing
 from ..standard.enums import FilterCoefficientsType
 
 
@@ -78,6 +79,7 @@ class ParallelFilter(RealtimeFilter):
         self.sampling_rate_hz = sampling_rate_hz
         self.set_parameters()
 
+    @_all_or_nothing
     def set_parameters(
         self,
         delay_iir_samples: int = 0,
@@ -106,8 +108,11 @@ class ParallelFilter(RealtimeFilter):
             if delay_iir_samples is None
             else delay_iir_samples
         )
+        if hasattr(self, "filter_bank"):
+            self.__compute_real_time_filters()
         return self
 
+    @_all_or_nothing
     def set_coefficients(
         self,
         iir_coefficients: NDArray[np.float64],
@@ -126,6 +131,7 @@ class ParallelFilter(RealtimeFilter):
         assert iir_coefficients.ndim == 2
         assert iir_coefficients.shape[0] == self.__sos.shape[0]
 
+        self.__sos = self.__sos.copy()
         for ss in range(self.__sos.shape[0]):
             self.__sos[ss, :2] = iir_coefficients[ss, :]
 
@@ -135,8 +141,10 @@ class ParallelFilter(RealtimeFilter):
         else:
             self.__fir_coefficients = np.array([])
         self.n_fir = len(self.__fir_coefficients)
+        self.__compute_filter_bank()
         return self
 
+    @_all_or_nothing
     def fit_to_ir(self, ir: ImpulseResponse):
         """Fit the filter coefficients of this filter bank to an IR using the
         frequency-domain least-squares approximation as outlined in [1].
-- 
2.43.0


From f4d09d1dffc86a07b23da94df4e287b6dfb9bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 50/78] fix: a failed fit leaves the KautzFilter unchanged

---
 dsptoolbox/classes/kautz_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/classes/kautz_filter.py b/dsptoolbox/classes/kautz_filter.py
index 165ae93..7320564 100644
--- a/dsptoolbox/classes/kautz_filter.py
+++ b/dsptoolbox/classes/kautz_filter.py
@@ -8,6 +8,7 @@ from .impulse_response import ImpulseResponse
 from .signal import Signal
 from .iir_filter_realtime import IIRFilter
 from ..generators import dirac
+from ..helpers.other import _all_or_nothing
 
 
 class KautzFilter(RealtimeFilter):
@@ -220,6 +221,7 @@ class KautzFilter(RealtimeFilter):
             )
         return y
 
+    @_all_or_nothing
     def fit_coefficients_to_ir(self, ir: ImpulseResponse):
         """Fit Kautz filter coefficients to an impulse response. See references
         for the details on how this is accomplished.
@@ -334,6 +336,7 @@ class KautzFilter(RealtimeFilter):
             time_data = lfilter([r[ii], q[ii], 1], [1, q[ii], r[ii]], time_data, axis=0)
         return output
 
+    @_all_or_nothing
     def fit_poles_and_coefficients_to_ir(
         self, ir: ImpulseResponse, order: int, iterations: int
     ):
-- 
2.43.0


From e18d092b345c619a1f4fde27e006c0391024de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 51/78] fix: grids can plot their maps

---
 dsptoolbox/beamforming/beamforming.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index b1ef07c..95893e3 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -210,7 +210,6 @@ class Regular2DGrid(Grid):
             zlabel="dBFS",
             colorbar=True,
             lower_origin=True,
-            returns=True,
         )
         return fig, ax
 
@@ -358,7 +357,6 @@ class Regular3DGrid(Grid):
             zlabel="dBFS",
             colorbar=True,
             lower_origin=True,
-            returns=True,
         )
         return fig, ax
 
-- 
2.43.0


From 08f7759b4c40cdcf9f9d270f924c8faf646c5f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 52/78] fix: add_detailed_absorption leaves the passed
 dictionary untouched

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 9b386d4..3f8648d 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -738,6 +738,7 @@ class ShoeboxRoom(Room):
         )
 
         # Check absorption values and derive number of bands
+        detailed_absorption = dict(detailed_absorption)
         number_of_bands = 1
         for i in detailed_absorption:
             ab = np.atleast_1d(detailed_absorption[i])
-- 
2.43.0


From 02f9fcc75a9eefefec0c11e95925e33dd51f5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 53/78] fix: rejected parameters leave the PhaseLinearizer
 unchanged

---
 dsptoolbox/classes/group_delay_designer_phase_linearizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
index 6cd7e99..fc3bbaf 100644
--- a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
+++ b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
@@ -5,7 +5,7 @@ from scipy.integrate import cumulative_trapezoid, cumulative_simpson
 from scipy.interpolate import PchipInterpolator
 from numpy.typing import NDArray
 from ..helpers.spectrum_utilities import _correct_for_real_phase_spectrum
-from ..helpers.other import _pad_trim
+from ..helpers.other import _all_or_nothing, _pad_trim
 from warnings import warn
 
 
@@ -284,6 +284,7 @@ class PhaseLinearizer(GroupDelayDesigner):
         target_group_delay_s = self._get_target_group_delay_in_seconds_from_phase()
         self._set_targets(np.ones_like(target_group_delay_s), target_group_delay_s)
 
+    @_all_or_nothing
     def set_parameters(
         self,
         delay_increase_percent: float = 100.0,
-- 
2.43.0


From 0d3665e239c4a24768aff306eb0209c195bf4285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 54/78] fix: MicArray properties follow new coordinates

---
 dsptoolbox/beamforming/beamforming.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 95893e3..0350ef4 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -477,6 +477,15 @@ class MicArray(BasePoints):
         self.__min_distance = None
 
     # ======== Properties =====================================================
+    @BasePoints.coordinates.setter
+    def coordinates(self, new_r):
+        BasePoints.coordinates.fset(self, new_r)
+        # Everything that was computed for the previous positions is outdated
+        self.__array_center_coordinates = None
+        self.__array_center_channel_number = None
+        self.__aperture = None
+        self.__min_distance = None
+
     @property
     def aperture(self):
         if self.__aperture is None:
-- 
2.43.0


From dd6c39f97db62a47fe16b734170703481b16d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:04 +0000
Subject: [PATCH 55/78] fix: concurrent beamformer maps do not share their
 frequency range

---
 dsptoolbox/beamforming/beamforming.py | 55 +++++++++++++++------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 0350ef4..11b6013 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -836,8 +836,8 @@ class BeamformerDASFrequency(BeamformerGridded):
         """
         self.center_frequency_hz = center_frequency_hz
         self.octave_fraction = octave_fraction
-        self.f_range_hz = _get_fractional_octave_bandwidth(
-            self.center_frequency_hz, self.octave_fraction
+        f_range_hz = _get_fractional_octave_bandwidth(
+            center_frequency_hz, octave_fraction
         )
 
         txt = "Beamformer computation has started successfully:"
@@ -853,7 +853,7 @@ class BeamformerDASFrequency(BeamformerGridded):
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
-        ids = find_nearest_points_index_in_vector(self.f_range_hz, f)
+        ids = find_nearest_points_index_in_vector(f_range_hz, f)
         id1, id2 = ids[0], ids[1]
         # In case of only one frequency bin
         if id1 == id2:
@@ -883,8 +883,9 @@ class BeamformerDASFrequency(BeamformerGridded):
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
             map = map.squeeze()
-        self.map = self.grid.reconstruct_map_shape(map)
-        return self.map.copy()
+        map = self.grid.reconstruct_map_shape(map)
+        self.map = map
+        return map.copy()
 
 
 class BeamformerCleanSC(BeamformerGridded):
@@ -955,8 +956,8 @@ class BeamformerCleanSC(BeamformerGridded):
 
         self.center_frequency_hz = center_frequency_hz
         self.octave_fraction = octave_fraction
-        self.f_range_hz = _get_fractional_octave_bandwidth(
-            self.center_frequency_hz, self.octave_fraction
+        f_range_hz = _get_fractional_octave_bandwidth(
+            center_frequency_hz, octave_fraction
         )
 
         txt = "Beamformer computation has started successfully:"
@@ -967,7 +968,7 @@ class BeamformerCleanSC(BeamformerGridded):
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
-        ids = find_nearest_points_index_in_vector(self.f_range_hz, f)
+        ids = find_nearest_points_index_in_vector(f_range_hz, f)
         id1, id2 = ids[0], ids[1]
         # In case of only one frequency bin
         if id1 == id2:
@@ -1010,8 +1011,9 @@ class BeamformerCleanSC(BeamformerGridded):
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
             map = map.squeeze()
-        self.map = self.grid.reconstruct_map_shape(map)
-        return self.map.copy()
+        map = self.grid.reconstruct_map_shape(map)
+        self.map = map
+        return map.copy()
 
 
 class BeamformerOrthogonal(BeamformerGridded):
@@ -1065,8 +1067,8 @@ class BeamformerOrthogonal(BeamformerGridded):
         """
         self.center_frequency_hz = center_frequency_hz
         self.octave_fraction = octave_fraction
-        self.f_range_hz = _get_fractional_octave_bandwidth(
-            self.center_frequency_hz, self.octave_fraction
+        f_range_hz = _get_fractional_octave_bandwidth(
+            center_frequency_hz, octave_fraction
         )
 
         if number_eigenvalues is None:
@@ -1087,7 +1089,7 @@ class BeamformerOrthogonal(BeamformerGridded):
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
-        ids = find_nearest_points_index_in_vector(self.f_range_hz, f)
+        ids = find_nearest_points_index_in_vector(f_range_hz, f)
         id1, id2 = ids[0], ids[1]
         # In case of only one frequency bin
         if id1 == id2:
@@ -1127,8 +1129,9 @@ class BeamformerOrthogonal(BeamformerGridded):
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
             map = map.squeeze()
-        self.map = self.grid.reconstruct_map_shape(map)
-        return self.map.copy()
+        map = self.grid.reconstruct_map_shape(map)
+        self.map = map
+        return map.copy()
 
 
 class BeamformerFunctional(BeamformerGridded):
@@ -1173,8 +1176,8 @@ class BeamformerFunctional(BeamformerGridded):
         """
         self.center_frequency_hz = center_frequency_hz
         self.octave_fraction = octave_fraction
-        self.f_range_hz = _get_fractional_octave_bandwidth(
-            self.center_frequency_hz, self.octave_fraction
+        f_range_hz = _get_fractional_octave_bandwidth(
+            center_frequency_hz, octave_fraction
         )
 
         txt = "Beamformer computation has started successfully:"
@@ -1185,7 +1188,7 @@ class BeamformerFunctional(BeamformerGridded):
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
-        ids = find_nearest_points_index_in_vector(self.f_range_hz, f)
+        ids = find_nearest_points_index_in_vector(f_range_hz, f)
         id1, id2 = ids[0], ids[1]
         # In case of only one frequency bin
         if id1 == id2:
@@ -1223,8 +1226,9 @@ class BeamformerFunctional(BeamformerGridded):
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
             map = map.squeeze()
-        self.map = self.grid.reconstruct_map_shape(map)
-        return self.map.copy()
+        map = self.grid.reconstruct_map_shape(map)
+        self.map = map
+        return map.copy()
 
 
 class BeamformerMVDR(BeamformerGridded):
@@ -1272,8 +1276,8 @@ class BeamformerMVDR(BeamformerGridded):
         """
         self.center_frequency_hz = center_frequency_hz
         self.octave_fraction = octave_fraction
-        self.f_range_hz = _get_fractional_octave_bandwidth(
-            self.center_frequency_hz, self.octave_fraction
+        f_range_hz = _get_fractional_octave_bandwidth(
+            center_frequency_hz, octave_fraction
         )
 
         txt = "Beamformer computation has started successfully:"
@@ -1284,7 +1288,7 @@ class BeamformerMVDR(BeamformerGridded):
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
-        ids = find_nearest_points_index_in_vector(self.f_range_hz, f)
+        ids = find_nearest_points_index_in_vector(f_range_hz, f)
         id1, id2 = ids[0], ids[1]
         # In case of only one frequency bin
         if id1 == id2:
@@ -1317,8 +1321,9 @@ class BeamformerMVDR(BeamformerGridded):
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
             map = map.squeeze()
-        self.map = self.grid.reconstruct_map_shape(map)
-        return self.map.copy()
+        map = self.grid.reconstruct_map_shape(map)
+        self.map = map
+        return map.copy()
 
 
 class BeamformerDASTime(BaseBeamformer):
-- 
2.43.0


From da472b30b250cca48f631f74cc75e7b48366702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 56/78] fix: saving audio files reports every failure of the
 disk

libsndfile ignores errors while it finishes a file (FLAC frames still in the
encoder, header updates), so a full disk could lose the end of the signal
without an exception.
---
 dsptoolbox/classes/signal.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index f6043e9..7ce0f00 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -3,6 +3,7 @@ Signal class
 """
 
 from warnings import warn
+from io import BytesIO
 from pickle import dump, HIGHEST_PROTOCOL
 from copy import copy, deepcopy
 import numpy as np
@@ -1606,7 +1607,18 @@ class Signal(MultichannelData):
                 raise ValueError(
                     "Selected bit depth is not valid. " + "Use either 16, 24, 32 or 64"
                 )
-            sf.write(path, self.time_data, self.sampling_rate_hz, subtype=subtype)
+            # The file is encoded in memory, so that every byte of it is written
+            # here and a failing disk always surfaces as an exception
+            encoded = BytesIO()
+            sf.write(
+                encoded,
+                self.time_data,
+                self.sampling_rate_hz,
+                subtype=subtype,
+                format=mode,
+            )
+            with open(path, "wb") as audio_file:
+                audio_file.write(encoded.getvalue())
         elif mode == "pkl":
             with open(path, "wb") as data_file:
                 dump(self, data_file, HIGHEST_PROTOCOL)
-- 
2.43.0


From 45e231b8d68782d7ba8d1cf11c0384eebc26fc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 57/78] fix: audio durations become whole numbers of samples

---
 dsptoolbox/audio_io/audio_io.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index ef12038..0be5321 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -15,6 +15,7 @@ if sys.platform == "win32":
     if env_variable not in os.environ:
         os.environ[env_variable] = "1"
 
+import numpy as np
 import sounddevice as sd
 from .. import Signal
 from ..helpers.gain_and_level import _normalize
@@ -259,7 +260,9 @@ def play_and_record(
     #
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = duration_seconds * signal.sampling_rate_hz
+        duration_samples = int(
+            np.round(duration_seconds * signal.sampling_rate_hz)
+        )
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
@@ -332,7 +335,7 @@ def record(
 
     print(f"\nRecording started ({duration_seconds:.1f} s)...")
     rec_time_data = sd.rec(
-        frames=int(duration_seconds * sampling_rate_hz),
+        frames=int(np.round(duration_seconds * sampling_rate_hz)),
         samplerate=sampling_rate_hz,
         mapping=rec_channels,
         blocking=True,
@@ -382,7 +385,9 @@ def play(
     assert not any([r < 1 for r in play_channels]), "Play channel has to be 1 or more"
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = int(duration_seconds * signal.sampling_rate_hz)
+        duration_samples = int(
+            np.round(duration_seconds * signal.sampling_rate_hz)
+        )
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
-- 
2.43.0


From 6014787d774ecaef27d316c66397fa93c745a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 58/78] fix: playback keeps the requested order of channels

---
 dsptoolbox/audio_io/audio_io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index 0be5321..115d66e 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -247,7 +247,7 @@ def play_and_record(
         play_channels = [play_channels]
     if type(rec_channels) is int:
         rec_channels = [rec_channels]
-    play_channels = sorted(play_channels)
+    play_channels = list(play_channels)
     rec_channels = sorted(rec_channels)
     assert signal.number_of_channels == len(play_channels), (
         "The number of channels in signal does not match the number of "
@@ -381,7 +381,7 @@ def play(
         play_channels = list(range(1, signal.number_of_channels + 1))
     if type(play_channels) is int:
         play_channels = [play_channels]
-    play_channels = sorted(play_channels)
+    play_channels = list(play_channels)
     assert not any([r < 1 for r in play_channels]), "Play channel has to be 1 or more"
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-- 
2.43.0


From b13b3e27c7b875d30d97e83b71c200978d847ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 59/78] fix: play rejects signals that do not match its
 channels

---
 dsptoolbox/audio_io/audio_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index 115d66e..b9aca63 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -382,6 +382,10 @@ def play(
     if type(play_channels) is int:
         play_channels = [play_channels]
     play_channels = list(play_channels)
+    assert signal.number_of_channels == len(play_channels), (
+        "The number of channels in signal does not match the number of "
+        + "channels in play_channels"
+    )
     assert not any([r < 1 for r in play_channels]), "Play channel has to be 1 or more"
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-- 
2.43.0


From 4cb85c570517b8f187bd1e3981311695024e5ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 60/78] fix: the device of a single audio call does not become
 the default

---
 dsptoolbox/audio_io/audio_io.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index b9aca63..95d634d 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -278,15 +278,13 @@ def play_and_record(
             per_channel=False,
         )
 
-    if device is not None:
-        sd.default.device = device
-
     print("Playback and recording have started " + f"({duration_seconds:.1f} s)...")
     rec_time_data = sd.playrec(
         data=play_data,
         samplerate=signal.sampling_rate_hz,
         input_mapping=rec_channels,
         output_mapping=play_channels,
+        device=device,
         blocking=True,
     )
     print("Playback and recording have ended\n")
@@ -330,14 +328,12 @@ def record(
         [r < 1 for r in rec_channels]
     ), "Recording channel has to be 1 or more"
     #
-    if device is not None:
-        sd.default.device = device
-
     print(f"\nRecording started ({duration_seconds:.1f} s)...")
     rec_time_data = sd.rec(
         frames=int(np.round(duration_seconds * sampling_rate_hz)),
         samplerate=sampling_rate_hz,
         mapping=rec_channels,
+        device=device,
         blocking=True,
     )
     print("Recording has ended\n")
@@ -405,14 +401,12 @@ def play(
             per_channel=False,
         )
     #
-    if device is not None:
-        sd.default.device = device
-
     print(f"Playback started ({duration_seconds:.1f} s)...")
     sd.play(
         data=play_data,
         samplerate=signal.sampling_rate_hz,
         mapping=play_channels,
+        device=device,
         blocking=True,
     )
     print("Playback has ended\n")
-- 
2.43.0


From 17772b745e582728602c7654a9bd60694e3a05cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 61/78] fix: CallbackStop stops the stream

---
 dsptoolbox/audio_io/audio_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index 95d634d..95514fc 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -417,7 +417,7 @@ def CallbackStop():
     streamings.
 
     """
-    sd.CallbackStop()
+    raise sd.CallbackStop()
 
 
 def sleep(seconds: float):
-- 
2.43.0


From 39f47cdaf5c48a6b757475162518ebc3f503d07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 62/78] fix: recordings that end early are reported

---
 dsptoolbox/audio_io/audio_io.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index 95514fc..84eb5ba 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -201,6 +201,18 @@ def get_interface_number_by_name(
     raise ValueError(f"No device was found with name {name}")
 
 
+def _get_recording_buffer(length_samples: int, rec_channels: list):
+    """Buffer in which every sample that was not recorded stays NaN."""
+    return np.full((length_samples, len(rec_channels)), np.nan, dtype=np.float32)
+
+
+def _assert_complete_recording(rec_time_data):
+    """Raise when the stream ended before the recording was complete, e.g.,
+    because the device was disconnected."""
+    if np.any(np.isnan(rec_time_data)):
+        raise RuntimeError("The stream ended before the recording was complete")
+
+
 def play_and_record(
     signal: Signal,
     duration_seconds: float | None = None,
@@ -279,14 +291,17 @@ def play_and_record(
         )
 
     print("Playback and recording have started " + f"({duration_seconds:.1f} s)...")
-    rec_time_data = sd.playrec(
+    rec_time_data = _get_recording_buffer(play_data.shape[0], rec_channels)
+    sd.playrec(
         data=play_data,
+        out=rec_time_data,
         samplerate=signal.sampling_rate_hz,
         input_mapping=rec_channels,
         output_mapping=play_channels,
         device=device,
         blocking=True,
     )
+    _assert_complete_recording(rec_time_data)
     print("Playback and recording have ended\n")
 
     rec_sig = Signal(None, rec_time_data, signal.sampling_rate_hz)
@@ -329,13 +344,17 @@ def record(
     ), "Recording channel has to be 1 or more"
     #
     print(f"\nRecording started ({duration_seconds:.1f} s)...")
-    rec_time_data = sd.rec(
-        frames=int(np.round(duration_seconds * sampling_rate_hz)),
+    rec_time_data = _get_recording_buffer(
+        int(np.round(duration_seconds * sampling_rate_hz)), rec_channels
+    )
+    sd.rec(
+        out=rec_time_data,
         samplerate=sampling_rate_hz,
         mapping=rec_channels,
         device=device,
         blocking=True,
     )
+    _assert_complete_recording(rec_time_data)
     print("Recording has ended\n")
 
     rec_sig = Signal(None, rec_time_data, sampling_rate_hz)
-- 
2.43.0


From 3218672e423bd75b96701a662f35facd8eea193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:19 +0000
Subject: [PATCH 63/78] fix: normalizing silence does not produce NaN

---
 dsptoolbox/helpers/gain_and_level.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index b788795..da3f4e7 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -76,10 +76,11 @@ def _normalize(
 
     factor = from_db(dbfs, True)
     if peak_normalization:
-        factor /= np.max(np.abs(s), axis=0 if per_channel else None)
+        level = np.max(np.abs(s), axis=0 if per_channel else None)
     else:
-        factor /= _rms(s if per_channel else s.flatten())
-    s_norm = s * factor
+        level = _rms(s if per_channel else s.flatten())
+    # Silence stays silent
+    s_norm = s * (factor / np.where(level == 0.0, 1.0, level))
 
     return s_norm[..., 0] if onedim else s_norm
 
-- 
2.43.0


From f1216c49f599c27b4f9384230ae4edf423a7143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:47 +0000
Subject: [PATCH 64/78] fix: filter bank metadata does not depend on the hash
 seed

---
 dsptoolbox/classes/filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 63ca1a2..c700309 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -98,7 +98,7 @@ class FilterBank:
             if hasattr(self, "sampling_rate_hz"):
                 info["sampling_rate_hz"] = self.sampling_rate_hz
         info["types_of_filters"] = tuple(
-            set([f.metadata["filter_type"] for f in self.filters])
+            dict.fromkeys([f.metadata["filter_type"] for f in self.filters])
         )
         return info
 
-- 
2.43.0


From 596621801b9a1c2d44f703d55b659c475a3e3d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:45 +0000
Subject: [PATCH 65/78] fix: short colored noise does not consist of NaN

---
 dsptoolbox/generators/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index a8414e2..b779733 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -92,7 +92,7 @@ def noise(
     # Set to 15 Hz to cover whole audible spectrum but without
     # numerical instabilities because of large values in lower
     # frequencies
-    id_low = np.argmin(np.abs(f - 15))
+    id_low = max(1, np.argmin(np.abs(f - 15)))  # 0 Hz is never shaped
     mag[0] = 0
     if type_of_noise != NoiseType.White or type_of_noise != 0.0:
         mag[:id_low] *= 1e-20
-- 
2.43.0


From 638d4ca4d3589e970132ec0ea8b907b8f3ecb1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 66/78] fix: linear prediction of silent frames is finite

---
 dsptoolbox/helpers/ar_estimation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index eef3a01..c9f828a 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -25,7 +25,9 @@ def _levison_durbin_recursion(
         Variance of the remaining error.
 
     """
-    prediction_error = autocorrelation[0, ...].copy()  # Signal variance
+    # Signal variance. Silence has no correlation to be solved for
+    silent = autocorrelation[0, ...] == 0.0
+    prediction_error = np.where(silent, 1.0, autocorrelation[0, ...])
     autocorr_coefficients = autocorrelation[1:, ...].copy()
 
     num_coefficients = autocorr_coefficients.shape[0]
@@ -64,7 +66,7 @@ def _levison_durbin_recursion(
     pad_width = tuple([(1, 0)] + [(0, 0)] * (ndim - 1))
     return (
         np.pad(ar_parameters, pad_width, mode="constant", constant_values=1.0),
-        prediction_error,
+        np.where(silent, 0.0, prediction_error),
     )
 
 
-- 
2.43.0


From 3d28e44a52294ec3385203d4ec79ff63caaeb08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:49 +0000
Subject: [PATCH 67/78] fix: padding of generated signals has the requested
 length

---
 dsptoolbox/generators/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index b779733..bf33e9b 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -215,7 +215,7 @@ def chirp(
         range_hz = [15, sampling_rate_hz // 2]
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
@@ -369,7 +369,7 @@ def oscillator(
 
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
-- 
2.43.0


From 52c649c3bae136d0ed32ea1c0271a41233d1a1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:42 +0000
Subject: [PATCH 68/78] fix: lattice filter converted from an FIR filter keeps
 its gain

---
 dsptoolbox/classes/lattice_ladder_filter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index b1be34a..b063b5d 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -99,6 +99,7 @@ class LatticeLadderFilter(RealtimeFilter):
                 self.iir_filter = False
         self.k = k_coefficients
         self.c = c_coefficients
+        self.gain = 1.0  # Only used by the FIR structure
         self.state: NDArray[np.float64] | None = None
         self.sampling_rate_hz = sampling_rate_hz
         self.set_n_channels(1)
@@ -139,13 +140,15 @@ class LatticeLadderFilter(RealtimeFilter):
 
         # FIR
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
-        b /= b[0]
-        k = _get_lattice_coefficients_fir(b)
+        gain = b[0]
+        k = _get_lattice_coefficients_fir(b / gain)
         assert np.all(np.abs(k) < 1), (
             "Some reflection coefficient was "
             + "equal or larger than zero, this is not supported"
         )
-        return LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        new_filter = LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        new_filter.gain = gain
+        return new_filter
 
     def set_n_channels(self, n_channels: int):
         assert n_channels > 0, "At least one channel must be initialized"
@@ -204,6 +207,7 @@ class LatticeLadderFilter(RealtimeFilter):
                 )
         elif not self.iir_filter:
             td, self.state = _lattice_filtering_fir(self.k, td, self.state)
+            td *= self.gain
         elif self.iir_filter and self.c is None:
             raise NotImplementedError("No implementation for all-pole IIR filtering")
 
@@ -280,7 +284,7 @@ class LatticeLadderFilter(RealtimeFilter):
             x_o -= self.state[i_k, channel] * self.k[i_k]
             self.state[i_k, channel] = s0
             s0 = s1
-        return x_o
+        return x_o * self.gain
 
 
 def _lattice_ladder_filtering_sos(
-- 
2.43.0


From 05408300177f6b094d0492291c234f7a07c82cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 69/78] fix: complex interpolation of a spectrum returns
 complex values in every domain

---
 dsptoolbox/classes/spectrum.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index d0724ca..fff585d 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -619,6 +619,13 @@ class Spectrum(MultichannelData):
         """
         if output_type == SpectrumType.Complex:
             assert not self.is_magnitude, "Complex output is not supported"
+            if not self.__int_domain.is_complex():
+                complex_spectrum = self.copy().set_interpolator_parameters(
+                    InterpolationDomain.Complex, self.__int_scheme, self.__int_edges
+                )
+                return complex_spectrum.get_interpolated_spectrum(
+                    requested_frequency, output_type
+                )
 
         inds_outside_left = requested_frequency < self.frequency_vector_hz[0]
         inds_outside_right = requested_frequency > self.frequency_vector_hz[-1]
-- 
2.43.0


From 8a7f9256781c5b0f3875421152e22ff06893813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:51 +0000
Subject: [PATCH 70/78] fix: mixing sources on an array leaves the caller's
 list and sources unchanged

---
 dsptoolbox/beamforming/beamforming.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 11b6013..362af98 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1502,10 +1502,9 @@ def mix_sources_on_array(
     # Take first source
     multi_channel_sig = sources[0].get_signals_on_array(mics, c)
     total_length_samples = multi_channel_sig.time_data.shape[0]
-    sources.pop(0)
 
     # Add all other sources progressively checking for shortest duration
-    for s in sources:
+    for s in sources[1:]:
         # Warning if lengths do not match
         if total_length_samples != s.emitted_signal.time_data.shape[0]:
             warn(
@@ -1516,7 +1515,9 @@ def mix_sources_on_array(
                 total_length_samples, s.emitted_signal.time_data.shape[0]
             )
             multi_channel_sig = pad_trim(multi_channel_sig, total_length_samples)
-            s.emitted_signal = pad_trim(s.emitted_signal, total_length_samples)
+            s = MonopoleSource(
+                pad_trim(s.emitted_signal, total_length_samples), s.coordinates
+            )
         # Add to multi-channel data
         ns = s.get_signals_on_array(mics, c)
         multi_channel_sig.time_data += ns.time_data
-- 
2.43.0


From 1fcffb0a40c29971d6181d4d16f46794d37ed378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 71/78] fix: smoothing with a given window leaves the caller's
 window unchanged

---
 dsptoolbox/helpers/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index f53e162..2250f96 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -95,7 +95,7 @@ def _fractional_octave_smoothing(
         vector = vector[..., None]
 
     # Normalize window
-    window /= window.sum()
+    window = window / window.sum()
 
     # Smoothe by convolving with window (output is centered)
     n_window_half = n_window // 2
-- 
2.43.0


From 051be3973df142a1b9b9bf2683283b3f8f1c609c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:29 +0000
Subject: [PATCH 72/78] fix: room mixing time and modes given to one caller are
 not those of another

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 3f8648d..695ac02 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -501,7 +501,7 @@ class ShoeboxRoom(Room):
             assert n_reflections > 0, "n_reflections must be positive"
             mixing_time_s = np.sqrt(n_reflections * self.volume / (4 * np.pi * c**3))
         self.mixing_time_s = mixing_time_s
-        return self.mixing_time_s
+        return mixing_time_s
 
     def get_room_modes(
         self, max_order: int = 6, c: float = 343.0
@@ -548,8 +548,9 @@ class ShoeboxRoom(Room):
                     modes[counter, :] = np.array([freq, nx, ny, nz])
                     counter += 1
         modes = modes[1:]  # Prune first (trivial) entry
-        self.modes_hz = modes[modes[:, 0].argsort()]
-        return self.modes_hz
+        modes = modes[modes[:, 0].argsort()]
+        self.modes_hz = modes
+        return modes
 
     def get_analytical_transfer_function(
         self,
-- 
2.43.0


From 4f87099e32aa7a3a27df425684bcea47eb27c0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:18 +0000
Subject: [PATCH 73/78] fix: detailed absorption of a room is changed
 completely or not at all

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 24 ++++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 695ac02..9f299f4 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -802,20 +802,19 @@ class ShoeboxRoom(Room):
         )
 
         # Get all parameters into one dictionary
-        self.detailed_absorption = detailed_absorption
-        self.detailed_absorption["absorption_matrix"] = absorption_matrix
-        self.detailed_absorption["absorption_area"] = absorption_area
-        self.detailed_absorption["mean_absorption_coefficients_per_frequency"] = (
+        detailed_absorption["absorption_matrix"] = absorption_matrix
+        detailed_absorption["absorption_area"] = absorption_area
+        detailed_absorption["mean_absorption_coefficients_per_frequency"] = (
             acpf
         ) = (absorption_area / self.area)
-        self.detailed_absorption["center_frequencies"] = 125 * 2 ** np.arange(
+        detailed_absorption["center_frequencies"] = 125 * 2 ** np.arange(
             number_of_bands
         )
-        self.detailed_absorption["t60_s_per_frequency"] = (
+        detailed_absorption["t60_s_per_frequency"] = (
             0.161 * self.volume / absorption_area
         )
-        self.detailed_absorption["index_wall_dictionary"] = walls_dict
-        self.detailed_absorption[
+        detailed_absorption["index_wall_dictionary"] = walls_dict
+        detailed_absorption[
             "README"
         ] = """This dictionary contains all information about the room's
 absorption properties. Its keys are:
@@ -834,9 +833,14 @@ index_wall_dictionary.
         # logarithmic weights
         weights = 2.0 ** np.arange(number_of_bands)
         weights /= np.sum(weights)
-        self.absorption_coefficient = np.sum(acpf * weights)
+        absorption_coefficient = np.sum(acpf * weights)
         # Get new T60
-        self.t60_s = 0.161 * self.volume / (self.absorption_coefficient * self.area)
+        t60_s = 0.161 * self.volume / (absorption_coefficient * self.area)
+
+        # Save everything at once
+        self.detailed_absorption = detailed_absorption
+        self.absorption_coefficient = absorption_coefficient
+        self.t60_s = t60_s
 
 
 def _add_reverberant_tail_noise(
-- 
2.43.0


From 6baa881499fb4684e32c1815f572d38638d5975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:13 +0000
Subject: [PATCH 74/78] fix: coefficients set in a parallel filter replace
 those of an earlier fit

---
 dsptoolbox/classes/parallel_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index cfb35c3..3fb2c51 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -134,6 +134,8 @@ class ParallelFilter(RealtimeFilter):
         self.__sos = self.__sos.copy()
         for ss in range(self.__sos.shape[0]):
             self.__sos[ss, :2] = iir_coefficients[ss, :]
+            # A previous fit might have left a third coefficient
+            self.__sos[ss, 2] = 0.0
 
         if fir is not None:
             assert fir.ndim == 1
-- 
2.43.0


From b98deaeab33ce78064877f397bae5f511466cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:21 +0000
Subject: [PATCH 75/78] fix: notes of a signal split by a Linkwitz-Riley bank
 are not the arrays of the bank

---
 dsptoolbox/filterbanks/_filterbank.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 7d7a1ac..4f255f3 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -329,8 +329,8 @@ class LRFilterBank:
             b.append(s.copy_with_new_time_data(new_time_data[:, :, n]))
         d = dict(
             readme="MultiBandSignal made using Linkwitz-Riley filter bank",
-            filterbank_freqs=self.freqs,
-            filterbank_order=self.order,
+            filterbank_freqs=self.freqs.copy(),
+            filterbank_order=self.order.copy(),
         )
         out_sig = MultiBandSignal(bands=b, same_sampling_rate=True, info=d)
         if mode == FilterBankMode.Summed:
-- 
2.43.0


From 8851a2137967de7cc746126362aa14fa055848ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:55 +0000
Subject: [PATCH 76/78] fix: the mix of a compressor is applied to the signal

---
 dsptoolbox/effects/_effects.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 5412f62..ef40a2d 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -144,6 +144,11 @@ def _compressor(
             # Apply gain
             x_[i, n] *= momentary_gain
 
+    # Mix with the uncompressed signal
+    if mix_compressed < 1:
+        dry = x[..., None] if single_channel else x
+        x_ = x_ * mix_compressed + dry * (1 - mix_compressed)
+
     if single_channel:
         x_ = x_.squeeze()
     return x_
-- 
2.43.0


From d94a404e1f5b81f63511daa84286b7c58eb6c000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 77/78] fix: read errors are not taken for the end of an audio
 file

---
 dsptoolbox/classes/signal.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 7ce0f00..972d989 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -46,6 +46,15 @@ from ..standard.enums import (
 )
 
 
+def _read_audio_file(path: str) -> tuple[NDArray[np.float64], int]:
+    """Read an audio file. Failures of the disk always raise an error, they are
+    not taken for the end of the file.
+
+    """
+    with open(path, "rb") as audio_file:
+        return sf.read(BytesIO(audio_file.read()))
+
+
 class Signal(MultichannelData):
     """Class for general signals (time series). Most of the methods and
     supported computations are focused on audio signals, but some features
@@ -104,7 +113,7 @@ class Signal(MultichannelData):
                 "Constructor cannot take a path and a sampling rate at the"
                 + " same time"
             )
-            time_data, sampling_rate_hz = sf.read(path)
+            time_data, sampling_rate_hz = _read_audio_file(path)
         else:
             assert time_data is not None, (
                 "Either a path to an audio file or a time vector has to be " + "passed"
@@ -813,7 +822,7 @@ class Signal(MultichannelData):
             assert new_time_data is None, (
                 "Only path or new time data is " + "accepted, not both."
             )
-            new_time_data, sampling_rate_hz = sf.read(path)
+            new_time_data, sampling_rate_hz = _read_audio_file(path)
         else:
             if new_time_data is not None:
                 assert path is None, (
-- 
2.43.0


From e4d01a0ad3c1493a9f7d97aceec853f83fcc157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:57 +0000
Subject: [PATCH 78/78] fix: array_center_coordinates returns a copy of the
 cached coordinates

---
 dsptoolbox/beamforming/beamforming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 362af98..9b32313 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -502,7 +502,7 @@ class MicArray(BasePoints):
     def array_center_coordinates(self):
         if self.__array_center_coordinates is None:
             self.__compute_array_center()
-        return self.__array_center_coordinates
+        return self.__array_center_coordinates.copy()
 
     @property
     def array_center_channel_number(self):
-- 
2.43.0

