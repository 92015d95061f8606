From e4f5a350a5d8bd3337ee3bf1475da201871e3f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 001/190] fix: IIRFilter no longer normalizes the caller's
 coefficient arrays in place

---
 dsptoolbox/classes/iir_filter_realtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index b30fced..59298d3 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -24,8 +24,8 @@ class IIRFilter(RealtimeFilter):
             Denominator coefficients
 
         """
-        b /= a[0]
-        a /= a[0]
+        b = np.asarray(b) / a[0]
+        a = np.asarray(a) / a[0]
         self.order = max(len(b), len(a)) - 1
         self.b = np.pad(b, ((0, self.order + 1 - len(b))))
         self.a = np.pad(a, ((0, self.order + 1 - len(a))))
-- 
2.43.0


From 3bf575d90f2159826134b7d134e5bdc0c9506b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 002/190] fix: real-time FIR and IIR filters of order zero can
 process samples

---
 dsptoolbox/classes/fir_filter_realtime.py | 2 ++
 dsptoolbox/classes/iir_filter_realtime.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index cb3a2f6..1eb5465 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -59,6 +59,8 @@ class FIRFilter(RealtimeFilter):
     def process_sample(self, x: float, channel: int):
         """Process a sample."""
         y = self.b[0] * x
+        if self.order == 0:
+            return y
 
         write_index = self.current_state_ind[channel]
         for i in range(self.order):
diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index 59298d3..5d4e20e 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -51,7 +51,7 @@ class IIRFilter(RealtimeFilter):
         return IIRFilter(b, a)
 
     def set_n_channels(self, n_channels: int):
-        self.state = np.zeros((self.order, n_channels))
+        self.state = np.zeros((max(self.order, 1), n_channels))
 
     def reset_state(self):
         self.state.fill(0.0)
-- 
2.43.0


From b6fd6f067383e4bc31f0c0d452bac271ce3f7b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 003/190] fix: overlap-save FIR filter uses the right inverse
 transform length when it is odd

---
 dsptoolbox/classes/fir_filter_realtime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 1eb5465..4488eca 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -137,9 +137,10 @@ class FIRFilterOverlapSave(RealtimeFilter):
 
         """
         self.buffer[-self.blocksize :, channel] = block
-        output_data = fft.irfft(fft.rfft(self.buffer[:, channel]) * self.fir_spectrum)[
-            -self.blocksize :
-        ]
+        output_data = fft.irfft(
+            fft.rfft(self.buffer[:, channel]) * self.fir_spectrum,
+            n=self.total_length,
+        )[-self.blocksize :]
 
         # Roll buffer
         self.buffer[: -self.blocksize, channel] = self.buffer[self.blocksize :, channel]
-- 
2.43.0


From e8412b5c7abc07ab50a5175c1d4912de17f277f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 004/190] fix: FIRUniformPartitioned keeps one partition index
 per channel

---
 dsptoolbox/classes/fir_filter_realtime.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 4488eca..5ccf0ce 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -201,8 +201,8 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
             partitioned[: len(partition), n] = partition
         self.partitioned_spectrum = fft.rfft(partitioned, axis=0, n=self.fft_size)
 
-        # Buffer index for filter
-        self.buffer_ind = 0
+        # Buffer index for filter (each channel advances on its own)
+        self.buffer_ind = np.zeros(n_channels, dtype=np.int_)
 
         # Helper for avoiding allocations in process
         self.buffer_index_helper = np.arange(self.n_partitions)
@@ -222,22 +222,20 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         self.input_buffer[-self.blocksize :, channel] = block
 
         # Transform input
-        self.buffer_spectra[:, self.buffer_ind, channel] = fft.rfft(
+        buffer_ind = self.buffer_ind[channel]
+        self.buffer_spectra[:, buffer_ind, channel] = fft.rfft(
             self.input_buffer[:, channel]
         )
 
         # Accumulate output of all filters with buffers
         output = np.sum(
             self.partitioned_spectrum
-            * self.buffer_spectra[
-                :, self.buffer_ind - self.buffer_index_helper, channel
-            ],
+            * self.buffer_spectra[:, buffer_ind - self.buffer_index_helper, channel],
             axis=1,
         )
 
         # Advance filter buffer
-        self.buffer_ind += 1
-        self.buffer_ind %= self.n_partitions
+        self.buffer_ind[channel] = (buffer_ind + 1) % self.n_partitions
 
         # Get output
         return fft.irfft(output)[-self.blocksize :]
-- 
2.43.0


From 02c987902380014283296f8bf2988cc81e06cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 005/190] fix: FIRUniformPartitionedMultichannel does not
 rescale filters with taps above 1

---
 dsptoolbox/classes/fir_filter_realtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 5ccf0ce..30c5a95 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -260,7 +260,9 @@ class FIRUniformPartitionedMultichannel(FIRUniformPartitioned):
 
         """
         # Bring into standard form
-        self.fir = Signal.from_time_data(fir, 10000).time_data
+        self.fir = Signal.from_time_data(
+            fir, 10000, constrain_amplitude=False
+        ).time_data
 
     def prepare(self, blocksize_samples: int):  # type: ignore
         """Prepares the processing.
-- 
2.43.0


From 59ea2543915ae4802fd0df11b145a6d2ffc49f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 006/190] fix: ExponentialAverageFilter compares with the state
 of the processed channel

---
 dsptoolbox/classes/exponential_average_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/exponential_average_filter.py b/dsptoolbox/classes/exponential_average_filter.py
index 307348c..2b0cb3a 100644
--- a/dsptoolbox/classes/exponential_average_filter.py
+++ b/dsptoolbox/classes/exponential_average_filter.py
@@ -47,7 +47,7 @@ class ExponentialAverageFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
-        if x > self.state:  # Ascending
+        if x > self.state[0, channel]:  # Ascending
             y = (
                 x * self.increase_coefficient
                 + (1 - self.increase_coefficient) * self.state[0, channel]
-- 
2.43.0


From 14de652a97214c138d1900f1f040055fc0ed2850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 007/190] fix: StateSpaceFilter supports first-order systems

---
 dsptoolbox/classes/state_space_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index 18d3e0a..b016555 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -48,9 +48,9 @@ class StateSpaceFilter(RealtimeFilter):
         """
         assert A.ndim == 2, "Matrix A should have exactly 2 dimensions"
         assert len(B) == A.shape[1], "Matrix B dimensions are not valid"
-        self.A = A.squeeze()
-        self.B = B.squeeze()
-        self.C = C.squeeze()
+        self.A = A
+        self.B = B.reshape(-1)
+        self.C = C.reshape(-1)
         self.D = D.squeeze()
         self.set_n_channels(1)
 
-- 
2.43.0


From 6baa4de9f4007042302bf9d56563919da517c9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 008/190] fix: StateSpaceFilter.from_filter with different
 number of b and a coefficients

---
 dsptoolbox/classes/state_space_filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index b016555..2d917d5 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -71,6 +71,11 @@ class StateSpaceFilter(RealtimeFilter):
 
         """
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
+        # tf2ss aligns polynomials to their last coefficient, so that b and a
+        # must have the same length when they are in powers of z^-1
+        length = max(len(b), len(a))
+        b = np.pad(b, (0, length - len(b)))
+        a = np.pad(a, (0, length - len(a)))
         return StateSpaceFilter(*tf2ss(b, a))
 
     @staticmethod
-- 
2.43.0


From dbfd1e2ff654fa4d98524855af0ac654aaff41c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 009/190] fix: lattice-ladder coefficients of filters whose
 a[0] is not 1

---
 dsptoolbox/classes/lattice_ladder_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 9a3c900..2436318 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -134,7 +134,7 @@ class LatticeLadderFilter(RealtimeFilter):
                 return LatticeLadderFilter(k, c, filt.sampling_rate_hz)
 
             b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
-            k, c = _get_lattice_ladder_coefficients_iir(b, a)
+            k, c = _get_lattice_ladder_coefficients_iir(b / a[0], a / a[0])
             return LatticeLadderFilter(k, c, filt.sampling_rate_hz)
 
         # FIR
@@ -466,7 +466,7 @@ def _get_lattice_ladder_coefficients_iir_sos(
     """
     # Normalize second-order sections individually
     if not np.all(sos[:, 3] == 1.0):
-        sos /= sos[:, 3]
+        sos = sos / sos[:, 3][:, None]
 
     n_sections = sos.shape[0]
     k = np.zeros((n_sections, 2))
-- 
2.43.0


From 1f1815a5c778d9004f09e08e08e0bacb476c7de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 010/190] fix: ParallelFilter places offset FIR coefficients
 where they were fitted

---
 dsptoolbox/classes/parallel_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index c69c405..75e71b5 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -226,8 +226,7 @@ class ParallelFilter(RealtimeFilter):
             ff = np.zeros(
                 ((self.fir_offset_samples) * (len(self.__fir_coefficients) - 1) + 1)
             )
-            ff[:: self.fir_offset_samples + 1] = self.__fir_coefficients[:-1]
-            ff[-1] = self.__fir_coefficients[-1]
+            ff[:: self.fir_offset_samples] = self.__fir_coefficients
             self.__fir_coefficients = ff
 
         self.__compute_filter_bank()
-- 
2.43.0


From 02a256b64a30a73b40d230830ab7c17f67766d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:06 +0000
Subject: [PATCH 011/190] fix: ParallelFilter.set_coefficients takes effect on
 all processing paths

---
 dsptoolbox/classes/parallel_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index 75e71b5..49bdfc6 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -128,6 +128,7 @@ class ParallelFilter(RealtimeFilter):
 
         for ss in range(self.__sos.shape[0]):
             self.__sos[ss, :2] = iir_coefficients[ss, :]
+            self.__sos[ss, 2] = 0.0
 
         if fir is not None:
             assert fir.ndim == 1
@@ -135,6 +136,7 @@ class ParallelFilter(RealtimeFilter):
         else:
             self.__fir_coefficients = np.array([])
         self.n_fir = len(self.__fir_coefficients)
+        self.__compute_filter_bank()
         return self
 
     def fit_to_ir(self, ir: ImpulseResponse):
-- 
2.43.0


From 961af93a5fc8dc60ae35f67ed1711ba64a58d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:10 +0000
Subject: [PATCH 012/190] fix: lattice FIR filters obtained from a filter keep
 its gain

---
 dsptoolbox/classes/lattice_ladder_filter.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 2436318..a9ceb0b 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -97,6 +97,8 @@ class LatticeLadderFilter(RealtimeFilter):
                 self.iir_filter = True
             else:
                 self.iir_filter = False
+        # Lattice FIR structures always have b[0]=1, the rest is a gain
+        self.gain_fir = 1.0
         self.k = k_coefficients
         self.c = c_coefficients
         self.state: NDArray[np.float64] | None = None
@@ -139,13 +141,15 @@ class LatticeLadderFilter(RealtimeFilter):
 
         # FIR
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
-        b /= b[0]
-        k = _get_lattice_coefficients_fir(b)
+        gain = b[0]
+        k = _get_lattice_coefficients_fir(b / gain)
         assert np.all(np.abs(k) < 1), (
             "Some reflection coefficient was "
             + "equal or larger than zero, this is not supported"
         )
-        return LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        new_filt = LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        new_filt.gain_fir = gain
+        return new_filt
 
     def set_n_channels(self, n_channels: int):
         assert n_channels > 0, "At least one channel must be initialized"
@@ -203,7 +207,9 @@ class LatticeLadderFilter(RealtimeFilter):
                     self.k, self.c, td, self.state
                 )
         elif not self.iir_filter:
-            td, self.state = _lattice_filtering_fir(self.k, td, self.state)
+            td, self.state = _lattice_filtering_fir(
+                self.k, td * self.gain_fir, self.state
+            )
         elif self.iir_filter and self.c is None:
             raise NotImplementedError("No implementation for all-pole IIR filtering")
 
@@ -237,7 +243,7 @@ class LatticeLadderFilter(RealtimeFilter):
             else:
                 return self.__lattice_ladder_filtering_iir_sample(x, channel)
         else:
-            return self.__lattice_filtering_fir_sample(x, channel)
+            return self.__lattice_filtering_fir_sample(x * self.gain_fir, channel)
 
     def __lattice_ladder_filtering_sos_sample(self, x: float, channel: int) -> float:
         for section in range(self.k.shape[0]):
-- 
2.43.0


From d8535f9cd0033af4a602a05ad2ae6fc141ea5378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 013/190] fix: filter states are saved per channel so that
 blocks can be filtered one after another

---
 dsptoolbox/classes/filter_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 004644c..65162d0 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -282,6 +282,7 @@ def _filter_on_signal(
         zi_new = []
         for n in range(signal.number_of_channels):
             zi_new.append(zi[:, :, n])
+        zi = zi_new
     return new_signal, zi
 
 
@@ -379,6 +380,7 @@ def _filter_on_signal_ba(
         zi_new = []
         for n in range(zi.shape[1]):
             zi_new.append(zi[:, n])
+        zi = zi_new
     return new_signal, zi
 
 
-- 
2.43.0


From 5caec1e456d67613f371dcc7ac1f8eb46444b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 014/190] fix: FIR filters with a single coefficient can be
 used with filter states

---
 dsptoolbox/classes/filter_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 65162d0..5ffa34a 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -496,7 +496,7 @@ def _lfilter_fir(
     # Use zi's and take zf's
     if zi is not None:
         y[: zi.shape[0], :] += zi
-        zf = y[-zi.shape[0] :, :]
+        zf = y[x.shape[0] :, :]
 
     # Trim output
     y = y[: x.shape[0], :]
-- 
2.43.0


From f5c68227b5ccbe497c6d4c6d23ce7faa10c3abfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 015/190] fix: LRFilterBank does not share allpass states
 between crossovers

---
 dsptoolbox/filterbanks/_filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index a2b65dc..3b3b96b 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -207,7 +207,7 @@ class LRFilterBank:
                     allp_zi_l = sosfilt_zi(self.sos[i2][0])  # Low band
                     allp_zi_h = sosfilt_zi(self.sos[i2][1])  # High band
                     al.append([allp_zi_l, allp_zi_h])
-                    allpass_zi.append(al)
+                allpass_zi.append(al)
             self.channels_zi.append([cross_zi, allpass_zi])
 
     # ======== Filtering ======================================================
-- 
2.43.0


From a431048472a2e6b4ff0e3ea1e0f19234ab997c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:21 +0000
Subject: [PATCH 016/190] fix: signals with a single sample can be created

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 652e0d3..8c918d0 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -253,7 +253,7 @@ class Signal(MultichannelData):
 
         """
         # Shape of Time Data array
-        new_time_data = np.atleast_2d(new_time_data).squeeze()
+        new_time_data = np.atleast_1d(np.atleast_2d(new_time_data).squeeze())
         assert new_time_data.ndim <= 2, (
             f"{new_time_data.ndim} are "
             + "too many dimensions for time data. Dimensions should"
-- 
2.43.0


From f1106c43034c3c611f8ca18034fac42686abcd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 017/190] fix: changing the spectrum smoothing invalidates the
 cached spectrum

---
 dsptoolbox/classes/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 8c918d0..58c83e4 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -702,6 +702,8 @@ class Signal(MultichannelData):
         """
         assert new_smoothing >= 0.0, "Smoothing must be positive or zero"
         self._spectrum_parameters["smoothing"] = float(new_smoothing)
+        self.__spectrum_state_update = True
+        self.__csm_state_update = True
 
     def set_spectrogram_parameters(
         self,
-- 
2.43.0


From b3237052fcdd3f70b52b57ee889950df38be5973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 018/190] fix: plots with temporary spectrum settings do not
 leave or use a stale cached spectrum

---
 dsptoolbox/classes/signal.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 58c83e4..d7b3867 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1104,13 +1104,13 @@ class Signal(MultichannelData):
 
         """
         # Handle smoothing
-        prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
+        prior_smoothing = self.spectrum_smoothing
+        self.spectrum_smoothing = 0
 
         # Get spectrum
         f, sp = self.get_spectrum()
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.spectrum_smoothing = prior_smoothing
 
         f, mag_db = _get_normalized_spectrum(
             f=f,
@@ -1340,7 +1340,7 @@ class Signal(MultichannelData):
             smoothing=0,
         )
         f, sp = self.get_spectrum()
-        self._spectrum_parameters = prior_spectrum_parameters
+        self.set_spectrum_parameters(**prior_spectrum_parameters)
 
         ph = np.angle(sp)
 
@@ -1495,14 +1495,14 @@ class Signal(MultichannelData):
             self.spectrum_method == SpectrumMethod.FFT
         ), "Phase cannot be plotted since the spectrum is welch."
 
-        prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
+        prior_smoothing = self.spectrum_smoothing
+        self.spectrum_smoothing = 0
 
         # Get spectrum
         f, sp = self.get_spectrum()
         ph = np.angle(sp)
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.spectrum_smoothing = prior_smoothing
 
         if remove_ir_latency is None:
             pass
-- 
2.43.0


From 9fd80dc9e8de7e1e6f8b8df1a8386f0f002a976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 019/190] fix: a spectrogram computed without cache does not
 revalidate an outdated cached one

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index d7b3867..192dc3e 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1046,9 +1046,9 @@ class Signal(MultichannelData):
                 self._spectrogram_parameters["padding"],
                 self._spectrogram_parameters["scaling"],
             )
-            self.__spectrogram_state_update = False
             if self.activate_cache:
                 self.spectrogram = deepcopy(spectrogram)
+                self.__spectrogram_state_update = False
             return spectrogram[0], spectrogram[1], spectrogram[2]
 
         return (
-- 
2.43.0


From 999b46dfb605c955b7dfc53156837499a9382a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 020/190] fix: setting or clearing the time window invalidates
 the cached spectral data

---
 dsptoolbox/classes/impulse_response.py | 1 +
 dsptoolbox/classes/signal.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index e1c6913..109ebec 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -149,6 +149,7 @@ class ImpulseResponse(Signal):
             window.shape == self.time_data.shape
         ), f"{window.shape} does not match shape {self.time_data.shape}"
         self.window = window
+        self._update_state()
         return self
 
     def plot_time(self) -> tuple[Figure, list[Axes]]:
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 192dc3e..fe0c004 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -857,6 +857,7 @@ class Signal(MultichannelData):
         """Deletes the time window of the signal in case there is any."""
         if hasattr(self, "window"):
             del self.window
+            self.__update_state()
         return self
 
     # ======== Getters ========================================================
-- 
2.43.0


From 6a10f173a8e830984bbada55f229c130808296b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 021/190] fix: Welch's method works for single-channel signals
 with one frame

---
 dsptoolbox/standard/_spectral_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 0147016..3d84631 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -128,9 +128,9 @@ def _welch(
         y_frames *= window[:, np.newaxis, np.newaxis]
 
     if not multi_channel:
-        x_frames = np.squeeze(x_frames)
+        x_frames = np.squeeze(x_frames, axis=-1)
         if not autospectrum:
-            y_frames = np.squeeze(y_frames)
+            y_frames = np.squeeze(y_frames, axis=-1)
 
     # Detrend
     if detrend:
-- 
2.43.0


From 94bc152b5ce5803543714421eeb643c5b6cf1838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 022/190] fix: median bias in Welch's method sums over all
 terms

---
 dsptoolbox/standard/_spectral_methods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 3d84631..c57310f 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -158,7 +158,8 @@ def _welch(
             if sp_frames.shape[1] % 2 == 1
             else sp_frames.shape[1] - 1
         )
-        bias = np.sum((-1) ** (n + 1) / n)
+        terms = np.arange(1, n + 1)
+        bias = np.sum((-1.0) ** (terms + 1) / terms)
         csd /= bias
 
     # Weightning (with 2 because one-sided)
-- 
2.43.0


From ec942309d007702006f42231985c0ade60b4e42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 023/190] fix: frequency vector of the spectrogram corresponds
 to the FFT length

---
 dsptoolbox/standard/_spectral_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index c57310f..f09b718 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -279,7 +279,7 @@ def _stft(
         stft *= factor
 
     time_s = np.linspace(0, len(x) / fs_hz, stft.shape[1])
-    freqs_hz = np.fft.rfftfreq(len(window), 1 / fs_hz)
+    freqs_hz = np.fft.rfftfreq(fft_length_samples, 1 / fs_hz)
     return time_s, freqs_hz, stft
 
 
-- 
2.43.0


From a5b39dfe4b07b246be49538d3e16b7cc1e9193a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 024/190] fix: scaling of the cross-spectral matrix obtained
 from the FFT

---
 dsptoolbox/classes/signal.py             |  5 +++++
 dsptoolbox/standard/_spectral_methods.py | 28 +++++++++++++++---------
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index fe0c004..741d269 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1001,6 +1001,11 @@ class Signal(MultichannelData):
                     old_scaling,
                     self.window if hasattr(self, "window") else None,
                     self.sampling_rate_hz,
+                    (
+                        next_fast_len(self.length_samples, True)
+                        if self._spectrum_parameters["pad_to_fast_length"]
+                        else self.length_samples
+                    ),
                 )
                 self.spectrum_scaling = old_scaling
             if self.activate_cache:
diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index f09b718..d988a04 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -377,6 +377,7 @@ def _csm_fft(
     scaling: SpectrumScaling,
     window: NDArray[np.float64] | None,
     sampling_rate_hz: int,
+    time_length_samples: int,
 ) -> np.complex128:
     """Compute the cross-spectral matrix from a multichannel complex spectrum.
     It is assumed that the input spectrum has no scaling, i.e., FFTBackward
@@ -392,6 +393,8 @@ def _csm_fft(
         Time window if it has been applied.
     sampling_rate_hz : int
         Sampling rate.
+    time_length_samples : int
+        Length of the time data used for the (R)FFT.
 
     Returns
     -------
@@ -430,15 +433,20 @@ def _csm_fft(
     if scaling == SpectrumScaling.FFTBackward:
         return csm
 
-    # Fix DC and Nyquist because one-sided
-    csm[np.array([0, -1]), ...] /= 2.0
+    # Conversion (linear factor per channel)
+    factor = np.ravel(
+        scaling.get_scaling_factor(time_length_samples, sampling_rate_hz, window)
+    )
+    if not scaling.is_amplitude_scaling():
+        factor = factor**0.5
+    factor = np.broadcast_to(factor, number_of_channels)
+    csm *= np.outer(factor, factor)[None, ...]
 
-    # Conversion
-    factor = SpectrumScaling.FFTBackward.conversion_factor(
-        scaling, spectrum.shape[0] // 2 + 1, sampling_rate_hz, window
-    )[:, None]
-    factor = np.repeat(factor, number_of_channels, axis=-1)
-    csm *= factor[None, ...]
-    if scaling.is_amplitude_scaling():
-        csm = np.sqrt(csm)
+    if scaling.has_physical_units():
+        # Fix DC and Nyquist because one-sided
+        csm[0] /= 2.0
+        if time_length_samples % 2 == 0:
+            csm[-1] /= 2.0
+        if scaling.is_amplitude_scaling():
+            csm = np.sqrt(csm)
     return csm
-- 
2.43.0


From 5d8f5f26e9e8605e49b84002e9898d5ac31d2239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 025/190] fix: scale_spectrum does not modify its input

---
 dsptoolbox/helpers/spectrum_utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 37c9d91..7b6e947 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -315,6 +315,7 @@ def _scale_spectrum(
     factor = scaling.get_scaling_factor(time_length_samples, sampling_rate_hz, window)
 
     # One-sided fix for DC and Nyquist (assuming input was linear)
+    spectrum = spectrum.copy()
     spectrum[0] /= 2**0.5
     if time_length_samples % 2 == 0:
         spectrum[-1] /= 2**0.5
-- 
2.43.0


From 1590a3de785e02a270d83f4a974ef3bd2d3cb285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 026/190] fix: normalized power spectra are smoothed when
 requested

---
 dsptoolbox/helpers/spectrum_utilities.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 7b6e947..422c118 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -153,16 +153,14 @@ def _get_normalized_spectrum(
     f = f[id1:id2]
 
     if smoothing != 0:
-        if is_amplitude_scaling:
-            mag_spectra = (
-                _fractional_octave_smoothing(mag_spectra, None, smoothing)
-                if is_amplitude_scaling
-                else (
-                    # Smoothing always in amplitude representation
-                    _fractional_octave_smoothing(mag_spectra**0.5, None, smoothing)
-                    ** 2
-                )
+        mag_spectra = (
+            _fractional_octave_smoothing(mag_spectra, None, smoothing)
+            if is_amplitude_scaling
+            else (
+                # Smoothing always in amplitude representation
+                _fractional_octave_smoothing(mag_spectra**0.5, None, smoothing) ** 2
             )
+        )
 
     mag_spectra_db = to_db(mag_spectra / scale_factor, is_amplitude_scaling, 500)
 
-- 
2.43.0


From 3930c671a0b5181f439274628547fd874b4630c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 027/190] fix: normalization by the energy of the first channel
 for power spectra

---
 dsptoolbox/helpers/spectrum_utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 422c118..0b6901b 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -191,7 +191,11 @@ def _get_normalized_spectrum(
         case MagnitudeNormalization.EnergyFirstChannel:
             normalization_db = to_db(
                 np.mean(
-                    (mag_spectra[:, 0] ** 2.0 if is_amplitude_scaling else mag_spectra),
+                    (
+                        mag_spectra[:, 0] ** 2.0
+                        if is_amplitude_scaling
+                        else mag_spectra[:, 0]
+                    ),
                     axis=0,
                     keepdims=True,
                 ),
-- 
2.43.0


From f9434e7294b7a81aa3053568ba7c541b1f4eca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 028/190] fix: reconstructing a framed signal does not modify
 the frames or the window

---
 dsptoolbox/standard/_framed_signal_representation.py | 2 +-
 dsptoolbox/standard/_standard_backend.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_framed_signal_representation.py b/dsptoolbox/standard/_framed_signal_representation.py
index 0d724d6..cbdcf44 100644
--- a/dsptoolbox/standard/_framed_signal_representation.py
+++ b/dsptoolbox/standard/_framed_signal_representation.py
@@ -110,7 +110,7 @@ def _reconstruct_framed_signal(
             assert (
                 window.shape[0] == td_framed.shape[0]
             ), "Window length does not match signal length"
-        td_framed *= window[:, np.newaxis, np.newaxis]
+        td_framed = td_framed * window[:, np.newaxis, np.newaxis]
 
     total_length = int(
         step_size * td_framed.shape[1]
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index bc5d875..837b65b 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -417,7 +417,7 @@ def _get_window_envelope(
 
     """
     if squared:
-        window **= 2
+        window = window**2
     envelope = np.zeros(total_length_samples)
 
     start = 0
-- 
2.43.0


From 3233bdf3338d4ad30f82fed985aeb334d536b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 029/190] fix: constraining the amplitude does not modify the
 caller's array and supports integer data

---
 dsptoolbox/classes/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 741d269..a198d49 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -279,14 +279,14 @@ class Signal(MultichannelData):
             if new_time_data_imag is not None:
                 time_data_max = max(time_data_max, np.max(np.abs(new_time_data_imag)))
             if time_data_max > 1.0:
-                new_time_data /= time_data_max
+                new_time_data = new_time_data / time_data_max
                 warn(
                     "Signal was over 0 dBFS, normalizing to 0 dBFS "
                     + "peak level was triggered"
                 )
                 # Imaginary part is also scaled by same factor as real part
                 if new_time_data_imag is not None:
-                    new_time_data_imag /= time_data_max
+                    new_time_data_imag = new_time_data_imag / time_data_max
                 self.__amplitude_scale_factor = 1.0 / time_data_max
             else:
                 self.__amplitude_scale_factor = 1.0
-- 
2.43.0


From 99b48a65a1145fc4b1efcf080461e9a50369af59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 030/190] fix: activating constrain_amplitude keeps the
 imaginary part

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index a198d49..b44bdf7 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -452,7 +452,7 @@ class Signal(MultichannelData):
         self.__constrain_amplitude = nca
         # Restart time data setter for triggering normalization if needed
         if nca and hasattr(self, "time_data"):
-            ntd = self.time_data
+            ntd = self._get_data()
             self.time_data = ntd
 
     @property
-- 
2.43.0


From 861fa3200a9e85a64cf65bfd29c4c94ab051ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 031/190] fix: adding a channel keeps the imaginary part of
 complex signals

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index b44bdf7..1a9fc93 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -849,7 +849,7 @@ class Signal(MultichannelData):
                     + f"{self.time_data.shape[0]}. Activate allow_padding_trimming "
                     + "for allowing this channel to be added"
                 )
-        self.time_data = np.concatenate([self.time_data, new_time_data], axis=1)
+        self.time_data = np.concatenate([self._get_data(), new_time_data], axis=1)
         self.__update_state()
         return self
 
-- 
2.43.0


From 7f0b48cbf3acb72bc5b036a2dafbaa0fdd7c8249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 032/190] fix: length of reconstructed framed signals is not
 subject to rounding

---
 dsptoolbox/standard/_framed_signal_representation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/_framed_signal_representation.py b/dsptoolbox/standard/_framed_signal_representation.py
index cbdcf44..ae24f28 100644
--- a/dsptoolbox/standard/_framed_signal_representation.py
+++ b/dsptoolbox/standard/_framed_signal_representation.py
@@ -112,10 +112,7 @@ def _reconstruct_framed_signal(
             ), "Window length does not match signal length"
         td_framed = td_framed * window[:, np.newaxis, np.newaxis]
 
-    total_length = int(
-        step_size * td_framed.shape[1]
-        + td_framed.shape[0] * (1 - step_size / td_framed.shape[0])
-    )
+    total_length = step_size * (td_framed.shape[1] - 1) + td_framed.shape[0]
     td = np.zeros((total_length, td_framed.shape[-1]))
 
     start = 0
-- 
2.43.0


From 93020799509552b48cd6b007fb287038965e99af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 033/190] fix: rejected bands leave the multiband signal as it
 was

---
 dsptoolbox/classes/multibandsignal.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index e383c41..0739297 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -146,14 +146,14 @@ class MultiBandSignal:
         assert type(new_bands) is list, "bands has to be a list"
         if new_bands:
             # Check length and number of channels
-            self.__number_of_channels = new_bands[0].number_of_channels
+            number_of_channels = new_bands[0].number_of_channels
             sr = []
             complex_data = new_bands[0].time_data_imaginary is not None
             for s in new_bands:
                 assert isinstance(s, Signal), (
                     f"{type(s)} is not a valid " + "band type. Use Signal objects"
                 )
-                assert s.number_of_channels == self.number_of_channels, (
+                assert s.number_of_channels == number_of_channels, (
                     "Signals have different number of channels. This "
                     + "behaviour is not supported"
                 )
@@ -162,15 +162,11 @@ class MultiBandSignal:
                     + "not. This behavior is not supported."
                 )
                 sr.append(s.sampling_rate_hz)
-            if self.same_sampling_rate:
-                self.sampling_rate_hz = new_bands[0].sampling_rate_hz
-                expected_length_samples = new_bands[0].length_samples
-            else:
-                self.sampling_rate_hz = sr
             # Check sampling rate and duration
             if self.same_sampling_rate:
+                expected_length_samples = new_bands[0].length_samples
                 for s in new_bands:
-                    assert s.sampling_rate_hz == self.sampling_rate_hz, (
+                    assert s.sampling_rate_hz == sr[0], (
                         "Not all Signals have the same sampling rate. "
                         + "If you wish to create a multirate system, set "
                         + "same_sampling_rate to False"
@@ -180,6 +176,8 @@ class MultiBandSignal:
                         + "This behaviour is not supported if there is a "
                         + "constant sampling rate"
                     )
+            self.sampling_rate_hz = sr[0] if self.same_sampling_rate else sr
+            self.__number_of_channels = number_of_channels
         self.__bands: list[Signal] = new_bands
 
     @property
-- 
2.43.0


From 8f16912f3ee6641ff8d81cef1837abe5c9b09120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 034/190] fix: the only band of a multiband signal can be
 swapped with itself

---
 dsptoolbox/classes/multibandsignal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 0739297..11c9b95 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -382,7 +382,7 @@ class MultiBandSignal:
             New rearrangement of bands.
 
         """
-        new_order = array(new_order).squeeze()
+        new_order = atleast_1d(array(new_order).squeeze())
         assert new_order.ndim == 1, (
             "Too many or too few dimensions are given in the new "
             + "arrangement vector"
-- 
2.43.0


From 74935e246a39faa13384290247c6dc519b6df037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 035/190] fix: collapsing a multiband signal does not add up
 the bands in the first one

---
 dsptoolbox/classes/multibandsignal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index 11c9b95..b484ece 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -414,7 +414,7 @@ class MultiBandSignal:
             self.same_sampling_rate
         ), "Collapsing is only available for same sampling rate bands"
         if self.bands[0].time_data_imaginary is None:
-            initial = self.bands[0].time_data
+            initial = self.bands[0].time_data.copy()
             for n in range(1, len(self.bands)):
                 initial += self.bands[n].time_data
         else:
-- 
2.43.0


From 7832199081319a7d4d6591de342067fd11590704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 036/190] fix: get_all_bands does not normalize impulse
 responses

---
 dsptoolbox/classes/multibandsignal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index b484ece..2bd7092 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -498,7 +498,10 @@ class MultiBandSignal:
                         + self.bands[n].time_data_imaginary[:, channel] * 1j
                     )
             return self.__get_type_of_signal_bands()(
-                None, new_time_data, self.sampling_rate_hz
+                None,
+                new_time_data,
+                self.sampling_rate_hz,
+                constrain_amplitude=self.bands[0].constrain_amplitude,
             )
 
         new_time_data = []
-- 
2.43.0


From eff7068ec2ad2162ef76d39998d2dbe51e7898a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:16 +0000
Subject: [PATCH 037/190] fix: appending multiband signals keeps the bands of
 the first one

---
 dsptoolbox/standard/appending.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/appending.py b/dsptoolbox/standard/appending.py
index 54b93e5..cd293f9 100644
--- a/dsptoolbox/standard/appending.py
+++ b/dsptoolbox/standard/appending.py
@@ -115,7 +115,7 @@ def append_signals(
         signals_without_first = signals.copy()  # Shallow copy
         signals_without_first.pop(0)
         for n in range(signals[0].number_of_bands):
-            new_band = signals[0].bands[0].copy()
+            new_band = signals[0].bands[n].copy()
             for s in signals_without_first:
                 new_band = append_signals(
                     [new_band, s.bands[n]], allow_padding_trimming, at_end
-- 
2.43.0


From e6d4fe2f125bb083ac10894e8683b41cbde90340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 038/190] fix: impulse responses created from a signal do not
 share its data

---
 dsptoolbox/classes/impulse_response.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 109ebec..8049ba9 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -80,12 +80,11 @@ class ImpulseResponse(Signal):
         """
         ir = ImpulseResponse(
             None,
-            signal.time_data,
+            signal._get_data().copy(),
             signal.sampling_rate_hz,
             signal.constrain_amplitude,
         )
         ir.calibrated_signal = signal.calibrated_signal
-        ir.time_data_imaginary = signal.time_data_imaginary
         return ir
 
     @staticmethod
-- 
2.43.0


From 3c8d4ceb4ed2fba3b4a72a4444e51893769a6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:51 +0000
Subject: [PATCH 039/190] fix: impulse responses created from time data report
 the applied amplitude factor

---
 dsptoolbox/classes/impulse_response.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 8049ba9..4ad4371 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -132,8 +132,7 @@ class ImpulseResponse(Signal):
         ImpulseResponse
 
         """
-        s = Signal.from_time_data(time_data, sampling_rate_hz, constrain_amplitude)
-        return ImpulseResponse.from_signal(s)
+        return ImpulseResponse(None, time_data, sampling_rate_hz, constrain_amplitude)
 
     def set_window(self, window: NDArray[np.float64]):
         """Sets the window used for the IR.
-- 
2.43.0


From 8678f0f5ebd4405a1e9afde74d01f36bdd161838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:41 +0000
Subject: [PATCH 040/190] fix: apply_gain keeps the imaginary part of complex
 signals

---
 dsptoolbox/standard/gain_and_level.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index f5a065d..a51f187 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -323,10 +323,10 @@ def apply_gain(
         gain_linear = from_db(np.atleast_1d(gain_db), True)
         if len(gain_linear) == 1:
             gain_linear = gain_linear[0]
-        new_sig = target.copy_with_new_time_data(target.time_data * gain_linear)
-        if new_sig.is_complex_signal:
-            new_sig.time_data_imaginary *= gain_linear
-        return new_sig
+        time_data = target.time_data
+        if target.is_complex_signal:
+            time_data = time_data + 1j * target.time_data_imaginary
+        return target.copy_with_new_time_data(time_data * gain_linear)
     elif isinstance(target, MultiBandSignal):
         new_mb = target.copy()
         for ind in range(new_mb.number_of_bands):
-- 
2.43.0


From 9cc249e042159abcceb3d1dbdd8742fbec2e9b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 041/190] fix: the RMS value contains the mean of the signal

---
 dsptoolbox/helpers/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index b788795..d2dce00 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -21,7 +21,7 @@ def _rms(x: NDArray[np.float64]) -> float | NDArray[np.float64]:
     """
     single_dim = x.ndim == 1
     x = x[..., None] if single_dim else x
-    rms_vals = np.std(x, axis=0)
+    rms_vals = np.mean(np.abs(x) ** 2.0, axis=0) ** 0.5
     return rms_vals[..., 0] if single_dim else rms_vals
 
 
-- 
2.43.0


From d94786fda4529100344e5ad5aee86a6815608cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 042/190] fix: crest factor of multiband signals is converted
 to dB once

---
 dsptoolbox/standard/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index a51f187..993992c 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -393,7 +393,7 @@ def crest_factor(
     elif isinstance(sig, MultiBandSignal):
         crest = np.zeros((sig.number_of_bands, sig.number_of_channels))
         for ind, b in enumerate(sig):
-            crest[ind, :] = crest_factor(b, in_db, use_true_peak)
+            crest[ind, :] = crest_factor(b, False, use_true_peak)
     else:
         raise TypeError(
             "Passed signal should be either a Signal or " + "MultiBandSignal type"
-- 
2.43.0


From b980cb7497a8399bb0c6d7150f024d5247672599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 043/190] fix: trim_with_time_selection rounds to samples and
 regards bounds at zero

---
 dsptoolbox/standard/pad_trim_methods.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/pad_trim_methods.py b/dsptoolbox/standard/pad_trim_methods.py
index 67fb840..a0ac004 100644
--- a/dsptoolbox/standard/pad_trim_methods.py
+++ b/dsptoolbox/standard/pad_trim_methods.py
@@ -210,23 +210,23 @@ def trim_with_time_selection(
         assert (
             start_time_s is not None or end_time_s is not None
         ), "At least one bound must be other than None"
-        if start_time_s:
+        if start_time_s is not None:
             assert start_time_s >= 0.0, "Start time must be at least zero"
             assert (
                 start_time_s < signal.length_seconds
             ), "Start time must be less than signal's length"
-            start_sample = int(start_time_s * signal.sampling_rate_hz)
+            start_sample = int(start_time_s * signal.sampling_rate_hz + 0.5)
             if not inclusive:
                 start_sample += 1
         else:
             start_sample = 0
 
-        if end_time_s:
+        if end_time_s is not None:
             assert end_time_s > 0.0, "End time must be greater than 0"
             assert (
                 end_time_s <= signal.length_seconds
             ), "End time must be less than signal length"
-            end_sample = int(end_time_s * signal.sampling_rate_hz)
+            end_sample = int(end_time_s * signal.sampling_rate_hz + 0.5)
             if inclusive:
                 end_sample += 1
         else:
-- 
2.43.0


From edb9ea8be6ba816f0e56aee3b00444b2ce950838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 044/190] fix: padding, trimming, delaying, fading, normalizing
 and resampling keep the imaginary part

---
 dsptoolbox/standard/_standard_backend.py |  8 ++++++++
 dsptoolbox/standard/gain_and_level.py    | 20 +++++++++++++-------
 dsptoolbox/standard/latency_delay.py     |  8 ++++++--
 dsptoolbox/standard/pad_trim_methods.py  | 21 ++++++++++++---------
 dsptoolbox/standard/resampling.py        |  5 ++++-
 5 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 837b65b..3b16d0e 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -11,6 +11,14 @@ from ..helpers.spectrum_utilities import _wrap_phase
 from ..helpers.gain_and_level import from_db
 
 
+def _real_or_complex_time_data(signal) -> NDArray[np.float64 | np.complex128]:
+    """Return the time data of a signal, including its imaginary part if there
+    is any."""
+    if signal.is_complex_signal:
+        return signal.time_data + 1j * signal.time_data_imaginary
+    return signal.time_data
+
+
 def _latency(
     in1: NDArray[np.float64],
     in2: NDArray[np.float64] | None,
diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index 993992c..71d6bd9 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -4,6 +4,7 @@ from numpy.typing import NDArray
 from ..classes import Signal, MultiBandSignal, FilterBank, Filter
 from ..helpers.gain_and_level import _fade, from_db, _normalize, _rms, to_db
 from ._framed_signal_representation import _get_framed_signal
+from ._standard_backend import _real_or_complex_time_data
 from .resampling import resample
 from .enums import FadeType, BiquadEqType
 from .other import merge_filters
@@ -45,7 +46,12 @@ def normalize(
     """
     if isinstance(sig, Signal):
         return sig.copy_with_new_time_data(
-            _normalize(sig.time_data, norm_dbfs, peak_normalization, each_channel)
+            _normalize(
+                _real_or_complex_time_data(sig),
+                norm_dbfs,
+                peak_normalization,
+                each_channel,
+            )
         )
     elif isinstance(sig, MultiBandSignal):
         new_sig = sig.copy()
@@ -96,9 +102,10 @@ def fade(
         length_fade_seconds < sig.time_vector_s[-1]
     ), "Fade length should not be longer than the signal itself"
 
-    new_time_data = np.empty_like(sig.time_data)
+    time_data = _real_or_complex_time_data(sig)
+    new_time_data = np.empty_like(time_data)
     for n in range(sig.number_of_channels):
-        vec = sig.time_data[:, n].copy()
+        vec = time_data[:, n].copy()
         if at_start:
             new_time_data[:, n] = _fade(
                 vec,
@@ -323,10 +330,9 @@ def apply_gain(
         gain_linear = from_db(np.atleast_1d(gain_db), True)
         if len(gain_linear) == 1:
             gain_linear = gain_linear[0]
-        time_data = target.time_data
-        if target.is_complex_signal:
-            time_data = time_data + 1j * target.time_data_imaginary
-        return target.copy_with_new_time_data(time_data * gain_linear)
+        return target.copy_with_new_time_data(
+            _real_or_complex_time_data(target) * gain_linear
+        )
     elif isinstance(target, MultiBandSignal):
         new_mb = target.copy()
         for ind in range(new_mb.number_of_bands):
diff --git a/dsptoolbox/standard/latency_delay.py b/dsptoolbox/standard/latency_delay.py
index 3919619..0a0a626 100644
--- a/dsptoolbox/standard/latency_delay.py
+++ b/dsptoolbox/standard/latency_delay.py
@@ -9,7 +9,11 @@ from ..helpers.latency import (
 )
 from ..helpers.other import _pad_trim
 from ..classes import Signal, MultiBandSignal
-from ._standard_backend import _latency, _fractional_delay_filter
+from ._standard_backend import (
+    _latency,
+    _fractional_delay_filter,
+    _real_or_complex_time_data,
+)
 
 
 def latency(
@@ -330,7 +334,7 @@ def delay(
         ) == len(channels), "There is at least an invalid channel number"
 
         # Copy data
-        new_time_data = sig.time_data
+        new_time_data = _real_or_complex_time_data(sig)
 
         # Handle delayed and undelayed channels
         channels_not = np.setdiff1d(channels, np.arange(new_time_data.shape[1]))
diff --git a/dsptoolbox/standard/pad_trim_methods.py b/dsptoolbox/standard/pad_trim_methods.py
index a0ac004..f984075 100644
--- a/dsptoolbox/standard/pad_trim_methods.py
+++ b/dsptoolbox/standard/pad_trim_methods.py
@@ -2,6 +2,7 @@ import numpy as np
 
 from ..classes import Signal, MultiBandSignal
 from ..helpers.other import _pad_trim
+from ._standard_backend import _real_or_complex_time_data
 from ..tools import from_db
 
 
@@ -30,14 +31,13 @@ def pad_trim(
 
     """
     if isinstance(signal, Signal):
-        new_time_data = np.zeros((desired_length_samples, signal.number_of_channels))
-        for n in range(signal.number_of_channels):
-            new_time_data[:, n] = _pad_trim(
-                signal.time_data[:, n],
+        return signal.copy_with_new_time_data(
+            _pad_trim(
+                _real_or_complex_time_data(signal),
                 desired_length_samples,
                 in_the_end=in_the_end,
             )
-        return signal.copy_with_new_time_data(new_time_data)
+        )
     elif isinstance(signal, MultiBandSignal):
         assert (
             signal.same_sampling_rate
@@ -101,7 +101,7 @@ def modify_signal_length(
             assert len(signal) > -(start_samples + end_samples), "Trimming is too much"
 
         new_sig = signal.copy()
-        td = new_sig.time_data
+        td = _real_or_complex_time_data(new_sig)
         if start_samples >= 0:
             td = np.pad(td, ((start_samples, 0), (0, 0)))
         else:
@@ -158,7 +158,8 @@ def trim_with_level_threshold(
     assert at_start or at_end, "Either start or end should be trimmed"
 
     threshold_linear = from_db(threshold_db, True)
-    above_threshold = np.where(np.abs(signal.time_data) >= threshold_linear)
+    time_data = _real_or_complex_time_data(signal)
+    above_threshold = np.where(np.abs(time_data) >= threshold_linear)
     if at_start:
         indices_along_first_axis = above_threshold[0][: signal.number_of_channels]
         start = int(np.min(indices_along_first_axis))
@@ -172,7 +173,7 @@ def trim_with_level_threshold(
         stop = signal.length_samples
 
     return (
-        signal.copy_with_new_time_data(signal.time_data[start:stop]),
+        signal.copy_with_new_time_data(time_data[start:stop]),
         start,
         stop,
     )
@@ -234,7 +235,9 @@ def trim_with_time_selection(
 
         assert end_sample > start_sample, "Invalid time window"
         selection = slice(start_sample, end_sample)
-        return signal.copy_with_new_time_data(signal.time_data[selection, ...])
+        return signal.copy_with_new_time_data(
+            _real_or_complex_time_data(signal)[selection, ...]
+        )
     elif isinstance(signal, MultiBandSignal):
         output = signal.copy()
         for ind in range(signal.number_of_bands):
diff --git a/dsptoolbox/standard/resampling.py b/dsptoolbox/standard/resampling.py
index a096ea1..bd5f584 100644
--- a/dsptoolbox/standard/resampling.py
+++ b/dsptoolbox/standard/resampling.py
@@ -3,6 +3,7 @@ from scipy.signal import resample_poly, bilinear_zpk
 
 from fractions import Fraction
 from ..classes import Signal, Filter
+from ._standard_backend import _real_or_complex_time_data
 from .enums import FilterCoefficientsType
 
 
@@ -35,7 +36,9 @@ def resample(
         numerator=desired_sampling_rate_hz, denominator=sig.sampling_rate_hz
     )
     u, d = ratio.as_integer_ratio()
-    new_time_data = resample_poly(sig.time_data, up=u, down=d, axis=0)
+    new_time_data = resample_poly(
+        _real_or_complex_time_data(sig), up=u, down=d, axis=0
+    )
     new_sig = sig.copy_with_new_time_data(
         new_time_data * (d / u) if rescaling else new_time_data
     )
-- 
2.43.0


From 1a31565fc97ddd0e737ce91ebe42ede63f389266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:42 +0000
Subject: [PATCH 045/190] fix: lufs_integrated does not modify the passed
 signal

---
 dsptoolbox/standard/gain_and_level.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index 71d6bd9..26d6a96 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -269,10 +269,9 @@ def lufs_integrated(s: Signal) -> float:
     DIFF_GAMMA_R = 10
 
     # Filter handling amplitude
-    constrained = s.constrain_amplitude
-    s.constrain_amplitude = False
-    s_prefiltered = k_filter.filter_signal(s)
-    s.constrain_amplitude = constrained
+    unconstrained = s.copy()
+    unconstrained.constrain_amplitude = False
+    s_prefiltered = k_filter.filter_signal(unconstrained)
 
     # Compute blocks
     z_ji = np.mean(
-- 
2.43.0


From 93d0fa39606ae5516827812dd1c41c01986e5d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 046/190] fix: logarithmic fades of a single sample do not
 produce NaN

---
 dsptoolbox/helpers/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index d2dce00..8a6c74f 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -141,7 +141,7 @@ def _fade(
         case FadeType.Logarithmic:
             # The constant 50 could be an extra parameter for the user...
             fade = np.log10(np.linspace(1, 50 * 10**0.5, l_samples))
-            fade /= fade[-1]
+            fade /= np.log10(50 * 10**0.5)
         case _:
             raise ValueError("No valid fade")
 
-- 
2.43.0


From c57e8eda2714feec0c482116d9f9373154ea8c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 047/190] fix: istft inverts spectrograms with amplitude
 scalings

---
 dsptoolbox/transforms/transforms.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 2ca9f99..681f35c 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -550,17 +550,25 @@ def istft(
         parameters["window_length_samples"],
     )
 
+    fft_length_samples = parameters["fft_length_samples"]
+    if fft_length_samples is None:
+        fft_length_samples = len(window)
+    if parameters["scaling"].has_physical_units():
+        if original_signal is not None:
+            sampling_rate_hz = original_signal.sampling_rate_hz
+        stft = stft / parameters["scaling"].get_scaling_factor(
+            fft_length_samples, sampling_rate_hz, window
+        )
+        stft[0, ...] *= 2**0.5
+        if fft_length_samples % 2 == 0:
+            stft[-1, ...] *= 2**0.5
     td_framed = np.fft.irfft(
         stft,
         axis=0,
-        n=parameters["fft_length_samples"],
+        n=fft_length_samples,
         norm=parameters["scaling"].fft_norm(),
     )
     td_framed = td_framed[: parameters["window_length_samples"], ...]
-    if parameters["scaling"].has_physical_units():
-        td_framed /= parameters["scaling"].get_scaling_factor(
-            parameters["fft_length_samples"], sampling_rate_hz, window
-        )
 
     # Reconstruct from framed representation to continuous
     step = int((1 - parameters["overlap_percent"] / 100) * len(window))
-- 
2.43.0


From 501ec15a1483c1f19016351746213b0b9d84bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:58 +0000
Subject: [PATCH 048/190] fix: istft uses the step size of the forward
 transform and supports zero overlap

---
 dsptoolbox/transforms/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 681f35c..e3a4073 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -571,12 +571,12 @@ def istft(
     td_framed = td_framed[: parameters["window_length_samples"], ...]
 
     # Reconstruct from framed representation to continuous
-    step = int((1 - parameters["overlap_percent"] / 100) * len(window))
+    overlap = int(parameters["overlap_percent"] / 100 * len(window) + 0.5)
+    step = len(window) - overlap
 
     if parameters["padding"]:
         td = _reconstruct_framed_signal(td_framed, step_size=step, window=window)
-        overlap = int(parameters["overlap_percent"] / 100 * len(window))
-        td = td[overlap:-overlap, :]
+        td = td[overlap : len(td) - overlap, :]
     else:
         extra_window = np.zeros_like(td_framed[:, 0, :])[:, np.newaxis, :]
         td_framed = np.append(extra_window, td_framed, axis=1)
-- 
2.43.0


From d2eb1d899549a0106d1153a8c5edf09f39bc49d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 049/190] fix: cross-spectral matrices from the FFT with
 amplitude scalings are hermitian

---
 dsptoolbox/standard/_spectral_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index d988a04..cfc1776 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -448,5 +448,7 @@ def _csm_fft(
         if time_length_samples % 2 == 0:
             csm[-1] /= 2.0
         if scaling.is_amplitude_scaling():
+            # Root of one half, so that negative values stay hermitian
             csm = np.sqrt(csm)
+            csm = np.tril(csm) + np.swapaxes(np.tril(csm, -1), 1, 2).conjugate()
     return csm
-- 
2.43.0


From f76b4e3d85934cee65e048077a69f3a43af5b1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 050/190] fix: amplitude scalings of Welch's method are the
 root of the power scalings

---
 dsptoolbox/standard/_spectral_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index cfc1776..a76eee1 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -165,6 +165,8 @@ def _welch(
     # Weightning (with 2 because one-sided)
     if scaling.has_physical_units():
         factor = scaling.get_scaling_factor(window_length_samples, fs_hz, window)
+        if scaling.is_amplitude_scaling():
+            factor = factor**2.0
         csd *= factor
         csd[np.array([0, -1]), ...] /= 2
 
-- 
2.43.0


From 44c409506f41b93cb769d2220bc1841e2d92dc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:01 +0000
Subject: [PATCH 051/190] fix: spectra of single-channel signals with Welch's
 method have a channel axis

---
 dsptoolbox/classes/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 1a9fc93..9e814fc 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -898,6 +898,8 @@ class Signal(MultichannelData):
                     self._spectrum_parameters["average"],
                     self._spectrum_parameters["scaling"],
                 )
+                if spectrum.ndim < 2:
+                    spectrum = spectrum[..., None]
                 fft_length = self._spectrum_parameters["window_length_samples"]
             else:  # FFT
                 fft_length = (
-- 
2.43.0


From 5056767649d46b8b4e316cafb4e6220f4bd6500b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 052/190] fix: filters regard the imaginary part of complex
 signals

---
 dsptoolbox/classes/filter_helpers.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 5ffa34a..7c33845 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -10,6 +10,7 @@ from numpy.typing import NDArray
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
 from ..helpers.polyphase import _polyphase_decomposition
+from ..standard._standard_backend import _real_or_complex_time_data
 from ..standard.enums import BiquadEqType, FilterBankMode
 
 
@@ -243,11 +244,13 @@ def _filter_on_signal(
 
     """
     # Time Data
-    new_time_data = signal.time_data.copy()
+    time_data = _real_or_complex_time_data(signal)
+    new_time_data = time_data.copy()
 
     # zi unpacking
     if zi is not None:
         zi = np.moveaxis(np.asarray(zi), 0, -1)
+        zi = zi.astype(np.result_type(zi, time_data))
 
     # Channels
     if channels is None:
@@ -256,17 +259,17 @@ def _filter_on_signal(
     # Filtering
     if zi is not None:
         y, zi[:, :, channels] = sig.sosfilt(
-            sos, signal.time_data[:, channels], zi=zi[:, :, channels], axis=0
+            sos, time_data[:, channels], zi=zi[:, :, channels], axis=0
         )
     else:
         if zero_phase:
-            y = sig.sosfiltfilt(sos, signal.time_data[:, channels], axis=0)
+            y = sig.sosfiltfilt(sos, time_data[:, channels], axis=0)
         else:
-            y = sig.sosfilt(sos, signal.time_data[:, channels], axis=0)
+            y = sig.sosfilt(sos, time_data[:, channels], axis=0)
 
     # Check for complex output
     if np.iscomplexobj(y):
-        if warning_on_complex_output:
+        if warning_on_complex_output and not signal.is_complex_signal:
             warn(
                 "Filter output is complex. Imaginary part is saved in "
                 + "Signal as time_data_imaginary"
@@ -337,11 +340,13 @@ def _filter_on_signal_ba(
         lfilter = sig.lfilter
 
     # Time Data
-    new_time_data = signal.time_data.copy()
+    time_data = _real_or_complex_time_data(signal)
+    new_time_data = time_data.copy()
 
     # zi unpacking
     if zi is not None:
         zi = np.asarray(zi).T
+        zi = zi.astype(np.result_type(zi, time_data))
 
     # Channels
     if channels is None:
@@ -352,19 +357,19 @@ def _filter_on_signal_ba(
         y, zi[:, channels] = lfilter(
             ba[0],
             a=ba[1],
-            x=signal.time_data[:, channels],
+            x=time_data[:, channels],
             zi=zi[:, channels],
             axis=0,
         )
     else:
         if zero_phase:
-            y = sig.filtfilt(b=ba[0], a=ba[1], x=signal.time_data[:, channels], axis=0)
+            y = sig.filtfilt(b=ba[0], a=ba[1], x=time_data[:, channels], axis=0)
         else:
-            y = lfilter(ba[0], a=ba[1], x=signal.time_data[:, channels], axis=0)
+            y = lfilter(ba[0], a=ba[1], x=time_data[:, channels], axis=0)
 
     # Check for complex output
     if np.iscomplexobj(y):
-        if warning_on_complex_output:
+        if warning_on_complex_output and not signal.is_complex_signal:
             warn(
                 "Filter output is complex. Imaginary part is saved in "
                 + "Signal as time_data_imaginary"
@@ -495,6 +500,7 @@ def _lfilter_fir(
 
     # Use zi's and take zf's
     if zi is not None:
+        y = y.astype(np.result_type(y, zi), copy=False)
         y[: zi.shape[0], :] += zi
         zf = y[x.shape[0] :, :]
 
-- 
2.43.0


From 0e9456600ee7b54b30b1005cabfd7ce6183a5fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 053/190] fix: summed filter bank output keeps the imaginary
 part

---
 dsptoolbox/classes/filter_helpers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 7c33845..3d8f317 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -445,14 +445,13 @@ def _filterbank_on_signal(
             return out_sig
         case FilterBankMode.Summed:
             new_time_data = np.zeros(
-                (signal.time_data.shape[0], signal.number_of_channels, n_filt)
+                (signal.time_data.shape[0], signal.number_of_channels)
             )
             for n in range(n_filt):
                 s = filters[n].filter_signal(
                     signal, activate_zi=activate_zi, zero_phase=zero_phase
                 )
-                new_time_data[:, :, n] = s.time_data
-            new_time_data = np.sum(new_time_data, axis=-1)
+                new_time_data = new_time_data + _real_or_complex_time_data(s)
             return signal.copy_with_new_time_data(new_time_data)
         case _:
             raise ValueError("Invalid filter bank apply mode")
-- 
2.43.0


From 9c2104d8ff760e8cf5b755fa5b2bf880c9efc54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 054/190] fix: transfer function of a summed filter bank is the
 sum of its filters

---
 dsptoolbox/classes/filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 31e200f..8b55380 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -646,7 +646,7 @@ class FilterBank:
                 for ind, f in enumerate(self.filters):
                     h *= f.get_transfer_function(frequency_vector_hz)
             case FilterBankMode.Summed:
-                h = np.ones(len(frequency_vector_hz), dtype=np.complex128)
+                h = np.zeros(len(frequency_vector_hz), dtype=np.complex128)
                 for ind, f in enumerate(self.filters):
                     h += f.get_transfer_function(frequency_vector_hz)
             case _:
-- 
2.43.0


From 4641c406683163a5c08fcfbf89f74246184b0c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 055/190] fix: swap_filters accepts the order of a single
 filter

---
 dsptoolbox/classes/filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 8b55380..07f54c1 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -372,7 +372,7 @@ class FilterBank:
         self
 
         """
-        new_order = np.array(new_order).squeeze()
+        new_order = np.atleast_1d(np.array(new_order).squeeze())
         assert new_order.ndim == 1, (
             "Too many or too few dimensions are given in the new "
             + "arrangement vector"
-- 
2.43.0


From ed3fdacd3596e3aac9f3470fcbe49b79aa95542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:19 +0000
Subject: [PATCH 056/190] fix: impulse response of a filter bank does not drop
 the last tap

---
 dsptoolbox/classes/filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 07f54c1..aaffa62 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -589,7 +589,7 @@ class FilterBank:
         max_order = 0
         for b in self.filters:
             max_order = max(max_order, b.order)
-        if max_order > length_samples:
+        if max_order >= length_samples:
             warn(
                 f"Filter order {max_order} is longer than {length_samples}."
                 + "The length will be adapted to be 100 samples longer than"
-- 
2.43.0


From 6f30f550a4950b5b61c53b5876790906218486a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 057/190] fix: rejected filters do not change the sampling rate
 of a filter bank

---
 dsptoolbox/classes/filterbank.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index aaffa62..2b6adcb 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -223,21 +223,21 @@ class FilterBank:
             new_filters = list(new_filters)
         assert type(new_filters) is list, "Filters have to be passed as a list"
         if new_filters:
-            if self.same_sampling_rate:
-                self.sampling_rate_hz = new_filters[0].sampling_rate_hz
-            else:
-                sr = []
-                for f in new_filters:
-                    sr.append(f.sampling_rate_hz)
-                self.sampling_rate_hz = sr
             for ind, f in enumerate(new_filters):
                 assert (
                     type(f) is Filter
                 ), f"Object at index {ind} is not a supported Filter"
                 if self.same_sampling_rate:
                     assert (
-                        f.sampling_rate_hz == self.sampling_rate_hz
+                        f.sampling_rate_hz == new_filters[0].sampling_rate_hz
                     ), "Sampling rates do not match"
+            if self.same_sampling_rate:
+                self.sampling_rate_hz = new_filters[0].sampling_rate_hz
+            else:
+                sr = []
+                for f in new_filters:
+                    sr.append(f.sampling_rate_hz)
+                self.sampling_rate_hz = sr
         self.__filters = new_filters
 
     @property
-- 
2.43.0


From 0dd53d2aa257527c6c2655f60bcbec685babe990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 058/190] fix: filter banks initialize only the states that are
 missing

---
 dsptoolbox/classes/filterbank.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 2b6adcb..0f2d9be 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -461,10 +461,12 @@ class FilterBank:
                 "Zero-phase filtering and zi cannot be used at " + "the same time"
             )
         if activate_zi:
-            if not hasattr(self.filters[0], "zi"):
-                self.initialize_zi(signal.number_of_channels)
-            if len(self.filters[0].zi) != signal.number_of_channels:
-                self.initialize_zi(signal.number_of_channels)
+            for f in self.filters:
+                if (
+                    not hasattr(f, "zi")
+                    or len(f.zi) != signal.number_of_channels
+                ):
+                    f.initialize_zi(signal.number_of_channels)
 
         new_sig = _filterbank_on_signal(
             signal,
@@ -513,10 +515,12 @@ class FilterBank:
                 "Zero-phase filtering and zi cannot be used at " + "the same time"
             )
         if activate_zi:
-            if not hasattr(self.filters[0], "zi"):
-                self.initialize_zi(mbsignal.number_of_channels)
-            if len(self.filters[0].zi) != mbsignal.number_of_channels:
-                self.initialize_zi(mbsignal.number_of_channels)
+            for f in self.filters:
+                if (
+                    not hasattr(f, "zi")
+                    or len(f.zi) != mbsignal.number_of_channels
+                ):
+                    f.initialize_zi(mbsignal.number_of_channels)
 
         new_sig = mbsignal.copy()
 
-- 
2.43.0


From ea3168d48e64fb22c68327af9083ad947c7a4ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 059/190] fix: the order of second-order section filters is an
 integer

---
 dsptoolbox/classes/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 5818d95..502fe50 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -633,7 +633,7 @@ class Filter:
             n_first_order_sos = np.sum(
                 (self.sos[:, 2] == 0.0) & (self.sos[:, 5] == 0.0)
             )
-            return self.sos.shape[0] * 2 - n_first_order_sos
+            return self.sos.shape[0] * 2 - int(n_first_order_sos)
         if hasattr(self, "ba"):
             return max(len(self.ba[0]), len(self.ba[1])) - 1
         raise ValueError("No order found")
-- 
2.43.0


From 71c80941bc8f6cc0458e8ae2e244879692084f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:53 +0000
Subject: [PATCH 060/190] fix: impulse responses of filter banks are not
 normalized

---
 dsptoolbox/classes/filterbank.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 0f2d9be..1d74444 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -586,6 +586,7 @@ class FilterBank:
                     sampling_rate_hz=sr[ind],
                     number_of_channels=1,
                 )
+                d.constrain_amplitude = False
                 mb.add_band(f.filter_signal(d, zero_phase=zero_phase))
             return mb
 
@@ -610,6 +611,7 @@ class FilterBank:
             number_of_channels=1,
             sampling_rate_hz=fs_hz,
         )
+        d.constrain_amplitude = False
 
         # Filtering
         ir = self.filter_signal(d, mode, zero_phase=zero_phase)
-- 
2.43.0


From 9fd59b6605280f6a047e26cc7c51d9ee62d6c1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:14 +0000
Subject: [PATCH 061/190] fix: impulse responses of crossovers and realtime
 filters are not normalized

---
 dsptoolbox/classes/filterbank.py      | 3 +++
 dsptoolbox/classes/kautz_filter.py    | 1 +
 dsptoolbox/classes/parallel_filter.py | 1 +
 dsptoolbox/classes/sv_filter.py       | 1 +
 dsptoolbox/filterbanks/_filterbank.py | 6 ++++++
 5 files changed, 12 insertions(+)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 1d74444..c4e539d 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -722,6 +722,7 @@ class FilterBank:
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
 
         # Filtering and plot
         if mode == FilterBankMode.Parallel:
@@ -858,6 +859,7 @@ class FilterBank:
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
 
         # Plot
         if mode == FilterBankMode.Parallel:
@@ -962,6 +964,7 @@ class FilterBank:
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
 
         # Plot
         if mode == FilterBankMode.Parallel:
diff --git a/dsptoolbox/classes/kautz_filter.py b/dsptoolbox/classes/kautz_filter.py
index 165ae93..b66a13f 100644
--- a/dsptoolbox/classes/kautz_filter.py
+++ b/dsptoolbox/classes/kautz_filter.py
@@ -271,6 +271,7 @@ class KautzFilter(RealtimeFilter):
             delay_samples=0,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
         return self.filter_signal(d)
 
     def __process_time_data_vector(
diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index 49bdfc6..58a8b7f 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -297,6 +297,7 @@ class ParallelFilter(RealtimeFilter):
     def get_ir(self, length_samples: int):
         """Get an impulse response from the filter bank."""
         d = dirac(length_samples, sampling_rate_hz=self.sampling_rate_hz)
+        d.constrain_amplitude = False
         return self.filter_signal(d)
 
     def set_n_channels(self, n_channels: int):
diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index f1585b2..f0cabd0 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -160,6 +160,7 @@ class StateVariableFilter(RealtimeFilter):
 
         """
         d = dirac(length_samples, sampling_rate_hz=self.sampling_rate_hz)
+        d.constrain_amplitude = False
         self.reset_state()
         return self.filter_signal(d)
 
diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 3b3b96b..f32bada 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -400,6 +400,7 @@ class LRFilterBank:
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
         return self.filter_signal(
             d, mode=mode, zero_phase=zero_phase, activate_zi=False
         )
@@ -443,6 +444,7 @@ class LRFilterBank:
             delay_samples=delay_samples,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
         bs = self.filter_signal(
             d,
             mode=FilterBankMode.Parallel,
@@ -535,6 +537,7 @@ class LRFilterBank:
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
 
         if mode == FilterBankMode.Parallel:
             bs = self.filter_signal(d, mode=mode)
@@ -594,6 +597,7 @@ class LRFilterBank:
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
         if mode == FilterBankMode.Parallel:
             bs = self.filter_signal(d, mode=mode)
             gd = []
@@ -716,6 +720,7 @@ class GammaToneFilterBank(FilterBank):
             delay_samples=delay_samples + 3,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
         d = self.filter_signal(d, mode=FilterBankMode.Parallel)
         d = d.get_all_bands(channel=0)
         real, imag = d.time_data, d.time_data_imaginary
@@ -999,6 +1004,7 @@ class BaseCrossover(FilterBank):
             number_of_channels=1,
             sampling_rate_hz=self.sampling_rate_hz,
         )
+        d.constrain_amplitude = False
 
         # Filtering and plot
         if mode == FilterBankMode.Parallel:
-- 
2.43.0


From e298d8eb3ae414b714c3b9d2bb115df0a42b4789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 062/190] fix: polyphase resampling is right for every filter
 length, signal length and factor

---
 dsptoolbox/classes/filter_helpers.py | 47 ++++++++++++++++++----------
 dsptoolbox/helpers/polyphase.py      |  2 +-
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 3d8f317..79933da 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -9,6 +9,7 @@ from numpy.typing import NDArray
 
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
+from ..helpers.other import _pad_trim
 from ..helpers.polyphase import _polyphase_decomposition
 from ..standard._standard_backend import _real_or_complex_time_data
 from ..standard.enums import BiquadEqType, FilterBankMode
@@ -545,27 +546,39 @@ def _filter_and_downsample(
     assert time_data.ndim == 2, "Shape for time data should be (time samples, channels)"
 
     if polyphase:
+        # Output length and pad in the end to avoid remainder
+        output_length = -(-time_data.shape[0] // down_factor)
+        time_data = _pad_trim(time_data, output_length * down_factor)
         poly, _ = _polyphase_decomposition(time_data, down_factor, flip=False)
         # (time samples, polyphase components, channels)
-        # Polyphase representation of filter and filter length
+        # Polyphase representation of filter and filter length. The filter is
+        # delayed so that its central tap falls into the last component, which
+        # corresponds to the instants of the decimated output
         b = ba_coefficients[0]
         half_length = (len(b) - 1) // 2
+        delay = (down_factor - 1 - half_length) % down_factor
+        b = np.hstack([np.zeros(delay), b])
+        b = _pad_trim(b, -(-len(b) // down_factor) * down_factor)
         b_poly, _ = _polyphase_decomposition(b, down_factor, flip=True)
-        new_time_data = np.zeros((poly.shape[0] + b_poly.shape[0] - 1, poly.shape[2]))
+        new_time_data = np.zeros(
+            (poly.shape[0] + b_poly.shape[0] - 1, poly.shape[2]),
+            dtype=np.result_type(poly, b_poly),
+        )
         # Accumulator for each channel – it would be better to find a way
         # to do it without loops, but using scipy.signal.convolve since it
         # is advantageous compared to numpy.convolve
         for ch in range(poly.shape[2]):
-            temp = np.zeros(new_time_data.shape[0])
+            temp = np.zeros_like(new_time_data[:, ch])
             for n in range(poly.shape[1]):
                 temp += sig.oaconvolve(
                     poly[:, n, ch], b_poly[:, n, 0], mode="full", axes=0
                 )
             new_time_data[:, ch] = temp
         # Take correct values from vector
-        new_time_data = new_time_data[
-            half_length // down_factor : -half_length // down_factor, :
-        ]
+        start = (half_length + delay) // down_factor
+        new_time_data = _pad_trim(
+            new_time_data[start:, :], output_length
+        )
     else:
         new_time_data = sig.lfilter(
             ba_coefficients[0], ba_coefficients[1], x=time_data, axis=0
@@ -617,8 +630,9 @@ def _filter_and_upsample(
         b = ba_coefficients[0]
         half_length = (len(b) - 1) // 2
 
-        # Decompose filter
-        b_poly, padding = _polyphase_decomposition(b, up_factor)
+        # Decompose filter (padded in the end to avoid remainder)
+        b = _pad_trim(b, -(-len(b) // up_factor) * up_factor)
+        b_poly, _ = _polyphase_decomposition(b, up_factor)
         b_poly *= up_factor
 
         # Accumulator – Length is not right!
@@ -626,7 +640,8 @@ def _filter_and_upsample(
             (
                 (time_data.shape[0] + b_poly.shape[0] - 1) * up_factor,
                 time_data.shape[1],
-            )
+            ),
+            dtype=np.result_type(time_data, b_poly),
         )
 
         # Interpolate per channel and per polyphase component – should be
@@ -638,14 +653,14 @@ def _filter_and_upsample(
                 )
 
         # Take right samples from filtered signal
-        if padding == up_factor:
-            new_time_data = new_time_data[half_length:-half_length, :]
-        else:
-            new_time_data = new_time_data[
-                half_length + padding : -half_length + padding, :
-            ]
+        new_time_data = _pad_trim(
+            new_time_data[half_length:, :], time_data.shape[0] * up_factor
+        )
     else:
-        new_time_data = np.zeros((time_data.shape[0] * up_factor, time_data.shape[1]))
+        new_time_data = np.zeros(
+            (time_data.shape[0] * up_factor, time_data.shape[1]),
+            dtype=time_data.dtype,
+        )
         new_time_data[::up_factor] = time_data * up_factor
         new_time_data = sig.lfilter(
             ba_coefficients[0], ba_coefficients[1], x=new_time_data, axis=0
diff --git a/dsptoolbox/helpers/polyphase.py b/dsptoolbox/helpers/polyphase.py
index 0a0bf10..578331d 100644
--- a/dsptoolbox/helpers/polyphase.py
+++ b/dsptoolbox/helpers/polyphase.py
@@ -48,7 +48,7 @@ def _polyphase_decomposition(
     if remainder != 0:
         in_sig = _pad_trim(in_sig, in_sig.shape[0] + padding, axis=0, in_the_end=False)
     # Here (time samples, polyphase, channels)
-    poly = np.zeros((in_sig.shape[0] // n, n, in_sig.shape[1]))
+    poly = np.zeros((in_sig.shape[0] // n, n, in_sig.shape[1]), dtype=in_sig.dtype)
     for ind in range(n):
         poly[:, ind, :] = in_sig[ind::n, :]
     if flip:
-- 
2.43.0


From 08f6593dd2ecac423c6562e8e73653381d6d4922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 063/190] fix: filter_and_resample_signal regards the imaginary
 part and leaves the filter as is

---
 dsptoolbox/classes/filter.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index 502fe50..f0536d1 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -31,6 +31,7 @@ from ..helpers.other import (
     find_nearest_points_index_in_vector,
 )
 from ..helpers.gain_and_level import to_db
+from ..standard._standard_backend import _real_or_complex_time_data
 from ..standard.enums import (
     FilterCoefficientsType,
     BiquadEqType,
@@ -783,9 +784,8 @@ class Filter:
         if self.is_fir:
             polyphase = True
         else:
-            if not hasattr(self, "ba"):
-                self.ba: list = list(sig.sos2tf(self.sos))
             polyphase = False
+        ba = self.get_coefficients(FilterCoefficientsType.Ba)
 
         # Check if down- or upsampling is required
         if fraction[0] == 1:
@@ -793,9 +793,9 @@ class Filter:
                 signal.sampling_rate_hz == self.sampling_rate_hz
             ), "Sampling rates do not match"
             new_time_data = _filter_and_downsample(
-                time_data=signal.time_data,
+                time_data=_real_or_complex_time_data(signal),
                 down_factor=fraction[1],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba,
                 polyphase=polyphase,
             )
         elif fraction[1] == 1:
@@ -804,9 +804,9 @@ class Filter:
                 + """sampling rate of the filter should match the output's"""
             )
             new_time_data = _filter_and_upsample(
-                time_data=signal.time_data,
+                time_data=_real_or_complex_time_data(signal),
                 up_factor=fraction[0],
-                ba_coefficients=self.ba,
+                ba_coefficients=ba,
                 polyphase=polyphase,
             )
 
-- 
2.43.0


From 415611fcaf3517b4a1efdcb97c7c9a666d36764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:36 +0000
Subject: [PATCH 064/190] fix: downsampling crossovers support odd lengths and
 complex signals

---
 dsptoolbox/filterbanks/_filterbank.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index f32bada..5a8d94a 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -31,7 +31,10 @@ from ..plots import general_plot
 from ..helpers.spectrum_utilities import _get_normalized_spectrum
 from ..helpers.other import find_nearest_points_index_in_vector
 from ..helpers.ar_estimation import _burg_ar_estimation, _yw_ar_estimation
-from ..standard._standard_backend import _group_delay_direct
+from ..standard._standard_backend import (
+    _group_delay_direct,
+    _real_or_complex_time_data,
+)
 from ..standard.enums import (
     FilterCoefficientsType,
     FilterBankMode,
@@ -1258,20 +1261,14 @@ def _crossover_downsample(
                 new_sampling_rate_hz=signal.sampling_rate_hz // down_factor,
             )
         return out_sig
-    new_time_data = np.zeros(
-        (
-            signal.time_data.shape[0] // down_factor,
-            signal.number_of_channels,
-            n_filt,
-        )
-    )
+    new_time_data = 0.0
     for n in range(n_filt):
         s = filters[n].filter_and_resample_signal(
             signal,
             new_sampling_rate_hz=signal.sampling_rate_hz // down_factor,
         )
-        new_time_data[:, :, n] = s.time_data
-    out_sig = signal.copy_with_new_time_data(np.sum(new_time_data, axis=-1))
+        new_time_data = new_time_data + _real_or_complex_time_data(s)
+    out_sig = signal.copy_with_new_time_data(new_time_data)
     out_sig.sampling_rate_hz = signal.sampling_rate_hz // down_factor
     return out_sig
 
@@ -1306,7 +1303,9 @@ def _reconstruct_from_crossover_upsample(
     temp_sig = filters[1].filter_and_resample_signal(
         sig_high, new_sampling_rate_hz=sig_low.sampling_rate_hz * up_factor
     )
-    rec_sig.time_data += temp_sig.time_data
+    rec_sig.time_data = _real_or_complex_time_data(
+        rec_sig
+    ) + _real_or_complex_time_data(temp_sig)
     return rec_sig
 
 
-- 
2.43.0


From 8232cdf2b19c73f681dbd1c8b5e4b941a34d0d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 065/190] fix: resample_filter keeps zeros at the nyquist
 frequency

---
 dsptoolbox/standard/resampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/resampling.py b/dsptoolbox/standard/resampling.py
index bd5f584..c82a308 100644
--- a/dsptoolbox/standard/resampling.py
+++ b/dsptoolbox/standard/resampling.py
@@ -76,9 +76,9 @@ def resample_filter(filter: Filter, new_sampling_rate_hz: int) -> Filter:
     z = f * (z - 1) / (z + 1)
 
     if add_to_poles:
-        p = np.hstack([p, [-f] * (len(z) - len(p))])
+        p = np.hstack([p, [-f] * add_to_poles])
     if add_to_zeros:
-        z = np.hstack([z, [-f] * (len(p) - len(z))])
+        z = np.hstack([z, [-f] * add_to_zeros])
 
     k /= np.real(np.prod(f - z) / np.prod(f - p))
 
-- 
2.43.0


From d189be1af367fcfc3131e42486321fb037c41c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 066/190] fix: interpolated spectra follow the edge handling
 and are complex when requested

---
 dsptoolbox/classes/spectrum.py | 57 ++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 3b19d30..95de5f7 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -572,21 +572,26 @@ class Spectrum(MultichannelData):
                 + "does not support it"
             )
 
+        # A complex output is only possible from a complex domain
+        domain = self.__int_domain
+        if output_type == SpectrumType.Complex and not domain.is_complex():
+            domain = InterpolationDomain.MagnitudePhase
+
         # Input for interpolation depending on domain
-        if self.__int_domain == InterpolationDomain.Power:
+        if domain == InterpolationDomain.Power:
             if self.is_magnitude:
                 interp_data = self.spectral_data**2.0
             else:
                 interp_data = np.abs(self.spectral_data) ** 2.0
-        elif self.__int_domain == InterpolationDomain.Magnitude:
+        elif domain == InterpolationDomain.Magnitude:
             if self.is_magnitude:
                 interp_data = self.spectral_data
             else:
                 interp_data = np.abs(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.Complex:
+        elif domain == InterpolationDomain.Complex:
             interp_data = np.real(self.spectral_data)
             interp_data_imag = np.imag(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+        elif domain == InterpolationDomain.MagnitudePhase:
             interp_data = np.abs(self.spectral_data)
             interp_data_imag = np.unwrap(np.angle(self.spectral_data), axis=0)
 
@@ -595,7 +600,10 @@ class Spectrum(MultichannelData):
             left_val = right_val = 0.0
         elif self.__int_edges == InterpolationEdgeHandling.OnePad:
             left_val = right_val = 1.0
-        else:  # "extend"
+        elif domain.is_complex():  # "extend"
+            left_val = self.spectral_data[0, ...]
+            right_val = self.spectral_data[-1, ...]
+        else:
             left_val = interp_data[0, ...]
             right_val = interp_data[-1, ...]
 
@@ -609,11 +617,11 @@ class Spectrum(MultichannelData):
             output = func(self.frequency_vector_hz, interp_data, axis=0)(
                 requested_frequency
             )
-            if self.__int_domain == InterpolationDomain.Complex:
+            if domain == InterpolationDomain.Complex:
                 output = output + 1j * func(
                     self.frequency_vector_hz, interp_data_imag, axis=0
                 )(requested_frequency)
-            elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+            elif domain == InterpolationDomain.MagnitudePhase:
                 output = output * np.exp(
                     1j
                     * func(self.frequency_vector_hz, interp_data_imag, axis=0)(
@@ -621,62 +629,59 @@ class Spectrum(MultichannelData):
                     )
                 )
 
-            if len(inds_outside_left) > 0:
-                output[inds_outside_left, :] = left_val
-            if len(inds_outside_right) > 0:
-                output[inds_outside_right, :] = right_val
         else:
             output = np.zeros(
                 (len(requested_frequency), self.number_of_channels),
-                dtype=(np.complex128 if self.__int_domain.is_complex() else np.float64),
+                dtype=(np.complex128 if domain.is_complex() else np.float64),
             )
             for ch in range(output.shape[1]):
                 output[:, ch] = np.interp(
                     requested_frequency,
                     self.frequency_vector_hz,
                     interp_data[:, ch],
-                    left=left_val,
-                    right=right_val,
                 )
                 # Complex handling
-                if self.__int_domain == InterpolationDomain.Complex:
+                if domain == InterpolationDomain.Complex:
                     output[:, ch] += 1j * np.interp(
                         requested_frequency,
                         self.frequency_vector_hz,
                         interp_data_imag[:, ch],
-                        left=left_val,
-                        right=right_val,
                     )
-                elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+                elif domain == InterpolationDomain.MagnitudePhase:
                     output[:, ch] = output[:, ch] * np.exp(
                         1j
                         * np.interp(
                             requested_frequency,
                             self.frequency_vector_hz,
                             interp_data_imag[:, ch],
-                            left=left_val,
-                            right=right_val,
                         )
                     )
 
+        # Magnitude and power do not become negative through overshooting
+        if not domain.is_complex():
+            output = np.clip(output, 0.0, None)
+
+        output[inds_outside_left, :] = left_val
+        output[inds_outside_right, :] = right_val
+
         # Output type
         if output_type == SpectrumType.Complex:
             return output
         elif output_type == SpectrumType.Db:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return to_db(np.abs(output), True)
-            return to_db(output, self.__int_domain.is_linear())
+            return to_db(output, domain.is_linear())
         elif output_type == SpectrumType.Power:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output) ** 2.0
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output**2.0
             else:  # "power"
                 return output
         elif output_type == SpectrumType.Magnitude:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output)
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output
             else:  # "power"
                 return output**0.5
-- 
2.43.0


From fc8e6bc357fed8b2b81611b3bc41c0d93d7b4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 067/190] fix: trimmed spectra have the bins in range for any
 number of channels

---
 dsptoolbox/classes/spectrum.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 95de5f7..88ae45c 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -254,7 +254,7 @@ class Spectrum(MultichannelData):
         """
         data = np.atleast_2d(new_data)
         assert data.ndim == 2, "Spectral data must have two dimensions"
-        if data.shape[0] < data.shape[1]:
+        if data.shape[0] != self.number_frequency_bins:
             data = data.T
         assert (
             data.shape[0] == self.number_frequency_bins
@@ -1057,6 +1057,10 @@ class Spectrum(MultichannelData):
                     ind_low = max(ind_low, 0)
         else:
             if f_lower_hz is not None:
-                ind_low += 1
+                ind_low = int(
+                    np.searchsorted(
+                        self.frequency_vector_hz, f_lower_hz, side="right"
+                    )
+                )
         assert ind_low < ind_high, "Slice is invalid"
         return slice(ind_low, ind_high)
-- 
2.43.0


From a113085875805a1c85d45c34b0b400b62862d209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 068/190] fix: the coherence of a spectrum follows its channels
 and frequencies

---
 dsptoolbox/classes/spectrum.py | 43 ++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 88ae45c..0ab731f 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -430,8 +430,30 @@ class Spectrum(MultichannelData):
         s = self.__freqs_to_slice(f_lower_hz, f_upper_hz, inclusive)
         self.frequency_vector_hz = self.frequency_vector_hz[s]
         self.spectral_data = self.spectral_data[s, ...]
+        if self.has_coherence:
+            self.coherence = self.coherence[s, ...]
+        return self
+
+    def remove_channel(self, channel_number: int = -1):
+        super().remove_channel(channel_number)
+        if self.has_coherence:
+            self.coherence = np.delete(self.coherence, channel_number, axis=-1)
         return self
 
+    def swap_channels(self, new_order):
+        super().swap_channels(new_order)
+        if self.has_coherence:
+            order = np.atleast_1d(np.asarray(new_order).squeeze())
+            self.coherence = self.coherence[:, order]
+        return self
+
+    def get_channels(self, channels: int | ArrayLike):
+        new_spectrum = super().get_channels(channels)
+        if self.has_coherence:
+            channels = np.atleast_1d(np.asarray(channels).squeeze())
+            new_spectrum.set_coherence(self.coherence[:, channels])
+        return new_spectrum
+
     def sum_channels(self, power_sum: bool = True) -> "Spectrum":
         """Sum all channels of the spectrum and return new spectrum with single channel.
 
@@ -487,8 +509,17 @@ class Spectrum(MultichannelData):
             new_freqs_hz,
             (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
         )
+        old_freqs_hz = self.frequency_vector_hz
         self.frequency_vector_hz = new_freqs_hz
         self.spectral_data = new_sp
+        if self.has_coherence:
+            self.coherence = np.stack(
+                [
+                    np.interp(new_freqs_hz, old_freqs_hz, c, left=0.0, right=0.0)
+                    for c in self.coherence.T
+                ],
+                axis=1,
+            )
         return self
 
     def normalize(
@@ -887,7 +918,7 @@ class Spectrum(MultichannelData):
             coherence.shape == self.spectral_data.shape
         ), "Length of signals and given coherence do not match"
         assert not np.iscomplexobj(coherence), "Coherence cannot be complex"
-        self.coherence = coherence
+        self.coherence = coherence.copy()
 
     def plot_magnitude(
         self,
@@ -1017,12 +1048,16 @@ class Spectrum(MultichannelData):
         new_spectrum = Spectrum(self.frequency_vector_hz, data)
         # Copy interpolator parameters
         new_spectrum.set_interpolator_parameters(
-            self.__int_domain,
+            (
+                InterpolationDomain.Power
+                if new_spectrum.is_magnitude and self.__int_domain.is_complex()
+                else self.__int_domain
+            ),
             self.__int_scheme,
             self.__int_edges,
         )
-        # Copy coherence if it exists
-        if self.has_coherence:
+        # Copy coherence if it exists and it describes the new channels
+        if self.has_coherence and self.coherence.shape == data.shape:
             new_spectrum.set_coherence(self.coherence)
         return new_spectrum
 
-- 
2.43.0


From d24fde8c80c6b09b004d8620b6c058dfe1304550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 069/190] fix: resampling a spectrum uses the stored
 interpolation parameters

---
 dsptoolbox/classes/spectrum.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 0ab731f..02e5322 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -496,15 +496,6 @@ class Spectrum(MultichannelData):
         self
 
         """
-        self.set_interpolator_parameters(
-            (
-                InterpolationDomain.Power
-                if self.is_magnitude
-                else InterpolationDomain.MagnitudePhase
-            ),
-            self.__int_scheme,
-            self.__int_edges,
-        )
         new_sp = self.get_interpolated_spectrum(
             new_freqs_hz,
             (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
-- 
2.43.0


From 9d7aec93eb79cc57abb0b01cefb9c9ed8f526786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:42 +0000
Subject: [PATCH 070/190] fix: spectra of odd lengths are converted to signals
 and keep their settings

---
 dsptoolbox/classes/spectrum.py | 35 +++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 02e5322..dba6e7d 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -365,8 +365,10 @@ class Spectrum(MultichannelData):
         """
         assert not self.is_magnitude, "Spectrum must be complex"
 
-        def __td_from_spec(spec, length_seconds, sampling_rate_hz) -> Signal:
-            time_data = np.fft.irfft(spec, axis=0)
+        def __td_from_spec(
+            spec, length_samples, length_seconds, sampling_rate_hz
+        ) -> Signal:
+            time_data = np.fft.irfft(spec, length_samples, axis=0)
             if length_seconds is not None:
                 length_samples = int(length_seconds * sampling_rate_hz + 0.5)
                 time_data = _pad_trim(time_data, length_samples)
@@ -381,28 +383,35 @@ class Spectrum(MultichannelData):
 
             if not (condition_sampling_rate or condition_start):
                 return __td_from_spec(
-                    self.spectral_data, length_seconds, sampling_rate_hz
+                    self.spectral_data,
+                    int(sampling_rate_hz / delta_f + 0.5),
+                    length_seconds,
+                    sampling_rate_hz,
                 )
 
             requested_freqs = np.arange(
                 0.0, sampling_rate_hz / 2 + delta_f / 2.0, delta_f
             )
+            length_samples = 2 * (len(requested_freqs) - 1)
         else:
             assert length_seconds is not None, "A length must be provided"
 
-            requested_freqs = np.fft.rfftfreq(
-                int(length_seconds * sampling_rate_hz + 0.5),
-                1 / sampling_rate_hz,
-            )
+            length_samples = int(length_seconds * sampling_rate_hz + 0.5)
+            requested_freqs = np.fft.rfftfreq(length_samples, 1 / sampling_rate_hz)
 
-        self.set_interpolator_parameters(
-            InterpolationDomain.MagnitudePhase,
-            InterpolationScheme.Pchip,
-            InterpolationEdgeHandling.ZeroPad,
+        spectrum = (
+            self.copy()
+            .set_interpolator_parameters(
+                InterpolationDomain.MagnitudePhase,
+                InterpolationScheme.Pchip,
+                InterpolationEdgeHandling.ZeroPad,
+            )
+            .get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
         )
-        spectrum = self.get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
 
-        return __td_from_spec(spectrum, length_seconds, sampling_rate_hz)
+        return __td_from_spec(
+            spectrum, length_samples, length_seconds, sampling_rate_hz
+        )
 
     def trim(
         self,
-- 
2.43.0


From b1e97b9b5a0c15678d7edd2c89b30065c0304709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:19 +0000
Subject: [PATCH 071/190] fix: interpolated spectra are converted to signals of
 the requested sampling rate

---
 dsptoolbox/classes/spectrum.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index dba6e7d..c366d3a 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -389,10 +389,8 @@ class Spectrum(MultichannelData):
                     sampling_rate_hz,
                 )
 
-            requested_freqs = np.arange(
-                0.0, sampling_rate_hz / 2 + delta_f / 2.0, delta_f
-            )
-            length_samples = 2 * (len(requested_freqs) - 1)
+            length_samples = int(sampling_rate_hz / delta_f + 0.5)
+            requested_freqs = np.fft.rfftfreq(length_samples, 1 / sampling_rate_hz)
         else:
             assert length_seconds is not None, "A length must be provided"
 
-- 
2.43.0


From dbd56d595974bf6976e0c994ce12870e45c1c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 072/190] fix: octave smoothing supports spectra with irregular
 frequencies

---
 dsptoolbox/classes/spectrum.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index c366d3a..6e4e13a 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -868,21 +868,18 @@ class Spectrum(MultichannelData):
             else None
         )
 
-        if self.frequency_vector_type in (
-            FrequencySpacing.Linear,
-            FrequencySpacing.Logarithmic,
-        ):
-            data = self.spectral_data
-        else:  # Other: map to linear and interpolate
-            data = self.get_interpolated_spectrum(
+        if self.frequency_vector_type == FrequencySpacing.Other:
+            # Map to linear and interpolate
+            bandwidth_hz = self.frequency_vector_hz[-1] - self.frequency_vector_hz[0]
+            self.resample(
                 np.linspace(
                     self.frequency_vector_hz[0],
                     self.frequency_vector_hz[-1],
-                    self.frequency_vector_hz[-1] - self.frequency_vector_hz[0],
+                    max(int(bandwidth_hz + 0.5) + 1, 2),
                     endpoint=True,
-                ),
-                (SpectrumType.Magnitude if self.is_magnitude else SpectrumType.Complex),
+                )
             )
+        data = self.spectral_data
 
         if self.is_magnitude:
             self.spectral_data = fractional_octave_smoothing(
-- 
2.43.0


From d99341d32fe21d4752bc373202425557132d35a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 073/190] fix: impulse responses generated from magnitude
 spectra keep their level

---
 dsptoolbox/transfer_functions/transfer_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index b82a953..725e6c8 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -660,7 +660,9 @@ def min_phase_from_mag(
     time_data = np.fft.irfft(
         mag_spectrum * np.exp(1j * phase), axis=0, n=original_length_time_data
     )
-    return ImpulseResponse.from_time_data(time_data, sampling_rate_hz)
+    return ImpulseResponse.from_time_data(
+        time_data, sampling_rate_hz, constrain_amplitude=False
+    )
 
 
 def lin_phase_from_mag(
@@ -783,7 +785,9 @@ def lin_phase_from_mag(
     time_data = _pad_trim(
         time_data, int(2 * max(group_delay_to_use_s) * sampling_rate_hz + 0.5)
     )
-    return ImpulseResponse.from_time_data(time_data, sampling_rate_hz)
+    return ImpulseResponse.from_time_data(
+        time_data, sampling_rate_hz, constrain_amplitude=False
+    )
 
 
 def min_phase_ir(
-- 
2.43.0


From 7231561a5fface990461b962711af40393e17b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:35 +0000
Subject: [PATCH 074/190] fix: minimum phase impulse responses can be computed
 via hilbert

---
 dsptoolbox/transfer_functions/transfer_functions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 725e6c8..d0e88f5 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -852,9 +852,11 @@ def min_phase_ir(
             False,
         )
         for ch in range(new_time_data.shape[1]):
-            new_time_data[:, ch] = min_phase_scipy(
-                sig.time_data[:, ch], method="hilbert", n_fft=length_fft
-            )[: new_time_data.shape[0]]
+            # The obtained filter has about half the original length
+            temp = min_phase_scipy(
+                new_time_data[:, ch], method="hilbert", n_fft=length_fft
+            )
+            new_time_data[:, ch] = _pad_trim(temp, new_time_data.shape[0])
 
     if alpha != 1.0:
         new_time_data *= (alpha ** (-np.arange(new_time_data.shape[0])))[:, None]
-- 
2.43.0


From 4e23343f92c0f2620cef449451149337f30c4051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 075/190] fix: converting FIR filters to impulse responses
 keeps their coefficients

---
 dsptoolbox/transfer_functions/transfer_functions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index d0e88f5..45d33b1 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1275,7 +1275,9 @@ def filter_to_ir(fir: Filter | FilterBank) -> ImpulseResponse:
     if isinstance(fir, Filter):
         assert not fir.is_iir, "This is only valid for FIR filters"
         return ImpulseResponse.from_time_data(
-            fir.ba[0].copy(), sampling_rate_hz=fir.sampling_rate_hz
+            fir.ba[0].copy(),
+            sampling_rate_hz=fir.sampling_rate_hz,
+            constrain_amplitude=False,
         )
     elif isinstance(fir, FilterBank):
         assert all([not f.is_iir for f in fir]), "Filter types must be fir"
@@ -1286,7 +1288,9 @@ def filter_to_ir(fir: Filter | FilterBank) -> ImpulseResponse:
         td = np.zeros((length_samples, len(fir)), dtype=np.float64)
         for ind, f in enumerate(fir):
             td[: len(f), ind] = f.ba[0].copy()
-        return ImpulseResponse.from_time_data(td, fir.sampling_rate_hz)
+        return ImpulseResponse.from_time_data(
+            td, fir.sampling_rate_hz, constrain_amplitude=False
+        )
     else:
         raise TypeError("Unsupported type")
 
-- 
2.43.0


From 6cdb9ef2bec78d687bfd14eeba4e10e0efeacea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 076/190] fix: THD+N of loud impulse responses is not rescaled

---
 dsptoolbox/transfer_functions/transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 45d33b1..d470f39 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1668,7 +1668,7 @@ def harmonic_distortion_analysis(
         np.nan_to_num(sp_thd, False, 0)
 
     # THD+N
-    thd_n = Signal(None, thd, ir2.sampling_rate_hz)
+    thd_n = Signal(None, thd, ir2.sampling_rate_hz, constrain_amplitude=False)
     thd_n.set_spectrum_parameters(**ir2._spectrum_parameters)
     f_thd_n, sp_thd_n = thd_n.get_spectrum()
     if not quadratic_spectrum:
-- 
2.43.0


From 08b944e77a20c42be3df4d102f8ac5501d86124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:09 +0000
Subject: [PATCH 077/190] fix: bands of synthetic room impulse responses keep
 their relative level

---
 dsptoolbox/room_acoustics/room_acoustics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 3f66b86..77168ad 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -421,7 +421,9 @@ def generate_synthetic_rir(
             rir_band = _pad_trim(rir_band, total_length_samples)
             # Prune possible nan values
             np.nan_to_num(rir_band, copy=False, nan=0)
-            rir0 = ImpulseResponse(None, rir_band, sampling_rate_hz)
+            rir0 = ImpulseResponse(
+                None, rir_band, sampling_rate_hz, constrain_amplitude=False
+            )
             rir_multi = fb.filter_signal(rir0, zero_phase=True)
             rir += rir_multi.bands[ind].time_data[:, 0]
 
-- 
2.43.0


From 1d2dce46bbdd4effa03b66ce054434917a9b6e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 078/190] fix: distance measures do not modify their arguments

---
 dsptoolbox/distances/distances.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 7386460..0e848b3 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -80,6 +80,8 @@ def log_spectral(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
+    insig1 = insig1.copy()
+    insig2 = insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
@@ -166,6 +168,8 @@ def itakura_saito(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
+    insig1 = insig1.copy()
+    insig2 = insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
@@ -340,8 +344,7 @@ def fw_snr_seg(
         multichannel = True
     # Frequency range
     assert len(f_range_hz) == 2, "Frequency range must have lower and upper bounds"
-    f_range = np.asarray(f_range_hz)
-    f_range.sort()
+    f_range = np.sort(f_range_hz)
     assert f_range[1] < fs_hz // 2, (
         f"Upper frequency range {f_range[1]} must be smaller than nyquist "
         + f"frequency {fs_hz // 2}"
@@ -349,8 +352,7 @@ def fw_snr_seg(
     assert f_range[0] > 0, "Frequency range must be positive"
     # SNR range
     assert len(snr_range_db) == 2, "SNR range must have lower and upper bounds"
-    snr_range_db = np.asarray(snr_range_db)
-    snr_range_db.sort()
+    snr_range_db = np.sort(snr_range_db)
     # Time window
     length_samp = int(75e-3 * fs_hz)
     if length_samp % 2 == 1:
-- 
2.43.0


From 0d44522589ebf92bb0d690a9bf2d2b604e850756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 079/190] fix: fractional octave filter banks do not sort the
 given frequency range in place

---
 dsptoolbox/filterbanks/filterbanks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/filterbanks/filterbanks.py b/dsptoolbox/filterbanks/filterbanks.py
index 7580e27..321ae7c 100644
--- a/dsptoolbox/filterbanks/filterbanks.py
+++ b/dsptoolbox/filterbanks/filterbanks.py
@@ -378,8 +378,7 @@ def fractional_octave_bands(
     assert (
         sampling_rate_hz is not None
     ), "A sampling rate must be passed for the filter bank"
-    frequency_range_hz = np.atleast_1d(np.squeeze(frequency_range_hz))
-    frequency_range_hz.sort()
+    frequency_range_hz = np.sort(np.atleast_1d(np.squeeze(frequency_range_hz)))
     assert (
         len(frequency_range_hz) == 2
     ), "Frequency range must contain exactly two entries"
-- 
2.43.0


From 859378e2b3a33a728a84f950cf92899ad2312412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 080/190] fix: passing STFT parameters does not modify the
 given signal

---
 dsptoolbox/transforms/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index e3a4073..87a1392 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -173,6 +173,7 @@ def log_mel_spectrogram(
 
     """
     if stft_parameters is not None:
+        s = s.copy()
         s.set_spectrogram_parameters(**stft_parameters)
     time_s, f_hz, sp = s.get_spectrogram()
 
@@ -403,6 +404,7 @@ def mfcc(
 
     """
     if stft_parameters is not None:
+        signal = signal.copy()
         signal.set_spectrogram_parameters(**stft_parameters)
     time_s, f, sp = signal.get_spectrogram()
 
-- 
2.43.0


From 6f5d00e8f4997ad29dd03084bca4b3c23c3404c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 081/190] fix: direct group delay does not modify the given
 signal

---
 dsptoolbox/transfer_functions/transfer_functions.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index d470f39..7f32dc3 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -906,10 +906,7 @@ def group_delay(
     f = np.fft.rfftfreq(td.shape[0], 1 / signal.sampling_rate_hz)
 
     if not analytic_computation:
-        spec_parameters = signal._spectrum_parameters
-        signal.spectrum_method = SpectrumMethod.FFT
         sp = rfft_scipy(td, axis=0)
-        signal._spectrum_parameters = spec_parameters
 
         if remove_ir_latency:
             assert (
-- 
2.43.0


From 0e36e07933b43ea022efbb44689de3e3d269f219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 082/190] fix: finding room modes does not modify the given
 impulse response

---
 dsptoolbox/room_acoustics/room_acoustics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 77168ad..0b0718a 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -180,11 +180,10 @@ def find_modes(
         "Range of frequencies must have a " + "minimum and a maximum value"
     )
     assert type(signal) is ImpulseResponse, "This is only valid for an impulse response"
-    signal.spectrum_method = SpectrumMethod.FFT
-
     # Pad signal to have a resolution of around 1 Hz
     length = signal.sampling_rate_hz
     signal = pad_trim(signal, length)
+    signal.spectrum_method = SpectrumMethod.FFT
     f, sp = signal.get_spectrum()
 
     # Setting up frequency range
-- 
2.43.0


From d424b68a6c5cb9316ae7bf334f0492e4187d0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 083/190] fix: harmonic distortion analysis does not modify the
 given list

---
 dsptoolbox/transfer_functions/transfer_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 7f32dc3..61bd25b 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1561,10 +1561,10 @@ def harmonic_distortion_analysis(
                 each_ir.number_of_channels == 1
             ), "Only single-channel IRs are supported"
 
-        ir2 = ir.pop(0)
+        ir2 = ir[0].copy()
         ir2._spectrum_parameters["smoothing"] = smoothing
 
-        harm = ir
+        harm = [each_ir.copy() for each_ir in ir[1:]]
         n_harmonics = len(harm)
         if chirp_range_hz is None:
             chirp_range_hz = [0, ir2.sampling_rate_hz // 2]
-- 
2.43.0


From 8f3b80accc71fc9a3f147db0eb7f10136f73e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 084/190] fix: mixing sources on an array does not modify the
 given sources

---
 dsptoolbox/beamforming/beamforming.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index b1ef07c..6a72979 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1490,10 +1490,9 @@ def mix_sources_on_array(
     # Take first source
     multi_channel_sig = sources[0].get_signals_on_array(mics, c)
     total_length_samples = multi_channel_sig.time_data.shape[0]
-    sources.pop(0)
 
     # Add all other sources progressively checking for shortest duration
-    for s in sources:
+    for s in sources[1:]:
         # Warning if lengths do not match
         if total_length_samples != s.emitted_signal.time_data.shape[0]:
             warn(
@@ -1504,7 +1503,9 @@ def mix_sources_on_array(
                 total_length_samples, s.emitted_signal.time_data.shape[0]
             )
             multi_channel_sig = pad_trim(multi_channel_sig, total_length_samples)
-            s.emitted_signal = pad_trim(s.emitted_signal, total_length_samples)
+            s = MonopoleSource(
+                pad_trim(s.emitted_signal, total_length_samples), s.coordinates
+            )
         # Add to multi-channel data
         ns = s.get_signals_on_array(mics, c)
         multi_channel_sig.time_data += ns.time_data
-- 
2.43.0


From 3651e16d9f3484e078d78023a0b82e6b942a9a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 085/190] fix: beamforming maps can be plotted

---
 dsptoolbox/beamforming/beamforming.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 6a72979..d6ed7be 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -210,7 +210,6 @@ class Regular2DGrid(Grid):
             zlabel="dBFS",
             colorbar=True,
             lower_origin=True,
-            returns=True,
         )
         return fig, ax
 
@@ -358,7 +357,6 @@ class Regular3DGrid(Grid):
             zlabel="dBFS",
             colorbar=True,
             lower_origin=True,
-            returns=True,
         )
         return fig, ax
 
-- 
2.43.0


From 2cd4895e6eef8df80e1902fe4abe104c85d7e3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 086/190] fix: tremolo and chorus accept arrays as modulators

---
 dsptoolbox/effects/effects.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index d8bd109..c900fc3 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1051,9 +1051,9 @@ class Tremolo(AudioEffect):
         if modulator is not None:
             assert type(modulator) in (
                 LFO,
-                NDArray[np.float64],
+                np.ndarray,
             ), "Unsupported modulator type. Use LFO or numpy.ndarray"
-            if type(modulator) is NDArray[np.float64]:
+            if type(modulator) is np.ndarray:
                 modulator = modulator.squeeze()
                 assert modulator.ndim == 1, "Modulator signal can have only one channel"
             self.modulator = modulator
@@ -1180,7 +1180,7 @@ class Chorus(AudioEffect):
         if modulators is not None:
             if type(modulators) in (list, tuple):
                 nv_mod = len(modulators)
-            elif type(modulators) is NDArray[np.float64]:
+            elif type(modulators) is np.ndarray:
                 modulators = np.atleast_2d(modulators)
                 nv_mod = modulators.shape[1]
             else:
@@ -1209,9 +1209,9 @@ class Chorus(AudioEffect):
                 LFO,
                 list,
                 tuple,
-                NDArray[np.float64],
+                np.ndarray,
             ), "Unsupported modulators type. Use LFO or numpy.ndarray"
-            if type(modulators) is NDArray[np.float64]:
+            if type(modulators) is np.ndarray:
                 modulators = np.atleast_2d(modulators)
                 modulators.shape[1] == self.number_of_voices, (
                     "The modulators signal must "
@@ -1290,7 +1290,7 @@ class Chorus(AudioEffect):
         le = len(signal)
 
         # Get valid modulation signals
-        if type(self.modulators) is not NDArray[np.float64]:
+        if type(self.modulators) is not np.ndarray:
             modulation = np.zeros((le, self.number_of_voices))
             for ind, m in enumerate(self.modulators):
                 modulation[:, ind] = (
-- 
2.43.0


From 7a1b28cb6e3829a2e92508be8f5d5d7856603912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:30 +0000
Subject: [PATCH 087/190] fix: VQT of a selection of channels

---
 dsptoolbox/transforms/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 87a1392..9f12d54 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -899,7 +899,7 @@ def vqt(
 
     octs = octaves[1] - octaves[0] + 1
     cqt = np.zeros(
-        (0, signal.time_data.shape[0], signal.number_of_channels),
+        (0, signal.time_data.shape[0], td.shape[1]),
         dtype=np.complex128,
     )
 
-- 
2.43.0


From d6826b9ae87383098c7265038302ffb5937a679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:11 +0000
Subject: [PATCH 088/190] fix: adding detailed absorption to a room does not
 modify the given dictionary

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 9b386d4..8e8ca92 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -738,6 +738,7 @@ class ShoeboxRoom(Room):
         )
 
         # Check absorption values and derive number of bands
+        detailed_absorption = detailed_absorption.copy()
         number_of_bands = 1
         for i in detailed_absorption:
             ab = np.atleast_1d(detailed_absorption[i])
-- 
2.43.0


From b0ed08358d346f0d652485f01d172c975ecfbd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:49 +0000
Subject: [PATCH 089/190] fix: smoothing with a window vector works for any
 length and keeps the vector

---
 dsptoolbox/helpers/smoothing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index f53e162..b9054cf 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -87,6 +87,7 @@ def _fractional_octave_smoothing(
             window_type is None
         ), "When using a window as a vector, window type should be None"
         window = window_vec
+        n_window = len(window)
 
     # Dimension handling
     one_dim = False
@@ -95,7 +96,7 @@ def _fractional_octave_smoothing(
         vector = vector[..., None]
 
     # Normalize window
-    window /= window.sum()
+    window = window / window.sum()
 
     # Smoothe by convolving with window (output is centered)
     n_window_half = n_window // 2
-- 
2.43.0


From 3af03be9d325ea44c25944fb3f447c40e31e7b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 090/190] fix: zero-phase Linkwitz-Riley crossovers of order 2
 reconstruct the input

---
 dsptoolbox/filterbanks/_filterbank.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 5a8d94a..cc37fbe 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -286,13 +286,25 @@ class LRFilterBank:
         elif zero_phase:
             for cn in range(self.number_of_cross):
                 # Select SOS
-                factor = 1 if self.order[cn] % 2 == 1 or self.order[cn] == 2 else 2
-                valid_dim = self.sos[cn][0].shape[0] // factor
+                if self.order[cn] == 2:
+                    # Each of the two passes is a first-order butterworth
+                    lp, hp = [
+                        butter(
+                            1,
+                            self.freqs[cn],
+                            btype=btype,
+                            fs=self.sampling_rate_hz,
+                            output="sos",
+                        )
+                        for btype in ("lowpass", "highpass")
+                    ]
+                else:
+                    factor = 1 if self.order[cn] % 2 == 1 else 2
+                    valid_dim = self.sos[cn][0].shape[0] // factor
+                    lp, hp = [s[:valid_dim, ...] for s in self.sos[cn]]
                 # Filter
-                new_time_data[:, :, cn] = sosfiltfilt(
-                    self.sos[cn][0][:valid_dim, ...], in_sig, axis=0
-                )
-                in_sig = sosfiltfilt(self.sos[cn][1][:valid_dim, ...], in_sig, axis=0)
+                new_time_data[:, :, cn] = sosfiltfilt(lp, in_sig, axis=0)
+                in_sig = sosfiltfilt(hp, in_sig, axis=0)
             # Last high frequency component
             new_time_data[:, :, cn + 1] = in_sig
 
-- 
2.43.0


From ff22f42fadf5d44f8f751d9b41c7fa0f50d03894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 091/190] fix: gammatone filter bank aligns the bands at their
 envelope maxima

---
 dsptoolbox/filterbanks/_filterbank.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index cc37fbe..5779a29 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -732,7 +732,6 @@ class GammaToneFilterBank(FilterBank):
         # apply filterbank to impulse to estimate the required values
         d = dirac(
             length_samples=self.sampling_rate_hz // 2,
-            delay_samples=delay_samples + 3,
             sampling_rate_hz=self.sampling_rate_hz,
         )
         d.constrain_amplitude = False
-- 
2.43.0


From 9ddfbf48204e7f28e48e39d8f2fc0bf0864bdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 092/190] fix: inverter biquad inverts the polarity

---
 dsptoolbox/classes/filter_helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 79933da..f49d4f6 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -134,7 +134,7 @@ def _biquad_coefficients(
             a[1] = 1.0 - K
             a[2] = 0.0
         case BiquadEqType.Inverter:
-            b[0] = A
+            b[0] = -A
             b[1] = 0.0
             b[2] = 0.0
             a[0] = 1.0
-- 
2.43.0


From be81c5c36bae08bd8adcdb05edb576bcf0897eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 093/190] fix: sos form of a filter keeps its initial delay

---
 dsptoolbox/classes/filter.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index f0536d1..fb7fef1 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -947,7 +947,18 @@ class Filter:
                 return self.sos.copy()
             if self.order > 500:
                 warn("Order is above 500. Computing SOS might take a " + "long time")
-            return sig.tf2sos(self.ba[0], self.ba[1])
+            b, a = self.ba
+            delay = len(b) - len(np.trim_zeros(b, "f"))
+            if delay == 0 or delay == len(b):
+                return sig.tf2sos(b, a)
+            # Leading zeros of the numerator are a pure delay, which tf2sos drops
+            n_sections = (delay + 1) // 2
+            delay_sections = np.zeros((n_sections, 6))
+            delay_sections[:, 2] = 1.0
+            delay_sections[:, 3] = 1.0
+            if delay % 2 == 1:
+                delay_sections[-1, :3] = [0.0, 1.0, 0.0]
+            return np.concatenate([delay_sections, sig.tf2sos(b[delay:], a)])
         elif coefficients_mode == FilterCoefficientsType.Ba:
             if self.has_sos:
                 return sig.sos2tf(self.sos)
-- 
2.43.0


From 58d81fdf46f61a8eab9810f80e7b057339e1a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 094/190] fix: lattice filters of any numerator and denominator
 length

---
 dsptoolbox/classes/lattice_ladder_filter.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index a9ceb0b..e5c2daa 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -430,7 +430,10 @@ def _get_lattice_ladder_coefficients_iir(
       Signal Processing. Prentice-hall Englewood Cliffs.
 
     """
-    N = len(a) - 1
+    length = max(len(b), len(a))
+    b = np.pad(b, (0, length - len(b)))
+    a = np.pad(a, (0, length - len(a)))
+    N = length - 1
     k = np.zeros(N)
     a_s = np.zeros((N, N))
 
@@ -512,6 +515,8 @@ def _get_lattice_coefficients_fir(
     """
     N = len(b) - 1
     k = np.zeros(N)
+    if N == 0:
+        return k
     a_s = np.zeros((N, N))
 
     k[-1] = -b[-1]
-- 
2.43.0


From d5fbd202709737da7a40e281c38715c297bab6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:07 +0000
Subject: [PATCH 095/190] fix: b/a form of second-order sections keeps their
 delay

---
 dsptoolbox/classes/filter.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/filter.py b/dsptoolbox/classes/filter.py
index fb7fef1..2f4eebb 100644
--- a/dsptoolbox/classes/filter.py
+++ b/dsptoolbox/classes/filter.py
@@ -961,7 +961,12 @@ class Filter:
             return np.concatenate([delay_sections, sig.tf2sos(b[delay:], a)])
         elif coefficients_mode == FilterCoefficientsType.Ba:
             if self.has_sos:
-                return sig.sos2tf(self.sos)
+                b, a = np.ones(1), np.ones(1)
+                for section in self.sos:
+                    # Keep leading zeros, i.e., delays, of every section
+                    b = np.convolve(b, section[:3])
+                    a = np.convolve(a, section[3:])
+                return b, a
             return deepcopy(self.ba)
         elif coefficients_mode == FilterCoefficientsType.Zpk:
             if self.has_zpk:
@@ -1077,7 +1082,7 @@ class Filter:
                 + "automatically extended."
             )
         if hasattr(self, "sos"):
-            ba = sig.sos2tf(self.sos)
+            ba = self.get_coefficients(FilterCoefficientsType.Ba)
         else:
             ba = self.ba
         f, gd = _group_delay_filter(ba, length_samples, self.sampling_rate_hz)
-- 
2.43.0


From de33e8c1c56f4a30bc44eeddd367f4d74f642cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 096/190] fix: time smoothing of integers is not truncated

---
 dsptoolbox/helpers/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index b9054cf..56a32e9 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -243,7 +243,7 @@ def _time_smoothing(
         else 1.0
     )
 
-    y = np.zeros_like(x)
+    y = np.zeros(x.shape, dtype=np.result_type(x.dtype, np.float64))
     y[0, :] = x[0, :]
 
     for n in np.arange(1, x.shape[0]):
-- 
2.43.0


From ef99bfe4360d0d55d5799d9c2ec63462c815b6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 097/190] fix: activity detector applies attack to rising and
 release to falling levels

---
 dsptoolbox/standard/_standard_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 3b16d0e..43ee2b8 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -373,9 +373,9 @@ def _indices_above_threshold_dbfs(
 
     momentary_gain = np.zeros(len(time_power), dtype=np.float64)
     for i in np.arange(1, len(time_power)):
-        if momentary_gain[i] > time_power[i - 1]:
+        if time_power[i] > momentary_gain[i - 1]:
             coeff = attack_smoothing_coeff
-        elif momentary_gain[i] < time_power[i - 1]:
+        elif time_power[i] < momentary_gain[i - 1]:
             coeff = release_smoothing_coeff
         else:
             coeff = 0
-- 
2.43.0


From 9d1b67fad71d728bb6a03b32f30d438e027787d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:29 +0000
Subject: [PATCH 098/190] fix: complex spectral difference limits the dynamic
 range of the magnitude

---
 dsptoolbox/standard/other.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/other.py b/dsptoolbox/standard/other.py
index c233078..4033510 100644
--- a/dsptoolbox/standard/other.py
+++ b/dsptoolbox/standard/other.py
@@ -476,7 +476,14 @@ def spectral_difference(
 
     if dynamic_range_db is not None:
         dynamic_range_factor = from_db(-abs(dynamic_range_db), True)
-        mag2 = np.clip(mag2, np.max(mag2, axis=0) * dynamic_range_factor, None)
+        # Limit magnitude while keeping the phase
+        magnitude = np.abs(mag2)
+        lowest = np.max(magnitude, axis=0) * dynamic_range_factor
+        mag2 = np.where(
+            magnitude < lowest,
+            lowest * (np.exp(1j * np.angle(mag2)) if complex else 1.0),
+            mag2,
+        )
 
     inp1.spectral_data /= mag2
     return inp1
-- 
2.43.0


From f2638c269848c7264cad1dc3215caca78d49c1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 099/190] fix: sample conversion reads floating-point bytes and
 upper-case formats

---
 dsptoolbox/tools.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 597731a..e1f68d9 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -393,9 +393,6 @@ def convert_sample_representation(
     - `i` refers to signed integer and `u` means unsigned integer.
 
     """
-    if input_format == output_format:
-        raise AssertionError("No conversion is necessary")
-
     valid_formats = [
         "f32",
         "f64",
@@ -408,11 +405,13 @@ def convert_sample_representation(
         "u24",
         "u32",
     ]
-    input_format.lower()
+    input_format = input_format.lower()
     output_format = output_format.lower()
     assert (
         output_format in valid_formats and input_format in valid_formats
     ), f"Format {input_format} or {output_format} is not supported"
+    if input_format == output_format:
+        raise AssertionError("No conversion is necessary")
 
     if type(values) is bytes:
         signed_input = input_format[0] == "i"
@@ -425,7 +424,9 @@ def convert_sample_representation(
                     f"""np.{"int" if signed_input else "uint"}{bits_input}"""
                 )
             else:
-                input_format_to_read = eval(f"np.{input_format}")
+                input_format_to_read = {"f32": np.float32, "f64": np.float64}[
+                    input_format
+                ]
             values = np.frombuffer(values, dtype=input_format_to_read)
 
     # ==== Input (convert always to double precision)
-- 
2.43.0


From def73278ed2c2b084e84f8006994aac6d5c93741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 100/190] fix: sample conversion is done in double precision

---
 dsptoolbox/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index e1f68d9..ce5ce57 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -437,11 +437,11 @@ def convert_sample_representation(
         values = values.astype(np.float64) / max_value_input
         if not signed_input:
             values -= 1.0
-    values = np.clip(values, -1.0, 1.0)
+    values = np.clip(np.asarray(values, dtype=np.float64), -1.0, 1.0)
 
     # ==== Output (from double precision to desired format)
     if output_format == "f32":
-        return values.astype(np.float32), 0.0, 1.0
+        return values.astype(np.float32) if cast_output else values, 0.0, 1.0
     elif output_format == "f64":
         return values, 0, 1.0
 
-- 
2.43.0


From 994778aa130b61ee72d2365fb742a38faf417d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:52 +0000
Subject: [PATCH 101/190] fix: sample conversion rounds to the nearest code

---
 dsptoolbox/tools.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index ce5ce57..6bece73 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -449,7 +449,8 @@ def convert_sample_representation(
     signed_output = output_format[0] == "i"
     bits_output = int(output_format[1:])
     max_value_output = 2.0 ** (bits_output - 1) - 1
-    output = values * max_value_output
+    # Nearest code (ties towards equilibrium), so that codes survive a round trip
+    output = np.sign(values) * np.ceil(np.abs(values) * max_value_output - 0.5)
     equilibrium = 0.0
 
     if not signed_output:
@@ -465,8 +466,6 @@ def convert_sample_representation(
         prefix = "int" if signed_output else "uint"
         sample_type = eval(f"np.{prefix}{bits_output}")
         output = output.astype(sample_type)
-    else:
-        output = np.trunc(output)
 
     if not output_in_bytes:
         return output, equilibrium, max_value_output
-- 
2.43.0


From 562a34f16282d440495d8a7f243c80a50b4fc441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 102/190] fix: padding of chirps and oscillators is rounded to
 samples

---
 dsptoolbox/generators/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index a8414e2..40cdf54 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -215,7 +215,7 @@ def chirp(
         range_hz = [15, sampling_rate_hz // 2]
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
@@ -369,7 +369,7 @@ def oscillator(
 
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
-- 
2.43.0


From 13ea77bc2a842086b4d2e6747bde509961b3ee3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 103/190] fix: short noises are finite and white noise covers
 all frequencies

---
 dsptoolbox/generators/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 40cdf54..c64f4c4 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -92,9 +92,9 @@ def noise(
     # Set to 15 Hz to cover whole audible spectrum but without
     # numerical instabilities because of large values in lower
     # frequencies
-    id_low = np.argmin(np.abs(f - 15))
+    id_low = max(np.argmin(np.abs(f - 15)), 1)  # Always leave DC out
     mag[0] = 0
-    if type_of_noise != NoiseType.White or type_of_noise != 0.0:
+    if type_of_noise != NoiseType.White and type_of_noise != 0.0:
         mag[:id_low] *= 1e-20
 
     ph = np.random.uniform(-np.pi, np.pi, (len(f), number_of_channels))
-- 
2.43.0


From d03ed6bf17027ae3cb93c17785d766c4b05a0456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 104/190] fix: synchronized chirps are never cut

---
 dsptoolbox/generators/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index c64f4c4..a57d46e 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -259,7 +259,8 @@ def chirp(
             at_start=False,
         )
 
-    chirp_td = _pad_trim(chirp_td, l_samples + p_samples)
+    # The effective length of the synchronized chirp might differ
+    chirp_td = _pad_trim(chirp_td, len(chirp_td) + p_samples)
 
     chirp_n = chirp_td[..., None]
     if number_of_channels != 1:
-- 
2.43.0


From 5ab117c3d8cd7b380b59b5fa3e7b5fcdd41eecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 105/190] fix: latencies between channels belong to their
 channel

---
 dsptoolbox/helpers/latency.py            | 12 +++++-------
 dsptoolbox/standard/_standard_backend.py | 15 ++++++---------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/dsptoolbox/helpers/latency.py b/dsptoolbox/helpers/latency.py
index 7473425..f32a97f 100644
--- a/dsptoolbox/helpers/latency.py
+++ b/dsptoolbox/helpers/latency.py
@@ -138,13 +138,11 @@ def _fractional_latency(
 
     """
     if td2 is None:
-        td2_ = td1[:, 0][..., None]
-        td1_ = np.atleast_2d(td1[:, 1:])
-        xcor = correlate(td2_, td1_)
-    else:
-        xcor = np.zeros((td1.shape[0] + td2.shape[0] - 1, td2.shape[1]))
-        for i in range(td2.shape[1]):
-            xcor[:, i] = correlate(td2[:, i], td1[:, i])
+        td2 = np.repeat(td1[:, :1], td1.shape[1] - 1, axis=1)
+        td1 = td1[:, 1:]
+    xcor = np.zeros((td1.shape[0] + td2.shape[0] - 1, td2.shape[1]))
+    for i in range(td2.shape[1]):
+        xcor[:, i] = correlate(td2[:, i], td1[:, i])
     inds = _get_fractional_impulse_peak_index(xcor, polynomial_points)
     return td1.shape[0] - inds - 1
 
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index 43ee2b8..74ed01c 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -30,15 +30,12 @@ def _latency(
 
     """
     if in2 is None:
-        in2_ = in1[:, 0][..., None]
-        in1_ = np.atleast_2d(in1[:, 1:])
-        xcorr = correlate(in2_, in1_, mode="full")
-        peak_inds = np.argmax(np.abs(xcorr), axis=0)
-    else:
-        peak_inds = np.zeros(in1.shape[1], dtype=int)
-        for i in range(in1.shape[1]):
-            xcorr = correlate(in2[:, i].flatten(), in1[:, i].flatten())
-            peak_inds[i] = int(np.argmax(np.abs(xcorr)))
+        in2 = np.repeat(in1[:, :1], in1.shape[1] - 1, axis=1)
+        in1 = in1[:, 1:]
+    peak_inds = np.zeros(in1.shape[1], dtype=int)
+    for i in range(in1.shape[1]):
+        xcorr = correlate(in2[:, i].flatten(), in1[:, i].flatten())
+        peak_inds[i] = int(np.argmax(np.abs(xcorr)))
     return in1.shape[0] - peak_inds - 1
 
 
-- 
2.43.0


From f50f13ec72822562cf798ba0d3d69927c43468b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 106/190] fix: subsample latency of peaks at the edges

---
 dsptoolbox/helpers/latency.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/helpers/latency.py b/dsptoolbox/helpers/latency.py
index f32a97f..bc2c5a3 100644
--- a/dsptoolbox/helpers/latency.py
+++ b/dsptoolbox/helpers/latency.py
@@ -45,10 +45,12 @@ def _get_fractional_impulse_peak_index(
 
     for ch in range(n_channels):
         # ===== Ensure that delay_samples is before the peak in each channel
-        selection = h[delay_samples[ch] : delay_samples[ch] + 2, ch]
+        # The hilbert transform is periodic, so wrap around the edges
+        selection = h[:, ch].take([delay_samples[ch], delay_samples[ch] + 1], mode="wrap")
         move_back_one_sample = selection[0] * selection[1] > 0
         delay_samples[ch] -= int(move_back_one_sample)
-        if h[delay_samples[ch], ch] * h[delay_samples[ch] + 1, ch] > 0:
+        selection = h[:, ch].take([delay_samples[ch], delay_samples[ch] + 1], mode="wrap")
+        if selection[0] * selection[1] > 0:
             latency_samples[ch] = delay_samples[ch] + int(move_back_one_sample)
             warn(
                 f"Fractional latency detection failed for channel {ch}. "
@@ -61,14 +63,7 @@ def _get_fractional_impulse_peak_index(
         # Fit polynomial
         pol = np.polyfit(
             x,
-            h[
-                delay_samples[ch]
-                - polynomial_points
-                + 1 : delay_samples[ch]
-                + polynomial_points
-                + 1,
-                ch,
-            ],
+            h[:, ch].take(delay_samples[ch] + x, mode="wrap"),
             deg=2 * polynomial_points - 1,
         )
 
-- 
2.43.0


From 6e0b25ce225fe0c12531101f2891caafb2f7d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:05 +0000
Subject: [PATCH 107/190] fix: spectral deconvolution of any length and with
 any spectrum parameters

---
 dsptoolbox/transfer_functions/transfer_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 61bd25b..cc814c4 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -139,11 +139,11 @@ def spectral_deconvolve(
         output.time_data = _pad_trim(output.time_data, original_length * 2)
         input.time_data = _pad_trim(input.time_data, original_length * 2)
 
-    input.spectrum_method = SpectrumMethod.FFT
-    output.spectrum_method = SpectrumMethod.FFT
-    _, denum_fft = input.get_spectrum()
-    freqs_hz, num_fft = output.get_spectrum()
+    # Plain spectra without zero-padding, scaling or smoothing
     fs_hz = output.sampling_rate_hz
+    denum_fft = rfft_scipy(input.time_data, axis=0)
+    num_fft = rfft_scipy(output.time_data, axis=0)
+    freqs_hz = np.fft.rfftfreq(output.length_samples, 1 / fs_hz)
 
     new_time_data = np.zeros_like(output.time_data)
 
-- 
2.43.0


From 23ac89b888e941cf6f10444c70d0ddc49f88eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:26 +0000
Subject: [PATCH 108/190] fix: automatic regularization range is found for each
 channel

---
 .../transfer_functions/transfer_functions.py  | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index cc814c4..66acd77 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -149,31 +149,31 @@ def spectral_deconvolve(
 
     for n in range(output.number_of_channels):
         n_denum = 0 if multichannel else n
+        # The automatic range is found for each denominator
+        range_hz = start_stop_hz
         if apply_regularization:
-            if start_stop_hz is None:
-                start_stop_hz = find_frequencies_above_threshold(
+            if range_hz is None:
+                range_hz = find_frequencies_above_threshold(
                     denum_fft[:, n_denum], freqs_hz, threshold_db
                 )
-            if len(start_stop_hz) == 2:
-                start_stop_hz = np.array(
+            if len(range_hz) == 2:
+                range_hz = np.array(
                     [
-                        start_stop_hz[0] / np.sqrt(2),
-                        start_stop_hz[0],
-                        start_stop_hz[1],
-                        np.min([start_stop_hz[1] * np.sqrt(2), fs_hz / 2]),
+                        range_hz[0] / np.sqrt(2),
+                        range_hz[0],
+                        range_hz[1],
+                        np.min([range_hz[1] * np.sqrt(2), fs_hz / 2]),
                     ]
                 )
-            elif len(start_stop_hz) != 4:
+            elif len(range_hz) != 4:
                 raise ValueError("start_stop_hz vector should have 2 or 4 values")
-        else:
-            start_stop_hz = None
 
         new_time_data[:, n] = _spectral_deconvolve(
             num_fft[:, n],
             denum_fft[:, n_denum],
             freqs_hz,
             original_length * 2 if padding else original_length,
-            start_stop_hz=start_stop_hz,
+            start_stop_hz=range_hz,
             regularized=apply_regularization,
         )
     new_sig = ImpulseResponse(
-- 
2.43.0


From a5cfbeca1922b8f06e0bfed9cb82048953f33fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 109/190] fix: transfer functions are computed from power
 spectra

---
 dsptoolbox/transfer_functions/transfer_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 66acd77..a889357 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -50,7 +50,7 @@ from ..generators import dirac
 from ..filterbanks import linkwitz_riley_crossovers
 from ..helpers.gain_and_level import to_db, from_db
 from ..standard.enums import (
-    SpectrumMethod,
+    SpectrumScaling,
     SpectrumType,
     MagnitudeNormalization,
     Window,
@@ -473,6 +473,8 @@ def compute_transfer_function(
     spectrum_parameters.pop("method")
     spectrum_parameters.pop("smoothing")
     spectrum_parameters.pop("pad_to_fast_length")
+    # Ratios are only valid between power spectra
+    spectrum_parameters["scaling"] = SpectrumScaling.PowerSpectralDensity
 
     coherence = np.zeros((window_length_samples // 2 + 1, output.number_of_channels))
     tf = np.zeros(
-- 
2.43.0


From c4f3b88454a93547e95d9e8f93d8bdad8edd6825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 110/190] fix: averaging impulse responses normalizes their
 energies

---
 dsptoolbox/transfer_functions/transfer_functions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index a889357..e332daf 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -578,12 +578,11 @@ def average_irs(
 
     if normalize_energy:
         energies = np.sum(signal.time_data**2, axis=0)
-        energies /= energies[0]
-        avg_sig.time_data *= energies
+        avg_sig.time_data *= (energies[0] / energies) ** 0.5
 
     if not time_average:
         # Obtain channel magnitude and phase spectra
-        _, sp = signal.get_spectrum()
+        sp = rfft_scipy(avg_sig.time_data, axis=0)
         mag = np.abs(sp)
         pha = np.unwrap(np.angle(sp), axis=0)
 
@@ -605,7 +604,7 @@ def average_irs(
                 latencies[channel_to_follow] - latencies[i]
             ) / signal.sampling_rate_hz
             new_channel = fractional_delay(
-                signal.get_channels(i), latency_s, keep_length=True
+                avg_sig.get_channels(i), latency_s, keep_length=True
             )
             avg_sig.time_data[:, i] = new_channel.time_data[:, 0]
         new_time_data = np.mean(avg_sig.time_data, axis=1)
-- 
2.43.0


From bb70b224d7ff0a74b61372d63e29bafebcd92d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 111/190] fix: minimum-phase response has the requested length

---
 .../transfer_functions/transfer_functions.py     | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index e332daf..70691f3 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -642,15 +642,15 @@ def min_phase_from_mag(
     - https://en.wikipedia.org/wiki/Minimum_phase
 
     """
-    # Use very conservative estimate for most cases
-    delta_f_hz = (
-        0.5 if ir_length_samples is None else sampling_rate_hz / ir_length_samples
-    )
-
     # Frequency vector
-    f_vec, delta_f_hz, original_length_time_data = (
-        _get_frequency_vector_with_frequency_resolution(delta_f_hz, sampling_rate_hz)
-    )
+    if ir_length_samples is None:
+        # Use very conservative estimate for most cases
+        f_vec, _, original_length_time_data = (
+            _get_frequency_vector_with_frequency_resolution(0.5, sampling_rate_hz)
+        )
+    else:
+        original_length_time_data = ir_length_samples
+        f_vec = np.fft.rfftfreq(ir_length_samples, 1 / sampling_rate_hz)
 
     # Get interpolated magnitude spectrum
     mag_spectrum = spectrum.get_interpolated_spectrum(f_vec, SpectrumType.Magnitude)
-- 
2.43.0


From 3e4e4391b953828bf109ebb814a23dbe1223008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:57 +0000
Subject: [PATCH 112/190] fix: filters from impulse responses with minimum or
 linear phase

---
 .../transfer_functions/transfer_functions.py      | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 70691f3..486bf96 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1235,13 +1235,16 @@ def ir_to_filter(
     signal = signal.get_channels(channel) if channel is not None else signal
 
     # Change phase
-    if phase_mode == "min":
-        signal = min_phase_from_mag(
-            Spectrum.from_signal(signal), signal.sampling_rate_hz, len(signal)
+    if phase_mode != "direct":
+        # Plain magnitude, regardless of the spectrum parameters
+        magnitude = Spectrum(
+            np.fft.rfftfreq(len(signal), 1 / signal.sampling_rate_hz),
+            np.abs(rfft_scipy(signal.time_data, axis=0)),
         )
-    elif phase_mode == "lin":
-        signal = lin_phase_from_mag(
-            Spectrum.from_signal(signal), signal.sampling_rate_hz, len(signal)
+        signal = (
+            min_phase_from_mag(magnitude, signal.sampling_rate_hz, len(signal))
+            if phase_mode == "min"
+            else lin_phase_from_mag(magnitude, signal.sampling_rate_hz)
         )
 
     filters = []
-- 
2.43.0


From b7442cc683f7e8ffb676d996a426fdb29f49c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 113/190] fix: window an impulse response with an offset larger
 than its peak position

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 483124c..2682bcc 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -77,14 +77,14 @@ def _window_this_ir_tukey(
         if impulse_index - offset_samples < 0:
             pad_length = -int(impulse_index - offset_samples)
             vec = np.pad(vec, ((pad_length, 0)))
-            impulse_index += pad_length  # Update to reflect new position after padding
+            impulse_index = 0  # First value with amplitude 1 after padding
             start_sample += pad_length
             padding_left += pad_length
         else:
             impulse_index -= offset_samples
 
         # If left flank is longer than the amount of samples expected
-        if impulse_index - left_flank_length < 0:
+        if impulse_index - left_flank_length <= 0:
             pad_length = int(-(impulse_index - left_flank_length))
             vec = np.pad(vec, ((pad_length, 0)))
             start_sample += pad_length
-- 
2.43.0


From 4118607290eb6e1f5780e2c2cd5c5a269740dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 114/190] fix: ratio between the flanks of the window for
 impulse responses

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 2682bcc..9df72f8 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -65,7 +65,11 @@ def _window_this_ir_tukey(
 
     # Expected flank length
     flank_length_total = int((1 - constant_percentage) * total_length)
-    left_flank_length = int(flank_length_total * 0.5 * left_to_right_flank_ratio)
+    left_flank_length = int(
+        flank_length_total
+        * left_to_right_flank_ratio
+        / (1.0 + left_to_right_flank_ratio)
+    )
     right_flank_length = max(flank_length_total - left_flank_length, 0)
 
     # Maximum
-- 
2.43.0


From 7c0dec5cf20de67329e7e57d5a79171b91aef88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 115/190] fix: centered window of impulse responses for every
 length and peak position

---
 .../transfer_functions/_transfer_functions.py | 50 ++++---------------
 1 file changed, 10 insertions(+), 40 deletions(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 9df72f8..99df7aa 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -170,49 +170,19 @@ def _window_this_ir(
     """
     peak_ind = int(np.argmax(np.abs(vec)))
     half_length = total_length // 2
-    centered_impulse_and_even = peak_ind + half_length == len(vec) and len(vec) % 2 == 0
-
-    # If Peak is in the second half
-    flipping = peak_ind > half_length
-    if flipping:
-        vec = vec[::-1]
-        peak_ind = len(vec) - peak_ind - 1
-
     w = get_window(window_type.to_scipy_format(), half_length * 2 + 1, False)
 
-    # Define start index for time data and window
-    if peak_ind - half_length < 0:
-        ind_low_td = 0
-        ind_low_w = half_length - peak_ind
-    else:
-        ind_low_td = peak_ind - half_length
-        ind_low_w = 0
-
-    # Pad vector if necessary
-    if total_length - ind_low_td > len(vec):
-        vec = np.pad(vec, ((0, total_length + ind_low_td - len(vec))))
+    # Start of time data: the peak is centered if enough samples are available
+    ind_low_td = int(
+        np.clip(peak_ind - half_length, 0, max(len(vec) - total_length, 0))
+    )
+    td = _pad_trim(vec[ind_low_td : ind_low_td + total_length], total_length)
 
-    # Get second half
-    if peak_ind + half_length + 1 > len(vec) and not centered_impulse_and_even:
-        ind_up_td = len(vec)
-        ind_up_w = peak_ind + half_length + 1 - len(vec)
-    else:
-        ind_up_td = peak_ind + half_length + 1
-        ind_up_w = len(w) - (1 if centered_impulse_and_even else 0)
-
-    # Get time data and window
-    w = w[ind_low_w:ind_up_w]
-    td = vec[ind_low_td:ind_up_td] * w
-
-    # Final length adaptation (ensure length)
-    if len(td) != total_length:
-        td = _pad_trim(td, total_length)
-        w = _pad_trim(w, total_length)
-
-    # Flip back if needed
-    if flipping:
-        td = td[::-1]
-        w = w[::-1]
+    # Window around the peak. It is zero where there is no time data
+    ind_w = np.arange(ind_low_td, ind_low_td + total_length) - peak_ind + half_length
+    valid = (ind_w >= 0) & (ind_w < len(w)) & (np.arange(total_length) < len(vec))
+    w = np.where(valid, w[np.clip(ind_w, 0, len(w) - 1)], 0.0)
+    td = td * w
 
     return td, w, ind_low_td
 
-- 
2.43.0


From 7608fb82b3fb6d154b1ffe2701c951a8643a7df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:09 +0000
Subject: [PATCH 116/190] fix: analytic group delay of signals with odd length

---
 dsptoolbox/classes/filter_helpers.py                | 11 +++++++++--
 dsptoolbox/transfer_functions/transfer_functions.py |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index f49d4f6..73781a2 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -166,7 +166,9 @@ def _impulse(length_samples: int = 512, delay_samples: int = 0):
     return imp
 
 
-def _group_delay_filter(ba, length_samples: int = 512, fs_hz: int = 48000):
+def _group_delay_filter(
+    ba, length_samples: int = 512, fs_hz: int = 48000, max_frequency_hz=None
+):
     """Computes group delay using the method in
     https://www.dsprelated.com/freebooks/filters/Phase_Group_Delay.html.
     The implementation is mostly taken from `scipy.signal.group_delay` !
@@ -179,6 +181,9 @@ def _group_delay_filter(ba, length_samples: int = 512, fs_hz: int = 48000):
         Length for the final vector. Default: 512.
     fs_hz : int, optional
         Sampling frequency rate in Hz. Default: 48000.
+    max_frequency_hz : float, None, optional
+        Last frequency of the vector. Pass None for the nyquist frequency.
+        Default: None.
 
     Returns
     -------
@@ -189,7 +194,9 @@ def _group_delay_filter(ba, length_samples: int = 512, fs_hz: int = 48000):
 
     """
     # Frequency vector at which to evaluate
-    omega = np.linspace(0, np.pi, length_samples)
+    if max_frequency_hz is None:
+        max_frequency_hz = fs_hz / 2
+    omega = np.linspace(0, 2 * np.pi * max_frequency_hz / fs_hz, length_samples)
     # Turn always to FIR
     c = np.convolve(ba[0], np.conjugate(ba[1][::-1]))
     cr = c * np.arange(len(c))  # Ramped coefficients
diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 486bf96..b315bda 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -925,7 +925,7 @@ def group_delay(
                 b = b[max(int(np.argmax(np.abs(b))) - 1, 0) :]
             a = [1]
             _, group_delays[:, n] = _group_delay_filter(
-                [b, a], len(f), signal.sampling_rate_hz
+                [b, a], len(f), signal.sampling_rate_hz, f[-1]
             )
 
     if smoothing != 0:
-- 
2.43.0


From 88af83564e386f34fa1706b5d7a98c7a7c800d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 117/190] fix: minimum phase without the real cepstrum keeps
 the magnitude

---
 dsptoolbox/transfer_functions/transfer_functions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index b315bda..ad4ffe4 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -853,9 +853,11 @@ def min_phase_ir(
             False,
         )
         for ch in range(new_time_data.shape[1]):
-            # The obtained filter has about half the original length
             temp = min_phase_scipy(
-                new_time_data[:, ch], method="hilbert", n_fft=length_fft
+                new_time_data[:, ch],
+                method="homomorphic",
+                n_fft=length_fft,
+                half=False,
             )
             new_time_data[:, ch] = _pad_trim(temp, new_time_data.shape[0])
 
@@ -972,8 +974,9 @@ def minimum_phase(
         for n in range(signal.number_of_channels):
             temp = min_phase_scipy(
                 signal.time_data[:, n],
-                method="hilbert",
+                method="homomorphic",
                 n_fft=padding_factor * len(signal),
+                half=False,
             )
             min_phases[:, n] = np.angle(
                 np.fft.rfft(_pad_trim(temp, signal.time_data.shape[0]))
-- 
2.43.0


From c6d624b30ebcaa7c6a2f6f148324dd86da2e2438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:10 +0000
Subject: [PATCH 118/190] fix: minimum phase of impulse responses with spectral
 zeros

---
 dsptoolbox/helpers/minimum_phase.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/minimum_phase.py b/dsptoolbox/helpers/minimum_phase.py
index 4078c5d..6762f0f 100644
--- a/dsptoolbox/helpers/minimum_phase.py
+++ b/dsptoolbox/helpers/minimum_phase.py
@@ -30,8 +30,16 @@ def _get_minimum_phase_spectrum_from_real_cepstrum(
     fft_length = next_fast_len(
         max(time_data.shape[0] * padding_factor, time_data.shape[0])
     )
+    # Limit dynamic range to 500 dB to avoid the logarithm of zero
+    magnitude = np.abs(fft(time_data, n=fft_length, axis=0))
+    magnitude = np.clip(
+        magnitude,
+        np.fmax(np.max(magnitude, axis=0) * 10 ** (-500.0 / 20), 1e-300),
+        None,
+    )
+
     # Real cepstrum
-    y = np.real(ifft(np.log(np.abs(fft(time_data, n=fft_length, axis=0))), axis=0))
+    y = np.real(ifft(np.log(magnitude), axis=0))
 
     # Window in the cepstral domain, like obtaining hilbert transform
     # If length is even, nyquist is exactly in the middle
-- 
2.43.0


From 4e626b13f88371afa8b5e5c56a6a2970afe20763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 119/190] fix: combination of multichannel impulse responses
 with diracs

---
 dsptoolbox/transfer_functions/transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index ad4ffe4..853a093 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1160,7 +1160,7 @@ def combine_ir_with_dirac(
 
     for ch in range(ir.number_of_channels):
         delay_seconds = latencies_samples[ch] / ir.sampling_rate_hz
-        imp_ch = imp.get_channels(ch)
+        imp_ch = imp.get_channels(0)
         imp_ch = fractional_delay(imp_ch, delay_seconds=delay_seconds, keep_length=True)
         imp = append_signals([imp, imp_ch])
 
-- 
2.43.0


From 081db6baf720432cea17f91d994424bc0944e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:27 +0000
Subject: [PATCH 120/190] fix: interpolation of a spectrum at its last
 frequency regardless of rounding

---
 dsptoolbox/classes/spectrum.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 6e4e13a..94bb66d 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -593,6 +593,15 @@ class Spectrum(MultichannelData):
         if output_type == SpectrumType.Complex:
             assert not self.is_magnitude, "Complex output is not supported"
 
+        # Frequencies outside of the range only due to rounding errors belong to it
+        f_min, f_max = self.frequency_vector_hz[0], self.frequency_vector_hz[-1]
+        clipped_frequency = np.clip(requested_frequency, f_min, f_max)
+        requested_frequency = np.where(
+            np.abs(requested_frequency - clipped_frequency) <= 1e-12 * f_max,
+            clipped_frequency,
+            requested_frequency,
+        )
+
         inds_outside_left = requested_frequency < self.frequency_vector_hz[0]
         inds_outside_right = requested_frequency > self.frequency_vector_hz[-1]
         if self.__int_edges == InterpolationEdgeHandling.Error:
-- 
2.43.0


From 31aa844d2614bb7ea3de2de93edbf94f18bcf7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 121/190] fix: trimming of impulse responses independent of
 their level

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 99df7aa..b548ee1 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -304,7 +304,7 @@ def _trim_ir(
     corr_coeff = np.zeros(len(window_lengths))
     for ind, window_length in enumerate(window_lengths):
         current_start_position = 0
-        current_window_mean_db = 0
+        current_window_mean_db = np.inf
 
         for _ in range(len(envelope) // window_length):
             new_window_mean_db = np.mean(
-- 
2.43.0


From e6519acdd2bfd0efcbba9ec8082a90fb4e6e297c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 122/190] fix: averaged periodograms of signals with a single
 sample

---
 dsptoolbox/standard/_spectral_methods.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index a76eee1..46ed211 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -65,12 +65,14 @@ def _welch(
     """
     autospectrum = y is None
 
-    if type(x) is not NDArray[np.float64]:
-        x = np.asarray(x).squeeze()
+    x = np.asarray(x)
+    if x.ndim == 2 and x.shape[1] == 1:
+        x = x[:, 0]
 
     if not autospectrum:
-        if type(y) is not NDArray[np.float64]:
-            y = np.asarray(y).squeeze()
+        y = np.asarray(y)
+        if y.ndim == 2 and y.shape[1] == 1:
+            y = y[:, 0]
         assert x.shape == y.shape, "Shapes of data do not match"
         # NOTE: Computing the spectrum in a vectorized manner for all channels
         # simultaneously does not seem to be faster than doing it sequentally
-- 
2.43.0


From 7fec269a8765e0b6c541dbf7ff63c8820f66af70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 123/190] fix: effects on silent channels

---
 dsptoolbox/effects/_effects.py |  3 +++
 dsptoolbox/effects/effects.py  | 10 ++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 4aa6219..ede1e98 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -18,6 +18,7 @@ def _arctan_distortion(
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
     peak_level = np.max(np.abs(inp), axis=0)
+    peak_level = np.where(peak_level > 0.0, peak_level, 1.0)
     normalized = inp / peak_level
     return np.arctan(normalized * distortion_level_linear + offset_linear) * (2 / np.pi)
 
@@ -29,6 +30,7 @@ def _hard_clip_distortion(
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
     peak_level = np.max(np.abs(inp), axis=0)
+    peak_level = np.where(peak_level > 0.0, peak_level, 1.0)
     normalized = inp / peak_level
     return np.clip(
         normalized * distortion_level_linear + offset_linear, a_min=-1, a_max=1
@@ -42,6 +44,7 @@ def _soft_clip_distortion(
     offset_linear = 10 ** (offset_db / 20)
     distortion_level_linear = 10 ** (distortion_level_db / 20)
     peak_level = np.max(np.abs(inp), axis=0)
+    peak_level = np.where(peak_level > 0.0, peak_level, 1.0)
     normalized = inp / peak_level * (2 / 3)
     normalized += offset_linear
     normalized *= distortion_level_linear
diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index c900fc3..cfdcfd8 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -116,7 +116,8 @@ class AudioEffect:
                 + "channels. Restoring is ignored"
             )
             return inp
-        return inp * (self._peak_values / np.max(np.abs(inp), axis=0))
+        peaks = np.max(np.abs(inp), axis=0)
+        return inp * (self._peak_values / np.where(peaks > 0.0, peaks, 1.0))
 
     def _save_rms_values(self, inp: NDArray[np.float64]):
         """Save the RMS values of a signal."""
@@ -132,7 +133,8 @@ class AudioEffect:
                 + "channels. Restoring is ignored"
             )
             return inp
-        return inp * (self._rms_values / _rms(inp))
+        rms = _rms(inp)
+        return inp * (self._rms_values / np.where(rms > 0.0, rms, 1.0))
 
 
 class SpectralSubtractor(AudioEffect):
@@ -984,7 +986,7 @@ class Compressor(AudioEffect):
 
         # If normalize or absolute
         if self.relative_to_peak_level:
-            td /= self._peak_values
+            td = td / np.where(self._peak_values > 0.0, self._peak_values, 1.0)
 
         attack_time_samples = int(self.attack_time_ms * 1e-3 * fs_hz)
         release_time_samples = int(self.release_time_ms * 1e-3 * fs_hz)
@@ -1002,7 +1004,7 @@ class Compressor(AudioEffect):
 
         # Restore original signal level
         if self.relative_to_peak_level:
-            td *= self._peak_values
+            td = td * self._peak_values
 
         # Restore RMS
         if self.automatic_make_up_gain:
-- 
2.43.0


From 6b205d18903b3b1690303af3153267182df3ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 124/190] fix: mix of distortions follows mix_percent and keeps
 the peak

---
 dsptoolbox/effects/effects.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index cfdcfd8..359f210 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -740,12 +740,15 @@ class Distortion(AudioEffect):
         for i in range(len(self.__distortion_funcs)):
             if self.mix[i] == 0.0:
                 continue
-            new_td += self._restore_peak_values(
-                self.__distortion_funcs[i](
-                    td, self.distortion_levels[i], self.offset_db[i]
+            new_td += (
+                self._restore_peak_values(
+                    self.__distortion_funcs[i](
+                        td, self.distortion_levels[i], self.offset_db[i]
+                    )
                 )
                 * self.mix[i]
             )
+        new_td = self._restore_peak_values(new_td)
 
         new_td = self._add_gain_in_db(new_td, self.post_gain_db)
 
-- 
2.43.0


From 819dceb0e08960d98523a7d2ecb50588b0c0fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 125/190] fix: soft clipping saturates instead of inverting
 loud samples

---
 dsptoolbox/effects/_effects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index ede1e98..96d925f 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -48,6 +48,7 @@ def _soft_clip_distortion(
     normalized = inp / peak_level * (2 / 3)
     normalized += offset_linear
     normalized *= distortion_level_linear
+    normalized = np.clip(normalized, a_min=-1, a_max=1)
     normalized = normalized - normalized**3 / 3
     return np.clip(normalized, a_min=-2 / 3, a_max=2 / 3)
 
-- 
2.43.0


From 297a4495506f1dde782255d5ad4a47a92d5b891b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 126/190] fix: compressor gains, mix, hard knee and attack and
 release times

---
 dsptoolbox/effects/_effects.py | 19 ++++++++++++-------
 dsptoolbox/effects/effects.py  |  2 +-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 96d925f..7109780 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -137,15 +137,20 @@ def _compressor(
             samp_db_comp = compression_func(samp_db)
             gain_factor = 10 ** ((samp_db_comp - samp_db) / 20)
 
-            # Gain depending on attack and release
-            if gain_factor > momentary_gain:
+            # Gain depending on attack and release. The gain leaves 0 dB
+            # downwards or upwards depending on the type of compression
+            if (
+                gain_factor < momentary_gain
+                if downward_compression
+                else gain_factor > momentary_gain
+            ):
                 coeff = attack_coeff
             else:
                 coeff = release_coeff
             momentary_gain = coeff * gain_factor + (1 - coeff) * momentary_gain
 
             # Apply gain
-            x_[i, n] *= momentary_gain
+            x_[i, n] *= momentary_gain * mix_compressed + (1 - mix_compressed)
 
     if single_channel:
         x_ = x_.squeeze()
@@ -183,13 +188,13 @@ def _get_knee_func(
             first_section = x - T < -W / 2
             y[first_section] = x[first_section]
 
-            second_section = np.abs(x - T) <= W / 2
+            second_section = (np.abs(x - T) <= W / 2) & (W > 0)
             y[second_section] = (
                 x[second_section]
                 + (1 / R - 1) * (x[second_section] - T + W / 2) ** 2 / 2 / W
             )
 
-            third_section = x - T > W / 2
+            third_section = ~(first_section | second_section)
             y[third_section] = T + (x[third_section] - T) / R
             return y
 
@@ -208,13 +213,13 @@ def _get_knee_func(
             first_section = x - T < -W / 2
             y[first_section] = T + (x[first_section] - T) / R
 
-            second_section = np.abs(x - T) <= W / 2
+            second_section = (np.abs(x - T) <= W / 2) & (W > 0)
             y[second_section] = (
                 x[second_section]
                 - (1 / R - 1) * (x[second_section] - T - W / 2) ** 2 / 2 / W
             )
 
-            third_section = x - T > W / 2
+            third_section = ~(first_section | second_section)
             y[third_section] = x[third_section]
             return y
 
diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 359f210..2b379f0 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1014,7 +1014,7 @@ class Compressor(AudioEffect):
             td = self._restore_rms_values(td)
 
         # Post-compression gain
-        td = self._add_gain_in_db(td, self.pre_gain_db)
+        td = self._add_gain_in_db(td, self.post_gain_db)
 
         return signal.copy_with_new_time_data(td)
 
-- 
2.43.0


From a9ef4bbbcc5008c98fb63260d75c1146868e4867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:02 +0000
Subject: [PATCH 127/190] fix: array modulators of the chorus

---
 dsptoolbox/effects/effects.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 2b379f0..d4be774 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1186,12 +1186,18 @@ class Chorus(AudioEffect):
             if type(modulators) in (list, tuple):
                 nv_mod = len(modulators)
             elif type(modulators) is np.ndarray:
-                modulators = np.atleast_2d(modulators)
+                modulators = (
+                    modulators[..., None] if modulators.ndim == 1 else modulators
+                )
                 nv_mod = modulators.shape[1]
             else:
                 nv_mod = 1
         else:
-            nv_mod = len(self.modulators)
+            nv_mod = (
+                self.modulators.shape[1]
+                if type(self.modulators) is np.ndarray
+                else len(self.modulators)
+            )
 
         # Extract number of voices
         self.number_of_voices = max(nv_base, nv_depths, nv_mod)
@@ -1217,8 +1223,7 @@ class Chorus(AudioEffect):
                 np.ndarray,
             ), "Unsupported modulators type. Use LFO or numpy.ndarray"
             if type(modulators) is np.ndarray:
-                modulators = np.atleast_2d(modulators)
-                modulators.shape[1] == self.number_of_voices, (
+                assert modulators.shape[1] == self.number_of_voices, (
                     "The modulators signal must "
                     + "have the same number of channels as there are "
                     + f"voices {self.number_of_voices}"
-- 
2.43.0


From 033c2c35bdbb8716309879e37d2521d0cf276aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 128/190] fix: voices of the chorus are delayed

---
 dsptoolbox/effects/effects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index d4be774..ce71aaa 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1314,8 +1314,9 @@ class Chorus(AudioEffect):
         modulation = np.round(modulation * 1e-3 * fs).astype(int)
         max_delay_samples = np.abs(modulation).max()
 
-        # Original time data
+        # Original time data and a version for the (delayed) voices
         td = _pad_trim(signal.time_data, le + max_delay_samples)
+        td_voices = _pad_trim(td, le + 2 * max_delay_samples, in_the_end=False)
         self._save_peak_values(td)
         new_td = np.zeros_like(td)
 
@@ -1323,7 +1324,9 @@ class Chorus(AudioEffect):
         for ind in np.arange(td.shape[0] - max_delay_samples):
             new_td[ind, :] = td[ind, :]
             for v in range(self.number_of_voices):
-                new_td[ind, :] += td[ind + modulation[ind, v], :]
+                new_td[ind, :] += td_voices[
+                    ind + max_delay_samples - modulation[ind, v], :
+                ]
 
         # Mix with clean signal
         new_td = new_td * self.mix + td * (1 - self.mix)
-- 
2.43.0


From 6e6bf918c957ada04c6499ba30594dfc8772f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 129/190] fix: Chorus.set_parameters with more voices than
 before

---
 dsptoolbox/effects/effects.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index ce71aaa..3f83791 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1254,6 +1254,14 @@ class Chorus(AudioEffect):
             if len(self.depths_ms) == 1:
                 self.depths_ms = np.repeat(self.depths_ms, self.number_of_voices)
 
+        # Parameters that were not passed follow the number of voices
+        if len(self.base_delays_ms) == 1:
+            self.base_delays_ms = np.repeat(self.base_delays_ms, self.number_of_voices)
+        if len(self.depths_ms) == 1:
+            self.depths_ms = np.repeat(self.depths_ms, self.number_of_voices)
+        if type(self.modulators) is not np.ndarray and len(self.modulators) == 1:
+            self.modulators = [self.modulators[0]] * self.number_of_voices
+
         if mix_percent is not None:
             mix_percent /= 100
             assert (
-- 
2.43.0


From aa3d9046e5d621826234bb78124cfcf212d1694a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 130/190] fix: DigitalDelay.set_parameters with None leaves a
 parameter unchanged

---
 dsptoolbox/effects/effects.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 3f83791..1f14f67 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1372,11 +1372,13 @@ class DigitalDelay(AudioEffect):
 
     def __set_parameters(self, delay_time_ms: float, feedback: int):
         """Internal method to change parameters."""
-        assert delay_time_ms > 0, "Delay time must be larger than 0"
-        self.delay_ms = delay_time_ms
+        if delay_time_ms is not None:
+            assert delay_time_ms > 0, "Delay time must be larger than 0"
+            self.delay_ms = delay_time_ms
 
-        assert feedback > 0, "Feedback must be larger than one"
-        self.feedback = feedback
+        if feedback is not None:
+            assert feedback > 0, "Feedback must be larger than 0"
+            self.feedback = feedback
 
     def set_parameters(
         self, delay_time_ms: float | None = None, feedback: float | None = None
-- 
2.43.0


From 0031fb993d3d85ae305a6dbf09fe8c93a4b3a6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 131/190] fix: custom saturation of the digital delay

---
 dsptoolbox/effects/effects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 1f14f67..d18e9ef 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1415,7 +1415,8 @@ class DigitalDelay(AudioEffect):
         """
         if saturation is None:
             saturation = "digital"
-        saturation = saturation.lower()
+        if type(saturation) is str:
+            saturation = saturation.lower()
         if saturation == "digital":
 
             def func(x):
@@ -1431,8 +1432,7 @@ class DigitalDelay(AudioEffect):
                 type(saturation(1.0)) == float
             ), "Saturation function might not be valid"
 
-            def func(x):
-                return saturation(x)
+            func = np.vectorize(saturation, otypes=[float])
 
         self.saturation_func = func
 
-- 
2.43.0


From d0884b211e1eb1f0ee3ac95cbdfe294794ce16e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 132/190] fix: frequency of musical rhythms for all tempos

---
 dsptoolbox/effects/_effects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 7109780..f162faf 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -522,6 +522,7 @@ def get_frequency_from_musical_rhythm(note, bpm):
         factor = 1 / 4
     if "32th" in note:
         factor = 1 / 8
+        note = note.replace("32th", "")
     if "quintuplet" in note:
         factor = 1 / 5
     if "3" in note:
@@ -530,7 +531,7 @@ def get_frequency_from_musical_rhythm(note, bpm):
         factor *= 1.5
     if factor == 0:
         raise ValueError("No valid note description was passed")
-    return 60 / bpm / factor
+    return bpm / 60 / factor
 
 
 def get_time_period_from_musical_rhythm(note, bpm):
-- 
2.43.0


From 46bc89e34ac26c8b57ae29f4ab640b88f9db771f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 133/190] fix: level of LFO waveforms independent of their
 length

---
 dsptoolbox/effects/_effects.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index f162faf..216e510 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -441,7 +441,7 @@ def _square_oscillator(freq, fs, length, random_phase, smooth):
         waveform = np.sign(x)
     else:
         smooth *= 0.25 / 10  # Adapt to some useful range
-        waveform = np.arctan(x / smooth)
+        waveform = np.arctan(x / smooth) / np.arctan(1 / smooth)
     return waveform
 
 
@@ -460,8 +460,12 @@ def _sawtooth_oscillator(freq, fs, length, random_phase, smooth):
         # Adapt range
         smooth = (12 - smooth) ** 1.5
         smooth = max(1, smooth)
-        waveform = np.arcsin(np.tanh(np.cos(x) * smooth) * np.sin(x))
-        waveform /= np.abs(np.max(waveform))
+
+        def func(x):
+            return np.arcsin(np.tanh(np.cos(x) * smooth) * np.sin(x))
+
+        # Normalize to the peak of a whole period
+        waveform = func(x) / np.max(func(np.linspace(0, np.pi, 10_000)))
     return waveform
 
 
@@ -477,7 +481,8 @@ def _triangle_oscillator(freq, fs, length, random_phase, smooth):
     else:
         smooth *= 0.08 / 10  # Adapt to some useful range
         waveform = 1 - 2 / np.pi * np.arccos((1 - smooth) * x)
-    waveform /= np.max(np.abs(waveform))
+        # Normalize to the peak of a whole period
+        waveform /= 1 - 2 / np.pi * np.arccos(1 - smooth)
     return waveform
 
 
-- 
2.43.0


From f03d797c28d27e8d9fe5e52358404b61f602d47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:40 +0000
Subject: [PATCH 134/190] fix: SpectralSubtractor.set_parameters leaves the
 spectrum to subtract unchanged

---
 dsptoolbox/effects/effects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index d18e9ef..b735a91 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -355,7 +355,7 @@ class SpectralSubtractor(AudioEffect):
         adaptive_mode: bool | None = None,
         threshold_rms_dbfs: float | None = None,
         block_length_s: float | None = None,
-        spectrum_to_subtract: NDArray[np.float64] = False,
+        spectrum_to_subtract: NDArray[np.float64] | bool | None = None,
     ):
         """Sets the audio effects parameters. Pass `None` to leave the
         previously selected value for each parameter unchanged.
@@ -385,7 +385,7 @@ class SpectralSubtractor(AudioEffect):
             squared magnitude of the FFT without any scaling in order to avoid
             scaling discrepancies. It should be only the spectrum corresponding
             to the positive frequencies (including 0). Pass `False` to ignore.
-            Default: `False`.
+            Default: `None`.
 
         """
         self.__set_parameters(
-- 
2.43.0


From ceb7b8a48660337e7b211b2aeda47558c2591160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 135/190] fix: noise power of the static spectral subtraction

---
 dsptoolbox/effects/effects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index b735a91..dad7b00 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -465,6 +465,8 @@ class SpectralSubtractor(AudioEffect):
                     scaling=SpectrumScaling.FFTBackward,
                 )
                 _, noise_psd = noise["noise"].get_spectrum()
+                # Amplitude to power
+                noise_psd = np.abs(noise_psd) ** 2.0
             else:
                 noise_psd = self.spectrum_to_subtract.copy()
             # It is already raised to the power of 2!
-- 
2.43.0


From 2790813b8acc6bf539bf00e237ad28cc334d8ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 136/190] fix: reverberation time of impulse responses without
 leading samples

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 8e8ca92..6ce051a 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -1177,7 +1177,7 @@ def _compute_energy_decay_curve(
         noise_power = np.var(time_data[stopping_index:])
     else:
         # Assume there is no noise in the end, take at least until the start
-        noise_power = np.var(time_data[:start_index])
+        noise_power = np.var(time_data[:start_index]) if start_index > 0 else 0.0
 
     signal_power = time_data[start_index:stopping_index] ** 2.0
 
-- 
2.43.0


From b6cb83f48c27b93b6d424c78787b7a87800fb547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 137/190] fix: reverb_time uses the given start of the impulse
 response

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 6ce051a..c2da79c 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -57,7 +57,7 @@ def _reverb(
     acoustical parameters. pp. 22.
 
     """
-    edc = _compute_energy_decay_curve(h, automatic_trimming, fs_hz)
+    edc = _compute_energy_decay_curve(h, automatic_trimming, fs_hz, ir_start)
     time_vector = np.linspace(0, len(edc) / fs_hz, len(edc))
 
     # Reverb
@@ -1142,9 +1142,10 @@ def _compute_energy_decay_curve(
     time_data: NDArray[np.float64],
     trim_automatically: bool,
     fs_hz: int,
+    ir_start: int | None = None,
 ) -> NDArray[np.float64]:
     """Get the energy decay curve. The start is found at -20 dB relative to
-    peak according to DIN EN ISO 3382. A noise correction term according to [1]
+    peak according to DIN EN ISO 3382 if it is not passed. A noise correction term according to [1]
     is applied, and the compensation energy for a truncated IR according to [2]
     is also regarded.
 
@@ -1169,7 +1170,7 @@ def _compute_energy_decay_curve(
         stopping_index = len(time_data)
 
     # Find start
-    start_index = _find_ir_start(time_data)
+    start_index = _find_ir_start(time_data) if ir_start is None else ir_start
 
     # Get noise estimation
     if stopping_index != len(time_data):
-- 
2.43.0


From 6dabc48853e4092eb9bb877f70c7ff6b1e854462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 138/190] fix: room acoustic descriptors of bands with the
 selected trimming

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 0b0718a..7e3701e 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -511,7 +511,7 @@ def descriptors(
         )
         desc = np.zeros((rir.number_of_bands, rir.number_of_channels))
         for ind, b in enumerate(rir):
-            desc[ind, :] = descriptors(b, descriptor=descriptor)
+            desc[ind, :] = descriptors(b, descriptor, automatic_trimming_rir)
     else:
         raise TypeError("RIR must be of type Signal or MultiBandSignal")
     return desc
-- 
2.43.0


From 563589d36579b71b9f59e6dd063b6e0b492a3781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 139/190] fix: bass ratio from T20

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 7e3701e..27ff305 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -535,7 +535,7 @@ def _bass_ratio(rir: ImpulseResponse) -> NDArray[np.float64]:
         [125, 1000], filter_order=10, sampling_rate_hz=rir.sampling_rate_hz
     )[0]
     rir_multi = fb.filter_signal(rir, FilterBankMode.Parallel, zero_phase=True)
-    rt, _ = reverb_time(rir_multi)
+    rt, _ = reverb_time(rir_multi, ReverbTime.T20)
     br = np.zeros(rir.number_of_channels)
     for ch in range(rir.number_of_channels):
         br[ch] = (rt[0, ch] + rt[1, ch]) / (rt[2, ch] + rt[3, ch])
-- 
2.43.0


From 954cee10381bc80d0d74cd8bc1134ffafcbf9fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 140/190] fix: points with negative coordinates are outside the
 room

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index c2da79c..eae9bec 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -446,7 +446,9 @@ class ShoeboxRoom(Room):
 
         """
         coordinates_m = np.squeeze(coordinates_m)
-        return bool(np.all(coordinates_m <= self.dimensions_m))
+        return bool(
+            np.all((coordinates_m >= 0.0) & (coordinates_m <= self.dimensions_m))
+        )
 
     def get_mixing_time(
         self,
-- 
2.43.0


From 0282aeadbf9701c90532920867bc565104ed6cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 141/190] fix: simultaneous reflections of a room add up

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index eae9bec..bf67976 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -265,7 +265,11 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
                 # Distances
                 ds = get_distance(l0)
                 # Write into RIR
-                rir_vec[seconds2samples(ds / c)] += get_damping(l0) / (4 * np.pi * ds)
+                np.add.at(
+                    rir_vec,
+                    seconds2samples(ds / c),
+                    get_damping(l0) / (4 * np.pi * ds),
+                )
     return rir_vec
 
 
-- 
2.43.0


From 4883985a67c73a96e668284f26015f4c4692db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 142/190] fix: impulse responses of elongated rooms

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index bf67976..2e01731 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -264,11 +264,13 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
                 l0 = np.array([lind, mind, nind])
                 # Distances
                 ds = get_distance(l0)
+                samples = seconds2samples(ds / c)
+                valid = samples < len(rir_vec)
                 # Write into RIR
                 np.add.at(
                     rir_vec,
-                    seconds2samples(ds / c),
-                    get_damping(l0) / (4 * np.pi * ds),
+                    samples[valid],
+                    (get_damping(l0) / (4 * np.pi * ds))[valid],
                 )
     return rir_vec
 
-- 
2.43.0


From c1cde7b0a9176dbbea4e97091d0dfefd8da6c078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 143/190] fix: absorption of the walls of a room

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 2e01731..25d6811 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -198,8 +198,8 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
         beta_1 = np.ones(3) * beta
         beta_2 = np.ones(3) * beta
     elif len(beta) == 6:
-        beta_1 = np.array([beta[1], beta[3], beta[4]])  # South  # West  # Floor
-        beta_2 = np.array([beta[0], beta[2], beta[5]])  # North  # East  # Ceiling
+        beta_1 = np.array([beta[3], beta[1], beta[4]])  # West  # South  # Floor
+        beta_2 = np.array([beta[2], beta[0], beta[5]])  # East  # North  # Ceiling
     else:
         raise ValueError("Wrong length for absorption coefficients")
 
-- 
2.43.0


From 6539afb92f89e28aa748c660e4a21b302b0f2c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:23 +0000
Subject: [PATCH 144/190] fix: convolution of a silent channel with an RIR

---
 dsptoolbox/room_acoustics/room_acoustics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 27ff305..907abad 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -259,6 +259,7 @@ def convolve_rir_on_signal(
     if keep_peak_level:
         old_peak_levels = np.max(np.abs(signal.time_data), axis=0)
         new_peak_levels = np.max(np.abs(new_time_data), axis=0)
+        new_peak_levels[new_peak_levels == 0.0] = 1.0
         new_time_data *= (old_peak_levels / new_peak_levels)[None, ...]
 
     return signal.copy_with_new_time_data(new_time_data)
-- 
2.43.0


From 35fd73c50df47ad9769945717f1c2b2305113fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 145/190] fix: synthetic RIR with a single absorption
 coefficient per wall

---
 dsptoolbox/room_acoustics/room_acoustics.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 907abad..0808a27 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -396,18 +396,20 @@ def generate_synthetic_rir(
         ), "Given room has no detailed absorption dictionary"
         # Create filter bank
         freqs = room.detailed_absorption["center_frequencies"][:-1] * np.sqrt(2)
-        fb = linkwitz_riley_crossovers(
-            crossover_frequencies_hz=freqs,
-            order=12,
-            sampling_rate_hz=sampling_rate_hz,
-        )
+        number_of_bands = len(freqs) + 1
+        if number_of_bands > 1:
+            fb = linkwitz_riley_crossovers(
+                crossover_frequencies_hz=freqs,
+                order=12,
+                sampling_rate_hz=sampling_rate_hz,
+            )
 
         # Accumulator
         rir = np.zeros(total_length_samples)
 
         print("\nRIR Generator\n")
-        for ind in range(fb.number_of_bands):
-            print(f"Band {ind + 1} of {fb.number_of_bands} is being computed...")
+        for ind in range(number_of_bands):
+            print(f"Band {ind + 1} of {number_of_bands} is being computed...")
             alphas = room.detailed_absorption["absorption_matrix"][:, ind]
             rir_band = _generate_rir(
                 room_dim=room.dimensions_m,
@@ -421,6 +423,9 @@ def generate_synthetic_rir(
             rir_band = _pad_trim(rir_band, total_length_samples)
             # Prune possible nan values
             np.nan_to_num(rir_band, copy=False, nan=0)
+            if number_of_bands == 1:
+                rir += rir_band
+                continue
             rir0 = ImpulseResponse(
                 None, rir_band, sampling_rate_hz, constrain_amplitude=False
             )
-- 
2.43.0


From 39a23775a91197b35ae1c7f54398c9c058ebd093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 146/190] fix: reverberant tail of synthetic RIRs shorter than
 the mixing time

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 25d6811..442569b 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -874,6 +874,9 @@ def _add_reverberant_tail_noise(
     # Define noise length
     mixing_time_samples = int(mixing_time_s * sr)
     noise_length = len(rir) - ind_direct - mixing_time_samples
+    if noise_length <= 0:
+        # The mixing time is not reached
+        return rir
 
     # Generate decaying noise (normalized)
     noise = np.abs(np.random.normal(0, 1, noise_length))
-- 
2.43.0


From fb9cc41e44cd2e4ab5964b2ed3ba1ddc52323296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 147/190] fix: reverberant tail for responses with less than
 two arrivals

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 442569b..e13c528 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -869,7 +869,11 @@ def _add_reverberant_tail_noise(
 
     """
     # Find first sample
-    ind_direct = np.squeeze(np.where(rir != 0))[0]
+    arrivals = np.flatnonzero(rir)
+    if len(arrivals) == 0:
+        # There is not even direct sound in the response
+        return rir
+    ind_direct = arrivals[0]
 
     # Define noise length
     mixing_time_samples = int(mixing_time_s * sr)
-- 
2.43.0


From 91f54991caffc0f5fb5841acf14260458b4b1c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 148/190] fix: energy decay curve when the noise estimate
 exceeds the response

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index e13c528..9340284 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -1202,10 +1202,13 @@ def _compute_energy_decay_curve(
 
     # Find compensation energy according to [2]
     signal_db = to_db(time_smoothing(signal_power, fs_hz, 20e-3), False)
-    start_index_int = np.where(dynamic_range_db + np.min(signal_db) > signal_db)[0][0]
+    fit_indices = np.where(dynamic_range_db + np.min(signal_db) > signal_db)[0]
+    # Without dynamic range over the noise estimate, it cannot be corrected
+    avoid_corrections = len(fit_indices) == 0
+    start_index_int = 0 if avoid_corrections else fit_indices[0]
     time_vector = np.linspace(0, len(signal_power) / fs_hz, len(signal_power))
     p = np.polyfit(time_vector[start_index_int:], signal_db[start_index_int:], 1)
-    avoid_corrections = p[1] >= 0.0  # Check if slope makes sense
+    avoid_corrections |= p[1] >= 0.0  # Check if slope makes sense
 
     # Lundeby's compensation energy
     B = from_db(p[0], False)
-- 
2.43.0


From 00c438edeee9585cb1556c2ded2cb8a3afa8acee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:59 +0000
Subject: [PATCH 149/190] fix: reverberant tail when no reflection arrives
 around the mixing time

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 9340284..8ff2442 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -890,10 +890,15 @@ def _add_reverberant_tail_noise(
 
     # Find right amplitude by looking at a window around start of noise
     window_length = 100
+    noise_start = len(rir) - noise_length
     window = rir[
-        -noise_length - window_length // 2 : -noise_length + window_length // 2
+        max(noise_start - window_length // 2, 0) : noise_start + window_length // 2
     ]
-    gain = np.median(window[window != 0]) * 0.5
+    window = window[window != 0]
+    if len(window) == 0:
+        # No arrivals around the start of the noise, take the last one before
+        window = rir[arrivals[arrivals < noise_start][-1:]]
+    gain = np.median(window) * 0.5
     noise *= gain
 
     # Apply noise
-- 
2.43.0


From 498ead240ccce23ee5e4235c517ae232f25a6e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:26 +0000
Subject: [PATCH 150/190] fix: Itakura-Saito distance with the natural
 logarithm

---
 dsptoolbox/distances/_distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/distances/_distances.py b/dsptoolbox/distances/_distances.py
index c99fd10..780525e 100644
--- a/dsptoolbox/distances/_distances.py
+++ b/dsptoolbox/distances/_distances.py
@@ -57,7 +57,7 @@ def _itakura_saito_measure(
 
     """
     assert x.shape == y.shape, "Power spectra have different lengths"
-    ism = simpson(x / y - np.log10(x / y) - 1, x=f)
+    ism = simpson(x / y - np.log(x / y) - 1, x=f)
     return ism
 
 
-- 
2.43.0


From ab6fda6b000650b30362a61cd08db7e819687d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 151/190] fix: fw_snr_seg of signals with silent frames

---
 dsptoolbox/distances/_distances.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/dsptoolbox/distances/_distances.py b/dsptoolbox/distances/_distances.py
index 780525e..6560444 100644
--- a/dsptoolbox/distances/_distances.py
+++ b/dsptoolbox/distances/_distances.py
@@ -155,6 +155,7 @@ def _fw_snr_seg_per_channel(
 
     fw_snr_seg = 0
     position = 0
+    n_active_frames = 0
     # Loop for time frames
     for _ in range(n_frames):
         # Time signals
@@ -172,14 +173,25 @@ def _fw_snr_seg_per_channel(
 
             # Normalization of spectra: probably for avoiding scaling
             # inconsistencies when total energy in the signals is not the same
-            X_jm /= np.sum(X_jm)
-            Xhat_jm /= np.sum(Xhat_jm)
-
-            snr_jm += np.log10(X_jm**2 / (X_jm - Xhat_jm + eps) ** 2) * W_jm
-            weights_jm += W_jm
-
-        # Mean SNR over all frequencies
-        snr_frame = np.mean(10 * snr_jm / weights_jm)
+            # (silence stays silence)
+            X_jm /= max(np.sum(X_jm), eps)
+            Xhat_jm /= max(np.sum(Xhat_jm), eps)
+
+            # Silent frequencies have no weight
+            active = (X_jm > 0.0) & (W_jm > 0.0)
+            snr_jm[active] += (
+                np.log10(X_jm**2 / (X_jm - Xhat_jm + eps) ** 2)[active]
+                * W_jm[active]
+            )
+            weights_jm += W_jm * active
+
+        # Mean SNR over all frequencies, silent frames are not regarded
+        active = weights_jm > 0.0
+        if not np.any(active):
+            position += step_samples
+            continue
+        n_active_frames += 1
+        snr_frame = np.mean(10 * snr_jm[active] / weights_jm[active])
 
         # Range dB
         if snr_frame < snr_range_db[0]:
@@ -191,5 +203,5 @@ def _fw_snr_seg_per_channel(
         # Updating position
         position += step_samples
 
-    fw_snr_seg /= n_frames
+    fw_snr_seg /= max(n_active_frames, 1)
     return fw_snr_seg
-- 
2.43.0


From 525549feb2b32c124f8edeb77b6dc6c84bd07145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 152/190] fix: spectral distances disregard 0 Hz of detrended
 spectra

---
 dsptoolbox/distances/distances.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 0e848b3..bc350ae 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -94,6 +94,9 @@ def log_spectral(
         psd2 = psd2**2
 
     ids = find_nearest_points_index_in_vector(f_range_hz, f)
+    if insig1._spectrum_parameters["detrend"]:
+        # The mean value was removed: there is only rounding noise at 0 Hz
+        ids[0] = max(ids[0], 1)
     f = f[ids[0] : ids[1]]
 
     distances = np.zeros(insig1.number_of_channels)
@@ -182,6 +185,9 @@ def itakura_saito(
         psd2 = psd2**2
 
     ids = find_nearest_points_index_in_vector(f_range_hz, f)
+    if insig1._spectrum_parameters["detrend"]:
+        # The mean value was removed: there is only rounding noise at 0 Hz
+        ids[0] = max(ids[0], 1)
     f = f[ids[0] : ids[1]]
 
     distances = np.zeros(insig1.number_of_channels)
-- 
2.43.0


From 3972b0f4415d2cd5a3dd4a4a02f0b9282655a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:30 +0000
Subject: [PATCH 153/190] fix: fw_snr_seg of frames with very low level

---
 dsptoolbox/distances/_distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/distances/_distances.py b/dsptoolbox/distances/_distances.py
index 6560444..3825e51 100644
--- a/dsptoolbox/distances/_distances.py
+++ b/dsptoolbox/distances/_distances.py
@@ -174,8 +174,8 @@ def _fw_snr_seg_per_channel(
             # Normalization of spectra: probably for avoiding scaling
             # inconsistencies when total energy in the signals is not the same
             # (silence stays silence)
-            X_jm /= max(np.sum(X_jm), eps)
-            Xhat_jm /= max(np.sum(Xhat_jm), eps)
+            X_jm /= np.sum(X_jm) or 1.0
+            Xhat_jm /= np.sum(Xhat_jm) or 1.0
 
             # Silent frequencies have no weight
             active = (X_jm > 0.0) & (W_jm > 0.0)
-- 
2.43.0


From 295e0ea2c1df24739fe9eb89b1bc0f2813b1f687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 154/190] fix: frequency vector of vqt for any number of bins
 per octave

---
 dsptoolbox/transforms/transforms.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 9f12d54..2bc8a58 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -927,9 +927,7 @@ def vqt(
 
     # Invert frequency axis
     cqt = np.flip(cqt, axis=0)
-    f = a4_tuning * 2 ** (
-        np.arange(octaves[0] - 4 - 9 / 12, octaves[1] - 4 + 2 / 12, 1 / 12)
-    )
+    f = highest_f * 2 ** (-np.arange(octs * bins_per_octave)[::-1] / bins_per_octave)
     return f, cqt
 
 
-- 
2.43.0


From ae788944e02e8715752ad09802e538d3f35d5528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 155/190] fix: gamma of vqt in Hz

---
 dsptoolbox/transforms/transforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 2bc8a58..06dea12 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -892,11 +892,6 @@ def vqt(
     mid_fs = signal.sampling_rate_hz // decimation
     td = resample_poly(td, up=1, down=decimation, axis=0)
 
-    # Gamma adaptation
-    gamma = gamma / signal.sampling_rate_hz * mid_fs
-
-    kernels = _get_kernels_vqt(q, highest_f, bins_per_octave, mid_fs, window, gamma)
-
     octs = octaves[1] - octaves[0] + 1
     cqt = np.zeros(
         (0, signal.time_data.shape[0], td.shape[1]),
@@ -907,6 +902,11 @@ def vqt(
         # Accumulator for octave
         acc = np.zeros((0, td.shape[0], td.shape[1]), dtype=np.complex128)
 
+        # The kernels are defined for the highest octave. The bandwidth
+        # extension remains the same in Hz for the lower ones
+        kernels = _get_kernels_vqt(
+            q, highest_f, bins_per_octave, mid_fs, window, gamma * 2**oc
+        )
         for k in kernels:
             out = oaconvolve(td, k[..., None], mode="same", axes=0)
             acc = np.append(acc, out[None, ...], axis=0)
-- 
2.43.0


From a1a78d0cb5e1b78f627f4031c17ff8f003746456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 156/190] fix: sampling rate of the kernels in vqt

---
 dsptoolbox/transforms/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 06dea12..c07eb67 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -889,7 +889,10 @@ def vqt(
     # Find necessary sampling rate, i.e., one with nyquist just above
     # highest frequency. This delivers the necessary decimation factor.
     decimation = int((signal.sampling_rate_hz // 2) / (highest_f * 1.1))
-    mid_fs = signal.sampling_rate_hz // decimation
+    assert (
+        decimation > 0
+    ), "The highest octave is beyond the nyquist frequency of the signal"
+    mid_fs = signal.sampling_rate_hz / decimation
     td = resample_poly(td, up=1, down=decimation, axis=0)
 
     octs = octaves[1] - octaves[0] + 1
-- 
2.43.0


From 15cc4320430ed1f914540934603ff25963afaeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 157/190] fix: Bark and ERB warping factors with the sampling
 rate in kHz

---
 dsptoolbox/transforms/_transforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transforms/_transforms.py b/dsptoolbox/transforms/_transforms.py
index 2073c07..57430b8 100644
--- a/dsptoolbox/transforms/_transforms.py
+++ b/dsptoolbox/transforms/_transforms.py
@@ -445,14 +445,14 @@ def _get_warping_factor(warping_factor: float | str, fs_hz: int) -> float:
         warping_factor = warping_factor.lower()
         invert = warping_factor[-1] not in ("k", "b")
         if "bark" in warping_factor:
-            # Eq. (26)
+            # Eq. (26), sampling rate in kHz
             warping_factor = -1.0 * (
-                1.0674 * (2.0 / np.pi * np.arctan(0.06583 * fs_hz)) ** 0.5 - 0.1916
+                1.0674 * (2.0 / np.pi * np.arctan(0.06583 * fs_hz / 1e3)) ** 0.5 - 0.1916
             )
         elif "erb" in warping_factor:
-            # Eq. (30)
+            # Eq. (30), sampling rate in kHz
             warping_factor = -1.0 * (
-                0.7446 * (2.0 / np.pi * np.arctan(0.1418 * fs_hz)) ** 0.5 + 0.03237
+                0.7446 * (2.0 / np.pi * np.arctan(0.1418 * fs_hz / 1e3)) ** 0.5 + 0.03237
             )
         else:
             raise ValueError("Warping factor approximation is not supported")
-- 
2.43.0


From a235af5fcf0a967feff608529201cea45aa50ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 158/190] fix: warp accepts any real number as warping factor

---
 dsptoolbox/transforms/_transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/_transforms.py b/dsptoolbox/transforms/_transforms.py
index 57430b8..fe2b1c3 100644
--- a/dsptoolbox/transforms/_transforms.py
+++ b/dsptoolbox/transforms/_transforms.py
@@ -439,7 +439,7 @@ def _get_warping_factor(warping_factor: float | str, fs_hz: int) -> float:
       697 - 708. 10.1109/89.799695.
 
     """
-    if type(warping_factor) is float:
+    if isinstance(warping_factor, (float, int)):
         assert np.abs(warping_factor) < 1.0, "Warping factor has to be in ]-1; 1["
     elif type(warping_factor) is str:
         warping_factor = warping_factor.lower()
-- 
2.43.0


From 72722e5d5ad86e0b082116a101006940fb68209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 159/190] fix: warp with a total length above that of the
 signal

---
 dsptoolbox/transforms/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index c07eb67..ca25a07 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -1130,7 +1130,7 @@ def warp(
 
     warped_ir = ir.copy_with_new_time_data(
         _warp_time_series(
-            td if total_length is None else td[:total_length, ...],
+            td if total_length is None else _pad_trim(td, total_length),
             warping_factor,
         )
     )
-- 
2.43.0


From 1e8f1699728c8283210c98cb17e4885615cb6a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 160/190] fix: mel filters narrower than the frequency
 resolution

---
 dsptoolbox/transforms/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index ca25a07..5d4d639 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -274,6 +274,8 @@ def mel_filterbank(
         mel_filters[n, inds[ni] : inds[ni + 1]] = np.linspace(
             1, 0, inds[ni + 1] - inds[ni], endpoint=False
         )
+        # Also for filters narrower than the frequency resolution
+        mel_filters[n, inds[ni]] = 1.0
         if normalize:
             mel_filters[n, :] /= np.sum(mel_filters[n, :])
     return mel_filters, mel_center_freqs[1:-1]
-- 
2.43.0


From 2be8685b1121d8932e5f2f851d1f21b8292ac488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:26 +0000
Subject: [PATCH 161/190] fix: plot_waterfall of any channel

---
 dsptoolbox/transforms/transforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 5d4d639..aa362f4 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -313,19 +313,19 @@ def plot_waterfall(
         Axes.
 
     """
-    assert dynamic_range_db > 0, "Dynamic range has to be more than 0"
+    assert dynamic_range_db is None or dynamic_range_db > 0, "Dynamic range has to be more than 0"
     sig = sig.get_channels(channel)
     if stft_parameters is not None:
         sig.set_spectrogram_parameters(**stft_parameters)
     t, f, stft = sig.get_spectrogram()
 
-    amplitude_scaling = sig.spectrum_scaling.is_amplitude_scaling()
+    amplitude_scaling = sig._spectrogram_parameters["scaling"].is_amplitude_scaling()
     fig, ax = plt.subplots(figsize=(10, 8), subplot_kw=dict(projection="3d"))
     tt, ff = np.meshgrid(t, f)
     ax.plot_surface(
         tt,
         ff,
-        to_db(stft[..., channel], amplitude_scaling, dynamic_range_db),
+        to_db(stft[..., 0], amplitude_scaling, dynamic_range_db),
         cmap="magma",
     )
     ax.set_xlabel("Time / s")
-- 
2.43.0


From 588320738fa76af39ad32dab1078827acde972ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 162/190] fix: linear prediction of silent frames

---
 dsptoolbox/helpers/ar_estimation.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index eef3a01..7794de2 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -26,6 +26,7 @@ def _levison_durbin_recursion(
 
     """
     prediction_error = autocorrelation[0, ...].copy()  # Signal variance
+    silent = prediction_error == 0.0  # There is nothing to predict
     autocorr_coefficients = autocorrelation[1:, ...].copy()
 
     num_coefficients = autocorr_coefficients.shape[0]
@@ -33,16 +34,16 @@ def _levison_durbin_recursion(
 
     for order in range(num_coefficients):
         reflection_value = autocorr_coefficients[order].copy()
-        if order == 0:
-            reflection_coefficient = -reflection_value / prediction_error
-        else:
+        if order > 0:
             for lag in range(order):
                 reflection_value += (
                     ar_parameters[lag] * autocorr_coefficients[order - lag - 1]
                 )
-            reflection_coefficient = -reflection_value / prediction_error
+        reflection_coefficient = -reflection_value / np.where(
+            silent, 1.0, prediction_error
+        )
         prediction_error *= 1.0 - reflection_coefficient**2.0
-        if np.any(prediction_error <= 0):
+        if np.any((prediction_error <= 0) & ~silent):
             raise ValueError("Invalid prediction error: Singular Matrix")
         ar_parameters[order] = reflection_coefficient
 
-- 
2.43.0


From 906b8a1a5961fe2854e97559caba3cffcfbbca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 163/190] fix: shape of Burg's coefficients

---
 dsptoolbox/helpers/ar_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index 7794de2..8a281ab 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -167,7 +167,7 @@ def _burg_ar_estimation(
         ar_coeffs = np.zeros((order + 1, 1))
     else:
         shape = list(time_data.shape)
-        shape[0] += 1
+        shape[0] = order + 1
         ar_coeffs = np.zeros(tuple(shape))
 
     ar_coeffs[0] = 1.0
-- 
2.43.0


From bfd9a7fcf9791a1a5eed62bd4a4a9a99eb91dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 164/190] fix: variance of the prediction error with Burg's
 method

---
 dsptoolbox/helpers/ar_estimation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/ar_estimation.py b/dsptoolbox/helpers/ar_estimation.py
index 8a281ab..87ab9d1 100644
--- a/dsptoolbox/helpers/ar_estimation.py
+++ b/dsptoolbox/helpers/ar_estimation.py
@@ -178,6 +178,7 @@ def _burg_ar_estimation(
     den = reflect_coeff.copy()
 
     epsilon = np.finfo(np.float64).eps
+    variance = np.mean(time_data**2, axis=0)
 
     fwd_pred_error = time_data[1:]
     bwd_pred_error = time_data[:-1]
@@ -198,9 +199,10 @@ def _burg_ar_estimation(
         bwd_pred_error = bwd_pred_error + reflect_coeff * fwd_pred_error_tmp
 
         q = 1.0 - reflect_coeff[0] ** 2
+        variance = variance * q
         den[0] = q * den[0] - bwd_pred_error[-1] ** 2 - fwd_pred_error[0] ** 2
 
         fwd_pred_error = fwd_pred_error[1:]
         bwd_pred_error = bwd_pred_error[:-1]
 
-    return ar_coeffs.squeeze() if onedim else ar_coeffs, den[0]
+    return ar_coeffs.squeeze() if onedim else ar_coeffs, variance
-- 
2.43.0


From 1f4be2c58b95ec84e8ed61f67973f932c2cfc1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 165/190] fix: mel and chroma features from spectrograms with
 power scaling

---
 dsptoolbox/transforms/transforms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index aa362f4..558b65c 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -178,7 +178,9 @@ def log_mel_spectrogram(
     time_s, f_hz, sp = s.get_spectrogram()
 
     mfilt, f_mel = mel_filterbank(f_hz, range_hz, n_bands, normalize=True)
-    log_mel_sp = np.tensordot(mfilt, np.abs(sp) ** 2.0, axes=(-1, 0))
+    if s._spectrogram_parameters["scaling"].is_amplitude_scaling():
+        sp = np.abs(sp) ** 2.0
+    log_mel_sp = np.tensordot(mfilt, sp, axes=(-1, 0))
 
     log_mel_sp = to_db(log_mel_sp, False)
 
@@ -421,7 +423,9 @@ def mfcc(
         f_mel = np.array([0, mel_filters.shape[0]])
 
     # Convert from Hz to Mel
-    sp = np.tensordot(mel_filters, np.abs(sp) ** 2.0, axes=(-1, 0))
+    if signal._spectrogram_parameters["scaling"].is_amplitude_scaling():
+        sp = np.abs(sp) ** 2.0
+    sp = np.tensordot(mel_filters, sp, axes=(-1, 0))
 
     # Get Log power spectrum
     log_sp = to_db(sp, False)
@@ -652,7 +656,8 @@ def chroma_stft(
     t, f, stft = signal.get_spectrogram()
 
     # Energy
-    stft = np.abs(stft) ** 2
+    if signal._spectrogram_parameters["scaling"].is_amplitude_scaling():
+        stft = np.abs(stft) ** 2
 
     # Get frequencies
     pitch_frequencies = _pitch2frequency(tuning_a_hz)
-- 
2.43.0


From b2ae4f4e842e330347be8e6b9bd3c31c3c67abf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 166/190] fix: distance between coinciding points

---
 dsptoolbox/helpers/other.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index 9964ce1..0134571 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -2,6 +2,7 @@ from os import sep
 import numpy as np
 from numpy.typing import NDArray
 from scipy.linalg import toeplitz as toeplitz_scipy
+from scipy.spatial.distance import cdist
 
 from .gain_and_level import to_db
 
@@ -146,11 +147,7 @@ def _euclidean_distance_matrix(x: NDArray[np.float64], y: NDArray[np.float64]):
     """
     assert x.ndim == 2 and y.ndim == 2, "Inputs must have exactly two dimensions"
     assert x.shape[1] == y.shape[1], "Dimensions do not match"
-    return np.sqrt(
-        np.sum(x**2, axis=1, keepdims=True)
-        + np.sum(y.T**2, axis=0, keepdims=True)
-        - 2 * x @ y.T
-    )
+    return cdist(x, y)
 
 
 def _get_fractional_octave_bandwidth(
-- 
2.43.0


From a7949933963db5f4705fc6fa56ab465920e1ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 167/190] fix: grids and microphone arrays with a single point

---
 dsptoolbox/beamforming/_beamforming.py | 15 ++++++++-------
 dsptoolbox/beamforming/beamforming.py  | 20 ++++++++++----------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/dsptoolbox/beamforming/_beamforming.py b/dsptoolbox/beamforming/_beamforming.py
index 4967479..7e8ce06 100644
--- a/dsptoolbox/beamforming/_beamforming.py
+++ b/dsptoolbox/beamforming/_beamforming.py
@@ -41,9 +41,9 @@ class BasePoints:
         """
         for i in ("x", "y", "z"):
             assert i in positions, f"{i} values are missing"
-        x = np.asarray(positions["x"]).squeeze()[None, ...]
-        y = np.asarray(positions["y"]).squeeze()[None, ...]
-        z = np.asarray(positions["z"]).squeeze()[None, ...]
+        x = np.atleast_1d(np.asarray(positions["x"]).squeeze())[None, ...]
+        y = np.atleast_1d(np.asarray(positions["y"]).squeeze())[None, ...]
+        z = np.atleast_1d(np.asarray(positions["z"]).squeeze())[None, ...]
         assert (
             x.shape == y.shape and x.shape == z.shape
         ), "Shapes of x, y or z are not compatible"
@@ -104,14 +104,15 @@ class BasePoints:
             Distances with shape (points, new_points).
 
         """
-        if type(point) is not NDArray[np.float64]:
-            point = np.asarray(point)
-        if point.ndim == 1:
+        point = np.asarray(point)
+        single_point = point.ndim == 1
+        if single_point:
             point = point[None, ...]
         assert (
             point.shape[1] == self.coordinates.shape[1]
         ), f"Invalid shapes: {point.shape}, {self.coordinates.shape}"
-        return _euclidean_distance_matrix(self.coordinates, point).squeeze()
+        distances = _euclidean_distance_matrix(self.coordinates, point)
+        return distances[:, 0] if single_point else distances
 
     # ======== Plotting =======================================================
     def plot_points(self, projection: str | None = None):
diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index d6ed7be..e1dd2bb 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -127,8 +127,8 @@ class Regular2DGrid(Grid):
         value3 = np.asarray(value3).squeeze()
         assert value3.ndim == 0, "value3 can only be a single value"
 
-        line1 = np.asarray(line1).squeeze()
-        line2 = np.asarray(line2).squeeze()
+        line1 = np.atleast_1d(np.asarray(line1).squeeze())
+        line2 = np.atleast_1d(np.asarray(line2).squeeze())
 
         # For reconstructing the matrix later
         self.original_lengths = (len(line1), len(line2))
@@ -247,9 +247,9 @@ class Regular3DGrid(Grid):
         - `plot_map()`: Plots a given map (reconstructed or flattened).
 
         """
-        line_x = np.asarray(line_x).squeeze()
-        line_y = np.asarray(line_y).squeeze()
-        line_z = np.asarray(line_z).squeeze()
+        line_x = np.atleast_1d(np.asarray(line_x).squeeze())
+        line_y = np.atleast_1d(np.asarray(line_y).squeeze())
+        line_z = np.atleast_1d(np.asarray(line_z).squeeze())
         self.lines = (line_x, line_y, line_z)
         assert all([n.ndim == 1 for n in self.lines]), "Shape of lines is invalid"
 
@@ -873,7 +873,7 @@ class BeamformerDASFrequency(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1000,7 +1000,7 @@ class BeamformerCleanSC(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1117,7 +1117,7 @@ class BeamformerOrthogonal(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1213,7 +1213,7 @@ class BeamformerFunctional(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1307,7 +1307,7 @@ class BeamformerMVDR(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
-- 
2.43.0


From ee61d9e3114251c7c37b0049ff2b1cabd1e81e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 168/190] fix: new coordinates of a microphone array

---
 dsptoolbox/beamforming/_beamforming.py |  2 +-
 dsptoolbox/beamforming/beamforming.py  | 13 +++++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/beamforming/_beamforming.py b/dsptoolbox/beamforming/_beamforming.py
index 7e8ce06..2cccc95 100644
--- a/dsptoolbox/beamforming/_beamforming.py
+++ b/dsptoolbox/beamforming/_beamforming.py
@@ -75,7 +75,7 @@ class BasePoints:
                 dimensions.remove(base_dimensions[i])
         self.dim = dimensions
         self.ndim = ndimensions
-        self._coordinates = new_r
+        self._coordinates = new_r.copy()
 
     @property
     def extent(self):
diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index e1dd2bb..896f85a 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -477,6 +477,19 @@ class MicArray(BasePoints):
         self.__min_distance = None
 
     # ======== Properties =====================================================
+    @property
+    def coordinates(self) -> NDArray[np.float64]:
+        return super().coordinates
+
+    @coordinates.setter
+    def coordinates(self, new_r):
+        BasePoints.coordinates.fset(self, new_r)
+        # These must be computed anew for the new coordinates
+        self.__array_center_coordinates = None
+        self.__array_center_channel_number = None
+        self.__aperture = None
+        self.__min_distance = None
+
     @property
     def aperture(self):
         if self.__aperture is None:
-- 
2.43.0


From d89dbb91a13293ad6f813db1b729b3f930826247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 169/190] fix: type and frequency range in a beamformer's info

---
 dsptoolbox/beamforming/beamforming.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 896f85a..4bbc850 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -661,6 +661,8 @@ class SteeringVector:
 class BaseBeamformer:
     """Base class for a beamformer."""
 
+    beamformer_type = "Base"
+
     def __init__(
         self, multi_channel_signal: Signal, mic_array: MicArray, c: float = 343
     ):
@@ -688,7 +690,6 @@ class BaseBeamformer:
         self.signal = multi_channel_signal
         self.mics = mic_array
         self.c = c
-        self.beamformer_type = "Base"
 
     # ======== Prints and plots ===============================================
     def plot_setting(self) -> tuple[Figure, Axes]:
@@ -754,7 +755,7 @@ class BaseBeamformer:
         txt += f"""Aperture: {self.mics.aperture}\n"""
         txt += f"""Min mic distance: {self.mics.min_distance}\n"""
         txt += f"""Recommended f range: {self.mics.
-                                         get_maximum_frequency_range()}\n"""
+                                         get_maximum_frequency_range(c=self.c)}\n"""
         txt += f"""Number of mics: {self.mics.number_of_points}\n"""
         if hasattr(self, "grid"):
             if self.grid is not None:
-- 
2.43.0


From 8d90163da8633bff126ba795f5330d7a91bd70ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 170/190] fix: relative levels of simulated and focused signals

---
 dsptoolbox/beamforming/beamforming.py | 93 +++++++++++++--------------
 1 file changed, 46 insertions(+), 47 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 4bbc850..926e150 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -17,7 +17,7 @@ from ..helpers.other import (
 )
 from ..helpers.gain_and_level import to_db
 from ..classes import Signal
-from .. import fractional_delay, append_signals, pad_trim
+from .. import fractional_delay, pad_trim
 from ._beamforming import BasePoints, _clean_sc_deconvolve
 from ..plots import general_matrix_plot
 from .enums import SteeringVectorType
@@ -1370,9 +1370,6 @@ class BeamformerDASTime(BaseBeamformer):
         print("\n" + txt)
         print("-" * len(txt))
         print("...get delays...")
-        # Start Signal from one channel
-        out_sig = self.signal.get_channels(0)
-
         # Get maximal distance in order to delay all signals to that
         ds = self.mics.get_distances_to_point(self.grid.coordinates)
         min_distance = np.min(ds)
@@ -1383,8 +1380,12 @@ class BeamformerDASTime(BaseBeamformer):
             (r0 - min_distance) / self.c * self.signal.sampling_rate_hz
         )
         longest_delay_samples = int(longest_delay_samples + 2)
-        total_length_samples = out_sig.time_data.shape[0] + longest_delay_samples
-        out_sig = pad_trim(out_sig, total_length_samples)
+        total_length_samples = self.signal.length_samples + longest_delay_samples
+        output = np.zeros((total_length_samples, self.grid.number_of_points))
+
+        # Amplitudes are only to be constrained (if at all) in the output
+        signal = self.signal.copy()
+        signal.constrain_amplitude = False
 
         # Start computation for each grid point
         print("...grid focusing...")
@@ -1392,18 +1393,14 @@ class BeamformerDASTime(BaseBeamformer):
             if ig == self.grid.number_of_points // 2:
                 print(r"...50% grid done...")
             delays = (r0 - ds[:, ig]) / self.c
-            # Accumulator
-            new_time_data = np.zeros((total_length_samples, 1))
             for im in range(self.mics.number_of_points):
                 ntd = (
-                    fractional_delay(self.signal.get_channels(im), delays[im]).time_data
+                    fractional_delay(signal.get_channels(im), delays[im]).time_data
                     * ds[im, ig]
                 )
-                new_time_data += _pad_trim(ntd, total_length_samples)
-            new_time_data /= self.mics.number_of_points
-            out_sig.add_channel(None, new_time_data, out_sig.sampling_rate_hz)
-        out_sig.remove_channel(0)
-        return out_sig
+                output[:, ig] += _pad_trim(ntd, total_length_samples)[:, 0]
+        output /= self.mics.number_of_points
+        return self.signal.copy_with_new_time_data(output)
 
 
 class MonopoleSource:
@@ -1455,19 +1452,17 @@ class MonopoleSource:
         distances = mics.get_distances_to_point(self.coordinates)
         delays = distances / c
 
-        multi_channel_signal = self.emitted_signal.copy()
+        # Amplitudes are only to be constrained (if at all) in the output
+        emitted_signal = self.emitted_signal.copy()
+        emitted_signal.constrain_amplitude = False
+
+        output = np.zeros((emitted_signal.length_samples, len(distances)))
         for i in range(len(distances)):
             # Delay
-            ns = fractional_delay(self.emitted_signal, delays[i], keep_length=True)
+            ns = fractional_delay(emitted_signal, delays[i], keep_length=True)
             # Amplitude scaling – 1 on point and decays with distance
-            ns.time_data /= 1.0 + distances[i]
-            # Append to final signal
-            multi_channel_signal = append_signals(
-                [multi_channel_signal, ns], allow_padding_trimming=True
-            )
-        # Remove original signal
-        multi_channel_signal.remove_channel(0)
-        return multi_channel_signal
+            output[:, i] = ns.time_data[:, 0] / (1.0 + distances[i])
+        return self.emitted_signal.copy_with_new_time_data(output)
 
 
 def mix_sources_on_array(
@@ -1499,29 +1494,33 @@ def mix_sources_on_array(
     assert all(
         [type(i) is MonopoleSource for i in sources]
     ), "All sources in list should be of type Source"
-    # Take first source
-    multi_channel_sig = sources[0].get_signals_on_array(mics, c)
-    total_length_samples = multi_channel_sig.time_data.shape[0]
-
-    # Add all other sources progressively checking for shortest duration
-    for s in sources[1:]:
-        # Warning if lengths do not match
-        if total_length_samples != s.emitted_signal.time_data.shape[0]:
-            warn(
-                "Emitted signals from sources differ in length. Trimming to "
-                "shortest will be done"
-            )
-            total_length_samples = min(
-                total_length_samples, s.emitted_signal.time_data.shape[0]
-            )
-            multi_channel_sig = pad_trim(multi_channel_sig, total_length_samples)
-            s = MonopoleSource(
-                pad_trim(s.emitted_signal, total_length_samples), s.coordinates
-            )
-        # Add to multi-channel data
-        ns = s.get_signals_on_array(mics, c)
-        multi_channel_sig.time_data += ns.time_data
-    return multi_channel_sig
+    assert all(
+        [
+            s.emitted_signal.sampling_rate_hz
+            == sources[0].emitted_signal.sampling_rate_hz
+            for s in sources
+        ]
+    ), "Sampling rates of the emitted signals do not match"
+
+    # Warning if lengths do not match
+    lengths = [s.emitted_signal.length_samples for s in sources]
+    total_length_samples = min(lengths)
+    if total_length_samples != max(lengths):
+        warn(
+            "Emitted signals from sources differ in length. Trimming to "
+            "shortest will be done"
+        )
+
+    # Amplitudes are only to be constrained (if at all) in the output
+    output = np.zeros((total_length_samples, mics.number_of_points))
+    for s in sources:
+        emitted_signal = s.emitted_signal.copy()
+        emitted_signal.constrain_amplitude = False
+        s = MonopoleSource(
+            pad_trim(emitted_signal, total_length_samples), s.coordinates
+        )
+        output += s.get_signals_on_array(mics, c).time_data
+    return sources[0].emitted_signal.copy_with_new_time_data(output)
 
 
 # ========== Steering vector formulations =====================================
-- 
2.43.0


From a7ab8961f3c85daddc7e90136314c71df049f214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 171/190] fix: orthogonal beamforming with several eigenvalues
 in one grid point

---
 dsptoolbox/beamforming/beamforming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 926e150..8cb0cb0 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1125,7 +1125,7 @@ class BeamformerOrthogonal(BeamformerGridded):
                 # Find largest value
                 source_ind = np.argmax(eig_map[eig, :, find])
                 # Scale by eigenvalue and pass to final map
-                map[source_ind, find] = eig_map[eig, source_ind, find] * w[-eig - 1]
+                map[source_ind, find] += eig_map[eig, source_ind, find] * w[-eig - 1]
 
         # Integrate over all frequencies
         if number_frequency_bins > 1:
-- 
2.43.0


From ac74eef1d7d988b813676cb500a4314050314f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 172/190] fix: CLEAN-SC with the diagonal of the CSM

---
 dsptoolbox/beamforming/_beamforming.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/beamforming/_beamforming.py b/dsptoolbox/beamforming/_beamforming.py
index 2cccc95..54c7cfd 100644
--- a/dsptoolbox/beamforming/_beamforming.py
+++ b/dsptoolbox/beamforming/_beamforming.py
@@ -273,11 +273,14 @@ def _clean_sc_deconvolve(
         w_max_squared = w_max.conjugate() * w_max
         D_ = D[1, :, :] @ w_max / maximum_power
 
-        # Computation of G, according to [1], only a couple iterations
-        # are needed; following acoular, 20 are used here
-        for _ in range(20):
-            H = h_.conjugate() * h_
-            h_ = (D_ + H * w_max) / np.sqrt(1 + H @ w_max_squared)
+        if remove_diagonal_csm:
+            # Computation of G, according to [1], only a couple iterations
+            # are needed; following acoular, 20 are used here
+            for _ in range(20):
+                H = h_.conjugate() * h_
+                h_ = (D_ + H * w_max) / np.sqrt(1 + H @ w_max_squared)
+        else:
+            h_ = D_
 
         G = np.outer(h_, h_.conjugate()) * maximum_power
 
-- 
2.43.0


From 6e9ed3582d9e79766b0ec733ec99e0037e1b1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:47 +0000
Subject: [PATCH 173/190] fix: distortionless response of the MVDR beamformer

---
 dsptoolbox/beamforming/beamforming.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 8cb0cb0..bb9efb1 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1310,8 +1310,10 @@ class BeamformerMVDR(BeamformerGridded):
         for find in range(len(f)):
             csm_1 = np.linalg.inv(csm[find, :, :])
             for gind in range(self.grid.number_of_points):
+                # Distortionless response to the source h / |h|**2
+                steering_normalization = (h_H[find, gind, :] @ h[find, :, gind]).real
                 map[gind, find] = (
-                    1
+                    steering_normalization**2.0
                     / np.linalg.multi_dot(
                         [h_H[find, gind, :], csm_1, h[find, :, gind]]
                     ).real
-- 
2.43.0


From 55e4ea9c31987b7b53c397b4b790ab24f027ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 174/190] fix: CLEAN-SC of a completely removed source

---
 dsptoolbox/beamforming/_beamforming.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/beamforming/_beamforming.py b/dsptoolbox/beamforming/_beamforming.py
index 54c7cfd..0d6d3b4 100644
--- a/dsptoolbox/beamforming/_beamforming.py
+++ b/dsptoolbox/beamforming/_beamforming.py
@@ -252,6 +252,8 @@ def _clean_sc_deconvolve(
         # Find maximum in map
         maximum_power_ind = np.argmax(map)
         maximum_power = map[maximum_power_ind]
+        if maximum_power <= 0.0:
+            break  # Everything has been removed
 
         # Store maximum value
         second_map[maximum_power_ind] += maximum_power * safety_factor
-- 
2.43.0


From b342fb1b7c56ecee16925b49ce78d4cab1e144de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 175/190] fix: calibration with a low signal-to-noise ratio

---
 dsptoolbox/classes/calibration_data.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/calibration_data.py b/dsptoolbox/classes/calibration_data.py
index b026879..5b13b63 100644
--- a/dsptoolbox/classes/calibration_data.py
+++ b/dsptoolbox/classes/calibration_data.py
@@ -2,6 +2,7 @@ import numpy as np
 from numpy.typing import NDArray
 
 from ..standard import append_signals, rms
+from ..standard.enums import SpectrumMethod, SpectrumScaling
 from .signal import Signal
 from .multibandsignal import MultiBandSignal
 
@@ -116,10 +117,13 @@ class CalibrationData:
             self.__update = False
 
     def _get_rms_from_spectrum(self):
-        self.calibration_signal.set_spectrum_parameters(
-            method="standard", scaling="amplitude spectrum"
+        calibration_signal = self.calibration_signal.copy()
+        calibration_signal.set_spectrum_parameters(
+            SpectrumMethod.FFT,
+            pad_to_fast_length=False,
+            scaling=SpectrumScaling.AmplitudeSpectrum,
         )
-        f, sp = self.calibration_signal.get_spectrum()
+        f, sp = calibration_signal.get_spectrum()
         ind1k = np.argmin(np.abs(f - 1e3))
         return np.abs(sp[ind1k, :])
 
-- 
2.43.0


From f1fc3d3ae318935e358cfef632963b486a7af4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:21 +0000
Subject: [PATCH 176/190] fix: order of the playback channels and duration of
 play_and_record

---
 dsptoolbox/audio_io/audio_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/audio_io/audio_io.py b/dsptoolbox/audio_io/audio_io.py
index ef12038..f7426ce 100644
--- a/dsptoolbox/audio_io/audio_io.py
+++ b/dsptoolbox/audio_io/audio_io.py
@@ -246,7 +246,7 @@ def play_and_record(
         play_channels = [play_channels]
     if type(rec_channels) is int:
         rec_channels = [rec_channels]
-    play_channels = sorted(play_channels)
+    play_channels = list(play_channels)  # In the order of the signal's channels
     rec_channels = sorted(rec_channels)
     assert signal.number_of_channels == len(play_channels), (
         "The number of channels in signal does not match the number of "
@@ -259,7 +259,7 @@ def play_and_record(
     #
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-        duration_samples = duration_seconds * signal.sampling_rate_hz
+        duration_samples = int(duration_seconds * signal.sampling_rate_hz)
     else:
         duration_seconds = signal.time_data.shape[0] / signal.sampling_rate_hz
         duration_samples = signal.time_data.shape[0]
@@ -378,7 +378,7 @@ def play(
         play_channels = list(range(1, signal.number_of_channels + 1))
     if type(play_channels) is int:
         play_channels = [play_channels]
-    play_channels = sorted(play_channels)
+    play_channels = list(play_channels)  # In the order of the signal's channels
     assert not any([r < 1 for r in play_channels]), "Play channel has to be 1 or more"
     if duration_seconds is not None:
         assert duration_seconds > 0, "Duration must be positive"
-- 
2.43.0


From c2be3e4e168a320b7e4c56932e9739049c11cfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:30 +0000
Subject: [PATCH 177/190] fix: phase spectrum which is already that of a real
 signal

---
 dsptoolbox/classes/group_delay_designer_phase_linearizer.py | 3 ++-
 dsptoolbox/helpers/spectrum_utilities.py                    | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
index 6cd7e99..d8a58e3 100644
--- a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
+++ b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
@@ -193,8 +193,9 @@ class FirDesigner:
         # Correct if nyquist is given
         add_extra_sample = False
         if gd_time_length_samples % 2 == 0 and self.ensure_integer_delay:
-            add_extra_sample = new_phase[-1] % np.pi > np.pi / 2.0
+            last_phase = new_phase[-1]
             new_phase = _correct_for_real_phase_spectrum(new_phase)
+            add_extra_sample = last_phase - new_phase[-1] > np.pi / 2.0
 
         # Convert to time domain
         ir = np.fft.irfft(
diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 0b6901b..1c0f53e 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -247,6 +247,8 @@ def _correct_for_real_phase_spectrum(phase_spectrum: NDArray[np.float64]):
 
     """
     factor = phase_spectrum[-1] % np.pi
+    # Already a multiple of pi (up to rounding errors)
+    factor = np.where(np.isclose(factor, np.pi), 0.0, factor)
 
     # Single dimension
     if phase_spectrum.ndim == 1:
-- 
2.43.0


From 0b0950210daf359be84f5c1c63229862acf48f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 178/190] fix: rejected parameters of the phase linearizer are
 not kept

---
 dsptoolbox/classes/group_delay_designer_phase_linearizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
index d8a58e3..a6eb52d 100644
--- a/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
+++ b/dsptoolbox/classes/group_delay_designer_phase_linearizer.py
@@ -320,13 +320,14 @@ class PhaseLinearizer(GroupDelayDesigner):
 
         """
         assert delay_increase_percent >= 0, "Delay increase must be larger than zero"
-        self.group_delay_increase_factor = 1 + delay_increase_percent / 100
-        return super().set_parameters(
+        super().set_parameters(
             0.0,
             additional_length_samples,
             trapezoidal_integration,
             ensure_integer_delay=ensure_integer_delay,
         )
+        self.group_delay_increase_factor = 1 + delay_increase_percent / 100
+        return self
 
     def __get_group_delay(self, phase_response) -> NDArray[np.float64]:
         """Return the unscaled group delay from the phase response."""
-- 
2.43.0


From 65feea64c84a0fb32c2c32d76a4e795ef3ad7c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 179/190] fix: magnitude plot of the state variable filter

---
 dsptoolbox/classes/sv_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index f0cabd0..3c54295 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -12,7 +12,7 @@ from .signal import Signal
 from .multibandsignal import MultiBandSignal
 from ..generators import dirac
 from .realtime_filter import RealtimeFilter
-from ..standard.enums import SpectrumMethod
+from ..standard.enums import MagnitudeNormalization, SpectrumMethod
 
 
 class StateVariableFilter(RealtimeFilter):
@@ -191,7 +191,7 @@ class StateVariableFilter(RealtimeFilter):
         d.spectrum_method = SpectrumMethod.FFT
         fig, ax = d.plot_magnitude(
             range_hz=range_hz,
-            normalize=None,
+            normalize=MagnitudeNormalization.NoNormalization,
             range_db=range_db,
             smoothing=0,
         )
-- 
2.43.0


From 23c00f8457de4f152c0533aedd71569fbb268d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 180/190] fix: magnitude plot of a downsampling crossover

---
 dsptoolbox/filterbanks/_filterbank.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/filterbanks/_filterbank.py b/dsptoolbox/filterbanks/_filterbank.py
index 5779a29..de69302 100644
--- a/dsptoolbox/filterbanks/_filterbank.py
+++ b/dsptoolbox/filterbanks/_filterbank.py
@@ -1024,12 +1024,12 @@ class BaseCrossover(FilterBank):
         if mode == FilterBankMode.Parallel:
             bs = self.filter_signal(d, mode=mode, downsample=True)
             specs = []
-            f = bs.bands[0].get_spectrum()[0]
             for b in bs.bands:
                 b.spectrum_method = SpectrumMethod.FFT
+                f, sp_band = b.get_spectrum()
                 f, sp = _get_normalized_spectrum(
                     f=f,
-                    spectra=np.squeeze(b.get_spectrum()[1]),
+                    spectra=np.squeeze(sp_band),
                     is_amplitude_scaling=b.spectrum_scaling.is_amplitude_scaling(),
                     f_range_hz=range_hz,
                     normalize=MagnitudeNormalization.NoNormalization,
@@ -1080,7 +1080,14 @@ class BaseCrossover(FilterBank):
             bs.spectrum_method = SpectrumMethod.FFT
             f, sp = bs.get_spectrum()
             f, sp = _get_normalized_spectrum(
-                f, np.squeeze(sp), f_range_hz=range_hz, normalize=None
+                f=f,
+                spectra=np.squeeze(sp),
+                is_amplitude_scaling=bs.spectrum_scaling.is_amplitude_scaling(),
+                f_range_hz=range_hz,
+                normalize=MagnitudeNormalization.NoNormalization,
+                smoothing=0,
+                phase=False,
+                calibrated_data=False,
             )
             fig, ax = general_plot(
                 f,
-- 
2.43.0


From 005c8c0869709afcab3cc265bf1f44bb0cd78a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 181/190] fix: normalization and label of the magnitude plot of
 a spectrum

---
 dsptoolbox/classes/spectrum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 94bb66d..65f7a27 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -952,7 +952,7 @@ class Spectrum(MultichannelData):
             case MagnitudeNormalization.OneKhzFirstChannel:
                 norm_value = self.get_interpolated_spectrum(
                     np.array([1000.0]), output_type=SpectrumType.Magnitude
-                )[0]
+                )[0, 0]
                 norm = np.ones(self.number_of_channels) * norm_value
             case MagnitudeNormalization.Max:
                 norm = (
@@ -981,7 +981,7 @@ class Spectrum(MultichannelData):
             data,
             log_x=True,
             labels=[f"Channel {i}" for i in range(self.number_of_channels)],
-            ylabel="Magnitude / " + "dB" if in_db else "1",
+            ylabel="Magnitude / " + ("dB" if in_db else "1"),
         )
 
     def plot_coherence(self) -> tuple[Figure, list[Axes]]:
-- 
2.43.0


From 906199c20d26fcd5ab93ba7e886b3f30c6bba73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 182/190] fix: plot of the cross-spectral matrix

---
 dsptoolbox/classes/plots.py  | 14 ++++++++------
 dsptoolbox/classes/signal.py | 14 +++++++++++++-
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/classes/plots.py b/dsptoolbox/classes/plots.py
index bab4e72..ce59c33 100644
--- a/dsptoolbox/classes/plots.py
+++ b/dsptoolbox/classes/plots.py
@@ -31,7 +31,9 @@ def _zp_plot(z, p):
     return fig, ax
 
 
-def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
+def _csm_plot(
+    f, csm, range_x=None, log=True, with_phase=True, is_amplitude_scaling=False
+):
     """Function to plot cross-spectral matrix. Since it is very specialized,
     it is not in the plots module.
 
@@ -40,7 +42,7 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
     if range_x is not None:
         id0, id1 = find_nearest_points_index_in_vector(range_x, f)
     else:
-        id0, id1 = 0, -1
+        id0, id1 = 0, len(f)
     f = f[id0:id1]
     csm = csm[id0:id1]
     fig, ax = plt.subplots(
@@ -58,8 +60,8 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
                     ticks = ticks[(ticks > range_x[0]) & (ticks < range_x[-1])]
                 ax[c1, c2].set_xticks(ticks)
                 ax[c1, c2].get_xaxis().set_major_formatter(ScalarFormatter())
-            ax[c1, c2].plot(f, to_db(csm[:, c1, c2], False))
-            if c1 != c2:
+            ax[c1, c2].plot(f, to_db(csm[:, c1, c2], is_amplitude_scaling))
+            if with_phase and c1 != c2:
                 axRight = ax[c1, c2].twinx()
                 axRight.plot(
                     f,
@@ -69,9 +71,9 @@ def _csm_plot(f, csm, range_x=None, log=True, with_phase=True):
                     linestyle="dotted",
                 )
                 axRight.grid(False)
+                if c2 == ch - 1:
+                    axRight.set_ylabel("rad")
             if c1 == ch - 1:
                 ax[c1, c2].set_xlabel("Hz")
-            if c2 == ch - 1:
-                axRight.set_ylabel("rad")
     fig.tight_layout()
     return fig, ax
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 9e814fc..3b2b99a 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1575,7 +1575,19 @@ class Signal(MultichannelData):
 
         """
         f, csm = self.get_csm()
-        fig, ax = _csm_plot(f, csm, range_hz, True, with_phase)
+        fig, ax = _csm_plot(
+            f,
+            csm,
+            range_hz,
+            True,
+            with_phase,
+            # FFT scalings always deliver a squared CSM with the FFT method
+            self.spectrum_scaling.is_amplitude_scaling()
+            and (
+                self.spectrum_method == SpectrumMethod.WelchPeriodogram
+                or self.spectrum_scaling.has_physical_units()
+            ),
+        )
         return fig, ax
 
     # ======== Saving and copy ================================================
-- 
2.43.0


From 17cd45e8bbdb53ade6025374417b799b48941b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 183/190] fix: bode plot of a power spectrum

---
 dsptoolbox/classes/impulse_response.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 4ad4371..397021c 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -292,6 +292,8 @@ class ImpulseResponse(Signal):
         f, sp = self.get_spectrum()
         self.spectrum_smoothing = prior_smoothing
         sp_abs = np.abs(sp)
+        if not self.spectrum_scaling.is_amplitude_scaling():
+            sp_abs **= 0.5
 
         match normalize:
             case MagnitudeNormalization.OneKhz:
-- 
2.43.0


From c41f85e521134d111d8bf67f66307ad13f921010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 184/190] fix: gain at 1 kHz when it is the last frequency

---
 dsptoolbox/helpers/spectrum_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/spectrum_utilities.py b/dsptoolbox/helpers/spectrum_utilities.py
index 1c0f53e..3b5b117 100644
--- a/dsptoolbox/helpers/spectrum_utilities.py
+++ b/dsptoolbox/helpers/spectrum_utilities.py
@@ -50,7 +50,7 @@ def _get_exact_gain_1khz(f: NDArray[np.float64], sp_db: NDArray[np.float64]) ->
     )
     # Get nearest value just before
     ind = find_nearest_points_index_in_vector(1e3, f).squeeze()
-    if f[ind] > 1e3:
+    if f[ind] > 1e3 or ind == len(f) - 1:
         ind -= 1
     return (sp_db[ind + 1] - sp_db[ind]) / (f[ind + 1] - f[ind]) * (
         1e3 - f[ind]
-- 
2.43.0


From c7462cb20458a42d71c106de4b79858dafd9cade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:24 +0000
Subject: [PATCH 185/190] fix: level of the window in the level plot of a
 calibrated impulse response

---
 dsptoolbox/classes/impulse_response.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 397021c..0fc97de 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -215,6 +215,8 @@ class ImpulseResponse(Signal):
         fig, ax = super().plot_spl(normalize_at_peak, dynamic_range_db, window_length_s)
 
         peak_values = to_db(np.max(np.abs(self.time_data), axis=0), True)
+        if self.calibrated_signal:
+            peak_values -= 20 * np.log10(2e-5)
 
         max_values = (
             peak_values + 1  # Add 1 dB for better plotting
-- 
2.43.0


From 97eb5779374c2811b8ab1d1bd2af6a588c7bfa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:13 +0000
Subject: [PATCH 186/190] fix: phase plot of a power spectrum

---
 dsptoolbox/classes/impulse_response.py | 11 ++++++++---
 dsptoolbox/classes/signal.py           |  6 ++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 0fc97de..f6c54fb 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -6,7 +6,7 @@ from copy import deepcopy
 
 from .signal import Signal
 from ..helpers.gain_and_level import to_db
-from ..standard.enums import SpectrumMethod, MagnitudeNormalization
+from ..standard.enums import SpectrumMethod, SpectrumScaling, MagnitudeNormalization
 from ..plots import general_plot_two_axes
 
 from ..helpers.spectrum_utilities import _get_exact_gain_1khz
@@ -292,10 +292,15 @@ class ImpulseResponse(Signal):
         prior_smoothing = self.spectrum_smoothing
         self.spectrum_smoothing = smoothing
         f, sp = self.get_spectrum()
-        self.spectrum_smoothing = prior_smoothing
         sp_abs = np.abs(sp)
-        if not self.spectrum_scaling.is_amplitude_scaling():
+        prior_scaling = self.spectrum_scaling
+        if not prior_scaling.is_amplitude_scaling():
             sp_abs **= 0.5
+            # Power spectra have no phase
+            self.spectrum_scaling = SpectrumScaling.FFTBackward
+            sp = self.get_spectrum()[1]
+            self.spectrum_scaling = prior_scaling
+        self.spectrum_smoothing = prior_smoothing
 
         match normalize:
             case MagnitudeNormalization.OneKhz:
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 3b2b99a..4e39d09 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1504,13 +1504,19 @@ class Signal(MultichannelData):
         ), "Phase cannot be plotted since the spectrum is welch."
 
         prior_smoothing = self.spectrum_smoothing
+        prior_scaling = self.spectrum_scaling
         self.spectrum_smoothing = 0
+        if not prior_scaling.is_amplitude_scaling():
+            # Power spectra have no phase
+            self.spectrum_scaling = SpectrumScaling.FFTBackward
 
         # Get spectrum
         f, sp = self.get_spectrum()
         ph = np.angle(sp)
 
         self.spectrum_smoothing = prior_smoothing
+        if not prior_scaling.is_amplitude_scaling():
+            self.spectrum_scaling = prior_scaling
 
         if remove_ir_latency is None:
             pass
-- 
2.43.0


From ff6cd3202385f18d79b0b83518db9038c8a485f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:27 +0000
Subject: [PATCH 187/190] fix: delay of a parallel filter set after fitting

---
 dsptoolbox/classes/parallel_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index 58a8b7f..c74ca38 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -106,6 +106,8 @@ class ParallelFilter(RealtimeFilter):
             if delay_iir_samples is None
             else delay_iir_samples
         )
+        if hasattr(self, "filter_bank"):
+            self.__compute_real_time_filters()
         return self
 
     def set_coefficients(
-- 
2.43.0


From fef55de704552c53dead6a798786bbedb4833ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:16 +0000
Subject: [PATCH 188/190] fix: beamforming with an amplitude scaling of the
 signal's spectrum

---
 dsptoolbox/beamforming/beamforming.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index bb9efb1..2f85fc3 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -20,6 +20,7 @@ from ..classes import Signal
 from .. import fractional_delay, pad_trim
 from ._beamforming import BasePoints, _clean_sc_deconvolve
 from ..plots import general_matrix_plot
+from ..standard.enums import SpectrumMethod
 from .enums import SteeringVectorType
 
 try:
@@ -748,6 +749,21 @@ class BaseBeamformer:
         assert len(range_he) == 2, "Range in He should have length two"
         return [self.mics.he_to_hz(i, self.c) for i in range_he]
 
+    def _get_csm(self) -> tuple[NDArray[np.float64], NDArray[np.complex128]]:
+        """Return frequency vector and CSM of the signal, always in its power
+        representation. Beamforming would not be valid with the (element-wise)
+        root that amplitude scalings deliver.
+
+        """
+        f, csm = self.signal.get_csm()
+        scaling = self.signal.spectrum_scaling
+        if scaling.is_amplitude_scaling() and (
+            self.signal.spectrum_method == SpectrumMethod.WelchPeriodogram
+            or scaling.has_physical_units()
+        ):
+            csm = csm**2.0
+        return f, csm
+
     def show_info(self):
         """Helper for creating a string containing metadata."""
         txt = f"""Beamformer: {self.beamformer_type}"""
@@ -849,7 +865,7 @@ class BeamformerDASFrequency(BeamformerGridded):
         print("\n" + txt)
         print("-" * len(txt))
         print("...csm...")
-        f, csm = self.signal.get_csm()
+        f, csm = self._get_csm()
         if remove_csm_diagonal:
             # Account for energy loss
             csm *= self.signal.number_of_channels / (self.signal.number_of_channels - 1)
@@ -968,7 +984,7 @@ class BeamformerCleanSC(BeamformerGridded):
         print("\n" + txt)
         print("-" * len(txt))
         print("...csm...")
-        f, csm = self.signal.get_csm()
+        f, csm = self._get_csm()
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
@@ -1088,7 +1104,7 @@ class BeamformerOrthogonal(BeamformerGridded):
         print("\n" + txt)
         print("-" * len(txt))
         print("...csm...")
-        f, csm = self.signal.get_csm()
+        f, csm = self._get_csm()
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
@@ -1186,7 +1202,7 @@ class BeamformerFunctional(BeamformerGridded):
         print("\n" + txt)
         print("-" * len(txt))
         print("...csm...")
-        f, csm = self.signal.get_csm()
+        f, csm = self._get_csm()
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
@@ -1285,7 +1301,7 @@ class BeamformerMVDR(BeamformerGridded):
         print("\n" + txt)
         print("-" * len(txt))
         print("...csm...")
-        f, csm = self.signal.get_csm()
+        f, csm = self._get_csm()
 
         print("...Steering vector...")
         # Frequency selection, wave numbers and steering vector
-- 
2.43.0


From a615313858ff419c963414dbfbbd18e743940ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:01 +0000
Subject: [PATCH 189/190] fix: subplots of lines without x labels

---
 dsptoolbox/plots/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/plots/plots.py b/dsptoolbox/plots/plots.py
index 7207604..e96aec3 100644
--- a/dsptoolbox/plots/plots.py
+++ b/dsptoolbox/plots/plots.py
@@ -352,8 +352,8 @@ def general_subplots_line(
             ax[n].set_xlim(range_x)
         if range_y is not None:
             ax[n].set_ylim(range_y)
-    if type(xlabels) is str or len(xlabels) == 1:
-        ax[-1].set_xlabel(xlabels)
+    if xlabels is not None and (type(xlabels) is str or len(xlabels) == 1):
+        ax[-1].set_xlabel(xlabels if type(xlabels) is str else xlabels[0])
     fig.tight_layout()
     return fig, ax
 
-- 
2.43.0


From ff80eca4ba7df3b3205e5636f8ee2afbafe25a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:26 +0000
Subject: [PATCH 190/190] fix: filter banks with several sampling rates can be
 appended

---
 dsptoolbox/standard/appending.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/standard/appending.py b/dsptoolbox/standard/appending.py
index cd293f9..90c8b18 100644
--- a/dsptoolbox/standard/appending.py
+++ b/dsptoolbox/standard/appending.py
@@ -147,6 +147,8 @@ def append_filterbanks(fbs: list[FilterBank]) -> FilterBank:
         assert (
             f.same_sampling_rate == fbs[0].same_sampling_rate
         ), "Sampling rates do not match"
+        if not f.same_sampling_rate:
+            continue
         assert (
             f.sampling_rate_hz == fbs[0].sampling_rate_hz
         ), "Sampling rates do not match"
-- 
2.43.0

