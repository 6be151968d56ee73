From 072df714ea6fe7ff4e809dd200c8405ef3fcff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 01/91] fix: polyphase decomposition reported padding although
 none was added

When the length is a multiple of the number of components no zeros are
prepended, but the returned padding was the number of components.
---
 dsptoolbox/helpers/polyphase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/polyphase.py b/dsptoolbox/helpers/polyphase.py
index 0a0bf10..1f51100 100644
--- a/dsptoolbox/helpers/polyphase.py
+++ b/dsptoolbox/helpers/polyphase.py
@@ -44,7 +44,7 @@ def _polyphase_decomposition(
     n = number_polyphase_components
     # Pad zeros in the beginning to avoid remainder
     remainder = in_sig.shape[0] % n
-    padding = n - remainder
+    padding = (n - remainder) % n
     if remainder != 0:
         in_sig = _pad_trim(in_sig, in_sig.shape[0] + padding, axis=0, in_the_end=False)
     # Here (time samples, polyphase, channels)
-- 
2.43.0


From 100e94037e4948efb4cdacde6341107a7eff7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:44 +0000
Subject: [PATCH 02/91] fix: signals with a single sample could not be created

Squeezing the data of a one-sample, one-channel signal left a zero-dimensional
array, so that the orientation check failed with an IndexError.
---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 652e0d3..8c918d0 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -253,7 +253,7 @@ class Signal(MultichannelData):
 
         """
         # Shape of Time Data array
-        new_time_data = np.atleast_2d(new_time_data).squeeze()
+        new_time_data = np.atleast_1d(np.atleast_2d(new_time_data).squeeze())
         assert new_time_data.ndim <= 2, (
             f"{new_time_data.ndim} are "
             + "too many dimensions for time data. Dimensions should"
-- 
2.43.0


From d36346c7a1cb5b86c3b6eaa55b97e0f9e1645cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 03/91] fix: framing without padding dropped the last complete
 frame

---
 dsptoolbox/helpers/other.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index 9964ce1..c6643cc 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -209,7 +209,7 @@ def _compute_number_frames(
         padding_samples = window_length - int(signal_length % step)
     else:
         padding_samples = 0
-        n_frames = int(np.ceil((signal_length - window_length) / step))
+        n_frames = max((signal_length - window_length) // step + 1, 0)
     return n_frames, padding_samples
 
 
-- 
2.43.0


From 6e442a270359c4e6ac472c9c63ff3680dd2d9003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 04/91] fix: overlap-add modified the frames and the window
 passed to it

---
 dsptoolbox/standard/_framed_signal_representation.py | 2 +-
 dsptoolbox/standard/_standard_backend.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_framed_signal_representation.py b/dsptoolbox/standard/_framed_signal_representation.py
index 0d724d6..cbdcf44 100644
--- a/dsptoolbox/standard/_framed_signal_representation.py
+++ b/dsptoolbox/standard/_framed_signal_representation.py
@@ -110,7 +110,7 @@ def _reconstruct_framed_signal(
             assert (
                 window.shape[0] == td_framed.shape[0]
             ), "Window length does not match signal length"
-        td_framed *= window[:, np.newaxis, np.newaxis]
+        td_framed = td_framed * window[:, np.newaxis, np.newaxis]
 
     total_length = int(
         step_size * td_framed.shape[1]
diff --git a/dsptoolbox/standard/_standard_backend.py b/dsptoolbox/standard/_standard_backend.py
index bc5d875..837b65b 100644
--- a/dsptoolbox/standard/_standard_backend.py
+++ b/dsptoolbox/standard/_standard_backend.py
@@ -417,7 +417,7 @@ def _get_window_envelope(
 
     """
     if squared:
-        window **= 2
+        window = window**2
     envelope = np.zeros(total_length_samples)
 
     start = 0
-- 
2.43.0


From 8a50c95950042d1dfafd37a844414051854a7429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:26 +0000
Subject: [PATCH 05/91] fix: overlap-add length could be rounded down by one
 sample

---
 dsptoolbox/standard/_framed_signal_representation.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/standard/_framed_signal_representation.py b/dsptoolbox/standard/_framed_signal_representation.py
index cbdcf44..7460cb9 100644
--- a/dsptoolbox/standard/_framed_signal_representation.py
+++ b/dsptoolbox/standard/_framed_signal_representation.py
@@ -112,9 +112,8 @@ def _reconstruct_framed_signal(
             ), "Window length does not match signal length"
         td_framed = td_framed * window[:, np.newaxis, np.newaxis]
 
-    total_length = int(
-        step_size * td_framed.shape[1]
-        + td_framed.shape[0] * (1 - step_size / td_framed.shape[0])
+    total_length = (
+        step_size * (td_framed.shape[1] - 1) + td_framed.shape[0]
     )
     td = np.zeros((total_length, td_framed.shape[-1]))
 
-- 
2.43.0


From b8f0188c40ccdd9acd7251249480e070fc68d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 06/91] fix: applying a gain dropped the imaginary part of
 complex signals

---
 dsptoolbox/standard/gain_and_level.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index f5a065d..0f7cf32 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -324,8 +324,10 @@ def apply_gain(
         if len(gain_linear) == 1:
             gain_linear = gain_linear[0]
         new_sig = target.copy_with_new_time_data(target.time_data * gain_linear)
-        if new_sig.is_complex_signal:
-            new_sig.time_data_imaginary *= gain_linear
+        if target.is_complex_signal:
+            new_sig.time_data_imaginary = (
+                target.time_data_imaginary * gain_linear
+            )
         return new_sig
     elif isinstance(target, MultiBandSignal):
         new_mb = target.copy()
-- 
2.43.0


From 2f5ae0e7d90adcf19f6e791a14fd91f679ed08d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:20 +0000
Subject: [PATCH 07/91] fix: crest factor of multiband signals was converted to
 dB twice

---
 dsptoolbox/standard/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/gain_and_level.py b/dsptoolbox/standard/gain_and_level.py
index 0f7cf32..b8ae82d 100644
--- a/dsptoolbox/standard/gain_and_level.py
+++ b/dsptoolbox/standard/gain_and_level.py
@@ -395,7 +395,7 @@ def crest_factor(
     elif isinstance(sig, MultiBandSignal):
         crest = np.zeros((sig.number_of_bands, sig.number_of_channels))
         for ind, b in enumerate(sig):
-            crest[ind, :] = crest_factor(b, in_db, use_true_peak)
+            crest[ind, :] = crest_factor(b, False, use_true_peak)
     else:
         raise TypeError(
             "Passed signal should be either a Signal or " + "MultiBandSignal type"
-- 
2.43.0


From 762a997813484a026e03b01c19d51271d0ba0faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:42 +0000
Subject: [PATCH 08/91] Revert "fix: framing without padding dropped the last
 complete frame"

This reverts commit d36346c7a1cb5b86c3b6eaa55b97e0f9e1645cde.
---
 dsptoolbox/helpers/other.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index c6643cc..9964ce1 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -209,7 +209,7 @@ def _compute_number_frames(
         padding_samples = window_length - int(signal_length % step)
     else:
         padding_samples = 0
-        n_frames = max((signal_length - window_length) // step + 1, 0)
+        n_frames = int(np.ceil((signal_length - window_length) / step))
     return n_frames, padding_samples
 
 
-- 
2.43.0


From 3fbba6cf794b4586b79979d68c879c0c6a5a78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 09/91] fix: constraining the amplitude scaled the array of the
 caller in place

---
 dsptoolbox/classes/signal.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 8c918d0..d296490 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -279,14 +279,14 @@ class Signal(MultichannelData):
             if new_time_data_imag is not None:
                 time_data_max = max(time_data_max, np.max(np.abs(new_time_data_imag)))
             if time_data_max > 1.0:
-                new_time_data /= time_data_max
+                new_time_data = new_time_data / time_data_max
                 warn(
                     "Signal was over 0 dBFS, normalizing to 0 dBFS "
                     + "peak level was triggered"
                 )
                 # Imaginary part is also scaled by same factor as real part
                 if new_time_data_imag is not None:
-                    new_time_data_imag /= time_data_max
+                    new_time_data_imag = new_time_data_imag / time_data_max
                 self.__amplitude_scale_factor = 1.0 / time_data_max
             else:
                 self.__amplitude_scale_factor = 1.0
-- 
2.43.0


From b6c45c2a0001f8f6b487bf80777ed73c4c8a77ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 10/91] fix: activating constrain_amplitude dropped the
 imaginary part

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index d296490..1efe41a 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -452,7 +452,7 @@ class Signal(MultichannelData):
         self.__constrain_amplitude = nca
         # Restart time data setter for triggering normalization if needed
         if nca and hasattr(self, "time_data"):
-            ntd = self.time_data
+            ntd = self._get_data()
             self.time_data = ntd
 
     @property
-- 
2.43.0


From 0834adb366810dd3bde74d7b6f41e51d74419574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 11/91] fix: adding a channel to a complex signal dropped the
 imaginary part

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 1efe41a..d7c3783 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -847,7 +847,7 @@ class Signal(MultichannelData):
                     + f"{self.time_data.shape[0]}. Activate allow_padding_trimming "
                     + "for allowing this channel to be added"
                 )
-        self.time_data = np.concatenate([self.time_data, new_time_data], axis=1)
+        self.time_data = np.concatenate([self._get_data(), new_time_data], axis=1)
         self.__update_state()
         return self
 
-- 
2.43.0


From 5f93633dc19d88482d65b322c6825aadb67e991e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 12/91] fix: collapsing a multiband signal overwrote its first
 band

---
 dsptoolbox/classes/multibandsignal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/multibandsignal.py b/dsptoolbox/classes/multibandsignal.py
index e383c41..27f3fb9 100644
--- a/dsptoolbox/classes/multibandsignal.py
+++ b/dsptoolbox/classes/multibandsignal.py
@@ -416,7 +416,7 @@ class MultiBandSignal:
             self.same_sampling_rate
         ), "Collapsing is only available for same sampling rate bands"
         if self.bands[0].time_data_imaginary is None:
-            initial = self.bands[0].time_data
+            initial = self.bands[0].time_data.copy()
             for n in range(1, len(self.bands)):
                 initial += self.bands[n].time_data
         else:
-- 
2.43.0


From 2cc464d8a75eeb67dd4d5f0eeda77a7cb8c0cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 13/91] fix: appending multiband signals repeated the first
 band of the first signal

---
 dsptoolbox/standard/appending.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/appending.py b/dsptoolbox/standard/appending.py
index 54b93e5..cd293f9 100644
--- a/dsptoolbox/standard/appending.py
+++ b/dsptoolbox/standard/appending.py
@@ -115,7 +115,7 @@ def append_signals(
         signals_without_first = signals.copy()  # Shallow copy
         signals_without_first.pop(0)
         for n in range(signals[0].number_of_bands):
-            new_band = signals[0].bands[0].copy()
+            new_band = signals[0].bands[n].copy()
             for s in signals_without_first:
                 new_band = append_signals(
                     [new_band, s.bands[n]], allow_padding_trimming, at_end
-- 
2.43.0


From c573e8bc969e300b473c7d14b0ab718214f2547b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 14/91] fix: impulse responses from constrained time data lost
 the amplitude scale factor

---
 dsptoolbox/classes/impulse_response.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index e1c6913..63b8d77 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -133,8 +133,7 @@ class ImpulseResponse(Signal):
         ImpulseResponse
 
         """
-        s = Signal.from_time_data(time_data, sampling_rate_hz, constrain_amplitude)
-        return ImpulseResponse.from_signal(s)
+        return ImpulseResponse(None, time_data, sampling_rate_hz, constrain_amplitude)
 
     def set_window(self, window: NDArray[np.float64]):
         """Sets the window used for the IR.
-- 
2.43.0


From 5dfbd9005e38d1fa90a2a19d73133f3f892e57f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 15/91] fix: changing the smoothing and plotting left a stale
 cached spectrum

---
 dsptoolbox/classes/signal.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index d7c3783..a5ed1cd 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -702,6 +702,8 @@ class Signal(MultichannelData):
         """
         assert new_smoothing >= 0.0, "Smoothing must be positive or zero"
         self._spectrum_parameters["smoothing"] = float(new_smoothing)
+        self.__spectrum_state_update = True
+        self.__csm_state_update = True
 
     def set_spectrogram_parameters(
         self,
@@ -1102,13 +1104,13 @@ class Signal(MultichannelData):
 
         """
         # Handle smoothing
-        prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
+        prior_smoothing = self.spectrum_smoothing
+        self.spectrum_smoothing = 0
 
         # Get spectrum
         f, sp = self.get_spectrum()
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.spectrum_smoothing = prior_smoothing
 
         f, mag_db = _get_normalized_spectrum(
             f=f,
@@ -1338,7 +1340,7 @@ class Signal(MultichannelData):
             smoothing=0,
         )
         f, sp = self.get_spectrum()
-        self._spectrum_parameters = prior_spectrum_parameters
+        self.set_spectrum_parameters(**prior_spectrum_parameters)
 
         ph = np.angle(sp)
 
@@ -1493,14 +1495,14 @@ class Signal(MultichannelData):
             self.spectrum_method == SpectrumMethod.FFT
         ), "Phase cannot be plotted since the spectrum is welch."
 
-        prior_smoothing = self._spectrum_parameters["smoothing"]
-        self._spectrum_parameters["smoothing"] = 0
+        prior_smoothing = self.spectrum_smoothing
+        self.spectrum_smoothing = 0
 
         # Get spectrum
         f, sp = self.get_spectrum()
         ph = np.angle(sp)
 
-        self._spectrum_parameters["smoothing"] = prior_smoothing
+        self.spectrum_smoothing = prior_smoothing
 
         if remove_ir_latency is None:
             pass
-- 
2.43.0


From 3d9ad2e26764aa474a6025a32fdf15517213626b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 16/91] fix: an uncached spectrogram marked an older cached one
 as valid

---
 dsptoolbox/classes/signal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index a5ed1cd..7e9f5c6 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1046,9 +1046,9 @@ class Signal(MultichannelData):
                 self._spectrogram_parameters["padding"],
                 self._spectrogram_parameters["scaling"],
             )
-            self.__spectrogram_state_update = False
             if self.activate_cache:
                 self.spectrogram = deepcopy(spectrogram)
+                self.__spectrogram_state_update = False
             return spectrogram[0], spectrogram[1], spectrogram[2]
 
         return (
-- 
2.43.0


From 34ee8af769cc8a2490882ae75154f1542e4e73e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 17/91] fix: setting or clearing the time window left a stale
 cached spectrum

---
 dsptoolbox/classes/impulse_response.py | 1 +
 dsptoolbox/classes/signal.py           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/impulse_response.py b/dsptoolbox/classes/impulse_response.py
index 63b8d77..915dc67 100644
--- a/dsptoolbox/classes/impulse_response.py
+++ b/dsptoolbox/classes/impulse_response.py
@@ -148,6 +148,7 @@ class ImpulseResponse(Signal):
             window.shape == self.time_data.shape
         ), f"{window.shape} does not match shape {self.time_data.shape}"
         self.window = window
+        self._update_state()
         return self
 
     def plot_time(self) -> tuple[Figure, list[Axes]]:
diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 7e9f5c6..49f5411 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -857,6 +857,7 @@ class Signal(MultichannelData):
         """Deletes the time window of the signal in case there is any."""
         if hasattr(self, "window"):
             del self.window
+            self.__update_state()
         return self
 
     # ======== Getters ========================================================
-- 
2.43.0


From ad69db557dff0e51a76424a6ddeb32d56a394c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:28 +0000
Subject: [PATCH 18/91] fix: spectrum edge handling failed for many channels
 and altered the phase

---
 dsptoolbox/classes/spectrum.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 3b19d30..9d0df2e 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -596,8 +596,9 @@ class Spectrum(MultichannelData):
         elif self.__int_edges == InterpolationEdgeHandling.OnePad:
             left_val = right_val = 1.0
         else:  # "extend"
-            left_val = interp_data[0, ...]
-            right_val = interp_data[-1, ...]
+            edges = self.spectral_data if self.__int_domain.is_complex() else interp_data
+            left_val = edges[0, ...]
+            right_val = edges[-1, ...]
 
         # Interpolation and filling edges
         if self.__int_scheme != InterpolationScheme.Linear:
@@ -620,11 +621,6 @@ class Spectrum(MultichannelData):
                         requested_frequency
                     )
                 )
-
-            if len(inds_outside_left) > 0:
-                output[inds_outside_left, :] = left_val
-            if len(inds_outside_right) > 0:
-                output[inds_outside_right, :] = right_val
         else:
             output = np.zeros(
                 (len(requested_frequency), self.number_of_channels),
@@ -635,8 +631,6 @@ class Spectrum(MultichannelData):
                     requested_frequency,
                     self.frequency_vector_hz,
                     interp_data[:, ch],
-                    left=left_val,
-                    right=right_val,
                 )
                 # Complex handling
                 if self.__int_domain == InterpolationDomain.Complex:
@@ -644,8 +638,6 @@ class Spectrum(MultichannelData):
                         requested_frequency,
                         self.frequency_vector_hz,
                         interp_data_imag[:, ch],
-                        left=left_val,
-                        right=right_val,
                     )
                 elif self.__int_domain == InterpolationDomain.MagnitudePhase:
                     output[:, ch] = output[:, ch] * np.exp(
@@ -654,11 +646,14 @@ class Spectrum(MultichannelData):
                             requested_frequency,
                             self.frequency_vector_hz,
                             interp_data_imag[:, ch],
-                            left=left_val,
-                            right=right_val,
                         )
                     )
 
+        if len(inds_outside_left) > 0:
+            output[inds_outside_left, :] = left_val
+        if len(inds_outside_right) > 0:
+            output[inds_outside_right, :] = right_val
+
         # Output type
         if output_type == SpectrumType.Complex:
             return output
-- 
2.43.0


From 4de2d3e4dc2b80211a166ad5270c5688ed4fb611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 19/91] fix: complex output of a spectrum was its magnitude or
 power by default

---
 dsptoolbox/classes/spectrum.py | 37 +++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 9d0df2e..92c2b6f 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -564,6 +564,11 @@ class Spectrum(MultichannelData):
         if output_type == SpectrumType.Complex:
             assert not self.is_magnitude, "Complex output is not supported"
 
+        # A complex output can only be obtained from a complex domain
+        domain = self.__int_domain
+        if output_type == SpectrumType.Complex and not domain.is_complex():
+            domain = InterpolationDomain.MagnitudePhase
+
         inds_outside_left = requested_frequency < self.frequency_vector_hz[0]
         inds_outside_right = requested_frequency > self.frequency_vector_hz[-1]
         if self.__int_edges == InterpolationEdgeHandling.Error:
@@ -573,20 +578,20 @@ class Spectrum(MultichannelData):
             )
 
         # Input for interpolation depending on domain
-        if self.__int_domain == InterpolationDomain.Power:
+        if domain == InterpolationDomain.Power:
             if self.is_magnitude:
                 interp_data = self.spectral_data**2.0
             else:
                 interp_data = np.abs(self.spectral_data) ** 2.0
-        elif self.__int_domain == InterpolationDomain.Magnitude:
+        elif domain == InterpolationDomain.Magnitude:
             if self.is_magnitude:
                 interp_data = self.spectral_data
             else:
                 interp_data = np.abs(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.Complex:
+        elif domain == InterpolationDomain.Complex:
             interp_data = np.real(self.spectral_data)
             interp_data_imag = np.imag(self.spectral_data)
-        elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+        elif domain == InterpolationDomain.MagnitudePhase:
             interp_data = np.abs(self.spectral_data)
             interp_data_imag = np.unwrap(np.angle(self.spectral_data), axis=0)
 
@@ -596,7 +601,7 @@ class Spectrum(MultichannelData):
         elif self.__int_edges == InterpolationEdgeHandling.OnePad:
             left_val = right_val = 1.0
         else:  # "extend"
-            edges = self.spectral_data if self.__int_domain.is_complex() else interp_data
+            edges = self.spectral_data if domain.is_complex() else interp_data
             left_val = edges[0, ...]
             right_val = edges[-1, ...]
 
@@ -610,11 +615,11 @@ class Spectrum(MultichannelData):
             output = func(self.frequency_vector_hz, interp_data, axis=0)(
                 requested_frequency
             )
-            if self.__int_domain == InterpolationDomain.Complex:
+            if domain == InterpolationDomain.Complex:
                 output = output + 1j * func(
                     self.frequency_vector_hz, interp_data_imag, axis=0
                 )(requested_frequency)
-            elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+            elif domain == InterpolationDomain.MagnitudePhase:
                 output = output * np.exp(
                     1j
                     * func(self.frequency_vector_hz, interp_data_imag, axis=0)(
@@ -624,7 +629,7 @@ class Spectrum(MultichannelData):
         else:
             output = np.zeros(
                 (len(requested_frequency), self.number_of_channels),
-                dtype=(np.complex128 if self.__int_domain.is_complex() else np.float64),
+                dtype=(np.complex128 if domain.is_complex() else np.float64),
             )
             for ch in range(output.shape[1]):
                 output[:, ch] = np.interp(
@@ -633,13 +638,13 @@ class Spectrum(MultichannelData):
                     interp_data[:, ch],
                 )
                 # Complex handling
-                if self.__int_domain == InterpolationDomain.Complex:
+                if domain == InterpolationDomain.Complex:
                     output[:, ch] += 1j * np.interp(
                         requested_frequency,
                         self.frequency_vector_hz,
                         interp_data_imag[:, ch],
                     )
-                elif self.__int_domain == InterpolationDomain.MagnitudePhase:
+                elif domain == InterpolationDomain.MagnitudePhase:
                     output[:, ch] = output[:, ch] * np.exp(
                         1j
                         * np.interp(
@@ -658,20 +663,20 @@ class Spectrum(MultichannelData):
         if output_type == SpectrumType.Complex:
             return output
         elif output_type == SpectrumType.Db:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return to_db(np.abs(output), True)
-            return to_db(output, self.__int_domain.is_linear())
+            return to_db(output, domain.is_linear())
         elif output_type == SpectrumType.Power:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output) ** 2.0
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output**2.0
             else:  # "power"
                 return output
         elif output_type == SpectrumType.Magnitude:
-            if self.__int_domain.is_complex():
+            if domain.is_complex():
                 return np.abs(output)
-            elif self.__int_domain.is_linear():
+            elif domain.is_linear():
                 return output
             else:  # "power"
                 return output**0.5
-- 
2.43.0


From 5642006ce5987f2c1c0f31a254ba805f2585bcc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 20/91] fix: exclusive spectrum trimming dropped a bin inside
 the range

---
 dsptoolbox/classes/spectrum.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 92c2b6f..6700a4b 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -1033,7 +1033,13 @@ class Spectrum(MultichannelData):
     ) -> slice:
         """Return a slice of the given frequency boundaries."""
         ind_low = (
-            int(np.searchsorted(self.frequency_vector_hz, f_lower_hz))
+            int(
+                np.searchsorted(
+                    self.frequency_vector_hz,
+                    f_lower_hz,
+                    side="left" if inclusive else "right",
+                )
+            )
             if f_lower_hz is not None
             else 0
         )
@@ -1050,8 +1056,5 @@ class Spectrum(MultichannelData):
                 if self.frequency_vector_hz[ind_low] != f_lower_hz:
                     ind_low -= 1
                     ind_low = max(ind_low, 0)
-        else:
-            if f_lower_hz is not None:
-                ind_low += 1
         assert ind_low < ind_high, "Slice is invalid"
         return slice(ind_low, ind_high)
-- 
2.43.0


From 4acfef06694f9dcdef8ed9e7b536f6133cd922ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 21/91] fix: a spectrum of odd length did not convert back to
 its signal

---
 dsptoolbox/classes/spectrum.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 6700a4b..7a9e9ff 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -365,8 +365,10 @@ class Spectrum(MultichannelData):
         """
         assert not self.is_magnitude, "Spectrum must be complex"
 
-        def __td_from_spec(spec, length_seconds, sampling_rate_hz) -> Signal:
-            time_data = np.fft.irfft(spec, axis=0)
+        def __td_from_spec(
+            spec, fft_length_samples, length_seconds, sampling_rate_hz
+        ) -> Signal:
+            time_data = np.fft.irfft(spec, n=fft_length_samples, axis=0)
             if length_seconds is not None:
                 length_samples = int(length_seconds * sampling_rate_hz + 0.5)
                 time_data = _pad_trim(time_data, length_samples)
@@ -374,6 +376,7 @@ class Spectrum(MultichannelData):
 
         if self.frequency_vector_type == FrequencySpacing.Linear:
             delta_f = self.frequency_vector_hz[1] - self.frequency_vector_hz[0]
+            fft_length_samples = int(sampling_rate_hz / delta_f + 0.5)
             condition_sampling_rate = (
                 abs(sampling_rate_hz / 2 - self.frequency_vector_hz[-1]) > delta_f
             )
@@ -381,7 +384,10 @@ class Spectrum(MultichannelData):
 
             if not (condition_sampling_rate or condition_start):
                 return __td_from_spec(
-                    self.spectral_data, length_seconds, sampling_rate_hz
+                    self.spectral_data,
+                    fft_length_samples,
+                    length_seconds,
+                    sampling_rate_hz,
                 )
 
             requested_freqs = np.arange(
@@ -390,8 +396,9 @@ class Spectrum(MultichannelData):
         else:
             assert length_seconds is not None, "A length must be provided"
 
+            fft_length_samples = int(length_seconds * sampling_rate_hz + 0.5)
             requested_freqs = np.fft.rfftfreq(
-                int(length_seconds * sampling_rate_hz + 0.5),
+                fft_length_samples,
                 1 / sampling_rate_hz,
             )
 
@@ -402,7 +409,9 @@ class Spectrum(MultichannelData):
         )
         spectrum = self.get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
 
-        return __td_from_spec(spectrum, length_seconds, sampling_rate_hz)
+        return __td_from_spec(
+            spectrum, fft_length_samples, length_seconds, sampling_rate_hz
+        )
 
     def trim(
         self,
-- 
2.43.0


From f22efeabff5f9b8241122c48de2e5e63a669337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 22/91] fix: converting a spectrum to a signal changed its
 interpolation settings

---
 dsptoolbox/classes/spectrum.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index 7a9e9ff..f8a460e 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -402,12 +402,15 @@ class Spectrum(MultichannelData):
                 1 / sampling_rate_hz,
             )
 
-        self.set_interpolator_parameters(
-            InterpolationDomain.MagnitudePhase,
-            InterpolationScheme.Pchip,
-            InterpolationEdgeHandling.ZeroPad,
+        spectrum = (
+            self.copy()
+            .set_interpolator_parameters(
+                InterpolationDomain.MagnitudePhase,
+                InterpolationScheme.Pchip,
+                InterpolationEdgeHandling.ZeroPad,
+            )
+            .get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
         )
-        spectrum = self.get_interpolated_spectrum(requested_freqs, SpectrumType.Complex)
 
         return __td_from_spec(
             spectrum, fft_length_samples, length_seconds, sampling_rate_hz
-- 
2.43.0


From b92dc7df75259e0f30050cd6cf78dbf19b14cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 23/91] fix: channel edits and trimming of a spectrum lost or
 misassigned its coherence

---
 dsptoolbox/classes/spectrum.py | 52 +++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/spectrum.py b/dsptoolbox/classes/spectrum.py
index f8a460e..205f761 100644
--- a/dsptoolbox/classes/spectrum.py
+++ b/dsptoolbox/classes/spectrum.py
@@ -442,6 +442,49 @@ class Spectrum(MultichannelData):
         s = self.__freqs_to_slice(f_lower_hz, f_upper_hz, inclusive)
         self.frequency_vector_hz = self.frequency_vector_hz[s]
         self.spectral_data = self.spectral_data[s, ...]
+        if self.has_coherence:
+            self.coherence = self.coherence[s, ...]
+        return self
+
+    def get_channels(self, channels: int | ArrayLike) -> "Spectrum":
+        """Returns a spectrum with the selected channels (and their coherence
+        if available). Beware that first channel index is 0!
+
+        Parameters
+        ----------
+        channels : ArrayLike or int
+            Channels to be returned as a new spectrum.
+
+        Returns
+        -------
+        Spectrum
+
+        """
+        new_spectrum = super().get_channels(channels)
+        if self.has_coherence:
+            inds = np.atleast_1d(np.asarray(channels).squeeze())
+            new_spectrum.set_coherence(self.coherence[:, inds])
+        return new_spectrum
+
+    def remove_channel(self, channel_number: int = -1) -> "Spectrum":
+        """Removes a channel (inplace), see
+        `MultichannelData.remove_channel()`.
+
+        """
+        super().remove_channel(channel_number)
+        if self.has_coherence:
+            self.coherence = np.delete(self.coherence, channel_number, axis=-1)
+        return self
+
+    def swap_channels(self, new_order) -> "Spectrum":
+        """Rearranges the channels (inplace), see
+        `MultichannelData.swap_channels()`.
+
+        """
+        super().swap_channels(new_order)
+        if self.has_coherence:
+            inds = np.atleast_1d(np.asarray(new_order).squeeze())
+            self.coherence = self.coherence[:, inds]
         return self
 
     def sum_channels(self, power_sum: bool = True) -> "Spectrum":
@@ -1024,13 +1067,14 @@ class Spectrum(MultichannelData):
         new_spectrum = Spectrum(self.frequency_vector_hz, data)
         # Copy interpolator parameters
         new_spectrum.set_interpolator_parameters(
-            self.__int_domain,
+            (
+                InterpolationDomain.Power
+                if new_spectrum.is_magnitude and self.__int_domain.is_complex()
+                else self.__int_domain
+            ),
             self.__int_scheme,
             self.__int_edges,
         )
-        # Copy coherence if it exists
-        if self.has_coherence:
-            new_spectrum.set_coherence(self.coherence)
         return new_spectrum
 
     def _update_state(self) -> None:
-- 
2.43.0


From 87c56d230bb1b0f75094d5936ed64e6466209d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 24/91] fix: harmonic distortion analysis altered the impulse
 responses passed to it

---
 dsptoolbox/transfer_functions/transfer_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index b82a953..83a1f08 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -1554,10 +1554,10 @@ def harmonic_distortion_analysis(
                 each_ir.number_of_channels == 1
             ), "Only single-channel IRs are supported"
 
-        ir2 = ir.pop(0)
+        # Settings and length are changed below: work on copies
+        ir2, *harm = [each_ir.copy() for each_ir in ir]
         ir2._spectrum_parameters["smoothing"] = smoothing
 
-        harm = ir
         n_harmonics = len(harm)
         if chirp_range_hz is None:
             chirp_range_hz = [0, ir2.sampling_rate_hz // 2]
-- 
2.43.0


From cf061fedad427c3777ffe6a01c7a918a744cb860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 25/91] fix: spectral distances changed the spectrum settings
 of the signals passed

---
 dsptoolbox/distances/distances.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 7386460..3262106 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -80,6 +80,7 @@ def log_spectral(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
+    insig1, insig2 = insig1.copy(), insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
@@ -166,6 +167,7 @@ def itakura_saito(
             "Upper bound for " + "frequency must be smaller than the nyquist frequency"
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
+    insig1, insig2 = insig1.copy(), insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
-- 
2.43.0


From c03106c80bfa8cc6de126b1e0bd0837bf949c5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 26/91] fix: mel spectrogram and mfcc changed the spectrogram
 settings of the signal passed

---
 dsptoolbox/transforms/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 2ca9f99..8b1cc6e 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -173,6 +173,7 @@ def log_mel_spectrogram(
 
     """
     if stft_parameters is not None:
+        s = s.copy()
         s.set_spectrogram_parameters(**stft_parameters)
     time_s, f_hz, sp = s.get_spectrogram()
 
@@ -403,6 +404,7 @@ def mfcc(
 
     """
     if stft_parameters is not None:
+        signal = signal.copy()
         signal.set_spectrogram_parameters(**stft_parameters)
     time_s, f, sp = signal.get_spectrogram()
 
-- 
2.43.0


From f9b0b6d2e6d3ceaea4235d93dcc1c2362bd09b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 27/91] fix: filter state was returned transposed and lost
 between consecutive blocks

---
 dsptoolbox/classes/filter_helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 004644c..5ffa34a 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -282,6 +282,7 @@ def _filter_on_signal(
         zi_new = []
         for n in range(signal.number_of_channels):
             zi_new.append(zi[:, :, n])
+        zi = zi_new
     return new_signal, zi
 
 
@@ -379,6 +380,7 @@ def _filter_on_signal_ba(
         zi_new = []
         for n in range(zi.shape[1]):
             zi_new.append(zi[:, n])
+        zi = zi_new
     return new_signal, zi
 
 
@@ -494,7 +496,7 @@ def _lfilter_fir(
     # Use zi's and take zf's
     if zi is not None:
         y[: zi.shape[0], :] += zi
-        zf = y[-zi.shape[0] :, :]
+        zf = y[x.shape[0] :, :]
 
     # Trim output
     y = y[: x.shape[0], :]
-- 
2.43.0


From 9872b051d231c5d73fb89faaa3f18870a7a27ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:42 +0000
Subject: [PATCH 28/91] fix: summed transfer function of a filter bank had a
 unit offset

---
 dsptoolbox/classes/filterbank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/filterbank.py b/dsptoolbox/classes/filterbank.py
index 31e200f..8b55380 100644
--- a/dsptoolbox/classes/filterbank.py
+++ b/dsptoolbox/classes/filterbank.py
@@ -646,7 +646,7 @@ class FilterBank:
                 for ind, f in enumerate(self.filters):
                     h *= f.get_transfer_function(frequency_vector_hz)
             case FilterBankMode.Summed:
-                h = np.ones(len(frequency_vector_hz), dtype=np.complex128)
+                h = np.zeros(len(frequency_vector_hz), dtype=np.complex128)
                 for ind, f in enumerate(self.filters):
                     h += f.get_transfer_function(frequency_vector_hz)
             case _:
-- 
2.43.0


From f1abc6128db296650b0528f4861255e9bca7e9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 29/91] fix: filtering and summed filter banks dropped the
 imaginary part of complex signals

---
 dsptoolbox/classes/filter_helpers.py | 38 ++++++++++++++++++----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/dsptoolbox/classes/filter_helpers.py b/dsptoolbox/classes/filter_helpers.py
index 5ffa34a..814ec19 100644
--- a/dsptoolbox/classes/filter_helpers.py
+++ b/dsptoolbox/classes/filter_helpers.py
@@ -205,6 +205,16 @@ def _group_delay_filter(ba, length_samples: int = 512, fs_hz: int = 48000):
     return f, gd
 
 
+def _get_time_data(signal: Signal) -> NDArray[np.float64 | np.complex128]:
+    """Return the (complex, if there is an imaginary part) time data of a
+    signal.
+
+    """
+    if signal.is_complex_signal:
+        return signal.time_data + 1j * signal.time_data_imaginary
+    return signal.time_data
+
+
 def _filter_on_signal(
     signal: Signal,
     sos,
@@ -243,11 +253,13 @@ def _filter_on_signal(
 
     """
     # Time Data
-    new_time_data = signal.time_data.copy()
+    time_data = _get_time_data(signal)
+    new_time_data = time_data.copy()
 
     # zi unpacking
     if zi is not None:
         zi = np.moveaxis(np.asarray(zi), 0, -1)
+        zi = zi.astype(np.result_type(zi, time_data))
 
     # Channels
     if channels is None:
@@ -256,13 +268,13 @@ def _filter_on_signal(
     # Filtering
     if zi is not None:
         y, zi[:, :, channels] = sig.sosfilt(
-            sos, signal.time_data[:, channels], zi=zi[:, :, channels], axis=0
+            sos, time_data[:, channels], zi=zi[:, :, channels], axis=0
         )
     else:
         if zero_phase:
-            y = sig.sosfiltfilt(sos, signal.time_data[:, channels], axis=0)
+            y = sig.sosfiltfilt(sos, time_data[:, channels], axis=0)
         else:
-            y = sig.sosfilt(sos, signal.time_data[:, channels], axis=0)
+            y = sig.sosfilt(sos, time_data[:, channels], axis=0)
 
     # Check for complex output
     if np.iscomplexobj(y):
@@ -337,11 +349,13 @@ def _filter_on_signal_ba(
         lfilter = sig.lfilter
 
     # Time Data
-    new_time_data = signal.time_data.copy()
+    time_data = _get_time_data(signal)
+    new_time_data = time_data.copy()
 
     # zi unpacking
     if zi is not None:
         zi = np.asarray(zi).T
+        zi = zi.astype(np.result_type(zi, time_data))
 
     # Channels
     if channels is None:
@@ -352,15 +366,15 @@ def _filter_on_signal_ba(
         y, zi[:, channels] = lfilter(
             ba[0],
             a=ba[1],
-            x=signal.time_data[:, channels],
+            x=time_data[:, channels],
             zi=zi[:, channels],
             axis=0,
         )
     else:
         if zero_phase:
-            y = sig.filtfilt(b=ba[0], a=ba[1], x=signal.time_data[:, channels], axis=0)
+            y = sig.filtfilt(b=ba[0], a=ba[1], x=time_data[:, channels], axis=0)
         else:
-            y = lfilter(ba[0], a=ba[1], x=signal.time_data[:, channels], axis=0)
+            y = lfilter(ba[0], a=ba[1], x=time_data[:, channels], axis=0)
 
     # Check for complex output
     if np.iscomplexobj(y):
@@ -439,15 +453,13 @@ def _filterbank_on_signal(
                 )
             return out_sig
         case FilterBankMode.Summed:
-            new_time_data = np.zeros(
-                (signal.time_data.shape[0], signal.number_of_channels, n_filt)
-            )
+            new_time_data = []
             for n in range(n_filt):
                 s = filters[n].filter_signal(
                     signal, activate_zi=activate_zi, zero_phase=zero_phase
                 )
-                new_time_data[:, :, n] = s.time_data
-            new_time_data = np.sum(new_time_data, axis=-1)
+                new_time_data.append(_get_time_data(s))
+            new_time_data = np.sum(new_time_data, axis=0)
             return signal.copy_with_new_time_data(new_time_data)
         case _:
             raise ValueError("Invalid filter bank apply mode")
-- 
2.43.0


From 6dcb8a36c2c4aeffdc1e1f794dc0d3aa3507105f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 30/91] fix: real-time FIR filter with a single coefficient
 raised an error

---
 dsptoolbox/classes/fir_filter_realtime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index cb3a2f6..1eb5465 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -59,6 +59,8 @@ class FIRFilter(RealtimeFilter):
     def process_sample(self, x: float, channel: int):
         """Process a sample."""
         y = self.b[0] * x
+        if self.order == 0:
+            return y
 
         write_index = self.current_state_ind[channel]
         for i in range(self.order):
-- 
2.43.0


From 4a314bdcdcd1a691084a18721febe796388be43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 31/91] fix: overlap-save convolution with an odd FFT length
 delivered wrong samples

---
 dsptoolbox/classes/fir_filter_realtime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 1eb5465..4488eca 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -137,9 +137,10 @@ class FIRFilterOverlapSave(RealtimeFilter):
 
         """
         self.buffer[-self.blocksize :, channel] = block
-        output_data = fft.irfft(fft.rfft(self.buffer[:, channel]) * self.fir_spectrum)[
-            -self.blocksize :
-        ]
+        output_data = fft.irfft(
+            fft.rfft(self.buffer[:, channel]) * self.fir_spectrum,
+            n=self.total_length,
+        )[-self.blocksize :]
 
         # Roll buffer
         self.buffer[: -self.blocksize, channel] = self.buffer[self.blocksize :, channel]
-- 
2.43.0


From 27ad82471c928a079e500d9182c02c67a9314af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 32/91] fix: partitioned convolution mixed up its partitions
 when processing several channels

---
 dsptoolbox/classes/fir_filter_realtime.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index 4488eca..a776d2b 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -202,7 +202,7 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         self.partitioned_spectrum = fft.rfft(partitioned, axis=0, n=self.fft_size)
 
         # Buffer index for filter
-        self.buffer_ind = 0
+        self.buffer_ind = np.zeros(n_channels, dtype=np.int_)
 
         # Helper for avoiding allocations in process
         self.buffer_index_helper = np.arange(self.n_partitions)
@@ -222,22 +222,20 @@ class FIRUniformPartitioned(FIRFilterOverlapSave):
         self.input_buffer[-self.blocksize :, channel] = block
 
         # Transform input
-        self.buffer_spectra[:, self.buffer_ind, channel] = fft.rfft(
+        buffer_ind = self.buffer_ind[channel]
+        self.buffer_spectra[:, buffer_ind, channel] = fft.rfft(
             self.input_buffer[:, channel]
         )
 
         # Accumulate output of all filters with buffers
         output = np.sum(
             self.partitioned_spectrum
-            * self.buffer_spectra[
-                :, self.buffer_ind - self.buffer_index_helper, channel
-            ],
+            * self.buffer_spectra[:, buffer_ind - self.buffer_index_helper, channel],
             axis=1,
         )
 
         # Advance filter buffer
-        self.buffer_ind += 1
-        self.buffer_ind %= self.n_partitions
+        self.buffer_ind[channel] = (buffer_ind + 1) % self.n_partitions
 
         # Get output
         return fft.irfft(output)[-self.blocksize :]
-- 
2.43.0


From 0e72b390a2f4599aa966992c32edbdfb0e259fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 33/91] fix: multichannel partitioned convolution rescaled
 filters with a peak above one

---
 dsptoolbox/classes/fir_filter_realtime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/fir_filter_realtime.py b/dsptoolbox/classes/fir_filter_realtime.py
index a776d2b..907739b 100644
--- a/dsptoolbox/classes/fir_filter_realtime.py
+++ b/dsptoolbox/classes/fir_filter_realtime.py
@@ -260,7 +260,9 @@ class FIRUniformPartitionedMultichannel(FIRUniformPartitioned):
 
         """
         # Bring into standard form
-        self.fir = Signal.from_time_data(fir, 10000).time_data
+        self.fir = Signal.from_time_data(
+            fir, 10000, constrain_amplitude=False
+        ).time_data
 
     def prepare(self, blocksize_samples: int):  # type: ignore
         """Prepares the processing.
-- 
2.43.0


From 6ca0633e8da2cee534904bf44b65cfb168fd70fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 34/91] fix: real-time IIR filter normalized the coefficients
 of the caller in place

---
 dsptoolbox/classes/iir_filter_realtime.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index b30fced..36fdec4 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -24,8 +24,8 @@ class IIRFilter(RealtimeFilter):
             Denominator coefficients
 
         """
-        b /= a[0]
-        a /= a[0]
+        b = b / a[0]
+        a = a / a[0]
         self.order = max(len(b), len(a)) - 1
         self.b = np.pad(b, ((0, self.order + 1 - len(b))))
         self.a = np.pad(a, ((0, self.order + 1 - len(a))))
-- 
2.43.0


From 46609025c4a26275f81698eba3ac3536fb3fdc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 35/91] fix: real-time IIR filter of order zero raised an error

---
 dsptoolbox/classes/iir_filter_realtime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/iir_filter_realtime.py b/dsptoolbox/classes/iir_filter_realtime.py
index 36fdec4..003540a 100644
--- a/dsptoolbox/classes/iir_filter_realtime.py
+++ b/dsptoolbox/classes/iir_filter_realtime.py
@@ -51,7 +51,7 @@ class IIRFilter(RealtimeFilter):
         return IIRFilter(b, a)
 
     def set_n_channels(self, n_channels: int):
-        self.state = np.zeros((self.order, n_channels))
+        self.state = np.zeros((max(self.order, 1), n_channels))
 
     def reset_state(self):
         self.state.fill(0.0)
-- 
2.43.0


From 29f3c55a11f326ee12b48cfca231412fc8757769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 36/91] fix: first-order state space filters could not be
 created

---
 dsptoolbox/classes/state_space_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index 18d3e0a..b016555 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -48,9 +48,9 @@ class StateSpaceFilter(RealtimeFilter):
         """
         assert A.ndim == 2, "Matrix A should have exactly 2 dimensions"
         assert len(B) == A.shape[1], "Matrix B dimensions are not valid"
-        self.A = A.squeeze()
-        self.B = B.squeeze()
-        self.C = C.squeeze()
+        self.A = A
+        self.B = B.reshape(-1)
+        self.C = C.reshape(-1)
         self.D = D.squeeze()
         self.set_n_channels(1)
 
-- 
2.43.0


From 04507d30e921a951cb253b1cc753c63cebe9cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 37/91] fix: exponential average filter raised an error with
 several channels

---
 dsptoolbox/classes/exponential_average_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/exponential_average_filter.py b/dsptoolbox/classes/exponential_average_filter.py
index 307348c..2b0cb3a 100644
--- a/dsptoolbox/classes/exponential_average_filter.py
+++ b/dsptoolbox/classes/exponential_average_filter.py
@@ -47,7 +47,7 @@ class ExponentialAverageFilter(RealtimeFilter):
         self.state.fill(0.0)
 
     def process_sample(self, x: float, channel: int):
-        if x > self.state:  # Ascending
+        if x > self.state[0, channel]:  # Ascending
             y = (
                 x * self.increase_coefficient
                 + (1 - self.increase_coefficient) * self.state[0, channel]
-- 
2.43.0


From 76cee8becb927f03a4da7c785ec3026beb23025f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:57 +0000
Subject: [PATCH 38/91] fix: state variable filter rescaled the outputs of
 impulse responses separately

---
 dsptoolbox/classes/sv_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/sv_filter.py b/dsptoolbox/classes/sv_filter.py
index f1585b2..5d2b3fb 100644
--- a/dsptoolbox/classes/sv_filter.py
+++ b/dsptoolbox/classes/sv_filter.py
@@ -139,7 +139,7 @@ class StateVariableFilter(RealtimeFilter):
         td = self.__process_vector(signal.time_data)
         return MultiBandSignal(
             [
-                type(signal)(None, td[:, i, :], sampling_rate_hz=self.sampling_rate_hz)
+                signal.copy_with_new_time_data(td[:, i, :])
                 for i in range(4)
             ]
         )
-- 
2.43.0


From b3d8d211bf914554f4bcfe76016ee2b6d4c0be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 39/91] fix: state space filter delayed or rejected
 coefficients of different lengths

---
 dsptoolbox/classes/state_space_filter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dsptoolbox/classes/state_space_filter.py b/dsptoolbox/classes/state_space_filter.py
index b016555..9b1ceb7 100644
--- a/dsptoolbox/classes/state_space_filter.py
+++ b/dsptoolbox/classes/state_space_filter.py
@@ -71,6 +71,11 @@ class StateSpaceFilter(RealtimeFilter):
 
         """
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
+        # tf2ss works with polynomials in z: equal lengths are needed so that
+        # they match the coefficients of z^-1
+        length = max(len(b), len(a))
+        b = np.pad(b, (0, length - len(b)))
+        a = np.pad(a, (0, length - len(a)))
         return StateSpaceFilter(*tf2ss(b, a))
 
     @staticmethod
-- 
2.43.0


From 093bcef04c44d202b44b3ce6e1f87d8b8780c596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 40/91] fix: parallel filter kept processing samples with the
 coefficients set previously

---
 dsptoolbox/classes/parallel_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/classes/parallel_filter.py b/dsptoolbox/classes/parallel_filter.py
index c69c405..fd4e0b0 100644
--- a/dsptoolbox/classes/parallel_filter.py
+++ b/dsptoolbox/classes/parallel_filter.py
@@ -135,6 +135,7 @@ class ParallelFilter(RealtimeFilter):
         else:
             self.__fir_coefficients = np.array([])
         self.n_fir = len(self.__fir_coefficients)
+        self.__compute_filter_bank()
         return self
 
     def fit_to_ir(self, ir: ImpulseResponse):
-- 
2.43.0


From dcd8988e269a3486edd4ab6aa41a0786cfa3f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 41/91] fix: lattice filter from unnormalized second-order
 sections raised an error

---
 dsptoolbox/classes/lattice_ladder_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 9a3c900..2074377 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -466,7 +466,7 @@ def _get_lattice_ladder_coefficients_iir_sos(
     """
     # Normalize second-order sections individually
     if not np.all(sos[:, 3] == 1.0):
-        sos /= sos[:, 3]
+        sos = sos / sos[:, 3][:, None]
 
     n_sections = sos.shape[0]
     k = np.zeros((n_sections, 2))
-- 
2.43.0


From 4a20bad58dba857af159a14576934ccc8a257987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 42/91] fix: lattice filter required normalized coefficients of
 equal lengths

---
 dsptoolbox/classes/lattice_ladder_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 2074377..046cd03 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -134,6 +134,8 @@ class LatticeLadderFilter(RealtimeFilter):
                 return LatticeLadderFilter(k, c, filt.sampling_rate_hz)
 
             b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
+            length = max(len(b), len(a))
+            b, a = (np.pad(v / a[0], (0, length - len(v))) for v in (b, a))
             k, c = _get_lattice_ladder_coefficients_iir(b, a)
             return LatticeLadderFilter(k, c, filt.sampling_rate_hz)
 
-- 
2.43.0


From 4b0e8c3425a2e0ecb5d341c7ec240910bc03158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 43/91] fix: lattice filter lost the gain of FIR filters

---
 dsptoolbox/classes/lattice_ladder_filter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/classes/lattice_ladder_filter.py b/dsptoolbox/classes/lattice_ladder_filter.py
index 046cd03..e9c1b4f 100644
--- a/dsptoolbox/classes/lattice_ladder_filter.py
+++ b/dsptoolbox/classes/lattice_ladder_filter.py
@@ -99,6 +99,7 @@ class LatticeLadderFilter(RealtimeFilter):
                 self.iir_filter = False
         self.k = k_coefficients
         self.c = c_coefficients
+        self.gain = 1.0  # Applied to the output of the FIR lattice
         self.state: NDArray[np.float64] | None = None
         self.sampling_rate_hz = sampling_rate_hz
         self.set_n_channels(1)
@@ -141,13 +142,15 @@ class LatticeLadderFilter(RealtimeFilter):
 
         # FIR
         b, a = filt.get_coefficients(FilterCoefficientsType.Ba)
-        b /= b[0]
-        k = _get_lattice_coefficients_fir(b)
+        gain = b[0]
+        k = _get_lattice_coefficients_fir(b / gain)
         assert np.all(np.abs(k) < 1), (
             "Some reflection coefficient was "
             + "equal or larger than zero, this is not supported"
         )
-        return LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        lattice = LatticeLadderFilter(k, None, filt.sampling_rate_hz)
+        lattice.gain = gain
+        return lattice
 
     def set_n_channels(self, n_channels: int):
         assert n_channels > 0, "At least one channel must be initialized"
@@ -206,6 +209,7 @@ class LatticeLadderFilter(RealtimeFilter):
                 )
         elif not self.iir_filter:
             td, self.state = _lattice_filtering_fir(self.k, td, self.state)
+            td *= self.gain
         elif self.iir_filter and self.c is None:
             raise NotImplementedError("No implementation for all-pole IIR filtering")
 
@@ -239,7 +243,7 @@ class LatticeLadderFilter(RealtimeFilter):
             else:
                 return self.__lattice_ladder_filtering_iir_sample(x, channel)
         else:
-            return self.__lattice_filtering_fir_sample(x, channel)
+            return self.gain * self.__lattice_filtering_fir_sample(x, channel)
 
     def __lattice_ladder_filtering_sos_sample(self, x: float, channel: int) -> float:
         for section in range(self.k.shape[0]):
-- 
2.43.0


From b3f065aa20f3aa2e1c80be085c8935dc17b4efdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 44/91] fix: Welch's method raised an error for signals with a
 single frame

---
 dsptoolbox/standard/_spectral_methods.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 0147016..ade87db 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -128,9 +128,9 @@ def _welch(
         y_frames *= window[:, np.newaxis, np.newaxis]
 
     if not multi_channel:
-        x_frames = np.squeeze(x_frames)
+        x_frames = x_frames[..., 0]
         if not autospectrum:
-            y_frames = np.squeeze(y_frames)
+            y_frames = y_frames[..., 0]
 
     # Detrend
     if detrend:
-- 
2.43.0


From edc4b0c834fcdc791fff0250adcaf344e85f0a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 45/91] fix: bias of the median in Welch's method was wrong

---
 dsptoolbox/standard/_spectral_methods.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index ade87db..d6a8d42 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -158,7 +158,8 @@ def _welch(
             if sp_frames.shape[1] % 2 == 1
             else sp_frames.shape[1] - 1
         )
-        bias = np.sum((-1) ** (n + 1) / n)
+        harmonics = np.arange(1, n + 1)
+        bias = np.sum((-1.0) ** (harmonics + 1) / harmonics)
         csd /= bias
 
     # Weightning (with 2 because one-sided)
-- 
2.43.0


From 1c42c060f06c13d7d3507c1e4fe15ca66055eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 46/91] fix: amplitude scalings of Welch's method used the
 square root of their factor

---
 dsptoolbox/standard/_spectral_methods.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index d6a8d42..7671059 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -165,6 +165,8 @@ def _welch(
     # Weightning (with 2 because one-sided)
     if scaling.has_physical_units():
         factor = scaling.get_scaling_factor(window_length_samples, fs_hz, window)
+        if scaling.is_amplitude_scaling():
+            factor = factor**2.0  # Still a power quantity
         csd *= factor
         csd[np.array([0, -1]), ...] /= 2
 
-- 
2.43.0


From 9164ecdda92b72fc465297830c3341b8f88be237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:55 +0000
Subject: [PATCH 47/91] fix: frequency vector of spectrograms ignored the FFT
 length

---
 dsptoolbox/standard/_spectral_methods.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 7671059..7a50d4e 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -281,7 +281,7 @@ def _stft(
         stft *= factor
 
     time_s = np.linspace(0, len(x) / fs_hz, stft.shape[1])
-    freqs_hz = np.fft.rfftfreq(len(window), 1 / fs_hz)
+    freqs_hz = np.fft.rfftfreq(fft_length_samples, 1 / fs_hz)
     return time_s, freqs_hz, stft
 
 
-- 
2.43.0


From 5cbf2f961b1054eaf932f979633cce860ed6cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:55 +0000
Subject: [PATCH 48/91] fix: Welch spectrum of a single-channel signal had no
 channel dimension

---
 dsptoolbox/classes/signal.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 49f5411..900ad27 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -898,6 +898,8 @@ class Signal(MultichannelData):
                     self._spectrum_parameters["average"],
                     self._spectrum_parameters["scaling"],
                 )
+                if spectrum.ndim == 1:
+                    spectrum = spectrum[..., None]
                 fft_length = self._spectrum_parameters["window_length_samples"]
             else:  # FFT
                 fft_length = (
-- 
2.43.0


From 6798fdec9f825d25de7b4d2a5fd22e9f0c51c023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:55 +0000
Subject: [PATCH 49/91] fix: scaled cross-spectral matrix from the FFT was
 neither Hermitian nor consistent with the spectra

---
 dsptoolbox/classes/signal.py             |  5 ++++
 dsptoolbox/standard/_spectral_methods.py | 35 +++++++++++++-----------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/dsptoolbox/classes/signal.py b/dsptoolbox/classes/signal.py
index 900ad27..416ec62 100644
--- a/dsptoolbox/classes/signal.py
+++ b/dsptoolbox/classes/signal.py
@@ -1003,6 +1003,11 @@ class Signal(MultichannelData):
                     old_scaling,
                     self.window if hasattr(self, "window") else None,
                     self.sampling_rate_hz,
+                    (
+                        next_fast_len(self.length_samples, True)
+                        if self._spectrum_parameters["pad_to_fast_length"]
+                        else self.length_samples
+                    ),
                 )
                 self.spectrum_scaling = old_scaling
             if self.activate_cache:
diff --git a/dsptoolbox/standard/_spectral_methods.py b/dsptoolbox/standard/_spectral_methods.py
index 7a50d4e..1eae9dc 100644
--- a/dsptoolbox/standard/_spectral_methods.py
+++ b/dsptoolbox/standard/_spectral_methods.py
@@ -379,6 +379,7 @@ def _csm_fft(
     scaling: SpectrumScaling,
     window: NDArray[np.float64] | None,
     sampling_rate_hz: int,
+    time_length_samples: int,
 ) -> np.complex128:
     """Compute the cross-spectral matrix from a multichannel complex spectrum.
     It is assumed that the input spectrum has no scaling, i.e., FFTBackward
@@ -394,6 +395,8 @@ def _csm_fft(
         Time window if it has been applied.
     sampling_rate_hz : int
         Sampling rate.
+    time_length_samples : int
+        Length of the time data from which the spectrum was computed.
 
     Returns
     -------
@@ -409,6 +412,20 @@ def _csm_fft(
     if window is not None:
         assert window.shape[1] == spectrum.shape[1], "Number of channels does not match"
 
+    # Handle scaling
+    if scaling != SpectrumScaling.FFTBackward:
+        factor = scaling.get_scaling_factor(
+            time_length_samples, sampling_rate_hz, window
+        )
+        if not scaling.is_amplitude_scaling():
+            factor = factor**0.5
+        spectrum = spectrum * factor
+    if scaling.has_physical_units():
+        # Fix DC and Nyquist because one-sided
+        spectrum[0] /= 2**0.5
+        if time_length_samples % 2 == 0:
+            spectrum[-1] /= 2**0.5
+
     number_of_channels = spectrum.shape[1]
     csm = np.zeros(
         (
@@ -423,24 +440,10 @@ def _csm_fft(
             # Complex conjugate second signal and not first (like transposing
             # the matrix)
             csm[:, ind2, ind1] = spectrum[:, ind1].conjugate() * spectrum[:, ind2]
+            if scaling.has_physical_units() and scaling.is_amplitude_scaling():
+                csm[:, ind2, ind1] = np.sqrt(csm[:, ind2, ind1])
             # Half for summing the csm
             if ind1 == ind2:
                 csm[:, ind1, ind2] *= 0.5
     csm += np.swapaxes(csm, 1, 2).conjugate()
-
-    # Handle scaling
-    if scaling == SpectrumScaling.FFTBackward:
-        return csm
-
-    # Fix DC and Nyquist because one-sided
-    csm[np.array([0, -1]), ...] /= 2.0
-
-    # Conversion
-    factor = SpectrumScaling.FFTBackward.conversion_factor(
-        scaling, spectrum.shape[0] // 2 + 1, sampling_rate_hz, window
-    )[:, None]
-    factor = np.repeat(factor, number_of_channels, axis=-1)
-    csm *= factor[None, ...]
-    if scaling.is_amplitude_scaling():
-        csm = np.sqrt(csm)
     return csm
-- 
2.43.0


From 1b26fa3a6a075dff0f1a12737e2f520aba7bdf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 50/91] fix: transfer functions and coherence were quotients of
 amplitude instead of power spectra

---
 dsptoolbox/transfer_functions/transfer_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 83a1f08..8f7601a 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -51,6 +51,7 @@ from ..filterbanks import linkwitz_riley_crossovers
 from ..helpers.gain_and_level import to_db, from_db
 from ..standard.enums import (
     SpectrumMethod,
+    SpectrumScaling,
     SpectrumType,
     MagnitudeNormalization,
     Window,
@@ -473,6 +474,8 @@ def compute_transfer_function(
     spectrum_parameters.pop("method")
     spectrum_parameters.pop("smoothing")
     spectrum_parameters.pop("pad_to_fast_length")
+    # The estimators are defined as quotients of power spectra
+    spectrum_parameters["scaling"] = SpectrumScaling.PowerSpectralDensity
 
     coherence = np.zeros((window_length_samples // 2 + 1, output.number_of_channels))
     tf = np.zeros(
-- 
2.43.0


From 429655e14f80dd223913ed86846930523e44137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 51/91] fix: spectral deconvolution used zero-padded or scaled
 spectra

---
 dsptoolbox/transfer_functions/transfer_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 8f7601a..9f0364a 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -140,8 +140,9 @@ def spectral_deconvolve(
         output.time_data = _pad_trim(output.time_data, original_length * 2)
         input.time_data = _pad_trim(input.time_data, original_length * 2)
 
-    input.spectrum_method = SpectrumMethod.FFT
-    output.spectrum_method = SpectrumMethod.FFT
+    # Plain spectra regardless of the parameters stored in the signals
+    for s in (input, output):
+        s.set_spectrum_parameters(SpectrumMethod.FFT, pad_to_fast_length=False)
     _, denum_fft = input.get_spectrum()
     freqs_hz, num_fft = output.get_spectrum()
     fs_hz = output.sampling_rate_hz
-- 
2.43.0


From fb59ebdda7b862918ee2aeda8f8a2694ec7feaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:21 +0000
Subject: [PATCH 52/91] fix: averaging of impulse responses did not normalize
 their energies

---
 dsptoolbox/transfer_functions/transfer_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index 9f0364a..d53d788 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -581,11 +581,11 @@ def average_irs(
     if normalize_energy:
         energies = np.sum(signal.time_data**2, axis=0)
         energies /= energies[0]
-        avg_sig.time_data *= energies
+        avg_sig.time_data *= np.where(energies > 0.0, energies, 1.0) ** -0.5
 
     if not time_average:
         # Obtain channel magnitude and phase spectra
-        _, sp = signal.get_spectrum()
+        sp = np.fft.rfft(avg_sig.time_data, axis=0)
         mag = np.abs(sp)
         pha = np.unwrap(np.angle(sp), axis=0)
 
@@ -607,7 +607,7 @@ def average_irs(
                 latencies[channel_to_follow] - latencies[i]
             ) / signal.sampling_rate_hz
             new_channel = fractional_delay(
-                signal.get_channels(i), latency_s, keep_length=True
+                avg_sig.get_channels(i), latency_s, keep_length=True
             )
             avg_sig.time_data[:, i] = new_channel.time_data[:, 0]
         new_time_data = np.mean(avg_sig.time_data, axis=1)
-- 
2.43.0


From 6fa62c5184610b905ee85436cc9d29d1b7e6f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:12 +0000
Subject: [PATCH 53/91] fix: spectral deconvolution used the frequency range of
 the first input for all channels

---
 .../transfer_functions/transfer_functions.py  | 23 +++++++++----------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/dsptoolbox/transfer_functions/transfer_functions.py b/dsptoolbox/transfer_functions/transfer_functions.py
index d53d788..220279c 100644
--- a/dsptoolbox/transfer_functions/transfer_functions.py
+++ b/dsptoolbox/transfer_functions/transfer_functions.py
@@ -151,31 +151,30 @@ def spectral_deconvolve(
 
     for n in range(output.number_of_channels):
         n_denum = 0 if multichannel else n
+        channel_range_hz = start_stop_hz
         if apply_regularization:
-            if start_stop_hz is None:
-                start_stop_hz = find_frequencies_above_threshold(
+            if channel_range_hz is None:
+                channel_range_hz = find_frequencies_above_threshold(
                     denum_fft[:, n_denum], freqs_hz, threshold_db
                 )
-            if len(start_stop_hz) == 2:
-                start_stop_hz = np.array(
+            if len(channel_range_hz) == 2:
+                channel_range_hz = np.array(
                     [
-                        start_stop_hz[0] / np.sqrt(2),
-                        start_stop_hz[0],
-                        start_stop_hz[1],
-                        np.min([start_stop_hz[1] * np.sqrt(2), fs_hz / 2]),
+                        channel_range_hz[0] / np.sqrt(2),
+                        channel_range_hz[0],
+                        channel_range_hz[1],
+                        np.min([channel_range_hz[1] * np.sqrt(2), fs_hz / 2]),
                     ]
                 )
-            elif len(start_stop_hz) != 4:
+            elif len(channel_range_hz) != 4:
                 raise ValueError("start_stop_hz vector should have 2 or 4 values")
-        else:
-            start_stop_hz = None
 
         new_time_data[:, n] = _spectral_deconvolve(
             num_fft[:, n],
             denum_fft[:, n_denum],
             freqs_hz,
             original_length * 2 if padding else original_length,
-            start_stop_hz=start_stop_hz,
+            start_stop_hz=channel_range_hz,
             regularized=apply_regularization,
         )
     new_sig = ImpulseResponse(
-- 
2.43.0


From 7a4aa8af6e920cca02dc68d3653df478e6dba57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:18 +0000
Subject: [PATCH 54/91] fix: centered window was misplaced or raised an error
 for some peak positions

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 483124c..09ea412 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -166,7 +166,7 @@ def _window_this_ir(
     """
     peak_ind = int(np.argmax(np.abs(vec)))
     half_length = total_length // 2
-    centered_impulse_and_even = peak_ind + half_length == len(vec) and len(vec) % 2 == 0
+    original_length = len(vec)
 
     # If Peak is in the second half
     flipping = peak_ind > half_length
@@ -189,12 +189,12 @@ def _window_this_ir(
         vec = np.pad(vec, ((0, total_length + ind_low_td - len(vec))))
 
     # Get second half
-    if peak_ind + half_length + 1 > len(vec) and not centered_impulse_and_even:
+    if peak_ind + half_length + 1 > len(vec):
         ind_up_td = len(vec)
-        ind_up_w = peak_ind + half_length + 1 - len(vec)
+        ind_up_w = len(w) - (peak_ind + half_length + 1 - len(vec))
     else:
         ind_up_td = peak_ind + half_length + 1
-        ind_up_w = len(w) - (1 if centered_impulse_and_even else 0)
+        ind_up_w = len(w)
 
     # Get time data and window
     w = w[ind_low_w:ind_up_w]
-- 
2.43.0


From f09b20282e930fd62faae112c8b7f884410cb04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:18 +0000
Subject: [PATCH 55/91] fix: start of centered windows was counted from the end
 of the impulse response

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index 09ea412..e006795 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -209,6 +209,7 @@ def _window_this_ir(
     if flipping:
         td = td[::-1]
         w = w[::-1]
+        ind_low_td = max(original_length - total_length - ind_low_td, 0)
 
     return td, w, ind_low_td
 
-- 
2.43.0


From 36bb3ab21a103124825453290f1856a0650539d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:56 +0000
Subject: [PATCH 56/91] fix: impulse was misaligned or lost when windowing with
 an offset larger than its position

---
 dsptoolbox/transfer_functions/_transfer_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/transfer_functions/_transfer_functions.py b/dsptoolbox/transfer_functions/_transfer_functions.py
index e006795..db6c15d 100644
--- a/dsptoolbox/transfer_functions/_transfer_functions.py
+++ b/dsptoolbox/transfer_functions/_transfer_functions.py
@@ -77,7 +77,7 @@ def _window_this_ir_tukey(
         if impulse_index - offset_samples < 0:
             pad_length = -int(impulse_index - offset_samples)
             vec = np.pad(vec, ((pad_length, 0)))
-            impulse_index += pad_length  # Update to reflect new position after padding
+            impulse_index = 0  # Constant part begins with the padded vector
             start_sample += pad_length
             padding_left += pad_length
         else:
-- 
2.43.0


From 495bff850d6fd4e424c311fec58df6ef980e4281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 57/91] fix: istft uses the overlap of the analysis, also when
 there is none

---
 dsptoolbox/transforms/transforms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index 8b1cc6e..a255114 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -565,12 +565,13 @@ def istft(
         )
 
     # Reconstruct from framed representation to continuous
-    step = int((1 - parameters["overlap_percent"] / 100) * len(window))
+    # (same rounding as during analysis)
+    overlap = int(parameters["overlap_percent"] / 100 * len(window) + 0.5)
+    step = len(window) - overlap
 
     if parameters["padding"]:
         td = _reconstruct_framed_signal(td_framed, step_size=step, window=window)
-        overlap = int(parameters["overlap_percent"] / 100 * len(window))
-        td = td[overlap:-overlap, :]
+        td = td[overlap : td.shape[0] - overlap, :]
     else:
         extra_window = np.zeros_like(td_framed[:, 0, :])[:, np.newaxis, :]
         td_framed = np.append(extra_window, td_framed, axis=1)
-- 
2.43.0


From 4489e670942523f3fdae3cb35ac05a77aa74c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:33 +0000
Subject: [PATCH 58/91] fix: istft reverts the amplitude scalings of the
 spectrogram

---
 dsptoolbox/transforms/transforms.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/dsptoolbox/transforms/transforms.py b/dsptoolbox/transforms/transforms.py
index a255114..bd8de67 100644
--- a/dsptoolbox/transforms/transforms.py
+++ b/dsptoolbox/transforms/transforms.py
@@ -552,17 +552,26 @@ def istft(
         parameters["window_length_samples"],
     )
 
+    fft_length_samples = parameters["fft_length_samples"]
+    if fft_length_samples is None:
+        fft_length_samples = parameters["window_length_samples"]
+    if original_signal is not None:
+        sampling_rate_hz = original_signal.sampling_rate_hz
+    if parameters["scaling"].has_physical_units():
+        stft = stft / parameters["scaling"].get_scaling_factor(
+            fft_length_samples, sampling_rate_hz, window
+        )
+        stft[0, ...] *= 2**0.5
+        if fft_length_samples % 2 == 0:
+            stft[-1, ...] *= 2**0.5
+
     td_framed = np.fft.irfft(
         stft,
         axis=0,
-        n=parameters["fft_length_samples"],
+        n=fft_length_samples,
         norm=parameters["scaling"].fft_norm(),
     )
     td_framed = td_framed[: parameters["window_length_samples"], ...]
-    if parameters["scaling"].has_physical_units():
-        td_framed /= parameters["scaling"].get_scaling_factor(
-            parameters["fft_length_samples"], sampling_rate_hz, window
-        )
 
     # Reconstruct from framed representation to continuous
     # (same rounding as during analysis)
-- 
2.43.0


From 46dc6b41bf3f05fce80791d4f90124f6a0284967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 59/91] fix: smoothing with a window vector pads according to
 its length

---
 dsptoolbox/helpers/smoothing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index f53e162..cd1255e 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -87,6 +87,7 @@ def _fractional_octave_smoothing(
             window_type is None
         ), "When using a window as a vector, window type should be None"
         window = window_vec
+        n_window = len(window)
 
     # Dimension handling
     one_dim = False
-- 
2.43.0


From 9940dccf2e98b9fcd1e886bf9438c699d8b202a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 60/91] fix: smoothing does not normalize the window vector of
 the caller

---
 dsptoolbox/helpers/smoothing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/smoothing.py b/dsptoolbox/helpers/smoothing.py
index cd1255e..b9054cf 100644
--- a/dsptoolbox/helpers/smoothing.py
+++ b/dsptoolbox/helpers/smoothing.py
@@ -96,7 +96,7 @@ def _fractional_octave_smoothing(
         vector = vector[..., None]
 
     # Normalize window
-    window /= window.sum()
+    window = window / window.sum()
 
     # Smoothe by convolving with window (output is centered)
     n_window_half = n_window // 2
-- 
2.43.0


From 0e318ce249d9f80dd1b7e77fc2a618264ea5a962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 61/91] fix: logarithmic fades of less than two samples

---
 dsptoolbox/helpers/gain_and_level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/helpers/gain_and_level.py b/dsptoolbox/helpers/gain_and_level.py
index b788795..320de45 100644
--- a/dsptoolbox/helpers/gain_and_level.py
+++ b/dsptoolbox/helpers/gain_and_level.py
@@ -141,7 +141,7 @@ def _fade(
         case FadeType.Logarithmic:
             # The constant 50 could be an extra parameter for the user...
             fade = np.log10(np.linspace(1, 50 * 10**0.5, l_samples))
-            fade /= fade[-1]
+            fade /= np.log10(50 * 10**0.5)
         case _:
             raise ValueError("No valid fade")
 
-- 
2.43.0


From 4d4077d4954a543f4c8c38e32736cb207663a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 62/91] fix: coloured noise shorter than a period of 15 Hz is
 not NaN

---
 dsptoolbox/generators/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index a8414e2..419e3e7 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -92,7 +92,8 @@ def noise(
     # Set to 15 Hz to cover whole audible spectrum but without
     # numerical instabilities because of large values in lower
     # frequencies
-    id_low = np.argmin(np.abs(f - 15))
+    # (the lowest bin is not scaled because its frequency is zero)
+    id_low = max(1, np.argmin(np.abs(f - 15)))
     mag[0] = 0
     if type_of_noise != NoiseType.White or type_of_noise != 0.0:
         mag[:id_low] *= 1e-20
-- 
2.43.0


From 878208a904c32cbf10ca383e4088db028235eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 63/91] fix: padding of chirps and oscillators is rounded to
 samples like their length

---
 dsptoolbox/generators/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/generators/generators.py b/dsptoolbox/generators/generators.py
index 419e3e7..06cbd28 100644
--- a/dsptoolbox/generators/generators.py
+++ b/dsptoolbox/generators/generators.py
@@ -216,7 +216,7 @@ def chirp(
         range_hz = [15, sampling_rate_hz // 2]
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
@@ -370,7 +370,7 @@ def oscillator(
 
     if padding_end_seconds != 0:
         assert padding_end_seconds > 0, "Padding has to be a positive time"
-        p_samples = int(padding_end_seconds * sampling_rate_hz)
+        p_samples = int(padding_end_seconds * sampling_rate_hz + 0.5)
     else:
         p_samples = 0
     l_samples = int(sampling_rate_hz * length_seconds + 0.5)
-- 
2.43.0


From 4e86394f359b526577f032c8a9c3d88b543fae84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 64/91] fix: compressor with hard knee is defined at the
 threshold

---
 dsptoolbox/effects/_effects.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 4aa6219..d6914bc 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -170,22 +170,22 @@ def _get_knee_func(
             if type(x) is float:
                 if x - T < -W / 2:
                     return x
-                elif np.abs(x - T) <= W / 2:
-                    return x - (1 / R - 1) * (x - T - W / 2) ** 2 / 2 / W
-                elif x - T > W / 2:
+                elif x - T > W / 2 or W == 0:
                     return T + (x - T) / R
+                return x + (1 / R - 1) * (x - T + W / 2) ** 2 / 2 / W
 
             y = np.zeros_like(x)
             first_section = x - T < -W / 2
             y[first_section] = x[first_section]
 
-            second_section = np.abs(x - T) <= W / 2
+            # A hard knee has no transition
+            second_section = (np.abs(x - T) <= W / 2) & (W > 0)
             y[second_section] = (
                 x[second_section]
                 + (1 / R - 1) * (x[second_section] - T + W / 2) ** 2 / 2 / W
             )
 
-            third_section = x - T > W / 2
+            third_section = (x - T > W / 2) | ((W == 0) & (x == T))
             y[third_section] = T + (x[third_section] - T) / R
             return y
 
@@ -195,22 +195,22 @@ def _get_knee_func(
             if type(x) is float:
                 if x - T < -W / 2:
                     return T + (x - T) / R
-                elif np.abs(x - T) <= W / 2:
-                    return x - (1 / R - 1) * (x - T - W / 2) ** 2 / 2 / W
-                elif x - T > W / 2:
+                elif x - T > W / 2 or W == 0:
                     return x
+                return x - (1 / R - 1) * (x - T - W / 2) ** 2 / 2 / W
 
             y = np.zeros_like(x)
             first_section = x - T < -W / 2
             y[first_section] = T + (x[first_section] - T) / R
 
-            second_section = np.abs(x - T) <= W / 2
+            # A hard knee has no transition
+            second_section = (np.abs(x - T) <= W / 2) & (W > 0)
             y[second_section] = (
                 x[second_section]
                 - (1 / R - 1) * (x[second_section] - T - W / 2) ** 2 / 2 / W
             )
 
-            third_section = x - T > W / 2
+            third_section = (x - T > W / 2) | ((W == 0) & (x == T))
             y[third_section] = x[third_section]
             return y
 
-- 
2.43.0


From 1bf4b0a5bbaa2157022c527a7165a662ea4e7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 65/91] fix: compressor mixes the clean signal as requested

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index d6914bc..29d6c2c 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -141,7 +141,7 @@ def _compressor(
             momentary_gain = coeff * gain_factor + (1 - coeff) * momentary_gain
 
             # Apply gain
-            x_[i, n] *= momentary_gain
+            x_[i, n] *= momentary_gain * mix_compressed + (1 - mix_compressed)
 
     if single_channel:
         x_ = x_.squeeze()
-- 
2.43.0


From 7a8c4d4a74b0d75516d8ef805221aa10c263cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 66/91] fix: post-compression gain of the compressor

---
 dsptoolbox/effects/effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index d8bd109..4210426 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1009,7 +1009,7 @@ class Compressor(AudioEffect):
             td = self._restore_rms_values(td)
 
         # Post-compression gain
-        td = self._add_gain_in_db(td, self.pre_gain_db)
+        td = self._add_gain_in_db(td, self.post_gain_db)
 
         return signal.copy_with_new_time_data(td)
 
-- 
2.43.0


From de8b82bc3be08e95f7a651d3d38cafe568f6150c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 67/91] fix: mix of distortions had no influence and changed
 the peak level

---
 dsptoolbox/effects/effects.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 4210426..944666c 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -738,13 +738,17 @@ class Distortion(AudioEffect):
         for i in range(len(self.__distortion_funcs)):
             if self.mix[i] == 0.0:
                 continue
-            new_td += self._restore_peak_values(
-                self.__distortion_funcs[i](
-                    td, self.distortion_levels[i], self.offset_db[i]
+            new_td += (
+                self._restore_peak_values(
+                    self.__distortion_funcs[i](
+                        td, self.distortion_levels[i], self.offset_db[i]
+                    )
                 )
                 * self.mix[i]
             )
 
+        # Peak levels of the signal are kept
+        new_td = self._restore_peak_values(new_td)
         new_td = self._add_gain_in_db(new_td, self.post_gain_db)
 
         return signal.copy_with_new_time_data(new_td)
-- 
2.43.0


From ffcfe2305df0798cfa9afe71ccf84c7b5ca7f0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 68/91] fix: tremolo accepts modulators given as arrays

---
 dsptoolbox/effects/effects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index 944666c..f2ebca1 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1055,9 +1055,9 @@ class Tremolo(AudioEffect):
         if modulator is not None:
             assert type(modulator) in (
                 LFO,
-                NDArray[np.float64],
+                np.ndarray,
             ), "Unsupported modulator type. Use LFO or numpy.ndarray"
-            if type(modulator) is NDArray[np.float64]:
+            if type(modulator) is np.ndarray:
                 modulator = modulator.squeeze()
                 assert modulator.ndim == 1, "Modulator signal can have only one channel"
             self.modulator = modulator
-- 
2.43.0


From ac917514de02a1dda542925bd0e4769ac75a1dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:15 +0000
Subject: [PATCH 69/91] fix: 32th notes were always taken for triplets

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 29d6c2c..a7e7388 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -515,7 +515,7 @@ def get_frequency_from_musical_rhythm(note, bpm):
         factor = 1 / 8
     if "quintuplet" in note:
         factor = 1 / 5
-    if "3" in note:
+    if "3" in note.replace("32th", ""):
         factor *= 2 / 3
     if "dotted" in note:
         factor *= 1.5
-- 
2.43.0


From 601f14d782cbff76d972771911be62cb44c8d487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:15 +0000
Subject: [PATCH 70/91] fix: digital delay accepts a custom saturation

---
 dsptoolbox/effects/effects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/effects.py b/dsptoolbox/effects/effects.py
index f2ebca1..bf18b76 100644
--- a/dsptoolbox/effects/effects.py
+++ b/dsptoolbox/effects/effects.py
@@ -1396,7 +1396,8 @@ class DigitalDelay(AudioEffect):
         """
         if saturation is None:
             saturation = "digital"
-        saturation = saturation.lower()
+        if type(saturation) is str:
+            saturation = saturation.lower()
         if saturation == "digital":
 
             def func(x):
-- 
2.43.0


From 3bd100d00ae06fe5d1c325dd692b7a2b59a56b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:21 +0000
Subject: [PATCH 71/91] fix: soft clipping inverted the polarity of large
 values

---
 dsptoolbox/effects/_effects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index a7e7388..9f6bfea 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -45,8 +45,9 @@ def _soft_clip_distortion(
     normalized = inp / peak_level * (2 / 3)
     normalized += offset_linear
     normalized *= distortion_level_linear
-    normalized = normalized - normalized**3 / 3
-    return np.clip(normalized, a_min=-2 / 3, a_max=2 / 3)
+    # The cubic curve is only monotone up to one
+    normalized = np.clip(normalized, a_min=-1, a_max=1)
+    return normalized - normalized**3 / 3
 
 
 def _clean_signal(
-- 
2.43.0


From 3fa48e3c1988a8d87b0518b2b65837cd5f0988c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:21 +0000
Subject: [PATCH 72/91] fix: frequency of a musical rhythm increases with the
 tempo

---
 dsptoolbox/effects/_effects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/effects/_effects.py b/dsptoolbox/effects/_effects.py
index 9f6bfea..e8ec649 100644
--- a/dsptoolbox/effects/_effects.py
+++ b/dsptoolbox/effects/_effects.py
@@ -522,7 +522,7 @@ def get_frequency_from_musical_rhythm(note, bpm):
         factor *= 1.5
     if factor == 0:
         raise ValueError("No valid note description was passed")
-    return 60 / bpm / factor
+    return bpm / 60 / factor
 
 
 def get_time_period_from_musical_rhythm(note, bpm):
-- 
2.43.0


From 0c860a74ab2ce37ebfce723187fc91505fef623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 73/91] fix: points with negative coordinates are not inside
 the room

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 9b386d4..78960f1 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -446,7 +446,9 @@ class ShoeboxRoom(Room):
 
         """
         coordinates_m = np.squeeze(coordinates_m)
-        return bool(np.all(coordinates_m <= self.dimensions_m))
+        return bool(
+            np.all(coordinates_m >= 0.0) and np.all(coordinates_m <= self.dimensions_m)
+        )
 
     def get_mixing_time(
         self,
-- 
2.43.0


From c41fd5d4c8633f54e1b96b542903d54166d96196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 74/91] fix: absorption of the walls along x and y was
 exchanged in room impulse responses

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 78960f1..95e5f9c 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -198,8 +198,8 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
         beta_1 = np.ones(3) * beta
         beta_2 = np.ones(3) * beta
     elif len(beta) == 6:
-        beta_1 = np.array([beta[1], beta[3], beta[4]])  # South  # West  # Floor
-        beta_2 = np.array([beta[0], beta[2], beta[5]])  # North  # East  # Ceiling
+        beta_1 = np.array([beta[3], beta[1], beta[4]])  # West  # South  # Floor
+        beta_2 = np.array([beta[2], beta[0], beta[5]])  # East  # North  # Ceiling
     else:
         raise ValueError("Wrong length for absorption coefficients")
 
-- 
2.43.0


From 9ad86fd5f6c516a5975081a1c1f4d3c962aae277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 75/91] fix: dictionary with detailed absorption of the caller
 was modified

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 95e5f9c..3cdc651 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -740,6 +740,7 @@ class ShoeboxRoom(Room):
         )
 
         # Check absorption values and derive number of bands
+        detailed_absorption = detailed_absorption.copy()
         number_of_bands = 1
         for i in detailed_absorption:
             ab = np.atleast_1d(detailed_absorption[i])
-- 
2.43.0


From 980b06f323f798e3cb17fde4fe0e56c8513a2913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 76/91] fix: time vector of the centre time

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 3cdc651..3bcd912 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -995,7 +995,7 @@ def _ts_from_rir(td: NDArray[np.float64], fs: int, automatic_trimming: bool) ->
 
     td = td[:stop] ** 2
 
-    time_vec = np.linspace(0, len(td) / fs, len(td))
+    time_vec = np.arange(len(td)) / fs
     return np.sum(td * time_vec) / np.sum(td)
 
 
-- 
2.43.0


From 4a67fd3bea97106776519a72e4c505ba91e499a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 77/91] fix: trimming of descriptors was not passed on for
 multiband signals

---
 dsptoolbox/room_acoustics/room_acoustics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 3f66b86..4cea772 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -510,7 +510,11 @@ def descriptors(
         )
         desc = np.zeros((rir.number_of_bands, rir.number_of_channels))
         for ind, b in enumerate(rir):
-            desc[ind, :] = descriptors(b, descriptor=descriptor)
+            desc[ind, :] = descriptors(
+                b,
+                descriptor=descriptor,
+                automatic_trimming_rir=automatic_trimming_rir,
+            )
     else:
         raise TypeError("RIR must be of type Signal or MultiBandSignal")
     return desc
-- 
2.43.0


From f9fe49518dbd6a58c36e83b9ecd914e21657b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:50 +0000
Subject: [PATCH 78/91] fix: finding modes changed the spectrum method of the
 caller's signal

---
 dsptoolbox/room_acoustics/room_acoustics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/room_acoustics.py b/dsptoolbox/room_acoustics/room_acoustics.py
index 4cea772..8ef3551 100644
--- a/dsptoolbox/room_acoustics/room_acoustics.py
+++ b/dsptoolbox/room_acoustics/room_acoustics.py
@@ -180,11 +180,11 @@ def find_modes(
         "Range of frequencies must have a " + "minimum and a maximum value"
     )
     assert type(signal) is ImpulseResponse, "This is only valid for an impulse response"
-    signal.spectrum_method = SpectrumMethod.FFT
 
     # Pad signal to have a resolution of around 1 Hz
     length = signal.sampling_rate_hz
     signal = pad_trim(signal, length)
+    signal.spectrum_method = SpectrumMethod.FFT
     f, sp = signal.get_spectrum()
 
     # Setting up frequency range
-- 
2.43.0


From 251b4037d326ae7026f79f0f78c1f17531ee9302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:33 +0000
Subject: [PATCH 79/91] fix: image sources that arrive within the same sample
 were lost

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 3bcd912..769abce 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -265,7 +265,11 @@ def _generate_rir(room_dim, alpha, s_pos, r_pos, rt, mo, sr) -> NDArray[np.float
                 # Distances
                 ds = get_distance(l0)
                 # Write into RIR
-                rir_vec[seconds2samples(ds / c)] += get_damping(l0) / (4 * np.pi * ds)
+                np.add.at(
+                    rir_vec,
+                    seconds2samples(ds / c),
+                    get_damping(l0) / (4 * np.pi * ds),
+                )
     return rir_vec
 
 
-- 
2.43.0


From 392e0dd1a74645c91beee482a0b414895adc7a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:06 +0000
Subject: [PATCH 80/91] fix: rounding made distances between close points
 undefined or wrong

---
 dsptoolbox/helpers/other.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dsptoolbox/helpers/other.py b/dsptoolbox/helpers/other.py
index 9964ce1..8d23e17 100644
--- a/dsptoolbox/helpers/other.py
+++ b/dsptoolbox/helpers/other.py
@@ -146,11 +146,7 @@ def _euclidean_distance_matrix(x: NDArray[np.float64], y: NDArray[np.float64]):
     """
     assert x.ndim == 2 and y.ndim == 2, "Inputs must have exactly two dimensions"
     assert x.shape[1] == y.shape[1], "Dimensions do not match"
-    return np.sqrt(
-        np.sum(x**2, axis=1, keepdims=True)
-        + np.sum(y.T**2, axis=0, keepdims=True)
-        - 2 * x @ y.T
-    )
+    return np.sqrt(np.sum((x[:, None, :] - y[None, :, :]) ** 2, axis=-1))
 
 
 def _get_fractional_octave_bandwidth(
-- 
2.43.0


From 9a408d55803719d69b2355eb8263d3ba9a8e8c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:06 +0000
Subject: [PATCH 81/91] fix: grids and arrays with a single point could not be
 used

---
 dsptoolbox/beamforming/_beamforming.py | 12 +++++++-----
 dsptoolbox/beamforming/beamforming.py  | 14 +++++++-------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/dsptoolbox/beamforming/_beamforming.py b/dsptoolbox/beamforming/_beamforming.py
index 4967479..4a60661 100644
--- a/dsptoolbox/beamforming/_beamforming.py
+++ b/dsptoolbox/beamforming/_beamforming.py
@@ -41,9 +41,9 @@ class BasePoints:
         """
         for i in ("x", "y", "z"):
             assert i in positions, f"{i} values are missing"
-        x = np.asarray(positions["x"]).squeeze()[None, ...]
-        y = np.asarray(positions["y"]).squeeze()[None, ...]
-        z = np.asarray(positions["z"]).squeeze()[None, ...]
+        x = np.atleast_1d(np.asarray(positions["x"]).squeeze())[None, ...]
+        y = np.atleast_1d(np.asarray(positions["y"]).squeeze())[None, ...]
+        z = np.atleast_1d(np.asarray(positions["z"]).squeeze())[None, ...]
         assert (
             x.shape == y.shape and x.shape == z.shape
         ), "Shapes of x, y or z are not compatible"
@@ -106,12 +106,14 @@ class BasePoints:
         """
         if type(point) is not NDArray[np.float64]:
             point = np.asarray(point)
-        if point.ndim == 1:
+        single_point = point.ndim == 1
+        if single_point:
             point = point[None, ...]
         assert (
             point.shape[1] == self.coordinates.shape[1]
         ), f"Invalid shapes: {point.shape}, {self.coordinates.shape}"
-        return _euclidean_distance_matrix(self.coordinates, point).squeeze()
+        distances = _euclidean_distance_matrix(self.coordinates, point)
+        return distances[:, 0] if single_point else distances
 
     # ======== Plotting =======================================================
     def plot_points(self, projection: str | None = None):
diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index b1ef07c..d7b16bd 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -127,8 +127,8 @@ class Regular2DGrid(Grid):
         value3 = np.asarray(value3).squeeze()
         assert value3.ndim == 0, "value3 can only be a single value"
 
-        line1 = np.asarray(line1).squeeze()
-        line2 = np.asarray(line2).squeeze()
+        line1 = np.atleast_1d(np.asarray(line1).squeeze())
+        line2 = np.atleast_1d(np.asarray(line2).squeeze())
 
         # For reconstructing the matrix later
         self.original_lengths = (len(line1), len(line2))
@@ -875,7 +875,7 @@ class BeamformerDASFrequency(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1002,7 +1002,7 @@ class BeamformerCleanSC(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1119,7 +1119,7 @@ class BeamformerOrthogonal(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1215,7 +1215,7 @@ class BeamformerFunctional(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
@@ -1309,7 +1309,7 @@ class BeamformerMVDR(BeamformerGridded):
         if number_frequency_bins > 1:
             map = simpson(map, dx=f[1] - f[0], axis=1)
         else:
-            map = map.squeeze()
+            map = map[:, 0]
         self.map = self.grid.reconstruct_map_shape(map)
         return self.map.copy()
 
-- 
2.43.0


From 4bfa7671fda19ff888befa35e4b8b57654c676a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 82/91] fix: mixing sources emptied the caller's list and
 trimmed the signals of the sources

---
 dsptoolbox/beamforming/beamforming.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index d7b16bd..82f6b89 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1490,10 +1490,9 @@ def mix_sources_on_array(
     # Take first source
     multi_channel_sig = sources[0].get_signals_on_array(mics, c)
     total_length_samples = multi_channel_sig.time_data.shape[0]
-    sources.pop(0)
 
     # Add all other sources progressively checking for shortest duration
-    for s in sources:
+    for s in sources[1:]:
         # Warning if lengths do not match
         if total_length_samples != s.emitted_signal.time_data.shape[0]:
             warn(
@@ -1504,7 +1503,9 @@ def mix_sources_on_array(
                 total_length_samples, s.emitted_signal.time_data.shape[0]
             )
             multi_channel_sig = pad_trim(multi_channel_sig, total_length_samples)
-            s.emitted_signal = pad_trim(s.emitted_signal, total_length_samples)
+            s = MonopoleSource(
+                pad_trim(s.emitted_signal, total_length_samples), s.coordinates
+            )
         # Add to multi-channel data
         ns = s.get_signals_on_array(mics, c)
         multi_channel_sig.time_data += ns.time_data
-- 
2.43.0


From b406abb0aab44e67ac6e4e7275f0a6c41dc1f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 83/91] fix: sources beyond the second were mixed with a wrong
 level when the sum had to be normalized

---
 dsptoolbox/beamforming/beamforming.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/beamforming/beamforming.py b/dsptoolbox/beamforming/beamforming.py
index 82f6b89..c4d9e0d 100644
--- a/dsptoolbox/beamforming/beamforming.py
+++ b/dsptoolbox/beamforming/beamforming.py
@@ -1490,6 +1490,7 @@ def mix_sources_on_array(
     # Take first source
     multi_channel_sig = sources[0].get_signals_on_array(mics, c)
     total_length_samples = multi_channel_sig.time_data.shape[0]
+    mixed_data = multi_channel_sig.time_data.copy()
 
     # Add all other sources progressively checking for shortest duration
     for s in sources[1:]:
@@ -1502,13 +1503,14 @@ def mix_sources_on_array(
             total_length_samples = min(
                 total_length_samples, s.emitted_signal.time_data.shape[0]
             )
-            multi_channel_sig = pad_trim(multi_channel_sig, total_length_samples)
+            mixed_data = _pad_trim(mixed_data, total_length_samples)
             s = MonopoleSource(
                 pad_trim(s.emitted_signal, total_length_samples), s.coordinates
             )
         # Add to multi-channel data
         ns = s.get_signals_on_array(mics, c)
-        multi_channel_sig.time_data += ns.time_data
+        mixed_data = mixed_data + ns.time_data
+    multi_channel_sig.time_data = mixed_data
     return multi_channel_sig
 
 
-- 
2.43.0


From 60422c3dd4fecd1c5351e94a2a414553a5e7a701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 84/91] fix: the Itakura-Saito measure was computed with the
 wrong logarithm and could be negative

---
 dsptoolbox/distances/_distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/distances/_distances.py b/dsptoolbox/distances/_distances.py
index c99fd10..780525e 100644
--- a/dsptoolbox/distances/_distances.py
+++ b/dsptoolbox/distances/_distances.py
@@ -57,7 +57,7 @@ def _itakura_saito_measure(
 
     """
     assert x.shape == y.shape, "Power spectra have different lengths"
-    ism = simpson(x / y - np.log10(x / y) - 1, x=f)
+    ism = simpson(x / y - np.log(x / y) - 1, x=f)
     return ism
 
 
-- 
2.43.0


From af450ea440421b8d025a052a885986b8c13102ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 85/91] fix: spectral distances changed the spectrum settings
 of the passed signals

---
 dsptoolbox/distances/distances.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 3262106..8a64219 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -81,6 +81,7 @@ def log_spectral(
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
     insig1, insig2 = insig1.copy(), insig2.copy()
+    insig1, insig2 = insig1.copy(), insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
@@ -168,6 +169,7 @@ def itakura_saito(
         )
         assert not any(f_range_hz < 0), "Frequencies in range must be " + "positive"
     insig1, insig2 = insig1.copy(), insig2.copy()
+    insig1, insig2 = insig1.copy(), insig2.copy()
     insig1.set_spectrum_parameters(method=method, **spectrum_parameters)
     insig2.set_spectrum_parameters(method=method, **spectrum_parameters)
     f, spec1 = insig1.get_spectrum()
-- 
2.43.0


From ee5be50c998b1ea62daafa7d5fa8a8ae823b1a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 86/91] fix: segmental SNR sorted the ranges passed by the
 caller

---
 dsptoolbox/distances/distances.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dsptoolbox/distances/distances.py b/dsptoolbox/distances/distances.py
index 8a64219..66ea8b8 100644
--- a/dsptoolbox/distances/distances.py
+++ b/dsptoolbox/distances/distances.py
@@ -344,8 +344,7 @@ def fw_snr_seg(
         multichannel = True
     # Frequency range
     assert len(f_range_hz) == 2, "Frequency range must have lower and upper bounds"
-    f_range = np.asarray(f_range_hz)
-    f_range.sort()
+    f_range = np.sort(f_range_hz)
     assert f_range[1] < fs_hz // 2, (
         f"Upper frequency range {f_range[1]} must be smaller than nyquist "
         + f"frequency {fs_hz // 2}"
@@ -353,8 +352,7 @@ def fw_snr_seg(
     assert f_range[0] > 0, "Frequency range must be positive"
     # SNR range
     assert len(snr_range_db) == 2, "SNR range must have lower and upper bounds"
-    snr_range_db = np.asarray(snr_range_db)
-    snr_range_db.sort()
+    snr_range_db = np.sort(snr_range_db)
     # Time window
     length_samp = int(75e-3 * fs_hz)
     if length_samp % 2 == 1:
-- 
2.43.0


From 4555fa4d83516f418fb9851839dd890cafac4f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:03 +0000
Subject: [PATCH 87/91] fix: creating fractional octave bands sorted the range
 passed by the caller

---
 dsptoolbox/filterbanks/filterbanks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/filterbanks/filterbanks.py b/dsptoolbox/filterbanks/filterbanks.py
index 7580e27..225963e 100644
--- a/dsptoolbox/filterbanks/filterbanks.py
+++ b/dsptoolbox/filterbanks/filterbanks.py
@@ -379,7 +379,7 @@ def fractional_octave_bands(
         sampling_rate_hz is not None
     ), "A sampling rate must be passed for the filter bank"
     frequency_range_hz = np.atleast_1d(np.squeeze(frequency_range_hz))
-    frequency_range_hz.sort()
+    frequency_range_hz = np.sort(frequency_range_hz)
     assert (
         len(frequency_range_hz) == 2
     ), "Frequency range must contain exactly two entries"
-- 
2.43.0


From 5a3f63b1d2d42ce9eabe4887b9bac7b2baffa659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 88/91] fix: full-scale single-precision samples overflowed
 when converted to 32 bits

---
 dsptoolbox/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 597731a..2e68af4 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -436,6 +436,8 @@ def convert_sample_representation(
         values = values.astype(np.float64) / max_value_input
         if not signed_input:
             values -= 1.0
+    else:
+        values = np.asarray(values).astype(np.float64)
     values = np.clip(values, -1.0, 1.0)
 
     # ==== Output (from double precision to desired format)
-- 
2.43.0


From 22f00f597edc858463845ac4869c1585342e4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 89/91] fix: bytes with floating-point samples could not be
 converted

---
 dsptoolbox/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index 2e68af4..aa801c8 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -425,7 +425,7 @@ def convert_sample_representation(
                     f"""np.{"int" if signed_input else "uint"}{bits_input}"""
                 )
             else:
-                input_format_to_read = eval(f"np.{input_format}")
+                input_format_to_read = np.float32 if input_format == "f32" else np.float64
             values = np.frombuffer(values, dtype=input_format_to_read)
 
     # ==== Input (convert always to double precision)
-- 
2.43.0


From 1335cebfed69dfd114a5f9c967c3cc55a755b347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:22 +0000
Subject: [PATCH 90/91] fix: input sample formats in upper case were refused

---
 dsptoolbox/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/tools.py b/dsptoolbox/tools.py
index aa801c8..acbb00c 100644
--- a/dsptoolbox/tools.py
+++ b/dsptoolbox/tools.py
@@ -393,6 +393,8 @@ def convert_sample_representation(
     - `i` refers to signed integer and `u` means unsigned integer.
 
     """
+    input_format = input_format.lower()
+    output_format = output_format.lower()
     if input_format == output_format:
         raise AssertionError("No conversion is necessary")
 
@@ -408,8 +410,6 @@ def convert_sample_representation(
         "u24",
         "u32",
     ]
-    input_format.lower()
-    output_format = output_format.lower()
     assert (
         output_format in valid_formats and input_format in valid_formats
     ), f"Format {input_format} or {output_format} is not supported"
-- 
2.43.0


From c3c6cb23d394554a73751698a7bca2619fe0bcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:21 +0000
Subject: [PATCH 91/91] fix: mode indicator of several responses was not
 squared like that of one response

---
 dsptoolbox/room_acoustics/_room_acoustics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dsptoolbox/room_acoustics/_room_acoustics.py b/dsptoolbox/room_acoustics/_room_acoustics.py
index 769abce..3b3e9a5 100644
--- a/dsptoolbox/room_acoustics/_room_acoustics.py
+++ b/dsptoolbox/room_acoustics/_room_acoustics.py
@@ -153,9 +153,9 @@ def _complex_mode_identification(
     for ind in range(cmif.shape[0]):
         s = np.linalg.svd(H[:, :, ind], compute_uv=False, hermitian=False)
         if maximum_singular_value:
-            cmif[ind] = s.max()
+            cmif[ind] = s.max() ** 2
         else:
-            cmif[ind] = s[0]
+            cmif[ind] = s[0] ** 2
     return cmif
 
 
-- 
2.43.0

