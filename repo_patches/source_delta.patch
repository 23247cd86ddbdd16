From e71f2c5462f2bfb3fcb4a8ceafaa7fa87c5de85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:02 +0000
Subject: [PATCH 01/67] fix: stationary pileup amplitudes at zero delay use the
 filter normalization

The coincident-pulse bin divided the amplitude by an extra power of norm, so
the reported chi2 at zero delay was not the residual of the reported fit.
---
 qetpy/core/_fitting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4c9b45e..edf2781 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -827,8 +827,8 @@ class OptimumFilter(object):
         ) / denom[1:]
 
         # calculate the zero freq bins to avoid divide by zero
-        a1s[0] = self.signalfilt_td[0] / (2 * self.norm)
-        a2s[0] = self.signalfilt_td[0] / (2 * self.norm)
+        a1s[0] = self.signalfilt_td[0] / 2
+        a2s[0] = self.signalfilt_td[0] / 2
 
         # signal part of chi^2
         if self.chi0 is None:
@@ -1425,8 +1425,8 @@ def ofamp_pileup_stationary(signal, template, inputpsd, fs, coupling='AC',
     ) / denom[1:]
 
     # calculate the zero freq bins to avoid divide by zero
-    a1s[0] = signalfilt_td[0] / (2 * norm**2)
-    a2s[0] = signalfilt_td[0] / (2 * norm**2)
+    a1s[0] = signalfilt_td[0] / (2 * norm)
+    a2s[0] = signalfilt_td[0] / (2 * norm)
 
     # signal part of chi^2
     chi0 = np.real(np.dot(v.conjugate() / psd, v)) * df
-- 
2.43.0


From 0b6adb278c73f1ffeb263953645fff112587edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:18 +0000
Subject: [PATCH 02/67] fix: evaluate the pileup chi2 at the actual time of the
 main pulse

The bin of the main pulse was obtained by truncating t1*fs, which picks the
previous bin for many whole-bin times (e.g. bin 21 at 625 kHz) and is wrong
for any sub-bin time.
---
 qetpy/core/_fitting.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index edf2781..f184c9d 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -687,16 +687,19 @@ class OptimumFilter(object):
 
         a2s = self.signalfilt_td - a1 * templatefilt_td / self.norm
 
-        if t1<0:
-            t1ind = int(t1 * self.fs + self.nbins)
-        else:
-            t1ind = int(t1 * self.fs)
+        # filtered signal at the time of the main pulse, which does not
+        # have to be on a time bin
+        signalfilt_t1 = np.real(
+            np.sum(
+                self.signalfilt * np.exp(2.0j * np.pi * self.freqs * t1)
+            )
+        ) * self.df
 
         # do a1 part of chi2
         chit = (
             a1**2 * self.norm
         ) - (
-            2 * a1 * self.signalfilt_td[t1ind] * self.norm
+            2 * a1 * signalfilt_t1 * self.norm
         )
 
         # do a1, a2 combined part of chi2
@@ -1294,14 +1297,15 @@ def ofamp_pileup(signal, template, inputpsd, fs, a1=None, t1=None,
     # first fitting part of chi2
     chit = (a1**2 + a2s**2) * norm + 2 * a1 * a2s * templatefilt_td
 
-    if t1<0:
-        t1ind = int(t1 * fs + nbins)
-    else:
-        t1ind = int(t1 * fs)
+    # filtered signal at the time of the main pulse, which does not
+    # have to be on a time bin
+    signalfilt_t1 = np.real(
+        np.sum(signalfilt * np.exp(1.0j * omega * t1))
+    ) * df
 
     # last part of chi2
     chil = (
-        2 * a1 * signalfilt_td[t1ind] * norm
+        2 * a1 * signalfilt_t1 * norm
     ) + (
         2 * a2s * signalfilt_td * norm
     )
-- 
2.43.0


From cbe92bef92dac721ad8ec592240e7b59397487e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 03/67] fix: interpolate the time of best fit when it is in the
 last bin

The delays are periodic, but the neighbor after the last bin was looked up
past the end of the array, raising an IndexError.
---
 qetpy/core/_fitting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index f184c9d..6dded3d 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -293,9 +293,11 @@ class OptimumFilter(object):
         """
 
         sf = 1 / (2 * delta**2)
+        # the values are periodic in time
+        nextind = (bestind + 1) % len(vals)
 
-        a = sf * (vals[bestind + 1] - 2 * vals[bestind] + vals[bestind - 1])
-        b = sf * delta * (vals[bestind + 1] - vals[bestind - 1])
+        a = sf * (vals[nextind] - 2 * vals[bestind] + vals[bestind - 1])
+        b = sf * delta * (vals[nextind] - vals[bestind - 1])
         c = sf * 2 * delta**2 * vals[bestind]
 
         if t_interp is None:
-- 
2.43.0


From c9a251d892f85ad2e975f776d05f81db0947a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 04/67] fix: do not extrapolate a parabola that has no minimum
 at the best fit

When the best allowed delay is at the edge of a constrained window the
three-point parabola has its extremum outside of the window, and could even
be a maximum, giving times far from every allowed delay and a larger chi2.
---
 qetpy/core/_fitting.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 6dded3d..d321288 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -310,10 +310,18 @@ class OptimumFilter(object):
     def _interpolate_of(amps, chi2, bestind, delta):
         """
         Helper function for running `_interpolate_parabola` twice,
-        in the correct order.
+        in the correct order. If the chi^2 at `bestind` is not lower
+        than at both of its neighbors (e.g. at the edge of a constrained
+        window), then there is no minimum to interpolate and the values
+        at `bestind` are returned.
 
         """
-    
+
+        previous_chi2 = chi2[bestind - 1]
+        next_chi2 = chi2[(bestind + 1) % len(chi2)]
+        if not chi2[bestind] < min(previous_chi2, next_chi2):
+            return amps[bestind], 0.0, chi2[bestind]
+
         t_interp, chi2_interp = OptimumFilter._interpolate_parabola(
             chi2, bestind, delta,
         )
-- 
2.43.0


From cc61eacef4611dbd59a9791dd9640231fe760cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 05/67] fix: two-pole pulse has the right sign when the rise
 time is the longer one

With scale_amplitude the frequency domain form used the absolute value of the
time constant difference, flipping the pulse relative to its time domain form
and to its documented amplitude.
---
 qetpy/core/_fitting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index d321288..7b0af7f 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1929,8 +1929,8 @@ class OFnonlin(object):
             delta = tau_r - tau_f
             rat = tau_r / tau_f
             amp = A / (rat**(-tau_r / delta) - rat**(-tau_f / delta))
-            pulse = amp * np.abs(
-                tau_r-tau_f
+            pulse = amp * (
+                tau_f - tau_r
             ) / (
                 1 + omega * tau_f * 1j
             ) / (
-- 
2.43.0


From b19988da656b2e37f0a3206ed14a40e1d440cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 06/67] fix: time domain pulses start at the bin of t0

t0*fs was truncated, so the pulse started one bin early for many whole-bin
times (e.g. bin 21 at 625 kHz), unlike the frequency domain form.
---
 qetpy/core/_fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 7b0af7f..bd3a510 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -1788,7 +1788,7 @@ class OFnonlin(object):
         ) - (
             (A + B + C) * (np.exp(-self.time / tau_r))
         )
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(np.round(t0 * self.fs)))
 
     def threepole(self, A, B, tau_r, tau_f1, tau_f2, t0):
         """
@@ -1887,7 +1887,7 @@ class OFnonlin(object):
         ) - (
             (A + B) * (np.exp(-self.time / tau_r))
         )
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(np.round(t0 * self.fs)))
 
 
     def twopole(self, A, tau_r, tau_f, t0):
@@ -1996,7 +1996,7 @@ class OFnonlin(object):
                 A * (np.exp(-self.time / tau_r))
             )
 
-        return shift(pulse, int(t0 * self.fs))
+        return shift(pulse, int(np.round(t0 * self.fs)))
 
 
     def onepole(self, A, tau_f, t0):
-- 
2.43.0


From 2442bc1ac2eb3e3693904908d78788409c7e7955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 07/67] fix: default guess of fit_falltimes for a pulse peaking
 in the first 7 bins

The slice used to guess the amplitude started at a negative index and was
empty, so the fit raised on the resulting nan.
---
 qetpy/core/_fitting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index bd3a510..4a9f68c 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2235,7 +2235,7 @@ class OFnonlin(object):
                 # on the detector being analyzed.
                 # good guess for t0 particularly important to provide
                 Aguess = np.mean(
-                    templateforguess[maxind - 7:maxind + 7]
+                    templateforguess[max(maxind - 7, 0):maxind + 7]
                 ) * ampscale
                 Bguess = Aguess / 3
                 Cguess = Aguess / 3
@@ -2246,7 +2246,7 @@ class OFnonlin(object):
                 t0guess = maxind / self.fs
             elif (self.npolefit==3):
                 Aguess = np.mean(
-                    templateforguess[maxind - 7:maxind + 7]
+                    templateforguess[max(maxind - 7, 0):maxind + 7]
                 ) * ampscale
                 Bguess = Aguess / 3
                 tauriseguess = 20e-6
@@ -2255,7 +2255,7 @@ class OFnonlin(object):
                 t0guess = maxind / self.fs
             else:
                 ampguess = np.mean(
-                    templateforguess[maxind-7:maxind+7]
+                    templateforguess[max(maxind - 7, 0):maxind + 7]
                 ) * ampscale
                 tauval = 0.37 * ampguess
                 endt_val = int(300e-6 * self.fs)
-- 
2.43.0


From b4c252f5e03a4583dcf2b15120fb43c18fc97513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:04 +0000
Subject: [PATCH 08/67] fix: errors of fit_falltimes from a Jacobian with
 suitable steps

The Jacobian of the fit uses absolute steps of about 6e-6, which is several
time bins and comparable to the time constants, so the returned errors were
wrong by tens of percent.
---
 qetpy/core/_fitting.py | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_fitting.py b/qetpy/core/_fitting.py
index 4a9f68c..9b5f9f9 100644
--- a/qetpy/core/_fitting.py
+++ b/qetpy/core/_fitting.py
@@ -2066,6 +2066,35 @@ class OFnonlin(object):
         return z1d
 
 
+    def _calcjacobian(self, params):
+        """
+        Function to calculate the Jacobian of the residuals, with steps
+        that are small compared to the parameters.
+
+        Parameters
+        ----------
+        params : tuple
+            Tuple containing fit parameters
+
+        Returns
+        -------
+        jac : ndarray
+            The Jacobian of the residuals at `params`
+
+        """
+
+        params = np.asarray(params, dtype=float)
+        steps = 1e-5 * np.maximum(np.abs(params), 1 / self.fs)
+        jac = [
+            (
+                self.residuals(params + step) - self.residuals(params - step)
+            ) / (
+                2 * step.max()
+            ) for step in np.diag(steps)
+        ]
+
+        return np.transpose(jac)
+
     def calcchi2(self, model):
         """
         Function to calculate the reduced chi square
@@ -2371,7 +2400,7 @@ class OFnonlin(object):
                 )
             )
 
-        jac = result['jac']
+        jac = self._calcjacobian(variables)
         cov = np.linalg.pinv(np.dot(np.transpose(jac), jac))
         errors = np.sqrt(cov.diagonal())
 
-- 
2.43.0


From f81753ecd39586162425ab95fcce196004f29d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 09/67] fix: resampling factors for denominators that are not
 prime

---
 qetpy/utils/_utils.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 627b0e4..63b1fc9 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -104,17 +104,19 @@ def resample_factors(fs, sgfreq):
 
     rfacs = factorrat(S(int(fs)) / int(sgfreq))
     numer = [key for key in rfacs if rfacs[key] > 0]
-    denom = [key for key in rfacs if rfacs[key] < 0]
+    denom = [key**(-rfacs[key]) for key in rfacs if rfacs[key] < 0]
 
     if len(denom)==0:
         return 1, 1
 
-    down = np.multiply.reduce(numer)
-    up = round(down / min(denom)) * min(denom)
+    down = int(np.multiply.reduce(numer))
+    # `up` must contain the whole denominator, not just one of its factors
+    denom = int(np.multiply.reduce(denom))
+    up = round(down / denom) * denom
 
-    # round up if `sgfreq` is prime (otherwise would return 0)
+    # round up if the denominator is large (otherwise would return 0)
     if up==0:
-        up = np.ceil(down / min(denom)).astype(int) * min(denom)
+        up = denom
 
     return int(up), int(down)
 
-- 
2.43.0


From c4a59b91ab306f01334a21c08dd5183ae0ff90e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 10/67] fix: make_decreasing keeps values of zero and handles
 arrays that never decrease

---
 qetpy/utils/_utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 63b1fc9..3d64667 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -238,16 +238,18 @@ def make_decreasing(y, x=None):
     if x is None:
         x = np.arange(len(y))
 
-    y_dec = np.zeros(len(y))
-    y_dec[0] = y[0]
+    interp_inds = np.zeros(len(y), dtype=bool)
+    interp_inds[0] = True
     last_val = y[0]
 
     for ii, val in enumerate(y):
         if (last_val > val):
             last_val = y[ii]
-            y_dec[ii] = y[ii]
+            interp_inds[ii] = True
 
-    interp_inds = y_dec!=0
+    if np.sum(interp_inds) == 1:
+        # nothing below the first value to interpolate to
+        return np.full(len(y), y[0], dtype=float)
 
     f = interpolate.interp1d(
         x[interp_inds], y[interp_inds], fill_value="extrapolate",
-- 
2.43.0


From e285da2b8edca647cc93edd613d2e7ba5c0b1c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 11/67] fix: calc_offset does not lose a full period to
 rounding

---
 qetpy/utils/_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 3d64667..e163943 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -290,10 +290,10 @@ def calc_offset(x, fs=1.0, sgfreq=100.0, is_didv=False):
     """
 
     if is_didv:
-        period =  1.0 / sgfreq
-        period_bins = period * fs
-        n_periods = int(x.shape[-1] / period_bins)
-        x = x[..., :int(n_periods * period_bins)]
+        period_bins = fs / sgfreq
+        # avoid losing a full period or bin to floating point rounding
+        n_periods = int(x.shape[-1] / period_bins * (1 + 1e-9))
+        x = x[..., :int(n_periods * period_bins * (1 + 1e-9))]
 
     offset = np.mean(np.mean(x, axis=-1), axis=0)
     std = np.std(np.mean(x, axis=-1), axis=0) / np.sqrt(x.shape[0])
-- 
2.43.0


From 546db95782aa905af959a30f35e9ed0780b66a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 12/67] fix: align_traces uses the given filter settings and
 masks integer traces

---
 qetpy/utils/_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index e163943..9bf7ea3 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -426,7 +426,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
 
     # Filter and truncate all traces to speed up.
     traces_filt = lowpassfilter(
-        traces[:, :n_cut], cut_off_freq=5000, fs=625e3,
+        traces[:, :n_cut], cut_off_freq=cut_off_freq, fs=fs,
     )
     traces_temp = traces_filt - np.mean(traces_filt, axis=-1, keepdims=True)
     traces_norm = traces_temp / (np.amax(traces_temp, axis=-1, keepdims=True))
@@ -437,7 +437,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
     orig = np.argmax(signal.fftconvolve(t1,t1[::-1],mode = 'full'))
 
     # initialize empty array to store the aligned traces
-    traces_aligned = np.zeros_like(traces)
+    traces_aligned = np.zeros(traces.shape)
     shifts = np.zeros(traces.shape[0])
 
     for ii in range(traces.shape[0]):
@@ -450,7 +450,7 @@ def align_traces(traces, lgcjustshifts=False, n_cut=5000, cut_off_freq=5000.0,
         shifts[ii] = t2_shift
         if not lgcjustshifts:
             traces_aligned[ii] = ndimage.shift(
-                traces[ii], t2_shift, cval=np.nan,
+                traces[ii], t2_shift, output=float, cval=np.nan,
             )
 
     if lgcjustshifts:
-- 
2.43.0


From b135fc2e9968ba39dfae149012946b0f46fc2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 13/67] fix: energy_absorbed joins the baseline regions along
 the time axis

---
 qetpy/utils/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 9bf7ea3..eddcbf5 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -611,7 +611,9 @@ def energy_absorbed(trace, ioffset, qetbias, rload, rsh, fs=None,
         else:
             raise ValueError('Must provide indbasepre or baseline')
         if indbasepost is not None:
-            base_traces = np.hstack((base_traces, trace[..., indbasepost:]))
+            base_traces = np.concatenate(
+                (base_traces, trace[..., indbasepost:]), axis=-1,
+            )
         baseline = np.mean(base_traces, axis=-1, keepdims=True)
 
     baseline_p0 = powertrace_simple(baseline, ioffset, qetbias, rload, rsh)
-- 
2.43.0


From 999e2597891e19daff319b9837432b940c6e19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 14/67] fix: fractional shift of integer arrays and of arrays
 with several axes

---
 qetpy/utils/_utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index eddcbf5..e67ae15 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -61,8 +61,14 @@ def shift(arr, num, fill_value=0):
         else:
             result[:] = arr
     else:
+        # shift along the first axis only, as done for whole numbers of bins
         result = ndimage.shift(
-            arr, num, order=1, mode='constant', cval=fill_value,
+            arr,
+            [num] + [0] * (np.ndim(arr) - 1),
+            output=np.result_type(arr, float),
+            order=1,
+            mode='constant',
+            cval=fill_value,
         )
 
     return result
-- 
2.43.0


From fadcb8a61c29c6d0ee32ca7a3afb6f5eac4611aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 15/67] fix: gen_noise does not modify the PSD of the caller

---
 qetpy/core/_noise.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 19d59ef..af3e369 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -148,6 +148,7 @@ def gen_noise(psd, fs=1.0, ntraces=1):
     """
     
     if np.isinf(psd[0]):
+        psd = np.copy(psd)
         psd[0] = 0
     
     traces = np.zeros((ntraces, len(psd)))
-- 
2.43.0


From b9c90496b3d7368e1407e5becafb0c84839172d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 16/67] fix: Noise.calculate_psd does not double the zeroth and
 Nyquist frequencies

---
 qetpy/core/_noise.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index af3e369..587c79d 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -309,6 +309,13 @@ class Noise(object):
         psd = np.mean(psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs) 
         real_psd = np.mean(real_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)
         imag_psd = np.mean(imag_psd_chan, axis = 0)*2.0/(traceshape[2]*self.fs)  
+
+        # the zeroth frequency, and the Nyquist frequency if the number of bins is even, have
+        # no corresponding negative frequency to fold over
+        for spectrum in (psd, real_psd, imag_psd):
+            spectrum[:, 0] /= 2.0
+            if traceshape[2] % 2 == 0:
+                spectrum[:, -1] /= 2.0
       
         self.psd = psd
         self.real_psd = real_psd
-- 
2.43.0


From 88b8dadfc0bf0c404c2e41ec278d64592a694e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 17/67] fix: calculate_uncorr_noise does not use the csd of
 traces that have changed

---
 qetpy/core/_noise.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 587c79d..6ea28ac 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -281,6 +281,13 @@ class Noise(object):
                 tracenoslope[itrace][ichan] = self.traces[itrace][ichan] - s*self.time
         
         self.traces = tracenoslope
+
+        # the stored csd does not describe the new traces
+        self.csd = None
+        self.real_csd = None
+        self.imag_csd = None
+        self.real_csd_std = None
+        self.imag_csd_std = None
         
     def calculate_psd(self): 
         """
-- 
2.43.0


From 813d101ff980cfb0505c9ab5caa12eda14dd7a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 18/67] fix: Noise.plot_reim_psd saves the figure when asked to

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 6ea28ac..3fcb586 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -451,7 +451,7 @@ class Noise(object):
 
         """
         
-        utils.plot_reim_psd(self, lgcsave = False, savepath = None)
+        utils.plot_reim_psd(self, lgcsave, savepath)
         
     def plot_corrcoeff(self, lgcsmooth = True, nwindow = 7,lgcsave = False, savepath = None):
         """
-- 
2.43.0


From 9a482179c045d89e0a43432c4b2c022d36bef6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:26 +0000
Subject: [PATCH 19/67] fix: compare_noise uses the channel dictionary of the
 Noise class

---
 qetpy/plotting/_noise_plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 6861f85..3bbd908 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -474,8 +474,8 @@ def compare_noise(arr, channels, lgcdecorrelatednoise=False, lgcsave=False, save
                 plt.ylabel(r'Input Referenced Noise [A/$\sqrt{\mathrm{Hz}}$]')
                 plt.grid(which = 'both')
                 for ii in range(len(arr)):
-                    if chan in arr[ii].chann_dict:
-                        chan_index = arr[ii].chann_dict[chan] #check that the channel is in the noise object before plotting
+                    if chan in arr[ii].chandict:
+                        chan_index = arr[ii].chandict[chan] #check that the channel is in the noise object before plotting
                         #plot the de correlated noise if desired
                         if lgcdecorrelatednoise:
                             #check that de correlated noise has been calculated
-- 
2.43.0


From 9085f2037054aa8b319db422d3bae8360bde49a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 20/67] fix: loadfromdidv compares the noise type by value

---
 qetpy/sim/_sim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index d7a3a14..02a7381 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -97,7 +97,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
 
     """
 
-    if noisetype is "superconducting":
+    if noisetype == "superconducting":
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
@@ -112,7 +112,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "normal":
+    elif noisetype == "normal":
         raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
@@ -128,7 +128,7 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         loopgain = 0
         tau0 = 0
         G = 0
-    elif noisetype is "transition":
+    elif noisetype == "transition":
         fitresult = DIDVobj.fitresult(2)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From ae4e5e60f524e422a9c9d860d48b6452be243326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 21/67] fix: loadfromdidv accepts rnormal for normal noise

---
 qetpy/sim/_sim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/sim/_sim.py b/qetpy/sim/_sim.py
index 02a7381..78ff35a 100644
--- a/qetpy/sim/_sim.py
+++ b/qetpy/sim/_sim.py
@@ -113,7 +113,8 @@ def loadfromdidv(DIDVobj, G=5.0e-10, qetbias=160e-6, tc=0.040, tload=0.9,
         tau0 = 0
         G = 0
     elif noisetype == "normal":
-        raise ValueError('Please specify rnormal.')
+        if rnormal is None:
+            raise ValueError('Please specify rnormal.')
         fitresult = DIDVobj.fitresult(1)
         if 'smallsignalparams' in fitresult:
             key = 'smallsignalparams'
-- 
2.43.0


From d3828916518d6277ba7f692943ac3d427d881de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 22/67] fix: plot_noise_sim compares the plot type by value

---
 qetpy/plotting/_noise_plotting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 3bbd908..0193081 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -545,25 +545,25 @@ def plot_noise_sim(f, psd, noise_sim, istype, qetbias, lgcsave=False, figsavepat
 
     """
 
-    if istype is 'current':
+    if istype == 'current':
         fig, ax = _plot_ti_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'current_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'power':
+    elif istype == 'power':
         fig, ax = _plot_tp_noise(f, psd, noise_sim, xlims, ylims)
         if lgcsave:
             fig.savefig(figsavepath+f'power_noise_qetbias{qetbias*1e6:.3f}muA.png', bbox_inches='tight')
         else:
             return fig, ax 
-    elif istype is 'sc':
+    elif istype == 'sc':
         fig, ax = _plot_sc_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}SC_noise_qetbias{qetbias*1e6:.3f}muA.png')
         else:
             return fig, ax 
-    elif istype is 'normal':
+    elif istype == 'normal':
         fig, ax = _plot_n_noise(f, psd, noise_sim, qetbias, xlims, ylims)    
         if lgcsave:
             plt.savefig(f'{figsavepath}normal_noise_qetbias{qetbias*1e6:.3f}muA.png')
-- 
2.43.0


From 54bf21b5d12e30fc20cd263747fdf7aa3cce85b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 23/67] fix: plot_noise_sim does not change the frequencies of
 the simulation object

---
 qetpy/plotting/_noise_plotting.py | 42 +++++++++++++++----------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/qetpy/plotting/_noise_plotting.py b/qetpy/plotting/_noise_plotting.py
index 0193081..179fdc4 100644
--- a/qetpy/plotting/_noise_plotting.py
+++ b/qetpy/plotting/_noise_plotting.py
@@ -598,7 +598,6 @@ def _plot_ti_noise(f, psd, noise_sim, xlims, ylims):
 
     freqs = f[1:]
     psd = psd[1:]
-    noise_sim.freqs = freqs
 
     fig, ax = plt.subplots(figsize=(11, 6))
     if xlims is not None:
@@ -613,36 +612,36 @@ def _plot_ti_noise(f, psd, noise_sim, xlims, ylims):
     ax.set_title(f"Current Noise For $R_0$ : {noise_sim.r0*1e3:.2f} $m\Omega$")
 
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ites())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ites(freqs))),
         color='#1f77b4',
         linewidth=1.5,
         label='TES Johnson Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_iload())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_iload(freqs))),
         color='#ff7f0e',
         linewidth=1.5,
         label='Load Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_itfn())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_itfn(freqs))),
         color='#2ca02c',
         linewidth=1.5,
         label='TFN Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_itot())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_itot(freqs))),
         color='#d62728',
         linewidth=1.5,
         label='Total Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_isquid())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_isquid(freqs))),
         color='#9467bd',
         linewidth=1.5,
         label='Squid+Electronics Noise',
@@ -686,7 +685,6 @@ def _plot_tp_noise(f, psd, noise_sim, xlims, ylims):
 
     freqs = f[1:]
     psd = psd[1:]
-    noise_sim.freqs = freqs
 
     fig, ax = plt.subplots(figsize=(11, 6))
     if xlims is not None:
@@ -701,36 +699,36 @@ def _plot_tp_noise(f, psd, noise_sim, xlims, ylims):
     ax.set_title(f"Power Noise For $R_0$ : {noise_sim.r0*1e3:.2f} $m\Omega$")
 
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptes())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptes(freqs))),
         color='#1f77b4',
         linewidth=1.5,
         label='TES Johnson Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_pload())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_pload(freqs))),
         color='#ff7f0e',
         linewidth=1.5,
         label='Load Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptfn())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptfn(freqs))),
         color='#2ca02c',
         linewidth=1.5,
         label='TFN Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_ptot())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_ptot(freqs))),
         color='#d62728',
         linewidth=1.5,
         label='Total Noise',
     )
     ax.loglog(
-        noise_sim.freqs,
-        np.sqrt(np.abs(noise_sim.s_psquid())),
+        freqs,
+        np.sqrt(np.abs(noise_sim.s_psquid(freqs))),
         color='#9467bd',
         linewidth=1.5,
         label='Squid+Electronics Noise',
-- 
2.43.0


From 9daf5f9cfaf0507c83e93416ba04f80b491896d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:21 +0000
Subject: [PATCH 24/67] fix: calc_psd folds over the frequency axis for arrays
 of 3 or more dimensions

---
 qetpy/core/_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 3fcb586..0fc9ee5 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -78,7 +78,7 @@ def calc_psd(x, fs=1.0, folded_over=True):
             
         # multiply the necessary frequencies by two (zeroth frequency should be the same, as
         # should the last frequency when x.shape[-1] is odd)
-        psd[1:x.shape[-1]//2+1 - (x.shape[-1]+1)%2] *= 2.0
+        psd[..., 1:x.shape[-1]//2+1 - (x.shape[-1]+1)%2] *= 2.0
         f = rfftfreq(x.shape[-1], d=1.0/fs)
     else:
         # if folded_over = False, we calculate the Fourier Transform for all frequencies
-- 
2.43.0


From cb53420137004f6f10cd62c4be7ab8bb90027e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 25/67] fix: IV stores a 3-dimensional load resistance

---
 qetpy/core/_iv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index e2af134..796656d 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -216,7 +216,11 @@ class IV(object):
             self.rload = np.swapaxes(np.tile(rload.transpose(),(niters,1,1)),0,-1)
             self.rload_err = np.swapaxes(np.tile(rload_err.transpose(),(niters,1,1)),0,-1)
 
-        elif rload.shape!=(ntemps,nch,niters):
+        elif rload.shape==(ntemps,nch,niters):
+            self.rload = rload
+            self.rload_err = rload_err
+
+        else:
             raise ValueError("the shape of rload doesn't match the data")
         
         self.chan_names = chan_names
-- 
2.43.0


From 39dd04ebc74ed9ef27a1f2394680b8ad211de068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 26/67] fix: IV.rfit_err is the error and not the value of the
 fit resistance

---
 qetpy/core/_iv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index 796656d..392fbc8 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -301,7 +301,7 @@ class IV(object):
         self.ioff = ioff[:,:,0]
         self.ioff_err = ioff_err[:,:,0]
         self.rfit = rfit[:,:,0]
-        self.rfit_err = rfit[:,:,0]
+        self.rfit_err = rfit_err[:,:,0]
         self.rnorm = rnorm[:,:,0]
         self.rnorm_err = rnorm_err[:,:,0]
 
-- 
2.43.0


From 40d1b5dfbdd0196b2aab9511dfd1ffbaa87fce41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 27/67] fix: IV and IBIS plot methods can save the figure

---
 qetpy/core/_ibis.py | 9 +++------
 qetpy/core/_iv.py   | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 58967eb..3eeb4e1 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -717,7 +717,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_iv(
+        return utils._plot_iv(
             self,
             temps=temps,
             chans=chans,
@@ -726,7 +726,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_rv(self, temps="all", chans="all", lgcsave=False, savepath="",
                 savename=""):
@@ -754,7 +753,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_rv(
+        return utils._plot_rv(
             self,
             temps=temps,
             chans=chans,
@@ -762,7 +761,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_pv(self, temps="all", chans="all", lgcsave=False, savepath="",
                 savename=""):
@@ -789,7 +787,7 @@ class IBIS(object):
 
         """
 
-        fig, ax = utils._plot_pv(
+        return utils._plot_pv(
             self,
             temps=temps,
             chans=chans,
@@ -797,7 +795,6 @@ class IBIS(object):
             savepath=savepath,
             savename=savename,
         )
-        return fig, ax
 
     def plot_all_curves(self, temps="all", chans="all", showfit=True,
                         lgcsave=False, savepath="", savename=""):
diff --git a/qetpy/core/_iv.py b/qetpy/core/_iv.py
index 392fbc8..b2966e8 100644
--- a/qetpy/core/_iv.py
+++ b/qetpy/core/_iv.py
@@ -327,9 +327,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_iv(self, temps=temps, chans=chans, showfit=showfit, lgcsave=lgcsave, 
+        return utils.plot_iv(self, temps=temps, chans=chans, showfit=showfit, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_rv(self, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
         """
@@ -351,9 +350,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_rv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
+        return utils.plot_rv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_pv(self, temps="all", chans="all", lgcsave=False, savepath="", savename=""):
         """
@@ -375,9 +373,8 @@ class IV(object):
             Name to append to the plot file name, if saving
         """
         
-        fig, ax = utils.plot_pv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
+        return utils.plot_pv(self, temps=temps, chans=chans, lgcsave=lgcsave, 
                         savepath=savepath, savename=savename)
-        return fig, ax
         
     def plot_all_curves(self, temps="all", chans="all", showfit=True, lgcsave=False, savepath="", savename=""):
         """
-- 
2.43.0


From a8c90da3367b8fe6619e3cc318e88231c2a6fe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 28/67] fix: IV and IBIS plots accept arrays of temperatures
 and channels

---
 qetpy/plotting/_ibis_plotting.py | 12 ++++++------
 qetpy/plotting/_iv_plotting.py   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/qetpy/plotting/_ibis_plotting.py b/qetpy/plotting/_ibis_plotting.py
index 856cab3..dca9e3c 100644
--- a/qetpy/plotting/_ibis_plotting.py
+++ b/qetpy/plotting/_ibis_plotting.py
@@ -33,14 +33,14 @@ def _plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sa
     ntemps, nch, niters = IVobject.dites.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -114,14 +114,14 @@ def _plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", sav
     ntemps, nch, niters = IVobject.r0.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -186,14 +186,14 @@ def _plot_pv(IVobject,  temps="all", chans="all", lgcsave=False, savepath="", sa
     ntemps, nch, niters = IVobject.ptes.shape
     chan_names = IVobject.chan_names
     
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
         
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
diff --git a/qetpy/plotting/_iv_plotting.py b/qetpy/plotting/_iv_plotting.py
index 27ef5c7..a40e587 100644
--- a/qetpy/plotting/_iv_plotting.py
+++ b/qetpy/plotting/_iv_plotting.py
@@ -38,14 +38,14 @@ def plot_iv(IVobject, temps="all", chans="all", showfit=True, lgcsave=False, sav
     ntemps, nch, niters = IVobject.dites.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -137,14 +137,14 @@ def plot_rv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     ntemps, nch, niters = IVobject.r0.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
@@ -222,14 +222,14 @@ def plot_pv(IVobject, temps="all", chans="all", lgcsave=False, savepath="", save
     ntemps, nch, niters = IVobject.ptes.shape
     chan_names = IVobject.chan_names
 
-    if temps == "all":
+    if isinstance(temps, str) and temps == "all":
         trange = range(ntemps)
     elif np.isscalar(temps):
         trange = np.array([temps])
     else:
         trange = np.array(temps)
 
-    if chans == "all":
+    if isinstance(chans, str) and chans == "all":
         chrange = range(nch)
     elif np.isscalar(chans):
         chrange = np.array([chans])
-- 
2.43.0


From 685895b5ab5bed905a0028e65d8598691f72bb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 29/67] fix: IBIS accepts every documented shape of rp_guess

---
 qetpy/core/_ibis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 3eeb4e1..1a461af 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -206,8 +206,8 @@ class IBIS(object):
         self.ibias_err = np.reshape(ibias_err, (ntemps, nch, niters))
 
         if np.isscalar(rp_guess):
-            self.rp_guess = np.ones_like(dites)*rp_guess
-            self.rp_err_guess = np.ones_like(dites)*rp_err_guess
+            self.rp_guess = np.ones_like(self.dites)*rp_guess
+            self.rp_err_guess = np.ones_like(self.dites)*rp_err_guess
 
         elif rp_guess.shape==(nch,):
             self.rp_guess = np.tile(
@@ -227,7 +227,11 @@ class IBIS(object):
                 np.tile(rp_err_guess.transpose(), (niters,1,1)), 0, -1,
             )
 
-        elif rp_guess.shape!=(ntemps,nch,niters):
+        elif rp_guess.shape==(ntemps,nch,niters):
+            self.rp_guess = rp_guess
+            self.rp_err_guess = rp_err_guess
+
+        else:
             raise ValueError("the shape of rp_guess doesn't match the data")
 
         self.chan_names = chan_names
-- 
2.43.0


From 92f667bed63fc8792f4cbafe2dcc4b37f4a5d937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 30/67] fix: IBIS uses the variances of the slopes for the
 errors of the resistances

---
 qetpy/core/_ibis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 1a461af..489d903 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -478,7 +478,7 @@ class IBIS(object):
                 covout = jac.dot(xcov.dot(jac.transpose()))
                 rfit[t, ch] = xout[1] * self.rsh
                 rfit_err[t, ch] = np.sqrt(
-                    (self.rsh * covout[1,1])**2 + (xout[1] * self.rsh_err)**2,
+                    self.rsh**2 * covout[1,1] + (xout[1] * self.rsh_err)**2,
                 )
                 
         # Do SC fit
@@ -511,9 +511,7 @@ class IBIS(object):
                     covout = jac.dot(xcov.dot(jac.transpose()))
                     rp[t, ch] = xout[1] * self.rsh - self.rsh
                     rp_err[t, ch] = np.sqrt(
-                        (
-                            self.rsh * covout[1,1]
-                        )**2 + (
+                        self.rsh**2 * covout[1,1] + (
                             (xout[1] - 1) * self.rsh_err
                         )**2,
                     )
-- 
2.43.0


From 174f15e42286afaf4f118bfe2d3017ae9413e942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 31/67] fix: derivative of the current offset with respect to
 the normal slope in IBIS

---
 qetpy/core/_ibis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 489d903..2dae39f 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -577,7 +577,7 @@ class IBIS(object):
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     slope_sc[t, ch, 0] - slope_n[t, ch, 0]
-                ) + (
+                ) + slope_n[t, ch, 0] * (
                     int_n[t, ch, 0] - int_sc[t, ch, 0]
                 ) / (
                     (slope_sc[t, ch, 0] - slope_n[t, ch, 0])**2
-- 
2.43.0


From 527fc028bf3b42450bbd48ad911487caadaa8747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 32/67] fix: IBIS offsets given as numbers and errors of the
 offsets without a SC fit

---
 qetpy/core/_ibis.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 2dae39f..73f6016 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -600,18 +600,25 @@ class IBIS(object):
                 covout = jac_int.dot(cov_int.dot(jac_int.transpose()))
                 ioff_err[t,ch] = np.sqrt(np.sum(covout))
 
+        if not self.fitsc:
+            # the bias offset is not fit, and the current offset is the
+            # intercept of the normal fit
+            ibias_off_err = np.zeros_like(int_n)
+            ioff_err = int_n_err
+
         # if yoff and xoff are specified, use these instead of the
         # calculated values
+        ones = np.ones((ntemps, nch, niters))
         if yoff is None:
             ioff = int_point_y
         else:
-            ioff = yoff
-            ioff_err = yoff_err
+            ioff = yoff * ones
+            ioff_err = yoff_err * ones
         if xoff is None:
             ibias_off = int_point_x
         else:
-            ibias_off = xoff
-            ibias_off_err = xoff_err
+            ibias_off = xoff * ones
+            ibias_off_err = xoff_err * ones
 
         self.slope_n = slope_n
         self.slope_sc = slope_sc
-- 
2.43.0


From 6fd0f056f93514409bd7f90dca53ee2bae07c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 33/67] fix: slopecut cuts the outliers of the slope

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 9065e4a..549e234 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -540,7 +540,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
         raise ValueErrror("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
-    cslopetot = np.ones(len(traces), dtype=bool)
+    cslopetot = np.zeros(len(traces), dtype=bool)
     cslopetot[cslopeinds] = True
 
     return cslopetot
-- 
2.43.0


From 75a8ff33ea3d3d01ded37ef71a68c1ccfdf0e242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 34/67] fix: pileupcut does not subtract the means from the
 traces of the caller

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 549e234..6cfacc3 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -443,7 +443,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
 
     if removemeans:
         mean = np.mean(traces, axis=1)
-        traces -= mean[:, np.newaxis]
+        traces = traces - mean[:, np.newaxis]
 
     amps = np.zeros(len(traces))
 
-- 
2.43.0


From 3756cfc38aebd040971d243b0ea07649e96408e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 35/67] fix: unknown outlier algorithms raise ValueError

---
 qetpy/cut/_cut.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 6cfacc3..8893a72 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -456,7 +456,7 @@ def pileupcut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, removemean
     elif outlieralgo=="iterstat":
         cpileup = iterstat(abs(amps), cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cpileup
 
@@ -537,7 +537,7 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
     elif outlieralgo=="iterstat":
         cslope = iterstat(slopes[czeromeanslopeinds], cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
     cslopeinds = czeromeanslopeinds[cslope]
 
     cslopetot = np.zeros(len(traces), dtype=bool)
@@ -599,7 +599,7 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
     elif outlieralgo=="iterstat":
         cbaseline = iterstat(tracebegin, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cbaseline
 
@@ -654,7 +654,7 @@ def chi2cut(traces, fs=625e3, outlieralgo="iterstat", nsig=2):
     elif outlieralgo=="iterstat":
         cchi2 = iterstat(chi2, cut=nsig, precision=10000.0)[2]
     else:
-        raise ValueErrror("Unknown outlier algorithm inputted.")
+        raise ValueError("Unknown outlier algorithm inputted.")
 
     return cchi2
 
-- 
2.43.0


From 77d0cba88a59b149285701c4280ff15bbb69c5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 36/67] fix: symmetrizedist flips mostly positive distributions

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 8893a72..11baf6e 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -357,7 +357,7 @@ def symmetrizedist(vals):
 
     # if most vals are positive, flip the sign of them so we can use the same code for both negative and positive vals
     if valsmean>0.0:
-        vals= vals
+        vals = -vals
 
     # choose symmetric upper and lower bounds for histogram to make the middle bin centered on zero (since we want zero mean)
     histupr=max(vals)
-- 
2.43.0


From 6f6dc2c74718baabb0f1d8f2b6a8c5e1b357ca2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 37/67] fix: get_muon_cut uses the length of the trace

---
 qetpy/cut/_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 11baf6e..87d1362 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -800,7 +800,7 @@ def get_muon_cut(traces, thresh_pct = 0.95, nsatbins = 600):
         peak_loc = np.argmax(trace)
         # check that the peak is saturated (this should be true for muons that saturate the
         # detector or muon that rail the amplifier) 
-        if ((peak_loc + int(nsatbins)) < arr.shape[-1]):
+        if ((peak_loc + int(nsatbins)) < trace.shape[-1]):
             if (trace[peak_loc+int(nsatbins)] >= trace_max*thresh_pct):
                 muon_cut[ii] = True                    
     return muon_cut
-- 
2.43.0


From 152ef2f65dbb604374725b2ef3c01f7bf064e627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 38/67] fix: removeoutliers does not remove all of the points

---
 qetpy/cut/_cut.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index 87d1362..ca5c5f9 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -41,7 +41,10 @@ def removeoutliers(x, maxiter=20, skewtarget=0.05):
     while(sk > skewtarget):
         dmed=x-np.median(x[inds])
         dist=np.min([abs(min(dmed)),abs(max(dmed))])
-        inds=inds & (abs(dmed) < dist)
+        inlying=inds & (abs(dmed) < dist)
+        if not np.any(inlying):
+            break
+        inds=inlying
         sk=skew(x[inds])
         if(i > maxiter):
             break
-- 
2.43.0


From 5cee36773e88f8284880c1ca5f70086dfcb9f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 39/67] fix: DIDV dropped a complete period of the trace
 through float rounding

---
 qetpy/core/didv/_base_didv.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 792bf49..867422d 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -957,12 +957,13 @@ class _BaseDIDV(object):
 
         # figure out how many didv periods are in the trace, including
         # the time offset
-        period = 1.0/self._sgfreq
-        nperiods = np.floor(nbinsraw*dt/period)
+        # (in bins per period, as dt and 1/sgfreq are both rounded, which
+        # can lose a complete period)
+        nperiods = np.floor(nbinsraw/(self._fs/self._sgfreq)*(1+1e-12))
 
         # find which indices to keep in order to have an
         # integer number of periods
-        indmax = int(nperiods*self._fs/self._sgfreq)
+        indmax = int(round(nperiods*self._fs/self._sgfreq))
         good_inds = range(0, indmax)
 
         # ignore the tail of the trace after the last period,
-- 
2.43.0


From abf342916421df81ed035c9657a68f9446e9274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 40/67] fix: didvinitfromdata counts periods as DIDV does

---
 qetpy/core/didv/_didv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index e54e886..0c30798 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -97,7 +97,7 @@ def didvinitfromdata(tmean, didvmean, didvstd, offset, offset_err, fs, sgfreq,
     didvobj._freq = np.fft.fftfreq(len(tmean), d=1.0 / fs)
 
     nbins = len(didvobj._tmean)
-    nperiods = np.floor(nbins*didvobj._sgfreq/didvobj._fs)
+    nperiods = np.floor(nbins/(didvobj._fs/didvobj._sgfreq)*(1+1e-12))
 
     flatindstemp = list()
     for i in range(0, int(nperiods)):
-- 
2.43.0


From 030aad9bafa4ef4b87acf4f60fae4982ad23997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 41/67] fix: processtraces moved dt0 by another half period at
 every call

---
 qetpy/core/didv/_base_didv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 867422d..8558d6c 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -475,6 +475,7 @@ class _BaseDIDV(object):
         self._dutycycle = dutycycle
         self._add180phase = add180phase
         self._dt0 = dt0
+        self._dt0_input = dt0
 
         self._freq = None
         self._time = None
@@ -951,7 +952,7 @@ class _BaseDIDV(object):
         # add half a period of the square wave frequency to the
         # initial offset if add180phase is True
         if (self._add180phase):
-            self._dt0 = self._dt0 + 1/(2*self._sgfreq)
+            self._dt0 = self._dt0_input + 1/(2*self._sgfreq)
 
         self._time = bins*dt - self._dt0
 
-- 
2.43.0


From b7cb7ae0aa27e128df8df4a474d71f745b908c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 42/67] fix: DIDVPriors applied add180phase twice to the
 guessed time offset

---
 qetpy/core/didv/_didv_priors.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qetpy/core/didv/_didv_priors.py b/qetpy/core/didv/_didv_priors.py
index 15dead3..bb8edd2 100644
--- a/qetpy/core/didv/_didv_priors.py
+++ b/qetpy/core/didv/_didv_priors.py
@@ -255,7 +255,6 @@ class DIDVPriors(_BaseDIDV, _PlotDIDV):
             self._sgfreq,
             self._sgamp,
             self._rsh,
-            add180phase=self._add180phase,
             dt0=self._dt0,
             rp=priors[1] if priors[1] != 0 else 0.01,
             r0=priors[2] if priors[2] != 0 else 0.1,
-- 
2.43.0


From e04dbfc01c2a56249b0ce1bd15097f286b38cff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 43/67] fix: DIDV ignored high harmonics when dt0 is not small

---
 qetpy/core/didv/_base_didv.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 8558d6c..039bc7d 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -995,6 +995,10 @@ class _BaseDIDV(object):
             flatinds > 0, flatinds < nbins,
         )]
 
+        # bin times without the offset, as the spacing of the offset
+        # times is less precise, such that harmonics would not be found
+        timebins = np.arange(nbins)*dt
+
         #for storing results
         didvs = list()
 
@@ -1002,7 +1006,7 @@ class _BaseDIDV(object):
             # deconvolve the trace from the square wave to get the
             # dI/dV in frequency domain
             didvi = _BaseDIDV._deconvolvedidv(
-                self._time,
+                timebins,
                 trace,
                 self._rsh,
                 self._sgamp,
@@ -1025,7 +1029,7 @@ class _BaseDIDV(object):
         #store results
         self._tmean = np.mean(self._traces, axis=0)
         self._freq, self._zeroinds = _BaseDIDV._deconvolvedidv(
-            self._time,
+            timebins,
             self._tmean,
             self._rsh,
             self._sgamp,
-- 
2.43.0


From 0203a316f1951520081984ccced761c237a6b646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 44/67] fix: DIDV threw away traces with a vanishing undriven
 Fourier component

---
 qetpy/core/didv/_base_didv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 039bc7d..03261ae 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -678,13 +678,14 @@ class _BaseDIDV(object):
 
         # deconvolve the trace from the square wave to get the didv in
         # frequency space
-        dvdi = (sf/st)
+        with np.errstate(divide='ignore', invalid='ignore'):
+            dvdi = (sf/st)
 
         # set values that are within floating point error of zero to
         # 1.0 + 1.0j (we will give these values virtually infinite error, so
         # the value doesn't matter. Setting to 1.0+1.0j avoids divide by zero
         # if we invert)
-        zeroinds = np.abs(dvdi) < 1e-16
+        zeroinds = np.logical_or(sf==0, np.abs(dvdi) < 1e-16)
         dvdi[zeroinds] = (1.0+1.0j)
 
         # convert to complex admittance
-- 
2.43.0


From fd871cd4f7d697d0d68e196ca8aa445e22db12d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 45/67] fix: DIDV rejected signal frequencies that divide the
 sample rate, such as 3.2 Hz

---
 qetpy/core/didv/_base_didv.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 03261ae..465aeb9 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -443,7 +443,9 @@ class _BaseDIDV(object):
 
         """
 
-        if np.mod(fs, sgfreq)!=0 and not autoresample:
+        # check the ratio, as the remainder of a sgfreq that is not exactly
+        # representable (e.g. 3.2 Hz) does not vanish
+        if np.mod(fs / sgfreq, 1)!=0 and not autoresample:
             raise ValueError(
                 '`fs` and `sgfreq` do not divide to an integer. If '
                 'these are the true values, please resample the data '
@@ -451,7 +453,7 @@ class _BaseDIDV(object):
                 '`fs`. To do this, try using the optional argument '
                 '`autoresample` or using `scipy.signal.resample_poly`.'
             )
-        elif np.mod(fs, sgfreq)!=0 and autoresample:
+        elif np.mod(fs / sgfreq, 1)!=0 and autoresample:
             warnings.warn(
                 'The data is being autoresampled. This may have '
                 'unintended effects on the DIDV fit in frequency '
-- 
2.43.0


From 125b8b676ed2ca4d744e6cece010cde736454622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 46/67] fix: fall times of a dIdV fit were wrong when fsolve
 did not converge

---
 qetpy/core/didv/_base_didv.py | 39 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index 465aeb9..a09b67a 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -1,7 +1,7 @@
 import warnings
 import numpy as np
 from numpy import pi
-from scipy.optimize import least_squares, fsolve
+from scipy.optimize import least_squares
 from scipy.fftpack import fft, ifft, fftfreq
 
 from qetpy.utils import resample_data
@@ -902,38 +902,37 @@ class _BaseDIDV(object):
             # two pole fall times for didv is different than tau1, tau2
             A, B, tau1, tau2, dt = params
 
-            def twopoleequations(p):
-                taup,taum = p
-                eq1 = taup+taum - A/(A+B)*(tau1+tau2)
-                eq2 = taup*taum-A/(A+B)*tau1*tau2
-                return (eq1, eq2)
-
-            taup, taum = fsolve(twopoleequations ,(tau1, tau2))
-            falltimes = np.array([taup, taum])
+            # the sum and the product of the fall times
+            falltimes = np.roots([
+                1.0,
+                -A/(A+B)*(tau1+tau2),
+                A/(A+B)*tau1*tau2,
+            ])
 
         elif len(params)==7:
             # three pole fall times for didv is different
             # than tau1, tau2, tau3
             A, B, C, tau1, tau2, tau3, dt = params
 
-            def threepoleequations(p):
-                taup, taum, taun = p
-                eq1 = taup+taum+taun-(
+            # the elementary symmetric polynomials of the fall times
+            falltimes = np.roots([
+                1.0,
+                -(
                     A*tau1+A*(1.0-C)*tau2+(A+B)*tau3
-                )/(A*(1.0-C)+B)
-                eq2 = taup*taum+taup*taun+taum*taun - (
+                )/(A*(1.0-C)+B),
+                (
                     tau1*tau2+tau1*tau3+tau2*tau3
-                )*A/(A*(1.0-C)+B)
-                eq3 = taup*taum*taun - tau1*tau2*tau3*A/(A*(1.0-C)+B)
-                return (eq1, eq2, eq3)
-
-            taup, taum, taun = fsolve(threepoleequations, (tau1, tau2, tau3))
-            falltimes = np.array([taup, taum, taun])
+                )*A/(A*(1.0-C)+B),
+                -tau1*tau2*tau3*A/(A*(1.0-C)+B),
+            ])
 
         else:
             print("Wrong number of input parameters, returning zero...")
             falltimes = np.zeros(1)
 
+        # the fall times are complex only if the circuit is underdamped
+        falltimes = np.real_if_close(falltimes)
+
         # return fall times sorted from shortest to longest
         return np.sort(falltimes)
 
-- 
2.43.0


From b1aed020700ffda4f87f75971afdcc9b9e10f403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:19 +0000
Subject: [PATCH 47/67] fix: a dIdV fit with dt0 equal to zero raised

---
 qetpy/core/didv/_didv.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index 0c30798..8048de6 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -292,6 +292,9 @@ class DIDV(_BaseDIDV, _PlotDIDV):
             z1d[1:z1d.size:2] = diff.imag*weights.imag
             return z1d
 
+        # the scale must not be zero, which a time offset guess can be
+        x_scale = np.where(np.array(p0) != 0, np.abs(p0), 10.0e-6)
+
         if isloopgainsub1 is None:
             # res1 assumes loop gain > 1, where B<0 and tauI<0
             res1 = least_squares(
@@ -301,7 +304,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
             # res2 assumes loop gain < 1, where B>0 and tauI>0
             res2 = least_squares(
@@ -311,7 +314,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
             # check which loop gain cases gave the better fit
             if (res1['cost'] < res2['cost']):
@@ -327,7 +330,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
         else:
             #assume loop gain > 1, where B<0 and tauI<0
@@ -338,7 +341,7 @@ class DIDV(_BaseDIDV, _PlotDIDV):
                 loss='linear',
                 max_nfev=1000,
                 verbose=0,
-                x_scale=np.abs(p0),
+                x_scale=x_scale,
             )
 
         popt = res['x']
-- 
2.43.0


From f94317a240b6599658ef4f8afc943b145f194b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:58 +0000
Subject: [PATCH 48/67] fix: DIDV raised when the flat ranges of the periods
 differ in length

---
 qetpy/core/didv/_base_didv.py | 3 ++-
 qetpy/core/didv/_didv.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/didv/_base_didv.py b/qetpy/core/didv/_base_didv.py
index a09b67a..5d92032 100644
--- a/qetpy/core/didv/_base_didv.py
+++ b/qetpy/core/didv/_base_didv.py
@@ -991,7 +991,8 @@ class _BaseDIDV(object):
                 (float(i) + 0.48) * period_unscaled
             ) + int(self._dt0 * self._fs)
             flatindstemp.append(range(flatindlow, flatindhigh))
-        flatinds = np.array(flatindstemp).flatten()
+        # the ranges can differ by one bin in length
+        flatinds = np.concatenate(flatindstemp)
 
         self._flatinds = flatinds[np.logical_and(
             flatinds > 0, flatinds < nbins,
diff --git a/qetpy/core/didv/_didv.py b/qetpy/core/didv/_didv.py
index 8048de6..c531b58 100644
--- a/qetpy/core/didv/_didv.py
+++ b/qetpy/core/didv/_didv.py
@@ -109,7 +109,8 @@ def didvinitfromdata(tmean, didvmean, didvstd, offset, offset_err, fs, sgfreq,
             (float(i) + 0.48) * didvobj._fs / didvobj._sgfreq
         ) + int(didvobj._dt0 * didvobj._fs)
         flatindstemp.append(range(flatindlow, flatindhigh))
-    flatinds = np.array(flatindstemp).flatten()
+    # the ranges can differ by one bin in length
+    flatinds = np.concatenate(flatindstemp)
 
     didvobj._flatinds = flatinds[np.logical_and(
         flatinds > 0, flatinds < nbins,
-- 
2.43.0


From 9e3548e13680c60371556a06aac982a79586433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 49/67] fix: nsmb fits failed with one background template or
 one unconstrained amplitude left

---
 qetpy/core/_of_nsmb.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index c361bf0..b18cf9d 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -149,7 +149,7 @@ def of_nsmb_getPt(Pfs, P, combind=2**20, bindelay=0, bitcomb=None, bitmask=None)
     nsbmask = np.sum(bitmask)
     
     # get indices of the nonzero elements in the mask
-    indexbitmask = np.squeeze(np.nonzero(bitmask)) 
+    indexbitmask = np.flatnonzero(bitmask)
         
     try:
         Pmask = P[np.ix_(indexbitmask[0:ns], indexbitmask[0:nsbmask])]
@@ -284,7 +284,7 @@ def of_nsmb_setup(stemplatet, btemplatet, psd, fs):
                 P[jr,jc,:] = P[jc,jr,:]
    
     # invert the background-background matrix
-    B = np.squeeze(B)
+    B = B[:,:,0]
     iB = np.linalg.pinv(B)
     
     bitcomb = [list(i) for i in itertools.product([0,1],repeat=nsb)]
@@ -449,7 +449,7 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     bitcombfitBackground = 1 - bitcomb_forcezero
 
     numBCon = np.sum(bitcombfitBackground)
-    indexBitMaskBackground = np.squeeze(np.nonzero(bitcombfitBackground))
+    indexBitMaskBackground = np.flatnonzero(bitcombfitBackground)
 
     tempBackgroundSum  = backgroundsum[np.ix_(indexBitMaskBackground)]
 
@@ -472,7 +472,7 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     chi2BOnlyCon = np.real(np.sum(np.conj(residBOnlyfCon)/psddnu.T*residBOnlyfCon,0))
     chi2BOnlyCon_LF = np.real(np.sum(np.conj(residBOnlyfCon[0:lfindex])/psddnu.T[0:lfindex]*residBOnlyfCon[0:lfindex],0))
 
-    bminsqueezeNew = np.squeeze(bOnlyACon)
+    bminsqueezeNew = bOnlyACon[:,0]
         
     if lgcplot:
         lpFiltFreq = 30e3
@@ -875,7 +875,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it1)
         # select the elements that are not zero
-        indexBitMask = np.squeeze(np.nonzero(bitcombfit_it1))
+        indexBitMask = np.flatnonzero(bitcombfit_it1)
         
         qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
         # redo fit in collapsed space
@@ -913,7 +913,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                             bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it2)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it2))
+            indexBitMask = np.flatnonzero(bitcombfit_it2)
             
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
@@ -939,7 +939,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
                                         bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit_it3)
             # select the elements that are not zero
-            indexBitMask = np.squeeze(np.nonzero(bitcombfit_it3))
+            indexBitMask = np.flatnonzero(bitcombfit_it3)
 
             qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
             a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
-- 
2.43.0


From 9a1aead4c4c1c74480a062b3e0e81e386ec54438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 50/67] fix: nsmb fits with polarity constraints could miss the
 constrained minimum

---
 qetpy/core/_of_nsmb.py | 82 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 78 insertions(+), 4 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index b18cf9d..21c3d9f 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1,5 +1,6 @@
 import numpy as np
 from numpy.fft import fft, ifft
+from scipy.optimize import nnls
 from qetpy.plotting import plotnsmb
 import itertools
 
@@ -441,12 +442,12 @@ def of_mb(pulset, phi, sbtemplatef, sbtemplate, iB, B, psddnu, fs, ns, nb, lfind
     # start background only polarity constraint
     ###### 
 
-    # find the amplitudes that were fit in a disallowed region
-    bitcomb_forcezero = _index_disallowed(bOnlyA, bkgpolarityconstraint)
-
     # bitcomb_fitbackground is an array that has 1 in indices for the
     # background templates that will not be forced to zero
-    bitcombfitBackground = 1 - bitcomb_forcezero
+    if np.any(_index_disallowed(bOnlyA, bkgpolarityconstraint)):
+        bitcombfitBackground = _constrained_templates(B, backgroundsum, bkgpolarityconstraint)
+    else:
+        bitcombfitBackground = np.ones(nb, dtype=int)
 
     numBCon = np.sum(bitcombfitBackground)
     indexBitMaskBackground = np.flatnonzero(bitcombfitBackground)
@@ -949,6 +950,31 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
             # reset the a_tsetnew vector
             a_tsetnew[:,ii]=np.squeeze(a_tsetnewonet)
 
+        ######
+        # check that this is the constrained minimum, i.e. that no amplitude
+        # is in the disallowed region and no gradient of an amplitude set to
+        # zero points to its allowed region
+        ######
+
+        neggradX2 = np.squeeze(qt_tset - np.matmul(Pt_tset, a_tsetnew[:,ii,None]), axis=1)
+        tolgrad = 1e-9*np.sqrt(np.diag(Pt_tset)*chi2base)
+        improvable = (bitcombfit==0) & (((neggradX2>tolgrad) & (sbpolcon>=0)) |
+                                        ((neggradX2<-tolgrad) & (sbpolcon<=0)))
+        if np.any(improvable) or np.any(a_tsetnew[:,ii]*sbpolcon<0):
+
+            bitcombfit = _constrained_templates(Pt_tset, qt_tset, sbpolcon)
+
+            Pt_tsetMask, iPt_tsetMask = of_nsmb_getPt(Pfs, P, combind=None,
+                                        bindelay=ii,bitcomb=bitcomb,bitmask=bitcombfit)
+            indexBitMask = np.flatnonzero(bitcombfit)
+
+            qt_tsetMask = qt_tset[np.ix_(indexBitMask)]
+            a_tsetMask = np.matmul(iPt_tsetMask,qt_tsetMask)
+
+            a_tsetnewonet = np.zeros((nsb,1))
+            a_tsetnewonet[np.ix_(indexBitMask)] = a_tsetMask
+            a_tsetnew[:,ii]=np.squeeze(a_tsetnewonet)
+
         #save the bitcombfit array
         bitcombfitVec[:,ii]= bitcombfit
             
@@ -1165,6 +1191,54 @@ def _index_disallowed(amp_array, con_array):
 
     return bitcomb_forcezero
 
+def _constrained_templates(Pt, qt, con_array):
+    """
+    Function that finds which templates take part in the fit with
+    polarity constraints, i.e. which amplitudes are not zero at the
+    constrained minimum of the chi2.
+
+    Parameters
+    ----------
+    Pt : ndarray
+        Matrix of dot products between the templates
+        Dimensions : nsb X nsb
+    qt : ndarray
+        Dot products between the templates and the data
+        Dimensions : nsb X 1
+    con_array : ndarray
+        The array indicating the allowed polarity of each amplitude
+        (see `_index_disallowed`)
+
+    Returns
+    -------
+    bitcombfit : ndarray
+        Array of ones and zeros, with 1s for the amplitudes that
+        float in the fit
+
+    """
+
+    con_array = np.asarray(con_array)
+    scale = np.sqrt(np.diag(Pt))
+    scale[scale == 0] = 1
+
+    # write the chi2 as |design@amp - target|^2
+    eigval, eigvec = np.linalg.eigh(Pt/np.outer(scale, scale))
+    cut = eigval > 1e-14*eigval[-1]
+    root = np.sqrt(eigval[cut])[:, None]
+    design = root*eigvec[:, cut].T
+    target = (eigvec[:, cut].T@(np.squeeze(qt, axis=1)/scale))/root[:, 0]
+
+    # positive and negative part of each amplitude, where allowed
+    pos = np.flatnonzero(con_array >= 0)
+    neg = np.flatnonzero(con_array <= 0)
+    sol, _ = nnls(np.concatenate((design[:, pos], -design[:, neg]), axis=1), target)
+
+    bitcombfit = np.asarray(con_array == 0, dtype=int)
+    bitcombfit[pos[sol[:len(pos)] > 0]] = 1
+    bitcombfit[neg[sol[len(pos):] > 0]] = 1
+
+    return bitcombfit
+
 def get_slope_dc_template_nsmb(nbin):
     """
     Function for constructing the background templates for the OF nsmb fit when
-- 
2.43.0


From 7157715a0e9758e1c5f0e947910c279e003e2c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 51/67] fix: of_nsmb changed the search window passed by the
 caller

---
 qetpy/core/_of_nsmb.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 21c3d9f..3f901d0 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -627,12 +627,8 @@ def of_nsmb(pulset, phi, sbtemplatef, sbtemplate, iPt, psddnu, fs, indwindow_nsm
 
     # constrain best guess based on indwindow ===
     # if the window given wraps to negative values convert all to positive values
-    lgcneg = indwindow < 0
-    indwindow[lgcneg] = nt+indwindow[lgcneg]
-
-    #finally ensure that nothing is larger than nt
-    lgc_toobig= indwindow >= nt;
-    indwindow[lgc_toobig]=np.mod(indwindow[lgc_toobig],nt)    
+    # and ensure that nothing is larger than nt (without changing the window passed)
+    indwindow = np.mod(indwindow, nt)
 
 
     # find the chi2 minimum
-- 
2.43.0


From 45e8415afe71fb524edc984b30b296ce3accb9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 52/67] fix: of_nsmb_con did not wrap its search window as
 of_nsmb does

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 3f901d0..77e6c51 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -979,7 +979,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
         chi2new[ii] = chi2base-chi2t0setMask
         
         
-    indwindow = indwindow_nsmb[0]
+    indwindow = np.mod(indwindow_nsmb[0], nt)
     chi2new = np.squeeze(chi2new)
     chi2min= np.amin(chi2new[indwindow])
     ind_tdel_smNew = np.argmin(chi2new[indwindow])
-- 
2.43.0


From 2e4cb66965754937bbca14c4e6ee5bbe3e65375a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 53/67] fix: of_nsmb_con raised for a best delay at the first
 or last bin

---
 qetpy/core/_of_nsmb.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 77e6c51..8145e62 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -992,11 +992,12 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
     # such that tdelmin[0] is the template start time (in the middle of the trace)
     tdelmin = ((ind_tdel_New) - nt*(ind_tdel_New>nt/2))*dt
     bitcombfitFinal = np.squeeze(bitcombfitVec[:,ind_tdel_New])
-    timearray_chi2 = np.arange(nt)*dt 
-    time_chi2min_interp, chi2min_interp, amincon_int = _interpchi2(ind_tdel_New,
-                                                                       chi2new,
-                                                                       a_tsetnew[0,:],
-                                                                       timearray_chi2)
+    # the chi2 is periodic in the time delay
+    ind_interp = int(ind_tdel_New[0]) + np.arange(-1, 2)
+    time_chi2min_interp, chi2min_interp, amincon_int = _interpchi2(1,
+                                                                       chi2new[ind_interp%nt],
+                                                                       a_tsetnew[0,ind_interp%nt],
+                                                                       ind_interp*dt)
 
     tdelmin_interp = (time_chi2min_interp - nt*dt*(time_chi2min_interp>(nt*dt/2)))
     
-- 
2.43.0


From 4b897d97d644acf7dbdbddfcffcfd9ea62d7fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 54/67] fix: of_nsmb_con interpolated where the chi2 has no
 local minimum

---
 qetpy/core/_of_nsmb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 8145e62..accd233 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1138,6 +1138,11 @@ def _interpchi2(indmin, chi2, amp, time):
     chi2_interp = chi2[int(indmin-1):int(indmin+2)]
     amin_s_interp = amp[int(indmin-1):int(indmin+2)]
 
+    if (chi2_interp[1] > np.amin(chi2_interp) or
+            chi2_interp[0] + chi2_interp[2] <= 2*chi2_interp[1]):
+        # not a local minimum (e.g. at the edge of the search window)
+        return t_to_interp[1], chi2_interp[1], amin_s_interp[1]
+
     z_interp = np.polyfit(t_to_interp, chi2_interp,2)
     f_interp = np.poly1d(z_interp)
 
-- 
2.43.0


From 78f38623b181d86cf461c5e17f7da6f739e376fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 55/67] fix: of_nsmb_con raised for a search window of one bin

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index accd233..3a47b01 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1018,7 +1018,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
     
 
     for iwin in range(ncwindow):
-        indwindow = np.squeeze(indwindow_nsmb[iwin+1]) # indwindow_nsmb[1] is the first index window        
+        indwindow = np.ravel(indwindow_nsmb[iwin+1]) # indwindow_nsmb[1] is the first index window        
         chi2min_cwindow[iwin] = np.amin(chi2newroll[indwindow])
         ind_tdel_smNew = np.argmin(chi2newroll[indwindow])
         ind_tdel_New=indwindow[ind_tdel_smNew]
-- 
2.43.0


From a3e96202406d0193f7c61175f291d743733f2889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 56/67] fix: of_nsmb_con did not take the signal polarity
 constraint as a number

---
 qetpy/core/_of_nsmb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 3a47b01..74af4cf 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -791,7 +791,7 @@ def of_nsmb_con(pulset, phi, Pfs, P, sbtemplatef, sbtemplate, psddnu, fs, indwin
     if sigpolarityconstraint is None:
         sigpolarityconstraint = np.zeros(ns)
     
-    sbpolcon = np.concatenate((sigpolarityconstraint, bkgpolarityconstraint), axis = 0)
+    sbpolcon = np.concatenate((np.atleast_1d(sigpolarityconstraint), bkgpolarityconstraint), axis = 0)
     
     pulsef = np.fft.fft(pulset,axis=1)/nt
 
-- 
2.43.0


From 876a413b9a63c12bb462ea0601fd4adeb32c5255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 57/67] fix: slope template of the nsmb fit could get one bin
 too many

---
 qetpy/core/_of_nsmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 74af4cf..ee3efa9 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1268,7 +1268,7 @@ def get_slope_dc_template_nsmb(nbin):
     backgroundtemplates = np.ones((nbin,2))
     
     # construct the sloped background
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
     
     backgroundtemplatesshifts = np.empty((2))
     backgroundtemplatesshifts[:] = np.nan
@@ -1366,7 +1366,7 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
                 backgroundpolarityconstraint[ii] = -1
             
     # construct the sloped background for the second to last template
-    backgroundtemplates[:,-2] = np.arange(0,1,1/nbin)
+    backgroundtemplates[:,-2] = np.arange(nbin)/nbin
 
     # the slope and dc background don't have a bin shift,
     # so set these values to nan
-- 
2.43.0


From 98258717a2036f1b8fdb25acf2143789a1e63f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 58/67] fix: a ttl pulse was lost to rounding when the periods
 fill the trace

---
 qetpy/core/_of_nsmb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index ee3efa9..a4bba56 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1335,7 +1335,8 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
     # how many ttl triggers in the trace
     tLengthTrace = nbin/fs
     
-    nTTLs = int(tLengthTrace/ttltimeBetween)
+    # (allow for rounding when a whole number of periods fits)
+    nTTLs = int(tLengthTrace/ttltimeBetween*(1 + 1e-9))
 
     # shift the template back by nTTLs/2*ttlbinsbetween bins
     #
-- 
2.43.0


From b892d6f30dcdacf322272f376cbd5fa6e0a8f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 59/67] fix: notch windows past the end of the trace raised

---
 qetpy/core/_of_nsmb.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index a4bba56..97221a9 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1390,9 +1390,8 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
                                      np.arange(int(backgroundtemplateshifts[ii]-lowind),
                                                int(backgroundtemplateshifts[ii]+highind+1))))
 
-    # if values of restrictind are negative wrap them around to the end of the window
-    lgcneg = restrictind<0
-    restrictind[lgcneg] = len(template)+restrictind[lgcneg]
+    # if values of restrictind are outside the window wrap them around
+    restrictind = np.mod(restrictind, len(template))
 
     # delete the restrictedind from indwindow
     indwindow = np.delete(indwindowfull,restrictind)
-- 
2.43.0


From e22f9a17190d20ba49625e37574a86c8d1aa0032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 60/67] fix: shifts of the slope and dc templates are
 documented as nan

---
 qetpy/core/_of_nsmb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qetpy/core/_of_nsmb.py b/qetpy/core/_of_nsmb.py
index 97221a9..f7e2cd3 100644
--- a/qetpy/core/_of_nsmb.py
+++ b/qetpy/core/_of_nsmb.py
@@ -1371,8 +1371,8 @@ def maketemplate_ttlfit_nsmb(template, fs, ttlrate, lgcconstrainpolarity=False,
 
     # the slope and dc background don't have a bin shift,
     # so set these values to nan
-    backgroundtemplateshifts[-1] = 0
-    backgroundtemplateshifts[-2] = 0
+    backgroundtemplateshifts[-1] = np.nan
+    backgroundtemplateshifts[-2] = np.nan
 
 
     # construct index window
-- 
2.43.0


From ba26b6f56f262944af4708b8b429cfc67ed7f3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 61/67] fix: dIdV plots did not take the pole selection as an
 array

---
 qetpy/core/didv/_plot_didv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qetpy/core/didv/_plot_didv.py b/qetpy/core/didv/_plot_didv.py
index a7369e3..b34eba5 100644
--- a/qetpy/core/didv/_plot_didv.py
+++ b/qetpy/core/didv/_plot_didv.py
@@ -43,7 +43,7 @@ class _PlotDIDV(object):
     def _plot_time_domain(self, poles):
         """Helper function for plotting the fits in time domain."""
 
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
@@ -296,7 +296,7 @@ class _PlotDIDV(object):
     def _plot_freq_domain(self, function, poles):
         """Helper method for plotting data in frequency domain."""
         
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
@@ -521,7 +521,7 @@ class _PlotDIDV(object):
 
         """
         
-        if poles == "all":
+        if isinstance(poles, str) and poles == "all":
             poleslist = np.array([1, 2, 3])
         else:
             poleslist = np.array(poles)
-- 
2.43.0


From fad3940f9e17b75c1e47f0f1155775717c1a957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 62/67] fix: count complete dIdV periods in the slope and
 baseline cuts without rounding loss

---
 qetpy/cut/_cut.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qetpy/cut/_cut.py b/qetpy/cut/_cut.py
index ca5c5f9..fa0893f 100644
--- a/qetpy/cut/_cut.py
+++ b/qetpy/cut/_cut.py
@@ -502,7 +502,8 @@ def slopecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=Fal
     traceend = np.zeros(len(traces))
 
     # number of periods and bins in period to determine where to calculate slopes and baselines
-    nperiods = np.floor((nbin/fs)*sgfreq)
+    # (without losing a complete period to rounding)
+    nperiods = np.floor((nbin/fs)*sgfreq*(1+1e-12))
     binsinperiod = fs/sgfreq
 
     if is_didv:
@@ -581,7 +582,8 @@ def baselinecut(traces, fs=625e3, outlieralgo="removeoutliers", nsig=2, is_didv=
     tracebegin = np.zeros(len(traces))
 
     # number of periods and bins in period to determine where to calculate slopes and baselines
-    nperiods = np.floor((nbin/fs)*sgfreq)
+    # (without losing a complete period to rounding)
+    nperiods = np.floor((nbin/fs)*sgfreq*(1+1e-12))
     binsinperiod = fs/sgfreq
 
     if is_didv:
-- 
2.43.0


From 7b84052d28ce3c0be6a4cb8014c1176f1c766e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 63/67] fix: slope lost the y values next to a large mean of x

---
 qetpy/utils/_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index e67ae15..7c54f88 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -332,7 +332,9 @@ def slope(x, y, removemeans=True):
 
     x_mean = np.mean(x) if removemeans else 0
 
-    return np.sum((x - x_mean) * (y - x_mean)) / np.sum((x - x_mean) ** 2)
+    y_mean = np.mean(y) if removemeans else 0
+
+    return np.sum((x - x_mean) * (y - y_mean)) / np.sum((x - x_mean) ** 2)
 
 def fill_negatives(arr):
     """
-- 
2.43.0


From cdc915fd6a38dd9a49c5c81412e2a489de7438c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:35 +0000
Subject: [PATCH 64/67] fix: shift truncated fractional fill values of integer
 arrays; shift and slope take lists as documented

---
 qetpy/utils/_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index 7c54f88..d492487 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -47,7 +47,9 @@ def shift(arr, num, fill_value=0):
 
     """
 
-    result = np.empty_like(arr)
+    arr = np.asanyarray(arr)
+    # the fill value has to be representable as well (integer arrays)
+    result = np.empty_like(arr, dtype=np.result_type(arr, fill_value))
 
     if float(num).is_integer():
         num = int(num) # force num to int type for slicing
@@ -330,6 +332,9 @@ def slope(x, y, removemeans=True):
 
     """
 
+    x = np.asanyarray(x)
+    y = np.asanyarray(y)
+
     x_mean = np.mean(x) if removemeans else 0
 
     y_mean = np.mean(y) if removemeans else 0
-- 
2.43.0


From 80adee72e35194dcc5e25bad88a9d78ed82444f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:36 +0000
Subject: [PATCH 65/67] fix: calc_psd takes lists as documented

---
 qetpy/core/_noise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qetpy/core/_noise.py b/qetpy/core/_noise.py
index 0fc9ee5..2f5ce43 100644
--- a/qetpy/core/_noise.py
+++ b/qetpy/core/_noise.py
@@ -66,6 +66,8 @@ def calc_psd(x, fs=1.0, folded_over=True):
         
     """
     
+    x = np.asanyarray(x)
+
     # calculate normalization for correct units
     norm = fs * x.shape[-1]
     
-- 
2.43.0


From 454895dc4c13de9c863d8914edae2c4e5655ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:44 +0000
Subject: [PATCH 66/67] fix: make_decreasing and smooth_psd extrapolated below
 the smallest value (negative PSD)

---
 qetpy/utils/_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qetpy/utils/_utils.py b/qetpy/utils/_utils.py
index d492487..b21938e 100644
--- a/qetpy/utils/_utils.py
+++ b/qetpy/utils/_utils.py
@@ -265,6 +265,9 @@ def make_decreasing(y, x=None):
 
     out = f(x)
 
+    # nothing below the last kept value to interpolate to
+    out[np.flatnonzero(interp_inds)[-1]:] = last_val
+
     return out
 
 
-- 
2.43.0


From f8294b144b398f250f5b09466db797839ac556db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:47 +0000
Subject: [PATCH 67/67] fix: IBIS analysis truncated results of integer data
 and overwrote the results of an earlier analysis

---
 qetpy/core/_ibis.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qetpy/core/_ibis.py b/qetpy/core/_ibis.py
index 73f6016..fd8c0d0 100644
--- a/qetpy/core/_ibis.py
+++ b/qetpy/core/_ibis.py
@@ -639,6 +639,13 @@ class IBIS(object):
         self.rp = rp[..., 0]
         self.rp_err = rp_err[..., 0]
 
+        # new floating-point arrays, such that the results of an earlier
+        # analysis are kept and integer data are not truncated
+        self.r0 = np.zeros(self.dites.shape)
+        self.r0_err = np.zeros(self.dites.shape)
+        self.ptes = np.zeros(self.dites.shape)
+        self.ptes_err = np.zeros(self.dites.shape)
+
         # Propagate fit errors to paramters
         for t in range(ntemps):
             for ch in range(nch):
-- 
2.43.0

