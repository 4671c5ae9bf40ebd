From 2318e96ef27739780f675e4e2a4d7ad8158c7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 01/64] fix: parse XML tags that carry no text of their own

---
 exorad/tasks/loadOptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 36d71a8..08204af 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -9,7 +9,7 @@ from astropy.io.ascii.core import InconsistentTableError
 from .task import Task
 from exorad.utils.passVal import PassVal
 
-compactString = lambda string: string.replace("\n", "").strip()
+compactString = lambda string: (string or "").replace("\n", "").strip()
 
 
 class LoadOptions(Task):
-- 
2.43.0


From 57813c43ff337d4993469f6d4a1ad9a03a292800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 02/64] fix: integrate an optical element over its own solid
 angle when one is given

---
 exorad/models/optics/opticalPath.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 5dd2f76..cdbd741 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -62,11 +62,14 @@ class InstRadiance(Radiance):
     position : str
         Position of the optical element in the optical path.
         Default is 'path'.
+    angle : None or Quantity
+        Custom solid angle of the optical element. Default is None.
     slit : None or bool
         Indicates if a slit is present in the optical path.
     """
 
     position = "path"
+    angle = None
     slit = None
 
 
@@ -259,6 +262,7 @@ class OpticalPath(Logger):
             self.debug(f"Propagating {el.name}")
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
+            out_radiance.angle = el.angle
             if el.temperature is not None:
                 # Calculate the surface radiance
                 out_radiance.data = surface_radiance(
@@ -317,7 +321,7 @@ class OpticalPath(Logger):
                     ch_built_instr,
                     A,
                     ch_table,
-                    omega_pix,
+                    omega_pix if rad.angle is None else rad.angle,
                     qe,
                     rad,
                 )
-- 
2.43.0


From e40d79fe03ae18c10f31127f3206eb9d2dd5baf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 03/64] fix: a slit filters the foregrounds even when no warm
 element precedes it

---
 exorad/models/optics/opticalPath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index cdbd741..771b72f 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -260,6 +260,8 @@ class OpticalPath(Logger):
         for i, k in enumerate(opt_list):
             el = opt_el[k]
             self.debug(f"Propagating {el.name}")
+            if el.type == "slit":
+                self.slit_width = el.description["width"]["value"]
             out_radiance = InstRadiance(wl_grid=wl, data=np.zeros(wl.size))
             out_radiance.position = el.position
             out_radiance.angle = el.angle
@@ -277,7 +279,6 @@ class OpticalPath(Logger):
                 out_radiance.data *= opt_el[other_el].transmission
                 if opt_el[other_el].type == "slit":
                     out_radiance.slit = True
-                    self.slit_width = opt_el[other_el].description["width"]["value"]
             # Store the radiance data
             self.radiance_dict[el.name] = copy.deepcopy(out_radiance)
             self.radiance_table[el.name] = copy.deepcopy(out_radiance.data)
-- 
2.43.0


From b64a29d4c8ec464985ec01a599fdfea527951103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 04/64] fix: honour an optical element's wavelength bounds when
 'use' picks its transmission

---
 exorad/models/optics/opticalElement.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index dccbb1e..e13b934 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -209,6 +209,12 @@ class OpticalElement(Logger):
                 self.debug(
                     f"Reflectivity keyword found for transmission for {self.name}"
                 )
+        else:
+            # Default transmission is 1 (no attenuation)
+            transmission = np.ones(self.wl.size)
+        if "data" not in self.description and (
+            "transmission" in self.description or "reflectivity" in self.description
+        ):
             # Apply wavelength lower bound if specified
             if "wl_min" in self.description:
                 wl_min = self.description["wl_min"]["value"].to(self.wl.unit)
@@ -221,9 +227,6 @@ class OpticalElement(Logger):
                 self.debug(f"Transmission upper boundary at {wl_max}")
                 idx = np.where(self.wl > wl_max)
                 transmission[idx] = 0.0
-        else:
-            # Default transmission is 1 (no attenuation)
-            transmission = np.ones(self.wl.size)
         self.debug(f"Transmission: {transmission}")
         return transmission
 
-- 
2.43.0


From 267c9546e0a56905236f49285ac00581b22bad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 05/64] fix: foreground layers attenuate the foregrounds posed
 before them

---
 exorad/models/instruments/instrument.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 1ca745d..599309b 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -191,14 +191,15 @@ class Instrument(Logger):
             radiance = copy.deepcopy(target.foreground[frg])
             self.debug("{} radiance . {}".format(frg, radiance.data))
 
-            if hasattr(frg, "transmission"):
-                frg.transmission.spectral_rebin(transmission.wl_grid)
-                transmission.data *= frg.transmission.data
-                self.debug("added {} transmission".format(frg))
-
             transmission.spectral_rebin(radiance.wl_grid)
             radiance.data *= transmission.data
 
+            # the layers posed before this one are seen through it
+            frg_transmission = getattr(radiance, "transmission", None)
+            if frg_transmission is not None:
+                transmission.data *= frg_transmission
+                self.debug("added {} transmission".format(frg))
+
             # for other_el in foregrounds[i+1:]:
             #     if hasattr(target.foreground[other_el], 'transmission'):
             #         self.debug('passing through {}'.format(other_el))
-- 
2.43.0


From 6d284c42be7c28d65c346d9fe3564658b1d47444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 06/64] fix: keep the sky transmission of one target out of the
 channel tables

---
 exorad/models/instruments/instrument.py   | 10 +++++++---
 exorad/models/instruments/photometer.py   |  6 ++++--
 exorad/models/instruments/spectrometer.py |  6 ++++--
 3 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 599309b..c1a3633 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -363,15 +363,19 @@ class Instrument(Logger):
 
         if hasattr(target, "skyTransmission"):
             target_transmission = copy.deepcopy(target.skyTransmission)
-            self.table["sky TR"], _ = self._get_transmission(
-                target_transmission.wl_grid, target_transmission.data
-            )
             target_transmission.spectral_rebin(wl)
             transmission.data *= target_transmission.data
 
         wave_window = np.ones(wl.size)
         return qe.data, transmission.data, wave_window
 
+    def _get_foreground_transmission(self, target):
+        """
+        returns the foreground transmission in the target direction, sampled at the channel bins
+        """
+        sky = copy.deepcopy(target.skyTransmission)
+        return self._get_transmission(sky.wl_grid, sky.data)[0]
+
     def _add_data_to_built(self, name, data):
         self.built_instr[name] = data
 
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 4bdc5f2..8cdab37 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -135,8 +135,10 @@ class Photometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if hasattr(target, "skyTransmission"):
+            out["foreground_transmission"] = self._get_foreground_transmission(
+                target
+            )
 
         if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
             self.debug("force channel wl edge enabled")
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index f57e861..65c4a45 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -327,8 +327,10 @@ class Spectrometer(Instrument):
         out = QTable()
         wl = target.star.sed.wl_grid
         qe, transmission, wave_window = self._get_efficiency(wl, target)
-        if "sky TR" in self.table.keys():
-            out["foreground_transmission"] = self.table["sky TR"]
+        if hasattr(target, "skyTransmission"):
+            out["foreground_transmission"] = self._get_foreground_transmission(
+                target
+            )
         if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
-- 
2.43.0


From fcd16ac5c548533a300aabcaac0afe6fd1e2aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 07/64] fix: rebin resamples from and onto wavelength grids in
 any order

---
 exorad/utils/exolib.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 0d0c66d..0e92ef6 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -41,6 +41,14 @@ def rebin(x, xp, fp):
         )
         raise ValueError
 
+    # work on ascending grids: the order of x is restored at the end
+    descending = x[0] > x[-1]
+    if descending:
+        x = x[::-1]
+    idx = np.argsort(xp)
+    xp = xp[idx]
+    fp = fp[idx]
+
     idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
     xp = xp[idx]
     fp = fp[idx]
@@ -112,6 +120,8 @@ def rebin(x, xp, fp):
             logger.debug("output units force to inputs fp")
             new_f *= funits
 
+    if descending:
+        x, new_f = x[::-1], new_f[::-1]
     return x, new_f
 
 
-- 
2.43.0


From 3877bdf749ca6e752263c964f7044686bde8811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 08/64] fix: rebin keeps the samples that bracket the requested
 window

---
 exorad/utils/exolib.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index 0e92ef6..c8a35e3 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -49,9 +49,11 @@ def rebin(x, xp, fp):
     xp = xp[idx]
     fp = fp[idx]
 
-    idx = np.where(np.logical_and(xp > 0.9 * x.min(), xp < 1.1 * x.max()))[0]
-    xp = xp[idx]
-    fp = fp[idx]
+    # keep the samples next to the window too: they bracket its edges
+    first = max(np.searchsorted(xp, 0.9 * x.min(), side="right") - 1, 0)
+    last = np.searchsorted(xp, 1.1 * x.max(), side="left") + 1
+    xp = xp[first:last]
+    fp = fp[first:last]
 
     if not hasattr(fp, "unit"):
         logger.debug("No units found for fp. Forced to None")
-- 
2.43.0


From dd15c9742ac29c375743259478461c4ea3ce2010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 09/64] fix: window sizes set in pixels merge with those of the
 other channels

---
 exorad/models/instruments/photometer.py   | 2 +-
 exorad/models/instruments/spectrometer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 8cdab37..f65db70 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -83,7 +83,7 @@ class Photometer(Instrument):
         window_size_px = self._windows_size(prf, psf_format)
         self.debug("window size : {}".format(window_size_px))
         self._add_data_to_built("window_size_px", window_size_px)
-        self.table["WindowSize"] = window_size_px
+        self.table["WindowSize"] = u.Quantity(window_size_px)
 
         self._add_data_to_built("table", self.table)
 
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 65c4a45..4a6bafa 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -320,7 +320,7 @@ class Spectrometer(Instrument):
         self._add_data_to_built("window_spectral_width", window_spectral_width)
         self._add_data_to_built("window_spatial_width", window_spatial_width)
         self._add_data_to_built("window_size_px", window_size_px)
-        self.table["WindowSize"] = window_size_px
+        self.table["WindowSize"] = u.Quantity(window_size_px)
         self.debug("window size : {}".format(window_size_px))
 
     def propagate_target(self, target):
-- 
2.43.0


From 93b9381c07eb328a5f196c643c0debd8b74ee8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 10/64] fix: observing a target again does not attenuate it
 twice by the foregrounds

---
 exorad/tasks/foregroundHandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 49a12d1..0b79974 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -152,6 +152,10 @@ class EstimateForegrounds(Task):
         foregrounds = self.get_task_param("foregrounds")
         wl_min, wl_max = self.get_task_param("wl_range")
 
+        # start over if the target has been observed already
+        target.__dict__.pop("foreground", None)
+        target.__dict__.pop("skyTransmission", None)
+
         estimateZodi = EstimateZodi()
         estimateForeground = EstimateForeground()
 
-- 
2.43.0


From f4c6afb4b39e95bae232b7abc21a4db409fc21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 11/64] fix: leave skipped targets out of the observed target
 list

---
 exorad/tasks/targetHandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index b1000ff..07ffb3f 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -389,14 +389,16 @@ class ObserveTargetlist(Task):
                     repeat(out_dir),
                     repeat(debug),
                 ):
-                    outputDict[t_name] = output
+                    if output is not None:
+                        outputDict[t_name] = output
         else:
             outputDict = {}
             for target in targets:
                 t_name, output = pipeline_to_dict(
                     target, payload, channels, wl_range, plot, out_dir, debug
                 )
-                outputDict[t_name] = output
+                if output is not None:
+                    outputDict[t_name] = output
 
         self.set_output(outputDict)
 
-- 
2.43.0


From 782e08da8778258f83a11bb1a818cc7dd9aaef42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 12/64] fix: stacking tables neither alters them nor fills
 missing columns with NaN

---
 exorad/utils/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index d6ff10b..8388699 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -78,18 +78,19 @@ def to_dict(obj, classkey=None):
 
 def vstack_tables(table_list):
     table = False
-    for tab in table_list:
+    # the input tables are left as they are
+    for tab in [t.copy() for t in table_list]:
         if not table:
             table = tab
         else:
             col_name1 = [col for col in table.keys() if col not in tab.keys()]
             if col_name1:
                 for c in col_name1:
-                    tab[c] = np.zeros(len(tab)) * table[c][0]
+                    tab[c] = np.zeros(len(tab)) * np.ones_like(table[c][0])
             col_name2 = [col for col in tab.keys() if col not in table.keys()]
             if col_name2:
                 for c in col_name2:
-                    table[c] = np.zeros(len(table)) * tab[c][0]
+                    table[c] = np.zeros(len(table)) * np.ones_like(tab[c][0])
             table = vstack([table, tab], join_type="outer")
     return table
 
-- 
2.43.0


From 53d0cf09c4c5d21660dadc7eb7b7887f14cb73d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 13/64] fix: pick the signal columns by their suffix, whatever
 the contributions are called

---
 exorad/models/noise.py        | 13 +++++++++++--
 exorad/tasks/targetHandler.py |  4 +++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index a6f524d..8f2379f 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -105,6 +105,15 @@ def multiaccum(channel, t_frame):
     return read_gain, shot_gain
 
 
+def _signal_keys(table):
+    """names of the columns with the signals that contribute photon noise"""
+    return [
+        key
+        for key in table.keys()
+        if key.endswith(("_signal", " signal", "_signal_inAperture"))
+    ]
+
+
 def photon_noise(table, channel, shot_gain, out):
     """
     Given the channel and channel descriptions, populates the output table with photon noises
@@ -127,7 +136,7 @@ def photon_noise(table, channel, shot_gain, out):
     """
     name = channel["value"]
 
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = _signal_keys(table)
     for key in signals:
         noise_key = "{}_noise".format(key)
         out[noise_key] = (
@@ -161,7 +170,7 @@ def photon_noise_variance(table, out):
         sum of photon variances
     """
     '''
-    signals = [key for key in table.keys() if "signal" in key]
+    signals = _signal_keys(table)
     _photon_noise_variance = (
         np.zeros(out["frameTime"].size) * (u.count / u.s) ** 2 * u.hr
     )
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 07ffb3f..e7ae018 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -175,7 +175,9 @@ class EstimateMaxSignal(Task):
         self.info("estimating max signal in pixel")
         target = self.get_task_param("target")
         table = target.table
-        signals = [key for key in table.keys() if "Max" in key]
+        signals = [
+            key for key in table.keys() if key.endswith("_MaxSignal_inPixel")
+        ]
         max_signal = np.zeros(table["Wavelength"].size) * u.count / u.s
         for key in signals:
             max_signal += table[key]
-- 
2.43.0


From 1f92f6da017e494edd49e0340356b252443984fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 14/64] fix: observe targets through payloads that list no
 foreground

---
 exorad/tasks/targetHandler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index e7ae018..166bcf2 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -252,7 +252,10 @@ class ObserveTarget(Task):
                 target=target,
                 wl_range=(wl_min, wl_max),
             )
-        target = propagateForegroundLight(channels=channels, target=target)
+        if hasattr(target, "foreground"):
+            target = propagateForegroundLight(
+                channels=channels, target=target
+            )
 
         target, sed = loadSource(
             target=target,
-- 
2.43.0


From d75bda8bc1718ff0002f3ba38cee463725becc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:05 +0000
Subject: [PATCH 15/64] fix: fall back on the zodiacal factor when the zodiacal
 map cannot be used

---
 exorad/models/foregrounds/zodiacalForeground.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 0bacb83..8db5daa 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -51,7 +51,7 @@ class ZodiacalFrg(Logger):
                 A = self.zodiacal_fit_direction(coordinates, map_file)
             except (KeyError, OSError):
                 self.warning("zodiacal fit failed")
-                self._get_radiance(coordinates=None)
+                return self._get_radiance(coordinates=None)
 
         elif "zodiacFactor" in self.description:
             self.debug(" model used for zodiacal foreground")
-- 
2.43.0


From 3fb0ae16c272e5a10f3fc5a98ee1a2591ce67a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:19 +0000
Subject: [PATCH 16/64] fix: take the zodiacal coefficient of the map point
 nearest on the sky

---
 exorad/models/foregrounds/zodiacalForeground.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/exorad/models/foregrounds/zodiacalForeground.py b/exorad/models/foregrounds/zodiacalForeground.py
index 8db5daa..2368e15 100644
--- a/exorad/models/foregrounds/zodiacalForeground.py
+++ b/exorad/models/foregrounds/zodiacalForeground.py
@@ -81,6 +81,7 @@ class ZodiacalFrg(Logger):
         It's based on Kelsall et al. 1998 model
         """
         import os
+        from astropy.coordinates import angular_separation
         from astropy.io.misc.hdf5 import read_table_hdf5
         import numpy as np
         from pathlib import Path
@@ -118,9 +119,12 @@ class ZodiacalFrg(Logger):
         try:
             zodi_table = read_table_hdf5(zodi_map_file)
             self.debug(zodi_table)
-            distance = (zodi_table["ra_icrs"] * u.deg - ra_input) ** 2 + (
-                zodi_table["dec_icrs"] * u.deg - dec_input
-            ) ** 2
+            distance = angular_separation(
+                np.asarray(zodi_table["ra_icrs"]) * u.deg,
+                np.asarray(zodi_table["dec_icrs"]) * u.deg,
+                ra_input,
+                dec_input,
+            )
             idx = np.argmin(distance)
             self.debug("selected line {}".format(idx))
             self.debug(zodi_table[idx])
-- 
2.43.0


From 676cb75f9b0f30c4c4f173a41abba3290ff6c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 17/64] fix: custom noise given as a function of wavelength

---
 exorad/models/noise.py | 63 +++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 38 deletions(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index 8f2379f..13a0bcc 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -181,50 +181,37 @@ def photon_noise_variance(table, out):
 
 
 def add_custom_noise(custom, wl, out):
-    if "data" in custom:
-        col_name = [
-            col for col in custom["data"].keys() if "Wavelength" not in col
-        ]
-        custom_noise = Signal(
-            custom["data"]["Wavelength"], custom["data"][col_name]
-        )
-        custom_noise.spectral_rebin(wl)
-        out["{}_noise".format(col_name)] = custom_noise.data
-        logger.debug(
-            "{} added as custom noise :{}".format(col_name, custom_noise.data)
-        )
-        out["total_noise"] = np.sqrt(
-            out["total_noise"] * out["total_noise"]
-            + custom_noise.data * custom_noise.data
-        )
-
+    # repeated tags are collected in an ordered dictionary
     if isinstance(custom, OrderedDict):
-        for contrib in custom:
+        contributions = list(custom.values())
+    else:
+        contributions = [custom]
+
+    for contribution in contributions:
+        if "data" in contribution:
+            # noise curve, already in hr^(1/2)
+            data = contribution["data"]
+            name = next(col for col in data.keys() if "Wavelength" not in col)
+            curve = Signal(data["Wavelength"], data[name])
             custom_noise = (
-                custom[contrib]["value"]
-                * 1e-6
-                * np.ones(wl.size)
-                * u.hr**0.5
-            )
-            out[
-                "{}_noise".format(custom[contrib]["name"]["value"])
-            ] = custom_noise
-            logger.debug(
-                "{} added as custom noise :{}".format(
-                    custom[contrib]["name"]["value"], custom_noise
+                np.interp(
+                    wl.to(u.um).value,
+                    curve.wl_grid.to(u.um).value,
+                    np.squeeze(curve.data.value),
+                    left=0.0,
+                    right=0.0,
                 )
+                * u.hr**0.5
             )
-            out["total_noise"] = np.sqrt(
-                out["total_noise"] * out["total_noise"]
-                + custom_noise * custom_noise
+        else:
+            # constant noise, in ppm
+            name = contribution["name"]["value"]
+            custom_noise = (
+                contribution["value"] * 1e-6 * np.ones(wl.size) * u.hr**0.5
             )
-    else:
-        custom_noise = custom["value"] * 1e-6 * np.ones(wl.size) * u.hr**0.5
-        out["{}_noise".format(custom["name"]["value"])] = custom_noise
+        out["{}_noise".format(name)] = custom_noise
         logger.debug(
-            "{} added as custom noise :{}".format(
-                custom["name"]["value"], custom_noise
-            )
+            "{} added as custom noise :{}".format(name, custom_noise)
         )
         out["total_noise"] = np.sqrt(
             out["total_noise"] * out["total_noise"]
-- 
2.43.0


From 9f6f1894e947d9ff4a90aa71a88511ff17f2ac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 18/64] fix: repeated XML tags with the same value do not
 replace each other

---
 exorad/tasks/loadOptions.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 08204af..bfdfe37 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -115,14 +115,16 @@ class LoadOptions(Task):
             if ch.tag in root_dict:
                 # if an other instance of same tag exists, transform into a dict
                 attr = root_dict[ch.tag]
-                if isinstance(attr, OrderedDict):
-                    attr[value] = retval
-                else:
-                    if not isinstance(attr, str):
-                        dtmp = OrderedDict(
-                            [(attr["value"], attr), (value, retval)]
-                        )
-                        root_dict[ch.tag] = dtmp
+                if not isinstance(attr, OrderedDict):
+                    attr = OrderedDict([(attr.get("value", ch.tag), attr)])
+                    root_dict[ch.tag] = attr
+                # instances with the same value must not replace each other
+                name = retval.get("value", ch.tag)
+                key, n = name, 1
+                while key in attr:
+                    n += 1
+                    key = "{} ({})".format(name, n)
+                attr[key] = retval
             else:
                 # othewise, set new attr
                 root_dict[ch.tag] = retval
-- 
2.43.0


From e46b996e0798fd7699b1372dec1633c095e6d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 19/64] fix: list the channels of payloads with a single
 channel

---
 exorad/tasks/instrumentHandler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 6a440ce..8fab160 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -358,9 +358,13 @@ class GetChannelList(Task):
 
     def __get_channel_list__(self):
         channel_lst = []
-        for channel in self._opt["channel"].keys():
+        channels = self._opt["channel"]
+        if "channelClass" in channels:
+            # single channel payload
+            channels = {channels["value"]: channels}
+        for channel in channels.keys():
             if (
-                self._opt["channel"][channel]["channelClass"]["value"].lower()
+                channels[channel]["channelClass"]["value"].lower()
                 == self._channel_type.lower()
             ):
                 channel_lst.append(channel)
-- 
2.43.0


From cee9e477c159cf004da22cd20712167d679fc691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 20/64] fix: ForceChannelWlEdge can be left out of the payload

---
 exorad/models/instruments/instrument.py   | 7 ++++++-
 exorad/models/instruments/photometer.py   | 2 +-
 exorad/models/instruments/spectrometer.py | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index c1a3633..c9ce2ae 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -238,6 +238,11 @@ class Instrument(Logger):
             out["{}_MaxSignal_inPixel".format(frg)] = total_max_signal
         return out
 
+    def _force_wl_edge(self):
+        """the channel edges are forced only if the payload asks for it"""
+        option = self.payload["optics"].get("ForceChannelWlEdge", {})
+        return option.get("value", False)
+
     def _bin_signal(self, wl, signal, leftbin, rightbin):
         bsig = [
             np.mean(signal[np.logical_and(wl >= wlow, wl < whigh)])
@@ -264,7 +269,7 @@ class Instrument(Logger):
             self.table["RightBinEdge"],
         )
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 self.table["Wavelength"]
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index f65db70..3a4f838 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -140,7 +140,7 @@ class Photometer(Instrument):
                 target
             )
 
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 4a6bafa..0417146 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -331,7 +331,7 @@ class Spectrometer(Instrument):
             out["foreground_transmission"] = self._get_foreground_transmission(
                 target
             )
-        if self.payload["optics"]["ForceChannelWlEdge"]["value"]:
+        if self._force_wl_edge():
             self.debug("force channel wl edge enabled")
             idx = np.logical_or(
                 wl
-- 
2.43.0


From 54a3c43d875d4bab1dee5ed440499e7c64edc232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 21/64] fix: foregrounds of another payload do not stick to an
 observed target

---
 exorad/tasks/targetHandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 166bcf2..45d9d58 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -252,6 +252,10 @@ class ObserveTarget(Task):
                 target=target,
                 wl_range=(wl_min, wl_max),
             )
+        else:
+            # nothing is left from previous observations of the target
+            for attr in ("foreground", "skyTransmission"):
+                target.__dict__.pop(attr, None)
         if hasattr(target, "foreground"):
             target = propagateForegroundLight(
                 channels=channels, target=target
-- 
2.43.0


From 26b0466e52ea6de78e111ab1e29b7c763cd42d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:29 +0000
Subject: [PATCH 22/64] fix: working_R belongs to the payload that sets it

---
 exorad/models/instruments/instrument.py |  2 ++
 exorad/tasks/instrumentHandler.py       |  2 ++
 exorad/tasks/targetHandler.py           |  2 ++
 exorad/utils/passVal.py                 | 11 ++++++++++-
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index c9ce2ae..43a16af 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -95,6 +95,8 @@ class Instrument(Logger):
             # you cannot load the description and run it again because it's not an ordered dictionary anymore
             raise ValueError("You cannot build a loaded instrument")
         else:
+            if self.payload:
+                PassVal.load(self.payload)
             self.builder()
             self.build_optical_path()
 
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index 8fab160..b3d46eb 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -6,6 +6,7 @@ from .task import Task
 from exorad.models.instruments import Photometer
 from exorad.models.instruments import Spectrometer
 from exorad.output.hdf5 import load
+from exorad.utils.passVal import PassVal
 
 instruments = {"photometer": Photometer, "spectrometer": Spectrometer}
 
@@ -182,6 +183,7 @@ class LoadPayload(Task):
     def execute(self):
         payload_dir = self.get_task_param("input")["payload"]
         payload = load(payload_dir["payload description"])
+        PassVal.load(payload)
         channels_dir = payload_dir["channels"]
         channels = {}
         for ch in channels_dir.keys():
diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 45d9d58..33e5b2b 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -9,6 +9,7 @@ from .task import Task
 from exorad.__version__ import __version__
 from exorad.log import disableLogging
 from exorad.log import enableLogging
+from exorad.utils.passVal import PassVal
 
 
 class LoadTargetList(Task):
@@ -227,6 +228,7 @@ class ObserveTarget(Task):
         payload = self.get_task_param("payload")
         channels = self.get_task_param("channels")
         wl_min, wl_max = self.get_task_param("wl_range")
+        PassVal.load(payload)
 
         from . import (
             PrepareTarget,
diff --git a/exorad/utils/passVal.py b/exorad/utils/passVal.py
index 50278e3..35e3b1d 100644
--- a/exorad/utils/passVal.py
+++ b/exorad/utils/passVal.py
@@ -27,7 +27,16 @@ class PassValInit(metaclass=SingletonMeta):
     Class used to propagate values through the code.
     """
 
-    _working_R = 6000
+    default_working_R = 6000
+    _working_R = default_working_R
+
+    def load(self, payload):
+        """sets the values to propagate from the payload description"""
+        self.working_R = (
+            payload.get("common", {})
+            .get("working_R", {})
+            .get("value", self.default_working_R)
+        )
 
     @property
     def working_R(self):
-- 
2.43.0


From 60270b5d19c8c5a251af3fcc725bf558bd227d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 23/64] fix: payloads saved in HDF5 files can be loaded and
 used again

---
 exorad/models/instruments/instrument.py   | 12 ++++++++----
 exorad/output/hdf5/hdf5.py                | 14 +++++++++++---
 exorad/output/hdf5/util.py                | 17 +++++++++++++++--
 exorad/tasks/instrumentHandler.py         |  2 +-
 exorad/utils/diffuse_light_propagation.py | 12 ++++++++----
 5 files changed, 43 insertions(+), 14 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 43a16af..0d3eeb3 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -355,15 +355,19 @@ class Instrument(Logger):
         #                         self.built_instr['transmission_data']['data'], left=0.0, right=0.0)
         # wave_window = np.ones(self.table['Wavelength'])
         qe = Signal(
-            self.built_instr["qe_data"]["wl_grid"]["value"]
-            * u.Unit(self.built_instr["qe_data"]["wl_grid"]["unit"]),
+            u.Quantity(
+                self.built_instr["qe_data"]["wl_grid"]["value"],
+                self.built_instr["qe_data"]["wl_grid"]["unit"],
+            ),
             self.built_instr["qe_data"]["data"]["value"],
         )
         qe.spectral_rebin(wl)
 
         transmission = Signal(
-            self.built_instr["transmission_data"]["wl_grid"]["value"]
-            * u.Unit(self.built_instr["transmission_data"]["wl_grid"]["unit"]),
+            u.Quantity(
+                self.built_instr["transmission_data"]["wl_grid"]["value"],
+                self.built_instr["transmission_data"]["wl_grid"]["unit"],
+            ),
             self.built_instr["transmission_data"]["data"]["value"],
         )
         transmission.spectral_rebin(wl)
diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 1f8c49f..071663e 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -121,11 +121,17 @@ class HDF5OutputGroup(OutputGroup):
         entry = None
         if self._entry:
             try:
-                entry = self._entry.create_group(str(group_name))
+                entry = self._entry.create_group(
+                    str(group_name), track_order=True
+                )
             except ValueError:
                 entry = self._entry[str(group_name)]
         return HDF5OutputGroup(entry)
 
+    def set_ordered(self):
+        """marks the group as the content of an ordered dictionary"""
+        self._entry.attrs["ordered"] = True
+
     def write_string_array(self, string_name, string_array, metadata=None):
         asciiList = [n.encode("ascii", "ignore") for n in string_array]
         ds = self._entry.create_dataset(
@@ -149,7 +155,7 @@ class HDF5OutputGroup(OutputGroup):
                 data=quantity.value,
             )
             qg_c.create_dataset("unit", data=str(quantity.unit))
-            pass
+            qg_c.attrs["quantity"] = True
 
 
 def _encode_mixins(tbl):
@@ -232,7 +238,9 @@ class HDF5Output(Output):
         entry = None
         if self.fd:
             try:
-                entry = self.fd.create_group(str(group_name))
+                entry = self.fd.create_group(
+                    str(group_name), track_order=True
+                )
             except ValueError:
                 entry = self.fd[str(group_name)]
         return HDF5OutputGroup(entry)
diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 3cdc912..5f77001 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -1,3 +1,5 @@
+from collections import OrderedDict
+
 import astropy.units as u
 import h5py
 import numpy as np
@@ -33,7 +35,10 @@ def recursively_read_dict_contents(input_dict):
     #     time = input['time_grid']['value'] * u.Unit(input['time_grid']['unit'])
     #     input = signal[str(input['data']['unit'])](wl, data, time)
     if all(elem in new_keys for elem in ["value", "unit"]):
-        input_dict["value"] = input_dict["value"] * u.Unit(input_dict["unit"])
+        unit = input_dict["unit"]
+        if unit == "dimensionless":
+            unit = ""
+        input_dict["value"] = input_dict["value"] * u.Unit(unit)
 
     if any(".__table_column_meta__" in elem for elem in new_keys):
         table_keys = [
@@ -62,14 +67,20 @@ def hdf5_group_to_dict(h5_group):
     dict
         A dictionary representing the HDF5 group structure
     """
-    result = {}
+    result = OrderedDict() if h5_group.attrs.get("ordered") else {}
     for key, item in h5_group.items():
         if isinstance(item, h5py.Dataset):
             # Convert dataset to numpy array and store
             result[key] = item[()]  # This reads the dataset into a numpy array
+            if isinstance(result[key], bytes):
+                result[key] = result[key].decode("utf-8")
         elif isinstance(item, h5py.Group):
             # Recurse into subgroups
             result[key] = hdf5_group_to_dict(item)
+            if item.attrs.get("quantity"):
+                result[key] = result[key]["value"] * u.Unit(
+                    result[key]["unit"]
+                )
     return result
 
 
@@ -163,6 +174,8 @@ def store_thing(output, key, item):
 
     elif isinstance(item, dict):
         group = output.create_group(key)
+        if isinstance(item, OrderedDict):
+            group.set_ordered()
         recursively_save_dict_contents_to_output(group, item)
     else:
         raise TypeError
diff --git a/exorad/tasks/instrumentHandler.py b/exorad/tasks/instrumentHandler.py
index b3d46eb..78e31ab 100644
--- a/exorad/tasks/instrumentHandler.py
+++ b/exorad/tasks/instrumentHandler.py
@@ -190,7 +190,7 @@ class LoadPayload(Task):
             ch_dir = channels_dir[ch]
             description = load(ch_dir["description"])
             instrument = instruments[
-                description["channelClass"]["value"].lower().decode("utf-8")
+                description["channelClass"]["value"].lower()
             ]
             channels[ch] = instrument(
                 name=ch,
diff --git a/exorad/utils/diffuse_light_propagation.py b/exorad/utils/diffuse_light_propagation.py
index fd6cda0..30f11e6 100644
--- a/exorad/utils/diffuse_light_propagation.py
+++ b/exorad/utils/diffuse_light_propagation.py
@@ -28,15 +28,19 @@ def prepare(ch_table, ch_built_instr, description):
         * description["detector"]["delta_pix"]["value"]
     ).to(u.m**2)
     qe = Signal(
-        ch_built_instr["qe_data"]["wl_grid"]["value"]
-        * u.Unit(ch_built_instr["qe_data"]["wl_grid"]["unit"]),
+        u.Quantity(
+            ch_built_instr["qe_data"]["wl_grid"]["value"],
+            ch_built_instr["qe_data"]["wl_grid"]["unit"],
+        ),
         ch_built_instr["qe_data"]["data"]["value"],
     )
     logger.debug("wl qe : {}".format(qe.wl_grid))
 
     transmission = Signal(
-        ch_built_instr["transmission_data"]["wl_grid"]["value"]
-        * u.Unit(ch_built_instr["transmission_data"]["wl_grid"]["unit"]),
+        u.Quantity(
+            ch_built_instr["transmission_data"]["wl_grid"]["value"],
+            ch_built_instr["transmission_data"]["wl_grid"]["unit"],
+        ),
         ch_built_instr["transmission_data"]["data"]["value"],
     )
 
-- 
2.43.0


From 4b8c7ba992ea90591cb225faa775ee9937c49cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 24/64] fix: read the dictionaries stored in HDF5 files

---
 exorad/tasks/loadOptions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index bfdfe37..7a34519 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -209,9 +209,11 @@ class LoadOptions(Task):
     def __read_datadict__(self, datadict):
         ext = os.path.splitext(datadict)[1]
         if ext in [".h5", ".hdf5"]:
+            import h5py
             from exorad.output.hdf5 import load
 
-            data = load(datadict)
+            with h5py.File(datadict, "r") as f:
+                data = load(f)
             return data
         elif ext == ".pickle":
             import pickle
-- 
2.43.0


From 3ae13038bfc9fd028e9b2e0ea12f911919d53e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 25/64] fix: a run does not remove its own inputs, nor the last
 output when it cannot start

---
 exorad/exorad.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 9c27b0d..7d5b273 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -60,6 +60,14 @@ def standard_pipeline(
         addLogFile()
 
     if output is not None:
+        # the previous output is given up only if the run can start
+        for fname in [options, target_list]:
+            if not os.path.exists(fname):
+                logger.error("{} not found".format(fname))
+                raise OSError("{} not found".format(fname))
+            if os.path.exists(output) and os.path.samefile(fname, output):
+                logger.error("the output would replace the input file")
+                raise OSError("the output would replace the input file")
         if replace:
             if os.path.exists(output):
                 os.remove(output)
-- 
2.43.0


From deba26a3e4919a55aed4ad696a8d92ab65126ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 26/64] fix: a faulty network does not prevent importing the
 package

---
 exorad/utils/version_control.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 1a45584..1101a63 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -39,7 +39,7 @@ class VersionControl(Logger):
                             )
                         )
 
-    def get_content(self, package_url):
+    def get_content(self, package_url, timeout=3):
         splitted_url = package_url.split("/")
         url = (
             "https://api.github.com/repos/{}/{}/contents/CHANGELOG.md".format(
@@ -47,15 +47,17 @@ class VersionControl(Logger):
             )
         )
         self.debug("package url: {}".format(url))
-        req = requests.get(url)
-        if req.status_code == requests.codes.ok:
-            self.status_code = True
-            req = req.json()
-            content = base64.b64decode(req["content"])
-            content = content.decode("ascii")
-            content = content.splitlines()
-        else:
-            self.status_code = False
+        self.status_code = False
+        content = None
+        try:
+            req = requests.get(url, timeout=timeout)
+            if req.status_code == requests.codes.ok:
+                content = base64.b64decode(req.json()["content"])
+                content = content.decode("utf-8").splitlines()
+                self.status_code = True
+        except (OSError, ValueError, KeyError, TypeError) as ex:
+            # whatever the network does, the code must go on
+            self.debug("online version not available: {}".format(ex))
             content = None
         return content
 
@@ -91,10 +93,9 @@ class VersionControl(Logger):
         solution from https://stackoverflow.com/a/33117579
         """
         try:
-            socket.setdefaulttimeout(timeout)
-            socket.socket(socket.AF_INET, socket.SOCK_STREAM).connect(
-                (host, port)
-            )
+            with socket.socket(socket.AF_INET, socket.SOCK_STREAM) as sock:
+                sock.settimeout(timeout)
+                sock.connect((host, port))
             return True
         except OSError as ex:
             print(ex)
-- 
2.43.0


From ce3f15f12f35a4d1c80c6835976394630285e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 27/64] fix: decimal commas in MRS target lists

---
 exorad/models/targetlist.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 666c2ca..3e876d9 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -271,15 +271,14 @@ class CSVTargetListMRS(BaseTargetList):
         for i in range(len(self.tmpTab[star_k])):
             val = list(self.tmpTab[star_k][i])
             for n in range(len(val)):
-                if isinstance(val[n], str):
-                    if (
-                        "," in val[n]
-                    ):  # for some reason, comma are used instead of dots sometimes
-                        val[n] = val[n].replace(",", ".")
+                if isinstance(val[n], str) and "," in val[n]:
+                    # for some reason, comma are used instead of dots sometimes
                     try:
-                        float(val[n])
+                        val[n] = float(val[n].replace(",", "."))
                     except ValueError:
-                        val[n]
+                        pass
+                if isinstance(val[n], str) and units[n] is not None:
+                    val[n] = float(val[n])
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
@@ -320,15 +319,14 @@ class CSVTargetListMRS(BaseTargetList):
         for i in range(len(self.tmpTab[planet_k])):
             val = list(self.tmpTab[planet_k][i])
             for n in range(len(val)):
-                if isinstance(val[n], str):
-                    if (
-                        "," in val[n]
-                    ):  # for some reason, comma are used instead of dots sometimes
-                        val[n] = val[n].replace(",", ".")
+                if isinstance(val[n], str) and "," in val[n]:
+                    # for some reason, comma are used instead of dots sometimes
                     try:
-                        float(val[n])
+                        val[n] = float(val[n].replace(",", "."))
                     except ValueError:
-                        val[n]
+                        pass
+                if isinstance(val[n], str) and units[n] is not None:
+                    val[n] = float(val[n])
                 if units[n] is not None:
                     val[n] = val[n] * units[n]
             dat.append([str(x) if isinstance(x, np.str_) else x for x in val])
-- 
2.43.0


From 2dfff79faf1540436d43ad51ad1890806f348458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 28/64] fix: custom sources need only the radius and the
 distance of the star

---
 exorad/tasks/loadSource.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 0e6d14a..13dc89e 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -182,11 +182,16 @@ class LoadSource(Task):
     def _add_star_metadata(self, star, table):
         metadata = {}
 
-        metadata["starName"] = star.name
-        metadata["starM"] = star.M
-        metadata["starTeff"] = star.Teff
-        metadata["starR"] = star.R
-        metadata["starDistance"] = star.D
+        for key, attr in [
+            ("starName", "name"),
+            ("starM", "M"),
+            ("starTeff", "Teff"),
+            ("starR", "R"),
+            ("starDistance", "D"),
+        ]:
+            # not all of them are needed by every source
+            if hasattr(star, attr):
+                metadata[key] = getattr(star, attr)
         metadata["starL"] = star.luminosity
         metadata["starModel"] = star.model
         if hasattr(star, "magk"):
-- 
2.43.0


From 489613baae8c5daa72ee24c12a77c77b769fbfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 29/64] fix: wavelengths, lengths and frequencies can be given
 in any unit

---
 exorad/models/instruments/instrument.py   |  8 +++++--
 exorad/models/instruments/photometer.py   | 16 +++++---------
 exorad/models/instruments/spectrometer.py | 27 ++++++++++++++---------
 exorad/models/noise.py                    |  4 +++-
 exorad/models/optics/opticalElement.py    | 23 +++++++++++++++++--
 exorad/models/signal.py                   |  5 +++++
 exorad/tasks/loadSource.py                |  1 +
 7 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/exorad/models/instruments/instrument.py b/exorad/models/instruments/instrument.py
index 0d3eeb3..880288b 100644
--- a/exorad/models/instruments/instrument.py
+++ b/exorad/models/instruments/instrument.py
@@ -110,10 +110,14 @@ class Instrument(Logger):
         wl_grid = (
             np.logspace(
                 np.log10(
-                    self.description["detector"]["wl_min"]["value"].value
+                    self.description["detector"]["wl_min"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 np.log10(
-                    self.description["detector"]["cut_off"]["value"].value
+                    self.description["detector"]["cut_off"]["value"]
+                    .to(u.um)
+                    .value
                 ),
                 PassVal.working_R,
             )
diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index 3a4f838..f09cbf4 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -16,14 +16,10 @@ class Photometer(Instrument):
     """
 
     def _wavelength_table(self):
-        wl_c = 0.5 * (
-            self.description["wl_min"]["value"]
-            + self.description["wl_max"]["value"]
-        )
-        bandwidth = (
-            self.description["wl_max"]["value"]
-            - self.description["wl_min"]["value"]
-        )
+        wl_min = self.description["wl_min"]["value"].to(u.um)
+        wl_max = self.description["wl_max"]["value"].to(u.um)
+        wl_c = 0.5 * (wl_min + wl_max)
+        bandwidth = wl_max - wl_min
         left_bin_edge = wl_c - 0.5 * bandwidth
         right_bin_edge = wl_c + 0.5 * bandwidth
         self.table["chName"] = [self.name]
@@ -101,7 +97,7 @@ class Photometer(Instrument):
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
                     / self.description["detector"]["delta_pix"]["value"] ** 2
-                )
+                ).to("")
         elif "EnE" in self.description["aperture"].keys():
             if psf_format == "pixel_based":
                 aper_radius = find_aperture_radius(
@@ -128,7 +124,7 @@ class Photometer(Instrument):
                     * self.description["Fnum_y"]["value"]
                     * self.table["Wavelength"]
                     / self.description["detector"]["delta_pix"]["value"] ** 2
-                )
+                ).to("")
         return window_size_px
 
     def propagate_target(self, target):
diff --git a/exorad/models/instruments/spectrometer.py b/exorad/models/instruments/spectrometer.py
index 0417146..c00abdf 100644
--- a/exorad/models/instruments/spectrometer.py
+++ b/exorad/models/instruments/spectrometer.py
@@ -60,7 +60,7 @@ class Spectrometer(Instrument):
                     )
                     + 1
                 )
-                wl_bin = self.description["wl_min"]["value"] * (
+                wl_bin = self.description["wl_min"]["value"].to(u.um) * (
                     1.0 + 1.0 / self.description["targetR"]["value"]
                 ) ** np.arange(number_of_spectral_bins)
                 wl_bin_c = 0.5 * (wl_bin[0:-1] + wl_bin[1:])
@@ -71,19 +71,19 @@ class Spectrometer(Instrument):
                 self.description["targetR"]["data"]["value"], sep="\t"
             )
             get_res = interp1d(res_data["W"], res_data["R"])
-            w1 = self.description["wl_min"]["value"].value
+            w1 = self.description["wl_min"]["value"].to(u.um).value
+            wl_max = self.description["wl_max"]["value"].to(u.um).value
             w2 = w1
             wl_bin = np.array([w1])
-            while w2 < self.description["wl_max"]["value"].value:
+            while w2 < wl_max:
                 w1 = w2
                 res = get_res(w1)
                 w2 = np.round((w1 + w1 / res), 4)
                 wl_bin = np.append(wl_bin, w2)
             if (
-                self.description["wl_max"]["value"].value - wl_bin[-2]
-                < (wl_bin[-2] - wl_bin[-3]) / 2.0
+                wl_max - wl_bin[-2] < (wl_bin[-2] - wl_bin[-3]) / 2.0
             ):  # remove small bin at end of channel
-                wl_bin[-2] = self.description["wl_max"]["value"].value
+                wl_bin[-2] = wl_max
                 wl_bin = wl_bin[:-1]
             wl_bin_c = (
                 (np.array(wl_bin[:-1]) + np.array(wl_bin[1:])) / 2 * u.micron
@@ -140,11 +140,15 @@ class Spectrometer(Instrument):
         )
 
         first_pixel = (
-            wl_sol_func_reverse(self.description["wl_min"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_min"]["value"].to(u.um).value
+            )
             * wl_solution_data.data.unit
         )
         last_pixel = (
-            wl_sol_func_reverse(self.description["wl_max"]["value"])
+            wl_sol_func_reverse(
+                self.description["wl_max"]["value"].to(u.um).value
+            )
             * wl_solution_data.data.unit
         )
         self.debug(
@@ -177,7 +181,7 @@ class Spectrometer(Instrument):
                 wl_sol_func(coord_pix_center - 0.5 * delta)
                 - wl_sol_func(coord_pix_center + 0.5 * delta)
             )
-            * delta.unit
+            * wl_solution_data.wl_grid.unit
         )
         self._add_data_to_built("pixel_bandwidth", pixel_bandwidth)
 
@@ -251,7 +255,10 @@ class Spectrometer(Instrument):
             # todo define spatial apertures
             self.debug("Encircle energy solution found")
             EncE_sol = interp1d(
-                self.description["EncESolution"]["data"]["Wavelength"],
+                u.Quantity(
+                    self.description["EncESolution"]["data"]["Wavelength"],
+                    u.um,
+                ),
                 self.description["EncESolution"]["data"]["EE"],
                 assume_sorted=False,
                 fill_value="extrapolate",
diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index 13a0bcc..7eabb06 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -69,7 +69,9 @@ def multiaccum(channel, t_frame):
     float
         shot noise gain
     """
-    nRead = np.floor(t_frame * channel["detector"]["freqNDR"]["value"])
+    nRead = np.floor(
+        u.Quantity(t_frame * channel["detector"]["freqNDR"]["value"]).to("")
+    )
 
     if "multiaccumM" in channel["detector"]:
         m = channel["detector"]["multiaccumM"]["value"]
diff --git a/exorad/models/optics/opticalElement.py b/exorad/models/optics/opticalElement.py
index e13b934..06248ea 100644
--- a/exorad/models/optics/opticalElement.py
+++ b/exorad/models/optics/opticalElement.py
@@ -137,6 +137,25 @@ class OpticalElement(Logger):
         else:
             return None
 
+    def _data_wavelength(self, wl_colname):
+        """
+        Retrieve the wavelengths of the data table in the units of the wavelength grid.
+
+        Parameters
+        ----------
+        wl_colname : str
+            Name of the wavelength column.
+
+        Returns
+        -------
+        wavelength : array_like
+            Wavelengths; if the column has no units, those of the grid are assumed.
+        """
+        wavelength = self.description["data"][wl_colname]
+        if getattr(wavelength, "unit", None) is not None:
+            wavelength = wavelength.to(self.wl.unit)
+        return wavelength
+
     def _get_transmission(self):
         """
         Calculate the transmission of the optical element over the wavelength grid.
@@ -183,7 +202,7 @@ class OpticalElement(Logger):
             )
             # Create an interpolation function for transmission
             tr_func = interp1d(
-                self.description["data"][wl_colname],
+                self._data_wavelength(wl_colname),
                 self.description["data"][colname],
                 assume_sorted=False,
                 fill_value=0.0,
@@ -271,7 +290,7 @@ class OpticalElement(Logger):
 
             # Create an interpolation function for emissivity
             em_func = interp1d(
-                self.description["data"][wl_colname],
+                self._data_wavelength(wl_colname),
                 self.description["data"][em_colname],
                 assume_sorted=False,
                 fill_value=0.0,
diff --git a/exorad/models/signal.py b/exorad/models/signal.py
index a5a7706..4b81461 100644
--- a/exorad/models/signal.py
+++ b/exorad/models/signal.py
@@ -96,6 +96,11 @@ class Signal(Logger):
             if it cannot convert the original units into the desired ones
 
         """
+        if getattr(quantity, "unit", None) is not None and u.Unit(
+            quantity.unit
+        ).is_equivalent(units):
+            # table columns too carry their units
+            quantity = u.Quantity(quantity)
         if isinstance(quantity, u.Quantity):
             if quantity.unit != units:
                 try:
diff --git a/exorad/tasks/loadSource.py b/exorad/tasks/loadSource.py
index 13dc89e..213ab5a 100644
--- a/exorad/tasks/loadSource.py
+++ b/exorad/tasks/loadSource.py
@@ -61,6 +61,7 @@ class LoadSource(Task):
             self.debug("wavelength unit not found: micron assumed")
             wl_min *= u.um
             wl_max *= u.um
+        wl_min, wl_max = wl_min.to(u.um), wl_max.to(u.um)
 
         wl_grid = (
             np.logspace(
-- 
2.43.0


From 8177eeac5e375181cc9cc4908dc7656da7d42769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 30/64] fix: keep the chosen log level and record each message
 once per log file

---
 exorad/log/__init__.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/exorad/log/__init__.py b/exorad/log/__init__.py
index a378fa5..bc0efb7 100644
--- a/exorad/log/__init__.py
+++ b/exorad/log/__init__.py
@@ -47,6 +47,7 @@ OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE
 OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 """
 import logging
+import os
 
 from .logger import Logger
 
@@ -63,26 +64,26 @@ def setLogLevel(level):
 
 
 def disableLogging():
-    # import logging
-    # from .logger import root_logger
-    # root_logger.setLevel(logging.ERROR)
-    setLogLevel(logging.ERROR)
+    # the chosen level is kept, to be restored by enableLogging
+    from .logger import root_logger
+
+    root_logger.handlers[0].setLevel(logging.ERROR)
 
 
 def enableLogging():
-    # global last_log
-    # import logging
-    # from .logger import root_logger
-    # root_logger.setLevel(logging.INFO)
-    #
-    # # if last_log is None:
-    # #     last_log = logging.INFO
-    setLogLevel(logging.INFO)
+    setLogLevel(last_log)
 
 
 def addLogFile(fname="exorad.log"):
     from .logger import root_logger
 
+    if os.path.exists(fname) and any(
+        getattr(handler, "baseFilename", None) == os.path.abspath(fname)
+        for handler in root_logger.handlers
+    ):
+        # the messages are already recorded in the file
+        return
+
     formatter = logging.Formatter(
         "%(asctime)s - %(name)s - %(levelname)s - %(message)s"
     )
-- 
2.43.0


From 92c56f62b33ec11fc2c33f757bce6b67396188b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 31/64] fix: select the targets to plot by ranges such as 0:1

---
 exorad/utils/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/utils/util.py b/exorad/utils/util.py
index 8388699..e4bd1fa 100644
--- a/exorad/utils/util.py
+++ b/exorad/utils/util.py
@@ -108,7 +108,7 @@ def parse_range(inp, avail_values):
         start = None
         end = None
         try:
-            s = a.split("-")
+            s = a.replace(":", "-").split("-")
             start = int(s[0])
             end = int(s[1])
             end += 1
-- 
2.43.0


From b1d5a11a7254652707085887bc26ae43b9a01e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 32/64] fix: optical elements of a channel do not replace
 common ones with the same name

---
 exorad/models/optics/opticalPath.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index 771b72f..bd8cdbf 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -215,9 +215,15 @@ class OpticalPath(Logger):
             Dictionary of optical elements to prepend.
         """
         # Prepend the new optical elements to the existing ones
-        self.optical_element_dict = OrderedDict(
-            list(optical_element_dict.items()) + list(self.optical_element_dict.items())
-        )
+        elements = OrderedDict(optical_element_dict)
+        for name, element in self.optical_element_dict.items():
+            # elements with the same name must not replace each other
+            key, n = name, 1
+            while key in elements:
+                n += 1
+                key = f"{name} ({n})"
+            elements[key] = element
+        self.optical_element_dict = elements
 
     def _prepare_elements(self):
         """
-- 
2.43.0


From 9c71f7aea75f6288ae6fd6160a0f35fa796af09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 33/64] fix: foreground layers with the same name do not
 replace each other

---
 exorad/tasks/foregroundHandler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/foregroundHandler.py b/exorad/tasks/foregroundHandler.py
index 0b79974..e422f5e 100644
--- a/exorad/tasks/foregroundHandler.py
+++ b/exorad/tasks/foregroundHandler.py
@@ -108,7 +108,12 @@ class EstimateForeground(Task):
         foreground = SkyForeground(wl, foreground_dict)
         if not hasattr(target, "foreground"):
             setattr(target, "foreground", OrderedDict())
-        target.foreground[foreground_name] = foreground.skyFilter
+        # layers with the same name must not replace each other
+        key, n = foreground_name, 1
+        while key in target.foreground:
+            n += 1
+            key = "{} ({})".format(foreground_name, n)
+        target.foreground[key] = foreground.skyFilter
         if not hasattr(target, "skyTransmission"):
             from exorad.models.signal import Signal
 
-- 
2.43.0


From aec4f18bf1cbbbf2deaa9326b6850f65e9f044e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH 34/64] fix: ConfigPath of a previous file does not leak into
 the next load

---
 exorad/tasks/loadOptions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 7a34519..35f74dd 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -46,6 +46,7 @@ class LoadOptions(Task):
     def execute(self):
         self._filename = self.get_task_param("filename")
         self._config_path = self.get_task_param("config_path")
+        self.configPath = self._config_path
         self.__check_format__()
         root = self.__get_root__()
         self._dict = self.__parser__(root)
-- 
2.43.0


From c5387d694af107dfc09dac8e7598f1f3423cd2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 35/64] fix: optical elements with the same name all contribute
 to the emission

---
 exorad/models/optics/opticalPath.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/models/optics/opticalPath.py b/exorad/models/optics/opticalPath.py
index bd8cdbf..b5e825a 100644
--- a/exorad/models/optics/opticalPath.py
+++ b/exorad/models/optics/opticalPath.py
@@ -286,8 +286,8 @@ class OpticalPath(Logger):
                 if opt_el[other_el].type == "slit":
                     out_radiance.slit = True
             # Store the radiance data
-            self.radiance_dict[el.name] = copy.deepcopy(out_radiance)
-            self.radiance_table[el.name] = copy.deepcopy(out_radiance.data)
+            self.radiance_dict[k] = copy.deepcopy(out_radiance)
+            self.radiance_table[k] = copy.deepcopy(out_radiance.data)
             self.debug(f"Final radiance: {out_radiance.data}")
         return self.radiance_dict
 
-- 
2.43.0


From 233a946880b7abc9f4a00612dde01c448a0e0cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:18 +0000
Subject: [PATCH 36/64] fix: use the wavelength column named by wl_col_name

---
 exorad/models/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/utils.py b/exorad/models/utils.py
index 74cbd15..5594e02 100644
--- a/exorad/models/utils.py
+++ b/exorad/models/utils.py
@@ -6,6 +6,6 @@ def get_wl_col_name(data, description=None):
         for wl_key in ["Wavelength", "wavelength"]:
             if wl_key in data.keys():
                 wl_colname = wl_key
-    if wl_key is None:
+    if wl_colname is None:
         raise KeyError("Wavelength column not found in transmission data file")
     return wl_colname
-- 
2.43.0


From 1d66bd5f6681a1e225ffcd719224f37ae36029a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 37/64] fix: luminosity of custom spectra given in any order

---
 exorad/models/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index f8b2427..4c7ae7c 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -251,6 +251,7 @@ class CustomSed(Logger):
     def __init__(self, fname, star_radius, star_distance):
         self.set_log_name()
         ph = ascii.read(fname, format="ecsv")
+        ph.sort("Wavelength")
         ph_wl = ph["Wavelength"].data * ph["Wavelength"].unit
         ph_sed = ph["Sed"].data * ph["Sed"].unit
 
-- 
2.43.0


From d6d81b73b86a53134acd54185eadae7e8c1829a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 38/64] fix: search by name target lists without planets

---
 exorad/models/targetlist.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 3e876d9..3fec219 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -94,9 +94,15 @@ class BaseTargetList(Logger):
         returnList = []
 
         for target in self.target:
+            # not every target list describes the planets
             if re.search(
                 searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            ) or (
+                hasattr(target, "planet")
+                and re.search(
+                    searchName, compactString(str(target.planet.name))
+                )
+            ):
                 returnList.append(target)
 
         return returnList
@@ -438,9 +444,15 @@ class OldExcelTargetList(Logger):
         returnList = []
 
         for target in self.target:
+            # not every target list describes the planets
             if re.search(
                 searchName, compactString(str(target.star.name))
-            ) or re.search(searchName, compactString(str(target.planet.name))):
+            ) or (
+                hasattr(target, "planet")
+                and re.search(
+                    searchName, compactString(str(target.planet.name))
+                )
+            ):
                 returnList.append(target)
 
         return returnList
-- 
2.43.0


From 94849b42e6a30fb7f42feb6d1caf22f273da7306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:06 +0000
Subject: [PATCH 39/64] fix: keep the metadata of tables loaded from HDF5 files

---
 exorad/output/hdf5/util.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 5f77001..8446856 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -96,11 +96,9 @@ def load_table(input_table, k):
             if attr in header_cols[col.name]:
                 setattr(col, attr, header_cols[col.name][attr])
     table = serialize._construct_mixins_from_columns(table)
-    try:
-        header["meta"].pop("__serialized_columns__")
+    if "meta" in header:
+        header["meta"].pop("__serialized_columns__", None)
         table.meta = header["meta"]
-    except KeyError:
-        pass
     return table
 
 
-- 
2.43.0


From b053e0d95b2c8d4a3642263cb6e7b82ed426a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 40/64] fix: report signals in ct/s and frame times in seconds
 whatever the input units

---
 exorad/models/instruments/photometer.py | 2 +-
 exorad/models/noise.py                  | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/exorad/models/instruments/photometer.py b/exorad/models/instruments/photometer.py
index f09cbf4..f8d18bc 100644
--- a/exorad/models/instruments/photometer.py
+++ b/exorad/models/instruments/photometer.py
@@ -168,7 +168,7 @@ class Photometer(Instrument):
                 x=target.star.sed.wl_grid,
             ).si
             * u.count
-        )
+        ).to(u.count / u.s)
         out["starSignal"] = [star_signal.value] * star_signal.unit
         self.debug("star signal : {}".format(out["starSignal"]))
 
diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index 7eabb06..d923836 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -38,9 +38,9 @@ def frame_time(target, channel, out):
     )
     logger.debug("saturation time : {}".format(out["saturation_time"]))
     if "frame_time" in channel["detector"].keys():
-        out["frameTime"] = channel["detector"]["frame_time"][
-            "value"
-        ] * np.ones(out["saturation_time"].size)
+        out["frameTime"] = channel["detector"]["frame_time"]["value"].to(
+            u.s
+        ) * np.ones(out["saturation_time"].size)
     else:
         out["frameTime"] = (
             channel["detector"]["f_well_depth"]["value"]
-- 
2.43.0


From 67a789a7b983909269035bbf51a1371332deea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:48 +0000
Subject: [PATCH 41/64] fix: plot the efficiency of saved payloads

---
 exorad/utils/plotter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 85ae564..8e13b5d 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -126,8 +126,10 @@ class Plotter(Logger):
                             "{}_data".format(key)
                         ]
                         sig = Signal(
-                            wl_grid=data["wl_grid"]["value"]
-                            * u.Unit(data["wl_grid"]["unit"]),
+                            wl_grid=u.Quantity(
+                                data["wl_grid"]["value"],
+                                data["wl_grid"]["unit"],
+                            ),
                             data=data["data"]["value"],
                         )
                         ax.plot(
-- 
2.43.0


From 3282e0f1d42ab9a75ecbd36edf5400c247d4c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:02 +0000
Subject: [PATCH 42/64] fix: the copy of a saved payload does not take the
 place of the output

---
 exorad/exorad.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index 7d5b273..cdc9b1d 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -77,14 +77,15 @@ def standard_pipeline(
             os.makedirs(out_dir)
             logger.info("output directory created")
         logger.info("output directory set as {}".format(out_dir))
-        try:
-            shutil.copy(options, out_dir)
-        except shutil.SameFileError:
-            pass
-        try:
-            shutil.copy(target_list, out_dir)
-        except shutil.SameFileError:
-            pass
+        for fname in [options, target_list]:
+            # the copy of an input must not take the place of the output
+            if os.path.basename(fname) == os.path.basename(output):
+                logger.warning("{} not copied over the output".format(fname))
+                continue
+            try:
+                shutil.copy(fname, out_dir)
+            except shutil.SameFileError:
+                pass
     else:
         out_dir = None
 
-- 
2.43.0


From 991d123bd082d6ac93080a7f99c26dc69bb443d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 43/64] fix: search target lists for names with signs such as
 BD+20 594

---
 exorad/models/targetlist.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 3fec219..71512ab 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -90,7 +90,7 @@ class BaseTargetList(Logger):
 
     def searchTarget(self, name):
         # method inspired from similar functionality in ExoData
-        searchName = compactString(name)
+        searchName = re.escape(compactString(name))
         returnList = []
 
         for target in self.target:
@@ -440,7 +440,7 @@ class OldExcelTargetList(Logger):
 
     def searchTarget(self, name):
         # method inspired from similar functionality in ExoData
-        searchName = compactString(name)
+        searchName = re.escape(compactString(name))
         returnList = []
 
         for target in self.target:
-- 
2.43.0


From ec557b9a222928cd91f7ade68b04dcefd1a5faab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:47 +0000
Subject: [PATCH 44/64] fix: look for new versions in the repository of the
 package

---
 exorad/__init__.py              | 10 +++++++++-
 exorad/utils/version_control.py |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/exorad/__init__.py b/exorad/__init__.py
index 33efa29..762ed4b 100644
--- a/exorad/__init__.py
+++ b/exorad/__init__.py
@@ -4,7 +4,15 @@ from datetime import date
 
 # load package info
 __pkg_name__ = metadata.metadata("exorad")["Name"]
-__url__ = metadata.metadata("exorad")["Project-URL"]
+# the project urls are listed as "label, url": the repository is the one needed
+__url__ = next(
+    (
+        url.split(", ")[-1]
+        for url in metadata.metadata("exorad").get_all("Project-URL", [])
+        if url.startswith("Repository")
+    ),
+    metadata.metadata("exorad")["Project-URL"],
+)
 __author__ = metadata.metadata("exorad")["Author"]
 __license__ = metadata.metadata("exorad")["license"]
 __summary__ = metadata.metadata("exorad")["Summary"]
diff --git a/exorad/utils/version_control.py b/exorad/utils/version_control.py
index 1101a63..8d9ffcc 100644
--- a/exorad/utils/version_control.py
+++ b/exorad/utils/version_control.py
@@ -77,7 +77,7 @@ class VersionControl(Logger):
                     message += line + "\n"
                     new_ver = line[line.find("[") + 1 : line.find("]")]
                     for line_ in self.content[i + 1 :]:
-                        if self.current_version in line_:
+                        if "## [{}]".format(self.current_version) in line_:
                             break
                         elif line_ != "":
                             message += line_ + "\n"
-- 
2.43.0


From ce7d274a734c91ed1ac193cf6134e7a3c7c2ba34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 45/64] fix: import the package from linked git work trees

---
 exorad/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/__init__.py b/exorad/__init__.py
index 762ed4b..611beee 100644
--- a/exorad/__init__.py
+++ b/exorad/__init__.py
@@ -25,7 +25,8 @@ except NameError:
 
 __commit__ = None
 __branch__ = None
-if __base_dir__ is not None and os.path.exists(
+# in linked work trees and submodules .git is a file
+if __base_dir__ is not None and os.path.isdir(
     os.path.join(__base_dir__, ".git")
 ):
     git_folder = os.path.join(__base_dir__, ".git")
-- 
2.43.0


From 71b05c12e12a7ba4eea3ef578584a29f4f10f4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 46/64] fix: write the version of the program in the outputs

---
 exorad/exorad.py           | 2 +-
 exorad/output/hdf5/hdf5.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/exorad/exorad.py b/exorad/exorad.py
index cdc9b1d..7f21a0d 100644
--- a/exorad/exorad.py
+++ b/exorad/exorad.py
@@ -133,7 +133,7 @@ def standard_pipeline(
 def main():
     import argparse
 
-    parser = argparse.ArgumentParser(description="ExoRad {}".format(version))
+    parser = argparse.ArgumentParser(description="ExoRad {}".format(version.__version__))
     parser.add_argument(
         "-p",
         "--payload",
diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 071663e..b9cf512 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -58,7 +58,7 @@ from exorad import __license__
 from exorad import __pkg_name__
 from exorad import __title__
 from exorad import __url__
-from exorad import __version__
+from exorad.__version__ import __version__
 from exorad.output.hdf5.util import hdf5_group_to_dict
 from exorad.output.hdf5.util import recursively_read_dict_contents
 from exorad.output.output import Output
-- 
2.43.0


From ce6ee0bb5db3edf5417fef9561feac9cf9b2bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:32 +0000
Subject: [PATCH 47/64] fix: an output that cannot be started is closed

---
 exorad/output/hdf5/hdf5.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index b9cf512..902f033 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -217,16 +217,21 @@ class HDF5Output(Output):
         }
 
         fd = h5py.File(fname, mode=mode)
-        for key in attrs:
-            fd.attrs[key] = attrs[key]
-
-        if mode == "w" or "info" not in fd.keys():
-            try:
-                gd_ = fd["info"]
-            except KeyError:
-                gd_ = fd.create_group("info")
-            gd = HDF5OutputGroup(gd_)
-            gd.store_dictionary(attrs, "ExoRad")
+        try:
+            for key in attrs:
+                fd.attrs[key] = attrs[key]
+
+            if mode == "w" or "info" not in fd.keys():
+                try:
+                    gd_ = fd["info"]
+                except KeyError:
+                    gd_ = fd.create_group("info")
+                gd = HDF5OutputGroup(gd_)
+                gd.store_dictionary(attrs, "ExoRad")
+        except BaseException:
+            # nobody else can close it
+            fd.close()
+            raise
 
         return fd
 
-- 
2.43.0


From beae08768b09acee347b68cf202359c328631e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 48/64] fix: loading options prints nothing on the standard
 output

---
 exorad/tasks/loadOptions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/exorad/tasks/loadOptions.py b/exorad/tasks/loadOptions.py
index 35f74dd..d346a3f 100644
--- a/exorad/tasks/loadOptions.py
+++ b/exorad/tasks/loadOptions.py
@@ -107,7 +107,6 @@ class LoadOptions(Task):
                     self.configPath = self._config_path
                 if ch.tag == "working_R":
                     PassVal.working_R = value
-                    print(PassVal.working_R)
                 # if isinstance(value, str):
                 #     retval = value
                 # else:
-- 
2.43.0


From 2bc91f41f2d34d8e3e9341a4bf43258df84bdadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:11 +0000
Subject: [PATCH 49/64] fix: disabling the log never lowers its level

---
 exorad/log/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exorad/log/__init__.py b/exorad/log/__init__.py
index bc0efb7..cdbea7a 100644
--- a/exorad/log/__init__.py
+++ b/exorad/log/__init__.py
@@ -67,7 +67,9 @@ def disableLogging():
     # the chosen level is kept, to be restored by enableLogging
     from .logger import root_logger
 
-    root_logger.handlers[0].setLevel(logging.ERROR)
+    # a level that is already higher is not lowered
+    handler = root_logger.handlers[0]
+    handler.setLevel(max(handler.level, logging.ERROR))
 
 
 def enableLogging():
-- 
2.43.0


From facb550730fb9bf2a09ba52af536b4b6d4b8ba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:23 +0000
Subject: [PATCH 50/64] fix: observing does not undo the log level chosen by
 the user

---
 exorad/tasks/targetHandler.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 33e5b2b..34daea1 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -8,7 +8,6 @@ from ..models.targetlist import XLXSTargetList
 from .task import Task
 from exorad.__version__ import __version__
 from exorad.log import disableLogging
-from exorad.log import enableLogging
 from exorad.utils.passVal import PassVal
 
 
@@ -291,6 +290,8 @@ def pipeline_to_dict(
     observeTarget = ObserveTarget()
 
     root_logger.info("observing {}".format(target.name))
+    # the level in use comes back after the observation
+    level = root_logger.handlers[0].level
     if not debug:
         disableLogging()
     try:
@@ -300,7 +301,7 @@ def pipeline_to_dict(
             channels=channels,
             wl_range=wl_range,
         )
-        enableLogging()
+        root_logger.handlers[0].setLevel(level)
         outputDict = deepcopy(target)
 
         if plot:
@@ -317,7 +318,7 @@ def pipeline_to_dict(
             plt.close()
         return target.name, outputDict
     except:
-        enableLogging()
+        root_logger.handlers[0].setLevel(level)
         root_logger.warning(
             "target {} skipped. Please check for previous error messages".format(
                 target.name
-- 
2.43.0


From a57b1ddaff98d66d1db06d8137a229a9e7b549d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:23 +0000
Subject: [PATCH 51/64] fix: the efficiency plot tells its curves apart
 whatever the number of channels

---
 exorad/utils/plotter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 8e13b5d..03f51ee 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -110,9 +110,8 @@ class Plotter(Logger):
             from matplotlib.lines import Line2D
             from exorad.models.signal import Signal
 
-            norm = matplotlib.colors.Normalize(
-                vmin=0.0, vmax=len(self.channels)
-            )
+            # one colour for each quantity: transmission, qe and pce
+            norm = matplotlib.colors.Normalize(vmin=0.0, vmax=2.0)
 
             fig, ax = plt.subplots(1, 1, figsize=(10, 8))
             fig.suptitle("Payload photon conversion efficiency")
-- 
2.43.0


From 09c802cac8ab95cc2d8a61ce3a1893042d9ecb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:07 +0000
Subject: [PATCH 52/64] fix: updating a target with an unsupported object warns
 rather than fails

---
 exorad/models/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exorad/models/target.py b/exorad/models/target.py
index 89cace4..159bdb4 100644
--- a/exorad/models/target.py
+++ b/exorad/models/target.py
@@ -38,7 +38,7 @@ class Target(Logger):
             self.star.model = obj.model
             self.debug("target updated")
         else:
-            self.warning("Object type {:s} not implemented".format(type(obj)))
+            self.warning("Object type {} not implemented".format(type(obj)))
 
     def write(self, output):
         targets_out = output.create_group("targets")
-- 
2.43.0


From 09b736552d89f4f87cd855d83286ffe1f178cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:14 +0000
Subject: [PATCH 53/64] fix: resampling drops missing and repeated values of
 the new grid from the grid too

---
 exorad/models/signal.py |  3 ++-
 exorad/utils/exolib.py  | 10 +++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/exorad/models/signal.py b/exorad/models/signal.py
index 4b81461..c7ada69 100644
--- a/exorad/models/signal.py
+++ b/exorad/models/signal.py
@@ -159,7 +159,8 @@ class Signal(Logger):
         """
         rebins the signal to the new wavelength grid
         """
-        self.data = rebin(new_wl_grid, self.wl_grid, self.data)[1]
+        # missing and repeated values of the new grid are dropped
+        new_wl_grid, self.data = rebin(new_wl_grid, self.wl_grid, self.data)
         idx = np.where(np.isnan(self.data))
         self.data[idx] = 0.0
         self.wl_grid = new_wl_grid
diff --git a/exorad/utils/exolib.py b/exorad/utils/exolib.py
index c8a35e3..d4c08cb 100644
--- a/exorad/utils/exolib.py
+++ b/exorad/utils/exolib.py
@@ -41,6 +41,11 @@ def rebin(x, xp, fp):
         )
         raise ValueError
 
+    id = np.where(np.isnan(x))[0]
+    if id.size > 0:
+        logger.debug("Nans found in new x array: removing it")
+        x = np.delete(x, id)
+
     # work on ascending grids: the order of x is restored at the end
     descending = x[0] > x[-1]
     if descending:
@@ -67,11 +72,6 @@ def rebin(x, xp, fp):
         xp = np.delete(xp, id)
         fp = np.delete(fp, id)
 
-    id = np.where(np.isnan(x))[0]
-    if id.size > 0:
-        logger.debug("Nans found in new x array: removing it")
-        x = np.delete(x, id)
-
     # remove duplicates
     while np.diff(xp).min() == 0:
         logger.debug("duplicate found in input x array: removing it")
-- 
2.43.0


From 3d90d18829bf10f21cdcf0713f764211811bb266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:53 +0000
Subject: [PATCH 54/64] fix: custom noise terms with the same name do not
 replace each other

---
 exorad/models/noise.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/exorad/models/noise.py b/exorad/models/noise.py
index d923836..3d0e852 100644
--- a/exorad/models/noise.py
+++ b/exorad/models/noise.py
@@ -211,7 +211,12 @@ def add_custom_noise(custom, wl, out):
             custom_noise = (
                 contribution["value"] * 1e-6 * np.ones(wl.size) * u.hr**0.5
             )
-        out["{}_noise".format(name)] = custom_noise
+        column = "{}_noise".format(name)
+        # terms with the same name must not replace each other
+        if column in out.keys():
+            out[column] = np.sqrt(out[column] ** 2 + custom_noise**2)
+        else:
+            out[column] = custom_noise
         logger.debug(
             "{} added as custom noise :{}".format(name, custom_noise)
         )
-- 
2.43.0


From a70b0703083eee52ff608ba3e58458dcde556284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:36 +0000
Subject: [PATCH 55/64] fix: a custom noise that lacks its name or value is
 refused rather than left out

---
 exorad/tasks/noiseHandler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/exorad/tasks/noiseHandler.py b/exorad/tasks/noiseHandler.py
index 8b7e220..19362b8 100644
--- a/exorad/tasks/noiseHandler.py
+++ b/exorad/tasks/noiseHandler.py
@@ -91,16 +91,17 @@ class EstimateNoiseInChannel(Task):
         )
 
         wl = target.table["Wavelength"][target.table["chName"] == name]
+        # a noise that lacks something is refused rather than left out
         if payload:
-            try:
+            if "customNoise" in payload["common"]:
                 out = noise.add_custom_noise(
                     payload["common"]["customNoise"], wl, out
                 )
-            except KeyError:
+            else:
                 self.debug("no custom noise found in common section")
-        try:
+        if "customNoise" in channel:
             out = noise.add_custom_noise(channel["customNoise"], wl, out)
-        except KeyError:
+        else:
             self.debug("no custom noise found in channel section")
 
         self.debug("total noise : {}".format(out["total_noise"]))
-- 
2.43.0


From 910bbc1ed2ef3448e1d61ded12f754f5eba797ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:06 +0000
Subject: [PATCH 56/64] fix: a target list whose planets cannot be read is
 refused rather than loaded without them

---
 exorad/models/targetlist.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/models/targetlist.py b/exorad/models/targetlist.py
index 71512ab..8feb402 100644
--- a/exorad/models/targetlist.py
+++ b/exorad/models/targetlist.py
@@ -49,7 +49,8 @@ class BaseTargetList(Logger):
         try:
             planet_keys = self.planet_keys()
             planet_data = self.planet_data()
-        except:
+        except NotImplementedError:
+            # readers of lists with stars only
             pass
 
         target_list = []
-- 
2.43.0


From c8e2baadf07032acc28dc35bd0dfbba9e805fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 57/64] fix: lists of texts are stored whole, however long and
 whatever their letters

---
 exorad/output/hdf5/hdf5.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 902f033..6410434 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -133,9 +133,14 @@ class HDF5OutputGroup(OutputGroup):
         self._entry.attrs["ordered"] = True
 
     def write_string_array(self, string_name, string_array, metadata=None):
-        asciiList = [n.encode("ascii", "ignore") for n in string_array]
+        encoded = [n.encode("utf-8") for n in string_array]
+        # at least 64 characters, and as many as needed
+        width = max([64] + [len(n) for n in encoded])
         ds = self._entry.create_dataset(
-            str(string_name), (len(asciiList), 1), "S64", asciiList
+            str(string_name),
+            (len(encoded), 1),
+            "S{}".format(width),
+            encoded,
         )
 
         if metadata:
-- 
2.43.0


From 53448c93616a66db6a9ce7ce9ce4ac0173679ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:26 +0000
Subject: [PATCH 58/64] fix: a quantity stored as 'value' keeps its unit

---
 exorad/output/hdf5/hdf5.py | 4 +++-
 exorad/output/hdf5/util.py | 6 +++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/exorad/output/hdf5/hdf5.py b/exorad/output/hdf5/hdf5.py
index 6410434..e53702d 100644
--- a/exorad/output/hdf5/hdf5.py
+++ b/exorad/output/hdf5/hdf5.py
@@ -149,10 +149,12 @@ class HDF5OutputGroup(OutputGroup):
 
     def write_quantity(self, quantity_name, quantity):
         if quantity_name == "value":
-            self._entry.create_dataset(
+            ds = self._entry.create_dataset(
                 "value",
                 data=quantity.value,
             )
+            # the group may give no unit, or another one
+            ds.attrs["unit"] = str(quantity.unit)
         else:
             qg_c = self._entry.create_group(str(quantity_name))
             qg_c.create_dataset(
diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 8446856..0772891 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -34,7 +34,9 @@ def recursively_read_dict_contents(input_dict):
     #     data = input['data']['value'] * u.Unit(input['data']['unit'])
     #     time = input['time_grid']['value'] * u.Unit(input['time_grid']['unit'])
     #     input = signal[str(input['data']['unit'])](wl, data, time)
-    if all(elem in new_keys for elem in ["value", "unit"]):
+    if all(elem in new_keys for elem in ["value", "unit"]) and not isinstance(
+        input_dict["value"], u.Quantity
+    ):
         unit = input_dict["unit"]
         if unit == "dimensionless":
             unit = ""
@@ -74,6 +76,8 @@ def hdf5_group_to_dict(h5_group):
             result[key] = item[()]  # This reads the dataset into a numpy array
             if isinstance(result[key], bytes):
                 result[key] = result[key].decode("utf-8")
+            elif key == "value" and "unit" in item.attrs:
+                result[key] = result[key] * u.Unit(item.attrs["unit"])
         elif isinstance(item, h5py.Group):
             # Recurse into subgroups
             result[key] = hdf5_group_to_dict(item)
-- 
2.43.0


From 17d4e3843feea9cf832acef5256c410d11777900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:26 +0000
Subject: [PATCH 59/64] fix: figures draw the channels in the order of the
 table, whatever the hash seed

---
 exorad/utils/plotter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exorad/utils/plotter.py b/exorad/utils/plotter.py
index 03f51ee..a52b6ea 100644
--- a/exorad/utils/plotter.py
+++ b/exorad/utils/plotter.py
@@ -53,7 +53,8 @@ class Plotter(Logger):
         ----
         The Class input_table input parameter is required for this method to work.
         """
-        channels = set(self.inputTable["chName"])
+        # in the order of the table
+        channels = list(dict.fromkeys(self.inputTable["chName"]))
         norm = matplotlib.colors.Normalize(vmin=0.0, vmax=len(channels))
         tick_list = []
 
-- 
2.43.0


From 7d1c5ad1a7f62f76105ce01382b474935722ed83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:26 +0000
Subject: [PATCH 60/64] fix: the stellar model does not depend on how the
 library is listed, and is the nearest in temperature

---
 exorad/models/source.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/exorad/models/source.py b/exorad/models/source.py
index 4c7ae7c..fdf2184 100755
--- a/exorad/models/source.py
+++ b/exorad/models/source.py
@@ -99,7 +99,8 @@ class Star(Logger):
             "*.BT-Settl.spec.fits.gz"
         ]  # , "*.7.bz2", "*.7.gz", "*HiRes.fits"]
         for format in format_list:
-            sed_name = glob.glob(os.path.join(path, format))
+            # the order does not depend on how the directory is listed
+            sed_name = sorted(glob.glob(os.path.join(path, format)))
             if len(sed_name) != 0:
                 return sed_name
 
@@ -132,11 +133,13 @@ class Star(Logger):
         ) > max(sed_T_list):
             raise ValueError
 
-        idx = np.argmin(
+        distance = (
             np.abs(sed_T_list - np.round(temp_to_find))
             + np.abs(sed_Logg_list - star_logg)
             + np.abs(sed_Z_list - star_f_h)
         )
+        # among the models at the same distance, the nearest in temperature
+        idx = np.lexsort((np.abs(sed_T_list - temp_to_find), distance))[0]
 
         ph_file = sed_name[idx]
 
-- 
2.43.0


From d232db839e093115f9e8e5dde187b7b836d50c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:26 +0000
Subject: [PATCH 61/64] fix: targets of a list with the same name no longer
 replace each other

---
 exorad/tasks/targetHandler.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 34daea1..27786a9 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -1,4 +1,5 @@
 import os
+from copy import copy
 from copy import deepcopy
 
 from ..models.targetlist import CSVTargetList
@@ -381,6 +382,23 @@ class ObserveTargetlist(Task):
         debug = self.get_task_param("debug")
         outputDict = {}
 
+        # targets with the same name must not replace each other
+        names = [getattr(target, "name", None) for target in targets]
+        distinct, used = [], set()
+        for target, name in zip(targets, names):
+            key, n = name, 1
+            while key is not None and (
+                key in used or (n > 1 and key in names)
+            ):
+                n += 1
+                key = "{} ({})".format(name, n)
+            if key != name:
+                target = copy(target)
+                target.name = key
+            used.add(key)
+            distinct.append(target)
+        targets = distinct
+
         if n_thread > 1:
             from concurrent.futures import (
                 ProcessPoolExecutor,
-- 
2.43.0


From e5e688e88a1979517be1d23fc00f607ac10d478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:26 +0000
Subject: [PATCH 62/64] fix: a run with figures leaves the matplotlib backend
 and open figures of the program alone

---
 exorad/tasks/targetHandler.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/exorad/tasks/targetHandler.py b/exorad/tasks/targetHandler.py
index 27786a9..066a9a4 100644
--- a/exorad/tasks/targetHandler.py
+++ b/exorad/tasks/targetHandler.py
@@ -310,13 +310,20 @@ def pipeline_to_dict(
             import matplotlib
             from exorad.utils.plotter import Plotter
 
-            matplotlib.use("Agg")
-            plotter = Plotter(input_table=target.table)
-            plotter.plot_table()
-            plotter.save_fig(
-                os.path.join(out_dir, "{}.png".format(target.name))
-            )
-            plt.close()
+            # no window is opened; the backend in use comes back after the figure
+            backend = matplotlib.get_backend()
+            if backend.lower() not in ("agg", "cairo", "pdf", "pgf", "ps", "svg"):
+                matplotlib.use("Agg")
+            try:
+                plotter = Plotter(input_table=target.table)
+                plotter.plot_table()
+                plotter.save_fig(
+                    os.path.join(out_dir, "{}.png".format(target.name))
+                )
+                plt.close()
+            finally:
+                if matplotlib.get_backend() != backend:
+                    matplotlib.use(backend, force=False)
         return target.name, outputDict
     except:
         root_logger.handlers[0].setLevel(level)
-- 
2.43.0


From f7b090821af9674ef7c82fccd14aea92d892986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:01 +0000
Subject: [PATCH 63/64] fix: channels described under one name get their own
 noise

LoadOptions numbers instances of the same value, so the channels of a payload
are told apart and their rows carry the numbered name, but EstimateNoise picked
the rows by the name written in the description: every channel of that name got
the frame time and the noise of the first one.
---
 exorad/tasks/noiseHandler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/tasks/noiseHandler.py b/exorad/tasks/noiseHandler.py
index 19362b8..480d711 100644
--- a/exorad/tasks/noiseHandler.py
+++ b/exorad/tasks/noiseHandler.py
@@ -147,10 +147,13 @@ class EstimateNoise(Task):
         table_list = []
         for ch in self.get_task_param("channels"):
             self.debug("computing noise in {}".format(ch))
+            # the rows of a channel carry the name it is listed with, which
+            # differs from its own if another channel was called the same
+            description = dict(channels[ch].description, value=ch)
             table_list.append(
                 estimateNoiseInChannel(
                     target=target,
-                    channel=channels[ch].description,
+                    channel=description,
                     payload=channels[ch].payload,
                 )
             )
-- 
2.43.0


From 59cbf7c9c1239d932a83f3feda24032bf8016e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:21 +0000
Subject: [PATCH 64/64] fix: read tables whose name holds a dot

The name of a table was cut at the first dot, so loading a group with the table
of a channel such as 'Phot 0.55' raised a KeyError.
---
 exorad/output/hdf5/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/exorad/output/hdf5/util.py b/exorad/output/hdf5/util.py
index 0772891..9441884 100644
--- a/exorad/output/hdf5/util.py
+++ b/exorad/output/hdf5/util.py
@@ -46,7 +46,10 @@ def recursively_read_dict_contents(input_dict):
         table_keys = [
             elem for elem in new_keys if ".__table_column_meta__" in elem
         ]
-        table_keys = (elem.split(".")[0] for elem in table_keys)
+        # the name of a table may hold dots
+        table_keys = (
+            elem.rsplit(".__table_column_meta__", 1)[0] for elem in table_keys
+        )
         for k in table_keys:
             table = load_table(input_dict, k)
             input_dict[k] = table
-- 
2.43.0

