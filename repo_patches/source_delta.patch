From ee8d3d6d388477fb0f73d7bd4f52c02c49afe749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:53 +0000
Subject: [PATCH 01/41] fix: calibrate() no longer fails after the first epoch
 without a learnable spectrum

The progress report read the p/q exponents unconditionally, but they exist only
when use_learnable_spectrum is set, so every other fit raised AttributeError.
---
 drdmannturb/spectra_fitting/calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 55ce139..65743c0 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -499,8 +499,9 @@ class CalibrationProblem:
             print(f"\tCurrent L: {self.OPS.LengthScale.item()}")
             print(f"\tCurrent Gamma: {self.OPS.TimeScale.item()}")
             print(f"\tCurrent sigma: {self.OPS.Magnitude.item()}")
-            print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
-            print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
+            if self.prob_params.use_learnable_spectrum:
+                print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
+                print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
 
             if not (torch.isfinite(self.loss)):
                 raise RuntimeError("Loss is not a finite value, check initialization and learning hyperparameters.")
-- 
2.43.0


From 1bf955a96bd243147661009a713ea28e20e4d369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:16 +0000
Subject: [PATCH 02/41] fix: continue the low-frequency field across successive
 generate() calls

Every call restarted the 2D field at x = 0, so blocks appended by a second call
repeated its beginning instead of continuing it.
---
 .../fluctuation_generation/fluctuation_field_generator.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index d631464..4a2f4d0 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -428,6 +428,9 @@ class FluctuationFieldGenerator:
                 If this is undesirable behavior, instantiate a new object."
             )
 
+        # Blocks are appended, so the low-frequency field has to be continued from where the last call left off
+        num_existing_blocks = self.total_fluctuation.shape[0] // self.Nx
+
         for i in range(num_blocks):
             # --- Generate and normalize block ---
             t_block = self._generate_block()
@@ -450,7 +453,8 @@ class FluctuationFieldGenerator:
                 # --- X-Coordinates (blocks progress in x-direction
                 current_block_nx = normed_block.shape[0]
                 block_length_x = self.grid_dimensions[0] * (current_block_nx / self.Nx)
-                x_start = i * self.grid_dimensions[0]  # TODO: Revisit if blending affects block start/end precisely
+                # TODO: Revisit if blending affects block start/end precisely
+                x_start = (num_existing_blocks + i) * self.grid_dimensions[0]
                 x_end = x_start + block_length_x
                 x_coords_block_target = np.linspace(x_start, x_end, current_block_nx, endpoint=False)
 
-- 
2.43.0


From 9e4913e05512f46d9fd7033975571c66ca856453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:16 +0000
Subject: [PATCH 03/41] fix: a generate() call rejected for its profile no
 longer advances the noise

The arguments were validated only after a block had been drawn, so a rejected
call silently changed every block generated afterwards.
---
 .../fluctuation_field_generator.py            | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 4a2f4d0..fa6ead7 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -284,6 +284,20 @@ class FluctuationFieldGenerator:
 
         return wind
 
+    @staticmethod
+    def _validate_profile(
+        zref: float, uref: float, z0: float, windprofiletype: str, plexp: float | None = None
+    ) -> None:
+        """Raise ``ValueError`` if the arguments do not describe a mean wind profile."""
+        if windprofiletype not in ["LOG", "PL"]:
+            raise ValueError('windprofiletype must be either "LOG" or "PL"')
+
+        if any(param <= 0 for param in [zref, uref, z0]):
+            raise ValueError("zref, uref, and z0 must all be positive")
+
+        if windprofiletype == "PL" and plexp is None:
+            raise ValueError("Power law exponent (plexp) is required when using power law profile")
+
     def _normalize_block(
         self,
         curr_block: np.ndarray,
@@ -342,14 +356,7 @@ class FluctuationFieldGenerator:
         if not np.any(curr_block):
             raise ValueError("No fluctuation field has been generated. The .generate() method must be called first.")
 
-        if windprofiletype not in ["LOG", "PL"]:
-            raise ValueError('windprofiletype must be either "LOG" or "PL"')
-
-        if any(param <= 0 for param in [zref, uref, z0]):
-            raise ValueError("zref, uref, and z0 must all be positive")
-
-        if windprofiletype == "PL" and plexp is None:
-            raise ValueError("Power law exponent (plexp) is required when using power law profile")
+        self._validate_profile(zref, uref, z0, windprofiletype, plexp)
 
         sd = np.sqrt(np.mean(curr_block**2))
         curr_block /= sd
@@ -420,6 +427,9 @@ class FluctuationFieldGenerator:
         np.ndarray
             The full fluctuation field, which is also stored as the ``total_fluctuation`` field.
         """
+        # Reject a bad profile before any noise is drawn, so that a failed call leaves the object unchanged
+        self._validate_profile(zref, uref, z0, windprofiletype, plexp)
+
         if np.any(self.total_fluctuation):
             import warnings
 
-- 
2.43.0


From 472fb3a4655c4e65b9923c581fb2fdb6f8ecfd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:16 +0000
Subject: [PATCH 04/41] fix: allow a zero time scale (no streamwise buffer)

With time_scale = 0 the buffer has no planes and slice(0, -0) cut the whole block
away; generate() then failed with a misleading error.
---
 .../fluctuation_generation/fluctuation_field_generator.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index fa6ead7..38daecb 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -199,7 +199,7 @@ class FluctuationFieldGenerator:
         ]
         self.new_part_shape = [Nx, Ny + margin_extension[0], Nz + margin_extension[1], 3]
         self.central_part = [
-            slice(self.n_buffer, -self.n_buffer),
+            slice(self.n_buffer, self.noise_shape[0] - self.n_buffer),  # n_buffer may be zero
             slice(self.n_margin_y, -self.n_margin_y),
             slice(0, -2 * self.n_margin_z),
             slice(None),
-- 
2.43.0


From cff4597c7326988a9c95427b60eb52315e6f95ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:16 +0000
Subject: [PATCH 05/41] fix: the seed also determines the low-frequency field

The 2D field was drawn from numpy's global generator, so two generators with the
same seed and configuration produced different combined fields.
---
 .../fluctuation_field_generator.py                     |  4 +++-
 .../low_frequency/fluctuation_field_generator.py       | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 38daecb..28a6b32 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -252,7 +252,9 @@ class FluctuationFieldGenerator:
 
         self.low_freq_gen: LowFreqGenerator | None = None
         if config_2d_model is not None:
-            self.low_freq_gen = LowFreqGenerator(config_2d_model)
+            # The 2D field is independent of the 3D noise, hence a stream of its own derived from the seed
+            low_freq_seed = None if self.seed is None else np.random.RandomState(self.seed).randint(2**31 - 1)
+            self.low_freq_gen = LowFreqGenerator(config_2d_model, seed=low_freq_seed)
 
             print("Generating low-frequency field...")
 
diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 3bccb57..5ec644c 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -84,7 +84,7 @@ class LowFreqGenerator:
 
     """
 
-    def __init__(self, config: dict):
+    def __init__(self, config: dict, seed: int | None = None):
         """
         Initialize the LowFreqGenerator instance.
 
@@ -95,7 +95,12 @@ class LowFreqGenerator:
         ----------
         config : dict
             Configuration dictionary. See class docstring for required keys.
+        seed : int, optional
+            Seed of this object's own pseudo-random number generator, by default None, in which case numpy's
+            global one is used. See ``np.random.RandomState``.
         """
+        self.prng = None if seed is None else np.random.RandomState(seed)
+
         # Physical parameters
         self.sigma2 = config["sigma2"]
         self.L_2d = config["L_2d"]
@@ -484,7 +489,8 @@ class LowFreqGenerator:
             The u2 component of the velocity field, extracted to match user dimensions.
         """
         # 1. Generate noise on the computational grid
-        noise = np.random.normal(0, 1, size=(self.comp_N1, self.comp_N2))
+        prng = np.random if self.prng is None else self.prng
+        noise = prng.normal(0, 1, size=(self.comp_N1, self.comp_N2))
         # 2. Compute its Fourier transform
         noise_hat = np.fft.fft2(noise)
 
-- 
2.43.0


From 7ab320b3b600a4e2aaaf61e9a833c57e7671a99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:33 +0000
Subject: [PATCH 06/41] fix: save_model() replaces an existing model atomically

The previous file was truncated before the new one was pickled, so an error or a
crash while saving destroyed the only copy of the model.
---
 drdmannturb/spectra_fitting/calibration.py | 32 ++++++++++++++--------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 65743c0..6a72ee2 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -702,17 +702,27 @@ class CalibrationProblem:
 
         filename = save_dir + "/" + str(self.prob_params.eddy_lifetime) + ".pkl"
         os.makedirs(os.path.dirname(filename), exist_ok=True)
-        with open(filename, "wb+") as file:
-            pickle.dump(
-                [
-                    self.nn_params,
-                    self.prob_params,
-                    self.loss_params,
-                    self.phys_params,
-                    self.parameters,
-                ],
-                file,
-            )
+        # Written beside the target and moved over it: an existing model is either kept or replaced as a whole
+        tmp_filename = f"{filename}.{os.getpid()}.tmp"
+        try:
+            with open(tmp_filename, "wb") as file:
+                pickle.dump(
+                    [
+                        self.nn_params,
+                        self.prob_params,
+                        self.loss_params,
+                        self.phys_params,
+                        self.parameters,
+                    ],
+                    file,
+                )
+                file.flush()
+                os.fsync(file.fileno())
+            os.replace(tmp_filename, filename)
+        except BaseException:
+            if os.path.exists(tmp_filename):
+                os.remove(tmp_filename)
+            raise
 
     def plot(
         self,
-- 
2.43.0


From 395cfd4b29bbcb132146306080c9ef0ea58b7bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:48 +0000
Subject: [PATCH 07/41] fix: place coherence data by the indices each row
 carries

Complete files were reshaped in row order and incomplete ones were indexed as if
the indices started at 0 without gaps, which scrambled or dropped data in files
sorted by frequency or cut to a subset of the separations.
---
 drdmannturb/spectra_fitting/calibration.py | 38 ++++++++--------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 6a72ee2..7031b11 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1214,30 +1214,20 @@ class CalibrationProblem:
             print(f"Warning: Expected {expected_size} points but got {len(df)}")
             print("This could indicate missing data points.")
 
-            # Create a complete grid and fill with NaN where data is missing
-            coh_u = np.full((n_seps, n_freqs), np.nan)
-            coh_v = np.full((n_seps, n_freqs), np.nan)
-            coh_w = np.full((n_seps, n_freqs), np.nan)
-
-            # Fill in the available data
-            for _, row in df.iterrows():
-                i = int(row["sep_idx"])
-                j = int(row["freq_idx"])
-                if i < n_seps and j < n_freqs:
-                    coh_u[i, j] = row["coh_u"]
-                    coh_v[i, j] = row["coh_v"]
-                    coh_w[i, j] = row["coh_w"]
-
-            # Check how many NaN values we have
-            nan_count = np.sum(np.isnan(coh_u))
-            if nan_count > 0:
-                print(f"Warning: {nan_count} missing data points filled with NaN")
-        else:
-            # We have complete data, can reshape normally
-            print("Complete data grid detected")
-            coh_u = df["coh_u"].values.reshape(n_seps, n_freqs)
-            coh_v = df["coh_v"].values.reshape(n_seps, n_freqs)
-            coh_w = df["coh_w"].values.reshape(n_seps, n_freqs)
+        # Every row names its own place in the grid; points without a row are NaN
+        coh_u = np.full((n_seps, n_freqs), np.nan)
+        coh_v = np.full((n_seps, n_freqs), np.nan)
+        coh_w = np.full((n_seps, n_freqs), np.nan)
+
+        rows = sep_mapping.index.get_indexer(df["sep_idx"])
+        cols = freq_mapping.index.get_indexer(df["freq_idx"])
+        coh_u[rows, cols] = df["coh_u"]
+        coh_v[rows, cols] = df["coh_v"]
+        coh_w[rows, cols] = df["coh_w"]
+
+        nan_count = np.sum(np.isnan(coh_u))
+        if nan_count > 0:
+            print(f"Warning: {nan_count} missing data points filled with NaN")
 
         # Store as class attributes
         self.coherence_spatial_seps = unique_seps
-- 
2.43.0


From 3374c9699bfc7a17120162d865f3073e06909c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:48 +0000
Subject: [PATCH 08/41] fix: the coherence integration grid is fixed at
 construction

Calibration switches coherence on only after the spectra object exists, so the
coh_* integration parameters were ignored and the grid was built on first use from
the length scale of that moment: results depended on the call history.
---
 .../spectra_fitting/one_point_spectra.py      | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 99baa85..09c7f67 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -126,16 +126,15 @@ class OnePointSpectra(nn.Module):
 
         ####
         # Separate coherence grid (finer resolution for better accuracy)
-        if use_coherence:
-            p1, p2 = integration_params.coh_log_min, integration_params.coh_log_max
-            N_coh = integration_params.coh_num_points
-            grid_zero_coh = torch.tensor([0])
-            grid_plus_coh = torch.logspace(p1, p2, N_coh)
-            grid_minus_coh = -torch.flip(grid_plus_coh, dims=[0])
-            self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() / physical_params.L
-            self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() / physical_params.L
-
-            self.coh_meshgrid23 = torch.meshgrid(self.coh_grid_k2, self.coh_grid_k3, indexing="ij")
+        p1, p2 = integration_params.coh_log_min, integration_params.coh_log_max
+        N_coh = integration_params.coh_num_points
+        grid_zero_coh = torch.tensor([0])
+        grid_plus_coh = torch.logspace(p1, p2, N_coh)
+        grid_minus_coh = -torch.flip(grid_plus_coh, dims=[0])
+        self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() / physical_params.L
+        self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() / physical_params.L
+
+        self.coh_meshgrid23 = torch.meshgrid(self.coh_grid_k2, self.coh_grid_k3, indexing="ij")
 
         self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L)))
         self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma)))
-- 
2.43.0


From 6fb08f5272a3be8b8676a25d5a6bc943153251ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:48 +0000
Subject: [PATCH 09/41] fix: OnePointSpectra stores its scales as natural
 logarithms

They were stored as log10 but are exponentiated with exp(), so a spectra object used
on its own evaluated with the wrong length, time and amplitude scales.
---
 drdmannturb/spectra_fitting/one_point_spectra.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 09c7f67..ae9d2e8 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -136,13 +136,9 @@ class OnePointSpectra(nn.Module):
 
         self.coh_meshgrid23 = torch.meshgrid(self.coh_grid_k2, self.coh_grid_k3, indexing="ij")
 
-        self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L)))
-        self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma)))
-        self.logMagnitude = nn.Parameter(torch.tensor(np.log10(physical_params.sigma)))
-
-        self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L), dtype=torch.get_default_dtype()))
-        self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma), dtype=torch.get_default_dtype()))
-        self.logMagnitude = nn.Parameter(torch.tensor(np.log10(physical_params.sigma), dtype=torch.get_default_dtype()))
+        self.logLengthScale = nn.Parameter(torch.tensor(np.log(physical_params.L), dtype=torch.get_default_dtype()))
+        self.logTimeScale = nn.Parameter(torch.tensor(np.log(physical_params.Gamma), dtype=torch.get_default_dtype()))
+        self.logMagnitude = nn.Parameter(torch.tensor(np.log(physical_params.sigma), dtype=torch.get_default_dtype()))
 
         if use_learnable_spectrum:
             self.p_exponent = nn.Parameter(torch.tensor(p_exponent))
-- 
2.43.0


From 388126370ccf9e58238cd6c0c33ade02456b80c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:10 +0000
Subject: [PATCH 10/41] fix: do not apply the scales twice in the Mann eddy
 lifetime approximation

The regression already contained the length and time scales, and its result was
evaluated at kL and multiplied by the time scale again.
---
 drdmannturb/spectra_fitting/one_point_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index ae9d2e8..cd2de88 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -438,7 +438,7 @@ class OnePointSpectra(nn.Module):
         kL_temp = np.logspace(-3, 3, 50)
 
         kL_temp = kL_temp.reshape(-1, 1)
-        tau_true = np.log(self.TimeScale_scalar * MannEddyLifetime(self.LengthScale_scalar * kL_temp))
+        tau_true = np.log(MannEddyLifetime(kL_temp))  # the scales are applied in EddyLifetime
 
         kL_temp_log = np.log(kL_temp)
 
-- 
2.43.0


From 9f45ea4803c4fd691d0cfa0c14ebac8fe1cf577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:10 +0000
Subject: [PATCH 11/41] fix: DomainParameters can be constructed

Its validation read the grid_levels property before the value behind it was set, so
every construction raised AttributeError.
---
 drdmannturb/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 43e198d..9659614 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -229,7 +229,7 @@ class DomainParameters:
             self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.grid_levels, (list, np.ndarray)) and len(self.grid_levels) != 3:
+        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
         if isinstance(self.d_levels, np.ndarray):
-- 
2.43.0


From 38bba1b449cadbeecd69da1d2e58c907f4859897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:10 +0000
Subject: [PATCH 12/41] fix: __all__ lists only names the package exports

'from drdmannturb import *' failed on names that no longer exist.
---
 drdmannturb/__init__.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/drdmannturb/__init__.py b/drdmannturb/__init__.py
index be1d430..b0523f1 100644
--- a/drdmannturb/__init__.py
+++ b/drdmannturb/__init__.py
@@ -80,15 +80,8 @@ __all__ = [
     "format_wind_field",
     "plot_velocity_components",
     "plot_velocity_magnitude",
-    # Interpolation
-    "extract_x_spectra",
-    "interp_spectra",
-    "interpolate",
     # NN Modules
-    "CustomMLP",
-    "CustomNet",
     "Rational",
-    "SimpleNN",
     "TauNet",
     # Parameters
     "IntegrationParameters",
-- 
2.43.0


From a51802cd6cd3724522a2b2e851a4ef31ce23d15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:10 +0000
Subject: [PATCH 13/41] fix: plot() shows the F23 and F12 data in their own
 panels

The calibration data were flattened in model order but picked by a map for the data
order, which swapped the two components.
---
 drdmannturb/spectra_fitting/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 7031b11..d872b61 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -834,7 +834,7 @@ class CalibrationProblem:
 
             k1_data_pts = self.data["k1"]
 
-            # Use the same flattening logic as in calibrate() method
+            # Flattened in the data order stated above
             data_ops = self.data["ops"]
 
             if self.prob_params.num_components == 3:
@@ -861,8 +861,8 @@ class CalibrationProblem:
                         data_ops[:, 1, 1],  # vv
                         data_ops[:, 2, 2],  # ww
                         data_ops[:, 0, 2],  # uw
-                        data_ops[:, 1, 2],  # vw
                         data_ops[:, 0, 1],  # uv
+                        data_ops[:, 1, 2],  # vw
                     )
                 )
 
-- 
2.43.0


From 682101dc91953b4e81a25b283cea661e2f03de7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:21 +0000
Subject: [PATCH 14/41] fix: init_with_noise adds noise to the parameters
 instead of failing

It assigned to OPS.Corrector, which no longer exists, so the option always raised
AttributeError (and it overwrote the parameters it is documented to perturb).
---
 drdmannturb/spectra_fitting/calibration.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index d872b61..7d93f7b 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -208,14 +208,9 @@ class CalibrationProblem:
 
     def initialize_parameters_with_noise(self):
         """Introduce additive white noise to the OPS parameters."""
-        noise = torch.tensor(
-            self.noise_magnitude * torch.randn(*self.parameters.shape),
-        )
-        vector_to_parameters(noise.abs(), self.OPS.parameters())
-
-        vector_to_parameters(noise, self.OPS.tauNet.parameters())
-
-        vector_to_parameters(noise.abs(), self.OPS.Corrector.parameters())
+        current = parameters_to_vector(self.OPS.parameters()).detach()
+        noise = self.noise_magnitude * torch.randn_like(current)
+        vector_to_parameters(current + noise, self.OPS.parameters())
 
     def eval(self, k1: torch.Tensor) -> np.ndarray:
         r"""Evaluate the calibrated model on :math:`k_1`.
-- 
2.43.0


From b3a6f0e269eec9559c6380bb88f21e5ea47cf7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 15/41] fix: save_to_vtk() writes readable spacing and accepts
 a Path

numpy scalars were written as 'np.float64(...)' into the header, which no VTK reader
parses, and a pathlib.Path (documented) raised TypeError.
---
 .../fluctuation_generation/fluctuation_field_generator.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 28a6b32..5d604f8 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -529,7 +529,7 @@ class FluctuationFieldGenerator:
         """
         from pyevtk.hl import imageToVTK
 
-        spacing = tuple(self.grid_dimensions / (2.0**self.grid_levels + 1))
+        spacing = tuple(float(h) for h in self.grid_dimensions / (2.0**self.grid_levels + 1))
 
         wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])
 
@@ -538,7 +538,7 @@ class FluctuationFieldGenerator:
             "wind": wind_field_vtk,
         }
 
-        imageToVTK(filepath, cellData=cellData, spacing=spacing)
+        imageToVTK(str(filepath), cellData=cellData, spacing=spacing)
 
     def evaluate_divergence(self, spacing: tuple | np.ndarray, field: np.ndarray | None = None) -> np.ndarray:
         r"""Evaluate the point-wise divergence of a generated fluctuation vector field.
-- 
2.43.0


From 490bd93b4f456e22a78851835d90fc692fb15b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 16/41] fix: generate from a single-precision DRD model

---
 drdmannturb/fluctuation_generation/nn_covariance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 88357ce..4c12880 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -113,7 +113,9 @@ class NNCovariance(Covariance):
         kk = np.sum(k**2, axis=0)
 
         with np.errstate(divide="ignore", invalid="ignore"):
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1)) * self.h_ref
+            # the wavevectors have to be in the precision of the network, which need not be double
+            nn_dtype = next(self.OPS.tauNet.parameters()).dtype
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1), dtype=nn_dtype) * self.h_ref
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
             beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
             beta[np.where(kk == 0)] = 0
-- 
2.43.0


From cdb5dd1810cd360feefa6100cc34faff64c3cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 17/41] fix: noise variance is the cell volume for a scalar
 grid level too

---
 drdmannturb/fluctuation_generation/gaussian_random_fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/gaussian_random_fields.py b/drdmannturb/fluctuation_generation/gaussian_random_fields.py
index 87a16d9..4d7fd46 100644
--- a/drdmannturb/fluctuation_generation/gaussian_random_fields.py
+++ b/drdmannturb/fluctuation_generation/gaussian_random_fields.py
@@ -127,7 +127,7 @@ class GaussianRandomField:
 
         # Pseudo-random number generator
         self.prng = np.random.RandomState()
-        self.noise_std = np.sqrt(np.prod(h))
+        self.noise_std = np.sqrt(np.prod(h * np.ones(ndim)))
         self.distribution = self.prng.normal
 
         # Annotate self.Correlate with the protocol
-- 
2.43.0


From 5ce243ca7ce2fc8856bedafbbff49b4c7a152b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:40 +0000
Subject: [PATCH 18/41] fix: plot velocities without reformatting

With reshape=False the field was indexed along its first spatial axis instead of its components.
---
 drdmannturb/fluctuation_generation/wind_plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/wind_plot.py b/drdmannturb/fluctuation_generation/wind_plot.py
index f15d1e1..50b4dc7 100644
--- a/drdmannturb/fluctuation_generation/wind_plot.py
+++ b/drdmannturb/fluctuation_generation/wind_plot.py
@@ -82,7 +82,7 @@ def plot_velocity_components(
     """
     X, Y, Z = create_grid(spacing, wind_field.shape)
 
-    formatted_wind_field = format_wind_field(wind_field) if reshape else wind_field
+    formatted_wind_field = format_wind_field(wind_field) if reshape else np.moveaxis(wind_field, -1, 0)
 
     fig = make_subplots(
         rows=1,
@@ -198,7 +198,7 @@ def plot_velocity_magnitude(
     """
     X, Y, Z = create_grid(spacing, wind_field.shape)
 
-    formatted_wind_field = format_wind_field(wind_field) if reshape else wind_field
+    formatted_wind_field = format_wind_field(wind_field) if reshape else np.moveaxis(wind_field, -1, 0)
 
     wind_magnitude = np.sqrt(formatted_wind_field[0] ** 2 + formatted_wind_field[1] ** 2 + formatted_wind_field[2] ** 2)
 
-- 
2.43.0


From f9ec66b411b9ce256c8dc1d86a4f79965751df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:40 +0000
Subject: [PATCH 19/41] fix: analytical_spectrum() of integer wavenumbers is
 not truncated

---
 .../low_frequency/fluctuation_field_generator.py          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 5ec644c..1ff6c8e 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -790,10 +790,10 @@ class LowFreqGenerator:
         ``[-k2_limit, k2_limit]``. Potential integration errors or warnings from
         `scipy.integrate.quad` are caught and reported if ``warn=True``.
         """
-        F11_res_arr = np.zeros_like(k1_arr)
-        F11_err_arr = np.zeros_like(k1_arr)
-        F22_res_arr = np.zeros_like(k1_arr)
-        F22_err_arr = np.zeros_like(k1_arr)
+        F11_res_arr = np.zeros_like(k1_arr, dtype=float)
+        F11_err_arr = np.zeros_like(k1_arr, dtype=float)
+        F22_res_arr = np.zeros_like(k1_arr, dtype=float)
+        F22_err_arr = np.zeros_like(k1_arr, dtype=float)
 
         # Store class attributes locally for potential performance/clarity inside helpers
         _psi = self.psi
-- 
2.43.0


From 3cc4450f6e4287afe306605344c14dc2b521b7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:05 +0000
Subject: [PATCH 20/41] fix: analytical_spectrum() resolves the peaks of the
 low-frequency spectrum

Adaptive quadrature on [-k2_limit, k2_limit] missed the peak of width ~k1, 1/L_2d around k2 = 0: with the default
limit and L_2d = 15 km, F22 was wrong by 2% at k1 L_2d = 0.3 and by 100% at k1 L_2d = 0.03.
---
 .../fluctuation_field_generator.py            | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 1ff6c8e..b5247c4 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -847,7 +847,18 @@ class LowFreqGenerator:
 
         # Set integration parameters
         integration_limit = abs(k2_limit)  # Ensure positive limit
-        quad_kwargs = {"limit": 100, "epsabs": 1.49e-08, "epsrel": 1.49e-08}
+        quad_kwargs = {"limit": 100, "epsabs": 0.0, "epsrel": 1.49e-08}
+
+        def _integrate(integrand, k1_val: float) -> tuple[float, float]:
+            """Integrate an even integrand over k2; k2 = |k1| sinh(t) resolves its peaks, however narrow."""
+            k1_abs = abs(k1_val)
+            res, err = integrate.quad(
+                lambda t: integrand(k1_abs * np.sinh(t), k1_val) * k1_abs * np.cosh(t),
+                0.0,
+                np.arcsinh(integration_limit / k1_abs),
+                **quad_kwargs,
+            )
+            return 2 * res, 2 * err
 
         if warn:
             print(f"Using integration limits for k2: [-{integration_limit:.2e}, {integration_limit:.2e}]")
@@ -862,9 +873,7 @@ class LowFreqGenerator:
                 continue
 
             try:
-                F11_res_arr[i], F11_err_arr[i] = integrate.quad(
-                    _integrand11, -integration_limit, integration_limit, args=(k1_val,), **quad_kwargs
-                )
+                F11_res_arr[i], F11_err_arr[i] = _integrate(_integrand11, k1_val)
                 # Check for large relative error estimate
                 if warn and abs(F11_res_arr[i]) > 1e-12 and F11_err_arr[i] > 0.1 * abs(F11_res_arr[i]):
                     rel_err = F11_err_arr[i] / F11_res_arr[i]
@@ -876,9 +885,7 @@ class LowFreqGenerator:
                 F11_res_arr[i], F11_err_arr[i] = np.nan, np.nan
 
             try:
-                F22_res_arr[i], F22_err_arr[i] = integrate.quad(
-                    _integrand22, -integration_limit, integration_limit, args=(k1_val,), **quad_kwargs
-                )
+                F22_res_arr[i], F22_err_arr[i] = _integrate(_integrand22, k1_val)
                 # Check for large relative error estimate
                 if warn and abs(F22_res_arr[i]) > 1e-12 and F22_err_arr[i] > 0.1 * abs(F22_res_arr[i]):
                     rel_err = F22_err_arr[i] / F22_res_arr[i]
-- 
2.43.0


From 418d946db5677b174f3dc5cecb9e784e85133f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:30 +0000
Subject: [PATCH 21/41] fix: setting the parameters from a tensor does not
 share its memory

The model's parameters became views of the tensor passed in: changing it, or training another problem set from the same
tensor, changed the model.
---
 drdmannturb/spectra_fitting/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 7d93f7b..b6b1b3d 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -183,8 +183,8 @@ class CalibrationProblem:
         """
         current_num_params = len(list(self.parameters))
 
-        if not torch.is_tensor(param_vec):
-            param_vec = torch.tensor(param_vec)
+        # copied, since the model's parameters become views of this vector
+        param_vec = param_vec.detach().clone() if torch.is_tensor(param_vec) else torch.tensor(param_vec)
 
         if len(param_vec) != current_num_params:
             raise ValueError(
-- 
2.43.0


From e26c3615381751534d39b5b1e41a819f66be1b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:20 +0000
Subject: [PATCH 22/41] fix: MANN_APPROX lifetime has the shape and precision
 of the other models

The regression coefficients were one-element double-precision arrays.
---
 drdmannturb/spectra_fitting/one_point_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index cd2de88..e51ff2c 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -452,8 +452,8 @@ class OnePointSpectra(nn.Module):
 
         print("=" * 40)
 
-        self.tau_approx_coeff_ = torch.tensor(regressor.coef_.flatten())
-        self.tau_approx_intercept_ = torch.tensor(regressor.intercept_)
+        self.tau_approx_coeff_ = torch.tensor(regressor.coef_.item())
+        self.tau_approx_intercept_ = torch.tensor(regressor.intercept_.item())
 
         self.init_mann_linear_approx = True
 
-- 
2.43.0


From 0eb3c5208b7263a622aa79cd082e6663d92bf3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:06 +0000
Subject: [PATCH 23/41] fix: PhysicalParameters objects do not share their
 default domain

---
 drdmannturb/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 9659614..073b906 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -123,7 +123,7 @@ class PhysicalParameters:
     wavenumber_conversion_factor: float = 1 / (2 * torch.pi)  # Factor for k1 = factor * f / U (default radians)
     wavenumber_scale_factor: float = 1.0  # Scale factor for k = scale * f / U in coherence (e.g., 2π or 1)
 
-    domain: torch.Tensor = torch.logspace(-1, 2, 20)
+    domain: torch.Tensor = field(default_factory=lambda: torch.logspace(-1, 2, 20))
 
 
 @dataclass
-- 
2.43.0


From 4f940399277c841ef2abdd1eef221a3d475e853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:06 +0000
Subject: [PATCH 24/41] fix: DomainParameters rejects tuples of wrong length
 and copies arrays

---
 drdmannturb/parameters.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 073b906..850d9b2 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -220,22 +220,16 @@ class DomainParameters:
 
     def __post_init__(self):
         # Check grid dimensions
-        if isinstance(self.d_dimensions, (list, np.ndarray)) and len(self.d_dimensions) != 3:
+        if len(self.d_dimensions) != 3:
             raise ValueError("Grid dimensions must be length 3.")
 
-        if isinstance(self.d_dimensions, np.ndarray):
-            self._grid_dimensions = self.d_dimensions
-        else:
-            self._grid_dimensions = np.array(self.d_dimensions)
+        self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
+        if len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
-        if isinstance(self.d_levels, np.ndarray):
-            self._grid_levels = self.d_levels
-        else:
-            self._grid_levels = np.array(self.d_levels)
+        self._grid_levels = np.array(self.d_levels)
 
         del self.d_dimensions
         del self.d_levels
-- 
2.43.0


From eb5f6b0e5d55491055450c55b8b687f8f02f8df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 25/41] fix: calibrate a closed-form model with a
 regularization weight

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index b6b1b3d..052ae91 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -422,7 +422,7 @@ class CalibrationProblem:
             # NOTE: Old code used tauNet.NN.parameters() since the NN wasn't "built-in" to the tauNet
             self.gen_theta_NN = lambda: parameters_to_vector(self.OPS.tauNet.parameters())
         else:
-            self.gen_theta_NN = lambda: 0.0
+            self.gen_theta_NN = lambda: None  # no network parameters to regularize
 
         theta_NN = self.gen_theta_NN()
         # print("\n[DEBUG calibrate] About to calculate initial loss...")
-- 
2.43.0


From 5d2d7fd5a607ce2a1c147d23b9d5c150b90fdec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:46 +0000
Subject: [PATCH 26/41] fix: the coherence term contributes to the gradient of
 the loss

---
 drdmannturb/spectra_fitting/calibration.py | 41 +++++++++++-----------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 052ae91..3943e4e 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -546,34 +546,33 @@ class CalibrationProblem:
 
     def _compute_model_coherence(self) -> tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         """Compute model coherence for the selected spatial separations."""
-        with torch.no_grad():
-            # Add this: Convert frequency to wavenumber using U_ref (assume it's in self.phys_params or pass it)
-            U_ref = self.phys_params.Uref
-            factor = self.phys_params.wavenumber_conversion_factor  # New: Configurable factor (e.g., 2*pi or 1.0)
+        # Add this: Convert frequency to wavenumber using U_ref (assume it's in self.phys_params or pass it)
+        U_ref = self.phys_params.Uref
+        factor = self.phys_params.wavenumber_conversion_factor  # New: Configurable factor (e.g., 2*pi or 1.0)
 
-            # Identify non-zero frequencies to avoid NaN issues at f=0
-            min_freq = 1e-6  # Adjust this threshold if needed based on your frequency resolution
-            nonzero_mask = torch.tensor(self.coherence_frequencies) > min_freq
-            coherence_freq_nonzero = self.coherence_frequencies[nonzero_mask]
+        # Identify non-zero frequencies to avoid NaN issues at f=0
+        min_freq = 1e-6  # Adjust this threshold if needed based on your frequency resolution
+        nonzero_mask = torch.tensor(self.coherence_frequencies) > min_freq
+        coherence_freq_nonzero = self.coherence_frequencies[nonzero_mask]
 
-            coherence_k1 = (factor * torch.tensor(coherence_freq_nonzero, dtype=torch.get_default_dtype())) / U_ref
+        coherence_k1 = (factor * torch.tensor(coherence_freq_nonzero, dtype=torch.get_default_dtype())) / U_ref
 
-            # No need for additional clamp here since we're excluding very small f
+        # No need for additional clamp here since we're excluding very small f
 
-            model_coherence = self.OPS.SpectralCoherence(coherence_k1, self.coherence_separations_tensor)
-            # model_coherence shape: (3, n_selected_separations, n_frequencies_nonzero)
+        model_coherence = self.OPS.SpectralCoherence(coherence_k1, self.coherence_separations_tensor)
+        # model_coherence shape: (3, n_selected_separations, n_frequencies_nonzero)
 
-            # Create full-size tensors and fill with computed values, setting excluded (low freq) to 1.0
-            n_components = 3  # u, v, w
-            n_seps = len(self.coherence_separations_tensor)
-            n_freqs_full = len(self.coherence_frequencies)
+        # Create full-size tensors and fill with computed values, setting excluded (low freq) to 1.0
+        n_components = 3  # u, v, w
+        n_seps = len(self.coherence_separations_tensor)
+        n_freqs_full = len(self.coherence_frequencies)
 
-            full_model = torch.ones((n_components, n_seps, n_freqs_full), dtype=torch.get_default_dtype())
-            full_model[:, :, nonzero_mask] = model_coherence
+        full_model = torch.ones((n_components, n_seps, n_freqs_full), dtype=torch.get_default_dtype())
+        full_model[:, :, nonzero_mask] = model_coherence
 
-            coh_u = full_model[0, :, :]  # Shape: (n_seps, n_freqs_full)
-            coh_v = full_model[1, :, :]
-            coh_w = full_model[2, :, :]
+        coh_u = full_model[0, :, :]  # Shape: (n_seps, n_freqs_full)
+        coh_v = full_model[1, :, :]
+        coh_w = full_model[2, :, :]
 
         return coh_u, coh_v, coh_w
 
-- 
2.43.0


From b31209480d4d80c4c027b4882017cfff2b717544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:07 +0000
Subject: [PATCH 27/41] fix: plot() shows the coherence of the calibrated model

---
 drdmannturb/spectra_fitting/calibration.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 3943e4e..7d2b84a 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1093,11 +1093,9 @@ class CalibrationProblem:
             coherence_labels = ["u", "v", "w"]
             colors = ["royalblue", "crimson", "forestgreen"]
 
-            # Get model coherence if available
-            if hasattr(self, "model_coherence_u"):
-                model_coherence = [self.model_coherence_u, self.model_coherence_v, self.model_coherence_w]
-            else:
-                model_coherence = [None, None, None]
+            # Coherence of the model as it is now, not as it was before the calibration
+            with torch.no_grad():
+                model_coherence = self._compute_model_coherence()
 
             # Plot for each selected spatial separation
             for row in range(4):  # 4 spatial separations
-- 
2.43.0


From 190902a9b75e8e31bd11ec05cc8b30b48fc930df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:19 +0000
Subject: [PATCH 28/41] fix: plot() before calibration raises the documented
 error

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 7d2b84a..47557c2 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -50,7 +50,7 @@ class CalibrationProblem:
     generate realistic turbulence fields based on the learned spectra and eddy lifetimes.
     """  # noqa: D400
 
-    data: dict[str, torch.Tensor]  # TODO: This typing may change in the future
+    data: dict[str, torch.Tensor] | None = None  # TODO: This typing may change in the future
 
     def __init__(
         self,
-- 
2.43.0


From aee81b239caa99c654f63cb101f9bedfd116ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:19 +0000
Subject: [PATCH 29/41] fix: generated spectra keep the precision of the
 wavenumbers

---
 drdmannturb/spectra_fitting/data_generator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/spectra_fitting/data_generator.py b/drdmannturb/spectra_fitting/data_generator.py
index 5a94492..8f65650 100644
--- a/drdmannturb/spectra_fitting/data_generator.py
+++ b/drdmannturb/spectra_fitting/data_generator.py
@@ -34,7 +34,7 @@ def generate_von_karman_spectra(k1: torch.Tensor, L: float = 0.59, C: float = 3.
     denominator = L_inv_squared + k1_squared
 
     # Initialize tensor with zeros
-    ops_values = torch.zeros([len(k1), 3, 3])
+    ops_values = torch.zeros([len(k1), 3, 3], dtype=denominator.dtype)
 
     # Compute diagonal elements vectorized
     ops_values[:, 0, 0] = 9 / 55 * C / denominator ** (5 / 6)
@@ -70,7 +70,7 @@ def generate_kaimal_spectra(k1: torch.Tensor, zref: float, ustar: float) -> torc
     """
     n = 1 / (2 * np.pi) * k1 * zref
 
-    ops_values = torch.zeros([len(k1), 3, 3], dtype=k1.dtype)
+    ops_values = torch.zeros([len(k1), 3, 3], dtype=n.dtype)
 
     ops_values[:, 0, 0] = 52.5 * n / (1 + 33 * n) ** (5 / 3)
     ops_values[:, 1, 1] = 8.5 * n / (1 + 9.5 * n) ** (5 / 3)
@@ -81,7 +81,7 @@ def generate_kaimal_spectra(k1: torch.Tensor, zref: float, ustar: float) -> torc
 
     return {
         "k1": k1,
-        "ops": ops_values * torch.tensor(ustar**2, dtype=k1.dtype),
+        "ops": ops_values * torch.tensor(ustar**2, dtype=n.dtype),
         "coherence": None,
     }
 
-- 
2.43.0


From 13146f7199e9bdcbed9617c406a1e041d97bc8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:50 +0000
Subject: [PATCH 30/41] fix: the low-frequency spectrum amplitude is right for
 any peak length scale

Adaptive quadrature over kappa in [0, inf) misses the peak at kappa ~ 1/L_2d when L_2d is large: at L_2d = 2e5 the
variance was off by 2e-4 to 100%, or the constructor raised 'Integral of spectrum shape is near zero'.
---
 .../low_frequency/fluctuation_field_generator.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index b5247c4..257cd65 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -277,7 +277,10 @@ class LowFreqGenerator:
 
             return (kappa**3) / denominator
 
-        integral_val, integral_err = integrate.quad(integrand_shape, 0, np.inf)
+        # Integrate over kappa * L_2d: the spectrum peaks at wavenumbers of order 1 / L_2d
+        integral_val, integral_err = integrate.quad(
+            lambda kappa_L: integrand_shape(kappa_L / L_2d) / L_2d, 0, np.inf, epsabs=0.0
+        )
 
         if integral_val < 1e-16:
             raise ValueError(
-- 
2.43.0


From 1f407eace8ad0894be9ea986f0c72994e834ecfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:05 +0000
Subject: [PATCH 31/41] fix: plot_losses counts the runs in the order in which
 they were made

---
 drdmannturb/spectra_fitting/calibration.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 47557c2..ab0445f 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1162,7 +1162,9 @@ class CalibrationProblem:
         # TODO: This is temporary
         assert self.logging_directory is not None, "Logging directory not set!"
 
-        log_fpath = listdir(self.logging_directory)[run_number]
+        # Log names end in dot-separated numbers (time, ..., counter); the order of a directory listing is arbitrary
+        logs = sorted(listdir(self.logging_directory), key=lambda name: [part.zfill(20) for part in name.split(".")])
+        log_fpath = logs[run_number]
         full_fpath = path.join(self.logging_directory, log_fpath)
 
         from drdmannturb import plot_loss_logs
-- 
2.43.0


From 9d6dd5c3826348ac7b90a55019b3a0309e753c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 32/41] fix: the TensorBoard log is complete when calibrate
 returns

---
 drdmannturb/spectra_fitting/calibration.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index ab0445f..3dc6bde 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -525,6 +525,8 @@ class CalibrationProblem:
                     loss_info = self.LossAggregator.get_current_loss_info()
                     print(f"  MSE/Coherence ratio: {loss_info.get('mse_coherence_ratio', 0):.2f}")
 
+        self.LossAggregator.writer.flush()  # the writer works asynchronously
+
         print("=" * 40)
         print(f"Spectra fitting concluded with final loss: {self.loss.item()}")
 
-- 
2.43.0


From 239ea99bc9af53a3487946b00f8b35a9d499a2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 33/41] fix: plot_loss_logs accepts a Path

---
 drdmannturb/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/common.py b/drdmannturb/common.py
index 55f7dd7..b7dcebb 100644
--- a/drdmannturb/common.py
+++ b/drdmannturb/common.py
@@ -177,7 +177,7 @@ def plot_loss_logs(log_file: str | Path):
     log_file : Union[str, Path]
        Full path to training log to be visualized.
     """
-    event_acc = EventAccumulator(log_file)
+    event_acc = EventAccumulator(str(log_file))
     event_acc.Reload()
 
     training_scalars = event_acc.Tags()["scalars"]
-- 
2.43.0


From a96a7536137b85b3c4296f5894e62a1dc6ec120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:06 +0000
Subject: [PATCH 34/41] fix: plot_loss_logs plots a log with a single term

---
 drdmannturb/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/common.py b/drdmannturb/common.py
index b7dcebb..7965843 100644
--- a/drdmannturb/common.py
+++ b/drdmannturb/common.py
@@ -190,7 +190,8 @@ def plot_loss_logs(log_file: str | Path):
 
     with plt.style.context("bmh"):
         plt.rcParams.update({"font.size": 8})
-        fig, ax = plt.subplots(1, vals_tot.__len__(), figsize=(12, 4), sharex=True)
+        fig, ax = plt.subplots(1, vals_tot.__len__(), figsize=(12, 4), sharex=True, squeeze=False)
+        ax = ax[0]
         for idx, (scalar_tag, vals) in enumerate(reversed(vals_tot.items())):
             ax[idx].plot(vals[1:])
             ax[idx].set_yscale("log")
-- 
2.43.0


From bc55e9eb01d40761bd2251302d36ff64eddfc828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 35/41] fix: calibrate with a coherence file that holds a
 single frequency

A one-element boolean tensor was taken as an integer index by numpy; the mask is now a numpy array.
---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 3dc6bde..30f9694 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -555,7 +555,7 @@ class CalibrationProblem:
         # Identify non-zero frequencies to avoid NaN issues at f=0
         min_freq = 1e-6  # Adjust this threshold if needed based on your frequency resolution
         nonzero_mask = torch.tensor(self.coherence_frequencies) > min_freq
-        coherence_freq_nonzero = self.coherence_frequencies[nonzero_mask]
+        coherence_freq_nonzero = self.coherence_frequencies[nonzero_mask.numpy()]
 
         coherence_k1 = (factor * torch.tensor(coherence_freq_nonzero, dtype=torch.get_default_dtype())) / U_ref
 
-- 
2.43.0


From e09ce2e85ca830be09b4c68453113a4dfa0f540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 36/41] fix: mesh and domain size studies accumulate fields of
 the requested shape

---
 .../fluctuation_generation/low_frequency/large_plot.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index faa0302..7d7ec7c 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -20,8 +20,8 @@ def _run_single_mesh(exponent, config, num_realizations=5):
     local_config["exp2"] = exponent
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros_like(gen.k1)
-    u2 = np.zeros_like(gen.k2)
+    u1 = np.zeros_like(gen.X)
+    u2 = np.zeros_like(gen.X)
 
     for _ in range(num_realizations):
         curr_u1, curr_u2 = gen.generate()
@@ -108,8 +108,8 @@ def _run_single_domain_size(domain_factor, config, num_realizations=5):
     local_config["L2_factor"] = domain_factor
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros_like(gen.k1)
-    u2 = np.zeros_like(gen.k2)
+    u1 = np.zeros_like(gen.X)
+    u2 = np.zeros_like(gen.X)
 
     for _ in range(num_realizations):
         curr_u1, curr_u2 = gen.generate()
-- 
2.43.0


From 6a3276f0cb7dc39202f210731f19ab4cee88f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 37/41] fix: mesh study plots the runs that completed when one
 fails

---
 drdmannturb/fluctuation_generation/low_frequency/large_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index 7d7ec7c..62873dd 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -71,6 +71,7 @@ def mesh_independence_study(low=4, high=12):
 
     if results:
         results.sort(key=lambda x: x[0])
+        exponents = np.array([r[0] for r in results])
         u1_norms = np.array([r[1] for r in results])
         u2_norms = np.array([r[2] for r in results])
         u1_vars = np.array([r[3] for r in results])
-- 
2.43.0


From b6210883da952145a5d4bdfc8039862f5ae0e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 38/41] fix: anisotropy_study accepts a single angle

---
 drdmannturb/fluctuation_generation/low_frequency/large_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index 62873dd..5f1e20c 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -750,7 +750,7 @@ def anisotropy_study(base_config, psi_degrees, num_realizations=10, do_plot=True
     # --- Setup Figure ---
     fig, axs = None, None
     if do_plot:
-        fig, axs = plt.subplots(n_angles, 2, figsize=(9, 3.5 * n_angles), sharex=True, sharey=True)
+        fig, axs = plt.subplots(n_angles, 2, figsize=(9, 3.5 * n_angles), sharex=True, sharey=True, squeeze=False)
         fig.suptitle(r"Generated Velocity Fields for different $\psi$ angles", fontsize=14)
     elif not do_plot:
         print("Plotting disabled.")
-- 
2.43.0


From ad43ded433e793b5c094af21f19b6403026f6d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 39/41] fix: plot_spectra_comparison counts both signs of k1 in
 the variance of the spectrum

---
 .../fluctuation_generation/low_frequency/large_plot.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index 5f1e20c..a3d69c2 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -224,8 +224,8 @@ def plot_spectra_comparison(gen: ffg.LowFreqGenerator):
 
     # Print variances for comparison
     dk1 = k1_pos[1] - k1_pos[0] if len(k1_pos) > 1 else 0
-    var_u1_from_spectrum = np.sum(F11_numerical) * dk1 if dk1 > 0 else 0
-    var_u2_from_spectrum = np.sum(F22_numerical) * dk1 if dk1 > 0 else 0
+    var_u1_from_spectrum = 2 * np.sum(F11_numerical) * dk1 if dk1 > 0 else 0
+    var_u2_from_spectrum = 2 * np.sum(F22_numerical) * dk1 if dk1 > 0 else 0
     var_u1_actual = np.var(gen.u1)
     var_u2_actual = np.var(gen.u2)
 
-- 
2.43.0


From 00929dfb037c2232703df14a25804d0cc64837e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:35 +0000
Subject: [PATCH 40/41] fix: anisotropy_study draws its fields over their cells

---
 .../fluctuation_generation/low_frequency/large_plot.py    | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index a3d69c2..b60ab7c 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -787,7 +787,13 @@ def anisotropy_study(base_config, psi_degrees, num_realizations=10, do_plot=True
             X, Y, u1_plot, u2_plot = generated_fields[psi_deg]
             x_km = X / 1000
             y_km = Y / 1000
-            extent = [x_km[0, 0], x_km[-1, -1], y_km[0, 0], y_km[-1, -1]]
+            dx_km, dy_km = gen.user_dx / 1000, gen.user_dy / 1000
+            extent = [
+                x_km[0, 0] - dx_km / 2,
+                x_km[-1, -1] + dx_km / 2,
+                y_km[0, 0] - dy_km / 2,
+                y_km[-1, -1] + dy_km / 2,
+            ]
             row_axs = axs[i]
 
             # Plot u1 (left column)
-- 
2.43.0


From 2a3f87b35a0270d17e8f9f3cf1063cb0936615c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:03 +0000
Subject: [PATCH 41/41] fix: Covariance.eval returns the value of its
 evaluation function

---
 drdmannturb/fluctuation_generation/covariance_kernels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/covariance_kernels.py b/drdmannturb/fluctuation_generation/covariance_kernels.py
index 097d5e1..d9b5f99 100644
--- a/drdmannturb/fluctuation_generation/covariance_kernels.py
+++ b/drdmannturb/fluctuation_generation/covariance_kernels.py
@@ -33,7 +33,7 @@ class Covariance:
 
     def eval(self, *argv, **kwargs):
         """Evaluate the covariance kernel."""
-        self.eval_func(*argv, **kwargs)
+        return self.eval_func(*argv, **kwargs)
 
 
 class VonKarmanCovariance(Covariance):
-- 
2.43.0

