From bb8371beeb9b1f65a27f18addf4169bd1c814542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:18 +0000
Subject: [PATCH 01/31] fix: renormalise R and T in the spectrum loss by the
 same sum

---
 nidn/training/losses/spectrum_loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/training/losses/spectrum_loss.py b/nidn/training/losses/spectrum_loss.py
index 8f36ded..2de94f7 100644
--- a/nidn/training/losses/spectrum_loss.py
+++ b/nidn/training/losses/spectrum_loss.py
@@ -47,8 +47,9 @@ def _spectrum_loss_fn(
             logger.warning(
                 f"R+T>1 for freq={freq:.4f}. Renormalizing this point in the loss..."
             )
-            prod_R = prod_R / (prod_R + prod_T)
-            prod_T = prod_T / (prod_R + prod_T)
+            total = prod_R + prod_T
+            prod_R = prod_R / total
+            prod_T = prod_T / total
             renormalized = True
 
         # Accumulate losses
-- 
2.43.0


From 98746b2b90786720bfd6f27ea385de055a43be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:28 +0000
Subject: [PATCH 02/31] fix: keep a copy of the initial model state as first
 best state

state_dict() returns references to the live parameters, so reloading the
"best" state before any improvement (or at the end of a run without one)
kept the optimiser-modified parameters.
---
 nidn/training/run_training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index c746fbc..60723e5 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -95,7 +95,7 @@ def run_training(
 
     # And store the best results
     best_loss = np.inf
-    run_cfg.best_model_state_dict = run_cfg.model.state_dict()
+    run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
     logger.trace("Starting training...")
     # Training Loop
-- 
2.43.0


From c6ed2ecfb1789806baed33819d3d0908c757e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:28 +0000
Subject: [PATCH 03/31] fix: renormalized losses no longer block storing later
 valid bests

A loss computed from an unphysical spectrum lowered best_loss without
storing the model, so better valid models found later were discarded.
---
 nidn/training/run_training.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index 60723e5..f1f4e74 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -155,14 +155,14 @@ def run_training(
             )
         # We store the model if it has the lowest loss yet
         # (this is to avoid losing good results during a run that goes wild)
-        if loss < best_loss:
+        # Unphysical (renormalized) results neither count as best nor are stored
+        if loss < best_loss and not renormalized:
             best_loss = loss
             logger.info(
                 f"###  New Best={loss.item():<6.4f} with SpectrumLoss={spectrum_loss:<6.4f} ### L1={L1err.detach().item():.4f}"
             )
-            if not renormalized:
-                logger.debug("Saving model state...")
-                run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
+            logger.debug("Saving model state...")
+            run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
         # Update the loss trend indicators
         weighted_average.append(loss.item())
-- 
2.43.0


From 7f18548fb6467db09957a87de38a4c9d6d5b22c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:28 +0000
Subject: [PATCH 04/31] fix: translate imaginary epsilon to [imag_min_eps,
 imag_max_eps]

---
 nidn/training/model/model_to_eps_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 85da34a..0804ead 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -195,7 +195,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
         # second half imaginary
         eps.imag = out[:, :, :, run_cfg.N_freq :]
-        eps.imag = (eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)).clip(
+        eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
+        eps.imag = (eps.imag + run_cfg.imag_min_eps).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
         )
 
-- 
2.43.0


From dc9b5a360bec10afa268bcf670acb3757c922b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:28 +0000
Subject: [PATCH 05/31] fix: map network outputs to the real/imag epsilon of
 their own frequency

The model outputs [real, imag] for each (x, y, z, freq) input; reshaping to
2*N_freq and splitting in halves assigned outputs to other frequencies and
mixed up real and imaginary parts for N_freq > 1.
---
 nidn/training/model/model_to_eps_grid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 0804ead..450d01d 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -163,9 +163,9 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
     else:
 
         # Reshape the output to have a 4D tensor again
-        # Note we ouput real and imaginary parts separatly, hence 2*N_freq
+        # Note we ouput [real, imag] per grid point and frequency
         out = out.reshape(
-            Nx_undersampled, Ny_undersampled, run_cfg.N_layers, 2 * run_cfg.N_freq
+            Nx_undersampled, Ny_undersampled, run_cfg.N_layers, run_cfg.N_freq, 2
         )
 
         # Oversample the created eps grid
@@ -179,8 +179,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
 
         # Net out is [0,1] thus we transform to desired real and imaginary ranges
-        # first half contains real entries
-        eps.real = out[:, :, :, 0 : run_cfg.N_freq]
+        # first component contains real entries
+        eps.real = out[..., 0]
 
         # scale up to [0 , (max-min_eps)]
         eps.real = eps.real * (run_cfg.real_max_eps - run_cfg.real_min_eps)
@@ -193,8 +193,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         if run_cfg.avoid_zero_eps:
             _avoid_zero_eps(eps)
 
-        # second half imaginary
-        eps.imag = out[:, :, :, run_cfg.N_freq :]
+        # second component imaginary
+        eps.imag = out[..., 1]
         eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         eps.imag = (eps.imag + run_cfg.imag_min_eps).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
-- 
2.43.0


From afa9ffe4346e1de121d9323f765906786e323e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:28 +0000
Subject: [PATCH 06/31] fix: avoid_zero_eps also for voxel models and after
 adding noise

---
 nidn/training/model/model_to_eps_grid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 450d01d..a12fb60 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -190,9 +190,6 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
             run_cfg.real_min_eps, run_cfg.real_max_eps
         )
 
-        if run_cfg.avoid_zero_eps:
-            _avoid_zero_eps(eps)
-
         # second component imaginary
         eps.imag = out[..., 1]
         eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
@@ -217,6 +214,10 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
         eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
 
+    # Last, so that it also holds for voxel models and with noise
+    if run_cfg.avoid_zero_eps:
+        _avoid_zero_eps(eps)
+
     return eps
 
 
-- 
2.43.0


From 220957c9817e3858907d9b1aa420847e502780c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:04 +0000
Subject: [PATCH 07/31] fix: config validation detects negative list entries

all(list) > 0.0 compares a bool with zero and never looked at the sign of the
entries. TRCWA_L_grid is a list of vectors with zeros in the default config,
so it must be non-negative.
---
 nidn/utils/validate_config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index de54dc8..ed63cab 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -153,7 +153,6 @@ def _check_value_ranges(cfg: DotMap):
         raise RuntimeError(f"TRCWA_L_grid dim0 must be ordered from high to low")
 
     all_positive_list_keys = [
-        "TRCWA_L_grid",
         "PER_LAYER_THICKNESS",
         "FDTD_grid",
         "FDTD_source_position",
@@ -164,13 +163,16 @@ def _check_value_ranges(cfg: DotMap):
     ]
 
     for key in all_positive_list_keys:
-        if key in cfg.keys() and not (all(cfg[key]) > 0.0):
+        if key in cfg.keys() and not all(value > 0.0 for value in cfg[key]):
             raise RuntimeError(f"All elements in {key} must be a positive integer")
     for key in all_positive_or_zero_list_keys:
-        if not (all(cfg[key]) >= 0.0):
+        if not all(value >= 0.0 for value in cfg[key]):
             raise RuntimeError(
                 f"All elements in {key} must be a positive integer or zero"
             )
+    # The lattice vectors usually contain zeros
+    if not all(value >= 0.0 for vector in cfg.TRCWA_L_grid for value in vector):
+        raise RuntimeError(f"All elements in TRCWA_L_grid must be positive or zero")
 
     # Disabled this check temporarily as it is only relevant in training. For forward model this doesn't matter.
     # if not len(cfg.target_transmittance_spectrum) == cfg.N_freq:
-- 
2.43.0


From af81b562d98f431bf26edef5d14b05e881d2e736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:25 +0000
Subject: [PATCH 08/31] fix: keep material and frequency dimensions of the
 epsilon matrix

squeeze() also dropped the frequency dimension for a single target frequency
and the material dimension for a single material.
---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 3054c26..5991026 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -79,7 +79,7 @@ class MaterialCollection:
 
         # Create a single tensor of all materials
         logger.trace("Creating material tensor")
-        self.epsilon_matrix = torch.stack(eps_list).squeeze()  # .cuda()
+        self.epsilon_matrix = torch.stack(eps_list).squeeze(-1)  # .cuda()
         self.N_materials = len(self.material_names)
 
     def _load_material_data(self, name):
-- 
2.43.0


From 7bdcb5293cc9cded311b70623fb41111fdc1821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:21 +0000
Subject: [PATCH 09/31] fix: NERF with 3 or 4 hidden layers

The skip connection was applied although no hidden layer follows to take it,
which crashed for 4 hidden layers and appended the input to the output for 3.
---
 nidn/training/utils/nerf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/utils/nerf.py b/nidn/training/utils/nerf.py
index 0f5ab59..1144b10 100644
--- a/nidn/training/utils/nerf.py
+++ b/nidn/training/utils/nerf.py
@@ -56,7 +56,8 @@ class NERF(nn.Module):
         # compute all other layers and apply skip where requested
         for layer_idx in range(1, len(self.net)):
             out = self.net[layer_idx].forward(out)
-            if layer_idx in self.skip:
+            # only hidden layers take the skip connection as input
+            if layer_idx in self.skip and layer_idx < len(self.net) - 2:
                 out = torch.cat([out, identity], dim=1)
 
         return out
-- 
2.43.0


From 11b024b6bc41a6a41353e36d84dc6a0d90682128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:49 +0000
Subject: [PATCH 10/31] fix: do not drop negative Fourier components of the
 permittivity

Epsilon_fft is meant to clear numerically vanishing components, but the
comparison lacked an absolute value and cleared every component whose real and
imaginary part were negative (or zero).
---
 nidn/trcwa/utils/fft_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index df91d0b..f77cf00 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -32,7 +32,7 @@ def Epsilon_fft(dN, eps_grid, G):
     # Set very small components to zero for torch
     for i in range(eps2.shape[0]):
         for j in range(eps2.shape[1]):
-            if eps2[i][j].real < 1e-14 and eps2[i][j].imag < 1e-14:
+            if abs(eps2[i][j].real) < 1e-14 and abs(eps2[i][j].imag) < 1e-14:
                 eps2[i][j] = 0 + 0j
 
     return epsinv, eps2
-- 
2.43.0


From 517957572146945a8bab3318b20a107067d13e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:11 +0000
Subject: [PATCH 11/31] fix: keep the grid dimensions of one cell wide
 patterned layers

For Nx = 1 and Ny > 1 the x dimension was squeezed out although the layers are
handled as patterned ones: several layers crashed in GridLayer_geteps, a single
layer lost its gradient.
---
 nidn/trcwa/init_trcwa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/trcwa/init_trcwa.py b/nidn/trcwa/init_trcwa.py
index 5a56ddb..fbf38a4 100644
--- a/nidn/trcwa/init_trcwa.py
+++ b/nidn/trcwa/init_trcwa.py
@@ -20,8 +20,9 @@ def _init_trcwa(eps_grid, target_frequency, run_cfg):
     Nx, Ny, N_layers = eps_grid.shape[0:3]
 
     # Squeeze out Nx=1, Ny=1 dimension (for uniform layer)
-    eps_grid = eps_grid.squeeze(0)  # squeeze X
-    eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
+    if Nx == 1 and Ny == 1:
+        eps_grid = eps_grid.squeeze(0)  # squeeze X
+        eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
 
     # Adding a small imaginary part to the frequency to avoid singularities in RCWA
     # See page 2 of arxiv.org/pdf/2005.04840v1.pdf
-- 
2.43.0


From 5644a560b66e39d96d6736e7ee021b7e20a3d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:30 +0000
Subject: [PATCH 12/31] fix: patterned layers with Nx = 3 are not anisotropic
 permittivities

A (3, Ny, N_layers) grid was mistaken for the three components of an
anisotropic permittivity, which are flat.
---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 3b25b61..ed537a2 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -227,7 +227,7 @@ class TRCWA:
             Ny = self.GridLayer_Nxy_list[ptri][1]
             dN = 1.0 / Nx / Ny
 
-            if len(ep_all) == 3 and ep_all[0].ndim > 0:
+            if len(ep_all) == 3 and ep_all[0].ndim == 1:
                 ep_grid = [
                     torch.reshape(ep_all[0][ptr : ptr + Nx * Ny], [Nx, Ny]),
                     torch.reshape(ep_all[1][ptr : ptr + Nx * Ny], [Nx, Ny]),
-- 
2.43.0


From d48a12882c8ffe14aa54ae97efa8ddbe78c0d35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:19 +0000
Subject: [PATCH 13/31] fix: TRCWA_NG = 1 keeps the zeroth order

The truncation compared the first with the last reciprocal lattice vector and
kept none, so the planewave excitation crashed.
---
 nidn/trcwa/utils/kbloch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index fc7f0dd..d7d268e 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -135,7 +135,7 @@ def Gsel_circular(nG, Lk1, Lk2):
     for i in range(nGtmp - 1, -1, -1):
         if torch.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-    nG = i
+    nG = max(i, 1)  # the zeroth order is always kept
 
     # final G
     G = torch.zeros((nG, 2), dtype=int)
-- 
2.43.0


From 50c829b201288b3a100c31861162bee119a05c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:58 +0000
Subject: [PATCH 14/31] fix: FDTD no longer overwrites a shared layer thickness
 in the config

PER_LAYER_THICKNESS = [t] was expanded to one entry per layer in the caller's
config, which then failed validation (or kept old values) when N_layers or the
thickness were changed for a later run.
---
 nidn/fdtd_integration/compute_spectrum_fdtd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/compute_spectrum_fdtd.py b/nidn/fdtd_integration/compute_spectrum_fdtd.py
index 772ed26..0704800 100644
--- a/nidn/fdtd_integration/compute_spectrum_fdtd.py
+++ b/nidn/fdtd_integration/compute_spectrum_fdtd.py
@@ -32,10 +32,13 @@ def compute_spectrum_fdtd(permittivity, cfg: DotMap):
     logger.debug(physical_wavelengths)
     logger.debug("Number of layers: " + str(len(permittivity[0, 0, :, 0])))
 
+    cfg.FDTD_grid_scaling = _compute_fdtd_grid_scaling(cfg)
+
     if (len(cfg.PER_LAYER_THICKNESS) == 1) and (cfg.N_layers > 1):
+        # Only for this simulation, the passed cfg keeps its shared thickness
+        cfg = cfg.copy()
         cfg.PER_LAYER_THICKNESS = cfg.PER_LAYER_THICKNESS * cfg.N_layers
 
-    cfg.FDTD_grid_scaling = _compute_fdtd_grid_scaling(cfg)
     # For each wavelength, calculate transmission and reflection coefficents
     disable_progress_bar = logger._core.min_level >= 20
     for i in tqdm(range(len(physical_wavelengths)), disable=disable_progress_bar):
-- 
2.43.0


From cde029a6b6d48405efd9c311ecaf88b7f937cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:35 +0000
Subject: [PATCH 15/31] fix: FDTD rejects NaN permittivities like TRCWA does

Training recovers from NaN permittivities by catching the ValueError. FDTD
raised it only by accident for NaN real parts (conversion to int) and returned
NaN spectra for NaN imaginary parts.
---
 nidn/fdtd_integration/compute_spectrum_fdtd.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/nidn/fdtd_integration/compute_spectrum_fdtd.py b/nidn/fdtd_integration/compute_spectrum_fdtd.py
index 0704800..2c35b47 100644
--- a/nidn/fdtd_integration/compute_spectrum_fdtd.py
+++ b/nidn/fdtd_integration/compute_spectrum_fdtd.py
@@ -22,9 +22,16 @@ def compute_spectrum_fdtd(permittivity, cfg: DotMap):
         permitivity (torch.tensor): Array of permittivity for each layer
         cfg (DotMap): Configurations needed to perform the simulations
 
+    Raises:
+        ValueError: Raises an error if the permittivity contains NaN values
+
     Returns:
         tuple[array, array]: Transmission spectrum and reflection spectrum
     """
+    # Check for NaNs in the permittivity
+    if torch.any(torch.isnan(permittivity)):
+        raise ValueError("Model output became NaN...", permittivity)
+
     transmission_spectrum = []
     reflection_spectrum = []
     physical_wavelengths, _ = get_frequency_points(cfg)
-- 
2.43.0


From 5ad6960166a6e6a57209560be2910e11c895dd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:35 +0000
Subject: [PATCH 16/31] fix: point source with ricker wavelet

The signal was assigned to a misspelled variable, so the first time step failed.
---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index 6713223..df9ea76 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -112,7 +112,7 @@ class PointSource:
             # By experimental value, the ricker wavelet signal converges to zero after 6 times the grid points per wavelength, so just set the source-signal to zero after this
             t1 = self.grid_points_per_wavelength * 6
             if q < t1:
-                vsrcect = self.amplitude * _ricker(
+                src = self.amplitude * _ricker(
                     q, self.grid_points_per_wavelength, 1, self.courant
                 )
             else:
-- 
2.43.0


From 521fd3036a2bf88c55f390681076cb8b6db889b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:35 +0000
Subject: [PATCH 17/31] fix: FDTD signals of exactly two windows are too short
 for transient removal

There is no change between windows to compare when only one (merged) window is
left, taking its maximum crashed.
---
 .../calculate_transmission_reflection_coefficients.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
index 723e9d3..db1cdb1 100644
--- a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
+++ b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
@@ -309,7 +309,7 @@ def _eliminate_transient_part(signal, wavelength, cfg, is_freespace=False, plot=
 
     # Check signal is still long enough
     signal_length = len(signal)
-    if signal_length < 2 * window_size:
+    if signal_length <= 2 * window_size:
         logger.error(
             "FDTD Signal is too short to compute R,T,A. Please increase FDTD_niter in the config. Aborting transient removal."
         )
-- 
2.43.0


From 7ffa91c92572fc9a4ac0e06491227a49a5bdfada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:55 +0000
Subject: [PATCH 18/31] fix: save_run no longer overwrites a run saved in the
 same second under the same name

---
 nidn/training/save_run.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nidn/training/save_run.py b/nidn/training/save_run.py
index 8c6a74b..f96cb8f 100644
--- a/nidn/training/save_run.py
+++ b/nidn/training/save_run.py
@@ -22,6 +22,12 @@ def save_run(run_cfg, subfolder=""):
 
     filename = "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string + "_run.pk"
 
+    # Never overwrite another run that was saved within the same second
+    copies = 0
+    while Path(filename).exists():
+        copies += 1
+        filename = f"../results/{subfolder}/{run_cfg.name}_{dt_string}_{copies}_run.pk"
+
     logger.info("Saving run to file: {}".format(filename))
     with open(filename, "wb") as handle:
         pk.dump(run_cfg, handle, protocol=pk.HIGHEST_PROTOCOL)
-- 
2.43.0


From 6b3b9f6f6891d1acf69bc8cacc7dbc1df0c9f43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:55 +0000
Subject: [PATCH 19/31] fix: save_all_plots works for runs with fewer than four
 frequencies

---
 nidn/plots/save_all_plots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nidn/plots/save_all_plots.py b/nidn/plots/save_all_plots.py
index 299c7b5..103b18d 100644
--- a/nidn/plots/save_all_plots.py
+++ b/nidn/plots/save_all_plots.py
@@ -30,7 +30,9 @@ def save_all_plots(run_cfg, save_path):
     plot_model_grid(run_cfg, save_path=save_path)
 
     logger.debug("Saving model grid per freq plot")
-    plot_model_grid_per_freq(run_cfg, save_path=save_path)
+    # At most four frequencies fit in the plot, but there may be fewer
+    freq_idx = list(range(min(4, run_cfg.N_freq)))
+    plot_model_grid_per_freq(run_cfg, freq_idx=freq_idx, save_path=save_path)
 
     logger.debug("Saving material grid plot")
     plot_material_grid(run_cfg, save_path=save_path)
-- 
2.43.0


From 2c712a404342e5aefd2f288604aac89bd0048699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:38 +0000
Subject: [PATCH 20/31] fix: regression with add_noise can be trained (in-place
 noise broke the gradient)

---
 nidn/training/model/model_to_eps_grid.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index a12fb60..55eb272 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -199,20 +199,25 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
     # Adds noise scaled to desired eps range times noise_scale
     if run_cfg.add_noise:
-        eps.real += (
+        # Not in-place, as clip needs its input for the gradient
+        noise = (
             (torch.randn_like(eps.real) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.real_max_eps - run_cfg.real_min_eps)
         )
-        eps.real = eps.real.clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
-        eps.imag += (
+        eps.real = (eps.real + noise).clip(
+            run_cfg.real_min_eps, run_cfg.real_max_eps
+        )
+        noise = (
             (torch.randn_like(eps.imag) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         )
-        eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
+        eps.imag = (eps.imag + noise).clip(
+            run_cfg.imag_min_eps, run_cfg.imag_max_eps
+        )
 
     # Last, so that it also holds for voxel models and with noise
     if run_cfg.avoid_zero_eps:
-- 
2.43.0


From 132bba18a6e40f80c43459d65a515cfa3ec0d3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:55 +0000
Subject: [PATCH 21/31] fix: point source outside the few y grid points of the
 periodic FDTD grid (as with the default position)

---
 nidn/fdtd_integration/init_fdtd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/init_fdtd.py b/nidn/fdtd_integration/init_fdtd.py
index ef4ab8f..dc62fab 100644
--- a/nidn/fdtd_integration/init_fdtd.py
+++ b/nidn/fdtd_integration/init_fdtd.py
@@ -79,7 +79,8 @@ def init_fdtd(cfg: DotMap, include_object, wavelength, permittivity):
     )
 
     source_x = (cfg.FDTD_source_position[0] * cfg.FDTD_grid_scaling).int()
-    source_y = (cfg.FDTD_source_position[1] * cfg.FDTD_grid_scaling).int()
+    # The grid is periodic in y-direction, and only a few grid points wide
+    source_y = (cfg.FDTD_source_position[1] * cfg.FDTD_grid_scaling).int() % y_grid_size
 
     logger.trace(
         "Placing source at "
-- 
2.43.0


From b2f834d47e1c16842e2793db8f923c75c64286b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:53 +0000
Subject: [PATCH 22/31] fix: keep the gradient of vanishing Fourier components
 of the permittivity

---
 nidn/trcwa/utils/fft_funs.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index f77cf00..34084f3 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -29,11 +29,9 @@ def Epsilon_fft(dN, eps_grid, G):
     else:
         raise ValueError("Wrong eps_grid type")
 
-    # Set very small components to zero for torch
-    for i in range(eps2.shape[0]):
-        for j in range(eps2.shape[1]):
-            if abs(eps2[i][j].real) < 1e-14 and abs(eps2[i][j].imag) < 1e-14:
-                eps2[i][j] = 0 + 0j
+    # Set very small components to zero for torch (keeping their gradient)
+    small = (eps2.real.abs() < 1e-14) & (eps2.imag.abs() < 1e-14)
+    eps2 = eps2 - torch.where(small, eps2, torch.zeros_like(eps2)).detach()
 
     return epsinv, eps2
 
-- 
2.43.0


From 86cf7776543e75ff9818f95e4579be515564909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:53 +0000
Subject: [PATCH 23/31] fix: finite and correct gradients for patterned layers
 with degenerate modes (uniform or symmetric grids)

---
 nidn/trcwa/constants.py | 3 +++
 nidn/trcwa/trcwa.py     | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/nidn/trcwa/constants.py b/nidn/trcwa/constants.py
index 3c5c82c..35d51ad 100644
--- a/nidn/trcwa/constants.py
+++ b/nidn/trcwa/constants.py
@@ -7,6 +7,9 @@ import torch
 # or doi.org/10.1364/OE.21.030812 for a more thorough explanation
 TRCWA_Q_ABS = 1e5
 
+# Relative perturbation that lifts degenerate eigenvalues of patterned layers, whose gradients are singular otherwise
+TRCWA_EIG_LIFT = 1e-10
+
 # Planewave excitation
 TRCWA_PLANEWAVE = {"p_amp": 0, "s_amp": 1, "p_phase": 0, "s_phase": 0}
 
diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index ed537a2..c960997 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -728,7 +728,9 @@ def SolveLayerEigensystem(omega, kx, ky, kp, ep2):
     kkT = torch_dot(k, torch_transpose(k))
     M = torch_dot(ep2, kp) - kkT
 
-    q, phi = torch.linalg.eig(M)
+    # Lift degenerate eigenvalues (e.g. of uniform or symmetric grids), their gradients are singular
+    lift = torch.frac(torch.arange(1, 2 * nG + 1) * 0.618034) * M.detach().abs().max()
+    q, phi = torch.linalg.eig(M + TRCWA_EIG_LIFT * torch.diag(lift))
 
     q = torch.sqrt(q)
     # branch cut choice
-- 
2.43.0


From 4f03bea2c1330eab0b6b199ce259d20ee108c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:54 +0000
Subject: [PATCH 24/31] fix: print_cfg works for trained runs (models, results,
 None and other unformattable values)

---
 nidn/utils/print_cfg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nidn/utils/print_cfg.py b/nidn/utils/print_cfg.py
index ac040b7..b9d05a4 100644
--- a/nidn/utils/print_cfg.py
+++ b/nidn/utils/print_cfg.py
@@ -21,8 +21,8 @@ def print_cfg(cfg: DotMap):
             print()
         else:
             if idx % 3 == 2:
-                print(f"{key:<23}: {value:<15}|")
+                print(f"{key:<23}: {str(value):<15}|")
             else:
-                print(f"{key:<23}: {value:<15}|", end="")
+                print(f"{key:<23}: {str(value):<15}|", end="")
         idx += 1
     print()
-- 
2.43.0


From d613918b6cae02f3762a652dbd946a497e423680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:42 +0000
Subject: [PATCH 25/31] fix: Grid.reset also clears the memory of absorbing
 boundaries

---
 nidn/fdtd/boundaries.py | 17 +++++++++++++++++
 nidn/fdtd/grid.py       |  2 ++
 2 files changed, 19 insertions(+)

diff --git a/nidn/fdtd/boundaries.py b/nidn/fdtd/boundaries.py
index 4e92aa0..c2f6c35 100644
--- a/nidn/fdtd/boundaries.py
+++ b/nidn/fdtd/boundaries.py
@@ -104,6 +104,9 @@ class Boundary:
             this method is called *after* the grid fields are updated
         """
 
+    def reset(self):
+        """Reset the boundary's own fields, if it has any"""
+
     def __repr__(self):
         return f"PML(name={repr(self.name)})"
 
@@ -395,6 +398,20 @@ class PML(Boundary):
             / (self.sigmaH * self.k + self.a * self.k**2)
         )
 
+    def reset(self):
+        """Set the convolution fields of the PML to zero"""
+        for field in (
+            self.phi_E,
+            self.phi_H,
+            self.psi_Ex,
+            self.psi_Ey,
+            self.psi_Ez,
+            self.psi_Hx,
+            self.psi_Hy,
+            self.psi_Hz,
+        ):
+            field *= 0.0
+
     def update_E(self):
         """Update electric field of the grid
 
diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 4bd9001..10fb15c 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -334,6 +334,8 @@ class Grid:
         self.H *= 0.0
         self.E *= 0.0
         self.time_steps_passed *= 0
+        for boundary in self.boundaries:
+            boundary.reset()
 
     def add_source(self, name, source):
         """add a source to the grid"""
-- 
2.43.0


From 9adcae6af92c03ffad79c7386a0d48a2d0a582f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:17 +0000
Subject: [PATCH 26/31] fix: Grid.run with a duration in seconds no longer
 loses the last step to rounding

---
 nidn/fdtd/grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 10fb15c..f5f1796 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -258,7 +258,9 @@ class Grid:
 
         """
         if isinstance(total_time, float):
-            total_time /= self.time_step
+            # The nearest whole number of time steps: truncating would lose the
+            # last step of e.g. 25 * time_step to rounding errors
+            total_time = self._handle_time(total_time)
         time = range(0, int(total_time), 1)
         if progress_bar:
             time = tqdm(time)
-- 
2.43.0


From a1647d505671e812dcc377263d49602f1f298b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:39 +0000
Subject: [PATCH 27/31] fix: TRCWA fields, interior amplitudes and permittivity
 profiles raised AttributeError

They called torch.inv, torch.isinstance and torch.ifft2, which do not exist.
---
 nidn/trcwa/trcwa.py          | 10 +++++-----
 nidn/trcwa/utils/fft_funs.py |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index c960997..ab0a5bd 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -276,7 +276,7 @@ class TRCWA:
         # patterned layer
         elif self.id_list[i][0] == 1:
             if component == "zz":
-                epk = torch.inv(self.Patterned_epinv_list[self.id_list[i][2]])
+                epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
             elif component == "xx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
             elif component == "xy":
@@ -451,7 +451,7 @@ class TRCWA:
         ai0, bi0 = self.GetAmplitudes_noTranslate(which_layer)
         # ai, bi = self.GetAmplitudes(which_layer,z_offset)
 
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             zl = [z_offset]
         else:
             zl = z_offset
@@ -504,7 +504,7 @@ class TRCWA:
             torch.tensor: Tensor containing the field amplitudes [[Ex,Ey,Ez], [Hx,Hy,Hz]] in Fourier space for each z-offset
         """
 
-        if torch.isinstance(Nxy, type(None)):
+        if isinstance(Nxy, type(None)):
             Nxy = self.GridLayer_Nxy_list[self.id_list[which_layer][3]]
         Nx = Nxy[0]
         Ny = Nxy[1]
@@ -524,7 +524,7 @@ class TRCWA:
             hy = get_ifft(Nx, Ny, fh[1], self.G)
             hz = get_ifft(Nx, Ny, fh[2], self.G)
             eh.append([[ex, ey, ez], [hx, hy, hz]])
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             eh = eh[0]
         return eh
 
@@ -864,7 +864,7 @@ def SolveInterior(which_layer, a0, bN, q_list, phi_list, kp_list, thickness_list
     )
 
     # tmp = inv(1-S12*pS21)
-    tmp = torch.inv(torch_eye(nG2) - torch_dot(S12, pS21))
+    tmp = torch.inverse(torch_eye(nG2) - torch_dot(S12, pS21))
     # ai = tmp * (S11 a0 + S12 pS22 bN)
     ai = torch_dot(tmp, torch_dot(S11, a0) + torch_dot(S12, torch_dot(pS22, bN)))
     # bi = pS21 ai + pS22 bN
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index 34084f3..c5562d0 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -81,5 +81,5 @@ def get_ifft(Nx, Ny, s_in, G):
         stmp[x, y] = 1.0
         s0 = s0 + s_in[i] * stmp
 
-    s_out = torch.ifft2(s0) / dN
+    s_out = torch.fft.ifft2(s0) / dN
     return s_out
-- 
2.43.0


From 0170bbf741e3ad155177e440c7dc4a07542f8931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:39 +0000
Subject: [PATCH 28/31] fix: Return_eps returned the mirrored permittivity
 profile

The first row of the convolution matrix holds the coefficients of -G.
---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index ab0a5bd..730cfd6 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -286,7 +286,7 @@ class TRCWA:
             elif component == "yy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
 
-            return get_ifft(Nx, Ny, epk[0, :], self.G)
+            return get_ifft(Nx, Ny, epk[:, 0], self.G)
 
     def RT_Solve(self, normalize=0, byorder=0):
         """
-- 
2.43.0


From cfd3f3d25ae5405de87a73c8774ffab56603e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:10 +0000
Subject: [PATCH 29/31] fix: Volume_integral raised, swapped the x and y
 components and integrated conjugated modes

Uniform layers and Gmeshgrid raised; Mx weighted Ey and vice versa; the z integral
used the transposed mode pairs and was 0/0 for equal modes.
---
 nidn/trcwa/trcwa.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 730cfd6..68cddc3 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -549,7 +549,8 @@ class TRCWA:
         phi = self.phi_list[which_layer]
 
         if self.id_list[which_layer][0] == 0:
-            epinv = 1.0 / self.Uniform_ep_list[self.id_list[which_layer][2]]
+            ep = self.Uniform_ep_list[self.id_list[which_layer][2]]
+            epinv = torch_eye(self.nG) / ep
         else:
             epinv = self.Patterned_epinv_list[self.id_list[which_layer][2]]
 
@@ -580,12 +581,12 @@ class TRCWA:
         tmp2 = torch.vstack((-Faxy, Faz))
         F = torch.hstack((tmp1, tmp2))
 
-        # consider Mtotal
+        # consider Mtotal, Faxy yields (-Ey, Ex)
         Mzeros = torch.zeros_like(Mx)
         Mtotal = torch.vstack(
             (
-                torch.hstack((Mx, Mzeros, Mzeros)),
-                torch.hstack((Mzeros, My, Mzeros)),
+                torch.hstack((My, Mzeros, Mzeros)),
+                torch.hstack((Mzeros, Mx, Mzeros)),
                 torch.hstack((Mzeros, Mzeros, Mz)),
             )
         )
@@ -931,13 +932,13 @@ def GetZPoyntingFlux(ai, bi, omega, kp, phi, q, byorder=0):
     return forward, backward
 
 
-def Matrix_zintegral(q, thickness, shift=1e-12):
+def Matrix_zintegral(q, thickness, shift=1e-7):
     """Generate matrix for z-integral.
 
     Args:
         q ():
         thickness (float): Thickness of the layer of interest.
-        shift (float, optional):               . Defaults to 1e-12.
+        shift (float, optional): Phase difference below which modes count as equal. Defaults to 1e-7.
 
     Returns:
         torch.tensor: Matrix for z-integral
@@ -960,17 +961,24 @@ def Matrix_zintegral(q, thickness, shift=1e-12):
     # Mab = (np.exp(1j*qj*thickness)-np.exp(-1j*np.conj(qi)*thickness))/1j/(qj+np.conj(qi))
 
     # M = t exp(0.5it (qj-qi^*)) sinc(0.5d (sjqj-siqi^*), note in python sinc = sin(pi x)/pi x
-    qij = qj - torch.conj(qi) + torch_eye(nG2) * shift
+    # Entry (i, j) goes with a_i a_j^*, so it is the integral over mode i times mode j^*
+    qij = qi - torch.conj(qj)
     Maa = (torch.exp(1j * qij * thickness) - 1) / 1j / qij  # this is more robust
+    # limit for (nearly) equal modes
+    same = torch.abs(qij) * thickness < shift
+    Maa = torch.where(same, thickness * (1 + 0.5j * qij * thickness), Maa)
     # Maa = thickness * np.exp(0.5j*thickness*qij) * np.sinc(0.5*thickness*qij/np.pi)
 
-    qij2 = qj + torch.conj(qi)
+    qij2 = qi + torch.conj(qj)
     # Mab = thickness * np.exp(0.5j*thickness*qij) * np.sinc(0.5*thickness*qij2/np.pi)
     Mab = (
-        (torch.exp(1j * qj * thickness) - torch.exp(-1j * torch.conj(qi) * thickness))
+        (torch.exp(1j * qi * thickness) - torch.exp(-1j * torch.conj(qj) * thickness))
         / 1j
         / qij2
     )
+    same = torch.abs(qij2) * thickness < shift
+    limit = thickness * (1 + 0.5j * qij2 * thickness)
+    Mab = torch.where(same, torch.exp(-1j * torch.conj(qj) * thickness) * limit, Mab)
 
     tmp1 = torch.vstack((Maa, Mab))
     tmp2 = torch.vstack((Mab, Maa))
@@ -991,6 +999,6 @@ def Gmeshgrid(x):
     qj = []
     for i in range(N):
         qj.append(x)
-    qj = torch.tensor(qj)
+    qj = torch.stack(qj)
     qi = torch_transpose(qj)
     return qi, qj
-- 
2.43.0


From c820730256c488df4faa6dc56b582ee655bbbf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:50 +0000
Subject: [PATCH 30/31] fix: parallelogramic truncation raised TypeError

It passed Python ints and ranges to torch functions.
---
 nidn/trcwa/utils/kbloch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index d7d268e..ca60312 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -61,14 +61,14 @@ def Gsel_parallelogramic(nG, Lk1, Lk2):
     v = torch.norm(Lk2)
     uv = torch.dot(Lk1, Lk2)
 
-    NGroot = int(torch.sqrt(nG))
-    if torch.mod(NGroot, 2) == 0:
+    NGroot = int(np.sqrt(nG))
+    if NGroot % 2 == 0:
         NGroot -= 1
 
     M = NGroot // 2
 
-    xG = range(-M, NGroot - M)
-    G1, G2 = torch.meshgrid(xG, xG, indexing="ij")
+    xG = torch.arange(-M, NGroot - M)
+    G1, G2 = torch.meshgrid(xG, xG)
     G1 = G1.flatten()
     G2 = G2.flatten()
 
-- 
2.43.0


From e44af363b7d4ebac5e5b80bd1db07e0d84e3b91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:59 +0000
Subject: [PATCH 31/31] fix: anisotropic layers had their x and y
 permittivities interchanged

eps2 acts on (-Ey, Ex), so its first block is the permittivity along y.
---
 nidn/trcwa/trcwa.py          | 4 ++--
 nidn/trcwa/utils/fft_funs.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 68cddc3..6effd91 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -277,13 +277,13 @@ class TRCWA:
         elif self.id_list[i][0] == 1:
             if component == "zz":
                 epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
-            elif component == "xx":
+            elif component == "yy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
             elif component == "xy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, self.nG :]
             elif component == "yx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, : self.nG]
-            elif component == "yy":
+            elif component == "xx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
 
             return get_ifft(Nx, Ny, epk[:, 0], self.G)
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index c5562d0..697b179 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -15,8 +15,9 @@ def Epsilon_fft(dN, eps_grid, G):
         epsz_fft = get_conv(dN, eps_grid[2], G)
         epsinv = torch.inverse(epsz_fft)
 
-        tmp1 = torch.vstack((epsx_fft, torch.zeros_like(epsx_fft)))
-        tmp2 = torch.vstack((torch.zeros_like(epsx_fft), epsy_fft))
+        # eps2 acts on (-Ey, Ex)
+        tmp1 = torch.vstack((epsy_fft, torch.zeros_like(epsy_fft)))
+        tmp2 = torch.vstack((torch.zeros_like(epsx_fft), epsx_fft))
         eps2 = torch.hstack((tmp1, tmp2))
 
     elif eps_grid[0].ndim == 1:
-- 
2.43.0

