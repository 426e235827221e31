From dabc7a02326cd8c773630daa97512262f216c353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 01/15] fix: batched lattice vectors in reciprocal, transverse
 wavevectors and eigensolves

---
 src/fmmax/basis.py  |  9 +++++----
 src/fmmax/fmm.py    | 12 ++++++++++--
 src/fmmax/vector.py | 20 ++++++++++++--------
 3 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 882a636..8b20042 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -118,6 +118,7 @@ def generate_expansion(
 def reciprocal(lattice_vectors: LatticeVectors) -> LatticeVectors:
     """Computes the reciprocal vectors for the `basis`."""
     cross_product = _cross_product(lattice_vectors.u, lattice_vectors.v)
+    cross_product = cross_product[..., jnp.newaxis]
     uprime = (
         jnp.stack([lattice_vectors.v[..., 1], -lattice_vectors.v[..., 0]], axis=-1)
         / cross_product
@@ -254,12 +255,12 @@ def transverse_wavevectors(
     """
     reciprocal_vectors = primitive_lattice_vectors.reciprocal
     kx = in_plane_wavevector[..., 0, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 0]
+        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 0, jnp.newaxis]
+        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 0, jnp.newaxis]
     )
     ky = in_plane_wavevector[..., 1, jnp.newaxis] + 2 * jnp.pi * (
-        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 1]
-        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 1]
+        expansion.basis_coefficients[:, 0] * reciprocal_vectors.u[..., 1, jnp.newaxis]
+        + expansion.basis_coefficients[:, 1] * reciprocal_vectors.v[..., 1, jnp.newaxis]
     )
     return jnp.stack([kx, ky], axis=-1)
 
diff --git a/src/fmmax/fmm.py b/src/fmmax/fmm.py
index e0e248c..2bc6245 100644
--- a/src/fmmax/fmm.py
+++ b/src/fmmax/fmm.py
@@ -412,7 +412,11 @@ def _eigensolve_uniform_isotropic_media(
         )
 
     batch_shape = jnp.broadcast_shapes(
-        wavelength.shape, in_plane_wavevector.shape[:-1], permittivity.shape[:-2]
+        wavelength.shape,
+        in_plane_wavevector.shape[:-1],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+        permittivity.shape[:-2],
     )
 
     num_eigenvalues = 2 * expansion.num_terms
@@ -607,7 +611,11 @@ def _eigensolve_uniform_general_anisotropic_media(
     )
 
     batch_shape = jnp.broadcast_shapes(
-        wavelength.shape, in_plane_wavevector.shape[:-1], permittivity_xx.shape[:-2]
+        wavelength.shape,
+        in_plane_wavevector.shape[:-1],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+        permittivity_xx.shape[:-2],
     )
     shape = batch_shape + (expansion.num_terms,)
 
diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 4ca7784..5db803e 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -147,19 +147,23 @@ def compute_tangent_field(
         The normal field, `(tx, ty)`.
     """
     arr = jax.lax.stop_gradient(arr)
-    batch_shape = arr.shape[:-2]
-    arr = utils.atleast_nd(arr, n=3)
+    batch_shape = jnp.broadcast_shapes(
+        arr.shape[:-2],
+        primitive_lattice_vectors.u.shape[:-1],
+        primitive_lattice_vectors.v.shape[:-1],
+    )
+    arr = jnp.broadcast_to(arr, batch_shape + arr.shape[-2:])
     arr = arr.reshape((-1,) + arr.shape[-2:])
 
     primitive_lattice_vectors = basis.LatticeVectors(
         u=jnp.broadcast_to(
-            primitive_lattice_vectors.u.reshape((-1, 2)),
-            (arr.shape[0], 2),
-        ),
+            primitive_lattice_vectors.u,
+            batch_shape + (2,),
+        ).reshape((-1, 2)),
         v=jnp.broadcast_to(
-            primitive_lattice_vectors.v.reshape((-1, 2)),
-            (arr.shape[0], 2),
-        ),
+            primitive_lattice_vectors.v,
+            batch_shape + (2,),
+        ).reshape((-1, 2)),
     )
 
     field_fn = jax.vmap(
-- 
2.43.0


From a7ed5e4fdce4e5a0a4b5f9c7166bec2421aad86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 02/15] fix: tangent field of oblique one-dimensional gratings
 is perpendicular to the gradient

---
 src/fmmax/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 5db803e..d8a7ecd 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -247,7 +247,7 @@ def _compute_tangent_field_no_batch(
     field = fft.ifft(fourier_field, expansion=expansion, shape=grid_shape, axis=-2)
 
     # Manually set the tangent field in the 1d case.
-    field_1d = jnp.stack([jnp.sin(grad_angle), jnp.cos(grad_angle)])
+    field_1d = jnp.stack([jnp.sin(grad_angle), -jnp.cos(grad_angle)])
     field = jnp.where(is_1d, field_1d, field)
     return normalize(field)
 
-- 
2.43.0


From 1b2bb5cd0565964cadb2e2a531146c646fbec158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:32 +0000
Subject: [PATCH 03/15] fix: reject Brillouin grid shapes with any non-positive
 dimension

---
 src/fmmax/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 8b20042..279f6d3 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -211,7 +211,7 @@ def brillouin_zone_in_plane_wavevector(
     Returns:
         The in-plane wavevectors, with shape `brillouin_grid_shape + (2,)`.
     """
-    if len(brillouin_grid_shape) != 2 or brillouin_grid_shape < (1, 1):
+    if len(brillouin_grid_shape) != 2 or min(brillouin_grid_shape) < 1:
         raise ValueError(
             f"`brillouin_grid_shape` must be length-2 with positive values, "
             f"but got {brillouin_grid_shape}."
-- 
2.43.0


From 5bb7c5046e0f201b71756a2a41997d0578c03733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:01 +0000
Subject: [PATCH 04/15] fix: circular truncation includes all vectors in the
 circle for any lattice aspect ratio

---
 src/fmmax/basis.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/fmmax/basis.py b/src/fmmax/basis.py
index 279f6d3..002c695 100644
--- a/src/fmmax/basis.py
+++ b/src/fmmax/basis.py
@@ -291,10 +291,25 @@ def _basis_coefficients_circular(
         The coefficients, with shape `(num_vectors, 2)`. The final axis gives the
         coefficient for the first and second vector in the basis.
     """
+    # Vectors are to lie within the circle with area equal to cross product of `u` and
+    # `v` scaled by `num_terms`.
+    cross_product = onp.abs(
+        _cross_product(primitive_lattice_vectors.u, primitive_lattice_vectors.v)
+    )
+    max_magnitude = onp.sqrt(approximate_num_terms * cross_product / onp.pi)
+
     # Generate candidate coefficients. These will include more coefficients than needed;
-    # subsequently we will filter based on magnitude.
-    g = onp.arange(-approximate_num_terms // 2, approximate_num_terms // 2 + 1)
-    G1, G2 = onp.meshgrid(g, g, indexing="ij")
+    # subsequently we will filter based on magnitude. Lattice vectors with coefficient
+    # `i` for `u` lie at least a distance `i * (u x v) / |v|` from the origin.
+    u_magnitude = onp.linalg.norm(primitive_lattice_vectors.u)
+    v_magnitude = onp.linalg.norm(primitive_lattice_vectors.v)
+    g1_max = int(onp.ceil(max_magnitude * v_magnitude / cross_product))
+    g2_max = int(onp.ceil(max_magnitude * u_magnitude / cross_product))
+    G1, G2 = onp.meshgrid(
+        onp.arange(-g1_max, g1_max + 1),
+        onp.arange(-g2_max, g2_max + 1),
+        indexing="ij",
+    )
     G1 = G1.flatten()
     G2 = G2.flatten()
 
@@ -305,15 +320,7 @@ def _basis_coefficients_circular(
     )
     magnitude = onp.linalg.norm(vectors, axis=-1)
 
-    # Include all vectors lying within the circle with area equal to cross product
-    # of `u` and `v` scaled by `num_terms`.
-    max_magnitude = onp.sqrt(
-        approximate_num_terms
-        * onp.abs(
-            _cross_product(primitive_lattice_vectors.u, primitive_lattice_vectors.v)
-        )
-        / onp.pi
-    )
+    # Include all vectors lying within the circle.
     mask = magnitude < max_magnitude
 
     G1 = G1[mask]
-- 
2.43.0


From 019bdf7e517ee8839e5bb384aa4ac3f9b54ea69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:58 +0000
Subject: [PATCH 05/15] fix: scattering matrix solves for layers with differing
 batch rank

---
 src/fmmax/scattering.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fmmax/scattering.py b/src/fmmax/scattering.py
index 74be383..7c89dbf 100644
--- a/src/fmmax/scattering.py
+++ b/src/fmmax/scattering.py
@@ -595,6 +595,8 @@ jax.tree_util.register_pytree_node(
 def solve(a: jnp.ndarray, b: jnp.ndarray, *, force_x64_solve: bool) -> jnp.ndarray:
     """Solves `A @ x = b`, optionally using 64-bit precision."""
     output_dtype = jnp.promote_types(a.dtype, b.dtype)
+    # Ensure that `b` is always a batch of matrices and never a batch of vectors.
+    b = utils.atleast_nd(b, n=a.ndim)
     if force_x64_solve and jax.config.read("jax_enable_x64"):
         a = a.astype(jnp.promote_types(a.dtype, jnp.float64))
         b = b.astype(jnp.promote_types(b.dtype, jnp.float64))
-- 
2.43.0


From 48f66cb5724a8bf629f682206d99d133cb4dd29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:13 +0000
Subject: [PATCH 06/15] fix: interpolate permittivity of real-valued arrays
 with negative values

The square root of a negative real-valued permittivity is nan, and so is the
interpolated permittivity. Compute the refractive index in the complex domain.
---
 src/fmmax/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fmmax/utils.py b/src/fmmax/utils.py
index 9fd973b..4a0dd26 100644
--- a/src/fmmax/utils.py
+++ b/src/fmmax/utils.py
@@ -94,10 +94,14 @@ def interpolate_permittivity(
     Returns:
         The interpolated permittivity.
     """
-    n_solid = jnp.real(jnp.sqrt(permittivity_solid))
-    k_solid = jnp.imag(jnp.sqrt(permittivity_solid))
-    n_void = jnp.real(jnp.sqrt(permittivity_void))
-    k_void = jnp.imag(jnp.sqrt(permittivity_void))
+    # Ensure that the refractive index is complex also for real-valued permittivity,
+    # e.g. for lossless metals with negative permittivity.
+    index_solid = jnp.sqrt(permittivity_solid + 0j)
+    index_void = jnp.sqrt(permittivity_void + 0j)
+    n_solid = jnp.real(index_solid)
+    k_solid = jnp.imag(index_solid)
+    n_void = jnp.real(index_void)
+    k_void = jnp.imag(index_void)
     n = density * n_solid + (1 - density) * n_void
     k = density * k_solid + (1 - density) * k_void
     return (n + 1j * k) ** 2
-- 
2.43.0


From bdf875a4bc080edf2ff2876dfb7532220d8be0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:13 +0000
Subject: [PATCH 07/15] fix: rotation matrix for integer-valued angles

When all angles have an integer type, the elements of the rotation matrix were
truncated to integers.
---
 src/fmmax/beams.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fmmax/beams.py b/src/fmmax/beams.py
index 237f551..3f2ed25 100644
--- a/src/fmmax/beams.py
+++ b/src/fmmax/beams.py
@@ -122,11 +122,12 @@ def rotation_matrix(
     Returns:
         The rotation matrix.
     """
+    # Use the dtype of the matrix elements, which is inexact also for integer angles.
     dtype = jnp.promote_types(
-        jnp.asarray(polar_angle).dtype,
+        jnp.cos(polar_angle).dtype,
         jnp.promote_types(
-            jnp.asarray(azimuthal_angle).dtype,
-            jnp.asarray(polarization_angle).dtype,
+            jnp.cos(azimuthal_angle).dtype,
+            jnp.cos(polarization_angle).dtype,
         ),
     )
     # Matrix that rotates around the y-axis by `polar_angle`.
-- 
2.43.0


From c2cfd9f33d906f71a1f1eaa4bcdf20383e30aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:16 +0000
Subject: [PATCH 08/15] fix: convolution matrix of boolean and small-integer
 arrays

---
 src/fmmax/fft.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fmmax/fft.py b/src/fmmax/fft.py
index eebac1b..9d0755a 100644
--- a/src/fmmax/fft.py
+++ b/src/fmmax/fft.py
@@ -31,8 +31,7 @@ def fourier_convolution_matrix(
     """
     _validate_shape_for_expansion(x.shape, expansion)
 
-    x_fft = jnp.fft.fft2(x)
-    x_fft /= jnp.prod(jnp.asarray(x.shape[-2:])).astype(x.dtype)
+    x_fft = jnp.fft.fft2(x, norm="forward")
     idx = _standard_toeplitz_indices(expansion)
     return x_fft[..., idx[..., 0], idx[..., 1]]
 
-- 
2.43.0


From 9fbea49e933c50879f22f45f2bd7ec69bf040cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:36 +0000
Subject: [PATCH 09/15] fix: internal sources between layers of different batch
 rank

---
 src/fmmax/sources.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/fmmax/sources.py b/src/fmmax/sources.py
index 117c5c9..a046306 100644
--- a/src/fmmax/sources.py
+++ b/src/fmmax/sources.py
@@ -288,6 +288,7 @@ def amplitudes_for_source(
 
     # The matrix solve directly yields the forward-going wave amplitudes after the
     # source, and the backward-going wave amplitudes before the source.
+    pol = utils.atleast_nd(pol, n=matrix.ndim)
     ab = jnp.linalg.solve(matrix, pol)
     fwd_amplitude_after_start, bwd_amplitude_before_end = jnp.split(ab, 2, axis=-2)
 
@@ -401,17 +402,11 @@ def emission_matrix(
     eye = utils.diag(jnp.ones(shape, dtype=q.dtype))
 
     # Equation 7.9 from [1999 Whittaker].
-    matrix = jnp.block(
-        [
-            [
-                next_omega_k @ next_phi @ utils.diag(1 / next_q) @ (eye - fd_s21_after),
-                omega_k @ phi @ utils.diag(1 / q) @ (eye - fd_s12_before),
-            ],
-            [
-                next_phi @ (eye + fd_s21_after),
-                -phi @ (eye + fd_s12_before),
-            ],
-        ]
-    )
-
-    return matrix
+    m11 = next_omega_k @ next_phi @ utils.diag(1 / next_q) @ (eye - fd_s21_after)
+    m12 = omega_k @ phi @ utils.diag(1 / q) @ (eye - fd_s12_before)
+    m21 = next_phi @ (eye + fd_s21_after)
+    m22 = -phi @ (eye + fd_s12_before)
+
+    # The blocks may differ in their batch dimensions.
+    m11, m12, m21, m22 = jnp.broadcast_arrays(m11, m12, m21, m22)
+    return jnp.block([[m11, m12], [m21, m22]])
-- 
2.43.0


From 9936639abd67cc54359e35eaef55054eb55a5283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:01 +0000
Subject: [PATCH 10/15] fix: one-dimensional tangent field of gratings with
 complex permittivity

The direction of the gradient of a complex array was obtained from its complex phase, so
that lossy gratings had a wrong tangent field (two materials) or nan (several materials).
---
 src/fmmax/vector.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index d8a7ecd..9105271 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -338,12 +338,23 @@ def _filter_and_adjust_resolution(
 
 def _is_1d_field(field: jnp.ndarray) -> Tuple[jnp.ndarray, jnp.ndarray]:
     """Determine whether the field varies in one direction only."""
+    # The direction of a field does not depend on its complex phase, which is removed
+    # here. Fields that are not linearly polarized retain an imaginary part.
+    use_x = jnp.abs(field[..., :1]) > jnp.abs(field[..., 1:])
+    phasor = jnp.where(use_x, field[..., :1], field[..., 1:])
+    phasor = jnp.where(phasor == 0, 1.0, phasor)
+    phasor /= jnp.abs(phasor)
+    phasor = jnp.where(phasor.real < 0, -phasor, phasor)
+    field = field * jnp.conj(phasor)
+    is_linear = jnp.isclose(field.imag, 0.0, atol=_ATOL_1D_FIELD_ANGLE)
+    field = field.real
+
     ref_field = _field_at_max_magnitude(field)
     assert ref_field.shape == (2,)
     ref_angle = _angle(ref_field[0] + 1j * ref_field[1])
     angle = _angle(field[..., 0] + 1j * field[..., 1])
     magnitude = jnp.squeeze(_field_magnitude(field), axis=-1)
-    is_1d = jnp.all(
+    is_1d = jnp.all(is_linear) & jnp.all(
         jnp.isclose(magnitude, 0.0)
         | jnp.isclose(angle, ref_angle - 2 * jnp.pi, atol=_ATOL_1D_FIELD_ANGLE)
         | jnp.isclose(angle, ref_angle - 1 * jnp.pi, atol=_ATOL_1D_FIELD_ANGLE)
-- 
2.43.0


From c0b78c441565a9577153a0358488b04283a4a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:16 +0000
Subject: [PATCH 11/15] fix: unit magnitude of Jones vector fields of complex
 permittivity

---
 src/fmmax/vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 9105271..338f4bf 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -281,7 +281,8 @@ def normalize_jones(field: jnp.ndarray) -> jnp.ndarray:
 
     jx = jnp.exp(1j * theta) * (tx_norm * jnp.cos(phi) - ty_norm * 1j * jnp.sin(phi))
     jy = jnp.exp(1j * theta) * (ty_norm * jnp.cos(phi) + tx_norm * 1j * jnp.sin(phi))
-    return jnp.concatenate([jx, jy], axis=-1)
+    # The field has unit magnitude if `field` is real-valued, but not in general.
+    return normalize_elementwise(jnp.concatenate([jx, jy], axis=-1))
 
 
 def normalize_elementwise(field: jnp.ndarray) -> jnp.ndarray:
-- 
2.43.0


From 2a3870882d107a94dd6249b0765324bc80fb35ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:16 +0000
Subject: [PATCH 12/15] fix: second derivatives of the tangent field loss where
 its argument is zero

---
 src/fmmax/vector.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 338f4bf..dbd797f 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -472,7 +472,7 @@ def _alignment_loss(
     """Compute loss that penalizes differences between `field` and `target_field`."""
     assert elementwise_alignment_loss_weight.ndim == field.ndim
     elementwise_loss = jnp.sum(
-        jnp.abs(field - target_field) ** 2, axis=-1, keepdims=True
+        _abs_squared(field - target_field), axis=-1, keepdims=True
     )
     return jnp.mean(elementwise_alignment_loss_weight * elementwise_loss)
 
@@ -509,7 +509,7 @@ def _fourier_loss(
     area = jnp.abs(jnp.linalg.det(basis_vectors))
 
     kt = jnp.linalg.norm(transverse_wavevectors, axis=-1) * jnp.sqrt(area)
-    return jnp.sum(jnp.abs(fourier_field) ** 2 * kt[..., jnp.newaxis] ** 2)
+    return jnp.sum(_abs_squared(fourier_field) * kt[..., jnp.newaxis] ** 2)
 
 
 def _smoothness_loss(
@@ -517,7 +517,12 @@ def _smoothness_loss(
 ) -> jnp.ndarray:
     """Compute loss associated with smoothness of `field`."""
     grads = _vector_field_forward_difference_gradient(field, basis_vectors)
-    return jnp.mean(jnp.abs(jnp.asarray(grads)) ** 2)
+    return jnp.mean(_abs_squared(jnp.asarray(grads)))
+
+
+def _abs_squared(x: jnp.ndarray) -> jnp.ndarray:
+    """Computes `abs(x)**2` with second derivatives that are correct also at zero."""
+    return jnp.real(x) ** 2 + jnp.imag(x) ** 2
 
 
 # -------------------------------------------------------------------------------------
-- 
2.43.0


From f6d7422389807fe9be5addf8b7cf64789ed445ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:38 +0000
Subject: [PATCH 13/15] fix: direction of propagating modes does not depend on
 rounding errors

---
 src/fmmax/fmm.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/fmm.py b/src/fmmax/fmm.py
index 2bc6245..a9ef586 100644
--- a/src/fmmax/fmm.py
+++ b/src/fmmax/fmm.py
@@ -1120,7 +1120,11 @@ def _validate_and_broadcast(
 
 
 def _select_eigenvalues_sign(eigenvalues: jnp.ndarray) -> jnp.ndarray:
-    """Selects the sign of eigenvalues to have strictly positive imaginary part.
+    """Selects the sign of eigenvalues to have positive imaginary part.
+
+    Eigenvalues that are real to within rounding errors belong to propagating modes.
+    The sign of their imaginary part is not significant, and they are selected to have
+    positive real part.
 
     Args:
         eigenvalues: The eigenvalues whose sign is to be adjusted.
@@ -1128,7 +1132,12 @@ def _select_eigenvalues_sign(eigenvalues: jnp.ndarray) -> jnp.ndarray:
     Returns:
         The eigenvalues with adjusted sign.
     """
-    return jnp.where(jnp.imag(eigenvalues) < 0, -eigenvalues, eigenvalues)
+    squared = eigenvalues**2
+    max_magnitude = jnp.amax(jnp.abs(squared), axis=-1, keepdims=True)
+    tolerance = 10 * jnp.finfo(eigenvalues.dtype).eps * max_magnitude
+    is_real = (jnp.real(squared) > 0) & (jnp.abs(jnp.imag(squared)) <= tolerance)
+    is_negative = jnp.where(is_real, jnp.real(eigenvalues), jnp.imag(eigenvalues)) < 0
+    return jnp.where(is_negative, -eigenvalues, eigenvalues)
 
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 699d32849384753a1068e45de2d0e303003db142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:06 +0000
Subject: [PATCH 14/15] fix: finite lattice gradients of the Fourier loss for
 the zeroth order

---
 src/fmmax/vector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index dbd797f..7db5696 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -508,8 +508,9 @@ def _fourier_loss(
     )
     area = jnp.abs(jnp.linalg.det(basis_vectors))
 
-    kt = jnp.linalg.norm(transverse_wavevectors, axis=-1) * jnp.sqrt(area)
-    return jnp.sum(_abs_squared(fourier_field) * kt[..., jnp.newaxis] ** 2)
+    # The norm is avoided, since its gradient is `nan` for the zeroth order.
+    kt_squared = jnp.sum(transverse_wavevectors**2, axis=-1) * area
+    return jnp.sum(_abs_squared(fourier_field) * kt_squared[..., jnp.newaxis])
 
 
 def _smoothness_loss(
-- 
2.43.0


From 7feda1a90c716db1d883af79dbf0d70af0bde02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:06 +0000
Subject: [PATCH 15/15] fix: nonsingular Newton step of the tangent field of
 uniform arrays

---
 src/fmmax/vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fmmax/vector.py b/src/fmmax/vector.py
index 7db5696..964fe77 100644
--- a/src/fmmax/vector.py
+++ b/src/fmmax/vector.py
@@ -212,14 +212,14 @@ def _compute_tangent_field_no_batch(
     gy = _filter_and_adjust_resolution(grad[..., 1], expansion)
     grad = normalize(jnp.stack([gx, gy], axis=-1))
 
-    elementwise_alignment_weight = _field_magnitude(grad)
-
     # Provide a dummy gradient for the 1D case, which avoids possible nans in the
     # Newton solve below. The tangent vector field will be manually specified.
     is_1d, grad_angle = _is_1d_field(grad)
     dummy_grad = jnp.broadcast_to(jnp.asarray([1, 1], dtype=complex), grad.shape)
     grad = jnp.where(is_1d, dummy_grad, grad)
 
+    elementwise_alignment_weight = _field_magnitude(grad)
+
     # Compute the target field with which the tangent field should be aligned.
     target_field = jnp.stack([grad[..., 1], -grad[..., 0]], axis=-1)
     target_field = normalize_elementwise(target_field)
-- 
2.43.0

