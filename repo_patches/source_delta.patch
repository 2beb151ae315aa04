From 7cca10f903d945b500d6c8636e0f9cdb4a04a13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 01/47] fix: GDM with a batch of symplectic matrices

---
 mrmustard/physics/triples.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index 9cc45cd..23985f4 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -259,14 +259,10 @@ def gdm_state_Abc(betas: ComplexVector, symplectic: RealMatrix):
     """
     batch_shape = symplectic.shape[:-2]
     m = len(betas)
-    betas = math.broadcast_to(betas, (*batch_shape, m), dtype=math.complex128)
+    betas = math.cast(betas, dtype=math.complex128)
     Au = symplectic2Au(symplectic)
-    A_udagger_u = math.block(
-        [
-            [math.conj(Au), math.zeros((2 * m, 2 * m), dtype="complex128")],
-            [math.zeros((2 * m, 2 * m), dtype="complex128"), Au],
-        ],
-    )
+    zeros = math.zeros((*batch_shape, 2 * m, 2 * m), dtype="complex128")
+    A_udagger_u = math.block([[math.conj(Au), zeros], [zeros, Au]])
 
     D = math.diag(math.exp(-betas))
     A_fd = math.block(
@@ -276,7 +272,7 @@ def gdm_state_Abc(betas: ComplexVector, symplectic: RealMatrix):
         ],
     )
     c_fd = math.prod(1 - math.exp(-betas))
-    t_fd = (A_fd, math.zeros((*batch_shape, 2 * m), dtype=A_fd.dtype), c_fd)
+    t_fd = (A_fd, math.zeros((2 * m,), dtype=A_fd.dtype), c_fd)
     c_u = (
         (-1) ** m
         * math.det(Au[..., m:, m:] @ math.conj(Au[..., m:, m:]) - math.eye_like(Au[..., m:, m:]))
-- 
2.43.0


From 9802624085f3d94b7642004dcc8f51ef55dd8524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 02/47] fix: PhaseNoise acts on the wires of its mode and
 leaves its input unchanged

---
 mrmustard/lab/transformations/phasenoise.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/transformations/phasenoise.py b/mrmustard/lab/transformations/phasenoise.py
index 418b08d..cfd5deb 100644
--- a/mrmustard/lab/transformations/phasenoise.py
+++ b/mrmustard/lab/transformations/phasenoise.py
@@ -98,12 +98,14 @@ class PhaseNoise(Channel):
         array = other.fock_array()
         mode_indices = np.indices(other.ansatz.core_shape)
         for mode in self.modes:
+            (bra,) = other.wires.output.bra[mode].indices
+            (ket,) = other.wires.output.ket[mode].indices
             phase_factors = math.exp(
                 -0.5
-                * (mode_indices[mode] - mode_indices[other.n_modes + mode]) ** 2
+                * (mode_indices[bra] - mode_indices[ket]) ** 2
                 * self.parameters.phase_stdev.value**2,
             )
-            array *= phase_factors
+            array = array * phase_factors
         return CircuitComponent._from_attributes(
             ArrayAnsatz(array, batch_dims=other.ansatz.batch_dims),
             other.wires,
-- 
2.43.0


From 3e4b154942f748d6ef8ecaf6f00ba71786e8ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 03/47] fix: nested temporary settings restore the outer values

---
 mrmustard/utils/settings.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/mrmustard/utils/settings.py b/mrmustard/utils/settings.py
index 3183a74..09ecf59 100644
--- a/mrmustard/utils/settings.py
+++ b/mrmustard/utils/settings.py
@@ -27,6 +27,25 @@ from rich import print as rprint
 __all__ = ["settings"]
 
 
+class _TemporarySettings:
+    r"""
+    Context manager that resets the given settings to their original values.
+    """
+
+    def __init__(self, settings: Settings, original_values: dict):
+        self._settings = settings
+        self._original_values = original_values
+
+    def __enter__(self):
+        "context manager enter method"
+        return self._settings
+
+    def __exit__(self, exc_type, exc_value, traceback):
+        "context manager exit method that resets the settings to their original values"
+        for k, v in self._original_values.items():
+            setattr(self._settings, k, v)
+
+
 class Settings:
     r"""
     A class containing various settings that are used by Mr Mustard throughout a session.
@@ -101,7 +120,6 @@ class Settings:
         self.STABLE_FOCK_CONVERSION: bool = False
         r"""Whether to use the ``stable`` function when computing Fock amplitudes (more stable, but slower). Default is ``False``."""
 
-        self._original_values = {}
         self._frozen = True
 
     @property
@@ -145,19 +163,10 @@ class Settings:
         r"""
         Allows for setting multiple settings at once and saving the original values.
         """
-        self._original_values = {k: getattr(self, k) for k in kwargs}
+        original_values = {k: getattr(self, k) for k in kwargs}
         for k, v in kwargs.items():
             setattr(self, k, v)
-        return self
-
-    def __enter__(self):
-        "context manager enter method"
-        return self
-
-    def __exit__(self, exc_type, exc_value, traceback):
-        "context manager exit method that resets the settings to their original values"
-        for k, v in self._original_values.items():
-            setattr(self, k, v)
+        return _TemporarySettings(self, original_values)
 
     # use rich.table to print the settings
     def __repr__(self) -> str:
-- 
2.43.0


From 61f9a79bb381ebb102d53dead302fc163ba6d228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 04/47] fix: Transformation.from_fock takes output and input
 modes in the documented order

---
 mrmustard/lab/transformations/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 4b354dc..346357e 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -103,7 +103,7 @@ class Transformation(CircuitComponent):
         Returns:
             A transformation in the Fock representation.
         """
-        return cls.from_ansatz(modes_in, modes_out, ArrayAnsatz(array, batch_dims), name)
+        return cls.from_ansatz(modes_out, modes_in, ArrayAnsatz(array, batch_dims), name)
 
     @classmethod
     def from_quadrature(
-- 
2.43.0


From 2d79d458e0dcacbf1441a0d35ab63385b9a8f935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:27 +0000
Subject: [PATCH 05/47] fix: XY_to_channel_Abc with a displacement vector

---
 mrmustard/physics/triples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index 23985f4..5f19f85 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -945,7 +945,7 @@ def XY_to_channel_Abc(
     """
     m = Y.shape[-1] // 2
     # considering no displacement if d is None
-    d = d if d else math.zeros(2 * m)
+    d = d if d is not None else math.zeros(2 * m)
 
     if X.shape != Y.shape:
         raise ValueError(
@@ -993,7 +993,7 @@ def XY_to_channel_Abc(
     A = Xm @ R @ xi_inv_in_blocks @ math.conj(R_transpose)
     xi_inv_d = math.einsum("...ij,...j->...i", xi_inv, d)
     x_xi_inv_d = math.einsum("...ij,...jk,...k->...i", X_transpose, xi_inv, d)
-    temp = math.concat([xi_inv_d, x_xi_inv_d], -1)
+    temp = math.concat([xi_inv_d, -x_xi_inv_d], -1)
     b = 1 / math.sqrt(complex(settings.HBAR)) * math.einsum("...ij,...j->...i", math.conj(R), temp)
     sandwiched_xi_inv = math.einsum("...i,...ij,...j->...", d, xi_inv, d)
     c = math.exp(-0.5 / settings.HBAR * sandwiched_xi_inv) / math.sqrt(math.det(xi))
-- 
2.43.0


From e546c5a0301a410e074de36d1f8ce0ec60401981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 06/47] fix: PolyExpAnsatz.contract pairs the indices that
 carry the same label

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 9f5978b..2a122c5 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -378,8 +378,9 @@ class PolyExpAnsatz(Ansatz):
 
         # --- Prepare for complex_gaussian_integral_2 ---  # TODO: finish fixing this
         contracted_core = set(core1) & set(core2)
-        idx1_cv = sorted(core1.index(label) for label in contracted_core)
-        idx2_cv = sorted(core2.index(label) for label in contracted_core)
+        contracted_labels = [label for label in core1 if label in contracted_core]
+        idx1_cv = [core1.index(label) for label in contracted_labels]
+        idx2_cv = [core2.index(label) for label in contracted_labels]
 
         ls_labels = {f"__ls{i}" for i, ls in [(1, ls1), (2, ls2)] if ls}
         unique_batch_labels = set(batch1) | set(batch2) | ls_labels
-- 
2.43.0


From 0d04b622b5584b9ac97d362a88396cfc017b7e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 07/47] fix: product of two linear superpositions with batch or
 polynomial part

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 2a122c5..5e5b98b 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -401,11 +401,12 @@ class PolyExpAnsatz(Ansatz):
 
         # --- Reorder core dimensions ---
         if self._lin_sup and other._lin_sup:
-            batch_shape = self.batch_shape[:-1]
+            batch_shape = tuple(A.shape[:-4])
             flattened = self.batch_shape[-1] * other.batch_shape[-1]
+            derived_shape = tuple(c.shape[len(batch_shape) + 2 :])
             A = math.reshape(A, (*batch_shape, flattened, *tuple(A.shape[-2:])))
             b = math.reshape(b, (*batch_shape, flattened, *tuple(b.shape[-1:])))
-            c = math.reshape(c, (*batch_shape, flattened, *self.shape_derived_vars))
+            c = math.reshape(c, (*batch_shape, flattened, *derived_shape))
 
         result = PolyExpAnsatz(A, b, c, lin_sup=self._lin_sup or other._lin_sup)
         leftover_core = [i for i in idx1 + idx2 if isinstance(i, int) and i not in contracted_core]
@@ -916,7 +917,8 @@ class PolyExpAnsatz(Ansatz):
         if self._lin_sup and other._lin_sup:  # we have two linear superposition dimensions
             As = math.reshape(As, (*As.shape[:-4], As.shape[-4] * As.shape[-3], *As.shape[-2:]))
             bs = math.reshape(bs, (*bs.shape[:-3], bs.shape[-3] * bs.shape[-2], *bs.shape[-1:]))
-            cs = math.reshape(cs, (*cs.shape[:-2], cs.shape[-2] * cs.shape[-1]))
+            derived_shape = self.shape_derived_vars + other.shape_derived_vars
+            cs = math.reshape(cs, (*As.shape[:-2], *derived_shape))
         return PolyExpAnsatz(As, bs, cs, lin_sup=self._lin_sup or other._lin_sup)
 
     def __call__(self: PolyExpAnsatz, *z_inputs: ArrayLike | None) -> Batch[ComplexTensor]:
-- 
2.43.0


From 5b3ef5e085ab6374245a555c7a612399fb609709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 08/47] fix: join_Abc with a batch string that permutes batch
 dimensions

---
 mrmustard/physics/gaussian_integrals.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mrmustard/physics/gaussian_integrals.py b/mrmustard/physics/gaussian_integrals.py
index 6a82964..b8dc30f 100644
--- a/mrmustard/physics/gaussian_integrals.py
+++ b/mrmustard/physics/gaussian_integrals.py
@@ -258,6 +258,16 @@ def join_Abc(
         else:
             broadcast_shape2.append(1)
 
+    # Bring the batch dimensions to the order in which they appear in the output
+    order1 = sorted(range(batch_dim1), key=lambda i: output_str.find(in1[i]))
+    order2 = sorted(range(batch_dim2), key=lambda i: output_str.find(in2[i]))
+    A1 = math.transpose(A1, (*order1, batch_dim1, batch_dim1 + 1))
+    b1 = math.transpose(b1, (*order1, batch_dim1))
+    c1_flat = math.transpose(c1_flat, (*order1, batch_dim1))
+    A2 = math.transpose(A2, (*order2, batch_dim2, batch_dim2 + 1))
+    b2 = math.transpose(b2, (*order2, batch_dim2))
+    c2_flat = math.transpose(c2_flat, (*order2, batch_dim2))
+
     # Broadcast A, b, c to the output batch shape
     A1_new_shape = (*tuple(broadcast_shape1), nA1, mA1)
     A2_new_shape = (*tuple(broadcast_shape2), nA2, mA2)
-- 
2.43.0


From e946a3cf6d2c2f6171d9d321ec16c88c69aaf520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 09/47] fix: PolyExpAnsatz equality compares shapes and does
 not reorder batch elements

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 37 ++++++++++++++++++----
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 5e5b98b..82ec59e 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -978,12 +978,37 @@ class PolyExpAnsatz(Ansatz):
     def __eq__(self, other) -> bool:
         if not isinstance(other, PolyExpAnsatz):
             return False
-        self_A, self_b, self_c = self._order_batch()
-        other_A, other_b, other_c = other._order_batch()
-        return (
-            math.allclose(self_A, other_A, atol=settings.ATOL)
-            and math.allclose(self_b, other_b, atol=settings.ATOL)
-            and math.allclose(self_c, other_c, atol=settings.ATOL)
+        if (
+            self.num_vars != other.num_vars
+            or self.shape_derived_vars != other.shape_derived_vars
+            or (self._lin_sup and other._lin_sup and self.batch_shape[-1] != other.batch_shape[-1])
+        ):
+            return False
+        try:
+            batch_shape = np.broadcast_shapes(self.batch_shape, other.batch_shape)
+        except ValueError:
+            return False
+
+        def equal(triple1, triple2):
+            return all(math.allclose(t1, t2, atol=settings.ATOL) for t1, t2 in zip(triple1, triple2))
+
+        core_shapes = (self.A.shape[-2:], self.b.shape[-1:], self.shape_derived_vars)
+        triple1, triple2 = (
+            tuple(
+                math.broadcast_to(t, batch_shape + tuple(shape))
+                for t, shape in zip(triple, core_shapes)
+            )
+            for triple in (self.triple, other.triple)
+        )
+        if not (self._lin_sup and other._lin_sup):
+            return equal(triple1, triple2)
+        # the order of the terms of a linear superposition is irrelevant
+        return all(
+            equal(
+                PolyExpAnsatz(*(t[i] for t in triple1), lin_sup=True)._order_batch(),
+                PolyExpAnsatz(*(t[i] for t in triple2), lin_sup=True)._order_batch(),
+            )
+            for i in np.ndindex(batch_shape[:-1])
         )
 
     def __mul__(self, other: Scalar | ArrayLike | PolyExpAnsatz) -> PolyExpAnsatz:
-- 
2.43.0


From 32b5f3b8654a3610720ed13318eed0d012176b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 10/47] fix: overlapping wires are refused whatever their
 representation and history

---
 mrmustard/physics/wires.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 8b5d76c..9564aba 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -557,9 +557,14 @@ class Wires:
         If there are overlapping wires (same mode, is_ket, is_out), raises a ValueError.
         Note that the wires are not reindexed nor copied. Use with caution.
         """
-        if ovlp_classical := self._classical_wires & other._classical_wires:
+        # compared by slot: the representation of a wire does not make it a different wire
+        slots = {(c.mode, c.is_out) for c in other._classical_wires}
+        if ovlp_classical := {c for c in self._classical_wires if (c.mode, c.is_out) in slots}:
             raise ValueError(f"Overlapping classical wires {ovlp_classical}.")
-        if ovlp_quantum := self._quantum_wires & other._quantum_wires:
+        slots = {(q.mode, q.is_out, q.is_ket) for q in other._quantum_wires}
+        if ovlp_quantum := {
+            q for q in self._quantum_wires if (q.mode, q.is_out, q.is_ket) in slots
+        }:
             raise ValueError(f"Overlapping quantum wires {ovlp_quantum}.")
         return Wires.from_wires(
             quantum=self._quantum_wires | other._quantum_wires,
-- 
2.43.0


From 54c80aedba14e7387cf08525e967d554dca7ec1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 11/47] fix: permutation of connected wires with classical
 wires or shared ids

---
 mrmustard/physics/wires.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 9564aba..e0c3bf8 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -632,6 +632,9 @@ class Wires:
         Returns:
             The wires of the circuit composition and the permutations.
         """
+        if set(self.ids) & set(other.ids):  # e.g. wires connected with themselves
+            other = other.copy(new_ids=True)
+
         bra_out = other.output.bra + (self.output.bra - other.input.bra)
         ket_out = other.output.ket + (self.output.ket - other.input.ket)
         bra_in = self.input.bra + (other.input.bra - self.output.bra)
@@ -650,10 +653,10 @@ class Wires:
         )
         new_wires._reindex()
 
-        combined = [w for w in self.sorted_wires if w.id in new_wires.ids] + [
-            w for w in other.sorted_wires if w.id in new_wires.ids
-        ]  # NOTE: assumes self and other have different ids
-        perm = [combined.index(w) for w in new_wires.sorted_wires]
+        combined = [w.id for w in self.sorted_wires if w.id in new_wires.ids] + [
+            w.id for w in other.sorted_wires if w.id in new_wires.ids
+        ]
+        perm = [combined.index(w_id) for w_id in new_wires.ids]
         return new_wires, perm
 
     def __repr__(self) -> str:
-- 
2.43.0


From 433ca2e3573932c386f8166f3589b0e70ea9ab98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 12/47] fix: standard order of wires with large mode labels

---
 mrmustard/physics/wires.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index e0c3bf8..47a042b 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -98,12 +98,12 @@ class QuantumWire:
             id=self.id if not new_id else randint(0, 2**32 - 1),
         )
 
-    def _order(self) -> int:
+    def _order(self) -> tuple[int, bool, int]:
         """
         Artificial ordering for sorting quantum wires.
         Order achieved is by bra/ket, then out/in, then mode.
         """
-        return self.mode + 10_000 * (1 - 2 * self.is_out) - 100_000 * (1 - 2 * self.is_ket)
+        return (int(self.is_ket), not self.is_out, self.mode)
 
     def __eq__(self, other: QuantumWire) -> bool:
         return (
@@ -146,12 +146,12 @@ class ClassicalWire:
             id=self.id if not new_id else randint(0, 2**32 - 1),
         )
 
-    def _order(self) -> int:
+    def _order(self) -> tuple[int, bool, int]:
         """
         Artificial ordering for sorting classical wires.
         Order is by out/in, then mode. Classical wires always come after quantum wires.
         """
-        return 1000_000 + self.mode + 10_000 * (1 - 2 * self.is_out)
+        return (2, not self.is_out, self.mode)
 
     def __eq__(self, other: ClassicalWire) -> bool:
         return self.mode == other.mode and self.is_out == other.is_out and self.repr == other.repr
-- 
2.43.0


From dc5b612c85adee9e09a7234691f73eeaf62fb96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 13/47] fix: connected classical wires are contracted

---
 mrmustard/physics/wires.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrmustard/physics/wires.py b/mrmustard/physics/wires.py
index 47a042b..2dd8d70 100644
--- a/mrmustard/physics/wires.py
+++ b/mrmustard/physics/wires.py
@@ -483,6 +483,9 @@ class Wires:
         ovlp_bra, ovlp_ket = self.overlap(other)
         idxA = self.output.bra[ovlp_bra].indices + self.output.ket[ovlp_ket].indices
         idxB = other.input.bra[ovlp_bra].indices + other.input.ket[ovlp_ket].indices
+        ovlp_cl = self.classical.output.modes & other.classical.input.modes
+        idxA += self.classical.output[ovlp_cl].indices
+        idxB += other.classical.input[ovlp_cl].indices
         return idxA, idxB
 
     def contracted_labels(self, other: Wires) -> tuple[list[int], list[int], list[int]]:
-- 
2.43.0


From c152255852eb3bcfdddd02233aacade0d9be9060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:06 +0000
Subject: [PATCH 14/47] fix: sum of functions with different numbers of
 polynomial variables

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 82ec59e..955cb15 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -883,8 +883,11 @@ class PolyExpAnsatz(Ansatz):
         combined_matrices = pad_and_combine_Ab(A_self, A_other)
         combined_vectors = pad_and_combine_Ab(b_self, b_other)
         combined_arrays = pad_and_combine_arrays(
-            math.atleast_nd(c_self, n_derived_vars + 1),
-            math.atleast_nd(c_other, n_derived_vars + 1),
+            math.reshape(c_self, tuple(c_self.shape) + (1,) * (n_derived_vars - self.num_derived_vars)),
+            math.reshape(
+                c_other,
+                tuple(c_other.shape) + (1,) * (n_derived_vars - other.num_derived_vars),
+            ),
         )
         return PolyExpAnsatz(
             combined_matrices,
-- 
2.43.0


From 52ee01594b52c2a6167b41d622951e67a19274af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 15/47] fix: batch strings with permuted labels in eval

---
 mrmustard/physics/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mrmustard/physics/utils.py b/mrmustard/physics/utils.py
index 3ee949c..6e14e09 100644
--- a/mrmustard/physics/utils.py
+++ b/mrmustard/physics/utils.py
@@ -103,6 +103,8 @@ def reshape_args_to_batch_string(
     reshaped = []
     for arg, spec in zip(args, input_specs):
         new_shape = [dim_sizes[label] if label in spec else 1 for label in output_spec]
+        if set(spec) <= set(output_spec):
+            arg = math.transpose(arg, [spec.index(label) for label in output_spec if label in spec])
         reshaped.append(math.reshape(arg, new_shape))
     return reshaped
 
-- 
2.43.0


From ef491eac484f10576e0acb8d57e1c78a67254700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 16/47] fix: array reductions and sums with incomparable shapes

---
 mrmustard/physics/ansatz/array_ansatz.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index bd81263..4226f80 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -263,9 +263,10 @@ class ArrayAnsatz(Ansatz):
             )
             padded = math.pad(
                 self.array,
-                [(0, 0)] * self.batch_dims + [(0, s - t) for s, t in zip(shape, self.core_shape)],
+                [(0, 0)] * self.batch_dims
+                + [(0, max(s - t, 0)) for s, t in zip(shape, self.core_shape)],
             )
-            return ArrayAnsatz(padded, self.batch_dims)
+            return ArrayAnsatz(padded[(..., *tuple(slice(0, s) for s in shape))], self.batch_dims)
 
         return ArrayAnsatz(self.array[(..., *tuple(slice(0, s) for s in shape))], self.batch_dims)
 
@@ -347,18 +348,17 @@ class ArrayAnsatz(Ansatz):
     def __add__(self, other: ArrayAnsatz) -> ArrayAnsatz:
         r"""
         Adds two ArrayAnsatz together. In order to use the __add__ method, the ansatze must have
-        the same batch dimensions. The shape of the core arrays must be such that one can be reduced
-        to the other. Other will be reduced to the shape of self. If you want the opposite use other + self.
+        the same batch dimensions. If the shapes of the core arrays differ, both arrays are padded
+        with zeros to the smallest shape that contains the two of them.
         """
         if self.batch_dims != other.batch_dims:
             raise ValueError("Batch dimensions must match.")
         if self.core_shape != other.core_shape:
-            if math.prod(self.core_shape) > math.prod(other.core_shape):
-                self_array = self.array
-                other_array = other.reduce(self.core_shape).array
-            else:
-                self_array = self.reduce(other.core_shape).array
-                other_array = other.array
+            if self.core_dims != other.core_dims:
+                raise ValueError("The number of core dimensions must match.")
+            shape = tuple(max(s, t) for s, t in zip(self.core_shape, other.core_shape))
+            self_array = self.reduce(shape).array
+            other_array = other.reduce(shape).array
         else:
             self_array = self.array
             other_array = other.array
-- 
2.43.0


From 72b22c8e2fc68faadbecdba5e0b9a0ac3d178c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:40 +0000
Subject: [PATCH 17/47] fix: array trace over no indices

---
 mrmustard/physics/ansatz/array_ansatz.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 4226f80..3fc744b 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -296,6 +296,9 @@ class ArrayAnsatz(Ansatz):
             + [self.batch_dims + i for i in idx_z]
             + [self.batch_dims + i for i in idx_zconj]
         )
+        if len(idx_z) == 0:
+            return ArrayAnsatz(self.array, self.batch_dims)
+
         new_array = math.transpose(self.array, order)
 
         # truncate new_array if the z and zconj dimensions differ
-- 
2.43.0


From 3274c9b203a98302c192ebaa344ca37ad912422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:55 +0000
Subject: [PATCH 18/47] fix: contraction of arrays refuses batches of different
 sizes

---
 mrmustard/physics/ansatz/array_ansatz.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index 3fc744b..cfbeccd 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -214,6 +214,10 @@ class ArrayAnsatz(Ansatz):
             dim2 = array2.shape[pos2]
 
             if dim1 != dim2:
+                if isinstance(label, str):
+                    raise ValueError(
+                        f"The sizes of batch dimension {label} do not match: {dim1} and {dim2}.",
+                    )
                 min_dim = min(dim1, dim2)
                 slices1[pos1] = slice(0, min_dim)
                 slices2[pos2] = slice(0, min_dim)
-- 
2.43.0


From 8bef528ffd75551f5ee34dfab042b576cc2ceb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 19/47] fix: batch of a unitary applied to a ket with bra only
 counted once in >>

---
 mrmustard/lab/circuit_components.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 1dc5938..b0219f3 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -36,7 +36,11 @@ from mrmustard.math.parameters import Variable
 from mrmustard.physics.ansatz import Ansatz, ArrayAnsatz, PolyExpAnsatz
 from mrmustard.physics.fock_utils import oscillator_eigenstate
 from mrmustard.physics.triples import identity_Abc
-from mrmustard.physics.utils import outer_product_batch_str, zip_batch_strings
+from mrmustard.physics.utils import (
+    generate_batch_str,
+    outer_product_batch_str,
+    zip_batch_strings,
+)
 from mrmustard.physics.wires import ReprEnum, Wires
 from mrmustard.utils.typing import (
     Batch,
@@ -1000,7 +1004,11 @@ class CircuitComponent:
         elif self_needs_bra or self_needs_ket:
             ret = self.adjoint.contract(self.contract(other), "zip")
         elif other_needs_bra or other_needs_ket:
-            ret = self.contract(other.adjoint).contract(other)
+            ret = self.contract(other.adjoint)
+            # the batch of ``other`` is already in ``ret``: it must not be paired with itself
+            batch = generate_batch_str(ret.ansatz.batch_dims - ret.ansatz._lin_sup)
+            other_batch = batch[len(batch) - other.ansatz.batch_dims + other.ansatz._lin_sup :]
+            ret = ret.contract(other, f"{batch},{other_batch}->{batch}")
         else:
             msg = f"``>>`` not supported between {self} and {other} because it's not clear "
             msg += "whether or where to add bra wires. Use ``@`` instead and specify all the components."
-- 
2.43.0


From 11bbf0d16a5c8068e3901d75287b176c71d724f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 20/47] fix: tracing out modes of a linear superposition of
 kets

---
 mrmustard/lab/circuit_components_utils/trace_out.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index ab526e0..d57ad42 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -87,7 +87,7 @@ class TraceOut(CircuitComponent):
             ansatz = other.ansatz
             wires = other.wires
         elif not ket or not bra:
-            B = other.ansatz.batch_dims
+            B = other.ansatz.batch_dims - other.ansatz._lin_sup
             C = other.ansatz.core_dims
             batch = [chr(97 + i) for i in range(B)]
             wires = ket + bra
-- 
2.43.0


From 361f199c98e32a11f9b87937c72133366ae401e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 21/47] fix: to_bargmann of a batch of arrays

---
 mrmustard/lab/circuit_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index b0219f3..db58c66 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -680,6 +680,9 @@ class CircuitComponent:
             A, b, c = self.ansatz._original_abc_data
         else:
             A, b, _ = identity_Abc(len(self.wires.quantum))
+            batch_shape = self.ansatz.batch_shape
+            A = math.broadcast_to(A, (*batch_shape, *A.shape))
+            b = math.broadcast_to(b, (*batch_shape, *b.shape))
             c = self.ansatz.data
         ansatz = PolyExpAnsatz(A, b, c)
         wires = self.wires.copy()
-- 
2.43.0


From 9797714d945ecc8e97d5d671fa8a12010740ba4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 22/47] fix: adding components leaves the declared shapes of
 the operands alone

---
 mrmustard/lab/circuit_components.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index db58c66..7f71c23 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -902,7 +902,7 @@ class CircuitComponent:
             return ret
         ansatz = self.ansatz + other.ansatz
         name = self.name if self.name == other.name else ""
-        ret = self._from_attributes(ansatz, self.wires, name)
+        ret = self._from_attributes(ansatz, self.wires.copy(), name)
         ret.manual_shape = tuple(
             max(a, b) if a is not None and b is not None else a or b
             for a, b in zip(self.manual_shape, other.manual_shape)
-- 
2.43.0


From 6981da2e086d8ebcef22f452950c38c3e211cedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 23/47] fix: sum of components of the same family with matrix
 parameters or renamed ones

---
 mrmustard/lab/circuit_components.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 7f71c23..705456c 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -32,7 +32,7 @@ from numpy.typing import ArrayLike
 from mrmustard import math, settings
 from mrmustard import widgets as mmwidgets
 from mrmustard.math.parameter_set import ParameterSet
-from mrmustard.math.parameters import Variable
+from mrmustard.math.parameters import Constant, Variable
 from mrmustard.physics.ansatz import Ansatz, ArrayAnsatz, PolyExpAnsatz
 from mrmustard.physics.fock_utils import oscillator_eigenstate
 from mrmustard.physics.triples import identity_Abc
@@ -874,11 +874,17 @@ class CircuitComponent:
             isinstance(self.ansatz, PolyExpAnsatz)
             and self.ansatz._fn is not None
             and self.ansatz._fn == other.ansatz._fn
+            # stacking the parameters is only possible if each of them is one number per term
+            and all(
+                isinstance(param, Constant | Variable) and param.value.ndim == ansatz.batch_dims
+                for ansatz in (self.ansatz, other.ansatz)
+                for param in ansatz._kwargs.values()
+            )
         ):
             new_params = {}
-            for name in self.ansatz._kwargs:
-                self_param = getattr(self.parameters, name)
-                other_param = getattr(other.parameters, name)
+            for kwarg, self_param in self.ansatz._kwargs.items():
+                other_param = other.ansatz._kwargs[kwarg]
+                name = self_param.name
                 if (self_type := type(self_param)) is not (other_type := type(other_param)):
                     raise ValueError(
                         f"Parameter '{name}' is a {self_type.__name__} for one component and a {other_type.__name__} for the other."
-- 
2.43.0


From 2f1c2e559bfc4e59c00789f88e8555d4f134577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 24/47] fix: quadrature of components on arbitrary mode labels

---
 mrmustard/lab/circuit_components.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 705456c..404caf8 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -591,6 +591,7 @@ class CircuitComponent:
         Returns:
             A circuit component with the given quadrature representation.
         """
+        mode_chr = {mode: chr(97 + i) for i, mode in enumerate(self.modes)}
         if isinstance(self.ansatz, ArrayAnsatz):
             conjugates = [i not in self.wires.ket.indices for i in range(len(self.wires.indices))]
             dims = self.ansatz.core_dims
@@ -616,11 +617,11 @@ class CircuitComponent:
             fock_string = "".join([chr(97 + self.n_modes + dim) for dim in range(dims)])
             q_string = "".join(
                 [
-                    f"{fock_string[idx]}{chr(97 + wire.mode)},"
+                    f"{fock_string[idx]}{mode_chr[wire.mode]},"
                     for idx, wire in enumerate(self.wires)
                 ],
             )[:-1]
-            out_string = "".join([chr(97 + mode) for mode in self.modes])
+            out_string = "".join(mode_chr.values())
             ret = math.einsum(
                 "..." + fock_string + "," + q_string + "->" + out_string + "...",
                 self.ansatz.array,
@@ -629,9 +630,9 @@ class CircuitComponent:
             )
         else:
             batch_str = (
-                "".join([chr(97 + wire.mode) + "," for wire in self.wires])[:-1]
+                "".join([mode_chr[wire.mode] + "," for wire in self.wires])[:-1]
                 + "->"
-                + "".join([chr(97 + mode) for mode in self.modes])
+                + "".join(mode_chr.values())
             )
             ret = self.to_quadrature(phi=phi).ansatz.eval(*quad, batch_string=batch_str)
         batch_shape = (
-- 
2.43.0


From 38d8f185e91495286e8610f346db651947c65ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 25/47] fix: circuits whose parts contract to scalars in any
 order

---
 mrmustard/lab/circuits.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mrmustard/lab/circuits.py b/mrmustard/lab/circuits.py
index edfe3bf..6e6f276 100644
--- a/mrmustard/lab/circuits.py
+++ b/mrmustard/lab/circuits.py
@@ -123,7 +123,14 @@ class Circuit:
 
         ret = dict(enumerate(self.components))
         for idx0, idx1 in self.path:
-            ret[idx0] = ret[idx0] >> ret.pop(idx1)
+            left, right = ret[idx0], ret.pop(idx1)
+            # a part of the circuit with no wires left has been contracted to a (batched) scalar
+            if isinstance(left, CircuitComponent):
+                ret[idx0] = left >> right
+            elif isinstance(right, CircuitComponent):
+                ret[idx0] = right >> left
+            else:
+                ret[idx0] = math.tensordot(left, right, ((), ()))
 
         return next(iter(ret.values()))
 
-- 
2.43.0


From 9993702686afee2f59bf6f4dd0b423c0382ef4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 26/47] fix: contraction paths never merge around a component
 in between

---
 mrmustard/path/branch_and_bound.py | 46 ++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/mrmustard/path/branch_and_bound.py b/mrmustard/path/branch_and_bound.py
index dca86d7..7151b46 100644
--- a/mrmustard/path/branch_and_bound.py
+++ b/mrmustard/path/branch_and_bound.py
@@ -289,6 +289,13 @@ def parse_components(components: list[CircuitComponent]) -> Graph:
     """
     validate_components(components)
     graph = Graph()
+    # pairs of components acting on a common mode: their order in the circuit has to be respected
+    graph.graph["order"] = [
+        (i, j)
+        for i, A in enumerate(components)
+        for j, B in enumerate(components)
+        if i < j and set(A.modes) & set(B.modes)
+    ]
     for i, A in enumerate(components):
         comp = GraphComponent.from_circuitcomponent(A)
         wires = A.wires.copy()
@@ -348,6 +355,38 @@ def contract(graph: Graph, edge: Edge, debug: int = 0) -> Graph:
     return new_graph
 
 
+def contractible_edges(graph: Graph) -> list[Edge]:
+    r"""
+    Returns the edges that can be contracted without changing the order in which components act.
+
+    The two nodes of an edge cannot be merged while a third node has to be applied between them,
+    as it would then have to come both before and after the merged node.
+
+    Args:
+        graph (Graph): A graph.
+
+    Returns:
+        list[tuple[int, int]]: The edges that can be contracted.
+    """
+    merged = {}
+    for a, b in graph.solution:
+        merged[b] = a
+
+    def node(i: int) -> int:
+        while i in merged:
+            i = merged[i]
+        return i
+
+    order = nx.DiGraph(graph.edges)
+    order.add_edges_from((node(i), node(j)) for i, j in graph.graph.get("order", ()))
+    edges = []
+    for A, B in graph.edges:
+        between = {n for n in order.successors(A) if n not in (A, B)}
+        if not any(nx.has_path(order, n, B) for n in between):
+            edges.append((A, B))
+    return edges
+
+
 def children(graph: Graph, cost_bound: int) -> set[Graph]:
     r"""
     Returns a set of graphs obtained by contracting each edge.
@@ -365,7 +404,7 @@ def children(graph: Graph, cost_bound: int) -> set[Graph]:
         set[Graph]: The set of graphs obtained by contracting each edge.
     """
     children_set = set()
-    for edge in sorted(graph.out_edges, key=lambda e: graph.out_edges[e]["cost"]):
+    for edge in sorted(contractible_edges(graph), key=lambda e: graph.edges[e]["cost"]):
         if graph.cost + graph.edges[edge]["cost"] < cost_bound:
             children_set.add(contract(graph, edge))
     return children_set
@@ -426,7 +465,7 @@ def random_solution(graph: Graph) -> Graph:
         Graph: The contracted graph
     """
     while graph.number_of_edges() > 0:
-        edge = random.choice(list(graph.edges))
+        edge = random.choice(contractible_edges(graph))
         graph = contract(graph, edge)
     return graph
 
@@ -448,9 +487,12 @@ def reduce_first(graph: Graph, code: str) -> tuple[Graph, Edge | bool]:
         code: A pattern indicating the type of nodes to contract.
     """
     n, tA, tB = code
+    contractible = set(contractible_edges(graph))
     for node in graph.nodes:
         if int(n) == graph.degree(node):
             for edge in list(graph.out_edges(node)) + list(graph.in_edges(node)):
+                if edge not in contractible:
+                    continue
                 A = graph.nodes[edge[0]]["component"]
                 B = graph.nodes[edge[1]]["component"]
                 if A.ansatz[0] == tA and B.ansatz[0] == tB:
-- 
2.43.0


From 063f7f6266dc6b521d03eab466b805f8376ddd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 27/47] fix: number basis conversion of superpositions and
 derived variables in mm_einsum

---
 mrmustard/physics/mm_einsum.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mrmustard/physics/mm_einsum.py b/mrmustard/physics/mm_einsum.py
index a731e2c..8f65f5c 100644
--- a/mrmustard/physics/mm_einsum.py
+++ b/mrmustard/physics/mm_einsum.py
@@ -286,10 +286,20 @@ def to_fock(ansatz: Ansatz, shape: tuple[int, ...], stable: bool = False) -> Arr
         raise ValueError("Fock space dimension is 0.")
     if isinstance(ansatz, ArrayAnsatz):
         return ansatz.reduce(shape)
-    array = math.hermite_renormalized(*ansatz.triple, shape, stable)
+    A, b, c = ansatz.triple
+    if ansatz.num_derived_vars == 0:
+        array = math.hermite_renormalized(A, b, c, shape, stable)
+    else:
+        ones = math.ones(ansatz.batch_shape, dtype=math.complex128)
+        G = math.hermite_renormalized(A, b, ones, shape + ansatz.shape_derived_vars, stable)
+        G = math.reshape(G, (*ansatz.batch_shape, *shape, -1))
+        cs = math.reshape(c, (*ansatz.batch_shape, *(1,) * len(shape), -1))
+        array = math.sum(G * cs, axis=-1)
+    batch_dims = ansatz.batch_dims
     if ansatz._lin_sup:
-        array = math.sum(array, axis=ansatz.batch_dims)
-    return ArrayAnsatz(array, ansatz.batch_dims)
+        batch_dims -= 1
+        array = math.sum(array, axis=batch_dims)
+    return ArrayAnsatz(array, batch_dims)
 
 
 def to_bargmann(ansatz: Ansatz) -> PolyExpAnsatz:
-- 
2.43.0


From bff0d92cda46cdf46e4ecceaf02d87d594cb51c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:05 +0000
Subject: [PATCH 28/47] fix: batch order of superpositions in mm_einsum

---
 mrmustard/physics/mm_einsum.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrmustard/physics/mm_einsum.py b/mrmustard/physics/mm_einsum.py
index 8f65f5c..077a533 100644
--- a/mrmustard/physics/mm_einsum.py
+++ b/mrmustard/physics/mm_einsum.py
@@ -154,7 +154,10 @@ def mm_einsum(
     output_idx_str, output_idx_int = _strings(output), _ints(output)
 
     if len(output_idx_str) > 1:
-        result = result.reorder_batch([final_idx_str.index(i) for i in output_idx_str])
+        order = [final_idx_str.index(i) for i in output_idx_str]
+        if result._lin_sup:  # the linear superposition axis stays last
+            order.append(len(order))
+        result = result.reorder_batch(order)
     if len(output_idx_int) > 1:
         result = result.reorder([final_idx_int.index(i) for i in output_idx_int])
     if final_idx_int and all(fock_dims.get(i, 1) == 0 for i in final_idx_int):
-- 
2.43.0


From e1d4694276d8da6df66fc2febcad804c69681735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 29/47] fix: TraceOut pairs bra and ket wires in the same mode
 order

---
 mrmustard/lab/circuit_components_utils/trace_out.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/circuit_components_utils/trace_out.py b/mrmustard/lab/circuit_components_utils/trace_out.py
index d57ad42..1ec06cc 100644
--- a/mrmustard/lab/circuit_components_utils/trace_out.py
+++ b/mrmustard/lab/circuit_components_utils/trace_out.py
@@ -102,8 +102,8 @@ class TraceOut(CircuitComponent):
             ansatz = ansatz1.contract(ansatz2, batch + core1, batch + core2, batch + core_out)
             wires, _ = (other.wires.adjoint @ other.wires)[0] @ self.wires
         else:
-            idx_zconj = [bra[m].indices[0] for m in self.wires.modes & bra.modes]
-            idx_z = [ket[m].indices[0] for m in self.wires.modes & ket.modes]
+            idx_zconj = [bra[m].indices[0] for m in sorted(self.wires.modes & bra.modes)]
+            idx_z = [ket[m].indices[0] for m in sorted(self.wires.modes & ket.modes)]
             ansatz = other.ansatz.trace(idx_z, idx_zconj)
             wires, _ = other.wires @ self.wires
 
-- 
2.43.0


From 3721eec5ebc430156b32d7e3d28dfb6008ab638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 30/47] fix: fock_distribution of density matrices and
 superpositions

---
 mrmustard/lab/states/base.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/mrmustard/lab/states/base.py b/mrmustard/lab/states/base.py
index 533d3d7..534b475 100644
--- a/mrmustard/lab/states/base.py
+++ b/mrmustard/lab/states/base.py
@@ -19,7 +19,6 @@ from __future__ import annotations
 from abc import abstractmethod
 from collections.abc import Sequence
 from enum import Enum
-from itertools import product
 
 import numpy as np
 import plotly.graph_objects as go
@@ -453,18 +452,16 @@ class State(CircuitComponent):
         Returns:
             The Fock distribution.
         """
-        batch_shape = self.ansatz.batch_shape
-        batch_dim = self.ansatz.batch_dims
         fock_array = self.fock_array(cutoff)
+        batch_shape = self.ansatz.batch_shape
+        if self.ansatz._lin_sup:
+            batch_shape = batch_shape[:-1]
         if not self.wires.ket or not self.wires.bra:
             return math.reshape(math.abs(fock_array) ** 2, (*batch_shape, -1))
-        n_modes = self.n_modes
-        if self.is_separable:
-            for i in range(n_modes):
-                fock_array = math.diagonal(fock_array, axis1=-n_modes - 1, axis2=-(1 + i))
-            return math.reshape(math.abs(fock_array), (*batch_shape, -1))
-        indices_list = [(...,) + ns * 2 for ns in product(list(range(cutoff)), repeat=n_modes)]
-        return math.stack([fock_array[indices] for indices in indices_list], axis=batch_dim)
+        # the diagonal: bra and ket indices of each mode take the same value
+        modes_str = "".join(chr(97 + i) for i in range(self.n_modes))
+        diagonal = math.einsum(f"...{modes_str}{modes_str}->...{modes_str}", fock_array)
+        return math.reshape(math.abs(diagonal), (*batch_shape, -1))
 
     @abstractmethod
     def formal_stellar_decomposition(
-- 
2.43.0


From 561920f1df53676db653f7f090fa407f2c9a7cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 31/47] fix: DM.expectation of a ket uses the ket's cutoff on
 both sides

---
 mrmustard/lab/states/dm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index 5cdcfcc..0f73e01 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -304,7 +304,10 @@ class DM(State):
             # want to make sure that only the operator modes use shape lookahead
             # for efficiency
             for m in operator.modes:
-                for idx1, idx2 in zip(self.wires[m].indices, operator.wires[m].indices):
+                operator_indices = operator.wires[m].indices
+                if op_type is OperatorType.KET_LIKE:  # contracted with both bra and ket wires
+                    operator_indices = operator_indices * 2
+                for idx1, idx2 in zip(self.wires[m].indices, operator_indices):
                     max_shape = max(self_shape[idx1], operator_shape[idx2])
                     self_shape[idx1] = max_shape
                     operator_shape[idx2] = max_shape
-- 
2.43.0


From 4ad792d6db8e0f00e6caaedb1e196450f8983d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 32/47] fix: Ket.expectation with a custom batch string pairs
 both sides alike

---
 mrmustard/lab/states/ket.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/states/ket.py b/mrmustard/lab/states/ket.py
index 593b7b3..dcf7561 100644
--- a/mrmustard/lab/states/ket.py
+++ b/mrmustard/lab/states/ket.py
@@ -309,17 +309,26 @@ class Ket(State):
         else:
             self_rep = self
             operator_rep = operator
+        # a custom mode also determines how the other side of this state is paired with the result
+        if mode in ("zip", "kron"):
+            self_result = result_self = "zip"
+        else:
+            batch_in, batch_out = mode.split("->")
+            batch1, _ = batch_in.split(",")
+            self_result = f"{batch1},{batch_out}->{batch_out}"
+            result_self = f"{batch_out},{batch1}->{batch_out}"
+
         if op_type is OperatorType.KET_LIKE:
             result = self_rep.contract(operator_rep.dual, mode=mode)
             result = result.contract(result.adjoint, mode="zip") >> TraceOut(leftover_modes)
         elif op_type is OperatorType.DM_LIKE:
             result = self_rep.adjoint.contract(
                 self_rep.contract(operator_rep.dual, mode=mode),
-                mode="zip",
+                mode=self_result,
             ) >> TraceOut(leftover_modes)
         else:
             result = (self_rep.contract(operator_rep, mode=mode)).contract(
-                self_rep.dual, mode="zip"
+                self_rep.dual, mode=result_self
             )
             result = result >> TraceOut(result.modes)
         return result
-- 
2.43.0


From 0b64a4929c4d1a94b5843113e714a9325ac91866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 33/47] fix: tensor_int_cache depends on settings.HBAR

---
 mrmustard/math/caching.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mrmustard/math/caching.py b/mrmustard/math/caching.py
index 9f74b94..1dd73dc 100644
--- a/mrmustard/math/caching.py
+++ b/mrmustard/math/caching.py
@@ -19,6 +19,7 @@ from functools import lru_cache, wraps
 import numpy as np
 
 from mrmustard.math.backend_manager import BackendManager
+from mrmustard.utils.settings import settings
 
 math = BackendManager()
 
@@ -29,16 +30,16 @@ def tensor_int_cache(fn):
 
     To do so the input vector (non-hashable) is converted into a numpy array (non-hashable)
     and then into a tuple (hashable). This tuple is used by ``functools.lru_cache`` to cache
-    the result."""
+    the result, together with the value of ``settings.HBAR`` that the function may depend on."""
 
     @lru_cache
-    def cached_wrapper(hashable_array, cutoff):
+    def cached_wrapper(hashable_array, cutoff, _hbar):
         array = np.array(hashable_array, dtype=np.float64)
         return fn(array, cutoff)
 
     @wraps(fn)
     def wrapper(tensor, cutoff):
-        return cached_wrapper(tuple(math.asnumpy(tensor)), cutoff)
+        return cached_wrapper(tuple(math.asnumpy(tensor)), cutoff, settings.HBAR)
 
     # copy lru_cache attributes over too
     wrapper.cache_info = cached_wrapper.cache_info
-- 
2.43.0


From a3c3851ef1ef865e737b677594ed8d7f00d2fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 34/47] fix: autoshape_numba uses the right neighbours of
 diagonal pivots

---
 mrmustard/math/lattice/autoshape.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mrmustard/math/lattice/autoshape.py b/mrmustard/math/lattice/autoshape.py
index 4c3ac97..88699f5 100644
--- a/mrmustard/math/lattice/autoshape.py
+++ b/mrmustard/math/lattice/autoshape.py
@@ -132,7 +132,9 @@ def autoshape_numba(A, b, c, max_prob, max_shape, min_shape) -> int:  # pragma:
         norm = np.abs(c_)
         k = 0
         while norm < max_prob and k < max_shape:
-            buf2[(k + 1) % 2] = (b_ * buf3[k % 2, 1] + A_ @ buf2[k % 2] * SQRT[k]) / SQRT[k + 1]
+            # the lower neighbours of the pivot (k,k) are (k-1,k) and (k,k-1), in this order
+            lower = np.array([buf2[k % 2, 1], buf2[k % 2, 0]])
+            buf2[(k + 1) % 2] = (b_ * buf3[k % 2, 1] + A_ @ lower * SQRT[k]) / SQRT[k + 1]
             buf3[(k + 1) % 2, 0] = (
                 b_[0] * buf2[(k + 1) % 2, 0]
                 + A_[0, 0] * buf3[k % 2, 1] * SQRT[k + 1]
-- 
2.43.0


From 4835e6d60f59d65461abe40aeb9568fa78da179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 35/47] fix: symplectic eigenvalues and entropy of batched
 covariances

---
 mrmustard/physics/gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/gaussian.py b/mrmustard/physics/gaussian.py
index 943e4f7..6d38ad5 100644
--- a/mrmustard/physics/gaussian.py
+++ b/mrmustard/physics/gaussian.py
@@ -69,7 +69,7 @@ def symplectic_eigenvals(cov: Matrix) -> Vector:
     M = math.matmul(1j * J, cov * (2 / settings.HBAR))
     vals = math.abs(math.eigvals(M))  # compute the eigenspectrum
     vals = math.sort(vals)
-    return vals[::2]  # return the even eigenvalues
+    return vals[..., ::2]  # return the even eigenvalues
 
 
 def von_neumann_entropy(cov: Matrix) -> float:
@@ -90,7 +90,7 @@ def von_neumann_entropy(cov: Matrix) -> float:
         return math.xlogy((x + 1) / 2, (x + 1) / 2) - math.xlogy((x - 1) / 2, (x - 1) / 2 + 1e-9)
 
     symp_vals = symplectic_eigenvals(cov)
-    return math.sum(g(symp_vals))
+    return math.sum(g(symp_vals), axis=-1)
 
 
 def fidelity(mu1: Vector, cov1: Matrix, mu2: Vector, cov2: Matrix) -> float:
-- 
2.43.0


From 76832cf00abd300cd641279b7692a39b41c8bac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 36/47] fix: PolyExpAnsatz.PS transforms b with the transpose
 of the rotation

---
 mrmustard/physics/ansatz/polyexp_ansatz.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index 955cb15..caf5ce5 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -221,7 +221,7 @@ class PolyExpAnsatz(Ansatz):
             W = math.conj(math.rotmat(n // 2)) / math.sqrt(settings.HBAR, dtype=math.complex128)
 
             A = math.einsum("ji,...jk,kl->...il", W, self.A, W)
-            b = math.einsum("ij,...j->...i", W, self.b)
+            b = math.einsum("ji,...j->...i", W, self.b)
             c = self.c / (2 * settings.HBAR) ** (n // 2)
             return PolyExpAnsatz(A, b, c, lin_sup=self._lin_sup)
 
@@ -236,7 +236,7 @@ class PolyExpAnsatz(Ansatz):
         W = math.conj(math.rotmat(n // 2)) / math.sqrt(settings.HBAR, dtype=math.complex128)
 
         A = math.einsum("ji,...jk,kl->...il", W, A_tmp, W)
-        b = math.einsum("ij,...j->...i", W, b)
+        b = math.einsum("ji,...j->...i", W, b)
         c = c / (2 * settings.HBAR)
 
         A_final = A[..., [0, 2, 1, 3], :][..., :, [0, 2, 1, 3]]
-- 
2.43.0


From b2a554d3fc6a257f60e2cfc9b10c89296cd2f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 37/47] fix: c_in_PS handles non-square and batched polynomial
 coefficients

---
 mrmustard/physics/fock_utils.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/mrmustard/physics/fock_utils.py b/mrmustard/physics/fock_utils.py
index a6dcf81..76e5d45 100644
--- a/mrmustard/physics/fock_utils.py
+++ b/mrmustard/physics/fock_utils.py
@@ -287,20 +287,21 @@ def gamma_matrix(c):
     """
     helper function for ``c_in_PS`.
     constructs the matrix transformation that helps transforming ``c``.
-    ``c`` here must be 2-dimensional.
+    ``c`` here must be 2-dimensional, up to batch dimensions on the left.
     """
-    M = c.shape[0] + c.shape[1] - 1
-    Gamma = np.zeros((M**2, c.shape[0] * c.shape[1]), dtype=np.complex128)
+    shape = c.shape[-2:]
+    M = shape[0] + shape[1] - 1
+    Gamma = np.zeros((M**2, shape[0] * shape[1]), dtype=np.complex128)
 
-    for m in range(c.shape[0]):
-        for n in range(c.shape[1]):
+    for m in range(shape[0]):
+        for n in range(shape[1]):
             for alpha in range(m + n + 1):
                 factor = math.sqrt(
                     factorial(m) * factorial(n) / (factorial(alpha) * factorial(m + n - alpha)),
                 )
                 value = c_ps_matrix(m, n, alpha) * math.sqrt(settings.HBAR / 2) ** (m + n)
                 row = alpha * M + (m + n - alpha)
-                col = m * c.shape[0] + n
+                col = m * shape[1] + n
                 Gamma[row, col] = value / factor
     return Gamma
 
@@ -311,7 +312,12 @@ def c_in_PS(c):
     It is a helper function used in
 
     Args:
-        c (Tensor): the 2-dimensional ``c`` matrix of the ``DM`` object
+        c (Tensor): the (batch of) 2-dimensional ``c`` matrix of the ``DM`` object
     """
-    M = c.shape[0] + c.shape[1] - 1
-    return np.reshape(gamma_matrix(c) @ np.reshape(c, (c.shape[0] * c.shape[1], 1)), (M, M))
+    *batch_shape, rows, cols = c.shape
+    M = rows + cols - 1
+    flat_c = math.reshape(c, (*batch_shape, rows * cols))
+    return math.reshape(
+        math.einsum("ij,...j->...i", math.astensor(gamma_matrix(c)), flat_c),
+        (*batch_shape, M, M),
+    )
-- 
2.43.0


From befb389be5192628dd579e105ade777dce12dee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 38/47] fix: clenshaw Wigner function of a cutoff-1 density
 matrix

---
 mrmustard/physics/wigner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mrmustard/physics/wigner.py b/mrmustard/physics/wigner.py
index 073ca31..22f1770 100644
--- a/mrmustard/physics/wigner.py
+++ b/mrmustard/physics/wigner.py
@@ -130,8 +130,8 @@ def _wigner_discretized_clenshaw(rho, q_vec, p_vec, hbar):  # pragma: no cover
     B = np.abs(A)
     B *= B
 
-    w0 = (2 * rho[0, -1]) * np.ones_like(A)
     rho2 = rho * (2 * np.ones((cutoff, cutoff)) - np.diag(np.ones(cutoff)))
+    w0 = rho2[0, -1] * np.ones_like(A)
 
     L = cutoff - 1
     for j in range(1, cutoff):
-- 
2.43.0


From 95d8cd4a14ec923a0d5c60c94d0ce80d08d7456d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 39/47] fix: State.wigner is mirrored in p

---
 mrmustard/lab/states/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mrmustard/lab/states/base.py b/mrmustard/lab/states/base.py
index 534b475..83617ec 100644
--- a/mrmustard/lab/states/base.py
+++ b/mrmustard/lab/states/base.py
@@ -187,7 +187,10 @@ class State(CircuitComponent):
             >>> assert np.all(state.wigner(x,0).real >= 0)
         """
         if isinstance(self.ansatz, PolyExpAnsatz):
-            return (self >> BtoPS(self.modes, s=0)).ansatz.PS
+            ps = self >> BtoPS(self.modes, s=0)
+            # the bra variable of ``ps`` is the complex amplitude and the ket variable is its
+            # conjugate, whereas ``PS`` expects the conjugate first
+            return ps.ansatz.reorder(ps.wires.ket.indices + ps.wires.bra.indices).PS
         raise ValueError(
             "Wigner ansatz not implemented for Fock states. Consider calling ``.to_bargmann()`` first.",
         )
-- 
2.43.0


From f16a60d3e9132b9e1d9614ae670c7fff9b0e9c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 40/47] fix: Variable.orthogonal/symplectic/unitary accept
 array values

---
 mrmustard/math/parameters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/math/parameters.py b/mrmustard/math/parameters.py
index 59a1b58..0898c61 100644
--- a/mrmustard/math/parameters.py
+++ b/mrmustard/math/parameters.py
@@ -265,7 +265,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for orthogonal optimization.
         """
-        value = value or math.random_orthogonal(N)
+        value = value if value is not None else math.random_orthogonal(N)
         return Variable(value, name, bounds, "update_orthogonal")
 
     @staticmethod
@@ -289,7 +289,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for simplectic optimization.
         """
-        value = value or math.random_symplectic(N)
+        value = value if value is not None else math.random_symplectic(N)
         return Variable(value, name, bounds, "update_symplectic")
 
     @staticmethod
@@ -313,7 +313,7 @@ class Variable:
         Returns:
             A variable with ``update_fn`` for unitary optimization.
         """
-        value = value or math.random_unitary(N)
+        value = value if value is not None else math.random_unitary(N)
         return Variable(value, name, bounds, "update_unitary")
 
     def _tree_flatten(self):  # pragma: no cover
-- 
2.43.0


From 7a5ecb208ad2ef39d7e7f2a49a0502ab9fc83da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 41/47] fix: flattening a component keeps its static arguments
 and attributes

---
 mrmustard/lab/circuit_components.py          |  4 +++-
 mrmustard/lab/states/vacuum.py               | 10 ----------
 mrmustard/lab/transformations/fockdamping.py |  1 -
 mrmustard/physics/ansatz/array_ansatz.py     |  4 +++-
 mrmustard/physics/ansatz/base.py             | 10 +++++++++-
 mrmustard/physics/ansatz/polyexp_ansatz.py   |  4 +++-
 mrmustard/physics/triples.py                 |  8 ++++----
 7 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 404caf8..16fe6f2 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -369,7 +369,9 @@ class CircuitComponent:
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
         ret._parameters, ret._ansatz = children
-        ret._wires, ret._name = aux_data
+        ret.__dict__.update(aux_data)
+        if ret.ansatz is None:
+            return ret
 
         # make sure the ansatz parameters match the parameter set
         for param_name, param in ret.ansatz._kwargs.items():
diff --git a/mrmustard/lab/states/vacuum.py b/mrmustard/lab/states/vacuum.py
index 433a45d..531a843 100644
--- a/mrmustard/lab/states/vacuum.py
+++ b/mrmustard/lab/states/vacuum.py
@@ -71,16 +71,6 @@ class Vacuum(Ket):
 
         self.manual_shape = (1,) * len(modes)
 
-    @classmethod
-    def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
-        (modes,) = aux_data
-        return cls(modes)
-
-    def _tree_flatten(self):  # pragma: no cover
-        children = ()
-        aux_data = (self.modes,)
-        return (children, aux_data)
-
     def __getitem__(self, idx: int | Collection[int]) -> Vacuum:
         idx = (idx,) if isinstance(idx, int) else idx
         if not set(idx).issubset(set(self.modes)):
diff --git a/mrmustard/lab/transformations/fockdamping.py b/mrmustard/lab/transformations/fockdamping.py
index b0aebf7..fade9bc 100644
--- a/mrmustard/lab/transformations/fockdamping.py
+++ b/mrmustard/lab/transformations/fockdamping.py
@@ -82,7 +82,6 @@ class FockDamping(Operation):
                 damping,
                 "damping",
                 damping_bounds,
-                None,
                 dtype=math.float64,
             ),
         )
diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index cfbeccd..c222609 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -145,8 +145,9 @@ class ArrayAnsatz(Ansatz):
     @classmethod
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
-        (ret._kwargs,) = children
+        (parameters,) = children
         (
+            ret._static_kwargs,
             ret._batch_shape,
             ret._lin_sup,
             ret._fn,
@@ -154,6 +155,7 @@ class ArrayAnsatz(Ansatz):
             ret._original_abc_data,
             ret._batch_dims,
         ) = aux_data
+        ret._kwargs = parameters | ret._static_kwargs
         return ret
 
     def contract(
diff --git a/mrmustard/physics/ansatz/base.py b/mrmustard/physics/ansatz/base.py
index d207d55..e548ab5 100644
--- a/mrmustard/physics/ansatz/base.py
+++ b/mrmustard/physics/ansatz/base.py
@@ -24,6 +24,7 @@ from typing import Any
 
 from numpy.typing import ArrayLike
 
+from mrmustard.math.parameters import Constant, Variable
 from mrmustard.utils.typing import (
     Batch,
     ComplexMatrix,
@@ -47,6 +48,7 @@ class Ansatz(ABC):
         self._batch_shape = ()
         self._fn = None
         self._kwargs = {}
+        self._static_kwargs = None
 
     @property
     @abstractmethod
@@ -195,8 +197,14 @@ class Ansatz(ABC):
         """
 
     def _tree_flatten(self):  # pragma: no cover
-        children = (self._kwargs,)
+        static = self._static_kwargs
+        if static is None:  # only the parameters are dynamic, e.g. the number of modes is not
+            static = {
+                k: v for k, v in self._kwargs.items() if not isinstance(v, Constant | Variable)
+            }
+        children = ({k: v for k, v in self._kwargs.items() if k not in static},)
         aux_data = (
+            static,
             self._batch_shape,
             self._lin_sup,
             self._fn,
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index caf5ce5..d9f338b 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -290,8 +290,9 @@ class PolyExpAnsatz(Ansatz):
     @classmethod
     def _tree_unflatten(cls, aux_data, children):  # pragma: no cover
         ret = cls.__new__(cls)
-        (ret._kwargs,) = children
+        (parameters,) = children
         (
+            ret._static_kwargs,
             ret._batch_shape,
             ret._lin_sup,
             ret._fn,
@@ -301,6 +302,7 @@ class PolyExpAnsatz(Ansatz):
             ret._simplified,
             ret.name,
         ) = aux_data
+        ret._kwargs = parameters | ret._static_kwargs
         return ret
 
     def contract(
diff --git a/mrmustard/physics/triples.py b/mrmustard/physics/triples.py
index 5f19f85..81d3185 100644
--- a/mrmustard/physics/triples.py
+++ b/mrmustard/physics/triples.py
@@ -298,7 +298,7 @@ def sauron_state_Abc(n: int, epsilon: float) -> tuple[ComplexMatrix, ComplexVect
     Returns:
         The ``(A, b, c)`` triple of the sauron state.
     """
-
+    n = int(n)
     phases = np.linspace(0, 2 * np.pi * (1 - 1 / (n + 1)), n + 1)
     cs = np.exp(1j * phases)
     bs = (epsilon * cs)[..., None]
@@ -306,13 +306,13 @@ def sauron_state_Abc(n: int, epsilon: float) -> tuple[ComplexMatrix, ComplexVect
 
     # normalization
     probs = complex_gaussian_integral_2(
-        (np.conj(As), np.conj(bs), np.conj(cs)),
+        (math.conj(As), math.conj(bs), math.conj(cs)),
         (As, bs, cs),
         [0],
         [0],
     )[2]
-    prob = np.sum(probs)
-    cs /= np.sqrt(prob)
+    prob = math.sum(probs)
+    cs = cs / math.sqrt(prob)
 
     return As, bs, cs
 
-- 
2.43.0


From 7fec7b8fa62e97db94b390a2aa7069711c713916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 42/47] fix: to_fock and to_bargmann keep the arguments of
 built-in components

---
 mrmustard/lab/circuit_components.py     | 14 ++++++++++++--
 mrmustard/lab/transformations/mzgate.py |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 16fe6f2..4bcc5c2 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -695,7 +695,7 @@ class CircuitComponent:
         cls = type(self)
         params = signature(cls).parameters
         if "mode" in params or "modes" in params:
-            ret = self.__class__(self.modes, **self.parameters.to_dict())
+            ret = self.__class__(self.modes, **self._init_kwargs())
             ret._ansatz = ansatz
             ret._wires = wires
         else:
@@ -742,7 +742,7 @@ class CircuitComponent:
         cls = type(self)
         params = signature(cls).parameters
         if "mode" in params or "modes" in params:
-            ret = self.__class__(self.modes, **self.parameters.to_dict())
+            ret = self.__class__(self.modes, **self._init_kwargs())
             ret._ansatz = fock
             ret._wires = wires
         else:
@@ -804,6 +804,16 @@ class CircuitComponent:
             raise ValueError(f"Expected Fock shape of length {num_vars}, got {len(shape)}")
         return shape
 
+    def _init_kwargs(self) -> dict[str, Any]:
+        r"""
+        The keyword arguments that, along with the modes, initialize a component of the same
+        built-in class with the same parameters as this one.
+        """
+        params = signature(type(self)).parameters
+        kwargs = {k: v for k, v in self.parameters.to_dict().items() if k in params}
+        # the arguments that are not parameters are stored as private attributes
+        return kwargs | {k[1:]: v for k, v in self.__dict__.items() if k[1:] in params}
+
     def _light_copy(self, wires: Wires | None = None) -> CircuitComponent:
         r"""
         Creates a "light" copy of this component by referencing its __dict__, except for the wires,
diff --git a/mrmustard/lab/transformations/mzgate.py b/mrmustard/lab/transformations/mzgate.py
index 33ea3dd..2997e8c 100644
--- a/mrmustard/lab/transformations/mzgate.py
+++ b/mrmustard/lab/transformations/mzgate.py
@@ -73,6 +73,7 @@ class MZgate(Unitary):
         internal: bool = False,
     ):
         super().__init__(name="MZgate")
+        self._internal = internal
         self.parameters.add_parameter(
             make_parameter(phi_a_trainable, phi_a, "phi_a", phi_a_bounds, dtype=math.float64)
         )
-- 
2.43.0


From a74ae89fb28957681d0aacfbe3ddd0ccb6891ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 43/47] fix: serialization keeps mode order, representation,
 bounds and superpositions

---
 mrmustard/lab/circuit_components.py        | 34 ++++++++++++----------
 mrmustard/lab/circuits.py                  |  3 +-
 mrmustard/physics/ansatz/array_ansatz.py   |  2 +-
 mrmustard/physics/ansatz/polyexp_ansatz.py |  7 +++--
 4 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/mrmustard/lab/circuit_components.py b/mrmustard/lab/circuit_components.py
index 4bcc5c2..cd658d4 100644
--- a/mrmustard/lab/circuit_components.py
+++ b/mrmustard/lab/circuit_components.py
@@ -324,11 +324,14 @@ class CircuitComponent:
             ansatz_cls, wires, name = map(data.pop, ["ansatz_cls", "wires", "name"])
             ansatz = locate(ansatz_cls).from_dict(data)
             return cls._from_attributes(ansatz, Wires(*tuple(set(m) for m in wires)), name=name)
-        if "modes" in data:
-            data["modes"] = tuple(data["modes"])
-        elif "mode" in data:
-            data["mode"] = tuple(data["mode"])
-        return cls(**data)
+        fock_shape = data.pop("fock_shape", None)
+        for k, v in data.items():
+            if k in ("mode", "modes") or k.endswith("_bounds"):
+                data[k] = tuple(v)
+        ret = cls(**data)
+        if fock_shape is not None:
+            return ret.to_fock(tuple(fock_shape))
+        return ret.to_bargmann() if isinstance(ret.ansatz, ArrayAnsatz) else ret
 
     @classmethod
     def _from_attributes(
@@ -857,24 +860,25 @@ class CircuitComponent:
 
         # handle modes parameter
         if "modes" in params:
-            serializable["modes"] = tuple(self.wires.modes)
+            serializable["modes"] = tuple(self.modes)
         elif "mode" in params:
-            serializable["mode"] = tuple(self.wires.modes)
+            serializable["mode"] = tuple(self.modes)
         else:
             raise TypeError(f"{cls.__name__} does not seem to have any wires construction method")
 
-        if self.parameters:
-            for k, v in self.parameters.variables.items():
-                serializable[f"{k}_bounds"] = v.bounds
-                serializable[f"{k}_trainable"] = True
-            return serializable, {k: v.value for k, v in self.parameters.all_parameters.items()}
+        if isinstance(self.ansatz, ArrayAnsatz):
+            serializable["fock_shape"] = tuple(int(s) for s in self.ansatz.core_shape)
 
-        return serializable, {}
+        arrays = {k: v.value for k, v in self.parameters.all_parameters.items()}
+        serializable |= {k: v for k, v in self._init_kwargs().items() if k not in arrays}
+        return serializable, arrays
 
     def _tree_flatten(self):  # pragma: no cover
         children = (self.parameters, self.ansatz)
-        aux_data = (self.wires, self.name)
-        return (children, aux_data)
+        attributes = {
+            k: v for k, v in self.__dict__.items() if k not in ("_parameters", "_ansatz")
+        }
+        return (children, attributes)
 
     def __add__(self, other: CircuitComponent) -> CircuitComponent:
         r"""
diff --git a/mrmustard/lab/circuits.py b/mrmustard/lab/circuits.py
index 6e6f276..099ba02 100644
--- a/mrmustard/lab/circuits.py
+++ b/mrmustard/lab/circuits.py
@@ -279,7 +279,8 @@ class Circuit:
         Args:
             filestem: An optional name to give the resulting file saved to disk.
         """
-        components, data = list(zip(*[c._serialize() for c in self.components]))
+        serialized = [c._serialize() for c in self.components]
+        components, data = zip(*serialized) if serialized else ((), ())
         kwargs = {
             "arrays": {f"{k}:{i}": v for i, arrs in enumerate(data) for k, v in arrs.items()},
             "path": self.path,
diff --git a/mrmustard/physics/ansatz/array_ansatz.py b/mrmustard/physics/ansatz/array_ansatz.py
index c222609..9eeeb78 100644
--- a/mrmustard/physics/ansatz/array_ansatz.py
+++ b/mrmustard/physics/ansatz/array_ansatz.py
@@ -133,7 +133,7 @@ class ArrayAnsatz(Ansatz):
 
     @classmethod
     def from_dict(cls, data: dict[str, ArrayLike]) -> ArrayAnsatz:
-        return cls(**data)
+        return cls(data["array"], batch_dims=int(data["batch_dims"]))
 
     @classmethod
     def from_function(cls, fn: Callable, batch_dims: int = 0, **kwargs: Any) -> ArrayAnsatz:
diff --git a/mrmustard/physics/ansatz/polyexp_ansatz.py b/mrmustard/physics/ansatz/polyexp_ansatz.py
index d9f338b..9f49832 100644
--- a/mrmustard/physics/ansatz/polyexp_ansatz.py
+++ b/mrmustard/physics/ansatz/polyexp_ansatz.py
@@ -274,7 +274,9 @@ class PolyExpAnsatz(Ansatz):
     @classmethod
     def from_dict(cls, data: dict[str, ArrayLike]) -> PolyExpAnsatz:
         r"""Creates an ansatz from a dictionary. For deserialization purposes."""
-        return cls(**data)
+        data = dict(data)
+        lin_sup = bool(data.pop("lin_sup", False))
+        return cls(**data, lin_sup=lin_sup)
 
     @classmethod
     def from_function(cls, fn: Callable, **kwargs: Any) -> PolyExpAnsatz:
@@ -585,7 +587,8 @@ class PolyExpAnsatz(Ansatz):
 
     def to_dict(self) -> dict[str, ArrayLike]:
         r"""Returns a dictionary representation of the ansatz. For serialization purposes."""
-        return {"A": self.A, "b": self.b, "c": self.c}
+        lin_sup = {"lin_sup": True} if self._lin_sup else {}
+        return {"A": self.A, "b": self.b, "c": self.c} | lin_sup
 
     def trace(self, idx_z: tuple[int, ...], idx_zconj: tuple[int, ...], measure: float = -1.0):
         r"""
-- 
2.43.0


From 5cab0d509db01ae52dea3e7d129665db37a0094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 44/47] fix: Ket.physical_stellar_decomposition for displaced
 or unsqueezed core modes

---
 mrmustard/lab/states/ket.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mrmustard/lab/states/ket.py b/mrmustard/lab/states/ket.py
index dcf7561..8892424 100644
--- a/mrmustard/lab/states/ket.py
+++ b/mrmustard/lab/states/ket.py
@@ -496,9 +496,9 @@ class Ket(State):
         bu_in = -math.einsum(
             "...ij,...jk,...k->...i",
             math.conj(Am),
-            gamma_inv_T,
+            gamma_inv,
             bm,
-        ) - math.einsum("...ij,...j->...i", gamma_inv, math.conj(bm))
+        ) - math.einsum("...ij,...j->...i", gamma_inv_T, math.conj(bm))
         bu = math.concat([bm, bu_in], -1)
         cu = math.ones(batch_shape, dtype=math.complex128)
         U = Unitary.from_bargmann(core_modes, core_modes, (Au, bu, cu))
@@ -511,7 +511,7 @@ class Ket(State):
         A_core = math.block(
             [
                 [math.zeros((*batch_shape, M, M), dtype=math.complex128), gamma_inv @ R_T],
-                [R @ gamma_inv_T, An + R @ math.inv(math.inv(math.conj(Am)) - Am) @ R_T],
+                [R @ gamma_inv_T, An + R @ math.conj(Am) @ math.inv(gamma_squared) @ R_T],
             ],
         )
 
-- 
2.43.0


From 9653582d864fc02d128f57cedb84b7ffb695da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 45/47] fix: DM stellar decompositions for singular blocks and
 unequal numbers of modes

---
 mrmustard/lab/states/dm.py | 145 ++++++++++++++-----------------------
 1 file changed, 54 insertions(+), 91 deletions(-)

diff --git a/mrmustard/lab/states/dm.py b/mrmustard/lab/states/dm.py
index 0f73e01..6f9c5bd 100644
--- a/mrmustard/lab/states/dm.py
+++ b/mrmustard/lab/states/dm.py
@@ -592,32 +592,14 @@ class DM(State):
         r_core_transpose = math.einsum(
             "...ij,...j,...kj->...ik",
             r_evecs,
-            math.sqrt(r_evals),
+            math.sqrt(math.maximum(r_evals, 0.0)),
             math.conj(r_evecs),
         )
         r_core = math.einsum("...ij->...ji", r_core_transpose)
 
-        Aphi_out = Am
         Os = math.zeros(batch_shape + (M,) * 2, dtype=math.complex128)
-        temp = math.block([[math.conj(r_core), Os], [Os, r_core]])
-        Gamma_phi = math.inv(temp) @ R
-
-        Gamma_phi_transpose = math.einsum("...ij->...ji", Gamma_phi)
-        Aphi_in = Gamma_phi @ math.inv(Aphi_out - math.Xmat(M)) @ Gamma_phi_transpose + math.Xmat(M)
-
-        Aphi_oi = math.block([[Aphi_out, Gamma_phi_transpose], [Gamma_phi, Aphi_in]])
-        A_tmp = math.reshape(Aphi_oi, (*batch_shape, 2, 2, M, 2, 2, M))
-        A_tmp = math.einsum("...ijklmn->...jikmln", A_tmp)
-        Aphi = math.reshape(A_tmp, (*batch_shape, 4 * M, 4 * M))
-
-        bphi = math.zeros((*batch_shape, 4 * M), dtype=math.complex128)
-        phi = Channel.from_bargmann(
-            core_modes,
-            core_modes,
-            (Aphi, bphi, math.ones(batch_shape, dtype=math.complex128)),
-        )
-        renorm = phi.contract(TraceOut(self.modes))
-        phi = phi / renorm.ansatz.c
+        R_core = math.block([[math.conj(r_core), Os], [Os, r_core]])
+        phi, bphi_in = self._stellar_channel(core_modes, Am, bm, math.pinv(R_core) @ R)
 
         a = reduced_A[..., M:, M:]
         Acore = math.block(
@@ -626,33 +608,14 @@ class DM(State):
                 [r_core, a],
             ],
         )
-        bcore_m = math.einsum("...ij,...j->...i", math.inv(Gamma_phi_transpose), bm)
-        bcore_m_ket = bcore_m[..., M:]
-        bcore_n = bn - math.einsum("...ij,...jk,...k->...i", temp, Aphi_in, bcore_m)
-        bcore_n_ket = bcore_n[..., (m_modes - M) :]
+        bcore_n = bn - math.einsum("...ij,...j->...i", R_core, bphi_in)
+        bcore = math.concat([math.zeros_like(bcore_n[..., M:]), bcore_n[..., M:]], -1)
 
         inverse_order = np.argsort(core_ket_indices + other_ket_indices)
         Acore = Acore[..., inverse_order, :][..., :, inverse_order]
-        bcore = math.concat([bcore_m_ket, bcore_n_ket], -1)[..., inverse_order]
-        c_core = math.ones_like(c)
-
-        core = Ket.from_bargmann(self.modes, (Acore, bcore, c_core))
-        for i in range(M):
-            core = core.contract(
-                Dgate(core_modes[i], -bcore_m_ket[..., i]),
-                mode="zip",
-            )
-            dgate_u = Dgate(core_modes[i], bcore_m_ket[..., i])
-            dgate_ch = dgate_u.contract(dgate_u.adjoint, mode="zip")
-            phi = dgate_ch.contract(phi, mode="zip")
-        c_core = math.ones_like(c)
-        phi = Channel.from_bargmann(core_modes, core_modes, (phi.ansatz.A, phi.ansatz.b, c_core))
-        renorm = phi.contract(TraceOut(self.modes))
-        phi = phi / renorm.ansatz.c
-        return (
-            Ket.from_bargmann(core.modes, (core.ansatz.A, core.ansatz.b, c_core)).normalize(),
-            phi,
-        )
+        bcore = bcore[..., inverse_order]
+        core = Ket.from_bargmann(self.modes, (Acore, bcore, math.ones_like(c)))
+        return core.normalize(), phi
 
     def physical_stellar_decomposition_mixed(
         self,
@@ -705,8 +668,8 @@ class DM(State):
         bm = b[..., : 2 * M]
         bn = b[..., 2 * M :]
 
-        sigma = R[..., M:, :M]
-        r = R[..., M:, M:]
+        sigma = R[..., N:, :M]
+        r = R[..., N:, M:]
         alpha_m = Am[..., M:, :M]
         alpha_n = An[..., N:, :N]
         a_n = An[..., N:, N:]
@@ -732,36 +695,24 @@ class DM(State):
         reduced_A = R @ math.inv(I2M - math.Xmat(M) @ Am) @ math.conj(R_transpose)
 
         # computing a low-rank r_c:
-        r_c_squared = reduced_A[..., N:, N:] + sigma @ math.inv(alpha_m) @ math.conj(
-            sigma_transpose,
-        )
+        alpha_m_inv = math.pinv(alpha_m)
+        r_c_squared = reduced_A[..., N:, N:] + sigma @ alpha_m_inv @ math.conj(sigma_transpose)
         r_c_evals, r_c_evecs = math.eigh(r_c_squared)
         r_c = math.einsum(
             "...ij,...j->...ij",
             r_c_evecs[..., -M:],
-            math.sqrt(r_c_evals[..., -M:], dtype=math.complex128),
+            math.sqrt(math.maximum(r_c_evals[..., -M:], 0.0), dtype=math.complex128),
         )
+        if M > N:
+            Os_NM = math.zeros((*batch_shape, N, M - N), dtype=math.complex128)
+            r_c = math.concat([Os_NM, r_c], -1)
         Os_NM = math.zeros((*batch_shape, N, M), dtype=math.complex128)
-        Os_MN = math.zeros((*batch_shape, M, N), dtype=math.complex128)
-        R_c = math.block([[math.conj(r_c), Os_NM], [Os_MN, r_c]])
+        R_c = math.block([[math.conj(r_c), Os_NM], [Os_NM, r_c]])
         R_c_transpose = math.einsum("...ij->...ji", R_c)
 
-        Aphi_out = Am
-        gamma = math.pinv(R_c) @ R
-        gamma_transpose = math.einsum("...ij->...ji", gamma)
-        Aphi_in = gamma @ math.inv(Aphi_out - math.Xmat(M)) @ gamma_transpose + math.Xmat(M)
+        phi, bphi_in = self._stellar_channel(core_modes, Am, bm, math.pinv(R_c) @ R)
 
-        Aphi_oi = math.block([[Aphi_out, gamma_transpose], [gamma, Aphi_in]])
-        A_tmp = math.reshape(Aphi_oi, (*batch_shape, 2, 2, M, 2, 2, M))
-        A_tmp = math.einsum("...ijklmn->...jikmln", A_tmp)
-        Aphi = math.reshape(A_tmp, (*batch_shape, 4 * M, 4 * M))
-        bphi = math.zeros((*batch_shape, 4 * M), dtype=math.complex128)
-        c_phi = math.ones_like(c)
-        phi = Channel.from_bargmann(core_modes, core_modes, (Aphi, bphi, c_phi))
-        renorm = phi.contract(TraceOut(self.modes))
-        phi = phi / renorm.ansatz.c
-
-        alpha_core_n = alpha_n - sigma @ math.inv(alpha_m) @ math.conj(sigma_transpose)
+        alpha_core_n = alpha_n - sigma @ alpha_m_inv @ math.conj(sigma_transpose)
         a_core_n = a_n + reduced_A[..., N:, :N]
         A_core_n = math.block(
             [[math.conj(a_core_n), math.conj(alpha_core_n)], [alpha_core_n, a_core_n]],
@@ -773,32 +724,44 @@ class DM(State):
                 [R_c, A_core_n],
             ],
         )
-        b_core_m = math.einsum("...ij,...j->...i", math.inv(gamma_transpose), bm)
-        b_core_n = bn - math.einsum("...ij,...jk,...k->...i", R_c, Aphi_in, b_core_m)
-
-        b_core = math.concat([b_core_m, b_core_n], -1)
+        b_core_n = bn - math.einsum("...ij,...j->...i", R_c, bphi_in)
+        b_core = math.concat([math.zeros_like(bm), b_core_n], -1)
         inverse_order = np.argsort(new_order)
         A_core = A_core[..., inverse_order, :][..., inverse_order]
         b_core = b_core[..., inverse_order]
-        core = DM.from_bargmann(
-            self.modes,
-            (A_core, b_core, c_phi),
-        )
-        alpha = b_core[..., core_ket_indices]
-        for i, m in enumerate(core_modes):
-            d_g = Dgate(m, -alpha[..., i])
-            d_g_inv = d_g.inverse()
-            d_ch = d_g.contract(d_g.adjoint, mode="zip")
-            d_ch_inverse = d_g_inv.contract(d_g_inv.adjoint, mode="zip")
-
-            core = core.contract(d_ch, mode="zip")
-            phi = (d_ch_inverse).contract(phi, mode="zip")
-
-        core = DM.from_bargmann(self.modes, (core.ansatz.A, core.ansatz.b, c_phi)).normalize()
-        phi = Channel.from_bargmann(core_modes, core_modes, (phi.ansatz.A, phi.ansatz.b, c_phi))
-        renorm = phi.contract(TraceOut(self.modes))
-        phi = phi / renorm.ansatz.c
-        return core, phi
+        core = DM.from_bargmann(self.modes, (A_core, b_core, math.ones_like(c)))
+        return core.normalize(), phi
+
+    def _stellar_channel(self, core_modes, A_out, b_out, gamma):
+        r"""
+        The channel on the core modes with the given output blocks ``A_out, b_out`` and off-diagonal
+        block ``gamma``. The remaining blocks are such that the channel is trace preserving.
+
+        Args:
+            core_modes: The core modes.
+            A_out: The output block of the ``A`` matrix (bra modes first).
+            b_out: The output block of the ``b`` vector (bra modes first).
+            gamma: The input-output block of the ``A`` matrix (bra modes first).
+
+        Returns:
+            The channel, and the input block of its ``b`` vector.
+        """
+        M = len(core_modes)
+        batch_shape = self.ansatz.batch_shape
+        gamma_transpose = math.einsum("...ij->...ji", gamma)
+        traced = gamma @ math.inv(A_out - math.Xmat(M))
+        A_in = traced @ gamma_transpose + math.Xmat(M)
+        b_in = math.einsum("...ij,...j->...i", traced, b_out)
+
+        A = math.block([[A_out, gamma_transpose], [gamma, A_in]])
+        A = math.reshape(A, (*batch_shape, 2, 2, M, 2, 2, M))
+        A = math.einsum("...ijklmn->...jikmln", A)
+        A = math.reshape(A, (*batch_shape, 4 * M, 4 * M))
+        b = math.reshape(math.concat([b_out, b_in], -1), (*batch_shape, 2, 2, M))
+        b = math.reshape(math.einsum("...ijk->...jik", b), (*batch_shape, 4 * M))
+        c = math.ones(batch_shape, dtype=math.complex128)
+        phi = Channel.from_bargmann(core_modes, core_modes, (A, b, c))
+        return phi / phi.contract(TraceOut(core_modes)).ansatz.c, b_in
 
     def _ipython_display_(self):  # pragma: no cover
         if widgets.IN_INTERACTIVE_SHELL:
-- 
2.43.0


From c82e81dd2a84c6499b78a618fda4ead4d8e9696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:08 +0000
Subject: [PATCH 46/47] fix: Channel.is_TP of channels that discard part of
 their input

---
 mrmustard/lab/transformations/base.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mrmustard/lab/transformations/base.py b/mrmustard/lab/transformations/base.py
index 346357e..aeefe07 100644
--- a/mrmustard/lab/transformations/base.py
+++ b/mrmustard/lab/transformations/base.py
@@ -433,16 +433,15 @@ class Channel(Map):
                 "Physicality conditions are not implemented for states with ArrayAnsatz.",
             )
         A = self.ansatz.A
-        m = A.shape[-1] // 2
-        gamma_A = A[..., :m, m:]
-        lambda_A = A[..., m:, m:]
-        temp_A = (
-            gamma_A
-            + math.conj(math.einsum("...ij->...ji", lambda_A))
-            @ math.inv(math.eye(m) - math.einsum("...ij->...ji", gamma_A))
-            @ lambda_A
+        idx_in = self.wires.input.indices
+        idx_out = self.wires.output.indices
+        A_in, A_io, A_out = (
+            A[..., i, :][..., :, j] for i, j in ((idx_in, idx_in), (idx_in, idx_out), (idx_out, idx_out))
         )
-        return math.all(math.real(math.norm(temp_A - math.eye(m))) < settings.ATOL)
+        # tracing out the output must leave the trace functional on the input
+        X = math.Xmat(len(idx_in) // 2)
+        A_traced = A_in - A_io @ math.inv(A_out - X) @ math.einsum("...ij->...ji", A_io)
+        return math.all(math.real(math.norm(A_traced - X)) < settings.ATOL)
 
     @property
     def is_physical(self) -> bool:
-- 
2.43.0


From 18d1b27a37a90c84c3d45c09a6acd274838c49eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:13 +0000
Subject: [PATCH 47/47] fix: samplers: seed 0, multi-mode sampling, conditional
 states of homodyne outcomes

---
 mrmustard/lab/samplers.py | 81 ++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 39 deletions(-)

diff --git a/mrmustard/lab/samplers.py b/mrmustard/lab/samplers.py
index 700d459..b5cf78e 100644
--- a/mrmustard/lab/samplers.py
+++ b/mrmustard/lab/samplers.py
@@ -28,8 +28,7 @@ import numpy as np
 from mrmustard import math, settings
 
 from .circuit_components import CircuitComponent
-from .circuit_components_utils import BtoQ
-from .states import Ket, Number, State
+from .states import Number, QuadratureEigenstate, State
 
 __all__ = ["HomodyneSampler", "PNRSampler", "Sampler"]
 
@@ -78,23 +77,32 @@ class Sampler(ABC):
                 probability distribution sums to ``1``.
         """
 
-    def sample(self, state: State, n_samples: int = 1000, seed: int | None = None) -> np.ndarray:
+    def sample(
+        self,
+        state: State,
+        n_samples: int = 1000,
+        seed: int | np.random.Generator | None = None,
+        atol: float = 1e-4,
+    ) -> np.ndarray:
         r"""
         Returns an array of samples given a state.
 
         Args:
             state: The state to sample.
             n_samples: The number of samples to generate.
-            seed: An optional seed for random sampling.
+            seed: An optional seed (or generator) for random sampling.
+            atol: The absolute tolerance used for validating that the computed
+                probability distribution sums to ``1``.
 
         Returns:
             An array of samples such that the shape is ``(n_samples, n_modes)``.
         """
+        rng = settings.rng if seed is None else np.random.default_rng(seed)
         if len(state.modes) == 1:
-            return self.sample_prob_dist(state, n_samples, seed)[0]
+            return self.sample_prob_dist(state, n_samples, rng, atol)[0]
 
         initial_mode = state.modes[0]
-        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, seed)
+        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, rng, atol)
 
         unique_samples, idxs, counts = np.unique(
             initial_samples,
@@ -103,19 +111,18 @@ class Sampler(ABC):
         )
         ret = []
         for unique_sample, idx, count in zip(unique_samples, idxs, counts):
-            meas_op = self._get_povm(unique_sample, initial_mode).dual
-            prob = probs[idx]
-            norm = math.sqrt(prob) if isinstance(state, Ket) else prob
-            reduced_state = (state >> meas_op) / norm
-            samples = self.sample(reduced_state, count)
+            reduced_state = self._reduced_state(state, unique_sample, initial_mode)
+            # the outcomes missing from a conditional distribution are weighted by ``probs``
+            samples = self.sample(reduced_state, count, rng, atol / probs[idx])
             ret.extend(np.append([unique_sample], sample) for sample in samples)
-        return np.array(ret)
+        return np.array(ret).reshape((n_samples, len(state.modes)))
 
     def sample_prob_dist(
         self,
         state: State,
         n_samples: int = 1000,
-        seed: int | None = None,
+        seed: int | np.random.Generator | None = None,
+        atol: float = 1e-4,
     ) -> tuple[np.ndarray, np.ndarray]:
         r"""
         Samples a state by computing the probability distribution.
@@ -123,14 +130,16 @@ class Sampler(ABC):
         Args:
             state: The state to sample.
             n_samples: The number of samples to generate.
-            seed: An optional seed for random sampling.
+            seed: An optional seed (or generator) for random sampling.
+            atol: The absolute tolerance used for validating that the computed
+                probability distribution sums to ``1``.
 
         Returns:
             A tuple of the generated samples and the probability
             of obtaining the sample.
         """
-        rng = np.random.default_rng(seed) if seed else settings.rng
-        probs = self.probabilities(state)
+        rng = settings.rng if seed is None else np.random.default_rng(seed)
+        probs = self.probabilities(state, atol)
         meas_outcomes = list(product(self.meas_outcomes, repeat=len(state.modes)))
         samples = rng.choice(
             a=meas_outcomes,
@@ -139,6 +148,20 @@ class Sampler(ABC):
         )
         return samples, np.array([probs[meas_outcomes.index(tuple(sample))] for sample in samples])
 
+    def _reduced_state(self, state: State, meas_outcome: Any, mode: int) -> State:
+        r"""
+        Returns the normalized state of the remaining modes, given an outcome on a mode.
+
+        Args:
+            state: The state being measured.
+            meas_outcome: The measurement outcome.
+            mode: The measured mode.
+
+        Returns:
+            The normalized state of the remaining modes.
+        """
+        return (state >> self._get_povm(meas_outcome, mode).dual).normalize()
+
     def _get_povm(self, meas_outcome: Any, mode: int) -> CircuitComponent:
         r"""
         Returns the POVM associated with a given outcome on a given mode.
@@ -227,26 +250,6 @@ class HomodyneSampler(Sampler):
         ) * self._step ** len(state.modes)
         return self._validate_probs(probs, atol)
 
-    def sample(self, state: State, n_samples: int = 1000, seed: int | None = None) -> np.ndarray:
-        if len(state.modes) == 1:
-            return self.sample_prob_dist(state, n_samples, seed)[0]
-
-        initial_mode = state.modes[0]
-        initial_samples, probs = self.sample_prob_dist(state[initial_mode], n_samples, seed)
-
-        unique_samples, idxs, counts = np.unique(
-            initial_samples,
-            return_index=True,
-            return_counts=True,
-        )
-        ret = []
-        for unique_sample, idx, count in zip(unique_samples, idxs, counts):
-            # Use partial_eval to evaluate the ansatz at the first mode only
-            reduced_ansatz = (state >> BtoQ([initial_mode], phi=self._phi)).ansatz(unique_sample)
-            reduced_state = state.from_bargmann(state.modes[1:], reduced_ansatz.triple)
-            prob = probs[idx] / self._step
-            norm = math.sqrt(prob) if isinstance(state, Ket) else prob
-            normalized_reduced_state = reduced_state / norm
-            samples = self.sample(normalized_reduced_state, count)
-            ret.extend(np.append([unique_sample], sample) for sample in samples)
-        return np.array(ret)
+    def _reduced_state(self, state, meas_outcome, mode):
+        povm = QuadratureEigenstate(mode, x=meas_outcome, phi=self._phi)
+        return (state >> povm.dual).normalize()
-- 
2.43.0

