From ee3746ea1edc357ef9befb31f62e99ef24c96342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:11 +0000
Subject: [PATCH 01/22] fix: apply the ATM cutoff to all three sides of a
 triple

The mask checked r2jk twice and never r2ik, so triples whose i-k side
exceeds the cutoff still contributed, and did so asymmetrically.
---
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index d692a13..dec3582 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -153,7 +153,7 @@ def get_atm_dispersion(
     ang = torch.where(
         mask_triples
         * (r2ij <= cutoff2)
-        * (r2jk <= cutoff2)
+        * (r2ik <= cutoff2)
         * (r2jk <= cutoff2),
         0.375 * s / r5 + 1.0 / r3,
         torch.tensor(0.0, **dd),
-- 
2.43.0


From 3e586fdca9dc78a4641fb9e6adbe62daa60f9d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:11 +0000
Subject: [PATCH 02/22] fix: look up functionals case-insensitively as
 documented

The membership test ran on the name as given, so "PBE" raised KeyError
although the lookup right after it already folds the case.
---
 src/tad_dftd4/damping/parameters/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 0be7c12..4d0f25b 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -101,7 +101,7 @@ def get_params(
         disp_method_section = default_section["parameter"]
     else:
         func_section = table["parameter"]
-        if functional not in func_section:
+        if functional.casefold() not in func_section:
             raise KeyError(
                 f"Functional '{functional!r}' not found in damping parameters."
             )
-- 
2.43.0


From fa47b451ed2becc2d62e7ce02b3d7bbb0db68ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:11 +0000
Subject: [PATCH 03/22] fix: use the default variant for the default parameters

get_params(functional=None) without a variant raised KeyError instead of
resolving the default variant, which it does for every named functional.
---
 src/tad_dftd4/damping/parameters/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/parameters/loader.py b/src/tad_dftd4/damping/parameters/loader.py
index 4d0f25b..f78ad17 100644
--- a/src/tad_dftd4/damping/parameters/loader.py
+++ b/src/tad_dftd4/damping/parameters/loader.py
@@ -92,7 +92,7 @@ def get_params(
         default_section = table["default"]
 
         variant_section = default_section[method.value]
-        if variant not in variant_section:
+        if variant is not None and variant not in variant_section:
             raise KeyError(
                 f"Variant '{variant}' not found in default parameters for "
                 f"method={method.value!r}."
-- 
2.43.0


From 88a3e507b436150a7293fad0e8145e6fd0b65483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:11 +0000
Subject: [PATCH 04/22] fix: use the critical radius in the optimised-power
 damping

The second term of the denominator used the distance instead of the
critical radius (see the formula in the comment), so the interaction was
not damped towards a finite value at short range.
---
 src/tad_dftd4/damping/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index f4eefec..7956a91 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -481,7 +481,7 @@ class OptimisedPowerDamping(Damping):
         rb = distances**bet
 
         # t6 = rb / (rb * r2**3 + ab * r0ij**6)
-        return rb / (rb * distances**order + ab * distances**order)
+        return rb / (rb * distances**order + ab * radius**order)
 
 
 class ZDamping(Damping):
-- 
2.43.0


From 309f1777d38d3d02a66d9fb32e5312bfacdeb0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:49 +0000
Subject: [PATCH 05/22] fix: evaluate zero damping as (R0/R)**alp, not its
 inverse

ZeroDamping computed rs * R / R0, the inverse of its documented formula,
and only the ATM term compensated by swapping distances and radii at the
call site. Two-body zero damping therefore removed the long-range
interaction and left the short-range one undamped. Evaluate the formula
as documented and pass the ATM arguments in their declared order. The
masked diagonal is filled with one so that the now inverse ratio cannot
overflow there.
---
 src/tad_dftd4/damping/functions.py    | 2 +-
 src/tad_dftd4/dispersion/threebody.py | 2 +-
 src/tad_dftd4/dispersion/twobody.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 7956a91..1b20a4f 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -367,7 +367,7 @@ class ZeroDamping(Damping):
             rs = rs9
 
         # rs6 * r0ij / r1 = rs6 * rvdw(i,j) / sqrt(r2)
-        t_n = rs * storch.divide(distances, radii)
+        t_n = rs * storch.divide(radii, distances)
 
         f_n = 1.0 / (1.0 + 6.0 * t_n**alp_n)
 
diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index dec3582..1daedfe 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -133,10 +133,10 @@ def get_atm_dispersion(
     fdamp = torch.where(
         mask_triples,
         damping_function(
-            r0,
             # dividing by tiny numbers leads to huge numbers, which result in
             # NaN's upon exponentiation in the subsequent step
             torch.where(mask_triples, r1, one),
+            r0,
             order=9,
             alp=alp / 3.0,
             only_damping=True,
diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index b168dd2..a4e92f8 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -141,7 +141,7 @@ def dispersion2(
     distances = torch.where(
         mask,
         storch.cdist(positions, positions, p=2),
-        torch.tensor(torch.finfo(positions.dtype).eps, **dd),
+        torch.tensor(1.0, **dd),
     )
 
     qq = 3 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)
-- 
2.43.0


From 1c8a9aa49bf01e327adfd79a0e0560b7ab19cd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:49 +0000
Subject: [PATCH 06/22] fix: do not round a float total charge to single
 precision

dftd4 converted the charge with the default dtype before the working
precision was known; Disp.calculate converts it to the right one.
---
 src/tad_dftd4/disp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 62436c5..43836cf 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -136,7 +136,7 @@ def dftd4(
     return disp.calculate(
         numbers,
         positions,
-        any_to_tensor(charge),
+        charge,
         param,
         cutoff=cutoff,
         q=q,
-- 
2.43.0


From 8ea546b7cda516965efa1b9a660a1649964f213c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:49 +0000
Subject: [PATCH 07/22] fix: check the full shape of pairwise van der Waals
 radii

Only the leading dimensions were compared, so radii of shape (nat, 1)
were accepted and silently broadcast.
---
 src/tad_dftd4/dispersion/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 7d4fd34..8c69098 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -380,7 +380,7 @@ class Disp(TensorLike):
 
         if rvdw is None:
             rvdw = self.get_rvdw(numbers)
-        if numbers.shape != rvdw.shape[:-1]:
+        if (*numbers.shape, numbers.shape[-1]) != rvdw.shape:
             raise ValueError(
                 f"Shape of van der Waals radii ({rvdw.shape}) is not "
                 f"consistent with atomic numbers ({numbers.shape}).",
-- 
2.43.0


From ddfa95289041348643a3587ca0addf6347424b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 08/22] fix: accept scalar and per-system charges for every
 batch shape

A batch of one system, a scalar charge for a batch, get_properties on a
batch without a charge, and batches with more than one batch dimension
raised ValueError in the EEQ solver because the total charge was not
brought to the shape it expects.
---
 src/tad_dftd4/disp.py            | 4 ++++
 src/tad_dftd4/dispersion/base.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 43836cf..1993ed8 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -186,6 +186,10 @@ def get_properties(
     else:
         charge = any_to_tensor(charge, **dd)
 
+    # one total charge per system: (...) -> (..., 1)
+    if charge.ndim < numbers.ndim:
+        charge = charge.expand(numbers.shape[:-1]).unsqueeze(-1)
+
     cn = cn_d4(numbers, positions)
     q = get_eeq_charges(numbers, positions, charge, cutoff=cutoff.cn_eeq)
 
diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 8c69098..c254253 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -402,6 +402,10 @@ class Disp(TensorLike):
             # pylint: disable=import-outside-toplevel
             from tad_multicharge import get_eeq_charges
 
+            # one total charge per system: (...) -> (..., 1)
+            if charge.ndim < numbers.ndim:
+                charge = charge.expand(numbers.shape[:-1]).unsqueeze(-1)
+
             q = get_eeq_charges(
                 numbers, positions, charge, cutoff=cutoff.cn_eeq
             )
-- 
2.43.0


From 9147bc437601d2e1429065830804eda3c7e7ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 09/22] fix: keep atomic numbers integral when converting a
 model

model.type(dtype) and model.to(dtype=...) cast the atomic numbers to the
floating point type as well, and every later use of the converted model
failed when indexing with them.
---
 src/tad_dftd4/model/base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index db64219..9346e54 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -305,6 +305,19 @@ class BaseModel(TensorLike):
     # Private methods #
     ###################
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ) -> BaseModel:
+        new = super()._clone_tensorlike(device=device, dtype=dtype)
+
+        # atomic numbers are indices: move, but never cast to a float type
+        new.numbers = self.numbers.to(device=new.device)
+
+        return new
+
     def _zeta(self, gam: Tensor, qref: Tensor, qmod: Tensor) -> Tensor:
         """
         Charge scaling function.
-- 
2.43.0


From aa2d27a4fec176c5446cbea791fc6272ec61726e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:45 +0000
Subject: [PATCH 10/22] fix: return atomic polarizabilities from the D4S model

get_weighted_pols summed over the atom itself instead of its partners, so
every atom received an average over the whole system, counted padding as
partners, and failed for batches. get_polarizabilities inherited an
einsum for per-atom weights and returned an array of the wrong shape.
---
 src/tad_dftd4/model/base.py | 4 ++--
 src/tad_dftd4/model/d4s.py  | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index 9346e54..c53eab2 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -298,8 +298,8 @@ class BaseModel(TensorLike):
         Tensor
             Polarizabilities of shape ``(..., nat)``.
         """
-        # (..., n, r) * (..., n, r) -> (..., n)
-        return einsum("...nr,...nr->...n", weights, self._get_alpha()[..., 0])
+        # (..., n, 23) -> (..., n)
+        return self.get_weighted_pols(weights)[..., 0]
 
     ###################
     # Private methods #
diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 539dab0..cf205e0 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -311,9 +311,10 @@ class D4SModel(BaseModel):
 
         a = self._get_alpha()
 
-        # Since we sum over one of the atom dimensions here, we need to
-        # divide by the number of atoms.
-        return einsum("...mnr,...nrw->...mw", gw, a) / nat
+        # The weights of atom `n` depend on the partner atom `m`. Average over
+        # all real partners, i.e., sum and divide by the number of atoms.
+        w = torch.where(mask.unsqueeze(-1).unsqueeze(-1), gw, 0.0)
+        return einsum("...mnr,...nrw->...nw", w, a) / nat.clamp(min=1).unsqueeze(-1)
 
 
 class D4SDebug(D4SModel):
-- 
2.43.0


From a62cd3c1b2033454de055c970386ae3ffd4d4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:13 +0000
Subject: [PATCH 11/22] fix: no NaN gradients when all Gaussian weights vanish

For coordination numbers far from every reference, all Gaussians underflow
and the weights are 0/0. The forward pass replaces them afterwards, but
the backward pass multiplied the NaN by zero and returned NaN. Mask the
normalization before the division.
---
 src/tad_dftd4/model/d4.py  | 10 ++++++----
 src/tad_dftd4/model/d4s.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 8463e20..4c6c5cc 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -197,10 +197,12 @@ class D4Model(BaseModel):
         # Moreover, we need to mask the normalization to avoid division by zero
         # for autograd. Strangely, `storch.divide` gives erroneous results for
         # some elements (Mg, e.g. in MB16_43/03).
+        norm = torch.sum(expw, dim=-1, keepdim=True)
+        vanished = norm < 1e-300
         norm = torch.where(
-            mask,
-            torch.sum(expw, dim=-1, keepdim=True),
-            torch.tensor(1e-300, device=self.device, dtype=torch.double),
+            mask & ~vanished,
+            norm,
+            torch.tensor(1.0, device=self.device, dtype=torch.double),
         )
 
         # back to real dtype
@@ -211,7 +213,7 @@ class D4Model(BaseModel):
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            vanished | is_exceptional(gw_temp, self.dtype),
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index cf205e0..8b84dfa 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -216,10 +216,12 @@ class D4SModel(BaseModel):
         # Moreover, we need to mask the normalization to avoid division by zero
         # for autograd. Strangely, `storch.divide` gives erroneous results for
         # some elements (Mg, e.g. in MB16_43/03).
+        norm = torch.sum(expw, dim=-1, keepdim=True)
+        vanished = norm < 1e-300
         norm = torch.where(
-            mask,
-            torch.sum(expw, dim=-1, keepdim=True),
-            torch.tensor(1e-300, device=self.device, dtype=torch.double),
+            mask & ~vanished,
+            norm,
+            torch.tensor(1.0, device=self.device, dtype=torch.double),
         )
 
         # back to real dtype
@@ -230,7 +232,7 @@ class D4SModel(BaseModel):
 
         # prevent division by 0 and small values
         gw = torch.where(
-            is_exceptional(gw_temp, self.dtype),
+            vanished | is_exceptional(gw_temp, self.dtype),
             torch.where(refcn == maxcn, torch.tensor(1.0, **self.dd), zero),
             gw_temp,
         )
-- 
2.43.0


From 403adc462333591bf8c1e4aa33f445bec0ec0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:39 +0000
Subject: [PATCH 12/22] fix: no NaN gradients for atoms without valence
 electrons left

For partial charges at or just below -zeff (e.g. q = -1 for hydrogen) the
charge scaling overflows in the branch that the forward pass discards, and
the backward pass returned NaN for the charge derivative.
---
 src/tad_dftd4/model/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index c53eab2..925f9ef 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -339,10 +339,14 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
-        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
+        # Mask before dividing: with `qmod` at or slightly below zero, `scale`
+        # overflows and the masked branch yields NaN in the backward pass.
+        mask = qmod > eps
+        qmod_safe = torch.where(mask, qmod - eps, torch.ones_like(qmod))
+        scale = torch.exp(gam * (1.0 - qref / qmod_safe))
 
         return torch.where(
-            qmod > 0.0,
+            mask,
             torch.exp(ga * (1.0 - scale)),
             torch.exp(ga),
         )
-- 
2.43.0


From 666a039efdc2532850a6b05e12ec2ac166ca0314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:54 +0000
Subject: [PATCH 13/22] fix: honour the documented default of s8

Parameters without s8 are documented to use s8 = 1.0 and dispersion2 looks
up that default, but the damping function treated the missing key as "no
dipole-quadrupole term" and silently returned zero for it.
---
 src/tad_dftd4/damping/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/damping/functions.py b/src/tad_dftd4/damping/functions.py
index 1b20a4f..293f468 100644
--- a/src/tad_dftd4/damping/functions.py
+++ b/src/tad_dftd4/damping/functions.py
@@ -124,7 +124,7 @@ class Damping(ABC):
         a2: Tensor | float | int | None = None,
         s6: Tensor | float | int | None = defaults.S6,
         rs6: Tensor | float | int | None = None,
-        s8: Tensor | float | int | None = None,
+        s8: Tensor | float | int | None = defaults.S8,
         rs8: Tensor | float | int | None = None,
         s9: Tensor | float | int | None = defaults.S9,
         rs9: Tensor | float | int | None = defaults.RS9,
-- 
2.43.0


From 5d8ff98870b83ddf1d4f37f9f9dab3804f8c4b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:58 +0000
Subject: [PATCH 14/22] fix: no NaN gradients from the radii of padding atoms

The two-body damping functions take the square root of, or divide by, the
radii, which are zero for padding atoms. The result is masked, but the backward
pass is not: gradients with respect to r4r2 (rational and optimised-power
damping), rvdw and the parameters (modified zero damping) were NaN in padded
batches.
---
 src/tad_dftd4/dispersion/twobody.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tad_dftd4/dispersion/twobody.py b/src/tad_dftd4/dispersion/twobody.py
index a4e92f8..6f47dcf 100644
--- a/src/tad_dftd4/dispersion/twobody.py
+++ b/src/tad_dftd4/dispersion/twobody.py
@@ -156,6 +156,10 @@ def dispersion2(
     else:
         raise ValueError(f"Unknown radius type: {damping_function.radius_type}")
 
+    # The radii of padding atoms are zero. Mask them before they enter divisions
+    # or square roots, which otherwise yield NaN in the backward pass.
+    radii = torch.where(mask, radii, torch.tensor(1.0, **dd))
+
     t6 = torch.where(
         mask * (distances <= cutoff),
         damping_function(distances, radii, 6, **param),
-- 
2.43.0


From 3f20653a0050bf0489c0b160919e8a32ce84186f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:16 +0000
Subject: [PATCH 15/22] fix: do not share the terms of a converted calculator

The copy returned by Disp.type() and Disp.to() held the same list of terms as
the original, so registering or removing a term in one changed the other.
---
 src/tad_dftd4/dispersion/base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index c254253..70de309 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -212,6 +212,19 @@ class Disp(TensorLike):
             kw = {} if kw is None else kw.copy()
             self.register(term_cls(**kw))
 
+    def _clone_tensorlike(
+        self,
+        *,
+        device: torch.device | None = None,
+        dtype: torch.dtype | None = None,
+    ) -> Disp:
+        new = super()._clone_tensorlike(device=device, dtype=dtype)
+
+        # do not share the (mutable) list of terms with the original
+        new.terms = list(self.terms)
+
+        return new
+
     def register(self, term: DispTerm) -> None:
         self.terms.append(term)
 
-- 
2.43.0


From 0855f199951cf9707876043114f4ff16d2752ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:51 +0000
Subject: [PATCH 16/22] fix: no underflow in the analytic CN derivative of the
 weights

---
 src/tad_dftd4/model/d4.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/d4.py b/src/tad_dftd4/model/d4.py
index 4c6c5cc..76c4b83 100644
--- a/src/tad_dftd4/model/d4.py
+++ b/src/tad_dftd4/model/d4.py
@@ -251,7 +251,8 @@ class D4Model(BaseModel):
             # no mask needed here, already masked in `dexpw`
             dnorm = torch.sum(dexpw, dim=-1, keepdim=True)
 
-            _dgw = (dexpw - expw * dnorm / norm) / norm
+            # divide first: `expw * dnorm` underflows for small `norm`
+            _dgw = dexpw / norm - (expw / norm) * (dnorm / norm)
             dgw = torch.where(
                 is_exceptional(_dgw, self.dtype), zero, _dgw.type(self.dtype)
             )
-- 
2.43.0


From 37b730e1ae16d9fd1a2cd4bcc62a009d316b5367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:55 +0000
Subject: [PATCH 17/22] fix: default critical radii in the precision of the
 input

---
 src/tad_dftd4/dispersion/threebody.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/threebody.py b/src/tad_dftd4/dispersion/threebody.py
index 1daedfe..1cd48d2 100644
--- a/src/tad_dftd4/dispersion/threebody.py
+++ b/src/tad_dftd4/dispersion/threebody.py
@@ -247,7 +247,8 @@ class RadiiBJMixin:
         r4r2: Tensor,
         rvdw: Tensor,
     ) -> Tensor:
-        dd = self.dd  # type: ignore
+        # precision of the calculation, not of the term (default dtype)
+        dd: DD = {"device": r4r2.device, "dtype": r4r2.dtype}
 
         a1 = param.get("a1", torch.tensor(defaults.A1, **dd))
         a2 = param.get("a2", torch.tensor(defaults.A2, **dd))
-- 
2.43.0


From 833665ca25d1b619ca5e02d0941d01cbd70468ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:31 +0000
Subject: [PATCH 18/22] fix: reject positions without three Cartesian
 components

---
 src/tad_dftd4/dispersion/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tad_dftd4/dispersion/base.py b/src/tad_dftd4/dispersion/base.py
index 70de309..ded3c32 100644
--- a/src/tad_dftd4/dispersion/base.py
+++ b/src/tad_dftd4/dispersion/base.py
@@ -364,7 +364,7 @@ class Disp(TensorLike):
 
         charge = any_to_tensor(charge, **dd)
 
-        if numbers.shape != positions.shape[:-1]:
+        if (*numbers.shape, 3) != positions.shape:
             raise ValueError(
                 f"Shape of positions ({positions.shape}) is not consistent "
                 f"with atomic numbers ({numbers.shape}).",
-- 
2.43.0


From 3a6bb96f05594bde83e9bae30d7f8bc3d1338d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:11 +0000
Subject: [PATCH 19/22] fix: accept a single weighting factor in the D4S model

---
 src/tad_dftd4/model/d4s.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 8b84dfa..17f9262 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -194,7 +194,9 @@ class D4SModel(BaseModel):
         # ordering of the zeta function. Inserting in `-2` does not work!
         #
         # (..., n1, nref) * (..., n1, nref) * (n1, n2) -> (..., n2, n1, nref)
-        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, self.wf)
+        # (a single weighting factor applies to all pairs)
+        wf = self.wf.expand(shp[:-1])
+        arg = einsum("...mnr,...mnr,...nm->...mnr", -dcn, dcn, wf)
         tmp = torch.where(mask, torch.exp(arg), zero_double)
 
         # Gaussian weighting function part 2: tmp^(igw)
-- 
2.43.0


From 711f03ca35fe6f9133944387f139e5a21676c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:23 +0000
Subject: [PATCH 20/22] fix: NaN charge derivative of the weights for charges
 one rounding step above minus the effective nuclear charge

---
 src/tad_dftd4/model/base.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/base.py b/src/tad_dftd4/model/base.py
index 925f9ef..9358a16 100644
--- a/src/tad_dftd4/model/base.py
+++ b/src/tad_dftd4/model/base.py
@@ -372,11 +372,16 @@ class BaseModel(TensorLike):
         eps = torch.tensor(torch.finfo(self.dtype).eps, **self.dd)
         ga = torch.tensor(self.ga, **self.dd)
 
-        scale = torch.exp(gam * (1.0 - qref / (qmod - eps)))
+        # same mask as in `_zeta`: for `qmod` between zero and `eps`, `scale`
+        # overflows and the product with the vanishing `zeta` is NaN
+        mask = qmod > eps
+        qmod_safe = torch.where(mask, qmod - eps, torch.ones_like(qmod))
+
+        scale = torch.exp(gam * (1.0 - qref / qmod_safe))
         zeta = torch.exp(ga * (1.0 - scale))
 
         return torch.where(
-            qmod > 0.0,
+            mask,
             -ga * gam * scale * zeta * storch.divide(qref, qmod**2),
             torch.tensor(0.0, **self.dd),
         )
-- 
2.43.0


From 4314960b5896b78391fe8c394a350846fa05a69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:00 +0000
Subject: [PATCH 21/22] fix: weighting factors of the debug D4S model for
 batches

---
 src/tad_dftd4/model/d4s.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/model/d4s.py b/src/tad_dftd4/model/d4s.py
index 17f9262..100d9b9 100644
--- a/src/tad_dftd4/model/d4s.py
+++ b/src/tad_dftd4/model/d4s.py
@@ -330,5 +330,5 @@ class D4SDebug(D4SModel):
 
     def _get_wf(self) -> Tensor:
         """Pairwise weighting factor."""
-        s = self.numbers.size(0)
-        return torch.full((s, s), WF_DEFAULT, **self.dd)
+        s = self.numbers.shape
+        return torch.full((*s, s[-1]), WF_DEFAULT, **self.dd)
-- 
2.43.0


From 51bd75f2e81e337d26a2946b45644520ac1b7516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:50 +0000
Subject: [PATCH 22/22] fix: accept model=None as documented

---
 src/tad_dftd4/disp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tad_dftd4/disp.py b/src/tad_dftd4/disp.py
index 1993ed8..90f1e79 100644
--- a/src/tad_dftd4/disp.py
+++ b/src/tad_dftd4/disp.py
@@ -47,7 +47,7 @@ def dftd4(
     charge: Tensor | float | int,
     param: Param,
     *,
-    model: ModelKey | ModelInst = "d4",
+    model: ModelKey | ModelInst | None = "d4",
     rcov: Tensor | None = None,
     r4r2: Tensor | None = None,
     rvdw: Tensor | None = None,
@@ -117,7 +117,7 @@ def dftd4(
     disp = Disp(
         cn_fn=cn_function,
         cn_fn_kwargs={"counting_function": counting_function},
-        model=model,
+        model="d4" if model is None else model,
         **dd,
     )
 
-- 
2.43.0

