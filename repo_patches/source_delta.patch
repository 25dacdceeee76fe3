From cd1a7af85ceb07b10f49d92d11738e0566668f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 01/34] fix: accept negative distance moduli as radial
 distances

A DistanceModulus is logarithmic and is negative for distances below 10 pc;
the non-negativity check on radial components applied to it directly.
---
 src/coordinax/_src/vectors/checks.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinax/_src/vectors/checks.py b/src/coordinax/_src/vectors/checks.py
index b94a9a0..ea2f0c2 100644
--- a/src/coordinax/_src/vectors/checks.py
+++ b/src/coordinax/_src/vectors/checks.py
@@ -10,6 +10,7 @@ import unxt as u
 from unxt.quantity import AbstractQuantity
 
 from coordinax._src.angles import Angle, BatchableAngleQ
+from coordinax._src.distances import DistanceModulus
 
 _0d = Angle(0, "rad")
 _pid = Angle(180, "deg")
@@ -36,6 +37,9 @@ def check_r_non_negative(r: AbstractQuantity) -> AbstractQuantity:
     ... except Exception: pass
 
     """
+    # A distance modulus is logarithmic: it is negative for distances < 10 pc.
+    if isinstance(r, DistanceModulus):
+        return r
     return check_non_negative(r, name="radial distance r")
 
 
-- 
2.43.0


From 0f2cf2744e4c1b1527737295d21095ca1f1a6d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 02/34] fix: simplify two rotations in the order in which they
 act

---
 src/coordinax/_src/operators/galilean/rotation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index 3c66d47..8fa7f6c 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -436,4 +436,5 @@ def simplify_op(op1: GalileanRotation, op2: GalileanRotation) -> GalileanRotatio
     Array(True, dtype=bool)
 
     """
-    return GalileanRotation(rotation=op1.rotation @ op2.rotation)
+    # `op1` acts first, so its matrix is the right-most factor.
+    return GalileanRotation(rotation=op2.rotation @ op1.rotation)
-- 
2.43.0


From 8cc177f8611894536a37ecbd139a63cf4a50b80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:40 +0000
Subject: [PATCH 03/34] fix: compose an operator with a Pipe on its right

---
 src/coordinax/_src/operators/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/base.py b/src/coordinax/_src/operators/base.py
index 3e4a844..23c483b 100644
--- a/src/coordinax/_src/operators/base.py
+++ b/src/coordinax/_src/operators/base.py
@@ -232,7 +232,7 @@ class AbstractOperator(eqx.Module):  # type: ignore[misc]
         from .pipe import Pipe
 
         if isinstance(other, Pipe):
-            return other.__ror__(self)
+            return Pipe((self, *other.operators))
         return Pipe((self, other))
 
 
-- 
2.43.0


From b71a87936c5404f192cf23c5b0306368aae6a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 04/34] fix: keep the reference speed of a FourVector through
 an operator

---
 src/coordinax/_src/operators/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/compat.py b/src/coordinax/_src/operators/compat.py
index 2068af2..1e778aa 100644
--- a/src/coordinax/_src/operators/compat.py
+++ b/src/coordinax/_src/operators/compat.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 
+from dataclasses import replace
 from typing import Any, TypeAlias
 
 from jaxtyping import Shaped
@@ -215,7 +216,7 @@ def call(self: AbstractOperator, v4: FourVector, /, **kwargs: Any) -> FourVector
 
     """
     q, t = self(v4.q, v4.t, **kwargs)
-    return FourVector(t=t, q=q)
+    return replace(v4, t=t, q=q)
 
 
 @AbstractOperator.__call__.dispatch
-- 
2.43.0


From a0e32c997f2b88375e5146a424884e9533b95650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:59 +0000
Subject: [PATCH 05/34] fix: apply a Pipe to a single argument that is not a
 position

---
 src/coordinax/_src/operators/pipe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/operators/pipe.py b/src/coordinax/_src/operators/pipe.py
index eee7760..e2e53f7 100644
--- a/src/coordinax/_src/operators/pipe.py
+++ b/src/coordinax/_src/operators/pipe.py
@@ -105,8 +105,10 @@ class Pipe(AbstractCompositeOperator):
 
         """
         for op in self.operators:
-            args = op(*args, **kwargs)
-        return args
+            out = op(*args, **kwargs)
+            # A single argument comes back bare, several come back as a tuple.
+            args = (out,) if len(args) == 1 else out
+        return args[0] if len(args) == 1 else args
 
     @AbstractOperator.__call__.dispatch(precedence=1)
     def __call__(
-- 
2.43.0


From 73fc192c3c20d6ecf25708f10d8f05f2995bf85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:19 +0000
Subject: [PATCH 06/34] fix: apply a composite operator to quantities

---
 src/coordinax/_src/operators/pipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/pipe.py b/src/coordinax/_src/operators/pipe.py
index e2e53f7..ae7ebef 100644
--- a/src/coordinax/_src/operators/pipe.py
+++ b/src/coordinax/_src/operators/pipe.py
@@ -86,7 +86,7 @@ class Pipe(AbstractCompositeOperator):
 
     # ---------------------------------------------------------------
 
-    @AbstractOperator.__call__.dispatch
+    @AbstractOperator.__call__.dispatch(precedence=-1)
     def __call__(
         self: "AbstractCompositeOperator", *args: object, **kwargs: Any
     ) -> tuple[object, ...]:
-- 
2.43.0


From fee5a90a2f670bd68ceeb91f81617b87846ffa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 07/34] fix: add and subtract Cartesian vectors whose
 components have different units

---
 src/coordinax/_src/vectors/d1/cartesian.py | 21 ++++++++++++++++-----
 src/coordinax/_src/vectors/d2/cartesian.py | 17 +++++++++++++----
 src/coordinax/_src/vectors/d3/cartesian.py | 20 +++++++++++++++-----
 3 files changed, 44 insertions(+), 14 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/cartesian.py b/src/coordinax/_src/vectors/d1/cartesian.py
index 97b8bc3..9d6b3fd 100644
--- a/src/coordinax/_src/vectors/d1/cartesian.py
+++ b/src/coordinax/_src/vectors/d1/cartesian.py
@@ -14,6 +14,7 @@ from quax import register
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 from quaxed import lax as qlax
 
 import coordinax._src.typing as ct
@@ -89,7 +90,9 @@ def _add_qq(lhs: CartesianPos1D, rhs: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = rhs.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -158,7 +161,9 @@ def _sub_q1d_pos(self: CartesianPos1D, other: AbstractPos, /) -> CartesianPos1D:
 
     """
     cart = other.represent_as(CartesianPos1D)
-    return jax.tree.map(qlax.sub, self, cart)
+    return replace(
+        self, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(self)}
+    )
 
 
 #####################################################################
@@ -225,7 +230,9 @@ def _add_pp(lhs: CartesianVel1D, rhs: CartesianVel1D, /) -> CartesianVel1D:
     Quantity['speed'](Array(2, dtype=int32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -316,7 +323,9 @@ def _add_aa(lhs: CartesianAcc1D, rhs: CartesianAcc1D, /) -> CartesianAcc1D:
     Quantity['acceleration'](Array(2, dtype=int32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -371,4 +380,6 @@ def _sub_a1_a1(self: CartesianAcc1D, other: CartesianAcc1D, /) -> CartesianAcc1D
     Quantity['acceleration'](Array(-1, dtype=int32, ...), unit='m / s2')
 
     """
-    return jax.tree.map(qlax.sub, self, other)
+    return replace(
+        self, **{k: qlax.sub(v, getattr(other, k)) for k, v in field_items(self)}
+    )
diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index 5b097ba..d397af1 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -18,6 +18,7 @@ from quax import register
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 from quaxed import lax as qlax
 from unxt.quantity import AbstractQuantity, Quantity
 
@@ -98,7 +99,9 @@ def _add_cart2d_pos(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2D:
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.add, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -155,7 +158,9 @@ def _sub_cart2d_pos2d(lhs: CartesianPos2D, rhs: AbstractPos, /) -> CartesianPos2
 
     """
     cart = rhs.represent_as(CartesianPos2D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 #####################################################################
@@ -232,7 +237,9 @@ def _add_pp(lhs: CartesianVel2D, rhs: CartesianVel2D, /) -> CartesianVel2D:
     Quantity['speed'](Array(2., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -345,7 +352,9 @@ def _add_aa(lhs: CartesianAcc2D, rhs: CartesianAcc2D, /) -> CartesianAcc2D:
     Quantity['acceleration'](Array(6., dtype=float32), unit='km / s2')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index 1dffbdc..c5de3dc 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -148,7 +148,9 @@ def _sub_cart3d_pos(lhs: CartesianPos3D, rhs: AbstractPos, /) -> CartesianPos3D:
 
     """
     cart = rhs.represent_as(CartesianPos3D)
-    return jax.tree.map(qlax.sub, lhs, cart)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(cart, k)) for k, v in field_items(lhs)}
+    )
 
 
 # =====================================================
@@ -286,7 +288,9 @@ def _add_pp(lhs: CartesianVel3D, rhs: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(4., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.sub_p)  # type: ignore[misc]
@@ -302,7 +306,9 @@ def _sub_v3_v3(lhs: CartesianVel3D, other: CartesianVel3D, /) -> CartesianVel3D:
     Quantity['speed'](Array(0., dtype=float32), unit='km / s')
 
     """
-    return jax.tree.map(qlax.sub, lhs, other)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(other, k)) for k, v in field_items(lhs)}
+    )
 
 
 #####################################################################
@@ -386,7 +392,9 @@ def from_(
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_aa(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Add two Cartesian accelerations."""
-    return jax.tree.map(qlax.add, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.add(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -415,4 +423,6 @@ def _mul_ac3(lhs: ArrayLike, rhs: CartesianPos3D, /) -> CartesianPos3D:
 @register(jax.lax.sub_p)  # type: ignore[misc]
 def _sub_a3_a3(lhs: CartesianAcc3D, rhs: CartesianAcc3D, /) -> CartesianAcc3D:
     """Subtract two accelerations."""
-    return jax.tree.map(qlax.sub, lhs, rhs)
+    return replace(
+        lhs, **{k: qlax.sub(v, getattr(rhs, k)) for k, v in field_items(lhs)}
+    )
-- 
2.43.0


From 93d0ca987c0567c5166a0e70ff6927c92a60598f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:36 +0000
Subject: [PATCH 08/34] fix: compare vectors whose units or component shapes
 differ

---
 src/coordinax/_src/vectors/base/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index f45070a..1248254 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -10,12 +10,13 @@ __all__ = [
 from abc import abstractmethod
 from collections.abc import Callable, Mapping
 from enum import Enum
+from functools import reduce
 from types import MappingProxyType
 from typing import TYPE_CHECKING, Any, NoReturn, TypeVar
 
 import jax
 import numpy as np
-from jax import Device, tree
+from jax import Device
 from jaxtyping import Array, ArrayLike, Bool
 from plum import dispatch
 from quax import ArrayValue, register
@@ -613,9 +614,9 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         if type(other) is not type(self):
             return NotImplemented
 
-        comp_tree = tree.map(jnp.equal, self, other)
-        comp_leaves = jnp.array(tree.leaves(comp_tree))
-        return jax.numpy.logical_and.reduce(comp_leaves)
+        # Compare field by field: the units, and the shapes, can differ.
+        comps = (jnp.equal(v, getattr(other, k)) for k, v in field_items(self))
+        return reduce(jax.numpy.logical_and, comps)
 
     # ---------------------------------------------------------------
     # methods
-- 
2.43.0


From 799a5f98c8074953ae7409d577eb8d432ec85829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 09/34] fix: reshape, index and flatten space-time vectors with
 a batch shape

---
 src/coordinax/_src/vectors/utils.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index e52e761..563043a 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -3,10 +3,10 @@
 __all__: list[str] = []
 
 from dataclasses import replace as _dataclass_replace
-from typing import TYPE_CHECKING
+from typing import TYPE_CHECKING, Any
 
 import quaxed.numpy as jnp
-from dataclassish import field_values
+from dataclassish import field_items
 
 from .base.flags import AttrFilter
 
@@ -32,5 +32,19 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     (2,)
 
     """
-    arrays = jnp.broadcast_arrays(*field_values(AttrFilter, obj))
-    return _dataclass_replace(obj, **dict(zip(obj.components, arrays, strict=True)))
+    # The only component of a vector already has the full shape.
+    if len(obj.components) == 1:
+        return obj
+    return _broadcast_components(obj, obj.shape)
+
+
+def _broadcast_components(obj: Any, shape: tuple[int, ...], /) -> Any:
+    """Broadcast an array, or each of the components of a vector."""
+    if not hasattr(obj, "components"):
+        return jnp.broadcast_to(obj, shape)
+    return _dataclass_replace(
+        obj,
+        **{
+            k: _broadcast_components(v, shape) for k, v in field_items(AttrFilter, obj)
+        },
+    )
-- 
2.43.0


From e843425209e3e3fcd13745cbfe47bbd5e9f92807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 10/34] fix: compare positions of the same class without
 converting them

---
 src/coordinax/_src/vectors/base/base_pos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 4326807..23ce8c0 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -133,8 +133,9 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
         if not isinstance(other, AbstractPos):
             return NotImplemented
 
-        rhs = other.represent_as(type(self))
-        return super().__eq__(rhs)
+        if type(other) is not type(self):
+            other = other.represent_as(type(self))
+        return super().__eq__(other)
 
     # ===============================================================
     # Convenience methods
-- 
2.43.0


From 74ab7578e535920b6775546e057086555e66f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 11/34] fix: transpose and flatten vectors whose component
 shapes differ

---
 src/coordinax/_src/vectors/base/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 1248254..f90ae80 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -348,7 +348,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.mT for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(self, **{k: v.mT for k, v in field_items(AttrFilter, full)})
 
     @property
     def ndim(self) -> int:
@@ -437,7 +438,8 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
                                   [1., 3.]], dtype=float32), unit='m')
 
         """
-        return replace(self, **{k: v.T for k, v in field_items(AttrFilter, self)})
+        full = full_shaped(self)
+        return replace(self, **{k: v.T for k, v in field_items(AttrFilter, full)})
 
     # ---------------------------------------------------------------
     # arithmetic operators
@@ -743,8 +745,9 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
+        full = full_shaped(self)
         return replace(
-            self, **{k: v.flatten() for k, v in field_items(AttrFilter, self)}
+            self, **{k: v.flatten() for k, v in field_items(AttrFilter, full)}
         )
 
     def ravel(self) -> "Self":
@@ -764,7 +767,7 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         (4,)
 
         """
-        return replace(self, **{k: v.ravel() for k, v in field_items(AttrFilter, self)})
+        return self.flatten()
 
     def reshape(self, *shape: Any, order: str = "C") -> "Self":
         """Reshape the components of the vector.
-- 
2.43.0


From 6858afd1170828e33fdd01cda9b8f3dd3d098321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:55 +0000
Subject: [PATCH 12/34] fix: transpose the last two batch axes of N-D vectors
 of any rank

---
 src/coordinax/_src/vectors/dn/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 25d8bbc..50953c2 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -70,7 +70,7 @@ class AbstractPosND(AbstractPos):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, q=qlax.transpose(self.q, axes))
 
     @property
@@ -206,7 +206,7 @@ class AbstractVelND(AbstractVel):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d_q=qlax.transpose(self.d_q, axes))
 
     @property
@@ -345,7 +345,7 @@ class AbstractAccND(AbstractAcc):
             ndim < 2,
             f"x must be at least two-dimensional for matrix_transpose; got {ndim=}",
         )
-        axes = (*range(ndim - 3), ndim - 1, ndim - 2, ndim)
+        axes = (*range(ndim - 2), ndim - 1, ndim - 2, ndim)
         return replace(self, d2_q=qlax.transpose(self.d2_q, axes))
 
     @property
-- 
2.43.0


From f252430dcbb1f9b51f186d4554e0e7a48b9b4cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:37 +0000
Subject: [PATCH 13/34] fix: index and compare N-D vectors point by point

---
 src/coordinax/_src/vectors/dn/base.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/base.py b/src/coordinax/_src/vectors/dn/base.py
index 50953c2..023db70 100644
--- a/src/coordinax/_src/vectors/dn/base.py
+++ b/src/coordinax/_src/vectors/dn/base.py
@@ -24,7 +24,21 @@ if TYPE_CHECKING:
     from typing import Never
 
 
-class AbstractPosND(AbstractPos):
+class _FeatureAxisMixin:
+    """Element-wise operations act on the points, not on the feature axis."""
+
+    def __eq__(self, other: object) -> Any:
+        eq = super().__eq__(other)
+        return eq if eq is NotImplemented else jnp.all(eq, axis=-1)
+
+    def __getitem__(self, index: Any) -> Any:
+        index = index if isinstance(index, tuple) else (index,)
+        if not any(i is Ellipsis for i in index):
+            index = (*index, Ellipsis)
+        return super().__getitem__((*index, slice(None)))
+
+
+class AbstractPosND(_FeatureAxisMixin, AbstractPos):
     """Abstract representation of N-D coordinates in different systems."""
 
     @classproperty
@@ -152,7 +166,7 @@ class AbstractPosND(AbstractPos):
 #####################################################################
 
 
-class AbstractVelND(AbstractVel):
+class AbstractVelND(_FeatureAxisMixin, AbstractVel):
     """Abstract representation of N-D vector differentials."""
 
     @classproperty
@@ -291,7 +305,7 @@ class AbstractVelND(AbstractVel):
 #####################################################################
 
 
-class AbstractAccND(AbstractAcc):
+class AbstractAccND(_FeatureAxisMixin, AbstractAcc):
     """Abstract representation of N-D vector differentials."""
 
     @classproperty
-- 
2.43.0


From 60c2636193f8651796905fb8020f90401e85cbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 14/34] fix: compare batches of vectors with !=

---
 src/coordinax/_src/vectors/base/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index f90ae80..6b91cea 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -620,6 +620,10 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         comps = (jnp.equal(v, getattr(other, k)) for k, v in field_items(self))
         return reduce(jax.numpy.logical_and, comps)
 
+    def __ne__(self: "AbstractVector", other: object) -> Any:
+        eq = self.__eq__(other)
+        return eq if eq is NotImplemented else jax.numpy.logical_not(eq)
+
     # ---------------------------------------------------------------
     # methods
 
-- 
2.43.0


From 34da6275fcdace24a8fc5ff7564e738a59c2d0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 15/34] fix: divide positions as Cartesian vectors, and keep
 Delta in spheroidal arithmetic

---
 src/coordinax/_src/vectors/base/base_pos.py | 27 +++++++++++++++------
 src/coordinax/_src/vectors/d4/spacetime.py  | 10 +++++++-
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base_pos.py b/src/coordinax/_src/vectors/base/base_pos.py
index 23ce8c0..70c1cb8 100644
--- a/src/coordinax/_src/vectors/base/base_pos.py
+++ b/src/coordinax/_src/vectors/base/base_pos.py
@@ -178,6 +178,12 @@ class AbstractPos(AvalMixin, AbstractVector):  # pylint: disable=abstract-method
 # Register primitives
 
 
+def _represent_like(obj: AbstractPos, like: AbstractPos, /) -> AbstractPos:
+    """Represent as the class of another position, with its attributes."""
+    attrs = {k: v for k, v in field_items(like) if k not in like.components}
+    return obj.represent_as(type(like), **attrs)
+
+
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_qq(lhs: AbstractPos, rhs: AbstractPos, /) -> AbstractPos:
     # The base implementation is to convert to Cartesian and perform the
@@ -190,9 +196,10 @@ def _add_qq(lhs: AbstractPos, rhs: AbstractPos, /) -> AbstractPos:
         isinstance(lhs, cart_cls) and isinstance(rhs, cart_cls),
         "must register a Cartesian-specific dispatch for {cart_cls} addition",
     )
-    return qlax.add(  # re-dispatch on the Cartesian class
+    out = qlax.add(  # re-dispatch on the Cartesian class
         lhs.represent_as(cart_cls), rhs.represent_as(cart_cls)
-    ).represent_as(type(lhs))
+    )
+    return _represent_like(out, lhs)
 
 
 # ------------------------------------------------
@@ -215,9 +222,12 @@ def _div_pos_v(lhs: AbstractPos, rhs: ArrayLike) -> AbstractPos:
     Quantity['length'](Array(0.5, dtype=float32), unit='m')
 
     """
-    return replace(
-        lhs, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, lhs)}
+    # Only the Cartesian components scale linearly with the position.
+    cart = lhs.represent_as(lhs._cartesian_cls)  # noqa: SLF001
+    cart = replace(
+        cart, **{k: jnp.divide(v, rhs) for k, v in field_items(AttrFilter, cart)}
     )
+    return _represent_like(cart, lhs)
 
 
 # ------------------------------------------------
@@ -322,7 +332,7 @@ def _mul_v_pos(lhs: ArrayLike, rhs: AbstractPos, /) -> AbstractPos:
 
     rc = rhs.represent_as(rhs._cartesian_cls)  # noqa: SLF001
     nr = qlax.mul(lhs, rc)
-    return nr.represent_as(type(rhs))
+    return _represent_like(nr, rhs)
 
 
 @register(jax.lax.mul_p)  # type: ignore[misc]
@@ -403,7 +413,7 @@ def _neg_pos(obj: AbstractPos, /) -> AbstractPos:
     """
     cart = represent_as(obj, obj._cartesian_cls)  # noqa: SLF001
     negcart = jnp.negative(cart)
-    return represent_as(negcart, type(obj))
+    return _represent_like(negcart, obj)
 
 
 # ------------------------------------------------
@@ -455,7 +465,8 @@ def _sub_qq(lhs: AbstractPos, rhs: AbstractPos) -> AbstractPos:
     # operation.  Cartesian coordinates do not have any branch cuts or
     # singularities or ranges that need to be handled, so this is a safe
     # default.
-    return qlax.sub(
+    out = qlax.sub(
         lhs.represent_as(lhs._cartesian_cls),  # noqa: SLF001
         rhs.represent_as(lhs._cartesian_cls),  # noqa: SLF001
-    ).represent_as(type(lhs))
+    )
+    return _represent_like(out, lhs)
diff --git a/src/coordinax/_src/vectors/d4/spacetime.py b/src/coordinax/_src/vectors/d4/spacetime.py
index bfe21a8..fb4cd0b 100644
--- a/src/coordinax/_src/vectors/d4/spacetime.py
+++ b/src/coordinax/_src/vectors/d4/spacetime.py
@@ -11,7 +11,7 @@ import equinox as eqx
 import jax
 import jax.numpy as jnp
 import numpy as np
-from jaxtyping import Shaped
+from jaxtyping import ArrayLike, Shaped
 from quax import register
 
 import quaxed.numpy as jnp
@@ -336,6 +336,14 @@ def _add_4v4v(self: FourVector, other: FourVector) -> FourVector:
     return replace(self, t=self.t + other.t, q=self.q + other.q)
 
 
+@register(jax.lax.div_p)  # type: ignore[misc]
+def _div_4v(lhs: FourVector, rhs: ArrayLike) -> FourVector:
+    return replace(lhs, t=lhs.t / rhs, q=lhs.q / rhs)
+
+
+# ------------------------------------------------
+
+
 @register(jax.lax.sub_p)  # type: ignore[misc]
 def _sub_4v_4v(lhs: FourVector, rhs: FourVector) -> FourVector:
     """Add two 4-vectors.
-- 
2.43.0


From 303b5b0a97fd51db66ba4d8fdb849b6a4a0a1ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 16/34] fix: scale polar and spherical positions by any number
 and of any distance kind

---
 src/coordinax/_src/vectors/d2/polar.py         | 6 ++++--
 src/coordinax/_src/vectors/d3/mathspherical.py | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/vectors/d2/polar.py b/src/coordinax/_src/vectors/d2/polar.py
index aaac9d7..b79c10b 100644
--- a/src/coordinax/_src/vectors/d2/polar.py
+++ b/src/coordinax/_src/vectors/d2/polar.py
@@ -88,8 +88,10 @@ def _mul_p_vpolar(lhs: ArrayLike, rhs: PolarPos, /) -> PolarPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance, which a negative factor takes through the origin
+    r = rhs.r.distance if isinstance(rhs.r, AbstractDistance) else rhs.r
+    phi = rhs.phi + jax.numpy.where(lhs < 0, 1, 0) * Angle(180, "deg")
+    return replace(rhs, r=abs(lhs) * r, phi=converter_azimuth_to_range(phi))
 
 
 #####################################################################
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index 63a1195..f335396 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -17,7 +17,6 @@ from quax import register
 
 import quaxed.lax as qlax
 import quaxed.numpy as jnp
-from dataclassish import replace
 from dataclassish.converters import Unless
 from unxt.quantity import AbstractQuantity, Quantity
 
@@ -215,8 +214,9 @@ def _mul_p_vmsph(lhs: ArrayLike, rhs: MathSphericalPos, /) -> MathSphericalPos:
     lhs = eqx.error_if(
         lhs, any(jax.numpy.shape(lhs)), f"must be a scalar, not {type(lhs)}"
     )
-    # Scale the radial distance
-    return replace(rhs, r=lhs * rhs.r)
+    # Scale the radial distance, which a negative factor takes through the origin
+    r = rhs.r.distance if isinstance(rhs.r, AbstractDistance) else rhs.r
+    return MathSphericalPos.from_(r=lhs * r, theta=rhs.theta, phi=rhs.phi)
 
 
 ##############################################################################
-- 
2.43.0


From 842b99b08c5793b76efdd1667f130e6c83402bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:18 +0000
Subject: [PATCH 17/34] fix: index, reshape and compare a Space member by
 member

Also refuse a Space that names one member twice.
---
 src/coordinax/_src/vectors/base/base.py  |  5 +++-
 src/coordinax/_src/vectors/space/core.py |  5 ++--
 src/coordinax/_src/vectors/utils.py      | 31 ++++++++++--------------
 3 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 6b91cea..573d9d1 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -617,7 +617,10 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
             return NotImplemented
 
         # Compare field by field: the units, and the shapes, can differ.
-        comps = (jnp.equal(v, getattr(other, k)) for k, v in field_items(self))
+        lhs, rhs = dict(field_items(self)), dict(field_items(other))
+        if lhs.keys() != rhs.keys():  # collections of different vectors
+            return NotImplemented
+        comps = (v == rhs[k] for k, v in lhs.items())
         return reduce(jax.numpy.logical_and, comps)
 
     def __ne__(self: "AbstractVector", other: object) -> Any:
diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index 31e4b44..e933233 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -27,6 +27,7 @@ from coordinax._src.vectors.base import (
     AbstractVector,
     AbstractVel,
 )
+from coordinax._src.vectors.utils import full_shaped
 
 DimensionLike: TypeAlias = Dimension | str
 
@@ -113,7 +114,7 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         keys = [_get_dimension_name(k) for k in raw]
         keys = eqx.error_if(
             keys,
-            len(keys) < len(raw),
+            len(set(keys)) < len(raw),
             f"Space(**input) contained duplicate keys {set(raw) - set(keys)}.",
         )
         # TODO: check the key dimension makes sense for the value
@@ -217,7 +218,7 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         highlights core python indexing.
 
         """
-        return Space(**{k: v[key] for k, v in self.items()})
+        return Space(**{k: v[key] for k, v in full_shaped(self).items()})
 
     @dispatch
     def __getitem__(self, key: str | Dimension) -> Any:
diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index 563043a..291bde7 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -2,11 +2,10 @@
 
 __all__: list[str] = []
 
-from dataclasses import replace as _dataclass_replace
 from typing import TYPE_CHECKING, Any
 
 import quaxed.numpy as jnp
-from dataclassish import field_items
+from dataclassish import field_items, replace
 
 from .base.flags import AttrFilter
 
@@ -32,19 +31,15 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     (2,)
 
     """
-    # The only component of a vector already has the full shape.
-    if len(obj.components) == 1:
-        return obj
-    return _broadcast_components(obj, obj.shape)
-
-
-def _broadcast_components(obj: Any, shape: tuple[int, ...], /) -> Any:
-    """Broadcast an array, or each of the components of a vector."""
-    if not hasattr(obj, "components"):
-        return jnp.broadcast_to(obj, shape)
-    return _dataclass_replace(
-        obj,
-        **{
-            k: _broadcast_components(v, shape) for k, v in field_items(AttrFilter, obj)
-        },
-    )
+    return _broadcast_vector(obj, obj.shape)
+
+
+def _broadcast_vector(obj: Any, shape: tuple[int, ...], /) -> Any:
+    """Broadcast the components of a vector, or the members of a space."""
+    items = dict(field_items(AttrFilter, obj))
+    for k, v in items.items():
+        if hasattr(v, "shapes"):  # a vector, e.g. the member of a space
+            items[k] = _broadcast_vector(v, shape)
+        else:  # an array, perhaps with a feature axis after the batch axes
+            items[k] = jnp.broadcast_to(v, shape + v.shape[obj.ndim :])
+    return replace(obj, **items)
-- 
2.43.0


From 2ab9bdc04b27242f27f4a3e3ec3e1f3030d464ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 18/34] fix: simplify spatial translations of any dimension

---
 src/coordinax/_src/operators/galilean/spatial_translation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/spatial_translation.py b/src/coordinax/_src/operators/galilean/spatial_translation.py
index 873627e..52fb52b 100644
--- a/src/coordinax/_src/operators/galilean/spatial_translation.py
+++ b/src/coordinax/_src/operators/galilean/spatial_translation.py
@@ -389,7 +389,7 @@ def simplify_op(
     """
     # Check if the translation is zero.
     if jnp.allclose(
-        convert(op.translation, u.Quantity).value, jnp.zeros((3,)), **kwargs
+        convert(op.translation, u.Quantity).value, jnp.zeros(()), **kwargs
     ):
         return Identity()
     return op
-- 
2.43.0


From 30f5c19baba64a0ac44271762c1c9c22bdf350fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 19/34] fix: give 2D Cartesian velocities a norm

---
 src/coordinax/_src/vectors/d2/cartesian.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index d397af1..e62f729 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -190,6 +190,23 @@ class CartesianVel2D(AvalMixin, AbstractVel2D):
     def differential_cls(cls) -> type["CartesianAcc2D"]:
         return CartesianAcc2D
 
+    # -----------------------------------------------------
+
+    @override
+    @partial(eqx.filter_jit, inline=True)
+    def norm(self, _: AbstractPos2D | None = None, /) -> ct.BatchableSpeed:
+        """Return the norm of the vector.
+
+        Examples
+        --------
+        >>> import coordinax as cx
+        >>> v = cx.vecs.CartesianVel2D.from_([3, 4], "km/s")
+        >>> v.norm()
+        Quantity['speed'](Array(5., dtype=float32), unit='km / s')
+
+        """
+        return jnp.sqrt(self.d_x**2 + self.d_y**2)
+
 
 # -----------------------------------------------------
 
-- 
2.43.0


From 75132d170763195583647295acff20132ff7ae44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 20/34] fix: convert parallaxes and distance moduli to lengths
 across dimensions

---
 src/coordinax/_src/vectors/transform/d1.py | 10 +++++-----
 src/coordinax/_src/vectors/transform/d2.py | 10 +++++-----
 src/coordinax/_src/vectors/transform/d3.py | 20 ++++++++++----------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/d1.py b/src/coordinax/_src/vectors/transform/d1.py
index ca27163..7501196 100644
--- a/src/coordinax/_src/vectors/transform/d1.py
+++ b/src/coordinax/_src/vectors/transform/d1.py
@@ -284,7 +284,7 @@ def represent_as(
     Quantity['length'](Array(14., dtype=float32), unit='km')
 
     """
-    return target(x=current.r, y=y)
+    return target(x=current.r.distance, y=y)
 
 
 @dispatch
@@ -319,7 +319,7 @@ def represent_as(
     Angle(Array(14., dtype=float32), unit='deg')
 
     """
-    return target(r=current.r, phi=phi)
+    return target(r=current.r.distance, phi=phi)
 
 
 # -----------------------------------------------
@@ -364,7 +364,7 @@ def represent_as(
     Quantity['length'](Array(0., dtype=float32), unit='m')
 
     """
-    return target(x=current.r, y=y, z=z)
+    return target(x=current.r.distance, y=y, z=z)
 
 
 @dispatch
@@ -426,7 +426,7 @@ def represent_as(
     Angle(Array(14., dtype=float32), unit='deg')
 
     """
-    r, theta, phi = jnp.broadcast_arrays(current.r, theta, phi)
+    r, theta, phi = jnp.broadcast_arrays(current.r.distance, theta, phi)
     return target.from_(r=r, theta=theta, phi=phi)
 
 
@@ -468,4 +468,4 @@ def represent_as(
     Quantity['length'](Array(0., dtype=float32), unit='m')
 
     """
-    return target(rho=current.r, phi=phi, z=z)
+    return target(rho=current.r.distance, phi=phi, z=z)
diff --git a/src/coordinax/_src/vectors/transform/d2.py b/src/coordinax/_src/vectors/transform/d2.py
index b4900fb..e26b3e8 100644
--- a/src/coordinax/_src/vectors/transform/d2.py
+++ b/src/coordinax/_src/vectors/transform/d2.py
@@ -245,7 +245,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.cos(current.phi))
+    return target(x=current.r.distance * jnp.cos(current.phi))
 
 
 @dispatch
@@ -272,7 +272,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r)
+    return target(r=current.r.distance)
 
 
 # -----------------------------------------------
@@ -305,7 +305,7 @@ def represent_as(
     Angle(Array(14., dtype=float32), unit='deg')
 
     """
-    return target.from_(r=current.r, theta=theta, phi=current.phi)
+    return target.from_(r=current.r.distance, theta=theta, phi=current.phi)
 
 
 @dispatch
@@ -334,7 +334,7 @@ def represent_as(
     Angle(Array(14., dtype=float32), unit='deg')
 
     """
-    return target.from_(r=current.r, phi=phi, theta=current.phi)
+    return target.from_(r=current.r.distance, phi=phi, theta=current.phi)
 
 
 @dispatch
@@ -364,4 +364,4 @@ def represent_as(
     Quantity['length'](Array(14., dtype=float32), unit='km')
 
     """
-    return target(rho=current.r, phi=current.phi, z=z)
+    return target(rho=current.r.distance, phi=current.phi, z=z)
diff --git a/src/coordinax/_src/vectors/transform/d3.py b/src/coordinax/_src/vectors/transform/d3.py
index c3f1cb8..a1dc0ab 100644
--- a/src/coordinax/_src/vectors/transform/d3.py
+++ b/src/coordinax/_src/vectors/transform/d3.py
@@ -293,7 +293,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.sin(current.theta) * jnp.cos(current.phi))
+    return target(x=current.r.distance * jnp.sin(current.theta) * jnp.cos(current.phi))
 
 
 @dispatch
@@ -320,7 +320,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r)
+    return target(r=current.r.distance)
 
 
 # -----------------------------------------------
@@ -352,8 +352,8 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    x = current.r * jnp.sin(current.theta) * jnp.cos(current.phi)
-    y = current.r * jnp.sin(current.theta) * jnp.sin(current.phi)
+    x = current.r.distance * jnp.sin(current.theta) * jnp.cos(current.phi)
+    y = current.r.distance * jnp.sin(current.theta) * jnp.sin(current.phi)
     return target(x=x, y=y)
 
 
@@ -382,7 +382,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.theta), phi=current.phi)
+    return target(r=current.r.distance * jnp.sin(current.theta), phi=current.phi)
 
 
 # =============================================================================
@@ -417,7 +417,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(x=current.r * jnp.sin(current.phi) * jnp.cos(current.theta))
+    return target(x=current.r.distance * jnp.sin(current.phi) * jnp.cos(current.theta))
 
 
 @dispatch
@@ -444,7 +444,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r)
+    return target(r=current.r.distance)
 
 
 # -----------------------------------------------
@@ -476,8 +476,8 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    x = current.r * jnp.sin(current.phi) * jnp.cos(current.theta)
-    y = current.r * jnp.sin(current.phi) * jnp.sin(current.theta)
+    x = current.r.distance * jnp.sin(current.phi) * jnp.cos(current.theta)
+    y = current.r.distance * jnp.sin(current.phi) * jnp.sin(current.theta)
     return target(x=x, y=y)
 
 
@@ -506,7 +506,7 @@ def represent_as(
 
     """
     warn("irreversible dimension change", IrreversibleDimensionChange, stacklevel=2)
-    return target(r=current.r * jnp.sin(current.phi), phi=current.theta)
+    return target(r=current.r.distance * jnp.sin(current.phi), phi=current.theta)
 
 
 # =============================================================================
-- 
2.43.0


From 3e201d7dcd164f2a3543d7b4a55517e02fab27a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:53 +0000
Subject: [PATCH 21/34] fix: convert velocities and accelerations from and to
 spheroidal coordinates

---
 src/coordinax/_src/vectors/d3/transform.py      |  6 +++---
 .../_src/vectors/transform/accelerations.py     | 17 ++++++++++-------
 .../_src/vectors/transform/velocities.py        |  5 ++++-
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/transform.py b/src/coordinax/_src/vectors/d3/transform.py
index a34d35e..510075a 100644
--- a/src/coordinax/_src/vectors/d3/transform.py
+++ b/src/coordinax/_src/vectors/d3/transform.py
@@ -868,7 +868,7 @@ def represent_as(
         )
 
     # Transform the differential to LonLatSphericalVel
-    current = represent_as(current, LonLatSphericalVel, posvec)
+    current = represent_as(current, LonLatSphericalVel, posvec, **kwargs)
 
     # Transform the position to the required type
     posvec = represent_as(posvec, current.integral_cls)
@@ -926,9 +926,9 @@ def represent_as(
             position
         )
     # Transform the differential to LonLatSphericalVel
-    current = represent_as(current, LonLatSphericalVel, posvec)
+    current = represent_as(current, LonLatSphericalVel, posvec, **kwargs)
     # Transform the position to the required type
-    return represent_as(current, target, posvec)
+    return represent_as(current, target, posvec, **kwargs)
 
 
 # =============================================================================
diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index 32df3da..f3af7f8 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -3,6 +3,7 @@
 __all__: list[str] = []
 
 from dataclasses import replace
+from functools import partial
 from math import prod
 from typing import Any
 
@@ -16,6 +17,7 @@ from dataclassish import field_items
 
 from coordinax._src.distances import AbstractDistance
 from coordinax._src.vectors.base import AbstractAcc, AbstractPos, AbstractVel
+from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractAcc1D
 from coordinax._src.vectors.d2 import AbstractAcc2D
 from coordinax._src.vectors.d3 import AbstractAcc3D
@@ -148,7 +150,7 @@ def represent_as(
         current_pos,
         **{
             k: v.distance
-            for k, v in field_items(current_pos)
+            for k, v in field_items(AttrFilter, current_pos)
             if isinstance(v, AbstractDistance)
         },
     )
@@ -163,6 +165,11 @@ def represent_as(
     # the correct numerator unit (of the Jacobian row). The value is a Vector of the
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
+    # Parameters of the representation, e.g. the focal length ``Delta`` of
+    # spheroidal coordinates, are not batched.
+    tmp = partial(represent_as, **kwargs)
+    in_axes = (jax.tree.map(lambda x: 0 if jnp.ndim(x) > 0 else None, current_pos), None)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=in_axes))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
@@ -171,9 +178,9 @@ def represent_as(
     jac_rows = {
         f"d2_{k}": {
             kk: u.Quantity(vv.value, unit=v.unit / vv.unit)
-            for kk, vv in field_items(v.value)
+            for kk, vv in field_items(AttrFilter, v.value)
         }
-        for k, v in field_items(jac_nested_vecs)
+        for k, v in field_items(AttrFilter, jac_nested_vecs)
     }
 
     # Now we can use the Jacobian to transform the differential.
@@ -197,7 +204,3 @@ def represent_as(
     #       This is necessary for the df/dt * vel term in the chain rule.
 
     return newvec  # noqa: RET504
-
-
-# TODO: situate this better to show how represent_as is used
-jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(represent_as), in_axes=(0, None)))
diff --git a/src/coordinax/_src/vectors/transform/velocities.py b/src/coordinax/_src/vectors/transform/velocities.py
index 6310fc1..3d9ec7d 100644
--- a/src/coordinax/_src/vectors/transform/velocities.py
+++ b/src/coordinax/_src/vectors/transform/velocities.py
@@ -130,8 +130,11 @@ def represent_as(
     # the correct numerator unit (of the Jacobian row). The value is a Vector of the
     # original type, with fields that are the columns of that row, but with only the
     # denomicator's units.
+    # Parameters of the representation, e.g. the focal length ``Delta`` of
+    # spheroidal coordinates, are not batched.
     tmp = partial(represent_as, **kwargs)
-    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=(0, None)))
+    in_axes = (jax.tree.map(lambda x: 0 if jnp.ndim(x) > 0 else None, current_pos), None)
+    jac_rep_as = eqx.filter_jit(jax.vmap(jax.jacfwd(tmp), in_axes=in_axes))
     jac_nested_vecs = jac_rep_as(current_pos, target.integral_cls)
 
     # This changes the Jacobian to be a dictionary of each row, with the value
-- 
2.43.0


From 7121424e3a489af91917bfa485232343d7b76640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:15 +0000
Subject: [PATCH 22/34] fix: normalise every angle, distance kind and shape
 given to a spherical position

---
 .../_src/vectors/d3/lonlatspherical.py        | 23 ++++++++++++-------
 .../_src/vectors/d3/mathspherical.py          | 15 +++++++-----
 src/coordinax/_src/vectors/d3/spherical.py    | 15 +++++++-----
 3 files changed, 33 insertions(+), 20 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/lonlatspherical.py b/src/coordinax/_src/vectors/d3/lonlatspherical.py
index feb7a9f..79ab047 100644
--- a/src/coordinax/_src/vectors/d3/lonlatspherical.py
+++ b/src/coordinax/_src/vectors/d3/lonlatspherical.py
@@ -25,6 +25,7 @@ from .base_spherical import (
     AbstractSphericalVel,
     _90d,
     _180d,
+    _360d,
 )
 from coordinax._src.angles import Angle, BatchableAngle
 from coordinax._src.distances import AbstractDistance, BatchableDistance, Distance
@@ -221,22 +222,28 @@ def from_(
     lon = fields["lon"].metadata["converter"](lon)
     lat = fields["lat"].metadata["converter"](lat)
     distance = fields["distance"].metadata["converter"](distance)
+    lon, lat, distance = jnp.broadcast_arrays(lon, lat, distance)
 
-    # 2) handle negative distances
-    distance_pred = distance < jnp.zeros_like(distance)
-    distance = qlax.select(distance_pred, -distance, distance)
-    lon = qlax.select(distance_pred, lon + _180d, lon)
-    lat = qlax.select(distance_pred, -lat, lat)
+    # 2) handle negative distances. Only a length can be negative: a parallax or
+    # a distance modulus always is that of a positive distance.
+    if isinstance(distance, Distance):
+        distance_pred = distance < jnp.zeros_like(distance)
+        distance = qlax.select(distance_pred, -distance, distance)
+        lon = qlax.select(distance_pred, converter_azimuth_to_range(lon + _180d), lon)
+        lat = qlax.select(distance_pred, -lat, lat)
 
     # 3) Handle latitude outside of [-90, 90] degrees
-    # TODO: fix when lat < -180, lat > 180
+    lat = qlax.select(
+        jnp.abs(lat) > _180d, jnp.mod(lat + _180d, _360d) - _180d, lat
+    )
+
     lat_pred = lat < -_90d
     lat = qlax.select(lat_pred, -_180d - lat, lat)
-    lon = qlax.select(lat_pred, lon + _180d, lon)
+    lon = qlax.select(lat_pred, converter_azimuth_to_range(lon + _180d), lon)
 
     lat_pred = lat > _90d
     lat = qlax.select(lat_pred, _180d - lat, lat)
-    lon = qlax.select(lat_pred, lon + _180d, lon)
+    lon = qlax.select(lat_pred, converter_azimuth_to_range(lon + _180d), lon)
 
     # 4) Construct. This also handles the longitude wrapping
     return cls(lon=lon, lat=lat, distance=distance)
diff --git a/src/coordinax/_src/vectors/d3/mathspherical.py b/src/coordinax/_src/vectors/d3/mathspherical.py
index f335396..c13adb8 100644
--- a/src/coordinax/_src/vectors/d3/mathspherical.py
+++ b/src/coordinax/_src/vectors/d3/mathspherical.py
@@ -165,18 +165,21 @@ def from_(
     r = fields["r"].metadata["converter"](r)
     theta = fields["theta"].metadata["converter"](theta)
     phi = fields["phi"].metadata["converter"](phi)
+    r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
-    # 2) handle negative distances
-    r_pred = r < jnp.zeros_like(r)
-    r = qlax.select(r_pred, -r, r)
-    theta = qlax.select(r_pred, theta + _180d, theta)
-    phi = qlax.select(r_pred, _180d - phi, phi)
+    # 2) handle negative distances. Only a length can be negative: a parallax or
+    # a distance modulus always is that of a positive distance.
+    if isinstance(r, Distance):
+        r_pred = r < jnp.zeros_like(r)
+        r = qlax.select(r_pred, -r, r)
+        theta = qlax.select(r_pred, converter_azimuth_to_range(theta + _180d), theta)
+        phi = qlax.select(r_pred, _180d - phi, phi)
 
     # 3) Handle polar angle outside of [0, 180] degrees
     phi = jnp.mod(phi, _360d)  # wrap to [0, 360) deg
     phi_pred = phi < _180d
     phi = qlax.select(phi_pred, phi, _360d - phi)
-    theta = qlax.select(phi_pred, theta, theta + _180d)
+    theta = qlax.select(phi_pred, theta, converter_azimuth_to_range(theta + _180d))
 
     # 4) Construct. This also handles the azimuthal angle wrapping
     return cls(r=r, theta=theta, phi=phi)
diff --git a/src/coordinax/_src/vectors/d3/spherical.py b/src/coordinax/_src/vectors/d3/spherical.py
index f7dc3db..9892f22 100644
--- a/src/coordinax/_src/vectors/d3/spherical.py
+++ b/src/coordinax/_src/vectors/d3/spherical.py
@@ -144,18 +144,21 @@ def from_(
     r = fields["r"].metadata["converter"](r)
     theta = fields["theta"].metadata["converter"](theta)
     phi = fields["phi"].metadata["converter"](phi)
+    r, theta, phi = jnp.broadcast_arrays(r, theta, phi)
 
-    # 2) handle negative distances
-    r_pred = r < jnp.zeros_like(r)
-    r = qlax.select(r_pred, -r, r)
-    phi = qlax.select(r_pred, phi + _180d, phi)
-    theta = qlax.select(r_pred, _180d - theta, theta)
+    # 2) handle negative distances. Only a length can be negative: a parallax or
+    # a distance modulus always is that of a positive distance.
+    if isinstance(r, Distance):
+        r_pred = r < jnp.zeros_like(r)
+        r = qlax.select(r_pred, -r, r)
+        phi = qlax.select(r_pred, converter_azimuth_to_range(phi + _180d), phi)
+        theta = qlax.select(r_pred, _180d - theta, theta)
 
     # 3) Handle polar angle outside of [0, 180] degrees
     theta = jnp.mod(theta, _360d)  # wrap to [0, 360) deg
     theta_pred = theta < _180d
     theta = qlax.select(theta_pred, theta, _360d - theta)
-    phi = qlax.select(theta_pred, phi, phi + _180d)
+    phi = qlax.select(theta_pred, phi, converter_azimuth_to_range(phi + _180d))
 
     # 4) Construct. This also handles the azimuthal angle wrapping
     return cls(r=r, theta=theta, phi=phi)
-- 
2.43.0


From 0672ac3d8fbe46c9b83d1c8641450cf1c55e2695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 23/34] fix: report a vector's size inside jit

---
 src/coordinax/_src/vectors/base/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/vectors/base/base.py b/src/coordinax/_src/vectors/base/base.py
index 573d9d1..70be3e5 100644
--- a/src/coordinax/_src/vectors/base/base.py
+++ b/src/coordinax/_src/vectors/base/base.py
@@ -7,6 +7,7 @@ __all__ = [
     "ToUnitsOptions",
 ]
 
+import math
 from abc import abstractmethod
 from collections.abc import Callable, Mapping
 from enum import Enum
@@ -415,7 +416,7 @@ class AbstractVector(IPythonReprMixin, ArrayValue):  # type: ignore[misc]
         4
 
         """
-        return int(jnp.prod(jnp.asarray(self.shape)))
+        return math.prod(self.shape)
 
     @property
     def T(self) -> "Self":  # noqa: N802
-- 
2.43.0


From 95fdd47ad8f3f95180170e5255c516a8c9ab2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:40 +0000
Subject: [PATCH 24/34] fix: rotate spheroidal positions

---
 src/coordinax/_src/operators/galilean/rotation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coordinax/_src/operators/galilean/rotation.py b/src/coordinax/_src/operators/galilean/rotation.py
index 8fa7f6c..c1a42a3 100644
--- a/src/coordinax/_src/operators/galilean/rotation.py
+++ b/src/coordinax/_src/operators/galilean/rotation.py
@@ -17,6 +17,7 @@ from quax import quaxify
 
 import quaxed.numpy as jnp
 import unxt as u
+from dataclassish import field_items
 
 from .base import AbstractGalileanOperator
 from coordinax._src.angles import Angle
@@ -286,7 +287,10 @@ class GalileanRotation(AbstractGalileanOperator):
             u.Quantity,
         )
         rcart = CartesianPos3D.from_(vec_matmul(self.rotation, vec))
-        return rcart.represent_as(type(q))
+        # Attributes that are not components, e.g. ``Delta`` of spheroidal
+        # coordinates, are kept.
+        attrs = {k: v for k, v in field_items(q) if k not in q.components}
+        return rcart.represent_as(type(q), **attrs)
 
     @AbstractOperator.__call__.dispatch
     def __call__(
-- 
2.43.0


From 094df3e68c1d8032276551dafeb14d92e5aa6997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:12 +0000
Subject: [PATCH 25/34] fix: simplify_op of a GalileanTranslation compares
 position and time in their own units

The four-vector was converted to one Quantity whose unit is that of c*t, so with
e.g. time in Gyr a shift by kilometres was below the absolute tolerance and the
translation was dropped.
---
 src/coordinax/_src/operators/galilean/translation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/operators/galilean/translation.py b/src/coordinax/_src/operators/galilean/translation.py
index 6dd16e3..a5109da 100644
--- a/src/coordinax/_src/operators/galilean/translation.py
+++ b/src/coordinax/_src/operators/galilean/translation.py
@@ -247,9 +247,11 @@ def simplify_op(
     Identity()
 
     """
-    # Check if the translation is zero.
-    if jnp.allclose(
-        convert(op.translation, u.Quantity).value, jnp.zeros((4,)), **kwargs
+    # Check if the translation is zero. The spatial and time parts are compared
+    # in their own units: in a joint unit one can swamp the other.
+    q, t = convert(op.translation.q, u.Quantity), op.translation.t
+    if jnp.allclose(q.value, jnp.zeros((3,)), **kwargs) and jnp.allclose(
+        t.value, jnp.zeros(()), **kwargs
     ):
         return Identity()
     # TODO: Check if the translation is purely spatial.
-- 
2.43.0


From 03de939f559897ae4ac231d3ec81c55bbdbc930c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:24 +0000
Subject: [PATCH 26/34] fix: find a Space's members under every name of their
 dimension

---
 src/coordinax/_src/vectors/space/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coordinax/_src/vectors/space/core.py b/src/coordinax/_src/vectors/space/core.py
index e933233..c1b8ecc 100644
--- a/src/coordinax/_src/vectors/space/core.py
+++ b/src/coordinax/_src/vectors/space/core.py
@@ -3,6 +3,7 @@
 __all__ = ["Space"]
 
 from collections.abc import Callable, Iterable, Mapping
+from contextlib import suppress
 from textwrap import indent
 from types import MappingProxyType
 from typing import Any, TypeAlias, final
@@ -250,8 +251,13 @@ class Space(AbstractVector, ImmutableMap[Dimension, AbstractVector]):  # type: i
         )
 
         """
+        # The members are stored under the canonical name of their dimension,
+        # e.g. 'speed' for 'velocity'.
         if isinstance(key, Dimension):
             key = _get_dimension_name(key)
+        elif key not in self._data:
+            with suppress(ValueError):  # not a dimension: let the lookup fail
+                key = _get_dimension_name(key)
 
         return ImmutableMap.__getitem__(self, key)
 
-- 
2.43.0


From fc1cd77aa2ebb3cc37f82b9c5b005243267c6c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:53 +0000
Subject: [PATCH 27/34] fix: broadcast a velocity or acceleration against the
 position it is converted at

---
 .../_src/vectors/transform/accelerations.py       | 15 ++++++++-------
 .../_src/vectors/transform/velocities.py          | 13 +++++++------
 src/coordinax/_src/vectors/utils.py               |  6 +++---
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/coordinax/_src/vectors/transform/accelerations.py b/src/coordinax/_src/vectors/transform/accelerations.py
index f3af7f8..7adeeea 100644
--- a/src/coordinax/_src/vectors/transform/accelerations.py
+++ b/src/coordinax/_src/vectors/transform/accelerations.py
@@ -21,6 +21,7 @@ from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractAcc1D
 from coordinax._src.vectors.d2 import AbstractAcc2D
 from coordinax._src.vectors.d3 import AbstractAcc3D
+from coordinax._src.vectors.utils import broadcast_vector
 
 
 # TODO: implement for cross-representations
@@ -119,10 +120,6 @@ def represent_as(
     )
 
     """
-    # TODO: not require the shape munging / support more shapes
-    shape = current.shape
-    flat_shape = prod(shape)
-
     # Parse the position to an AbstractPos
     if isinstance(position, AbstractPos):
         posvec = position
@@ -139,8 +136,12 @@ def represent_as(
             velocity
         )
 
-    posvec = posvec.reshape(flat_shape)  # flattened
-    velvec = velvec.reshape(flat_shape)  # flattened
+    # The vectors broadcast against each other.
+    # TODO: not require the shape munging
+    shape = jnp.broadcast_shapes(current.shape, velvec.shape, posvec.shape)
+    flat_shape = prod(shape)
+    posvec = broadcast_vector(posvec, shape).reshape(flat_shape)  # flattened
+    velvec = broadcast_vector(velvec, shape).reshape(flat_shape)  # flattened
 
     # Start by transforming the position to the type required by the
     # differential to construct the Jacobian.
@@ -184,7 +185,7 @@ def represent_as(
     }
 
     # Now we can use the Jacobian to transform the differential.
-    flat_current = current.reshape(flat_shape)
+    flat_current = broadcast_vector(current, shape).reshape(flat_shape)
     newvec = target(
         **{  # Each field is the dot product of the row of the J and the diff column.
             k: jnp.sum(  # Doing the dot product.
diff --git a/src/coordinax/_src/vectors/transform/velocities.py b/src/coordinax/_src/vectors/transform/velocities.py
index 3d9ec7d..6128ef3 100644
--- a/src/coordinax/_src/vectors/transform/velocities.py
+++ b/src/coordinax/_src/vectors/transform/velocities.py
@@ -21,6 +21,7 @@ from coordinax._src.vectors.base.flags import AttrFilter
 from coordinax._src.vectors.d1 import AbstractVel1D
 from coordinax._src.vectors.d2 import AbstractVel2D
 from coordinax._src.vectors.d3 import AbstractVel3D
+from coordinax._src.vectors.utils import broadcast_vector
 
 
 # TODO: implement for cross-representations
@@ -97,10 +98,6 @@ def represent_as(
     )
 
     """
-    # TODO: not require the shape munging / support more shapes
-    shape = current.shape
-    flat_shape = prod(shape)
-
     # Parse the position to an AbstractPos
     if isinstance(position, AbstractPos):
         posvec = position
@@ -109,7 +106,11 @@ def represent_as(
             position
         )
 
-    posvec = posvec.reshape(flat_shape)  # flattened
+    # The vectors broadcast against each other.
+    # TODO: not require the shape munging
+    shape = jnp.broadcast_shapes(current.shape, posvec.shape)
+    flat_shape = prod(shape)
+    posvec = broadcast_vector(posvec, shape).reshape(flat_shape)  # flattened
 
     # Start by transforming the position to the type required by the
     # differential to construct the Jacobian.
@@ -149,7 +150,7 @@ def represent_as(
     }
 
     # Now we can use the Jacobian to transform the differential.
-    flat_current = current.reshape(flat_shape)
+    flat_current = broadcast_vector(current, shape).reshape(flat_shape)
     newvec = target(
         **{  # Each field is the dot product of the row of the J and the diff column.
             k: jnp.sum(  # Doing the dot product.
diff --git a/src/coordinax/_src/vectors/utils.py b/src/coordinax/_src/vectors/utils.py
index 291bde7..a67148b 100644
--- a/src/coordinax/_src/vectors/utils.py
+++ b/src/coordinax/_src/vectors/utils.py
@@ -31,15 +31,15 @@ def full_shaped(obj: "AbstractVector", /) -> "AbstractVector":
     (2,)
 
     """
-    return _broadcast_vector(obj, obj.shape)
+    return broadcast_vector(obj, obj.shape)
 
 
-def _broadcast_vector(obj: Any, shape: tuple[int, ...], /) -> Any:
+def broadcast_vector(obj: Any, shape: tuple[int, ...], /) -> Any:
     """Broadcast the components of a vector, or the members of a space."""
     items = dict(field_items(AttrFilter, obj))
     for k, v in items.items():
         if hasattr(v, "shapes"):  # a vector, e.g. the member of a space
-            items[k] = _broadcast_vector(v, shape)
+            items[k] = broadcast_vector(v, shape)
         else:  # an array, perhaps with a feature axis after the batch axes
             items[k] = jnp.broadcast_to(v, shape + v.shape[obj.ndim :])
     return replace(obj, **items)
-- 
2.43.0


From d93b331a1adbcf78c5c40cd53c2ef4019f78fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:44 +0000
Subject: [PATCH 28/34] fix: convert a FourVector whose time is broadcast
 against its position to a Quantity

---
 src/coordinax/_src/vectors/d4/compat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordinax/_src/vectors/d4/compat.py b/src/coordinax/_src/vectors/d4/compat.py
index 4ec6cf8..68dcbaa 100644
--- a/src/coordinax/_src/vectors/d4/compat.py
+++ b/src/coordinax/_src/vectors/d4/compat.py
@@ -10,10 +10,12 @@ import quaxed.numpy as jnp
 import unxt as u
 
 from .spacetime import FourVector
+from coordinax._src.vectors.utils import full_shaped
 
 
 @conversion_method(type_from=FourVector, type_to=u.Quantity)  # type: ignore[misc]
 def vec_to_q(obj: FourVector, /) -> Shaped[u.Quantity["length"], "*batch 4"]:
     """`coordinax.AbstractPos3D` -> `unxt.Quantity`."""
+    obj = full_shaped(obj)  # the time may have fewer axes than the position
     cart = convert(obj.q, u.Quantity)
     return jnp.concat([obj.c * obj.t[..., None], cart], axis=-1)
-- 
2.43.0


From 8bcf9cfd0cac038c2a2ec1fc972a5c3c02c565ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:37 +0000
Subject: [PATCH 29/34] fix: 1D vectors built from an array of shape (N,) kept
 only the first element

---
 src/coordinax/_src/vectors/d1/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d1/base.py b/src/coordinax/_src/vectors/d1/base.py
index e7f443f..78fe437 100644
--- a/src/coordinax/_src/vectors/d1/base.py
+++ b/src/coordinax/_src/vectors/d1/base.py
@@ -69,7 +69,9 @@ def from_(
     RadialPos(r=Distance(value=f32[], unit=Unit("m")))
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    # a last axis of length 1 is the component axis, any other a batch axis
+    comp = obj[..., 0] if obj.shape[-1:] == (1,) else obj
+    comps = {f.name: comp for f in fields(cls)}
     return cls(**comps)
 
 
@@ -129,7 +131,9 @@ def from_(
     RadialVel( d_r=Quantity[...]( value=i32[], unit=Unit("m / s") ) )
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    # a last axis of length 1 is the component axis, any other a batch axis
+    comp = obj[..., 0] if obj.shape[-1:] == (1,) else obj
+    comps = {f.name: comp for f in fields(cls)}
     return cls(**comps)
 
 
@@ -183,5 +187,7 @@ def from_(
     RadialAcc( d2_r=Quantity[...](value=i32[], unit=Unit("m / s2")) )
 
     """
-    comps = {f.name: jnp.atleast_1d(obj)[..., i] for i, f in enumerate(fields(cls))}
+    # a last axis of length 1 is the component axis, any other a batch axis
+    comp = obj[..., 0] if obj.shape[-1:] == (1,) else obj
+    comps = {f.name: comp for f in fields(cls)}
     return cls(**comps)
-- 
2.43.0


From e8037d1caf86da9f8234821e986f120227fe9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:37 +0000
Subject: [PATCH 30/34] fix: converting an N-D position to an UncheckedQuantity
 or Distance added a spurious axis

---
 src/coordinax/_src/vectors/dn/cartesian.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/coordinax/_src/vectors/dn/cartesian.py b/src/coordinax/_src/vectors/dn/cartesian.py
index eefdf73..c0be561 100644
--- a/src/coordinax/_src/vectors/dn/cartesian.py
+++ b/src/coordinax/_src/vectors/dn/cartesian.py
@@ -10,16 +10,17 @@ from typing_extensions import override
 import equinox as eqx
 import jax
 from jaxtyping import ArrayLike, Shaped
-from plum import conversion_method
+from plum import conversion_method, convert
 from quax import register
 
 import quaxed.lax as qlax
 import quaxed.numpy as jnp
 import unxt as u
+from unxt.quantity import UncheckedQuantity
 
 import coordinax._src.typing as ct
 from .base import AbstractAccND, AbstractPosND, AbstractVelND
-from coordinax._src.distances import BatchableLength
+from coordinax._src.distances import BatchableLength, Distance
 from coordinax._src.utils import classproperty
 from coordinax._src.vectors.base import AbstractPos
 from coordinax._src.vectors.base.mixins import AvalMixin
@@ -192,6 +193,18 @@ def _vec_to_q(obj: CartesianPosND, /) -> Shaped[u.Quantity["length"], "*batch N"
     return obj.q
 
 
+@conversion_method(CartesianPosND, UncheckedQuantity)  # type: ignore[misc]
+def _vec_to_uncheckedq(obj: CartesianPosND, /) -> UncheckedQuantity:
+    """`coordinax.CartesianPosND` -> `unxt.UncheckedQuantity`."""
+    return convert(obj.q, UncheckedQuantity)
+
+
+@conversion_method(CartesianPosND, Distance)  # type: ignore[misc]
+def _vec_to_distance(obj: CartesianPosND, /) -> Distance:
+    """`coordinax.CartesianPosND` -> `coordinax.Distance`."""
+    return convert(obj.q, Distance)
+
+
 @register(jax.lax.add_p)  # type: ignore[misc]
 def _add_vcnd(lhs: CartesianPosND, rhs: AbstractPos, /) -> CartesianPosND:
     """Add two vectors.
-- 
2.43.0


From efe6c19434f1e99ca9e63d7d3748293748a155f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:37 +0000
Subject: [PATCH 31/34] fix: Cartesian vectors accepted arrays with the wrong
 number of components, dropping or repeating values

---
 src/coordinax/_src/vectors/d2/cartesian.py | 4 +++-
 src/coordinax/_src/vectors/d3/cartesian.py | 2 +-
 src/coordinax/_src/vectors/d3/generic.py   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_src/vectors/d2/cartesian.py b/src/coordinax/_src/vectors/d2/cartesian.py
index e62f729..ce39010 100644
--- a/src/coordinax/_src/vectors/d2/cartesian.py
+++ b/src/coordinax/_src/vectors/d2/cartesian.py
@@ -329,7 +329,9 @@ class CartesianAcc2D(AvalMixin, AbstractAcc2D):
 
 
 @CartesianAcc2D.from_.dispatch  # type: ignore[attr-defined, misc]
-def from_(cls: type[CartesianAcc2D], obj: AbstractQuantity, /) -> CartesianAcc2D:
+def from_(
+    cls: type[CartesianAcc2D], obj: Shaped[AbstractQuantity, "*batch 2"], /
+) -> CartesianAcc2D:
     """Construct a 2D Cartesian velocity.
 
     Examples
diff --git a/src/coordinax/_src/vectors/d3/cartesian.py b/src/coordinax/_src/vectors/d3/cartesian.py
index c5de3dc..e050ef6 100644
--- a/src/coordinax/_src/vectors/d3/cartesian.py
+++ b/src/coordinax/_src/vectors/d3/cartesian.py
@@ -69,7 +69,7 @@ class CartesianPos3D(AbstractPos3D):
 @CartesianPos3D.from_.dispatch  # type: ignore[attr-defined, misc]
 def from_(
     cls: type[CartesianPos3D],
-    obj: AbstractQuantity,  # TODO: Shaped[AbstractQuantity, "*batch 3"]
+    obj: Shaped[AbstractQuantity, "*batch 3"],
     /,
 ) -> CartesianPos3D:
     """Construct a 3D Cartesian position.
diff --git a/src/coordinax/_src/vectors/d3/generic.py b/src/coordinax/_src/vectors/d3/generic.py
index c7b56ca..6b9e49a 100644
--- a/src/coordinax/_src/vectors/d3/generic.py
+++ b/src/coordinax/_src/vectors/d3/generic.py
@@ -10,6 +10,7 @@ from typing import TypeVar, final
 
 import equinox as eqx
 import jax
+from jaxtyping import Shaped
 
 import quaxed.numpy as jnp
 from unxt.quantity import AbstractQuantity, Quantity
@@ -76,7 +77,7 @@ class CartesianGeneric3D(AvalMixin, AbstractVector):
 @CartesianGeneric3D.from_.dispatch  # type: ignore[attr-defined, misc]
 def from_(
     cls: type[CartesianGeneric3D],
-    obj: AbstractQuantity,  # TODO: Shaped[AbstractQuantity, "*batch 3"]
+    obj: Shaped[AbstractQuantity, "*batch 3"],
     /,
 ) -> CartesianGeneric3D:
     """Construct a 3D Cartesian position.
-- 
2.43.0


From 39a4659c80ba80c1b68157dca9fb2bd10d3c5ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:37 +0000
Subject: [PATCH 32/34] fix: from_ of a 3D class given another 3D vector or an
 array returned a different class

---
 src/coordinax/_src/vectors/d3/constructor.py | 26 ++++++++++++++++----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/coordinax/_src/vectors/d3/constructor.py b/src/coordinax/_src/vectors/d3/constructor.py
index 4e04c56..6ba131c 100644
--- a/src/coordinax/_src/vectors/d3/constructor.py
+++ b/src/coordinax/_src/vectors/d3/constructor.py
@@ -12,7 +12,7 @@ from .cartesian import CartesianAcc3D, CartesianPos3D, CartesianVel3D
 
 
 @AbstractPos3D.from_.dispatch(precedence=-1)
-def from_(cls: type[AbstractPos3D], obj: Any, /) -> CartesianPos3D:
+def from_(cls: type[AbstractPos3D], obj: Any, /) -> AbstractPos3D:
     """Try to construct a 3D Cartesian position from an object.
 
     Examples
@@ -29,7 +29,11 @@ def from_(cls: type[AbstractPos3D], obj: Any, /) -> CartesianPos3D:
     )
 
     """
-    return obj if isinstance(obj, CartesianPos3D) else CartesianPos3D.from_(obj)
+    if issubclass(cls, CartesianPos3D):  # nothing else can build it
+        msg = f"Cannot construct {cls} from {obj}."
+        raise TypeError(msg)
+    cart = CartesianPos3D.from_(obj)
+    return cart if isinstance(cart, cls) else cart.represent_as(cls)
 
 
 @AbstractPos3D.from_.dispatch(precedence=1)
@@ -53,7 +57,7 @@ def from_(cls: type[AbstractPos3D], obj: AbstractPos3D, /) -> AbstractPos3D:
     True
 
     """
-    return obj
+    return obj if isinstance(obj, cls) else obj.represent_as(cls)
 
 
 #####################################################################
@@ -77,7 +81,10 @@ def from_(cls: type[AbstractVel3D], obj: Any, /) -> CartesianVel3D:
     )
 
     """
-    return obj if isinstance(obj, CartesianVel3D) else CartesianVel3D.from_(obj)
+    if cls is not AbstractVel3D:
+        msg = f"Cannot construct {cls} from {obj}."
+        raise TypeError(msg)
+    return CartesianVel3D.from_(obj)
 
 
 @AbstractVel3D.from_.dispatch(precedence=1)
@@ -103,6 +110,9 @@ def from_(cls: type[AbstractVel3D], obj: AbstractVel3D, /) -> AbstractVel3D:
     True
 
     """
+    if not isinstance(obj, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
     return obj
 
 
@@ -127,7 +137,10 @@ def from_(cls: type[AbstractAcc3D], obj: Any, /) -> CartesianAcc3D:
     )
 
     """
-    return obj if isinstance(obj, CartesianAcc3D) else CartesianAcc3D.from_(obj)
+    if cls is not AbstractAcc3D:
+        msg = f"Cannot construct {cls} from {obj}."
+        raise TypeError(msg)
+    return CartesianAcc3D.from_(obj)
 
 
 @AbstractAcc3D.from_.dispatch(precedence=1)
@@ -154,4 +167,7 @@ def from_(cls: type[AbstractAcc3D], obj: AbstractAcc3D, /) -> AbstractAcc3D:
     True
 
     """
+    if not isinstance(obj, cls):
+        msg = f"Cannot construct {cls} from {type(obj)}."
+        raise TypeError(msg)
     return obj
-- 
2.43.0


From cd24549c432aaec8c76a6495cffd4fc1c88ec640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:38 +0000
Subject: [PATCH 33/34] fix: converting spherical positions to Astropy put
 parallaxes and distance moduli in the distance, and LonLatSphericalPos was
 registered for the wrong class

---
 .../_interop/coordinax_interop_astropy/converters.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinax/_interop/coordinax_interop_astropy/converters.py b/src/coordinax/_interop/coordinax_interop_astropy/converters.py
index ba591a1..1e82b16 100644
--- a/src/coordinax/_interop/coordinax_interop_astropy/converters.py
+++ b/src/coordinax/_interop/coordinax_interop_astropy/converters.py
@@ -204,7 +204,7 @@ def sph_to_apysph(obj: cx.SphericalPos, /) -> apyc.PhysicsSphericalRepresentatio
 
     """
     return apyc.PhysicsSphericalRepresentation(
-        r=convert(obj.r, apyu.Quantity),
+        r=convert(obj.r.distance, apyu.Quantity),
         phi=convert(obj.phi, apyu.Quantity),
         theta=convert(obj.theta, apyu.Quantity),
     )
@@ -238,7 +238,7 @@ def apysph_to_sph(obj: apyc.PhysicsSphericalRepresentation, /) -> cx.SphericalPo
 
 
 @conversion_method(cx.vecs.LonLatSphericalPos, apyc.BaseRepresentation)  # type: ignore[misc]
-@conversion_method(cx.vecs.LonLatSphericalPos, apyc.PhysicsSphericalRepresentation)  # type: ignore[misc]
+@conversion_method(cx.vecs.LonLatSphericalPos, apyc.SphericalRepresentation)  # type: ignore[misc]
 def lonlatsph_to_apysph(
     obj: cx.vecs.LonLatSphericalPos, /
 ) -> apyc.SphericalRepresentation:
@@ -260,7 +260,7 @@ def lonlatsph_to_apysph(
     return apyc.SphericalRepresentation(
         lon=convert(obj.lon, apyu.Quantity),
         lat=convert(obj.lat, apyu.Quantity),
-        distance=convert(obj.distance, apyu.Quantity),
+        distance=convert(obj.distance.distance, apyu.Quantity),
     )
 
 
-- 
2.43.0


From 23ad37819c2dfd2be212ed4217857e04301970f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:38 +0000
Subject: [PATCH 34/34] fix: from_ of a 3D class given an Astropy
 representation or differential returned a different class

---
 .../coordinax_interop_astropy/constructors.py | 36 +++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/coordinax/_interop/coordinax_interop_astropy/constructors.py b/src/coordinax/_interop/coordinax_interop_astropy/constructors.py
index b356767..0400f60 100644
--- a/src/coordinax/_interop/coordinax_interop_astropy/constructors.py
+++ b/src/coordinax/_interop/coordinax_interop_astropy/constructors.py
@@ -64,7 +64,7 @@ def from_(
 @cx.vecs.AbstractPos3D.from_.dispatch(precedence=-1)
 def from_(
     cls: type[cx.vecs.AbstractPos3D], obj: apyc.CartesianRepresentation, /
-) -> cx.CartesianPos3D:
+) -> cx.vecs.AbstractPos3D:
     """Construct from a :class:`astropy.coordinates.CartesianRepresentation`.
 
     Examples
@@ -78,13 +78,13 @@ def from_(
     Quantity['length'](Array(1., dtype=float32), unit='kpc')
 
     """
-    return cx.CartesianPos3D.from_(obj)
+    return cls.from_(cx.CartesianPos3D.from_(obj))
 
 
 @cx.vecs.AbstractPos3D.from_.dispatch(precedence=-1)
 def from_(
     cls: type[cx.vecs.AbstractPos3D], obj: apyc.CylindricalRepresentation, /
-) -> cx.vecs.CylindricalPos:
+) -> cx.vecs.AbstractPos3D:
     """Construct from a :class:`astropy.coordinates.CylindricalRepresentation`.
 
     Examples
@@ -100,13 +100,13 @@ def from_(
     Quantity['length'](Array(1., dtype=float32), unit='kpc')
 
     """
-    return cx.vecs.CylindricalPos.from_(obj)
+    return cls.from_(cx.vecs.CylindricalPos.from_(obj))
 
 
 @cx.vecs.AbstractPos3D.from_.dispatch(precedence=-1)
 def from_(
     cls: type[cx.vecs.AbstractPos3D], obj: apyc.PhysicsSphericalRepresentation, /
-) -> cx.SphericalPos:
+) -> cx.vecs.AbstractPos3D:
     """Construct from a :class:`astropy.coordinates.PhysicsSphericalRepresentation`.
 
     Examples
@@ -122,13 +122,13 @@ def from_(
     Distance(Array(1., dtype=float32), unit='kpc')
 
     """
-    return cx.SphericalPos.from_(obj)
+    return cls.from_(cx.SphericalPos.from_(obj))
 
 
 @cx.vecs.AbstractPos3D.from_.dispatch(precedence=-1)
 def from_(
     cls: type[cx.vecs.AbstractPos3D], obj: apyc.SphericalRepresentation, /
-) -> cx.vecs.LonLatSphericalPos:
+) -> cx.vecs.AbstractPos3D:
     """Construct from a :class:`astropy.coordinates.SphericalRepresentation`.
 
     Examples
@@ -144,7 +144,7 @@ def from_(
     Distance(Array(1., dtype=float32), unit='kpc')
 
     """
-    return cx.vecs.LonLatSphericalPos.from_(obj)
+    return cls.from_(cx.vecs.LonLatSphericalPos.from_(obj))
 
 
 # -------------------------------------------------------------------
@@ -246,7 +246,7 @@ def from_(
 @cx.vecs.AbstractVel3D.from_.dispatch
 def from_(
     cls: type[cx.vecs.AbstractVel3D], obj: apyc.CartesianDifferential, /
-) -> cx.CartesianVel3D:
+) -> cx.vecs.AbstractVel3D:
     """Construct from a :class:`astropy.coordinates.CartesianDifferential`.
 
     Examples
@@ -261,13 +261,13 @@ def from_(
     Quantity['speed'](Array(1., dtype=float32), unit='km / s')
 
     """
-    return cx.CartesianVel3D.from_(obj)
+    return cls.from_(cx.CartesianVel3D.from_(obj))
 
 
 @cx.vecs.AbstractVel3D.from_.dispatch
 def from_(
     cls: type[cx.vecs.AbstractVel3D], obj: apyc.CylindricalDifferential, /
-) -> cx.vecs.CylindricalVel:
+) -> cx.vecs.AbstractVel3D:
     """Construct from a :class:`astropy.coordinates.CylindricalDifferential`.
 
     Examples
@@ -283,13 +283,13 @@ def from_(
     Quantity['speed'](Array(1., dtype=float32), unit='km / s')
 
     """
-    return cx.vecs.CylindricalVel.from_(obj)
+    return cls.from_(cx.vecs.CylindricalVel.from_(obj))
 
 
 @cx.vecs.AbstractVel3D.from_.dispatch
 def from_(
     cls: type[cx.vecs.AbstractVel3D], obj: apyc.PhysicsSphericalDifferential, /
-) -> cx.SphericalVel:
+) -> cx.vecs.AbstractVel3D:
     """Construct from a :class:`astropy.coordinates.PhysicsSphericalDifferential`.
 
     Examples
@@ -305,13 +305,13 @@ def from_(
     Quantity['speed'](Array(1., dtype=float32), unit='km / s')
 
     """
-    return cx.SphericalVel.from_(obj)
+    return cls.from_(cx.SphericalVel.from_(obj))
 
 
 @cx.vecs.AbstractVel3D.from_.dispatch
 def from_(
     cls: type[cx.vecs.AbstractVel3D], obj: apyc.SphericalDifferential, /
-) -> cx.vecs.LonLatSphericalVel:
+) -> cx.vecs.AbstractVel3D:
     """Construct from a :class:`astropy.coordinates.SphericalDifferential`.
 
     Examples
@@ -328,13 +328,13 @@ def from_(
     Quantity['speed'](Array(1., dtype=float32), unit='km / s')
 
     """
-    return cx.vecs.LonLatSphericalVel.from_(obj)
+    return cls.from_(cx.vecs.LonLatSphericalVel.from_(obj))
 
 
 @cx.vecs.AbstractVel3D.from_.dispatch
 def from_(
     cls: type[cx.vecs.AbstractVel3D], obj: apyc.SphericalCosLatDifferential, /
-) -> cx.vecs.LonCosLatSphericalVel:
+) -> cx.vecs.AbstractVel3D:
     """Construct from a :class:`astropy.coordinates.SphericalCosLatDifferential`.
 
     Examples
@@ -357,7 +357,7 @@ def from_(
     Quantity['speed'](Array(1., dtype=float32), unit='km / s')
 
     """
-    return cx.vecs.LonCosLatSphericalVel.from_(obj)
+    return cls.from_(cx.vecs.LonCosLatSphericalVel.from_(obj))
 
 
 # -------------------------------------------------------------------
-- 
2.43.0

