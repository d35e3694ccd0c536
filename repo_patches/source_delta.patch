From 99e533bb3bd1da202efbe427a27ddd61c2ea62c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:10 +0000
Subject: [PATCH 01/23] fix: derivative accepts a single argument name of any
 length

---
 magpi/calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index 4c80112..a60eb17 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -129,7 +129,7 @@ def derivative(
         setattr(_df, "__signature__", sig)
         return _df
 
-    if isinstance(wrt, int):
+    if isinstance(wrt, (int, str)):
         wrt = [wrt]
 
     if not isinstance(argnums, Sequence):
-- 
2.43.0


From 95291af0312fcbff39fa27b4d2212337caaa2a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:10 +0000
Subject: [PATCH 02/23] fix: derivative supports pytree arguments such as
 module parameters

---
 magpi/calc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index a60eb17..6bc739c 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -57,10 +57,11 @@ def value_and_derivative(
     def df(*args, **kwargs):
         if isinstance(wrt, int) and argnum is None:
             ei = [
-                ones_like(x) if i == wrt else zeros_like(x) for i, x in enumerate(args)
+                tree_map(ones_like if i == wrt else zeros_like, x)
+                for i, x in enumerate(args)
             ]
         elif isinstance(wrt, int) and argnum is not None:
-            ei = [zeros_like(x) for x in args]
+            ei = [tree_map(zeros_like, x) for x in args]
             ei[argnum] = ei[argnum].at[wrt].set(1.0)
         else:
             ei = wrt
-- 
2.43.0


From a06ba63d0745349006bff3308eaa400e3214eed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:10 +0000
Subject: [PATCH 03/23] fix: curl forwards keyword arguments to the function

---
 magpi/calc.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/magpi/calc.py b/magpi/calc.py
index 6bc739c..c838f03 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -415,11 +415,11 @@ def curl(f: Callable[..., PyTree]) -> Callable[..., PyTree]:
     f : Callable[..., Array]
     """
 
-    def _curl(x, *args):
+    def _curl(x, *args, **kwargs):
         if x.shape[0] == 2:
-            return curl2d(f)(x, *args)
+            return curl2d(f)(x, *args, **kwargs)
         elif x.shape[0] == 3:
-            return curl3d(f)(x, *args)
+            return curl3d(f)(x, *args, **kwargs)
         else:
             raise ValueError("Dimension must be 2 or 3.")
 
@@ -427,12 +427,12 @@ def curl(f: Callable[..., PyTree]) -> Callable[..., PyTree]:
 
 
 def curl3d(f):
-    def _f(x, *args):
-        def h(x, *args):
-            v = f(x, *args)
+    def _f(x, *args, **kwargs):
+        def h(x, *args, **kwargs):
+            v = f(x, *args, **kwargs)
             return v, v
 
-        J, v = jacfwd(h, 0, has_aux=True)(x, *args)
+        J, v = jacfwd(h, 0, has_aux=True)(x, *args, **kwargs)
         assert is_3d(v), "Function must have 3d output"
 
         def _curl(J):
@@ -448,12 +448,12 @@ def curl3d(f):
 
 
 def curl2d(f):
-    def _f(x, *args):
-        def h(x, *args):
-            v = f(x, *args)
+    def _f(x, *args, **kwargs):
+        def h(x, *args, **kwargs):
+            v = f(x, *args, **kwargs)
             return v, v
 
-        J, v = jacfwd(h, 0, has_aux=True)(x, *args)
+        J, v = jacfwd(h, 0, has_aux=True)(x, *args, **kwargs)
         assert is_2d(v), "Function must have 2d output"
 
         def _curl(J):
-- 
2.43.0


From a73fb0d3be5dac56fdec2d32821e7fcb5c48f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:41 +0000
Subject: [PATCH 04/23] fix: simpson keeps fractional midpoints on an integer
 grid

---
 magpi/integrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/integrate.py b/magpi/integrate.py
index 694a1e3..3c0473e 100644
--- a/magpi/integrate.py
+++ b/magpi/integrate.py
@@ -46,7 +46,7 @@ def simpson(domain: Array) -> tuple[Array, Array]:
     w = w.at[2:-1:2].set(_w[:-1, 2] + _w[1:, 0])
     m = (domain[:-1] + domain[1:]) / 2
     i = jnp.arange(1, len(domain))
-    nodes = jnp.insert(domain, i, m)
+    nodes = jnp.insert(asarray(domain, dtype=m.dtype), i, m)
     return w, nodes
 
 
-- 
2.43.0


From ce38908b8645a894d25281df6acf3799d97c2f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:41 +0000
Subject: [PATCH 05/23] fix: odeint evaluates each step at the start of its
 interval

---
 magpi/ode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/ode.py b/magpi/ode.py
index 6d9fbbe..1814ce7 100644
--- a/magpi/ode.py
+++ b/magpi/ode.py
@@ -54,7 +54,7 @@ def _odeint(df, unroll, method, y, ts, *args):
     def _step(state, t):
         y, t_prev = state
         dt = t - t_prev
-        y = method(df, y, t, dt, *args)
+        y = method(df, y, t_prev, dt, *args)
         return (y, t), y
 
     _, ys = lax.scan(_step, (y, ts[0]), ts[1:], unroll=unroll)
-- 
2.43.0


From a5c62d0dbf864070b40d3c66a9cd7ab5dea45864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:15 +0000
Subject: [PATCH 06/23] fix: transform_triangle combines both barycentric
 coordinates

---
 magpi/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 0f34940..a5a73c5 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -309,10 +309,10 @@ def transform_triangle(x: Array, a: Array, b: Array, c: Array) -> Array:
     i, j, k = a, b, c
     assert i.shape == j.shape == k.shape
     x = x % 1.0
-    x = where(norm(x, 1, -1, keepdims=True) > 1.0, 1.0 - x, x)[..., None]
+    x = where(norm(x, 1, -1, keepdims=True) > 1.0, 1.0 - x, x)
     d1 = j - i
     d2 = k - i
-    return i + x[..., 0] * d1 + x[..., 1] * d2
+    return i + x[..., 0, None] * d1 + x[..., 1, None] * d2
 
 
 def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
-- 
2.43.0


From 27b6fbb501137ad828d0be2d030fc5aee2831b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:15 +0000
Subject: [PATCH 07/23] fix: Parallelogram.transform_bnd walks along the edges
 of the parallelogram

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index a5a73c5..b6277ee 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -103,7 +103,7 @@ class Parallelogram:
 
     def transform_bnd(self, samples: Array) -> Array:
         a, b, c = array([self.a, self.b, self.c])
-        return transform_polyline(samples, (a, a + b, a + b + c, c, a))
+        return transform_polyline(samples, (a, b, b + c - a, c, a))
 
 
 def linear_map(X_ref: Array, X: Array) -> Array:
-- 
2.43.0


From 6f502c3d0066577aac533b2d1c69358910c300d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:15 +0000
Subject: [PATCH 08/23] fix: normal_vec of spheres and disks supports batches

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index b6277ee..1c86b96 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -135,7 +135,7 @@ class _Spherical:
         on_bnd = jnp.isclose(sample_norm, r, rtol=rtol, atol=atol)
         if not on_bnd.all():
             return None
-        return sample / sample_norm
+        return sample / sample_norm[..., None]
 
 
 @dataclass(frozen=True, slots=True)
-- 
2.43.0


From fe5a1b2dae6b0640cf72cd0ec1de541432271728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:48 +0000
Subject: [PATCH 09/23] fix: scalar minus quaternion respects the operand order

---
 magpi/quaternions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index 4ac0432..eab4ca9 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -61,7 +61,7 @@ class Quaternion:
         return self.__class__(a, q)
 
     def __rsub__(self, other) -> Self:
-        return self - other
+        return -(self - other)
 
     def __mul__(self, other: Self | Scalar) -> Self:
         if isinstance(other, self.__class__):
-- 
2.43.0


From f05d36931925b37f16ff231821e3da3cd6d02102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:48 +0000
Subject: [PATCH 10/23] fix: from_axis_angle returns a unit quaternion for any
 axis length

---
 magpi/quaternions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/magpi/quaternions.py b/magpi/quaternions.py
index eab4ca9..b2f673b 100644
--- a/magpi/quaternions.py
+++ b/magpi/quaternions.py
@@ -248,5 +248,6 @@ def from_axis_angle(angle: Scalar, axis: Vec) -> Quaternion:
     Quaternion
     """
     axis_arr = asarray(axis)
+    axis_arr = axis_arr / norm(axis_arr)
     angle = angle / 2
     return Quaternion(cos(angle), axis_arr * sin(angle))
-- 
2.43.0


From 6b729c3d5bfc895dd19c1b9c126eb51e6e7a7460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:50 +0000
Subject: [PATCH 11/23] fix: distance functions of round solids are
 differentiable at the centre

---
 magpi/r_fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 92e92f1..153fd6c 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -270,7 +270,7 @@ def sphere(r: Scalar) -> ADF:
     -------
     ADF
     """
-    return lambda x: (r**2 - norm(x) ** 2) / (2 * r)
+    return lambda x: (r**2 - jnp.sum(asarray(x) ** 2)) / (2 * r)
 
 
 def cylinder(r: Scalar) -> ADF:
@@ -558,6 +558,6 @@ def normalize_1st_order(adf: ADF) -> ADF:
     def normalize(x):
         y = adf(x)
         dy = df(x)
-        return y / sqrt(y**2 + norm(dy) ** 2)
+        return y / sqrt(y**2 + jnp.sum(dy**2))
 
     return normalize
-- 
2.43.0


From c5c3762c603e82575c952bd05488374e44a93229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:50 +0000
Subject: [PATCH 12/23] fix: RhoBlending scales the blending term with the
 squared radius

---
 magpi/r_fun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 153fd6c..12d5722 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -185,11 +185,11 @@ class RhoBlending(RFun):
 
     def conjunction(self, a: Scalar, b: Scalar) -> Scalar:
         s = a**2 + b**2 - self.rho**2
-        return a + b - sqrt(a**2 + b**2 + 1 / (8 * self.rho) * s * (s - jnp.abs(s)))
+        return a + b - sqrt(a**2 + b**2 + 1 / (8 * self.rho**2) * s * (s - jnp.abs(s)))
 
     def disjunction(self, a: Scalar, b: Scalar) -> Scalar:
         s = a**2 + b**2 - self.rho**2
-        return a + b + sqrt(a**2 + b**2 + 1 / (8 * self.rho) * s * (s - jnp.abs(s)))
+        return a + b + sqrt(a**2 + b**2 + 1 / (8 * self.rho**2) * s * (s - jnp.abs(s)))
 
 
 r1 = RAlpha(1.0)  # min, max
-- 
2.43.0


From a2370e60fb20232e85a10b2fe49034f7e3fce5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:50 +0000
Subject: [PATCH 13/23] fix: rotate2d does not truncate the rotation matrix for
 integer angles

---
 magpi/r_fun.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 12d5722..f378dab 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -399,9 +399,7 @@ def rotate2d(adf: ADF, angle: Scalar, o: Vec2d = (0.0, 0.0)) -> ADF:
     _o = asarray(o)
     _angle = asarray(angle)
     _adf = translate(adf, -_o)
-    M = array(
-        [[cos(_angle), sin(_angle)], [-sin(_angle), cos(_angle)]], dtype=_angle.dtype
-    )
+    M = array([[cos(_angle), sin(_angle)], [-sin(_angle), cos(_angle)]])
 
     def rot_op(x):
         msg = f"Cannot rotate vector of size {x.shape} in 2d. Please pass a 2d vector."
-- 
2.43.0


From dcac680846eecf1ad8d33fd08c23b1b263f73adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:50 +0000
Subject: [PATCH 14/23] fix: rotate3d turns in the same direction as rotate2d

---
 magpi/r_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index f378dab..39e6774 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -439,7 +439,7 @@ def rotate3d(
     _o = asarray(o)
     _adf = translate(adf, -_o)
 
-    _angle = -asarray(angle)
+    _angle = asarray(angle)
     if _angle.shape == ():
         if rot_axis is None:
             msg = "If only the angle is specified, the rotation axis must be provided"
-- 
2.43.0


From 4a0a7fb69786a6c3801308b45bb1380edc807032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:53 +0000
Subject: [PATCH 15/23] fix: make_grid runs from start to stop for decreasing
 grids too

---
 magpi/spline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/spline.py b/magpi/spline.py
index 09b8d5a..5190262 100644
--- a/magpi/spline.py
+++ b/magpi/spline.py
@@ -59,7 +59,7 @@ def make_grid(start: float, stop: float, power: float, num: int) -> Array:
     t = jnp.linspace(-1, 1, num)
     t = jnp.sign(t) * (jnp.abs(t) ** power)
     t = (t + 1) / 2
-    t = t * jnp.abs(start - stop) + start
+    t = t * (stop - start) + start
     return t
 
 
-- 
2.43.0


From fa2404014242ed1ce4056b64a3eacd1a5ca31256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:19 +0000
Subject: [PATCH 16/23] fix: spline basis has finite reverse-mode derivatives
 for repeated knots

---
 magpi/spline.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/magpi/spline.py b/magpi/spline.py
index 5190262..1697825 100644
--- a/magpi/spline.py
+++ b/magpi/spline.py
@@ -7,15 +7,19 @@ def _base_fun(x: Array, k: int, i: int, t: Array) -> Array:
     if k == 0:
         return jnp.where((t[..., i] <= x) & (x < t[..., i + 1]), 1.0, 0.0)
 
+    # the width of an empty interval must not be divided by, not even in the unselected branch,
+    # otherwise reverse-mode derivatives are not finite
+    w1: Array = t[..., i + k] - t[..., i]
+    w2: Array = t[..., i + k + 1] - t[..., i + 1]
     c1: Array = jnp.where(
         t[..., i + k] == t[..., i],
         0.0,
-        (x - t[..., i]) / (t[..., i + k] - t[..., i]) * _base_fun(x, k - 1, i, t)
+        (x - t[..., i]) / jnp.where(w1 == 0.0, 1.0, w1) * _base_fun(x, k - 1, i, t)
     )
     c2: Array = jnp.where(
         t[..., i + k + 1] == t[..., i + 1],
         0.0,
-        (t[..., i + k + 1] - x) / (t[..., i + k + 1] - t[..., i + 1]) * _base_fun(x, k - 1, i + 1, t),
+        (t[..., i + k + 1] - x) / jnp.where(w2 == 0.0, 1.0, w2) * _base_fun(x, k - 1, i + 1, t),
     )
     return c1 + c2
 
-- 
2.43.0


From afbd73a777b8dcf63e32d44760bccf9e13a69e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:51 +0000
Subject: [PATCH 17/23] fix: a batch of box boundary points holding a point off
 the boundary has no normals

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 1c86b96..daae214 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -56,7 +56,7 @@ class Hypercube:
             (bnd_sample > lb - (atol + rtol * abs(lb)))
             & (bnd_sample < ub + (atol + rtol * abs(ub)))
         ).all(axis=-1)
-        if not in_domain.any():
+        if not in_domain.all():
             return None
         on_lb = jnp.isclose(bnd_sample, lb, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
-- 
2.43.0


From 591228609b75523e9c2487214f3a9a1c0ac0eb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:09 +0000
Subject: [PATCH 18/23] fix: a box corner on a lower and an upper face has a
 normal

---
 magpi/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index daae214..0c35d14 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -64,9 +64,9 @@ class Hypercube:
         on_ub = jnp.isclose(bnd_sample, ub, rtol=rtol, atol=atol).astype(
             bnd_sample.dtype
         )
-        on_lb = where(jnp.cumsum(on_lb, axis=-1) > 1, 0.0, on_lb)
-        on_ub = where(jnp.cumsum(on_ub, axis=-1) > 1, 0.0, on_ub)
         n = on_ub - on_lb
+        # a corner belongs to several faces, the normal of the first one is taken
+        n = where(jnp.cumsum(abs(n), axis=-1) > 1, 0.0, n)
 
         if (norm(n, axis=-1) == 1.0).all():
             return n
-- 
2.43.0


From 49a6922a8795c81c7982a194b95a6ceffa71231f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:34 +0000
Subject: [PATCH 19/23] fix: interior transformations of boxes and
 parallelograms wrap negative inputs

---
 magpi/domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 0c35d14..7d8f03f 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -94,7 +94,7 @@ class Parallelogram:
 
     def transform(self, samples: Array) -> Array:
         assert samples.shape[-1] == 2
-        samples = where(samples > 1, samples % 1.0, samples)
+        samples = where((samples < 0) | (samples > 1), samples % 1.0, samples)
         a = array(self.a)
         if len(samples.shape) == 1:
             return self.B @ samples + a
@@ -204,7 +204,7 @@ class Annulus:
 
 
 def transform_hypercube(x: Array, lb: Array, ub: Array) -> Array:
-    x = where(x > 1.0, x % 1.0, x)
+    x = where((x < 0.0) | (x > 1.0), x % 1.0, x)
     return x * (ub - lb) + lb
 
 
-- 
2.43.0


From 20a7050f43b46cdfad56c4b6bd9563a87edcd344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 20/23] fix: derivative with respect to a variable passed by
 keyword was zero

---
 magpi/calc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/magpi/calc.py b/magpi/calc.py
index c838f03..cd4f66d 100644
--- a/magpi/calc.py
+++ b/magpi/calc.py
@@ -55,6 +55,13 @@ def value_and_derivative(
         wrt = arg_names.index(wrt)
 
     def df(*args, **kwargs):
+        if isinstance(wrt, int) and argnum is None and wrt >= len(args):
+            # the variable is passed by keyword or takes its default value
+            name = list(sig.parameters.keys())[wrt]
+            x = kwargs[name] if name in kwargs else sig.parameters[name].default
+            _f = lambda x: f(*args, **{**kwargs, name: x})
+            return jax.jvp(_f, [x], [tree_map(ones_like, x)])
+
         if isinstance(wrt, int) and argnum is None:
             ei = [
                 tree_map(ones_like if i == wrt else zeros_like, x)
-- 
2.43.0


From 687b9b4c2e70909cc97e8107d2fa0774842fd264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:54 +0000
Subject: [PATCH 21/23] fix: rejection sampling could return a sample of zero
 density

---
 magpi/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/sampling.py b/magpi/sampling.py
index 16d116f..652c333 100644
--- a/magpi/sampling.py
+++ b/magpi/sampling.py
@@ -44,7 +44,7 @@ def rejection_sampling(
 
         def not_valid(state):
             _, p, sample = state
-            return p > (pdf(sample) / m)
+            return p >= (pdf(sample) / m)
 
         _, _, sample = lax.while_loop(not_valid, body, (key, p, sample))
         return sample
-- 
2.43.0


From b4ab7e8466dfc30395ae2a0be9eadda369f950ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 22/23] fix: a polyline parameter near one could select a point
 far off the line when the sums are rounded differently

---
 magpi/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/magpi/domain.py b/magpi/domain.py
index 7d8f03f..9e08091 100644
--- a/magpi/domain.py
+++ b/magpi/domain.py
@@ -319,8 +319,8 @@ def transform_polyline(s: Array, points: tuple[Array, ...]) -> Array:
     line = stack(points)
     assert len(s.shape) == 0 or len(s.shape) == 1
     segments = norm(line[1:] - line[:-1], axis=1)
-    length = jnp.sum(segments)
     cumlengths = jnp.cumsum(segments)
+    length = cumlengths[-1]  # the sum may be rounded to a larger value
     _s = s % 1
     _s = (_s * length).ravel()
     idx = jnp.argmax(_s[:, None] <= cumlengths, axis=-1)
-- 
2.43.0


From 1bed5e2a8e3a1c4ca3977bdb1e6aff09b550df7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:09 +0000
Subject: [PATCH 23/23] fix: R-alpha functions with alpha = 1 were not a number
 for nearly equal operands

---
 magpi/r_fun.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/magpi/r_fun.py b/magpi/r_fun.py
index 39e6774..d7fd6d1 100644
--- a/magpi/r_fun.py
+++ b/magpi/r_fun.py
@@ -86,6 +86,12 @@ class RFun:
         return lambda x: op(adf1(x), adf2(x))
 
 
+def _alpha_norm(a: Scalar, b: Scalar, alpha: Scalar) -> Scalar:
+    # equal to sqrt(a**2 + b**2 - 2 * alpha * a * b), written as a sum of squares
+    # because rounding makes the difference negative for `alpha = 1` and `a` close to `b`
+    return sqrt((a - alpha * b) ** 2 + (1 - alpha**2) * b**2)
+
+
 class RAlpha(RFun):
     """
     Implements the system :math:`R_\\alpha` for some value of `alpha` in (-1, 1].
@@ -101,12 +107,12 @@ class RAlpha(RFun):
 
     def conjunction(self, a: Scalar, b: Scalar) -> Scalar:
         return (
-            1 / (1 + self.alpha) * (a + b - sqrt(a**2 + b**2 - 2 * self.alpha * a * b))
+            1 / (1 + self.alpha) * (a + b - _alpha_norm(a, b, self.alpha))
         )
 
     def disjunction(self, a: Scalar, b: Scalar) -> Scalar:
         return (
-            1 / (1 + self.alpha) * (a + b + sqrt(a**2 + b**2 - 2 * self.alpha * a * b))
+            1 / (1 + self.alpha) * (a + b + _alpha_norm(a, b, self.alpha))
         )
 
 
@@ -131,7 +137,7 @@ class RAlphaM(RFun):
         return (
             1
             / (1 + self.alpha)
-            * (a + b - sqrt(r - 2 * self.alpha * a * b))
+            * (a + b - _alpha_norm(a, b, self.alpha))
             * r ** (self.m / 2)
         )
 
@@ -140,7 +146,7 @@ class RAlphaM(RFun):
         return (
             1
             / (1 + self.alpha)
-            * (a + b + sqrt(r - 2 * self.alpha * a * b))
+            * (a + b + _alpha_norm(a, b, self.alpha))
             * r ** (self.m / 2)
         )
 
-- 
2.43.0

