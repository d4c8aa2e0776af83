From aa1c030824705c380fb6490cc34a542ca252e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:13 +0000
Subject: [PATCH 01/76] fix: adjoint of the centered derivative ignored dx and
 dropped imaginary parts

---
 src/cr/sparse/_src/lop/calculus.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/lop/calculus.py b/src/cr/sparse/_src/lop/calculus.py
index eae78ae..b5e79cf 100644
--- a/src/cr/sparse/_src/lop/calculus.py
+++ b/src/cr/sparse/_src/lop/calculus.py
@@ -45,10 +45,8 @@ def _derivative_centered(x, dx):
     return jnp.pad(diffs, (1,1))
 
 def _derivative_centered_adj(x, dx):
-    y = jnp.zeros(x.shape)
-    y = y.at[0:-2].add(-0.5*x[1:-1])
-    y = y.at[2:].add(0.5*x[1:-1])
-    return y
+    x = 0.5 * x[1:-1] / dx
+    return jnp.pad(x, (2, 0)) - jnp.pad(x, (0, 2))
 
 
 def first_derivative(n, dx=1., kind='centered'):
-- 
2.43.0


From 207d9e247e489438d5d4ba2d6a947d9b6c4dd3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:22 +0000
Subject: [PATCH 02/76] fix: the adjoint of the zero padded FFT operator
 trimmed axis 0 regardless of axis

---
 src/cr/sparse/_src/lop/fft.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/fft.py b/src/cr/sparse/_src/lop/fft.py
index c88d81e..773ca8e 100644
--- a/src/cr/sparse/_src/lop/fft.py
+++ b/src/cr/sparse/_src/lop/fft.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from jax import lax
 import jax.numpy as jnp
 import jax.numpy.fft as jfft
 
@@ -42,7 +43,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     elif mode == 'c2c':
         def times(x):
             w = jfft.fft(x, n, axis=axis)
@@ -51,7 +52,7 @@ def fft(m, n=None, axis=0, mode='r2c'):
         def trans(w):
             x = n * jnp.fft.ifft(w, n, axis=axis)
             # we need to return only first m values
-            return x[:m]
+            return lax.slice_in_dim(x, 0, m, axis=axis)
     else: 
         raise ValueError(f"Unsupported mode {mode}")
 
-- 
2.43.0


From ed607caa53401bd4b9ac81c68ff60483d2b13893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:34 +0000
Subject: [PATCH 03/76] fix: windowed operator discarded imaginary parts of
 complex data

---
 src/cr/sparse/_src/lop/windowed_op.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/windowed_op.py b/src/cr/sparse/_src/lop/windowed_op.py
index fc9652e..dff0463 100644
--- a/src/cr/sparse/_src/lop/windowed_op.py
+++ b/src/cr/sparse/_src/lop/windowed_op.py
@@ -59,14 +59,14 @@ def windowed_op(m, T, overlap=0, axis=0):
     # x padding to be used in adjoint operation
     xz = jnp.zeros(tm + yl -m)
     # initial value of y for trans operation
-    ya = jnp.zeros(tn * n_blocks)
+    ya = jnp.zeros(tn * n_blocks, dtype=dtype)
 
     def times1d(x):
         def body_func(i, y):            
             xw = x[i*tn + n_range]
             idx = i * offset + m_range
             return y.at[idx].add(T.times(xw))
-        y = lax.fori_loop(0, n_blocks, body_func, yf)
+        y = lax.fori_loop(0, n_blocks, body_func, yf.astype(jnp.promote_types(dtype, x.dtype)))
         return y[:m]
 
 
@@ -76,7 +76,7 @@ def windowed_op(m, T, overlap=0, axis=0):
         def body_func(i, y):
             xw = x[i * offset + m_range]
             return y.at[i*tn + n_range].set(T.trans(xw))
-        return lax.fori_loop(0, n_blocks, body_func, ya)
+        return lax.fori_loop(0, n_blocks, body_func, ya.astype(jnp.promote_types(dtype, x.dtype)))
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
 
-- 
2.43.0


From af671774d375d9a97753ab086842dc59ee2fabc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:48 +0000
Subject: [PATCH 04/76] fix: operators built from complex data were flagged as
 real

---
 src/cr/sparse/_src/lop/basic.py      | 4 ++--
 src/cr/sparse/_src/lop/block_diag.py | 3 ++-
 src/cr/sparse/_src/lop/conv.py       | 4 ++--
 src/cr/sparse/_src/lop/filters.py    | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index e15d2b6..3aa4534 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -190,7 +190,7 @@ def diagonal(d, axis=0):
     times = lambda x: d * x
     trans = lambda x: _hermitian(d) * x
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(d))
 
 
 def scalar_mult(alpha, n):
@@ -208,7 +208,7 @@ def scalar_mult(alpha, n):
     assert alpha.ndim == 0, "alpha must be a scalar quantity"
     times = lambda x: alpha * x
     trans = lambda x: alpha_c * x
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(alpha))
 
 
 def zero(in_dim, out_dim=None, axis=0):
diff --git a/src/cr/sparse/_src/lop/block_diag.py b/src/cr/sparse/_src/lop/block_diag.py
index c98f8cb..bb6bffe 100644
--- a/src/cr/sparse/_src/lop/block_diag.py
+++ b/src/cr/sparse/_src/lop/block_diag.py
@@ -139,4 +139,5 @@ def block_diag(operators, axis=0):
         return jnp.concatenate(ys)
 
     times, trans = apply_along_axis(times, trans, axis)
-    return Operator(times=times, trans=trans, shape=(m_all,n_all))
+    return Operator(times=times, trans=trans, shape=(m_all,n_all),
+        real=all(op.real for op in operators))
diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index 2dd44bb..5c0cc27 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -74,7 +74,7 @@ def convolve(n, h, offset=0, axis=0):
         return result[0, 0, 0, b_slice]
 
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
 def convolve2D(shape, h, offset=None, axes=None):
     """Performs 2 dimensional convolution on the input array
@@ -164,4 +164,4 @@ def convolveND(shape, h, offset=None, axes=None):
         # pick the slices from other dimensions
         return result[a_slices]
 
-    return Operator(times=times, trans=trans, shape=(shape,shape))
+    return Operator(times=times, trans=trans, shape=(shape,shape), real=jnp.isrealobj(h))
diff --git a/src/cr/sparse/_src/lop/filters.py b/src/cr/sparse/_src/lop/filters.py
index a786919..28920ef 100644
--- a/src/cr/sparse/_src/lop/filters.py
+++ b/src/cr/sparse/_src/lop/filters.py
@@ -38,5 +38,5 @@ def fir_filter(n, h, axis=0):
     times1d = lambda x : jnp.convolve(x, h, 'same')
     trans1d = lambda x : jnp.convolve(x, h_conj, 'full')[start:start+n]
     times, trans = apply_along_axis(times1d, trans1d, axis)
-    return Operator(times=times, trans=trans, shape=(n,n))
+    return Operator(times=times, trans=trans, shape=(n,n), real=jnp.isrealobj(h))
 
-- 
2.43.0


From dc9f94a69dcdf8152224c09f5a4c82d2656b6223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:48 +0000
Subject: [PATCH 05/76] fix: adjoint of N-dim convolution did not conjugate
 complex filters

---
 src/cr/sparse/_src/lop/conv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index 5c0cc27..ff46cbf 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -138,7 +138,7 @@ def convolveND(shape, h, offset=None, axes=None):
     h_conv = h[tuple(slice(None, None, -1) for s in shape)]
     # extend it
     h_conv = h_conv[None, None]
-    h_corr = h[None, None]
+    h_corr = jnp.conjugate(h)[None, None]
 
     def times(x):
         """Forward N-D convolution
-- 
2.43.0


From 82ad0281651a26e9c5ff7ad627f6ea1c96cf6f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:48 +0000
Subject: [PATCH 06/76] fix: adjoint of restriction/partial operators lost
 contributions of repeated indices

---
 src/cr/sparse/_src/lop/basic.py | 2 +-
 src/cr/sparse/_src/lop/lop.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/lop/basic.py b/src/cr/sparse/_src/lop/basic.py
index 3aa4534..1fd0ccc 100644
--- a/src/cr/sparse/_src/lop/basic.py
+++ b/src/cr/sparse/_src/lop/basic.py
@@ -289,7 +289,7 @@ def restriction(n, I, axis=0):
     """
     k = len(I)
     times1d = lambda x: x[I]
-    trans1d = lambda x: jnp.zeros((n,), dtype=x.dtype).at[I].set(x)
+    trans1d = lambda x: jnp.zeros((n,), dtype=x.dtype).at[I].add(x)
 
     def times(x):
         if x.ndim == 1:
diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 1b8a4dd..b9e332c 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -303,7 +303,7 @@ def partial_op(A, picks, perm=None):
             # expand the input with zero entries
             shape = (m,) + x.shape[1:]
             tmp = jnp.zeros(shape, dtype=x.dtype)
-            tmp = tmp.at[picks].set(x)
+            tmp = tmp.at[picks].add(x)
             # apply the adjoint
             y = A.trans(tmp)
             return y
@@ -314,7 +314,7 @@ def partial_op(A, picks, perm=None):
             # expand the input with zero entries
             shape = (m,) + x.shape[1:]
             tmp = jnp.zeros(shape, dtype=x.dtype)
-            tmp = tmp.at[picks].set(x)
+            tmp = tmp.at[picks].add(x)
             # apply the adjoint
             y = A.trans(tmp)
             # place the output in correct permutation
-- 
2.43.0


From b50dff9b658137799c2bebc0a8e63e4855ddf8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:48 +0000
Subject: [PATCH 07/76] fix: compose dropped the jit_safe and matrix_safe flags
 of its operands

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index b9e332c..65ba268 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -370,7 +370,7 @@ def compose(A, B, ignore_compatibility=False, shape=None):
     trans = lambda x: B.trans(A.trans(x))
     if shape is None:
         shape = (ma, nb)
-    return Operator(times=times, trans=trans, shape=shape, real=real)
+    return Operator(times=times, trans=trans, shape=shape, jit_safe=jit_safe, matrix_safe=matrix_safe, real=real)
 
 
 def hcat(A, B):
-- 
2.43.0


From 23c7a21c2c75f387845d3b669394aa45ceb31783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:05 +0000
Subject: [PATCH 08/76] fix: real adjoint tests accepted any operator when the
 inner products were negative

---
 src/cr/sparse/_src/lop/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 68438f0..1fd8839 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -62,7 +62,7 @@ def dot_test_real(key, A, tol=1e-6):
     x = A.trans(v)
     yy = jnp.vdot(y, v)
     xx = jnp.vdot(u, x)
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / ((jnp.abs(yy) + jnp.abs(xx) + 1e-15) / 2)
     return rel_gap < tol 
 
 
@@ -96,7 +96,7 @@ def rdot_test_complex(key, A, tol=1e-6):
     yy = cnb.arr_rdot(y, v)
     xx = cnb.arr_rdot(u, x)
 
-    rel_gap = jnp.abs(yy - xx) / ((yy + xx + 1e-15) / 2)
+    rel_gap = jnp.abs(yy - xx) / ((jnp.abs(yy) + jnp.abs(xx) + 1e-15) / 2)
     return rel_gap < tol 
 
 
-- 
2.43.0


From 5624b6c9c0b32d68007d89ce3520c26e5d057465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:45 +0000
Subject: [PATCH 09/76] fix: scaling by a complex array scalar kept the
 operator flagged as real

---
 src/cr/sparse/_src/lop/lop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 65ba268..63d29cc 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -217,7 +217,7 @@ def scale(A, alpha):
         (Operator): A linear operator T such that :math:`T x = \alpha A x` 
         and :math:`T^H x = \bar{\alpha} A^H x`
     """
-    real = A.real and not  isinstance(alpha, complex)
+    real = A.real and jnp.isrealobj(alpha)
     alpha_c = jnp.conjugate(alpha)
     times = lambda x : alpha * A.times(x)
     trans = lambda x : alpha_c * A.trans(x)
-- 
2.43.0


From a5dd90ba794cbad35a59814296628d9ba6d7e44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:45 +0000
Subject: [PATCH 10/76] fix: powers of complex operators rejected real vectors

---
 src/cr/sparse/_src/lop/lop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 63d29cc..9d4d35d 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -263,7 +263,10 @@ def transpose(A):
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
 
 def apply_n(func, n, x):
-    init = (x, 0)
+    if n < 1:
+        return x
+    # the first application settles the data type of the loop
+    init = (func(x), 1)
     def body(state):
         x, c = state
         return func(x), c+1
-- 
2.43.0


From 8a3b5e7eea687393a5eb5a5724b2911c58012df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:52 +0000
Subject: [PATCH 11/76] fix: matrices of operators between 1-D and N-D spaces
 were not flattened

---
 src/cr/sparse/_src/lop/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 1fd8839..7940270 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -25,7 +25,7 @@ def to_matrix(A):
         raise Exception("This operator is not linear.")
     I = jnp.eye(n)
     times = A.times
-    if A.input_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         times = lambda x: A.times(jnp.reshape(x, A.input_shape)).flatten()
     return jax.vmap(times, (1), (1))(I)
 
@@ -36,7 +36,7 @@ def to_adjoint_matrix(A):
     m = A.output_size
     I = jnp.eye(m)
     trans =  A.trans
-    if A.output_ndim > 1:
+    if A.input_ndim > 1 or A.output_ndim > 1:
         trans = lambda x: A.trans(jnp.reshape(x, A.output_shape)).flatten()
     return jax.vmap(trans, (1), (1))(I)
 
-- 
2.43.0


From 34dfdad24722d976fc22e9b76db8562d76d8b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:45 +0000
Subject: [PATCH 12/76] fix: to_complex_matrix failed for operators on N-D
 arrays

---
 src/cr/sparse/_src/lop/util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/util.py b/src/cr/sparse/_src/lop/util.py
index 7940270..c28b2de 100644
--- a/src/cr/sparse/_src/lop/util.py
+++ b/src/cr/sparse/_src/lop/util.py
@@ -45,9 +45,12 @@ def to_complex_matrix(A):
     """Converts a linear operator to a matrix in complex numbers"""
     if not A.linear:
         raise Exception("This operator is not linear.")
-    n = A.shape[1]
+    n = A.input_size
     I = jnp.eye(n) + 0j
-    return jax.vmap(A.times, (1), (1))(I)
+    times = A.times
+    if A.input_ndim > 1 or A.output_ndim > 1:
+        times = lambda x: A.times(jnp.reshape(x, A.input_shape)).flatten()
+    return jax.vmap(times, (1), (1))(I)
 
 
 
-- 
2.43.0


From 16c28ac9f4539bd47c2a8655e56b58fbd42717e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:06 +0000
Subject: [PATCH 13/76] fix: the transpose of a complex operator failed on
 matrices of vectors

---
 src/cr/sparse/_src/lop/lop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/lop.py b/src/cr/sparse/_src/lop/lop.py
index 9d4d35d..22431f6 100644
--- a/src/cr/sparse/_src/lop/lop.py
+++ b/src/cr/sparse/_src/lop/lop.py
@@ -258,8 +258,8 @@ def transpose(A):
         times = A.trans
         trans = A.times
     else:
-        times = lambda x: _hermitian(A.trans(_hermitian(x)))
-        trans = lambda x: _hermitian(A.times(_hermitian(x)))
+        times = lambda x: jnp.conjugate(A.trans(jnp.conjugate(x)))
+        trans = lambda x: jnp.conjugate(A.times(jnp.conjugate(x)))
     return Operator(times=times, trans=trans, shape=(n,m), jit_safe=A.jit_safe, matrix_safe=A.matrix_safe, real=A.real)
 
 def apply_n(func, n, x):
-- 
2.43.0


From 93aa3486899a502fca0e6699ff8fb1658913fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 14/76] fix: dwt2D padded and cropped the wrong axes of N-D
 arrays

---
 src/cr/sparse/_src/lop/dwt.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/lop/dwt.py b/src/cr/sparse/_src/lop/dwt.py
index 5527537..0723b81 100644
--- a/src/cr/sparse/_src/lop/dwt.py
+++ b/src/cr/sparse/_src/lop/dwt.py
@@ -206,7 +206,12 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     hh = wt.next_pow_of_2(h)
     ww = wt.next_pow_of_2(w)
-    pad = ((0, hh-h), (0, ww-w))
+    # zero padding on the transform axes only
+    pad = [(0, 0)] * len(shape)
+    pad[axes[0]] = (0, hh-h)
+    pad[axes[1]] = (0, ww-w)
+    # location of the original array inside the padded array
+    crop = tuple(slice(0, s) for s in shape)
 
     out_shape = list(shape)
     out_shape[axes[0]] = hh
@@ -219,7 +224,7 @@ def dwt2D(shape, wavelet="haar", level=1, axes=None, basis=False):
 
     def trans(coefs):
         x = waverec2(coefs, rec_lo, rec_hi, level, axes)
-        return x[:h, :w]
+        return x[crop]
 
     if basis:
         # Return the wavelet basis
-- 
2.43.0


From f670781bb7e1294d2bb58cb16156f7d86ff07d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:25 +0000
Subject: [PATCH 15/76] fix: Gram and frame matrices of complex dictionaries
 discarded imaginary parts

---
 src/cr/sparse/_src/dict/props.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/dict/props.py b/src/cr/sparse/_src/dict/props.py
index 02e6207..7d6e799 100644
--- a/src/cr/sparse/_src/dict/props.py
+++ b/src/cr/sparse/_src/dict/props.py
@@ -22,16 +22,14 @@ def gram(A):
     """
     if jnp.isrealobj(A):
         return A.T @ A
-    G = mat_hermitian(A) @ A
-    return G.real
+    return mat_hermitian(A) @ A
 
 def frame(A):
     """Computes the frame matrix :math:`G = A A^T`
     """
     if jnp.isrealobj(A):
         return A @ A.T
-    F = A @ mat_hermitian(A)
-    return F.real
+    return A @ mat_hermitian(A)
 
 
 def coherence_with_index(A):
-- 
2.43.0


From bb1c6280e9f126162d6b10ddf8b6c857a24299ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 16/76] fix: the norm estimate of a zero operator was NaN

---
 src/cr/sparse/_src/lop/normest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/normest.py b/src/cr/sparse/_src/lop/normest.py
index 49045dc..dc3f89d 100644
--- a/src/cr/sparse/_src/lop/normest.py
+++ b/src/cr/sparse/_src/lop/normest.py
@@ -84,7 +84,7 @@ def normest(
         v = state.v
         # normalize
         v_norm = cnb.arr_l2norm(v)
-        v = v / v_norm
+        v = v / jnp.where(v_norm > 0, v_norm, 1.)
         # compute the next vector
         v_new = operator.times(v)
         v_new = operator.trans(v_new)
-- 
2.43.0


From 3dae7d9da4d1d3892a8cf11a9cd4f89138184947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:00 +0000
Subject: [PATCH 17/76] fix: truncated SVD dropped the last left Lanczos vector
 from the left singular vectors

---
 src/cr/sparse/_src/sls/svdpack/lansvd.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lansvd.py b/src/cr/sparse/_src/sls/svdpack/lansvd.py
index 0500329..24340b7 100644
--- a/src/cr/sparse/_src/sls/svdpack/lansvd.py
+++ b/src/cr/sparse/_src/sls/svdpack/lansvd.py
@@ -72,13 +72,17 @@ def lansvd_simple(A, k, p0):
     # find the index of first non-converged singular value
     n_converged = jnp.argmin(converged)
     n_converged = jnp.where(converged[n_converged], len(converged), n_converged)
-    U = state.U[:, :j]
+    # the bidiagonal matrix has j+1 rows, hence the next left Lanczos vector is also needed
+    # (unless the iterations have exhausted the range of A)
+    beta_j = state.beta[j]
+    u_next = jnp.where(beta_j > 0, state.p / jnp.where(beta_j > 0, beta_j, 1.), 0.)
+    U = jnp.column_stack((state.U[:, :j], u_next))
     V = state.V[:, :j]
     # keep only the first k ritz vectors
     P = P[:, :k]
     Q = Qh.T[:, :k]
-    U = state.U[:, :j] @ P[:j, :]
-    V = state.V[:, :j] @ Q
+    U = U @ P
+    V = V @ Q
     return U, S[:k], V, bnd, n_converged, state
 
 
-- 
2.43.0


From 7eccf908d782d979033a4171c046037ee1edd263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:27 +0000
Subject: [PATCH 18/76] fix: matching pursuit reported the signal energy as
 residual norm and never stopped on it

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index cd53360..c133720 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -119,7 +119,7 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
@@ -195,7 +195,7 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
         # Compute residual norm squared
         r_norm_sqr = r.T @ r
         return MPState(x=x, r=r, 
-            r_norm_sqr=y_norm_sqr, 
+            r_norm_sqr=r_norm_sqr, 
             iterations=state.iterations+1)
 
     def cond_func(state):
-- 
2.43.0


From d000b62db1dde145d91abf40f145d72977d1796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:27 +0000
Subject: [PATCH 19/76] fix: OMP for matrices failed for a single iteration

---
 src/cr/sparse/_src/pursuit/omp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index aeb35f9..948d319 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -94,7 +94,7 @@ def matrix_solve(Phi, y, max_iters, max_res_norm=1e-6):
         r = y - Phi_I @ x_I
         # norm squared of new residual
         norm_r_new_sqr = r.T @ r
-    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=k+1, length=Phi.shape[1])
+    return RecoverySolution(x_I=x_I, I=I, r=r, r_norm_sqr=norm_r_new_sqr, iterations=K, length=Phi.shape[1])
 
 
 
-- 
2.43.0


From 3e663274ade2936d09d249321875ff27fee5ce05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:27 +0000
Subject: [PATCH 20/76] fix: OMP for operators returned a scalar and the signal
 energy after its first iteration

---
 src/cr/sparse/_src/pursuit/omp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index 948d319..2b45be9 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -226,11 +226,11 @@ def operator_solve(Phi, y, K, res_norm_rtol=1e-4):
         L = jnp.ones((1,1))
         # Initial coefficient
         x0 = p[i]
-        x_I = x0
+        x_I = p[I]
         # updated residual after first iteration
         r = y - x0 * phi_0
         # norm squared of new residual
-        norm_r_new_sqr = jnp.abs(jnp.vdot(y, y))
+        norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
         return OMPState(x_I=x_I, I=I, r=r, 
             Phi_I=Phi_I, L=L, 
             r_norm_sqr=norm_r_new_sqr, iterations=1)
-- 
2.43.0


From 2b2065ddb436dc14528e0e6e2dd9cae41ab95642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:27 +0000
Subject: [PATCH 21/76] fix: CoSaMP sorted the first support without reordering
 the coefficients

---
 src/cr/sparse/_src/pursuit/cosamp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 38fbe52..376e7d6 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -59,7 +59,7 @@ def matrix_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4):
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
@@ -171,7 +171,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # pick the K largest indices
         Ia = largest_indices(x_3I, K)
         # Identify indices for corresponding atoms
-        I = jnp.sort(I_3k[Ia])
+        I = I_3k[Ia]
         # Corresponding non-zero entries in the sparse approximation
         x_I = x_3I[Ia]
         # Form the subdictionary of corresponding atoms
-- 
2.43.0


From 3b1e91bc40c590a57c16479451470205d2096806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:27 +0000
Subject: [PATCH 22/76] fix: pursuit of a zero signal with an operator returned
 NaN

---
 src/cr/sparse/_src/pursuit/cosamp.py | 2 +-
 src/cr/sparse/_src/pursuit/omp.py    | 2 +-
 src/cr/sparse/_src/pursuit/sp.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 376e7d6..966a009 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -143,7 +143,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
     y_norm_sqr = jnp.abs(jnp.vdot(y, y))
     y_norm = jnp.sqrt(y_norm_sqr)
     # scale the signal down.
-    scale = 1.0 / y_norm
+    scale = 1.0 / jnp.where(y_norm > 0, y_norm, 1.)
     y = scale * y
 
     dtype = jnp.float64 if Phi.real else jnp.complex128
diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index 2b45be9..ed340b6 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -197,7 +197,7 @@ def operator_solve(Phi, y, K, res_norm_rtol=1e-4):
     y_norm_sqr = jnp.abs(jnp.vdot(y, y))
     y_norm = jnp.sqrt(y_norm_sqr)
     # scale the signal down.
-    scale = 1.0 / y_norm
+    scale = 1.0 / jnp.where(y_norm > 0, y_norm, 1.)
     y = scale * y
 
     dtype = jnp.float64 if Phi.real else jnp.complex128
diff --git a/src/cr/sparse/_src/pursuit/sp.py b/src/cr/sparse/_src/pursuit/sp.py
index 613306b..acf98d6 100644
--- a/src/cr/sparse/_src/pursuit/sp.py
+++ b/src/cr/sparse/_src/pursuit/sp.py
@@ -118,7 +118,7 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
     y_norm_sqr = jnp.abs(jnp.vdot(y, y))
     y_norm = jnp.sqrt(y_norm_sqr)
     # scale the signal down.
-    scale = 1.0 / y_norm
+    scale = 1.0 / jnp.where(y_norm > 0, y_norm, 1.)
     y = scale * y
 
     dtype = jnp.float64 if Phi.real else jnp.complex128
-- 
2.43.0


From 09c5811e346be74c1472ddbddece6374f725197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:26 +0000
Subject: [PATCH 23/76] fix: OMP for complex operators used real inner products

---
 src/cr/sparse/_src/pursuit/omp.py  | 5 +++--
 src/cr/sparse/_src/pursuit/util.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/omp.py b/src/cr/sparse/_src/pursuit/omp.py
index ed340b6..360d308 100644
--- a/src/cr/sparse/_src/pursuit/omp.py
+++ b/src/cr/sparse/_src/pursuit/omp.py
@@ -162,11 +162,12 @@ def _operator_step(times, trans, y, p, zv, state):
     # sub-vector of proxy corresponding to selected indices
     p_I = p[I]
     # sub-vector of representation coefficients estimated so far
-    x_I = solve_spd_chol(L, p_I)
+    # G = L L^H
+    x_I = crn.solve_LTx_b(jnp.conjugate(L), crn.solve_Lx_b(L, p_I))
     # updated residual after first iteration
     r = y - Phi_I @ x_I
     # norm squared of new residual
-    norm_r_new_sqr = r.T @ r
+    norm_r_new_sqr = jnp.abs(jnp.vdot(r, r))
 
     return OMPState(x_I=x_I, I=I, Phi_I=Phi_I, r=r, L=L, 
         r_norm_sqr=norm_r_new_sqr, iterations=k + 1)
diff --git a/src/cr/sparse/_src/pursuit/util.py b/src/cr/sparse/_src/pursuit/util.py
index 8448a34..5f6cd93 100644
--- a/src/cr/sparse/_src/pursuit/util.py
+++ b/src/cr/sparse/_src/pursuit/util.py
@@ -33,8 +33,10 @@ def gram_chol_update(L, v):
     m, n = L.shape
     z = jnp.zeros((m, 1))
     w = solve_Lx_b(L, v)
-    s = jnp.sqrt(1  - w.T @ w)
+    # conjugated row of the factor
+    wh = jnp.conjugate(w).T
+    s = jnp.sqrt(1  - jnp.real(wh @ w))
     L0 = jnp.hstack((L, z))
-    L1 = jnp.hstack((w.T, s))
+    L1 = jnp.hstack((wh, s))
     L = jnp.vstack((L0, L1))
     return L
-- 
2.43.0


From 40b29528aef336fde18ac636923bfa6edf1c527f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:10 +0000
Subject: [PATCH 24/76] fix: normalized IHT/HTP computed the first step on
 arbitrary atoms (NaN when uncorrelated)

---
 src/cr/sparse/_src/pursuit/htp.py | 10 ++++++----
 src/cr/sparse/_src/pursuit/iht.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/htp.py b/src/cr/sparse/_src/pursuit/htp.py
index 4daba3b..25d09ea 100644
--- a/src/cr/sparse/_src/pursuit/htp.py
+++ b/src/cr/sparse/_src/pursuit/htp.py
@@ -50,7 +50,8 @@ def matrix_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None, re
         Phi_I = Phi[:, I]
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_norm_sqr = Ah.T @ Ah
+        mu = h_I.T @ h_I / jnp.where(Ah_norm_sqr > 0, Ah_norm_sqr, 1.)
         return mu
 
     def get_step_size(h, I):
@@ -64,7 +65,7 @@ def matrix_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None, re
         # Assume previous estimate to be zero and conduct first iteration
         # compute the correlations of atoms with signal y
         h = Phi.T @ y
-        mu = get_step_size(h, I_prev)
+        mu = get_step_size(h, hard_threshold(h, K)[0])
         # update
         x = mu * h
         # threshold
@@ -157,7 +158,8 @@ def operator_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None,
         Phi_I = Phi.columns(I)
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_norm_sqr = Ah.T @ Ah
+        mu = h_I.T @ h_I / jnp.where(Ah_norm_sqr > 0, Ah_norm_sqr, 1.)
         return mu
 
     def get_step_size(h, I):
@@ -171,7 +173,7 @@ def operator_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None,
         # Assume previous estimate to be zero and conduct first iteration
         # compute the correlations of atoms with signal y
         h = trans(y)
-        mu = get_step_size(h, I_prev)
+        mu = get_step_size(h, hard_threshold(h, K)[0])
         # update
         x = mu * h
         # threshold
diff --git a/src/cr/sparse/_src/pursuit/iht.py b/src/cr/sparse/_src/pursuit/iht.py
index 7d515bd..0d9702e 100644
--- a/src/cr/sparse/_src/pursuit/iht.py
+++ b/src/cr/sparse/_src/pursuit/iht.py
@@ -47,7 +47,8 @@ def matrix_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None, re
         Phi_I = Phi[:, I]
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_norm_sqr = Ah.T @ Ah
+        mu = h_I.T @ h_I / jnp.where(Ah_norm_sqr > 0, Ah_norm_sqr, 1.)
         return mu
 
     def get_step_size(h, I):
@@ -61,7 +62,7 @@ def matrix_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None, re
         # Assume previous estimate to be zero and conduct first iteration
         # compute the correlations of atoms with signal y
         h = Phi.T @ y
-        mu = get_step_size(h, I_prev)
+        mu = get_step_size(h, hard_threshold(h, K)[0])
         # update
         x = mu * h
         # threshold
@@ -142,7 +143,8 @@ def operator_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None,
         Phi_I = Phi.columns(I)
         # Step size calculation
         Ah = Phi_I @ h_I
-        mu = h_I.T @ h_I / (Ah.T @ Ah)
+        Ah_norm_sqr = Ah.T @ Ah
+        mu = h_I.T @ h_I / jnp.where(Ah_norm_sqr > 0, Ah_norm_sqr, 1.)
         return mu
 
     def get_step_size(h, I):
@@ -156,7 +158,7 @@ def operator_solve(Phi, y, K, normalized=False, step_size=None, max_iters=None,
         # Assume previous estimate to be zero and conduct first iteration
         # compute the correlations of atoms with signal y
         h = trans(y)
-        mu = get_step_size(h, I_prev)
+        mu = get_step_size(h, hard_threshold(h, K)[0])
         # update
         x = mu * h
         # threshold
-- 
2.43.0


From 14e9a21b9a3d0c52df02707e54037a2421af8527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:17 +0000
Subject: [PATCH 25/76] fix: the proximal operator of the ordered weighted l1
 norm looped forever

---
 src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py b/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
index 2172b92..8d209cc 100644
--- a/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
+++ b/src/cr/sparse/_src/opt/proximal_ops/prox_sorted_l1.py
@@ -30,7 +30,7 @@ def prox_ordered_l1_b(state):
     y, l = state
     x = y - l
     n = len(x)
-    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) > 0)
+    mask = jnp.zeros(len(x), dtype=bool).at[1:].set(jnp.diff(x) >= 0)
     segment_ids = jnp.cumsum(~mask) - 1
     y_sums = segment_sum(y, segment_ids, num_segments=n)
     l_sums = segment_sum(l, segment_ids, num_segments=n)
-- 
2.43.0


From dc71cc36f690d668ccfab342f16fc17e69ca5a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:17 +0000
Subject: [PATCH 26/76] fix: the Moreau envelope ignored mu in its quadratic
 term

---
 src/cr/sparse/_src/opt/prox_to_smooth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/opt/prox_to_smooth.py b/src/cr/sparse/_src/opt/prox_to_smooth.py
index 110eaa1..2cd73d3 100644
--- a/src/cr/sparse/_src/opt/prox_to_smooth.py
+++ b/src/cr/sparse/_src/opt/prox_to_smooth.py
@@ -26,7 +26,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def func(x):
         px, pv = f.prox_vec_val(x, mu)
-        return pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        return pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
 
 
     @jit
@@ -36,7 +36,7 @@ def moreau_envelope(f: opt.ProxCapable, mu: float = 1.):
     @jit
     def grad_val(x):
         px, pv = f.prox_vec_val(x, mu)
-        v = pv + (1./2) * cnb.arr_rnorm_sqr(x - px)
+        v = pv + (1./(2*mu)) * cnb.arr_rnorm_sqr(x - px)
         g = (1/mu) * (x - px)
         return g, v
 
-- 
2.43.0


From 26f34498b57cc3af1e353913fefcdf07b7d3d643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:17 +0000
Subject: [PATCH 27/76] fix: the l1 proximal operator returned NaN for zero
 entries with zero weight

---
 src/cr/sparse/_src/opt/proximal_ops/lpnorms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py b/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
index 6246eae..5aa1146 100644
--- a/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
+++ b/src/cr/sparse/_src/opt/proximal_ops/lpnorms.py
@@ -72,8 +72,9 @@ def prox_l1(q=1.):
         x = jnp.asarray(x)
         x = cnb.promote_arg_dtypes(x)
         tq = t * q
+        mag = jnp.abs(x)
         # shrinkage coefficients
-        s  = 1 - jnp.minimum( tq/jnp.abs(x), 1 )
+        s  = jnp.where(mag > tq, 1 - tq/mag, 0)
         # shrink x
         return x * s
 
-- 
2.43.0


From cb291ef5454c460991ff3fb9bee7f65c7f8edd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:17 +0000
Subject: [PATCH 28/76] fix: opt.build_from_ind_proj was an alias of prox_build

---
 src/cr/sparse/opt/proximal_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/opt/proximal_ops.py b/src/cr/sparse/opt/proximal_ops.py
index 1606fa3..3c1ea61 100644
--- a/src/cr/sparse/opt/proximal_ops.py
+++ b/src/cr/sparse/opt/proximal_ops.py
@@ -23,7 +23,7 @@ from cr.sparse._src.opt.proximal_ops.prox import (
 )
 
 from cr.sparse._src.opt.proximal_ops.prox import build as prox_build
-from cr.sparse._src.opt.proximal_ops.prox import build as build_from_ind_proj
+from cr.sparse._src.opt.proximal_ops.prox import build_from_ind_proj
 
 from cr.sparse._src.opt.proximal_ops.basic import (
     prox_zero
-- 
2.43.0


From 2e569aa68e44c44c29323bd53ec3d7e1364b1c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:17 +0000
Subject: [PATCH 29/76] fix: the indicator of a homogeneous linear system
 divided by zero

---
 src/cr/sparse/_src/opt/indicators/basic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/indicators/basic.py b/src/cr/sparse/_src/opt/indicators/basic.py
index e905fbf..59a0d51 100644
--- a/src/cr/sparse/_src/opt/indicators/basic.py
+++ b/src/cr/sparse/_src/opt/indicators/basic.py
@@ -133,7 +133,8 @@ def indicator_affine(A, b=0):
         # compute the residual
         r = A @ x - b
         # compute the strength of residual
-        strength = norm(r) / norm(b)
+        b_norm = norm(b)
+        strength = norm(r) / jnp.where(b_norm > 0, b_norm, 1.)
         return jnp.where(strength > 1e-10, jnp.inf, 0)
 
     return indicator
-- 
2.43.0


From 8c569267982e8dcfa4d4726c97161ac90ff777e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:17 +0000
Subject: [PATCH 30/76] fix: the gradient of quadratic functions was wrong for
 non-symmetric matrices

---
 src/cr/sparse/_src/opt/smooth/quad.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cr/sparse/_src/opt/smooth/quad.py b/src/cr/sparse/_src/opt/smooth/quad.py
index 933d433..0ffced3 100644
--- a/src/cr/sparse/_src/opt/smooth/quad.py
+++ b/src/cr/sparse/_src/opt/smooth/quad.py
@@ -27,6 +27,8 @@ def smooth_quad_matrix(P=None, q=None, r=None):
     if P is not None:
         P = jnp.asarray(P)
         P = cnb.promote_arg_dtypes(P)
+        # only the Hermitian part of P contributes to the function
+        P = 0.5 * (P + P.conj().T)
     if q is not None:
         q = jnp.asarray(q)
         q = cnb.promote_arg_dtypes(q)
-- 
2.43.0


From 345561f429339438ef7657894b29cb09d3741c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:17 +0000
Subject: [PATCH 31/76] fix: the Huber penalty of a matrix was not a scalar

---
 src/cr/sparse/_src/opt/smooth/huber.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/smooth/huber.py b/src/cr/sparse/_src/opt/smooth/huber.py
index 8902cb4..dd93e99 100644
--- a/src/cr/sparse/_src/opt/smooth/huber.py
+++ b/src/cr/sparse/_src/opt/smooth/huber.py
@@ -37,7 +37,7 @@ def smooth_huber(tau=1.):
         x_large = x_mag - tau/2
 
         v = jnp.where(small, x_small, x_large)
-        return sum(v)
+        return jnp.sum(v)
 
     @jit
     def gradient(x):
-- 
2.43.0


From 663f32066744aebcbb081582fdb21d1a5b2cf8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:17 +0000
Subject: [PATCH 32/76] fix: half thresholding returned NaN for zero entries at
 a zero threshold

---
 src/cr/sparse/_src/geo/thresholding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/geo/thresholding.py b/src/cr/sparse/_src/geo/thresholding.py
index 514880e..141f376 100644
--- a/src/cr/sparse/_src/geo/thresholding.py
+++ b/src/cr/sparse/_src/geo/thresholding.py
@@ -53,7 +53,7 @@ def half_threshold(x, tau):
     """
     x = promote_arg_dtypes(x)
     gamma = (54 ** (1. / 3.) / 4.) * tau ** (2. / 3.)
-    nonzero = jnp.abs(x) >= gamma
+    nonzero = jnp.logical_and(jnp.abs(x) >= gamma, jnp.abs(x) > 0)
     # the arc-cos term Eq 10 from paper
     phi = 2. / 3. * jnp.arccos((tau / 8.) * (jnp.abs(x) / 3.) ** (-1.5))
     # the half thresholded values for terms above gamma Eq 10
-- 
2.43.0


From db7fbb7d5c0164b33a24bbe0c514fdd1d4adfd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:17 +0000
Subject: [PATCH 33/76] fix: PCG performed one iteration less than its budget
 and miscounted them

---
 src/cr/sparse/_src/opt/pcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/pcg.py b/src/cr/sparse/_src/opt/pcg.py
index 15dd42e..4ee1de5 100644
--- a/src/cr/sparse/_src/opt/pcg.py
+++ b/src/cr/sparse/_src/opt/pcg.py
@@ -53,7 +53,7 @@ def solve_from(A, b, x0, max_iters=20, tol=1e-4, atol=0.0, M=_identity):
         gamma = jnp.dot(r0, z0).astype(float)
         return PCGState(x=x0, r=r0, p=p0, 
             gamma=gamma,
-            iterations=1)
+            iterations=0)
 
     def body(state):
         # individual iteration
-- 
2.43.0


From e6b7be3d9671977104e4ac3788b9942e56f4d630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:17 +0000
Subject: [PATCH 34/76] fix: LSQR performed one iteration less than its budget
 and miscounted them

---
 src/cr/sparse/_src/sls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/sls/lsqr.py b/src/cr/sparse/_src/sls/lsqr.py
index 6098462..9f05639 100644
--- a/src/cr/sparse/_src/sls/lsqr.py
+++ b/src/cr/sparse/_src/sls/lsqr.py
@@ -252,7 +252,7 @@ def lsqr(A, b, x0, damp=0, atol=1e-8, btol=1e-8, conlim=100000000., max_iters=10
             D_norm_sqr=0., cum_z_sqr=0., cum_psi_sqr = 0,
             A_norm=0., A_cond=1., 
             x_norm = l2norm(x0), r_norm=b_norm, atr_norm=atr_norm0,
-            iterations=1, n_times=1, n_trans=1)
+            iterations=0, n_times=1, n_trans=1)
         return state
 
     def cond(state):
-- 
2.43.0


From 611d8df30510e7fb361e8743d2d61048b82d75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 35/76] fix: fom.matrix_affine_func failed for every argument

---
 src/cr/sparse/_src/fom/util.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/cr/sparse/_src/fom/util.py b/src/cr/sparse/_src/fom/util.py
index b39a7bd..e098bce 100644
--- a/src/cr/sparse/_src/fom/util.py
+++ b/src/cr/sparse/_src/fom/util.py
@@ -12,6 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from functools import partial
+
 from jax import jit
 
 import jax.numpy as jnp
@@ -50,8 +52,9 @@ def matrix_affine_func(A=None, b=None):
         # both A and b are specified
         return A @ x + b
 
-    ax_plus_b = identity
-    if A is None:
+    if A is None and b is None:
+        ax_plus_b = identity
+    elif A is None:
         # We assume that A is identity
         ax_plus_b  = translate
     elif b is None:
@@ -62,12 +65,12 @@ def matrix_affine_func(A=None, b=None):
         ax_plus_b = affine
 
 
-    @partial(jit, static_argnums=(2,))
+    @partial(jit, static_argnums=(1,))
     def operator(x, mode=0):
         if mode == 0:
-            return A @ x
+            return x if A is None else A @ x
         if mode == 1:
-            return AH_v(A, x)
+            return x if A is None else AH_v(A, x)
         if mode == 2:
             return ax_plus_b(x)
 
-- 
2.43.0


From 7228fc93b087b1a16939ae77f0a75cfd97d702d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:58 +0000
Subject: [PATCH 36/76] fix: the compiled SPG solver rejected user options

---
 src/cr/sparse/_src/opt/spg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/opt/spg.py b/src/cr/sparse/_src/opt/spg.py
index 3191e96..d3378ba 100644
--- a/src/cr/sparse/_src/opt/spg.py
+++ b/src/cr/sparse/_src/opt/spg.py
@@ -231,4 +231,4 @@ def solve_from(smooth_f: SmoothFunction,
     return state
 
 
-solve_from_jit = jit(solve_from, static_argnums=(0,1))
\ No newline at end of file
+solve_from_jit = jit(solve_from, static_argnums=(0,1,3))
\ No newline at end of file
-- 
2.43.0


From 4b4f55890aa71b00b8dfbdec15951a54fc6b297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:16 +0000
Subject: [PATCH 37/76] fix: N-dim convolution ignored the order of its axes

---
 src/cr/sparse/_src/lop/conv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/lop/conv.py b/src/cr/sparse/_src/lop/conv.py
index ff46cbf..ff6e111 100644
--- a/src/cr/sparse/_src/lop/conv.py
+++ b/src/cr/sparse/_src/lop/conv.py
@@ -125,11 +125,13 @@ def convolveND(shape, h, offset=None, axes=None):
     # print(a_slices)
     f_slices = tuple(f_slices)
     a_slices = tuple(a_slices)
+    # arrange the filter dimensions in the order of the data axes
+    h = jnp.transpose(h, np.argsort(axes))
     # check if filter dimensions and data dimensions match
     if data_ndim != filter_ndim:
         # Extend the filter to the data dimensions
         h_dims = np.ones(data_ndim, dtype=int)
-        h_dims[axes] = h.shape
+        h_dims[np.sort(axes)] = h.shape
         h = jnp.reshape(h, h_dims)
     
     padding = [(s - 1, s - 1) for s in h.shape]
-- 
2.43.0


From d680a05daf80fb39635120b4936510e3721b4379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:48 +0000
Subject: [PATCH 38/76] fix: l1ls accepted the starting point when its dual
 objective was not positive

---
 src/cr/sparse/_src/cvx/l1ls.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 468ea4c..110213c 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -153,6 +153,11 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         nu =  jnp.where(sf < 1, sf * nu, nu) # eq 11 
         return nu
 
+    def get_rel_gap(gap, dual_obj):
+        """Computes the relative duality gap (unbounded till the dual objective is positive)"""
+        rel_gap = jnp.where(dual_obj > 0, gap / dual_obj, jnp.inf)
+        return jnp.where(gap > 0, rel_gap, 0.)
+
     def get_phi(u, z, f, t):
         """
         Computes the log barrier Phi_t Sec IV.A [scaled by 1/t]
@@ -167,7 +172,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # initial value of the dual objective
         dual_obj = get_dual_obj(nu)
         gap = primal_obj - dual_obj
-        rel_gap = gap / dual_obj
+        rel_gap = get_rel_gap(gap, dual_obj)
         dxu = jnp.zeros(2*n)
         return State(x=x0, u=u0, z=z, nu=nu, dxu=dxu,
             primal_obj=primal_obj, dual_obj=dual_obj, gap=gap, rel_gap=rel_gap, 
@@ -339,7 +344,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # duality gap
         gap = primal_obj - dual_obj
         # relative gap
-        rel_gap = gap / state.dual_obj
+        rel_gap = get_rel_gap(gap, dual_obj)
         #--------------------------------------------------------------------------------
         # update t if required TNIPM step 7
         #--------------------------------------------------------------------------------
-- 
2.43.0


From d672989543c4bc4e2f094dc42ad5cde1f84e1909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:48 +0000
Subject: [PATCH 39/76] fix: the zero solution test of yall1 ignored the
 weights

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index f9d70c0..391a7dc 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -490,10 +490,14 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     n_trans = 1
     n = Atb.shape[0]
     b_max  = float(norm(b, ord=jnp.inf))
-    atb_max = float(norm(Atb, ord=jnp.inf))
+    w = jnp.ones(n)
+    if weights is not None:
+        # make sure that the final weights are an array of size n
+        w = w * weights
+
     zero_solution = False
     if rho > 0:
-        zero_solution = atb_max <= rho
+        zero_solution = bool(jnp.all(jnp.abs(Atb) <= rho * w))
     if delta > 0:
         zero_solution = norm(b) <= delta
     if zero_solution:
@@ -507,11 +511,6 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
     if z0 is None:
         z0 = jnp.zeros(n)
 
-    w = jnp.ones(n)
-    if weights is not None:
-        # make sure that the final weights are an array of size n
-        w = w * weights
-
     # scale data and model parameters
     b = b / b_max
     if rho > 0: rho = rho / b_max
-- 
2.43.0


From 1b903dd7839cc5a25eea86ae61a0f9e51030b2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:28 +0000
Subject: [PATCH 40/76] fix: yall1 took a vanishing iterate for a converged one

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index 391a7dc..df57560 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -163,7 +163,7 @@ def solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters):
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
-        x_unstable = x_relative_change > tolerance * (1 - q)
+        x_unstable = jnp.logical_not(x_relative_change <= tolerance * (1 - q))
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
@@ -296,7 +296,8 @@ def solve_l1_l2(A, b, x0, z0, w, nonneg, rho, gamma, tolerance, max_iters):
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
-        condition = jnp.logical_and(condition, x_relative_change > tolerance * (1 - q))
+        x_unstable = jnp.logical_not(x_relative_change <= tolerance * (1 - q))
+        condition = jnp.logical_and(condition, x_unstable)
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
@@ -419,7 +420,7 @@ def solve_l1_l2con(A, b, x0, z0, w, nonneg, delta, gamma, tolerance, max_iters):
         # relative change in x norm
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
-        x_unstable = x_relative_change > tolerance
+        x_unstable = jnp.logical_not(x_relative_change <= tolerance)
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
-- 
2.43.0


From 608c153e2ad8be156ea9a9ee11f42c4973529b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:28 +0000
Subject: [PATCH 41/76] fix: yall1 returned NaN for zero measurements

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index df57560..0b86937 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -496,7 +496,7 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
         # make sure that the final weights are an array of size n
         w = w * weights
 
-    zero_solution = False
+    zero_solution = b_max == 0
     if rho > 0:
         zero_solution = bool(jnp.all(jnp.abs(Atb) <= rho * w))
     if delta > 0:
-- 
2.43.0


From 7d0a8f8fb58a0b11ffb908b6eb45da2a8a0e165d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:58 +0000
Subject: [PATCH 42/76] fix: yall1 did not scale the initial solution like the
 data

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index 0b86937..27c7a4a 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -506,8 +506,8 @@ def solve(A, b, x0=None, z0=None, W=None, weights=None, nonneg=False, rho=0., de
         return RecoveryFullSolution(x=x, r=b, 
             iterations=0, 
             n_times=n_times, n_trans=n_trans)
-    if x0 is None:
-        x0 = Atb / b_max
+    # the solver works on data scaled by b_max
+    x0 = (Atb if x0 is None else x0) / b_max
 
     if z0 is None:
         z0 = jnp.zeros(n)
-- 
2.43.0


From 58579d210457ab0b9e6570afa0b6fa1008ed4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:03 +0000
Subject: [PATCH 43/76] fix: yall1 took rounding residue for a converged
 solution

---
 src/cr/sparse/_src/cvx/adm/yall1.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cr/sparse/_src/cvx/adm/yall1.py b/src/cr/sparse/_src/cvx/adm/yall1.py
index 27c7a4a..ae7505a 100644
--- a/src/cr/sparse/_src/cvx/adm/yall1.py
+++ b/src/cr/sparse/_src/cvx/adm/yall1.py
@@ -95,6 +95,7 @@ def solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters):
     times = A.times
     trans = A.trans
     mu = jnp.mean(jnp.abs(b))
+    x_norm_threshold = 100 * jnp.finfo(b.dtype).eps * norm(b)
     mu_orig = mu
     b_by_mu = b  / mu
     rp_norm_threshold = tolerance * norm(b)
@@ -164,6 +165,8 @@ def solve_bp(A, b, x0, z0, w, nonneg, gamma, tolerance, max_iters):
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
         x_unstable = jnp.logical_not(x_relative_change <= tolerance * (1 - q))
+        # nothing is known about convergence while x is zero up to rounding
+        x_unstable = jnp.logical_or(x_unstable, x_norm <= x_norm_threshold)
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
@@ -210,6 +213,7 @@ def solve_l1_l2(A, b, x0, z0, w, nonneg, rho, gamma, tolerance, max_iters):
     times = A.times
     trans = A.trans
     mu = jnp.mean(jnp.abs(b))
+    x_norm_threshold = 100 * jnp.finfo(b.dtype).eps * norm(b)
     mu_orig = mu
     rho_by_mu = rho / mu
     rho_by_mu_p1 = rho_by_mu + 1
@@ -297,6 +301,8 @@ def solve_l1_l2(A, b, x0, z0, w, nonneg, rho, gamma, tolerance, max_iters):
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
         x_unstable = jnp.logical_not(x_relative_change <= tolerance * (1 - q))
+        # nothing is known about convergence while x is zero up to rounding
+        x_unstable = jnp.logical_or(x_unstable, x_norm <= x_norm_threshold)
         condition = jnp.logical_and(condition, x_unstable)
 
         # condition on dual residual norm
@@ -337,6 +343,7 @@ def solve_l1_l2con(A, b, x0, z0, w, nonneg, delta, gamma, tolerance, max_iters):
     times = A.times
     trans = A.trans
     mu = jnp.mean(jnp.abs(b))
+    x_norm_threshold = 100 * jnp.finfo(b.dtype).eps * norm(b)
     mu_orig = mu
     b_by_mu = b  / mu
     delta_by_mu = delta / mu
@@ -421,6 +428,8 @@ def solve_l1_l2con(A, b, x0, z0, w, nonneg, delta, gamma, tolerance, max_iters):
         x_relative_change = norm(state.x - state.x_prev) / x_norm
         # condition on relative change in x norm
         x_unstable = jnp.logical_not(x_relative_change <= tolerance)
+        # nothing is known about convergence while x is zero up to rounding
+        x_unstable = jnp.logical_or(x_unstable, x_norm <= x_norm_threshold)
 
         # condition on dual residual norm
         rel_rd = norm(state.rd) / norm(state.z)
-- 
2.43.0


From 6903c35870325f1feb6c5a39bdf187f94f026fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:23 +0000
Subject: [PATCH 44/76] fix: spgl1 reported wrong counts of operator
 applications

---
 src/cr/sparse/_src/cvx/spgl1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index a32d406..89a662e 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -384,7 +384,7 @@ def solve_lasso_from(A,
             alpha=lsearch.alpha,
             alpha_next=alpha_next,
             iterations=state.iterations+1,
-            n_times=n_times, n_trans=n_times, 
+            n_times=n_times, n_trans=n_trans, 
             n_ls_iters=state.n_ls_iters + lsearch.n_iters)
 
     def cond_func(state):
@@ -605,7 +605,7 @@ def solve_bpic_from(A,
             r_res_error=r_res_error, r_f_error=r_f_error,
             alpha=alpha,
             alpha_next=alpha,
-            iterations=1, n_times=2, n_trans=2,
+            iterations=1, n_times=1, n_trans=1,
             n_newton=1, n_ls_iters=0)
 
     #@jit
-- 
2.43.0


From e07f15de9eec96aa1f95afd3938cc7dd2d2548fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:23 +0000
Subject: [PATCH 45/76] fix: the LASSO drivers of spgl1 rejected complex data
 and user options

---
 src/cr/sparse/_src/cvx/spgl1.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 89a662e..2b7f2e1 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -412,10 +412,11 @@ def solve_lasso(A,
     """Solves the LASSO problem using SPGL1 algorithm
     """
     m, n = A.shape
-    x0 = jnp.zeros(n)
+    dtype = b.dtype if A.real else jnp.result_type(b.dtype, jnp.complex64)
+    x0 = jnp.zeros(n, dtype=dtype)
     return solve_lasso_from(A, b, tau, x0, options=options, tracker=tracker)
 
-solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "tracker"))
+solve_lasso_jit = jit(solve_lasso, static_argnames=("A", "options", "tracker"))
 
 
 def analyze_lasso_state(A, b, tau, options, state, x0):
-- 
2.43.0


From 363b5c1adfaf548e01104df2751d3797264b0d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:55 +0000
Subject: [PATCH 46/76] fix: spgl1 tested convergence with the metrics of a
 point it had replaced

---
 src/cr/sparse/_src/cvx/spgl1.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 2b7f2e1..b39c279 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -656,6 +656,11 @@ def solve_bpic_from(A,
             lambda _: update_xrgf(A, b, x, tau),
             lambda _: (x, r, g, f),
             None)
+        # the metrics must describe the updated solution
+        g_dnorm, r_norm, r_gap, r_res_error, r_f_error = lax.cond(tau_reduced,
+            lambda _: bpic_metrics(b, x, g, r, f, sigma, tau),
+            lambda _: (g_dnorm, r_norm, r_gap, r_res_error, r_f_error),
+            None)
         n_times, n_trans = n_times + tau_reduced, n_trans + tau_reduced
         n_newton = state.n_newton + change_tau
         # update past objective values with the new objective value
-- 
2.43.0


From 55e260d74f37e819d46c9daaccc9287887d9f127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:20 +0000
Subject: [PATCH 47/76] fix: BSBL used a scalar in place of the outer product
 in the second moments

---
 src/cr/sparse/_src/block/bsbl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index bf794d2..da987be 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -166,7 +166,7 @@ def compute_sigma_x_pruned(Phi, Sigma0, H, active_blocks):
 
 def compute_cov_x(Sigma_x, mu_x):
     Cov_x = vmap(
-        lambda sx, mx: sx + mx @ mx.T,
+        lambda sx, mx: sx + jnp.outer(mx, mx),
         in_axes=(0,0))(Sigma_x, mu_x)
     return Cov_x
 
-- 
2.43.0


From eb2c0507c243149266384563b2755fc929ba3f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:20 +0000
Subject: [PATCH 48/76] fix: the high SNR noise rule of BSBL counted blocks as
 entries and divided by pruned gammas

---
 src/cr/sparse/_src/block/bsbl.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index da987be..527d3e3 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -203,13 +203,17 @@ def compute_B_B_inv(B0):
     return B, B_inv
 
 # This rule doesn't seem to work in noiseless case
-def update_lambda_high_snr(lambda_val, gammas, Sigma_x, B_inv, r_norm_sqr, m):
-    n_blocks = len(gammas)
+def update_lambda_high_snr(lambda_val, gammas, Sigma_x, B_inv, r_norm_sqr, m, active_blocks):
+    blk_size = B_inv.shape[0]
     ll = vmap(
-        lambda g, sx: jnp.trace(sx @ B_inv) / g,
-        in_axes=(0, 0))(gammas, Sigma_x)
+        lambda g, sx, active: jnp.where(active,
+            jnp.trace(sx @ B_inv) / jnp.where(active, g, 1.),
+            0.),
+        in_axes=(0, 0, 0))(gammas, Sigma_x, active_blocks)
     lambda_comp = jnp.sum(ll)
-    carry = lambda_val * (n_blocks - lambda_comp)
+    # number of entries in the active blocks
+    n_active = blk_size * jnp.sum(active_blocks)
+    carry = lambda_val * (n_active - lambda_comp)
     new_lambda_val = (r_norm_sqr + carry) / m
     # print(f'old:{lambda_val:.2e}, new:{new_lambda_val:.2e}, comp: {lambda_comp:.2e}, carry: {carry:.2e}, r_norm_sqr: {r_norm_sqr:.2e}')
     return new_lambda_val
@@ -224,16 +228,16 @@ def update_lambda_low_snr(lambda_val, Subdicts, Sigma_x, r_norm_sqr, m):
     return new_lambda_val
 
 def update_lambda_rule_nojit(learn_lambda, 
-    lambda_val, Subdicts, gammas, Sigma_x, B_inv, r_norm_sqr, m):
+    lambda_val, Subdicts, gammas, Sigma_x, B_inv, r_norm_sqr, m, active_blocks):
     if learn_lambda == 0:
         return lambda_val
     if learn_lambda == 1:
         return update_lambda_low_snr(lambda_val, Subdicts, Sigma_x, r_norm_sqr, m)
-    return update_lambda_high_snr(lambda_val, gammas, Sigma_x, B_inv, r_norm_sqr, m)
+    return update_lambda_high_snr(lambda_val, gammas, Sigma_x, B_inv, r_norm_sqr, m, active_blocks)
 
 
 def update_lambda_rule_jittable(learn_lambda, 
-    lambda_val, Subdicts, gammas, Sigma_x, B_inv, r_norm_sqr, m):
+    lambda_val, Subdicts, gammas, Sigma_x, B_inv, r_norm_sqr, m, active_blocks):
     return lax.switch(learn_lambda,
         [
         lambda lambda_val: lambda_val,
@@ -241,7 +245,7 @@ def update_lambda_rule_jittable(learn_lambda,
             lambda_val, Subdicts, Sigma_x, r_norm_sqr, m),
         lambda lambda_val: update_lambda_high_snr(lambda_val, 
         gammas, Sigma_x,
-        B_inv, r_norm_sqr, m),
+        B_inv, r_norm_sqr, m, active_blocks),
         ], lambda_val)
 
 def update_gammas_em(Cov_x, B_inv):
@@ -560,7 +564,7 @@ def bsbl_em(Phi, y, blk_len,
         #     B_inv, r_norm_sqr, m)
         lambda_val = update_lambda_rule_jittable(learn_lambda,
             state.lambda_val, Subdicts, state.gammas, Sigma_x,
-            B_inv, r_norm_sqr, m)
+            B_inv, r_norm_sqr, m, active_blocks)
         # update gamma
         gammas = update_gammas_em_pruned(Cov_x, B_inv, active_blocks)
         # update sigma
@@ -688,7 +692,7 @@ def bsbl_bo(Phi, y, blk_len,
         #     B_inv, r_norm_sqr, m)
         lambda_val = update_lambda_rule_jittable(learn_lambda,
             state.lambda_val, Subdicts, state.gammas, Sigma_x,
-            B_inv, r_norm_sqr, m)
+            B_inv, r_norm_sqr, m, active_blocks)
         # update gamma
         gammas = update_gammas_bo_pruned(state.gammas, B, Hy, HPhi, active_blocks)
         # update sigma
@@ -790,6 +794,8 @@ def bsbl_bo_np(Phi, y, blk_len,
         return state
 
     def body_func(state):
+        # blocks are never pruned
+        active_blocks = jnp.ones(nb, dtype=bool)
         PhiBPhi = cum_phi_b_phi(Subdicts, state.Sigma0)
         H = compute_h(Phi, PhiBPhi, state.lambda_val)
         # posterior block means
@@ -811,7 +817,7 @@ def bsbl_bo_np(Phi, y, blk_len,
         #     B_inv, r_norm_sqr, m)
         lambda_val = update_lambda_rule_jittable(learn_lambda,
             state.lambda_val, Subdicts, state.gammas, Sigma_x,
-            B_inv, r_norm_sqr, m)
+            B_inv, r_norm_sqr, m, active_blocks)
         # update gamma
         gammas = update_gammas_bo(state.gammas, B, Hy, HPhi)
         # update sigma
-- 
2.43.0


From d7691a67c0436bd688cc0b835c1447acd677e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:20 +0000
Subject: [PATCH 49/76] fix: BSBL ignored the option to ignore intra block
 correlation

---
 src/cr/sparse/_src/block/bsbl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/block/bsbl.py b/src/cr/sparse/_src/block/bsbl.py
index 527d3e3..7d2c7db 100644
--- a/src/cr/sparse/_src/block/bsbl.py
+++ b/src/cr/sparse/_src/block/bsbl.py
@@ -187,13 +187,15 @@ def compute_cov_x_sum_pruned(Cov_x, gammas, active_blocks):
         in_axes=(0, 0, 0))(Cov_x, gammas, active_blocks)
     return jnp.sum(B_i, axis=0)
 
-def compute_B_B_inv(B0):
+def compute_B_B_inv(B0, learn_block_corr=1):
     m0 = jnp.mean(jnp.diag(B0))
     m1 = jnp.mean(jnp.diag(B0, 1))
     # AR-1 coefficient
     r = m1 / m0
     # make sure that it is bounded
     r = jnp.clip(r, -0.99, 0.99)
+    # intra block correlation may have to be ignored
+    r = jnp.where(learn_block_corr == 0, 0., r)
     # print(f'r: {r}')
     # block size
     b = B0.shape[0]
@@ -551,7 +553,7 @@ def bsbl_em(Phi, y, blk_len,
         Sigma_x, _ = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -679,7 +681,7 @@ def bsbl_bo(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x_pruned(Phi, state.Sigma0, H, active_blocks)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum_pruned(Cov_x, state.gammas, active_blocks)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
@@ -804,7 +806,7 @@ def bsbl_bo_np(Phi, y, blk_len,
         Sigma_x, HPhi = compute_sigma_x(Phi, state.Sigma0, H)
         Cov_x = compute_cov_x(Sigma_x, mu_x)
         Bi_sum = compute_cov_x_sum(Cov_x, state.gammas)
-        B, B_inv = compute_B_B_inv(Bi_sum)
+        B, B_inv = compute_B_B_inv(Bi_sum, learn_block_corr)
         # flattened signal
         x_hat = mu_x.flatten()
         # residual
-- 
2.43.0


From d23f0bf6b5d60a09c0039a320fc136f99edddbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:53 +0000
Subject: [PATCH 50/76] fix: clustering error with unequal numbers of true and
 predicted clusters did not use the best one to one mapping

---
 src/cr/sparse/_src/cluster/util.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/util.py b/src/cr/sparse/_src/cluster/util.py
index bc08b1c..6e1dca4 100644
--- a/src/cr/sparse/_src/cluster/util.py
+++ b/src/cr/sparse/_src/cluster/util.py
@@ -85,9 +85,14 @@ def best_map(true_labels, pred_labels):
     # Run the Hungarian assignment algorithm
     rows, cols = linear_sum_assignment(-G)
     mapped_labels = jnp.zeros_like(pred_labels)
-    for i in range(n_l2):
+    # a label different from all true labels for the clusters which could not be matched
+    no_label = jnp.max(labels_1) + 1
+    for i in range(n_labels):
+        if cols[i] >= n_l2:
+            # there is no predicted cluster left for this true label
+            continue
         old_label = labels_2[cols[i]]
-        new_label = labels_1[i]
+        new_label = labels_1[i] if i < n_l1 else no_label
         mapped_labels = mapped_labels.at[pred_labels == old_label].set(new_label)
     return mapped_labels, cols, G 
 
-- 
2.43.0


From be8c4cb6cfd28106b3e93088ccb6bc10459e27de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:20 +0000
Subject: [PATCH 51/76] fix: angles between antipodal points were NaN

---
 src/cr/sparse/_src/cluster/ssc/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/util.py b/src/cr/sparse/_src/cluster/ssc/util.py
index 298fa9a..e18c9c5 100644
--- a/src/cr/sparse/_src/cluster/ssc/util.py
+++ b/src/cr/sparse/_src/cluster/ssc/util.py
@@ -95,7 +95,7 @@ def angles_between_points(X):
     # Compute gram matrix
     G = X.T @ X
     # Avoid overflow in gram matrix
-    G = jnp.minimum(G, 1)
+    G = jnp.clip(G, -1, 1)
     return jnp.rad2deg(jnp.arccos(G))
 
 
-- 
2.43.0


From d1b1b2dcce1615636ffa8fb11f5f252a98ee0342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:20 +0000
Subject: [PATCH 52/76] fix: sparse_to_full_rep lost coefficients of repeated
 indices

---
 src/cr/sparse/_src/cluster/ssc/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/util.py b/src/cr/sparse/_src/cluster/ssc/util.py
index e18c9c5..9197b21 100644
--- a/src/cr/sparse/_src/cluster/ssc/util.py
+++ b/src/cr/sparse/_src/cluster/ssc/util.py
@@ -32,7 +32,7 @@ def sparse_to_full_rep(X, I):
     """
     # number of signals
     n  = X.shape[1]
-    mapper = lambda x, i : jnp.zeros(n).at[i].set(x)
+    mapper = lambda x, i : jnp.zeros(n).at[i].add(x)
     return vmap(mapper, (1,1), 1)(X, I)
 
 @jit
-- 
2.43.0


From b0265390574c60e1e258b43a91f4dbf4fca64850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:20 +0000
Subject: [PATCH 53/76] fix: sorted_neighbors listed a point as its own
 neighbor when another point is parallel to it

---
 src/cr/sparse/_src/cluster/ssc/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cr/sparse/_src/cluster/ssc/util.py b/src/cr/sparse/_src/cluster/ssc/util.py
index 9197b21..a8ba4ea 100644
--- a/src/cr/sparse/_src/cluster/ssc/util.py
+++ b/src/cr/sparse/_src/cluster/ssc/util.py
@@ -171,6 +171,8 @@ def nearest_neighbors_outside_cluster(angles, cluster_sizes):
 def sorted_neighbors(angles):
     """Returns the neighbor indices sorted by angle between points
     """
+    # make sure that each point comes first in its own list
+    angles = cnb.set_diagonal(angles, -1)
     # sort the angle row-wise (along the column axis)
     indices = jnp.argsort(angles)
     # drop the first column
-- 
2.43.0


From a94b7443f00e1e38668fb3be6b025ac3c0cefd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:20 +0000
Subject: [PATCH 54/76] fix: batched SSC-OMP represented the normalized points
 instead of the points

---
 src/cr/sparse/_src/cluster/ssc/omp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/omp.py b/src/cr/sparse/_src/cluster/ssc/omp.py
index b248709..6ea08f1 100644
--- a/src/cr/sparse/_src/cluster/ssc/omp.py
+++ b/src/cr/sparse/_src/cluster/ssc/omp.py
@@ -93,9 +93,9 @@ def batch_build_representation_omp(X, K, batch_size):
         # rows for setting the self inner product to 0.
         r = rr + start
         # Let's restrict our attention to this batch only
-        X_batch = Xn[:, start:end]
+        X_batch = X[:, start:end]
         # The residual 
-        R = X_batch
+        R = Xn[:, start:end]
         # Let's conduct first iteration of OMP
         # The proxy representation
         P = Dict.T @ R
-- 
2.43.0


From c9f322f1a257802430c62555ccd8f3cbaca90554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:34 +0000
Subject: [PATCH 55/76] fix: SSC-OMP represented a point by itself once its
 residual had vanished

---
 src/cr/sparse/_src/cluster/ssc/omp.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/ssc/omp.py b/src/cr/sparse/_src/cluster/ssc/omp.py
index 6ea08f1..2f29b5a 100644
--- a/src/cr/sparse/_src/cluster/ssc/omp.py
+++ b/src/cr/sparse/_src/cluster/ssc/omp.py
@@ -38,10 +38,10 @@ def build_representation_omp(X, K):
     # The proxy representation
     P = Dict.T @ R
     # First correlation of residual with signal
-    # Set the diagonal to zero
-    H = cnb.set_diagonal(P, 0)
+    # a vector never represents itself
+    H = cnb.set_diagonal(jnp.abs(P), -1)
     # Index of best match
-    indices = cnb.abs_max_idx_cw(H)
+    indices = jnp.argmax(H, axis=0)
     # Initialize the array of selected indices
     # with current indices as the first row
     I = indices[jnp.newaxis, :]
@@ -49,9 +49,9 @@ def build_representation_omp(X, K):
     # conduct OMP iterations
     for k in range(1, K):
         # compute the correlations
-        H = cnb.set_diagonal(Dict.T @ R, 0)
+        H = cnb.set_diagonal(jnp.abs(Dict.T @ R), -1)
         # Index of best match
-        indices = cnb.abs_max_idx_cw(H)
+        indices = jnp.argmax(H, axis=0)
         # Update the set of indices
         I = jnp.vstack((I, indices))
         # Solve over these indices
@@ -100,10 +100,10 @@ def batch_build_representation_omp(X, K, batch_size):
         # The proxy representation
         P = Dict.T @ R
         # First correlation of residual with signal
-        # Set the diagonal to zero
-        H = P.at[(r, c)].set(0)
+        # a vector never represents itself
+        H = jnp.abs(P).at[(r, c)].set(-1)
         # Index of best match
-        indices = cnb.abs_max_idx_cw(H)
+        indices = jnp.argmax(H, axis=0)
         # Initialize the array of selected indices
         # with current indices as the first row
         I_res = I_res.at[0, start:end].set(indices)
@@ -112,10 +112,10 @@ def batch_build_representation_omp(X, K, batch_size):
         for k in range(1, K):
             # compute the correlations
             H = Dict.T @ R
-            # Set the diagonal to zero
-            H = H.at[(r, c)].set(0)
+            # a vector never represents itself
+            H = jnp.abs(H).at[(r, c)].set(-1)
             # Index of best match
-            indices = cnb.abs_max_idx_cw(H)
+            indices = jnp.argmax(H, axis=0)
             # Update the set of indices
             I_res = I_res.at[k, start:end].set(indices)
             # Solve over these indices
-- 
2.43.0


From 8dd9c426a9a0ccf6df4d9ba15897570e507ec3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:38 +0000
Subject: [PATCH 56/76] fix: renormalized fixed point iteration ascended the
 one sided penalty

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index d0bd816..a03c1f4 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -93,7 +93,7 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
             # see which bits have same sign, which bits have different sign
             correlation = y * measurement
             # Only the bits which are wrong are important for further consideration
-            problems = jnp.where(correlation <= 0, -correlation, 0)
+            problems = jnp.where(correlation <= 0, correlation, 0)
             print(f'number of wrong signs: {jnp.sum(correlation < 0)}, {jnp.sum(problems)}')
             # multiply with the bit vector Y^T (f'(term))
             problems = y * problems
-- 
2.43.0


From f1772e5155f525c54784f66aa611c49e0d8a43e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:59 +0000
Subject: [PATCH 57/76] fix: the outer iterations of renormalized fixed point
 iteration did not change the shrinkage threshold

---
 src/cr/sparse/_src/cs/cs1bit/rfp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/cs/cs1bit/rfp.py b/src/cr/sparse/_src/cs/cs1bit/rfp.py
index a03c1f4..e4eac1c 100644
--- a/src/cr/sparse/_src/cs/cs1bit/rfp.py
+++ b/src/cr/sparse/_src/cs/cs1bit/rfp.py
@@ -79,10 +79,10 @@ def rfp(Phi, y, x0, lambda_=1., delta=0.1, inner_iters=200, outer_iters=20):
     """Solver fo 1-bit compressive sensing with renormalized fixed points iteration
     algorithm     
     """
-    tau = delta / lambda_
-    print(f'shrinkage threshold: {tau}')
-
     def rfpi_inner(x0, lambda_):
+        tau = delta / lambda_
+        print(f'shrinkage threshold: {tau}')
+
         def init_fun():
             return RFPState(x=x0, x_prev=jnp.zeros_like(x0), iterations=0)
 
-- 
2.43.0


From 2d1849493c6f91fc91467644b0d2f88c50c5d038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:32 +0000
Subject: [PATCH 58/76] fix: build_grassmannian_frame normalized only the
 columns of the Gram matrix

---
 src/cr/sparse/_src/dict/grass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/grass.py b/src/cr/sparse/_src/dict/grass.py
index 689e91f..a05c666 100644
--- a/src/cr/sparse/_src/dict/grass.py
+++ b/src/cr/sparse/_src/dict/grass.py
@@ -95,7 +95,7 @@ def build_grassmannian_frame(init,
         # Ensure that the diagonal elements of G continue to be 1
         d = jnp.diag(g)
         d2 = 1. / jnp.sqrt(d)
-        g = d2 * g * d2
+        g = d2[:, None] * g * d2
         return g
 
     # run the alternate projections
-- 
2.43.0


From 843190019d747893e27b12328b02b2a30c319b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:32 +0000
Subject: [PATCH 59/76] fix: matching_atoms_ratio did not conjugate complex
 atoms

---
 src/cr/sparse/_src/dict/comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/dict/comparison.py b/src/cr/sparse/_src/dict/comparison.py
index b4ba514..faa6ad0 100644
--- a/src/cr/sparse/_src/dict/comparison.py
+++ b/src/cr/sparse/_src/dict/comparison.py
@@ -21,7 +21,7 @@ def matching_atoms_ratio(A, B, distance_threshold=0.01):
     # number of atoms
     n_atoms = A.shape[1]
     # inner products betweeen atoms of A and B
-    similarities = jnp.abs(A.T @ B)
+    similarities = jnp.abs(jnp.conj(A.T) @ B)
     # find the best match from each row 
     max_similarities = jnp.max(similarities, axis=1)
     # angular distance between best match
-- 
2.43.0


From 665d871d42a7ca81c2683f0fc92b65ac21ba8db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 60/76] fix: RecoveryPerformance rejected solutions holding the
 full vector x

---
 src/cr/sparse/_src/tools/performance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/performance.py b/src/cr/sparse/_src/tools/performance.py
index b487146..f7d590d 100644
--- a/src/cr/sparse/_src/tools/performance.py
+++ b/src/cr/sparse/_src/tools/performance.py
@@ -77,7 +77,7 @@ class RecoveryPerformance:
         # Shape of the dictionary/sensing matrix
         M, N = Phi.shape
         if sol is not None:
-            if 'x' in sol:
+            if hasattr(sol, 'x'):
                 x_hat = sol.x
             else:
                 x_hat = build_signal_from_indices_and_values(N, sol.I, sol.x_I) 
-- 
2.43.0


From 0e1a78df5b2ab1bb2920911b5d482195e43dea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 61/76] fix: recovery trials repeated signals when there are
 more signals than dictionaries

---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 50e3a20..0591f32 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -143,7 +143,7 @@ class RecoveryTrialsAtFixed_M_N:
                 print('*', end='', flush=True)
                 # Construct a dictionary
                 Phi = crdict.gaussian_mtx(dict_key, M,N)
-                signal_keys = jax.random.split(dict_key, num_dict_trials)
+                signal_keys = jax.random.split(dict_key, num_signal_trials)
                 for nst in range(num_signal_trials):
                     signal_key = signal_keys[nst]
                     # Construct a signal
-- 
2.43.0


From 10643b75778dc534d2e96136b4612dc8f5ac4678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 62/76] fix: recovery trials failed for a single trial

---
 src/cr/sparse/_src/tools/trials_at_fixed_m_n.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
index 0591f32..d3d223b 100644
--- a/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
+++ b/src/cr/sparse/_src/tools/trials_at_fixed_m_n.py
@@ -172,7 +172,7 @@ class RecoveryTrialsAtFixed_M_N:
             success_rate = successes / trials
             iters = np.array(iters)
             runtime=end_time-start_time # in seconds
-            mean_runtime=runtime * 1000 / (trials - 1) # in milli seconds
+            mean_runtime=runtime * 1000 / max(trials - 1, 1) # in milli seconds
             # summarized information
             row = Row(m=M, n=N, k=K, method=name, 
                 trials=trials, successes=successes, 
-- 
2.43.0


From 5f572d5d334a53f44c4a9ebfda076e9de9806f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 63/76] fix: kernel_gaussian did not have the requested
 standard deviation

---
 src/cr/sparse/_src/vision/kernels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/vision/kernels.py b/src/cr/sparse/_src/vision/kernels.py
index 6d57bcf..8187bae 100644
--- a/src/cr/sparse/_src/vision/kernels.py
+++ b/src/cr/sparse/_src/vision/kernels.py
@@ -73,8 +73,8 @@ def kernel_gaussian(size=5, sigma=1.):
     # form a mesh grid of 2 D points
     xx, yy = jnp.meshgrid(ax_x, ax_y)
     # Compute the kernel values at the specified points in the grid
-    factor_x = 2 / sigma_x ** 2
-    factor_y = 2 / sigma_y ** 2
+    factor_x = 1 / (2 * sigma_x ** 2)
+    factor_y = 1 / (2 * sigma_y ** 2)
     kernel = jnp.exp(-(jnp.square(xx) * factor_x + jnp.square(yy) * factor_y))
     # normalize the kernel and return
     return kernel / jnp.sum(kernel)
\ No newline at end of file
-- 
2.43.0


From ba8823154c1b386099b8b273d72c5219ae442699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 64/76] fix: matching pursuit told its tracker after every
 iteration that it had converged

---
 src/cr/sparse/_src/pursuit/mp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/mp.py b/src/cr/sparse/_src/pursuit/mp.py
index c133720..1701227 100644
--- a/src/cr/sparse/_src/pursuit/mp.py
+++ b/src/cr/sparse/_src/pursuit/mp.py
@@ -123,12 +123,12 @@ def solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tracker):
             iterations=state.iterations+1)
 
     def cond_func(state):
-        jax.debug.callback(tracker, state)
         # limit on residual norm 
         a = state.r_norm_sqr > max_r_norm_sqr
         # limit on number of iterations
         b = state.iterations < max_iters
         c = jnp.logical_and(a, b)
+        jax.debug.callback(tracker, state, more=c)
         return c
 
     # state = init_func()
@@ -199,12 +199,12 @@ def matrix_solve(Phi, y, max_iters=100, res_norm_rtol=1e-4, tracker=crs.noop_tra
             iterations=state.iterations+1)
 
     def cond_func(state):
-        jax.debug.callback(tracker, state)
         # limit on residual norm 
         a = state.r_norm_sqr > max_r_norm_sqr
         # limit on number of iterations
         b = state.iterations < max_iters
         c = jnp.logical_and(a, b)
+        jax.debug.callback(tracker, state, more=c)
         return c
 
     # state = init_func()
-- 
2.43.0


From 7b102c5f58e053195bd67d5f3f14dcb2f37736e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 65/76] fix: SP and CoSaMP reported the scaled down solution to
 their tracker

---
 src/cr/sparse/_src/pursuit/cosamp.py | 4 +++-
 src/cr/sparse/_src/pursuit/sp.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index 966a009..df3a390 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -235,7 +235,9 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # e = state.r_norm_sqr < 0.9 * state.r_norm_sqr_prev
         # c = jnp.logical_and(c, e)
         # overall condition
-        jax.debug.callback(tracker, state, more=c)
+        # the tracker should see the solution at the scale of the signal
+        jax.debug.callback(tracker, state._replace(x_I=y_norm * state.x_I,
+            r=y_norm * state.r, r_norm_sqr=y_norm_sqr * state.r_norm_sqr), more=c)
         return c
 
     state = init()
diff --git a/src/cr/sparse/_src/pursuit/sp.py b/src/cr/sparse/_src/pursuit/sp.py
index acf98d6..c29a92b 100644
--- a/src/cr/sparse/_src/pursuit/sp.py
+++ b/src/cr/sparse/_src/pursuit/sp.py
@@ -198,7 +198,9 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         # consider support change only after some iterations
         d = jnp.logical_or(state.iterations < min_iters, d)
         c = jnp.logical_and(c, d)
-        jax.debug.callback(tracker, state, more=c)
+        # the tracker should see the solution at the scale of the signal
+        jax.debug.callback(tracker, state._replace(x_I=y_norm * state.x_I,
+            r=y_norm * state.r, r_norm_sqr=y_norm_sqr * state.r_norm_sqr), more=c)
         return c
 
     state = lax.while_loop(cond, body, init())
-- 
2.43.0


From ffdc08e4ca95d9dc871603c38f4d3b013afd69f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 66/76] fix: cosamp.solve did not accept a tracker

---
 src/cr/sparse/_src/pursuit/cosamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/pursuit/cosamp.py b/src/cr/sparse/_src/pursuit/cosamp.py
index df3a390..6c22997 100644
--- a/src/cr/sparse/_src/pursuit/cosamp.py
+++ b/src/cr/sparse/_src/pursuit/cosamp.py
@@ -253,6 +253,6 @@ def operator_solve(Phi, y, K, max_iters=None, res_norm_rtol=1e-4,
         iterations=state.iterations, length=Phi.shape[1])
 
 
-operator_solve_jit = jit(operator_solve, static_argnums=(0, 2), static_argnames=("max_iters", "res_norm_rtol"))
+operator_solve_jit = jit(operator_solve, static_argnums=(0, 2), static_argnames=("max_iters", "res_norm_rtol", "tracker"))
 
 solve = operator_solve_jit
-- 
2.43.0


From eb15c8104ec65f582b935785490ccbfe44ce1fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:13 +0000
Subject: [PATCH 67/76] fix: SPGL1 for BPIC failed on a complex operator with
 real data

---
 src/cr/sparse/_src/cvx/spgl1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index b39c279..6f5be59 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -726,7 +726,8 @@ def solve_bpic(A,
     """Solves the BPIC problem using SPGL1 algorithm
     """
     m, n = A.shape
-    x0 = jnp.zeros(n, dtype=b.dtype)
+    dtype = b.dtype if A.real else jnp.result_type(b.dtype, jnp.complex64)
+    x0 = jnp.zeros(n, dtype=dtype)
     return solve_bpic_from(A, b, sigma, x0, options=options, tracker=tracker)
 
 solve_bpic_jit = jit(solve_bpic, static_argnames=("A", "options", "tracker"))
-- 
2.43.0


From e8e7ccc7f0768685583574d7500d7eb52e9c9440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:56 +0000
Subject: [PATCH 68/76] fix: truncated SVD reported NaN bounds and no converged
 values once the range was exhausted

---
 src/cr/sparse/_src/sls/svdpack/lansvd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lansvd.py b/src/cr/sparse/_src/sls/svdpack/lansvd.py
index 24340b7..1bf3324 100644
--- a/src/cr/sparse/_src/sls/svdpack/lansvd.py
+++ b/src/cr/sparse/_src/sls/svdpack/lansvd.py
@@ -55,8 +55,8 @@ def lansvd_simple(A, k, p0):
     state = lax.fori_loop(1, j, 
         lambda i, state: lanbpro_iteration(A, state, options),
         state)
-    # norm of the residual 
-    res_norm = norm(state.p)
+    # norm of the residual (zero if the range of A is exhausted, p is then arbitrary)
+    res_norm = state.beta[j]
     # compute SVD of the bidiagonal matrix ritz values and vectors
     P, S, Qh, bot = bdsqr(state.alpha, state.beta, j)
     # estimate of A norm 
-- 
2.43.0


From 95a15ec3bbc744a384a25d3cbbfc3aac5b353856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:41 +0000
Subject: [PATCH 69/76] fix: power iterations failed for complex Hermitian
 operators

---
 src/cr/sparse/_src/sls/power.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cr/sparse/_src/sls/power.py b/src/cr/sparse/_src/sls/power.py
index 9ac4436..036a362 100644
--- a/src/cr/sparse/_src/sls/power.py
+++ b/src/cr/sparse/_src/sls/power.py
@@ -90,7 +90,8 @@ def power_iterations(
         # compute the next vector
         v_new = operator.times(v)
         # estimate the eigen value
-        new_estimate = jnp.vdot(v, v_new)
+        # the eigen values of a Hermitian operator are real
+        new_estimate = jnp.real(jnp.vdot(v, v_new))
         return PowerIterState(v=v_new, old_estimate=state.new_estimate, 
             new_estimate=new_estimate, iterations=state.iterations+1)
 
-- 
2.43.0


From 8f79b9bbe845f20460d02d2eb7ed761b3eb0f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:50 +0000
Subject: [PATCH 70/76] fix: l1ls missed some operator applications in its
 counts

---
 src/cr/sparse/_src/cvx/l1ls.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/l1ls.py b/src/cr/sparse/_src/cvx/l1ls.py
index 110213c..0e5a393 100644
--- a/src/cr/sparse/_src/cvx/l1ls.py
+++ b/src/cr/sparse/_src/cvx/l1ls.py
@@ -269,8 +269,9 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         # Every pcg iteration is one H(x) and one M(x)
         # M(x) is vector-vector stuff
         # H(x) involves one A x and one A^T x
-        n_times += pcg_iters
-        n_trans += pcg_iters
+        # one more H(x) is needed for the initial residual
+        n_times += pcg_iters + 1
+        n_trans += pcg_iters + 1
         #--------------------------------------------------------------------------------
         # Backtracking line search TNIPM step 2
         #--------------------------------------------------------------------------------
@@ -334,6 +335,7 @@ def solve_from(A, y, lambda_, x0, u0, tol=1e-3, xi=1e-3, t0=None,
         #--------------------------------------------------------------------------------
         # update nu (eq 11)
         nu = get_nu(z)
+        n_trans += 1
         #--------------------------------------------------------------------------------
         # Duality gap calculation TNIPM step 5
         #--------------------------------------------------------------------------------
-- 
2.43.0


From 88dc44365b95fd47e074792bd679aef635f702af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:25 +0000
Subject: [PATCH 71/76] fix: Lanczos bidiagonalisation reorthogonalised left
 vectors against the wrong set and lost orthogonality after a restart

---
 src/cr/sparse/_src/sls/svdpack/lanbpro.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lanbpro.py b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
index 9c98014..e1b4a98 100644
--- a/src/cr/sparse/_src/sls/svdpack/lanbpro.py
+++ b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
@@ -302,16 +302,16 @@ def lanbpro_iteration(A, state: LanBProState, options: LanBDOptions):
             None
         )
         # carry out reorthogonalization
-        p2, p2_norm, iters = reorth_mgs(U, p, p_norm, indices, gamma)
+        p2, p2_norm, iters = reorth_mgs(U, p, p_norm, reorth_indices, gamma)
         # reset mu in the entries which have been reorthogonalized
         mu2 = jnp.where(reorth_indices, M2*eps, mu)
         # if a reorthogonalization was forced. it won't be for next iteration
         b_force_reorth2 = jnp.logical_not(b_force_reorth)
         return p2, p2_norm, reorth_indices, mu2, b_force_reorth2
     # reorthogonalize p if required
-    p, p_norm, indices, nu, b_force_reorth = lax.cond(reorth_cond,
+    p, p_norm, indices, mu, b_force_reorth = lax.cond(reorth_cond,
         reorth_p,
-        lambda _ : (p, p_norm, indices, nu, b_force_reorth),
+        lambda _ : (p, p_norm, indices, mu, b_force_reorth),
         None
     )
     # Check for convergence or failure to maintain semiorthogonality
-- 
2.43.0


From 54c3e69a52aafa4bc00a99799b9ae59f1dd49dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:45 +0000
Subject: [PATCH 72/76] fix: the analysis of SPGL1 solutions printed wrong
 norms for complex vectors

---
 src/cr/sparse/_src/cvx/spgl1.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/cvx/spgl1.py b/src/cr/sparse/_src/cvx/spgl1.py
index 6f5be59..516b328 100644
--- a/src/cr/sparse/_src/cvx/spgl1.py
+++ b/src/cr/sparse/_src/cvx/spgl1.py
@@ -430,8 +430,8 @@ def analyze_lasso_state(A, b, tau, options, state, x0):
     snr  = crn.signal_noise_ratio(x0, x)
     prd = crn.percent_rms_diff(x0, x)
     print(f'SNR: {snr:.2f} dB, PRD: {prd:.1f} %')
-    print(f'x0: l1: {crn.norm_l1(x0):.3f}, l2: {crn.norm_l2(x0):.3f}, linf: {crn.norm_linf(x0):.3f}')
-    print(f'x : l1: {crn.norm_l1(x):.3f}, l2: {crn.norm_l2(x):.3f}, linf: {crn.norm_linf(x):.3f}')
+    print(f'x0: l1: {crn.norm_l1(x0):.3f}, l2: {norm(x0):.3f}, linf: {crn.norm_linf(x0):.3f}')
+    print(f'x : l1: {crn.norm_l1(x):.3f}, l2: {norm(x):.3f}, linf: {crn.norm_linf(x):.3f}')
 
 
     r_norm = state.r_norm
@@ -744,8 +744,8 @@ def analyze_bpic_state(A, b, sigma, options, state, x0):
     snr  = crn.signal_noise_ratio(x0, x)
     prd = crn.percent_rms_diff(x0, x)
     print(f'SNR: {snr:.2f} dB, PRD: {prd:.1f} %')
-    print(f'x0: l1: {crn.norm_l1(x0):.3f}, l2: {crn.norm_l2(x0):.3f}, linf: {crn.norm_linf(x0):.3f}')
-    print(f'x : l1: {crn.norm_l1(x):.3f}, l2: {crn.norm_l2(x):.3f}, linf: {crn.norm_linf(x):.3f}')
+    print(f'x0: l1: {crn.norm_l1(x0):.3f}, l2: {norm(x0):.3f}, linf: {crn.norm_linf(x0):.3f}')
+    print(f'x : l1: {crn.norm_l1(x):.3f}, l2: {norm(x):.3f}, linf: {crn.norm_linf(x):.3f}')
 
 
     r_norm = state.r_norm
-- 
2.43.0


From 176f9158df70b0217dd8c064363aaee5de7eaf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:26 +0000
Subject: [PATCH 73/76] fix: power iterations on an operator which maps the
 iterate to zero

The normalisation of a zero vector made the estimate and the vector NaN.
---
 src/cr/sparse/_src/sls/power.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cr/sparse/_src/sls/power.py b/src/cr/sparse/_src/sls/power.py
index 036a362..21d22f0 100644
--- a/src/cr/sparse/_src/sls/power.py
+++ b/src/cr/sparse/_src/sls/power.py
@@ -92,6 +92,8 @@ def power_iterations(
         # estimate the eigen value
         # the eigen values of a Hermitian operator are real
         new_estimate = jnp.real(jnp.vdot(v, v_new))
+        # a vector mapped to zero is an eigen vector already
+        v_new = jnp.where(jnp.any(v_new != 0), v_new, v)
         return PowerIterState(v=v_new, old_estimate=state.new_estimate, 
             new_estimate=new_estimate, iterations=state.iterations+1)
 
-- 
2.43.0


From 7bad00dc5f14348c94b2e34bb2272a91f9cc5341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:12 +0000
Subject: [PATCH 74/76] fix: Lanczos bidiagonalization of rank deficient
 operators

When the range of the operator was exhausted, restart vectors were drawn from
that range, orthogonalised to zero and divided by their norm: truncated SVDs of
rank deficient matrices were NaN, and those of the zero matrix had zero vectors.
---
 src/cr/sparse/_src/sls/svdpack/lanbpro.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lanbpro.py b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
index e1b4a98..9f01509 100644
--- a/src/cr/sparse/_src/sls/svdpack/lanbpro.py
+++ b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
@@ -75,6 +75,8 @@ def lanbpro_init(A, k, p0, options: LanBDOptions):
     r_norm = norm(r)
     alpha = alpha.at[0].set(r_norm)
     anorm = FUDGE * r_norm
+    # a start in the null space of A^T leaves the choice of v open
+    r = lax.cond(r_norm == 0, lambda _: new_r_vec(A, V, 0, gamma)[0], lambda _: r, None)
     # step 2.1b v update
     v = cnb.vec_safe_divide_by_scalar(r, r_norm)
     V = V.at[:, 0].set(v)
@@ -84,7 +86,7 @@ def lanbpro_init(A, k, p0, options: LanBDOptions):
     p_norm = norm(p)
     p, p_norm, p_proj = do_elr(u, p, p_norm, options.gamma)
     # Check for convergence or failure to maintain semiorthogonality
-    semiorth_cond = p_norm < max(m, n) * anorm * eps
+    semiorth_cond = p_norm <= max(m, n) * anorm * eps
     p, p_norm, b_force_reorth, indices = lax.cond(semiorth_cond, 
         # compute a new random p vector orthogonal to previous U
         lambda _ : (new_p_vec(A, U, 1, gamma)[0], 0., True, indices.at[0].set(True)),
@@ -237,7 +239,7 @@ def lanbpro_iteration(A, state: LanBProState, options: LanBDOptions):
     )
     # Check for convergence or failure to maintain semiorthogonality
     # this is the case where r is in the column space of previous V vectors
-    semiorth_cond = r_norm < max(m, n) * anorm * eps
+    semiorth_cond = r_norm <= max(m, n) * anorm * eps
     r, r_norm, b_force_reorth, indices = lax.cond(semiorth_cond, 
         # compute a new random r vector orthogonal to previous V
         lambda _ : (new_r_vec(A, V, j, gamma)[0], 0., True, j_mask),
@@ -315,7 +317,7 @@ def lanbpro_iteration(A, state: LanBProState, options: LanBDOptions):
         None
     )
     # Check for convergence or failure to maintain semiorthogonality
-    semiorth_cond = p_norm < max(m, n) * anorm * eps
+    semiorth_cond = p_norm <= max(m, n) * anorm * eps
     p, p_norm, b_force_reorth, indices = lax.cond(semiorth_cond, 
         # compute a new random p vector orthogonal to previous U
         lambda _ : (new_p_vec(A, U, j+1, gamma)[0], 0., True, jp1_mask),
@@ -372,6 +374,8 @@ def new_p_vec(A, U, j,  gamma):
     def p_vec(i):
         p = random.uniform(KEYS[i], (n,))
         p = A.times(p)
+        # if the range of A is exhausted, any vector orthogonal to U will do
+        p = jnp.where(i > 0, random.uniform(KEYS[i], (m,)) - 0.5, p)
         p_norm = norm(p)
         p, p_norm, iters = reorth_mgs(U, p, p_norm, j_mask, gamma)
         return p, p_norm
@@ -392,7 +396,7 @@ def new_p_vec(A, U, j,  gamma):
 
     state = lax.while_loop(cond, body, init())
     p, p_norm, i = state
-    return p / p_norm, i
+    return cnb.vec_safe_divide_by_scalar(p, p_norm), i
 
 new_p_vec_jit = jit(new_p_vec, static_argnums=(0,))
 
@@ -407,6 +411,8 @@ def new_r_vec(A, V, j,  gamma):
     def r_vec(i):
         r = random.uniform(KEYS[i], (m,))
         r = A.trans(r)
+        # if the range of A^T is exhausted, any vector orthogonal to V will do
+        r = jnp.where(i > 0, random.uniform(KEYS[i], (n,)) - 0.5, r)
         r_norm = norm(r)
         r, r_norm, iters = reorth_mgs(V, r, r_norm, j_mask, gamma)
         return r, r_norm
@@ -427,6 +433,6 @@ def new_r_vec(A, V, j,  gamma):
 
     state = lax.while_loop(cond, body, init())
     r, r_norm, i = state
-    return r / r_norm, i
+    return cnb.vec_safe_divide_by_scalar(r, r_norm), i
 
 new_r_vec_jit = jit(new_r_vec, static_argnums=(0,))
\ No newline at end of file
-- 
2.43.0


From e9d4f0c4ce75f9b6c28f31d210d111f7cf161491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:19 +0000
Subject: [PATCH 75/76] fix: Lanczos reorthogonalization left out the latest
 vector

When a step nearly breaks down (repeated or clustered singular values), the
partial reorthogonalization skipped the latest left or right vector, and the
orthogonality of the basis was lost within a few steps.
---
 src/cr/sparse/_src/sls/svdpack/lanbpro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cr/sparse/_src/sls/svdpack/lanbpro.py b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
index 9f01509..3d08577 100644
--- a/src/cr/sparse/_src/sls/svdpack/lanbpro.py
+++ b/src/cr/sparse/_src/sls/svdpack/lanbpro.py
@@ -219,7 +219,7 @@ def lanbpro_iteration(A, state: LanBProState, options: LanBDOptions):
             # partial reorthogonalization case
             lambda _ : lax.cond(b_force_reorth,
                 lambda _ : indices,
-                lambda _ : compute_ind(nu, delta, eta),
+                lambda _ : compute_ind(nu, delta, eta).at[j-1].set(True),
                 None
             ),
             None
@@ -298,7 +298,7 @@ def lanbpro_iteration(A, state: LanBProState, options: LanBDOptions):
             lambda _ : lax.cond(b_force_reorth,
                 # for forced reorth, we need to add one more vec
                 lambda _ : indices.at[k - jnp.argmax(indices[::-1])].set(True),
-                lambda _ : compute_ind(mu, delta, eta),
+                lambda _ : compute_ind(mu, delta, eta).at[j].set(True),
                 None
             ),
             None
-- 
2.43.0


From 814af792bf51d057f653fe824b7ce9c8711b4bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:13 +0000
Subject: [PATCH 76/76] fix: fast spectral clustering missed copies of the
 leading singular value

The Lanczos routine of cr-nimble loses orthogonality and can miss one of the
equal leading singular values of a graph with several components. The routine
of this library does not.
---
 src/cr/sparse/_src/cluster/spectral.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/cr/sparse/_src/cluster/spectral.py b/src/cr/sparse/_src/cluster/spectral.py
index d9ae944..5b4519a 100644
--- a/src/cr/sparse/_src/cluster/spectral.py
+++ b/src/cr/sparse/_src/cluster/spectral.py
@@ -26,6 +26,8 @@ from .kmeans import kmeans
 
 import cr.nimble as cnb
 import cr.nimble.svd as lasvd
+import cr.sparse.lop as crlop
+from cr.sparse.sls.svd import lansvd_simple
 from cr.nimble import promote_arg_dtypes
 
 class SpectralclusteringSolution(NamedTuple):
@@ -208,6 +210,17 @@ def normalized_symmetric_w(W):
     return W
 
 
+def leading_singular_vectors(key, W, k):
+    """Returns the k largest singular values and right singular vectors of W
+    """
+    p0 = lasvd.lanbpro_random_start(key, W)
+    T = crlop.sparse_real_matrix(W) if isinstance(W, BCOO) else crlop.matrix(W)
+    U, S, V, bnd, n_converged, state = lansvd_simple(T, k, p0)
+    return S, V
+
+leading_singular_vectors = jit(leading_singular_vectors, static_argnums=(2,))
+
+
 def normalized_symmetric_fast_k(key, W, k):
     """Normalized symmetric spectral clustering fast implementation
     """
@@ -219,8 +232,7 @@ def normalized_symmetric_fast_k(key, W, k):
     W = normalized_symmetric_w(W)
     # convert it into a sparse matrix
     # W = BCOO.fromdense(W)
-    p0 = lasvd.lanbpro_random_start(key, W)
-    U, S, V, bnd, n_converged, state = lasvd.lansvd_simple_jit(W, 5*k, p0)
+    S, V = leading_singular_vectors(key, W, 5*k)
     # Choose the last k eigen vectors
     kernel = V[:, :k]
     # normalize the rows of kernel
@@ -263,8 +275,7 @@ def normalized_symmetric_sparse_fast_k(key, W, k):
     W = normalized_symmetric_sparse_w(W)
     # convert it into a sparse matrix
     # W = BCOO.fromdense(W)
-    p0 = lasvd.lanbpro_random_start(key, W)
-    U, S, V, bnd, n_converged, state = lasvd.lansvd_simple_jit(W, 5*k, p0)
+    S, V = leading_singular_vectors(key, W, 5*k)
     # Choose the last k eigen vectors
     kernel = V[:, :k]
     # normalize the rows of kernel
-- 
2.43.0

