From 6d33f8d8092caac77c74ad543fc171406e3bf122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 001/140] fix: return a 1-d vector from the generic
 FSRRotation3dMatrix product

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index f3f8561..b8b79f8 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -765,7 +765,7 @@ class FSRRotation3dMatrix(_FSRotation3dMatrix):
             out_[i, 0] += np.sum(b.r11 * v[b.index, 0])
             out_[i, 1] += np.sum(b.r22 * v[b.index, 1] - b.r32 * v[b.index, 2])
             out_[i, 2] += np.sum(b.r32 * v[b.index, 1] + b.r22 * v[b.index, 2])
-        return out_
+        return out
 
     def _transpose(self):
         return FSCRotation3dMatrix(self.shape[::-1], data=self.data)
-- 
2.43.0


From 05dd74061276e587d692dce62eab71ebcd84ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 002/140] fix: do not discard the imaginary part of vectors in
 sparse products

---
 src/pysimulators/sparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index b8b79f8..dce202b 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -133,7 +133,11 @@ class _FSMatrix:
         di = self.data.index.dtype
         ds = self.dtype
         dv = v.dtype
-        if str(ds) not in ('float32', 'float64') or str(di) not in ('int32', 'int64'):
+        if (
+            str(ds) not in ('float32', 'float64')
+            or str(di) not in ('int32', 'int64')
+            or dv.kind == 'c'
+        ):
             return v, out, False
 
         if (
-- 
2.43.0


From 0bb3d12df907f4a113fe4b0d09b18e27cbd49542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 003/140] fix: allocate one entry list per block column in
 FSCBlockMatrix

---
 src/pysimulators/sparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index dce202b..9176862 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -59,7 +59,10 @@ class _FSMatrix:
                     f'The maximum number of non-zero {straxes[0]}s per {straxes[1]} '
                     f'is not specified.'
                 )
-            shape_data = (shape[1 - sparse_axis] // block_shape[0], nmax)
+            shape_data = (
+                shape[1 - sparse_axis] // block_shape[1 - sparse_axis],
+                nmax,
+            )
             if dtype is None:
                 dtype = float
             if dtype_index is None:
-- 
2.43.0


From e68275854643b7e71d8e17a192aec2467e68c80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 004/140] fix: refuse unsupported block shapes in
 FSRBlockMatrix

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 9176862..b6ab9ba 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -470,7 +470,7 @@ class FSRBlockMatrix(_FSBlockMatrix):
     ):
         if data is not None:
             block_shape = data.dtype['value'].shape
-        _FSMatrix.__init__(
+        _FSBlockMatrix.__init__(
             self,
             'fsr_block',
             shape,
-- 
2.43.0


From ccd07baed46bc1469236fd69fe2524140d5d0c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 005/140] fix: corestrict the block rows of rotation matrices

---
 src/pysimulators/sparse.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index b6ab9ba..93d07a2 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -910,11 +910,10 @@ class SparseOperator(SparseBase):
                 f'sparse storage.'
             )
         nrow = np.sum(mask)
-        mask_ = np.repeat(mask, self.matrix.block_shape[0])
         out = self.copy()
         out.matrix = type(self.matrix)(
             (nrow * self.matrix.block_shape[0], self.matrix.shape[1]),
-            data=self.matrix.data[mask_],
+            data=self.matrix.data[mask],
         )
         if isinstance(self.matrix, FSRMatrix):
             out.broadcastable_shapeout = (nrow,)
-- 
2.43.0


From 0e645e8c47099525b14a9c102af5f2c1bec08bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:50 +0000
Subject: [PATCH 006/140] fix: do not reduce P.T * P to a diagonal over the
 first components only

---
 src/pysimulators/sparse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 93d07a2..6c7eca5 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -1010,6 +1010,7 @@ class SparseOperator(SparseBase):
             )
             or self.matrix.ncolmax != 1
             or self.shapein is None
+            or product(self.shapein) != self.matrix.shape[1]
         ):
             return
         di = self.matrix.data.index.dtype
-- 
2.43.0


From 8bed08072fe034c7b0b8a1e42ae8a38593f3ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 007/140] fix: make the value pointer private in the parallel
 kernel loop

---
 src/flib/sparse.f90.j2 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index fe07265..cc37e16 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -528,7 +528,7 @@ contains
         integer(int32), pointer :: val(:)
         integer(int64) :: i, j, pos
 
-        !$omp parallel do private(k, pos)
+        !$omp parallel do private(k, pos, val)
         do i = 1, m
             do j = 1, ncolmax
                 pos = ((i - 1) * ncolmax + j - 1) * stride
-- 
2.43.0


From aa5e81fd7992c4d67a1d138f5935abd384ffe7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:05 +0000
Subject: [PATCH 008/140] fix: treat negative zeros as zeros in the projection
 kernel

---
 src/flib/sparse.f90.j2        | 22 +++++++++++++++-------
 src/pysimulators/operators.py |  1 +
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/flib/sparse.f90.j2 b/src/flib/sparse.f90.j2
index cc37e16..3c88acd 100644
--- a/src/flib/sparse.f90.j2
+++ b/src/flib/sparse.f90.j2
@@ -517,26 +517,34 @@ contains
 {% for combo in combinations %}
 {% if combo.ikind in ['int8', 'int16', 'int32', 'int64'] and loop.index0 >= 12 %}
 
-    subroutine fsr_kernel_i{{ combo.isize }}(matrix, kernel, ncolmax, m, n, stride)
+    subroutine fsr_kernel_i{{ combo.isize }}(matrix, kernel, ncolmax, m, n, stride, rsize)
         integer(int64), intent(in)        :: ncolmax
         integer(int64), intent(in)        :: m
         integer(int64), intent(in)        :: n
         integer(int64), intent(in)        :: stride
+        integer(int64), intent(in)        :: rsize
         integer(int8), intent(in), target :: matrix(0:ncolmax*m*stride-1)
         logical(1), intent(inout)         :: kernel(0:n-1)
         integer({{ combo.ikind }}), pointer :: k
-        integer(int32), pointer :: val(:)
-        integer(int64) :: i, j, pos
+        real(real32), pointer :: val4(:)
+        real(real64), pointer :: val8(:)
+        integer(int64) :: i, j, pos, nval
+
+        nval = (stride - {{ combo.isize }}) / rsize
 
-        !$omp parallel do private(k, pos, val)
+        !$omp parallel do private(k, pos, val4, val8)
         do i = 1, m
             do j = 1, ncolmax
                 pos = ((i - 1) * ncolmax + j - 1) * stride
                 call c_f_pointer(c_loc(matrix(pos)), k)
                 if (k < 0) cycle
-                call c_f_pointer(c_loc(matrix(pos + {{ combo.isize }})), val,            &
-                                 [(stride - {{ combo.isize }}) / 4])
-                if (any(val /= 0)) kernel(k) = .false.
+                if (rsize == 4) then
+                    call c_f_pointer(c_loc(matrix(pos + {{ combo.isize }})), val4, [nval])
+                    if (any(val4 /= 0)) kernel(k) = .false.
+                else
+                    call c_f_pointer(c_loc(matrix(pos + {{ combo.isize }})), val8, [nval])
+                    if (any(val8 /= 0)) kernel(k) = .false.
+                end if
             end do
         end do
         !$omp end parallel do
diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 78564f9..643fad0 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1046,6 +1046,7 @@ class ProjectionOperator(SparseOperator):
                 self.matrix.ncolmax,
                 product(data.shape[:-1]),
                 data.strides[-1],
+                self.matrix.dtype.itemsize,
             )
             if operation in (operation_assignment, operator.iand, operator.imul):
                 return out
-- 
2.43.0


From b4b3fbcf5418d6269a6dfa437911b6828fd6be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 009/140] fix: restrict block matrices made of single-column
 blocks

---
 src/pysimulators/sparse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 6c7eca5..df8a5ee 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -946,6 +946,8 @@ class SparseOperator(SparseBase):
             raise TypeError('The mask is not boolean.')
         if isinstance(self.matrix, FSRMatrix):
             block_shapein = self.broadcastable_shapein
+        elif self.matrix.block_shape[1] == 1:
+            block_shapein = self.shapein
         else:
             block_shapein = self.shapein[:-1]
         if mask.shape != block_shapein:
@@ -985,8 +987,10 @@ class SparseOperator(SparseBase):
             if self.shapein is not None:
                 ndims_in = len(self.broadcastable_shapein)
                 out.shapein = (ncol,) + self.shapein[ndims_in:]
+        elif matrix.block_shape[1] == 1:
+            out.shapein = (ncol,)
         else:
-            out.shapein = (ncol, out.matrix.block_shape[1])
+            out.shapein = (ncol, matrix.block_shape[1])
         if inplace:
             self.delete()
         return out
-- 
2.43.0


From 13407f4c64e2ac12d53c38492ea57bc6350bd24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 010/140] fix: compute the projection kernel of block matrices
 and broadcast inputs

---
 src/pysimulators/operators.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 643fad0..177c98e 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1027,39 +1027,36 @@ class ProjectionOperator(SparseOperator):
 
         itype = data.dtype['index']
         ftype = data.dtype[1]
+        n = self.matrix.shape[1] // self.matrix.block_shape[1]
         if itype.type in (np.int8, np.int16, np.int32, np.int64) and ftype.type in (
             np.float32,
             np.float64,
         ):
-            if operation in (operation_assignment, operator.iand, operator.imul):
-                if operation is operation_assignment:
-                    out[...] = True
-                kernel = out
-            else:
-                kernel = np.ones_like(out)
-
+            kernel = np.ones(n, bool)
             f = f'fsr_kernel_i{int(itype.itemsize)}'
             func = getattr(flib.sparse, f)
             func(
                 data.view(np.int8).ravel(),
-                kernel.view(np.int8).ravel(),
+                kernel.view(np.int8),
                 self.matrix.ncolmax,
                 product(data.shape[:-1]),
                 data.strides[-1],
                 self.matrix.dtype.itemsize,
             )
-            if operation in (operation_assignment, operator.iand, operator.imul):
-                return out
         else:
             if isinstance(self.matrix, FSRMatrix):
                 indices = data.index[data.value != 0]
+            elif isinstance(self.matrix, FSRBlockMatrix):
+                indices = data.index[np.any(data.value != 0, axis=(-2, -1))]
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 indices = data.index[(data.r11 != 0) | (data.r21 != 0)]
             else:
                 indices = data.index[data.r11 != 0]
-            n = product(shape)
             kernel = np.histogram(indices, n, range=(0, n))[0] == 0
-        operation(out, kernel)
+        if product(shape) != n:
+            # the matrix is broadcast along the last dimensions
+            kernel = np.repeat(kernel, product(shape) // n)
+        operation(out, kernel.reshape(shape))
         return out
 
     def pT1(self, out=None, operation=operation_assignment):
-- 
2.43.0


From e841932e4d8a4c22069b30b96aa794484a09f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 011/140] fix: allow input types other than the projection's in
 pTx_pT1

---
 src/pysimulators/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 177c98e..0fea520 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1102,7 +1102,7 @@ class ProjectionOperator(SparseOperator):
             else:
                 shapein = self.shapeout
             if isinstance(self.matrix, FSRMatrix):
-                x = ones(shapein, self.dtype)
+                x = ones(shapein, out.dtype)
                 self.T(x, out=out, operation=operation)
             elif isinstance(self.matrix, FSRRotation2dMatrix):
                 if operation is operation_assignment:
@@ -1115,7 +1115,7 @@ class ProjectionOperator(SparseOperator):
                     if i >= 0:
                         out[i] += d
             else:
-                x = ones(shapein, self.dtype)
+                x = ones(shapein, out.dtype)
                 operation(out, self.T(x)[..., 0])
         return out
 
@@ -1147,7 +1147,8 @@ class ProjectionOperator(SparseOperator):
             raise ValueError(
                 f"Invalid input shape '{x.shape}'. Expected shape is '{shapein}'."
             )
-        dtypeout = max(self.dtype, x.dtype)
+        dtypeout = np.result_type(self.dtype, x.dtype)
+        x = np.asarray(x, dtypeout)
         if out is None:
             pTx = empty(shapeout, dtypeout)
             pT1 = empty(shapeout, dtypeout)
-- 
2.43.0


From b6be024cddd295d2aa156015741b428c89cec267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 012/140] fix: handle the item size and the memory layout in
 the truncated exponential operator

---
 src/pysimulators/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 0fea520..f25641d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -417,10 +417,11 @@ def _ravel_strided(x):
         return x, 1, x.size, x.size
     if x.ndim != 2:
         raise NotImplementedError()
-    if x.strides[1] != 8:
+    if x.shape[1] > 1 and x.strides[1] != x.itemsize:
         raise ValueError('The array is not C-contiguous.')
-    shape_all = x.shape[0], x.strides[0] // 8
-    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (8,))
+    stride = x.strides[0] // x.itemsize if x.shape[0] > 1 else x.shape[1]
+    shape_all = x.shape[0], stride
+    x_ = np.lib.stride_tricks.as_strided(x, (product(shape_all),), (x.itemsize,))
     return x_, x.shape[0], x.shape[1], shape_all[1]
 
 
-- 
2.43.0


From 58cec5f0eba6dcfeee35d11c4795770d5af53db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 013/140] fix: scale the last sample in the in-place transpose
 of the truncated exponential

---
 src/flib/module_operators.f90.j2 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index 6ca75f7..e6cc7f9 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -499,6 +499,7 @@ contains
         end if
         w = exp(-1 / tau)
         v = 1 - w
+        input(n) = v * input(n)
         do i = n - 1, 1, -1
             input(i) = w * input(i+1) + v * input(i)
         end do
-- 
2.43.0


From 323935c0b6e5bd99419361eb5816cb0300fbf0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 014/140] fix: give the number of samples to the pointing
 matrix routines

---
 src/pysimulators/operators.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f25641d..469dbcd 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -639,13 +639,17 @@ class ProjectionBaseOperator(Operator):
         if matrix.size == 0:
             return
         if not output.flags.contiguous:
-            if pyoperators.memory.verbose:
+            if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
             output_ = np.empty_like(output)
         else:
             output_ = output
         flib.pointingmatrix.direct(
-            matrix.ravel().view(np.int64), input.T, output_.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input.T,
+            output_.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
         if not output.flags.contiguous:
             output[...] = output_
@@ -665,7 +669,11 @@ class ProjectionBaseOperator(Operator):
         else:
             input_ = input
         flib.pointingmatrix.transpose(
-            matrix.ravel().view(np.int64), input_.T, output.T, matrix.shape[-1]
+            matrix.ravel().view(np.int64),
+            input_.T,
+            output.T,
+            matrix.shape[-1],
+            matrix.size // matrix.shape[-1],
         )
 
     def set_attrin(self, attr):
@@ -745,6 +753,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         else:
             flib.pointingmatrix.backprojection_weight(
@@ -753,6 +762,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
+                matrix.size // matrix.shape[-1],
             )
         return out
 
-- 
2.43.0


From 4eb6e63ebea9d8f0d908de594e145425ef773b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 015/140] fix: do not write out of bounds for unset samples in
 the P.T * P of pointing matrices

---
 src/flib/pointingmatrix_old.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/flib/pointingmatrix_old.f90 b/src/flib/pointingmatrix_old.f90
index fc984ed..0215bde 100644
--- a/src/flib/pointingmatrix_old.f90
+++ b/src/flib/pointingmatrix_old.f90
@@ -260,6 +260,7 @@ contains
         integer*8 :: isample
 
         do isample = 1, nsamples
+            if (matrix(isample)%index < 0) cycle
             array(matrix(isample)%index) = array(matrix(isample)%index) +    &
                                            matrix(isample)%value**2
         end do
-- 
2.43.0


From 3e6c2e4abc508d03368b417806c40e1ee75e41ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 016/140] fix: project samples that see no pixel on zero

---
 src/flib/module_pointingmatrix.f90 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/flib/module_pointingmatrix.f90 b/src/flib/module_pointingmatrix.f90
index 0fc7a6a..872d3e7 100644
--- a/src/flib/module_pointingmatrix.f90
+++ b/src/flib/module_pointingmatrix.f90
@@ -337,6 +337,8 @@ contains
         do isample = 1, nsamples
             if (pmatrix(isample)%index >= 0) then
                 timeline(isample) = map(pmatrix(isample)%index) * pmatrix(isample)%value
+            else
+                timeline(isample) = 0
             end if
         end do
         !$omp end parallel do
-- 
2.43.0


From ff521dff00b613c74bd67e121da3b546dd52d4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 017/140] fix: apply the diagonal to the samples of the
 pointing matrix

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 469dbcd..2a45c87 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -873,7 +873,7 @@ class ProjectionInMemoryOperator(ProjectionBaseOperator):
             return
         matrix = self.matrix.copy()
         result = ProjectionInMemoryOperator(matrix)
-        matrix.value *= d.get_data()
+        matrix.value[..., 0] *= d.get_data()
         return result
 
 
-- 
2.43.0


From 2d6a381c7054973ccf29e9cac03513a33b411f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 018/140] fix: return the values of P.T * P in get_pTp

---
 src/pysimulators/operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 2a45c87..231ea8b 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -711,9 +711,9 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         npixels = product(matrix.shape_input)
         if out is None:
-            out = empty((npixels, npixels), bool, description='for pTp array')
+            out = empty((npixels, npixels), float, description='for pTp array')
             out[...] = 0
-        elif out.dtype != np.bool_:
+        elif out.dtype != float:
             raise TypeError('The output ptp argument has an invalid type.')
         elif out.shape != (npixels, npixels):
             raise ValueError('The output ptp argument has an incompatible shap' 'e.')
-- 
2.43.0


From 42b57b1e330ac13a2b191531708237476d04f638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 019/140] fix: use the mask argument of get_pTx_pT1

---
 src/pysimulators/operators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 231ea8b..5f85408 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -744,12 +744,13 @@ class ProjectionBaseOperator(Operator):
                 out[0].unit = x.unit
         if matrix.size == 0:
             return out
-        mask = mask or getattr(x, 'mask', None)
+        if mask is None:
+            mask = getattr(x, 'mask', None)
         if mask is not None:
             flib.pointingmatrix.backprojection_weight_mask(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                x.mask.ravel().view(np.int8),
+                np.asarray(mask, bool).ravel().view(np.int8),
                 out[0].ravel(),
                 out[1].ravel(),
                 matrix.shape[-1],
-- 
2.43.0


From b7b730b42ddd0b42152e412ad5a674913dc5138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 020/140] fix: use numpy.cumprod in the projection
 intersections

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 5f85408..388893d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -775,7 +775,7 @@ class ProjectionBaseOperator(Operator):
         matrix = self.matrix
         axes = (1,) + matrix.shape_input[:0:-1]
         index = np.array(fitscoords) - 1
-        index = int(np.sum(index * np.cumproduct(axes)))
+        index = int(np.sum(index * np.cumprod(axes)))
 
         shape = matrix.shape
         matrix_ = matrix.ravel().view(np.int64)
-- 
2.43.0


From 9cc23ea413d2922ba3084781a59adbe6f4d87ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 021/140] fix: project on and back project to non-contiguous
 outputs

---
 src/pysimulators/operators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 388893d..f55839f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -641,7 +641,7 @@ class ProjectionBaseOperator(Operator):
         if not output.flags.contiguous:
             if pyoperators.config.VERBOSE:
                 print('Optimize me: Projection output is not contiguous.')
-            output_ = np.empty_like(output)
+            output_ = np.empty(output.shape, output.dtype)
         else:
             output_ = output
         flib.pointingmatrix.direct(
@@ -668,13 +668,16 @@ class ProjectionBaseOperator(Operator):
             input_ = np.ascontiguousarray(input)
         else:
             input_ = input
+        output_ = np.ascontiguousarray(output)
         flib.pointingmatrix.transpose(
             matrix.ravel().view(np.int64),
             input_.T,
-            output.T,
+            output_.T,
             matrix.shape[-1],
             matrix.size // matrix.shape[-1],
         )
+        if output_ is not output:
+            output[...] = output_
 
     def set_attrin(self, attr):
         if '_header' in attr:
-- 
2.43.0


From f8dc59b017fed496c38d60b4e6ebc9bb9f6ba99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:04 +0000
Subject: [PATCH 022/140] fix: recompute the on-the-fly pointing matrix after a
 failure

---
 src/pysimulators/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f55839f..6a25078 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -930,6 +930,8 @@ class ProjectionOnFlyOperator(ProjectionBaseOperator):
         if self.place_holder['id'] is self.id:
             return self.place_holder['matrix']
         self.place_holder['matrix'] = None
+        # otherwise, the placeholder would be considered as filled if func fails
+        self.place_holder['id'] = None
         matrix = self.func(self.id)
         self.place_holder['id'], self.place_holder['matrix'] = self.id, matrix
         return matrix
-- 
2.43.0


From 292cf0ff131b63f345ff1702b048c74365b68a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 023/140] fix: normalize empty and out of bounds slices of
 packed tables

---
 src/pysimulators/packedtables/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c292c0b..d6f6e5c 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -740,14 +740,14 @@ class PackedTable:
                 start = 0
         elif start >= n:
             if step > 0:
-                return slice(n - 1, n - 1, step)
+                return slice(0, 0, step)
             start = n - 1
 
         stop = s.stop
         if stop is None:
             stop = n if step > 0 else -1
         elif stop < 0:
-            stop = n + stop
+            stop = max(n + stop, -1)
         elif stop > n:
             stop = n
 
@@ -758,6 +758,8 @@ class PackedTable:
         size = int(np.ceil(extent / abs(step)))
         if size == n and step == 1:
             return Ellipsis
+        if size == 0:
+            return slice(0, 0, step)
 
         return slice(start, start + size * step, step)
 
-- 
2.43.0


From f77a258c83866cb4303ff7bb84e41f69dcf40953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 024/140] fix: do not turn the selection of repeated components
 into a slice

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index d6f6e5c..2c01c21 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -715,7 +715,7 @@ class PackedTable:
             return s
         start = s[0]
         step = s[1] - s[0]
-        if np.all(s == start + np.arange(size) * step):
+        if step != 0 and np.all(s == start + np.arange(size) * step):
             if size == n and step == 1:
                 return Ellipsis
             else:
-- 
2.43.0


From 4b0e80fc80d73230c877263232f03298cc5ba741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:59 +0000
Subject: [PATCH 025/140] fix: set the communicator of the copy of a packed
 table

---
 src/pysimulators/packedtables/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 2c01c21..5182e96 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -370,8 +370,11 @@ class PackedTable:
         Return a deep copy of the packed array.
 
         """
-        out = copy.deepcopy(self)
-        out.comm = self.comm.Dup()
+        out = copy.copy(self)
+        for k, v in self.__dict__.items():
+            if k != 'comm':
+                object.__setattr__(out, k, copy.deepcopy(v))
+        object.__setattr__(out, 'comm', self.comm.Dup())
         return out
 
     def pack(self, x, out=None, copy=False):
-- 
2.43.0


From 02983fee5ec51bc4c5b761903d94220e48bd3688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:16 +0000
Subject: [PATCH 026/140] fix: select the components of packed tables in
 reverse order

---
 src/pysimulators/packedtables/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 5182e96..2930ebd 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -181,8 +181,11 @@ class PackedTable:
 
     @property
     def _indexable(self):
+        return self._get_indexable(self._index)
+
+    @staticmethod
+    def _get_indexable(index):
         # slice index with negative stop values cannot be used for indexing
-        index = self._index
         if isinstance(index, slice) and index.stop < 0:
             return slice(index.start, None, index.step)
         return index
@@ -326,7 +329,7 @@ class PackedTable:
             index = slice(start, stop, step)
         else:
             index = self.index
-            index = index[selection]
+            index = index[self._get_indexable(selection)]
 
         if isinstance(index, np.ndarray):
             index = self._normalize_int_selection(index, self._size_actual)
@@ -341,7 +344,7 @@ class PackedTable:
             except KeyError:
                 continue
             if isinstance(v, np.ndarray) and v.ndim > 0:
-                setattr(out, k, v[selection])
+                setattr(out, k, v[self._get_indexable(selection)])
         return out
 
     def __str__(self):
-- 
2.43.0


From 783e0d3c4dbc250bd62a9fb10f5b448573e0a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:16 +0000
Subject: [PATCH 027/140] fix: select the same components whether an ordering
 is specified or not

---
 src/pysimulators/packedtables/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 2930ebd..cb9a3d5 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -771,7 +771,11 @@ class PackedTable:
 
     def _selection2bool(self, selection):
         out = np.zeros(self._shape_actual, bool)
-        out[selection] = True
+        if isinstance(selection, tuple):
+            out[selection] = True
+        else:
+            # slices and integers select the components in row major order
+            out.ravel()[self._get_indexable(selection)] = True
         return out
 
 
-- 
2.43.0


From b841e13d0f7720677a3a3af3ac215af1dea8cb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:16 +0000
Subject: [PATCH 028/140] fix: select the components of packed tables by
 several slices

---
 src/pysimulators/packedtables/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index cb9a3d5..06ccafc 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -691,14 +691,24 @@ class PackedTable:
             if selection_.dtype == object:
                 if len(selection) > len(shape):
                     raise ValueError('Invalid selection dimensions.')
-                selection = tuple(
+                selection = tuple(selection)
+                if any(_ is Ellipsis for _ in selection[:-1]):
+                    return selection
+                normalized = tuple(
                     self._normalize_slice(_, s) if isinstance(_, slice) else _
                     for _, s in zip(selection, shape)
                 )
                 try:
-                    return selection[: ilast_is_not(selection, Ellipsis) + 1]
+                    n = ilast_is_not(normalized, Ellipsis) + 1
                 except ValueError:
                     return Ellipsis
+                s = normalized[0]
+                if n == 1 and isinstance(s, slice):
+                    if len(shape) == 1:
+                        return s
+                    if s.step == 1:
+                        return (s,)
+                return selection[:n]
             else:
                 selection = selection_
         elif not isinstance(selection, np.ndarray):
-- 
2.43.0


From 99fd12385a3285e3f19333010f80eab00f28d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 029/140] fix: handle negative indices in the selection of
 packed tables

---
 src/pysimulators/packedtables/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 06ccafc..a722bf8 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -683,7 +683,7 @@ class PackedTable:
         ):
             return Ellipsis
         if isscalarlike(selection):
-            return np.asarray([selection], self._dtype_index)
+            selection = np.asarray([selection], self._dtype_index)
         if isinstance(selection, slice):
             return self._normalize_slice(selection, product(shape))
         if isinstance(selection, (list, tuple)):
@@ -719,6 +719,11 @@ class PackedTable:
         if selection.dtype == int:
             if selection.ndim != 1:
                 raise ValueError('Index selection is not 1-dimensional.')
+            n = product(shape)
+            if np.any((selection < -n) | (selection >= n)):
+                raise IndexError('The selection is out of bounds.')
+            if np.any(selection < 0):
+                selection = np.where(selection < 0, selection + n, selection)
         elif selection.shape != shape:
             raise ValueError('Invalid boolean selection dimensions.')
 
-- 
2.43.0


From bc73da2c006d5fef7f1e230239a1ecc607a8ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 030/140] fix: fill the missing components when others are
 repeated

---
 src/pysimulators/packedtables/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index a722bf8..98f9482 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -635,7 +635,9 @@ class PackedTable:
             out = np.empty(unpacked_shape, dtype=x.dtype).view(type(x))
             if out.__array_finalize__ is not None:
                 out.__array_finalize__(x)
-        if self._size_actual > len(self):
+        if self._size_actual > len(self) or (
+            isinstance(index, np.ndarray) and np.unique(index).size < self._size_actual
+        ):
             if missing_value is None:
                 missing_value = self._get_default_missing_value(x.dtype)
             out[...] = missing_value
-- 
2.43.0


From 3854f4f56c08c4f22b3d10d211092707a23ce2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 031/140] fix: rotate extended precision polygons in extended
 precision

---
 src/pysimulators/geometry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index ceaafd2..9b974a9 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -215,6 +215,7 @@ def create_regular_polygon(n, radius, out=None, center=(0, 0), angle=0, dtype=fl
         b = _np.broadcast(radius[..., None], center)
         out = _np.empty(b.shape[:-1] + (n, 2), dtype)
     pi = 4 * _np.arctan(_np.asarray(1, dtype))
+    angle = _np.asarray(angle, _np.result_type(dtype, float))
     a = 2 * pi / n * _np.arange(n, dtype=dtype) + _np.radians(angle)
     out[...] = (
         radius[..., None, None] * _np.asarray([_np.cos(a), _np.sin(a)]).T
-- 
2.43.0


From 6e99226a8183f98dfe7e909350805a99a6a3844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 032/140] fix: rotate points of integer coordinates

---
 src/pysimulators/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 9b974a9..4b041d7 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -303,6 +303,8 @@ def rotate(coords, angle, out=None):
     from pyoperators.utils import isalias
 
     coords = _np.asarray(coords)
+    if coords.dtype.kind != 'f':
+        coords = coords.astype(float)
     if out is None:
         out = _np.empty_like(coords)
     if (
-- 
2.43.0


From a03a99bdc8effb665e6086d899f33980aa14d632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 033/140] fix: surface of multi-dimensional arrays of polygons

---
 src/pysimulators/geometry.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 4b041d7..5c856d3 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -355,13 +355,10 @@ def surface_simple_polygon(coords, out=None, dtype=float):
     coords = _np.array(coords, dtype=float, order='c')
     if out is None:
         out = _np.empty(coords.shape[:-2], dtype)
-    if coords.ndim < 3:
-        coords = coords[None, ...]
-    if out.ndim == 0:
-        out_ = out.reshape(1)
-    else:
-        out_ = out
-    _flib.geometry.surface_simple_polygon(coords.T, out_.T)
+    out_ = _np.empty(out.size)
+    coords = coords.reshape((out.size,) + coords.shape[-2:])
+    _flib.geometry.surface_simple_polygon(coords.T, out_)
+    out[...] = out_.reshape(out.shape)
     if out.ndim == 0:
         out = out[()]
     return out
-- 
2.43.0


From 2cacc8f805a6fdd9e74c219718c1d59b8c0c3680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 034/140] fix: accept lists as the shape of grids

---
 src/pysimulators/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 5c856d3..19d7493 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -98,7 +98,7 @@ def create_grid(
 
     """
     if out is None:
-        out = _np.empty(shape + (2,))
+        out = _np.empty(tuple(shape) + (2,))
     _flib.geometry.create_grid(
         spacing, xreflection, yreflection, angle, center[0], center[1], out.T
     )
@@ -142,7 +142,7 @@ def create_grid_squares(
 
     """
     if out is None:
-        out = _np.empty(shape + (4, 2))
+        out = _np.empty(tuple(shape) + (4, 2))
     _flib.geometry.create_grid_squares(
         spacing,
         filling_factor,
-- 
2.43.0


From e695e9a9cc645f19759a1ad3f20f95e976c253ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:06 +0000
Subject: [PATCH 035/140] fix: rotate big endian and empty coordinates

---
 src/pysimulators/geometry.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index 19d7493..e60c6ab 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -308,7 +308,8 @@ def rotate(coords, angle, out=None):
     if out is None:
         out = _np.empty_like(coords)
     if (
-        coords.dtype.char == 'd'
+        coords.dtype == float
+        and coords.size > 0
         and coords.flags.c_contiguous
         and out.flags.c_contiguous
     ):
@@ -357,7 +358,8 @@ def surface_simple_polygon(coords, out=None, dtype=float):
         out = _np.empty(coords.shape[:-2], dtype)
     out_ = _np.empty(out.size)
     coords = coords.reshape((out.size,) + coords.shape[-2:])
-    _flib.geometry.surface_simple_polygon(coords.T, out_)
+    if out.size > 0:
+        _flib.geometry.surface_simple_polygon(coords.T, out_)
     out[...] = out_.reshape(out.shape)
     if out.ndim == 0:
         out = out[()]
-- 
2.43.0


From a3227cec621125e466a3bbee92b0c935a5f16151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:48 +0000
Subject: [PATCH 036/140] fix: rotate points that are not C-contiguous

---
 src/pysimulators/geometry.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/geometry.py b/src/pysimulators/geometry.py
index e60c6ab..ec1c484 100644
--- a/src/pysimulators/geometry.py
+++ b/src/pysimulators/geometry.py
@@ -306,7 +306,7 @@ def rotate(coords, angle, out=None):
     if coords.dtype.kind != 'f':
         coords = coords.astype(float)
     if out is None:
-        out = _np.empty_like(coords)
+        out = _np.empty(coords.shape, coords.dtype.newbyteorder('='))
     if (
         coords.dtype == float
         and coords.size > 0
@@ -327,9 +327,8 @@ def rotate(coords, angle, out=None):
         [[_np.cos(angle), -_np.sin(angle)], [_np.sin(angle), _np.cos(angle)]],
         coords.dtype,
     )
-    if isalias(coords, out):
-        coords = coords.copy()
-    return _np.dot(coords, m.T, out)
+    out[...] = _np.dot(coords, m.T)
+    return out
 
 
 def surface_simple_polygon(coords, out=None, dtype=float):
-- 
2.43.0


From 463cdc62984fe746573c5209d531c17767fa22be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 037/140] fix: spherical coordinates of samplings with scalar
 angles

---
 src/pysimulators/packedtables/samplings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 0f7d34d..c0204c1 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -126,7 +126,10 @@ class SamplingSpherical(Sampling):
         Return the spherical coordinates as an (N, 2) ndarray.
 
         """
-        return np.array([getattr(self, self.names[0]), getattr(self, self.names[1])]).T
+        out = np.empty((len(self), 2))
+        out[:, 0] = getattr(self, self.names[0])
+        out[:, 1] = getattr(self, self.names[1])
+        return out
 
     @property
     def spherical2cartesian(self):
-- 
2.43.0


From a9a16aef88a6c89104d8ae7057483e79cef371a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:56 +0000
Subject: [PATCH 038/140] fix: derive the sampling period from the time, if
 specified

---
 src/pysimulators/packedtables/samplings.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index c0204c1..6f9c9be 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -1,3 +1,5 @@
+from collections.abc import Callable
+
 import numpy as np
 from astropy.time import Time, TimeDelta
 
@@ -37,10 +39,11 @@ class Sampling(PackedTable):
         elif date_obs.is_scalar:  # work around astropy.time bug
             date_obs = Time([str(date_obs)], scale='utc')
         if period is None:
-            if hasattr(keywords, 'time'):
-                period = np.median(np.diff(keywords['time']))
-            else:
+            time = keywords.get('time', None)
+            if isinstance(time, Callable) or np.size(time) < 2:
                 period = self.DEFAULT_PERIOD
+            else:
+                period = np.median(np.diff(time))
         masked = keywords.pop('masked', False)
         time = keywords.pop('time', None)
         PackedTable.__init__(self, n, masked=masked, time=time, **keywords)
-- 
2.43.0


From a79f3549ce81a180f16ea7cf5e2a1c0156f226dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 039/140] fix: normalize the center of samplings before
 converting it into angles

---
 src/pysimulators/packedtables/samplings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 6f9c9be..9e62d57 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -177,7 +177,8 @@ class SamplingSpherical(Sampling):
         self.comm.Allreduce(MPI.IN_PLACE, as_mpi(center))
         if n == 0:
             raise ValueError('There is no valid pointing.')
-        center /= n
+        # the cartesian-to-spherical transform assumes unit vectors
+        center /= np.sqrt(np.sum(center**2))
         return self.cartesian2spherical(center)
 
 
-- 
2.43.0


From 196ff8b58536ebeb63d071fd40400e0902f91bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:01 +0000
Subject: [PATCH 040/140] fix: accept scalar astropy times as the sampling
 start date

---
 src/pysimulators/packedtables/samplings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 9e62d57..98985e7 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -36,8 +36,8 @@ class Sampling(PackedTable):
             date_obs = Time([date_obs], scale='utc')
         elif not isinstance(date_obs, Time):
             raise TypeError('The observation start date is invalid.')
-        elif date_obs.is_scalar:  # work around astropy.time bug
-            date_obs = Time([str(date_obs)], scale='utc')
+        elif date_obs.isscalar:
+            date_obs = date_obs.reshape(1)
         if period is None:
             time = keywords.get('time', None)
             if isinstance(time, Callable) or np.size(time) < 2:
-- 
2.43.0


From ba64e4ef98aa86552cad72c8be7e02405f9fad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:37 +0000
Subject: [PATCH 041/140] fix: products by sparse matrices without stored
 elements

---
 src/pysimulators/sparse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index df8a5ee..d18bbbb 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -133,6 +133,10 @@ class _FSMatrix:
             out = out.ravel()
             self._validateout(out.shape)
 
+        if self.data.size == 0:
+            # f2py doesn't accept zero-sized opaque arguments
+            return v, out, True
+
         di = self.data.index.dtype
         ds = self.dtype
         dv = v.dtype
-- 
2.43.0


From 9ad3b229f5ac1fd656cf6fe84b8f1760648bb36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 042/140] fix: restrict sparse operators without stored
 elements

---
 src/pysimulators/sparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index d18bbbb..235bb97 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -964,7 +964,9 @@ class SparseOperator(SparseBase):
         else:
             matrix = self.matrix.copy()
         itype = matrix.data.dtype['index']
-        if itype.type in (np.int8, np.int16, np.int32, np.int64):
+        if matrix.data.size == 0:
+            ncol = int(np.sum(mask))
+        elif itype.type in (np.int8, np.int16, np.int32, np.int64):
             f = f'fsr_restrict_i{itype.itemsize}'
             func = getattr(fsp, f)
             block_shape = matrix.block_shape[0]
-- 
2.43.0


From 66915a55a2a23b85f8401a30d89eb9c2889d9181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:06 +0000
Subject: [PATCH 043/140] fix: convolve Healpix maps of a single component

---
 src/pysimulators/interfaces/healpy/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/healpy/operators.py b/src/pysimulators/interfaces/healpy/operators.py
index 840a84b..6acffc8 100644
--- a/src/pysimulators/interfaces/healpy/operators.py
+++ b/src/pysimulators/interfaces/healpy/operators.py
@@ -332,7 +332,7 @@ class HealpixConvolutionGaussianOperator(Operator):
 
     def direct(self, input, output):
         if input.ndim > 1:
-            input = [_ for _ in input.T]
+            input = [_ for _ in input.T] if input.shape[1] > 1 else input[:, 0]
         output.T[...] = hp.smoothing(
             input,
             fwhm=self.fwhm,
-- 
2.43.0


From a270e1be9a1500af1167aa6b844857f626dd0d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:35 +0000
Subject: [PATCH 044/140] fix: do not modify the communicator of the table that
 is scattered

---
 src/pysimulators/packedtables/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 98f9482..c20f167 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -475,6 +475,8 @@ class PackedTable:
 
         selection = split(len(self), comm.size, comm.rank)
         out = self[selection]
+        if out is self:
+            out = copy.copy(self)
         for k in out._special_attributes:
             if k in out._reserved_attributes:
                 continue
-- 
2.43.0


From a4ae1662a4482cde275a98c862b28be35fc7c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:53 +0000
Subject: [PATCH 045/140] fix: do not flag gathered tables as distributed

---
 src/pysimulators/packedtables/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c20f167..4cb5ec2 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -541,6 +541,7 @@ class PackedTable:
             raise TypeError(f'gather takes at most 1 argument ({len(args)} given)')
 
         out = copy.copy(self)
+        object.__setattr__(out, 'comm', MPI.COMM_SELF)
         out._index = self._normalize_int_selection(
             func(self.index), product(self.shape[: self.ndim])
         )
-- 
2.43.0


From b7c6d2cdb3daa501b62586330cfbe0e120929356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:53 +0000
Subject: [PATCH 046/140] fix: gather tables whose processes hold any number of
 components

---
 src/pysimulators/packedtables/core.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index 4cb5ec2..c0654c2 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -525,15 +525,9 @@ class PackedTable:
             )
             return out
 
-        ntot = np.array(len(self))
-        self.comm.Allreduce(MPI.IN_PLACE, ntot, op=MPI.SUM)
-        counts = []
-        offsets = [0]
-        for s in split(ntot, self.comm.size):
-            n = s.stop - s.start
-            counts.append(n)
-            offsets.append(offsets[-1] + n)
-        offsets.pop()
+        counts = self.comm.allgather(len(self))
+        ntot = sum(counts)
+        offsets = [sum(counts[:i]) for i in range(len(counts))]
 
         if len(args) == 1:
             return func(args[0])
-- 
2.43.0


From 5526f69575e34728bde729f29e17bd59208dcd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:54 +0000
Subject: [PATCH 047/140] fix: gather non-contiguous arrays

---
 src/pysimulators/packedtables/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index c0654c2..e6c3cd8 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -513,7 +513,7 @@ class PackedTable:
         """
 
         def func(x):
-            x = np.asarray(x)
+            x = np.asarray(x, order='C')
             out = np.empty((ntot,) + x.shape[1:], x.dtype)
             nbytes = product(x.shape[1:]) * int(x.itemsize)
             self.comm.Allgatherv(
-- 
2.43.0


From 4944aa1f468e3cb6b61e35a0e868da24e3d2975c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:49 +0000
Subject: [PATCH 048/140] fix: write FITS files collectively with the current
 versions of astropy and numpy

---
 src/pysimulators/mpiutils.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index fb4fe0e..09f3216 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -3,7 +3,6 @@
 #
 
 import os
-import sys
 from pathlib import Path
 
 import numpy as np
@@ -291,7 +290,7 @@ def write_fits(filename, data, header, extension, extname, comm):
     if comm.rank == 0:
         header['NAXIS' + str(ndim)] = nglobal
         shdu = pyfits.StreamingHDU(filename, header)
-        data_loc = shdu._datLoc
+        data_loc = shdu._data_offset
         shdu.close()
     else:
         data_loc = None
@@ -301,20 +300,13 @@ def write_fits(filename, data, header, extension, extname, comm):
     # (Create_subarray does not allow 0-sized subarrays)
     chunk = product(data.shape[1:])
     rank_nowork = min(comm.size, nglobal)
-    group = comm.Get_group()
-    group.Incl(list(range(rank_nowork)))
-    newcomm = comm.Create(group)
+    newcomm = comm.Split(comm.rank < rank_nowork, comm.rank)
 
     # collectively write data
     if comm.rank < rank_nowork:
         # mpi4py 1.2.2: pb with viewing data as big endian KeyError '>d'
-        if (
-            sys.byteorder == 'little'
-            and data.dtype.byteorder == '='
-            or data.dtype.byteorder == '<'
-        ):
-            data = data.byteswap()
-        data = data.newbyteorder('=')
+        data = np.ascontiguousarray(data, data.dtype.newbyteorder('>'))
+        data = data.view(data.dtype.newbyteorder('='))
         mtype = DTYPE_MAP[data.dtype]
         ftype = mtype.Create_subarray(
             [nglobal * chunk], [nlocal * chunk], [s.start * chunk]
-- 
2.43.0


From c5573154c486b1ffb6ce22c0ff10eca5f2666653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:49 +0000
Subject: [PATCH 049/140] fix: do not pad the FITS data that already fill their
 blocks

---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 09f3216..31daf3a 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -325,7 +325,7 @@ def write_fits(filename, data, header, extension, extname, comm):
     if comm.rank == 0:
         datasize = nglobal * chunk * int(data.dtype.itemsize)
         BLOCK_SIZE = 2880
-        padding = BLOCK_SIZE - (datasize % BLOCK_SIZE)
+        padding = -datasize % BLOCK_SIZE
         with open(filename, 'a') as f:
             if f.tell() - data_loc != datasize:
                 raise RuntimeError('Unexpected file size.')
-- 
2.43.0


From 4af67128c30304ca37c292fb2736298453054e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:49 +0000
Subject: [PATCH 050/140] fix: skip the FITS extensions of null size when
 reading the first data

---
 src/pysimulators/mpiutils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 31daf3a..c7dff2c 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -186,6 +186,7 @@ def read_fits(filename, extname, comm):
                 continue
             if hdu.data is not None:
                 break
+            ihdu += 1
 
     header = hdu.header
     n = header['NAXIS' + str(header['NAXIS'])]
-- 
2.43.0


From 33324dd8eb32d412b6bb6492658c911498c5cd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:49 +0000
Subject: [PATCH 051/140] fix: shift the reference pixel along the axis that is
 distributed when reading FITS files

---
 src/pysimulators/mpiutils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index c7dff2c..59d2e1c 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -197,12 +197,7 @@ def read_fits(filename, extname, comm):
         output = output.byteswap().view(output.dtype.newbyteorder('='))
 
     # update the header
-    header['NAXIS' + str(header['NAXIS'])] = s.stop - s.start
-    try:
-        if header['CTYPE1'] == 'RA---TAN' and header['CTYPE2'] == 'DEC--TAN':
-            header['CRPIX2'] -= s.start
-    except KeyError:
-        pass
+    header = scatter_fitsheader(header, comm=comm)
     comm.Barrier()
 
     return output, header
-- 
2.43.0


From 5684c22ab59e4f80a0e26072c7d72180867c71d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:37 +0000
Subject: [PATCH 052/140] fix: partition the output of the acquisition operator

---
 src/pysimulators/acquisitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 40bc987..48f4201 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -237,7 +237,7 @@ class Acquisition:
                             self.instrument.get_operator(self.sampling[b], self.scene)
                             for b in self.block
                         ],
-                        axisin=1,
+                        axisout=1,
                     ),
                     self.scene.get_distribution_operator(self.comm),
                 ]
-- 
2.43.0


From 0d51e1865bf355846c8b83b806e2ecfdbdae6b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:37 +0000
Subject: [PATCH 053/140] fix: do not reuse the operator of the whole
 acquisition once it is restricted

---
 src/pysimulators/acquisitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 48f4201..d32cd70 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -164,6 +164,7 @@ class Acquisition:
 
         if any(not is_colon(_) for _ in x):
             self._operator = None
+            out._operator = None
             gc.collect()
 
         out.instrument = self.instrument[x[0]]
-- 
2.43.0


From 4bfe536cdb562c5fcb096d12fdfae594b37c0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:48 +0000
Subject: [PATCH 054/140] fix: copy quantities if needed with numpy 2, when no
 copy is requested

---
 src/pysimulators/quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index b5f69a0..127faa2 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -462,7 +462,7 @@ class Quantity(np.ndarray):
 
         # get a new Quantity instance (or a subclass if subok is True)
         result = np.array(
-            data, dtype=dtype, copy=copy, order=order, subok=True, ndmin=ndmin
+            data, dtype=dtype, copy=copy or None, order=order, subok=True, ndmin=ndmin
         )
         if not subok and type(result) is not cls or not isinstance(result, cls):
             result = result.view(cls)
-- 
2.43.0


From b874efd1ae9f90f830a4243e0050f54f57bccd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:55 +0000
Subject: [PATCH 055/140] fix: append FITS extensions collectively

---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 59d2e1c..13279a6 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -285,7 +285,7 @@ def write_fits(filename, data, header, extension, extname, comm):
     # write FITS header
     if comm.rank == 0:
         header['NAXIS' + str(ndim)] = nglobal
-        shdu = pyfits.StreamingHDU(filename, header)
+        shdu = pyfits.StreamingHDU(filename.as_posix(), header)
         data_loc = shdu._data_offset
         shdu.close()
     else:
-- 
2.43.0


From 8ce5e7cc567769cd540a81ef320273a1e0b9c95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:43 +0000
Subject: [PATCH 056/140] fix: do not modify the communicators of the
 acquisition that is restricted

---
 src/pysimulators/acquisitions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index d32cd70..370becb 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -169,9 +169,11 @@ class Acquisition:
 
         out.instrument = self.instrument[x[0]]
         if not is_colon(x[0]):
+            out.instrument.detector = copy(out.instrument.detector)
             object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
         out.sampling = self.sampling[x[1]]  # XXX FIX BLOCKS!!!
         if not is_colon(x[1]):
+            out.sampling = copy(out.sampling)
             object.__setattr__(out.sampling, 'comm', MPI.COMM_SELF)
         out.scene = self.scene[x[2]]
 
-- 
2.43.0


From d9e6ed27f95c15d65145098ce2ba3eef7d3932bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:16 +0000
Subject: [PATCH 057/140] fix: fold the Nyquist term of two-sided PSDs, not the
 one that follows it

---
 src/pysimulators/noises.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/noises.py b/src/pysimulators/noises.py
index e5392ea..6431a8c 100644
--- a/src/pysimulators/noises.py
+++ b/src/pysimulators/noises.py
@@ -20,7 +20,7 @@ def _fold_psd(p):
     out = empty(p.shape[:-1] + (n,))
     out[..., 0] = p[..., 0]
     np.multiply(p[..., 1 : n - 1], 2, out[..., 1:-1])
-    out[..., -1] = p[..., n]
+    out[..., -1] = p[..., n - 1]
     return out
 
 
-- 
2.43.0


From a127e0fff262e0277b9142f350284b06928e3348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:16 +0000
Subject: [PATCH 058/140] fix: correlated noise with per-detector parameters

---
 src/pysimulators/instruments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index 347d769..edf0dd8 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -328,9 +328,10 @@ class Instrument:
             p = _logloginterp_psd(f, bandwidth, psd)
 
         # looping over the detectors
-        for out_ in out:
+        p = np.broadcast_to(p, (len(self), p.shape[-1]))
+        for out_, p_ in zip(out, p):
             operation(
-                out_, _gaussian_sample(n, sampling_frequency, p, twosided=twosided)
+                out_, _gaussian_sample(n, sampling_frequency, p_, twosided=twosided)
             )
 
         return out
-- 
2.43.0


From 8e7aca84ed0dd199f483df518fa30bd0db20be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:27 +0000
Subject: [PATCH 059/140] fix: noise from a specified PSD for an odd number of
 samples

---
 src/pysimulators/instruments.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/instruments.py b/src/pysimulators/instruments.py
index edf0dd8..61d5ed4 100644
--- a/src/pysimulators/instruments.py
+++ b/src/pysimulators/instruments.py
@@ -324,8 +324,12 @@ class Instrument:
             )
         else:
             # log-log interpolation of one-sided PSD
-            f = np.arange(n // 2 + 1, dtype=float) * (sampling_frequency / n)
-            p = _logloginterp_psd(f, bandwidth, psd)
+            f = np.arange((n + 1) // 2 + 1, dtype=float) * (sampling_frequency / n)
+            p = _unfold_psd(_logloginterp_psd(f, bandwidth, psd))
+            twosided = True
+            if n % 2 == 1:
+                # the Nyquist frequency is not sampled
+                p = np.delete(p, n // 2 + 1, axis=-1)
 
         # looping over the detectors
         p = np.broadcast_to(p, (len(self), p.shape[-1]))
-- 
2.43.0


From b9d0b8d94beb0aff4e65c4416c549d27e40a51db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:50 +0000
Subject: [PATCH 060/140] fix: honour the arguments of Acquisition.pack and
 unpack

---
 src/pysimulators/acquisitions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 370becb..1e89a3a 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -192,12 +192,14 @@ class Acquisition:
     __repr__ = __str__
 
     def pack(self, x, out=None, copy=False):
-        return self.instrument.detector.pack(x)
+        return self.instrument.detector.pack(x, out=out, copy=copy)
 
     pack.__doc__ = Layout.pack.__doc__
 
     def unpack(self, x, out=None, missing_value=None, copy=False):
-        return self.instrument.detector.unpack(x)
+        return self.instrument.detector.unpack(
+            x, out=out, missing_value=missing_value, copy=copy
+        )
 
     unpack.__doc__ = Layout.unpack.__doc__
 
-- 
2.43.0


From 9b66da0eb9f09cce77bd9242600d2cd848d65096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:50 +0000
Subject: [PATCH 061/140] fix: MaskPolicy conversion with numpy 2

---
 src/pysimulators/acquisitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 1e89a3a..65fc37f 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -355,10 +355,10 @@ class MaskPolicy:
             setattr(self, flag, value)
         self._flags = flags
 
-    def __array__(self, dtype=int):
+    def __array__(self, dtype=None, copy=None):
         conversion = {'keep': self.KEEP, 'mask': self.MASK, 'remove': self.REMOVE}
         return np.array(
-            [conversion[getattr(self, _)] for _ in self._flags], dtype=dtype
+            [conversion[getattr(self, _)] for _ in self._flags], dtype=dtype or int
         )
 
     def __str__(self):
-- 
2.43.0


From 73267de7a14b32ce5b51e9ddd2d3b7f328e67e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:18 +0000
Subject: [PATCH 062/140] fix: blocks of an acquisition restricted to some
 samples

---
 src/pysimulators/acquisitions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index 65fc37f..ff9fa29 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -171,8 +171,12 @@ class Acquisition:
         if not is_colon(x[0]):
             out.instrument.detector = copy(out.instrument.detector)
             object.__setattr__(out.instrument.detector, 'comm', MPI.COMM_SELF)
-        out.sampling = self.sampling[x[1]]  # XXX FIX BLOCKS!!!
+        out.sampling = self.sampling[x[1]]
         if not is_colon(x[1]):
+            n = len(out.sampling)
+            out.block = tuple(
+                b for b in self.block if len(range(*b.indices(n))) > 0
+            ) or (slice(0, n),)
             out.sampling = copy(out.sampling)
             object.__setattr__(out.sampling, 'comm', MPI.COMM_SELF)
         out.scene = self.scene[x[2]]
-- 
2.43.0


From ea9396ccea2cb1c0861cd439b42888ba77c73f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:18 +0000
Subject: [PATCH 063/140] fix: no empty blocks when max_nbytes is less than the
 cost of a sample

---
 src/pysimulators/acquisitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index ff9fa29..e80a284 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -118,6 +118,7 @@ class Acquisition:
                 nbytes = self.get_operator_nbytes()
                 if nbytes > max_nbytes:
                     nblocks = int(np.ceil(nbytes / max_nbytes))
+                    nblocks = min(nblocks, len(self.sampling))
                     self.block = tuple(split(len(self.sampling), nblocks))
         elif not isinstance(block, (list, tuple)) or any(
             not isinstance(b, slice) for b in block
-- 
2.43.0


From 3fc40baa25db0582d764181c3f2b30e7382dbbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 064/140] fix: NaN and infinity constants of the Fortran
 modules

---
 src/flib/module_math.f90.j2  | 8 ++++----
 src/flib/module_math_old.f90 | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/flib/module_math.f90.j2 b/src/flib/module_math.f90.j2
index 4eea029..5adf1ac 100644
--- a/src/flib/module_math.f90.j2
+++ b/src/flib/module_math.f90.j2
@@ -6,11 +6,11 @@ module module_math
     implicit none
 
     real(real32), parameter :: NAN_4  = real(z'FFFFFFFF', real32)
-    real(real32), parameter :: MINF_4 = real(z'FF700000', real32)
-    real(real32), parameter :: PINF_4 = real(z'7F700000', real32)
+    real(real32), parameter :: MINF_4 = real(z'FF800000', real32)
+    real(real32), parameter :: PINF_4 = real(z'7F800000', real32)
     real(real32), parameter :: PI_4 = 4._real32 * atan(1._real32)
-    real(real64), parameter :: NAN_8  = real(z'FFF800000000000', real64)
-    real(real64), parameter :: MINF_8 = real(z'FFF000000000000', real64)
+    real(real64), parameter :: NAN_8  = real(z'FFF8000000000000', real64)
+    real(real64), parameter :: MINF_8 = real(z'FFF0000000000000', real64)
     real(real64), parameter :: PINF_8 = real(z'7FF0000000000000', real64)
     real(real64), parameter :: PI_8 = 4._real64 * atan(1._real64)
 {% if PRECISION_REAL == 16 %}
diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 61df943..0f5d4ca 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -49,9 +49,9 @@ module module_math_old
     !XXX should use ieee_arithmetic instead when gfortran implements it. So far, gfortran doesn't allow NaN, mInf, pInf conversion
     ! between different real kinds...
 #if PRECISION_REAL == 8
-    real(8), parameter :: NaN  = real(z'FFFFFFFF', 8)
-    real(8), parameter :: mInf = real(z'FFFF0000', 8)
-    real(8), parameter :: pInf = real(z'7FFF0000', 8)
+    real(8), parameter :: NaN  = real(z'FFF8000000000000', 8)
+    real(8), parameter :: mInf = real(z'FFF0000000000000', 8)
+    real(8), parameter :: pInf = real(z'7FF0000000000000', 8)
 #elif PRECISION_REAL == 16
     real(16), parameter :: NaN  = z'FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF'
     real(16), parameter :: mInf = z'FFFF0000000000000000000000000000'
-- 
2.43.0


From 4af572d36cccb5436a6dc59289fc65568855e4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 065/140] fix: angle_lonlat of identical or opposite directions
 is not NaN

---
 src/flib/module_math_old.f90 | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/flib/module_math_old.f90 b/src/flib/module_math_old.f90
index 0f5d4ca..cdbb5d6 100644
--- a/src/flib/module_math_old.f90
+++ b/src/flib/module_math_old.f90
@@ -505,8 +505,9 @@ contains
         real(p), intent(in)  :: lon1, lat1, lon2, lat2
         real(p), intent(out) :: angle
 
-        angle = acos(cos(lat1*DEG2RAD) * cos(lat2*DEG2RAD) * cos((lon2 - lon1)*DEG2RAD) + sin(lat1*DEG2RAD) * sin(lat2*DEG2RAD)) * &
-                RAD2DEG
+        angle = cos(lat1*DEG2RAD) * cos(lat2*DEG2RAD) * cos((lon2 - lon1)*DEG2RAD) + sin(lat1*DEG2RAD) * sin(lat2*DEG2RAD)
+        ! rounding errors may exceed the domain of the arc cosine
+        angle = acos(max(-1._p, min(1._p, angle))) * RAD2DEG
 
     end subroutine angle_lonlat
 
-- 
2.43.0


From 3a2d3711f0426886783b8c00f2d4b9c5be96adc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 066/140] fix: angle_lonlat of coordinates of different sizes
 reads out of bounds

---
 src/pysimulators/wcsutils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 9e94496..8f7abc7 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -58,10 +58,9 @@ def angle_lonlat(lon1, lat1, lon2=None, lat2=None):
     lat1 = np.asarray(lat1, float)
     lon2 = np.asarray(lon2, float)
     lat2 = np.asarray(lat2, float)
-    angle = flib.wcsutils.angle_lonlat(
-        lon1.ravel(), lat1.ravel(), lon2.ravel(), lat2.ravel()
-    )
-    if all(_.ndim == 0 for _ in (lon1, lat1, lon2, lat2)):
+    args = np.broadcast_arrays(lon1, lat1, lon2, lat2)
+    angle = flib.wcsutils.angle_lonlat(*(_.ravel() for _ in args))
+    if args[0].ndim == 0:
         angle = angle[0]
     return angle
 
-- 
2.43.0


From 7ed794621792356bcb309e0a3b5b6367529c8647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 067/140] fix: create_fitsheader with a CD matrix

---
 src/pysimulators/wcsutils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 8f7abc7..baeeb42 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -280,9 +280,9 @@ def create_fitsheader(
         if pa is None:
             pa = 0.0
         theta = np.deg2rad(-pa)
-    cd = np.diag(cdelt).dot(
-        np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
-    )
+        cd = np.diag(cdelt).dot(
+            np.array([[np.cos(theta), np.sin(theta)], [-np.sin(theta), np.cos(theta)]])
+        )
 
     crval = np.asarray(crval, float)
     if crval.size != 2:
-- 
2.43.0


From f867e7c9e807a88223bc62ec5327b41213b7305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 068/140] fix: str2fitsheader relied on a removed method of
 FITS headers

---
 src/pysimulators/wcsutils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index baeeb42..ef8d29e 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -491,16 +491,15 @@ def str2fitsheader(string):
     All cards are extracted from the input string until the END keyword is
     reached.
     """
-    header = pyfits.Header()
-    cards = header.ascard()
+    cards = []
     iline = 0
     while iline * 80 < len(string):
         line = string[iline * 80 : (iline + 1) * 80]
-        if line[0:3] == 'END':
+        if line.rstrip() == 'END':
             break
-        cards.append(pyfits.Card().fromstring(line))
+        cards.append(pyfits.Card.fromstring(line))
         iline += 1
-    return header
+    return pyfits.Header(cards)
 
 
 @real
-- 
2.43.0


From cf7693dbf84ea563e40db4a53692ae6778de4fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:44 +0000
Subject: [PATCH 069/140] fix: RotationBoresightEquatorialOperator truncates
 the coordinates of integer inputs

---
 src/pysimulators/wcsutils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index ef8d29e..f5bf924 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -568,6 +568,8 @@ class RotationBoresightEquatorialOperator(Operator):
         if any(k not in pointing.dtype.names for k in ('ra', 'dec', 'pa')):
             raise TypeError('The input is not an equatorial pointing.')
         self.pointing = pointing
+        if 'dtype' not in keywords:
+            keywords['dtype'] = float
         Operator.__init__(self, **keywords)
 
     def direct(self, x, out):
-- 
2.43.0


From fd64b39885f640eb340c6de7e345ea37031d5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 070/140] fix: aperture_circular for integer and boolean data
 types

---
 src/pysimulators/datautils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3d08ba6..3cd323d 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -86,9 +86,10 @@ def aperture_circular(shape, diameter, center=None, scale=1, dtype=float):
         The output data type.
 
     """
-    array = distance2(shape, center=center, scale=scale, dtype=dtype)
-    array[...] = array <= (diameter / 2) ** 2
-    return array
+    array = distance2(
+        shape, center=center, scale=scale, dtype=float_intrinsic_dtype(dtype)
+    )
+    return Map(array <= (diameter / 2) ** 2, dtype=dtype)
 
 
 def distance(shape, center=None, scale=1, dtype=float, out=None):
-- 
2.43.0


From f268619c5add6367f886afa9b6ed2e9b2d4e88bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 071/140] fix: distance2 for more than two dimensions

---
 src/pysimulators/datautils.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3cd323d..3859d0b 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -257,10 +257,7 @@ def _distance2_slow(shape, center, scale, dtype, out=None):
         (s * (a.astype(dtype) - o)) ** 2
         for a, o, s in zip(d, center[::-1], scale[::-1])
     ]
-    if len(d) == 1:
-        out[...] = d[0]
-        return out
-    np.sum(sum(d[:-1]), d[-1], out)
+    out[...] = sum(d)
     return out
 
 
-- 
2.43.0


From abf3b39fd03c9c5502e9d285b07d028d6037ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 072/140] fix: data type of gaussian for other dimensions than
 two

---
 src/pysimulators/datautils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 3859d0b..8f17d3d 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -368,6 +368,8 @@ def gaussian(shape, sigma=None, fwhm=None, center=None, dtype=float):
         out = 1 / ((2 * np.pi) ** (n / 2) * product(sigma))
         for a in axes:
             out = out * np.exp(-(a**2))
+        if dtype.kind in 'fc':
+            out = out.astype(dtype)
     return out
 
 
-- 
2.43.0


From 495b082f3049bcc2860ee26883e70342fccf1a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 073/140] fix: abscissae of integrated_profile

---
 src/pysimulators/datautils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 8f17d3d..dabc828 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -406,6 +406,7 @@ def integrated_profile(input, bin=1, nbins=None, center=None, scale=1):
     )
     y[~np.isfinite(y)] = 0
     y *= n * scale**2
+    x = np.arange(1, y.size + 1) * bin
     return x, np.cumsum(y)
 
 
-- 
2.43.0


From 7fe26bb5b672438d1db3f8332b406be701cc3072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 074/140] fix: center of the profile of the two-dimensional PSD

---
 src/pysimulators/datautils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index dabc828..721cabe 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -564,6 +564,7 @@ def profile_psd2(array, sampling_frequency=1, fftw_flag='FFTW_MEASURE'):
     if array.shape[0] != array.shape[1]:
         raise ValueError('The input array is not square.')
     psd = psd2(array, sampling_frequency=sampling_frequency, fftw_flag=fftw_flag)
-    x, y = profile(psd, center=array.shape // np.array(2) + 1)
+    # zero-based position of the zero frequency
+    x, y = profile(psd, center=array.shape // np.array(2))
     x *= sampling_frequency / array.shape[1]
     return x, y
-- 
2.43.0


From 91350422779d49f854e9ee13736a9253a9c0d695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 075/140] fix: keep the units of the positive, copysign and
 float_power ufuncs

---
 src/pysimulators/quantities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 127faa2..d848361 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -764,16 +764,16 @@ class Quantity(np.ndarray):
             np.conjugate,
             np.copysign,
             np.fabs,
-            np.float_power,
             np.floor,
             np.fmax,
             np.fmin,
             np.hypot,
             np.negative,
+            np.positive,
             np.rint,
             np.trunc,
         ):
-            output_unit = self._unit
+            output_unit = input_units[0]
 
         elif ufunc is np.reciprocal:
             output_unit = _power_unit(input_units[0], -1)
@@ -787,7 +787,7 @@ class Quantity(np.ndarray):
         elif ufunc is np.square:
             output_unit = _power_unit(input_units[0], 2)
 
-        elif ufunc is np.power:
+        elif ufunc in (np.float_power, np.power):
             power = (
                 inputs[1].view(np.ndarray)
                 if isinstance(inputs[1], Quantity)
-- 
2.43.0


From db586178ad0a6ff3aa095bd34e5b9f406a4fd9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 076/140] fix: convert the inputs of the fmax, fmin, remainder,
 arctan2 and clip ufuncs to the same unit

---
 src/pysimulators/quantities.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index d848361..a716528 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -738,16 +738,19 @@ class Quantity(np.ndarray):
 
         if ufunc in (
             np.add,
-            np.clip,
+            np.fmax,
+            np.fmin,
             np.fmod,
             np.hypot,
             np.maximum,
             np.minimum,
+            np.remainder,
             np.subtract,
-        ):
+        ) or ufunc.__name__ == 'clip':  # np.clip is not a ufunc
             inputs, output_unit = self._get_inputs_with_common_units(inputs)
 
         elif ufunc in (
+            np.arctan2,
             np.equal,
             np.greater,
             np.greater_equal,
@@ -765,9 +768,6 @@ class Quantity(np.ndarray):
             np.copysign,
             np.fabs,
             np.floor,
-            np.fmax,
-            np.fmin,
-            np.hypot,
             np.negative,
             np.positive,
             np.rint,
-- 
2.43.0


From 94ec4f5c1a097c78b6d01cf2d2704f33853581b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:21 +0000
Subject: [PATCH 077/140] fix: set the unit of the output of the ufuncs

---
 src/pysimulators/quantities.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index a716528..b584dc2 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -809,7 +809,6 @@ class Quantity(np.ndarray):
             output_unit = None
 
         # Process outputs if provided
-        # TODO: check me
         if out is not None:
             kwargs['out'] = tuple(
                 o.view(np.ndarray) if isinstance(o, Quantity) else o
@@ -826,7 +825,23 @@ class Quantity(np.ndarray):
             ],
             **kwargs,
         )
-        if result is None or result is NotImplemented or output_unit is None:
+        if result is None or result is NotImplemented:
+            return result
+
+        # The results are written in the output quantities, which get their unit
+        if out is not None:
+            outs = out if isinstance(out, tuple) else (out,)
+            results = result if isinstance(result, tuple) else (result,)
+            for o in outs:
+                if isinstance(o, Quantity):
+                    o._unit = output_unit or {}
+            results = tuple(
+                o if isinstance(o, Quantity) else r for o, r in zip(outs, results)
+            )
+            if any(isinstance(o, Quantity) for o in outs):
+                return results if isinstance(result, tuple) else results[0]
+
+        if output_unit is None:
             return result
 
         # Handle tuple results (for ufuncs with multiple outputs)
-- 
2.43.0


From 86c81b4022c9b64c2bac05b89331dca830e41224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 078/140] fix: do not store the local derived units in the
 global ones

---
 src/pysimulators/quantities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index b584dc2..cd8e490 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1248,8 +1248,9 @@ def _get_du(input, key, derived_units):
         du = du(input)
     if du is None:
         return None, None
+    # do not modify the derived unit itself
+    du = du.view(type(input) if hasattr(input, '_header') else type(du))
     if hasattr(input, '_header'):
-        du = du.view(type(input))
         du._header = input._header
     du._derived_units = input._derived_units
     return du, broadcast
-- 
2.43.0


From eb15b862a96d8f0e0fa32c8f4a3c2eb903a85055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 079/140] fix: update the derived units of the items of a list
 of indices

---
 src/pysimulators/quantities.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index cd8e490..9e65130 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -886,9 +886,6 @@ class Quantity(np.ndarray):
         if self.dtype.kind == 'V' and isinstance(key, str):
             return item.view(Quantity)
 
-        if isinstance(key, list):
-            key = tuple(key)
-
         if not isinstance(key, tuple):
             key = (key,)
 
-- 
2.43.0


From f52d43bda35c77350ca5474825e649aa34a1ab95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 080/140] fix: convert in place the quantities with a derived
 unit broadcast leftward

---
 src/pysimulators/quantities.py | 53 +++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 9e65130..9f30a04 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1061,22 +1061,12 @@ class Quantity(np.ndarray):
             self._unit = newunit
             return
 
-        # the header may contain information used to do unit conversions
-        if hasattr(self, '_header'):
-            q1 = self.__class__(
-                1,
-                header=self._header,
-                unit=self._unit,
-                derived_units=self.derived_units,
-            ).SI
-            q2 = self.__class__(
-                1, header=self._header, unit=newunit, derived_units=self.derived_units
-            ).SI
-        else:
-            q1 = Quantity(1.0, self._unit, self.derived_units).SI
-            q2 = Quantity(1.0, newunit, self.derived_units).SI
+        slow1, fast1 = self._get_SI_factors(self._unit)
+        slow2, fast2 = self._get_SI_factors(newunit)
 
-        if q1._unit != q2._unit:
+        if _multiply_unit(slow1._unit, fast1._unit) != _multiply_unit(
+            slow2._unit, fast2._unit
+        ):
             raise UnitError(
                 "Units '"
                 + self.unit
@@ -1084,11 +1074,16 @@ class Quantity(np.ndarray):
                 + _strunit(newunit)
                 + "' are incompatible."
             )
-        factor = q1.magnitude / q2.magnitude
+        slow = slow1.magnitude / slow2.magnitude
+        fast = fast1.magnitude / fast2.magnitude
+        if slow.ndim == 0 or fast.ndim == 0:
+            slow, fast = (slow * fast, 1) if fast.ndim == 0 else (1, slow * fast)
         if self.ndim == 0:
-            self.magnitude *= factor
+            self.magnitude *= slow * fast
         else:
-            self.magnitude.T[:] *= factor.T
+            magnitude = self.magnitude
+            magnitude *= slow
+            magnitude.T[...] *= np.asarray(fast).T
         self._unit = newunit
 
     @property
@@ -1106,9 +1101,23 @@ class Quantity(np.ndarray):
         if len(self._unit) == 0:
             return self
 
+        fslow, ffast = self._get_SI_factors(self._unit)
+        result = self * fslow.magnitude
+        result = (result.T * ffast.magnitude.T).T
+        result._unit = _multiply_unit(fslow._unit, ffast._unit)
+
+        return result
+
+    def _get_SI_factors(self, unit):
+        """
+        Return the factors by which a quantity of the given unit should be
+        multiplied to be in SI unit. The first one is broadcast leftward and
+        the second one rightward.
+
+        """
         ffast = Quantity(1.0, '')
         fslow = Quantity(1.0, '')
-        for key, val in self._unit.items():
+        for key, val in unit.items():
 
             # check if the unit is a local derived unit
             newfactor, broadcast = _check_du(self, key, val, self.derived_units)
@@ -1128,11 +1137,7 @@ class Quantity(np.ndarray):
             else:
                 ffast = (ffast.T * newfactor.T).T
 
-        result = self * fslow.magnitude
-        result = (result.T * ffast.magnitude.T).T
-        result._unit = _multiply_unit(fslow._unit, ffast._unit)
-
-        return result
+        return fslow, ffast
 
     def __reduce__(self):
         state = list(np.ndarray.__reduce__(self))
-- 
2.43.0


From 82748266a5381359dd53da307a12fa35da493276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 081/140] fix: update the derived units of the items of any
 indices

---
 src/pysimulators/quantities.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 9f30a04..d0038d2 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -889,10 +889,25 @@ class Quantity(np.ndarray):
         if not isinstance(key, tuple):
             key = (key,)
 
+        # only the broadcastable derived units depend on the key
+        if not any('[' in d for d in item._derived_units):
+            return item
+
+        # Replace the boolean masks with the indices along their dimensions
+        key = sum(
+            (
+                np.nonzero(k) if np.ndim(k) > 0 and np.asarray(k).dtype == bool else (k,)
+                for k in key
+            ),
+            (),
+        )
+
         # Replace Ellipsis with ':'
         try:
-            pos = key.index(Ellipsis)
-            key = key[:pos] + (self.ndim - len(key)) * (slice(None),) + key[pos + 1 :]
+            pos = [k is Ellipsis for k in key].index(True)
+            key = (
+                key[:pos] + (self.ndim - len(key) + 1) * (slice(None),) + key[pos + 1 :]
+            )
         except ValueError:
             pass
 
@@ -909,9 +924,9 @@ class Quantity(np.ndarray):
             # the derived unit is broadcastable, let's update it
             broadcast = d[pos + 1 : -1]
             if broadcast == 'leftward':
-                v = v[key[-v.ndim :]]
+                v = v[key[-v.ndim :] + (Ellipsis,)]
             else:
-                v = v[key[: v.ndim]]
+                v = v[key[: v.ndim] + (Ellipsis,)]
 
             if du is None:
                 du = item._derived_units.copy()
-- 
2.43.0


From 63187a42737f2eb4256214969e6fe594030822cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:38 +0000
Subject: [PATCH 082/140] fix: convert the limits of np.clip to the unit of the
 input

---
 src/pysimulators/quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index d0038d2..8e3e15c 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -98,7 +98,7 @@ FUNCTIONS = {
     ),
     np.broadcast_to: DEFAULT_CONVERSION,
     np.choose: ConversionType(ConversionInput.SECOND_SEQUENCE),
-    np.clip: DEFAULT_CONVERSION,
+    np.clip: ConversionType(ConversionInput.SEQUENCE),
     np.column_stack: ConversionType(ConversionInput.FIRST_SEQUENCE),
     np.compress: ConversionType(ConversionInput.SECOND),
     np.concat: ConversionType(ConversionInput.FIRST_SEQUENCE),
-- 
2.43.0


From 4bb72412a76c2f9fd224670c2a9f93b12e8f0c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 083/140] fix: do not recurse infinitely in the functions with
 quantities as keywords

---
 src/pysimulators/quantities.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 8e3e15c..99d7670 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -225,6 +225,9 @@ FUNCTIONS = {
 }
 FUNCTIONS.pop(None, None)
 
+# keywords of the functions above with the unit of their input
+HOMOGENIZED_KEYWORDS = ('a_min', 'a_max', 'min', 'max', 'prepend', 'append')
+
 
 def _extract_unit(string: str | UnitType) -> UnitType:
     """
@@ -567,9 +570,19 @@ class Quantity(np.ndarray):
         output_units: UnitType | Sequence[UnitType],
         conversion: ConversionType,
     ) -> tuple[Any, ...]:
-        out = keywords.get('out')
-        if out is not None:
-            keywords['out'] = cls._view_function_input(out)
+        # the quantities should be viewed as ndarrays to avoid an infinite recursion
+        keywords = {
+            key: cls._view_function_input(
+                value.tounit(output_units)
+                if key in HOMOGENIZED_KEYWORDS
+                and isinstance(value, Quantity)
+                and value._unit
+                and output_units
+                and value._unit != output_units
+                else value
+            )
+            for key, value in keywords.items()
+        }
 
         if conversion.action is not ConversionAction.SAME or conversion.input in (
             ConversionInput.FIRST,
-- 
2.43.0


From 2f5ac585fb80d13e55baaee31857dc5818ed41a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 084/140] fix: set the unit of the output of the NumPy
 functions

---
 src/pysimulators/quantities.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 99d7670..e4baa3c 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -504,14 +504,20 @@ class Quantity(np.ndarray):
         input_units = self._get_function_input_units(args, conversion)
         output_units = self._get_function_output_units(input_units, conversion)
 
-        converted_inputs, kwargs = self._convert_function_inputs(
+        converted_inputs, converted_kwargs = self._convert_function_inputs(
             args, kwargs, output_units, conversion
         )
         converted_inputs = self._view_function_inputs(converted_inputs, conversion)
-        outputs = func(*converted_inputs, **kwargs)
+        outputs = func(*converted_inputs, **converted_kwargs)
         if conversion.output is ConversionOutput.NONE:
             return None
 
+        # the result is written in the output quantity, which gets its unit
+        out = kwargs.get('out')
+        if isinstance(out, Quantity):
+            out._unit = output_units
+            return out
+
         converted_outputs = self._convert_function_outputs(
             outputs, output_units, conversion
         )
-- 
2.43.0


From a8c0e46a85938d1c45b3e79771e54a91fa78f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 085/140] fix: keep the unit of np.intersect1d with
 return_indices

---
 src/pysimulators/quantities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index e4baa3c..bd48d2a 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -149,7 +149,9 @@ FUNCTIONS = {
     ),
     np.insert: ConversionType(ConversionInput.FIRST_AND_THIRD),
     np.interp: DEFAULT_CONVERSION,
-    np.intersect1d: ConversionType(ConversionInput.FIRST_AND_SECOND),
+    np.intersect1d: ConversionType(
+        ConversionInput.FIRST_AND_SECOND, ConversionOutput.FIRST_IF_SEQUENCE
+    ),
     np.kron: ConversionType(
         ConversionInput.FIRST_AND_SECOND, action=ConversionAction.PROD
     ),
-- 
2.43.0


From a7e07214c02acf7b05b16beb8d5f0eed7d57f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 086/140] fix: np.where and np.cov with a single quantity

---
 src/pysimulators/quantities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index bd48d2a..1ec6b12 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -500,8 +500,10 @@ class Quantity(np.ndarray):
         ufuncs when appropriate.
         """
         conversion = FUNCTIONS.get(func)
-        if conversion is None:
+        if conversion is None or func is np.where and len(args) == 1:
             return super().__array_function__(func, types, args, kwargs)
+        if func is np.cov and len(args) == 1:
+            conversion = ConversionType(action=ConversionAction.SQUARE)
 
         input_units = self._get_function_input_units(args, conversion)
         output_units = self._get_function_output_units(input_units, conversion)
-- 
2.43.0


From bf1073b8ed29f32f1862491ad844d2d602c81ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 087/140] fix: keep the unit of the output if the inputs are
 not quantities

---
 src/pysimulators/quantities.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 1ec6b12..9d00f8a 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -516,10 +516,17 @@ class Quantity(np.ndarray):
         if conversion.output is ConversionOutput.NONE:
             return None
 
-        # the result is written in the output quantity, which gets its unit
+        # the result is written in the output quantity, which gets its unit,
+        # unless the inputs are not quantities
         out = kwargs.get('out')
         if isinstance(out, Quantity):
-            out._unit = output_units
+            if any(
+                isinstance(arg, Quantity)
+                or isinstance(arg, (list, tuple))
+                and any(isinstance(_, Quantity) for _ in arg)
+                for arg in args
+            ):
+                out._unit = output_units
             return out
 
         converted_outputs = self._convert_function_outputs(
@@ -851,13 +858,15 @@ class Quantity(np.ndarray):
         if result is None or result is NotImplemented:
             return result
 
-        # The results are written in the output quantities, which get their unit
+        # The results are written in the output quantities, which get their unit,
+        # unless the inputs are not quantities
         if out is not None:
             outs = out if isinstance(out, tuple) else (out,)
             results = result if isinstance(result, tuple) else (result,)
-            for o in outs:
-                if isinstance(o, Quantity):
-                    o._unit = output_unit or {}
+            if any(isinstance(input, Quantity) for input in inputs):
+                for o in outs:
+                    if isinstance(o, Quantity):
+                        o._unit = output_unit or {}
             results = tuple(
                 o if isinstance(o, Quantity) else r for o, r in zip(outs, results)
             )
-- 
2.43.0


From 7653bbb15ef853d02f8d8b9746e5bba350e494d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 088/140] fix: the product of two different angles is a solid
 angle

---
 src/pysimulators/quantities.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 9d00f8a..bf8725e 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1184,6 +1184,10 @@ class Quantity(np.ndarray):
             else:
                 ffast = (ffast.T * newfactor.T).T
 
+        # the product of two angles is a solid angle
+        if any((key, abs(val)) in units for key, val in fslow._unit.items()):
+            fslow = fslow.SI
+
         return fslow, ffast
 
     def __reduce__(self):
-- 
2.43.0


From 8082ce80119018c9fcee422f2fb2ff02233a3549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 089/140] fix: np.unstack of one-dimensional quantities

---
 src/pysimulators/quantities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index bf8725e..38ee4c3 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -725,7 +725,7 @@ class Quantity(np.ndarray):
                 )
                 or conversion.output is ConversionOutput.SEQUENCE
             ):
-                array = array.view(type(self))
+                array = np.asanyarray(array).view(type(self))
                 array.__array_finalize__(self)
                 array._unit = units
             outputs.append(array)
-- 
2.43.0


From 972cdc56b511d112304438748c98a20bc6100a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 090/140] fix: do not modify the unit of the input when an
 array of another class is created without copy

---
 src/pysimulators/datatypes.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index f77288a..29b9497 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -140,10 +140,8 @@ class FitsArray(Quantity):
 
         # get a new FitsArray instance (or a subclass if subok is True)
         result = Quantity.__new__(
-            cls, data, unit, derived_units, dtype, copy, order, True, ndmin
+            cls, data, unit, derived_units, dtype, copy, order, subok, ndmin
         )
-        if not subok and type(result) is not cls:
-            result = result.view(cls)
 
         # copy header attribute
         if header is not None:
@@ -653,12 +651,10 @@ class Map(FitsArray):
             dtype,
             copy,
             order,
-            True,
+            subok,
             ndmin,
             comm,
         )
-        if not subok and type(result) is not cls:
-            result = result.view(cls)
 
         if isinstance(data, str):
 
@@ -1055,12 +1051,10 @@ class Tod(FitsArray):
             dtype,
             copy,
             order,
-            True,
+            subok,
             ndmin,
             comm,
         )
-        if not subok and type(result) is not cls:
-            result = result.view(cls)
 
         # mask attribute
         if mask is np.ma.nomask:
-- 
2.43.0


From ae3f01a904e41d2fcc1b4229801b72aab138ce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:31 +0000
Subject: [PATCH 091/140] fix: copy.deepcopy of quantities copies their
 attributes

---
 src/pysimulators/quantities.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 38ee4c3..8bde43c 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -2,6 +2,7 @@
 # All rights reserved
 #
 
+import copy
 import re
 import sys
 from collections.abc import Callable, Iterable, Sequence
@@ -1190,6 +1191,11 @@ class Quantity(np.ndarray):
 
         return fslow, ffast
 
+    def __deepcopy__(self, memo):
+        result = super().__deepcopy__(memo)
+        result.__dict__.update(copy.deepcopy(self.__dict__, memo))
+        return result
+
     def __reduce__(self):
         state = list(np.ndarray.__reduce__(self))
         try:
-- 
2.43.0


From 97672aeca33252c554e8ce486ac205c5b8e4433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 092/140] fix: masks of the Tod returned by np.split

---
 src/pysimulators/quantities.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 8bde43c..cec9ae4 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -726,9 +726,7 @@ class Quantity(np.ndarray):
                 )
                 or conversion.output is ConversionOutput.SEQUENCE
             ):
-                array = np.asanyarray(array).view(type(self))
-                array.__array_finalize__(self)
-                array._unit = units
+                array = self._convert_function_outputs(array, units, conversion)
             outputs.append(array)
 
         # If input was a namedtuple, reconstruct it with the same type
-- 
2.43.0


From 0e86fd3ce8c8b8ff44996a0402cc97392289c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:38 +0000
Subject: [PATCH 093/140] fix: masks of the Tod that are joined, copied or
 selected and their median

---
 src/pysimulators/datatypes.py  | 25 +++++++++++++++++++++++++
 src/pysimulators/quantities.py |  5 ++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 29b9497..eab790e 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -37,6 +37,21 @@ from .wcsutils import create_fitsheader_for, has_wcs
 __all__ = ['FitsArray', 'Map', 'Tod']
 
 
+# the NumPy functions that do not handle the masks
+MASKED_FUNCTIONS = {
+    np.append: np.ma.append,
+    np.column_stack: np.ma.column_stack,
+    np.concatenate: np.ma.concatenate,
+    np.copy: np.ma.copy,
+    np.dstack: np.ma.dstack,
+    np.hstack: np.ma.hstack,
+    np.median: np.ma.median,
+    np.stack: np.ma.stack,
+    np.vstack: np.ma.vstack,
+    np.where: np.ma.where,
+}
+
+
 class FitsArray(Quantity):
     """
     FitsArray(filename|object, header=None, unit=None, derived_units=None,
@@ -1142,6 +1157,16 @@ class Tod(FitsArray):
             )
         return super()._view_function_input(array)
 
+    def _call_function(self, func, args, kwargs):
+        if any(
+            isinstance(arg, np.ma.MaskedArray)
+            or isinstance(arg, (list, tuple))
+            and any(isinstance(_, np.ma.MaskedArray) for _ in arg)
+            for arg in args
+        ):
+            func = MASKED_FUNCTIONS.get(func, func)
+        return super()._call_function(func, args, kwargs)
+
     def _convert_function_outputs(self, arrays, output_units, conversion):
         """Convert function outputs back to Tod, extracting mask from MaskedArray."""
         # Handle MaskedConstant (all values masked)
diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index cec9ae4..4c4ceb0 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -513,7 +513,7 @@ class Quantity(np.ndarray):
             args, kwargs, output_units, conversion
         )
         converted_inputs = self._view_function_inputs(converted_inputs, conversion)
-        outputs = func(*converted_inputs, **converted_kwargs)
+        outputs = self._call_function(func, converted_inputs, converted_kwargs)
         if conversion.output is ConversionOutput.NONE:
             return None
 
@@ -688,6 +688,9 @@ class Quantity(np.ndarray):
     def _view_function_input_iterable(cls, arrays: Iterable[Any]) -> list[Any]:
         return [cls._view_function_input(array) for array in arrays]
 
+    def _call_function(self, func, args, kwargs):
+        return func(*args, **kwargs)
+
     def _convert_function_outputs(
         self,
         arrays: Any,
-- 
2.43.0


From f89868f60027c0978049c81c12d534e2d4c1c695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 094/140] fix: read the attributes of the maps and TODs whose
 file name is a Path

---
 src/pysimulators/datatypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index eab790e..9b97e6a 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -671,7 +671,7 @@ class Map(FitsArray):
             comm,
         )
 
-        if isinstance(data, str):
+        if isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
@@ -1075,7 +1075,7 @@ class Tod(FitsArray):
         if mask is np.ma.nomask:
             mask = None
 
-        if mask is None and isinstance(data, str):
+        if mask is None and isinstance(data, (str, Path)):
 
             if comm is None:
                 comm = MPI.COMM_SELF
-- 
2.43.0


From 4a862ebde4f93882e29ef4e20e757c55e7c61f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 095/140] fix: do not save the unit of the header if the array
 has no unit

---
 src/pysimulators/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 9b97e6a..4ff9240 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -325,6 +325,8 @@ class FitsArray(Quantity):
         if comm is None:
             comm = MPI.COMM_SELF
 
+        header.remove('BUNIT', ignore_missing=True)
+        header.remove('QTTY____', ignore_missing=True)
         if len(self._unit) != 0:
             header['BUNIT'] = self.unit
 
-- 
2.43.0


From 873c223e0b943a9ebb870dbb00d3bf6373a42223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 096/140] fix: honour the header and derived units that are
 specified with a file name

---
 src/pysimulators/datatypes.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 4ff9240..8bba2d6 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -131,20 +131,23 @@ class FitsArray(Quantity):
             if comm is None:
                 comm = MPI.COMM_SELF
 
-            try:
-                buf = pyfits.open(data)['derived_units'].data
-                derived_units = pickle.loads(buf.data)
-            except (ImportError, KeyError):
-                pass
+            if derived_units is None:
+                try:
+                    buf = pyfits.open(data)['derived_units'].data
+                    derived_units = pickle.loads(buf.data)
+                except (ImportError, KeyError):
+                    pass
 
-            data, header = read_fits(data, None, comm)
+            data, header_file = read_fits(data, None, comm)
+            if header is None:
+                header = header_file
 
             copy = False
             if unit is None:
-                if 'BUNIT' in header:
-                    unit = header['BUNIT']
-                elif 'QTTY____' in header:
-                    unit = header['QTTY____']  # HCSS crap
+                if 'BUNIT' in header_file:
+                    unit = header_file['BUNIT']
+                elif 'QTTY____' in header_file:
+                    unit = header_file['QTTY____']  # HCSS crap
                     if unit == '1':
                         unit = ''
 
-- 
2.43.0


From 2e25a6830e852d8eff48c406d61b386052fd0221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:13 +0000
Subject: [PATCH 097/140] fix: arguments and data types of the astype method

---
 src/pysimulators/datatypes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 8bba2d6..1274e3d 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -189,7 +189,7 @@ class FitsArray(Quantity):
         else:
             super().__setattr__(name, value)
 
-    def astype(self, dtype):
+    def astype(self, dtype, *args, **keywords):
         """
         f.astype(t)
 
@@ -214,11 +214,12 @@ class FitsArray(Quantity):
         FitsArray([1 2 2], '')
 
         """
-        result = super().astype(dtype)
+        result = super().astype(dtype, *args, **keywords)
         if self._header is not None:
             typename = np.dtype(dtype).name
             result._header = self._header.copy()
-            result._header['BITPIX'] = pyfits.DTYPE2BITPIX[typename]
+            if typename in pyfits.DTYPE2BITPIX:
+                result._header['BITPIX'] = pyfits.DTYPE2BITPIX[typename]
         return result
 
     @classmethod
@@ -739,7 +740,7 @@ class Map(FitsArray):
             item.error = item.error[key]
         return item
 
-    def astype(self, dtype):
+    def astype(self, dtype, *args, **keywords):
         """
         m.astype(t)
 
@@ -767,7 +768,9 @@ class Map(FitsArray):
         array([0, 1, 1])
 
         """
-        result = super().astype(dtype)
+        result = super().astype(dtype, *args, **keywords)
+        if result is self:
+            return result
         if self.coverage is not None:
             result.coverage = self.coverage.astype(dtype)
         if self.error is not None:
-- 
2.43.0


From 4d90add4fdbfe489a439f8eefd127c605ed7830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 098/140] fix: masks of the transposed, flattened and squeezed
 TODs

---
 src/pysimulators/datatypes.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 1274e3d..eb18986 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1353,6 +1353,30 @@ class Tod(FitsArray):
         result.mask = mask
         return result
 
+    @property
+    def T(self):
+        return self.transpose()
+
+    def flatten(self, order='C'):
+        result = super().flatten(order)
+        result.mask = None if self.mask is None else self.mask.flatten(order)
+        return result
+
+    def squeeze(self, axis=None):
+        result = super().squeeze(axis)
+        result.mask = None if self.mask is None else self.mask.squeeze(axis)
+        return result
+
+    def swapaxes(self, axis1, axis2):
+        result = super().swapaxes(axis1, axis2)
+        result.mask = None if self.mask is None else self.mask.swapaxes(axis1, axis2)
+        return result
+
+    def transpose(self, *axes):
+        result = super().transpose(*axes)
+        result.mask = None if self.mask is None else self.mask.transpose(*axes)
+        return result
+
     def median(self, axis=None):
         #        result = Tod(median(self, mask=self.mask, axis=axis),
         result = Tod(
-- 
2.43.0


From 0fac2c354bd7befceabc1258a0834fd9f17c579f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 099/140] fix: the reduction methods of the TODs do not ignore
 the masks

---
 src/pysimulators/datatypes.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index eb18986..0ccda9d 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1377,6 +1377,28 @@ class Tod(FitsArray):
         result.mask = None if self.mask is None else self.mask.transpose(*axes)
         return result
 
+    # the masked samples are handled by the NumPy functions
+    def cumsum(self, axis=None, dtype=None, out=None):
+        return np.cumsum(self, axis=axis, dtype=dtype, out=out)
+
+    def max(self, axis=None, out=None, **keywords):
+        return np.max(self, axis=axis, out=out, **keywords)
+
+    def mean(self, axis=None, dtype=None, out=None, **keywords):
+        return np.mean(self, axis=axis, dtype=dtype, out=out, **keywords)
+
+    def min(self, axis=None, out=None, **keywords):
+        return np.min(self, axis=axis, out=out, **keywords)
+
+    def std(self, axis=None, dtype=None, out=None, ddof=0, **keywords):
+        return np.std(self, axis=axis, dtype=dtype, out=out, ddof=ddof, **keywords)
+
+    def sum(self, axis=None, dtype=None, out=None, **keywords):
+        return np.sum(self, axis=axis, dtype=dtype, out=out, **keywords)
+
+    def var(self, axis=None, dtype=None, out=None, ddof=0, **keywords):
+        return np.var(self, axis=axis, dtype=dtype, out=out, ddof=ddof, **keywords)
+
     def median(self, axis=None):
         #        result = Tod(median(self, mask=self.mask, axis=axis),
         result = Tod(
-- 
2.43.0


From 50d5756e8ffa7419a7df9005f3ef98322638dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 100/140] fix: coverage and error of the maps whose shape is
 changed

---
 src/pysimulators/datatypes.py | 51 +++++++++++++++++++++++++++++++++--
 1 file changed, 49 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 0ccda9d..01ef54b 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -726,10 +726,21 @@ class Map(FitsArray):
     def __array_function__(self, func, types, args, kwargs):
         if func is np.reshape:
             return args[0].reshape(*args[1:], **kwargs)
-        if func is np.ravel:
-            return args[0].ravel(*args[1:], **kwargs)
+        if func in (np.ravel, np.squeeze, np.swapaxes):
+            return getattr(args[0], func.__name__)(*args[1:], **kwargs)
+        if func is np.transpose and args:
+            axes = args[1] if len(args) > 1 else kwargs.get('axes')
+            return args[0].transpose(axes)
         return super().__array_function__(func, types, args, kwargs)
 
+    def _convert_function_outputs(self, arrays, output_units, conversion):
+        output = super()._convert_function_outputs(arrays, output_units, conversion)
+        if isinstance(output, Map) and output.shape != self.shape:
+            # these maps do not describe the output
+            output.coverage = None
+            output.error = None
+        return output
+
     def __getitem__(self, key):
         item = super().__getitem__(key)
         if not isinstance(item, Map):
@@ -988,6 +999,42 @@ class Map(FitsArray):
         result.error = error
         return result
 
+    @property
+    def T(self):
+        return self.transpose()
+
+    def flatten(self, order='C'):
+        result = super().flatten(order)
+        if self.coverage is not None:
+            result.coverage = self.coverage.flatten(order)
+        if self.error is not None:
+            result.error = self.error.flatten(order)
+        return result
+
+    def squeeze(self, axis=None):
+        result = super().squeeze(axis)
+        if self.coverage is not None:
+            result.coverage = self.coverage.squeeze(axis)
+        if self.error is not None:
+            result.error = self.error.squeeze(axis)
+        return result
+
+    def swapaxes(self, axis1, axis2):
+        result = super().swapaxes(axis1, axis2)
+        if self.coverage is not None:
+            result.coverage = self.coverage.swapaxes(axis1, axis2)
+        if self.error is not None:
+            result.error = self.error.swapaxes(axis1, axis2)
+        return result
+
+    def transpose(self, *axes):
+        result = super().transpose(*axes)
+        if self.coverage is not None:
+            result.coverage = self.coverage.transpose(*axes)
+        if self.error is not None:
+            result.error = self.error.transpose(*axes)
+        return result
+
 
 class Tod(FitsArray):
     """
-- 
2.43.0


From 6b7a5412d605f8a673f96db7aab279f5371738dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 101/140] fix: do not modify the mask of a TOD when one of its
 samples is indexed with an Ellipsis

---
 src/pysimulators/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 01ef54b..39e7cb7 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1264,7 +1264,7 @@ class Tod(FitsArray):
         if not isinstance(item, Tod):
             return item
         if item.mask is not None:
-            item.mask = item.mask[key]
+            item._mask = np.asarray(item.mask[key])
         return item
 
     @classmethod
-- 
2.43.0


From 70618f203228d8c6f0d4a9fe76fda12b47a09ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 102/140] fix: do not modify the mask of the operands when that
 of the result is set to a scalar

---
 src/pysimulators/datatypes.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 39e7cb7..363aa55 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1173,11 +1173,8 @@ class Tod(FitsArray):
 
         # handle the scalar case
         if mask.ndim == 0:
-            if self._mask is None:
-                func = np.zeros if mask == 0 else np.ones
-                self._mask = func(self.shape, dtype=np.bool_)
-            else:
-                self._mask[:] = mask
+            # the current mask can be that of another Tod
+            self._mask = np.full(self.shape, mask)
             return
 
         # check shape compatibility
-- 
2.43.0


From 4f2c86561581e5bb90c2e0377af68c6acf77ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:11 +0000
Subject: [PATCH 103/140] fix: mask of the reductions of the TODs whose samples
 are all masked

---
 src/pysimulators/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 363aa55..53a82b3 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1223,8 +1223,9 @@ class Tod(FitsArray):
         """Convert function outputs back to Tod, extracting mask from MaskedArray."""
         # Handle MaskedConstant (all values masked)
         if isinstance(arrays, np.ma.core.MaskedConstant):
-            output = type(self)(np.nan, mask=True)
+            output = type(self)(np.nan)
             output.__array_finalize__(self)
+            output._mask = np.array(True)
             output._unit = output_units
             return output
 
-- 
2.43.0


From 816d76afea8da5e040854d9e87431ce680488322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:04 +0000
Subject: [PATCH 104/140] fix: keep the mask of the median of the TODs

---
 src/pysimulators/datatypes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 53a82b3..f056e51 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -1454,7 +1454,6 @@ class Tod(FitsArray):
             dtype=self.dtype,
             copy=None,
         )
-        result.mask = None
         #        # median might introduce NaN from the mask, let's remove them
         #        tmf.processing.filter_nonfinite_mask_inplace(result.ravel(),
         #            result.mask.view(np.int8).ravel())
-- 
2.43.0


From 33284826f8e5a84dd232b7af9e89b76a328cf3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 105/140] fix: do not swap the indices and values of the
 MadMap1 pointing matrices

---
 src/pysimulators/interfaces/madmap1.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6734d81..6f6ad05 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -196,7 +196,8 @@ class MadMap1Observation(Acquisition):
                 p = PointingMatrix.empty(
                     (ndetectors, b.n, npps), self.info.npixels_in_map
                 )
-                p[...] = data['matrix']
+                p['index'] = data['matrix']['index']
+                p['value'] = data['matrix']['value']
                 pmatrix.append(p)
         return tod, pmatrix
 
-- 
2.43.0


From 754f88ba18c4962cf135f0aa197bd121b0bea2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 106/140] fix: apply to each MadMap1 block its own filters

---
 src/pysimulators/interfaces/madmap1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 6f6ad05..825f0b3 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -125,11 +125,11 @@ class MadMap1Observation(Acquisition):
         ops = [
             SymmetricBandToeplitzOperator(
                 (len(self.instrument), b.n),
-                self._filters,
+                filters,
                 fftw_flag=fftw_flag,
                 nthreads=nthreads,
             )
-            for b in self.block
+            for b, filters in zip(self.block, self._filters)
         ]
         return BlockDiagonalOperator(ops, axisin=-1)
 
-- 
2.43.0


From b9dc007ae54de4670586e8bdc0080d645c213a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 107/140] fix: find the MadMap1 filters whose path has special
 characters

---
 src/pysimulators/interfaces/madmap1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/interfaces/madmap1.py b/src/pysimulators/interfaces/madmap1.py
index 825f0b3..93d300b 100644
--- a/src/pysimulators/interfaces/madmap1.py
+++ b/src/pysimulators/interfaces/madmap1.py
@@ -212,7 +212,7 @@ def _read_one_filter(filename, bigendian=False):
 def _read_filters(filename, bigendian=False):
     if isinstance(filename, str):
         filename = Path(filename)
-    regex = re.compile(str(filename) + r'\.[0-9]+$')
+    regex = re.compile(re.escape(str(filename)) + r'\.[0-9]+$')
     files = sorted(
         (_ for _ in filename.parent.iterdir() if regex.match(str(_))),
         key=lambda f: int(f.suffix[1:]),
-- 
2.43.0


From 5d037333c2e4845003afc67f9bfc49fea3ca4e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 108/140] fix: do not combine the local headers whose
 coordinate types differ

---
 src/pysimulators/mpiutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 13279a6..1516c2c 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -53,7 +53,7 @@ def gather_fitsheader_if_needed(header, comm=MPI.COMM_WORLD):
             'The input FITS header does not define a world coordi' 'nate system.'
         )
     naxis = header['NAXIS']
-    required_same = ['CRVAL1', 'CRVAL2', 'CRTYPE1', 'CRTYPE2', 'CDELT1', 'CDELT2']
+    required_same = ['CRVAL1', 'CRVAL2', 'CTYPE1', 'CTYPE2', 'CDELT1', 'CDELT2']
     required_same += ['NAXIS' + str(i + 1) for i in range(naxis - 1)]
     required_same += ['CRPIX' + str(i + 1) for i in range(naxis - 1)]
     headers = comm.allgather(header)
-- 
2.43.0


From bf2bc41ee83b9be6e538afabf8b84df7cdaf7f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 109/140] fix: multiply the sparse matrices by vectors that are
 not in native byte order

---
 src/pysimulators/sparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 235bb97..5fb5533 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -114,6 +114,8 @@ class _FSMatrix:
 
     def _matvec(self, v, out, nmax):
         v = np.asarray(v).ravel()
+        if not v.dtype.isnative:
+            v = v.astype(v.dtype.newbyteorder('='))
         self._validatein(v.shape)
         if out is None:
             out = np.zeros(
-- 
2.43.0


From fb1cb7c4771cd03dd168c208c7294f568c8177bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 110/140] fix: the result of the FSC block products varies from
 call to call

The blocks were accumulated by several threads, one at a time and in an
undefined order.
---
 src/flib/module_operators.f90.j2 | 24 ------------------------
 1 file changed, 24 deletions(-)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index e6cc7f9..cc1a0c9 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -20,18 +20,14 @@ contains
         integer({{ combo.ikind }}) :: k
 
         call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
-        !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
                 if (k < 0) cycle
-                !$omp critical
                 output(1,k) = output(1,k) + matrix(j,i)%value(1,1) * input(1,i)
                 output(2,k) = output(2,k) + matrix(j,i)%value(2,1) * input(1,i)
-                !$omp end critical
             end do
         end do
-        !$omp end parallel do
     end subroutine
 
     subroutine fsc_block_1_3_matvec_i{{ combo.isize }}_r{{ combo.rsize }}_v{{ combo.vsize }}(data, input, output, ninput, noutput, ncolmax)
@@ -44,19 +40,15 @@ contains
         integer({{ combo.ikind }}) :: k
 
         call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
-        !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
                 if (k < 0) cycle
-                !$omp critical
                 output(1,k) = output(1,k) + matrix(j,i)%value(1,1) * input(1,i)
                 output(2,k) = output(2,k) + matrix(j,i)%value(2,1) * input(1,i)
                 output(3,k) = output(3,k) + matrix(j,i)%value(3,1) * input(1,i)
-                !$omp end critical
             end do
         end do
-        !$omp end parallel do
     end subroutine
 
     subroutine fsc_block_2_1_matvec_i{{ combo.isize }}_r{{ combo.rsize }}_v{{ combo.vsize }}(data, input, output, ninput, noutput, ncolmax)
@@ -92,20 +84,16 @@ contains
         integer({{ combo.ikind }}) :: k
 
         call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
-        !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
                 if (k < 0) cycle
-                !$omp critical
                 output(1,k) = output(1,k) + matrix(j,i)%value(1,1) * input(1,i)&
                                           + matrix(j,i)%value(1,2) * input(2,i)
                 output(2,k) = output(2,k) + matrix(j,i)%value(2,1) * input(1,i)&
                                           + matrix(j,i)%value(2,2) * input(2,i)
-                !$omp end critical
             end do
         end do
-        !$omp end parallel do
     end subroutine
 
     subroutine fsc_block_2_3_matvec_i{{ combo.isize }}_r{{ combo.rsize }}_v{{ combo.vsize }}(data, input, output, ninput, noutput, ncolmax)
@@ -118,22 +106,18 @@ contains
         integer({{ combo.ikind }}) :: k
 
         call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
-        !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
                 if (k < 0) cycle
-                !$omp critical
                 output(1,k) = output(1,k) + matrix(j,i)%value(1,1) * input(1,i)&
                                           + matrix(j,i)%value(1,2) * input(2,i)
                 output(2,k) = output(2,k) + matrix(j,i)%value(2,1) * input(1,i)&
                                           + matrix(j,i)%value(2,2) * input(2,i)
                 output(3,k) = output(3,k) + matrix(j,i)%value(3,1) * input(1,i)&
                                           + matrix(j,i)%value(3,2) * input(2,i)
-                !$omp end critical
             end do
         end do
-        !$omp end parallel do
     end subroutine
 
     subroutine fsc_block_3_1_matvec_i{{ combo.isize }}_r{{ combo.rsize }}_v{{ combo.vsize }}(data, input, output, ninput, noutput, ncolmax)
@@ -170,22 +154,18 @@ contains
         integer({{ combo.ikind }}) :: k
 
         call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
-        !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
                 if (k < 0) cycle
-                !$omp critical
                 output(1,k) = output(1,k) + matrix(j,i)%value(1,1) * input(1,i)&
                                           + matrix(j,i)%value(1,2) * input(2,i)&
                                           + matrix(j,i)%value(1,3) * input(3,i)
                 output(2,k) = output(2,k) + matrix(j,i)%value(2,1) * input(1,i)&
                                           + matrix(j,i)%value(2,2) * input(2,i)&
                                           + matrix(j,i)%value(2,3) * input(3,i)
-                !$omp end critical
             end do
         end do
-        !$omp end parallel do
     end subroutine
 
     subroutine fsc_block_3_3_matvec_i{{ combo.isize }}_r{{ combo.rsize }}_v{{ combo.vsize }}(data, input, output, ninput, noutput, ncolmax)
@@ -198,12 +178,10 @@ contains
         integer({{ combo.ikind }}) :: k
 
         call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
-        !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
                 if (k < 0) cycle
-                !$omp critical
                 output(1,k) = output(1,k) + matrix(j,i)%value(1,1) * input(1,i)&
                                           + matrix(j,i)%value(1,2) * input(2,i)&
                                           + matrix(j,i)%value(1,3) * input(3,i)
@@ -213,10 +191,8 @@ contains
                 output(3,k) = output(3,k) + matrix(j,i)%value(3,1) * input(1,i)&
                                           + matrix(j,i)%value(3,2) * input(2,i)&
                                           + matrix(j,i)%value(3,3) * input(3,i)
-                !$omp end critical
             end do
         end do
-        !$omp end parallel do
     end subroutine
 
     subroutine fsr_block_1_2_matvec_i{{ combo.isize }}_r{{ combo.rsize }}_v{{ combo.vsize }}(data, input, output, ninput, noutput, ncolmax)
-- 
2.43.0


From 460b6d5d19a9d2c12a36da17485e7492dbc60b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 111/140] fix: projection of the samples that have no pointing
 matrix elements

---
 src/pysimulators/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 6a25078..1059d41 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -637,6 +637,7 @@ class ProjectionBaseOperator(Operator):
     def direct(self, input, output):
         matrix = self.matrix
         if matrix.size == 0:
+            output[...] = 0
             return
         if not output.flags.contiguous:
             if pyoperators.config.VERBOSE:
-- 
2.43.0


From 8f493fda8da97e35f3f8e9346375aa3ae56ca7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 112/140] fix: back projections written to non-contiguous
 outputs were lost

---
 src/pysimulators/operators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 1059d41..42ae2a9 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -748,6 +748,7 @@ class ProjectionBaseOperator(Operator):
                 out[0].unit = x.unit
         if matrix.size == 0:
             return out
+        pTx, pT1 = (np.ascontiguousarray(_) for _ in out)
         if mask is None:
             mask = getattr(x, 'mask', None)
         if mask is not None:
@@ -755,8 +756,8 @@ class ProjectionBaseOperator(Operator):
                 matrix.ravel().view(np.int64),
                 x.ravel(),
                 np.asarray(mask, bool).ravel().view(np.int8),
-                out[0].ravel(),
-                out[1].ravel(),
+                pTx.ravel(),
+                pT1.ravel(),
                 matrix.shape[-1],
                 matrix.size // matrix.shape[-1],
             )
@@ -764,11 +765,14 @@ class ProjectionBaseOperator(Operator):
             flib.pointingmatrix.backprojection_weight(
                 matrix.ravel().view(np.int64),
                 x.ravel(),
-                out[0].ravel(),
-                out[1].ravel(),
+                pTx.ravel(),
+                pT1.ravel(),
                 matrix.shape[-1],
                 matrix.size // matrix.shape[-1],
             )
+        for out_, result in zip(out, (pTx, pT1)):
+            if not out_.flags.c_contiguous:
+                out_[...] = result
         return out
 
     def intersects(self, fitscoords, axis=None, f=None):
-- 
2.43.0


From 96fd6f6ebae42767df5e8635b073011ec31918c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:57 +0000
Subject: [PATCH 113/140] fix: packing of the non-contiguous pointing matrices

---
 src/pysimulators/operators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 42ae2a9..f69f1c1 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -576,12 +576,15 @@ class PointingMatrix(FitsArray):
         """
         if self.size == 0:
             return
+        matrix = np.ascontiguousarray(self)
         flib.pointingmatrix.pack(
-            self.ravel().view(np.int64),
+            matrix.ravel().view(np.int64),
             mask.view(np.int8).T,
             self.shape[-1],
             self.size // self.shape[-1],
         )
+        if not self.flags.c_contiguous:
+            self[...] = matrix
         self.shape_input = tointtuple(mask.size - np.sum(mask))
 
     def get_mask(self, out=None):
-- 
2.43.0


From 75e4ba4f577a25af683771c4237e8f532a06b0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 114/140] fix: input shape of the packed pointing matrices
 without elements

---
 src/pysimulators/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f69f1c1..b9f3680 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -574,7 +574,9 @@ class PointingMatrix(FitsArray):
         discarding masked or unobserved pixels.
 
         """
+        shape_input = tointtuple(mask.size - np.sum(mask))
         if self.size == 0:
+            self.shape_input = shape_input
             return
         matrix = np.ascontiguousarray(self)
         flib.pointingmatrix.pack(
@@ -585,7 +587,7 @@ class PointingMatrix(FitsArray):
         )
         if not self.flags.c_contiguous:
             self[...] = matrix
-        self.shape_input = tointtuple(mask.size - np.sum(mask))
+        self.shape_input = shape_input
 
     def get_mask(self, out=None):
         if out is None:
-- 
2.43.0


From 127e0e2ba712007e780319cfed3d6e53961adcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 115/140] fix: accumulate the observations of the acquisitions
 that have several blocks

---
 src/pysimulators/acquisitions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/acquisitions.py b/src/pysimulators/acquisitions.py
index e80a284..8930de1 100644
--- a/src/pysimulators/acquisitions.py
+++ b/src/pysimulators/acquisitions.py
@@ -229,7 +229,10 @@ class Acquisition:
 
         """
         H = self.get_operator()
-        out = H(x, out, operation=operation)
+        if operation is operation_assignment or H.flags.update_output:
+            out = H(x, out, operation=operation)
+        else:
+            out = operation(out, H(x))
         if not noiseless:
             self.get_noise(out, operation=operator.iadd)
         return out
-- 
2.43.0


From 69093410d379234da7f16d8e9cb2a6389b6b184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:22 +0000
Subject: [PATCH 116/140] fix: explicit shapes of the operators partitioned
 along a new axis

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index b9f3680..3da549f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -200,7 +200,7 @@ def block_diagonal(*partition_args, **keywords):
                 if a is not None:
                     s[a] = p
                 else:
-                    np.delete(s, na)
+                    del s[na]
                 return tuple(s)
 
             if 'shapein' in keywords:
-- 
2.43.0


From 0b63051f18e312dcd68cd39957371b0773159de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:30 +0000
Subject: [PATCH 117/140] fix: multiples of the equatorial-galactic conversions

---
 src/pysimulators/operators.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 3da549f..d388000 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1257,6 +1257,15 @@ class _CartesianEquatorialGalactic(DenseOperator):
         ]
     )[0]
 
+    def __init__(self, data, **keywords):
+        DenseOperator.__init__(self, data, **keywords)
+        # a multiple of the rotation is not a conversion between referentials
+        self.set_rule(
+            ('.', HomothetyOperator),
+            lambda s, o: DenseOperator(o.data * s.data),
+            CompositionOperator,
+        )
+
 
 class CartesianEquatorial2GalacticOperator(_CartesianEquatorialGalactic):
     """
-- 
2.43.0


From a63cbed06bf7aad0123d1da5380495bbcc9e757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:07 +0000
Subject: [PATCH 118/140] fix: compositions of the roll operators without
 explicit shapes

---
 src/pysimulators/operators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index d388000..d7c2223 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1223,6 +1223,7 @@ class ProjectionOperator(SparseOperator):
 
 
 @orthogonal
+@square
 @inplace
 class RollOperator(Operator):
     def __init__(self, n, axis=None, **keywords):
-- 
2.43.0


From 2062938c9ad85e295182999f89a33e9fd86acfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 119/140] fix: WCS transforms to outputs that are not
 C-contiguous

---
 src/pysimulators/wcsutils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index f5bf924..56c83c5 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -712,9 +712,11 @@ class WCSToPixelOperator(_WCSOperator):
 
     def direct(self, input, output, operation=operation_assignment):
         if ASTROPY_WCS_NDIM_IS_2:
-            input = input.reshape((-1, 2))
-            output = output.reshape((-1, 2))
-        operation(output, self.wcs.wcs_world2pix(input, self.origin))
+            output_ = self.wcs.wcs_world2pix(input.reshape((-1, 2)), self.origin)
+            output_ = output_.reshape(output.shape)
+        else:
+            output_ = self.wcs.wcs_world2pix(input, self.origin)
+        operation(output, output_)
 
 
 class WCSToWorldOperator(_WCSOperator):
@@ -740,6 +742,8 @@ class WCSToWorldOperator(_WCSOperator):
 
     def direct(self, input, output, operation=operation_assignment):
         if ASTROPY_WCS_NDIM_IS_2:
-            input = input.reshape((-1, 2))
-            output = output.reshape((-1, 2))
-        operation(output, self.wcs.wcs_pix2world(input, self.origin))
+            output_ = self.wcs.wcs_pix2world(input.reshape((-1, 2)), self.origin)
+            output_ = output_.reshape(output.shape)
+        else:
+            output_ = self.wcs.wcs_pix2world(input, self.origin)
+        operation(output, output_)
-- 
2.43.0


From ea5660f593c88b0186b28ce76d0457d0a5b7aec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:08 +0000
Subject: [PATCH 120/140] fix: multiples of the equatorial-horizontal
 conversions

---
 src/pysimulators/operators.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index d7c2223..f06c5bf 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1387,6 +1387,12 @@ class _CartesianEquatorialHorizontal(DenseBlockDiagonalOperator):
             keywords.get('flags', {}), orthogonal=True
         )
         DenseBlockDiagonalOperator.__init__(self, m, **keywords)
+        # a multiple of the rotation is not a conversion between referentials
+        self.set_rule(
+            ('.', HomothetyOperator),
+            lambda s, o: DenseBlockDiagonalOperator(o.data * s.data),
+            CompositionOperator,
+        )
 
     @staticmethod
     def _jd2gst(jd):
-- 
2.43.0


From b0db87d8ba93c122bb0cc0df01195f4a8f0f0d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 121/140] fix: truncated exponential convolution of arrays that
 are not contiguous

---
 src/pysimulators/operators.py | 40 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index f06c5bf..82d9662 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -367,27 +367,16 @@ class ConvolutionTruncatedExponentialOperator(Operator):
         Operator.__init__(self, dtype=dtype, **keywords)
 
     def direct(self, input, output):
-        input_, nd, nt, int_all = _ravel_strided(input)
-        output_, nd, nt, ont_all = _ravel_strided(output)
-        f = f'trexp_direct_r{input.dtype.itemsize}'
-        try:
-            getattr(flib.operators, f)(
-                input_,
-                nd,
-                nt,
-                int_all,
-                output_,
-                nt,
-                ont_all,
-                self.tau.astype(input.dtype),
-            )
-        except AttributeError:
-            raise NotImplementedError()
+        self._convolve('direct', input, output)
 
     def transpose(self, input, output):
-        input_, nd, nt, int_all = _ravel_strided(input)
-        output_, nd, nt, ont_all = _ravel_strided(output)
-        f = f'trexp_transpose_r{input.dtype.itemsize}'
+        self._convolve('transpose', input, output)
+
+    def _convolve(self, method, input, output):
+        input_, nd, nt, int_all = _ravel_strided(_as_contiguous_samples(input))
+        buffer = _as_contiguous_samples(output)
+        output_, nd, nt, ont_all = _ravel_strided(buffer)
+        f = f'trexp_{method}_r{input.dtype.itemsize}'
         try:
             getattr(flib.operators, f)(
                 input_,
@@ -401,6 +390,8 @@ class ConvolutionTruncatedExponentialOperator(Operator):
             )
         except AttributeError:
             raise NotImplementedError()
+        if buffer is not output:
+            output[...] = buffer
 
     def validatein(self, shape):
         if self.tau.size == 1:
@@ -412,6 +403,17 @@ class ConvolutionTruncatedExponentialOperator(Operator):
             )
 
 
+def _as_contiguous_samples(x):
+    """Copy the arrays which are not C-contiguous rows separated by a stride."""
+    if x.ndim not in (1, 2) or x.size == 0:
+        return x
+    if x.shape[-1] > 1 and x.strides[-1] != x.itemsize or (
+        x.ndim == 2 and x.shape[0] > 1 and x.strides[0] < x.shape[1] * x.itemsize
+    ):
+        return np.ascontiguousarray(x)
+    return x
+
+
 def _ravel_strided(x):
     if x.ndim == 1:
         return x, 1, x.size, x.size
-- 
2.43.0


From 1dfce91b86ce134b321f9d2f579794c812fc025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:59 +0000
Subject: [PATCH 122/140] fix: dense representation of the sparse operators
 broadcast along several dimensions

---
 src/pysimulators/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/sparse.py b/src/pysimulators/sparse.py
index 5fb5533..2ce5f86 100644
--- a/src/pysimulators/sparse.py
+++ b/src/pysimulators/sparse.py
@@ -859,7 +859,7 @@ class SparseOperator(SparseBase):
             )
         extra_size = product(shapein) // self.matrix.shape[1]
         if self.shapein is None and extra_size > 1:
-            shapein = shapein[:-1]
+            shapein = self.broadcastable_shapein
             broadcasting = True
         else:
             broadcasting = False
-- 
2.43.0


From 0c649d8860ff079bb0f5fe9872f06a7e5c84bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 123/140] fix: truncated exponential convolution of read-only
 arrays

---
 src/pysimulators/operators.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 82d9662..95fc2a7 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -410,8 +410,9 @@ def _as_contiguous_samples(x):
     if x.shape[-1] > 1 and x.strides[-1] != x.itemsize or (
         x.ndim == 2 and x.shape[0] > 1 and x.strides[0] < x.shape[1] * x.itemsize
     ):
-        return np.ascontiguousarray(x)
-    return x
+        x = np.ascontiguousarray(x)
+    # the wrapped routines only accept writeable arrays
+    return x if x.flags.writeable else x.copy()
 
 
 def _ravel_strided(x):
-- 
2.43.0


From b9a45c678a8b1969852770289039cde105c820a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 124/140] fix: parallel writing of unsigned integers and of
 data whose type is not that of the header

The values of the unsigned integers were written without the offset that the
FITS standard requires, hence read as negative, and the BITPIX of the given
header was kept even when the data were of another type.
---
 src/pysimulators/mpiutils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pysimulators/mpiutils.py b/src/pysimulators/mpiutils.py
index 1516c2c..f73e177 100644
--- a/src/pysimulators/mpiutils.py
+++ b/src/pysimulators/mpiutils.py
@@ -284,6 +284,8 @@ def write_fits(filename, data, header, extension, extname, comm):
 
     # write FITS header
     if comm.rank == 0:
+        hdutype = pyfits.ImageHDU if extension else pyfits.PrimaryHDU
+        header = hdutype(data, header).header
         header['NAXIS' + str(ndim)] = nglobal
         shdu = pyfits.StreamingHDU(filename.as_posix(), header)
         data_loc = shdu._data_offset
@@ -300,6 +302,11 @@ def write_fits(filename, data, header, extension, extname, comm):
 
     # collectively write data
     if comm.rank < rank_nowork:
+        if data.dtype == np.int8 or data.dtype.kind == 'u' and data.dtype.itemsize > 1:
+            # FITS stores these integers with an offset of half of their range
+            utype = np.dtype(f'u{data.dtype.itemsize}')
+            data = np.ascontiguousarray(data, data.dtype.newbyteorder('='))
+            data = data.view(utype) ^ utype.type(1 << 8 * utype.itemsize - 1)
         # mpi4py 1.2.2: pb with viewing data as big endian KeyError '>d'
         data = np.ascontiguousarray(data, data.dtype.newbyteorder('>'))
         data = data.view(data.dtype.newbyteorder('='))
-- 
2.43.0


From 70e2b113d91880989b8874e9c448192938cf4245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:11 +0000
Subject: [PATCH 125/140] fix: unit of the squared distances

The values returned by distance2 for an inter-pixel distance in arcsec were in
arcsec instead of arcsec^2, so aperture_circular refused a diameter with a unit.
---
 src/pysimulators/datautils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datautils.py b/src/pysimulators/datautils.py
index 721cabe..55caa48 100644
--- a/src/pysimulators/datautils.py
+++ b/src/pysimulators/datautils.py
@@ -189,8 +189,8 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
         calculated, assuming a zero-based coordinate indexing. Default value
         is the array center.
     scale : float or array-like, optional
-        Inter-pixel distance (dx, dy, ...). If scale is a Quantity, its
-        unit will be carried over to the returned distance array
+        Inter-pixel distance (dx, dy, ...). If scale is a Quantity, the square
+        of its unit will be carried over to the returned distance array
     dtype : np.dtype, optional
         The output data type.
 
@@ -206,6 +206,8 @@ def distance2(shape, center=None, scale=1, dtype=float, out=None):
     shape = tointtuple(shape)
     dtype = np.dtype(dtype)
     unit = getattr(scale, '_unit', None)
+    if unit is not None:
+        unit = {k: 2 * v for k, v in unit.items()}
     if out is None:
         out = np.empty(shape, dtype)
     ndim = out.ndim
-- 
2.43.0


From 538dc230d256c0b0f0daa849e412e1e1c0a0db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 126/140] fix: emissivity slopes of BlackBodyOperator given as
 an array

As documented, the slope can be an array, but it was converted to a scalar.
---
 src/pysimulators/operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 95fc2a7..cd2cdcf 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -316,7 +316,9 @@ class BlackBodyOperator(DiagonalOperator):
             nu0 = c / np.asarray(wavelength0, float)
         if nu.ndim != 0:
             raise TypeError('The operating frequency or wavelength is not a sc' 'alar.')
-        beta = float(beta)
+        beta = np.asarray(beta, float)
+        if beta.ndim == 0:
+            beta = float(beta)
         data = (
             (nu / nu0) ** (3 + beta)
             * np.expm1(h * nu0 / (k * temperature))
-- 
2.43.0


From 9c010306a1e7a207bb61c4722dbbf94f53b0024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:11 +0000
Subject: [PATCH 127/140] fix: get_center modified the coordinates of the
 sampling

The coordinates of the masked samples were set to zero in the array that the
user had assigned to the sampling.
---
 src/pysimulators/packedtables/samplings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/packedtables/samplings.py b/src/pysimulators/packedtables/samplings.py
index 98985e7..0de304f 100644
--- a/src/pysimulators/packedtables/samplings.py
+++ b/src/pysimulators/packedtables/samplings.py
@@ -167,7 +167,7 @@ class SamplingSpherical(Sampling):
             coords = self.cartesian
             if not isscalarlike(self.masked):
                 valid = 1 - self.masked
-                coords *= valid[:, None]
+                coords = coords * valid[:, None]
                 n = np.sum(valid)
             else:
                 n = len(self)
-- 
2.43.0


From 909d4fdaf8b93b8e90af48ae5a1f2cc4a34023b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:31 +0000
Subject: [PATCH 128/140] fix: units of the coordinates in the pixel area of
 the maps

CUNITn was read but not used: the increments were assumed to be in degrees.
---
 src/flib/module_wcs.f90 | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/flib/module_wcs.f90 b/src/flib/module_wcs.f90
index a9f399e..75f0036 100644
--- a/src/flib/module_wcs.f90
+++ b/src/flib/module_wcs.f90
@@ -43,7 +43,8 @@ contains
         type(Astrometry)          :: myastr
         logical                   :: found
         integer                   :: has_cd
-        real(p)                   :: crota2, cdelt1, cdelt2
+        integer                   :: i
+        real(p)                   :: crota2, cdelt1, cdelt2, factor
         character(len=FLEN_VALUE) :: buffer
 
         has_cd = 0
@@ -141,6 +142,24 @@ contains
 
         end if
 
+        ! the coordinates are handled in degrees
+        do i = 1, 2
+            select case (myastr%cunit(i))
+                case ('arcmin')
+                    factor = 1._p / 60
+                case ('arcsec')
+                    factor = 1._p / 3600
+                case ('mas')
+                    factor = 1._p / 3600000
+                case ('rad')
+                    factor = RAD2DEG
+                case default
+                    factor = 1
+            end select
+            myastr%cd(i,:)  = myastr%cd(i,:)  * factor
+            myastr%crval(i) = myastr%crval(i) * factor
+        end do
+
         if (myastr%ctype(1) == 'RA---TAN' .and. myastr%ctype(2) == 'DEC--TAN') then
             call init_gnomonic(myastr)
         else
-- 
2.43.0


From 4421d0da77d8bff47984b7da5a66f3b2504b3dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 129/140] fix: truncated exponential convolution of the views
 in packed records

The rows of such views are not separated by a multiple of the item size:
wrong samples were used, and wrong ones written.
---
 src/pysimulators/operators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index cd2cdcf..2eb2eb6 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -413,6 +413,9 @@ def _as_contiguous_samples(x):
         x.ndim == 2 and x.shape[0] > 1 and x.strides[0] < x.shape[1] * x.itemsize
     ):
         x = np.ascontiguousarray(x)
+    if not x.flags.aligned or x.ndim == 2 and x.strides[0] % x.itemsize != 0:
+        # a view in the packed records of a structured array
+        x = x.copy()
     # the wrapped routines only accept writeable arrays
     return x if x.flags.writeable else x.copy()
 
-- 
2.43.0


From 87c96c51fb4d171bd6fc0f3733c021f807de09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:29 +0000
Subject: [PATCH 130/140] fix: selections by integers of any type

Only the native 64-bit integers were accepted to select the components of a
table.
---
 src/pysimulators/packedtables/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/packedtables/core.py b/src/pysimulators/packedtables/core.py
index e6c3cd8..f1c5c08 100644
--- a/src/pysimulators/packedtables/core.py
+++ b/src/pysimulators/packedtables/core.py
@@ -713,9 +713,10 @@ class PackedTable:
         elif not isinstance(selection, np.ndarray):
             raise TypeError('Invalid selection.')
 
-        if selection.dtype not in (bool, int):
+        if selection.dtype.kind not in 'biu':
             raise TypeError('Invalid selection.')
-        if selection.dtype == int:
+        if selection.dtype != bool:
+            selection = selection.astype(int, copy=False)
             if selection.ndim != 1:
                 raise ValueError('Index selection is not 1-dimensional.')
             n = product(shape)
-- 
2.43.0


From f4cdd656e4003250cca359e5c21e31dd8fa664a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 131/140] fix: declared shape of the block matrices stored by
 column

---
 src/flib/module_operators.f90.j2 | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/flib/module_operators.f90.j2 b/src/flib/module_operators.f90.j2
index cc1a0c9..e4a47c5 100644
--- a/src/flib/module_operators.f90.j2
+++ b/src/flib/module_operators.f90.j2
@@ -19,7 +19,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
@@ -39,7 +39,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
@@ -60,7 +60,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -83,7 +83,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
@@ -105,7 +105,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
@@ -129,7 +129,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         !$omp parallel do private(k)
         do i = 1, ninput
             do j = 1, ncolmax
@@ -153,7 +153,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
@@ -177,7 +177,7 @@ contains
         integer(int64) :: i, j
         integer({{ combo.ikind }}) :: k
 
-        call c_f_pointer(data, matrix, shape=[ncolmax, noutput])
+        call c_f_pointer(data, matrix, shape=[ncolmax, ninput])
         do i = 1, ninput
             do j = 1, ncolmax
                 k = matrix(j,i)%index
-- 
2.43.0


From 0bdc7fa5c57275b1eab9f1d599be0cbfce80b61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 132/140] fix: refuse inputs of the boresight rotation that are
 not pairs

---
 src/pysimulators/wcsutils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pysimulators/wcsutils.py b/src/pysimulators/wcsutils.py
index 56c83c5..f44c696 100644
--- a/src/pysimulators/wcsutils.py
+++ b/src/pysimulators/wcsutils.py
@@ -587,6 +587,10 @@ class RotationBoresightEquatorialOperator(Operator):
     def reshapein(self, shape):
         return self.pointing.shape + shape
 
+    def validatein(self, shape):
+        if len(shape) == 0 or shape[-1] != 2:
+            raise ValueError(f"Invalid dimensions '{shape}'. The last one should be 2.")
+
 
 @real
 @square
-- 
2.43.0


From fc876a7e733e84d74c49ce31d8ade8d6e3f11707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 133/140] fix: truncated exponential convolution of empty
 arrays

---
 src/pysimulators/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 2eb2eb6..814d96d 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -375,6 +375,8 @@ class ConvolutionTruncatedExponentialOperator(Operator):
         self._convolve('transpose', input, output)
 
     def _convolve(self, method, input, output):
+        if input.size == 0:
+            return
         input_, nd, nt, int_all = _ravel_strided(_as_contiguous_samples(input))
         buffer = _as_contiguous_samples(output)
         output_, nd, nt, ont_all = _ravel_strided(buffer)
-- 
2.43.0


From c80c861944a31e7ae65cecd2c28d178647d68b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 134/140] fix: check the size of the mask of
 PointingMatrix.pack

---
 src/pysimulators/operators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 814d96d..9f3dd92 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -584,6 +584,11 @@ class PointingMatrix(FitsArray):
         discarding masked or unobserved pixels.
 
         """
+        if mask.size != product(self.shape_input):
+            raise ValueError(
+                f"The mask shape '{mask.shape}' is incompatible with that of the "
+                f"input '{self.shape_input}'."
+            )
         shape_input = tointtuple(mask.size - np.sum(mask))
         if self.size == 0:
             self.shape_input = shape_input
-- 
2.43.0


From 8f2cda5fa99b6e878045d4165d845a661eb0df3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 135/140] fix: check the size of the outputs of get_pTx_pT1

---
 src/pysimulators/operators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 9f3dd92..8f1b99f 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -766,6 +766,8 @@ class ProjectionBaseOperator(Operator):
             self.set_attrin(out[0].__dict__)
             if hasattr(x, 'unit'):
                 out[0].unit = x.unit
+        elif any(_.size != product(matrix.shape_input) for _ in out):
+            raise ValueError('The output arrays have an incompatible shape.')
         if matrix.size == 0:
             return out
         pTx, pT1 = (np.ascontiguousarray(_) for _ in out)
-- 
2.43.0


From 9d5966f4b34113086050fc272a121c25388a6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 136/140] fix: the indices returned by the arg methods of the
 quantities have no unit

---
 src/pysimulators/quantities.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pysimulators/quantities.py b/src/pysimulators/quantities.py
index 4c4ceb0..574e809 100644
--- a/src/pysimulators/quantities.py
+++ b/src/pysimulators/quantities.py
@@ -1192,6 +1192,20 @@ class Quantity(np.ndarray):
 
         return fslow, ffast
 
+    # the indices of the elements have no unit
+
+    def argmax(self, *args, **keywords):
+        return self.view(np.ndarray).argmax(*args, **keywords)
+
+    def argmin(self, *args, **keywords):
+        return self.view(np.ndarray).argmin(*args, **keywords)
+
+    def argpartition(self, *args, **keywords):
+        return self.view(np.ndarray).argpartition(*args, **keywords)
+
+    def argsort(self, *args, **keywords):
+        return self.view(np.ndarray).argsort(*args, **keywords)
+
     def __deepcopy__(self, memo):
         result = super().__deepcopy__(memo)
         result.__dict__.update(copy.deepcopy(self.__dict__, memo))
-- 
2.43.0


From 634fe5b01889bb8433079a9aebadeecdce9725e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 137/140] fix: display the integer and boolean FITS arrays

---
 src/pysimulators/datatypes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index f056e51..5cb7209 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -412,7 +412,8 @@ class FitsArray(Quantity):
         if np.iscomplexobj(self):
             data = abs(self.magnitude)
         else:
-            data = self.magnitude.copy()
+            # the masked elements are set to NaN
+            data = self.magnitude.astype(np.result_type(self.dtype, np.float32))
         if isscalarlike(percentile):
             percentile = percentile / 2, 100 - percentile / 2
         unfinite = ~np.isfinite(self.magnitude)
@@ -918,7 +919,8 @@ class Map(FitsArray):
         if np.iscomplexobj(self):
             data = abs(self.magnitude)
         else:
-            data = self.magnitude.copy()
+            # the masked elements are set to NaN
+            data = self.magnitude.astype(np.result_type(self.dtype, np.float32))
         if isscalarlike(percentile):
             percentile = percentile / 2, 100 - percentile / 2
         unfinite = ~np.isfinite(self.magnitude)
-- 
2.43.0


From 7ac3b2f348c8e38689550d54ac427e1657693a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 138/140] fix: pass the interpolation to the display of the
 maps

---
 src/pysimulators/datatypes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 5cb7209..203dd57 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -909,6 +909,7 @@ class Map(FitsArray):
                 title=title,
                 xlabel=xlabel,
                 ylabel=ylabel,
+                interpolation=interpolation,
                 origin=origin,
                 colorbar=colorbar,
                 percentile=percentile,
-- 
2.43.0


From 7f0f0a64c737a91bc1563d535f22191a65264685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:32 +0000
Subject: [PATCH 139/140] fix: the complex arrays without header have no world
 coordinate system

---
 src/pysimulators/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pysimulators/datatypes.py b/src/pysimulators/datatypes.py
index 203dd57..5f75c47 100644
--- a/src/pysimulators/datatypes.py
+++ b/src/pysimulators/datatypes.py
@@ -296,7 +296,8 @@ class FitsArray(Quantity):
         Returns True is the array has a FITS header with a defined World
         Coordinate System.
         """
-        return has_wcs(self.header)
+        # the complex arrays have no default header
+        return self.header is not None and has_wcs(self.header)
 
     @property
     def header(self):
-- 
2.43.0


From 4e23458dffb52d8dae164bd22bc7ea75944ac15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:01 +0000
Subject: [PATCH 140/140] fix: coverage of the multi-dimensional maps by 2-d
 rotation projections

---
 src/pysimulators/operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pysimulators/operators.py b/src/pysimulators/operators.py
index 8f1b99f..162ee19 100644
--- a/src/pysimulators/operators.py
+++ b/src/pysimulators/operators.py
@@ -1157,7 +1157,7 @@ class ProjectionOperator(SparseOperator):
                 ).ravel()
                 for i, d in zip(index, data):
                     if i >= 0:
-                        out[i] += d
+                        out.flat[i] += d
             else:
                 x = ones(shapein, out.dtype)
                 operation(out, self.T(x)[..., 0])
-- 
2.43.0

