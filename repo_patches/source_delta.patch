From 002e73e60d895493e994a01c8c90fd4be02fb31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:30 +0000
Subject: [PATCH 01/30] fix: slicing and flipping views with negative strides

slice_axis computed the start offset with the absolute value of the
stride, so indexing or slicing a reversed view read the wrong elements
or memory outside the array; gufunc_subarray clamped negative offsets
to zero. Also avoid overflow for very large steps.
---
 src/array/views.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index abc7479..4ae8c4f 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 impl RumpyArray {
     /// Create a view with new offset, shape, and strides, sharing the buffer.
-    pub fn view_with(&self, offset_delta: usize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
+    pub fn view_with(&self, offset_delta: isize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
         let mut flags = ArrayFlags::WRITEABLE;
         if is_c_contiguous(&shape, &strides, self.dtype.itemsize()) {
             flags |= ArrayFlags::C_CONTIGUOUS;
@@ -17,7 +17,7 @@ impl RumpyArray {
 
         Self {
             buffer: Arc::clone(&self.buffer),
-            offset: self.offset + offset_delta,
+            offset: (self.offset as isize + offset_delta) as usize,
             shape,
             strides,
             dtype: self.dtype.clone(),
@@ -57,24 +57,25 @@ impl RumpyArray {
         // Compute new length
         let new_len = if step > 0 {
             if stop > start {
-                (stop - start + step - 1) / step
+                (stop - start - 1) / step + 1
             } else {
                 0
             }
         } else if start > stop {
-            (start - stop - step - 1) / (-step)
+            (start - stop - 1) / (-step) + 1
         } else {
             0
         };
         let new_len = new_len.max(0) as usize;
 
-        // Compute offset delta (bytes to skip to reach start element)
+        // Compute offset delta (bytes to skip to reach start element; negative for
+        // negative strides). An empty result has no start element.
         let old_stride = self.strides[axis];
-        let offset_delta = (start as usize) * (old_stride.unsigned_abs());
+        let offset_delta = if new_len == 0 { 0 } else { start * old_stride };
 
-        // New stride = old_stride * step
+        // New stride = old_stride * step (only overflows when at most one element is left)
         let mut new_strides = self.strides.clone();
-        new_strides[axis] = old_stride * step;
+        new_strides[axis] = old_stride.wrapping_mul(step);
 
         let mut new_shape = self.shape.clone();
         new_shape[axis] = new_len;
@@ -250,12 +251,12 @@ impl RumpyArray {
         // Handle case where we're extracting a scalar (empty core dims)
         if core_shape.is_empty() {
             return self.view_with(
-                offset_delta.max(0) as usize,
+                offset_delta,
                 vec![1],
                 vec![self.itemsize() as isize],
             );
         }
 
-        self.view_with(offset_delta.max(0) as usize, core_shape, core_strides)
+        self.view_with(offset_delta, core_shape, core_strides)
     }
 }
-- 
2.43.0


From eebfba1044c00e5d11763154a37d862b27c1c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:24 +0000
Subject: [PATCH 02/30] fix: raise IndexError for out-of-range integer indices;
 slice bounds as Python's

---
 src/python/pyarray/dunder_item.rs | 27 ++++++------
 src/python/pyarray/mod.rs         | 73 +++++++++++--------------------
 2 files changed, 39 insertions(+), 61 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index d374e11..eefc612 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::{PyEllipsis, PyList, PySlice, PyTuple};
 
 use super::{
-    expand_ellipsis, extract_slice_indices, fill_view, normalize_index, normalize_slice,
+    expand_ellipsis, extract_slice_indices, fill_view, first_axis_len, normalize_index,
     IndexItem, PyRumpyArray,
 };
 use crate::array::RumpyArray;
@@ -103,7 +103,7 @@ impl PyRumpyArray {
                             unreachable!()
                         }
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
                 let val = self.inner.get_element(&indices);
                 return Ok(val.into_pyobject(py)?.into_any().unbind());
             }
@@ -127,20 +127,21 @@ impl PyRumpyArray {
                                 "too many indices for array",
                             ));
                         }
-                        let idx = normalize_index(*idx, result.shape()[axis]);
+                        let idx = normalize_index(*idx, result.shape()[axis])?;
                         result = result.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                         squeeze_axes.push(axis);
                         axis += 1;
                     }
-                    IndexItem::Slice(start, stop, step) => {
+                    IndexItem::Full => axis += 1,
+                    IndexItem::Slice(slice) => {
                         if axis >= result.ndim() {
                             return Err(pyo3::exceptions::PyIndexError::new_err(
                                 "too many indices for array",
                             ));
                         }
-                        let len = result.shape()[axis] as isize;
-                        let (norm_start, norm_stop) = normalize_slice(*start, *stop, *step, len);
-                        result = result.slice_axis(axis, norm_start, norm_stop, *step);
+                        let (start, stop, step) =
+                            extract_slice_indices(slice, result.shape()[axis])?;
+                        result = result.slice_axis(axis, start, stop, step);
                         axis += 1;
                     }
                 }
@@ -156,7 +157,7 @@ impl PyRumpyArray {
 
         // Handle single integer index
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
             let result = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
             let result = result.squeeze_axis(0);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
@@ -164,7 +165,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
             let result = self.inner.slice_axis(0, start, stop, step);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
@@ -194,7 +195,7 @@ impl PyRumpyArray {
                         let idx: isize = item.extract().unwrap();
                         normalize_index(idx, self.inner.shape()[axis])
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
 
                 if let Some(scalar) = value_scalar {
                     self.inner.set_element(&indices, scalar);
@@ -217,7 +218,7 @@ impl PyRumpyArray {
                     ));
                 }
                 if let Ok(idx) = item.extract::<isize>() {
-                    let idx = normalize_index(idx, view.shape()[axis]);
+                    let idx = normalize_index(idx, view.shape()[axis])?;
                     view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                     axis += 1;
                 } else if let Ok(slice) = item.downcast::<PySlice>() {
@@ -236,7 +237,7 @@ impl PyRumpyArray {
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
 
             if self.inner.ndim() == 1 {
                 // Single element in 1D array
@@ -257,7 +258,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
             let mut view = self.inner.slice_axis(0, start, stop, step);
             return fill_view(&mut view, value_scalar, value_array.as_deref());
         }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1cbc113..39a9bf1 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -978,13 +978,23 @@ fn extract_slice_indices(
     Ok((indices.start, indices.stop, indices.step))
 }
 
-/// Normalize a negative index to positive.
-fn normalize_index(idx: isize, len: usize) -> usize {
-    if idx < 0 {
-        (len as isize + idx) as usize
-    } else {
-        idx as usize
-    }
+/// Normalize a possibly negative index, raising IndexError if it is out of range.
+fn normalize_index(idx: isize, len: usize) -> PyResult<usize> {
+    let normalized = if idx < 0 { idx + len as isize } else { idx };
+    if normalized < 0 || normalized >= len as isize {
+        return Err(pyo3::exceptions::PyIndexError::new_err(format!(
+            "index {} is out of bounds for axis with size {}",
+            idx, len
+        )));
+    }
+    Ok(normalized as usize)
+}
+
+/// Size of the first axis, which a single integer or slice key applies to.
+fn first_axis_len(arr: &RumpyArray) -> PyResult<usize> {
+    arr.shape().first().copied().ok_or_else(|| {
+        pyo3::exceptions::PyIndexError::new_err("too many indices for array")
+    })
 }
 
 /// Resolve a potentially negative axis to a positive index.
@@ -1035,37 +1045,18 @@ fn extract_f64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<f64>> {
     }
 }
 
-/// Normalize slice start/stop values with proper defaults and clamping.
-fn normalize_slice(start: isize, stop: isize, step: isize, len: isize) -> (isize, isize) {
-    let (default_start, default_stop) = if step > 0 {
-        (0, len)
-    } else {
-        (len - 1, -len - 1)
-    };
-
-    // Apply defaults for sentinel values
-    let start = if start == isize::MIN { default_start } else { start };
-    let stop = if stop == isize::MAX { default_stop } else { stop };
-
-    // Normalize negative indices
-    let start = if start < 0 { (start + len).max(0) } else { start.min(len) };
-    let stop = if stop < 0 { (stop + len).max(-1) } else { stop.min(len) };
-
-    (start, stop)
-}
-
 /// Represents an indexing item after ellipsis expansion.
-#[derive(Clone, Debug)]
-enum IndexItem {
+enum IndexItem<'py> {
     NewAxis,
     Int(isize),
-    Slice(isize, isize, isize), // start, stop, step
+    Full,
+    Slice(Bound<'py, PySlice>),
 }
 
 /// Expand ellipsis in a tuple of indices.
 /// Returns a Vec of IndexItem representing each axis operation.
-fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<IndexItem>> {
-    let mut items: Vec<IndexItem> = Vec::new();
+fn expand_ellipsis<'py>(tuple: &Bound<'py, PyTuple>, ndim: usize) -> PyResult<Vec<IndexItem<'py>>> {
+    let mut items: Vec<IndexItem<'py>> = Vec::new();
     let mut ellipsis_pos: Option<usize> = None;
     let mut explicit_axis_count = 0usize;
 
@@ -1102,29 +1093,15 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
         if item.downcast::<PyEllipsis>().is_ok() {
             // Expand ellipsis to full slices
             for _ in 0..ellipsis_axes {
-                items.push(IndexItem::Slice(0, isize::MAX, 1)); // Will be clipped by slice_axis
+                items.push(IndexItem::Full);
             }
         } else if item.is_none() {
             items.push(IndexItem::NewAxis);
         } else if let Ok(idx) = item.extract::<isize>() {
             items.push(IndexItem::Int(idx));
         } else if let Ok(slice) = item.downcast::<PySlice>() {
-            // We'll extract proper indices later when we know the axis size
-            // For now, store special marker values
-            let start = slice.getattr("start").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() });
-            let stop = slice.getattr("stop").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() });
-            let step = slice.getattr("step").ok()
-                .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() })
-                .unwrap_or(1);
-
-            // Use sentinel values that will be processed during application
-            items.push(IndexItem::Slice(
-                start.unwrap_or(isize::MIN),
-                stop.unwrap_or(isize::MAX),
-                step
-            ));
+            // Resolved against the axis length when applied
+            items.push(IndexItem::Slice(slice.clone()));
         } else {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "indices must be integers, slices, ellipsis, or None",
-- 
2.43.0


From c76453c944a691770e5d26b74354da73457ef4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 03/30] fix: einsum fast path with batch indices, one-sided
 sums or permuted output

---
 src/ops/einsum.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 5f12e08..3cbf600 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -576,7 +576,16 @@ fn try_blas_contraction(
 
     // Identify free indices for B (in B but not contracted)
     let b_free: Vec<char> = b_sub.iter().filter(|c| !contract_set.contains(c)).copied().collect();
-    let b_contract: Vec<char> = b_sub.iter().filter(|c| contract_set.contains(c)).copied().collect();
+
+    // A matrix product covers neither batch indices (kept and in both operands) nor
+    // indices summed over in one operand only
+    if a_free.iter().any(|c| b_free.contains(c))
+        || contraction_indices.iter().any(|c| !a_sub.contains(c) || !b_sub.contains(c))
+    {
+        return None;
+    }
+    // Contracted indices in the same order for both operands
+    let b_contract: Vec<char> = a_contract.clone();
 
     // Compute dimensions
     let a_free_dims: Vec<usize> = a_free.iter().map(|c| dim_map[c]).collect();
@@ -648,7 +657,7 @@ fn try_blas_contraction(
         let out_perm: Vec<usize> = out_sub.iter()
             .map(|c| inter_indices.iter().position(|x| x == c))
             .collect::<Option<Vec<_>>>()?;
-        Some(reshaped.transpose_axes(&out_perm))
+        Some(reshaped.transpose_axes(&out_perm).copy())
     }
 }
 
-- 
2.43.0


From 16a2b48678e66c6af0c045ef1478ef2388c37cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 04/30] fix: reshape keeps row-major element order for
 non-C-contiguous arrays

---
 src/array/views.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 4ae8c4f..4daf5e1 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -1,7 +1,7 @@
 //! View operations: reshape, transpose, flip, slice_axis, broadcast_to, squeeze, expand_dims.
 
 use super::flags::ArrayFlags;
-use super::{compute_c_strides, compute_f_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
+use super::{compute_c_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
 use std::sync::Arc;
 
 impl RumpyArray {
@@ -83,24 +83,18 @@ impl RumpyArray {
         self.view_with(offset_delta, new_shape, new_strides)
     }
 
-    /// Reshape array. Returns a view if contiguous, otherwise would need copy.
-    /// For now, only works on contiguous arrays.
+    /// Reshape array (row-major element order). Returns a view if C-contiguous, otherwise a copy.
     pub fn reshape(&self, new_shape: Vec<usize>) -> Option<Self> {
         let old_size: usize = self.shape.iter().product();
         let new_size: usize = new_shape.iter().product();
         if old_size != new_size {
             return None;
         }
-        if !self.is_c_contiguous() && !self.is_f_contiguous() {
-            return None; // Would need copy
+        let new_strides = compute_c_strides(&new_shape, self.dtype.itemsize());
+        if !self.is_c_contiguous() {
+            return Some(self.copy().view_with(0, new_shape, new_strides));
         }
 
-        let new_strides = if self.is_c_contiguous() {
-            compute_c_strides(&new_shape, self.dtype.itemsize())
-        } else {
-            compute_f_strides(&new_shape, self.dtype.itemsize())
-        };
-
         Some(self.view_with(0, new_shape, new_strides))
     }
 
-- 
2.43.0


From 21aab1a1e2ad97475da0c360dc3976a2d83bd29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 05/30] fix: integer-array indexing: shape of the index array,
 empty trailing axes

---
 src/array/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 2ccb842..f710a49 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -288,12 +288,13 @@ impl RumpyArray {
     pub fn select_by_indices(&self, indices: &RumpyArray) -> Option<Self> {
         let num_indices = indices.size();
 
-        // Output shape: replace first dimension with number of indices
-        let mut out_shape = self.shape().to_vec();
-        if out_shape.is_empty() {
+        if self.ndim() == 0 {
             return None; // Can't index a scalar
         }
-        out_shape[0] = num_indices;
+
+        // Output shape: replace first dimension with the shape of the indices
+        let mut out_shape = indices.shape().to_vec();
+        out_shape.extend_from_slice(&self.shape()[1..]);
 
         let mut result = Self::zeros(out_shape, self.dtype());
         if num_indices == 0 {
@@ -301,7 +302,7 @@ impl RumpyArray {
         }
 
         let axis_len = self.shape()[0];
-        let slice_size: usize = self.shape()[1..].iter().product::<usize>().max(1);
+        let slice_size: usize = self.shape()[1..].iter().product();
 
         let buffer = Arc::get_mut(&mut result.buffer).expect("buffer must be unique");
         let result_ptr = buffer.as_mut_ptr();
-- 
2.43.0


From b7882ace26cbcffc802c27480d6a54b778703906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:53 +0000
Subject: [PATCH 06/30] fix: item assignment broadcasts, handles overlap and
 keeps int64 exact; scalar reads keep dtype

---
 src/ops/mod.rs                    | 46 ++++++++++++++-------
 src/python/pyarray/dunder_item.rs | 64 ++++++-----------------------
 src/python/pyarray/mod.rs         | 67 +++++++++++++++++--------------
 3 files changed, 79 insertions(+), 98 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 5976f7e..62feece 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -270,6 +270,34 @@ impl RumpyArray {
         result
     }
 
+    /// Convert one element to a Python scalar (int, complex or float, by dtype).
+    pub fn element_to_py(&self, py: pyo3::Python<'_>, indices: &[usize]) -> pyo3::PyResult<pyo3::PyObject> {
+        use crate::array::DTypeKind;
+        use pyo3::IntoPyObject;
+
+        let offset = self.byte_offset_for(indices);
+        let ptr = self.data_ptr();
+        let ops = self.dtype.ops();
+        match self.dtype.kind() {
+            DTypeKind::Uint64 => {
+                let val = unsafe { *(ptr.offset(offset) as *const u64) };
+                Ok(val.into_pyobject(py)?.into_any().unbind())
+            }
+            DTypeKind::Complex64 | DTypeKind::Complex128 => {
+                let (re, im) = unsafe { ops.read_complex(ptr, offset) }.unwrap_or((0.0, 0.0));
+                Ok(pyo3::types::PyComplex::from_doubles(py, re, im).into_any().unbind())
+            }
+            _ if ops.is_integer() => {
+                let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
+                Ok(val.into_pyobject(py)?.into_any().unbind())
+            }
+            _ => {
+                let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
+                Ok(val.into_pyobject(py)?.into_any().unbind())
+            }
+        }
+    }
+
     /// Convert array to nested Python lists.
     pub fn to_pylist(&self, py: pyo3::Python<'_>) -> pyo3::PyResult<pyo3::PyObject> {
         use pyo3::types::PyList;
@@ -279,22 +307,11 @@ impl RumpyArray {
             py: pyo3::Python<'_>,
             depth: usize,
             indices: &mut Vec<usize>,
-            use_int: bool,
         ) -> pyo3::PyResult<pyo3::PyObject> {
             use pyo3::IntoPyObject;
             if depth == arr.ndim() {
                 // Base case: return scalar of appropriate type
-                let offset = arr.byte_offset_for(indices);
-                let ptr = arr.data_ptr();
-                let dtype = arr.dtype();
-                let ops = dtype.ops();
-                if use_int {
-                    let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                } else {
-                    let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                }
+                return arr.element_to_py(py, indices);
             }
 
             // Build list for this dimension
@@ -302,15 +319,14 @@ impl RumpyArray {
             let mut items = Vec::with_capacity(dim_size);
             for i in 0..dim_size {
                 indices[depth] = i;
-                items.push(build_list(arr, py, depth + 1, indices, use_int)?);
+                items.push(build_list(arr, py, depth + 1, indices)?);
             }
             let list = PyList::new(py, items)?;
             Ok(list.into_pyobject(py)?.into_any().unbind())
         }
 
         let mut indices = vec![0usize; self.ndim()];
-        let use_int = self.dtype().is_integer();
-        build_list(self, py, 0, &mut indices, use_int)
+        build_list(self, py, 0, &mut indices)
     }
 }
 
diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index eefc612..bc40d04 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -104,8 +104,7 @@ impl PyRumpyArray {
                         }
                     })
                     .collect::<PyResult<_>>()?;
-                let val = self.inner.get_element(&indices);
-                return Ok(val.into_pyobject(py)?.into_any().unbind());
+                return self.inner.element_to_py(py, &indices);
             }
 
             // Process indices, tracking which axes had integer indices (to squeeze)
@@ -177,37 +176,8 @@ impl PyRumpyArray {
 
     /// Item assignment (slice or element).
     fn __setitem__(&mut self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
-        // Extract value as scalar or array
-        let value_scalar = value.extract::<f64>().ok();
-        let value_array = value.extract::<PyRef<'_, PyRumpyArray>>().ok();
-
         // Handle tuple for multi-dimensional indexing
         if let Ok(tuple) = key.downcast::<PyTuple>() {
-            // Check if all indices are integers (single element assignment)
-            let all_ints = tuple.iter().all(|item| item.extract::<isize>().is_ok());
-
-            if all_ints && tuple.len() == self.inner.ndim() {
-                // Single element assignment
-                let indices: Vec<usize> = tuple
-                    .iter()
-                    .enumerate()
-                    .map(|(axis, item)| {
-                        let idx: isize = item.extract().unwrap();
-                        normalize_index(idx, self.inner.shape()[axis])
-                    })
-                    .collect::<PyResult<_>>()?;
-
-                if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&indices, scalar);
-                    return Ok(());
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "can only assign scalar to single element",
-                    ));
-                }
-            }
-
-            // Slice assignment - get view and fill
             let mut view = self.inner.clone();
             let mut axis = 0usize;
 
@@ -219,8 +189,9 @@ impl PyRumpyArray {
                 }
                 if let Ok(idx) = item.extract::<isize>() {
                     let idx = normalize_index(idx, view.shape()[axis])?;
-                    view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
-                    axis += 1;
+                    view = view
+                        .slice_axis(axis, idx as isize, idx as isize + 1, 1)
+                        .squeeze_axis(axis);
                 } else if let Ok(slice) = item.downcast::<PySlice>() {
                     let (start, stop, step) = extract_slice_indices(slice, view.shape()[axis])?;
                     view = view.slice_axis(axis, start, stop, step);
@@ -232,35 +203,24 @@ impl PyRumpyArray {
                 }
             }
 
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            return fill_view(&view, value);
         }
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
         if let Ok(idx) = key.extract::<isize>() {
             let idx = normalize_index(idx, first_axis_len(&self.inner)?)?;
-
-            if self.inner.ndim() == 1 {
-                // Single element in 1D array
-                if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&[idx], scalar);
-                    return Ok(());
-                } else {
-                    return Err(pyo3::exceptions::PyTypeError::new_err(
-                        "can only assign scalar to single element",
-                    ));
-                }
-            } else {
-                // Row/slice assignment
-                let mut view = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
-                return fill_view(&mut view, value_scalar, value_array.as_deref());
-            }
+            let view = self
+                .inner
+                .slice_axis(0, idx as isize, idx as isize + 1, 1)
+                .squeeze_axis(0);
+            return fill_view(&view, value);
         }
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
             let (start, stop, step) = extract_slice_indices(slice, first_axis_len(&self.inner)?)?;
-            let mut view = self.inner.slice_axis(0, start, stop, step);
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            let view = self.inner.slice_axis(0, start, stop, step);
+            return fill_view(&view, value);
         }
 
         Err(pyo3::exceptions::PyTypeError::new_err(
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 39a9bf1..9bc6e8a 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1112,38 +1112,21 @@ fn expand_ellipsis<'py>(tuple: &Bound<'py, PyTuple>, ndim: usize) -> PyResult<Ve
     Ok(items)
 }
 
-/// Fill a view with a scalar or array value.
-fn fill_view(
-    view: &mut RumpyArray,
-    scalar: Option<f64>,
-    array: Option<&PyRumpyArray>,
-) -> PyResult<()> {
-    use crate::array::increment_indices;
-
-    if let Some(val) = scalar {
-        // Fill with scalar
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
+/// Convert an assigned value (scalar or array) to an array of the target dtype.
+/// Always a copy, so that assigning from an overlapping view is safe.
+fn assigned_value(value: &Bound<'_, PyAny>, dtype: DType) -> PyResult<RumpyArray> {
+    use crate::array::DTypeKind;
+
+    if dtype.kind() == DTypeKind::Int64 {
+        // Exact, not through f64
+        if let Ok(val) = value.extract::<i64>() {
+            return Ok(RumpyArray::from_vec_i64_with_shape(vec![val], vec![], dtype));
         }
-        Ok(())
-    } else if let Some(src) = array {
-        // Copy from array (shapes must match)
-        if view.shape() != src.inner.shape() {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "could not broadcast input array to shape",
-            ));
-        }
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            let val = src.inner.get_element(&indices);
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
-        }
-        Ok(())
+    }
+    if let Ok(src) = value.extract::<PyRef<'_, PyRumpyArray>>() {
+        Ok(src.inner.astype(dtype))
+    } else if let Ok(val) = value.extract::<f64>() {
+        Ok(RumpyArray::full(vec![], val, dtype))
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "value must be a number or array",
@@ -1151,6 +1134,28 @@ fn fill_view(
     }
 }
 
+/// Assign a scalar or (broadcast) array value to every element of a view.
+fn fill_view(view: &RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
+    let mut src = assigned_value(value, view.dtype())?;
+    // Extra leading axes of length 1 don't matter
+    while src.ndim() > view.ndim() && src.shape()[0] == 1 {
+        src = src.squeeze_axis(0);
+    }
+    let src = src.broadcast_to(view.shape()).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("could not broadcast input array to shape")
+    })?;
+
+    let itemsize = view.itemsize();
+    let src_ptr = src.data_ptr();
+    let dst_ptr = view.data_ptr() as *mut u8;
+    for (from, to) in src.iter_offsets().zip(view.iter_offsets()) {
+        unsafe {
+            std::ptr::copy_nonoverlapping(src_ptr.offset(from), dst_ptr.offset(to), itemsize);
+        }
+    }
+    Ok(())
+}
+
 /// Check if an array qualifies for temporary elision (in-place buffer reuse).
 ///
 /// Returns the array to use as output buffer if elision is possible.
-- 
2.43.0


From 951dc4e62491e96f31cf6cf9ecc78b15dcc42be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:15 +0000
Subject: [PATCH 07/30] fix: shape functions validate axes and shapes; moveaxis
 of several axes, squeeze to 0-d, n-d diagonal

---
 src/array/views.rs        |   9 +--
 src/ops/mod.rs            |  12 ++--
 src/python/pyarray/mod.rs |  19 +++---
 src/python/shape.rs       | 128 ++++++++++++++++++--------------------
 4 files changed, 81 insertions(+), 87 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 4daf5e1..48768fc 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -86,8 +86,8 @@ impl RumpyArray {
     /// Reshape array (row-major element order). Returns a view if C-contiguous, otherwise a copy.
     pub fn reshape(&self, new_shape: Vec<usize>) -> Option<Self> {
         let old_size: usize = self.shape.iter().product();
-        let new_size: usize = new_shape.iter().product();
-        if old_size != new_size {
+        let new_size = new_shape.iter().try_fold(1usize, |n, &d| n.checked_mul(d));
+        if new_size != Some(old_size) {
             return None;
         }
         let new_strides = compute_c_strides(&new_shape, self.dtype.itemsize());
@@ -171,11 +171,6 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        // Handle scalar case (all dims were 1)
-        if new_shape.is_empty() && self.size() == 1 {
-            return self.view_with(0, vec![1], vec![self.itemsize() as isize]);
-        }
-
         self.view_with(0, new_shape, new_strides)
     }
 
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 62feece..0a87dff 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -169,8 +169,12 @@ impl RumpyArray {
         // Diagonal stride = row_stride + col_stride (step diagonally)
         let diag_stride = strides[0] + strides[1];
 
-        // Return a 1D view with the diagonal stride
-        self.view_with(0, vec![n], vec![diag_stride])
+        // Remaining axes first, the diagonal last
+        let mut new_shape = shape[2..].to_vec();
+        let mut new_strides = strides[2..].to_vec();
+        new_shape.push(n);
+        new_strides.push(diag_stride);
+        self.view_with(0, new_shape, new_strides)
     }
 
     /// Return sum of diagonal elements (trace).
@@ -185,10 +189,6 @@ impl RumpyArray {
         assert!(axis1 < ndim, "axis1 out of bounds");
         assert!(axis2 < ndim, "axis2 out of bounds");
 
-        if axis1 == axis2 {
-            return self.copy();
-        }
-
         // Build permutation: swap axis1 and axis2
         let mut axes: Vec<usize> = (0..ndim).collect();
         axes.swap(axis1, axis2);
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 9bc6e8a..0d791c4 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -90,7 +90,9 @@ pub fn resolve_reshape_shape(shape: Vec<isize>, size: usize) -> PyResult<Vec<usi
             }
             neg_idx = Some(i);
         } else {
-            known_product *= dim as usize;
+            known_product = known_product.checked_mul(dim as usize).ok_or_else(|| {
+                pyo3::exceptions::PyValueError::new_err("cannot reshape array: shape too large")
+            })?;
         }
     }
 
@@ -355,18 +357,21 @@ impl PyRumpyArray {
     }
 
     /// Extract diagonal from 2D array.
-    fn diagonal(&self) -> Self {
-        Self::new(self.inner.diagonal())
+    fn diagonal(&self) -> PyResult<Self> {
+        crate::python::shape::diagonal(self)
     }
 
     /// Sum of diagonal elements.
-    fn trace(&self) -> f64 {
-        self.inner.trace()
+    fn trace(&self) -> PyResult<f64> {
+        if self.inner.ndim() != 2 {
+            return Err(pyo3::exceptions::PyValueError::new_err("trace requires a 2D array"));
+        }
+        Ok(self.inner.trace())
     }
 
     /// Swap two axes.
-    fn swapaxes(&self, axis1: usize, axis2: usize) -> Self {
-        Self::new(self.inner.swapaxes(axis1, axis2))
+    fn swapaxes(&self, axis1: isize, axis2: isize) -> PyResult<Self> {
+        crate::python::shape::swapaxes(self, axis1, axis2)
     }
 
     /// Create a contiguous copy of the array.
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 944d76c..f7434f4 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -4,7 +4,40 @@ use pyo3::prelude::*;
 use pyo3::types::PyList;
 
 use crate::array::{DType, RumpyArray};
-use super::{PyRumpyArray, creation, reductions::resolve_axis};
+use super::{PyRumpyArray, creation, pyarray::resolve_reshape_shape};
+
+/// Normalize a possibly negative axis; ValueError if it is out of bounds.
+pub(crate) fn normalize_axis(axis: isize, ndim: usize) -> PyResult<usize> {
+    let n = ndim as isize;
+    if axis < -n || axis >= n {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "axis {} is out of bounds for array of dimension {}",
+            axis, ndim
+        )));
+    }
+    Ok(if axis < 0 { axis + n } else { axis } as usize)
+}
+
+/// Normalize a list of axes; ValueError if one is out of bounds or repeated.
+fn normalize_axes(axes: &[isize], ndim: usize) -> PyResult<Vec<usize>> {
+    let mut out: Vec<usize> = Vec::with_capacity(axes.len());
+    for &ax in axes {
+        let ax = normalize_axis(ax, ndim)?;
+        if out.contains(&ax) {
+            return Err(pyo3::exceptions::PyValueError::new_err("repeated axis"));
+        }
+        out.push(ax);
+    }
+    Ok(out)
+}
+
+/// Transpose by a permutation given as (possibly negative) axes.
+pub(crate) fn permuted(a: &RumpyArray, axes: &[isize]) -> PyResult<RumpyArray> {
+    if axes.len() != a.ndim() {
+        return Err(pyo3::exceptions::PyValueError::new_err("axes don't match array"));
+    }
+    Ok(a.transpose_axes(&normalize_axes(axes, a.ndim())?))
+}
 
 /// Convert a Python object to RumpyArray (for concatenate, etc.)
 pub fn to_rumpy_array(obj: &Bound<'_, pyo3::PyAny>) -> PyResult<RumpyArray> {
@@ -49,29 +82,7 @@ pub fn reshape(a: &PyRumpyArray, newshape: &Bound<'_, pyo3::PyAny>) -> PyResult<
         ));
     };
 
-    // Handle -1 in shape (infer dimension)
-    let total = a.inner.size();
-    let neg_one_count = newshape.iter().filter(|&&x| x == -1).count();
-    if neg_one_count > 1 {
-        return Err(pyo3::exceptions::PyValueError::new_err(
-            "can only specify one unknown dimension"
-        ));
-    }
-
-    let shape: Vec<usize> = if neg_one_count == 1 {
-        let known_product: isize = newshape.iter().filter(|&&x| x != -1).product();
-        if known_product <= 0 || total % (known_product as usize) != 0 {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "cannot reshape array of size into shape"
-            ));
-        }
-        let inferred = (total as isize) / known_product;
-        newshape.into_iter()
-            .map(|x| if x == -1 { inferred as usize } else { x as usize })
-            .collect()
-    } else {
-        newshape.into_iter().map(|x| x as usize).collect()
-    };
+    let shape = resolve_reshape_shape(newshape, a.inner.size())?;
 
     a.inner.reshape(shape.clone())
         .map(PyRumpyArray::new)
@@ -102,17 +113,18 @@ pub fn flatten(a: &PyRumpyArray) -> PyRumpyArray {
 /// Permute the dimensions of an array.
 #[pyfunction]
 #[pyo3(signature = (a, axes=None))]
-pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyRumpyArray {
+pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<isize>>) -> PyResult<PyRumpyArray> {
     match axes {
-        Some(ax) => PyRumpyArray::new(a.inner.transpose_axes(&ax)),
-        None => PyRumpyArray::new(a.inner.transpose()),
+        Some(ax) => Ok(PyRumpyArray::new(permuted(&a.inner, &ax)?)),
+        None => Ok(PyRumpyArray::new(a.inner.transpose())),
     }
 }
 
 /// Interchange two axes of an array.
 #[pyfunction]
-pub fn swapaxes(x: &PyRumpyArray, axis1: usize, axis2: usize) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.swapaxes(axis1, axis2))
+pub fn swapaxes(x: &PyRumpyArray, axis1: isize, axis2: isize) -> PyResult<PyRumpyArray> {
+    let ndim = x.inner.ndim();
+    Ok(PyRumpyArray::new(x.inner.swapaxes(normalize_axis(axis1, ndim)?, normalize_axis(axis2, ndim)?)))
 }
 
 /// Move axes to new positions.
@@ -135,12 +147,8 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
     let ndim = a.inner.ndim();
 
     // Normalize axes
-    let src: Vec<usize> = source.iter()
-        .map(|&x| if x < 0 { (ndim as isize + x) as usize } else { x as usize })
-        .collect();
-    let dst: Vec<usize> = destination.iter()
-        .map(|&x| if x < 0 { (ndim as isize + x) as usize } else { x as usize })
-        .collect();
+    let src = normalize_axes(&source, ndim)?;
+    let dst = normalize_axes(&destination, ndim)?;
 
     if src.len() != dst.len() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -152,9 +160,11 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
     // Remove source axes and insert at destination positions
     let mut order: Vec<usize> = (0..ndim).filter(|x| !src.contains(x)).collect();
 
-    // Insert source axes at destination positions
-    for (&s, &d) in src.iter().zip(dst.iter()) {
-        order.insert(d.min(order.len()), s);
+    // Insert source axes at destination positions, lowest destination first
+    let mut moves: Vec<(usize, usize)> = dst.into_iter().zip(src).collect();
+    moves.sort_unstable();
+    for (d, s) in moves {
+        order.insert(d, s);
     }
 
     Ok(PyRumpyArray::new(a.inner.transpose_axes(&order)))
@@ -165,16 +175,8 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
 #[pyo3(signature = (a, axis, start=0))]
 pub fn rollaxis(a: &PyRumpyArray, axis: isize, start: isize) -> PyResult<PyRumpyArray> {
     let ndim = a.inner.ndim();
-    let axis = resolve_axis(axis, ndim);
-    let start = if start < 0 {
-        (ndim as isize + start) as usize
-    } else {
-        (start as usize).min(ndim)
-    };
-
-    if axis >= ndim {
-        return Err(pyo3::exceptions::PyValueError::new_err("axis out of bounds"));
-    }
+    let axis = normalize_axis(axis, ndim)?;
+    let start = if start == ndim as isize { ndim } else { normalize_axis(start, ndim)? };
 
     // Build permutation: move axis to start position
     let mut order: Vec<usize> = (0..ndim).collect();
@@ -230,11 +232,7 @@ pub fn atleast_3d(a: &PyRumpyArray) -> PyRumpyArray {
 #[pyfunction]
 pub fn expand_dims(arr: &PyRumpyArray, axis: isize) -> PyResult<PyRumpyArray> {
     let ndim = arr.inner.ndim();
-    let axis = if axis < 0 {
-        (ndim as isize + axis + 1) as usize
-    } else {
-        axis as usize
-    };
+    let axis = normalize_axis(axis, ndim + 1)?;
 
     arr.inner.expand_dims(axis)
         .map(PyRumpyArray::new)
@@ -319,11 +317,7 @@ pub fn flip(arr: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
         }
         Some(ax) => {
             let ndim = arr.inner.ndim();
-            let axis = if ax < 0 {
-                (ndim as isize + ax) as usize
-            } else {
-                ax as usize
-            };
+            let axis = normalize_axis(ax, ndim)?;
             arr.inner.flip(axis)
                 .map(PyRumpyArray::new)
                 .ok_or_else(|| {
@@ -728,12 +722,9 @@ pub fn rot90(arr: &PyRumpyArray, k: isize, axes: (isize, isize)) -> PyResult<PyR
         ));
     }
 
-    let ax0 = if axes.0 < 0 { (ndim as isize + axes.0) as usize } else { axes.0 as usize };
-    let ax1 = if axes.1 < 0 { (ndim as isize + axes.1) as usize } else { axes.1 as usize };
+    let ax0 = normalize_axis(axes.0, ndim)?;
+    let ax1 = normalize_axis(axes.1, ndim)?;
 
-    if ax0 >= ndim || ax1 >= ndim {
-        return Err(pyo3::exceptions::PyValueError::new_err("axes out of range"));
-    }
     if ax0 == ax1 {
         return Err(pyo3::exceptions::PyValueError::new_err("axes must be different"));
     }
@@ -824,8 +815,11 @@ pub fn nonzero(arr: &PyRumpyArray) -> Vec<PyRumpyArray> {
 
 /// Extract diagonal.
 #[pyfunction]
-pub fn diagonal(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.diagonal())
+pub fn diagonal(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    if x.inner.ndim() < 2 {
+        return Err(pyo3::exceptions::PyValueError::new_err("diagonal requires at least two dimensions"));
+    }
+    Ok(PyRumpyArray::new(x.inner.diagonal()))
 }
 
 // ============================================================================
@@ -883,8 +877,8 @@ pub fn concat(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyArray>
 
 /// Permute the dimensions of an array (NumPy 2.0 alias for transpose).
 #[pyfunction]
-pub fn permute_dims(a: &PyRumpyArray, axes: Vec<usize>) -> PyRumpyArray {
-    PyRumpyArray::new(a.inner.transpose_axes(&axes))
+pub fn permute_dims(a: &PyRumpyArray, axes: Vec<isize>) -> PyResult<PyRumpyArray> {
+    Ok(PyRumpyArray::new(permuted(&a.inner, &axes)?))
 }
 
 /// Transpose the last two axes of an array.
-- 
2.43.0


From 00826bc1ee685751fd0bcb2aca98b73651ee4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:43 +0000
Subject: [PATCH 08/30] fix: elementwise arithmetic: floor division/modulo,
 wrap-around, shifts, mixed-dtype operands, Python scalars, exact casts and
 comparisons

---
 src/array/dtype/float16.rs    |  21 ++----
 src/array/dtype/macros.rs     |  73 ++++++++++----------
 src/array/dtype/mod.rs        |   8 +++
 src/array/mod.rs              |  17 +++++
 src/ops/bitwise.rs            |   5 +-
 src/ops/dispatch.rs           |  23 ++++++-
 src/ops/kernels/arithmetic.rs |  61 ++++++++++++++---
 src/ops/kernels/bitwise.rs    |   7 +-
 src/ops/kernels/math.rs       |   6 +-
 src/ops/mod.rs                |  17 +----
 src/ops/ufunc.rs              |  92 ++++++++++++++++++-------
 src/python/pyarray/mod.rs     | 122 +++++++++++++++++++++++++---------
 src/python/ufuncs.rs          |  80 +++++++++++-----------
 13 files changed, 359 insertions(+), 173 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index e527191..1abe315 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -74,7 +74,7 @@ impl DTypeOps for Float16Ops {
             UnaryOp::Log1p => v.ln_1p(),
             UnaryOp::Cbrt => v.cbrt(),
             UnaryOp::Trunc => v.trunc(),
-            UnaryOp::Rint => v.round(),
+            UnaryOp::Rint => v.round_ties_even(),
             UnaryOp::Arcsinh => v.asinh(),
             UnaryOp::Arccosh => v.acosh(),
             UnaryOp::Arctanh => v.atanh(),
@@ -96,8 +96,8 @@ impl DTypeOps for Float16Ops {
             BinaryOp::Mul => av * bv,
             BinaryOp::Div => av / bv,
             BinaryOp::Pow => av.powf(bv),
-            BinaryOp::Mod => av % bv,
-            BinaryOp::FloorDiv => (av / bv).floor(),
+            BinaryOp::Mod => <crate::ops::kernels::arithmetic::Mod as crate::ops::kernels::BinaryKernel<f32>>::apply(av, bv),
+            BinaryOp::FloorDiv => <crate::ops::kernels::arithmetic::FloorDiv as crate::ops::kernels::BinaryKernel<f32>>::apply(av, bv),
             BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { f32::NAN } else { av.max(bv) },
             BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { f32::NAN } else { av.min(bv) },
             // Stream 2: Binary Math Operations
@@ -115,20 +115,7 @@ impl DTypeOps for Float16Ops {
                 let ln2 = std::f32::consts::LN_2;
                 if m.is_infinite() { m } else { m + ((1.0_f32 + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
             },
-            BinaryOp::Nextafter => {
-                // Use bit manipulation for nextafter
-                if av.is_nan() || bv.is_nan() {
-                    f32::NAN
-                } else if av == bv {
-                    bv
-                } else if av < bv {
-                    let bits = av.to_bits();
-                    f32::from_bits(if av >= 0.0 { bits + 1 } else { bits - 1 })
-                } else {
-                    let bits = av.to_bits();
-                    f32::from_bits(if av > 0.0 { bits - 1 } else { bits + 1 })
-                }
-            },
+            BinaryOp::Nextafter => <crate::ops::kernels::arithmetic::Nextafter as crate::ops::kernels::BinaryKernel<f16>>::apply(Self::read(a, a_offset), Self::read(b, b_offset)).to_f32(),
         };
         Self::write(out, idx, f16::from_f32(result));
     }
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index c9c715d..2a9615d 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -76,7 +76,7 @@ macro_rules! impl_float_dtype {
                     UnaryOp::Log1p => v.ln_1p(),
                     UnaryOp::Cbrt => v.cbrt(),
                     UnaryOp::Trunc => v.trunc(),
-                    UnaryOp::Rint => v.round(),
+                    UnaryOp::Rint => v.round_ties_even(),
                     UnaryOp::Arcsinh => v.asinh(),
                     UnaryOp::Arccosh => v.acosh(),
                     UnaryOp::Arctanh => v.atanh(),
@@ -98,8 +98,8 @@ macro_rules! impl_float_dtype {
                     BinaryOp::Mul => av * bv,
                     BinaryOp::Div => av / bv,
                     BinaryOp::Pow => av.powf(bv),
-                    BinaryOp::Mod => av % bv,
-                    BinaryOp::FloorDiv => (av / bv).floor(),
+                    BinaryOp::Mod => <crate::ops::kernels::arithmetic::Mod as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BinaryOp::FloorDiv => <crate::ops::kernels::arithmetic::FloorDiv as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                     BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { <$T>::NAN } else { av.max(bv) },
                     BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { <$T>::NAN } else { av.min(bv) },
                     // Stream 2: Binary Math Operations
@@ -119,24 +119,7 @@ macro_rules! impl_float_dtype {
                         let ln2 = std::f64::consts::LN_2 as $T;
                         if m.is_infinite() { m } else { m + ((1.0 as $T + (-(av - bv).abs() * ln2).exp()).ln() / ln2) }
                     },
-                    BinaryOp::Nextafter => {
-                        // Use f64 nextafter for both f32 and f64
-                        let av64 = av as f64;
-                        let bv64 = bv as f64;
-                        if av64.is_nan() || bv64.is_nan() {
-                            <$T>::NAN
-                        } else if av64 == bv64 {
-                            bv
-                        } else if av64 < bv64 {
-                            // Move toward positive
-                            let bits = av.to_bits();
-                            <$T>::from_bits(if av >= 0.0 as $T { bits + 1 } else { bits - 1 })
-                        } else {
-                            // Move toward negative
-                            let bits = av.to_bits();
-                            <$T>::from_bits(if av > 0.0 as $T { bits - 1 } else { bits + 1 })
-                        }
-                    },
+                    BinaryOp::Nextafter => <crate::ops::kernels::arithmetic::Nextafter as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                 };
                 Self::write(out, idx, result);
             }
@@ -259,8 +242,8 @@ macro_rules! impl_signed_int_dtype {
             unsafe fn unary_op(&self, op: UnaryOp, src: *const u8, byte_offset: isize, out: *mut u8, idx: usize) {
                 let v = Self::read(src, byte_offset);
                 let result = match op {
-                    UnaryOp::Neg => -v,
-                    UnaryOp::Abs => v.abs(),
+                    UnaryOp::Neg => v.wrapping_neg(),
+                    UnaryOp::Abs => v.wrapping_abs(),
                     UnaryOp::Sqrt => (v as f64).sqrt() as $T,
                     UnaryOp::Exp => (v as f64).exp() as $T,
                     UnaryOp::Log => (v as f64).ln() as $T,
@@ -310,16 +293,25 @@ macro_rules! impl_signed_int_dtype {
                     BinaryOp::Add => av.wrapping_add(bv),
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
-                    BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
-                    BinaryOp::Pow => if bv >= 0 { av.wrapping_pow(bv as u32) } else { 0 },
-                    BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
-                    BinaryOp::FloorDiv => if bv != 0 { av.div_euclid(bv) } else { 0 },
+                    BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
+                    BinaryOp::Pow => {
+                        // Wrapping exponentiation by squaring (negative exponents are rejected by the caller)
+                        let (mut base, mut exp, mut acc) = (av, bv as u64, 1 as $T);
+                        while exp > 0 {
+                            if exp & 1 == 1 { acc = acc.wrapping_mul(base); }
+                            base = base.wrapping_mul(base);
+                            exp >>= 1;
+                        }
+                        acc
+                    },
+                    BinaryOp::Mod => <crate::ops::kernels::arithmetic::Mod as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BinaryOp::FloorDiv => <crate::ops::kernels::arithmetic::FloorDiv as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
                     BinaryOp::Minimum | BinaryOp::FMin => av.min(bv),
                     // Float-only ops: convert to float, compute, convert back
                     BinaryOp::Arctan2 => (av as f64).atan2(bv as f64) as $T,
                     BinaryOp::Hypot => (av as f64).hypot(bv as f64) as $T,
-                    BinaryOp::Copysign => if bv >= 0 { av.abs() } else { -av.abs() },
+                    BinaryOp::Copysign => if bv >= 0 { av.wrapping_abs() } else { av.wrapping_abs().wrapping_neg() },
                     BinaryOp::Logaddexp => ((av as f64).exp() + (bv as f64).exp()).ln() as $T,
                     BinaryOp::Logaddexp2 => ((av as f64).exp2() + (bv as f64).exp2()).log2() as $T,
                     BinaryOp::Nextafter => if av < bv { av.wrapping_add(1) } else if av > bv { av.wrapping_sub(1) } else { bv },
@@ -401,8 +393,8 @@ macro_rules! impl_signed_int_dtype {
                     BitwiseOp::And => av & bv,
                     BitwiseOp::Or => av | bv,
                     BitwiseOp::Xor => av ^ bv,
-                    BitwiseOp::LeftShift => av.wrapping_shl(bv as u32),
-                    BitwiseOp::RightShift => av.wrapping_shr(bv as u32),
+                    BitwiseOp::LeftShift => <crate::ops::kernels::bitwise::LeftShift as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BitwiseOp::RightShift => <crate::ops::kernels::bitwise::RightShift as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                 };
                 Self::write(out, idx, result);
                 true
@@ -512,10 +504,19 @@ macro_rules! impl_unsigned_int_dtype {
                     BinaryOp::Add => av.wrapping_add(bv),
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
-                    BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
-                    BinaryOp::Pow => av.wrapping_pow(bv as u32),
-                    BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
-                    BinaryOp::FloorDiv => if bv != 0 { av / bv } else { 0 },
+                    BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
+                    BinaryOp::Pow => {
+                        // Wrapping exponentiation by squaring (negative exponents are rejected by the caller)
+                        let (mut base, mut exp, mut acc) = (av, bv as u64, 1 as $T);
+                        while exp > 0 {
+                            if exp & 1 == 1 { acc = acc.wrapping_mul(base); }
+                            base = base.wrapping_mul(base);
+                            exp >>= 1;
+                        }
+                        acc
+                    },
+                    BinaryOp::Mod => <crate::ops::kernels::arithmetic::Mod as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BinaryOp::FloorDiv => <crate::ops::kernels::arithmetic::FloorDiv as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
                     BinaryOp::Minimum | BinaryOp::FMin => av.min(bv),
                     // Float-only ops: convert to float, compute, convert back
@@ -603,8 +604,8 @@ macro_rules! impl_unsigned_int_dtype {
                     BitwiseOp::And => av & bv,
                     BitwiseOp::Or => av | bv,
                     BitwiseOp::Xor => av ^ bv,
-                    BitwiseOp::LeftShift => av.wrapping_shl(bv as u32),
-                    BitwiseOp::RightShift => av.wrapping_shr(bv as u32),
+                    BitwiseOp::LeftShift => <crate::ops::kernels::bitwise::LeftShift as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
+                    BitwiseOp::RightShift => <crate::ops::kernels::bitwise::RightShift as crate::ops::kernels::BinaryKernel<$T>>::apply(av, bv),
                 };
                 Self::write(out, idx, result);
                 true
diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 7c56589..ed03ca9 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -505,6 +505,14 @@ impl std::fmt::Debug for DType {
     }
 }
 
+/// Whether elements of this kind are integers, exactly represented by `read_i64`
+/// (for uint64: by its bit pattern).
+pub fn holds_i64(kind: &DTypeKind) -> bool {
+    use DTypeKind::*;
+    matches!(kind, Bool | Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64
+        | DateTime64(_) | TimeDelta64(_))
+}
+
 /// Promote two dtypes to their common type (NumPy-compatible).
 ///
 /// Rules:
diff --git a/src/array/mod.rs b/src/array/mod.rs
index f710a49..f0f630d 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -415,6 +415,23 @@ impl RumpyArray {
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
+                _ if dtype::holds_i64(&src_kind)
+                    && (src_kind != DTypeKind::Uint64 || dtype::holds_i64(&dst_kind))
+                    && !matches!(dst_kind, DTypeKind::Complex64 | DTypeKind::Complex128) =>
+                {
+                    // Integers convert exactly (modulo the width of an integer target)
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let val = unsafe { src_ops.read_i64(src_ptr, offset) }.unwrap_or(0);
+                        unsafe { dst_ops.write_i64(result_ptr, i, val); }
+                    }
+                }
+                (DTypeKind::Complex64 | DTypeKind::Complex128, _) => {
+                    // Complex sources: keep both parts where the target has them, else the real part
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let (re, im) = unsafe { src_ops.read_complex(src_ptr, offset) }.unwrap_or((0.0, 0.0));
+                        unsafe { dst_ops.write_complex(result_ptr, i, re, im); }
+                    }
+                }
                 _ => {
                     // Cross-dtype conversion via f64 (lossy for complex)
                     for (i, offset) in self.iter_offsets().enumerate() {
diff --git a/src/ops/bitwise.rs b/src/ops/bitwise.rs
index bba3c9f..2daba41 100644
--- a/src/ops/bitwise.rs
+++ b/src/ops/bitwise.rs
@@ -13,7 +13,10 @@ use crate::ops::dispatch;
 /// Apply a binary bitwise operation element-wise, preserving dtype.
 fn map_binary_bitwise(a: &RumpyArray, b: &RumpyArray, op: BitwiseOp) -> Option<RumpyArray> {
     let out_dtype = promote_dtype(&a.dtype(), &b.dtype());
-    let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(a, b, out_dtype.clone())?;
+    // Both operands in the common dtype
+    let a_cast = if a.dtype() != out_dtype { a.astype(out_dtype.clone()) } else { a.clone() };
+    let b_cast = if b.dtype() != out_dtype { b.astype(out_dtype.clone()) } else { b.clone() };
+    let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(&a_cast, &b_cast, out_dtype.clone())?;
 
     if result.size() == 0 {
         return Some(result);
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 4ed0ef0..0971a63 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -13,7 +13,7 @@ use crate::array::dtype::DTypeKind;
 use crate::ops::kernels::{BinaryKernel, UnaryKernel, ReduceKernel, CompareKernel};
 use crate::ops::kernels::bitwise::{And, Or, Xor, LeftShift, RightShift, Not};
 use crate::ops::kernels::comparison::{Gt, Lt, Ge, Le, Eq, Ne};
-use crate::ops::kernels::arithmetic::{
+use crate::ops::kernels::arithmetic::{Fmod,
     Add, Sub, Mul, Div, Sum, Prod, Max, Min,
     Pow, Mod, FloorDiv, Maximum, Minimum,
     Arctan2, Hypot, FMax, FMin, Copysign, Logaddexp, Logaddexp2, Nextafter,
@@ -72,6 +72,27 @@ pub fn dispatch_binary_mod(a: &RumpyArray, b: &RumpyArray, out_shape: &[usize])
     dispatch_binary_kernel(a, b, out_shape, Mod)
 }
 
+/// Remainder of truncated division (C fmod) for operands of the same real dtype.
+pub fn dispatch_binary_fmod(a: &RumpyArray, b: &RumpyArray, out_shape: &[usize]) -> Option<RumpyArray> {
+    if a.dtype() != b.dtype() {
+        return None;
+    }
+    match a.dtype().kind() {
+        DTypeKind::Float64 => dispatch_binary_typed::<f64, _>(a, b, out_shape, Fmod, a.dtype()),
+        DTypeKind::Float32 => dispatch_binary_typed::<f32, _>(a, b, out_shape, Fmod, a.dtype()),
+        DTypeKind::Float16 => dispatch_binary_typed::<f16, _>(a, b, out_shape, Fmod, a.dtype()),
+        DTypeKind::Int64 => dispatch_binary_typed::<i64, _>(a, b, out_shape, Fmod, a.dtype()),
+        DTypeKind::Int32 => dispatch_binary_typed::<i32, _>(a, b, out_shape, Fmod, a.dtype()),
+        DTypeKind::Int16 => dispatch_binary_typed::<i16, _>(a, b, out_shape, Fmod, a.dtype()),
+        DTypeKind::Int8 => dispatch_binary_typed::<i8, _>(a, b, out_shape, Fmod, a.dtype()),
+        DTypeKind::Uint64 => dispatch_binary_typed::<u64, _>(a, b, out_shape, Fmod, a.dtype()),
+        DTypeKind::Uint32 => dispatch_binary_typed::<u32, _>(a, b, out_shape, Fmod, a.dtype()),
+        DTypeKind::Uint16 => dispatch_binary_typed::<u16, _>(a, b, out_shape, Fmod, a.dtype()),
+        DTypeKind::Uint8 => dispatch_binary_typed::<u8, _>(a, b, out_shape, Fmod, a.dtype()),
+        _ => None,
+    }
+}
+
 pub fn dispatch_binary_floor_div(a: &RumpyArray, b: &RumpyArray, out_shape: &[usize]) -> Option<RumpyArray> {
     dispatch_binary_kernel(a, b, out_shape, FloorDiv)
 }
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index c7d3a61..f0e77cc 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -36,6 +36,9 @@ pub struct Pow;
 #[derive(Clone, Copy)]
 pub struct Mod;
 
+#[derive(Clone, Copy)]
+pub struct Fmod;
+
 #[derive(Clone, Copy)]
 pub struct FloorDiv;
 
@@ -142,12 +145,32 @@ macro_rules! impl_float_arithmetic {
             fn apply(a: $T, b: $T) -> $T { a.powf(b) }
         }
         impl BinaryKernel<$T> for Mod {
+            #[inline(always)]
+            fn apply(a: $T, b: $T) -> $T {
+                // Remainder of floor division: takes the sign of the divisor
+                let m = a % b;
+                if b == 0.0 { m }
+                else if m == 0.0 { (0.0 as $T).copysign(b) }
+                else if (m < 0.0) != (b < 0.0) { m + b }
+                else { m }
+            }
+        }
+        impl BinaryKernel<$T> for Fmod {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T { a % b }
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { (a / b).floor() }
+            fn apply(a: $T, b: $T) -> $T {
+                if b == 0.0 { return a / b; }
+                // Exact quotient of (a - a mod b) by b, as NumPy's divmod
+                let m = a % b;
+                let mut q = (a - m) / b;
+                if m != 0.0 && (m < 0.0) != (b < 0.0) { q -= 1.0; }
+                if q == 0.0 { return (0.0 as $T).copysign(a / b); }
+                let f = q.floor();
+                if q - f > 0.5 { f + 1.0 } else { f }
+            }
         }
         impl BinaryKernel<$T> for Maximum {
             #[inline(always)]
@@ -206,8 +229,9 @@ macro_rules! impl_float_arithmetic {
             fn apply(a: $T, b: $T) -> $T {
                 if a == b { b }
                 else if a.is_nan() || b.is_nan() { <$T>::NAN }
-                else if a < b { <$T>::from_bits(a.to_bits().wrapping_add(1)) }
-                else { <$T>::from_bits(a.to_bits().wrapping_sub(1)) }
+                else if a == 0.0 { <$T>::from_bits(1).copysign(b) }
+                else if (a < b) == (a > 0.0) { <$T>::from_bits(a.to_bits() + 1) }
+                else { <$T>::from_bits(a.to_bits() - 1) }
             }
         }
     };
@@ -317,12 +341,16 @@ impl BinaryKernel<f16> for Pow {
     fn apply(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32().powf(b.to_f32())) }
 }
 impl BinaryKernel<f16> for Mod {
+    #[inline(always)]
+    fn apply(a: f16, b: f16) -> f16 { f16::from_f32(<Mod as BinaryKernel<f32>>::apply(a.to_f32(), b.to_f32())) }
+}
+impl BinaryKernel<f16> for Fmod {
     #[inline(always)]
     fn apply(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32() % b.to_f32()) }
 }
 impl BinaryKernel<f16> for FloorDiv {
     #[inline(always)]
-    fn apply(a: f16, b: f16) -> f16 { f16::from_f32((a.to_f32() / b.to_f32()).floor()) }
+    fn apply(a: f16, b: f16) -> f16 { f16::from_f32(<FloorDiv as BinaryKernel<f32>>::apply(a.to_f32(), b.to_f32())) }
 }
 impl BinaryKernel<f16> for Maximum {
     #[inline(always)]
@@ -391,8 +419,9 @@ impl BinaryKernel<f16> for Nextafter {
     fn apply(a: f16, b: f16) -> f16 {
         if a == b { b }
         else if a.is_nan() || b.is_nan() { f16::NAN }
-        else if a < b { f16::from_bits(a.to_bits().wrapping_add(1)) }
-        else { f16::from_bits(a.to_bits().wrapping_sub(1)) }
+        else if a == f16::ZERO { f16::from_bits(1).copysign(b) }
+        else if (a < b) == (a > f16::ZERO) { f16::from_bits(a.to_bits() + 1) }
+        else { f16::from_bits(a.to_bits() - 1) }
     }
 }
 
@@ -452,11 +481,27 @@ macro_rules! impl_int_arithmetic {
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a % b } }
+            #[allow(unused_comparisons)]
+            fn apply(a: $T, b: $T) -> $T {
+                // Remainder of floor division: takes the sign of the divisor
+                if b == $zero { return $zero; }
+                let r = a.wrapping_rem(b);
+                if r != $zero && (r < $zero) != (b < $zero) { r + b } else { r }
+            }
+        }
+        impl BinaryKernel<$T> for Fmod {
+            #[inline(always)]
+            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a.wrapping_rem(b) } }
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a / b } }
+            #[allow(unused_comparisons)]
+            fn apply(a: $T, b: $T) -> $T {
+                if b == $zero { return $zero; }
+                let q = a.wrapping_div(b);
+                let r = a.wrapping_rem(b);
+                if r != $zero && (r < $zero) != (b < $zero) { q - $one } else { q }
+            }
         }
         impl BinaryKernel<$T> for Maximum {
             #[inline(always)]
diff --git a/src/ops/kernels/bitwise.rs b/src/ops/kernels/bitwise.rs
index f954ad8..07d1f0a 100644
--- a/src/ops/kernels/bitwise.rs
+++ b/src/ops/kernels/bitwise.rs
@@ -62,14 +62,17 @@ macro_rules! impl_bitwise_int {
         impl BinaryKernel<$T> for LeftShift {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shl(b as u32)
+                // Shift counts outside 0..BITS shift everything out
+                if (b as u64) < <$T>::BITS as u64 { a << b } else { 0 }
             }
         }
 
         impl BinaryKernel<$T> for RightShift {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shr(b as u32)
+                // Shift counts outside 0..BITS leave only the sign
+                #[allow(unused_comparisons)]
+                if (b as u64) < <$T>::BITS as u64 { a >> b } else if a < 0 { !0 } else { 0 }
             }
         }
 
diff --git a/src/ops/kernels/math.rs b/src/ops/kernels/math.rs
index 210c71c..03705b7 100644
--- a/src/ops/kernels/math.rs
+++ b/src/ops/kernels/math.rs
@@ -230,7 +230,7 @@ macro_rules! impl_float_math {
         }
         impl UnaryKernel<$T> for Rint {
             #[inline(always)]
-            fn apply(v: $T) -> $T { v.round() }
+            fn apply(v: $T) -> $T { v.round_ties_even() }
         }
         impl UnaryKernel<$T> for Arcsinh {
             #[inline(always)]
@@ -369,7 +369,7 @@ impl UnaryKernel<f16> for Trunc {
 }
 impl UnaryKernel<f16> for Rint {
     #[inline(always)]
-    fn apply(v: f16) -> f16 { f16::from_f32(v.to_f32().round()) }
+    fn apply(v: f16) -> f16 { f16::from_f32(v.to_f32().round_ties_even()) }
 }
 impl UnaryKernel<f16> for Arcsinh {
     #[inline(always)]
@@ -396,7 +396,7 @@ macro_rules! impl_signed_int_math {
         }
         impl UnaryKernel<$T> for Abs {
             #[inline(always)]
-            fn apply(v: $T) -> $T { v.abs() }
+            fn apply(v: $T) -> $T { v.wrapping_abs() }
         }
         impl UnaryKernel<$T> for Square {
             #[inline(always)]
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 0a87dff..bc48dc6 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -63,6 +63,8 @@ pub enum BinaryOpError {
     ShapeMismatch,
     /// Operation not supported for these dtypes
     UnsupportedDtype,
+    /// Integers to negative integer powers
+    NegativeIntegerPower,
 }
 
 /// Error type for unary operations.
@@ -96,28 +98,15 @@ impl RumpyArray {
     /// Element-wise operation with scalar (arr op scalar).
     pub fn scalar_op(&self, scalar: f64, op: BinaryOp) -> RumpyArray {
         // Create a scalar array and use binary_op with broadcasting
-        let scalar_arr = RumpyArray::full(vec![1], scalar, self.dtype());
+        let scalar_arr = RumpyArray::full(vec![], scalar, self.dtype());
         self.binary_op(&scalar_arr, op).expect("scalar broadcast always works")
     }
 
-    /// Scalar on left side (scalar op arr).
-    pub fn rscalar_op(&self, scalar: f64, op: BinaryOp) -> RumpyArray {
-        let scalar_arr = RumpyArray::full(vec![1], scalar, self.dtype());
-        scalar_arr.binary_op(self, op).expect("scalar broadcast always works")
-    }
-
     /// Element-wise comparison with broadcasting.
     pub fn compare(&self, other: &RumpyArray, op: ComparisonOp) -> Option<RumpyArray> {
         map_compare_op(self, other, op)
     }
 
-    /// Scalar comparison (arr op scalar).
-    pub fn compare_scalar(&self, scalar: f64, op: ComparisonOp) -> RumpyArray {
-        // Create scalar array and use broadcasting
-        let scalar_arr = RumpyArray::full(vec![1], scalar, DType::float64());
-        self.compare(&scalar_arr, op).expect("scalar broadcast always succeeds")
-    }
-
     /// Negate each element.
     pub fn neg(&self) -> Result<RumpyArray, UnaryOpError> {
         map_unary_op(self, UnaryOp::Neg)
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index d11dcdb..7844b5a 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -55,6 +55,33 @@ pub(crate) fn is_integer_kind(kind: &DTypeKind) -> bool {
              DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64)
 }
 
+/// Check if dtype is bool, integer, float or complex.
+fn is_numeric_kind(kind: &DTypeKind) -> bool {
+    matches!(kind, DTypeKind::Bool | DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64
+             | DTypeKind::Complex64 | DTypeKind::Complex128) || is_integer_kind(kind)
+}
+
+/// The dtype a binary operation on numeric operands is computed in.
+fn binary_op_dtype(a: &DType, b: &DType, op: BinaryOp) -> DType {
+    let common = promote_dtype(a, b);
+    let kind = common.kind();
+    if kind != DTypeKind::Bool && !is_integer_kind(&kind) {
+        return common;
+    }
+    match op {
+        BinaryOp::Div => DType::float64(),
+        // Float-only functions: 1 byte -> float16, 2 bytes -> float32, 4+ bytes -> float64
+        BinaryOp::Arctan2 | BinaryOp::Hypot | BinaryOp::Copysign
+        | BinaryOp::Logaddexp | BinaryOp::Logaddexp2 | BinaryOp::Nextafter => match common.itemsize() {
+            1 => DType::float16(),
+            2 => DType::float32(),
+            _ => DType::float64(),
+        },
+        BinaryOp::Pow | BinaryOp::Mod | BinaryOp::FloorDiv if kind == DTypeKind::Bool => DType::int8(),
+        _ => common,
+    }
+}
+
 // ============================================================================
 // Unary operations
 // ============================================================================
@@ -180,29 +207,20 @@ pub fn map_binary_op_inplace(
     op: BinaryOp,
     out: Option<RumpyArray>,
 ) -> Result<RumpyArray, BinaryOpError> {
-    // Handle division type promotion
-    if op == BinaryOp::Div {
-        let a_int = is_integer_kind(&a.dtype().kind());
-        let b_int = is_integer_kind(&b.dtype().kind());
-        if a_int && b_int {
-            let a_f64 = a.astype(DType::float64());
-            let b_f64 = b.astype(DType::float64());
-            return map_binary_op_inplace(&a_f64, &b_f64, op, None);
-        } else if a_int || b_int {
-            let int_to_float = |arr: &RumpyArray| -> RumpyArray {
-                let itemsize = arr.dtype().itemsize();
-                let target = if itemsize <= 1 {
-                    DType::float16()
-                } else if itemsize <= 2 {
-                    DType::float32()
-                } else {
-                    DType::float64()
-                };
-                arr.astype(target)
-            };
-            let a_float = if a_int { int_to_float(a) } else { a.clone() };
-            let b_float = if b_int { int_to_float(b) } else { b.clone() };
-            return map_binary_op_inplace(&a_float, &b_float, op, None);
+    // Numeric operands are converted to the dtype the operation is computed in
+    if is_numeric_kind(&a.dtype().kind()) && is_numeric_kind(&b.dtype().kind()) {
+        let dtype = binary_op_dtype(&a.dtype(), &b.dtype(), op);
+        if a.dtype() != dtype || b.dtype() != dtype {
+            let a_cast = if a.dtype() != dtype { a.astype(dtype.clone()) } else { a.clone() };
+            let b_cast = if b.dtype() != dtype { b.astype(dtype.clone()) } else { b.clone() };
+            return map_binary_op_inplace(&a_cast, &b_cast, op, None);
+        }
+        // Integers to negative integer powers are not integers
+        if op == BinaryOp::Pow && is_integer_kind(&dtype.kind()) && dtype.kind() != DTypeKind::Uint64 {
+            let ops = dtype.ops();
+            if b.iter_offsets().any(|o| unsafe { ops.read_i64(b.data_ptr(), o) }.unwrap_or(0) < 0) {
+                return Err(BinaryOpError::NegativeIntegerPower);
+            }
         }
     }
 
@@ -470,6 +488,9 @@ pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Optio
 
     // Promote to common dtype for comparison (like binary ops)
     let common_dtype = promote_dtype(&a.dtype(), &b.dtype());
+    if is_integer_kind(&a.dtype().kind()) && is_integer_kind(&b.dtype().kind()) && !is_integer_kind(&common_dtype.kind()) {
+        return Some(compare_signed_unsigned(a, b, op, out_shape));
+    }
     let a_promoted = if a.dtype() != common_dtype { a.astype(common_dtype.clone()) } else { a.clone() };
     let b_promoted = if b.dtype() != common_dtype { b.astype(common_dtype.clone()) } else { b.clone() };
 
@@ -521,6 +542,31 @@ pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Optio
     Some(result)
 }
 
+/// Compare a signed with an uint64 array: no common integer dtype exists, so compare values exactly.
+fn compare_signed_unsigned(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp, out_shape: Vec<usize>) -> RumpyArray {
+    let a_bc = a.broadcast_to(&out_shape).expect("shapes are broadcastable");
+    let b_bc = b.broadcast_to(&out_shape).expect("shapes are broadcastable");
+    let mut result = RumpyArray::zeros(out_shape, DType::bool());
+    let result_ptr = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    let read = |arr: &RumpyArray, offset: isize| -> i128 {
+        let v = unsafe { arr.dtype().ops().read_i64(arr.data_ptr(), offset) }.unwrap_or(0);
+        if arr.dtype().kind() == DTypeKind::Uint64 { v as u64 as i128 } else { v as i128 }
+    };
+    for (i, (a_offset, b_offset)) in a_bc.iter_offsets().zip(b_bc.iter_offsets()).enumerate() {
+        let (av, bv) = (read(&a_bc, a_offset), read(&b_bc, b_offset));
+        let r = match op {
+            ComparisonOp::Gt => av > bv,
+            ComparisonOp::Lt => av < bv,
+            ComparisonOp::Ge => av >= bv,
+            ComparisonOp::Le => av <= bv,
+            ComparisonOp::Eq => av == bv,
+            ComparisonOp::Ne => av != bv,
+        };
+        unsafe { *result_ptr.add(i) = r as u8; }
+    }
+    result
+}
+
 // ============================================================================
 // Reduction operations
 // ============================================================================
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 0d791c4..bfd4170 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1192,6 +1192,81 @@ fn try_elision_candidate(
     Some(arr.clone())
 }
 
+/// Convert an error of a binary operation to a Python exception.
+pub(crate) fn binary_op_error(e: crate::ops::BinaryOpError) -> PyErr {
+    use crate::ops::BinaryOpError;
+    match e {
+        BinaryOpError::ShapeMismatch => {
+            pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
+        }
+        BinaryOpError::UnsupportedDtype => {
+            pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
+        }
+        BinaryOpError::NegativeIntegerPower => pyo3::exceptions::PyValueError::new_err(
+            "Integers to negative integer powers are not allowed.",
+        ),
+    }
+}
+
+/// A Python number as a 0-d array that keeps its exact value: bool, int64/uint64, or a float
+/// in the precision of `dtype`. None if it is not a number.
+pub(crate) fn scalar_array(other: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<Option<RumpyArray>> {
+    use crate::array::dtype::DTypeKind;
+    if matches!(dtype.kind(), DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_)) {
+        return Ok(other.extract::<f64>().ok().map(|v| RumpyArray::full(vec![], v, dtype.clone())));
+    }
+    if other.is_instance_of::<pyo3::types::PyBool>() {
+        let v: bool = other.extract()?;
+        return Ok(Some(RumpyArray::full(vec![], v as u8 as f64, DType::bool())));
+    }
+    if !other.is_instance_of::<pyo3::types::PyFloat>() {
+        let (value, int_dtype) = if let Ok(v) = other.extract::<i64>() {
+            (v, DType::int64())
+        } else if let Ok(v) = other.extract::<u64>() {
+            (v as i64, DType::uint64())
+        } else {
+            (0, DType::bool())
+        };
+        if int_dtype != DType::bool() {
+            let mut arr = RumpyArray::zeros(vec![], int_dtype.clone());
+            unsafe { int_dtype.ops().write_i64(arr.data_ptr_mut(), 0, value); }
+            return Ok(Some(arr));
+        }
+    }
+    let inexact = matches!(dtype.kind(), DTypeKind::Float16 | DTypeKind::Float32
+        | DTypeKind::Float64 | DTypeKind::Complex64 | DTypeKind::Complex128);
+    let float_dtype = if inexact { dtype.clone() } else { DType::float64() };
+    Ok(other.extract::<f64>().ok().map(|v| RumpyArray::full(vec![], v, float_dtype)))
+}
+
+/// A Python number as the other operand of an arithmetic operation with an array of `dtype`:
+/// integers take the array's dtype (int64 for bool arrays), and must fit in it.
+pub(crate) fn scalar_operand(other: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<Option<RumpyArray>> {
+    use crate::array::dtype::DTypeKind;
+    let Some(scalar) = scalar_array(other, dtype)? else { return Ok(None) };
+    let kind = scalar.dtype().kind();
+    if !matches!(kind, DTypeKind::Int64 | DTypeKind::Uint64) || dtype.kind() == DTypeKind::Bool {
+        return Ok(Some(scalar));
+    }
+    let cast = scalar.astype(dtype.clone());
+    if crate::ops::ufunc::is_integer_kind(&dtype.kind())
+        && !crate::ops::array_equal(&cast, &scalar)
+    {
+        return Err(pyo3::exceptions::PyOverflowError::new_err(format!(
+            "Python integer out of bounds for {}", dtype.ops().name()
+        )));
+    }
+    Ok(Some(cast))
+}
+
+/// A Python integer (or bool) as the other operand of a bitwise operation.
+fn integer_operand(other: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<Option<RumpyArray>> {
+    if other.extract::<i64>().is_err() && other.extract::<u64>().is_err() {
+        return Ok(None);
+    }
+    scalar_operand(other, dtype)
+}
+
 /// Dispatch binary operation: array op (array or scalar).
 /// Takes raw PyObject pointer for refcount checking to enable temporary elision.
 fn binary_op_dispatch_with_elision(
@@ -1201,7 +1276,6 @@ fn binary_op_dispatch_with_elision(
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
     use crate::array::broadcast_shapes;
-    use crate::ops::BinaryOpError;
 
     // Try array first
     if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
@@ -1217,18 +1291,10 @@ fn binary_op_dispatch_with_elision(
 
         map_binary_op_inplace(arr, other_inner, op, out)
             .map(PyRumpyArray::new)
-            .map_err(|e| match e {
-                BinaryOpError::ShapeMismatch => {
-                    pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-                }
-                BinaryOpError::UnsupportedDtype => {
-                    pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
-                }
-            })
-    } else if let Ok(scalar) = other.extract::<f64>() {
-        // For scalar ops, result shape == arr shape, result dtype == arr dtype (usually)
+            .map_err(binary_op_error)
+    } else if let Some(scalar) = scalar_operand(other, &arr.dtype())? {
         // TODO: Consider elision for scalar ops too
-        Ok(PyRumpyArray::new(arr.scalar_op(scalar, op)))
+        arr.binary_op(&scalar, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or number",
@@ -1244,19 +1310,11 @@ fn binary_op_dispatch(
 ) -> PyResult<PyRumpyArray> {
     // Try array first
     if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
-        use crate::ops::BinaryOpError;
         arr.binary_op(&other_arr.inner, op)
             .map(PyRumpyArray::new)
-            .map_err(|e| match e {
-                BinaryOpError::ShapeMismatch => {
-                    pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-                }
-                BinaryOpError::UnsupportedDtype => {
-                    pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
-                }
-            })
-    } else if let Ok(scalar) = other.extract::<f64>() {
-        Ok(PyRumpyArray::new(arr.scalar_op(scalar, op)))
+            .map_err(binary_op_error)
+    } else if let Some(scalar) = scalar_operand(other, &arr.dtype())? {
+        arr.binary_op(&scalar, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or number",
@@ -1270,8 +1328,8 @@ fn rbinary_op_dispatch(
     other: &Bound<'_, PyAny>,
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
-    if let Ok(scalar) = other.extract::<f64>() {
-        Ok(PyRumpyArray::new(arr.rscalar_op(scalar, op)))
+    if let Some(scalar) = scalar_operand(other, &arr.dtype())? {
+        scalar.binary_op(arr, op).map(PyRumpyArray::new).map_err(binary_op_error)
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be a number",
@@ -1291,8 +1349,12 @@ fn comparison_op_dispatch(
             .ok_or_else(|| {
                 pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
             })
-    } else if let Ok(scalar) = other.extract::<f64>() {
-        Ok(PyRumpyArray::new(arr.compare_scalar(scalar, op)))
+    } else if let Some(scalar) = scalar_array(other, &arr.dtype())? {
+        arr.compare(&scalar, op)
+            .map(PyRumpyArray::new)
+            .ok_or_else(|| {
+                pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
+            })
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or number",
@@ -1315,8 +1377,7 @@ where
             .ok_or_else(|| {
                 pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
             })
-    } else if let Ok(scalar) = other.extract::<i64>() {
-        let scalar_arr = RumpyArray::full(vec![1], scalar as f64, DType::int64());
+    } else if let Some(scalar_arr) = integer_operand(other, &arr.dtype())? {
         op(arr, &scalar_arr)
             .map(PyRumpyArray::new)
             .ok_or_else(|| {
@@ -1338,8 +1399,7 @@ fn rbitwise_binary_op_dispatch<F>(
 where
     F: Fn(&RumpyArray, &RumpyArray) -> Option<RumpyArray>,
 {
-    if let Ok(scalar) = other.extract::<i64>() {
-        let scalar_arr = RumpyArray::full(vec![1], scalar as f64, DType::int64());
+    if let Some(scalar_arr) = integer_operand(other, &arr.dtype())? {
         op(&scalar_arr, arr)
             .map(PyRumpyArray::new)
             .ok_or_else(|| {
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 5d4b323..151356b 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -131,7 +131,7 @@ pub fn tanh(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 
 #[pyfunction]
 pub fn sign(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
-    apply_unary(x, |v| if v > 0.0 { 1.0 } else if v < 0.0 { -1.0 } else { 0.0 }, |a| a.sign())
+    apply_unary(x, |v| if v.is_nan() { v } else if v > 0.0 { 1.0 } else if v < 0.0 { -1.0 } else { 0.0 }, |a| a.sign())
 }
 
 #[pyfunction]
@@ -328,7 +328,7 @@ pub fn fix(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 
 #[pyfunction]
 pub fn rint(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
-    apply_unary(x, |v| v.round(), |a| a.rint())
+    apply_unary(x, |v| v.round_ties_even(), |a| a.rint())
 }
 
 #[pyfunction]
@@ -367,45 +367,41 @@ pub fn nan_to_num(
 // Binary math functions
 // ============================================================================
 
+/// The operands of a binary ufunc, given as arrays or scalars.
+fn binary_operands(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<(RumpyArray, RumpyArray)> {
+    use super::pyarray::scalar_operand;
+    let not_a_number = || pyo3::exceptions::PyTypeError::new_err("operand must be ndarray or number");
+
+    let a1 = x1.extract::<PyRef<'_, PyRumpyArray>>().ok().map(|a| a.inner.clone());
+    let a2 = x2.extract::<PyRef<'_, PyRumpyArray>>().ok().map(|a| a.inner.clone());
+    let (arr1, arr2) = match (a1, a2) {
+        (Some(arr1), Some(arr2)) => (arr1, arr2),
+        (Some(arr1), None) => {
+            let arr2 = scalar_operand(x2, &arr1.dtype())?.ok_or_else(not_a_number)?;
+            (arr1, arr2)
+        }
+        (None, Some(arr2)) => (scalar_operand(x1, &arr2.dtype())?.ok_or_else(not_a_number)?, arr2),
+        (None, None) => {
+            let v1 = x1.extract::<f64>().map_err(|_| not_a_number())?;
+            let v2 = x2.extract::<f64>().map_err(|_| not_a_number())?;
+            (
+                RumpyArray::full(vec![1], v1, DType::float64()),
+                RumpyArray::full(vec![1], v2, DType::float64()),
+            )
+        }
+    };
+
+    Ok((arr1, arr2))
+}
+
 /// Apply a binary ufunc to either array or scalar inputs.
 fn apply_binary_ufunc(
     x1: &Bound<'_, PyAny>,
     x2: &Bound<'_, PyAny>,
     op: crate::array::dtype::BinaryOp,
 ) -> PyResult<PyRumpyArray> {
-    use crate::ops::BinaryOpError;
-
-    // Try array-array first
-    let arr1 = if let Ok(arr) = x1.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x1.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "operand must be ndarray or number",
-        ));
-    };
-
-    let arr2 = if let Ok(arr) = x2.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x2.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "operand must be ndarray or number",
-        ));
-    };
-
-    arr1.binary_op(&arr2, op)
-        .map(PyRumpyArray::new)
-        .map_err(|e| match e {
-            BinaryOpError::ShapeMismatch => {
-                pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
-            }
-            BinaryOpError::UnsupportedDtype => {
-                pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
-            }
-        })
+    let (arr1, arr2) = binary_operands(x1, x2)?;
+    arr1.binary_op(&arr2, op).map(PyRumpyArray::new).map_err(super::pyarray::binary_op_error)
 }
 
 #[pyfunction]
@@ -871,10 +867,20 @@ pub fn mod_fn(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyA
 }
 
 /// Compute the element-wise remainder (C-style fmod, sign of dividend preserved).
-/// Note: In NumPy, fmod differs from mod/remainder. Our implementation uses C-style %.
 #[pyfunction]
 pub fn fmod(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
-    remainder(x1, x2)
+    use crate::array::{broadcast_shapes, promote_dtype};
+    let (a, b) = binary_operands(x1, x2)?;
+    let common = promote_dtype(&a.dtype(), &b.dtype());
+    let dtype = if common == DType::bool() { DType::int8() } else { common };
+    let (a, b) = (a.astype(dtype.clone()), b.astype(dtype));
+    let mismatch = || pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes");
+    let shape = broadcast_shapes(a.shape(), b.shape()).ok_or_else(mismatch)?;
+    let a = a.broadcast_to(&shape).ok_or_else(mismatch)?;
+    let b = b.broadcast_to(&shape).ok_or_else(mismatch)?;
+    crate::ops::dispatch::dispatch_binary_fmod(&a, &b, &shape)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes"))
 }
 
 /// Alias for divide - true division element-wise.
-- 
2.43.0


From 772ed28bee787022355bd4e6edff66b1928f7dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:03 +0000
Subject: [PATCH 09/30] fix: special functions and round honour layout and
 broadcasting; half-even rounding; ldexp/modf/spacing edge values

---
 src/ops/dispatch.rs  |  48 ++++++++----
 src/ops/mod.rs       |   2 +-
 src/ops/special.rs   | 170 +++++++++++++++++++++++++++++--------------
 src/python/ufuncs.rs |  24 ++++--
 4 files changed, 167 insertions(+), 77 deletions(-)

diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 0971a63..f816733 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1549,17 +1549,19 @@ pub fn dispatch_round(arr: &RumpyArray, decimals: i32) -> Option<RumpyArray> {
         DTypeKind::Float64 => dispatch_round_f64(arr, decimals),
         DTypeKind::Float32 => dispatch_round_f32(arr, decimals),
         // For integers, round is a no-op if decimals >= 0
-        DTypeKind::Int64 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Int32 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Int16 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint64 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint32 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint16 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint8 if decimals >= 0 => Some(arr.clone()),
+        DTypeKind::Int64 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int32 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int16 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int8 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint64 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint32 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint16 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint8 if decimals >= 0 => Some(arr.copy()),
         // Negative decimals on integers: round to tens, hundreds, etc.
         DTypeKind::Int64 => dispatch_round_i64(arr, decimals),
         DTypeKind::Int32 => dispatch_round_i32(arr, decimals),
         DTypeKind::Int16 => dispatch_round_i16(arr, decimals),
+        DTypeKind::Int8 => dispatch_round_i8(arr, decimals),
         DTypeKind::Uint64 => dispatch_round_u64(arr, decimals),
         DTypeKind::Uint32 => dispatch_round_u32(arr, decimals),
         DTypeKind::Uint16 => dispatch_round_u16(arr, decimals),
@@ -1577,7 +1579,15 @@ macro_rules! impl_round_float {
                 return Some(RumpyArray::zeros(arr.shape().to_vec(), $dtype));
             }
 
-            let scale = (10.0 as $T).powi(decimals);
+            // Scale by an exact power of ten, round halves to even
+            let scale = (10.0 as $T).powi(decimals.saturating_abs());
+            let round = |v: $T| {
+                if decimals >= 0 {
+                    (v * scale).round_ties_even() / scale
+                } else {
+                    (v / scale).round_ties_even() * scale
+                }
+            };
             let mut result = RumpyArray::zeros(arr.shape().to_vec(), $dtype);
             let buffer = result.buffer_mut();
             let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
@@ -1587,13 +1597,13 @@ macro_rules! impl_round_float {
                 let src_slice = unsafe { std::slice::from_raw_parts(arr.data_ptr() as *const $T, size) };
                 let out_slice = unsafe { std::slice::from_raw_parts_mut(result_ptr, size) };
                 for i in 0..size {
-                    out_slice[i] = (src_slice[i] * scale).round() / scale;
+                    out_slice[i] = round(src_slice[i]);
                 }
             } else {
                 let itemsize = std::mem::size_of::<$T>() as isize;
                 for (i, offset) in arr.iter_offsets().enumerate() {
                     let v = unsafe { *(arr.data_ptr() as *const $T).byte_offset(offset) };
-                    unsafe { *result_ptr.byte_offset(i as isize * itemsize) = (v * scale).round() / scale; }
+                    unsafe { *result_ptr.byte_offset(i as isize * itemsize) = round(v); }
                 }
             }
 
@@ -1614,7 +1624,18 @@ macro_rules! impl_round_int {
                 return Some(RumpyArray::zeros(arr.shape().to_vec(), $dtype));
             }
 
-            let scale = 10i64.pow((-decimals) as u32) as $T;
+            // Round to the nearest multiple of 10^-decimals, halves to an even multiple
+            let scale = 10i64
+                .checked_pow(decimals.unsigned_abs())
+                .and_then(|s| <$T>::try_from(s).ok());
+            let round = |v: $T| match scale {
+                None => 0,
+                Some(scale) => {
+                    let (q, r) = (v.div_euclid(scale), v.rem_euclid(scale));
+                    let up = r > scale - r || (r == scale - r && q % 2 != 0);
+                    q.wrapping_add(up as $T).wrapping_mul(scale)
+                }
+            };
             let mut result = RumpyArray::zeros(arr.shape().to_vec(), $dtype);
             let buffer = result.buffer_mut();
             let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
@@ -1624,13 +1645,13 @@ macro_rules! impl_round_int {
                 let src_slice = unsafe { std::slice::from_raw_parts(arr.data_ptr() as *const $T, size) };
                 let out_slice = unsafe { std::slice::from_raw_parts_mut(result_ptr, size) };
                 for i in 0..size {
-                    out_slice[i] = (src_slice[i] / scale) * scale;
+                    out_slice[i] = round(src_slice[i]);
                 }
             } else {
                 let itemsize = std::mem::size_of::<$T>() as isize;
                 for (i, offset) in arr.iter_offsets().enumerate() {
                     let v = unsafe { *(arr.data_ptr() as *const $T).byte_offset(offset) };
-                    unsafe { *result_ptr.byte_offset(i as isize * itemsize) = (v / scale) * scale; }
+                    unsafe { *result_ptr.byte_offset(i as isize * itemsize) = round(v); }
                 }
             }
 
@@ -1642,6 +1663,7 @@ macro_rules! impl_round_int {
 impl_round_int!(dispatch_round_i64, i64, DType::int64());
 impl_round_int!(dispatch_round_i32, i32, DType::int32());
 impl_round_int!(dispatch_round_i16, i16, DType::int16());
+impl_round_int!(dispatch_round_i8, i8, DType::int8());
 impl_round_int!(dispatch_round_u64, u64, DType::uint64());
 impl_round_int!(dispatch_round_u32, u32, DType::uint32());
 impl_round_int!(dispatch_round_u16, u16, DType::uint16());
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index bc48dc6..cda100c 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -252,7 +252,7 @@ impl RumpyArray {
 
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
-            let rounded = (val * scale).round() / scale;
+            let rounded = (val * scale).round_ties_even() / scale;
             unsafe { ops.write_f64(result_ptr, i, rounded); }
         }
 
diff --git a/src/ops/special.rs b/src/ops/special.rs
index 2075ff9..e07956c 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -8,11 +8,32 @@ use crate::array::dtype::DTypeKind;
 use crate::array::{DType, RumpyArray};
 use std::sync::Arc;
 
+/// The typed loops below walk the buffer linearly, so they need C order.
+fn contiguous(arr: &RumpyArray) -> RumpyArray {
+    if arr.is_c_contiguous() { arr.clone() } else { arr.copy() }
+}
+
+/// Broadcast both operands to their common shape, in C order.
+fn broadcast_pair(a: &RumpyArray, b: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
+    let shape = crate::array::broadcast_shapes(a.shape(), b.shape())?;
+    Some((contiguous(&a.broadcast_to(&shape)?), contiguous(&b.broadcast_to(&shape)?)))
+}
+
+/// Cast both operands to their promoted dtype.
+fn promote_pair(a: RumpyArray, b: RumpyArray) -> (RumpyArray, RumpyArray) {
+    if a.dtype() == b.dtype() {
+        return (a, b);
+    }
+    let dtype = crate::array::dtype::promote_dtype(&a.dtype(), &b.dtype());
+    (a.astype(dtype.clone()), b.astype(dtype))
+}
+
 // ============================================================================
 // Sinc: sin(pi*x) / (pi*x)
 // ============================================================================
 
 pub fn sinc(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => sinc_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => sinc_typed::<f64>(arr, DType::float64()),
@@ -54,6 +75,7 @@ fn sinc_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> RumpyArray {
 // ============================================================================
 
 pub fn i0(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => i0_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => i0_typed::<f64>(arr, DType::float64()),
@@ -107,6 +129,7 @@ fn i0_scalar<T: Float>(x: T) -> T {
 // ============================================================================
 
 pub fn spacing(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => spacing_f32(arr),
         DTypeKind::Float64 => spacing_f64(arr),
@@ -131,14 +154,13 @@ fn spacing_f64(arr: &RumpyArray) -> RumpyArray {
     let src_ptr = arr.data_ptr() as *const f64;
     for i in 0..size {
         let x = unsafe { *src_ptr.add(i) };
-        let next = if x >= 0.0 {
-            f64::from_bits(x.to_bits().wrapping_add(1))
-        } else if x.to_bits() == 0x8000_0000_0000_0000 {
-            f64::from_bits(1)
+        let ax = x.abs();
+        let gap = if ax.is_finite() {
+            (f64::from_bits(ax.to_bits() + 1) - ax).copysign(if x == 0.0 { 1.0 } else { x })
         } else {
-            f64::from_bits(x.to_bits().wrapping_sub(1))
+            f64::NAN
         };
-        unsafe { *result_ptr.add(i) = (next - x).abs() };
+        unsafe { *result_ptr.add(i) = gap };
     }
     result
 }
@@ -157,14 +179,13 @@ fn spacing_f32(arr: &RumpyArray) -> RumpyArray {
     let src_ptr = arr.data_ptr() as *const f32;
     for i in 0..size {
         let x = unsafe { *src_ptr.add(i) };
-        let next = if x >= 0.0 {
-            f32::from_bits(x.to_bits().wrapping_add(1))
-        } else if x.to_bits() == 0x8000_0000 {
-            f32::from_bits(1)
+        let ax = x.abs();
+        let gap = if ax.is_finite() {
+            (f32::from_bits(ax.to_bits() + 1) - ax).copysign(if x == 0.0 { 1.0 } else { x })
         } else {
-            f32::from_bits(x.to_bits().wrapping_sub(1))
+            f32::NAN
         };
-        unsafe { *result_ptr.add(i) = (next - x).abs() };
+        unsafe { *result_ptr.add(i) = gap };
     }
     result
 }
@@ -174,6 +195,7 @@ fn spacing_f32(arr: &RumpyArray) -> RumpyArray {
 // ============================================================================
 
 pub fn modf(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => modf_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => modf_typed::<f64>(arr, DType::float64()),
@@ -207,7 +229,7 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
     for i in 0..size {
         let x = unsafe { *src_ptr.add(i) };
         let int_val = x.trunc();
-        let frac_val = x - int_val;
+        let frac_val = x.fract_part();
         unsafe {
             *frac_ptr.add(i) = frac_val;
             *int_ptr.add(i) = int_val;
@@ -221,6 +243,7 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
 // ============================================================================
 
 pub fn frexp(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => frexp_f32(arr),
         DTypeKind::Float64 => frexp_f64(arr),
@@ -337,15 +360,16 @@ fn frexp_scalar_f32(x: f32) -> (f32, i32) {
 // Ldexp: x * 2^i
 // ============================================================================
 
-pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
+pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> Option<RumpyArray> {
+    let (x, i) = &broadcast_pair(x, i)?;
+    Some(match x.dtype().kind() {
         DTypeKind::Float32 => ldexp_typed::<f32>(x, i, DType::float32()),
         DTypeKind::Float64 => ldexp_typed::<f64>(x, i, DType::float64()),
         _ => {
             let x_f64 = x.astype(DType::float64());
             ldexp_typed::<f64>(&x_f64, i, DType::float64())
         }
-    }
+    })
 }
 
 fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -361,25 +385,14 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 
     let x_ptr = x.data_ptr() as *const T;
 
-    // Read exponents - they could be any integer type
-    let i_vals: Vec<i32> = match i.dtype().kind() {
-        DTypeKind::Int32 => {
-            let ptr = i.data_ptr() as *const i32;
-            (0..size).map(|idx| unsafe { *ptr.add(idx) }).collect()
-        }
-        DTypeKind::Int64 => {
-            let ptr = i.data_ptr() as *const i64;
-            (0..size).map(|idx| unsafe { *ptr.add(idx) as i32 }).collect()
-        }
-        _ => {
-            // Fallback: use to_vec
-            i.to_vec().iter().map(|&v| v as i32).collect()
-        }
-    };
+    // Exponents beyond the i32 range have the same effect as its ends
+    let i_i64 = i.astype(DType::int64());
+    let i_ptr = i_i64.data_ptr() as *const i64;
 
-    for (idx, &iv) in i_vals.iter().enumerate() {
+    for idx in 0..size {
         let xv = unsafe { *x_ptr.add(idx) };
-        let y = xv * T::TWO.powi(iv);
+        let iv = unsafe { *i_ptr.add(idx) }.clamp(i32::MIN as i64, i32::MAX as i64) as i32;
+        let y = xv.scale_pow2(iv);
         unsafe { *result_ptr.add(idx) = y };
     }
     result
@@ -389,8 +402,10 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 // Heaviside step function
 // ============================================================================
 
-pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
-    match x.dtype().kind() {
+pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> Option<RumpyArray> {
+    let (x, h0) = broadcast_pair(x, h0)?;
+    let (x, h0) = &promote_pair(x, h0);
+    Some(match x.dtype().kind() {
         DTypeKind::Float32 => heaviside_typed::<f32>(x, h0, DType::float32()),
         DTypeKind::Float64 => heaviside_typed::<f64>(x, h0, DType::float64()),
         _ => {
@@ -398,7 +413,7 @@ pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
             let h0_f64 = h0.astype(DType::float64());
             heaviside_typed::<f64>(&x_f64, &h0_f64, DType::float64())
         }
-    }
+    })
 }
 
 fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -422,8 +437,10 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
             T::ZERO
         } else if xv == T::ZERO {
             h0v
-        } else {
+        } else if xv > T::ZERO {
             T::ONE
+        } else {
+            xv // NaN
         };
         unsafe { *result_ptr.add(i) = y };
     }
@@ -434,9 +451,11 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
 // GCD: Greatest common divisor
 // ============================================================================
 
-pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
+pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    let (a, b) = broadcast_pair(a, b)?;
+    let (a, b) = &promote_pair(a, b);
     let kind = a.dtype().kind();
-    match kind {
+    Some(match kind {
         DTypeKind::Int64 => gcd_typed::<i64>(a, b, DType::int64()),
         DTypeKind::Int32 => gcd_typed::<i32>(a, b, DType::int32()),
         DTypeKind::Int16 => gcd_typed::<i16>(a, b, DType::int16()),
@@ -451,7 +470,7 @@ pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
             let b_i64 = b.astype(DType::int64());
             gcd_typed::<i64>(&a_i64, &b_i64, DType::int64())
         }
-    }
+    })
 }
 
 fn gcd_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -524,9 +543,11 @@ fn gcd_scalar_unsigned<T: UnsignedInt>(mut a: T, mut b: T) -> T {
 // LCM: Least common multiple
 // ============================================================================
 
-pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
+pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    let (a, b) = broadcast_pair(a, b)?;
+    let (a, b) = &promote_pair(a, b);
     let kind = a.dtype().kind();
-    match kind {
+    Some(match kind {
         DTypeKind::Int64 => lcm_typed::<i64>(a, b, DType::int64()),
         DTypeKind::Int32 => lcm_typed::<i32>(a, b, DType::int32()),
         DTypeKind::Int16 => lcm_typed::<i16>(a, b, DType::int16()),
@@ -540,7 +561,7 @@ pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
             let b_i64 = b.astype(DType::int64());
             lcm_typed::<i64>(&a_i64, &b_i64, DType::int64())
         }
-    }
+    })
 }
 
 fn lcm_typed<T: SignedInt>(a: &RumpyArray, b: &RumpyArray, dtype: DType) -> RumpyArray {
@@ -595,7 +616,7 @@ fn lcm_scalar_signed<T: SignedInt>(a: T, b: T) -> T {
     if a_abs == T::ZERO || b_abs == T::ZERO {
         T::ZERO
     } else {
-        a_abs / gcd_scalar_signed(a_abs, b_abs) * b_abs
+        (a_abs / gcd_scalar_signed(a_abs, b_abs)).mul_wrapping(b_abs)
     }
 }
 
@@ -603,7 +624,7 @@ fn lcm_scalar_unsigned<T: UnsignedInt>(a: T, b: T) -> T {
     if a == T::ZERO || b == T::ZERO {
         T::ZERO
     } else {
-        a / gcd_scalar_unsigned(a, b) * b
+        (a / gcd_scalar_unsigned(a, b)).mul_wrapping(b)
     }
 }
 
@@ -624,6 +645,10 @@ trait Float: Copy + PartialOrd + std::ops::Add<Output = Self> + std::ops::Mul<Ou
     fn abs(self) -> Self;
     fn trunc(self) -> Self;
     fn powi(self, n: i32) -> Self;
+    /// Fractional part with the sign of the value (zero for infinities).
+    fn fract_part(self) -> Self;
+    /// `self * 2^n` with a single rounding.
+    fn scale_pow2(self, n: i32) -> Self;
 }
 
 impl Float for f32 {
@@ -639,6 +664,10 @@ impl Float for f32 {
     #[inline] fn abs(self) -> Self { f32::abs(self) }
     #[inline] fn trunc(self) -> Self { f32::trunc(self) }
     #[inline] fn powi(self, n: i32) -> Self { f32::powi(self, n) }
+    #[inline] fn fract_part(self) -> Self {
+        if self.is_infinite() { 0.0f32.copysign(self) } else { (self - f32::trunc(self)).copysign(self) }
+    }
+    #[inline] fn scale_pow2(self, n: i32) -> Self { (self as f64).scale_pow2(n) as f32 }
 }
 
 impl Float for f64 {
@@ -654,42 +683,73 @@ impl Float for f64 {
     #[inline] fn abs(self) -> Self { f64::abs(self) }
     #[inline] fn trunc(self) -> Self { f64::trunc(self) }
     #[inline] fn powi(self, n: i32) -> Self { f64::powi(self, n) }
+    #[inline] fn fract_part(self) -> Self {
+        if self.is_infinite() { 0.0f64.copysign(self) } else { (self - f64::trunc(self)).copysign(self) }
+    }
+    fn scale_pow2(self, n: i32) -> Self {
+        // Step by exact powers; a partial step into the subnormal range would round twice.
+        let up = f64::from_bits(0x7fe0_0000_0000_0000); // 2^1023
+        let down = f64::from_bits(0x0360_0000_0000_0000); // 2^-969
+        let (mut x, mut n) = (self, n);
+        for _ in 0..2 {
+            if n > 1023 { x *= up; n -= 1023; } else if n < -1022 { x *= down; n += 969; }
+        }
+        x * f64::from_bits(((n.clamp(-1022, 1023) + 1023) as u64) << 52)
+    }
 }
 
 // ============================================================================
 // Integer traits for generic integer operations
 // ============================================================================
 
-trait SignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> + std::ops::Mul<Output = Self> {
+trait SignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> {
     const ZERO: Self;
     fn abs_val(self) -> Self;
+    fn mul_wrapping(self, other: Self) -> Self;
 }
 
 impl SignedInt for i64 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn mul_wrapping(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
 impl SignedInt for i32 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn mul_wrapping(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
 impl SignedInt for i16 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn mul_wrapping(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
 impl SignedInt for i8 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn mul_wrapping(self, other: Self) -> Self { self.wrapping_mul(other) }
 }
 
-trait UnsignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> + std::ops::Mul<Output = Self> {
+trait UnsignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> {
     const ZERO: Self;
+    fn mul_wrapping(self, other: Self) -> Self;
 }
 
-impl UnsignedInt for u64 { const ZERO: Self = 0; }
-impl UnsignedInt for u32 { const ZERO: Self = 0; }
-impl UnsignedInt for u16 { const ZERO: Self = 0; }
-impl UnsignedInt for u8 { const ZERO: Self = 0; }
+impl UnsignedInt for u64 {
+    const ZERO: Self = 0;
+    #[inline] fn mul_wrapping(self, other: Self) -> Self { self.wrapping_mul(other) }
+}
+impl UnsignedInt for u32 {
+    const ZERO: Self = 0;
+    #[inline] fn mul_wrapping(self, other: Self) -> Self { self.wrapping_mul(other) }
+}
+impl UnsignedInt for u16 {
+    const ZERO: Self = 0;
+    #[inline] fn mul_wrapping(self, other: Self) -> Self { self.wrapping_mul(other) }
+}
+impl UnsignedInt for u8 {
+    const ZERO: Self = 0;
+    #[inline] fn mul_wrapping(self, other: Self) -> Self { self.wrapping_mul(other) }
+}
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 151356b..3994f41 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -778,26 +778,34 @@ pub fn frexp(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
 
 /// Compute ldexp: x * 2^i.
 #[pyfunction]
-pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::ldexp(&x.inner, &i.inner))
+pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::ldexp(&x.inner, &i.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 /// Compute the Heaviside step function.
 #[pyfunction]
-pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::heaviside(&x.inner, &h0.inner))
+pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::heaviside(&x.inner, &h0.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 /// Compute the greatest common divisor element-wise.
 #[pyfunction]
-pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::gcd(&x1.inner, &x2.inner))
+pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::gcd(&x1.inner, &x2.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 /// Compute the least common multiple element-wise.
 #[pyfunction]
-pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::lcm(&x1.inner, &x2.inner))
+pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    crate::ops::lcm(&x1.inner, &x2.inner)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
 }
 
 // ============================================================================
-- 
2.43.0


From 7db0172265545d5965f62d47f032d0185ce44407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:25 +0000
Subject: [PATCH 10/30] fix: array creation: dtype inference over all elements,
 exact integers, dtype override converts, exact end points, buffer validation

---
 src/array/constructors.rs |  12 ++-
 src/array/manipulation.rs |   9 +-
 src/ops/char.rs           |  20 +++-
 src/ops/io.rs             |  11 ++-
 src/ops/linalg.rs         |  43 ++++-----
 src/ops/mod.rs            |   4 +
 src/ops/ufunc.rs          |   4 +-
 src/python/creation.rs    | 190 +++++++++++++++++++++++++++++---------
 src/python/shape.rs       |   5 +
 9 files changed, 221 insertions(+), 77 deletions(-)

diff --git a/src/array/constructors.rs b/src/array/constructors.rs
index 600a701..2607fc3 100644
--- a/src/array/constructors.rs
+++ b/src/array/constructors.rs
@@ -131,6 +131,15 @@ impl RumpyArray {
         arr
     }
 
+    /// Create int64-exact array of integers in [start, stop) with the given (nonzero) step.
+    pub fn arange_i64(start: i64, stop: i64, step: i64, dtype: DType) -> Self {
+        let span = stop as i128 - start as i128;
+        let step = step as i128;
+        let n = if span == 0 || (span > 0) != (step > 0) { 0 } else { (span.abs() + step.abs() - 1) / step.abs() };
+        let data: Vec<i64> = (0..n).map(|i| (start as i128 + i * step) as i64).collect();
+        Self::from_vec_i64(data, dtype)
+    }
+
     /// Create array with evenly spaced values over interval [start, stop].
     pub fn linspace(start: f64, stop: f64, num: usize, dtype: DType) -> Self {
         let mut arr = Self::zeros(vec![num], dtype);
@@ -147,7 +156,8 @@ impl RumpyArray {
         let step = if num > 1 { (stop - start) / (num - 1) as f64 } else { 0.0 };
 
         for i in 0..num {
-            let val = start + (i as f64) * step;
+            // the last point is exactly stop
+            let val = if i > 0 && i == num - 1 { stop } else { start + (i as f64) * step };
             unsafe { ops.write_f64(ptr, i, val); }
         }
         arr
diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 1fce611..ee25a81 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -522,7 +522,14 @@ pub fn geomspace(start: f64, stop: f64, num: usize, dtype: DType) -> Option<Rump
     let step = if num > 1 { (log_stop - log_start) / (num - 1) as f64 } else { 0.0 };
 
     for i in 0..num {
-        let val = sign * (log_start + (i as f64) * step).exp();
+        // the end points are exact
+        let val = if i == 0 {
+            start
+        } else if i == num - 1 {
+            stop
+        } else {
+            sign * (log_start + (i as f64) * step).exp()
+        };
         unsafe { ops.write_f64(ptr, i, val); }
     }
     Some(arr)
diff --git a/src/ops/char.rs b/src/ops/char.rs
index 3701b90..c09c0e1 100644
--- a/src/ops/char.rs
+++ b/src/ops/char.rs
@@ -277,19 +277,29 @@ fn cp_is_cased(cp: u32) -> bool {
     cp_is_upper(cp) || cp_is_lower(cp)
 }
 
-/// Read a string from a string array at the given flat index.
+/// Read a string from a string array at the given flat (row-major) index.
 ///
 /// # Safety
 /// The array must have a string dtype and the index must be valid.
 unsafe fn read_string(arr: &RumpyArray, flat_idx: usize) -> String {
+    let mut rem = flat_idx;
+    let mut byte_offset = 0isize;
+    for (&len, &stride) in arr.shape().iter().zip(arr.strides().iter()).rev() {
+        byte_offset += (rem % len) as isize * stride;
+        rem /= len;
+    }
+    read_string_at(arr, arr.data_ptr(), byte_offset)
+}
+
+/// Read the string stored at a byte offset from a string array's data pointer.
+///
+/// # Safety
+/// The array must have a string dtype and the offset must address an element.
+pub(crate) unsafe fn read_string_at(arr: &RumpyArray, ptr: *const u8, byte_offset: isize) -> String {
     let max_chars = match arr.dtype().kind() {
         DTypeKind::Str(mc) => mc,
         _ => return String::new(),
     };
-
-    let itemsize = arr.dtype().itemsize();
-    let ptr = arr.data_ptr();
-    let byte_offset = (flat_idx * itemsize) as isize;
     let start = ptr.offset(byte_offset) as *const u32;
 
     let mut chars = Vec::with_capacity(max_chars);
diff --git a/src/ops/io.rs b/src/ops/io.rs
index 5e70630..d0de468 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -661,8 +661,17 @@ fn compute_f_strides(shape: &[usize], itemsize: usize) -> Vec<isize> {
 /// Create array from raw bytes buffer.
 pub fn frombuffer(data: &[u8], dtype: DType, count: isize, offset: usize) -> Result<RumpyArray, String> {
     let itemsize = dtype.itemsize();
-    let available_bytes = data.len().saturating_sub(offset);
+    if itemsize == 0 {
+        return Err("itemsize cannot be zero in type".to_string());
+    }
+    let available_bytes = data
+        .len()
+        .checked_sub(offset)
+        .ok_or_else(|| format!("offset {} is beyond the buffer of {} bytes", offset, data.len()))?;
     let max_elements = available_bytes / itemsize;
+    if count < 0 && available_bytes % itemsize != 0 {
+        return Err("buffer size must be a multiple of element size".to_string());
+    }
 
     let n = if count < 0 {
         max_elements
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 75342a4..b68bf9d 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -388,35 +388,28 @@ pub fn cholesky(a: &RumpyArray) -> Option<RumpyArray> {
 /// - 1D input: returns 2D diagonal matrix with input on diagonal
 /// - 2D input: returns 1D array of diagonal elements
 pub fn diag(a: &RumpyArray) -> Option<RumpyArray> {
-    match a.ndim() {
-        1 => {
-            // Create diagonal matrix from 1D array
-            let n = a.shape()[0];
-            let result = RumpyArray::zeros(vec![n, n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i]);
-                unsafe {
-                    let ptr = result.data_ptr().add((i * n + i) * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
-        }
+    let (shape, n) = match a.ndim() {
+        // Create diagonal matrix from 1D array
+        1 => (vec![a.shape()[0]; 2], a.shape()[0]),
+        // Extract diagonal from 2D matrix
         2 => {
-            // Extract diagonal from 2D matrix
             let n = a.shape()[0].min(a.shape()[1]);
-            let result = RumpyArray::zeros(vec![n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i, i]);
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
+            (vec![n], n)
         }
-        _ => None,
+        _ => return None,
+    };
+    let construct = a.ndim() == 1;
+    let mut result = RumpyArray::zeros(shape, a.dtype());
+    let dtype = a.dtype();
+    let ops = dtype.ops();
+    let src = a.data_ptr();
+    let dst = result.data_ptr_mut();
+    let step: isize = a.strides().iter().sum();
+    for i in 0..n {
+        let to = if construct { i * n + i } else { i };
+        unsafe { ops.copy_element(src, i as isize * step, dst, to); }
     }
+    Some(result)
 }
 
 /// Sign and log of determinant (for numerical stability with large determinants).
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index cda100c..acfd490 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -272,6 +272,10 @@ impl RumpyArray {
                 let val = unsafe { *(ptr.offset(offset) as *const u64) };
                 Ok(val.into_pyobject(py)?.into_any().unbind())
             }
+            DTypeKind::Str(_) => {
+                let val = unsafe { crate::ops::char::read_string_at(self, ptr, offset) };
+                Ok(val.into_pyobject(py)?.into_any().unbind())
+            }
             DTypeKind::Complex64 | DTypeKind::Complex128 => {
                 let (re, im) = unsafe { ops.read_complex(ptr, offset) }.unwrap_or((0.0, 0.0));
                 Ok(pyo3::types::PyComplex::from_doubles(py, re, im).into_any().unbind())
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 7844b5a..1babef8 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -46,7 +46,9 @@ fn is_transcendental(op: UnaryOp) -> bool {
     matches!(op, UnaryOp::Exp | UnaryOp::Log | UnaryOp::Log10 | UnaryOp::Log2 | UnaryOp::Sqrt |
                  UnaryOp::Sin | UnaryOp::Cos | UnaryOp::Tan |
                  UnaryOp::Sinh | UnaryOp::Cosh | UnaryOp::Tanh |
-                 UnaryOp::Arcsin | UnaryOp::Arccos | UnaryOp::Arctan)
+                 UnaryOp::Arcsin | UnaryOp::Arccos | UnaryOp::Arctan |
+                 UnaryOp::Arcsinh | UnaryOp::Arccosh | UnaryOp::Arctanh |
+                 UnaryOp::Exp2 | UnaryOp::Expm1 | UnaryOp::Log1p | UnaryOp::Cbrt | UnaryOp::Rint)
 }
 
 /// Check if dtype is an integer type.
diff --git a/src/python/creation.rs b/src/python/creation.rs
index f8e5794..28a320a 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -36,16 +36,43 @@ pub fn ones(shape: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (start_or_stop, stop=None, step=None, dtype=None))]
 pub fn arange(
-    start_or_stop: f64,
-    stop: Option<f64>,
-    step: Option<f64>,
+    start_or_stop: &Bound<'_, PyAny>,
+    stop: Option<&Bound<'_, PyAny>>,
+    step: Option<&Bound<'_, PyAny>>,
     dtype: Option<&Bound<'_, PyAny>>,
 ) -> PyResult<PyRumpyArray> {
-    let (start, stop, step) = match stop {
-        Some(stop) => (start_or_stop, stop, step.unwrap_or(1.0)),
-        None => (0.0, start_or_stop, step.unwrap_or(1.0)),
+    let zero_step = || pyo3::exceptions::PyValueError::new_err("arange: step must not be zero");
+
+    // Integer arguments: exact integer arithmetic, int64 by default
+    let int = |x: &Bound<'_, PyAny>| {
+        if x.is_instance_of::<pyo3::types::PyInt>() { x.extract::<i64>().ok() } else { None }
     };
-    let dtype = resolve_dtype(dtype, "int64")?;
+    let int_or = |x: Option<&Bound<'_, PyAny>>, default| x.map_or(Some(default), int);
+    if let (Some(first), Some(last), Some(step)) = (int(start_or_stop), int_or(stop, 0), int_or(step, 1)) {
+        let (start, stop) = if stop.is_some() { (first, last) } else { (0, first) };
+        let dtype = resolve_dtype(dtype, "int64")?;
+        if step == 0 {
+            return Err(zero_step());
+        }
+        return Ok(PyRumpyArray::new(RumpyArray::arange_i64(start, stop, step, dtype)));
+    }
+
+    let first: f64 = start_or_stop.extract()?;
+    let (start, stop) = match stop {
+        Some(stop) => (first, stop.extract()?),
+        None => (0.0, first),
+    };
+    let step: f64 = match step {
+        Some(step) => step.extract()?,
+        None => 1.0,
+    };
+    let dtype = resolve_dtype(dtype, "float64")?;
+    if step == 0.0 {
+        return Err(zero_step());
+    }
+    if !((stop - start) / step).is_finite() {
+        return Err(pyo3::exceptions::PyValueError::new_err("arange: cannot compute length"));
+    }
     Ok(PyRumpyArray::new(RumpyArray::arange(start, stop, step, dtype)))
 }
 
@@ -335,11 +362,8 @@ pub fn array_impl(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'
 
     // Try to iterate as a sequence
     if let Ok(seq) = obj.try_iter() {
-        let items: Vec<f64> = seq
-            .map(|item| item.and_then(|i| i.extract::<f64>()))
-            .collect::<PyResult<Vec<f64>>>()?;
-        let dtype = resolve_dtype(dtype, "float64")?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec(items, dtype)));
+        let items: Vec<Bound<'_, PyAny>> = seq.collect::<PyResult<_>>()?;
+        return from_list(&PyList::new(py, items)?, dtype);
     }
 
     Err(pyo3::exceptions::PyTypeError::new_err(
@@ -363,12 +387,18 @@ fn from_array_interface(
         return Err(pyo3::exceptions::PyValueError::new_err("Invalid shape"));
     };
 
-    // Extract typestr to determine dtype
+    // Extract typestr to determine the dtype of the data
     let typestr: String = interface.get_item("typestr")?.extract()?;
-    let dtype = if let Some(dt) = dtype_override {
-        parse_dtype_any(dt)?
-    } else {
-        dtype_from_typestr(&typestr)?
+    let dtype = dtype_from_typestr(&typestr)?;
+    if typestr.starts_with('>') && dtype.itemsize() > 1 {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "Unsupported byte order: {}",
+            typestr
+        )));
+    }
+    let target_dtype = match dtype_override {
+        Some(dt) => parse_dtype_any(dt)?,
+        None => dtype.clone(),
     };
 
     // Extract data pointer
@@ -395,7 +425,7 @@ fn from_array_interface(
     let mut arr = RumpyArray::zeros(shape.clone(), dtype);
 
     if size == 0 {
-        return Ok(PyRumpyArray::new(arr));
+        return Ok(PyRumpyArray::new(RumpyArray::zeros(shape, target_dtype)));
     }
 
     // Copy data respecting strides
@@ -425,28 +455,58 @@ fn from_array_interface(
         increment_indices(&mut indices, &shape);
     }
 
+    if target_dtype != dtype {
+        arr = arr.astype(target_dtype);
+    }
     Ok(PyRumpyArray::new(arr))
 }
 
-/// Infer dtype from first element of a Python list.
-fn infer_dtype_from_list(list: &Bound<'_, PyList>) -> Option<DType> {
-    if list.is_empty() {
-        return Some(DType::float64());
-    }
-    let first = list.get_item(0).ok()?;
-    // Recurse into nested lists
-    if let Ok(sublist) = first.downcast::<PyList>() {
-        return infer_dtype_from_list(sublist);
-    }
-    // Check type of first element - order matters: bool before int!
-    if first.is_instance_of::<pyo3::types::PyBool>() {
-        return Some(DType::bool());
-    }
-    if first.is_instance_of::<pyo3::types::PyInt>() {
-        return Some(DType::int64());
+/// Kinds of list elements, in promotion order.
+#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
+enum ElementKind {
+    Bool,
+    Int,
+    UInt,
+    Float,
+}
+
+/// Widen `kind` over all numbers of a (possibly nested) list.
+fn widen_over_list(list: &Bound<'_, PyList>, kind: &mut Option<ElementKind>, negative: &mut bool) {
+    for item in list.iter() {
+        if let Ok(sublist) = item.downcast::<PyList>() {
+            widen_over_list(sublist, kind, negative);
+            continue;
+        }
+        // order matters: bool before int!
+        let k = if item.is_instance_of::<pyo3::types::PyBool>() {
+            ElementKind::Bool
+        } else if item.is_instance_of::<pyo3::types::PyInt>() {
+            match item.extract::<i64>() {
+                Ok(v) => {
+                    *negative |= v < 0;
+                    ElementKind::Int
+                }
+                // 2**63 .. 2**64-1 only fit uint64
+                Err(_) if item.extract::<u64>().is_ok() => ElementKind::UInt,
+                Err(_) => ElementKind::Float,
+            }
+        } else {
+            ElementKind::Float
+        };
+        *kind = Some(kind.map_or(k, |cur| cur.max(k)));
     }
-    if first.is_instance_of::<pyo3::types::PyFloat>() {
-        return Some(DType::float64());
+}
+
+/// Infer dtype from the elements of a Python list.
+fn infer_dtype_from_list(list: &Bound<'_, PyList>) -> Option<DType> {
+    // The first scalar decides between strings, bytes and numbers
+    let mut first = list.as_any().clone();
+    while let Ok(sublist) = first.downcast::<PyList>() {
+        if sublist.is_empty() {
+            return Some(DType::float64());
+        }
+        let item = sublist.get_item(0).ok()?;
+        first = item;
     }
     // Check for strings - compute max length from all elements
     if first.is_instance_of::<pyo3::types::PyString>() {
@@ -458,7 +518,49 @@ fn infer_dtype_from_list(list: &Bound<'_, PyList>) -> Option<DType> {
         let max_len = compute_max_bytes_length(list).unwrap_or(0);
         return Some(DType::bytes_(max_len));
     }
-    Some(DType::float64())
+    // Numbers: the dtype that holds every element
+    let (mut kind, mut negative) = (None, false);
+    widen_over_list(list, &mut kind, &mut negative);
+    Some(match kind? {
+        ElementKind::Bool => DType::bool(),
+        ElementKind::Int => DType::int64(),
+        ElementKind::UInt if !negative => DType::uint64(),
+        ElementKind::UInt | ElementKind::Float => DType::float64(),
+    })
+}
+
+/// Shape of a nested list; an error if its sublists differ in shape.
+fn nested_list_shape(list: &Bound<'_, PyList>) -> PyResult<Vec<usize>> {
+    let mut inner: Option<Vec<usize>> = None;
+    for item in list.iter() {
+        let shape = match item.downcast::<PyList>() {
+            Ok(sublist) => nested_list_shape(sublist)?,
+            Err(_) => vec![],
+        };
+        match &inner {
+            Some(s) if *s != shape => {
+                return Err(pyo3::exceptions::PyValueError::new_err(
+                    "setting an array element with a sequence: the list has an inhomogeneous shape",
+                ));
+            }
+            Some(_) => {}
+            None => inner = Some(shape),
+        }
+    }
+    let mut shape = vec![list.len()];
+    shape.extend(inner.unwrap_or_default());
+    Ok(shape)
+}
+
+/// Integer element as the bits stored in an integer array of `dtype`.
+fn extract_integer(item: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<i64> {
+    item.extract::<i64>().or_else(|e| {
+        if dtype.kind() == crate::array::dtype::DTypeKind::Uint64 {
+            item.extract::<u64>().map(|v| v as i64)
+        } else {
+            Err(e)
+        }
+    })
 }
 
 /// Compute the maximum string length in a (possibly nested) list.
@@ -500,6 +602,8 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
         None => infer_dtype_from_list(list).unwrap_or(DType::float64()),
     };
 
+    nested_list_shape(list)?;
+
     // Check if nested (2D+)
     if list.is_empty() {
         return Ok(PyRumpyArray::new(RumpyArray::zeros(vec![0], dtype)));
@@ -528,7 +632,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     // Handle timedelta64 dtype
     if let DTypeKind::TimeDelta64(_unit) = dtype.kind() {
         if first.downcast::<PyList>().is_ok() {
-            let (shape, data) = flatten_nested_list_i64(list)?;
+            let (shape, data) = flatten_nested_list_i64(list, &dtype)?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
         }
         let data: Vec<i64> = list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<Vec<_>>>()?;
@@ -565,7 +669,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
         // Nested list - recursively get shape and flatten
         // Try integer path for integer dtypes, fall back to f64
         if dtype.is_integer() {
-            if let Ok((shape, data)) = flatten_nested_list_i64(list) {
+            if let Ok((shape, data)) = flatten_nested_list_i64(list, &dtype) {
                 return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
             }
         }
@@ -578,7 +682,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
         // Try extracting as i64 first (preserves large int precision)
         let data_i64: Result<Vec<i64>, _> = list
             .iter()
-            .map(|item| item.extract::<i64>())
+            .map(|item| extract_integer(&item, &dtype))
             .collect();
         if let Ok(data) = data_i64 {
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
@@ -613,19 +717,19 @@ fn flatten_nested_list(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<f6
 }
 
 /// Flatten nested Python list, returning shape and data as i64.
-fn flatten_nested_list_i64(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<i64>)> {
+fn flatten_nested_list_i64(list: &Bound<'_, PyList>, dtype: &DType) -> PyResult<(Vec<usize>, Vec<i64>)> {
     let mut shape = vec![list.len()];
     let mut data = Vec::new();
 
     for item in list.iter() {
         if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_i64(sublist)?;
+            let (sub_shape, sub_data) = flatten_nested_list_i64(sublist, dtype)?;
             if shape.len() == 1 {
                 shape.extend(sub_shape);
             }
             data.extend(sub_data);
         } else {
-            data.push(item.extract::<i64>()?);
+            data.push(extract_integer(&item, dtype)?);
         }
     }
 
diff --git a/src/python/shape.rs b/src/python/shape.rs
index f7434f4..e19d285 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -53,6 +53,11 @@ pub fn to_rumpy_array(obj: &Bound<'_, pyo3::PyAny>) -> PyResult<RumpyArray> {
     }
 
     // Try scalar
+    if obj.is_instance_of::<pyo3::types::PyInt>() && !obj.is_instance_of::<pyo3::types::PyBool>() {
+        if let Ok(val) = obj.extract::<i64>() {
+            return Ok(RumpyArray::from_vec_i64(vec![val], DType::int64()));
+        }
+    }
     if let Ok(val) = obj.extract::<f64>() {
         return Ok(RumpyArray::full(vec![1], val, DType::float64()));
     }
-- 
2.43.0


From 04ed415db6cd59e0af763ee9ee6eca0056449f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:00 +0000
Subject: [PATCH 11/30] fix: can_cast follows NumPy for 64-bit integers,
 complex targets and same_kind

---
 src/python/dtype.rs | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index 20be57d..f541be2 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -344,7 +344,7 @@ pub fn can_cast(from_dtype: &Bound<'_, PyAny>, to_dtype: &Bound<'_, PyAny>, cast
 
     match casting {
         "no" => Ok(from_dt == to_dt),
-        "equiv" => Ok(from_dt == to_dt || (from_dt.itemsize() == to_dt.itemsize())),
+        "equiv" => Ok(from_dt == to_dt),
         "safe" => Ok(can_cast_safe(&from_dt, &to_dt)),
         "same_kind" => Ok(can_cast_same_kind(&from_dt, &to_dt)),
         "unsafe" => Ok(true),  // Anything can cast unsafely
@@ -407,7 +407,7 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
     if (is_signed(&fk) || is_unsigned(&fk)) && is_float(&tk) {
         let from_bits = int_bits(&fk);
         return match tk {
-            Float64 => from_bits <= 32,  // float64 can exactly represent int32
+            Float64 => true,  // NumPy treats every integer as safe for float64
             Float32 => from_bits <= 16,  // float32 can exactly represent int16
             Float16 => from_bits <= 8,   // float16 can exactly represent small ints
             _ => false,
@@ -416,7 +416,7 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
 
     // Integer to complex
     if (is_signed(&fk) || is_unsigned(&fk)) && is_complex(&tk) {
-        return true;  // Complex can hold any integer
+        return matches!(tk, Complex128) || int_bits(&fk) <= 16;
     }
 
     // Signed int to larger signed int
@@ -448,26 +448,17 @@ fn can_cast_same_kind(from: &DType, to: &DType) -> bool {
     let fk = from.kind();
     let tk = to.kind();
 
-    let is_int = |k: &DTypeKind| matches!(k, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64);
-    let is_float = |k: &DTypeKind| matches!(k, Float16 | Float32 | Float64);
-    let is_complex = |k: &DTypeKind| matches!(k, Complex64 | Complex128);
-
-    // Int to int (any direction)
-    if is_int(&fk) && is_int(&tk) {
-        return true;
-    }
-
-    // Float to float (any direction)
-    if is_float(&fk) && is_float(&tk) {
-        return true;
-    }
-
-    // Complex to complex (any direction)
-    if is_complex(&fk) && is_complex(&tk) {
-        return true;
-    }
+    // Kinds are ordered: bool < unsigned < signed < float < complex
+    let rank = |k: &DTypeKind| match k {
+        Bool => Some(0),
+        Uint8 | Uint16 | Uint32 | Uint64 => Some(1),
+        Int8 | Int16 | Int32 | Int64 => Some(2),
+        Float16 | Float32 | Float64 => Some(3),
+        Complex64 | Complex128 => Some(4),
+        _ => None,
+    };
 
-    false
+    matches!((rank(&fk), rank(&tk)), (Some(f), Some(t)) if f <= t)
 }
 
 /// Find common type for array operands (returns scalar type for computations).
-- 
2.43.0


From b0eb6abd32c8a71222c407548b0b73f46dfb0d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:25 +0000
Subject: [PATCH 12/30] fix: joining, splitting and repeating: common dtype,
 exact elements, layouts, negative axes, NumPy insert/delete/pad/block rules

---
 src/array/manipulation.rs | 474 +++++++++++---------------------------
 src/python/misc.rs        |  64 +++--
 src/python/pyarray/mod.rs |  89 ++-----
 src/python/shape.rs       | 125 ++++++----
 4 files changed, 251 insertions(+), 501 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index ee25a81..c8c50b5 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -2,7 +2,7 @@
 
 use std::sync::Arc;
 
-use super::dtype::DType;
+use super::dtype::{promote_dtype, DType};
 use super::{increment_indices, RumpyArray};
 
 /// Concatenate arrays along an axis.
@@ -35,8 +35,12 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     let mut out_shape = first.shape().to_vec();
     out_shape[axis] = arrays.iter().map(|a| a.shape()[axis]).sum();
 
-    // Use dtype of first array (TODO: dtype promotion)
-    let dtype = first.dtype();
+    // Elements are converted to the common dtype first
+    let dtype = arrays.iter().skip(1).fold(first.dtype(), |d, a| promote_dtype(&d, &a.dtype()));
+    if arrays.iter().any(|a| a.dtype() != dtype) {
+        let converted: Vec<RumpyArray> = arrays.iter().map(|a| a.astype(dtype.clone())).collect();
+        return concatenate(&converted, axis);
+    }
     let mut result = RumpyArray::zeros(out_shape, dtype);
 
     if result.size() == 0 {
@@ -902,102 +906,58 @@ fn convolve_fft(a: &[f64], v: &[f64]) -> Vec<f64> {
     a_c[..out_len].iter().map(|c| c.re / fft_len as f64).collect()
 }
 
-/// Helper: compute linear index from multi-dimensional indices for C-contiguous array.
-fn linear_index(indices: &[usize], shape: &[usize]) -> usize {
-    let mut idx = 0;
-    let mut stride = 1;
-    for i in (0..indices.len()).rev() {
-        idx += indices[i] * stride;
-        stride *= shape[i];
+/// Build a C-contiguous array of the given shape whose element at each index is a copy
+/// of the element of `arr` that `src_index` writes into its second argument.
+fn gather<F>(arr: &RumpyArray, shape: Vec<usize>, src_index: F) -> RumpyArray
+where
+    F: Fn(&[usize], &mut [usize]),
+{
+    let dtype = arr.dtype();
+    let mut result = RumpyArray::zeros(shape.clone(), dtype.clone());
+    let size = result.size();
+    if size == 0 {
+        return result;
+    }
+    let src_ptr = arr.data_ptr();
+    let ops = dtype.ops();
+    let dst_ptr = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+
+    let mut dst_indices = vec![0usize; shape.len()];
+    let mut src_indices = vec![0usize; arr.ndim()];
+    for i in 0..size {
+        src_index(&dst_indices, &mut src_indices);
+        unsafe { ops.copy_element(src_ptr, arr.byte_offset_for(&src_indices), dst_ptr, i); }
+        increment_indices(&mut dst_indices, &shape);
+    }
+    result
+}
+
+/// Resolve a possibly negative axis; None if it is out of bounds.
+fn resolve_axis(axis: isize, ndim: usize) -> Option<usize> {
+    let n = ndim as isize;
+    if axis < -n || axis >= n {
+        return None;
     }
-    idx
+    Some(if axis < 0 { axis + n } else { axis } as usize)
 }
 
 /// Repeat elements of an array.
 /// If axis is None, flatten and repeat. Otherwise repeat along axis.
 pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<RumpyArray> {
-    if repeats == 0 {
-        return Some(RumpyArray::zeros(vec![0], arr.dtype()));
-    }
-
-    match axis {
-        None => {
-            // Flatten and repeat each element
-            let size = arr.size();
-            let new_size = size * repeats;
-            let src_dtype = arr.dtype();
-            let mut result = RumpyArray::zeros(vec![new_size], src_dtype.clone());
-
-            let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
-            let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-            let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
-
-            let mut dst_idx = 0;
-            for offset in arr.iter_offsets() {
-                let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
-                for _ in 0..repeats {
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_idx, val); }
-                    dst_idx += 1;
-                }
-            }
-            Some(result)
-        }
-        Some(ax) => {
-            let ndim = arr.ndim();
-            let axis = if ax < 0 { (ndim as isize + ax) as usize } else { ax as usize };
-            if axis >= ndim {
-                return None;
-            }
-
-            // New shape with axis dimension multiplied by repeats
-            let mut new_shape = arr.shape().to_vec();
-            new_shape[axis] *= repeats;
-            let src_dtype = arr.dtype();
-            let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
-
-            let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
-            let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-            let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
-
-            // Iterate through source indices and write repeated values
-            let src_shape = arr.shape();
-            let mut src_indices = vec![0usize; ndim];
-            let mut dst_indices = vec![0usize; ndim];
-
-            let size = arr.size();
-            for _ in 0..size {
-                let src_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_offset) }.unwrap_or(0.0);
-
-                // Write this value `repeats` times along the axis
-                dst_indices.copy_from_slice(&src_indices);
-                let base_axis_idx = src_indices[axis] * repeats;
-                for r in 0..repeats {
-                    dst_indices[axis] = base_axis_idx + r;
-                    let dst_offset = linear_index(&dst_indices, &new_shape);
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
-                }
-
-                increment_indices(&mut src_indices, src_shape);
-            }
-
-            Some(result)
-        }
-    }
+    let (src, axis) = match axis {
+        None => (ravel_arr(arr), 0),
+        Some(ax) => (arr.clone(), resolve_axis(ax, arr.ndim())?),
+    };
+    let mut new_shape = src.shape().to_vec();
+    new_shape[axis] = new_shape[axis].checked_mul(repeats)?;
+    Some(gather(&src, new_shape, |dst, idx| {
+        idx.copy_from_slice(dst);
+        idx[axis] = dst[axis] / repeats;
+    }))
 }
 
 /// Construct array by repeating input array by given reps.
 pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
-    if reps.is_empty() || reps.iter().all(|&r| r == 1) {
-        return arr.copy();
-    }
-
     // Extend reps to match dimensions if needed
     let arr_ndim = arr.ndim();
     let reps_len = reps.len();
@@ -1042,45 +1002,13 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
         return result;
     }
 
-    let src_ptr = arr.data_ptr();
-    let src_ops = src_dtype.ops();
-    let dst_dtype = result.dtype();
-    let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-    let dst_ops = dst_dtype.ops();
-
-    // Iterate through destination indices
-    let mut dst_indices = vec![0usize; max_ndim];
-    let dst_size: usize = new_shape.iter().product();
-
-    for i in 0..dst_size {
-        // Map destination index to source index (modulo)
-        let src_indices: Vec<usize> = dst_indices.iter()
-            .zip(padded_shape.iter())
-            .map(|(&di, &ps)| di % ps)
-            .collect();
-
-        // Get source offset (for original array shape)
-        let actual_src_indices: Vec<usize> = if arr_ndim < max_ndim {
-            // Use only the rightmost dimensions
-            src_indices[max_ndim - arr_ndim..].to_vec()
-        } else {
-            src_indices
-        };
-        let src_byte_offset = arr.byte_offset_for(&actual_src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
-
-        // Destination offset (result is C-contiguous, so use linear index)
-        let dst_offset = linear_index(&dst_indices, &new_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
-
-        // Increment destination indices
-        if i + 1 < dst_size {
-            increment_indices(&mut dst_indices, &new_shape);
+    // Map destination index to source index (modulo), right-aligned
+    let off = max_ndim - arr_ndim;
+    gather(arr, new_shape, |dst, idx| {
+        for d in 0..arr_ndim {
+            idx[d] = dst[off + d] % src_shape[d];
         }
-    }
-
-    result
+    })
 }
 
 /// Helper: flatten array to 1D (always copies).
@@ -1105,7 +1033,7 @@ pub fn append(arr: &RumpyArray, values: &RumpyArray, axis: Option<isize>) -> Opt
         }
         Some(ax) => {
             let ndim = arr.ndim();
-            let axis = if ax < 0 { (ndim as isize + ax) as usize } else { ax as usize };
+            let axis = resolve_axis(ax, ndim)?;
             concatenate(&[arr.clone(), values.clone()], axis)
         }
     }
@@ -1114,92 +1042,61 @@ pub fn append(arr: &RumpyArray, values: &RumpyArray, axis: Option<isize>) -> Opt
 /// Insert values into array at given index.
 /// If axis is None, flatten first.
 pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<isize>) -> Option<RumpyArray> {
-    match axis {
-        None => {
-            // Flatten
-            let flat = ravel_arr(arr);
-            let size = flat.size();
-            let idx = if index < 0 { (size as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(size);
-
-            // Split at index, insert, concatenate
-            let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
-            let after = if idx < size { flat.slice_axis(0, idx as isize, size as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
-            let flat_vals = ravel_arr(values);
-
-            concatenate(&[before, flat_vals, after], 0)
-        }
+    let values = values.astype(arr.dtype());
+    let (src, axis, values) = match axis {
+        None => (ravel_arr(arr), 0, ravel_arr(&values)),
         Some(ax) => {
             let ndim = arr.ndim();
-            let axis = if ax < 0 { (ndim as isize + ax) as usize } else { ax as usize };
-            if axis >= ndim {
+            let axis = resolve_axis(ax, ndim)?;
+            if values.ndim() > ndim {
                 return None;
             }
+            // Prepend length-1 axes, then move the first axis to `axis`
+            let mut shape = vec![1usize; ndim - values.ndim()];
+            shape.extend_from_slice(values.shape());
+            let values = values.reshape(shape)?;
+            let mut order: Vec<usize> = (1..ndim).collect();
+            order.insert(axis, 0);
+            (arr.clone(), axis, values.transpose_axes(&order))
+        }
+    };
 
-            let axis_len = arr.shape()[axis];
-            let idx = if index < 0 { (axis_len as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(axis_len);
-
-            let before = arr.slice_axis(axis, 0, idx as isize, 1);
-            let after = arr.slice_axis(axis, idx as isize, axis_len as isize, 1);
+    let axis_len = src.shape()[axis] as isize;
+    if index < -axis_len || index > axis_len {
+        return None;
+    }
+    let idx = if index < 0 { index + axis_len } else { index };
+    let before = src.slice_axis(axis, 0, idx, 1);
+    let after = src.slice_axis(axis, idx, axis_len, 1);
 
-            // Values need to be reshaped to match
-            let mut val_shape = arr.shape().to_vec();
-            val_shape[axis] = values.size() / (arr.size() / axis_len).max(1);
-            let vals_reshaped = values.reshape(val_shape).unwrap_or_else(|| values.clone());
+    let mut val_shape = src.shape().to_vec();
+    val_shape[axis] = values.shape()[axis];
+    let values = values.broadcast_to(&val_shape)?;
 
-            concatenate(&[before, vals_reshaped, after], axis)
-        }
-    }
+    concatenate(&[before, values, after], axis)
 }
 
 /// Delete elements from array at given index.
 /// If axis is None, flatten first.
 pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<RumpyArray> {
-    match axis {
-        None => {
-            let flat = ravel_arr(arr);
-            let size = flat.size();
-            if size == 0 {
-                return Some(flat);
-            }
-            let idx = if index < 0 { (size as isize + index).max(0) as usize } else { index as usize };
-            if idx >= size {
-                return Some(flat);
-            }
-
-            let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
-            let after = if idx + 1 < size { flat.slice_axis(0, (idx + 1) as isize, size as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
-
-            concatenate(&[before, after], 0)
-        }
-        Some(ax) => {
-            let ndim = arr.ndim();
-            let axis = if ax < 0 { (ndim as isize + ax) as usize } else { ax as usize };
-            if axis >= ndim {
-                return None;
-            }
-
-            let axis_len = arr.shape()[axis];
-            if axis_len == 0 {
-                return Some(arr.clone());
-            }
-            let idx = if index < 0 { (axis_len as isize + index).max(0) as usize } else { index as usize };
-            if idx >= axis_len {
-                return Some(arr.clone());
-            }
-
-            let before = arr.slice_axis(axis, 0, idx as isize, 1);
-            let after = arr.slice_axis(axis, (idx + 1) as isize, axis_len as isize, 1);
-
-            concatenate(&[before, after], axis)
-        }
+    let (src, axis) = match axis {
+        None => (ravel_arr(arr), 0),
+        Some(ax) => (arr.clone(), resolve_axis(ax, arr.ndim())?),
+    };
+    let axis_len = src.shape()[axis] as isize;
+    if index < -axis_len || index >= axis_len {
+        return None;
     }
+    let idx = if index < 0 { index + axis_len } else { index };
+    let before = src.slice_axis(axis, 0, idx, 1);
+    let after = src.slice_axis(axis, idx + 1, axis_len, 1);
+
+    concatenate(&[before, after], axis)
 }
 
 /// Pad an array.
 /// pad_width is a slice of (before, after) tuples for each dimension.
-pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_value: f64) -> Option<RumpyArray> {
+pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_value: &RumpyArray) -> Option<RumpyArray> {
     let ndim = arr.ndim();
     if pad_width.len() != ndim {
         return None;
@@ -1213,44 +1110,22 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
 
     match mode {
         "constant" => {
-            let mut result = RumpyArray::full(new_shape.clone(), constant_value, arr.dtype());
+            let fill = constant_value.astype(arr.dtype()).reshape(vec![1])?;
+            let mut result = gather(&fill, new_shape.clone(), |_, _| {});
             copy_region(arr, &mut result, pad_width, &new_shape);
             Some(result)
         }
         "edge" => {
-            let src_dtype = arr.dtype();
-            let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
-            let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
-            let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-            let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
-
-            let mut dst_indices = vec![0usize; ndim];
-            let dst_size: usize = new_shape.iter().product();
-            let src_ptr = arr.data_ptr();
-
-            // Fill all cells with edge-clamped values
-            for _ in 0..dst_size {
-                let src_indices: Vec<usize> = dst_indices.iter()
-                    .zip(pad_width.iter())
-                    .zip(arr.shape().iter())
-                    .map(|((&di, &(b, _)), &s)| {
-                        if di < b { 0 }
-                        else if di >= b + s { s.saturating_sub(1) }
-                        else { di - b }
-                    })
-                    .collect();
-
-                let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
-                let dst_offset = linear_index(&dst_indices, &new_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
-
-                increment_indices(&mut dst_indices, &new_shape);
+            // There is no edge to extend on an empty axis
+            if arr.shape().iter().zip(pad_width.iter()).any(|(&s, &(b, a))| s == 0 && b + a > 0) {
+                return None;
             }
-
-            Some(result)
+            // Fill all cells with edge-clamped values
+            Some(gather(arr, new_shape, |dst, idx| {
+                for (d, &(b, _)) in pad_width.iter().enumerate() {
+                    idx[d] = dst[d].saturating_sub(b).min(arr.shape()[d] - 1);
+                }
+            }))
         }
         _ => None,
     }
@@ -1262,28 +1137,19 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
     let src_shape = src.shape();
 
     let src_ptr = src.data_ptr();
-    let src_dtype = src.dtype();
-    let src_ops = src_dtype.ops();
-    let dst_dtype = dst.dtype();
-    let buffer = Arc::get_mut(dst.buffer_mut()).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-    let dst_ops = dst_dtype.ops();
+    let dtype = src.dtype();
+    let ops = dtype.ops();
+    let dst_ptr = Arc::get_mut(dst.buffer_mut()).expect("unique").as_mut_ptr();
 
     let mut src_indices = vec![0usize; ndim];
-    let src_size = src.size();
-
-    for _ in 0..src_size {
-        // Calculate destination indices by adding padding
-        let dst_indices: Vec<usize> = src_indices.iter()
-            .zip(pad_width.iter())
-            .map(|(&si, &(b, _))| si + b)
-            .collect();
-
+    for _ in 0..src.size() {
+        // Destination position: shifted by the padding
+        let mut dst_idx = 0;
+        for d in 0..ndim {
+            dst_idx = dst_idx * dst_shape[d] + src_indices[d] + pad_width[d].0;
+        }
         let src_byte_offset = src.byte_offset_for(&src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
-
-        let dst_offset = linear_index(&dst_indices, dst_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_idx); }
 
         increment_indices(&mut src_indices, src_shape);
     }
@@ -1291,101 +1157,21 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
 
 /// Roll array elements along given axis.
 /// If axis is None, rolls over flattened array but preserves original shape.
-pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
-    match axis {
-        None => {
-            // Flatten, roll, reshape back to original shape
-            let original_shape = arr.shape().to_vec();
-            let flat = ravel_arr(arr);
-            let size = flat.size();
-            if size == 0 {
-                return arr.copy();
-            }
-
-            // Normalize shift
-            let shift = ((shift % size as isize) + size as isize) as usize % size;
-            if shift == 0 {
-                return arr.copy();
-            }
-
-            let src_dtype = flat.dtype();
-            let mut result = RumpyArray::zeros(original_shape.clone(), src_dtype.clone());
-            let src_ptr = flat.data_ptr();
-            let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-            let dst_ptr = buffer.as_mut_ptr();
-
-            // Fast path: use memcpy for the two parts
-            // Result: [src[size-shift:], src[:size-shift]]
-            let itemsize = src_dtype.itemsize();
-            let split_point = size - shift; // Elements from this index go to the front
-            let bytes_part1 = shift * itemsize;       // Elements shift..size go to dst[0..shift]
-            let bytes_part2 = split_point * itemsize; // Elements 0..split_point go to dst[shift..]
-
-            unsafe {
-                // Copy elements [split_point..] to [0..shift]
-                std::ptr::copy_nonoverlapping(
-                    src_ptr.add(split_point * itemsize),
-                    dst_ptr,
-                    bytes_part1,
-                );
-                // Copy elements [0..split_point] to [shift..]
-                std::ptr::copy_nonoverlapping(
-                    src_ptr,
-                    dst_ptr.add(bytes_part1),
-                    bytes_part2,
-                );
-            }
-
-            result
-        }
-        Some(ax) => {
-            let ndim = arr.ndim();
-            let axis = if ax < 0 { (ndim as isize + ax) as usize } else { ax as usize };
-            if axis >= ndim {
-                return arr.copy();
-            }
-
-            let axis_len = arr.shape()[axis];
-            if axis_len == 0 {
-                return arr.copy();
-            }
-
-            // Normalize shift
-            let shift = ((shift % axis_len as isize) + axis_len as isize) as usize % axis_len;
-            if shift == 0 {
-                return arr.copy();
-            }
-
-            let result_shape = arr.shape().to_vec();
-            let src_dtype = arr.dtype();
-            let mut result = RumpyArray::zeros(result_shape.clone(), src_dtype.clone());
-            let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
-            let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-            let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
-
-            let mut dst_indices = vec![0usize; ndim];
-            let size = arr.size();
-
-            for _ in 0..size {
-                // Source index: roll along axis
-                let mut src_indices = dst_indices.clone();
-                src_indices[axis] = (dst_indices[axis] + axis_len - shift) % axis_len;
-
-                let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
-
-                let dst_offset = linear_index(&dst_indices, &result_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
-
-                increment_indices(&mut dst_indices, arr.shape());
-            }
-
-            result
-        }
-    }
+pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> Option<RumpyArray> {
+    let (src, axis) = match axis {
+        None => (ravel_arr(arr), 0),
+        Some(ax) => (arr.clone(), resolve_axis(ax, arr.ndim())?),
+    };
+    if src.size() == 0 {
+        return Some(arr.copy());
+    }
+    let axis_len = src.shape()[axis];
+    let shift = shift.rem_euclid(axis_len as isize) as usize;
+    let rolled = gather(&src, src.shape().to_vec(), |dst, idx| {
+        idx.copy_from_slice(dst);
+        idx[axis] = (dst[axis] + axis_len - shift) % axis_len;
+    });
+    rolled.reshape(arr.shape().to_vec())
 }
 
 /// Rotate array 90 degrees k times in the plane specified by axes.
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 18ec667..bf12d27 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -162,53 +162,49 @@ pub fn unstack(py: Python<'_>, x: &PyRumpyArray, axis: isize) -> PyResult<Py<PyT
 /// Assemble an array from nested lists of blocks.
 #[pyfunction]
 pub fn block(arrays: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
-    // Recursively process the nested list structure
-    let result = process_block(arrays, 0)?;
-    Ok(PyRumpyArray::new(result))
+    let depth = block_depth(arrays)?;
+    let mut ndim = depth;
+    max_block_ndim(arrays, &mut ndim)?;
+    Ok(PyRumpyArray::new(process_block(arrays, depth, ndim)?))
 }
 
-fn process_block(obj: &Bound<'_, PyAny>, depth: usize) -> PyResult<RumpyArray> {
-    // If it's a RumpyArray, return it
-    if let Ok(arr) = obj.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        return Ok(arr.inner.clone());
+/// Nesting depth of the block list; every leaf must be equally deep.
+fn block_depth(obj: &Bound<'_, PyAny>) -> PyResult<usize> {
+    let Ok(list) = obj.downcast::<PyList>() else { return Ok(0) };
+    let depths = list.iter().map(|item| block_depth(&item)).collect::<PyResult<Vec<_>>>()?;
+    match depths.first() {
+        None => Err(pyo3::exceptions::PyValueError::new_err("empty block list")),
+        Some(&d) if depths.iter().all(|&x| x == d) => Ok(d + 1),
+        Some(_) => Err(pyo3::exceptions::PyValueError::new_err("list depths are mismatched")),
     }
+}
 
-    // If it's a list, process recursively
+fn max_block_ndim(obj: &Bound<'_, PyAny>, ndim: &mut usize) -> PyResult<()> {
     if let Ok(list) = obj.downcast::<PyList>() {
-        if list.is_empty() {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "empty block list"
-            ));
+        for item in list.iter() {
+            max_block_ndim(&item, ndim)?;
         }
+    } else {
+        *ndim = (*ndim).max(to_rumpy_array(obj)?.ndim());
+    }
+    Ok(())
+}
 
-        // Process each element
+/// Join blocks: the innermost lists along the last axis, the next level along the one before, ...
+fn process_block(obj: &Bound<'_, PyAny>, depth: usize, ndim: usize) -> PyResult<RumpyArray> {
+    if let Ok(list) = obj.downcast::<PyList>() {
         let blocks: Vec<RumpyArray> = list.iter()
-            .map(|item| process_block(&item, depth + 1))
+            .map(|item| process_block(&item, depth - 1, ndim))
             .collect::<PyResult<Vec<_>>>()?;
-
-        // Concatenate along the appropriate axis
-        // depth 0 = concatenate along last axis (horizontal)
-        // depth 1 = concatenate along first axis (vertical)
-        // etc.
-
-        // For a simple 2D block, we have depth=0 for rows, depth=1 for cols
-        // numpy's block concatenates at depth according to nesting level
-
-        if blocks.len() == 1 {
-            return Ok(blocks.into_iter().next().unwrap());
-        }
-
-        // Determine axis: for the outermost list it's axis 0, inner is axis 1, etc.
-        let max_ndim = blocks.iter().map(|b| b.ndim()).max().unwrap_or(1);
-        let axis = if depth < max_ndim { depth } else { max_ndim - 1 };
-
-        crate::array::manipulation::concatenate(&blocks, axis)
+        crate::array::manipulation::concatenate(&blocks, ndim - depth)
             .ok_or_else(|| pyo3::exceptions::PyValueError::new_err(
                 "block arrays have incompatible shapes"
             ))
     } else {
-        // Try to convert to array
-        to_rumpy_array(obj)
+        let arr = to_rumpy_array(obj)?;
+        let mut shape = vec![1usize; ndim - arr.ndim()];
+        shape.extend_from_slice(arr.shape());
+        Ok(arr.reshape(shape).unwrap_or(arr))
     }
 }
 
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index bfd4170..7e479c9 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -519,56 +519,10 @@ impl PyRumpyArray {
 
     /// Repeat elements of an array.
     #[pyo3(signature = (repeats, axis=None))]
-    fn repeat(&self, repeats: usize, axis: Option<usize>) -> PyResult<Self> {
-        let arr = &self.inner;
-        let dtype = arr.dtype();
-
-        // For axis=None, flatten first; for axis=Some, validate bounds
-        let (src, ax) = match axis {
-            None => (arr.copy().reshape(vec![arr.size()]).unwrap(), 0usize),
-            Some(ax) => {
-                if ax >= arr.ndim() {
-                    return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                        "axis {} is out of bounds for array of dimension {}",
-                        ax, arr.ndim()
-                    )));
-                }
-                (arr.clone(), ax)
-            }
-        };
-
-        let shape = src.shape();
-        let mut new_shape = shape.to_vec();
-        new_shape[ax] *= repeats;
-
-        let mut result = RumpyArray::zeros(new_shape.clone(), dtype.clone());
-        let result_buffer = std::sync::Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr();
-
-        // Fast path for 1D contiguous
-        if src.ndim() == 1 && src.is_c_contiguous() {
-            let src_ptr = src.data_ptr();
-            let itemsize = dtype.itemsize();
-            for i in 0..shape[0] {
-                let val = unsafe { dtype.ops().read_f64(src_ptr, (i * itemsize) as isize) }.unwrap_or(0.0);
-                let base = i * repeats;
-                for j in 0..repeats {
-                    unsafe { dtype.ops().write_f64(result_ptr, base + j, val); }
-                }
-            }
-        } else {
-            // General case
-            let mut out_indices = vec![0usize; src.ndim()];
-            for i in 0..result.size() {
-                let mut src_indices = out_indices.clone();
-                src_indices[ax] /= repeats;
-                let val = src.get_element(&src_indices);
-                unsafe { dtype.ops().write_f64(result_ptr, i, val); }
-                crate::array::increment_indices(&mut out_indices, &new_shape);
-            }
-        }
-
-        Ok(Self::new(result))
+    fn repeat(&self, repeats: usize, axis: Option<isize>) -> PyResult<Self> {
+        crate::array::repeat(&self.inner, repeats, axis)
+            .map(Self::new)
+            .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("invalid axis for repeat"))
     }
 
     /// Take elements from an array along an axis.
@@ -803,36 +757,19 @@ impl PyRumpyArray {
     #[pyo3(signature = (*args))]
     fn resize(&mut self, args: &Bound<'_, PyTuple>) -> PyResult<()> {
         let new_shape = parse_reshape_args_isize(args)?;
-        let new_shape: Vec<usize> = new_shape.iter().map(|&d| d as usize).collect();
-        let new_size: usize = new_shape.iter().product();
-        let old_size = self.inner.size();
-
-        if new_size == 0 {
-            self.inner = RumpyArray::zeros(new_shape, self.inner.dtype());
-            return Ok(());
+        if new_shape.iter().any(|&d| d < 0) {
+            return Err(pyo3::exceptions::PyValueError::new_err("negative dimensions not allowed"));
         }
-
-        // Collect current data
-        let mut data: Vec<f64> = Vec::with_capacity(old_size);
-        for offset in self.inner.iter_offsets() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            data.push(val);
-        }
-
-        // Create new array - starts as zeros
+        let new_shape: Vec<usize> = new_shape.iter().map(|&d| d as usize).collect();
         let dtype = self.inner.dtype();
         let mut result = RumpyArray::zeros(new_shape, dtype.clone());
-        let buffer = std::sync::Arc::get_mut(result.buffer_mut()).expect("unique");
-        let ptr = buffer.as_mut_ptr();
-        let ops = dtype.ops();
-
-        // Copy old data (up to min(old_size, new_size))
-        let copy_count = old_size.min(new_size);
-        for i in 0..copy_count {
-            let val = data[i];
-            unsafe { ops.write_f64(ptr, i, val); }
+        let count = self.inner.size().min(result.size());
+        let ptr = std::sync::Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+
+        // Copy what fits; extra space is already zeros from RumpyArray::zeros
+        for (i, offset) in self.inner.iter_offsets().take(count).enumerate() {
+            unsafe { dtype.ops().copy_element(self.inner.data_ptr(), offset, ptr, i); }
         }
-        // Extra space is already zeros from RumpyArray::zeros
 
         self.inner = result;
         Ok(())
diff --git a/src/python/shape.rs b/src/python/shape.rs
index e19d285..2257319 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -364,13 +364,14 @@ pub fn fliplr(arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Concatenate arrays along an axis.
 #[pyfunction]
 #[pyo3(signature = (arrays, axis=0))]
-pub fn concatenate(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyArray> {
+pub fn concatenate(arrays: &Bound<'_, PyList>, axis: isize) -> PyResult<PyRumpyArray> {
     let mut inner_arrays: Vec<RumpyArray> = Vec::with_capacity(arrays.len());
     for item in arrays.iter() {
         inner_arrays.push(to_rumpy_array(&item)?);
     }
 
-    crate::array::concatenate(&inner_arrays, axis)
+    let ndim = inner_arrays.first().map_or(0, |a| a.ndim());
+    crate::array::concatenate(&inner_arrays, normalize_axis(axis, ndim)?)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err(
@@ -382,12 +383,13 @@ pub fn concatenate(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyA
 /// Stack arrays along a new axis.
 #[pyfunction]
 #[pyo3(signature = (arrays, axis=0))]
-pub fn stack(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyArray> {
+pub fn stack(arrays: &Bound<'_, PyList>, axis: isize) -> PyResult<PyRumpyArray> {
     let mut inner_arrays: Vec<RumpyArray> = Vec::with_capacity(arrays.len());
     for item in arrays.iter() {
         inner_arrays.push(to_rumpy_array(&item)?);
     }
-    crate::array::stack(&inner_arrays, axis)
+    let ndim = inner_arrays.first().map_or(0, |a| a.ndim());
+    crate::array::stack(&inner_arrays, normalize_axis(axis, ndim + 1)?)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err("arrays must have same shape for stack")
@@ -405,7 +407,7 @@ pub fn vstack(arrays: &Bound<'_, PyList>) -> PyResult<PyRumpyArray> {
     let mut inner_arrays: Vec<RumpyArray> = Vec::with_capacity(arrays.len());
     for item in arrays.iter() {
         let arr = to_rumpy_array(&item)?;
-        if arr.ndim() == 1 {
+        if arr.ndim() <= 1 {
             inner_arrays.push(arr.reshape(vec![1, arr.size()]).unwrap_or_else(|| arr.clone()));
         } else {
             inner_arrays.push(arr);
@@ -428,7 +430,8 @@ pub fn hstack(arrays: &Bound<'_, PyList>) -> PyResult<PyRumpyArray> {
 
     let mut inner_arrays: Vec<RumpyArray> = Vec::with_capacity(arrays.len());
     for item in arrays.iter() {
-        inner_arrays.push(to_rumpy_array(&item)?);
+        let arr = to_rumpy_array(&item)?;
+        inner_arrays.push(if arr.ndim() == 0 { arr.reshape(vec![1]).unwrap_or(arr) } else { arr });
     }
 
     let first = &inner_arrays[0];
@@ -452,7 +455,7 @@ pub fn column_stack(arrays: &Bound<'_, PyList>) -> PyResult<PyRumpyArray> {
     for item in arrays.iter() {
         let arr = to_rumpy_array(&item)?;
         // If 1D, reshape to column vector
-        let arr = if arr.ndim() == 1 {
+        let arr = if arr.ndim() <= 1 {
             arr.reshape(vec![arr.size(), 1]).unwrap_or(arr)
         } else {
             arr
@@ -494,7 +497,7 @@ pub fn dstack(arrays: &Bound<'_, PyList>) -> PyResult<PyRumpyArray> {
         let arr = to_rumpy_array(&item)?;
         // Promote to at least 3D
         let arr = match arr.ndim() {
-            1 => {
+            0 | 1 => {
                 let n = arr.size();
                 arr.reshape(vec![1, n, 1]).unwrap_or(arr)
             }
@@ -521,8 +524,8 @@ pub fn dstack(arrays: &Bound<'_, PyList>) -> PyResult<PyRumpyArray> {
 /// Split array into equal parts.
 #[pyfunction]
 #[pyo3(signature = (arr, num_sections, axis=0))]
-pub fn split(arr: &PyRumpyArray, num_sections: usize, axis: usize) -> PyResult<Vec<PyRumpyArray>> {
-    crate::array::split(&arr.inner, num_sections, axis)
+pub fn split(arr: &PyRumpyArray, num_sections: usize, axis: isize) -> PyResult<Vec<PyRumpyArray>> {
+    crate::array::split(&arr.inner, num_sections, normalize_axis(axis, arr.inner.ndim())?)
         .map(|sections| sections.into_iter().map(PyRumpyArray::new).collect())
         .ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err(
@@ -534,8 +537,8 @@ pub fn split(arr: &PyRumpyArray, num_sections: usize, axis: usize) -> PyResult<V
 /// Split array into sections, allowing unequal sizes.
 #[pyfunction]
 #[pyo3(signature = (arr, num_sections, axis=0))]
-pub fn array_split(arr: &PyRumpyArray, num_sections: usize, axis: usize) -> PyResult<Vec<PyRumpyArray>> {
-    crate::array::array_split(&arr.inner, num_sections, axis)
+pub fn array_split(arr: &PyRumpyArray, num_sections: usize, axis: isize) -> PyResult<Vec<PyRumpyArray>> {
+    crate::array::array_split(&arr.inner, num_sections, normalize_axis(axis, arr.inner.ndim())?)
         .map(|sections| sections.into_iter().map(PyRumpyArray::new).collect())
         .ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err("invalid split parameters")
@@ -635,19 +638,21 @@ pub fn append(arr: &PyRumpyArray, values: &PyRumpyArray, axis: Option<isize>) ->
 #[pyfunction]
 #[pyo3(signature = (arr, index, values, axis=None))]
 pub fn insert(arr: &PyRumpyArray, index: isize, values: &Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
-    // Parse values - can be scalar or array
-    let values_arr = if let Ok(scalar) = values.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, arr.inner.dtype())
-    } else if let Ok(arr_ref) = values.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        arr_ref.inner.clone()
-    } else if let Ok(list) = values.downcast::<pyo3::types::PyList>() {
-        let data: Vec<f64> = list.iter().map(|x| x.extract::<f64>()).collect::<PyResult<Vec<_>>>()?;
-        RumpyArray::from_vec(data, arr.inner.dtype())
+    let values_arr = to_rumpy_array(values)?;
+    let values_arr = if values.is_instance_of::<PyRumpyArray>() || values.downcast::<PyList>().is_ok() {
+        values_arr
     } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "values must be scalar, array, or list"
-        ));
+        values_arr.reshape(vec![]).unwrap_or(values_arr)
     };
+    let len = match axis {
+        None => arr.inner.size(),
+        Some(ax) => arr.inner.shape()[normalize_axis(ax, arr.inner.ndim())?],
+    } as isize;
+    if index < -len || index > len {
+        return Err(pyo3::exceptions::PyIndexError::new_err(format!(
+            "index {} is out of bounds for axis with size {}", index, len
+        )));
+    }
 
     crate::array::insert(&arr.inner, index, &values_arr, axis)
         .map(PyRumpyArray::new)
@@ -660,6 +665,16 @@ pub fn insert(arr: &PyRumpyArray, index: isize, values: &Bound<'_, pyo3::PyAny>,
 #[pyfunction]
 #[pyo3(signature = (arr, index, axis=None))]
 pub fn delete(arr: &PyRumpyArray, index: isize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let len = match axis {
+        None => arr.inner.size(),
+        Some(ax) => arr.inner.shape()[normalize_axis(ax, arr.inner.ndim())?],
+    } as isize;
+    if index < -len || index >= len {
+        return Err(pyo3::exceptions::PyIndexError::new_err(format!(
+            "index {} is out of bounds for axis with size {}", index, len
+        )));
+    }
+
     crate::array::delete(&arr.inner, index, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -669,40 +684,54 @@ pub fn delete(arr: &PyRumpyArray, index: isize, axis: Option<isize>) -> PyResult
 
 /// Pad an array.
 #[pyfunction]
-#[pyo3(signature = (arr, pad_width, mode="constant", constant_values=0.0))]
+#[pyo3(signature = (arr, pad_width, mode="constant", constant_values=None))]
 pub fn pad(
     arr: &PyRumpyArray,
     pad_width: &Bound<'_, pyo3::PyAny>,
     mode: &str,
-    constant_values: f64,
+    constant_values: Option<&Bound<'_, pyo3::PyAny>>,
 ) -> PyResult<PyRumpyArray> {
+    let ndim = arr.inner.ndim();
+    let bad = || pyo3::exceptions::PyTypeError::new_err("pad_width must be int, (before, after) or one such entry per axis");
+    let items = |o: &Bound<'_, pyo3::PyAny>| -> PyResult<Vec<Py<pyo3::PyAny>>> {
+        if let Ok(tuple) = o.downcast::<pyo3::types::PyTuple>() {
+            Ok(tuple.iter().map(|x| x.unbind()).collect())
+        } else if let Ok(list) = o.downcast::<PyList>() {
+            Ok(list.iter().map(|x| x.unbind()).collect())
+        } else {
+            Err(bad())
+        }
+    };
+    let py = pad_width.py();
     let pad_spec: Vec<(usize, usize)> = if let Ok(n) = pad_width.extract::<usize>() {
-        vec![(n, n); arr.inner.ndim()]
-    } else if let Ok(tuple) = pad_width.downcast::<pyo3::types::PyTuple>() {
-        if tuple.len() == 2 {
-            let before = tuple.get_item(0)?.extract::<usize>()?;
-            let after = tuple.get_item(1)?.extract::<usize>()?;
-            vec![(before, after); arr.inner.ndim()]
+        vec![(n, n); ndim]
+    } else {
+        let entries = items(pad_width)?;
+        let ints: Vec<usize> = entries.iter().filter_map(|x| x.bind(py).extract::<usize>().ok()).collect();
+        if ints.len() == entries.len() && ints.len() == 2 {
+            vec![(ints[0], ints[1]); ndim]
         } else {
-            tuple.iter().map(|item| {
+            let spec = entries.iter().map(|item| {
+                let item = item.bind(py);
                 if let Ok(n) = item.extract::<usize>() {
-                    Ok((n, n))
-                } else if let Ok(inner) = item.downcast::<pyo3::types::PyTuple>() {
-                    let before = inner.get_item(0)?.extract::<usize>()?;
-                    let after = inner.get_item(1)?.extract::<usize>()?;
-                    Ok((before, after))
-                } else {
-                    Err(pyo3::exceptions::PyTypeError::new_err("invalid pad_width format"))
+                    return Ok((n, n));
+                }
+                let pair = items(item)?;
+                match pair.len() {
+                    1 => { let n = pair[0].bind(py).extract::<usize>()?; Ok((n, n)) }
+                    2 => Ok((pair[0].bind(py).extract::<usize>()?, pair[1].bind(py).extract::<usize>()?)),
+                    _ => Err(bad()),
                 }
-            }).collect::<PyResult<Vec<_>>>()?
+            }).collect::<PyResult<Vec<_>>>()?;
+            if spec.len() == 1 { vec![spec[0]; ndim] } else { spec }
         }
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "pad_width must be int or tuple"
-        ));
+    };
+    let fill = match constant_values {
+        Some(v) => to_rumpy_array(v)?,
+        None => RumpyArray::zeros(vec![1], arr.inner.dtype()),
     };
 
-    crate::array::pad(&arr.inner, &pad_spec, mode, constant_values)
+    crate::array::pad(&arr.inner, &pad_spec, mode, &fill)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err("unsupported pad mode")
@@ -713,7 +742,9 @@ pub fn pad(
 #[pyfunction]
 #[pyo3(signature = (arr, shift, axis=None))]
 pub fn roll(arr: &PyRumpyArray, shift: isize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
-    Ok(PyRumpyArray::new(crate::array::roll(&arr.inner, shift, axis)))
+    crate::array::roll(&arr.inner, shift, axis)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("axis is out of bounds for roll"))
 }
 
 /// Rotate an array by 90 degrees in the plane specified by axes.
@@ -876,7 +907,7 @@ pub fn broadcast_shapes(py: Python<'_>, shapes: &Bound<'_, pyo3::types::PyTuple>
 /// Concatenate arrays along an axis (NumPy 2.0 alias for concatenate).
 #[pyfunction]
 #[pyo3(signature = (arrays, axis=0))]
-pub fn concat(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyArray> {
+pub fn concat(arrays: &Bound<'_, PyList>, axis: isize) -> PyResult<PyRumpyArray> {
     concatenate(arrays, axis)
 }
 
-- 
2.43.0


From 8d9ffa87cafb9833886d15a07855cdab2c0e85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:47 +0000
Subject: [PATCH 13/30] fix: argmax/argmin along a strided axis dereferenced an
 element as an address

---
 src/ops/array_methods/reductions.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 3efff6c..9ec241f 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -601,8 +601,7 @@ macro_rules! impl_arg_axis {
                     let mut best_val = unsafe { *start };
                     let mut best_idx = 0i64;
                     for j in 1..axis_len {
-                        let v = unsafe { *(start as *const u8).offset(axis_stride * j as isize) as *const T };
-                        let v = unsafe { *v };
+                        let v = unsafe { *((start as *const u8).offset(axis_stride * j as isize) as *const T) };
                         if v $cmp best_val {
                             best_val = v;
                             best_idx = j as i64;
-- 
2.43.0


From 838667b5f282b10236b117d19b4e2cddb38dfde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:47 +0000
Subject: [PATCH 14/30] fix: reductions: exact integers, NaN propagation, axis
 validation, empty input

sum/prod/cumsum/cumprod accumulate in 64-bit integers; max/min propagate NaN
and reject empty input; arg-reductions return the first NaN; full reductions of
integers return the exact integer; several axes are reduced jointly; mean/var
accumulate in float64; nan-reductions handle infinities, integers and all-NaN
lanes; median/percentile/quantile propagate NaN; diff wraps in the array dtype;
out-of-range and duplicate axes raise ValueError.
---
 src/array/manipulation.rs                |  14 +-
 src/ops/array_methods/cumulative.rs      | 125 ++-----
 src/ops/array_methods/reductions.rs      | 145 ++++++--
 src/ops/dispatch.rs                      |   2 +
 src/ops/kernels/arithmetic.rs            |  38 ++-
 src/ops/statistics.rs                    |  17 +-
 src/python/pyarray/methods_reductions.rs | 115 ++++---
 src/python/pyarray/mod.rs                |  87 ++++-
 src/python/reductions.rs                 | 410 ++++++++---------------
 9 files changed, 471 insertions(+), 482 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index c8c50b5..ea0853b 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -255,7 +255,7 @@ pub fn percentile(arr: &RumpyArray, q: &[f64], axis: Option<usize>) -> Option<Ru
 fn percentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
     let size = arr.size();
     if size == 0 {
-        return Some(RumpyArray::zeros(vec![q.len()], DType::float64()));
+        return Some(RumpyArray::full(vec![q.len()], f64::NAN, DType::float64()));
     }
 
     // Collect and sort values
@@ -310,7 +310,7 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
 
     let reduced_size: usize = reduced_shape.iter().product();
     if axis_len == 0 || reduced_size == 0 {
-        return Some(RumpyArray::zeros(out_shape, DType::float64()));
+        return Some(RumpyArray::full(out_shape, f64::NAN, DType::float64()));
     }
 
     let mut result = RumpyArray::zeros(out_shape, DType::float64());
@@ -356,6 +356,10 @@ fn interpolate_percentile(sorted: &[f64], pct: f64) -> f64 {
         return sorted[0];
     }
 
+    if sorted.iter().any(|v| v.is_nan()) {
+        return f64::NAN;
+    }
+
     // Convert percentile to index (numpy's linear interpolation method)
     let idx = (pct / 100.0) * (n - 1) as f64;
     let lo = idx.floor() as usize;
@@ -365,7 +369,9 @@ fn interpolate_percentile(sorted: &[f64], pct: f64) -> f64 {
         sorted[lo.min(n - 1)]
     } else {
         let frac = idx - lo as f64;
-        sorted[lo] * (1.0 - frac) + sorted[hi] * frac
+        // Interpolate from the nearer end, which is exact when both ends are equal
+        let diff = sorted[hi] - sorted[lo];
+        if frac >= 0.5 { sorted[hi] - diff * (1.0 - frac) } else { sorted[lo] + diff * frac }
     }
 }
 
@@ -439,7 +445,7 @@ fn nanpercentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyA
 
     let reduced_size: usize = reduced_shape.iter().product();
     if axis_len == 0 || reduced_size == 0 {
-        return Some(RumpyArray::zeros(out_shape, DType::float64()));
+        return Some(RumpyArray::full(out_shape, f64::NAN, DType::float64()));
     }
 
     let mut result = RumpyArray::zeros(out_shape, DType::float64());
diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index d6c3c9a..a1600fd 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -1,83 +1,10 @@
 //! Cumulative operations on RumpyArray (cumsum, cumprod, diff).
 
 use crate::array::dtype::DTypeKind;
-use crate::array::{increment_indices, DType, RumpyArray};
-use crate::ops::kernels::arithmetic::Sub;
-use crate::ops::loops;
-use num_complex::Complex;
+use crate::array::{increment_indices, RumpyArray};
+use crate::ops::{BinaryOp, ComparisonOp};
 use std::sync::Arc;
 
-// ============================================================================
-// diff helper functions
-// ============================================================================
-
-/// Fast 1D contiguous diff using kernel/loop system.
-/// result[i] = src[i+1] - src[i]
-#[inline]
-fn diff_1d_contiguous(src_ptr: *const u8, result_ptr: *mut u8, n: usize, dtype: &DType) {
-    // Use kernel/loop system for subtraction
-    macro_rules! diff_typed {
-        ($T:ty) => {{
-            let a_slice = unsafe { std::slice::from_raw_parts((src_ptr as *const $T).add(1), n) };
-            let b_slice = unsafe { std::slice::from_raw_parts(src_ptr as *const $T, n) };
-            let out_slice = unsafe { std::slice::from_raw_parts_mut(result_ptr as *mut $T, n) };
-            loops::map_binary(a_slice, b_slice, out_slice, Sub);
-        }};
-    }
-
-    match dtype.kind() {
-        DTypeKind::Float64 => diff_typed!(f64),
-        DTypeKind::Float32 => diff_typed!(f32),
-        DTypeKind::Int64 => diff_typed!(i64),
-        DTypeKind::Int32 => diff_typed!(i32),
-        DTypeKind::Int16 => diff_typed!(i16),
-        DTypeKind::Uint64 => diff_typed!(u64),
-        DTypeKind::Uint32 => diff_typed!(u32),
-        DTypeKind::Uint16 => diff_typed!(u16),
-        DTypeKind::Uint8 => diff_typed!(u8),
-        DTypeKind::Complex128 => diff_typed!(Complex<f64>),
-        DTypeKind::Complex64 => diff_typed!(Complex<f32>),
-        _ => {
-            // Fallback for unsupported dtypes (Float16, Bool, DateTime64)
-            let itemsize = dtype.itemsize() as isize;
-            let ops = dtype.ops();
-            for i in 0..n {
-                unsafe {
-                    let v1 = ops.read_f64(src_ptr, (i as isize) * itemsize).unwrap_or(0.0);
-                    let v2 = ops.read_f64(src_ptr, (i as isize + 1) * itemsize).unwrap_or(0.0);
-                    ops.write_f64(result_ptr, i, v2 - v1);
-                }
-            }
-        }
-    }
-}
-
-/// Strided diff for N-D arrays along arbitrary axis.
-/// Element-by-element via DTypeOps (no vectorization benefit for strided access).
-fn diff_strided(
-    src: &RumpyArray,
-    result: &RumpyArray,
-    axis_stride: isize,
-    src_ptr: *const u8,
-    result_ptr: *mut u8,
-    dtype: &DType,
-) {
-    let out_shape = result.shape();
-    let out_size: usize = out_shape.iter().product();
-    let ops = dtype.ops();
-
-    let mut out_indices = vec![0usize; src.ndim()];
-    for i in 0..out_size {
-        let offset1 = src.byte_offset_for(&out_indices);
-        unsafe {
-            let v1 = ops.read_f64(src_ptr, offset1).unwrap_or(0.0);
-            let v2 = ops.read_f64(src_ptr, offset1 + axis_stride).unwrap_or(0.0);
-            ops.write_f64(result_ptr, i, v2 - v1);
-        }
-        increment_indices(&mut out_indices, out_shape);
-    }
-}
-
 impl RumpyArray {
     /// Calculate the n-th discrete difference along the given axis.
     pub fn diff(&self, n: usize, axis: usize) -> RumpyArray {
@@ -95,30 +22,14 @@ impl RumpyArray {
             return RumpyArray::zeros(new_shape, self.dtype().clone());
         }
 
-        // Single diff: result[i] = input[i+1] - input[i]
-        let mut new_shape = self.shape().to_vec();
-        new_shape[axis] = axis_len - 1;
-
-        let dtype = self.dtype().clone();
-        let mut result = RumpyArray::zeros(new_shape.clone(), dtype.clone());
-
-        let out_size: usize = new_shape.iter().product();
-        if out_size == 0 {
-            return result;
-        }
-
-        let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr();
-        let src_ptr = self.data_ptr();
-        let axis_stride = self.strides()[axis];
-
-        // Fast path for 1D contiguous case
-        if self.ndim() == 1 && self.is_c_contiguous() {
-            diff_1d_contiguous(src_ptr, result_ptr, out_size, &dtype);
+        // Single diff: result[i] = input[i+1] - input[i]; bool differences are `!=`
+        let next = self.slice_axis(axis, 1, axis_len as isize, 1);
+        let prev = self.slice_axis(axis, 0, axis_len as isize - 1, 1);
+        let result = if self.dtype().kind() == DTypeKind::Bool {
+            next.compare(&prev, ComparisonOp::Ne).expect("same shape")
         } else {
-            // General strided case
-            diff_strided(self, &result, axis_stride, src_ptr, result_ptr, &dtype);
-        }
+            next.binary_op(&prev, BinaryOp::Sub).expect("same shape")
+        };
 
         // Apply recursively for n > 1
         if n > 1 {
@@ -205,21 +116,25 @@ impl RumpyArray {
 
     /// Cumulative sum along axis (or flattened if axis is None).
     pub fn cumsum(&self, axis: Option<usize>) -> RumpyArray {
+        // Accumulate bool and narrow integers in 64 bits, like sum/prod
+        let wide = self.accumulator();
         // Try typed dispatch first
-        if let Some(result) = crate::ops::dispatch::dispatch_cumsum(self, axis) {
+        if let Some(result) = crate::ops::dispatch::dispatch_cumsum(&wide, axis) {
             return result;
         }
-        // Fallback for Bool, DateTime, Float16
+        // Fallback for DateTime
         self.cumulative_op(axis, 0.0, |acc, x| acc + x)
     }
 
     /// Cumulative product along axis (or flattened if axis is None).
     pub fn cumprod(&self, axis: Option<usize>) -> RumpyArray {
+        // Accumulate bool and narrow integers in 64 bits, like sum/prod
+        let wide = self.accumulator();
         // Try typed dispatch first
-        if let Some(result) = crate::ops::dispatch::dispatch_cumprod(self, axis) {
+        if let Some(result) = crate::ops::dispatch::dispatch_cumprod(&wide, axis) {
             return result;
         }
-        // Fallback for Bool, DateTime, Float16
+        // Fallback for DateTime
         self.cumulative_op(axis, 1.0, |acc, x| acc * x)
     }
 
@@ -510,11 +425,17 @@ impl RumpyArray {
 
     /// NaN-aware cumulative sum: NaN values are treated as zero.
     pub fn nancumsum(&self, axis: Option<usize>) -> RumpyArray {
+        if self.never_nan() {
+            return self.cumsum(axis);
+        }
         self.nan_cumulative_op(axis, 0.0, |acc, x| acc + x)
     }
 
     /// NaN-aware cumulative product: NaN values are treated as one.
     pub fn nancumprod(&self, axis: Option<usize>) -> RumpyArray {
+        if self.never_nan() {
+            return self.cumprod(axis);
+        }
         self.nan_cumulative_op(axis, 1.0, |acc, x| acc * x)
     }
 }
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 9ec241f..9aef772 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -12,14 +12,45 @@ impl RumpyArray {
     // Basic reductions
     // ========================================================================
 
+    /// All elements in C order as a 1-D array (a view where possible).
+    pub(crate) fn flattened(&self) -> RumpyArray {
+        if self.ndim() == 1 {
+            return self.clone();
+        }
+        let contiguous = if self.is_c_contiguous() { self.clone() } else { self.copy() };
+        contiguous.reshape(vec![self.size()]).expect("same number of elements")
+    }
+
+    /// The array in the dtype sums and products accumulate in:
+    /// bool and narrow integers widen to 64 bits, everything else is unchanged.
+    pub(crate) fn accumulator(&self) -> RumpyArray {
+        use crate::array::dtype::DTypeKind;
+        match self.dtype().kind() {
+            DTypeKind::Bool | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 => self.astype(DType::int64()),
+            DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 => self.astype(DType::uint64()),
+            _ => self.clone(),
+        }
+    }
+
+    /// The array in the dtype means are computed in: bool and integers become float64.
+    fn as_inexact(&self) -> RumpyArray {
+        use crate::array::dtype::DTypeKind;
+        match self.dtype().kind() {
+            DTypeKind::Bool
+            | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+            | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64 => self.astype(DType::float64()),
+            _ => self.clone(),
+        }
+    }
+
     /// Sum all elements.
     pub fn sum(&self) -> f64 {
-        reduce_all_f64(self, ReduceOp::Sum)
+        reduce_all_f64(&self.accumulator(), ReduceOp::Sum)
     }
 
     /// Sum along axis.
     pub fn sum_axis(&self, axis: usize) -> RumpyArray {
-        reduce_axis_op(self, axis, ReduceOp::Sum)
+        reduce_axis_op(&self.accumulator(), axis, ReduceOp::Sum)
     }
 
     /// Sum of squares: sum(x*x). Single pass, no intermediate allocation.
@@ -30,12 +61,12 @@ impl RumpyArray {
 
     /// Product of all elements.
     pub fn prod(&self) -> f64 {
-        reduce_all_f64(self, ReduceOp::Prod)
+        reduce_all_f64(&self.accumulator(), ReduceOp::Prod)
     }
 
     /// Product along axis.
     pub fn prod_axis(&self, axis: usize) -> RumpyArray {
-        reduce_axis_op(self, axis, ReduceOp::Prod)
+        reduce_axis_op(&self.accumulator(), axis, ReduceOp::Prod)
     }
 
     /// Maximum element.
@@ -63,12 +94,12 @@ impl RumpyArray {
         if self.size() == 0 {
             return f64::NAN;
         }
-        self.sum() / self.size() as f64
+        self.as_inexact().sum() / self.size() as f64
     }
 
     /// Mean along axis.
     pub fn mean_axis(&self, axis: usize) -> RumpyArray {
-        let sum = self.sum_axis(axis);
+        let sum = self.as_inexact().sum_axis(axis);
         let count = self.shape()[axis] as f64;
         let count_arr = RumpyArray::full(vec![1], count, sum.dtype());
         sum.binary_op(&count_arr, BinaryOp::Div).expect("broadcast works")
@@ -140,12 +171,14 @@ impl RumpyArray {
             if out_shape.is_empty() {
                 out_shape = vec![1];
             }
-            return RumpyArray::zeros(out_shape, DType::float64());
+            return RumpyArray::full(out_shape, f64::NAN, self.as_inexact().dtype());
         }
 
         // Compute mean and broadcast back to original shape
         let mean = self.mean_axis(axis);
-        let mean_expanded = mean.expand_dims(axis).expect("expand_dims succeeds");
+        let mut mean_shape = self.shape().to_vec();
+        mean_shape[axis] = 1;
+        let mean_expanded = mean.reshape(mean_shape).expect("one mean per slice");
 
         // Compute deviations: x - mean (uses vectorized binary op with broadcasting)
         let diff = self.binary_op(&mean_expanded, BinaryOp::Sub).expect("broadcast succeeds");
@@ -227,6 +260,7 @@ impl RumpyArray {
             DTypeKind::Int64 => dispatch_argmax_full::<i64>(self),
             DTypeKind::Int32 => dispatch_argmax_full::<i32>(self),
             DTypeKind::Int16 => dispatch_argmax_full::<i16>(self),
+            DTypeKind::Int8 => dispatch_argmax_full::<i8>(self),
             DTypeKind::Uint64 => dispatch_argmax_full::<u64>(self),
             DTypeKind::Uint32 => dispatch_argmax_full::<u32>(self),
             DTypeKind::Uint16 => dispatch_argmax_full::<u16>(self),
@@ -245,6 +279,7 @@ impl RumpyArray {
             DTypeKind::Int64 => dispatch_argmin_full::<i64>(self),
             DTypeKind::Int32 => dispatch_argmin_full::<i32>(self),
             DTypeKind::Int16 => dispatch_argmin_full::<i16>(self),
+            DTypeKind::Int8 => dispatch_argmin_full::<i8>(self),
             DTypeKind::Uint64 => dispatch_argmin_full::<u64>(self),
             DTypeKind::Uint32 => dispatch_argmin_full::<u32>(self),
             DTypeKind::Uint16 => dispatch_argmin_full::<u16>(self),
@@ -262,6 +297,7 @@ impl RumpyArray {
             DTypeKind::Int64 => argmax_axis_typed::<i64>(self, axis),
             DTypeKind::Int32 => argmax_axis_typed::<i32>(self, axis),
             DTypeKind::Int16 => argmax_axis_typed::<i16>(self, axis),
+            DTypeKind::Int8 => argmax_axis_typed::<i8>(self, axis),
             DTypeKind::Uint64 => argmax_axis_typed::<u64>(self, axis),
             DTypeKind::Uint32 => argmax_axis_typed::<u32>(self, axis),
             DTypeKind::Uint16 => argmax_axis_typed::<u16>(self, axis),
@@ -279,6 +315,7 @@ impl RumpyArray {
             DTypeKind::Int64 => argmin_axis_typed::<i64>(self, axis),
             DTypeKind::Int32 => argmin_axis_typed::<i32>(self, axis),
             DTypeKind::Int16 => argmin_axis_typed::<i16>(self, axis),
+            DTypeKind::Int8 => argmin_axis_typed::<i8>(self, axis),
             DTypeKind::Uint64 => argmin_axis_typed::<u64>(self, axis),
             DTypeKind::Uint32 => argmin_axis_typed::<u32>(self, axis),
             DTypeKind::Uint16 => argmin_axis_typed::<u16>(self, axis),
@@ -296,7 +333,7 @@ impl RumpyArray {
         let mut max_idx = 0;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val > max_val {
+            if arg_greater(val, max_val) {
                 max_val = val;
                 max_idx = i;
             }
@@ -313,7 +350,7 @@ impl RumpyArray {
         let mut min_idx = 0;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val < min_val {
+            if arg_less(val, min_val) {
                 min_val = val;
                 min_idx = i;
             }
@@ -323,12 +360,12 @@ impl RumpyArray {
 
     /// Slow fallback for argmax axis (dynamic dispatch).
     fn argmax_axis_slow(&self, axis: usize) -> RumpyArray {
-        self.arg_reduce_axis_slow(axis, |a, b| a > b)
+        self.arg_reduce_axis_slow(axis, arg_greater)
     }
 
     /// Slow fallback for argmin axis (dynamic dispatch).
     fn argmin_axis_slow(&self, axis: usize) -> RumpyArray {
-        self.arg_reduce_axis_slow(axis, |a, b| a < b)
+        self.arg_reduce_axis_slow(axis, arg_less)
     }
 
     /// Slow fallback for argmax/argmin axis (non-optimized types).
@@ -386,6 +423,20 @@ impl RumpyArray {
 // Generic argmax/argmin implementations (monomorphized per dtype)
 // ============================================================================
 
+/// Whether `v` replaces `best` as the maximum: the first NaN wins over everything.
+#[inline(always)]
+#[allow(clippy::eq_op)]
+fn arg_greater<T: Copy + PartialOrd>(v: T, best: T) -> bool {
+    v > best || (v != v && best == best)
+}
+
+/// Whether `v` replaces `best` as the minimum: the first NaN wins over everything.
+#[inline(always)]
+#[allow(clippy::eq_op)]
+fn arg_less<T: Copy + PartialOrd>(v: T, best: T) -> bool {
+    v < best || (v != v && best == best)
+}
+
 /// Trait for types that support argmax/argmin operations.
 trait ArgReducible: Copy + PartialOrd {
     fn neg_infinity() -> Self;
@@ -412,6 +463,10 @@ impl ArgReducible for i16 {
     fn neg_infinity() -> Self { i16::MIN }
     fn pos_infinity() -> Self { i16::MAX }
 }
+impl ArgReducible for i8 {
+    fn neg_infinity() -> Self { i8::MIN }
+    fn pos_infinity() -> Self { i8::MAX }
+}
 impl ArgReducible for u64 {
     fn neg_infinity() -> Self { u64::MIN }
     fn pos_infinity() -> Self { u64::MAX }
@@ -455,7 +510,7 @@ fn argmax_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v > best_val {
+        if arg_greater(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -471,7 +526,7 @@ fn argmin_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v < best_val {
+        if arg_less(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -486,7 +541,7 @@ fn argmax_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v > best_val {
+        if arg_greater(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -501,7 +556,7 @@ fn argmin_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v < best_val {
+        if arg_less(v, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -512,7 +567,7 @@ fn argmin_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
 /// Macro to generate argmax/argmin axis functions with inline comparisons.
 /// Using a macro ensures the comparison is inlined (unlike fn pointers).
 macro_rules! impl_arg_axis {
-    ($name:ident, $cmp:tt, $init:ident) => {
+    ($name:ident, $better:ident, $init:ident) => {
         fn $name<T: ArgReducible>(arr: &RumpyArray, axis: usize) -> RumpyArray {
             let shape = arr.shape();
             let axis_len = shape[axis];
@@ -549,7 +604,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..n_cols {
                             let v = unsafe { *row_start.add(j) };
-                            if v $cmp best_val {
+                            if $better(v, best_val) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -564,7 +619,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..axis_len {
                             let v = unsafe { *slice_start.add(j) };
-                            if v $cmp best_val {
+                            if $better(v, best_val) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -586,7 +641,7 @@ macro_rules! impl_arg_axis {
                         for inner_idx in 0..inner_size {
                             let v = unsafe { *src_ptr.add(src_idx) };
                             let out_idx = out_base + inner_idx;
-                            if v $cmp best_vals[out_idx] {
+                            if $better(v, best_vals[out_idx]) {
                                 best_vals[out_idx] = v;
                                 unsafe { *result_ptr.add(out_idx) = axis_idx as i64; }
                             }
@@ -602,7 +657,7 @@ macro_rules! impl_arg_axis {
                     let mut best_idx = 0i64;
                     for j in 1..axis_len {
                         let v = unsafe { *((start as *const u8).offset(axis_stride * j as isize) as *const T) };
-                        if v $cmp best_val {
+                        if $better(v, best_val) {
                             best_val = v;
                             best_idx = j as i64;
                         }
@@ -616,8 +671,8 @@ macro_rules! impl_arg_axis {
     };
 }
 
-impl_arg_axis!(argmax_axis_typed, >, neg_infinity);
-impl_arg_axis!(argmin_axis_typed, <, pos_infinity);
+impl_arg_axis!(argmax_axis_typed, arg_greater, neg_infinity);
+impl_arg_axis!(argmin_axis_typed, arg_less, pos_infinity);
 
 impl RumpyArray {
 
@@ -628,6 +683,17 @@ impl RumpyArray {
     // Note: NaN-aware axis reductions still use get_element() which is slower.
     // Non-NaN reductions use registry strided loops via reduce_axis_op().
 
+    /// Whether the dtype has no NaN at all (bool and integers).
+    pub(crate) fn never_nan(&self) -> bool {
+        use crate::array::dtype::DTypeKind;
+        matches!(
+            self.dtype().kind(),
+            DTypeKind::Bool
+                | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+                | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64
+        )
+    }
+
     /// Helper: iterate non-NaN values, returning (value, was_found) for full reductions.
     fn nan_reduce_full<F>(&self, init: f64, mut f: F) -> (f64, bool)
     where
@@ -699,6 +765,9 @@ impl RumpyArray {
     /// Sum along axis, ignoring NaN values.
     pub fn nansum_axis(&self, axis: usize) -> RumpyArray {
         use crate::ops::dispatch;
+        if self.never_nan() {
+            return self.sum_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_sum(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut sum = 0.0;
@@ -724,6 +793,9 @@ impl RumpyArray {
     /// Product along axis, ignoring NaN values.
     pub fn nanprod_axis(&self, axis: usize) -> RumpyArray {
         use crate::ops::dispatch;
+        if self.never_nan() {
+            return self.prod_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_prod(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut prod = 1.0;
@@ -844,7 +916,6 @@ impl RumpyArray {
     pub fn nanmin(&self) -> f64 {
         use crate::ops::dispatch;
         match dispatch::dispatch_nan_reduce_min(self) {
-            Some(val) if val == f64::INFINITY => f64::NAN, // All NaN case
             Some(val) => val,
             None => {
                 let (val, found) = self.nan_reduce_full(f64::INFINITY, |acc, v| acc.min(v));
@@ -856,6 +927,9 @@ impl RumpyArray {
     /// Minimum along axis, ignoring NaN values.
     pub fn nanmin_axis(&self, axis: usize) -> RumpyArray {
         use crate::ops::dispatch;
+        if self.never_nan() {
+            return self.min_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_min(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut min_val = f64::INFINITY;
@@ -877,7 +951,6 @@ impl RumpyArray {
     pub fn nanmax(&self) -> f64 {
         use crate::ops::dispatch;
         match dispatch::dispatch_nan_reduce_max(self) {
-            Some(val) if val == f64::NEG_INFINITY => f64::NAN, // All NaN case
             Some(val) => val,
             None => {
                 let (val, found) = self.nan_reduce_full(f64::NEG_INFINITY, |acc, v| acc.max(v));
@@ -889,6 +962,9 @@ impl RumpyArray {
     /// Maximum along axis, ignoring NaN values.
     pub fn nanmax_axis(&self, axis: usize) -> RumpyArray {
         use crate::ops::dispatch;
+        if self.never_nan() {
+            return self.max_axis(axis);
+        }
         dispatch::dispatch_nan_reduce_axis_max(self, axis).unwrap_or_else(|| {
             self.nan_reduce_axis(axis, self.dtype(), |indices, ax, len| {
                 let mut max_val = f64::NEG_INFINITY;
@@ -919,7 +995,7 @@ impl RumpyArray {
         let mut min_idx: Option<usize> = None;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if !val.is_nan() && val < min_val {
+            if !val.is_nan() && (min_idx.is_none() || val < min_val) {
                 min_val = val;
                 min_idx = Some(i);
             }
@@ -928,7 +1004,8 @@ impl RumpyArray {
     }
 
     /// Index of minimum element along axis, ignoring NaN values.
-    pub fn nanargmin_axis(&self, axis: usize) -> RumpyArray {
+    /// Returns None if some slice along the axis has no non-NaN element.
+    pub fn nanargmin_axis(&self, axis: usize) -> Option<RumpyArray> {
         self.nan_arg_reduce_axis(axis, |a, b| a < b)
     }
 
@@ -945,7 +1022,7 @@ impl RumpyArray {
         let mut max_idx: Option<usize> = None;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if !val.is_nan() && val > max_val {
+            if !val.is_nan() && (max_idx.is_none() || val > max_val) {
                 max_val = val;
                 max_idx = Some(i);
             }
@@ -954,16 +1031,18 @@ impl RumpyArray {
     }
 
     /// Index of maximum element along axis, ignoring NaN values.
-    pub fn nanargmax_axis(&self, axis: usize) -> RumpyArray {
+    /// Returns None if some slice along the axis has no non-NaN element.
+    pub fn nanargmax_axis(&self, axis: usize) -> Option<RumpyArray> {
         self.nan_arg_reduce_axis(axis, |a, b| a > b)
     }
 
     /// Helper for nanargmax_axis/nanargmin_axis.
-    fn nan_arg_reduce_axis<F>(&self, axis: usize, is_better: F) -> RumpyArray
+    fn nan_arg_reduce_axis<F>(&self, axis: usize, is_better: F) -> Option<RumpyArray>
     where
         F: Fn(f64, f64) -> bool,
     {
-        self.nan_reduce_axis(axis, DType::int64(), |indices, ax, len| {
+        let mut all_nan = self.shape()[axis] == 0;
+        let result = self.nan_reduce_axis(axis, DType::int64(), |indices, ax, len| {
             let mut best_val: Option<f64> = None;
             let mut best_idx: i64 = 0;
             for j in 0..len {
@@ -983,7 +1062,9 @@ impl RumpyArray {
                     }
                 }
             }
+            all_nan |= best_val.is_none();
             best_idx as f64
-        })
+        });
+        if all_nan { None } else { Some(result) }
     }
 }
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index f816733..222f478 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1785,6 +1785,7 @@ pub fn dispatch_all_axis(arr: &RumpyArray, axis: usize) -> Option<RumpyArray> {
         DTypeKind::Int64 => dispatch_all_axis_typed::<i64>(arr, axis),
         DTypeKind::Int32 => dispatch_all_axis_typed::<i32>(arr, axis),
         DTypeKind::Int16 => dispatch_all_axis_typed::<i16>(arr, axis),
+        DTypeKind::Int8 => dispatch_all_axis_typed::<i8>(arr, axis),
         DTypeKind::Uint64 => dispatch_all_axis_typed::<u64>(arr, axis),
         DTypeKind::Uint32 => dispatch_all_axis_typed::<u32>(arr, axis),
         DTypeKind::Uint16 => dispatch_all_axis_typed::<u16>(arr, axis),
@@ -1805,6 +1806,7 @@ pub fn dispatch_any_axis(arr: &RumpyArray, axis: usize) -> Option<RumpyArray> {
         DTypeKind::Int64 => dispatch_any_axis_typed::<i64>(arr, axis),
         DTypeKind::Int32 => dispatch_any_axis_typed::<i32>(arr, axis),
         DTypeKind::Int16 => dispatch_any_axis_typed::<i16>(arr, axis),
+        DTypeKind::Int8 => dispatch_any_axis_typed::<i8>(arr, axis),
         DTypeKind::Uint64 => dispatch_any_axis_typed::<u64>(arr, axis),
         DTypeKind::Uint32 => dispatch_any_axis_typed::<u32>(arr, axis),
         DTypeKind::Uint16 => dispatch_any_axis_typed::<u16>(arr, axis),
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index f0e77cc..a72a90c 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -126,13 +126,13 @@ macro_rules! impl_float_arithmetic {
             #[inline(always)]
             fn init() -> $T { <$T>::NEG_INFINITY }
             #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { if v > acc { v } else { acc } }
+            fn combine(acc: $T, v: $T) -> $T { if v > acc || v.is_nan() { v } else { acc } }
         }
         impl ReduceKernel<$T> for Min {
             #[inline(always)]
             fn init() -> $T { <$T>::INFINITY }
             #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { if v < acc { v } else { acc } }
+            fn combine(acc: $T, v: $T) -> $T { if v < acc || v.is_nan() { v } else { acc } }
         }
         impl ReduceKernel<$T> for SumOfSquares {
             #[inline(always)]
@@ -264,18 +264,18 @@ macro_rules! impl_nan_reduce {
         }
         impl ReduceKernel<$T> for NanMax {
             #[inline(always)]
-            fn init() -> $T { <$T>::NEG_INFINITY }
+            fn init() -> $T { <$T>::NAN }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T {
-                if v.is_nan() { acc } else if v > acc { v } else { acc }
+                if v > acc || acc.is_nan() { v } else { acc }
             }
         }
         impl ReduceKernel<$T> for NanMin {
             #[inline(always)]
-            fn init() -> $T { <$T>::INFINITY }
+            fn init() -> $T { <$T>::NAN }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T {
-                if v.is_nan() { acc } else if v < acc { v } else { acc }
+                if v < acc || acc.is_nan() { v } else { acc }
             }
         }
     };
@@ -322,13 +322,13 @@ impl ReduceKernel<f16> for Max {
     #[inline(always)]
     fn init() -> f16 { f16::NEG_INFINITY }
     #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { if v > acc { v } else { acc } }
+    fn combine(acc: f16, v: f16) -> f16 { if v > acc || v.is_nan() { v } else { acc } }
 }
 impl ReduceKernel<f16> for Min {
     #[inline(always)]
     fn init() -> f16 { f16::INFINITY }
     #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { if v < acc { v } else { acc } }
+    fn combine(acc: f16, v: f16) -> f16 { if v < acc || v.is_nan() { v } else { acc } }
 }
 impl ReduceKernel<f16> for SumOfSquares {
     #[inline(always)]
@@ -662,21 +662,33 @@ macro_rules! impl_complex_arithmetic {
             #[inline(always)]
             fn apply(_a: Complex<$F>, b: Complex<$F>) -> Complex<$F> { b } // Just return b
         }
-        // Max/Min reductions for complex: compare by magnitude
+        // Max/Min reductions for complex: lexicographic order, a NaN part wins
         impl ReduceKernel<Complex<$F>> for Max {
             #[inline(always)]
-            fn init() -> Complex<$F> { Complex::new(<$F>::NEG_INFINITY, 0.0 as $F) }
+            fn init() -> Complex<$F> { Complex::new(<$F>::NEG_INFINITY, <$F>::NEG_INFINITY) }
             #[inline(always)]
             fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> {
-                if v.norm_sqr() > acc.norm_sqr() { v } else { acc }
+                if acc.re.is_nan() || acc.im.is_nan() {
+                    acc
+                } else if v.re > acc.re || (v.re == acc.re && v.im > acc.im) || v.re.is_nan() || v.im.is_nan() {
+                    v
+                } else {
+                    acc
+                }
             }
         }
         impl ReduceKernel<Complex<$F>> for Min {
             #[inline(always)]
-            fn init() -> Complex<$F> { Complex::new(<$F>::INFINITY, 0.0 as $F) }
+            fn init() -> Complex<$F> { Complex::new(<$F>::INFINITY, <$F>::INFINITY) }
             #[inline(always)]
             fn combine(acc: Complex<$F>, v: Complex<$F>) -> Complex<$F> {
-                if v.norm_sqr() < acc.norm_sqr() { v } else { acc }
+                if acc.re.is_nan() || acc.im.is_nan() {
+                    acc
+                } else if v.re < acc.re || (v.re == acc.re && v.im < acc.im) || v.re.is_nan() || v.im.is_nan() {
+                    v
+                } else {
+                    acc
+                }
             }
         }
     };
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 5f17775..56c6fe7 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -407,6 +407,9 @@ impl RumpyArray {
             return f64::NAN;
         }
         let mut values = self.to_vec();
+        if values.iter().any(|v| v.is_nan()) {
+            return f64::NAN;
+        }
         let mid = size / 2;
 
         // select_nth_unstable partitions so values[mid] is the correct element
@@ -435,7 +438,7 @@ impl RumpyArray {
         }
 
         let out_size: usize = out_shape.iter().product();
-        let mut result = RumpyArray::zeros(out_shape.clone(), DType::float64());
+        let mut result = RumpyArray::full(out_shape.clone(), f64::NAN, DType::float64());
 
         if out_size == 0 || axis_len == 0 {
             return result;
@@ -445,7 +448,9 @@ impl RumpyArray {
         let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
         let result_ptr = result_buffer.as_mut_ptr() as *mut f64;
 
-        let mut outer_indices = vec![0usize; out_shape.len()];
+        let mut outer_shape: Vec<usize> = shape[..axis].to_vec();
+        outer_shape.extend_from_slice(&shape[axis + 1..]);
+        let mut outer_indices = vec![0usize; ndim - 1];
         for out_i in 0..out_size {
             // Collect values along axis
             let mut values = Vec::with_capacity(axis_len);
@@ -460,14 +465,16 @@ impl RumpyArray {
 
             // Sort and compute median
             values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-            let median = if axis_len.is_multiple_of(2) {
+            let median = if values.iter().any(|v| v.is_nan()) {
+                f64::NAN
+            } else if axis_len.is_multiple_of(2) {
                 (values[axis_len / 2 - 1] + values[axis_len / 2]) / 2.0
             } else {
                 values[axis_len / 2]
             };
 
             unsafe { *result_ptr.add(out_i) = median; }
-            increment_indices(&mut outer_indices, &out_shape);
+            increment_indices(&mut outer_indices, &outer_shape);
         }
         result
     }
@@ -564,7 +571,7 @@ impl RumpyArray {
         }
 
         let out_size: usize = out_shape.iter().product();
-        let mut result = RumpyArray::zeros(out_shape, DType::float64());
+        let mut result = RumpyArray::full(out_shape, f64::NAN, DType::float64());
 
         if out_size == 0 || axis_len == 0 {
             return result;
diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index 4ff86b4..2b40717 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -3,26 +3,24 @@
 use pyo3::prelude::*;
 
 use super::{
-    axis_reduction_with_keepdims, check_axis, scalar_reduction_with_keepdims, PyRumpyArray,
-    ReductionResult,
+    axis_reduction_with_keepdims, check_axis, check_nonempty, float_result_dtype,
+    full_reduction_with_keepdims, scalar_reduction_with_keepdims, PyRumpyArray, ReductionResult,
 };
-use crate::array::DType;
 
 #[pymethods]
 impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn sum(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.sum(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => {
+                let flat = self.inner.flattened();
+                Ok(full_reduction_with_keepdims(&self.inner, flat.sum_axis(0), keepdims))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.sum_axis(ax),
                     ax,
                     keepdims,
@@ -34,16 +32,15 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn prod(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.prod(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => {
+                let flat = self.inner.flattened();
+                Ok(full_reduction_with_keepdims(&self.inner, flat.prod_axis(0), keepdims))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.prod_axis(ax),
                     ax,
                     keepdims,
@@ -55,16 +52,17 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn max(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.max(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => {
+                let flat = self.inner.flattened();
+                check_nonempty(&flat, 0, "max")?;
+                Ok(full_reduction_with_keepdims(&self.inner, flat.max_axis(0), keepdims))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_nonempty(&self.inner, ax, "max")?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.max_axis(ax),
                     ax,
                     keepdims,
@@ -76,16 +74,17 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn min(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.min(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => {
+                let flat = self.inner.flattened();
+                check_nonempty(&flat, 0, "min")?;
+                Ok(full_reduction_with_keepdims(&self.inner, flat.min_axis(0), keepdims))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_nonempty(&self.inner, ax, "min")?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.min_axis(ax),
                     ax,
                     keepdims,
@@ -97,16 +96,15 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn mean(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                self.inner.mean(),
-                keepdims,
-                self.inner.dtype(),
-            )),
+            None => {
+                let flat = self.inner.flattened();
+                Ok(full_reduction_with_keepdims(&self.inner, flat.mean_axis(0), keepdims))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.mean_axis(ax),
                     ax,
                     keepdims,
@@ -122,12 +120,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.var(),
                 keepdims,
-                self.inner.dtype(),
+                float_result_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.var_axis(ax),
                     ax,
                     keepdims,
@@ -143,12 +142,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.std(),
                 keepdims,
-                self.inner.dtype(),
+                float_result_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.std_axis(ax),
                     ax,
                     keepdims,
@@ -165,12 +165,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.moment(k),
                 keepdims,
-                self.inner.dtype(),
+                float_result_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.moment_axis(k, ax),
                     ax,
                     keepdims,
@@ -187,12 +188,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.skew(),
                 keepdims,
-                self.inner.dtype(),
+                float_result_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.skew_axis(ax),
                     ax,
                     keepdims,
@@ -209,12 +211,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.kurtosis(),
                 keepdims,
-                self.inner.dtype(),
+                float_result_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.kurtosis_axis(ax),
                     ax,
                     keepdims,
@@ -226,10 +229,14 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None))]
     fn argmax(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(ReductionResult::Scalar(self.inner.argmax() as f64)),
+            None => {
+                check_nonempty(&self.inner.flattened(), 0, "argmax")?;
+                Ok(ReductionResult::Int(self.inner.argmax() as i64))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_nonempty(&self.inner, ax, "argmax")?;
                 Ok(ReductionResult::Array(Self::new(
                     self.inner.argmax_axis(ax),
                 )))
@@ -240,10 +247,14 @@ impl PyRumpyArray {
     #[pyo3(signature = (axis=None))]
     fn argmin(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(ReductionResult::Scalar(self.inner.argmin() as f64)),
+            None => {
+                check_nonempty(&self.inner.flattened(), 0, "argmin")?;
+                Ok(ReductionResult::Int(self.inner.argmin() as i64))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_nonempty(&self.inner, ax, "argmin")?;
                 Ok(ReductionResult::Array(Self::new(
                     self.inner.argmin_axis(ax),
                 )))
@@ -254,18 +265,16 @@ impl PyRumpyArray {
     /// Test if all elements evaluate to True.
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn all(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        let val = if self.inner.all() { 1.0 } else { 0.0 };
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                val,
-                keepdims,
-                DType::bool(),
-            )),
+            None => {
+                let flat = self.inner.flattened();
+                Ok(full_reduction_with_keepdims(&self.inner, flat.all_axis(0), keepdims))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.all_axis(ax),
                     ax,
                     keepdims,
@@ -277,18 +286,16 @@ impl PyRumpyArray {
     /// Test if any element evaluates to True.
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn any(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
-        let val = if self.inner.any() { 1.0 } else { 0.0 };
         match axis {
-            None => Ok(scalar_reduction_with_keepdims(
-                &self.inner,
-                val,
-                keepdims,
-                DType::bool(),
-            )),
+            None => {
+                let flat = self.inner.flattened();
+                Ok(full_reduction_with_keepdims(&self.inner, flat.any_axis(0), keepdims))
+            }
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.any_axis(ax),
                     ax,
                     keepdims,
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 7e479c9..9bf305e 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -118,9 +118,38 @@ pub fn resolve_reshape_shape(shape: Vec<isize>, size: usize) -> PyResult<Vec<usi
 /// Result type for reductions that can return scalar or array.
 pub enum ReductionResult {
     Scalar(f64),
+    Int(i64),
+    Uint(u64),
+    Bool(bool),
+    Complex(f64, f64),
     Array(PyRumpyArray),
 }
 
+impl ReductionResult {
+    /// The first element of a reduced array as a Python scalar.
+    pub fn element(arr: &RumpyArray) -> Self {
+        use crate::array::dtype::DTypeKind;
+        // Reading through a wider dtype keeps every value exact.
+        match arr.dtype().kind() {
+            DTypeKind::Bool => ReductionResult::Bool(unsafe { *arr.data_ptr() } != 0),
+            DTypeKind::Int64 | DTypeKind::Int32 | DTypeKind::Int16 | DTypeKind::Int8 => {
+                let wide = arr.astype(DType::int64());
+                ReductionResult::Int(unsafe { *(wide.data_ptr() as *const i64) })
+            }
+            DTypeKind::Uint64 | DTypeKind::Uint32 | DTypeKind::Uint16 | DTypeKind::Uint8 => {
+                let wide = arr.astype(DType::uint64());
+                ReductionResult::Uint(unsafe { *(wide.data_ptr() as *const u64) })
+            }
+            DTypeKind::Complex64 | DTypeKind::Complex128 => {
+                let dtype = arr.dtype();
+                let (re, im) = unsafe { dtype.ops().read_complex(arr.data_ptr(), 0) }.unwrap_or((0.0, 0.0));
+                ReductionResult::Complex(re, im)
+            }
+            _ => ReductionResult::Scalar(arr.get_element(&vec![0; arr.ndim()])),
+        }
+    }
+}
+
 impl<'py> IntoPyObject<'py> for ReductionResult {
     type Target = PyAny;
     type Output = Bound<'py, PyAny>;
@@ -129,6 +158,12 @@ impl<'py> IntoPyObject<'py> for ReductionResult {
     fn into_pyobject(self, py: Python<'py>) -> Result<Self::Output, Self::Error> {
         match self {
             ReductionResult::Scalar(v) => Ok(v.into_pyobject(py)?.into_any()),
+            ReductionResult::Int(v) => Ok(v.into_pyobject(py)?.into_any()),
+            ReductionResult::Uint(v) => Ok(v.into_pyobject(py)?.into_any()),
+            ReductionResult::Bool(v) => Ok(v.into_pyobject(py)?.to_owned().into_any()),
+            ReductionResult::Complex(re, im) => {
+                Ok(pyo3::types::PyComplex::from_doubles(py, re, im).into_any())
+            }
             ReductionResult::Array(arr) => Ok(arr.into_pyobject(py)?.into_any()),
         }
     }
@@ -146,10 +181,27 @@ fn check_axis(axis: usize, ndim: usize) -> PyResult<()> {
     }
 }
 
-/// Apply keepdims to a reduction result.
-fn apply_keepdims(arr: RumpyArray, axis: usize) -> RumpyArray {
-    // Insert a dimension of size 1 at the reduced axis position
-    arr.expand_dims(axis).unwrap_or(arr)
+/// Reductions without an identity need at least one element along the reduced axis.
+pub(crate) fn check_nonempty(arr: &RumpyArray, axis: usize, name: &str) -> PyResult<()> {
+    let outputs: usize = arr.shape().iter().enumerate()
+        .filter(|&(d, _)| d != axis)
+        .map(|(_, &n)| n)
+        .product();
+    if arr.shape()[axis] == 0 && outputs != 0 {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "zero-size array to reduction operation {} which has no identity", name
+        )));
+    }
+    Ok(())
+}
+
+/// dtype of floating-point statistics of an array: integers and booleans give float64.
+fn float_result_dtype(arr: &RumpyArray) -> DType {
+    use crate::array::dtype::DTypeKind;
+    match arr.dtype().kind() {
+        DTypeKind::Float32 | DTypeKind::Float16 | DTypeKind::Complex64 | DTypeKind::Complex128 => arr.dtype(),
+        _ => DType::float64(),
+    }
 }
 
 /// Helper for scalar reductions with keepdims support.
@@ -172,14 +224,29 @@ fn scalar_reduction_with_keepdims(
     }
 }
 
+/// Helper for full reductions whose result is a one-element array.
+fn full_reduction_with_keepdims(arr: &RumpyArray, result: RumpyArray, keepdims: bool) -> ReductionResult {
+    if keepdims {
+        let ones = result.reshape(vec![1; arr.ndim()]).expect("one element");
+        ReductionResult::Array(PyRumpyArray::new(ones))
+    } else {
+        ReductionResult::element(&result)
+    }
+}
+
 /// Helper for axis reductions with keepdims support.
 fn axis_reduction_with_keepdims(
+    arr: &RumpyArray,
     result: RumpyArray,
     axis: usize,
     keepdims: bool,
 ) -> ReductionResult {
     if keepdims {
-        ReductionResult::Array(PyRumpyArray::new(apply_keepdims(result, axis)))
+        // The reduced axis stays as a dimension of size 1
+        let mut shape = arr.shape().to_vec();
+        shape[axis] = 1;
+        let kept = result.reshape(shape).expect("one element per reduced slice");
+        ReductionResult::Array(PyRumpyArray::new(kept))
     } else {
         ReductionResult::Array(PyRumpyArray::new(result))
     }
@@ -707,11 +774,17 @@ impl PyRumpyArray {
 
     /// Peak-to-peak (maximum - minimum) value.
     #[pyo3(signature = (axis=None))]
-    fn ptp(&self, axis: Option<usize>) -> PyResult<ReductionResult> {
+    fn ptp(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
         match axis {
-            None => Ok(ReductionResult::Scalar(self.inner.ptp())),
+            None => {
+                let flat = self.inner.flattened();
+                check_nonempty(&flat, 0, "ptp")?;
+                Ok(ReductionResult::element(&flat.ptp_axis(0)))
+            }
             Some(ax) => {
+                let ax = resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
+                check_nonempty(&self.inner, ax, "ptp")?;
                 Ok(ReductionResult::Array(Self::new(self.inner.ptp_axis(ax))))
             }
         }
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 3912a0b..611d95f 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -75,21 +75,60 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
     }
 }
 
-/// Perform sequential reductions over multiple axes.
-/// When reducing axis N, all subsequent axes with index > N shift down by 1.
-/// To match NumPy, we sort axes in descending order and reduce from highest to lowest.
-fn reduce_multi_axis<F>(arr: &RumpyArray, mut axes: Vec<usize>, reduce_fn: F) -> RumpyArray
+/// Combine several axes into one trailing axis, so that a multi-axis reduction
+/// sees all the elements it reduces over at once.
+fn merge_axes(arr: &RumpyArray, mut axes: Vec<usize>) -> PyResult<(RumpyArray, usize)> {
+    axes.sort_unstable();
+    if axes.windows(2).any(|w| w[0] == w[1]) {
+        return Err(pyo3::exceptions::PyValueError::new_err("duplicate value in 'axis'"));
+    }
+    if axes.len() == 1 {
+        return Ok((arr.clone(), axes[0]));
+    }
+    let kept: Vec<usize> = (0..arr.ndim()).filter(|d| !axes.contains(d)).collect();
+    let mut shape: Vec<usize> = kept.iter().map(|&d| arr.shape()[d]).collect();
+    shape.push(axes.iter().map(|&d| arr.shape()[d]).product());
+    let order: Vec<usize> = kept.iter().chain(axes.iter()).copied().collect();
+    let merged = arr.transpose_axes(&order).copy().reshape(shape)
+        .expect("merged shape has the same number of elements");
+    Ok((merged, kept.len()))
+}
+
+/// Reduce with `full` over all elements (axis=None) or with `per_axis` along the given axes.
+fn reduce_with<F, A>(
+    x: &PyRumpyArray,
+    axis: Option<&Bound<'_, pyo3::PyAny>>,
+    full: F,
+    per_axis: A,
+) -> PyResult<pyarray::ReductionResult>
 where
-    F: Fn(&RumpyArray, usize) -> RumpyArray,
+    F: Fn(&RumpyArray) -> PyResult<pyarray::ReductionResult>,
+    A: Fn(&RumpyArray, usize) -> PyResult<RumpyArray>,
 {
-    // Sort axes in descending order to avoid index shifting issues
-    axes.sort_by(|a, b| b.cmp(a));
-
-    let mut result = arr.clone();
-    for &axis in &axes {
-        result = reduce_fn(&result, axis);
+    match parse_axis(axis, x.inner.ndim())? {
+        None => full(&x.inner),
+        Some(axes) => {
+            let (arr, ax) = merge_axes(&x.inner, axes)?;
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(per_axis(&arr, ax)?)))
+        }
     }
-    result
+}
+
+/// Reduce with `per_axis` along the given axes, or over the flattened array (axis=None).
+fn reduce_axes<A>(
+    x: &PyRumpyArray,
+    axis: Option<&Bound<'_, pyo3::PyAny>>,
+    per_axis: A,
+) -> PyResult<pyarray::ReductionResult>
+where
+    A: Fn(&RumpyArray, usize) -> PyResult<RumpyArray>,
+{
+    reduce_with(
+        x,
+        axis,
+        |arr| Ok(pyarray::ReductionResult::element(&per_axis(&arr.flattened(), 0)?)),
+        &per_axis,
+    )
 }
 
 // ============================================================================
@@ -100,153 +139,75 @@ where
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn sum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.sum())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.sum_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.sum_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| Ok(arr.sum_axis(ax)))
 }
 
 /// Product of array elements.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn prod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.prod())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.prod_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.prod_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| Ok(arr.prod_axis(ax)))
 }
 
 /// Mean of array elements.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn mean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.mean())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.mean_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.mean_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| Ok(arr.mean_axis(ax)))
 }
 
 /// Variance of array elements.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn var(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.var())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.var_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.var_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_with(x, axis, |arr| Ok(pyarray::ReductionResult::Scalar(arr.var())), |arr, ax| Ok(arr.var_axis(ax)))
 }
 
 /// Standard deviation of array elements.
 #[pyfunction]
 #[pyo3(name = "std", signature = (x, axis=None))]
 pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.std())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.std_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.std_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_with(x, axis, |arr| Ok(pyarray::ReductionResult::Scalar(arr.std())), |arr, ax| Ok(arr.std_axis(ax)))
 }
 
 /// Maximum of array elements.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.max())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.max_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.max_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| {
+        pyarray::check_nonempty(arr, ax, "max")?;
+        Ok(arr.max_axis(ax))
+    })
 }
 
 /// Minimum of array elements.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.min())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.min_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.min_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| {
+        pyarray::check_nonempty(arr, ax, "min")?;
+        Ok(arr.min_axis(ax))
+    })
 }
 
 /// Index of maximum element.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn argmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.argmax() as f64)),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.argmax_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.argmax_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| {
+        pyarray::check_nonempty(arr, ax, "argmax")?;
+        Ok(arr.argmax_axis(ax))
+    })
 }
 
 /// Index of minimum element.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.argmin() as f64)),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.argmin_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.argmin_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| {
+        pyarray::check_nonempty(arr, ax, "argmin")?;
+        Ok(arr.argmin_axis(ax))
+    })
 }
 
 // ============================================================================
@@ -257,119 +218,49 @@ pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nansum(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nansum())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nansum_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nansum_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| Ok(arr.nansum_axis(ax)))
 }
 
 /// Product ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanprod(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanprod())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanprod_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanprod_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| Ok(arr.nanprod_axis(ax)))
 }
 
 /// Mean ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmean(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmean())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanmean_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanmean_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_with(x, axis, |arr| Ok(pyarray::ReductionResult::Scalar(arr.nanmean())), |arr, ax| Ok(arr.nanmean_axis(ax)))
 }
 
 /// Variance ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanvar(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanvar())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanvar_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanvar_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_with(x, axis, |arr| Ok(pyarray::ReductionResult::Scalar(arr.nanvar())), |arr, ax| Ok(arr.nanvar_axis(ax)))
 }
 
 /// Standard deviation ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanstd())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanstd_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanstd_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_with(x, axis, |arr| Ok(pyarray::ReductionResult::Scalar(arr.nanstd())), |arr, ax| Ok(arr.nanstd_axis(ax)))
 }
 
 /// Minimum ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmin())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanmin_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanmin_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| Ok(arr.nanmin_axis(ax)))
 }
 
 /// Maximum ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmax())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanmax_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanmax_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| Ok(arr.nanmax_axis(ax)))
 }
 
 /// Index of minimum ignoring NaN values.
@@ -379,7 +270,7 @@ pub fn nanargmin(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
     match axis {
         None => {
             match x.inner.nanargmin() {
-                Some(idx) => Ok(pyarray::ReductionResult::Scalar(idx as f64)),
+                Some(idx) => Ok(pyarray::ReductionResult::Int(idx as i64)),
                 None => Err(pyo3::exceptions::PyValueError::new_err(
                     "All-NaN slice encountered"
                 )),
@@ -388,7 +279,10 @@ pub fn nanargmin(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
         Some(ax) => {
             let ax = resolve_axis(ax, x.inner.ndim());
             check_axis(ax, x.inner.ndim())?;
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanargmin_axis(ax))))
+            let result = x.inner.nanargmin_axis(ax).ok_or_else(|| {
+                pyo3::exceptions::PyValueError::new_err("All-NaN slice encountered")
+            })?;
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
         }
     }
 }
@@ -400,7 +294,7 @@ pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
     match axis {
         None => {
             match x.inner.nanargmax() {
-                Some(idx) => Ok(pyarray::ReductionResult::Scalar(idx as f64)),
+                Some(idx) => Ok(pyarray::ReductionResult::Int(idx as i64)),
                 None => Err(pyo3::exceptions::PyValueError::new_err(
                     "All-NaN slice encountered"
                 )),
@@ -409,7 +303,10 @@ pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
         Some(ax) => {
             let ax = resolve_axis(ax, x.inner.ndim());
             check_axis(ax, x.inner.ndim())?;
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanargmax_axis(ax))))
+            let result = x.inner.nanargmax_axis(ax).ok_or_else(|| {
+                pyo3::exceptions::PyValueError::new_err("All-NaN slice encountered")
+            })?;
+            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
         }
     }
 }
@@ -422,34 +319,14 @@ pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn all(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(if x.inner.all() { 1.0 } else { 0.0 })),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.all_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.all_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| Ok(arr.all_axis(ax)))
 }
 
 /// Test if any element evaluates to True.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn any(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(if x.inner.any() { 1.0 } else { 0.0 })),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.any_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.any_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| Ok(arr.any_axis(ax)))
 }
 
 // ============================================================================
@@ -504,17 +381,7 @@ pub fn cumulative_prod(x: &PyRumpyArray, axis: isize, include_initial: bool) ->
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn median(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.median())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.median_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.median_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_with(x, axis, |arr| Ok(pyarray::ReductionResult::Scalar(arr.median())), |arr, ax| Ok(arr.median_axis(ax)))
 }
 
 /// Weighted average of array elements.
@@ -525,19 +392,31 @@ pub fn average(
     axis: Option<isize>,
     weights: Option<&PyRumpyArray>,
 ) -> PyResult<pyarray::ReductionResult> {
+    let axis = axis.map(|ax| {
+        let ax = resolve_axis(ax, x.inner.ndim());
+        check_axis(ax, x.inner.ndim()).map(|_| ax)
+    }).transpose()?;
+    // Weights have the shape of the array, or are 1-D along the averaged axis
+    let weights = match weights {
+        None => None,
+        Some(w) if w.inner.shape() == x.inner.shape() => Some(w.inner.clone()),
+        Some(w) => match axis {
+            Some(ax) if w.inner.ndim() == 1 && w.inner.shape()[0] == x.inner.shape()[ax] => {
+                let mut shape = vec![1; x.inner.ndim()];
+                shape[ax] = w.inner.shape()[0];
+                let along = w.inner.reshape(shape).expect("same number of elements");
+                Some(along.broadcast_to(x.inner.shape()).expect("weights broadcast along the axis"))
+            }
+            _ => return Err(pyo3::exceptions::PyValueError::new_err(
+                "weights must have the shape of the array or be 1-D along the averaged axis",
+            )),
+        },
+    };
     match axis {
-        None => {
-            let weights_inner = weights.map(|w| &w.inner);
-            Ok(pyarray::ReductionResult::Scalar(x.inner.average(weights_inner)))
-        }
-        Some(ax) => {
-            let ax = resolve_axis(ax, x.inner.ndim());
-            check_axis(ax, x.inner.ndim())?;
-            let weights_inner = weights.map(|w| &w.inner);
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(
-                x.inner.average_axis(ax, weights_inner),
-            )))
-        }
+        None => Ok(pyarray::ReductionResult::Scalar(x.inner.average(weights.as_ref()))),
+        Some(ax) => Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(
+            x.inner.average_axis(ax, weights.as_ref()),
+        ))),
     }
 }
 
@@ -545,17 +424,10 @@ pub fn average(
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn ptp(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.ptp())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.ptp_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.ptp_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_axes(x, axis, |arr, ax| {
+        pyarray::check_nonempty(arr, ax, "ptp")?;
+        Ok(arr.ptp_axis(ax))
+    })
 }
 
 /// Compute histogram.
@@ -728,7 +600,11 @@ pub fn bincount(x: &PyRumpyArray, minlength: usize) -> PyResult<PyRumpyArray> {
 /// Compute percentiles of a dataset.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|ax| {
+        let ax = resolve_axis(ax, a.inner.ndim());
+        check_axis(ax, a.inner.ndim()).map(|_| ax)
+    }).transpose()?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -753,7 +629,11 @@ pub fn percentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Opti
 /// Compute quantiles of a dataset.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+pub fn quantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|ax| {
+        let ax = resolve_axis(ax, a.inner.ndim());
+        check_axis(ax, a.inner.ndim()).map(|_| ax)
+    }).transpose()?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -785,8 +665,10 @@ pub fn count_nonzero(x: &PyRumpyArray) -> usize {
 
 #[pyfunction]
 #[pyo3(signature = (x, n=1, axis=-1))]
-pub fn diff(x: &PyRumpyArray, n: usize, axis: isize) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.diff(n, resolve_axis(axis, x.inner.ndim())))
+pub fn diff(x: &PyRumpyArray, n: usize, axis: isize) -> PyResult<PyRumpyArray> {
+    let axis = resolve_axis(axis, x.inner.ndim());
+    check_axis(axis, x.inner.ndim())?;
+    Ok(PyRumpyArray::new(x.inner.diff(n, axis)))
 }
 
 // ============================================================================
@@ -815,23 +697,17 @@ pub fn amin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmedian(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    let axes = parse_axis(axis, x.inner.ndim())?;
-    match axes {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmedian())),
-        Some(ax_vec) if ax_vec.len() == 1 => {
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanmedian_axis(ax_vec[0]))))
-        }
-        Some(ax_vec) => {
-            let result = reduce_multi_axis(&x.inner, ax_vec, |arr, axis| arr.nanmedian_axis(axis));
-            Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(result)))
-        }
-    }
+    reduce_with(x, axis, |arr| Ok(pyarray::ReductionResult::Scalar(arr.nanmedian())), |arr, ax| Ok(arr.nanmedian_axis(ax)))
 }
 
 /// Compute percentiles of a dataset ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|ax| {
+        let ax = resolve_axis(ax, a.inner.ndim());
+        check_axis(ax, a.inner.ndim()).map(|_| ax)
+    }).transpose()?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
@@ -856,7 +732,11 @@ pub fn nanpercentile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: O
 /// Compute quantiles of a dataset ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (a, q, axis=None))]
-pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<usize>) -> PyResult<PyRumpyArray> {
+pub fn nanquantile(a: &PyRumpyArray, q: &pyo3::Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|ax| {
+        let ax = resolve_axis(ax, a.inner.ndim());
+        check_axis(ax, a.inner.ndim()).map(|_| ax)
+    }).transpose()?;
     // Parse q - can be scalar or array-like
     let q_values: Vec<f64> = if let Ok(val) = q.extract::<f64>() {
         vec![val]
-- 
2.43.0


From ab4a097914458293f4d127a15f407cbc9dc09882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 15/30] fix: exact convolve/correlate/bincount/ediff1d,
 gradient axes, histogram ranges and interp ends

---
 src/array/manipulation.rs | 188 ++++++++++++++-------------
 src/array/mod.rs          |   1 +
 src/ops/numerical.rs      | 139 +++++++-------------
 src/ops/statistics.rs     | 264 +++++++++++++-------------------------
 src/python/misc.rs        | 161 +++++------------------
 src/python/numerical.rs   |  10 +-
 src/python/pyarray/mod.rs |  22 +---
 src/python/reductions.rs  |  15 ++-
 8 files changed, 284 insertions(+), 516 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index ea0853b..efc626a 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -206,26 +206,19 @@ pub fn bincount(x: &RumpyArray, minlength: usize) -> Option<RumpyArray> {
     let dtype = x.dtype();
     let ops = dtype.ops();
 
-    // Find max value to determine output size
-    let mut max_val: i64 = 0;
-    for offset in x.iter_offsets() {
-        let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-        let ival = val as i64;
-        if ival < 0 {
-            return None; // Negative values not allowed
-        }
-        if ival > max_val {
-            max_val = ival;
-        }
+    let values: Vec<usize> = x
+        .iter_offsets()
+        .map(|offset| unsafe { ops.read_i64(ptr, offset) }.and_then(|v| usize::try_from(v).ok()))
+        .collect::<Option<_>>()?; // Negative values not allowed
+
+    let largest = values.iter().copied().max().unwrap_or(0);
+    // Reject counts no allocation could hold
+    if largest >= isize::MAX as usize / std::mem::size_of::<i64>() {
+        return None;
     }
-
-    let out_len = (max_val as usize + 1).max(minlength);
+    let out_len = (largest + 1).max(minlength);
     let mut counts = vec![0i64; out_len];
-
-    // Count occurrences
-    for offset in x.iter_offsets() {
-        let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-        let idx = val as usize;
+    for idx in values {
         counts[idx] += 1;
     }
 
@@ -804,90 +797,103 @@ pub fn indices(dimensions: &[usize], dtype: DType) -> RumpyArray {
     result
 }
 
+/// Part of a full convolution or correlation a mode asks for, as (start, length).
+///
+/// "same" is as long as the longer input; `centre_right` picks the later of the two
+/// central windows when there are two.
+pub(crate) fn convolve_window(n: usize, m: usize, mode: &str, centre_right: bool) -> Option<(usize, usize)> {
+    let (long, short) = (n.max(m), n.min(m));
+    match mode {
+        "full" => Some((0, long + short - 1)),
+        "same" => Some((if centre_right { short / 2 } else { (short - 1) / 2 }, long)),
+        "valid" => Some((short - 1, long - short + 1)),
+        _ => None,
+    }
+}
+
+/// Full convolution of two non-empty 1-D arrays, `v` reversed first for a correlation,
+/// restricted to `len` elements from `start`, in the promoted dtype.
+/// Integers are exact (modulo their width).
+pub(crate) fn convolve_range(a: &RumpyArray, v: &RumpyArray, correlate: bool, start: usize, len: usize) -> RumpyArray {
+    use crate::array::dtype::DTypeKind;
+    let dtype = crate::array::promote_dtype(&a.dtype(), &v.dtype());
+
+    macro_rules! read_all {
+        ($arr:expr, $read:ident, $zero:expr) => {{
+            let (ptr, arr_dtype) = ($arr.data_ptr(), $arr.dtype());
+            let ops = arr_dtype.ops();
+            $arr.iter_offsets().map(|off| unsafe { ops.$read(ptr, off) }.unwrap_or($zero)).collect::<Vec<_>>()
+        }};
+    }
+
+    match dtype.kind() {
+        DTypeKind::Complex64 | DTypeKind::Complex128 => {
+            let x = a.astype(DType::complex128());
+            let y = v.astype(DType::complex128());
+            let x = read_all!(x, read_complex, (0.0, 0.0));
+            let mut y = read_all!(y, read_complex, (0.0, 0.0));
+            if correlate {
+                y.reverse();
+                y.iter_mut().for_each(|c| c.1 = -c.1);
+            }
+            let full = convolve_direct(&x, &y, (0.0, 0.0), |s, p, q| {
+                (s.0 + (p.0 * q.0 - p.1 * q.1), s.1 + (p.0 * q.1 + p.1 * q.0))
+            });
+            let mut result = RumpyArray::zeros(vec![len], dtype.clone());
+            let ptr = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+            for (i, &(re, im)) in full[start..start + len].iter().enumerate() {
+                unsafe { dtype.ops().write_complex(ptr, i, re, im); }
+            }
+            result
+        }
+        DTypeKind::Bool => {
+            let x = read_all!(a, read_i64, 0);
+            let mut y = read_all!(v, read_i64, 0);
+            if correlate { y.reverse(); }
+            let full = convolve_direct(&x, &y, 0i64, |s, p, q| s | (p & q));
+            RumpyArray::from_vec_i64(full[start..start + len].to_vec(), dtype)
+        }
+        _ if dtype.is_integer() => {
+            let x = read_all!(a, read_i64, 0);
+            let mut y = read_all!(v, read_i64, 0);
+            if correlate { y.reverse(); }
+            let full = convolve_direct(&x, &y, 0i64, |s, p, q| s.wrapping_add(p.wrapping_mul(q)));
+            RumpyArray::from_vec_i64(full[start..start + len].to_vec(), dtype)
+        }
+        _ => {
+            let x = read_all!(a, read_f64, 0.0);
+            let mut y = read_all!(v, read_f64, 0.0);
+            if correlate { y.reverse(); }
+            // Direct is O(n*m), FFT is O((n+m) log(n+m)) and wins once n*m offsets its overhead
+            let full = if x.len() * y.len() > 500_000 {
+                convolve_fft(&x, &y)
+            } else {
+                convolve_direct(&x, &y, 0.0, |s, p, q| s + p * q)
+            };
+            RumpyArray::from_vec(full[start..start + len].to_vec(), dtype)
+        }
+    }
+}
+
 /// 1D discrete convolution.
 /// mode: "full", "same", or "valid"
 ///
 /// Uses direct O(n*m) method for small inputs, FFT O(n log n) for large.
 pub fn convolve(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArray> {
-    // Both must be 1D
-    if a.ndim() != 1 || v.ndim() != 1 {
+    // Both must be 1D and non-empty
+    if a.ndim() != 1 || v.ndim() != 1 || a.size() == 0 || v.size() == 0 {
         return None;
     }
-
-    let n = a.size();
-    let m = v.size();
-
-    if n == 0 || m == 0 {
-        let out_len = match mode {
-            "full" => n + m - 1,
-            "same" => n,
-            "valid" => n.saturating_sub(m - 1),
-            _ => return None,
-        };
-        return Some(RumpyArray::zeros(vec![out_len.max(0)], DType::float64()));
-    }
-
-    // Collect values (needed for both methods)
-    let a_ptr = a.data_ptr();
-    let a_dtype = a.dtype();
-    let a_ops = a_dtype.ops();
-    let v_ptr = v.data_ptr();
-    let v_dtype = v.dtype();
-    let v_ops = v_dtype.ops();
-
-    let mut a_vals: Vec<f64> = Vec::with_capacity(n);
-    for offset in a.iter_offsets() {
-        a_vals.push(unsafe { a_ops.read_f64(a_ptr, offset) }.unwrap_or(0.0));
-    }
-
-    let mut v_vals: Vec<f64> = Vec::with_capacity(m);
-    for offset in v.iter_offsets() {
-        v_vals.push(unsafe { v_ops.read_f64(v_ptr, offset) }.unwrap_or(0.0));
-    }
-
-    // Choose algorithm: FFT is O((n+m) log(n+m)), direct is O(n*m)
-    // FFT wins when n*m is large enough to offset FFT overhead
-    // Empirically, crossover vs numpy is around n*m = 2M
-    // We use FFT when it's faster than our own direct method (~500k)
-    let use_fft = n * m > 500_000;
-
-    let full_result = if use_fft {
-        convolve_fft(&a_vals, &v_vals)
-    } else {
-        convolve_direct(&a_vals, &v_vals)
-    };
-
-    // Extract the portion based on mode
-    let full_len = n + m - 1;
-    let (out_len, start) = match mode {
-        "full" => (full_len, 0),
-        "same" => (n, (m - 1) / 2),
-        "valid" => (n.saturating_sub(m - 1).max(1), m - 1),
-        _ => return None,
-    };
-
-    let mut result = RumpyArray::zeros(vec![out_len], DType::float64());
-    let buffer = result.buffer_mut();
-    let result_buffer = std::sync::Arc::get_mut(buffer).expect("unique");
-    let result_ptr = result_buffer.as_mut_ptr() as *mut f64;
-
-    for i in 0..out_len {
-        unsafe { *result_ptr.add(i) = full_result[start + i]; }
-    }
-
-    Some(result)
+    let (start, len) = convolve_window(a.size(), v.size(), mode, false)?;
+    Some(convolve_range(a, v, false, start, len))
 }
 
 /// Direct O(n*m) convolution helper.
-fn convolve_direct(a: &[f64], v: &[f64]) -> Vec<f64> {
+fn convolve_direct<T: Copy>(a: &[T], v: &[T], zero: T, mul_add: impl Fn(T, T, T) -> T) -> Vec<T> {
     let (n, m) = (a.len(), v.len());
-    let out_len = n + m - 1;
-    let mut result = vec![0.0; out_len];
-    for k in 0..out_len {
-        result[k] = (k.saturating_sub(n - 1)..m.min(k + 1))
-            .map(|j| a[k - j] * v[j]).sum();
-    }
-    result
+    (0..n + m - 1)
+        .map(|k| (k.saturating_sub(n - 1)..m.min(k + 1)).fold(zero, |s, j| mul_add(s, a[k - j], v[j])))
+        .collect()
 }
 
 /// FFT-based O(n log n) convolution helper.
diff --git a/src/array/mod.rs b/src/array/mod.rs
index f0f630d..15428bc 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -18,6 +18,7 @@ pub use manipulation::{
     geomspace, indices, insert, logspace, meshgrid, nanpercentile, pad, percentile, repeat, roll,
     rot90, split, stack, tile, tri, tril, triu,
 };
+pub(crate) use manipulation::{convolve_range, convolve_window};
 
 /// Core N-dimensional array type.
 #[derive(Clone)]
diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index 146c9e4..db5ec27 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -47,8 +47,9 @@ macro_rules! impl_typed_loops {
 
             for i in 1..n - 1 {
                 let v_prev = *src.offset((i as isize - 1) * src_step) as f64;
+                let v = *src.offset(i as isize * src_step) as f64;
                 let v_next = *src.offset((i as isize + 1) * src_step) as f64;
-                *out.offset(i as isize * out_step) = (v_next - v_prev) / (x[i + 1] - x[i - 1]);
+                *out.offset(i as isize * out_step) = central_difference([v_prev, v, v_next], x[i] - x[i - 1], x[i + 1] - x[i]);
             }
 
             let v_last = *src.offset((n as isize - 1) * src_step) as f64;
@@ -91,6 +92,14 @@ impl_typed_loops!(gradient_loop_u32, gradient_coords_loop_u32, trapezoid_loop_u3
 impl_typed_loops!(gradient_loop_u16, gradient_coords_loop_u16, trapezoid_loop_u16, u16);
 impl_typed_loops!(gradient_loop_u8, gradient_coords_loop_u8, trapezoid_loop_u8, u8);
 
+/// Second-order derivative estimate at the middle of three points `h1` and `h2` apart.
+fn central_difference(v: [f64; 3], h1: f64, h2: f64) -> f64 {
+    if h1 == h2 {
+        return (v[2] - v[0]) / (h1 + h2);
+    }
+    -h2 / (h1 * (h1 + h2)) * v[0] + (h2 - h1) / (h1 * h2) * v[1] + h1 / (h2 * (h1 + h2)) * v[2]
+}
+
 // ============================================================================
 // Gradient
 // ============================================================================
@@ -111,7 +120,7 @@ pub fn gradient(f: &RumpyArray, spacing: Option<f64>, axis: Option<usize>) -> Op
 
 /// Compute gradient along axis with non-uniform spacing.
 pub fn gradient_with_coords(f: &RumpyArray, coords: &RumpyArray, axis: usize) -> Option<RumpyArray> {
-    if axis >= f.ndim() || coords.ndim() != 1 || coords.size() != f.shape()[axis] {
+    if axis >= f.ndim() || coords.ndim() != 1 || coords.size() != f.shape()[axis] || coords.size() < 2 {
         return None;
     }
 
@@ -123,14 +132,15 @@ pub fn gradient_with_coords(f: &RumpyArray, coords: &RumpyArray, axis: usize) ->
     }
 
     let x = read_to_f64_vec(coords);
+    let out_bases = result.axis_offsets(axis);
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let (src_stride, out_stride) = (f.strides()[axis], result.strides()[axis]);
 
     macro_rules! run {
         ($loop_fn:ident, $src_ptr:expr) => {
-            for base in f.axis_offsets(axis) {
-                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(base), &x, n, src_stride, out_stride); }
+            for (base, out_base) in f.axis_offsets(axis).zip(out_bases) {
+                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(out_base), &x, n, src_stride, out_stride); }
             }
         };
     }
@@ -159,6 +169,7 @@ fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
         return result;
     }
 
+    let out_bases = result.axis_offsets(axis);
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let (src_stride, out_stride) = (f.strides()[axis], result.strides()[axis]);
@@ -166,8 +177,8 @@ fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
 
     macro_rules! run {
         ($loop_fn:ident, $src_ptr:expr) => {
-            for base in f.axis_offsets(axis) {
-                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(base), n, h, h2, src_stride, out_stride); }
+            for (base, out_base) in f.axis_offsets(axis).zip(out_bases) {
+                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(out_base), n, h, h2, src_stride, out_stride); }
             }
         };
     }
@@ -193,21 +204,22 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
     let n = shape[axis];
     let mut result = RumpyArray::zeros(shape.to_vec(), DType::float64());
 
+    let out_bases = result.axis_offsets(axis);
+    let out_stride = result.strides()[axis];
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let axis_stride = f.strides()[axis];
-    let out_stride = result.strides()[axis];
     let f_dtype = f.dtype();
     let f_ops = f_dtype.ops();
 
-    for base in f.axis_offsets(axis) {
+    for (base, out_base) in f.axis_offsets(axis).zip(out_bases) {
         let vals = read_axis_values(f.data_ptr(), base, axis_stride, n, &*f_ops);
         let mut grad = vec![0.0; n];
 
         if let Some(x) = x {
             grad[0] = (vals[1] - vals[0]) / (x[1] - x[0]);
             for i in 1..n - 1 {
-                grad[i] = (vals[i + 1] - vals[i - 1]) / (x[i + 1] - x[i - 1]);
+                grad[i] = central_difference([vals[i - 1], vals[i], vals[i + 1]], x[i] - x[i - 1], x[i + 1] - x[i]);
             }
             grad[n - 1] = (vals[n - 1] - vals[n - 2]) / (x[n - 1] - x[n - 2]);
         } else {
@@ -221,7 +233,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
         }
 
         for (i, &val) in grad.iter().enumerate() {
-            let idx = (base + i as isize * out_stride) / 8;
+            let idx = (out_base + i as isize * out_stride) / 8;
             unsafe { *result_ptr.offset(idx) = val; }
         }
     }
@@ -240,10 +252,7 @@ pub fn trapezoid(y: &RumpyArray, x: Option<&RumpyArray>, dx: f64, axis: isize) -
         return Some(RumpyArray::full(vec![1], 0.0, DType::float64()));
     }
 
-    let axis = if axis < 0 { (ndim as isize + axis) as usize } else { axis as usize };
-    if axis >= ndim {
-        return None;
-    }
+    let axis = usize::try_from(if axis < 0 { axis.checked_add(ndim as isize)? } else { axis }).ok().filter(|&ax| ax < ndim)?;
 
     let shape = y.shape();
     let n = shape[axis];
@@ -251,6 +260,9 @@ pub fn trapezoid(y: &RumpyArray, x: Option<&RumpyArray>, dx: f64, axis: isize) -
         .filter(|&(i, _)| i != axis).map(|(_, &d)| d).collect();
     let out_shape = if out_shape.is_empty() { vec![1] } else { out_shape };
 
+    if x.is_some_and(|xa| xa.ndim() != 1 || xa.size() != n) {
+        return None;
+    }
     if n <= 1 {
         return Some(RumpyArray::zeros(out_shape, DType::float64()));
     }
@@ -259,10 +271,7 @@ pub fn trapezoid(y: &RumpyArray, x: Option<&RumpyArray>, dx: f64, axis: isize) -
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
 
-    let x_vals: Option<Vec<f64>> = x.and_then(|xa| {
-        if xa.ndim() != 1 || xa.size() != n { return None; }
-        Some(read_to_f64_vec(xa))
-    });
+    let x_vals: Option<Vec<f64>> = x.map(read_to_f64_vec);
 
     let axis_stride = y.strides()[axis];
 
@@ -332,7 +341,7 @@ pub fn interp(
 
     let n = xp.size();
     if n == 0 {
-        return Some(RumpyArray::zeros(x.shape().to_vec(), DType::float64()));
+        return None;
     }
 
     let xp_vals = read_to_f64_vec(xp);
@@ -379,99 +388,37 @@ pub fn interp(
 #[inline]
 fn interp_single(xi: f64, xp: &[f64], fp: &[f64], left: f64, right: f64) -> f64 {
     let n = xp.len();
-    if xi <= xp[0] { return left; }
-    if xi >= xp[n - 1] { return right; }
+    if xi.is_nan() { return xi; }
+    if xi < xp[0] { return left; }
+    if xi > xp[n - 1] { return right; }
 
-    let (mut lo, mut hi) = (0, n - 1);
+    // Last sample point not beyond xi
+    let (mut lo, mut hi) = (0, n);
     while hi - lo > 1 {
         let mid = (lo + hi) / 2;
         if xp[mid] <= xi { lo = mid; } else { hi = mid; }
     }
+    if hi == n || xp[lo] == xi { return fp[lo]; }
 
-    let t = (xi - xp[lo]) / (xp[hi] - xp[lo]);
-    fp[lo] + t * (fp[hi] - fp[lo])
+    let slope = (fp[hi] - fp[lo]) / (xp[hi] - xp[lo]);
+    let from_left = slope * (xi - xp[lo]) + fp[lo];
+    if !from_left.is_nan() { return from_left; }
+    let from_right = slope * (xi - xp[hi]) + fp[hi];
+    if from_right.is_nan() && fp[lo] == fp[hi] { fp[lo] } else { from_right }
 }
 
 // ============================================================================
 // Correlate
 // ============================================================================
 
-/// Cross-correlation of two 1D arrays.
+/// Cross-correlation of two 1D arrays: convolution with `v` reversed (and conjugated).
 pub fn correlate(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArray> {
-    if a.ndim() != 1 || v.ndim() != 1 {
+    if a.ndim() != 1 || v.ndim() != 1 || a.size() == 0 || v.size() == 0 {
         return None;
     }
-
     let (n, m) = (a.size(), v.size());
-    if n == 0 || m == 0 {
-        let out_len = match mode {
-            "full" => (n + m).saturating_sub(1),
-            "same" => n,
-            "valid" => n.saturating_sub(m.saturating_sub(1)),
-            _ => return None,
-        };
-        return Some(RumpyArray::zeros(vec![out_len.max(0)], DType::float64()));
-    }
-
-    let a_vals = read_to_f64_vec(a);
-    let mut v_vals = read_to_f64_vec(v);
-    v_vals.reverse();  // correlate(a, v) = convolve(a, reverse(v))
-
-    let full_result = if n * m > 500_000 {
-        convolve_fft(&a_vals, &v_vals)
-    } else {
-        convolve_direct(&a_vals, &v_vals)
-    };
-
-    let (out_len, start) = match mode {
-        "full" => (n + m - 1, 0),
-        "same" => (n, (m - 1) / 2),
-        "valid" => (n.saturating_sub(m - 1).max(1), m - 1),
-        _ => return None,
-    };
-
-    let mut result = RumpyArray::zeros(vec![out_len], DType::float64());
-    let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-    let result_ptr = buffer.as_mut_ptr() as *mut f64;
-
-    for i in 0..out_len {
-        unsafe { *result_ptr.add(i) = full_result[start + i]; }
-    }
-
-    Some(result)
-}
-
-fn convolve_direct(a: &[f64], v: &[f64]) -> Vec<f64> {
-    let (n, m, out_len) = (a.len(), v.len(), a.len() + v.len() - 1);
-    let mut result = vec![0.0; out_len];
-
-    for k in 0..out_len {
-        result[k] = (k.saturating_sub(n - 1)..m.min(k + 1))
-            .map(|j| a[k - j] * v[j]).sum();
-    }
-    result
-}
-
-fn convolve_fft(a: &[f64], v: &[f64]) -> Vec<f64> {
-    use rustfft::{FftPlanner, num_complex::Complex64};
-
-    let out_len = a.len() + v.len() - 1;
-    let fft_len = out_len.next_power_of_two();
-
-    let mut a_c: Vec<_> = a.iter().map(|&x| Complex64::new(x, 0.0)).collect();
-    a_c.resize(fft_len, Complex64::new(0.0, 0.0));
-    let mut v_c: Vec<_> = v.iter().map(|&x| Complex64::new(x, 0.0)).collect();
-    v_c.resize(fft_len, Complex64::new(0.0, 0.0));
-
-    let mut planner = FftPlanner::new();
-    let fft = planner.plan_fft_forward(fft_len);
-    fft.process(&mut a_c);
-    fft.process(&mut v_c);
-
-    for i in 0..fft_len { a_c[i] *= v_c[i]; }
-
-    planner.plan_fft_inverse(fft_len).process(&mut a_c);
-    a_c[..out_len].iter().map(|c| c.re / fft_len as f64).collect()
+    let (start, len) = crate::array::convolve_window(n, m, mode, m > n)?;
+    Some(crate::array::convolve_range(a, v, true, start, len))
 }
 
 // ============================================================================
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 56c6fe7..56ef9a4 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -10,71 +10,79 @@ use std::sync::Arc;
 // Module-level functions
 // ============================================================================
 
-/// Compute histogram of 1D array.
-/// Returns (counts, bin_edges) tuple.
-pub fn histogram(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> (RumpyArray, RumpyArray) {
-    let values = arr.to_vec();
-
-    let (min_val, max_val) = range.unwrap_or_else(|| {
-        if values.is_empty() {
-            (0.0, 1.0)
-        } else {
-            let min_v = values.iter().cloned().fold(f64::INFINITY, f64::min);
-            let max_v = values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-            (min_v, max_v)
+/// Range covered by a histogram axis: the requested one, or the extremes of the data.
+/// A range of zero width is widened by half a unit on both sides.
+fn histogram_range(values: &[f64], range: Option<(f64, f64)>) -> Result<(f64, f64), &'static str> {
+    let (lo, hi) = match range {
+        Some((lo, hi)) => {
+            if lo > hi {
+                return Err("max must be larger than min in range parameter.");
+            }
+            (lo, hi)
         }
-    });
+        None if values.is_empty() => (0.0, 1.0),
+        None => values.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(lo, hi), &v| {
+            if v.is_nan() { (v, v) } else { (if v < lo { v } else { lo }, if v > hi { v } else { hi }) }
+        }),
+    };
+    if !(lo.is_finite() && hi.is_finite()) {
+        return Err("range of histogram is not finite");
+    }
+    Ok(if lo == hi { (lo - 0.5, hi + 0.5) } else { (lo, hi) })
+}
+
+/// Edges of `bins` equal-width bins over [lo, hi].
+fn uniform_edges(lo: f64, hi: f64, bins: usize) -> Vec<f64> {
+    let width = (hi - lo) / bins as f64;
+    (0..=bins).map(|i| if i == bins { hi } else { lo + i as f64 * width }).collect()
+}
 
-    // Create bin edges
-    let mut bin_edges = Vec::with_capacity(bins + 1);
-    let bin_width = (max_val - min_val) / bins as f64;
-    for i in 0..=bins {
-        bin_edges.push(min_val + i as f64 * bin_width);
+/// Bin of `value`: half-open bins, except the last one which includes its right edge.
+fn find_bin(edges: &[f64], value: f64) -> Option<usize> {
+    let bins = edges.len() - 1;
+    if !(value >= edges[0] && value <= edges[bins]) {
+        return None;
     }
+    let right = edges.partition_point(|&e| e <= value);
+    Some((right - 1).min(bins - 1))
+}
+
+/// Compute histogram of 1D array.
+/// Returns (counts, bin_edges) tuple.
+pub fn histogram(
+    arr: &RumpyArray,
+    bins: usize,
+    range: Option<(f64, f64)>,
+) -> Result<(RumpyArray, RumpyArray), &'static str> {
+    if bins == 0 {
+        return Err("`bins` must be positive");
+    }
+    let values = arr.to_vec();
+    let (lo, hi) = histogram_range(&values, range)?;
+    let edges = uniform_edges(lo, hi, bins);
 
-    // Count values in each bin
     let mut counts = vec![0i64; bins];
     for &val in &values {
-        if val >= min_val && val <= max_val {
-            let mut bin_idx = ((val - min_val) / bin_width) as usize;
-            // Handle edge case: value == max_val goes in last bin
-            if bin_idx >= bins {
-                bin_idx = bins - 1;
-            }
-            counts[bin_idx] += 1;
+        if let Some(bin) = find_bin(&edges, val) {
+            counts[bin] += 1;
         }
     }
 
-    let counts_data: Vec<f64> = counts.iter().map(|&c| c as f64).collect();
-    let counts_arr = RumpyArray::from_vec(counts_data, DType::int64());
-    let edges_arr = RumpyArray::from_vec(bin_edges, DType::float64());
-
-    (counts_arr, edges_arr)
+    Ok((RumpyArray::from_vec_i64(counts, DType::int64()), RumpyArray::from_vec(edges, DType::float64())))
 }
 
 /// Compute bin edges for histogram without computing the histogram itself.
 /// This is useful when you want to use consistent bins across multiple histograms.
-pub fn histogram_bin_edges(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> RumpyArray {
-    let values = arr.to_vec();
-
-    let (min_val, max_val) = range.unwrap_or_else(|| {
-        if values.is_empty() {
-            (0.0, 1.0)
-        } else {
-            let min_v = values.iter().cloned().fold(f64::INFINITY, f64::min);
-            let max_v = values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-            (min_v, max_v)
-        }
-    });
-
-    // Create bin edges
-    let mut bin_edges = Vec::with_capacity(bins + 1);
-    let bin_width = (max_val - min_val) / bins as f64;
-    for i in 0..=bins {
-        bin_edges.push(min_val + i as f64 * bin_width);
+pub fn histogram_bin_edges(
+    arr: &RumpyArray,
+    bins: usize,
+    range: Option<(f64, f64)>,
+) -> Result<RumpyArray, &'static str> {
+    if bins == 0 {
+        return Err("`bins` must be positive");
     }
-
-    RumpyArray::from_vec(bin_edges, DType::float64())
+    let (lo, hi) = histogram_range(&arr.to_vec(), range)?;
+    Ok(RumpyArray::from_vec(uniform_edges(lo, hi, bins), DType::float64()))
 }
 
 /// Compute 2D histogram of two data samples.
@@ -94,55 +102,20 @@ pub fn histogram2d(
         return Err("x and y must have the same length");
     }
 
-    // Determine ranges
-    let (x_min, x_max, y_min, y_max) = match range {
-        Some(r) => (r[0][0], r[0][1], r[1][0], r[1][1]),
-        None => {
-            if x_values.is_empty() {
-                (0.0, 1.0, 0.0, 1.0)
-            } else {
-                let x_min = x_values.iter().cloned().fold(f64::INFINITY, f64::min);
-                let x_max = x_values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-                let y_min = y_values.iter().cloned().fold(f64::INFINITY, f64::min);
-                let y_max = y_values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-                (x_min, x_max, y_min, y_max)
-            }
-        }
-    };
-
-    // Create bin edges
+    if bins_x == 0 || bins_y == 0 {
+        return Err("`bins` must be positive");
+    }
+    let (x_min, x_max) = histogram_range(&x_values, range.map(|r| (r[0][0], r[0][1])))?;
+    let (y_min, y_max) = histogram_range(&y_values, range.map(|r| (r[1][0], r[1][1])))?;
     let x_bin_width = (x_max - x_min) / bins_x as f64;
     let y_bin_width = (y_max - y_min) / bins_y as f64;
-
-    let mut x_edges = Vec::with_capacity(bins_x + 1);
-    for i in 0..=bins_x {
-        x_edges.push(x_min + i as f64 * x_bin_width);
-    }
-
-    let mut y_edges = Vec::with_capacity(bins_y + 1);
-    for i in 0..=bins_y {
-        y_edges.push(y_min + i as f64 * y_bin_width);
-    }
+    let x_edges = uniform_edges(x_min, x_max, bins_x);
+    let y_edges = uniform_edges(y_min, y_max, bins_y);
 
     // Count values in each 2D bin
     let mut counts = vec![0.0f64; bins_x * bins_y];
-
-    for i in 0..x_values.len() {
-        let xv = x_values[i];
-        let yv = y_values[i];
-
-        if xv >= x_min && xv <= x_max && yv >= y_min && yv <= y_max {
-            let mut x_bin = ((xv - x_min) / x_bin_width) as usize;
-            let mut y_bin = ((yv - y_min) / y_bin_width) as usize;
-
-            // Handle edge case: value == max goes in last bin
-            if x_bin >= bins_x {
-                x_bin = bins_x - 1;
-            }
-            if y_bin >= bins_y {
-                y_bin = bins_y - 1;
-            }
-
+    for (&xv, &yv) in x_values.iter().zip(&y_values) {
+        if let (Some(x_bin), Some(y_bin)) = (find_bin(&x_edges, xv), find_bin(&y_edges, yv)) {
             counts[x_bin * bins_y + y_bin] += 1.0;
         }
     }
@@ -179,33 +152,6 @@ pub fn histogramdd(
 ) -> Result<(RumpyArray, Vec<RumpyArray>), &'static str> {
     let shape = sample.shape();
 
-    // Handle empty sample
-    if shape[0] == 0 {
-        // For empty sample, still create properly shaped output
-        let ndim = if shape.len() == 2 { shape[1] } else { 1 };
-        let bins: Vec<usize> = if bins_per_dim.len() == 1 {
-            vec![bins_per_dim[0]; ndim]
-        } else if bins_per_dim.len() == ndim {
-            bins_per_dim.to_vec()
-        } else {
-            return Err("bins must have one element or match sample dimensions");
-        };
-
-        let h_arr = RumpyArray::zeros(bins.clone(), DType::float64());
-        let edges: Vec<RumpyArray> = bins.iter().enumerate().map(|(d, &b)| {
-            let (lo, hi) = if let Some(r) = range {
-                (r[d][0], r[d][1])
-            } else {
-                (0.0, 1.0)
-            };
-            let width = (hi - lo) / b as f64;
-            let edge_vals: Vec<f64> = (0..=b).map(|i| lo + i as f64 * width).collect();
-            RumpyArray::from_vec(edge_vals, DType::float64())
-        }).collect();
-
-        return Ok((h_arr, edges));
-    }
-
     // Determine number of dimensions from sample
     let ndim = if shape.len() == 2 { shape[1] } else { 1 };
     let nsamples = shape[0];
@@ -234,66 +180,38 @@ pub fn histogramdd(
             .collect()
     };
 
-    // Compute ranges for each dimension
-    let ranges: Vec<(f64, f64)> = (0..ndim)
-        .map(|d| {
-            if let Some(r) = range {
-                (r[d][0], r[d][1])
-            } else {
-                let min_v = dim_data[d].iter().cloned().fold(f64::INFINITY, f64::min);
-                let max_v = dim_data[d].iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-                (min_v, max_v)
-            }
-        })
-        .collect();
-
-    // Compute bin widths
-    let bin_widths: Vec<f64> = (0..ndim)
-        .map(|d| (ranges[d].1 - ranges[d].0) / bins[d] as f64)
-        .collect();
-
-    // Create edges for each dimension
-    let edges: Vec<RumpyArray> = (0..ndim)
-        .map(|d| {
-            let edge_vals: Vec<f64> = (0..=bins[d])
-                .map(|i| ranges[d].0 + i as f64 * bin_widths[d])
-                .collect();
-            RumpyArray::from_vec(edge_vals, DType::float64())
-        })
-        .collect();
-
-    // Compute total number of bins and create histogram array
+    if bins.contains(&0) {
+        return Err("`bins` must be positive");
+    }
+    if range.is_some_and(|r| r.len() != ndim) {
+        return Err("range must have one entry per dimension");
+    }
+
+    // Range, width and edges of each dimension
+    let mut bin_widths = Vec::with_capacity(ndim);
+    let mut dim_edges = Vec::with_capacity(ndim);
+    for d in 0..ndim {
+        let (lo, hi) = histogram_range(&dim_data[d], range.map(|r| (r[d][0], r[d][1])))?;
+        bin_widths.push((hi - lo) / bins[d] as f64);
+        dim_edges.push(uniform_edges(lo, hi, bins[d]));
+    }
+
+    // Count samples, bins in row-major order
     let total_bins: usize = bins.iter().product();
     let mut counts = vec![0.0f64; total_bins];
-
-    // Count samples in bins
     'sample: for i in 0..nsamples {
-        // Find bin indices for this sample
-        let mut bin_indices = Vec::with_capacity(ndim);
+        let mut flat_idx = 0;
         for d in 0..ndim {
-            let val = dim_data[d][i];
-            let (lo, hi) = ranges[d];
-            if val < lo || val > hi {
-                continue 'sample;
+            match find_bin(&dim_edges[d], dim_data[d][i]) {
+                Some(bin) => flat_idx = flat_idx * bins[d] + bin,
+                None => continue 'sample,
             }
-            let mut bin = ((val - lo) / bin_widths[d]) as usize;
-            if bin >= bins[d] {
-                bin = bins[d] - 1;
-            }
-            bin_indices.push(bin);
-        }
-
-        // Convert N-D bin indices to flat index (row-major order)
-        let mut flat_idx = 0;
-        let mut stride = 1;
-        for d in (0..ndim).rev() {
-            flat_idx += bin_indices[d] * stride;
-            stride *= bins[d];
         }
-
         counts[flat_idx] += 1.0;
     }
 
+    let edges: Vec<RumpyArray> = dim_edges.into_iter().map(|e| RumpyArray::from_vec(e, DType::float64())).collect();
+
     // Apply density normalization if requested
     if density && nsamples > 0 {
         let bin_volume: f64 = bin_widths.iter().product();
diff --git a/src/python/misc.rs b/src/python/misc.rs
index bf12d27..775c8a0 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -948,138 +948,43 @@ pub fn ediff1d(
     to_end: Option<&Bound<'_, pyo3::PyAny>>,
     to_begin: Option<&Bound<'_, pyo3::PyAny>>,
 ) -> PyResult<PyRumpyArray> {
-    let inner = &ary.inner;
-    let size = inner.size();
-    let dtype = inner.dtype();
-
-    // Get begin/end array references or scalars
-    let begin_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_begin.and_then(|v| v.extract().ok());
-    let end_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_end.and_then(|v| v.extract().ok());
-    let begin_scalar: Option<f64> = if begin_arr.is_none() { to_begin.and_then(|v| v.extract().ok()) } else { None };
-    let end_scalar: Option<f64> = if end_arr.is_none() { to_end.and_then(|v| v.extract().ok()) } else { None };
-
-    let begin_len = begin_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if begin_scalar.is_some() { 1 } else { 0 });
-    let end_len = end_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if end_scalar.is_some() { 1 } else { 0 });
-
-    let diff_len = if size > 0 { size - 1 } else { 0 };
-    let out_len = begin_len + diff_len + end_len;
-
-    let mut result = RumpyArray::zeros(vec![out_len], dtype.clone());
-    if out_len == 0 {
-        return Ok(PyRumpyArray::new(result));
-    }
-
-    let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-
-    macro_rules! ediff1d_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            let mut idx = 0usize;
-
-            // Write begin values
-            if let Some(ref arr) = begin_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..begin_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = begin_scalar {
-                unsafe { *dst.add(idx) = scalar as $ty; }
-                idx += 1;
-            }
+    let dtype = ary.inner.dtype();
+    let flat = ary.inner.reshape(vec![ary.inner.size()]).unwrap_or_else(|| ary.inner.copy());
+    let as_part = |value: &Bound<'_, pyo3::PyAny>| -> PyResult<RumpyArray> {
+        let is_scalar = value.extract::<PyRef<'_, PyRumpyArray>>().is_err() && value.extract::<f64>().is_ok();
+        let arr = if is_scalar {
+            super::creation::array_impl(value.py(), pyo3::types::PyList::new(value.py(), [value])?.as_any(), None)?.inner
+        } else {
+            super::creation::array_impl(value.py(), value, None)?.inner
+        };
+        Ok(arr.reshape(vec![arr.size()]).unwrap_or(arr).astype(dtype.clone()))
+    };
 
-            // Write differences
-            if size > 1 {
-                let src = inner.data_ptr() as *const $ty;
-                if inner.is_c_contiguous() {
-                    for i in 1..size {
-                        unsafe { *dst.add(idx) = *src.add(i) - *src.add(i - 1); }
-                        idx += 1;
-                    }
-                } else {
-                    let offsets: Vec<isize> = inner.iter_offsets().collect();
-                    for i in 1..size {
-                        let curr = unsafe { *(inner.data_ptr().offset(offsets[i]) as *const $ty) };
-                        let prev = unsafe { *(inner.data_ptr().offset(offsets[i - 1]) as *const $ty) };
-                        unsafe { *dst.add(idx) = curr - prev; }
-                        idx += 1;
-                    }
-                }
-            }
+    let n = flat.size();
+    let slice = |start: usize, len: usize| flat.view_with(
+        start as isize * flat.strides()[0],
+        vec![len],
+        flat.strides().to_vec(),
+    );
+    let diff = if n < 2 {
+        RumpyArray::zeros(vec![0], dtype.clone())
+    } else {
+        slice(1, n - 1)
+            .binary_op(&slice(0, n - 1), crate::ops::BinaryOp::Sub)
+            .map_err(|_| pyo3::exceptions::PyTypeError::new_err("dtype does not support subtraction"))?
+    };
 
-            // Write end values
-            if let Some(ref arr) = end_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..end_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = end_scalar {
-                unsafe { *dst.add(idx) = scalar as $ty; }
-            }
-        }};
+    let mut parts = Vec::with_capacity(3);
+    if let Some(value) = to_begin {
+        parts.push(as_part(value)?);
     }
-
-    match dtype.kind() {
-        DTypeKind::Float32 => ediff1d_typed!(f32),
-        DTypeKind::Float64 => ediff1d_typed!(f64),
-        DTypeKind::Int32 => ediff1d_typed!(i32),
-        DTypeKind::Int64 => ediff1d_typed!(i64),
-        DTypeKind::Uint32 => ediff1d_typed!(u32),
-        DTypeKind::Uint64 => ediff1d_typed!(u64),
-        DTypeKind::Int8 => ediff1d_typed!(i8),
-        DTypeKind::Int16 => ediff1d_typed!(i16),
-        DTypeKind::Uint8 => ediff1d_typed!(u8),
-        DTypeKind::Uint16 => ediff1d_typed!(u16),
-        _ => {
-            // Complex types fallback
-            let ops = dtype.ops();
-            let mut idx = 0usize;
-
-            // Write begin values
-            if let Some(ref arr) = begin_arr {
-                let arr_dtype = arr.inner.dtype();
-                let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..begin_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, val); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = begin_scalar {
-                unsafe { ops.write_f64(dst_ptr, idx, scalar); }
-                idx += 1;
-            }
-
-            // Write differences
-            if size > 1 {
-                let offsets: Vec<isize> = inner.iter_offsets().collect();
-                for i in 1..size {
-                    let curr = unsafe { ops.read_f64(inner.data_ptr(), offsets[i]) }.unwrap_or(0.0);
-                    let prev = unsafe { ops.read_f64(inner.data_ptr(), offsets[i - 1]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, curr - prev); }
-                    idx += 1;
-                }
-            }
-
-            // Write end values
-            if let Some(ref arr) = end_arr {
-                let arr_dtype = arr.inner.dtype();
-                let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..end_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, val); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = end_scalar {
-                unsafe { ops.write_f64(dst_ptr, idx, scalar); }
-            }
-        }
+    parts.push(diff);
+    if let Some(value) = to_end {
+        parts.push(as_part(value)?);
     }
-
-    Ok(PyRumpyArray::new(result))
+    crate::array::concatenate(&parts, 0)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("cannot join differences"))
 }
 
 // ============================================================================
diff --git a/src/python/numerical.rs b/src/python/numerical.rs
index a953bbb..79a83d3 100644
--- a/src/python/numerical.rs
+++ b/src/python/numerical.rs
@@ -64,13 +64,9 @@ pub fn gradient(
     };
 
     // Normalize axis
-    let axis_usize = axis.map(|a| {
-        if a < 0 {
-            (f.inner.ndim() as isize + a) as usize
-        } else {
-            a as usize
-        }
-    });
+    let axis_usize = axis
+        .map(|a| super::shape::normalize_axis(a, f.inner.ndim()))
+        .transpose()?;
 
     // Use coordinate-based gradient if coords provided
     if let Some(ref coord_arr) = coords {
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 9bf305e..1e280a6 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -518,29 +518,15 @@ impl PyRumpyArray {
 
     /// Cumulative sum along axis (or flattened if axis is None).
     #[pyo3(signature = (axis=None))]
-    fn cumsum(&self, axis: Option<usize>) -> PyResult<Self> {
-        if let Some(ax) = axis {
-            if ax >= self.inner.ndim() {
-                return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                    "axis {} is out of bounds for array of dimension {}",
-                    ax, self.inner.ndim()
-                )));
-            }
-        }
+    fn cumsum(&self, axis: Option<isize>) -> PyResult<Self> {
+        let axis = axis.map(|ax| crate::python::shape::normalize_axis(ax, self.inner.ndim())).transpose()?;
         Ok(Self::new(self.inner.cumsum(axis)))
     }
 
     /// Cumulative product along axis (or flattened if axis is None).
     #[pyo3(signature = (axis=None))]
-    fn cumprod(&self, axis: Option<usize>) -> PyResult<Self> {
-        if let Some(ax) = axis {
-            if ax >= self.inner.ndim() {
-                return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                    "axis {} is out of bounds for array of dimension {}",
-                    ax, self.inner.ndim()
-                )));
-            }
-        }
+    fn cumprod(&self, axis: Option<isize>) -> PyResult<Self> {
+        let axis = axis.map(|ax| crate::python::shape::normalize_axis(ax, self.inner.ndim())).transpose()?;
         Ok(Self::new(self.inner.cumprod(axis)))
     }
 
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 611d95f..11bc59e 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -438,7 +438,8 @@ pub fn histogram(
     bins: usize,
     range: Option<(f64, f64)>,
 ) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
-    let (counts, edges) = crate::ops::histogram(&x.inner, bins, range);
+    let (counts, edges) = crate::ops::histogram(&x.inner, bins, range)
+        .map_err(pyo3::exceptions::PyValueError::new_err)?;
     Ok((PyRumpyArray::new(counts), PyRumpyArray::new(edges)))
 }
 
@@ -451,7 +452,9 @@ pub fn histogram_bin_edges(
     range: Option<(f64, f64)>,
 ) -> PyResult<PyRumpyArray> {
     let Some(bins) = bins else {
-        return Ok(PyRumpyArray::new(crate::ops::histogram_bin_edges(&a.inner, 10, range)));
+        return crate::ops::histogram_bin_edges(&a.inner, 10, range)
+            .map(PyRumpyArray::new)
+            .map_err(pyo3::exceptions::PyValueError::new_err);
     };
 
     // If bins is an array/list, return it directly as edges
@@ -467,7 +470,9 @@ pub fn histogram_bin_edges(
         pyo3::exceptions::PyTypeError::new_err("bins must be an integer or array-like")
     })?;
 
-    Ok(PyRumpyArray::new(crate::ops::histogram_bin_edges(&a.inner, nbins, range)))
+    crate::ops::histogram_bin_edges(&a.inner, nbins, range)
+        .map(PyRumpyArray::new)
+        .map_err(pyo3::exceptions::PyValueError::new_err)
 }
 
 /// Compute 2D histogram.
@@ -592,6 +597,10 @@ pub fn corrcoef(x: &PyRumpyArray) -> PyRumpyArray {
 #[pyfunction]
 #[pyo3(signature = (x, minlength=0))]
 pub fn bincount(x: &PyRumpyArray, minlength: usize) -> PyResult<PyRumpyArray> {
+    let dtype = x.inner.dtype();
+    if !dtype.is_integer() && dtype.kind() != crate::array::DTypeKind::Bool && x.inner.size() > 0 {
+        return Err(pyo3::exceptions::PyTypeError::new_err("bincount requires integers"));
+    }
     crate::array::bincount(&x.inner, minlength)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("bincount requires 1D non-negative integer array"))
-- 
2.43.0


From afde814582349bd154ac131cf7e0f9027118afbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:01 +0000
Subject: [PATCH 16/30] fix: sorting, searching and set operations in the
 element dtype with NaN last and negative axes

---
 src/array/dtype/complex128.rs    |   8 +-
 src/array/dtype/complex64.rs     |   8 +-
 src/array/dtype/datetime64.rs    |   8 +-
 src/array/dtype/float16.rs       |   3 +-
 src/array/dtype/macros.rs        |   3 +-
 src/ops/array_methods/sorting.rs | 271 ++++++++++++++-----------------
 src/ops/indexing.rs              |  89 +++-------
 src/ops/set_ops.rs               | 192 ++++++----------------
 src/python/indexing.rs           |  57 +++++--
 src/python/pyarray/mod.rs        | 180 ++++----------------
 10 files changed, 277 insertions(+), 542 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index 8901a46..74b22b6 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -390,12 +390,12 @@ impl DTypeOps for Complex128Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Lexicographic (real, imaginary), values with NaN parts last
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        (ar.is_nan(), ai.is_nan()).cmp(&(br.is_nan(), bi.is_nan()))
+            .then(ar.partial_cmp(&br).unwrap_or(Ordering::Equal))
+            .then(ai.partial_cmp(&bi).unwrap_or(Ordering::Equal))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 19e06f9..2a6e6b5 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -387,12 +387,12 @@ impl DTypeOps for Complex64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Lexicographic (real, imaginary), values with NaN parts last
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        (ar.is_nan(), ai.is_nan()).cmp(&(br.is_nan(), bi.is_nan()))
+            .then(ar.partial_cmp(&br).unwrap_or(Ordering::Equal))
+            .then(ai.partial_cmp(&bi).unwrap_or(Ordering::Equal))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index 186db18..a100756 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -232,7 +232,9 @@ impl DTypeOps for DateTime64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        Self::read(a, a_offset).cmp(&Self::read(b, b_offset))
+        // NaT sorts after every value
+        let (av, bv) = (Self::read(a, a_offset), Self::read(b, b_offset));
+        (av == NAT).cmp(&(bv == NAT)).then(av.cmp(&bv))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
@@ -406,7 +408,9 @@ impl DTypeOps for TimeDelta64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        Self::read(a, a_offset).cmp(&Self::read(b, b_offset))
+        // NaT sorts after every value
+        let (av, bv) = (Self::read(a, a_offset), Self::read(b, b_offset));
+        (av == NAT).cmp(&(bv == NAT)).then(av.cmp(&bv))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 1abe315..5cd1ec1 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -151,7 +151,8 @@ impl DTypeOps for Float16Ops {
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
         let av = Self::read(a, a_offset);
         let bv = Self::read(b, b_offset);
-        av.partial_cmp(&bv).unwrap_or(Ordering::Equal)
+        // NaN sorts after every number
+        av.partial_cmp(&bv).unwrap_or_else(|| av.is_nan().cmp(&bv.is_nan()))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 2a9615d..97c55a3 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -155,7 +155,8 @@ macro_rules! impl_float_dtype {
             unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> std::cmp::Ordering {
                 let av = Self::read(a, a_offset);
                 let bv = Self::read(b, b_offset);
-                av.partial_cmp(&bv).unwrap_or(std::cmp::Ordering::Equal)
+                // NaN sorts after every number
+                av.partial_cmp(&bv).unwrap_or_else(|| av.is_nan().cmp(&bv.is_nan()))
             }
 
             unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/ops/array_methods/sorting.rs b/src/ops/array_methods/sorting.rs
index 3239991..662794c 100644
--- a/src/ops/array_methods/sorting.rs
+++ b/src/ops/array_methods/sorting.rs
@@ -2,6 +2,7 @@
 
 use crate::array::{increment_indices, DType, RumpyArray};
 use crate::array::dtype::DTypeKind;
+use std::cmp::Ordering;
 use std::sync::Arc;
 
 impl RumpyArray {
@@ -30,17 +31,57 @@ impl RumpyArray {
         values
     }
 
+    /// Byte offsets of all elements, in row-major order.
+    fn offsets(&self) -> Vec<isize> {
+        self.iter_offsets().collect()
+    }
+
+    /// Copy the elements at the given byte offsets into a new 1-D array.
+    pub(crate) fn gather_offsets(&self, offsets: &[isize]) -> RumpyArray {
+        let dtype = self.dtype();
+        let itemsize = dtype.itemsize();
+        let src = self.data_ptr();
+        let mut result = RumpyArray::zeros(vec![offsets.len()], dtype);
+        let dst = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+        for (i, &offset) in offsets.iter().enumerate() {
+            unsafe { std::ptr::copy_nonoverlapping(src.offset(offset), dst.add(i * itemsize), itemsize); }
+        }
+        result
+    }
+
+    /// Byte offsets of the sorted, distinct elements; equal elements keep the first one.
+    /// NaN and NaT are merged only if `equal_nan`.
+    pub(crate) fn sorted_unique_offsets(&self, equal_nan: bool) -> Vec<isize> {
+        let groups = self.equal_groups(equal_nan);
+        let offsets = self.offsets();
+        groups.iter().map(|group| offsets[group[0]]).collect()
+    }
+
+    /// Positions (row-major) of equal elements, grouped and ordered by value.
+    fn equal_groups(&self, equal_nan: bool) -> Vec<Vec<usize>> {
+        let offsets = self.offsets();
+        let ptr = self.data_ptr();
+        let dtype = self.dtype();
+        let ops = dtype.ops();
+        let mut groups: Vec<Vec<usize>> = Vec::new();
+        for pos in sorted_order(self, &offsets) {
+            match groups.last_mut() {
+                Some(group) if unsafe { ops.compare_elements(ptr, offsets[group[0]], ptr, offsets[pos]) }.is_eq()
+                    && (equal_nan || !is_missing(self, offsets[pos])) => group.push(pos),
+                _ => groups.push(vec![pos]),
+            }
+        }
+        groups
+    }
+
     /// Return unique sorted values.
     pub fn unique(&self) -> RumpyArray {
-        let mut values = self.to_vec();
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-        values.dedup_by(|a, b| (*a - *b).abs() < f64::EPSILON);
-        RumpyArray::from_vec(values, self.dtype())
+        self.gather_offsets(&self.sorted_unique_offsets(true))
     }
 
-    /// Return unique sorted values (same as unique, Array API compatible).
+    /// Return unique sorted values (Array API compatible: every NaN counts as distinct).
     pub fn unique_values(&self) -> RumpyArray {
-        self.unique()
+        self.gather_offsets(&self.sorted_unique_offsets(false))
     }
 
     /// Return unique sorted values with counts.
@@ -65,66 +106,25 @@ impl RumpyArray {
     /// - inverse_indices: index into values that reconstructs original (same shape as input)
     /// - counts: count of each unique value
     pub fn unique_all(&self) -> (RumpyArray, RumpyArray, RumpyArray, RumpyArray) {
-        let values = self.to_vec();
-        let n = values.len();
-        if n == 0 {
-            return (
-                RumpyArray::from_vec(Vec::<f64>::new(), self.dtype()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-            );
-        }
-
-        // Create indices and sort by value
-        let mut indexed: Vec<(f64, usize)> = values.iter().copied().enumerate().map(|(i, v)| (v, i)).collect();
-        indexed.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
-
-        // Collect unique values with all metadata
-        let mut unique_vals = Vec::new();
-        let mut first_indices = Vec::new();
-        let mut counts = Vec::new();
-        let mut inverse = vec![0i64; n];
-
-        let mut prev = indexed[0].0;
-        let mut unique_idx = 0i64;
-        let mut first_idx = indexed[0].1;
-        let mut count = 1i64;
-        inverse[indexed[0].1] = unique_idx;
-
-        for &(val, orig_idx) in &indexed[1..] {
-            if (val - prev).abs() < f64::EPSILON {
-                count += 1;
-                // Update first_idx if this occurrence is earlier
-                if orig_idx < first_idx {
-                    first_idx = orig_idx;
-                }
-                inverse[orig_idx] = unique_idx;
-            } else {
-                unique_vals.push(prev);
-                first_indices.push(first_idx as i64);
-                counts.push(count);
-
-                prev = val;
-                first_idx = orig_idx;
-                count = 1;
-                unique_idx += 1;
-                inverse[orig_idx] = unique_idx;
+        let offsets = self.offsets();
+        let groups = self.equal_groups(false);
+        let mut inverse = vec![0i64; offsets.len()];
+        for (value, group) in groups.iter().enumerate() {
+            for &pos in group {
+                inverse[pos] = value as i64;
             }
         }
-        unique_vals.push(prev);
-        first_indices.push(first_idx as i64);
-        counts.push(count);
+        let firsts: Vec<isize> = groups.iter().map(|group| offsets[group[0]]).collect();
 
         // Reshape inverse to match original array shape
         let inverse_arr = RumpyArray::from_vec_i64(inverse, DType::int64());
         let inverse_shaped = inverse_arr.reshape(self.shape().to_vec()).unwrap_or(inverse_arr);
 
         (
-            RumpyArray::from_vec(unique_vals, self.dtype()),
-            RumpyArray::from_vec_i64(first_indices, DType::int64()),
+            self.gather_offsets(&firsts),
+            RumpyArray::from_vec_i64(groups.iter().map(|group| group[0] as i64).collect(), DType::int64()),
             inverse_shaped,
-            RumpyArray::from_vec_i64(counts, DType::int64()),
+            RumpyArray::from_vec_i64(groups.iter().map(|group| group.len() as i64).collect(), DType::int64()),
         )
     }
 
@@ -140,56 +140,24 @@ impl RumpyArray {
         };
         assert!(axis < self.ndim(), "axis out of bounds");
 
-        let shape = self.shape();
-        let axis_len = shape[axis];
-        let dtype = self.dtype().clone();
-
         let mut result = self.copy();
-        if axis_len <= 1 {
+        if self.size() == 0 {
             return result;
         }
-
-        // For each position along other axes, sort the elements along the target axis
-        let mut out_shape: Vec<usize> = shape[..axis].to_vec();
-        out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
-        let out_size: usize = out_shape.iter().product();
-
-        let ops = dtype.ops();
-        let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr();
-
-        let mut out_indices = vec![0usize; out_shape.len()];
-        for _ in 0..out_size {
-            // Collect values along axis
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
-            for k in 0..axis_len {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
+        let itemsize = self.dtype().itemsize();
+        let src = self.data_ptr();
+        let out_bases = result.axis_offsets(axis);
+        let out_stride = result.strides()[axis];
+        let dst = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+
+        // Sort each lane along the axis
+        for (base, out_base) in self.axis_offsets(axis).zip(out_bases) {
+            let lane = lane_offsets(self, base, axis);
+            for (k, pos) in sorted_order(self, &lane).into_iter().enumerate() {
+                unsafe {
+                    std::ptr::copy_nonoverlapping(src.offset(lane[pos]), dst.offset(out_base + k as isize * out_stride), itemsize);
                 }
-                values.push((self.get_element(&in_indices), k));
             }
-
-            // Sort by value
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
-
-            // Write sorted values back
-            for (k, (val, _)) in values.iter().enumerate() {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                let byte_offset = result.byte_offset_for(&in_indices);
-                let linear_idx = byte_offset as usize / dtype.itemsize();
-                unsafe { ops.write_f64(result_ptr, linear_idx, *val); }
-            }
-
-            increment_indices(&mut out_indices, &out_shape);
         }
         result
     }
@@ -206,54 +174,19 @@ impl RumpyArray {
         };
         assert!(axis < self.ndim(), "axis out of bounds");
 
-        let shape = self.shape();
-        let axis_len = shape[axis];
-
-        let mut result = RumpyArray::zeros(shape.to_vec(), DType::int64());
-        if axis_len <= 1 {
-            // For single element, index is 0
+        let mut result = RumpyArray::zeros(self.shape().to_vec(), DType::int64());
+        if self.size() == 0 {
             return result;
         }
+        let out_bases = result.axis_offsets(axis);
+        let out_stride = result.strides()[axis];
+        let dst = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
 
-        let mut out_shape: Vec<usize> = shape[..axis].to_vec();
-        out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
-        let out_size: usize = out_shape.iter().product();
-
-        let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr() as *mut i64;
-
-        let mut out_indices = vec![0usize; out_shape.len()];
-        for _ in 0..out_size {
-            // Collect values along axis with their indices
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
-            for k in 0..axis_len {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                values.push((self.get_element(&in_indices), k));
-            }
-
-            // Sort by value, keeping track of original indices
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
-
-            // Write sorted indices back
-            for (k, (_, orig_idx)) in values.iter().enumerate() {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                let byte_offset = result.byte_offset_for(&in_indices);
-                let linear_idx = byte_offset as usize / 8; // i64 is 8 bytes
-                unsafe { *result_ptr.add(linear_idx) = *orig_idx as i64; }
+        for (base, out_base) in self.axis_offsets(axis).zip(out_bases) {
+            let lane = lane_offsets(self, base, axis);
+            for (k, pos) in sorted_order(self, &lane).into_iter().enumerate() {
+                unsafe { *(dst.offset(out_base + k as isize * out_stride) as *mut i64) = pos as i64; }
             }
-
-            increment_indices(&mut out_indices, &out_shape);
         }
         result
     }
@@ -312,6 +245,40 @@ impl RumpyArray {
     }
 }
 
+/// Order of two values with NaN after everything else.
+fn nan_last<T: PartialOrd>(a: &T, b: &T) -> Ordering {
+    #[allow(clippy::eq_op)]
+    a.partial_cmp(b).unwrap_or_else(|| (a != a).cmp(&(b != b)))
+}
+
+/// Byte offsets of the elements of the lane along `axis` starting at `base`.
+fn lane_offsets(arr: &RumpyArray, base: isize, axis: usize) -> Vec<isize> {
+    (0..arr.shape()[axis] as isize).map(|k| base + k * arr.strides()[axis]).collect()
+}
+
+/// Stable ascending order of the elements at the given byte offsets, as positions into `offsets`.
+fn sorted_order(arr: &RumpyArray, offsets: &[isize]) -> Vec<usize> {
+    let ptr = arr.data_ptr();
+    let dtype = arr.dtype();
+    let ops = dtype.ops();
+    let mut order: Vec<usize> = (0..offsets.len()).collect();
+    order.sort_by(|&a, &b| unsafe { ops.compare_elements(ptr, offsets[a], ptr, offsets[b]) });
+    order
+}
+
+/// Is the element at `offset` a NaN or NaT (not equal to itself)?
+pub(crate) fn is_missing(arr: &RumpyArray, offset: isize) -> bool {
+    let dtype = arr.dtype();
+    let ops = dtype.ops();
+    let ptr = arr.data_ptr();
+    match dtype.kind() {
+        DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64 => unsafe { ops.read_f64(ptr, offset) }.is_some_and(f64::is_nan),
+        DTypeKind::Complex64 | DTypeKind::Complex128 => unsafe { ops.read_complex(ptr, offset) }.is_some_and(|(re, im)| re.is_nan() || im.is_nan()),
+        DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => unsafe { ops.read_i64(ptr, offset) }.is_some_and(|v| v == i64::MIN),
+        _ => false,
+    }
+}
+
 /// Partition array in-place along an axis.
 /// Uses type-specific operations for best performance.
 fn partition_inplace(arr: &mut RumpyArray, kth: usize, axis: usize) {
@@ -332,11 +299,11 @@ fn partition_inplace(arr: &mut RumpyArray, kth: usize, axis: usize) {
         match dtype.kind() {
             DTypeKind::Float64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f64, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, nan_last);
             }
             DTypeKind::Float32 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f32, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, nan_last);
             }
             DTypeKind::Int64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut i64, axis_len) };
@@ -486,7 +453,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    nan_last(&va, &vb)
                 });
             }
             DTypeKind::Float32 => {
@@ -494,7 +461,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    nan_last(&va, &vb)
                 });
             }
             DTypeKind::Int64 => {
@@ -666,11 +633,11 @@ pub fn lexsort(keys: &[&RumpyArray]) -> Option<RumpyArray> {
                 match info.dtype.kind() {
                     DTypeKind::Float64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f64, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        nan_last(&slice[a], &slice[b])
                     }
                     DTypeKind::Float32 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f32, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        nan_last(&slice[a], &slice[b])
                     }
                     DTypeKind::Int64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const i64, n) };
diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index dc9e81a..ca06864 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -342,7 +342,7 @@ fn compress_axis(condition: &[bool], arr: &RumpyArray, axis: usize) -> Option<Ru
 /// Find indices where elements should be inserted to maintain order.
 /// Optimized to binary search directly in memory without Vec allocation.
 pub fn searchsorted(a: &RumpyArray, v: &RumpyArray, side: &str) -> Option<RumpyArray> {
-    if a.ndim() != 1 {
+    if a.ndim() != 1 || !matches!(side, "left" | "right") {
         return None;
     }
 
@@ -873,74 +873,31 @@ pub fn triu_indices(n: usize, k: i64, m: usize) -> (RumpyArray, RumpyArray) {
 ///
 /// Uses binary search to find insertion points. If bins are increasing,
 /// `digitize(x, bins, right=False)` is equivalent to `searchsorted(bins, x, side='right')`.
-pub fn digitize(x: &RumpyArray, bins: &RumpyArray, right: bool) -> RumpyArray {
-    let x_size = x.size();
-    let bins_size = bins.size();
-
-    if x_size == 0 {
-        return RumpyArray::zeros(x.shape().to_vec(), DType::int64());
+///
+/// Returns None if the bins are not 1-D and monotonic.
+pub fn digitize(x: &RumpyArray, bins: &RumpyArray, right: bool) -> Option<RumpyArray> {
+    if bins.ndim() != 1 {
+        return None;
     }
+    let n = bins.size();
+    let (ptr, dtype, stride) = (bins.data_ptr(), bins.dtype(), bins.strides()[0]);
+    let ops = dtype.ops();
+    let step = |i: usize| unsafe { ops.compare_elements(ptr, (i as isize - 1) * stride, ptr, i as isize * stride) };
+    let side = if right { "left" } else { "right" };
 
-    let mut result = RumpyArray::zeros(x.shape().to_vec(), DType::int64());
-    let result_buffer = result.buffer_mut();
-    let buffer = Arc::get_mut(result_buffer).expect("buffer must be unique");
-    let result_ptr = buffer.as_mut_ptr() as *mut i64;
-
-    // Check if bins are monotonically decreasing
-    let bins_dtype = bins.dtype();
-    let bins_ops = bins_dtype.ops();
-    let bins_ptr = bins.data_ptr();
-
-    let is_decreasing = if bins_size >= 2 {
-        let first_offset = bins.byte_offset_for(&[0]);
-        let last_offset = bins.byte_offset_for(&[bins_size - 1]);
-        let first = unsafe { bins_ops.read_f64(bins_ptr, first_offset) }.unwrap_or(0.0);
-        let last = unsafe { bins_ops.read_f64(bins_ptr, last_offset) }.unwrap_or(0.0);
-        first > last
-    } else {
-        false
-    };
-
-    // Read bins into a Vec for binary search
-    let bins_values: Vec<f64> = bins.iter_offsets()
-        .map(|offset| unsafe { bins_ops.read_f64(bins_ptr, offset) }.unwrap_or(0.0))
-        .collect();
-
-    // Pre-compute reversed bins for decreasing case (avoid allocation in loop)
-    let reversed_bins: Vec<f64> = if is_decreasing {
-        bins_values.iter().rev().copied().collect()
-    } else {
-        Vec::new()
-    };
-
-    let x_dtype = x.dtype();
-    let x_ops = x_dtype.ops();
-    let x_ptr = x.data_ptr();
-
-    for (i, offset) in x.iter_offsets().enumerate() {
-        let val = unsafe { x_ops.read_f64(x_ptr, offset) }.unwrap_or(0.0);
-
-        let bin_idx = if is_decreasing {
-            // For decreasing bins: len(bins) - searchsorted(reversed_bins, val, side)
-            let search_idx = if right {
-                reversed_bins.partition_point(|&b| b <= val)
-            } else {
-                reversed_bins.partition_point(|&b| b < val)
-            };
-            bins_size - search_idx
-        } else {
-            // For increasing bins, standard binary search
-            if right {
-                bins_values.partition_point(|&b| b < val)
-            } else {
-                bins_values.partition_point(|&b| b <= val)
-            }
-        };
-
-        unsafe { *result_ptr.add(i) = bin_idx as i64; }
+    if (1..n).all(|i| step(i).is_le()) {
+        return searchsorted(bins, x, side);
     }
-
-    result
+    if !(1..n).all(|i| step(i).is_ge()) {
+        return None;
+    }
+    // Decreasing bins: count from the other end
+    let reversed = bins.view_with((n as isize - 1) * stride, vec![n], vec![-stride]);
+    let found = searchsorted(&reversed, x, side)?;
+    let indices = found.iter_offsets()
+        .map(|offset| n as i64 - unsafe { *(found.data_ptr().offset(offset) as *const i64) })
+        .collect();
+    RumpyArray::from_vec_i64(indices, DType::int64()).reshape(x.shape().to_vec())
 }
 
 /// Pack binary values into uint8 array.
diff --git a/src/ops/set_ops.rs b/src/ops/set_ops.rs
index 69a39f5..1eb4512 100644
--- a/src/ops/set_ops.rs
+++ b/src/ops/set_ops.rs
@@ -5,62 +5,26 @@
 //! Uses sorting-based algorithms (like NumPy) rather than hash-based for better performance
 //! with sorted output requirements.
 
-use crate::array::dtype::DTypeKind;
-use crate::array::{DType, RumpyArray};
-use std::collections::HashSet;
+use crate::array::{promote_dtype, DType, RumpyArray};
+use crate::ops::array_methods::sorting::is_missing;
+use std::cmp::Ordering;
 use std::sync::Arc;
 
-/// Collect array values as f64 Vec (for any contiguous array).
-fn collect_values(arr: &RumpyArray) -> Vec<f64> {
-    if arr.is_c_contiguous() {
-        let ptr = arr.data_ptr();
-        let size = arr.size();
-        match arr.dtype().kind() {
-            DTypeKind::Float64 => {
-                let p = ptr as *const f64;
-                (0..size).map(|i| unsafe { *p.add(i) }).collect()
-            }
-            DTypeKind::Int64 => {
-                let p = ptr as *const i64;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            DTypeKind::Int32 => {
-                let p = ptr as *const i32;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            DTypeKind::Float32 => {
-                let p = ptr as *const f32;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            _ => {
-                let dtype = arr.dtype();
-                let ops = dtype.ops();
-                arr.iter_offsets()
-                    .map(|offset| unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0))
-                    .collect()
-            }
-        }
-    } else {
-        let dtype = arr.dtype();
-        let ops = dtype.ops();
-        let ptr = arr.data_ptr();
-        arr.iter_offsets()
-            .map(|offset| unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0))
-            .collect()
-    }
+/// Both arrays converted to their common dtype.
+fn in_common_dtype(a: &RumpyArray, b: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let common = promote_dtype(&a.dtype(), &b.dtype());
+    (a.astype(common.clone()), b.astype(common))
 }
 
-/// Extract values from array as sorted unique f64 Vec.
-fn collect_sorted_unique(arr: &RumpyArray) -> Vec<f64> {
-    let mut values = collect_values(arr);
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-    values.dedup();
-    values
+/// Order of two elements of arrays with the same dtype.
+fn compare(a: &RumpyArray, a_offset: isize, b: &RumpyArray, b_offset: isize) -> Ordering {
+    let dtype = a.dtype();
+    unsafe { dtype.ops().compare_elements(a.data_ptr(), a_offset, b.data_ptr(), b_offset) }
 }
 
-/// Build a HashSet from array values for O(1) lookup.
-fn collect_hashset(arr: &RumpyArray) -> HashSet<u64> {
-    collect_values(arr).into_iter().map(|v| v.to_bits()).collect()
+/// Is the element of `a` among the elements of `b` at the given (sorted) offsets? NaN equals nothing.
+fn contains(b: &RumpyArray, sorted: &[isize], a: &RumpyArray, a_offset: isize) -> bool {
+    !is_missing(a, a_offset) && sorted.binary_search_by(|&offset| compare(b, offset, a, a_offset)).is_ok()
 }
 
 /// Test whether each element of `element` is also present in `test_elements`.
@@ -68,8 +32,8 @@ fn collect_hashset(arr: &RumpyArray) -> HashSet<u64> {
 ///
 /// If `invert` is true, returns the inverse (elements NOT in test_elements).
 pub fn isin(element: &RumpyArray, test_elements: &RumpyArray, invert: bool) -> RumpyArray {
-    let test_set = collect_hashset(test_elements);
-    let values = collect_values(element);
+    let (values, tests) = in_common_dtype(element, test_elements);
+    let test_set = tests.sorted_unique_offsets(true);
 
     // Create result array with same shape as element
     let mut result = RumpyArray::zeros(element.shape().to_vec(), DType::bool());
@@ -82,8 +46,8 @@ pub fn isin(element: &RumpyArray, test_elements: &RumpyArray, invert: bool) -> R
     let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
     let result_ptr = result_buffer.as_mut_ptr();
 
-    for (i, val) in values.iter().enumerate() {
-        let found = test_set.contains(&val.to_bits());
+    for (i, offset) in values.iter_offsets().enumerate() {
+        let found = contains(&tests, &test_set, &values, offset);
         unsafe { *result_ptr.add(i) = if found != invert { 1u8 } else { 0u8 }; }
     }
 
@@ -97,112 +61,50 @@ pub fn in1d(ar1: &RumpyArray, ar2: &RumpyArray, invert: bool) -> RumpyArray {
     isin(&flat, ar2, invert)
 }
 
-/// Find the intersection of two arrays using sorted merge.
+/// Find the intersection of two arrays.
 /// Returns the sorted, unique values that are in both arrays.
 pub fn intersect1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge intersection on sorted arrays
-    let mut result = Vec::with_capacity(v1.len().min(v2.len()));
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            i += 1;
-        } else if v1[i] > v2[j] {
-            j += 1;
-        } else {
-            result.push(v1[i]);
-            i += 1;
-            j += 1;
-        }
-    }
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    let (a, b) = in_common_dtype(ar1, ar2);
+    let others = b.sorted_unique_offsets(true);
+    let mut kept = a.sorted_unique_offsets(true);
+    kept.retain(|&offset| contains(&b, &others, &a, offset));
+    a.gather_offsets(&kept)
 }
 
-/// Find the union of two arrays using sorted merge.
+/// Find the union of two arrays.
 /// Returns the sorted, unique values that are in either array.
 pub fn union1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge union on sorted arrays
-    let mut result = Vec::with_capacity(v1.len() + v2.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            result.push(v2[j]);
-            j += 1;
-        } else {
-            result.push(v1[i]);
-            i += 1;
-            j += 1;
-        }
-    }
-    result.extend_from_slice(&v1[i..]);
-    result.extend_from_slice(&v2[j..]);
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    join(ar1, ar2).unique()
 }
 
-/// Find the set difference of two arrays using sorted merge.
+/// Find the set difference of two arrays.
 /// Returns the sorted, unique values in ar1 that are not in ar2.
 pub fn setdiff1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge difference on sorted arrays (elements in v1 not in v2)
-    let mut result = Vec::with_capacity(v1.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() {
-        if j >= v2.len() || v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            j += 1;
-        } else {
-            // Equal - skip this element from v1
-            i += 1;
-            j += 1;
-        }
-    }
-
-    RumpyArray::from_vec(result, ar1.dtype())
+    let distinct = ar1.unique();
+    let (a, b) = in_common_dtype(&distinct, ar2);
+    let others = b.sorted_unique_offsets(true);
+    let kept: Vec<isize> = distinct.iter_offsets().zip(a.iter_offsets())
+        .filter(|&(_, offset)| !contains(&b, &others, &a, offset))
+        .map(|(offset, _)| offset)
+        .collect();
+    distinct.gather_offsets(&kept)
 }
 
-/// Find the symmetric difference of two arrays using sorted merge.
+/// Find the symmetric difference of two arrays.
 /// Returns the sorted, unique values that are in exactly one of the arrays.
 pub fn setxor1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge symmetric difference on sorted arrays
-    let mut result = Vec::with_capacity(v1.len() + v2.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            result.push(v2[j]);
-            j += 1;
-        } else {
-            // Equal - skip both
-            i += 1;
-            j += 1;
-        }
-    }
-    result.extend_from_slice(&v1[i..]);
-    result.extend_from_slice(&v2[j..]);
+    let (a, b) = in_common_dtype(ar1, ar2);
+    let (a_offsets, b_offsets) = (a.sorted_unique_offsets(true), b.sorted_unique_offsets(true));
+    let only_a: Vec<isize> = a_offsets.iter().copied().filter(|&offset| !contains(&b, &b_offsets, &a, offset)).collect();
+    let only_b: Vec<isize> = b_offsets.iter().copied().filter(|&offset| !contains(&a, &a_offsets, &b, offset)).collect();
+    join(&a.gather_offsets(&only_a), &b.gather_offsets(&only_b)).sort(Some(0))
+}
 
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+/// Elements of both arrays, flattened, in their common dtype.
+fn join(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
+    let (a, b) = in_common_dtype(ar1, ar2);
+    let flat = |x: RumpyArray| { let all: Vec<isize> = x.iter_offsets().collect(); x.gather_offsets(&all) };
+    crate::array::concatenate(&[flat(a), flat(b)], 0).expect("same dtype and dimension")
 }
 
 #[cfg(test)]
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index b00b67e..26d5a82 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -92,8 +92,8 @@ pub fn searchsorted(
 ) -> PyResult<PyRumpyArray> {
     let v_arr = if let Ok(arr) = v.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr.inner.clone()
-    } else if let Ok(scalar) = v.extract::<f64>() {
-        RumpyArray::from_vec(vec![scalar], DType::float64())
+    } else if let Some(scalar) = search_scalar(v) {
+        scalar
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
             "v must be array or number",
@@ -102,7 +102,17 @@ pub fn searchsorted(
 
     crate::ops::indexing::searchsorted(&a.inner, &v_arr, side)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("a must be 1-D"))
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("a must be 1-D and side 'left' or 'right'"))
+}
+
+/// A Python number as a one-element array of its own kind.
+pub(crate) fn search_scalar(v: &Bound<'_, pyo3::PyAny>) -> Option<RumpyArray> {
+    if v.is_instance_of::<pyo3::types::PyInt>() {
+        if let Ok(value) = v.extract::<i64>() {
+            return Some(RumpyArray::from_vec_i64(vec![value], DType::int64()));
+        }
+    }
+    v.extract::<f64>().ok().map(|value| RumpyArray::from_vec(vec![value], DType::float64()))
 }
 
 /// Find indices of elements that are non-zero.
@@ -311,33 +321,44 @@ pub fn setxor1d(ar1: &PyRumpyArray, ar2: &PyRumpyArray) -> PyRumpyArray {
 /// Return a sorted copy of an array.
 #[pyfunction]
 #[pyo3(signature = (x, axis=-1))]
-pub fn sort(x: &PyRumpyArray, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.sort(resolved_axis))
+pub fn sort(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|a| super::shape::normalize_axis(a, x.inner.ndim())).transpose()?;
+    Ok(PyRumpyArray::new(x.inner.sort(axis)))
 }
 
 /// Return indices that would sort an array.
 #[pyfunction]
 #[pyo3(signature = (x, axis=-1))]
-pub fn argsort(x: &PyRumpyArray, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.argsort(resolved_axis))
+pub fn argsort(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|a| super::shape::normalize_axis(a, x.inner.ndim())).transpose()?;
+    Ok(PyRumpyArray::new(x.inner.argsort(axis)))
+}
+
+/// Normalize the axis (None flattens) and the position within it for partition.
+pub(crate) fn resolve_kth(x: &RumpyArray, kth: isize, axis: Option<isize>) -> PyResult<(usize, Option<usize>)> {
+    let axis = axis.map(|a| super::shape::normalize_axis(a, x.ndim())).transpose()?;
+    let len = axis.map_or(x.size(), |ax| x.shape()[ax]) as isize;
+    let pos = if kth < 0 { kth.checked_add(len) } else { Some(kth) };
+    match pos {
+        Some(k) if (0..len).contains(&k) => Ok((k as usize, axis)),
+        _ => Err(pyo3::exceptions::PyValueError::new_err(format!("kth(={}) out of bounds ({})", kth, len))),
+    }
 }
 
 /// Return a partitioned copy of an array.
 #[pyfunction]
 #[pyo3(signature = (x, kth, axis=-1))]
-pub fn partition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.partition(kth, resolved_axis))
+pub fn partition(x: &PyRumpyArray, kth: isize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let (kth, axis) = resolve_kth(&x.inner, kth, axis)?;
+    Ok(PyRumpyArray::new(x.inner.partition(kth, axis)))
 }
 
 /// Return indices that would partition an array.
 #[pyfunction]
 #[pyo3(signature = (x, kth, axis=-1))]
-pub fn argpartition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.argpartition(kth, resolved_axis))
+pub fn argpartition(x: &PyRumpyArray, kth: isize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let (kth, axis) = resolve_kth(&x.inner, kth, axis)?;
+    Ok(PyRumpyArray::new(x.inner.argpartition(kth, axis)))
 }
 
 /// Perform an indirect stable sort using a sequence of keys.
@@ -679,8 +700,10 @@ pub fn mask_indices(
 /// Return the indices of the bins to which each value in input belongs.
 #[pyfunction]
 #[pyo3(signature = (x, bins, right=false))]
-pub fn digitize(x: &PyRumpyArray, bins: &PyRumpyArray, right: bool) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::indexing::digitize(&x.inner, &bins.inner, right))
+pub fn digitize(x: &PyRumpyArray, bins: &PyRumpyArray, right: bool) -> PyResult<PyRumpyArray> {
+    crate::ops::indexing::digitize(&x.inner, &bins.inner, right)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("bins must be 1-D and monotonically increasing or decreasing"))
 }
 
 /// Pack binary-valued array into uint8 array.
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1e280a6..3037a1e 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -536,37 +536,37 @@ impl PyRumpyArray {
     }
 
     /// Return indices that would sort the array.
-    #[pyo3(signature = (axis=None))]
-    fn argsort(&self, axis: Option<isize>) -> Self {
-        let ax = normalize_axis_option(axis, self.inner.ndim(), false);
-        Self::new(self.inner.argsort(ax))
+    #[pyo3(signature = (axis=-1))]
+    fn argsort(&self, axis: Option<isize>) -> PyResult<Self> {
+        let ax = axis.map(|a| crate::python::shape::normalize_axis(a, self.inner.ndim())).transpose()?;
+        Ok(Self::new(self.inner.argsort(ax)))
     }
 
     /// Sort array in-place.
     #[pyo3(signature = (axis=None))]
-    fn sort(&mut self, axis: Option<isize>) {
-        let ax = normalize_axis_option(axis, self.inner.ndim(), true);
-        self.inner = self.inner.sort(ax);
+    fn sort(&mut self, axis: Option<isize>) -> PyResult<()> {
+        let ax = crate::python::shape::normalize_axis(axis.unwrap_or(-1), self.inner.ndim())?;
+        let sorted = self.inner.sort(Some(ax));
+        overwrite(&mut self.inner, &sorted);
+        Ok(())
     }
 
     /// Find indices where elements should be inserted to maintain order.
     #[pyo3(signature = (v, side="left"))]
     fn searchsorted<'py>(&self, py: Python<'py>, v: &Bound<'py, PyAny>, side: &str) -> PyResult<PyObject> {
-        // Handle scalar input - always use float64 for the search value to avoid truncation
-        if let Ok(scalar) = v.extract::<f64>() {
-            let v_arr = RumpyArray::from_vec(vec![scalar], DType::float64());
-            let result = crate::ops::indexing::searchsorted(&self.inner, &v_arr, side)
-                .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("searchsorted failed"))?;
-            // Return scalar for scalar input
-            let idx = result.get_element(&[0]) as i64;
-            return Ok(idx.into_pyobject(py)?.into_any().unbind());
-        }
         // Handle array input
         if let Ok(arr) = v.extract::<PyRef<'_, PyRumpyArray>>() {
             let result = crate::ops::indexing::searchsorted(&self.inner, &arr.inner, side)
                 .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("searchsorted failed"))?;
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
+        // Scalar input gives a scalar
+        if let Some(v_arr) = crate::python::indexing::search_scalar(v) {
+            let result = crate::ops::indexing::searchsorted(&self.inner, &v_arr, side)
+                .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("searchsorted failed"))?;
+            let idx = result.get_element(&[0]) as i64;
+            return Ok(idx.into_pyobject(py)?.into_any().unbind());
+        }
         Err(pyo3::exceptions::PyTypeError::new_err("v must be a scalar or array"))
     }
 
@@ -869,64 +869,17 @@ impl PyRumpyArray {
     }
 
     /// Partially sort array in-place so element at kth position is in sorted position.
-    fn partition(&mut self, kth: usize) -> PyResult<()> {
-        let size = self.inner.size();
-        if kth >= size {
-            return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                "kth(={}) out of bounds ({})", kth, size
-            )));
-        }
-
-        // Fast path: contiguous float64 array - work directly on buffer
-        if self.inner.is_c_contiguous() && self.inner.dtype().ops().name() == "float64" {
-            let ptr = self.inner.data_ptr_mut() as *mut f64;
-            let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-            partition_select(slice, kth);
-            return Ok(());
-        }
-
-        // General path: copy, partition, write back
-        let mut values: Vec<f64> = Vec::with_capacity(size);
-        for offset in self.inner.iter_offsets() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            values.push(val);
-        }
-        partition_select(&mut values, kth);
-
-        let shape = self.inner.shape().to_vec();
-        let mut indices = vec![0usize; self.inner.ndim()];
-        for (i, &val) in values.iter().enumerate() {
-            self.inner.set_element(&indices, val);
-            if i + 1 < size {
-                crate::array::increment_indices(&mut indices, &shape);
-            }
-        }
-
+    fn partition(&mut self, kth: isize) -> PyResult<()> {
+        let (kth, axis) = crate::python::indexing::resolve_kth(&self.inner, kth, Some(-1))?;
+        let partitioned = self.inner.partition(kth, axis);
+        overwrite(&mut self.inner, &partitioned);
         Ok(())
     }
 
     /// Return indices that would partition the array.
-    fn argpartition(&self, kth: usize) -> PyResult<Self> {
-        let size = self.inner.size();
-        if kth >= size {
-            return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                "kth(={}) out of bounds ({})", kth, size
-            )));
-        }
-
-        // Collect values with original indices
-        let mut indexed: Vec<(f64, usize)> = Vec::with_capacity(size);
-        for (i, offset) in self.inner.iter_offsets().enumerate() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            indexed.push((val, i));
-        }
-
-        // Partition by value
-        partition_select_indexed(&mut indexed, kth);
-
-        // Extract indices
-        let indices: Vec<f64> = indexed.iter().map(|(_, idx)| *idx as f64).collect();
-        Ok(Self::new(RumpyArray::from_vec(indices, DType::int64())))
+    fn argpartition(&self, kth: isize) -> PyResult<Self> {
+        let (kth, axis) = crate::python::indexing::resolve_kth(&self.inner, kth, Some(-1))?;
+        Ok(Self::new(self.inner.argpartition(kth, axis)))
     }
 
 }
@@ -1007,16 +960,13 @@ fn resolve_axis(axis: isize, ndim: usize) -> usize {
     }
 }
 
-/// Normalize axis for sort/argsort operations.
-/// - If axis is None and default_last is false, returns None (flatten behavior)
-/// - If axis is None and default_last is true, returns last axis
-/// - Handles negative axis values
-fn normalize_axis_option(axis: Option<isize>, ndim: usize, default_last: bool) -> Option<usize> {
-    match axis {
-        None if default_last => Some(ndim - 1),
-        None => None,
-        Some(a) if a >= 0 => Some(a as usize),
-        Some(a) => Some((ndim as isize + a) as usize),
+/// Copy the elements of `src` over those of `dst` (same shape and dtype) in place.
+fn overwrite(dst: &mut RumpyArray, src: &RumpyArray) {
+    let itemsize = src.dtype().itemsize();
+    let offsets: Vec<isize> = dst.iter_offsets().collect();
+    let ptr = dst.data_ptr_mut();
+    for (to, from) in offsets.into_iter().zip(src.iter_offsets()) {
+        unsafe { std::ptr::copy_nonoverlapping(src.data_ptr().offset(from), ptr.offset(to), itemsize); }
     }
 }
 
@@ -1408,76 +1358,6 @@ where
     }
 }
 
-/// Quickselect-style partition: rearrange so that element at kth position is in sorted position.
-fn partition_select(arr: &mut [f64], kth: usize) {
-    if arr.len() <= 1 {
-        return;
-    }
-
-    // Simple quickselect
-    let mut left = 0;
-    let mut right = arr.len() - 1;
-
-    while left < right {
-        let pivot_idx = (left + right) / 2;
-        let pivot = arr[pivot_idx];
-
-        // Move pivot to end
-        arr.swap(pivot_idx, right);
-
-        let mut store = left;
-        for i in left..right {
-            if arr[i] < pivot {
-                arr.swap(i, store);
-                store += 1;
-            }
-        }
-        arr.swap(store, right);
-
-        if store == kth {
-            return;
-        } else if store < kth {
-            left = store + 1;
-        } else {
-            right = store.saturating_sub(1);
-        }
-    }
-}
-
-/// Quickselect for indexed values: partition so kth smallest is at position kth.
-fn partition_select_indexed(arr: &mut [(f64, usize)], kth: usize) {
-    if arr.len() <= 1 {
-        return;
-    }
-
-    let mut left = 0;
-    let mut right = arr.len() - 1;
-
-    while left < right {
-        let pivot_idx = (left + right) / 2;
-        let pivot = arr[pivot_idx].0;
-
-        arr.swap(pivot_idx, right);
-
-        let mut store = left;
-        for i in left..right {
-            if arr[i].0 < pivot {
-                arr.swap(i, store);
-                store += 1;
-            }
-        }
-        arr.swap(store, right);
-
-        if store == kth {
-            return;
-        } else if store < kth {
-            left = store + 1;
-        } else {
-            right = store.saturating_sub(1);
-        }
-    }
-}
-
 /// Python-visible flags object (like numpy.ndarray.flags).
 #[pyclass(name = "flagsobj", module = "rumpy")]
 pub struct PyArrayFlags {
-- 
2.43.0


From 8532a15a3c0b3875208e0e4847a05395de63b836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:02 +0000
Subject: [PATCH 17/30] fix: NaN-aware reductions of empty and integer arrays,
 average of integers and of cancelling weights

---
 src/ops/array_methods/reductions.rs | 14 +++++++++++-
 src/python/reductions.rs            | 34 ++++++++++++++++++++++++-----
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 9aef772..a1f3e9d 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -730,7 +730,7 @@ impl RumpyArray {
 
         let mut result = RumpyArray::zeros(out_shape.clone(), result_dtype.clone());
         let out_size = result.size();
-        if out_size == 0 || axis_len == 0 {
+        if out_size == 0 {
             return result;
         }
 
@@ -988,6 +988,9 @@ impl RumpyArray {
         if self.size() == 0 {
             return None;
         }
+        if self.never_nan() {
+            return Some(self.argmin());
+        }
         let ptr = self.data_ptr();
         let dtype = self.dtype();
         let ops = dtype.ops();
@@ -1006,6 +1009,9 @@ impl RumpyArray {
     /// Index of minimum element along axis, ignoring NaN values.
     /// Returns None if some slice along the axis has no non-NaN element.
     pub fn nanargmin_axis(&self, axis: usize) -> Option<RumpyArray> {
+        if self.never_nan() && self.shape()[axis] > 0 {
+            return Some(self.argmin_axis(axis));
+        }
         self.nan_arg_reduce_axis(axis, |a, b| a < b)
     }
 
@@ -1015,6 +1021,9 @@ impl RumpyArray {
         if self.size() == 0 {
             return None;
         }
+        if self.never_nan() {
+            return Some(self.argmax());
+        }
         let ptr = self.data_ptr();
         let dtype = self.dtype();
         let ops = dtype.ops();
@@ -1033,6 +1042,9 @@ impl RumpyArray {
     /// Index of maximum element along axis, ignoring NaN values.
     /// Returns None if some slice along the axis has no non-NaN element.
     pub fn nanargmax_axis(&self, axis: usize) -> Option<RumpyArray> {
+        if self.never_nan() && self.shape()[axis] > 0 {
+            return Some(self.argmax_axis(axis));
+        }
         self.nan_arg_reduce_axis(axis, |a, b| a > b)
     }
 
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 11bc59e..c302265 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::PyTuple;
 
 use super::{pyarray, PyRumpyArray};
-use crate::array::RumpyArray;
+use crate::array::{DType, RumpyArray};
 
 /// Helper for axis bounds checking.
 fn check_axis(axis: usize, ndim: usize) -> PyResult<()> {
@@ -253,14 +253,20 @@ pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    reduce_axes(x, axis, |arr, ax| Ok(arr.nanmin_axis(ax)))
+    reduce_axes(x, axis, |arr, ax| {
+        pyarray::check_nonempty(arr, ax, "nanmin")?;
+        Ok(arr.nanmin_axis(ax))
+    })
 }
 
 /// Maximum ignoring NaN values.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
-    reduce_axes(x, axis, |arr, ax| Ok(arr.nanmax_axis(ax)))
+    reduce_axes(x, axis, |arr, ax| {
+        pyarray::check_nonempty(arr, ax, "nanmax")?;
+        Ok(arr.nanmax_axis(ax))
+    })
 }
 
 /// Index of minimum ignoring NaN values.
@@ -384,6 +390,10 @@ pub fn median(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
     reduce_with(x, axis, |arr| Ok(pyarray::ReductionResult::Scalar(arr.median())), |arr, ax| Ok(arr.median_axis(ax)))
 }
 
+fn is_inexact(arr: &RumpyArray) -> bool {
+    !arr.dtype().is_integer() && arr.dtype().kind() != crate::array::DTypeKind::Bool
+}
+
 /// Weighted average of array elements.
 #[pyfunction]
 #[pyo3(signature = (x, axis=None, weights=None))]
@@ -412,10 +422,24 @@ pub fn average(
             )),
         },
     };
+    // Integers are averaged in float64; the weights must not cancel out
+    let (values, weights) = match weights {
+        Some(w) if !is_inexact(&x.inner) || !is_inexact(&w) => (x.inner.astype(DType::float64()), Some(w.astype(DType::float64()))),
+        w => (x.inner.clone(), w),
+    };
+    if let Some(w) = &weights {
+        let cancelled = match axis {
+            None => w.sum() == 0.0,
+            Some(ax) => w.sum_axis(ax).to_vec().contains(&0.0),
+        };
+        if cancelled {
+            return Err(pyo3::exceptions::PyZeroDivisionError::new_err("Weights sum to zero, can't be normalized"));
+        }
+    }
     match axis {
-        None => Ok(pyarray::ReductionResult::Scalar(x.inner.average(weights.as_ref()))),
+        None => Ok(pyarray::ReductionResult::Scalar(values.average(weights.as_ref()))),
         Some(ax) => Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(
-            x.inner.average_axis(ax, weights.as_ref()),
+            values.average_axis(ax, weights.as_ref()),
         ))),
     }
 }
-- 
2.43.0


From cfdf8074ce66509c0013f7f1bd3fe4d739a61f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:34 +0000
Subject: [PATCH 18/30] fix: percentile and median of data with NaN sort with a
 total order (no panic)

---
 src/array/manipulation.rs | 4 ++--
 src/ops/statistics.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index efc626a..4ba4e0f 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -260,7 +260,7 @@ fn percentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
     for offset in arr.iter_offsets() {
         values.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
     }
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    values.sort_by(f64::total_cmp);
 
     // Compute percentiles using linear interpolation
     let mut result = RumpyArray::zeros(vec![q.len()], DType::float64());
@@ -324,7 +324,7 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
             values.push(unsafe { ops.read_f64(ptr, 0) }.unwrap_or(0.0));
             ptr = unsafe { ptr.offset(axis_stride) };
         }
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+        values.sort_by(f64::total_cmp);
 
         // Compute percentiles
         if q.len() == 1 {
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 56ef9a4..2732b52 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -382,7 +382,7 @@ impl RumpyArray {
             }
 
             // Sort and compute median
-            values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+            values.sort_by(f64::total_cmp);
             let median = if values.iter().any(|v| v.is_nan()) {
                 f64::NAN
             } else if axis_len.is_multiple_of(2) {
-- 
2.43.0


From 2e03e3acc977075fbd874330e24687617b7455b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:10 +0000
Subject: [PATCH 19/30] fix: take, compress, put, place, choose, select, where
 and friends move elements exactly, in bounds and with broadcasting

---
 src/ops/indexing.rs       |  93 ++++++++++++++++++---------
 src/ops/mod.rs            |  62 +++++++-----------
 src/python/creation.rs    |  20 +++---
 src/python/indexing.rs    |  80 ++++++++++++------------
 src/python/misc.rs        | 128 +++++++++++++++++++++++++-------------
 src/python/pyarray/mod.rs |  47 ++++++--------
 6 files changed, 241 insertions(+), 189 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index ca06864..f28995f 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -14,12 +14,21 @@ fn normalize_index(idx: isize, len: usize) -> Option<usize> {
     if normalized < len { Some(normalized) } else { None }
 }
 
-/// Take elements from an array along an axis.
+/// Take elements from an array along an axis (of the flattened array if axis is None).
 pub fn take(arr: &RumpyArray, indices: &RumpyArray, axis: Option<usize>) -> Option<RumpyArray> {
-    let axis = axis.unwrap_or(0);
+    let Some(axis) = axis else {
+        return take(&arr.flattened(), indices, Some(0));
+    };
     if axis >= arr.ndim() {
         return None;
     }
+    if indices.ndim() != 1 {
+        // The indexed axis is replaced by the axes of the index array
+        let mut shape = arr.shape()[..axis].to_vec();
+        shape.extend_from_slice(indices.shape());
+        shape.extend_from_slice(&arr.shape()[axis + 1..]);
+        return take(arr, &indices.flattened(), Some(axis))?.reshape(shape);
+    }
 
     let num_indices = indices.size();
     let axis_len = arr.shape()[axis];
@@ -85,8 +94,9 @@ fn take_axis0_contiguous(arr: &RumpyArray, indices: &[usize], mut result: RumpyA
     let result_ptr = buffer.as_mut_ptr();
     let src_ptr = arr.data_ptr();
 
-    // Each "row" is stride[0] bytes (for contiguous, this is product of remaining dims * itemsize)
-    let row_bytes = arr.strides()[0] as usize;
+    // Each "row" is the product of the remaining dims * itemsize (strides[0] may be
+    // anything when the leading dimension has length 1 or the array is empty)
+    let row_bytes = arr.shape()[1..].iter().product::<usize>() * arr.dtype().itemsize();
 
     for (i, &idx) in indices.iter().enumerate() {
         unsafe {
@@ -151,15 +161,18 @@ pub fn take_along_axis(arr: &RumpyArray, indices: &RumpyArray, axis: usize) -> O
         return None;
     }
 
-    // Validate shape compatibility
-    for i in 0..arr.ndim() {
-        if i != axis && arr.shape()[i] != indices.shape()[i] {
-            return None;
-        }
-    }
-
+    // The other axes broadcast against each other
     let axis_len = arr.shape()[axis];
-    let out_shape = indices.shape().to_vec();
+    let mut others = indices.shape().to_vec();
+    others[axis] = 1;
+    let mut arr_shape = arr.shape().to_vec();
+    arr_shape[axis] = 1;
+    let mut out_shape = crate::array::broadcast_shapes(&arr_shape, &others)?;
+    arr_shape.copy_from_slice(&out_shape);
+    arr_shape[axis] = axis_len;
+    out_shape[axis] = indices.shape()[axis];
+    let arr = &arr.broadcast_to(&arr_shape)?;
+    let indices = &indices.broadcast_to(&out_shape)?;
     let mut result = RumpyArray::zeros(out_shape.clone(), arr.dtype());
 
     let result_size: usize = out_shape.iter().product();
@@ -229,6 +242,9 @@ pub fn compress(condition: &[bool], arr: &RumpyArray, axis: Option<usize>) -> Op
 fn compress_flat(condition: &[bool], arr: &RumpyArray) -> Option<RumpyArray> {
     let size = arr.size();
     let cond_len = condition.len().min(size);
+    if condition[cond_len..].contains(&true) {
+        return None;
+    }
     let count = condition.iter().take(cond_len).filter(|&&b| b).count();
 
     let mut result = RumpyArray::zeros(vec![count], arr.dtype());
@@ -286,6 +302,9 @@ fn compress_axis(condition: &[bool], arr: &RumpyArray, axis: usize) -> Option<Ru
 
     let axis_len = arr.shape()[axis];
     let cond_len = condition.len().min(axis_len);
+    if condition[cond_len..].contains(&true) {
+        return None;
+    }
     let count = condition.iter().take(cond_len).filter(|&&b| b).count();
 
     let mut out_shape = arr.shape().to_vec();
@@ -491,10 +510,10 @@ pub fn flatnonzero(arr: &RumpyArray) -> RumpyArray {
     result
 }
 
-/// Replace elements at given flat indices with given values.
-pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()> {
+/// Replace elements at given flat indices with given values (of the array's dtype).
+pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &RumpyArray) -> Option<()> {
     let size = arr.size();
-    if indices.is_empty() {
+    if indices.is_empty() || values.size() == 0 {
         return Some(());
     }
 
@@ -505,11 +524,10 @@ pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()>
 
     let ndim = arr.ndim();
     let shape = arr.shape().to_vec();
-    let values_len = values.len();
+    let offsets: Vec<isize> = values.iter_offsets().collect();
+    let (src_ptr, dst_ptr, itemsize) = (values.data_ptr(), arr.data_ptr_mut(), arr.itemsize());
 
     for (i, &flat_idx) in normalized.iter().enumerate() {
-        let val = values[i % values_len];
-
         // Convert flat index to nd indices
         let mut indices_nd = vec![0usize; ndim];
         let mut remaining = flat_idx;
@@ -518,7 +536,11 @@ pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()>
             remaining /= shape[d];
         }
 
-        arr.set_element(&indices_nd, val);
+        let src_offset = offsets[i % offsets.len()];
+        let dst_offset = arr.byte_offset_for(&indices_nd);
+        unsafe {
+            std::ptr::copy_nonoverlapping(src_ptr.offset(src_offset), dst_ptr.offset(dst_offset), itemsize);
+        }
     }
 
     Some(())
@@ -526,9 +548,10 @@ pub fn put(arr: &mut RumpyArray, indices: &[i64], values: &[f64]) -> Option<()>
 
 /// Put values into array along an axis using indices.
 pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &RumpyArray, axis: usize) -> Option<()> {
-    if axis >= arr.ndim() || indices.shape() != values.shape() || indices.ndim() != arr.ndim() {
+    if axis >= arr.ndim() || indices.ndim() != arr.ndim() {
         return None;
     }
+    let values = values.astype(arr.dtype()).broadcast_to(indices.shape())?;
 
     for i in 0..arr.ndim() {
         if i != axis && arr.shape()[i] != indices.shape()[i] {
@@ -541,8 +564,13 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
     let idx_dtype = indices.dtype();
     let idx_ops = idx_dtype.ops();
     let val_ptr = values.data_ptr();
-    let val_dtype = values.dtype();
-    let val_ops = val_dtype.ops();
+    let dst_ptr = arr.data_ptr_mut();
+    let itemsize = arr.itemsize();
+
+    // Nothing is written unless every index is valid
+    for offset in indices.iter_offsets() {
+        normalize_index(unsafe { idx_ops.read_i64(idx_ptr, offset) }.unwrap_or(0) as isize, axis_len)?;
+    }
 
     let idx_strides = indices.strides();
     let val_strides = values.strides();
@@ -567,12 +595,13 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
         let idx_val = unsafe { idx_ops.read_i64(idx_ptr, idx_offset) }.unwrap_or(0) as isize;
         let normalized_idx = normalize_index(idx_val, axis_len)?;
 
-        let val = unsafe { val_ops.read_f64(val_ptr, val_offset) }.unwrap_or(0.0);
-
         target_indices.copy_from_slice(&idx_indices);
         target_indices[axis] = normalized_idx;
 
-        arr.set_element(&target_indices, val);
+        let dst_offset = arr.byte_offset_for(&target_indices);
+        unsafe {
+            std::ptr::copy_nonoverlapping(val_ptr.offset(val_offset), dst_ptr.offset(dst_offset), itemsize);
+        }
 
         for d in (0..ndim).rev() {
             idx_indices[d] += 1;
@@ -593,14 +622,16 @@ pub fn choose(indices: &RumpyArray, choices: &[RumpyArray]) -> Option<RumpyArray
     }
 
     let num_choices = choices.len();
-    let out_shape = indices.shape().to_vec();
-    let out_dtype = choices[0].dtype();
-
+    let mut out_shape = indices.shape().to_vec();
+    let mut out_dtype = choices[0].dtype();
     for choice in choices {
-        if choice.shape() != indices.shape() {
-            return None;
-        }
+        out_shape = crate::array::broadcast_shapes(&out_shape, choice.shape())?;
+        out_dtype = crate::array::promote_dtype(&out_dtype, &choice.dtype());
     }
+    let indices = &indices.broadcast_to(&out_shape)?;
+    let choices = choices.iter()
+        .map(|choice| choice.astype(out_dtype.clone()).broadcast_to(&out_shape))
+        .collect::<Option<Vec<RumpyArray>>>()?;
 
     let mut result = RumpyArray::zeros(out_shape.clone(), out_dtype);
     let result_size: usize = out_shape.iter().product();
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index acfd490..fbe614a 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -128,8 +128,8 @@ impl RumpyArray {
         let mut indices = vec![0usize; ndim];
         let size = self.size();
         for _ in 0..size {
-            let val = self.get_element(&indices);
-            if val != 0.0 {
+            let offset = self.byte_offset_for(&indices);
+            if unsafe { self.dtype.ops().is_truthy(self.data_ptr(), offset) } {
                 for (dim, &idx) in indices.iter().enumerate() {
                     indices_per_dim[dim].push(idx as i64);
                 }
@@ -337,12 +337,23 @@ pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> O
     // Result dtype is promoted from x and y
     let result_dtype = promote_dtype(&x.dtype(), &y.dtype());
 
+    // Any non-zero value selects x, whatever the dtype of the condition
+    let condition = &if condition.dtype() == DType::bool() {
+        condition.clone()
+    } else {
+        condition.astype(DType::bool())
+    };
+
     // Try typed dispatch first (same-dtype x, y, result)
     if let Some(result) = crate::ops::dispatch::dispatch_where(condition, x, y, &result_dtype, &out_shape) {
         return Some(result);
     }
 
-    // Fallback for mixed dtypes
+    // Mixed dtypes: convert exactly to the result dtype first
+    if x.dtype() != result_dtype || y.dtype() != result_dtype {
+        return where_select(condition, &x.astype(result_dtype.clone()), &y.astype(result_dtype));
+    }
+
     let cond = condition.broadcast_to(&out_shape)?;
     let x_bc = x.broadcast_to(&out_shape)?;
     let y_bc = y.broadcast_to(&out_shape)?;
@@ -366,44 +377,19 @@ pub fn where_select(condition: &RumpyArray, x: &RumpyArray, y: &RumpyArray) -> O
     let x_ptr = x_bc.data_ptr();
     let y_ptr = y_bc.data_ptr();
 
-    // Check if all dtypes match for direct copy (shouldn't hit this if dispatch worked)
-    let same_dtype = x_bc.dtype() == y_bc.dtype() && x_bc.dtype() == result.dtype();
-
     let mut indices = vec![0usize; out_shape.len()];
 
-    if same_dtype {
-        for i in 0..size {
-            let cond_offset = cond.byte_offset_for(&indices);
-            let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
-            if is_true {
-                let x_offset = x_bc.byte_offset_for(&indices);
-                unsafe { result_ops.copy_element(x_ptr, x_offset, result_ptr, i); }
-            } else {
-                let y_offset = y_bc.byte_offset_for(&indices);
-                unsafe { result_ops.copy_element(y_ptr, y_offset, result_ptr, i); }
-            }
-            increment_indices(&mut indices, &out_shape);
-        }
-    } else {
-        // Different dtypes: read as f64, write as f64
-        let x_dtype = x_bc.dtype();
-        let x_ops = x_dtype.ops();
-        let y_dtype = y_bc.dtype();
-        let y_ops = y_dtype.ops();
-
-        for i in 0..size {
-            let cond_offset = cond.byte_offset_for(&indices);
-            let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
-            let val = if is_true {
-                let x_offset = x_bc.byte_offset_for(&indices);
-                unsafe { x_ops.read_f64(x_ptr, x_offset).unwrap_or(0.0) }
-            } else {
-                let y_offset = y_bc.byte_offset_for(&indices);
-                unsafe { y_ops.read_f64(y_ptr, y_offset).unwrap_or(0.0) }
-            };
-            unsafe { result_ops.write_f64(result_ptr, i, val); }
-            increment_indices(&mut indices, &out_shape);
+    for i in 0..size {
+        let cond_offset = cond.byte_offset_for(&indices);
+        let is_true = unsafe { cond_ops.is_truthy(cond_ptr, cond_offset) };
+        if is_true {
+            let x_offset = x_bc.byte_offset_for(&indices);
+            unsafe { result_ops.copy_element(x_ptr, x_offset, result_ptr, i); }
+        } else {
+            let y_offset = y_bc.byte_offset_for(&indices);
+            unsafe { result_ops.copy_element(y_ptr, y_offset, result_ptr, i); }
         }
+        increment_indices(&mut indices, &out_shape);
     }
 
     Some(result)
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 28a320a..91b7559 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -1151,16 +1151,18 @@ pub fn copyto(
     // For now, we support basic casting modes
     let _casting = casting.unwrap_or("same_kind");
 
-    // Broadcast src to dst shape if needed
+    // Convert to the destination dtype (a copy, so an overlapping source is safe)
+    // and broadcast to its shape
+    let converted = src.inner.astype(dst.inner.dtype());
     let src_broadcasted = if src.inner.shape() != dst.inner.shape() {
-        src.inner.broadcast_to(dst.inner.shape())
+        converted.broadcast_to(dst.inner.shape())
             .ok_or_else(|| {
                 pyo3::exceptions::PyValueError::new_err(
                     "could not broadcast input array to destination shape"
                 )
             })?
     } else {
-        src.inner.clone()
+        converted
     };
 
     let size = dst.inner.size();
@@ -1173,8 +1175,7 @@ pub fn copyto(
     let src_ptr = src_broadcasted.data_ptr();
     let dst_dtype = dst.inner.dtype();
     let src_dtype = src_broadcasted.dtype();
-    let dst_ops = dst_dtype.ops();
-    let src_ops = src_dtype.ops();
+    let itemsize = dst_dtype.itemsize();
 
     match where_mask {
         Some(mask) => {
@@ -1198,10 +1199,8 @@ pub fn copyto(
                 .zip(src_broadcasted.iter_offsets())
                 .zip(mask_broadcasted.iter_offsets())
             {
-                let mask_val = unsafe { mask_ops.read_f64(mask_ptr, mask_off) }.unwrap_or(0.0);
-                if mask_val != 0.0 {
-                    let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                    unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
+                if unsafe { mask_ops.is_truthy(mask_ptr, mask_off) } {
+                    unsafe { std::ptr::copy_nonoverlapping(src_ptr.offset(src_off), dst_ptr.offset(dst_off), itemsize); }
                 }
             }
         }
@@ -1217,8 +1216,7 @@ pub fn copyto(
             for (dst_off, src_off) in dst.inner.iter_offsets()
                 .zip(src_broadcasted.iter_offsets())
             {
-                let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
+                unsafe { std::ptr::copy_nonoverlapping(src_ptr.offset(src_off), dst_ptr.offset(dst_off), itemsize); }
             }
         }
     }
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 26d5a82..594ed55 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -16,8 +16,9 @@ use super::{PyRumpyArray, creation};
 pub fn take(
     a: &PyRumpyArray,
     indices: &Bound<'_, pyo3::PyAny>,
-    axis: Option<usize>,
+    axis: Option<isize>,
 ) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|ax| super::shape::normalize_axis(ax, a.inner.ndim())).transpose()?;
     let indices_arr = if let Ok(arr) = indices.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr.inner.clone()
     } else if let Ok(list) = indices.extract::<Vec<i64>>() {
@@ -39,8 +40,9 @@ pub fn take(
 pub fn take_along_axis(
     arr: &PyRumpyArray,
     indices: &PyRumpyArray,
-    axis: usize,
+    axis: isize,
 ) -> PyResult<PyRumpyArray> {
+    let axis = super::shape::normalize_axis(axis, arr.inner.ndim())?;
     crate::ops::indexing::take_along_axis(&arr.inner, &indices.inner, axis)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -56,8 +58,9 @@ pub fn take_along_axis(
 pub fn compress(
     condition: &Bound<'_, pyo3::PyAny>,
     a: &PyRumpyArray,
-    axis: Option<usize>,
+    axis: Option<isize>,
 ) -> PyResult<PyRumpyArray> {
+    let axis = axis.map(|ax| super::shape::normalize_axis(ax, a.inner.ndim())).transpose()?;
     let cond_vec: Vec<bool> = if let Ok(list) = condition.extract::<Vec<bool>>() {
         list
     } else if let Ok(arr) = condition.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
@@ -75,7 +78,7 @@ pub fn compress(
 
     crate::ops::indexing::compress(&cond_vec, &a.inner, axis)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("axis out of bounds"))
+        .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("condition selects an index out of bounds"))
 }
 
 // ============================================================================
@@ -131,6 +134,18 @@ pub fn flatnonzero(a: &PyRumpyArray) -> PyRumpyArray {
 // Modification operations
 // ============================================================================
 
+/// Values to be stored in an array of `dtype`: a number, list or array, converted exactly.
+/// Always a copy, so that storing values from an overlapping view is safe.
+pub(crate) fn values_array(v: &Bound<'_, pyo3::PyAny>, dtype: &DType) -> PyResult<RumpyArray> {
+    if let Ok(arr) = v.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+        return Ok(arr.inner.astype(dtype.clone()));
+    }
+    if let Some(scalar) = super::pyarray::scalar_array(v, dtype)? {
+        return Ok(scalar.astype(dtype.clone()));
+    }
+    creation::array_impl(v.py(), v, None).map(|arr| arr.inner.astype(dtype.clone()))
+}
+
 /// Replace values at specified flat indices.
 #[pyfunction]
 pub fn put(
@@ -155,24 +170,7 @@ pub fn put(
         ));
     };
 
-    let values: Vec<f64> = if let Ok(scalar) = v.extract::<f64>() {
-        vec![scalar]
-    } else if let Ok(list) = v.extract::<Vec<f64>>() {
-        list
-    } else if let Ok(arr) = v.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        let size = arr.inner.size();
-        let mut result = Vec::with_capacity(size);
-        for offset in arr.inner.iter_offsets() {
-            let val = unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }
-                .unwrap_or(0.0);
-            result.push(val);
-        }
-        result
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "v must be number, array, or list",
-        ));
-    };
+    let values = values_array(v, &a.inner.dtype())?;
 
     crate::ops::indexing::put(&mut a.inner, &indices, &values)
         .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
@@ -184,8 +182,9 @@ pub fn put_along_axis(
     arr: &mut PyRumpyArray,
     indices: &PyRumpyArray,
     values: &PyRumpyArray,
-    axis: usize,
+    axis: isize,
 ) -> PyResult<()> {
+    let axis = super::shape::normalize_axis(axis, arr.inner.ndim())?;
     crate::ops::indexing::put_along_axis(&mut arr.inner, &indices.inner, &values.inner, axis)
         .ok_or_else(|| {
             pyo3::exceptions::PyValueError::new_err(
@@ -219,6 +218,15 @@ pub fn choose(a: &PyRumpyArray, choices: &Bound<'_, PyList>) -> PyResult<PyRumpy
 // Conditional selection
 // ============================================================================
 
+/// A number as an operand of `where` next to `other` (None if that is a number too).
+fn where_scalar(v: &Bound<'_, pyo3::PyAny>, other: Option<&RumpyArray>, name: &str) -> PyResult<RumpyArray> {
+    let scalar = match other {
+        Some(arr) => super::pyarray::scalar_operand(v, &arr.dtype())?,
+        None => super::pyarray::scalar_array(v, &DType::float64())?,
+    };
+    scalar.ok_or_else(|| pyo3::exceptions::PyTypeError::new_err(format!("{} must be ndarray or number", name)))
+}
+
 /// Return elements from x or y depending on condition.
 #[pyfunction]
 #[pyo3(name = "where")]
@@ -227,24 +235,16 @@ pub fn where_fn(
     x: &Bound<'_, pyo3::PyAny>,
     y: &Bound<'_, pyo3::PyAny>,
 ) -> PyResult<PyRumpyArray> {
-    let x_arr = if let Ok(arr) = x.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "x must be ndarray or number",
-        ));
+    // A number takes the dtype of the other operand as far as its value allows
+    let x_in = x.extract::<pyo3::PyRef<'_, PyRumpyArray>>().ok().map(|arr| arr.inner.clone());
+    let y_in = y.extract::<pyo3::PyRef<'_, PyRumpyArray>>().ok().map(|arr| arr.inner.clone());
+    let x_arr = match &x_in {
+        Some(arr) => arr.clone(),
+        None => where_scalar(x, y_in.as_ref(), "x")?,
     };
-
-    let y_arr = if let Ok(arr) = y.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = y.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "y must be ndarray or number",
-        ));
+    let y_arr = match &y_in {
+        Some(arr) => arr.clone(),
+        None => where_scalar(y, x_in.as_ref(), "y")?,
     };
 
     crate::ops::where_select(&condition.inner, &x_arr, &y_arr)
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 775c8a0..1d6ac1c 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -340,10 +340,26 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
 // extract - extract elements where condition is true
 // ============================================================================
 
+/// The truth value of each element, as a bool array.
+fn as_mask(arr: &RumpyArray) -> RumpyArray {
+    let dtype = arr.dtype();
+    if dtype.kind() == DTypeKind::Bool {
+        return arr.clone();
+    }
+    let truth = arr.iter_offsets()
+        .map(|offset| unsafe { dtype.ops().is_truthy(arr.data_ptr(), offset) } as u8 as f64)
+        .collect();
+    RumpyArray::from_vec_with_shape(truth, arr.shape().to_vec(), DType::bool())
+}
+
+fn not_broadcastable() -> pyo3::PyErr {
+    pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together")
+}
+
 /// Return elements of an array that satisfy a condition.
 #[pyfunction]
 pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
-    let cond = &condition.inner;
+    let cond = &as_mask(&condition.inner);
     let inner = &arr.inner;
 
     // Both must have same total size when flattened
@@ -410,8 +426,7 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
                 let mut dst_idx = 0usize;
                 for i in 0..size {
                     if unsafe { *cond_ptr.add(i) } != 0 {
-                        let val = unsafe { ops.read_f64(src_ptr, (i * inner.itemsize()) as isize) }.unwrap_or(0.0);
-                        unsafe { ops.write_f64(dst_ptr, dst_idx, val); }
+                        unsafe { ops.copy_element(src_ptr, (i * inner.itemsize()) as isize, dst_ptr, dst_idx); }
                         dst_idx += 1;
                     }
                 }
@@ -475,8 +490,7 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
             let mut dst_idx = 0usize;
             for i in 0..size {
                 if unsafe { *(cond_ptr.offset(cond_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { ops.read_f64(src_ptr, src_offsets[i]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, dst_idx as usize, val); }
+                    unsafe { ops.copy_element(src_ptr, src_offsets[i], dst_ptr, dst_idx); }
                     dst_idx += 1;
                 }
             }
@@ -495,8 +509,8 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
 #[pyfunction]
 pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> PyResult<()> {
     let inner = &arr.inner;
-    let mask_arr = &mask.inner;
-    let vals_arr = &vals.inner;
+    let mask_arr = &as_mask(&mask.inner);
+    let vals_arr = &vals.inner.astype(inner.dtype());
 
     if mask_arr.size() != inner.size() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -546,7 +560,16 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
             DTypeKind::Uint8 => place_typed!(u8),
             DTypeKind::Uint16 => place_typed!(u16),
             DTypeKind::Bool => place_typed!(u8),
-            _ => {} // Fall through to generic path
+            _ => {
+                let itemsize = arr_dtype.itemsize();
+                let mut val_idx = 0usize;
+                for i in 0..size {
+                    if unsafe { *mask_ptr.add(i) } != 0 {
+                        unsafe { std::ptr::copy_nonoverlapping(vals_ptr.add(val_idx % vals_size * itemsize), (arr_ptr as *mut u8).add(i * itemsize), itemsize); }
+                        val_idx += 1;
+                    }
+                }
+            }
         }
         return Ok(());
     }
@@ -585,15 +608,12 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
         DTypeKind::Uint16 => place_strided_typed!(u16),
         DTypeKind::Bool => place_strided_typed!(u8),
         _ => {
-            // Complex types fallback
-            let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
+            // Other types: copy the bytes
+            let itemsize = arr_dtype.itemsize();
             let mut val_idx = 0usize;
             for i in 0..size {
                 if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[val_idx % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
+                    unsafe { std::ptr::copy_nonoverlapping(vals_ptr.offset(vals_offsets[val_idx % vals_size]), (arr_ptr as *mut u8).offset(arr_offsets[i]), itemsize); }
                     val_idx += 1;
                 }
             }
@@ -612,8 +632,8 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
 #[pyfunction]
 pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) -> PyResult<()> {
     let inner = &a.inner;
-    let mask_arr = &mask.inner;
-    let vals_arr = &values.inner;
+    let mask_arr = &as_mask(&mask.inner);
+    let vals_arr = &values.inner.astype(inner.dtype());
 
     if mask_arr.size() != inner.size() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -661,7 +681,14 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
             DTypeKind::Uint8 => putmask_typed!(u8),
             DTypeKind::Uint16 => putmask_typed!(u16),
             DTypeKind::Bool => putmask_typed!(u8),
-            _ => {} // Fall through to generic path
+            _ => {
+                let itemsize = arr_dtype.itemsize();
+                for i in 0..size {
+                    if unsafe { *mask_ptr.add(i) } != 0 {
+                        unsafe { std::ptr::copy_nonoverlapping(vals_ptr.add(i % vals_size * itemsize), (arr_ptr as *mut u8).add(i * itemsize), itemsize); }
+                    }
+                }
+            }
         }
         return Ok(());
     }
@@ -698,14 +725,11 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
         DTypeKind::Uint16 => putmask_strided_typed!(u16),
         DTypeKind::Bool => putmask_strided_typed!(u8),
         _ => {
-            // Complex types fallback
-            let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
+            // Other types: copy the bytes
+            let itemsize = arr_dtype.itemsize();
             for i in 0..size {
                 if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[i % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
+                    unsafe { std::ptr::copy_nonoverlapping(vals_ptr.offset(vals_offsets[i % vals_size]), (arr_ptr as *mut u8).offset(arr_offsets[i]), itemsize); }
                 }
             }
         }
@@ -720,11 +744,11 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
 
 /// Return array from choicelist based on conditions.
 #[pyfunction]
-#[pyo3(signature = (condlist, choicelist, default=0.0))]
+#[pyo3(signature = (condlist, choicelist, default=None))]
 pub fn select(
     condlist: Vec<pyo3::PyRef<'_, PyRumpyArray>>,
     choicelist: Vec<pyo3::PyRef<'_, PyRumpyArray>>,
-    default: f64,
+    default: Option<&Bound<'_, pyo3::PyAny>>,
 ) -> PyResult<PyRumpyArray> {
     if condlist.is_empty() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -738,28 +762,46 @@ pub fn select(
         ));
     }
 
-    let shape = condlist[0].inner.shape().to_vec();
-    let size = condlist[0].inner.size();
-    let out_dtype = choicelist[0].inner.dtype();
-
-    let mut result = RumpyArray::full(shape, default, out_dtype.clone());
+    // Conditions and choices broadcast together; the result holds every choice and the default
+    let mut shape = vec![];
+    let mut out_dtype = choicelist[0].inner.dtype();
+    for (cond, choice) in condlist.iter().zip(&choicelist) {
+        shape = crate::array::broadcast_shapes(&shape, cond.inner.shape())
+            .and_then(|shape| crate::array::broadcast_shapes(&shape, choice.inner.shape()))
+            .ok_or_else(not_broadcastable)?;
+        out_dtype = crate::array::promote_dtype(&out_dtype, &choice.inner.dtype());
+    }
+    let default = match default {
+        Some(value) => super::pyarray::scalar_operand(value, &out_dtype)?
+            .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("default must be a number"))?,
+        None => RumpyArray::zeros(vec![], out_dtype.clone()),
+    };
+    let out_dtype = crate::array::promote_dtype(&out_dtype, &default.dtype());
+    let spread = |arr: RumpyArray| arr.broadcast_to(&shape).ok_or_else(not_broadcastable);
+    let condlist = condlist.iter().map(|c| spread(as_mask(&c.inner))).collect::<PyResult<Vec<_>>>()?;
+    let choicelist = choicelist.iter()
+        .map(|c| spread(c.inner.astype(out_dtype.clone())))
+        .collect::<PyResult<Vec<_>>>()?;
+
+    let mut result = spread(default.astype(out_dtype.clone()))?.copy();
+    let size = result.size();
     let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
 
     // Collect offsets
     let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+        .map(|c| c.iter_offsets().collect())
         .collect();
     let choice_offsets: Vec<Vec<isize>> = choicelist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+        .map(|c| c.iter_offsets().collect())
         .collect();
 
     // Collect raw pointers
     let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
+        .map(|c| c.data_ptr())
         .collect();
     let choice_ptrs: Vec<*const u8> = choicelist.iter()
-        .map(|c| c.inner.data_ptr())
+        .map(|c| c.data_ptr())
         .collect();
 
     macro_rules! select_typed {
@@ -798,10 +840,7 @@ pub fn select(
                 for cond_idx in 0..condlist.len() {
                     let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
                     if cond_val != 0 {
-                        let choice = &choicelist[cond_idx].inner;
-                        let choice_dtype = choice.dtype();
-                        let val = unsafe { choice_dtype.ops().read_f64(choice_ptrs[cond_idx], choice_offsets[cond_idx][i]) }.unwrap_or(0.0);
-                        unsafe { dst_ops.write_f64(dst_ptr, i, val); }
+                        unsafe { dst_ops.copy_element(choice_ptrs[cond_idx], choice_offsets[cond_idx][i], dst_ptr, i); }
                         break;
                     }
                 }
@@ -852,13 +891,20 @@ pub fn piecewise(
     let src_offsets: Vec<isize> = inner.iter_offsets().collect();
 
     // Collect condition pointers and offsets
+    let condlist: Vec<RumpyArray> = condlist.iter().map(|c| as_mask(&c.inner)).collect();
     let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
+        .map(|c| c.data_ptr())
         .collect();
     let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+        .map(|c| c.iter_offsets().collect())
         .collect();
 
+    if condlist.iter().any(|c| c.size() != size) {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "conditions and array must have same size"
+        ));
+    }
+
     let mut assigned = vec![false; size];
 
     // Helper macro for writing typed values with dtype dispatch
@@ -905,8 +951,6 @@ pub fn piecewise(
         };
 
         for i in 0..size {
-            if assigned[i] { continue; }
-
             let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
             if cond_val != 0 {
                 let val = constant_val.map_or_else(|| call_func(&func_item, i), Ok)?;
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 3037a1e..13231c3 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -495,13 +495,13 @@ impl PyRumpyArray {
     }
 
     /// Extract a scalar from a size-1 array.
-    fn item(&self) -> PyResult<f64> {
+    fn item(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyValueError::new_err(
                 "can only convert an array of size 1 to a Python scalar",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
+        self.inner.element_to_py(py, &vec![0; self.inner.ndim()])
     }
 
     /// Clip values to a range.
@@ -581,10 +581,10 @@ impl PyRumpyArray {
     /// Take elements from an array along an axis.
     /// If axis is None, the array is flattened before taking.
     #[pyo3(signature = (indices, axis=None))]
-    fn take(&self, indices: &PyRumpyArray, axis: Option<usize>) -> PyResult<Self> {
+    fn take(&self, indices: &PyRumpyArray, axis: Option<isize>) -> PyResult<Self> {
         let (arr, ax) = match axis {
             None => (self.inner.copy().reshape(vec![self.inner.size()]).unwrap(), 0),
-            Some(ax) => (self.inner.clone(), ax),
+            Some(ax) => (self.inner.clone(), crate::python::shape::normalize_axis(ax, self.inner.ndim())?),
         };
         crate::ops::indexing::take(&arr, &indices.inner, Some(ax))
             .map(Self::new)
@@ -594,16 +594,21 @@ impl PyRumpyArray {
     /// Set values at indices (in-place).
     fn put(&mut self, indices: &Bound<'_, PyAny>, values: &Bound<'_, PyAny>) -> PyResult<()> {
         let idx_vec = extract_i64_vec(indices, "indices")?;
-        let val_vec = extract_f64_vec(values, "values")?;
-        crate::ops::indexing::put(&mut self.inner, &idx_vec, &val_vec)
+        let values = crate::python::indexing::values_array(values, &self.inner.dtype())?;
+        crate::ops::indexing::put(&mut self.inner, &idx_vec, &values)
             .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("index out of bounds"))
     }
 
     /// Fill the array with a scalar value (in-place).
-    fn fill(&mut self, value: f64) {
+    fn fill(&mut self, value: &Bound<'_, PyAny>) -> PyResult<()> {
+        if !value.is_instance_of::<pyo3::types::PyFloat>() {
+            // Integers are stored exactly
+            return fill_view(&self.inner, value);
+        }
+        let value: f64 = value.extract()?;
         let size = self.inner.size();
         if size == 0 {
-            return;
+            return Ok(());
         }
 
         // Fast path: contiguous float64 - direct slice fill
@@ -611,7 +616,7 @@ impl PyRumpyArray {
             let ptr = self.inner.data_ptr_mut() as *mut f64;
             let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
             slice.fill(value);
-            return;
+            return Ok(());
         }
 
         // Fast path: other contiguous types
@@ -632,6 +637,7 @@ impl PyRumpyArray {
                 crate::array::increment_indices(&mut indices, &shape);
             }
         }
+        Ok(())
     }
 
     /// Return the array data as a bytes object.
@@ -778,7 +784,8 @@ impl PyRumpyArray {
 
     /// Select elements using a boolean condition array.
     #[pyo3(signature = (condition, axis=None))]
-    fn compress(&self, condition: &Bound<'_, PyAny>, axis: Option<usize>) -> PyResult<Self> {
+    fn compress(&self, condition: &Bound<'_, PyAny>, axis: Option<isize>) -> PyResult<Self> {
+        let axis = axis.map(|ax| crate::python::shape::normalize_axis(ax, self.inner.ndim())).transpose()?;
         // Extract condition as bool vec
         let cond_vec: Vec<bool> = if let Ok(list) = condition.downcast::<PyList>() {
             list.iter().map(|x| x.extract::<bool>()).collect::<PyResult<Vec<_>>>()?
@@ -786,8 +793,7 @@ impl PyRumpyArray {
             let size = arr.inner.size();
             let mut result = Vec::with_capacity(size);
             for offset in arr.inner.iter_offsets() {
-                let val = unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }.unwrap_or(0.0);
-                result.push(val != 0.0);
+                result.push(unsafe { arr.inner.dtype().ops().is_truthy(arr.inner.data_ptr(), offset) });
             }
             result
         } else {
@@ -796,7 +802,7 @@ impl PyRumpyArray {
 
         crate::ops::indexing::compress(&cond_vec, &self.inner, axis)
             .map(Self::new)
-            .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("compress failed"))
+            .ok_or_else(|| pyo3::exceptions::PyIndexError::new_err("condition selects an index out of bounds"))
     }
 
     /// Construct an array from an index array and a set of arrays to choose from.
@@ -976,20 +982,7 @@ fn extract_i64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<i64>> {
         list.iter().map(|x| x.extract::<i64>()).collect()
     } else if let Ok(arr) = obj.extract::<PyRef<'_, PyRumpyArray>>() {
         Ok(arr.inner.iter_offsets()
-            .map(|offset| unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }.unwrap_or(0.0) as i64)
-            .collect())
-    } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(format!("{} must be list or array", name)))
-    }
-}
-
-/// Extract f64 values from a Python list or array.
-fn extract_f64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<f64>> {
-    if let Ok(list) = obj.downcast::<PyList>() {
-        list.iter().map(|x| x.extract::<f64>()).collect()
-    } else if let Ok(arr) = obj.extract::<PyRef<'_, PyRumpyArray>>() {
-        Ok(arr.inner.iter_offsets()
-            .map(|offset| unsafe { arr.inner.dtype().ops().read_f64(arr.inner.data_ptr(), offset) }.unwrap_or(0.0))
+            .map(|offset| unsafe { arr.inner.dtype().ops().read_i64(arr.inner.data_ptr(), offset) }.unwrap_or(0))
             .collect())
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(format!("{} must be list or array", name)))
-- 
2.43.0


From f41fe0fef8d459cd7ea80a943697bba4e960c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 20/30] fix: unravel/ravel_multi_index, triangle indices, bit
 packing, fill_diagonal, ndenumerate and flat: bounds, overflow and exact
 elements

---
 src/ops/indexing.rs       |  31 +++++---
 src/ops/mod.rs            |   4 +
 src/python/indexing.rs    | 154 +++++++++++++++++++++++++-------------
 src/python/pyarray/mod.rs |  16 ++--
 4 files changed, 133 insertions(+), 72 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index f28995f..694ba34 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -691,13 +691,19 @@ pub fn choose(indices: &RumpyArray, choices: &[RumpyArray]) -> Option<RumpyArray
 // Index utility functions (Stream 26)
 // ============================================================================
 
+/// Number of elements of an array of this shape, None if it is not addressable.
+fn checked_size(shape: &[usize]) -> Option<usize> {
+    let size = shape.iter().try_fold(1usize, |acc, &dim| acc.checked_mul(dim))?;
+    (size <= i64::MAX as usize).then_some(size)
+}
+
 /// Convert flat index to multi-dimensional indices.
 ///
 /// If `order` is 'C' (row-major), the last dimension varies fastest.
 /// If `order` is 'F' (column-major), the first dimension varies fastest.
 pub fn unravel_index(indices: &[i64], shape: &[usize], order: char) -> Option<Vec<RumpyArray>> {
     let ndim = shape.len();
-    let size: usize = shape.iter().product();
+    let size = checked_size(shape)?;
     let n = indices.len();
 
     // Validate indices
@@ -725,7 +731,7 @@ pub fn unravel_index(indices: &[i64], shape: &[usize], order: char) -> Option<Ve
     } else {
         // C order: last dim varies fastest
         let mut s = vec![1usize; ndim];
-        for i in (0..ndim - 1).rev() {
+        for i in (0..ndim.saturating_sub(1)).rev() {
             s[i] = s[i + 1] * shape[i + 1];
         }
         s
@@ -769,9 +775,10 @@ pub fn ravel_multi_index(
     order: char,
 ) -> Option<RumpyArray> {
     let ndim = shape.len();
-    if multi_index.len() != ndim {
+    if multi_index.len() != ndim || ndim == 0 {
         return None;
     }
+    checked_size(shape)?;
 
     // All index arrays must have the same length
     let n = multi_index[0].len();
@@ -790,7 +797,7 @@ pub fn ravel_multi_index(
         s
     } else {
         let mut s = vec![1usize; ndim];
-        for i in (0..ndim - 1).rev() {
+        for i in (0..ndim.saturating_sub(1)).rev() {
             s[i] = s[i + 1] * shape[i + 1];
         }
         s
@@ -806,6 +813,9 @@ pub fn ravel_multi_index(
         for d in 0..ndim {
             let mut idx = multi_index[d][i];
             let dim_size = shape[d] as i64;
+            if dim_size == 0 {
+                return None;
+            }
 
             // Handle modes
             match mode {
@@ -856,7 +866,7 @@ pub fn tril_indices(n: usize, k: i64, m: usize) -> (RumpyArray, RumpyArray) {
     let mut cols = Vec::new();
 
     for i in 0..n {
-        let max_col = ((i as i64) + k + 1).min(m as i64).max(0) as usize;
+        let max_col = k.saturating_add(i as i64 + 1).min(m as i64).max(0) as usize;
         for j in 0..max_col {
             rows.push(i as i64);
             cols.push(j as i64);
@@ -881,7 +891,7 @@ pub fn triu_indices(n: usize, k: i64, m: usize) -> (RumpyArray, RumpyArray) {
     let mut cols = Vec::new();
 
     for i in 0..n {
-        let start_col = ((i as i64) + k).max(0) as usize;
+        let start_col = k.saturating_add(i as i64).max(0) as usize;
         for j in start_col..m {
             rows.push(i as i64);
             cols.push(j as i64);
@@ -1075,7 +1085,7 @@ pub fn unpackbits(arr: &RumpyArray, axis: Option<usize>, count: Option<usize>, b
 fn unpackbits_flat(arr: &RumpyArray, count: Option<usize>, big_endian: bool) -> RumpyArray {
     let size = arr.size();
     let full_out_size = size * 8;
-    let out_size = count.unwrap_or(full_out_size).min(full_out_size);
+    let out_size = count.unwrap_or(full_out_size);
 
     let mut result = RumpyArray::zeros(vec![out_size], DType::uint8());
     if out_size == 0 {
@@ -1090,7 +1100,7 @@ fn unpackbits_flat(arr: &RumpyArray, count: Option<usize>, big_endian: bool) ->
     let mut out_idx = 0;
 
     for offset in arr.iter_offsets() {
-        let byte = unsafe { *ptr.add(offset as usize) };
+        let byte = unsafe { *ptr.offset(offset) };
 
         for bit in 0..8 {
             if out_idx >= out_size {
@@ -1121,7 +1131,7 @@ fn unpackbits_axis(arr: &RumpyArray, axis: usize, count: Option<usize>, big_endi
 
     let axis_len = shape[axis];
     let full_out_axis_len = axis_len * 8;
-    let out_axis_len = count.unwrap_or(full_out_axis_len).min(full_out_axis_len);
+    let out_axis_len = count.unwrap_or(full_out_axis_len);
 
     let mut out_shape = shape.to_vec();
     out_shape[axis] = out_axis_len;
@@ -1155,7 +1165,8 @@ fn unpackbits_axis(arr: &RumpyArray, axis: usize, count: Option<usize>, big_endi
             .map(|(&i, &s)| i as isize * s)
             .sum();
 
-        let byte = unsafe { *ptr.add(src_offset as usize) };
+        // Beyond the last byte: zero padding
+        let byte = if byte_idx < axis_len { unsafe { *ptr.offset(src_offset) } } else { 0 };
         let val = if big_endian {
             (byte >> (7 - bit_idx)) & 1
         } else {
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index fbe614a..74f6c27 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -268,6 +268,10 @@ impl RumpyArray {
         let ptr = self.data_ptr();
         let ops = self.dtype.ops();
         match self.dtype.kind() {
+            DTypeKind::Bool => {
+                let val = unsafe { ops.is_truthy(ptr, offset) };
+                Ok(val.into_pyobject(py)?.to_owned().into_any().unbind())
+            }
             DTypeKind::Uint64 => {
                 let val = unsafe { *(ptr.offset(offset) as *const u64) };
                 Ok(val.into_pyobject(py)?.into_any().unbind())
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 594ed55..f63d0a2 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -400,6 +400,7 @@ pub fn unravel_index(
 ) -> PyResult<pyo3::PyObject> {
     // Check if input is scalar
     let is_scalar = indices.extract::<i64>().is_ok();
+    let mut index_shape = None;
 
     // Extract indices as Vec<i64>
     let idx_vec: Vec<i64> = if let Ok(scalar) = indices.extract::<i64>() {
@@ -407,20 +408,15 @@ pub fn unravel_index(
     } else if let Ok(list) = indices.extract::<Vec<i64>>() {
         list
     } else if let Ok(arr) = indices.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        let size = arr.inner.size();
-        let ptr = arr.inner.data_ptr();
-        let dtype = arr.inner.dtype();
-        let ops = dtype.ops();
-        (0..size)
-            .map(|i| unsafe { ops.read_i64(ptr, (i * dtype.itemsize()) as isize) }.unwrap_or(0))
-            .collect()
+        index_shape = Some(arr.inner.shape().to_vec());
+        index_values(&arr.inner)
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
             "indices must be integer, list, or array",
         ));
     };
 
-    let order_char = if order.to_uppercase() == "F" { 'F' } else { 'C' };
+    let order_char = parse_order(order)?;
 
     let result = crate::ops::indexing::unravel_index(&idx_vec, &shape, order_char)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("index out of bounds"))?;
@@ -442,6 +438,10 @@ pub fn unravel_index(
         let tuple = pyo3::types::PyTuple::new(
             py,
             result.into_iter().map(|arr| {
+                let arr = match &index_shape {
+                    Some(shape) => arr.reshape(shape.clone()).unwrap_or(arr),
+                    None => arr,
+                };
                 pyo3::Py::new(py, PyRumpyArray::new(arr)).unwrap()
             }),
         )?;
@@ -449,6 +449,23 @@ pub fn unravel_index(
     }
 }
 
+/// The elements of an index array, in order.
+fn index_values(arr: &RumpyArray) -> Vec<i64> {
+    let dtype = arr.dtype();
+    arr.iter_offsets()
+        .map(|offset| unsafe { dtype.ops().read_i64(arr.data_ptr(), offset) }.unwrap_or(0))
+        .collect()
+}
+
+/// Parse a memory order, 'C' or 'F'.
+fn parse_order(order: &str) -> PyResult<char> {
+    match order {
+        "C" | "c" => Ok('C'),
+        "F" | "f" => Ok('F'),
+        _ => Err(pyo3::exceptions::PyValueError::new_err("only 'C' or 'F' order is permitted")),
+    }
+}
+
 /// Convert a tuple of coordinate arrays to an array of flat indices.
 #[pyfunction]
 #[pyo3(signature = (multi_index, dims, mode="raise", order="C"))]
@@ -458,6 +475,10 @@ pub fn ravel_multi_index(
     mode: &str,
     order: &str,
 ) -> PyResult<PyRumpyArray> {
+    if !matches!(mode, "raise" | "wrap" | "clip") {
+        return Err(pyo3::exceptions::PyValueError::new_err("mode must be one of 'clip', 'raise', or 'wrap'"));
+    }
+    let mut index_shape = None;
     // Extract multi_index as Vec<Vec<i64>>
     let multi_idx: Vec<Vec<i64>> = if let Ok(list) = multi_index.extract::<Vec<Vec<i64>>>() {
         list
@@ -486,15 +507,26 @@ pub fn ravel_multi_index(
                     .collect()
             })
             .collect()
+    } else if let Ok(arrs) = multi_index.extract::<Vec<pyo3::PyRef<'_, PyRumpyArray>>>() {
+        let shape = arrs.first().map(|arr| arr.inner.shape().to_vec()).unwrap_or_default();
+        if arrs.iter().any(|arr| arr.inner.shape() != &shape[..]) {
+            return Err(pyo3::exceptions::PyValueError::new_err("index arrays must have the same shape"));
+        }
+        index_shape = Some(shape);
+        arrs.iter().map(|arr| index_values(&arr.inner)).collect()
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
             "multi_index must be array or list of lists",
         ));
     };
 
-    let order_char = if order.to_uppercase() == "F" { 'F' } else { 'C' };
+    let order_char = parse_order(order)?;
 
     crate::ops::indexing::ravel_multi_index(&multi_idx, &dims, mode, order_char)
+        .and_then(|flat| match index_shape {
+            Some(shape) => flat.reshape(shape),
+            None => Some(flat),
+        })
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("index out of bounds"))
 }
@@ -713,14 +745,15 @@ pub fn packbits(
     a: &PyRumpyArray,
     axis: Option<isize>,
     bitorder: &str,
-) -> PyRumpyArray {
-    let resolved_axis = axis.map(|ax| {
-        if ax < 0 {
-            (a.inner.ndim() as isize + ax) as usize
-        } else {
-            ax as usize
-        }
-    });
+) -> PyResult<PyRumpyArray> {
+    let dtype = a.inner.dtype();
+    if dtype.kind() != crate::array::DTypeKind::Bool && !dtype.ops().is_integer() {
+        return Err(pyo3::exceptions::PyTypeError::new_err(
+            "Expected an input array of integer or boolean data type",
+        ));
+    }
+    check_bitorder(bitorder)?;
+    let resolved_axis = axis.map(|ax| super::shape::normalize_axis(ax, a.inner.ndim())).transpose()?;
 
     // axis=None means flatten first (use default axis)
     let actual_axis = if axis.is_none() {
@@ -729,7 +762,14 @@ pub fn packbits(
         resolved_axis
     };
 
-    PyRumpyArray::new(crate::ops::indexing::packbits(&a.inner, actual_axis, bitorder))
+    Ok(PyRumpyArray::new(crate::ops::indexing::packbits(&a.inner, actual_axis, bitorder)))
+}
+
+fn check_bitorder(bitorder: &str) -> PyResult<()> {
+    match bitorder {
+        "big" | "little" => Ok(()),
+        _ => Err(pyo3::exceptions::PyValueError::new_err("'order' must be either 'little' or 'big'")),
+    }
 }
 
 /// Unpack elements of uint8 array into binary-valued output.
@@ -738,18 +778,27 @@ pub fn packbits(
 pub fn unpackbits(
     a: &PyRumpyArray,
     axis: Option<isize>,
-    count: Option<usize>,
+    count: Option<isize>,
     bitorder: &str,
-) -> PyRumpyArray {
-    let resolved_axis = axis.map(|ax| {
-        if ax < 0 {
-            (a.inner.ndim() as isize + ax) as usize
-        } else {
-            ax as usize
-        }
-    });
+) -> PyResult<PyRumpyArray> {
+    if a.inner.dtype().kind() != crate::array::DTypeKind::Uint8 {
+        return Err(pyo3::exceptions::PyTypeError::new_err(
+            "Expected an input array of unsigned byte data type",
+        ));
+    }
+    check_bitorder(bitorder)?;
+    let resolved_axis = axis.map(|ax| super::shape::normalize_axis(ax, a.inner.ndim())).transpose()?;
+    // A negative count leaves out that many bits at the end
+    let available = 8 * resolved_axis.map_or(a.inner.size(), |ax| a.inner.shape()[ax]) as isize;
+    let count = match count {
+        Some(n) if n < 0 => Some(n.checked_add(available).filter(|&n| n >= 0).ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err(format!("-count {} larger than number of elements", n))
+        })? as usize),
+        Some(n) => Some(n as usize),
+        None => None,
+    };
 
-    PyRumpyArray::new(crate::ops::indexing::unpackbits(&a.inner, resolved_axis, count, bitorder))
+    Ok(PyRumpyArray::new(crate::ops::indexing::unpackbits(&a.inner, resolved_axis, count, bitorder)))
 }
 
 // ============================================================================
@@ -781,12 +830,19 @@ pub fn ix_(_py: Python<'_>, args: &Bound<'_, pyo3::types::PyTuple>) -> PyResult<
             ));
         }
 
+        // A boolean mask selects the positions where it is true
+        let values = if arr.inner.dtype().kind() == crate::array::DTypeKind::Bool {
+            crate::ops::indexing::flatnonzero(&arr.inner)
+        } else {
+            arr.inner.clone()
+        };
+
         // Build the shape: (1, 1, ..., len, ..., 1)
         let mut new_shape = vec![1usize; n];
-        new_shape[i] = arr.inner.size();
+        new_shape[i] = values.size();
 
         // Reshape the array
-        let reshaped = arr.inner.reshape(new_shape).expect("reshape failed");
+        let reshaped = values.reshape(new_shape).expect("reshape failed");
         result.push(PyRumpyArray::new(reshaped));
     }
 
@@ -810,18 +866,15 @@ pub fn fill_diagonal(
         ));
     }
 
-    // Convert val to a RumpyArray to handle all dtypes uniformly
-    let val_arr: RumpyArray = if let Ok(arr) = val.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        // Cast to target dtype if needed
-        if arr.inner.dtype().ops().name() != a.inner.dtype().ops().name() {
-            arr.inner.astype(a.inner.dtype())
-        } else {
-            arr.inner.clone()
-        }
-    } else if let Ok(scalar) = val.extract::<f64>() {
-        RumpyArray::from_vec(vec![scalar], a.inner.dtype().clone())
-    } else if let Ok(list) = val.extract::<Vec<f64>>() {
-        RumpyArray::from_vec(list, a.inner.dtype().clone())
+    if ndim > 2 && shape.iter().any(|&dim| dim != shape[0]) {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "All dimensions of input must be of equal length",
+        ));
+    }
+
+    // Convert val to a contiguous RumpyArray to handle all dtypes uniformly
+    let val_arr: RumpyArray = if let Ok(arr) = values_array(val, &a.inner.dtype()) {
+        arr
     } else {
         // Try extracting as complex (Python complex type)
         if let Ok(real_attr) = val.getattr("real") {
@@ -848,6 +901,9 @@ pub fn fill_diagonal(
     };
 
     let val_size = val_arr.size();
+    if val_size == 0 {
+        return Ok(());
+    }
     let val_ptr = val_arr.data_ptr();
     let val_itemsize = val_arr.dtype().itemsize();
 
@@ -934,23 +990,13 @@ impl NdEnumerate {
         slf
     }
 
-    fn __next__<'py>(mut slf: PyRefMut<'py, Self>) -> Option<(pyo3::PyObject, f64)> {
+    fn __next__<'py>(mut slf: PyRefMut<'py, Self>) -> Option<(pyo3::PyObject, pyo3::PyObject)> {
         if slf.flat_idx >= slf.size {
             return None;
         }
 
         let indices = slf.indices.clone();
-        let ptr = slf.arr.data_ptr();
-        let dtype = slf.arr.dtype();
-        let ops = dtype.ops();
-
-        // Calculate offset from indices
-        let strides = slf.arr.strides();
-        let offset: isize = slf.indices.iter().zip(strides.iter())
-            .map(|(&i, &s)| (i as isize) * s)
-            .sum();
-
-        let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
+        let val = slf.arr.element_to_py(slf.py(), &indices).ok()?;
 
         // Increment indices (clone shape to avoid borrow conflict)
         slf.flat_idx += 1;
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 13231c3..353d028 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1399,34 +1399,34 @@ impl PyFlatIter {
         slf
     }
 
-    fn __next__(&mut self) -> Option<f64> {
+    fn __next__(&mut self, py: Python<'_>) -> PyResult<Option<PyObject>> {
         let size = self.inner.size();
         if self.index >= size {
-            return None;
+            return Ok(None);
         }
 
         // Get element at current flat index
-        let val = self.get_flat_element(self.index);
+        let val = self.get_flat_element(py, self.index)?;
         self.index += 1;
-        Some(val)
+        Ok(Some(val))
     }
 
     fn __len__(&self) -> usize {
         self.inner.size()
     }
 
-    fn __getitem__(&self, index: isize) -> PyResult<f64> {
+    fn __getitem__(&self, py: Python<'_>, index: isize) -> PyResult<PyObject> {
         let size = self.inner.size() as isize;
         let idx = if index < 0 { size + index } else { index };
         if idx < 0 || idx >= size {
             return Err(pyo3::exceptions::PyIndexError::new_err("index out of bounds"));
         }
-        Ok(self.get_flat_element(idx as usize))
+        self.get_flat_element(py, idx as usize)
     }
 }
 
 impl PyFlatIter {
-    fn get_flat_element(&self, flat_idx: usize) -> f64 {
+    fn get_flat_element(&self, py: Python<'_>, flat_idx: usize) -> PyResult<PyObject> {
         let shape = self.inner.shape();
         let ndim = shape.len();
 
@@ -1438,6 +1438,6 @@ impl PyFlatIter {
             remaining /= shape[i];
         }
 
-        self.inner.get_element(&indices)
+        self.inner.element_to_py(py, &indices)
     }
 }
-- 
2.43.0


From cfbbd44a23d34e50e386c683fc81e660581c6f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:26 +0000
Subject: [PATCH 21/30] fix: np.array copies an array it is given

---
 src/python/creation.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index 91b7559..a7eeadd 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -329,11 +329,16 @@ pub fn asarray(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_,
     array_impl(py, obj, dtype)
 }
 
-/// Create an array (alias for asarray).
+/// Create an array (a copy of an existing one).
 #[pyfunction]
 #[pyo3(signature = (obj, dtype=None))]
 pub fn array(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
-    array_impl(py, obj, dtype)
+    let result = array_impl(py, obj, dtype)?;
+    // Unlike asarray, array does not share memory with an array it is given
+    if obj.downcast::<PyRumpyArray>().is_ok() {
+        return Ok(PyRumpyArray::new(result.inner.copy()));
+    }
+    Ok(result)
 }
 
 /// Implementation for array/asarray.
-- 
2.43.0


From ff6a6b192c3f4cac4ce87d6a509c6d4acbb9b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:42 +0000
Subject: [PATCH 22/30] fix: matmul, dot, inner, outer, kron, cross, tensordot,
 vdot and trace work exactly in the common dtype and stay in bounds

---
 src/ops/dot.rs       |  34 +----
 src/ops/inner.rs     |  57 ++------
 src/ops/linalg.rs    | 317 +++++++------------------------------------
 src/ops/matmul.rs    | 163 +++++++++++-----------
 src/ops/outer.rs     |  61 +--------
 src/python/linalg.rs |  48 +++----
 6 files changed, 170 insertions(+), 510 deletions(-)

diff --git a/src/ops/dot.rs b/src/ops/dot.rs
index 47bf4db..8f3e4d5 100644
--- a/src/ops/dot.rs
+++ b/src/ops/dot.rs
@@ -6,38 +6,18 @@
 //! - 1D × 2D or 2D × 1D: vector-matrix product
 
 use crate::array::RumpyArray;
-use crate::ops::matmul::matmul;
+use crate::ops::linalg::tensordot;
+use crate::ops::{map_binary_op, BinaryOp};
 
 /// Dot product with numpy semantics.
 ///
 /// Returns either a scalar (wrapped as 0D array) or an array depending on inputs.
 pub fn dot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     match (a.ndim(), b.ndim()) {
-        (1, 1) => {
-            // Inner product: sum of element-wise products
-            if a.shape()[0] != b.shape()[0] {
-                return None;
-            }
-            let mut sum = 0.0;
-            for i in 0..a.shape()[0] {
-                sum += a.get_element(&[i]) * b.get_element(&[i]);
-            }
-            // Return as 0D array (scalar)
-            Some(RumpyArray::full(vec![], sum, a.dtype()))
-        }
-        (0, _) => {
-            // Scalar × array: element-wise
-            let scalar = a.get_element(&[]);
-            Some(b.scalar_op(scalar, crate::ops::BinaryOp::Mul))
-        }
-        (_, 0) => {
-            // Array × scalar: element-wise
-            let scalar = b.get_element(&[]);
-            Some(a.scalar_op(scalar, crate::ops::BinaryOp::Mul))
-        }
-        _ => {
-            // 2D cases (and higher): use matmul
-            matmul(a, b)
-        }
+        // Scalar × array: element-wise
+        (0, _) | (_, 0) => map_binary_op(a, b, BinaryOp::Mul).ok(),
+        // Sum over the last axis of a and the second-to-last (or only) axis of b
+        (n, 1) => tensordot(a, b, (vec![n - 1], vec![0])),
+        (n, m) => tensordot(a, b, (vec![n - 1], vec![m - 2])),
     }
 }
diff --git a/src/ops/inner.rs b/src/ops/inner.rs
index 6950523..8816af8 100644
--- a/src/ops/inner.rs
+++ b/src/ops/inner.rs
@@ -1,50 +1,8 @@
-//! Inner product gufunc.
-//!
-//! Implements inner product with signature "(n),(n)->()".
+//! Inner product: sum of products over the last axis of both operands.
 
 use crate::array::RumpyArray;
-use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
-
-/// Inner product kernel.
-///
-/// Signature: (n),(n)->()
-pub struct InnerKernel {
-    sig: GufuncSignature,
-}
-
-impl InnerKernel {
-    pub fn new() -> Self {
-        InnerKernel {
-            sig: GufuncSignature::parse("(n),(n)->()").unwrap(),
-        }
-    }
-}
-
-impl GufuncKernel for InnerKernel {
-    fn signature(&self) -> &GufuncSignature {
-        &self.sig
-    }
-
-    fn call(&self, inputs: &[RumpyArray], outputs: &mut [RumpyArray]) {
-        let a = &inputs[0];
-        let b = &inputs[1];
-        let c = &outputs[0];
-
-        let n = a.shape()[0];
-
-        // Inner product: sum_i a[i] * b[i]
-        let mut sum = 0.0;
-        for i in 0..n {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-
-        // Write scalar result
-        let c_ptr = c.data_ptr() as *mut f64;
-        unsafe {
-            *c_ptr = sum;
-        }
-    }
-}
+use crate::ops::linalg::tensordot;
+use crate::ops::{map_binary_op, BinaryOp};
 
 /// Inner product of two arrays.
 ///
@@ -60,14 +18,15 @@ impl GufuncKernel for InnerKernel {
 /// let c = rp.inner(a, b);  // 1*4 + 2*5 + 3*6 = 32
 /// ```
 ///
-/// Broadcasting with loop dimensions:
+/// The remaining axes of both operands are kept:
 /// ```ignore
 /// let a = rp.zeros([3, 4]);  // (3, 4) - 3 vectors of length 4
 /// let b = rp.zeros([4]);     // (4,) - one vector
 /// let c = rp.inner(a, b);    // (3,) - 3 inner products
 /// ```
 pub fn inner(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    let kernel = InnerKernel::new();
-    let mut results = gufunc_call(&kernel, &[a, b])?;
-    results.pop()
+    if a.ndim() == 0 || b.ndim() == 0 {
+        return map_binary_op(a, b, BinaryOp::Mul).ok();
+    }
+    tensordot(a, b, (vec![a.ndim() - 1], vec![b.ndim() - 1]))
 }
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index b68bf9d..b57655d 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -34,7 +34,7 @@ fn copy_to_faer_mat(a: &RumpyArray) -> faer::Mat<f64> {
 }
 
 /// Copy a faer matrix to a new RumpyArray.
-fn faer_to_rumpy(mat: MatRef<'_, f64>) -> RumpyArray {
+pub(crate) fn faer_to_rumpy(mat: MatRef<'_, f64>) -> RumpyArray {
     let (m, n) = (mat.nrows(), mat.ncols());
     let arr = RumpyArray::zeros(vec![m, n], DType::float64());
     for i in 0..m {
@@ -62,16 +62,11 @@ fn faer_col_to_rumpy(col: ColRef<'_, f64>) -> RumpyArray {
 }
 
 /// Compute trace of a 2D matrix (sum of diagonal elements).
-pub fn trace(a: &RumpyArray) -> Option<f64> {
+pub fn trace(a: &RumpyArray) -> Option<RumpyArray> {
     if a.ndim() != 2 {
         return None;
     }
-    let n = a.shape()[0].min(a.shape()[1]);
-    let mut sum = 0.0;
-    for i in 0..n {
-        sum += a.get_element(&[i, i]);
-    }
-    Some(sum)
+    Some(diag(a)?.sum_axis(0))
 }
 
 /// Compute matrix inverse.
@@ -841,67 +836,15 @@ pub fn eig(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
 /// Vector dot product (conjugate first argument for complex).
 /// For 1D arrays: sum(conj(a) * b)
 /// For nD arrays: dot product over last axes (flattened).
-pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<f64> {
+pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     if a.size() != b.size() {
         return None;
     }
-
-    let n = a.size();
-    if n == 0 {
-        return Some(0.0);
-    }
-
-    // Fast path for contiguous float64 arrays using faer's optimized matmul
-    // Compute as row × column: [1,n] @ [n,1] -> [1,1]
-    if a.is_c_contiguous() && b.is_c_contiguous()
-        && a.dtype().kind() == DTypeKind::Float64
-        && b.dtype().kind() == DTypeKind::Float64
-    {
-        unsafe {
-            // Treat 'a' as row vector [1, n]
-            let fa = faer::mat::from_raw_parts::<f64, usize, usize>(
-                a.data_ptr() as *const f64,
-                1, n,  // 1 row, n cols
-                n as isize, 1,  // row_stride (not used), col_stride = 1
-            );
-            // Treat 'b' as column vector [n, 1]
-            let fb = faer::mat::from_raw_parts::<f64, usize, usize>(
-                b.data_ptr() as *const f64,
-                n, 1,  // n rows, 1 col
-                1, 1,  // row_stride = 1, col_stride (not used)
-            );
-            // Result is [1, 1]
-            let mut result = 0.0f64;
-            let mut fc = faer::mat::from_raw_parts_mut::<f64, usize, usize>(
-                &mut result as *mut f64,
-                1, 1,
-                1, 1,
-            );
-            faer::linalg::matmul::matmul(
-                fc.as_mut(),
-                fa.as_ref(),
-                fb.as_ref(),
-                None,
-                1.0,
-                faer::Parallelism::None,
-            );
-            return Some(result);
-        }
-    }
-
-    // General path for non-contiguous or other dtypes
-    let a_ptr = a.data_ptr();
-    let b_ptr = b.data_ptr();
-    let a_dtype = a.dtype();
-    let b_dtype = b.dtype();
-
-    let sum = a.iter_offsets().zip(b.iter_offsets()).fold(0.0, |acc, (a_off, b_off)| {
-        let a_val = unsafe { a_dtype.ops().read_f64(a_ptr, a_off).unwrap_or(0.0) };
-        let b_val = unsafe { b_dtype.ops().read_f64(b_ptr, b_off).unwrap_or(0.0) };
-        acc + a_val * b_val
-    });
-
-    Some(sum)
+    let a_flat = a.reshape(vec![a.size()])?;
+    let b_flat = b.reshape(vec![b.size()])?;
+    let complex = matches!(a.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128);
+    let a_flat = if complex { a_flat.conj() } else { a_flat };
+    crate::ops::inner::inner(&a_flat, &b_flat)
 }
 
 /// Kronecker product of two arrays.
@@ -910,116 +853,22 @@ pub fn kron(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
         return None;
     }
 
-    // Broadcast to same ndim (prepend 1s to smaller)
-    let max_ndim = a.ndim().max(b.ndim());
-    let mut a_shape = vec![1usize; max_ndim];
-    let mut b_shape = vec![1usize; max_ndim];
-
-    for i in 0..a.ndim() {
-        a_shape[max_ndim - a.ndim() + i] = a.shape()[i];
+    // Pad to the same ndim (prepend 1s to smaller), then interleave the axes of a and b:
+    // every product a[i, j, ..] * b[k, l, ..] lands at [i, k, j, l, ..]
+    let ndim = a.ndim().max(b.ndim());
+    let (mut a_shape, mut b_shape, mut out_shape) = (vec![], vec![], vec![]);
+    for i in 0..ndim {
+        let a_len = if i + a.ndim() < ndim { 1 } else { a.shape()[i + a.ndim() - ndim] };
+        let b_len = if i + b.ndim() < ndim { 1 } else { b.shape()[i + b.ndim() - ndim] };
+        a_shape.extend([a_len, 1]);
+        b_shape.extend([1, b_len]);
+        out_shape.push(a_len * b_len);
     }
-    for i in 0..b.ndim() {
-        b_shape[max_ndim - b.ndim() + i] = b.shape()[i];
-    }
-
-    // Result shape is element-wise product
-    let mut out_shape = Vec::with_capacity(max_ndim);
-    for i in 0..max_ndim {
-        out_shape.push(a_shape[i] * b_shape[i]);
-    }
-
-    let result = RumpyArray::zeros(out_shape.clone(), DType::float64());
 
-    // For 2D case (most common)
-    if max_ndim == 2 {
-        let (m, n) = (a_shape[0], a_shape[1]);
-        let (p, q) = (b_shape[0], b_shape[1]);
-        let out_cols = out_shape[1];
-
-        // Fast path for contiguous float64 arrays
-        if a.is_c_contiguous() && b.is_c_contiguous()
-            && a.dtype().kind() == DTypeKind::Float64
-            && b.dtype().kind() == DTypeKind::Float64
-        {
-            let a_ptr = a.data_ptr() as *const f64;
-            let b_ptr = b.data_ptr() as *const f64;
-            let out_ptr = result.data_ptr() as *mut f64;
-
-            for i in 0..m {
-                for j in 0..n {
-                    let a_val = unsafe { *a_ptr.add(i * n + j) };
-                    for k in 0..p {
-                        for l in 0..q {
-                            let b_val = unsafe { *b_ptr.add(k * q + l) };
-                            let out_i = i * p + k;
-                            let out_j = j * q + l;
-                            unsafe {
-                                *out_ptr.add(out_i * out_cols + out_j) = a_val * b_val;
-                            }
-                        }
-                    }
-                }
-            }
-        } else {
-            // General path
-            for i in 0..m {
-                for j in 0..n {
-                    let a_val = a.get_element(&[i, j]);
-                    for k in 0..p {
-                        for l in 0..q {
-                            let b_val = b.get_element(&[k, l]);
-                            let out_i = i * p + k;
-                            let out_j = j * q + l;
-                            unsafe {
-                                let ptr = result.data_ptr().add((out_i * out_cols + out_j) * 8) as *mut f64;
-                                *ptr = a_val * b_val;
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    } else if max_ndim == 1 {
-        // 1D case
-        let m = a_shape[0];
-        let p = b_shape[0];
-
-        // Fast path for contiguous float64
-        if a.is_c_contiguous() && b.is_c_contiguous()
-            && a.dtype().kind() == DTypeKind::Float64
-            && b.dtype().kind() == DTypeKind::Float64
-        {
-            let a_ptr = a.data_ptr() as *const f64;
-            let b_ptr = b.data_ptr() as *const f64;
-            let out_ptr = result.data_ptr() as *mut f64;
-
-            for i in 0..m {
-                let a_val = unsafe { *a_ptr.add(i) };
-                for k in 0..p {
-                    let b_val = unsafe { *b_ptr.add(k) };
-                    unsafe {
-                        *out_ptr.add(i * p + k) = a_val * b_val;
-                    }
-                }
-            }
-        } else {
-            for i in 0..m {
-                let a_val = a.get_element(&[i]);
-                for k in 0..p {
-                    let b_val = b.get_element(&[k]);
-                    unsafe {
-                        let ptr = result.data_ptr().add((i * p + k) * 8) as *mut f64;
-                        *ptr = a_val * b_val;
-                    }
-                }
-            }
-        }
-    } else {
-        // General nD case - not yet implemented
-        return None;
-    }
-
-    Some(result)
+    let product = crate::ops::map_binary_op(
+        &a.reshape(a_shape)?, &b.reshape(b_shape)?, crate::ops::BinaryOp::Mul,
+    ).ok()?;
+    product.reshape(out_shape)
 }
 
 /// Cross product of two 3D vectors.
@@ -1032,22 +881,14 @@ pub fn cross(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
         return None;
     }
 
-    let a0 = a.get_element(&[0]);
-    let a1 = a.get_element(&[1]);
-    let a2 = a.get_element(&[2]);
-    let b0 = b.get_element(&[0]);
-    let b1 = b.get_element(&[1]);
-    let b2 = b.get_element(&[2]);
-
-    let result = RumpyArray::zeros(vec![3], DType::float64());
-    unsafe {
-        let ptr = result.data_ptr() as *mut f64;
-        *ptr = a1 * b2 - a2 * b1;
-        *ptr.add(1) = a2 * b0 - a0 * b2;
-        *ptr.add(2) = a0 * b1 - a1 * b0;
-    }
-
-    Some(result)
+    // cross[i] = a[i+1] * b[i+2] - a[i+2] * b[i+1] (indices modulo 3)
+    use crate::ops::{map_binary_op, BinaryOp};
+    let next = RumpyArray::from_vec(vec![1.0, 2.0, 0.0], DType::int64());
+    let prev = RumpyArray::from_vec(vec![2.0, 0.0, 1.0], DType::int64());
+    let take = crate::ops::indexing::take;
+    let left = map_binary_op(&take(a, &next, Some(0))?, &take(b, &prev, Some(0))?, BinaryOp::Mul).ok()?;
+    let right = map_binary_op(&take(a, &prev, Some(0))?, &take(b, &next, Some(0))?, BinaryOp::Mul).ok()?;
+    map_binary_op(&left, &right, BinaryOp::Sub).ok()
 }
 
 /// Singular values only (no U or Vt).
@@ -1092,12 +933,12 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
         return None; // Must be square
     }
     if size == 0 {
-        return Some(RumpyArray::zeros(vec![0, 0], DType::float64()));
+        return Some(RumpyArray::zeros(vec![0, 0], a.dtype()));
     }
 
     // Handle n == 0: return identity
     if n == 0 {
-        return Some(RumpyArray::eye(size, DType::float64()));
+        return Some(RumpyArray::eye(size, a.dtype()));
     }
 
     // For negative powers, compute inverse first
@@ -1109,7 +950,7 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
     let exp = n.unsigned_abs();
 
     // Binary exponentiation for efficiency
-    let mut result = RumpyArray::eye(size, DType::float64());
+    let mut result = RumpyArray::eye(size, base.dtype());
     let mut current = base;
     let mut remaining = exp;
 
@@ -1261,85 +1102,21 @@ pub fn tensordot(a: &RumpyArray, b: &RumpyArray, axes: (Vec<usize>, Vec<usize>))
         }
     }
 
-    // Simple case: tensordot with axes=1 (matmul-like)
-    if a.ndim() == 2 && b.ndim() == 2 && a_axes == vec![1] && b_axes == vec![0] {
-        // This is just matrix multiplication
-        return crate::ops::matmul::matmul(a, b);
-    }
-
-    // General case: compute result shape and contract
-    // Result shape = [a_shape without a_axes] + [b_shape without b_axes]
-    let mut result_shape = Vec::new();
-    for i in 0..a.ndim() {
-        if !a_axes.contains(&i) {
-            result_shape.push(a.shape()[i]);
-        }
-    }
-    for i in 0..b.ndim() {
-        if !b_axes.contains(&i) {
-            result_shape.push(b.shape()[i]);
-        }
-    }
-
-    if result_shape.is_empty() {
-        result_shape.push(1); // Scalar result
-    }
-
-    let result = RumpyArray::zeros(result_shape.clone(), DType::float64());
-
-    // For now, only support up to 2D arrays
-    if a.ndim() > 2 || b.ndim() > 2 {
+    if (1..a_axes.len()).any(|i| a_axes[..i].contains(&a_axes[i]) || b_axes[..i].contains(&b_axes[i])) {
         return None;
     }
 
-    // 1D cases
-    if a.ndim() == 1 && b.ndim() == 1 {
-        // Inner product
-        let mut sum = 0.0;
-        for i in 0..a.shape()[0] {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-        unsafe {
-            let ptr = result.data_ptr() as *mut f64;
-            *ptr = sum;
-        }
-        return Some(result);
-    }
-
-    // 2D x 1D or 1D x 2D
-    if a.ndim() == 2 && b.ndim() == 1 {
-        // axes=([1], [0]) means matrix-vector product
-        if a_axes == vec![1] && b_axes == vec![0] {
-            for i in 0..a.shape()[0] {
-                let mut sum = 0.0;
-                for j in 0..a.shape()[1] {
-                    sum += a.get_element(&[i, j]) * b.get_element(&[j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
-
-    if a.ndim() == 1 && b.ndim() == 2 {
-        // axes=([0], [0]) means vector-matrix product
-        if a_axes == vec![0] && b_axes == vec![0] {
-            for j in 0..b.shape()[1] {
-                let mut sum = 0.0;
-                for i in 0..a.shape()[0] {
-                    sum += a.get_element(&[i]) * b.get_element(&[i, j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(j * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
+    // Bring the contracted axes last in a and first in b, and multiply as matrices
+    let a_free: Vec<usize> = (0..a.ndim()).filter(|i| !a_axes.contains(i)).collect();
+    let b_free: Vec<usize> = (0..b.ndim()).filter(|i| !b_axes.contains(i)).collect();
+    let m: usize = a_free.iter().map(|&i| a.shape()[i]).product();
+    let k: usize = a_axes.iter().map(|&i| a.shape()[i]).product();
+    let n: usize = b_free.iter().map(|&i| b.shape()[i]).product();
+    let result_shape: Vec<usize> = a_free.iter().map(|&i| a.shape()[i])
+        .chain(b_free.iter().map(|&i| b.shape()[i]))
+        .collect();
 
-    None // Unsupported case
+    let a_mat = a.transpose_axes(&[a_free, a_axes].concat()).reshape(vec![m, k])?;
+    let b_mat = b.transpose_axes(&[b_axes, b_free].concat()).reshape(vec![k, n])?;
+    crate::ops::matmul::matmul(&a_mat, &b_mat)?.reshape(result_shape)
 }
diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index aa195ff..748f5e8 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -3,7 +3,7 @@
 //! Implements batched matrix multiplication with signature "(m,n),(n,p)->(m,p)".
 //! Uses BLAS (Accelerate on macOS) when available, falls back to faer.
 
-use crate::array::{DType, RumpyArray};
+use crate::array::{promote_dtype, DType, RumpyArray};
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
 
 // Link BLAS when accelerate feature is enabled
@@ -124,6 +124,11 @@ impl GufuncKernel for MatmulKernel {
             }
         }
 
+        // An empty sum is zero, and the output already is
+        if m == 0 || n == 0 || p == 0 {
+            return;
+        }
+
         // Fallback to faer for float/complex, generic loop for integers
         if dtype == DType::float64() {
             matmul_faer_f64(a, b, c, m, n, p);
@@ -137,6 +142,18 @@ impl GufuncKernel for MatmulKernel {
             matmul_generic::<i64>(a, b, c, m, n, p);
         } else if dtype == DType::int32() {
             matmul_generic::<i32>(a, b, c, m, n, p);
+        } else if dtype == DType::int16() {
+            matmul_generic::<i16>(a, b, c, m, n, p);
+        } else if dtype == DType::int8() {
+            matmul_generic::<i8>(a, b, c, m, n, p);
+        } else if dtype == DType::uint64() {
+            matmul_generic::<u64>(a, b, c, m, n, p);
+        } else if dtype == DType::uint32() {
+            matmul_generic::<u32>(a, b, c, m, n, p);
+        } else if dtype == DType::uint16() {
+            matmul_generic::<u16>(a, b, c, m, n, p);
+        } else if dtype == DType::uint8() {
+            matmul_generic::<u8>(a, b, c, m, n, p);
         } else if dtype == DType::bool() {
             matmul_bool(a, b, c, m, n, p);
         } else {
@@ -147,24 +164,17 @@ impl GufuncKernel for MatmulKernel {
 
 /// Bool matmul: C[i,j] = any(A[i,k] AND B[k,j] for all k)
 fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
-    let a_row_stride = a.strides()[0] as usize;
-    let a_col_stride = a.strides()[1] as usize;
-    let b_row_stride = b.strides()[0] as usize;
-    let b_col_stride = b.strides()[1] as usize;
-    let c_row_stride = c.strides()[0] as usize;
-    let c_col_stride = c.strides()[1] as usize;
-
     let a_ptr = a.data_ptr();
     let b_ptr = b.data_ptr();
     let c_ptr = c.data_ptr() as *mut u8;
 
-    for i in 0..m {
-        for j in 0..p {
+    for i in 0..m as isize {
+        for j in 0..p as isize {
             let mut result = false;
-            for k in 0..n {
+            for k in 0..n as isize {
                 unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride) != 0;
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride) != 0;
+                    let a_val = *a_ptr.offset(i * a.strides()[0] + k * a.strides()[1]) != 0;
+                    let b_val = *b_ptr.offset(k * b.strides()[0] + j * b.strides()[1]) != 0;
                     if a_val && b_val {
                         result = true;
                         break; // Short-circuit: any true is enough
@@ -172,41 +182,46 @@ fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usiz
                 }
             }
             unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = result as u8;
+                *c_ptr.offset(i * c.strides()[0] + j * c.strides()[1]) = result as u8;
             }
         }
     }
 }
 
+/// Integer multiply-accumulate that wraps around on overflow.
+trait MulAcc: Copy + Default {
+    fn mul_acc(self, x: Self, y: Self) -> Self;
+}
+
+macro_rules! impl_mul_acc {
+    ($($t:ty),*) => {
+        $(impl MulAcc for $t {
+            fn mul_acc(self, x: Self, y: Self) -> Self {
+                self.wrapping_add(x.wrapping_mul(y))
+            }
+        })*
+    };
+}
+impl_mul_acc!(i8, i16, i32, i64, u8, u16, u32, u64);
+
 /// Generic matmul for integer types (no BLAS/faer support)
-fn matmul_generic<T>(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize)
-where
-    T: Copy + Default + std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
-{
-    let elem_size = std::mem::size_of::<T>() as isize;
-    let a_row_stride = (a.strides()[0] / elem_size) as usize;
-    let a_col_stride = (a.strides()[1] / elem_size) as usize;
-    let b_row_stride = (b.strides()[0] / elem_size) as usize;
-    let b_col_stride = (b.strides()[1] / elem_size) as usize;
-    let c_row_stride = (c.strides()[0] / elem_size) as usize;
-    let c_col_stride = (c.strides()[1] / elem_size) as usize;
-
-    let a_ptr = a.data_ptr() as *const T;
-    let b_ptr = b.data_ptr() as *const T;
-    let c_ptr = c.data_ptr() as *mut T;
-
-    for i in 0..m {
-        for j in 0..p {
+fn matmul_generic<T: MulAcc>(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
+    let a_ptr = a.data_ptr();
+    let b_ptr = b.data_ptr();
+    let c_ptr = c.data_ptr() as *mut u8;
+
+    for i in 0..m as isize {
+        for j in 0..p as isize {
             let mut sum = T::default();
-            for k in 0..n {
+            for k in 0..n as isize {
                 unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride);
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride);
-                    sum = sum + a_val * b_val;
+                    let a_val = *(a_ptr.offset(i * a.strides()[0] + k * a.strides()[1]) as *const T);
+                    let b_val = *(b_ptr.offset(k * b.strides()[0] + j * b.strides()[1]) as *const T);
+                    sum = sum.mul_acc(a_val, b_val);
                 }
             }
             unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = sum;
+                *(c_ptr.offset(i * c.strides()[0] + j * c.strides()[1]) as *mut T) = sum;
             }
         }
     }
@@ -355,58 +370,38 @@ fn matmul_faer_c64(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n:
 /// let c = rp.matmul(a, b);      // (3, 2, 5)
 /// ```
 pub fn matmul(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    // Handle 1D inputs by expanding dims
-    let (a_expanded, b_expanded, squeeze_result) = expand_for_matmul(a, b)?;
+    // Both operands are multiplied in their common dtype
+    let dtype = promote_dtype(&a.dtype(), &b.dtype());
+    if dtype == DType::float16() {
+        let single = DType::float32();
+        return Some(matmul(&a.astype(single.clone()), &b.astype(single))?.astype(dtype));
+    }
+    if a.dtype() != dtype || b.dtype() != dtype {
+        return matmul(&a.astype(dtype.clone()), &b.astype(dtype));
+    }
+    if a.ndim() == 0 || b.ndim() == 0 {
+        return None;
+    }
+
+    // NumPy semantics for 1D inputs: (n,) counts as (1, n) on the left and as (n, 1)
+    // on the right, and that axis is dropped from the result
+    let a_expanded = if a.ndim() == 1 { a.expand_dims(0)? } else { a.clone() };
+    let b_expanded = if b.ndim() == 1 { b.expand_dims(1)? } else { b.clone() };
 
     let kernel = MatmulKernel::new();
     let mut results = gufunc_call(&kernel, &[&a_expanded, &b_expanded])?;
-
     let result = results.pop()?;
 
-    // Squeeze result if we expanded inputs
-    if squeeze_result {
-        Some(result.squeeze())
-    } else {
-        Some(result)
+    let mut shape = result.shape().to_vec();
+    if b.ndim() == 1 {
+        shape.pop();
     }
-}
-
-/// Expand 1D arrays for matmul and return whether to squeeze result.
-///
-/// NumPy semantics:
-/// - 1D @ 1D -> scalar (inner product)
-/// - 1D @ 2D -> 1D (prepend 1 to first, squeeze first dim of result)
-/// - 2D @ 1D -> 1D (append 1 to second, squeeze last dim of result)
-fn expand_for_matmul(
-    a: &RumpyArray,
-    b: &RumpyArray,
-) -> Option<(RumpyArray, RumpyArray, bool)> {
-    let a_ndim = a.ndim();
-    let b_ndim = b.ndim();
-
-    match (a_ndim, b_ndim) {
-        (1, 1) => {
-            // Inner product: (n,) @ (n,) -> ()
-            // Expand to (1, n) @ (n, 1) -> (1, 1), then squeeze
-            let a_exp = a.expand_dims(0)?;
-            let b_exp = b.expand_dims(1)?;
-            Some((a_exp, b_exp, true))
-        }
-        (1, _) => {
-            // (n,) @ (..., n, p) -> (..., p)
-            // Expand to (1, n) @ (..., n, p) -> (..., 1, p), squeeze axis -2
-            let a_exp = a.expand_dims(0)?;
-            Some((a_exp, b.clone(), true))
-        }
-        (_, 1) => {
-            // (..., m, n) @ (n,) -> (..., m)
-            // Expand to (..., m, n) @ (n, 1) -> (..., m, 1), squeeze last
-            let b_exp = b.expand_dims(1)?;
-            Some((a.clone(), b_exp, true))
-        }
-        _ => {
-            // Standard 2D+ case
-            Some((a.clone(), b.clone(), false))
-        }
+    if a.ndim() == 1 {
+        shape.remove(result.ndim() - 2);
+    }
+    if shape.len() == result.ndim() {
+        Some(result)
+    } else {
+        result.reshape(shape)
     }
 }
diff --git a/src/ops/outer.rs b/src/ops/outer.rs
index 0c31abe..04328e0 100644
--- a/src/ops/outer.rs
+++ b/src/ops/outer.rs
@@ -1,56 +1,7 @@
-//! Outer product gufunc.
-//!
-//! Implements outer product with signature "(m),(n)->(m,n)".
+//! Outer product.
 
 use crate::array::RumpyArray;
-use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
-
-/// Outer product kernel.
-///
-/// Signature: (m),(n)->(m,n)
-pub struct OuterKernel {
-    sig: GufuncSignature,
-}
-
-impl OuterKernel {
-    pub fn new() -> Self {
-        OuterKernel {
-            sig: GufuncSignature::parse("(m),(n)->(m,n)").unwrap(),
-        }
-    }
-}
-
-impl GufuncKernel for OuterKernel {
-    fn signature(&self) -> &GufuncSignature {
-        &self.sig
-    }
-
-    fn call(&self, inputs: &[RumpyArray], outputs: &mut [RumpyArray]) {
-        let a = &inputs[0];
-        let b = &inputs[1];
-        let c = &outputs[0];
-
-        let m = a.shape()[0];
-        let n = b.shape()[0];
-
-        let c_ptr = c.data_ptr() as *mut u8;
-        let c_stride_0 = c.strides()[0];
-        let c_stride_1 = c.strides()[1];
-
-        // Outer product: c[i,j] = a[i] * b[j]
-        for i in 0..m {
-            let ai = a.get_element(&[i]);
-            for j in 0..n {
-                let bj = b.get_element(&[j]);
-                let byte_offset = (i as isize) * c_stride_0 + (j as isize) * c_stride_1;
-                unsafe {
-                    let dst = c_ptr.offset(byte_offset);
-                    *(dst as *mut f64) = ai * bj;
-                }
-            }
-        }
-    }
-}
+use crate::ops::{map_binary_op, BinaryOp};
 
 /// Outer product of two vectors.
 ///
@@ -70,10 +21,8 @@ impl GufuncKernel for OuterKernel {
 /// ```
 pub fn outer(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     // NumPy flattens inputs; we follow that behavior
-    let a_flat = a.reshape(vec![a.size()])?;
-    let b_flat = b.reshape(vec![b.size()])?;
+    let a_flat = a.reshape(vec![a.size(), 1])?;
+    let b_flat = b.reshape(vec![1, b.size()])?;
 
-    let kernel = OuterKernel::new();
-    let mut results = gufunc_call(&kernel, &[&a_flat, &b_flat])?;
-    results.pop()
+    map_binary_op(&a_flat, &b_flat, BinaryOp::Mul).ok()
 }
diff --git a/src/python/linalg.rs b/src/python/linalg.rs
index 70f6769..1dbc1ed 100644
--- a/src/python/linalg.rs
+++ b/src/python/linalg.rs
@@ -45,9 +45,10 @@ pub fn outer(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 
 /// Compute trace of a matrix (sum of diagonal elements).
 #[pyfunction]
-pub fn trace(a: &PyRumpyArray) -> PyResult<f64> {
-    linalg_ops::trace(&a.inner)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("trace requires 2D array"))
+pub fn trace(py: Python<'_>, a: &PyRumpyArray) -> PyResult<pyo3::PyObject> {
+    let sum = linalg_ops::trace(&a.inner)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("trace requires 2D array"))?;
+    sum.element_to_py(py, &vec![0; sum.ndim()])
 }
 
 /// Extract diagonal or construct diagonal matrix.
@@ -60,9 +61,10 @@ pub fn diag(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 
 /// Vector dot product (flattens arrays then computes inner product).
 #[pyfunction]
-pub fn vdot(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<f64> {
-    linalg_ops::vdot(&a.inner, &b.inner)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("vdot: arrays must have same total size"))
+pub fn vdot(py: Python<'_>, a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<pyo3::PyObject> {
+    let sum = linalg_ops::vdot(&a.inner, &b.inner)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("vdot: arrays must have same total size"))?;
+    sum.element_to_py(py, &[])
 }
 
 /// Kronecker product of two arrays.
@@ -81,6 +83,15 @@ pub fn cross(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("cross: requires 1D arrays of length 3"))
 }
 
+/// The last n axes of a and the first n axes of b.
+fn tensordot_axes(a: &PyRumpyArray, b: &PyRumpyArray, n: usize) -> PyResult<(Vec<usize>, Vec<usize>)> {
+    let ndim = a.inner.ndim();
+    if n > ndim || n > b.inner.ndim() {
+        return Err(pyo3::exceptions::PyValueError::new_err("tensordot: more axes than dimensions"));
+    }
+    Ok(((ndim - n..ndim).collect(), (0..n).collect()))
+}
+
 /// Tensor dot product over specified axes.
 #[pyfunction]
 #[pyo3(signature = (a, b, axes=None))]
@@ -89,20 +100,12 @@ pub fn tensordot(a: &PyRumpyArray, b: &PyRumpyArray, axes: Option<&Bound<'_, pyo
     let (a_axes, b_axes) = if let Some(axes) = axes {
         if let Ok(n) = axes.extract::<usize>() {
             // axes=n means last n axes of a and first n axes of b
-            let a_axes: Vec<usize> = (a.inner.ndim().saturating_sub(n)..a.inner.ndim()).collect();
-            let b_axes: Vec<usize> = (0..n).collect();
-            (a_axes, b_axes)
-        } else if let Ok((ax_a, ax_b)) = axes.extract::<(Vec<usize>, Vec<usize>)>() {
-            (ax_a, ax_b)
-        } else if let Ok((ax_a, ax_b)) = axes.extract::<(Vec<i64>, Vec<i64>)>() {
-            // Handle negative indices
-            let a_axes: Vec<usize> = ax_a.into_iter()
-                .map(|x| if x < 0 { (a.inner.ndim() as i64 + x) as usize } else { x as usize })
-                .collect();
-            let b_axes: Vec<usize> = ax_b.into_iter()
-                .map(|x| if x < 0 { (b.inner.ndim() as i64 + x) as usize } else { x as usize })
-                .collect();
-            (a_axes, b_axes)
+            tensordot_axes(a, b, n)?
+        } else if let Ok((ax_a, ax_b)) = axes.extract::<(Vec<isize>, Vec<isize>)>() {
+            let normalize = |axes: Vec<isize>, ndim: usize| -> PyResult<Vec<usize>> {
+                axes.into_iter().map(|x| super::shape::normalize_axis(x, ndim)).collect()
+            };
+            (normalize(ax_a, a.inner.ndim())?, normalize(ax_b, b.inner.ndim())?)
         } else {
             return Err(pyo3::exceptions::PyValueError::new_err(
                 "axes must be integer or tuple of two lists"
@@ -110,10 +113,7 @@ pub fn tensordot(a: &PyRumpyArray, b: &PyRumpyArray, axes: Option<&Bound<'_, pyo
         }
     } else {
         // Default: axes=2
-        let n = 2;
-        let a_axes: Vec<usize> = (a.inner.ndim().saturating_sub(n)..a.inner.ndim()).collect();
-        let b_axes: Vec<usize> = (0..n).collect();
-        (a_axes, b_axes)
+        tensordot_axes(a, b, 2)?
     };
 
     linalg_ops::tensordot(&a.inner, &b.inner, (a_axes, b_axes))
-- 
2.43.0


From a88567b14c2080b30a6da4c847d15e34d9dc3708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 23/30] fix: einsum sums exactly in the result dtype, with
 repeated, batch and empty indices

---
 src/ops/einsum.rs | 616 ++++++++--------------------------------------
 1 file changed, 106 insertions(+), 510 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 3cbf600..06a1433 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -154,8 +154,11 @@ pub fn validate_subscript(
         }
     }
 
-    // Validate output indices exist in inputs
-    for &c in &parsed.output {
+    // Validate output indices exist in inputs, once each
+    for (i, &c) in parsed.output.iter().enumerate() {
+        if parsed.output[..i].contains(&c) {
+            return Err(format!("Output index '{}' appears more than once", c));
+        }
         if !dim_map.contains_key(&c) {
             return Err(format!(
                 "Output index '{}' not found in any input subscript",
@@ -174,7 +177,7 @@ pub fn compute_output_shape(parsed: &ParsedSubscript, dim_map: &HashMap<char, us
 
 /// Core einsum execution.
 ///
-/// This uses a general n-dimensional iteration approach.
+/// Operands are converted to the common dtype first; every step then works in that dtype.
 pub fn einsum(
     subscript: &str,
     operands: &[&RumpyArray],
@@ -184,74 +187,25 @@ pub fn einsum(
     let dim_map = validate_subscript(&parsed, &shapes)?;
     let output_shape = compute_output_shape(&parsed, &dim_map);
 
-    // Try optimized paths for common patterns (these preserve dtype properly)
-    if let Some(result) = try_optimized_path(&parsed, operands, &dim_map) {
-        return Ok(result);
-    }
-
     // Compute output dtype using NumPy-compatible promotion rules
     let out_dtype = compute_einsum_dtype(operands);
+    let converted: Vec<RumpyArray> = operands.iter()
+        .map(|a| if a.dtype() == out_dtype { (*a).clone() } else { a.astype(out_dtype.clone()) })
+        .collect();
+    let operands: Vec<&RumpyArray> = converted.iter().collect();
 
-    // Create output array
-    let out_size: usize = output_shape.iter().product();
-    let result = if output_shape.is_empty() {
-        // Scalar result
-        RumpyArray::zeros(vec![1], out_dtype.clone())
-    } else {
-        RumpyArray::zeros(output_shape.clone(), out_dtype.clone())
-    };
-
-    // Handle empty result
-    if out_size == 0 {
+    // Try optimized paths for common patterns (these preserve dtype properly)
+    if let Some(result) = try_optimized_path(&parsed, &operands, &dim_map) {
         return Ok(result);
     }
 
-    // Find contraction indices (appear in inputs but not output)
-    let output_set: HashSet<char> = parsed.output.iter().copied().collect();
-    let mut contraction_indices: Vec<char> = dim_map
-        .keys()
-        .filter(|c| !output_set.contains(c))
-        .copied()
-        .collect();
-    contraction_indices.sort(); // For deterministic order
-
-    // Compute strides for each index in output
-    let output_strides = compute_strides(&output_shape);
-
-    // Execute based on number of operands and complexity
-    match operands.len() {
-        1 => einsum_single(
-            &parsed,
-            operands[0],
-            &result,
-            &dim_map,
-            &contraction_indices,
-        ),
-        2 => einsum_binary(
-            &parsed,
-            operands[0],
-            operands[1],
-            &result,
-            &dim_map,
-            &contraction_indices,
-            &output_strides,
-        ),
-        _ => einsum_multi(
-            &parsed,
-            operands,
-            &result,
-            &dim_map,
-            &contraction_indices,
-            &output_strides,
-        ),
+    // Execute based on number of operands
+    let result = match operands.len() {
+        1 => einsum_single(&parsed, operands[0], &dim_map),
+        2 => einsum_binary(&parsed, operands[0], operands[1], &dim_map),
+        _ => einsum_multi(&parsed, &operands),
     }?;
-
-    // Handle scalar output
-    if output_shape.is_empty() {
-        result.reshape(vec![]).ok_or_else(|| "Failed to reshape to scalar".to_string())
-    } else {
-        Ok(result)
-    }
+    result.reshape(output_shape).ok_or_else(|| "Failed to reshape result".to_string())
 }
 
 /// Try optimized paths for common einsum patterns.
@@ -284,30 +238,11 @@ fn try_single_operand_optimized(parsed: &ParsedSubscript, a: &RumpyArray) -> Opt
         return Some(a.transpose_axes(&perm));
     }
 
-    // Check for trace: ii-> (repeated index, scalar output)
-    if in_sub.len() == 2 && in_sub[0] == in_sub[1] && out_sub.is_empty() {
-        // trace() returns f64, create scalar with input dtype
-        let trace_val = a.trace();
-        return Some(RumpyArray::full(vec![], trace_val, a.dtype().clone()));
-    }
-
     // Check for diagonal: ii->i (repeated index, vector output) - returns view with same dtype
     if in_sub.len() == 2 && in_sub[0] == in_sub[1] && out_sub.len() == 1 && out_sub[0] == in_sub[0] {
         return Some(a.diagonal());
     }
 
-    // Check for sum over axis: ij->i or ij->j (sum_axis preserves dtype)
-    if in_sub.len() == 2 && in_set.len() == 2 && out_sub.len() == 1 {
-        let sum_axis = if out_sub[0] == in_sub[0] { 1 } else { 0 };
-        return Some(a.sum_axis(sum_axis));
-    }
-
-    // Check for total sum: ij-> (sum all elements) - sum() returns f64, use input dtype
-    if !in_sub.is_empty() && in_set.len() == in_sub.len() && out_sub.is_empty() {
-        let sum_val = a.sum();
-        return Some(RumpyArray::full(vec![], sum_val, a.dtype().clone()));
-    }
-
     None
 }
 
@@ -342,438 +277,112 @@ fn try_binary_optimized(parsed: &ParsedSubscript, a: &RumpyArray, b: &RumpyArray
     None
 }
 
-/// Compute C-contiguous strides for a shape.
-fn compute_strides(shape: &[usize]) -> Vec<usize> {
-    let mut strides = vec![1; shape.len()];
-    for i in (0..shape.len().saturating_sub(1)).rev() {
-        strides[i] = strides[i + 1] * shape[i + 1];
-    }
-    strides
-}
-
-/// Single-operand einsum (trace, diagonal, transpose, sum, etc.)
-fn einsum_single(
-    parsed: &ParsedSubscript,
-    a: &RumpyArray,
-    result: &RumpyArray,
-    dim_map: &HashMap<char, usize>,
-    contraction_indices: &[char],
-) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let out_sub = &parsed.output;
-
-    // Find which output index corresponds to which a index
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
+/// View of `a` (subscripts `sub`) with one axis per index in `order`: repeated indices
+/// become diagonals, indices `a` doesn't have become broadcast axes.
+fn align(a: &RumpyArray, sub: &[char], order: &[char], dim_map: &HashMap<char, usize>) -> RumpyArray {
+    let shape: Vec<usize> = order.iter().map(|c| dim_map[c]).collect();
+    let strides: Vec<isize> = order.iter()
+        .map(|c| sub.iter().zip(a.strides()).filter(|(ac, _)| *ac == c).map(|(_, &s)| s).sum())
         .collect();
-
-    // Find contraction index positions in a (may have multiple for repeated indices)
-    let contract_in_a: Vec<(char, usize)> = contraction_indices.iter()
-        .flat_map(|&c| {
-            a_sub.iter().enumerate()
-                .filter(move |(_, ac)| **ac == c)
-                .map(move |(pos, _)| (c, pos))
-        })
-        .collect();
-
-    // Compute dimensions
-    let out_dims: Vec<usize> = out_sub.iter().map(|c| dim_map[c]).collect();
-    let contract_dims: Vec<usize> = contraction_indices.iter().map(|c| dim_map[c]).collect();
-    let out_shape = if out_dims.is_empty() { vec![1] } else { out_dims.clone() };
-    let out_strides = compute_strides(&out_shape);
-    let contract_size: usize = contract_dims.iter().product();
-    let out_size: usize = out_shape.iter().product();
-
-    // Check for repeated indices (diagonal/trace)
-    let has_repeated_in_a = {
-        let mut seen: HashSet<char> = HashSet::new();
-        a_sub.iter().any(|c| !seen.insert(*c))
-    };
-
-    let a_strides = a.strides();
-    let a_ptr = a.data_ptr();
-    let out_ptr = result.data_ptr();
-    let a_dtype = a.dtype();
-
-    // Iterate over output positions
-    for out_flat in 0..out_size {
-        // Decode output position to multi-index
-        let mut out_idx = vec![0usize; out_shape.len()];
-        let mut rem = out_flat;
-        for i in 0..out_shape.len() {
-            out_idx[i] = rem / out_strides[i];
-            rem %= out_strides[i];
-        }
-
-        // Sum over contraction indices
-        let mut sum = 0.0f64;
-
-        if contraction_indices.is_empty() {
-            // No contraction, just copy/transpose
-            // Build mapping from output index position to output value
-            let mut out_val_map: HashMap<char, usize> = HashMap::new();
-            for (i, &c) in out_sub.iter().enumerate() {
-                out_val_map.insert(c, out_idx[i]);
-            }
-
-            // Set all positions in a_idx that correspond to output indices
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (pos, &c) in a_sub.iter().enumerate() {
-                if let Some(&val) = out_val_map.get(&c) {
-                    a_idx[pos] = val;
-                }
-            }
-
-            let a_offset = compute_offset(&a_idx, a_strides);
-            let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
-            sum = val;
-        } else {
-            // Iterate over contraction indices
-            for c_flat in 0..contract_size {
-                // Decode contraction position
-                let mut c_idx = vec![0usize; contract_dims.len()];
-                let mut c_rem = c_flat;
-                for i in (0..contract_dims.len()).rev() {
-                    c_idx[i] = c_rem % contract_dims[i];
-                    c_rem /= contract_dims[i];
-                }
-
-                // Build full a index
-                let mut a_idx = vec![0usize; a_sub.len()];
-                for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                    if let Some(a_pos) = maybe_a_pos {
-                        a_idx[a_pos] = out_idx[i];
-                    }
-                }
-                // Map contraction index to contraction dimension and then to position
-                let mut c_idx_map: HashMap<char, usize> = HashMap::new();
-                for (ci, &c) in contraction_indices.iter().enumerate() {
-                    c_idx_map.insert(c, c_idx[ci]);
-                }
-                for &(c, a_pos) in &contract_in_a {
-                    if let Some(&idx) = c_idx_map.get(&c) {
-                        a_idx[a_pos] = idx;
-                    }
-                }
-
-                // Handle repeated indices
-                if has_repeated_in_a {
-                    let mut idx_vals: HashMap<char, usize> = HashMap::new();
-                    let mut valid = true;
-                    for (pos, &c) in a_sub.iter().enumerate() {
-                        if let Some(&existing) = idx_vals.get(&c) {
-                            if a_idx[pos] != existing {
-                                valid = false;
-                                break;
-                            }
-                        } else {
-                            idx_vals.insert(c, a_idx[pos]);
-                        }
-                    }
-                    if !valid {
-                        continue;
-                    }
-                }
-
-                let a_offset = compute_offset(&a_idx, a_strides);
-                let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
-                sum += val;
-            }
-        }
-
-        // Write result using dtype-aware method
-        let out_dtype = result.dtype();
-        unsafe {
-            out_dtype.ops().write_f64(out_ptr as *mut u8, out_flat, sum);
-        }
-    }
-
-    Ok(())
+    a.view_with(0, shape, strides)
 }
 
-fn compute_offset(idx: &[usize], strides: &[isize]) -> isize {
-    idx.iter()
-        .zip(strides.iter())
-        .map(|(&i, &s)| (i as isize) * s)
-        .sum()
-}
-
-/// Check if binary contraction can use BLAS (no repeated indices within operands).
-fn can_use_blas(a_sub: &[char], b_sub: &[char]) -> bool {
-    // Check no repeated indices within a
-    let mut a_seen: HashSet<char> = HashSet::new();
-    for &c in a_sub {
-        if !a_seen.insert(c) {
-            return false;
-        }
-    }
-    // Check no repeated indices within b
-    let mut b_seen: HashSet<char> = HashSet::new();
-    for &c in b_sub {
-        if !b_seen.insert(c) {
-            return false;
-        }
-    }
-    true
-}
-
-/// Binary einsum with BLAS optimization.
-///
-/// For contractions without repeated indices, we can convert to matmul:
-/// 1. Permute A so free indices come first, contracted indices last
-/// 2. Reshape A to 2D: (product of free, product of contracted)
-/// 3. Permute B so contracted indices come first, free indices last
-/// 4. Reshape B to 2D: (product of contracted, product of free)
-/// 5. Matmul A @ B → (A_free_prod, B_free_prod)
-/// 6. Reshape to output shape and permute if needed
-fn einsum_binary(
-    parsed: &ParsedSubscript,
+/// Sum `a` (subscripts `sub`) over every index not in `keep`; returns an array with one
+/// axis per index in `keep`.
+fn sum_except(
     a: &RumpyArray,
-    b: &RumpyArray,
-    result: &RumpyArray,
+    sub: &[char],
+    keep: &[char],
     dim_map: &HashMap<char, usize>,
-    contraction_indices: &[char],
-    _output_strides: &[usize],
-) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let b_sub = &parsed.inputs[1];
-    let out_sub = &parsed.output;
-
-    // Try BLAS path for simple contractions
-    if can_use_blas(a_sub, b_sub) && !contraction_indices.is_empty() {
-        if let Some(blas_result) = try_blas_contraction(a, b, a_sub, b_sub, out_sub, dim_map, contraction_indices) {
-            // Copy result (dtype-aware)
-            let out_ptr = result.data_ptr() as *mut u8;
-            let blas_ptr = blas_result.data_ptr();
-            let itemsize = result.dtype().itemsize();
-            let size = result.size() * itemsize;
-            unsafe {
-                std::ptr::copy_nonoverlapping(blas_ptr, out_ptr, size);
-            }
-            return Ok(());
+) -> Result<RumpyArray, String> {
+    let mut summed: Vec<char> = Vec::new();
+    for &c in sub {
+        if !keep.contains(&c) && !summed.contains(&c) {
+            summed.push(c);
         }
     }
-
-    // Fall back to element-wise implementation
-    einsum_binary_elementwise(parsed, a, b, result, dim_map, contraction_indices)
+    let order: Vec<char> = keep.iter().chain(summed.iter()).copied().collect();
+    let view = align(a, sub, &order, dim_map);
+    if summed.is_empty() {
+        return Ok(view);
+    }
+    let kept: Vec<usize> = keep.iter().map(|c| dim_map[c]).collect();
+    let kept_size: usize = kept.iter().product();
+    let summed_size: usize = summed.iter().map(|c| dim_map[c]).product();
+    let fail = || "Failed to reshape operand".to_string();
+    view.reshape(vec![kept_size, summed_size]).ok_or_else(fail)?
+        .sum_axis(1)
+        .astype(a.dtype())
+        .reshape(kept).ok_or_else(fail)
 }
 
-/// Try to compute binary contraction using BLAS (matmul).
-fn try_blas_contraction(
+/// Single-operand einsum (trace, diagonal, transpose, sum, etc.)
+fn einsum_single(
+    parsed: &ParsedSubscript,
     a: &RumpyArray,
-    b: &RumpyArray,
-    a_sub: &[char],
-    b_sub: &[char],
-    out_sub: &[char],
     dim_map: &HashMap<char, usize>,
-    contraction_indices: &[char],
-) -> Option<RumpyArray> {
-    let contract_set: HashSet<char> = contraction_indices.iter().copied().collect();
-
-    // Identify free indices for A (in A but not contracted)
-    let a_free: Vec<char> = a_sub.iter().filter(|c| !contract_set.contains(c)).copied().collect();
-    let a_contract: Vec<char> = a_sub.iter().filter(|c| contract_set.contains(c)).copied().collect();
-
-    // Identify free indices for B (in B but not contracted)
-    let b_free: Vec<char> = b_sub.iter().filter(|c| !contract_set.contains(c)).copied().collect();
-
-    // A matrix product covers neither batch indices (kept and in both operands) nor
-    // indices summed over in one operand only
-    if a_free.iter().any(|c| b_free.contains(c))
-        || contraction_indices.iter().any(|c| !a_sub.contains(c) || !b_sub.contains(c))
-    {
-        return None;
-    }
-    // Contracted indices in the same order for both operands
-    let b_contract: Vec<char> = a_contract.clone();
-
-    // Compute dimensions
-    let a_free_dims: Vec<usize> = a_free.iter().map(|c| dim_map[c]).collect();
-    let a_contract_dims: Vec<usize> = a_contract.iter().map(|c| dim_map[c]).collect();
-    let b_free_dims: Vec<usize> = b_free.iter().map(|c| dim_map[c]).collect();
-    let b_contract_dims: Vec<usize> = b_contract.iter().map(|c| dim_map[c]).collect();
-
-    let a_free_prod: usize = a_free_dims.iter().product::<usize>().max(1);
-    let a_contract_prod: usize = a_contract_dims.iter().product::<usize>().max(1);
-    let b_free_prod: usize = b_free_dims.iter().product::<usize>().max(1);
-    let b_contract_prod: usize = b_contract_dims.iter().product::<usize>().max(1);
-
-    // Contract dimensions must match
-    if a_contract_prod != b_contract_prod {
-        return None;
-    }
-
-    // Build permutation for A: free indices first, contracted last
-    let a_perm: Vec<usize> = a_free.iter()
-        .chain(a_contract.iter())
-        .map(|c| a_sub.iter().position(|x| x == c).unwrap())
-        .collect();
-
-    // Build permutation for B: contracted first, free last
-    let b_perm: Vec<usize> = b_contract.iter()
-        .chain(b_free.iter())
-        .map(|c| b_sub.iter().position(|x| x == c).unwrap())
-        .collect();
-
-    // Permute and reshape A to (a_free_prod, a_contract_prod)
-    let a_permuted = if a_perm.iter().enumerate().all(|(i, &p)| i == p) {
-        a.clone()
-    } else {
-        a.transpose_axes(&a_perm)
-    };
-    let a_2d = a_permuted.reshape(vec![a_free_prod, a_contract_prod])?;
-
-    // Permute and reshape B to (b_contract_prod, b_free_prod)
-    let b_permuted = if b_perm.iter().enumerate().all(|(i, &p)| i == p) {
-        b.clone()
-    } else {
-        b.transpose_axes(&b_perm)
-    };
-    let b_2d = b_permuted.reshape(vec![b_contract_prod, b_free_prod])?;
-
-    // Matmul: (a_free_prod, contract_prod) @ (contract_prod, b_free_prod) → (a_free_prod, b_free_prod)
-    // matmul uses dtype promotion internally
-    let matmul_result = crate::ops::matmul::matmul(&a_2d, &b_2d)?;
-
-    // Build intermediate shape: a_free_dims + b_free_dims
-    let mut inter_shape: Vec<usize> = a_free_dims.clone();
-    inter_shape.extend(&b_free_dims);
-
-    // Handle scalar output
-    if inter_shape.is_empty() {
-        return Some(matmul_result);
-    }
-
-    let reshaped = matmul_result.reshape(inter_shape.clone())?;
-
-    // Check if output order matches (a_free, b_free)
-    let inter_indices: Vec<char> = a_free.iter().chain(b_free.iter()).copied().collect();
-
-    if inter_indices == out_sub {
-        // Perfect match, no permutation needed
-        Some(reshaped)
-    } else {
-        // Need to permute to match output order
-        let out_perm: Vec<usize> = out_sub.iter()
-            .map(|c| inter_indices.iter().position(|x| x == c))
-            .collect::<Option<Vec<_>>>()?;
-        Some(reshaped.transpose_axes(&out_perm).copy())
-    }
+) -> Result<RumpyArray, String> {
+    sum_except(a, &parsed.inputs[0], &parsed.output, dim_map)
 }
 
-/// Element-wise binary einsum (fallback for complex cases).
-fn einsum_binary_elementwise(
+/// Binary einsum.
+///
+/// Indices of one operand that appear nowhere else are summed first. What is left is an
+/// elementwise product (nothing contracted) or a batched matrix product.
+fn einsum_binary(
     parsed: &ParsedSubscript,
     a: &RumpyArray,
     b: &RumpyArray,
-    result: &RumpyArray,
     dim_map: &HashMap<char, usize>,
-    contraction_indices: &[char],
-) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let b_sub = &parsed.inputs[1];
-    let out_sub = &parsed.output;
-
-    // Compute dimensions
-    let out_dims: Vec<usize> = out_sub.iter().map(|c| dim_map[c]).collect();
-    let contract_dims: Vec<usize> = contraction_indices.iter().map(|c| dim_map[c]).collect();
-    let out_shape = if out_dims.is_empty() { vec![1] } else { out_dims.clone() };
-    let out_strides_local = compute_strides(&out_shape);
-    let contract_size: usize = contract_dims.iter().product();
-    let out_size: usize = out_shape.iter().product();
-
-    // Build index mappings
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let out_to_b: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-    let contract_in_a: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let contract_in_b: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-
-    let a_strides = a.strides();
-    let b_strides = b.strides();
-    let a_dtype = a.dtype();
-    let b_dtype = b.dtype();
-
-    let a_ptr = a.data_ptr();
-    let b_ptr = b.data_ptr();
-    let out_ptr = result.data_ptr();
-
-    // Iterate over output positions
-    for out_flat in 0..out_size {
-        // Decode output position
-        let mut out_idx = vec![0usize; out_shape.len()];
-        let mut rem = out_flat;
-        for i in 0..out_shape.len() {
-            out_idx[i] = rem / out_strides_local[i];
-            rem %= out_strides_local[i];
-        }
-
-        // Sum over contraction indices
-        let mut sum = 0.0f64;
-
-        let contract_iters = if contract_size == 0 { 1 } else { contract_size };
-
-        for c_flat in 0..contract_iters {
-            // Decode contraction position
-            let mut c_idx = vec![0usize; contract_dims.len()];
-            if !contract_dims.is_empty() {
-                let mut c_rem = c_flat;
-                for i in (0..contract_dims.len()).rev() {
-                    c_idx[i] = c_rem % contract_dims[i];
-                    c_rem /= contract_dims[i];
-                }
-            }
-
-            // Build a index
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                if let Some(a_pos) = maybe_a_pos {
-                    a_idx[a_pos] = out_idx[i];
-                }
-            }
-            for (ci, &a_pos) in contract_in_a.iter().enumerate() {
-                a_idx[a_pos] = c_idx[ci];
-            }
-
-            // Build b index
-            let mut b_idx = vec![0usize; b_sub.len()];
-            for (i, &maybe_b_pos) in out_to_b.iter().enumerate() {
-                if let Some(b_pos) = maybe_b_pos {
-                    b_idx[b_pos] = out_idx[i];
-                }
-            }
-            for (ci, &b_pos) in contract_in_b.iter().enumerate() {
-                b_idx[b_pos] = c_idx[ci];
-            }
-
-            let a_offset = compute_offset(&a_idx, a_strides);
-            let b_offset = compute_offset(&b_idx, b_strides);
-
-            let a_val: f64 = unsafe {
-                a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0)
-            };
-            let b_val: f64 = unsafe {
-                b_dtype.ops().read_f64(b_ptr, b_offset).unwrap_or(0.0)
-            };
-
-            sum += a_val * b_val;
-        }
-
-        // Write result using dtype-aware method
-        let out_dtype = result.dtype();
-        unsafe {
-            out_dtype.ops().write_f64(out_ptr as *mut u8, out_flat, sum);
+) -> Result<RumpyArray, String> {
+    let (a_sub, b_sub, out_sub) = (&parsed.inputs[0], &parsed.inputs[1], &parsed.output);
+
+    // Classify the indices
+    let batch: Vec<char> = out_sub.iter().copied()
+        .filter(|c| a_sub.contains(c) && b_sub.contains(c)).collect();
+    let a_free: Vec<char> = out_sub.iter().copied().filter(|c| !b_sub.contains(c)).collect();
+    let b_free: Vec<char> = out_sub.iter().copied().filter(|c| !a_sub.contains(c)).collect();
+    let mut contract: Vec<char> = Vec::new();
+    for &c in a_sub {
+        if b_sub.contains(&c) && !out_sub.contains(&c) && !contract.contains(&c) {
+            contract.push(c);
         }
     }
 
-    Ok(())
+    let a_order: Vec<char> = [&batch[..], &a_free, &contract].concat();
+    let b_order: Vec<char> = [&batch[..], &contract, &b_free].concat();
+    let a = sum_except(a, a_sub, &a_order, dim_map)?;
+    let b = sum_except(b, b_sub, &b_order, dim_map)?;
+
+    if contract.is_empty() {
+        return align(&a, &a_order, out_sub, dim_map)
+            .binary_op(&align(&b, &b_order, out_sub, dim_map), crate::ops::BinaryOp::Mul)
+            .map_err(|_| "Failed to multiply operands".to_string());
+    }
+
+    // (batch, a_free, contract) @ (batch, contract, b_free) -> (batch, a_free, b_free)
+    let size = |indices: &[char]| -> usize { indices.iter().map(|c| dim_map[c]).product() };
+    let (mut a_shape, mut b_shape) = (Vec::new(), Vec::new());
+    if !batch.is_empty() {
+        a_shape.push(size(&batch));
+        b_shape.push(size(&batch));
+    }
+    a_shape.extend([size(&a_free), size(&contract)]);
+    b_shape.extend([size(&contract), size(&b_free)]);
+    let fail = || "Failed to contract operands".to_string();
+    let a = a.reshape(a_shape).ok_or_else(fail)?;
+    let b = b.reshape(b_shape).ok_or_else(fail)?;
+    let product = crate::ops::matmul::matmul(&a, &b).ok_or_else(fail)?;
+
+    // Back to one axis per index, in output order
+    let inter: Vec<char> = [&batch[..], &a_free, &b_free].concat();
+    let product = product
+        .reshape(inter.iter().map(|c| dim_map[c]).collect())
+        .ok_or_else(fail)?;
+    let perm: Vec<usize> = out_sub.iter()
+        .map(|c| inter.iter().position(|x| x == c).unwrap())
+        .collect();
+    Ok(product.transpose_axes(&perm).copy())
 }
 
 /// Multi-operand einsum (3+ operands).
@@ -783,11 +392,7 @@ fn einsum_binary_elementwise(
 fn einsum_multi(
     parsed: &ParsedSubscript,
     operands: &[&RumpyArray],
-    result: &RumpyArray,
-    _dim_map: &HashMap<char, usize>,
-    _contraction_indices: &[char],
-    _output_strides: &[usize],
-) -> Result<(), String> {
+) -> Result<RumpyArray, String> {
     if operands.len() < 2 {
         return Err("Multi-operand einsum requires at least 2 operands".to_string());
     }
@@ -870,16 +475,7 @@ fn einsum_multi(
         current_sub = out_indices;
     }
 
-    // Copy result to output array (dtype-aware)
-    let out_ptr = result.data_ptr() as *mut u8;
-    let cur_ptr = current.data_ptr();
-    let itemsize = result.dtype().itemsize();
-    let size = result.size() * itemsize;
-    unsafe {
-        std::ptr::copy_nonoverlapping(cur_ptr, out_ptr, size);
-    }
-
-    Ok(())
+    Ok(current)
 }
 
 /// Compute optimal contraction path.
-- 
2.43.0


From f016e6d9d1ccc04e71892ac92e3cc9e4471936f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:56 +0000
Subject: [PATCH 24/30] fix: linalg.solve no longer writes float64 results into
 a buffer of the dtype of a

---
 src/ops/solve.rs | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/src/ops/solve.rs b/src/ops/solve.rs
index f128578..970157c 100644
--- a/src/ops/solve.rs
+++ b/src/ops/solve.rs
@@ -2,7 +2,7 @@
 //!
 //! Solves Ax = b for x using LU decomposition with partial pivoting.
 
-use crate::array::RumpyArray;
+use crate::array::{DType, RumpyArray};
 use faer::prelude::SpSolver;
 
 /// Solve linear system Ax = b.
@@ -51,25 +51,17 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
     let plu = fa.partial_piv_lu();
     let fx = plu.solve(&fb);
 
-    // Copy result to output
-    let result = RumpyArray::zeros(vec![n, m], a.dtype());
-    let result_ptr = result.data_ptr() as *mut u8;
-    let r_stride_0 = result.strides()[0];
-    let r_stride_1 = result.strides()[1];
-
-    for i in 0..n {
-        for j in 0..m {
-            let byte_offset = (i as isize) * r_stride_0 + (j as isize) * r_stride_1;
-            unsafe {
-                let dst = result_ptr.offset(byte_offset);
-                *(dst as *mut f64) = fx[(i, j)];
-            }
-        }
-    }
+    // Copy result to output; the arithmetic is float64, single precision is kept
+    let result = crate::ops::linalg::faer_to_rumpy(fx.as_ref());
+    let result = if a.dtype() == DType::float32() && b.dtype() == DType::float32() {
+        result.astype(DType::float32())
+    } else {
+        result
+    };
 
-    // Squeeze back to 1D if input was 1D
+    // Back to 1D if input was 1D
     if squeeze {
-        Some(result.squeeze())
+        result.reshape(vec![n])
     } else {
         Some(result)
     }
-- 
2.43.0


From a65dc31f8ed711c3100b07acc4062576b47c9aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 25/30] fix: gufunc loop dimensions of operands with different
 numbers of them align from the right

---
 src/ops/gufunc/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ops/gufunc/mod.rs b/src/ops/gufunc/mod.rs
index 83721a8..b860d3e 100644
--- a/src/ops/gufunc/mod.rs
+++ b/src/ops/gufunc/mod.rs
@@ -66,7 +66,11 @@ pub fn gufunc_call<K: GufuncKernel>(
         let input_cores: Vec<RumpyArray> = inputs
             .iter()
             .enumerate()
-            .map(|(i, arr)| arr.gufunc_subarray(&loop_indices, dims.input_loop_ndims[i]))
+            .map(|(i, arr)| {
+                // Loop dimensions are broadcast from the right
+                let loop_ndim = dims.input_loop_ndims[i];
+                arr.gufunc_subarray(&loop_indices[loop_indices.len() - loop_ndim..], loop_ndim)
+            })
             .collect();
 
         // Extract output core sub-arrays
-- 
2.43.0


From e75e46b8bfc8154dc5ebcc50b73929684e6aaf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:19 +0000
Subject: [PATCH 26/30] fix: item assignment stores integers and complex
 numbers exactly or raises OverflowError

---
 src/python/pyarray/mod.rs | 49 +++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 353d028..67b9483 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1059,27 +1059,44 @@ fn expand_ellipsis<'py>(tuple: &Bound<'py, PyTuple>, ndim: usize) -> PyResult<Ve
 /// Convert an assigned value (scalar or array) to an array of the target dtype.
 /// Always a copy, so that assigning from an overlapping view is safe.
 fn assigned_value(value: &Bound<'_, PyAny>, dtype: DType) -> PyResult<RumpyArray> {
-    use crate::array::DTypeKind;
+    use crate::array::dtype::DTypeKind;
 
-    if dtype.kind() == DTypeKind::Int64 {
-        // Exact, not through f64
-        if let Ok(val) = value.extract::<i64>() {
-            return Ok(RumpyArray::from_vec_i64_with_shape(vec![val], vec![], dtype));
+    if let Ok(src) = value.extract::<PyRef<'_, PyRumpyArray>>() {
+        return Ok(src.inner.astype(dtype));
+    }
+    if let Some(scalar) = scalar_array(value, &dtype)? {
+        let cast = scalar.astype(dtype.clone());
+        // An integer is stored exactly or not at all
+        if crate::ops::ufunc::is_integer_kind(&dtype.kind())
+            && (value.is_instance_of::<pyo3::types::PyInt>()
+                || crate::ops::ufunc::is_integer_kind(&scalar.dtype().kind()))
+            && !crate::ops::array_equal(&cast, &scalar)
+        {
+            return Err(integer_out_of_bounds(&dtype));
         }
+        return Ok(cast);
     }
-    if let Ok(src) = value.extract::<PyRef<'_, PyRumpyArray>>() {
-        Ok(src.inner.astype(dtype))
-    } else if let Ok(val) = value.extract::<f64>() {
-        Ok(RumpyArray::full(vec![], val, dtype))
-    } else {
-        Err(pyo3::exceptions::PyTypeError::new_err(
-            "value must be a number or array",
-        ))
+    if matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+        if let Ok((re, im)) = complex_parts(value) {
+            return Ok(RumpyArray::full_complex(vec![], re, im, dtype));
+        }
     }
+    Err(pyo3::exceptions::PyTypeError::new_err("value must be a number or array"))
+}
+
+/// Real and imaginary part of a Python number.
+pub(crate) fn complex_parts(value: &Bound<'_, PyAny>) -> PyResult<(f64, f64)> {
+    Ok((value.getattr("real")?.extract()?, value.getattr("imag")?.extract()?))
+}
+
+pub(crate) fn integer_out_of_bounds(dtype: &DType) -> PyErr {
+    pyo3::exceptions::PyOverflowError::new_err(format!(
+        "Python integer out of bounds for {}", dtype.ops().name()
+    ))
 }
 
 /// Assign a scalar or (broadcast) array value to every element of a view.
-fn fill_view(view: &RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
+pub(crate) fn fill_view(view: &RumpyArray, value: &Bound<'_, PyAny>) -> PyResult<()> {
     let mut src = assigned_value(value, view.dtype())?;
     // Extra leading axes of length 1 don't matter
     while src.ndim() > view.ndim() && src.shape()[0] == 1 {
@@ -1191,9 +1208,7 @@ pub(crate) fn scalar_operand(other: &Bound<'_, PyAny>, dtype: &DType) -> PyResul
     if crate::ops::ufunc::is_integer_kind(&dtype.kind())
         && !crate::ops::array_equal(&cast, &scalar)
     {
-        return Err(pyo3::exceptions::PyOverflowError::new_err(format!(
-            "Python integer out of bounds for {}", dtype.ops().name()
-        )));
+        return Err(integer_out_of_bounds(dtype));
     }
     Ok(Some(cast))
 }
-- 
2.43.0


From 7d1c24461efd15dd3153767717857b2386720f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:19 +0000
Subject: [PATCH 27/30] fix: creation functions are exact for 64-bit integers
 and refuse sizes, ranges and values they cannot represent

---
 src/array/constructors.rs     |  7 ++--
 src/array/dtype/complex128.rs |  4 +++
 src/array/dtype/complex64.rs  |  4 +++
 src/array/manipulation.rs     | 10 +++---
 src/python/creation.rs        | 61 ++++++++++++++++++++++++++++++++---
 5 files changed, 74 insertions(+), 12 deletions(-)

diff --git a/src/array/constructors.rs b/src/array/constructors.rs
index 2607fc3..9476885 100644
--- a/src/array/constructors.rs
+++ b/src/array/constructors.rs
@@ -10,8 +10,9 @@ use super::{compute_c_strides, RumpyArray};
 impl RumpyArray {
     /// Create a new array filled with zeros.
     pub fn zeros(shape: Vec<usize>, dtype: DType) -> Self {
-        let size: usize = shape.iter().product();
-        let nbytes = size * dtype.itemsize();
+        let nbytes = shape.iter()
+            .try_fold(dtype.itemsize(), |bytes, &dim| bytes.checked_mul(dim))
+            .expect("array is too big");
         let buffer = Arc::new(ArrayBuffer::new(nbytes));
         let strides = compute_c_strides(&shape, dtype.itemsize());
 
@@ -154,10 +155,12 @@ impl RumpyArray {
 
         // step = (stop - start) / (num - 1) for num > 1, else 0
         let step = if num > 1 { (stop - start) / (num - 1) as f64 } else { 0.0 };
+        let is_integer = crate::ops::ufunc::is_integer_kind(&arr.dtype.kind());
 
         for i in 0..num {
             // the last point is exactly stop
             let val = if i > 0 && i == num - 1 { stop } else { start + (i as f64) * step };
+            let val = if is_integer { val.floor() } else { val };
             unsafe { ops.write_f64(ptr, i, val); }
         }
         arr
diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index 74b22b6..c633fd5 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -408,6 +408,10 @@ impl DTypeOps for Complex128Ops {
         true
     }
 
+    unsafe fn write_i64(&self, ptr: *mut u8, idx: usize, val: i64) -> bool {
+        self.write_complex(ptr, idx, val as f64, 0.0)
+    }
+
     unsafe fn read_f64(&self, _ptr: *const u8, _byte_offset: isize) -> Option<f64> {
         // Complex can't be represented as single f64
         None
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 2a6e6b5..f4f9b0a 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -405,6 +405,10 @@ impl DTypeOps for Complex64Ops {
         true
     }
 
+    unsafe fn write_i64(&self, ptr: *mut u8, idx: usize, val: i64) -> bool {
+        self.write_complex(ptr, idx, val as f64, 0.0)
+    }
+
     unsafe fn read_f64(&self, _ptr: *const u8, _byte_offset: isize) -> Option<f64> {
         // Complex can't be represented as single f64
         None
diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 4ba4e0f..47d1a77 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -553,7 +553,7 @@ pub fn tri(n: usize, m: usize, k: isize, dtype: DType) -> RumpyArray {
     for i in 0..n {
         for j in 0..m {
             // Element is 1 if j <= i + k
-            if (j as isize) <= (i as isize) + k {
+            if (j as isize) <= (i as isize).saturating_add(k) {
                 let idx = i * m + j;
                 unsafe { ops.write_one(ptr, idx); }
             }
@@ -588,11 +588,11 @@ fn extract_triangle(arr: &RumpyArray, k: isize, lower: bool) -> Option<RumpyArra
             // Calculate range of columns to copy for this row
             let (start_col, end_col) = if lower {
                 // Lower triangle: copy columns 0..min(i+k+1, m)
-                let end = ((i as isize + k + 1).max(0) as usize).min(m);
+                let end = ((i as isize).saturating_add(k).saturating_add(1).max(0) as usize).min(m);
                 (0, end)
             } else {
                 // Upper triangle: copy columns max(i+k, 0)..m
-                let start = ((i as isize + k).max(0) as usize).min(m);
+                let start = ((i as isize).saturating_add(k).max(0) as usize).min(m);
                 (start, m)
             };
 
@@ -613,9 +613,9 @@ fn extract_triangle(arr: &RumpyArray, k: isize, lower: bool) -> Option<RumpyArra
     for i in 0..n {
         for j in 0..m {
             let include = if lower {
-                (j as isize) <= (i as isize) + k
+                (j as isize) <= (i as isize).saturating_add(k)
             } else {
-                (j as isize) >= (i as isize) + k
+                (j as isize) >= (i as isize).saturating_add(k)
             };
             if include {
                 let offset = arr.byte_offset_for(&[i, j]);
diff --git a/src/python/creation.rs b/src/python/creation.rs
index a7eeadd..abfbc92 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -4,6 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::PyList;
 
 use crate::array::{increment_indices, DType, RumpyArray};
+use super::pyarray::{complex_parts, fill_view, integer_out_of_bounds, scalar_array};
 use super::{parse_dtype, parse_dtype_any, parse_shape, PyRumpyArray};
 
 /// Helper to parse optional dtype argument.
@@ -14,12 +15,23 @@ fn resolve_dtype(dtype: Option<&Bound<'_, PyAny>>, default: &str) -> PyResult<DT
     }
 }
 
+/// Check that an array of this shape and dtype is addressable.
+fn check_size(shape: &[usize], dtype: &DType) -> PyResult<()> {
+    shape.iter()
+        .filter(|&&dim| dim != 0)
+        .try_fold(dtype.itemsize().max(1), |bytes, &dim| bytes.checked_mul(dim))
+        .filter(|&bytes| bytes <= isize::MAX as usize)
+        .map(|_| ())
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("array is too big"))
+}
+
 /// Create an array filled with zeros.
 #[pyfunction]
 #[pyo3(signature = (shape, dtype=None))]
 pub fn zeros(shape: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = parse_shape(shape)?;
     let dtype = resolve_dtype(dtype, "float64")?;
+    check_size(&shape, &dtype)?;
     Ok(PyRumpyArray::new(RumpyArray::zeros(shape, dtype)))
 }
 
@@ -29,6 +41,7 @@ pub fn zeros(shape: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyRe
 pub fn ones(shape: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = parse_shape(shape)?;
     let dtype = resolve_dtype(dtype, "float64")?;
+    check_size(&shape, &dtype)?;
     Ok(PyRumpyArray::new(RumpyArray::ones(shape, dtype)))
 }
 
@@ -54,6 +67,8 @@ pub fn arange(
         if step == 0 {
             return Err(zero_step());
         }
+        let n = ((stop as i128 - start as i128) / step as i128).max(0) as usize;
+        check_size(&[n], &DType::complex128())?;
         return Ok(PyRumpyArray::new(RumpyArray::arange_i64(start, stop, step, dtype)));
     }
 
@@ -73,6 +88,7 @@ pub fn arange(
     if !((stop - start) / step).is_finite() {
         return Err(pyo3::exceptions::PyValueError::new_err("arange: cannot compute length"));
     }
+    check_size(&[((stop - start) / step).max(0.0) as usize], &dtype)?;
     Ok(PyRumpyArray::new(RumpyArray::arange(start, stop, step, dtype)))
 }
 
@@ -86,6 +102,7 @@ pub fn linspace(
     dtype: Option<&Bound<'_, PyAny>>,
 ) -> PyResult<PyRumpyArray> {
     let dtype = resolve_dtype(dtype, "float64")?;
+    check_size(&[num], &dtype)?;
     Ok(PyRumpyArray::new(RumpyArray::linspace(start, stop, num, dtype)))
 }
 
@@ -94,16 +111,41 @@ pub fn linspace(
 #[pyo3(signature = (n, dtype=None))]
 pub fn eye(n: usize, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let dtype = resolve_dtype(dtype, "float64")?;
+    check_size(&[n, n], &dtype)?;
     Ok(PyRumpyArray::new(RumpyArray::eye(n, dtype)))
 }
 
 /// Create array filled with given value.
 #[pyfunction]
 #[pyo3(signature = (shape, fill_value, dtype=None))]
-pub fn full(shape: &Bound<'_, PyAny>, fill_value: f64, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
+pub fn full(shape: &Bound<'_, PyAny>, fill_value: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = parse_shape(shape)?;
-    let dtype = resolve_dtype(dtype, "float64")?;
-    Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value, dtype)))
+    let dtype = match dtype {
+        Some(dt) => parse_dtype_any(dt)?,
+        None => value_dtype(fill_value)?,
+    };
+    check_size(&shape, &dtype)?;
+    filled(shape, fill_value, dtype)
+}
+
+/// The dtype of a Python number or array.
+fn value_dtype(value: &Bound<'_, PyAny>) -> PyResult<DType> {
+    if let Ok(arr) = value.extract::<PyRef<'_, PyRumpyArray>>() {
+        return Ok(arr.inner.dtype());
+    }
+    match scalar_array(value, &DType::float64())? {
+        Some(scalar) => Ok(scalar.dtype()),
+        None => complex_parts(value).map(|_| DType::complex128()).map_err(|_| {
+            pyo3::exceptions::PyTypeError::new_err("fill_value must be a number or array")
+        }),
+    }
+}
+
+/// Array with every element set to (the broadcast) `value`.
+fn filled(shape: Vec<usize>, value: &Bound<'_, PyAny>, dtype: DType) -> PyResult<PyRumpyArray> {
+    let arr = RumpyArray::zeros(shape, dtype);
+    fill_view(&arr, value)?;
+    Ok(PyRumpyArray::new(arr))
 }
 
 /// Create uninitialized array.
@@ -112,6 +154,7 @@ pub fn full(shape: &Bound<'_, PyAny>, fill_value: f64, dtype: Option<&Bound<'_,
 pub fn empty(shape: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = parse_shape(shape)?;
     let dtype = resolve_dtype(dtype, "float64")?;
+    check_size(&shape, &dtype)?;
     // For simplicity, we just create zeros - truly uninitialized would require unsafe
     Ok(PyRumpyArray::new(RumpyArray::zeros(shape, dtype)))
 }
@@ -156,13 +199,13 @@ pub fn empty_like(a: &PyRumpyArray, dtype: Option<&Bound<'_, PyAny>>) -> PyResul
 /// Create array filled with given value, with same shape and dtype as input.
 #[pyfunction]
 #[pyo3(signature = (a, fill_value, dtype=None))]
-pub fn full_like(a: &PyRumpyArray, fill_value: f64, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
+pub fn full_like(a: &PyRumpyArray, fill_value: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = a.inner.shape().to_vec();
     let dtype = match dtype {
         Some(dt) => parse_dtype_any(&dt)?,
         None => a.inner.dtype(),
     };
-    Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value, dtype)))
+    filled(shape, fill_value, dtype)
 }
 
 /// Create an n x n identity matrix.
@@ -170,6 +213,7 @@ pub fn full_like(a: &PyRumpyArray, fill_value: f64, dtype: Option<&Bound<'_, PyA
 #[pyo3(signature = (n, dtype=None))]
 pub fn identity(n: usize, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let dtype = resolve_dtype(dtype, "float64")?;
+    check_size(&[n, n], &dtype)?;
     Ok(PyRumpyArray::new(RumpyArray::eye(n, dtype)))
 }
 
@@ -184,6 +228,7 @@ pub fn logspace(
     dtype: Option<&Bound<'_, PyAny>>,
 ) -> PyResult<PyRumpyArray> {
     let dtype = resolve_dtype(dtype, "float64")?;
+    check_size(&[num], &dtype)?;
     Ok(PyRumpyArray::new(crate::array::logspace(start, stop, num, base, dtype)))
 }
 
@@ -197,6 +242,7 @@ pub fn geomspace(
     dtype: Option<&Bound<'_, PyAny>>,
 ) -> PyResult<PyRumpyArray> {
     let dtype = resolve_dtype(dtype, "float64")?;
+    check_size(&[num], &dtype)?;
     crate::array::geomspace(start, stop, num, dtype)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
@@ -210,6 +256,7 @@ pub fn geomspace(
 pub fn tri(n: usize, m: Option<usize>, k: isize, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let m = m.unwrap_or(n);
     let dtype = resolve_dtype(dtype, "float64")?;
+    check_size(&[n, m], &dtype)?;
     Ok(PyRumpyArray::new(crate::array::tri(n, m, k, dtype)))
 }
 
@@ -242,6 +289,9 @@ pub fn diagflat(v: &PyRumpyArray, k: isize) -> PyRumpyArray {
 #[pyfunction]
 #[pyo3(signature = (*xi, indexing="xy"))]
 pub fn meshgrid(xi: &Bound<'_, pyo3::types::PyTuple>, indexing: &str) -> PyResult<Vec<PyRumpyArray>> {
+    if !matches!(indexing, "xy" | "ij") {
+        return Err(pyo3::exceptions::PyValueError::new_err("Valid values for `indexing` are 'xy' and 'ij'."));
+    }
     let mut arrays: Vec<RumpyArray> = Vec::with_capacity(xi.len());
     for item in xi.iter() {
         let arr = if let Ok(arr) = item.extract::<PyRef<'_, PyRumpyArray>>() {
@@ -262,6 +312,7 @@ pub fn meshgrid(xi: &Bound<'_, pyo3::types::PyTuple>, indexing: &str) -> PyResul
 #[pyo3(signature = (dimensions, dtype=None))]
 pub fn indices(dimensions: Vec<usize>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let dtype = resolve_dtype(dtype, "int64")?;
+    check_size(&[&[dimensions.len()], &dimensions[..]].concat(), &dtype)?;
     Ok(PyRumpyArray::new(crate::array::indices(&dimensions, dtype)))
 }
 
-- 
2.43.0


From e5582a126b8c46f5643c12881d6dd0b078b2a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:35 +0000
Subject: [PATCH 28/30] fix: arrays of lists refuse integers their dtype cannot
 hold instead of rounding or wrapping them

---
 src/python/creation.rs | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index abfbc92..465b169 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -609,14 +609,34 @@ fn nested_list_shape(list: &Bound<'_, PyList>) -> PyResult<Vec<usize>> {
 }
 
 /// Integer element as the bits stored in an integer array of `dtype`.
+/// OverflowError if the dtype cannot hold it.
 fn extract_integer(item: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<i64> {
-    item.extract::<i64>().or_else(|e| {
-        if dtype.kind() == crate::array::dtype::DTypeKind::Uint64 {
-            item.extract::<u64>().map(|v| v as i64)
-        } else {
-            Err(e)
-        }
-    })
+    use crate::array::dtype::DTypeKind;
+    let (min, max) = match dtype.kind() {
+        DTypeKind::Int8 => (i8::MIN as i64, i8::MAX as i64),
+        DTypeKind::Int16 => (i16::MIN as i64, i16::MAX as i64),
+        DTypeKind::Int32 => (i32::MIN as i64, i32::MAX as i64),
+        DTypeKind::Uint8 => (0, u8::MAX as i64),
+        DTypeKind::Uint16 => (0, u16::MAX as i64),
+        DTypeKind::Uint32 => (0, u32::MAX as i64),
+        DTypeKind::Uint64 => return match item.extract::<i64>() {
+            Ok(v) if v < 0 => Err(integer_out_of_bounds(dtype)),
+            Ok(v) => Ok(v),
+            Err(_) => item.extract::<u64>().map(|v| v as i64),
+        },
+        _ => (i64::MIN, i64::MAX),
+    };
+    let value = item.extract::<i64>()?;
+    if value < min || value > max {
+        return Err(integer_out_of_bounds(dtype));
+    }
+    Ok(value)
+}
+
+/// Whether converting a list to integers failed because one of them is out of bounds,
+/// rather than because an item is not an integer.
+fn is_overflow(result: &Result<impl Sized, PyErr>, list: &Bound<'_, PyList>) -> bool {
+    matches!(result, Err(e) if e.is_instance_of::<pyo3::exceptions::PyOverflowError>(list.py()))
 }
 
 /// Compute the maximum string length in a (possibly nested) list.
@@ -725,7 +745,11 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
         // Nested list - recursively get shape and flatten
         // Try integer path for integer dtypes, fall back to f64
         if dtype.is_integer() {
-            if let Ok((shape, data)) = flatten_nested_list_i64(list, &dtype) {
+            let flattened = flatten_nested_list_i64(list, &dtype);
+            if is_overflow(&flattened, list) {
+                return Err(integer_out_of_bounds(&dtype));
+            }
+            if let Ok((shape, data)) = flattened {
                 return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
             }
         }
-- 
2.43.0


From 914b66c61a4b9cc6836f9ab6effe17af6686a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:35 +0000
Subject: [PATCH 29/30] fix: int() and bool() of an array are exact, and bool()
 needs one element

---
 src/python/pyarray/dunder_ops.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index ba67c60..5c4d829 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -123,13 +123,23 @@ impl PyRumpyArray {
         Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
     }
 
-    fn __int__(&self) -> PyResult<i64> {
+    fn __int__(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "only size-1 arrays can be converted to Python scalars",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]) as i64)
+        // Through the Python scalar, which is exact for every dtype
+        self.inner.element_to_py(py, &vec![0; self.inner.ndim()])?.call_method0(py, "__int__")
+    }
+
+    fn __bool__(&self) -> PyResult<bool> {
+        if self.inner.size() != 1 {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "The truth value of an array with other than one element is ambiguous. Use a.any() or a.all()",
+            ));
+        }
+        Ok(unsafe { self.inner.dtype().ops().is_truthy(self.inner.data_ptr(), 0) })
     }
 
     // Comparison operations
-- 
2.43.0


From bf153eab281de488e560ed8f7f3b7c6e4f6a39c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:36 +0000
Subject: [PATCH 30/30] fix: dates are parsed strictly, converted by the
 calendar, and NaT propagates through arithmetic and comparisons

---
 src/array/dtype/datetime64.rs       | 325 ++++++++++++++--------------
 src/array/dtype/mod.rs              |   2 +-
 src/array/mod.rs                    |   2 +-
 src/ops/array_methods/reductions.rs |  13 ++
 src/ops/datetime.rs                 | 169 +++++++++++++++
 src/ops/dispatch.rs                 |  44 ----
 src/ops/mod.rs                      |   1 +
 src/ops/ufunc.rs                    |  60 +----
 src/python/creation.rs              |  10 +-
 src/python/datetime.rs              |  77 ++++---
 src/python/pyarray/mod.rs           |   7 +-
 11 files changed, 420 insertions(+), 290 deletions(-)
 create mode 100644 src/ops/datetime.rs

diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index a100756..34141f9 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -53,6 +53,11 @@ impl TimeUnit {
         }
     }
 
+    /// Position in the order from the coarsest to the finest unit.
+    pub fn rank(self) -> u8 {
+        self as u8
+    }
+
     /// Get the conversion factor to convert FROM this unit TO nanoseconds.
     /// Returns None for variable-length units (Years, Months).
     pub fn to_ns_factor(&self) -> Option<i64> {
@@ -167,8 +172,9 @@ impl DTypeOps for DateTime64Ops {
         let v = Self::read(src, byte_offset);
         // Most unary ops don't make sense for datetime, just copy
         let result = match op {
-            UnaryOp::Neg => -v,
-            UnaryOp::Abs => v.abs(),
+            // NaT is its own negation
+            UnaryOp::Neg => v.wrapping_neg(),
+            UnaryOp::Abs => v.wrapping_abs(),
             _ => v,
         };
         Self::write(out, idx, result);
@@ -205,7 +211,7 @@ impl DTypeOps for DateTime64Ops {
         let v = match op {
             ReduceOp::Sum => 0,
             ReduceOp::Prod => 1,
-            ReduceOp::Max => i64::MIN,
+            ReduceOp::Max => NAT + 1,
             ReduceOp::Min => i64::MAX,
         };
         Self::write(out, idx, v);
@@ -215,6 +221,8 @@ impl DTypeOps for DateTime64Ops {
         let a = Self::read(acc as *const u8, (idx * 8) as isize);
         let v = Self::read(val, byte_offset);
         let result = match op {
+            // NaT propagates
+            _ if a == NAT || v == NAT => NAT,
             ReduceOp::Sum => a.wrapping_add(v),
             ReduceOp::Prod => a.wrapping_mul(v),
             ReduceOp::Max => a.max(v),
@@ -345,8 +353,9 @@ impl DTypeOps for TimeDelta64Ops {
     unsafe fn unary_op(&self, op: UnaryOp, src: *const u8, byte_offset: isize, out: *mut u8, idx: usize) {
         let v = Self::read(src, byte_offset);
         let result = match op {
-            UnaryOp::Neg => -v,
-            UnaryOp::Abs => v.abs(),
+            // NaT is its own negation
+            UnaryOp::Neg => v.wrapping_neg(),
+            UnaryOp::Abs => v.wrapping_abs(),
             _ => v,
         };
         Self::write(out, idx, result);
@@ -381,7 +390,7 @@ impl DTypeOps for TimeDelta64Ops {
         let v = match op {
             ReduceOp::Sum => 0,
             ReduceOp::Prod => 1,
-            ReduceOp::Max => i64::MIN,
+            ReduceOp::Max => NAT + 1,
             ReduceOp::Min => i64::MAX,
         };
         Self::write(out, idx, v);
@@ -391,6 +400,8 @@ impl DTypeOps for TimeDelta64Ops {
         let a = Self::read(acc as *const u8, (idx * 8) as isize);
         let v = Self::read(val, byte_offset);
         let result = match op {
+            // NaT propagates
+            _ if a == NAT || v == NAT => NAT,
             ReduceOp::Sum => a.wrapping_add(v),
             ReduceOp::Prod => a.wrapping_mul(v),
             ReduceOp::Max => a.max(v),
@@ -458,20 +469,19 @@ pub fn format_datetime64(value: i64, unit: TimeUnit) -> String {
     match unit {
         TimeUnit::Years => {
             // value is years since 1970
-            let year = 1970 + value;
+            let year = value.saturating_add(1970);
             format!("{:04}", year)
         }
         TimeUnit::Months => {
             // value is months since 1970-01
-            let total_months = 1970 * 12 + value;
-            let year = total_months / 12;
-            let month = (total_months % 12) + 1;
+            let year = 1970 + value.div_euclid(12);
+            let month = value.rem_euclid(12) + 1;
             format!("{:04}-{:02}", year, month)
         }
         TimeUnit::Weeks => {
             // value is weeks since 1970-01-01 (Thursday)
             // NumPy week epoch starts at Thursday 1970-01-01
-            days_to_date_string(value * 7)
+            days_to_date_string(value.saturating_mul(7))
         }
         TimeUnit::Days => {
             days_to_date_string(value)
@@ -571,9 +581,10 @@ fn days_to_date_string(days: i64) -> String {
 fn days_to_ymd(days: i64) -> (i64, i64, i64) {
     // Algorithm from Howard Hinnant's date algorithms
     // http://howardhinnant.github.io/date_algorithms.html#civil_from_days
-    let z = days + 719468; // Shift epoch from 1970-01-01 to 0000-03-01
-    let era = if z >= 0 { z / 146097 } else { (z - 146096) / 146097 };
-    let doe = (z - era * 146097) as i64; // day of era [0, 146096]
+    // Shift epoch from 1970-01-01 to 0000-03-01: 719468 days are 4 eras and 135080 days
+    let shifted = days.rem_euclid(146097) + 135080;
+    let era = days.div_euclid(146097) + 4 + shifted / 146097;
+    let doe = shifted % 146097; // day of era [0, 146096]
     let yoe = (doe - doe/1460 + doe/36524 - doe/146096) / 365; // year of era [0, 399]
     let y = yoe + era * 400;
     let doy = doe - (365*yoe + yoe/4 - yoe/100); // day of year [0, 365]
@@ -584,186 +595,182 @@ fn days_to_ymd(days: i64) -> (i64, i64, i64) {
     (y, m, d)
 }
 
-/// Convert (year, month, day) to days since epoch.
-pub fn ymd_to_days(year: i64, month: i64, day: i64) -> i64 {
+/// Convert (year, month, day) to days since epoch, or None if they do not fit.
+fn ymd_to_days(year: i64, month: i64, day: i64) -> Option<i64> {
     // Algorithm from Howard Hinnant's date algorithms
-    let y = if month <= 2 { year - 1 } else { year };
+    let y = if month <= 2 { year.checked_sub(1)? } else { year };
     let m = if month <= 2 { month + 12 } else { month };
-    let era = if y >= 0 { y / 400 } else { (y - 399) / 400 };
-    let yoe = (y - era * 400) as i64; // year of era [0, 399]
+    let era = y.div_euclid(400);
+    let yoe = y.rem_euclid(400); // year of era [0, 399]
     let doy = (153 * (m - 3) + 2) / 5 + day - 1; // day of year [0, 365]
     let doe = yoe * 365 + yoe/4 - yoe/100 + doy; // day of era [0, 146096]
-    era * 146097 + doe - 719468 // shift epoch from 0000-03-01 to 1970-01-01
+    // shift epoch from 0000-03-01 to 1970-01-01
+    era.checked_mul(146097)?.checked_add(doe - 719468)
 }
 
-/// Parse an ISO 8601 datetime string to a value in the given unit.
-/// Returns NAT on parse error.
-pub fn parse_datetime64(s: &str, unit: TimeUnit) -> i64 {
-    if s == "NaT" || s == "nat" {
-        return NAT;
+fn days_in_month(year: i64, month: i64) -> i64 {
+    match month {
+        2 if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) => 29,
+        2 => 28,
+        4 | 6 | 9 | 11 => 30,
+        _ => 31,
     }
+}
 
-    // Parse YYYY-MM-DDTHH:MM:SS.sss format
-    // Minimum is YYYY
-    let parts: Vec<&str> = s.split('T').collect();
-    let date_part = parts[0];
-    let time_part = parts.get(1).copied();
+/// Parse an ISO 8601 date (YYYY, YYYY-MM or YYYY-MM-DD), optionally with a time
+/// (Thh, Thh:mm, Thh:mm:ss or Thh:mm:ss.fraction), to a value in the given unit.
+/// Returns None if the string is malformed or names a date that does not exist or fit.
+pub fn parse_datetime64(s: &str, unit: TimeUnit) -> Option<i64> {
+    if s.is_empty() || s.eq_ignore_ascii_case("nat") {
+        return Some(NAT);
+    }
 
-    // Parse date: YYYY or YYYY-MM or YYYY-MM-DD
-    let date_parts: Vec<&str> = date_part.split('-').collect();
-    let year: i64 = match date_parts.first().and_then(|s| s.parse().ok()) {
-        Some(y) => y,
-        None => return NAT,
+    let (date_part, time_part) = match s.find(['T', ' ']) {
+        Some(i) => (&s[..i], Some(&s[i + 1..])),
+        None => (s, None),
     };
-    let month: i64 = date_parts.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
-    let day: i64 = date_parts.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
-
-    // Calculate days since epoch
-    let days = ymd_to_days(year, month, day);
 
-    // Parse time if present
-    let (hours, minutes, seconds, subseconds) = if let Some(time_str) = time_part {
-        parse_time_part(time_str)
-    } else {
-        (0, 0, 0, 0.0)
+    // Parse date: YYYY or YYYY-MM or YYYY-MM-DD
+    let (negative, date_part) = match date_part.strip_prefix('-') {
+        Some(rest) => (true, rest),
+        None => (false, date_part),
     };
+    let mut date_parts = date_part.split('-');
+    let year = parse_digits(date_parts.next()?, None)?;
+    let year = if negative { -year } else { year };
+    let month = date_parts.next();
+    let day = date_parts.next();
+    if date_parts.next().is_some() || (time_part.is_some() && day.is_none()) {
+        return None;
+    }
+    let month = month.map_or(Some(1), |m| parse_digits(m, Some(2)))?;
+    let day = day.map_or(Some(1), |d| parse_digits(d, Some(2)))?;
+    if !(1..=12).contains(&month) || !(1..=days_in_month(year, month)).contains(&day) {
+        return None;
+    }
+    let days = ymd_to_days(year, month, day)?;
+    let (seconds, nanoseconds) = time_part.map_or(Some((0, 0)), parse_time_part)?;
 
     // Convert to target unit
+    let ticks = |per_second: i64| {
+        let seconds = days.checked_mul(86400)?.checked_add(seconds)?;
+        seconds.checked_mul(per_second)?.checked_add(nanoseconds / (1_000_000_000 / per_second))
+    };
     match unit {
-        TimeUnit::Years => year - 1970,
-        TimeUnit::Months => (year - 1970) * 12 + (month - 1),
-        TimeUnit::Weeks => days / 7,
-        TimeUnit::Days => days,
-        TimeUnit::Hours => days * 24 + hours,
-        TimeUnit::Minutes => days * 24 * 60 + hours * 60 + minutes,
-        TimeUnit::Seconds => days * 86400 + hours * 3600 + minutes * 60 + seconds,
-        TimeUnit::Milliseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1000 + (subseconds * 1000.0) as i64
-        }
-        TimeUnit::Microseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000 + (subseconds * 1_000_000.0) as i64
-        }
-        TimeUnit::Nanoseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000_000 + (subseconds * 1_000_000_000.0) as i64
-        }
+        TimeUnit::Years => Some(year - 1970),
+        TimeUnit::Months => Some((year - 1970) * 12 + (month - 1)),
+        TimeUnit::Weeks => Some(days.div_euclid(7)),
+        TimeUnit::Days => Some(days),
+        TimeUnit::Hours => days.checked_mul(24)?.checked_add(seconds / 3600),
+        TimeUnit::Minutes => days.checked_mul(24 * 60)?.checked_add(seconds / 60),
+        TimeUnit::Seconds => ticks(1),
+        TimeUnit::Milliseconds => ticks(1_000),
+        TimeUnit::Microseconds => ticks(1_000_000),
+        TimeUnit::Nanoseconds => ticks(1_000_000_000),
+    }
+}
+
+/// Parse decimal digits only: exactly `len` of them, or one or more.
+fn parse_digits(s: &str, len: Option<usize>) -> Option<i64> {
+    if s.is_empty() || len.is_some_and(|n| s.len() != n) || !s.bytes().all(|b| b.is_ascii_digit()) {
+        return None;
     }
+    s.parse().ok()
 }
 
-/// Parse time part HH:MM:SS.sss returning (hours, minutes, seconds, subseconds as fraction).
-fn parse_time_part(s: &str) -> (i64, i64, i64, f64) {
-    let parts: Vec<&str> = s.split(':').collect();
-    let hours: i64 = parts.first().and_then(|s| s.parse().ok()).unwrap_or(0);
-    let minutes: i64 = parts.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
+/// Parse time part hh, hh:mm, hh:mm:ss or hh:mm:ss.fraction to (seconds, nanoseconds).
+fn parse_time_part(s: &str) -> Option<(i64, i64)> {
+    let mut parts = s.split(':');
+    let hours = parse_digits(parts.next()?, Some(2))?;
+    let minutes = parts.next().map_or(Some(0), |m| parse_digits(m, Some(2)))?;
 
     // Seconds may have fractional part
-    let (seconds, subseconds) = if let Some(sec_str) = parts.get(2) {
-        if let Some(dot_pos) = sec_str.find('.') {
-            let secs: i64 = sec_str[..dot_pos].parse().unwrap_or(0);
-            let frac: f64 = format!("0.{}", &sec_str[dot_pos+1..]).parse().unwrap_or(0.0);
-            (secs, frac)
-        } else {
-            (sec_str.parse().unwrap_or(0), 0.0)
+    let (seconds, nanoseconds) = match parts.next() {
+        Some(text) => {
+            let (seconds, fraction) = text.split_once('.').unwrap_or((text, ""));
+            if !fraction.bytes().all(|b| b.is_ascii_digit()) {
+                return None;
+            }
+            let nanoseconds = fraction.bytes().chain(std::iter::repeat(b'0')).take(9)
+                .fold(0, |ns, digit| ns * 10 + (digit - b'0') as i64);
+            (parse_digits(seconds, Some(2))?, nanoseconds)
         }
-    } else {
-        (0, 0.0)
+        None => (0, 0),
     };
-
-    (hours, minutes, seconds, subseconds)
+    if parts.next().is_some() || hours > 23 || minutes > 59 || seconds > 59 {
+        return None;
+    }
+    Some((hours * 3600 + minutes * 60 + seconds, nanoseconds))
 }
 
-/// Convert datetime64 value from one unit to another.
-/// Returns NAT if conversion would overflow or for variable-length units.
+/// Convert datetime64 value from one unit to another (the unit that contains the moment, for a
+/// coarser one). Returns NAT if conversion would overflow.
 pub fn convert_datetime64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) -> i64 {
-    if value == NAT {
-        return NAT;
-    }
-    if from_unit == to_unit {
+    if value == NAT || from_unit == to_unit {
         return value;
     }
-
-    // For fixed-length units, we can convert via common unit (nanoseconds)
-    // For variable-length units (Y, M), we need special handling
-    match (from_unit, to_unit) {
-        // Variable to variable
-        (TimeUnit::Years, TimeUnit::Months) => value * 12,
-        (TimeUnit::Months, TimeUnit::Years) => value / 12,
-
-        // Variable to fixed - convert via date calculation
-        (TimeUnit::Years, to) => {
-            let year = 1970 + value;
-            let days = ymd_to_days(year, 1, 1);
-            days_to_unit(days, to)
-        }
-        (TimeUnit::Months, to) => {
-            let total_months = 1970 * 12 + value;
-            let year = total_months / 12;
-            let month = (total_months % 12) + 1;
-            let days = ymd_to_days(year, month, 1);
-            days_to_unit(days, to)
-        }
-
-        // Fixed to variable - approximate conversion
-        (from, TimeUnit::Years) => {
-            let days = unit_to_days(value, from);
-            let (year, _, _) = days_to_ymd(days);
-            year - 1970
-        }
-        (from, TimeUnit::Months) => {
-            let days = unit_to_days(value, from);
+    let variable = |unit: TimeUnit| unit.to_ns_factor().is_none();
+    let converted = match (variable(from_unit), variable(to_unit)) {
+        (false, false) | (true, true) => convert_span(value, from_unit, to_unit),
+        // Variable to fixed: the first day of the year or month
+        (true, false) => {
+            let (years, month) = match from_unit {
+                TimeUnit::Years => (value, 1),
+                _ => (value.div_euclid(12), value.rem_euclid(12) + 1),
+            };
+            years.checked_add(1970)
+                .and_then(|year| ymd_to_days(year, month, 1))
+                .and_then(|days| convert_span(days, TimeUnit::Days, to_unit))
+        }
+        // Fixed to variable: the year or month the moment lies in
+        (false, true) => convert_span(value, from_unit, TimeUnit::Days).and_then(|days| {
             let (year, month, _) = days_to_ymd(days);
-            (year - 1970) * 12 + (month - 1)
-        }
-
-        // Fixed to fixed - use factors
-        (from, to) => {
-            let from_factor = from.to_ns_factor().unwrap();
-            let to_factor = to.to_ns_factor().unwrap();
-            if from_factor >= to_factor {
-                value * (from_factor / to_factor)
-            } else {
-                value / (to_factor / from_factor)
+            match to_unit {
+                TimeUnit::Years => Some(year - 1970),
+                _ => (year - 1970).checked_mul(12)?.checked_add(month - 1),
             }
-        }
+        }),
+    };
+    converted.unwrap_or(NAT)
+}
+
+/// Convert timedelta64 value from one unit to another, rounding down. Returns NAT if conversion
+/// would overflow. Years and months count with their average length in the other units.
+pub fn convert_timedelta64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) -> i64 {
+    if value == NAT || from_unit == to_unit {
+        return value;
     }
+    convert_span(value, from_unit, to_unit).unwrap_or(NAT)
 }
 
-fn days_to_unit(days: i64, unit: TimeUnit) -> i64 {
+/// Length of a unit in seconds, and how many of a sub-second unit make a second.
+/// 400 years are 146097 days.
+fn seconds_and_parts(unit: TimeUnit) -> (i64, i64) {
     match unit {
-        TimeUnit::Years | TimeUnit::Months => {
-            let (year, month, _) = days_to_ymd(days);
-            if matches!(unit, TimeUnit::Years) {
-                year - 1970
-            } else {
-                (year - 1970) * 12 + (month - 1)
-            }
-        }
-        TimeUnit::Weeks => days / 7,
-        TimeUnit::Days => days,
-        TimeUnit::Hours => days * 24,
-        TimeUnit::Minutes => days * 24 * 60,
-        TimeUnit::Seconds => days * 86400,
-        TimeUnit::Milliseconds => days * 86400 * 1000,
-        TimeUnit::Microseconds => days * 86400 * 1_000_000,
-        TimeUnit::Nanoseconds => days * 86400 * 1_000_000_000,
+        TimeUnit::Years => (146097 * 86400 / 400, 1),
+        TimeUnit::Months => (146097 * 86400 / 4800, 1),
+        TimeUnit::Weeks => (7 * 86400, 1),
+        TimeUnit::Days => (86400, 1),
+        TimeUnit::Hours => (3600, 1),
+        TimeUnit::Minutes => (60, 1),
+        TimeUnit::Seconds => (1, 1),
+        TimeUnit::Milliseconds => (1, 1_000),
+        TimeUnit::Microseconds => (1, 1_000_000),
+        TimeUnit::Nanoseconds => (1, 1_000_000_000),
     }
 }
 
-fn unit_to_days(value: i64, unit: TimeUnit) -> i64 {
-    match unit {
-        TimeUnit::Years | TimeUnit::Months => {
-            // These should be handled separately
-            0
-        }
-        TimeUnit::Weeks => value * 7,
-        TimeUnit::Days => value,
-        TimeUnit::Hours => value / 24,
-        TimeUnit::Minutes => value / (24 * 60),
-        TimeUnit::Seconds => value / 86400,
-        TimeUnit::Milliseconds => value / (86400 * 1000),
-        TimeUnit::Microseconds => value / (86400 * 1_000_000),
-        TimeUnit::Nanoseconds => value / (86400 * 1_000_000_000),
+/// Convert a number of units to the whole number of another unit it contains.
+fn convert_span(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) -> Option<i64> {
+    let (from_seconds, from_parts) = seconds_and_parts(from_unit);
+    let (to_seconds, to_parts) = seconds_and_parts(to_unit);
+    // value * (from_seconds / from_parts) / (to_seconds / to_parts)
+    let (mul, div) = (from_seconds * to_parts, to_seconds * from_parts);
+    if mul % div == 0 {
+        value.checked_mul(mul / div)
+    } else if div % mul == 0 {
+        Some(value.div_euclid(div / mul))
+    } else {
+        i64::try_from((value as i128 * mul as i128).div_euclid(div as i128)).ok()
     }
 }
diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index ed03ca9..03a1d01 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -21,7 +21,7 @@ use self::bool::BoolOps;
 use complex64::Complex64Ops;
 use complex128::Complex128Ops;
 use datetime64::{DateTime64Ops, TimeDelta64Ops};
-pub use datetime64::{TimeUnit, NAT, parse_datetime64, format_datetime64, convert_datetime64};
+pub use datetime64::{TimeUnit, NAT, parse_datetime64, format_datetime64, convert_datetime64, convert_timedelta64};
 use float16::Float16Ops;
 use floats::{Float32Ops, Float64Ops};
 use integers::{Int8Ops, Int16Ops, Int32Ops, Int64Ops, Uint8Ops, Uint16Ops, Uint32Ops, Uint64Ops};
diff --git a/src/array/mod.rs b/src/array/mod.rs
index 15428bc..ad4ca94 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -412,7 +412,7 @@ impl RumpyArray {
                     for (i, offset) in self.iter_offsets().enumerate() {
                         let byte_offset = offset as isize / 8;
                         let val = unsafe { *src.offset(byte_offset) };
-                        let converted = dtype::convert_datetime64(val, *from_unit, *to_unit);
+                        let converted = dtype::convert_timedelta64(val, *from_unit, *to_unit);
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index a1f3e9d..7520af7 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -265,6 +265,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => dispatch_argmax_full::<u32>(self),
             DTypeKind::Uint16 => dispatch_argmax_full::<u16>(self),
             DTypeKind::Uint8 => dispatch_argmax_full::<u8>(self),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => dispatch_argmax_full::<i64>(&nat_last(self)),
             _ => self.argmax_slow(),
         }
     }
@@ -284,6 +285,8 @@ impl RumpyArray {
             DTypeKind::Uint32 => dispatch_argmin_full::<u32>(self),
             DTypeKind::Uint16 => dispatch_argmin_full::<u16>(self),
             DTypeKind::Uint8 => dispatch_argmin_full::<u8>(self),
+            // NaT is the smallest int64
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => dispatch_argmin_full::<i64>(self),
             _ => self.argmin_slow(),
         }
     }
@@ -302,6 +305,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => argmax_axis_typed::<u32>(self, axis),
             DTypeKind::Uint16 => argmax_axis_typed::<u16>(self, axis),
             DTypeKind::Uint8 => argmax_axis_typed::<u8>(self, axis),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => argmax_axis_typed::<i64>(&nat_last(self), axis),
             _ => self.argmax_axis_slow(axis),
         }
     }
@@ -320,6 +324,7 @@ impl RumpyArray {
             DTypeKind::Uint32 => argmin_axis_typed::<u32>(self, axis),
             DTypeKind::Uint16 => argmin_axis_typed::<u16>(self, axis),
             DTypeKind::Uint8 => argmin_axis_typed::<u8>(self, axis),
+            DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => argmin_axis_typed::<i64>(self, axis),
             _ => self.argmin_axis_slow(axis),
         }
     }
@@ -423,6 +428,14 @@ impl RumpyArray {
 // Generic argmax/argmin implementations (monomorphized per dtype)
 // ============================================================================
 
+/// The order of dates or time spans as int64, with NaT (the smallest int64) as the largest.
+fn nat_last(arr: &RumpyArray) -> RumpyArray {
+    let values: Vec<i64> = arr.iter_offsets()
+        .map(|offset| unsafe { *(arr.data_ptr().offset(offset) as *const i64) }.wrapping_sub(1))
+        .collect();
+    RumpyArray::from_vec_i64_with_shape(values, arr.shape().to_vec(), DType::int64())
+}
+
 /// Whether `v` replaces `best` as the maximum: the first NaN wins over everything.
 #[inline(always)]
 #[allow(clippy::eq_op)]
diff --git a/src/ops/datetime.rs b/src/ops/datetime.rs
new file mode 100644
index 0000000..9bf7aae
--- /dev/null
+++ b/src/ops/datetime.rs
@@ -0,0 +1,169 @@
+//! Arithmetic and comparison of dates (datetime64) and time spans (timedelta64).
+
+use std::sync::Arc;
+
+use super::{BinaryOp, BinaryOpError, ComparisonOp};
+use crate::array::{broadcast_shapes, DType, RumpyArray};
+use crate::array::dtype::{holds_i64, DTypeKind, TimeUnit, NAT};
+
+/// What an operand is, with its values as int64 (or float64 for `Float`).
+#[derive(Clone, Copy, PartialEq)]
+enum Operand {
+    Date(TimeUnit),
+    Span(TimeUnit),
+    Integer,
+    Float,
+}
+
+fn operand(dtype: &DType) -> Option<Operand> {
+    match dtype.kind() {
+        DTypeKind::DateTime64(unit) => Some(Operand::Date(unit)),
+        DTypeKind::TimeDelta64(unit) => Some(Operand::Span(unit)),
+        DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64 => Some(Operand::Float),
+        kind if holds_i64(&kind) => Some(Operand::Integer),
+        _ => None,
+    }
+}
+
+/// Whether an operation on these dtypes involves a date or a time span.
+pub fn is_datetime_op(a: &DType, b: &DType) -> bool {
+    [a, b].iter().any(|d| matches!(d.kind(), DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_)))
+}
+
+/// The finer of two units. Spans of years or months have no fixed length, so they have no
+/// common unit with the other units.
+fn common_unit(a: Operand, b: Operand) -> Option<TimeUnit> {
+    use Operand::*;
+    let (ua, ub) = match (a, b) {
+        (Date(ua) | Span(ua), Date(ub) | Span(ub)) => (ua, ub),
+        (Date(u) | Span(u), _) | (_, Date(u) | Span(u)) => return Some(u),
+        _ => return None,
+    };
+    let unit = if ua.rank() >= ub.rank() { ua } else { ub };
+    let variable = |u: TimeUnit| u.to_ns_factor().is_none();
+    let impossible = |o: Operand| matches!(o, Span(u) if variable(u) != variable(unit));
+    if impossible(a) || impossible(b) { None } else { Some(unit) }
+}
+
+/// Bring an operand to a unit (dates and spans), to int64 (integers) or to float64 (floats).
+fn prepare(arr: &RumpyArray, kind: Operand, unit: TimeUnit, shape: &[usize]) -> Option<RumpyArray> {
+    let dtype = match kind {
+        Operand::Date(_) => DType::datetime64(unit),
+        Operand::Span(_) => DType::timedelta64(unit),
+        Operand::Integer => DType::int64(),
+        Operand::Float => DType::float64(),
+    };
+    let arr = if arr.dtype() != dtype { arr.astype(dtype) } else { arr.clone() };
+    arr.broadcast_to(shape)
+}
+
+/// Combine the 8-byte elements of two arrays of the result's shape into 8-byte elements.
+fn map_values(a: &RumpyArray, b: &RumpyArray, dtype: DType, f: impl Fn(i64, i64) -> i64) -> RumpyArray {
+    let mut result = RumpyArray::zeros(a.shape().to_vec(), dtype);
+    let out = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr() as *mut i64;
+    for (i, (oa, ob)) in a.iter_offsets().zip(b.iter_offsets()).enumerate() {
+        unsafe {
+            let x = *(a.data_ptr().offset(oa) as *const i64);
+            let y = *(b.data_ptr().offset(ob) as *const i64);
+            *out.add(i) = f(x, y);
+        }
+    }
+    result
+}
+
+/// Apply `f` unless one of the values is NaT.
+fn unless_nat(f: impl Fn(i64, i64) -> i64) -> impl Fn(i64, i64) -> i64 {
+    move |x, y| if x == NAT || y == NAT { NAT } else { f(x, y) }
+}
+
+/// A span scaled by a float; NaT if the result is not finite.
+fn scaled(span: i64, value: f64) -> i64 {
+    if span == NAT || !value.is_finite() { NAT } else { value as i64 }
+}
+
+/// Apply a binary operation to a date or time span and another operand.
+/// NaT propagates; operands of different units are brought to the finer one.
+pub fn datetime_binary_op(a: &RumpyArray, b: &RumpyArray, op: BinaryOp) -> Result<RumpyArray, BinaryOpError> {
+    use Operand::*;
+    let shape = broadcast_shapes(a.shape(), b.shape()).ok_or(BinaryOpError::ShapeMismatch)?;
+    let unsupported = BinaryOpError::UnsupportedDtype;
+    let (Some(ka), Some(kb)) = (operand(&a.dtype()), operand(&b.dtype())) else { return Err(unsupported) };
+    let Some(unit) = common_unit(ka, kb) else { return Err(unsupported) };
+    let a = &prepare(a, ka, unit, &shape).ok_or(BinaryOpError::ShapeMismatch)?;
+    let b = &prepare(b, kb, unit, &shape).ok_or(BinaryOpError::ShapeMismatch)?;
+    let (date, span) = (DType::datetime64(unit), DType::timedelta64(unit));
+
+    Ok(match (op, ka, kb) {
+        (BinaryOp::Add, Date(_), Span(_) | Integer) | (BinaryOp::Add, Span(_) | Integer, Date(_)) =>
+            map_values(a, b, date, unless_nat(i64::wrapping_add)),
+        (BinaryOp::Add, Span(_), Span(_) | Integer) | (BinaryOp::Add, Integer, Span(_)) =>
+            map_values(a, b, span, unless_nat(i64::wrapping_add)),
+        (BinaryOp::Sub, Date(_), Span(_) | Integer) => map_values(a, b, date, unless_nat(i64::wrapping_sub)),
+        (BinaryOp::Sub, Date(_), Date(_)) | (BinaryOp::Sub, Span(_), Span(_) | Integer) | (BinaryOp::Sub, Integer, Span(_)) =>
+            map_values(a, b, span, unless_nat(i64::wrapping_sub)),
+        (BinaryOp::Mul, Span(_), Integer) | (BinaryOp::Mul, Integer, Span(_)) =>
+            map_values(a, b, span, unless_nat(i64::wrapping_mul)),
+        (BinaryOp::Mul, Span(_), Float) =>
+            map_values(a, b, span, |x, y| scaled(x, x as f64 * f64::from_bits(y as u64))),
+        (BinaryOp::Mul, Float, Span(_)) =>
+            map_values(a, b, span, |x, y| scaled(y, f64::from_bits(x as u64) * y as f64)),
+        (BinaryOp::Div | BinaryOp::FloorDiv, Span(_), Integer) =>
+            map_values(a, b, span, unless_nat(|x, y| if y == 0 { NAT } else { x / y })),
+        (BinaryOp::Div | BinaryOp::FloorDiv, Span(_), Float) =>
+            map_values(a, b, span, |x, y| scaled(x, x as f64 / f64::from_bits(y as u64))),
+        (BinaryOp::Div, Span(_), Span(_)) => map_values(a, b, DType::float64(), |x, y| {
+            let ratio = if x == NAT || y == NAT { f64::NAN } else { x as f64 / y as f64 };
+            ratio.to_bits() as i64
+        }),
+        (BinaryOp::FloorDiv, Span(_), Span(_)) => map_values(a, b, DType::int64(), |x, y| {
+            if x == NAT || y == NAT || y == 0 { 0 } else { x / y - (x % y != 0 && (x < 0) != (y < 0)) as i64 }
+        }),
+        (BinaryOp::Mod, Span(_), Span(_)) => map_values(a, b, span, unless_nat(|x, y| {
+            if y == 0 { return NAT; }
+            let r = x.wrapping_rem(y);
+            if r != 0 && (r < 0) != (y < 0) { r + y } else { r }
+        })),
+        (BinaryOp::Maximum | BinaryOp::Minimum | BinaryOp::FMax | BinaryOp::FMin, Date(_), Date(_))
+        | (BinaryOp::Maximum | BinaryOp::Minimum | BinaryOp::FMax | BinaryOp::FMin, Span(_), Span(_)) => {
+            let larger = matches!(op, BinaryOp::Maximum | BinaryOp::FMax);
+            let pick = move |x: i64, y: i64| if larger { x.max(y) } else { x.min(y) };
+            let dtype = a.dtype();
+            if matches!(op, BinaryOp::Maximum | BinaryOp::Minimum) {
+                map_values(a, b, dtype, unless_nat(pick))
+            } else {
+                map_values(a, b, dtype, move |x, y| if x == NAT { y } else if y == NAT { x } else { pick(x, y) })
+            }
+        }
+        _ => return Err(unsupported),
+    })
+}
+
+/// Compare two arrays of dates, or a time span with spans or integers. NaT is unordered and
+/// unequal to everything. None if the operands cannot be compared.
+pub fn datetime_compare(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Option<RumpyArray> {
+    use Operand::*;
+    let shape = broadcast_shapes(a.shape(), b.shape())?;
+    let (ka, kb) = (operand(&a.dtype())?, operand(&b.dtype())?);
+    match (ka, kb) {
+        (Date(_), Date(_)) | (Span(_), Span(_) | Integer) | (Integer, Span(_)) => {}
+        _ => return None,
+    }
+    let unit = common_unit(ka, kb)?;
+    let (a, b) = (prepare(a, ka, unit, &shape)?, prepare(b, kb, unit, &shape)?);
+    let mut result = RumpyArray::zeros(shape, DType::bool());
+    let out = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    for (i, (oa, ob)) in a.iter_offsets().zip(b.iter_offsets()).enumerate() {
+        let (x, y) = unsafe { (*(a.data_ptr().offset(oa) as *const i64), *(b.data_ptr().offset(ob) as *const i64)) };
+        let nat = x == NAT || y == NAT;
+        let holds = match op {
+            ComparisonOp::Gt => !nat && x > y,
+            ComparisonOp::Lt => !nat && x < y,
+            ComparisonOp::Ge => !nat && x >= y,
+            ComparisonOp::Le => !nat && x <= y,
+            ComparisonOp::Eq => !nat && x == y,
+            ComparisonOp::Ne => nat || x != y,
+        };
+        unsafe { *out.add(i) = holds as u8; }
+    }
+    Some(result)
+}
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 222f478..f032565 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -137,50 +137,6 @@ pub fn dispatch_binary_nextafter(a: &RumpyArray, b: &RumpyArray, out_shape: &[us
     dispatch_binary_kernel_float(a, b, out_shape, Nextafter)
 }
 
-/// Dispatch datetime + timedelta → datetime (fast path using i64 Add kernel).
-pub fn dispatch_datetime_add_timedelta(
-    datetime: &RumpyArray,
-    timedelta: &RumpyArray,
-    out_shape: &[usize],
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is datetime with same unit
-    let out_dtype = datetime.dtype();
-    dispatch_binary_typed::<i64, Add>(datetime, timedelta, out_shape, Add, out_dtype)
-}
-
-/// Dispatch timedelta + datetime → datetime (fast path using i64 Add kernel).
-pub fn dispatch_timedelta_add_datetime(
-    timedelta: &RumpyArray,
-    datetime: &RumpyArray,
-    out_shape: &[usize],
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is datetime with same unit
-    let out_dtype = datetime.dtype();
-    dispatch_binary_typed::<i64, Add>(timedelta, datetime, out_shape, Add, out_dtype)
-}
-
-/// Dispatch datetime - timedelta → datetime (fast path using i64 Sub kernel).
-pub fn dispatch_datetime_sub_timedelta(
-    datetime: &RumpyArray,
-    timedelta: &RumpyArray,
-    out_shape: &[usize],
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is datetime with same unit
-    let out_dtype = datetime.dtype();
-    dispatch_binary_typed::<i64, Sub>(datetime, timedelta, out_shape, Sub, out_dtype)
-}
-
-/// Dispatch datetime - datetime → timedelta (fast path using i64 Sub kernel).
-pub fn dispatch_datetime_sub_datetime(
-    a: &RumpyArray,
-    b: &RumpyArray,
-    out_shape: &[usize],
-    out_dtype: DType,
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is timedelta with same unit
-    dispatch_binary_typed::<i64, Sub>(a, b, out_shape, Sub, out_dtype)
-}
-
 /// Dispatch float_power: power operation that always outputs f64 (or complex128).
 /// Accepts any numeric input type, converts to f64/complex128 inline.
 pub fn dispatch_float_power(a: &RumpyArray, b: &RumpyArray, out_shape: &[usize]) -> Option<RumpyArray> {
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 74f6c27..5ef3ef0 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -6,6 +6,7 @@ pub mod array_methods;
 pub mod bitwise;
 pub mod char;
 pub mod comparison;
+pub mod datetime;
 pub mod dispatch;
 pub mod dot;
 pub mod einsum;
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 1babef8..779b2f0 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -209,6 +209,11 @@ pub fn map_binary_op_inplace(
     op: BinaryOp,
     out: Option<RumpyArray>,
 ) -> Result<RumpyArray, BinaryOpError> {
+    // Dates and time spans
+    if super::datetime::is_datetime_op(&a.dtype(), &b.dtype()) {
+        return super::datetime::datetime_binary_op(a, b, op);
+    }
+
     // Numeric operands are converted to the dtype the operation is computed in
     if is_numeric_kind(&a.dtype().kind()) && is_numeric_kind(&b.dtype().kind()) {
         let dtype = binary_op_dtype(&a.dtype(), &b.dtype(), op);
@@ -230,58 +235,6 @@ pub fn map_binary_op_inplace(
     let a_bc = a.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
     let b_bc = b.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
 
-    // Fast dispatch for datetime/timedelta operations
-    let a_is_datetime = matches!(a_bc.dtype().kind(), DTypeKind::DateTime64(_));
-    let b_is_datetime = matches!(b_bc.dtype().kind(), DTypeKind::DateTime64(_));
-    let a_is_timedelta = matches!(a_bc.dtype().kind(), DTypeKind::TimeDelta64(_));
-    let b_is_timedelta = matches!(b_bc.dtype().kind(), DTypeKind::TimeDelta64(_));
-
-    if a_is_datetime || b_is_datetime || a_is_timedelta || b_is_timedelta {
-        use crate::ops::dispatch;
-
-        match op {
-            // datetime + datetime is invalid
-            BinaryOp::Add if a_is_datetime && b_is_datetime => {
-                return Err(BinaryOpError::UnsupportedDtype);
-            }
-            // datetime + timedelta => datetime (fast path)
-            BinaryOp::Add if a_is_datetime && b_is_timedelta => {
-                if let Some(result) = dispatch::dispatch_datetime_add_timedelta(&a_bc, &b_bc, &out_shape) {
-                    return Ok(result);
-                }
-            }
-            // timedelta + datetime => datetime (fast path)
-            BinaryOp::Add if a_is_timedelta && b_is_datetime => {
-                if let Some(result) = dispatch::dispatch_timedelta_add_datetime(&a_bc, &b_bc, &out_shape) {
-                    return Ok(result);
-                }
-            }
-            // datetime - datetime => timedelta (fast path)
-            BinaryOp::Sub if a_is_datetime && b_is_datetime => {
-                if let (DTypeKind::DateTime64(unit_a), DTypeKind::DateTime64(unit_b)) = (a_bc.dtype().kind(), b_bc.dtype().kind()) {
-                    if unit_a == unit_b {
-                        let result_dtype = DType::timedelta64(unit_a);
-                        if let Some(result) = dispatch::dispatch_datetime_sub_datetime(&a_bc, &b_bc, &out_shape, result_dtype) {
-                            return Ok(result);
-                        }
-                    }
-                }
-            }
-            // datetime - timedelta => datetime (fast path)
-            BinaryOp::Sub if a_is_datetime && b_is_timedelta => {
-                if let Some(result) = dispatch::dispatch_datetime_sub_timedelta(&a_bc, &b_bc, &out_shape) {
-                    return Ok(result);
-                }
-            }
-            // Invalid operations for datetime
-            BinaryOp::Mul | BinaryOp::Div | BinaryOp::Pow | BinaryOp::Mod | BinaryOp::FloorDiv
-                if a_is_datetime || b_is_datetime => {
-                return Err(BinaryOpError::UnsupportedDtype);
-            }
-            _ => {}
-        }
-    }
-
     // Try new kernel/loop dispatch (same-type only for now)
     if out.is_none() && a_bc.dtype() == b_bc.dtype() {
         use crate::ops::dispatch;
@@ -486,6 +439,9 @@ pub fn map_binary_op_inplace(
 
 /// Apply a comparison function element-wise, returning bool array.
 pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Option<RumpyArray> {
+    if super::datetime::is_datetime_op(&a.dtype(), &b.dtype()) {
+        return super::datetime::datetime_compare(a, b, op);
+    }
     let out_shape = broadcast_shapes(a.shape(), b.shape())?;
 
     // Promote to common dtype for comparison (like binary ops)
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 465b169..3ff2de8 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -671,7 +671,8 @@ fn compute_max_bytes_length(list: &Bound<'_, PyList>) -> Option<usize> {
 
 /// Create array from Python list.
 pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
-    use crate::array::dtype::{DTypeKind, parse_datetime64};
+    use crate::array::dtype::DTypeKind;
+    use super::datetime::parse_dates;
 
     let dtype = match dtype {
         Some(dt) => parse_dtype_any(dt)?,
@@ -691,13 +692,13 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     if let DTypeKind::DateTime64(unit) = dtype.kind() {
         if first.downcast::<PyList>().is_ok() {
             let (shape, strings) = flatten_nested_list_str(list)?;
-            let data: Vec<i64> = strings.iter().map(|s| parse_datetime64(s, unit)).collect();
+            let data = parse_dates(&strings, unit)?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
         }
         // Try to extract strings and parse them
         let strings: Result<Vec<String>, _> = list.iter().map(|item| item.extract::<String>()).collect();
         if let Ok(strings) = strings {
-            let data: Vec<i64> = strings.iter().map(|s| parse_datetime64(s, unit)).collect();
+            let data = parse_dates(&strings, unit)?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
         }
         // Fall back to integer extraction
@@ -764,6 +765,9 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
             .iter()
             .map(|item| extract_integer(&item, &dtype))
             .collect();
+        if is_overflow(&data_i64, list) {
+            return Err(integer_out_of_bounds(&dtype));
+        }
         if let Ok(data) = data_i64 {
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
         }
diff --git a/src/python/datetime.rs b/src/python/datetime.rs
index c9bab52..d079616 100644
--- a/src/python/datetime.rs
+++ b/src/python/datetime.rs
@@ -14,16 +14,25 @@ use super::{parse_dtype, PyRumpyArray};
 /// Default business day calendar (Mon-Fri, no holidays).
 const DEFAULT_WEEKMASK: [bool; 7] = [true, true, true, true, true, false, false];
 
+/// Parse a date string, or raise ValueError.
+fn parse_date(s: &str, unit: TimeUnit) -> PyResult<i64> {
+    parse_datetime64(s, unit).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err(format!("Error parsing datetime string \"{}\"", s))
+    })
+}
+
+/// Parse date strings, or raise ValueError.
+pub(crate) fn parse_dates(dates: &[String], unit: TimeUnit) -> PyResult<Vec<i64>> {
+    dates.iter().map(|s| parse_date(s, unit)).collect()
+}
+
 /// Parse dates from Python input (string or list of strings).
 fn parse_dates_input(dates: &Bound<'_, PyAny>) -> PyResult<Vec<i64>> {
     if let Ok(s) = dates.extract::<String>() {
-        Ok(vec![parse_datetime64(&s, TimeUnit::Days)])
+        Ok(vec![parse_date(&s, TimeUnit::Days)?])
     } else if let Ok(list) = dates.downcast::<PyList>() {
         list.iter()
-            .map(|item| {
-                let s: String = item.extract()?;
-                Ok(parse_datetime64(&s, TimeUnit::Days))
-            })
+            .map(|item| parse_date(&item.extract::<String>()?, TimeUnit::Days))
             .collect()
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err("dates must be string or list"))
@@ -137,13 +146,15 @@ impl BusDayCalendar {
             None => [true, true, true, true, true, false, false],
         };
 
+        if !weekmask_arr.contains(&true) {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "Cannot construct a busdaycalendar with a weekmask of all zeros"
+            ));
+        }
+
         // Parse holidays
         let holidays_vec = match holidays {
-            Some(h) => {
-                h.iter()
-                    .map(|s| parse_datetime64(s, TimeUnit::Days))
-                    .collect()
-            }
+            Some(h) => parse_dates(&h, TimeUnit::Days)?,
             None => Vec::new(),
         };
 
@@ -207,7 +218,7 @@ pub fn is_busday(py: Python<'_>, dates: &Bound<'_, PyAny>, busdaycal: Option<&Bu
 
     // Handle single string - return scalar bool
     if let Ok(s) = dates.extract::<String>() {
-        let result = is_business_day(parse_datetime64(&s, TimeUnit::Days), cal);
+        let result = is_business_day(parse_date(&s, TimeUnit::Days)?, cal);
         return Ok(result.into_pyobject(py)?.to_owned().into_any().unbind());
     }
 
@@ -216,7 +227,7 @@ pub fn is_busday(py: Python<'_>, dates: &Bound<'_, PyAny>, busdaycal: Option<&Bu
         let result: Vec<f64> = list.iter()
             .map(|item| -> PyResult<f64> {
                 let s: String = item.extract()?;
-                Ok(if is_business_day(parse_datetime64(&s, TimeUnit::Days), cal) { 1.0 } else { 0.0 })
+                Ok(if is_business_day(parse_date(&s, TimeUnit::Days)?, cal) { 1.0 } else { 0.0 })
             })
             .collect::<PyResult<_>>()?;
         return Ok(PyRumpyArray::new(RumpyArray::from_vec(result, DType::bool()))
@@ -225,7 +236,10 @@ pub fn is_busday(py: Python<'_>, dates: &Bound<'_, PyAny>, busdaycal: Option<&Bu
 
     // Handle rumpy array
     if let Ok(arr) = dates.extract::<PyRef<'_, PyRumpyArray>>() {
-        let inner = &arr.inner;
+        if !matches!(arr.inner.dtype().kind(), DTypeKind::DateTime64(_)) {
+            return Err(pyo3::exceptions::PyTypeError::new_err("is_busday requires a datetime64 array"));
+        }
+        let inner = arr.inner.astype(DType::datetime64_d());
         let mut result = RumpyArray::zeros(inner.shape().to_vec(), DType::bool());
         let src_ptr = inner.data_ptr() as *const i64;
         let dst_ptr = std::sync::Arc::get_mut(result.buffer_mut()).unwrap().as_mut_ptr() as *mut u8;
@@ -259,6 +273,16 @@ fn is_business_day(days: i64, cal: &BusDayCalendar) -> bool {
     cal.weekmask[dow]
 }
 
+/// Pair the elements of two sequences; one of length 1 is paired with every element of the other.
+fn broadcast_pairs(a: &[i64], b: &[i64]) -> PyResult<Vec<(i64, i64)>> {
+    let len = if a.len() == 1 { b.len() } else { a.len() };
+    if b.len() != len && b.len() != 1 {
+        return Err(pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"));
+    }
+    let at = |v: &[i64], i: usize| if v.len() == 1 { v[0] } else { v[i] };
+    Ok((0..len).map(|i| (at(a, i), at(b, i))).collect())
+}
+
 /// Offset dates by business days.
 #[pyfunction]
 #[pyo3(signature = (dates, offsets, busdaycal=None))]
@@ -272,15 +296,15 @@ pub fn busday_offset(py: Python<'_>, dates: &Bound<'_, PyAny>, offsets: &Bound<'
     // Parse offsets
     let is_scalar_offset = offsets.extract::<i64>().is_ok();
     let offsets_vec: Vec<i64> = if let Ok(n) = offsets.extract::<i64>() {
-        vec![n; dates_vec.len()]
+        vec![n]
     } else if let Ok(list) = offsets.downcast::<PyList>() {
         list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<_>>()?
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err("offsets must be int or list"));
     };
 
-    let result: Vec<i64> = dates_vec.iter().zip(offsets_vec.iter())
-        .map(|(&date, &offset)| busday_offset_single(date, offset, cal))
+    let result: Vec<i64> = broadcast_pairs(&dates_vec, &offsets_vec)?.into_iter()
+        .map(|(date, offset)| busday_offset_single(date, offset, cal))
         .collect();
 
     // Return 0-d array for scalar inputs
@@ -301,7 +325,7 @@ fn busday_offset_single(date: i64, offset: i64, cal: &BusDayCalendar) -> i64 {
     }
 
     let mut current = date;
-    let mut remaining = offset.abs();
+    let mut remaining = offset.unsigned_abs();
     let step = if offset >= 0 { 1 } else { -1 };
 
     // First, if current day is not a business day, find the next/prev business day
@@ -327,8 +351,13 @@ pub fn busday_count(py: Python<'_>, begindates: &Bound<'_, PyAny>, enddates: &Bo
     let begin_vec = parse_dates_input(begindates)?;
     let end_vec = parse_dates_input(enddates)?;
 
-    let result: Vec<i64> = begin_vec.iter().zip(end_vec.iter())
-        .map(|(&begin, &end)| busday_count_single(begin, end, cal))
+    if begin_vec.contains(&NAT) || end_vec.contains(&NAT) {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "Cannot compute a business day count with a NaT (not-a-time) date"
+        ));
+    }
+    let result: Vec<i64> = broadcast_pairs(&begin_vec, &end_vec)?.into_iter()
+        .map(|(begin, end)| busday_count_single(begin, end, cal))
         .collect();
 
     // Return scalar for scalar inputs
@@ -340,14 +369,10 @@ pub fn busday_count(py: Python<'_>, begindates: &Bound<'_, PyAny>, enddates: &Bo
         .into_pyobject(py)?.into_any().unbind())
 }
 
-/// Count business days between two dates (exclusive of end date).
+/// Count business days between two dates (exclusive of end date); negative if end is before begin.
 fn busday_count_single(begin: i64, end: i64, cal: &BusDayCalendar) -> i64 {
-    if begin == NAT || end == NAT {
-        return 0;
-    }
-
-    if begin >= end {
-        return 0;
+    if begin > end {
+        return -busday_count_single(end + 1, begin + 1, cal);
     }
 
     let mut count = 0i64;
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 67b9483..3f54df0 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1168,9 +1168,6 @@ pub(crate) fn binary_op_error(e: crate::ops::BinaryOpError) -> PyErr {
 /// in the precision of `dtype`. None if it is not a number.
 pub(crate) fn scalar_array(other: &Bound<'_, PyAny>, dtype: &DType) -> PyResult<Option<RumpyArray>> {
     use crate::array::dtype::DTypeKind;
-    if matches!(dtype.kind(), DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_)) {
-        return Ok(other.extract::<f64>().ok().map(|v| RumpyArray::full(vec![], v, dtype.clone())));
-    }
     if other.is_instance_of::<pyo3::types::PyBool>() {
         let v: bool = other.extract()?;
         return Ok(Some(RumpyArray::full(vec![], v as u8 as f64, DType::bool())));
@@ -1201,7 +1198,9 @@ pub(crate) fn scalar_operand(other: &Bound<'_, PyAny>, dtype: &DType) -> PyResul
     use crate::array::dtype::DTypeKind;
     let Some(scalar) = scalar_array(other, dtype)? else { return Ok(None) };
     let kind = scalar.dtype().kind();
-    if !matches!(kind, DTypeKind::Int64 | DTypeKind::Uint64) || dtype.kind() == DTypeKind::Bool {
+    if !matches!(kind, DTypeKind::Int64 | DTypeKind::Uint64)
+        || matches!(dtype.kind(), DTypeKind::Bool | DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_))
+    {
         return Ok(Some(scalar));
     }
     let cast = scalar.astype(dtype.clone());
-- 
2.43.0

