# One entry per property: source of properties.jsonl and MANIFEST.json (bin/genmeta.py).
P = []
def prop(**k): P.append(k)
WHY = "The tests compare a few dozen concrete calls with NumPy, mostly on small C-contiguous arrays; "

prop(id="P01", title="Indexing reads exactly the elements the key names, or raises IndexError",
 statement="For every array (any memory layout: contiguous, transposed, reversed, strided, empty, 0-d) and every key made of integers, slices, None and Ellipsis, a same-shape boolean mask, or an integer array/list, `a[key]` has the shape NumPy prescribes and each of its elements is the element of `a` that Python/NumPy semantics name (basic indexing gives a view of the same memory, mask and integer-array indexing a copy), with the dtype and exact value preserved. A key that names a position outside the array (including any 64-bit integer, over-long tuples, mismatching masks) raises IndexError, a zero slice step ValueError; memory outside the array's buffer is never touched.",
 quant="all keys (indices and slice bounds over all 64-bit integers), all element values, all layouts, shapes up to 3 axes with axis length up to 4, views of views",
 why=WHY + "indices far out of range, negative strides composed with slices, empty axes and chained views are not covered, and an out-of-bounds read usually goes unnoticed.",
 files=["src/python/pyarray/dunder_item.rs", "src/python/pyarray/mod.rs", "src/array/views.rs", "src/ops/indexing.rs"],
 mech=[("__getitem__ dispatch and ellipsis expansion", "src/python/pyarray/dunder_item.rs"), ("view offset/stride arithmetic", "src/array/views.rs"), ("mask and integer-array selection", "src/ops/indexing.rs")],
 bounds="All 64-bit index/slice-bound values; slice steps from {None, +-1, +-2, +-3, 0, i64::MIN, i64::MAX}; axis length <= 4, <= 3 axes; 6 memory layouts; dtypes int8/16/32/64, uint64, float32/64, bool, complex128; contents symbolic. Trusts the pyo3 model, Z3 and the IR semantics of the executor.")

prop(id="P02", title="Item assignment writes the selected elements and nothing else",
 statement="For keys made of integers and slices, `a[key] = value` stores the value (scalar, or array broadcast to the selection, converted to the dtype of `a`) in exactly the elements `a[key]` selects and leaves every other element of `a`, and of any array sharing its memory, unchanged; when value and selection overlap in memory the result is as if the value had been copied first. A key out of range (IndexError), a value that does not broadcast (ValueError) or an unsupported value raises and leaves the array unchanged, and integers of up to 64 bits are stored exactly or, when the integer dtype cannot hold them, refused with OverflowError.",
 quant="all indices and slice bounds over all 64-bit integers, all old and new element values, all layouts, aliasing values", why=WHY + "writes beyond the selection, overlapping assignments and int64 values above 2**53 are not sampled.",
 files=["src/python/pyarray/dunder_item.rs", "src/python/pyarray/mod.rs"], mech=[("__setitem__ dispatch", "src/python/pyarray/dunder_item.rs"), ("assigned_value / fill_view", "src/python/pyarray/mod.rs")],
 bounds="Axis length <= 4, 1-D and 2-D targets, 6 layouts; any 64-bit index and slice bound, steps +-1, +-2; values symbolic (int8/int16 ranges for scalars into small dtypes, all int64/float64 for the exactness harness).")

prop(id="P03", title="Shape and axis operations only rearrange elements",
 statement="reshape, ravel, flatten, transpose/T/permute_dims/matrix_transpose, swapaxes, moveaxis, rollaxis, expand_dims, squeeze, atleast_1d/2d/3d, flip/flipud/fliplr, rot90, diagonal, copy, broadcast_to, broadcast_arrays and broadcast_shapes return the shape NumPy prescribes, keep the dtype, and put at every position exactly the element of the source that NumPy's definition names, whatever the memory layout of the source. Axis rearrangements, flips, rotations, diagonals and broadcasts share the source's memory; flatten and copy do not. An axis out of range, a repeated axis, or a shape of a different size raises an exception instead of returning an array.",
 quant="all element values, all layouts, all axis arguments over 64-bit integers, all permutations, all target shapes within bounds", why=WHY + "layout-dependent mistakes (wrong order for transposed or reversed sources) and out-of-range axes are not sampled.",
 files=["src/python/shape.rs", "src/array/views.rs", "src/array/manipulation.rs", "src/python/pyarray/mod.rs"], mech=[("stride/offset views", "src/array/views.rs"), ("axis normalisation and permutation", "src/python/shape.rs")],
 bounds="<= 3 axes of length <= 4 (incl. empty, 0-d, length-1 axes), 6 layouts, dtypes int8/int32/float64/complex128 symbolic contents; target shapes with <= 3 dims in -2..4 (any 64-bit value for 1- and 2-argument reshape); any 64-bit axis.")

prop(id="P04", title="Elementwise operations broadcast and pair the right elements in any layout",
 statement="For arrays of any layout (contiguous, transposed, reversed, strided, broadcast, empty, 0-d) and any two shapes, add, subtract, multiply, divide, maximum, minimum, the comparisons (as functions and as operators) and where return an array of NumPy's broadcast shape whose element at every index is the operation applied to the operands' elements at the index NumPy broadcasting pairs with it; shapes that do not broadcast raise ValueError. Unary functions (negative, abs, square, sign, positive, invert, floor, ceil, trunc, rint, sqrt, isnan, isinf, isfinite, signbit) map each element by itself and keep the shape. The result is a fresh array that shares no memory with the operands, the operands are unchanged, and function, operator and reflected operator (array with Python scalar on either side) agree.",
 quant="all element values, all pairs of layouts, all shape pairs within bounds, lengths around the vector widths", why=WHY + "strided/reversed/broadcast operands at lengths around SIMD widths, and element values other than a few, are not sampled.",
 files=["src/ops/registry.rs", "src/array/iter.rs", "src/python/ufuncs.rs", "src/python/pyarray/mod.rs"], mech=[("broadcasting", "src/array/mod.rs"), ("loop dispatch", "src/ops/registry.rs")],
 bounds="Shapes: all pairs with <= 3 axes of length 0..3; 8 shape pairs x 6 x 6 layouts with symbolic contents (int16, float64; thorough: float32, uint8); 1-D lengths 8..130 and 2-D 3x17..9x9 for five dtypes. where: 64 shape triples. Float results are compared as the IEEE operation; sqrt etc. as the correctly rounded function.")

prop(id="P05", title="Integer, boolean and mixed-dtype arithmetic is exact",
 statement="For every pair of operand dtypes (bool, int8..int64, uint8..uint64, float32, float64) the result has NumPy's promoted dtype and each element is exact in it: add, subtract, multiply, power (non-negative exponent) wrap around modulo 2^n; floor_divide, remainder, fmod and divmod follow NumPy (floor rounding, sign of the divisor; truncation for fmod; 0 for integer division by zero, wrap for MIN // -1; IEEE results for floats); shifts by at least the width or by a negative count give 0 (or -1 for a right shift of a negative value); bitwise and/or/xor act on the bits and reject floats; maximum/minimum/fmax/fmin compare exactly; true division of integers is float64. Integers to a negative integer power raise ValueError. No operand value panics, saturates or is routed through float64.",
 quant="all operand values (add/sub/mul/max/min/bitwise/shift for every dtype pair; division for 8/16-bit), extreme and rounding-sensitive values for 32/64-bit division and power", why=WHY + "wrap-around, MIN // -1, division by zero, over-wide shifts and 64-bit values above 2**53 in every dtype combination are not sampled.",
 files=["src/ops/registry.rs", "src/python/ufuncs.rs", "src/array/dtype/mod.rs"], mech=[("per-dtype binary loops", "src/array/dtype/mod.rs"), ("promotion", "src/array/dtype/mod.rs")],
 bounds="Arrays of 1-2 elements (longer ones: P04). Division: all values for 8/16-bit pairs; 32/64-bit any dividend by 9 divisors (0, 1, 2, powers of two, -1, -2, MIN, MAX) plus 19 x 19 value pairs; float division 14 x 14 values; power exponents 0..7 for all bases (8/16-bit) and 19 bases x 10 exponents up to 100.")

prop(id="P06", title="Comparisons and logical operations decide exactly",
 statement="==, !=, <, <=, >, >= return a bool array deciding the mathematical relation element by element: integers of any two dtypes, and integers against Python ints, compare as integers without rounding (uint64 against negative int64 included), pairs involving a float compare after conversion to the common float dtype, NaN is unordered and unequal to everything. logical_and/or/xor/not use truth value = nonzero (NaN is true). array_equal is True exactly when shapes are equal and all elements are equal; isclose/allclose decide |a-b| <= atol + rtol*|b| with infinities equal only to themselves and NaN per equal_nan.",
 quant="all element values for all 121 dtype pairs and all Python ints of 64 bits", why=WHY + "differences that only show above 2**53, between signed and unsigned, or with NaN are not sampled.",
 files=["src/ops/registry.rs", "src/python/ufuncs.rs", "src/ops/comparison.rs"], mech=[("comparison loops", "src/array/dtype/mod.rs"), ("array_equal / isclose", "src/ops/comparison.rs")],
 bounds="2 elements symbolic per pair (vector loops: 16..65 elements for four dtypes); isclose/allclose over 11 x 11 values x 3 x 3 tolerances.")

prop(id="P07", title="Dtype promotion and casting rules follow one table",
 statement="promote_types and result_type (names and arrays mixed) agree with NumPy's promotion table for all 14 numeric dtypes and are commutative; can_cast answers NumPy's no/equiv/safe/same_kind/unsafe rules (safe exactly when promotion keeps the target); add, multiply, divide, maximum, less, concatenate, stack and where really produce the promoted dtype (bool for comparisons, a float for divide); a safe cast preserves every value and casts back to the same value; itemsize/nbytes/dtype report the dtype's size; unknown dtype or casting names raise.",
 quant="all 14x14 (14^3 for result_type) dtype combinations, all element values of safe casts", why=WHY + "the full table and its agreement with the kernels are not enumerated by the tests.",
 files=["src/array/dtype/mod.rs", "src/python/ufuncs.rs", "src/ops/registry.rs"], mech=[("promote", "src/array/dtype/mod.rs"), ("can_cast / result_type", "src/python/shape.rs")],
 bounds="All pairs/triples; casts with 2 symbolic elements (int64/uint64 to float excluded from the round trip: NumPy calls it safe although it rounds).")

prop(id="P13", title="Joining, splitting, repeating and padding place exactly the named elements",
 statement="concatenate/concat, stack, vstack/hstack/dstack/column_stack, append, block, insert, delete, pad (constant, edge), resize, tile, repeat, roll, trim_zeros, split/array_split/hsplit/vsplit/dsplit and unstack return arrays of the shape NumPy prescribes, of the common dtype of the operands, in which every element is exactly the input element (or fill value) NumPy's definition names, for every layout of the inputs and every axis (negative included). split parts are consecutive views. Shapes that do not match, an axis or insert/delete index out of range, a negative repeat count or an uneven split raise an exception.",
 quant="all element values, all layouts, all axes and insert/roll/delete indices over 64-bit integers, counts within bounds", why=WHY + "non-contiguous inputs, negative axes, huge indices and empty inputs are rarely combined.",
 files=["src/python/shape.rs", "src/array/manipulation.rs", "src/python/indexing.rs"], mech=[("concatenate", "src/python/shape.rs"), ("insert/delete/pad", "src/python/shape.rs")],
 bounds="Axes <= 3, axis length <= 4 (joined up to 8), 6 layouts, dtypes int8/int64/float64/complex128 symbolic; mixed-dtype joins over all 121 dtype pairs; pad widths 0..3 in modes constant and edge; repeat -1..3, tile reps 0..2.")

prop(id="P09", title="Reductions combine exactly the elements of each lane",
 statement="For every array of any layout, sum, prod, max, min, mean, var, std, any, all, argmax, argmin, count_nonzero and ptp, over the whole array, over one axis (negative included) or (sum, prod, max, min, mean, any, all) a tuple of axes, and the methods' keepdims=True, return NumPy's shape (an axis reduction of a 1-D array keeps one element) and combine exactly the elements of each lane: integer and bool sums and products are exact modulo 2**64 in int64/uint64, max/min/argmax/argmin compare exactly and return the first extreme, NaN anywhere in a lane makes float max, min and mean NaN and is where argmax/argmin point, any/all/count_nonzero use truth value (NaN is true). An axis out of range or a maximum/minimum/argmax/argmin of no elements raises ValueError; the operand is unchanged and no memory outside it is read.",
 quant="all element values, all layouts, all axes over 64-bit integers, all dtypes", why=WHY + "strided lanes, 64-bit integers above 2**53, NaN positions and out-of-range axes are hardly combined.",
 files=["src/ops/dispatch.rs", "src/ops/ufunc.rs", "src/ops/mod.rs", "src/python/reductions.rs"], mech=[("reduce loops", "src/ops/dispatch.rs"), ("per-axis reductions", "src/ops/ufunc.rs"), ("axis handling", "src/python/reductions.rs")],
 bounds="Shapes (3), (1), (2,3), (3,1), (2,2,2) x 6 layouts, all 9 integer/bool dtypes and float32/float64 with symbolic contents (max/arg reductions: up to 4 symbolic elements, the others constants; prod: one symbolic factor or two elements); contiguous lengths around the vector widths; float mean/var/std over selected values compared within rounding.")

prop(id="P10", title="Running, differencing and filtering operations combine the right neighbours",
 statement="cumsum, cumprod (functions, methods and cumulative_sum/cumulative_prod), nancumsum, nancumprod, diff and ediff1d along any axis (negative included, or the flattened array) and for any layout return NumPy's shape and dtype, and each element is the exact (integers: modulo 2**64, or in the dtype of the input for diff) combination of exactly the elements the definition names. convolve and correlate return, in the promoted dtype and for modes full, same and valid, the exact sums of products; an empty operand or an unknown mode raises ValueError; gradient (uniform, scalar or coordinate spacing, per axis), trapezoid and interp follow NumPy's formulas, interp clamping outside the data. An axis out of range or mismatching coordinates raise.",
 quant="all element values (integer results), all layouts, axes over 64-bit integers", why=WHY + "wrap-around, strided lanes, short operands and NaN positions are rarely combined.",
 files=["src/ops/array_methods/cumulative.rs", "src/ops/numerical.rs", "src/array/manipulation.rs", "src/python/reductions.rs", "src/python/numerical.rs", "src/python/misc.rs"], mech=[("cumulative loops", "src/ops/array_methods/cumulative.rs"), ("gradient/interp/trapezoid", "src/ops/numerical.rs"), ("convolution", "src/array/manipulation.rs")],
 bounds="<= 3 axes of length <= 3 (filters: operands up to 4), 6 layouts, all integer dtypes with symbolic contents; floating-point results over exactly representable values.")

prop(id="P11", title="Sorting, partitioning and searching order the elements of each lane exactly",
 statement="For every layout and axis (negative included; None flattens for sort/argsort/partition), sort and ndarray.sort (in place) return a permutation of each lane in ascending order, argsort a stable permutation of positions that sorts it, partition/argpartition (functions and methods, kth counted from either end) put the k-th smallest element at k with none larger before and none smaller after it, lexsort orders by the last key first with stable ties. Comparisons are made in the dtype of the elements (64-bit integers exactly), NaN sorts last; searchsorted returns, for each value, the number of elements below it (side='left') or not above it ('right'), operands of different dtypes meeting in their common dtype and Python ints compared exactly; An axis or kth out of range, an unknown side or a non-1-D haystack raises ValueError. In-place forms change exactly the elements of the viewed array.",
 quant="all element values of a lane, all layouts, all kth over 64-bit integers", why=WHY + "ties, NaN, 64-bit values above 2**53, strided lanes and in-place operations on views are not sampled.",
 files=["src/ops/array_methods/sorting.rs", "src/python/indexing.rs", "src/ops/indexing.rs", "src/python/pyarray/mod.rs"], mech=[("lane sort", "src/ops/array_methods/sorting.rs"), ("searchsorted", "src/ops/indexing.rs"), ("element order", "src/array/dtype/macros.rs")],
 bounds="Lanes of 3 symbolic elements for every bool/integer dtype and float32/float64; shapes up to 3 axes x 6 layouts with 2 symbolic elements among constants; lanes of 9 with one symbolic element and of 25 and 50 with selected values; haystacks up to 4.")

prop(id="P12", title="Set operations return exactly the right distinct values in order",
 statement="For arrays of any layout, unique, unique_values and the Array API unique_counts/unique_inverse/unique_all return the distinct elements in ascending order in the dtype of the input, with counts, first positions and inverse indices (in the shape of the input) that describe the same decomposition; isin/in1d (with invert) decide membership; intersect1d, union1d, setdiff1d and setxor1d return the sorted distinct members of the intersection, union, difference and symmetric difference. Elements are compared exactly in the common dtype of the operands (64-bit integers without rounding), which is also the dtype of the result (setdiff1d: that of its first operand). NaN equals nothing: it is never found by isin, never in an intersection; unique and union1d report it once.",
 quant="all element values of small operands, all layouts, dtype pairs", why=WHY + "duplicates of 64-bit integers above 2**53, NaN, mixed dtypes and non-contiguous operands are not sampled.",
 files=["src/ops/set_ops.rs", "src/ops/array_methods/sorting.rs", "src/python/shape.rs", "src/python/indexing.rs"], mech=[("membership and set algebra", "src/ops/set_ops.rs"), ("unique", "src/ops/array_methods/sorting.rs")],
 bounds="unique*: 3 symbolic elements for all bool/integer dtypes, 2 of 4 for floats (others NaN/constants), 6 layouts. Two operands: up to 3+2 elements of which 2-3 symbolic over 10 integer and 5 float dtype pairs; 30+9 elements with selected values.")

prop(id="P15", title="Counting and binning put every value in exactly one right bin",
 statement="bincount counts exactly (length max+1 or minlength) and rejects negative values, floats and non-1-D input. histogram and histogram_bin_edges (given range or that of the data, widened by half when degenerate) return edges equally spaced from the lower to the upper end and counts such that each value v with edge[k] <= v < edge[k+1] (the last bin also includes its upper edge) is counted once in bin k and values outside or NaN nowhere; histogram2d and histogramdd count jointly by the same rule (density divides by the number counted and the bin area); digitize returns for each value its position among increasing or decreasing bins, right=True including the right edge. A non-positive bin count, a reversed or non-finite range and non-monotonic bins raise.",
 quant="all element values against fixed bin sets, all layouts", why=WHY + "values on bin edges, NaN, degenerate ranges and strided input are hardly sampled.",
 files=["src/ops/statistics.rs", "src/array/manipulation.rs", "src/ops/indexing.rs", "src/python/reductions.rs"], mech=[("binning", "src/ops/statistics.rs"), ("bincount", "src/array/manipulation.rs"), ("digitize", "src/ops/indexing.rs")],
 bounds="bincount: 0..3 elements in 0..3 for all integer dtypes; histogram: one symbolic element of float64/float32/int8/uint8 and one of selected values over 5 ranges, 6 layouts for data ranges; 2-D/N-D: 4 samples; digitize: up to 3 bins, one symbolic bin and value for all integer dtypes.")

prop(id="P22", title="NaN-ignoring reductions and order statistics use exactly the right elements",
 statement="For every layout and axis (negative included), nansum, nanprod, nanmin, nanmax, nanmean, nanvar, nanstd, nanargmin and nanargmax reduce exactly the non-NaN elements of each lane (no such element: 0, 1, NaN, or ValueError for nanargmin/nanargmax; integers as in the plain reductions, exactly); median, percentile and quantile return the middle element, mean of the two middle elements or linear interpolation of the sorted lane, and NaN when the lane contains NaN, while nanmedian, nanpercentile and nanquantile ignore NaN; average divides the weighted sum by the sum of the weights (in float64 for integers), with weights of the array's shape or 1-D along the axis. An axis out of range, q outside [0, 100] or [0, 1], weights of another shape, weights summing to zero and nanmin/nanmax of no elements raise; no input order or NaN position makes them panic.",
 quant="all NaN patterns over three elements of each array, arbitrary float64 values for the extremes, all layouts and axes", why=WHY + "NaN positions per lane, strided lanes and longer lanes with NaN are not sampled.",
 files=["src/ops/array_methods/reductions.rs", "src/ops/statistics.rs", "src/array/manipulation.rs", "src/python/reductions.rs"], mech=[("NaN-aware reductions", "src/ops/array_methods/reductions.rs"), ("median/average", "src/ops/statistics.rs"), ("percentile", "src/array/manipulation.rs")],
 bounds="Shapes (3), (2,3), (3,2), (2,1,3) x 6 layouts, float32/float64 with all NaN patterns over 3 elements, values exactly representable; symbolic float64 for nansum/nanmin/nanmax/nanarg*/median/percentile ends with 1-3 elements; lanes of 25 and 60; any q outside the range.")

prop(id="P14", title="Selection and element assignment move exactly the named elements",
 statement="take, take_along_axis, compress/extract, nonzero/argwhere/flatnonzero, choose, where and select return, in the dtype of the source (the common dtype for several sources), exactly the elements NumPy's definition names, for every layout, axis (negative included) and index (negative counts from the end); put, put_along_axis, place, putmask, copyto and ndarray.fill/put write exactly the named elements with the exactly converted values, through views, and change nothing else, also when source and destination overlap. An index or axis out of range, a condition that does not fit or operands that do not broadcast raise and leave the destination unchanged; item, tolist and flat return exact values.",
 quant="all element values, all 64-bit indices and axes, all layouts, dtype pairs", why=WHY + "out-of-range and negative indices, 64-bit integers above 2**53, strided and overlapping operands are not sampled.",
 files=["src/ops/indexing.rs", "src/ops/mod.rs", "src/python/indexing.rs", "src/python/misc.rs", "src/python/creation.rs", "src/python/pyarray/mod.rs"], mech=[("take/compress/put/choose", "src/ops/indexing.rs"), ("where", "src/ops/mod.rs"), ("place/putmask/select/extract", "src/python/misc.rs")],
 bounds="Sources up to 2x3 / 2x2x2 elements x 6 layouts, 1-3 indices (each any int64), all index dtypes; conditions of up to 3 symbolic elements; where over symbolic 64-bit values and all integer dtypes, float values by bit pattern; unsigned 64-bit and float index arrays excluded.")

prop(id="P24", title="Index arithmetic, open meshes and bit packing are exact inverses",
 statement="unravel_index and ravel_multi_index (order C and F; modes raise, wrap, clip) compute the exact row- or column-major position of every coordinate tuple and are inverse to each other, raising for anything out of range or too large; tril/triu_indices(_from), diag_indices(_from), mask_indices and ix_ name exactly the documented positions and fill_diagonal (with wrap) writes exactly the diagonal. packbits and unpackbits (both bit orders, any axis, count) place bit j of byte i at element 8i+j with zero padding, so unpackbits(packbits(x), count=n) recovers the truth values of x; ndindex, ndenumerate and flat enumerate every index once in row-major order with its exact element.",
 quant="all 64-bit indices, coordinates, offsets and axes, all bit patterns, all layouts", why=WHY + "overflowing shapes, offsets beyond the matrix, negative axes and strided views are not sampled.",
 files=["src/ops/indexing.rs", "src/python/indexing.rs", "src/python/pyarray/mod.rs"], mech=[("unravel/ravel", "src/ops/indexing.rs"), ("packbits/unpackbits", "src/ops/indexing.rs"), ("iterators", "src/python/indexing.rs")],
 bounds="Shapes up to 3 axes of length <= 3 with any int64 index; offsets k any int64; matrices up to 4x4; bit vectors up to 17 elements (all patterns) and 2-D up to 2x9; count within -10..20 (an enormous count aborts on allocation failure and is excluded).")

prop(id="P25", title="Calls leave their operands unchanged and copies share no memory",
 statement="A call of a function, operator or method that is not documented to work in place leaves the contents, shape, strides and address of every operand unchanged, also when the same array is passed twice, when operands are views, and when a large operand's buffer could be reused. Every array such a call returns (ufuncs, reductions, sorting, joining, products, np.array, copy, flatten, astype to any dtype, fancy and mask indexing) occupies memory disjoint from its operands, while slices, transpose, T, flip, swapaxes, expand_dims and broadcast_to are views of it; shares_memory and may_share_memory report this.",
 quant="all element values, all operand layouts, the listed functions", why=WHY + "aliasing between result and operand only shows when one of them is written later.",
 files=["src/ops/mod.rs", "src/array/mod.rs", "src/array/buffer.rs", "src/python/creation.rs", "src/python/ufuncs.rs", "src/python/pyarray/mod.rs"], mech=[("buffer reuse in operators", "src/python/pyarray/dunder_ops.rs"), ("copies", "src/array/mod.rs")],
 bounds="56 unary and 38 binary functions and 9 operators over operands of 2-4 elements with one or all elements symbolic; arrays of 32768 elements for buffer reuse; float64 matrix products (faer) excluded.")

prop(id="P16", title="Creation functions return exactly the array they describe, or raise",
 statement="zeros, ones, full (and their _like forms, also empty's shape), eye, identity, tri, tril, triu, diag, diagflat, indices, meshgrid (xy and ij), arange and linspace return a C-contiguous array of the requested shape and dtype (the default dtype NumPy documents) with exactly the documented elements: integer arange and full are exact for all 64-bit integers, linspace starts at start and ends at stop, and tri, tril and triu accept every 64-bit offset. copy, array, asarray, ascontiguousarray, asfortranarray and require keep every element in the layout and dtype asked for (copy, array and the _like forms never share memory with their argument). A negative or unrepresentably large size, a zero step, a non-finite range, an integer the dtype cannot hold (OverflowError), a fill array that does not broadcast or an unknown indexing mode raises.",
 quant="all 64-bit fill values, sizes, offsets and range bounds, all float fill values, all dtypes, all source layouts", why=WHY + "integers above 2**53, values out of the dtype's range, sizes that overflow, huge offsets and strided sources are not sampled.",
 files=["src/python/creation.rs", "src/array/constructors.rs", "src/array/manipulation.rs", "src/python/pyarray/mod.rs"], mech=[("argument handling and size checks", "src/python/creation.rs"), ("arange/linspace/eye", "src/array/constructors.rs"), ("tri/tril/triu/diag/meshgrid/indices", "src/array/manipulation.rs")],
 bounds="Results of up to 16 elements, up to 3 axes, 13 dtypes, 6 source layouts; fill values over all 64-bit signed and unsigned integers and all doubles; arange starts over 2**16-value windows at 0 and below 2**63 (steps 1, -1, 2) and at nine boundary values (nine steps); refused sizes over all int64; linspace ends over all doubles up to 1e300 (inner points on exactly representable steps); float arange on exactly representable steps.")

prop(id="P17", title="Products and contractions are the exact sums of products they name",
 statement="matmul (@), dot, inner, vdot, outer, kron, cross, tensordot, einsum, multi_dot, matrix_power and trace return an array of NumPy's shape (1-D operands, batches that broadcast, empty contractions giving 0) in the common dtype of the operands (trace: the 64-bit sum) in which every element is the sum of exactly the products of the definition: modulo 2**n for integers, or-of-ands for bool, for every layout of the operands. einsum honours repeated, batch, free and contracted indices, implicit output order and up to three operands; shapes that do not fit, axes out of range and malformed subscripts raise.",
 quant="all element values for every integer and bool dtype, all layouts, all 64-bit tensordot axes", why=WHY + "integer wrap-around, 64-bit values above 2**53, negative strides, mixed dtypes and empty contractions are not sampled.",
 files=["src/ops/matmul.rs", "src/ops/dot.rs", "src/ops/inner.rs", "src/ops/outer.rs", "src/ops/einsum.rs", "src/ops/linalg.rs", "src/python/linalg.rs", "src/python/einsum.rs"], mech=[("integer matrix product", "src/ops/matmul.rs"), ("einsum", "src/ops/einsum.rs"), ("tensordot/kron/cross", "src/ops/linalg.rs")],
 bounds="Axes <= 3 of length <= 3 (tensordot/batches up to 4 axes of length <= 2), up to 3 symbolic elements per operand, 4 layouts each; 38 einsum subscripts; float and complex matrix products go through the faer library and are not encoded (outer, kron and elementwise einsum are, for float64/float32).")

prop(id="P08", title="Python values, buffers and arrays convert into each other exactly",
 statement="array and asarray of (up to 2-level) lists of bools, ints and floats build exactly the listed elements in the inferred dtype (bool, int64, uint64 only where needed, float64) or the requested one, with OverflowError for an integer an integer dtype cannot hold and ValueError for ragged lists; an object exposing __array_interface__ is copied element for element for any strides and native dtype (foreign byte order or malformed descriptions are refused). tolist, item, int(), float() and bool() give back the exact values (int/float/bool only for one element), tobytes writes the elements in row-major order for every layout and frombuffer reads exactly the bytes its count and offset name or raises; astype converts every element in every layout, integers modulo 2**n.",
 quant="all element values of every dtype, all bit patterns, all 64-bit offsets and counts, all layouts", why=WHY + "64-bit integers above 2**53, values beside the dtype's range, negative strides and offsets are not sampled.",
 files=["src/python/creation.rs", "src/python/pyarray/dunder_ops.rs", "src/python/pyarray/mod.rs", "src/array/mod.rs", "src/array/constructors.rs"], mech=[("list and buffer import", "src/python/creation.rs"), ("scalar conversion", "src/python/pyarray/dunder_ops.rs"), ("astype", "src/array/mod.rs")],
 bounds="Lists up to 2x2 with symbolic 64-bit ints and doubles; buffers of 24 symbolic bytes; foreign arrays of up to 2x3 elements with symbolic contents and four stride patterns; astype over all pairs of bool/integer/float dtypes (float to integer only for values in range) and 6 layouts.")

prop(id="P20", title="Dates and time spans obey the Gregorian calendar, exact units and NaT",
 statement="ISO strings parse to exactly the moment they name in the unit of the array, '' and NaT to NaT, and every other string raises ValueError; datetime_as_string writes what parses back. Converting dates and spans to a finer unit multiplies exactly (years and months start at their first day), to a coarser one rounds down to the unit that contains the moment, for every year including leap years and those before 1970; sums and differences of dates and spans are exact in the finer unit of the operands, spans of years or months never meet days, NaT propagates through arithmetic, conversion, maximum/minimum (not fmax/fmin) and axis max/min, is unequal to and unordered with everything, comes first in argmax/argmin and last in sort. is_busday, busday_count and busday_offset (from a business day) follow the week mask and holidays of the calendar for every day, and an invalid week mask raises.",
 quant="all 64-bit values for arithmetic, comparison and NaT; all days of each of 14 years; all digits of a date or time string", why=WHY + "leap years, dates before 1970, NaT operands, mixed units and malformed strings are not sampled.",
 files=["src/array/dtype/datetime64.rs", "src/ops/datetime.rs", "src/python/datetime.rs", "src/array/mod.rs"], mech=[("calendar and unit conversion, parsing", "src/array/dtype/datetime64.rs"), ("arithmetic and comparison", "src/ops/datetime.rs"), ("business days", "src/python/datetime.rs")],
 bounds="Calendar: every day of 14 years between -400 and 2100 and the first days of every month of 22 years from -99999 to 123456; unit conversion: all 64-bit values to finer units, windows of 40000 values at three bases and the extremes to coarser ones; strings: all digit pairs of month, day and one time part; 2-3 elements and 4 layouts; business days: 601-day windows at six bases, three calendars. Full (axis=None) max/min/sum/mean of dates and busday_offset from a non-business day excluded.")
