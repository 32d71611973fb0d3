#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only for readable editing)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

B="include/tensor/detail/tensor_base.hpp"
prop("C01","Copies of containers are independent values",
 "Copying or assigning a vector, index list, tensor or sparse matrix gives an independent value: it has the source's contents at that moment, and no later write through either one (element write, iterator write, fill, in-place arithmetic, slice assignment, resize, reassignment, destruction) changes what the other reads. Assigning a container to itself leaves it unchanged.",
 ["histories","inputs"],"every finite sequence of construction, copy, assignment, write and destruction over any number of containers of any size",
 "Tests check a handful of copy-then-write sequences on small tensors; sharing errors depend on the order of copies and writes and on who is destroyed first.",
 ["include/tensor/refcount.h","include/tensor/detail/refcount.hpp","include/tensor/vector.h",B],
 [("copy-on-write before a mutable pointer is handed out","RefPointer::appropriate, RefPointer::begin/end in include/tensor/refcount.h and detail/refcount.hpp"),("reference counting","RefPointer copy constructor, operator=, dereference")],
 [("reference count of a buffer","number of holders that share it","RefPointer::pointer::references_")],["Vector::ref_count","contents read through const access"])
prop("C02","Shared buffers are released exactly once and only when unused",
 "Storage that a container allocated is released exactly once, when the last container that shares it is destroyed, reassigned or resized, and never while another still uses it. External memory wrapped by a container is read and written in place while unshared and is never released by the library; growing, shrinking or detaching a container from it gives the container storage of its own.",
 ["histories"],"every finite sequence of construct, wrap, copy, assign, resize, write and destroy operations",
 "Leaks and double releases need particular sequences; the tests run without a memory checker and only look at reference counts in few cases.",
 ["include/tensor/refcount.h","include/tensor/detail/refcount.hpp","include/tensor/vector.h"],
 [("owned flag","RefPointer::pointer::~pointer"),("release on last dereference","RefPointer::dereference"),("fresh owned clone","RefPointer::pointer::clone")],
 [("references_ / owned_","holders / whether to free","include/tensor/detail/refcount.hpp")])
prop("C03","Element access addresses column-major storage and rejects bad indices",
 "Reading or writing element (i1,...,ir) of a tensor of rank 1 to 6 touches exactly the storage position i1 + d1*(i2 + d2*(i3 + ...)), and an index in [-d,-1] means the one counted from the end of that dimension. An index outside [-d, d-1], or a number of indices different from the rank, aborts before any element is touched (at(i) with a single index addresses the storage of a tensor of any rank), and a write never changes another element.",
 ["inputs"],"all dimension vectors of rank 1 to 6, all index tuples, real and complex elements, read and write access",
 "Tests enumerate small shapes with sizes up to about ten; each rank has its own hand-expanded address formula in a const and a mutable version.",
 [B,"include/tensor/indices.h","include/tensor/tensor.h"],
 [("address polynomial per rank","Tensor::operator()/at overloads in "+B),("index normalisation with bounds assertion","normalize_index in include/tensor/indices.h"),("rank check","Tensor::get_dimensions")])
prop("C04","A tensor's shape always describes its storage",
 "After any constructor, factory (zeros, ones, identity, fill), conversion, reshape or assignment, the number of stored elements equals the product of the dimensions, every dimension is the requested one, and the documented initial contents are there. Reshaping keeps all elements in storage order, shares no later changes with its source, and aborts when the sizes differ.",
 ["inputs"],"all lists of non-negative dimensions (including zero) and all element contents",
 "Tests sample small fixed shapes; the product invariant is relied upon by every algorithm for every shape.",
 [B,"include/tensor/tensor.h","include/tensor/detail/tensor_reshape.hpp","src/tensor/tensor_reshape_d.cc","src/tensor/tensor_reshape_z.cc","src/tensor/tensor_flatten_d.cc","src/indices/indices.cc"],
 [("storage allocated with the product of dimensions","Tensor constructors"),("size check","Tensor::reshape, Tensor(const Indices&, const Tensor&)")])
prop("C05","Reading a slice returns exactly the selected elements",
 "Taking a slice of a tensor of rank 1 to 6 with any mix of full, single-index, strided (step at least 1) and listed index ranges, or of any tensor taken as one long vector with one range, yields the tensor with one dimension per range, equal to the number of indices it selects (one for a single index), whose element (k1,...,kr) is the source element at the k-th selected index of each range. Negative indices and range bounds count from the end, empty selections give empty tensors, a selection outside the source's bounds aborts, and so does a number of ranges different from the rank. The source is unchanged.",
 ["inputs"],"all tensor shapes, all combinations of ranges per dimension",
 "Range kinds, ranks and strides combine to a space that tests sample; ranges are traversed through nested counters whose carries depend on every size.",
 ["src/views/range.cc","src/tensor/tensor_view.hpp","include/tensor/detail/tensor_slice.hpp","include/tensor/indices.h"],
 [("range iteration","pop/reset/set_factor/set_limit/size of FullRange, SingleRange, StepRange, IndexRange in src/views/range.cc"),("nesting, first index fastest","ProductRange"),("slices","Tensor::operator()(PRange...) and view::operator Tensor in src/tensor/tensor_view.hpp")])
prop("C06","Assigning to a slice changes exactly the selected elements",
 "Assigning a tensor, a slice or a scalar to a slice (ranges as for reading, without repeated indices) stores the k-th value (in column-major order) at the k-th selected position and leaves every unselected element, and the shape, unchanged; this also holds when the source is the same tensor or a slice of it, whose values before the assignment are used. Other tensors that shared storage before keep their contents. A source whose number of elements differs from that of the slice aborts, and so does a number of ranges different from the rank or a selection out of bounds.",
 ["inputs","histories"],"all tensor shapes, all combinations of ranges, all sources",
 "As for slice reads; tests cannot check the untouched elements of every combination.",
 ["src/views/range.cc","src/tensor/tensor_view.hpp","include/tensor/detail/tensor_slice.hpp","include/tensor/indices.h"],
 [("ranges drive the writes","Tensor::at(PRange...) and Tensor::mutable_view::operator= in src/tensor/tensor_view.hpp")])
prop("C07","Elementwise arithmetic maps every element and keeps the shape",
 "Tensor-tensor, tensor-scalar and scalar-tensor +, -, *, / (real, complex and mixed), their in-place forms and the elementwise functions (negation, abs, square root, exponential, logarithm, trigonometric and hyperbolic functions, rounding, real/imaginary part, conjugate, conversion to complex) give a tensor of the operands' shape whose every element is the operation applied to the elements at the same position, operand order respected. Operands with different numbers of elements abort, and no operand other than the in-place target changes.",
 ["inputs"],"all shapes, all contents, all operand type combinations",
 "There are about eighty hand-instantiated source files, one per operator and type; tests use a few sizes and symmetric data.",
 ["src/tensor/tensor_t_op_t.cc","src/tensor/tensor_t_op_n.cc","src/generated","include/tensor/detail/tensor_ops.hpp","src/tensor/tensor_round_d.cc","src/tensor/tensor_conj.cc","src/tensor/tensor_to_complex.cc"],
 [("elementwise loops","src/generated/tensor_*_{tt,tn,t1}_*.cc and templates in src/tensor")])
prop("C08","Comparisons and boolean masks are exact elementwise predicates",
 "Each comparison (==, !=, <, <=, >, >=) between tensors, index lists or one of these and a scalar on either side gives a mask of the same length whose every entry is the mathematical truth of that comparison at that position, with operand order respected. Logical and, or, not on masks work per entry, all-equal is true exactly when shapes and all elements agree, and any-of, all-of, none-of and which report exactly the true entries (in increasing order for which); operands of different size abort.",
 ["inputs"],"all sizes (including zero), contents, operators and operand orders",
 "Scalar-on-the-left and per-type variants are separate code; tests sample few values and rarely the boundary (equal) case for each operator.",
 ["include/tensor/tensor.h","include/tensor/indices.h","src/compare","src/indices/booleans.cc","src/indices/booleans_and.cc","src/indices/booleans_or.cc","src/indices/booleans_not.cc","src/indices/which.cc"],
 [("comparison loops","src/compare/comparisons and inline scalar-left operators in include/tensor/tensor.h, indices.h"),("mask scans","src/indices/booleans.cc, which.cc")])
prop("C09","Index-list utilities compute their mathematical definition",
 "Concatenation gives the first list followed by the second; integer ranges with a step list start, start+step, ... up to the inclusive end; the total size is the product of entries; for a position of the list the surrounding sizes are the products of the entries before it, at it and after it. Linearly spaced sequences start at the first value, end at the last and are equidistant, and conversion of an index list to a tensor keeps values and order.",
 ["inputs"],"all index lists, positions, ranges and lengths",
 "These products and bounds steer every tensor algorithm; tests use a few literal lists.",
 ["src/indices/indices.cc","src/indices/concat.cc","src/indices/surrounding_dimensions.cc","src/indices/linspace.hpp","src/indices/to_tensor.cc","include/tensor/indices.h"],
 [("product loops","Indices::total_size, surrounding_dimensions"),("range construction","Indices::range / iota")])
prop("C10","Permutation, transpose and adjoint move every element to its place",
 "Exchanging two dimensions (named by non-negative or from-the-end position) of a tensor gives the tensor with those two dimensions swapped whose element at any index tuple equals the source's element at the tuple with the two indices swapped. Matrix transpose is that exchange for rank 2, the adjoint additionally conjugates, and applying any of them twice returns the original.",
 ["inputs"],"all ranks, shapes (unit and zero dimensions included), pairs of positions, real and complex contents",
 "Four specialised loop nests are selected by which block sizes are one; tests reach small shapes only.",
 ["src/tensor/tensor_permute.cc","src/tensor/matrix_transpose_d.cc","src/tensor/matrix_transpose_z.cc","src/tensor/matrix_adjoint.cc"],
 [("strided copy nests","permute_12/23/24/13 and do_permute in src/tensor/tensor_permute.cc")])
prop("C11","Contraction sums products over exactly the contracted dimension",
 "Contracting dimension i of A with dimension j of B gives the tensor whose dimensions are A's without i followed by B's without j (at least one dimension) and whose elements are the sums over the common index of A-element times B-element, with A conjugated in the conjugating form; the inner-position form places A's remaining dimensions at position j of B instead. The matrix product is the contraction of the last with the first dimension, negative positions count from the end, and unequal contracted sizes abort.",
 ["inputs"],"all ranks, shapes (unit sizes included) and position pairs; real, complex and mixed element types",
 "Fast paths for vectors, unit blocks and general blocks use different BLAS calls and leading dimensions; tests sample shapes.",
 ["src/tensor/tensor_fold.cc","src/tensor/tensor_fold_d.cc","src/tensor/tensor_fold_z.cc","src/tensor/tensor_fold_dz.cc","src/tensor/tensor_foldin.cc","src/tensor/gemm.cc","include/tensor/tensor_blas.h"],
 [("block decomposition and gemm/gemv/dot calls","do_fold in src/tensor/tensor_fold.cc, do_foldin in src/tensor/tensor_foldin.cc")])
prop("C12","Scaling multiplies each slab by its weight",
 "Scaling a tensor along a dimension by a vector multiplies every element by the vector entry at the element's index in that dimension, in the value-returning and the in-place form alike, leaving the shape as it was. A weight vector whose length differs from that dimension, or a dimension that does not exist, aborts.",
 ["inputs"],"all ranks, shapes, dimensions (negative included), real/complex weights and tensors",
 "Unit inner block has a separate fast path; tests sample shapes.",
 ["src/tensor/tensor_scale.cc","src/tensor/tensor_scale_d.cc","src/tensor/tensor_scale_z.cc"],
 [("three-level block loop","do_scale in src/tensor/tensor_scale.cc")])
prop("C13","Traces and diagonals select exactly the equal-index elements",
 "The partial trace over two dimensions sums, and taking a diagonal lists, exactly the elements whose (offset) indices in the two dimensions agree, for every combination of the remaining indices, with the documented result shape. The matrix trace is the sum of the diagonal, and building a matrix from a diagonal puts the entries at the requested offset, zero elsewhere, with the requested or minimal size.",
 ["inputs"],"all ranks, shapes, pairs of dimensions, diagonal offsets of either sign",
 "Dimensions before, between and after the pair make four block sizes; tests take small cubic shapes where mistaken block sizes coincide.",
 ["src/tensor/tensor_trace.cc","src/tensor/tensor_take_diag.cc","src/tensor/matrix_trace.cc","src/tensor/matrix_diag.cc"],
 [("block loops","do_trace, do_diag/do_take_diag")])
prop("C14","Kronecker products place every pairwise product",
 "The Kronecker product of two matrices or vectors has as dimensions the products of the operands' dimensions and as elements all pairwise products in the documented operand order; the Kronecker sum of two square matrices equals the sum of the Kronecker products with identity matrices. The same holds for every shape, also when the operands have different sizes.",
 ["inputs"],"all matrix and vector shapes, contents, real and complex",
 "Tests use few shapes; order and stride errors cancel for equal or symmetric operands.",
 ["src/tensor/tensor_kron.hpp","src/tensor/tensor_kron_d.cc","src/tensor/tensor_kron2_sum_d.cc"],
 [("nested product loops","do_kron in src/tensor/tensor_kron.hpp")])
prop("C15","Changing, squeezing and flattening dimensions preserves elements",
 "Changing the size of one dimension keeps every element whose index still exists at the same index tuple and fills new positions with zero; squeezing removes exactly the dimensions of size one (leaving at least one dimension) and flattening gives rank one, both keeping all elements in order.",
 ["inputs"],"all ranks, shapes (including zero sizes), dimensions and new sizes",
 "Growing and shrinking with dimensions before and after the changed one; tests sample.",
 ["src/tensor/tensor_change_dimension.cc","src/tensor/tensor_squeeze.cc","src/tensor/tensor_flatten_d.cc"],
 [("block copy","do_change_dimension"),("dimension filter","squeeze_dims")])
prop("C16","Reductions combine every element exactly once",
 "Sum, mean, minimum, maximum, maximum-norm, 2-norm, matrix infinity-norm and scalar product depend on each element exactly once and equal their definition up to floating-point rounding; the mean along a dimension gives a tensor without that dimension whose elements are the means over it. This holds for every size down to a single element, wherever the extreme element sits.",
 ["inputs"],"all sizes, shapes, contents, real and complex",
 "Tests use small or random tensors; first/last element and sign mistakes show only for particular positions of the extremum.",
 ["src/tensor/tensor_sum_d.cc","src/tensor/tensor_mean_d.cc","src/tensor/tensor_mean_ndx.cc","src/tensor/tensor_min_d.cc","src/tensor/tensor_max_d.cc","src/tensor/tensor_norm0_d.cc","src/tensor/tensor_norm2_d.cc","src/tensor/matrix_norminf_d.cc"],
 [("accumulation loops","src/tensor/tensor_{sum,mean,min,max,norm0,norm2}_{d,z}.cc")])
prop("C17","Sparse matrices stay well formed and denote a unique dense matrix",
 "Every sparse matrix the library builds (from a dense matrix, from coordinate lists, identity, random, or any operation) has non-decreasing row offsets starting at zero and ending at the number of stored entries, and strictly increasing valid column numbers within each row. Reading element (i,j) gives the stored value or zero, negative indices count from the end, out-of-range ones abort, and dense-to-sparse-to-dense returns the original matrix; a coordinate list with repeated positions keeps one value per position and dimensions just large enough.",
 ["inputs","histories"],"all matrices and coordinate lists in any order, with empty rows and columns",
 "Format invariants concern the internal arrays, which tests inspect for a few literal matrices only.",
 ["include/tensor/detail/sparse_base.hpp","include/tensor/sparse.h","src/sparse/full_d.cc"],
 [("compressed row storage","Sparse constructors and operator() in include/tensor/detail/sparse_base.hpp")],
 [("row_start_, column_, data_","compressed rows","include/tensor/sparse.h")])
prop("C18","Sparse arithmetic agrees with dense arithmetic",
 "Adding, subtracting or multiplying elementwise two sparse matrices, and multiplying or dividing one by a scalar, gives a well-formed sparse matrix whose dense form equals the dense operation on the dense forms, whatever the sparsity patterns. Operands of different dimensions abort, and equality of sparse matrices agrees with equality of their dense forms when both store only non-zero entries.",
 ["inputs"],"all pairs of sparsity patterns and values, real and complex",
 "The merge loop branches on which operand's next column comes first; tests sample random patterns.",
 ["src/sparse/sparse_binop.hpp","include/tensor/detail/sparse_ops.hpp","src/sparse/sparse_d.cc","src/generated"],
 [("row-wise merge","sparse_binop in src/sparse/sparse_binop.hpp")])
prop("C19","Sparse times dense products agree with the dense product",
 "Multiplying a sparse matrix with a dense tensor, on either side, equals contracting the sparse matrix's dense form with the tensor: dimensions, element order and values (up to rounding), also for matrices with empty rows or columns and tensors of rank one and above two. Unequal contracted sizes abort.",
 ["inputs"],"all sparsity patterns, tensor ranks and shapes, real and complex",
 "Separate index arithmetic per side; tests sample square random cases.",
 ["src/sparse/mmult_sparse_tensor.h","src/sparse/mmult_tensor_sparse.h","src/sparse/mmult_sparse_tensor_d.cc","src/sparse/mmult_tensor_sparse_d.cc"],
 [("compressed row traversal","src/sparse/mmult_*.h")])
prop("C20","Sparse structural maps agree with their dense counterparts",
 "Transpose, adjoint, conjugate, real and imaginary part, conversion to complex, Kronecker product and Kronecker sum of sparse matrices each give a well-formed sparse matrix whose dense form is the dense operation applied to the dense forms.",
 ["inputs"],"all sparsity patterns and shapes, including empty ones",
 "Tests sample square random matrices.",
 ["src/sparse/sparse_transpose_d.cc","src/sparse/sparse_adjoint_z.cc","src/sparse/sparse_kron.hpp","src/sparse/sparse_real.cc","src/sparse/sparse_rows.cc","include/tensor/detail/sparse_base.hpp"],
 [("transpose through coordinate lists","src/sparse/sparse_transpose_*.cc"),("row-by-row product","src/sparse/sparse_kron.hpp")])
prop("C21","Sorting returns the ordered permutation of its input",
 "Sorting a vector or index list, in increasing or decreasing order, returns the same elements with multiplicity in that order, and the index-returning form returns a permutation of all positions that puts the input in that order. The input is unchanged, and equal elements and extreme values are handled like any other.",
 ["inputs"],"all lengths and contents",
 "Tests sort a few random vectors.",
 ["src/tensor/tensor_sort_d.cc","src/tensor/tensor_sort_i.cc"],
 [("library sort with a comparator","src/tensor/tensor_sort_*.cc")])
prop("C22","Data files give back exactly what was stored",
 "Loading the records of a data file in the order in which they were stored yields, under the same names, bit-identical numbers, tensors of the same dimensions and sequences of tensors, real and complex (integers up to 2^53 in absolute value; names are told apart by their first 63 characters). Asking for a record that is not the next one, is of another type or is not there, or a file that cannot be written or is not a data file, ends the program with an error instead of giving back other data. A file written in paranoid mode becomes visible under its final name only complete, when the writer closes or is destroyed.",
 ["inputs","histories"],"all sequences of stored records, all shapes and values, all record names",
 "Tests store a few records each; tags, lengths and name padding depend on the record's type and name length.",
 ["src/sdf/odata_file.cc","src/sdf/idata_file.cc","src/sdf/data_file.cc","include/tensor/sdf.h"],
 [("tagged records","OutDataFile::dump, InDataFile::load"),("temporary file renamed at close","OutDataFile constructor/close in src/sdf/odata_file.cc")])
prop("C23","Job ranges cover every parameter combination exactly once",
 "For a job description with any number of parameters, the number of jobs is the product of the parameters' sample counts, job number n selects the n-th combination in mixed-radix order with each value equidistant between its limits, and distinct job numbers select distinct combinations. Splitting the jobs into blocks assigns every job number to exactly one block.",
 ["inputs","configurations"],"all parameter counts and sample sizes, job numbers and block counts",
 "Tests do not exercise the job driver with several parameters and blocks.",
 ["src/tools/jobs.cc","include/tensor/jobs.h"],
 [("mixed-radix decoding","Job::select_job"),("block limits","Job constructor option parsing")])
prop("C24","Random numbers stay in range and follow the seed",
 "Uniform random reals lie in [0,1), bounded random integers lie in [lower, upper) or [0, upper), every element of a random tensor is drawn in range, and the integer generator reproduces the reference Mersenne-Twister sequence for its seed. The same seed gives the same sequence in every run.",
 ["inputs","histories"],"all seeds, bounds and sequence positions",
 "Tests draw some numbers and check statistics; a range violation may need one output word in 2^32.",
 ["src/rand/rand.cc","src/rand/rand32.cc","src/rand/rand64.cc","src/rand/mt.h","include/tensor/rand.h"],
 [("tempering and conversion","src/rand"),("range reduction","rand<T>(lower, upper) in include/tensor/rand.h")])
prop("C25","Matrix decompositions and solvers satisfy their defining equation",
 "For admissible matrices, linear solves satisfy A X = B, singular value decompositions reproduce A with orthonormal factors and non-increasing non-negative values, eigenvalue decompositions satisfy A V = V D (left eigenvectors likewise), and the matrix exponential satisfies its definition, all up to rounding; economic and full forms have the documented shapes. Arguments are never modified, and non-square or mismatched arguments abort.",
 ["inputs"],"all matrix shapes including single rows and columns, real and complex",
 "Each driver passes sizes, leading dimensions and workspaces to an external solver; tests sample sizes and random matrices.",
 ["src/linalg/solve_d.cc","src/linalg/svd_d.cc","src/linalg/eig_d.cc","src/linalg/eig_sym_d.cc","src/linalg/expm_d.cc","src/linalg/solve_with_svd_{d,z}.cc","include/tensor/tensor_lapack.h"],
 [("LAPACK calls on private copies","src/linalg/*.cc")])
prop("C26","Block decomposition loses nothing",
 "Splitting a matrix into independent blocks assigns every row and every column with a non-zero entry to exactly one block, so that no non-zero element couples different blocks, and the block-wise singular value decomposition reproduces the matrix and its singular values up to rounding and order. This holds for every zero pattern.",
 ["inputs"],"all matrices and zero patterns",
 "Tests use a few block structures; the block search depends on the order in which couplings are met.",
 ["src/linalg/find_blocks.hpp","src/linalg/block_svd.hpp"],
 [("connected-component search","find_blocks"),("assembly","block_svd")])
prop("C27","Fourier transforms act along exactly the chosen dimensions",
 "The forward and inverse transforms, over all dimensions, one dimension or a marked subset, in place or not, equal the unnormalised discrete Fourier sum over exactly those dimensions for every shape, and the shift operation moves index k of each chosen dimension to the documented rotated position so that the opposite shift undoes it. Sources are never modified by the out-of-place forms, and unsuitable dimension arguments abort.",
 ["inputs"],"all ranks, shapes (odd and even sizes), subsets of dimensions",
 "Strides and how-many-transforms arguments depend on the position of the dimension; tests sample a few ranks.",
 ["src/fftw/fftw.cc","src/fftw/fftw_inplace.cc","src/fftw/fftw_common.cc","src/fftw/fftshift.cc"],
 [("plan construction from dimensions","src/fftw/fftw_common.cc"),("rotation","src/fftw/fftshift.cc")])
prop("C28","Iterative solvers converge to the stated accuracy",
 "For admissible operators the conjugate-gradient solver, the power method and the sparse eigenvalue solver return solutions whose residual is within the requested tolerance.",
 ["inputs"],"all admissible operators and tolerances",
 "Tests use a few random well-conditioned operators.",
 ["src/linalg/cgs.cc","src/linalg/eig_power.hpp","src/arpack/arpack_t.cc"],
 [("iteration to tolerance","src/linalg/cgs.cc, src/linalg/eig_power.hpp, src/arpack")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
ids=[p["id"] for p in P]; assert len(set(ids))==len(ids)
for p in P: assert len(p["title"])<=80,p["id"]
