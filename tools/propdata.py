ABS = ("static analysis: path-partitioned abstract interpretation (value numbering to polynomial normal forms, loop recurrences closed to "
       "quantified summaries) over the LLVM SSA of the current sources, compared with a reference summary; nothing is executed")
NOTE = ("Sound for the obligations reported as discharged, under the models of the container primitives in lib/models.py and real arithmetic instead of "
        "floating point; obligations outside the domain are reported as not_resolved and are not claimed.")
PROPS = []


def P(id, title, statement, quant, why, files, mech, over=("inputs",), technique=ABS, note=NOTE, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quant=quant, why=why, files=files, mech=mech, over=list(over),
                      technique=technique, note=note, na=na))


P("C01", "Elementwise tensor arithmetic computes a[i] op b[i] in the operands' shape",
  "For every pair of tensors with the same number of elements, and for every tensor combined with a scalar on either side, the operators + - * / "
  "(and unary minus, and the in-place forms += -= *= /=) return a tensor with the dimensions of the (first) tensor operand whose element i is exactly "
  "a[i] op b[i], in that operand order, for real, complex and mixed operands. Tensor operands with different numbers of elements never produce a result.",
  "all tensors of any rank and size (including empty ones), all scalars, all real/complex combinations",
  "The tests try small shapes and compare against the same expression; a wrong operand order, a skipped last element or a lost dimension in one of the ~80 overloads "
  "shows only for some shape or type combination.",
  ["include/tensor/detail/tensor_ops.hpp", "include/tensor/detail/functional.h", "src/generated", "src/tensor/tensor_t_op_t.cc"],
  [("element loops of the operator overloads", "src/generated/tensor_plus_tt_double.cc"), ("in-place operators", "include/tensor/detail/tensor_ops.hpp")])
P("C02", "Comparisons, boolean algebra and quantifiers follow their definition",
  "For all tensors and index lists, the comparison operators return a boolean list of the same length whose element i is the comparison of element i with the other operand's "
  "element i or scalar, in the written order; boolean operators combine element by element; all_equal is true exactly when dimensions and all elements agree, all_of and any_of are the "
  "conjunction and disjunction over all elements, and which returns exactly the positions holding true in increasing order.",
  "all tensors, index lists, boolean lists and scalars",
  "The tests use short lists with few value patterns; an error at one position, for one operand order or for one element type needs a quantified argument.",
  ["src/compare", "src/indices", "include/tensor/indices.h", "include/tensor/tensor.h"],
  [("comparison and boolean loops", "src/compare and src/indices"), ("all_of / any_of", "include/tensor/indices.h")])
P("C18", "Exponentials, iterative solvers and block decompositions keep their definitions",
  "expm(A, q) divides A by a power of two that brings its norm to at most one, forms the Pade approximant of order q and squares it back as often; solve_with_svd(A, B, tol) is V diag(1/s) U* B over the singular values above tol, zero when there are none. "
  "cgs() returns an iterate of the conjugate gradient method from the given start and eig_power the expectation value and the normalised vector of the power method for the matrix (from the right) or its transpose (from the left): each ends when its tolerance is met or the iterations allowed are used up, and not before. "
  "block_svd() with the blocks found gives the singular values in decreasing order and orthonormal factors with U diag(s) VT = A; maps of matrices multiply from the left, or from the right when transposed.",
  "all matrices, orders, right-hand sides, starting points, limits and tolerances",
  "A wrong sign in a term of high order, a conjugate in a complex scalar product or a stopping test off by a factor changes only some orders, some matrices or the last digits; the tests use permuted diagonal, unitary or random matrices with default parameters.",
  ["src/linalg/expm_d.cc", "src/linalg/expm_z.cc", "src/linalg/solve_with_svd_d.cc", "src/linalg/solve_with_svd_z.cc", "src/linalg/cgs.cc", "src/linalg/eig_power.hpp", "src/linalg/block_svd.hpp", "src/tools/map.cc", "src/linalg/cgs_d.cc", "src/linalg/eig_power_d.cc"],
  [("exponential", "src/linalg/expm_d.cc"), ("pseudoinverse", "src/linalg/solve_with_svd_d.cc"), ("conjugate gradients", "src/linalg/cgs.cc"), ("power method", "src/linalg/eig_power.hpp"), ("blocks", "src/linalg/block_svd.hpp"), ("maps", "src/tools/map.cc")],
  technique="static analysis: symbolic summaries of the SSA over whole matrices (loops as recurrences), the extracted terms compared with the defining recurrences as identities over an exact matrix algebra",
  note="The operations on matrices the recurrences use are those of the other properties; the blocks are taken as found; identities are decided by evaluating the extracted terms at generic matrices, rounding and convergence are C30 and C31.")
P("C20", "Fourier transforms act on the requested dimensions; fftshift is exact",
  "fftw and fftw_inplace transform exactly the requested dimensions of the tensor (all of them, one, or those marked), each with its own extent and stride and in the requested direction, and every line of elements along them: "
  "from the elements of the argument, which are left as they were, to a new tensor of the same dimensions, or in place in elements that no other tensor shares; planning never overwrites data. "
  "fftshift along dimension d moves element j of the input to (j + floor(n/2)) mod n, n the extent of d, for the forward direction, and back for the backward one, with all other indices unchanged; over several dimensions it is one shift along each requested dimension.",
  "all tensors of rank 1 to 4 (quick) or 5 (thorough), every dimension or set of dimensions, both directions; that FFTW computes the transform it is asked for is assumed, extents fit 32-bit integers",
  "Strides of higher ranks, odd extents and shared elements need particular shapes; planner flags only matter for some sizes.",
  ["src/fftw", "include/tensor/fftw.h"], [("plans", "src/fftw/fftw_common.cc do_fftw"), ("shift", "src/fftw/fftshift.cc"), ("entry points", "src/fftw/fftw.cc and fftw_inplace.cc")],
  technique="static analysis of the LLVM IR: per-path call traces of the planner, with the memory cells handed to it resolved symbolically and canonicalised to a set of (extent, stride) pairs")
P("C23", "Every function offered by the installed headers can be linked",
  "Every function, member function, constructor or operator that an installed header declares for user code has a definition in the headers or in the library sources, "
  "so that any program that compiles against the headers also links.",
  "all programs written against the public headers",
  "The tests link only what they use; a declared overload nobody calls can lose its definition unnoticed.",
  ["include/tensor", "src/Makefile.inc"], [("declaration/definition pairs", "include/tensor and src")],
  over=("programs",),
  technique="static analysis: declarations from clang's AST of all installed headers matched against the symbol tables of the compiled sources",
  note="Exact for non-template functions and for the members of Tensor and Sparse; free function templates are covered by the overload inventories of the other checks.")

P("C03", "Elementwise functions, conversions and filled constructors are exact",
  "For every tensor, abs, cos, sin, tan, cosh, sinh, tanh, exp, sqrt, log and round return a tensor of the same dimensions whose element i is that function of element i; real, imag, conj and "
  "to_complex convert element by element keeping the dimensions; zeros, ones, eye and fill_with give exactly the stated constants in the stated dimensions; concatenating index lists and "
  "index_to_tensor keep all numbers in order.",
  "all real and complex tensors of any rank and size, all dimension arguments",
  "Several of these functions (sqrt, log, round, to_complex of two parts, the 4- to 6-argument constructors) are not called by any test, and the others are tried at a few sizes.",
  ["src/generated", "src/tensor", "include/tensor/detail/tensor_base.hpp", "include/tensor/detail/tensor_matrix.hpp", "src/indices"],
  [("elementwise loops", "src/generated/tensor_unop_*.cc"), ("filled constructors", "include/tensor/detail/tensor_matrix.hpp")])
P("C04", "An element access reaches exactly the element its indices name",
  "For every tensor and every list of indices with one index per dimension, operator()(i,j,...) reads and at(i,j,...) refers to the element stored at position "
  "i + d1*(j + d2*(k + ...)) (first index fastest); an index -1..-d counts from the end of its dimension; every index in [-d, d) is accepted, and a wrong number of indices "
  "or an index outside that interval never yields an element. at(i) with a single index counts over the whole data of a tensor of any rank; operator[](i) and at_seq(i) reach position i of the data.",
  "all tensors of rank 1 to 6, all index values, real and complex",
  "The tests address small tensors with a few index patterns; the formulas for each rank are separate code and most (rank, dimension, sign) combinations are never sampled.",
  ["include/tensor/detail/tensor_base.hpp", "include/tensor/tensor.h"],
  [("index normalisation and position formula", "include/tensor/indices.h and include/tensor/detail")])

P("C05", "Construction, reshape and extent queries keep extents and data in step",
  "For every list of non-negative extents, the constructors (from extents, index lists, another tensor, a vector, copy and assignment) produce a tensor with exactly those extents, whose number of "
  "elements is their product and whose elements, where given, are kept in order; dimension, rows, columns, rank, size, is_empty, dimensions and get_dimensions report those extents; reshape and flatten "
  "are accepted exactly when the totals agree and keep all elements in order; squeeze keeps all elements; change_dimension changes only the stated extent, keeping the common elements and "
  "filling the added ones with zero.",
  "all tensors of any rank and size, all non-negative extents",
  "Tests try a few shapes; the 1- to 6-argument constructors and reshape overloads are separate code and the generic-rank loops are sampled at ranks 1 to 3.",
  ["include/tensor/detail/tensor_base.hpp", "include/tensor/detail/tensor_reshape.hpp", "include/tensor/indices.h", "src/indices", "src/tensor"],
  [("constructors, reshape and extent queries", "include/tensor/detail/tensor_base.hpp"), ("change_dimension", "include/tensor/detail"), ("index list helpers", "src/indices")])
P("C08", "Reductions, norms, extrema and sorting cover every element",
  "For every real or complex tensor, sum is the sum of all elements, mean that sum divided by their number, mean(t, k) the tensor of sums along dimension k divided by its extent with that dimension "
  "removed (k counted from the end when negative), norm0 the largest absolute value (0 when empty), norm2 the square root of the sum of squared magnitudes, scprod(a,b) the sum of a[i]*conj(b[i]) "
  "(never returning for different sizes), max/min the extreme element of a non-empty real tensor, matrix_norminf the largest row sum of absolute values; sort returns the elements in ascending (reverse: "
  "descending) order and sort_indices the positions 0..n-1 ordered by the elements they name.",
  "all tensors of any size; mean(t,k) for every extent vector of rank 1 to 4 (quick) or 6 (thorough) and every k",
  "Tests reduce small tensors of a few shapes; a skipped element, a wrong stride for one (rank, dimension) pair or a comparison that is not strict shows only for particular inputs.",
  ["src/tensor"], [("accumulation loops", "src/tensor/tensor_norm2_z.cc"), ("mean along a dimension", "src/tensor/tensor_mean_ndx.cc"), ("sorting and its comparators", "src/tensor/tensor_sort_d.cc")])
P("C09", "Transposition, permutation, diagonals and traces follow their index formulas",
  "For every real or complex matrix, transpose(a)(j,i) = a(i,j) and adjoint(a)(j,i) = conj(a(i,j)); permute(t,i,j) exchanges the two dimensions, element (..,y,..,x,..) of the result being element "
  "(..,x,..,y,..) of t; diag(v,k,rows,cols) is the rows x cols matrix that is zero except for v on the k-th diagonal, and is refused unless that diagonal has v.size() elements; take_diag(t,k,i,j) keeps "
  "exactly the elements whose indices satisfy index_j - index_i = k, for every k that names a non-empty diagonal; trace(a) and trace(t,i,j) sum the elements with equal indices in the two dimensions. Valid calls never abort.",
  "all extents and, for the functions taking dimension arguments, every extent vector of rank 1 to 4 (quick) or 5 (thorough) and every pair of dimensions counted from either end",
  "trace and take_diag of tensors of rank 3 and more are not called by any test, and the strides of each (rank, pair) are a different combination of five grouped extents.",
  ["src/tensor/tensor_permute.cc", "src/tensor/tensor_trace.cc", "src/tensor/tensor_take_diag.cc", "src/tensor/matrix_*.cc"],
  [("permutation kernels", "src/tensor/tensor_permute.cc"), ("partial trace", "src/tensor/tensor_trace.cc"), ("diagonals", "src/tensor/tensor_take_diag.cc and src/tensor/matrix_diag.cc")])
P("C10", "Contractions, products, scaling and Kronecker products follow their formulas",
  "For all real, complex and mixed operands whose contracted extents agree: fold(a,i,b,j) is the tensor c(i,j,k,m) = sum over l of a(i,l,j)*b(k,l,m), where l is the dimension stated for each operand "
  "(counted from the end when negative) and i, j, k, m the groups of dimensions around it, foldc the same with conj(a), foldin the same elements in the order c(k,i,j,m), and mmult(a,b) = fold(a,-1,b,0); a "
  "result without dimensions has the single extent 1; operands whose contracted extents differ and dimension arguments outside [-rank, rank) never yield a result. scale(t,k,v) multiplies every element by "
  "v[index in dimension k], refusing another length of v. For matrices, and vectors as one-column matrices flattened afterwards, kron(b,a)(i+I*j, k+K*l) = a(i,k)*b(j,l), kron2(a,b) = kron(b,a), and kron2_sum(b,a) = kron(1,a) + kron(b,1).",
  "all extents, all element values as exact numbers; for contractions every pair of ranks 1 to 3 (quick) or 4 (thorough) and every pair of dimensions, scale for ranks 1 to 4 or 5",
  "The contraction takes five different paths to BLAS depending on which groups of extents are 1, each with its own leading dimensions and strides; a wrong one shows only for tensors of particular shapes.",
  ["src/tensor/tensor_fold.cc", "src/tensor/tensor_foldin.cc", "src/tensor/tensor_scale.cc", "src/tensor/tensor_kron.hpp", "src/tensor/gemm.cc", "src/tensor/mmult*.cc"],
  [("choice of BLAS call and strides", "src/tensor/tensor_fold.cc"), ("loop over blocks", "src/tensor/tensor_foldin.cc"), ("scaling kernels", "src/tensor/tensor_scale.cc"), ("Kronecker kernels", "src/tensor/tensor_kron.hpp")],
  note=NOTE + " gemm is given its documented BLAS meaning (and the conditions BLAS requires of its arguments are obligations of their own); extents are assumed to fit the 32-bit BLAS integers.")
P("C06", "Copy-on-write isolation: writing one tensor never changes another",
  "Whatever the history of copies, assignments and temporaries, a write through one tensor or vector (element access, begin()/end(), operator+= and the in-place operations) is never visible through "
  "another one: every member that hands out a pointer for writing first makes its object the only holder of its block, with the same length and elements, and the pointer names the requested element; "
  "copies and assignments have the length and elements of their source and leave it as it was; read access has no side effect; and no library function writes elements through a pointer obtained for reading, "
  "or through one it took before the object was copied, assigned, resized or destroyed.",
  "all element types the library instantiates, all sharing histories (a block with any number of handles), all functions of the library",
  "Sharing histories are unbounded; a missing detachment shows only when the tensor written happens to share its data at that moment.",
  ["include/tensor/refcount.h", "include/tensor/detail/refcount.hpp", "include/tensor/vector.h", "src"],
  [("detachment", "include/tensor/detail/refcount.hpp"), ("element access", "include/tensor/refcount.h and vector.h"), ("element pointers in the library's functions", "src/linalg, src/fftw, src/tensor")],
  over=("inputs", "histories"),
  note="Per-member preservation of a heap invariant (one step from any well-formed state), composed by induction over histories; single-threaded use, as the counts are plain integers.")
P("C07", "Storage is released exactly once, by the last handle, and never lost",
  "For every history of constructions, copies, assignments (including self-assignment and assignment between handles on one block), resizes, detachments and destructions of vectors and tensors, each block's count is the "
  "number of handles on it; a block and the elements it owns are released exactly once, by the operation that drops the last handle, the way they were allocated; data lent by the user is never released; a new "
  "block has count one, the stated length and room for it.",
  "all element types the library instantiates, all histories",
  "A wrong count corrupts or leaks only after a particular sequence of copies and destructions, which tests sample a few times without checking the heap.",
  ["include/tensor/refcount.h", "include/tensor/detail/refcount.hpp", "include/tensor/vector.h"],
  [("counting", "include/tensor/detail/refcount.hpp"), ("handles", "include/tensor/vector.h")],
  over=("histories",),
  note="Per-member preservation of a heap invariant (one step from any well-formed state), composed by induction over histories; allocation failure and threads are outside.")
P("C12", "No operation modifies an argument it takes for reading",
  "No function of the library changes a tensor, sparse matrix, index list or vector that it takes by reference to const or by value, nor the object of a const member function, nor the elements of a tensor it only read: nothing is "
  "stored into such an object or through an element pointer obtained from it, by the function or by anything it calls, including BLAS, LAPACK and FFTW, which overwrite some of their arguments.",
  "all functions of the library, all arguments",
  "Tests look at results and seldom at the arguments afterwards, and the numerical libraries overwrite their inputs only for particular job options and sizes.",
  ["src", "include/tensor"], [("LAPACK drivers copying their input", "src/linalg"), ("FFTW plans", "src/fftw"), ("casts for BLAS", "src/tensor/gemm.cc")],
  technique="static analysis: interprocedural effect analysis on SSA (origins of every pointer stored through or passed on, with write tables for BLAS, LAPACK and FFTW) against the const-ness of the C++ signatures",
  note="BLAS, LAPACK and FFTW are trusted to write only what their documentation says.")
P("C13", "Sparse matrices keep the compressed-row structure of the matrix they stand for",
  "For every matrix: Sparse(T) of a matrix T stores exactly the elements of T that are not zero, row by row and column by column, and full() of a sparse matrix is the matrix with the stored values at their positions "
  "and zero elsewhere; Sparse(r,c) and the copying, assigning and component-wise constructors have the given extents and structure; S(i,j), with indices counted from the end when negative, is the value stored "
  "for row i and column j and zero when there is none, and refuses indices outside [-extent, extent); rows, columns, dimension(s), length and the priv_ accessors describe the stored structure; eye(r,c) has ones "
  "on the diagonal and nothing else; sparse_rows lists the row of every stored entry, and transpose and adjoint are built from the entries (j, i, S(i,j)), conjugated for the adjoint, with exchanged extents.",
  "all sparse matrices with a well-formed structure (increasing row starts, increasing columns within each row), any extents and any number of entries, real and complex",
  "The number and placement of the stored entries is unbounded; an error in the row starts or the search along a row shows only for particular patterns (empty rows, full rows, last column).",
  ["include/tensor/detail/sparse_base.hpp", "include/tensor/sparse.h", "src/sparse"],
  [("constructors, conversions and element search", "include/tensor/detail/sparse_base.hpp"), ("transposition", "src/sparse/sparse_transpose_d.cc and sparse_adjoint_z.cc"), ("row lists", "src/sparse/sparse_rows.cc")],
  note=NOTE + " The constructor from (row, column, value) lists is taken as given (it sorts through std::sort, outside the domain).")
P("C14", "Sparse scaling, products with tensors and Kronecker products are exact",
  "For sparse matrices S and tensors T: S*x, x*S, S/x, -S, real, imag, conj and to_complex keep the structure and apply the operation to every stored value; mmult(S,T) is the contraction of the columns of S with "
  "the first index of T and mmult(T,S) the contraction of the last index of T with the rows of S, with the remaining dimensions in order, and neither yields a result when the contracted extents differ; "
  "kron(A,B) has the entry A(k,l) B(i,j) at row i + rows(B) k and column j + columns(B) l and no others, kron2(A,B) = kron(B,A), and, for square matrices, kron2_sum(B,A) = kron(A,1) + kron(1,B).",
  "all well-formed sparse matrices, all tensors of rank 1 to 4 (quick) or 5 (thorough), real and complex, element values as exact numbers",
  "Products visit data-dependent numbers of entries per row; a wrong stride or a skipped entry needs particular shapes and patterns.",
  ["src/sparse", "src/generated"], [("sparse-tensor products", "src/sparse/mmult_sparse_tensor.h and mmult_tensor_sparse.h"), ("Kronecker product", "src/sparse/sparse_kron.hpp"), ("scalar operations", "src/generated/sparse_times_tn_double.cc")])
P("C19", "Sums, differences and products of sparse matrices, element by element",
  "For sparse matrices A and B of equal extents, A + B, A - B and A * B (element by element; real, complex and mixed) have at every position the sum, difference or product, in this order, of the elements of A and B there, a position that is not stored counting as zero, however small the values are. "
  "The result has the extents of the operands and is well formed: row starts from zero to the number of elements, increasing columns, arrays of exactly that length, and no element stored that is zero; nothing outside the arrays is read or written. "
  "Operands of different extents are refused, and matrices without rows or columns give one without elements.",
  "all pairs of well-formed sparse matrices, all patterns, extents and values, as exact numbers",
  "The merge takes another branch at every combination of elements left, columns and cancellations; a wrong one shows only for particular patterns, such as empty last rows or elements that cancel.",
  ["src/sparse/sparse_binop.hpp", "src/generated"], [("merge of the rows", "src/sparse/sparse_binop.hpp"), ("operators", "src/generated/sparse_plus_tt_double.cc"), ("mixed operands", "src/generated/sparse_plus_tr_cdouble.cc")],
  technique="static analysis: one step of the merge, summarised from SSA as terms over its cursors, as the inductive step over a ghost state (row, positions in both matrices, elements appended), in every class of positions",
  note="Values are exact numbers; the classes of positions are rows of up to six elements with every pattern of three columns in both matrices.")
P("C16", "What is dumped to an SDF file is what is loaded from it",
  "A number, tensor or vector of tensors dumped to an SDF file under a name is loaded back, by the load for the same type and name, with exactly the same dimensions, elements (bit for bit), entries in the same order "
  "or value (int, size_t, double, complex), whatever its size, rank and name: the reader takes the same items, of the same lengths and in the same order, that the writer left, so that the next record starts where "
  "it must. A record stored under another name or holding another type is refused, as is a single number when the record does not hold exactly one; a new file starts with a header that names the word sizes and byte order "
  "and is checked on opening; opening an existing file for output keeps its records.",
  "all values, sizes, ranks, numbers of entries and names, on one machine",
  "Tests store a few tensors under short names; vectors, numbers, long names and refusals depend on counts and lengths that are not sampled, and a format that reader and writer change together is not noticed.",
  ["src/sdf", "include/tensor/sdf.h"], [("writing", "src/sdf/odata_file.cc"), ("reading", "src/sdf/idata_file.cc")],
  technique="static analysis: per-path traces of the stream operations of writers and readers on SSA, matched item by item (symbolic lengths, sources and destinations)",
  note="A stream is taken to deliver the bytes written to it; failing streams, truncated files and locks are C17.")
P("C17", "SDF files: no failure passes for success, no old data lost, one writer at a time",
  "A dump that returns has handed its bytes to the operating system and tested that they were taken; a load never returns data from a short or failed read; an output file is closed, and the result tested, before it is "
  "moved into place or its lock is released, also when it is destroyed without having been closed. A file opened in the PARANOID mode is written under another name and replaces the old one only when closed, by one tested rename, so that at any "
  "crash point the old or the complete new file exists; OVERWRITE deletes the old file first and stops when it cannot; SHARED keeps it, and holds an exclusive lock on the file that bears the lock's name from before opening "
  "until after closing. Renaming never deletes either file itself and refuses an existing destination unless told to overwrite, and the file operations (rename, delete, exists, is a directory, make a directory) return true exactly when the system says so.",
  "all records, failing writes and reads at any point, crashes between any two operations, any interleaving of processes",
  "Failed writes, crashes and races between processes need a fault or an interleaving at a particular point, which no test injects.",
  ["src/sdf", "include/tensor/sdf.h"], [("stream tests", "src/sdf/odata_file.cc and idata_file.cc"), ("modes and locks", "src/sdf/data_file.cc"), ("file operations", "src/sdf/rename_file.cc, delete_file.cc, file_exists.cc, isdir.cc, make_directory.cc")],
  over=("inputs", "fault_sequences", "crash_points", "schedules"),
  technique="static analysis: typestate of streams and locks and effect-order rules over all paths of the SSA (path conditions on tested results), with per-mode case split",
  note="POSIX semantics of rename, unlink, flock and of C++ streams are trusted; file systems without locks (ENOTSUP), machine crashes (fsync) and destructors run by exceptions are outside.")
P("C11", "Views read and write exactly the elements their ranges name, in order",
  "A range over a dimension of extent n names, in this order: all positions; one position; start, start+step, ... up to and including end when it is hit; or the positions of a list, negative numbers counting from the end, and it is refused when a position it names (or an end of a non-empty interval) lies outside the dimension. "
  "A view of a tensor through k ranges (or through one range over its elements) has as extents the numbers of positions of the ranges, and its elements are those at every combination of positions, first range fastest: converting it to a tensor copies them in order, however often it is read, and assigning a tensor, a view or "
  "a value stores element by element into exactly those positions, as if the source had been copied before, and refuses a source with another number of elements. The number of ranges must be the number of dimensions, and the ranges are deleted with the view.",
  "all extents, starts, ends and steps of either sign, index lists, one to six ranges, element types double and complex",
  "Tests sample a few ranges and shapes; the order of positions, ranges scaled several times and views of views of themselves need combinations no test lists.",
  ["src/views/range.cc", "src/tensor/tensor_view.hpp", "include/tensor/detail/tensor_slice.hpp", "include/tensor/indices.h"],
  [("ranges", "src/views/range.cc"), ("views", "src/tensor/tensor_view.hpp"), ("range()", "include/tensor/indices.h")],
  technique="static analysis: composition of SSA member-function summaries into an object's life, with induction over the positions in polynomial normal form; products and views as protocols over symbolic position lists",
  note="Arithmetic is taken not to overflow. The walk of a product and the loops of views are checked for lists of zero to three symbolic positions, which is enough because they branch only on exhaustion.")
P("C15", "Linear systems, SVD and eigenproblems reach LAPACK whole and come back whole",
  "solve, svd, eig and eig_sym hand LAPACK's standard drivers the elements and true extents of their argument and all right-hand sides, ask for the vectors the caller wants (all of them, or min(m,n) when economic), and give every call legal "
  "leading dimensions and arrays and workspaces at least as long as LAPACK documents. What is returned is the array LAPACK filled, in its order and with the documented extents: the solution with the dimensions of B, min(m,n) "
  "singular values, U (m by m or m by min) and VT (n by n or min by n), the eigenvalues, and eigenvectors as columns, those of a real matrix assembled, with their eigenvalues, into conjugate pairs wherever LAPACK reports one, however small the imaginary part. "
  "solve never returns a result for a system that is not square, does not match the right-hand side or is reported singular, and no non-empty matrix of the documented kind is refused.",
  "all non-empty real and complex matrices, right-hand sides of rank 1 to 3, every combination of wanted outputs",
  "Workspaces that are slightly short, leading dimensions and job letters matter only for particular shapes and combinations of outputs, and failures only for singular systems.",
  ["src/linalg/solve_d.cc", "src/linalg/solve_z.cc", "src/linalg/svd_d.cc", "src/linalg/svd_z.cc", "src/linalg/eig_d.cc", "src/linalg/eig_z.cc", "src/linalg/eig_sym_d.cc", "src/linalg/eig_sym_z.cc"],
  [("linear systems", "src/linalg/solve_d.cc"), ("singular values", "src/linalg/svd_d.cc"), ("eigenproblems", "src/linalg/eig_d.cc and eig_sym_z.cc")],
  technique="static analysis: SSA path summaries with LAPACK calls as effects that overwrite exactly their documented outputs; documented preconditions of each routine as obligations over symbolic extents; results compared with the arrays left by the call",
  note="LAPACK is trusted to do what its documentation says with legal arguments; INFO of svd and the eigenproblems is outside, extents fit 32-bit integers.")
P("C21", "Iterative eigenvalues: what ARPACK is given, and what is returned",
  "eigs() of a real or complex, dense, sparse or functional matrix gives ARPACK arrays and workspaces at least as long as documented, a basis of more than neig and at most n vectors and the code of the kind asked for, and until ARPACK is done applies the matrix to exactly the vector ARPACK names and stores the result exactly where it is wanted. "
  "It then returns the neig eigenvalues extracted (eigenvectors as columns), or says that the iteration did not converge, or stops; matrices of up to four rows are decomposed completely instead, and the first neig eigenvalues in the order of the kind asked for returned with their right eigenvectors. "
  "Matrices that are not square, unknown kinds, and requests for no or more than n eigenvalues are refused.",
  "all matrices, kinds and numbers of eigenvalues",
  "A basis that is too small, a code that is wrong for one kind, or a workspace a few elements short shows only for particular sizes, kinds and matrices; the tests use permuted diagonal matrices and two kinds.",
  ["src/arpack/arpack_t.cc", "src/arpack/arpack_d.cc", "src/arpack/arpack_z.cc", "src/arpack/eigs_d.cc", "src/arpack/eigs_z.cc", "src/arpack/eigs_map_d.cc", "src/arpack/eigs_map_z.cc", "src/arpack/eigs_sp_d.cc", "src/arpack/eigs_sp_z.cc"],
  [("iteration", "src/arpack/arpack_t.cc"), ("driver of dense matrices", "src/arpack/eigs_d.cc"), ("driver of maps", "src/arpack/eigs_map_d.cc"), ("interface to the routines", "src/arpack/saupp.h")],
  technique="static analysis: symbolic summaries of the SSA; argument roles and array lengths at every call of ARPACK against its documentation, typestate of the iteration, provenance of what is returned",
  note="ARPACK, LAPACK and BLAS behave as documented; convergence and accuracy are C31 and C30.  The real routine is the symmetric one, as in the library.")
P("C22", "Memory is released once, in the right form, and not used afterwards",
  "Everything the library obtains with new, new[], malloc or from a C library as a handle (FFTW plans, C files) is, on every path that returns, released exactly once, handed to the caller, or kept by an object whose destructor releases it; "
  "no path releases it twice, reads or writes it afterwards, or releases it in another form than it was obtained (array or single object). "
  "An object handed over for good (ranges of a view, the map of an iterative solver or eigensolver) is released by its receiver on every returning path, whatever the outcome.",
  "all paths of all library functions, and all sequences of construction, use and destruction of the objects that hold memory",
  "A leak, or a second release, on a rarely taken path (early return, option off, refused input) changes no result and fails no test.",
  ["src/linalg", "src/arpack", "src/fftw", "src/views", "src/sdf", "src/tensor", "include/tensor"],
  [("workspaces", "src/linalg, src/arpack"), ("maps", "src/linalg/cgs.cc, src/arpack/eigs_map_d.cc"), ("ranges", "src/views/range.cc, include/tensor/detail/tensor_slice.hpp"), ("plans", "src/fftw")],
  over=("programs", "inputs"),
  technique="static analysis: interprocedural ownership typestate (obtained, kept, handed on, released) over every path of the SSA, with function summaries to a fixed point and member ownership checked against destructors",
  note="Numerical libraries and C functions do not keep or release what they are given; failed allocations, paths that end in abort() and file descriptors are outside; reference-counted element storage is C07.")
P("C24", "Jobs enumerate every combination of their variables, once",
  "A line `name min [max [n]]`, given with --variable or in a file of --job, defines a variable of n (10, or 1 without max) values from min to max, and lines with other numbers of words or no values are refused; job k of all combinations selects of each variable the digit of k in the mixed radix of their numbers of values, the first fastest, "
  "get_value gives the value of the variable of exactly that name (or the default, or stops), and dump_variables writes every variable once. "
  "Going from job to job and asking to_do visits exactly the jobs asked for that exist: all of them, the one of --this-job, the interval of --first-job and --last-job, or the block of --this-job among the --job-blocks consecutive ones of ceil(jobs/blocks) jobs, which share out all jobs; options that miss their argument, exclude each other or make no sense stop the program.",
  "all command lines, files and lists of variables",
  "The tests run three command lines of one variable each; nothing tests files, blocks, intervals or several variables.",
  ["src/tools/jobs.cc", "include/tensor/jobs.h"],
  [("command line", "src/tools/jobs.cc: Job::Job"), ("lines and files", "src/tools/jobs.cc: split_string, parse_line, parse_file"), ("combinations", "src/tools/jobs.cc: select_job, compute_number_of_jobs"), ("walk", "src/tools/jobs.cc: operator++, to_do")],
  over=("inputs", "histories"),
  technique="static analysis: path summaries of the members of Job with strings, lists, iterators and streams as values and effects in a log; the summaries compared with the documented rules over samples of lines, lists and command lines",
  note="Numbers are read as atoi and atof do; the values of a range are what linspace gives; files that cannot be opened count as empty; an option given twice counts the last time.")
P("C25", "Random numbers fill the ranges asked for, and a seed fixes their sequence",
  "rand<T>() gives real numbers of [0,1), complex ones with both parts drawn one after the other in [0,1), and integers of the whole range of unsigned types and the non-negative half of signed ones; rand(n) gives numbers of [0,n) and rand(a,b) numbers of [a,b), no part of these left out (n=0 gives 0 and a=b gives a). "
  "set_seed(s), and rand_reseed() with the variable RANDSEED, rewrite the whole state of the generator from the seed alone, so that the same numbers follow whatever was drawn before: those of the Mersenne Twister MT19937-64, the generator that the library announces, which is also seeded when nobody did. "
  "Tensor::randomize() and Tensor::random(extents) draw a new number for every element of a tensor of those extents.",
  "all limits, seeds and states of the generator",
  "The tests check means and deviations of some thousand numbers and empty ranges; not the limits of any range, no seed, no sequence.",
  ["src/rand/rand.cc", "src/rand/rand64.cc", "include/tensor/rand.h", "include/tensor/detail/tensor_base.hpp"],
  [("generator", "src/rand/rand64.cc: init_genrand, genrand_int64, genrand_res53"), ("ranges", "include/tensor/rand.h: rand(n), rand(a,b)"), ("seeds", "src/rand/rand.cc: set_seed, rand_reseed"), ("tensors", "include/tensor/detail/tensor_base.hpp: randomize, random")],
  over=("inputs", "histories"),
  technique="static analysis: interval analysis of the functions that turn words into numbers; word equations of the generator (loops over constant counters taken step by step) compared with those of MT19937-64; effect summaries of the functions that fill tensors",
  note="Limits of rand(n) and rand(a,b) are decided at constants over all sizes, with intervals for the words drawn; word equations are compared at sample states.  Uniformity follows from that of the generator, and is C32.  a-b is taken to fit its type.")
P("C26", "linspace, index ranges and lists give the values asked for, in order",
  "linspace(a, b, n) gives n values a + (b-a) i/(n-1), i = 0...n-1, so that the first is a and the last b (a alone for n=1, none for n=0); between tensors of equal extents it gives a tensor of these extents and a last one of n, and of the extent n alone when the ends have a single element. "
  "iota(a, b, s) and Indices::range list a, a+s, a+2s... as far as they do not exceed b, and nothing when b<a. "
  "A list igen << x << y ... makes Indices, and rgen, cgen, xgen or gen(x) << ... a tensor of one dimension, of these elements in this order; compared with == to Indices or a vector, it is equal exactly when lengths and elements are.",
  "all ends, numbers of values, extents, steps and elements",
  "linspace is used by the tests of jobs only, for 10 values; iota with a step is not tested at all.",
  ["src/indices/linspace.hpp", "src/indices/indices.cc", "include/tensor/gen.h"],
  [("linspace", "src/indices/linspace.hpp: do_linspace"), ("ranges", "src/indices/indices.cc: Indices::range"), ("lists", "include/tensor/gen.h: StaticVector")],
  over=("inputs",),
  technique="static analysis: path summaries of linspace as recurrences over terms of tensors, compared with the definition over sample extents and ends; effect summaries of ranges and lists compared with symbolic specifications",
  note="linspace is decided for 0 to 7 values and six shapes of ends; lists for 1 to 9, 12 and 17 elements.  Steps of 0 or less are outside the documentation.")
P("C27", "Text output writes every element, in order, in the documented form",
  "The operator << writes a vector of any kind of element as its elements in brackets, in order, separated by a comma and a blank; a list like igen << a << b in the same way; a tensor as (dimensions)/[elements], with the elements in storage order; a sparse matrix as the tensor that full() makes of it. "
  "matrix_form(t) writes a matrix row by row, t(i,j) being element j of line i, elements separated by a comma and a blank, lines by a newline and a blank, the whole in brackets; a tensor of rank one on one line; it refuses tensors of rank above two. "
  "Complex numbers are written as real part, blank, imaginary part. The stream written to is the one returned.",
  "all elements, lengths, extents and kinds of elements",
  "No test looks at text output.",
  ["include/tensor/io.h", "include/tensor/detail/io.hpp", "src/views/matrix_form.cc", "include/tensor/numbers.h"],
  [("vectors and tensors", "include/tensor/detail/io.hpp: write_to_stream, operator<<"), ("matrix form", "src/views/matrix_form.cc: MatrixForm::display"), ("sparse, lists", "include/tensor/io.h: operator<<")],
  over=("inputs",),
  technique="static analysis: path summaries of the writers, in which what is put into the stream is kept in order, as recurrences; compared with the documented form over sample extents and elements",
  note="Decided for lengths and extents up to 140 elements, empty ones included.  How a single number is formatted is up to the stream.")
P("C28", "A job keeps one record in a dataset and never overwrites one",
  "Job::open_dataset(name) makes the directory of that name if nothing is there (also when another job makes it at the same time), and stops the program if something else bears the name or the directory cannot be made. "
  "Of the current job k it then looks at the file name/k: if it exists, nothing is opened and an empty pointer returned; otherwise exactly this file is opened, once, as an output file of mode SDF_PARANOID (which bears its name only when complete), and returned. "
  "The pointer returned may be copied and assigned: the file is closed once, when the last copy is gone. dataset_record_exists(name) is true exactly if name/k exists, and makes nothing. current_job() is the job selected and number_of_jobs() the number of combinations.",
  "all names of datasets, job numbers and states of the files around them",
  "Nothing tests datasets of jobs; what must not happen is the loss of the results of an earlier run.",
  ["src/tools/jobs_dataset.cc", "include/tensor/jobs.h", "include/tensor/refcount.h"],
  [("records", "src/tools/jobs_dataset.cc: Job::open_dataset, Job::dataset_record_exists, dataset_name")],
  over=("inputs", "histories"),
  technique="static analysis: path summaries of the functions of datasets with names as values and all that is asked of and done to files kept in order; compared with the rules at sample states of the file system",
  note="Between the test for a record and its opening another process may create it; this is not claimed.")
P("C29", "Functions become maps that apply them to what the caller gave",
  "with_args(f, a1, ..., an) (n = 1 to 5) gives a closure that holds f and copies of a1, ..., an, and called with x calls f(x, a1, ..., an) once and returns its result. "
  "FunctionMap(f) applied to x is f(x), and a plain Map gives x back. "
  "linalg::cgs, eig_power and eigs given a function hand a FunctionMap of this very function to do_cgs, do_eig_power and do_eigs, with all other arguments as given, in their places.",
  "all functions, arguments and values",
  "Tests bind one or two arguments, with values for which a confusion of places is not always seen; no test uses more.",
  ["include/tensor/map.h", "include/tensor/linalg.h"],
  [("closures", "include/tensor/map.h: with_args, Closure1 to Closure5"), ("maps", "include/tensor/map.h: Map, FunctionMap"), ("solvers", "include/tensor/linalg.h: cgs, eig_power, eigs of functions")],
  over=("inputs",),
  technique="static analysis: effects of instances of the templates on symbolic arguments: which function is called with what, and what closures and maps hold",
  note="Instances over numbers, pointers and integers of several widths. The matrices behind MatrixMap are looked at by C18.")
P("C30", "Factorisations, eigenproblems and exponentials are accurate to rounding",
  "The singular value decomposition, eigenvalues and eigenvectors, solutions of linear systems, matrix exponentials and Fourier transforms returned satisfy their defining equations up to an error of a modest multiple of the machine precision times the norm and condition of the input.",
  "all inputs of finite norm", "Tests sample random matrices of small sizes.",
  ["src/linalg", "src/arpack", "src/fftw"], [("drivers", "src/linalg")],
  na="Rounding error in LAPACK, ARPACK and FFTW depends on runtime values and on code outside the repository; no static argument in reach bounds it. What is handed to them and taken back is C15, C20 and C21.")
P("C31", "Iterative solvers and eigensolvers converge within the iterations allowed",
  "cgs, eig_power and eigs converge for the classes of matrices they are documented for, or say that they did not.",
  "all matrices of the documented classes", "Tests try well-conditioned examples.",
  ["src/linalg/cgs.cc", "src/arpack"], [("iterations", "src/linalg/cgs.cc")],
  na="Convergence is a statement about floating-point iterations with data-dependent lengths; the domains used here cannot bound them.")
P("C32", "Random numbers are uniform, independent and of full period",
  "The generator produces sequences that are statistically indistinguishable from independent uniform numbers.",
  "all seeds", "A test can only sample statistics.",
  ["src/rand"], [("generator", "src/rand")],
  over=("histories",), na="Statistical quality is no property of any construct of the source that a static rule could decide.")
P("C33", "Concurrent use of distinct tensors that share storage is free of data races",
  "Two threads may copy and read tensors that share their elements without changing each other's results.",
  "all interleavings", "Tests have one thread.",
  ["include/tensor/refcount.h"], [("reference counts", "include/tensor/refcount.h")],
  over=("schedules",), na="The library does not promise thread safety: its own reference counts are plain integers unless configured otherwise; there is no guarantee to decide.")
