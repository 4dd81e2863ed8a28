#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

LAY = ["src/layouts/row_major.rs","src/layouts/column_major.rs","src/layouts/row_vector.rs","src/layouts/column_vector.rs",
 "src/layouts/arbitrary_stride_row_major.rs","src/layouts/arbitrary_stride_column_major.rs",
 "src/layouts/arbitrary_stride_row_vector.rs","src/layouts/arbitrary_stride_column_vector.rs","src/layouts/upper_triangular.rs"]

p("C01","Logical element numbering is a bijection in the documented order",
 "For every storage layout and every dimension, the conversions between (row, column) positions and one-dimensional positions are mutually inverse one-to-one correspondences between the stored positions of the matrix and 0..number-of-elements. The order is row by row for row-major kinds, column by column for column-major kinds, along the vector for vectors, and last row to first row (left to right inside a row) for upper triangular matrices. The logical index layout derived from any layout has the same dimension and numbers the elements identically, and the result of a conversion never depends on earlier conversions.",
 ["inputs","configurations"],"every layout kind, every dimension, every position in it (incl. empty, 1-wide, non-square and very large dimensions), with and without overflow checks",
 "The suite tests five index conversions of one 5x5 upper triangular layout; no row/column-major, vector or strided layout is tested in both directions and no other size is ever used.",
 LAY+["src/traits/layout.rs"],
 [("convert_1d_2d / convert_2d_1d / number_of_elements / index_layout of each layout","src/layouts/*.rs"),("documented contract of logical indexing","src/traits/layout.rs")],
 [("dim","logical dimension of the layout","src/layouts/*.rs")],["layout().convert_1d_2d","layout().convert_2d_1d","layout().number_of_elements","layout().index_layout"])

p("C02","Each element has one storage location, agreed on by all address paths",
 "For every layout and dimension, the storage location computed from a (row, column) position equals the location computed from the corresponding one-dimensional position, one-dimensional position 0 lies at location 0, and for layouts with strides it equals row*row_stride + column*column_stride both for the strides the layout was created with and for those it reports. Distinct elements never share a location (unless the requested strides themselves overlap), and packed layouts occupy exactly the locations 0..number-of-elements in their documented order.",
 ["inputs","configurations"],"every layout kind, dimension, stride pair and element position, with and without overflow checks",
 "No unit test looks at a reported stride or compares the two address paths; strided layouts are only exercised through two blocks of a single 3x4 row-major matrix.",
 LAY+["src/traits/layout.rs"],
 [("convert_1d_raw / convert_2d_raw / stride of each layout","src/layouts/*.rs")],
 [("stride","distance in storage between rows and between columns","src/layouts/arbitrary_stride_*.rs")],["layout().convert_1d_raw","layout().convert_2d_raw","layout().stride"])

p("C03","Reads return the last write and writes touch nothing else",
 "For any history of element writes to a matrix or vector through any mix of access routes (checked or unchecked, one- or two-dimensional, apply-to-all, raw slice or pointer, mutable reference wrapper), every later read through any route returns the value most recently written to that element, or its initial value if it was never written. No write alters another element or any memory outside the matrix, whatever the storage layout, storage container, size kind or scalar type.",
 ["histories","inputs","configurations"],"all write/read histories over all access routes, layouts, containers, size kinds and scalar types",
 "Tests perform at most four writes per matrix and read back only the written cells by the same route; frame conditions and route mixing are never checked.",
 ["src/base_matrix.rs","src/data_container.rs","src/traits/random_access.rs","src/matrix/common_impl.rs","src/matrix/base_methods.rs","src/matrix_ref.rs"],
 [("element accessors over layout and container","src/base_matrix.rs"),("containers","src/data_container.rs"),("safe accessors","src/traits/random_access.rs")],
 [("data","element storage","src/data_container.rs")],["get","get1d","get_unchecked","get_slice","get_pointer","for_each"])

p("C04","Out-of-range element access is always refused",
 "Checked element access, reading or writing, by (row, column) or by one-dimensional position, on any matrix, vector, sub-block, reference wrapper or unevaluated expression panics whenever the position is not a stored element of that object, including huge indices whose address computation would wrap around and the positions below the diagonal of an upper triangular matrix. A refused access changes nothing and reads no element, and access to a stored element always succeeds. This holds equally in builds with and without overflow checks and debug assertions.",
 ["inputs","configurations"],"every matrix-like object, every index pair and one-dimensional index (in and out of range, up to the largest index value), in checked and unchecked builds",
 "Two should_panic doc tests try the single position (3,5) of a 3x5 matrix; vectors, blocks, expressions, 1-D access, wrap-around and optimised builds are never tried.",
 ["src/traits/random_access.rs","src/layouts/upper_triangular.rs","src/base_matrix.rs","src/addition.rs","src/scalar_mult.rs","src/matrix_ref.rs"],
 [("assert_dimension / assert_dimension1d in the blanket safe accessors","src/traits/random_access.rs"),("lower-triangle assertion","src/layouts/upper_triangular.rs")],
 [],["get","get_mut","get1d","get1d_mut"])

p("C05","Construction yields the requested shape, zeroed, or is refused",
 "Every constructor and construction macro yields an object with exactly the requested (or compile-time) dimension and length, all of whose elements are zero, and the arguments of a macro are evaluated once, so the object has the dimension of that one evaluation; wrapping existing storage instead presents that storage's values at the locations the layout prescribes. Requests that cannot be honoured are refused with a panic in every build: a vector layout with a wrong other dimension, a non-square upper triangular matrix, storage too small to hold every element of the layout at its location, or a dimension whose element count or storage extent is not representable.",
 ["inputs","configurations"],"every constructor, size kind, layout, scalar type, dimension and storage length",
 "The tests check the reported dimension of five macro-made objects; contents, fixed-size kinds, wrapped storage, undersized storage and invalid dimensions are untested.",
 ["src/matrix/constructors.rs","src/macros.rs","src/base_matrix.rs","src/data_container.rs","src/matrix.rs"]+LAY,
 [("zeros_from_dim / zeros_from_length / from_data / from_pointer","src/matrix/constructors.rs"),("storage size assertion","src/base_matrix.rs"),("from_dimension assertions","src/layouts/*.rs"),("mat!/vector!/rand_mat!/rand_vector!","src/macros.rs")],
 [],["dim","length","get","panic on construction"])

p("C06","A read-only sub-block is an exact window, at any nesting depth",
 "A read-only block with top-left (r,c) and dimension (p,q) has dimension (p,q) and its element (i,j) is exactly element (r+i,c+j) of the matrix it was taken from, and its one-dimensional order is that of the parent's orientation, for row- and column-major and strided parents and for blocks of blocks to any depth. A block request is granted exactly when the block, possibly empty, lies inside the parent, and refused with a panic otherwise, including requests whose corner computation wraps around; no block access ever reaches memory outside the block's own span.",
 ["inputs","histories","configurations"],"every parent shape, orientation and stride, every block position and dimension, every nesting chain, checked and unchecked builds",
 "Two tests read three cells of blocks of one 3x4 row-major matrix; column-major parents, depth > 2, empty and out-of-range blocks are never tried.",
 ["src/matrix/matrix_slices.rs","src/matrix/constructors.rs","src/layouts/arbitrary_stride_row_major.rs","src/layouts/arbitrary_stride_column_major.rs"],
 [("block","src/matrix/matrix_slices.rs"),("from_pointer with strides","src/matrix/constructors.rs")],
 [],["block(..).get/get1d/dim/get_slice"])

p("C07","Writes through a mutable sub-block reach exactly the addressed elements",
 "Any history of writes through mutable blocks (nested to any depth, by any write route) changes exactly the parent elements the block positions denote and no others, and the changes are visible in the parent and in every later view once the block is released. A mutable block is granted exactly when, possibly empty, it lies inside the parent, is otherwise refused with a panic leaving the parent unchanged, and until written to shows the parent's current values.",
 ["histories","inputs","configurations"],"every parent shape, orientation and stride, every mutable block chain and write history, checked and unchecked builds",
 "No unit test writes through a mutable block at all except via one 5/5 split of one 10x10 matrix.",
 ["src/matrix/matrix_slices.rs","src/matrix/constructors.rs","src/data_container.rs"],
 [("block_mut","src/matrix/matrix_slices.rs"),("SliceMatrixMut::from_pointer","src/matrix/constructors.rs")],
 [],["block_mut(..)","parent contents after release"])

p("C08","A four-way split partitions the matrix into independent blocks",
 "Splitting a matrix at any point inside it (including its edges) yields four blocks that together cover every element exactly once: upper left, upper right, lower left and lower right of the split point, with the dimensions this implies. In any interleaving of reads and writes through the four blocks, a write through one block is seen by that block and later by the matrix at the corresponding position, and is never seen through another block nor destroyed by one; access granted through one block never reaches an element of another. A split point outside the matrix is refused with a panic in every build.",
 ["schedules","histories","inputs","configurations"],"every shape, split point, and interleaving of operations of the four block holders, checked and unchecked builds",
 "One test (and its doc twin) splits one 10x10 matrix at (5,5) and performs one write per block; asymmetric, edge and invalid splits and interleavings are untested.",
 ["src/matrix/matrix_slices.rs","src/matrix/constructors.rs","src/data_container.rs"],
 [("split_in_four_mut","src/matrix/matrix_slices.rs"),("mutable slice container","src/data_container.rs")],
 [],["the four blocks","matrix contents after release"])

p("C09","Sums and scalar products evaluate elementwise to plain arithmetic",
 "For any expression built from matrices or vectors of equal shape with addition and scalar multiplication (nested arbitrarily, operands owned or borrowed, scalar on either side, operands with different storage but the same numbering order), every element read from the expression or from its evaluation equals the same arithmetic applied to the corresponding operand elements, bit for bit (all NaNs counting as equal), by every read route. This holds for all four scalar types and all values including zeros, negative zeros, infinities and NaN, and the expression has the operands' dimension.",
 ["inputs","programs","configurations"],"every expression tree, operand ownership, layout combination, shape, scalar type and value",
 "Two tests check one cell of 2.0*A and 2.0*A+B on 2x3 real row-major matrices and one doc test checks one random cell; borrowed operands, right scalars, complex scalars, column-major, strided and vector operands are untested.",
 ["src/addition.rs","src/scalar_mult.rs","src/matrix_ref.rs","src/matrix/common_impl.rs"],
 [("Addition accessors","src/addition.rs"),("ScalarMult accessors and the four scalar operator impls","src/scalar_mult.rs"),("reference wrapper","src/matrix_ref.rs")],
 [],["get","get1d","eval"])

p("C10","Expressions are lazy and are evaluated in a single pass",
 "Building an expression from matrices and scalars reads no matrix element and allocates no storage. Evaluating it reads each element of each operand occurrence exactly once, allocates only the result, and leaves every operand unchanged; reading one element of an expression reads only the corresponding operand elements.",
 ["programs","histories","inputs"],"every expression tree and shape, every point between construction and evaluation",
 "Laziness and pass counts are invisible to value assertions, which is all the suite has.",
 ["src/addition.rs","src/scalar_mult.rs","src/matrix/common_impl.rs","src/matrix_ref.rs","src/lib.rs"],
 [("expression types hold operands","src/addition.rs, src/scalar_mult.rs"),("eval loop","src/matrix/common_impl.rs")],
 [],["element reads seen by a recording storage container","allocations"])

p("C11","Evaluation produces a faithful, independent copy in logical order",
 "Evaluating any dynamically sized matrix, view or expression yields a new matrix of the same dimension whose element at every (row, column) and at every one-dimensional position equals that of the source at that moment. The result shares nothing with its source: later writes to either are never visible in the other, and evaluating again gives an equal result.",
 ["histories","inputs","configurations"],"every source kind and shape (including empty), every history of writes before and after evaluation",
 "Evaluation is only ever tested on two 2x3 sums by looking at one cell; independence, column-major, strided, triangular and empty sources are untested.",
 ["src/matrix/common_impl.rs","src/matrix/constructors.rs","src/layouts/column_vector.rs"],
 [("eval","src/matrix/common_impl.rs"),("zeros_from_dim / from_dimension of the index layout","src/matrix/constructors.rs")],
 [],["eval()"])

p("C12","Operations on incompatible shapes are refused without side effects",
 "Adding two operands succeeds exactly when their dimensions are equal, and a matrix or matrix-vector product succeeds exactly when the inner dimensions agree and the target has the outer dimensions; every other combination panics, in every build, before anything is written. After a refused product the target and both factors are unchanged, and no shape coincidence such as equal element counts is accepted in place of equal dimensions.",
 ["inputs","configurations","fault_sequences"],"every pair or triple of shapes, every layout and scalar type, every operand ownership, checked and unchecked builds",
 "No existing test ever passes mismatched shapes to addition or multiplication.",
 ["src/addition.rs","src/matrix_multiply.rs"],
 [("dimension assertion in Addition::new","src/addition.rs"),("dimension assertion in matmul","src/matrix_multiply.rs")],
 [],["panic or success","operand contents afterwards"])

p("C13","Matrix products compute alpha*A*B + beta*C exactly as defined",
 "The in-place product computes alpha*A*B + beta*C for every compatible combination of matrix, row-vector and column-vector operands, with every element of the target equal to the mathematical value whenever that value and all partial sums are exactly representable; with beta zero the target's previous contents, whatever they are, do not matter. This holds for all four scalar types, every dimension including zero and one and sizes beyond internal blocking thresholds, every scalar pair, and operands and targets that are owned, row-major, column-major, strided, or sub-blocks at any nesting.",
 ["inputs","configurations"],"all operand shapes, layouts and views, scalar types, and alpha/beta values",
 "Tests multiply one random 4x6 by one 6x5 (or 6 / 4 vector) matrix per scalar type, row-major and owned only, with one alpha/beta; column-major, strided, block, empty and large operands are never multiplied.",
 ["src/matrix_multiply.rs","src/layouts/arbitrary_stride_row_major.rs","src/layouts/arbitrary_stride_column_major.rs"],
 [("matmul for the size-type and scalar-type combinations","src/matrix_multiply.rs"),("strides reported by the layouts","src/layouts/*.rs")],
 [],["contents of the target after matmul"])

p("C14","A product writes only its target",
 "An in-place product changes nothing but the elements of its target: both factors, and all memory of the target's underlying storage that is not a target element (for instance the rest of a matrix whose sub-block is the target, or the gaps of a strided target), are bit-for-bit unchanged. Values of one row of the left factor or one column of the right factor influence only the corresponding row or column of the target.",
 ["inputs","histories","configurations"],"all operand shapes, strided targets and sub-block targets, scalar types",
 "The suite never multiplies into a view and never re-reads the factors or surrounding memory.",
 ["src/matrix_multiply.rs","src/matrix/matrix_slices.rs"],
 [("pointers and strides passed to the kernel","src/matrix_multiply.rs")],
 [],["surrounding storage before and after matmul"])

p("C15","The dot product allocates a correct, fresh product",
 "The allocating product of two matrices, of a row vector with a matrix, and of a matrix with a column vector returns a new object of dimension (rows of left, columns of right), with matching vector kind and length, whose elements equal the mathematical product whenever exactly representable. It modifies neither operand, its result is independent of both, and repeated calls give equal results whatever was computed before.",
 ["inputs","histories","configurations"],"all compatible shapes (including empty and beyond blocking thresholds), operand layouts and views",
 "One doc test calls it on random operands and inspects nothing.",
 ["src/matrix_multiply.rs"],
 [("Dot implementations","src/matrix_multiply.rs")],
 [],["dot(..)"])

p("C16","Raw memory windows are exact and confined to the object's storage",
 "A raw window [first,last) of a matrix is granted exactly when first < last <= length of its storage (for a block: the span from its first to its last element) and then has last-first elements, its k-th entry being the storage location first+k; otherwise the request panics. The storage pointer designates location 0, every element is found at the location its layout computes, a write through a mutable window changes exactly that location, and a matrix built on a raw pointer presents exactly the memory at that pointer.",
 ["inputs","histories","configurations"],"every matrix kind, container, layout and window, writes through windows",
 "No test requests a window or a pointer.",
 ["src/data_container.rs","src/matrix/base_methods.rs","src/matrix/constructors.rs","src/base_matrix.rs"],
 [("get_slice / get_slice_mut assertions","src/data_container.rs"),("from_pointer","src/matrix/constructors.rs")],
 [],["get_slice","get_slice_mut","get_pointer","get_pointer_mut"])

p("C17","Apply-to-all visits every element exactly once, in logical order",
 "Applying a callable to a matrix, vector or mutable block calls it exactly once for every element, in one-dimensional order, with mutable access to that very element: the values it stores are what the object subsequently holds, nothing else changes, and an empty object makes no call. If the callable panics, the elements already visited keep their new values and the others their old ones.",
 ["inputs","histories","fault_sequences","configurations"],"every matrix kind, layout, shape; every point at which the callable may panic",
 "It is only used indirectly, to fill random matrices whose contents are not inspected.",
 ["src/matrix/base_methods.rs"],
 [("for_each","src/matrix/base_methods.rs")],
 [],["for_each"])

p("C18","Random filling is a deterministic function of the generator's answers",
 "Filling a matrix with random numbers replaces every element, in one-dimensional order, by successive samples of the distribution from the given generator: one sample per real element, and for complex elements the real part then the imaginary part. Equal generator answers give equal matrices, nothing else is drawn or written, and layouts that number elements differently receive the same sequence in their own order.",
 ["inputs","histories","configurations"],"every generator answer sequence, matrix kind, layout, shape and scalar type",
 "Random-matrix tests only inspect the dimension; the multiplication tests compare two values computed from the same random matrix.",
 ["src/matrix/random.rs","src/tools.rs","src/matrix/base_methods.rs","src/macros.rs"],
 [("fill_from_rand_standard_normal","src/matrix/random.rs"),("random_scalar","src/tools.rs")],
 [],["matrix contents after filling","generator calls"])

p("C19","Reference wrappers are transparent",
 "A matrix obtained by wrapping a shared or mutable reference to another matrix has the same dimension, numbering and elements as the wrapped one by every read route, refuses the same accesses, and can be used in every expression with the same result. Writes through a mutable wrapper change exactly the corresponding element of the wrapped matrix, and wrapping is repeatable to any depth.",
 ["histories","inputs","configurations"],"every wrapped matrix kind, wrapper depth, read and write history",
 "References are only exercised through one doc test of 3.0*&A + &B comparing a single cell.",
 ["src/matrix_ref.rs","src/matrix.rs"],
 [("MatrixRef / MatrixRefMut forwarding","src/matrix_ref.rs"),("from_ref","src/matrix.rs")],
 [],["wrapped matrix through the wrapper"])

p("C20","Scalar helpers agree with the platform's arithmetic",
 "The two-argument arctangent offered for real scalars equals the standard library's for every argument pair, including signed zeros, infinities and NaN, in argument order and precision, and is refused with a panic for complex scalars. Drawing one scalar from a generator and distribution takes exactly one sample for a real and exactly two, real part first, for a complex scalar.",
 ["inputs"],"all pairs of values of an alphabet of special and ordinary values, all sampled answer sequences",
 "No test calls either helper directly.",
 ["src/types.rs","src/tools.rs"],
 [("HScalar::atan2","src/types.rs"),("RandScalar::random_scalar","src/tools.rs")],
 [],["atan2","random_scalar"])

p("C21","Conflicting uses of a viewed matrix do not compile",
 "A program is rejected by the compiler if it reads, writes, assigns or moves a matrix while a mutable view of it (block, quadrant of a split, MatrixRefMut, raw window, element reference) is alive, writes, assigns or moves it while a read-only view or an expression borrowing it is alive, lets a view outlive the matrix or storage it looks at, uses a matrix or a mutable view after moving it (into an expression, say), writes through a read-only view or reference, passes the same matrix or overlapping views as target and factor of a product, adds operands with different numbering orders, scalar types or compile-time sizes, scales or multiplies operands of another scalar type or of kinds a product is not defined for, or performs an access without bounds checks outside unsafe code. The corresponding programs without a conflict compile.",
 ["programs"],"all client programs",
 "Compile-time rejection is not exercised by any test (there is no compile-fail test), and holds over all programs.",
 ["src/matrix/matrix_slices.rs","src/addition.rs","src/matrix_ref.rs","src/data_container.rs","src/scalar_mult.rs"],
 [("lifetimes of block/block_mut/split_in_four_mut","src/matrix/matrix_slices.rs"),("IndexLayout bounds of Addition","src/addition.rs"),("lifetimes of the slice containers","src/data_container.rs"),("lifetimes of MatrixRef and MatrixRefMut","src/matrix_ref.rs")],
 [],["compiler diagnostics"])

p("C22","Products of inexact data have bounded rounding error",
 "For finite operands whose products, scaled by the scalars, neither overflow nor underflow, every element of the target of an in-place product, and of a product returned by the allocating one, differs from the exact value of alpha*A*B + beta*C by no more than a small multiple of (k+8) unit roundoffs of the working precision times |alpha||A||B| + |beta||C|, k being the number of terms. This holds for all scalar types, operand shapes and kinds of storage, every size, and scalars of any magnitude.",
 ["inputs"],"all floating-point contents, scalars, shapes and storages",
 "One random operand set of one size per scalar type is compared within 100 ulps.",
 ["src/matrix_multiply.rs"],
 [("gemm calls: operand pointers, scalars and precision","src/matrix_multiply.rs")],
 [],["matmul","dot"])

p("C23","Operations on distinct objects do not interfere",
 "Every operation on matrices, views, expressions and layouts gives exactly the result, and leaves exactly the elements, that it gives and leaves alone, whatever happens to objects it has no writable element in common with: other operations executed inside of one of its callbacks (a callable, a random generator, client-supplied storage or layout), in another thread at any moment of it, or before it in any order, including operations that were abandoned by a panic in one of their callbacks. In particular the four quadrants of a split can be used by different threads, and a matrix read by several at once. Matrices, views and expressions can be moved to and shared between threads whenever their storage can, and cannot when it cannot.",
 ["schedules","histories"],"every pair of operations, every interleaving of two threads, every point of re-entry or abandonment, every sequence of operations",
 "Tests execute one operation at a time, none inside of a callback of another or in two threads, and each on fresh objects.",
 ["src/base_matrix.rs","src/matrix_multiply.rs","src/data_container.rs","src/layouts/upper_triangular.rs","src/matrix/base_methods.rs","src/matrix/random.rs","src/matrix/matrix_slices.rs","src/matrix_ref.rs","src/addition.rs","src/scalar_mult.rs"],
 [("evaluation without shared state","src/base_matrix.rs"),("matmul packing and scaling","src/matrix_multiply.rs"),("layout conversions depend on the layout only","src/layouts/upper_triangular.rs"),("quadrants as separate objects","src/matrix/matrix_slices.rs"),("traversal with a callable","src/matrix/base_methods.rs")],
 [],["all operations of the crate, nested, in sequence and in two threads"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
