"""The properties: source of properties.jsonl and MANIFEST.json (python3 meta/gen.py)."""
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state], hook_needed=None),
                  technique=technique, note=note))


prop("C01", "A subview aliases exactly the elements it selects, however composed",
     "A view obtained from another by any sequence of subsetting (any first/stride/length, negative strides included), transposing, permuting, taking rows, columns, slices or diagonals, "
     "or taking real or imaginary parts has the sizes its selectors state, and each of its elements is one definite element (or component) of the original. "
     "Reading through it gives that element's current value; writing through it (by element or by whole-view assignment) changes that element and nothing else.",
     ["inputs", "programs"], "all compositions of selectors (to depth 4), shapes, dimension orders, paddings, complex storage formats and element types",
     "Each test fixes one selector on one or two shapes; composition bugs (stride products, axis order, origin offsets, split/interleaved components) need a combination no test holds.",
     ["src/ovxx/expr/subset.hpp", "src/ovxx/expr/sliced.hpp", "src/ovxx/expr/transposed.hpp", "src/ovxx/expr/permuted.hpp", "src/ovxx/expr/diag.hpp", "src/ovxx/expr/component.hpp", "src/vsip/matrix.hpp", "src/vsip/tensor.hpp", "src/vsip/impl/vector.hpp"],
     [("subset block index arithmetic", "src/ovxx/expr/subset.hpp"), ("sliced blocks", "src/ovxx/expr/sliced.hpp"), ("diagonal block", "src/ovxx/expr/diag.hpp"), ("view subview accessors", "src/vsip/matrix.hpp")],
     ["element get/put of the subview and of the original view"],
     technique="generated compositions of subviews against an index-map model (PBT, ASan)")

prop("C02", "Assigning one view to another copies every element, whatever the layouts",
     "After assigning a view or a scalar to a view of the same shape, every destination element equals the corresponding source element converted to the destination's element type, and every element outside the destination is unchanged. "
     "This holds for every combination of dimension order, padding, stride, subview kind, complex storage format and element type on the two sides. ",
     ["inputs", "configurations"], "all pairs of source/destination layouts, strides, storage formats, value types and shapes, overlapping only where the two are identical",
     "The assignment is dispatched at compile and run time among copy, transpose, strided and loop kernels; tests visit a few pairs with contiguous data and square-ish sizes.",
     ["src/ovxx/assign.hpp", "src/ovxx/assign/copy.hpp", "src/ovxx/assign/loop_fusion.hpp", "src/ovxx/dda/block_copy.hpp"],
     [("assignment dispatch", "src/ovxx/assign.hpp"), ("copy/transpose evaluators", "src/ovxx/assign/copy.hpp")],
     technique="generated layout pairs against an element-by-element model (PBT, ASan)")

prop("C03", "An expression assigned to a view equals its element-by-element evaluation",
     "Assigning an expression over views and scalars to a view (with =, += and the like) gives in each element exactly the value obtained by evaluating the expression at that index, independently of the operands' layouts and of how the expression is composed. "
     "Operands are left unchanged, and evaluating an expression twice gives the same result.",
     ["inputs", "programs"], "expressions of depth up to 4 over 1-3 dimensional views, operand layouts, destination layouts",
     "Tests assign a handful of fixed expressions; which evaluator runs depends on operand layouts, expression shape and element types together.",
     ["src/ovxx/assign/loop_fusion.hpp", "src/ovxx/assign/rbo.hpp", "src/ovxx/expr/binary.hpp", "src/ovxx/expr/unary.hpp", "src/ovxx/expr/ternary.hpp", "src/ovxx/expr/scalar.hpp", "src/ovxx/view/operators.hpp"],
     [("loop fusion evaluator", "src/ovxx/assign/loop_fusion.hpp"), ("expression blocks", "src/ovxx/expr/binary.hpp"), ("compound assignment", "src/vsip/impl/vector.hpp")],
     technique="generated expressions against scalar evaluation (PBT, ASan)")

prop("C04", "Elementwise functions and operators compute their documented scalar function",
     "Every elementwise function and operator, applied to a view, a mix of views and scalars, or scalars, gives in each element the value of its mathematical or logical definition (real, complex, integer and boolean operands as it accepts), with the documented result type. "
     "The scalar and the view forms agree.",
     ["inputs"], "all elementwise functions, operand kinds (view/scalar on either side), element types and argument values in the function's domain",
     "Tests call each function on one or two values, so argument-order mistakes, sign conventions and complex branches at other values stay unseen.",
     ["src/ovxx/view/fns_elementwise.hpp", "src/ovxx/view/functors.hpp", "src/ovxx/math/scalar.hpp", "src/ovxx/view/operators.hpp", "src/vsip/impl/fns_userelt.hpp", "src/vsip/complex.hpp"],
     [("scalar definitions", "src/ovxx/math/scalar.hpp"), ("functors", "src/ovxx/view/functors.hpp")],
     technique="generated operands against independent scalar formulas (PBT)")

prop("C05", "Reductions combine every element exactly once and locate extrema correctly",
     "A reduction (sum, mean, sum and mean of squares and of magnitudes squared, all/any true, minimum/maximum of value, magnitude, magnitude squared) returns the value of its definition over all elements of the view, and those that report an index return the position of an element holding that extremum. "
     "The result does not depend on the view's layout or on the storage around it.",
     ["inputs"], "all reductions, 1-3 dimensional views and expressions, layouts, subviews, element types, ties and extreme positions",
     "Tests reduce a few ramps; the traversal order and the layouts chosen by dispatch are not varied.",
     ["src/ovxx/reductions/reductions.hpp", "src/ovxx/reductions/reductions_idx.hpp", "src/ovxx/reductions/functors.hpp", "src/vsip/impl/reductions/reductions.hpp", "src/vsip/impl/reductions/reductions_idx.hpp"],
     [("generic reduction loop", "src/ovxx/reductions/reductions.hpp"), ("index reductions", "src/ovxx/reductions/reductions_idx.hpp")],
     technique="generated views against direct loops (PBT, ASan)")

prop("C06", "Matrix and vector products equal their definitions for every shape and layout",
     "Products (vector-matrix, matrix-vector, matrix-matrix, transposed, Hermitian and conjugated forms, fixed 3x3/4x4 forms, dot, outer, Kronecker), generalized product/sum, cumulative sum, modulation and vector-matrix elementwise multiplication give the values of their definitions, and write only their destination. "
     "This holds for all shapes (degenerate ones included), dimension orders, strides, subviews and complex storage formats.",
     ["inputs", "configurations"], "shapes 1..20, layouts, strides, storage formats, element types and all operation forms",
     "Whether the BLAS or the generic code runs, and with which leading dimensions and transposition flags, depends on the operands' layouts together; tests use few combinations.",
     ["src/vsip/impl/matvec.hpp", "src/vsip/impl/matvec_prod.hpp", "src/ovxx/lapack/blas.hpp", "src/vsip/impl/vmmul.hpp", "src/ovxx/expr/vmmul.hpp"],
     [("BLAS evaluators", "src/ovxx/lapack/blas.hpp"), ("generic evaluators", "src/vsip/impl/matvec.hpp")],
     technique="generated operands against triple loops with exact small-integer data (PBT, ASan)")

prop("C07", "An FFT computes the discrete Fourier transform it was configured for",
     "A 1-, 2- or 3-dimensional FFT object (complex, real-to-complex along any axis, complex-to-real; either direction) computes the scaled discrete Fourier transform of its input for every size, returned by value, by reference or in place, whatever the input and output layouts, and as often as it is called. "
     "By-reference transforms leave the input unchanged, and everything outside the output stays untouched.",
     ["inputs", "histories"], "sizes with arbitrary prime factors, directions, scales, axes, layouts, storage formats, number of calls",
     "Tests try a short list of sizes; planner choices, workspace reuse between calls, and layout adaptation depend on the combination.",
     ["src/vsip/impl/signal/fft.hpp", "src/ovxx/signal/fft.hpp", "src/ovxx/signal/fft/workspace.hpp", "src/ovxx/signal/fft/backend.hpp", "src/ovxx/fftw/fftw.cpp", "src/ovxx/fftw/fft.cpp"],
     [("FFT facade", "src/ovxx/signal/fft.hpp"), ("workspace layout adaptation", "src/ovxx/signal/fft/workspace.hpp"), ("FFTW backend", "src/ovxx/fftw/fftw.cpp")],
     technique="generated transforms against a long-double DFT, plus linearity and inversion (PBT, ASan)")

prop("C08", "A multiple FFT transforms each row or column independently",
     "A multiple FFT of a matrix applies the configured one-dimensional scaled transform to every row (or column), by value, by reference or in place, whatever the layouts, and as often as it is called.",
     ["inputs", "histories"], "matrix shapes, axes, directions, scales, layouts, storage formats, number of calls",
     "Tests try a few shapes; each backend handles batch stride and element stride per layout and axis.",
     ["src/vsip/impl/signal/fft.hpp", "src/ovxx/signal/fft.hpp", "src/ovxx/signal/fft/workspace.hpp", "src/ovxx/fftw/fftw.cpp"],
     [("FFTM facade", "src/ovxx/signal/fft.hpp"), ("FFTW backend", "src/ovxx/fftw/fftw.cpp")],
     technique="generated transforms against a long-double DFT per row (PBT, ASan)")

prop("C09", "Convolution gives the defined sum for every support, symmetry and decimation",
     "A convolution object reports the output size of its support region and decimation and computes, in each output element, the sum of products the support region, kernel symmetry and decimation define, for 1- and 2-dimensional inputs, every layout, and every call.",
     ["inputs"], "kernel/input sizes, symmetries, support regions, decimations, layouts, element types",
     "Tests sample sizes on fixed lists; edge handling depends on kernel parity, decimation and support together.",
     ["src/vsip/impl/signal/conv.hpp", "src/ovxx/signal/conv.hpp"], [("convolution kernels", "src/ovxx/signal/conv.hpp")],
     technique="generated problems against the defining sum (PBT, ASan)")

prop("C10", "Correlation gives the defined lagged sum, biased or unbiased",
     "A correlation object reports the lag count of its support region and computes for each lag the sum of products of the reference with the conjugated input, divided by the overlap count (as C-VSIPL defines it) when unbiased, in one or two dimensions, for every layout and every call.",
     ["inputs"], "reference/input sizes, support regions, bias, layouts, element types",
     "Tests sample sizes on fixed lists; edge lags and bias counts depend on sizes and support together.",
     ["src/vsip/impl/signal/corr.hpp", "src/ovxx/signal/corr.hpp"], [("correlation kernels", "src/ovxx/signal/corr.hpp")],
     technique="generated problems against the defining sum (PBT, ASan)")

prop("C11", "Filtering a stream in pieces equals filtering it whole",
     "A FIR or IIR filter that saves its state, fed a stream in successive frames, produces the output of filtering the concatenated stream, including decimation phase, and its reset, copies and non-saving mode each behave as a filter whose past is zero (or the copied past). "
     "Each output is the filter's defining difference equation.",
     ["inputs", "histories"], "kernels (all symmetries), decimations, frame contents, histories of filter/reset/copy",
     "Tests run two or three frames; state carried over depends on frame length, decimation and kernel length in combination with the history.",
     ["src/vsip/impl/signal/fir.hpp", "src/ovxx/signal/fir.hpp", "src/vsip/impl/signal/iir.hpp"],
     [("FIR state", "src/ovxx/signal/fir.hpp"), ("IIR state", "src/vsip/impl/signal/iir.hpp")],
     technique="stateful generated histories against a reference filter (PBT, ASan)")

prop("C12", "LU and Cholesky solvers solve the system that was decomposed",
     "After a successful decomposition, solving with each operation (plain, transposed, Hermitian) gives an X whose residual is small relative to the matrix's conditioning, for every right-hand side shape, matrix layout, element type and either triangle; the decomposed matrix's other contents do not matter and inputs are unchanged. "
     "A solver can be reused, copied and re-decomposed, and reports failure for a matrix it cannot decompose.",
     ["inputs", "histories"], "matrix sizes, conditioning, layouts, element types, right-hand sides, histories of decompose/solve/copy",
     "Tests solve a few fixed systems; transposition flags, leading dimensions and storage conversion depend on the layouts.",
     ["src/vsip/impl/solver/lu.hpp", "src/vsip/impl/solver/cholesky.hpp", "src/ovxx/lapack/lu.hpp", "src/ovxx/lapack/cholesky.hpp"],
     [("LAPACK LU", "src/ovxx/lapack/lu.hpp"), ("LAPACK Cholesky", "src/ovxx/lapack/cholesky.hpp")],
     technique="generated systems, residual oracle (PBT, ASan)")

prop("C13", "QR and SVD factor the given matrix, and their products and solves agree with it",
     "After a QR decomposition, the products with Q, the solves with R and the covariance and least-squares solves satisfy their defining equations for the decomposed matrix; after an SVD the singular values are non-negative, non-increasing and, with the products by U and V and the extracted parts, reconstruct the matrix. "
     "This holds for each storage option, shape, layout and element type.",
     ["inputs", "histories"], "matrix shapes and ranks, storage options, product sides and operations, layouts, element types",
     "Tests use a few sizes; which product forms are valid and how they are dimensioned varies with storage option, side and operation.",
     ["src/vsip/impl/solver/qr.hpp", "src/vsip/impl/solver/svd.hpp", "src/vsip/impl/solver/llsqsol.hpp", "src/ovxx/lapack/qr.hpp", "src/ovxx/lapack/svd.hpp"],
     [("LAPACK QR", "src/ovxx/lapack/qr.hpp"), ("LAPACK SVD", "src/ovxx/lapack/svd.hpp")],
     technique="generated matrices, defining-equation oracle (PBT, ASan)")

prop("C14", "Covariance, least-squares and Toeplitz solvers satisfy their defining equations",
     "The covariance solver's X satisfies A^H A X = B, the least-squares solver's X minimizes the residual, and the Toeplitz solver's x satisfies T x = b for the Hermitian Toeplitz matrix given by its first row, whether results are returned or written to an argument; inputs are unchanged.",
     ["inputs"], "shapes, conditioning, layouts, element types",
     "Tests solve a few fixed systems in one layout.",
     ["src/vsip/impl/solver/covsol.hpp", "src/vsip/impl/solver/llsqsol.hpp", "src/vsip/impl/solver/toepsol.hpp"],
     [("toepsol recursion", "src/vsip/impl/solver/toepsol.hpp"), ("covsol/llsqsol on QR", "src/vsip/impl/solver/covsol.hpp")],
     technique="generated systems, defining-equation oracle (PBT, ASan)")

prop("C15", "Direct data access shows a block's elements as requested and writes them back",
     "Through a direct-data-access object requested with any layout and sync policy, element (i,j,k) is found at the reported strides with the reported sizes in the requested layout; after synchronizing out, or destruction, the block holds what was written through the pointer, and an input-only access leaves the block unchanged. "
     "A copy happens only when the reported cost is non-zero, and only the block's own elements are ever changed.",
     ["inputs", "histories"], "block kinds (dense, padded, subviews), requested orders, packings, alignments, storage formats, sync policies, histories of sync_in/sync_out",
     "Tests access a few blocks with matching layouts; the choice of direct access or buffered copy depends on layout and run-time strides.",
     ["src/vsip/dda.hpp", "src/ovxx/dda/accessor.hpp", "src/ovxx/dda/runtime.hpp", "src/ovxx/dda/block_copy.hpp", "src/ovxx/adjust_layout.hpp"],
     [("accessors", "src/ovxx/dda/accessor.hpp"), ("block copy", "src/ovxx/dda/block_copy.hpp")],
     technique="stateful generated accesses against an element model (PBT, ASan)")

prop("C16", "User-storage blocks exchange data with user memory exactly at admit and release",
     "A block over user storage holds the user's data after admit(true), gives the block's data back in user memory after release(true), leaves user memory alone otherwise, and find() and rebind() return and replace the pointers in each storage form (real array, interleaved and split complex). "
     "This holds over any history of admit, release, rebind and element access.",
     ["histories"], "histories of admit/release/rebind/find/get/put over all storage forms, dimension counts and orders",
     "Tests run one admit-modify-release cycle per form; histories that mix update flags, rebind and re-admission are not explored.",
     ["src/ovxx/storage/block.hpp", "src/ovxx/storage/user.hpp", "src/ovxx/storage/manager.hpp", "src/ovxx/storage/host.hpp", "src/vsip/dense.hpp"],
     [("storage manager", "src/ovxx/storage/manager.hpp"), ("user storage", "src/ovxx/storage/user.hpp")],
     technique="stateful generated histories against a two-copy model (PBT, ASan)")

prop("C17", "A serialized block description recreates the block; misfits are rejected",
     "Describing a block and its data, then using the descriptor and the raw bytes to load into a compatible block, gives an equal block; the compatibility checks accept a descriptor only if the block's element type, dimensions and layout can take the data as described.",
     ["inputs"], "element types, dimension counts, orders, packings, storage formats, sizes, descriptor mutations",
     "One test describes a couple of blocks.",
     ["src/vsip/serialization.hpp"], [("descriptor and compatibility checks", "src/vsip/serialization.hpp")],
     technique="round trip and generated descriptor mutations (PBT)")

prop("C18", "Domains and indexes behave as the index sets they denote",
     "A domain denotes the index sequence first, first+stride, ...; its size, equality, conformance predicates, element access and arithmetic (+, -, *, / by a scalar) agree with that sequence in each dimension, and index arithmetic is componentwise.",
     ["inputs", "histories"], "firsts, strides of either sign, lengths, 1-3 dimensions, sequences of operations",
     "Tests check literal examples with positive strides.",
     ["src/vsip/domain.hpp"], [("Domain", "src/vsip/domain.hpp")],
     technique="generated operation sequences against explicit index lists (PBT, ASan)")

prop("C19", "Every block layout gives distinct elements distinct, in-bounds, aligned storage",
     "For each dimension order, packing (dense, unit-stride, aligned) and storage format a block places each element at its own storage location within the block's allocation, with the requested minor dimension contiguous and each row aligned as the layout promises; get and put by multi-index are inverse and independent of each other.",
     ["inputs", "configurations"], "shapes, orders, packings, alignments, storage formats, element types",
     "Tests check a few shapes per layout.",
     ["src/ovxx/layout.hpp", "src/ovxx/strided.hpp", "src/vsip/dense.hpp", "src/vsip/layout.hpp"],
     [("applied layout", "src/ovxx/layout.hpp"), ("strided block", "src/ovxx/strided.hpp")],
     technique="generated shapes and layouts, bijection and alignment oracle (PBT, ASan)")

prop("C20", "Random generators reproduce the documented sequences",
     "A random-number generator's output depends only on seed, number of processes and id as documented: equal parameters give equal sequences however values are drawn (scalars, vectors, matrices, tensors), parallel generators partition the serial sequence, uniform values are the documented integer recurrence divided by 2^32 (so from 0 to 1), and a view of n elements takes n of them.",
     ["inputs", "histories"], "seeds, process counts, ids, portable flag, interleavings of scalar and view draws",
     "Tests compare one or two seeds with the C reference.",
     ["src/vsip/random.hpp"], [("Rand", "src/vsip/random.hpp")],
     technique="generated draw sequences against an independent implementation of the recurrence (PBT)")

prop("C21", "Selection and generation functions select exactly the stated elements",
     "first(), indexbool(), gather(), scatter(), clip(), invclip(), swap(), ramp() do what they state for every input: the first matching position at or after the start, all true positions in order, gathered/scattered elements by index, thresholds applied with the stated boundary handling, elements exchanged; nothing else changes.",
     ["inputs"], "all selection functions, view shapes and layouts, thresholds equal to elements, index lists with repeats",
     "Tests call each on one input.",
     ["src/vsip/selgen.hpp"], [("selgen", "src/vsip/selgen.hpp")],
     technique="generated views against direct loops (PBT, ASan)")

prop("C22", "Histogram, frequency swap and window functions match their definitions",
     "A histogram counts each value in its bin (values out of range in the end bins) and accumulates on request; freqswap exchanges halves for even and odd sizes, in place or not; blackman, hanning, kaiser and chebyshev windows equal their defining formulas.",
     ["inputs", "histories"], "bin counts, ranges, values on bin edges, accumulation histories, sizes of both parities, window parameters",
     "Tests check single sizes.",
     ["src/vsip/impl/signal/histo.hpp", "src/vsip/impl/signal/freqswap.hpp", "src/ovxx/signal/freqswap.hpp", "src/ovxx/signal/window.cpp", "src/vsip/impl/signal/window.hpp"],
     [("histogram", "src/vsip/impl/signal/histo.hpp"), ("freqswap", "src/ovxx/signal/freqswap.hpp"), ("windows", "src/ovxx/signal/window.cpp")],
     technique="generated inputs against definitions (PBT, ASan)")

prop("C23", "A map partitions every domain: each element lives in exactly one patch",
     "For every distribution (whole, block, cyclic, block-cyclic with any block size) in each dimension and any processor grid, the subblocks of a map partition the applied domain: every global index belongs to exactly one subblock and local position, global-to-local and local-to-global conversions are inverse, and subblock domains, patches and sizes agree with them on every process. "
     "Two maps compare equal or equivalent only if they place every element alike.",
     ["inputs", "configurations"], "domain sizes, distributions, segment sizes, processor grids (also with more processors than elements), 1-3 dimensions",
     "Tests apply a short list of maps to a few sizes.",
     ["src/vsip/map.hpp", "src/vsip/impl/dist.hpp", "src/ovxx/parallel/subset_map_decl.hpp", "src/ovxx/parallel/transpose_map_decl.hpp", "src/vsip/impl/replicated_map.hpp"],
     [("Map", "src/vsip/map.hpp"), ("distributions", "src/vsip/impl/dist.hpp"), ("subset map", "src/ovxx/parallel/subset_map_decl.hpp")],
     technique="generated maps against an enumeration of the definition (PBT, MPI)")

prop("C24", "Assigning between distributed views moves every element to its place",
     "On any number of processes, assigning a distributed view to another of the same shape with any other distribution (mapped, replicated, local, subviews of either) leaves every destination element, on every process holding it, equal to the source element, changes nothing else, and terminates; repeating a planned assignment transfers the current values.",
     ["inputs", "configurations", "schedules"], "process counts 1-8, pairs of maps, shapes, subviews, repeated assignments",
     "Tests use a few maps and sizes on a fixed process count.",
     ["src/ovxx/parallel/assign_chain.hpp", "src/ovxx/parallel/assign_block_vector.hpp", "src/ovxx/parallel/assign_local.hpp", "src/ovxx/parallel/assign.hpp", "src/ovxx/parallel/distributed_block.hpp", "src/ovxx/mpi/chain_builder.hpp", "src/vsip/impl/parallel.hpp"],
     [("chained assignment", "src/ovxx/parallel/assign_chain.hpp"), ("block-vector assignment", "src/ovxx/parallel/assign_block_vector.hpp"), ("setup_assign", "src/vsip/impl/parallel.hpp")],
     technique="generated map pairs on 1-8 MPI processes against a global model (PBT)")

prop("C25", "Computing on distributed views gives the serial result",
     "Elementwise expressions, scalar assignment, element access, reductions (values and indices) and vector-matrix multiplication over distributed views give on every process the result of the same operation on ordinary views, whatever maps the operands have.",
     ["inputs", "configurations"], "process counts 1-8, maps of operands and results, shapes, operations",
     "Tests check fixed maps and operations.",
     ["src/ovxx/parallel/expr.hpp", "src/ovxx/parallel/distributed_block.hpp", "src/ovxx/reductions/reductions.hpp", "src/ovxx/parallel/support.hpp", "src/ovxx/parallel/util.hpp"],
     [("parallel expression", "src/ovxx/parallel/expr.hpp"), ("parallel reduction", "src/ovxx/reductions/reductions.hpp")],
     technique="generated distributed computations, differential against serial (PBT, MPI)")

prop("C26", "A block lives exactly as long as a view or owner refers to it",
     "Views share their block, copies of views refer to the same elements, and a block (with everything its subviews need) stays valid while any view or subview refers to it and is released exactly once, when the last goes, over any history of creation, copying, taking parts, assignment and destruction, also when references are taken and dropped concurrently by threads.",
     ["histories", "schedules"], "histories of view creation, copy, subview, destruction; interleavings of reference counting",
     "Tests never build long-lived graphs of subviews or check that memory is returned.",
     ["src/ovxx/refcounted.hpp", "src/ovxx/view/view.hpp", "src/vsip/dense.hpp", "src/ovxx/expr/subset.hpp", "src/ovxx/block_traits.hpp"],
     [("reference counting", "src/ovxx/refcounted.hpp")],
     technique="stateful generated view graphs, an allocator that watches what is live, ASan, threads (PBT)")

prop("C27", "Allocators return aligned, disjoint memory; blocks use the one they are given",
     "Memory obtained from the library's allocators is aligned as requested, does not overlap other live allocations, holds what is written to it, and is freed through the allocator it came from; every allocation is balanced by a deallocation of the same size.",
     ["histories"], "histories of allocate/deallocate of all sizes and types, blocks with custom allocators",
     "No test examines overlap or balance.",
     ["src/ovxx/allocator.hpp", "src/ovxx/allocator.cpp", "src/ovxx/aligned_allocator.hpp", "src/ovxx/aligned_array.hpp", "src/ovxx/storage/host.hpp"],
     [("aligned allocator", "src/ovxx/aligned_allocator.hpp"), ("host storage", "src/ovxx/storage/host.hpp")],
     technique="stateful generated allocation histories (PBT, ASan)")

prop("C28", "Communication operations deliver the right data to exactly the right processes",
     "A communicator's rank and size, subgroup construction, point-to-point transfers, broadcast and reductions deliver the data sent, for every element type and count, to exactly the members involved; library initialization and finalization can be nested and balance.",
     ["inputs", "histories", "configurations"], "process counts 1-8, subgroups, element types, lengths, reduction kinds, nesting of library objects",
     "One test sends a few values.",
     ["src/ovxx/mpi/communicator.hpp", "src/ovxx/mpi/communicator.cpp", "src/ovxx/mpi/group.hpp", "src/ovxx/mpi/group.cpp", "src/ovxx/mpi/datatype.hpp", "src/ovxx/library.cpp"],
     [("communicator", "src/ovxx/mpi/communicator.hpp"), ("library", "src/ovxx/library.cpp")],
     technique="generated communication histories on 1-8 MPI processes against a model (PBT)")
prop("C29", "Threads working with the library do not disturb each other",
     "Threads that each have a library object and work on views, function objects and solvers of their own get the results the same work gives alone, whatever the others do at the same time; views of one block may be copied, read and dropped by several threads, and the block lives exactly as long as the last of them. Library objects may be created and destroyed by several threads in any interleaving.",
     ["inputs", "schedules", "histories"], "2-8 threads, programs of filters, transforms, solvers, expressions, random numbers and selections, copies and drops of shared views, library objects coming and going",
     "The thread tests start a thread and set a thread-local variable.",
     ["src/ovxx/library.cpp", "src/ovxx/refcounted.hpp", "src/ovxx/allocator.hpp", "src/ovxx/allocator.cpp", "src/ovxx/thread.hpp", "src/ovxx/fftw/fft.cpp", "src/ovxx/mpi/service.cpp"],
     [("library", "src/ovxx/library.cpp"), ("refcounted", "src/ovxx/refcounted.hpp"), ("allocator", "src/ovxx/allocator.hpp")],
     technique="generated programs run by 2-8 threads at once against the same programs alone, shared-view histories against a count model, intercepted planner calls (PBT)")
prop("C30", "The Python modules compute what numpy does, on the elements they name",
     "Blocks made, sliced, transposed, cast and assigned through the Python extension modules refer to exactly the elements the same numpy indexing names, share them while any of them lives, and are released once; every exported operation - elementwise functions, in-place arithmetic, products, reductions, clipping, transforms, convolutions, filters, windows, solvers, random numbers - gives for operands of any stride the values numpy's or the definition's formula gives, leaves everything else alone, and reports an index, shape or type that does not exist as a Python exception instead of ending the interpreter.",
     ["inputs", "histories"], "histories of block creation, slicing, assignment and destruction; operations, element types, lengths, strided and reversed operands, parameters, wrong arguments",
     "The Python tests are Python 2 scripts that are not among the tests that run; the modules are only compiled.",
     ["src/ovxx/python/block.hpp", "python/src/block_api.hpp", "python/src/_cast.cpp", "python/src/math/elementwise.hpp", "python/src/math/matvec_api.hpp", "python/src/math/solvers/solvers.hpp", "python/src/signal/fft.hpp", "python/src/signal/fftm.hpp", "python/src/signal/conv.hpp", "python/src/signal/corr.hpp", "python/src/signal/fir.hpp", "python/src/signal/iir.hpp", "python/src/selgen/clip.hpp", "python/src/random.hpp"],
     [("Block", "src/ovxx/python/block.hpp"), ("block operations", "python/src/block_api.hpp"), ("elementwise", "python/src/math/elementwise.hpp"), ("solvers", "python/src/math/solvers/solvers.hpp")],
     technique="generated operations and histories in an embedded interpreter against numpy (PBT, ASan)")
