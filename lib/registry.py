"""What each check builds and runs. See DESIGN.md."""

# The Python extension modules, by their sources.
PY_DEFS = "-I/usr/include/python3.12 -I/usr/lib/python3/dist-packages/numpy/core/include"
PY_MODULES = [f"python/src/{p}.cpp" for p in
              [f"_block_{t}" for t in ("b", "i", "f", "d", "cf", "cd")] + ["_cast", "support", "types", "math/types", "signal/types"]
              + [f"_rand_{t}" for t in ("f", "d", "cd")]
              + [f"math/_{m}_{t}" for m in ("elementwise", "matvec") for t in ("f", "d", "cf", "cd")]
              + [f"{m}_{t}" for m in ("math/_reductions", "selgen/_clip", "signal/_freqswap", "signal/_window", "signal/_fir", "signal/_iir") for t in ("f", "d")]
              + ["signal/_iir_cd"]
              + [f"signal/_{m}_{t}" for m in ("fft", "fftm", "conv", "corr") for t in ("f", "d", "cf", "cd")]
              + [f"math/solvers/_{m}_{t}" for m in ("chold", "covsol", "llsqsol", "lud", "qrd", "svd", "toepsol") for t in ("f", "d")]]

CHECKS = {
    "C01": {
        "rule": "A case is a base view (vector to 40, matrix to 12x12, tensor to 6x6x6; dense in several orders, padded, split complex), a composition of 0-4 selectors (domains with any stride, transpose, permutation, "
                "row, column, diagonal, slices, real/imaginary part), and 1-4 reads/writes through the result or the original; the oracle is the list of original elements each view index denotes. Non-trivial: two or more selectors composed.",
        "parts": [{"units": ["c01_mat_float_row.cpp", "c01_mat_int_col.cpp", "c01_vec.cpp", "c01_mat_cplx_row.cpp", "c01_mat_pad.cpp", "c01_ten_float_012.cpp", "c01_ten_int_201.cpp", "c01_ten_cplx.cpp", "c01_split.cpp"], "flavours": ["asan0"]}],
    },
    "C02": {
        "rule": "A case is a destination and a source view of one shape, each of a generated kind (dense in several orders, strided subview, row, column, diagonal, slice, transposed, permuted, aligned, split complex, real/imaginary part), "
                "cut out of a larger guarded original, element types drawn per property, an assignment, and sometimes a scalar or a self assignment; the oracle is elementwise conversion, and every element outside the destination must stay. Non-trivial: more than one element.",
        "parts": [{"units": ["c02_vf.cpp", "c02_vc.cpp", "c02_vx.cpp", "c02_mf.cpp", "c02_mc.cpp", "c02_mx.cpp", "c02_tf.cpp", "c02_tc.cpp", "c02_il.cpp"], "flavours": ["asan0"]}],
    },
    "C03": {
        "rule": "A program is a generated typed expression (depth to 4, up to 4 views of generated kinds and layouts, scalars, mixed element types) and a way to consume it (=, op=, construction, reading, an expression's subview, the destination among the operands); "
                "quick draws 240 programs from the seed, thorough 960, each run on many generated shapes and values chosen so that all arithmetic is exact. The oracle is the same expression on scalars, element by element. A second part puts transforms returned by value, freqswap() and vmmul() inside larger expressions (assigned, added, read twice, reduced, of the destination itself). Non-trivial: more than one element.",
        "parts": [{"units": [], "gen": {"script": "gen_expr.py", "count": 30, "quick": 8, "thorough": 32}, "flavours": ["asan0"]},
                  {"id": "C03lazy", "units": ["c03_l1.cpp", "c03_l2.cpp", "c03_l3.cpp"], "flavours": ["asan0"]}],
    },
    "C04": {
        "rule": "A case is one function or operator (of about 190 instantiations), operands of 1-24 elements from its domain (special floating-point values and ties included), with every mix of views and scalars; "
                "each element read from the expression, of the assigned and of the constructed vector, and the scalar form, is compared with a long double formula. Every case counts as non-trivial.",
        "parts": [{"units": ["c04_unary.cpp", "c04_unary_c.cpp", "c04_binary.cpp", "c04_binary_c.cpp", "c04_ops.cpp", "c04_ternary.cpp"], "flavours": ["asan0"]}],
    },
    "C05": {
        "rule": "A case is a view of a generated kind, shape and content (small integers, ties, a single extreme placed anywhere, reals; 1-100 elements, 4000-13000 in the long_ laws) and every reduction its type admits, over the view and over expressions of it; "
                "the oracle is a loop in long double (exact for integers), for index forms that the index holds the extremum. Non-trivial: more than one element.",
        "parts": [{"units": ["c05_%s.cpp" % x for x in ("f", "tf", "c", "tc", "d", "td", "i", "ti", "b", "tb")], "flavours": ["asan0"]}],
    },
    "C06": {
        "rule": "A case is one product form with its shape (dimensions 1-20, mostly 1-7), operand and destination kinds (all pairs of kinds by a Latin-square choice: row- and column-major, strided and reversed parts, aligned-padded, split complex, real/imaginary part) and small-integer contents, so that results are exact; "
                "the oracle is the defining sum, and nothing but the destination may change. Non-trivial: more than one term or element.",
        "parts": [{"units": ["c06_%s.cpp" % x for x in ("gemp_f", "gemp_d", "mv_z", "mv_d", "mm_f", "mv_f", "misc", "mm_d", "mm_z", "gemp_c", "mm_c", "mv_c")], "flavours": ["asan0"]},
                  {"id": "C06noblas", "config": "noblas", "units": ["c06_%s.cpp" % x for x in ("gemp_f", "gemp_d", "mv_z", "mv_d", "mm_f", "mv_f", "misc", "mm_d", "mm_z", "gemp_c", "mm_c", "mv_c")], "flavours": ["asan0"], "thorough_flavours": ["asan0"]}],
    },
    "C07": {
        "rule": "A case is an Fft object (1-3 dimensions of 1-210, 1-33, 1-9 points, primes included; complex, real-to-complex or complex-to-real; direction or special axis; by value or by reference; scale) and 1-3 calls of it, each with new data and newly generated kinds of input and output (or in place); "
                "the oracle is the defining sum in long double, to a norm-scaled tolerance; the input and everything outside the output must stay. Non-trivial: more than one point.",
        "parts": [{"units": ["c07_%s.cpp" % x for x in ("1c", "1r", "2c", "2r", "2cr", "3c", "3r", "3cr")], "flavours": ["asan0"]},
                  {"id": "C07dft", "config": "dft", "defs": "-DPBT_DFT", "units": ["c07_%s.cpp" % x for x in ("1c", "1r", "2c", "2r", "2cr", "3c", "3r", "3cr")], "flavours": ["asan0"], "thorough_flavours": ["asan0"]}],
    },
    "C08": {
        "rule": "A case is an Fftm object (1-33 by 1-24; complex, real-to-complex or complex-to-real; row or column; direction; by value or by reference; scale) and 1-3 calls of it, each with new data and newly generated kinds of input and output (or in place); "
                "the oracle is the defining sum per row or column in long double, to a norm-scaled tolerance. Non-trivial: more than one transform of more than one point.",
        "parts": [{"units": ["c08_%s.cpp" % x for x in ("c", "cv", "r", "cr")], "flavours": ["asan0"]},
                  {"id": "C08dft", "config": "dft", "defs": "-DPBT_DFT", "units": ["c08_%s.cpp" % x for x in ("c", "cv", "r", "cr")], "flavours": ["asan0"], "thorough_flavours": ["asan0"]}],
    },
    "C09": {
        "rule": "A case is a convolution object (1 or 2 dimensions, symmetry, support, decimation 1-7, kernel 1-24, input to 50, edge combinations such as kernels longer than the input where allowed), and 1-3 calls with new integer data and newly generated kinds of input and output; "
                "the oracle is the defining sum over the unfolded kernel, exactly, and the reported sizes. Non-trivial: a kernel of more than one element.",
        "parts": [{"units": ["c09_%s.cpp" % x for x in ("f1", "c1", "f2", "c2", "x")], "flavours": ["asan0"]}],
    },
    "C10": {
        "rule": "A case is a correlation object (1 or 2 dimensions, support, reference 1-17, input to 46), and 1-3 calls, biased or unbiased, with new integer data and newly generated kinds of reference, input and output; "
                "the oracle is the defining lagged sum (exact when biased) and its overlap count. Non-trivial: a reference of more than one element.",
        "parts": [{"units": ["c10_%s.cpp" % x for x in ("f1", "c1", "f2", "c2", "x")], "flavours": ["asan0"]}],
    },
    "C11": {
        "rule": "A case is a history of 2-10 operations (filter a frame, reset, copy, assign, destroy) over up to four FIR filters of one shape (all symmetries, kernels of 2-18 taps, every allowed decimation, frames to 40, also not multiples of the decimation) "
                "or up to four IIR filters of 1-4 sections, with newly generated kinds of input and output; the oracle filters each filter's whole past from its difference equation, exactly for integers. Non-trivial: at least two frames filtered.",
        "parts": [{"units": ["c11_%s.cpp" % x for x in ("f", "d", "c", "z", "iir")], "flavours": ["asan0"]}],
    },
    "C12": {
        "rule": "A case is a history of 1-8 operations (decompose a regular, ill-scaled, singular or indefinite matrix; solve; copy; assign; destroy) over up to three LU or Cholesky solvers of one order (1-40), by value or by reference, with newly generated kinds of matrix, right-hand sides and result, "
                "either triangle, and other contents in the unused triangle; the oracle is the backward error of each solution in long double. Non-trivial: at least two solves.",
        "parts": [{"units": ["c12_%s_%s.cpp" % (s, x) for s in ("lu", "chol") for x in "fdcz"], "flavours": ["asan0"]}],
    },
    "C13": {
        "rule": "A case is a history of 1-8 operations (decompose a matrix - well conditioned for QR, any rank for SVD -, use, copy, assign, destroy) over up to three QR or SVD objects of one shape (to 24x15 / 13x13) and storage option, by value or by reference, with newly generated kinds of views; "
                "each use compares a solve, product or extraction with the defining equations in long double, and the singular values with a one-sided Jacobi reference. Non-trivial: at least two uses.",
        "parts": [{"units": ["c13_%s_%s.cpp" % (s, x) for s in ("qr", "svd") for x in "fdcz"], "flavours": ["asan0"]}],
    },
    "C14": {
        "rule": "A case is one covariance (to 26x15), least-squares or Hermitian Toeplitz (order to 61) system, well conditioned after shuffling rows so that pivoting or ordering matters, with newly generated kinds of views, the result returned or written; "
                "the oracle is the backward error of the defining equation in long double. Non-trivial: more than one unknown.",
        "parts": [{"units": ["c14_%s%s.cpp" % (s, x) for s in ("", "t") for x in "fdcz"], "flavours": ["asan0"]}],
    },
    "C15": {
        "rule": "A case is one direct-data-access object (1-3 dimensions, every kind of block, a requested order, packing, alignment and storage format given at compile time or at run time, each sync policy, with or without a buffer of exactly the required size) "
                "and a history of up to 6 writes through the pointer, element updates, sync_in and sync_out; the oracle is a model of the block and of the storage (one and the same when the reported cost is zero); also for storage held beyond the view (Persistent_data). Non-trivial: at least one write through the pointer within the history.",
        "parts": [{"units": ["c15_%s.cpp" % x for x in ("f1", "f2", "f3", "a2", "a3", "c1", "c2", "c3", "i1", "i2", "z2", "rt_f", "rt_c", "p", "s")], "flavours": ["asan0"]}],
    },
    "C16": {
        "rule": "A case is one block (1-3 dimensions, each order, array or split storage, with or without a map) created on user memory in one of the three forms or without, and a history of up to 15 admissions, releases, rebinds (also to another size), finds, element accesses and the user's own writes; "
                "the oracle is a model of the block and of every piece of user memory with guards around each. Non-trivial: an admission, an element written, and a second admission or a rebind.",
        "parts": [{"units": ["c16_%s.cpp" % x for x in ("1", "2", "3", "m")], "flavours": ["asan0"]}],
    },
    "C17": {
        "rule": "A case describes a block (every kind of view, order and storage format; as it lies, rearranged by direct data access, or on user storage), sends the raw storage, asks 126 kinds of dense blocks (14 types, 9 orders) whether they can take it and loads one that can; or is a descriptor with up to two changes. "
                "The oracle: an accepting block has the type and dimensions described and keeps elements where the descriptor says; dense blocks of the kind described accept; the loaded block has equal elements. Non-trivial: more than one element, or a changed descriptor of 2 or 3 dimensions.",
        "parts": [{"units": ["c17_%s.cpp" % x for x in ("1", "2", "3")], "flavours": ["asan0"], "fuzz": 60}],
    },
    "C18": {
        "rule": "A case is one or two domains (first, stride in [-100,100], length 1..40, 1-3 dimensions) and a history of + - * / on them, or a pair of indexes; "
                "the oracle is the explicit list of indexes. Non-trivial: a stride other than 1 and more than one index, or a pair that is unequal or written differently.",
        "parts": [{"units": ["c18_domain.cpp"], "fuzz": 60}],
    },
    "C19": {
        "rule": "A case is one layout (dense, unit-stride or aligned to 8..1024, all orders, 1-3 dimensions, array, split and interleaved storage, given at compile time or at run time) of a shape around the alignments, and a block of it on memory of its own or on guarded user memory, whose elements are written with distinct values in a random order by put, reference, view or linear index; "
                "the oracle: every element has its own place within the storage, where the strides have it, strides are those of the order and packing, and a model of the contents. Non-trivial: more than one element.",
        "parts": [{"units": ["c19_%s.cpp" % x for x in ("1", "2", "2c", "3")], "flavours": ["asan0"]}],
    },
    "C20": {
        "rule": "A case is one generator (seed of up to 40 bits, numprocs to 100, id, portable or not) and a history of up to 8 draws of uniform and normal scalars, vectors, matrices, tensors and subviews, or a whole group of generators; "
                "the oracle is the documented integer recurrence stepped one at a time (jumped ahead by squaring for portable generators), and the serial sequence dealt out in turn. Non-trivial: more than one kind of draw, or more than one process.",
        "parts": [{"units": ["c20_rand.cpp"], "flavours": ["asan0"]}],
    },
    "C21": {
        "rule": "A case is one call of first, indexbool, gather, scatter, swap, clip, invclip or ramp on views of any kind with data, positions, thresholds and room drawn; the oracle is the definition on a plain array, with everything around the views guarded. "
                "Non-trivial: a match after the start (first), some but not all true (indexbool), more than one element and position, some but not all clipped.",
        "parts": [{"units": ["c21_%d.cpp" % x for x in (1, 2, 3)], "flavours": ["asan0"]}],
    },
    "C22": {
        "rule": "A case is a history of histogram calls, a frequency swap or a window, with bins, ranges, values at, next to and beyond the edges, sizes, view kinds and window parameters drawn; the oracles are integer arithmetic on the definition, an array permutation, and the defining formulas in long double. "
                "Non-trivial: values both inside and outside the range, more than two elements.",
        "parts": [{"units": ["c22_%s.cpp" % x for x in "hsw"], "flavours": ["asan0"], "fuzz": 60}],
    },
    "C23": {
        "rule": "A case is a map (distribution kinds, subblock counts, contiguities and processors drawn) over a drawn domain of 1-3 dimensions, on 1-8 MPI processes: every patch of every subblock is enumerated and checked to partition the domain, and every index conversion is checked in both directions; subsets of block-distributed views likewise. Other laws take two maps that are alike or differ in one parameter (contiguity, counts, processor order) and check equality against the placement, and that assignments between them move every element to its place. "
                "Non-trivial: at least two subblocks hold elements.",
        "parts": [{"units": ["c23_%s.cpp" % x for x in (1, 2, 3, "iter", "near")], "flavours": ["asan0"], "mpi": True, "np": [1, 4, 8], "np_thorough": [1, 2, 3, 4, 6, 7, 8], "scale": {1: 0.3}}],
    },
    "C24": {
        "rule": "A case is an assignment (plain, and planned and repeated) between two sides, each a view or subview of a block with a drawn map (block, cyclic, whole, replicated; any processors), shapes and element types drawn, on 1-8 MPI processes; the model is the whole block on every process, compared element by element with the local part, on both sides. Or it is a copy through chains of pieces of memory, in the order of the pieces. "
                "Non-trivial: several processes and more than one element.",
        "parts": [{"units": ["c24_%d.cpp" % x for x in range(1, 10)], "flavours": ["asan0"], "mpi": True, "np": [1, 4, 8], "np_thorough": [1, 2, 3, 4, 6, 7, 8], "scale": {1: 0.3}}, {"units": ["c24_chain.cpp"], "flavours": ["asan0"]}],
    },
    "C25": {
        "rule": "A case is a computation with distributed views (expressions over operands and destinations with different drawn maps, subviews, reductions, element access, generators, products, transforms) on 1-8 MPI processes, compared on every process with the same computation on the modelled whole. "
                "Non-trivial: several processes and more than one element.",
        "note": "Outside the statement, because the library does not claim to support it: 1-D and 2-D Fft, freqswap, convolution into partly replicated destinations and Rand on views spread over several processes; assigning a view without a map (products, gathers, windows) to a distributed view; subsets of subsets and of cyclic maps (these throw).",
        "parts": [{"units": ["c25_%d.cpp" % x for x in range(1, 10)], "flavours": ["asan0"], "mpi": True, "np": [1, 4, 8], "np_thorough": [1, 2, 3, 4, 6, 7, 8], "scale": {1: 0.3}}],
    },
    "C26": {
        "rule": "A case is a history of views in a pool of slots: blocks made by views, by hand, or over memory of the user; copies, const copies, subviews (to three levels) and replacements, writes, element assignment, and destruction in any order. After each step every view's elements are compared with the model, and an allocator that knows what is live tells whether each block exists exactly as long as a view of it. "
                "Non-trivial: more than 8 steps.",
        "parts": [{"units": ["c26_%d.cpp" % x for x in (1, 2, 3, 4, 5)], "flavours": ["asan0"]}],
    },
    "C27": {
        "rule": "A case is a history of memory being allocated, handed over, resized and released, directly (any sizes, alignments and allocators) or by blocks, views and computations (with the default allocator exchanged in between, or failing at a drawn point). Every piece is filled with a pattern and checked for alignment, overlap and content; watched allocators know what is live and what size it has. "
                "Non-trivial: more than four steps or objects.",
        "parts": [{"units": ["c27_%d.cpp" % x for x in (1, 2, 3)], "flavours": ["asan0"]}],
    },
    "C28": {
        "rule": "A case is a history of groups and communicators made from one another, a set of messages between processes, one broadcast or reduction, work in worlds that are part of the processes, or a history of library objects coming and going (also when the application owns MPI), compared with a model of who takes part and what is delivered. "
                "Non-trivial: several processes, and a proper subgroup, a message between different processes, or more than one library object.",
        "parts": [{"units": ["c28_%d.cpp" % x for x in (1, 2, 3, 4, 5)], "flavours": ["asan0"], "mpi": True, "np": [1, 4, 8], "np_thorough": [1, 2, 3, 4, 6, 7, 8], "scale": {1: 0.3}},
                  {"units": ["c28_6.cpp"], "flavours": ["asan0"], "mpi": True, "defs": "-DPBT_NO_VSIP", "np": [1, 3], "np_thorough": [1, 2, 3, 5]},
                  {"units": ["c28_7.cpp"], "flavours": ["asan0"], "races": True, "defs": "-DPBT_NO_VSIP"}],
    },
    "C29": {
        "rule": "A case runs 2 to 8 threads at the same time, each with a library object, data and a generated program of its own, several passes; or threads that copy and drop views of common blocks; or threads that create, use and destroy library objects in a drawn interleaving. Results are compared with the same programs run alone, counts with a model. "
                "Non-trivial: at least two threads at work together.",
        "note": "The operating system schedules the threads: a case explores one schedule, made dense by barriers, repeated passes and (for FFTW's planner) intercepted calls that sleep. Trusts FFTW's execution, OpenBLAS and the MPI library to be thread-safe as documented.",
        "parts": [{"units": ["c29_1.cpp", "c29_2.cpp", "c29_3.cpp", "c29_4.cpp"], "flavours": ["asan0"], "races": True}, {"units": ["c29_6.cpp"], "flavours": ["asan0"], "races": True}, {"units": ["c29_5.cpp"], "flavours": ["asan0"], "races": True, "defs": "-DPBT_NO_VSIP"}],
    },
    "C30": {
        "rule": "A case runs a generated use of the Python extension modules (built from the repository's sources, in an embedded interpreter): a history of block operations on blocks and parts of parts, or one function on whole blocks and sub-blocks with any step. The oracle is numpy. "
                "Non-trivial: a history that makes a part and writes to something, or operands with more than one element.",
        "note": "The package's .py files are written for Python 2, of which there is no interpreter here; the check drives the extension modules they wrap. The modules of parallel/ and opencl/ are not covered. Trusts numpy.",
        "parts": [{"units": ["c30.cpp"], "flavours": ["asan0"], "defs": PY_DEFS, "modules": PY_MODULES, "modlibs": "-lboost_python312", "libs": "-rdynamic -lboost_python312 -lpython3.12"}],
    },
}
