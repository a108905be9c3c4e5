#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 mc/props.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

GEMM = ["src/cake_sgemm.cpp", "src/cake_sgemm_k_first.cpp", "src/cake_sgemm_m_first.cpp", "src/cake_sgemm_n_first.cpp"]
PACK = ["src/pack_helper.cpp", "src/pack_k_first.cpp", "src/pack_m_first.cpp", "src/pack_n_first.cpp", "src/pack_ob.cpp",
        "src/unpack_k_first.cpp", "src/unpack_m_first.cpp", "src/unpack_n_first.cpp"]
TEST = "run_tests() samples dimensions from {1,10,96,111,960,2111}, p in 2..4, one machine description, one random input per case and a 1e-3 tolerance; "

p("C01", "Every multiply entry point computes the exact product for every shape",
  "For every M, N, K >= 1, every worker count p >= 1, every schedule (K-first, M-first, N-first or chosen automatically), every multiply entry point (standard, 2D-grid, online-packing) and every cache-size configuration, C receives the product A*B of the row-major inputs. "
  "When all partial sums are exactly representable in single precision, the result is exactly the mathematical product, element by element.",
  ["inputs", "configurations"], "all (M,N,K), p, schedule, entry point, cache sizes, core counts",
  TEST + "block-count parities, corner turns, tails of tails, p = 1, p > 4, non-default caches and small blocks are never reached.",
  GEMM + PACK + ["src/block_sizing.cpp", "include/cake.h"],
  [("CB block loops with snake order and edge blocks", "schedule_KMN, schedule_MKN, schedule_NKM, schedule_KMN_2d, schedule_KMN_online"),
   ("block sizing", "init_block_dims, init_block_dims_2d"), ("packing / unpacking of edge blocks", "pack_ob_*, unpack_ob_*")],
  ["contents of C after cake_sgemm, cake_sgemm_2d, cake_sgemm_online"])

p("C02", "The result does not depend on the selected register tile",
  "Selecting any of the register-tile shapes the library ships (6x16, 6x32, 8x16, 8x32 in the default build) on a context changes only performance: every schedule and entry point still computes the exact product for every shape, worker count and cache size.",
  ["inputs", "configurations"], "all register tiles x shapes x schedules x p x caches",
  "The test suite only ever runs with the default tile; no test calls the tile selector.",
  ["src/block_sizing.cpp", "include/kernel_wrapper.h", "python/kernel_gen.py"] + GEMM,
  [("tile selection and kernel table", "update_mr_nr, kernel_map"), ("micro-kernel dispatch", "cake_sgemm_ukernel")],
  ["contents of C after update_mr_nr + cake_sgemm*"])

p("C03", "User-supplied tile sizes change the blocking, never the result",
  "When the caller supplies all three block sizes (rows a multiple of the register-tile height, columns a multiple of its width, any depth >= 1), every entry point computes the exact product for every shape, schedule and worker count.",
  ["inputs", "configurations"], "all valid (mcu,kcu,ncu) x shapes x schedules x p",
  "No test passes user tile sizes at all.",
  ["src/block_sizing.cpp", "include/cake.h"] + GEMM + PACK,
  [("user-defined tiling", "get_cache_dims, init_block_dims, init_block_dims_2d")], ["contents of C after cake_sgemm*(..., mcu, kcu, ncu)"])

p("C04", "The result does not depend on thread scheduling or on the team obtained",
  "For fixed inputs and fixed requested worker count, the bits of C are the same for every interleaving of the worker threads and for every number of threads the OpenMP runtime actually provides (from 1 to the number requested), including when the call is made inside another parallel region; no schedule deadlocks.",
  ["schedules"], "all interleavings of each parallel region, all team sizes 1..p, all completion orders",
  "Tests run each case once under whatever schedule the OS picks, always with a full team.",
  GEMM + PACK, [("omp parallel for regions with private index variables", "schedule_*, pack_*, unpack_*")],
  ["bits of C"])

p("C05", "Parallel regions are free of data races",
  "In every parallel region that the multiply, pack, unpack, transpose and checking functions open, no two threads access the same memory location with at least one write unless the accesses are ordered by synchronisation.",
  ["schedules", "inputs"], "all threads and memory accesses of every parallel region, for all shapes, schedules, p",
  "A race shows up in a test only if the losing order happens to occur and changes a value by more than the tolerance.",
  GEMM + PACK + ["src/transpose.cpp", "src/util.cpp"],
  [("per-core output buffers and disjoint packed ranges", "C_p[core], A_p/B_p offsets"), ("private clauses", "pragma omp parallel for private(...)")],
  ["conflicting unsynchronised accesses"])

p("C06", "No call accesses memory outside the caller's matrices and its own buffers",
  "For every shape, schedule, entry point, worker count, cache configuration and register tile, a call reads only the M*K elements of A and the N*K elements of B, reads or writes only the M*N elements of C, and stays inside its own working buffers, with no other undefined behaviour such as signed overflow, division by zero or use of uninitialised values.",
  ["inputs", "configurations"], "all shapes/configurations; every load and store",
  "Over-reads past a heap matrix are silent in the tests, which also never place matrices next to unmapped memory.",
  GEMM + PACK + ["src/block_sizing.cpp"], [("edge padding tests in packing", "pack_ob_A_single_buf, pack_ob_B_single_buf, pack_B_k_first"), ("buffer sizes", "cake_sgemm_packed_*_size, calloc of C_p")],
  ["faults against guard pages, sanitizer reports, canaries"])

p("C07", "Inputs are never modified and exactly the M x N output is defined",
  "A multiply call leaves A and B bit-for-bit unchanged, writes every one of the M*N elements of C and nothing around it, and (with beta = 0) its result does not depend on the previous contents of C, even when those are NaN or infinite. "
  "This also holds when A and B are the same array or lie in read-only memory.",
  ["inputs", "configurations"], "all shapes/schedules/p; all prior contents of C",
  "Tests check C against a reference but start from a zeroed C and never re-check A, B or the surroundings of C.",
  GEMM + PACK, [("private zero-initialised accumulators, copy-out restricted to valid elements", "unpack_ob_C_single_buf")],
  ["A, B, C and the bytes around C"])

p("C08", "Pre-packed operands give the same result as unpacked ones",
  "An operand packed beforehand with the library's packing functions, into a buffer of the size the library reports (aligned as floats are), and passed as already packed gives bit-for-bit the same result as passing the plain matrix, for either or both operands, and the packed buffers are neither modified nor freed and can be reused.",
  ["inputs", "configurations", "histories"], "all packed/unpacked combinations x shapes x schedules x p",
  "No test passes a pre-packed operand.",
  ["src/cake_sgemm.cpp"] + PACK, [("packedA / packedB flags", "cake_sgemm"), ("packing entry points and sizes", "pack_A, pack_B, cake_sgemm_packed_A_size, cake_sgemm_packed_B_size")],
  ["contents of C, packed buffers"])

p("C09", "The scalars are honoured: C = alpha*A*B + beta*C",
  "For every schedule and entry point the call computes alpha*A*B + beta*C, with beta = 0 meaning that the old C is ignored rather than multiplied, alpha = 1 and beta = 0 being the plain product, and every element of the output scaled exactly once.",
  ["inputs", "configurations"], "all alpha, beta over an exactly representable alphabet x shapes x schedules x p",
  "Every test uses alpha = 1 and beta = 0.",
  ["src/cake_sgemm.cpp", "include/cake.h"] + PACK, [("scaling at copy-out", "unpack_C, unpack_ob_C_single_buf")],
  ["contents of C"])

p("C10", "A call's result depends only on its arguments, not on earlier calls",
  "Whatever sequence of multiplications, tile selections and packings was performed before with the same context (any shapes, schedules, worker counts, user tile sizes), a multiply call returns the same bits in C as on a fresh process and fresh context with the same machine parameters and register tile.",
  ["histories"], "all operation sequences up to a depth on one context, and all reachable context states",
  "Tests walk one fixed sequence over one context and compare with tolerance; they never compare against a fresh context.",
  ["src/block_sizing.cpp", "src/cake_sgemm.cpp"], [("context fields rewritten by each call", "get_cache_dims (alpha_n), update_mr_nr"), ("OpenMP thread-count setting", "omp_set_num_threads")],
  ["contents of C, context bytes"],
  [("cake_cntx_t", "machine parameters, tile, alpha_n shared across calls", "include/common.h"), ("nthreads-var", "OpenMP thread count left behind by a call", "omp_set_num_threads")])

p("C11", "Every call gives back all the resources it took",
  "After any multiply, pack, query or check call returns, the process holds exactly the memory, file descriptors and child processes it held before, apart from the object returned to the caller, so arbitrarily long histories of calls do not exhaust anything; memory is never freed twice or freed if not owned.",
  ["histories", "configurations"], "all entry points, including calls without a context, in all combinations of packed operands and schedules",
  "A leak of a few hundred bytes or one descriptor per call is invisible to tests that exit after a few thousand calls.",
  ["src/cake_sgemm.cpp", "src/block_sizing.cpp", "src/util.cpp"], [("paired allocation and release", "cake_sgemm*, get_cache_dims/init_block_dims, popen/pclose in cache and core queries")],
  ["allocation ledger, /proc/self/fd, child processes"])

p("C12", "Running out of memory stops the call cleanly",
  "If any single memory allocation made during a multiply or context-query call fails, the process terminates through the library's error exit with a non-zero status (or the call reports failure); it never crashes on the failed allocation, never continues with a wrong or partial result and never returns normally with a wrong C.",
  ["fault_sequences", "configurations"], "every allocation index of every entry point x schedule x shape x p",
  "No test injects an allocation failure.",
  ["src/cake_sgemm.cpp", "src/block_sizing.cpp"], [("checks of allocation results", "posix_memalign / malloc / calloc call sites")],
  ["exit status, signals, contents of C"])

p("C13", "The machine description is read correctly or rejected, for every lscpu output",
  "A queried context reports the L1 data, L2 and L3 sizes in bytes that lscpu lists (K, M and G units, whole or decimal; for the CPU models in the library's table, the sizes of the table) and the number of physical cores per socket (processors / (threads per core x sockets), at least 1), uses documented fallbacks for missing values, and leaves no field that later calls read uninitialised. "
  "No output of the probed commands (empty, missing lines, dashes, zeros) makes the query crash or yields a context on which a multiply crashes or is wrong.",
  ["configurations", "fault_sequences"], "all combinations of probed command outputs from a grammar of formats and failures",
  "Tests run under one fixed machine description.",
  ["src/block_sizing.cpp"], [("cache and core probing", "get_cache_size, get_num_physical_cores, cake_query_cntx, cake_query_cntx_torch")],
  ["fields of the returned context, multiply with it"])

p("C14", "The 2D worker grid is the best exact factorisation of the worker count",
  "For every M, N and worker count p (also above the machine's core count) the number of grid columns chosen is a divisor of p, and among the divisors of p it is one closest to round(sqrt(p*N/M)) clamped to [1, p]; the grid actually used never needs more than p workers.",
  ["inputs", "configurations"], "all M, N ratios, all p from 1 up, all core counts",
  "Tests use p in 2..4 on 4 cores; no test looks at the grid, and the product is usually right even when the grid is not.",
  ["src/block_sizing.cpp", "python/grid_gen.py"], [("grid search", "grid_dims_2d"), ("generated divisor table", "grid_dims")],
  ["return value of grid_dims_2d, pm/pn of the computed tiling"])

p("C15", "Automatic schedule choice minimises the external-memory traffic model",
  "When no schedule is requested, the chosen one has the least data movement under the published model (K-first: MNK/n + MNK/m + 2MN; M-first: MNK/n + KN + 2MNK/k; N-first: MNK/m + MK + 2MNK/k with m = n = k = p * block rows, up to single-precision rounding at ties), and an explicitly requested schedule is always the one used.",
  ["inputs", "configurations"], "all (M,N,K), p, block sizes",
  "The tests always request a schedule explicitly, and any schedule gives the right product.",
  ["src/block_sizing.cpp"], [("closed-form cut-offs", "derive_schedule"), ("use of the choice", "get_cache_dims, init_block_dims")],
  ["schedule stored in the tiling"])

p("C16", "Tilings cover every dimension exactly and fit the buffers, at production scale",
  "For every M, N, K, p, cache size, register tile and schedule, the computed tiling splits each dimension into blocks and per-worker slices that together cover it exactly once with only the last register tile padded, no slice exceeds the block the working buffers are sized for, and the reported packed-buffer sizes equal the space the packed layout needs.",
  ["inputs", "configurations"], "dimensions up to tens of thousands, p up to 256, many cache sizes",
  "The tests see only the tilings of 216 shapes on one machine and only through the final product.",
  ["src/block_sizing.cpp", "src/pack_helper.cpp"], [("tiling arithmetic", "get_cache_dims, init_block_dims, init_block_dims_2d"), ("packed sizes", "cake_sgemm_packed_A_size/B_size/C_size")],
  ["fields of the tiling, returned sizes"])

p("C17", "Every generated micro-kernel is an exact rank-k update",
  "For every register-tile limit the generator accepts and every architecture it targets, each generated dense kernel adds to its C tile exactly the product of the packed A panel and packed B panel for every depth k >= 1 (including depths not divisible by the unrolling), touches nothing else, needs no panel aligned beyond what a float needs, and the kernel table entry for a tile is the kernel of that tile.",
  ["inputs", "programs"], "all kernels of all generated families, all k in a range, all basis inputs",
  "The tests reach only the default tile's kernel, at the depths the block sizes happen to produce.",
  ["python/kernel_gen.py", "src/kernels/haswell/dense.cpp", "src/kernels/armv8/dense.cpp"], [("kernel generator", "kernel_gen.py"), ("kernel table", "kernel_map")],
  ["C tile and surrounding memory after a kernel call"])

p("C18", "Packing is a lossless, zero-padded rearrangement and unpacking inverts it",
  "For every shape, schedule, worker count and tile, packing A, B or C writes every element of the reported packed buffer, placing each matrix element exactly once and zeros everywhere else, and unpacking a packed C restores the original matrix bit for bit (with scalars: alpha times it plus beta times the previous contents). "
  "The vector-instruction panel packers produce the same panels as the plain ones.",
  ["inputs", "configurations"], "all shapes x schedules x p x tiles, all element positions",
  "No test looks at a packed buffer; pack_C is never executed by the tests.",
  PACK + ["src/kernels/haswell/blis_pack_haswell.cpp"], [("packing and unpacking", "pack_A, pack_B, pack_C, unpack_C"), ("asm panel packers", "bli_spackm_haswell_asm_6xk_new, bli_spackm_haswell_asm_16xk_new")],
  ["packed buffers"])

p("C19", "Transposition is exact for every size and tile parameter",
  "Transposing a K x N matrix with any positive tile parameters stores element (k,n) at (n,k) for every element, writes exactly the N*K output elements, leaves the input unchanged and is independent of thread scheduling.",
  ["inputs", "schedules"], "all K, N, tile parameters, team sizes and thread orders",
  "No test calls the transpose.",
  ["src/transpose.cpp", "src/kernels/haswell/transpose_haswell.cpp"], [("8x8 AVX transpose and edge tiles", "transpose_mat, transpose_8x8, transpose_mxn")],
  ["output matrix and surroundings"])

p("C20", "The result checkers accept exactly the correct results",
  "The product checker, the matrix comparison and the sum checker report success if and only if every element is within the tolerance 1e-3 of the reference, with NaN or infinity accepted only where the reference has the same, whatever the position of a wrong element and for every shape.",
  ["inputs"], "all shapes, every element position, perturbations around the tolerance, NaN and infinities",
  "The tests trust the checkers; only correct results are ever shown to them.",
  ["src/util.cpp"], [("comparison loop", "mat_equals, cake_sgemm_checker, add_checker")], ["return value"])

p("C21", "NaN and infinity reach exactly the elements they mathematically affect",
  "If an element of A (or B) is NaN or infinite, the outputs in its row (or column) are NaN or infinite exactly where the defining sum of products over K is, every other output element equals its exact value, and padding introduced by the library never creates a NaN or infinity in C.",
  ["inputs", "configurations"], "every position of a special value x shapes x schedules x p",
  "Tests use only finite inputs in [-1,1].",
  GEMM + PACK, [("zero padding of packed panels and confinement of tile edges", "pack_ob_*, unpack_ob_*")], ["contents of C"])

p("C22", "The returned time is the wall-clock time of the multiplication",
  "Each multiply call returns, in seconds, the difference between a clock reading taken before its first parallel work on the multiplication and one taken after the last, correct across second boundaries and never negative with a monotone clock.",
  ["configurations", "histories"], "all clock readings around second boundaries, all entry points and schedules",
  "No test reads the return value.",
  ["src/cake_sgemm.cpp"], [("clock readings and difference", "clock_gettime around the schedule in cake_sgemm, cake_sgemm_2d, cake_sgemm_online")], ["return value"])

p("C23", "Concurrent calls from several user threads do not disturb each other",
  "When several user threads call the library at the same time, each with its own context and its own C (sharing read-only A and B), no call's result, worker count or memory depends on the others, and there is no unsynchronised conflicting access; calls that share a context but are made one after another behave the same.",
  ["schedules"], "all interleavings of two calls at every shared-memory access",
  "Tests call the library from one thread only.",
  ["src/cake_sgemm.cpp", "src/block_sizing.cpp"] , [("all mutable state is per call or per context", "blk_dims_t, cake_cntx_t, local buffers")],
  ["contents of C, conflicting accesses"])

p("C24", "A call asks for no more than the p workers it was given",
  "Every parallel region opened by a multiply call requests at most p threads, in every history of calls with different p, and a call with a larger p after one with a smaller p may use the larger number again.",
  ["histories", "configurations"], "all sequences of p values, entry points, schedules",
  "Tests never observe the team sizes, and a wrong team size does not change the product.",
  ["src/cake_sgemm.cpp"], [("thread-count request", "omp_set_num_threads(p)")], ["team size requested from the OpenMP runtime"])

p("C25", "An invalid schedule value is rejected before any output is written",
  "Requesting a schedule value outside the defined ones ends in the library's error exit (non-zero status) from cake_sgemm, init_block_dims, pack_A, pack_B, pack_C, unpack_C and the packed-size functions of A and C, which are the entry points that choose by schedule, without writing to C or to the packed buffer.",
  ["inputs"], "all invalid schedule values over entry points, with and without user tile sizes",
  "No test passes an invalid schedule.",
  ["src/block_sizing.cpp", "src/pack_helper.cpp", "src/cake_sgemm.cpp"], [("default branches", "switch(sch) in get_cache_dims, init_block_dims, pack_*, unpack_C, cake_sgemm_packed_*")], ["exit status, C"])

p("C26", "Random initialisers fill exactly the matrix with values in range",
  "The random matrix initialiser writes exactly rows*cols elements, every one in [-1, 1], and the uniform generator yields values in (0, 1] so that the Gaussian generator is always finite, for every value the C library generator can return.",
  ["inputs"], "all boundary values of rand(), all shapes",
  "Tests use whatever rand() returns after srand(time).",
  ["src/util.cpp"], [("scaling of rand()", "rand_init, rand_gen, normalRandom")], ["filled matrix and surroundings"])

p("C27", "Installation regenerates a correct, stable tree",
  "Running the code generators on a tree, once or repeatedly and for any core count, yields sources that compile, a divisor table whose row for every worker count marks exactly the divisors of that count, and a kernel table indexed consistently with tile selection; a second run leaves the same files as the first.",
  ["histories", "configurations"], "all core counts in a range, all sequences of generator runs up to a length",
  "The tests build once from a pristine checkout on a 4-core description.",
  ["python/grid_gen.py", "python/kernel_gen.py", "install.sh"], [("generators", "grid_gen.py, kernel_gen.py")], ["include/tiling.h, include/kernels.h, dense.cpp"])

p("C28", "Default block sizes are the largest that fit the caches",
  "Without user tile sizes, for float (type size 4), every cache size, core count, register tile, p and shape: in K-first and M-first k_c equals m_c, and both are the largest multiple of m_r whose double-buffered working set 2*(m_c*k_c + k_c*n_r + m_c*n_r) floats fits the L2 (at least m_r), reduced only when M is smaller than p such slices, and then to a multiple of m_r that still lets p workers cover M and is at most one m_r above M/p (m_r when M < p*m_r); n_c is the largest multiple of n_r up to p*m_c times the ratio of the L3-derived block size to the L2-derived one (at least n_r). "
  "In N-first that ratio scales m_c and k_c instead and n_c is the unscaled size. In K-first with p up to the core count and an L3-derived size not below the L2-derived one, the double-buffered block then fits the L3 (unless n_c is already n_r). In the 2D entry point k_c is the largest depth (at least 1) for which m_r*k_c + k_c*n_r + m_r*n_r floats fit the L1, and m_c is at most the largest multiple of m_r with (2*m_c^2 + n_r*m_c) floats in the L2, reached when M >= p*m_c. "
  "User tile sizes given to the non-2D tiling are used as given. A partial last block is shared evenly: the slices are of ceil(remaining tiles / workers) register tiles (K slices: ceil(remaining K / p)).",
  ["configurations", "inputs"], "all cache sizes, core counts, tiles, p, shapes, schedules",
  "A block of the wrong size still gives the right product; no test looks at block sizes, and there is one machine description.",
  ["src/block_sizing.cpp"],
  [("analytical block size", "get_cache_dims"), ("2D block sizes", "init_block_dims_2d"), ("shares of the last block", "init_block_dims, init_block_dims_2d")],
  ["blk_dims_t after init_block_dims / init_block_dims_2d"])

p("C29", "Generated sparse micro-kernels accumulate exactly the packed nonzeros",
  "For every tile limits the generator accepts for sparse kernels on both architectures, the generated file compiles, its two tables hold a kernel for every tile up to the limits, and every kernel, given k packed columns (for each its number of nonzeros, its row of B, and for every nonzero its value and row of C), adds to the m_r x n_r tile of C exactly value*B-row for every packed nonzero, for every k >= 1, number of nonzeros per column, choice of rows and order of columns (for the plain kernels with empty columns last, for the compressed ones with empty columns anywhere), reading nothing outside the packed arrays and B and writing nothing but the tile.",
  ["inputs", "configurations"], "all generator limits x tiles x k x nonzero patterns x column orders",
  "The tests neither generate nor build the sparse kernels.",
  ["python/kernel_gen.py"],
  [("sparse kernel templates", "Haswell.Sparse, Armv8.Sparse"), ("sparse kernel tables", "gen_sparse_kernel_headers, gen_all_kernels")],
  ["C tile and memory around it after a generated kernel"])

p("C30", "The Armv8 configuration computes the same exact products",
  "Built for Armv8 (the kernels generated for it, its tile shapes and its panel packing routines), the library still computes alpha*A*B + beta*C exactly for every shape, register tile of that build, schedule, entry point, worker count, cache size and form of the operands (plain or packed), touches no memory outside the matrices and its own buffers, and packs and unpacks without losing or inventing elements.",
  ["inputs", "configurations"], "all shapes x Armv8 tiles x schedules x p x caches x packed forms",
  "The tests build and run for x86 only; nothing of the Armv8 configuration is executed by them.",
  ["src/kernels/armv8/blis_pack_armv8.cpp", "python/kernel_gen.py"] + GEMM + PACK,
  [("Armv8 panel packing", "bli_spackm_armv8a_int_8xk, bli_spackm_armv8a_int_12xk"), ("Armv8 kernels", "armv8_template in kernel_gen.py"), ("build switches", "USE_CAKE_ARMV8 in cake.h and pack_helper.cpp")],
  ["contents of C and of packed buffers, memory around the operands"])

p("C31", "The BLIS configuration computes the same exact products",
  "Built with BLIS as the provider of the micro-kernel (USE_BLIS, the second of the two kernel types the documentation offers), the library compiles against the BLIS interface, takes the register tile from BLIS, and still computes alpha*A*B + beta*C exactly for every shape, schedule, entry point, worker count, cache size, user tile size and form of the operands (plain or packed), calling the BLIS kernel only with arguments its interface allows and touching no memory outside the matrices and its own buffers.",
  ["inputs", "configurations"], "all shapes x schedules x p x caches x scalars x packed forms in the BLIS build",
  "The tests build only CAKE's own kernels; nothing of the BLIS configuration is compiled by them.",
  ["include/kernel_wrapper.h", "include/common.h", "src/block_sizing.cpp", "Makefile"] + GEMM + PACK,
  [("BLIS micro-kernel call", "cake_sgemm_ukernel"), ("register tile from BLIS", "cake_query_cntx, cake_query_cntx_torch, update_mr_nr"), ("build switches", "USE_BLIS in common.h, packing.h and kernel_wrapper.h")],
  ["contents of C, arguments of the BLIS kernel, memory around the operands"])

p("C32", "The PyTorch linear extension computes the layer and its gradients exactly",
  "For every batch size, layer size, strided layout of the arguments, presence of a bias and cache sizes, the extension's forward returns input * weight^T + bias, and its backward returns grad_output * weight, grad_output^T * input and, with a bias, the sum of grad_output over the batch (without one, no gradient), exactly when all partial sums are representable. Results are tensors of their own: they share no memory with the arguments, are not disturbed by later calls, and when they are dropped nothing of the call remains allocated. No argument is modified, and no memory outside the arguments' storage is read.",
  ["inputs", "configurations", "histories"], "all shapes x layouts x bias x cache sizes x short sequences of forward and backward calls",
  "The extension is not built by the tests at all.",
  ["src/linear.cpp", "src/block_sizing.cpp", "src/cake_sgemm.cpp"],
  [("forward and backward of the linear layer", "linear_forward, linear_backward"), ("context from the caller's cache sizes", "cake_query_cntx_torch")],
  ["returned tensors, arguments, allocations left"])

p("C33", "Rounding errors stay within the single-precision bound for all data",
  "For every finite A, B, C, alpha and beta without overflow, and every shape, schedule, entry point, worker count, tile and cache size, every element of the result differs from the exact alpha*A*B + beta*C by at most gamma(K+8) * (|alpha|*|A|*|B| + |beta|*|C|) of that element, gamma(n) = n*u/(1-n*u) with u = 2^-24 (plus a few times the smallest subnormal number): no operand or intermediate sum is kept in less than single precision, dropped for being small, or scaled by another row's or column's magnitude.",
  ["inputs", "configurations"], "all finite operands and scalars x shapes x schedules x p x tiles",
  "The tests use one distribution (uniform in [-1, 1]) and a tolerance of 1e-3 absolute; small, badly scaled or cancelling data is never multiplied.",
  GEMM + PACK + ["python/kernel_gen.py"],
  [("accumulation over K", "generated kernels, schedule_*"), ("scaling at copy-out", "unpack_C, unpack_ob_C_single_buf")],
  ["contents of C"])

if __name__ == "__main__":
    for d in P: print(json.dumps(d))
