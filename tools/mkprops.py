#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b) for a, b in state], observe_at=list(observe), hook_needed=hook)))

prop('P01', 'Task graphs are race free and results do not depend on the schedule',
     "Whenever two tasks created by one computational routine touch the same memory and at least one of them writes it, the declared task dependences (or a synchronisation) order them. Hence every execution order the tasking runtime may choose, with any number of threads, ends without deadlock and leaves the same output, bit for bit wherever the arithmetic order is fixed by the algorithm.",
     ['schedules', 'inputs', 'configurations'],
     "all task schedules, numbers of threads, tile sizes, panel thread counts, tree/flat Householder modes, matrix shapes and options of every routine",
     "Every test runs each case once under whatever order libgomp picks; a missing dependence is only visible under an order that the runtime rarely or never picks on small matrices, and most kernels are timing-symmetric.",
     ['compute/pz*.c', 'core_blas/core_z*.c', 'compute/z*.c'],
     [('depend clauses of every core_omp_ wrapper', 'core_blas/core_z*.c'), ('explicit multi-tile depend lists (LU, row swaps, panels)', 'compute/pzgetrf.c, compute/pzgeswp.c, compute/pzgbtrf.c, compute/pzhetrf_aasen.c'),
      ('taskwait / end of single as join points', 'compute/z*.c')],
     [('tile', 'a block of a matrix that tasks read and write; the dependence key is its first element')], ['plasma_z*() entry points'], None)

prop('P02', 'Every routine computes what its documentation says, for every shape and option',
     "For every accepted combination of shape, leading dimensions, tile size, inner blocking, Householder mode and option arguments, a successful call leaves in the output arguments the result the documentation defines (products, triangular solves, norms, factors that reproduce the input, orthonormal bases, solutions of the system, decompositions) up to rounding in the routine's own precision. Factors returned by one routine work in every routine documented to consume them, and blocking parameters change only rounding, never the meaning of the result.",
     ['inputs', 'configurations', 'histories'],
     "all shapes (including 0, 1, non-multiples of the tile size, tall, wide), strides, options, scalars (including 0 and 1), precisions, tile sizes, inner block sizes, and factor/apply/solve call sequences",
     "The tests sample a handful of sizes with one tile size per size and default modes, and leave many option values (transposes on rectangular matrices, tree reductions with several shapes, zero scalars, band widths at the edges, strides larger than the matrix) unvisited.",
     ['compute/*.c', 'core_blas/*.c'],
     [('tile algorithms', 'compute/pz*.c'), ('tile kernels', 'core_blas/core_z*.c'), ('synchronous drivers', 'compute/z*.c')],
     [('operand', 'contents of a caller matrix, vector or scalar'), ('factor', 'opaque result of a factorisation (T, ipiv, packed reflectors)')], ['all public synchronous routines'])

prop('P03', 'Numerical failure is reported with the right index and never silently lost',
     "When a factorisation meets an exactly zero pivot or a leading block that is not positive definite, the call returns the documented positive index of the first such pivot or block, whatever the tile size and number of panel threads, and returns zero only if none was met. Solvers built on the factorisation report the same index and leave the right-hand side unsolved, and nothing recorded for one call leaks into the next.",
     ['inputs', 'configurations', 'histories', 'schedules'],
     "all positions of the failing pivot relative to tiles, panels and threads, all precisions, and sequences of failing and succeeding calls",
     "The test drivers factor well conditioned random matrices; the only failing-pivot option fails in the baseline and is not part of the reliable tests.",
     ['compute/pzpotrf.c', 'compute/pzgetrf.c', 'compute/pzgbtrf.c', 'compute/pzpbtrf.c', 'compute/pztrtri.c', 'compute/pzhetrf_aasen.c', 'core_blas/core_zgetrf.c', 'core_blas/core_zpotrf.c', 'core_blas/core_ztrtri.c', 'control/async.c'],
     [('first failure recorded in the sequence', 'control/async.c plasma_request_fail'), ('index offset passed to the tile kernels', 'compute/pz*trf.c'), ('info reduction over panel threads', 'compute/pzgetrf.c, core_blas/core_zgetrf.c')],
     [('status', 'first failure recorded for a sequence of operations')], ['return values of potrf, pbtrf, getrf, gbtrf, hetrf, trtri, potri, getri, *sv, *inv'])

prop('P04', 'Translation between the user layout and tiles is exact',
     "Every element of a matrix descriptor of any kind, shape, tile size and submatrix window has one storage place of its own inside the descriptor's allocation. Copying a user matrix into tiles and back moves exactly the elements of the described general, triangular or band part, unchanged, and touches nothing else.",
     ['inputs', 'configurations'],
     "all descriptor kinds (general, triangular, band, packed band), sizes, tile sizes that do or do not divide the sizes, submatrix windows, and leading dimensions",
     "The tests only use descriptors through whole routines with a few sizes; an off by one in an edge-tile address only shows for particular size/tile remainders, and a value written outside the part is never looked at.",
     ['control/descriptor.c', 'include/plasma_descriptor.h', 'compute/pzge2desc.c', 'compute/pzdesc2ge.c', 'compute/pztr2desc.c', 'compute/pzdesc2tr.c', 'compute/pzpb2desc.c', 'compute/pzdesc2pb.c', 'compute/pzgb2desc.c'],
     [('tile address map', 'include/plasma_descriptor.h'), ('layout translation loops', 'compute/pz*2desc.c, compute/pzdesc2*.c'), ('descriptor constructors', 'control/descriptor.c')],
     [('descriptor', 'four contiguous regions of tiles plus a submatrix window')], ['plasma_desc_*_create, plasma_desc_view, plasma_omp_z*2desc, plasma_omp_zdesc2*'])

prop('P05', 'Elimination trees annihilate every tile once, in an executable order',
     "For every tile grid and number of cores, the list of tile operations used by the tree-based QR and LQ factorisations triangularises every panel tile it uses before merging it, eliminates each sub-diagonal tile of each panel exactly once against a surviving tile of the same panel, keeps panels in an order where every operation's tiles were updated by all earlier panels, and ends with only the diagonal tiles alive.",
     ['inputs', 'configurations'],
     "all numbers of tile rows and columns (tall, wide, single row or column), all core counts from 1 up, all tree kinds",
     "The tests run the tree mode for a few sizes on one machine's core count; the shape of the generated operation list depends on the number of threads and the tile grid.",
     ['control/tree.c', 'compute/pzgeqrf_tree.c', 'compute/pzgelqf_tree.c'],
     [('tree generators', 'control/tree.c')],
     [('operations', 'ordered list of triangularise / merge operations on panel tiles')], ['plasma_tree_operations'])

prop('P06', 'The panel barrier separates its phases and never loses or deadlocks a thread',
     "No participant of the panel barrier leaves a phase before all participants have entered it, every participant that enters eventually leaves if all enter, and the barrier can be reused immediately for any number of phases. A panel factored by several threads therefore gives the same factors as one factored by a single thread (up to the choice among pivot candidates of equal magnitude), for every interleaving and every number of panel threads, also when fewer threads are available than requested.",
     ['schedules', 'configurations'],
     "all interleavings of barrier and panel steps, all numbers of panel threads and tiles per panel, including more panel threads than the team has",
     "The tests fix one panel thread; phase reuse and lost wake-ups depend on interleavings of a few instructions.",
     ['control/barrier.c', 'core_blas/core_zgetrf.c', 'compute/pzgetrf.c', 'compute/pzgbtrf.c', 'compute/pzhetrf_aasen.c'],
     [('counter and phase of the barrier', 'control/barrier.c'), ('phased pivot search, swap, scale, update', 'core_blas/core_zgetrf.c')],
     [('count', 'participants that have entered the current phase'), ('passed', 'number of the completed phases')], ['plasma_barrier_wait', 'plasma_zgetrf with several panel threads'])

prop('P07', 'Library context: lifecycle, parameters and isolation',
     "Before initialisation and after finalisation every call that needs the library state fails (with the not-initialised error, or by ending the process with a fatal error message) and changes nothing; a parameter read back is the last legal value set, illegal values are refused with an error and leave the previous value. Initialisation sets the defaults. Unless tuning by a script is active, computational calls never change the parameters, and every init/finalise history leaves no context behind.",
     ['histories', 'inputs'],
     "all sequences of initialise, finalise, set, get and computational calls, legal and illegal parameter names and values",
     "Each test process initialises once, sets legal values before each call and never reads them back or finalises in between.",
     ['control/context.c', 'include/plasma_context.h', 'compute/zhetrf.c'],
     [('context map and parameter switch', 'control/context.c')],
     [('parameters', 'tile size, inner block, panel threads, householder mode, in-place mode, tuning switch'), ('context', 'per-thread library state')], ['plasma_init, plasma_finalize, plasma_set, plasma_get, every routine\'s return value'])

prop('P08', 'Illegal arguments are refused by position without effect; empty calls succeed',
     "A call whose i-th argument is illegal returns -i (the first illegal one in checking order), computes nothing, modifies no operand and leaves no library resource behind. A legal call with an empty dimension returns success at once and modifies only what the operation on empty data defines.",
     ['inputs'],
     "all single and combined illegal values (enum out of range, negative sizes, too small leading dimensions, inconsistent band widths) and all empty-dimension combinations of every public routine",
     "The test drivers never pass an illegal argument or an empty dimension.",
     ['compute/z*.c', 'control/descriptor.c'],
     [('argument checks at the start of every synchronous driver', 'compute/z*.c')],
     [], ['return values and operands of all public synchronous routines'])

prop('P09', 'Bulge chasing applies the same sweeps in every schedule',
     "The band-to-bidiagonal reduction executes each step of each sweep exactly once, never starts a step before the steps it depends on in this and the preceding sweep have finished, and always terminates, for every number of threads, bandwidth, group size and interleaving. The bidiagonal and the reflectors it returns are the same as in the sequential execution, and the singular values they give are those of the band matrix.",
     ['schedules', 'inputs', 'configurations'],
     "all interleavings of the statically scheduled threads, thread counts, sizes, bandwidths, upper and lower bands",
     "The tests run one thread count and only look at the final singular values for a few sizes; the progress-table protocol is timing dependent.",
     ['compute/pzgbbrd_static.c', 'core_blas/core_zgbtype1cb.c', 'core_blas/core_zgbtype2cb.c', 'core_blas/core_zgbtype3cb.c', 'compute/pzlarft_blgtrd.c', 'compute/pzunmqr_blgtrd.c', 'include/bulge.h'],
     [('progress table and wait conditions', 'compute/pzgbbrd_static.c'), ('reflector storage map', 'include/bulge.h')],
     [('progress table', 'last completed step of every sweep block')], ['plasma_zgesdd'])

prop('P10', 'Mixed-precision solvers converge, fall back, and report which they did',
     "A mixed-precision solve that returns success has a solution whose backward error meets the working-precision criterion whenever it reports a non-negative iteration count, and is identical to the working-precision direct solve when it reports a fallback. The iteration count never exceeds its documented maximum, a fallback happens exactly when the low-precision path cannot be used (conversion overflow, low-precision factorisation failure, no convergence) and is reported as negative, and the right-hand side is preserved.",
     ['inputs', 'histories'],
     "all matrices from well to ill conditioned, singular in low precision, out of low-precision range, singular; all shapes and right-hand sides",
     "The tests only run well conditioned random matrices where the first branch always succeeds.",
     ['compute/zcgesv.c', 'compute/zcposv.c', 'compute/zcgbsv.c', 'compute/clag2z.c', 'compute/zlag2c.c', 'compute/dzamax.c'],
     [('refinement loop and stopping test', 'compute/zc*sv.c'), ('range check of the conversion', 'core_blas/core_zlag2c.c')],
     [('iter', 'number of refinement steps or negative reason of the fallback')], ['plasma_zcgesv, plasma_zcposv, plasma_zcgbsv'])

prop('P11', 'Every call releases what it acquired, also when memory runs out',
     "After any synchronous call returns, with success, illegal argument, numerical failure or memory exhaustion, no memory acquired by the call is left except what it documents to return, nothing is released twice or used after release. If an allocation made by the calling thread fails, the call reports an error instead of crashing or returning success with a wrong result.",
     ['fault_sequences', 'inputs', 'histories'],
     "every allocation point failing, every early return, every routine",
     "The tests never fail an allocation and never measure what is left after a call.",
     ['compute/z*.c', 'control/descriptor.c', 'control/workspace.c', 'control/context.c', 'control/tree.c'],
     [('cleanup paths', 'compute/z*.c'), ('allocation wrappers', 'control/workspace.c, control/descriptor.c')],
     [('live blocks', 'memory acquired and not yet released')], ['malloc/free behaviour around every public routine'])

prop('P12', 'Bisection eigensolver returns exactly the requested eigenvalues',
     "For a symmetric tridiagonal matrix and a requested index range or half-open value range, the bisection solver returns exactly the eigenvalues in that range, each with its multiplicity, in ascending order, to working accuracy. Counting returns the number of eigenvalues in the range, and too little room for them is reported. The returned vectors are normalised and mutually orthogonal, and belong to the returned values wherever these are well separated.",
     ['inputs', 'schedules', 'configurations'],
     "all tridiagonal matrices including clusters, multiplicities, zero off-diagonals and extreme scales; all index and value ranges; all thread counts",
     "Every test of this routine fails in the baseline, so nothing in the reliable tests exercises it.",
     ['compute/zstevx2.c', 'compute/zlaebz2.c', 'compute/zlaneg2.c'],
     [('Sturm counts', 'compute/zlaneg2.c'), ('recursive bisection', 'compute/zlaebz2.c')],
     [('bracket', 'interval with its eigenvalue count')], ['plasma_dstevx2 / plasma_sstevx2'])

prop('P13', 'Asynchronous calls compose in one sequence like the sequential program',
     "A program of asynchronous calls issued on one sequence without waiting in between has the effect of the same calls executed one after another. When no call fails, every operand ends in the state the calls give one after another. When a call fails, the sequence and the request of that call report its error, the failure is never lost or turned into success by other calls, and no task that starts after the failure changes an operand.",
     ['programs', 'schedules', 'histories'],
     "all short programs of asynchronous routines on shared operands, failing and succeeding, under all schedules",
     "The tests call synchronous drivers only, each with a sequence of its own, or a single asynchronous call between two waits.",
     ['control/async.c', 'compute/*.c', 'core_blas/core_z*.c'],
     [('sequence and request objects', 'control/async.c, include/plasma_async.h'), ('sequence test before each task body', 'core_blas/core_z*.c')],
     [('sequence status', 'first error'), ('request status', 'error of one call')], ['plasma_omp_* routines'])

prop('P14', 'Only the documented part of each operand is read or written',
     "A routine never changes elements of an operand that its documentation says are not referenced, and its results never depend on them: the other triangle of symmetric, Hermitian or triangular matrices, the unit diagonal, entries outside the band. Rows beyond the matrix within a larger leading dimension are never accessed at all. Input-only operands hold the same values on return.",
     ['inputs', 'configurations'],
     "all routines, options, shapes and leading dimensions; arbitrary contents (NaN) in unreferenced places",
     "The test drivers fill whole arrays with finite random numbers, use ld close to the size, and compare only the referenced part.",
     ['compute/z*.c', 'compute/pz*2desc.c', 'compute/pzdesc2*.c', 'core_blas/core_z*.c'],
     [('part-wise translation', 'compute/pztr2desc.c, compute/pzdesc2tr.c, compute/pzpb2desc.c'), ('part-wise kernels', 'core_blas/core_z*.c')],
     [], ['memory accesses of every public routine'])

prop('P15', 'Tuning obeys the tuning script and the user',
     "With tuning enabled and a tuning script present, the parameters used by a call are those the script returns for that routine, precision, size and thread count; with tuning disabled, or without a usable script, a call leaves the parameters as they are: last set by the user or by the last tuned call, or the defaults. A script that fails or returns an illegal value never makes a call crash, and never leaves an illegal parameter behind.",
     ['configurations', 'histories', 'inputs'],
     "all scripts (returning legal, illegal or no values, or failing), all routines, sizes and switch settings",
     "The tests disable tuning; no test loads a script.",
     ['control/tuning.c', 'tuning/*.lua', 'control/context.c'],
     [('script call and parameter assignment', 'control/tuning.c')],
     [('parameters', 'tile size, inner block and panel threads of the context')], ['plasma_get after a computational call'])

prop('P16', 'Tile kernels do the documented operation and refuse illegal arguments',
     "Each tile kernel (plasma_core_*: products, updates, triangular solves, additions, copies, norms and sums of squares, Cholesky, inverses, hegst, QR and LQ of a tile, of a triangle coupled with a tile and of two coupled triangles, and their application) called directly on a tile does exactly the operation it documents for every option, shape, inner block and leading dimension: only the referenced part of its operands is read or changed and its workspace is not exceeded. The kernels that return an error code refuse an illegal argument with minus its position and change nothing.",
     ['inputs', 'configurations'],
     "all kernels, precisions, options, tile shapes, inner blocks, increments and leading dimensions, incl. those the tile algorithms do not use",
     "No test calls a kernel; the algorithms call them with few option combinations, square tiles and tight leading dimensions.",
     ['core_blas/core_z*.c', 'include/plasma_core_blas_z.h'],
     [('reflector kernels', 'core_blas/core_zgeqrt.c, core_zts*.c, core_ztt*.c, core_zunm*.c, core_zparfb.c, core_zpamm.c, core_zpemv.c'),
      ('products, norms, copies', 'core_blas/core_zge*.c, core_zlan*.c, core_z*ssq.c, core_zla*.c, core_ztr*.c, core_zhegst.c')],
     [], ['return value, operands and memory accesses of each kernel call'])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
with open('properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P))
