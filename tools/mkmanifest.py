#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'P01': ('model_checking', 'TLA+: recorded runs of the real library checked by TLC against a happens-before specification of OpenMP tasks (OmpTrace.tla); task graphs model checked over all interleavings and schedules generated by TLC replayed in the library (OmpTask.tla)',
         'Race freedom of each recorded task graph covers every schedule of that graph; programs (shapes, options, tile sizes) are sampled.'),
 'P02': ('model_checking', 'TLA+ contract specification (Contract.tla) checked by TLC against recorded programs of public calls',
         'Every call of generated programs over all routine families is checked as a transition of the contract; small exact or fixed-point matrices; sampled inputs, not all.'),
 'P03': ('model_checking', 'TLA+ specification of the reported index of a failing factorisation (Failure.tla) checked by TLC against recorded calls on singular / indefinite matrices run under many schedules of the task graph',
         'Failing columns, shapes, tile sizes and schedules are sampled; every recorded call is judged.'),
 'P04': ('model_checking', 'TLA+ specification of descriptors and translations (Layout.tla): model checked for all small descriptors; tile maps, allocations and translations of the real library checked by TLC against it, including descriptors and user arrays of more than 2^31 elements',
         'All descriptors in a small range are checked in the model; those run in the library are sampled.'),
 'P05': ('model_checking', 'TLA+: operation lists of the real tree generators checked by TLC as behaviours of Tree.tla (every grid and core count in a range, plus random larger ones); trees generated by TLC replayed in the real factorisations, results checked against Contract.tla',
         'Lists are checked exhaustively for a range of grids and core counts; larger ones are sampled.'),
 'P06': ('model_checking', 'TLA+: Barrier.tla (barrier at the granularity of its memory accesses) checked by TLC to refine Rendezvous.tla and to be free of starvation; the real barrier run through all interleavings with bounded preemptions and through schedules generated by TLC, observations checked against Rendezvous; factorisations with 2-8 panel threads checked against Contract.tla and OmpTrace.tla and compared across schedules',
         'Participants and phases are bounded (model: N<=4, K<=4 quick); preemption-bounded exhaustive on the real barrier; matrices and schedules sampled; sequentially consistent memory.'),
 'P07': ('model_checking', 'TLA+ specification of the library life cycle and parameters (Context.tla): all histories of length 3 and long random ones generated by TLC are replayed in the library, and the recorded steps (returns, values read, all parameters) are checked by TLC; every routine called with and without an initialised library',
         'Histories: exhaustive to length 3 over 40 operations, longer ones sampled; being in a parallel region is simulated by the harness runtime.'),
 'P08': ('model_checking', 'TLA+ specification of argument legality (ApiArgs.tla) and of results (Contract.tla) checked by TLC against recorded calls with one to three illegal arguments, legal calls and calls with empty dimensions',
         'All argument positions of all routines; illegal values and combinations are sampled; minimal leading dimension of the LU band array is undocumented and only judged below kl+ku+1; null pointers are not passed.'),
 'P09': ('model_checking', 'TLA+ specification of the bulge-chasing steps and of the progress-table protocol (BulgeSteps.tla, Bulge.tla), model checked over all interleavings; schedules and step orders generated by TLC are replayed in the real reduction and its kernels, and recorded executions are checked step by step against BulgeTrace.tla',
         'Model exhaustive for n<=7 (quick) or 10, nb<=3 or 5, 4 or 6 threads; real runs are sampled (n up to 90, up to 24 threads); the progress table is taken to synchronise in program order (x86).'),
 'P10': ('model_checking', 'TLA+ specification of a mixed-precision solve as a state machine over the outcomes of its steps (Refine.tla), model checked; for recorded solves the outcomes are measured one public call at a time and TLC decides whether the reported iteration count, status, solution and preserved operands are reachable',
         'Matrices of 17 kinds, shapes, tile sizes and schedules are sampled; the machine itself is checked exhaustively; a residual within a factor 1.2 of the stopping bound may be judged either way.'),
 'P11': ('model_checking', 'TLA+ specification of the allocation protocol of a call (Alloc.tla), model checked, and checked by TLC against the recorded allocations, releases and results of calls in which each allocation in turn fails, of ordinary calls, of calls with illegal arguments and of numerically failing calls',
         'Every single allocation failure (and every suffix of failures) of each generated call is tried; calls are sampled; allocations made by OpenMP, LAPACKE and BLAS do not fail.'),
 'P12': ('model_checking', 'TLA+ specification of task-parallel bisection (Bisect.tla): all spectra on small grids, all ranges, cut points and task interleavings model checked; every instance replayed in the solver, and recorded calls with known spectra (closed forms, exact integer Sturm sequences evaluated by TLC) judged by TLC',
         'Exhaustive in the model (n<=4 quick, 5 thorough); in the solver all those instances plus sampled matrices up to order 30; matrices whose squared entries overflow or underflow are not judged; vectors of eigenvalues closer than 1e-4 of the norm are only judged for orthonormality.'),
 'P13': ('model_checking', 'TLA+ specification of asynchronous sequences (Sequence.tla), model checked over all small programs and interleavings; recorded executions of generated programs of plasma_omp_* calls (versions of every tile at every scheduling point, failures, final statuses) checked by TLC against it',
         'Programs of 2-6 calls and their schedules are sampled; every recorded event is judged; the intended versions come from the sequential execution of the same calls.'),
 'P14': ('model_checking', 'TLA+ footprint specification (Footprint.tla) checked by TLC against recorded accesses, changes and dependences of every operand of every call',
         'Accesses and changes of each recorded call are judged for every element; programs are sampled; dependence is judged from two fillings of the unreferenced elements.'),
 'P15': ('model_checking', 'TLA+ specification of tuning (Tuning.tla: which tuning functions and arguments each routine asks for, and how answers change the parameters), model checked; sessions of calls with generated scripts, switches and user settings recorded from the library and checked by TLC',
         'Scripts, sessions and switch histories are sampled; every routine and precision with a tuning call is covered; the environment variable naming the script is set before plasma_init only.'),
 'P16': ('model_checking', 'TLA+ contract specification of the tile kernels (Kernel.tla, extending Contract.tla) checked by TLC against recorded programs of direct kernel calls, legal and with one illegal argument',
         'Every call of generated programs over all kernels is judged; tiles up to 9x9 with gaps and undefined parts; sampled inputs. Panel, band-copy and bulge-chasing kernels belong to P06, P04 and P09.'),
}
NA = {}
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 setup.py',
         hooks=dict(guard='PLASMA_VT', enable='not needed: the checks compile /repo with -fsanitize=thread call-outs and -Wl,--wrap, no hook is compiled into the sources', source_commits=[]),
         checks=[dict(property=p, quick_cmd='python3 check.py %s --tier quick' % p, thorough_cmd='python3 check.py %s --tier thorough' % p,
                      technique=T[p][1], level=T[p][0], level_note=T[p][2]) for p in props if p in T],
         not_applicable=[dict(property=p, reason=NA.get(p, 'check under construction')) for p in props if p not in T],
         notes='TLA+ with TLC; see DESIGN.md')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
