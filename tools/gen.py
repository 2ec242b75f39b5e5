#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the descriptions below (run by hand after editing)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(HERE, 'tools'))
import specs
ALL = ['inputs', 'configurations']
P = []
def prop(id, title, statement, over, q, why, files, mech, technique=None, note=None, na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, technique=technique, note=note, na=na))
FIX = 'a dozen hand-picked cubes and boxes, a few rank counts (1..12) and mostly equal input and output layouts'

prop('P01', 'The distributed forward transform equals the global discrete Fourier transform',
 'For every decomposition of the index space into input boxes and output boxes over the ranks of a communicator (any sizes, any storage order of the axes, any placement of the boxes on the ranks, any options), the forward transform of complex data, and of real data into the full complex output, leaves on every rank exactly the entries of the unnormalised multidimensional DFT of the global input that its output box names, times the requested scaling factor. The result is accurate to rounding in the precision used, for both single and double precision, int and 64-bit indexes and each CPU backend.',
 ALL, 'all global sizes (including 1 in a direction, primes, composites), all pairs of decompositions, rank counts, box orders, options, backends, precisions, index types, values',
 'The tests run ' + FIX + '; the shape space (which of the four reshapes vanish, which executors are merged, which ranks own what) is unbounded.',
 ['include/heffte_fft3d.h', 'src/heffte_compute_transform.cpp', 'src/heffte_plan_logic.cpp', 'include/heffte_plan_logic.h', 'src/heffte_reshape3d.cpp', 'include/heffte_backend_stock.h', 'include/heffte_backend_fftw.h', 'include/heffte_backend_mkl.h'],
 [('plan of reshapes and 1-D transforms', 'plan_operations, src/heffte_plan_logic.cpp'), ('sequence of reshape and execute', 'compute_transform, src/heffte_compute_transform.cpp'), ('fft3d::forward', 'include/heffte_fft3d.h')],
 'runtime monitor: online oracle comparing every output entry of random distributed transforms with an independent DFT',
 'thousands of random distributed configurations per run (1..12 MPI ranks); every output entry compared')
prop('P02', 'The backward transform and the scaling factors invert the forward transform',
 'For every decomposition and option, the backward transform leaves on every rank the entries of the unnormalised inverse DFT of the global input that its box names, times the requested factor; the reported factors are 1/N for full scaling and its square root for symmetric scaling, so that forward followed by backward with full scaling in either one (or symmetric in both) returns the original data to rounding. The real-output backward transform returns the real part of that result.',
 ALL, 'all decompositions, options, backends, precisions, index types, scalings and input values (not only spectra that came from a forward transform)',
 'The tests do round trips, which errors common to both directions survive, on ' + FIX + '.',
 ['include/heffte_fft3d.h', 'src/heffte_compute_transform.cpp', 'src/heffte_plan_logic.cpp', 'src/heffte_reshape3d.cpp'],
 [('fft3d::backward', 'include/heffte_fft3d.h'), ('backward sequence', 'compute_transform, src/heffte_compute_transform.cpp'), ('scaling', 'apply_scale, get_scale_factor, include/heffte_fft3d.h')],
 'runtime monitor: online oracle comparing every output entry with an independent inverse DFT', 'as P01, for the backward direction and each scaling')
prop('P03', 'Real-to-complex transforms equal the non-redundant half of the DFT',
 'For every reduced direction and every decomposition of the real box and of the shortened complex box, the forward real-to-complex transform leaves on each rank the entries of the DFT of the global real data named by its output box, and the backward transform returns the real array whose (conjugate-symmetric) spectrum has the given half, with the requested scaling based on the size of the real world. Odd and even lengths, and lengths 1 and 2 in the reduced direction, are covered.',
 ALL, 'all sizes, reduced directions, decompositions, orders, options, backends, precisions, index types, scalings, values',
 'The tests fix ' + FIX + '.',
 ['include/heffte_fft3d_r2c.h', 'src/heffte_compute_transform.cpp', 'src/heffte_plan_logic.cpp'],
 [('fft3d_r2c', 'include/heffte_fft3d_r2c.h'), ('mixed real and complex sequence', 'compute_transform, src/heffte_compute_transform.cpp')],
 'runtime monitor: online oracle comparing every output entry with an independent real transform', 'forward and backward, every reduced direction')
prop('P04', 'Real-to-real cosine and sine transforms equal their defining sums',
 'For every decomposition, the sine and cosine transforms of each backend, forward and backward, leave on each rank exactly the entries of the multidimensional transform of the global data with the definition that backend documents (types II/III, and type I where offered), and the full scaling factor makes forward and backward inverse to each other. The data layout guarantees are those of the complex transforms.',
 ALL, 'all sizes the type admits, decompositions, orders, options, backends (stock, FFTW, MKL), precisions, index types, scalings',
 'The tests check a handful of sizes against FFTW-made tables and round trips.',
 ['include/heffte_r2r_executor.h', 'include/heffte_backend_fftw.h', 'include/heffte_backend_stock.h', 'include/heffte_backend_mkl.h', 'include/heffte_fft3d.h'],
 [('pre- and post-processing around a complex FFT', 'real2real_executor, include/heffte_r2r_executor.h'), ('FFTW r2r plans', 'include/heffte_backend_fftw.h'), ('rtransform', 'include/heffte_fft3d.h')],
 'runtime monitor: online oracle comparing every output entry with the defining sums', 'each of the nine real-to-real backends')
prop('P05', 'A batch gives exactly the transforms of its entries',
 'For every plan, every batch size and both directions, transforming a batch of consecutive arrays in one call gives for each entry the same result as transforming that entry alone, and entries do not affect each other. This holds with and without a user workspace of batch times the reported size.',
 ALL, 'all batch sizes, transform kinds, decompositions, options, backends',
 'The tests use batches on a few fixed configurations.', ['include/heffte_fft3d.h', 'include/heffte_fft3d_r2c.h', 'src/heffte_compute_transform.cpp', 'src/heffte_reshape3d.cpp'],
 [('batched sequence', 'compute_transform, src/heffte_compute_transform.cpp'), ('batched packing', 'reshape3d_*::apply_base, src/heffte_reshape3d.cpp')],
 'runtime monitor: online oracle, each batch entry against the independent reference and against the single transform', 'batches of 2..5')
prop('P06', 'Transforms read and write only the buffers they are given',
 'A transform reads exactly the first batch-times-inbox-size entries of the input, writes exactly the batch-times-outbox-size entries of the output and at most the reported workspace, and touches nothing before or after; out-of-place transforms leave the input array unchanged. The result does not depend on the previous content of the output or the workspace (NaN included) or on the alignment of the arrays, and complex-to-complex and real-to-real transforms may use one array as input and output.',
 ALL, 'all plans, batch sizes, directions, alignments, previous contents of buffers, in- and out-of-place',
 'The tests use fresh, zeroed, maximally aligned std::vectors and never look outside them.', ['include/heffte_fft3d.h', 'include/heffte_fft3d_r2c.h', 'src/heffte_compute_transform.cpp', 'src/heffte_reshape3d.cpp', 'include/heffte_pack3d.h'],
 [('workspace layout', 'compute_transform, src/heffte_compute_transform.cpp; size_workspace, include/heffte_fft3d.h'), ('packing', 'include/heffte_pack3d.h'), ('FFTW plans for unaligned arrays', 'include/heffte_backend_fftw.h')],
 'runtime monitor: guard zones, poisoned buffers, const-input snapshots and MPI buffer range monitor around every call', 'buffers garbage-filled, unaligned, exactly sized')
prop('P07', 'A reshape delivers every entry exactly once, unchanged, to its place',
 'For any two decompositions of the same index space over the same ranks, in any storage order, each of the four communication algorithms moves the value of every index from its owner in the source layout to its place in the destination layout bit for bit, for every entry of a batch and every scalar type. The source stays unchanged, nothing outside the destination and the reported workspace is written, and ranks owning nothing on either side take part correctly.',
 ALL + ['schedules'], 'all pairs of decompositions and orders, scalar types, batch sizes, algorithms, message completion orders',
 'The reshape tests have four fixed layouts and one size.', ['src/heffte_reshape3d.cpp', 'include/heffte_reshape3d.h', 'include/heffte_pack3d.h'],
 [('alltoallv, alltoall, point-to-point', 'src/heffte_reshape3d.cpp'), ('overlap map', 'compute_overlap_map_*, src/heffte_reshape3d.cpp'), ('packers', 'include/heffte_pack3d.h')],
 'runtime monitor: conservation oracle over tagged entries, with randomised message completion, guard zones and MPI call monitor', 'every moved entry carries a unique tag and is checked at its destination')
prop('P08', 'Plans and box tools always produce exact partitions',
 'For every pair of decompositions, transform kind and set of options, the planned sequence of layouts keeps every index of the world owned by exactly one rank at each stage, gives every rank whole lines in the direction(s) each 1-D (or merged) transform covers, transforms each direction exactly once with the shortened direction handled consistently, and starts and ends in the layouts of the user. The public tools for splitting worlds, making and describing processor grids, pencils and intersecting boxes return exact partitions, minimal surfaces and exact intersections for every size, also beyond 2^31 indexes.',
 ALL, 'all worlds, rank counts, options, index types (no data, so very large worlds and rank counts are reached)',
 'The tests check a few plans shape by shape.', ['src/heffte_plan_logic.cpp', 'include/heffte_plan_logic.h', 'include/heffte_geometry.h'],
 [('plan_operations', 'src/heffte_plan_logic.cpp'), ('split_world, proc_setup_min_surface, make_pencils, world_complete', 'include/heffte_geometry.h')],
 'runtime monitor: invariant checker over recorded plans and box operations', 'thousands of plans with up to hundreds of ranks and worlds beyond 2^31')
prop('P09', 'Options, rank count and index type change the speed, never the result',
 'The same global data transformed with any combination of options (reorder, communication algorithm, pencils or slabs, sub-rank count, sub-communicator, GPU-aware flag), with any number of ranks or layout, and with int or 64-bit indexes gives the same result up to rounding, forward and backward. The options only select how the data is moved.',
 ALL, 'all pairs of option sets, rank counts, layouts and index types on the same global data, including sizes too large for a naive reference',
 'The tests never compare configurations with each other and sample few option sets.', ['include/heffte_plan_logic.h', 'src/heffte_plan_logic.cpp', 'src/heffte_reshape3d.cpp', 'include/heffte_fft3d.h'],
 [('option dependent planning', 'plan_operations, src/heffte_plan_logic.cpp')],
 'runtime monitor: metamorphic oracle comparing executions of many configurations on the same data', 'every case runs several configurations, one of them on a single rank')
prop('P10', 'A plan is reusable and independent of other plans and of its history',
 'The result of a transform depends only on the plan and the input: not on earlier transforms in either direction, precision or batch size with the same plan, on other plans alive at the same time on the same or overlapping communicators, on sharing one workspace among plans, on moving the plan object, or on creating and destroying other plans in between. Communicators and plans can be destroyed and recreated any number of times.',
 ['histories', 'configurations', 'inputs'], 'all sequences of plan creation, move, destruction and execution in any direction, precision, batch and API variant',
 'The tests create a plan, use it once or twice and destroy it.', ['include/heffte_fft3d.h', 'include/heffte_fft3d_r2c.h', 'include/heffte_backend_fftw.h', 'include/heffte_backend_mkl.h', 'include/heffte_reshape3d.h'],
 [('lazily created 1-D plans', 'executors in include/heffte_backend_*.h'), ('plan members', 'include/heffte_fft3d.h')],
 'runtime monitor: history checker, random operation sequences over several live plans with each result judged by the reference', 'sequences of operations over up to four plans')
prop('P11', 'MPI is used correctly and cleanly',
 'Every MPI call the library makes satisfies the rules of MPI for its arguments and matches its counterparts on the other ranks (same collective sequence on a communicator, equal byte counts between sender and receiver, buffers not reused while a request is pending), and no request is left pending when a call returns. Destroying a plan frees every communicator and group it created; the communicator of the user carries no leftover message and stays usable, and messages the user exchanges on it under other tags are left alone.',
 ['configurations', 'schedules', 'inputs'], 'all plans and transforms, sub-communicators, algorithms, ranks without data',
 'The tests only see an MPI error if the implementation reports it; leaks and stray messages stay invisible.', ['src/heffte_reshape3d.cpp', 'include/heffte_reshape3d.h', 'include/heffte_utils.h', 'include/heffte_fft3d.h'],
 [('requests and collectives', 'src/heffte_reshape3d.cpp'), ('communicator creation', 'mpi::new_comm_from_group, include/heffte_utils.h')],
 'runtime monitor: PMPI interposition checking every MPI call, its matching and resource balance', 'all MPI calls of each case recorded and checked')
prop('P12', 'Transforms terminate with the right result under every message timing',
 'With any arrival order of messages, any delay of any rank and no buffering of sends by the MPI library, every transform and reshape completes on all ranks and gives the right result. No communication algorithm relies on the eager protocol, on message arrival order, or on ranks being synchronised.',
 ['schedules', 'configurations'], 'all completion orders, delays and rendezvous sends, all algorithms and layouts',
 'The tests run with whatever timing the quiet machine gives and messages small enough to be buffered.', ['src/heffte_reshape3d.cpp'],
 [('post receives, send, wait any', 'reshape3d_pointtopoint::apply_base, src/heffte_reshape3d.cpp'), ('alltoall variants', 'src/heffte_reshape3d.cpp')],
 'runtime monitor: fault and delay injection through PMPI (synchronous sends, shuffled completions, random delays) with the value oracle and a hang watchdog', 'completion orders and delays drawn at random; distinct orders counted')
prop('P13', 'Invalid requests are refused cleanly on every rank',
 'Input or output boxes that overlap, leave gaps or do not start from index 0 make the constructor throw std::invalid_argument on every rank (in builds with assertions), worlds that cannot be split among the ranks make it throw on every rank, and vectors shorter than the box make the vector interface throw std::invalid_argument before any data is read or sent. After the refusal nothing is left behind, the communicator still works, and valid requests (including vectors longer than the box) are never refused.',
 ['inputs', 'configurations'], 'all invalid box sets and array lengths next to valid ones',
 'The tests exercise hardly any invalid input.', ['src/heffte_plan_logic.cpp', 'include/heffte_geometry.h', 'include/heffte_fft3d.h', 'include/heffte_fft3d_r2c.h'],
 [('world_complete', 'include/heffte_geometry.h'), ('size checks of the vector API', 'include/heffte_fft3d.h')],
 'runtime monitor: fault injection in the arguments with an oracle over outcome, exception type and the state afterwards', 'defective box sets and short arrays, one mutation each')
prop('P14', 'The C interface is equivalent to the C++ interface',
 'Every plan and transform reachable through the C functions behaves exactly as the corresponding C++ plan: same sizes, same scaling and values for each backend, precision, direction, buffered and real-to-complex variant. Default options equal the C++ defaults, and every failure returns its documented code (1 unknown or missing backend, 2 invalid boxes or options, 3 corrupted plan) without an exception leaving the call.',
 ALL, 'all C entry points, backends, boxes, orders, options and misuse combinations', 'The C tests run one layout and never a failing call.',
 ['src/heffte_c.cpp', 'include/heffte_c.h', 'include/heffte_c_defines.h'], [('plan creation and dispatch', 'src/heffte_c.cpp')],
 'runtime monitor: differential oracle between the C and C++ interfaces and the reference', 'every C function called with random plans and misuse')
prop('P15', 'The Python bindings give the same results as the library',
 'A plan created from Python with any boxes, orders, backend, communicator and reduced direction transforms numpy arrays as the library does: forward and backward, with and without a workspace, complex and real, both precisions, each scaling, with the box and workspace sizes of the library. Arrays that are too small or of the wrong type, and invalid plan arguments, raise heffte_input_error before any memory is touched, and objects can be created and destroyed in any order. The helpers proc_setup and split_world return valid processor grids and exact partitions.',
 ALL, 'all boxes, orders, dtypes, array sizes, call sequences and misuses', 'The Python tests have one 2-rank layout per backend.',
 ['python/heffte.py', 'src/heffte_c.cpp'], [('ctypes bridge', 'python/heffte.py')],
 'runtime monitor: python driver under MPI with numpy oracle, guard entries around the arrays and misuse', 'random layouts on 1..6 ranks through the shipped module')
prop('P16', 'The Fortran bindings give the same results as the library',
 'A plan created from Fortran with 0-based boxes, orders, options and a Fortran communicator, through any of the constructors, transforms arrays as the C++ interface does: each direction, precision, real or complex type, with and without workspace, batches, each scaling or none given, with the sizes and scale factors of the library. Assigning a new plan to a variable that holds one, aliasing and releasing (also twice) neither leak communicators nor damage the plan of the other variable.',
 ALL, 'all boxes, orders, options, precisions, overloads, assignments', 'The Fortran test has one fixed layout.',
 ['fortran/generated', 'fortran/heffte.cmake.i', 'include/heffte_fft3d.h', 'include/heffte_fft3d_r2c.h'], [('generated wrappers', 'fortran/generated'), ('constructors for Fortran', 'include/heffte_fft3d.h, include/heffte_fft3d_r2c.h')],
 'runtime monitor: every overload of the Fortran modules called by a Fortran shim, with the reference as the oracle, guard zones and MPI interposition', 'random layouts through the modules of the three CPU backends')
prop('P17', 'Tracing records every event and never changes the result',
 'With tracing compiled in, transforms give the right results, and the file that finalize_tracing writes for each rank lists every traced operation since init_tracing exactly once, in the order of completion, with its true name (communication events name the count and the rank of the MPI call they stand for), a non-negative duration and times inside the traced interval. Each communication call and each scaling of a transform has its event, repeated identical transforms give identical events, and tracing can be started and finalized repeatedly without old events showing up or old files changing.',
 ['histories', 'configurations'], 'all sequences of transforms and traces', 'No test looks at a trace file.', ['include/heffte_trace.h', 'src/heffte_reshape3d.cpp', 'src/heffte_compute_transform.cpp'],
 [('event log', 'include/heffte_trace.h'), ('traced operations', 'src/heffte_reshape3d.cpp, src/heffte_compute_transform.cpp')], 'runtime monitor: offline checker of the trace files against the MPI calls seen by interposition', 'traced transforms with interposed MPI as the second witness')
prop('P18', 'The built-in FFT is correct for every length and vector unit',
 'The FFT engine that ships with the library computes the DFT of every length (powers of 2, 3 and 4, composites, primes, prime powers, products with large primes), forward and backward, complex and real-to-complex, for any stride and batch layout, in single and double precision, to rounding accuracy. The AVX, AVX-512 and portable builds give the same results.',
 ALL, 'all lengths, strides, batch layouts, precisions, instruction sets', 'The tests cover about a dozen small lengths and one instruction set.',
 ['include/stock_fft', 'include/heffte_backend_stock.h'], [('decomposition of lengths', 'include/stock_fft/heffte_stock_tree.h'), ('kernels', 'include/stock_fft/heffte_stock_algos.h'), ('vector types', 'include/stock_fft/heffte_stock_vec_types.h')],
 'runtime monitor: oracle comparing each 1-D transform with an independent DFT, in three instruction-set builds', 'every length up to a bound plus sampled larger ones')
prop('P19', 'No call has undefined behaviour',
 'No valid call of the library (plan creation, transform in any variant, geometry tools, destruction) accesses memory outside live objects, uses freed memory, overflows signed integers, shifts or aligns illegally, or reads indeterminate values, for any decomposition, including empty boxes, single-index worlds and one-rank communicators.',
 ALL, 'all valid calls', 'The tests are built without sanitizers and cover few shapes.', ['src', 'include'],
 [('everything', 'src, include')], 'AddressSanitizer and UndefinedBehaviorSanitizer on random workloads with poisoned zones around user arrays', 'the whole library under both sanitizers')
prop('P20', 'The GPU backends give the same results as the CPU backends',
 'The CUDA, ROCm and oneAPI backends compute the same transforms, with the same layout and buffer guarantees, as the CPU backends.',
 ALL, 'all configurations', 'GPU tests need the devices.', ['include/heffte_backend_cuda.h', 'include/heffte_backend_rocm.h', 'include/heffte_backend_oneapi.h'], [('GPU executors', 'src/heffte_backend_*.cu/hip/oneapi')],
 na='The sandbox has no GPU, no CUDA/ROCm/oneAPI compiler and no headers of them: this code can be neither built nor run, so there is no execution to monitor.')
prop('P21', 'Each backend executes strided 1-D, 2-D and 3-D transforms of a box correctly',
 'For every box, storage order and direction (or pair, or all three), each CPU backend executor transforms every line (plane, block) of the local array in place, in both directions, complex and real input, as the DFT along exactly those directions defines, and the real-to-complex executors map between the real and the shortened box likewise. They touch only the array and the workspace of the reported size.',
 ALL, 'all local boxes including empty ones and length 1, orders, directions, precisions, index types, backends', 'The tests check a few shapes per backend.',
 ['include/heffte_backend_stock.h', 'include/heffte_backend_fftw.h', 'include/heffte_backend_mkl.h', 'include/heffte_common.h'], [('executors', 'include/heffte_backend_*.h')],
 'runtime monitor: oracle per executor call with guard zones', 'random boxes through each executor')
prop('P22', 'Ranks without data take part correctly',
 'When some ranks own no part of the input or of the output (empty boxes, more ranks than useful), plan creation and every transform still complete on all ranks with the right result on the ranks that own data, for each option and algorithm, and the reported sizes of empty boxes are zero.',
 ALL, 'all placements of empty boxes on the input and/or output side', 'The tests have a single sub-communicator case.',
 ['src/heffte_plan_logic.cpp', 'src/heffte_reshape3d.cpp', 'src/heffte_compute_transform.cpp', 'include/heffte_geometry.h'], [('empty boxes in overlap maps and executors', 'src/heffte_reshape3d.cpp, include/heffte_backend_*.h')],
 'runtime monitor: online oracle on generated decompositions with empty boxes', 'most cases have empty boxes on one or both sides')
prop('P23', 'Sub-rank options confine the intermediate work to the chosen ranks',
 'With use_num_subranks(k), or use_subcomm with a communicator over any subset of the ranks in any order (the other ranks pass MPI_COMM_NULL; it may be freed once the plan exists), the intermediate layouts and their 1-D transforms live on ranks 0..k-1, or on the ranks of the communicator, and every one of these gets a share. Apart from layouts of the user that already form pencils or slabs, the other ranks only send the data of their input box and receive that of their output box. use_subcomm takes precedence when both are called, and the results equal those without the option.',
 ALL, 'all subsets of ranks, geometries, transform kinds, algorithms and directions', 'The tests try four sub-rank counts on one grid, look only at the values, and never call use_subcomm.',
 ['src/heffte_plan_logic.cpp', 'include/heffte_plan_logic.h', 'include/heffte_geometry.h', 'include/heffte_fft3d.h', 'include/heffte_fft3d_r2c.h'], [('rank_remap', 'include/heffte_geometry.h (rank_remap, split_world, maximize_overlap)'), ('plan_options::use_num_subranks, use_subcomm', 'include/heffte_plan_logic.h, src/heffte_plan_logic.cpp plan_operations')],
 'runtime monitor: per-rank MPI traffic recorded through PMPI against the boxes, plus online value oracle', 'random subsets of 2..12 ranks; traffic judged for layouts that are no pencils on either side')

HOOK = dict(guard='HEFFTE_VERIF_HOOKS', enable='no hooks are needed: the monitors interpose MPI (PMPI) and use the public headers; the guard is unused', source_commits=[])
def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in specs.SPECS:
            checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'], technique=p['technique'], level='exploration', level_note=p['note']))
        else: na.append(dict(property=p['id'], reason=p['na'] or 'no check has been built yet'))
    json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', hooks=HOOK, checks=checks, not_applicable=na,
        notes='Every check builds heFFTe and the monitors from /repo into /verif/build (git-ignored). See DESIGN.md.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    for p in P: assert len(p['title']) <= 80, p['title']; assert p['statement'].count('. ') <= 2, p['id']
main()
