"""What every check runs."""
COMMON = ['Heffte_ENABLE_FFTW=ON', 'Heffte_ENABLE_MKL=ON', 'Heffte_ENABLE_AVX=ON']
INIT = ' -ftrivial-auto-var-init=pattern'    # uninitialised locals hold the same garbage in every run
PLAIN = '-O1 -g1' + INIT
ASAN = '-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer' + INIT
FLAVOURS = {
    'plain': dict(flags=PLAIN, defs=COMMON),
    'asan': dict(flags=ASAN, defs=COMMON),
    'avx512': dict(flags=PLAIN, defs=COMMON + ['Heffte_ENABLE_AVX512=ON']),
    'scalar': dict(flags=PLAIN, defs=COMMON[:2] + ['Heffte_ENABLE_AVX=OFF']),
    'trace': dict(flags=PLAIN, defs=COMMON + ['Heffte_ENABLE_TRACING=ON']),
    'release': dict(flags='-O2 -g1 -DNDEBUG', defs=COMMON),      # as users build it: optimised, assertions compiled out
}
def J(mode, np, count, fl='plain', **k): return dict(mode=mode, np=np, count=count, fl=fl, **k)
def mult(quick, thorough): return lambda tier, n: int(n * (quick if tier == 'quick' else thorough))
def xform(mode, launches, fl='plain', times=30, q=1, base=0, **k):
    """launches: [(ranks, cases)]; q: how many times these the quick tier runs"""
    def f(tier):
        if tier == 'quick': return [J(mode, np, c * q, fl, start=base, **k) for np, c in launches]
        r = []
        for np, c in launches:    # several shorter launches: a crash costs less
            total = c * times; step = max(c, 1500); s = 0
            while s < total: r.append(J(mode, np, min(step, total - s), fl, start=base + s, **k)); s += step
        return r
    return f
R_BASE = ('Random cases from VERIF_SEED: world sizes (1..160 per direction, 2-D and 1-D included), slab/pencil/grid/kd box decompositions that differ between '
    'input and output, shuffled ranks, sub- and permuted communicators, box orders, backends, precisions, index types, options, API variants. '
    'A case is non-trivial when the plan was created and its transforms ran; two cases are the same when geometry, options and call agree. ')
A_BASE = ['The references (naive DFT / separable definitions in double precision, own code in harness/refs.cpp) and the tolerances (1e-11 double, 1e-4 float relative to the rms, scaled up for the stock backend) are right.',
    'Only CPU backends (stock, FFTW, MKL) with Open MPI 4.1 on one node.']
def more(*fs): return lambda tier: sum((f(tier) for f in fs), [])
SPECS = {}
def spec(pid, jobs, rule, assumptions=A_BASE, **k): SPECS[pid] = dict(jobs=jobs, rule=rule, assumptions=assumptions, **k)

spec('P01', more(xform('fwd', [(1, 300), (2, 500), (3, 500), (4, 700), (5, 500), (6, 500), (7, 300), (8, 400), (16, 16), (24, 8)], q=3), xform('fwd', [(1, 200), (3, 300), (4, 400)], fl='release', times=8, base=500000)), R_BASE + 'Every forward result is compared entry by entry with the reference.', must_see=['values_compared'])
spec('P02', more(xform('bwd', [(1, 300), (2, 500), (3, 500), (4, 700), (5, 500), (6, 500), (7, 300), (8, 400)], q=3), xform('huge_c2c', [(6, 80), (8, 80), (12, 60)], times=10), xform('bwd', [(2, 300), (4, 400)], fl='release', times=8, base=500000)), R_BASE + 'Every backward result, with each scaling, is compared entry by entry with the reference. Plans over worlds of more than 2^31 indexes are created and their sizes and scale factors compared.', must_see=['values_compared', 'plans_beyond_2^31_indexes_all_ranks'])
spec('P03', more(xform('r2c', [(1, 300), (2, 500), (3, 500), (4, 700), (5, 500), (6, 500), (7, 300), (8, 400), (12, 80), (16, 16), (24, 8)], q=3), xform('huge_r2c', [(6, 80), (8, 80), (12, 60)], times=10), xform('r2c', [(1, 200), (3, 300), (4, 400)], fl='release', times=8, base=500000)), R_BASE + 'fft3d_r2c in each reduced direction, forward and backward, against the reference. Plans over worlds of more than 2^31 indexes are created and their sizes and scale factors compared.', must_see=['values_compared', 'plans_beyond_2^31_indexes_all_ranks'])
spec('P04', more(xform('r2r', [(1, 300), (2, 500), (3, 500), (4, 600), (5, 400), (6, 500), (7, 300), (8, 300)], q=3), xform('huge_r2r', [(6, 80), (8, 80), (12, 60)], times=10), xform('r2r', [(2, 300), (4, 400)], fl='release', times=8, base=500000)), R_BASE + 'Cosine and sine transforms of type II/III and I, per backend, against their defining sums. Plans over worlds of more than 2^31 indexes are created and their sizes and scale factors compared.', must_see=['values_compared', 'plans_beyond_2^31_indexes_all_ranks'])
spec('P05', xform('batch', [(1, 300), (2, 500), (3, 500), (4, 600), (6, 500), (8, 300), (16, 16)], q=3), R_BASE + 'Batches of 2..5 (some of 6..20): each entry against the reference and against the single transform of the same plan.', must_see=['values_compared'])
spec('P06', xform('buf', [(1, 400), (2, 600), (3, 600), (4, 700), (6, 500), (8, 300)], q=3), R_BASE + 'User arrays sit between guard zones at random alignment and are filled with NaN, zero or random garbage; the workspace has exactly the reported size.', must_see=['values_compared'])
spec('P11', xform('mpi', [(1, 150), (2, 500), (3, 500), (4, 700), (6, 500), (8, 300), (12, 80), (16, 16)], q=3), R_BASE + 'Every MPI call of the library is interposed and checked; messages of the user, with a tag of their own, are on their way while plans are made, used and destroyed.', must_see=['user_messages_kept', 'mpi_isend', 'mpi_irecv', 'mpi_alltoallv', 'mpi_alltoall', 'comm_created'])
spec('P12', xform('progress', [(2, 400), (3, 400), (4, 500), (6, 400), (8, 250), (12, 50), (16, 16)], q=3), R_BASE + 'Sends are made synchronous, completions are delivered in random order, calls are delayed at random.', must_see=['mpi_isend', 'mpi_waitany', 'injected_delays'])
def other(exe, mode, launches, fl='plain', times=30, q=1, **k): return xform(mode, launches, fl, times, q, exe=['@BUILD@/' + exe], targets=[exe], **k)
def p19(tier):
    A = dict(fl='asan', times=20)
    r = xform('san', [(1, 300), (2, 500), (3, 500), (4, 500), (6, 400)], **A)(tier)
    r += xform('reuse', [(1, 100), (3, 150), (4, 150)], **A)(tier) + xform('sub', [(3, 150), (6, 150)], **A)(tier) + xform('reject', [(2, 150), (4, 150)], **A)(tier) + xform('huge_fft', [(6, 60), (12, 30)], **A)(tier)
    for exe, mode, l in (('drv_reshape', 'reshape', [(2, 200), (4, 200), (6, 150)]), ('drv_geom', 'geom', [(1, 1500)]), ('drv_capi', 'capi', [(1, 100), (3, 150)])): r += other(exe, mode, l, **A)(tier)
    return r
spec('P19', p19, R_BASE + 'Built with AddressSanitizer and UndefinedBehaviorSanitizer; the zones around user arrays are poisoned.')
spec('P22', more(xform('empty', [(2, 600), (3, 600), (4, 700), (5, 500), (6, 500), (8, 300), (12, 80), (16, 16), (24, 8)], q=3), xform('empty', [(3, 300), (6, 300)], fl='release', times=8, base=500000)), R_BASE + 'Some ranks own no part of the input and/or output.', must_see=['values_compared'])
spec('P07', more(other('drv_reshape', 'reshape', [(1, 150), (2, 500), (3, 500), (4, 600), (5, 500), (6, 400), (8, 300), (12, 60), (16, 16), (24, 8)], q=3), other('drv_reshape', 'reshape', [(3, 300), (4, 400)], fl='release', times=8, base=500000)), 'Random pairs of decompositions (orders, empty boxes, everything on one rank, batches, scalars, int and long long, all algorithms, through the factory and directly). Each entry carries a unique tag and is compared bit by bit at its destination; non-trivial when the layouts differ.',
    ['Open MPI on one node; completion order, delays and synchronous sends are injected through PMPI.'], must_see=['entries_checked', 'mpi_isend', 'mpi_alltoall', 'mpi_alltoallv'])
spec('P08', other('drv_geom', 'geom', [(1, 5000), (1, 5000)][:1], q=3, times=100), 'Random worlds, decompositions and options; the plan of every rank is checked stage by stage without running a transform, and the box tools are compared with enumeration.',
    ['Plans are inspected through the public planning function.'])

try: AVX512 = all(x in open('/proc/cpuinfo').read() for x in ('avx512f', 'avx512dq', 'fma'))
except OSError: AVX512 = False
def p18(tier):
    # one process per launch; the cases of an index are the same in every build
    t = 1 if tier == 'quick' else 12; r = []
    for fl in ('plain', 'avx512', 'scalar') if AVX512 else ('plain', 'scalar'):
        ex = dict(fl=fl, exe=['@BUILD@/drv_exec'], targets=['drv_exec'])
        r.append(J('stock', 1, 640, **ex)); r.append(J('stock', 1, 640, start=640, **ex)); n = 1280
        for i in range(6 * t): r.append(J('stock', 1, 640, start=n, **ex)); n += 640
    return r
spec('P18', p18, 'Every length from 1 to 640, then 1217^2 and sampled lengths (prime powers, powers of two and neighbours, primes, products with large primes) in a random layout, precision, direction and call; every line is compared with FFTW in double precision, short ones also with the definition. '
    'Rader nodes of random primes are run directly (the library uses them above 100000 only, where they take minutes). Three builds: AVX, AVX-512, portable. Non-trivial: a transform of which every output was compared; two cases are the same when length, call, precision, position in the storage order and number of lines agree.',
    ['FFTW in double precision is right to 1e-11 (checked against the definition up to length 64).', 'The tolerance is 4 (50 + N) machine epsilons relative to the rms, about eight times what the repaired tree shows: the engine multiplies twiddle factors up within one stage.', 'The processor has AVX-512 (an avx512 build on another one would not start).'], must_see=['values_compared', 'rader_transforms'])
def p21(tier):
    t = 1 if tier == 'quick' else 25
    r = [J('exec', 1, 6000, start=6000 * i, exe=['@BUILD@/drv_exec'], targets=['drv_exec']) for i in range(7 * t)]
    r += [J('exec', 1, 2000, fl='asan', start=1000000 + 2000 * i, exe=['@BUILD@/drv_exec'], targets=['drv_exec']) for i in range(3 * t)]
    return r
spec('P21', p21, 'Random boxes (1..260 per direction, any storage order, offset, index type), every executor of the stock, FFTW and MKL backends in one, two or three directions, sequences of calls in both precisions and directions; arrays and the workspace of the reported size sit between guard zones at random alignment. The results are compared with the definition. Non-trivial: at least one call was compared; two cases are the same when box, executor and calls agree. Part of the cases runs under AddressSanitizer and UBSan.', must_see=['values_compared'])
spec('P09', xform('opts', [(2, 300), (3, 300), (4, 400), (5, 250), (6, 300), (8, 250), (12, 120), (16, 40), (24, 16)]), 'Each case takes one global array (up to 60000 entries), transforms it with a default plan on one rank and then with 4..7 random configurations (options, rank counts, sub-communicators, layouts, orders, index types, backends of the same transform) and compares every entry. Non-trivial: at least two configurations ran; two cases are the same when all their configurations agree.', must_see=['values_compared'])
spec('P23', more(xform('sub', [(2, 400), (3, 500), (4, 600), (5, 400), (6, 500), (7, 300), (8, 300), (12, 150), (16, 40), (24, 16)], q=2), xform('sub', [(3, 300), (6, 300)], fl='release', times=8, base=500000)), R_BASE + 'Every case sets a sub-rank count or a random sub-communicator (any ranks, either order); the traffic of every rank is recorded through PMPI, the result compared entry by entry.',
    A_BASE + ['The traffic is judged when neither side forms pencils in a direction (then no layout of the user can serve as intermediate layout) and the algorithm does not pad; the values always.'], must_see=['values_compared', 'unchosen_ranks_checked'], nontrivial=lambda r: r[2].startswith('ok') and r[2] != 'ok pencils')
spec('P10', more(xform('reuse', [(1, 200), (2, 350), (3, 350), (4, 400), (5, 300), (6, 300), (8, 200)], q=3), xform('reuse', [(3, 200), (4, 200)], fl='release', times=8, base=500000)), 'A case is a history of 6..16 (sometimes up to 160) operations over up to four plans on overlapping communicators: create (also the same description again), execute in any direction, precision, batch, call and scaling, in place, with a workspace shared among the plans, move the object, destroy. Every result is compared with the reference. Non-trivial: a transform ran; two cases are the same when the histories agree.', must_see=['values_compared', 'plans_moved'])
spec('P13', xform('reject', [(1, 300), (2, 500), (3, 500), (4, 600), (5, 400), (6, 400), (8, 250), (12, 120), (16, 40), (24, 16)], q=2, env={'VH_CASE_SECONDS': '25'}), 'Valid box sets with one or two defects (grown, shrunk, shifted, duplicated or missing boxes, on the input and/or output side), vectors shorter than the box, nearly one-dimensional worlds that cannot be split; after each refusal a valid plan on the same communicator is created, run and compared. Whether a set is valid is decided by own code. Non-trivial: the case ran to its end.',
    ['Assertions are enabled, as in the build of the test suite: the library validates box sets inside assert().'] + A_BASE, must_see=['refused', 'accepted', 'short_vectors_refused'], nontrivial=lambda r: True)
spec('P14', other('drv_capi', 'capi', [(1, 300), (2, 500), (3, 400), (4, 600), (6, 400), (8, 200)], q=2), 'Random plans (stock, FFTW, MKL; options NULL or given, orders NULL or given) through the shipped C header compiled as C; sizes against the C++ plan, results of every transform function against the reference; failing calls with unknown backends and algorithms, shifted or overlapping boxes, corrupted plans. Non-trivial: the plan was created.', must_see=['values_compared', 'failing_calls', 'mpi_profiles_compared'])
FLAVOURS['python'] = dict(flags=PLAIN, defs=COMMON + ['Heffte_ENABLE_PYTHON=ON'])
spec('P15', xform('py', [(1, 250), (2, 350), (3, 350), (4, 350), (6, 250)], fl='python', times=15, exe=['/usr/bin/python3', '@HERE@/harness/py_driver.py'], targets=['Heffte', 'heffte_python_testing'], env={'PYTHONPATH': '@BUILD@/heffte/python', 'PYTHONDONTWRITEBYTECODE': '1'}),
    'Random worlds, decompositions, orders and communicators through the shipped Python module; every call forward/backward, buffered or not, is compared with numpy.fft, arrays sit between known entries; misuse of the factories and of the calls has to raise heffte_input_error and leave the arrays alone; proc_setup and split_world against enumeration. Non-trivial: the plan was created and its transforms ran.',
    ['numpy.fft is right to rounding.', 'Arrays are numpy arrays (others have to bring the pointer of a device).'], must_see=['values_compared', 'refusals', 'worlds_split'])
spec('P17', other('drv_trace', 'trace', [(1, 300), (2, 400), (3, 400), (4, 500), (6, 300), (8, 200), (12, 60)], q=2, fl='trace'), 'Histories of one to three traces (some of thousands of events) over one or two plans, with transforms between them; every trace file is parsed and compared with the log in memory, with the caller\'s clock and, call by call, with the MPI calls seen by interposition; every result is compared with the reference. Non-trivial: a transform ran; two cases are the same when the histories agree.', must_see=['trace_events', 'mpi_calls_matched', 'scale_events', 'values_compared'])
FLAVOURS['fortran'] = dict(flags=PLAIN, defs=COMMON + ['Heffte_ENABLE_FORTRAN=ON'])
def p16(tier):
    r = []
    for b in ('stock', 'fftw', 'mkl'): r += other('drv_fort_' + b, 'fort_' + b, [(1, 200), (2, 250), (3, 250), (4, 300), (6, 150)], fl='fortran', times=15)(tier)
    return r
spec('P16', p16, 'Random plans of the three CPU backends through the public types of the shipped Fortran modules (all three constructors, every forward and backward overload, assignment over a live plan, aliases, repeated release); sizes and factors against the C++ plan, results against the reference. Non-trivial: the plan was created.',
    A_BASE + ['Geometries the library cannot split are left out: the generated wrappers turn exceptions into an abort.'], must_see=['values_compared', 'assignments'])
