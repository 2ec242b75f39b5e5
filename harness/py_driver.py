"""P15: random plans through the shipped Python module, judged by numpy's FFT; misuse has to be refused untouched."""
import sys, os, random, threading, argparse, zlib
import numpy as np
from mpi4py import MPI
import ctypes
for l in ('libmkl_core.so', 'libmkl_gnu_thread.so', 'libmkl_intel_ilp64.so'):   # MKL loads its kernels as plugins that need its symbols to be global
    try: ctypes.CDLL(l, mode=ctypes.RTLD_GLOBAL | os.RTLD_LAZY)
    except OSError: pass
import heffte
W = MPI.COMM_WORLD; ME, NP = W.Get_rank(), W.Get_size()
ap = argparse.ArgumentParser()
for k in ('mode', 'log'): ap.add_argument('--' + k)
for k in ('seed', 'start', 'count', 'tier'): ap.add_argument('--' + k, type=int, default=0)
A = ap.parse_args()
out = open(A.log, 'w') if ME == 0 else None
viol, stat = [], dict(values_compared=0, refusals=0, plans_created=0, transform_calls_all_ranks=0, worlds_split=0); worst = 0.0
def bad(key, text):
    if len(viol) < 3: viol.append('rank %d\t%s\t%s' % (ME, key, ' '.join(str(text).split())[:900]))
def say(*x): out.write('\t'.join(str(y) for y in x) + '\n'); out.flush()
def hang(i):
    sys.stderr.write('\nHANG case %d\n' % i); sys.stderr.flush(); os._exit(99)

# ---- geometry, own code: a box is (lo, hi, order)
def kd(g, lo, hi, k):
    if k == 1: return [(lo, hi)]
    for _ in range(100):
        d = g.randrange(3); n = hi[d] - lo[d] + 1
        if n < 2: continue
        at = lo[d] + g.randrange(n - 1); k1 = g.randint(1, k - 1)
        h1 = list(hi); h1[d] = at; l2 = list(lo); l2[d] = at + 1
        v1 = vol(lo, h1); v2 = vol(l2, hi)
        if v1 < k1 or v2 < k - k1: continue
        return kd(g, lo, h1, k1) + kd(g, l2, hi, k - k1)
    return None
def vol(lo, hi):
    r = 1
    for a, b in zip(lo, hi): r *= max(0, b - a + 1)
    return r
def boxes(g, n, k, ranks):
    while True:
        if g.random() < 0.5:
            r = kd(g, [0, 0, 0], [x - 1 for x in n], k)
        else:
            p = [1, 1, 1]; m = k
            for d in (0, 1): f = g.choice([x for x in range(1, m + 1) if m % x == 0]); p[d] = f; m //= f
            p[2] = m; g.shuffle(p)
            if any(a > b for a, b in zip(p, n)): r = kd(g, [0, 0, 0], [x - 1 for x in n], k)
            else:
                cut = [[n[d] * i // p[d] for i in range(p[d] + 1)] for d in range(3)]
                r = [([cut[0][a], cut[1][b], cut[2][c]], [cut[0][a + 1] - 1, cut[1][b + 1] - 1, cut[2][c + 1] - 1]) for c in range(p[2]) for b in range(p[1]) for a in range(p[0])]
        if r: break
    r += [([0, 0, 0], [-1, -1, -1])] * (ranks - k)
    g.shuffle(r); return r
def grab(glob, b, order):   # entries of the box in storage order (glob is indexed [x][y][z])
    (lo, hi) = b
    if vol(lo, hi) == 0: return np.zeros(0, glob.dtype)
    s = glob[lo[0]:hi[0] + 1, lo[1]:hi[1] + 1, lo[2]:hi[2] + 1]
    return np.ascontiguousarray(np.transpose(s, (order[2], order[1], order[0]))).ravel()
def splittable(n, k):
    for d in range(3):
        a, b = n[(d + 1) % 3], n[(d + 2) % 3]
        if not any(k % i == 0 and i <= a and k // i <= b for i in range(1, k + 1)): return False
    return True
class Guarded:
    """n entries inside a larger array with known surroundings"""
    def __init__(self, n, dtype, fill, g):
        self.pad = 8; off = self.pad + g.randrange(3); self.raw = np.zeros(n + 24, dtype); self.raw[:] = 7
        self.a = self.raw[off:off + n]; self.a[:] = fill; self.off, self.n = off, n
    def intact(self): return bool((self.raw[:self.off] == 7).all() and (self.raw[self.off + self.n:] == 7).all())
ERR = heffte.heffte_input_error
def refused(what, f, *watch):
    before = [w.copy() for w in watch]
    try: f()
    except ERR as e:
        stat['refusals'] += 1
        if not isinstance(getattr(e, 'message', None), str): bad('message', what + ': the exception has no message')
    except Exception as e: bad('misuse', '%s raised %s: %s' % (what, type(e).__name__, e)); return
    else: bad('misuse', what + ' was accepted')
    for a, b in zip(before, watch):
        if not np.array_equal(a, b, equal_nan=True): bad('touched', what + ': an array was modified by the refused call')

def one(i):
    global worst
    g = random.Random(A.seed * 1000003 + i); mine = random.Random(A.seed * 7919 + i * 64 + ME)
    nr = NP if g.random() < 0.6 else g.randint(1, NP)
    members = list(range(NP))
    if g.random() < 0.4: g.shuffle(members)
    members = members[:nr]
    kind = g.choice(['c2c', 'c2c', 'real', 'r2c', 'r2c']); be = g.choice([heffte.backend.stock, heffte.backend.fftw, heffte.backend.mkl]); rdir = g.randrange(3)
    while True:
        n = [g.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 18, 20]) for _ in range(3)]; m = list(n)
        if kind == 'r2c': m[rdir] = n[rdir] // 2 + 1
        if vol([1] * 3, n) <= 2500 and vol([1] * 3, m) >= nr and splittable(n, nr) and splittable(m, nr): break
    kin = nr if nr == 1 or g.random() < 0.8 else g.randint(1, nr - 1); kout = nr if nr == 1 or g.random() < 0.8 else g.randint(1, nr - 1)
    bi, bo = boxes(g, n, kin, nr), boxes(g, m, kout, nr)
    if kind != 'r2c' and g.random() < 0.25: bo = list(bi)
    oi = [0, 1, 2]; oo = [0, 1, 2]
    if g.random() < 0.6: g.shuffle(oi); g.shuffle(oo)
    text = '%s backend=%d n=%s dir=%d members=%s in=%s o%s out=%s o%s' % (kind, be, n, rdir, members, bi, oi, bo, oo)
    if ME == 0: say('S', i, text)
    viol.clear(); worst = 0.0; t = threading.Timer(float(os.environ.get('VH_CASE_SECONDS', '60')), hang, (i,)); t.daemon = True; t.start()
    col = 0 if ME in members else MPI.UNDEFINED
    comm = W.Split(col, members.index(ME) if ME in members else 0); outcome = 'ok'
    if comm != MPI.COMM_NULL:
        me = comm.Get_rank()
        def mk(lo_hi, order):
            lo, hi = lo_hi
            if order == [0, 1, 2] and g.random() < 0.5: return heffte.box3d(lo, hi)
            f = g.choice([list, tuple, np.array]); return heffte.box3d(f(lo), f(hi), f(order))
        # refusals of the factories
        r = g.randrange(8)
        if r == 0: refused('backend 5', lambda: heffte.fft3d(5, mk(bi[me], oi), mk(bo[me], oo), comm))
        if r == 1: refused('a backend that is not compiled', lambda: heffte.fft3d(g.choice([10, 11]), mk(bi[me], oi), mk(bo[me], oo), comm))
        if r == 2: refused('r2c_direction 3', lambda: heffte.fft3d_r2c(be, mk(bi[me], oi), mk(bo[me], oo), g.choice([3, -1]), comm))
        if r == 3 and kin == nr and kout == nr:
            sh = [([x + 1 for x in a], [x + 1 for x in b]) for a, b in (bi, bo)[0]], [([x + 1 for x in a], [x + 1 for x in b]) for a, b in bo]
            if kind == 'r2c': refused('boxes that do not start at 0', lambda: heffte.fft3d_r2c(be, mk(sh[0][me], oi), mk(sh[1][me], oo), rdir, comm))
            else: refused('boxes that do not start at 0', lambda: heffte.fft3d(be, mk(sh[0][me], oi), mk(sh[1][me], oo), comm))
        plans = []
        for _ in range(g.choice([1, 1, 2])):
            p = heffte.fft3d_r2c(be, mk(bi[me], oi), mk(bo[me], oo), rdir, comm) if kind == 'r2c' else heffte.fft3d(be, mk(bi[me], oi), mk(bo[me], oo), comm)
            plans.append(p); stat['plans_created'] += 1
        p = g.choice(plans); li, lo = vol(*bi[me]), vol(*bo[me])
        if (p.size_inbox(), p.size_outbox()) != (li, lo): bad('sizes', 'sizes %d %d instead of %d %d' % (p.size_inbox(), p.size_outbox(), li, lo))
        for step in range(3):
            prec = g.randrange(2); ct = [np.complex64, np.complex128][prec]; rt = [np.float32, np.float64][prec]; it = ct if kind == 'c2c' else rt
            sc = g.choice([heffte.scale.none, heffte.scale.full, heffte.scale.symmetric]); d = g.randrange(2); buf = g.randrange(2); N = float(np.prod(n)); f = 1.0 if sc == heffte.scale.none else 1 / N if sc == heffte.scale.full else 1 / np.sqrt(N)
            rng = np.random.default_rng(A.seed * 97 + i * 4 + step); x = rng.standard_normal(n)
            if kind == 'c2c': x = x + 1j * rng.standard_normal(n)
            if d == 0: src = x.astype(it); ref = np.fft.fftn(src.astype(np.complex128)) * f; (sb, so, db, do, st, dt) = (bi[me], oi, bo[me], oo, it, ct)
            else:
                full = np.fft.fftn(x); src = full.astype(ct); (sb, so, db, do, st, dt) = (bo[me], oo, bi[me], oi, ct, it)
                ref = np.fft.ifftn(src.astype(np.complex128)) * N * f
                if kind != 'c2c': ref = ref.real
            if kind == 'r2c':
                cut = [slice(None)] * 3; cut[rdir] = slice(0, m[rdir])
                if d == 0: ref = ref[tuple(cut)]
                else: src = src[tuple(cut)]
            a = Guarded(vol(*sb), st, 0, mine); a.a[:] = grab(src, sb, so); b = Guarded(vol(*db), dt, np.nan, mine); wn = p.size_workspace() + mine.choice([0, 0, 3]); w = Guarded(wn, ct, np.nan, mine)
            keep = a.a.copy(); ina, outa = a.a, b.a
            call = (lambda *q: (p.forward_buffered if d == 0 else p.backward_buffered)(q[0], q[1], q[2], *q[3:])) if buf else (lambda *q: (p.forward if d == 0 else p.backward)(q[0], q[1], *q[3:]))
            nm = ('forward' if d == 0 else 'backward') + ('_buffered' if buf else '')
            k = g.randrange(14)   # a misuse first, on all ranks
            other = [np.float64, np.float32][prec]; oc = [np.complex128, np.complex64][prec]
            if k == 0: refused(nm + ' with a longer input', lambda: call(np.zeros(ina.size + 1, st), outa, w.a, sc), outa, w.a)
            if k == 1 and comm.allreduce(int(ina.size > 0), MPI.MIN): refused(nm + ' with a shorter input', lambda: call(ina[:-1], outa, w.a, sc), outa, w.a)
            if k == 2: refused(nm + ' with a longer output', lambda: call(ina, np.zeros(outa.size + 2, dt), w.a, sc), w.a)
            if k == 3 and comm.allreduce(int(outa.size > 0), MPI.MIN): refused(nm + ' with a shorter output', lambda: call(ina, outa[:-1], w.a, sc), outa, w.a)
            if k == 4: refused(nm + ' with scaling 3', lambda: call(ina, outa, w.a, g.choice([3, -1, 7])), outa, w.a)
            if k == 5: refused(nm + ' with integers', lambda: call(ina.real.astype(np.int32) if d == 0 else ina, outa if d == 0 else np.zeros(outa.size, np.int64), w.a, sc), w.a)
            if k == 6 and d == 0: refused(nm + ' with output of the other precision', lambda: call(ina, np.zeros(outa.size, oc), w.a, sc), w.a)
            if k == 6 and d == 1: refused(nm + ' with input of the other precision', lambda: call(ina.astype(oc), outa, w.a, sc), outa, w.a)
            if k == 7 and buf and comm.allreduce(int(p.size_workspace() > 0), MPI.MIN): refused(nm + ' with a short workspace', lambda: call(ina, outa, w.a[:p.size_workspace() - 1], sc), outa, w.a)
            if k == 8 and buf: refused(nm + ' with a workspace of the other precision', lambda: call(ina, outa, np.zeros(p.size_workspace(), mine.choice([oc, rt])), sc), outa)
            if k == 9 and kind == 'r2c': refused(nm + ' of an r2c plan with complex on the real side', lambda: call(ina.astype(ct) if d == 0 else ina, outa if d == 0 else np.zeros(outa.size, ct), w.a, sc), w.a)
            if k >= 10:   # the library takes an address only: entries that are not next to each other have to be refused; a single entry is always contiguous, hence the agreement
                view = g.choice(['every second', 'reversed']); who = g.choice(['input', 'output', 'workspace'] if buf else ['input', 'output'])
                def strided(z): return np.ascontiguousarray(z)[::-1] if view == 'reversed' else np.repeat(z, 2)[::2]
                t3 = [ina, outa, w.a]; at = ['input', 'output', 'workspace'].index(who)
                if comm.allreduce(int(t3[at].size > 1), MPI.MIN):
                    t3[at] = strided(t3[at]); refused('%s with %s entry of another array as %s' % (nm, view, who), lambda: call(t3[0], t3[1], t3[2], sc), *t3)
            if not np.array_equal(keep, ina, equal_nan=True): bad('touched', nm + ': the input was modified by a refused call')
            outa[:] = np.nan
            shape = g.randrange(3); v = vol(*db)
            if shape == 1 and v: outv = outa.reshape([db[1][q] - db[0][q] + 1 for q in (do[2], do[1], do[0])])
            else: outv = outa
            inv = ina
            if mine.random() < 0.4 and vol(*sb):   # several directions: in memory order, slow first (C) or fast first (Fortran)
                dims = [sb[1][q] - sb[0][q] + 1 for q in so]
                inv = ina.reshape(dims, order='F') if mine.random() < 0.5 else ina.reshape(dims[::-1])
            if sc == heffte.scale.none and shape == 2: call(inv, outv, w.a)
            else: call(inv, outv, w.a, sc)
            stat['transform_calls_all_ranks'] += 1
            rms = np.sqrt(np.mean(np.abs(ref) ** 2)) or 1.0; want = grab(ref, db, do); tol = (1e-11 if prec else 1e-4) * 1.5
            if outa.size:
                e = float(np.max(np.abs(outa.astype(np.complex128) - want))) / rms; e = e if e == e else 1e300; stat['values_compared'] += outa.size; worst = max(worst, e / tol)
                if e > tol: bad('value', '%s %s prec %d scale %d: relative error %g' % (nm, kind, prec, sc, e))
            if not np.array_equal(keep, ina, equal_nan=True): bad('const-input', nm + ': the input was modified')
            if not (a.intact() and b.intact() and w.intact()): bad('guard', nm + ': memory around an array was written')
            if len(plans) > 1 and g.random() < 0.3:
                q = g.choice(plans)
                if q is not p: plans.remove(q); del q
        g.shuffle(plans); p = None; q = None
        while plans: plans.pop()
        comm.Free()
    # geometry helpers
    if i % 3 == 0:
        lo = [g.randint(-3, 5) for _ in range(3)]; sz = [g.randint(1, 14) for _ in range(3)]; world = heffte.box3d(lo, [l + s - 1 for l, s in zip(lo, sz)], g.choice([[0, 1, 2], [2, 0, 1], [1, 0, 2]])); k = g.randint(1, 12)
        grid = heffte.proc_setup(world, k)
        if int(np.prod(grid)) != k: bad('geometry', 'proc_setup(%s, %d) = %s' % (sz, k, grid))
        for gr in ([int(x) for x in grid], [g.randint(1, s) for s in sz]):
            bs = heffte.split_world(world, gr); cnt = np.zeros(sz, int)
            if len(bs) != int(np.prod(gr)): bad('geometry', 'split_world gives %d boxes for %s' % (len(bs), gr))
            for b in bs:
                if any(x < 0 for x in (b.low - lo)) or any(b.high[q] > lo[q] + sz[q] - 1 for q in range(3)): bad('geometry', 'a box leaves the world: %s %s of %s %s grid %s' % (b.low, b.high, lo, sz, gr)); break
                if list(b.order) != list(world.order): bad('geometry', 'a box has another order')
                cnt[tuple(slice(int(b.low[q]) - lo[q], int(b.high[q]) - lo[q] + 1) for q in range(3))] += 1
            if not (cnt == 1).all(): bad('geometry', 'split_world(%s + %s, %s) is no partition' % (lo, sz, gr))
        stat['worlds_split'] += 1
    allv = W.gather(list(viol), 0); ww = W.reduce(worst, op=MPI.MAX, root=0)
    t.cancel()
    if ME == 0:
        for v in allv:
            if v: say('V', i, v[0])
        say('R', i, '%08x%08x' % (zlib.crc32(text.encode()), len(text)), '%.3g' % ww, 'ok')
cur = -1
try:
    for cur in range(A.start, A.start + A.count): one(cur)
except BaseException as e:
    import traceback
    tb = traceback.extract_tb(sys.exc_info()[2])[-1]
    sys.stderr.write('EXCEPTION case %d rank %d: %s: %s (%s line %d)\n' % (cur, ME, type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)); sys.stderr.flush(); os._exit(98)
for k in sorted(stat):
    v = W.reduce(stat[k], root=0)
    if ME == 0: say('T', k, v)
if ME == 0: say('E'); out.close()
