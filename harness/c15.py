"""C15: variational evolution: schedules (Sweep), clocks and exactness (Evolution), exact mirror chains
(Mirror), reversibility and conservation at any bond dimension (Reverse)."""
import tempfile
from hlib import *
import replay_evo as R
import c12
import lib.mpslib.engines as en
import lib.mpslib.mps as mpslib
import lib.mpslib.Hamiltonians as ham
import lattice
from window import Window

MCFG = '''CONSTANTS
 Ns = {%s}
 Q = %d
 MaxUser = %d
SPECIFICATION Spec
INVARIANTS TwiceIsIdentity Inverse
'''
RCFG = '''CONSTANTS
 Taus <- RunT
 MaxUser = %d
 Emit = %s
SPECIFICATION Spec
INVARIANTS Reduced Same
'''
PCFG = '''CONSTANTS
 Ns <- RunN
 Levels = {%s}
 Fields <- RunF
 Amps <- RunA
 MaxTerms = 3
 MaxOps = %d
 Emit = %s
SPECIFICATION Spec
INVARIANTS Accumulated Back
'''
SWCFG = '''CONSTANTS
 Engines = {"tdvp"}
 Ns = {%s}
 MaxUser = %d
 Emit = TRUE
SPECIFICATION Spec
INVARIANTS UpdatesSeeMatchingBlocks EnvInv Schedules
'''


def from_vector(v, N):
    """full-rank matrix product state of a vector"""
    ts, m = [], v.reshape(1, -1)
    for n in range(N - 1):
        D = m.shape[0]
        u, s, w = np.linalg.svd(m.reshape(D * 2, -1), full_matrices=False)
        ts.append(u.reshape(D, 2, -1).transpose(0, 2, 1).copy())
        m = s[:, None] * w
    ts.append(m.reshape(-1, 2, 1).transpose(0, 2, 1).copy())
    return mpslib.MPS.fromList(ts)


def mirror(c, i, b, Q):
    N, B = b['N'], float(b['b'])
    np.random.seed((c.seed * 31 + i) % 2**31)
    unit = np.pi / Q
    J = np.array([2 * np.sqrt(n * (N - n)) / 2 for n in range(1, N)])          # hopping J/2 (S+S- + h.c.) with the chain's sqrt(n(N-n))/2
    H = ham.XXZ(np.zeros(N - 1), J, B * np.ones(N), obc=True)
    v0 = gvec(np.array(b['start'], float).ravel())
    v0 = v0 / np.linalg.norm(v0)
    m = from_vector(v0, N)
    if max(m.D) < 2 ** (N // 2):
        return None
    m.position(0)
    m.resetZ()
    solver = ['LAN', 'SEXPMV', 'RK45', 'RK23', 'BDF'][i % 5] if N < 3 else ['LAN', 'RK45', 'LAN', 'RK45', 'LAN', 'SEXPMV'][i % 6]
    steps = 1 + (i % 2 if solver == 'LAN' else 0)                       # steps per unit of the clock
    with tempfile.TemporaryDirectory(dir=c.scratch) as d:
        e = en.TimeEvolutionEngine(m, H, os.path.join(d, 'x'))
        T, win = 0.0, None
        for j, s in enumerate(b['path']):
            where = 'call %d %s %d' % (j, s['op'], s['k'])
            if s['op'] == 'tdvp':
                k = abs(s['k'])
                ns = steps * k
                dt = -1j * unit / steps * (1 if s['k'] > 0 else -1)
                e.doTDVP(dt, ns, solver=solver, krylov_dim=30, rtol=1e-7, atol=1e-9, verbose=j % 3)
                T += unit * k
                if abs(e.time - T) > 1e-9:
                    return 'time', where + ': time %s after %s' % (e.time, T)
            elif s['op'] == 'position':
                e.position(min(s['k'], len(e.mps)))
            elif s['op'] == 'file':
                e.save(os.path.join(d, 'f'))
                e = en.TimeEvolutionEngine(e.mps, e._mpo, os.path.join(d, 'y'), **(win.boundary() if win else {})).load(os.path.join(d, 'f'))
            elif s['op'] == 'window':
                # the same state handed to an engine that sees only a window of the chain
                win = Window(win.state(e.mps) if win else e.mps, H, *s['win'])
                e = en.TimeEvolutionEngine(win.mps, win.mpo, os.path.join(d, 'w'), **win.boundary())
                T = 0.0
                c.count('window')
            c.impl_steps += 1
            v = win.vector(e.mps) if win else dense(e.mps)
            if abs(np.linalg.norm(v) - 1) > 1e-6:
                return 'norm', where + ': norm %s' % np.linalg.norm(v)
            if s['known']:
                # compared as rays: the steps of the integrator keep no record of a global sign
                w = gvec(np.array(s['psi'], float).ravel())
                w = w / np.linalg.norm(w)
                tol = dict(BDF=1e-3, RK23=1e-4).get(solver, 5e-5)
                if np.max(np.abs(v - w)) > tol and np.max(np.abs(v + w)) > tol:
                    return 'mirror', '%s (%s): state differs from the mirror image by %.2e' % (where, solver, min(np.max(np.abs(v - w)), np.max(np.abs(v + w))))
                c.count('mirror:' + solver)
    return None


def reverse(c, i, b):
    N = b['N']
    rng = np.random.RandomState((c.seed * 101 + i) % 2**31)
    np.random.seed(rng.randint(2**31 - 1))
    D = [1, 2, 3, 4][i % 4]
    H = R.operator(b['ham'], N)
    Hd = lattice.contract([np.asarray(H[n]) for n in range(N)])[0, 0].T
    scale = max(1.0, np.linalg.norm(Hd, 2))
    m = mpslib.MPS.random(N, D, 2, obc=True, dtype=complex)
    m.position(0)
    m.resetZ()
    solver = ['LAN', 'RK45', 'SEXPMV'][(i // 4) % 3]
    unit = [0.03, 0.02][i % 2]
    en_ = lambda v: (np.vdot(v, Hd @ v) / np.vdot(v, v)).real
    with tempfile.TemporaryDirectory(dir=c.scratch) as d:
        e = en.TimeEvolutionEngine(m, H, os.path.join(d, 'x'))
        hist = [dense(e.mps)]
        for j, s in enumerate(b['path']):
            a, r = s['step']
            dt = (-1j * a - r) * unit
            dims = list(e.mps.D)
            e.doTDVP(dt, 1, solver=solver, krylov_dim=30, rtol=1e-10, atol=1e-13, verbose=0)
            if (i + j) % 4 == 3:
                e.position(rng.randint(N + 1))
            c.impl_steps += 1
            v = dense(e.mps)
            where = 'step %d (dt=%s, %s, D=%d)' % (j, dt, solver, D)
            if abs(np.linalg.norm(v) - 1) > 1e-8:
                return 'norm', where + ': norm %s' % np.linalg.norm(v)
            if list(e.mps.D) != dims:
                return 'dims', where + ': bond dimensions %s became %s' % (dims, list(e.mps.D))
            if s['real'] and abs(en_(v) - en_(hist[-1])) > 1e-7 * scale:
                return 'energy', where + ': energy changes by %.2e' % (en_(v) - en_(hist[-1]))
            if not s['real'] and s['step'][0] == 0 and r > 0 and en_(v) > en_(hist[-1]) + 1e-7 * scale:
                return 'cooling', where + ': imaginary time raises the energy by %.2e' % (en_(v) - en_(hist[-1]))
            if s['same']:
                w = hist[s['same'] - 1]
                err = np.sqrt(max(0.0, 1 - abs(np.vdot(v, w))**2))
                if err > 2e-5:
                    return 'irreversible', '%s: going back does not return the state of %d steps ago (distance %.2e)' % (where, j + 2 - s['same'], err)
                c.count('returns')
            hist.append(v)
    return None


def sum_of_products(terms, ds):
    ts, N = [], len(ds)
    k = len(terms)
    for j, d in enumerate(ds):
        t = np.zeros((1 if j == 0 else k, 1 if j == N - 1 else k, d), complex)
        for q, a in enumerate(terms):
            t[0 if j == 0 else q, 0 if j == N - 1 else q, :] += gvec(a[j])
        ts.append(t)
    return ts


def fields(h, us):
    W, N = [], len(h)
    for j, f in enumerate(h):
        o = (us[j] * (np.array(f, float) * np.pi / 4)).dot(us[j].conj().T).T           # [in, out]
        w = np.zeros((2, 2) + o.shape, complex if np.iscomplexobj(o) else float)
        w[0, 0] = w[1, 1] = np.eye(len(f))
        w[1, 0] = o
        W.append(w[-1:] if j == 0 else w[:, :1] if j == N - 1 else w)
    if N == 1:
        W = [W[0][:, :1]]
    return ham.MPO.fromlist(W)


def precess(c, i, b):
    """on-site fields: the state with its phase"""
    N, ds = b['N'], b['d']
    rng = np.random.RandomState((c.seed * 211 + i) % 2**31)
    np.random.seed(rng.randint(2**31 - 1))
    real = bool(rng.randint(2))
    us = [np.linalg.qr(rng.randn(d, d) + (0 if real else 1j * rng.randn(d, d)))[0] for d in ds]
    ts = [np.tensordot(t, u, ([2], [1])) for t, u in zip(sum_of_products(b['psi'], ds), us)]
    v0 = dense_tensors(ts)[0, :, 0]
    if np.linalg.norm(v0) < 0.5:
        return None
    v0 = v0 / np.linalg.norm(v0)
    m = mpslib.MPS.fromList(ts)
    m.position(0)
    m.resetZ()
    k = len(b['psi'])
    D = [1] + [int(min(np.prod(ds[:j]), np.prod(ds[j:]))) for j in range(1, N)] + [1]
    full = k == 1 or list(m.D) == D                  # the variational evolution is exact
    m.position(rng.randint(N + 1))
    solver = ['LAN', 'RK45', 'SEXPMV', 'LAN', 'DOP'][i % 4]
    with tempfile.TemporaryDirectory(dir=c.scratch) as d:
        e = en.TimeEvolutionEngine(m, fields(b['h'], us), os.path.join(d, 'x'))
        sign = np.vdot(v0, dense(e.mps)) / np.linalg.norm(dense(e.mps))         # taking over a state may turn it, evolving it may not
        if abs(abs(sign) - 1) > 1e-9:
            return 'start', 'the engine starts from another state'
        last = None
        for j, s in enumerate(b['path']):
            where = 'step %d %s %s in %s (%d terms, levels %s)' % (j, s['op'], s['t'], s['steps'], k, ds)
            if s['op'] == 'tdvp' and not full or s['op'] == 'tebd' and N == 1:
                return None
            if s['op'] in ('tdvp', 'tebd'):
                dt = -1j * s['t'] / float(s['steps'])
                if s['op'] == 'tdvp':
                    if last == 'tebd':
                        e.initializeTDVP()
                    e.doTDVP(dt, s['steps'], solver=solver, krylov_dim=12, rtol=1e-9, atol=1e-12, verbose=0)
                else:
                    e.doTEBD(dt, s['steps'], 16, 1e-13, verbose=0)
                last = s['op']
            elif s['op'] == 'position':
                e.position(s['t'])
            elif s['op'] == 'file':
                e.save(os.path.join(d, 'f'))
                e = en.TimeEvolutionEngine(m, fields(b['h'], us), os.path.join(d, 'y')).load(os.path.join(d, 'f'))
            else:
                mm = e.mps
                before = dense(mm)
                e = en.TimeEvolutionEngine(mm, fields(s['fields'], us), os.path.join(d, 'z'))
                sign = sign * np.vdot(before, dense(e.mps)) / np.linalg.norm(before) / np.linalg.norm(dense(e.mps))
                last = None
            c.impl_steps += 1
            w = v0.reshape(ds)
            for q in range(N):
                g = (us[q] * np.exp(1j * np.pi / 4 * np.array(s['x'][q]))).dot(us[q].conj().T)
                w = np.moveaxis(np.tensordot(g, w, ([1], [q])), 0, q)
            w = sign * w.ravel()
            v = dense(e.mps)
            if s['op'] in ('tdvp', 'tebd') and abs(np.linalg.norm(v) - 1) > 1e-6:
                return 'norm', '%s: norm %s' % (where, np.linalg.norm(v))
            v = v / np.linalg.norm(v)
            if np.max(np.abs(v - w)) > 2e-6:
                return 'precession', '%s (%s): state off by %.2e, as a ray by %.2e' % (where, solver, np.max(np.abs(v - w)), 1 - abs(np.vdot(v, w)))
            c.count('precession:%s:%s' % (s['op'], 'product' if k == 1 else 'full' if full else 'sum'))
    return None


def each(c, docs, f, what):
    def one(i, b):
        try:
            with guarded(120):
                r = f(c, i, b)
        except Exception as ex:
            r = ('exception', repr(ex)[:200])
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
        c.traces += 1
        if r:
            c.violation(r[0], '%s history %d (N=%d): %s' % (what, i, b['N'], r[1]), dict(history=b, index=i))
    c.each(docs, one)


def run(c):
    c.bfs('Evolution', R.CFG % (2, 4 if c.quick else 5, 3, 'FALSE', '"tdvp"', 'FALSE', '"f","b","r"'), workers=4)
    docs, _ = c.tlc('Evolution', R.CFG % (4, 3, 3, 'TRUE', '"tdvp"', 'FALSE', '"f","b","r"'), simulate=40 if c.quick else 500, depth=400)
    R.replay(c, docs, solvers=('LAN', 'RK45', 'SEXPMV', 'RK23', 'BDF'))
    docs, _ = c.tlc('Sweep', SWCFG % ('2,3,4,5', 4), simulate=40 if c.quick else 400, depth=400, seed=c.seed + 15)
    each(c, docs, lambda c, i, b: c12.Run(c, i, b).run(), 'schedule')
    docs, _ = c.tlc('Mirror', MCFG % ('2,3,4', 4, 3), simulate=24 if c.quick else 300, depth=30)
    each(c, docs, lambda c, i, b: mirror(c, i, b, 4), 'mirror')
    c.bfs('Precession', PCFG % ('1, 2', 4, 'FALSE'), workers=4, defs=dict(RunN='1..2', RunF='{-1, 0, 3}', RunA='{1}'))
    docs, _ = c.tlc('Precession', PCFG % ('2, 3', 6, 'TRUE'), simulate=72 if c.quick else 1000, depth=30,
                    defs=dict(RunN='2..5', RunF='-3..3', RunA='-2..2'))
    each(c, docs, precess, 'precession')
    c.bfs('Reverse', RCFG % (4, 'FALSE'), workers=4, defs=dict(RunT='{-1, 1, 2}'))
    docs, _ = c.tlc('Reverse', RCFG % (6, 'TRUE'), simulate=48 if c.quick else 800, depth=30, defs=dict(RunT='{-2, -1, 1, 2}'))
    each(c, docs, reverse, 'reversal')
