from hlib import *

CFG = '''CONSTANTS
  MaxFactors = %d
  MaxSteps = %d
SPECIFICATION Spec
INVARIANTS EigenOK KrylovOK
'''


class Op:
    def __init__(self, H):
        self.H, self.calls = H, 0

    def __call__(self, v):
        self.calls += 1
        return self.H.dot(v.reshape(-1)).reshape(v.shape)


def exponential(c, H, v0, want, dt, salt, where):
    """the general propagator, on the operator and on copies of it side by side"""
    import lib.mpslib.sexpmv as sx
    from scipy.sparse.linalg import LinearOperator
    k = [1, 3, 4, 8][salt % 4]
    rng = np.random.RandomState(salt)
    u = np.linalg.qr(rng.randn(k, k))[0][0]
    fac, t = (1.0, dt.real) if dt.imag == 0 else (np.exp(1j * np.angle(dt)), abs(dt))
    n = len(H)
    big = np.kron(fac * H, np.eye(k))
    op = LinearOperator((n * k, n * k), matvec=lambda x: big.dot(x), dtype=np.result_type(big, v0))
    v = np.kron(v0, u).astype(op.dtype)
    keep = v.copy()
    with guarded(30):
        got, conv = sx.gexpmv(op, v, t, anorm=1.0)[:2]
    if not np.array_equal(keep, v):
        return 'exponential-input', where + ' general propagator changed its input'
    if not conv:
        return 'exponential-incomplete', '%s: general propagator (dimension %d) stopped half way' % (where, n * k)
    if not close(np.asarray(got), np.kron(want, u), 1e-5, scale=max(np.linalg.norm(want), np.linalg.norm(v0))):
        return 'exponential-value', '%s: general propagator (dimension %d) deviates by %.2e' % (where, n * k, np.max(np.abs(got - np.kron(want, u))))
    c.count('exponential:%s' % ('krylov' if n * k > 20 else 'small'))


def run_beh(b, c):
    import lib.Lanczos.LanczosEngine as lz
    H = maybe_real(gmat(b['M'])) / b['S']
    W = gmat(b['W'])
    lam, cc = np.array(b['lam'], float), gvec(b['c'])
    n = len(lam)
    state = lambda T: W.dot(cc * np.exp(lam * complex(*T) / 10.0))
    shape = (2, n // 2) if len(b['log']) % 2 and n > 2 else (n,)
    dot = np.dot if len(shape) == 1 else (lambda a, x: np.sum(a * x))
    scale = max(1.0, np.max(np.abs(lam)))
    for k, e in enumerate(b['log']):
        where = 'call %d %s on dimension %d (krylov dimension %d)' % (k, {x: y for x, y in e.items() if x != 'spectrum'}, n, e['kdim'])
        op = Op(H)
        if e['op'] == 'solve':
            v0 = maybe_real(state(e['T'])).reshape(shape)
            keep = v0.copy()
            try:
                with guarded(30):
                    eng = lz.LanczosEngine(op, dot, np.zeros, e['Ndiag'], e['ncv'], e['numeig'], 1e-8, 1e-11)
                    eta, vs, conv = eng.__simulate__(v0, reortho=e['reortho'])
            except Exception as ex:
                return 'solve-raises', where + ' raised %s: %s' % (type(ex).__name__, str(ex)[:200])
            if not np.array_equal(keep, v0):
                return 'solve-input', where + ' changed its initial state'
            if not np.all(np.isfinite(eta)) or not all(np.all(np.isfinite(v)) for v in vs):
                return 'solve-invalid', where + ' returned non-finite numbers'
            if eta[0] < e['spectrum'][0] - 1e-8 * scale:
                return 'solve-below', where + ' eigenvalue %r below the lowest %r' % (eta[0], e['spectrum'][0])
            if any(eta[i] > eta[i + 1] + 1e-12 for i in range(len(eta) - 1)):
                return 'solve-order', where + ' eigenvalues not ascending: %s' % eta
            exhausted = e['kdim'] <= e['ncv'] + 1
            for i, v in enumerate(vs):
                x = np.asarray(v).reshape(-1)
                if abs(np.linalg.norm(x) - 1) > 1e-9:
                    return 'solve-norm', where + ' vector %d has norm %r' % (i, np.linalg.norm(x))
                if abs(x.conj().dot(H.dot(x)) - eta[i]) > 1e-7 * scale:
                    return 'solve-ritz', where + ' value %r but <v|H|v> = %r' % (eta[i], x.conj().dot(H.dot(x)))
                if exhausted and np.linalg.norm(H.dot(x) - eta[i] * x) > 1e-6 * scale:
                    return 'solve-eigen', where + ' pair %d: residual %.3g' % (i, np.linalg.norm(H.dot(x) - eta[i] * x))
            if len(eta) < min(e['numeig'], e['kdim']) or len(vs) != len(eta):
                return 'solve-count', where + ' returned %d values, %d vectors' % (len(eta), len(vs))
            if exhausted:
                want = np.array(e['spectrum'][:len(eta)], float)
                if len(eta) != min(e['numeig'], e['kdim']) or np.max(np.abs(eta - want)) > 1e-7 * scale:
                    return 'solve-value', where + ' eigenvalues %s, exact %s' % (eta, want)
                if e['kdim'] <= e['ncv'] and not conv:
                    return 'solve-flag', where + ' not flagged as converged on an invariant subspace'
            if op.calls > min(e['kdim'], e['ncv'] + 1) + 2:
                return 'solve-long', where + ' needed %d operator applications' % op.calls
        else:
            dt = complex(*e['dt']) / 10.0
            if dt.imag == 0:
                dt = dt.real
            v0 = maybe_real(state(e['T0'])).reshape(shape)
            keep = v0.copy()
            try:
                with guarded(30):
                    eng = lz.LanczosTimeEvolution(op, dot, np.zeros, ncv=e['ncv'], delta=1e-10)
                    v = np.asarray(eng.__doStep__(v0, dt))
            except Exception as ex:
                return 'prop-raises', where + ' raised %s: %s' % (type(ex).__name__, str(ex)[:200])
            if not np.array_equal(keep, v0):
                return 'prop-input', where + ' changed its input'
            if v.shape != v0.shape:
                return 'prop-shape', where + ' shape %s -> %s' % (v0.shape, v.shape)
            if e['dt'][0] == 0 and abs(np.linalg.norm(v) / np.linalg.norm(v0) - 1) > 1e-8:
                return 'prop-norm', where + ' norm changed by a factor %r' % (np.linalg.norm(v) / np.linalg.norm(v0))
            if e['exact'] and not close(v.reshape(-1), state(e['T']), 1e-7, scale=np.linalg.norm(state(e['T']))):
                return 'prop-value', where + ' deviates from the exact exponential by %.3g' % np.max(np.abs(v.reshape(-1) - state(e['T'])))
            r = exponential(c, H, v0.reshape(-1), state([x + y for x, y in zip(e['T0'], e['dt'])]), complex(*e['dt']) / 10.0, k + n + len(cc), where)
            if r:
                return r
        c.impl_steps += 1
        c.count(e['op'] + ('' if e['op'] == 'solve' else ':exact' if e['exact'] else ':truncated'))


def run(c):
    docs, _ = c.tlc('Krylov', CFG % (3, 8), simulate=250 if c.quick else 4000, depth=12)
    def f(i, b):
        r = run_beh(b, c)
        c.traces += 1
        if r:
            c.violation(r[0], r[1], b)
    c.each(docs, f)
    c.sample(dict(dim=len(docs[0]['lam']), lam=docs[0]['lam'], S=docs[0]['S'], log=docs[0]['log'][:3]))
