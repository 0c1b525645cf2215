"""Records the local updates an engine performs by wrapping the solver functions it calls
(module attributes of lib.mpslib.mpsfunctions).  Each record holds the arguments' blocks compared
with blocks rebuilt here from the engine's current tensors; nothing in the repository is changed.
If the code under test reaches its solvers by another route, no records appear and callers fall
back to judging results only."""
import contextlib
from hlib import *
import scipy.linalg as sla
import lib.mpslib.mpsfunctions as mf

SOLVERS = ('eigsh', 'lanczos', 'lobpcg')
EVOT = ('evolveTensorLan', 'evolveTensorsolve_ivp', 'evolveTensorSexpmv')
EVOB = ('evolveMatrixLan', 'evolveMatrixsolve_ivp', 'evolveMatrixSexpmv')


def addL(L, A, W):
    x = np.tensordot(L, A, ([0], [0]))                 # D', M, Dr, s
    x = np.tensordot(x, W, ([1, 3], [0, 2]))           # D', Dr, Mr, s'
    return np.tensordot(x, np.conj(A), ([0, 3], [0, 2])).transpose(0, 2, 1)


def addR(R, A, W):
    x = np.tensordot(A, R, ([1], [0]))                 # Dl, s, D', M
    x = np.tensordot(x, W, ([3, 1], [1, 2]))           # Dl, D', Ml, s'
    return np.tensordot(x, np.conj(A), ([1, 3], [1, 2])).transpose(0, 2, 1)


def heff(L, W, R):
    """effective one-site operator acting on vectors reshape(Dl,Dr,s)"""
    d = W.shape[2]
    x = np.tensordot(L, W, ([2], [0]))                 # a a' Mr s s'
    x = np.tensordot(x, R, ([2], [2]))                 # a a' s s' b b'
    n = L.shape[0] * R.shape[0] * d
    m = L.shape[1] * R.shape[1] * d
    return x.transpose(1, 5, 3, 0, 4, 2).reshape(m, n)  # rows: bra indices a' b' s'; columns: ket a b s


def hbond(L, R):
    x = np.tensordot(L, R, ([2], [2]))                 # a a' b b'
    return x.transpose(1, 3, 0, 2).reshape(L.shape[1] * R.shape[1], L.shape[0] * R.shape[0])


def two(W1, W2):
    x = np.tensordot(W1, W2, ([1], [0]))               # Ml s s' Mr t t'
    x = x.transpose(0, 3, 1, 4, 2, 5)
    return x.reshape(x.shape[0], x.shape[1], x.shape[2] * x.shape[3], x.shape[4] * x.shape[5])


class Spy:
    def __init__(self, engine):
        self.e = engine
        self.ev = []
        self.e_seen = False

    def tensors(self):
        return [np.asarray(self.e.mps[n]) for n in range(len(self.e.mps))]

    def blocks(self):
        A, W, N = self.tensors(), [np.asarray(self.e._mpo[n]) for n in range(len(self.e.mps))], len(self.e.mps)
        lb = getattr(self.e, '_lb', np.ones((1, 1, 1)))
        rb = getattr(self.e, '_rb', np.ones((1, 1, 1)))
        L, R = [lb], [rb]
        for n in range(N):
            L.append(addL(L[-1], A[n], W[n]) if L[-1] is not None and L[-1].shape[0] == A[n].shape[0] else None)
        for n in range(N - 1, -1, -1):
            R.append(addR(R[-1], A[n], W[n]) if R[-1] is not None and R[-1].shape[0] == A[n].shape[1] else None)
        return W, L, R

    def same(self, x, y):
        return y is not None and x.shape == y.shape and close(x, y, 1e-8)

    def tensor_event(self, L, mpo, R, x):
        """-> (kind, candidate sites (1-based) by operator, sites whose blocks match)"""
        W, Ls, Rs = self.blocks()
        N = len(W)
        cand, fresh = [], []
        kind = None
        for n in range(N):
            if mpo.shape == W[n].shape and close(mpo, W[n], 1e-12):
                kind = 'u1'
                cand.append(n + 1)
                if self.same(L, Ls[n]) and self.same(R, Rs[N - 1 - n]):
                    fresh.append(n + 1)
        if kind is None:
            for n in range(N - 1):
                t = two(W[n], W[n + 1])
                if t.shape == mpo.shape and close(mpo, t, 1e-12):
                    kind = 'u2'
                    cand.append(n + 1)
                    if self.same(L, Ls[n]) and self.same(R, Rs[N - 2 - n]):
                        fresh.append(n + 1)
        return kind, cand, fresh


@contextlib.contextmanager
def spying(engine, dt=None):
    spy = Spy(engine)
    saved = {k: getattr(mf, k) for k in SOLVERS + EVOT + EVOB if hasattr(mf, k)}

    def weight(H, x, y):
        """the multiple w (in half steps) of dt for which exp(w dt/2 H) x is y, up to normalisation"""
        if dt is None or H.shape[0] > 80:
            return None
        y = y / (np.linalg.norm(y) or 1)
        for w in (1, 2, -1, -2, 0):
            z = sla.expm(w * dt / 2 * H) @ x
            z = z / (np.linalg.norm(z) or 1)
            if np.max(np.abs(z - y)) < 1e-5:
                return w
        return 99

    def wrap(name, f):
        def g(*a, **k):
            try:
                if name in EVOB:
                    L, R, x = [np.asarray(z) for z in a[:3]]
                    W, Ls, Rs = spy.blocks()
                    N = len(W)
                    rec = dict(kind='ub', cand=list(range(1, N)), fresh=[n for n in range(1, N) if spy.same(L, Ls[n]) and spy.same(R, Rs[N - n])])
                else:
                    L, mpo, R, x = [np.asarray(z) for z in a[:4]]
                    kind, cand, fresh = spy.tensor_event(L, mpo, R, x)
                    rec = dict(kind=kind, cand=cand, fresh=fresh)
            except Exception as ex:
                rec = dict(kind=None, cand=[], fresh=[], error=repr(ex))
            out = f(*a, **k)
            try:
                if name in SOLVERS:
                    H = heff(L, mpo, R) if rec['kind'] else None
                    xx = np.ravel(x)
                    nn = np.vdot(xx, xx).real
                    rec['before'] = (np.vdot(xx, H @ xx) / nn).real if H is not None and nn > 0 else None
                    rec['e'] = float(np.real(out[0]))
                    rec['low'] = float(np.linalg.eigvalsh(H)[0]) if H is not None and H.shape[0] <= 200 else None
                    rec['dims'] = list(np.shape(x))
                elif rec['kind']:
                    H = hbond(L, R) if name in EVOB else heff(L, mpo, R)
                    rec['w'] = weight(H, np.ravel(x), np.ravel(np.asarray(out)))
            except Exception as ex:
                rec['error'] = repr(ex)
            spy.ev.append(rec)
            return out
        return g
    try:
        for k, f in saved.items():
            setattr(mf, k, wrap(k, f))
        yield spy
    finally:
        for k, f in saved.items():
            setattr(mf, k, f)


def recognised(spy):
    """True if every recorded update could be located on the chain"""
    return bool(spy.ev) and all(r['kind'] and r['cand'] for r in spy.ev)


def compare(spy, expected):
    """expected: [[kind, site, weight], ..]; None if the recorded updates are those, with matching blocks"""
    if not recognised(spy):
        return None
    ev = spy.ev
    if {k for k, _, _ in expected} - {r['kind'] for r in ev}:
        return None                    # one kind of update takes a route that is not recorded
    for i, (kind, site, w) in enumerate(expected):
        if i >= len(ev):
            return 'schedule', 'only %d of the %d local updates were made' % (len(ev), len(expected))
        r = ev[i]
        if r['kind'] != kind or site not in r['cand']:
            return 'schedule', 'update %d is of kind %s at %s instead of %s at %s' % (i, r['kind'], r['cand'], kind, site)
        if site not in r['fresh']:
            return 'stale', 'update %d (%s at %s) used environments that differ from those of the current tensors' % (i, kind, site)
        if w != 0 and r.get('w') is not None and r['w'] != w:
            return 'weight', 'update %d (%s at %s) evolved by %s half steps instead of %s' % (i, kind, site, r['w'], w)
    if len(ev) > len(expected):
        return 'schedule', '%d local updates were made instead of %d' % (len(ev), len(expected))
    return None
