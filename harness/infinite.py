"""Decodes specs/Markov.tla: infinite states with exactly known physics."""
from hlib import *

CFG = '''CONSTANTS
  CellLens <- RunN
  Levels <- RunD
  Laps <- RunM
  MaxOps = %d
  MaxLabels = %d
 Home = %d
  Kinds <- RunKinds
SPECIFICATION Spec
INVARIANTS Flow Laps1 GaugeOK LabelsOK Stationary Marginal FixPair CentreOK
'''


def simulate(c, num, ops, kinds, seed_off=0, N='1..3', D='1..3', M='4..6', labels=5, depth=60, home=0):
    docs, _ = c.tlc('Markov', CFG % (ops, labels, home), simulate=num, depth=depth, seed=c.seed + seed_off,
                    defs=dict(RunN='{%s}' % N if '..' not in N else N, RunD=D, RunM=M, RunKinds='{%s}' % ', '.join('"%s"' % k for k in kinds)))
    return docs


def exact_tensors(b, keep=None):
    """the tensors of the walk in the gauge where the right fixed point is 1 (levels as basis)"""
    out = []
    for n in range(b['N']):
        F = np.array(b['F'][n], float)
        w = np.array(b['w'][n], float)
        A = np.zeros(F.shape + (b['d'][n],), complex)
        for i in range(F.shape[0]):
            for j in range(F.shape[1]):
                s = b['lab'][n][i][j]
                if s:
                    A[i, j, s - 1] = 1j ** b['ph'][n][i][j] * np.sqrt(F[i, j] / w[i])
        if keep is not None:
            A = A[np.ix_([a - 1 for a in keep[n]], [a - 1 for a in keep[(n + 1) % b['N']]])]
        out.append(A)
    return out


def rotations(b, rng, real):
    us = []
    for n in range(b['N']):
        d = b['d'][n]
        m = rng.randn(d, d) + (0 if real else 1j * rng.randn(d, d))
        us.append(np.linalg.qr(m)[0])
    return us


def rotate(ts, us):
    return [np.tensordot(t, u, ([2], [1])) for t, u in zip(ts, us)]      # new physical index = row of u


def gauged(b, us, scale=None):
    """what the caller hands to the library"""
    N = b['N']
    X = [gmat(x) for x in b['X']]
    Xi = [gmat(x) for x in b['Xi']]
    out = []
    for n, t in enumerate(rotate(exact_tensors(b), us)):
        t = np.tensordot(Xi[n], t, ([1], [0]))
        t = np.tensordot(t, X[(n + 1) % N], ([1], [0])).transpose(0, 2, 1)
        out.append(t * (1.0 if scale is None else scale[n]))
    return out


def is_real(b):
    return all(p % 2 == 0 for s in b['ph'] for r in s for p in r) and all(z[1] == 0 for x in b['X'] for r in x for z in r)


def transfer(t):
    """E[(a,a'),(b,b')] with the first index on the unconjugated layer"""
    e = np.einsum('abs,cds->acbd', t, t.conj())
    return e.reshape(t.shape[0] ** 2, t.shape[1] ** 2)


def fixed(ts):
    """eigenvalue per cell and left/right fixed points l, r at the cell boundary with <l,r>=1; gap"""
    E = None
    for t in ts:
        e = transfer(t)
        E = e if E is None else E.dot(e)
    v = np.linalg.eigvals(E)                 # eigenvectors from null spaces (the non-symmetric eigenvector routine is inaccurate here)
    i = np.argmax(np.abs(v))
    u, sv, vh = np.linalg.svd(E - v[i] * np.eye(len(E)))
    r, l = vh[-1].conj(), u[:, -1].conj()
    l = l / np.dot(l, r)
    o = np.sort(np.abs(v))[::-1]
    return v[i], l, r, (o[1] / o[0] if len(o) > 1 else 0.0)


class Physics:
    """all normalised local physics of an infinite cell given as a list of tensors"""
    def __init__(self, ts):
        self.ts = [np.asarray(t) for t in ts]
        self.N = len(ts)
        self.eta, self.l, self.r, self.gap = fixed(self.ts)

    def block(self, n, k):
        """reduced density matrix of sites n..n+k-1 (any n >= 0)"""
        D = int(round(np.sqrt(len(self.l))))
        x = self.l.reshape(D, D)[:, :, None, None]           # a a' s s'
        for i in range(n % self.N):
            x = self.step(x, self.ts[i], False)
        cells = 1
        for i in range(n % self.N, n % self.N + k):
            if i and i % self.N == 0:
                cells += 1
            x = self.step(x, self.ts[i % self.N], True)
        i = n % self.N + k
        while i % self.N:
            x = self.step(x, self.ts[i % self.N], False)
            i += 1
        rho = np.tensordot(x, self.r.reshape(D, D), ([0, 1], [0, 1])) / self.eta ** cells
        return rho

    @staticmethod
    def step(x, t, opened):
        if opened:
            y = np.einsum('acij,abs,cdt->bdisjt', x, t, t.conj())
            s = y.shape
            return y.reshape(s[0], s[1], s[2] * s[3], s[4] * s[5])
        return np.einsum('acij,abs,cds->bdij', x, t, t.conj())

    def one(self, n, op):
        return np.trace(self.block(n, 1).dot(op.T))

    def same(self, other, extra=1):
        """largest deviation of the reduced density matrices of all windows one site longer than the cell"""
        dev = 0.0
        for n in range(self.N):
            k = 1
            size = 1
            while k <= self.N + 1 + extra:
                size *= self.ts[(n + k - 1) % self.N].shape[2]
                if size > 90:
                    break
                a, b = self.block(n, k), other.block(n, k)
                if a.shape != b.shape:
                    return np.inf
                dev = max(dev, float(np.max(np.abs(a - b))))
                k += 1
        return dev


def cell(x):
    """one cell of an infinite state, centre matrix and connector included"""
    ts = [np.asarray(t) for t in x._tensors]
    p, m, k = x._position, np.asarray(x._mat), np.asarray(x._connector)
    ts = [t.copy() for t in ts]
    if p < len(ts):
        ts[p] = np.tensordot(m, ts[p], ([1], [0]))
    else:
        ts[-1] = np.tensordot(ts[-1], m, ([1], [0])).transpose(0, 2, 1)
    ts[-1] = np.tensordot(ts[-1], k, ([1], [0])).transpose(0, 2, 1)
    return ts


def left_dev(t):
    m = np.tensordot(t, t.conj(), ([0, 2], [0, 2]))
    return float(np.max(np.abs(m - np.eye(len(m)))))


def right_dev(t):
    m = np.tensordot(t, t.conj(), ([1, 2], [1, 2]))
    return float(np.max(np.abs(m - np.eye(len(m)))))


def schmidt(b, n):
    """exact Schmidt values of bond n (0..N), descending"""
    return np.sort(np.sqrt(np.array(b['w'][n % b['N']], float) / b['M']))[::-1]


def check_exact(b, ph, us):
    """the spec's numbers against a Physics object; returns a description or None"""
    N = b['N']
    for o in b['one']:
        n = o['n'] - 1
        op = (us[n] * np.array(o['f'], float)).dot(us[n].conj().T)
        got = np.trace(ph.block(n, 1).dot(op.T.conj().T)) if False else np.einsum('st,ts->', ph.block(n, 1), op)
        want = o['v']['num'] / float(o['v']['den'])
        if abs(got - want) > 1e-7 * max(1, abs(want)):
            return 'one-point function of site %d is %s, exact %s' % (n, got, want)
    for o in b['two']:
        n, k = o['n'] - 1, o['k']
        m = (n + k) % N
        f = (us[n] * np.array(o['f'], float)).dot(us[n].conj().T)
        g = (us[m] * np.array(o['g'], float)).dot(us[m].conj().T)
        mid = np.eye(1)
        for i in range(n + 1, n + k):
            mid = np.kron(mid, np.eye(b['d'][i % N]))
        op = np.kron(np.kron(f, mid), g)
        if op.shape[0] > 150:
            continue
        got = np.einsum('st,ts->', ph.block(n, k + 1), op)
        want = o['v']['num'] / float(o['v']['den'])
        if abs(got - want) > 1e-7 * max(1, abs(want)):
            return 'correlator of sites %d,%d is %s, exact %s' % (n, n + k, got, want)


def mpo(b, us):
    """matrix product operator of the classical nearest-neighbour Hamiltonian (last row (u, f, 1))"""
    out = []
    for n in range(b['N']):
        d = b['d'][n]
        mk = lambda t: (us[n] * np.array(t, float)).dot(us[n].conj().T).T    # [in, out]
        W = np.zeros((3, 3, d, d), complex)
        W[0, 0] = np.eye(d)
        W[1, 0] = mk(b['ham']['g'][n])
        W[2, 0] = mk(b['ham']['u'][n])
        W[2, 1] = mk(b['ham']['f'][n])
        W[2, 2] = np.eye(d)
        out.append(W)
    return out


def energy(b):
    return sum(e['site']['num'] / e['site']['den'] + e['bond']['num'] / e['bond']['den'] for e in b['ham']['e'])


def energy_of(ph, b, us):
    """value per cell of the classical Hamiltonian in any infinite state with the same physical legs"""
    N, e = b['N'], 0.0
    for n in range(N):
        m = (n + 1) % N
        mk = lambda j, t: (us[j] * np.array(t, float)).dot(us[j].conj().T)
        e += np.einsum('st,ts->', ph.block(n, 1), mk(n, b['ham']['u'][n]))
        e += np.einsum('st,ts->', ph.block(n, 2), np.kron(mk(n, b['ham']['f'][n]), mk(m, b['ham']['g'][m])))
    return e


def canonical(b, us, side, rng, real):
    """the cell with left ('L') or right ('R') orthonormal tensors and unitary freedom on the bonds, exactly;
    also the fixed point (trace one) of the other side at the closing bond"""
    N = b['N']
    ts = exact_tensors(b)
    w = [np.array(b['w'][n], float) for n in range(N)]
    if side == 'L':
        ts = [t * np.sqrt(w[n])[:, None, None] / np.sqrt(w[(n + 1) % N])[None, :, None] for n, t in enumerate(ts)]
    V = []
    for n in range(N):
        D = b['D'][n]
        V.append(np.linalg.qr(rng.randn(D, D) + (0 if real else 1j * rng.randn(D, D)))[0])
    out = [np.einsum('ba,bcs,cd->ads', V[n].conj(), t, V[(n + 1) % N]) for n, t in enumerate(rotate(ts, us))]
    p = np.diag(w[0] / b['M'])
    # right fixed point x -> V^+ x V ; left one x -> V^T x V*
    fix = V[0].conj().T.dot(p).dot(V[0]) if side == 'L' else V[0].T.dot(p).dot(V[0].conj())
    return out, fix
