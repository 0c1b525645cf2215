import replay_reg
from hlib import *
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as ham


def ten(t, real):            # [s][i][j] -> (Dl,Dr,d)
    return gmat(t, real).transpose(1, 2, 0)


def env(e, real):            # [a][i][i'] -> (D,D',M)
    return maybe_real(gmat(e)).transpose(1, 2, 0)


class Case:
    def __init__(self, b):
        self.b = b
        real = self.real = not b['cplx']
        self.N = b['N']
        self.A = [ten(t, real) for t in b['A']]
        self.B = [ten(t, real) for t in b['B']]
        self.W = [maybe_real(gmat(w)) for w in b['W']]
        self.L = [env(x, real) for x in b['L']]
        self.R = [env(x, real) for x in b['R']]
        self.eff = [ten(t, False) for t in b['eff']]
        self.value = G(b['value'])

    def blocks(self):
        A, B, W, L, R, N = self.A, self.B, self.W, self.L, self.R, self.N
        for n in range(N):
            if not close(mf.addLayer(L[n], A[n], W[n], B[n], 1), L[n + 1]):
                return 'addLayer', 'layer %d added from the left' % n
            if not close(mf.addLayer(R[N - 1 - n], A[n], W[n], B[n], -1), R[N - n]):
                return 'addLayer', 'layer %d added from the right' % n
        for i in range(N):
            for j in range(i, N):
                if not close(mf.contractMPO(A, B, W, L[i], i, j, 1), L[j + 1]):
                    return 'contractMPO', 'sites %d..%d from the left' % (i, j)
                if not close(mf.contractMPO(A, B, W, R[N - 1 - j], i, j, -1), R[N - i]):
                    return 'contractMPO', 'sites %d..%d from the right' % (i, j)
        k = self.b['cut']
        v = np.tensordot(L[k], R[N - k], ([0, 1, 2], [0, 1, 2]))
        if not close(v, self.value):
            return 'model', 'harness disagrees with the model'
        if self.b['kind'] == 'id':
            for n in range(N):
                if not close(mf.addELayer(L[n], A[n], B[n], 1), L[n + 1]) or not close(mf.addELayer(R[N - 1 - n], A[n], B[n], -1), R[N - n]):
                    return 'addELayer', 'layer %d' % n
            for i in range(N):
                for j in range(i, N):
                    if not close(mf.contractE(A, B, L[i], i, j, 1), L[j + 1]) or not close(mf.contractE(A, B, R[N - 1 - j], i, j, -1), R[N - i]):
                        return 'contractE', 'sites %d..%d' % (i, j)
        if self.b['kind'] in ('same', 'eff'):
            gl, gr = mf.getL(A, W, L[0]), mf.getR(A, W, R[0])
            if len(gl) != N or len(gr) != N or any(not close(gl[n], L[n + 1]) or not close(gr[n], R[n + 1]) for n in range(N)):
                return 'getLR', 'lists of blocks'
            if not close(mf.getUCL(A, W, L[0]), L[N]) or not close(mf.getUCR(A, W, R[0]), R[N]):
                return 'getUC', 'unit-cell blocks'

    def effective(self):
        A, B, W, L, R, N = self.A, self.B, self.W, self.L, self.R, self.N
        for n in range(N):
            l, r = L[n], R[N - 1 - n]
            x = mf.HAproductSingleSiteMPS(l, W[n], r, A[n])
            if not close(x, self.eff[n]) or not close(mf.contractionH(l, A[n], W[n], r), self.eff[n]):
                return 'one-site', 'site %d' % n
            if not close(np.tensordot(x, B[n].conj(), ([0, 1, 2], [0, 1, 2])), self.value):
                return 'one-site', 'site %d does not close to the matrix element' % n
            if self.eff[n].shape == A[n].shape:
                y = mf.HAproductSingleSite(l, W[n], r, A[n].reshape(-1))
                if not close(y, self.eff[n].reshape(-1)):
                    return 'one-site', 'vectorised product at site %d' % n
        k = self.b['cut']
        if self.b['bond']:
            X = gmat(self.b['X'], self.real)
            want = gmat(self.b['bond'])
            l, r = L[k], R[N - k]
            got = [mf.HAproductBondMatrix(l, r, X), mf.applyHbond(l, r, X), mf.HAproductBond(l, r, X.reshape(-1)).reshape(X.shape),
                   mf.HAproductZeroSiteMat(L[k - 1], W[k - 1], A[k - 1], r, 'right', X),
                   mf.HAproductZeroSite(L[k - 1], W[k - 1], A[k - 1], r, 'right', X.reshape(-1)).reshape(X.shape)]
            if k < N:
                got += [mf.HAproductZeroSiteMat(l, W[k], A[k], R[N - k - 1], 'left', X),
                        mf.HAproductZeroSite(l, W[k], A[k], R[N - k - 1], 'left', X.reshape(-1)).reshape(X.shape)]
            for i, g in enumerate(got):
                if not close(g, want):
                    return 'bond', 'zero-site product %d at bond %d' % (i, k)

    def apply(self):
        if not self.b['applied']:
            return
        want = gvec(self.b['applied'])
        src = [a.copy() for a in self.A]
        out = mf.applyMPO(src, self.W)
        x = dense_tensors(out)
        if x.shape != (1, len(want), 1) or not close(x[0, :, 0], want):
            return 'applyMPO', 'operator times tensor list'
        if any(not np.array_equal(p, q) for p, q in zip(src, self.A)):
            return 'applyMPO', 'out-of-place product changed its input'
        mf.applyMPO(src, self.W, inplace=True)
        if not close(dense_tensors(src)[0, :, 0], want):
            return 'applyMPO', 'in-place product'
        if not np.any(want) or self.N < 2:
            return
        s = mpslib.MPS.fromList(self.A)
        v = dense(s)
        if np.linalg.norm(v) < 0.5:
            return
        nrm = np.linalg.norm(dense_tensors(self.A))
        s.position(self.b['cut'])
        s.applyMPO(ham.MPO.fromlist(self.W))
        if not close(dense(s) * nrm, want):
            return 'MPS.applyMPO', 'operator applied to a state: %s expected %s' % (np.round(dense(s)[:5] * nrm, 5), want[:5])
        p = self.N - self.b['cut']
        s.position(0)
        s.position(p)
        if not close(dense(s) * nrm, want):
            return 'MPS.applyMPO', 'state after the operator changes when its centre moves'
        if list(s.d) != list(self.b['db']):
            return 'MPS.applyMPO', 'local dimensions %s' % s.d

    def local(self):
        """the function forms of local measurements, against the blocks of the identity"""
        if self.b['kind'] != 'id':
            return
        A, B, L, R, N = self.A, self.B, self.L, self.R, self.N
        rng = np.random.RandomState(1)
        one = np.ones((1, 1, 1))
        ops = [rng.randint(-2, 3, (d, d)) + (0 if self.real else 1j * rng.randint(-2, 3, (d, d))) for d in self.b['dk']]
        ops = [o.astype(float if self.real else complex) for o in ops]
        vA, vB = dense_tensors(A)[0, :, 0], dense_tensors(B)[0, :, 0]
        d = self.b['dk']
        want = []
        for n in range(N):
            full = np.kron(np.kron(np.eye(int(np.prod(d[:n]))), ops[n]), np.eye(int(np.prod(d[n + 1:]))))
            want.append((np.dot(vA.dot(full), vB.conj()), np.dot(vA.dot(full), vA.conj())))
        got = mf.matrixElementLocal(A, B, ops, one, one)
        if not close(got, np.array([w[0] for w in want])):
            return 'matrixElementLocal', 'got %s expected %s' % (got, [w[0] for w in want])
        n2 = np.vdot(vA, vA).real
        if n2 < 0.5:
            return
        for n in range(N):
            g = mf.measure(ops[n][None, None], one, one, A, n)
            if not close(g, want[n][1] / n2):
                return 'measure', 'site %d: got %s expected %s' % (n, g, want[n][1] / n2)
        s = mpslib.MPS.fromList(A)
        e = np.array([w[1] for w in want]) / n2
        s.position(0)
        tl = s.tolist()
        for ts, o in ((tl, 'right'),):
            if not close(mf.measureLocal(ts, ops, one, one, o), e):
                return 'measureLocal', '%s-orthonormal list' % o
        s.position(N)
        if not close(mf.measureLocal(s.tolist(), ops, one, one, 'left'), e):
            return 'measureLocal', 'left-orthonormal list'


def run(c):
    cfg = '''CONSTANTS
  Ns = {2, 3, 4}
  Entries <- RunE
  KBonds = {1, 2, 3}
  WBonds = {1, 2, 3}
  Kinds = {"obc", "same", "id", "gen", "eff"}
SPECIFICATION Spec
INVARIANTS OneSiteValue ZeroSiteValue
'''
    docs, _ = c.tlc('Environment', cfg, simulate=130 if c.quick else 3000, depth=12, defs=dict(RunE='{-1, 0, 1}'), timeout=900)
    for b in docs:
        case = Case(b)
        for f in ('blocks', 'effective', 'apply', 'local'):
            try:
                with guarded(60):
                    bad = getattr(case, f)()
            except Exception as ex:
                bad = f, 'raised %s: %s' % (type(ex).__name__, str(ex)[:200])
            c.impl_steps += 1
            if bad:
                if bad[0] == 'model':
                    raise AssertionError(bad[1])
                c.violation('%s:%s' % (f, bad[0]), '%s N=%d cut=%d: %s' % (b['kind'], b['N'], b['cut'], bad[1]), b)
        c.count(b['kind'])
        c.traces += 1
        if c.too_many():
            break
    c.sample({k: docs[0][k] for k in ('kind', 'N', 'dk', 'db', 'cut', 'value')})
