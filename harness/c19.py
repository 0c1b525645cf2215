"""C19: the growing search against specs/Insertion.tla (couplings, environments and reported energies to the digit),
one insertion of arbitrary states against the explicit doubled chain, and convergence of both infinite searches to the
exactly known ground states of specs/Markov.tla (parent Hamiltonians) and of free fermions."""
from hlib import *
import copy
import infinite as inf
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.engines as en
import lib.mpslib.Hamiltonians as HH

CFG = '''CONSTANTS
  Ns = {2, 3, 4, 5}
  MaxCalls = %d
  MaxIter = 4
  Values <- RunV
SPECIFICATION Spec
INVARIANTS Crystal CellKept Even Reported
PROPERTY Increment
'''


class Bad(Exception):
    def __init__(self, key, what):
        Exception.__init__(self, what)
        self.key = key


def need(ok, key, what):
    if not ok:
        raise Bad(key, what)


class Heard:
    """what the engine reports"""
    def __init__(self):
        self.s = io.StringIO()

    def write(self, x):
        self.s.write(x)

    def flush(self):
        pass

    def energies(self):
        return [float(x) for x in re.findall(r'E/N=\s*(-?[0-9.]+)', self.s.getvalue())]


@contextlib.contextmanager
def listening():
    old, h = en.stdout, Heard()
    en.stdout = h
    try:
        yield h
    finally:
        en.stdout = old


# ---------------------------------------------------------------- the crystal
def crystal(b, rng, real):
    """operator and product ground state of the model, locally rotated"""
    N, W, A, P = b['N'], [], [], []
    for i in range(N):
        d = b['d'][i]
        v = np.linalg.qr(rng.randn(d, d) + (0 if real else 1j * rng.randn(d, d)))[0][:, 0]
        A.append(v.reshape(1, 1, d))
        P.append(np.outer(v, v.conj()).T)          # [in, out]
        w = np.zeros((3, 3, d, d), P[-1].dtype)
        w[0, 0] = w[2, 2] = np.eye(d)
        w[1, 0], w[2, 0], w[2, 1] = P[-1], b['u'][i] * P[-1], b['b'][i] * P[-1]
        W.append(w)
    return A, P, W


def absorb(c, b, rng):
    real = bool(rng.randint(2))
    A, P, W = crystal(b, rng, real)
    N = b['N']
    m = mpslib.MPS.fromList([a.copy() for a in A])
    m.position(rng.randint(N + 1))
    with guarded(60):
        e = en.IDMRGengine(m, HH.MPO.fromlist([w.copy() for w in W]), 'nofile')
    for n, o in enumerate(b['out']):
        k = o['c']
        what = '%s(Nmax=%d, NUC=%d, regaugestep=%d) call %d, cell of %d' % (
            'simulateTwoSite' if k['two'] else 'simulate', k['Nmax'], k['NUC'], k['regauge'], n + 1, N)
        with guarded(60), listening() as h:
            f = e.simulateTwoSite if k['two'] else e.simulate
            f(Nmax=k['Nmax'], NUC=k['NUC'], cp=None, verbose=1, solver='LAN', regaugestep=k['regauge'], Econv=1e-12, tol=1e-10)
        said = [x['said'] for x in k['its'] if x['said']['kind'] != 'none']
        got = h.energies()
        need(len(got) == len(said), 'reports', '%s: %d energies reported, expected %d' % (what, len(got), len(said)))
        for g, x in zip(got, said):
            need(abs(g - x['v'] / N) < 1e-8 * 100, 'reported', '%s: reported energy per site %.12f, exact %.12f (%s)' % (what, g, x['v'] / N, x['kind']))
        need(len(e.mps) == N, 'length', '%s: state of length %d' % (what, len(e.mps)))
        for j, i in enumerate(o['cell']):
            need(np.shape(e._mpo[j]) == W[i - 1].shape and close(e._mpo[j], W[i - 1], 1e-12), 'coupling',
                 '%s: the operator at site %d of the cell is not that of site %d' % (what, j, i))
            t = np.asarray(e.mps.tensors[j])
            need(t.shape == (1, 1, b['d'][i - 1]) and abs(abs(np.vdot(A[i - 1], t)) - np.linalg.norm(t)) < 1e-8 * np.linalg.norm(t), 'order',
                 '%s: the state at site %d of the cell is not that of site %d' % (what, j, i))
        lb, rb = np.asarray(e._lb), np.asarray(e._rb)
        pl, pr = P[o['cell'][0] - 2], P[o['cell'][-1] % N]
        for side, x, want in (('left', lb[0, 0, :], [o['left'], b['b'][o['cell'][0] - 2], 1]), ('right', rb[0, 0, :], [1, 1, o['right']])):
            need(lb.shape == (1, 1, 3) and rb.shape == (1, 1, 3), 'environment', what + ': environment shapes %s %s' % (lb.shape, rb.shape))
            need(close(x, np.array(want, float), 1e-8), 'environment', '%s: %s environment %s, the absorbed chain gives %s' % (what, side, x, want))
        c.count('call:%s%s%s' % ('two' if k['two'] else 'one', ':odd' if N % 2 else '', ':regauge' if any(x['fresh'] for x in k['its']) else ''))
        c.impl_steps += len(k['its'])


# ---------------------------------------------------------------- one insertion of an arbitrary state
def block_of(m):
    """what stands between the environments: (left, sites, right)"""
    ts = [np.asarray(t) for t in m._tensors]
    p, mat = m._position, np.asarray(m._mat)
    x = None
    for n in range(len(ts) + 1):
        if n == p:
            x = mat.reshape(mat.shape[0], 1, mat.shape[1]) if x is None else np.tensordot(x, mat, ([2], [0]))
        if n < len(ts):
            t = ts[n].transpose(0, 2, 1)
            x = t if x is None else np.tensordot(x, t, ([2], [0]))
            x = x.reshape(x.shape[0], -1, x.shape[-1])
    return x


def energy_in(lb, ws, rb, x):
    """expectation value of a block between two environments"""
    ds = [w.shape[2] for w in ws]
    y = x.reshape([x.shape[0]] + ds + [x.shape[2]])
    z = np.tensordot(lb, y, ([0], [0]))                    # bra, m, s1.., beta
    z = np.moveaxis(z, 1, -1)                             # bra, s1.., beta, m
    for w in ws:
        z = np.tensordot(z, w, ([1, z.ndim - 1], [2, 0]))  # bra, s2.., beta, n, out
        z = np.moveaxis(z, -1, -3)                        # bra, s2.., out, beta, n
    z = np.tensordot(z, rb, ([z.ndim - 2, z.ndim - 1], [0, 2]))
    return np.vdot(y, z.reshape(y.shape)) / np.vdot(y, y)


def operator_of(hs, ons, ds):
    """unit-cell operator of on-site matrices and two-site matrices (all [in, out]); hs[n] acts on sites n, n+1"""
    N, parts = len(ds), []
    for n in range(N):
        d, e = ds[n], ds[(n + 1) % N]
        u, s, v = np.linalg.svd(hs[n].reshape(d, e, d, e).transpose(0, 2, 1, 3).reshape(d * d, e * e))
        k = max(1, int(np.sum(s > 1e-12)))
        parts.append(((u[:, :k] * np.sqrt(s[:k])).T.reshape(k, d, d), (np.sqrt(s[:k])[:, None] * v[:k]).reshape(k, e, e)))
    W = []
    for n in range(N):
        L, R = parts[n][0], parts[n - 1][1]
        w = np.zeros((len(R) + 2, len(L) + 2, ds[n], ds[n]), np.result_type(*(list(hs) + list(ons))))
        w[0, 0] = w[-1, -1] = np.eye(ds[n])
        w[1:-1, 0], w[-1, 0], w[-1, 1:-1] = R, ons[n], L
        W.append(w)
    return W


def hermitian(n, rng, real):
    x = rng.randn(n, n) + (0 if real else 1j * rng.randn(n, n))
    return (x + x.conj().T) / 2


class Watched(en.IDMRGengine):
    seen = None

    def __update__(self, regauge=False):
        before = (self._lb.copy(), [np.asarray(w).copy() for w in self._mpo], self._rb.copy(), copy.deepcopy(self._mps))
        D = super().__update__(regauge)
        self.seen.append((regauge, before, (self._lb.copy(), [np.asarray(w).copy() for w in self._mpo], self._rb.copy(), copy.deepcopy(self._mps)), self._hl))
        return D


def insertion(c, b, us, rng):
    real = inf.is_real(b)
    N = b['N']
    ts = [t.real.copy() for t in inf.gauged(b, us)] if real else inf.gauged(b, us)
    ds = b['d']
    W = operator_of([hermitian(ds[n] * ds[(n + 1) % N], rng, real) for n in range(N)], [hermitian(d, rng, real) for d in ds], ds)
    m = mpslib.MPS.fromList(ts)
    m.regauge(['left', 'right', 'symmetric'][rng.randint(3)])
    e = Watched(m, HH.MPO.fromlist(W), 'nofile')
    e.seen = []
    two, rg = bool(rng.randint(2)), [0, 0, 2][rng.randint(3)]
    f = e.simulateTwoSite if two else e.simulate
    with listening() as h:
        f(Nmax=2, NUC=1, cp=None, verbose=1, solver='LAN', regaugestep=rg, tol=1e-10)
    k = N // 2
    for n, (regauge, (lb, ws, rb, psi), (lb2, ws2, rb2, psi2), hl) in enumerate(e.seen):
        what = 'insertion %d (%s, regauge=%s, cell of %d)' % (n, 'two-site' if two else 'one-site', regauge, N)
        for w, v in zip(ws[k:] + ws[:k], ws2):
            need(w.shape == v.shape and np.array_equal(w, v), 'coupling', what + ': the operators of the cell are not those of before, cut in the middle and exchanged')
        # is the inserted state well conditioned?
        if np.linalg.cond(psi._connector) > 1e4 or np.linalg.cond(psi2._connector) > 1e4:
            c.count('insertion:singular')
            return
        x, y = block_of(psi), block_of(psi2)
        ph, ph2 = inf.Physics(inf.cell(psi)), inf.Physics(inf.cell(psi2))
        turned = inf.Physics(ph.ts[k:] + ph.ts[:k])
        if max(ph.gap, ph2.gap) > 0.98:
            c.count('insertion:gapless')
            return
        need(ph2.same(turned) < 1e-6, 'state', '%s: the state of the infinite chain changed by %.2e' % (what, ph2.same(turned)))
        if not regauge:
            xx = np.tensordot(np.tensordot(x, psi._connector, ([2], [0])), x, ([2], [0]))
            xx = xx.reshape(x.shape[0], -1, x.shape[2])
            e1, e2 = energy_in(lb, ws + ws, rb, xx), energy_in(lb2, ws2, rb2, y)
            need(abs(e1 - e2) < 1e-6 * max(1, abs(e1)), 'environment', '%s: energy in the new environments %s, of the whole chain %s' % (what, e2, e1))
            D = lb2.shape[0]
            need(close(lb2[:, :, -1], np.eye(D), 1e-8) and close(rb2[:, :, 0], np.eye(rb2.shape[0]), 1e-8), 'environment', what + ': the absorbed chain is not orthonormal')
        else:
            e2 = cell_energy(ph2, ws2)
            need(abs(hl - e2) < 1e-6 * max(1, abs(e2)), 'energy', '%s: energy of a cell %s, that of the state %s' % (what, hl, e2))
        c.count('insertion:%s%s' % ('two' if two else 'one', ':regauge' if regauge else ''))
        c.impl_steps += 1
    weak_bond(c, e, rng)
    local_problems(c, e, rng)


def joined(x, k, y):
    z = np.tensordot(np.tensordot(x, k, ([2], [0])), y, ([2], [0]))
    return z.reshape(x.shape[0], -1, y.shape[2])


def weak_bond(c, e, rng):
    """inserting at a bond with a small Schmidt value loses nothing: three cells of before against two of the next"""
    e = copy.deepcopy(e)
    N = len(e.mps)
    k = N // 2
    e.mps.position(k)
    D = e.mps._mat.shape
    if min(D) < 2 or D[0] != D[1] or np.linalg.cond(e.mps._connector) > 1e3:
        return
    if np.prod([float(np.shape(w)[2]) for w in e._mpo]) ** 3 > 3e4:
        return
    real = not np.iscomplexobj(e.mps._mat)
    q = lambda: np.linalg.qr(rng.randn(*D) + (0 if real else 1j * rng.randn(*D)))[0]
    eps = 10.0 ** -rng.uniform(2, 6)
    s = np.array([1.0, eps] + [eps * rng.uniform(1, 2) for _ in range(D[0] - 2)])
    e.mps._mat = q().dot(np.diag(s / np.linalg.norm(s))).dot(q())
    psi = copy.deepcopy(e.mps)
    lb, ws, rb = e._lb.copy(), [np.asarray(w).copy() for w in e._mpo], e._rb.copy()
    en.IDMRGengine.__update__(e)
    x, y = block_of(psi), block_of(e.mps)
    ws2 = [np.asarray(w) for w in e._mpo]
    x = joined(joined(x, psi._connector, x), psi._connector, x)
    y = joined(y, e.mps._connector, y)
    e1, e2 = energy_in(lb, ws * 3, rb, x), energy_in(e._lb, ws2 * 2, e._rb, y)
    need(abs(e1 - e2) < 1e-8 * max(1, abs(e1)), 'weak', 'insertion at a bond with Schmidt ratio %.1e: energy of the next two cells %s, of the chain %s' % (eps, e2, e1))
    c.count('insertion:weak')


def local_problems(c, e, rng):
    """the local eigenproblems between the environments of an engine: lowest eigenpairs against the full matrices"""
    ws = [np.asarray(w) for w in e._mpo]
    m = copy.deepcopy(e.mps)
    m.position(0)
    R = np.asarray(e._rb)
    for n in range(len(ws) - 1, 0, -1):
        t = np.asarray(m.tensors[n])
        R = np.einsum('bdn,abs,mnst,cdt->acm', R, t, ws[n], t.conj())
    L, W, A = np.asarray(e._lb), ws[0], np.asarray(m.tensors[0])
    a, b, d = L.shape[0], R.shape[0], W.shape[2]
    H1 = np.einsum('acm,mnst,bdn->cdtabs', L, W, R).reshape(a * b * d, a * b * d)
    H0 = np.einsum('acm,abs,mnst,cdt,xyn->dybx', L, A, W, A.conj(), R).reshape(b * b, b * b)
    need(np.max(np.abs(H1 - H1.conj().T)) < 1e-6 * max(1, np.max(np.abs(H1))), 'hermitian', 'the effective Hamiltonian is not hermitian')
    real = not (np.iscomplexobj(H1) or np.iscomplexobj(H0))
    start = lambda *s: rng.randn(*s) + (0 if real else 1j * rng.randn(*s))
    for name, H, shape, f in (
            ('eigsh', H1, (a, b, d), lambda k, x: mf.eigsh(L, W, R, x, 1e-12, numvecs=k, numcv=min(a * b * d, 20), numvecs_returned=k)),
            ('lanczos', H1, (a, b, d), lambda k, x: mf.lanczos(L, W, R, x, 1e-12, 4, 300, k, 1e-9, 1e-12)),
            ('eigshbond', H0, (b, b), lambda k, x: mf.eigshbond(L, W, A, R, x, 'right', 1e-12, numvecs=k, numcv=min(b * b, 20), numvecs_returned=k)),
            ('lanczosbond', H0, (b, b), lambda k, x: mf.lanczosbond(L, W, A, R, x, 'right', 4, 300, k, 1e-9, 1e-12))):
        ev = np.linalg.eigvalsh((H + H.conj().T) / 2)
        if len(ev) < 5 or (name.endswith('bond') and a != b):
            continue
        k = 1 + rng.randint(2) if name.startswith('eigsh') else 1
        if np.min(np.diff(ev[:k + 1])) < 0.02:
            continue
        es, vs = f(k, start(*shape))
        es, vs = ([es], [vs]) if k == 1 else (es, vs)
        need(len(es) == k and len(vs) == k, 'number', '%s(%d) returned %d values and %d vectors' % (name, k, len(es), len(vs)))
        for j in range(k):
            v = np.asarray(vs[j])
            need(v.shape == shape, 'shape', '%s: shape %s' % (name, v.shape))
            v = v.ravel()
            big = max(1, np.max(np.abs(ev)))
            need(abs(es[j] - ev[j]) < 1e-5 * big, 'eigenvalue', '%s: eigenvalue %d of %d is %s, exact %s' % (name, j, k, es[j], ev[j]))
            need(abs(np.linalg.norm(v) - 1) < 1e-6 and np.linalg.norm(H.dot(v) - es[j] * v) < 1e-2 * big, 'eigenvector', '%s: eigenvector %d of %d' % (name, j, k))
        c.count('local:%s:%d' % (name, k))
        c.impl_steps += 1


def cell_energy(ph, ws):
    """energy of one cell of a nearest-neighbour operator (lower triangular) in an infinite state"""
    N, e = len(ws), 0.0
    for n in range(N):
        w, v = ws[n], ws[(n + 1) % N]
        d1, d2 = w.shape[2], v.shape[2]
        h = np.kron(w[-1, 0], np.eye(d2))
        for q in range(1, w.shape[1] - 1):
            h = h + np.kron(w[-1, q], v[q, 0])
        e = e + np.sum(ph.block(n, 2) * h)
    return e


# ---------------------------------------------------------------- convergence to exactly known ground states
def distinct(b):
    """the same flows with a label of its own for every edge: the state is injective on single sites"""
    return dict(b, lab=[[[i * len(f[0]) + j + 1 for j in range(len(f[0]))] for i in range(len(f))] for f in b['F']], d=[len(f) * len(f[0]) for f in b['F']])


def known_state(b, rng, real):
    out = []
    for t in inf.exact_tensors(distinct(b)):
        pad = 1 if t.shape[2] == 1 else rng.randint(2)
        d = t.shape[2]
        u = np.linalg.qr(rng.randn(d + pad, d + pad) + (0 if real else 1j * rng.randn(d + pad, d + pad)))[0][:, :d]
        t = np.tensordot(t, u, ([2], [1]))
        out.append(t.real.copy() if real else t)
    return out


def parent(ts, rng, real):
    """operator whose unique ground state is the given chain, energy exactly sum(e0) per cell: projectors onto what never
    occurs on two neighbouring sites, with terms moved between sites and bonds that add up to nothing"""
    N, ds = len(ts), [t.shape[2] for t in ts]
    xs, e0 = [hermitian(d, rng, real) for d in ds], rng.randint(-3, 4, N)
    left, right = rng.uniform(-1, 1, 2)
    hs, ons = [], []
    for n in range(N):
        m = (n + 1) % N
        x = np.einsum('abs,bct->acst', ts[n], ts[m]).reshape(-1, ds[n] * ds[m])
        u, s, v = np.linalg.svd(x, full_matrices=False)
        v = v[s > 1e-10]
        P = v.conj().T.dot(v)                          # [in, out]
        hs.append(rng.uniform(0.7, 1.5) * (np.eye(len(P)) - P) + left * np.kron(xs[n], np.eye(ds[m])) - right * np.kron(np.eye(ds[n]), xs[m]))
        ons.append((right - left) * xs[n] + e0[n] * np.eye(ds[n]))
    return operator_of(hs, ons, ds), float(sum(e0))


def fidelity(p, q):
    """largest modulus of the mixed transfer operator of two normalised cells"""
    E = None
    for a, b in zip(p.ts, q.ts):
        e = np.einsum('abs,cds->acbd', a, b.conj())
        e = e.reshape(e.shape[0] * e.shape[1], -1)
        E = e if E is None else E.dot(e)
    return np.max(np.abs(np.linalg.eigvals(E))) / np.sqrt(abs(p.eta * q.eta))


def fermions(J, B, n=1001):
    """exact energy per cell of sum J x x + B z (free fermions): minus the singular values of the hopping matrix"""
    N, tot = len(J), 0.0
    for k in 2 * np.pi * (np.arange(n) + 0.5) / n:
        M = np.diag(np.array(B, complex))
        for i in range(N):
            M[(i + 1) % N, i] += J[i] * (np.exp(1j * k) if i == N - 1 else 1)
        tot -= np.linalg.svd(M, compute_uv=False).sum()
    return tot / n


def uniform_search(ts, W, D, rng, real, what, exact, tol, **kw):
    m = mpslib.MPS.random(N=1, D=D, d=W[0].shape[2], obc=False, dtype=float if real else complex)
    if rng.randint(2):
        m.regauge(gauge='right')
    start = m[0].copy()
    with listening() as h:
        e = en.VUMPSengine(m, HH.MPO.fromlist([w.copy() for w in W]), 'nofile')
        E = e.simulate(Nmax=300, epsilon=1e-6, tol=1e-12, lgmrestol=1e-12, artol=1e-12, arncv=min(20, D * D), checkpoint=-1, **kw)
    need(np.array_equal(np.asarray(m[0]), start), 'aliasing', what + ' changed the state it was given')
    A, B, C, AC = (np.asarray(x) for x in (e._A, e._B, e._mat, e._mps[0]))
    p = inf.Physics([A])
    big = max(1, abs(exact))
    got = cell_energy(p, W)
    need(abs(E - got) < 1e-6 * big, 'measured', '%s: returned energy %s, that of the state %s' % (what, E, got))
    need(got.real > exact - 1e-8 * big, 'variational', '%s: energy %s below the exact %s' % (what, got, exact))
    need(abs(E - exact) < tol * big, 'energy', '%s: energy %s, exact %s (gradient %.1e after %d steps)' % (what, E, exact, e._gradnorm, e._it))
    if ts is not None:
        f = fidelity(inf.Physics(ts), p)
        need(abs(1 - f) < 1e-6, 'state', '%s: overlap per site with the exact ground state %.8f' % (what, f))
    need(inf.left_dev(A) < 1e-8 and inf.right_dev(B) < 1e-8, 'canonical', '%s: orthonormality violated by %.1e (left) %.1e (right)' % (what, inf.left_dev(A), inf.right_dev(B)))
    # the centre tensor fits between left and right tensors (up to the phases of the eigenvectors)
    l, r = np.einsum('abs,bc->acs', A, C), np.einsum('ab,bcs->acs', C, B)
    for nm, x in (('left', l), ('right', r)):
        o = abs(np.vdot(x, AC)) / np.linalg.norm(x) / np.linalg.norm(AC)
        need(abs(1 - o) < 1e-5, 'canonical', '%s: centre tensor and %s tensor disagree (overlap %.7f)' % (what, nm, o))
    return e


def growing_search(ts, W, D, two, rng, real, what, exact, tol, **kw):
    N = len(W)
    m = mpslib.MPS.random(N=N, D=D, d=[w.shape[2] for w in W], obc=False, dtype=float if real else complex)
    m.regauge(gauge=['left', 'right', 'symmetric'][rng.randint(3)])
    with listening() as h:
        e = en.IDMRGengine(m, HH.MPO.fromlist([w.copy() for w in W]), 'nofile')
        (e.simulateTwoSite if two else e.simulate)(cp=None, verbose=1, tol=1e-10, **kw)
    E = h.energies()[-1] * N
    ws = [np.asarray(w) for w in e._mpo]
    p = inf.Physics(inf.cell(e.mps))
    big = max(1, abs(exact))
    got = cell_energy(p, ws)
    k = N // 2 * (kw['Nmax'] + 1) % N
    need(len(ws) == N and all(a.shape == b.shape and np.array_equal(a, b) for a, b in zip(W[k:] + W[:k], ws)), 'coupling', what + ': couplings of the cell out of order')
    need(got.real > exact - 1e-8 * big, 'variational', '%s: energy %s below the exact %s' % (what, got, exact))
    need(abs(E - exact) < 100 * tol * big, 'energy', '%s: reported energy %s, exact %s' % (what, E, exact))
    need(abs(got - exact) < tol * big, 'energy', '%s: energy of the final state %s, exact %s' % (what, got, exact))
    if ts is not None:
        f = fidelity(inf.Physics(ts[k:] + ts[:k]), p)
        need(abs(1 - f) < 1e-6, 'state', '%s: overlap per cell with the exact ground state %.8f' % (what, f))
    x = [np.asarray(t) for t in e.mps.tensors]
    q = e.mps.pos
    need(all(inf.left_dev(t) < 1e-8 for t in x[:q]) and all(inf.right_dev(t) < 1e-8 for t in x[q:]), 'canonical', what + ': tensors not orthonormal about the centre %d' % q)


def tries(n, f):
    """a search may be trapped: it has to succeed from one of n starting points"""
    for i in range(n):
        try:
            return f()
        except Bad as ex:
            if ex.key not in ('energy', 'state', 'measured', 'canonical') or i == n - 1:
                raise


def searches(c, b, rng, i):
    real = inf.is_real(b) and bool(rng.randint(2))
    ts = known_state(b, rng, real)
    D = b['D'][0]
    if inf.Physics(ts).gap > 0.7:
        return
    if b['N'] == 1 and D > 1:
        W, e0 = parent(ts, rng, real)
        solver = ['AR', 'LAN'][i % 2]
        kw = dict(solver=solver, svd=bool(rng.randint(2)), arnumvecs=[1, 2][rng.randint(2)] if solver == 'AR' and D > 2 else 1)
        what = 'VUMPSengine(D=%d, %s, %s)' % (D, 'real' if real else 'complex', kw)
        tries(3, lambda: uniform_search(ts, W, D, rng, real, what, e0, 1e-7, **kw))
        c.count('uniform:%s%s' % (solver, ':several' if kw['arnumvecs'] > 1 else ''))
        c.impl_steps += 1
    if b['N'] == 1:
        ts = ts * (2 + rng.randint(2))
    W, e0 = parent(ts, rng, real)
    two = bool(rng.randint(2)) and max(b['D']) == 2
    D = max(b['D']) + (1 if two else 0)
    kw = dict(Nmax=14 + rng.randint(4), NUC=1 + rng.randint(2), solver='LAN', regaugestep=[0, 0, 4, 7][rng.randint(4)])
    what = 'IDMRGengine.%s(cell of %d, D=%d, %s, %s)' % ('simulateTwoSite' if two else 'simulate', len(W), D, 'real' if real else 'complex', kw)
    tries(3, lambda: growing_search(ts, W, D, two, rng, real, what, e0, 1e-7, **kw))
    c.count('growing:%s:%d%s' % ('two' if two else 'one', len(W), ':regauge' if kw['regaugestep'] else ''))
    c.impl_steps += 1


def free(c, rng, i):
    """transverse Ising chains away from criticality"""
    real = bool(rng.randint(2))
    if i % 2 == 0:
        J, B = [(1.0, 2.5), (-1.0, 2.0), (-2.0, 0.7), (1.5, -4.0), (-0.8, -2.2), (-3.0, 1.2)][rng.randint(6)]
        J *= rng.uniform(0.9, 1.1)
        W = [np.asarray(w).astype(float if real else complex) for w in HH.TFI(np.array([J]), np.array([B]), False)]
        solver = ['AR', 'LAN'][rng.randint(2)]
        what = 'VUMPSengine(TFI J=%.3f B=%.3f, D=6, %s, %s)' % (J, B, solver, 'real' if real else 'complex')
        tries(3, lambda: uniform_search(None, W, 6, rng, real, what, fermions([J], [B]), 1e-6, solver=solver, svd=bool(rng.randint(2)), arnumvecs=1))
        c.count('uniform:TFI')
    else:
        N = 2 + rng.randint(3)
        J, B = rng.choice([-1, 1], N) * rng.uniform(0.3, 1, N), rng.choice([-1, 1], N) * rng.uniform(2, 3, N)
        W = [np.asarray(w) for w in HH.TFI(J, B, False)]
        two = bool(rng.randint(2))
        kw = dict(Nmax=12, NUC=1, solver='LAN' if two else ['AR', 'LAN'][rng.randint(2)], regaugestep=0)
        what = 'IDMRGengine(TFI J=%s B=%s, %s, %s)' % (np.round(J, 3), np.round(B, 3), 'two-site' if two else 'one-site', kw)
        tries(3, lambda: growing_search(None, W, 5, two, rng, real, what, fermions(J, B), 1e-6, **kw))
        c.count('growing:TFI')
    c.impl_steps += 1


def guard(c, name, i, b, part):
    where = '%s #%d' % (name, i)
    try:
        with guarded(120):
            part()
    except Bad as ex:
        c.violation(name + '-' + ex.key, '%s: %s' % (where, ex), dict(state=b, index=i))
    except Exception as ex:
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
        c.violation(name + '-exception', '%s: %s' % (where, repr(ex)[:200]), dict(state=b, index=i))


def run(c):
    docs, _ = c.tlc('Insertion', CFG % (2 if c.quick else 3), simulate=60 if c.quick else 600, depth=60, seed=c.seed + 190,
                    defs=dict(RunV='{-1, -2, -3, -5, -7, -11, -13}'))

    def f(i, b):
        rng = np.random.RandomState((c.seed * 7919 + i) % 2**31)
        np.random.seed(rng.randint(2**31 - 1))
        guard(c, 'absorb', i, b, lambda: absorb(c, b, rng))
        c.traces += 1
    c.each(docs, f)
    chains = inf.simulate(c, 150 if c.quick else 600, 0, ['copy'], seed_off=191, N='2..4', D='2..3', labels=3)

    def g(i, b):
        rng = np.random.RandomState((c.seed * 104729 + i) % 2**31)
        np.random.seed(rng.randint(2**31 - 1))
        us = inf.rotations(b, rng, inf.is_real(b))
        if inf.Physics(inf.exact_tensors(b)).gap > 0.95:
            return
        guard(c, 'insert', i, b, lambda: insertion(c, b, us, rng))
        c.traces += 1
    c.each(chains, g)
    flows = [b for b in inf.simulate(c, 250 if c.quick else 2500, 0, ['copy'], seed_off=192, N='1..3', D='1..3', M='6..14', labels=9)
             if all(x > 0 for f in b['F'] for r in f for x in r) and max(b['D']) > 1]
    flows = [b for i, b in enumerate(flows) if b['N'] == 1 or len([x for x in flows[:i] if x['N'] > 1]) < (24 if c.quick else 400)][:48 if c.quick else 2500]

    def s(i, b):
        rng = np.random.RandomState((c.seed * 15485863 + i) % 2**31)
        np.random.seed(rng.randint(2**31 - 1))
        guard(c, 'search', i, b, lambda: searches(c, b, rng, i))
        c.traces += 1
    c.each(flows, s)

    def t(i, b):
        rng = np.random.RandomState((c.seed * 32452843 + i) % 2**31)
        np.random.seed(rng.randint(2**31 - 1))
        guard(c, 'free', i, dict(), lambda: free(c, rng, i))
        c.traces += 1
    c.each(list(range(12 if c.quick else 120)), t)
