"""C18: transfer operators against specs/Transfer.tla; their steady states, the linear solvers and the energies of
infinite environments against the exactly known states of specs/Markov.tla."""
from hlib import *
import infinite as inf
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf
import lib.mpslib.Hamiltonians as HH

CFG = '''CONSTANTS
  Ns = {1, 2, 3}
  Dims = {1, 2, 3}
  Phys = {1, 2, 3}
  Entries <- RunE
  MaxOps = 4
SPECIFICATION Spec
INVARIANTS Adjoint Composed Hermitian Fits
'''
TOL = 2e-6


class Bad(Exception):
    def __init__(self, key, what):
        Exception.__init__(self, what)
        self.key = key


def need(ok, key, what):
    if not ok:
        raise Bad(key, what)


def tens(t):
    """model: [s][i][j] -> (i, j, s)"""
    return maybe_real(gmat(t).transpose(1, 2, 0))


def mat(m):
    return maybe_real(gmat(m))


def same(got, want, where):
    got, want = np.asarray(got), np.asarray(want)
    need(got.size == want.size, 'shape', '%s: %d entries instead of %d' % (where, got.size, want.size))
    need(close(got.reshape(want.shape), want, 1e-9), 'value', '%s: wrong by %.2e' % (where, np.max(np.abs(got.reshape(want.shape) - want))))


def objects(U, L, rng):
    """the ways one-site tensors can be handed over"""
    f = [lambda t: t, lambda t: mpslib.MPS([t])]
    a, b = rng.randint(2), rng.randint(2)
    return f[a](U), f[b](L), ['array', 'object'][a] + '/' + ['array', 'object'][b]


def algebra(c, b, rng):
    U, L = [tens(t) for t in b['U']], [tens(t) for t in b['L']]
    l, r = mat(b['l']), mat(b['r'])
    N = b['N']
    for e in b['log']:
        op, dr = e['e']['op'], e['e']['dir']
        x, want = mat(e['in']), mat(e['out'])
        before = x.copy()
        v = x.reshape(-1)
        dr = dr * (1 + rng.randint(3))           # any positive or negative number names the direction
        where = '%s %s N=%d' % (op, 'right' if dr > 0 else 'left', N)
        if op == 'step':
            n = e['e']['site'] - 1
            u, w, how = objects(U[n], L[n], rng)
            same(mf.MixedTransferOperator(dr, u, w, v), want, 'MixedTransferOperator(%s) %s' % (how, where))
            same(mf.GeneralizedMatrixVectorProduct(dr, L[n], U[n], v), want, 'GeneralizedMatrixVectorProduct ' + where)
            same(mf.addELayer(x[:, :, None], U[n], L[n], dr), want, 'addELayer ' + where)
            if b['same']:
                same(mf.TransferOperator(dr, u, v), want, 'TransferOperator(%s) %s' % (how, where))
            c.count('step:' + how)
        elif op == 'cell':
            alls = [mat(m) for m in e['e']['all']]
            same(mf.MixedUnitcellTransferOperator(dr, U, L, v), want, 'MixedUnitcellTransferOperator ' + where)
            if b['same']:
                for y in (U, mpslib.MPS(U)):
                    same(mf.UnitcellTransferOperator(dr, y, v), want, 'UnitcellTransferOperator(%s) %s' % (type(y).__name__, where))
                    dens = mf.computeDensity(x, y, dr)
                    need(len(dens) == N + 1, 'shape', 'computeDensity: %d matrices' % len(dens))
                    for k, (g, a) in enumerate(zip(dens, alls)):
                        same(g, a, 'computeDensity(%s) bond %d %s' % (type(y).__name__, k, where))
                c.count('cell:same')
            c.count('cell')
        else:
            ld = [l] + [rng.randn(*np.shape(U[n][:, :, 0])[1:] * 2) for n in range(N - 1)] + [l]
            rd = [r] + [rng.randn(*np.shape(U[n][:, :, 0])[1:] * 2) for n in range(N - 1)] + [r]
            if op == 'pseudo':
                if b['same']:
                    same(mf.pseudoUnitcellTransferOperator(dr, U, ld, rd, v), want, 'pseudoUnitcellTransferOperator ' + where)
                    if N == 1:
                        same(mf.pseudoTransferOperator(U[0], r, l, dr, v), want, 'pseudoTransferOperator ' + where)
                        c.count('pseudo:single')
                    c.count('pseudo')
            else:
                k = e['e']['k']
                if b['same'] and k == 0:
                    same(mf.OneMinusPseudoUnitcellTransferOperator(dr, U, ld, rd, v), want, 'OneMinusPseudoUnitcellTransferOperator ' + where)
                    c.count('oneminus:cell')
                if N == 1:
                    same(mf.OneMinusPseudoTransferOperator(U[0], L[0], r, l, dr, k * np.pi / 2, v), want,
                         'OneMinusPseudoTransferOperator momentum %d pi/2 %s' % (k, where))
                    c.count('oneminus:momentum%d' % k)
        need(np.array_equal(x, before), 'input', where + ': the boundary matrix of the caller was changed')
        c.impl_steps += 1


def apply_cell(us, ls, x, direction):
    for u, w in (zip(us, ls) if direction > 0 else list(zip(us, ls))[::-1]):
        x = np.einsum('ac,abs,cds->bd', x, u, w.conj()) if direction > 0 else np.einsum('bd,abs,cds->ac', x, u, w.conj())
    return x


def eigen_ok(eta, vec, want_eta, want_vec, where):
    vec = np.asarray(vec)
    need(abs(eta - want_eta) < TOL * abs(want_eta), 'eigenvalue', '%s: eigenvalue %s, exact %s' % (where, eta, want_eta))
    need(vec.ndim == 1 and vec.size == want_vec.size, 'eigenvector', where + ': vector of shape %s' % (vec.shape,))
    need(abs(np.linalg.norm(vec) - 1) < TOL, 'eigenvector', '%s: norm %.6f' % (where, np.linalg.norm(vec)))
    w = want_vec.reshape(-1)
    o = abs(np.vdot(w, vec)) / np.linalg.norm(w)
    need(abs(o - 1) < TOL, 'eigenvector', '%s: overlap with the exact fixed point %.8f' % (where, o))


def steady(c, b, ts, us, real, rng):
    """dominant eigenpairs"""
    N = b['N']
    l, r = gmat(b['left']), gmat(b['right'])
    scale = np.array([10.0 ** rng.uniform(-1, 1) for _ in ts])
    xs = [t * s for t, s in zip(ts, scale)]
    eta = np.prod(scale) ** 2
    D = xs[0].shape[0]
    init = [None, np.eye(D).reshape(-1), rng.rand(D * D)]
    for dr, fix in ((1, l), (-1, r)):
        for y in (xs, mpslib.MPS(xs)):
            k = 1 + rng.randint(3)
            e, v, _ = mf.UnitcellTMeigs(y, dr, k, init=init[rng.randint(3)], which=['LM', 'LR'][rng.randint(2)], ncv=20)
            eigen_ok(e, v, eta, fix, 'UnitcellTMeigs(%s,%d,numeig=%d)' % (type(y).__name__, dr, k))
        if N == 1:
            k = 1 + rng.randint(6)
            e, v, _ = mf.TMeigs(xs[0], dr, k, init=init[rng.randint(3)], which=['LM', 'LR'][rng.randint(2)])
            eigen_ok(e, v, eta, fix, 'TMeigs(%d,numeig=%d)' % (dr, k))
            c.count('steady:single')
        # two gauges of the same state: the fixed point is the gauge transformation
        up = [t.astype(xs[0].dtype) for t in inf.rotate(inf.exact_tensors(b), us)] if not real else [t.real.copy() for t in inf.rotate(inf.exact_tensors(b), us)]
        X, Xi = gmat(b['X'][0]), gmat(b['Xi'][0])
        w = np.diag(np.array(b['w'][0], float))
        fixm = Xi.conj().T if dr < 0 else w.dot(X.conj())
        # the second state may come with a phase (a sign) of its own per site: only the eigenvalue turns
        turn = [rng.choice([-1, 1]) if real else np.exp(1j * rng.uniform(0, 2 * np.pi)) for _ in up]
        up = [t * z for t, z in zip(up, turn)]
        k = 1 + rng.randint(3)
        e, v, _ = mf.MixedUnitcellTMeigs(xs, up, dr, k, ncv=20)
        eigen_ok(abs(e), v, np.prod(scale), fixm, 'MixedUnitcellTMeigs(%d,numeig=%d)' % (dr, k))
        need(abs(e - np.prod(scale) * np.prod(turn)) < TOL * np.prod(scale), 'eigenvalue', 'MixedUnitcellTMeigs(%d,numeig=%d): eigenvalue %s, exact %s' % (
            dr, k, e, np.prod(scale) * np.prod(turn)))
        c.count('steady:turned:%d' % k)
        c.impl_steps += 3
        c.count('steady')
    # a smaller lower layer
    for t in b['trunc']:
        if all(len(k) for k in t['keep']) and t['ok'] and N == 1 + rng.randint(N):
            low = inf.rotate(inf.exact_tensors(b, [sorted(k) for k in t['keep']]), us)
            low = [x.real.copy() if real else x for x in low]
            for dr in (1, -1):
                low = [x * rng.choice([-1, 1]) for x in low]
                e, v, _ = mf.MixedUnitcellTMeigs(low, xs, dr, 1 + rng.randint(2), ncv=20)
                m = np.array([apply_cell(xs, low, q.reshape(xs[0].shape[0], low[0].shape[0]), dr).reshape(-1) for q in np.eye(xs[0].shape[0] * low[0].shape[0])]).T
                ev = np.linalg.eigvals(m)
                top = np.max(np.abs(ev))
                if np.sum(np.abs(ev) > 0.97 * top) > 1:
                    continue
                need(abs(abs(e) - top) < TOL * top, 'eigenvalue', 'MixedUnitcellTMeigs of different sizes: |%s| instead of %s' % (e, top))
                need(np.max(np.abs(m.dot(v) - e * v)) < 1e-5 * top, 'eigenvector', 'MixedUnitcellTMeigs of different sizes: not an eigenvector')
                c.count('steady:rectangular')


def solvers(c, b, ts, us, real, rng):
    N = b['N']
    D = ts[0].shape[0]
    l, r = gmat(b['left']), gmat(b['right'])
    l = l / np.sum(l * r)
    if real:
        l, r = l.real.copy(), r.real.copy()
    def inhom(dr):
        x = rng.randn(D, D) + (0 if real else 1j * rng.randn(D, D))
        if rng.randint(2):
            x = x - np.sum(x * r) * l if dr > 0 else x - np.sum(l * x) * r
            return x, True
        return x, False
    for dr in (1, -1):
        if N == 1:
            A = ts[0]
            for name, k in [('RENORMBLOCKHAMGMRES', 0.0), ('TDVPGMRES', 0.0), ('RENORMBLOCKHAMGMRES', rng.uniform(0.5, 5.5)), ('RENORMBLOCKHAMGMRES', -rng.uniform(0.5, 3)), ('TDVPGMRES', rng.uniform(-3, -0.5))]:
                y, proj = inhom(dr)
                x0 = None if rng.randint(2) else rng.rand(D * D)
                x = getattr(mf, name)(A, A, r, l, y.reshape(-1) if rng.randint(2) else y, x0, tolerance=1e-12, maxiteration=400, direction=dr, momentum=k)
                z = np.exp(1j * k) if k else 1.0
                res = x - z * apply_cell([A], [A], x, dr) - y
                if k == 0:
                    res = res + (np.sum(x * r) * l if dr > 0 else np.sum(l * x) * r)
                where = '%s(direction %d, momentum %.2f, %s)' % (name, dr, k, 'real' if real else 'complex')
                size = max(1, np.max(np.abs(x)))
                need(x.shape == (D, D), 'shape', where + ': shape %s' % (x.shape,))
                need(np.max(np.abs(res)) < 1e-6 * size, 'residual', '%s: residual %.2e' % (where, np.max(np.abs(res))))
                if proj and k == 0:
                    need(abs(np.sum(x * r) if dr > 0 else np.sum(l * x)) < 1e-6 * size, 'projection', where + ': the divergent part is not projected out')
                c.count('solve:' + name + (':momentum' if k else ''))
                c.impl_steps += 1
        ld, rd = mf.computeDensity(l, ts, 1), mf.computeDensity(r, ts, -1)
        y, proj = inhom(dr)
        for cell in (ts, mpslib.MPS(ts)):
            x, info = mf.TDVPGMRESUC(cell, ld, rd, y.reshape(-1), np.zeros(D * D), 1e-12, 1000, datatype=ts[0].dtype, direction=dr)
            x = np.reshape(x, (D, D))
            res = x - apply_cell(ts, ts, x, dr) - y + (np.sum(x * r) * l if dr > 0 else np.sum(l * x) * r)
            size = max(1, np.max(np.abs(x)))
            need(np.max(np.abs(res)) < 1e-6 * size, 'residual', 'TDVPGMRESUC(%d): residual %.2e' % (dr, np.max(np.abs(res))))
            if proj:
                need(abs(np.sum(x * r) if dr > 0 else np.sum(l * x)) < 1e-6 * size, 'projection', 'TDVPGMRESUC: the divergent part is not projected out')
            c.count('solve:cell')
            c.impl_steps += 1


def block_ok(E, ts, mpo, dr, h, other, where):
    """E is the environment of a semi-infinite chain of cells: one more cell adds h"""
    last = 0 if dr > 0 else -1
    F = E
    for t, W in (zip(ts, mpo) if dr > 0 else list(zip(ts, mpo))[::-1]):
        F = np.einsum('acm,abs,mnst,cdt->bdn', F, t, W, t.conj()) if dr > 0 else np.einsum('bdn,abs,mnst,cdt->acm', F, t, W, t.conj())
    D = E.shape[0]
    F = F.copy()
    F[:, :, last] -= h * np.eye(D)
    size = max(1, np.max(np.abs(E)))
    need(np.max(np.abs(E - F)) < 1e-5 * size, 'environment', '%s: adding a cell changes the environment by %.2e beyond its energy' % (where, np.max(np.abs(E - F))))
    need(np.max(np.abs(E[:, :, -1 if dr > 0 else 0] - np.eye(D))) < 1e-5, 'environment', where + ': the identity block is wrong')
    if other is not None:
        need(abs(np.sum(E[:, :, last] * other)) < 1e-5 * size, 'projection', where + ': the divergent part is not projected out')


def ends(m, close):
    """the left orthonormal and the right orthonormal cell; close: the unitary between cells is absorbed"""
    N, cells = len(m), {}
    for q in (m.pos, N - m.pos):
        m.position(q)
        cells[q] = [t.copy() for t in m.tensors]
        if close and q == N:
            cells[q][-1] = np.einsum('abs,bc->acs', cells[q][-1], m._mat.dot(m._connector))
        elif close:
            cells[q][0] = np.einsum('ca,abs->cbs', m._connector.dot(m._mat), cells[q][0])
    return cells


def environments(c, b, ts, us, real, rng):
    N = b['N']
    W = inf.mpo(b, us)
    mpo = HH.MPO.fromlist([w.real.copy() if real else w for w in W])
    en = inf.energy(b)
    big = max(1, abs(en))
    for side, dr in (('L', 1), ('R', -1)):
        cell, fix = inf.canonical(b, us, side, rng, real)
        if real:
            cell, fix = [t.real.copy() for t in cell], fix.real.copy()
        D = cell[0].shape[0]
        one = np.eye(D).astype(cell[0].dtype)
        ld = mf.computeDensity(one if dr > 0 else fix, cell, 1)
        rd = mf.computeDensity(fix if dr > 0 else one, cell, -1)
        for y in (cell, mpslib.MPS(cell)):
            E, h = mf.computeUCsteadyStateHamiltonianGMRES(y, mpo, np.zeros(D * D), ld, rd, dr, 1e-12, 1000)
            where = 'computeUCsteadyStateHamiltonianGMRES(direction %d, %s)' % (dr, 'real' if real else 'complex')
            need(abs(h - en) < TOL * big, 'energy', '%s: energy %s, exact %s' % (where, h, en))
            block_ok(E, cell, W, dr, en, fix, where)
            c.impl_steps += 1
            c.count('environment:%d' % dr)
    if b['D'][0] == 1:
        return
    for regauge in (True, False):
        m = mpslib.MPS.fromList([t.copy() for t in ts])
        if not regauge:
            m.regauge(['symmetric', 'left', 'right'][rng.randint(3)])
        m.position(rng.randint(N + 1))
        before = m.__copy__()
        ref = inf.Physics(inf.cell(m))
        lb, rb, lbound, rbound, hl, hr = mf.getBoundaryHams(m, mpo, regauge=regauge)
        where = 'getBoundaryHams(regauge=%s)' % regauge
        need(m.pos in (0, N), 'centre', where + ': centre left at %d' % m.pos)
        p = inf.Physics(inf.cell(m))
        need(p.same(ref) < TOL * 10, 'physics', where + ' changed the state')
        if regauge:
            ways = [ends(m, True)]
        else:
            ways = []
            for first in (N, 0) if before.pos > N - before.pos else (0, N):
                g = before.__copy__()
                g.position(first)
                here = [t.copy() for t in g.tensors]
                g.position(N - first)
                ways.append({first: here, N - first: [t.copy() for t in g.tensors]})
        for n, cells in enumerate(ways):
            try:
                for name, q, E, h, dr in (('left', N, lb, hl, 1), ('right', 0, rb, hr, -1)):
                    if regauge:
                        need(abs(h - en) < 10 * TOL * big, 'energy', '%s: %s energy %s, exact %s' % (where, name, h, en))
                    pc = inf.Physics(cells[q])
                    if pc.gap > 0.95:
                        continue
                    e2 = inf.energy_of(pc, b, us)
                    need(abs(h - e2) < 10 * TOL * big, 'energy', '%s: %s energy %s, that of the %s orthonormal chain %s' % (where, name, h, name, e2))
                    block_ok(E, cells[q], W, dr, e2, None, where + ' ' + name)
                break
            except Bad:
                if n == len(ways) - 1:
                    raise
        c.count('boundary:%s' % regauge)
        c.impl_steps += 1


def run(c):
    docs, _ = c.tlc('Transfer', CFG, simulate=300 if c.quick else 2500, depth=30, seed=c.seed + 180, defs=dict(RunE='{-1, 0, 1, 2}'))

    def f(i, b):
        rng = np.random.RandomState((c.seed * 7919 + i) % 2**31)
        guard(c, 'algebra', i, b, lambda: algebra(c, b, rng))
        c.traces += 1
    c.each(docs, f)
    chains = inf.simulate(c, 300 if c.quick else 2500, 0, ['copy'], seed_off=181)

    def g(i, b):
        rng = np.random.RandomState((c.seed * 104729 + i) % 2**31)
        us = inf.rotations(b, rng, inf.is_real(b))
        if inf.Physics(inf.exact_tensors(b)).gap > 0.95:
            return
        real = inf.is_real(b)
        ts = inf.gauged(b, us)
        if real:
            ts = [t.real.copy() for t in ts]
        np.random.seed(rng.randint(2**31 - 1))
        for name, part in (('steady', steady), ('solvers', solvers), ('environments', environments)):
            guard(c, name, i, b, lambda: part(c, b, ts, us, real, rng))
        c.count('chains:%s' % ('real' if real else 'complex'))
        c.traces += 1
    c.each(chains, g)


def guard(c, name, i, b, part):
    where = '%s N=%d #%d' % (name, b['N'], i)
    try:
        with guarded(60):
            part()
    except Bad as ex:
        c.violation(name + '-' + ex.key, '%s: %s' % (where, ex), dict(state=b, index=i))
    except Exception as ex:
        if os.environ.get('VERIF_DEBUG'):
            import traceback
            traceback.print_exc()
        c.violation(name + '-exception', '%s: %s' % (where, repr(ex)[:200]), dict(state=b, index=i))
