import lattice
from hlib import *


def expmh(h, t):
    w, u = np.linalg.eigh(h)
    return (u * np.exp(t * w)).dot(u.conj().T)


def check(b, c):
    mpo = lattice.build(b, complex if b['m'] not in ('Jess',) else None)
    rng = np.random.RandomState(c.traces)
    N = b['N']
    d = np.asarray(mpo[0]).shape[2]
    total = np.zeros((d ** N, d ** N), complex)
    for n in range(N - 1):
        mat = lambda t, rev=False: np.asarray(mpo.twoSiteGate(n + 1, n, t) if rev else mpo.twoSiteGate(n, n + 1, t))
        g = mat(0.25)
        if g.shape != (d, d, d, d):
            return 'shape', 'pair %d: gate shape %s' % (n, g.shape)
        g = g.reshape(d * d, d * d)
        if not close(mat(0.0).reshape(d * d, d * d), np.eye(d * d)):
            return 'zero', 'pair %d: zero step is not the identity' % n
        if not close(g, g.conj().T, scale=np.max(np.abs(g))):
            return 'hermitian', 'pair %d: real step gives a non-hermitian gate' % n
        w, u = np.linalg.eigh(g)
        if np.min(w) <= 0:
            return 'positive', 'pair %d: gate of a real step not positive' % n
        h = (u * (np.log(w) / 0.25)).dot(u.conj().T)
        steps = [0.25, -0.1, 0.3j, -0.7j, 0.2 - 0.4j]
        steps = [s * t for t in steps for s in (1, -1)] + [0.1j, -0.1j, 0.1, 0.2 + 0.4j, -0.2 - 0.4j, 0.25]
        for k in rng.permutation(len(steps)):
            t = steps[k]
            e = expmh(h, t)
            if not close(mat(t).reshape(d * d, d * d), e, 1e-7, scale=np.max(np.abs(e))):
                return 'exponential', 'pair %d: step %s is not the exponential of the same operator' % (n, t)
            if k % 4 == 0 and not np.allclose(mat(t, True), mat(t)):
                return 'order', 'pair %d: gate differs when the pair is given in the other order' % n
        total += np.kron(np.kron(np.eye(d ** n), h), np.eye(d ** (N - n - 2)))
    want = lattice.exact(b)
    if not close(total, want, 1e-6, scale=max(1.0, np.max(np.abs(want)))):
        i = np.unravel_index(np.argmax(np.abs(total - want)), want.shape)
        return 'sum', 'two-site operators add up to %s at %s, the Hamiltonian has %s' % (total[i], i, want[i])


def changed(b, other, c):
    """one object whose tensors are replaced by those of another model of the same shape"""
    mpo, ref = lattice.build(b, complex), lattice.build(other, complex)
    for n in range(b['N'] - 1):
        mpo.twoSiteGate(n, n + 1, -0.2j)
    for n in range(b['N']):
        mpo[n] = np.copy(ref[n])
    for n in range(b['N'] - 1):
        if not np.allclose(mpo.twoSiteGate(n, n + 1, -0.2j), ref.twoSiteGate(n, n + 1, -0.2j)):
            return 'stale', 'pair %d: the gate does not follow a change of the operator' % n


def run(c):
    docs = lattice.simulate(c, 130 if c.quick else 2500, 6, bc=('TRUE',), seed_off=50)
    for b in docs:
        info = {k: b[k] for k in ('m', 'N', 'cp')}
        try:
            with guarded(60):
                r = check(b, c)
                o = [x for x in docs if x['m'] == b['m'] and x['N'] == b['N'] and x['cp'] != b['cp']]
                if not r and o and b['m'] != 'Jess':
                    r = changed(b, o[0], c)
        except Exception as e:
            r = 'raises', 'raised %s: %s' % (type(e).__name__, str(e)[:150])
        c.impl_steps += b['N'] - 1
        c.traces += 1
        c.count('%s:%d' % (b['m'], b['N']))
        if r:
            c.violation('%s:%s' % (r[0], b['m']), '%s: %s' % (info, r[1]), b)
            if c.too_many():
                break
    c.sample(dict(model=docs[0]['m'], N=docs[0]['N'], cp=docs[0]['cp'][:docs[0]['ncp']]))
