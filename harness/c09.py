import lattice
from hlib import *


def container(c, b, mpo):
    """the operator container copies its tensors and keeps length and type"""
    import lib.mpslib.Hamiltonians as ham
    ts = [np.array(mpo[n]) for n in range(b['N'])]
    src = [t.copy() for t in ts]
    x = ham.MPO.fromlist(src)
    y = ham.MPO.fromMPO(mpo)
    for n, t in enumerate(src):
        t[...] = 7
    if len(x) != len(ts) or len(y) != len(ts) or any(not np.array_equal(x[n], ts[n]) or not np.array_equal(y[n], ts[n]) for n in range(len(ts))):
        return 'operator built from a list or another operator differs from it, or aliases it'
    y[0] = 2 * ts[0]
    if not np.array_equal(mpo[0], ts[0]) or not np.array_equal(y[0], 2 * ts[0]):
        return 'replacing a tensor of a copied operator is wrong or visible in the original'
    if x.dtype != np.result_type(*ts) or np.dtype(y.dtype) != np.dtype(mpo.dtype):
        return 'data types %s %s of copied operators' % (x.dtype, y.dtype)


def run(c):
    docs = lattice.simulate(c, 250 if c.quick else 3000, 6)
    for b in docs:
        info = {k: b[k] for k in ('m', 'N', 'obc', 'R', 'cp')}
        key = '%s:%s' % (b['m'], 'obc' if b['obc'] else 'inf')
        want = lattice.exact(b)
        types = [None, complex] if b['m'] != 'Jess' else [None]
        for dt in types:
            try:
                with guarded(30):
                    mpo = lattice.build(b, dt)
                    if len(mpo) != b['N']:
                        c.violation('length:' + key, '%s: %d sites expected %d' % (info, len(mpo), b['N']), b)
                        continue
                    got = lattice.dense_op(mpo, b)
            except Exception as e:
                c.violation('raises:' + key, '%s raised %s: %s' % (info, type(e).__name__, str(e)[:150]), b)
                continue
            if not close(got, want):
                i = np.unravel_index(np.argmax(np.abs(got - want)), got.shape)
                c.violation('operator:' + key, '%s: entry %s is %s, expected %s' % (info, i, got[i], want[i]), b)
            c.impl_steps += 1
            c.count(key)
        try:
            with guarded(30):
                r = container(c, b, mpo)
        except Exception as e:
            r = 'raised %s: %s' % (type(e).__name__, str(e)[:150])
        if r:
            c.violation('container', '%s: %s' % (info, r), b)
        c.traces += 1
        if c.too_many():
            break
    c.sample(dict(model=docs[0]['m'], N=docs[0]['N'], obc=docs[0]['obc'], R=docs[0]['R'], cp=docs[0]['cp'][:docs[0]['ncp']]))
