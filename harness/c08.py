import replay_reg
from hlib import *
import lib.mpslib.mps as mpslib


def ring(x):
    """Tr(A1..AN M C) with the centre matrix wherever it rests and the connector at the end"""
    ts = [np.asarray(t) for t in x.tolist()]
    c = np.asarray(x._connector)
    ts[-1] = np.tensordot(ts[-1], c, ([1], [0])).transpose(0, 2, 1)
    y = dense_tensors(ts)
    return np.einsum('aka->k', y)


def vector(x, obc):
    return dense(x) if obc else x._Z * ring(x)


def parallel(v, w):
    n, m = np.linalg.norm(v), np.linalg.norm(w)
    return n > 0 and m > 0 and abs(abs(np.vdot(v, w)) - n * m) <= 1e-8 * n * m


class Run:
    def __init__(self, beh):
        self.b = beh
        self.objs = {}
        self.u = self.t = self.m = None
        self.pub = {}

    def snapshot(self):
        return [a.copy() for l in (self.u, self.t, [self.m] if self.m is not None else None) if l is not None for a in l]

    def step(self, e):
        M, dims = mpslib.MPS, self.b['dims']
        op = e['op']
        if op == 'NewVecs':
            self.u = [gvec(v) if e['c'] else gvec(v).real.copy() for v in e['v']]
        elif op == 'NewTens':
            f = lambda a: a if e['c'] else a.real.copy()
            self.t = [f(np.stack([gmat(s) for s in site], axis=2)) for site in e['t']]
            self.m = f(gmat(e['m'])) if e['wm'] else None
        elif op == 'SpoilVecs':
            for a in self.u:
                a[...] = 7.5
        elif op == 'SpoilTens':
            for a in self.t + ([self.m] if self.m is not None else []):
                a[...] = -3.25
        elif op == 'SpoilObj':
            x = self.objs[e['o']]
            x[e['n'] - 1][...] *= -2
        elif op == 'SpoilList':
            for a in self.objs[e['o']].tolist():
                a[...] = 11
        elif op == 'Product':
            try:
                x = M.productState(self.u, e['obc'], dtype=complex if e['dt'] else float)
            except ValueError:
                if e['refuse']:
                    return
                raise
            if e['refuse']:
                return 'accept', 'a zero local vector was accepted'
            self.objs[e['o']] = x
        elif op == 'FromList':
            self.objs[e['o']] = M.fromList(self.t, mat=self.m) if self.m is not None else M.fromList(self.t)
        elif op == 'Raw':
            self.objs[e['o']] = M(self.t)
        elif op == 'Make':
            f = getattr(M, e['k'])
            d = dims[0] if e['same'] and len(set(dims)) == 1 and e['obc'] else list(dims)
            self.objs[e['o']] = f(len(dims), e['D'], d, e['obc'], dtype=complex if e['c'] else float)

    def check(self, a, x, fresh):
        dims = self.b['dims']
        K = int(np.prod(dims))
        if len(x) != len(dims) or list(x.d) != list(dims):
            return 'shape', 'length %d, local dimensions %s' % (len(x), list(x.d))
        if bool(x.obc) != a['obc'] and (a['obc'] or x.D[0] != 1):
            return 'obc', 'boundary type %s' % x.obc
        if max(x.D) > max(1, a['D']):
            return 'bond', 'bond dimensions %s above the requested %d' % (x.D, a['D'])
        if np.issubdtype(x.dtype, np.complexfloating) != a['c']:
            return 'dtype', 'data type %s' % x.dtype
        if not a['c'] and any(np.iscomplexobj(t) for t in x.tensors):
            return 'dtype', 'complex tensors in a real state'
        if a['kind'] == 'undef':      # nothing to normalise
            return
        v = vector(x, a['obc'])
        if v.shape != (K,) or not np.all(np.isfinite(v)):
            return 'finite', 'represented vector not finite'
        k = a['kind']
        want = gvec(a['vec']) if a['vec'] else None
        if k in ('exact', 'exact2'):
            if not close(v, want):
                return 'product', 'represents %s expected %s' % (np.round(v[:6], 5), want[:6])
        elif k in ('unit', 'unit2'):
            if a['obc']:
                w = want / np.linalg.norm(want) * (2.0 if k == 'unit2' else 1.0)
                if not close(v, w):
                    return 'list', 'represents %s expected %s' % (np.round(v[:6], 5), np.round(w[:6], 5))
            elif not parallel(v, want):
                return 'ring', 'ring vector %s not proportional to %s' % (np.round(v[:6], 5), want[:6])
        elif k == 'raw':
            if not parallel(v, want):
                return 'raw', 'vector %s not proportional to %s' % (np.round(v[:6], 5), want[:6])
        elif k == 'uniform':
            if not parallel(v, np.ones(K)) or (a['obc'] and abs(np.linalg.norm(v) - 1) > 1e-8):
                return 'ones', 'represents %s' % np.round(v[:6], 5)
        elif k == 'random':
            if a['obc'] and abs(np.linalg.norm(v) - 1) > 1e-8:
                return 'norm', 'norm %s' % np.linalg.norm(v)
            if a['c'] and fresh and is_real(np.concatenate([np.ravel(t) for t in x.tensors])):
                return 'random', 'complex random state without imaginary parts'
        elif k == 'zero':
            if np.max(np.abs(v)) > 1e-12:
                return 'zero', 'represents %s' % v[:6]
        if fresh and k in ('unit', 'random', 'uniform'):
            for n, t in enumerate(x.tensors):
                q = np.tensordot(t, np.conj(t), ([0, 2], [0, 2]))
                if not close(q, np.eye(q.shape[0])):
                    return 'ortho', 'site %d of a new state is not left-orthonormal' % n
            if x.pos != len(x):
                return 'pos', 'centre of a new state at %s' % x.pos
        if k == 'random':
            if fresh:
                x._verif = v
            elif not close(v, x._verif):
                return 'alias', 'a random state changed'


def run(c):
    cfg = '''CONSTANTS
  DimsSet <- RunDims
  MaxSteps = 22
  Entries <- RunEntries
  Bonds = {1, 2, 3}
SPECIFICATION Spec
INVARIANT ProductsAreProducts
PROPERTIES InputsDoNotLeak OneObject
'''
    docs, _ = c.tlc('Constructors', cfg, simulate=120 if c.quick else 2000, depth=30,
                    defs=dict(RunDims='{<<2,2>>, <<2,2,2>>, <<2,3,2>>, <<3,1,2>>, <<2,2,2,2>>, <<4,2>>, <<2,2,3>>}', RunEntries='-1..2'))
    for b in docs:
        r = Run(b)
        for i, item in enumerate(b['log']):
            e = item['e']
            before = r.snapshot() if e['op'] not in ('NewVecs', 'NewTens', 'SpoilVecs', 'SpoilTens') else None
            try:
                with guarded(30):
                    bad = r.step(e)
                    if before is not None and any(not np.array_equal(p, q) for p, q in zip(before, r.snapshot())):
                        bad = 'input', 'inputs were changed'
                    if not bad:
                        for o, a in enumerate(item['obj'], 1):
                            if a['kind'] != 'none':
                                if a['kind'] == 'zero' and not a['obc']:
                                    continue
                                bad = r.check(a, r.objs[o], item['chg'] == o and e['op'] in ('Make', 'FromList'))
                                if bad:
                                    bad = (bad[0], 'object %d: %s' % (o, bad[1]))
                                    break
            except Exception as ex:
                bad = 'raises', 'raised %s: %s' % (type(ex).__name__, str(ex)[:200])
            c.impl_steps += 1
            c.count(e['op'] + (':' + e['k'] if e['op'] == 'Make' else ''))
            if bad:
                c.violation('%s:%s' % (bad[0], e['op']), 'step %d %s: %s' % (i, {k: v for k, v in e.items() if k not in ('t', 'm')}, bad[1]), b)
                break
        c.traces += 1
        if c.too_many():
            break
    c.sample(dict(dims=docs[0]['dims'], ops=[i['e']['op'] for i in docs[0]['log']]))
    # products and tensor lists mixed with all other operations on states
    replay_reg.simulate_and_replay(c, ['NewProduct', 'NewTensors', 'Arith', 'Position', 'Copy'], 60 if c.quick else 600, 15, seed_off=8)
