"""C17: infinite states of specs/Markov.tla, whose physics is known exactly, through histories of requests."""
import tempfile
from hlib import *
import infinite as inf
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf

TOL = 2e-6


class Bad(Exception):
    def __init__(self, key, what):
        Exception.__init__(self, what)
        self.key = key


def need(ok, key, what):
    if not ok:
        raise Bad(key, what)


def physics(ts, ref, where, key='physics'):
    need(all(np.all(np.isfinite(t)) for t in ts), key, where + ': tensors are not finite')
    p = inf.Physics(ts)
    dev = p.same(ref)
    need(dev < TOL, key, '%s: reduced density matrices differ by %.2e' % (where, dev))
    return p


def lam_ok(got, want, where):
    got = np.asarray(got)
    need(got.shape == want.shape and np.max(np.abs(got - want)) < TOL, 'schmidt', '%s: Schmidt values %s instead of %s' % (where, got, want))


def rescale(ts, rng):
    return [t * (10.0 ** rng.uniform(-2, 2)) for t in ts]


def history(c, b, us, ts, ref, dd):
    N = b['N']
    x = mpslib.MPS.fromList([t.copy() for t in ts])
    for k, s in enumerate(b['log']):
        e = s['e']
        where = 'request %d %s' % (k + 1, {a: e[a] for a in e if a != 'v'})
        op = e['op']
        if op == 'regauge':
            x.regauge(e['g'])
        elif op == 'position':
            x.position(e['b'])
        elif op == 'canonize':
            x.canonize()
            gamma_lambda(b, x._gamma, x._lambda, ref, where)
        elif op == 'copy':
            y = x.copy()
            for t in x._tensors:
                t *= 0
            x._mat = x._mat * 0
            x._connector = x._connector * 0
            x = y
        elif op == 'file':
            f = os.path.join(dd, 'infinite')
            x.save(f)
            y = mpslib.MPS.zeros(2, 2, 2, obc=False)
            y.load(f)
            x = y
        elif op == 'schmidt':
            lam_ok(x.getSchmidt(e['b']), inf.schmidt(b, e['b']), where)
        elif op == 'conj2':
            x.conj()
            physics([t.conj() for t in inf.cell(x)], ref, where)
            y = x.conjugate()
            need(y is not x, 'alias', where + ': conjugation returned the same object')
            x = y
        elif op == 'measure':
            n, m = e['n'] - 1, e['m'] - 1
            f, g = [(us[j] * np.array(o, float)).dot(us[j].conj().T).T for j, o in ((n, e['f']), (m, e['g']))]
            one = np.eye(f.shape[0])
            if n == m:
                got, nrm = x.measure([f, g], [n, m]), x.measure([one], [n])
            else:
                got, nrm = x.measure([f, g], [n, m]), x.measure([one, np.eye(g.shape[0])], [n, m])
            want = e['v']['num'] / e['v']['den']
            need(abs(got / nrm - want) < TOL * max(1, abs(want)), 'measure', '%s: measured %s, exact %s' % (where, got / nrm, want))
        else:
            raise AssertionError(op)
        c.impl_steps += 1
        c.count('request:' + op + (':' + e['g'] if op == 'regauge' else ''))
        if op == 'regauge' and e['g'] != 'right' or op == 'canonize':
            need(x.pos == s['pos'], 'centre', '%s: centre at bond %s instead of %d' % (where, x.pos, s['pos']))
        else:
            need(x.pos == s['pos'], 'centre', '%s: centre at bond %s instead of %d' % (where, x.pos, s['pos']))
        need(len(x) == N and [t.shape for t in x._tensors] == [t.shape for t in ts], 'shape', '%s: shapes %s' % (where, [t.shape for t in x._tensors]))
        for n in range(N):
            dev = {'L': inf.left_dev, 'R': inf.right_dev}[s['flag'][n]](x._tensors[n])
            need(dev < TOL, 'orthonormal', '%s: site %d is not %s orthonormal (%.1e)' % (where, n, {'L': 'left', 'R': 'right'}[s['flag'][n]], dev))
        physics(inf.cell(x), ref, where)
        if s['sch']:
            lam_ok(np.linalg.svd(x._mat)[1] / np.linalg.norm(x._mat), inf.schmidt(b, x.pos), where)
    return x


def gamma_lambda(b, G, L, ref, where):
    N = b['N']
    need(len(G) == N and len(L) == N + 1, 'canonical', '%s: %d gammas, %d lambdas' % (where, len(G), len(L)))
    for n in range(N + 1):
        lam_ok(L[n], inf.schmidt(b, n), '%s, lambda[%d]' % (where, n))
    for n in range(N):
        l = inf.left_dev(np.tensordot(np.diag(L[n]), G[n], ([1], [0])))
        r = inf.right_dev(np.tensordot(G[n], np.diag(L[n + 1]), ([1], [0])).transpose(0, 2, 1))
        need(l < TOL and r < TOL, 'canonical', '%s: lambda gamma is not left orthonormal (%.1e) or gamma lambda not right orthonormal (%.1e) at site %d' % (where, l, r, n))
    physics([np.tensordot(np.diag(L[n]), G[n], ([1], [0])) for n in range(N)], ref, where + ' (gamma, lambda)', 'canonical')


def lists(c, b, ts, ref):
    """regaugeIMPS on lists"""
    N = b['N']
    for g in ('left', 'right', 'symmetric'):
        where = 'regaugeIMPS(%s)' % g
        x = [t.copy() for t in ts]
        lam = mf.regaugeIMPS(x, g)
        need([t.shape for t in x] == [t.shape for t in ts], 'shape', '%s: shapes %s' % (where, [t.shape for t in x]))
        for n in range(N):
            dev = (inf.right_dev if g == 'right' else inf.left_dev)(x[n])
            need(dev < TOL, 'orthonormal', '%s: site %d is not orthonormal (%.1e)' % (where, n, dev))
        p = physics(x, ref, where)
        need(abs(p.eta - 1) < TOL, 'norm', '%s: transfer eigenvalue %s' % (where, p.eta))
        if g == 'symmetric':
            lam = np.asarray(lam)
            lam_ok(np.diag(lam), inf.schmidt(b, 0), where)
            need(np.max(np.abs(lam - np.diag(np.diag(lam)))) < TOL, 'schmidt', where + ': matrix of Schmidt values is not diagonal')
        c.impl_steps += 1
        c.count('list:' + g)
    if min(t.shape[0] for t in ts[:1]) > 1 or N == 1:
        # canonical form of a list (which has to be in symmetric gauge)
        x = [t.copy() for t in ts]
        mf.regaugeIMPS(x, 'symmetric')
        G, L = mf.canonizeMPS(x)
        gamma_lambda(b, G, L, ref, 'canonizeMPS')
        c.impl_steps += 1
        c.count('list:canonize')


def single(c, b, ts, ref):
    """regauge of one tensor"""
    A = ts[0]
    for g in ('left', 'right', 'symmetric'):
        where = 'regauge(%s)' % g
        a0 = A.copy()
        out = mf.regauge(a0, g)
        if g == 'symmetric':
            gamma_lambda(b, [out[0]], [out[1], out[1]], ref, where)
        else:
            t, y = out
            dev = (inf.left_dev if g == 'left' else inf.right_dev)(t)
            need(dev < TOL, 'orthonormal', '%s: not orthonormal (%.1e)' % (where, dev))
            p = physics([t], ref, where)
            need(abs(p.eta - 1) < TOL, 'norm', '%s: transfer eigenvalue %s' % (where, p.eta))
            # the returned matrix carries the old tensor into the new one: left: y^T A = out y^T; right: x out = A x
            y = np.asarray(y)
            p0 = inf.Physics([A])
            As = A / np.sqrt(p0.eta.real)
            if g == 'left':
                d = np.max(np.abs(np.tensordot(y, As, ([0], [0])) - np.tensordot(t, y, ([1], [1])).transpose(0, 2, 1)))
            else:
                d = np.max(np.abs(np.tensordot(y, t, ([1], [0])) - np.tensordot(As, y, ([1], [0])).transpose(0, 2, 1)))
            need(d < 1e-5 * max(1, np.max(np.abs(As))), 'gauge-matrix', '%s: the returned matrix does not connect old and new tensor (%.1e)' % (where, d))
        c.impl_steps += 1
        c.count('single:' + g)


def truncation(c, b, us, ts, rng):
    N = b['N']
    for t in b['trunc']:
        if not t['ok']:
            continue
        keep = [sorted(k) for k in t['keep']]
        ref = inf.Physics(inf.rotate(inf.exact_tensors(b, keep), us))
        if ref.gap > 0.95:
            continue
        want = [len(k) for k in keep] + [len(keep[0])]
        ways = ['list', 'list-small']
        if b['D'][0] > 1 and len(keep[0]) > 1:
            ways += ['object', 'object-thresh', 'object-left', 'object-right']
        if N == 1:
            ways += ['single', 'single-thresh']
        for way in ways:
            where = 'truncation to %d by %s' % (t['c'], way)
            lam0 = inf.schmidt(b, 0)
            cut = (lam0[t['c'] - 1] + lam0[t['c']]) / 2 if t['c'] < len(lam0) else 1e-6
            if way.startswith('list'):
                x = [y.copy() for y in ts]
                lam = mf.regaugeIMPS(x, 'symmetric', truncate=1e-8 if way == 'list' else 2e-15, D=t['c'])
                got = [y.shape[0] for y in x] + [x[-1].shape[1]]
                cell = x
            elif way.startswith('object'):
                x = mpslib.MPS.fromList([y.copy() for y in ts])
                x.position(rng.randint(N + 1))
                g = way.split('-')[1] if '-' in way else None
                x.truncate(cut if g == 'thresh' and N == 1 else 1e-16, D=None if g == 'thresh' and N == 1 else t['c'],
                           returned_gauge=g if g in ('left', 'right') else None)
                got = x.D
                cell = inf.cell(x)
                for n in range(N):
                    dev = (inf.right_dev if g == 'right' else inf.left_dev)(x._tensors[n])
                    need(dev < TOL, 'orthonormal', '%s: site %d is not orthonormal (%.1e)' % (where, n, dev))
            else:
                G, lam, rest = mf.regauge(ts[0].copy(), 'symmetric', trunc=cut if way == 'single-thresh' else 1e-8,
                                          Dmax=t['c'] if way == 'single' else 100)
                got = [G.shape[0], G.shape[1]]
                cell = [np.tensordot(np.diag(lam), G, ([1], [0]))]
                need(abs(np.linalg.norm(lam) - 1) < TOL, 'schmidt', where + ': Schmidt values are not normalised')
            need(list(got) == want, 'kept', '%s: bond dimensions %s instead of %s' % (where, list(got), want))
            physics(cell, ref, where, 'truncated')
            c.impl_steps += 1
            c.count('truncate:' + way)


def rare(c, b, ts, ref):
    """symmetric gauge of states some of whose Schmidt values are tiny: the small ones are there, and the tensors are canonical"""
    N = b['N']
    for way in ('list', 'object') if b['D'][0] > 1 else ('list',):
        where = 'symmetric gauge (%s) of a state with tiny Schmidt values' % way
        if way == 'list':
            x = [t.copy() for t in ts]
            lam = np.diag(np.asarray(mf.regaugeIMPS(x, 'symmetric')))
        else:
            m = mpslib.MPS.fromList([t.copy() for t in ts])
            m.regauge('symmetric')
            lam = np.sort(np.linalg.svd(m._mat)[1] / np.linalg.norm(m._mat))[::-1]
            x = inf.cell(m)
        need([t.shape for t in x] == [t.shape for t in ts], 'shape', '%s: shapes %s' % (where, [t.shape for t in x]))
        want = inf.schmidt(b, 0)
        dev = np.max(np.abs(lam / want - 1))
        need(dev < 1e-3, 'schmidt', '%s: Schmidt values %s instead of %s' % (where, lam, want))
        for n, t in enumerate(x if way == 'list' else m._tensors):
            dev = inf.left_dev(t)
            need(dev < 1e-3, 'orthonormal', '%s: site %d is not orthonormal (%.1e)' % (where, n, dev))
        physics(x, ref, where)
        c.impl_steps += 1
        c.count('rare:' + way)


def run(c):
    docs = inf.simulate(c, 420 if c.quick else 2500, 5, ['regauge', 'position', 'canonize', 'copy', 'file', 'schmidt', 'conj', 'measure'], seed_off=17)
    # cells whose inner bonds are cut differently if the closing bond is not weighed in
    for n, m in (('2..2', '{12}'), ('3..3', '{8}')):
        more = inf.simulate(c, 160 if c.quick else 1200, 0, ['copy'], seed_off=18, N=n, D='{3, 4}', M=m, labels=9, depth=80)
        docs += [b for b in more if any(t['ok'] and t['telling'] for t in b['trunc'])]

    tiny = inf.simulate(c, 60 if c.quick else 600, 0, ['copy'], seed_off=19, N='1..2', D='{2, 3}', home=400000000)
    docs += tiny

    def f(i, b):
        rng = np.random.RandomState((c.seed * 7919 + i) % 2**31)
        us = inf.rotations(b, rng, inf.is_real(b))
        ref = inf.Physics(inf.rotate(inf.exact_tensors(b), us))
        if ref.gap > 0.95:
            c.count('skipped:slow-mixing')
            return
        ts = inf.gauged(b, us)
        if inf.is_real(b):
            ts = [t.real.copy() for t in ts]
        ts = rescale(ts, rng)
        r = inf.check_exact(b, ref, us) if b['one'] else None
        if r is not None:
            raise AssertionError('model and reference disagree: ' + r)
        np.random.seed(rng.randint(2**31 - 1))
        kind = 'real' if inf.is_real(b) else 'complex'
        c.count('states:%s' % kind)
        if any(t['ok'] and t['telling'] for t in b['trunc']):
            c.count('telling-truncations')
        if not b['one']:
            parts = [('rare', lambda: rare(c, b, ts, ref))]
        else:
            parts = [('list', lambda: lists(c, b, ts, ref)), ('truncate', lambda: truncation(c, b, us, ts, rng))]
        if b['N'] == 1:
            parts.append(('single', lambda: single(c, b, ts, ref)))
        if b['one'] and b['D'][0] > 1:
            def h():
                with tempfile.TemporaryDirectory(dir=c.scratch) as dd:
                    history(c, b, us, ts, ref, dd)
            parts.append(('object', h))
        for name, p in parts:
            try:
                with guarded(60):
                    p()
            except Bad as ex:
                c.violation(name + '-' + ex.key, '%s N=%d D=%s %s: %s' % (name, b['N'], b['D'], kind, ex), dict(state=b, index=i))
            except Exception as ex:
                if os.environ.get('VERIF_DEBUG'):
                    import traceback
                    traceback.print_exc()
                c.violation(name + '-exception', '%s N=%d D=%s %s: %s' % (name, b['N'], b['D'], kind, repr(ex)[:200]), dict(state=b, index=i))
        c.traces += 1
    c.each(docs, f)
