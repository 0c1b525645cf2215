"""Replays histories generated by specs/MPSReg.tla on lib.mpslib.mps.MPS."""
import os, math, shutil, tempfile, traceback
from hlib import *

OBS = {'Dot', 'Local', 'List', 'MatEl', 'Corr', 'Schmidt'}


class Mismatch(Exception):
    def __init__(self, key, what):
        Exception.__init__(self, what)
        self.key, self.what = key, what


class Replayer:
    def __init__(self, scratch):
        import lib.mpslib.mps as mpslib
        self.MPS = mpslib.MPS
        self.dir = tempfile.mkdtemp(prefix='reg-', dir=scratch)

    # -- expected vector of an abstract register
    @staticmethod
    def expected(a):
        return gvec(a['vec']) * math.sqrt(a['p'] / a['q'])

    def mat(self, m):
        return maybe_real(gmat(m))

    def build_product(self, loc, cplx):
        vs = [gvec(l) if cplx else gvec(l).real.copy() for l in loc]
        return self.MPS.productState(vs, True, dtype=complex if cplx else float)

    def build_tensors(self, t, cplx):
        ts = []
        for site in t:
            A = np.stack([gmat(s) for s in site], axis=2)
            ts.append(A if cplx else A.real.copy())
        Dr = ts[-1].shape[1]
        return self.MPS.fromList(ts, mat=np.eye(Dr))

    def run(self, beh, on_step=None):
        """Raises Mismatch at the first disagreement; returns number of compared steps."""
        dims, cplx = beh['dims'], beh['cplx']
        self.dims = dims
        objs, exp = {}, {}
        self.exp = exp
        steps = 0
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        for i, item in enumerate(beh['log']):
            e = item['e']
            op = e['op']
            try:
                with guarded(60):
                    self.apply(op, e, objs, cplx)
            except Mismatch as m:
                raise Mismatch(m.key, 'step %d %s: %s' % (i, op, m.what))
            except Exception as ex:
                raise Mismatch('raises:' + op, 'step %d %s raised %s: %s' % (i, op, type(ex).__name__, str(ex)[:200]))
            for a in item['ch']:
                exp[a['r']] = a
            for r, a in exp.items():
                try:
                    self.compare(r, a, objs[r], op, r in [x['r'] for x in item['ch']])
                except Mismatch as m:
                    raise Mismatch(m.key, 'step %d %s: %s' % (i, op, m.what))
                except Exception as ex:
                    raise Mismatch('unreadable:' + op, 'step %d %s: register %d unusable: %s: %s' % (
                        i, op, r, type(ex).__name__, str(ex)[:200]))
            steps += 1
            if on_step:
                on_step(op)
        return steps

    # ------------------------------------------------------------------
    def apply(self, op, e, o, cplx):
        r = e.get('r')
        if op == 'NewProduct':
            o[r] = self.build_product(e['loc'], e['c'])
        elif op == 'NewTensors':
            o[r] = self.build_tensors(e['t'], e['c'])
        elif op == 'Position':
            o[r].position(e['b'])
        elif op == 'PositionT':
            kw = {}
            if e['t']:
                kw['schmidt_thresh'] = e['t'] / 10.
            if e['D']:
                kw['D'] = e['D']
            o[r].position(e['b'], **kw)
        elif op == 'Schmidt':
            s = np.sort(np.asarray(o[r].getSchmidt(e['b'])))[::-1]
            want = e['pur'] / float(e['nrm']) ** 2
            n2 = float(np.sum(s ** 2))
            if abs(n2 - 1) > 1e-8 or abs(float(np.sum(s ** 4)) - want) > 1e-8:
                raise Mismatch('schmidt', 'Schmidt values %s: sum of squares %.10f (want 1), purity %.10f (want %.10f)' % (
                    s, n2, float(np.sum(s ** 4)), want))
            b = e['b']
            v = gvec(self.exp[r]['vec']).reshape(int(np.prod(self.dims[:b])), -1)
            ref = np.linalg.svd(v / np.linalg.norm(v), compute_uv=False)
            m = max(len(ref), len(s))
            if not close(np.pad(s, (0, m - len(s))), np.pad(ref, (0, m - len(ref))), 1e-7):
                raise Mismatch('schmidt', 'Schmidt values %s, exact %s' % (s, ref))
        elif op == 'Canonize':
            o[r].canonize()
            self.gamma_lambda(e, r, o[r]._gamma, o[r]._lambda)
        elif op in ('Mul', 'RMul', 'IMul'):
            z = G(e['z']) if cplx else e['z'][0]
            if op == 'Mul':
                o[e['s']] = o[r] * z
            elif op == 'RMul':
                o[e['s']] = z * o[r]
            else:
                x = o[r]
                x *= z
                o[r] = x
        elif op == 'Div':
            o[e['s']] = o[r] / e['z']
        elif op == 'IDiv':
            x = o[r]
            x /= e['z']
            o[r] = x
        elif op == 'Neg':
            o[e['s']] = -o[r]
        elif op == 'conj':
            o[r].conj()
        elif op == 'conjugate':
            o[e['s']] = o[r].conjugate()
        elif op == 'Add':
            o[e['s']] = o[r] + o[e['r2']]
        elif op == 'Sub':
            o[e['s']] = o[r] - o[e['r2']]
        elif op == 'IAdd':
            x = o[r]
            x += o[e['r2']]
            o[r] = x
        elif op == 'ISub':
            x = o[r]
            x -= o[e['r2']]
            o[r] = x
        elif op == 'Copy':
            c = o[r].copy()
            if c.dtype != o[r].dtype or c.obc != o[r].obc or c.pos != o[r].pos or c.Dmax != o[r].Dmax or len(c) != len(o[r]):
                raise Mismatch('copy-attr', 'copy has dtype/obc/pos/Dmax/len %s, original %s' % (
                    (c.dtype, c.obc, c.pos, c.Dmax, len(c)), (o[r].dtype, o[r].obc, o[r].pos, o[r].Dmax, len(o[r]))))
            o[e['s']] = c
        elif op == 'Poke':
            t = o[r][e['n'] - 1]
            t *= e['z']
            o[r][e['n'] - 1] = t
        elif op == 'Derivative':
            h = 2.0 ** -26
            x = o[r].copy()
            n = e['n'] - 1
            x[n] = x[n] + h * np.tensordot(x[n], self.mat(e['m']), ([2], [0])).astype(x[n].dtype if not cplx else complex)
            if e['o'] == 'Sub':
                y = x - o[r]
            elif e['o'] == 'ISub':
                y = x
                y -= o[r]
            else:
                y = x + (-o[r])
            got, want = dense(y) / h, gvec(e['vec']) * math.sqrt(self.exp[r]['p'] / self.exp[r]['q'])
            scale = max(1.0, np.linalg.norm(self.expected(self.exp[r])), np.linalg.norm(want))
            if got.shape != want.shape or not np.max(np.abs(got - want)) <= 1e-5 * scale:
                raise Mismatch('derivative', 'difference quotient of close states is off by %.3g (norm %.3g)' % (
                    np.max(np.abs(got - want)) if got.shape == want.shape else -1, np.linalg.norm(want)))
        elif op == 'SetDmax':
            o[r].Dmax = e['D']
        elif op == 'Save':
            o[r].save(os.path.join(self.dir, 'f0.%d' % e['f']))
            self.saved = getattr(self, 'saved', {})
            x = o[r]
            self.saved[e['f']] = (x.dtype, x.obc, x.pos, x.Dmax, len(x), list(x.D), list(x.d))
        elif op == 'Load':
            o[r].load(os.path.join(self.dir, 'f0.%d' % e['f']))
            x = o[r]
            got = (x.dtype, x.obc, x.pos, x.Dmax, len(x), list(x.D), list(x.d))
            if got != self.saved[e['f']]:
                raise Mismatch('load-attr', 'loaded state has dtype/obc/pos/Dmax/len/D/d %s, saved %s' % (got, self.saved[e['f']]))
        elif op == 'OneSite':
            o[r].applyOneSiteGate(self.mat(e['m']), e['n'] - 1, preserve_position=e['keep'])
        elif op == 'TwoSite':
            n = e['n']
            d1, d2 = self.dims[n - 1], self.dims[n]
            g = self.mat(e['m']).reshape(d1, d2, d1, d2)
            res = o[r].applyTwoSiteGate(g, n - 1, Dmax=1000)
            tw, D = res
            if not abs(tw) < 1e-10:
                raise Mismatch('tw', 'truncated weight %r reported although nothing was truncated' % (tw,))
            if D != o[r].D[n]:
                raise Mismatch('gateD', 'reported bond dimension %r, actual %r' % (D, o[r].D[n]))
        elif op == 'NoTrunc':
            o[r].Dmax = 64
            o[r].truncate(1e-15, D=max(e['D'], max(o[r].D)))
        elif op == 'Dot':
            pa, pb = o[r].pos, o[e['r2']].pos
            self.cmpval('dot', o[r].dot(o[e['r2']]), e['val'])
            if (o[r].pos, o[e['r2']].pos) != (pa, pb):
                raise Mismatch('dot-pos', 'overlap moved a centre')
            import lib.mpslib.mpsfunctions as mf
            l = mf.overlap(o[r].tolist(), o[e['r2']].tolist())
            self.cmpval('dot-lists', l * o[r]._Z * np.conj(o[e['r2']]._Z), e['val'])
        elif op == 'Local':
            p = o[r].pos
            self.cmpval('local', o[r].measureLocal(self.mat(e['m']), e['n'] - 1), e['val'])
            if o[r].pos != p:
                raise Mismatch('local-pos', 'local measurement moved the centre')
        elif op == 'List':
            got = o[r].measureList([self.mat(m) for m in e['ms']])
            if len(got) != len(e['vals']):
                raise Mismatch('list', 'measured list has length %d' % len(got))
            for g, v in zip(got, e['vals']):
                self.cmpval('list', g, v)
        elif op == 'MatEl':
            got = o[r].measureMatrixElementList(o[e['r2']], [self.mat(m) for m in e['ms']])
            if got is None:
                raise Mismatch('matel', 'matrix-element measurement returned None')
            for g, v in zip(np.asarray(got).ravel(), e['vals']):
                self.cmpval('matel', g, v)
            if np.asarray(got).size != len(e['vals']):
                raise Mismatch('matel', 'wrong number of matrix elements')
        elif op == 'Corr':
            ops = [self.mat(m) for m in e['ms']]
            P = [self.mat(p) for p in e['ps']] if e['jw'] else None
            got = o[r].measure(ops, [s - 1 for s in e['sites']], P=P)
            self.cmpval('corr', got, e['val'])
        elif op == 'Ortho':
            self.ortho(e, o[r])
        else:
            raise RuntimeError('unknown op ' + op)

    def ortho(self, e, x):
        import lib.mpslib.mpsfunctions as mf
        want = self.expected(self.exp[e['r']])
        # single tensors, with the phases of either factor fixed
        n, dr = e['from'] - 1, e['dir']
        t = np.array(x.tolist()[n])
        for fix in ((None, 'q', 'r') if e['m'] == 'qr' else (False, True)):
            if e['m'] == 'qr':
                out, mat, Z = mf.prepareTensor(t.copy(), dr, fixphase=fix)
                iso = out
            else:
                out, lam, v, Z = mf.prepareTensorSVD(t.copy(), dr, fixphase=fix)
                mat = np.diag(lam).dot(v) if dr > 0 else v.dot(np.diag(lam))
                if np.min(lam) < 0 or abs(np.linalg.norm(lam) - 1) > 1e-9 or np.any(np.diff(lam) > 1e-12):
                    raise Mismatch('ortho-values', 'singular values %s' % lam)
            back = (np.tensordot(out, mat, ([1], [0])).transpose(0, 2, 1) if dr > 0 else np.tensordot(mat, out, ([1], [0]))) * Z
            if not close(back, t) or abs(np.linalg.norm(mat) - 1) > 1e-9:
                raise Mismatch('ortho-factors', 'the factors of tensor %d (%s, fixphase %s) do not multiply to it' % (n, e['m'], fix))
            self.isometry(out, 'L' if dr > 0 else 'R', 'tensor %d (fixphase %s)' % (n, fix))
            if fix:
                # the matricised isometry of the documented decomposition: (d l1, D) to the right, (D, l2 d) to the left
                if fix == 'r':
                    dg = np.diag(mat)
                elif dr > 0:
                    dg = np.diag(np.transpose(out, (2, 0, 1)).reshape(-1, out.shape[1]))
                elif e['m'] == 'qr':
                    dg = np.diag(np.reshape(out, (out.shape[0], -1), order='F'))
                else:
                    dg = np.diag(np.reshape(out, (out.shape[0], -1)))
                if np.max(np.abs(dg - np.abs(dg))) > 1e-9:
                    raise Mismatch('ortho-phase', 'fixphase %s, direction %d: diagonal %s' % (fix, dr, dg))
        ts = [np.array(t) for t in x.tolist()]
        mat = {'qr': mf.orthonormalizeQR, 'svd': mf.orthonormalizeSVD}[e['m']](ts, dr, e['from'] - 1, e['to'] - 1)
        if e['whole']:
            if dr > 0:
                ts[-1] = np.tensordot(ts[-1], mat, ([1], [0])).transpose(0, 2, 1)
            else:
                ts[0] = np.tensordot(mat, ts[0], ([1], [0]))
        got = dense_tensors(ts)[0, :, 0] * x._Z
        if e['whole']:
            if not close(got, want):
                raise Mismatch('ortho-state', 'the sweep and its last matrix represent another state (max dev %.3g)' % np.max(np.abs(got - want)))
        elif abs(np.vdot(got, want)) < (1 - 1e-9) * np.linalg.norm(got) * np.linalg.norm(want) or np.linalg.norm(got) == 0:
            raise Mismatch('ortho-state', 'a sweep over sites %d..%d leaves another state' % (e['from'], e['to']))
        for n, f in enumerate(e['flags']):
            if f != 'N' and not (e['whole'] and n == (len(ts) - 1 if dr > 0 else 0)):
                self.isometry(ts[n], f, 'site %d after the sweep' % n)

    @staticmethod
    def isometry(t, f, what):
        m = np.tensordot(t, t.conj(), ([0, 2], [0, 2]) if f == 'L' else ([1, 2], [1, 2]))
        if not close(m, np.eye(m.shape[0])):
            raise Mismatch('ortho-iso', '%s is not %s-orthonormal (dev %.3g)' % (what, f, float(np.max(np.abs(m - np.eye(m.shape[0]))))))

    def gamma_lambda(self, e, r, gam, lam):
        v = gvec(self.exp[r]['vec'])
        v = v / np.linalg.norm(v)
        if len(gam) != len(self.dims) or len(lam) != len(self.dims) + 1:
            raise Mismatch('canonical-form', '%d gammas and %d lambdas for %d sites' % (len(gam), len(lam), len(self.dims)))
        for b in range(1, len(self.dims)):
            ref = np.linalg.svd(v.reshape(int(np.prod(self.dims[:b])), -1), compute_uv=False)
            s = np.sort(np.asarray(lam[b]))[::-1]
            m = max(len(ref), len(s))
            if not close(np.pad(s, (0, m - len(s))), np.pad(ref, (0, m - len(ref))), 1e-7) or \
                    abs(float(np.sum(s ** 4)) - e['pur'][b - 1] / float(e['nrm']) ** 2) > 1e-8:
                raise Mismatch('canonical-form', 'lambda[%d]=%s, Schmidt values are %s' % (b, s, ref))
        w = np.ones((1, 1))
        for n, g in enumerate(gam):
            w = np.tensordot(w * np.asarray(lam[n])[None, :], g, ([1], [0]))      # (p, D, d)
            w = np.transpose(w, (0, 2, 1)).reshape(-1, g.shape[1])
        w = (w * np.asarray(lam[-1])[None, :]).reshape(-1)
        if abs(abs(np.vdot(v, w)) - 1) > 1e-7 or abs(np.linalg.norm(w) - 1) > 1e-7:
            raise Mismatch('canonical-form', 'gammas and lambdas contract to a different state (overlap %.8f, norm %.8f)' % (
                abs(np.vdot(v, w)), np.linalg.norm(w)))

    def cmpval(self, key, got, v):
        want = val(v)
        try:
            g = complex(np.asarray(got).reshape(-1)[0]) if np.asarray(got).size == 1 else None
        except Exception:
            g = None
        if g is None or not abs(g - want) <= 1e-8 * max(1.0, abs(want)):
            raise Mismatch(key, 'got %r, exact value %r' % (got, want))

    def compare(self, r, a, x, op, changed):
        want = self.expected(a)
        got = dense(x)
        if not close(got, want):
            raise Mismatch('state:%s%s' % (op, '' if changed else ':other'), 'register %d represents %s..., expected %s... (max dev %.3g)' % (
                r, np.round(got[:6], 6), np.round(want[:6], 6),
                float(np.max(np.abs(got - want))) if got.shape == want.shape else -1))
        if len(x) != len(self.dims) or list(x.d) != list(self.dims):
            raise Mismatch('dims:' + op, 'register %d: local dimensions %s expected %s' % (r, list(x.d), self.dims))
        if x.pos != a['pos']:
            raise Mismatch('pos:' + op, 'register %d: centre at %s, expected %s' % (r, x.pos, a['pos']))
        D = list(x.D)
        if len(D) != len(a['bd']) or any(b > m for b, m in zip(D, a['bd'])):
            raise Mismatch('bonds:' + op, 'register %d: bond dimensions %s exceed %s' % (r, D, a['bd']))
        if a['dm'] and x.Dmax != a['dm']:
            raise Mismatch('Dmax:' + op, 'register %d: bond-dimension limit %s expected %s' % (r, x.Dmax, a['dm']))
        ts = x.tensors
        for n, f in enumerate(a['g']):
            t = np.asarray(ts[n])
            if f == 'L':
                m = np.tensordot(t, t.conj(), ([0, 2], [0, 2]))
            elif f == 'R':
                m = np.tensordot(t, t.conj(), ([1, 2], [1, 2]))
            else:
                continue
            if not close(m, np.eye(m.shape[0])):
                raise Mismatch('ortho:' + op, 'register %d: site %d is not %s-orthonormal (dev %.3g)' % (
                    r, n, f, float(np.max(np.abs(m - np.eye(m.shape[0]))))))


def reg_cfg(num_steps, kinds, dims=None, maxamp=60, nregs=3, cplx='{TRUE, FALSE}'):
    cfg = '''CONSTANTS
  DimsSet <- RunDims
  NRegs = %d
  MaxSteps = %d
  MaxAmp = %d
  Kinds <- RunKinds
  Exhaustive = FALSE
  Entries <- RunEntries
  CplxSet <- RunCplx
SPECIFICATION Spec
''' % (nregs, num_steps, maxamp)
    defs = dict(RunDims=dims or '{<<2,2,2>>, <<2,2,2,2>>, <<2,3,2>>, <<3,2,2>>, <<2,2>>, <<2,2,3>>, <<3,3>>, <<2,2,2,2,2>>}',
                RunKinds='{%s}' % ', '.join('"%s"' % k for k in kinds), RunEntries='-1..2', RunCplx=cplx)
    return cfg, defs


EX_CFG = '''CONSTANTS
  DimsSet <- RunDims
  NRegs = 2
  MaxSteps = %d
  MaxAmp = 3
  Kinds <- RunKinds
  Exhaustive = TRUE
  Entries <- RunEntries
  CplxSet <- RunCplx
SPECIFICATION Spec
INVARIANTS TypeOK EdgeBonds BoundsSound CanonMeaning InnerHermitian CauchySchwarz PurityBound
PROPERTIES OneTarget
'''


def exhaustive(c, kinds, steps=3, dims='{<<2,2>>}', entries='{0,1}', cplx='{FALSE}', timeout=600):
    return c.bfs('MPSReg', EX_CFG % steps, defs=dict(RunDims=dims, RunKinds='{%s}' % ', '.join('"%s"' % k for k in kinds),
                 RunEntries=entries, RunCplx=cplx), workers=4, timeout=timeout)


def simulate_and_replay(c, kinds, num, steps, dims=None, cplx='{TRUE, FALSE}', seed_off=0, nregs=3):
    cfg, defs = reg_cfg(steps, kinds, dims, cplx=cplx, nregs=nregs)
    docs, info = c.tlc('MPSReg', cfg, simulate=num, depth=steps + 5, defs=defs, seed=c.seed + seed_off, timeout=800)
    import lib.mpslib.mps

    def one(i, b):
        try:
            c.impl_steps += Replayer(c.scratch).run(b, on_step=lambda op: c.count(op))
            c.traces += 1
        except Mismatch as m:
            c.violation(m.key, m.what, dict(spec='MPSReg', behaviour=b))
    c.each(docs, one)
    if docs:
        c.sample(dict(spec='MPSReg', dims=docs[0]['dims'], cplx=docs[0]['cplx'], ops=[short_op(i['e']) for i in docs[0]['log']][:12]), limit=2)
    return docs


def short_op(e):
    return {k: v for k, v in e.items() if k in ('op', 'r', 'r2', 's', 'b', 'n', 'z', 'f', 'D', 'sites', 'jw', 'val')}
