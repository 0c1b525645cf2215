"""Replays histories of specs/SchmidtTrunc.tla on MPS truncation and gates."""
import math
from hlib import *
from replay_reg import Mismatch


def build(MPS, dims, v):
    """a state object for the vector v, assembled by the library's own arithmetic from basis states"""
    out = None
    for i, a in enumerate(v):
        if a == 0:
            continue
        loc, r = [], i
        for d in reversed(dims):
            x = np.zeros(d)
            x[r % d] = 1.0
            r //= d
            loc.insert(0, x)
        t = MPS.productState(loc, True) * (a.real if a.imag == 0 else a)
        out = t if out is None else out + t
    return out


def threshold(t):
    return math.sqrt(t[0] / t[1])


def compare(x, item, dims, op):
    want = gvec(item['vec']) * math.sqrt(item['p'] / item['q'])
    got = dense(x)
    if not close(got, want):
        raise Mismatch('trunc-state:' + op, 'state %s..., expected %s... (max dev %.3g, norms %.6g/%.6g)' % (
            np.round(got[:6], 5), np.round(want[:6], 5), float(np.max(np.abs(got - want))), np.linalg.norm(got), np.linalg.norm(want)))
    if x.pos != item['pos']:
        raise Mismatch('trunc-pos:' + op, 'centre at %s expected %s' % (x.pos, item['pos']))
    # width of each bond; at the centre bond the matrix may be rectangular and its smaller side is the width
    D = [1] + [min(np.asarray(x.tensors[n]).shape[1], np.asarray(x.tensors[n + 1]).shape[0]) for n in range(len(dims) - 1)] + [1]
    if item['e'].get('soft'):
        b, lim = item['e']['soft']
        sv = np.linalg.svd(got.reshape(int(np.prod(dims[:b])), -1), compute_uv=False)
        if np.sum(sv > 1e-7 * sv[0]) > lim:
            raise Mismatch('trunc-centre:' + op, 'Schmidt rank at the centre exceeds the limit %s' % lim)
    if any(a > b for a, b in zip(D, item['bd'])):
        raise Mismatch('trunc-D:' + op, 'bond dimensions %s exceed %s' % (D, item['bd']))
    for n, t in enumerate(x.tensors):
        t = np.asarray(t)
        ax = [0, 2] if n < x.pos else [1, 2]
        m = np.tensordot(t, t.conj(), (ax, ax))
        if not close(m, np.eye(m.shape[0])):
            raise Mismatch('trunc-ortho:' + op, 'site %d not orthonormal after %s' % (n, op))


def tied(x, e, item, dims):
    """the limit cuts a group of equal Schmidt values: everything but the choice within the group is checked"""
    old = gvec(item['vec']) * math.sqrt(item['p'] / item['q'])
    D, b, tw = e['D'], e['b'], None
    if e['how'] == 'truncate':
        x.Dmax = 1000
        x.truncate(1e-15, D=D)
        bonds = list(range(1, len(dims)))
    elif e['how'] == 'move':
        x.position(b, D=D)
        bonds = [b]
    else:
        d1, d2 = dims[b - 1], dims[b]
        tw, Dg = x.applyTwoSiteGate(np.eye(d1 * d2).reshape(d1, d2, d1, d2), b - 1, Dmax=D, thresh=1e-14)
        bonds = [b]
        if Dg > D or Dg != x.D[b]:
            raise Mismatch('tied-gateD', 'reported bond dimension %r, actual %r, limit %r' % (Dg, x.D[b], D))
    new = dense(x)
    for c in bonds:
        sv = np.linalg.svd(new.reshape(int(np.prod(dims[:c])), -1), compute_uv=False)
        if min(np.asarray(x.tensors[c - 1]).shape[1], np.asarray(x.tensors[c]).shape[0]) > D or np.sum(sv > 1e-7 * sv[0]) > D:
            raise Mismatch('tied-D:' + e['how'], 'bond %d is wider than the limit %d (degenerate Schmidt values)' % (c, D))
    n0 = np.linalg.norm(old)
    if abs(np.linalg.norm(new) - n0) > 1e-8 * n0:
        raise Mismatch('tied-norm:' + e['how'], 'norm %r, before %r' % (np.linalg.norm(new), n0))
    if e['kept']:
        fid, want = abs(np.vdot(old, new)) ** 2 / n0 ** 4, e['kept'] / float(e['nrm'])
        if abs(fid - want) > 1e-8 or (tw is not None and abs(tw - (1 - want)) > 1e-8):
            raise Mismatch('tied-weight:' + e['how'], 'kept weight %r (reported discarded %r), exact kept weight %r' % (fid, tw, want))


def run_beh(beh, on_step=None):
    import lib.mpslib.mps as mpslib
    dims = beh['dims']
    x, steps = None, 0
    for i, item in enumerate(beh['log']):
        e = item['e']
        op = e['op']
        try:
            with guarded(60):
                if op == 'Build':
                    x = build(mpslib.MPS, dims, gvec(item['vec']))
                    x.position(0)
                    x.position(len(dims))
                elif op == 'Move':
                    x.position(e['b'])
                elif op == 'MoveTrunc':
                    t = threshold(e['t'])
                    x.position(e['b'], schmidt_thresh=t if t > 0 else 1e-16, D=e['D'])
                elif op == 'Truncate':
                    t = threshold(e['t'])
                    x.Dmax = 1000
                    x.truncate(t if t > 0 else 1e-15, D=e['D'] if e['useD'] else None)
                elif op == 'Gate':
                    n = e['n']
                    d1, d2 = dims[n - 1], dims[n]
                    t = threshold(e['t'])
                    g = maybe_real(gmat(e['m'])).reshape(d1, d2, d1, d2)
                    tw, D = x.applyTwoSiteGate(g, n - 1, Dmax=e['D'], thresh=t if t > 0 else 1e-14)
                    want = e['disc'] / float(e['ref'])
                    if not abs(tw - want) <= 1e-9 * max(1, want):
                        raise Mismatch('trunc-weight', 'reported truncated weight %r, exact %r' % (tw, want))
                    if D > e['D'] or D != x.D[n]:
                        raise Mismatch('trunc-gateD', 'reported bond dimension %r, actual %r, limit %r' % (D, x.D[n], e['D']))
                elif op == 'Tied':
                    tied(x, e, item, dims)
                    steps += 1
                    if on_step:
                        on_step('trunc:Tied-' + e['how'])
                    continue
                compare(x, item, dims, op)
        except Mismatch as m:
            raise Mismatch(m.key, 'step %d %s: %s' % (i, {k: v for k, v in e.items() if k != 'm'}, m.what))
        except Exception as ex:
            raise Mismatch('raises:' + op, 'step %d %s raised %s: %s' % (i, op, type(ex).__name__, str(ex)[:200]))
        steps += 1
        if on_step:
            on_step('trunc:' + op)
    return steps


def simulate(c, num, steps, ops, seed_off=100):
    cfg = '''CONSTANTS
  DimsSet <- RunDims
  MaxSteps = %d
  Exhaustive = FALSE
  Amps <- RunAmps
  MaxNonzero = 7
  Ops <- RunOps
SPECIFICATION Spec
''' % steps
    defs = dict(RunDims='{<<2,2,2,2>>, <<2,3,2>>, <<3,3,3>>, <<2,2,2>>, <<3,2,2,2>>, <<4,4>>}', RunAmps='{1,2,3,5}',
                RunOps='{%s}' % ','.join('"%s"' % o for o in ops))
    docs, info = c.tlc('SchmidtTrunc', cfg, simulate=num, depth=steps + 5, defs=defs, seed=c.seed + seed_off)
    import lib.mpslib.mps

    def one(i, b):
        try:
            c.impl_steps += run_beh(b, on_step=c.count)
            c.traces += 1
        except Mismatch as m:
            c.violation(m.key, m.what, dict(spec='SchmidtTrunc', behaviour=b))
    c.each(docs, one)
    if docs:
        c.sample(dict(spec='SchmidtTrunc', dims=docs[0]['dims'], ops=[{k: v for k, v in i['e'].items() if k != 'm'} for i in docs[0]['log']]), limit=3)
    return docs


EX = '''CONSTANTS
  DimsSet <- RunDims
  MaxSteps = %d
  Exhaustive = TRUE
  Amps <- RunAmps
  MaxNonzero = 7
  Ops <- RunOps
SPECIFICATION Spec
INVARIANTS RankBound Optimal
PROPERTIES NormKept
'''


def exhaustive(c, steps=3, ops=('MoveTrunc', 'Truncate', 'Gate'), amps='{0,1,2,3}', dims='{<<2,2>>,<<2,2,2>>}'):
    return c.bfs('SchmidtTrunc', EX % steps, defs=dict(RunDims=dims, RunAmps=amps, RunOps='{%s}' % ','.join('"%s"' % o for o in ops)), workers=4)
