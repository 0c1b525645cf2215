from hlib import *


CFG = '''CONSTANTS
  MaxTensors = 4
  MaxPos = 4
  MaxNeg = 3
  MaxVol = 600
SPECIFICATION Spec
INVARIANT SameValue
'''


def arr(t):
    a = gvec(t['data']) if t['data'] else np.zeros(0)
    return maybe_real(a).reshape(t['dims'])


def check(ncon, b, c):
    ts = [arr(t) for t in b['net']]
    ls = [list(t['labels']) for t in b['net']]
    keep = ([t.copy() for t in ts], [list(l) for l in ls])

    def unchanged(op):
        for x, y in zip(ts, keep[0]):
            if x.shape != y.shape or not np.array_equal(x, y):
                c.violation('mutates-tensor', '%s changed a tensor passed in' % op, b)
        if ls != keep[1]:
            c.violation('mutates-labels', '%s changed the label lists: %s -> %s' % (op, keep[1], ls), b)
    if b['bad']:
        try:
            with guarded(20):
                r = ncon(ts, ls)
            c.violation('accepts-inconsistent', 'labels %s on shapes %s accepted, result shape %s' % (ls, [t.shape for t in ts], np.shape(r)), b)
        except Hang:
            c.violation('hang', 'inconsistent labels: no answer', b)
        except Exception:
            pass
        unchanged('refused call')
        c.count('refused')
        return 1
    variants = [('default', {}), ('order', dict(order=list(b['order']))), ('forder', dict(forder=list(b['forder']))),
                ('both', dict(order=list(b['order']), forder=list(b['forder']))),
                ('nocheck', dict(order=list(b['order']), check_indices=False))]
    for name, kw in variants:
        want = b['wantf'] if 'forder' in kw else b['want']
        ex = gvec(want['data']).reshape(want['dims'])
        kw0 = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
        try:
            with guarded(20):
                got = np.asarray(ncon(ts, ls, **kw))
        except Exception as e:
            c.violation('raises', 'labels %s %s raised %s: %s' % (ls, kw0, type(e).__name__, str(e)[:150]), b)
            return 1
        if not close(got, ex):
            c.violation('value:' + name, 'labels %s %s: result %s differs from the index sum %s' % (ls, kw0, got.ravel()[:4], ex.ravel()[:4]), b)
        if kw != kw0:
            c.violation('mutates-order', 'labels %s: list passed as %s changed to %s' % (ls, kw0, kw), b)
        unchanged(name)
        c.count(name)
    if len(ts) == 1:     # documented leeway: a single tensor, not in a list
        with guarded(20):
            got = np.asarray(ncon(ts[0], ls[0])) if ls[0] else None
        if got is not None and not close(got, gvec(b['want']['data']).reshape(b['want']['dims'])):
            c.violation('value:single', 'single tensor with labels %s wrong' % ls, b)
    return len(variants)


def run(c):
    import lib.ncon as m
    ncon = m.ncon
    docs, _ = c.tlc('TensorNet', CFG, simulate=600 if c.quick else 8000, depth=16)
    for b in docs:
        c.impl_steps += check(ncon, b, c)
        c.traces += 1
        if c.too_many():
            break
    for b in docs[:2]:
        c.sample(dict(labels=[t['labels'] for t in b['net']], dims=[t['dims'] for t in b['net']], order=b['order'], bad=b['bad']))
