"""C13: recorded ground-state searches judged by specs/SearchTrace.tla, with exact Hamiltonians from
specs/LatticeModels.tla."""
import tempfile
from hlib import *
import lattice
import spy as S
from window import Window
import lib.mpslib.engines as en
import lib.mpslib.mps as mpslib

SC = 1000000


def q(x):
    return int(round(min(2000.0, max(-2000.0, float(np.real(x)))) * SC))


def one(c, i, b, H, rid):
    """events of one engine on one model"""
    rng = np.random.RandomState((c.seed * 104729 + i) % 2**31)
    np.random.seed(rng.randint(2**31 - 1))
    N = b['N']
    mpo = lattice.build(b)
    d = mpo[0].shape[2]
    full = d ** (N // 2)
    cplx = bool(np.max(np.abs(H.imag)) > 0)
    kind = ['ss', 'ts'][i % 2]
    solver = ['LAN', 'AR', 'LOBPCG'][(i // 2) % 3]
    D = [full, 2, full, 3, 1][rng.randint(5)]
    if D == 1 and solver == 'AR':
        solver = 'LAN'          # ARPACK refuses complex problems of dimension two with an error of its own
    exactD = D >= full
    big = max(1, int(round(np.linalg.norm(H, 2))))
    ev = []
    with tempfile.TemporaryDirectory(dir=c.scratch) as dd:
        m = mpslib.MPS.random(N, D, d, obc=True, dtype=[complex, float][i % 2] if not cplx else complex)
        m._D = D
        m.position(rng.randint(N + 1))
        # every third search runs on a window of the chain, between the blocks of its other sites
        win = None
        if i % 3 == 2 and N > 2:
            a = int(rng.randint(0, min(N // 2, N - 2) + 1))
            win = Window(m, mpo, a, int(rng.randint(0, min(N // 2, N - 2 - a) + 1)))
            N = len(win.mps)
            e = en.DMRGengine(win.mps, win.mpo, os.path.join(dd, 'x'), **win.boundary())
            c.count('window')
        else:
            e = en.DMRGengine(m, mpo, os.path.join(dd, 'x'))
        E0 = np.linalg.eigvalsh(H)[0]
        for rep in range(2):
            nmax = 1 + rng.randint(4)
            econv = [1e-3, 1e-1, 1e-6, -1.0][rng.randint(4)]
            if exactD and kind == 'ts' and rep == 0:
                nmax, econv = 4, -1.0
            tol = q(2e-5 * big) if solver != 'LOBPCG' else q(1e-3 * big)
            f = e.simulate if kind == 'ss' else e.simulateTwoSite
            kw = dict(Nmax=nmax, Econv=econv, tol=1e-12, ncv=40, solver=solver, Ndiag=1, landelta=1e-9, landeltaEta=1e-12, nmaxlan=300, cp=None)
            if kind == 'ts':
                kw['truncation'] = 1e-12
            with S.spying(e) as sp:
                r = f(**kw)
            c.impl_steps += len(sp.ev)
            ok = S.recognised(sp) and all(x.get('before') is not None for x in sp.ev)
            v = win.vector(e.mps) if win else dense(e.mps)
            nn = np.vdot(v, v).real
            energy = (np.vdot(v, H @ v) / nn).real
            # H acts on configurations in the same basis order as the dense vector
            ev.append(dict(t='run', run=rid, rep=rep, kind=kind, N=N, nmax=nmax, econv=q(econv), e0=q(E0), tol=tol, dlim=max(D, 1),
                           xtol=max(tol, q(1e-4 * big)),
                           notrunc=(kind == 'ss' or exactD), events=bool(ok), cont=rep > 0,
                           exact=bool(exactD and solver == 'AR' and not cplx and (kind == 'ss' or rep > 0))))
            if ok:
                for x in sp.ev:
                    ev.append(dict(t='upd', kind=x['kind'], cand=x['cand'], fresh=x['fresh'], before=q(x['before']), e=q(x['e'])))
                c.count('recorded-updates', len(sp.ev))
            ev.append(dict(t='end', e=q(r), energy=q(energy), norm=q(np.sqrt(nn)), maxd=int(max(e.mps.D))))
            c.count('%s/%s/%s' % (kind, solver, 'full' if exactD else 'small'))
    return ev


def run(c):
    docs = lattice.simulate(c, 120 if c.quick else 600, 6, bc=('TRUE',), seed_off=13)
    trace, owner = [], {}
    def search(i, b):
        H = lattice.exact(b)
        try:
            with guarded(120):
                ev = one(c, i, b, H, i)
        except Exception as ex:
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
            c.violation('exception', 'search %d on %s N=%d: %s' % (i, b['m'], b['N'], repr(ex)[:200]), dict(model=b, index=i))
            return []
        c.traces += 1
        return ev
    for i, b in enumerate(docs):
        owner[i] = b
    for ev in c.each(docs, search):
        trace += ev
    path = os.path.join(c.scratch, 'search.ndjson')
    with open(path, 'w') as f:
        for x in trace:
            f.write(json_dumps(x) + '\n')
    out, _ = c.tlc('SearchTrace', 'SPECIFICATION Spec\n', env=dict(TRACE=path))
    done = [x for x in out if 'done' in x]
    if not done or done[-1]['done'] != len(trace):
        from common import MachineryError
        raise MachineryError('the monitor did not consume the trace')
    for x in out:
        if 'bad' in x:
            b = owner[x['run']]
            c.violation(x['why'], 'search %d on %s N=%d, event %d (update %d): %s; %s' % (x['run'], b['m'], b['N'], x['at'], x['k'], x['why'], trace[x['at'] - 1]),
                        dict(model={k: b[k] for k in b if k != 'H'}, index=x['run'], event=trace[x['at'] - 1], header=next(t for t in trace[:x['at']][::-1] if t['t'] == 'run')))
    c.sample(dict(events=trace[:4]))


def json_dumps(x):
    import json
    return json.dumps(x)
