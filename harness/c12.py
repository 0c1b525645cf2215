"""C12: histories of calls from specs/Sweep.tla on the real finite engines."""
import copy, tempfile
from hlib import *
import spy as S
from window import Window
import lib.mpslib.engines as en
import lib.mpslib.mps as mpslib
import lib.mpslib.Hamiltonians as ham

CFG = '''CONSTANTS
 Engines = {"dmrg","tdvp"}
 Ns = {%s}
 MaxUser = %d
 Emit = %s
SPECIFICATION Spec
INVARIANTS UpdatesSeeMatchingBlocks EnvInv Schedules
'''


def operator(h, N, scale=1.0):
    m, cp = h
    cp = [scale * np.array(x, float) for x in cp]
    if m == 'XXZ':
        return ham.XXZ(cp[0][:N - 1], cp[1][:N - 1], cp[2][:N], obc=True)
    if m == 'TFI':
        return ham.TFI(cp[0][:N - 1], cp[1][:N], obc=True)
    return ham.SpinlessFermions(cp[0][:N - 1], cp[1][:N - 1], cp[2][:N], obc=True)


def same_ray(a, b, tol=1e-8):
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    return na > 0 and nb > 0 and abs(abs(np.vdot(a, b)) - na * nb) < tol * na * nb


class Run:
    def __init__(self, c, i, b):
        self.c, self.i, self.b = c, i, b
        self.N = b['N']
        np.random.seed((c.seed * 7919 + i) % 2**31)
        self.solver = ['AR', 'LAN', 'LOBPCG'][i % 3]
        self.evo = ['LAN', 'RK45', 'SEXPMV'][i % 3]
        self.D = 2 + i % 4
        self.dtype = complex if i % 2 else float
        self.ntr = 0
        self.dt = [-0.1j, -0.1, 0.07j][(i // 2) % 3]

    def make(self):
        edge = self.b['edge']
        self.win = None
        M = self.N + sum(edge)
        self.H = operator(self.b['ham'], M)
        m = mpslib.MPS.random(M, self.D, 2, obc=True, dtype=self.dtype)
        m.position((self.i * 5) % (M + 1))
        if sum(edge):
            self.win = Window(m, self.H, *edge)
            self.c.count('window')
            f = en.DMRGengine if self.b['eng'] == 'dmrg' else en.TimeEvolutionEngine
            return f(self.win.mps, self.win.mpo, self.file, **self.win.boundary())
        if self.b['eng'] == 'dmrg':
            return en.DMRGengine(m, self.H, self.file)
        return en.TimeEvolutionEngine(m, self.H, self.file)

    def vector(self, e):
        return self.win.vector(e.mps) if self.win else dense(e.mps)

    def call(self, e, u, sp=None):
        op, n, k = u['op'], u['n'], u['k']
        if op == 'pos':
            e.position(n)
        elif op == 'upd':
            e.update()
        elif op == 'trunc':
            self.ntr += 1
            # limits below and far above the state's, and none: the engine ends in the same configuration
            e.truncateMPS(**[dict(D=max(2, self.D - 1)), dict(D=60), dict(truncation_threshold=1e-14)][(self.i + self.ntr) % 3])
        elif op == 'ss':
            e.simulate(Nmax=k, Econv=-1.0, tol=1e-10, ncv=30, solver=self.ssolver, landelta=1e-10, landeltaEta=1e-10, Ndiag=1)
        elif op == 'ts':
            e.simulateTwoSite(Nmax=k, Econv=-1.0, tol=1e-10, ncv=30, solver=self.ssolver, landelta=1e-10, landeltaEta=1e-10, Ndiag=1)
        elif op == 'tdvp':
            e.doTDVP(self.dt, k, solver=self.evo, verbose=0, krylov_dim=40)
        elif op == 'tebd':
            e.doTEBD(self.dt, k, 64, 1e-14, verbose=0)
        elif op == 'init':
            e.initializeTDVP()
        elif op == 'foreign':
            edge = self.b['edge']
            m = mpslib.MPS.random(self.N + sum(edge), self.D, 2, obc=True, dtype=self.dtype)
            m.position(0)
            if self.win:
                # other tensors inside the window only
                m.position(len(m) - edge[1])
                m.position(edge[0])
                inner = [np.array(m[k]) for k in range(edge[0], len(m) - edge[1])]
                inner[0] = np.tensordot(np.asarray(m._mat), inner[0], ([1], [0]))
                m = mpslib.MPS.fromList(inner)
                m.position(0)
            for s in range(self.N):
                e.mps[s] = m[s]
            e.mps._mat = m._mat
            e.mps._Z = 1.0
            e.mps._position = 0
            e.mps.position(n)
        elif op == 'meas':
            ops = [np.array([[1.0, 0.3], [0.3, -2.0 - s]]) for s in range(self.N)]
            a = e.measureLocal(ops)
            v = dense(e.mps).reshape([2] * self.N)
            for s in range(self.N):
                # operators are stored [in, out] for the ket index; these ones are symmetric
                w = np.moveaxis(np.tensordot(ops[s], v, ([1], [s])), 0, s)
                if abs(a[s] - np.vdot(v, w)) > 1e-8 * max(1, abs(np.vdot(v, v))):
                    return 'measureLocal', 'site %d: %s instead of %s' % (s, a[s], np.vdot(v, w))
        return None

    def run(self):
        b, N = self.b, self.N
        with tempfile.TemporaryDirectory(dir=self.c.scratch) as d:
            self.file = os.path.join(d, 'run')
            # LOBPCG refuses tiny problems and AR needs room for its Krylov space: take Lanczos there
            self.ssolver = 'LAN'
            e = self.make()
            clean = True
            for j, step in enumerate(b['path']):
                u = step['u']
                if u['op'] in ('ss', 'ts'):
                    self.ssolver = self.solver if N >= 4 and self.D >= 3 and self.solver == 'AR' else 'LAN'
                v0 = self.vector(e)
                if u['op'] == 'save':
                    e.save(self.file + '_s')
                    e = e.load(self.file + '_s')
                with S.spying(e, dt=self.dt) as sp:
                    r = self.call(e, u)
                self.c.impl_steps += 1
                where = 'call %d (%s n=%d k=%d)' % (j, u['op'], u['n'], u['k'])
                if r:
                    return r[0], where + ': ' + r[1]
                v1 = self.vector(e)
                if u['op'] in ('pos', 'upd', 'save', 'meas', 'init') and not close(v1, v0, 1e-8, max(1e-12, np.abs(v0).max())):
                    return 'moved', where + ' changed the represented state'
                if 'pos' in step and e.mps.pos != step['pos']:
                    return 'centre', where + ': centre at %d instead of %d' % (e.mps.pos, step['pos'])
                r = S.compare(sp, step['ev'])
                if r:
                    return r[0], where + ': ' + r[1]
                if step['ev'] and S.recognised(sp):
                    self.c.count('recorded-updates', len(step['ev']))
                    for x in sp.ev:
                        if x.get('w') is not None:
                            self.c.count('timed-updates')
                if u['op'] in ('ss', 'ts', 'tdvp') and abs(np.linalg.norm(v1) - 1) > 1e-8:
                    return 'norm', where + ': state of norm %s' % np.linalg.norm(v1)
                # what the engine would do next, judged on a copy: the local problem at the centre
                clean = True if u['op'] in ('upd', 'trunc', 'init') else False if u['op'] in ('foreign', 'tebd') else clean
                if clean and b['eng'] == 'dmrg' and u['op'] in ('pos', 'upd', 'trunc', 'save', 'ss'):
                    p = e.mps.pos
                    site = min(p, N - 1) if (self.i + j) % 2 or p == 0 else p - 1
                    q = copy.deepcopy(e)
                    W, L, R = S.Spy(e).blocks()
                    Hl = S.heff(L[site], W[site], R[N - 1 - site])
                    with S.spying(q) as sp:
                        ee, opt = q.optimize(site, solver='LAN', landelta=1e-12, landeltaEta=1e-12, Ndiag=1, nmaxlan=200)
                    o = np.ravel(opt)
                    r = S.compare(sp, [['u1', site + 1, 0]])
                    if r:
                        return r[0], where + ', then optimising site %d: %s' % (site, r[1])
                    if abs(ee - np.vdot(o, Hl @ o).real / np.vdot(o, o).real) > 1e-6 * max(1, abs(ee)):
                        return 'local', where + ': optimising site %d afterwards reports %.8f for a tensor of energy %.8f' % (
                            site, ee, np.vdot(o, Hl @ o).real / np.vdot(o, o).real)
                    self.c.count('probes')
                self.c.count('op:' + u['op'])
        return None


def run(c):
    c.bfs('Sweep', CFG % ('2,3,4' if c.quick else '2,3,4,5,6', 1, 'FALSE'), workers=4)
    docs, _ = c.tlc('Sweep', CFG % ('2,3,4,5', 6, 'TRUE'), simulate=200 if c.quick else 900, depth=400)
    def one(i, b):
        try:
            with guarded(120):
                r = Run(c, i, b).run()
        except Exception as ex:
            r = ('exception', repr(ex)[:200])
            if os.environ.get('VERIF_DEBUG'):
                import traceback
                traceback.print_exc()
        c.traces += 1
        if r:
            c.violation(r[0], 'history %d (%s N=%d): %s' % (i, b['eng'], b['N'], r[1]), dict(history=b, index=i))
        c.sample(dict(eng=b['eng'], N=b['N'], calls=[s['u']['op'] for s in b['path']]))
    c.each(docs, one)
    c.assumptions += ['environments handed to the solvers are compared with blocks contracted independently from the engine\'s own tensors']
