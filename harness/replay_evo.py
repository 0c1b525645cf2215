"""Replays histories of specs/Evolution.tla on TimeEvolutionEngine."""
import tempfile, hashlib
from hlib import *
import scipy.linalg as sla
import lattice
import lib.mpslib.engines as en
import lib.mpslib.mps as mpslib
import lib.mpslib.Hamiltonians as ham

CFG = '''CONSTANTS
 MaxCalls = %d
 MaxSteps = %d
 MaxCp = %d
 Emit = %s
 Modes = {%s}
 Faults = %s
 Dirs = {%s}
SPECIFICATION Spec
INVARIANTS ElapsedTime ClockCounts CompleteSnapshots NeverWithout OnlyLatest EveryKth
'''


en.stdout = open(os.devnull, 'w')                 # the engines print to the stdout they bound at import


class Crash(Exception):
    pass


class Engine(en.TimeEvolutionEngine):
    """dies when told to, before or after writing its n-th checkpoint"""
    plan = None

    def save(self, filename):
        if Engine.plan and Engine.plan[0] == 'before':
            Engine.plan[1] -= 1
            if Engine.plan[1] == 0:
                raise Crash()
        super().save(filename)
        if Engine.plan and Engine.plan[0] == 'after':
            Engine.plan[1] -= 1
            if Engine.plan[1] == 0:
                raise Crash()


def operator(h, N):
    m, cp = h
    cp = [0.5 * np.array(x, float) for x in cp]
    if m == 'XXZ':
        return ham.XXZ(cp[0][:N - 1], cp[1][:N - 1], cp[2], obc=True)
    if m == 'TFI':
        return ham.TFI(cp[0][:N - 1], cp[1], obc=True)
    return ham.SpinlessFermions(cp[0][:N - 1], cp[1][:N - 1], cp[2], obc=True)


def bonds(N, layer):
    if layer == 'E':
        return list(range(0, N - 1, 2))
    return list(range(N - 3 if N % 2 == 0 else N - 2, -1, -2))


STEMS = ['run', 'run0.25', 'U[0]=1.5']               # names users give their runs


def amount(x, y):
    return x if y == 0 else x + 1j * y


class History:
    def __init__(self, c, i, b, lossy=False, solvers=('LAN', 'RK45', 'SEXPMV')):
        self.c, self.i, self.b, self.N, self.lossy = c, i, b, b['N'], lossy
        self.rng = np.random.RandomState((c.seed * 65537 + i * 31 + 7) % 2**31)
        self.dt = [-0.05j, -0.04, -0.03j, 0.05j, -0.02 - 0.03j][i % 5]
        self.solver = solvers[i % len(solvers)]
        if self.solver in ('BDF', 'RK23') and self.N > 3:
            self.solver = 'LAN'
        self.D = 2 ** (self.N // 2)
        # lossy runs are cut by the limit, or by the threshold alone
        self.Dmax, self.thr = [(2, 1e-14), (64, 0.1), (3, 1e-14), (64, 0.03), (3, 0.05)][i % 5] if lossy else (64, 1e-14)
        if lossy:
            self.dt = [-0.05j, -0.04, -0.03j, 0.05j, -0.02 - 0.03j][(i // 5) % 5]

    def ref(self, word):
        """exact action of a word on the initial vector"""
        H = operator(self.b['ham'], self.N)
        N = self.N
        Hd = lattice.contract([np.asarray(H[n]) for n in range(N)])[0, 0].T
        v = self.v0.reshape([2] * N)
        for k, x, y in word:
            h = amount(x, y)
            if k == 'T':
                v = (sla.expm(h / 2 * self.dt * Hd) @ v.ravel()).reshape([2] * N)
            else:
                for n in bonds(N, k):
                    g = np.asarray(H.twoSiteGate(n, n + 1, h / 2 * self.dt))
                    v = np.tensordot(v, g, ([n, n + 1], [0, 1]))
                    v = np.moveaxis(v, [-2, -1], [n, n + 1])
            v = v / np.linalg.norm(v)
        return v.ravel()

    def refloss(self, word):
        """the same circuit applied gate by gate to a matrix product state with the same limits"""
        H = operator(self.b['ham'], self.N)
        m = copy_of(self.m0)
        m.position(0)
        tw, tws = 0.0, []
        for k, x, y in word:
            h = amount(x, y)
            for n in bonds(self.N, k):
                t, D = m.applyTwoSiteGate(np.asarray(H.twoSiteGate(n, n + 1, h / 2 * self.dt)), n, Dmax=self.Dmax, thresh=self.thr)
                tw += t
            tws.append(tw)
        m.position(0)
        return dense(m), tws

    def files(self, d):
        out = set()
        for f in os.listdir(d):
            if f in self.decoys:
                continue
            m = re.match(r'^%s_(tebd|tdvp)_cp(\d+)\.pickle$' % re.escape(self.stem), f)
            out.add((m.group(1), int(m.group(2))) if m else f)
        return out

    def run(self, d):
        b, N, c = self.b, self.N, self.c
        np.random.seed(self.rng.randint(2**31 - 1))
        self.decoys = {}
        self.stem = STEMS[(self.i // 2) % len(STEMS)]
        for f in [x % self.stem for x in ('%s2_tebd_cp2.pickle', '%s_tebd_cp77.pickle', '%s_tdvp_cp77.pickle', '%s.pickle', 'x%s_tdvp_cp1.pickle')] + ['cp1.pickle', 'run0.pickle', 'U0=1.5_tebd_cp2.pickle']:
            self.decoys[f] = ('decoy ' + f).encode()
            with open(os.path.join(d, f), 'wb') as fh:
                fh.write(self.decoys[f])
        name = os.path.join(d, self.stem)
        H = operator(b['ham'], N)
        m = mpslib.MPS.random(N, self.D, 2, obc=True, dtype=[complex, float][self.i % 2])
        m.position(0)
        m.resetZ()
        self.v0 = dense(m)
        self.m0 = copy_of(m)
        m.position(self.rng.randint(N + 1))
        E = Engine if self.i % 3 else None
        make = lambda: Engine.TEBD(m, H, name) if self.i % 3 == 1 else Engine.TDVP(m, H, name) if self.i % 3 == 2 else Engine(m, H, name)
        e = make()
        last_m = None
        for j, s in enumerate(b['path']):
            where = 'step %d %s' % (j, {k: s[k] for k in s if k not in ('word', 'files')})
            if s['op'] == 'run':
                u = s['u']
                dt = {'f': 1, 'b': -1, 'r': 1j}[u['d']] * self.dt
                steps, Engine.plan = u['steps'], None
                crashed = s['crash'] != 'no'
                if crashed:
                    if s['crash'] == 'save':
                        Engine.plan = ['before', s['saves'] + 1]
                    elif s['crash'] == 'rm':
                        Engine.plan = ['after', s['saves']]
                    elif u['m'] == 'tebd':
                        e._gates = Gates(H, sum(len(bonds(N, x)) for x in layers(e, u, s['layers'])))
                    else:
                        steps = s['layers'] - (1 if s['crash'] == 'tick' else 0)
                if last_m == 'tebd' and u['m'] == 'tdvp':
                    e.initializeTDVP()
                verb = int(self.rng.randint(3))
                try:
                    if u['m'] == 'tebd':
                        out = e.doTEBD(dt, steps, self.Dmax, self.thr, verbose=verb, cp=u['cp'] or None, keep_cp=u['keep'])
                    else:
                        out = e.doTDVP(dt, steps, solver=self.solver, krylov_dim=40, rtol=1e-9, atol=1e-12, verbose=verb, cp=u['cp'] or None, keep_cp=u['keep'])
                except Crash:
                    if not crashed:
                        raise
                    out = None
                Engine.plan = None
                if crashed and out is not None and (s['crash'] in ('save', 'rm') or u['m'] == 'tebd'):
                    c.count('crash-not-injected')       # the engine does not pass where the crash was planted: nothing to judge
                    return None
                last_m = u['m'] if steps or u['m'] == 'tdvp' else last_m
                if crashed:
                    e = None
                elif u['m'] == 'tebd' and not (abs(out[0] - e.truncatedWeight) < 1e-12 and abs(out[1] - e.time) < 1e-12):
                    return 'returned', '%s: returned %s, engine says %s, %s' % (where, out, e.truncatedWeight, e.time)
                elif u['m'] == 'tdvp' and abs(out - e.time) > 1e-12:
                    return 'returned', '%s: returned %s, engine says %s' % (where, out, e.time)
            elif s['op'] == 'load':
                e = make().load('%s_%s_cp%d' % (name, s['m'], s['k']))
                last_m = s['m']
            elif s['op'] == 'fresh':
                e = make()
                last_m = None
            elif s['op'] == 'reset':
                e.reset()
                if e.truncatedWeight != 0:
                    return 'reset', where + ': truncated weight %s' % e.truncatedWeight
            c.impl_steps += 1
            c.count('op:' + s['op'] + (':' + s['u']['m'] + (':crash' if s['crash'] != 'no' else '') + {'f': '', 'b': ':back', 'r': ':rotated'}[s['u']['d']] if s['op'] == 'run' else ''))
            want = {tuple(x) for x in s['files']}
            got = self.files(d)
            if got != want:
                return 'files', '%s: checkpoints %s instead of %s' % (where, sorted(map(str, got)), sorted(map(str, want)))
            for f, x in self.decoys.items():
                if not os.path.exists(os.path.join(d, f)) or slurp(os.path.join(d, f)) != x:
                    return 'foreign-file', '%s: file %s of another run was touched' % (where, f)
            if e is None:
                continue
            if e.iteration != s['it']:
                return 'iteration', '%s: iteration %s instead of %s' % (where, e.iteration, s['it'])
            if abs(e.time - s['clk'][0] * abs(np.imag(self.dt)) - s['clk'][1] * abs(np.real(self.dt))) > 1e-10:
                return 'time', '%s: time %s after %d steps of %s and %d of %s' % (where, e.time, s['clk'][0], self.dt, s['clk'][1], 1j * self.dt)
            v = dense(e.mps)
            if self.lossy:
                w, tws = self.refloss(s['word'])
                tw = (tws[-1] if tws else 0.0) - (tws[s['base'] - 1] if s['base'] else 0.0)
                if abs(e.truncatedWeight - tw) > 0.1 * tw + 1e-10:
                    return 'weight', '%s: truncated weight %.3e instead of %.3e' % (where, e.truncatedWeight, tw)
                if max(e.mps.D) > max(self.Dmax, 0) and s['word']:
                    return 'Dmax', '%s: bond dimensions %s above %d' % (where, e.mps.D, self.Dmax)
                if abs(abs(np.vdot(v, w)) - np.linalg.norm(v) * np.linalg.norm(w)) > 1e-4:
                    return 'state', '%s: state differs from the same gates applied one by one' % where
                c.count('lossy-weight', int(tw > 1e-8))
            else:
                w = self.ref(s['word'])
                tol = 1e-8 if self.solver != 'BDF' else 1e-4
                if s['it'] or s['word']:
                    if abs(np.linalg.norm(v) - 1) > 1e-7:
                        return 'norm', '%s: norm %s' % (where, np.linalg.norm(v))
                    if np.max(np.abs(v - w)) > max(tol, 2e-6 if any(x[0] == 'T' for x in s['word']) else tol):
                        return 'state', '%s: state differs from the exact evolution by %.2e' % (where, np.max(np.abs(v - w)))
                elif not close(v / np.linalg.norm(v), w / np.linalg.norm(w), 1e-8):
                    return 'state', '%s: nothing has happened yet the state changed' % where
                if not any(x[0] == 'T' for x in s['word']) and e.truncatedWeight > 1e-10:
                    return 'weight', '%s: truncated weight %s without truncation' % (where, e.truncatedWeight)
        return None


class Gates:
    """hands out gates of an operator and dies after a number of them"""
    def __init__(self, H, n):
        self.H, self.n = H, n

    def twoSiteGate(self, a, b, tau):
        if self.n == 0:
            raise Crash()
        self.n -= 1
        return self.H.twoSiteGate(a, b, tau)

    def __reduce__(self):                             # a checkpoint holds the operator itself
        return _same, (self.H,)

    def __deepcopy__(self, memo):
        return self


def _same(x):
    return x


def layers(e, u, n):
    """kinds of the first n layers of a Trotter call (as Prog in the specification)"""
    out = ['E'] if u['steps'] else []
    it = e.iteration
    for s in range(1, u['steps'] + 1):
        out.append('O')
        if u['cp'] and (it + s) % u['cp'] == 0:
            out += ['E', 'E'] if s < u['steps'] else ['E']
        else:
            out.append('E')
    return out[:n]


def slurp(p):
    with open(p, 'rb') as f:
        return f.read()


def copy_of(m):
    import copy
    return copy.deepcopy(m)


def replay(c, docs, lossy=False, **kw):
    def one(i, b):
        with tempfile.TemporaryDirectory(dir=c.scratch) as d:
            try:
                with guarded(120):
                    r = History(c, i, b, lossy, **kw).run(d)
            except Exception as ex:
                r = ('exception', repr(ex)[:200])
                if os.environ.get('VERIF_DEBUG'):
                    import traceback
                    traceback.print_exc()
        c.traces += 1
        if r:
            c.violation(r[0], 'history %d (N=%d, %s): %s' % (i, b['N'], 'lossy' if lossy else 'exact', r[1]), dict(history=b, index=i))
        c.sample(dict(N=b['N'], calls=[(s['op'], s.get('u'), s.get('crash')) for s in b['path']]))
    c.each(docs, one)
