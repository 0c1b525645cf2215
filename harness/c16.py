"""C16: checkpoints of time evolutions (Evolution with crashes) and of ground-state searches (SearchFiles)."""
import copy, tempfile
from hlib import *
import replay_evo as R
import lattice
import lib.mpslib.engines as en
import lib.mpslib.mps as mpslib
import lib.mpslib.mpsfunctions as mf

SCFG = '''CONSTANTS
 MaxCalls = %d
 MaxSweeps = %d
 MaxCp = %d
 Emit = %s
SPECIFICATION Spec
INVARIANTS LatestOfCall BoundedLoss
'''
SOLVERS = ('eigsh', 'lanczos', 'lobpcg')


class plan:
    """a crash after a number of local updates, or instead of a save"""
    def __init__(self, updates=None, saves=None):
        self.updates, self.saves = updates, saves

    def __enter__(self):
        self.old = {k: getattr(mf, k) for k in SOLVERS}
        self.save = mpslib.MPS.save

        def wrap(f):
            def g(*a, **k):
                if self.updates is not None:
                    if self.updates == 0:
                        raise R.Crash()
                    self.updates -= 1
                return f(*a, **k)
            return g

        def save(mps, filename):
            if self.saves is not None:
                if self.saves == 0:
                    raise R.Crash()
                self.saves -= 1
            return self.save(mps, filename)
        for k, f in self.old.items():
            setattr(mf, k, wrap(f))
        mpslib.MPS.save = save

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(mf, k, f)
        mpslib.MPS.save = self.save


def search(c, i, b, d):
    N = b['N']
    rng = np.random.RandomState((c.seed * 6151 + i) % 2**31)
    np.random.seed(rng.randint(2**31 - 1))
    H = R.operator(b['ham'], N)
    Hd = lattice.contract([np.asarray(H[n]) for n in range(N)])[0, 0].T
    scale = max(1.0, np.linalg.norm(Hd, 2))
    D = [2, 3, 4, 8][i % 4]
    m0 = mpslib.MPS.random(N, D, 2, obc=True, dtype=[float, complex][i % 2])
    m0._D = D
    m0.position(0)
    m0.resetZ()
    kw = dict(tol=1e-12, ncv=40, solver='LAN', landelta=1e-12, landeltaEta=1e-13, nmaxlan=200, Ndiag=1)
    stem = R.STEMS[(i // 2) % len(R.STEMS)]
    name = os.path.join(d, stem)
    decoys = {}
    for f in [x % stem for x in ('%s_dmrg_cp1.pickle', '%s_dmrg_cp', 'x%s_dmrg_cp.pickle', '%s.pickle')] + ['dmrg_cp.pickle', 'run0.pickle']:
        decoys[f] = ('decoy ' + f).encode()
        with open(os.path.join(d, f), 'wb') as fh:
            fh.write(decoys[f])
    make = lambda m: en.DMRGengine(m, H, name)
    go = lambda e, k: e.simulate if k == '1' else e.simulateTwoSite
    memo = {'': (dense(m0), None, make(copy.deepcopy(m0)))}

    def ref(word):
        key = ''.join(word)
        if key not in memo:
            _, _, e = ref(word[:-1])
            e = copy.deepcopy(e)
            r = go(e, key[-1])(Nmax=1, Econv=-1.0, cp=None, **kw)
            memo[key] = (dense(e.mps), r, e)
        return memo[key]

    def differs(v, w, tol=1e-5):
        return abs(abs(np.vdot(v, w)) - np.linalg.norm(v) * np.linalg.norm(w)) > tol or abs(np.linalg.norm(v) - np.linalg.norm(w)) > 1e-6

    def energy(v):
        return np.vdot(v, Hd @ v).real / np.vdot(v, v).real
    e = make(copy.deepcopy(m0))
    for j, s in enumerate(b['path']):
        where = 'step %d %s' % (j, {k: s[k] for k in s if k not in ('word', 'file')})
        if s['op'] == 'run':
            u = s['u']
            per = 2 * (N - 1) if u['kind'] == '1' else 2 * N - 3
            p = plan()
            if s['crash'] == 'save':
                p = plan(saves=s['done'] // u['cp'] - 1)
            elif s['crash'] != 'no':
                p = plan(updates=s['done'] * per + rng.randint(per))
            out = None
            try:
                with p:
                    out = go(e, u['kind'])(Nmax=u['nmax'], Econv=1e9 if u['loose'] else -1.0, cp=u['cp'] or None, verbose=int(rng.randint(3)), **kw)
            except R.Crash:
                if s['crash'] == 'no':
                    raise
            if s['crash'] != 'no' and out is not None:
                c.count('crash-not-injected')
                return None
            if s['crash'] != 'no':
                e = None
            elif abs(out - ref(s['word'])[1]) > 1e-6 * scale:
                return 'energy', '%s: energy %.10f instead of %.10f' % (where, out, ref(s['word'])[1])
        elif s['op'] == 'load':
            m = mpslib.MPS.random(N, 2, 2, obc=True)
            m.load(name + '_dmrg_cp')
            e = make(m)
        else:
            e = make(copy.deepcopy(m0))
        c.impl_steps += 1
        c.count('search:' + s['op'] + (':crash' if s['op'] == 'run' and s['crash'] != 'no' else ''))
        if e is not None and differs(dense(e.mps), ref(s['word'])[0]):
            return 'state', '%s: state differs from that of the uninterrupted sweeps %s' % (where, ''.join(s['word']))
        for f, x in decoys.items():
            if not os.path.exists(os.path.join(d, f)) or R.slurp(os.path.join(d, f)) != x:
                return 'foreign-file', '%s: file %s of another run was touched' % (where, f)
        left = sorted(set(os.listdir(d)) - set(decoys))
        if s['file'] == ['none']:
            if left:
                return 'files', '%s: files %s before any checkpoint was due' % (where, left)
        else:
            if left != [stem + '_dmrg_cp.pickle']:
                return 'files', '%s: files %s instead of one checkpoint' % (where, left)
            m = mpslib.MPS.random(N, 2, 2, obc=True)
            m.load(name + '_dmrg_cp')
            if differs(dense(m), ref(s['file'])[0]):
                return 'checkpoint', '%s: the checkpoint is not the state after the sweeps %s' % (where, ''.join(s['file']))
            if m._D != D:
                return 'limit', '%s: bond-dimension limit %s instead of %s in the checkpoint' % (where, m._D, D)
    return None


def run(c):
    c.bfs('Evolution', R.CFG % (2, 3 if c.quick else 4, 3, 'FALSE', '"tebd","tdvp"', 'TRUE', '"f"'), workers=6)
    docs, _ = c.tlc('Evolution', R.CFG % (7, 5, 3, 'TRUE', '"tebd","tdvp"', 'TRUE', '"f","b","r"'), simulate=100 if c.quick else 1200, depth=500)
    R.replay(c, docs)
    docs, _ = c.tlc('Evolution', R.CFG % (6, 5, 3, 'TRUE', '"tebd"', 'TRUE', '"f","b","r"'), simulate=50 if c.quick else 600, depth=500, seed=c.seed + 1000)
    R.replay(c, docs, lossy=True)
    c.bfs('SearchFiles', SCFG % (3, 3 if c.quick else 4, 3, 'FALSE'), workers=6)
    docs, _ = c.tlc('SearchFiles', SCFG % (5, 4, 3, 'TRUE'), simulate=90 if c.quick else 1000, depth=300)

    def one(i, b):
        with tempfile.TemporaryDirectory(dir=c.scratch) as d:
            try:
                with guarded(120):
                    r = search(c, i, b, d)
            except Exception as ex:
                r = ('exception', repr(ex)[:200])
                if os.environ.get('VERIF_DEBUG'):
                    import traceback
                    traceback.print_exc()
        c.traces += 1
        if r:
            c.violation(r[0], 'search %d (N=%d): %s' % (i, b['N'], r[1]), dict(history=b, index=i))
    c.each(docs, one)
