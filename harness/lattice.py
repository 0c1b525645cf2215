"""Decodes specs/LatticeModels.tla and builds the library's models from the same couplings."""
from hlib import *

CFG = '''CONSTANTS
  Models = {%s}
  MaxModes = %d
  Couplings <- RunCp
  Bc = {%s}
SPECIFICATION Spec
INVARIANTS HermitianHere Anticommute
PROPERTY Charges
'''
ALL = ['TFI', 'TFI2', 'XXZ', 'XXZf', 'Jess', 'Spinless', 'Hubbard']


def simulate(c, num, modes, models=ALL, bc=('TRUE', 'FALSE'), seed_off=0):
    docs, _ = c.tlc('LatticeModels', CFG % (','.join('"%s"' % m for m in models), modes, ','.join(bc)), simulate=num, depth=8,
                    seed=c.seed + seed_off, defs=dict(RunCp='{-3, -2, -1, 1, 2, 3, 5}'))
    return docs


def exact(b):
    n = 2 ** b['modes']
    H = np.zeros((n, n), complex)
    for r, k, a in b['H']:
        H[r, k] += G(a)
    return H / b['scale']


def build(b, dtype=None):
    import lib.mpslib.Hamiltonians as ham
    N, obc = b['N'], b['obc']
    cp = [np.array(x, float) for x in b['cp']]
    bond = [x[:N - 1] if obc else x for x in cp]
    kw = {} if dtype is None else dict(dtype=dtype)
    m = b['m']
    if m == 'TFI':
        return ham.TFI(bond[0], cp[1], obc=obc, **kw)
    if m == 'TFI2':
        return ham.TFI_2(bond[0], cp[1], obc=obc, **kw)
    if m == 'XXZ':
        return ham.XXZ(bond[0], bond[1], cp[2], obc=obc, **kw)
    if m == 'XXZf':
        return ham.XXZflipped(bond[0], bond[1], obc=obc, **kw)
    if m == 'Jess':
        return ham.JessHamiltonian(bond[0], cp[1], cp[2], obc=obc)
    if m == 'Spinless':
        return ham.SpinlessFermions(bond[0], bond[1], cp[2], obc=obc, **kw)
    if m == 'Hubbard':
        return ham.HubbardChain(cp[0], bond[1], bond[2], cp[3], cp[4], obc=obc, **kw)


def contract(ts):
    """dense operator [in, out] of a list of (Dl,Dr,d,d) tensors, outer bonds of size one"""
    x = np.asarray(ts[0])
    x = x.reshape(x.shape)
    for t in ts[1:]:
        t = np.asarray(t)
        y = np.tensordot(x, t, ([1], [0]))              # l,i,o,r,i2,o2
        y = y.transpose(0, 3, 1, 4, 2, 5)
        x = y.reshape(y.shape[0], y.shape[1], y.shape[2] * y.shape[3], y.shape[4] * y.shape[5])
    return x


def close_cell(ts, reps):
    """repeat a unit cell and close it with the boundary vectors (last row, first column)"""
    l = list(ts) * reps
    l[0] = np.asarray(l[0])[-1:, :, :, :]
    l[-1] = np.asarray(l[-1])[:, 0:1, :, :]
    return l


def dense_op(mpo, b):
    ts = [np.asarray(mpo[n]) for n in range(b['N'])]
    x = contract(ts if b['obc'] else close_cell(ts, b['R']))
    if x.shape[:2] != (1, 1):
        raise AssertionError('outer operator bonds %s' % (x.shape[:2],))
    return x[0, 0]
