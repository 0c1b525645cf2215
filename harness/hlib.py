"""Access to the code under test (PyTeN in /repo) and numeric decoding helpers."""
import re, os, sys, io, contextlib, signal, warnings, math
from common import REPO
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')


class Hang(Exception):
    pass


@contextlib.contextmanager
def guarded(seconds=60):
    """Silence the library and bound its running time."""
    def onalarm(*a):
        raise Hang('call did not finish within %d s' % seconds)
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(seconds)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def G(z):
    return complex(z[0], z[1])


def gvec(v):
    a = np.array(v, dtype=float).reshape(-1, 2)
    return a[:, 0] + 1j * a[:, 1]


def gmat(m, real=False):
    a = np.array(m, dtype=float)
    r = a[..., 0] + 1j * a[..., 1]
    return r.real.copy() if real else r


def is_real(z):
    return np.all(np.abs(np.imag(np.asarray(z))) == 0)


def maybe_real(m):
    m = np.asarray(m)
    return m.real.copy() if is_real(m) else m


def dense_tensors(ts):
    """open-boundary tensors (Dl,Dr,d) -> (Dl0, prod d, DrN)"""
    x = np.asarray(ts[0]).transpose(0, 2, 1)          # (Dl, d, Dr)
    for t in ts[1:]:
        t = np.asarray(t)
        y = np.tensordot(x, t, ([2], [0]))            # Dl,K,Dr',d
        y = y.transpose(0, 1, 3, 2)
        x = y.reshape(y.shape[0], y.shape[1] * y.shape[2], y.shape[3])
    return x


def dense(mps):
    """The vector represented by a finite MPS object: prefactor times contraction of all
    tensors with the centre matrix absorbed (the public tolist())."""
    x = dense_tensors(mps.tolist())
    if x.shape[0] != 1 or x.shape[2] != 1:
        raise AssertionError('open-boundary state has outer bond dimensions %s' % ((x.shape[0], x.shape[2]),))
    return mps._Z * x[0, :, 0]


def close(a, b, tol=1e-8, scale=None):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    d = np.max(np.abs(a - b)) if a.size else 0.0
    s = scale if scale is not None else max(1.0, float(np.max(np.abs(b))) if b.size else 1.0)
    return bool(np.isfinite(d)) and d <= tol * s


def val(v):
    return G(v['g']) * math.sqrt(v['p1'] / v['q1']) * math.sqrt(v['p2'] / v['q2'])
