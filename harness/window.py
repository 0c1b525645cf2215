"""A window of an open chain between the blocks of its other sites: what the engines are given as lb and rb."""
from hlib import *
import spy as S
import lib.mpslib.mps as mpslib
import lib.mpslib.Hamiltonians as ham


class Window:
    def __init__(self, m, H, a, b):
        """cuts the state m of the chain with operator H; a sites stay outside on the left, b on the right"""
        N = len(m)
        W = [np.asarray(H[n]) for n in range(N)]
        m.position(N)
        m.position(a)
        ts = [np.array(m[n]) for n in range(N)]
        self.left, self.right = ts[:a], ts[N - b:]
        self.lb = self.rb = np.ones((1, 1, 1))
        for n in range(a):
            self.lb = S.addL(self.lb, ts[n], W[n])
        for n in range(N - 1, N - 1 - b, -1):
            self.rb = S.addR(self.rb, ts[n], W[n])
        ts[a] = np.tensordot(np.asarray(m._mat), ts[a], ([1], [0]))
        self.mps = mpslib.MPS.fromList(ts[a:N - b])
        self.mps._Z = m._Z
        self.mps._D = m._D
        self.mpo = ham.MPO.fromlist(W[a:N - b])

    def tensors(self, mps):
        return self.left + list(mps.tolist()) + self.right

    def vector(self, mps):
        """the state of the whole chain"""
        return dense_tensors(self.tensors(mps))[0, :, 0] * mps._Z

    def state(self, mps):
        out = mpslib.MPS.fromList(self.tensors(mps))
        out._Z = mps._Z
        return out

    def boundary(self):
        return dict(lb=self.lb, rb=self.rb)
