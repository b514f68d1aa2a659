"""independent solution of a flattened network (node tableau)

Net: leaves  [(spec, Zcirc, first terminal)], every leaf port is a terminal with
a voltage node and a current into the leaf; closures give for every node what
happens to the sum of the terminal currents:
   ('ext', port name) | ('load', kind, value, Zcirc) | ('closed',)
"""
import numpy as np
from .core import Skip
from . import elems

ZS = 50.   # scaling of the currents


class Net:
    def __init__(self):
        self.leaves = []          # (path, spec, Zcirc, [terminals])
        self.parent = []          # union find over terminals
        self.closures = {}        # terminal -> closure of its node

    def leaf(self, path, spec, Zcirc):
        t0 = len(self.parent)
        ts = list(range(t0, t0 + spec['n']))
        self.parent += ts
        self.leaves.append((path, spec, Zcirc, ts))
        return ts

    def absorb(self, other, prefix):
        """include another net; returns the offset of its terminals"""
        o = len(self.parent)
        self.parent += [o + t for t in other.parent]
        self.leaves += [(prefix + '.' + p if p else prefix, s, z, [o + t for t in ts])
                        for p, s, z, ts in other.leaves]
        self.closures.update({o + t: c for t, c in other.closures.items()})
        return o

    def find(self, t):
        while self.parent[t] != t:
            self.parent[t] = self.parent[self.parent[t]]
            t = self.parent[t]
        return t

    def join(self, ts):
        r = self.find(ts[0])
        for t in ts[1:]:
            self.parent[self.find(t)] = r

    # -------------------------------------------------------------------------
    def solve(self, f, exts, Zb, a, condmax=1e7):
        """exts: {port: (terminal, terms)}, a: matrix [excitations x ports] of
        incident waves at Zb.  Returns V [exc x terminal], I [exc x terminal]"""
        nt = len(self.parent)
        roots = sorted({self.find(t) for t in range(nt)})
        idx = {r: k for k, r in enumerate(roots)}
        node = np.array([idx[self.find(t)] for t in range(nt)])
        nn = len(roots)
        M = np.zeros((nt + nn, nt + nn), complex)
        rhs = np.zeros((nt + nn, len(a)), complex)
        row = 0
        closures = {self.find(t): c for t, c in self.closures.items()}
        for _, spec, Zc, ts in self.leaves:
            A, B = elems.ref(spec, f, Zc)
            for i in range(len(ts)):
                sc = max(np.abs(A[i]).max(), np.abs(B[i]).max() / ZS)
                for j, t in enumerate(ts):
                    M[row, node[t]] += A[i, j] / sc
                    M[row, nn + t] += B[i, j] / ZS / sc
                row += 1
        extnodes = {idx[self.find(t)]: p for p, (t, _) in exts.items()}
        assert len(extnodes) == len(exts)
        names = list(exts)
        for r in roots:
            k = idx[r]
            sumI = nn + np.where(node == k)[0]
            if k in extnodes:       # V + Zb I = 2 a
                M[row, k] = 1
                M[row, sumI] = Zb / ZS
                rhs[row] = 2 * a[:, names.index(extnodes[k])]
            else:
                cl = closures.get(r, ('closed',))
                if cl[0] == 'closed':
                    M[row, sumI] = 1
                else:               # load current = - sumI
                    _, kind, val, Zc = cl
                    if kind == 'Z':
                        al, be = 1., val
                    elif kind == 'Y':
                        al, be = val, 1.
                    else:           # (V - Zc Il) = rc (V + Zc Il) ; Il = -sumI
                        al, be = 1 - val, Zc * (1 + val)
                    sc = max(abs(al), abs(be) / ZS)
                    M[row, k] = al / sc
                    M[row, sumI] = be / ZS / sc
            row += 1
        c = np.linalg.cond(M) if np.all(np.isfinite(M)) else np.inf
        if not c < condmax:
            raise Skip('ill-conditioned network')
        x = np.linalg.solve(M, rhs)
        V = x[:nn][node].T
        I = x[nn:].T / ZS
        return V, I

    def S(self, f, exts, Zb):
        n = len(exts)
        if n == 0:
            return np.zeros((0, 0), complex)
        V, I = self.solve(f, exts, Zb, np.eye(n))
        Vp = np.array([[V[e, t] for (t, _) in exts.values()] for e in range(n)]).T
        Ip = np.array([[sum(I[e, k] for k in terms) for (_, terms) in exts.values()]
                       for e in range(n)]).T
        return (Vp - Zb * Ip) / 2
