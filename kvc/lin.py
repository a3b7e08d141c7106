"""Linear transforms: the real constructor and execute functions run on symbolic inputs (linear forms); the transfer matrix that comes out holds for
every input of that size and is compared with the defining matrix."""
import sys
import numpy as np, z3
from . import sym
from .dom import LinDomain, Lin, POISON, Unsupported

sys.setrecursionlimit(50000)


def alloc(es):
    def go(X, s, a, i):
        sz = sym.simpl(a[0])
        if not isinstance(sz, int): raise Unsupported('allocation of symbolic size')
        return X.newobj(s, sz, None, es, 'heap')
    return go


def heap(es): return [(lambda nm, dem: 'aligned_malloc' in nm, alloc(es)), (lambda nm, dem: 'aligned_free' in nm, lambda X, s, a, i: 0)]


def one(outs):
    if len(outs) != 1: raise Unsupported('%d paths' % len(outs))
    return outs[0]


def freeze(s, but=()):
    """frame condition: nothing reachable so far may be written any more"""
    for k, m in s.mem.items():
        if m.name not in but: m.ro = True


def inputs(X, s, n, es, first=0, name='in', ro=True, scale=None):
    vs = [X.dom.var(first + i) for i in range(n)]
    return X.newobj(s, n * es, (lambda off, k: vs[off // es]), es, name, ro)


def matrix(X, s, p, n, es, nv):
    """rows: coefficients of the outputs over the inputs (last column: constant)"""
    M = np.zeros((n, nv + 1))
    for k in range(n):
        v = X.rd(s.mem[p.obj], k * es, es)
        if v is POISON: return None, 'output %d is not written, or depends on uninitialised memory' % k
        if isinstance(v, Lin): M[k] = v.v
        else: M[k, -1] = X.dom.num(v, 8 * es)
    return M, ''


def compare(X, s, p, want, es, tol, name, skip=()):
    n, nv = want.shape[0], want.shape[1] - 1
    M, why = matrix(X, s, p, n, es, nv)
    if M is None:
        if not skip: return X.record(False, name, why)
        M = want.copy()
        for k in range(n):
            if k in skip: continue
            v = X.rd(s.mem[p.obj], k * es, es)
            if v is POISON: return X.record(False, name, 'output %d is not written, or depends on uninitialised memory' % k)
            M[k] = v.v if isinstance(v, Lin) else 0
            if not isinstance(v, Lin): M[k, -1] = X.dom.num(v, 8 * es)
    e = abs(M - want)
    for k in skip: e[k] = 0
    k, j = np.unravel_index(np.argmax(e), e.shape)
    return X.record(not (e.max() > tol) and not np.isnan(e).any(), name, 'output %d has coefficient %.9g of input %d, the definition gives %.9g' % (k, M[k, j], j, want[k, j]))


def ri(W):
    """real matrix (with constant column) of a complex matrix acting on interleaved data"""
    n, m = W.shape
    T = np.zeros((2 * n, 2 * m + 1))
    T[0::2, 0:2 * m:2] = W.real
    T[0::2, 1:2 * m:2] = -W.imag
    T[1::2, 0:2 * m:2] = W.imag
    T[1::2, 1:2 * m:2] = W.real
    return T


def dftm(N, inv=False):
    k = np.outer(np.arange(N), np.arange(N)) % max(N, 1)
    return np.exp((2j if inv else -2j) * np.pi * k / max(N, 1))


class QuadDomain(LinDomain):
    """polynomials of degree two in n inputs: value = z^T M z with z = (inputs, 1), M symmetric (kept flattened, the constant last)"""

    def __init__(self, n):
        LinDomain.__init__(self, (n + 1) ** 2 - 1)
        self.n = n

    def var(self, i):
        M = np.zeros((self.n + 1, self.n + 1))
        M[i, -1] = M[-1, i] = 0.5
        return Lin(M.ravel())

    def op(self, op, n, *a):
        if op == 'fmul' and isinstance(a[0], Lin) and isinstance(a[1], Lin):
            A, B = (x.v.reshape(self.n + 1, self.n + 1) for x in a)
            if A[:-1, :-1].any() or B[:-1, :-1].any(): raise Unsupported('product of degree above two')
            x, y = (np.append(2 * M[:-1, -1], M[-1, -1]) for M in (A, B))
            P = np.outer(x, y)
            return Lin(((P + P.T) / 2).ravel())
        return LinDomain.op(self, op, n, *a)


def bilinear(n, i, j):
    """row for the product of input i and input j of n inputs"""
    M = np.zeros((n + 1, n + 1))
    M[i, j] += 0.5
    M[j, i] += 0.5
    return M.ravel()
