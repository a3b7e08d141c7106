"""C17: real DFT, DCT and multi-dimensional DFT equal their definitions"""
from kvc.check import *
from kvc import sym, nat, lin
from kvc.nat import Buf
from kvc.dom import Lin
from .C16 import ES, TOL, is_prime_heavy
I = lambda v: ctypes.c_uint64(v)
U64 = z3.BitVecSort(64)


def rfwd(N, perm):
    """rows: interleaved outputs, columns: N real inputs"""
    W = lin.dftm(N)[:N // 2 + 1]
    if perm:
        W = W.copy()
        W[0] = W[0].real + 1j * W[N // 2].real
        W = W[:N // 2]
    T = np.zeros((2 * len(W), N + 1))
    T[0::2, :N], T[1::2, :N] = W.real, W.imag
    return T


def rinv(N, perm):
    """rows: N real outputs, columns: interleaved half spectrum"""
    C = N // 2 + (0 if perm else 1)
    T = np.zeros((N, 2 * C + 1))
    n = np.arange(N)
    for k in range(N // 2 + 1):
        ph = np.pi * 2 * ((k * n) % N) / N
        w = 1 if k in (0, N // 2) else 2
        if k == N // 2: jr, ji = (1, None) if perm else (2 * k, None)
        else: jr, ji = 2 * k, (2 * k + 1 if k else None)
        T[:, jr] += w * np.cos(ph)
        if ji is not None: T[:, ji] -= w * np.sin(ph)
    return T


def dctm(N, inv):
    k = np.arange(N)
    D = np.cos(np.pi * (np.outer(k, 2 * k + 1) % (4 * N)) / (2 * N))   # D[k, n]
    if inv:
        D = D.T.copy()
        D[:, 0] *= 0.5
    return np.hstack([D, np.zeros((N, 1))])


def mdm(sh, inv):
    W = np.ones((1, 1))
    for d in sh: W = np.kron(W, lin.dftm(d, inv))
    return lin.ri(W)


def mdr_fwd(sh):
    """real input of shape sh -> half spectrum"""
    W = np.ones((1, 1))
    for d in sh[:-1]: W = np.kron(W, lin.dftm(d))
    W = np.kron(W, lin.dftm(sh[-1])[:sh[-1] // 2 + 1])
    T = np.zeros((2 * W.shape[0], W.shape[1] + 1))
    T[0::2, :-1], T[1::2, :-1] = W.real, W.imag
    return T


def scr(X, s, temp):
    if not isinstance(temp, int): raise Unsupported('scratch size')
    return X.newobj(s, temp, None, 8, 'scratch') if temp else X.newobj(s, 1, None, 1, 'scratch')


def run_real(X, s, N, perm, es, tol):
    X.contracts = lin.heap(es)
    X.maxinst = 30000000
    nc = N // 2 + (0 if perm else 1)
    p = X.newobj(s, 160, None, 8, 'plan')
    s = lin.one(X.call('r_new', [p, N, 0 if perm else 1], s))
    s = lin.one(X.call('r_csize', [p], s))
    X.record(s.ret == nc, 'complex size', str(s.ret))
    temp = X.read_scalar(s, sym.ptradd(p, 8), 8)
    for inv in (0, 1):
        for inpl in (0, 1):
            b = s.fork()
            lin.freeze(b)
            ni = 2 * nc if inv else N
            if inpl: pi = po = lin.inputs(X, b, max(ni, 2 * nc), es, 0, 'data', False)
            else:
                pi = lin.inputs(X, b, ni, es)
                po = X.newobj(b, (N if inv else 2 * nc) * es, None, es, 'out')
            o = lin.one(X.call('r_inv' if inv else 'r_fwd', [p, po, pi, scr(X, b, temp)], b))
            nm = 'postcondition: real %s, %s format, %s' % (('forward', 'inverse')[inv], ('CCs', 'Perm')[perm], ('out of place', 'in place')[inpl])
            want = rinv(N, perm) if inv else rfwd(N, perm)
            W = np.zeros((want.shape[0], X.dom.nv + 1))
            W[:, :want.shape[1] - 1] = want[:, :-1]
            if inv and not perm: check_on(X, o, po, W, es, tol, nm, [1, 2 * nc - 1])
            else: lin.compare(X, o, po, W, es, tol, nm)
    return 1


def check_on(X, s, p, W, es, tol, name, free):
    """compare except for the columns of inputs that are zero in every valid spectrum"""
    M, why = lin.matrix(X, s, p, W.shape[0], es, W.shape[1] - 1)
    if M is None: return X.record(False, name, why)
    e = abs(M - W)
    e[:, free] = 0
    k, j = np.unravel_index(np.argmax(e), e.shape)
    return X.record(bool(e.max() <= tol), name, 'output %d has coefficient %.9g of input %d, the definition gives %.9g' % (k, M[k, j], j, W[k, j]))


def run_dct(X, s, N, es, tol):
    X.contracts = lin.heap(es)
    X.maxinst = 30000000
    p = X.newobj(s, 144, None, 8, 'plan')
    s = lin.one(X.call('dct_new', [p, N], s))
    temp = X.read_scalar(s, sym.ptradd(p, 8), 8)
    for inv in (0, 1):
        for inpl in (0, 1):
            b = s.fork()
            if inpl: pi = po = lin.inputs(X, b, N, es, 0, 'data', False)
            else:
                pi = lin.inputs(X, b, N, es)
                po = X.newobj(b, N * es, None, es, 'out')
            o = lin.one(X.call('dct_x', [p, po, pi, scr(X, b, temp), inv], b))
            lin.compare(X, o, po, dctm(N, inv), es, tol, 'postcondition: DCT type %d, %s' % ((2, 3)[inv], ('out of place', 'in place')[inpl]))
    return 1


def dims(X, s, sh): return X.newobj(s, 8 * len(sh), (lambda off, k: sh[off // 8]), 8, 'shape', True)


def run_md(X, s, sh, es, tol, static):
    X.contracts = lin.heap(es)
    X.maxinst = 30000000
    P = int(np.prod(sh))
    p = X.newobj(s, 600, None, 8, 'plan')
    d = dims(X, s, sh)
    s = lin.one(X.call('md%d_new' % len(sh), [p, d], s) if static else X.call('md_new', [p, len(sh), d], s))
    temp = s.ret
    fn = 'md%d_x' % len(sh) if static else 'md_x'
    for inv in (0, 1):
        for inpl in (0, 1):
            b = s.fork()
            if inpl: pi = po = lin.inputs(X, b, 2 * P, es, 0, 'data', False)
            else:
                pi = lin.inputs(X, b, 2 * P, es)
                po = X.newobj(b, 2 * P * es, None, es, 'out')
            o = lin.one(X.call(fn, [p, po, pi, scr(X, b, temp) if inpl or P % 2 else 0, inv], b))
            lin.compare(X, o, po, mdm(sh, inv), es, tol, 'postcondition: %d-D %s, %s' % (len(sh), ('forward', 'inverse')[inv], ('out of place', 'in place')[inpl]))
    return 1


def run_mdr(X, s, sh, es, tol, static, enough):
    X.contracts = lin.heap(es)
    X.maxinst = 30000000
    P = int(np.prod(sh))
    nc = int(np.prod(sh[:-1])) * (sh[-1] // 2 + 1)
    p = X.newobj(s, 600, None, 8, 'plan')
    d = dims(X, s, sh)
    s = lin.one(X.call('mdr%d_new' % len(sh), [p, d, enough], s) if static else X.call('mdr_new', [p, len(sh), d, enough], s))
    temp = s.ret
    pre = 'mdr%d_' % len(sh) if static else 'mdr_'
    nv = X.dom.nv
    F = mdr_fwd(sh)
    for fn in ((pre + 'f', pre + 'i') if static else (pre + 'f', pre + 'i', pre + 'fb', pre + 'ib')):
        inv = fn[len(pre)] == 'i'
        for inpl in (0, 1):
            b = s.fork()
            if not inv:
                if inpl: pi = po = lin.inputs(X, b, 2 * nc, es, 0, 'data', False)
                else:
                    pi = lin.inputs(X, b, P, es)
                    po = X.newobj(b, 2 * nc * es, None, es, 'out')
            else:
                # the input is the spectrum of arbitrary real data
                vs = []
                for k in range(2 * nc):
                    v = np.zeros(nv + 1)
                    v[:P] = F[k, :-1]
                    vs.append(Lin(v))
                pi = X.newobj(b, 2 * nc * es, (lambda off, k: vs[off // es]), es, 'in', not inpl)
                po = pi if inpl else X.newobj(b, (2 * nc if enough else P) * es, None, es, 'out')
            o = lin.one(X.call(fn, [p, po, pi, scr(X, b, temp)], b))
            W = np.zeros((P if inv else 2 * nc, nv + 1))
            if inv: W[:, :P] = P * np.eye(P)
            else: W[:, :P] = F[:, :-1]
            lin.compare(X, o, po, W, es, tol * (P if inv else 1), 'postcondition: %d-D real %s%s, %s' % (len(sh), ('forward', 'inverse')[inv], ' (run-time direction)' if fn[-1] == 'b' else '', ('out of place', 'in place')[inpl]))
    return 1


def dt(T): return np.float64 if T == 'double' else np.float32


def scratch(ts, r):
    a = np.frombuffer(bytes([r.choice((0x00, 0xFF, 0x7F))]) * (ts + 256), np.uint8).copy()
    return a, ctypes.c_void_p(a.ctypes.data + (-a.ctypes.data % 64))


def gen(r, n, T): return np.array([r.uniform(-1, 1) for _ in range(n)]).astype(dt(T)).astype(np.float64)


def il(z):
    v = np.zeros(2 * z.size)
    v[0::2], v[1::2] = z.real.ravel(), z.imag.ravel()
    return v


def judge(got, want, x, T, n):
    e = np.abs(np.asarray(got, np.float64) - want)
    lim = (1e-14 if T == 'double' else 6e-6) * (8 + np.log2(max(n, 2))) * np.sqrt((np.asarray(x, np.float64) ** 2).sum() + 1e-30) * (40 if is_prime_heavy(n) else 4)
    if (e <= lim).all() and not np.isnan(e).any(): return None
    k = int(np.argmax(np.nan_to_num(e, nan=1e300)))
    return {'output index': k, 'got': float(got[k]), 'expected': float(want[k])}


def native_real(T, sizes):
    def go(lib, r):
        for N in sizes:
            for perm in (0, 1):
                p = np.zeros(64, np.uint64)
                pp = ctypes.c_void_p(p.ctypes.data)
                lib.r_new(pp, I(N), ctypes.c_int(0 if perm else 1))
                nc = N // 2 + (0 if perm else 1)
                for inv in (0, 1):
                    for inpl in (0, 1):
                        x = gen(r, N, T)
                        Xf = np.fft.fft(x)[:N // 2 + 1]
                        if perm:
                            h = Xf[:N // 2].copy()
                            h[0] = Xf[0].real + 1j * Xf[N // 2].real
                            spec = il(h)
                        else:
                            spec = il(Xf)
                            spec[1] = spec[-1] = 0
                        if inv: spec = spec.astype(dt(T)).astype(np.float64)
                        src, want = (spec, x * N) if inv else (x, spec)
                        if inpl:
                            b = np.zeros(max(N, 2 * nc))
                            b[:len(src)] = src
                            bi = bo = Buf(b, dt(T))
                        else: bi, bo = Buf(src, dt(T)), Buf([0] * len(want), dt(T))
                        k, sp = scratch(int(p[1]), r)
                        (lib.r_inv if inv else lib.r_fwd)(pp, bo.p, bi.p, sp)
                        j = judge(bo.v[:len(want)], want, src, T, N)
                        if j or not bo.guards() or not (inpl or bi.unchanged()):
                            return {'transform': 'real ' + ('inverse' if inv else 'forward'), 'N': N, 'type': T, 'format': 'Perm' if perm else 'CCs', 'in place': bool(inpl), 'input': [float(v) for v in src[:64]], **(j or {'buffers': 'written outside'})}
        return None
    return go


def native_dct(T, sizes):
    def go(lib, r):
        for N in sizes:
            p = np.zeros(64, np.uint64)
            pp = ctypes.c_void_p(p.ctypes.data)
            lib.dct_new(pp, I(N))
            for inv in (0, 1):
                x = gen(r, N, T)
                want = dctm(N, inv)[:, :-1] @ x
                bi, bo = Buf(x, dt(T)), Buf([0] * N, dt(T))
                k, sp = scratch(int(p[1]), r)
                lib.dct_x(pp, bo.p, bi.p, sp, ctypes.c_int(inv))
                j = judge(bo.v, want, x, T, N * 4)
                if j or not bo.guards() or not bi.unchanged():
                    return {'transform': 'DCT type %d' % (3 if inv else 2), 'N': N, 'type': T, 'input': [float(v) for v in x[:64]], **(j or {'buffers': 'written outside'})}
        return None
    return go


def native_md(T, shapes):
    def go(lib, r):
        for sh in shapes:
            P = int(np.prod(sh))
            nc = P // sh[-1] * (sh[-1] // 2 + 1)
            D = (ctypes.c_uint64 * len(sh))(*sh)
            kinds = ['dyn'] + (['static'] if len(sh) in (2, 3) else [])
            for kind in kinds:
                pre = 'md_' if kind == 'dyn' else 'md%d_' % len(sh)
                args = (I(len(sh)), D) if kind == 'dyn' else (D,)
                p = np.zeros(128, np.uint64)
                pp = ctypes.c_void_p(p.ctypes.data)
                f = getattr(lib, pre + 'new')
                f.restype = ctypes.c_uint64
                ts = f(pp, *args)
                for inv in (0, 1):
                    for inpl in (0, 1):
                        x = gen(r, 2 * P, T)
                        z = (x[0::2] + 1j * x[1::2]).reshape(sh)
                        want = il(np.fft.ifftn(z) * P if inv else np.fft.fftn(z))
                        bi = Buf(x, dt(T))
                        bo = bi if inpl else Buf([0] * (2 * P), dt(T))
                        k, sp = scratch(ts, r)
                        getattr(lib, pre + 'x')(pp, bo.p, bi.p, None if r.random() < .3 else sp, ctypes.c_int(inv))
                        j = judge(bo.v, want, x, T, P * 4)
                        if j or not bo.guards() or not (inpl or bi.unchanged()): return {'transform': '%d-D %s' % (len(sh), ('forward', 'inverse')[inv]), 'shape': sh, 'plan': kind, 'type': T, 'in place': bool(inpl), 'input': [float(v) for v in x[:64]], **(j or {'buffers': 'written outside'})}
                if sh[-1] % 2: continue
                pre = 'mdr_' if kind == 'dyn' else 'mdr%d_' % len(sh)
                for enough in (0, 1):
                    p = np.zeros(128, np.uint64)
                    pp = ctypes.c_void_p(p.ctypes.data)
                    f = getattr(lib, pre + 'new')
                    f.restype = ctypes.c_uint64
                    ts = f(pp, *args, ctypes.c_int(enough))
                    for fn in ('f', 'i', 'fb', 'ib')[:4 if kind == 'dyn' else 2]:
                        for inpl in (0, 1):
                            inv = fn[0] == 'i'
                            x = gen(r, P, T)
                            spec = il(np.fft.rfftn(x.reshape(sh)))
                            if inv: spec = spec.astype(dt(T)).astype(np.float64)
                            src, want = (spec, x * P) if inv else (x, spec)
                            if inpl:
                                b = np.zeros(2 * nc)
                                b[:len(src)] = src
                                bi = bo = Buf(b, dt(T))
                            else: bi, bo = Buf(src, dt(T)), Buf([0] * (2 * nc if enough and inv else len(want)), dt(T))
                            k, sp = scratch(ts, r)
                            getattr(lib, pre + fn)(pp, bo.p, bi.p, None if r.random() < .3 else sp)
                            j = judge(bo.v[:len(want)], want, src, T, P * 4)
                            if j or not bo.guards() or not (inpl or bi.unchanged()):
                                return {'transform': '%d-D real %s' % (len(sh), ('forward', 'inverse')[inv]), 'run-time direction': len(fn) == 2, 'shape': sh, 'plan': kind, 'real_out_is_enough': bool(enough), 'type': T, 'in place': bool(inpl), 'input': [float(v) for v in src[:64]], **(j or {'buffers': 'written outside'})}
        return None
    return go


SHAPES = [(2, 2), (3, 4), (4, 3), (5, 2), (1, 4), (4, 1), (2, 8), (8, 6), (1, 1), (2, 3, 4), (4, 2, 2), (3, 1, 2), (2, 5, 3)]


def main():
    C = Check('C17')
    q = C.tier == 'quick'
    units = [('r64', 'double', ['avx2'] if q else ['sse2', 'sse41', 'avx', 'avx2', 'avx512']), ('r32', 'float', ['sse2'] if q else ['sse2', 'sse41', 'avx', 'avx2', 'avx512'])]
    for u, T, archs in units: C.unit(u, 'c17_real.cpp', archs, ['-DREALT=' + T], irflags=ir.IRFLAGS + ['-fno-inline'])
    ths = [__import__('threading').Thread(target=C.native, args=(u, 'sse2')) for u, T, archs in units]
    for t in ths: t.start()
    C.build()

    def add(u, a, label, f, nv, cost, rep):
        t = vtask(C, u, a, label, f, domain=lambda: lin.LinDomain(nv), loopmode='unroll', label=label, replay=nat.replayer(C, u, rep))
        t.cost = cost
        C.tasks.append(t)
    for u, T, archs in units:
        es, tol = ES[T], TOL[T]
        for a in archs:
            for N in list(range(2, 65, 2)) + ([72, 90, 96, 100, 128, 134] if q else list(range(66, 200, 2)) + [256, 384, 512, 720, 1024]):
                for perm in (0, 1):
                    add(u, a, 'real_%s_%d_%s' % (T, N, ('ccs', 'perm')[perm]), lambda X, s, N=N, perm=perm, es=es, tol=tol: run_real(X, s, N, perm, es, tol), N + 2, N * N * (30 if is_prime_heavy(N // 2) else 1), native_real(T, [N]))
            for N in list(range(1, 41)) + ([48, 64, 81, 100] if q else list(range(41, 130))):
                add(u, a, 'dct_%s_%d' % (T, N), lambda X, s, N=N, es=es, tol=tol: run_dct(X, s, N, es, tol), N, N * N * (30 if is_prime_heavy(N) else 1), native_dct(T, [N]))
            for sh in SHAPES + [(7, 4), (6,), (3, 2, 2, 2)] + ([] if q else [(16, 16), (11, 6), (8, 5, 4), (2, 2, 3, 2, 2), (32, 8)]):
                for static in ((0, 1) if len(sh) in (2, 3) else (0,)):
                    P = int(np.prod(sh))
                    add(u, a, 'md_%s_%s%s' % (T, 'x'.join(map(str, sh)), '_static' if static else ''), lambda X, s, sh=sh, static=static, es=es, tol=tol: run_md(X, s, sh, es, tol, static), 2 * P, P * P, native_md(T, [sh]))
                    if sh[-1] % 2 == 0:
                        for en in (0, 1):
                            nc = P // sh[-1] * (sh[-1] // 2 + 1)
                            add(u, a, 'mdr_%s_%s%s%s' % (T, 'x'.join(map(str, sh)), '_static' if static else '', '_enough' if en else ''), lambda X, s, sh=sh, static=static, es=es, tol=tol, en=en: run_mdr(X, s, sh, es, tol, static, en), 2 * nc, P * P, native_md(T, [sh]))
    for t in ths: t.join()
    for u, T, archs in units:
        sz = list(range(2, 301, 2)) + [1 << k for k in range(9, 15)] + [360, 486, 662, 1000, 1018, 1536, 2310, 6250, 10080]
        for i in range(2): C.tasks.append(nat.nattask(C, u, 'real_sizes_%s_%d' % (T, i), native_real(T, sz[i::2]), 500))
        C.tasks.append(nat.nattask(C, u, 'dct_sizes_%s' % T, native_dct(T, list(range(1, 150)) + [256, 331, 512, 1000, 1024]), 500))
        C.tasks.append(nat.nattask(C, u, 'md_shapes_%s' % T, native_md(T, SHAPES + [(7,), (8,), (16, 16), (13, 10), (32, 64), (64, 32), (5, 7, 4), (2, 2, 2, 2), (3, 4, 5, 6), (2, 3, 2, 3, 2), (100, 6), (6, 100), (33, 18), (128, 128)]), 500))
    C.bounded += ['sizes and shapes of the proved set: see contracts (every input of each); further sizes run on sample inputs (bounded)']
    C.assumptions += ['floating-point arithmetic as exact reals on the coefficients; rounding error of the transforms is bounded only by the native runs', 'aligned_malloc returns fresh memory of the requested size', 'inverse real transforms: spectra of real data (imaginary parts of the zero and Nyquist bins zero)']
    C.run()


if __name__ == '__main__': main()
