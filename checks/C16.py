"""C16: complex DFT equals the DFT sum"""
from kvc.check import *
from kvc import sym, nat, lin
from kvc.nat import Buf
ES = {'double': 8, 'float': 4}
TOL = {'double': 2e-12, 'float': 1e-4}


def run_dft(X, s, N, es, tol, seq=((0, 0), (1, 0), (0, 1), (1, 1)), null=False):
    X.contracts = lin.heap(es)
    X.maxinst = 30000000
    p = X.newobj(s, 400, None, 8, 'plan')
    s = lin.one(X.call('c_new', [p, N], s))
    X.record(X.read_scalar(s, p, 8) == N, 'plan size')
    temp = X.read_scalar(s, sym.ptradd(p, 8), 8)
    if not isinstance(temp, int): raise Unsupported('scratch size')
    for inv, inpl in seq:
        what = '%s transform, %s' % (('forward', 'inverse')[inv], ('out of place', 'in place')[inpl])
        b = s            # the same plan again, as the previous run left it
        if inpl: pi = po = lin.inputs(X, b, 2 * N, es, 0, 'data', False)
        else:
            pi = lin.inputs(X, b, 2 * N, es)
            po = X.newobj(b, 2 * N * es, None, es, 'out')
        pt = 0 if null else X.newobj(b, temp, None, es, 'scratch') if temp else 0
        o = lin.one(X.call('c_inv' if inv else 'c_fwd', [p, po, pi, pt], b))
        s = o
        lin.compare(X, o, po, lin.ri(lin.dftm(N, inv)), es, tol, 'postcondition: %s equals the DFT sum' % what)
    return 1


def dft_task(C, unit, arch, T, N, **kw):
    def body(X, s): return run_dft(X, s, N, ES[T], TOL[T], **kw)
    t = vtask(C, unit, arch, 'dft_%s_%d%s' % (T, N, '_nulltemp' if kw.get('null') else ''), body, domain=lambda: lin.LinDomain(2 * N), loopmode='unroll', replay=nat.replayer(C, unit, native_sizes(T, [N])))
    t.cost = N * N * (30 if is_prime_heavy(N) else 1)
    return t


def is_prime_heavy(N):
    for p in (2, 3, 5, 7):
        while N % p == 0: N //= p
    return N > 1


def transform(lib, p, inv, x, T, inplace, r, dirty=True):
    """run the compiled transform; returns output, scratch-independence included by random scratch contents"""
    N = len(x)
    dt = np.float64 if T == 'double' else np.float32
    raw = np.zeros(2 * N)
    raw[0::2], raw[1::2] = x.real, x.imag
    bi = Buf(raw, dt)
    bo = bi if inplace else Buf([0] * (2 * N), dt)
    (lib.c_inv if inv else lib.c_fwd)(p, bo.p, bi.p, scratch(lib, p, r))
    ok = bo.guards() and (inplace or bi.unchanged())
    v = np.array(bo.v, np.float64)
    return v[0::2] + 1j * v[1::2], ok


_keep = []


def scratch(lib, p, r):
    ts = ctypes.cast(p, ctypes.POINTER(ctypes.c_uint64))[1]
    a = np.frombuffer(bytes([r.choice((0x00, 0xFF, 0x7F))]) * (ts + 256), np.uint8).copy()
    _keep[:] = [a]
    off = -a.ctypes.data % 64
    return ctypes.c_void_p(a.ctypes.data + off)


def native_sizes(T, sizes, per=2):
    def go(lib, r):
        eps = 1e-14 if T == 'double' else 6e-6
        for N in sizes:
            p = np.zeros(64, np.uint64)
            pp = ctypes.c_void_p(p.ctypes.data)
            lib.c_new(pp, ctypes.c_uint64(N))
            for inv in (0, 1):
                for inpl in (0, 1):
                    for c in range(per):
                        x = np.array([complex(r.uniform(-1, 1), r.uniform(-1, 1)) for _ in range(N)]) if c or N > 4096 else np.eye(1, N, r.randrange(N))[0] * (1 + 0.5j)
                        if T == 'float': x = x.astype(np.complex64).astype(np.complex128)
                        want = np.fft.ifft(x) * N if inv else np.fft.fft(x)
                        got, ok = transform(lib, pp, inv, x, T, inpl, r)
                        e = np.abs(got - want).max() if N else 0
                        lim = eps * (8 + np.log2(max(N, 2))) * np.sqrt((np.abs(x) ** 2).sum()) * (40 if is_prime_heavy(N) else 4)
                        if not ok or not e <= lim:
                            k = int(np.argmax(np.nan_to_num(np.abs(got - want), nan=1e300)))
                            return {'transform': 'inverse' if inv else 'forward', 'N': N, 'type': T, 'in place': bool(inpl), 'input': [str(v) for v in x[:64]], 'output index': k, 'got': str(got[k]), 'expected': str(want[k]), 'buffers intact': ok}
        return None
    return go


def main():
    C = Check('C16')
    q = C.tier == 'quick'
    units = [('dft64', 'double', ['sse2', 'avx2'] if q else ['sse2', 'sse41', 'avx', 'avx2', 'avx512']), ('dft32', 'float', ['avx512'] if q else ['sse2', 'sse41', 'avx', 'avx2', 'avx512'])]
    for u, T, archs in units: C.unit(u, 'c16_dft.cpp', archs, ['-DREALT=' + T], irflags=ir.IRFLAGS + ['-fno-inline'])
    ths = []
    na = [a for a in ('avx2', 'sse2') if a in ir.native_archs()][:1]
    for u, T, archs in units:
        ths.append(__import__('threading').Thread(target=C.native, args=(u, 'sse2')))
        ths[-1].start()
    C.build()
    for u, T, archs in units:
        for a in archs:
            Ns = list(range(1, 65)) + ([72, 96, 120, 128] if q else list(range(65, 200)) + [243, 256, 257, 343, 360, 384, 512, 625, 720, 1024])
            if q: Ns += [97, 121] if a == 'sse2' else [81] if a == 'avx2' else [100]
            for N in Ns: C.tasks.append(dft_task(C, u, a, T, N))
            for N in (8, 60, 67): C.tasks.append(dft_task(C, u, a, T, N, null=True))
    for t in ths: t.join()
    for u, T, archs in units:
        sizes = list(range(1, 301)) + [1 << k for k in range(9, 15)] + [331, 343, 360, 480, 509, 600, 625, 720, 729, 1000, 1009, 1331, 1536, 2187, 2310, 3125, 4099, 5040, 9000]
        for i in range(4): C.tasks.append(nat.nattask(C, u, 'sizes_%s_%d' % (T, i), native_sizes(T, sizes[i::4]), 5))
        C.tasks.append(nat.nattask(C, u, 'large_%s' % T, native_sizes(T, [1 << 15, 1 << 16, 1 << 17, 30030, 40000], 1), 5))
    C.bounded += ['sizes of the proved set: see contracts (every input of each size); further sizes up to 2^17 run on sample inputs (bounded)']
    C.assumptions += ['floating-point arithmetic as exact reals on the coefficients (double); rounding error of the transform is bounded only by the native runs', 'aligned_malloc returns fresh memory of the requested size']
    C.run()


if __name__ == '__main__': main()
