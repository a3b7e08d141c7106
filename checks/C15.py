"""C15: sample-rate conversion in blocks equals conversion of the stream"""
from kvc.check import *
from kvc import sym, nat, lin
from kvc.nat import Buf
from math import gcd
SZ = 256
ES = {'double': 8, 'float': 4}
DT = {'double': np.float64, 'float': np.float32}
I = ctypes.c_int64
M64 = (1 << 64) - 1
S64 = lambda x: x - (1 << 64) if x >> 63 else x


def consumed(o, L, D): return (o - 1) * D // L - (-D // L)      # inputs consumed once o outputs have been produced


def tapmap(L, depth, F):
    """impulse response from the polyphase storage"""
    h = np.zeros(L * depth)
    for ph in range(L):
        for k in range(depth): h[k * L + ph] = F[ph * depth + k]
    return h


def lldiv(X, s, a, i):
    """std::lldiv, as the C standard defines it"""
    x, d = (sym.simpl(v) for v in a[:2])
    if not isinstance(d, int): raise Unsupported('division by a symbolic factor')
    d = S64(d & M64)
    if isinstance(x, int):
        x = S64(x & M64)
        q = abs(x) // abs(d) * (1 if (x < 0) == (d < 0) else -1)
        return [q & M64, (x - q * d) & M64]
    g = getattr(X, 'floors', None)
    if g is None: g = X.floors = {}
    k = (x.sexpr(), d)
    if k not in g: g[k] = (x, d, z3.FreshConst(z3.BitVecSort(64), 'floor'), z3.FreshConst(z3.BitVecSort(64), 'mod'))
    fl, r = g[k][2:]                  # x == fl * d + r with 0 <= r < d; lldiv rounds towards zero
    s.pc += [r >= 0, r < d]
    down = z3.Or(x >= 0, r == 0)
    return [simp(z3.If(down, fl, fl + 1)), simp(z3.If(down, r, r - d))]


def floor_of(X, s, y, d):
    """the value of floor(y / d) introduced by the contract of lldiv"""
    y = simp(y)
    for x, dd, fl, r in getattr(X, 'floors', {}).values():
        if dd != d: continue
        so = z3.Solver()
        so.set('timeout', 5000)
        so.add(*[tobool(c) for c in s.pc], x != y)
        if so.check() == z3.unsat: return fl
    raise Unsupported('quotient of %s not computed' % y)


CON = [(lambda nm, dem: nm == 'lldiv', lldiv)]


def state(X, s, es, depth, L, D, ip, op, F, old):
    p = X.newobj(s, SZ, None, 8, 'converter')
    c = lambda v: X.dom.const(v) if hasattr(X.dom, 'const') else v
    pf = X.newobj(s, es * depth * L, lambda off, w: fbits(F[off // es], es), es, 'taps', True)
    pd = X.newobj(s, es * depth, lambda off, w: old[off // es], es, 'history', True)
    return p, lin.one(X.call('s_state', [p, depth, L, D, ip & M64, op & M64, pf, pd], s))


def fbits(v, es): return int(np.array(v, np.float64 if es == 8 else np.float32).view(np.uint64 if es == 8 else np.uint32))


def step(X, s, es, depth, L, D, op, n, m, skip):
    """one call from an arbitrary history: outputs, consumed count and the history left behind"""
    X.contracts = lin.heap(es) + CON
    X.maxinst = 30000000
    F = [float(k + 1) for k in range(L * depth)]
    ip = consumed(op, L, D)
    old = [X.dom.var(k) for k in range(depth)]
    p, s = state(X, s, es, depth, L, D, ip, op, F, old)
    pi = lin.inputs(X, s, m, es, depth, 'in')
    po = X.newobj(s, n * es, None, es, 'out')
    o = lin.one(X.call('s_skip', [p, n, pi, m], s) if skip else X.call('s_process', [p, po, n, pi, m], s))
    req = consumed(op + n, L, D) - ip
    X.record(o.ret == req, 'postcondition: number of input samples consumed', '%s, expected %d' % (o.ret, req))
    h = tapmap(L, depth, F)

    def row(pos, W, r, c):          # input at a stream position: history, block, or not supplied
        if ip - depth <= pos < ip + m: W[r, pos - (ip - depth)] += c
        elif pos < ip - depth: raise Unsupported('position before the history')
    if not skip:
        W = np.zeros((n, X.dom.nv + 1))
        for i in range(n):
            for pos in range(-(-((op + i) * D - L * depth + 1) // L), (op + i) * D // L + 1): row(pos, W, i, h[pos * L - ((op + i) * D - L * depth + 1)])
        if n: lin.compare(X, o, po, W, es, 1e-9, 'postcondition: each output is the filtered input at its position')
    # state left for the next block
    pg = X.newobj(o, 56, None, 8, 'positions')
    pd = X.newobj(o, depth * es, None, es, 'history after')
    o = lin.one(X.call('s_get', [p, pg, 0, pd], o))
    g = [X.read_scalar(o, sym.ptradd(pg, 8 * k), 8) for k in range(2)]
    X.record(g == [(ip + req) & M64, (op + n) & M64], 'invariant: positions after the block', str(g))
    W = np.zeros((depth, X.dom.nv + 1))
    for k in range(depth): row(ip + req - depth + k, W, k, 1)
    lin.compare(X, o, pd, W, es, 1e-9, 'invariant: the history holds the last input samples consumed')
    return 1


def queries(X, s, es, L, D):
    """size queries, for every position and size"""
    X.contracts = lin.heap(es) + CON
    ip, op, n = (z3.BitVec(x, 64) for x in ('ip', 'op', 'n'))
    B = 1 << 40
    s.pc += [n >= 0, n < B, op >= 0, op < B, ip >= 0, ip < B]
    p = X.newobj(s, SZ, None, 8, 'converter')
    pf = X.newobj(s, es * L, lambda off, w: 0, es, 'taps', True)
    s = lin.one(X.call('s_state', [p, 1, L, D, ip, op, pf, pf], s))
    nr = 0
    for fn, pos, mul, div in (('q_in', op, D, L), ('q_out', ip, L, D)):
        for o in X.call(fn, [p, n], s):
            nr += 1
            X.obligate(o, tobv(o.ret, 64) == floor_of(X, o, (pos + n - 1) * mul, div) - floor_of(X, o, (pos - 1) * mul, div), 'postcondition: %s is the difference of the positions, rounded down' % {'q_in': 'input_size_for_output', 'q_out': 'output_size_for_input'}[fn])
    for fn, mul, div in (('q_o2i', D, L), ('q_i2o', L, D)):
        for o in X.call(fn, [p, n - 1], s):
            nr += 1
            X.obligate(o, tobv(o.ret, 64) == floor_of(X, o, (n - 1) * mul, div), 'postcondition: position arithmetic rounds down')
    return nr


class Conv:
    def __init__(self, lib, T, quality, L, D, scale=1.0, cutoff=0.5):
        self.lib, self.T = lib, T
        for f in ('q_in', 'q_out', 'q_i2o', 'q_o2i', 'q_delay'): getattr(lib, f).restype = ctypes.c_int64
        for f in ('s_process', 's_skip', 'z_process'): getattr(lib, f).restype = ctypes.c_uint64
        self.m = np.zeros(SZ // 8, np.uint64)
        self.p = ctypes.c_void_p(self.m.ctypes.data)
        cf = ctypes.c_double if T == 'double' else ctypes.c_float
        lib.s_new(self.p, quality, I(L), I(D), cf(scale), cf(cutoff))
        g = np.zeros(7, np.int64)
        gp = ctypes.c_void_p(g.ctypes.data)
        lib.s_get(self.p, gp, None, None)
        self.depth, self.taps, self.L, self.D = (int(x) for x in g[2:6])
        self.F = Buf(np.zeros(self.taps), DT[T])
        lib.s_get(self.p, gp, self.F.p, None)

    def get(self):
        g = np.zeros(7, np.int64)
        d = Buf(np.zeros(self.depth), DT[self.T])
        self.lib.s_get(self.p, ctypes.c_void_p(g.ctypes.data), None, d.p)
        return g.tolist(), d.v

    def __del__(self): self.lib.s_free(self.p)


def ideal(quality, L, D, scale, cutoff):
    """windowed sinc of the documented design, in double precision"""
    g = gcd(L, D)
    L, D = L // g, D // g
    depth = 1 << (quality + 1)
    taps = depth * L
    att = (quality - 3) * 20.0
    beta = 0.1102 * (att - 8.7) if att > 50 else 0.5842 * (att - 21) ** 0.4 + 0.07886 * (att - 21) if att >= 21 else 0
    c = cutoff - (beta / 0.1102 + 8.7 - 8) / (depth - 1) / 2.285 / (4 * np.pi)
    c /= max(L, D)
    t = np.arange(taps)
    h = np.sinc((t - taps // 2) * c * 2) * np.i0(beta * np.sqrt(np.maximum(0, 1 - (2 * t / (taps - 1) - 1) ** 2))) / np.i0(beta)
    return h * L * scale / h.sum()


def native_filter(T):
    def go(lib, r):
        for q in (4, 6, 8, 10, 12):
            for L, D in ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (160, 147), (147, 160), (6, 4), (10, 5), (1, 10), (r.randrange(1, 40), r.randrange(1, 40))):
                if q > 8 and L > 100: continue
                scale, cutoff = r.choice(((1.0, .5), (1.0, .5), (.25, .5), (2.0, .45)))
                c = Conv(lib, T, q, L, D, scale, cutoff)
                h = tapmap(c.L, c.depth, c.F.v)
                w = ideal(q, L, D, scale, cutoff)
                g, d = c.get()
                tol = (1e-9 if T == 'double' else 2e-3) * abs(w).max()
                k = gcd(L, D)
                if g != [0, 0, 1 << (q + 1), (L // k) << (q + 1), L // k, D // k, ((L // k) << (q + 1)) - 1] or d.any(): return {'function': 'samplerate_converter constructor', 'quality': q, 'factors': [L, D], 'state': g}
                e = abs(h - w)
                if not e.max() <= tol: return {'function': 'samplerate_converter constructor', 'type': T, 'quality': q, 'factors': [L, D], 'tap': int(np.argmax(np.where(np.isnan(e), np.inf, e))), 'value': float(h[np.argmax(np.where(np.isnan(e), np.inf, e))]), 'expected': float(w[np.argmax(np.where(np.isnan(e), np.inf, e))])}
                dl = int((len(w) - 1) * .5 / (D // k))
                if lib.q_delay(c.p) != dl: return {'function': 'get_delay', 'value': lib.q_delay(c.p), 'expected': dl}
        return None
    return go


FACT = ((1, 1), (2, 1), (1, 2), (3, 2), (2, 3), (5, 3), (3, 5), (4, 1), (1, 4), (1, 7), (7, 1), (8, 7), (7, 8), (160, 147), (147, 160), (441, 80), (80, 441))


def native_stream(T):
    def go(lib, r):
        for c in range(60):
            L, D = r.choice(FACT + ((r.randrange(1, 30), r.randrange(1, 30)),))
            q = r.choice((4, 4, 4, 6, 8))
            v = Conv(lib, T, q, L, D)
            h = tapmap(v.L, v.depth, v.F.v)
            L, D = v.L, v.D
            x, hist, o = np.zeros(0), [], 0
            while o < 300 and len(x) < 3000:
                n = r.choice((0, 1, 1, 2, 3, 5, 8, 16, 33, r.randrange(1, 120)))
                req = lib.q_in(v.p, I(n))
                extra = r.choice((0, 0, 1, 5))
                xi = np.array([r.randrange(-99, 100) for _ in range(req + extra)], float)
                bi, bo = Buf(xi, DT[T]), Buf(np.zeros(n), DT[T])
                skip = r.random() < .15
                got = (lib.s_skip(v.p, I(n), bi.p, I(req + extra)) if skip else lib.s_process(v.p, bo.p, I(n), bi.p, I(req + extra)))
                hist.append(('skip' if skip else 'process', n, req + extra))
                info = {'function': 'samplerate_converter', 'type': T, 'quality': q, 'factors': [L, D], 'history of calls (outputs, inputs given)': hist, 'first inputs': x[:10].tolist()}
                if got != req: return dict(info, consumed=got, expected=req)
                if not bo.guards() or not bi.unchanged(): return dict(info, result='wrote outside the output')
                full = np.concatenate([x, xi])
                x = full[:len(x) + req]
                for i in range(0 if not skip else n, n):
                    st = (o + i) * D - L * v.depth + 1
                    ps = np.arange(-(-st // L), (o + i) * D // L + 1)
                    ok = ps >= 0
                    w = (full[ps[ok]] * h[(ps * L - st)[ok]]).sum()
                    if not abs(bo.v[i] - w) <= (1e-9 if T == 'double' else 1e-3) * 100: return dict(info, output=o + i, value=float(bo.v[i]), expected=float(w), inputs=full[max(0, ps[0]):][:60].tolist())
                o += n
                g, d = v.get()
                if g[:2] != [len(x), o]: return dict(info, positions=g[:2], expected=[len(x), o])
        return None
    return go


def native_complex(T):
    def go(lib, r):
        ct = {'double': np.complex128, 'float': np.complex64}[T]
        for c in range(40):
            L, D = r.choice(FACT[:13])
            a, b = Conv(lib, T, 4, L, D), Conv(lib, T, 4, L, D)
            zm = np.zeros(SZ // 8, np.uint64)
            zp = ctypes.c_void_p(zm.ctypes.data)
            lib.z_new(zp, 4, I(L), I(D))
            for k in range(8):
                n = r.randrange(0, 40)
                req = lib.q_in(a.p, I(n))
                x, y = (np.array([r.randrange(-99, 100) for _ in range(req)], float) for _ in 'ab')
                bx, by, bz = Buf(x, DT[T]), Buf(y, DT[T]), Buf(x + 1j * y, ct)
                ox, oy, oz = Buf(np.zeros(n), DT[T]), Buf(np.zeros(n), DT[T]), Buf(np.zeros(n), ct)
                u = [lib.s_process(a.p, ox.p, I(n), bx.p, I(req)), lib.s_process(b.p, oy.p, I(n), by.p, I(req)), lib.z_process(zp, oz.p, I(n), bz.p, I(req))]
                e = abs(oz.v - (ox.v + 1j * oy.v))
                if len(set(u)) > 1 or (n and not e.max() <= (1e-9 if T == 'double' else 1e-3) * 100) or not oz.guards(): return {'function': 'samplerate_converter of complex samples', 'type': T, 'factors': [L, D], 'call': k, 'outputs': n, 'consumed': u, 'value': str(oz.v[:4]), 'expected': str((ox.v + 1j * oy.v)[:4])}
            lib.z_free(zp)
        return None
    return go


def native_queries(lib, r):
    """position arithmetic of arbitrary factors"""
    lib.q_in.restype = lib.q_out.restype = lib.q_i2o.restype = lib.q_o2i.restype = ctypes.c_int64
    for c in range(3000):
        L, D = r.randrange(1, r.choice((5, 50, 5000))), r.randrange(1, r.choice((5, 50, 5000)))
        m = np.zeros(SZ // 8, np.uint64)
        p = ctypes.c_void_p(m.ctypes.data)
        ip, op, n = r.randrange(r.choice((3, 100, 1 << 40))), r.randrange(r.choice((3, 100, 1 << 40))), r.randrange(r.choice((3, 100, 1 << 30)))
        z = Buf(np.zeros(L), np.float64)
        lib.s_state(p, I(1), I(L), I(D), I(ip), I(op), z.p, z.p)
        got = [lib.q_in(p, I(n)), lib.q_out(p, I(n)), lib.q_i2o(p, I(n - 1)), lib.q_o2i(p, I(n - 1))]
        want = [(op + n - 1) * D // L - (op - 1) * D // L, (ip + n - 1) * L // D - (ip - 1) * L // D, (n - 1) * L // D, (n - 1) * D // L]
        lib.s_free(p)
        if got != want: return {'function': 'size queries', 'factors': [L, D], 'input position': ip, 'output position': op, 'size': n, 'input_size_for_output, output_size_for_input, input_position_to_output, output_position_to_input': got, 'expected': want}
    return None


def native_push(down):
    def go(lib, r):
        for c in range(150):
            L, D = r.choice(FACT + ((r.randrange(1, 30), r.randrange(1, 30)),))
            if (D > L) != down: continue
            v = Conv(lib, 'double', 4, L, D)
            hist = []
            for k in range(12):
                n = r.choice((1, 2, 3, 10, r.randrange(1, 100)))
                k = lib.q_out(v.p, I(n))
                bi, bo = Buf(np.zeros(n), np.float64), Buf(np.zeros(k), np.float64)
                g = lib.s_process(v.p, bo.p, I(k), bi.p, I(n))
                hist.append(n)
                if g != n: return {'function': 'push conversion: process() of output_size_for_input(n) samples consumes n', 'factors': [L, D], 'sizes pushed': hist, 'outputs': k, 'consumed': g, 'pushed': n}
        return None
    return go


def main():
    C = Check('C15')
    q = C.tier == 'quick'
    units = [('r64', 'double', ['sse2', 'avx2', 'avx512'] if q else ['sse2', 'sse41', 'avx', 'avx2', 'avx512']), ('r32', 'float', ['sse2', 'avx2'] if q else ['sse2', 'avx2', 'avx512'])]
    for u, T, archs in units: C.unit(u, 'c15_src.cpp', archs, ['-DREALT=' + T])
    ths = [__import__('threading').Thread(target=C.native, args=(u, 'sse2')) for u, T, archs in units]
    for t in ths: t.start()
    C.build()
    r = random.Random(C.seed)
    for u, T, archs in units:
        es = ES[T]
        for a in archs:
            for L, D in FACT[:13] + ((16, 15),) + FACT[13:15]:
                big = L > 100
                for depth in (4,) if big else (4, 7, 16) if q else (4, 7, 8, 16, 32):
                    ops = [0, L, 1000 * L + L // 2, (1 << 33) * L + L - 1] + ([k for k in range(1, L)] if L < 6 else [r.randrange(1, L) for _ in range(3)])
                    for op in ops:
                        for skip in (0, 0, 1):
                            n = r.choice((0, 1, 2, 3, 4, 5, 9, 13))
                            req = consumed(op + n, L, D) - consumed(op, L, D)
                            m = max(0, req + r.choice((0, 0, 1, 3, -1, -req)))
                            lab = 'block_%s_L%d_D%d_depth%d_at%d_out%d_in%d%s' % (T, L, D, depth, op, n, m, '_skip' if skip else '')
                            t = vtask(C, u, a, lab, lambda X, s, es=es, depth=depth, L=L, D=D, op=op, n=n, m=m, skip=skip: step(X, s, es, depth, L, D, op, n, m, skip), domain=lambda nv=depth + m: LinDomain(nv), loopmode='unroll', label=lab + '_' + a, replay=nat.replayer(C, u, native_stream(T)))
                            t.cost = L * depth + n * depth
                            C.tasks.append(t)
            if T == 'double' and a == archs[0]:
                for L, D in FACT:
                    lab = 'queries_L%d_D%d' % (L, D)
                    t = vtask(C, u, a, lab, lambda X, s, L=L, D=D, es=es: queries(X, s, es, L, D), loopmode='unroll', timeout=60000, label=lab, replay=nat.replayer(C, u, native_queries))
                    t.cost = 1e5
                    C.tasks.append(t)
    for t in ths: t.join()
    for u, T, archs in units:
        for nm, f in (('filter', native_filter(T)), ('streams', native_stream(T)), ('complex', native_complex(T))): C.tasks.append(nat.nattask(C, u, '%s_%s' % (nm, T), f, 1e6))
    C.tasks.append(nat.nattask(C, 'r64', 'queries_any_factors', native_queries, 1e6))
    C.tasks.append(nat.nattask(C, 'r64', 'push_interpolation', native_push(False), 1e6))
    C.tasks.append(nat.nattask(C, 'r64', 'push_decimation', native_push(True), 1e6))
    C.bounded += ['factors, filter depths, output positions, output and input counts of the blocks proved: as listed among the contracts; each holds for every history, every input sample and every impulse response (the code is linear in both)', 'constructor (filter design), complex samples, long streams, size queries of other factors: native runs (bounded)']
    C.assumptions += ['floating-point arithmetic as exact reals on the coefficients', 'std::lldiv truncates as the C standard defines', 'positions below 2^40 in the size queries', 'aligned_malloc returns fresh memory of the requested size']
    C.run()


if __name__ == '__main__': main()
