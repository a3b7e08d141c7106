"""C06: sample format conversion and channel interleaving"""
from kvc.check import *
from kvc import sym
import ctypes, random
TYPES = ['i8', 'i16', 'i24', 'i32', 'i64', 'f32', 'f64']
BITS = {'i8': 8, 'i16': 16, 'i24': 24, 'i32': 32, 'i64': 64, 'f32': 32, 'f64': 64}
FS = {'i8': 127, 'i16': 32767, 'i24': 8388607, 'i32': 2147483647, 'i64': 9223372036854775807, 'f32': 1, 'f64': 1}   # full scale
SPREC = {'i8': 32, 'i16': 32, 'i24': 32, 'i32': 64, 'i64': 64, 'f32': 32, 'f64': 64}   # precision the scale factor is documented in
PAIRS = [(a, b) for a in TYPES for b in TYPES]


def W(t): return 32 if t in ('i8', 'i16', 'i24') else SPREC[t]


def conv(X, a, b, x):
    """the documented conversion on the raw sample x: scale by the ratio of the full scales, clamp to full scale, round to nearest"""
    d = X.dom
    if a == b: return x
    nb = BITS[b]
    n, _, v = scaled(X, a, b, x)
    sb = float(FS[b])
    lim, lo = f2bits(sb, n), f2bits(-sb, n)
    v = X.ite(d.cmp('olt', n, lim, v), lim, v, n)
    v = X.ite(d.cmp('olt', n, v, lo), lo, v, n)
    if b[0] == 'f': return v if n == nb else d.conv(n, nb, v)
    v = d.round('rint', n, v)
    if b == 'i64': return X.ite(d.cmp('oge', n, v, lim), mask(63), d.to_int(True, n, 64, v), 64)
    r = d.to_int(True, n, max(nb, 32) if b == 'i24' else nb, v)
    return X.cast('trunc', 32, 24, r) if b == 'i24' else r


def fr2f(q, n): return q.numerator / q.denominator if n == 64 else float(frac2f32(q))


def scaled(X, a, b, x):
    """intermediate values of the documented conversion: sample in working precision, and scaled"""
    d = X.dom
    n = max(SPREC[a], SPREC[b])
    sa, sb = (bits2frac(f2bits(float(FS[t]), SPREC[t]), SPREC[t]) for t in (a, b))
    na = BITS[a]
    if a == 'i24': na, x = 32, X.cast('sext', 24, 32, x)
    v = d.from_int(True, na, n, x) if a[0] == 'i' else x if na == n else d.conv(na, n, x)
    return n, v, v if sb == sa else d.op('fmul', n, v, f2bits(fr2f(sb / sa, n), n))


def nonan(t, n): return z3.Not(isnan_bits(tobv(t, n), n))


def prelemmas(X, d, a, b):
    """precondition (a float sample is not NaN) and, for the uninterpreted domain, the NaN-freeness of scaling (discharged separately in the
    IEEE theory by lemma_task)"""
    x = d['x'][0]
    pre = [nonan(x, BITS[a])] if a[0] == 'f' else []
    if a == b or X.dom.mode != 'uf' or isinstance(x, int): return pre
    if a == 'i24': x = X.cast('trunc', 32, 24, x)
    n, v, m = scaled(X, a, b, x)
    return pre + [nonan(v, n), nonan(m, n)]


def lemma_task(C, a, b):
    """IEEE: a sample that is not NaN stays not NaN in working precision and after scaling"""
    def body(X, s):
        x = BV('x', BITS[a])
        X.dom = BitsDomain('ieee')
        n, v, m = scaled(X, a, b, x)
        if a[0] == 'f': s.pc.append(nonan(x, BITS[a]))
        X.obligate(s, nonan(v, n), 'lemma: %s sample in working precision is not NaN' % a)
        y = BV('y', n)
        X.obligate(s, z3.Implies(nonan(y, n), nonan(X.dom.op('fmul', n, y, f2bits(fr2f(Fraction(1) * bits2frac(f2bits(float(FS[b]), SPREC[b]), SPREC[b]) / bits2frac(f2bits(float(FS[a]), SPREC[a]), SPREC[a]), n), n)), n)), 'lemma: scaling by %s/%s keeps non-NaN' % (b, a))
        return 1
    return vtask(C, 'conv', 'sse2', 'cs_%s_%s' % (a, b), body, label='lemma_%s_%s' % (a, b), domain='ieee')


LIM = 1 << 31


def progress(X, s, vars_, depth):
    """64-bit quantities that measure how far a loop has come: a changing value, its distance from the entry value either way"""
    out = []
    for v in vars_:
        if isinstance(v.entry, (sym.FnPtr,)) or v.entry is POISON or getattr(v, 'isfloat', False): continue
        if v.h is not None and not is_bv(v.h): continue
        e = BVV(0, 64) if v.isptr else v.conv(v.entry)
        if e is None or not is_bv(e) or e.size() != 64: continue
        g = lambda t, v=v: tobv(v.num(X, t, depth), 64)
        out += [('%s' % v, g), ('%s-e' % v, lambda t, g=g, e=e: g(t) - e), ('e-%s' % v, lambda t, g=g, e=e: e - g(t))]
    return out


def outer_terms(s):
    """values of the enclosing loops' variables"""
    r = []
    for k, v in s.frames[-1].env.items():
        if is_bv(v) and v.size() == 64 and z3.is_const(v) and v.decl().name().startswith('loop'): r.append(v)
    return r


def fill_cands(q, good):
    """invariant candidates of a loop filling a buffer: position q (a tuple, outermost first) is final once the loop has passed it"""
    def cands(X, s, f, bb, vars_, depth):
        C = []
        for nm, p in progress(X, s, vars_, depth):
            for a, qa in enumerate(q):
                C.append(('%d done below %s' % (a, nm), lambda t, p=p, qa=qa: z3.Implies(z3.ULT(qa, p(t)), good(t))))
            for I in outer_terms(s):
                if len(q) < 2: continue
                for u, w in ((q[0], q[1]), (q[1], q[0])):
                    C.append(('done below %s,%s %s' % (I.decl().name(), nm, u), lambda t, p=p, I=I, u=u, w=w: z3.Implies(z3.Or(z3.ULT(u, I), z3.And(u == I, z3.ULT(w, p(t)))), good(t))))
        return C
    return cands


ES = {'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'f32': 4, 'f64': 8}


def chan_array(X, s, name, es, ch, n, ro, tot):
    """a table of ch channel pointers and the storage they point into: channel c occupies elements [K(c), K(c)+n), channels do not overlap"""
    W64 = z3.BitVecSort(64)
    K = uf('K_' + name, W64, W64)
    st = X.sym_array(s, name, es, tot, ro)
    tab = X.newobj(s, ch, None, 8, name + '_ptrs', True, log=('base', lambda i: sym.ptradd(st, 0, ((es, K(tobv(i, 64))),))))
    return tab, st, K


def loop_task(C, arch, kind, a, b, clone):
    fn = '%s_%s_%s' % (kind, a, b)

    def body(X, s):
        X.nlmul = {}
        n, ch = BV('n', 64), BV('ch', 64)
        x0 = lambda t: conv(X, a, b, t)
        ea, eb = ES[a], ES[b]
        s.pc += [z3.ULE(n, LIM)]
        W64 = z3.BitVecSort(64)
        fx = uf('x', W64, z3.BitVecSort(8 * ea))
        if kind in ('cv', 'cvi', 'cvo'):
            px = X.sym_array(s, 'x', ea, n, True)
            po = X.sym_array(s, 'o', eb, n)
            q = BV('q', 64)
            s.pc.append(z3.ULT(q, n))
            xin = fx(q)
            rd = lambda t: X.log_read(t.mem[po.obj].log, q)
            Q, args = (q,), [po, px, n]
        else:
            s.pc += [z3.ULE(ch, LIM)]
            t0, c0 = BV('t0', 64), BV('c0', 64)
            s.pc += [z3.ULT(t0, n), z3.ULT(c0, ch)]
            tot = tobv(X.mul64(n, ch), 64)
            flat = tobv(X.mul64(t0, ch), 64) + c0
            plan = BV('planar', 64)
            s.pc.append(z3.ULE(plan, 1 << 62))
            if kind == 'il':
                tab, st, K = chan_array(X, s, 'x', ea, ch, n, True, plan)
                po = X.sym_array(s, 'o', eb, tot)
                xin, args = fx(K(c0) + t0), [po, tab, ch, n]
                rd = lambda t: X.log_read(t.mem[po.obj].log, flat)
            else:
                px = X.sym_array(s, 'x', ea, tot, True)
                tab, po, K = chan_array(X, s, 'o', eb, ch, n, False, plan)
                xin, args = fx(flat), [tab, px, ch, n]
                rd = lambda t: X.log_read(t.mem[po.obj].log, K(c0) + t0)
            def kfacts(apps):
                F = []
                ok = lambda m: z3.ULT(m.arg(0), ch)
                for m in apps: F.append(z3.Implies(ok(m), z3.And(z3.ULE(m, plan - n), z3.ULE(n, plan))))
                for i, m in enumerate(apps):
                    for k in apps[i + 1:]: F.append(z3.Implies(z3.And(ok(m), ok(k), m.arg(0) != k.arg(0)), z3.Or(z3.ULE(m + n, k), z3.ULE(k + n, m))))
                return F
            X.factgens = [('K_x' if kind == 'il' else 'K_o', kfacts)]
            Q = (t0, c0)
        want = x0(xin)
        nn = []
        for t in ('x',):
            if a != b: nn = [nonan(v, m) for m, v in [(max(SPREC[a], SPREC[b]), z) for z in scaled(X, a, b, xin)[1:]]] + ([nonan(xin, BITS[a])] if a[0] == 'f' else [])
        s.pc += nn
        good = lambda t: X.icmp('eq', BITS[b], rd(t), want)
        X.usercands = fill_cands(Q, lambda t: tobool(good(t)))
        outs = X.call(fn, args, s)
        for o in outs: X.obligate(o, good(o), 'postcondition of %s: every sample converted and in its place' % fn)
        return len(outs)

    def replay(st): return native_buffers(C, arch, kind, a, b)
    return vtask(C, 'conv', arch, fn, body, loopmode='cut', label='%s' % fn, timeout=30000, replay=replay)


CT = {'i8': ctypes.c_uint8, 'i16': ctypes.c_uint16, 'i32': ctypes.c_uint32, 'i64': ctypes.c_uint64, 'f32': ctypes.c_uint32, 'f64': ctypes.c_uint64}


def sample(r, a):
    if a[0] == 'i': return gen_value(a, r, 'uf')
    return f2bits(r.choice((0.0, 1.0, -1.0, 0.5, -0.25, r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-3, 3))), BITS[a])


def native_buffers(C, arch, kind, a, b, cases=60):
    """concrete differential run of a buffer function against the documented conversion (guard values around every channel)"""
    X = Concrete('ieee').X
    so = C.native('conv', arch if arch in ir.native_archs() else 'sse2')
    lib = ctypes.CDLL(so)
    f = getattr(lib, '%s_%s_%s' % (kind, a, b))
    r = random.Random(C.seed)
    memo = {}

    def cv(x):
        if x not in memo: memo[x] = simpl(conv(X, a, b, x))
        return memo[x]
    G = 8
    for k in range(cases):
        ch = r.choice((1, 2, 3, 4, 5, 7, 8, 9, 16, 19, 33)) if kind not in ('cv', 'cvi', 'cvo') else 1
        n = r.choice((0, 1, 2, 3, 5, 8, 16, 17, 33, 70))
        x = [[sample(r, a) for _ in range(n)] for _ in range(ch)]
        want = [[cv(v) for v in c] for c in x]
        mk = lambda ty, vals: (CT[ty] * (len(vals) + 2 * G))(*([0x5a] * G + vals + [0x5a] * G))
        at = lambda buf, ty: ctypes.c_void_p(ctypes.addressof(buf) + G * ES[ty])
        flat = lambda m: [m[c][t] for t in range(n) for c in range(ch)]
        planar = lambda m: [v for c in m for v in c]
        if kind in ('cv', 'cvi', 'cvo', 'uil', 'udl'):
            ib = mk(a, flat(x) if kind == 'udl' else planar(x))
            ob = mk(b, [0] * (n * ch))
            if kind in ('uil', 'udl'):
                f(at(ob, b), at(ib, a), ctypes.c_size_t(ch), ctypes.c_size_t(n))
                exp = flat(want) if kind == 'uil' else planar(want)
            else:
                f(at(ob, b), at(ib, a), ctypes.c_size_t(n))
                exp = planar(want)
            got = list(ob)
            if got != [0x5a] * G + exp + [0x5a] * G: return {'function': '%s_%s_%s' % (kind, a, b), 'channels': ch, 'length': n, 'input': x, 'got': got[G:-G], 'expected': exp, 'guards': got[:G] + got[-G:]}
            continue
        if kind == 'il':
            bufs = [mk(a, c) for c in x]
            tab = (ctypes.c_void_p * ch)(*[at(u, a).value for u in bufs])
            ob = mk(b, [0] * (n * ch))
            f(at(ob, b), tab, ctypes.c_size_t(ch), ctypes.c_size_t(n))
            got, exp = list(ob), [0x5a] * G + flat(want) + [0x5a] * G
        else:
            ib = mk(a, flat(x))
            bufs = [mk(b, [0] * n) for c in x]
            tab = (ctypes.c_void_p * ch)(*[at(u, b).value for u in bufs])
            f(tab, at(ib, a), ctypes.c_size_t(ch), ctypes.c_size_t(n))
            got, exp = [list(u) for u in bufs], [[0x5a] * G + c + [0x5a] * G for c in want]
        if got != exp: return {'function': '%s_%s_%s' % (kind, a, b), 'channels': ch, 'length': n, 'input': x, 'got': got, 'expected': exp}
    return None


def roundtrip_task(C, a, b):
    """integer -> wider format -> integer restores the sample. i8, i16, i24: the compiled functions on every sample value (exhaustive).
    i32: lemma over the contract of convert_sample in the standard error model of floating-point arithmetic"""
    def body(X, s):
        if a != 'i32':
            lib = ctypes.CDLL(C.native('conv', 'sse2'))
            lib_f = getattr(lib, 'rt_%s_%s' % (a, b))
            lib_f.restype = ctypes.c_longlong
            bad = lib_f()
            C_bad.append(bad)
            X.record(bad == FS[a] + 1, 'round trip %s -> %s -> %s' % (a, b, a), 'sample %d is not restored' % bad)
            return 1
        # |v| <= full scale, x = result of the first conversion, y = scaled value of the second: |y - v| < 1/2
        n1 = max(SPREC[a], SPREC[b])
        u = Fraction(1, 1 << (24 if n1 == 32 else 53))
        sc = lambda p, q: bits2frac(f2bits(fr2f(bits2frac(f2bits(float(FS[q]), n1), n1) / bits2frac(f2bits(float(FS[p]), n1), n1), n1), n1), n1)
        s1, s2 = sc(a, b), sc(b, a)
        Q = lambda f: z3.RealVal(str(f))
        v, d0, d1, r1, x, d2, d3 = z3.Reals('v d0 d1 r1 x d2 d3')
        ab = lambda t: z3.If(t < 0, -t, t)
        sb = bits2frac(f2bits(float(FS[b]), n1), n1)
        pc = [ab(v) <= FS[a], ab(d1) <= Q(u * s1 * FS[a] * 2), ab(r1) <= (Q(Fraction(1, 2)) if b[0] == 'i' else 0)]
        # clamping to full scale moves the value by no more than the error of the scale factor
        cl = z3.Real('cl')
        pc += [ab(cl) <= Q(abs(s1 * FS[a] - sb) + u * s1 * FS[a] * 2), x == v * Q(s1) + d1 + r1 + cl, ab(d2) <= Q(u * (sb + 1) * s2 * 4), d3 == x * Q(s2) + d2 - v]
        s.pc += pc
        X.obligate(s, z3.And(d3 < Q(Fraction(1, 2)), d3 > Q(Fraction(-1, 2))), 'lemma: round trip %s -> %s -> %s' % (a, b, a))
        return 1
    C_bad = []
    return vtask(C, 'conv', 'sse2', 'rt_%s_%s' % (a, b), body, label='roundtrip_%s_%s' % (a, b), replay=lambda st: {'sample': C_bad[0], 'formats': [a, b, a], 'expected': 'restored by the round trip'} if C_bad and C_bad[0] != FS[a] + 1 else None)


def bounded_task(C, kind, a, b):
    """bounded: container overloads and i24 buffers are run, not proved"""
    def body(X, s):
        r = native_buffers(C, 'sse2', kind, a, b)
        res.append(r)
        X.record(r is None, '%s_%s_%s agrees with the contract on sampled buffers' % (kind, a, b), str(r)[:300])
        return 1
    res = []
    return vtask(C, 'conv', 'sse2', '%s_%s_%s' % (kind, a, b), body, label='bounded_%s_%s_%s' % (kind, a, b), replay=lambda st: res[0] if res else None)


QUICK_IL = [('f32', 'f32'), ('i16', 'i16'), ('i8', 'i8'), ('f64', 'f64'), ('f32', 'i16'), ('i16', 'f32'), ('i32', 'f64'), ('f64', 'i8')]


def main():
    C = Check('C06')
    C.unit('conv', 'c06_conv.cpp', ['sse2', 'avx2', 'avx512'])
    C.build()
    TT = lambda t: 'i32' if t == 'i24' else t
    for a, b in PAIRS:
        def spec(X, d, a=a, b=b):
            x = d['x'][0]
            if a == 'i24': x = X.cast('trunc', 32, 24, x)
            r = conv(X, a, b, x)
            if b == 'i24': r = X.cast('sext', 24, 32, r)
            return {'o': [r]}
        pre = lambda X, d, a=a, b=b: prelemmas(X, d, a, b)
        C.add(Leaf('conv', 'cs_%s_%s' % (a, b), [Out('o', TT(b), 1), In('x', TT(a), 1)], spec, pre=pre, domain=('uf', 'ieee'), timeout=60000))
    for a, b in PAIRS:
        if a != b: C.tasks.append(lemma_task(C, a, b))
    for kind in ('cv', 'cvi', 'cvo', 'il', 'dl'):
        for a, b in PAIRS:
            if 'i24' in (a, b): continue
            if C.tier == 'quick' and kind in ('il', 'dl') and (a, b) not in QUICK_IL: continue
            t = loop_task(C, 'avx2', kind, a, b, None)
            t.cost = 10 if kind in ('il', 'dl') else 1
            C.tasks.append(t)
    C.native('conv', 'sse2')
    wider = {'i8': ('i16', 'i24', 'i32', 'i64', 'f32', 'f64'), 'i16': ('i24', 'i32', 'i64', 'f32', 'f64'), 'i24': ('i32', 'i64', 'f32', 'f64'), 'i32': ('i64', 'f64')}
    for a in wider:
        for b in wider[a]: C.tasks.append(roundtrip_task(C, a, b))
    for a, b in PAIRS:
        if 'i24' in (a, b): continue
        for kind in ('uil', 'udl'): C.tasks.append(bounded_task(C, kind, a, b))
    C.bounded.append('interleave / deinterleave overloads for univector containers: run on 60 random channel counts and lengths per format pair (bounded, not proved)')
    C.bounded.append('integer round trips of i8, i16, i24: the compiled conversions are run on every sample value (exhaustive over the input domain)')
    C.assumptions += ['channel counts and lengths below 2^31', 'channel buffers do not overlap each other', 'standard error model of IEEE multiplication in the i32 round-trip lemmas', 'float samples are not NaN (the conversion of NaN is unspecified)',
                      'fptosi out of range behaves as cvtt* (never reached after clamping: values are within full scale)']
    C.run()


if __name__ == '__main__': main()
