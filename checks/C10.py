"""C10: tensor views address the elements array slicing defines"""
from kvc.check import *
from kvc import sym, nat, lin
from kvc.nat import Buf
B = lambda x: tobv(x, 64)
ite = lambda c, a, b: simp(z3.If(tobool(c), B(a), B(b)))
smax = lambda a, b: ite(B(a) > B(b), a, b)
smin = lambda a, b: ite(B(a) < B(b), a, b)
I = ctypes.c_uint64
M64 = (1 << 64) - 1
SLICES = {'1_r': 'r', '2_rr': 'rr', '2_ir': 'ir', '2_ri': 'ri', '2_r': 'r', '2_i': 'i', '3_rrr': 'rrr', '3_irr': 'irr', '3_rir': 'rir', '3_rri': 'rri', '3_iir': 'iir', '3_iri': 'iri', '3_rii': 'rii', '3_r': 'r', '3_i': 'i', '3_rr': 'rr', '3_ii': 'ii', '3_ri': 'ri', '3_ir': 'ir', '4_rrrr': 'rrrr', '4_irir': 'irir', '4_rri': 'rri', '4_i': 'i'}
S64 = lambda x: x - (1 << 64) if x >> 63 else x


# ---- the definition of slicing, on terms
def slice_term(n, flags, start, stop, step):
    """first position, count of a range with a constant step over an axis of n; the rule of array slicing"""
    n = B(n)
    lo, hi = (0, n) if step > 0 else (M64, n - 1)
    norm = lambda p: smax(smin(ite(B(p) < 0, B(p) + n, p), hi), lo)
    a = norm(start) if flags & 1 else B(lo if step > 0 else hi)
    b = norm(stop) if flags & 2 else B(hi if step > 0 else lo)
    return simp(B(a)), simp(B(b) - B(a) if step > 0 else B(a) - B(b))      # count: ceil(distance / |step|), zero when the distance is not positive


def range_task(C, flags, step, stride=1):
    """rank 1: every size, start and stop; size, count, offset, stride of the view"""
    lab = 'slice_flags%d_step%d_stride%s' % (flags, step, 'any' if stride is None else stride)
    k = abs(step)

    def body(X, s):
        n, st, sp, sy = (z3.BitVec(x, 64) for x in ('n', 'start', 'stop', 'stride'))
        sv = sy if stride is None else stride & M64
        s.pc += [n >= 0, n < (1 << 31)]
        pd = X.newobj(s, 1 << 20, None, 4, 'data')
        ps = X.newobj(s, 8, lambda off, w: n, 8, 'shape', True)
        pt = X.newobj(s, 8, lambda off, w: sv, 8, 'strides', True)
        a = [flags | 4 if step != 1 or flags & 8 else flags, st, sp, step & M64]
        pa = X.newobj(s, 32, lambda off, w: a[off // 8], 8, 'range', True)
        po = X.newobj(s, 40, None, 8, 'out')
        nr = 0
        for o in X.call('sl1_r', [pd, ps, pt, pa, po], s):
            nr += 1
            g = [X.read_scalar(o, sym.ptradd(po, 8 * j), 8) for j in range(5)]
            first, dist = slice_term(n, flags & 3, st, sp, step)
            L = B(g[3])
            # with size below 2^31 nothing overflows: L is the ceiling of the distance over the step
            cnt = z3.And(L >= 0, L <= n, z3.If(B(dist) <= 0, L == 0, z3.And((L - 1) * k < B(dist), L * k >= B(dist))))
            X.obligate(o, cnt, 'postcondition: number of elements of the slice')
            X.obligate(o, z3.Implies(L > 0, B(g[4]) == B(sv) * (step & M64)), 'postcondition: stride of the slice')
            if stride is not None: X.obligate(o, z3.Implies(L > 0, z3.Extract(61, 0, B(g[0])) == z3.Extract(61, 0, B(first) * B(sv))), 'postcondition: first element of the slice')
            X.obligate(o, B(g[1]) == L, 'postcondition: size')
            X.obligate(o, z3.Implies(L > 0, z3.And(B(first) >= 0, B(first) < n, B(first) + (L - 1) * (step & M64) >= 0, B(first) + (L - 1) * (step & M64) < n)), 'every element of the slice lies on the axis')
        return nr
    t = vtask(C, 'tn', 'sse2', lab, body, label=lab, loopmode='unroll', timeout=60000, replay=nat.replayer(C, 'tn', native_slices))
    t.cost = 50 + k
    return t


def parse(r, kinds, shape):
    """random axis arguments inside the bounds: (driver words, numpy index)"""
    w, ix = [], []
    for k, n in zip(kinds, shape):
        if k == 'i':
            if n == 0: return None
            v = r.randrange(-n, n)
            w += [0, v, 0, 0]
            ix.append(v)
        else:
            f = r.randrange(8)
            big = lambda: r.choice((-n - 2, -n - 1, -n, -1, 0, 1, n - 1, n, n + 1, n + 3, r.randrange(-n - 2, n + 3), r.randrange(-n - 2, n + 3), (1 << 63) - 1, -(1 << 63)))
            a, b = big(), big()
            c = r.choice((1, -1, 2, -2, 3, -3, n or 1, -n or 1, n + 1, -n - 1, (1 << 63) - 1, -(1 << 63), 1 << 40))
            w += [f, a, b, c]
            ix.append(slice(a if f & 1 else None, b if f & 2 else None, c if f & 4 else None))
    return w, tuple(ix)


def layout(r, shape):
    """strides of some array of that shape inside a buffer: (offset, strides, buffer length)"""
    D = len(shape)
    order = list(range(D))
    if r.random() < .5: r.shuffle(order)
    st, span = [0] * D, 1
    for k in reversed(order):
        g = r.choice((1, 1, 1, 2, 3))
        st[k] = span * g
        span = span * g * max(1, shape[k])
    if r.random() < .5:
        st, span = [0] * D, 1
        for k in reversed(range(D)):
            st[k] = span
            span *= max(1, shape[k])
    off = 0
    for k in range(D):
        if r.random() < .25 and shape[k] > 0:
            off += st[k] * (shape[k] - 1)
            st[k] = -st[k]
    return off, st, span


KEEP = __import__('collections').deque(maxlen=64)


def i64buf(v):
    KEEP.append(Buf([x & M64 for x in v], np.uint64))      # kept alive while its address is in use
    return KEEP[-1]


def rshape(r, D, zero=True): return [r.choice((0, 1, 1, 2, 3, 4, 5, 8) if zero else (1, 1, 2, 3, 4, 5, 8)) if D < 4 else r.choice((1, 2, 3, 4)) for _ in range(D)]


def npview(off, st, sh, length):
    base = np.arange(length, dtype=np.int64)
    if 0 in sh: return np.zeros(sh, np.int64)
    return np.lib.stride_tricks.as_strided(base[off:] if off < length else base, sh, [8 * x for x in st])


def native_slices(lib, r):
    for c in range(12000):
        key = r.choice(list(SLICES))
        D, kinds = int(key[0]), SLICES[key]
        sh = rshape(r, D)
        p = parse(r, kinds, sh)
        if p is None: continue
        w, ix = p
        off, st, span = layout(r, sh)
        v = npview(off, st, sh, span)
        e = v[ix]
        k = e.ndim
        o = Buf([0] * (3 + 2 * k), np.uint64)
        data = Buf([0] * max(1, span), np.int32)
        bs, bt, bw = i64buf(sh), i64buf(st), i64buf(w)
        getattr(lib, 'sl' + key)(ctypes.c_void_p(data.a.ctypes.data + 64 + 4 * off), bs.p, bt.p, bw.p, o.p)
        g = [S64(int(x)) for x in o.v]
        info = {'function': 'tensor::operator()(%s)' % ', '.join('range' if x == 'r' else 'index' for x in kinds), 'shape': sh, 'strides': st, 'slice': str(ix)}
        want = list(e.shape)
        if g[3:3 + k] != want or g[1] != int(np.prod(want)): return dict(info, result_shape=g[3:3 + k], expected=want)
        if not o.guards(): return dict(info, result='wrote outside the result')
        if g[1]:
            # elements addressed, by flat position in the buffer
            pos = off + g[0] + sum(np.arange(n).reshape([-1 if j == q else 1 for j in range(k)]) * s for q, (n, s) in enumerate(zip(want, g[3 + k:])))
            if (np.asarray(pos) != e).any(): return dict(info, first_element=g[0], result_strides=g[3 + k:], expected_elements=e.ravel()[:20].tolist())
            cont = [1] * k
            for j in range(k - 2, -1, -1): cont[j] = cont[j + 1] * want[j + 1]
            if g[2] and g[3 + k:] != cont and any(n > 1 and a != b for n, a, b in zip(want, g[3 + k:], cont)): return dict(info, result='claims to be contiguous', result_strides=g[3 + k:])
    return None


def native_ops(lib, r):
    for c in range(6000):
        D = r.randrange(1, 5)
        sh = rshape(r, D)
        off, st, span = layout(r, sh)
        v = npview(off, st, sh, span)
        raw = np.array([r.randrange(-1000, 1000) for _ in range(max(1, span))], np.int32)
        b = Buf(raw, np.int32)
        base = ctypes.c_void_p(b.a.ctypes.data + 64 + 4 * off)
        bs, bt = i64buf(sh), i64buf(st)
        n = int(np.prod(sh))
        cur = raw[v] if n else np.zeros(sh, np.int32)
        src = np.array([r.randrange(-1000, 1000) for _ in range(n)], np.int32)
        bsrc = Buf(src, np.int32)
        o = Buf([0] * n, np.int32)
        op = r.choice(('get', 'iter', 'expr', 'fill', 'assign', 'put', 'inpl', 'binp', 'red', 'copy', 'map', 'bin', 'flat', 'resh', 'tr', 'box', 'at', 'eq', 'assignbad', 'nested'))
        if op == 'nested' and D != 2 or op == 'nested' and n == 0: continue
        f = getattr(lib, '%s_%d' % (op, D))
        f.restype = ctypes.c_int
        info = {'function': op, 'shape': sh, 'strides': st}
        want, after = None, raw.copy()
        d = Buf([0] * 16, np.uint64)
        if op in ('get', 'expr', 'nested', 'map'):
            f(base, bs.p, bt.p, o.p)
            want = cur.ravel() * (2 if op == 'map' else 1)
        elif op == 'iter':
            ix = Buf([0] * (n * D), np.uint64)
            f(base, bs.p, bt.p, o.p, ix.p)
            want = cur.ravel()
            if (ix.v.reshape(n, D) != np.array(list(np.ndindex(*sh)), np.uint64).reshape(n, D)).any(): return dict(info, indices=ix.v.tolist())
        elif op == 'fill':
            f(base, bs.p, bt.p, 77)
            if n: after[v] = 77
        elif op in ('assign', 'put', 'binp'):
            f(base, bs.p, bt.p, bsrc.p)
            if n: after[v] = src.reshape(sh) if op != 'binp' else cur - src.reshape(sh)
        elif op == 'inpl':
            f(base, bs.p, bt.p)
            if n: after[v] = cur + 1
        elif op == 'red':
            g = f(base, bs.p, bt.p)
            e = 1
            for x in cur.ravel(): e = (e * 3 + int(x)) & 0xFFFFFFFF
            if g & 0xFFFFFFFF != e: return dict(info, value=g, expected=e)
        elif op == 'copy':
            f(base, bs.p, bt.p, o.p, d.p)
            want = cur.ravel()
            if [int(x) for x in d.v[3:3 + D]] != sh or not d.v[2]: return dict(info, shape_of_copy=d.v.tolist())
        elif op == 'bin':
            f(base, bs.p, bt.p, bsrc.p, o.p)
            want = (cur - src.reshape(sh)).ravel()
        elif op in ('flat', 'resh'):
            may = r.randrange(2)
            if op == 'flat': g, want = f(base, bs.p, bt.p, may, o.p, d.p), cur.ravel()
            else:
                ns = r.choice(([n, 1, 1], [1, n, 1], [1, 1, n], [sh[0], n // sh[0] if sh[0] else 1, 1], [2, 2, n // 4], [n, 2, 1]))
                bn = i64buf(ns)
                if int(np.prod(ns)) > n: o = Buf([0] * int(np.prod(ns)), np.int32)
                g = f(base, bs.p, bt.p, bn.p, may, o.p, d.p)
                fits = int(np.prod(ns)) == n
                if not fits and g: return dict(info, new_shape=ns, result='accepted', expected='an error')
                want = cur.ravel() if fits else None
            cont, m = True, 1
            for j in reversed(range(D)):
                cont, m = cont and st[j] == m, m * sh[j]
            if want is not None and g == 0 and (may or cont): return dict(info, may_copy=may, result='refused')
            if g == 0: want = None
        elif op == 'tr':
            f(base, bs.p, bt.p, d.p)
            g = [S64(int(x)) for x in d.v]
            if g[0] or g[3:3 + D] != sh[::-1] or g[3 + D:3 + 2 * D] != st[::-1]: return dict(info, transposed=g)
        elif op == 'box':
            a = [r.randrange(x + 1) for x in sh]
            z = [r.randrange(x, y + 1) for x, y in zip(a, sh)]
            f(base, bs.p, bt.p, i64buf(a).p, i64buf(z).p, d.p)
            g = [S64(int(x)) for x in d.v]
            if g[0] != sum(x * y for x, y in zip(a, st)) or g[3:3 + D] != [y - x for x, y in zip(a, z)] or g[3 + D:3 + 2 * D] != st: return dict(info, start=a, stop=z, box=g)
        elif op == 'at':
            if not n: continue
            f.restype = ctypes.c_void_p
            i = [r.randrange(x) for x in sh]
            g = (f(base, bs.p, bt.p, i64buf(i).p) - base.value) // 4
            if g != sum(x * y for x, y in zip(i, st)): return dict(info, index=i, position=g)
        elif op in ('eq', 'assignbad'):
            o2 = cur.ravel().copy()
            sh2 = list(sh)
            if n and op == 'eq' and r.random() < .5: o2[r.randrange(n)] += 1
            if op == 'assignbad' or r.random() < .2:
                if D < 2 or sh[0] == sh[1]: continue
                sh2 = [sh[1], sh[0]] + sh[2:]
            bo = Buf(o2, np.int32)
            g = f(base, bs.p, bt.p, bo.p, i64buf(sh2).p)
            e = int(sh2 == sh and (o2 == cur.ravel()).all())
            if op == 'eq' and g != e or op == 'assignbad' and g: return dict(info, other_shape=sh2, result=g, expected=e)
        if want is not None and (o.v[:len(want)] != want).any():
            return dict(info, values=o.v.tolist()[:40], expected=want.tolist()[:40])
        if (b.v != after).any(): return dict(info, buffer_after=b.v.tolist()[:60], expected=after.tolist()[:60])
        if not b.guards() or not o.guards() or not bsrc.unchanged(): return dict(info, result='wrote outside the view')
    for n in (1, 2, 5, 100):
        if lib.life(n): return {'function': 'views keep the storage alive; self-assignment keeps the data', 'rows': n, 'result': lib.life(n)}
    return None


def native_transpose(lib, r):
    types = [('mt', 'i4', 4), ('mtc', 'c8', 8), ('mtv', 'i8', 8), ('mtb', 'i1', 1)]
    for c in range(1500):
        fn, ty, es = r.choice(types)
        D = 2 if fn in ('mtv', 'mtb') else r.randrange(1, 5)
        sh = [r.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, r.randrange(1, 70), 0 if r.random() < .2 else 3)) if D < 3 else r.randrange(1, 12) for _ in range(D)]
        n = int(np.prod(sh))
        x = np.frombuffer(r.randbytes(n * es), ty).reshape(sh) if ty != 'c8' else np.arange(n).astype(np.complex64).reshape(sh) * (1 - 2j)
        b = Buf(x.ravel(), x.dtype)
        inpl = r.random() < .5
        o = b if inpl else Buf(np.zeros(n, x.dtype), x.dtype)
        getattr(lib, '%s_%d' % (fn, D))(o.p, b.p, i64buf(sh).p)
        want = np.ascontiguousarray(x.transpose()).ravel()
        if o.v.tobytes() != want.tobytes() or not o.guards() or (not inpl and not b.unchanged()):
            k = int(np.argmax(o.v != want)) if n else 0
            return {'function': 'matrix_transpose', 'element type': ty, 'shape': sh, 'in place': inpl, 'index': k, 'input': [str(v) for v in x.ravel()[:30]]}
    return None


# ---- contents, for all values: concrete shape and layout, symbolic elements
def data_task(C, op, D, sh, off, st, span, arch):
    lab = '%s_%d_%s_%s' % (op, D, 'x'.join(map(str, sh)), '.'.join(map(str, st)))
    n = int(np.prod(sh))
    v = npview(off, st, sh, span)

    def body(X, s):
        X.maxinst = 2000000
        old = [z3.BitVec('d%d' % k, 32) for k in range(span)]
        src = [z3.BitVec('s%d' % k, 32) for k in range(n)]
        pd = X.newobj(s, 4 * span, lambda o, w: old[o // 4], 4, 'data')
        base = sym.ptradd(pd, 4 * off)
        i64 = lambda l, nm: X.newobj(s, 8 * len(l), lambda o, w: l[o // 8] & M64, 8, nm, True)
        ps, pt = i64(list(map(int, sh)), 'shape'), i64(list(map(int, st)), 'strides')
        psrc = X.newobj(s, 4 * n, lambda o, w: src[o // 4], 4, 'src', True)
        po = X.newobj(s, 4 * n, None, 4, 'out')
        args = {'get': [po], 'expr': [po], 'fill': [z3.BitVec('v', 32)], 'assign': [psrc], 'put': [psrc], 'inpl': [], 'binp': [psrc]}[op]
        o = lin.one(X.call('%s_%d' % (op, D), [base, ps, pt] + args, s))
        flat = [int(x) for x in np.asarray(v).ravel()]
        want = list(old)
        for k, p in enumerate(flat):
            if op == 'fill': want[p] = z3.BitVec('v', 32)
            if op in ('assign', 'put'): want[p] = src[k]
            if op == 'inpl': want[p] = old[p] + 1
            if op == 'binp': want[p] = old[p] - src[k]
        for k in range(span): X.obligate(o, tobv(X.read_scalar(o, sym.ptradd(pd, 4 * k), 4), 32) == want[k], 'postcondition: exactly the elements of the view are written')
        if op in ('get', 'expr'):
            for k, p in enumerate(flat): X.obligate(o, tobv(X.read_scalar(o, sym.ptradd(po, 4 * k), 4), 32) == old[p], 'postcondition: elements read through the view, in row-major order')
        return 1
    t = vtask(C, 'tn', arch, lab, body, label=lab + '_' + arch, loopmode='unroll', replay=nat.replayer(C, 'tn', native_ops))
    t.cost = n
    return t


def mt_task(C, sh, inpl, arch, fn='mt', es=4):
    D = len(sh)
    lab = 'transpose_%s_%s_%s' % (fn, 'x'.join(map(str, sh)), 'inplace' if inpl else 'copy')
    n = int(np.prod(sh))

    def body(X, s):
        X.maxinst = 4000000
        old = [z3.BitVec('d%d' % k, 32) for k in range(n * es // 4)]
        pd = X.newobj(s, n * es, lambda o, w: old[o // 4], 4, 'in', not inpl)
        po = pd if inpl else X.newobj(s, n * es, None, 4, 'out')
        ps = X.newobj(s, 8 * D, lambda o, w: sh[o // 8], 8, 'shape', True)
        o = lin.one(X.call('%s_%d' % (fn, D), [po, pd, ps], s))
        perm = np.arange(n).reshape(sh).transpose().ravel()
        w = es // 4
        ok = True
        for k in range(n):
            for j in range(w):
                g = X.read_scalar(o, sym.ptradd(po, es * k + 4 * j), 4)
                ok &= is_bv(g) and g.eq(old[int(perm[k]) * w + j])
        X.record(ok, 'postcondition: element (j, i) of the result is element (i, j) of the matrix', 'shape %s' % sh)
        return 1
    t = vtask(C, 'tn', arch, lab, body, label=lab + '_' + arch, loopmode='unroll', replay=nat.replayer(C, 'tn', native_transpose))
    t.cost = n
    return t


def main():
    C = Check('C10')
    q = C.tier == 'quick'
    archs = ['sse2', 'avx2'] if q else ['sse2', 'sse41', 'avx2', 'avx512']
    C.unit('tn', 'c10_tensor.cpp', archs)
    nth = __import__('threading').Thread(target=C.native, args=('tn', 'sse2'))
    nth.start()
    C.build()
    for flags in range(4):
        for step in (1, -1, 2, -2, 3, -3) if q else (1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 7, -7, 16, -16):
            C.tasks.append(range_task(C, flags, step))
            if abs(step) < 3: C.tasks.append(range_task(C, flags, step, None))
        for step, stride in ((1, 3), (-1, 3), (1, -2), (-1, -2)): C.tasks.append(range_task(C, flags, step, stride))
    r = random.Random(7)
    for a in archs:
        for op in ('get', 'expr', 'fill', 'assign', 'put', 'inpl', 'binp'):
            for D in (1, 2, 3, 4):
                for c in range(4 if q else 12):
                    sh = rshape(r, D, False) if D < 4 else [r.randrange(1, 4) for _ in range(4)]
                    if c == 0: sh[-1] = (13, 11, 9, 5)[D - 1]
                    C.tasks.append(data_task(C, op, D, sh, *layout(r, sh), a))
        shapes = [[1, 5], [2, 2], [3, 3], [4, 4], [5, 5], [6, 6], [7, 7], [8, 8], [9, 9], [11, 11], [13, 13], [2, 3], [3, 2], [2, 7], [7, 2], [4, 6], [6, 4], [4, 9], [9, 4], [5, 12], [12, 5], [3, 17], [17, 3], [8, 12], [12, 8], [10, 3], [5, 8], [13, 8], [2, 3, 4], [4, 3, 2], [3, 5, 3], [7, 1, 2], [2, 3, 2, 3], [4, 2, 5, 1], [5]]
        for sh in shapes + ([] if q else [[r.randrange(1, 30), r.randrange(1, 30)] for _ in range(30)]):
            for inpl in (False, True): C.tasks.append(mt_task(C, sh, inpl, a))
        for sh in ([4, 4], [5, 5], [7, 3], [3, 7], [9, 9], [2, 3, 4]):
            for inpl in (False, True): C.tasks.append(mt_task(C, sh, inpl, a, 'mtc', 8))
    nth.join()
    C.tasks.append(nat.nattask(C, 'tn', 'slices_against_numpy', native_slices, 1e6))
    C.tasks.append(nat.nattask(C, 'tn', 'operations_against_numpy', native_ops, 1e6))
    C.tasks.append(nat.nattask(C, 'tn', 'transpose_against_numpy', native_transpose, 1e6))
    C.bounded += ['slices of ranks 2 to 4, steps outside the proved set, copies, reshaping, comparison, storage lifetime: native runs against NumPy (bounded)', 'contents through views and matrix transposition: every element value, for the shapes and layouts listed among the functions under contract']
    C.assumptions += ['axis sizes below 2^31']
    C.run()


if __name__ == '__main__': main()
