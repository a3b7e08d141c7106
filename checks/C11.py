"""C11: ring buffer reads and writes preserve order and stay in bounds"""
from kvc.check import *
from kvc import sym
from .C06 import progress, outer_terms
import ctypes, random
LIM = 1 << 31
ESZ = {'u8': 1, 'u16': 2, 'f32': 4, 'f64': 8}


def remfacts(apps, K=1):
    """true facts of the remainder for the terms that occur"""
    F = []
    for m in apps:
        a, b = m.arg(0), m.arg(1)
        F += [z3.Implies(b != 0, z3.ULT(m, b)), z3.ULE(m, a)]
        small = z3.And(b != 0, z3.ULT(b, BVV(LIM, 64)), z3.ULT(a, BVV(8 * LIM, 64)))
        F += [z3.Implies(z3.And(small, z3.ULE(b * j, a), z3.ULT(a - b * j, b)), m == a - b * j) for j in range(K + 1)]
    for i, m in enumerate(apps):
        for k in apps[i + 1:]:
            for x, y in ((m, k), (k, m)):
                if not x.arg(1).eq(y.arg(1)): continue
                b = x.arg(1)
                # a1 = a2 + b, without overflow
                F.append(z3.Implies(z3.And(b != 0, x.arg(0) == y.arg(0) + b, z3.ULE(y.arg(0), BVV(LIM * 8, 64)), z3.ULE(b, BVV(LIM, 64))), x == y))
    return F


def cursors(X, s, vars_, depth, size):
    out = [('cursor', lambda t: BV('cur', 64))]
    for v in vars_:
        if v.entry is POISON or isinstance(v.entry, sym.FnPtr) or v.isptr or getattr(v, 'isfloat', False): continue
        e = v.conv(v.entry)
        if e is None or not (isinstance(e, int) or is_bv(e)): continue
        if is_bv(e) and e.size() != 64: continue
        out.append((str(v), lambda t, v=v: tobv(v.num(X, t, depth), 64)))
    return out


def ring_cands(q, regions, read, want, s_entry_read):
    """the position q holds the final value once a copy loop has passed it, and its old value before: regions are the possible start points"""
    def cands(X, s, f, bb, vars_, depth):
        C = []
        old = read(s)
        for nm, p in progress(X, s, vars_, depth):
            for rn, b in regions:
                ins = lambda t, b=b, p=p: z3.And(z3.UGE(q, b), z3.ULT(q - b, p(t)))
                C.append(('filled from %s by %s' % (rn, nm), lambda t, ins=ins: z3.If(ins(t), want() == read(t), read(t) == old)))
                C.append(('passed from %s by %s' % (rn, nm), lambda t, ins=ins: z3.Implies(ins(t), want() == read(t))))
                C.append(('below %s+%s' % (rn, nm), lambda t, b=b, p=p: z3.Implies(z3.ULT(q, b + p(t)), want() == read(t))))
                C.append(('rounds %s' % nm, lambda t, p=p: z3.Implies(z3.ULT(q, p(t)), want() == read(t))))
        return C
    return cands


def is_copy(nm, dem): return dem.startswith('kfr::') and '::copy(' in dem and 'univector_base<' in dem


def copy_contract(es):
    def h(X, s, a, i):
        n = simp(tobv(a[2], 64) * BVV(es, 64))
        X.copy(s, a[0], a[1], n)
        return None
    return h


def copy_task(C, arch, T):
    """the element copy used by the transfers, against its contract"""
    es = ESZ[T]

    def body(X, s):
        fns = [f for f in C.mods[('ring', arch)].funcs.values() if is_copy(f.name, f.dem) and ('%s const*' % {'u8': 'unsigned char', 'u16': 'unsigned short', 'f32': 'float', 'f64': 'double'}[T]) in f.dem and not f.decl]
        if not fns: return 1     # copying is inlined: covered by the transfers themselves
        k = 0
        for f in fns:
            s2 = X.new_state()
            n, q = BV('n', 64), BV('q', 64)
            s2.pc += [z3.ULE(n, LIM), z3.ULT(q, n)]
            d, sr = X.sym_array(s2, 'dst', es, n), X.sym_array(s2, 'src', es, n, True)
            g0 = uf('src', z3.BitVecSort(64), z3.BitVecSort(8 * es))
            read = lambda t: X.log_read(t.mem[d.obj].log, q)
            X.usercands = ring_cands(q, [('0', BVV(0, 64))], read, lambda: g0(q), None)
            for o in X.call(f.name, [d, sr, n], s2):
                X.obligate(o, read(o) == g0(q), 'postcondition of copy: every element copied in order')
                k += 1
        return k
    return vtask(C, 'ring', arch, 'copy', body, loopmode='cut', timeout=30000, label='copy_' + T, replay=lambda st: native(C, 'wr_' + T, 'wr', T))


def read_task(C, arch, fn, T, wr=False):
    """streaming read against the contract of the fragment copy: every fragment continues where the previous one ended, in the buffer (ghost
    cursor, wrapping at the end) and in the destination (ghost count)"""
    es = ESZ[T]

    def body(X, s):
        size, cur, n = BV('size', 64), BV('cur', 64), BV('n', 64)
        s.pc += [z3.ULT(cur, size), z3.ULT(size, LIM), z3.ULE(n, LIM)]
        data, buf = X.sym_array(s, 'data', es, size, not wr), X.sym_array(s, 'buf', es, n, wr)
        X.nldiv = (64,)
        X.factgens = [('UREM64', remfacts)]
        REM = uf('UREM64', *[z3.BitVecSort(64)] * 3)
        first = [True]
        s.ghost['first'] = 1
        s.ghost['c'], s.ghost['d'] = cur, BVV(0, 64)

        def frag(X, s, a, i):
            L = tobv(a[2], 64)
            c, d = tobv(s.ghost['c'], 64), tobv(s.ghost['d'], 64)
            rp, bp = (a[0], a[1]) if wr else (a[1], a[0])
            if bp.obj != buf.obj or rp.obj != data.obj: raise Unsupported('fragment copy between other objects')
            si, di = tobv(X.elem_index(s.mem[rp.obj], rp), 64), tobv(X.elem_index(s.mem[bp.obj], bp), 64)   # position in the ring, in the transfer
            if wr and s.ghost['first'] == 1:
                # samples that would be overwritten by the same transfer may be skipped
                X.obligate(s, z3.Or(z3.And(di == 0, si == cur), z3.And(z3.UGT(n, size), z3.ULE(di, n - size), si == REM(cur + di, size))), 'write starts at the cursor with the first sample, or skips samples it would overwrite')
                s.ghost['first'], c, d = 0, si, di
                s.pc.append(z3.ULT(c, size))
            X.obligate(s, z3.Or(L == 0, z3.And(di == d, si == c)), 'fragments are read in order from the cursor, each sample once')
            X.obligate(s, z3.Or(L == 0, z3.And(z3.ULE(L, size - c), z3.ULE(L, n - d))), 'fragment stays inside the buffer and the destination')
            s.ghost['d'] = z3.simplify(d + L)
            s.ghost['c'] = z3.simplify(z3.If(c + L == size, BVV(0, 64), c + L))
            return None
        X.contracts = [(is_copy, frag)]

        def cands(X, s2, f, bb, vars_, depth):
            C2 = []
            for nm, p in progress(X, s2, vars_, depth):
                C2.append(('count = ' + nm, lambda t, p=p: tobv(t.ghost['d'], 64) == p(t)))
                C2.append(('count = n - ' + nm, lambda t, p=p: z3.And(tobv(t.ghost['d'], 64) == n - p(t), z3.ULE(p(t), n))))
            C2.append(('cursor in range', lambda t: z3.ULT(tobv(t.ghost['c'], 64), size)))
            for cn, cv in cursors(X, s2, vars_, depth, size): C2.append(('cursor = ' + cn, lambda t, cv=cv: tobv(t.ghost['c'], 64) == cv(t)))
            return C2
        X.usercands = cands
        outs = X.call(fn, [data, size, cur, buf, n], s)
        for o in outs:
            if wr and o.ghost['first'] == 1: o.pc.append(n == 0) if X.obligate(o, n == 0, 'something is written') else None
            X.obligate(o, tobv(o.ghost['d'], 64) == n, 'postcondition of %s: all samples are read' % fn)
            X.obligate(o, tobv(o.ret, 64) == tobv(o.ghost['c'], 64), 'postcondition of %s: cursor advances by the transfer modulo the size' % fn)
        return len(outs)
    return vtask(C, 'ring', arch, fn, body, loopmode='cut', timeout=30000, replay=lambda st: native(C, fn, 'wr' if wr else 'rd', T))


def task(C, arch, fn, kind, T):
    if kind in ('rd', 'wr') and any(is_copy(x.name, x.dem) for x in C.mods[('ring', arch)].funcs.values()): return read_task(C, arch, fn, T, kind == 'wr')
    es = ESZ[T]
    n8 = 8 * es

    def body(X, s):
        X.nldiv = (64,)
        X.factgens = [('UREM64', (lambda apps: remfacts(apps, 4 if kind[-1] in '34' else 2)))]
        modular = any(is_copy(x.name, x.dem) for x in C.mods[('ring', arch)].funcs.values())
        W = z3.BitVecSort(64)
        size, cur = BV('size', 64), BV('cur', 64)
        fixed = {'wv4': 4, 'rv4': 4, 'wv3': 3, 'rv3': 3, 'w1': 1, 'r1': 1}.get(kind)
        n = BVV(fixed, 64) if fixed else BV('n', 64)
        if kind in ('wf', 'rf'): size = BVV(5, 64)
        s.pc += [z3.ULT(cur, size), z3.ULT(size, LIM), z3.ULE(n, LIM)]
        REM = uf('UREM64', W, W, W)
        E = REM(cur + n, size)
        if kind in ('wf', 'rf'): E = None
        write_ = kind[0] == 'w'
        data = X.sym_array(s, 'data', es, size, not write_)
        f0 = uf('data', W, z3.BitVecSort(n8))
        if kind == 'st':
            s.pc.append(z3.ULE(n, size))
            outs = X.call(fn, [data, size, cur, n], s)
            for o in outs: X.obligate(o, tobv(o.ret, 64) == E, 'cursor advances by the step modulo the size')
            return len(outs)
        buf = X.sym_array(s, 'buf', es, n, write_)
        g0 = uf('buf', W, z3.BitVecSort(n8))
        q = BV('q', 64)
        if kind in ('wf', 'rf'): E = z3.URem(cur + n, size)
        fs = z3.simplify(size - cur)
        if write_:
            s.pc.append(z3.ULT(q, size))
            # distance of position q behind the new cursor: the sample written there is n - dist of them
            d = z3.If(z3.ULT(q, cur), q + size - cur, q - cur)       # offset of q from the old cursor
            k = z3.If(z3.ULT(q, E), E - q, E + size - q)             # q holds the k-th last sample
            want = z3.If(z3.ULE(n, size), z3.If(z3.ULT(d, n), g0(d), f0(q)), g0(n - k))
            read = lambda t: X.log_read(t.mem[data.obj].log, q)
            regions = [('cursor', cur), ('start', BVV(0, 64)), ('new cursor', E)]
        else:
            s.pc.append(z3.ULT(q, n))
            # the read starts at the cursor and goes round: sample q comes from position (cursor + q) mod size
            if kind == 'rf': want = f0(z3.URem(cur + q, size))
            else: want = f0(REM(cur + q, size))
            read = lambda t: X.log_read(t.mem[buf.obj].log, q)
            regions = [('0', BVV(0, 64)), ('first fragment', fs)]
        base_cands = ring_cands(q, regions, read, lambda: want, None)

        def cands(X, s2, f, bb, vars_, depth):
            C2 = base_cands(X, s2, f, bb, vars_, depth) if not modular else []
            if modular:
                for nm, p in progress(X, s2, vars_, depth): C2.append(('rounds %s' % nm, lambda t, p=p: z3.Implies(z3.ULT(q, p(t)), want == read(t))))
            # fragments of an inner copy start where the enclosing loop has arrived
            for nm, p in progress(X, s2, vars_, depth):
                for I in outer_terms(s2) if not modular else ():
                    for rn, b in [('outer', I), ('n-outer', n - I), ('n-outer+fs', n - I + fs)]:
                        C2.append(('filled to %s + %s' % (rn, nm), lambda t, p=p, b=b: z3.Implies(z3.ULT(q, b + p(t)), want == read(t))))
                if not write_ and kind != 'rf':
                    # what is left to be read continues at the current cursor
                    for cn, cv in cursors(X, s2, vars_, depth, size):
                        for sn, sub in (('', lambda v: v), ('n - ', lambda v: n - v)):
                            nm2 = '%s%s from %s' % (sn, nm, cn)
                            C2.append(('left ' + nm2, lambda t, p=p, sub=sub, cv=cv: E == REM(cv(t) + sub(p(t)), size)))
                            C2.append(('next ' + nm2, lambda t, p=p, sub=sub, cv=cv: z3.Implies(z3.UGE(q, n - sub(p(t))), REM(cur + q, size) == REM(cv(t) + q - (n - sub(p(t))), size))))
                    for cn, cv in cursors(X, s2, vars_, depth, size): C2.append(('in range ' + cn, lambda t, cv=cv: z3.ULT(cv(t), size)))
            return C2
        X.usercands = cands
        args = {'w1': [data, size, cur, buf], 'r1': [data, size, cur, buf], 'wf': [data, cur, buf, n], 'rf': [data, cur, buf, n]}.get(kind, [data, size, cur, buf] + ([] if fixed else [n]))
        outs = X.call(fn, args, s)
        for o in outs:
            cs = [z3.ULE(n, size), z3.UGT(n, size)] if not fixed else [z3.BoolVal(True)]
            for c in cs: X.obligate(o, z3.Implies(c, read(o) == want), 'postcondition of %s: %s' % (fn, 'the buffer holds the last samples in order' if write_ else 'samples are read in order from the cursor'))
            for c in cs: X.obligate(o, z3.Implies(c, tobv(o.ret, 64) == E), 'postcondition of %s: cursor advances by the transfer modulo the size' % fn)
        return len(outs)
    t = vtask(C, 'ring', arch, fn, body, loopmode='cut', timeout=30000, contracts=[(is_copy, copy_contract(es))], replay=lambda st: native(C, fn, kind, T))
    t.cost = 10 if kind in ('rd', 'wr') else 1
    return t


def native(C, fn, kind, T, cases=4000):
    lib = ctypes.CDLL(C.native('ring', 'sse2'))
    f = getattr(lib, fn)
    f.restype = ctypes.c_uint64
    r = random.Random(C.seed)
    ct = {1: ctypes.c_uint8, 2: ctypes.c_uint16, 4: ctypes.c_uint32, 8: ctypes.c_uint64}[ESZ[T]]
    U = ctypes.c_uint64
    G = 9
    for _ in range(cases):
        size = 5 if kind in ('wf', 'rf') else r.choice((1, 2, 3, 4, 5, 7, 16, 33))
        cur = r.randrange(size)
        n = {'wv4': 4, 'rv4': 4, 'wv3': 3, 'rv3': 3, 'w1': 1, 'r1': 1}.get(kind)
        if n is None: n = r.randrange(size + 1) if kind == 'st' or r.random() < .6 else r.choice((r.randrange(4 * size + 2), size, size - 1, 2 * size, 2 * size + 1))
        data = (ct * (size + 2 * G))(*[(100 + i) % 251 for i in range(size + 2 * G)])
        buf = (ct * (n + 2 * G))(*[(7 + 3 * i) % 251 for i in range(n + 2 * G)])
        d0, b0 = list(data), list(buf)
        pd, pb = (ctypes.c_void_p(ctypes.addressof(x) + G * ESZ[T]) for x in (data, buf))
        if kind == 'st': ret = f(pd, U(size), U(cur), U(n))
        elif kind in ('wf', 'rf'): ret = f(pd, U(cur), pb, U(n))
        else: ret = f(pd, U(size), U(cur), pb, *([U(n)] if kind in ('wr', 'rd', 'wd', 'rdd') else []))
        ed, eb = list(d0), list(b0)
        for i in range(n):
            if kind[0] == 'w': ed[G + (cur + i) % size] = b0[G + i]
            elif kind[0] == 'r': eb[G + i] = d0[G + (cur + i) % size]
        if list(data) != ed or list(buf) != eb or ret != (cur + n) % size:
            return {'function': fn, 'size': size, 'cursor': cur, 'length': n, 'buffer_before': d0[G:-G], 'buffer_after': list(data)[G:-G], 'transfer': list(buf)[G:-G], 'returned_cursor': ret, 'expected': {'buffer': ed[G:-G], 'transfer': eb[G:-G], 'cursor': (cur + n) % size}}
    return None


def bounded(C, fn, kind, T):
    res = []

    def body(X, s):
        res.append(native(C, fn, kind, T, 1500))
        X.record(res[0] is None, '%s agrees with the contract on sampled transfers' % fn, str(res[0])[:300])
        return 1
    return vtask(C, 'ring', 'sse2', fn, body, label='bounded_' + fn, replay=lambda st: res[0])


def main():
    C = Check('C11')
    archs = ['sse2'] if C.tier == 'quick' else ['sse2', 'avx2', 'avx512']
    C.unit('ring', 'c11_ring.cpp', archs, irflags=ir.IRFLAGS + ['-fno-inline'])
    C.build()
    for a in archs:
        for T in ESZ:
            C.tasks.append(copy_task(C, a, T))
            for kind in ('wr', 'rd', 'w1', 'r1', 'st', 'wv4', 'rv4', 'wv3', 'rv3'):
                C.tasks.append(task(C, a, '%s_%s' % (kind, T), kind, T))
    C.native('ring', 'sse2')
    for T in ESZ:
        for kind in ('wf', 'rf', 'wd', 'rdd'): C.tasks.append(bounded(C, '%s_%s' % (kind, T), kind, T))
    C.bounded.append('fixed-size and owning univectors: 1500 random transfers each, up to 4 times the buffer (bounded, not proved)')
    C.assumptions += ['buffer size and transfer length below 2^31; the cursor lies inside the buffer; source and destination do not overlap the buffer', 'facts of the 64-bit remainder instantiated for the terms that occur']
    C.run()


if __name__ == '__main__': main()
