"""C04: sort / sortdesc return the ordered permutation of the input lanes"""
from kvc.check import *
from kvc import lattice
import os

HEAD = '#include <kfr/base.hpp>\nusing namespace kfr;\n'
LO = {'f32': 0xff800000, 'f64': 0xfff << 52, 'i8': 0x80, 'i16': 0x8000, 'i32': 1 << 31, 'i64': 1 << 63, 'u8': 0, 'u16': 0, 'u32': 0, 'u64': 0}
HI = {'f32': 0x7f800000, 'f64': 0x7ff << 52, 'i8': 0x7f, 'i16': 0x7fff, 'i32': mask(31), 'i64': mask(63), 'u8': mask(8), 'u16': mask(16), 'u32': mask(32), 'u64': mask(64)}


def key(ty, b):
    n = TY[ty] * 8
    if ty[0] == 'f': return float(bits2f(b, n))
    return sgn(b, n) if ty[0] == 'i' else b


def verify(C, unit, arch, fn, ty, N, desc):
    mod = C.mods[(unit, arch)]
    st = sym.Stats()
    t0 = time.time()
    X = sym.Exec(mod, make_dom('uf'), st)
    X.deadline = C.t0 + C.budget * 0.7
    s = X.new_state()
    n = TY[ty] * 8
    err, models = None, []
    args = [Out('o', ty, N), In('a', ty, N)]
    leaf = Leaf(unit, fn, args, None)
    try:
        d, ptrs, objs = sym_inputs(X, s, leaf)
        AB = lattice.Abstraction(X, d['a'], 'f' if ty[0] == 'f' else 's' if ty[0] == 'i' else 'u', n)
        outs = X.call(fn, ptrs, s)
        if len(outs) != 1: raise Unsupported('data-dependent control flow')
        m = outs[0].mem[objs['o'].obj]
        L = AB.L
        nodes = []
        for k in range(N):
            v = AB.abstract(X.rd(m, k * TY[ty], TY[ty]))
            nd = AB.node.get(v.get_id()) if is_bv(v) else None
            if not X.record(nd is not None, 'obligation: %s lane %d is a min/max expression of the input lanes' % (fn, k), 'got %s' % str(v)[:200], 'undecided'): break
            nodes.append(nd)
        if len(nodes) == N:
            r, how, cex = lattice.decide_sort(L, nodes, N, desc)
            for k in range(N): X.record(True if r else False, 'postcondition of %s: lane %d is order statistic %d' % (fn, k, N - 1 - k if desc else k), how, 'refuted' if r is False else 'undecided')
            if cex: models.append(cex[0])
    except Unsupported as e: err = 'unsupported: %s' % e
    rep = None
    if (err or st.failed) and 'budget' not in str(err): rep = lambda: replay(C, unit, arch, fn, ty, N, desc, models)
    res = {'fn': fn, 'arch': arch, 'ob': st.ob + (1 if err else 0), 'discharged': st.discharged, 'trivial': st.discharged, 'solver': st.solver, 'queries': st.queries,
           'failed': [(f.name, f.status, f.info) for f in st.failed][:5], 'err': err, 'models': [], 'functions': sorted(st.functions), 'wall': time.time() - t0, 'insts': st.insts, 'paths': 1, 'cuts': 0}
    if rep: res['replay'] = rep()
    return res


def replay(C, unit, arch, fn, ty, N, desc, models):
    if arch not in ir.native_archs(): return None
    so = C.native(unit, arch)
    r = random.Random(C.seed)
    tests = []
    for m in models: tests.append([HI[ty] if b else LO[ty] for b in m])
    for m in models: tests.append([f2bits(float(b), TY[ty] * 8) if ty[0] == 'f' else b for b in m])
    for i in range(N): tests.append([f2bits(float((k + i) % N), TY[ty] * 8) if ty[0] == 'f' else (k + i) % N for k in range(N)])
    for _ in range(3000):
        t = [gen_value(ty, r, 'uf') for _ in range(N)]
        if r.random() < 0.5: t = [r.choice([LO[ty], HI[ty], t[0]]) for _ in range(N)]
        if ty[0] == 'f': t = [x if key(ty, x) == key(ty, x) else 0 for x in t]
        tests.append(t)
    for t, out in zip(tests, Native(so).run(fn, [Out('o', ty, N), In('a', ty, N)], [{'o': [0] * N, 'a': t} for t in tests])):
        exp = sorted((key(ty, x) for x in t), reverse=desc)
        if isinstance(out, str) or [key(ty, x) for x in out['o']] != exp:
            return {'fn': fn, 'arch': arch, 'inputs': t, 'got': out if isinstance(out, str) else [key(ty, x) for x in out['o']], 'expected': exp}
    return None


def main():
    C = Check('C04')
    archs = ['sse2', 'sse41', 'avx', 'avx2', 'avx512']
    table = []
    for ty in TY:
        L = [HEAD]
        for N in (4, 8, 16, 32) + ((64,) if C.tier == 'thorough' else ()):
            for nm, desc in (('sort', False), ('sortdesc', True)):
                fn = '%s_%s_%d' % (nm, ty, N)
                L.append('extern "C" void %s(%s* o, const %s* a) { write(o, %s(read<%d>(a))); }' % (fn, ty, ty, nm, N))
                table.append((ty, fn, N, desc))
        p = os.path.join(ir.workdir(), 'c04_%s.cpp' % ty)
        with open(p, 'w') as f: f.write('\n'.join(L) + '\n')
        C.unit(ty, p, archs)
    C.build()
    for ty, fn, N, desc in table:
        for a in archs: C.tasks.append(lambda ty=ty, a=a, fn=fn, N=N, desc=desc: verify(C, ty, a, fn, ty, N, desc))
    C.assumptions += ['no NaN lanes; -0 and +0 compare equal', 'zero-one principle for compositions of min and max (proved on paper)',
                      'an output term syntactically equal to the odd-even transposition network of N rounds sorts N values (textbook theorem; confirmed exhaustively for N <= 16)']
    C.run()
