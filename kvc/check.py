"""Check driver: contracts on extracted functions, obligations, counterexample replay, evidence."""
import os, sys, copy, json, time, random, ctypes, mmap, struct, traceback, threading, multiprocessing, signal, pickle
import z3
from . import ir, sym
from .dom import *
from fractions import Fraction

TY = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'f32': 4, 'f64': 8}
REPLAYDIR = os.path.join(ir.VERIF, 'evidence', 'replay')


class Arg:
    def __init__(self, kind, name, ty, n=None, init=None, extra=None, gen=None):
        self.kind, self.name, self.ty, self.n, self.init, self.gen = kind, name, ty, n, init, gen
        self.es = TY[ty]


def In(name, ty, n, **k): return Arg('in', name, ty, n, **k)
def Out(name, ty, n, **k): return Arg('out', name, ty, n, **k)
def InOut(name, ty, n, **k): return Arg('inout', name, ty, n, **k)
def Val(name, ty, **k): return Arg('val', name, ty, **k)
def Const(v, ty='i64'): return Arg('const', None, ty, init=v)


class Leaf:
    """one function under contract"""

    def __init__(self, unit, fn, args, spec, pre=None, domain='uf', cmp='bits', lanewise=False, ret=None, archs=None, gen=None,
                 tol=1e-4, timeout=20000, prop=None, note='', bounded=False, label=None, setup=None, loopmode='unroll', tries=3000, contracts=None, hints=None, split=None, group=None, cost=0):
        self.__dict__.update(locals())
        del self.__dict__['self']


class Concrete:
    """evaluates specs on concrete inputs"""

    def __init__(self, domain):
        self.dom = make_dom(domain)
        class M:
            types = []
            globals = {}
            aliases = {}
            funcs = {}
        self.X = sym.Exec(M(), self.dom)


def make_dom(d):
    if d == 'real': return RealDomain()
    if callable(d): return d()
    return BitsDomain(d)


def feq(X, cmpk, ty, actual, expected):
    """equality term between actual raw value and spec value"""
    n = TY[ty] * 8
    if actual is POISON: return 0
    if callable(expected):
        try: return expected(actual)
        except Unsupported: return 0
    if isinstance(actual, Poly) or isinstance(expected, Poly):
        d = X.dom
        a = d.lift(actual, n)
        e = d.lift(expected, n) if not isinstance(expected, Fraction) else Poly.const(expected)
        return int(a == e)
    if isinstance(actual, (sym.Ptr, sym.FnPtr, Cat)): return 0
    if is_bool(expected): expected = tobv(expected, n)
    a, e = tobv(actual, n), tobv(expected, n)
    if cmpk == 'bits' or ty[0] != 'f': return simp(a == e)
    nn = z3.And(isnan_bits(a, n), isnan_bits(e, n))
    if cmpk == 'nan': return simp(z3.Or(a == e, nn))
    if cmpk == 'num': return simp(z3.Or(a == e, nn, z3.And(iszero_bits(a, n), iszero_bits(e, n))))
    raise ValueError(cmpk)


def conc_eq(cmpk, ty, got, exp, domain, tol, scale=1.0):
    n = TY[ty] * 8
    if domain == 'real' and ty[0] == 'f':
        g = float(bits2f(got, n))
        e = float(exp)
        if g != g: return False
        return abs(g - e) <= tol * max(1.0, abs(e), scale)
    if got == exp: return True
    if ty[0] == 'f':
        g, e = float(bits2f(got, n)), float(bits2f(exp, n))
        if cmpk in ('nan', 'num') and g != g and e != e: return True
        if cmpk == 'num' and g == e: return True
    return False


SPECIAL = {
    'i': lambda n, r: r.choice([0, 1, 2, 3, mask(n), mask(n) - 1, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << (n - 1)) + 1, r.getrandbits(n), r.getrandbits(n), r.getrandbits(n), r.randrange(256) & mask(n), (-r.randrange(256)) & mask(n)]),
}
F32S = [0.0, -0.0, 0.5, -0.5, 0.49999997, -0.49999997, 1.5, -1.5, 2.5, -2.5, 1.0, -1.0, 8388607.5, 8388608.0, 8388609.0, 16777215.0, 16777216.0, -8388609.0, -8388607.5, 4194303.5, 2147483648.0, -2147483648.0, 3e9, 1e30, -1e30, 1e-30, -1e-30,
        float('inf'), float('-inf'), float('nan'), 3.7, -3.7, 2147483520.0]
F64S = F32S + [0.49999999999999994, -0.49999999999999994, 4503599627370495.5, 4503599627370496.0, 4503599627370497.0, 9007199254740991.0, 9007199254740992.0, 2251799813685247.5, -4503599627370495.5, -4503599627370497.0, 9.3e18, -9.3e18, 2147483647.5, -2147483649.5]


def gen_value(ty, r, domain):
    n = TY[ty] * 8
    if ty[0] == 'f':
        if domain == 'real': return f2bits(float(r.randrange(-9, 10)), n)
        k = r.random()
        if k < 0.4: return f2bits(r.choice(F32S if n == 32 else F64S), n)
        if k < 0.6: return f2bits(r.uniform(-10, 10), n)
        if k < 0.8: return r.getrandbits(n)
        return f2bits((1 + r.random()) * 2.0 ** r.randrange(-5, 60) * r.choice([1, -1]), n)
    return SPECIAL['i'](n, r)


# ---------------------------------------------------------------- native execution
class Native:
    """calls extern "C" functions of the compiled driver in a forked child, with guard pages around buffers"""
    PAGE = 4096

    def __init__(self, so):
        self.so = so

    def run(self, fn, args, tests, timeout=120):
        """args: list of Arg; tests: list of dict name->list/int of raw bit values. returns list of dict results or 'crash'"""
        results = []
        start = 0
        while start < len(tests):
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rfd)
                    devnull = os.open('/dev/null', os.O_WRONLY)
                    os.dup2(devnull, 2)
                    self.child(fn, args, tests[start:], wfd)
                finally:
                    os._exit(0)
            os.close(wfd)
            with os.fdopen(rfd, 'rb') as f:
                t0 = time.time()
                got = []
                import select
                while True:
                    rd, _, _ = select.select([f], [], [], max(0.1, timeout - (time.time() - t0)))
                    if not rd:
                        os.kill(pid, signal.SIGKILL)
                        got.append('timeout')
                        break
                    h = f.read(4)
                    if len(h) < 4: break
                    n = struct.unpack('<I', h)[0]
                    got.append(pickle.loads(f.read(n)))
            _, st = os.waitpid(pid, 0)
            results += got
            start += len(got)
            if start < len(tests) and (not got or got[-1] != 'timeout'):
                results.append('crash')
                start += 1
            elif got and got[-1] == 'timeout':
                pass
        return results

    def child(self, fn, args, tests, wfd):
        lib = ctypes.CDLL(self.so)
        libc = ctypes.CDLL(None)
        f = getattr(lib, fn)
        retty = None
        for a in args:
            if a.kind == 'ret': retty = a.ty
        CT = {'i8': ctypes.c_int8, 'u8': ctypes.c_uint8, 'i16': ctypes.c_int16, 'u16': ctypes.c_uint16, 'i32': ctypes.c_int32, 'u32': ctypes.c_uint32,
              'i64': ctypes.c_int64, 'u64': ctypes.c_uint64, 'f32': ctypes.c_float, 'f64': ctypes.c_double}
        f.restype = CT[retty] if retty else None
        bufs = {}
        for a in args:
            if a.kind in ('in', 'out', 'inout'):
                nbytes = max(1, a.n * a.es)
                pages = (nbytes + self.PAGE - 1) // self.PAGE
                tot = (pages + 2) * self.PAGE
                mm = mmap.mmap(-1, tot)
                base = ctypes.addressof(ctypes.c_char.from_buffer(mm))
                libc.mprotect(ctypes.c_void_p(base), ctypes.c_size_t(self.PAGE), 0)
                libc.mprotect(ctypes.c_void_p(base + tot - self.PAGE), ctypes.c_size_t(self.PAGE), 0)
                addr = base + tot - self.PAGE - a.n * a.es
                bufs[a.name] = (mm, addr, a.n * a.es)
        for t in tests:
            cargs = []
            for a in args:
                if a.kind in ('in', 'out', 'inout'):
                    _, addr, nb = bufs[a.name]
                    data = b''.join(int(v).to_bytes(a.es, 'little') for v in t[a.name])
                    ctypes.memmove(addr, data, nb)
                    cargs.append(ctypes.c_void_p(addr))
                elif a.kind in ('val', 'const'):
                    v = t[a.name] if a.kind == 'val' else a.init
                    if a.ty[0] == 'f':
                        cargs.append(CT[a.ty](float(bits2f(v, a.es * 8))))
                    else: cargs.append(CT[a.ty](v))
            r = f(*cargs)
            out = {}
            for a in args:
                if a.kind in ('in', 'out', 'inout'):
                    _, addr, nb = bufs[a.name]
                    raw = ctypes.string_at(addr, nb)
                    out[a.name] = [int.from_bytes(raw[i:i + a.es], 'little') for i in range(0, nb, a.es)]
            if retty:
                out['ret'] = f2bits(r, TY[retty] * 8) if retty[0] == 'f' else r & mask(TY[retty] * 8)
            p = pickle.dumps(out)
            os.write(wfd, struct.pack('<I', len(p)) + p) if len(p) < 60000 else self.wall(wfd, struct.pack('<I', len(p)) + p)

    def wall(self, fd, b):
        while b:
            k = os.write(fd, b)
            b = b[k:]


# ---------------------------------------------------------------- leaf verification
_cache = {}


def split_obligate(X, s, cond, name, info, var):
    """discharge an obligation over a floating-point variable by exhaustive case split on its exponent"""
    n = var.size()
    e, m = FMT[n]
    bias = (1 << (e - 1)) - 1
    ev = z3.Extract(n - 2, m, var)
    lo, hi = bias - 1, bias + max(m, n - 1) + 1
    S, Mt = BV('split_s', 1), BV('split_m', m)
    cases = [z3.Implies(z3.ULT(ev, lo), cond), z3.Implies(z3.UGT(ev, hi), cond)]
    cases += [z3.substitute(cond, (var, z3.Concat(S, BVV(x, e), Mt))) for x in range(lo, hi + 1)]
    for i, c in enumerate(cases):
        c = simpl(c)
        if isinstance(c, int) and c & 1: continue
        r, sv = X.check([], z3.Not(tobool(c)) if not isinstance(c, int) else z3.BoolVal(True))
        if r == z3.unsat: continue
        X.st.ob += 1
        if r == z3.sat and i < 2: X.st.failed.append(sym.Failed(name, 'refuted', sv.model(), info))
        elif r == z3.sat:
            md = sv.model()
            v = z3.simplify(z3.Concat(md.eval(S, model_completion=True), BVV(lo + i - 2, e), md.eval(Mt, model_completion=True)))
            s3 = z3.Solver()
            s3.add(var == v)
            s3.check()
            X.st.failed.append(sym.Failed(name, 'refuted', s3.model(), info))
        else: X.st.failed.append(sym.Failed(name, 'undecided', None, info))
        return False
    X.st.ob += 1
    X.st.discharged += 1
    return True


def lane_obligate(X, s, cond, name, info, subst, pre=(), split=None):
    """discharge a lane obligation with caching modulo lane renaming; pre: preconditions on this lane only"""
    if isinstance(cond, int): return X.obligate(s, cond, name, info)
    for k in range(len(pre)):
        c0 = cond if not k else z3.Implies(z3.And([tobool(p) for p in pre[:k]]), cond)
        hit = _cache.get(z3.simplify(z3.substitute(c0, *subst)).get_id())
        if hit is not None and hit[1]: return X.record(True, name)
    if pre: cond = z3.Implies(z3.And([tobool(p) for p in pre]), cond)
    c2 = z3.simplify(z3.substitute(cond, *subst))
    hit = _cache.get(c2.get_id())
    if hit is not None and hit[1]:
        X.st.ob += 1
        X.st.names[name.split('@')[0]] = X.st.names.get(name.split('@')[0], 0) + 1
        X.st.discharged += 1
        return True
    if hit is not None:
        return X.record(False, name, info, 'not discharged (same lane obligation as before)')
    s2 = X.new_state()
    if split is not None and not isinstance(simpl(cond), int):
        r, _ = X.check([], z3.Not(simpl(cond)), timeout=45000)
        if r == z3.unknown: ok = split_obligate(X, s2, cond, name, info, split)
        else: ok = X.obligate(s2, cond, name, info) if r == z3.sat else X.record(True, name)
    else: ok = X.obligate(s2, cond, name, info)
    _cache[c2.get_id()] = (c2, ok)
    return ok


def varnames(e, memo={}):
    r = memo.get(e.get_id())
    if r is not None: return r[1]
    if z3.is_const(e): r = frozenset([e.decl().name()]) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
    else:
        r = frozenset()
        for c in e.children(): r |= varnames(c)
    memo[e.get_id()] = (e, r)
    return r


def sym_inputs(X, s, leaf):
    """build argument objects and the dict of symbolic inputs"""
    d = {}
    ptrs = []
    real = leaf.domain == 'real'
    objs = {}
    for a in leaf.args:
        if a.kind == 'ret': continue
        if a.kind == 'const':
            ptrs.append(a.init & mask(a.es * 8))
            continue
        if a.kind == 'val':
            if a.init is not None: v = a.init
            else: v = Poly.var(a.name) if real and a.ty[0] == 'f' else BV(a.name, a.es * 8)
            d[a.name] = v
            ptrs.append(v)
            continue
        vals = []
        for k in range(a.n):
            if a.init is not None: v = a.init[k]
            else: v = None
            if v is None:
                nm = '%s_%d' % (a.name, k)
                v = Poly.var(nm) if real and a.ty[0] == 'f' else BV(nm, a.es * 8)
            vals.append(v)
        d[a.name] = vals
        p = X.newobj(s, a.n * a.es, (lambda off, k, vals=vals, es=a.es: vals[off // es]), a.es, a.name, a.kind == 'in')
        objs[a.name] = p
        ptrs.append(p)
    return d, ptrs, objs


def verify_leaf(mod, leaf, arch, deadline=None):
    """returns result dict; a tuple of domains is tried in order"""
    if isinstance(leaf.domain, tuple):
        for dn in leaf.domain:
            l2 = copy.copy(leaf)
            l2.domain = dn
            r = verify_leaf(mod, l2, arch, deadline)
            if not r['failed'] and not r['err']: break
        return r
    st = sym.Stats()
    X = sym.Exec(mod, make_dom(leaf.domain), st, timeout=leaf.timeout, loopmode=leaf.loopmode, contracts=leaf.contracts)
    X.deadline = deadline
    s = X.new_state()
    t0 = time.time()
    models = []
    err = None
    nret = 0
    try:
        d, ptrs, objs = sym_inputs(X, s, leaf)
        pre = leaf.pre(X, d) if leaf.pre else []
        for c in pre:
            c = simpl(c)
            if isinstance(c, int):
                if not c: raise Unsupported('vacuous precondition')
            else: s.pc.append(c)
        if s.pc:
            r, _ = X.check(s.pc)
            if r == z3.unsat: raise Unsupported('vacuous precondition')
        pre_n = len(s.pc)
        if leaf.setup: leaf.setup(X, s, d, objs)
        outs = X.call(leaf.fn, ptrs, s)
        nret = len(outs)
        if not outs and not st.failed: raise Unsupported('no path reaches the end of the function')
        exp = leaf.spec(X, d)
        for so in outs:
            for a in leaf.args:
                if a.kind == 'ret':
                    e = exp['ret']
                    v = so.ret
                    if is_bool(v): v = tobv(v, a.es * 8)
                    X.obligate(so, feq(X, leaf.cmp, a.ty, v, e), 'postcondition of %s: return value' % leaf.fn)
                    continue
                if a.kind not in ('out', 'inout'): continue
                m = so.mem[objs[a.name].obj]
                ev = exp.get(a.name)
                for k in range(a.n):
                    act = X.rd(m, k * a.es, a.es)
                    e = ev[k] if ev is not None and k < len(ev) else None
                    if e is None: e = d[a.name][k]
                    c = feq(X, leaf.cmp, a.ty, act, e)
                    sub = None
                    lpre = []
                    if leaf.lanewise and len(so.pc) == pre_n:
                        sub = [(d[b.name][k], BV('lane_' + b.name, b.es * 8)) for b in leaf.args if b.kind in ('in', 'inout', 'out') and b.n > k and is_bv(d[b.name][k])]
                        if pre_n:
                            lv = {x.decl().name() for x, _ in sub} | {b.name for b in leaf.args if b.kind == 'val'}
                            lpre = [p for p in so.pc if varnames(p) <= lv]
                    nm = 'postcondition of %s: %s[%d]' % (leaf.fn, a.name, k)
                    info = ''
                    if isinstance(c, int) and not c: info = 'actual %s expected %s' % (str(act)[:200], str(e)[:200])
                    if sub: lane_obligate(X, so, c, nm, info, sub, lpre, d[leaf.split][k] if leaf.split else None)
                    else: X.obligate(so, c, nm, info)
        for fl in st.failed:
            if fl.model is not None:
                models.append((fl.name, extract_model(leaf, d, fl.model)))
    except Unsupported as e:
        err = 'unsupported: %s' % e
    except RecursionError:
        err = 'unsupported: recursion'
    except z3.Z3Exception as e:
        err = 'solver error: %s' % e
    except Exception as e:
        err = 'verifier error: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' at ' + traceback.format_exc().splitlines()[-3].strip()
    return {'fn': leaf.fn, 'arch': arch, 'ob': st.ob + (1 if err else 0), 'discharged': st.discharged, 'trivial': st.trivial, 'solver': st.solver, 'queries': st.queries,
            'failed': [(f.name, f.status, f.info) for f in st.failed], 'err': err, 'models': models, 'functions': sorted(st.functions), 'wall': time.time() - t0,
            'insts': st.insts, 'paths': nret, 'cuts': X.nloops_cut}


def extract_model(leaf, d, model):
    r = {}
    for a in leaf.args:
        if a.kind in ('const', 'ret'): continue
        v = d[a.name]

        def ev(x):
            if isinstance(x, int): return x
            if is_bv(x): return model.eval(x, model_completion=True).as_long()
            return None
        r[a.name] = [ev(x) for x in v] if isinstance(v, list) else ev(v)
    return r


def replay_leaf(leaf, arch, so, models, rnd, tries=None):
    """search a concrete failing input on the natively compiled code; returns dict or None"""
    if isinstance(leaf.domain, tuple):
        leaf = copy.copy(leaf)
        leaf.domain = leaf.domain[-1]
    C = Concrete(leaf.domain)
    tests = []
    for nm, m in models[:20]:
        t = {}
        for a in leaf.args:
            if a.kind in ('const', 'ret'): continue
            v = m.get(a.name)
            if isinstance(v, list):
                t[a.name] = [x if x is not None else gen_value(a.ty, rnd, leaf.domain) for x in v]
            else: t[a.name] = v if v is not None else gen_value(a.ty, rnd, leaf.domain)
        tests.append(t)
    for _ in range(tries or leaf.tries):
        t = {}
        for a in leaf.args:
            if a.kind in ('const', 'ret'): continue
            if a.kind == 'val':
                t[a.name] = (a.init if a.init is not None else a.gen(rnd) if a.gen else gen_value(a.ty, rnd, leaf.domain)) & mask(a.es * 8)
            else:
                t[a.name] = [(a.init[k] if a.init is not None and a.init[k] is not None else (a.gen(rnd) if a.gen else gen_value(a.ty, rnd, leaf.domain))) & mask(a.es * 8) for k in range(a.n)]
        if leaf.gen: t = leaf.gen(rnd, t)
        tests.append(t)

    def inp(t):
        d = {}
        for a in leaf.args:
            if a.kind in ('const', 'ret'): continue
            v = t[a.name]
            if leaf.domain == 'real' and a.ty[0] == 'f':
                f = lambda b: Poly.const(bits2frac(b, a.es * 8))
                d[a.name] = [f(x) for x in v] if isinstance(v, list) else f(v)
            else: d[a.name] = v
        return d
    ok = []
    for t in tests:
        try:
            if leaf.pre:
                cs = [simpl(c) for c in leaf.pre(C.X, inp(t))]
                if not all(isinstance(c, int) and c for c in cs): continue
        except Unsupported:
            continue
        ok.append(t)
    nat = Native(so)
    res = nat.run(leaf.fn, leaf.args, ok)
    for t, r in zip(ok, res):
        try:
            exp = leaf.spec(C.X, inp(t))
        except Unsupported as e:
            continue
        if r in ('crash', 'timeout'):
            return {'inputs': t, 'result': r, 'expected': 'normal return'}
        for a in leaf.args:
            if a.kind == 'ret':
                pairs = [(r['ret'], exp['ret'], None)]
            elif a.kind in ('out', 'inout'):
                ev = exp.get(a.name)
                pairs = [(r[a.name][k], (ev[k] if ev is not None and k < len(ev) and ev[k] is not None else t[a.name][k]), k) for k in range(a.n)]
            elif a.kind == 'in':
                pairs = [(r[a.name][k], t[a.name][k], k) for k in range(a.n)]
            else: continue
            for g, e, k in pairs:
                if callable(e):
                    try: ok = simpl(e(g))
                    except Unsupported: continue
                    if isinstance(ok, int) and not ok:
                        return {'inputs': t, 'output': a.name, 'index': k, 'got': g, 'expected': 'relation', 'all': {x: r[x] for x in r}}
                    continue
                if isinstance(e, Poly):
                    if not e.is_const(): continue
                    e = e.const_value()
                elif is_bv(e) or is_bool(e):
                    e = simpl(tobv(e, a.es * 8))
                    if not isinstance(e, int): continue
                if leaf.domain == 'real' and a.ty[0] == 'f' and isinstance(e, int): e = bits2frac(e, a.es * 8)
                if e is POISON: continue
                if not conc_eq(leaf.cmp, a.ty, g, e, leaf.domain if isinstance(e, Fraction) else 'x', leaf.tol):
                    return {'inputs': t, 'output': a.name, 'index': k, 'got': g, 'expected': str(e), 'all': {x: r[x] for x in r}}
    return None


def vtask(C, unit, arch, fn, body, domain='uf', loopmode='cut', timeout=20000, label=None, contracts=None, replay=None):
    """a verification task driven by Python: body(X, s) executes the function under contract and states the obligations; replay() searches
    a concrete failing input on the compiled code"""
    def run():
        st = sym.Stats()
        X = sym.Exec(C.mods[(unit, arch)], make_dom(domain), st, timeout=timeout, loopmode=loopmode, contracts=contracts or [])
        X.deadline = C.t0 + C.budget * 0.7
        s = X.new_state()
        t0 = time.time()
        err = None
        n = 0
        try:
            n = body(X, s)
            if n == 0 and not st.failed: raise Unsupported('no path reaches the end of the function')
        except Unsupported as e: err = 'unsupported: %s' % e
        except RecursionError: err = 'unsupported: recursion'
        except z3.Z3Exception as e: err = 'solver error: %s at %s' % (e, ' | '.join(x.strip() for x in traceback.format_exc().splitlines() if 'File' in x and '/verif' in x))
        except Exception as e: err = 'verifier error: ' + ''.join(traceback.format_exception_only(type(e), e)).strip() + ' at ' + traceback.format_exc().splitlines()[-3].strip()
        r = {'fn': label or fn, 'arch': arch, 'ob': st.ob + (1 if err else 0), 'discharged': st.discharged, 'trivial': st.trivial, 'solver': st.solver, 'queries': st.queries,
             'failed': [(f.name, f.status, f.info) for f in st.failed][:6], 'err': err, 'models': [], 'functions': sorted(st.functions), 'wall': time.time() - t0,
             'insts': st.insts, 'paths': n or 0, 'cuts': X.nloops_cut}
        if (err or st.failed) and replay and 'budget' not in str(err):
            try: r['replay'] = replay(st)
            except Exception as e: r['replay_error'] = repr(e)
        return r
    run.name = label or fn
    run.arch = arch
    return run


# ---------------------------------------------------------------- the check
_G = {}


def _worker(ix):
    chk = _G['chk']
    t = chk.tasks[ix]
    try:
        return ix, t()
    except BaseException as e:
        return ix, {'fn': getattr(t, 'name', str(ix)), 'arch': '', 'ob': 1, 'discharged': 0, 'trivial': 0, 'solver': 0, 'queries': 0, 'failed': [], 'err': 'verifier error: %r %s' % (e, traceback.format_exc()[-600:]), 'models': [], 'functions': [], 'wall': 0, 'insts': 0, 'paths': 0, 'cuts': 0}


def _workers(ixs): return [_worker(ix) for ix in ixs]


class Check:
    def __init__(self, pid, level='proof'):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.level = level
        self.tasks = []
        self.leafs = []
        self.assumptions = []
        self.results = []
        self.violations = []
        self.rnd = random.Random(self.seed)
        self.units = {}
        self.mods = {}
        self.natives = {}
        self.trusted = ['clang++-18 front end and LLVM -O2 middle end (C++ to IR)', 'kvc VC generator and its model of LLVM/x86 intrinsics', 'Z3 %s' % z3.get_version_string()]
        self.bounded = []
        self.extra = {}
        self.budget = float(os.environ.get('KVC_BUDGET', '780' if self.tier == 'quick' else '3000'))
        self.unit_extra = {}
        self.known = load_known(pid)
        self.bounded_cases = 0
        self.log('start tier=%s seed=%d' % (self.tier, self.seed))

    def log(self, *a):
        print('[%s %6.1fs]' % (self.pid, time.time() - self.t0), *a, flush=True)

    def unit(self, name, src, archs, defs=(), **kw):
        """register a driver translation unit for the given instruction sets"""
        self.units[name] = (os.path.join(ir.VERIF, "drivers", src), list(archs), list(defs), kw)

    def build(self, only=None):
        jobs = []
        for nm, (src, archs, defs, kw) in self.units.items():
            if only and nm not in only: continue
            for a in archs:
                if (nm, a) not in self.mods: jobs.append((nm, a, src, defs, kw))
        ir.irdump_exe()
        errs = []
        sem = threading.Semaphore(8)

        def go(j):
            nm, a, src, defs, kw = j
            with sem:
                try:
                    self.mods[(nm, a)] = ir.compile_ir(src, a, defs, '.' + nm, **{k: v for k, v in kw.items() if k in ('irflags', 'exceptions')})
                except Exception as e:
                    errs.append((nm, a, e))
        th = [threading.Thread(target=go, args=(j,)) for j in jobs]
        for t in th: t.start()
        for t in th: t.join()
        if errs:
            e = errs[0]
            lines = str(e[2]).split('\n')
            self.log('build error'); print('BUILD ERROR', e[0], e[1], '\n'.join(sum([lines[i:i + 3] for i, l in enumerate(lines) if 'error:' in l], [])[:24]) or str(e[2])[:2000], '\n'.join([l[:300] for l in lines if 'requested here' in l or 'extern "C"' in l][:12]), file=sys.stderr)
            msg = 'contracts no longer attach: driver does not compile against /repo: %s' % ', '.join('%s/%s' % e[:2] for e in errs)
            self.log(msg)
            self.results = [{'fn': 'extraction', 'arch': '', 'ob': 1, 'discharged': 0, 'trivial': 0, 'solver': 0, 'queries': 0, 'failed': [], 'err': msg, 'models': [], 'functions': [], 'wall': 0, 'insts': 0, 'paths': 0, 'cuts': 0}]
            self.violation('extraction', '', 'extraction of the functions under contract', 'undecided', msg, None)
            self.finish()
        self.log('extracted %d modules' % len(jobs))

    def native(self, unit, arch):
        k = (unit, arch)
        if k not in self.natives:
            src, archs, defs, kw = self.units[unit]
            self.natives[k] = ir.compile_native(src, arch, ['-DKVC_NATIVE'] + list(defs) + list(kw.get('link', [])), '.' + unit)
        return self.natives[k]

    def add(self, leaf):
        archs = leaf.archs or self.units[leaf.unit][1]
        for a in archs:
            self.leafs.append((leaf, a))

    def run(self):
        """verify all registered leafs and custom tasks"""
        for leaf, a in self.leafs:
            if leaf.fn not in self.mods[(leaf.unit, a)].funcs:
                self.log('function %s missing in extraction' % leaf.fn)
                sys.exit(2)
        base = len(self.tasks)
        deadline = self.t0 + self.budget * 0.75
        for leaf, a in self.leafs:
            f = (lambda leaf=leaf, a=a: verify_leaf(self.mods[(leaf.unit, a)], leaf, a, deadline))
            self.tasks.append(f)
        self.run_tasks()
        fails = []
        for ix, r in enumerate(self.results):
            if ix >= base and (r['failed'] or r['err']): fails.append((self.leafs[ix - base], r))
            elif ix < base and (r['failed'] or r['err']): self.task_failed(ix, r)
        self.triage(fails)
        return self.finish()

    def task_failed(self, ix, r):
        """custom task result with failures: r may carry its own replay"""
        for (nm, stt, info) in (r['failed'] or [('verification of %s' % r['fn'], 'undecided', r['err'])])[:3]:
            rep = r.get('replay')
            if callable(rep): rep = rep()
            self.violation(r['fn'], r['arch'], nm, stt, (info or '') + (r['err'] or ''), rep)
            break

    def run_tasks(self):
        _G['chk'] = self
        n = len(self.tasks)
        self.results = [None] * n
        if not n: return
        ctx = multiprocessing.get_context('fork')
        order = list(range(n))
        random.Random(1).shuffle(order)
        nproc = int(os.environ.get('KVC_PROCS', '0')) or min(os.cpu_count() or 2, 8)
        done = 0
        deadline = self.t0 + self.budget * 0.8
        with ctx.Pool(min(nproc, n), maxtasksperchild=200) as pool:
            cs = max(1, min(8, n // 64))
            base = n - len(self.leafs)
            groups, rest = {}, []
            for ix in order:
                g = None
                if ix >= base:
                    l, a = self.leafs[ix - base]
                    g = (l.group, a) if l.group else None
                if g: groups.setdefault(g, []).append(ix)
                else: rest.append(ix)
            heavy = sorted([ix for ix in rest if ix < base and getattr(self.tasks[ix], 'cost', 0)], key=lambda ix: -self.tasks[ix].cost)
            rest = [ix for ix in rest if not (ix < base and getattr(self.tasks[ix], 'cost', 0))]
            chunks = [[ix] for ix in heavy] + sorted(groups.values(), key=lambda c: -max(self.leafs[i - base][0].cost for i in c)) + [rest[i:i + cs] for i in range(0, len(rest), cs)]
            it = pool.imap_unordered(_workers, chunks)
            try:
                for _ in chunks:
                    for ix, r in it.next(timeout=max(5.0, deadline - time.time())):
                        self.results[ix] = r
                        done += 1
            except multiprocessing.TimeoutError:
                self.log('time budget exhausted: %d of %d tasks done' % (done, n))
                pool.terminate()
        for ix in range(n):
            if self.results[ix] is None:
                self.results[ix] = {'fn': getattr(self.tasks[ix], 'name', 'task%d' % ix), 'arch': getattr(self.tasks[ix], 'arch', ''), 'ob': 1, 'discharged': 0, 'trivial': 0, 'solver': 0, 'queries': 0, 'failed': [], 'err': 'time budget exhausted', 'models': [], 'functions': [], 'wall': 0, 'insts': 0, 'paths': 0, 'cuts': 0}
        self.log('%d tasks, %d obligations' % (n, sum(r['ob'] for r in self.results)))
        if os.environ.get('KVC_SLOW'):
            for r in sorted(self.results, key=lambda r: -r['wall'])[:int(os.environ['KVC_SLOW'])]: self.log('  %-30s %-7s %6.1fs' % (r['fn'], r['arch'], r['wall']))

    def triage(self, fails):
        if not fails: return
        self.log('%d functions with undischarged obligations' % len(fails))
        seen = {}
        for (l, a), r in fails: seen.setdefault(l.fn, []).append(a)
        for f, aa in list(seen.items())[:60 if not os.environ.get('KVC_ALL') else 100000]: self.log('   ', f, ' '.join(aa))
        # build the native code needed for replay
        need = sorted({(l.unit, a) for (l, a), r in fails if a in ir.native_archs()})
        sem = threading.Semaphore(8)

        def go(k):
            with sem:
                try: self.native(*k)
                except Exception as e: self.log('native build failed', k, str(e)[-500:])
        th = [threading.Thread(target=go, args=(k,)) for k in need]
        for t in th: t.start()
        for t in th: t.join()
        pending = []
        found = 0
        for (leaf, a), r in sorted(fails, key=lambda x: (not x[1]['models'], bool(x[1]['err']))):
            if found >= 5 or time.time() - self.t0 > self.budget * 0.95:
                pending.append((leaf, a, r, None))
                continue
            so = self.natives.get((leaf.unit, a))
            rep = None
            if so:
                try:
                    rep = replay_leaf(leaf, a, so, r['models'], random.Random(self.seed))
                except Exception as e:
                    self.log('replay error %s' % e, traceback.format_exc()[-300:])
            if rep:
                rep.update({'unit': leaf.unit, 'driver': os.path.basename(self.units[leaf.unit][0]), 'arch': a, 'fn': leaf.fn, 'defs': self.units[leaf.unit][2],
                            'args': [(x.kind, x.name, x.ty, x.n, x.init if x.kind == 'const' else None) for x in leaf.args]})
                f0 = (r['failed'] or [('verification of %s' % leaf.fn, 'undecided', r['err'])])[0]
                if self.violation(leaf.fn, a, f0[0], f0[1], f0[2] or r['err'], rep, leaf): found += 1
            else: pending.append((leaf, a, r, so))
        if not found:
            for leaf, a, r, so in pending[:3]:
                f0 = (r['failed'] or [('verification of %s' % leaf.fn, 'undecided', r['err'])])[0]
                self.violation(leaf.fn, a, f0[0], f0[1], f0[2] or r['err'], None, leaf)

    def violation(self, fn, arch, obligation, status, info, rep, leaf=None):
        key = '%s %s' % (fn, obligation)
        for k in self.known:
            if k['match'] in key or k['match'] == fn:
                if k not in self.known_hit: self.known_hit.append(k)
                return False
        os.makedirs(REPLAYDIR, exist_ok=True)
        path = os.path.join(REPLAYDIR, '%s-%d.json' % (self.pid, len(self.violations) + 1))
        rec = {'property': self.pid, 'function': fn, 'arch': arch, 'obligation': obligation, 'status': status, 'verifier_output': info, 'concrete': rep}
        with open(path, 'w') as f: json.dump(rec, f, indent=1, default=str)
        self.violations.append((path, rep is not None))
        self.log('obligation failed: %s [%s] %s: %s' % (obligation, arch, status, str(info)[:300]))
        if rep: self.log('  replayed on the compiled code: %s' % json.dumps(rep, default=str)[:600])
        return True

    known_hit = []

    def finish(self):
        ob = sum(r['ob'] for r in self.results)
        dis = sum(r['discharged'] for r in self.results)
        if ob == 0:
            self.log('no obligations generated')
            sys.exit(2)
        fnset = set()
        for r in self.results: fnset |= set(r['functions'])
        names = {}
        cov = {'obligations': ob, 'discharged': dis, 'checker_cmd': 'python3-vt -m kvc.run %s' % self.pid,
               'trusted_base': self.trusted,
               'functions_under_contract': len({(r['fn'], r['arch']) for r in self.results}),
               'repo_functions_executed': sorted(x for x in fnset if 'kfr::' in x)[:200],
               'repo_functions_executed_count': len([x for x in fnset if 'kfr::' in x]),
               'contracts': sorted({r['fn'] for r in self.results})[:400],
               'archs': sorted({r['arch'] for r in self.results if r['arch']}),
               'discharged_by': {'z3': sum(r['discharged'] - r['trivial'] for r in self.results), 'simplification / exact normal form': sum(r['trivial'] for r in self.results)},
               'solver_queries': sum(r['queries'] for r in self.results), 'solver_time_s': round(sum(r['solver'] for r in self.results), 2),
               'instructions_executed': sum(r['insts'] for r in self.results), 'paths': sum(r['paths'] for r in self.results),
               'loops_cut_at_invariants': sum(r['cuts'] for r in self.results),
               'bounded_parts': self.bounded}
        if self.bounded_cases: cov['bounded_cases'] = self.bounded_cases
        cov.update(self.extra)
        if self.level == 'other':
            cov['explanation'] = self.explanation
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(ir.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(ir.VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k in self.known_hit: print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.violations:
            conc = [v for v in self.violations if v[1]]
            for path, c in (conc or self.violations)[:5]:
                print('VIOLATION property=%s replay=%s%s' % (self.pid, path, '' if c else ' no-failing-input-found'))
            sys.stdout.flush()
            self.exit(1)
        self.log('all %d obligations discharged (%d functions under contract)' % (dis, cov['functions_under_contract']))
        self.exit(0)

    def exit(self, code):
        sys.stdout.flush()
        sys.stderr.flush()
        import shutil
        if ir._work: shutil.rmtree(ir._work, True)
        os._exit(code)


def load_known(pid):
    r = []
    p = os.path.join(ir.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith('#') or l.startswith('fixed:'): continue
            # known: property=<id> match=<key> :: <what>
            if l.startswith('known:') and 'property=%s ' % pid in l:
                m = l.split('match=', 1)[1]
                k, w = m.split(' :: ', 1)
                r.append({'match': k.strip(), 'what': w.strip()})
    return r
