"""Concrete runs of the compiled functions: bounded stand-ins and replays of failed obligations."""
import os, ctypes, pickle, signal, random, select, struct, time
import numpy as np
from .check import vtask
from . import ir


def forked(fn, timeout=120):
    """run fn() in a child process (native code may crash); returns its result or a description of the crash"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 2)
            os.dup2(dn, 1)
            try: out = fn()
            except Exception as e: out = {'harness_error': repr(e)}
            b = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f: f.write(b)
        finally: os._exit(0)
    os.close(w)
    buf = b''
    t0 = time.time()
    while True:
        rd, _, _ = select.select([r], [], [], max(0.05, timeout - (time.time() - t0)))
        if not rd:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return {'result': 'no answer within %d s' % timeout}
        x = os.read(r, 1 << 16)
        if not x: break
        buf += x
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not buf: return {'result': 'crash', 'status': st}
    return pickle.loads(buf)


class Buf:
    """array followed (and preceded) by guard values; page-aligned guard pages are not needed to see small overruns"""
    G = 16

    def __init__(self, data, dt):
        self.dt = np.dtype(dt)
        n = len(data)
        self.a = np.frombuffer(bytes([0xA5]) * ((n + 2 * self.G) * self.dt.itemsize), self.dt).copy()
        self.n = n
        if n: self.a[self.G:self.G + n] = data
        self.raw0 = self.a.tobytes()

    @property
    def p(self): return ctypes.c_void_p(self.a.ctypes.data + self.G * self.dt.itemsize)

    @property
    def v(self): return self.a[self.G:self.G + self.n]

    def guards(self):
        k = self.G * self.dt.itemsize
        b = self.a.tobytes()
        return b[:k] == self.raw0[:k] and b[len(b) - k:] == self.raw0[len(b) - k:]

    def unchanged(self): return self.a.tobytes() == self.raw0


def lib(C, unit, arch='sse2'): return ctypes.CDLL(C.native(unit, arch))


def nattask(C, unit, label, fn, cost=0, arch='sse2', timeout=120):
    """bounded: fn(lib, rng) runs the compiled code and returns None or the failing case"""
    res = []

    def go(): return forked(lambda: fn(lib(C, unit, arch), random.Random(C.seed)), timeout)

    def body(X, s):
        res.append(go())
        X.record(res[0] is None, 'bounded: ' + label, str(res[0])[:400])
        return 1
    t = vtask(C, unit, 'sse2' if (unit, 'sse2') in C.mods else C.units[unit][1][0], 'bounded_' + label, body, label='bounded_' + label + ('' if arch == 'sse2' else '_' + arch), replay=lambda st: conc(res[0]))
    t.cost = cost
    return t


def conc(r): return None if r is None or 'harness_error' in r else r


def replayer(C, unit, fn, arch='sse2', timeout=120):
    return lambda st: conc(forked(lambda: fn(lib(C, unit, arch), random.Random(C.seed)), timeout))
