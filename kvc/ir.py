"""Mechanical extraction of the code under verification.

A driver translation unit from /verif/drivers includes the real headers (or sources) of /repo, is compiled by
clang++-18 to LLVM IR and dumped to JSON by irdump. What runs in the verifier is that IR and nothing else.
"""
import json, os, subprocess, hashlib, sys, tempfile, time, shutil, atexit
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KVC_REPO', '/repo')
ARCHFLAGS = {
    'sse2': ['-mno-sse3', '-msse2'],
    'sse41': ['-mno-sse3', '-msse4.1'],
    'avx': ['-msse4.2', '-mavx'],
    'avx2': ['-msse4.2', '-mavx2', '-mfma'],
    'avx512': ['-msse4.2', '-mavx2', '-mfma', '-mavx512f', '-mavx512cd', '-mavx512bw', '-mavx512dq', '-mavx512vl'],
}
COMMON = ['-std=gnu++17', '-DNDEBUG', '-fPIC', '-w', '-ffp-contract=fast']
IRFLAGS = ['-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-exceptions', '-fno-strict-aliasing']
_work = None


def workdir():
    global _work
    if _work is None:
        _work = tempfile.mkdtemp(prefix='kvc.')
        atexit.register(shutil.rmtree, _work, True)
    return _work


def irdump_exe():
    src = os.path.join(VERIF, 'kvc', 'irdump.cpp')
    h = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    bdir = os.path.join(VERIF, 'build')
    exe = os.path.join(bdir, 'irdump-' + h)
    if not os.path.exists(exe):
        try:
            os.makedirs(bdir, exist_ok=True)
            tmp = exe + '.%d' % os.getpid()
        except OSError:
            tmp = exe = os.path.join(workdir(), 'irdump')
        subprocess.run(['g++', '-O1', '-w', '-std=c++17', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                        '-L/usr/lib/llvm-18/lib', '-Wl,-rpath,/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True)
        if tmp != exe:
            os.rename(tmp, exe)
    return exe


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stderr[:60000])


def compile_ir(src, arch, extra=(), tag='', irflags=None, exceptions=False):
    """compile a driver to IR and return the parsed JSON"""
    w = workdir()
    base = os.path.join(w, os.path.basename(src).replace('.cpp', '') + '.' + arch + tag)
    fl = list(IRFLAGS if irflags is None else irflags)
    if exceptions:
        fl.remove('-fno-exceptions')
    _run(['clang++-18'] + COMMON + fl + ARCHFLAGS[arch] + ['-I' + REPO + '/include', '-I' + REPO + '/src'] + list(extra) +
         ['-S', '-emit-llvm', src, '-o', base + '.ll'])
    _run([irdump_exe(), base + '.ll', base + '.json'])
    with open(base + '.json') as f:
        j = json.load(f)
    j['path'] = base
    return Module(j)


def compile_native(src, arch, extra=(), tag='', opt='-O3', exe=False):
    w = workdir()
    base = os.path.join(w, os.path.basename(src).replace('.cpp', '') + '.' + arch + tag + ('.exe' if exe else '.so'))
    _run(['clang++-18'] + COMMON + [opt] + ARCHFLAGS[arch] + ['-I' + REPO + '/include', '-I' + REPO + '/src'] +
         ([] if exe else ['-shared']) + [src, '-o', base] + list(extra))
    return base


_cpu = None


def native_archs():
    """instruction sets the machine running the check can execute"""
    global _cpu
    if _cpu is None:
        fl = set()
        for l in open('/proc/cpuinfo'):
            if l.startswith('flags'):
                fl = set(l.split())
                break
        r = ['sse2']
        if 'sse4_1' in fl: r.append('sse41')
        if 'avx' in fl and 'sse4_2' in fl: r.append('avx')
        if 'avx2' in fl and 'fma' in fl: r.append('avx2')
        if {'avx512f', 'avx512cd', 'avx512bw', 'avx512dq', 'avx512vl'} <= fl and 'avx2' in r: r.append('avx512')
        _cpu = r
    return _cpu


class Func:
    __slots__ = ('name', 'dem', 'ret', 'args', 'blocks', 'loops', 'decl', 'n', 'lists')

    def __init__(self, name, j):
        self.name = name
        self.dem = j['dem']
        self.ret = j['ret']
        self.args = j['args']
        self.decl = bool(j.get('decl'))
        self.blocks = j.get('blocks')
        self.n = j.get('n', 0)
        self.loops = {int(k): frozenset(v) for k, v in j.get('loops', {}).items()}


class Module:
    def __init__(self, j):
        self.types = j['types']
        self.globals = j['globals']
        self.aliases = j['aliases']
        self.funcs = {k: Func(k, v) for k, v in j['funcs'].items()}
        self.path = j['path']
