"""development aid: run the vtasks of a check for one instruction set and summarise; dev.py CHECK [arch] [name-regex] [seconds]"""
import sys, re, time, os, importlib, multiprocessing as mp, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.setrecursionlimit(20000)
from kvc import check, sym
A = sys.argv
arch, pat, lim = (A[2] if len(A) > 2 else 'sse2'), (A[3] if len(A) > 3 else '.'), int(A[4]) if len(A) > 4 else 60
_t = []
orig = check.vtask
def one(i):
    t = _t[i]; t0 = time.time()
    def h(*a): raise check.Unsupported('dev timeout')
    signal.signal(signal.SIGALRM, h); signal.alarm(lim)
    try: r = t()
    except BaseException as e: r = {'fn': t.name, 'arch': '?', 'ob': 0, 'discharged': 0, 'err': repr(e), 'failed': []}
    signal.alarm(0)
    return i, time.time() - t0, r
def run(self):
    global _t
    for k, (leaf, a) in enumerate(self.leafs):
        if a == arch: pass
    _t = [t for t in self.tasks if re.search(pat, t.name) and getattr(t, 'arch', arch) == arch]
    print(len(_t), 'tasks'); tot = ob = 0
    with mp.get_context('fork').Pool(8) as p:
        for i, w, r in p.imap_unordered(one, range(len(_t))):
            tot += w; ob += r['ob']
            if r['err'] or r['failed'] or w > lim / 3 or os.environ.get('ALL'):
                print('%-14s %5.1fs %d/%d %s %s %s' % (r['fn'], w, r['discharged'], r['ob'], (r['err'] or '')[:160], [(f[0][-60:], f[1]) for f in r['failed'][:2]], str(r.get('replay') or r.get('replay_error') or '')[:300]), flush=True)
    print('total cpu', round(tot), 'obligations', ob)
    os._exit(0)
check.Check.run = run
importlib.import_module('checks.' + A[1]).main()
