import sys, importlib, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
if __name__ == '__main__':
    pid = sys.argv[1]
    m = importlib.import_module('checks.' + pid)
    m.main()
