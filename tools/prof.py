"""prof.py <id> [seconds]: time the runs and obligations of a check."""
import os
import sys
import threading
import time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
MIN = float(sys.argv[2]) if len(sys.argv) > 2 else 0.3


def timed(f, show):
    def g(*a, **k):
        t = time.time()
        r = f(*a, **k)
        d = time.time() - t
        if d > MIN:
            print('%-60s %6.2f' % (show(a, r), d), flush=True)
        return r
    return g


def main():
    import importlib
    from vfa import core
    core.Check.run = timed(core.Check.run, lambda a, r: 'run %s %d' % (a[2], r.work))
    core.Check.equal = timed(core.Check.equal, lambda a, r: 'equal %s %s %s' % (a[1], a[2], r))
    importlib.import_module('checks.' + sys.argv[1].lower()).run(core.Check(sys.argv[1].upper()))


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
