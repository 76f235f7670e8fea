#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property on the tree in /repo."""
import importlib
import os
import sys
import traceback
import warnings

sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    from vfa import core
    from vfa.repo import AnchorError
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        c = core.Check(pid, tier, seed)
        return mod.run(c)
    except AnchorError as e:
        print('ERROR: anchor lost: %s' % e)
        return 2
    except SyntaxError as e:
        print('ERROR: cannot parse: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR: analysis failed')
        return 4


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 4)
