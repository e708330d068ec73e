#!/usr/bin/env python3
"""usage: check.py PROPERTY [--thorough]   (analyses /repo's current source)"""
import importlib
import os
import pkgutil
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main(argv):
    from sa import obl
    import checks
    for m in pkgutil.iter_modules(checks.__path__):
        importlib.import_module('checks.' + m.name)
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    if pid not in checks.REG:
        print('unknown property', pid)
        return 2
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = obl.Check(pid, tier, seed)
    try:
        checks.REG[pid](ck)
    except obl.AnchorLost as e:
        print('ANALYSIS-BROKEN: anchor lost: %s' % e)
        return 2
    return ck.finish()


if __name__ == '__main__':
    rc = [2]

    def run():
        try:
            rc[0] = main(sys.argv[1:])
        except BaseException:
            import traceback
            traceback.print_exc()
            rc[0] = 2
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
