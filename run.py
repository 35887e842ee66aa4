#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]"""
import importlib
import os
import resource
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    from pa.checks import registry
    from pa.checks.base import Broken
    from pa.expr import set_budget
    set_budget(1e9, 660 if tier == 'quick' else 800)
    try:
        return registry.run(prop, tier)
    except Broken as e:
        print("ANALYSIS-BROKEN: %s" % e)
        return 2


def go():
    global rc
    rc = 3
    import traceback
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()


if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    sys.setrecursionlimit(20000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc)
