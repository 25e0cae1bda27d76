#!/usr/bin/env python3
"""Usage: checks/run.py <property id>   -- runs the static check of one property against /repo's current tree."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'engine')]
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)
os.environ['NIKV_FORK'] = '1'
def main():
    from report import Check
    pid = sys.argv[1]
    rc = [2]
    def go():
        try:
            m = importlib.import_module(pid)
            c = Check(pid)
            rc[0] = m.run(c)
        except BaseException:
            traceback.print_exc(); rc[0] = 2
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0])
main()
