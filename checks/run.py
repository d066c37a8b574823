#!/usr/bin/env python3
"""run.py ID [ID...]: decides one property on /repo's current tree"""
import importlib.util, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "engine"))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import rules


def load(pid):
    spec = importlib.util.spec_from_file_location("check_" + pid, os.path.join(HERE, pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


rc = 0
for pid in sys.argv[1:]:
    def fn(c, pid=pid):
        return load(pid).check(c)
    fn.pid = pid
    rc |= rules.main(fn)
sys.stdout.flush()
os._exit(rc)
