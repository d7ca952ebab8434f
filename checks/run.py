#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: decide one property from /repo's current source"""
import os, sys, importlib, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import report
from build import Broken


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    rep = report.Report(pid, tier)
    mod = importlib.import_module(pid.lower())
    try:
        mod.check(rep, tier == 'thorough')
    except Broken as e:
        rep.parts += 1
        rep.broken.append(('check', str(e)))
    sys.stdout.flush()
    rc = rep.finish(mod.EXPLANATION, mod.TRUSTED)
    sys.stdout.flush()
    sys.exit(rc)


main()
