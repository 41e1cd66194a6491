#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]  - decide one property on /repo's current tree"""
import os, sys, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver, specs
ap = argparse.ArgumentParser()
ap.add_argument('property', nargs='?')
ap.add_argument('--setup', action='store_true')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
a = ap.parse_args()
if a.setup:
    import subprocess
    for t in ('cbmc', 'goto-cc', 'goto-instrument', 'gcc', 'objcopy'):
        subprocess.run([t, '--version'], check=True, stdout=subprocess.DEVNULL)
    print('tools present; every check compiles its own encodings from /repo')
    sys.exit(0)
sys.exit(driver.run_property(a.property, specs.PROPS[a.property], a.tier, int(os.environ.get('VERIF_SEED', '1'))))
