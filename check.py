#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough] [-v]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from cppvc import driver, props


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
        a = [x for x in a if x != tier]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return driver.main(a[0], props.PROPS[a[0]], tier, seed, '-v' in sys.argv, only=a[1:])


sys.exit(main())
