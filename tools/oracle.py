#!/usr/bin/env python3-vt
"""run a native oracle (replay/<name>.cpp) against /repo's working tree: oracle.py name [seed] [secs]"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from cppvc import native
N = native.Native()
try:
    ok = N.build()
    if not ok:
        print(N.error)
        sys.exit(2)
    name = sys.argv[1]
    b, err = N.link('oracle_' + name, open(os.path.join(native.VERIF, 'replay', name + '.cpp')).read(), ['-I' + os.path.join(native.VERIF, 'replay')])
    if not b:
        print(err)
        sys.exit(2)
    rc, out = N.run([b, sys.argv[2] if len(sys.argv) > 2 else '1', sys.argv[3] if len(sys.argv) > 3 else '10'], 300)
    print(out[-3000:], rc)
finally:
    N.clean()
