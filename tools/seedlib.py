#!/usr/bin/env python3
"""Planting bugs: `seedlib.py make` writes /verif/seeded/<id>/ from seeds_src/*.py, `seedlib.py verify [id...]` confirms each in a
scratch copy (applies, builds, stable tests pass, demo fails with and passes without), `seedlib.py catch [id...]` runs the check."""
import os, sys, json, subprocess, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks, timeout=120):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks)


DEMO_SH = '''#!/bin/bash
# run with cwd /repo after build.sh: exit 0 when the property holds for the case in demo.cpp
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
clang++ -std=gnu++20 -O1 -g0 -w -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -Iinclude "$d/demo.cpp" \\
  _build/libshiguredo-mp4.a -lfmt -lspdlog -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
PRE = '''#include <cstdint>
#include <cstdio>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
'''


def load():
    for f in sorted(glob.glob(V + '/tools/seeds_src/*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'seed': seed})


def run(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def make(ids):
    w = tempfile.mkdtemp(prefix='seed')
    run('git', '-C', '/repo', 'worktree', 'prune')
    subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
    for i in ids:
        s = SEEDS[i]
        for f, a, b in s['edits']:
            p = w + '/r/' + f
            t = open(p).read()
            assert t.count(a) == 1, (i, f, t.count(a), a)
            open(p, 'w').write(t.replace(a, b))
        d = run('git', '-C', w + '/r', 'diff').stdout
        run('git', '-C', w + '/r', 'checkout', '-q', '--', '.')
        o = V + '/seeded/' + i
        os.makedirs(o, exist_ok=True)
        open(o + '/patch.diff', 'wb').write(d)
        open(o + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(o + '/demo.sh', 0o755)
        open(o + '/demo.cpp', 'w').write(PRE + s['demo'])
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)


def verify(ids):
    """builds happen in /repo-like layout: the copy is bind-free, so paths in _build are rewritten by reconfiguring"""
    w = tempfile.mkdtemp(prefix='seedv')
    r = w + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    cm = open('/opt/vp/build.sh').read().replace('/repo', r)
    ts = open('/opt/vp/test.sh').read().replace('/repo', r).replace('/opt/vp/build.sh', w + '/build.sh')
    open(w + '/build.sh', 'w').write(cm)
    open(w + '/test.sh', 'w').write(ts)
    stable = json.load(open('/opt/vp/BASELINE.json'))
    stable = stable.get('passed') or stable.get('stable') or stable.get('tests')
    p = run('bash', w + '/build.sh')
    assert p.returncode == 0, p.stdout[-2000:]
    for i in ids:
        d = V + '/seeded/' + i
        out = []
        p = run('bash', d + '/demo.sh', cwd=r)
        out.append('clean demo %d' % p.returncode)
        if p.returncode:
            print(p.stdout.decode(errors='replace')[-1500:])
        a = run('git', '-C', r, 'apply', d + '/patch.diff')
        if a.returncode:
            print(i, 'DOES NOT APPLY', a.stdout)
            continue
        t = run('bash', w + '/test.sh', w + '/o.json')
        try:
            res = json.load(open(w + '/o.json'))
            bad = [x for x in stable if x not in res['passed']]
            out.append('tests %d passed, lost %s' % (len(res['passed']), bad))
            if not res['passed']:
                print(t.stdout.decode(errors='replace')[-2500:])
        except Exception as e:
            bad = ['?']
            out.append('tests broken %r' % e)
            print(t.stdout.decode(errors='replace')[-2500:])
        p2 = run('bash', d + '/demo.sh', cwd=r)
        out.append('patched demo %d' % p2.returncode)
        run('git', '-C', r, 'checkout', '-q', '--', '.')
        run('bash', w + '/build.sh')
        ok = p.returncode == 0 and not bad and p2.returncode not in (0, 2)
        print('OK ' if ok else 'BAD', i, '; '.join(out), p2.stdout.decode(errors='replace').strip()[-120:], flush=True)
    shutil.rmtree(w)


def catch(ids):
    """the check runs on a scratch copy (CPPVC_REPO), so that several can run, and /repo stays as it is"""
    import time
    for i in ids:
        pr = json.load(open(V + '/seeded/%s/meta.json' % i))['property']
        w = tempfile.mkdtemp(prefix='seedc')
        r = w + '/repo'
        subprocess.check_call(['cp', '-a', '/repo', r])
        subprocess.check_call(['git', '-C', r, 'apply', V + '/seeded/%s/patch.diff' % i])
        t = time.time()
        p = run('python3-vt', 'check.py', pr, '--tier', 'quick', cwd=V, env=dict(os.environ, CPPVC_REPO=r))
        o = p.stdout.decode(errors='replace')
        v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
        print('%-7s %s rc=%d %.0fs %s' % ('CAUGHT' if v and p.returncode == 1 else 'missed', i, p.returncode, time.time() - t, v[:1] or o[-300:]), flush=True)
        shutil.rmtree(w)


if __name__ == '__main__':
    load()
    ids = sys.argv[2:] or sorted(SEEDS)
    {'make': make, 'verify': verify, 'catch': catch}[sys.argv[1]](ids)
