#!/usr/bin/env python3
"""Edits that change no behaviour (helpers extracted, statements reordered, loops rewritten): `refac.py build [id...]` confirms that
each builds and passes the tests in a scratch copy, `refac.py run [id...]` runs the checks it names, which have to stay quiet."""
import os, sys, json, subprocess, shutil, glob, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}


def refac(id, props, edits):
    R[id] = (props.split(), edits)


def load():
    for f in sorted(glob.glob(V + '/tools/refac_src/*.py')):
        exec(compile(open(f).read(), f, 'exec'), {'refac': refac})


def run(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def apply(r, i):
    for f, a, b in R[i][1]:
        p = r + '/' + f
        t = open(p).read()
        assert t.count(a) == 1, (i, f, t.count(a), a)
        open(p, 'w').write(t.replace(a, b))


def build(ids):
    w = tempfile.mkdtemp(prefix='refb')
    r = w + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    for n in ('build', 'test'):
        t = open('/opt/vp/%s.sh' % n).read().replace('/repo', r).replace('/opt/vp/build.sh', w + '/build.sh')
        open(w + '/%s.sh' % n, 'w').write(t)
    stable = json.load(open('/opt/vp/BASELINE.json'))
    stable = stable.get('passed') or stable.get('stable') or stable.get('tests')
    for i in ids:
        apply(r, i)
        t = run('bash', w + '/test.sh', w + '/o.json')
        try:
            bad = [x for x in stable if x not in json.load(open(w + '/o.json'))['passed']]
        except Exception as e:
            bad = ['?']
        print('OK ' if not bad else 'BAD', i, len(bad), t.stdout.decode(errors='replace')[-1500:] if bad else '', flush=True)
        run('git', '-C', r, 'checkout', '-q', '--', '.')
    shutil.rmtree(w)


def runchecks(ids):
    only = os.environ.get('PROPS', '').split()
    for i in ids:
        w = tempfile.mkdtemp(prefix='refc')
        r = w + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        apply(r, i)
        for pr in only or R[i][0]:
            t = time.time()
            p = run('python3-vt', 'check.py', pr, '--tier', 'quick', cwd=V, env=dict(os.environ, CPPVC_REPO=r))
            o = p.stdout.decode(errors='replace').strip()
            v = [l for l in o.split('\n') if l.startswith('VIOLATION')]
            und = [l for l in o.split('\n') if 'undecided' in l.lower() or 'bounded' in l.lower()]
            q = 'quiet' if p.returncode == 0 and not v else 'ALARM'
            print('%s %s %s rc=%d %.0fs %s' % (q, i, pr, p.returncode, time.time() - t, (v[:1] or [o.split('\n')[-1][:200]])), '|'.join(x[:250] for x in und[:6]), flush=True)
            if q == 'ALARM':
                open('/tmp/refac-%s-%s.log' % (i, pr), 'w').write(o)
        shutil.rmtree(w)


if __name__ == '__main__':
    load()
    ids = sys.argv[2:] or sorted(R)
    {'build': build, 'run': runchecks}[sys.argv[1]](ids)
