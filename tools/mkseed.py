#!/opt/venv/bin/python
"""Make and validate planted bugs.

    mkseed.py DEFS.py [id ...]

DEFS.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (python text, run with PYTHONPATH src:scripts and cwd the repository), needs,
what.  Each bug is applied in a scratch copy of /repo, which must build, keep the
stable tests passing, and fail the demo (which must pass without it).  Accepted ones go
to /verif/seeded/<id>/.  Then the property's quick check is run against the copy.
"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD/src:$PWD/scripts" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''

GOLD = '''

if __name__ == '__main__':
    # expected.json holds what run() returns when the property holds
    import json, math, os, sys
    here = os.path.dirname(os.path.abspath(__file__))
    got = [float(x) for x in run()]
    if os.environ.get('RECORD'):
        json.dump(got, open(os.path.join(here, 'expected.json'), 'w'))
    want = json.load(open(os.path.join(here, 'expected.json')))
    bad = [(i, g, w) for i, (g, w) in enumerate(zip(got, want))
           if not (abs(g - w) <= 1e-7 * max(1, abs(w)) or (g != g and w != w))]
    if len(got) != len(want) or bad:
        print('differs from the published value:', len(got), len(want), bad[:3])
        sys.exit(1)
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)

def stable(copy):
    base = json.load(open('/opt/vp/BASELINE.json'))
    env = dict(os.environ, PYTHONPATH=copy + '/src', PYTHONDONTWRITEBYTECODE='1')
    p = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-rA', '-p', 'no:cacheprovider',
            'tests'], cwd=copy, env=env)
    passed = set(re.findall(r'^PASSED (\S+)', p.stdout, re.M))
    return passed, p.stdout

def main():
    defs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    tmp = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    try:
        clean = tmp + '/clean'
        shutil.copytree('/repo', clean, symlinks=True)
        base, _ = stable(clean)
        for b in defs:
            if want and b['id'] not in want:
                continue
            one(b, tmp, clean, base)
    finally:
        shutil.rmtree(tmp)

def one(b, tmp, clean, base):
    copy = tmp + '/bug'
    shutil.copytree(clean, copy, symlinks=True)
    d = tmp + '/demo'
    os.makedirs(d)
    try:
        for f, old, new in b['edits']:
            p = os.path.join(copy, f)
            if old is None:
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w').write(new)
                continue
            t = open(p).read()
            if t.count(old) != 1:
                print(b['id'], 'REJECT edit matches', t.count(old), 'times in', f); return
            open(p, 'w').write(t.replace(old, new))
        passed, out = stable(copy)
        if base - passed:
            print(b['id'], 'REJECT tests fail', sorted(base - passed)); return
        open(d + '/demo.sh', 'w').write(SH)
        os.chmod(d + '/demo.sh', 0o755)
        demo = b['demo'].lstrip('\n')
        if 'def run(' in demo:
            demo += GOLD
        open(d + '/demo.py', 'w').write(demo)
        if 'def run(' in demo:
            p = sh(['bash', d + '/demo.sh'], cwd=clean, env=dict(os.environ, RECORD='1'))
            if p.returncode:
                print(b['id'], 'REJECT demo record fails:', p.stdout[-800:]); return
        p = sh(['bash', d + '/demo.sh'], cwd=clean)
        if p.returncode:
            print(b['id'], 'REJECT demo fails clean:', p.stdout[-800:]); return
        p = sh(['bash', d + '/demo.sh'], cwd=copy)
        if p.returncode == 0:
            print(b['id'], 'REJECT demo passes with the bug'); return
        msg = p.stdout.strip().splitlines()[-1:]
        sh(['git', 'add', '-N', 'src', 'scripts', 'vis'], cwd=copy)
        diff = sh(['git', 'diff'], cwd=copy).stdout
        json.dump({'property': b['property'], 'needs': b['needs'],
                   'what_it_breaks': b['what']}, open(d + '/meta.json', 'w'), indent=1)
        open(d + '/patch.diff', 'w').write(diff)
        out = os.path.join(VERIF, 'seeded', b['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        env = dict(os.environ, VERIF_REPO=copy, VERIF_SEED='1', VERIF_TIER='quick')
        p = sh([VERIF + '/run.py', b['property'], '--tier', 'quick'], env=env, cwd=VERIF)
        v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        print(b['id'], b['property'], 'CAUGHT' if p.returncode == 1 and v else
              'MISSED rc=%d' % p.returncode, msg, p.stdout[-300:] if not v else '')
        sys.stdout.flush()
    finally:
        shutil.rmtree(copy)
        shutil.rmtree(d)

main()
