"""Runs predictions of C20 in a new interpreter (see checks/c20.py): pickled tasks in, pickled results out."""
import os
import pickle
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# what may differ between two runs of the same program
VARIANTS = (
    {'PYTHONHASHSEED': '1'},
    {'PYTHONHASHSEED': '4711', 'LC_ALL': 'C', 'TZ': 'Asia/Tokyo'},
    {'PYTHONHASHSEED': 'random', 'PYTHONUTF8': '0', 'HOME': '/nonexistent', 'USER': 'nobody'},
    {'PYTHONHASHSEED': '3', '-O': '1', 'LANG': 'tr_TR.UTF-8'},
)


def run(tasks, variant):
    """-> list of ('ok', result) or ('err', text), or the error of the interpreter itself"""
    e = {k: v for k, v in os.environ.items() if k != 'VERIF_REEXEC'}
    v = dict(variant)
    flags = ['-O'] if v.pop('-O', None) else []
    e.update(v)
    e['PYTHONPATH'] = VERIF
    with tempfile.TemporaryDirectory() as d:
        p = subprocess.run([sys.executable] + flags + ['-m', 'vlib.elsewhere'], cwd=d, env=e, input=pickle.dumps(tasks),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode:
        return p.stderr.decode('utf-8', 'replace')[-600:]
    return pickle.loads(p.stdout)


def main():
    out = sys.stdout.buffer
    tasks = pickle.loads(sys.stdin.buffer.read())
    from checks.c20 import alone
    res = []
    for t in tasks:
        try:
            res.append(('ok', alone(t)))
        except BaseException as e:
            res.append(('err', '%s: %s' % (type(e).__name__, e)))
    out.write(pickle.dumps(res))
    out.flush()


if __name__ == '__main__':
    main()
