"""Child process of C31: imports modules of a tree in a given order and reports what that did."""
import ast
import hashlib
import importlib
import json
import os
import shutil
import sys


def modules(root):
    """{module name: (group, path)} of the package, the scripts and the plots under root"""
    out = {}
    src = os.path.join(root, 'src')
    for d, ds, fs in os.walk(src):
        ds[:] = sorted(x for x in ds if x != '__pycache__' and not x.endswith('.egg-info'))
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                n = os.path.relpath(p, src)[:-3].replace(os.sep, '.')
                if n.endswith('.__init__'):
                    n = n[:-9]
                out[n] = ('package', p)
    for g in ('scripts', 'vis'):
        base = os.path.join(root, g)
        for f in sorted(os.listdir(base)) if os.path.isdir(base) else ():
            if f.endswith('.py') and f != '__init__.py':
                out[f[:-3]] = (g, os.path.join(base, f))
    return out


def foreign(mods):
    """top-level imports that are not modules of the tree"""
    own = {n.split('.')[0] for n in mods}
    out = set()
    for _, p in mods.values():
        for n in ast.walk(ast.parse(open(p).read())):
            if isinstance(n, ast.Import):
                out |= {a.name for a in n.names}
            elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
                out.add(n.module)
    return sorted(n for n in out if n.split('.')[0] not in own)


def tree(*roots):
    out = {}
    for r in roots:
        for d, ds, fs in os.walk(r):
            for x in ds:
                out[os.path.join(d, x)] = 'dir'
            for x in fs:
                p = os.path.join(d, x)
                if '__pycache__' not in p:
                    out[p] = hashlib.md5(open(p, 'rb').read()).hexdigest()
    return {k: v for k, v in out.items() if '__pycache__' not in k}


def installed(root, to):
    """copy the packages that the distribution would hold (folders with an __init__.py, all the way up)"""
    src = os.path.join(root, 'src')
    for d, ds, fs in os.walk(src):
        top = d == src
        if not top and '__init__.py' not in fs:
            ds[:] = []
            continue
        ds[:] = [x for x in ds if x != '__pycache__' and not x.endswith('.egg-info')]
        q = os.path.join(to, 'src', os.path.relpath(d, src))
        os.makedirs(q, exist_ok=True)
        for f in fs:
            if f.endswith('.py'):
                shutil.copy(os.path.join(d, f), q)


class Only:
    """refuses top-level modules other than the standard library and those named"""

    def __init__(self, names):
        self.names = names

    def find_spec(self, name, path=None, target=None):
        t = name.split('.')[0]
        if path is None and t not in sys.stdlib_module_names and t not in self.names:
            raise ModuleNotFoundError('%s is not among the requirements of the package' % t)


def main():
    req = json.load(sys.stdin)
    root, cwd = req['root'], os.getcwd()
    rep = {'error': None}
    for p in ('vis', 'scripts', 'src'):
        sys.path.insert(0, os.path.join(root, p))
    for n in foreign(modules(root)) if not req.get('installed') else ('numpy', 'numpy.random'):
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    from checks.c20 import world, same, alone
    if req.get('installed'):
        sys.meta_path.insert(0, Only(('numpy', 'itmlogic', 'vlib', 'checks')))
    before, files = world(), tree(root, cwd)
    sys.stdout.flush()
    keep = os.dup(1)
    cap = os.path.join(req['out'], 'stdout')
    fd = os.open(cap, os.O_CREAT | os.O_WRONLY)
    os.dup2(fd, 1)
    i = -1
    try:
        for i, n in enumerate(req['order']):
            importlib.import_module(n)
    except BaseException as e:
        rep['error'] = [i, '%s: %s' % (type(e).__name__, e)]
    sys.stdout.flush()
    os.dup2(keep, 1)
    rep['stdout'] = open(cap).read()
    after, now = world(), tree(root, cwd)
    rep['settings'] = [k for k in before if k != 'warning filters' and not same(before[k], after[k])]
    rep['files'] = sorted(k[len(root):] if k.startswith(root) else k for k in set(files) | set(now) if files.get(k) != now.get(k))
    rep['own'] = [n for n in req['order'] if n in sys.modules and os.path.abspath(sys.modules[n].__file__).startswith(root)]
    if rep['error'] is None:
        rep['results'] = [alone(t) for t in req['tasks']]
    with open(os.path.join(req['out'], 'report'), 'w') as f:
        json.dump(rep, f)


if __name__ == '__main__':
    main()
