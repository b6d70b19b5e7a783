import json
import os
import shutil
import subprocess
import sys
import tempfile

from vlib import env, importer
from vlib.harness import Check
from checks import c20


class CHECK(Check):
    id = 'C31'
    technique = ('process monitor: modules imported in chosen orders in new interpreters over a copy of the sources without data; '
                 'exceptions, standard output, files, process settings and the bits of predictions made afterwards')
    rule = ('a case is one order of importing modules of the package, scripts and plots in a new interpreter, followed by two predictions; '
            'non-trivial when the imports were observed; signature: first x last module imported')
    quick = 40
    thorough = 2600
    assumptions = ('third-party libraries are imported before the monitors start',)

    def setup(self):
        self.root = tempfile.mkdtemp(prefix='c31-')
        self.tree = os.path.join(self.root, 'tree')
        for d in ('src', 'scripts', 'vis'):
            p = os.path.join(env.REPO, d)
            if os.path.isdir(p):
                shutil.copytree(p, os.path.join(self.tree, d), ignore=lambda d, fs: [f for f in fs if not f.endswith(('.py', '.ini', '.cfg')) and not os.path.isdir(os.path.join(d, f)) or f in ('__pycache__', 'figures')])
        self.mods = importer.modules(self.tree)
        self.names = sorted(self.mods)
        self.tasks = c20.CHECK()
        for n in ('p2p', 'area'):
            env.script(n)

    def teardown(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def order(self, rng, first=None):
        k = rng.choice((1, 2, 4, len(self.names), len(self.names)))
        o = rng.sample(self.names, k)
        if first:
            o = [first] + [n for n in o if n != first]
        return o

    def case(self, rng, first=None):
        if first is None and rng.random() < 0.15:
            return self.package(rng)
        return {'order': self.order(rng, first), 'tasks': [self.tasks.task(rng, k) for k in rng.choice((('p2p', 'area'), ('runp2p', 'runarea')))]}

    def package(self, rng):
        """the installed package with its requirements only"""
        o = [n for n in self.names if self.mods[n][0] == 'package']
        rng.shuffle(o)
        return {'installed': True, 'order': o, 'tasks': [self.tasks.task(rng, k) for k in ('p2p', 'area')]}

    def directed(self, rng):
        yield self.package(rng)
        yield self.package(rng)
        for n in self.names:
            yield self.case(rng, n)

    def random(self, rng):
        return self.case(rng)

    def judge(self, case, obs):
        order = [n for n in case['order'] if n in self.mods]
        if not order:
            return
        want = []
        for t in case['tasks']:
            try:
                want.append(c20.alone(t))
            except Exception:
                obs.skip('prediction not defined')
                want = None
                break
        d = tempfile.mkdtemp(dir=self.root)
        os.mkdir(os.path.join(d, 'cwd'))
        os.mkdir(os.path.join(d, 'out'))
        copy = os.path.join(d, 'tree')
        if case.get('installed'):
            importer.installed(self.tree, copy)
            obs.count('installed_packages')
        else:
            shutil.copytree(self.tree, copy)
        try:
            e = dict(os.environ, PYTHONPATH=env.VERIF, VERIF_REPO=copy, PYTHONDONTWRITEBYTECODE='1')
            req = {'installed': case.get('installed'), 'root': copy, 'out': os.path.join(d, 'out'), 'order': order, 'tasks': case['tasks'] if want else []}
            p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'vlib.importer'], input=json.dumps(req).encode(), cwd=os.path.join(d, 'cwd'), env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=200)
            r = os.path.join(d, 'out', 'report')
            obs.ok(os.path.exists(r), 'importing %s ended the interpreter: %s' % (order[:3], p.stderr.decode('utf-8', 'replace')[-500:]))
            rep = json.load(open(r))
            if rep['error']:
                obs.fail('importing %s, number %d of this order, raised %s' % (order[rep['error'][0]], rep['error'][0] + 1, rep['error'][1]))
            obs.ok(not rep['stdout'], 'importing printed %r' % rep['stdout'][:200])
            obs.ok(not rep['files'], 'importing wrote or changed %s' % rep['files'][:5])
            obs.ok(not rep['settings'], 'importing changed the %s of the process' % ', '.join(rep['settings']))
            obs.ok(set(rep['own']) == set(order), 'modules imported from elsewhere: %s' % sorted(set(order) - set(rep['own'])))
            obs.count('modules_imported', len(order))
            if want:
                for i, (g, w) in enumerate(zip(rep['results'], want)):
                    obs.ok(g == json.loads(json.dumps(w)), 'after this order of imports a prediction (%s) differs' % case['tasks'][i]['kind'])
        finally:
            shutil.rmtree(d, ignore_errors=True)
        obs.tag(order[0], order[-1])
