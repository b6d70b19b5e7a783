"""Locates the code under test and loads it from the working tree."""
import ast
import contextlib
import importlib
import importlib.util
import io
import os
import sys

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
SRC = os.path.join(REPO, 'src')
SCRIPTS = os.path.join(REPO, 'scripts')
VIS = os.path.join(REPO, 'vis')

for _p in (SCRIPTS, SRC):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)

_FUN = {
    'lrprop': 'itmlogic.lrprop',
    'adiff': 'itmlogic.diffraction_attenuation.adiff',
    'aknfe': 'itmlogic.diffraction_attenuation.aknfe',
    'fht': 'itmlogic.diffraction_attenuation.fht',
    'alos': 'itmlogic.los_attenuation.alos',
    'qerf': 'itmlogic.misc.qerf',
    'qerfi': 'itmlogic.misc.qerfi',
    'qtile': 'itmlogic.misc.qtile',
    'dlthx': 'itmlogic.preparatory_subroutines.dlthx',
    'hzns': 'itmlogic.preparatory_subroutines.hzns',
    'qlra': 'itmlogic.preparatory_subroutines.qlra',
    'qlrpfl': 'itmlogic.preparatory_subroutines.qlrpfl',
    'qlrps': 'itmlogic.preparatory_subroutines.qlrps',
    'zlsq1': 'itmlogic.preparatory_subroutines.zlsq1',
    'ahd': 'itmlogic.scatter_attenuation.ahd',
    'ascat': 'itmlogic.scatter_attenuation.ascat',
    'h0f': 'itmlogic.scatter_attenuation.h0f',
    'avar': 'itmlogic.statistics.avar',
    'curv': 'itmlogic.statistics.curv',
}


class SUT:
    """Functions of the package under test, imported lazily by name."""

    def __getattr__(self, name):
        mod = importlib.import_module(_FUN[name])
        if not os.path.abspath(mod.__file__).startswith(SRC + os.sep):
            raise RuntimeError('%s was imported from %s, not from %s' % (name, mod.__file__, SRC))
        f = getattr(mod, name)
        setattr(self, name, f)
        return f


sut = SUT()
_scripts = {}


def script(name, fresh=False):
    """Load scripts/<name>.py (or vis/vis.py) from the working tree as a module."""
    if name in _scripts and not fresh:
        return _scripts[name]
    path = os.path.join(VIS if name == 'vis' else SCRIPTS, name + '.py')
    if name == 'terrain_module':
        m = importlib.import_module('terrain_module')
        if os.path.abspath(m.__file__) != path:
            raise RuntimeError('terrain_module imported from ' + m.__file__)
    else:
        spec = importlib.util.spec_from_file_location('sut_' + name, path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
    _scripts[name] = m
    return m


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def source_files():
    out = []
    for base in (SRC, SCRIPTS, VIS):
        for d, _, fs in os.walk(base):
            out += [os.path.join(d, f) for f in sorted(fs) if f.endswith('.py')]
    return sorted(out)


def literals():
    """Numeric constants of the current sources (an AFL-style dictionary: it only
    steers input generation, no verdict depends on it)."""
    vals = set()
    for f in source_files():
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Constant) and type(node.value) in (int, float):
                v = float(node.value)
                if v == v and 0 < abs(v) < 1e12:
                    vals.add(v)
    return sorted(vals)
