import math
import os
import re
import shutil
import tempfile

from vlib import drive, env, gen, tables
from vlib.harness import Check, close

REL = (1, 10, 50, 90, 99)


def rgba(c):
    import matplotlib.colors as mc
    return tuple(round(x, 6) for x in mc.to_rgba(c))


def inspect(obs, fig, rows, area):
    """every artist of a saved figure against the rows (distance or reliability, confidence, loss) of its table"""
    axs = [a for a in fig.axes if a.get_lines() or a.patches]
    obs.ok(len(axs) == 1, 'the figure has %d plots' % len(axs))
    ax = axs[0]
    title = ' '.join([ax.get_title()] + [fig._suptitle.get_text() if getattr(fig, '_suptitle', None) else '']).lower()
    obs.ok(not title.strip() or ('area' in title) == area and ('point' in title) != area, 'the plot is titled %r' % title)
    want = {}
    for a, c, v in rows:
        want.setdefault(c, {})[a] = v
    leg = ax.get_legend()
    obs.ok(leg is not None, 'the plot has no legend')
    texts = [t.get_text() for t in leg.get_texts()]
    handles = getattr(leg, 'legend_handles', None) or leg.legendHandles
    obs.ok(len(texts) == len(want) == len(handles), 'the legend has %d entries for %d confidence levels' % (len(texts), len(want)))
    label = {}
    for t, h in zip(texts, handles):
        m = re.search(r'(\d+)\s*%', t)
        obs.ok(m is not None, 'a legend entry reads %r' % t)
        col = rgba(h.get_color() if hasattr(h, 'get_color') else h.get_facecolor())
        obs.ok(col not in label, 'two legend entries share a colour')
        label[col] = int(m.group(1))
    obs.ok(sorted(label.values()) == sorted(want), 'the legend names %r, the table has %r' % (sorted(label.values()), sorted(want)))
    xl, yl = ax.get_xlim(), ax.get_ylim()
    obs.ok('loss' in ax.get_ylabel().lower() and 'db' in ax.get_ylabel().lower(), 'the vertical axis is labelled %r' % ax.get_ylabel())
    xlab = ax.get_xlabel().lower()
    if area:
        obs.ok('distance' in xlab and 'km' in xlab, 'the horizontal axis is labelled %r' % ax.get_xlabel())
        lines = ax.get_lines()
        obs.ok(len(lines) == len(want), '%d lines for %d confidence levels' % (len(lines), len(want)))
        for ln in lines:
            col = rgba(ln.get_color())
            obs.ok(col in label, 'a line has no legend entry')
            w = want[label[col]]
            # a gap in the line (no value) is how a missing row shows
            pts = [(float(x), float(y)) for x, y in zip(ln.get_xdata(), ln.get_ydata()) if float(y) == float(y)]
            xs, ys = [x for x, _ in pts], [y for _, y in pts]
            obs.ok(xs == sorted(xs) and len(xs) == len(w), 'the %d %% line has %d points for %d distances, or out of order' % (label[col], len(xs), len(w)))
            for x, y in zip(xs, ys):
                obs.ok(x in w and close(y, w[x], 1e-12, 0), 'the %d %% line shows %r dB at %r km, the table %r' % (label[col], y, x, w.get(x)))
                obs.ok(min(xl) <= x <= max(xl) and min(yl) <= y <= max(yl), 'a point of the %d %% line lies outside the axes' % label[col])
            obs.ok(ln.get_visible() and ln.get_linestyle() not in ('None', '', ' '), 'a line is not visible')
        obs.count('lines', len(lines))
    else:
        obs.ok('reliab' in xlab, 'the horizontal axis is labelled %r' % ax.get_xlabel())
        fig.canvas.draw()
        ticks = {}
        for p, t in zip(ax.get_xticks(), ax.get_xticklabels()):
            if t.get_text():
                ticks[float(p)] = float(t.get_text())
        seen = {}
        for b in ax.patches:
            col = rgba(b.get_facecolor())
            obs.ok(col in label, 'a bar has no legend entry')
            mid = b.get_x() + b.get_width() / 2
            near = min(ticks, key=lambda p: abs(p - mid))
            key = (ticks[near], label[col])
            obs.ok(key not in seen, 'two bars for reliability %r and confidence %r' % key)
            seen[key] = b
            w = want[label[col]].get(key[0])
            obs.ok(w is not None and close(b.get_height(), w, 1e-9, 1e-9) and abs(b.get_y()) < 1e-12,
                   'the bar for reliability %r, confidence %r is %r dB high, the table has %r' % (key + (b.get_height(), w)))
            obs.ok(min(yl) <= 0 and b.get_height() <= max(yl) and min(xl) <= b.get_x() and b.get_x() + b.get_width() <= max(xl), 'a bar leaves the axes', ylim=yl, height=b.get_height())
        obs.ok(len(seen) == len(rows), '%d bars for %d rows' % (len(seen), len(rows)))
        obs.count('bars', len(seen))


class CHECK(Check):
    id = 'C27'
    technique = 'artist monitor: the figure is captured as it is saved and every line, bar, legend entry, tick and axis limit is compared with the table'
    rule = ('a case is one results table (rows in any order) and plot; non-trivial when at least one artist was compared; signature: plot x row order x '
            'table source x loss range bucket')
    quick = 800
    thorough = 16000
    assumptions = ('losses are positive, as every transmission loss of the model is in the documented ranges',)

    def setup(self):
        import matplotlib
        matplotlib.use('Agg')
        import matplotlib.figure
        import matplotlib.pyplot
        self.plt = matplotlib.pyplot
        self.mod = env.script('vis')
        self.dir = tempfile.mkdtemp(prefix='itmv-')
        os.makedirs(os.path.join(self.dir, 'data'))
        os.makedirs(os.path.join(self.dir, 'vis', 'figures'))
        self.cwd = os.getcwd()
        os.chdir(self.dir)
        self.saved = saved = []
        orig = matplotlib.figure.Figure.savefig

        def savefig(fig, *a, **k):
            saved.append((fig, a[0] if a else k.get('fname')))
            return orig(fig, *a, **k)
        matplotlib.figure.Figure.savefig = savefig

    def teardown(self):
        os.chdir(self.cwd)
        shutil.rmtree(self.dir, ignore_errors=True)

    def losses(self, rng, n):
        k = rng.randrange(9)
        if k == 5:
            # ties
            few = [rng.choice((rng.uniform(60, 200), rng.randint(60, 200))) for _ in range(rng.randint(1, 6))]
            return [rng.choice(few) for _ in range(n)]
        if k == 6:
            # a table like the model's, one entry repeated
            v = [90 + 0.8 * i + rng.uniform(0, 0.5) for i in range(n)]
            if n > 1:
                i, j = rng.sample(range(n), 2)
                v[i] = v[j]
            return v
        if k == 7:
            # one entry far from the others
            v = [rng.uniform(100, 130) for _ in range(n)]
            v[rng.randrange(n)] = rng.choice((rng.uniform(400, 3000), rng.uniform(0.01, 20)))
            return v
        if k == 8:
            return [gen.val(rng, 1.0, 500.0, pdict=0.5) for _ in range(n)]
        if k == 0:
            return [rng.uniform(60, 300) for _ in range(n)]
        if k == 1:
            return [rng.uniform(0.001, 2) for _ in range(n)]
        if k == 2:
            b = rng.uniform(90, 200)
            return [b + rng.uniform(0, 1e-3) for _ in range(n)]
        if k == 3:
            return [rng.uniform(100, 5000) for _ in range(n)]
        return [round(rng.uniform(60, 200), 1) for _ in range(n)]

    def random(self, rng):
        kind = rng.choice(('area', 'p2p'))
        if kind == 'area':
            u = rng.random()
            ds = tables.AREA_KM if u < 0.5 else sorted({round(gen.logu(rng, 1, 900), rng.choice((0, 2))) for _ in range(rng.randint(2, 30))})
            keys = [(d, c) for d in ds for c in (50, 90, 10)]
        else:
            rel = REL if rng.random() < 0.5 else sorted(rng.sample((1, 2, 5, 10, 20, 25, 30, 40, 50, 60, 70, 75, 80, 90, 95, 98, 99), rng.choice((rng.randint(1, 6), rng.randint(7, 17)))))
            keys = [(r, c) for r in rel for c in (50, 90, 10)]
        order = rng.choice(('script', 'shuffled', 'reversed', 'sorted'))
        rows = [[a, c, v] for (a, c), v in zip(keys, self.losses(rng, len(keys)))]
        if kind == 'area' and rng.random() < 0.15 and len(rows) > 9:
            # a table with rows missing here and there (each level keeps most of its own)
            for _ in range(rng.randint(1, 3)):
                k = rng.randrange(len(rows))
                if sum(r[1] == rows[k][1] for r in rows) > 2:
                    del rows[k]
        if order == 'shuffled':
            rng.shuffle(rows)
        elif order == 'reversed':
            rows.reverse()
        elif order == 'sorted':
            rows.sort()
        return {'plot': kind, 'keep': rng.random() < 0.5, 'order': order, 'd': gen.val(rng, 1.0, 900.0), 'rows': rows}

    def directed(self, rng):
        for _ in range(3):
            for kind in ('area', 'p2p'):
                c = self.random(rng)
                while c['plot'] != kind:
                    c = self.random(rng)
                yield c

    def judge(self, case, obs):
        if not case.get('keep') or len(self.plt.get_fignums()) > 6:
            self.plt.close('all')
        del self.saved[:]
        path = os.path.join(self.dir, 'table.csv')
        area = case['plot'] == 'area'
        with open(path, 'w') as f:
            if area:
                f.write('distance_km,confidence_level_%,propagation_loss_dB\n')
                for a, c, v in case['rows']:
                    f.write('%r,%r,%r\n' % (a, c, v))
            else:
                f.write('distance_km,reliability_level_%,confidence_level_%,propagation_loss_dB\n')
                for a, c, v in case['rows']:
                    f.write('%r,%r,%r,%r\n' % (case['d'], a, c, v))
        before = open(path).read()
        out = os.path.join(self.dir, 'vis', 'figures', case['plot'] + '_results.png')
        if os.path.exists(out):
            os.unlink(out)
        with env.quiet():
            obs.call('plot', self.mod.plot_area_results if area else self.mod.plot_p2p_results, path)
        obs.ok(open(path).read() == before, 'plotting changed the results table')
        obs.ok(os.path.exists(out) and open(out, 'rb').read(8) == b'\x89PNG\r\n\x1a\n', 'no figure was saved as %s' % os.path.basename(out))
        obs.ok(len(self.saved) == 1, '%d figures were saved' % len(self.saved))
        fig = self.saved[0][0]
        obs.ok(os.path.realpath(str(self.saved[0][1])) == os.path.realpath(out), 'the figure was saved as %r' % (self.saved[0][1],))
        inspect(obs, fig, case['rows'], area)
        if os.path.exists(path):
            os.unlink(path)
        vmax = max(r[2] for r in case['rows'])
        obs.tag(case['plot'], case['order'], drive.bucket(vmax, (2.1, 200, 500)), drive.bucket(len(case['rows']), (16, 60)))
