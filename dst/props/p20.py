"""P20: processing a specimen history changes only what was asked for."""
import contextlib
import csv
import inspect
import io
import os
import re
import sys

import numpy as np
import torch

from dst import build, env
from dst.core import SimCrash, Violation, h64, rng
from dst.vfs import SimFS

RUNS = {'quick': 900, 'thorough': 30000}
RULE = ('one run = a seeded sequence of noise injections, denoisings, copies '
        'of boundary constraint labels and displacement and reaction '
        'evaluations over seeded specimen histories, with histories that do '
        'not fit, foreign files, a seeded listing order, and crashes, torn '
        'writes, I/O errors or interrupts at seeded points followed by a '
        'repeated request; non-trivial = at least one request completed')
PROBES = ('uniform', 'gaussian', 'spiked_gaussian', 'moving_average',
          'savitzky_golay', 'frequency_low_pass', 'cycles', 'even_window',
          'wide_window', 'denoised_noisy', 'noise_plot', 'same_seed',
          'output_replaced', 'copied', 'constraints_replaced',
          'constraints_added', 'reactions', 'reference_node', 'displacements',
          'two_dimensions', 'many_steps', 'single_step', 'ten_columns',
          'foreign_files', 'other_specimen', 'refused:columns',
          'refused:empty', 'refused:length', 'refused:nodes', 'refused:labels',
          'crash', 'error', 'interrupt', 'retried')
STATE_MEASURE = 'digest of (request, sizes, refused or not, fault met)'
REAL = ['miscellaneous/noisy_data/inject_disp_noise_csv',
        'miscellaneous/noisy_data/denoise_disp_noise_csv',
        'user_scripts/global_model_update/utilities/process_specimen_data',
        'gen_specimen_data (history files, numerical data)',
        'NoiseGenerator, Denoiser', 'ioput/iostandard', 'pandas']
STUB = ['disk, listing order, clock', 'drawing (the data handed to the plot '
        'functions is recorded)']
ASSUMPTIONS = ['a history directory given to the noise tools holds the files '
               'of one specimen',
               'pandas reads a number within one unit in the last place']
SHRINK_LISTS = ('ops',)

FAULTS = ('crash', 'crash_after', 'torn', 'enospc', 'eio', 'intr')
COLS = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3',
        'DBC1', 'DBC2', 'DBC3']


def gen_noise(r):
    dist = r.choice(['uniform', 'gaussian', 'spiked_gaussian'])
    if dist == 'uniform':
        return dist, {'amp': r.choice([1e-3, 0.2, -0.05])}
    par = {'std': r.choice([1e-3, 0.1])}
    if dist == 'spiked_gaussian':
        par.update(spike=r.choice([5.0, -20.0]),
                   p_spike=r.choice([0.0, 0.1, 0.5, 1.0]))
    return dist, par


def gen_denoise(r):
    method = r.choice(['moving_average', 'savitzky_golay',
                       'frequency_low_pass'])
    if method == 'moving_average':
        par = {'window_size': r.choice([1, 2, 3, 4, 5, 9])}
    elif method == 'savitzky_golay':
        par = {'window_size': r.choice([3, 5, 7]),
               'poly_order': r.choice([0, 1, 2])}
    else:
        par = {'cutoff_frequency': r.choice([0.0171, 0.1371, 0.2613, 0.4371,
                                             0.6])}
    return method, par


def gen(seed, tier):
    r = rng(seed, 'gen')
    scn = {'seed': seed, 'listing': r.choice(['shuffle', 'shuffle', 'sorted',
                                              'reverse']),
           'name': r.choice(['spec', 'Ti6242_UT_1', 'a.b', 'bar(2)']),
           'n_node': r.choice([4, 6, 8, 9]),
           'n_time': r.choice([1, 2, 5, 7, 11, 12, 12]),
           'cols': r.choice([10, 13, 13]), 'foreign': r.random() < 0.6,
           'other': r.random() < 0.5, 'bad': None, 'ops': []}
    if r.random() < 0.25:
        scn['bad'] = r.choice(['columns', 'empty', 'length', 'nodes',
                               'labels', 'more_nodes'])
        scn['bad_at'] = r.random()
    for i in range(r.choice([1, 2, 3, 4])):
        kind = r.choice(['inject', 'inject', 'denoise', 'denoise', 'copy',
                         'reactions', 'displacements'])
        op = {'id': i, 'kind': kind}
        if kind == 'inject':
            op['dist'], op['par'] = gen_noise(r)
            op['dirname'] = r.choice(['noisy', 'noisy', 'out.2'])
            op['again'] = r.random() < 0.3
        elif kind == 'denoise':
            op['method'], op['par'] = gen_denoise(r)
            op['cycles'] = r.choice([1, 1, 2, 3])
            op['dirname'] = r.choice(['denoised', 'denoised', 'out.2'])
            op['from_noisy'] = r.random() < 0.5
            op['plot'] = ([r.randint(1, scn['n_node']), r.randint(1, 3)]
                          if r.random() < 0.4 else None)
        else:
            op['n_dim'] = r.choice([2, 3, 3])
            op['ref'] = ([r.randint(1, scn['n_node']), r.randint(0, 1)]
                         if r.random() < 0.5 else None)
            op['nodes'] = r.choice(['all', 1, [2, 4], [3]])
        if r.random() < 0.5:
            op['fault'] = {'kind': r.choice(FAULTS), 'pos': r.random(),
                           'frac': r.random()}
        scn['ops'].append(op)
    return scn


def shrink(scn):
    for key, val in (('foreign', False), ('other', False), ('bad', None),
                     ('listing', 'sorted'), ('name', 'spec')):
        if scn[key] != val:
            new = build.snapshot(scn)
            new[key] = val
            yield new
    for n in (1, 2, 5, 7, 11):
        if n < scn['n_time']:
            new = build.snapshot(scn)
            new['n_time'] = n
            yield new
    for i, op in enumerate(scn['ops']):
        for key in ('fault',):
            if key in op:
                new = build.snapshot(scn)
                del new['ops'][i][key]
                yield new
        for key, val in (('again', False), ('plot', None), ('cycles', 1),
                         ('from_noisy', False), ('ref', None)):
            if op.get(key, val) != val:
                new = build.snapshot(scn)
                new['ops'][i][key] = val
                yield new


# =============================================================================
def rebind(real, stub):
    """Replace a function wherever it is bound in the code under test."""
    undo = []
    for module in list(sys.modules.values()):
        if (getattr(module, '__file__', None) or '').startswith(env.SRC):
            for attr, val in list(vars(module).items()):
                if val is real:
                    setattr(module, attr, stub)
                    undo.append((module, attr, real))
    return undo


def read(path):
    """Column names and values of a history file (own reader)."""
    with open(path, newline='') as f:
        rows = list(csv.reader(f))
    return rows[0], np.array([[float(x) for x in row] for row in rows[1:]])


def write(path, names, data):
    lines = [','.join(names)]
    for row in data:
        lines.append(','.join(
            str(int(x)) if n == 'NODE' or n.startswith('DBC') else repr(
                float(x)) for n, x in zip(names, row)))
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


def close(a, b, tol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or not np.isfinite(a).all():
        return False
    return bool((np.abs(a - b) <= tol*np.maximum(1e-3, np.abs(b))).all())


def steps_of(directory, name):
    """Step number and path of every history file, in step order."""
    out = []
    for f in os.listdir(directory):
        m = re.fullmatch(re.escape(name) + r'_tstep_(\d+)\.csv', f)
        if m:
            out.append((int(m.group(1)), os.path.join(directory, f)))
    return sorted(out)


def fired(ctx):
    return sum(ctx.faults.values())


class World:
    def __init__(self, ctx, fs):
        self.ctx, self.fs, self.scn = ctx, fs, ctx.scn
        scn = ctx.scn
        self.name = scn['name']
        j = os.path.join
        self.a, self.b = (j(ctx.scratch, 'a'), j(ctx.scratch, 'b'))
        g = np.random.default_rng(h64(scn['seed'], 'data') % 2**32)
        n, nt = scn['n_node'], scn['n_time']
        coords = g.uniform(0, 10, (n, 3))
        labels = {'a': g.integers(0, 3, (n, 3)), 'b': g.integers(0, 3, (n, 3))}
        bad = scn['bad']
        for d, cols in ((self.a, scn['cols']), (self.b, 13)):
            os.mkdir(d)
            base = os.path.basename(d)
            times = nt + (base == 'b' and bad == 'length')
            nodes = np.arange(1, n + 1)
            if base == 'b' and bad == 'more_nodes':
                nodes = np.arange(1, n + 2)
                coords = g.uniform(0, 10, (n + 1, 3))
                labels['b'] = g.integers(0, 3, (n + 1, 3))
            at = int(scn.get('bad_at', 0)*times)
            for t in range(times):
                m = len(nodes)
                disp = (np.zeros((m, 3)) if t == 0 else
                        g.normal(0, 1, (m, 3))*0.1*t)
                lab = labels[base]
                if base == 'b' and t % 3 == 2:
                    lab = np.roll(lab, 1, axis=0)
                data = np.hstack([nodes[:, None], coords, disp,
                                  g.normal(0, 50, (m, 3)), lab])
                names = COLS[:cols]
                data = data[:, :cols]
                if bad == 'columns' and base == 'a' and t == at:
                    names, data = names[:-1], data[:, :-1]
                if bad == 'labels' and base == 'b' and t == at:
                    names, data = names[:-1], data[:, :-1]
                if bad == 'nodes' and base == 'b' and t == at:
                    data[:, 0] = np.roll(data[:, 0], 1)
                write(j(d, f'{self.name}_tstep_{t}.csv'), names, data)
            if bad == 'empty' and base == 'a':
                for _, path in steps_of(d, self.name):
                    os.remove(path)
            if scn['foreign']:
                ctx.probe('foreign_files')
                for extra in (f'{self.name}_tstep_1.csv.bak', 'notes.txt',
                              f'{self.name}_tstep_x.csv',
                              f'{self.name}_tstep_.csv',
                              f'{self.name}_tstep_3.dat'):
                    with open(j(d, extra), 'w') as f:
                        f.write('foreign')
                os.mkdir(j(d, 'plots'))
                with open(j(d, 'plots', f'{self.name}_tstep_0.csv'),
                          'w') as f:
                    f.write('foreign')
        if scn['other']:
            ctx.probe('other_specimen')
            for t in range(3):
                for other in ('x' + self.name, self.name + '2',
                              self.name + '_tstep_0'):
                    write(j(self.b, f'{other}_tstep_{t}.csv'), COLS,
                          np.full((n, 13), 7))
            # the dot of a name is not a wildcard
            write(j(self.b, self.name.replace('.', 'x') + '9_tstep_0.csv'),
                  COLS, np.full((n, 13), 7))
        if scn['cols'] == 10:
            ctx.probe('ten_columns')
        if nt > 10:
            ctx.probe('many_steps')
        if nt == 1:
            ctx.probe('single_step')

    def tree(self):
        return build.tree(self.ctx.scratch)


def attempt(ctx, fs, call):
    try:
        value = call()
        status = 'ok'
    except Violation:
        raise
    except SimCrash as exc:
        status, value = 'crash', exc
    except (Exception, KeyboardInterrupt) as exc:
        status, value = 'err', exc
    fs.disarm()
    if fs.dead:
        fs.restart()
    return status, value


@contextlib.contextmanager
def drawings():
    """Record what is handed to the plot functions."""
    import ioput.plots as plots
    import matplotlib.figure
    box, undo = [], []
    for name in ('plot_xy_data', 'save_figure'):
        real = getattr(plots, name)
        sig = inspect.signature(real)

        def stub(*args, _name=name, _sig=sig, **kwargs):
            got = dict(_sig.bind(*args, **kwargs).arguments)
            if _name == 'plot_xy_data':
                box.append(('plot', np.array(got['data_xy'], dtype=float),
                            got.get('data_labels')))
                fig = matplotlib.figure.Figure()
                return fig, fig.add_subplot()
            box.append(('save', got['filename'], got.get('save_dir')))
        undo += rebind(real, stub)
    try:
        yield box
    finally:
        for module, attr, real in undo:
            setattr(module, attr, real)


def perform(w, op, call, outside, check_partial=None):
    """A request with its fault and, after a fault, its repetition."""
    ctx, fs = w.ctx, w.fs
    before = w.tree()
    fault = op.get('fault')
    if fault:
        fs.arm({int(fault['pos']**2*70): fault})
    n = fired(ctx)
    status, value = attempt(ctx, fs, call)
    hit = fired(ctx) > n
    unchanged(w, before, outside)
    if status != 'ok' and hit:
        if check_partial:
            check_partial(before)
        ctx.probe({'crash': 'crash'}.get(
            status, 'interrupt' if isinstance(value, KeyboardInterrupt)
            else 'error'))
        status, value = attempt(ctx, fs, call)
        unchanged(w, before, outside)
        ctx.probe('retried')
    return status, value, hit, before


def unchanged(w, before, outside):
    """Nothing outside of the requested output was touched."""
    after = w.tree()
    diff = sorted(k for k in set(before) | set(after)
                  if outside(k) and before.get(k) != after.get(k))
    w.ctx.check(not diff, 'source-changed', lambda: f'{diff[:4]} changed '
                'without being asked for')


def failed(what, value):
    raise Violation('request-failed', f'{what} raised '
                    f'{type(value).__name__}: {str(value)[:250]}')


def refused(w, op, what, status, value, before, tol=()):
    w.ctx.check(status == 'err', 'bad-accepted', lambda: f'{op["kind"]} of a '
                f'history that does not fit ({what}) was accepted')
    w.ctx.check(isinstance(value, Exception) and not isinstance(
        value, (IndexError, AttributeError, UnboundLocalError, NameError)),
        'bad-report', lambda: f'{op["kind"]} ({what}) failed with '
        f'{type(value).__name__} instead of saying what is wrong')
    w.ctx.probe('refused:' + {'more_nodes': 'nodes'}.get(what, what))
    w.ctx.state((op['kind'], 'refused', what))


# ---------------------------------------------------------------------- noise
def same_steps(w, src, out):
    """The output holds the steps of the source: contents of both."""
    ctx = w.ctx
    a, b = steps_of(src, w.name), steps_of(out, w.name)
    ctx.check([t for t, _ in a] == [t for t, _ in b]
              and len(os.listdir(out)) == len(b), 'wrong-files', lambda:
              f'the output holds {sorted(os.listdir(out))}, not the '
              f'{len(a)} steps of the history')
    pairs = []
    for (t, pa), (_, pb) in zip(a, b):
        ha, da = read(pa)
        try:
            hb, db = read(pb)
        except (ValueError, IndexError):
            raise Violation('wrong-files', f'step {t} of the output is '
                            'damaged') from None
        ctx.check(ha == hb and da.shape == db.shape, 'wrong-files', lambda:
                  f'step {t} has columns {hb} and {db.shape[0]} nodes')
        rest = [k for k, c in enumerate(ha) if c not in ('U1', 'U2', 'U3')]
        ctx.check(close(db[:, rest], da[:, rest]), 'wrong-columns', lambda:
                  f'step {t}: more than the displacements changed')
        pairs.append((t, da[:, 4:7], db[:, 4:7]))
    return pairs


def inject(w, op):
    from miscellaneous.noisy_data.inject_disp_noise_csv import \
        inject_displacements_noise
    ctx, scn = w.ctx, w.scn
    out = os.path.join(w.a, op['dirname'])
    rel = os.path.relpath(out, ctx.scratch)
    given = {'distribution': op['dist'], **op['par'],
             'dirname': op['dirname']}
    if os.path.isdir(out):
        ctx.probe('output_replaced')

    def call():
        np.random.seed(h64(scn['seed'], op['id']) % 2**32)
        par = build.snapshot(given)
        inject_displacements_noise(w.a, par)
        ctx.check(par == given, 'source-changed', 'the given noise '
                  'parameters were changed')
    keep = scn['bad'] == 'empty'
    status, value, hit, before = perform(
        w, op, call, lambda k: keep or not inside(k, rel))
    if scn['bad'] in ('columns', 'empty'):
        if scn['bad'] == 'columns' and w.scn['n_time'] == 1:
            return
        if scn['bad'] == 'columns' and int(
                scn['bad_at']*scn['n_time']) == 0 and status == 'ok':
            return
        refused(w, op, scn['bad'], status, value, before)
        return
    if status != 'ok':
        failed('noise injection', value)
    pairs = same_steps(w, w.a, out)
    noise = np.array([b - a for _, a, b in pairs])
    first = pairs[0]
    ctx.check(close(first[2], first[1]), 'wrong-noise', 'the initial '
              'displacements changed')
    scale = 1e-9*max(1.0, max(np.abs(a).max() for _, a, _ in pairs))
    if len(pairs) > 1:
        verify_noise(ctx, op, noise[1:], scale)
    ctx.nontrivial = True
    ctx.probe(op['dist'])
    if op['again']:
        kept = {t: read(p)[1] for t, p in steps_of(out, w.name)}
        w.fs.listing = {'sorted': 'reverse'}.get(w.fs.listing, 'sorted')
        ctx.must('repeated injection', call)
        w.fs.listing = scn['listing']
        for t, p in steps_of(out, w.name):
            ctx.check(np.array_equal(read(p)[1], kept[t]), 'not-repeatable',
                      lambda: f'the noise of step {t} depends on the order '
                      'in which the files are listed')
        ctx.probe('same_seed')
    ctx.state(('inject', op['dist'], len(pairs), hit))


def verify_noise(ctx, op, noise, scale):
    par = op['par']
    if op['dist'] == 'uniform':
        amp = abs(par['amp'])
        ctx.check(np.abs(noise).max() <= 0.5*amp + scale, 'wrong-noise',
                  lambda: f'noise of {np.abs(noise).max():.3g}, the '
                  f'amplitude is {amp}')
        sd = amp/np.sqrt(12)
    else:
        sd = par['std']
        if op['dist'] == 'spiked_gaussian':
            spiked = np.abs(noise) > 0.5*abs(par['spike'])
            n, k, p = noise.size, int(spiked.sum()), par['p_spike']
            ctx.check(abs(k - n*p) <= 6*np.sqrt(n*p*(1 - p)) + 1e-9,
                      'wrong-noise', lambda: f'{k} of {n} values spiked, '
                      f'the probability is {p}')
            noise = noise - par['spike']*spiked
        ctx.check(np.abs(noise).max() <= 8*sd + scale, 'wrong-noise', lambda:
                  f'noise of {np.abs(noise).max():.3g}, the standard '
                  f'deviation is {sd}')
    for c in range(3):
        x = noise[:, :, c].ravel()
        if x.size >= 4:
            ctx.check(len(set(np.round(x/sd, 9))) == x.size, 'wrong-noise',
                      'the same noise for several nodes or steps')
    if noise.size >= 36:
        rms = np.sqrt((noise**2).mean())/sd
        ctx.check(0.4 < rms < 2.0, 'wrong-noise', lambda: f'noise of '
                  f'{rms:.3g} times the requested deviation')
        ctx.check(abs(noise.mean()) < 8*sd/np.sqrt(noise.size),
                  'wrong-noise', 'the noise has a mean value')
    flat = noise.ravel()
    ctx.check(len(set(np.round(flat/sd, 9))) == flat.size, 'wrong-noise',
              'the same noise for several components')


def inside(key, rel):
    return key == rel or key.startswith(rel + os.sep)


# -------------------------------------------------------------------- denoise
def smooth(x, method, par):
    """Reference of one denoising cycle of one component."""
    n = len(x)
    if method == 'frequency_low_pass':
        f = np.fft.fft(x)
        k = np.arange(n)
        freq = np.minimum(k, n - k)/n
        f[freq > par['cutoff_frequency']] = 0
        return np.fft.ifft(f).real
    width = par['window_size']
    out = np.zeros(n)
    for i in range(n):
        win = np.array([x[min(max(i - width//2 + k, 0), n - 1)]
                        for k in range(width)])
        if method == 'moving_average':
            out[i] = win.sum()/width
        else:
            c = np.polynomial.polynomial.polyfit(
                np.arange(width) - width//2, win, par['poly_order'])
            out[i] = c[0]
    return out


def denoise(w, op):
    from miscellaneous.noisy_data.denoise_disp_noise_csv import \
        denoise_displacements_noise
    ctx, scn = w.ctx, w.scn
    src = w.a
    if op['from_noisy']:
        found = [d for d in ('noisy', 'out.2')
                 if os.path.isdir(os.path.join(w.a, d))
                 and len(steps_of(os.path.join(w.a, d), w.name))
                 == scn['n_time']]
        if found and not scn['bad']:
            src = os.path.join(w.a, found[0])
            ctx.probe('denoised_noisy')
    out = os.path.join(src, op['dirname'])
    rel = os.path.relpath(out, ctx.scratch)
    if os.path.isdir(out):
        ctx.probe('output_replaced')
    given = {'denoise_method': op['method'], 'denoiser_parameters':
             op['par'], 'n_denoise_cycle': op['cycles'],
             'denoise_dirname': op['dirname']}
    plot = op['plot'] and {'node_id': op['plot'][0],
                           'disp_comp': str(op['plot'][1])}
    box = []

    def call():
        par = build.snapshot(given)
        with drawings() as rec:
            denoise_displacements_noise(
                src, denoise_parameters=par,
                plot_parameters=build.snapshot(plot) if plot else None)
        box[:] = rec
        ctx.check(par == given, 'source-changed', 'the given denoising '
                  'parameters were changed')
    keep = scn['bad'] == 'empty'
    status, value, hit, before = perform(
        w, op, call, lambda k: keep or not inside(k, rel))
    if scn['bad'] in ('columns', 'empty'):
        refused(w, op, scn['bad'], status, value, before)
        return
    if status != 'ok':
        failed('denoising', value)
    pairs = [(t, a, b) for t, a, b in (
        same_steps(w, src, out) if os.path.dirname(out) == src else [])]
    old = np.array([a for _, a, _ in pairs])
    got = np.array([b for _, _, b in pairs])
    ref = old.copy()
    for _ in range(op['cycles']):
        for n in range(ref.shape[1]):
            for c in range(3):
                ref[:, n, c] = smooth(ref[:, n, c], op['method'], op['par'])
    ref[0] = 0.0
    tol = 1e-9*max(1.0, np.abs(old).max())
    ctx.check(np.abs(got - ref).max() <= tol, 'wrong-denoising', lambda:
              f'denoised displacements are off by '
              f'{np.abs(got - ref).max():.3g}')
    if plot:
        drawn = [x for x in box if x[0] == 'plot']
        n, c = op['plot'][0] - 1, op['plot'][1] - 1
        nt = len(old)
        ctx.check(len(drawn) == 1 and drawn[0][1].shape == (nt, 4)
                  and close(drawn[0][1][:, 1], old[:, n, c], 1e-9)
                  and np.abs(drawn[0][1][:, 3] - ref[:, n, c]).max() <= tol,
                  'wrong-plot', lambda: 'the plot does not show the noisy '
                  'and the denoised displacements of the node')
        ctx.probe('noise_plot')
    ctx.nontrivial = True
    ctx.probe(op['method'])
    if op['cycles'] > 1:
        ctx.probe('cycles')
    width = op['par'].get('window_size', 1)
    if width % 2 == 0:
        ctx.probe('even_window')
    if width > len(old):
        ctx.probe('wide_window')
    ctx.state(('denoise', op['method'], op['cycles'], len(old), hit))


# --------------------------------------------------------------------- labels
def copy(w, op):
    from user_scripts.global_model_update.utilities.process_specimen_data \
        import copy_dbc_labels
    ctx, scn = w.ctx, w.scn
    src = {t: read(p) for t, p in steps_of(w.b, w.name)}
    old = {t: read(p) for t, p in steps_of(w.a, w.name)}
    targets = {os.path.relpath(p, ctx.scratch) for _, p in
               steps_of(w.a, w.name)}
    bad = (scn['bad'] if scn['bad'] in ('empty', 'length', 'nodes', 'labels',
                                        'more_nodes') else None)
    if scn['bad'] == 'columns':
        return

    def want(t):
        names, data = old[t]
        return COLS, np.hstack([data[:, :10], src[t][1][:, 10:13]])

    def partial(before):
        """After a fault every file is the old or the complete new one."""
        now = dict(steps_of(w.a, w.name))
        ctx.check(set(now) == set(old), 'target-damaged', lambda: f'steps '
                  f'{sorted(set(old) - set(now))} of the target are gone')
        for t, path in now.items():
            try:
                names, data = read(path)
            except (ValueError, IndexError):
                raise Violation('target-damaged', f'step {t} of the target '
                                'was left damaged') from None
            ok = any(names == n and close(data, d) for n, d in
                     ((old[t],) if bad else (old[t], want(t))))
            ctx.check(ok, 'target-damaged', lambda: f'step {t} of the '
                      'target is neither the old nor the new one')

    def outside(k):
        """Not a file of the target, and not a new file of another name."""
        if bad:
            return True
        return k not in targets and not (
            k.startswith('a' + os.sep) and k not in first)
    first = w.tree()
    status, value, hit, before = perform(
        w, op, lambda: copy_dbc_labels(w.name, w.b, w.a), outside, partial)
    if bad:
        refused(w, op, bad, status, value, before)
        return
    if status != 'ok':
        failed('copy of labels', value)
    now = dict(steps_of(w.a, w.name))
    ctx.check(set(now) == set(old), 'wrong-files', 'the steps of the target '
              'are not the same')
    for t, path in now.items():
        names, data = read(path)
        n, d = want(t)
        ctx.check(names == n and data.shape == d.shape and close(
            data[:, 10:], d[:, 10:]), 'wrong-labels', lambda: f'step {t} '
            'does not have the labels of the source')
        ctx.check(close(data, d), 'wrong-columns', lambda: f'step {t}: more '
                  'than the labels changed')
    ctx.nontrivial = True
    ctx.probe('copied')
    ctx.probe('constraints_replaced' if len(old[0][0]) == 13
              else 'constraints_added')
    ctx.state(('copy', len(old), len(old[0][0]), hit))


# ---------------------------------------------------------------- evaluations
def history(w):
    return [read(p)[1] for _, p in steps_of(w.b, w.name)]


def reactions(w, op):
    from user_scripts.global_model_update.utilities import \
        process_specimen_data as mod
    ctx, scn = w.ctx, w.scn
    if scn['bad'] == 'labels':
        return
    dim = op['n_dim']
    hist = history(w)
    box = []

    def call():
        with drawings() as rec:
            value = mod.build_dirichlet_sets_reaction_history(
                w.name, w.b, n_dim=dim)
            mod.plot_reaction_forces_history(
                w.name, w.b, n_dim=dim, reference_displacement_node=op['ref']
                and tuple(op['ref']), save_dir=ctx.scratch)
            mod.compare_reaction_forces_history(
                value[0], value[1], save_dir=ctx.scratch)
        box[:] = rec
        return value
    status, value, hit, _ = perform(w, op, call, lambda k: True)
    if status != 'ok':
        failed('reaction history', value)
    react, labels, disps, lists = value
    wanted = {}
    for c in range(dim):
        for lab in sorted(set(hist[0][:, 10 + c])):
            nodes = np.where(hist[0][:, 10 + c] == lab)[0]
            wanted[f'dim_{c + 1}_label_{int(lab)}'] = (
                [float(h[nodes, 7 + c].sum()) for h in hist],
                (nodes + 1).tolist())
    ctx.check(sorted(labels) == sorted(wanted), 'wrong-reactions', lambda:
              f'sets {sorted(labels)}, the history has {sorted(wanted)}')
    for i, lab in enumerate(labels):
        ctx.check(near(react[i, 0], wanted[lab][0]), 'wrong-reactions',
                  lambda: f'{lab}: reaction history {react[i, 0]}, the '
                  f'history has {wanted[lab][0]}')
        ctx.check(lists[i] == wanted[lab][1], 'wrong-reactions', lambda:
                  f'{lab}: nodes {lists[i]}, the history has '
                  f'{wanted[lab][1]}')
    ref = np.stack([h[:, 4:4 + dim] for h in hist], axis=2)
    ctx.check(disps.shape == ref.shape and near(disps, ref),
              'wrong-reactions', 'the displacements are not those of the '
              'history')
    made = saved(box)
    x = list(range(len(hist)))
    if op['ref']:
        x = [h[op['ref'][0] - 1, 4 + op['ref'][1]] for h in hist]
        ctx.probe('reference_node')
    for lab, (vals, _) in wanted.items():
        key = 'dirichlet_reaction_hist_' + lab
        ctx.check(key in made, 'wrong-plot', f'{key} was not drawn')
        ctx.check(near(made[key][0][:, 0], x)
                  and near(made[key][0][:, 1], vals), 'wrong-plot', lambda:
                  f'{key} does not show the reaction history')
    data = made['dirichlet_reaction_hist_comparison'][0]
    for i, lab in enumerate(labels):
        ctx.check(near(data[:, 2*i + 1], wanted[lab][0]), 'wrong-plot',
                  'the comparison does not show the reaction histories')
    ctx.nontrivial = True
    ctx.probe('reactions')
    if dim == 2:
        ctx.probe('two_dimensions')
    ctx.state(('reactions', dim, len(hist), len(wanted), hit))


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(
        (np.abs(a - b) <= 1e-4*max(1.0, np.abs(b).max())).all())


def saved(box):
    made, cur = {}, None
    for item in box:
        if item[0] == 'plot':
            cur = item
        else:
            made[item[1]] = (cur[1], cur[2])
    return made


def displacements(w, op):
    from user_scripts.global_model_update.utilities import \
        process_specimen_data as mod
    ctx, scn = w.ctx, w.scn
    if scn['bad'] == 'labels':
        return
    hist = history(w)
    box = []
    dim = op['n_dim']

    def call():
        with drawings() as rec:
            mod.plot_nodes_displacement_history(
                w.name, w.b, nodes_labels=op['nodes'], n_dim=dim,
                save_dir=ctx.scratch)
        box[:] = rec
    status, value, hit, _ = perform(w, op, call, lambda k: True)
    if status != 'ok':
        failed('displacement history', value)
    nodes = op['nodes']
    if nodes == 'all':
        nodes = list(range(1, len(hist[0]) + 1))
    elif isinstance(nodes, int):
        nodes = [nodes]
    made = saved(box)
    ctx.check(sorted(made) == sorted(f'displacement_hist_node_{n}'
                                     for n in nodes), 'wrong-plot', lambda:
              f'{sorted(made)} drawn')
    for n in nodes:
        data = made[f'displacement_hist_node_{n}'][0]
        ref = np.array([h[n - 1, 4:4 + dim] for h in hist])
        ctx.check(data.shape == (len(hist), 2*dim) and near(
            data[:, 1::2], ref), 'wrong-plot', lambda: 'the plot does not '
            f'show the displacements of node {n}')
    ctx.nontrivial = True
    ctx.probe('displacements')
    if dim == 2:
        ctx.probe('two_dimensions')
    ctx.state(('displacements', dim, len(hist), len(nodes), hit))


OPS = {'inject': inject, 'denoise': denoise, 'copy': copy,
       'reactions': reactions, 'displacements': displacements}


def run(ctx):
    import miscellaneous.noisy_data.denoise_disp_noise_csv  # noqa: F401
    import miscellaneous.noisy_data.inject_disp_noise_csv  # noqa: F401
    import user_scripts.global_model_update.utilities.process_specimen_data \
        # noqa: F401
    torch.set_default_dtype(torch.float32)
    scn = ctx.scn
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'],
               chunk=rng(scn['seed'], 'chunk').choice([64, 256, 2048]))
    w = World(ctx, fs)
    with fs.installed(), contextlib.redirect_stdout(io.StringIO()):
        for op in scn['ops']:
            ctx.log('op', op['kind'], op['id'])
            OPS[op['kind']](w, op)
