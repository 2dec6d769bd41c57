"""P11: generated material response data sets hold only true responses."""
import contextlib
import os

import numpy as np
import torch

from dst import build
from dst.core import SimCrash, Violation, rng
from dst.vfs import SimFS, _real_torch_load

RUNS = {'quick': 900, 'thorough': 40000}
RULE = ('one run = one or two data set generations (random or proportional '
        'paths; in memory or on disk; noiseless then noisy; from a stored '
        'strain data set; from response files) with state updates made to '
        'fail at seeded path trials and time steps, including runs of nine '
        'to eleven consecutive failed trials, and crashes and I/O errors '
        'while samples are stored; non-trivial = a state update or an I/O '
        'operation failed during the generation')
PROBES = ('direct', 'noisy', 'from_strain', 'csv', 'on_disk', 'retried',
          'nine_failures', 'all_failed', 'crash_on_disk', 'error_on_disk',
          'rerun_after_fault', 'state_features', 'missing_state_feature',
          'cyclic', 'increment_norm', 'asymmetric_bounds', 'plane',
          'heteroscedastic', 'normalised_noise', 'denoised', 'empty_file')
STATE_MEASURE = 'digest of (procedure, settings, trials per path, outcome)'
REAL = ['MaterialResponseDatasetGenerator',
        'NoisyMaterialResponseDatasetGenerator', 'NoiseGenerator, Denoiser',
        'RandomStrainPathGenerator, ProportionalStrainPathGenerator',
        'TimeSeriesDataset(InMemory)', 'constitutive models', 'pandas']
STUB = ['outcome of chosen state updates (reported as failed, with a '
        'corrupted state)', 'disk (seam over real files)',
        'strain path and noise generators are observed, not replaced']
ASSUMPTIONS = ['infinitesimal strains', 'stresses of a path are judged with a '
               'separate instance of the constitutive model, whose state '
               'update is the subject of P12']
SHRINK_LISTS = ('fails',)
COMPS = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}
MAX_TRIALS = 10


def gen(seed, tier):
    r = rng(seed, 'gen')
    dim = r.choice([3, 3, 2])
    mat = r.choice(['elastic', 'von_mises', 'von_mises', 'drucker_prager',
                    'lou_zhang_yoon'])
    if dim == 2 and mat in ('elastic', 'lou_zhang_yoon'):
        mat = 'von_mises'
    n_path = r.choice([1, 2, 3, 5])
    bounds = {}
    style = r.choice(['sym', 'asym', 'asym', 'mixed'])
    for comp in COMPS[dim]:
        lo = -r.choice([0.005, 0.01, 0.02])
        hi = -lo
        if style != 'sym':
            hi = r.choice([0.002, 0.01, 0.04])
        if style == 'mixed' and r.random() < 0.3:
            lo = hi = 0.0
        bounds[comp] = [lo, hi]
    if all(lo == hi for lo, hi in bounds.values()):
        bounds['11'] = [-0.01, 0.01]
    kind = r.choice(['random', 'random', 'proportional'])
    cycle = r.choice([None, None, 1, 2, 3])
    path = {'strain_bounds': bounds, 'n_time': r.choice([7, 8, 11]),
            'inc_strain_norm': r.choice([None, None, 0.004]),
            'strain_noise_std': r.choice([None, None, None, 1e-4]),
            'n_cycle': cycle, 'time_init': r.choice([0.0, 1.0]),
            'time_end': 3.0}
    if kind == 'random':
        path['n_control'] = r.choice([2, 4, 6, 8, [2, 5], [5, 9]])
        path['generative_type'] = 'polynomial'
    fails = []
    for i in range(n_path):
        roll = r.random()
        n = (0 if roll < 0.5 else r.randint(1, 3) if roll < 0.75
             else r.choice([8, 9, 9, 10, 11]))
        fails.append({'path': i, 'n': n, 'step': r.random()})
    scn = {'what': r.choice(['direct', 'direct', 'noisy', 'noisy',
                             'from_strain', 'csv']),
           'dim': dim, 'material': mat, 'kind': kind, 'path': path,
           'n_path': n_path, 'fails': fails,
           'features': r.choice([[], [], ['acc_p_strain'],
                                 ['e_strain_mf', 'acc_p_strain'],
                                 ['nothing', 'acc_p_strain']]),
           'disk': r.random() < 0.4, 'np_seed': r.randint(0, 10**6),
           'verbose': r.random() < 0.1,
           'noise': gen_noise(r), 'again': r.random() < 0.5,
           'noise_fails': [{'path': i, 'n': r.choice([0, 0, 0, 1, 2, 9, 10]),
                            'step': r.random()} for i in range(n_path)],
           'csv_empty': [r.random() < 0.25 for _ in range(n_path)],
           'csv_ids': r.sample(range(0, 120), n_path)}
    if r.random() < 0.3:
        scn['fault'] = {'pos': r.random(), 'frac': r.choice([0.0, 0.5]),
                        'kind': r.choice(['crash', 'crash_after', 'torn',
                                          'enospc', 'eio', 'intr'])}
    return scn


def gen_noise(r):
    dist = r.choice(['uniform', 'gaussian', 'spiked_gaussian'])
    return {'dist': dist,
            'par': {'uniform': {'amp': 1e-3}, 'gaussian': {'std': 5e-4},
                    'spiked_gaussian': {'std': 5e-4, 'spike': 2e-3,
                                        'p_spike': 0.2}}[dist],
            'var': r.choice(['homoscedastic', 'heteroscedastic']),
            'normaliser': r.choice([None, None, 0.05]),
            'scaler': r.random() < 0.4, 'denoise': r.random() < 0.4}


def shrink(scn):
    for key, val in (('fault', None), ('features', []), ('disk', False),
                     ('n_path', 1), ('n_path', 2), ('again', False),
                     ('material', 'von_mises')):
        if scn.get(key) not in (None, val):
            new = build.snapshot(scn)
            new[key] = val
            yield new
    for i, f in enumerate(scn['fails']):
        if f['n']:
            new = build.snapshot(scn)
            new['fails'][i]['n'] = 0
            yield new
    for key, val in (('n_cycle', None), ('inc_strain_norm', None),
                     ('strain_noise_std', None)):
        if scn['path'][key] is not None:
            new = build.snapshot(scn)
            new['path'][key] = val
            yield new


# ---------------------------------------------------------------------- seams
def material(scn):
    import importlib
    name = scn['material']
    mod = importlib.import_module(
        'simulators.fetorch.material.models.standard.'
        + {'lou_zhang_yoon': 'lou'}.get(name, name))
    cls = {'elastic': 'Elastic', 'von_mises': 'VonMises',
           'drucker_prager': 'DruckerPrager',
           'lou_zhang_yoon': 'LouZhangYoon'}[name]
    return getattr(mod, cls)


class Seams:
    """Observes generated paths and makes planned state updates fail."""

    def __init__(self, ctx, scn):
        self.ctx, self.scn = ctx, scn
        self.trials = []           # generated (order, time, strain) or noise
        self.path = 0              # path being computed
        self.fails_left = 0
        self.failing = None        # number of updates left before the failure
        self.plan = {}
        self.history = []          # trials per path
        self.active = True

    def begin(self, plan):
        self.plan = {f['path']: f for f in plan}
        self.path, self.trials, self.history = -1, [], []
        self.count = 0
        self.next_path()

    def next_path(self):
        self.path += 1
        f = self.plan.get(self.path, {'n': 0, 'step': 0})
        self.fails_left, self.step = f['n'], f['step']
        self.count = 0

    def trial(self, item, n_time):
        """A new trial of the present path begins."""
        if self.failing == 'done':
            self.failing = None
        if self.count and self.ok:
            self.history.append(self.count)
            self.next_path()
        self.count += 1
        self.ok = True
        self.trials.append((self.path, item))
        self.failing = None
        if self.fails_left > 0:
            self.fails_left -= 1
            self.failing = int(self.step*(n_time - 1))

    def update(self, real, model, inc, old):
        state, tangent = real(model, inc, old)
        if self.active and isinstance(self.failing, int):
            if self.failing == 0:
                state = dict(state)
                state['is_su_fail'] = True
                state['stress_mf'] = torch.full_like(state['stress_mf'], 7e7)
                self.failing = 'done'
                self.ok = False
                self.ctx.fault('state-update-failure')
                self.ctx.log('su-fail', self.path, self.count)
            else:
                self.failing -= 1
        return state, tangent

    @contextlib.contextmanager
    def installed(self):
        from data_generation.strain_paths.noise_generator import \
            NoiseGenerator
        from data_generation.strain_paths.proportional_path import \
            ProportionalStrainPathGenerator
        from data_generation.strain_paths.random_path import \
            RandomStrainPathGenerator
        saved = []

        def patch(cls, name, make):
            real = getattr(cls, name)
            saved.append((cls, name, cls.__dict__.get(name)))
            setattr(cls, name, make(real))

        def watch_path(real):
            def call(obj, *args, **kwargs):
                out = real(obj, *args, **kwargs)
                self.trial(out, len(out[1]))
                return out
            return call

        def watch_noise(real):
            def call(obj, path, *args, **kwargs):
                out = real(obj, path, *args, **kwargs)
                self.trial((np.array(out), args, kwargs), len(out))
                return out
            return call

        def watch_update(real):
            return lambda obj, inc, old: self.update(real, obj, inc, old)
        patch(RandomStrainPathGenerator, 'generate_strain_path', watch_path)
        patch(ProportionalStrainPathGenerator, 'generate_strain_path',
              watch_path)
        patch(NoiseGenerator, 'generate_noise_path', watch_noise)
        patch(material(self.scn), 'state_update', watch_update)
        try:
            yield self
        finally:
            for cls, name, old in saved:
                setattr(cls, name, old)


# --------------------------------------------------------------------- oracle
def stress_of(scn, strain, seams):
    """Stress and states of a strain path by a separate model instance."""
    comps = COMPS[scn['dim']]
    cls = material(scn)
    model = cls('infinitesimal', 4 if scn['dim'] == 3 else 1,
                build.material_parameters(scn['material']))
    factor = np.array([1.0 if c[0] == c[1] else np.sqrt(2.0) for c in comps])
    state = model.state_init()
    out = {'stress': [np.zeros(len(comps))]}
    states = [state]
    seams.active = False
    try:
        for t in range(1, len(strain)):
            inc = np.zeros((scn['dim'], scn['dim']))
            for k, c in enumerate(comps):
                i, j = int(c[0]) - 1, int(c[1]) - 1
                inc[i, j] = inc[j, i] = strain[t, k] - strain[t - 1, k]
            state, _ = model.state_update(
                torch.tensor(inc, dtype=torch.float32), state)
            states.append(state)
            out['stress'].append(np.asarray(
                state['stress_mf'].detach(), dtype=float)/factor)
    finally:
        seams.active = True
    out['stress'] = np.array(out['stress'])
    for name in scn['features']:
        if name not in states[-1]:
            continue
        rows = []
        for s in states[1:]:
            v = np.asarray(torch.as_tensor(s[name]).detach(), dtype=float)
            rows.append(v/factor if 'strain_mf' in name else v.reshape(1))
        out[name] = np.array([0.0*rows[0]] + rows)
    return out


def n_features(scn, name):
    return len(COMPS[scn['dim']]) if 'strain_mf' in name else 1


def close(a, b, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    tol = 2e-5*(scale if scale is not None else np.abs(b).max() + 1e-9)
    return bool((np.abs(a - b) <= tol + 1e-9).all())


def check_path(ctx, scn, order, time, strain):
    """A generated strain path obeys its specification."""
    p, comps = scn['path'], COMPS[scn['dim']]
    ctx.check(tuple(order) == comps, 'wrong-components', f'{order}')
    ctx.check(close(time, np.linspace(p['time_init'], p['time_end'],
                                      p['n_time'])), 'wrong-times',
              lambda: f'times {time}')
    ctx.check(strain.shape == (p['n_time'], len(comps)), 'wrong-shape',
              lambda: f'{strain.shape}')
    ctx.check(np.isfinite(strain).all(), 'not-finite', 'strain path')
    n_f = p['n_time'] if not p['n_cycle'] else int(
        (p['n_time'] - 1)//(2*p['n_cycle']) + 1)
    ctx.check(np.abs(strain[0]).max() <= 1e-9, 'not-from-rest', lambda:
              f'the path starts at {strain[0].tolist()}')
    if p['strain_noise_std'] is None and p['inc_strain_norm'] is None:
        for k, c in enumerate(comps):
            lo, hi = p['strain_bounds'][c]
            ctx.check(strain[:, k].min() >= lo - 1e-9
                      and strain[:, k].max() <= hi + 1e-9, 'out-of-bounds',
                      lambda: f'component {c} spans [{strain[:, k].min():.6g},'
                      f' {strain[:, k].max():.6g}], bounds are [{lo}, {hi}]')
    weight = np.array([1.0 if c[0] == c[1] else 2.0 for c in comps])
    if p['inc_strain_norm'] is not None and p['strain_noise_std'] is None:
        inc = np.diff(strain[:n_f], axis=0)
        norms = np.sqrt((inc**2*weight).sum(1))
        ctx.check(close(norms, np.full(n_f - 1, p['inc_strain_norm'])),
                  'wrong-increment', lambda: f'increment norms {norms}')
    if p['n_cycle']:
        one = np.concatenate((strain[:n_f], strain[n_f - 2:0:-1]))
        want = np.concatenate([one]*p['n_cycle'] + [strain[:1]])
        want = np.concatenate(
            [want] + [strain[:1]]*(p['n_time'] - len(want)))
        ctx.check(close(strain, want), 'wrong-cycles',
                  'the path is not the requested number of equal cycles')


def check_sample(ctx, scn, sample, time, strain, seams, what):
    comps = COMPS[scn['dim']]
    ctx.check(tuple(sample['strain_comps_order']) == comps
              and tuple(sample['stress_comps_order']) == comps,
              'wrong-components', what)
    got = {k: np.asarray(sample[k], dtype=float)
           for k in ('strain_path', 'stress_path', 'time_hist')}
    ctx.check(close(got['strain_path'], strain), 'wrong-strain',
              f'{what}: stored strain is not that of the accepted path')
    ctx.check(close(got['time_hist'], np.reshape(time, (-1, 1))),
              'wrong-time', what)
    want = stress_of(scn, strain, seams)
    ctx.check(close(got['stress_path'], want['stress'],
                    max(np.abs(want['stress']).max(), 0.1)*5),
              'wrong-stress', lambda: (
                  f'{what}: stored stress is not the response to the stored '
                  f'strain (largest difference '
                  f'{np.abs(got["stress_path"] - want["stress"]).max():.3g})'))
    for name in scn['features']:
        if name in want:
            ctx.check(name in sample, 'state-missing', f'{what}: {name}')
            ctx.check(close(np.asarray(sample[name], dtype=float),
                            want[name], max(np.abs(want[name]).max(),
                                            1e-4)*5), 'wrong-state',
                      f'{what}: stored {name} is not that of the response')
        else:
            ctx.check(name not in sample, 'state-invented', f'{what}: {name}')
            ctx.probe('missing_state_feature')


# ------------------------------------------------------------------------ run
def expected(plan, n_path):
    """(paths that succeed before the first hopeless one, error expected)."""
    by = {f['path']: f['n'] for f in plan}
    for i in range(n_path):
        if by.get(i, 0) >= MAX_TRIALS:
            return i, True
    return n_path, False


def run(ctx):
    scn = ctx.scn
    np.random.seed(scn['np_seed'])
    for name, cond in (('plane', scn['dim'] == 2),
                       ('cyclic', bool(scn['path']['n_cycle'])),
                       ('increment_norm',
                        scn['path']['inc_strain_norm'] is not None),
                       ('asymmetric_bounds', any(
                           abs(a + b) > 1e-9 for a, b in
                           scn['path']['strain_bounds'].values())),
                       ('state_features', bool(scn['features']))):
        if cond:
            ctx.probe(name)
    root = os.path.join(ctx.scratch, 'disk')
    os.makedirs(root)
    fs = SimFS(root, ctx)
    seams = Seams(ctx, scn)
    with fs.installed(), seams.installed():
        {'direct': direct, 'noisy': noisy, 'from_strain': from_strain,
         'csv': csv}[scn['what']](ctx, scn, fs, seams)
    ctx.probe(scn['what'])


def path_kwargs(scn):
    p = build.snapshot(scn['path'])
    p['strain_bounds'] = {k: tuple(v) for k, v in p['strain_bounds'].items()}
    if isinstance(p.get('n_control'), list):
        p['n_control'] = tuple(p['n_control'])
    return p


def features(scn):
    return {k: n_features(scn, k) for k in scn['features']}


def generator(scn):
    from user_scripts.synthetic_data.gen_response_dataset import \
        MaterialResponseDatasetGenerator
    return MaterialResponseDatasetGenerator(
        'infinitesimal', 4 if scn['dim'] == 3 else 1)


def attempt(ctx, fs, fn, fault=None, n_io=0):
    """('ok', value), ('fault', None) or ('err', exception)."""
    if fault is not None:
        fs.arm({int(fault['pos']*max(n_io, 1)): fault})
    fired = sum(ctx.faults.values()) - ctx.faults['state-update-failure']
    try:
        out = ('ok', fn())
    except Violation:
        raise
    except (SimCrash, Exception, KeyboardInterrupt) as exc:
        now = sum(ctx.faults.values()) - ctx.faults['state-update-failure']
        out = ('fault' if now > fired or fs.dead else 'err', exc)
    if fs.dead:
        ctx.probe('crash_on_disk')
        out = ('fault', None)
        fs.restart()
    fs.disarm()
    return out


def outcome(ctx, out, plan, n_path, seams, what):
    """Compare the outcome with the planned failures; True if a data set."""
    n_ok, is_err = expected(plan, n_path)
    kind, value = out
    for f in plan[:n_ok + 1]:
        if 0 < f['n'] < MAX_TRIALS:
            ctx.probe('retried')
        if f['n'] == MAX_TRIALS - 1:
            ctx.probe('nine_failures')
    if is_err:
        ctx.probe('all_failed')
        ctx.check(kind == 'err', 'failed-path-accepted',
                  f'{what}: a data set came out although {MAX_TRIALS} trials '
                  'of one path failed')
        ctx.check(isinstance(value, RuntimeError), 'wrong-error',
                  f'{what}: {type(value).__name__}: {str(value)[:160]}')
        return False
    ctx.check(kind == 'ok', 'unexpected-exception',
              lambda: f'{what} raised {type(value).__name__}: '
              f'{str(value)[:200]}')
    ctx.check(len(value) == n_path, 'wrong-size',
              f'{what}: {len(value)} samples instead of {n_path}')
    return True


def accepted(seams, n_path):
    """Last trial of every path."""
    last = {}
    for path, item in seams.trials:
        last[path] = item
    return [last.get(i) for i in range(n_path)]


def direct(ctx, scn, fs, seams):
    gen_ = generator(scn)
    directory = os.path.join(fs.root, 'set')
    os.makedirs(directory)
    plan = scn['fails'][:scn['n_path']]
    kwargs = dict(n_path=scn['n_path'], strain_path_type=scn['kind'],
                  strain_path_kwargs=path_kwargs(scn),
                  model_name=scn['material'],
                  state_features=features(scn),
                  is_in_memory_dataset=not scn['disk'])
    if scn['disk']:
        ctx.probe('on_disk')
        kwargs.update(dataset_directory=directory,
                      dataset_basename='response')

    def once():
        seams.begin(plan)
        return gen_.generate_response_dataset(
            model_parameters=build.material_parameters(scn['material']),
            **kwargs)
    fault = scn.get('fault') if scn['disk'] else None
    out = attempt(ctx, fs, once, fault, 5*scn['n_path'])
    if out[0] == 'fault':
        ctx.probe('error_on_disk')
        ctx.probe('rerun_after_fault')
        out = attempt(ctx, fs, once)
    ctx.state([scn['what'], scn['material'], scn['disk'], seams.history,
               out[0]])
    if not outcome(ctx, out, plan, scn['n_path'], seams, 'generation'):
        return
    verify(ctx, scn, out[1], seams)
    if scn['again'] and not scn['disk']:
        # A generator is used again; nothing of the first use may leak
        first = [build.snapshot(dict(out[1][i])) for i in range(len(out[1]))]
        second = ctx.must('generate again', once)
        verify(ctx, scn, second, seams)
        ctx.check(all(build.state_equal(first[i], dict(out[1][i]))
                      for i in range(len(first))), 'data-set-changed',
                  'a later generation changed an earlier data set')


def verify(ctx, scn, dataset, seams):
    acc = accepted(seams, scn['n_path'])
    for i in range(scn['n_path']):
        order, time, strain = acc[i]
        strain = np.array(strain, dtype=float)
        check_path(ctx, scn, order, time, strain)
        check_sample(ctx, scn, dataset[i], time, strain, seams, f'path {i}')


def from_strain(ctx, scn, fs, seams):
    from time_series_data.time_dataset import (TimeSeriesDatasetInMemory,
                                               save_dataset)
    n, comps = scn['n_path'], COMPS[scn['dim']]
    samples = []
    gen_ = np.random.Generator(np.random.PCG64(scn['np_seed']))
    for i in range(n):
        n_time = 4 + i
        strain = gen_.standard_normal((n_time, len(comps)))*2e-3
        strain = strain.cumsum(0)
        strain[0] = 0.0
        samples.append({
            'strain_comps_order': comps,
            'strain_path': torch.tensor(strain, dtype=torch.float32),
            'time_hist': torch.arange(n_time, dtype=torch.float32
                                      ).reshape(-1, 1)})
    keep = build.snapshot(samples)
    path = save_dataset(TimeSeriesDatasetInMemory(samples), 'strains',
                        fs.root)
    fail = next((f for f in scn['fails'][:n] if f['n'] > 0), None)
    seams.begin([])
    seams.count, seams.ok = 1, True
    total = sum(len(s['strain_path']) - 1 for s in samples)
    if fail is not None:
        seams.failing = int(fail['step']*total)
    g = generator(scn)
    out = attempt(ctx, fs, lambda: g.gen_response_dataset_from_strain_dataset(
        path, scn['material'], build.material_parameters(scn['material']),
        state_features=features(scn)))
    seams.failing = None
    ctx.state([scn['what'], n, out[0], fail is not None])
    if fail is not None:
        ctx.check(out[0] == 'err' and isinstance(out[1], RuntimeError),
                  'failed-path-accepted', 'a data set came out although a '
                  'state update failed')
        return
    ctx.check(out[0] == 'ok', 'unexpected-exception', lambda: (
        f'{type(out[1]).__name__}: {str(out[1])[:200]}'))
    ctx.check(len(out[1]) == n, 'wrong-size', f'{len(out[1])} of {n}')
    for i in range(n):
        strain = np.asarray(keep[i]['strain_path'], dtype=float)
        check_sample(ctx, scn, out[1][i], keep[i]['time_hist'].numpy(),
                     strain, seams, f'sample {i}')
    ctx.nontrivial = True


def csv(ctx, scn, fs, seams):
    n = scn['n_path']
    gen_ = np.random.Generator(np.random.PCG64(scn['np_seed']))
    files, data = [], {}
    for k in range(n):
        table = gen_.standard_normal((3 + k, 13))
        if scn['csv_empty'][k]:
            table[:, 7:] = 0.0
            ctx.probe('empty_file')
        num = scn['csv_ids'][k]
        path = os.path.join(fs.root, f'run2_path_{num}.csv')
        with open(path, 'w') as f:
            f.write('T,' + ','.join(f'c{i}' for i in range(12)) + '\n')
            for row in table:
                f.write(','.join(f'{x:.9e}' for x in row) + '\n')
        files.append(path)
        data[num] = table
    cols = ([1, 2, 4], [7, 8, 10]) if scn['dim'] == 2 else (
        list(range(1, 7)), list(range(7, 13)))
    valid = [num for num in sorted(data)
             if np.abs(data[num][:, cols[1]]).max() > 1e-8]
    if not valid:
        return
    g = generator(scn)
    kwargs = {}
    directory = os.path.join(fs.root, 'set')
    os.makedirs(directory)
    if scn['disk']:
        kwargs = dict(is_in_memory_dataset=False, dataset_basename='r',
                      dataset_directory=directory)
    once = lambda: g.gen_response_dataset_from_csv(list(files), **kwargs)
    fault = scn.get('fault') if scn['disk'] else None
    out = attempt(ctx, fs, once, fault, 5*n)
    if out[0] == 'fault':
        ctx.probe('error_on_disk')
        ctx.probe('rerun_after_fault')
        out = attempt(ctx, fs, once)
    ctx.state([scn['what'], n, out[0], scn['disk']])
    ctx.check(out[0] == 'ok', 'unexpected-exception', lambda: (
        f'{type(out[1]).__name__}: {str(out[1])[:200]}'))
    ctx.check(len(out[1]) == len(valid), 'wrong-size',
              f'{len(out[1])} samples of {len(valid)} files with a response')
    for i, num in enumerate(valid):
        s, t = out[1][i], data[num]
        ctx.check(close(s['strain_path'], t[:, cols[0]])
                  and close(s['stress_path'], t[:, cols[1]])
                  and close(s['time_hist'], t[:, :1]), 'wrong-sample',
                  f'sample {i} is not the content of file number {num}')
        ctx.check(tuple(s['strain_comps_order']) == COMPS[scn['dim']]
                  and tuple(s['stress_comps_order']) == COMPS[scn['dim']],
                  'wrong-components', f'sample {i}')


def noisy(ctx, scn, fs, seams):
    from user_scripts.synthetic_data.gen_noisy_response_dataset import \
        NoisyMaterialResponseDatasetGenerator
    from data_generation.strain_paths.noise_generator import NoiseGenerator
    from utilities.data_scalers import TorchMinMaxScaler
    problem = 4 if scn['dim'] == 3 else 1
    g = ctx.must('build generator', NoisyMaterialResponseDatasetGenerator,
                 'infinitesimal', problem)
    n = scn['n_path']

    def model():
        return material(scn)('infinitesimal', problem,
                             build.material_parameters(scn['material']))
    plan = scn['fails'][:n]
    seams.begin(plan)
    out = attempt(ctx, fs, lambda: g.generate_noiseless_dataset(
        n, scn['kind'], path_kwargs(scn), model(),
        state_features=features(scn)))
    ctx.state(['noiseless', seams.history, out[0]])
    if not outcome(ctx, out, plan, n, seams, 'noiseless generation'):
        seams.begin([])
        out = ('ok', ctx.must('noiseless generation',
                              g.generate_noiseless_dataset, n, scn['kind'],
                              path_kwargs(scn), model(),
                              state_features=features(scn)))
    base = out[1]
    verify(ctx, scn, base, seams)
    keep = [build.snapshot(dict(base[i])) for i in range(n)]
    noise = scn['noise']
    ng = NoiseGenerator()
    ng.set_noise_distribution(noise['dist'])
    ng.set_noise_parameters(dict(noise['par']))
    scaler, ab = None, (0.0, 1.0)
    if noise['scaler']:
        width = len(COMPS[scn['dim']])
        lo = torch.full((width,), -0.03)
        hi = torch.full((width,), 0.05)
        scaler = TorchMinMaxScaler(width, minimum=lo, maximum=hi)
        ab = (0.01, 0.04)
        ctx.probe('normalised_noise')
    if noise['var'] == 'heteroscedastic':
        ctx.probe('heteroscedastic')
    plan = scn['noise_fails'][:n]
    seams.begin(plan)
    out = attempt(ctx, fs, lambda: g.generate_noisy_dataset(
        base, ng, model(), state_features=features(scn),
        strain_data_scaler=scaler, noise_variability=noise['var'],
        heteroscedastic_normalizer=noise['normaliser'],
        is_denoise_strain_path=noise['denoise']))
    ctx.state(['noisy', seams.history, out[0], noise['var']])
    ctx.check(all(build.state_equal(keep[i], dict(base[i]))
                  for i in range(n)), 'input-changed',
              'the noiseless data set was changed')
    if not outcome(ctx, out, plan, n, seams, 'noisy generation'):
        return
    acc = accepted(seams, n)
    for i in range(n):
        drawn, args, kwargs = acc[i]
        check_weights(ctx, scn, keep[i], noise, args, kwargs, i)
        s = out[1][i]
        drawn[0] = 0.0
        clean = np.asarray(keep[i]['strain_path'], dtype=float)
        ctx.check(close(s['strain_noise_path'], drawn), 'wrong-noise',
                  f'recorded strain noise of path {i} is not the one drawn')
        want = ((clean - ab[0])/ab[1] + drawn)*ab[1] + ab[0]
        if noise['denoise']:
            ctx.probe('denoised')
            pad = np.concatenate((want[:1], want[:1], want, want[-1:],
                                  want[-1:]))
            want = np.stack([pad[t:t + 5].mean(0) for t in range(len(want))])
            want[0] = clean[0]
        got = np.asarray(s['strain_path'], dtype=float)
        ctx.check(close(got, want, np.abs(want).max() + 0.05), 'wrong-strain',
                  lambda: f'noisy strain of path {i} is not the noiseless one '
                  f'plus the recorded noise (differs by '
                  f'{np.abs(got - want).max():.3g})')
        check_sample(ctx, scn, s, keep[i]['time_hist'].numpy(), got, seams,
                     f'noisy path {i}')
        diff = (np.asarray(s['stress_path'], dtype=float)
                - np.asarray(keep[i]['stress_path'], dtype=float))
        ctx.check(close(s['stress_noise_path'], diff,
                        np.abs(np.asarray(s['stress_path'])).max() + 0.1),
                  'wrong-noise', f'recorded stress noise of path {i}')


def check_weights(ctx, scn, sample, noise, args, kwargs, i):
    """Weights handed to the noise generator follow the path's strain norm."""
    if noise['var'] != 'heteroscedastic':
        return
    weights = kwargs.get('heteroscedastic_weights',
                         args[1] if len(args) > 1 else None)
    comps = COMPS[scn['dim']]
    w = np.array([1.0 if c[0] == c[1] else 2.0 for c in comps])
    norm = np.sqrt((np.asarray(sample['strain_path'], dtype=float)**2*w
                    ).sum(1))
    top = noise['normaliser'] or norm.max()
    ctx.check(weights is not None and close(weights, norm/top),
              'wrong-noise-weights', f'noise of path {i} is not weighted by '
              'its strain norm')
