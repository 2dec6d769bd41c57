"""P23: a hyper-parameter search scores every job by its own result."""
import contextlib
import importlib
import inspect
import io
import math
import os
import re
import types

import numpy as np
import torch

from dst import build, env, finder, train
from dst.core import SimCrash, Violation, rng
from dst.props.p16 import gru_reference
from dst.props.p19 import rebind
from dst.vfs import SimFS

RUNS = {'quick': 160, 'thorough': 5000}
RULE = ('one run = one or two sweeps of two to five jobs (trained recurrent '
        'networks, with or without testing, or candidate materials of a '
        'specimen) with seeded hyper-parameters, some repeated, with crashes, '
        'I/O errors and interrupts during jobs, and the history of the sweeps '
        'requested at any time; non-trivial = a job followed a failed or a '
        'different one and was scored')
PROBES = ('training', 'testing', 'global', 'early_stopping', 'no_stopping',
          'scheduler', 'repeated', 'job_failed', 'job_crashed', 'after_fault',
          'history', 'history_refused', 'two_sweeps', 'many_jobs', 'yielded',
          'sweeper_basic', 'sweeper_nevergrad', 'sweeper_optuna', 'ragged',
          'many_steps', 'log_metric')
STATE_MEASURE = 'digest of (kind, hyper-parameters, outcomes so far)'
REAL = ['jobs of both hyper-parameter searches', 'training and prediction of '
        'recurrent networks', 'specimen data, material model finder',
        'data set files, job summaries, optimisation history']
STUB = ['hydra launcher and sweeper (hands over the job configuration)',
        'figures', 'disk, listing order, clock']
ASSUMPTIONS = ['training and prediction called directly are decided by P03, '
               'P04 and P06, the force imbalance by P14']
SHRINK_LISTS = ('jobs',)

ABAQUS = {'tetra4f': 'C3D4', 'hexa8': 'C3D8', 'hexa8r': 'C3D8R',
          'hexa20r': 'C3D20R'}
SWEEPERS = {
    'basic': {'_target_': 'hydra._internal.core_plugins.basic_sweeper.'
              'BasicSweeper'},
    'nevergrad': {'_target_': 'hydra_plugins.hydra_nevergrad_sweeper.'
                  'nevergrad_sweeper.NevergradSweeper',
                  'optim': {'optimizer': 'NGOpt'}},
    'optuna': {'_target_': 'hydra_plugins.hydra_optuna_sweeper.optuna_sweeper.'
               'OptunaSweeper',
               'sampler': {'_target_': 'optuna.samplers.TPESampler'}}}


# =============================================================================
def gen(seed, tier):
    r = rng(seed, 'gen')
    kind = r.choice(['training', 'testing', 'testing', 'global'])
    n_sweep = r.choice([1, 1, 2])
    jobs = []
    n_job = r.choice([2, 3, 4]) if kind != 'global' else r.choice([2, 3, 5])
    if kind == 'global' and r.random() < 0.1:
        n_job = 12
    for i in range(n_job):
        repeat = jobs and r.random() < 0.25
        cfg = (dict(r.choice(jobs)['cfg']) if repeat else
               gen_material(r) if kind == 'global' else gen_cfg(r))
        job = {'id': i, 'cfg': cfg, 'sweep': r.randrange(n_sweep),
               'seed': r.randint(0, 10**6), 'repeat': bool(repeat),
               'sweeper': r.choice(sorted(SWEEPERS)),
               'history': r.random() < 0.35, 'log': r.random() < 0.3}
        if r.random() < 0.25:
            job['fault'] = {'pos': r.random(),
                            'frac': r.choice([0.0, 0.3, 0.5, 0.9]),
                            'kind': r.choice(['crash', 'crash_after', 'torn',
                                              'torn', 'enospc', 'eio',
                                              'intr'])}
            if r.random() < 0.5:
                job['fault']['late'] = True
        jobs.append(job)
    spec = finder.gen_specimen(r, sorted(ABAQUS)[:2]*3 + sorted(ABAQUS)[2:])
    spec['n_time'] = r.choice([2, 3, 4]) if r.random() < 0.85 else 11
    spec['n_elem'] = 1 if spec['mesh'] == 'hexa20r' else spec['n_elem']
    return {'seed': seed, 'kind': kind, 'jobs': jobs,
            'listing': r.choice(['shuffle', 'reverse', 'sorted']),
            'n': [r.choice([3, 4, 5]), r.choice([2, 3]), r.choice([2, 3, 4])],
            'n_time': r.choice([2, 3]), 'spec': spec,
            'name': r.choice(['specimen', 'Ti6242_UT.2', 'spec-1', 's(1)'])}


def gen_cfg(r):
    cfg = {'n_features_in': 6, 'n_features_out': 6,
           'hidden_layer_size': r.choice([2, 3, 4]),
           'n_recurrent_layers': r.choice([1, 1, 2]), 'dropout': 0,
           'n_max_epochs': r.choice([1, 2, 3]),
           'batch_size': r.choice([1, 2, 3, 8]),
           'is_sampler_shuffle': r.random() < 0.4,
           'loss_nature': 'features_out', 'loss_type': 'mse',
           'loss_kwargs': {}, 'lr_init': r.choice([1e-3, 1e-2, 0.1]),
           'lr_scheduler_type': None, 'lr_scheduler_kwargs': {},
           'is_early_stopping': r.random() < 0.6,
           'early_stopping_kwargs': {
               'validation_frequency': 1,
               'trigger_tolerance': r.choice([1, 2, 20]),
               'improvement_tolerance': r.choice([1e-2, 0.2])},
           'opt_algorithm': 'adam'}
    if r.random() < 0.5:
        cfg['lr_scheduler_type'] = 'explr'
        cfg['lr_scheduler_kwargs'] = {'gamma': r.choice([0.5, 0.9])}
    return cfg


def gen_material(r):
    return {'E': r.choice([80.0, 110.0, 100, 125.5]),
            'v': r.choice([0.2, 0.3, 0.35]), 's0': r.choice([0.5, 1, 2.0]),
            'a': r.choice([1.0, 5.0, 8]), 'b': r.choice([0.3, 0.5, 1.0])}


def shrink(scn):
    for i, job in enumerate(scn['jobs']):
        for key in ('fault', 'history'):
            if job.get(key):
                new = build.snapshot(scn)
                new['jobs'][i].pop(key)
                yield new
        if job['sweep']:
            new = build.snapshot(scn)
            new['jobs'][i]['sweep'] = 0
            yield new


# ----------------------------------------------------------------------- seams
class Launcher:
    """Stands in for hydra: hands a job its configuration."""

    def __init__(self, world):
        self.w = world

    def main(self, *args, **kwargs):
        def wrap(func):
            return lambda *a, **k: self.run(func)
        return wrap

    def run(self, func):
        from omegaconf import OmegaConf
        job = self.w.job
        self.w.result = func(OmegaConf.create(job['cfg']))
        return None

    def get(self):
        from omegaconf import OmegaConf
        job = self.w.job
        return OmegaConf.create({
            'job': {'id': str(job['id']), 'num': job['id']},
            'sweeper': SWEEPERS[job['sweeper']],
            'runtime': {'output_dir': self.w.job_dir}})

    @contextlib.contextmanager
    def installed(self):
        import hydra
        from hydra.core.hydra_config import HydraConfig
        old = hydra.main, HydraConfig.__dict__['get']
        hydra.main = self.main
        HydraConfig.get = staticmethod(self.get)
        try:
            yield
        finally:
            hydra.main = old[0]
            HydraConfig.get = old[1]


@contextlib.contextmanager
def drawings():
    """Record what the history plot is given and draw nothing."""
    import ioput.plots as plots
    box, undo = [], []

    class Axes:
        def plot(self, *a, **k):
            return []

        def legend(self, *a, **k):
            return types.SimpleNamespace(set_zorder=lambda *a: None)

    for name in ('scatter_xy_data', 'save_figure'):
        real = getattr(plots, name)
        sig = inspect.signature(real)

        def stub(*args, _name=name, _sig=sig, **kwargs):
            got = dict(_sig.bind(*args, **kwargs).arguments)
            if _name == 'save_figure':
                return None
            box.append((np.array(got['data_xy'], dtype=float),
                        got.get('data_labels')))
            return None, Axes()
        undo += rebind(real, stub)
    import matplotlib.pyplot as plt
    close = plt.close
    plt.close = lambda *a, **k: None
    try:
        yield box
    finally:
        plt.close = close
        for module, attr, real in undo:
            setattr(module, attr, real)


# ----------------------------------------------------------------------- world
class World:
    def __init__(self, ctx, fs):
        self.ctx, self.fs, self.scn = ctx, fs, ctx.scn
        self.home = os.path.join(ctx.scratch, 'search')
        self.data = os.path.join(ctx.scratch, 'data')
        self.side = os.path.join(ctx.scratch, 'direct')
        for d in (self.home, self.data, self.side):
            os.mkdir(d)
        self.scores = {}                 # sweep: [objective or None]
        self.n_direct = 0
        if self.scn['kind'] == 'global':
            self.make_specimen()
        else:
            self.make_data()
        self.source = build.tree(self.data)

    # ------------------------------------------------------------------- inputs
    def make_data(self):
        from time_series_data.time_dataset import (TimeSeriesDatasetInMemory,
                                                   save_dataset)
        self.sets, self.paths = {}, {}
        for k, (name, n) in enumerate(zip(
                ('training', 'validation', 'testing'), self.scn['n'])):
            d = os.path.join(self.data, name)
            os.mkdir(d)
            rows = build.samples(self.scn['seed'], n,
                                 n_time=self.scn['n_time'], tag=k, n_in=6,
                                 n_out=6)
            self.sets[name] = rows
            rows = [{'strain_path': s['features_in'],
                     'stress_path': s['features_out'],
                     'time_hist': s['time_hist']} for s in rows]
            self.paths[name] = self.ctx.must(
                'store data set', save_dataset,
                TimeSeriesDatasetInMemory(rows), 'ss_paths_dataset', d,
                is_append_n_sample=True)

    def make_specimen(self):
        self.spec = spec = finder.Specimen(self.scn['spec'], 'dirichlet_sets')
        name = self.scn['name']
        self.src = os.path.join(self.data, 'simulation')
        hist = os.path.join(self.src, 'specimen_history_data')
        os.makedirs(hist)
        lines = ['*NODE\n']
        for i, x in enumerate(spec.coords.tolist()):
            lines.append(f'{i + 1}, ' + ', '.join(repr(v) for v in x) + '\n')
        lines.append(f'*ELEMENT, TYPE={ABAQUS[spec.kind]}\n')
        for i, c in enumerate(spec.conn):
            lines.append(f'{i + 1}, ' + ', '.join(str(n + 1) for n in c)
                         + '\n')
        lines.append('*BOUNDARY\n')
        for i, j in zip(*np.nonzero(spec.bc)):
            lines.append(f'{i + 1}, {j + 1}, {j + 1}\n')
        with open(os.path.join(self.src, name + '.inp'), 'w') as f:
            f.writelines(lines)
        head = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2',
                'RF3', 'DBC1', 'DBC2', 'DBC3']
        for t in range(spec.n_time):
            rows = [','.join(head) + '\n']
            for i in range(spec.n_node):
                vals = ([float(x) for x in spec.coords[i]]
                        + [float(x) for x in spec.disps[i, :, t]]
                        + [float(x) for x in spec.reac[i, :, t]]
                        + [int(x) for x in spec.bc[i]])
                rows.append(','.join([str(i + 1)] + [repr(v) for v in vals])
                            + '\n')
            with open(os.path.join(hist, f'{name}_tstep_{t}.csv'), 'w') as f:
                f.writelines(rows)
        if spec.n_time > 10:
            self.ctx.probe('many_steps')

    # --------------------------------------------------------------------- jobs
    def call(self):
        """Run the real job function of the search in the job directory."""
        torch.manual_seed(self.job['seed'])
        np.random.seed(self.job['seed'] % 2**31)
        self.result = None
        if self.scn['kind'] == 'global':
            mod = importlib.import_module(
                'user_scripts.global_model_update.optimization.'
                'hydra_optimization')
            mod.hydra_wrapper(self.scn['name'], self.src, device_type='cpu')
        else:
            mod = importlib.import_module(
                'model_architectures.rnn_base_model.optimization.'
                'hydra_optimization')
            process = ('training' if self.scn['kind'] == 'training'
                       else 'training-testing')
            paths = dict(self.paths)
            if process == 'training':
                paths.pop('testing')
            mod.hydra_wrapper(process, paths, 'cpu')
        return self.result

    def expected(self):
        """(score, tolerance) of the current job without the search."""
        key = self.scn['kind']
        if key == 'global':
            return self.imbalance()
        return self.trained()

    def trained(self):
        cfg = self.job['cfg']
        d = os.path.join(self.side, str(self.n_direct))
        self.n_direct += 1
        os.mkdir(d)
        args = dict(
            n_max_epochs=cfg['n_max_epochs'],
            dataset=self.plain('training', cfg),
            model_init_args=dict(
                n_features_in=6, n_features_out=6,
                hidden_layer_size=cfg['hidden_layer_size'],
                n_recurrent_layers=cfg['n_recurrent_layers'],
                dropout=cfg['dropout'], model_directory=d,
                model_name='gru_material_model', is_model_in_normalized=True,
                is_model_out_normalized=True),
            lr_init=cfg['lr_init'], opt_algorithm=cfg['opt_algorithm'],
            lr_scheduler_type=cfg['lr_scheduler_type'],
            lr_scheduler_kwargs=dict(cfg['lr_scheduler_kwargs']),
            loss_nature='features_out', loss_type='mse', loss_kwargs={},
            batch_size=cfg['batch_size'],
            is_sampler_shuffle=cfg['is_sampler_shuffle'], device_type='cpu')
        if cfg['is_early_stopping']:
            args.update(is_early_stopping=True, early_stopping_kwargs=dict(
                cfg['early_stopping_kwargs'],
                validation_dataset=self.plain('validation', cfg)))
        torch.manual_seed(self.job['seed'])
        np.random.seed(self.job['seed'] % 2**31)
        model, best, _ = self.ctx.must('direct training',
                                       train.train_fn('gru'), **args)
        if self.scn['kind'] == 'training':
            return float(best), 1e-5*abs(float(best)) + 1e-9
        score = self.tested(model, d, cfg)
        return score, 1e-4*abs(score) + 1e-9

    def tested(self, model, directory, cfg):
        """Average loss over the testing set by own arithmetic."""
        from model_architectures.procedures.model_state_files import \
            load_model_state
        self.ctx.must('load best state', load_model_state, model,
                      model_load_state='best', is_remove_posterior=False)
        values = list(model.parameters())
        scal = {}
        for key in ('features_in', 'features_out'):
            rows = torch.cat([s[key] for s in self.sets['training']])
            rows = rows.double().numpy()
            scal[key] = rows.mean(0), rows.std(0)
        total = []
        for s in self.sets['testing']:
            x = (s['features_in'].double().numpy() - scal['features_in'][0]
                 )/scal['features_in'][1]
            y = gru_reference(values, cfg['n_recurrent_layers'],
                              cfg['hidden_layer_size'],
                              torch.tensor(x)[:, None])
            y = np.asarray(y)[:, 0]*scal['features_out'][1] \
                + scal['features_out'][0]
            total.append(float(np.mean(
                (y - s['features_out'].double().numpy())**2)))
        return float(np.mean(total))

    def plain(self, name, cfg):
        from time_series_data.time_dataset import TimeSeriesDatasetInMemory
        hidden = torch.zeros((cfg['n_recurrent_layers'],
                              cfg['hidden_layer_size']))
        return TimeSeriesDatasetInMemory([
            {'time_hist': s['time_hist'].clone(),
             'features_in': s['features_in'].clone(),
             'features_out': s['features_out'].clone(),
             'hidden_features_in': hidden.clone()}
            for s in self.sets[name]])

    def imbalance(self):
        cfg = self.job['cfg']
        args = build.rc_args(None, material='von_mises', learn=())
        par = build.von_mises_parameters(E=cfg['E'], v=cfg['v'],
                                         s0=cfg['s0'], a=cfg['a'], b=cfg['b'])
        par['hardening_parameters']['ep0'] = 1e-5
        args.update(material_model_parameters=par, learnable_parameters={},
                    n_features_in=6, n_features_out=6, problem_type=4)
        model = build.model_class('rc')(**args, is_save_model_init_file=False)
        bad = []

        def material(strain):
            try:
                with torch.no_grad():
                    return model(strain)
            except RuntimeError:
                bad.append(1)
                return torch.zeros_like(strain)
        spec = self.spec
        forces, _ = spec.response({e: material
                                   for e in range(len(spec.conn))})
        if bad:
            return None, None
        factor = 1.0/(110000.0**2*40.0**4*1.0)
        total, _, size, _ = spec.loss(forces, torch.ones(spec.n_time), factor)
        return float(total), 2e-4*(float(size) + float(total))


# ------------------------------------------------------------------ operations
def attempt(ctx, fs, call):
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            value = call()
        status = 'ok'
    except Violation:
        raise
    except SimCrash as exc:
        status, value = 'crash', exc
    except (Exception, KeyboardInterrupt) as exc:
        status, value = 'err', exc
    fs.disarm()
    if fs.dead:
        status = 'crash'
        fs.restart()
    return status, value, out.getvalue()


def objective_of(path):
    """Score recorded in a job summary (None without one)."""
    if not os.path.isfile(path):
        return None
    with open(path) as f:
        for line in f:
            m = re.match(r'\s*"?objective"?\s*:\s*(\S+)', line)
            if m:
                return m.group(1)
    return None


def run_job(w, job, dry):
    ctx, scn = w.ctx, w.scn
    sweep = job['sweep']
    done = w.scores.setdefault(sweep, [])
    w.job = dict(job, id=len(done))
    w.job_dir = os.path.join(w.home, f'sweep{sweep}', str(len(done)))
    os.makedirs(w.job_dir)
    before = build.tree(w.home)
    want, tol = w.expected()
    n = sum(v for k, v in ctx.faults.items() if k != 'shuffled_listing')
    if job.get('fault'):
        last = dry.get(scn['kind'], 40)
        pos = (last - 3 + int(job['fault']['pos']*6)
               if job['fault'].get('late') else int(job['fault']['pos']*last))
        w.fs.arm({max(pos, 0): job['fault']})
    start = w.fs.n
    status, value, _ = attempt(ctx, w.fs, w.call)
    hit = sum(v for k, v in ctx.faults.items()
              if k != 'shuffled_listing') > n
    if status == 'ok':
        dry[scn['kind']] = w.fs.n - start
    rel = os.path.relpath(w.job_dir, w.home) + os.sep
    after = build.tree(w.home)
    for path in sorted(set(before) | set(after)):
        if not path.startswith(rel):
            ctx.check(before.get(path) == after.get(path), 'other-job',
                      f'job {rel} changed {path} of another job')
    ctx.check(build.tree(w.data) == w.source, 'source-changed',
              'a job changed its source data')
    recorded = objective_of(os.path.join(w.job_dir, 'job_summary.dat'))
    if want is None:
        # The material point does not converge: no score is judged
        done.append(None if recorded is None else float('nan'))
        return
    if recorded is not None:
        try:
            num = float(recorded)
        except ValueError:
            num = None
        ctx.check(num is not None and abs(num - want) <= tol + 1e-7*abs(want),
                  'wrong-record', lambda: f'job {rel} recorded {recorded}, '
                  f'its hyper-parameters give {want!r}')
    if status != 'ok':
        ctx.check(hit, 'job-failed', lambda: f'job with {job["cfg"]} raised '
                  f'{type(value).__name__}: {str(value)[:300]}')
        ctx.probe('job_crashed' if status == 'crash' else 'job_failed')
        done.append(None if recorded is None else float(recorded))
        w.failed = True
        ctx.state([scn['kind'], job['cfg'], 'failed'])
        return
    ctx.check(recorded is not None, 'no-record',
              'a finished job left no objective in its summary')
    ctx.check(isinstance(value, float) or hasattr(value, 'item'), 'no-score',
              f'job returned {value!r}')
    ctx.check(abs(float(value) - want) <= tol, 'wrong-score', lambda:
              f'job {rel} with {job["cfg"]} returned {float(value)!r}, its '
              f'hyper-parameters give {want!r} (tolerance {tol:.2g})')
    with open(os.path.join(w.job_dir, 'job_summary.dat')) as f:
        text = f.read()
    for key, val in job['cfg'].items():
        if not isinstance(val, dict):
            ctx.check(re.search(rf'"?{key}"?\s*:\s*{re.escape(str(val))}\s',
                                text) is not None, 'wrong-record',
                      f'the summary does not state {key} = {val}')
    if scn['kind'] != 'global':
        structure(w, job)
    done.append(float(recorded))
    ctx.log('job', rel, recorded)
    ctx.state([scn['kind'], job['cfg'], len(done)])
    ctx.nontrivial |= len(done) > 1 or w.failed
    note(w, job)


def structure(w, job):
    """The stored model is one with the requested hyper-parameters."""
    ctx, cfg = w.ctx, job['cfg']
    d = os.path.join(w.job_dir, 'model')
    model = ctx.must('load model of the job', build.model_class(
        'gru').init_model_from_file, model_directory=d)
    shapes = [tuple(p.shape) for p in model.parameters()]
    ctx.check(shapes[0] == (3*cfg['hidden_layer_size'], 6)
              and len(shapes) == 4*cfg['n_recurrent_layers'] + 2,
              'wrong-model', f'stored model has parameters {shapes}')
    rec = train.read_pickle(os.path.join(d, 'loss_history_record.pkl'))
    n = len(rec['training_loss_history'])
    ctx.check(n <= cfg['n_max_epochs'] + 1 and (
        cfg['is_early_stopping'] or n >= cfg['n_max_epochs']), 'wrong-model',
        f'{n} epochs trained, {cfg["n_max_epochs"]} requested')
    lr = [float(x[0] if isinstance(x, (list, tuple)) else x)
          for x in rec['lr_history_epochs']]
    first = [cfg['lr_init']]
    if cfg['lr_scheduler_type']:
        # The record is taken after the scheduler's first step
        first.append(cfg['lr_init']*cfg['lr_scheduler_kwargs']['gamma'])
    ctx.check(any(abs(lr[0] - x) <= 1e-6*x for x in first),
              'wrong-model', f'learning rate {lr[0]}')


def note(w, job):
    ctx, cfg, kind = w.ctx, job['cfg'], w.scn['kind']
    ctx.probe(kind)
    ctx.probe('sweeper_' + job['sweeper'])
    if job['repeat']:
        ctx.probe('repeated')
    if w.failed:
        ctx.probe('after_fault')
    if kind == 'global':
        strain = float(w.spec.disps.abs().max())
        if strain*cfg['E'] > cfg['s0']:
            ctx.probe('yielded')
        return
    ctx.probe('early_stopping' if cfg['is_early_stopping'] else 'no_stopping')
    if cfg['lr_scheduler_type']:
        ctx.probe('scheduler')
    if w.scn['n'][0] % cfg['batch_size'] and cfg['batch_size'] < w.scn['n'][0]:
        ctx.probe('ragged')


def history(w, log):
    """The reported history is that of the recorded scores, per sweep."""
    from model_architectures.rnn_base_model.optimization import \
        hydra_optimization_plots as hop
    ctx = w.ctx
    sweeps = sorted(w.scores)
    dirs = {f'S{k}': os.path.join(w.home, f'sweep{k}') for k in sweeps}
    before = build.tree(w.home)
    with drawings() as box:
        status, value, text = attempt(
            ctx, w.fs, lambda: hop.plot_optimization_history(
                dict(dirs), 'objective', is_log_metric=log,
                is_data_labels=True, is_verbose=True))
    ctx.check(build.tree(w.home) == before, 'history-changed',
              'the history of the search changed its files')
    ctx.probe('history')
    bad = [k for k in sweeps if any(s is None or math.isnan(s)
                                    for s in w.scores[k])]
    if any(s is None for k in sweeps for s in w.scores[k]):
        ctx.check(status == 'err', 'incomplete-history',
                  'a history was reported although a job has no score')
        ctx.probe('history_refused')
        return
    if bad:
        return
    ctx.check(status == 'ok' and len(box) == 1, 'history-failed', lambda:
              f'history of finished jobs: {type(value).__name__}: '
              f'{str(value)[:200]}')
    data, labels = box[0]
    ctx.check(list(labels) == list(dirs), 'wrong-history', f'labels {labels}')
    longest = max(len(w.scores[k]) for k in sweeps)
    ctx.check(data.shape == (longest, 2*len(sweeps)), 'wrong-history',
              f'history of shape {data.shape}')
    best = re.findall(r'Best performance:\s*(\S+)\s*\(job #(\d+)\)', text)
    for i, k in enumerate(sweeps):
        want = np.array(w.scores[k])
        col = data[:, 2*i:2*i + 2]
        n = len(want)
        shown = np.log(want) if log else want
        ctx.check(bool(np.isnan(col[n:]).all())
                  and bool(np.array_equal(col[:n, 0], np.arange(n)))
                  and bool(np.allclose(col[:n, 1], shown, rtol=1e-7, atol=0)),
                  'wrong-history', lambda: f'sweep {k} is reported as '
                  f'{col.tolist()}, its jobs scored {want.tolist()}')
        if best:
            ctx.check(len(best) == len(sweeps)
                      and want[int(best[i][1])] == want.min()
                      and abs(float(best[i][0]) - want.min())
                      <= 1e-7*abs(want.min()), 'wrong-best', lambda:
                      f'best job of sweep {k} reported as {best[i]}, scores '
                      f'{want.tolist()}')
    if len(sweeps) > 1:
        ctx.probe('two_sweeps')
    if longest > 10:
        ctx.probe('many_jobs')
    if log:
        ctx.probe('log_metric')


# =============================================================================
def run(ctx):
    torch.set_default_dtype(torch.float32)
    fs = SimFS(ctx.scratch, ctx, listing=ctx.scn['listing'], chunk=4096)
    for name in ('model_architectures.rnn_base_model.optimization.'
                 'hydra_optimization_plots',
                 'user_scripts.local_model_update.rnn_material_model.'
                 'train_model',
                 'user_scripts.local_model_update.rnn_material_model.predict'):
        importlib.import_module(name)
    undo = []
    for mod, name in (('train_model', 'generate_standard_training_plots'),
                      ('predict', 'generate_prediction_plots')):
        module = importlib.import_module(
            'user_scripts.local_model_update.rnn_material_model.' + mod)
        importlib.import_module('model_architectures.rnn_base_model.'
                                'optimization.hydra_optimization')
        undo += rebind(getattr(module, name), lambda *a, **k: None)
    try:
        with fs.installed():
            w = World(ctx, fs)
            w.failed = False
            dry = {}
            with Launcher(w).installed():
                for job in ctx.scn['jobs']:
                    ctx.step()
                    run_job(w, job, dry)
                    if job.get('history'):
                        history(w, job['log'])
                if w.scores:
                    history(w, False)
    finally:
        for module, attr, real in undo:
            setattr(module, attr, real)
        torch.set_default_dtype(torch.float32)
