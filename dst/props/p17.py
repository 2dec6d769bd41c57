"""P17: reported metrics and comparison data match the stored predictions."""
import inspect
import os
import pickle
import re
import shutil
import sys

import numpy as np
import torch

from dst import build, env
from dst.core import SimCrash, Violation, h64, rng
from dst.vfs import SimFS

RUNS = {'quick': 1500, 'thorough': 40000}
RULE = ('one run = a seeded tree of data sets, prediction sets and model '
        'realisations with foreign files between them and a seeded listing '
        'order, over which metrics, comparison data, convergence data and '
        'realisation runs are requested, where requests meet missing, '
        'incomplete or damaged files and the files they write are hit by '
        'crashes, torn writes, I/O errors and interrupts; non-trivial = at '
        'least one request was answered or refused for a stated reason')
PROBES = ('metrics', 'metrics_saved', 'processes', 'arrays', 'series',
          'series_uq', 'loss_convergence', 'loss_convergence_uq',
          'noise_convergence',
          'time_series_convergence', 'time_series_convergence_uq',
          'parameters_convergence', 'metrics_convergence', 'realisation_plots',
          'realisation_report', 'many_realisations',
          'realisation_run', 'repredicted', 'all_ids', 'chosen_ids',
          'id_above_nine', 'undefined_metric', 'foreign_files', 'refused',
          'damaged', 'crash', 'error', 'interrupt', 'retried',
          'constitutive_family', 'hybrid_family', 'two_prediction_types')
STATE_MEASURE = 'digest of (request, refused or not, rounded values)'
REAL = ['utilities/output_prediction_metrics', 'utilities/prediction_metrics',
        'materials/process_predictions', 'procedures/convergence_plots',
        'uncertainty_quantification of the three families',
        'data set and prediction file readers and writers']
STUB = ['disk, listing order, clock', 'drawing (the data handed to the plot '
        'functions is recorded)', 'training and prediction of a realisation '
        '(each leaves distinct, known files)']
ASSUMPTIONS = ['prediction files are written by the prediction procedure '
               '(P06) and hold predictions and targets of equal shape']
SHRINK_LISTS = ('ops',)

TESTING = 'in_distribution'
FAULTS = ('crash', 'crash_after', 'torn', 'enospc', 'eio', 'intr')
PLOTS = ('plot_xy_data', 'scatter_xy_data', 'plot_boxplots', 'save_figure',
         'plot_time_series_prediction', 'plot_truth_vs_prediction',
         'scatter_xy_data_noise_cases')
KINDS = ('metrics', 'metrics', 'processes', 'arrays', 'arrays', 'series',
         'series', 'loss_conv', 'loss_conv_uq', 'noise_conv', 'ts_conv', 'ts_conv_uq',
         'par_conv', 'metric_conv', 'uq_plots', 'uq_report', 'uq_run',
         'uq_run')


def gen(seed, tier):
    r = rng(seed, 'gen')
    n_test = r.choice([1, 2, 3, 5, 11, 12])
    scn = {'seed': seed, 'listing': r.choice(['shuffle', 'shuffle', 'sorted',
                                              'reverse']),
           'n_test': n_test, 'n_feat': r.choice([1, 2, 3, 6, 7]),
           'zero': r.random() < 0.2, 'nan': r.random() < 0.1,
           'foreign': r.random() < 0.7,
           'models': []}
    sizes = r.sample([1, 2, 3, 4, 9, 10, 12], r.choice([1, 2, 3]))
    n_real = r.choice([1, 2, 3, 11])
    for size in sizes:
        have = list(range(n_test))
        if r.random() < 0.3 and n_test > 1:
            have = sorted(r.sample(have, r.randint(1, n_test)))
        scn['models'].append({
            'size': size, 'have': have,
            'n_real': n_real if r.random() < 0.9 else r.choice([1, 2]),
            'hole': ([r.randrange(n_real), r.randrange(n_test)]
                     if r.random() < 0.08 else None)})
    ops = []
    for i in range(r.choice([2, 3, 4, 5])):
        op = {'id': i, 'op': r.choice(KINDS),
              'm': r.randrange(len(sizes)), 'save': r.random() < 0.7,
              'ids': None if r.random() < 0.5 else r.sample(
                  range(n_test), r.randint(1, n_test)),
              'type': r.choice(['stress_comps', 'p_strain_comps']),
              'two': r.random() < 0.2,
              'n_lab': r.randint(1, scn['n_feat']),
              'metrics': r.choice([['rmse'], ['nrmse'], ['rmse', 'nrmse'],
                                   ['nrmse', 'rmse']]),
              'path': r.random() < 0.6,
              'family': r.choice(['rnn', 'rc', 'hybrid']),
              'n': r.choice([1, 2, 3]), 'train': r.random() < 0.65,
              'extra': r.random() < 0.3}
        if op['ids'] is not None and r.random() < 0.1:
            op['ids'].append(n_test + r.choice([0, 3]))
        if r.random() < 0.18:
            op['damage'] = {'kind': r.choice(['remove', 'truncate', 'empty',
                                              'no_targets', 'no_summary',
                                              'no_loss', 'no_test']),
                            'pos': r.random(), 'real': r.random()}
        if r.random() < 0.35:
            op['fault'] = {'kind': r.choice(FAULTS), 'pos': r.random(),
                           'frac': r.random()}
        ops.append(op)
    scn['ops'] = ops
    if any(op['op'] == 'uq_report' for op in ops) and r.random() < 0.7:
        scn['n_feat'] = max(scn['n_feat'], 6)
    return scn


def shrink(scn):
    for key, val in (('foreign', False), ('zero', False), ('nan', False),
                     ('listing', 'sorted'), ('n_feat', 1)):
        if scn[key] != val:
            new = build.snapshot(scn)
            new[key] = val
            if key == 'n_feat':
                for op in new['ops']:
                    op['n_lab'] = 1
            yield new
    if len(scn['models']) > 1:
        for i in range(len(scn['models'])):
            new = build.snapshot(scn)
            del new['models'][i]
            for op in new['ops']:
                op['m'] = min(op['m'], len(new['models']) - 1)
            yield new
    for i, op in enumerate(scn['ops']):
        for key in ('fault', 'damage'):
            if key in op:
                new = build.snapshot(scn)
                del new['ops'][i][key]
                yield new
    for m in range(len(scn['models'])):
        for key, val in (('n_real', 1), ('hole', None)):
            if scn['models'][m][key] != val:
                new = build.snapshot(scn)
                new['models'][m][key] = val
                if key == 'n_real' and new['models'][m]['hole']:
                    new['models'][m]['hole'] = None
                yield new


# =============================================================================
def capture(box):
    """Replace the drawing functions wherever they are bound."""
    import ioput.plots as plots
    import model_architectures.procedures.model_prediction as predictions
    import user_scripts.convergence_analyses.plot_noisy_convergence_analysis \
        as noisy
    undo = []
    for name in PLOTS:
        owner = next(x for x in (plots, predictions, noisy)
                     if hasattr(x, name))
        real = getattr(owner, name)
        sig = inspect.signature(real)

        def stub(*args, _name=name, _sig=sig, **kwargs):
            got = _sig.bind(*args, **kwargs)
            box.append((_name, build.snapshot(dict(got.arguments))))
            return None, None
        for module in list(sys.modules.values()):
            if (getattr(module, '__file__', None) or '').startswith(env.SRC):
                for attr, val in list(vars(module).items()):
                    if val is real:
                        setattr(module, attr, stub)
                        undo.append((module, attr, real))
    return undo


def values(seed, *key):
    return np.random.Generator(np.random.PCG64([h64(seed, *key) % 2**63]))


class World:
    def __init__(self, ctx, fs):
        from time_series_data.time_dataset import (TimeSeriesDatasetInMemory,
                                                   save_dataset)
        self.ctx, self.fs, self.scn = ctx, fs, ctx.scn
        scn = ctx.scn
        self.save_dataset, self.Dataset = save_dataset, \
            TimeSeriesDatasetInMemory
        self.root = os.path.join(ctx.scratch, 'case')
        self.n_new = 0
        self.n_time = [2 + (3*i + scn['seed']) % 4
                       for i in range(scn['n_test'])]
        self.targets = []
        self.time = []
        for i in range(scn['n_test']):
            gen = values(scn['seed'], 'target', i)
            t = gen.uniform(-3.0, 3.0, (self.n_time[i], scn['n_feat']))
            if scn['zero']:
                t[:, -1] = 0.0
            self.targets.append(torch.tensor(t, dtype=torch.float32))
            self.time.append(torch.tensor(
                gen.uniform(0.1, 1.0, (self.n_time[i], 1)).cumsum(axis=0),
                dtype=torch.float32))
        self.models = []
        os.mkdir(self.root)
        for m, spec in enumerate(scn['models']):
            self.models.append(self.make_model(m, spec))

    def sample_path(self, d, i):
        return os.path.join(d, f'prediction_sample_{i}.pkl')

    def predictions(self, *key):
        """Prediction of every sample by one model."""
        out = []
        for i in range(self.scn['n_test']):
            gen = values(self.scn['seed'], 'pred', *key, i)
            p = gen.uniform(-3.0, 3.0, (self.n_time[i], self.scn['n_feat']))
            if self.scn['nan'] and i == 0:
                p[0, 0] = np.nan
            out.append(torch.tensor(p, dtype=torch.float32))
        return out

    def write_set(self, d, ids, pred, loss):
        from model_architectures.procedures.model_prediction import (
            save_sample_predictions, write_prediction_summary_file)
        os.makedirs(d)
        for i in ids:
            save_sample_predictions(d, i, {
                'features_out': pred[i], 'targets': self.targets[i],
                'prediction_loss_data': ('mse', {}, loss + i, False)})
        write_prediction_summary_file(
            d, 'cpu', 0, 'model', 'best', 'mse', {}, False, None, list(ids),
            loss, 3.0, 1.0)
        if self.scn['foreign']:
            self.ctx.probe('foreign_files')
            for name in ('prediction_sample_0_old.pkl', 'notes.txt',
                         'prediction_sample_1.pkl.tmp', 'summary_old.dat',
                         'xprediction_sample_0.pkl',
                         'prediction_sample_a.pkl'):
                with open(os.path.join(d, name), 'wb') as f:
                    f.write(b'foreign')
            os.mkdir(os.path.join(d, 'plots'))

    def data_dir(self, d, n, tag, samples=None):
        os.makedirs(d)
        if samples is None:
            samples = build.samples(self.scn['seed'], n, n_time=2, tag=tag)
        path = self.save_dataset(self.Dataset(samples), 'ss_paths_dataset', d,
                                 is_append_n_sample=True)
        if self.scn['foreign']:
            for name in (f'ss_paths_dataset_n{n}.pkl.bak', 'plots.txt',
                         f'old_ss_paths_dataset_n{n}.pkl',
                         f'ss_paths_dataset_n{n}_old.pkl'):
                with open(os.path.join(d, name), 'wb') as f:
                    f.write(b'foreign')
        return path

    def test_samples(self):
        return [{'features_in': torch.zeros(self.n_time[i], 2),
                 'features_out': self.targets[i], 'time_hist': self.time[i]}
                for i in range(self.scn['n_test'])]

    def make_model(self, m, spec):
        j = os.path.join
        base = j(self.root, f'n{spec["size"]}')
        w = {'base': base, 'size': spec['size'], 'have': spec['have'],
             'train': j(base, '1_training_dataset'),
             'test': j(base, '5_testing_id_dataset'),
             'pred': j(base, '7_prediction', TESTING, 'prediction_set_0'),
             'uq': j(base, 'uncertainty_quantification')}
        w['train_file'] = self.data_dir(w['train'], spec['size'], m)
        w['test_file'] = self.data_dir(w['test'], self.scn['n_test'], 0,
                                       self.test_samples())
        w['set'] = self.predictions(m, 'one')
        w['loss'] = 1.25 + m
        self.write_set(w['pred'], spec['have'], w['set'], w['loss'])
        w['real'] = []
        for k in range(spec['n_real']):
            d = j(w['uq'], f'model_{k}', '7_prediction', TESTING)
            pred = self.predictions(m, 'real', k)
            ids = [i for i in range(self.scn['n_test'])
                   if spec['hole'] != [k, i]]
            self.write_set(d, ids, pred, 10.0*m + k + 0.5)
            par = self.parameters(m, k)
            self.write_parameters(j(w['uq'], f'model_{k}', '3_model'), par)
            w['real'].append({'dir': d, 'set': pred, 'ids': ids,
                              'loss': 10.0*m + k + 0.5, 'par': par})
        if self.scn['foreign']:
            for name in ('model_0_old', 'model_1.bak', 'xmodel_0', 'model_a'):
                d = j(w['uq'], name, '7_prediction', TESTING)
                self.write_set(d, range(self.scn['n_test']),
                               self.predictions(m, name), 99.0)
        w['par'] = self.parameters(m, 'one')
        self.write_parameters(j(base, '3_model'), w['par'])
        return w

    def parameters(self, *key):
        gen = values(self.scn['seed'], 'par', *key)
        return {k: float(gen.uniform(0.5, 2.0)) for k in ('E', 'v', 's0')}

    def write_parameters(self, d, par):
        from model_architectures.rc_base_model.train.training import \
            save_best_parameters
        os.makedirs(d)

        class Model:
            model_directory = d
        save_best_parameters(Model, par, {k: (0.0, 3.0) for k in par})

    def new_dir(self):
        d = os.path.join(self.ctx.scratch, f'out_{self.n_new}')
        self.n_new += 1
        os.mkdir(d)
        return d


# =============================================================================
class Refused(Exception):
    pass


def ref_metrics(w, ids, pred, metrics):
    """Reference mean metrics, written from the definition."""
    out = {}
    for metric in metrics:
        rows = []
        for i in ids:
            p = pred[i].double().numpy()
            t = w.targets[i].double().numpy()
            rmse = np.sqrt(((p - t)**2).mean(axis=0))
            if metric == 'nrmse':
                with np.errstate(divide='ignore'):
                    rmse = rmse/np.abs(t).mean(axis=0)
            rows.append(rmse)
        out[metric] = np.mean(rows, axis=0) if rows else np.zeros(0)
    return out


def same(got, want, rtol=2e-5):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    return got.shape == want.shape and np.allclose(
        got, want, rtol=rtol, atol=1e-6, equal_nan=True)


def check_metrics(ctx, got, want, what, rtol=2e-5):
    ctx.check(list(got) and set(got) == set(want), 'wrong-metrics',
              lambda: f'{what} holds the metrics {list(got)}, requested were '
              f'{list(want)}')
    for key in want:
        ctx.check(same(got[key], want[key], rtol), 'wrong-metrics',
                  lambda: f'{what}: mean {key} {np.asarray(got[key])}, the '
                  f'prediction files give {want[key]}')
        if not np.isfinite(want[key]).all():
            ctx.probe('undefined_metric')


def parse_metrics(path):
    """Blocks of a metrics file, parsed independently."""
    with open(path) as f:
        text = f.read()
    blocks = []
    for part in text.split('> Process:')[1:]:
        label = part.splitlines()[0].strip()
        n = int(re.search(r'n_sample = (\d+)', part).group(1))
        vals = {}
        for name, nums in re.findall(r'> (\w+): \[([^]]*)\]', part):
            vals[name] = [float(x) for x in nums.split(',') if x.strip()]
        blocks.append((label, n, vals))
    return blocks


# =============================================================================
class Op:
    """One request: what it must return, or that it must be refused."""

    def __init__(self, w, op, box):
        self.w, self.op, self.box, self.ctx = w, op, box, w.ctx
        self.m = w.models[op['m']]
        self.labels = [f'c{i}' for i in range(op['n_lab'])]
        if op['op'] in ('uq_plots', 'uq_report'):
            # The only components these compare
            self.op = op = dict(op, type='stress_comps', two=False)
        self.bad = set()          # files that cannot be used
        self.writes = False

    # ------------------------------------------------------------ damage
    def damage(self):
        dam = self.op.get('damage')
        if not dam:
            return lambda: None
        kind = dam['kind']
        if kind == 'no_test':
            path = self.m['test_file']
            os.rename(path, path + '_away')
            self.bad.add(('test', self.op['m']))
            self.ctx.probe('damaged')
            return lambda: os.rename(path + '_away', path)
        if dam['real'] < 0.5:
            d, tag = self.m['pred'], ('pred', self.op['m'])
            ids = self.m['have']
        else:
            k = int(dam['real']*2*len(self.m['real'])) % len(self.m['real'])
            d, tag = self.m['real'][k]['dir'], ('real', self.op['m'], k)
            ids = self.m['real'][k]['ids']
        if kind in ('no_summary', 'no_loss'):
            path = os.path.join(d, 'summary.dat')
            self.bad.add(tag + ('summary',))
        else:
            if not ids:
                return lambda: None
            i = ids[int(dam['pos']*len(ids))]
            path = self.w.sample_path(d, i)
            self.bad.add(tag + (i,))
        with open(path, 'rb') as f:
            data = f.read()
        self.ctx.probe('damaged')
        if kind in ('remove', 'no_summary'):
            os.remove(path)
            if kind == 'remove':
                self.bad = {x + ('gone',) for x in self.bad}
        elif kind == 'no_targets':
            res = pickle.loads(data)
            res['targets'] = None
            with open(path, 'wb') as f:
                pickle.dump(res, f)
        else:
            keep = b'' if kind == 'empty' else data[:len(data)//2]
            if kind == 'no_loss':
                keep = b'\n'.join(x for x in data.split(b'\n')
                                  if b'Avg. prediction loss' not in x)
            with open(path, 'wb') as f:
                f.write(keep)

        def undo():
            with open(path, 'wb') as f:
                f.write(data)
        return undo

    def set_ids(self, tag, ids):
        """Sample ids found in a prediction set."""
        return [i for i in ids if tag + (i, 'gone') not in self.bad]

    def unusable(self, tag, ids):
        return any(tag + (i,) in self.bad or tag + (i, 'gone') in self.bad
                   for i in ids)

    # ---------------------------------------------------------- requests
    def expect_metrics(self, m_i):
        m = self.w.models[m_i]
        ids = self.set_ids(('pred', m_i), m['have'])
        if self.unusable(('pred', m_i), ids):
            raise Refused()
        return ids, ref_metrics(self.w, ids, m['set'], self.op['metrics'])

    def run_metrics(self):
        from utilities.output_prediction_metrics import (
            compute_directory_prediction_metrics,
            read_mean_metrics_results_file)
        self.writes = self.op['save']
        want = lambda: self.expect_metrics(self.op['m'])

        def call():
            return compute_directory_prediction_metrics(
                self.m['pred'], list(self.op['metrics']),
                process_label='one', is_save_file=self.op['save'])

        def verify(out, want):
            ids, ref = want
            n, res = out
            self.ctx.probe('metrics')
            self.ctx.check(n == len(ids), 'wrong-count', lambda: f'{n} samples '
                           f'were counted, there are {len(ids)}')
            check_metrics(self.ctx, res, ref, 'result')
            path = os.path.join(self.m['pred'], 'prediction_metrics',
                                'mean_prediction_metrics.dat')
            if self.op['save']:
                self.ctx.probe('metrics_saved')
                got = self.ctx.must('read metrics file',
                                    read_mean_metrics_results_file, path)
                check_metrics(self.ctx, got, {
                    k: v.numpy() for k, v in res.items()},
                    'the stored file', 1e-6)
                blocks = parse_metrics(path)
                self.ctx.check([(b[0], b[1]) for b in blocks] == [
                    ('one', len(ids))], 'wrong-file', lambda: 'the metrics '
                    f'file holds {[b[:2] for b in blocks]}')
                shutil.rmtree(os.path.dirname(path))
            else:
                self.ctx.check(not os.path.exists(path), 'unrequested-file',
                               'metrics were stored without request')
        return want, call, verify

    def run_processes(self):
        from utilities.output_prediction_metrics import (
            compute_processes_prediction_metrics,
            read_mean_metrics_results_file)
        self.writes = self.op['save']
        box = {}

        def want():
            return {f'n{m["size"]}': self.expect_metrics(i)
                    for i, m in enumerate(self.w.models)}

        def call():
            box['d'] = self.w.new_dir()
            return compute_processes_prediction_metrics(
                {f'n{m["size"]}': m['pred'] for m in self.w.models},
                list(self.op['metrics']), save_dir=box['d'],
                is_save_file=self.op['save'])

        def verify(out, want):
            self.ctx.probe('processes')
            self.ctx.check(list(out) == list(want), 'wrong-processes',
                           lambda: f'results of {list(out)} for {list(want)}')
            for key, (ids, ref) in want.items():
                self.ctx.check(out[key]['n_sample'] == len(ids), 'wrong-count',
                               lambda: f'{out[key]["n_sample"]} samples of '
                               f'{key}, there are {len(ids)}')
                check_metrics(self.ctx, out[key]['mean_metrics_results'], ref,
                              f'result of {key}')
            if not self.op['save']:
                return
            path = os.path.join(box['d'], 'mean_prediction_metrics.dat')
            blocks = parse_metrics(path)
            self.ctx.check([b[:2] for b in blocks] == [
                (k, len(v[0])) for k, v in want.items()], 'wrong-file',
                lambda: f'the metrics file holds {[b[:2] for b in blocks]}')
            for (key, n, vals), (ids, ref) in zip(blocks, want.values()):
                check_metrics(self.ctx, vals, ref, f'stored {key}')
            seen = set()
            for key, (ids, ref) in want.items():
                if len(ids) not in seen:
                    seen.add(len(ids))
                    got = self.ctx.must(
                        'read metrics file', read_mean_metrics_results_file,
                        path, n_sample=len(ids))
                    check_metrics(self.ctx, got, ref, f'stored {key} (by '
                                  'number of samples)')
        return want, call, verify

    def chosen(self, have):
        ids = self.op['ids']
        return sorted(have) if ids is None else ids

    def run_arrays(self):
        from model_architectures.materials.process_predictions import \
            build_prediction_data_arrays
        tag = ('pred', self.op['m'])

        def want():
            have = self.set_ids(tag, self.m['have'])
            ids = self.chosen(have)
            if not have or not set(ids) <= set(have) or self.unusable(
                    tag, ids):
                raise Refused()
            return ids

        def call():
            return build_prediction_data_arrays(
                self.m['pred'], self.op['type'], self.labels,
                samples_ids='all' if self.op['ids'] is None
                else list(self.op['ids']))

        def verify(out, ids):
            self.ctx.probe('arrays')
            self.count_ids(ids)
            self.arrays(out, ids, self.m)
        return want, call, verify

    def arrays(self, out, ids, m):
        self.ctx.check(len(out) == len(self.labels), 'wrong-data', lambda:
                       f'{len(out)} arrays for {len(self.labels)} components')
        for c in range(len(out)):
            ref = np.concatenate([np.stack(
                (self.w.targets[i][:, c].numpy(), m['set'][i][:, c].numpy()),
                axis=1) for i in ids])
            self.ctx.check(same(out[c], ref, 1e-6), 'wrong-data', lambda:
                           f'component {c} of samples {ids} is '
                           f'{np.asarray(out[c]).tolist()}, stored are '
                           f'{ref.tolist()}')

    def count_ids(self, ids):
        self.ctx.probe('all_ids' if self.op['ids'] is None else 'chosen_ids')
        if ids and max(ids) > 9:
            self.ctx.probe('id_above_nine')

    def sources(self, m_i, uq):
        m = self.w.models[m_i]
        if uq:
            return [(('real', m_i, k), x) for k, x in enumerate(m['real'])]
        return [(('pred', m_i), {'set': m['set'], 'ids': m['have']})]

    def series_ids(self, m_i, uq, need_all=False):
        """Ids of the time series data of one model, or a refusal."""
        src = self.sources(m_i, uq)
        first = self.set_ids(src[0][0], src[0][1]['ids'])
        ids = self.chosen(first)
        if need_all and self.op['ids'] is None and len(
                first) < self.w.scn['n_test']:
            raise Refused()
        if not first or not ids or max(ids) >= self.w.scn['n_test']:
            raise Refused()
        for tag, x in src:
            if not set(ids) <= set(self.set_ids(tag, x['ids'])):
                raise Refused()
            if self.unusable(tag, ids):
                raise Refused()
        return ids

    def ref_series(self, m_i, uq, i, c):
        cols = [self.w.time[i].reshape(-1).numpy(),
                self.w.targets[i][:, c].numpy()]
        cols += [x['set'][i][:, c].numpy() for _, x in self.sources(m_i, uq)]
        return np.stack(cols, axis=1)

    def run_series(self):
        from model_architectures.materials.process_predictions import \
            build_time_series_predictions_data
        uq = self.op['path']

        def want():
            if ('test', self.op['m']) in self.bad:
                raise Refused()
            return self.series_ids(self.op['m'], uq)

        def call():
            return build_time_series_predictions_data(
                self.m['test_file'], self.m['pred'], self.op['type'],
                self.labels, samples_ids='all' if self.op['ids'] is None
                else list(self.op['ids']), is_uncertainty_quantification=uq)

        def verify(out, ids):
            self.ctx.probe('series_uq' if uq else 'series')
            self.count_ids(ids)
            self.ctx.check(len(out) == len(self.labels), 'wrong-data', 'wrong '
                           'number of components')
            for c, comp in enumerate(out):
                self.ctx.check(list(comp) == list(dict.fromkeys(
                    str(i) for i in ids)), 'wrong-data', lambda:
                    f'samples {list(comp)} instead of {ids}')
                for i in ids:
                    ref = self.ref_series(self.op['m'], uq, i, c)
                    self.ctx.check(same(comp[str(i)], ref, 1e-6),
                                   'wrong-data', lambda: f'component {c} of '
                                   f'sample {i} is {comp[str(i)].tolist()}, '
                                   f'stored are {ref.tolist()}')
        return want, call, verify

    def plots(self, name):
        return [x[1] for x in self.box if x[0] == name]

    def stored(self, d, filename):
        path = os.path.join(d, 'plot_data', filename + '_data.pkl')
        with open(path, 'rb') as f:
            return pickle.load(f)

    def run_loss_conv(self, uq=False):
        from model_architectures.procedures import convergence_plots as cp
        self.writes = self.op['save']
        box = {}

        def want():
            rows = []
            for i, m in enumerate(self.w.models):
                if uq:
                    row = []
                    for k, x in enumerate(m['real']):
                        if ('real', i, k, 'summary') in self.bad:
                            raise Refused()
                        row += [m['size'], x['loss']]
                else:
                    if ('pred', i, 'summary') in self.bad:
                        raise Refused()
                    row = [m['size'], m['loss']]
                rows.append(row)
            if len({len(x) for x in rows}) > 1:
                return None
            return rows

        def call():
            box['d'] = self.w.new_dir()
            fn = (cp.plot_prediction_loss_convergence_uq if uq
                  else cp.plot_prediction_loss_convergence)
            return fn([m['base'] for m in self.w.models],
                      [m['train'] for m in self.w.models],
                      [m['pred'] for m in self.w.models], filename='conv',
                      save_dir=box['d'], is_save_fig=True,
                      is_save_plot_data=self.op['save'], is_latex=False)

        def verify(out, rows):
            self.ctx.probe('loss_convergence' + ('_uq' if uq else ''))
            got = self.plots('scatter_xy_data')
            self.ctx.check(len(got) == 1 and same(
                np.asarray(got[0]['data_xy'], dtype=float), rows, 1e-7),
                'wrong-convergence', lambda: f'losses over training sizes '
                f'{[np.asarray(x["data_xy"]).tolist() for x in got]}, stored '
                f'are {rows}')
            if self.op['save']:
                data = self.stored(box['d'], 'conv')
                self.ctx.check(
                    same(np.asarray(data['data_xy'], dtype=float), rows, 1e-7)
                    and data['n_models'] == len(self.w.models),
                    'wrong-convergence', lambda: f'stored convergence data '
                    f'{data}, expected {rows}')
        return want, call, verify

    def run_loss_conv_uq(self):
        return self.run_loss_conv(uq=True)

    def run_noise_conv(self):
        """Losses over training sizes for several noise cases."""
        from user_scripts.convergence_analyses import \
            plot_noisy_convergence_analysis as cp
        models = self.w.models
        n_case = len(models) if self.op['two'] else 1
        base_want = self.run_loss_conv(uq=True)[0]
        self.writes = False

        def want():
            rows = base_want()
            if rows is None or n_case == 1:
                return rows
            return [sum(rows, [])]

        def call():
            return cp.generate_convergence_plots(
                n_case, [f'case {i}' for i in range(n_case)],
                [m['base'] for m in models], [m['train'] for m in models],
                [m['test'] for m in models], [m['pred'] for m in models],
                is_uncertainty_quantification=True, save_dir=self.w.new_dir(),
                is_save_fig=True, is_latex=False)

        def verify(out, rows):
            self.ctx.probe('noise_convergence')
            got = self.plots('scatter_xy_data_noise_cases')
            self.ctx.check(len(got) == 1 and same(
                np.asarray(got[0]['data_xy'], dtype=float), rows, 1e-7)
                and got[0]['n_noise_case'] == n_case
                and got[0]['n_model_sample'] == len(models[-1]['real']),
                'wrong-convergence', lambda: 'losses over noise cases '
                f'{[np.asarray(x["data_xy"]).tolist() for x in got]}, stored '
                f'are {rows}')
        return want, call, verify

    def types(self):
        kinds = {self.op['type']: self.labels}
        if self.op['two']:
            other = {'stress_comps': 'p_strain_comps',
                     'p_strain_comps': 'stress_comps'}[self.op['type']]
            kinds[other] = self.labels[:1]
        return kinds

    def run_ts_conv(self, uq=False):
        from model_architectures.procedures import convergence_plots as cp
        path = uq or self.op['path']
        models = self.w.models

        def want():
            if ('test', self.op['m']) in self.bad:
                raise Refused()
            out = []
            for i, m in enumerate(models):
                if path:
                    out.append(self.series_ids(i, uq, need_all=True))
                else:
                    tag = ('pred', i)
                    have = self.set_ids(tag, m['have'])
                    ids = self.chosen(have)
                    if not have or not set(ids) <= set(have) or \
                            self.unusable(tag, ids):
                        raise Refused()
                    out.append(ids)
            return out

        def call():
            fn = (cp.plot_time_series_convergence_uq if uq
                  else cp.plot_time_series_convergence)
            return fn([m['base'] for m in models],
                      [m['train'] for m in models],
                      [m['test'] for m in models],
                      [m['pred'] for m in models], self.types(),
                      plot_type=('time_series_path' if path
                                 else 'time_series_scatter'),
                      samples_ids='all' if self.op['ids'] is None
                      else list(self.op['ids']), filename='ts',
                      save_dir=self.w.new_dir(), is_save_fig=True,
                      is_latex=False)

        def verify(out, ids):
            self.ctx.probe('time_series_convergence' + ('_uq' if uq else ''))
            if self.op['two']:
                self.ctx.probe('two_prediction_types')
            if path:
                got = self.plots('plot_time_series_prediction')
                ref = []
                for labels in self.types().values():
                    for c in range(len(labels)):
                        for i in ids[0]:
                            sets = {'Ground-Truth': self.ref_series(
                                0, uq, i, c)[:, :2]}
                            for k, m in enumerate(models):
                                sets[f'N = {m["size"]}'] = np.delete(
                                    self.ref_series(k, uq, i, c), 1, axis=1)
                            ref.append((f'c{c}_path_sample_{i}', sets))
            else:
                got = self.plots('plot_truth_vs_prediction')
                ref = []
                for labels in self.types().values():
                    for c in range(len(labels)):
                        sets = {}
                        for k, m in enumerate(models):
                            sets[f'N = {m["size"]}'] = np.concatenate(
                                [self.ref_series(k, False, i, c)[:, 1:3]
                                 for i in ids[k]])
                        ref.append((f'c{c}_scatter', sets))
            self.compare_sets(got, ref)
        return want, call, verify

    def compare_sets(self, got, ref):
        self.ctx.check(len(got) == len(ref), 'wrong-comparison', lambda:
                       f'{len(got)} comparisons instead of {len(ref)}')
        for g, (name, sets) in zip(got, ref):
            have = g['prediction_sets']
            self.ctx.check(g['filename'].endswith(name), 'wrong-comparison',
                           lambda: f'{g["filename"]} instead of {name}')
            self.ctx.check(set(have) == set(sets), 'wrong-comparison', lambda:
                           f'compared are {list(have)} instead of {list(sets)}')
            for key in sets:
                self.ctx.check(same(have[key], sets[key], 1e-6),
                               'wrong-comparison', lambda: f'{name}: {key} is '
                               f'{np.asarray(have[key]).tolist()}, stored are '
                               f'{sets[key].tolist()}')

    def run_ts_conv_uq(self):
        return self.run_ts_conv(uq=True)

    def run_par_conv(self):
        from model_architectures.procedures import convergence_plots as cp

        def call():
            return cp.plot_best_parameters_convergence(
                [m['base'] for m in self.w.models],
                [m['train'] for m in self.w.models],
                save_dir=self.w.new_dir(), is_save_fig=True, is_latex=False)

        def verify(out, _):
            self.ctx.probe('parameters_convergence')
            got = self.plots('scatter_xy_data')
            names = list(self.m['par'])
            self.ctx.check([x['y_label'] for x in got] == names,
                           'wrong-convergence', lambda: 'parameters '
                           f'{[x["y_label"] for x in got]}')
            for x, name in zip(got, names):
                ref = [[m['size'], m['par'][name]] for m in self.w.models]
                self.ctx.check(same(np.asarray(x['data_xy'], dtype=float), ref,
                                    1e-7), 'wrong-convergence', lambda:
                               f'{name}: {x["data_xy"].tolist()}, stored '
                               f'are {ref}')
        return (lambda: None), call, verify

    def run_metric_conv(self):
        from utilities.output_prediction_metrics import \
            plot_prediction_metrics_convergence
        self.writes = self.op['save']
        box = {}
        res = {}
        order = sorted(self.w.models, key=lambda m: h64(m['size'],
                                                        self.w.scn['seed']))
        for m in order:
            i = self.w.models.index(m)
            ref = ref_metrics(self.w, m['have'], m['set'], self.op['metrics'])
            res[f'n{m["size"]}'] = {
                'n_sample': len(m['have']), 'mean_metrics_results': {
                    k: torch.tensor(v) for k, v in ref.items()}}
            if self.op['extra']:
                res[f'reference_{i}'] = res[f'n{m["size"]}']

        def call():
            box['d'] = self.w.new_dir()
            return plot_prediction_metrics_convergence(
                res, list(self.op['metrics']), save_dir=box['d'],
                is_save_plot_data=self.op['save'], is_save_fig=True)

        def verify(out, _):
            self.ctx.probe('metrics_convergence')
            got = self.plots('plot_xy_data')
            self.ctx.check(len(got) == len(self.op['metrics']),
                           'wrong-convergence', 'one plot per metric expected')
            for x, metric in zip(got, self.op['metrics']):
                rows = []
                for m in sorted(self.w.models, key=lambda m: m['size']):
                    vals = res[f'n{m["size"]}']['mean_metrics_results'][metric]
                    rows.append([y for v in vals.tolist()
                                 for y in (m['size'], v)])
                data = [x['data_xy']]
                if self.op['save']:
                    data.append(self.stored(
                        box['d'], f'mean_{metric}_convergence')['data_xy'])
                for d in data:
                    self.ctx.check(same(d, rows, 1e-6), 'wrong-convergence',
                                   lambda: f'{metric} over training size: '
                                   f'{d.tolist()}, results are {rows}')
        return (lambda: None), call, verify

    # ------------------------------------------------------ realisations
    def run_uq_plots(self):
        fam = self.op['family']
        mod = family(fam)
        if fam != 'rnn':
            self.ctx.probe('constitutive_family' if fam == 'rc'
                           else 'hybrid_family')
        m = self.m
        dirs = [os.path.join(m['uq'], f'model_{k}')
                for k in range(len(m['real']))]
        preds = [x['dir'] for x in m['real']]
        what = self.op['n']
        box = {}
        self.writes = what == 3 and fam == 'rc'

        def want():
            if what == 1:
                if any(x[0] == 'real' and x[3] == 'summary'
                       for x in self.bad):
                    raise Refused()
            elif what == 2 or fam != 'rc':
                if ('test', self.op['m']) in self.bad:
                    raise Refused()
                ids = self.series_ids(self.op['m'], True)
                if self.op['ids'] is None:
                    for tag, x in self.sources(self.op['m'], True):
                        if len(self.set_ids(tag, x['ids'])) < \
                                self.w.scn['n_test'] or self.unusable(
                                    tag, x['ids']):
                            raise Refused()
                return ids

        def call():
            box['d'] = self.w.new_dir()
            kw = dict(save_dir=box['d'], is_save_fig=True, is_latex=False)
            if what == 1:
                return mod.plot_prediction_loss_uq(dirs, preds, **kw)
            if what == 3 and fam == 'rc':
                return mod.plot_best_parameters_uq(
                    dirs, box['d'], filename='uq', **kw)
            return mod.plot_time_series_uq(
                dirs, [m['test']]*len(dirs), preds, self.types(),
                samples_ids='all' if self.op['ids'] is None
                else list(self.op['ids']), **kw)

        def verify(out, ids):
            self.ctx.probe('realisation_plots')
            if what == 1:
                got = self.plots('plot_boxplots')
                ref = [[x['loss']] for x in m['real']]
                self.ctx.check(len(got) == 1 and same(
                    got[0]['data_boxplots'], ref, 1e-7), 'wrong-realisations',
                    lambda: f'losses {got[0]["data_boxplots"].tolist()}, '
                    f'stored are {ref}')
            elif what == 3 and fam == 'rc':
                with open(os.path.join(box['d'], 'uq_data.pkl'), 'rb') as f:
                    rec = pickle.load(f)
                ref = [list(x['par'].values()) for x in m['real']]
                self.ctx.check(
                    list(rec['model_parameters_names']) == list(
                        m['real'][0]['par']) and same(
                            rec['samples_parameters_data'], ref, 1e-7),
                    'wrong-realisations', lambda: f'parameters {rec}, stored '
                    f'are {ref}')
            else:
                ref = []
                for labels in self.types().values():
                    for c in range(len(labels)):
                        for i in ids:
                            x = self.ref_series(self.op['m'], True, i, c)
                            ref.append((f'c{c}_path_sample_{i}', {
                                'Ground-Truth': x[:, :2],
                                'Realizations': np.delete(x, 1, axis=1)}))
                self.compare_sets(self.plots('plot_time_series_prediction'),
                                  ref)
        return want, call, verify

    def run_uq_report(self):
        """The whole report over the realisations of one model."""
        if self.w.scn['n_feat'] < 6:
            return self.run_uq_plots()
        fam, m = self.op['family'], self.m
        mod = family(fam)
        first = 3 if fam == 'rc' else 5
        self.op = dict(self.op, ids=list(range(first)))
        comps = ['11', '22', '33', '12', '23', '13']

        def want():
            if ('test', self.op['m']) in self.bad or any(
                    x[0] == 'real' and x[3] == 'summary' for x in self.bad):
                raise Refused()
            return self.series_ids(self.op['m'], True)

        def call():
            return mod.gen_model_uq_plots(
                m['uq'], len(m['real']), m['test'], TESTING, is_save_fig=True,
                is_latex=False)

        def verify(out, ids):
            self.ctx.probe('realisation_report')
            if len(m['real']) > 10:
                self.ctx.probe('many_realisations')
            ref = [[x['loss']] for x in m['real']]
            got = [x['data_boxplots'] for x in self.plots('plot_boxplots')]
            self.ctx.check(any(same(x, ref, 1e-7) for x in got),
                           'wrong-realisations', lambda: f'losses {got}, '
                           f'stored are {ref}')
            if fam == 'rc':
                d = os.path.join(m['uq'], 'plots', 'data')
                with open(os.path.join(d, [x for x in sorted(os.listdir(d))
                                           if x.endswith('.pkl')][0]),
                          'rb') as f:
                    rec = pickle.load(f)
                ref = [list(x['par'].values()) for x in m['real']]
                self.ctx.check(same(rec['samples_parameters_data'], ref, 1e-7),
                               'wrong-realisations', lambda: f'parameters '
                               f'{rec}, stored are {ref}')
            ref = []
            for c, label in enumerate(comps):
                for i in ids:
                    x = self.ref_series(self.op['m'], True, i, c)
                    ref.append((f'stress_{label}_path_sample_{i}', {
                        'Ground-Truth': x[:, :2],
                        'Realizations': np.delete(x, 1, axis=1)}))
            self.compare_sets(self.plots('plot_time_series_prediction'), ref)
        return want, call, verify


def family(name):
    import importlib
    return importlib.import_module(
        f'user_scripts.local_model_update.{name}_material_model.'
        'uncertainty_quantification')


# =============================================================================
def attempt(ctx, fs, fn):
    try:
        status, value = 'ok', fn()
    except SimCrash:
        status, value = 'crash', None
    except (Violation,):
        raise
    except (Exception, KeyboardInterrupt) as exc:
        status, value = 'err', exc
    fs.disarm()
    if fs.dead:
        status = 'crash'
        fs.restart()
    return status, value


def fired(ctx):
    return sum(v for k, v in ctx.faults.items() if '@' in k)


def request(w, op, box):
    ctx, fs = w.ctx, w.fs
    o = Op(w, op, box)
    want, call, verify = getattr(o, 'run_' + op['op'])()
    undo = o.damage()
    try:
        expected = want()
        refuse = False
    except Refused:
        expected, refuse = None, True
    mixed = op['op'] in ('loss_conv_uq', 'noise_conv') and not refuse and expected is None
    before = build.tree(w.root)
    if op.get('fault') and o.writes and not refuse:
        fs.arm({int(op['fault']['pos']*(8 if op['op'] == 'metrics' else 6)):
                op['fault']})
    n = fired(ctx)
    del box[:]
    status, value = attempt(ctx, fs, call)
    hit = fired(ctx) > n
    ctx.nontrivial = True
    unchanged(ctx, before, w.root, op['op'])
    if mixed:
        # Models with different numbers of realisations
        undo()
        ctx.state((op['op'], 'mixed'))
        return
    if refuse:
        ctx.check(status == 'err', 'incomplete-accepted', lambda: f'{op} was '
                  f'answered although files are missing or damaged ({o.bad})')
        ctx.probe('refused')
        undo()
        ctx.state((op['op'], 'refused', op.get('damage', {}).get('kind')))
        return
    if status != 'ok':
        if not hit:
            raise Violation('request-failed', f'{op["op"]} raised '
                            f'{type(value).__name__}: {str(value)[:250]}')
        ctx.probe({'crash': 'crash'}.get(
            status, 'interrupt' if isinstance(value, KeyboardInterrupt)
            else 'error'))
        del box[:]
        status, value = attempt(ctx, fs, call)
        if status != 'ok':
            raise Violation('retry-failed', f'repeated {op["op"]} raised '
                            f'{type(value).__name__}: {str(value)[:250]}')
        ctx.probe('retried')
    try:
        verify(value, expected)
    except (OSError, ValueError, EOFError, pickle.UnpicklingError) as exc:
        raise Violation('wrong-file', f'{op["op"]} left an unusable file: '
                        f'{type(exc).__name__}: {str(exc)[:200]}')
    undo()
    ctx.state((op['op'], op['n_lab'], op['ids'], status, hit))


def unchanged(ctx, before, root, what):
    after = build.tree(root)
    for path, data in before.items():
        if 'prediction_metrics' in path:
            continue
        ctx.check(after.get(path) == data, 'source-changed',
                  f'{what} changed or removed {path}')


# =============================================================================
def uq_run(w, op, box):
    """Realisations of a model: each keeps its own model and predictions."""
    from ioput.iostandard import make_directory
    ctx, fs = w.ctx, w.fs
    fam = op['family']
    mod = family(fam)
    m = w.models[op['m']]
    home = w.new_dir()
    j = os.path.join
    uq, model_dir = j(home, 'uq'), j(home, '3_model')
    pred_dir = j(home, '7_prediction', TESTING)
    os.mkdir(model_dir)
    os.makedirs(pred_dir)
    count = {'n': 0}
    trained = []
    if op['train'] and op['extra']:
        # Left over from an earlier run
        os.makedirs(j(uq, 'model_7', '3_model'))
        with open(j(uq, 'model_7', '3_model', 'state'), 'w') as f:
            f.write('old')
    have = {}
    if not op['train']:
        for k in range(op['n']):
            if op['extra'] and k == op['n'] - 1 and k > 0:
                continue          # no model of this realisation
            d = j(uq, f'model_{k}')
            os.makedirs(j(d, '3_model'))
            with open(j(d, '3_model', 'state'), 'w') as f:
                f.write(f'kept {k}')
            have[k] = f'kept {k}'
            for name in (TESTING, 'other'):
                os.makedirs(j(d, '7_prediction', name))
                with open(j(d, '7_prediction', name, 'old'), 'w') as f:
                    f.write('old')

    def train(train_dataset_file_path, model_directory,
              val_dataset_file_path=None, device_type='cpu',
              is_verbose=False):
        ctx.check(train_dataset_file_path == m['train_file'] and
                  os.path.normpath(model_directory) == model_dir,
                  'wrong-training', lambda: 'a realisation was trained on '
                  f'{train_dataset_file_path} in {model_directory}')
        token = f'model {count["n"]}'
        count['n'] += 1
        trained.append(token)
        with open(j(model_directory, 'state'), 'w') as f:
            f.write(token)
        os.makedirs(j(model_directory, 'plots'), exist_ok=True)

    def predict(predict_directory, dataset_file_path, model_directory,
                is_remove_sample_prediction=False, device_type='cpu',
                is_verbose=False):
        ctx.check(dataset_file_path == m['test_file'], 'wrong-prediction',
                  lambda: f'a realisation was tested on {dataset_file_path}')
        with open(j(model_directory, 'state')) as f:
            token = f.read()
        d = make_directory(j(predict_directory, 'prediction_set_0'))
        with open(j(d, 'by'), 'w') as f:
            f.write(token)
        with open(j(d, 'prediction_sample_0.pkl'), 'wb') as f:
            pickle.dump(token, f)
        return d if fam == 'rc' else (d, 0.5)

    names = {'perform_model_standard_training': train,
             'perform_model_prediction': predict}
    undo = []
    for name, stub in names.items():
        real = getattr(mod, name)
        for module in list(sys.modules.values()):
            if (getattr(module, '__file__', None) or '').startswith(env.SRC):
                for attr, val in list(vars(module).items()):
                    if val is real:
                        setattr(module, attr, stub)
                        undo.append((module, attr, real))

    def call():
        return mod.perform_model_uq(
            uq, op['n'], m['train_file'], model_dir, pred_dir, m['test_file'],
            is_model_training=op['train'], device_type='cpu')
    before = build.tree(w.root)
    try:
        if op.get('fault'):
            fs.arm({int(op['fault']['pos']*14*op['n']): op['fault']})
        n = fired(ctx)
        status, value = attempt(ctx, fs, call)
        hit = fired(ctx) > n
        if status != 'ok':
            if not hit:
                raise Violation('request-failed', 'realisations raised '
                                f'{type(value).__name__}: {str(value)[:250]}')
            ctx.probe({'crash': 'crash'}.get(
                status, 'interrupt' if isinstance(value, KeyboardInterrupt)
                else 'error'))
            del trained[:]
            status, value = attempt(ctx, fs, call)
            if status != 'ok':
                raise Violation('retry-failed', 'repeated realisations raised '
                                f'{type(value).__name__}: {str(value)[:250]}')
            ctx.probe('retried')
    finally:
        for module, attr, real in undo:
            setattr(module, attr, real)
    unchanged(ctx, before, w.root, 'a realisation run')
    if op['train']:
        ctx.check(len(trained) == op['n'], 'wrong-realisations',
                  lambda: f'{len(trained)} trainings for {op["n"]}')
        have = dict(enumerate(trained))
    ctx.probe('realisation_run' if op['train'] else 'repredicted')
    got = build.tree(uq)
    want = {}
    for k, token in have.items():
        d = f'model_{k}'
        want[f'{d}/3_model/state'] = token.encode()
        want[f'{d}/7_prediction/{TESTING}/by'] = token.encode()
        want[f'{d}/7_prediction/{TESTING}/prediction_sample_0.pkl'] = \
            pickle.dumps(token)
        if not op['train']:
            want[f'{d}/7_prediction/other/old'] = b'old'
    for path in sorted(set(want) | set(got)):
        ctx.check(path in got, 'wrong-realisations', f'{path} is missing')
        ctx.check(path in want, 'wrong-realisations', f'{path} does not '
                  'belong to this run')
        ctx.check(got[path] == want[path], 'wrong-realisations', lambda:
                  f'{path} holds {got[path][:60]}, not {want[path][:60]}')
    ctx.nontrivial = True
    ctx.state(('uq_run', fam, op['n'], op['train'], hit))


# =============================================================================
def run(ctx):
    import model_architectures.procedures.convergence_plots  # noqa: F401
    import utilities.output_prediction_metrics  # noqa: F401
    for name in ('rnn', 'rc', 'hybrid'):
        family(name)
    torch.set_default_dtype(torch.float32)
    fs = SimFS(ctx.scratch, ctx, listing=ctx.scn['listing'], chunk=512)
    with fs.installed():
        w = World(ctx, fs)
        box = []
        undo = capture(box)
        try:
            for op in ctx.scn['ops']:
                ctx.log('op', op['id'], op['op'])
                if op['op'] == 'uq_run':
                    uq_run(w, op, box)
                else:
                    request(w, op, box)
        finally:
            for module, attr, real in undo:
                setattr(module, attr, real)
