"""P18: data set pruning keeps every sample and prunes the best predicted."""
import contextlib
import inspect
import io
import math
import os
import pickle
import re
import sys

import numpy as np
import torch

from dst import build, env
from dst.core import SimCrash, Violation, h64, hfloat, rng
from dst.vfs import SimFS

RUNS = {'quick': 900, 'thorough': 30000}
RULE = ('one run = one or two pruning processes in the same directory over a '
        'seeded base data set and seeded pruning parameters, with trainings '
        'and predictions that leave known files, foreign files in the base '
        'data set directories, a seeded listing order, and crashes, torn '
        'writes, I/O errors, interrupts or failing trainings at seeded '
        'points followed by a repeated process; non-trivial = at least one '
        'process ran to its end')
PROBES = ('process', 'pruned', 'never_pruned', 'default_parameters',
          'stop:dev', 'stop:ratio', 'stop:test', 'stop:pruned', 'stop:iter',
          'constant', 'proportional', 'unused_tested', 'id_tested',
          'ood_tested', 'models_removed', 'metrics_missing', 'tied_losses',
          'same_size_again', 'second_process', 'empty_split', 'preview',
          'plots', 'display', 'foreign_files', 'crash', 'error', 'interrupt',
          'retried')
STATE_MEASURE = ('digest of (sizes of every iteration, stopping reason, '
                 'fault met)')
REAL = ['miscellaneous/pruning/pruning_dataset',
        'time_series_data/time_dataset (split, save, load, remove, add)',
        'utilities/output_prediction_metrics (mean metrics file)',
        'ioput/iostandard']
STUB = ['disk, listing order, clock', 'training and prediction (each leaves '
        'known files; the losses are seeded)', 'drawing (the data handed to '
        'the plot functions is recorded)']
ASSUMPTIONS = ['training and prediction behave as P03 and P06 state']
SHRINK_LISTS = ('ops',)

FAULTS = ('crash', 'crash_after', 'torn', 'enospc', 'eio', 'intr')
TYPES = ('in_distribution', 'out_distribution', 'unused_data')
STATUS = {'dev': 'Minimum development data set size reached.',
          'ratio': 'Minimum development data set size ratio reached.',
          'test': 'Minimum pruning testing data set size reached.',
          'pruned': 'Maximum pruned samples testing ratio reached.',
          'iter': 'Maximum number of pruning iterations reached.'}


def gen_params(r):
    step = r.choice([(0.7, 0.2, 0.1), (0.5, 0.2, 0.3), (0.4, 0.2, 0.4),
                     (0.6, 0.2, 0.2), (0.34, 0.33, 0.33)])
    it = r.choice([(0.8, 0.2), (0.7, 0.3), (0.5, 0.5), (0.9, 0.1)])
    step = dict(zip(('training', 'validation', 'testing'), step))
    it = dict(zip(('training', 'validation'), it))
    if r.random() < 0.2:
        step = {k: step[k] for k in ('testing', 'training', 'validation')}
    if r.random() < 0.2:
        it = {k: it[k] for k in ('validation', 'training')}
    if r.random() < 0.5:
        kind, par = 'constant', {'n_prun_sample': r.choice([1, 1, 2, 3, 5])}
    else:
        kind, par = 'proportional', {'prun_ratio': r.choice(
            [0.02, 0.05, 0.1, 0.2])}
    return {'n_iter_max': r.choice([0, 1, 3, 4, 5, 6, 8]),
            'prun_scheduler_type': kind, 'prun_scheduler_params': par,
            'n_dev_min': r.choice([1, 5, 5, 8, 8, 10, 20]),
            'ratio_dev_min': r.choice([0.05, 0.05, 0.3, 0.5, 0.8, 0.9]),
            'n_prun_test_min': r.choice([0, 1, 1, 2, 3, 5, 8]),
            'prun_test_ratio_max': r.choice([0.2, 0.5, 0.8, 1.0]),
            'pruning_step_sizes': step, 'pruning_iter_sizes': it}


def gen(seed, tier):
    r = rng(seed, 'gen')
    scn = {'seed': seed, 'listing': r.choice(['shuffle', 'shuffle', 'sorted',
                                              'reverse']),
           'n_full': r.choice([4, 10, 12, 15, 20, 20, 25, 30, 40, 40]),
           'n_test': [r.choice([1, 3]), r.choice([2, 4])],
           'foreign': r.random() < 0.7, 'ops': []}
    for i in range(r.choice([1, 1, 2])):
        op = {'id': i, 'params': gen_params(r),
              'types': r.sample(TYPES, r.randint(1, 3)),
              'remove': r.random() < 0.4, 'metrics': r.random() < 0.8,
              'ties': r.random() < 0.2, 'look': r.random() < 0.6}
        if r.random() < 0.08:
            op['params'] = None
            scn['n_full'] = r.choice([40, 105, 112])
        if r.random() < 0.5:
            op['fault'] = {'kind': r.choice(FAULTS + ('train',)),
                           'pos': r.random(), 'frac': r.random()}
        scn['ops'].append(op)
    return scn


def shrink(scn):
    for key, val in (('foreign', False), ('listing', 'sorted')):
        if scn[key] != val:
            new = build.snapshot(scn)
            new[key] = val
            yield new
    for n in (4, 6, 10, 12, 15, 20):
        if n < scn['n_full']:
            new = build.snapshot(scn)
            new['n_full'] = n
            yield new
    for i, op in enumerate(scn['ops']):
        for key in ('fault',):
            if key in op:
                new = build.snapshot(scn)
                del new['ops'][i][key]
                yield new
        for key, val in (('ties', False), ('remove', False), ('look', False)):
            if op[key] != val:
                new = build.snapshot(scn)
                new['ops'][i][key] = val
                yield new
        if len(op['types']) > 1:
            for t in op['types']:
                new = build.snapshot(scn)
                new['ops'][i]['types'] = [t]
                yield new
        if op['params'] and op['params']['n_iter_max'] > 0:
            new = build.snapshot(scn)
            new['ops'][i]['params']['n_iter_max'] -= 1
            yield new


# =============================================================================
def rebind(real, stub):
    """Replace a function wherever it is bound in the code under test."""
    undo = []
    for module in list(sys.modules.values()):
        if (getattr(module, '__file__', None) or '').startswith(env.SRC):
            for attr, val in list(vars(module).items()):
                if val is real:
                    setattr(module, attr, stub)
                    undo.append((module, attr, real))
    return undo


def sizes_of(n, fractions):
    """Subset sizes of a random split by fractions."""
    out = {k: math.floor(n*f) for k, f in fractions.items()}
    names = list(out)
    for i in range(n - sum(out.values())):
        out[names[i % len(names)]] += 1
    return out


def stop_reason(n_dev, n_full, p):
    """Why no further pruning step is allowed (None: it is)."""
    n_test = sizes_of(n_dev, p['pruning_step_sizes'])['testing']
    n_prun = n_pruned(n_dev, p)
    if n_dev <= p['n_dev_min']:
        return 'dev'
    if n_dev/n_full <= p['ratio_dev_min']:
        return 'ratio'
    if n_test < max(1, p['n_prun_test_min']):
        return 'test'
    if n_prun/n_test > p['prun_test_ratio_max']:
        return 'pruned'
    return None


def n_pruned(n_dev, p):
    if p['prun_scheduler_type'] == 'constant':
        return p['prun_scheduler_params']['n_prun_sample']
    return int(p['prun_scheduler_params']['prun_ratio']*n_dev)


def fired(ctx):
    return sum(ctx.faults.values())


def key_of(sample):
    return int(sample['time_hist'][0, 0])


class World:
    def __init__(self, ctx, fs):
        from time_series_data.time_dataset import (TimeSeriesDatasetInMemory,
                                                   load_dataset, save_dataset)
        self.ctx, self.fs, self.scn = ctx, fs, ctx.scn
        self.load = load_dataset
        self.root = os.path.join(ctx.scratch, 'pruning')
        self.base = os.path.join(self.root, 'base_datasets')
        self.truth = {}
        self.keys = {}
        scn = ctx.scn
        for label, name, n, tag in (
                ('full', '1_training_dataset', scn['n_full'], 0),
                ('in_distribution', '5_testing_id_dataset',
                 scn['n_test'][0], 1),
                ('out_distribution', '6_testing_od_dataset',
                 scn['n_test'][1], 2)):
            d = os.path.join(self.base, name)
            os.makedirs(d)
            samples = build.samples(scn['seed'], n, n_time=2, tag=tag)
            for s in samples:
                s['time_hist'] = s['time_hist'] + 100000.0*tag
                self.truth[key_of(s)] = s
            self.keys[label] = [key_of(s) for s in samples]
            save_dataset(self.stored(samples, label, d),
                         'ss_paths_dataset', d, is_append_n_sample=True)
            if scn['foreign']:
                ctx.probe('foreign_files')
                for extra in (f'ss_paths_dataset_n{n}.pkl.bak', 'notes.txt',
                              f'old_ss_paths_dataset_n{n}.pkl',
                              f'ss_paths_dataset_n{n}_old.pkl'):
                    with open(os.path.join(d, extra), 'wb') as f:
                        f.write(b'foreign')
                os.mkdir(os.path.join(d, 'plots'))
                with open(os.path.join(d, 'plots', 'a.pdf'), 'wb') as f:
                    f.write(b'foreign')
        if scn['foreign']:
            with open(os.path.join(self.root, 'notes.txt'), 'wb') as f:
                f.write(b'foreign')

    def stored(self, samples, label, directory):
        """The samples as one of the kinds of data sets there are."""
        import torch
        from time_series_data.time_dataset import (TimeSeriesDataset,
                                                   TimeSeriesDatasetInMemory)
        kind = int(hfloat(self.scn['seed'], 'kind', label)*8)
        if kind == 0:
            # Samples in files of their own
            self.ctx.probe('file_backed_data_set')
            files = []
            home = directory + '_files'
            os.makedirs(home)
            for i, x in enumerate(samples):
                files.append(os.path.join(home, f'ss_paths_sample_{i}.pt'))
                torch.save(x, files[-1])
            return TimeSeriesDataset(home, files)
        if kind == 1:
            # Part of a larger data set
            self.ctx.probe('subset_data_set')
            more = [dict(x, time_hist=x['time_hist'] + 5e5)
                    for x in samples[:2]]
            return torch.utils.data.Subset(
                TimeSeriesDatasetInMemory(more + samples),
                list(range(len(more), len(more) + len(samples))))
        return TimeSeriesDatasetInMemory(samples)

    def read(self, path):
        """Keys of the samples of a stored data set, contents verified."""
        out = []
        data = self.load(path)
        for i in range(len(data)):
            s = data[i]
            k = key_of(s)
            self.ctx.check(k in self.truth and build.state_equal(
                s, self.truth[k]), 'sample-changed', lambda: 'a data set '
                f'holds a sample that was never given ({path})')
            out.append(k)
        self.ctx.check(len(set(out)) == len(out), 'sample-twice', lambda:
                       f'a data set holds a sample twice ({path})')
        return out


class Model:
    """Reference of one pruning process, followed call by call."""

    def __init__(self, w, op, params, fail_at=None):
        self.w, self.op, self.p = w, op, params
        self.ctx = w.ctx
        self.dev = set(w.keys['full'])
        self.unused = set()
        self.n_full = len(self.dev)
        self.iters = []
        self.expect = 'iter'
        self.reason = None
        self.step = None
        self.token = None
        self.n_train = 0
        self.fail_at = fail_at

    def loss(self, key):
        v = hfloat(self.w.scn['seed'], 'loss', len(self.iters), key)
        return round(v*3) if self.op['ties'] else v

    # ---------------------------------------------------------------- training
    def train(self, train_dataset_file_path, model_directory,
              val_dataset_file_path=None, device_type='cpu',
              is_verbose=False, **kwargs):
        ctx = self.ctx
        self.n_train += 1
        if self.fail_at is not None and self.n_train == self.fail_at:
            ctx.fault('oom@train')
            raise MemoryError('simulated allocation failure')
        self.close_iter()
        ctx.check(self.expect != 'end', 'went-on', lambda: 'pruning went on '
                  f'although it had to stop ({STATUS[self.reason]}) with '
                  f'{len(self.dev)} of {self.n_full} samples')
        train = self.w.read(train_dataset_file_path)
        valid = self.w.read(val_dataset_file_path)
        ctx.check(not set(train) & set(valid), 'split', 'a sample is in the '
                  'training and in the validation data set')
        ctx.check(not os.listdir(model_directory), 'model-mixed', 'a model '
                  'was trained in a directory that is not empty')
        self.token = f'model {self.n_train}'
        with open(os.path.join(model_directory, 'state'), 'w') as f:
            f.write(self.token)
        if self.expect == 'step':
            if self.step is None:
                self.train_step(set(train), set(valid))
                return
            self.pruned(set(train) | set(valid))
        self.train_iter(train, valid, train_dataset_file_path,
                        model_directory)

    def train_step(self, train, valid):
        self.ctx.check(train | valid <= self.dev, 'split', 'the pruning step '
                       'model was trained on samples already pruned')
        want = sizes_of(len(self.dev), self.p['pruning_step_sizes'])
        self.ctx.check((len(train), len(valid)) == (
            want['training'], want['validation']), 'split', lambda:
            f'{len(train)} training and {len(valid)} validation samples in '
            f'the pruning step, expected {want}')
        self.step = {'test': self.dev - train - valid, 'predicted': False}

    def pruned(self, left):
        """The samples left after a pruning step."""
        ctx, step = self.ctx, self.step
        ctx.check(step['predicted'], 'not-tested', 'samples were pruned '
                  'without a prediction of the testing data set')
        ctx.check(left <= self.dev, 'sample-returned', 'the development data '
                  'set holds samples that were pruned before')
        gone = self.dev - left
        n = n_pruned(len(self.dev), self.p)
        ctx.check(len(gone) == n, 'wrong-pruning', lambda: f'{len(gone)} '
                  f'samples pruned of {len(self.dev)}, not {n}')
        ctx.check(gone <= step['test'], 'wrong-pruning', 'a pruned sample '
                  'was not in the testing data set of the pruning step')
        stay = step['test'] - gone
        if gone and stay:
            ctx.check(max(step['loss'][k] for k in gone)
                      <= min(step['loss'][k] for k in stay), 'wrong-pruning',
                      lambda: 'a pruned sample was predicted worse than one '
                      'that was kept')
        if gone:
            ctx.probe('pruned')
        if self.op['ties']:
            ctx.probe('tied_losses')
        self.dev = left
        self.unused |= gone
        self.step = None
        self.expect = 'iter'

    def train_iter(self, train, valid, path, model_directory):
        ctx = self.ctx
        ctx.check(set(train) | set(valid) == self.dev, 'split', lambda:
                  'the training and validation data sets of an iteration '
                  f'hold {len(set(train) | set(valid))} of the {len(self.dev)}'
                  ' development samples')
        want = sizes_of(len(self.dev), self.p['pruning_iter_sizes'])
        ctx.check((len(train), len(valid)) == (
            want['training'], want['validation']), 'split', lambda:
            f'{len(train)} training and {len(valid)} validation samples in '
            f'the iteration, expected {want}')
        self.cur = {'train': train, 'valid': valid, 'loss': {}, 'nrmse': {},
                    'dev': set(self.dev), 'unused': set(self.unused),
                    'token': self.token}

    def close_iter(self):
        """The current iteration is over: what has to come next."""
        if self.expect != 'iter' or getattr(self, 'cur', None) is None:
            return
        cur, self.cur = self.cur, None
        for t in self.op['types']:
            if t == 'unused_data' and not cur['unused']:
                cur['loss'][t] = cur['nrmse'][t] = None
            self.ctx.check(t in cur['loss'], 'not-tested', lambda: f'the '
                           f'model of an iteration was not tested on {t}')
        self.iters.append(cur)
        if len(self.iters) > self.p['n_iter_max']:
            self.expect, self.reason = 'end', 'iter'
            return
        self.reason = stop_reason(len(self.dev), self.n_full, self.p)
        self.expect = 'step' if self.reason is None else 'end'

    # -------------------------------------------------------------- prediction
    def predict(self, predict_directory, dataset_file_path, model_directory,
                is_remove_sample_prediction=False, device_type='cpu',
                is_verbose=False, **kwargs):
        from utilities.output_prediction_metrics import \
            write_mean_metrics_results_file
        ctx = self.ctx
        j = os.path.join
        with open(j(model_directory, 'state')) as f:
            token = f.read()
        ctx.check(token == self.token, 'wrong-model', lambda: 'a prediction '
                  f'by {token} instead of {self.token}')
        ctx.check(os.path.isdir(predict_directory)
                  and not os.listdir(predict_directory), 'predictions-mixed',
                  'predictions were stored next to others')
        keys = self.w.read(dataset_file_path)
        d = j(predict_directory, 'prediction_set_0')
        os.mkdir(d)
        loss = {k: self.loss(k) for k in keys}
        if not is_remove_sample_prediction:
            for i, k in enumerate(keys):
                with open(j(d, f'prediction_sample_{i}.pkl'), 'wb') as f:
                    pickle.dump({'features_out': torch.zeros(2, 1),
                                 'prediction_loss_data':
                                 ('mse', {}, loss[k], False)}, f)
        with open(j(d, 'summary.dat'), 'w') as f:
            f.write('summary')
        if self.expect == 'step':
            ctx.check(self.step is not None and not self.step['predicted'],
                      'call-order', 'a prediction without a training')
            ctx.check(set(keys) == self.step['test'], 'split', lambda:
                      'the testing data set of a pruning step does not hold '
                      'the samples left out of its training and validation')
            self.step.update(predicted=True, loss=loss)
            return d, float(np.mean(list(loss.values())))
        cur = self.cur
        ctx.check(cur is not None, 'call-order', 'a prediction without a '
                  'training')
        label = None
        for t in ('in_distribution', 'out_distribution'):
            if keys == self.w.keys[t]:
                label = t
        if label is None and set(keys) == cur['unused']:
            label = 'unused_data'
        ctx.check(label in self.op['types'] and label not in cur['loss'],
                  'wrong-testing', lambda: f'a model was tested on {label} '
                  f'({len(keys)} samples)')
        value = hfloat(self.w.scn['seed'], 'avg', len(self.iters), label)
        nrmse = [hfloat(self.w.scn['seed'], 'nrmse', len(self.iters), label,
                        c) for c in range(2)]
        cur['loss'][label] = value
        cur['nrmse'][label] = None
        if self.op['metrics']:
            os.mkdir(j(d, 'prediction_metrics'))
            write_mean_metrics_results_file(
                j(d, 'prediction_metrics'), len(keys),
                {'rmse': torch.tensor([7.0, 8.0]),
                 'nrmse': torch.tensor(nrmse)})
            cur['nrmse'][label] = float(np.mean(nrmse))
        ctx.probe({'in_distribution': 'id_tested',
                   'out_distribution': 'ood_tested'}.get(
                       label, 'unused_tested'))
        return d, value


# =============================================================================
def attempt(ctx, fs, call):
    try:
        value = call()
        status = 'ok'
    except Violation:
        raise
    except SimCrash as exc:
        status, value = 'crash', exc
    except (Exception, KeyboardInterrupt) as exc:
        status, value = 'err', exc
    fs.disarm()
    if fs.dead:
        fs.restart()
    return status, value


def base_unchanged(w, before):
    after = build.tree(w.base)
    w.ctx.check(after == before, 'source-changed', lambda: 'a base data set '
                f'was changed: {sorted(set(before) ^ set(after))}')
    if w.scn['foreign']:
        w.ctx.check(os.path.isfile(os.path.join(w.root, 'notes.txt')),
                    'source-changed', 'a foreign file was removed')


def empty_split(w, p):
    """Is an iteration split empty before the process has to stop?"""
    n, n_full, k = len(w.keys['full']), len(w.keys['full']), 0
    while True:
        if min(sizes_of(n, p['pruning_iter_sizes']).values()) < 1:
            return True
        k += 1
        if k > p['n_iter_max'] or stop_reason(n, n_full, p):
            return False
        if min(sizes_of(n, p['pruning_step_sizes']).values()) < 1:
            return True
        n -= n_pruned(n, p)


def process(w, op):
    from miscellaneous.pruning import pruning_dataset as mod
    ctx, fs = w.ctx, w.fs
    given = build.snapshot(op['params'])
    p = given if given is not None else mod.set_default_pruning_parameters()
    p = build.snapshot(p)
    if given is None:
        ctx.probe('default_parameters')
    before = build.tree(w.base)
    box = {}
    undo = []

    def train(*args, **kwargs):
        return box['model'].train(*args, **kwargs)

    def predict(*args, **kwargs):
        return box['model'].predict(*args, **kwargs)
    for name, stub in (('perform_model_standard_training', train),
                       ('perform_model_prediction', predict)):
        sig = inspect.signature(getattr(mod, name))

        def bound(*args, _sig=sig, _stub=stub, **kwargs):
            return _stub(**_sig.bind(*args, **kwargs).arguments)
        undo += rebind(getattr(mod, name), bound)

    def call():
        torch.manual_seed(h64(w.scn['seed'], op['id']) % 2**31)
        with contextlib.redirect_stdout(io.StringIO()):
            return mod.prune_time_series_dataset(
                w.root, tuple(op['types']),
                pruning_params=build.snapshot(given),
                is_remove_pruning_models=op['remove'])
    bad = empty_split(w, p)
    fault = op.get('fault')
    try:
        box['model'] = Model(w, op, p)
        if fault and fault['kind'] == 'train':
            box['model'].fail_at = 1 + int(fault['pos']*8)
        elif fault:
            fs.arm({int(fault['pos']**2*80*(p['n_iter_max'] + 1)): fault})
        n = fired(ctx)
        status, value = attempt(ctx, fs, call)
        hit = fired(ctx) > n
        base_unchanged(w, before)
        if status != 'ok' and hit:
            ctx.probe({'crash': 'crash'}.get(
                status, 'interrupt' if isinstance(value, KeyboardInterrupt)
                else 'error'))
            box['model'] = Model(w, op, p)
            status, value = attempt(ctx, fs, call)
            base_unchanged(w, before)
            ctx.probe('retried')
        if bad:
            ctx.check(status == 'err', 'empty-accepted', 'a process with an '
                      'empty data set went through')
            ctx.probe('empty_split')
            return
        if status != 'ok':
            raise Violation('process-failed', f'pruning raised '
                            f'{type(value).__name__}: {str(value)[:250]}')
    finally:
        for module, attr, real in undo:
            setattr(module, attr, real)
    model = box['model']
    model.close_iter()
    ctx.check(model.expect == 'end', 'stopped-early', lambda: 'pruning '
              f'stopped with {len(model.dev)} of {model.n_full} samples '
              f'although a further {model.expect} was due')
    ctx.nontrivial = True
    ctx.probe('process')
    ctx.probe(p['prun_scheduler_type'])
    ctx.probe('stop:' + model.reason)
    if len(model.iters) == 1:
        ctx.probe('never_pruned')
    if op['remove']:
        ctx.probe('models_removed')
    if not op['metrics']:
        ctx.probe('metrics_missing')
    verify_data(w, op, model, value)
    verify_disk(w, op, model)
    if op['look']:
        look(w, op, model, mod, given)
    ctx.state(([len(i['dev']) for i in model.iters], model.reason, hit))


def verify_data(w, op, model, value):
    ctx = w.ctx
    params, data = value
    ctx.check(params['n_full'] == model.n_full, 'wrong-report', lambda:
              f'full data set size {params["n_full"]}')
    for k, v in model.p.items():
        ctx.check(params[k] == v, 'wrong-report', lambda: f'parameter {k} '
                  f'returned as {params[k]}, given {v}')
    ctx.check(list(data) == [str(i) for i in range(len(model.iters))],
              'wrong-report', lambda: f'iterations {list(data)} reported, '
              f'{len(model.iters)} performed')
    for i, it in enumerate(model.iters):
        got = data[str(i)]
        want = {'n_full': model.n_full, 'iter': i, 'n_dev': len(it['dev']),
                'n_train': len(it['train']), 'n_valid': len(it['valid']),
                'n_unused': len(it['unused'])}
        for k, v in want.items():
            ctx.check(got[k] == v, 'wrong-report', lambda: f'iteration {i}: '
                      f'{k} is {got[k]}, not {v}')
        for name, ref in (('testing_types_loss', it['loss']),
                          ('testing_types_avg_nrmse', it['nrmse'])):
            ctx.check(set(got[name]) == set(op['types']), 'wrong-report',
                      lambda: f'{name} of {list(got[name])}')
            for t, v in ref.items():
                x = got[name][t]
                ok = (x is None) == (v is None) and (
                    v is None or abs(float(x) - v) <= 1e-4*abs(v) + 1e-7)
                ctx.check(ok, 'wrong-report', lambda: f'iteration {i}: '
                          f'{name} of {t} is {x}, not {v}')
    with open(os.path.join(w.root, 'pruning_data.pkl'), 'rb') as f:
        stored = pickle.load(f)
    ctx.check(build.state_equal(stored['pruning_iterative_data'], data)
              and build.state_equal(stored['pruning_params'], params),
              'wrong-report', 'the stored pruning data differ from the '
              'returned')
    with open(os.path.join(w.root, 'summary.dat')) as f:
        text = f.read()
    rows_of(ctx, text, model, 'summary', losses=op)


def rows_of(ctx, text, model, what, losses=None):
    rows = [x.split() for x in text.splitlines()
            if re.match(r'^\s*\d+\s+\d+\s', x)]
    ctx.check(len(rows) == len(model.iters), 'wrong-report', lambda:
              f'the {what} lists {len(rows)} iterations of '
              f'{len(model.iters)}')
    for i, (row, it) in enumerate(zip(rows, model.iters)):
        sizes = [len(it[k]) for k in ('dev', 'train', 'valid', 'unused')]
        got = [int(x) for x in (row[0], *row[1:9:2])]
        ctx.check(got == [i, *sizes], 'wrong-report', lambda: f'the {what} '
                  f'says {got}, the iteration was {[i, *sizes]}')
        for x, size in zip(row[2:9:2], sizes):
            ctx.check(abs(float(x) - 100.0*size/model.n_full) <= 0.051,
                      'wrong-report', lambda: f'the {what} says {x} % for '
                      f'{size} of {model.n_full} samples')
        if losses is not None:
            want = [it['loss'][t] for t in TYPES
                    if it['loss'].get(t) is not None]
            ctx.check(len(row) - 9 == len(want) and all(
                abs(float(x) - v) <= 1e-4*abs(v) + 1e-9
                for x, v in zip(row[9:], want)), 'wrong-report', lambda:
                f'the {what} says {row[9:]}, the losses were {want}')
    found = re.findall(r'Termination status: (.*)', text)
    ctx.check(found == [STATUS[model.reason]], 'wrong-report', lambda:
              f'the {what} gives {found} as the reason of the stop, it was '
              f'{STATUS[model.reason]}')


def verify_disk(w, op, model):
    ctx = w.ctx
    j = os.path.join
    top = j(w.root, 'pruned_datasets')
    last = {}
    for i, it in enumerate(model.iters):
        if f'n{len(it["train"])}' in last:
            ctx.probe('same_size_again')
        last[f'n{len(it["train"])}'] = it
    ctx.check(sorted(os.listdir(top)) == sorted(last), 'wrong-files', lambda:
              f'{sorted(os.listdir(top))} stored, the process made '
              f'{sorted(last)}')
    for name, it in last.items():
        d = j(top, name)
        for sub, key in (('1_training_dataset', 'train'),
                         ('2_validation_dataset', 'valid')):
            files = os.listdir(j(d, sub))
            ctx.check(files == [f'ss_paths_dataset_n{len(it[key])}.pkl'],
                      'wrong-files', lambda: f'{name}/{sub} holds {files}')
            got = w.read(j(d, sub, files[0]))
            ctx.check(got == it[key], 'wrong-files', lambda: f'{name}/{sub} '
                      'does not hold the samples the model was trained with')
        state = j(d, '3_model', 'state')
        if op['remove']:
            ctx.check(not os.path.exists(j(d, '3_model')), 'wrong-files',
                      f'the model of {name} was not removed')
        else:
            with open(state) as f:
                ctx.check(f.read() == it['token'], 'wrong-files', 'the model '
                          f'of {name} belongs to another iteration')
        for t, sub in (('in_distribution', '5_testing_id_dataset'),
                       ('out_distribution', '6_testing_od_dataset'),
                       ('unused_data', '8_testing_unused_dataset')):
            if t not in op['types']:
                ctx.check(not os.path.exists(j(d, sub)), 'wrong-files',
                          f'{name}/{sub} was not asked for')
                continue
            want = (it['unused'] if t == 'unused_data'
                    else set(w.keys[t]))
            files = os.listdir(j(d, sub))
            ctx.check(files == [f'ss_paths_dataset_n{len(want)}.pkl'],
                      'wrong-files', lambda: f'{name}/{sub} holds {files}')
            ctx.check(set(w.read(j(d, sub, files[0]))) == want,
                      'wrong-files', lambda: f'{name}/{sub} does not hold '
                      'the testing samples')


def look(w, op, model, mod, given):
    """Preview, plots and display of the process."""
    ctx = w.ctx
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ctx.must('preview', mod.preview_pruning_iterations, w.root,
                 pruning_params=build.snapshot(given))
    rows_of(ctx, out.getvalue(), model, 'preview')
    ctx.probe('preview')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        ctx.must('display', mod.display_pruning_data,
                 os.path.join(w.root, 'pruning_data.pkl'))
    lists = [eval(x, {'__builtins__': {}}) for x in
             out.getvalue().splitlines() if x.startswith('[')]
    want = [[len(it['train']) for it in model.iters]] + [
        [it['loss'][t] for it in model.iters] for t in op['types']]
    ctx.check(lists == want, 'wrong-report', lambda: f'displayed {lists}, '
              f'the process had {want}')
    ctx.probe('display')
    box = []
    undo = []
    import ioput.plots as plots
    for name in ('plot_xy_data', 'save_figure'):
        real = getattr(plots, name)
        sig = inspect.signature(real)

        class Axes:
            def axhline(self, y, **kwargs):
                box.append(('threshold', float(y)))

            def get_legend_handles_labels(self):
                return [], []

            def legend(self, *args, **kwargs):
                pass

        def stub(*args, _name=name, _sig=sig, **kwargs):
            got = dict(_sig.bind(*args, **kwargs).arguments)
            if _name == 'plot_xy_data':
                box.append(('plot', np.array(got['data_xy_list'] if
                                             'data_xy_list' in got else
                                             got['data_xy'], dtype=object)))
                return object(), Axes()
            box.append(('save', got['filename']))
        undo += rebind(real, stub)
    with open(os.path.join(w.root, 'pruning_data.pkl'), 'rb') as f:
        stored = pickle.load(f)
    threshold = bool(op['metrics'])
    try:
        ctx.must('plots', mod.plot_pruning_iterative_data, w.root,
                 stored['pruning_params'], tuple(op['types']),
                 stored['pruning_iterative_data'],
                 performance_threshold_ratio=0.2,
                 is_plot_performance_threshold=threshold,
                 save_dir=w.root, is_save_fig=True, is_latex=False)
    finally:
        for module, attr, real in undo:
            setattr(module, attr, real)
    made = {}
    cur = line = None
    for kind, val in box:
        if kind == 'plot':
            cur, line = val, None
        elif kind == 'threshold':
            line = val
        else:
            made[val] = (cur, line)
    full = model.n_full
    cols = []
    for key in ('dev', 'train', 'valid', 'unused'):
        cols.append(list(range(len(model.iters))))
        cols.append([100.0*len(it[key])/full for it in model.iters])
    wanted = {'pruning_iterations_dataset_sizes': (cols, None)}
    every = []
    for t in op['types']:
        xy = [[100.0*len(it['dev'])/full for it in model.iters],
              [it['nrmse'][t] for it in model.iters]]
        lim = (1.2*model.iters[0]['nrmse'][t]
               if threshold and t != 'unused_data' else None)
        wanted[f'pruning_testing_convergence_{t}'] = (xy, lim)
        every += xy
    wanted['pruning_testing_convergence'] = (every, None)
    for name, (cols, lim) in wanted.items():
        ctx.check(name in made, 'wrong-plot', f'{name} was not drawn')
        got, line = made[name]
        ok = got.shape == (len(model.iters), len(cols)) and all(
            (a is None) == (b is None) and
            (a is None or abs(float(a) - float(b)) <= 1e-4*abs(b) + 1e-7)
            for c, col in enumerate(cols) for a, b in zip(got[:, c], col))
        ctx.check(ok, 'wrong-plot', lambda: f'{name} shows {got.tolist()}, '
                  f'the process had {cols}')
        ctx.check((line is None) == (lim is None) and (
            lim is None or abs(line - lim) <= 1e-4*lim), 'wrong-plot',
            lambda: f'{name}: threshold at {line}, not {lim}')
    ctx.probe('plots')


# =============================================================================
def run(ctx):
    import miscellaneous.pruning.pruning_dataset  # noqa: F401
    torch.set_default_dtype(torch.float32)
    fs = SimFS(ctx.scratch, ctx, listing=ctx.scn['listing'], chunk=1024)
    with fs.installed():
        w = World(ctx, fs)
        for i, op in enumerate(ctx.scn['ops']):
            ctx.log('op', op['id'])
            if i:
                ctx.probe('second_process')
            process(w, op)
