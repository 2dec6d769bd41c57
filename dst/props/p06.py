"""P06: predictions are complete, right and never disturb anything else."""
import os
import shutil

import numpy as np
import torch

from dst import build, train
from dst.core import SimCrash, Violation, rng
from dst.props import p03
from dst.vfs import Scheduler, SimFS

RUNS = {'quick': 900, 'thorough': 26000}
RULE = ('one run = a really trained model directory (GRU, constitutive or '
        'hybrid) followed by a seeded history of prediction processes '
        '(in-memory, file-backed or subset data, any stored state or a given '
        'model, any batch size, with and without ground truth), up to three '
        'of them concurrently under a seeded interleaving of their I/O, each '
        'possibly hit by a crash, torn write, I/O error or interrupt; '
        'non-trivial = at least two prediction processes of which one was '
        'hit, concurrent, or batched')
PROBES = ('concurrent', 'crash', 'error', 'interrupt', 'batched',
          'ragged_batch', 'file_backed', 'subset', 'no_ground_truth',
          'given_model', 'state_best', 'state_epoch', 'state_init',
          'state_last', 'state_default', 'normalised', 'normalised_loss',
          'initial_hidden_state', 'history_material', 'foreign_directory',
          'zero_loss', 'renamed_set')
STATE_MEASURE = 'digest of (names and outcomes of all prediction sets)'
REAL = ['predict of the three model families', 'model_prediction',
        'data loader and collator', 'TimeSeriesDataset', 'model_state_files',
        'train_model (builds the model directory)']
STUB = ['disk, directory listing order, clock, thread schedule']
ASSUMPTIONS = ['the forward pass of one sample on a freshly initialised model '
               'is the reference for that sample',
               'process-crash model as in P01']
SHRINK_LISTS = ('ops',)


def gen(seed, tier):
    r = rng(seed, 'gen')
    scn = p03.gen_scn(r, seed, kinds=('gru', 'gru', 'gru', 'rc', 'rc',
                                      'hybrid'))
    ses = p03.gen_session(r, 0, scn)
    ses.update(n=r.choice([0, 1, 2]), save_every=1, load=None, data=3,
               fault=None, sched=None, loss='mse', lr=r.choice([0.01, 0.2]))
    ses.pop('fault')
    scn['session'] = ses
    if scn['kind'] == 'rc' and r.random() < 0.4:
        scn['material'] = 'von_mises'
    scn['default'] = r.random() < 0.6
    scn['foreign'] = r.sample(['prediction_set_0', 'prediction_set_2',
                               'prediction_set_x', 'other'],
                              r.choice([0, 0, 1, 2]))
    ops = []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        group = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            group.append(gen_pred(r, scn))
        op = {'id': i, 'preds': group}
        if len(group) == 1 and r.random() < 0.5:
            op['fault'] = {'where': r.choice(['io', 'io', 'io', 'read']),
                           'pos': r.random(),
                           'kind': r.choice(['crash', 'crash_after', 'torn',
                                             'enospc', 'eio', 'intr']),
                           'frac': r.choice([0.0, 0.5, 0.9])}
        ops.append(op)
    scn['ops'] = ops
    return scn


def gen_pred(r, scn):
    return {'n': r.choice([1, 2, 3, 5, 7, 11]), 'batch': r.choice([1, 2, 3, 4,
                                                                  16]),
            'time': r.choice([2, 3, 5]), 'tag': r.randint(1, 10**6),
            'how': r.choice(['memory', 'memory', 'file', 'subset']),
            'state': r.choice(['best', 'last', 'init', 'int', None,
                               'default', 'given']),
            'pick': r.random(), 'loss': r.choice(['mse', 'mre']),
            'norm_loss': scn['norm_out'] and r.random() < 0.5,
            'truth': r.choice([True]*5 + [False] + ['exact']),
            'hidden': scn['kind'] == 'gru' and r.random() < 0.25,
            'save': r.random() < 0.9, 'seed': r.choice([None, 3])}


def shrink(scn):
    for i, op in enumerate(scn['ops']):
        if op.get('fault'):
            new = build.snapshot(scn)
            del new['ops'][i]['fault']
            yield new
        for j in range(len(op['preds'])):
            if len(op['preds']) > 1:
                new = build.snapshot(scn)
                del new['ops'][i]['preds'][j]
                yield new
            for key, val in (('n', 1), ('n', 2), ('batch', 1), ('time', 2),
                             ('how', 'memory'), ('truth', True),
                             ('hidden', False), ('norm_loss', False)):
                if op['preds'][j][key] != val:
                    new = build.snapshot(scn)
                    new['ops'][i]['preds'][j][key] = val
                    yield new
    for key, val in (('foreign', []), ('norm_in', False), ('norm_out', False),
                     ('layers', 1), ('default', False)):
        if scn.get(key) != val:
            new = build.snapshot(scn)
            new[key] = val
            yield new


# =============================================================================
def run(ctx):
    from model_architectures.procedures.model_state_files import \
        save_model_state
    scn = ctx.scn
    kind = scn['kind']
    model_dir = os.path.join(ctx.scratch, 'model')
    pred_dir = os.path.join(ctx.scratch, 'predictions')
    os.mkdir(model_dir)
    os.mkdir(pred_dir)
    for name in scn['foreign']:
        os.mkdir(os.path.join(pred_dir, name))
        with open(os.path.join(pred_dir, name, 'prediction_sample_0.pkl'),
                  'w') as f:
            f.write('foreign')
        ctx.probe('foreign_directory')
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'], chunk=4096)
    name = p03.NAMES[kind]
    with fs.installed():
        ses = scn['session']
        samples = build.samples(scn['data_seed'], ses['data'], n_time=3)
        (status, value), _ = train.run_session(
            ctx, fs, scn, ses, model_dir, train.Recording(samples))
        if status != 'ok':
            raise Violation('training-failed', f'{type(value).__name__}: '
                            f'{str(value)[:200]}') from value
        if scn['default']:
            with torch.no_grad():
                for p in value[0].parameters():
                    p.add_(0.01)
            ctx.must('save default state', save_model_state, value[0],
                     'default')
        slots, _ = train.slots_on_disk(model_dir, name)
        scal = train.scaling(samples, scn['scaling'])
        seen = build.tree(ctx.scratch)
        for op in scn['ops']:
            seen = operation(ctx, fs, scn, op, model_dir, pred_dir, slots,
                             scal, seen)


def target_of(pred, slots):
    state = pred['state']
    epochs = sorted(s[1] for s in slots if s[0] == 'epoch')
    if state == 'int':
        e = epochs[int(pred['pick']*len(epochs))]
        return e, ('epoch', e)
    if state == 'last':
        return 'last', ('epoch', epochs[-1])
    if state in ('best', 'given'):
        return 'best', [s for s in slots if s[0] == 'best'][0]
    if state == 'default' or state is None:
        if ('default', None) in slots:
            return state, ('default', None)
        return 'init', ('init', None)
    return 'init', ('init', None)


class Prediction:
    """One call of the real prediction procedure and its reference."""

    def __init__(self, ctx, fs, scn, pred, k, model_dir, pred_dir, slots,
                 scal):
        self.ctx, self.scn, self.pred = ctx, scn, pred
        kind = scn['kind']
        self.load, self.slot = target_of(pred, slots)
        samples = build.samples(pred['tag'], pred['n'], n_time=pred['time'])
        if pred['hidden']:
            gen = np.random.Generator(np.random.PCG64(pred['tag']))
            for s in samples:
                s['hidden_features_in'] = torch.tensor(
                    gen.standard_normal((scn['layers'], scn['hidden'])),
                    dtype=torch.float32)
            ctx.probe('initial_hidden_state')
        # Reference, one sample at a time on a fresh model
        self.want, self.losses = [], []
        for s in samples:
            model = train.reload(kind, model_dir, ctx)
            model.load_state_dict(slots[self.slot])
            model.eval()
            x = s['features_in'][:, None, :]
            if scn['norm_in']:
                x = train.norm(scal, 'features_in', x)
            with torch.no_grad():
                if pred['hidden']:
                    y = model(x, s['hidden_features_in'][:, None, :])[0]
                else:
                    y = train.forward(kind, model, x)
            if scn['norm_out']:
                shift, scale = scal['features_out']
                y = (y.to(torch.float64)*scale + shift).to(torch.float32)
            self.want.append(y[:, 0, :])
            if pred['truth'] == 'exact':
                s['features_out'] = y[:, 0, :].clone()
            elif not pred['truth']:
                del s['features_out']
            if pred['truth']:
                t = s['features_out']
                out = y[:, 0, :]
                if pred['norm_loss']:
                    t = train.norm(scal, 'features_out', t)
                    out = train.norm(scal, 'features_out', out)
                self.losses.append(float(train.loss_of(pred['loss'], out, t)))
        self.samples = build.snapshot(samples)
        self.data = train.Recording(samples)
        self.model = None
        self.given_state = None
        if pred['state'] == 'given':
            self.model = train.reload(kind, model_dir, ctx)
            self.model.load_state_dict(slots[self.slot])
            self.given_state = build.snapshot(self.model.state_dict())
            ctx.probe('given_model')
        if pred['how'] == 'file':
            self.data = file_dataset(ctx, k, samples)
            ctx.probe('file_backed')
        elif pred['how'] == 'subset':
            extra = build.samples(pred['tag'] + 1, 2, n_time=pred['time'])
            mixed = [extra[0]] + samples[::-1] + [extra[1]]
            self.data = torch.utils.data.Subset(
                train.Recording(mixed), list(range(pred['n'], 0, -1)))
            ctx.probe('subset')
        self.args = dict(dataset=self.data, model_directory=model_dir,
                         model=self.model,
                         predict_directory=pred_dir if pred['save'] else None,
                         model_load_state=self.load,
                         loss_type=pred['loss'],
                         is_normalized_loss=pred['norm_loss'],
                         batch_size=pred['batch'], device_type='cpu',
                         seed=pred['seed'])

    def __call__(self):
        return train.predict_fn(self.scn['kind'])(**self.args)

    def probes(self):
        ctx, pred = self.ctx, self.pred
        if pred['batch'] > 1 and pred['n'] > 1:
            ctx.probe('batched')
        if pred['n'] % pred['batch'] and pred['n'] > pred['batch'] > 1:
            ctx.probe('ragged_batch')
        if not pred['truth']:
            ctx.probe('no_ground_truth')
        ctx.probe('state_' + {'epoch': 'epoch'}.get(self.slot[0],
                                                    self.slot[0]))
        if self.load == 'last':
            ctx.probe('state_last')
        if self.scn['norm_in'] or self.scn['norm_out']:
            ctx.probe('normalised')
        if pred['norm_loss']:
            ctx.probe('normalised_loss')
        if self.scn['material'] == 'von_mises' and self.scn['kind'] == 'rc':
            ctx.probe('history_material')

    # ------------------------------------------------------------------ checks
    def check_sample(self, i, path):
        ctx = self.ctx
        rec = ctx.must(f'read prediction of sample {i}', train.read_pickle,
                       path)
        ctx.check(train.close(rec['features_out'], self.want[i], rtol=1e-3,
                              atol=1e-5), 'wrong-prediction',
                  lambda: f'prediction of sample {i} ({self.pred}) is not the '
                  f'output of state {self.slot} for that sample: '
                  f'{rec["features_out"][-1].tolist()} instead of '
                  f'{self.want[i][-1].tolist()}')
        truth = self.samples[i].get('features_out')
        if truth is None:
            ctx.check(rec['targets'] is None, 'wrong-target',
                      'a ground truth was stored although there is none')
        else:
            ctx.check(build.state_equal(rec['targets'], truth),
                      'wrong-target', f'ground truth stored for sample {i} is '
                      f'not the one of sample {i}')
        loss = rec['prediction_loss_data'][2]
        if truth is None:
            ctx.check(loss is None, 'wrong-loss', 'loss without ground truth')
        else:
            ctx.check(train.close(float(loss), self.losses[i], rtol=2e-3,
                                  atol=1e-4 if self.pred['truth'] == 'exact'
                                  else 1e-6), 'wrong-loss',
                      f'loss stored for sample {i} is {float(loss)}, expected '
                      f'{self.losses[i]}')

    def check_set(self, subdir):
        """All samples of a finished prediction process."""
        ctx = self.ctx
        files = sorted(f for f in os.listdir(subdir)
                       if f.startswith('prediction_sample'))
        want = sorted(f'prediction_sample_{i}.pkl'
                      for i in range(self.pred['n']))
        ctx.check(files == want, 'wrong-set', f'prediction of {self.pred["n"]}'
                  f' samples left the files {files}')
        for i in range(self.pred['n']):
            self.check_sample(i, os.path.join(
                subdir, f'prediction_sample_{i}.pkl'))

    def check_value(self, value):
        ctx = self.ctx
        subdir, avg = value
        if self.pred['truth']:
            want = float(np.mean(self.losses))
            ctx.check(avg is not None and train.close(
                float(avg), want, rtol=2e-3,
                atol=1e-4 if self.pred['truth'] == 'exact' else 1e-6),
                'wrong-average',
                f'average loss {avg}, expected {want}')
        else:
            ctx.check(avg is None, 'wrong-average', f'average loss {avg} '
                      'without ground truth')
        ctx.check((subdir is None) == (not self.pred['save']), 'wrong-set',
                  f'returned directory {subdir}')
        if subdir is not None:
            self.check_set(subdir)
            with open(os.path.join(subdir, 'summary.dat')) as f:
                text = f.read()
            lines = [x for x in text.splitlines() if 'loss per sample' in x]
            ctx.check(len(lines) == 1, 'summary', 'no loss in the summary')
            shown = lines[0].split(':')[-1].strip()
            ctx.check(shown == ('None' if avg is None else f'{avg:.8e}'),
                      'summary', f'the summary shows the loss {shown}, '
                      f'returned was {avg}')
            if avg is not None and float(avg) == 0.0:
                ctx.probe('zero_loss')

    def check_inputs(self):
        ctx = self.ctx
        if self.model is not None:
            ctx.check(build.state_equal(self.given_state,
                                        dict(self.model.state_dict())),
                      'model-changed', 'prediction changed the given model')
        if isinstance(self.data, train.Recording):
            ctx.check(build.state_equal(self.data.samples, self.samples),
                      'data-changed', 'prediction changed the data set')


def file_dataset(ctx, k, samples):
    from time_series_data.time_dataset import TimeSeriesDataset
    directory = os.path.join(ctx.scratch, f'data_{k}')
    os.mkdir(directory)
    files = []
    for i, s in enumerate(samples):
        # File names whose alphabetical order is not the sample order
        path = os.path.join(directory, f's_{i}.pt')
        torch.save(s, path)
        files.append(path)
    return TimeSeriesDataset(directory, files)


def operation(ctx, fs, scn, op, model_dir, pred_dir, slots, scal, seen):
    preds = {}
    for k, pred in enumerate(op['preds']):
        preds[f'p{k}'] = Prediction(ctx, fs, scn, pred, f'{op["id"]}_{k}',
                                    model_dir, pred_dir, slots, scal)
        preds[f'p{k}'].probes()
        if pred['batch'] > 1 and pred['n'] > 1:
            ctx.nontrivial = True
    for key, val in build.tree(ctx.scratch).items():
        if key not in seen and key.startswith('data_'):
            seen[key] = val
    dirs_before = set(os.listdir(pred_dir))
    ctx.log('predict', op['id'], [p['n'] for p in op['preds']])
    if len(preds) > 1:
        out = Scheduler(ctx, fs, key=f'op{op["id"]}').run(preds)
        ctx.probe('concurrent')
        status = {}
        for name, (st, value) in out.items():
            if st == 'err':
                if isinstance(value, Violation):
                    raise value
                raise Violation(
                    'prediction-failed', f'concurrent prediction {name} '
                    f'raised {type(value).__name__}: {str(value)[:300]}')
            status[name] = value
        subdirs = [v[0] for v in status.values() if v[0] is not None]
        ctx.check(len(set(map(os.path.realpath, subdirs))) == len(subdirs),
                  'shared-set', f'concurrent predictions share a results '
                  f'directory: {sorted(subdirs)}')
        for name, value in status.items():
            preds[name].check_value(value)
            if value[0] is not None and value[0].count('_') > \
                    os.path.join(pred_dir, 'prediction_set_0').count('_'):
                ctx.probe('renamed_set')
    else:
        p = preds['p0']
        single(ctx, fs, op, p, pred_dir, dirs_before)
    for p in preds.values():
        p.check_inputs()
    # Nothing that existed before was touched
    now = build.tree(ctx.scratch)
    for path, data in seen.items():
        ctx.check(path in now, 'file-lost', f'prediction removed {path}')
        ctx.check(now[path] == data, 'file-changed',
                  f'prediction changed {path}')
    for path in now:
        if path not in seen:
            ctx.check(path.startswith('predictions/')
                      and path.split('/')[1] not in dirs_before,
                      'foreign-file', f'prediction wrote {path}')
    for d in set(os.listdir(pred_dir)) - dirs_before:
        pass
    ctx.state(sorted(os.listdir(pred_dir)))
    return now


def single(ctx, fs, op, p, pred_dir, dirs_before):
    fault = op.get('fault')
    if fault:
        if fault['where'] == 'io' and p.pred['save']:
            fs.arm({int(fault['pos']*(3 + 2*p.pred['n'] + 3)): fault})
        elif isinstance(p.data, train.Recording):
            kind = {'crash_after': 'crash', 'torn': 'crash',
                    'enospc': 'eio'}.get(fault['kind'], fault['kind'])
            p.data.on_read = p03.reader_fault(
                ctx, fs, 1 + int(fault['pos']*p.pred['n']), kind)
    n_fault = sum(ctx.faults.values()) - ctx.faults['shuffled_listing']
    try:
        status, value = 'ok', p()
    except Violation:
        raise
    except SimCrash as exc:
        status, value = 'crash', exc
    except (Exception, KeyboardInterrupt) as exc:
        status, value = 'err', exc
    fs.disarm()
    if fs.dead:
        status = 'crash'
    fired = (sum(ctx.faults.values()) - ctx.faults['shuffled_listing']
             > n_fault)
    if status == 'crash':
        fs.restart()
        ctx.probe('crash')
    elif status == 'err':
        if not fired or not isinstance(value, (OSError, KeyboardInterrupt)):
            raise Violation(
                'prediction-failed', f'prediction {p.pred} raised '
                f'{type(value).__name__}: {str(value)[:300]}') from value
        ctx.probe('interrupt' if isinstance(value, KeyboardInterrupt)
                  else 'error')
    else:
        p.check_value(value)
        return
    # An unfinished set: what can be read is right
    new = set(os.listdir(pred_dir)) - dirs_before
    ctx.check(len(new) <= 1, 'wrong-set', f'one prediction created {new}')
    for d in new:
        d = os.path.join(pred_dir, d)
        for i in range(p.pred['n']):
            path = os.path.join(d, f'prediction_sample_{i}.pkl')
            if os.path.isfile(path):
                try:
                    train.read_pickle(path)
                except Exception:
                    ctx.probe('torn_sample')
                    continue
                p.check_sample(i, path)
