"""Driver of real training sessions and the reference they are compared with."""
import copy
import importlib
import os
import pickle

import numpy as np
import torch

from dst import build
from dst.core import SimCrash, Violation
from dst.vfs import _real_torch_load

PKG = {'gru': 'rnn', 'rc': 'rc', 'hybrid': 'hybrid'}


def train_fn(kind):
    return importlib.import_module(
        f'model_architectures.{PKG[kind]}_base_model.train.training'
    ).train_model


def predict_fn(kind):
    return importlib.import_module(
        f'model_architectures.{PKG[kind]}_base_model.predict.prediction'
    ).predict


class Recording(torch.utils.data.Dataset):
    """In-memory data set that records which sample is read when."""

    def __init__(self, samples):
        self.samples = samples
        self.log = []
        self.on_read = None

    def __len__(self):
        return len(self.samples)

    def __getitem__(self, index):
        self.log.append(int(index))
        if self.on_read is not None:
            self.on_read(len(self.log))
        return dict(self.samples[index])


def model_args(scn, directory):
    if scn['kind'] == 'gru':
        return build.gru_args(directory, hidden=scn['hidden'],
                              layers=scn.get('layers', 1),
                              norm_in=scn['norm_in'],
                              norm_out=scn['norm_out'],
                              source=scn.get('source', 'torch'))
    if scn['kind'] == 'rc':
        return build.rc_args(directory, material=scn['material'],
                             learn=tuple(scn['learn']),
                             norm_par=scn['norm_par'],
                             norm_in=False, norm_out=scn['norm_out'],
                             init=scn.get('init'))
    return build.hybrid_args(directory, hidden=scn['hidden'],
                             norm_out=scn['norm_out'], seed=scn['seed'] % 9973)


# ------------------------------------------------------------------ reference
def scaling(samples, kind):
    """Normalisation fitted on a data set: {features: (shift, scale)}."""
    out = {}
    for key in ('features_in', 'features_out'):
        data = torch.cat([s[key] for s in samples], 0).to(torch.float64)
        if kind == 'mean-std':
            std = data.std(0, correction=0)
            std = torch.where(std == 0, torch.ones_like(std), std)
            out[key] = (data.mean(0), std)
        else:
            lo, hi = data.min(0)[0], data.max(0)[0]
            out[key] = ((hi + lo)/2, (hi - lo)/2)
    return out


def norm(scal, key, x):
    shift, scale = scal[key]
    return ((x - shift)/scale).to(x.dtype)


def loss_of(loss_type, y, t):
    if loss_type == 'mse':
        return ((y - t)**2).mean()
    err = (y - t).abs()
    rel = err/t.abs()
    return torch.where(t.abs() < 1e-5, err, rel).mean()


def forward(kind, model, x):
    out = model(x)
    return out[0] if isinstance(out, tuple) else out


def bounded(kind, model):
    """(parameter tensor, lower, upper, name) of the bounded parameters."""
    out = []
    if kind == 'rc':
        models = [model]
    elif kind == 'hybrid':
        models = [m for m in model.get_hybridized_models()
                  if getattr(m, 'is_explicit_parameters', False)]
    else:
        models = []
    for m in models:
        bounds = (m.get_model_parameters_norm_bounds()
                  if m.is_normalized_parameters
                  else m.get_model_parameters_bounds())
        for name, value in m.get_model_parameters().items():
            out.append((value, float(bounds[name][0]), float(bounds[name][1]),
                        name))
    return out


def clamp(kind, model):
    with torch.no_grad():
        for value, lo, hi, _ in bounded(kind, model):
            value.clamp_(lo, hi)


def reload(kind, directory, ctx):
    return ctx.must('initialise model from its directory',
                    build.model_class(kind).init_model_from_file,
                    model_directory=directory)


def reference(scn, ses, directory, ctx, init_state, samples, scal, epochs):
    """Independent training loop over the observed visiting order.

    Returns one record per completed epoch.
    """
    kind = scn['kind']
    model = reload(kind, directory, ctx)
    model.load_state_dict(init_state)
    model.train()
    if kind == 'rc':
        clamp(kind, model)
    optim = torch.optim.Adam(model.parameters(), lr=ses['lr'])
    sched = None
    if ses.get('sched'):
        cls = {'steplr': torch.optim.lr_scheduler.StepLR,
               'explr': torch.optim.lr_scheduler.ExponentialLR,
               'linlr': torch.optim.lr_scheduler.LinearLR}[ses['sched'][0]]
        sched = cls(optim, **ses['sched'][1])
    is_norm = scn['norm_out'] or ses.get('norm_loss', False)
    records = []

    def params():
        if kind not in ('rc', 'hybrid'):
            return {}
        return {str(k): float(v) for k, v in
                model.get_detached_model_parameters(
                    is_normalized_out=False).items()}
    for order in epochs:
        losses = []
        path = [params()]
        for i in range(0, len(order), ses['batch']):
            idx = order[i:i + ses['batch']]
            x = torch.stack([samples[j]['features_in'] for j in idx], 1)
            t = torch.stack([samples[j]['features_out'] for j in idx], 1)
            if scn['norm_in']:
                x = norm(scal, 'features_in', x)
            y = forward(kind, model, x)
            if is_norm:
                t = norm(scal, 'features_out', t)
                if not scn['norm_out']:
                    y = norm(scal, 'features_out', y)
            loss = loss_of(ses['loss'], y, t)
            optim.zero_grad()
            loss.backward()
            optim.step()
            clamp(kind, model)
            losses.append(float(loss.detach()))
            path.append(params())
        if sched is not None:
            sched.step()
        records.append({
            'loss': float(np.mean(losses)), 'params': path,
            'lr': optim.param_groups[0]['lr'],
            'state': copy.deepcopy({k: v.detach().clone() for k, v in
                                    model.state_dict().items()}),
            'optim': copy.deepcopy(optim.state_dict())})
    return records


# ---------------------------------------------------------------- observation
def close(a, b, rtol=2e-4, atol=2e-6):
    """Numerical closeness of nested structures."""
    if isinstance(a, (torch.Tensor, np.ndarray, np.generic)) or isinstance(
            b, (torch.Tensor, np.ndarray, np.generic)):
        if a is None or b is None:
            return False
        a = np.asarray(torch.as_tensor(a).detach(), dtype=float)
        b = np.asarray(torch.as_tensor(b).detach(), dtype=float)
        return a.shape == b.shape and bool(np.allclose(
            a, b, rtol=rtol, atol=atol, equal_nan=True))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(
            close(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(
            close(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        try:
            return bool(np.isclose(float(a), float(b), rtol=rtol, atol=atol,
                                   equal_nan=True))
        except (TypeError, ValueError):
            return False
    return a == b


def slots_on_disk(directory, name):
    """({model slot: state}, {optimizer slot: {'state', 'epoch'}})."""
    from dst.props.p01 import on_disk
    m, o = on_disk(name, directory)
    out = []
    for files, what in ((m, 'model'), (o, 'optimizer')):
        d = {}
        for slot, path in files.items():
            try:
                d[slot] = _real_torch_load(path, map_location='cpu')
            except Exception as exc:
                raise Violation(
                    'damaged-state', f'{what} state {slot} cannot be read: '
                    f'{type(exc).__name__} {str(exc)[:120]}') from exc
        out.append(d)
    return out


def optim_close(a, b):
    """Optimizer state equality up to round-off."""
    ga = [{k: v for k, v in g.items() if k != 'params'}
          for g in a['param_groups']]
    gb = [{k: v for k, v in g.items() if k != 'params'}
          for g in b['param_groups']]
    return close(ga, gb) and close(a['state'], b['state'], rtol=1e-3)


def read_back(ctx, kind, directory):
    """The record readers of the repository return what the records hold."""
    from model_architectures.procedures import model_training as mt
    path = os.path.join(directory, 'loss_history_record.pkl')
    rec = read_pickle(path)
    nature, loss, hist, valid = ctx.must(
        'read loss history', mt.read_loss_history_from_file, path)
    floats = lambda seq: None if seq is None else [float(x) for x in seq]
    same = lambda a, b: (a is None) == (b is None) and (
        a is None or np.array_equal(floats(a), floats(b), equal_nan=True))
    ctx.check(nature == rec['loss_nature'] and loss == rec['loss_type']
              and same(hist, rec['training_loss_history'])
              and same(valid, rec['validation_loss_history']), 'read-back',
              lambda: f'loss history read back as {(nature, loss, hist)}, '
              f'stored {rec}')
    name, lrs = ctx.must('read learning rates', mt.read_lr_history_from_file,
                         path)
    ctx.check(name == rec['lr_scheduler_type'] and list(lrs)
              == list(rec['lr_history_epochs']), 'read-back',
              lambda: f'learning rates read back as {(name, lrs)}')
    where = {'rc': 'model_architectures.rc_base_model.train.training',
             'hybrid': 'model_architectures.hybrid_base_model.train.training',
             'finder': 'material_model_finder.train.training'}.get(kind)
    if where is None:
        return
    mod = importlib.import_module(where)
    for file, func, key in (
            ('parameters_history_record.pkl',
             'read_parameters_history_from_file', 'model_parameters_history'),
            ('parameters_best.pkl', 'read_best_parameters_from_file',
             'best_model_parameters')):
        path = os.path.join(directory, file)
        func = getattr(mod, func, None)
        if func is None or not os.path.isfile(path):
            continue
        rec = read_pickle(path)
        got, bounds = ctx.must('read parameters', func, path)
        ctx.check(list(got) == list(rec[key]) and all(
            np.array_equal(np.ravel(got[k]), np.ravel(rec[key][k]))
            for k in got) and {k: tuple(v) for k, v in bounds.items()} == {
                k: tuple(v) for k, v in
                rec['model_parameters_bounds'].items()}, 'read-back',
            lambda: f'{file} read back as {got}, stored {rec}')
    ctx.probe('read_back')


def read_pickle(path):
    with open(path, 'rb') as f:
        return pickle.load(f)


def run_session(ctx, fs, scn, ses, directory, train_set, valid_set=None):
    """One call of the real training procedure; ('ok', value) or ('err', e)."""
    args = dict(n_max_epochs=ses['n'], dataset=train_set,
                model_init_args=model_args(scn, directory),
                lr_init=ses['lr'], loss_type=ses['loss'],
                batch_size=ses['batch'], is_sampler_shuffle=ses['shuffle'],
                model_load_state=ses['load'], save_every=ses['save_every'],
                device_type='cpu', seed=ses['seed'])
    if ses.get('sched'):
        args['lr_scheduler_type'] = ses['sched'][0]
        args['lr_scheduler_kwargs'] = dict(ses['sched'][1])
    if scn['kind'] == 'gru':
        args['data_scaling_type'] = scn['scaling']
    if scn['kind'] == 'rc':
        args['is_params_stopping'] = ses.get('params_stop', False)
        args['params_stopping_kwargs'] = dict(
            ses.get('params_stop_kwargs') or {})
        args['is_normalized_loss'] = ses.get('norm_loss', False)
    if valid_set is not None:
        args['is_early_stopping'] = True
        args['early_stopping_kwargs'] = dict(
            validation_dataset=valid_set, **ses['early'])
    train_set.log.clear()
    before = fs.n
    ctx.log('train', scn['kind'], ses['id'], ses['load'])
    try:
        out = ('ok', train_fn(scn['kind'])(**args))
    except Violation:
        raise
    except SimCrash as exc:
        out = ('crash', exc)
    except (Exception, KeyboardInterrupt) as exc:
        out = ('err', exc)
    if fs.dead:
        # However the death surfaced (destructors swallow exceptions)
        out = ('crash', out[1])
    return out, fs.n - before


def epochs_of(log, n_sample, n_fit):
    """Visiting order per epoch from a read log (n_fit reads precede it)."""
    log = log[n_fit:]
    full = [log[i:i + n_sample] for i in range(0, len(log), n_sample)]
    return [e for e in full if len(e) == n_sample]
