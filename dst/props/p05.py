"""P05: seeded procedures are reproducible whatever surrounds them."""
import os
import random

import numpy as np
import torch

from dst import build, train
from dst.core import Violation, h64, rng
from dst.props import p03
from dst.vfs import SimFS

RUNS = {'quick': 1000, 'thorough': 30000}
RULE = ('one run = the same seeded procedure (training, prediction, data set '
        'split, strain path generation) executed two or three times in '
        'environments that differ in everything but the inputs: previous '
        'draws and seeds of the global generators, random numbers drawn by '
        'other code in between, wall clock with jumps, directory listing '
        'order, location, unrelated work before, validation on or off; '
        'non-trivial = the environments differed while the procedure consumed '
        'random numbers')
PROBES = ('train', 'predict', 'split', 'random_path', 'gp_path',
          'proportional_path', 'shuffled_training', 'foreign_draws',
          'validation_toggled', 'clock_jump', 'early_crash_before')
STATE_MEASURE = 'digest of (procedure, settings, result digest)'
REAL = ['train_model, predict of the three model families', 'split_dataset',
        'RandomStrainPathGenerator, ProportionalStrainPathGenerator',
        'torch / numpy / random generators']
STUB = ['clock, directory listing order, disk']
ASSUMPTIONS = ['one thread per process; bitwise equality is asked on one '
               'machine and library version only']
SHRINK_LISTS = ('envs',)


def gen(seed, tier):
    r = rng(seed, 'gen')
    what = r.choices(['train', 'predict', 'split', 'path'], [6, 2, 2, 3])[0]
    scn = p03.gen_scn(r, seed)
    scn['what'] = what
    ses = p03.gen_session(r, 0, scn)
    ses.update(n=r.choice([0, 1, 3]), seed=r.choice([0, 1, 7, 12345]),
               shuffle=r.random() < 0.8, data=r.randint(2, 6))
    scn['session'] = ses
    scn['split'] = r.choice([{'train': 0.5, 'test': 0.5},
                             {'a': 0.7, 'b': 0.2, 'c': 0.1},
                             {'x': 0.34, 'y': 0.66}])
    scn['n_split'] = r.choice([10, 17, 30])
    scn['path'] = {'kind': r.choice(['polynomial', 'polynomial',
                                     'proportional', 'proportional',
                                     'gaussian_process']),
                   'dim': r.choice([2, 3]), 'n_time': r.choice([9, 15]),
                   'n_control': r.choice([4, [3, 6]]),
                   'inc': r.choice([None, 0.01]),
                   'noise': r.choice([None, 1e-3]),
                   'cycle': r.choice([None, 1, 2]),
                   'form': 'infinitesimal'}
    envs = []
    for i in range(r.choice([2, 2, 3])):
        envs.append({'id': i, 'burn': r.randint(0, 50),
                     'reseed': r.choice([None, 3, 99]),
                     'foreign': r.random() < 0.5,
                     'clock': r.random() < 0.5,
                     'listing': r.choice(['shuffle', 'sorted', 'reverse']),
                     'valid': what == 'train' and r.random() < 0.4,
                     'before': r.choice([None, None, 'train', 'path',
                                         'crash'])})
    scn['envs'] = envs
    return scn


def burn(n, key):
    for _ in range(n):
        random.random()
        np.random.rand()
        torch.rand(1)


def reseed(value):
    random.seed(value)
    np.random.seed(value)
    torch.manual_seed(value)


class Foreign:
    """Unrelated code that draws from the global generators meanwhile."""

    def __init__(self, ctx, key):
        self.ctx, self.key, self.n = ctx, key, 0

    def __call__(self, _):
        self.n += 1
        k = h64(self.key, self.n) % 3
        burn(k, None)
        if k:
            self.ctx.probe('foreign_draws')


def run(ctx):
    scn = ctx.scn
    results = []
    for env in scn['envs']:
        place = os.path.join(ctx.scratch, f'run_{env["id"]}')
        os.mkdir(place)
        fs = SimFS(ctx.scratch, ctx, listing=env['listing'], chunk=8192)
        fs.clock_jumps = env['clock']
        if env['clock']:
            ctx.probe('clock_jump')
        with fs.installed():
            if env['reseed'] is not None:
                reseed(env['reseed'])
            burn(env['burn'], env['id'])
            before(ctx, fs, scn, env, place)
            results.append(one(ctx, fs, scn, env, place))
        ctx.log('result', results[-1][0])
    base = results[0]
    for env, res in zip(scn['envs'][1:], results[1:]):
        for key in base[1]:
            ctx.check(build.state_equal(base[1][key], res[1][key]),
                      f'{scn["what"]}-not-reproducible',
                      lambda: f'{scn["what"]} with seed '
                      f'{scn["session"]["seed"]}: {key} differs between '
                      f'environments {scn["envs"][0]} and {env}')
    if len(results) > 1:
        ctx.nontrivial = True
    ctx.state((scn['what'], base[0]))


def before(ctx, fs, scn, env, place):
    """Unrelated earlier work in the same process."""
    if env['before'] == 'path':
        make_path(scn, dict(scn['path'], kind='proportional'), 4321, {})
    elif env['before'] in ('train', 'crash'):
        other = os.path.join(place, 'other')
        os.mkdir(other)
        ses = dict(scn['session'], n=1, seed=5, id=-1)
        data = train.Recording(build.samples(99, 3, n_time=3))
        if env['before'] == 'crash':
            fs.arm({10: {'kind': 'eio', 'frac': 0.0}})
            ctx.probe('early_crash_before')
        train.run_session(ctx, fs, scn, ses, other, data)
        fs.disarm()


def one(ctx, fs, scn, env, place):
    what, ses = scn['what'], dict(scn['session'])
    foreign = Foreign(ctx, (ctx.seed, env['id'])) if env['foreign'] else None
    if what == 'split':
        return split(ctx, scn)
    if what == 'path':
        out = make_path(scn, scn['path'], ses['seed'], env)
        ctx.probe({'polynomial': 'random_path', 'gaussian_process': 'gp_path',
                   'proportional': 'proportional_path'}[scn['path']['kind']])
        return out
    directory = os.path.join(place, 'model')
    os.mkdir(directory)
    samples = build.samples(scn['data_seed'], ses['data'], n_time=3)
    data = train.Recording(samples)
    if what == 'train':
        valid = None
        if env['valid']:
            valid = train.Recording(build.samples(5, 2, n_time=3))
            ses['early'] = {'validation_frequency': 1,
                            'trigger_tolerance': 1000}
            ctx.probe('validation_toggled')
        data.on_read = foreign
        (status, value), _ = train.run_session(ctx, fs, scn, ses, directory,
                                               data, valid)
        if status != 'ok':
            raise Violation('training-failed', f'{type(value).__name__}: '
                            f'{str(value)[:300]}') from value
        ctx.probe('train')
        if ses['shuffle']:
            ctx.probe('shuffled_training')
        rec = train.read_pickle(os.path.join(directory,
                                             'loss_history_record.pkl'))
        m, o = train.slots_on_disk(directory, p03.NAMES[scn['kind']])
        losses = [float(x) for x in rec['training_loss_history']]
        return digest_of(losses), {
            'initial weights': m[('init', None)],
            'visiting order': data.log[-len(samples)*len(losses):],
            'loss history': losses,
            'weights': {k: v.detach() for k, v in
                        value[0].state_dict().items()},
            'best loss': value[1], 'best epoch': value[2],
            'best state': [m[s] for s in m if s[0] == 'best'],
            'optimizer': [o[s]['state']['state'] for s in sorted(o, key=str)]}
    # Prediction with a trained model
    model_dir = os.path.join(place, 'm')
    os.mkdir(model_dir)
    (status, value), _ = train.run_session(ctx, fs, scn, ses, model_dir,
                                           train.Recording(samples))
    if status != 'ok':
        raise Violation('training-failed', f'{type(value).__name__}: '
                        f'{str(value)[:300]}') from value
    out = os.path.join(place, 'pred')
    os.mkdir(out)
    burn(env['burn'], None)
    data.on_read = foreign
    sub, loss = ctx.must('predict', train.predict_fn(scn['kind']), data,
                         model_dir, predict_directory=out,
                         model_load_state='best', batch_size=ses['batch'],
                         seed=ses['seed'])
    ctx.probe('predict')
    preds = [train.read_pickle(os.path.join(
        sub, f'prediction_sample_{i}.pkl'))['features_out']
        for i in range(len(samples))]
    return digest_of([float(loss)]), {'predictions': preds,
                                      'loss': float(loss)}


def split(ctx, scn):
    from time_series_data.time_dataset import split_dataset
    data = build.dataset(1, scn['n_split'], n_time=2)
    parts = ctx.must('split_dataset', split_dataset, data, scn['split'],
                     seed=scn['session']['seed'])
    ctx.probe('split')
    out = {k: list(map(int, v.indices)) for k, v in parts.items()}
    return digest_of(out), out


def make_path(scn, path, seed, env):
    from data_generation.strain_paths.random_path import \
        RandomStrainPathGenerator
    from data_generation.strain_paths.proportional_path import \
        ProportionalStrainPathGenerator
    cls = (ProportionalStrainPathGenerator if path['kind'] == 'proportional'
           else RandomStrainPathGenerator)
    gen_ = cls(path['form'], path['dim'])
    comps = (('11', '22', '12') if path['dim'] == 2 else
             ('11', '22', '33', '12', '23', '13'))
    bounds = {c: (-0.05, 0.04 + 0.01*i) for i, c in enumerate(comps)}
    order = list(comps)
    rng(scn['seed'], 'order', env.get('id')).shuffle(order)
    bounds = {c: bounds[c] for c in order}
    kw = dict(strain_bounds=bounds, n_time=path['n_time'],
              inc_strain_norm=path['inc'], strain_noise_std=path['noise'],
              n_cycle=path['cycle'], random_seed=seed)
    if path['kind'] != 'proportional':
        n = path['n_control']
        kw['n_control'] = tuple(n) if isinstance(n, list) else n
        kw['generative_type'] = path['kind']
    comps, hist, strain = gen_.generate_strain_path(**kw)
    return digest_of(strain.tolist()), {
        'components': list(comps), 'time': hist, 'strain': strain}


def digest_of(obj):
    from dst.core import digest
    return digest(obj)
