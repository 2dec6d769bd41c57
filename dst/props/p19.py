"""P19: the local updating pipeline trains on exactly the generated data."""
import contextlib
import inspect
import io
import os
import random
import re
import shutil
import sys

import numpy as np
import torch

from dst import build, env
from dst.core import SimCrash, Violation, h64, hfloat, rng
from dst.vfs import SimFS

RUNS = {'quick': 700, 'thorough': 25000}
RULE = ('one run = a seeded sequence of data generation, assembly, preview '
        'and model updating requests over seeded temperatures, compositions '
        'and sample numbers in one directory, with material response '
        'failures, foreign files and directories, a seeded listing order, '
        'and crashes, torn writes, I/O errors or interrupts at seeded points '
        'followed by a repeated request; non-trivial = at least one data set '
        'was generated or assembled')
PROBES = ('generated', 'assembled', 'reduced', 'updated', 'repredicted',
          'preview', 'response_failure', 'response_gave_up', 'close_values',
          'random_only', 'proportional_too', 'ratio_refused', 'foreign_files',
          'unknown_type', 'nothing_to_assemble', 'second_generation',
          'missing_data_set', 'kept_directory', 'crash', 'error', 'interrupt',
          'retried')
STATE_MEASURE = 'digest of (request, sizes, refused or not, fault met)'
REAL = ['user_scripts/complete_pipelines/local_model_update',
        'strain path generators', 'von Mises model set-up',
        'time_series_data/time_dataset', 'ioput/iostandard']
STUB = ['disk, listing order, clock', 'material response computation (known '
        'values, seeded failures; the real one is subject of P11 and P12)',
        'training and prediction of the realisations (the arguments are '
        'recorded; P17)']
ASSUMPTIONS = ['temperatures and compositions are sorted and within the '
               'bounds of the material data']
SHRINK_LISTS = ('ops',)

FAULTS = ('crash', 'crash_after', 'torn', 'enospc', 'eio', 'intr')
DIRS = {'training': '1_training_dataset',
        'validation': '2_validation_dataset',
        'testing_id': '5_testing_id_dataset'}


def gen(seed, tier):
    r = rng(seed, 'gen')
    scn = {'seed': seed, 'listing': r.choice(['shuffle', 'shuffle', 'sorted',
                                              'reverse']),
           'foreign': r.random() < 0.6, 'ops': []}
    kinds = ['generate', 'assemble'] + [
        r.choice(['generate', 'assemble', 'assemble', 'update', 'update',
                  'preview', 'dir']) for _ in range(r.choice([1, 2, 3]))]
    if r.random() < 0.1:
        r.shuffle(kinds)
    for i, kind in enumerate(kinds):
        types = r.sample(list(DIRS), r.choice([1, 2] + [3]*8))
        temps = sorted(r.sample([25.0, 125.0, 225.0, 325.0, 625.0],
                                r.choice([1, 1, 1, 2, 2, 4])))
        comps = sorted(r.sample([0.0, 0.25, 0.5, 1.0], r.choice([1, 2])))
        if r.random() < 0.2:
            types.append('testing_od')
        if r.random() < 0.15:
            comps = [0.5, 0.501, 0.503][:r.choice([2, 3])]
        op = {'id': i, 'op': kind, 'temps': temps, 'comps': comps,
              'n': {t: r.choice([1, 2, 3, 4, 4, 8]) for t in types},
              'ratio': {t: r.choice([0.25, 0.5, 0.75, 1.0, 0.0])
                        for t in types if r.random() < 0.5},
              'p_fail': r.choice([0.0, 0.0, 0.0, 0.2, 0.2, 0.5, 0.9]),
              'types': r.sample([t for t in types if t in DIRS],
                                r.randint(1, len(types)) if r.random() < 0.4
                                and 'testing_od' not in types else
                                len([t for t in types if t in DIRS])),
              'reduce': ({t: r.choice([0.5, 0.75, 1.0, 0.34])
                          for t in types if r.random() < 0.7}
                         if r.random() < 0.4 else None),
              'unknown': r.random() < 0.12,
              'train': r.random() < 0.6, 'n_model': r.choice([1, 2]),
              'over': r.random() < 0.3}
        for t, f in list(op['ratio'].items()):
            n = op['n'][t]
            if r.random() < 0.9 and (int(n*f) < 1 and f > 0.0):
                del op['ratio'][t]
        if r.random() < 0.4:
            op['fault'] = {'kind': r.choice(FAULTS), 'pos': r.random(),
                           'frac': r.random()}
        scn['ops'].append(op)
    return scn


def shrink(scn):
    for key, val in (('foreign', False), ('listing', 'sorted')):
        if scn[key] != val:
            new = build.snapshot(scn)
            new[key] = val
            yield new
    for i, op in enumerate(scn['ops']):
        if 'fault' in op:
            new = build.snapshot(scn)
            del new['ops'][i]['fault']
            yield new
        for key, val in (('p_fail', 0.0), ('reduce', None), ('ratio', {}),
                         ('unknown', False), ('temps', op['temps'][:1]),
                         ('comps', op['comps'][:1])):
            if op[key] != val:
                new = build.snapshot(scn)
                new['ops'][i][key] = val
                yield new
        for t in list(op['n']):
            new = build.snapshot(scn)
            if op['n'][t] > 1:
                new['ops'][i]['n'][t] = 1
            elif len(op['n']) > 1:
                del new['ops'][i]['n'][t]
            else:
                continue
            yield new


# =============================================================================
def rebind(real, stub):
    undo = []
    for module in list(sys.modules.values()):
        if (getattr(module, '__file__', None) or '').startswith(env.SRC):
            for attr, val in list(vars(module).items()):
                if val is real:
                    setattr(module, attr, stub)
                    undo.append((module, attr, real))
    return undo


def fired(ctx):
    return sum(ctx.faults.values())


def attempt(ctx, fs, call):
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out:
            value = call()
        status = 'ok'
        if value is None:
            value = out.getvalue()
    except Violation:
        raise
    except SimCrash as exc:
        status, value = 'crash', exc
    except (Exception, KeyboardInterrupt) as exc:
        status, value = 'err', exc
    fs.disarm()
    if fs.dead:
        fs.restart()
    return status, value


class Refused(Exception):
    pass


class World:
    """One updating directory and what its data sets have to hold."""

    def __init__(self, ctx, fs):
        from time_series_data.time_dataset import load_dataset
        import user_scripts.complete_pipelines.local_model_update as mod
        self.ctx, self.fs, self.scn, self.mod = ctx, fs, ctx.scn, mod
        self.load = load_dataset
        self.base = os.path.join(ctx.scratch, 'base')
        os.mkdir(self.base)
        self.root = os.path.join(self.base, 'local_model_update')
        os.mkdir(self.root)
        self.sim = os.path.join(self.root, '0_simulation')
        self.source = None        # type -> list of lists of sample keys
        self.final = {}           # type -> list of sample keys
        self.samples = {}         # key -> sample
        self.n_call = 0
        self.calls = []
        self.paths = []
        self.plan = {}

    # ------------------------------------------------------------ the material
    def response(self, strain_comps_order, time_hist, strain_path,
                 constitutive_model, state_features={}, is_verbose=False):
        """Known response of the material; fails where the seed says."""
        self.n_call += 1
        par = constitutive_model.get_model_parameters()
        E = float(par['E'])
        fail = hfloat(self.scn['seed'], 'fail', self.op['id'],
                      self.n_call) < self.op['p_fail']
        if fail:
            self.ctx.fault('response-failure')
            self.hits += 1
            self.ctx.probe('response_failure')
        stress = np.array(strain_path)*E*1e-3 + 0.001*self.n_call
        state = {k: np.full((len(time_hist), v), float(self.n_call))
                 for k, v in state_features.items()}
        self.calls.append({'E': E, 'strain': np.array(strain_path),
                           'time': np.array(time_hist), 'stress': stress,
                           'state': state, 'fail': fail,
                           'kind': self.paths[-1]})
        return strain_comps_order, stress, state, fail

    def install(self):
        from data_generation.strain_paths.proportional_path import \
            ProportionalStrainPathGenerator
        from data_generation.strain_paths.random_path import \
            RandomStrainPathGenerator
        from user_scripts.synthetic_data.gen_response_dataset import \
            MaterialResponseDatasetGenerator as Generator
        w = self
        self.undo = []

        def put(cls, name, new):
            self.undo.append((cls, name, getattr(cls, name)))
            setattr(cls, name, new)
        put(Generator, 'compute_stress_path',
            lambda _self, *a, **k: w.response(*a, **k))
        for cls, kind in ((RandomStrainPathGenerator, 'random'),
                          (ProportionalStrainPathGenerator, 'prop')):
            real = cls.generate_strain_path

            def path(_self, *a, _real=real, _kind=kind, **k):
                w.paths.append(_kind)
                return _real(_self, *a, **k)
            put(cls, 'generate_strain_path', path)

    def uninstall(self):
        for cls, name, real in self.undo:
            setattr(cls, name, real)

    # ---------------------------------------------------------------- contents
    def key(self, sample):
        return int(sample['acc_p_strain'][0, 0])

    def read(self, path, truth=None):
        out = []
        data = self.load(path)
        for i in range(len(data)):
            s = data[i]
            k = self.key(s)
            if truth is not None:
                self.ctx.check(k in truth and build.state_equal(s, truth[k]),
                               'sample-changed', lambda: 'a data set holds a '
                               f'sample that was never generated ({path})')
            out.append((k, s))
        return out

    def litter(self):
        """Foreign files that look like data sets."""
        if not self.scn['foreign']:
            return
        self.ctx.probe('foreign_files')
        j = os.path.join
        for top, dirs, files in list(os.walk(self.root)):
            dirs.sort()
            name = os.path.basename(top)
            if not name.endswith('_dataset'):
                continue
            good = sorted(f for f in files if re.match(
                r'^ss_paths_dataset_n\d+\.pkl$', f))
            for f in good:
                for extra in (f + '.bak', 'old_' + f, f + '~'):
                    if not os.path.exists(j(top, extra)):
                        shutil.copyfile(j(top, f), j(top, extra))
            if '0_simulation' in top and good:
                for old in (top + '_old',
                            j(os.path.dirname(top), 'old_' + name),
                            j(self.root, 'backup', name)):
                    if not os.path.exists(old) and not name.startswith('old_'):
                        os.makedirs(old)
                        shutil.copyfile(j(top, good[0]), j(old, good[0]))


# =============================================================================
def run_generate(w, op):
    ctx, mod = w.ctx, w.mod

    def call():
        w.calls.clear()
        random.seed(h64(w.scn['seed'], op['id'], 'r') % 2**31)
        np.random.seed(h64(w.scn['seed'], op['id'], 'n') % 2**31)
        torch.manual_seed(h64(w.scn['seed'], op['id'], 't') % 2**31)
        ratio = build.snapshot(op['ratio'])
        n = build.snapshot(op['n'])
        kw = {} if not ratio and op['id'] % 2 else {
            'rnd_strain_path_ratio': ratio}
        w.first = len(w.paths)
        mod.generate_material_data(
            w.root, 'infinitesimal', 4, 'von_mises',
            temperatures=list(op['temps']), compositions=list(op['comps']),
            n_sample_type=n, is_save_dataset_plots=False, **kw)
        ctx.check(n == op['n'] and ratio == op['ratio'], 'argument-changed',
                  'the given numbers or ratios were changed')

    def refused():
        for t, n in op['n'].items():
            f = op['ratio'].get(t, 1.0)
            if (int(n*f) < 1 and f > 0.0) or (int(n*f) == n and f < 1.0):
                ctx.probe('ratio_refused')
                return True
        return False

    def gave_up():
        """Ten failures in a row."""
        streak = 0
        for c in w.calls:
            streak = streak + 1 if c['fail'] else 0
            if streak >= 10:
                return True
        return False

    def verify(_):
        ctx.probe('generated')
        if w.source is not None:
            ctx.probe('second_generation')
        good = {int(c['state']['acc_p_strain'][0, 0]): c for c in w.calls
                if not c['fail']}
        used = set()
        w.source = {t: [] for t in op['n']}
        w.samples = {}
        found = {t: [] for t in op['n']}
        for top, dirs, files in os.walk(w.sim):
            dirs.sort()
            for name in sorted(files):
                t = os.path.basename(top)
                ctx.check(t.endswith('_dataset') and t[:-8] in op['n'],
                          'wrong-files', lambda: f'{name} in {top}')
                found[t[:-8]].append(os.path.join(top, name))
        pairs = [(T, C) for T in op['temps'] for C in op['comps']]
        if len({f'{T:.2f}/{C:.2f}' for T, C in pairs}) < len(pairs):
            ctx.probe('close_values')
        for t, n in op['n'].items():
            ctx.check(len(found[t]) == len(pairs), 'wrong-number', lambda:
                      f'{len(found[t])} {t} data sets of {len(pairs)} pairs '
                      'of temperature and composition')
            left = list(pairs)
            n_rnd = int(n*op['ratio'].get(t, 1.0))
            ctx.probe('random_only' if n_rnd == n else 'proportional_too')
            for path in found[t]:
                rows = w.read(path)
                ctx.check(len(rows) == n, 'wrong-number', lambda: f'{t}: '
                          f'{len(rows)} samples instead of {n}')
                kinds = []
                keys = []
                where = None
                for k, s in rows:
                    ctx.check(k in good and k not in used, 'wrong-sample',
                              'a sample of a failed response or the same '
                              'sample twice is in the data sets')
                    used.add(k)
                    c = good[k]
                    T, C = check_sample(ctx, mod, s, c)
                    kinds.append(c['kind'])
                    keys.append(k)
                    w.samples[k] = s
                    near = neighbours(op, t, T, C, left)
                    where = near if where is None else where & near
                ctx.check(bool(where), 'wrong-sample', lambda: f'{t}: the '
                          'samples of a data set do not belong to one pair '
                          f'of temperature and composition ({path})')
                name = os.path.basename(os.path.dirname(os.path.dirname(
                    path)))
                named = [p for p in where if name.startswith(
                    f'T{p[0]:.2f}_C{p[1]:.2f}')]
                ctx.check(bool(named), 'wrong-sample', lambda: f'{t}: the '
                          f'data set in {name} belongs to {sorted(where)}')
                # Training samples name their pair exactly
                left.remove(sorted(named)[0])
                ctx.check(kinds.count('random') == n_rnd, 'wrong-paths',
                          lambda: f'{t}: {kinds.count("random")} random '
                          f'strain paths instead of {n_rnd}')
                w.source[t].append(keys)
        ctx.nontrivial = True
    return refused, gave_up, call, verify


def neighbours(op, t, T, C, left):
    """Pairs of nominal values a sample with these values can belong to."""
    out = set()
    for T0, C0 in left:
        if t not in ('validation', 'testing_id'):
            ok = abs(T - T0) < 1e-3 and abs(C - C0) < 1e-6
        else:
            ok = True
            for x, x0, grid in ((T, T0, op['temps']), (C, C0, op['comps'])):
                i = grid.index(x0)
                lo, up = grid[max(0, i - 1)], grid[min(i + 1, len(grid) - 1)]
                ok = ok and lo - 1e-4 <= x <= up + 1e-4
        if ok:
            out.add((T0, C0))
    return out


def check_sample(ctx, mod, s, c):
    """One sample is the response to its strain path, at its conditions."""
    n = len(c['time'])

    def same(name, got, want):
        got = np.asarray(got, dtype=float)
        ctx.check(got.shape == want.shape and np.allclose(
            got, want, rtol=1e-5, atol=1e-7), 'wrong-sample', lambda:
            f'{name} of a sample is not the one of its response')
    same('strain_path', s['strain_path'], c['strain'])
    same('stress_path', s['stress_path'], c['stress'])
    same('time_hist', s['time_hist'], c['time'].reshape(-1, 1))
    for k, v in c['state'].items():
        same(k, s[k], v)
    ctx.check(tuple(s['strain_comps_order']) == tuple(s['stress_comps_order']),
              'wrong-sample', 'component orders differ')
    T, C = s['temperature_hist'], s['composition_hist']
    for x in (T, C):
        ctx.check(tuple(x.shape) == (n, 1) and bool((x == x[0, 0]).all()),
                  'wrong-sample', 'temperature or composition vary in a '
                  'sample')
    T, C = float(T[0, 0]), float(C[0, 0])
    E = float(mod.get_model_parameters('von_mises', T, C)['E'])
    ctx.check(abs(E - c['E']) <= 1e-4*abs(E), 'wrong-sample', lambda:
              f'the response was computed with E={c["E"]}, the temperature '
              f'and composition stored with it give {E}')
    return T, C


def run_assemble(w, op):
    ctx, mod = w.ctx, w.mod
    types = list(op['types'])
    if op['unknown']:
        types = types + ['testing_od']

    def call():
        torch.manual_seed(h64(w.scn['seed'], op['id'], 't') % 2**31)
        random.seed(h64(w.scn['seed'], op['id'], 'r') % 2**31)
        mod.assemble_material_datasets(
            w.root, 'infinitesimal', 4, list(types), 'ss_paths_dataset',
            size_balanced_reduction=build.snapshot(op['reduce']))

    def refused():
        if op['unknown']:
            ctx.probe('unknown_type')
            return True
        for t in types:
            if not (w.source or {}).get(t):
                ctx.probe('nothing_to_assemble')
                return True
        # Reduction to nothing at all: not judged
        return None if any(not sum(want_n(op, t, keys)
                                   for keys in w.source[t])
                           for t in types) else False

    def verify(_):
        for t in types:
            check_final(w, op, t)
            ctx.probe('assembled')
        ctx.nontrivial = True
    return refused, None, call, verify


def want_n(op, t, keys):
    f = (op['reduce'] or {}).get(t, 1.0)
    return int(len(keys)*f)


def check_final(w, op, t):
    ctx = w.ctx
    d = os.path.join(w.root, DIRS[t])
    total = sum(want_n(op, t, keys) for keys in w.source[t])
    ctx.check(os.listdir(d) == [f'ss_paths_dataset_n{total}.pkl'],
              'wrong-number', lambda: f'{DIRS[t]} holds {os.listdir(d)}, '
              f'{total} samples were due')
    rows = w.read(os.path.join(d, f'ss_paths_dataset_n{total}.pkl'),
                  w.samples)
    keys = [k for k, _ in rows]
    ctx.check(len(keys) == total and len(set(keys)) == total, 'wrong-number',
              lambda: f'{t}: {len(keys)} samples, {len(set(keys))} different,'
              f' {total} due')
    for group in w.source[t]:
        n = len(set(group) & set(keys))
        ctx.check(n == want_n(op, t, group), 'wrong-number', lambda: f'{t}: '
                  f'{n} samples of one source instead of '
                  f'{want_n(op, t, group)}')
    if (op['reduce'] or {}).get(t, 1.0) < 1.0:
        ctx.probe('reduced')
    w.final[t] = keys


def run_preview(w, op):
    ctx, mod = w.ctx, w.mod

    def call():
        mod.preview_material_datasets_sizes(
            op['temps'], op['comps'], n_sample_type=dict(op['n']))

    def verify(text):
        ctx.probe('preview')
        total = [int(x) for x in re.findall(
            r'Total number of samples: (\d+)', text)]
        n = len(op['temps'])*len(op['comps'])
        ctx.check(total == [n*k for k in op['n'].values()], 'wrong-preview',
                  lambda: f'preview of {total} for {n} pairs of {op["n"]}')
    return lambda: False, None, call, verify


def run_dir(w, op):
    ctx, mod = w.ctx, w.mod

    def call():
        return mod.set_lmu_dir(w.base, is_overwrite=False)

    def verify(value):
        ctx.probe('kept_directory')
        ctx.check(os.path.normpath(value) == w.root, 'wrong-directory',
                  lambda: f'{value} instead of {w.root}')
    return lambda: False, None, call, verify


def run_update(w, op):
    ctx, mod = w.ctx, w.mod
    got = []
    j = os.path.join
    real = mod.perform_model_uq
    sig = inspect.signature(real)

    def stub(*args, **kwargs):
        a = sig.bind(*args, **kwargs)
        a.apply_defaults()
        a = dict(a.arguments)
        for key, t in (('train_dataset_file_path', 'training'),
                       ('val_dataset_file_path', 'validation'),
                       ('test_dataset_file_path', 'testing_id')):
            want = j(w.root, DIRS[t],
                     f'ss_paths_dataset_n{len(w.final[t])}.pkl')
            ctx.check(os.path.normpath(str(a[key])) == want, 'wrong-data',
                      lambda: f'{key} is {a[key]}, the assembled data set is '
                      f'{want}')
        ctx.check(a['n_model_sample'] == op['n_model'] and
                  a['is_model_training'] == op['train'], 'wrong-request',
                  'number of models or training not as asked')
        uq = j(w.root, 'uncertainty_quantification')
        ctx.check(os.path.normpath(a['uq_directory']) == uq
                  and os.path.isdir(uq), 'wrong-directory', 'uncertainty '
                  'quantification directory')
        have = build.tree(uq)
        if op['train']:
            ctx.check(not have, 'models-mixed', 'models of an earlier '
                      'updating were left in the directory')
        else:
            ctx.check(have == w.uq, 'models-lost', 'the models of the '
                      'earlier updating are not there')
        for key in ('model_directory', 'predict_directory'):
            d = a[key]
            ctx.check(os.path.isdir(d) and not os.listdir(d), 'models-mixed',
                      f'{key} is not an empty directory')
        for k in range(op['n_model']):
            d = j(uq, f'model_{k}', '3_model')
            os.makedirs(d, exist_ok=True)
            if op['train']:
                with open(j(d, 'state'), 'w') as f:
                    f.write(f'{op["id"]} {k}')
            with open(j(d, f'prediction_{op["id"]}'), 'w') as f:
                f.write('p')
        with open(j(a['model_directory'], 'left'), 'w') as f:
            f.write('x')
        got.append(a)

    def call():
        got.clear()
        undo = rebind(real, stub)
        w.uq = build.tree(j(w.root, 'uncertainty_quantification'))
        try:
            mod.perform_material_model_updating(
                w.root, n_model_sample=op['n_model'],
                is_model_training=op['train'])
        finally:
            for module, attr, r in undo:
                setattr(module, attr, r)

    def refused():
        if set(w.final) != set(DIRS):
            ctx.probe('missing_data_set')
            return True
        return False

    def verify(_):
        ctx.check(len(got) == 1, 'wrong-request', 'not one updating')
        ctx.probe('updated' if op['train'] else 'repredicted')
        for name in ('3_model', '7_prediction'):
            ctx.check(not os.path.exists(j(w.root, name)), 'left-over',
                      f'{name} was left behind')
        uq = build.tree(j(w.root, 'uncertainty_quantification'))
        for k in range(op['n_model']):
            name = f'model_{k}/3_model/prediction_{op["id"]}'
            ctx.check(name in uq, 'models-lost', f'{name} is gone')
        if not op['train']:
            for name, data in w.uq.items():
                if name.endswith(f'prediction_{op["id"]}'):
                    continue
                ctx.check(uq.get(name) == data, 'models-lost',
                          f'{name} was lost')
    return refused, None, call, verify


def request(w, op):
    ctx, fs = w.ctx, w.fs
    w.op = op
    w.litter()
    refused, gave_up, call, verify = globals()['run_' + op['op']](w, op)
    refuse = refused()
    part = {'generate': ('0_simulation',), 'update': (
        'uncertainty_quantification', '3_model', '7_prediction'),
        'assemble': tuple(DIRS[t] for t in op['types'])}.get(op['op'], ())
    before = build.tree(w.root)

    def others(what):
        after = build.tree(w.root)
        for path in sorted(set(before) | set(after)):
            if path.split(os.sep)[0] in part:
                continue
            ctx.check(after.get(path) == before.get(path), 'other-changed',
                      f'{what} changed, created or removed {path}')
    if op.get('fault') and refuse is False:
        scale = {'generate': 8*len(op['temps'])*len(op['comps'])
                 * len(op['n']) + 6, 'assemble': 9*len(op['types']),
                 'update': 16}.get(op['op'], 1)
        fs.arm({int(op['fault']['pos']*scale): op['fault']})
    n = fired(ctx)
    w.hits = 0
    status, value = attempt(ctx, fs, call)
    hit = fired(ctx) - w.hits > n
    others(op['op'])
    if refuse is not False:
        ctx.check(refuse is None or status == 'err', 'accepted', lambda: f'{op["op"]} went '
                  'through although it cannot be done as asked')
        if op['op'] == 'assemble':
            # Types before the bad one may have been assembled
            for t in op['types']:
                w.final.pop(t, None)
                shutil.rmtree(os.path.join(w.root, DIRS[t]),
                              ignore_errors=True)
        elif op['op'] == 'generate':
            w.source = None
            shutil.rmtree(w.sim, ignore_errors=True)
        ctx.state((op['op'], 'refused'))
        return
    if status != 'ok' and hit:
        ctx.probe({'crash': 'crash'}.get(
            status, 'interrupt' if isinstance(value, KeyboardInterrupt)
            else 'error'))
        status, value = attempt(ctx, fs, call)
        others(op['op'])
        ctx.probe('retried')
    if gave_up is not None and gave_up():
        ctx.check(status == 'err', 'accepted', 'a sample was stored although '
                  'every allowed trial failed')
        ctx.probe('response_gave_up')
        w.source = None
        shutil.rmtree(w.sim, ignore_errors=True)
        return
    if status != 'ok':
        raise Violation('request-failed', f'{op["op"]} raised '
                        f'{type(value).__name__}: {str(value)[:250]}')
    verify(value)
    ctx.state((op['op'], sorted(op['n'].items()), len(op['temps']),
               len(op['comps']), hit))


# =============================================================================
def run(ctx):
    torch.set_default_dtype(torch.float32)
    fs = SimFS(ctx.scratch, ctx, listing=ctx.scn['listing'], chunk=4096)
    with fs.installed():
        w = World(ctx, fs)
        w.install()
        try:
            for op in ctx.scn['ops']:
                ctx.log('op', op['id'], op['op'])
                request(w, op)
        finally:
            w.uninstall()
