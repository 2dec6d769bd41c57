"""P07: data set files survive faults; edits and moves are all or nothing."""
import os
import shutil

import numpy as np
import torch

from dst import build
from dst.core import SimCrash, Violation, rng
from dst.vfs import SimFS, _real_torch_load

RUNS = {'quick': 2200, 'thorough': 60000}
LEVEL = 'fault_enumeration'
RULE = ('one run = a seeded history over a file-backed data set, an in-memory '
        'twin and their stored data set and subset files: sample updates, '
        'label changes, added, concatenated, summed, strain- and '
        'stress-based features, saving, '
        'splitting, moving the directory and re-pointing the stored files, '
        'reloading in a new process; up to three crashes, torn writes or '
        'I/O errors on single I/O calls; a hit operation is repeated after '
        'the restart; non-trivial = a fault fired inside an operation')
PROBES = ('crash', 'error', 'partial_edit', 'edit_resumed', 'dataset_file_hit',
          'moved', 'same_name', 'move_incomplete', 'subset_moved', 'split', 'in_memory',
          'rename', 'concat', 'sum', 'add', 'update', 'derive',
          'derive_refused')
STATE_MEASURE = 'digest of (labels of all samples, data set files) per step'
REAL = ['TimeSeriesDataset, TimeSeriesDatasetInMemory', 'save_dataset, '
        'load_dataset, split_dataset, feature editing functions',
        'torch serialisation, pickle']
STUB = ['disk (seam over real files in a scratch directory)',
        'directory listing order']
ASSUMPTIONS = ['process-crash model as in P01',
               'features replaced by a concatenation or sum of a file-backed '
               'data set may be kept (the code keeps them)']
SHRINK_LISTS = ('faults', 'ops')

EDITS = ('rename', 'add', 'concat', 'sum')


def gen(seed, tier):
    r = rng(seed, 'gen')
    ops = []
    for i in range(r.randint(2, 8)):
        what = r.choices(['update', 'rename', 'add', 'concat', 'sum', 'save',
                          'split', 'move', 'badmove', 'reload', 'mem_add',
                          'mem_remove', 'derive'],
                         [4, 3, 2, 3, 3, 3, 2, 3, 1, 2, 1, 1, 1])[0]
        op = {'id': i, 'op': what, 'pick': r.random(), 'pick2': r.random(),
              'tag': r.randint(1, 10**6)}
        if what in ('concat', 'sum'):
            op['n_src'] = r.choice([1, 2, 2, 3])
            op['remove'] = r.random() < 0.4
            op['weights'] = r.choice([None, None, 'some', 'all'])
        if what == 'rename':
            op['extra'] = r.random() < 0.3
        if what == 'split':
            op['sizes'] = r.choice([{'a': 0.5, 'b': 0.5},
                                    {'tr': 0.6, 'va': 0.2, 'te': 0.2}])
            op['copy'] = r.random() < 0.3
            op['seed'] = r.choice([None, 0, 5])
            op['base'] = r.choice([None, 'ss'])
        if what == 'derive':
            op['what'] = r.choice(['i1_strain', 'i2_strain', 'vol_stress',
                                   'dev_stress'])
            op['dim'] = r.choice([3, 3, 3, 3, 2])
        if what == 'save':
            op['append'] = r.random() < 0.6
        ops.append(op)
    ids = [op['id'] for op in ops if op['op'] not in ('reload', 'badmove',
                                                      'mem_add', 'mem_remove')]
    faults = []
    if ids and r.random() < 0.9:
        for k in sorted(r.sample(ids, min(len(ids), r.choice([1, 1, 2, 3])))):
            faults.append({'op': k, 'pos': r.random(),
                           'kind': r.choice(['crash', 'crash_after', 'torn',
                                             'enospc', 'eio', 'intr']),
                           'frac': r.choice([0.0, 0.3, 0.9])})
    return {'n': r.choice([3, 5, 11, 13]), 'time': r.choice([1, 3]),
            'ops': ops, 'faults': faults, 'chunk': r.choice([512, 4096]),
            'listing': r.choice(['shuffle', 'reverse'])}


def shrink(scn):
    for n in (3, 5):
        if scn['n'] > n:
            new = build.snapshot(scn)
            new['n'] = n
            yield new


# =============================================================================
class World:
    """The data set as it must be, and what is stored where."""

    def __init__(self, ctx, fs, scn):
        self.ctx, self.fs, self.scn = ctx, fs, scn
        self.home = os.path.join(ctx.scratch, 'home')
        self.store = os.path.join(ctx.scratch, 'store')
        os.mkdir(self.home)
        os.mkdir(self.store)
        self.moves = 0
        self.samples = build.samples(ctx.seed % 2**31, scn['n'],
                                     n_time=scn['time'])
        self.order = list(range(scn['n']))
        for i, s in enumerate(self.samples):
            torch.save(s, self.path(i))
        self.files = {}          # stored files: name -> list of parent indices
        self.at = {}             # stored files: directory they point to
        self.memory = build.snapshot(self.samples)
        self.open()

    def path(self, i):
        return os.path.join(self.home, f'ss_paths_sample_{i}.pt')

    def open(self):
        """A new process opens the data set."""
        from time_series_data.time_dataset import (TimeSeriesDataset,
                                                   TimeSeriesDatasetInMemory)
        self.dataset = TimeSeriesDataset(
            self.home, [self.path(i) for i in range(self.scn['n'])],
            dataset_basename='ss_paths')
        self.mem = TimeSeriesDatasetInMemory(build.snapshot(self.memory))


def run(ctx):
    scn = ctx.scn
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'], chunk=scn['chunk'])
    faults = {f['op']: f for f in scn['faults']}
    with fs.installed():
        w = World(ctx, fs, scn)
        for op in scn['ops']:
            ctx.log(op['op'], op['id'])
            step(ctx, fs, w, op, faults.get(op['id']))
            verify(ctx, w, op)


def tensor(tag, shape):
    gen = np.random.Generator(np.random.PCG64(tag))
    return torch.tensor(gen.standard_normal(shape), dtype=torch.float32)


def plan(w, op):
    """(real calls on the file-backed and in-memory sets, new samples)."""
    from time_series_data import time_dataset as td
    what, n = op['op'], w.scn['n']
    new = build.snapshot(w.samples)
    labels = sorted(k for k in new[0] if k != 'time_hist')
    optional = set()
    if what == 'update':
        i = int(op['pick']*n)
        sample = build.snapshot(new[i])
        key = labels[int(op['pick2']*len(labels))]
        sample[key] = tensor(op['tag'], tuple(sample[key].shape))
        new[i] = sample

        def call(ds):
            ds.update_dataset_sample(i, build.snapshot(sample))
        return call, new, optional
    if what == 'rename':
        old = labels[int(op['pick']*len(labels))]
        mapping = {old: f'r{op["id"]}'}
        if op.get('extra'):
            mapping = {'missing': 'nothing', **mapping}
        for s in new:
            s[mapping[old]] = s.pop(old)
        return (lambda ds: td.change_dataset_features_labels(
            ds, dict(mapping))), new, optional
    if what == 'add':
        value = tensor(op['tag'], (1, 2))
        for s in new:
            s[f'h{op["id"]}'] = value
        return (lambda ds: td.add_dataset_feature_init(
            ds, f'h{op["id"]}', value.clone())), new, optional
    # Concatenation and sum of features with the same number of rows
    same = [k for k in labels if new[0][k].shape[0] == w.scn['time']]
    if what == 'sum':
        width = new[0][same[int(op['pick']*len(same))]].shape[1]
        same = [k for k in same if new[0][k].shape[1] == width]
    r = rng(w.ctx.seed, 'src', op['id'])
    src = r.sample(same, min(op['n_src'], len(same)))
    label = f'n{op["id"]}'
    if what == 'concat':
        for s in new:
            s[label] = torch.cat([s[k] for k in src], 1)

        def call(ds):
            td.concatenate_dataset_features(ds, label, tuple(src),
                                            is_remove_features=op['remove'])
    else:
        weights = None
        if op['weights'] is not None:
            weights = {k: 0.5 + j for j, k in enumerate(src)
                       if op['weights'] == 'all' or j % 2 == 0}
        for s in new:
            s[label] = sum((weights or {}).get(k, 1.0)*s[k] for k in src)

        def call(ds):
            td.sum_dataset_features(
                ds, label, tuple(src), features_weights=build.snapshot(
                    weights), is_remove_features=op['remove'])
    if op['remove']:
        optional = set(src)
    return call, new, optional


def attempt(ctx, fs, fault, fn, budget):
    """Run an operation under its fault; (status, value)."""
    fired0 = total(ctx)
    if fault is not None:
        fs.arm({int(fault['pos']*budget): fault})
    try:
        status, value = 'ok', fn()
    except Violation:
        raise
    except SimCrash as exc:
        status, value = 'crash', exc
    except (Exception, KeyboardInterrupt) as exc:
        status, value = 'err', exc
    fs.disarm()
    if fs.dead:
        status = 'crash'
        fs.restart()
    if status == 'err':
        if total(ctx) == fired0 or not isinstance(
                value, (OSError, KeyboardInterrupt)):
            raise Violation('operation-failed', f'{type(value).__name__}: '
                            f'{str(value)[:300]}') from value
    if status != 'ok':
        ctx.probe('crash' if status == 'crash' else 'error')
        ctx.nontrivial = True
    return status, value


def total(ctx):
    return sum(v for k, v in ctx.faults.items() if k != 'shuffled_listing')


def step(ctx, fs, w, op, fault):
    what = op['op']
    if what in EDITS or what == 'update':
        edit(ctx, fs, w, op, fault)
    elif what == 'save':
        save(ctx, fs, w, op, fault)
    elif what == 'split':
        split(ctx, fs, w, op, fault)
    elif what == 'move':
        move(ctx, fs, w, op, fault)
    elif what == 'badmove':
        badmove(ctx, w)
    elif what == 'derive':
        derive(ctx, fs, w, op, fault)
    elif what == 'reload':
        w.open()
    elif what == 'mem_add':
        extra = [{k: tensor(op['tag'] + j, tuple(v.shape))
                  for k, v in w.memory[0].items()} for j in range(2)]
        ctx.must('add samples', w.mem.add_dataset_samples,
                 build.snapshot(extra))
        w.memory += extra
        ctx.probe('in_memory')
    elif what == 'mem_remove':
        n = len(w.memory)
        idx = sorted({int(op['pick']*n), int(op['pick2']*n)})
        if len(idx) < n:
            ctx.must('remove samples', w.mem.remove_dataset_samples, idx)
            w.memory = [s for i, s in enumerate(w.memory) if i not in idx]
        ctx.probe('in_memory')


def derived(what, order, path):
    """Reference of a strain- or stress-based feature history."""
    out = []
    for row in path.double().numpy():
        full = np.zeros((3, 3))
        for c, x in zip(order, row):
            i, j = int(c[0]) - 1, int(c[1]) - 1
            full[i, j] = full[j, i] = x
        tr = full[0, 0] + full[1, 1] + full[2, 2]
        if what == 'i1_strain':
            out.append([tr])
        elif what == 'i2_strain':
            out.append([0.5*(tr**2 - float((full*full).sum()))])
        elif what == 'vol_stress':
            out.append([tr/3.0])
        else:
            out.append([full[int(c[0]) - 1, int(c[1]) - 1]
                        - (tr/3.0 if c[0] == c[1] else 0.0) for c in order])
    return torch.tensor(np.array(out), dtype=torch.float32)


def derive(ctx, fs, w, op, fault):
    """Add a strain- or stress-based feature to sets of response paths."""
    from model_architectures.materials.strain_features import \
        add_strain_features
    from model_architectures.materials.stress_features import \
        add_stress_features
    from time_series_data.time_dataset import (TimeSeriesDataset,
                                               TimeSeriesDatasetInMemory)
    what, n, dim = op['what'], w.scn['n'], op['dim']
    src = what.rsplit('_', 1)[-1]
    order = ['11', '22', '33', '12', '23', '13'] if dim == 3 else [
        '11', '22', '12']
    r = rng(ctx.seed, 'order', op['id'])
    r.shuffle(order)
    order = tuple(order)
    home = os.path.join(ctx.scratch, f'derive{op["id"]}')
    os.mkdir(home)
    old = []
    for i in range(n):
        old.append({f'{src}_path': tensor(op['tag'] + i,
                                          (w.scn['time'], len(order))),
                    'time_hist': torch.full((w.scn['time'], 1), float(i))})
    new = [{**s, what: derived(what, order, s[f'{src}_path'])} if dim == 3
           else s for s in old]
    files = [os.path.join(home, f'ss_paths_sample_{i}.pt') for i in range(n)]
    extra = {f'{src}_comps_order': order}
    for s, path in zip(old, files):
        torch.save({**s, **extra}, path)
    add = add_strain_features if src == 'strain' else add_stress_features

    def call():
        return add(TimeSeriesDataset(home, list(files), 'ss_paths'), what)

    def stored(i):
        got = read(files[i])
        ok = got.pop(f'{src}_comps_order', None) == order
        return got, ok
    if dim == 2:
        ctx.probe('derive_refused')
        try:
            call()
        except RuntimeError:
            for i in range(n):
                got, ok = stored(i)
                ctx.check(ok and same_sample(got, old[i]), 'mixed-sample',
                          f'a refused {what} changed sample {i}')
            return
        raise Violation('bad-accepted', f'{what} of a plane path was computed')
    ctx.probe('derive')
    status, _ = attempt(ctx, fs, fault, call, 4 + 4*n)
    if status != 'ok':
        for i in range(n):
            try:
                got, ok = stored(i)
            except Exception as exc:
                raise Violation('sample-damaged', f'sample {i} cannot be read '
                                f'after {what} was hit by {fault["kind"]}: '
                                f'{type(exc).__name__}') from exc
            ctx.check(ok and (same_sample(got, old[i])
                              or same_sample(got, new[i])), 'mixed-sample',
                      f'sample {i} is neither its old nor its new version')
        ctx.must(f'{what} repeated after {fault["kind"]}', call)
    for i in range(n):
        got, ok = stored(i)
        ctx.check(ok and same_sample(got, new[i]), 'wrong-edit', lambda:
                  f'{what} gave sample {i} {describe(got)} instead of '
                  f'{describe(new[i])}')
    mem = ctx.must(f'{what} of in-memory data set', add,
                   TimeSeriesDatasetInMemory([
                       {**build.snapshot(s), **extra} for s in old]), what)
    for i in range(n):
        got = dict(mem[i])
        ok = got.pop(f'{src}_comps_order', None) == order
        ctx.check(ok and same_sample(got, new[i]), 'wrong-edit', lambda:
                  f'{what} gave sample {i} in memory {describe(got)}')


def read(path):
    return _real_torch_load(path, map_location='cpu')


def same_sample(got, want, optional=()):
    keys = set(got)
    return (keys | set(optional) == set(want) | set(optional)
            and set(want) - set(optional) <= keys
            and all(build.state_equal(got[k], want[k]) if k not in want
                    or not want[k].is_floating_point()
                    else bool(torch.allclose(got[k], want[k], rtol=1e-5,
                                             atol=1e-6))
                    and got[k].shape == want[k].shape
                    for k in keys))


def edit(ctx, fs, w, op, fault):
    call, new, optional = plan(w, op)
    ctx.probe(op['op'])
    budget = 4 + (4 if op['op'] == 'update' else 4*w.scn['n'])
    status, _ = attempt(ctx, fs, fault, lambda: call(w.dataset), budget)
    if status != 'ok':
        # Every sample is its complete old or new version
        n_new = 0
        for i in range(w.scn['n']):
            try:
                got = read(w.path(i))
            except Exception as exc:
                raise Violation(
                    'sample-damaged', f'sample {i} cannot be read after '
                    f'{op["op"]} was hit by {fault["kind"]}: '
                    f'{type(exc).__name__} {str(exc)[:100]}') from exc
            is_new = same_sample(got, new[i], optional)
            ctx.check(is_new or same_sample(got, w.samples[i]), 'mixed-sample',
                      f'sample {i} is neither its old nor its new version '
                      f'after {op["op"]} was hit by {fault["kind"]}')
            n_new += is_new
        if 0 < n_new < w.scn['n']:
            ctx.probe('partial_edit')
        w.open()
        ctx.must(f'{op["op"]} repeated after {fault["kind"]}', call, w.dataset)
        ctx.probe('edit_resumed')
    # The samples as stored are now the new ones
    for i in range(w.scn['n']):
        got = read(w.path(i))
        ctx.check(same_sample(got, new[i], optional), 'wrong-edit',
                  lambda: f'{op["op"]} gave sample {i} {describe(got)} instead '
                  f'of {describe(new[i])}')
        if optional:
            new[i] = {k: v for k, v in new[i].items() if k in got}
    kept = {k for k in optional if k in new[0]}
    w.samples = new
    # The in-memory twin
    if op['op'] == 'update':
        return
    before = w.memory
    old, w.samples = w.samples, before
    call, new, optional = plan_memory(w, op, call, before, old, kept)
    if call is None:
        w.samples = old
        return
    ctx.must(f'{op["op"]} of in-memory data set', call, w.mem)
    w.memory, w.samples = new, old
    ctx.probe('in_memory')


def plan_memory(w, op, call, before, after_file, kept):
    """The same edit on the in-memory twin (features given up are removed)."""
    labels = [k for k in before[0] if k != 'time_hist']
    if not any(before[0][k].shape[0] == w.scn['time'] for k in labels):
        return None, None, None
    n = w.scn['n']
    w.scn['n'] = len(before)
    try:
        call, new, optional = plan(w, op)
    finally:
        w.scn['n'] = n
    for s in new:
        for k in optional:
            s.pop(k, None)
    return call, new, set()


def describe(sample):
    return {k: [tuple(v.shape), round(float(v.double().sum()), 4)]
            for k, v in sample.items()}


def load_stored(ctx, w, name):
    from time_series_data.time_dataset import load_dataset
    return ctx.must(f'load {name}', load_dataset, os.path.join(w.store, name))


def save(ctx, fs, w, op, fault):
    from time_series_data.time_dataset import save_dataset
    base = ('one', 'two')[int(op['pick']*2)]
    name = base + (f'_n{w.scn["n"]}' if op['append'] else '') + '.pkl'

    def call():
        return save_dataset(w.dataset, base, w.store,
                            is_append_n_sample=op['append'])
    status, value = attempt(ctx, fs, fault, call, 5)
    if status != 'ok':
        ctx.probe('dataset_file_hit')
        verify_stored(ctx, w, {name: [(list(range(w.scn['n'])), w.home)]})
        value = ctx.must('save repeated', call)
    ctx.check(os.path.realpath(value) == os.path.realpath(
        os.path.join(w.store, name)), 'wrong-file', f'saved to {value}')
    w.files[name] = list(range(w.scn['n']))
    w.at[name] = w.home


def split(ctx, fs, w, op, fault):
    from time_series_data.time_dataset import split_dataset
    before = {f: None for f in os.listdir(w.store)}
    sizes = op['sizes'] if w.scn['n'] >= 5 else {'a': 0.5, 'b': 0.5}

    def call():
        return split_dataset(w.dataset, dict(sizes),
                             is_copy_dataset=op['copy'], is_save_subsets=True,
                             subsets_directory=w.store,
                             subsets_basename=op['base'], seed=op['seed'])
    with torch.random.fork_rng():
        torch.manual_seed(op['tag'])
        status, value = attempt(ctx, fs, fault, call,
                                4*len(sizes) + 1)
    if status != 'ok':
        ctx.probe('dataset_file_hit')
        # Files that existed still hold a complete subset
        for name in before:
            if name.endswith('.pkl'):
                load_stored(ctx, w, name)
        with torch.random.fork_rng():
            torch.manual_seed(op['tag'] + 1)
            value = ctx.must('split repeated', call)
    ctx.probe('split')
    seen = []
    for key, sub in value.items():
        name = (f'{op["base"]}_' if op['base'] else '') + \
            f'{key}_n{len(sub)}.pkl'
        ctx.check(os.path.isfile(os.path.join(w.store, name)), 'missing-file',
                  f'subset file {name} was not written')
        stored = load_stored(ctx, w, name)
        ctx.check(list(stored.indices) == list(sub.indices), 'wrong-subset',
                  f'stored subset {key} is not the returned one')
        w.files[name] = [int(i) for i in sub.indices]
        w.at[name] = w.home
        seen += w.files[name]
    ctx.check(sorted(seen) == list(range(w.scn['n'])), 'not-a-partition',
              f'subsets hold the samples {sorted(seen)}')


def move(ctx, fs, w, op, fault):
    from time_series_data.time_dataset import TimeSeriesDataset
    w.moves += 1
    where = rng(ctx.seed, op['id'], 'where').randrange(3)
    if where == 0:
        new = os.path.join(ctx.scratch, f'home{w.moves}')
    elif where == 1:
        # Same directory name elsewhere
        parent = os.path.join(ctx.scratch, f'moved{w.moves}')
        os.mkdir(parent)
        new = os.path.join(parent, os.path.basename(w.home))
        ctx.probe('same_name')
    else:
        # The old path is a prefix of the new one
        new = w.home + '_b'
    shutil.move(w.home, new)
    old, w.home = w.home, new
    given = new + os.sep if op['pick2'] < 0.2 else new
    for j, name in enumerate(sorted(w.files)):
        if w.at[name] == old or op['pick'] < 0.8:
            def call():
                TimeSeriesDataset.update_dataset_file_internal_directory(
                    os.path.join(w.store, name), given)
            f = fault if j == int(op['pick2']*len(w.files)) else None
            status, _ = attempt(ctx, fs, f, call, 5)
            if status != 'ok':
                ctx.probe('dataset_file_hit')
                stored = load_stored(ctx, w, name)
                ds = getattr(stored, 'dataset', stored)
                at = os.path.normpath(ds.get_dataset_directory())
                ctx.check(at in (os.path.normpath(w.at[name]), new),
                          'mixed-dataset', f'{name} points to {at}')
                ctx.check(all(os.path.dirname(p) == at
                              for p in ds.get_dataset_sample_files()),
                          'mixed-dataset', f'{name} mixes directories')
                ctx.must('re-pointing repeated', call)
            w.at[name] = new
            ctx.probe('subset_moved' if w.files[name] != list(
                range(w.scn['n'])) else 'moved')
    w.open()


def badmove(ctx, w):
    """Re-pointing to a directory that lacks a sample changes nothing."""
    from time_series_data.time_dataset import TimeSeriesDataset
    incomplete = os.path.join(ctx.scratch, f'part{w.moves}')
    os.makedirs(incomplete, exist_ok=True)
    for i in range(w.scn['n'] - 1):
        shutil.copy(w.path(i), incomplete)
    for name in sorted(w.files):
        with open(os.path.join(w.store, name), 'rb') as f:
            before = f.read()
        try:
            TimeSeriesDataset.update_dataset_file_internal_directory(
                os.path.join(w.store, name), incomplete)
        except RuntimeError:
            pass
        except Exception as exc:
            raise Violation('operation-failed', f'{type(exc).__name__}: '
                            f'{exc}') from exc
        else:
            raise Violation('bad-move-accepted', f'{name} was re-pointed to a '
                            'directory that lacks a sample')
        with open(os.path.join(w.store, name), 'rb') as f:
            ctx.check(f.read() == before, 'bad-move-damage',
                      f'a refused move changed {name}')
        ctx.probe('move_incomplete')
    # The same on an open data set
    files = list(w.dataset.get_dataset_sample_files())
    if hasattr(w.dataset, '_update_dataset_directory'):
        try:
            w.dataset._update_dataset_directory(incomplete)
        except RuntimeError:
            pass
        ctx.check(list(w.dataset.get_dataset_sample_files()) == files
                  and os.path.normpath(w.dataset.get_dataset_directory())
                  == w.home, 'bad-move-damage', 'a refused move changed the '
                  'open data set')


def verify_stored(ctx, w, alternatives=None):
    """Stored files load and give exactly their samples."""
    names = {f for f in os.listdir(w.store) if f.endswith('.pkl')}
    alternatives = alternatives or {}
    for name in set(w.files) - names:
        raise Violation('file-lost', f'data set file {name} disappeared')
    for name in sorted(names):
        stored = load_stored(ctx, w, name)
        options = list(alternatives.get(name, []))
        if name in w.files:
            options.append((w.files[name], w.at[name]))
        parent = getattr(stored, 'dataset', stored)
        idx = ([int(i) for i in stored.indices]
               if hasattr(stored, 'indices') else list(range(len(stored))))
        ctx.check(any(idx == o[0] and os.path.normpath(
            parent.get_dataset_directory()) == os.path.normpath(o[1])
            for o in options), 'wrong-dataset-file',
            lambda: f'{name} holds samples {idx} of '
            f'{parent.get_dataset_directory()}, expected one of {options}')
        if os.path.normpath(parent.get_dataset_directory()) == w.home:
            for k, i in enumerate(idx):
                got = ctx.must(f'read sample {k} of {name}',
                               stored.__getitem__, k)
                ctx.check(same_sample(got, w.samples[i]), 'wrong-sample',
                          f'sample {k} of {name} is not sample {i}')


def verify(ctx, w, op):
    ctx.check(len(w.dataset) == w.scn['n'], 'wrong-length',
              'the data set changed its length')
    for i in range(w.scn['n']):
        got = ctx.must(f'read sample {i}', w.dataset.__getitem__, i)
        ctx.check(same_sample(got, w.samples[i]), 'wrong-sample',
                  lambda: f'after {op["op"]} sample {i} reads {describe(got)},'
                  f' expected {describe(w.samples[i])}')
    ctx.check(len(w.mem) == len(w.memory), 'wrong-length',
              f'in-memory data set has {len(w.mem)} samples')
    for i, want in enumerate(w.memory):
        ctx.check(same_sample(w.mem[i], want), 'wrong-sample',
                  lambda: f'after {op["op"]} in-memory sample {i} is '
                  f'{describe(w.mem[i])}, expected {describe(want)}')
    # A copy handed out is independent
    copies = w.mem.get_dataset_samples()
    for s in copies[:2]:
        for v in s.values():
            v.add_(1.0)
    for i, want in enumerate(w.memory[:2]):
        ctx.check(same_sample(w.mem[i], want), 'aliased-copy',
                  'changing a handed-out copy changed the data set')
    verify_stored(ctx, w)
    ctx.state((sorted(w.samples[0]), sorted(w.files), len(w.memory)))
