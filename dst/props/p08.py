"""P08: splits and folds are partitions and no fold sees its own test data."""
import os

import numpy as np
import torch

from dst import build, train
from dst.core import SimCrash, Violation, rng
from dst.props import p03
from dst.vfs import SimFS

RUNS = {'quick': 700, 'thorough': 20000}
RULE = ('one run = either a history of nested data set splits (any sizes, '
        'seeds, copies, parents) or one or two k-fold cross-validations of a '
        'really trained model in one directory, the first possibly cut short '
        'by a crash, interrupt or I/O error at a seeded point; every read of '
        'a sample is recorded; non-trivial = at least two folds were trained '
        'or a split was nested')
PROBES = ('cross_validation', 'rerun_after_fault', 'rerun', 'normalised',
          'uneven_folds', 'leave_one_out', 'split', 'nested_split', 'copied',
          'empty_subset_refused', 'bad_sizes_refused', 'uneven_split')
STATE_MEASURE = 'digest of (sizes, number of folds, settings, outcome)'
REAL = ['split_dataset, get_parent_dataset_indices', 'kfold_cross_validation',
        'train_model, predict of the GRU model', 'sklearn KFold']
STUB = ['disk, directory listing order, clock', 'data set (records the reads)',
        'global random generators (seeded by the simulator)']
ASSUMPTIONS = ['process-crash model as in P01']
SHRINK_LISTS = ('ops',)


def gen(seed, tier):
    r = rng(seed, 'gen')
    scn = p03.gen_scn(r, seed, kinds=('gru',))
    if r.random() < 0.55:
        scn['what'] = 'cv'
        n = r.choice([3, 4, 5, 7])
        scn.update(n=n, folds=r.choice([k for k in (2, 3, 4, 5, 7)
                                        if k <= n]),
                   epochs=r.choice([0, 1, 2]), batch=r.choice([1, 2, 4]),
                   shuffle=r.random() < 0.5, lr=r.choice([0.01, 0.3]),
                   loss='mse', np_seed=r.randint(0, 10**6),
                   times=r.choice([1, 1, 2]), scaling='mean-std')
        if r.random() < 0.5:
            scn['times'] = 2
            scn['fault'] = {'where': r.choice(['io', 'io', 'read']),
                            'pos': r.random(),
                            'kind': r.choice(['crash', 'crash_after', 'torn',
                                              'enospc', 'eio', 'intr']),
                            'frac': 0.5}
        return scn
    scn['what'] = 'split'
    scn['n'] = r.choice([2, 5, 10, 17, 64, 101])
    ops = []
    for i in range(r.randint(1, 5)):
        k = r.choice([1, 2, 2, 3, 4])
        cuts = sorted(r.random() for _ in range(k - 1))
        sizes = [b - a for a, b in zip([0.0] + cuts, cuts + [1.0])]
        if r.random() < 0.4:
            sizes = {1: [1.0], 2: [0.8, 0.2], 3: [0.7, 0.2, 0.1],
                     4: [0.25]*4}[k]
        bad = r.random() < 0.12
        if bad:
            sizes = r.choice([[0.5, 0.6], [0.3], [-0.2, 1.2], [1.5, -0.5]])
        ops.append({'id': i, 'sizes': {f's{j}': x
                                       for j, x in enumerate(sizes)},
                    'seed': r.choice([None, None, 0, 1, 77]), 'bad': bad,
                    'copy': r.random() < 0.25, 'pick': r.random(),
                    'burn': r.randint(0, 20)})
    scn['ops'] = ops
    return scn


def run(ctx):
    (cv if ctx.scn['what'] == 'cv' else splits)(ctx)


# ------------------------------------------------------------------- splitting
def splits(ctx):
    from time_series_data.time_dataset import (get_parent_dataset_indices,
                                               split_dataset)
    scn = ctx.scn
    root = build.dataset(scn['data_seed'], scn['n'], n_time=1)
    ident = {id(root[i]): i for i in range(scn['n'])}
    # Data sets that can be split: (object, indices into the root)
    pool = [(root, list(range(scn['n'])), 0)]
    torch.manual_seed(scn['data_seed'])
    np.random.seed(scn['data_seed'] % 2**32)
    for op in scn['ops']:
        parent, idx, depth = pool[int(op['pick']*len(pool))]
        torch.rand(op['burn'] + 1)
        n = len(parent)
        expect_error = op['bad']
        ctx.log('split', n, list(op['sizes'].values()), op['seed'])
        try:
            out = split_dataset(parent, dict(op['sizes']),
                                is_copy_dataset=op['copy'], seed=op['seed'])
        except RuntimeError as exc:
            if op['bad']:
                ctx.probe('bad_sizes_refused')
                continue
            # Only legitimate if a subset would really be empty
            least = min(op['sizes'].values())*n
            ctx.check(least < 1.0, 'split-refused',
                      f'split of {n} samples into {op["sizes"]} refused: '
                      f'{str(exc)[:100]}')
            ctx.probe('empty_subset_refused')
            continue
        ctx.check(not op['bad'], 'bad-split-accepted',
                  f'split sizes {op["sizes"]} were accepted')
        ctx.check(list(out) == list(op['sizes']), 'wrong-subsets',
                  f'subsets {list(out)}')
        seen = []
        for key, sub in out.items():
            m = len(sub)
            frac = op['sizes'][key]
            ctx.check(m >= 1, 'empty-subset', f'subset {key} is empty')
            ctx.check(abs(m - frac*n) < 1.0 + 1e-6, 'wrong-size',
                      f'subset {key} of size {frac} has {m} of {n} samples')
            if abs(m - frac*n) > 1e-9:
                ctx.probe('uneven_split')
            par = get_parent_dataset_indices(sub, list(range(m)))
            ctx.check(len(set(par)) == m and all(0 <= i < n for i in par),
                      'wrong-parent', f'parent indices {par}')
            back = get_parent_dataset_indices(sub, list(range(m))[::-1])
            ctx.check(back == par[::-1], 'wrong-parent',
                      'parent indices depend on the query')
            for k, i in enumerate(par):
                ctx.check(build.state_equal(sub[k], parent[i]),
                          'wrong-parent', f'sample {k} of {key} is not sample '
                          f'{i} of its parent')
                if not op['copy']:
                    ctx.check(id(sub[k]) in ident and ident[id(sub[k])]
                              == idx[i], 'wrong-sample', f'sample {k} of '
                              f'{key} is not the expected one')
                else:
                    ctx.check(id(sub[k]) not in ident, 'not-a-copy',
                              'the split of a copy shares its samples')
            seen += par
            if not op['copy']:
                pool.append((sub, [idx[i] for i in par], depth + 1))
        ctx.check(sorted(seen) == list(range(n)), 'not-a-partition',
                  f'{n} samples were split into {sorted(seen)}')
        ctx.probe('split')
        if op['copy']:
            ctx.probe('copied')
        if depth:
            ctx.probe('nested_split')
            ctx.nontrivial = True
        ctx.state(('split', n, sorted(op['sizes'].values()), op['seed']))


# ------------------------------------------------------------ cross-validation
def cv(ctx):
    scn = ctx.scn
    root = os.path.join(ctx.scratch, 'cv')
    os.mkdir(root)
    with open(os.path.join(root, 'notes.txt'), 'w') as f:
        f.write('keep')
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'], chunk=4096)
    samples = build.samples(scn['data_seed'], scn['n'], n_time=2)
    hit = False
    with fs.installed():
        for k in range(scn['times']):
            fault = scn.get('fault') if k == 0 else None
            np.random.seed((scn['np_seed'] + k) % 2**32)
            torch.manual_seed(scn['np_seed'] + 3*k)
            status = one(ctx, fs, scn, root, samples, fault, k)
            if status == 'ok' and k:
                ctx.probe('rerun_after_fault' if hit else 'rerun')
            hit = hit or status != 'ok'
    with open(os.path.join(root, 'notes.txt')) as f:
        ctx.check(f.read() == 'keep', 'foreign-file', 'cross-validation '
                  'changed a file that is not its own')


def one(ctx, fs, scn, root, samples, fault, k):
    from model_architectures.rnn_base_model.train.cross_validation import \
        kfold_cross_validation
    data = train.Recording(build.snapshot(samples))
    marks = []

    def on_event(kind, path):
        parts = path.split('>')[-1].split('/')
        for part in parts:
            if part.startswith('fold_') and kind == 'mkdir':
                fold = int(part.split('_')[1])
                what = ('valid' if any(p.startswith('prediction_set')
                                       for p in parts) else 'train')
                if not marks or marks[-1][:2] != (fold, what):
                    marks.append((fold, what, len(data.log)))
    fs.on_event = on_event
    if fault:
        n = scn['n']*(scn['epochs'] + 1)*scn['folds']
        if fault['where'] == 'io':
            fs.arm({int(fault['pos']*scn['folds']
                        * (34 + 7*scn['epochs'])): fault})
        else:
            kind = {'crash_after': 'crash', 'torn': 'crash',
                    'enospc': 'eio'}.get(fault['kind'], fault['kind'])
            data.on_read = p03.reader_fault(ctx, fs,
                                            1 + int(fault['pos']*n), kind)
    ctx.log('cv', k)
    try:
        status, value = 'ok', kfold_cross_validation(
            root, scn['folds'], scn['epochs'], data,
            train.model_args(scn, None), scn['lr'], lr_scheduler_type=None,
            loss_nature='features_out', loss_type=scn['loss'],
            batch_size=scn['batch'], is_sampler_shuffle=scn['shuffle'],
            device_type='cpu')
    except Violation:
        raise
    except SimCrash as exc:
        status, value = 'crash', exc
    except (Exception, KeyboardInterrupt) as exc:
        status, value = 'err', exc
    fs.on_event = None
    fs.disarm()
    if fs.dead:
        status = 'crash'
        fs.restart()
    if status == 'err' and (not fault or not isinstance(
            value, (OSError, KeyboardInterrupt))):
        raise Violation('cross-validation-failed', f'{type(value).__name__}: '
                        f'{str(value)[:300]}') from value
    if status != 'ok':
        return status
    check_cv(ctx, scn, root, samples, data.log, marks, value)
    return status


def check_cv(ctx, scn, root, samples, log, marks, losses):
    n = scn['n']
    bounds = {}
    for j, (fold, what, at) in enumerate(marks):
        end = marks[j + 1][2] if j + 1 < len(marks) else len(log)
        bounds.setdefault((fold, what), []).extend(log[at:end])
    folds = sorted({f for f, _ in bounds})
    ctx.check(folds == list(range(1, scn['folds'] + 1)), 'wrong-folds',
              f'{scn["folds"]} folds requested, trained {folds}')
    validated = []
    sizes = []
    ctx.check(np.shape(losses) == (scn['folds'], 2), 'wrong-results',
              f'results of shape {np.shape(losses)}')
    for fold in folds:
        seen = set(bounds[(fold, 'train')])
        valid = list(bounds.get((fold, 'valid'), []))
        ctx.check(len(valid) == len(set(valid)), 'validated-twice',
                  f'fold {fold} validated {valid}')
        ctx.check(not seen & set(valid), 'leakage', f'fold {fold} was trained '
                  f'on {sorted(seen)} and validated on {sorted(valid)}')
        ctx.check(seen | set(valid) == set(range(n)), 'unused-sample',
                  f'fold {fold} used {sorted(seen | set(valid))} of {n}')
        validated += valid
        sizes.append(len(valid))
        check_fold(ctx, scn, root, samples, fold, sorted(seen), valid,
                   losses[fold - 1])
    ctx.check(sorted(validated) == list(range(n)), 'not-a-partition',
              f'validated samples {sorted(validated)} of {n}')
    ctx.check(max(sizes) - min(sizes) <= 1, 'unbalanced', f'fold sizes '
              f'{sizes}')
    if max(sizes) != min(sizes):
        ctx.probe('uneven_folds')
    if max(sizes) == 1:
        ctx.probe('leave_one_out')
    if scn['norm_in'] or scn['norm_out']:
        ctx.probe('normalised')
    ctx.probe('cross_validation')
    ctx.nontrivial = True
    ctx.state((n, scn['folds'], scn['epochs'], scn['batch'], scn['norm_in'],
               scn['norm_out']))


def check_fold(ctx, scn, root, samples, fold, seen, valid, losses):
    """Results of one fold against its own model and data."""
    base = os.path.join(root, f'fold_{fold}')
    model_dir = os.path.join(base, 'model')
    rec = ctx.must('read loss record', train.read_pickle, os.path.join(
        model_dir, 'loss_history_record.pkl'))
    hist = [float(x) for x in rec['training_loss_history']]
    ctx.check(train.close(float(losses[0]), min(hist)), 'wrong-results',
              f'fold {fold}: reported training loss {losses[0]}, recorded '
              f'minimum {min(hist)}')
    slots, _ = train.slots_on_disk(model_dir, 'gru_material_model')
    best = [s for s in slots if s[0] == 'best']
    ctx.check(len(best) == 1, 'wrong-results', f'fold {fold} has the best '
              f'states {best}')
    scal = train.scaling([samples[i] for i in seen], scn['scaling'])
    if scn['norm_in'] or scn['norm_out']:
        got = p03.which_scaling(ctx, scn, model_dir, [scal])
        ctx.check(got is scal, 'leakage', f'fold {fold} was normalised with '
                  'other data than its training data')
    model = train.reload('gru', model_dir, ctx)
    model.load_state_dict(slots[best[0]])
    model.eval()
    pred_dir = os.path.join(base, 'validation', 'prediction_set_0')
    total = []
    for k, i in enumerate(valid):
        x = samples[i]['features_in'][:, None, :]
        if scn['norm_in']:
            x = train.norm(scal, 'features_in', x)
        with torch.no_grad():
            y = train.forward('gru', model, x)[:, 0, :]
        if scn['norm_out']:
            shift, scale = scal['features_out']
            y = (y.double()*scale + shift).float()
        res = ctx.must('read prediction', train.read_pickle, os.path.join(
            pred_dir, f'prediction_sample_{k}.pkl'))
        ctx.check(build.state_equal(res['targets'],
                                    samples[i]['features_out']),
                  'wrong-results', f'fold {fold}: prediction {k} is not of '
                  f'sample {i}')
        ctx.check(train.close(res['features_out'], y, rtol=1e-3, atol=1e-5),
                  'wrong-results', f'fold {fold}: sample {i} was not '
                  'predicted with the best state of the fold')
        t = samples[i]['features_out']
        if scn['norm_out']:
            t = train.norm(scal, 'features_out', t)
            y = train.norm(scal, 'features_out', y)
        total.append(float(train.loss_of(scn['loss'], y, t)))
    ctx.check(train.close(float(losses[1]), float(np.mean(total)), rtol=2e-3,
                          atol=1e-6), 'wrong-results',
              f'fold {fold}: reported validation loss {losses[1]}, expected '
              f'{np.mean(total)}')
