"""P03: what a training run records is what it did, also across crashes."""
import os

import torch

from dst import build, train
from dst.core import SimCrash, Violation, rng
from dst.vfs import SimFS

RUNS = {'quick': 1100, 'thorough': 30000}
RULE = ('one run = one to four training sessions of a GRU, constitutive or '
        'hybrid model over one model directory (fresh, or continued from the '
        'init, best, last or a given epoch), each optionally hit by one '
        'crash, torn write, I/O error or interrupt at a seeded I/O call or '
        'sample read; every file and returned value is compared with an '
        'independent training loop over the observed batches; non-trivial = '
        'at least one session completed or was hit by a fault after its first '
        'epoch')
PROBES = ('read_back', 'completed', 'continued', 'crash_mid_training', 'error_mid_training',
          'interrupt_mid_training', 'best_not_last', 'resume_after_fault',
          'scheduler', 'shuffled', 'normalised', 'bound_active', 'ragged_batch')
STATE_MEASURE = 'digest of (session settings, slots on disk) after each session'
REAL = ['train_model of the three model families', 'data loaders and scalers',
        'model_state_files', 'model_training', 'torch optimizers']
STUB = ['disk, directory listing order, clock',
        'data set (records the reads)']
ASSUMPTIONS = ['forward pass and automatic differentiation are shared with '
               'the reference loop', 'process-crash model as in P01']
SHRINK_LISTS = ('sessions',)

NAMES = {'gru': 'gru_material_model', 'rc': 'wrapper_recurrent_model',
         'hybrid': 'hybrid_material_model'}


def gen_scn(r, seed, kinds=('gru', 'gru', 'gru', 'rc', 'rc', 'hybrid')):
    kind = r.choice(kinds)
    scn = {'kind': kind, 'hidden': r.choice([2, 3]),
           'layers': r.choice([1, 1, 2]),
           'norm_in': kind == 'gru' and r.random() < 0.5,
           'norm_out': r.random() < 0.5,
           'scaling': r.choice(['mean-std', 'min-max']) if kind == 'gru'
           else 'mean-std',
           'material': 'elastic', 'norm_par': r.random() < 0.6,
           'learn': r.choice([['E'], ['E', 'v'], ['v']]),
           'data_seed': r.randint(1, 10**6),
           'listing': r.choice(['shuffle', 'sorted', 'reverse'])}
    if kind == 'rc':
        scn['init'] = {p: r.choice([build.BOUNDS[p][0]*1.01,
                                    sum(build.BOUNDS[p])/2,
                                    build.BOUNDS[p][1]*0.999])
                       for p in scn['learn']}
    return scn


def gen_session(r, i, scn):
    ses = {'id': i, 'n': r.choice([0, 1, 2, 3, 4, 6]),
           'lr': r.choice([1e-3, 0.02, 0.3, 1.5]),
           'loss': r.choice(['mse', 'mse', 'mre']),
           'batch': r.choice([1, 2, 3, 8]), 'shuffle': r.random() < 0.6,
           'load': None, 'save_every': r.choice([None, 1, 1, 2, 3]),
           'seed': r.choice([None, 7, 11]), 'data': r.randint(1, 5),
           'sched': None, 'tag': r.randint(0, 2)}
    if r.random() < 0.35:
        ses['sched'] = r.choice([
            ['steplr', {'step_size': r.randint(1, 2), 'gamma': 0.3}],
            ['explr', {'gamma': 0.7}],
            ['linlr', {'start_factor': 0.5, 'total_iters': 3}]])
    if scn['kind'] == 'rc' and not scn['norm_par']:
        ses['lr'] *= 10
    if scn['kind'] == 'rc' and r.random() < 0.2:
        ses['norm_loss'] = True
    if i > 0 and r.random() < 0.75:
        ses['load'] = r.choice(['best', 'last', 'init', 'int'])
        ses['pick'] = r.random()
    return ses


def gen(seed, tier):
    r = rng(seed, 'gen')
    scn = gen_scn(r, seed)
    sessions = []
    for i in range(r.choice([1, 2, 2, 3, 4])):
        ses = gen_session(r, i, scn)
        if r.random() < 0.5:
            where = r.choice(['io', 'io', 'io', 'read'])
            if where == 'io':
                ses['fault'] = {'where': 'io', 'pos': r.random(),
                                'kind': r.choice(['crash', 'crash_after',
                                                  'torn', 'enospc', 'eio',
                                                  'intr']),
                                'frac': r.choice([0.0, 0.5])}
            else:
                ses['fault'] = {'where': 'read', 'pos': r.random(),
                                'kind': r.choice(['crash', 'intr', 'error'])}
        sessions.append(ses)
    scn['sessions'] = sessions
    return scn


def shrink(scn):
    """Smaller variants of one scenario."""
    for i, ses in enumerate(scn['sessions']):
        for key, val in (('fault', None), ('sched', None), ('n', 0), ('n', 1),
                         ('n', 2), ('data', 1), ('data', 2), ('batch', 1),
                         ('shuffle', False), ('save_every', None),
                         ('loss', 'mse')):
            if ses.get(key) not in (None, val):
                new = build.snapshot(scn)
                new['sessions'][i][key] = val
                yield new
    for key, val in (('norm_in', False), ('norm_out', False), ('layers', 1)):
        if scn.get(key) not in (None, val):
            new = build.snapshot(scn)
            new[key] = val
            yield new


# =============================================================================
class History:
    """What the model directory must contain, session after session."""

    def __init__(self):
        self.m, self.o = {}, {}
        self.scal = None          # normalisation stored with the model
        self.records = None       # loss record
        self.exists = False       # training can be continued
        self.had_file = False     # initialization file written


def resolve_load(ses, hist):
    """Target of a continued session: (argument, slot) or None if missing."""
    if ses['load'] is None or not hist.exists:
        return None
    epochs = sorted(s[1] for s in hist.m if s[0] == 'epoch')
    if ses['load'] == 'int':
        if not epochs:
            return None
        e = epochs[int(ses['pick']*len(epochs))]
        return e, ('epoch', e)
    if ses['load'] == 'last':
        return ('last', ('epoch', epochs[-1])) if epochs else None
    if ses['load'] == 'best':
        best = sorted((s for s in hist.m if s[0] == 'best'),
                      key=lambda s: -1 if s[1] is None else s[1])
        return ('best', best[-1]) if best else None
    return ('init', ('init', None)) if ('init', None) in hist.m else None


def run(ctx):
    scn = ctx.scn
    directory = os.path.join(ctx.scratch, 'model')
    os.mkdir(directory)
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'], chunk=4096)
    hist = History()
    with fs.installed():
        for ses in scn['sessions']:
            session(ctx, fs, scn, dict(ses), directory, hist)


def session(ctx, fs, scn, ses, directory, hist):
    name = NAMES[scn['kind']]
    target = resolve_load(ses, hist)
    ses['load'] = target[0] if target else None
    samples = build.samples(scn['data_seed'], ses['data'], n_time=3,
                            tag=ses['tag'])
    data = train.Recording(samples)
    mark = {'init': None}

    def on_event(kind, path):
        if 'init.pt' in path:
            mark['init'] = len(data.log)
    fs.on_event = on_event
    fault = ses.get('fault')
    if fault:
        budget = 12 + (ses['n'] + 1)*(10 if ses['save_every'] == 1 else 7)
        if fault['where'] == 'io':
            fs.arm({int(fault['pos']*budget): fault})
        else:
            n_fit = 2*len(samples) if scn['norm_in'] or scn['norm_out'] else 0
            at = 1 + int(fault['pos']*((ses['n'] + 1)*len(samples) + n_fit))
            data.on_read = reader_fault(ctx, fs, at, fault['kind'])
    (status, value), _ = train.run_session(ctx, fs, scn, ses, directory, data)
    fs.on_event = None
    fs.disarm()
    fired = status != 'ok'
    if status == 'crash':
        fs.restart()
    if fired and not fault:
        raise Violation(
            'training-failed', f'session {ses["id"]} raised '
            f'{type(value).__name__}: {str(value)[:300]} without any fault'
        ) from value
    if fired and status == 'err' and not isinstance(
            value, (OSError, KeyboardInterrupt)):
        raise Violation(
            'training-failed', f'session {ses["id"]} turned an injected '
            f'{fault["kind"]} into {type(value).__name__}: '
            f'{str(value)[:200]}') from value
    check_session(ctx, scn, ses, directory, hist, samples, data.log,
                  mark['init'], target, status, value, name)


def reader_fault(ctx, fs, at, kind):
    from dst.core import SimInterrupt

    def on_read(n):
        if n == at:
            ctx.fault(f'{kind}@read')
            if kind == 'crash':
                fs.dead = True
                raise SimCrash()
            if kind == 'intr':
                raise SimInterrupt('simulated interrupt')
            raise OSError(5, 'simulated read error of a sample')
    return on_read


def check_session(ctx, scn, ses, directory, hist, samples, log, mark, target,
                  status, value, name):
    kind = scn['kind']
    n_sample = len(samples)
    got_m, got_o = train.slots_on_disk(directory, name)
    old_m, old_o = hist.m, hist.o
    began = mark is not None and ('init', None) in got_m
    # Normalisation stored with the model: the old or the newly fitted one
    fitted = train.scaling(samples, scn['scaling'])
    needed = scn['norm_in'] or scn['norm_out']
    has_file = os.path.isfile(os.path.join(directory, 'model_init_file.pkl'))
    ctx.check(has_file or not hist.had_file, 'init-file-lost',
              'the model initialization file disappeared')
    scal = None
    if has_file:
        scal = which_scaling(ctx, scn, directory,
                             [fitted, hist.scal] if ses['load'] is None
                             else [hist.scal, fitted])
        if status == 'ok' and ses['load'] is None:
            ctx.check(scal is fitted if needed or ses.get('norm_loss')
                      else scal is None, 'wrong-scalers',
                      'the trained model does not carry the normalisation of '
                      'its training data')
        elif status == 'ok':
            ctx.check(scal is hist.scal, 'wrong-scalers', 'continuing the '
                      'training changed the stored normalisation')
    # Fresh training over an old directory that died before the new
    # normalisation was fitted cannot be continued
    hist.had_file = has_file
    hist.exists = has_file and (scal is not None or not needed)
    # Initial state of the session
    if began:
        init = got_m[('init', None)]
        if target is not None and status == 'ok':
            ctx.check(build.state_equal(init, old_m[target[1]]),
                      'wrong-start', f'session {ses["id"]} continued from '
                      f'{target[0]} but its initial state is not that state')
    epochs = []
    if mark is not None:
        epochs = train.epochs_of(log, n_sample, mark)
    for e, order in enumerate(epochs):
        ctx.check(sorted(order) == list(range(n_sample)), 'not-every-sample',
                  f'epoch {e} visited samples {order} of {n_sample}')
        if not ses['shuffle']:
            ctx.check(order == sorted(order), 'order', 'samples visited out '
                      'of order although shuffling is off')
        elif order != sorted(order):
            ctx.probe('shuffled')
    if n_sample % ses['batch'] and n_sample > ses['batch']:
        ctx.probe('ragged_batch')
    ref = []
    if epochs and began:
        rscal = scal if scal is not None else fitted
        ref = train.reference(scn, ses, directory, ctx, init, samples, rscal,
                              epochs)
    if status == 'ok':
        complete(ctx, scn, ses, directory, ref, got_m, got_o, old_m, epochs,
                 value)
        ctx.probe('completed')
        ctx.nontrivial = True
        if target is not None:
            ctx.probe('continued')
    else:
        interrupted(ctx, ses, ref, got_m, got_o, old_m, old_o, target, began,
                    directory, hist)
        if len(ref) >= 1:
            ctx.nontrivial = True
            ctx.probe({'crash': 'crash_mid_training'}.get(
                status, 'interrupt_mid_training'
                if isinstance(value, KeyboardInterrupt)
                else 'error_mid_training'))
        else:
            ctx.faults['before_first_epoch'] += 1
    if target is not None and hist.records == 'faulted':
        ctx.probe('resume_after_fault')
    if ses['sched']:
        ctx.probe('scheduler')
    if scn['norm_in'] or scn['norm_out']:
        ctx.probe('normalised')
    hist.records = 'faulted' if status != 'ok' else 'ok'
    hist.m, hist.o, hist.scal = got_m, got_o, scal
    ctx.state((kind, ses['n'], ses['batch'], ses['save_every'], str(target),
               sorted(map(str, got_m)), sorted(map(str, got_o)), status))


def which_scaling(ctx, scn, directory, candidates):
    """Which normalisation the stored model carries (None: none)."""
    from model_architectures.procedures.model_data_scaling import \
        data_scaler_transform
    model = train.reload(scn['kind'], directory, ctx)
    probe = torch.linspace(-1.0, 2.0, 12).reshape(2, 6)
    values = []
    try:
        for key in ('features_in', 'features_out'):
            values.append(data_scaler_transform(model, probe.clone(), key))
    except RuntimeError:
        return None
    for cand in candidates:
        if cand is not None and all(
                train.close(v, train.norm(cand, k, probe), rtol=1e-3)
                for v, k in zip(values, ('features_in', 'features_out'))):
            return cand
    raise Violation('wrong-scalers', 'the stored data normalisation is not '
                    'the one of the training data')


def complete(ctx, scn, ses, directory, ref, got_m, got_o, old_m, epochs,
             value):
    model, best_loss, best_epoch = value
    n = len(ref)
    ctx.check(n in (ses['n'], ses['n'] + 1) and n >= 1, 'wrong-length',
              f'{n} epochs were trained, {ses["n"]} requested')
    last = n - 1
    losses = [x['loss'] for x in ref]
    # Loss and learning rate records
    rec = ctx.must('read loss record', train.read_pickle, os.path.join(
        directory, 'loss_history_record.pkl'))
    hist = [float(x) for x in rec['training_loss_history']]
    ctx.check(len(hist) == n, 'loss-record', f'loss record has {len(hist)} '
              f'entries for {n} epochs')
    ctx.check(train.close(hist, losses), 'loss-record',
              lambda: f'recorded losses {hist} differ from {losses}')
    lrs = [float(x[0] if isinstance(x, (list, tuple)) else x)
           for x in rec['lr_history_epochs']]
    ctx.check(len(lrs) == n and train.close(lrs, [x['lr'] for x in ref]),
              'lr-record', lambda: f'recorded learning rates {lrs} differ '
              f'from {[x["lr"] for x in ref]}')
    train.read_back(ctx, scn['kind'], directory)
    with open(os.path.join(directory, 'summary.dat')) as f:
        text = f.read()
    ctx.check(f'{float(best_loss):.8e} (training epoch {best_epoch})' in text,
              'summary', lambda: f'the summary does not state the best loss '
              f'{best_loss} of epoch {best_epoch}')
    # Returned best loss and epoch
    ctx.check(train.close(float(best_loss), min(losses)), 'best-loss',
              f'returned best loss {best_loss}, minimum is {min(losses)}')
    ctx.check(0 <= best_epoch < n and attains(losses, best_epoch),
              'best-epoch', f'returned best epoch {best_epoch} does not '
              f'attain the minimum of {losses}')
    # Best state
    best = [s for s in got_m if s[0] == 'best']
    ctx.check(len(best) == 1, 'best-state', f'best states on disk: {best}')
    e = best[0][1]
    ctx.check(e is not None and e < n and attains(losses, e), 'best-state',
              f'best state is of epoch {e}, losses {losses}')
    if e != last:
        ctx.probe('best_not_last')
    # Epoch states
    want = {last}
    if ses['save_every'] is not None:
        want |= set(range(0, n, ses['save_every']))
    have = {s[1] for s in got_m if s[0] == 'epoch'}
    ctx.check(want <= have, 'missing-epoch-state',
              f'epoch states {sorted(want - have)} are missing')
    stale = {x for x in have - want
             if not build.state_equal(got_m[('epoch', x)],
                                      old_m.get(('epoch', x)))}
    ctx.check(max(have) == last, 'last-state', f'the last epoch on disk is '
              f'{max(have)} but training ended at {last}')
    ctx.check(not stale, 'unknown-epoch-state', f'epoch states {stale} do not '
              f'belong to this training')
    for slot, state in got_m.items():
        if slot[0] == 'init' or slot[1] in have - want:
            continue
        if slot[0] in ('epoch', 'best'):
            ctx.check(train.close(state, ref[slot[1]]['state']),
                      'wrong-weights', f'state {slot} does not hold the '
                      f'weights of its epoch')
    for slot, state in got_o.items():
        if slot[0] == 'epoch' and slot[1] in have - want:
            continue
        if slot[0] in ('epoch', 'best'):
            ctx.check(state['epoch'] == slot[1] and train.optim_close(
                state['state'], ref[slot[1]]['optim']), 'wrong-optimizer',
                f'optimizer state {slot} is not the one of its epoch')
    ctx.check({s for s in got_o if s[0] == 'best'} == set(best)
              and {('epoch', x) for x in want} <= set(got_o),
              'missing-optimizer', 'optimizer states do not accompany the '
              'model states')
    # Returned model
    ctx.check(train.close({k: v.detach() for k, v in
                           model.state_dict().items()}, ref[last]['state']),
              'returned-model', 'the returned model is not the last epoch')
    if scn['kind'] in ('rc', 'hybrid'):
        parameters(ctx, scn, directory, ref, losses, best[0][1])


def parameters(ctx, scn, directory, ref, losses, best_epoch):
    """Parameter records of calibrated models."""
    rec = ctx.must('read best parameters', train.read_pickle, os.path.join(
        directory, 'parameters_best.pkl'))
    model = train.reload(scn['kind'], directory, ctx)
    model.load_state_dict(ref[best_epoch]['state'])
    want = model.get_detached_model_parameters(is_normalized_out=False)
    got = rec['best_model_parameters']
    ctx.check(set(map(str, got)) == set(map(str, want)) and all(
        train.close(float(got[k]), float(want[k]), rtol=1e-3) for k in want),
        'best-parameters', lambda: f'recorded best parameters {got}, state of '
        f'the best epoch has {want}')
    bounds = rec['model_parameters_bounds']
    for k, v in got.items():
        lo, hi = (float(x) for x in bounds[k])
        tol = 1e-5*max(abs(lo), abs(hi))
        ctx.check(lo - tol <= float(v) <= hi + tol, 'out-of-bounds',
                  f'best parameter {k} = {v} outside ({lo}, {hi})')
        if min(abs(float(v) - lo), abs(float(v) - hi)) <= tol:
            ctx.probe('bound_active')
    # Parameter history: the start, then one average per epoch (with or
    # without the value the epoch started from)
    rec = ctx.must('read parameter history', train.read_pickle, os.path.join(
        directory, 'parameters_history_record.pkl'))
    hist = rec['model_parameters_history']
    ctx.check(set(map(str, hist)) == set(ref[0]['params'][0]),
              'parameter-history', f'history of {list(hist)}')
    for key, vals in hist.items():
        key = str(key)
        ctx.check(len(vals) == len(ref) + 1, 'parameter-history',
                  f'{key}: {len(vals)} entries for {len(ref)} epochs')
        for e, x in enumerate(ref):
            path = [p[key] for p in x['params']]
            got = float(vals[e + 1])
            ctx.check(any(train.close(got, sum(p)/len(p), rtol=1e-3)
                          for p in (path, path[1:])), 'parameter-history',
                      lambda: f'{key} of epoch {e} is recorded as {got}, the '
                      f'steps had {path}')


def attains(losses, e):
    return losses[e] <= min(losses)*(1 + 1e-5) + 1e-9


def interrupted(ctx, ses, ref, got_m, got_o, old_m, old_o, target, began,
                directory, hist):
    """After a fault every state is an old one or a true one of its epoch."""
    losses = [x['loss'] for x in ref]
    n = len(ref)
    for slots, olds, key, equal in (
            (got_m, old_m, 'state', train.close),
            (got_o, old_o, 'optim', lambda a, b: train.optim_close(
                a['state'], b))):
        for slot, state in slots.items():
            if slot[0] == 'init':
                continue
            ok = slot in olds and build.state_equal(state, olds[slot])
            if not ok and slot[1] is not None and slot[1] < n:
                ok = equal(state, ref[slot[1]][key])
            ctx.check(ok, 'wrong-state-after-fault',
                      f'after the fault the {key} of {slot} is neither its '
                      f'previous content nor that of its epoch')
    # Nothing that a finished save covered is missing
    for e in range(n - 1):
        if ses['save_every'] is not None and e % ses['save_every'] == 0:
            ctx.check(('epoch', e) in got_m and ('epoch', e) in got_o,
                      'checkpoint-lost', f'the fault struck after epoch {n-1} '
                      f'but the state of epoch {e} is missing')
    best = {s[1] for s in got_m if s[0] == 'best'}
    if n >= 2:
        ctx.check(best, 'best-lost', f'no best state after {n} epochs')
        newest = max(best, key=lambda e: -1 if e is None else e)
        ctx.check(newest is not None and newest < n and (
            attains(losses[:n-1], newest) if newest < n - 1
            else attains(losses, newest)), 'best-lost',
            f'after the fault the best state is of epoch {newest}, losses '
            f'{losses}')
    elif not began or n == 0:
        # The previous best state must still be there
        ctx.check({s[1] for s in old_m if s[0] == 'best'} <= best,
                  'best-lost', 'the previous best state was lost before the '
                  'first epoch finished')
