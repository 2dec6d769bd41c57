"""P04: early stopping stops when it should and restores the right state."""
import os

import numpy as np
import torch

from dst import build, train
from dst.core import Violation, rng
from dst.props import p03
from dst.vfs import SimFS

RUNS = {'quick': 900, 'thorough': 24000}
RULE = ('one run = one training of a GRU, constitutive or hybrid model with a '
        'validation set and a seeded criterion (frequency, patience, '
        'improvement tolerance), in a directory that may hold states of an '
        'earlier training, optionally hit by a crash or I/O error; the '
        'decision is recomputed from an independent training loop; '
        'non-trivial = training was stopped early, or would have been without '
        'a fault')
PROBES = ('stopped', 'not_stopped', 'valid_best_differs', 'frequency_gt_1',
          'temporary_state', 'stale_epoch_state', 'params_criterion_on',
          'crash_in_training', 'small_improvement', 'recovered_after_worse')
STATE_MEASURE = 'digest of (criterion, stop epoch, best epoch, outcome)'
REAL = ['train_model and EarlyStopper of the three model families',
        'predict (validation)', 'model_state_files', 'model_training']
STUB = ['disk, directory listing order, clock', 'data sets (record reads)']
ASSUMPTIONS = p03.ASSUMPTIONS
SHRINK_LISTS = ()


def gen(seed, tier):
    r = rng(seed, 'gen')
    scn = p03.gen_scn(r, seed)
    ses = p03.gen_session(r, 0, scn)
    ses['n'] = r.choice([2, 4, 6, 9, 12])
    ses['lr'] = r.choice([1e-3, 0.05, 0.3, 1.5])*(
        10 if scn['kind'] == 'rc' and not scn['norm_par'] else 1)
    ses['data'] = r.randint(1, 3)
    ses['save_every'] = r.choice([None, None, 1, 2, 3])
    ses['early'] = {'validation_frequency': r.choice([1, 1, 2, 3]),
                    'trigger_tolerance': r.choice([1, 1, 2, 3]),
                    'improvement_tolerance': r.choice([1e-6, 1e-2, 0.3])}
    if scn['kind'] == 'rc' and r.random() < 0.6:
        ses['params_stop'] = True
        ses['params_stop_kwargs'] = {'convergence_tolerance': 0.0}
    if r.random() < 0.35:
        ses['fault'] = {'where': 'io', 'pos': r.random(),
                        'kind': r.choice(['crash', 'crash_after', 'torn',
                                          'enospc', 'eio', 'intr']),
                        'frac': r.choice([0.0, 0.5])}
    scn['session'] = ses
    scn['valid'] = r.randint(1, 3)
    scn['valid_same'] = r.random() < 0.4
    scn['stale'] = r.random() < 0.4
    return scn


def shrink(scn):
    ses = scn['session']
    for key, val in (('fault', None), ('sched', None), ('n', 2), ('n', 4),
                     ('data', 1), ('batch', 1), ('shuffle', False),
                     ('save_every', None), ('loss', 'mse')):
        if ses.get(key) not in (None, val):
            new = build.snapshot(scn)
            new['session'][key] = val
            yield new
    for key, val in (('norm_in', False), ('norm_out', False), ('layers', 1),
                     ('stale', False), ('valid', 1)):
        if scn.get(key) not in (None, val):
            new = build.snapshot(scn)
            new[key] = val
            yield new


def valid_loss(scn, ses, model, state, samples, scal):
    """Mean over validation samples of the sample loss."""
    model.load_state_dict(state)
    model.eval()
    is_norm = scn['norm_out'] or ses.get('norm_loss', False)
    out = []
    with torch.no_grad():
        for s in samples:
            x = s['features_in'].unsqueeze(1)
            if scn['norm_in']:
                x = train.norm(scal, 'features_in', x)
            y = train.forward(scn['kind'], model, x)[:, 0, :]
            t = s['features_out']
            if is_norm:
                t = train.norm(scal, 'features_out', t)
                if not scn['norm_out']:
                    y = train.norm(scal, 'features_out', y)
            elif scn['norm_out']:
                y = y*scal['features_out'][1] + scal['features_out'][0]
            out.append(float(train.loss_of(ses['loss'], y, t)))
    return float(np.mean(out))


def decide(early, values):
    """(stop epoch or None, best epoch, notes) from validation losses."""
    best, best_e, fails, notes = np.inf, None, 0, set()
    seen = 0
    for e, v in values:
        seen += 1
        if v < best:
            if seen > 1:
                if (best - v)/abs(best) > early['improvement_tolerance']:
                    if fails:
                        notes.add('recovered_after_worse')
                    fails = 0
                else:
                    fails += 1
                    notes.add('small_improvement')
            best, best_e = v, e
        else:
            fails += 1
        if fails >= early['trigger_tolerance']:
            return e, best_e, notes
    return None, best_e, notes


def run(ctx):
    scn = ctx.scn
    ses = dict(scn['session'])
    kind = scn['kind']
    directory = os.path.join(ctx.scratch, 'model')
    os.mkdir(directory)
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'], chunk=4096)
    samples = build.samples(scn['data_seed'], ses['data'], n_time=3)
    valid = build.samples(scn['data_seed'], scn['valid'], n_time=3,
                          tag=0 if scn['valid_same'] else 5)
    data, vdata = train.Recording(samples), train.Recording(valid)
    with fs.installed():
        old_m, old_o = {}, {}
        if scn['stale']:
            first = dict(ses, n=ses['n'] + 2, save_every=1, fault=None, id=-1,
                         params_stop=False)
            # An earlier training on other data: other states and records
            first['seed'] = 3 if ses['seed'] is None else ses['seed'] + 1
            (status, value), _ = train.run_session(
                ctx, fs, scn, first, directory, train.Recording(build.samples(
                    scn['data_seed'], ses['data'], n_time=3, tag=9)))
            if status != 'ok':
                raise Violation('training-failed', f'{type(value).__name__}: '
                                f'{str(value)[:300]}') from value
            old_m, old_o = train.slots_on_disk(directory, p03.NAMES[kind])
            ctx.probe('stale_epoch_state')
        mark = {'init': None}

        def on_event(what, path):
            if 'init.pt' in path:
                mark['init'] = len(data.log)
        fs.on_event = on_event
        fault = ses.get('fault')
        if fault:
            budget = 12 + (ses['n'] + 1)*14
            fs.arm({int(fault['pos']*budget): fault})
        (status, value), _ = train.run_session(ctx, fs, scn, ses, directory,
                                               data, vdata)
        fs.on_event = None
        fs.disarm()
        if status == 'crash':
            fs.restart()
            ctx.probe('crash_in_training')
        if status == 'err' and not (fault and isinstance(
                value, (OSError, KeyboardInterrupt))):
            raise Violation('training-failed', f'{type(value).__name__}: '
                            f'{str(value)[:300]}') from value
        verify(ctx, scn, ses, directory, samples, valid, data, mark['init'],
               status, value, old_m, old_o)


def verify(ctx, scn, ses, directory, samples, valid, data, mark, status,
           value, old_m, old_o):
    kind, early = scn['kind'], ses['early']
    got_m, got_o = train.slots_on_disk(directory, p03.NAMES[kind])
    if mark is None or ('init', None) not in got_m:
        return
    epochs = train.epochs_of(data.log, len(samples), mark)
    scal = train.scaling(samples, scn['scaling'])
    ref = train.reference(scn, ses, directory, ctx, got_m[('init', None)],
                          samples, scal, epochs)
    n = len(ref)
    model = train.reload(kind, directory, ctx)
    at = [e for e in range(n) if e % early['validation_frequency'] == 0]
    values = [(e, valid_loss(scn, ses, model, ref[e]['state'], valid, scal))
              for e in at]
    if early['validation_frequency'] > 1:
        ctx.probe('frequency_gt_1')
    if ses['save_every'] != 1:
        ctx.probe('temporary_state')
    if ses.get('params_stop'):
        ctx.probe('params_criterion_on')
    losses = [x['loss'] for x in ref]
    if status != 'ok':
        stop, best_e, _ = decide(early, values)
        for slots, olds, key, equal in (
                (got_m, old_m, 'state', train.close),
                (got_o, old_o, 'optim', lambda a, b: train.optim_close(
                    a['state'], b))):
            for slot, state in slots.items():
                if slot[0] == 'init':
                    continue
                ok = slot in olds and build.state_equal(state, olds[slot])
                if not ok and slot[1] is not None and slot[1] < n:
                    ok = equal(state, ref[slot[1]][key]) or (
                        stop is not None and slot == ('epoch', n - 1)
                        and equal(state, ref[best_e][key]))
                ctx.check(ok, 'wrong-state-after-fault', f'{key} of {slot} is '
                          f'neither its previous content nor that of its '
                          f'epoch')
        if n >= 2:
            ctx.check(any(s[0] == 'best' for s in got_m), 'best-lost',
                      'no best state is left after the fault')
        ctx.nontrivial |= stop is not None
        return
    rec = ctx.must('read loss record', train.read_pickle, os.path.join(
        directory, 'loss_history_record.pkl'))
    hist = rec['validation_loss_history']
    ctx.check(hist is not None and len(hist) == at[-1] + 1, 'valid-record',
              lambda: f'validation record {hist} after evaluations at {at}')
    hist = [float(x) for x in hist]
    want, last = [], None
    vals = dict(values)
    for e in range(at[-1] + 1):
        last = vals.get(e, last)
        want.append(last)
    ctx.check(train.close(hist, want), 'valid-record', lambda: f'validation '
              f'losses {hist}, expected {want}')
    # The decision is exact on the recorded values
    stop, best_e, notes = decide(early, [(e, hist[e]) for e in at])
    for note in notes:
        ctx.probe(note)
    ctx.check(stop is None or stop == n - 1, 'trained-past-stop',
              f'the criterion {early} was met at epoch {stop} but training '
              f'went on to epoch {n-1}; validation losses {hist}')
    ctx.check(stop is not None or n in (ses['n'], ses['n'] + 1),
              'stopped-too-early', f'training stopped at epoch {n-1} of '
              f'{ses["n"]} although the criterion {early} is not met by '
              f'{hist}')
    tl = [float(x) for x in rec['training_loss_history']]
    ctx.check(train.close(tl, losses), 'loss-record', lambda: f'recorded '
              f'losses {tl} differ from {losses}')
    best = [s for s in got_m if s[0] == 'best']
    ctx.check(len(best) == 1, 'best-state', f'best states {best}')
    e = best[0][1]
    ret = {k: v.detach() for k, v in value[0].state_dict().items()}
    if stop is not None:
        ctx.nontrivial = True
        ctx.probe('stopped')
        if losses.index(min(losses)) != best_e:
            ctx.probe('valid_best_differs')
        ctx.check(e == best_e, 'wrong-best-epoch', f'after early stopping the '
                  f'best state is of epoch {e}; the lowest validation loss '
                  f'of {hist} is at {best_e}')
        final = best_e
    else:
        ctx.probe('not_stopped')
        ctx.check(p03.attains(losses, e), 'best-state', f'best state is of '
                  f'epoch {e}, losses {losses}')
        final = n - 1
    ctx.check(train.close(got_m[best[0]], ref[e]['state']), 'wrong-weights',
              f'the best state does not hold the weights of epoch {e}')
    ctx.check(best[0] in got_o and train.optim_close(
        got_o[best[0]]['state'], ref[e]['optim'])
        and got_o[best[0]]['epoch'] == e, 'wrong-optimizer',
        'the best optimizer state is not the one of its epoch')
    ctx.check(train.close(ret, ref[final]['state']), 'returned-model',
              f'the returned model is not that of epoch {final}')
    ctx.check(('epoch', n - 1) in got_m and train.close(
        got_m[('epoch', n - 1)], ref[final]['state']), 'final-state',
        'the final state on disk is not the returned model')
    # No temporary validation state is left behind
    for s in got_m:
        if s[0] != 'epoch' or s[1] == n - 1:
            continue
        kept = (ses['save_every'] is not None
                and s[1] % ses['save_every'] == 0)
        stale = s in old_m and build.state_equal(got_m[s], old_m[s])
        ctx.check(kept or stale, 'temporary-state-left',
                  f'epoch state {s} was left behind by a validation')
        if kept and not stale:
            ctx.check(train.close(got_m[s], ref[s[1]]['state']),
                      'wrong-weights', f'state {s} does not hold the weights '
                      f'of its epoch')
    if kind in ('rc', 'hybrid'):
        rec = ctx.must('read best parameters', train.read_pickle,
                       os.path.join(directory, 'parameters_best.pkl'))
        model.load_state_dict(ref[e]['state'])
        want = model.get_detached_model_parameters(is_normalized_out=False)
        got = rec['best_model_parameters']
        ctx.check(set(got) == set(want) and all(
            train.close(float(got[k]), float(want[k]), rtol=1e-3)
            for k in want), 'best-parameters', f'best parameters {got} are '
            f'not those of the best state {want}')
    ctx.state((early, stop, best_e, n, status))
