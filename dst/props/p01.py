"""P01: checkpoints survive a crash or a failed write at any I/O point."""
import copy
import os
import re

import torch

from dst import build
from dst.core import SimCrash, Violation, h64, rng
from dst.vfs import SimFS, _real_torch_load

RUNS = {'quick': 2600, 'thorough': 60000}
LEVEL = 'fault_enumeration'
RULE = ('one run = a seeded history of training steps, saves (default, init, '
        'epoch, best; with and without optimizer; with and without pruning), '
        'loads and initialisation-file rewrites on a real model directory, '
        'with up to three crashes, torn writes or I/O errors placed on '
        'individual I/O calls inside the saves; non-trivial = at least one '
        'fault fired while an operation was in flight')
PROBES = ('crash_in_best_save', 'crash_in_epoch_save', 'crash_in_init_file',
          'crash_in_prune', 'error_in_save',
          'optimizer_in_flight', 'two_best_after_crash')
STATE_MEASURE = 'digest of the checkpoint directory listing after each step'
REAL = ['model_state_files', 'model_training.save_training_state',
        'GRURNNModel / RecurrentConstitutiveModel / HybridModel init files',
        'torch serialisation', 'torch.optim.Adam']
STUB = ['disk (seam over real files in a scratch directory)',
        'directory listing order', 'gradients (set from a tag)']
ASSUMPTIONS = ['process-crash model: completed writes survive, user-space '
               'buffers do not; no power-loss reordering']
SHRINK_LISTS = ('faults', 'ops')

KINDS = ('crash', 'crash_after', 'torn', 'enospc', 'eio')


# =============================================================================
def gen(seed, tier):
    r = rng(seed, 'gen')
    kind = r.choice(['plain']*6 + ['gru']*2 + ['rc', 'hybrid'])
    n_ops = r.randint(3, 9)
    ops = []
    for i in range(n_ops):
        ops.append(gen_op(r, i, kind))
    save_ids = [op['id'] for op in ops if op['op'] != 'train']
    faults = []
    if r.random() < 0.93:
        for op_id in sorted(r.sample(save_ids, min(len(save_ids),
                                                   r.choice([1, 1, 1, 2, 3])))
                            ):
            faults.append({'op': op_id, 'pos': r.random(),
                           'kind': r.choice(KINDS),
                           'frac': r.choice([0.0, 0.3, 0.9])})
    return {'kind': kind, 'ops': ops, 'faults': faults,
            'name': r.choice(['model', 'gru_material_model', 'm-x', 'net.v2']),
            'listing': r.choice(['shuffle', 'sorted', 'reverse']),
            'width': r.choice([1, 1, 8, 40]),
            'chunk': r.choice([256, 1024, 4096])}


def gen_op(r, i, kind):
    what = r.choices(['save', 'initfile', 'load'],
                     [12, 2 if kind != 'plain' else 0, 2])[0]
    op = {'id': i, 'op': what}
    if what == 'save':
        op['optim'] = r.random() < 0.6
        op['type'] = r.choices(['epoch', 'best', 'init', 'default'],
                               [6, 6, 1, 1])[0]
        op['epoch'] = r.randint(0, 12)
        if op['type'] == 'default' or (op['type'] == 'best'
                                       and r.random() < 0.1):
            op['epoch'] = None
        if op['type'] == 'init':
            op['epoch'] = None
        op['prune'] = r.random() < 0.7
    elif what == 'load':
        op['what'] = r.choice(['best', 'last', 'init', 'default', 'int'])
        op['epoch'] = r.randint(0, 12)
        op['prune'] = r.random() < 0.5
    return op


# =============================================================================
class Plain(torch.nn.Module):
    """Smallest model the checkpoint interface accepts."""

    def __init__(self, directory, name, width):
        super().__init__()
        self.model_directory = directory
        self.model_name = name
        self.a = torch.nn.Linear(2, width)
        self.register_buffer('b', torch.zeros(3))


def make(scn, directory):
    if scn['kind'] == 'plain':
        return Plain(directory, scn['name'], scn['width'])
    if scn['kind'] == 'gru':
        return build.gru_model(directory, name=scn['name'],
                               hidden=min(scn['width'], 8))
    if scn['kind'] == 'rc':
        return build.rc_model(directory, name=scn['name'], learn=('E', 'v'))
    return build.hybrid_model(directory, name=scn['name'])


def remake(scn, directory, ctx):
    """What a new process does: rebuild the model from its directory."""
    if scn['kind'] == 'plain':
        return Plain(directory, scn['name'], scn['width'])
    return ctx.must('initialise model from file after restart',
                    build.model_class(scn['kind']).init_model_from_file,
                    model_directory=directory)


def set_tag(model, optimizer, tag):
    value = (tag % 4093)/64.0
    with torch.no_grad():
        for i, (_, t) in enumerate(sorted(model.state_dict().items())):
            if t.is_floating_point():
                t.fill_(value + i/1024.0)
    for p in model.parameters():
        p.grad = torch.full_like(p, value + 1.0)
    optimizer.param_groups[0]['lr'] = 0.0
    optimizer.step()
    optimizer.param_groups[0]['lr'] = value + 1.0


def state_of(model):
    return copy.deepcopy({k: v.detach().clone()
                          for k, v in model.state_dict().items()})


# =============================================================================
class Reference:
    """What the checkpoint directory must contain."""

    def __init__(self):
        self.m = {}     # ('default',) ('init',) ('epoch', e) ('best', e|None)
        self.o = {}     # ('epoch', e|None) ('best', e|None)
        self.scalers = 0


def parse(name, filename):
    """Slot of a documented checkpoint file name."""
    base = re.escape(name)
    for optim in (False, True):
        pre = '^' + base + ('_optim' if optim else '')
        for pat, slot in ((r'\.pt$', lambda g: ('default', None)),
                          (r'-init\.pt$', lambda g: ('init', None)),
                          (r'-([0-9]+)\.pt$', lambda g: ('epoch', int(g[0]))),
                          (r'-best\.pt$', lambda g: ('best', None)),
                          (r'-([0-9]+)-best\.pt$',
                           lambda g: ('best', int(g[0])))):
            m = re.search(pre + pat, filename)
            if m:
                return optim, slot(m.groups())
    return None


def on_disk(name, directory):
    model, optim = {}, {}
    for filename in sorted(os.listdir(directory)):
        hit = parse(name, filename)
        if hit:
            (optim if hit[0] else model)[hit[1]] = os.path.join(directory,
                                                                filename)
    return model, optim


# =============================================================================
def run(ctx):
    scn = ctx.scn
    # A dry pass without faults counts the I/O calls of each operation, so that
    # faults can be placed inside them
    counts = simulate(ctx, scn, {}, 'dry')
    if not scn['faults']:
        ctx.nontrivial = True
        return
    plan = {}
    for f in scn['faults']:
        plan.setdefault(f['op'], f)
    simulate(ctx, scn, plan, 'run', counts)


def simulate(ctx, scn, plan, sub, counts=None):
    from model_architectures.procedures.model_state_files import (
        load_model_state, save_model_state)
    from model_architectures.procedures.model_training import \
        save_training_state
    directory = os.path.join(ctx.scratch, sub)
    os.mkdir(directory)
    fs = SimFS(directory, ctx, listing=scn['listing'], chunk=scn['chunk'])
    ref = Reference()
    used = {}
    with fs.installed():
        model = ctx.must('build model', make, scn, directory)
        params = list(model.parameters())
        optimizer = torch.optim.Adam(params, lr=1.0)
        for op in scn['ops']:
            op = dict(op)
            tag = h64(ctx.seed, 'tag', op['id'])
            start = fs.n
            fault = plan.get(op['id'])
            if fault and counts.get(op['id']):
                at = int(fault['pos']*counts[op['id']])
                fs.arm({at: fault})
            ctx.log(sub, op['op'], op.get('type') or op.get('what'),
                    op.get('epoch'))
            n_faults = sum(v for k, v in ctx.faults.items() if '@' in k)
            outcome = 'ok'
            new_state = new_opt = None
            try:
                if op['op'] == 'save':
                    set_tag(model, optimizer, tag)
                    new_state = state_of(model)
                    new_opt = copy.deepcopy(optimizer.state_dict())
                    if op['optim']:
                        save_training_state(
                            model, optimizer, op['type'], epoch=op['epoch'],
                            is_remove_posterior=op['prune'])
                    else:
                        save_model_state(
                            model, op['type'], epoch=op['epoch'],
                            is_remove_posterior=op['prune'])
                elif op['op'] == 'initfile':
                    set_scalers(model, tag)
                elif op['op'] == 'load':
                    do_load(ctx, model, op, ref, load_model_state)
            except SimCrash:
                outcome = 'crash'
            except Violation:
                raise
            except Exception as exc:
                fired = sum(v for k, v in ctx.faults.items()
                            if '@' in k) > n_faults
                if not fired:
                    raise Violation(
                        'unexpected-exception',
                        f'{op} raised {type(exc).__name__}: {exc}') from exc
                outcome = 'error'
            fired = sum(v for k, v in ctx.faults.items()
                        if '@' in k) > n_faults
            fs.disarm()
            used[op['id']] = fs.n - start
            probes(ctx, op, outcome, fired)
            if outcome == 'crash':
                fs.restart()
                model = None
            verify(ctx, scn, op, directory, ref, outcome, tag, new_state,
                   new_opt, load_model_state)
            if outcome == 'crash':
                model = remake(scn, directory, ctx)
                optimizer = torch.optim.Adam(list(model.parameters()), lr=1.0)
            ctx.log(sub, 'outcome', outcome, sorted(
                map(str, on_disk(scn['name'], directory)[0])))
            ctx.state([scn['kind'] == 'plain', sorted(map(
                str, on_disk(scn['name'], directory)[0])), sorted(map(
                    str, on_disk(scn['name'], directory)[1]))])
    return used


def probes(ctx, op, outcome, fired):
    if outcome == 'crash' and op['op'] == 'save':
        ctx.probe(f'crash_in_{op["type"]}_save')
        if op['prune'] and op['epoch'] is not None:
            ctx.probe('crash_in_prune')
        if op['optim']:
            ctx.probe('optimizer_in_flight')
    if outcome == 'crash' and op['op'] == 'initfile':
        ctx.probe('crash_in_init_file')
    if outcome == 'error':
        ctx.probe('error_in_save')
    if outcome == 'ok' and fired:
        ctx.probe('acked_after_error')


# =============================================================================
def set_scalers(model, tag):
    """Rewrite the initialisation file with new data scalers."""
    from model_architectures.procedures.model_data_scaling import \
        set_data_scalers
    from utilities.data_scalers import TorchStandardScaler
    value = float(tag % 509 + 1)
    mean = torch.full((6,), value)
    std = torch.full((6,), value + 0.5)
    model._is_save_model_init_file = True
    scaler = TorchStandardScaler(6, mean, std)
    set_data_scalers(model, scaler, scaler)


def scaler_tag(model):
    scaler = model._data_scalers['features_in']
    if scaler is None:
        return None
    out = scaler.transform(torch.zeros((1, 6)))
    return [float(x) for x in out.flatten()]


def do_load(ctx, model, op, ref, load_model_state):
    what = op['epoch'] if op['what'] == 'int' else op['what']
    bests = {k: v for k, v in ref.m.items() if k[0] == 'best'}
    epochs = sorted(k[1] for k in ref.m if k[0] == 'epoch')
    if op['what'] == 'int':
        slot = [('epoch', op['epoch'])]
    elif op['what'] == 'best':
        slot = list(bests)
    elif op['what'] == 'last':
        slot = [('epoch', epochs[-1])] if epochs else []
    else:
        slot = [(op['what'], None)]
    slot = [s for s in slot if s in ref.m]
    try:
        epoch = load_model_state(model, what, is_remove_posterior=op['prune'])
    except RuntimeError:
        if slot:
            raise
        ctx.probe('load_missing')
        op['_missing'] = True
        return
    op['_missing'] = False
    ctx.check(slot, 'load-of-nothing', f'load {what} succeeded without file')
    got = state_of(model)
    ctx.check(any(build.state_equal(got, ref.m[s]) for s in slot),
              'wrong-state-loaded', f'load {what} returned other weights')
    op['_epoch'] = 0 if op['what'] == 'init' else epoch


def verify(ctx, scn, op, directory, ref, outcome, tag, new_state, new_opt,
           load_model_state):
    name = scn['name']
    disk_m, disk_o = on_disk(name, directory)
    old_m, old_o = dict(ref.m), dict(ref.o)
    save = op['op'] == 'save'
    target_m = target_o = None
    if save:
        target_m = (op['type'] if op['type'] != 'default' else
                    ('epoch' if op['epoch'] is not None else 'default'),
                    op['epoch'])
        if op['optim'] and op['type'] != 'init':
            target_o = target_m
    # Read back what the directory holds through the code under test
    got_m = {}
    fresh = remake(scn, directory, ctx)
    if scn['kind'] != 'plain':
        tag_now = scaler_tag(fresh)
        if op['op'] == 'initfile':
            expected = expect_scaler(tag)
            ok = [expected] if outcome == 'ok' else [expected, ref.scalers]
            if ref.scalers == 0 and outcome != 'ok':
                ok.append(None)
            ctx.check(tag_now in ok, 'init-file-mixed',
                      f'after {outcome} the initialisation file holds neither '
                      f'the previous nor the new data scalers')
            ref.scalers = tag_now if tag_now is not None else 0
        else:
            ctx.check(tag_now == (ref.scalers or None), 'init-file-changed',
                      'initialisation file changed by an unrelated operation')
    for slot, path in disk_m.items():
        try:
            state = _real_torch_load(path, map_location='cpu')
        except Exception as exc:
            raise Violation(
                'torn-checkpoint',
                f'{op_text(op)} ended with {outcome}; checkpoint '
                f'{os.path.basename(path)} is not readable: '
                f'{type(exc).__name__}') from exc
        got_m[slot] = state
    got_o = {}
    for slot, path in disk_o.items():
        try:
            state = _real_torch_load(path, map_location='cpu')
            got_o[slot] = (state['state'], state['epoch'])
        except Exception as exc:
            raise Violation(
                'torn-checkpoint',
                f'{op_text(op)} ended with {outcome}; optimizer state '
                f'{os.path.basename(path)} is not readable: '
                f'{type(exc).__name__}') from exc
    # Model slots
    pruned = set()
    if save and op['prune'] and op['epoch'] is not None:
        pruned = {s for s in old_m if s[0] == 'epoch' and s[1] > op['epoch']}
    if op['op'] == 'load' and op['prune'] and not op.get('_missing'):
        limit = op.get('_epoch')
        if outcome != 'ok' and limit is None:
            limit = {'init': 0, 'int': op['epoch']}.get(op['what'])
            if op['what'] == 'best':
                known = [s[1] for s in old_m if s[0] == 'best'
                         and s[1] is not None]
                limit = min(known) if known else None
        if limit is not None and op['what'] in ('init', 'int', 'best'):
            pruned = {s for s in old_m if s[0] == 'epoch' and s[1] > limit}
    check_slots(ctx, op, outcome, 'model', old_m, got_m, target_m, new_state,
                pruned, build.state_equal)
    pruned_o = set()
    if (save and op['optim'] and op['type'] != 'init' and op['prune']
            and op['epoch'] is not None):
        pruned_o = {s for s in old_o if s[0] == 'epoch' and s[1] is not None
                    and s[1] > op['epoch']}
    new_o = (new_opt, op.get('epoch')) if target_o else None
    check_slots(ctx, op, outcome, 'optimizer', old_o, got_o, target_o, new_o,
                pruned_o, build.state_equal)
    ref.m, ref.o = got_m, got_o
    # The documented ways to load must work and agree
    bests = {s: v for s, v in got_m.items() if s[0] == 'best'}
    if len(bests) > 1:
        ctx.probe('two_best_after_crash')
    wants = []
    if bests:
        wants.append('best')
    epochs = [s[1] for s in got_m if s[0] == 'epoch']
    if epochs:
        wants.append('last')
    wants += [w for w in ('init', 'default') if (w, None) in got_m]
    for what in wants:
        m = remake(scn, directory, ctx)
        epoch = ctx.must(f'load {what} after {op_text(op)} ({outcome})',
                         load_model_state, m, what, False)
        if what == 'best':
            ctx.check(('best', epoch) in bests and build.state_equal(
                state_of(m), bests[('best', epoch)]), 'wrong-best-loaded',
                f'best state does not carry its epoch ({epoch})')
        elif what == 'last':
            ctx.check(epoch == max(epochs) and build.state_equal(
                state_of(m), got_m[('epoch', epoch)]), 'wrong-last-loaded',
                f'last state is epoch {epoch}, latest is {max(epochs)}')


def check_slots(ctx, op, outcome, what, old, got, target, new, pruned, eq):
    text = f'{what} after {op_text(op)} ({outcome})'
    done = target is not None and target in got and eq(got[target], new)
    for slot in sorted(set(old) | set(got), key=str):
        have = got.get(slot)
        prev = old.get(slot)
        if slot == target:
            if outcome == 'ok':
                ctx.check(done, 'acked-save-lost',
                          f'{text}: {slot} does not hold the saved state')
            else:
                ctx.check(done or (prev is None and have is None)
                          or (prev is not None and have is not None
                              and eq(have, prev)), 'checkpoint-lost',
                          f'{text}: {slot} holds neither the previous nor the '
                          f'new state')
            continue
        replaced = (target is not None and target[0] == 'best'
                    and slot[0] == 'best')
        if slot in pruned or replaced:
            if have is None:
                ctx.check(target is None or done, 'removed-before-saved',
                          f'{text}: {slot} was removed although the new state '
                          f'is not in place')
                continue
            if outcome == 'ok':
                raise Violation('stale-checkpoint',
                                f'{text}: {slot} should have been removed')
        ctx.check(prev is not None, 'unexpected-checkpoint',
                  f'{text}: {slot} appeared')
        ctx.check(have is not None, 'checkpoint-removed',
                  f'{text}: {slot} was removed')
        ctx.check(eq(have, prev), 'checkpoint-changed',
                  f'{text}: {slot} changed')
    if target is not None and outcome == 'ok':
        ctx.check(done, 'acked-save-lost',
                  f'{text}: {target} does not hold the saved state')


def expect_scaler(tag):
    from utilities.data_scalers import TorchStandardScaler
    value = float(tag % 509 + 1)
    scaler = TorchStandardScaler(6, torch.full((6,), value),
                                 torch.full((6,), value + 0.5))
    return [float(x) for x in
            scaler.transform(torch.zeros((1, 6))).flatten()]


def op_text(op):
    return ' '.join(str(op[k]) for k in ('op', 'type', 'what', 'epoch')
                    if k in op)
