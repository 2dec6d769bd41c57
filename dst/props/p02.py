"""P02: checkpoint selection and pruning are exact."""
import os
import shutil

import torch

from dst import build
from dst.core import Violation, h64, rng
from dst.props.p01 import Plain, on_disk, set_tag, state_of
from dst.vfs import SimFS

RUNS = {'quick': 2600, 'thorough': 80000}
RULE = ('one run = a seeded history of saves, loads (valid, missing, damaged '
        'target), relocations and restarts of up to four models sharing one '
        'directory with unrelated files, under a simulator-chosen directory '
        'listing order; non-trivial = a load or prune decision was taken with '
        'at least two candidate files on disk')
PROBES = ('load_ok', 'load_missing', 'load_damaged', 'pruned', 'best_replaced',
          'epoch_ge_10', 'relocated', 'foreign_kept')
STATE_MEASURE = 'digest of the directory listing after each operation'
REAL = ['model_state_files', 'model_training.save_training_state']
STUB = ['directory listing order', 'model (minimal torch.nn.Module)']
ASSUMPTIONS = ['model names are chosen so that no documented file name is '
               'ambiguous (e.g. not "m" together with "m-2")']
SHRINK_LISTS = ('ops', 'names', 'foreign')

NAMES = ['model', 'modelx', 'model2', 'xmodel', 'mo.el', 'model_b', 'net(1)',
         'm+m', 'model-a', 'mode']


def gen(seed, tier):
    r = rng(seed, 'gen')
    names = r.sample(NAMES, r.choice([1, 2, 2, 3, 4]))
    foreign = []
    for name in names:
        for pat in ('%s-3.pt.bak', '%s-2-best.pt.old', 'old_%s-9.pt',
                    '%s-notes.txt', '%s-7.ptx', '%s-best.txt', '%s-8.pth'):
            if r.random() < 0.25:
                foreign.append(pat % name)
    big = r.choice([6, 12, 120])
    ops = []
    for i in range(r.randint(4, 16)):
        what = r.choices(['save', 'load', 'damage', 'move'],
                         [10, 7, 1, 1])[0]
        op = {'id': i, 'op': what, 'm': r.choice(names)}
        if what == 'save':
            op['optim'] = r.random() < 0.5
            op['type'] = r.choices(['epoch', 'best', 'init', 'default'],
                                   [8, 5, 1, 1])[0]
            op['epoch'] = (r.randint(0, big) if op['type'] in
                           ('epoch', 'best') else None)
            if op['type'] == 'best' and r.random() < 0.15:
                op['epoch'] = None
            op['prune'] = r.random() < 0.5
        elif what == 'load':
            op['what'] = r.choice(['best', 'last', 'init', 'default', 'int',
                                   'int'])
            op['pick'] = r.random()
            op['miss'] = r.random() < 0.15
            op['prune'] = r.random() < 0.5
        elif what == 'damage':
            op['pick'] = r.random()
        ops.append(op)
    return {'names': names, 'foreign': foreign, 'ops': ops,
            'listing': r.choice(['shuffle', 'shuffle', 'sorted', 'reverse']),
            'big': big}


def run(ctx):
    from model_architectures.procedures.model_state_files import (
        load_model_state, save_model_state)
    from model_architectures.procedures.model_training import \
        save_training_state
    scn = ctx.scn
    directory = os.path.join(ctx.scratch, 'd0')
    os.mkdir(directory)
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'])
    ref = {n: ({}, {}) for n in scn['names']}
    damaged = set()
    for name in scn['foreign']:
        with open(os.path.join(directory, name), 'w') as f:
            f.write('foreign ' + name)
    moves = 0
    with fs.installed():
        models, optims = {}, {}
        for name in scn['names']:
            models[name] = Plain(directory, name, 2)
            optims[name] = torch.optim.Adam(models[name].parameters())
        for op in scn['ops']:
            name = op['m']
            if name not in models:
                continue
            model, optim = models[name], optims[name]
            slots, oslots = ref[name]
            ctx.log(op['op'], name, op.get('type') or op.get('what'),
                    op.get('epoch'))
            if sum(len(v[0]) for v in ref.values()) >= 2:
                ctx.nontrivial = True
            if op['op'] == 'save':
                tag = h64(ctx.seed, 'tag', op['id'])
                set_tag(model, optim, tag)
                if op['optim']:
                    ctx.must(f'{op}', save_training_state, model, optim,
                             op['type'], epoch=op['epoch'],
                             is_remove_posterior=op['prune'])
                else:
                    ctx.must(f'{op}', save_model_state, model, op['type'],
                             epoch=op['epoch'],
                             is_remove_posterior=op['prune'])
                target = (op['type'], op['epoch'])
                apply_save(ctx, slots, op, target, state_of(model))
                damaged -= {(name, target)}
                if op['optim'] and op['type'] != 'init':
                    apply_save(ctx, oslots, op, target,
                               {'state': build.snapshot(optim.state_dict()),
                                'epoch': op['epoch']})
                if (op['epoch'] or 0) >= 10:
                    ctx.probe('epoch_ge_10')
            elif op['op'] == 'load':
                load(ctx, model, name, slots, damaged, op, load_model_state)
            elif op['op'] == 'damage':
                files, _ = on_disk(name, directory)
                if files:
                    keys = sorted(files, key=str)
                    slot = keys[int(op['pick']*len(keys))]
                    with open(files[slot], 'wb') as f:
                        f.write(b'damaged')
                    damaged.add((name, slot))
            elif op['op'] == 'move':
                # Restart from a directory that was moved elsewhere
                moves += 1
                new = os.path.join(ctx.scratch, f'd{moves}')
                shutil.move(directory, new)
                directory = new
                for n in models:
                    models[n] = Plain(directory, n, 2)
                    optims[n] = torch.optim.Adam(models[n].parameters())
                ctx.probe('relocated')
            verify(ctx, scn, directory, ref, damaged, op)


def apply_save(ctx, slots, op, target, state):
    if target[0] == 'best':
        for s in [s for s in slots if s[0] == 'best' and s != target]:
            del slots[s]
            ctx.probe('best_replaced')
    slots[target] = state
    if op['prune'] and op['epoch'] is not None:
        for s in [s for s in slots if s[0] == 'epoch'
                  and s[1] > op['epoch']]:
            del slots[s]
            ctx.probe('pruned')


def load(ctx, model, name, slots, damaged, op, load_model_state):
    epochs = sorted(s[1] for s in slots if s[0] == 'epoch')
    what = op['what']
    slot = None
    if what == 'int':
        if epochs and not op['miss']:
            slot = ('epoch', epochs[int(op['pick']*len(epochs))])
            arg = slot[1]
        else:
            arg = next(e for e in range(0, 500)
                       if e not in epochs and e >= int(op['pick']*8))
    else:
        arg = what
        if what == 'last':
            slot = ('epoch', epochs[-1]) if epochs else None
        elif what == 'best':
            best = [s for s in slots if s[0] == 'best']
            slot = best[0] if best else None
        else:
            slot = (what, None) if (what, None) in slots else None
    before = state_of(model)
    try:
        epoch = load_model_state(model, arg, is_remove_posterior=op['prune'])
    except Exception as exc:
        if slot is not None and (name, slot) not in damaged:
            raise Violation(
                'load-failed', f'load {arg} of {name} raised '
                f'{type(exc).__name__}: {str(exc)[:200]} although {slot} was '
                f'saved') from exc
        ctx.probe('load_missing' if slot is None else 'load_damaged')
        ctx.check(build.state_equal(before, state_of(model)),
                  'failed-load-changed-model',
                  f'failed load {arg} of {name} changed the model in memory')
        return
    ctx.check(slot is not None, 'load-of-nothing',
              f'load {arg} of {name} returned epoch {epoch} although no such '
              f'state was saved')
    ctx.check((name, slot) not in damaged, 'damaged-state-loaded',
              f'load {arg} of {name} accepted a damaged file')
    want = {'init': 0, 'default': None}.get(slot[0], slot[1])
    ctx.check(epoch == want, 'wrong-epoch',
              f'load {arg} of {name} reported epoch {epoch}, saved {want}')
    ctx.check(build.state_equal(state_of(model), slots[slot]), 'wrong-state',
              f'load {arg} of {name} did not restore the saved state of '
              f'{slot}')
    ctx.probe('load_ok')
    if op['prune'] and slot[0] != 'default' and want is not None:
        for s in [s for s in slots if s[0] == 'epoch' and s[1] > want]:
            del slots[s]
            ctx.probe('pruned')


def verify(ctx, scn, directory, ref, damaged, op):
    from dst.vfs import _real_torch_load
    expected = set(scn['foreign'])
    files = set(os.listdir(directory))
    for name in scn['names']:
        got_m, got_o = on_disk(name, directory)
        for got, want, what in ((got_m, ref[name][0], 'model'),
                                (got_o, ref[name][1], 'optimizer')):
            ctx.check(set(got) == set(want), 'wrong-files',
                      lambda: f'after {op} the {what} states of {name} are '
                      f'{sorted(map(str, got))}, expected '
                      f'{sorted(map(str, want))}')
            for slot, path in got.items():
                if (name, slot) in damaged and what == 'model':
                    continue
                state = _real_torch_load(path, map_location='cpu')
                ctx.check(build.state_equal(state, want[slot]),
                          'state-changed',
                          f'after {op} {what} {slot} of {name} changed')
    for name in expected:
        ctx.check(name in files, 'foreign-file-removed',
                  f'{op} removed the unrelated file {name}')
        ctx.probe('foreign_kept')
    ctx.state(sorted(files))
