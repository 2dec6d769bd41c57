"""P16: a stored model gives the same predictions when it is loaded anywhere."""
import contextlib
import os
import shutil

import numpy as np
import torch

from dst import build
from dst.core import SimCrash, Violation, rng
from dst.vfs import SimFS

RUNS = {'quick': 700, 'thorough': 30000}
RULE = ('one run = a seeded history over two to four model directories: '
        'models are built (some from the same parameter dictionaries), their '
        'weights and scalers changed, states saved, directories moved or '
        'copied, models loaded again by directory or file or as part of a '
        'hybrid model, and evaluated at any time, with crashes and I/O errors '
        'during the writes; non-trivial = a model was loaded after its '
        'directory moved, another model was used in between, or a fault fired')
PROBES = ('reload', 'reload_moved', 'reload_by_file', 'shared_parameters',
          'hybrid_of_stored', 'hybrid_chain', 'source_removed',
          'scalers_fitted', 'scalers_given', 'scalers_reread',
          'fault_in_scalers', 'fault_in_save', 'fault_in_build',
          'two_dimensional', 'state_features', 'unchecked_update',
          'custom_gru', 'normalised_parameters')
STATE_MEASURE = 'digest of (kinds, operations, slots held) after each step'
REAL = ['GRURNNModel, RecurrentConstitutiveModel, HybridModel',
        'set_hybridized_model', 'model_state_files', 'model_data_scaling',
        'data_scalers, fit_data_scalers', 'constitutive models']
STUB = ['disk and listing order (seam over real files in a scratch directory)']
ASSUMPTIONS = ['single CPU device; process-crash model of the disk',
               'the rc reference is a fresh model of the plain (not '
               'vectorised) material with the same values']
SHRINK_LISTS = ('ops',)


# ------------------------------------------------------------------ scenarios
def gen(seed, tier):
    r = rng(seed, 'gen')
    ops, n_model = [], 0
    mats = r.sample(['elastic', 'von_mises', 'von_mises_vmap', 'elastic',
                     'von_mises_mixed', 'drucker_prager_vmap'], 2)
    for i in range(r.randint(7, 18)):
        if n_model < 2 or (n_model < 5 and r.random() < 0.2):
            op = {'op': 'build', 'spec': gen_spec(r, n_model, mats)}
            n_model += 1
        else:
            op = {'op': r.choices(
                ['perturb', 'scalers', 'save', 'move', 'copy', 'reload',
                 'eval', 'reread', 'drop'], [4, 4, 5, 2, 1, 5, 4, 1, 0.4])[0]}
        op.update(id=i, m=r.random(), u=r.random(), v=r.random(),
                  seed=r.randint(0, 10**6))
        if op['op'] in ('build', 'scalers', 'save') and r.random() < 0.22:
            op['fault'] = {'pos': r.random(), 'frac': r.choice([0.0, 0.5]),
                           'kind': r.choice(['crash', 'crash_after', 'torn',
                                             'enospc', 'eio', 'intr'])}
        ops.append(op)
    return {'ops': ops, 'listing': r.choice(['shuffle', 'sorted', 'reverse'])}


def gen_spec(r, n, mats):
    kind = r.choice(['gru', 'rc', 'rc', 'rc' if n < 2 else 'hybrid'])
    mat = r.choice(mats)
    learn = ['E', 'v'] if mat == 'elastic' else ['E', 's0', 'a']
    return {'kind': kind, 'material': mat,
            'learn': sorted(r.sample(learn, r.randint(1, len(learn)))),
            'dim': r.choice([3, 3, 2]) if kind == 'rc' and mat != 'elastic'
            else 3,
            'norm_par': r.random() < 0.4, 'norm_in': r.random() < 0.4,
            'norm_out': r.random() < 0.4, 'check': r.random() < 0.7,
            'features': r.random() < 0.3, 'share': r.random() < 0.7,
            'source': r.choice(['torch', 'custom']),
            'layers': r.choice([1, 1, 2]), 'hidden': r.choice([2, 3, 4]),
            'dropout': r.choice([0, 0, 0.5]),
            'parts': [{'from': r.random() < 0.6, 'pick': r.random(),
                       'kind': r.choice(['gru', 'rc']),
                       'residual': r.random() < 0.3, 'slot': r.random()}
                      for _ in range(r.randint(1, 3))],
            'layout': r.choice(['parallel', 'chain', 'mixed']),
            'mode': r.choice(['additive', 'additive', 'identity']),
            'name': r.choice([None, 'model', 'net.v2', 'm-x']),
            'seed': r.randint(0, 10**6)}


def shrink(scn):
    for i, op in enumerate(scn['ops']):
        if 'fault' in op:
            new = build.snapshot(scn)
            del new['ops'][i]['fault']
            yield new
        if op['op'] == 'build':
            for key, val in (('norm_in', False), ('norm_out', False),
                             ('norm_par', False), ('share', False),
                             ('layers', 1), ('features', False),
                             ('dropout', 0), ('source', 'torch'),
                             ('kind', 'gru')):
                if op['spec'][key] != val:
                    new = build.snapshot(scn)
                    new['ops'][i]['spec'][key] = val
                    yield new


# ---------------------------------------------------------- independent models
def gru_reference(values, layers, hidden, x):
    """GRU and linear layer from their equations (double precision)."""
    v = [np.asarray(p.detach(), dtype=float) for p in values]
    out = np.asarray(x.detach(), dtype=float)
    sig = lambda a: 1.0/(1.0 + np.exp(-a))
    for k in range(layers):
        w_ih, w_hh, b_ih, b_hh = v[4*k:4*k + 4]
        h, seq = np.zeros((out.shape[1], hidden)), []
        for t in range(out.shape[0]):
            gi, gh = out[t] @ w_ih.T + b_ih, h @ w_hh.T + b_hh
            ir, iz, in_ = np.split(gi, 3, 1)
            hr, hz, hn = np.split(gh, 3, 1)
            r, z = sig(ir + hr), sig(iz + hz)
            new = np.tanh(in_ + r*hn)
            h = (1.0 - z)*new + z*h
            seq.append(h)
        out = np.stack(seq)
    return torch.tensor(out @ v[4*layers].T + v[4*layers + 1])


class Scaling:
    """Own normalisation: shift and scale per feature."""

    def __init__(self, seed, n_in, n_out, kind):
        gen = np.random.Generator(np.random.PCG64(seed))
        self.kind, self.size = kind, {'features_in': n_in,
                                      'features_out': n_out}
        self.par, self.ab = {}, {}
        for key, n, size in (('features_in', n_in, 0.02),
                             ('features_out', n_out, 3.0)):
            a = gen.uniform(-0.3, 0.3, n)*size
            b = gen.uniform(0.5, 1.5, n)*size
            self.set(key, a, b)

    def set(self, key, shift, scale):
        a = torch.tensor(shift, dtype=torch.float32)
        b = torch.tensor(scale, dtype=torch.float32)
        self.ab[key] = (a.double(), b.double())
        self.par[key] = ({'mean': a, 'std': b} if self.kind == 'mean-std'
                         else {'minimum': a - b, 'maximum': a + b})

    def fitted(self, samples):
        for key in self.size:
            data = torch.cat([s[key] for s in samples], 0).double()
            if self.kind == 'mean-std':
                self.ab[key] = (data.mean(0), data.std(0, correction=0))
            else:
                lo, hi = data.min(0)[0], data.max(0)[0]
                self.ab[key] = ((hi + lo)/2, (hi - lo)/2)
        return self

    def __call__(self, key, x, inverse=False):
        a, b = self.ab[key]
        return x*b + a if inverse else (x - a)/b

    def objects(self):
        from utilities.data_scalers import (TorchMinMaxScaler,
                                            TorchStandardScaler)
        cls = (TorchStandardScaler if self.kind == 'mean-std'
               else TorchMinMaxScaler)
        return {k: cls(self.size[k], **{a: b.clone() for a, b in p.items()})
                for k, p in self.par.items()}


class Unit:
    """What one stored or live model is, in plain data."""

    def __init__(self, spec):
        self.spec = spec
        self.kind = spec['kind']
        self.parts = []            # of a hybrid: (Unit, channel, residual)
        self.values = None         # list of parameter tensors
        self.scal = None
        if self.kind == 'rc':
            self.n_in = 6 if spec['dim'] == 3 else 3
            self.extra = spec['features'] and spec['material'] != 'elastic'
            self.n_out = self.n_in + (1 if self.extra else 0)
        else:
            self.n_in = self.n_out = 6

    def clone(self):
        new = Unit(self.spec)
        new.n_in, new.n_out = self.n_in, self.n_out
        new.parts = [(u.clone(), c, f) for u, c, f in self.parts]
        new.values = None if self.values is None else [
            v.clone() for v in self.values]
        new.scal = self.scal
        return new

    def norm(self, which):
        if self.kind == 'hybrid':
            return which == 'out' and self.spec['norm_out']
        return self.spec['norm_' + which]

    def ready(self):
        if (self.norm('in') or self.norm('out')) and self.scal is None:
            return False
        return all(u.ready() for u, _, _ in self.parts)

    def take(self, values):
        """Assign parameter values (consumed in order)."""
        if self.kind == 'hybrid':
            for u, _, _ in self.parts:
                values = u.take(values)
            return values
        n = self.n_values()
        self.values = [v.detach().clone() for v in values[:n]]
        return values[n:]

    def n_values(self):
        if self.kind == 'hybrid':
            return sum(u.n_values() for u, _, _ in self.parts)
        if self.kind == 'rc':
            return len(self.spec['learn'])
        return 4*self.spec['layers'] + 2

    def all_values(self):
        if self.kind == 'hybrid':
            return [v for u, _, _ in self.parts for v in u.all_values()]
        return self.values

    # ------------------------------------------------------------- prediction
    def core(self, x):
        """Output of the model on already scaled input (double)."""
        if self.kind == 'gru':
            return gru_reference(self.values, self.spec['layers'],
                                 self.spec['hidden'], x)
        if self.kind == 'rc':
            args = rc_args(self, None)
            args['material_model_name'] = (
                args['material_model_name'].replace('_vmap', ''))
            args['is_normalized_parameters'] = False
            learn = args['learnable_parameters']
            for name, val in zip(self.spec['learn'], self.values):
                val = float(val)
                if self.spec['norm_par']:
                    lo, hi = learn[name]['bounds']
                    val = lo + 0.5*(hi - lo)*(val + 1.0)
                learn[name]['initial_value'] = val
            model = build.model_class('rc')(
                **args, is_save_model_init_file=False)
            with torch.no_grad():
                return model(x.float()).double()
        outs = {}
        for unit, chan, residual in self.parts:
            y = outs.get(chan, x)
            if residual:
                y = torch.cat((y, x), -1)
            outs[chan] = unit.full(y)
        chans = sorted(outs)
        y = (outs[chans[0]] if self.spec['mode'] == 'identity'
             else sum(outs[c] for c in chans))
        return self.scal('features_out', y) if self.norm('out') else y

    def full(self, x):
        """Physical output on physical input."""
        if self.kind != 'hybrid' and self.norm('in'):
            x = self.scal('features_in', x)
        y = self.core(x)
        if self.norm('out'):
            y = self.scal('features_out', y, True)
        return y


def rc_args(unit, directory, parameters=None):
    spec = unit.spec
    args = build.rc_args(directory, material=spec['material'],
                         learn=tuple(spec['learn']),
                         norm_par=spec['norm_par'], norm_in=spec['norm_in'],
                         norm_out=spec['norm_out'], parameters=parameters)
    args.update(n_features_in=unit.n_in, n_features_out=unit.n_out,
                problem_type=4 if spec['dim'] == 3 else 1,
                is_check_su_fail=spec['check'])
    if spec['name'] is not None:
        args['model_name'] = spec['name']
    if unit.extra:
        args['state_features_out'] = {'acc_p_strain': 1}
    return args


def gru_args(unit, directory):
    spec = unit.spec
    args = build.gru_args(directory, hidden=spec['hidden'],
                          layers=spec['layers'], source=spec['source'],
                          norm_in=spec['norm_in'], norm_out=spec['norm_out'],
                          n_in=unit.n_in, n_out=unit.n_out)
    args['dropout'] = spec['dropout'] if spec['layers'] > 1 else 0
    if spec['name'] is not None:
        args['model_name'] = spec['name']
    return args


# -------------------------------------------------------------------- the world
class Place:
    """One model directory and what it must hold."""

    def __init__(self, path, unit, name):
        self.path, self.unit, self.name = path, unit, name
        self.live = None           # loaded real model
        self.unit_live = None      # what the live model must be
        self.slots = {}            # slot -> list of parameter tensors
        self.moved = False


class World:

    def __init__(self, ctx):
        self.ctx, self.scn = ctx, ctx.scn
        self.root = os.path.join(ctx.scratch, 'disk')
        os.makedirs(self.root)
        self.fs = SimFS(self.root, ctx, listing=self.scn['listing'])
        self.places, self.n_dir, self.dicts = [], 0, {}
        self.uses = 0

    def path(self):
        self.n_dir += 1
        path = os.path.join(self.root, f'd{self.n_dir}', 'model')
        os.makedirs(path)
        return path

    def pick(self, op):
        if not self.places:
            return None
        return self.places[int(op['m']*len(self.places))]

    # ------------------------------------------------------------------ faults
    def guarded(self, op, fn, what):
        """('ok', value) or ('err', None), with the planned fault."""
        fault = op.get('fault')
        if fault is None:
            return 'ok', self.ctx.must(what, fn)
        n = 4 if op['op'] == 'build' else 6
        self.fs.arm({int(fault['pos']*n): fault})
        try:
            value = fn()
        except Violation:
            raise
        except (SimCrash, Exception, KeyboardInterrupt):
            value = None
            if not (self.fs.dead or sum(self.ctx.faults.values())):
                raise
            out = 'err'
        else:
            out = 'ok'
        if self.fs.dead:
            out = 'err'
            self.fs.restart()
        self.fs.disarm()
        return out, value

    # -------------------------------------------------------------- operations
    def build(self, op):
        spec = dict(op['spec'])
        ctx = self.ctx
        path = self.path()
        torch.manual_seed(spec['seed'])
        unit = Unit(spec)
        if unit.kind == 'hybrid':
            args = self.hybrid_args(unit, op, path)
            if args is None:
                spec['kind'] = 'gru'
                unit = Unit(spec)
        cls = build.model_class(unit.kind)
        if unit.kind == 'gru':
            args = gru_args(unit, path)
            if spec['source'] == 'custom':
                ctx.probe('custom_gru')
        elif unit.kind == 'rc':
            shared = None
            if spec['share']:
                key = spec['material'].replace('_vmap', '')
                if key in self.dicts:
                    ctx.probe('shared_parameters')
                    ctx.nontrivial = True
                shared = self.dicts.setdefault(
                    key, (build.material_parameters(key),
                          build.material_parameters(key)))[0]
            args = rc_args(unit, path, shared)
            for cond, name in ((spec['dim'] == 2, 'two_dimensional'),
                               (unit.extra, 'state_features'),
                               (not spec['check'], 'unchecked_update'),
                               (spec['norm_par'], 'normalised_parameters')):
                if cond:
                    ctx.probe(name)
        ctx.log('build', unit.kind, os.path.relpath(path, self.root))
        out, model = self.guarded(op, lambda: cls(**args), 'build model')
        if out == 'err':
            ctx.probe('fault_in_build')
            self.half_built(cls, path)
            return
        unit.take(list(model.parameters()))
        place = Place(path, unit, model.model_name)
        place.live, place.unit_live = model, unit.clone()
        self.places.append(place)

    def half_built(self, cls, path):
        """A directory whose construction failed loads loudly or not at all."""
        try:
            cls.init_model_from_file(model_directory=path)
        except Exception as exc:
            if os.path.isfile(os.path.join(path, 'model_init_file.pkl')):
                raise Violation(
                    'damaged-file', 'the initialisation file left by a '
                    'failed construction cannot be read: '
                    f'{type(exc).__name__}: {str(exc)[:120]}') from exc

    def hybrid_args(self, unit, op, path):
        """Arguments of a hybrid of stored and new models, or None."""
        from model_architectures.hybrid_base_model.model.hybridized_model \
            import set_hybridized_model
        spec, ctx = unit.spec, self.ctx
        hyb, width = {}, {}
        for k, part in enumerate(spec['parts']):
            chan = {'parallel': k, 'chain': 0,
                    'mixed': min(k, 1)}[spec['layout']]
            pos = sum(1 for _, c, _ in unit.parts if c == chan)
            cands = [p for p in self.places if p.unit.kind != 'hybrid'
                     and p.unit.n_in == 6 and p.unit.n_out == 6
                     and p.unit.ready()]
            if part['from'] and cands:
                src = cands[int(part['pick']*len(cands))]
                cls = build.model_class(src.unit.kind)
                kwargs = {'model_init_file_path': os.path.join(
                    src.path, 'model_init_file.pkl')}
                sub = src.unit.clone()
                slots = sorted(src.slots, key=str)
                if src.unit.kind == 'gru' and not slots:
                    continue
                if slots:
                    slot = slots[int(part['slot']*len(slots))]
                    kwargs['model_state_file_path'] = os.path.join(
                        src.path, slot_file(src.name, slot))
                    sub.take(src.slots[slot])
                else:
                    sub.values = None
                residual = False
                ctx.probe('hybrid_of_stored')
                ctx.nontrivial = True
            else:
                sub_spec = dict(spec, kind=part['kind'], dim=3,
                                features=False, seed=spec['seed'] + k,
                                name=None)
                sub = Unit(sub_spec)
                residual = part['residual'] and part['kind'] == 'gru'
                if residual:
                    sub.n_in = 12
                cls = build.model_class(sub.kind)
                args = (gru_args if sub.kind == 'gru' else rc_args)(sub, None)
                kwargs = {'model_init_args': args}
                if sub.norm('in') or sub.norm('out'):
                    sub.scal = Scaling(op['seed'] + k, sub.n_in, sub.n_out,
                                       'mean-std' if part['slot'] < 0.5
                                       else 'min-max')
                    kwargs['data_scalers'] = sub.scal.objects()
            if pos > 0:
                ctx.probe('hybrid_chain')
            data = ctx.must('prepare hybridised model', set_hybridized_model,
                            cls, (chan, pos), is_input_residual=residual,
                            **kwargs)
            if sub.values is None:
                sub.take(list(data['hyb_model'].parameters()))
            hyb[f'part{k}'] = data
            unit.parts.append((sub, chan, residual))
        if not hyb:
            return None
        # Models are listed in any order; position is given by the indices
        names = sorted(hyb, key=lambda n: (op['seed'], n)[1],
                       reverse=op['seed'] % 2 == 0)
        unit.parts.sort(key=lambda p: p[1])
        return dict(n_features_in=6, n_features_out=6,
                    hyb_models_dict={n: hyb[n] for n in names},
                    model_directory=path,
                    model_name=spec['name'] or 'hybrid_model',
                    hybridization_type=spec['mode'],
                    is_model_in_normalized=False,
                    is_model_out_normalized=spec['norm_out'],
                    device_type='cpu')

    def perturb(self, op, p):
        if p.live is None:
            return
        gen = torch.Generator().manual_seed(op['seed'])
        with torch.no_grad():
            for par, (lo, hi) in zip(p.live.parameters(),
                                     limits(p.unit_live)):
                par.copy_(lo + (hi - lo)*torch.rand(par.shape, generator=gen))
        p.unit_live.take(list(p.live.parameters()))
        self.ctx.log('perturb', op['id'])

    def scalers(self, op, p):
        from model_architectures.procedures import model_data_scaling as mds
        if p.live is None or p.moved:
            return
        ctx, unit = self.ctx, p.unit_live
        kind = 'mean-std' if op['v'] < 0.5 else 'min-max'
        scal = Scaling(op['seed'], unit.n_in, unit.n_out, kind)
        if op['u'] < 0.4:
            samples = build.samples(op['seed'], 2, n_time=5, n_in=unit.n_in,
                                    n_out=unit.n_out)
            from time_series_data.time_dataset import \
                TimeSeriesDatasetInMemory
            data = TimeSeriesDatasetInMemory(samples)
            scal.fitted(samples)
            fn = lambda: mds.fit_data_scalers(p.live, data, scaling_type=kind)
            ctx.probe('scalers_fitted')
        elif op['u'] < 0.7:
            fn = lambda: mds.set_fitted_data_scalers(p.live, kind, {
                k: dict(v) for k, v in scal.par.items()})
            ctx.probe('scalers_given')
        else:
            obj = scal.objects()
            fn = lambda: mds.set_data_scalers(p.live, obj['features_in'],
                                              obj['features_out'])
        ctx.log('scalers', kind)
        out, _ = self.guarded(op, fn, 'set data scalers')
        if out == 'ok':
            unit.scal = scal
            if p.live._is_save_model_init_file:
                p.unit.scal = scal
                p.unit.take(unit.all_values()) if unit.kind == 'hybrid' \
                    else None
            return
        ctx.probe('fault_in_scalers')
        # Either the previous or the new description is stored
        options = [p.unit.clone(), p.unit.clone()]
        options[1].scal = scal
        if unit.kind == 'hybrid':
            options[1].take(unit.all_values())
        self.load(p, op)
        if not p.live._data_scalers or all(
                v is None for v in p.live._data_scalers.values()):
            ctx.check(options[0].scal is None, 'scalers-lost',
                      'the scalers stored before a failed update are gone')
            p.unit = options[0]
        else:
            x = self.inputs(p.unit, op)
            got = {k: v.transform(x if k == 'features_in' else
                                  x[..., :1].repeat(1, 1, p.unit.n_out))
                   for k, v in p.live._data_scalers.items()}
            ok = [o for o in options if o.scal is not None and all(
                torch.allclose(got[k].double(), o.scal(
                    k, (x if k == 'features_in' else x[..., :1].repeat(
                        1, 1, p.unit.n_out)).double()), rtol=1e-3, atol=1e-4)
                for k in got)]
            ctx.check(ok, 'scalers-mixed', 'after a failed update the stored '
                      'scalers are neither the previous nor the new ones')
            p.unit = ok[0]
        p.unit_live.scal = p.unit.scal

    def save(self, op, p):
        from model_architectures.procedures.model_state_files import \
            save_model_state
        if p.live is None or p.moved:
            return
        slot = ['default', 'init', 'best', ('best', 3), 0, 3, 12][
            int(op['u']*7)]
        kwargs = {}
        if slot in ('init', 'best'):
            kwargs['state_type'] = slot
        elif isinstance(slot, tuple):
            kwargs.update(state_type='best', epoch=slot[1])
        elif slot != 'default':
            kwargs['epoch'] = slot
        old = dict(p.slots)
        new = [v.clone() for v in p.unit_live.all_values()]
        self.ctx.log('save', str(slot))
        out, _ = self.guarded(op, lambda: save_model_state(
            p.live, is_remove_posterior=False, **kwargs), 'save state')
        if out == 'ok':
            if is_best(slot):
                p.slots = {k: v for k, v in p.slots.items()
                           if not is_best(k)}
            p.slots[slot] = new
            return
        self.ctx.probe('fault_in_save')
        p.live = None
        # What survives is checked by loading every slot that must be there
        p.slots = {k: v for k, v in old.items()
                   if k != slot and not (is_best(slot) and is_best(k))}
        cands = {k: [v] for k, v in old.items() if k not in p.slots}
        cands.setdefault(slot, []).append(new)
        found = False
        for k, values in cands.items():
            if os.path.isfile(os.path.join(p.path, slot_file(p.name, k))):
                state = self.read_state(p, k)
                ok = [v for v in values if same(v, state)]
                self.ctx.check(ok, 'state-mixed', f'state {k} after a failed '
                               'save is neither the previous nor the new one')
                p.slots[k] = ok[0]
                found = True
            else:
                self.ctx.check(k == slot and k not in old or is_best(k),
                               'state-lost',
                               f'state {k} is gone after a failed save')
        self.ctx.check(found or slot not in old and not (
            is_best(slot) and any(is_best(k) for k in old)), 'state-lost',
            'no state is left after a failed save')

    def read_state(self, p, slot):
        model = self.fresh(p, False)
        path = os.path.join(p.path, slot_file(p.name, slot))
        try:
            model.load_state_dict(torch.load(path))
        except Exception as exc:
            raise Violation('damaged-state', f'state {slot} cannot be read '
                            f'after a failed save: {exc}') from exc
        return [v.detach() for v in model.parameters()]

    def fresh(self, p, by_file):
        cls = build.model_class(p.unit.kind)
        if by_file:
            self.ctx.probe('reload_by_file')
            return self.ctx.must(
                'load model from its file', cls.init_model_from_file,
                model_init_file_path=os.path.join(p.path,
                                                  'model_init_file.pkl'))
        return self.ctx.must('load model from its directory',
                             cls.init_model_from_file,
                             model_directory=p.path)

    def load(self, p, op):
        """A new process loads the model (and one of its states)."""
        from model_architectures.procedures.model_state_files import \
            load_model_state
        ctx = self.ctx
        before = build.tree(p.path)
        p.live = self.fresh(p, op['v'] < 0.5)
        p.unit_live = p.unit.clone()
        slots = list(p.slots)
        if slots and (p.unit.kind == 'gru' or op['u'] < 0.8):
            slot = sorted(slots, key=str)[int(op['u']*1000) % len(slots)]
            arg = {'default': None, 'init': 'init'}.get(
                slot, 'best') if not isinstance(slot, int) else slot
            if is_best(slot):
                slot = best_of(p.slots)
            ctx.must(f'load state {slot}', load_model_state, p.live,
                     model_load_state=arg, is_remove_posterior=False)
            p.unit_live.take(p.slots[slot])
        elif p.unit.kind == 'gru':
            # Weights are not part of the description of a network
            p.unit_live.take(list(p.live.parameters()))
        elif p.unit.kind == 'hybrid':
            pass                  # stored with its models as they were
        else:
            p.unit_live.values = initial(p.unit)
        got = list(p.live.parameters())
        ctx.check(same(got, p.unit_live.all_values()), 'wrong-parameters',
                  f'parameters of the loaded {p.unit.kind} model are not the '
                  'stored ones')
        ctx.check(build.tree(p.path) == before, 'files-changed',
                  'loading a model changed its directory')
        p.moved = False
        ctx.probe('reload')

    def reload(self, op, p):
        was_moved = p.moved
        self.load(p, op)
        if was_moved:
            self.ctx.probe('reload_moved')
            self.ctx.nontrivial = True
        self.evaluate(op, p)

    def reread(self, op, p):
        from model_architectures.procedures import model_data_scaling as mds
        if p.live is None or p.moved:
            return
        self.ctx.must('read scalers from file',
                      mds.load_model_data_scalers_from_file, p.live)
        p.unit_live.scal = p.unit.scal
        self.ctx.probe('scalers_reread')

    def move(self, op, p):
        new = self.path()
        os.rmdir(new)
        shutil.move(p.path, new)
        p.path, p.moved = new, True
        self.ctx.log('move', op['id'])

    def copy(self, op, p):
        new = self.path()
        os.rmdir(new)
        shutil.copytree(p.path, new)
        q = Place(new, p.unit.clone(), p.name)
        q.slots = dict(p.slots)
        q.moved = True
        self.places.append(q)

    def drop(self, op, p):
        """The directory is deleted; models in memory live on."""
        if len(self.places) > 2:
            shutil.rmtree(os.path.dirname(p.path))
            self.places.remove(p)
            self.ctx.probe('source_removed')

    # -------------------------------------------------------------- evaluation
    def inputs(self, unit, op):
        gen = torch.Generator().manual_seed(op['seed'] + 17)
        x = 0.01*torch.randn((4, 1 + op['seed'] % 3, unit.n_in),
                             generator=gen).cumsum(0)
        x[0] = 0.0
        return x

    def evaluate(self, op, p):
        from model_architectures.procedures.model_data_scaling import \
            data_scaler_transform
        ctx, unit, model = self.ctx, p.unit_live, p.live
        if model is None or not unit.ready():
            return
        model.eval()
        x = self.inputs(unit, op)
        nan = (unit.kind == 'rc' and not unit.spec['check']
               and op['seed'] % 4 == 0)
        if nan:
            x[2:] = float('nan')
        keep = x.clone()
        is_in = unit.kind != 'hybrid' and unit.norm('in')

        def real():
            z = data_scaler_transform(model, x, 'features_in', 'normalize') \
                if is_in else x
            y = model(z)
            y = y[0] if isinstance(y, tuple) else y
            if unit.norm('out'):
                y = data_scaler_transform(model, y, 'features_out',
                                          'denormalize')
            return y.detach()
        ctx.check(model.is_model_in_normalized == is_in
                  and model.is_model_out_normalized == unit.norm('out'),
                  'wrong-normalisation-flags', f'{unit.kind} model')
        got = ctx.must(f'evaluate the {unit.kind} model', real)
        ctx.check(torch.equal(torch.nan_to_num(x), torch.nan_to_num(keep)),
                  'input-changed', 'evaluation changed its input')
        want = unit.full(x.double())
        scale = float(torch.nan_to_num(want).abs().max()) + 1e-3
        tol = 2e-4*scale + 1e-5
        if nan:
            ok = got.shape == want.shape and bool(torch.equal(
                torch.isnan(got), torch.isnan(want)))
        else:
            ok = got.shape == want.shape and bool(
                ((got - want).abs() <= tol).all())
        ctx.check(ok, 'wrong-prediction', lambda: (
            f'{unit.kind} model (operation {op["id"]}) predicts '
            f'{got.reshape(-1)[-3:].tolist()} where the stored model means '
            f'{want.reshape(-1)[-3:].tolist()} (tolerance {tol:.2g})'))
        got2 = [v.detach() for v in model.parameters()]
        ctx.check(same(got2, unit.all_values()), 'parameters-changed',
                  'evaluation changed the parameters')
        self.uses += 1

    def invariant(self):
        ctx = self.ctx
        for name, (used, keep) in self.dicts.items():
            ctx.check(plain(used) == plain(keep), 'caller-data-changed',
                      f'the {name} parameters given by the caller were '
                      'changed by the models built from them')
        for p in self.places:
            if p.live is not None:
                ctx.check(same(list(p.live.parameters()),
                               p.unit_live.all_values()), 'foreign-change',
                          'an operation on one model changed the parameters '
                          'of another')

    def run(self):
        ctx = self.ctx
        with self.fs.installed():
            for op in self.scn['ops']:
                if op['op'] == 'build':
                    self.build(op)
                else:
                    p = self.pick(op)
                    if p is None:
                        continue
                    ctx.log(op['op'], op['id'])
                    {'perturb': self.perturb, 'scalers': self.scalers,
                     'save': self.save, 'move': self.move, 'copy': self.copy,
                     'reload': self.reload, 'eval': self.evaluate,
                     'reread': self.reread, 'drop': self.drop}[op['op']](
                         op, p)
                self.invariant()
                ctx.state([op['op'], [(p.unit.kind, sorted(map(
                    str, p.slots))) for p in self.places]])
            for k, p in enumerate(self.places):
                op = {'id': f'end{k}', 'u': 0.37*k % 1, 'v': 0.61*k % 1,
                      'seed': 1 + 3*k}
                self.evaluate(op, p)
                self.load(p, op)
                self.evaluate(op, p)
                self.invariant()


# -------------------------------------------------------------------- helpers
def is_best(slot):
    return slot == 'best' or isinstance(slot, tuple)


def best_of(slots):
    return max((s for s in slots if is_best(s)),
               key=lambda s: -1 if s == 'best' else s[1])


def slot_file(name, slot):
    return {'default': name, 'init': name + '-init',
            'best': name + '-best'}.get(slot, (
                f'{name}-{slot[1]}-best' if isinstance(slot, tuple)
                else f'{name}-{slot}')) + '.pt'


def limits(unit):
    if unit.kind == 'hybrid':
        return [x for u, _, _ in unit.parts for x in limits(u)]
    if unit.kind == 'gru':
        return [(-0.7, 0.7)]*unit.n_values()
    return [(-1.0, 1.0) if unit.spec['norm_par'] else build.BOUNDS[k]
            for k in unit.spec['learn']]


def initial(unit):
    out = []
    for name in unit.spec['learn']:
        lo, hi = build.BOUNDS[name]
        val = lo + 0.25*(hi - lo)
        if unit.spec['norm_par']:
            val = 2.0*(val - lo)/(hi - lo) - 1.0
        out.append(torch.tensor(val))
    return out


def same(a, b):
    return len(a) == len(b) and all(
        tuple(x.shape) == tuple(y.shape) and torch.allclose(
            x.detach().double(), y.detach().double(), rtol=1e-6, atol=1e-7)
        for x, y in zip(a, b))


def plain(obj):
    if isinstance(obj, dict):
        return {k: plain(v) for k, v in obj.items()}
    if isinstance(obj, torch.Tensor):
        return ('tensor', obj.detach().reshape(-1).tolist())
    if isinstance(obj, (list, tuple)):
        return [plain(v) for v in obj]
    return getattr(obj, '__name__', obj)


def run(ctx):
    World(ctx).run()
