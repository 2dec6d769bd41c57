"""P21: a learnable constitutive model responds as its material would."""
import copy
import math
import os

import numpy as np
import torch

from dst import build
from dst.calls import count_calls, fault_at
from dst.core import Violation, rng
from dst.props.p12 import make_model
from dst.vfs import SimFS

RUNS = {'quick': 420, 'thorough': 16000}
RULE = ('one run = one or two learnable constitutive models (five materials, '
        'standard or vectorised, 3D or plane strain, single or double '
        'precision, any subset of learnable parameters, normalised or not) '
        'through a seeded sequence of parameter changes (written, loaded, '
        'optimiser step, limited to bounds), batched and single evaluations, '
        'gradients, frozen parameters, reloads from disk and evaluations '
        'that are interrupted or fail at a random function entry; '
        'non-trivial = a path yielded and parameters had changed or a fault '
        'fired')
PROBES = ('evaluation_mode', 'undefined_strain', 'elastic', 'von_mises',
          'von_mises_mixed', 'drucker_prager',
          'lou_zhang_yoon', 'vmap', 'plane_strain', 'double', 'single',
          'normalised', 'yielded', 'state_features', 'unbatched', 'batched',
          'gradient', 'friction_angle', 'yield_parameter', 'kinematic',
          'fault', 'after_fault', 'reload', 'step', 'clamped', 'frozen',
          'shared', 'su_fail', 'strain_feature')
STATE_MEASURE = 'digest of (material, operation, learnables, yielded steps)'
REAL = ['recurrent constitutive model (forward, synchronisation, bounds)',
        'constitutive models and state update', 'checkpoint writer and reader',
        'automatic differentiation and Adam']
STUB = ['disk, listing order, clock', 'function-entry fault injector']
ASSUMPTIONS = ['the response is compared with the standard material of the '
               'same law in double precision, itself checked by P12',
               'a response whose state update does not converge is refused '
               'or undefined']
SHRINK_LISTS = ('ops',)

ORDER = {4: ('11', '22', '33', '12', '23', '13'), 1: ('11', '22', '12')}
LEARN = {'elastic': ['E', 'v'], 'von_mises': ['E', 'v', 's0', 'a', 'b'],
         'von_mises_mixed': ['E', 'v', 's0', 'a', 'b', 'kin_s0', 'kin_a',
                             'kin_b'],
         'drucker_prager': ['E', 'v', 's0', 'a', 'b',
                            'yield_cohesion_parameter',
                            'yield_pressure_parameter',
                            'flow_pressure_parameter', 'friction_angle'],
         'lou_zhang_yoon': ['E', 'v', 's0', 'a', 'b', 'yield_a_s0',
                            'yield_b_s0', 'yield_c_s0', 'yield_d_s0']}
BOUNDS = {'E': (50.0, 150.0), 'v': (0.2, 0.4), 's0': (0.5, 1.5),
          'a': (2.0, 8.0), 'b': (0.3, 0.6), 'kin_s0': (0.0, 0.0),
          'kin_a': (1.0, 6.0), 'kin_b': (0.4, 0.9),
          'yield_cohesion_parameter': (1.0, 1.2),
          'yield_pressure_parameter': (0.1, 0.5),
          'flow_pressure_parameter': (0.05, 0.3),
          'friction_angle': (0.05, 0.35), 'yield_a_s0': (0.9, 1.2),
          'yield_b_s0': (0.0, 0.05), 'yield_c_s0': (-0.5, 1.0),
          'yield_d_s0': (-0.4, 0.5)}
BOUNDS['kin_s0'] = (0.0, 0.2)


# =============================================================================
def gen(seed, tier):
    r = rng(seed, 'gen')
    models = []
    for _ in range(r.choice([1, 1, 2])):
        mat = r.choice(['elastic', 'von_mises', 'von_mises_mixed',
                        'drucker_prager', 'drucker_prager', 'lou_zhang_yoon'])
        vmap = mat != 'elastic' and r.random() < 0.5
        names = list(LEARN[mat])
        if mat == 'drucker_prager':
            # Either the angle or the three parameters it stands for
            names = ([n for n in names if n.split('_')[0] not in
                      ('yield', 'flow')] if r.random() < 0.5
                     else names[:-1])
        learn = r.sample(names, r.randint(1, min(4, len(names))))
        feats = []
        if r.random() < 0.5:
            pool = (['acc_p_strain', 'e_strain_mf', 'strain_mf']
                    if mat != 'elastic' else ['e_strain_mf', 'strain_mf'])
            feats = r.sample(pool, r.randint(1, 2))
        models.append({'mat': mat, 'vmap': vmap, 'learn': learn,
                       'norm': r.random() < 0.5, 'feats': feats,
                       'init': {n: r.random() for n in learn}})
    ops = []
    for i in range(r.choice([3, 5, 8])):
        ops.append({
            'id': i, 'm': r.randint(0, 1), 'eval': r.random() < 0.4,
            'op': r.choice(['forward', 'forward', 'forward', 'set', 'set',
                            'grad', 'fault', 'step', 'clamp', 'reload',
                            'freeze', 'undefined']),
            'val': [r.choice([r.random(), r.random(), 0.0, 1.0])
                    for _ in range(10)],
            'how': r.choice(['data', 'load', 'grad']),
            'n_path': r.choice([0, 1, 2, 3]), 'n_time': r.choice([2, 3, 5]),
            'amp': r.choice([0.002, 0.01, 0.03]), 'tag': r.randint(0, 10**6),
            'start': r.random() < 0.2,
            'pos': r.random(), 'kind': r.choice(['intr', 'oom', 'num'])})
    return {'seed': seed, 'listing': 'shuffle', 'models': models,
            'shared': r.random() < 0.4, 'problem': r.choice([4, 4, 1]),
            'dtype': r.choice(['f32', 'f64']), 'ops': ops}


def shrink(scn):
    for i, m in enumerate(scn['models']):
        if len(m['learn']) > 1:
            for n in m['learn']:
                new = build.snapshot(scn)
                new['models'][i]['learn'].remove(n)
                yield new
        for key, val in (('feats', []), ('norm', False)):
            if m[key] != val:
                new = build.snapshot(scn)
                new['models'][i][key] = val
                yield new
    for i, op in enumerate(scn['ops']):
        for key, val in (('n_path', 0), ('n_time', 2), ('start', False)):
            if op[key] != val:
                new = build.snapshot(scn)
                new['ops'][i][key] = val
                yield new


# ------------------------------------------------------------------- reference
def law(name):
    from simulators.fetorch.material.models.standard.hardening import \
        get_hardening_law
    return get_hardening_law(name)


def parameters(mat, val):
    """Material parameters with the given values of the learnables."""
    v = dict({n: 0.5*(lo + hi) for n, (lo, hi) in BOUNDS.items()},
             **FIXED)
    v.update(val)
    par = {'elastic_symmetry': 'isotropic', 'E': v['E'], 'v': v['v'],
           'euler_angles': (0.0, 0.0, 0.0)}
    if mat == 'elastic':
        return par
    par['hardening_law'] = law('nadai_ludwik')
    par['hardening_parameters'] = {'s0': v['s0'], 'a': v['a'], 'b': v['b'],
                                   'ep0': 1e-4}
    if mat == 'von_mises_mixed':
        par['kinematic_hardening_law'] = law('nadai_ludwik')
        par['kinematic_hardening_parameters'] = {
            's0': v['kin_s0'], 'a': v['kin_a'], 'b': v['kin_b'], 'ep0': 1e-4}
    if mat == 'drucker_prager':
        if 'friction_angle' in val:
            a = val['friction_angle']
            v['yield_cohesion_parameter'] = 2.0/math.sqrt(3.0)*math.cos(a)
            v['yield_pressure_parameter'] = math.sqrt(3.0)*math.sin(a)
            v['flow_pressure_parameter'] = math.sqrt(3.0)*math.sin(a)
        for n in ('yield_cohesion_parameter', 'yield_pressure_parameter',
                  'flow_pressure_parameter'):
            par[n] = v[n]
    if mat == 'lou_zhang_yoon':
        for k in 'abcd':
            par[f'{k}_hardening_law'] = law('linear')
            par[f'{k}_hardening_parameters'] = {'s0': v[f'yield_{k}_s0'],
                                                'a': 0.0}
        par['is_associative_hardening'] = True
    return par


FIXED = {'kin_s0': 0.0, 'yield_a_s0': 1.0}


def to_tensor(comps, order):
    n = 3 if len(order) == 6 else 2
    t = np.zeros((n, n))
    for c, x in zip(order, comps):
        i, j = int(c[0]) - 1, int(c[1]) - 1
        t[i, j] = t[j, i] = x
    return t


def from_mf(mf, order):
    """Components of a matricial (Kelvin) form."""
    a = np.asarray(mf.detach().to(torch.float64)).ravel()
    return [x if c[0] == c[1] else x/math.sqrt(2.0)
            for c, x in zip(order, a)]


def drive(scn, m, val, path, vmap=False, dtype=torch.float64):
    """Response of a fresh material to one strain path, step by step."""
    from simulators.fetorch.material.material_su import material_state_update
    order = ORDER[scn['problem']]
    old = torch.get_default_dtype()
    torch.set_default_dtype(dtype)
    try:
        par = parameters(m['mat'], val)
        if dtype == torch.float32:
            par = {k: ({a: torch.tensor(float(b)) for a, b in v.items()}
                       if isinstance(v, dict) else v) for k, v in par.items()}
        mat = make_model(scn['problem'], {'name': m['mat'], 'vmap': vmap,
                                          'su64': True}, par)

        def update(inc, state):
            return material_state_update('infinitesimal', scn['problem'],
                                         mat, inc, state)[0]
        if vmap:
            single = update

            def update(inc, state):
                out = torch.vmap(single)(inc[None], {
                    k: v[None] for k, v in state.items()})
                return {k: v[0] for k, v in out.items()}
        state = mat.state_init()
        n_out = len(order) + sum(feature_size(f, order) for f in m['feats'])
        out = np.zeros((len(path), n_out))
        plastic, fail = 0, False
        for t in range(1, len(path)):
            inc = torch.tensor(to_tensor(path[t], order)
                               - to_tensor(path[t - 1], order), dtype=dtype)
            state = update(inc, state)
            if bool(state['is_su_fail']):
                fail = True
                break
            plastic += bool(state.get('is_plast', False))
            row = list(from_mf(state['stress_mf'], order))
            for f in m['feats']:
                row += (from_mf(state[f], order) if 'strain_mf' in f
                        else [float(state[f])])
            out[t] = row
        return out, plastic, fail
    finally:
        torch.set_default_dtype(old)


def feature_size(f, order):
    return len(order) if 'strain_mf' in f else 1


# ----------------------------------------------------------------------- world
class Entry:
    """A model under test with the parameter values it must have."""

    def __init__(self, ctx, k, shared):
        self.ctx, self.k = ctx, k
        self.spec = m = ctx.scn['models'][k]
        self.order = ORDER[ctx.scn['problem']]
        self.dir = os.path.join(ctx.scratch, f'model{k}')
        os.mkdir(self.dir)
        start = {n: at(n, m['init'][n]) for n in m['learn']}
        self.given = shared
        feats = {f: feature_size(f, self.order) for f in m['feats']}
        n_out = len(self.order) + sum(feats.values())
        from model_architectures.rc_base_model.model.recurrent_model import \
            RecurrentConstitutiveModel
        self.model = ctx.must(
            'initialise model', RecurrentConstitutiveModel,
            n_features_in=len(self.order), n_features_out=n_out,
            learnable_parameters={n: {'initial_value': start[n],
                                      'bounds': BOUNDS[n]}
                                  for n in m['learn']},
            strain_formulation='infinitesimal', problem_type=ctx.scn['problem'],
            material_model_name=m['mat'] + ('_vmap' if m['vmap'] else ''),
            material_model_parameters=shared, state_features_out=feats,
            model_directory=self.dir, model_name=f'model{k}',
            is_normalized_parameters=m['norm'], is_model_in_normalized=False,
            is_model_out_normalized=False, device_type='cpu')
        self.frozen = set()
        self.changed = False

    def raw(self, n):
        return self.model.get_model_parameters()[n]

    def physical(self):
        out = {}
        for n in self.spec['learn']:
            lo, hi = BOUNDS[n]
            x = float(self.raw(n).detach())
            out[n] = lo + (hi - lo)*(x + 1.0)/2.0 if self.spec['norm'] else x
        return out

    def encode(self, n, x):
        lo, hi = BOUNDS[n]
        return 2.0*(x - lo)/(hi - lo) - 1.0 if self.spec['norm'] else x


def at(n, x):
    lo, hi = BOUNDS[n]
    return lo + (hi - lo)*x


def paths(scn, op):
    order = ORDER[scn['problem']]
    r = np.random.Generator(np.random.PCG64([op['tag'], scn['seed'] % 2**31]))
    n = max(op['n_path'], 1)
    x = r.standard_normal((n, op['n_time'], len(order)))*op['amp']
    x = x.cumsum(axis=1)
    if not op['start']:
        x = x - x[:, :1]
    t = torch.tensor(x.transpose(1, 0, 2), dtype=torch.get_default_dtype())
    return (t[:, 0] if op['n_path'] == 0 else t), x


# =============================================================================
def run(ctx):
    scn = ctx.scn
    dtype = torch.float32 if scn['dtype'] == 'f32' else torch.float64
    ctx.probe('single' if dtype == torch.float32 else 'double')
    if scn['problem'] == 1:
        ctx.probe('plane_strain')
    torch.set_default_dtype(dtype)
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'])
    try:
        with fs.installed():
            _run(ctx, dtype)
    finally:
        torch.set_default_dtype(torch.float32)


def _run(ctx, dtype):
    scn = ctx.scn
    entries, given = [], {}
    for k, m in enumerate(scn['models']):
        if not (scn['shared'] and m['mat'] in given):
            given[m['mat']] = parameters(m['mat'], {})
        elif k:
            ctx.probe('shared')
        entries.append(Entry(ctx, k, given[m['mat']]))
    before = copy.deepcopy(given)
    for m in scn['models']:
        ctx.probe(m['mat'])
        for cond, name in ((m['vmap'], 'vmap'), (m['norm'], 'normalised'),
                           (m['feats'], 'state_features'),
                           (any('strain_mf' in f for f in m['feats']),
                            'strain_feature'),
                           ('friction_angle' in m['learn'], 'friction_angle'),
                           (any(n.startswith('yield') for n in m['learn']),
                            'yield_parameter'),
                           (any(n.startswith('kin') for n in m['learn']),
                            'kinematic')):
            if cond:
                ctx.probe(name)
    for e in entries:
        check_values(ctx, e, {n: at(n, e.spec['init'][n])
                              for n in e.spec['learn']}, dtype, 'initial')
    after = False
    for op in scn['ops']:
        ctx.step()
        e = entries[op['m'] % len(entries)]
        if after:
            ctx.probe('after_fault')
        ctx.must('switch mode', e.model.train, not op.get('eval'))
        if op.get('eval'):
            ctx.probe('evaluation_mode')
        OPS[op['op']](ctx, e, op, dtype)
        if op['op'] == 'fault':
            after = True
        for other in entries:
            if other is not e:
                check_values(ctx, other, other.want, dtype, 'other model')
        ctx.check(torch.get_default_dtype() == dtype, 'default-dtype',
                  f'{op["op"]} left another default data type')
    for e in entries:
        evaluate(ctx, e, dict(scn['ops'][0] if scn['ops'] else {},
                              n_path=2, n_time=3, amp=0.02, tag=5,
                              start=False), dtype)
    ctx.check(build.state_equal(before, given), 'input-changed',
              'material parameters given by the caller were changed')


def check_values(ctx, e, want, dtype, what):
    e.want = dict(want)
    got = e.model.get_detached_model_parameters()
    tol = 1e-5 if dtype == torch.float32 else 1e-10
    # Initial values are single precision numbers in any case
    if what == 'initial':
        tol = 1e-5
    ctx.check(set(got) == set(want), 'parameters',
              f'parameters {sorted(got)}, expected {sorted(want)}')
    for n, x in want.items():
        lo, hi = BOUNDS[n]
        scale = max(abs(lo), abs(hi))
        ctx.check(abs(float(got[n]) - x) <= tol*scale, 'parameters',
                  lambda: f'{what}: {n} is {float(got[n])!r}, expected {x!r}')
        low = e.model.get_detached_model_parameters(is_normalized_out=True)[n]
        ref = 2.0*(x - lo)/(hi - lo) - 1.0
        ctx.check(abs(float(low) - ref) <= 4*tol*scale/(hi - lo), 'parameters',
                  lambda: f'{what}: normalised {n} is {float(low)!r}, '
                  f'expected {ref!r}')
        ctx.check(tuple(e.model.get_model_parameters_bounds()[n])
                  == tuple(BOUNDS[n]), 'parameters', f'bounds of {n} changed')


def compare(ctx, e, out, x, op, dtype, what):
    """Output against a fresh material with the current parameters."""
    scn, m = ctx.scn, e.spec
    val = e.physical()
    n_col = len(e.order)
    got = out.detach().to(torch.float64).numpy()
    if op['n_path'] == 0:
        got = got[:, None, :]
    ctx.check(got.shape[:2] == (op['n_time'], max(op['n_path'], 1)),
              'shape', f'response of shape {tuple(out.shape)}')
    ctx.check(out.dtype == dtype, 'precision', f'response is {out.dtype}')
    E = val.get('E', 100.0)
    yielded = 0
    if dtype == torch.float32:
        x = x.astype(np.float32).astype(np.float64)
    for i in range(got.shape[1]):
        want, plastic, fail = drive(scn, m, val, x[i])
        if fail:
            ctx.probe('su_fail')
            continue
        if not np.all(np.isfinite(got[:, i])):
            # Undefined only where its own state update does not converge
            _, _, own = drive(scn, m, val, x[i], m['vmap'], dtype)
            ctx.check(own, 'undefined', lambda: f'{what}: response of path '
                      f'{i} is undefined')
            ctx.probe('su_fail')
            continue
        yielded += plastic
        size = max(np.abs(x[i]).max(), 1e-3)
        rel = 3e-3 if dtype == torch.float32 else 1e-4
        scale = np.concatenate([
            np.full(n_col, max(np.abs(want[:, :n_col]).max(), 1e-3)),
            np.full(got.shape[2] - n_col, size)])
        err = np.abs(got[:, i] - want)
        ctx.check(bool(np.all(err <= rel*scale)), 'wrong-response',
                  lambda: f'{what} of {m["mat"]} '
                  f'({"vectorised" if m["vmap"] else "standard"}) with {val}:'
                  f' path {i} deviates by {err.max(axis=0)} from the '
                  f'material, scale {scale}')
    if yielded:
        ctx.probe('yielded')
        if e.changed:
            ctx.nontrivial = True
    ctx.state([m['mat'], m['vmap'], op.get('op'), sorted(m['learn']),
               yielded, got.shape[1]])
    ctx.log(what, m['mat'], [round(float(v), 4) for v in got.ravel()[-3:]])


def evaluate(ctx, e, op, dtype):
    t, x = paths(ctx.scn, op)
    keep = t.clone()
    ctx.probe('unbatched' if op['n_path'] == 0 else 'batched')
    with torch.no_grad():
        out = forward(ctx, e, t, x, dtype)
    ctx.check(torch.equal(t, keep), 'input-changed', 'strain paths changed')
    if out is not None:
        compare(ctx, e, out, x, op, dtype, 'response')


def forward(ctx, e, t, x, dtype):
    try:
        return e.model(t)
    except Exception as exc:
        if isinstance(exc, Violation):
            raise
        if dtype == torch.float32:
            x = x.astype(np.float32).astype(np.float64)
        val = e.physical()
        fails = [drive(ctx.scn, e.spec, val, p, e.spec['vmap'], dtype)[2]
                 for p in x]
        ctx.check(any(fails), 'unexpected-exception',
                  lambda: f'evaluation raised {type(exc).__name__}: '
                  f'{str(exc)[:200]}')
        ctx.probe('su_fail')
        return None


# ------------------------------------------------------------------ operations
def op_set(ctx, e, op, dtype):
    names = [n for n in e.spec['learn'] if n not in e.frozen] or \
        e.spec['learn']
    want = dict(e.want)
    for n, q in zip(names, op['val']):
        want[n] = at(n, q)
    new = {n: torch.tensor(e.encode(n, want[n]), dtype=dtype)
           for n in want}
    if op['how'] == 'load':
        state = e.model.state_dict()
        pos = {n: next(k for k in state if k.split('.')[-1] == n)
               for n in new}
        ctx.must('load parameters', e.model.load_state_dict,
                 dict(state, **{pos[n]: v for n, v in new.items()}))
    else:
        with torch.no_grad():
            for n, v in new.items():
                if op['how'] == 'data':
                    e.raw(n).data = v
                else:
                    e.raw(n).copy_(v)
    e.changed = True
    # Single precision parameters keep the values they can hold
    e.want = want
    settle(ctx, e, want, dtype)


def settle(ctx, e, want, dtype):
    got = e.physical()
    for n, x in want.items():
        ctx.check(abs(got[n] - x) <= 1e-5*max(map(abs, BOUNDS[n])),
                  'parameters', f'{n} is {got[n]}, expected {x}')
    check_values(ctx, e, got, dtype, 'set')


def op_clamp(ctx, e, op, dtype):
    """Values outside the bounds return to the nearest bound."""
    want = {}
    with torch.no_grad():
        for n, q in zip(e.spec['learn'], op['val']):
            x = at(n, 2.0*q - 0.5)
            e.raw(n).copy_(torch.tensor(e.encode(n, x), dtype=dtype))
            want[n] = min(max(x, BOUNDS[n][0]), BOUNDS[n][1])
    ctx.must('enforce bounds', e.model.enforce_parameters_bounds)
    e.changed = True
    ctx.probe('clamped')
    settle(ctx, e, want, dtype)


def op_forward(ctx, e, op, dtype):
    evaluate(ctx, e, op, dtype)
    check_values(ctx, e, e.want, dtype, 'evaluated')


def op_grad(ctx, e, op, dtype):
    """Gradients against differences of the reference response."""
    t, x = paths(ctx.scn, op)
    e.model.zero_grad()
    out = forward(ctx, e, t, x, dtype)
    if out is None:
        return
    compare(ctx, e, out, x, op, dtype, 'response')
    if not bool(torch.isfinite(out).all()):
        return
    r = np.random.Generator(np.random.PCG64([op['tag'], 11]))
    w = r.standard_normal(tuple(out.shape))
    if out.requires_grad:
        (out*torch.tensor(w, dtype=dtype)).sum().backward()
    if dtype == torch.float32:
        x = x.astype(np.float32).astype(np.float64)
    val = e.physical()
    wn = w[:, None] if op['n_path'] == 0 else w
    for n in e.spec['learn']:
        p = e.raw(n)
        if not p.requires_grad:
            ctx.check(p.grad is None, 'gradient', f'frozen {n} has gradient')
            continue
        lo, hi = BOUNDS[n]
        est = []
        for h in (1e-4, 5e-5):
            h *= hi - lo
            tot = []
            for s in (h, -h):
                acc = 0.0
                for i in range(len(x)):
                    y, _, fail = drive(ctx.scn, e.spec,
                                       dict(val, **{n: val[n] + s}), x[i])
                    if fail:
                        acc = float('nan')
                    acc += float((y*wn[:, i]).sum())
                tot.append(acc)
            est.append((tot[0] - tot[1])/(2*h))
        if e.spec['norm']:
            est = [d*(hi - lo)/2.0 for d in est]
        unit = 0.5*(hi - lo) if e.spec['norm'] else 1.0
        size = float((np.abs(out.detach().to(torch.float64).numpy())).max()
                     )*unit/max(abs(hi), 1e-3)*np.abs(w).sum()
        if not np.all(np.isfinite(est)) or \
                abs(est[0] - est[1]) > 0.01*abs(est[1]) + 1e-4*size:
            continue
        got = 0.0 if p.grad is None else float(p.grad)
        ctx.check(abs(got - est[1]) <= 0.05*abs(est[1]) + 2e-3*size,
                  'gradient', lambda: f'{e.spec["mat"]} '
                  f'({"vectorised" if e.spec["vmap"] else "standard"}): '
                  f'gradient for {n} is {got}, the response changes by '
                  f'{est}')
        ctx.probe('gradient')
    e.model.zero_grad()


def op_step(ctx, e, op, dtype):
    """An optimiser step changes the response accordingly."""
    t, x = paths(ctx.scn, op)
    live = [p for p in e.model.parameters() if p.requires_grad]
    if not live:
        return
    e.model.zero_grad()
    out = forward(ctx, e, t, x, dtype)
    if out is None or not bool(torch.isfinite(out).all()) or \
            not out.requires_grad:
        return
    opt = torch.optim.Adam(live, lr=0.01)
    out.pow(2).sum().backward()
    if any(p.grad is None or not bool(torch.isfinite(p.grad).all())
           for p in live):
        return
    opt.step()
    ctx.must('enforce bounds', e.model.enforce_parameters_bounds)
    e.model.zero_grad()
    ctx.probe('step')
    e.changed = True
    got = e.physical()
    for n in e.frozen:
        ctx.check(abs(got[n] - e.want[n]) <= 1e-5*max(map(abs, BOUNDS[n])),
                  'frozen', f'frozen {n} changed from {e.want[n]} to {got[n]}')
    check_values(ctx, e, got, dtype, 'step')
    evaluate(ctx, e, op, dtype)


def op_freeze(ctx, e, op, dtype):
    n = e.spec['learn'][op['tag'] % len(e.spec['learn'])]
    ctx.must('freeze parameter', e.model.freeze_parameter, n)
    ctx.check(not e.raw(n).requires_grad, 'frozen', f'{n} is not frozen')
    for k in e.spec['learn']:
        if k != n and k not in e.frozen:
            ctx.check(e.raw(k).requires_grad, 'frozen', f'{k} is frozen')
    e.frozen.add(n)
    ctx.probe('frozen')


def op_reload(ctx, e, op, dtype):
    from model_architectures.procedures.model_state_files import (
        load_model_state, save_model_state)
    from model_architectures.rc_base_model.model.recurrent_model import \
        RecurrentConstitutiveModel
    ctx.must('save state', save_model_state, e.model, epoch=1)
    ctx.must('save description', e.model.save_model_init_file)
    model = ctx.must('load model',
                     RecurrentConstitutiveModel.init_model_from_file, e.dir)
    ctx.must('load state', load_model_state, model, model_load_state='last')
    want = e.want
    e.model, e.frozen = model, set()
    ctx.probe('reload')
    check_values(ctx, e, want, dtype, 'reloaded')


def op_fault(ctx, e, op, dtype):
    t, x = paths(ctx.scn, op)
    box = [0]
    try:
        with count_calls(box), torch.no_grad():
            e.model(t)
    except RuntimeError:
        return
    n = 1 + int(op['pos']*box[0])
    out = None
    try:
        with fault_at(ctx, n, op['kind']), torch.no_grad():
            out = e.model(t)
    except (Exception, KeyboardInterrupt) as exc:
        if isinstance(exc, Violation):
            raise
    ctx.probe('fault')
    ctx.nontrivial = True
    if out is not None:
        compare(ctx, e, out, x, op, dtype, 'response after a failure')
    check_values(ctx, e, e.want, dtype, 'after a failure')


def op_undefined(ctx, e, op, dtype):
    """One path becomes undefined: it must not give a defined response."""
    t, x = paths(ctx.scn, op)
    t, x = t.clone(), x.copy()
    n = max(op['n_path'], 1)
    i = int(op['pos']*n)
    k = op['tag'] % op['n_time']
    comp = op['tag'] % x.shape[2]
    x[i, k:, comp] = np.nan
    (t[k:] if op['n_path'] == 0 else t[k:, i])[:, comp] = np.nan
    ctx.fault('undefined-strain')
    ctx.probe('undefined_strain')
    ctx.nontrivial = True
    try:
        with torch.no_grad():
            out = e.model(t)
    except RuntimeError:
        out = None
    if out is not None and k > 0:
        got = out if op['n_path'] == 0 else out[:, i]
        ctx.check(not bool(torch.isfinite(got[k:, :len(e.order)]).all(-1)
                           .any()), 'undefined-accepted',
                  f'undefined strain from step {k} gave a stress')
        if op['n_path'] > 1:
            keep = [j for j in range(n) if j != i]
            compare(ctx, e, out[:, keep], x[keep], dict(op, n_path=n - 1),
                    dtype, 'response beside an undefined path')
    check_values(ctx, e, e.want, dtype, 'after undefined strain')


OPS = {'undefined': op_undefined, 'forward': op_forward, 'set': op_set, 'grad': op_grad,
       'fault': op_fault, 'step': op_step, 'clamp': op_clamp,
       'reload': op_reload, 'freeze': op_freeze}
