"""P12: material points evolve by their own history only, faults or not."""
import copy
import math

import numpy as np
import torch
from torch.overrides import TorchFunctionMode

from dst import build
from dst.core import HarnessError, SimInterrupt, Violation, rng

RUNS = {'quick': 800, 'thorough': 24000}
RULE = ('one run = up to four material points of up to three constitutive '
        'models (elastic, von Mises, mixed hardening, Drucker-Prager, '
        'Lou-Zhang-Yoon; standard and vectorised; 3D and plane strain; '
        'single and double precision; parameter dictionaries shared or not) '
        'driven by a seeded interleaving of strain increments: committed, '
        'rejected (trial) and batched updates, some hit by a failing '
        'allocation, an interrupt or a poisoned hardening law at a seeded '
        'tensor operation and repeated; non-trivial = at least one plastic '
        'update and one interleaved, rejected, batched or hit update')
PROBES = ('elastic_moduli', 'evolving_yield', 'plastic', 'elastic_unloading', 'rejected', 'batched', 'permuted',
          'alloc_fault', 'interrupt', 'law_fault', 'fault_swallowed_never',
          'su_fail', 'shared_parameters', 'plane_strain', 'single_precision',
          'tangent', 'apex', 'nan_law', 'zero_increment')
PROBES = tuple(p for p in PROBES if p != 'fault_swallowed_never')
STATE_MEASURE = ('digest of (material, plastic flag, decade of accumulated '
                 'plastic strain, outcome) per update')
REAL = ['state_update of all nine constitutive models', 'hardening laws',
        'material_state_update', 'matricial form and tensor operations',
        'torch.vmap']
STUB = ['tensor operations raise on demand (torch function mode)',
        'hardening law (wrapped, may raise or return NaN)']
ASSUMPTIONS = ['one thread at a time updates materials: the default data type '
               'is process-wide by design',
               'yield functions, flow rules and hardening rules are those '
               'documented for the models; tolerances cover the documented '
               'convergence tolerance (1e-6) and float round-off']
SHRINK_LISTS = ('ops',)

NAMES = ('elastic', 'von_mises', 'von_mises_mixed', 'drucker_prager',
         'lou_zhang_yoon')


# =============================================================================
def gen(seed, tier):
    r = rng(seed, 'gen')
    scn = {'dtype': r.choice(['f32', 'f64', 'f64']),
           'problem': r.choice([4, 4, 1]), 'models': [], 'points': [],
           'shared': r.random() < 0.3}
    for i in range(r.choice([1, 2, 2, 3])):
        name = (r.choice(NAMES) if not scn['shared'] or i == 0
                else scn['models'][0]['name'])
        scn['models'].append({
            'name': name, 'vmap': name != 'elastic' and r.random() < 0.5,
            'su64': r.random() < 0.85, 'pseed': r.randint(0, 10**6),
            'law': r.choice(['linear', 'nadai_ludwik', 'nadai_ludwik',
                             'piecewise_linear']),
            'moduli': r.random() < 0.15, 'lou': r.random() < 0.5,
            'slopes': r.random() < 0.3})
    for _ in range(r.choice([1, 2, 3, 4])):
        scn['points'].append(r.randrange(len(scn['models'])))
    ops = []
    for i in range(r.randint(4, 14)):
        op = {'id': i, 'op': r.choices(['commit', 'trial', 'batch'],
                                       [6, 2, 2])[0],
              'point': r.randrange(len(scn['points'])),
              'amp': r.choice([1e-4, 3e-3, 1e-2, 3e-2, 0.1]),
              'kind': r.choice(['any', 'any', 'same', 'back', 'vol', 'zero',
                                'shear']),
              'perm': r.random() < 0.5}
        x = r.random()
        if x < 0.25:
            op['fault'] = {'what': r.choice(['alloc', 'oom', 'intr', 'law',
                                             'nan']), 'pos': r.random()}
        elif x < 0.45 and op['op'] == 'commit':
            op['tangent'] = True
        ops.append(op)
    scn['ops'] = ops
    return scn


# =============================================================================
class Fault(TorchFunctionMode):
    """Counts tensor operations and raises at a chosen one."""

    def __init__(self, at=None, exc=None):
        super().__init__()
        self.n, self.at, self.exc, self.fired = 0, at, exc, False

    def __torch_function__(self, func, types, args=(), kwargs=None):
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.fired = True
            raise self.exc
        return func(*args, **(kwargs or {}))


class Law:
    """Hardening law behind a seam (real law inside)."""

    def __init__(self, world, law):
        self.world, self.law = world, law

    def __deepcopy__(self, memo):
        return self

    def __call__(self, *args, **kwargs):
        w = self.world
        w.calls += 1
        out = self.law(*args, **kwargs)
        if w.law_at is None:
            return out
        if w.law_at[1] is None:
            w.law_fired = True
            return out[0]*float('nan'), out[1]*float('nan')
        if w.calls == w.law_at[0]:
            w.law_fired = True
            raise w.law_at[1]
        return out


class World:
    def __init__(self, ctx):
        self.ctx, self.scn = ctx, ctx.scn
        self.calls, self.law_at, self.law_fired = 0, None, False
        self.params, self.moduli = [], []
        shared = None
        self.models = []
        for spec in self.scn['models']:
            par = shared or self.parameters(spec)
            if self.scn['shared']:
                shared = par
                self.moduli = self.moduli[:1]*len(self.scn['models'])
            self.params.append(par)
            self.models.append(self.make(spec, par))
        if self.scn['shared'] and len(self.models) > 1:
            ctx.probe('shared_parameters')

    def parameters(self, spec):
        r = rng('par', spec['pseed'])
        par = build.material_parameters(spec['name'])
        if spec['name'] == 'elastic':
            E, v = r.choice([1.0, 100.0, 2.1e5]), r.choice([0.0, 0.3, 0.45])
        else:
            E, v = r.choice([50.0, 100.0, 1000.0]), r.choice([0.2, 0.3, 0.4])
        self.moduli.append((E, v))
        if spec.get('moduli'):
            # Independent components of the elasticity tensor instead
            self.ctx.probe('elastic_moduli')
            del par['E'], par['v']
            lam = E*v/((1.0 + v)*(1.0 - 2.0*v))
            par['E1111'] = lam + E/(1.0 + v)
            par['E1122'] = lam
        else:
            par.update(E=E, v=v)
        if spec['name'] == 'elastic':
            return par
        from simulators.fetorch.material.models.standard.hardening import \
            get_hardening_law
        par['hardening_law'] = Law(self, get_hardening_law(spec['law']))
        s0 = r.choice([0.5, 1.0, 2.0])
        par['hardening_parameters'] = {
            'linear': {'s0': s0, 'a': r.choice([0.0, 1.0, 20.0])},
            'nadai_ludwik': {'s0': s0, 'a': r.choice([1.0, 5.0]),
                             'b': r.choice([0.3, 0.6, 1.0]), 'ep0': 1e-5},
            'piecewise_linear': {'hardening_points': torch.tensor(
                [[0.0, s0], [0.02, s0 + 0.5], [0.1, s0 + 0.8],
                 [1.0, s0 + 1.5]])}}[spec['law']]
        if spec['name'] == 'von_mises_mixed':
            law = r.choice(['linear', 'nadai_ludwik'])
            par['kinematic_hardening_law'] = Law(self, get_hardening_law(law))
            par['kinematic_hardening_parameters'] = {
                'linear': {'s0': 0.0, 'a': r.choice([1.0, 10.0])},
                'nadai_ludwik': {'s0': 0.0, 'a': 4.0, 'b': 0.6,
                                 'ep0': 1e-5}}[law]
        if spec['name'] == 'drucker_prager':
            ang = np.deg2rad(r.choice([5.0, 10.0, 20.0]))
            dil = np.deg2rad(r.choice([5.0, 10.0, 20.0]))
            par['yield_cohesion_parameter'] = float(2.0/np.sqrt(3)*np.cos(ang))
            par['yield_pressure_parameter'] = float(3.0/np.sqrt(3)*np.sin(ang))
            par['flow_pressure_parameter'] = float(3.0/np.sqrt(3)*np.sin(dil))
        if spec['name'] == 'lou_zhang_yoon':
            for key in 'abcd':
                par[f'{key}_hardening_law'] = Law(self,
                                                  get_hardening_law('linear'))
            par['is_associative_hardening'] = r.random() < 0.7
            if spec.get('lou'):
                for key, val in (('b', r.choice([0.0, 0.02, 0.05])),
                                 ('c', r.choice([-0.5, 0.5, 1.0])),
                                 ('d', r.choice([-0.4, 0.0, 0.4]))):
                    par[f'{key}_hardening_parameters'] = {'s0': val, 'a': 0.0}
            if spec.get('slopes'):
                # Yield parameters that evolve with the plastic strain
                self.ctx.probe('evolving_yield')
                for key, val in (('a', r.choice([0.0, 0.3])),
                                 ('c', r.choice([0.0, -0.5])),
                                 ('d', r.choice([0.0, 0.3]))):
                    par[f'{key}_hardening_parameters']['a'] = val
        return par

    def make(self, spec, par):
        return self.ctx.must(f'build {spec["name"]}', make_model,
                             self.scn['problem'], spec, par)

    def inc(self, op, point):
        """Strain increment as a symmetric tensor."""
        n = 3 if self.scn['problem'] == 4 else 2
        r = np.random.Generator(np.random.PCG64(
            [self.ctx.seed % 2**31, op['id'], point, 7]))
        d = r.standard_normal((n, n))
        d = 0.5*(d + d.T)
        kind = op['kind']
        if kind == 'zero':
            d[:] = 0.0
            self.ctx.probe('zero_increment')
        elif kind == 'vol':
            d = np.eye(n)*abs(d[0, 0]) + 0.02*d
        elif kind == 'shear':
            e = np.zeros((n, n))
            e[0, 1] = e[1, 0] = d[0, 1]
            d = e + 1e-3*d
        elif kind in ('same', 'back'):
            q = np.random.Generator(np.random.PCG64(
                [self.ctx.seed % 2**31, point, 3])).standard_normal((n, n))
            d = 0.5*(q + q.T)*(1.0 if kind == 'same' else -0.7)
        return torch.tensor(d*op['amp'], dtype=torch.get_default_dtype())


def make_model(problem, spec, par):
    import importlib
    kind = 'vmap' if spec['vmap'] else 'standard'
    mod = {'elastic': 'elastic', 'von_mises': 'von_mises',
           'von_mises_mixed': 'von_mises_mixed',
           'drucker_prager': 'drucker_prager',
           'lou_zhang_yoon': 'lou'}[spec['name']]
    cls = {'elastic': 'Elastic', 'von_mises': 'VonMises',
           'von_mises_mixed': 'VonMisesMixed',
           'drucker_prager': 'DruckerPrager',
           'lou_zhang_yoon': 'LouZhangYoon'}[spec['name']]
    module = importlib.import_module(
        f'simulators.fetorch.material.models.{kind}.{mod}')
    cls = getattr(module, cls + ('VMAP' if spec['vmap'] else ''))
    kw = {} if spec['name'] == 'elastic' else {'is_su_float64': spec['su64']}
    if spec['name'] == 'lou_zhang_yoon' and spec['vmap']:
        kw['is_fixed_yield_parameters'] = all(
            float(par[f'{k}_hardening_parameters']['a']) == 0.0 for k in 'abcd')
    return cls('infinitesimal', problem, par, **kw)


def update(w, m, inc, state):
    """One state update through the public entry point."""
    from simulators.fetorch.material.material_su import material_state_update
    model, spec = w.models[m], w.scn['models'][m]
    if spec['vmap']:
        new, tan = batch(w, m, [inc], [state])
        return new[0], (None if tan is None else tan[0])
    return material_state_update('infinitesimal', w.scn['problem'], model, inc,
                                 state)


def batch(w, m, incs, states):
    """Vectorised state update of several points of one model."""
    from simulators.fetorch.material.material_su import material_state_update
    model, spec = w.models[m], w.scn['models'][m]

    def one(inc, state):
        new, tan = material_state_update(
            'infinitesimal', w.scn['problem'], model, inc, state)
        return (new,) if tan is None else (new, tan)
    stacked = {k: torch.stack([s[k] for s in states]) for k in states[0]}
    out = torch.vmap(one)(torch.stack(incs), stacked)
    news = [{k: v[i] for k, v in out[0].items()} for i in range(len(incs))]
    return news, (out[1] if len(out) > 1 else None)


# =============================================================================
def run(ctx):
    scn = ctx.scn
    default = torch.float32 if scn['dtype'] == 'f32' else torch.float64
    torch.set_default_dtype(default)
    try:
        _run(ctx, default)
    finally:
        torch.set_default_dtype(torch.float32)


def _run(ctx, default):
    scn = ctx.scn
    if scn['problem'] == 1:
        ctx.probe('plane_strain')
    if default == torch.float32:
        ctx.probe('single_precision')
    w = World(ctx)
    w.default = default
    points = []
    for m in scn['points']:
        state = ctx.must('initial state', w.models[m].state_init)
        points.append({'m': m, 'state': state, 'hist': [],
                       'total': np.zeros((3, 3))})
    plastic = special = False
    for op in scn['ops']:
        ctx.step()
        k = op['point'] % len(points)
        p = points[k]
        spec = scn['models'][p['m']]
        if op['op'] == 'batch' and spec['vmap']:
            group = [i for i, q in enumerate(points) if q['m'] == p['m']]
            if op['perm']:
                group = group[::-1]
                ctx.probe('permuted')
            if len(group) > 1:
                ctx.probe('batched')
                special = True
        else:
            group = [k]
        incs = [w.inc(op, i) for i in group]
        olds = [points[i]['state'] for i in group]
        if op.get('fault'):
            special |= strike(w, op, p['m'], incs, olds)
        news, tans = evaluate(w, p['m'], incs, olds)
        if op['op'] == 'batch' and len(group) > 1:
            for j, i in enumerate(group):
                alone, _ = evaluate(w, p['m'], [incs[j]], [olds[j]])
                ctx.check(close_state(alone[0], news[j], w, p['m']),
                          'batch-dependent', f'{label(spec)}: update of a '
                          'point depends on the rest of its batch')
        for j, i in enumerate(group):
            out = laws(w, points[i], incs[j], olds[j], news[j])
            plastic |= out == 'plastic'
            if op.get('tangent') and out != 'fail':
                tangent(w, p['m'], incs[j], olds[j], news[j], tans[j])
            if op['op'] == 'trial' or out == 'fail':
                ctx.probe('rejected' if op['op'] == 'trial' else 'su_fail')
                special = True
                continue
            points[i]['hist'].append(incs[j])
            points[i]['state'] = news[j]
            points[i]['total'] += full(incs[j])
            ctx.log('commit', i, out, [round(float(x), 7) for x in
                                       np.asarray(vec(news[j]['stress_mf']))])
    if len(points) > 1:
        special = True
    # Replay of every history on a fresh model in isolation
    for i, p in enumerate(points):
        spec = scn['models'][p['m']]
        fresh = World.__new__(World)
        fresh.ctx, fresh.scn, fresh.default = ctx, scn, default
        fresh.calls, fresh.law_at, fresh.law_fired = 0, None, False
        fresh.moduli = []
        src = scn['models'][0] if scn['shared'] else spec
        fresh.models = {p['m']: make_model(scn['problem'], spec,
                                           World.parameters(fresh, src))}
        fresh.moduli = w.moduli
        state = fresh.models[p['m']].state_init()
        for inc in p['hist']:
            state, _ = update(fresh, p['m'], inc, state)
        ctx.check(close_state(state, p['state'], fresh, p['m']),
                  'history-dependent', f'{label(spec)}: point {i} does not '
                  'follow its own history')
    ctx.nontrivial = plastic and special


def label(spec):
    return spec['name'] + ('_vmap' if spec['vmap'] else '')


def evaluate(w, m, incs, olds):
    """Fault-free update with its frame condition."""
    ctx = w.ctx
    before = ([x.clone() for x in incs], copy.deepcopy(olds),
              w.models[m].get_model_parameters())
    what = f'state update of {label(w.scn["models"][m])}'
    if len(incs) > 1:
        news, tans = ctx.must(what, batch, w, m, incs, olds)
        tans = [None]*len(incs) if tans is None else list(tans)
    else:
        new, tan = ctx.must(what, update, w, m, incs[0], olds[0])
        news, tans = [new], [tan]
    frame(w, m, incs, olds, before, 'state update')
    for new in news:
        ctx.check(set(new) == set(olds[0]), 'state-variables',
                  'state variables appeared or disappeared: '
                  f'{sorted(set(new) ^ set(olds[0]))}')
        for key, val in new.items():
            if isinstance(val, torch.Tensor) and val.is_floating_point():
                ctx.check(val.dtype == w.default, 'precision',
                          f'{key} is {val.dtype}, default is {w.default}')
    return news, tans


def frame(w, m, incs, olds, before, what):
    ctx = w.ctx
    ctx.check(torch.get_default_dtype() == w.default, 'default-dtype',
              f'{what} of {label(w.scn["models"][m])} left the default data '
              f'type at {torch.get_default_dtype()}')
    ctx.check(build.state_equal(incs, before[0]), 'input-changed',
              f'{what} changed the strain increment')
    ctx.check(build.state_equal(olds, before[1]), 'input-changed',
              f'{what} changed the previous state')
    ctx.check(build.state_equal(w.models[m].get_model_parameters(),
                                before[2]), 'parameters-changed',
              f'{what} of {label(w.scn["models"][m])} changed the material '
              'parameters')


def strike(w, op, m, incs, olds):
    """The update dies at one tensor operation or hardening law call."""
    ctx, f = w.ctx, op['fault']
    before = ([x.clone() for x in incs], copy.deepcopy(olds),
              w.models[m].get_model_parameters())
    exc = {'alloc': MemoryError('simulated'), 'intr': SimInterrupt(),
           'oom': RuntimeError('DefaultCPUAllocator: not enough memory'),
           'law': RuntimeError('simulated hardening law failure'),
           'nan': None}[f['what']]
    mode = Fault()
    w.calls = 0
    with mode:
        clean, _ = ctx.must('state update', batch, w, m, incs, olds) if len(
            incs) > 1 else (lambda o: ([o[0]], o[1]))(
                ctx.must('state update', update, w, m, incs[0], olds[0]))
    if f['what'] in ('law', 'nan'):
        if w.calls == 0:
            return False
        w.law_at = (1 + int(f['pos']*w.calls), exc)
        mode = Fault()
    else:
        mode = Fault(1 + int(f['pos']*mode.n), exc)
    w.calls, w.law_fired = 0, False
    raised = None
    news = None
    try:
        with mode:
            if len(incs) > 1:
                news, _ = batch(w, m, incs, olds)
            else:
                news = [update(w, m, incs[0], olds[0])[0]]
    except (MemoryError, RuntimeError, SimInterrupt) as e:
        raised = e
    except (Violation, HarnessError):
        raise
    except Exception as e:
        raised = e
    fired = mode.fired or w.law_fired
    w.law_at = None
    ctx.fault(f['what'])
    ctx.probe({'alloc': 'alloc_fault', 'oom': 'alloc_fault',
               'intr': 'interrupt', 'law': 'law_fault',
               'nan': 'nan_law'}[f['what']])
    if not fired:
        raise HarnessError('fault did not fire')
    frame(w, m, incs, olds, before, f'failed ({f["what"]}) state update')
    if f['what'] == 'nan':
        for new, ref in zip(news or [], clean):
            ctx.check(bool(new['is_su_fail']), 'unflagged-failure',
                      'undefined yield stress was not flagged as a failure of '
                      f'{label(w.scn["models"][m])}')
    elif raised is None:
        for new, ref in zip(news, clean):
            ctx.check(close_state(new, ref, w, m), 'swallowed-failure',
                      'a failed tensor operation went unnoticed and changed '
                      'the result')
    return True


# =============================================================================
def vec(x):
    return np.asarray(torch.as_tensor(x).detach().to(torch.float64))


def full(t):
    out = np.zeros((3, 3))
    a = vec(t)
    out[:a.shape[0], :a.shape[1]] = a
    return out


def tensor(mf, c33=0.0):
    """3 x 3 tensor of a matricial form (Kelvin notation)."""
    a = vec(mf)
    q = 1.0/math.sqrt(2.0)
    if len(a) == 3:
        return np.array([[a[0], a[2]*q, 0.0], [a[2]*q, a[1], 0.0],
                         [0.0, 0.0, float(c33)]])
    return np.array([[a[0], a[3]*q, a[5]*q], [a[3]*q, a[1], a[4]*q],
                     [a[5]*q, a[4]*q, a[2]]])


def close_state(a, b, w, m):
    """Equality up to the convergence tolerance of the update."""
    E = w.moduli[m][0]
    loose = w.default == torch.float32
    if loose and not w.scn['models'][m].get('su64', True) and (
            bool(a['is_su_fail']) or bool(b['is_su_fail'])):
        # Convergence in single precision is decided by rounding
        return True
    for key in a:
        x, y = vec(a[key]), vec(b[key])
        if x.dtype == bool or key.startswith('is_'):
            continue
        scale = 0.5 if 'strain' in key else 0.5*E
        tol = (2e-5 if loose else 2e-6)*scale
        if not np.allclose(x, y, rtol=1e-4, atol=tol, equal_nan=True):
            return False
    return bool(a['is_su_fail']) == bool(b['is_su_fail'])


def law_value(w, par, prefix, acc):
    """Hardening law evaluated in double precision."""
    law = par[prefix + 'hardening_law'].law
    hp = {k: torch.as_tensor(v).to(torch.float64)
          for k, v in par[prefix + 'hardening_parameters'].items()}
    s, h = law(hp, torch.tensor(float(acc), dtype=torch.float64))
    check_law(w, hp, max(float(acc), 0.0), float(s), float(h))
    return float(s), float(h)


def check_law(w, hp, acc, s, h):
    """The value and slope are those of the named law."""
    if 'hardening_points' in hp:
        x, y = (hp['hardening_points'][:, i].numpy() for i in (0, 1))
        want = [(float(np.interp(acc, x, y)), None)]
        if np.abs(x - acc).min() > 1e-9:
            i = int(np.searchsorted(x, acc))
            slope = 0.0
            if 0 < i < len(x):
                slope = float((y[i] - y[i - 1])/(x[i] - x[i - 1]))
            want = [(want[0][0], slope)]
    elif 'ep0' in hp:
        s0, a, b, ep0 = (float(hp[k]) for k in ('s0', 'a', 'b', 'ep0'))
        # The offset of the strain is a regularisation: once or twice
        want = [(s0 + a*(acc + k*ep0)**b, a*b*(acc + k*ep0)**(b - 1.0))
                for k in (1, 2)]
    else:
        s0, a = float(hp['s0']), float(hp['a'])
        want = [(s0 + a*acc, a)]
    w.ctx.check(any(abs(s - v) <= 1e-6*(1.0 + abs(v)) and
                    (g is None or abs(h - g) <= 1e-6*(1.0 + abs(g)))
                    for v, g in want), 'wrong-law', lambda:
                f'hardening law at {acc!r} gives {s!r} with slope {h!r}, '
                f'its parameters give {want}')


def dev(s):
    return s - np.trace(s)/3.0*np.eye(3)


def yields(w, spec, par, sig, acc, back=None):
    """Yield function and its scale (documented expressions)."""
    y, _ = law_value(w, par, '', acc)
    if spec['name'] in ('von_mises', 'von_mises_mixed'):
        s = dev(sig) - (back if back is not None else 0.0)
        return math.sqrt(1.5)*np.linalg.norm(s) - y, y
    if spec['name'] == 'drucker_prager':
        xi = float(par['yield_cohesion_parameter'])
        eta = float(par['yield_pressure_parameter'])
        j2 = 0.5*np.linalg.norm(dev(sig))**2
        return math.sqrt(j2) + eta*np.trace(sig)/3.0 - xi*y, xi*y
    return lou_eff(par, w, sig, acc) - y, y


def lou_eff(par, w, sig, acc):
    a, b, c, d = (law_value(w, par, k + '_', acc)[0] for k in 'abcd')
    s = dev(sig)
    j2, j3 = 0.5*np.sum(s*s), np.linalg.det(s)
    w4 = max(j2**3 - c*j3**2, 0.0)
    w5 = max(math.sqrt(w4) - d*j3, 0.0)
    return a*(b*np.trace(sig) + w5**(1.0/3.0))


def flow(w, spec, par, sig, acc, back, state):
    """(direction of plastic strain, accumulated plastic strain per unit)."""
    if spec['name'] in ('von_mises', 'von_mises_mixed'):
        s = dev(sig) - (back if back is not None else 0.0)
        return math.sqrt(1.5)*s/np.linalg.norm(s), 1.0
    if spec['name'] == 'drucker_prager':
        s = dev(sig)
        root = math.sqrt(0.5)*np.linalg.norm(s)
        return (s/(2.0*root) + float(par['flow_pressure_parameter'])/3.0
                * np.eye(3)), float(par['yield_cohesion_parameter'])
    g = np.zeros((3, 3))
    h = 1e-6*max(np.linalg.norm(sig), 1e-12)
    for i in range(3):
        for j in range(i, 3):
            e = np.zeros((3, 3))
            e[i, j] += 0.5*h
            e[j, i] += 0.5*h
            g[i, j] = g[j, i] = (lou_eff(par, w, sig + e, acc)
                                 - lou_eff(par, w, sig - e, acc))/(2.0*h)
    unit = 1.0 if bool(par['is_associative_hardening']) else \
        math.sqrt(2.0/3.0)*np.linalg.norm(g)
    return g, unit


def laws(w, point, inc, old, new):
    """Constitutive laws every update must satisfy."""
    ctx = w.ctx
    m = point['m']
    spec, par = w.scn['models'][m], w.models[m].get_model_parameters()
    name = label(spec)
    E, v = w.moduli[m]
    total = point['total'] + full(inc)
    eps = 2e-6 if w.default == torch.float32 else 1e-9
    if w.default == torch.float32 and not spec['su64']:
        eps = 1e-5
    n = len(point['hist']) + 1
    size = max(np.abs(total).max(), 1e-12)
    reach = max([size] + [np.abs(full(h)).max() for h in point['hist']])
    if bool(new['is_su_fail']):
        ctx.check(not np.isfinite(vec(new['stress_mf'])).any(),
                  'unflagged-failure', f'{name}: failed update returned a '
                  'stress')
        ctx.state((name, 'fail'))
        return 'fail'
    for key, val in new.items():
        ctx.check(np.isfinite(vec(val)).all(), 'unflagged-failure',
                  f'{name}: {key} is not finite without failure flag')
    es = tensor(new['e_strain_mf'], new.get('e_strain_33', 0.0))
    sig = tensor(new['stress_mf'], new.get('stress_33', 0.0))
    strain = tensor(new['strain_mf'])
    ctx.check(np.abs(strain - total).max() <= 4*n*eps*reach + 1e-12,
              'wrong-strain', f'{name}: total strain {strain.tolist()} is not '
              f'the sum of the increments {total.tolist()}')
    lam, mu = E*v/((1 + v)*(1 - 2*v)), E/(2*(1 + v))
    want = lam*np.trace(es)*np.eye(3) + 2*mu*es
    # Out-of-plane elastic strain also holds the plastic strain there
    tol_s = 20*eps*(3*lam + 2*mu)*max(reach, np.abs(es).max())
    ctx.check(np.abs(sig - want).max() <= tol_s + 1e-12, 'wrong-stress',
              f'{name}: stress {sig.tolist()} is not elastic in the elastic '
              f'strain ({want.tolist()})')
    if spec['name'] == 'elastic':
        ctx.check(np.abs(es - strain).max() <= 4*n*eps*reach + 1e-12,
                  'wrong-strain', 'elastic strain is not the total strain')
        return 'elastic'
    acc_o, acc = float(vec(old['acc_p_strain'])), float(
        vec(new['acc_p_strain']))
    eo = tensor(old['e_strain_mf'], old.get('e_strain_33', 0.0))
    back_o = back = None
    if spec['name'] == 'von_mises_mixed':
        back_o = tensor(old['back_stress_mf'], old.get('back_stress_33', 0.0))
        back = tensor(new['back_stress_mf'], new.get('back_stress_33', 0.0))
    trial_e = eo + full(inc)
    trial = lam*np.trace(trial_e)*np.eye(3) + 2*mu*trial_e
    f_trial, y_old = yields(w, spec, par, trial, acc_o, back_o)
    f, y = yields(w, spec, par, sig, acc, back)
    rel = 1e-5*abs(y) + 3*tol_s
    if spec['name'] == 'lou_zhang_yoon':
        rel = 2e-5*abs(y) + 10*tol_s
    plast = bool(new['is_plast'])
    ctx.state((name, plast, round(math.log10(max(acc, 1e-9)))))
    if not plast:
        ctx.check(f_trial <= rel, 'missed-yielding', f'{name}: trial stress '
                  f'is {f_trial:.3e} outside the yield surface ({y_old:.3e}) '
                  'but the update was elastic')
        ctx.check(abs(acc - acc_o) <= eps*max(acc_o, 1e-9)
                  and np.abs(es - trial_e).max() <= 10*eps*max(
                      reach, np.abs(es).max()) + 1e-12,
                  'plastic-elastic-step', f'{name}: plastic strain changed in '
                  'an elastic step')
        if back is not None:
            ctx.check(np.abs(back - back_o).max() <= eps*max(
                1.0, np.abs(back_o).max()), 'plastic-elastic-step',
                f'{name}: back stress changed in an elastic step')
        if acc_o > 0:
            ctx.probe('elastic_unloading')
        return 'elastic'
    ctx.probe('plastic')
    ctx.check(f_trial >= -rel, 'spurious-yielding', f'{name}: plastic update '
              f'inside the yield surface ({f_trial:.3e})')
    ctx.check(abs(f) <= rel, 'yield-surface', f'{name}: stress is {f:.3e} off '
              f'the yield surface ({y:.3e}) after a plastic update')
    dp = trial_e - es
    apex = np.linalg.norm(dev(sig)) <= 1e-6*max(abs(np.trace(sig)), abs(y))
    if acc < acc_o - eps*max(acc_o, 1e-6):
        msg = (f'{name}: accumulated plastic strain fell from {acc_o:.6e} to '
               f'{acc:.6e}')
        if spec['name'] == 'lou_zhang_yoon' and apex:
            a, b = (law_value(w, par, k + '_', acc_o)[0] for k in 'ab')
            ratio = np.trace(trial)*a*b/y_old
            if 0.94 < ratio < 1.0:
                # Apex return for trial pressures up to 5 % below the apex
                ctx.finding('lou-apex-switch', 'plastic-decrease', msg)
                return 'plastic'
        raise Violation('plastic-decrease', msg)
    tol_p = 10*eps*max(reach, np.abs(es).max(), np.abs(eo).max()) \
        + 3e-5*np.linalg.norm(dp) + 3e-6*abs(y)/E
    dacc = acc - acc_o
    if apex and spec['name'] in ('drucker_prager', 'lou_zhang_yoon'):
        ctx.probe('apex')
        if spec['name'] == 'drucker_prager':
            alpha = (float(par['yield_cohesion_parameter'])
                     / float(par['flow_pressure_parameter']))
            ctx.check(abs(dacc - alpha*np.trace(dp)) <= (1 + alpha)*(
                tol_p + eps*acc)*3, 'wrong-hardening', f'{name}: accumulated '
                f'plastic strain grew by {dacc:.6e} at the apex')
        return 'plastic'
    direc, unit = flow(w, spec, par, sig, acc, back, new)
    mult = dacc/unit
    slack = 1.0 if spec['name'] != 'lou_zhang_yoon' else 20.0
    ctx.check(np.abs(dp - mult*direc).max() <= slack*(
        tol_p + eps*acc/unit*np.abs(direc).max()), 'wrong-flow',
        f'{name}: plastic strain increment {dp.tolist()} is not along the '
        f'flow vector {(mult*direc).tolist()}')
    if back is not None:
        k_o, _ = law_value(w, par, 'kinematic_', acc_o)
        k_n, hk = law_value(w, par, 'kinematic_', acc)
        slope = max(hk, law_value(w, par, 'kinematic_', acc_o)[1])
        want = back_o + (2.0/3.0)*(k_n - k_o)*direc
        tol_b = (10*eps*(np.abs(back).max() + k_n + slope*acc + abs(y))
                 + 1e-4*abs(k_n - k_o)) + 20*tol_s*abs(k_n - k_o)/abs(y)
        ctx.check(np.abs(back - want).max() <= tol_b, 'wrong-back-stress',
                  f'{name}: back stress {back.tolist()} instead of '
                  f'{want.tolist()}')
    return 'plastic'


def tangent(w, m, inc, old, new, tan):
    """Consistent tangent against central differences of the update."""
    ctx = w.ctx
    if tan is None or w.default != torch.float64:
        return
    comps = ('11', '22', '33', '12', '23', '13') if w.scn['problem'] == 4 \
        else ('11', '22', '12')
    spec = w.scn['models'][m]
    h = 1e-6*max(float(inc.abs().max()), 1e-4)
    cols, tan = [], vec(tan)
    for c in comps:
        i, j = int(c[0]) - 1, int(c[1]) - 1
        e = torch.zeros_like(inc)
        if i == j:
            e[i, j] = h
        else:
            e[i, j] = e[j, i] = h/math.sqrt(2.0)
        p, _ = update(w, m, inc + e, old)
        q, _ = update(w, m, inc - e, old)
        for s in (p, q):
            if (bool(s['is_su_fail']) or bool(s['is_plast'])
                    != bool(new['is_plast'])
                    or bool(s.get('is_apex_return', False))
                    != bool(new.get('is_apex_return', False))):
                return
        cols.append((vec(p['stress_mf']) - vec(q['stress_mf']))/(2*h))
    fd = np.stack(cols, axis=1)
    ctx.probe('tangent')
    E = w.moduli[m][0]
    err = np.abs(fd - tan).max()/max(np.abs(tan).max(), 1e-2*E)
    ctx.check(err <= 5e-3, 'wrong-tangent', f'{label(spec)}: consistent '
              f'tangent differs from the derivative of the stress by '
              f'{err:.2e} (relative)')
