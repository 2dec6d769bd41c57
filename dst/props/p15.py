"""P15: learned material parameters stay admissible, records are right."""
import os

import numpy as np
import torch

from dst import build, finder, train
from dst.calls import count_calls, fault_at
from dst.core import SimCrash, Violation, rng
from dst.props.p14 import no_plots
from dst.vfs import SimFS

RUNS = {'quick': 360, 'thorough': 12000}
RULE = ('one run = a seeded sequence of learning sessions of a constitutive '
        'model on strain-stress paths or of a material model finder on a '
        'specimen, with random parameter bounds, starting values (also '
        'outside), rates, schedules and convergence criteria, hit by '
        'interrupts, failed allocations and numerical failures at a random '
        'function entry and crashes, torn writes and I/O errors at a random '
        'I/O call, followed by restarts; plus convergence histories and '
        'admissibility projections; non-trivial = a parameter was clamped or '
        'projected, learning stopped on convergence, or a fault fired')
PROBES = ('read_back', 'driver_rc', 'driver_finder', 'driver_rules', 'clamped', 'projected',
          'converged', 'not_converged', 'start_outside', 'normalised',
          'gru', 'hybrid', 'fault', 'after_fault', 'second_session',
          'schedule', 'save_every', 'gradient', 'frozen', 'criterion_true',
          'criterion_false', 'inside_domain', 'diverged')
STATE_MEASURE = 'digest of (driver, outcome, epochs, rounded best loss)'
REAL = ['training procedures of constitutive models and of the finder',
        'parameter bounds and constraints', 'convergence criterion',
        'Adam optimiser and schedules', 'record and state writers']
STUB = ['disk, listing order, clock', 'function-entry fault injector',
        'plots are not drawn']
ASSUMPTIONS = ['the two-parameter yield domain is projected only when both '
               'of its parameters are learned and the bounds contain it',
               'the average of an epoch may or may not include the value it '
               'started from']
SHRINK_LISTS = ('sessions', 'cases')


# =============================================================================
def gen(seed, tier):
    r = rng(seed, 'gen')
    driver = r.choice(['rc', 'rc', 'finder', 'finder', 'rules'])
    scn = {'seed': seed, 'listing': 'shuffle', 'driver': driver}
    if driver == 'rules':
        scn['cases'] = [gen_case(r, i) for i in range(r.choice([3, 6]))]
        return scn
    if driver == 'rc':
        mat = r.choice(['elastic', 'elastic', 'von_mises', 'von_mises_vmap',
                        'von_mises_mixed_vmap', 'lou_zhang_yoon_vmap'])
        names = {'elastic': ['E', 'v'],
                 'von_mises_mixed_vmap': ['E', 's0', 'a', 'kin_a'],
                 'lou_zhang_yoon_vmap': ['yield_c_s0', 'yield_d_s0']}.get(
                     mat, ['E', 's0', 'a', 'b'])
        learn = names if mat.startswith('lou') else sorted(
            r.sample(names, r.randint(1, min(3, len(names)))))
        scn.update(material=mat, norm_par=r.random() < 0.5,
                   par=gen_parameters(r, learn),
                   n_sample=r.choice([1, 2, 3]), n_time=r.choice([3, 4]),
                   tag=r.randint(0, 10**6), scale=r.choice([0.01, 0.03]))
        if mat.startswith('lou') or scn['norm_par']:
            fix_bounds(scn['par'])
    else:
        scn['materials'] = [finder.gen_material(r, True)]
        m = scn['materials'][0]
        m['material'] = r.choice(['von_mises_vmap', 'von_mises_vmap',
                                  'von_mises_mixed_vmap'])
        m['par'] = gen_parameters(r, m['learn'])
        if m['norm_par']:
            fix_bounds(m['par'])
        spec = finder.gen_specimen(r, ('tri3', 'tri3', 'tri3', 'quad4', 'quad4',
                                      'tri6', 'quad8r'))
        spec['n_time'] = r.choice([2, 3])
        scn['specimen'] = spec
        scn['loss_type'] = r.choice(['pointwise', 'dirichlet_sets'])
        scn['factor'] = r.choice([None, 0.25])
        scn['weights'] = r.random() < 0.3
    sessions = []
    for i in range(r.choice([1, 1, 2, 3])):
        fault = None
        x = r.random()
        if x < 0.25:
            fault = {'where': 'call', 'pos': r.random(),
                     'kind': r.choice(['intr', 'oom', 'num'])}
        elif x < 0.45:
            fault = {'where': 'io', 'pos': r.random(),
                     'kind': r.choice(['crash', 'torn', 'enospc', 'eio',
                                       'intr'])}
        sessions.append({
            'id': i, 'n': r.choice([0, 1, 2, 3, 5]),
            'lr': r.choice([0.01, 0.1, 0.5, 5.0]),
            'batch': r.choice([1, 2]),
            'sched': r.choice([None, None, ['steplr', {'step_size': 1,
                                                       'gamma': 0.5}],
                               ['explr', {'gamma': 0.7}]]),
            'save_every': r.choice([None, None, 1, 2]),
            'stop': r.choice([None, None, {
                'convergence_tolerance': r.choice([0.01, 0.1, 0.5]),
                'trigger_tolerance': r.choice([1, 2, 3]),
                'min_hist_length': r.choice([0, 0, 3])}]),
            'restart': r.random() < 0.5, 'fault': fault})
    scn['sessions'] = sessions
    return scn


def gen_parameters(r, learn):
    out = {}
    for name in learn:
        lo, hi = build.BOUNDS[name]
        if name.startswith('yield'):
            lo, hi = -8.0, 8.0
        elif r.random() < 0.5:
            mid = r.uniform(lo, hi)
            lo, hi = max(lo, mid*0.97), min(hi, mid*1.03)
        if r.random() < 0.1 and not name.startswith('yield'):
            hi = lo
        x = r.random()
        span = hi - lo
        val = (lo + r.random()*span if x < 0.7 else
               lo - 0.2*abs(lo) if x < 0.85 else hi + 0.2*abs(hi))
        if name.startswith('yield'):
            val = r.uniform(-0.6, 0.9)
        out[name] = {'lo': lo, 'hi': hi, 'init': val}
    return out


def fix_bounds(par):
    for p in par.values():
        if p['hi'] <= p['lo']:
            p['hi'] = p['lo'] + max(0.1, 0.1*abs(p['lo']))


def gen_case(r, i):
    if r.random() < 0.5:
        n = r.randint(1, 9)
        hist = {}
        for k in range(r.randint(1, 3)):
            val, seq = r.choice([0.0, 1.0, -3.0, 200.0]), []
            for _ in range(n):
                val = r.choice([val, val*(1 + r.uniform(-0.02, 0.02)),
                                val*(1 + r.uniform(-0.3, 0.3)),
                                val + r.choice([0.0, 0.001, 0.05])])
                seq.append(val)
            hist[f'p{k}'] = seq
        return {'id': i, 'what': 'criterion', 'hist': hist,
                'tol': r.choice([0.01, 0.05, 0.2]),
                'trigger': r.choice([1, 2, 3, 5]),
                'min': r.choice([0, 0, 2, 4, 7])}
    if r.random() < 0.5:
        return {'id': i, 'what': 'project',
                'c': r.uniform(-7, 7), 'd': r.uniform(-7, 7),
                'norm': r.random() < 0.5,
                'model': r.choice(['lou_zhang_yoon', 'lou_zhang_yoon_vmap'])}
    return {'id': i, 'what': 'project',
            'c': r.uniform(-3.5, 3.5), 'd': r.uniform(-2.0, 2.0),
            'norm': r.random() < 0.5,
            'model': r.choice(['lou_zhang_yoon', 'lou_zhang_yoon_vmap'])}


def shrink(scn):
    if scn['driver'] == 'rules':
        return
    for i, s in enumerate(scn['sessions']):
        for key, val in (('fault', None), ('sched', None),
                         ('save_every', None), ('stop', None), ('n', 1),
                         ('n', 0)):
            if s[key] != val:
                new = build.snapshot(scn)
                new['sessions'][i][key] = val
                yield new
    if scn['driver'] == 'rc':
        for key, val in (('n_sample', 1), ('n_time', 3), ('norm_par', False)):
            if scn[key] != val:
                new = build.snapshot(scn)
                new[key] = val
                yield new


# ------------------------------------------------------------------- reference
def radius_ok(c, d, n=4000):
    """Is the deviatoric yield curve of (c, d) convex? (independent check)"""
    th = np.linspace(0.0, 2.0*np.pi/3.0, n, endpoint=False)
    x = np.cos(3*th)
    root = 1.0 - c*(4.0/27.0)*x**2
    if np.any(root <= 1e-9):
        return False
    s = -3.0*np.sin(3*th)
    # u = root^(1/2) - k d x, derivatives with respect to the angle
    k = 2.0/(3.0*np.sqrt(3.0))*d
    xp, xpp = s, -9.0*x
    rp = -c*(8.0/27.0)*x*xp
    rpp = -c*(8.0/27.0)*(xp**2 + x*xpp)
    u = np.sqrt(root) - k*x
    if np.any(u <= 1e-9):
        return False
    up = 0.5*rp/np.sqrt(root) - k*xp
    upp = 0.5*rpp/np.sqrt(root) - 0.25*rp**2/root**1.5 - k*xpp
    g = u**(1.0/3.0)
    gpp = (upp/u - (2.0/3.0)*(up/u)**2)*g/3.0
    return bool(np.all(gpp + g >= -1e-9))


def check_projection(ctx, before, after):
    """Admissible points are kept; others go to the boundary, same angle."""
    (c0, d0), (c1, d1) = before, after
    r0, r1 = np.hypot(c0, d0), np.hypot(c1, d1)
    moved = abs(r0 - r1) > 1e-4*(1 + r0)
    cross = abs(c0*d1 - c1*d0)
    ctx.check(r0 < 1e-6 or cross <= 2e-3*r0*max(r1, 1e-3), 'projection',
              lambda: f'({c0}, {d0}) projected to ({c1}, {d1}): other '
              'direction')
    if moved:
        ctx.check(not radius_ok(0.985*c0, 0.985*d0) or r1 > 0.98*r0,
                  'projection', lambda: f'admissible ({c0}, {d0}) moved to '
                  f'({c1}, {d1})')
        ctx.check(not radius_ok(1.03*c1 + 0.003*np.sign(c1),
                                1.03*d1 + 0.003*np.sign(d1))
                  or r1 >= 0.99*r0, 'projection',
                  lambda: f'({c0}, {d0}) moved to ({c1}, {d1}) '
                  'well inside the domain')
        ctx.probe('projected')
        ctx.nontrivial = True
    else:
        ctx.probe('inside_domain')
    ctx.check(r1 < 0.01 or radius_ok(0.97*c1, 0.97*d1), 'inadmissible',
              lambda: f'parameters ({c1}, {d1}) give a non-convex yield '
              'surface')


def criterion(hist, tol, trigger, minimum):
    """Convergence of every parameter; None if too close to call."""
    n = len(next(iter(hist.values())))
    if n == minimum:
        unsure = True
    else:
        unsure = False
    if n < minimum or n <= trigger:
        return False
    close = False
    for seq in hist.values():
        for i in range(n - trigger, n):
            a, b = seq[i - 1], seq[i]
            ch = abs(b - a)/(abs(a) if abs(a) > 1e-8 else 1.0)
            if abs(ch - tol) < 1e-3*tol:
                close = True
            elif ch >= tol:
                return False
    return None if close or unsure else True


# -------------------------------------------------------------------- observer
class Observer:
    """Sees every optimiser step and evaluation of the learned model."""

    def __init__(self, ctx, target):
        self.ctx, self.target = ctx, target
        self.model = None
        self.evals = []
        self.steps = []
        self.shadow = None

    def __enter__(self):
        from torch.nn.modules import module as mod
        from torch.optim import optimizer as opt
        self.handles = [
            mod.register_module_forward_pre_hook(self.before),
            mod.register_module_forward_hook(self.after),
            opt.register_optimizer_step_pre_hook(self.pre_step),
            opt.register_optimizer_step_post_hook(self.post_step)]
        self.depth = 0
        return self

    def __exit__(self, *exc):
        for h in self.handles:
            h.remove()

    def snap(self):
        return [p.detach().clone() for p in self.model.parameters()]

    def before(self, module, args):
        if isinstance(module, self.target):
            self.depth += 1
            if self.depth == 1:
                self.model = module
                self.evals.append({'par': self.snap(),
                                   'state': self.states()})

    def after(self, module, args, out):
        if isinstance(module, self.target):
            if self.depth == 1 and torch.is_tensor(out) and out.dim() == 0:
                self.evals[-1]['loss'] = float(out.detach())
            self.depth -= 1

    def states(self):
        return None

    def pre_step(self, optimizer, args, kwargs):
        par = [p for g in optimizer.param_groups for p in g['params']]
        self.steps.append({
            'par': [p.detach().clone() for p in par],
            'grad': [None if p.grad is None else p.grad.detach().clone()
                     for p in par],
            'lr': optimizer.param_groups[0]['lr'],
            'n_eval': len(self.evals)})

    def post_step(self, optimizer, args, kwargs):
        par = [p for g in optimizer.param_groups for p in g['params']]
        self.steps[-1]['post'] = [p.detach().clone() for p in par]


class FinderObserver(Observer):
    def states(self):
        return {k: {n: v.detach().clone() for n, v in m.state_dict().items()}
                for k, m in self.model.get_material_models().items()}


class Shim:
    def __init__(self, state):
        self._state = state

    def state_dict(self):
        return self._state


# ----------------------------------------------------------------------- world
class World:
    """One learning problem; a restart builds the objects again."""

    def __init__(self, ctx, fs):
        self.ctx, self.fs, self.scn = ctx, fs, ctx.scn
        self.dir = os.path.join(ctx.scratch, 'model')
        os.mkdir(self.dir)
        self.kind = self.scn['driver']
        self.n_new = 0
        self.new()

    def par_spec(self):
        return (self.scn['par'] if self.kind == 'rc'
                else self.scn['materials'][0]['par'])

    def norm_par(self):
        return (self.scn['norm_par'] if self.kind == 'rc'
                else self.scn['materials'][0]['norm_par'])

    def learnable(self):
        return {k: {'initial_value': p['init'],
                    'bounds': (p['lo'], p['hi'])}
                for k, p in self.par_spec().items()}

    def new(self):
        scn = self.scn
        self.n_new += 1
        if self.kind == 'rc':
            r = np.random.Generator(np.random.PCG64(scn['tag']))
            samples = []
            for _ in range(scn['n_sample']):
                x = (r.standard_normal((scn['n_time'], 6))
                     * scn['scale']).cumsum(axis=0)
                x[0] = 0.0
                samples.append({
                    'features_in': torch.tensor(x, dtype=torch.float32),
                    'features_out': torch.tensor(
                        60.0*x + r.standard_normal(x.shape)*scn['scale'],
                        dtype=torch.float32)})
            self.samples = samples
            return
        from simulators.fetorch.structure.structure_state import \
            StructureMaterialState
        m = scn['materials'][0]
        self.spec = finder.Specimen(scn['specimen'], scn['loss_type'])
        n = len(self.spec.conn)
        self.state = StructureMaterialState('infinitesimal', 1, n)
        mdir = os.path.join(self.ctx.scratch, f'mat{self.n_new}')
        os.mkdir(mdir)
        self.ctx.must('initialise material model', finder.add_model,
                      self.state, m, 2, list(range(1, n + 1)),
                      self.spec.types, mdir)

    def init_args(self):
        args = build.rc_args(self.dir, material=self.scn['material'],
                             learn=())
        args['learnable_parameters'] = self.learnable()
        args['is_normalized_parameters'] = self.norm_par()
        return args

    def train(self, ses):
        args = dict(n_max_epochs=ses['n'], lr_init=ses['lr'],
                    is_params_stopping=ses['stop'] is not None,
                    params_stopping_kwargs=dict(ses['stop'] or {}),
                    save_every=ses['save_every'], seed=7)
        if ses['sched']:
            args.update(lr_scheduler_type=ses['sched'][0],
                        lr_scheduler_kwargs=dict(ses['sched'][1]))
        if self.kind == 'rc':
            from model_architectures.rc_base_model.train.training import \
                train_model
            return train_model(dataset=train.Recording(self.samples),
                               model_init_args=self.init_args(),
                               batch_size=ses['batch'], **args)
        from material_model_finder.train.training import train_model
        weights = None
        if self.scn['weights']:
            weights = torch.linspace(0.5, 1.5, self.spec.n_time)
        return train_model(
            specimen_data=self.spec.data, specimen_material_state=self.state,
            model_init_args=dict(
                model_directory=self.dir,
                force_equilibrium_loss_type=self.scn['loss_type'],
                is_store_force_equilibrium_loss_hist=False),
            is_explicit_model_parameters=self.scn['materials'][0]['kind']
            != 'gru', loss_scaling_factor=self.scn['factor'],
            loss_time_weights=weights, **args)

    def observer(self):
        if self.kind == 'rc':
            from model_architectures.rc_base_model.model.recurrent_model \
                import RecurrentConstitutiveModel as Target
            return Observer(self.ctx, Target)
        from material_model_finder.model.material_discovery import \
            MaterialModelFinder as Target
        return FinderObserver(self.ctx, Target)

    def explicit(self, model):
        """{record label: (position in parameters(), lo, hi)}."""
        pos = {id(p): i for i, p in enumerate(model.parameters())}
        if self.kind == 'rc':
            subs = [('', model)]
        else:
            subs = []
            for key, m in model.get_material_models().items():
                if self.scn['materials'][0]['kind'] == 'hybrid':
                    subs += [(f'model_{key}_{name}_', s) for name, s in zip(
                        m.get_hybridized_models_names(),
                        m.get_hybridized_models())]
                else:
                    subs.append((f'model_{key}_', m))
        out = {}
        for prefix, m in subs:
            if not getattr(m, 'is_explicit_parameters', False):
                continue
            for name, p in m.get_model_parameters().items():
                b = self.par_spec()[name]
                out[prefix + name] = (pos[id(p)], b['lo'], b['hi'])
        return out

    def physical(self, raw, lo, hi):
        raw = float(raw)
        return lo + (hi - lo)*(raw + 1.0)/2.0 if self.norm_par() else raw

    def admissible(self, par, table):
        """Expected parameters after bounds (and, for pairs, projection)."""
        out = [p.clone() for p in par]
        for i, lo, hi in table.values():
            a, b = (-1.0, 1.0) if self.norm_par() else (lo, hi)
            out[i] = torch.clamp(out[i], a, b)
        return out


def same(a, b, rtol=0.0, atol=0.0):
    return len(a) == len(b) and all(
        torch.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True)
        for x, y in zip(a, b))


# =============================================================================
def run(ctx):
    no_plots()
    scn = ctx.scn
    ctx.probe('driver_' + scn['driver'])
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'])
    with fs.installed():
        if scn['driver'] == 'rules':
            for case in scn['cases']:
                rules(ctx, case)
            return
        w = World(ctx, fs)
        if w.norm_par():
            ctx.probe('normalised')
        if any(not p['lo'] <= p['init'] <= p['hi']
               for p in w.par_spec().values()):
            ctx.probe('start_outside')
        if any(p['lo'] == p['hi'] for p in w.par_spec().values()):
            ctx.probe('frozen')
        if w.kind == 'finder':
            ctx.probe(scn['materials'][0]['kind'])
        failed = False
        for k, ses in enumerate(scn['sessions']):
            if k and ses['restart']:
                w.new()
            failed = session(ctx, fs, w, ses, k, failed)


def rules(ctx, case):
    ctx.step()
    if case['what'] == 'criterion':
        from model_architectures.rc_base_model.train.training import \
            check_model_parameters_convergence as fn
        hist = build.snapshot(case['hist'])
        # The criterion is asked after every epoch of a growing history
        n = len(next(iter(hist.values())))
        for i in range(1, n + 1):
            part = {k: v[:i] for k, v in hist.items()}
            got = ctx.must('convergence criterion', fn,
                           build.snapshot(part),
                           convergence_tolerance=case['tol'],
                           trigger_tolerance=case['trigger'],
                           min_hist_length=case['min'])[0]
            want = criterion(part, case['tol'], case['trigger'], case['min'])
            ctx.check(want is None or bool(got) == want, 'criterion',
                      lambda: f'criterion {got} for {part}, tolerance '
                      f'{case["tol"]} over {case["trigger"]} steps')
            ctx.probe('criterion_true' if got else 'criterion_false')
        ctx.state(['crit', bool(got), n])
        return
    mdir = os.path.join(ctx.scratch, f'pr{case["id"]}')
    os.mkdir(mdir)
    args = build.rc_args(mdir, material=case['model'], learn=(),
                         norm_par=case['norm'])
    args['learnable_parameters'] = {
        'yield_c_s0': {'initial_value': case['c'], 'bounds': (-8.0, 8.0)},
        'yield_d_s0': {'initial_value': case['d'], 'bounds': (-8.0, 8.0)}}
    from model_architectures.rc_base_model.model.recurrent_model import \
        RecurrentConstitutiveModel
    model = ctx.must('initialise model', RecurrentConstitutiveModel, **args)
    before = model.get_detached_model_parameters()
    before = (before['yield_c_s0'], before['yield_d_s0'])
    ctx.check(np.allclose(before, (case['c'], case['d']), atol=1e-5),
              'initial-value', f'initial values {before} instead of '
              f'{(case["c"], case["d"])}')
    ctx.must('enforce bounds', model.enforce_parameters_bounds)
    ctx.must('enforce constraints', model.enforce_parameters_constraints)
    after = model.get_detached_model_parameters()
    after = (after['yield_c_s0'], after['yield_d_s0'])
    check_projection(ctx, before, after)
    ctx.must('enforce constraints', model.enforce_parameters_constraints)
    again = model.get_detached_model_parameters()
    ctx.check(np.allclose(after, (again['yield_c_s0'], again['yield_d_s0']),
                          atol=2e-4), 'projection', 'not idempotent')
    ctx.state(['proj', round(after[0], 1), round(after[1], 1)])


def session(ctx, fs, w, ses, k, failed):
    ctx.step()
    ctx.log('session', ses['id'])
    if failed:
        ctx.probe('after_fault')
    if k:
        ctx.probe('second_session')
    fault = ses['fault']
    if w.kind == 'finder':
        start = [p.detach().clone() for p in w.state.parameters()]
    else:
        start = None
    if fault is None:
        with w.observer() as obs:
            try:
                out = w.train(ses)
            except Exception as exc:
                if diverged(w, exc, obs):
                    ctx.probe('diverged')
                    return True
                raise Violation(
                    'unexpected-exception', f'learning raised '
                    f'{type(exc).__name__}: {str(exc)[:200]}') from exc
        verify(ctx, w, ses, obs, out, start)
        return False
    # Rehearse on a copy of the directory content to know the length
    size = rehearse(ctx, fs, w, ses, fault)
    if size is None:
        ctx.probe('diverged')
        return True
    pos = 1 + int(fault['pos']*size)
    status = 'ok'
    with w.observer() as obs:
        try:
            if fault['where'] == 'call':
                with fault_at(ctx, pos, fault['kind']):
                    w.train(ses)
            else:
                fs.arm({pos - 1: {'kind': fault['kind'], 'frac': 0.5}})
                w.train(ses)
        except SimCrash:
            status = 'crash'
        except (Exception, KeyboardInterrupt) as exc:
            if isinstance(exc, Violation):
                raise
            status = 'error'
        finally:
            fs.disarm()
    if fs.dead:
        status = 'crash'
    fs.restart()
    ctx.probe('fault')
    after_fault(ctx, w, obs)
    if status == 'crash':
        w.new()
    ctx.state([w.kind, status, len(obs.steps)])
    return True


def rehearse(ctx, fs, w, ses, fault):
    import shutil
    keep = os.path.join(ctx.scratch, 'keep')
    shutil.copytree(w.dir, keep)
    if w.kind == 'finder':
        start = [p.detach().clone() for p in w.state.parameters()]
    size = None
    try:
        if fault['where'] == 'call':
            box = [0]
            with count_calls(box):
                w.train(ses)
            size = box[0]
        else:
            fs.record = rec = []
            w.train(ses)
            size = len(rec)
    except Exception:
        size = None
    fs.record = None
    if w.kind == 'finder':
        with torch.no_grad():
            for p, q in zip(w.state.parameters(), start):
                p.copy_(q)
    shutil.rmtree(w.dir)
    os.rename(keep, w.dir)
    return size


def diverged(w, exc, obs):
    """Not-a-number response: learning gives up (a loud refusal)."""
    if w.kind == 'rc':
        return 'NaN' in str(exc) or 'convergence failure' in str(exc)
    return any(not np.isfinite(e.get('loss', 0.0)) for e in obs.evals)


# ---------------------------------------------------------------------- checks
def check_steps(ctx, w, obs, complete):
    """Every evaluation uses admissible parameters; steps are Adam's."""
    if not obs.evals:
        return None
    table = w.explicit(obs.model)
    is_lou = w.kind == 'rc' and w.scn['material'].startswith('lou')
    for e in obs.evals:
        for label, (i, lo, hi) in table.items():
            val = w.physical(e['par'][i], lo, hi)
            tol = 2e-6*max(abs(lo), abs(hi), hi - lo)
            ctx.check(lo - tol <= val <= hi + tol, 'out-of-bounds',
                      lambda: f'model evaluated with {label} = {val}, bounds '
                      f'({lo}, {hi})')
    shadow = None
    for k, s in enumerate(obs.steps):
        if 'post' not in s:
            break
        if shadow is None:
            shadow = [p.clone().requires_grad_() for p in s['par']]
            opt = torch.optim.Adam(shadow, lr=s['lr'])
        with torch.no_grad():
            for p, q, g in zip(shadow, s['par'], s['grad']):
                p.copy_(q)
                p.grad = None if g is None else g.clone()
        opt.param_groups[0]['lr'] = s['lr']
        obs_hooks_off(opt)
        ctx.check(same([p.detach() for p in shadow], s['post'], 1e-4, 1e-7),
                  'step', lambda: f'step {k} is not a step of the optimiser')
        ctx.check(same(obs.evals[s['n_eval'] - 1]['par'], s['par']),
                  'step', lambda: f'parameters changed between evaluation '
                  f'and step {k}')
        want = w.admissible(s['post'], table)
        if any(not torch.equal(a, b) for a, b in zip(want, s['post'])):
            ctx.probe('clamped')
            ctx.nontrivial = True
        s['want'] = want
        if s['n_eval'] < len(obs.evals):
            got = obs.evals[s['n_eval']]['par']
            check_after(ctx, w, k, s, want, got, table, is_lou)
            s['end'] = got
    return table


def obs_hooks_off(opt):
    """A step of the shadow optimiser without observation."""
    from torch.optim import optimizer as mod
    pre, post = (dict(mod._global_optimizer_pre_hooks),
                 dict(mod._global_optimizer_post_hooks))
    mod._global_optimizer_pre_hooks.clear()
    mod._global_optimizer_post_hooks.clear()
    try:
        opt.step()
    finally:
        mod._global_optimizer_pre_hooks.update(pre)
        mod._global_optimizer_post_hooks.update(post)


def check_after(ctx, w, k, s, want, got, table, is_lou):
    if is_lou:
        i, lo, hi = table['yield_c_s0']
        j = table['yield_d_s0'][0]
        before = tuple(w.physical(want[x], lo, hi) for x in (i, j))
        after = tuple(w.physical(got[x], lo, hi) for x in (i, j))
        if np.all(np.isfinite(before)):
            check_projection(ctx, before, after)
        return
    ctx.check(same(want, got, 0, 0), 'after-step',
              lambda: f'parameters after step {k} are not the step limited '
              f'to the bounds: {[float(x.flatten()[0]) for x in got]} instead '
              f'of {[float(x.flatten()[0]) for x in want]}')


def verify(ctx, w, ses, obs, out, start):
    model, best_loss, best_epoch = out
    table = check_steps(ctx, w, obs, True)
    is_lou = w.kind == 'rc' and w.scn['material'].startswith('lou')
    final = [p.detach().clone() for p in model.parameters()]
    last = obs.steps[-1]
    check_after(ctx, w, len(obs.steps) - 1, last, last['want'], final, table,
                is_lou)
    last['end'] = final
    # First evaluation: the starting values limited to the bounds
    if start is not None:
        ctx.check(same(w.admissible(start, table), obs.evals[0]['par']),
                  'start', 'learning did not start from the parameters of '
                  'the material models')
    else:
        for name, (i, lo, hi) in table.items():
            v = w.physical(obs.evals[0]['par'][i], lo, hi)
            p = w.par_spec()[name]
            x = min(max(p['init'], lo), hi)
            ctx.check(is_lou or abs(v - x) <= 1e-5*max(1, abs(x)), 'start',
                      lambda: f'{name} started from {v}, expected {x}')
    # Records per epoch
    rec = ctx.must('read loss history', train.read_pickle, os.path.join(
        w.dir, 'loss_history_record.pkl'))
    losses = [float(x) for x in rec['training_loss_history']]
    n_epoch = len(losses)
    train.read_back(ctx, w.kind, w.dir)
    per = len(obs.steps)//max(n_epoch, 1)
    ctx.check(n_epoch*per == len(obs.steps) and n_epoch > 0, 'records',
              f'{n_epoch} epochs recorded for {len(obs.steps)} steps')
    if w.kind == 'finder':
        check_losses(ctx, w, obs, losses)
    check_rates(ctx, ses, obs, per)
    low = min(losses)
    ctx.check(best_loss == low and losses[best_epoch] == low, 'best',
              f'best loss {best_loss} at {best_epoch}: {losses}')
    is_exp = bool(table)
    epoch_end = [obs.steps[(e + 1)*per - 1]['end'] for e in range(n_epoch)]
    kept = max(e for e in range(n_epoch) if losses[e] <= min(losses[:e + 1]))
    hist = None
    if is_exp:
        hist = check_records(ctx, w, obs, table, per, n_epoch, epoch_end,
                             kept)
    # End of learning
    if ses['stop'] and is_exp:
        stop = ses['stop']
        for e in range(n_epoch):
            part = {k: v[:len(v) - n_epoch + e + 1] for k, v in hist.items()}
            want = criterion(part, stop['convergence_tolerance'],
                             stop['trigger_tolerance'],
                             stop['min_hist_length'])
            if e < n_epoch - 1:
                ctx.check(want is not True, 'not-stopped',
                          f'parameters had converged at epoch {e} of '
                          f'{n_epoch}: {part}')
            elif n_epoch < ses['n'] + 1:
                ctx.check(want is not False, 'stopped-early',
                          f'stopped at epoch {e} without convergence: {part}')
        if n_epoch < ses['n'] + 1:
            ctx.probe('converged')
            ctx.nontrivial = True
        else:
            ctx.probe('not_converged')
    else:
        ctx.check(n_epoch == ses['n'] + 1, 'stopped-early',
                  f'{n_epoch} epochs, {ses["n"]} requested (plus one)')
    ctx.check(n_epoch <= ses['n'] + 1, 'not-stopped',
              f'{n_epoch} epochs, {ses["n"]} requested')
    check_states(ctx, w, model, epoch_end, kept, n_epoch)
    if ses['sched']:
        ctx.probe('schedule')
    if ses['save_every']:
        ctx.probe('save_every')
    ctx.state([w.kind, n_epoch, f'{best_loss:.2g}', len(table)])


def check_losses(ctx, w, obs, losses):
    m = w.scn['materials'][0]
    weights = torch.ones(w.spec.n_time)
    if w.scn['weights']:
        weights = torch.linspace(0.5, 1.5, w.spec.n_time)
    todo = sorted({0, len(losses) - 1, len(losses)//2})
    for e in range(len(losses)):
        ctx.check(len(obs.evals) > e and obs.evals[e].get('loss') == losses[e]
                  or abs(obs.evals[e]['loss'] - losses[e])
                  <= 1e-5*abs(losses[e]), 'records',
                  f'loss of epoch {e} recorded as {losses[e]}')
        if e not in todo:
            continue
        ref = finder.Reference(m, 2, Shim(obs.evals[e]['state']['1']))
        forces, _ = w.spec.response({i: ref
                                     for i in range(len(w.spec.conn))})
        want, _, size, _ = w.spec.loss(forces, weights,
                                       w.scn['factor'] or 1.0)
        if not np.isfinite(losses[e]):
            continue
        tol = 2e-3*abs(float(want)) + 2e-5*size + 1e-7
        ctx.check(abs(float(want) - losses[e]) <= tol, 'wrong-loss',
                  lambda: f'loss of epoch {e} is {losses[e]}, the parameters '
                  f'give {float(want)}')
        if want.requires_grad and e < len(obs.steps):
            want.backward()
            for g, p in zip(obs.steps[e]['grad'], ref.parameters()):
                ga = torch.zeros(()) if g is None else g
                gb = torch.zeros(()) if p.grad is None else p.grad
                bound = 0.02*float(gb.abs().max()) + 2e-4*size/max(
                    float(p.detach().abs().max()), 0.1) + 1e-5
                ctx.check(float((ga - gb).abs().max()) <= bound, 'gradient',
                          f'step {e} follows another gradient')
            ctx.probe('gradient')


def check_rates(ctx, ses, obs, per):
    lr = ses['lr']
    for k, s in enumerate(obs.steps):
        e = k//per
        want = lr
        if ses['sched']:
            want = lr*ses['sched'][1]['gamma']**e
        ctx.check(abs(s['lr'] - want) <= 1e-6*want, 'learning-rate',
                  f'rate {s["lr"]} in epoch {e}, expected {want}')


def check_records(ctx, w, obs, table, per, n_epoch, epoch_end, kept):
    rec = ctx.must('read parameter history', train.read_pickle, os.path.join(
        w.dir, 'parameters_history_record.pkl'))
    hist, bounds = (rec['model_parameters_history'],
                    rec['model_parameters_bounds'])
    ctx.check(set(hist) == set(table) == set(bounds), 'records',
              lambda: f'histories of {sorted(hist)}, bounds of '
              f'{sorted(bounds)}, learned {sorted(table)}')
    extra = 1 if w.kind == 'rc' else 0
    best = ctx.must('read best parameters', train.read_pickle, os.path.join(
        w.dir, 'parameters_best.pkl'))
    for label, (i, lo, hi) in table.items():
        tol = 2e-5*max(abs(lo), abs(hi), 1e-3)
        ctx.check(tuple(float(x) for x in bounds[label]) == (lo, hi),
                  'records', f'bounds of {label} recorded as {bounds[label]}')
        seq = [float(x) for x in hist[label]]
        ctx.check(len(seq) == n_epoch + extra, 'records',
                  f'{len(seq)} values of {label} for {n_epoch} epochs')
        vals = [w.physical(s['end'][i], lo, hi) for s in obs.steps]
        first = w.physical(obs.evals[0]['par'][i], lo, hi)
        if extra:
            ctx.check(abs(seq[0] - first) <= tol, 'records',
                      f'{label} started from {first}, recorded {seq[0]}')
        for e in range(n_epoch):
            got = seq[e + extra]
            own = vals[e*per:(e + 1)*per]
            carried = [first] if e == 0 else [vals[e*per - 1]]
            ok = abs(np.mean(own) - got) <= tol or (
                extra and abs(np.mean(carried + own) - got) <= tol)
            ctx.check(ok, 'records', lambda: f'{label} of epoch {e} recorded '
                      f'as {got}, values were {carried} -> {own}')
        got = float(best['best_model_parameters'][label])
        want = w.physical(epoch_end[kept][i], lo, hi)
        ctx.check(abs(got - want) <= tol, 'best', lambda: f'best {label} '
                  f'recorded as {got}, epoch {kept} ended with {want}')
    return {k: [float(x) for x in v] for k, v in hist.items()}


def check_states(ctx, w, model, epoch_end, kept, n_epoch):
    names = [n for n, _ in model.named_parameters()]
    models, optims = train.slots_on_disk(w.dir, model.model_name)
    best = [k for k in models if k[0] == 'best']
    ctx.check(len(best) == 1 and best[0][1] == kept, 'states',
              f'best states {best}, best epoch {kept}')
    check_state(ctx, models[best[0]], names, epoch_end[kept], 'best')
    last = models.get(('epoch', n_epoch - 1))
    ctx.check(last is not None, 'states', f'no state of the last epoch: '
              f'{sorted(map(str, models))}')
    check_state(ctx, last, names, epoch_end[-1], 'last')
    if w.kind != 'finder':
        return
    mat = model.get_material_models()['1']
    pos = {id(p): i for i, p in enumerate(model.parameters())}
    sub = os.path.join(w.dir, 'material_models', 'model_1')
    ctx.check(os.path.normpath(mat.model_directory) == sub, 'states',
              f'material model stored in {mat.model_directory}')
    models, _ = train.slots_on_disk(sub, mat.model_name)
    own = [(n, pos[id(p)]) for n, p in mat.named_parameters()]
    best = [k for k in models if k[0] == 'best']
    ctx.check(len(best) == 1 and best[0][1] == kept, 'states',
              f'best material states {best}, best epoch {kept}')
    for slot, e in ((best[0], kept), (('epoch', n_epoch - 1), n_epoch - 1)):
        ctx.check(slot in models, 'states', f'no material state {slot}')
        check_state(ctx, models[slot], [n for n, _ in own],
                    [epoch_end[e][i] for _, i in own], f'material {slot}')


def check_state(ctx, state, names, want, what):
    for n, v in zip(names, want):
        ctx.check(n in state and torch.equal(state[n], v), 'states',
                  f'{what} state does not hold the parameters of its epoch '
                  f'({n})')


def after_fault(ctx, w, obs):
    """Whatever is on disk afterwards was reached by learning."""
    table = check_steps(ctx, w, obs, False)
    if table is None:
        return
    name = obs.model.model_name
    train.slots_on_disk(w.dir, name)
    for f in ('parameters_history_record.pkl', 'parameters_best.pkl'):
        path = os.path.join(w.dir, f)
        if os.path.exists(path):
            ctx.must('read ' + f, train.read_pickle, path)
    if w.kind == 'finder':
        sub = os.path.join(w.dir, 'material_models', 'model_1')
        mat = obs.model.get_material_models()['1']
        if os.path.isdir(sub):
            train.slots_on_disk(sub, mat.model_name)
            return
