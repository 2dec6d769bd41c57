"""P14: the equilibrium loss depends on specimen and parameters only."""
import os
import pickle

import numpy as np
import torch

from dst import build, finder
from dst.calls import count_calls, fault_at
from dst.core import SimCrash, Violation, rng
from dst.vfs import SimFS

RUNS = {'quick': 420, 'thorough': 12000}
RULE = ('one run = a seeded history of evaluations, gradient steps, parameter '
        'changes, specimen swaps, saves and restarts of a real material model '
        'finder on a random small specimen, where evaluations are hit by '
        'interrupts, failed allocations or numerical failures at a random '
        'function entry and by crashes, torn writes and I/O errors while '
        'their side files are written; non-trivial = an evaluation after a '
        'failed one, after a parameter change, or in a second mode')
PROBES = ('mode_sequential', 'mode_vmap', 'both_modes', 'param_change',
          'optimizer_step', 'swap', 'weights_dropped', 'restart',
          'failed_eval', 'io_fault',
          'two_models', 'gru', 'hybrid', 'rc', 'normalised_model',
          'force_normalised', 'dirichlet_sets', 'no_free_dof', 'time_weights',
          'local_paths', 'loss_components', 'set_reactions', 'equilibrium',
          'gradient', 'nan_parameters', 'rejected', 'chosen_elements',
          'local_script')
STATE_MEASURE = 'digest of (operation kinds, mode, outcome, rounded loss)'
REAL = ['MaterialModelFinder (both evaluation modes)',
        'SpecimenNumericalData, StructureMesh, StructureMaterialState',
        'constitutive, GRU and hybrid material models', 'torch autograd',
        'side file writers']
STUB = ['disk, listing order, clock', 'function-entry fault injector',
        'plots are not drawn']
ASSUMPTIONS = ['infinitesimal strains; two- and three-dimensional elements '
               'with linear shape functions',
               'stress of one material point on a fresh model (P12) is the '
               'reference response']
SHRINK_LISTS = ('ops',)
MODES = {'seq': 'sequential_element', 'vmap': 'sequential_element_vmap'}


def gen(seed, tier):
    r = rng(seed, 'gen')
    two = r.random() < 0.15
    vmap_only = r.random() < 0.5
    scn = {'seed': seed, 'listing': 'shuffle',
           'loss_type': r.choice(['pointwise', 'dirichlet_sets']),
           'force_norm': r.random() < 0.25,
           'store': {'hist': r.random() < 0.3, 'paths': r.random() < 0.4,
                     'reac': r.random() < 0.4},
           'materials': [finder.gen_material(r, vmap_only)
                         for _ in range(2 if two else 1)],
           'specimens': [finder.gen_specimen(r)]}
    first = scn['specimens'][0]
    kinds = (finder.PLANE if first['mesh'] in finder.PLANE else finder.SOLID)
    if r.random() < 0.4:
        scn['specimens'].append(finder.gen_specimen(r, kinds))
        if r.random() < 0.6:
            scn['specimens'][1]['n_time'] = first['n_time']
    if scn['store']['paths'] and r.random() < 0.4:
        scn['store']['one'] = r.random()
    if two:
        if r.random() < 0.7:
            # Same class, other values
            scn['materials'][1] = dict(scn['materials'][0],
                                       seed=r.randint(0, 10**6))
        for s in scn['specimens']:
            s['n_elem'] = 2
    scn['set'] = [gen_set(r, scn) for _ in range(2)]
    ops = []
    for i in range(r.choice([2, 3, 4, 5])):
        x = r.random()
        op = {'id': i, 'mode': r.choice(['vmap', 'vmap', 'seq'])}
        if x < 0.35:
            op['op'] = 'eval'
        elif x < 0.55:
            op.update(op='fail', kind=r.choice(['intr', 'oom', 'num']),
                      pos=r.random())
        elif x < 0.58:
            op['op'] = 'local'
        elif x < 0.65:
            op.update(op='iofail', pos=r.random(),
                      kind=r.choice(['crash', 'torn', 'enospc', 'eio',
                                     'intr']))
        elif x < 0.76:
            op.update(op='params', by=r.uniform(-0.1, 0.1))
        elif x < 0.87:
            op.update(op='step', lr=r.choice([0.001, 0.01]))
        elif x < 0.9:
            op.update(op='nan')
        elif x < 0.97:
            op.update(op='swap', to=r.randrange(len(scn['specimens'])))
            if r.random() < 0.6:
                op['set'] = gen_set(r, scn)
        else:
            op.update(op='restart')
        ops.append(op)
    ops.append({'id': 98, 'op': 'eval', 'mode': r.choice(['vmap', 'seq'])})
    scn['ops'] = ops
    return scn


def gen_set(r, scn):
    return {'factor': r.choice([None, None, 0.25]),
            'weights': r.random() < 0.4,
            'wseed': r.randint(0, 10**6),
            'equilibrium': r.random() < 0.15}


def shrink(scn):
    if len(scn['specimens']) > 1:
        new = build.snapshot(scn)
        del new['specimens'][1:]
        for op in new['ops']:
            if op['op'] == 'swap':
                op['to'] = 0
        yield new
    for key in ('hist', 'paths', 'reac', 'one'):
        if scn['store'].get(key):
            new = build.snapshot(scn)
            new['store'][key] = False
            yield new
    if scn['force_norm']:
        yield dict(build.snapshot(scn), force_norm=False)
    for s in range(len(scn['specimens'])):
        for key, val in (('n_elem', 1), ('n_time', 2), ('bc', 'some')):
            if scn['specimens'][s][key] != val and (
                    key != 'n_elem' or len(scn['materials']) == 1):
                new = build.snapshot(scn)
                new['specimens'][s][key] = val
                yield new
    for i, cfg in enumerate(scn['set']):
        for key, val in (('factor', None), ('weights', False),
                         ('equilibrium', False)):
            if cfg[key] != val:
                new = build.snapshot(scn)
                new['set'][i][key] = val
                yield new
    for i in range(len(scn['materials'])):
        for key, val in (('norm_par', False), ('norm_in', False),
                         ('norm_out', False), ('auto_sync', True)):
            if scn['materials'][i][key] != val:
                new = build.snapshot(scn)
                new['materials'][i][key] = val
                yield new


# =============================================================================
def no_plots():
    """Figures are irrelevant here; replace the drawing before it is bound."""
    import ioput.plots as plots
    if not getattr(plots, '_verif', False):
        plots.plot_xy_data = lambda *a, **k: (None, None)
        plots.save_figure = lambda *a, **k: None
        plots._verif = True


class World:
    def __init__(self, ctx, fs):
        from simulators.fetorch.structure.structure_state import \
            StructureMaterialState
        scn = ctx.scn
        self.ctx, self.scn, self.fs = ctx, scn, fs
        self.home = os.path.join(ctx.scratch, 'finder')
        os.mkdir(self.home)
        self.n_new = 0
        self.specs = [finder.Specimen(s, scn['loss_type'])
                      for s in scn['specimens']]
        self.n_dim = self.specs[0].n_dim
        self.states = []
        self.all_parts = []
        for k, spec in enumerate(self.specs):
            state = StructureMaterialState(
                'infinitesimal', 1 if self.n_dim == 2 else 4, len(spec.conn))
            n = len(spec.conn)
            parts = ([list(range(n))] if len(scn['materials']) == 1
                     else [list(range(1)), list(range(1, n))])
            self.all_parts.append(parts)
            for m, ids in zip(scn['materials'], parts):
                mdir = os.path.join(ctx.scratch, f'mat_{k}_{ids[0]}')
                os.mkdir(mdir)
                ctx.must('initialise material model', finder.add_model, state,
                         m, self.n_dim, [i + 1 for i in ids], spec.types,
                         mdir)
            self.states.append(state)
        # Different parameter values of the second model
        if len(scn['materials']) == 2:
            for state in self.states:
                with torch.no_grad():
                    for p in state.get_material_models()['2'].parameters():
                        p.mul_(0.9)
        limits = None
        if scn['force_norm']:
            gen = np.random.Generator(np.random.PCG64(scn['seed'] % 2**31))
            lo = torch.tensor(gen.uniform(-3.0, -0.5, self.n_dim),
                              dtype=torch.float32)
            hi = torch.tensor(gen.uniform(0.5, 3.0, self.n_dim),
                              dtype=torch.float32)
            limits = (lo, hi)
        self.limits = limits
        self.cur = 0
        self.last_paths = []
        self.last_hist = []
        self.given = {}
        self.equilibrate()
        self.new_finder()

    def equilibrate(self):
        """Measured reactions that balance the current response exactly."""
        for k, spec in enumerate(self.specs):
            if not self.scn['set'][k]['equilibrium']:
                continue
            self.cur = k
            forces, _ = spec.response(self.references())
            spec.reac = forces.detach().clone()
            spec.data.set_specimen_data(
                spec.disps.clone(), spec.reac.clone(),
                spec.data.dirichlet_bc_mesh_hist, spec.time.clone())
        self.cur = 0

    @property
    def parts(self):
        return self.all_parts[self.cur]

    def config(self):
        cfg = self.given.get(self.cur, self.scn['set'][self.cur])
        spec = self.specs[self.cur]
        gen = np.random.Generator(np.random.PCG64(cfg['wseed']))
        w = torch.ones(spec.n_time)
        if cfg['weights']:
            w = torch.tensor(gen.uniform(0.0, 2.0, spec.n_time),
                             dtype=torch.float32)
        return cfg, w

    def new_finder(self):
        from material_model_finder.model.material_discovery import \
            MaterialModelFinder
        self.dir = os.path.join(self.home, f'run{self.n_new}')
        self.n_new += 1
        os.mkdir(self.dir)
        store = self.scn['store']
        self.finder = self.ctx.must(
            'initialise finder', MaterialModelFinder, self.dir,
            force_equilibrium_loss_type=self.scn['loss_type'],
            is_force_normalization=self.scn['force_norm'],
            is_store_force_equilibrium_loss_hist=store['hist'],
            is_store_local_paths=store['paths'],
            local_paths_elements=self.elements(),
            is_compute_sets_reaction_hist=store['reac'])
        self.last_paths, self.last_hist = [], []
        self.set_data()

    def elements(self):
        """Labels of the elements whose paths are asked for, None for all."""
        one = self.scn['store'].get('one')
        if not one:
            return None
        n = min(len(s.conn) for s in self.specs)
        return [1 + int(one*n)]

    def set_data(self):
        cfg, w = self.config()
        kw = {}
        if self.limits is not None:
            kw = {'force_minimum': self.limits[0],
                  'force_maximum': self.limits[1]}
        self.ctx.must('set specimen data', self.finder.set_specimen_data,
                      self.specs[self.cur].data, self.states[self.cur],
                      loss_scaling_factor=cfg['factor'],
                      loss_time_weights=w if cfg['weights'] else None, **kw)

    def models(self):
        return self.states[self.cur].get_material_models()

    def references(self):
        models = self.models()
        refs = {}
        self.refs = []
        for k, (m, ids) in enumerate(zip(self.scn['materials'], self.parts)):
            ref = finder.Reference(m, self.n_dim, models[str(k + 1)])
            self.refs.append(ref)
            for i in ids:
                refs[i] = ref
        return refs

    def reference(self):
        cfg, w = self.config()
        spec = self.specs[self.cur]
        forces, paths = spec.response(self.references())
        out = spec.loss(forces, w, cfg['factor'] or 1.0, self.limits)
        elems = self.elements()
        if elems is not None:
            n = len(paths)//len(spec.conn)
            paths = [p for e in elems for p in paths[(e - 1)*n:e*n]]
            self.ctx.probe('chosen_elements')
        return out + (paths, forces.detach())

    def vmap_ok(self):
        """Is the vectorised evaluation defined for this specimen?"""
        if len(self.parts) > 1:
            return False
        m = self.scn['materials'][0]
        return m['kind'] == 'gru' or m['material'].endswith('_vmap')

    def evaluate(self, mode):
        return self.finder(sequential_mode=MODES[mode])

    # ------------------------------------------------------------------ checks
    def checked(self, mode, grad=False):
        ctx = self.ctx
        spec = self.specs[self.cur]
        before = [p.detach().clone() for p in self.finder.parameters()]
        if mode == 'vmap' and not self.vmap_ok():
            # Not vectorisable: must be refused, never silently wrong
            try:
                value = self.evaluate('vmap')
            except Exception:
                ctx.probe('rejected')
                mode = 'seq'
                value = ctx.must('evaluate (seq)', self.evaluate, mode)
        else:
            value = ctx.must(f'evaluate ({mode})', self.evaluate, mode)
        ctx.probe('mode_sequential' if mode == 'seq' else 'mode_vmap')
        want, comps, size, reac, paths, forces = self.reference()
        tol = 2e-3*abs(float(want)) + 2e-5*size + 1e-7
        ctx.check(abs(float(value) - float(want)) <= tol, 'wrong-loss',
                  lambda: f'{MODES[mode]}: loss {float(value)!r}, the '
                  f'specimen and parameters give {float(want)!r}')
        if self.scn['set'][self.cur]['equilibrium']:
            ctx.probe('equilibrium')
        ctx.check(spec.unchanged(), 'data-changed', 'an evaluation changed '
                  'the specimen data')
        ctx.check(all(torch.equal(a, b.detach()) for a, b in
                      zip(before, self.finder.parameters())),
                  'parameters-changed', 'an evaluation changed parameters')
        self.check_files(mode, float(value), comps, size, reac, paths)
        if grad:
            self.check_gradient(value, want, size)
        ctx.state([mode, f'{float(value):.3g}'])
        return value

    def check_gradient(self, value, want, size):
        ctx = self.ctx
        self.finder.zero_grad()
        if isinstance(value, torch.Tensor) and value.requires_grad:
            ctx.must('backward', value.backward)
        if want.requires_grad:
            want.backward()
        live = [p for p in self.states[self.cur].parameters()]
        ref = [p for r in self.refs for p in r.parameters()]
        ctx.check(len(live) == len(ref), 'gradient', 'number of parameters')
        for a, b in zip(live, ref):
            ga = torch.zeros(()) if a.grad is None else a.grad
            gb = torch.zeros(()) if b.grad is None else b.grad
            bound = 0.02*float(gb.abs().max()) + 2e-4*size/max(
                float(b.detach().abs().max()), 0.1) + 1e-5
            ctx.check(float((ga - gb).abs().max()) <= bound, 'gradient',
                      lambda: f'gradient {ga.flatten()[:3].tolist()}, '
                      f'expected {gb.flatten()[:3].tolist()}')
        ctx.probe('gradient')

    def check_files(self, mode, value, comps, size, reac, paths):
        ctx, scn = self.ctx, self.scn
        if scn['store']['paths']:
            self.check_paths(paths, need=True)
            self.last_paths = [paths]
        if mode == 'vmap' and scn['store']['hist']:
            data = read_pickle(os.path.join(
                self.dir, 'force_equilibrium_loss_components',
                'force_equilibrium_loss_data.pkl'))[
                    'force_equilibrium_loss_components_hist']
            want = comps if scn['loss_type'] == 'dirichlet_sets' else comps[:1]
            ok = (data.shape == want.shape and np.allclose(
                data, want, rtol=5e-3, atol=5e-5*size + 1e-7))
            ctx.check(ok, 'loss-components', lambda: 'stored loss components '
                      f'{data.tolist()} do not belong to the loss {value}, '
                      f'expected {want.tolist()}')
            ctx.probe('loss_components')
        if (mode == 'vmap' and scn['store']['reac']
                and scn['loss_type'] == 'dirichlet_sets'):
            data = read_pickle(os.path.join(
                self.dir, 'dirichlet_sets_reaction_forces',
                'dirichlet_sets_data.pkl'))['dirichlet_sets_reaction_hist']
            ok = (data.shape[0] == reac.shape[0] and np.allclose(
                data[:, 0, :], reac, rtol=5e-3,
                atol=1e-4*(1 + np.abs(reac).max())))
            ctx.check(ok, 'set-reactions', lambda: 'stored reaction forces '
                      f'{data.tolist()}, expected {reac.tolist()}')
            ctx.probe('set_reactions')

    def stored_paths(self):
        from time_series_data.time_dataset import load_dataset
        d = os.path.join(self.dir, 'local_response_dataset')
        if not os.path.isdir(d):
            return None
        names = sorted(x for x in os.listdir(d) if x.endswith('.pkl'))
        if not names:
            return None
        if len(names) > 1:
            raise Violation('local-paths', f'several data sets: {names}')
        return self.ctx.must('load local paths', load_dataset,
                             os.path.join(d, names[0])), names[0]

    def match(self, dataset, paths):
        if len(dataset) != len(paths):
            return f'{len(dataset)} paths instead of {len(paths)}'
        for i, (strain, stress) in enumerate(paths):
            s = dataset[i]
            for key, want in (('strain_path', strain),
                              ('stress_path', stress)):
                got = s[key]
                tol = 2e-3*float(want.abs().max()) + 1e-6
                if got.shape != want.shape or float(
                        (got - want).abs().max()) > tol:
                    return (f'{key} {i} is {got[-1].tolist()} instead of '
                            f'{want[-1].tolist()}')
        return None

    def check_paths(self, paths, need):
        ctx = self.ctx
        stored = self.stored_paths()
        if stored is None:
            ctx.check(not need, 'local-paths', 'no local paths were stored')
            return
        why = self.match(stored[0], paths)
        ctx.check(why is None, 'local-paths', lambda: f'stored local paths do '
                  f'not belong to the evaluation: {why}')
        ctx.check(stored[1] == f'ss_paths_dataset_n{len(paths)}.pkl',
                  'local-paths', f'file name {stored[1]}')
        ctx.probe('local_paths')


def read_pickle(path):
    with open(path, 'rb') as f:
        return pickle.load(f)


# =============================================================================
def run(ctx):
    no_plots()
    scn = ctx.scn
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'])
    with fs.installed():
        w = World(ctx, fs)
        for m in scn['materials']:
            ctx.probe(m['kind'])
            if m['kind'] != 'rc' and (m['norm_in'] or m['norm_out']):
                ctx.probe('normalised_model')
        if len(scn['materials']) == 2:
            ctx.probe('two_models')
        if scn['force_norm']:
            ctx.probe('force_normalised')
        if scn['loss_type'] == 'dirichlet_sets':
            ctx.probe('dirichlet_sets')
        if any(s['bc'] == 'all' for s in scn['specimens']):
            ctx.probe('no_free_dof')
        if any(c['weights'] for c in scn['set']):
            ctx.probe('time_weights')
        modes = set()
        for op in scn['ops']:
            operation(ctx, fs, w, op)
            if op['op'] == 'eval':
                modes.add(op['mode'])
        if len(modes) == 2:
            ctx.probe('both_modes')
            ctx.nontrivial = True


def operation(ctx, fs, w, op):
    kind = op['op']
    ctx.log('op', kind, op['mode'])
    ctx.step()
    if kind == 'eval':
        w.checked(op['mode'], grad=True)
    elif kind == 'fail':
        mode = op['mode'] if w.vmap_ok() else 'seq'
        box = [0]
        with count_calls(box):
            ctx.must('evaluate', w.evaluate, mode)
        n = 1 + int(op['pos']*box[0])
        try:
            with fault_at(ctx, n, op['kind']):
                w.evaluate(mode)
        except (Exception, KeyboardInterrupt) as exc:
            if isinstance(exc, Violation):
                raise
        ctx.probe('failed_eval')
        w.checked(mode)
    elif kind == 'iofail':
        mode = op['mode'] if w.vmap_ok() else 'seq'
        fs.record = rec = []
        ctx.must('evaluate', w.evaluate, mode)
        fs.record = None
        if not rec:
            return
        old = w.reference()[4]
        with torch.no_grad():
            change(w, 0.03)
        new = w.reference()[4]
        fs.arm({int(op['pos']*len(rec)): {'kind': op['kind'], 'frac': 0.5}})
        try:
            w.evaluate(mode)
        except (Exception, KeyboardInterrupt, SimCrash) as exc:
            if isinstance(exc, Violation):
                raise
        fs.restart()
        ctx.probe('io_fault')
        if w.scn['store']['paths']:
            stored = w.stored_paths()
            if stored is not None:
                ok = (w.match(stored[0], old) is None
                      or w.match(stored[0], new) is None)
                ctx.check(ok, 'local-paths', 'local paths on disk after a '
                          'fault belong to no evaluation')
        w.checked(mode)
    elif kind == 'params':
        with torch.no_grad():
            change(w, op['by'])
        ctx.probe('param_change')
        ctx.nontrivial = True
    elif kind == 'step':
        mode = op['mode'] if w.vmap_ok() else 'seq'
        opt = torch.optim.Adam(w.finder.parameters(), lr=op['lr'])
        value = w.checked(mode)
        opt.zero_grad()
        # A single time step has no stress history to differentiate
        if value.requires_grad or w.specs[w.cur].n_time > 1:
            ctx.must('backward', value.backward)
        opt.step()
        ctx.probe('optimizer_step')
        ctx.nontrivial = True
        w.checked(mode)
    elif kind == 'nan':
        if not w.vmap_ok():
            return
        old = [p.detach().clone() for p in w.finder.parameters()]
        with torch.no_grad():
            for p in w.finder.parameters():
                p.fill_(float('nan'))
        try:
            value = w.evaluate('vmap')
            ctx.check(w.specs[w.cur].n_time < 2 or bool(
                torch.isnan(value)), 'nan-hidden', 'not-a-number parameters '
                f'gave the loss {float(value)}')
        except Exception:
            pass
        with torch.no_grad():
            for p, q in zip(w.finder.parameters(), old):
                p.copy_(q)
        ctx.probe('nan_parameters')
        ctx.fault('nan_parameters')
        w.checked('vmap')
    elif kind == 'swap':
        before = w.config()[0]
        w.cur = op['to']
        if 'set' in op:
            w.given[w.cur] = op['set']
        w.set_data()
        if before['weights'] and not w.config()[0]['weights']:
            ctx.probe('weights_dropped')
        w.last_paths = []
        ctx.probe('swap')
        w.checked(op['mode'])
    elif kind == 'local':
        if w.vmap_ok():
            local_script(ctx, w)
            w.checked(op['mode'])
    elif kind == 'restart':
        restart(ctx, w)
        ctx.probe('restart')
        w.checked(op['mode'])


def change(w, by):
    for p in w.finder.parameters():
        p.mul_(1.0 + by)


def restart(ctx, w):
    """Save the specimen like the data generation script, start anew."""
    k = w.cur
    pa = os.path.join(ctx.scratch, f'specimen{w.n_new}.pt')
    pb = os.path.join(ctx.scratch, f'state{w.n_new}.pt')
    ctx.must('save specimen data', torch.save, w.specs[k].data, pa)
    ctx.must('save material state', torch.save, w.states[k], pb)
    w.specs[k].data = ctx.must('load specimen data', torch.load, pa)
    w.states[k] = ctx.must('load material state', torch.load, pb)
    w.new_finder()


def local_script(ctx, w):
    """Local paths of all elements from the stored specimen files."""
    from user_scripts.global_model_update.material_finder import \
        gen_specimen_local_paths as mod
    k = w.cur
    d = os.path.join(ctx.scratch, f'local{w.n_new}_{ctx.steps}')
    os.mkdir(d)
    pa, pb = os.path.join(d, 'specimen.pt'), os.path.join(d, 'state.pt')
    model = os.path.join(d, '3_model')
    os.mkdir(model)
    ctx.must('save specimen data', torch.save, w.specs[k].data, pa)
    ctx.must('save material state', torch.save, w.states[k], pb)
    with open(pa, 'rb') as f, open(pb, 'rb') as g:
        before = f.read(), g.read()
    dataset, loss = ctx.must(
        'specimen local paths', mod.gen_specimen_local_dataset, pa, pb, model,
        force_equilibrium_loss_type=w.scn['loss_type'])
    with open(pa, 'rb') as f, open(pb, 'rb') as g:
        ctx.check(before == (f.read(), g.read()), 'data-changed',
                  'stored specimen files were changed')
    spec = w.specs[k]
    forces, paths = spec.response(w.references())
    why = w.match(dataset, paths)
    ctx.check(why is None, 'local-paths', lambda: 'specimen local paths do '
              f'not belong to the specimen: {why}')
    factor = 1.0/(110000.0**2*40.0**4)
    want, _, size, _ = spec.loss(forces, torch.ones(spec.n_time), 1.0)
    got = float(loss)/factor
    tol = 2e-3*abs(float(want)) + 2e-5*size + 1e-7
    ctx.check(abs(got - float(want)) <= tol, 'wrong-loss', lambda: 'specimen '
              f'local paths: loss {got}, expected {float(want)}')
    ctx.probe('local_script')
