"""P22: a hybrid model combines its parts exactly as specified."""
import os

import numpy as np
import torch

from dst import build
from dst.calls import count_calls, fault_at
from dst.core import Violation, rng
from dst.props.p16 import Scaling, gru_reference
from dst.vfs import SimFS

RUNS = {'quick': 1600, 'thorough': 36000}
RULE = ('one run = a hybrid model of one to three channels, each a chain of '
        'one to three parts (networks, constitutive models, elastic, '
        'polynomial and volumetric-deviatoric layers) with residual inputs '
        'and their own normalisations, listed in any order, through a seeded '
        'sequence of batched and single evaluations, evaluations of parts, '
        'parameter changes, replaced normalisations, reloads from disk, '
        'refused constructions and evaluations broken at a random function '
        'entry; non-trivial = several parts were combined and something '
        'changed or failed in between')
PROBES = ('evaluation_mode', 'chain', 'channels', 'residual', 'gru', 'rc', 'elastic', 'elastic2',
          'voldev', 'poly', 'anisotropic', 'part_in_norm', 'part_out_norm',
          'out_norm', 'identity', 'additive', 'unbatched', 'batched', 'fault',
          'after_fault', 'reload', 'perturbed', 'scaler', 'part_alone',
          'refused', 'plane', 'gradient', 'seven_in', 'named_parameters')
STATE_MEASURE = 'digest of (structure of the hybrid model, operation)'
REAL = ['hybrid model, hybridised layers and parts', 'hybridisation',
        'set_hybridized_model', 'data scalers', 'state and description files']
STUB = ['disk, listing order, clock', 'function-entry fault injector']
ASSUMPTIONS = ['the response of a constitutive part is checked by P21',
               'results are compared up to rounding of the largest '
               'intermediate value']
SHRINK_LISTS = ('ops',)

SYM = {'isotropic': ('E1111', 'E1122'),
       'transverse_isotropic': ('E1111', 'E3333', 'E1122', 'E1133', 'E2323'),
       'orthotropic': ('E1111', 'E2222', 'E3333', 'E1122', 'E1133', 'E2233',
                       'E1212', 'E2323', 'E1313')}


# =============================================================================
def gen(seed, tier):
    r = rng(seed, 'gen')
    n_dim = r.choice([3, 3, 3, 2])
    n = 6 if n_dim == 3 else 3
    n_in = 7 if n_dim == 3 and r.random() < 0.15 else n
    channels = []
    for _ in range(r.choice([1, 2, 2, 3])):
        channels.append(gen_channel(r, n_in, n))
    ops = []
    for i in range(r.choice([3, 5, 7])):
        ops.append({'id': i, 'op': r.choice(
            ['eval', 'eval', 'eval', 'perturb', 'scaler', 'reload', 'part',
             'fault', 'refuse', 'grad']),
            'tag': r.randint(0, 10**6), 'pos': r.random(),
            'eval': r.random() < 0.4,
            'n_path': r.choice([0, 1, 2, 3]), 'n_time': r.choice([1, 2, 4]),
            'kind': r.choice(['intr', 'oom', 'num']), 'pick': r.random()})
    return {'seed': seed, 'listing': 'shuffle', 'n_dim': n_dim, 'n_in': n_in,
            'channels': channels, 'mode': r.choice(['identity', 'additive',
                                                    'additive']),
            'norm_out': r.random() < 0.4, 'order': r.randint(0, 10**6),
            'dtype': r.choice(['f32', 'f64']), 'ops': ops,
            'ids': sorted(r.sample(range(9), 3)),
            'col': sorted(r.sample(range(12), 3))}


def gen_channel(r, n_in, n):
    """A chain whose last part gives n features."""
    parts, width = [], n_in
    length = r.choice([1, 1, 2, 3])
    for k in range(length):
        last = k == length - 1
        residual = r.random() < 0.25
        w = width + (n_in if residual else 0)
        opts = []
        out = n if last or n == 3 or r.random() < 0.6 else 7
        opts += ['gru', 'gru']
        if not last or w == n:
            opts += ['poly']
        if w in (n, 2*n) and out == n:
            opts += ['elastic', 'elastic2'] * (2 if w == 2*n else 1)
        if n == 6 and w == 7 and out == 6:
            opts += ['voldev']*4
        if k == 0 and w == n and out == n:
            opts += ['rc']
        kind = r.choice(opts)
        if kind == 'poly':
            out = w
        parts.append({
            'kind': kind, 'in': w, 'out': out, 'residual': residual,
            'hidden': r.choice([2, 3]), 'layers': r.choice([1, 1, 2]),
            'source': r.choice(['torch', 'custom']),
            'deg': r.choice([1, 2, 3]), 'bias': r.random() < 0.5,
            'norm_in': kind in ('gru', 'rc', 'poly') and r.random() < 0.4,
            'norm_out': kind in ('gru', 'poly') and r.random() < 0.4,
            'sym': r.choice(sorted(SYM)), 'moduli': r.random() < 0.7,
            'mat': r.choice(['elastic', 'von_mises_vmap']),
            'tag': r.randint(0, 10**6),
            'scaling': r.choice(['mean-std', 'min-max'])})
        width = out
    return parts


def shrink(scn):
    for c in range(len(scn['channels'])):
        if len(scn['channels']) > 1:
            new = build.snapshot(scn)
            del new['channels'][c]
            yield new
        for k, p in enumerate(scn['channels'][c]):
            for key in ('norm_in', 'norm_out'):
                if p[key]:
                    new = build.snapshot(scn)
                    new['channels'][c][k][key] = False
                    yield new
    for key, val in (('norm_out', False), ('mode', 'identity')):
        if scn[key] != val:
            new = build.snapshot(scn)
            new[key] = val
            yield new


# ------------------------------------------------------------------- reference
def moduli(p):
    r = np.random.Generator(np.random.PCG64(p['tag']))
    return {m: float(r.uniform(80, 120) if m[1:3] == m[3:5] and m[1] == m[2]
                     else r.uniform(20, 40)) for m in SYM[p['sym']]}


def stiffness(p):
    """Elasticity in components (11, 22, 33, 12, 23, 13), engineering-free."""
    if p['sym'] == 'isotropic' and not p['moduli']:
        E, v = properties(p)['E'], properties(p)['v']
        lam = E*v/((1 + v)*(1 - 2*v))
        m = {'E1111': lam + E/(1 + v), 'E1122': lam}
    else:
        m = moduli(p)
    g = m.get
    e11 = m['E1111']
    e22 = g('E2222', e11)
    e33 = g('E3333', e11)
    e12 = m['E1122']
    e13 = g('E1133', e12)
    e23 = g('E2233', e13)
    g12 = g('E1212', 0.5*(e11 - e12))
    g23 = g('E2323', 0.5*(e11 - e12))
    g13 = g('E1313', g23)
    C = np.zeros((6, 6))
    C[:3, :3] = [[e11, e12, e13], [e12, e22, e23], [e13, e23, e33]]
    C[3, 3], C[4, 4], C[5, 5] = 2*g12, 2*g23, 2*g13
    return C


def properties(p):
    if p['sym'] == 'isotropic' and not p['moduli']:
        return {'E': 90.0 + p['tag'] % 20, 'v': 0.3}
    return moduli(p)


class Part:
    def __init__(self, spec, n_dim):
        self.spec, self.n_dim = spec, n_dim
        self.kind = spec['kind']
        self.values = None
        self.scal = None
        if spec['norm_in'] or spec['norm_out']:
            self.scal = Scaling(spec['tag'], spec['in'], spec['out'],
                                spec['scaling'])

    def core(self, x):
        p, kind = self.spec, self.kind
        if kind == 'gru':
            return gru_reference(self.values, p['layers'], p['hidden'], x)
        if kind == 'poly':
            cols = []
            for i in range(p['in']):
                w = self.values[i].double().reshape(-1)
                lo = 0 if p['bias'] else 1
                cols.append(sum(w[k]*x[..., i]**(lo + k)
                                for k in range(len(w))))
            return torch.stack(cols, -1)
        if kind == 'voldev':
            y = x[..., 1:].clone()
            y[..., :3] += x[..., :1]
            return y
        if kind in ('elastic', 'elastic2'):
            n = 6 if self.n_dim == 3 else 3
            if p['in'] == 2*n:
                a, b = x[..., :n], x[..., n:]
                x = b - a if kind == 'elastic' else a - b
            C = stiffness(p)
            if n == 3:
                C = C[np.ix_([0, 1, 3], [0, 1, 3])]
            return x @ torch.tensor(C).T
        args = rc_kwargs(p, self.n_dim)
        args['material_model_name'] = p['mat'].replace('_vmap', '')
        args['learnable_parameters']['E']['initial_value'] = float(
            self.values[0])
        model = build.model_class('rc')(**args,
                                        is_save_model_init_file=False)
        old = torch.get_default_dtype()
        with torch.no_grad():
            return model(x.to(old)).double()

    def full(self, x):
        if self.spec['norm_in']:
            x = self.scal('features_in', x)
        y = self.core(x)
        if self.spec['norm_out']:
            y = self.scal('features_out', y, True)
        return y


def rc_kwargs(p, n_dim):
    args = build.rc_args(None, material=p['mat'], learn=('E',),
                         norm_in=p['norm_in'])
    args.update(n_features_in=p['in'], n_features_out=p['out'],
                problem_type=4 if n_dim == 3 else 1)
    return args


def make_part(part):
    """The real part and how it is handed to the hybrid model."""
    p, kind = part.spec, part.kind
    problem = 4 if part.n_dim == 3 else 1
    base = 'model_architectures.hybrid_base_model.model.'
    import importlib
    if kind == 'gru':
        cls = build.model_class('gru')
        args = build.gru_args(None, hidden=p['hidden'], layers=p['layers'],
                              source=p['source'], norm_in=p['norm_in'],
                              norm_out=p['norm_out'], n_in=p['in'],
                              n_out=p['out'])
    elif kind == 'rc':
        cls, args = build.model_class('rc'), rc_kwargs(p, part.n_dim)
    elif kind == 'voldev':
        cls = importlib.import_module(
            base + 'hybridized_layers').VolDevCompositionModel
        args = {}
    elif kind == 'poly':
        cls = importlib.import_module(
            base + 'transfer_learning').PolynomialLinearRegressor
        args = dict(n_features_in=p['in'], poly_degree=p['deg'],
                    is_bias=p['bias'], is_model_in_normalized=p['norm_in'],
                    is_model_out_normalized=p['norm_out'])
    else:
        mod = 'hybridized_layers' if kind == 'elastic' else 'transfer_learning'
        cls = importlib.import_module(base + mod).BatchedElasticModel
        args = dict(problem_type=problem, elastic_properties=properties(p),
                    elastic_symmetry=p['sym'])
    return cls, args


# ----------------------------------------------------------------------- world
class World:
    def __init__(self, ctx):
        from model_architectures.hybrid_base_model.model.hybrid_model import \
            HybridModel
        self.ctx, self.scn = ctx, ctx.scn
        scn = self.scn
        self.n_out = 6 if scn['n_dim'] == 3 else 3
        self.dir = os.path.join(ctx.scratch, 'hybrid')
        os.mkdir(self.dir)
        torch.manual_seed(scn['seed'] % 2**31)
        self.parts = [[Part(p, scn['n_dim']) for p in ch]
                      for ch in scn['channels']]
        entries = []
        for c, ch in enumerate(self.parts):
            for k, part in enumerate(ch):
                entries.append((f'c{c}p{k}', part,
                                (scn['ids'][c], scn['col'][k])))
        rng(scn['order'], 'order').shuffle(entries)
        self.hyb = {}
        for name, part, idx in entries:
            self.hyb[name] = self.wrap(part, idx)
            part.values = [v.detach().clone() for v in
                           self.hyb[name]['hyb_model'].parameters()]
        self.scal = Scaling(scn['order'], scn['n_in'], self.n_out, 'mean-std')
        self.model = ctx.must('build hybrid model', HybridModel,
                              **self.args(self.hyb, self.dir))
        if scn['norm_out']:
            self.set_scaler(self.model, self.scal)
        self.refresh()
        self.dirty = False

    def wrap(self, part, idx):
        from model_architectures.hybrid_base_model.model.hybridized_model \
            import set_hybridized_model
        cls, args = make_part(part)
        return self.ctx.must(
            f'prepare {part.kind}', set_hybridized_model, cls, idx,
            model_init_args=args, is_input_residual=part.spec['residual'],
            data_scalers=part.scal.objects() if part.scal else None)

    def args(self, hyb, directory):
        return dict(n_features_in=self.scn['n_in'], n_features_out=self.n_out,
                    hyb_models_dict=hyb, model_directory=directory,
                    model_name='hybrid_model',
                    hybridization_type=self.scn['mode'],
                    is_model_in_normalized=False,
                    is_model_out_normalized=self.scn['norm_out'],
                    device_type='cpu')

    def set_scaler(self, model, scal):
        from model_architectures.procedures.model_data_scaling import \
            set_data_scalers
        obj = scal.objects()
        self.ctx.must('set data scalers', set_data_scalers, model,
                      obj['features_in'], obj['features_out'])

    def refresh(self):
        self.live = {(c, k): self.ctx.must(
            'get hybridised model', self.model.get_hybridized_model,
            f'c{c}p{k}') for c, ch in enumerate(self.parts)
            for k in range(len(ch))}

    def reference(self, x):
        """Expected output and the largest intermediate magnitude."""
        outs, size = [], 0.0
        for ch in self.parts:
            y = x
            for part in ch:
                if part.spec['residual']:
                    y = torch.cat((y, x), -1)
                y = part.full(y)
                size = max(size, float(y.abs().max()))
            outs.append(y)
        y = outs[0] if self.scn['mode'] == 'identity' else sum(outs)
        if self.scn['norm_out']:
            y = self.scal('features_out', y)
            size = max(size, float(y.abs().max()),
                       size/float(self.scal.ab['features_out'][1].min()))
        return y, size

    def inputs(self, op):
        g = torch.Generator().manual_seed(op['tag'])
        x = 0.01*torch.randn((op['n_time'], max(op['n_path'], 1),
                              self.scn['n_in']), generator=g,
                             dtype=torch.float64).cumsum(0)
        x = (x - x[:1] if op['tag'] % 2 else x).to(torch.get_default_dtype())
        if op['n_path'] == 0:
            return x[:, 0].contiguous()
        return x


def run(ctx):
    scn = ctx.scn
    torch.set_default_dtype(torch.float32 if scn['dtype'] == 'f32'
                            else torch.float64)
    fs = SimFS(ctx.scratch, ctx, listing=scn['listing'])
    try:
        with fs.installed():
            w = World(ctx)
            note(ctx, scn)
            after = False
            for op in scn['ops']:
                ctx.step()
                if after:
                    ctx.probe('after_fault')
                ctx.must('switch mode', w.model.train, not op.get('eval'))
                if op.get('eval'):
                    ctx.probe('evaluation_mode')
                OPS[op['op']](w, op)
                after |= op['op'] == 'fault'
                ctx.state([[[p['kind'] for p in c] for c in scn['channels']],
                           op['op']])
            evaluate(w, {'tag': 3, 'n_path': 2, 'n_time': 3}, 'response')
    finally:
        torch.set_default_dtype(torch.float32)
    ctx.nontrivial |= w.dirty and (len(scn['channels']) > 1
                                   or len(scn['channels'][0]) > 1)


def note(ctx, scn):
    flat = [p for c in scn['channels'] for p in c]
    for p in flat:
        ctx.probe(p['kind'])
    for cond, name in (
            (any(len(c) > 1 for c in scn['channels']), 'chain'),
            (len(scn['channels']) > 1, 'channels'),
            (any(p['residual'] for p in flat), 'residual'),
            (any(p['norm_in'] for p in flat), 'part_in_norm'),
            (any(p['norm_out'] for p in flat), 'part_out_norm'),
            (any(p['kind'].startswith('elastic') and p['sym'] != 'isotropic'
                 for p in flat), 'anisotropic'),
            (scn['norm_out'], 'out_norm'), (scn['n_dim'] == 2, 'plane'),
            (scn['n_in'] == 7, 'seven_in')):
        if cond:
            ctx.probe(name)
    ctx.probe(scn['mode'])


def compare(w, x, got, what):
    ctx = w.ctx
    xb = x.double()
    single = xb.dim() == 2
    want, size = w.reference(xb[:, None] if single else xb)
    if single:
        want = want[:, 0]
    tol = (1e-3 if w.scn['dtype'] == 'f32' else 1e-5)*(size + 1e-3)
    ctx.check(got.shape == want.shape, 'shape', lambda:
              f'{what} of shape {tuple(got.shape)}, expected '
              f'{tuple(want.shape)}')
    err = (got.detach().double() - want).abs()
    ctx.check(bool((err <= tol).all()), 'wrong-response', lambda:
              f'{what} of {[[p["kind"] for p in c] for c in w.scn["channels"]]}'
              f' deviates by {float(err.max()):.3g} (tolerance {tol:.3g})')


def evaluate(w, op, what):
    x = w.inputs(op)
    keep = x.clone()
    w.ctx.probe('unbatched' if op['n_path'] == 0 else 'batched')
    with torch.no_grad():
        got = w.ctx.must('evaluate hybrid model', w.model, x)
    w.ctx.check(torch.equal(x, keep), 'input-changed',
                'evaluation changed its input')
    compare(w, x, got, what)
    values(w, what)
    w.ctx.log(what, [round(float(v), 4) for v in got.reshape(-1)[-2:]])


def values(w, what):
    """Parameters of every part, and the report of the explicit ones."""
    ctx, table = w.ctx, {}
    for (c, k), m in w.live.items():
        part = w.parts[c][k]
        ctx.check(all(torch.equal(a.detach(), b) for a, b in
                      zip(m.parameters(), part.values)), 'parameters',
                  f'{what}: parameters of {part.kind} changed')
        if part.kind == 'rc':
            table[f'c{c}p{k}_E'] = float(part.values[0])
    got = ctx.must('get parameters', w.model.get_detached_model_parameters)
    bounds = ctx.must('get bounds', w.model.get_model_parameters_bounds)
    ctx.check(set(got) == set(table) == set(bounds) and all(
        abs(float(got[n]) - table[n]) <= 1e-4 for n in table), 'parameters',
        lambda: f'{what}: reported parameters {got}, bounds {bounds}, '
        f'expected {table}')
    if table:
        ctx.probe('named_parameters')


def op_eval(w, op):
    evaluate(w, op, 'response')


def op_perturb(w, op):
    g = torch.Generator().manual_seed(op['tag'])
    for (c, k), m in w.live.items():
        part = w.parts[c][k]
        with torch.no_grad():
            for p in m.parameters():
                u = torch.rand(p.shape, generator=g, dtype=torch.float64)
                p.copy_(60.0 + 80.0*u if part.kind == 'rc' else u - 0.5)
        part.values = [p.detach().clone() for p in m.parameters()]
    w.dirty = True
    w.ctx.probe('perturbed')


def op_scaler(w, op):
    """Another normalisation of a part or of the hybrid model."""
    parts = [p for ch in w.parts for p in ch if p.scal]
    if w.scn['norm_out'] and (op['pick'] < 0.4 or not parts):
        w.scal = Scaling(op['tag'], w.scn['n_in'], w.n_out, 'min-max')
        w.set_scaler(w.model, w.scal)
    elif parts:
        part = parts[int(op['pick']*len(parts))]
        key = next((c, k) for c, ch in enumerate(w.parts)
                   for k, p in enumerate(ch) if p is part)
        part.scal = Scaling(op['tag'], part.spec['in'], part.spec['out'],
                            part.spec['scaling'])
        m = w.live[key]
        if part.kind == 'poly':
            o = part.scal.objects()
            m.set_data_scalers(o['features_in'], o['features_out'])
        else:
            m_save = getattr(m, '_is_save_model_init_file', False)
            w.ctx.check(not m_save, 'harness', 'part would be stored')
            w.set_scaler(m, part.scal)
    else:
        return
    w.dirty = True
    w.ctx.probe('scaler')
    evaluate(w, op, 'response after another normalisation')


def op_reload(w, op):
    from model_architectures.hybrid_base_model.model.hybrid_model import \
        HybridModel
    from model_architectures.procedures.model_state_files import (
        load_model_state, save_model_state)
    ctx = w.ctx
    ctx.must('save description', w.model.save_model_init_file)
    ctx.must('save state', save_model_state, w.model, epoch=op['id'])
    w.model = ctx.must('load model', HybridModel.init_model_from_file, w.dir)
    ctx.must('load state', load_model_state, w.model,
             model_load_state=op['id'])
    w.model.eval()
    w.refresh()
    w.dirty = True
    ctx.probe('reload')
    evaluate(w, op, 'response of the reloaded model')


def op_part(w, op):
    """A part used on its own gives its own response."""
    keys = sorted(w.live)
    c, k = keys[int(op['pick']*len(keys))]
    part, m = w.parts[c][k], w.live[(c, k)]
    g = torch.Generator().manual_seed(op['tag'])
    shape = (op['n_time'], max(op['n_path'], 1), part.spec['in'])
    x = 0.01*torch.randn(shape, generator=g, dtype=torch.float64)
    x[0] = 0.0
    x = x.to(torch.get_default_dtype())
    keep = x.clone()
    with torch.no_grad():
        got = w.ctx.must(f'evaluate {part.kind}', m, x)
    got = got[0] if isinstance(got, tuple) else got
    w.ctx.check(torch.equal(x, keep), 'input-changed',
                f'evaluation of {part.kind} changed its input')
    want = part.core(x.double())
    tol = (1e-3 if w.scn['dtype'] == 'f32' else 1e-5)*(
        float(want.abs().max()) + 1e-3)
    w.ctx.check(got.shape == want.shape and bool(
        ((got.double() - want).abs() <= tol).all()), 'wrong-part', lambda:
        f'{part.kind} gives {got.reshape(-1)[-3:].tolist()} instead of '
        f'{want.reshape(-1)[-3:].tolist()}')
    w.ctx.probe('part_alone')
    values(w, 'part')


def op_fault(w, op):
    ctx = w.ctx
    x = w.inputs(op)
    keep = x.clone()
    box = [0]
    with count_calls(box), torch.no_grad():
        ctx.must('evaluate hybrid model', w.model, x)
    got = None
    try:
        with fault_at(ctx, 1 + int(op['pos']*box[0]), op['kind']), \
                torch.no_grad():
            got = w.model(x)
    except (Exception, KeyboardInterrupt) as exc:
        if isinstance(exc, Violation):
            raise
    ctx.probe('fault')
    w.dirty = True
    ctx.check(torch.equal(x, keep), 'input-changed',
              'failed evaluation changed its input')
    ctx.check(torch.get_default_dtype() == (
        torch.float32 if w.scn['dtype'] == 'f32' else torch.float64),
        'default-dtype', 'failed evaluation left another default precision')
    if got is not None:
        compare(w, x, got, 'response after a failure')
    values(w, 'failure')


def op_refuse(w, op):
    """Contradictory specifications are refused and change nothing."""
    from model_architectures.hybrid_base_model.model.hybrid_model import \
        HybridModel
    ctx = w.ctx
    what = ['twice', 'type', 'scaler'][op['tag'] % 3]
    hyb = dict(w.hyb)
    args = w.args(hyb, w.dir)
    if what == 'twice':
        name = sorted(hyb)[0]
        hyb['again'] = dict(hyb[name])
    elif what == 'type':
        args['hybridization_type'] = 'average'
    else:
        side = op['tag']//3 % 2 == 0
        part = Part(dict(w.scn['channels'][0][0], kind='poly', norm_in=side,
                         norm_out=not side,
                         **{'in': w.scn['n_in'], 'out': w.scn['n_in'],
                            'residual': False}), w.scn['n_dim'])
        part.scal = None
        data = w.wrap(part, (20, 0))
        hyb['extra'] = data
    names = {f: open(os.path.join(w.dir, f), 'rb').read()
             for f in sorted(os.listdir(w.dir))}
    try:
        HybridModel(**args)
    except RuntimeError:
        ctx.probe('refused')
    else:
        raise Violation('not-refused', f'hybrid model with {what}')
    now = {f: open(os.path.join(w.dir, f), 'rb').read()
           for f in sorted(os.listdir(w.dir))}
    ctx.check(names == now, 'not-refused', 'refused model changed the files')
    evaluate(w, op, 'response after a refused model')


def op_grad(w, op):
    """Directional derivative against the reference."""
    ctx = w.ctx
    if w.scn['dtype'] == 'f32' or any(p.kind == 'rc' for ch in w.parts
                                      for p in ch):
        return
    x = w.inputs(op)
    par = [p for m in w.live.values() for p in m.parameters()]
    if not par:
        return
    w.model.zero_grad()
    out = ctx.must('evaluate hybrid model', w.model, x)
    g = torch.Generator().manual_seed(op['tag'])
    wt = torch.rand(out.shape, generator=g, dtype=torch.float64) - 0.5
    if not out.requires_grad:
        ctx.check(w.scn['mode'] == 'identity', 'gradient', 'no gradient')
        return
    ctx.must('gradient', (out*wt).sum().backward)
    ds = {key: [torch.rand(v.shape, generator=g, dtype=torch.float64) - 0.5
                for v in w.parts[key[0]][key[1]].values] for key in w.live}
    got = sum(float((p.grad*d).sum()) for key, m in w.live.items()
              for p, d in zip(m.parameters(), ds[key]) if p.grad is not None)
    keep = {key: w.parts[key[0]][key[1]].values for key in w.live}
    xb = x[:, None] if x.dim() == 2 else x
    wb = wt[:, None] if x.dim() == 2 else wt

    def along(h):
        for key in w.live:
            w.parts[key[0]][key[1]].values = [
                v + h*d for v, d in zip(keep[key], ds[key])]
        y, size = w.reference(xb)
        for key in w.live:
            w.parts[key[0]][key[1]].values = keep[key]
        return float((y*wb).sum()), size
    est = []
    for h in (1e-5, 5e-6):
        a, size = along(h)
        b, _ = along(-h)
        est.append((a - b)/(2*h))
    scale = abs(est[1]) + 1e-4*size
    if abs(est[0] - est[1]) > 1e-3*scale:
        return
    ctx.check(abs(got - est[1]) <= 1e-2*scale, 'gradient', lambda:
              f'derivative {got}, the response changes by {est[1]}')
    ctx.probe('gradient')
    w.model.zero_grad()
    values(w, 'gradient')


OPS = {'eval': op_eval, 'perturb': op_perturb, 'scaler': op_scaler,
       'reload': op_reload, 'part': op_part, 'fault': op_fault,
       'refuse': op_refuse, 'grad': op_grad}
