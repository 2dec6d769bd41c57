"""Small specimens for the material model finder and their reference loss."""
import importlib
import itertools

import numpy as np
import torch

from dst import build
from dst.core import rng

COMPS = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}


# ------------------------------------------------------------------- specimens
# Reference geometry of the elements: corner and midside nodes in local
# coordinates, in the numbering of the element library.
_QUAD = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
_HEXA = [(x, y, z) for z in (-1, 1) for x, y in _QUAD]
_TRI = [(0, 0), (1, 0), (0, 1)]
_TETRA = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
_EDGES = {'tri': [(0, 1), (1, 2), (2, 0)],
          'quad': [(0, 1), (1, 2), (2, 3), (3, 0)],
          'tetra': [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)],
          'hexa': [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 5), (2, 6),
                   (3, 7), (4, 5), (5, 6), (6, 7), (7, 4)]}
# Kind: shape, corner nodes, quadratic or not, integration points
KINDS = {'tri3': ('tri', _TRI, False, 1), 'tri6': ('tri', _TRI, True, 3),
         'tri6r': ('tri', _TRI, True, 1),
         'quad4': ('quad', _QUAD, False, 4),
         'quad4r': ('quad', _QUAD, False, 1),
         'quad8': ('quad', _QUAD, True, 9), 'quad8r': ('quad', _QUAD, True, 4),
         'tetra4': ('tetra', _TETRA, False, 1),
         'tetra4f': ('tetra', _TETRA, False, 4),
         'tetra10': ('tetra', _TETRA, True, 4),
         'hexa8': ('hexa', _HEXA, False, 8),
         'hexa8r': ('hexa', _HEXA, False, 1),
         'hexa20': ('hexa', _HEXA, True, 27),
         'hexa20r': ('hexa', _HEXA, True, 8)}


def local_nodes(kind):
    shape, corners, quadratic, _ = KINDS[kind]
    out = [tuple(float(x) for x in c) for c in corners]
    if quadratic:
        out += [tuple(0.5*(a + b) for a, b in zip(corners[i], corners[j]))
                for i, j in _EDGES[shape]]
    return out


def monomials(kind):
    """Exponents of the polynomials that span the shape functions."""
    shape, corners, quadratic, _ = KINDS[kind]
    dim = len(corners[0])
    every = itertools.product(range(3), repeat=dim)
    if shape in ('tri', 'tetra'):
        return [p for p in every if sum(p) <= (2 if quadratic else 1)]
    if quadratic:
        # Serendipity: superlinear degree at most two
        return [p for p in every if sum(x for x in p if x > 1) <= 2]
    return [p for p in every if max(p) <= 1]


def rule(kind):
    """Integration points and weights, the first coordinate fastest."""
    shape, corners, _, n = KINDS[kind]
    dim = len(corners[0])
    if shape in ('quad', 'hexa'):
        x, w = np.polynomial.legendre.leggauss(round(n**(1/dim)))
        out = []
        for idx in itertools.product(range(len(x)), repeat=dim):
            idx = idx[::-1]
            out.append((np.array([x[i] for i in idx]),
                        float(np.prod([w[i] for i in idx]))))
        return out
    if n == 1:
        return [(np.full(dim, 1/(dim + 1)), 0.5 if dim == 2 else 1/6)]
    if shape == 'tri':
        a, b = 1/6, 2/3
        return [(np.array(p), 1/6) for p in ((a, a), (b, a), (a, b))]
    a = (5 - np.sqrt(5))/20
    b = (5 + 3*np.sqrt(5))/20
    return [(np.array(p), 1/24) for p in ((a, a, a), (b, a, a), (a, b, a),
                                          (a, a, b))]


def element(kind):
    shape, _, quadratic, n_gauss = KINDS[kind]
    name = shape + str(len(local_nodes(kind)))
    module = importlib.import_module('simulators.fetorch.element.type.' + name)
    return getattr(module, 'FE' + name.capitalize())(n_gauss=n_gauss)


MESHES = {
    'tri3': ([(0, 0), (1, 0), (0, 1), (1, 1), (2, 0)],
             [(0, 1, 2), (1, 3, 2), (1, 4, 3)]),
    'quad4': ([(0, 0), (1, 0), (1, 1), (0, 1), (2, 0), (2, 1)],
              [(0, 1, 2, 3), (1, 4, 5, 2)]),
    'tetra4': ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)],
               [(0, 1, 2, 3), (1, 2, 3, 4)]),
    'hexa8r': ([(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
                (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1),
                (0, 0, 2), (1, 0, 2), (1, 1, 2), (0, 1, 2)],
               [(0, 1, 2, 3, 4, 5, 6, 7), (4, 5, 6, 7, 8, 9, 10, 11)])}


def refine(kind):
    """Corner mesh with the midside nodes of a quadratic element."""
    base = {'tri': 'tri3', 'quad': 'quad4', 'tetra': 'tetra4',
            'hexa': 'hexa8r'}[KINDS[kind][0]]
    nodes, elems = MESHES[base]
    if kind == base or not KINDS[kind][2]:
        return nodes, elems
    nodes, mid, out = list(nodes), {}, []
    for e in elems:
        more = []
        for i, j in _EDGES[KINDS[kind][0]]:
            key = (min(e[i], e[j]), max(e[i], e[j]))
            if key not in mid:
                mid[key] = len(nodes)
                nodes.append(tuple(0.5*(a + b) for a, b in
                                   zip(nodes[e[i]], nodes[e[j]])))
            more.append(mid[key])
        out.append(tuple(e) + tuple(more))
    return nodes, out


for _kind in KINDS:
    MESHES.setdefault(_kind, refine(_kind))


PLANE = ('tri3', 'tri3', 'quad4', 'quad4', 'tri6', 'tri6r', 'quad4r', 'quad8r',
         'quad8')
SOLID = ('tetra4', 'tetra4', 'hexa8r', 'hexa8r', 'tetra4f', 'tetra10',
         'hexa8')


def gen_specimen(r, kinds=None):
    """Scenario of one specimen (plain JSON)."""
    if kinds is None:
        kinds = (PLANE if r.random() < 0.6 else
                 SOLID + (('hexa20r',) if r.random() < 0.3 else ()))
    kind = r.choice(kinds)
    nodes, elems = MESHES[kind]
    n_elem = r.randint(1, len(elems))
    return {'mesh': kind, 'n_elem': n_elem, 'n_time': r.choice([1, 2, 3, 4]),
            'tag': r.randint(0, 10**6),
            'scale': r.choice([0.005, 0.02, 0.05]),
            'bc': r.choice(['some', 'some', 'some', 'all', 'none']),
            'n_sets': r.choice([1, 2, 3]),
            'reaction': r.choice(['random', 'random', 'zero'])}


class Specimen:
    """Numerical data of one specimen, real and plain."""

    def __init__(self, spec, loss_type):
        from material_model_finder.data.specimen_data import \
            SpecimenNumericalData
        r = rng(spec['tag'], 'specimen')
        nodes, elems = MESHES[spec['mesh']]
        elems = elems[:spec['n_elem']]
        used = sorted({n for e in elems for n in e})
        order = list(used)
        r.shuffle(order)
        label = {n: i for i, n in enumerate(order)}
        self.n_dim = len(nodes[0])
        self.n_node = len(used)
        self.n_time = spec['n_time']
        gen = np.random.Generator(np.random.PCG64(spec['tag']))
        coords = np.zeros((self.n_node, self.n_dim))
        for n in used:
            coords[label[n]] = nodes[n]
        coords += gen.uniform(-0.1, 0.1, coords.shape)
        self.conn = [[label[n] for n in e] for e in elems]
        r.shuffle(self.conn)
        shape = (self.n_node, self.n_dim, self.n_time)
        disps = (gen.standard_normal(shape)*spec['scale']).cumsum(axis=2)
        disps[:, :, 0] = 0.0
        reac = gen.standard_normal(shape)*spec['scale']*50.0
        if spec['reaction'] == 'zero':
            reac[:] = 0.0
        # Constraint labels
        bc = np.zeros((self.n_node, self.n_dim), dtype=int)
        n_sets = spec['n_sets']
        for i, j in itertools.product(range(self.n_node), range(self.n_dim)):
            if spec['bc'] == 'none':
                break
            if spec['bc'] == 'all' or r.random() < 0.5:
                # Every set belongs to a single dimension; labels may be sparse
                bc[i, j] = 1 if loss_type == 'pointwise' else (
                    1 + 2*(j + self.n_dim*r.randrange(n_sets)))
        self.bc = bc
        self.loss_type = loss_type
        self.kind = spec['mesh']
        self.type = element(self.kind)
        self.coords = torch.tensor(coords, dtype=torch.float32)
        self.disps = torch.tensor(disps, dtype=torch.float32)
        self.reac = torch.tensor(reac, dtype=torch.float32)
        self.time = torch.arange(self.n_time, dtype=torch.float32)
        data = SpecimenNumericalData()
        types = {str(i + 1): element(self.kind)
                 for i in range(len(self.conn))}
        data.set_specimen_mesh(
            self.coords.clone(), types,
            {str(i + 1): [n + 1 for n in c] for i, c in enumerate(self.conn)},
            torch.tensor((bc > 0).astype(int)))
        bch = torch.tensor(bc)[:, :, None].expand(-1, -1, self.n_time).clone()
        data.set_specimen_data(self.disps.clone(), self.reac.clone(), bch,
                               self.time.clone())
        self.data = data
        self.types = types

    def unchanged(self):
        d = self.data
        return (torch.equal(d.nodes_disps_mesh_hist, self.disps)
                and torch.equal(d.reaction_forces_mesh_hist, self.reac)
                and torch.equal(d.time_hist, self.time)
                and torch.equal(d.dirichlet_bc_mesh_hist[:, :, -1],
                                torch.tensor(self.bc))
                and torch.equal(d.specimen_mesh.get_mesh_configuration(
                    time='init')[0], self.coords))

    # --------------------------------------------------------------- reference
    def gradients(self):
        """{element: [(weight*detJ, dN/dx)]} by fitting the shape functions."""
        nloc = np.array(local_nodes(self.kind))
        n_node, n_dim = nloc.shape
        powers = monomials(self.kind)
        vander = np.array([[np.prod([x**p for x, p in zip(pt, pw)])
                            for pw in powers] for pt in nloc])
        coef = np.linalg.inv(vander)
        out = []
        for conn in self.conn:
            xe = self.coords[conn].numpy().astype(float)
            rows = []
            for pt, w in rule(self.kind):
                dloc = np.zeros((n_node, n_dim))
                for j in range(n_dim):
                    dv = np.array([
                        (pw[j]*np.prod([x**(p - (1 if i == j else 0))
                                        if not (i == j and p == 0) else 0.0
                                        for i, (x, p) in
                                        enumerate(zip(pt, pw))]))
                        for pw in powers])
                    dloc[:, j] = dv @ coef
                jac = xe.T @ dloc
                dx = dloc @ np.linalg.inv(jac)
                rows.append((w*np.linalg.det(jac),
                             torch.tensor(dx, dtype=torch.float32)))
            out.append(rows)
        return out

    def response(self, materials):
        """Internal forces and local paths for {element index: callable}."""
        comps = COMPS[self.n_dim]
        forces = torch.zeros(self.n_node, self.n_dim, self.n_time)
        paths = []
        for e, rows in enumerate(self.gradients()):
            conn = self.conn[e]
            for w, dx in rows:
                strains = []
                for t in range(self.n_time):
                    h = self.disps[conn, :, t].T @ dx
                    eps = 0.5*(h + h.T)
                    strains.append(torch.stack(
                        [eps[int(c[0]) - 1, int(c[1]) - 1] for c in comps]))
                strain = torch.stack(strains)
                stress = materials[e](strain)
                for t in range(self.n_time):
                    sig = [[None]*self.n_dim for _ in range(self.n_dim)]
                    for k, c in enumerate(comps):
                        i, j = int(c[0]) - 1, int(c[1]) - 1
                        sig[i][j] = sig[j][i] = stress[t, k]
                    sig = torch.stack([torch.stack(row) for row in sig])
                    add = torch.zeros(self.n_node, self.n_dim)
                    add = add.index_add(0, torch.tensor(conn), dx @ sig)
                    step = torch.zeros(self.n_time)
                    step[t] = w
                    forces = forces + add[:, :, None]*step
                paths.append((strain.detach(), stress.detach()))
        return forces, paths

    def loss(self, forces, weights, factor, limits=None):
        """Reference loss, its components and the size of its terms."""
        bc = torch.tensor(self.bc)
        scale = torch.ones(self.n_dim)
        if limits is not None:
            scale = 2.0/(limits[1] - limits[0])
        total, comps, size = 0.0, [], 0.0
        reactions = []
        for t in range(self.n_time):
            res = (forces[:, :, t] - torch.where(
                bc > 0, self.reac[:, :, t], torch.tensor(0.0)))*scale
            free = torch.sum(torch.where(bc == 0, res,
                                         torch.tensor(0.0))**2)
            labels = sorted(set(self.bc.ravel().tolist()))
            if self.loss_type == 'pointwise':
                fixed = torch.sum(torch.where(bc > 0, res,
                                              torch.tensor(0.0))**2)
            else:
                fixed = torch.tensor(0.0)
                for lab in labels:
                    if lab > 0:
                        fixed = fixed + torch.sum(torch.where(
                            bc == lab, res, torch.tensor(0.0)))**2
            reactions.append([float(torch.sum(torch.where(
                bc == lab, forces[:, :, t].detach(), torch.tensor(0.0))))
                for lab in labels])
            coef = weights[t]*factor
            total = total + coef*(free + fixed)
            comps.append([float(coef*(free + fixed)), float(coef*free),
                          float(coef*fixed)])
            size += float(coef)*float(torch.sum(
                (forces[:, :, t].detach()*scale).abs()
                + (self.reac[:, :, t]*scale).abs()))**2
        return total, np.array(comps).T, size, np.array(reactions).T


# ------------------------------------------------------------------- materials
def gen_material(r, vmap_only=False):
    kind = r.choice(['rc', 'rc', 'rc', 'gru', 'hybrid'])
    mats = ['von_mises_vmap', 'von_mises_vmap', 'von_mises_mixed_vmap',
            'drucker_prager_vmap']
    if not vmap_only:
        mats += ['elastic', 'elastic', 'von_mises']
    mat = r.choice(mats)
    learn = ['E', 'v'] if mat == 'elastic' else ['E', 's0', 'a']
    return {'kind': kind, 'material': mat,
            'learn': sorted(r.sample(learn, r.randint(1, len(learn)))),
            'norm_par': r.random() < 0.5, 'auto_sync': r.random() < 0.5,
            'norm_in': r.random() < 0.4, 'norm_out': r.random() < 0.4,
            'scaling': r.choice(['mean-std', 'min-max']),
            'hidden': r.choice([2, 3]), 'seed': r.randint(0, 10**6)}


def scalers(mat, n):
    gen = np.random.Generator(np.random.PCG64(mat['seed']))
    out = {}
    for key, size in (('features_in', 0.02), ('features_out', 3.0)):
        a = torch.tensor(gen.uniform(-0.3, 0.3, n)*size, dtype=torch.float32)
        b = torch.tensor(gen.uniform(0.5, 1.5, n)*size, dtype=torch.float32)
        if mat['scaling'] == 'mean-std':
            out[key] = {'mean': a, 'std': b}
        else:
            out[key] = {'minimum': a - b, 'maximum': a + b}
    return out


def norm(mat, par, x, inverse=False):
    if mat['scaling'] == 'mean-std':
        shift, scale = par['mean'], par['std']
    else:
        shift = 0.5*(par['minimum'] + par['maximum'])
        scale = 0.5*(par['maximum'] - par['minimum'])
    return x*scale + shift if inverse else (x - shift)/scale


def rc_kwargs(mat, n_dim, directory, plain=False):
    material = mat['material']
    if plain:
        material = material.replace('_vmap', '')
    n = len(COMPS[n_dim])
    args = build.rc_args(directory, material=material, learn=mat['learn'],
                         norm_par=mat['norm_par'])
    if 'par' in mat:
        args['learnable_parameters'] = {
            k: {'initial_value': p['init'], 'bounds': (p['lo'], p['hi'])}
            for k, p in mat['par'].items()}
    args.update(n_features_in=n, n_features_out=n,
                problem_type=1 if n_dim == 2 else 4, is_check_su_fail=False,
                is_auto_sync_parameters=True if plain else mat['auto_sync'])
    return args


def gru_kwargs(mat, n_dim, directory):
    n = len(COMPS[n_dim])
    args = build.gru_args(directory, hidden=mat['hidden'], source='custom',
                          norm_in=mat['norm_in'], norm_out=mat['norm_out'],
                          n_in=n, n_out=n)
    args['dropout'] = 0
    return args


def hybrid_kwargs(mat, n_dim, directory):
    from model_architectures.hybrid_base_model.model.hybridized_model import \
        set_hybridized_model
    from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
    from model_architectures.rc_base_model.model.recurrent_model import \
        RecurrentConstitutiveModel
    from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler
    n = len(COMPS[n_dim])
    hyb = {'candidate': set_hybridized_model(
        RecurrentConstitutiveModel, (0, 0),
        model_init_args=rc_kwargs(mat, n_dim, None))}
    scal = None
    if mat['norm_in'] or mat['norm_out']:
        scal = {}
        for key, par in scalers(mat, n).items():
            cls = (TorchStandardScaler if mat['scaling'] == 'mean-std'
                   else TorchMinMaxScaler)
            scal[key] = cls(n, **par)
    hyb['gru'] = set_hybridized_model(
        GRURNNModel, (1, 0), model_init_args=gru_kwargs(mat, n_dim, None),
        data_scalers=scal)
    return dict(n_features_in=n, n_features_out=n, hyb_models_dict=hyb,
                hybridization_type='additive', model_directory=directory,
                is_model_in_normalized=False, is_model_out_normalized=False,
                device_type='cpu')


def add_model(state, mat, n_dim, ids, types, directory):
    """Initialise the real constitutive model of some elements."""
    torch.manual_seed(mat['seed'])
    if mat['kind'] == 'rc':
        args = rc_kwargs(mat, n_dim, directory)
        par = args['material_model_parameters']
        state.init_elements_model('rc_' + mat['material'], par, ids, types,
                                  args)
    elif mat['kind'] == 'gru':
        args = gru_kwargs(mat, n_dim, directory)
        args.update(scaling_type=mat['scaling'], scaling_parameters=scalers(
            mat, len(COMPS[n_dim])))
        state.init_elements_model('gru_material_model', {}, ids, types, args)
    else:
        args = hybrid_kwargs(mat, n_dim, directory)
        state.init_elements_model('hybrid_material_model', {}, ids, types,
                                  args)


class Reference:
    """Independent instance with the same parameter values."""

    def __init__(self, mat, n_dim, live):
        from model_architectures.rnn_base_model.model.gru_model import \
            GRURNNModel
        from model_architectures.rc_base_model.model.recurrent_model import \
            RecurrentConstitutiveModel
        self.mat, self.n_dim = mat, n_dim
        state = build.snapshot({k: v.detach().clone()
                                for k, v in live.state_dict().items()})
        self.rc = self.gru = None
        if mat['kind'] in ('rc', 'hybrid'):
            self.rc = RecurrentConstitutiveModel(
                **rc_kwargs(mat, n_dim, None, plain=True),
                is_save_model_init_file=False)
        if mat['kind'] in ('gru', 'hybrid'):
            args = gru_kwargs(mat, n_dim, None)
            args['is_model_in_normalized'] = False
            args['is_model_out_normalized'] = False
            self.gru = GRURNNModel(**args, is_save_model_init_file=False)
        if mat['kind'] == 'rc':
            self.rc.load_state_dict(state)
        elif mat['kind'] == 'gru':
            self.gru.load_state_dict(state)
        else:
            self.rc.load_state_dict({k.split('.', 2)[2]: v for k, v in
                                     state.items() if k.startswith(
                                         '_hyb_models.0.')})
            self.gru.load_state_dict({k.split('.', 2)[2]: v for k, v in
                                      state.items() if k.startswith(
                                          '_hyb_models.1.')})
        self.scal = scalers(mat, len(COMPS[n_dim]))

    def parameters(self):
        out = []
        for m in (self.rc, self.gru):
            if m is not None:
                out += list(m.parameters())
        return out

    def __call__(self, strain):
        out = 0.0
        if self.rc is not None:
            out = out + self.rc(strain)
        if self.gru is not None:
            x = strain
            if self.mat['norm_in']:
                x = norm(self.mat, self.scal['features_in'], x)
            y = self.gru(x)
            y = y[0] if isinstance(y, tuple) else y
            if self.mat['norm_out']:
                y = norm(self.mat, self.scal['features_out'], y, True)
            out = out + y
        return out
