"""P10: specimen data come only from a completed run of the external solver."""
import contextlib
import os
import subprocess

import numpy as np
import torch

from dst import build
from dst.core import SimCrash, Violation, h64, rng
from dst.vfs import SimFS

RUNS = {'quick': 560, 'thorough': 16000}
RULE = ('one run = a history of input file generations (patches of all '
        'element types, several materials, void elements, free degrees of '
        'freedom), runs of a simulated external solver that completes, '
        'aborts, is killed at any output step, cannot start, or dies before '
        'touching the output of an earlier run, and conversions of its '
        'output up to the specimen data and the local strain paths of several '
        'patches, with crashes, I/O errors and damaged output files; '
        'non-trivial = the solver or the disk misbehaved')
PROBES = ('input_written', 'input_kept', 'voids', 'boundary_void', 'phases',
          'free_dof', 'solver_ok', 'solver_abort', 'solver_killed',
          'solver_dead', 'solver_missing', 'stale_output', 'results_read',
          'many_steps', 'damaged_output', 'csv', 'inp', 'inp_to_dat', 'adimu',
          'specimen', 'material_state', 'local_paths', 'dirichlet_file',
          'relabelled', 'labels_retried',
          'gauss_point_file', 'increment_file', 'crash_write', 'error_write',
          'patches_script', 'odd_name')
STATE_MEASURE = 'digest of (operation, mesh, solver behaviour, outcome)'
REAL = ['LinksSimulator', 'Links material formats', 'FiniteElementPatch and '
        'FiniteElementPatchGenerator', 'links_data_to_adimu, '
        'links_nodedata_to_csv, links_dat_to_inp, links_out_to_dataset, '
        'links_specimen_dirichlet', 'gen_specimen_data', 'gen_random_specimen',
        'build_local_paths_dataset', 'pandas, numpy readers']
STUB = ['external finite element solver (in-process, reads the input file '
        'with its own parser)', 'plots (need LaTeX)', 'disk (seam over real '
        'files)']
ASSUMPTIONS = ['the solver clears its own output of an earlier run before it '
               'writes, and writes its completion line last']
SHRINK_LISTS = ('ops',)
DONE = 'Program L I N K S successfully completed.'
ABORTED = ('\n Program aborted.\n', '\n Program L I N K S aborted.\n',
           '\n Program L I N K S not completed: increment cutting failed.\n')
LOCAL = {'SQUAD4': [(0, 0), (1, 0), (1, 1), (0, 1)],
         'SQUAD8': [(0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (1, 2), (0, 2),
                    (0, 1)],
         'SHEXA8': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1),
                    (1, 0, 1), (1, 1, 1), (0, 1, 1)],
         'SHEXA20': [(0, 0, 0), (2, 0, 0), (2, 2, 0), (0, 2, 0), (0, 0, 2),
                     (2, 0, 2), (2, 2, 2), (0, 2, 2), (1, 0, 0), (2, 1, 0),
                     (1, 2, 0), (0, 1, 0), (0, 0, 1), (2, 0, 1), (2, 2, 1),
                     (0, 2, 1), (1, 0, 2), (2, 1, 2), (1, 2, 2), (0, 1, 2)]}
ELEM = {'SQUAD4': ('QUAD4', 4, 'CPE4', 'FEQuad4'),
        'SQUAD8': ('QUAD8', 4, None, None),
        'SHEXA8': ('HEXA8', 8, 'C3D8', 'FEHexa8'),
        'SHEXA20': ('HEXA20', 8, 'C3D20R', 'FEHexa20')}
FAULTS = ('crash', 'crash_after', 'torn', 'enospc', 'eio', 'intr')


# ----------------------------------------------------------------- generation
def gen_mesh(r, convertible=False, dim=None):
    dim = dim or r.choice([2, 3])
    kinds = {2: ['SQUAD4', 'SQUAD4', 'SQUAD8'],
             3: ['SHEXA8', 'SHEXA8', 'SHEXA20']}[dim]
    kind = r.choice(kinds[:2] if convertible else kinds)
    top = {'SQUAD4': 4, 'SQUAD8': 4, 'SHEXA8': 3, 'SHEXA20': 2}[kind]
    n = [r.randint(1, top) for _ in range(dim)]
    size = [r.choice([1.0, 2.0, 0.3]) for _ in range(dim)]
    return {'kind': kind, 'n': n, 'size': size, 'amp': r.choice([0.02, 0.05]),
            'order': r.choice([0, 0, 2, 3]),
            'rigid': r.choice([None, None, 'move', 'turn']),
            'free': r.random() < 0.3, 'seed': r.randint(0, 10**6)}


def gen_material(r):
    name = r.choice(['ELASTIC', 'ELASTIC', 'VON_MISES', 'DRUCKER_PRAGER',
                     'LOU'])
    return {'name': name, 'young': r.choice([100.0, 110000.0]),
            'poisson': r.choice([0.3, 0.25]), 'n_hard': r.choice([2, 5])}


def gen_solver(r):
    return {'how': r.choice(['ok', 'ok', 'ok', 'ok', 'ok', 'abort', 'killed', 'killed',
                             'dead', 'dead', 'missing', 'no_screen']),
            'n_time': r.choice([1, 2, 3, 5, 12]), 'stop': r.random(),
            'torn': r.random() < 0.5, 'extra': r.random() < 0.4,
            'code': r.choice([0, 0, 1, -9]), 'seed': r.randint(0, 10**9)}


def gen(seed, tier):
    r = rng(seed, 'gen')
    if r.random() < 0.12:
        ids = sorted(r.sample([0, 1, 2, 3, 9, 10, 11, 25], r.choice([1, 2, 3])))
        return {'what': 'patches', 'name': r.choice(['spec', 'random_specimen']),
                'ids': ids, 'script': r.random() < 0.5,
                'meshes': [gen_mesh(r, dim=3) for _ in ids],
                'solvers': [gen_solver(r) for _ in ids],
                'np_seed': r.randint(0, 10**6)}
    names = r.sample(['sim', 'sim_1', 'a-b', 'case.5', 'p+q', 'sim2'], 2)
    ops = []
    plan = [('gen', 0), ('run', 0)]
    for _ in range(r.randint(2, 6)):
        i = int(r.random() < 0.25)
        if i and (('gen', 1) not in plan):
            plan += [('gen', 1), ('run', 1)]
        plan.append((r.choice(['gen', 'run', 'run', 'run', 'read', 'read',
                               'read', 'csv', 'inp', 'adimu', 'adimu',
                               'specimen', 'specimen', 'dirichlet', 'gp']),
                     i))
    for what, which in plan:
        op = {'name': names[which], 'op': what}
        if op['op'] == 'gen':
            op.update(mesh=gen_mesh(r, r.random() < 0.75),
                      materials=[gen_material(r) for _ in
                                 range(r.choice([1, 1, 2, 3]))],
                      voids=r.choice([0, 0, 0, 0, 1, 2]),
                      void_seed=r.randint(0, 10**6),
                      overwrite=r.random() < 0.7, increm=r.random() < 0.5,
                      bad=r.choice([None]*14 + ['unknown', 'missing_phase',
                                               'missing_parameter']))
            if r.random() < 0.3:
                op['fault'] = {'pos': r.random(), 'kind': r.choice(FAULTS),
                               'frac': r.choice([0.0, 0.5])}
        elif op['op'] == 'run':
            op['solver'] = gen_solver(r)
        elif op['op'] in ('read', 'adimu', 'csv', 'specimen'):
            op['keys'] = r.choice([['node_data'], ['global_data'],
                                   ['node_data', 'global_data']])
            if r.random() < 0.3:
                op['damage'] = {'what': r.choice(['node', 'global']),
                                'how': r.choice(['one_row', 'half', 'empty']),
                                'pos': r.random()}
            op['material'] = r.random() < 0.5
            if r.random() < 0.4:
                op['labels'] = {'seed': r.randint(0, 10**6)}
                if r.random() < 0.5:
                    op['labels']['fault'] = {
                        'pos': r.random(), 'kind': r.choice(FAULTS),
                        'frac': r.choice([0.0, 0.5, 0.9])}
        elif op['op'] == 'dirichlet':
            op.update(disp=r.choice([1.0, -0.5, 0.0, 12.5]),
                      top=r.choice([2.0, 12.0]), seed=r.randint(0, 10**6),
                      group=r.random() < 0.7)
        elif op['op'] == 'gp':
            op.update(n=r.choice([1, 2, 3]), n_time=r.choice([2, 4]),
                      seed=r.randint(0, 10**6))
        ops.append(op)
    return {'what': 'single', 'ops': ops, 'names': names,
            'np_seed': r.randint(0, 10**6)}


def shrink(scn):
    for i, op in enumerate(scn.get('ops', ())):
        for key in ('fault', 'damage', 'voids', 'bad', 'increm'):
            if op.get(key):
                new = build.snapshot(scn)
                new['ops'][i][key] = 0 if key == 'voids' else None
                yield new
        if len(op.get('materials', ())) > 1:
            new = build.snapshot(scn)
            new['ops'][i]['materials'] = op['materials'][:1]
            yield new
        for key, val in (('free', False), ('rigid', None), ('order', 0)):
            if op.get('mesh', {}).get(key):
                new = build.snapshot(scn)
                new['ops'][i]['mesh'][key] = val
                yield new
        mesh = op.get('mesh')
        if mesh:
            for j, n in enumerate(mesh['n']):
                if n > 1:
                    new = build.snapshot(scn)
                    new['ops'][i]['mesh']['n'][j] = n - 1
                    yield new
    if scn['what'] == 'patches' and len(scn['ids']) > 1:
        for i in range(len(scn['ids'])):
            new = build.snapshot(scn)
            for key in ('ids', 'meshes', 'solvers'):
                del new[key][i]
            yield new


# --------------------------------------------------------------- own oracles
class Mesh:
    """Expected finite element mesh of a patch (own grid arithmetic)."""

    def __init__(self, spec, patch, phases, voids=()):
        kind, n, size = spec['kind'], spec['n'], spec['size']
        self.dim, self.kind = len(n), kind
        step = 2 if kind in ('SQUAD8', 'SHEXA20') else 1
        matrix = patch.get_mesh_nodes_matrix()
        cells = [[]]
        for d in reversed(range(self.dim)):
            cells = [[i] + c for c in cells for i in range(n[d])]
        cells = sorted(cells, key=lambda c: tuple(reversed(c)))
        elements, self.phases, used = [], [], set()
        coords = {}
        boundary = set()
        for c in cells:
            nodes = []
            for loc in LOCAL[kind]:
                pos = tuple(step*c[d] + loc[d] for d in range(self.dim))
                label = int(matrix[pos])
                nodes.append(label)
                coords[label] = [pos[d]*size[d]/(step*n[d])
                                 for d in range(self.dim)]
                if any(pos[d] in (0, step*n[d]) for d in range(self.dim)):
                    boundary.add(label)
            elements.append(nodes)
        disps = {int(k): list(v) for k, v in
                 patch.get_mesh_boundary_nodes_disps().items()}
        keep = [i for i in range(len(elements)) if i + 1 not in voids]
        for i in keep:
            used.update(elements[i])
        self.lost = bool(boundary - used)
        order = sorted(used)
        self.map = {old: i + 1 for i, old in enumerate(order)}
        self.elements = [[self.map[x] for x in elements[i]] for i in keep]
        self.phases = [int(phases[tuple(cells[i])]) for i in keep]
        self.coords = np.array([coords[x] for x in order])
        self.disps = {self.map[k]: v for k, v in disps.items()
                      if k in self.map}
        self.total = len(elements)

    def codes(self):
        out = np.zeros((len(self.coords), 3), dtype=int)
        for node, disp in self.disps.items():
            for d, x in enumerate(disp):
                out[node - 1, d] = x is not None
            if self.dim == 2:
                out[node - 1, 2] = 1
        return out


def parse_dat(text):
    """Own parser of the solver input file (as the solver reads it)."""
    out, lines = {}, text.split('\n')
    i = 0
    while i < len(lines):
        words = lines[i].split()
        i += 1
        if not words:
            continue
        key = words[0].upper()
        if key in ('ELEMENTS', 'NODE_COORDINATES', 'MATERIALS', 'INCREMENTS',
                   'NODES_WITH_PRESCRIBED_DISPLACEMENTS', 'ELEMENT_TYPES',
                   'ELEMENT_GROUPS', 'NODE_GROUPS'):
            body = []
            while i < len(lines) and lines[i].strip():
                body.append(lines[i].split())
                i += 1
            out[key] = (int(words[1]), body)
        elif key == 'TITLE':
            i += 1
        else:
            out[key] = words[1:]
    return out


class Solver:
    """In-process stand-in of the external finite element solver."""

    def __init__(self, ctx, binary):
        self.ctx, self.binary, self.plan = ctx, binary, None
        self.records, self.n = {}, 0
        self.affine = False

    def __call__(self, args, *pos, **kwargs):
        ctx, plan = self.ctx, self.plan
        self.n += 1
        ctx.log('solver', os.path.basename(str(args[-1])), plan['how'])
        if [str(a) for a in args][:1] != [self.binary] or len(args) != 2:
            raise Violation('wrong-command', f'solver called as {args}')
        path = str(args[1])
        out = os.path.splitext(path)[0]
        name = os.path.basename(out)
        how = plan['how']
        if how == 'missing':
            ctx.fault('solver_missing')
            ctx.probe('solver_missing')
            raise FileNotFoundError(2, 'No such file or directory (simulated)',
                                    self.binary)
        if not os.path.isfile(path):
            raise Violation('wrong-command', f'solver input {path} is missing')
        done = subprocess.CompletedProcess(args, plan['code'], b'', b'')
        if how == 'dead':
            ctx.fault('solver_dead')
            ctx.probe('solver_dead')
            if out in self.records:
                ctx.probe('stale_output')
            done.returncode = plan['code'] or -9
            return done
        with open(path) as f:
            dat = parse_dat(f.read())
        rec = self.solve(dat, plan)
        self.clear(out)
        for sub in ('NODE_DATA', 'GLOBAL_DATA'):
            os.makedirs(os.path.join(out, sub))
        files = []
        for t in range(plan['n_time']):
            files.append((f'NODE_DATA/{name}_{t}.nodedata', rec['node'][t]))
            files.append((f'GLOBAL_DATA/{name}_{t}.globaldata',
                          rec['global'][t]))
        stop = len(files)
        if how == 'killed':
            stop = int(plan['stop']*len(files))
        for k, (rel, rows) in enumerate(files[:stop]):
            text = ''.join(' '.join('%16.8E' % x for x in row) + '\n'
                           for row in np.atleast_2d(rows))
            if how == 'killed' and plan['torn'] and k == stop - 1:
                text = text[:len(text)//2]
            with open(os.path.join(out, rel), 'w') as f:
                f.write(text)
        if plan['extra']:
            for rel in ('NODE_DATA/notes.txt', f'{name}.log',
                        f'NODE_DATA/{name}_1.nodedata.gz'):
                with open(os.path.join(out, rel), 'w') as f:
                    f.write('1 2 3\n')
        last = {'ok': f'\n {DONE}\n', 'abort': ABORTED[plan['seed'] % 3],
                'no_screen': None, 'killed': ''}[how]
        if last is not None:
            # Progress of the run, as far as it came
            lines = [' Program L I N K S', ' Data input successfully completed.']
            for t in range((stop + 1)//2):
                lines += [f' Increment {t}', ' Iteration 1 converged.',
                          f' Increment {t} successfully completed.']
            if how == 'ok' and plan['seed'] % 2:
                last += '\n Total CPU time: 1.25 s\n'
            with open(os.path.join(out, name + '.screen'), 'w') as f:
                f.write('\n'.join(lines) + '\n' + last)
        if how == 'ok':
            ctx.probe('solver_ok')
            done.returncode = 0
        else:
            ctx.fault('solver_' + how)
            ctx.probe('solver_abort' if how == 'abort' else 'solver_killed')
            done.returncode = plan['code'] or 1
        self.records[out] = dict(rec, complete=how == 'ok')
        return done

    def clear(self, out):
        if not os.path.isdir(out):
            return
        for base, dirs, files in os.walk(out, topdown=False):
            for f in files:
                os.remove(os.path.join(base, f))
            for d in dirs:
                os.rmdir(os.path.join(base, d))
        os.rmdir(out)

    def solve(self, dat, plan):
        """Node and global results of every output step."""
        g = np.random.RandomState(plan['seed'] % 2**32)
        n = dat['NODE_COORDINATES'][0]
        xyz = np.array([[float(x) for x in row[1:]] for row in
                        dat['NODE_COORDINATES'][1]])
        dim = xyz.shape[1]
        xyz = np.hstack((xyz, np.zeros((n, 3 - dim))))
        node, glob, grads = [], [], []
        for t in range(plan['n_time']):
            grad = g.uniform(-0.01, 0.01, (3, 3))*(t > 0)
            disp = xyz @ grad.T if self.affine else g.uniform(-1, 1, (n, 3))
            grads.append(grad)
            rows = np.hstack((
                np.arange(1, n + 1).reshape(-1, 1), np.full((n, 1), 0.1*t),
                np.full((n, 1), float(t)), xyz, disp,
                g.uniform(-9, 9, (n, 9))))
            node.append(np.array([[float('%16.8E' % x) for x in row]
                                  for row in rows]))
            glob.append(np.array([float('%16.8E' % x) for x in
                                  g.uniform(-1, 1, 4)]))
        return {'node': node, 'global': glob, 'dat': dat, 'grads': grads}


# -------------------------------------------------------------------- harness
def close(a, b, tol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and (a.size == 0 or bool(
        np.all(np.abs(a - b) <= tol*(1.0 + np.abs(b)))))


def make_patch(ctx, spec):
    from data_generation.spdg.patch import FiniteElementPatch
    from data_generation.spdg.patch_generator import \
        FiniteElementPatchGenerator
    dim = len(spec['n'])
    np.random.seed(spec['seed'])
    size = tuple(spec['size'])
    amp = spec['amp']*min(size)
    gp = FiniteElementPatchGenerator(dim, size)
    kwargs = {}
    if spec['rigid'] == 'move':
        kwargs['translation_range'] = {'1': (0.1, 0.2)}
    if spec['rigid'] == 'turn':
        kwargs['rotation_angles_range'] = {'alpha': (-20.0, 20.0)}
    for k in range(40):
        good, patch = ctx.must(
            'generate patch', gp.generate_deformed_patch, spec['kind'],
            tuple(spec['n']),
            corners_lab_disp_range={str(i + 1): ((-amp, amp),)*dim
                                    for i in range(2**dim)},
            edges_lab_def_order=spec['order'],
            edges_lab_disp_range={str(i + 1): (-amp/4, amp/4)
                                  for i in range(4 if dim == 2 else 24)},
            **kwargs)
        if good:
            break
        amp = amp/2
    ctx.check(good, 'no-patch', 'no admissible patch for tiny displacements')
    if spec['free']:
        ctx.probe('free_dof')
        disps = patch.get_mesh_boundary_nodes_disps()
        for key in disps:
            val = disps[key].astype(object)
            for d in range(dim):
                if h64(spec['seed'], 'free', int(key), d) % 3 == 0:
                    val[d] = None
            disps[key] = val
        patch = FiniteElementPatch(
            dim, size, spec['kind'], tuple(spec['n']),
            patch.get_mesh_nodes_matrix(), patch.get_mesh_nodes_coords_ref(),
            disps)
    return patch


def descriptors(mat):
    from simulators.fetorch.material.models.standard.hardening import \
        get_hardening_law
    out = {'name': mat['name'], 'density': 0.0, 'young': mat['young'],
           'poisson': mat['poisson']}
    if mat['name'] != 'ELASTIC':
        out.update(n_hard_point=mat['n_hard'],
                   hardening_law=get_hardening_law('nadai_ludwik'),
                   hardening_parameters={'s0': 900.0, 'a': 700.0, 'b': 0.5,
                                         'ep0': 1e-5})
    if mat['name'] == 'DRUCKER_PRAGER':
        out.update(friction_angle_deg=2, dilatancy_angle_deg=2)
    if mat['name'] == 'LOU':
        for k, key in enumerate('abcd'):
            out[f'yield_{key}_init'] = 0.5 + k
            out[f'{key}_hard_slope'] = 0.1*k
    return out


class Sim:
    def __init__(self, ctx, fs, names):
        from simulators.links import links
        self.ctx, self.fs, self.links = ctx, fs, links
        self.binary = '/opt/LINKS/bin/LINKS'
        self.solver = Solver(ctx, self.binary)
        self.dir = os.path.join(fs.root, 'simulations')
        self.inputs = {}        # dat path -> Mesh, material spec, text
        self.latest = {}        # name -> dat path
        self.good = {}          # output dir -> solver record

    def attempt(self, fn, fault=None, scale=30):
        fs = self.fs
        if fault:
            fs.arm({int(fault['pos']*scale): {'kind': fault['kind'],
                                              'frac': fault['frac']}})
        before = sum(v for k, v in self.ctx.faults.items() if '@' in k)
        try:
            out = ('ok', fn())
        except SimCrash:
            out = ('fault', None)
        except (Violation, AssertionError):
            raise
        except BaseException as exc:
            out = ('error', exc)
        after = sum(v for k, v in self.ctx.faults.items() if '@' in k)
        fs.disarm()
        fs.restart()
        if after > before and out[0] != 'ok':
            self.ctx.probe('crash_write' if out[0] == 'fault'
                           else 'error_write')
            out = ('fault', None)
        return out

    # ------------------------------------------------------------------ input
    def gen(self, op):
        ctx, spec = self.ctx, op['mesh']
        patch = make_patch(ctx, spec)
        g = rng(spec['seed'], 'phases')
        phases = np.ones(tuple(spec['n']), dtype=int)
        for i in range(phases.size):
            phases.flat[i] = g.randint(1, len(op['materials']))
        present = set(phases.flatten().tolist())
        if len(present) > 1:
            ctx.probe('phases')
        mats = {str(i + 1): descriptors(m)
                for i, m in enumerate(op['materials'])}
        bad = op.get('bad')
        if bad == 'unknown':
            mats[str(max(present))]['name'] = 'NOTHING'
        elif bad == 'missing_phase':
            del mats[str(max(present))]
        elif bad == 'missing_parameter':
            del mats[str(max(present))]['young']
        voids = []
        if op['voids']:
            vr = rng(op['void_seed'], 'voids')
            inner = [i for i in range(1, phases.size + 1)
                     if not Mesh(spec, patch, phases, [i]).lost]
            pool = inner if inner and vr.random() < 0.7 else \
                range(1, phases.size + 1)
            voids = vr.sample(list(pool), min(op['voids'], len(pool)))
        mesh = Mesh(spec, patch, phases, voids)
        if voids:
            ctx.probe('voids')
            if mesh.lost:
                ctx.probe('boundary_void')
        kind = 'plane_strain' if mesh.dim == 2 else 'tridimensional'
        sim = self.links.LinksSimulator(self.binary, 'infinitesimal', kind)
        target = os.path.join(self.dir, op['name'] + '.dat')
        before = self.tree()
        par = {'title': 'A title', 'vtk_output': 'ASCII', 'unknown': 3}

        def call():
            return sim.generate_input_data_file(
                op['name'], self.dir, patch,
                {'mesh_elem_material': phases, 'mat_phases_descriptors': mats},
                remove_elements_labels=voids or None,
                links_input_params=par, is_overwrite_file=op['overwrite'],
                is_save_increm_file=op['increm'])
        out = self.attempt(call, op.get('fault'))
        after = self.tree()
        base = before if out[0] == 'ok' else after
        ctx.state(['gen', spec['kind'], spec['n'], bad, len(voids), out[0]])
        others = {k: v for k, v in before.items()
                  if k not in (target, self.increm())}
        ctx.check(all(after.get(k) == v for k, v in others.items()),
                  'other-file-changed', 'generation of an input file changed '
                  'another file')
        if bad or mesh.lost or not mesh.elements:
            ctx.check(out[0] != 'ok', 'bad-input-accepted',
                      f'{bad or "boundary void"} was accepted')
            ctx.check(after.get(target) == before.get(target),
                      'input-lost', 'a refused generation changed the '
                      'existing input file')
            ctx.probe('input_kept', target in before)
            return
        if out[0] == 'fault':
            if target in before:
                ctx.probe('input_kept')
                same = after.get(target) == before[target]
                if not same and op['overwrite'] and target in after:
                    same = self.describes(after[target], mesh, op, par) is None
                ctx.check(same, 'input-lost', 'a failed generation left '
                          'neither the previous nor the new input file')
                if after.get(target) != before[target]:
                    self.inputs[target] = (mesh, op)
            elif target in after:
                # Partial new file is never mistaken: generation is repeated
                # below by the same user
                pass
            out = self.attempt(call)
        ctx.check(out[0] == 'ok', 'unexpected-exception', lambda: (
            f'generate_input_data_file raised {type(out[1]).__name__}: '
            f'{str(out[1])[:200]}'))
        path = out[1]
        existed = target in base
        ctx.check(os.path.isfile(path) and os.path.dirname(path) == self.dir,
                  'wrong-path', f'input file {path} does not exist')
        if op['overwrite'] or not existed:
            ctx.check(path == target, 'wrong-path', f'{path}')
        else:
            ctx.check(path not in base, 'input-lost',
                      f'existing input file {path} was overwritten')
        with open(path) as f:
            text = f.read()
        why = self.describes(text, mesh, op, par)
        ctx.check(why is None, 'wrong-input', lambda: f'solver input does not '
                  f'describe the patch: {why}')
        if op['increm']:
            with open(self.increm()) as f:
                part = f.read()
            ctx.check(part.strip() and part in text, 'wrong-input',
                      'stored load increments are not those of the input')
            ctx.probe('increment_file')
        ctx.probe('input_written')
        if any(c in op['name'] for c in '.+'):
            ctx.probe('odd_name')
        self.inputs[path] = (mesh, op)
        self.latest[op['name']] = path
        self.good.pop(os.path.splitext(path)[0], None)

    def increm(self):
        return os.path.join(self.dir, 'loading_incrementation.dat')

    def tree(self):
        out = {}
        for base, _, files in os.walk(self.fs.root):
            for f in files:
                if '.tmp' in f or f.startswith('.'):
                    continue
                p = os.path.join(base, f)
                with open(p, errors='replace') as h:
                    out[p] = h.read()
        return out

    def describes(self, text, mesh, op, par):
        """First difference between an input file and what it must hold."""
        try:
            dat = parse_dat(text)
            n, rows = dat['NODE_COORDINATES']
            if n != len(rows) or n != len(mesh.coords):
                return f'{n} nodes, {len(rows)} rows'
            if [int(x[0]) for x in rows] != list(range(1, n + 1)) or not close(
                    [[float(v) for v in x[1:]] for x in rows], mesh.coords):
                return 'node coordinates'
            n, rows = dat['ELEMENTS']
            if n != len(rows) or [[int(v) for v in x[2:]] for x in rows] \
                    != mesh.elements or [int(x[0]) for x in rows] != list(
                        range(1, n + 1)):
                return 'connectivities'
            if [int(x[1]) for x in rows] != mesh.phases:
                return 'element materials'
            n, rows = dat['NODES_WITH_PRESCRIBED_DISPLACEMENTS']
            if n != len(rows) or [int(x[0]) for x in rows] != sorted(
                    mesh.disps):
                return 'nodes with prescribed displacements'
            for x in rows:
                want = list(mesh.disps[int(x[0])])
                code = ''.join('0' if v is None else '1' for v in want)
                val = [0.0 if v is None else float(v) for v in want]
                if x[1][:mesh.dim] != code or len(x) != 5 or not close(
                        [float(v) for v in x[2:2 + mesh.dim]], val):
                    return f'displacement of node {x[0]}: {x[1:]}'
            name, gauss = ELEM[mesh.kind][:2]
            n, rows = dat['ELEMENT_TYPES']
            if n != 1 or rows[0][1] != name or rows[1][0] != str(gauss):
                return f'element type {rows}'
            why = self.materials(dat, op)
            if why:
                return why
            n, rows = dat['INCREMENTS']
            load = np.cumsum([float(x[1]) for x in rows])
            if n != len(rows) or np.abs(load).max() > 1.0 + 1e-4:
                return f'load history ({n} increments, {len(rows)} rows, ' \
                    f'maximum {np.abs(load).max()})'
            if dat['VTK_OUTPUT'] != [par['vtk_output']]:
                return 'given parameters'
            if dat['ANALYSIS_TYPE'] != ['2' if mesh.dim == 2 else '6']:
                return 'analysis type'
            for key in ('NODE_DATA_OUTPUT', 'GLOBAL_DATA_OUTPUT'):
                if key not in dat:
                    return 'output requests'
        except (KeyError, ValueError, IndexError) as exc:
            return f'not readable ({type(exc).__name__}: {exc})'
        return None

    def materials(self, dat, op):
        rows = list(dat['MATERIALS'][1])
        seen = []
        while rows:
            head = rows.pop(0)
            mat = op['materials'][int(head[0]) - 1]
            seen.append(int(head[0]))
            if head[1] != mat['name']:
                return f'material {head}'
            rows.pop(0)
            want = [mat['young'], mat['poisson']]
            if mat['name'] == 'DRUCKER_PRAGER':
                want += [2.0, 2.0, 3.0]
            if not close([float(v) for v in rows.pop(0)], want):
                return f'elastic constants of material {head[0]}'
            if mat['name'] == 'ELASTIC':
                continue
            if mat['name'] == 'LOU':
                for k in range(4):
                    if not close([float(v) for v in rows.pop(0)],
                                 [0.5 + k, 0.1*k]):
                        return 'yield parameters'
            if rows.pop(0) != [str(mat['n_hard'])]:
                return 'number of hardening points'
            pts = [[float(v) for v in rows.pop(0)]
                   for _ in range(mat['n_hard'])]
            if pts[0][0] != 0.0 or any(b[0] <= a[0] or b[1] < a[1]
                                       for a, b in zip(pts, pts[1:])):
                return 'hardening curve'
            des = descriptors(mat)
            for x, y in pts:
                if not close([y], [float(des['hardening_law'](
                        des['hardening_parameters'], torch.tensor(x))[0])]):
                    return f'hardening curve at {x}'
        if len(seen) != dat['MATERIALS'][0] or len(set(seen)) != len(seen):
            return f'materials {seen}'
        return None

    # -------------------------------------------------------------------- run
    def run(self, op):
        ctx = self.ctx
        path = self.latest.get(op['name'])
        if path is None:
            return
        self.solver.plan = op['solver']
        how = op['solver']['how']
        kind = 'plane_strain' if self.inputs[path][0].dim == 2 \
            else 'tridimensional'
        sim = self.links.LinksSimulator(self.binary, 'infinitesimal', kind)
        calls = self.solver.n
        out = self.attempt(lambda: sim.run_links_simulation(path))
        ctx.state(['run', how, out[0], out[0] == 'ok' and out[1][0]])
        ctx.check(self.solver.n == calls + 1, 'solver-not-run',
                  f'solver was started {self.solver.n - calls} times')
        directory = os.path.splitext(path)[0]
        if how == 'ok':
            ctx.check(out[0] == 'ok', 'unexpected-exception', lambda: (
                f'completed simulation: {type(out[1]).__name__}: '
                f'{str(out[1])[:200]}'))
            ctx.check(out[1][0] is True, 'success-denied',
                      'completed simulation was not reported successful')
            ctx.check(os.path.normpath(out[1][1]) == directory, 'wrong-path',
                      f'output directory {out[1][1]}')
            self.good[directory] = self.solver.records[directory]
        else:
            ctx.check(out[0] != 'ok' or not out[1][0], 'false-success',
                      f'simulation reported successful, but the solver did '
                      f'not complete this run ({how})')
            if how not in ('dead', 'missing'):
                self.good.pop(directory, None)
        for p, (mesh, g) in self.inputs.items():
            ctx.check(os.path.isfile(p), 'input-lost',
                      'running the solver removed an input file')

    def record(self, op):
        path = self.latest.get(op['name'])
        if path is None:
            return None, None, None
        directory = os.path.splitext(path)[0]
        return path, directory, self.good.get(directory)

    @contextlib.contextmanager
    def damaged(self, op, directory, rec):
        """Lose a part of one output file (restored afterwards)."""
        dmg, path = op.get('damage'), None
        if dmg and len(rec['node']) > 1:
            t = int(dmg['pos']*len(rec['node']))
            base = os.path.basename(directory)
            if dmg['what'] == 'node':
                path = f'{directory}/NODE_DATA/{base}_{t}.nodedata'
            else:
                path = f'{directory}/GLOBAL_DATA/{base}_{t}.globaldata'
            with open(path) as f:
                text = f.read()
            rows = text.splitlines(True)
            if dmg['what'] == 'node':
                new = {'one_row': rows[:1], 'half': rows[:len(rows)//2],
                       'empty': []}[dmg['how']]
                new = ''.join(new)
            else:
                new = {'one_row': ' '.join(text.split()[:1]) + '\n',
                       'half': ' '.join(text.split()[:2]) + '\n',
                       'empty': ''}[dmg['how']]
            with open(path, 'w') as f:
                f.write(new)
            self.ctx.fault('damaged_output')
            self.ctx.probe('damaged_output')
        yield path is not None and dmg['what']
        if path is not None:
            with open(path, 'w') as f:
                f.write(text)

    # ------------------------------------------------------------------- read
    def read(self, op):
        ctx = self.ctx
        path, directory, rec = self.record(op)
        if rec is None:
            return
        kind = 'plane_strain' if self.inputs[path][0].dim == 2 \
            else 'tridimensional'
        sim = self.links.LinksSimulator(self.binary, 'infinitesimal', kind)
        with self.damaged(op, directory, rec) as hurt:
            out = self.attempt(lambda: sim.read_links_simulation_results(
                directory, op['keys']))
        ctx.state(['read', op['keys'], hurt, out[0], len(rec['node'])])
        if hurt and f'{hurt}_data' in op['keys']:
            ctx.check(out[0] == 'error', 'incomplete-accepted',
                      f'results were read from an incomplete {hurt} data file')
            return
        ctx.check(out[0] == 'ok', 'unexpected-exception', lambda: (
            f'reading results: {type(out[1]).__name__}: {str(out[1])[:200]}'))
        ctx.check(set(out[1]) == set(op['keys']), 'wrong-results',
                  f'keys {sorted(out[1])}')
        if 'node_data' in op['keys']:
            ctx.check(out[1]['node_data'] is not None
                      and close(out[1]['node_data'],
                                np.stack(rec['node'], axis=2)),
                      'wrong-results', 'node data are not what the solver '
                      'computed')
        if 'global_data' in op['keys']:
            ctx.check(out[1]['global_data'] is not None
                      and close(out[1]['global_data'],
                                np.stack(rec['global'], axis=1)[None]),
                      'wrong-results', 'global data are not what the solver '
                      'computed')
        ctx.probe('results_read')
        if len(rec['node']) > 10:
            ctx.probe('many_steps')

    def csv(self, op):
        import pandas
        from simulators.links.utilities.links_nodedata_to_csv import \
            links_node_output_to_csv
        ctx = self.ctx
        path, directory, rec = self.record(op)
        if rec is None:
            return
        out = ctx.must('convert node data', links_node_output_to_csv,
                       directory)
        base = os.path.splitext(os.path.basename(directory))[0]
        names = sorted(os.listdir(out))
        ctx.check(len(names) == len(rec['node']), 'wrong-csv',
                  f'{len(names)} files of {len(rec["node"])} time steps')
        for t, node in enumerate(rec['node']):
            f = os.path.join(out, f'{base}_tstep_{t}.csv')
            ctx.check(os.path.isfile(f), 'wrong-csv', f'{names}')
            df = pandas.read_csv(f)
            want = node[:, [0, 3, 4, 5, 6, 7, 8, 15, 16, 17]]
            ctx.check(list(df.columns)[:10] == [
                'NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2',
                'RF3'] and close(df.values[:, :10], want), 'wrong-csv',
                f'time step {t}')
        ctx.probe('csv')

    def inp(self, op):
        from simulators.links.utilities.links_dat_to_inp import (
            abaqus_inp_to_links_dat, links_dat_to_abaqus_inp)
        ctx = self.ctx
        path = self.latest.get(op['name'])
        if path is None:
            return
        mesh = self.inputs[path][0]
        from simulators.links.utilities.links_specimen_dirichlet import \
            read_links_nodes_coords_mesh
        xyz = ctx.must('read node coordinates', read_links_nodes_coords_mesh,
                       path)
        ctx.check(close(np.asarray(xyz)[:, :mesh.dim], mesh.coords, 1e-6),
                  'wrong-mesh', 'node coordinates of the input file')
        if ELEM[mesh.kind][2] is None:
            out = self.attempt(lambda: links_dat_to_abaqus_inp(path))
            ctx.check(out[0] == 'error', 'wrong-inp',
                      'unknown element was converted')
            return
        out = ctx.must('convert input file', links_dat_to_abaqus_inp, path)
        self.check_inp(out, mesh)
        ctx.probe('inp')
        ctx.must('convert mesh file', abaqus_inp_to_links_dat, out,
                 n_dim=mesh.dim)
        back = os.path.splitext(out)[0] + '_links.dat'
        with open(back) as f:
            dat = parse_dat(f.read())
        codes = {}
        for row in dat['NODES_WITH_PRESCRIBED_DISPLACEMENTS'][1]:
            codes[int(row[0])] = row
        want = {k: v for k, v in mesh.disps.items()
                if mesh.dim == 2 or any(x is not None for x in v)}
        ok = (dat['ELEMENTS'][0] == len(mesh.elements)
              and [[int(v) for v in x[2:]] for x in dat['ELEMENTS'][1]]
              == mesh.elements
              and close([[float(v) for v in x[1:]] for x in
                         dat['NODE_COORDINATES'][1]], mesh.coords)
              and set(codes) == set(want))
        ctx.check(ok, 'wrong-conversion', 'mesh file converted back to solver '
                  'input differs')
        for node, disp in want.items():
            row = codes[node]
            code = ''.join('0' if v is None else '1' for v in disp)
            val = [0.0 if v is None else float(v) for v in disp]
            ctx.check(row[1][:mesh.dim] == code and close(
                [float(v) for v in row[2:2 + mesh.dim]], val),
                'wrong-conversion', f'displacement of node {node}: {row}')
        ctx.probe('inp_to_dat')

    def check_inp(self, path, mesh):
        """Mesh read back by the code that assembles specimens."""
        from user_scripts.global_model_update.material_finder import \
            gen_specimen_data as gsd
        ctx = self.ctx
        coords, types, conn, fixed = ctx.must(
            'read mesh', gsd.get_specimen_mesh_from_inp_file, path, mesh.dim)
        ctx.check(close(coords, mesh.coords, 1e-5), 'wrong-mesh',
                  'node coordinates')
        ctx.check([list(conn[str(i + 1)]) for i in range(len(conn))]
                  == mesh.elements, 'wrong-mesh', 'connectivities')
        ctx.check({type(x).__name__ for x in types.values()}
                  == {ELEM[mesh.kind][3]} and len(types) == len(conn),
                  'wrong-mesh', 'element types')
        ctx.check(close(fixed, mesh.codes()[:, :mesh.dim]), 'wrong-mesh',
                  'prescribed degrees of freedom')

    # --------------------------------------------------------------- specimen
    def adimu(self, op, specimen=False):
        from simulators.links.utilities.links_data_to_adimu import \
            gen_adimu_data_from_links
        from user_scripts.global_model_update.material_finder import \
            gen_specimen_data as gsd
        ctx = self.ctx
        path, directory, rec = self.record(op)
        if rec is None:
            return
        mesh = self.inputs[path][0]
        if ELEM[mesh.kind][2] is None:
            return
        save = os.path.join(self.fs.root, 'data_' + op['name'])
        os.makedirs(save, exist_ok=True)
        train = os.path.join(save, 'train')
        os.makedirs(train, exist_ok=True)
        name = os.path.splitext(os.path.basename(path))[0]
        spec_path = os.path.join(train, 'specimen_data.pt')
        if os.path.isfile(spec_path):
            os.remove(spec_path)

        material = op['material'] and mesh.dim == 3

        def call():
            inp, hist = gen_adimu_data_from_links(path, directory, save)
            paths = gsd.get_specimen_history_paths(hist, name)
            if not specimen:
                return inp, paths, gsd.get_specimen_numerical_data(
                    paths, mesh.dim, len(mesh.coords))
            model = ('infinitesimal', 1, 2, 'elastic',
                     build.elastic_parameters(), {})
            if mesh.dim == 3:
                model = gsd.set_material_model_parameters()
                model[-1]['model_directory'] = os.path.join(train, 'models')
                os.makedirs(os.path.join(train, 'models'), exist_ok=True)
            out = gsd.gen_specimen_dataset(
                name, save, inp, paths, *model, train,
                is_save_specimen_data=True,
                is_save_specimen_material_state=material)
            return inp, paths, out
        with self.damaged(op, directory, rec) as hurt:
            out = self.attempt(call)
        ctx.state(['adimu', specimen, mesh.kind, hurt, out[0]])
        if hurt == 'node':
            ctx.check(out[0] == 'error', 'incomplete-accepted', 'specimen '
                      'data were assembled from an incomplete node data file')
            return
        ctx.check(out[0] == 'ok', 'unexpected-exception', lambda: (
            f'specimen data: {type(out[1]).__name__}: {str(out[1])[:300]}'))
        inp, paths, data = out[1]
        ctx.check(len(paths) == len(rec['node']), 'wrong-history',
                  f'{len(paths)} files of {len(rec["node"])} steps')
        self.check_inp(inp, mesh)
        ctx.probe('adimu')
        if specimen:
            spec = ctx.must('load specimen', torch.load, spec_path)
            data = (spec.nodes_disps_mesh_hist, spec.reaction_forces_mesh_hist,
                    spec.dirichlet_bc_mesh_hist, spec.time_hist)
            m = spec.specimen_mesh
            ctx.check(m.get_n_elem() == len(mesh.elements)
                      and m.get_n_node_mesh() == len(mesh.coords),
                      'wrong-mesh', 'stored specimen mesh')
            ctx.probe('specimen')
            if material:
                state = ctx.must('load material state', torch.load,
                                 os.path.join(train,
                                              'specimen_material_state.pt'))
                ctx.check(set(state.get_elements_material()) == {
                    str(i + 1) for i in range(len(mesh.elements))},
                    'wrong-mesh', 'material states of the specimen')
                ctx.probe('material_state')
        d = mesh.dim
        node = np.stack(rec['node'], axis=2)
        ctx.check(close(data[0], node[:, 6:6 + d], 1e-5), 'wrong-specimen',
                  'displacement history is not what the solver computed')
        ctx.check(close(data[1], node[:, 15:15 + d], 1e-5), 'wrong-specimen',
                  'reaction forces are not what the solver computed')
        codes = np.repeat(mesh.codes()[:, :d, None], node.shape[2], axis=2)
        ctx.check(close(data[2], codes), 'wrong-specimen',
                  'prescribed degrees of freedom')
        ctx.check(close(data[3], np.arange(node.shape[2])), 'wrong-specimen',
                  'times')
        if op.get('labels'):
            self.relabel(op['labels'], paths, mesh, node)

    def relabel(self, op, paths, mesh, node):
        """Other boundary constraint labels in the stored history."""
        from simulators.links.utilities.links_data_to_adimu import \
            update_adimu_mesh_hist_data_files_dirichlet as update
        from user_scripts.global_model_update.material_finder import \
            gen_specimen_data as gsd
        ctx, d, n = self.ctx, mesh.dim, len(mesh.coords)
        g = rng(op['seed'], 'labels')
        labels = np.array([[g.choice([0, 0, 1, 2, 7]) for _ in range(3)]
                           for _ in range(n)])

        def call():
            return update(paths, labels)
        out = self.attempt(call, op.get('fault'), 4*len(paths))
        if out[0] == 'fault':
            ctx.probe('labels_retried')
            out = self.attempt(call)
        ctx.check(out[0] == 'ok', 'history-lost', lambda: 'boundary labels of '
                  'the stored history could not be changed: '
                  f'{type(out[1]).__name__}: {str(out[1])[:200]}')
        data = ctx.must('read history', gsd.get_specimen_numerical_data,
                        paths, d, n)
        ctx.check(close(data[0], node[:, 6:6 + d], 1e-5)
                  and close(data[1], node[:, 15:15 + d], 1e-5),
                  'history-lost', 'changing the boundary labels changed the '
                  'stored history')
        ctx.check(close(data[2], np.repeat(
            labels[:, :d, None], node.shape[2], axis=2)), 'wrong-specimen',
            'changed boundary labels')
        ctx.probe('relabelled')

    def specimen(self, op):
        self.adimu(op, True)

    # -------------------------------------------------------------- utilities
    def dirichlet(self, op):
        from simulators.links.utilities import links_specimen_dirichlet as u
        ctx = self.ctx
        g = rng(op['seed'], 'xyz')
        top = op['top']
        xyz = np.array([[g.choice([0.0, 1.0, 0.5]), g.choice([0.0, top, 1.5]),
                         g.choice([0.0, 1.0])] for _ in range(12)])
        arr = ctx.must('boundary conditions', u.build_specimen_dbc,
                       g.choice(['3d_tensile_double_notched',
                                 '3d_tensile_dogbone']), top, op['disp'], xyz)
        want = {}
        for i, (x, y, z) in enumerate(xyz):
            code = [x == 0.0, y in (0.0, top), z == 0.0]
            if any(code):
                want[i + 1] = (''.join('1' if c else '0' for c in code),
                               [0.0, op['disp'] if y == top else 0.0, 0.0])
        if not want:
            return
        ctx.must('write boundary conditions', u.write_links_dirichlet_bc_file,
                 self.fs.root, arr, is_reaction_group=op['group'])
        with open(os.path.join(self.fs.root, 'specimen_dirichlet_bc.dat')) \
                as f:
            text = f.read()
        dat = parse_dat(text)
        n, rows = dat['NODES_WITH_PRESCRIBED_DISPLACEMENTS']
        got = {}
        for row in rows:
            try:
                got[int(row[0])] = (row[1], [float(v) for v in row[2:]])
            except (ValueError, IndexError):
                raise Violation('wrong-boundary-file', f'row {row}')
        ctx.check(n == len(rows) and set(got) == set(want)
                  and all(got[k][0] == want[k][0]
                          and close(got[k][1], want[k][1], 1e-3)
                          for k in want), 'wrong-boundary-file',
                  lambda: f'{got} instead of {want}')
        if op['group']:
            nodes = [int(x[0]) for x in dat['NODE_GROUPS'][1][1:]]
            ctx.check(nodes == [k for k in sorted(want)
                                if any(want[k][1])], 'wrong-boundary-file',
                      f'reaction nodes {nodes}')
        ctx.probe('dirichlet_file')

    def gp(self, op):
        from simulators.links.utilities.links_out_to_dataset import \
            build_dataset
        ctx = self.ctx
        g = np.random.RandomState(op['seed'])
        files, tables = [], []
        for k in range(op['n']):
            table = g.uniform(-1, 1, (op['n_time'], 60))
            table = np.round(table, 6)
            path = os.path.join(self.fs.root, f'gp_{op["n"] - k}.out')
            with open(path, 'w') as f:
                f.write('Gauss point output\n')
                f.write(' '.join(f'C{i}' for i in range(60)) + '\n')
                for row in table:
                    f.write(' '.join(f'{x:.6E}' for x in row) + '\n')
            files.append(path)
            tables.append(table)
        data = ctx.must('Gauss point data set', build_dataset, files, 3)
        ctx.check(len(data) == op['n'], 'wrong-dataset', f'{len(data)}')
        half = np.array([1, 1, 1, .5, .5, .5])
        for i, t in enumerate(tables):
            s = data[i]
            ctx.check(close(s['strain_path'], t[:, 53:59]*half, 1e-5)
                      and close(s['stress_path'], t[:, 11:17], 1e-5)
                      and close(s['time_hist'], t[:, :1], 1e-5),
                      'wrong-dataset', f'sample {i}')
        ctx.probe('gauss_point_file')


def run(ctx):
    scn = ctx.scn
    fs = SimFS(os.path.join(ctx.scratch, 'disk'), ctx)
    os.makedirs(fs.root, exist_ok=True)
    sim = Sim(ctx, fs, scn.get('names'))
    saved = subprocess.run
    torch.manual_seed(scn['np_seed'])
    np.random.seed(scn['np_seed'])
    try:
        subprocess.run = sim.solver
        with fs.installed():
            os.makedirs(sim.dir, exist_ok=True)
            if scn['what'] == 'patches':
                patches(ctx, scn, fs, sim)
                return
            for op in scn['ops']:
                getattr(sim, op['op'])(op)
    finally:
        subprocess.run = saved


# ------------------------------------------------------------ several patches
@contextlib.contextmanager
def replaced(pairs):
    saved = [(m, n, getattr(m, n)) for m, n, _ in pairs]
    for m, n, new in pairs:
        setattr(m, n, new)
    try:
        yield
    finally:
        for m, n, old in saved:
            setattr(m, n, old)


def patches(ctx, scn, fs, sim):
    from user_scripts.synthetic_data import build_local_paths_dataset as blp
    from user_scripts.synthetic_data import gen_random_specimen as grs
    from data_generation.spdg.patch import FiniteElementPatch
    name, ids = scn['name'], scn['ids']
    sim.solver.affine = True
    base = os.path.join(fs.root, 'patches')
    os.makedirs(base)
    recs = {}
    if scn['script']:
        name = 'random_specimen'
        sim.solver.binary = ('/home/username/Documents/repositories/external/'
                             'LINKS/bin/LINKS')
        n = len(ids)
        turn = iter(range(n))
        outer = sim.solver

        def next_run(*args, **kwargs):
            outer.plan = scn['solvers'][next(turn)]
            return outer(*args, **kwargs)
        bad = [s['how'] for s in scn['solvers'] if s['how'] != 'ok']
        mesh = {'elem_type': 'SHEXA8', 'n_elems_per_dim': (2, 1, 1)}
        with replaced([(subprocess, 'run', next_run),
                       (grs, 'plot_links_tfact_hist', lambda *a, **k: None),
                       (FiniteElementPatch, 'plot_deformed_patch',
                        lambda *a, **k: None),
                       (grs, 'set_patch_mesh_params', lambda d: dict(mesh))]):
            out = sim.attempt(lambda: grs.generate_random_patches(
                base, patch_name=name, n_patch=n))
        ctx.state(['script', n, bad, out[0]])
        ctx.probe('patches_script')
        if bad:
            ctx.check(out[0] == 'error', 'false-success', 'patch generation '
                      f'succeeded although a solver run did not ({bad})')
            return
        ctx.check(out[0] == 'ok', 'unexpected-exception', lambda: (
            f'generate_random_patches: {type(out[1]).__name__}: '
            f'{str(out[1])[:300]}'))
        dats, dirs = out[1]
        ctx.check(sorted(dats) == sorted(str(i) for i in range(n)),
                  'wrong-path', f'{sorted(dats)}')
        if n == 1:
            return
        ids = list(range(n))
        for i in ids:
            recs[i] = outer.records[os.path.normpath(dirs[str(i)])]
    else:
        order = sorted(range(len(ids)), key=lambda k: h64(ctx.seed, k))
        for k in order:
            d = os.path.join(base, f'{name}_{ids[k]}', 'simulations')
            os.makedirs(d)
            spec = dict(scn['meshes'][k], kind='SHEXA8', free=False,
                        n=[min(x, 2) for x in scn['meshes'][k]['n'][:2]] + [1])
            sim.dir = d
            sim.gen({'op': 'gen', 'name': name, 'mesh': spec, 'materials': [
                {'name': 'ELASTIC', 'young': 100.0, 'poisson': 0.3}],
                'voids': 0, 'overwrite': True, 'increm': False})
            sim.run({'name': name, 'solver': dict(scn['solvers'][k],
                                                  how='ok')})
            recs[ids[k]] = sim.good[os.path.join(d, name)]
        os.makedirs(os.path.join(base, f'{name}_x'))
        os.makedirs(os.path.join(base, f'{name}_1_old'))
    out = sim.attempt(lambda: blp.build_local_paths_dataset(base, name))
    ctx.state(['local', len(ids), out[0]])
    ctx.check(out[0] == 'ok', 'unexpected-exception', lambda: (
        f'build_local_paths_dataset: {type(out[1]).__name__}: '
        f'{str(out[1])[:300]}'))
    data, i = out[1], 0
    n_all = sum(8*recs[k]['dat']['ELEMENTS'][0] for k in recs)
    ctx.check(len(data) == n_all, 'wrong-dataset',
              f'{len(data)} local paths of {n_all} Gauss points')
    for k in sorted(recs):
        grads = np.stack(recs[k]['grads'])
        eps = 0.5*(grads + grads.transpose(0, 2, 1))
        want = np.stack([eps[:, a, b] for a, b in
                         ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2))], 1)
        for _ in range(8*recs[k]['dat']['ELEMENTS'][0]):
            got = np.asarray(data[i]['strain_path'], dtype=float)
            ctx.check(got.shape == want.shape
                      and np.abs(got - want).max() < 2e-5, 'wrong-dataset',
                      lambda: f'strain path {i} is not the one of patch {k}')
            i += 1
    ctx.probe('local_paths')
