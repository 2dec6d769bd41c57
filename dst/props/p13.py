"""P13: random specimens obey their specification or are refused."""
import contextlib
import io
import os
import pickle
import subprocess

import numpy as np
import torch

from dst import build
from dst.calls import count_calls, fault_at
from dst.core import HarnessError, SimCrash, SimInterrupt, Violation, rng
from dst.vfs import SimFS

RUNS = {'quick': 700, 'thorough': 20000}
RULE = ('one run = a seeded sequence of specimen requests (dimension, element '
        'type, mesh, corner ranges and supports, edge orders and ranges, '
        'rigid motions, noise, number of attempts) on shared or fresh '
        'generators, with refused and repeated attempts and interrupts, '
        'failing allocations or numerical failures at a seeded call, or a '
        'seeded sequence of storing and loading specimens around a simulated '
        'solver with crashes, torn writes and I/O errors; non-trivial = at '
        'least one specimen was generated')
PROBES = ('2d', '3d', 'curved', 'straight', 'zero_order', 'fixed_corner',
          'disjoint_ranges', 'noise', 'translated', 'turned', 'face_nodes',
          'refused', 'attempts', 'folded', 'same_seed', 'intr', 'oom', 'num',
          'outward', 'SQUAD8', 'SHEXA20', 'stored', 'loaded', 'loaded_saved',
          'crash', 'error', 'bad_spec')
STATE_MEASURE = 'digest of (request kind, dimension, orders, attempts, fault)'
REAL = ['data_generation/spdg/patch_generator', 'data_generation/spdg/patch',
        'links/discretization/finite_element',
        'user_scripts/synthetic_data/gen_random_specimen',
        'links input data file generation', 'ioput/iostandard', 'shapely']
STUB = ['external solver (in-process stand-in)', 'disk', 'plots',
        'mesh size of the script']
ASSUMPTIONS = ['all draws come from the global numpy generator']
SHRINK_LISTS = ('ops',)

KINDS_2D = ('SQUAD4', 'SQUAD4', 'SQUAD8', 'SQUAD12', 'LQUAD4', 'LQUAD9',
            'LQUAD16')
NODES = {'SQUAD4': 2, 'SQUAD8': 3, 'SQUAD12': 4, 'LQUAD4': 2, 'LQUAD9': 3,
         'LQUAD16': 4, 'SHEXA8': 2, 'SHEXA20': 3}
FAULTS = ('crash', 'crash_after', 'torn', 'enospc', 'eio', 'intr')
# Corners: 1..4 counter-clockwise (bottom), 5..8 above them. Edges: first and
# last corner and the corner opposite to the first one in the edge's face.
EDGES = {2: {'1': (1, 2, 3), '2': (4, 3, 2), '3': (1, 4, 3), '4': (2, 3, 4)},
         3: {'1': (1, 2, 3), '2': (4, 3, 2), '3': (1, 4, 3), '4': (2, 3, 4),
             '5': (5, 6, 7), '6': (8, 7, 6), '7': (5, 8, 7), '8': (6, 7, 8),
             '9': (1, 4, 8), '10': (5, 8, 4), '11': (1, 5, 8),
             '12': (4, 8, 5), '13': (2, 3, 7), '14': (6, 7, 3),
             '15': (2, 6, 7), '16': (3, 7, 6), '17': (1, 2, 6),
             '18': (5, 6, 2), '19': (1, 5, 6), '20': (2, 6, 5),
             '21': (4, 3, 7), '22': (8, 7, 3), '23': (4, 8, 7),
             '24': (3, 7, 8)}}
# The 2D edge opposite corner of edge 2 is corner 2, of edge 4 is corner 4
CORNERS = {2: [(0, 0), (1, 0), (1, 1), (0, 1)],
           3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
               (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}


# ----------------------------------------------------------------- generation
def gen_range(r, amp, fixed=False):
    lo, hi = sorted((r.uniform(-amp, amp), r.uniform(-amp, amp)))
    if fixed:
        return [lo, lo]
    return r.choice([[lo, hi], [-amp, amp], [0.0, 0.0], [lo, lo], [0.0, hi]
                     if hi > 0 else [lo, 0.0]])


def gen_spec(r, dim=None):
    dim = dim or r.choice([2, 2, 2, 2, 2, 3])
    labels = list(EDGES[dim])
    size = [r.choice([1.0, 1.0, 2.0, 0.5, 10.0]) for _ in range(dim)]
    kind = r.choice(KINDS_2D) if dim == 2 else r.choice(['SHEXA8', 'SHEXA8',
                                                         'SHEXA20'])
    top = {2: 5, 3: 3}[dim]
    n = [r.choice([1, 2, 3, top]) for _ in range(dim)]
    big = r.choice([0.05, 0.2, 0.2, 0.5, 0.9, 1.3, 2.0]) if dim == 2 else \
        r.choice([0.02, 0.1, 0.2])
    amp = big*min(size)
    fixed = r.random() < 0.25
    spec = {'dim': dim, 'size': size, 'kind': kind, 'n': n,
            'seed': r.randint(0, 2**31), 'max_iter': r.choice([1, 2, 5, 10,
                                                               10, 10])}
    if r.random() < 0.85:
        common = r.random() < 0.3
        first = gen_range(r, amp, fixed)
        spec['corners'] = {
            str(c + 1): [first if common else gen_range(r, amp, fixed)
                         for _ in range(dim)]
            for c in range(2**dim) if r.random() < 0.9}
    style = r.random()
    if dim == 2 and style < 0.3:
        # corners free to fold the specimen, drawn or given
        a = r.uniform(0.4, 1.3)*min(size)
        spec['corners'] = {str(c + 1): [[-a, a]]*2 if style < 0.15 else [
            [x, x] for x in (r.uniform(-a, a), r.uniform(-a, a))]
            for c in range(4)}
        spec['order'] = {k: 1 if style > 0.15 else r.choice([1, 1, 2, 3])
                         for k in labels}
        if style < 0.15:
            spec['ranges'] = {k: [-0.2*a, 0.2*a] for k in labels}
        return spec
    if r.random() < 0.35:
        spec['bc'] = {str(c + 1): [int(r.random() < 0.6) for _ in range(dim)]
                      for c in range(2**dim) if r.random() < 0.5}
    mode = r.choice(['int', 'dict', 'dict', 'dict', None])
    if mode == 'int':
        spec['order'] = r.choice([0, 1, 2, 3, 4])
    elif mode == 'dict':
        spec['order'] = {k: r.choice([0, 1, 2, 3, 3]) for k in labels
                         if r.random() < 0.85}
        if dim == 3 and r.random() < 0.8:
            # one curved edge of every matching pair at most
            for k in labels:
                spec['order'][k] = max(1, spec['order'].get(k, 1))
            for a in labels:
                for b in labels:
                    if a < b and EDGES[3][a][:2] == EDGES[3][b][:2]:
                        spec['order'][r.choice([a, b])] = 1
    if r.random() < 0.8:
        e = 0.3*amp
        spec['ranges'] = {}
        for k in labels:
            if r.random() < 0.85:
                lo, hi = sorted((r.uniform(-e, e), r.uniform(-e, e)))
                spec['ranges'][k] = r.choice([[lo, hi], [-e, e], [0.2*e, e],
                                              [-e, -0.2*e], [lo, lo]])
    if r.random() < 0.35:
        spec['move'] = {str(k + 1): r.choice([[x, x], [x, x], [x - 1, x]])
                        for k in range(dim) if r.random() < 0.8
                        for x in [r.uniform(-3, 3)]}
    if r.random() < 0.35:
        spec['turn'] = {k: r.choice([[x, x], [x, x], [x - 30, x]])
                        for k in ('alpha', 'beta', 'gamma')
                        if r.random() < 0.8
                        for x in [r.choice([90.0, r.uniform(-180, 180)])]}
    if r.random() < 0.1:
        spec['noise'] = r.choice([0.001, 0.01])
    return spec


def gen(seed, tier):
    r = rng(seed, 'gen')
    if r.random() < 0.16:
        runs = [{'load': False, 'save': True}]
        for _ in range(r.randint(1, 3)):
            runs.append({'load': r.random() < 0.8, 'save': r.random() < 0.7})
        for k in runs[r.choice([0, 1, 1]):]:
            if r.random() < 0.6:
                k['fault'] = {'pos': r.random()*r.choice([1.0, 0.3]), 'kind': r.choice(FAULTS),
                              'frac': r.choice([0.0, 0.3, 0.7])}
        return {'what': 'store', 'ops': runs, 'n': r.choice([1, 1, 2, 3]),
                'np_seed': r.randint(0, 2**31),
                'mesh': [r.choice([1, 2]) for _ in range(3)]}
    ops = []
    for i in range(r.choice([1, 1, 2, 3])):
        op = {'id': i, 'spec': gen_spec(r), 'shared': r.random() < 0.5}
        op['check'] = r.choice([None, None, 'seed', 'attempts', 'attempts'])
        if r.random() < 0.2:
            op['fault'] = {'pos': r.random(),
                           'kind': r.choice(['intr', 'oom', 'num'])}
        if r.random() < 0.06:
            op['bad'] = r.choice(['corner_list', 'corner_short', 'bc_short',
                                  'order_float', 'range_list', 'element'])
        ops.append(op)
    return {'what': 'generate', 'ops': ops}


def shrink(scn):
    for i, op in enumerate(scn['ops']):
        for key in ('fault', 'check', 'bad'):
            if op.get(key):
                new = build.snapshot(scn)
                new['ops'][i][key] = None
                yield new
        for key in ('move', 'turn', 'noise', 'bc', 'ranges', 'order',
                    'corners'):
            if op.get('spec', {}).get(key) is not None:
                new = build.snapshot(scn)
                del new['ops'][i]['spec'][key]
                yield new
        for j, n in enumerate(op.get('spec', {}).get('n', ())):
            if n > 1:
                new = build.snapshot(scn)
                new['ops'][i]['spec']['n'][j] = n - 1
                yield new
    if scn.get('n', 1) > 1:
        new = build.snapshot(scn)
        new['n'] -= 1
        yield new


# -------------------------------------------------------------------- request
def arguments(spec):
    kw = {'max_iter': spec['max_iter']}
    if 'corners' in spec:
        kw['corners_lab_disp_range'] = {
            k: tuple(tuple(x) for x in v) for k, v in spec['corners'].items()}
    if 'bc' in spec:
        kw['corners_lab_bc'] = {k: tuple(v) for k, v in spec['bc'].items()}
    if spec.get('order') is not None:
        kw['edges_lab_def_order'] = build.snapshot(spec['order'])
    if 'ranges' in spec:
        kw['edges_lab_disp_range'] = {k: tuple(v) for k, v in
                                      spec['ranges'].items()}
    if 'move' in spec:
        kw['translation_range'] = {k: tuple(v) for k, v in
                                   spec['move'].items()}
    if 'turn' in spec:
        kw['rotation_angles_range'] = {k: tuple(v) for k, v in
                                       spec['turn'].items()}
    if spec.get('noise'):
        kw['deformation_noise'] = spec['noise']
    return (spec['kind'], tuple(spec['n'])), kw


def spoil(args, kw, spec, bad):
    dim = spec['dim']
    if bad == 'corner_list':
        kw['corners_lab_disp_range'] = {'1': [(0.0, 0.1)]*dim}
    elif bad == 'corner_short':
        kw['corners_lab_disp_range'] = {'2': ((0.0, 0.1),)*(dim - 1)}
    elif bad == 'bc_short':
        kw['corners_lab_bc'] = {'1': (1,)*(dim - 1)}
    elif bad == 'order_float':
        kw['edges_lab_def_order'] = {'1': 2.0}
    elif bad == 'range_list':
        kw['edges_lab_disp_range'] = {'2': [0.0, 0.1]}
    else:
        args = ('SQUAD5',) + args[1:]
    return args, kw


def facts(patch):
    """Everything a caller sees of a specimen, as plain data."""
    return {'dim': patch.get_n_dim(), 'kind': patch.get_elem_type(),
            'n': tuple(patch.get_n_elems_per_dim()),
            'edge': tuple(patch.get_n_edge_nodes_per_dim()),
            'matrix': np.array(patch.get_mesh_nodes_matrix()),
            'coords': {int(k): np.array(v, dtype=float) for k, v in
                       patch.get_mesh_nodes_coords_ref().items()},
            'disps': {int(k): np.array(v, dtype=float) for k, v in
                      patch.get_mesh_boundary_nodes_disps().items()},
            'elem': tuple(patch.get_elem_size_dims())}


def same(a, b):
    if set(a['disps']) != set(b['disps']) or a['kind'] != b['kind']:
        return False
    return (np.array_equal(a['matrix'], b['matrix'])
            and all(np.array_equal(a['disps'][k], b['disps'][k])
                    for k in a['disps'])
            and all(np.array_equal(a['coords'][k], b['coords'][k])
                    for k in a['coords']))


# ---------------------------------------------------------------- own oracles
def euler(a, b, c):
    def rz(x):
        return np.array([[np.cos(x), -np.sin(x), 0], [np.sin(x), np.cos(x), 0],
                         [0, 0, 1.0]])
    x = np.radians(b)
    rx = np.array([[1.0, 0, 0], [0, np.cos(x), -np.sin(x)],
                   [0, np.sin(x), np.cos(x)]])
    return rz(np.radians(a)) @ rx @ rz(np.radians(c))


def centroid(poly):
    """Area centroid of a polygon."""
    p = poly - poly[0]
    q = np.roll(p, -1, axis=0)
    cross = p[:, 0]*q[:, 1] - q[:, 0]*p[:, 1]
    return poly[0] + ((p + q)*cross[:, None]).sum(0)/(3.0*cross.sum())


def area(poly):
    p = poly - poly[0]
    q = np.roll(p, -1, axis=0)
    return 0.5*float((p[:, 0]*q[:, 1] - q[:, 0]*p[:, 1]).sum())


def gap(poly):
    """Signed clearance: positive = simple polygon by that margin."""
    n = len(poly)
    a, b = poly, np.roll(poly, -1, axis=0)
    best = np.inf

    def dist(p, s, t):
        d = t - s
        u = np.clip(((p - s) @ d)/max(d @ d, 1e-300), 0.0, 1.0)
        return np.linalg.norm(p - s - u*d)
    for i in range(n):
        for j in range(i + 1, n):
            if j == i + 1 or (i == 0 and j == n - 1):
                # neighbours: only folding back onto itself is an overlap
                s, m, t = ((a[i], b[i], b[j]) if j == i + 1
                           else (a[j], a[0], b[0]))
                u, v = m - s, t - m
                if (u @ v) < 0:
                    best = min(best, abs(u[0]*v[1] - u[1]*v[0]))
                continue
            d1, d2 = b[i] - a[i], b[j] - a[j]
            den = d1[0]*d2[1] - d1[1]*d2[0]
            w = a[j] - a[i]
            if abs(den) > 1e-14:
                s = (w[0]*d2[1] - w[1]*d2[0])/den
                t = (w[0]*d1[1] - w[1]*d1[0])/den
                if 0.0 <= s <= 1.0 and 0.0 <= t <= 1.0:
                    return -min(s, 1 - s, t, 1 - t) - 1e-12
            best = min(best, dist(a[i], a[j], b[j]), dist(b[i], a[j], b[j]),
                       dist(a[j], a[i], b[i]), dist(b[j], a[i], b[i]))
    return best


def loop(spec, m, pos):
    """Boundary node positions of a 2D specimen, counter-clockwise."""
    path = (list(m[:-1, 0]) + list(m[-1, :-1]) + list(m[:0:-1, -1])
            + list(m[0, :0:-1]))
    return np.array([pos[k] for k in path])


def orders(spec):
    """Effective polynomial order of every edge."""
    dim, order = spec['dim'], spec.get('order')
    if order is None:
        out = {k: 0 for k in EDGES[dim]}
    elif isinstance(order, dict):
        out = {k: max(0, order.get(k, 0)) for k in EDGES[dim]}
    else:
        out = {k: max(0, order) for k in EDGES[dim]}
    for a in EDGES[dim]:
        for b in EDGES[dim]:
            if EDGES[dim][a][:2] == EDGES[dim][b][:2] and 0 in (out[a],
                                                               out[b]):
                out[a] = out[b] = 0
    return out


def corner_ranges(spec):
    dim = spec['dim']
    out = np.zeros((2**dim, dim, 2))
    for k, v in spec.get('corners', {}).items():
        out[int(k) - 1] = v
    for k, v in spec.get('bc', {}).items():
        for d, flag in enumerate(v):
            if flag == 1:
                out[int(k) - 1, d] = 0.0
    return out


def check_mesh(ctx, spec, f):
    dim, k = spec['dim'], NODES[spec['kind']]
    shape = tuple(n*(k - 1) + 1 for n in spec['n'])
    m = f['matrix']
    ctx.check(f['dim'] == dim and f['kind'] == spec['kind']
              and f['n'] == tuple(spec['n']) and f['edge'] == shape
              and m.shape == shape, 'wrong-mesh', lambda:
              f'{f["kind"]} {f["n"]} {m.shape}, requested {spec["kind"]} '
              f'{spec["n"]}')
    ctx.check(np.allclose(f['elem'], [s/n for s, n in zip(
        spec['size'], spec['n'])]), 'wrong-mesh', f'element size {f["elem"]}')
    used = np.ones(shape, dtype=bool)
    if spec['kind'][0] == 'S' and k > 2:
        for idx in np.ndindex(shape):
            used[idx] = sum(i % (k - 1) != 0 for i in idx) <= 1
    ctx.check(np.array_equal(m != 0, used), 'wrong-mesh',
              'nodes at the wrong places of the grid')
    labels = sorted(int(x) for x in m[used])
    ctx.check(labels == list(range(1, len(labels) + 1))
              and sorted(f['coords']) == labels, 'wrong-mesh',
              'node labels are not 1, 2, ...')
    for idx in np.ndindex(shape):
        if used[idx]:
            want = [i/(n - 1)*s for i, n, s in zip(idx, shape, spec['size'])]
            ctx.check(np.allclose(f['coords'][m[idx]], want, atol=1e-9),
                      'wrong-mesh', lambda: f'node {m[idx]} lies at '
                      f'{f["coords"][m[idx]]}, not {want}')
    bound = {int(m[idx]) for idx in np.ndindex(shape) if used[idx] and any(
        i in (0, n - 1) for i, n in zip(idx, shape))}
    ctx.check(set(f['disps']) == bound, 'wrong-boundary', lambda:
              f'displacements prescribed at {len(f["disps"])} nodes, the '
              f'boundary has {len(bound)}')
    for k, v in f['disps'].items():
        ctx.check(v.shape == (dim,) and np.isfinite(v).all(),
                  'wrong-boundary', lambda: f'displacement {v} at node {k}')
    return shape


def corner_index(shape, c):
    return tuple((n - 1)*x for n, x in zip(shape, c))


def edge_nodes(m, shape, dim, first, last):
    a = corner_index(shape, CORNERS[dim][first - 1])
    b = corner_index(shape, CORNERS[dim][last - 1])
    d = [i for i in range(dim) if a[i] != b[i]][0]
    out = []
    for i in range(shape[d]):
        idx = list(a)
        idx[d] = i
        out.append(int(m[tuple(idx)]))
    return out


def check_patch(ctx, spec, patch):
    f = facts(patch)
    dim = spec['dim']
    shape = check_mesh(ctx, spec, f)
    m = f['matrix']
    pos = {k: f['coords'][k] + v for k, v in f['disps'].items()}
    scale = max(spec['size'])
    tol = 1e-8*(scale + 3.0)
    if dim == 2:
        poly = loop(spec, m, pos)
        clear = gap(poly)
        ctx.check(clear > -1e-9 and area(poly) > 0, 'not-admissible',
                  lambda: f'the boundary of an accepted specimen crosses '
                  f'itself or is turned inside out (area {area(poly):.3g}, '
                  f'clearance {clear:.3g})')
    # Undo the rigid motion where the request fixes it
    move, turn = spec.get('move', {}), spec.get('turn', {})
    known = all(x[0] == x[1] for x in list(move.values()) + list(turn.values()))
    still = not spec.get('corners') and all(
        o <= 1 for o in orders(spec).values())
    corners = {c + 1: m[corner_index(shape, CORNERS[dim][c])]
               for c in range(2**dim)}
    if (move or turn) and not known:
        if still and not spec.get('noise'):
            check_motion(ctx, spec, f, pos, corners, tol)
        ctx.probe('translated' if move else 'turned')
        return f
    if move or turn:
        t = np.array([move.get(str(d + 1), [0.0])[0] for d in range(dim)])
        if dim == 2:
            rot = euler(turn.get('alpha', [0.0])[0], 0.0, 0.0)[:2, :2]
            mid = centroid(poly)
        else:
            rot = euler(*(turn.get(k, [0.0])[0] for k in
                          ('alpha', 'beta', 'gamma')))
            mid = np.mean([pos[corners[c]] for c in corners], axis=0)
        if dim == 2 and area(poly) < 1e-3*scale**2:
            return f
        pos = {k: (mid - t) + rot.T @ (x - mid) for k, x in pos.items()}
        if move:
            ctx.probe('translated')
        if turn:
            ctx.probe('turned')
    disp = {k: pos[k] - f['coords'][k] for k in pos}
    check_corners(ctx, spec, disp, corners, tol)
    if spec.get('noise'):
        ctx.probe('noise')
        return f
    check_edges(ctx, spec, pos, corners, shape, m, tol)
    if dim == 3:
        check_faces(ctx, spec, f, m)
    return f


def check_motion(ctx, spec, f, pos, corners, tol):
    """Only a rigid motion was requested: it lies in the given ranges."""
    dim = spec['dim']
    ids = [corners[c] for c in sorted(corners)]
    a = np.array([f['coords'][k] for k in ids])
    b = np.array([pos[k] for k in ids])
    t = b.mean(0) - a.mean(0)
    for d in range(dim):
        lo, hi = spec.get('move', {}).get(str(d + 1), [0.0, 0.0])
        ctx.check(lo - tol <= t[d] <= hi + tol, 'wrong-motion', lambda:
                  f'translation {t[d]} along {d + 1}, range [{lo}, {hi}]')
    u, _, vt = np.linalg.svd((b - b.mean(0)).T @ (a - a.mean(0)))
    rot = u @ vt
    ctx.check(np.allclose(b - b.mean(0), (a - a.mean(0)) @ rot.T,
                          atol=10*tol) and np.linalg.det(rot) > 0,
              'wrong-motion', 'the specimen did not move as a rigid body')
    if dim == 2:
        lo, hi = spec.get('turn', {}).get('alpha', [0.0, 0.0])
        ang = np.degrees(np.arctan2(rot[1, 0], rot[0, 0]))
        ctx.check(any(lo - 1e-5 <= ang + 360*k <= hi + 1e-5
                      for k in (-1, 0, 1)), 'wrong-motion', lambda:
                  f'rotation by {ang}, range [{lo}, {hi}]')


def check_corners(ctx, spec, disp, corners, tol):
    dim, rg, order = spec['dim'], corner_ranges(spec), orders(spec)
    for c in corners:
        u = disp[corners[c]]
        for d in range(dim):
            lo, hi = rg[c - 1, d]
            pairs = set()
            for k, (a, b, _) in EDGES[dim].items():
                along = [i for i in range(dim) if CORNERS[dim][a - 1][i]
                         != CORNERS[dim][b - 1][i]][0]
                if order[k] == 0 and c in (a, b) and along != d:
                    pairs.add((a, b))
            meet = all(max(rg[a - 1, d, 0], rg[b - 1, d, 0])
                       <= min(rg[a - 1, d, 1], rg[b - 1, d, 1])
                       for a, b in pairs)
            if meet:
                ctx.check(lo - tol <= u[d] <= hi + tol, 'wrong-corner',
                          lambda: f'corner {c} moves by {u[d]} along {d + 1}, '
                          f'outside of [{lo}, {hi}]')
                if spec.get('bc', {}).get(str(c), [0]*dim)[d] == 1:
                    ctx.probe('fixed_corner')
            if dim == 2 and pairs:
                (a, b), = pairs
                x, y = disp[corners[a]][d], disp[corners[b]][d]
                ctx.check(abs(x - y) <= tol, 'wrong-corner', lambda:
                          f'edge {a}-{b} of order zero: its ends move by {x} '
                          f'and {y} along {d + 1}')
                ctx.probe('zero_order')
                if not meet:
                    ctx.probe('disjoint_ranges')
                    lo2 = np.mean([rg[a - 1, d, 0], rg[b - 1, d, 0]])
                    hi2 = np.mean([rg[a - 1, d, 1], rg[b - 1, d, 1]])
                    ctx.check(lo2 - tol <= x <= hi2 + tol, 'wrong-corner',
                              lambda: f'edge {a}-{b} of order zero moves by '
                              f'{x}, average of the ranges is [{lo2}, {hi2}]')


def check_edges(ctx, spec, pos, corners, shape, m, tol):
    dim, order = spec['dim'], orders(spec)
    for k, (a, b, c) in EDGES[dim].items():
        twin = [j for j in EDGES[dim] if j != k
                and EDGES[dim][j][:2] == (a, b)]
        rest = max([order[j] for j in twin], default=1)
        if rest > 1:
            continue
        pts = np.array([pos[i] for i in edge_nodes(m, shape, dim, a, b)])
        p0, p1 = pts[0], pts[-1]
        s = np.linspace(0.0, 1.0, len(pts))[:, None]
        chord = p0 + s*(p1 - p0)
        if twin:
            pts = 2.0*pts - chord
        if order[k] <= 1:
            ctx.check(np.abs(pts - chord).max() <= tol, 'wrong-edge', lambda:
                      f'edge {k} of order {order[k]} is not straight and '
                      f'evenly divided (off by {np.abs(pts - chord).max()})')
            ctx.probe('straight')
            continue
        length = np.linalg.norm(p1 - p0)
        e = (p1 - p0)/length
        diag = pos[corners[c]] - p0
        out = -(diag - (diag @ e)*e)
        if np.linalg.norm(out) < 1e-3*length:
            continue
        out = out/np.linalg.norm(out)
        x, y = (pts - p0) @ e, (pts - p0) @ out
        off = pts - p0 - np.outer(x, e) - np.outer(y, out)
        ctx.check(np.abs(off).max() <= tol, 'wrong-edge',
                  f'edge {k} leaves the plane of its face')
        n = order[k]
        lo, hi = spec.get('ranges', {}).get(k, [0.0, 0.0])
        if lo > 0:
            ctx.probe('outward')
        if len(pts) < n + 1:
            continue
        fit = np.polynomial.Polynomial.fit(x, y, n, domain=[0.0, length])
        err = np.abs(fit(x) - y).max()
        ctx.check(err <= 10*tol, 'wrong-edge', lambda: f'edge {k} is not a '
                  f'polynomial of order {n} over its chord (off by {err})')
        ctrl = fit(np.linspace(0.0, length, n + 1)[1:-1])
        # amplification of rounding if the nodes crowd together
        amp = 1e3*tol*max(1.0, (length/max(np.diff(np.sort(x)).min(),
                                           1e-12))**n)
        ctx.check(amp > 1 or (lo - amp <= ctrl.min()
                              and ctrl.max() <= hi + amp), 'wrong-edge',
                  lambda: f'edge {k}: control points at {ctrl}, outside of '
                  f'[{lo}, {hi}] (outward positive)')
        # nodes divide the deformed edge evenly
        xx = np.linspace(0.0, length, 4001)
        arc = np.concatenate(([0.0], np.cumsum(np.hypot(
            np.diff(xx), np.diff(fit(xx))))))
        at = np.interp(x, xx, arc)/arc[-1]
        ctx.check(np.abs(at - s[:, 0]).max() <= 5e-3, 'wrong-edge', lambda:
                  f'nodes at {at} of edge {k} instead of {s[:, 0]}')
        ctx.probe('curved')


def check_faces(ctx, spec, f, m):
    d = f['disps']
    for axis in range(3):
        for side in (0, -1):
            face = np.take(m, side, axis=axis)
            n1, n2 = face.shape
            for i in range(1, n1 - 1):
                for j in range(1, n2 - 1):
                    if face[i, j] == 0:
                        continue
                    s, t = i/(n1 - 1), j/(n2 - 1)
                    want = 0.5*((1 - s)*d[face[0, j]] + s*d[face[-1, j]]
                                + (1 - t)*d[face[i, 0]] + t*d[face[i, -1]])
                    got = d[face[i, j]]
                    ctx.check(np.abs(got - want).max() <= 1e-7*(
                        1 + np.abs(want).max()), 'wrong-face', lambda:
                        f'face node {face[i, j]} moves by {got}, its edges '
                        f'give {want}')
                    ctx.probe('face_nodes')


# ---------------------------------------------------------------- run: calls
def fixed_shape(spec):
    """Boundary of a 2D request that leaves nothing to chance, or None."""
    if spec['dim'] != 2 or spec.get('noise') or any(
            o > 1 for o in orders(spec).values()):
        return None
    rg, order = corner_ranges(spec), orders(spec)
    if not (rg[:, :, 0] == rg[:, :, 1]).all():
        return None
    pts = np.array(CORNERS[2], dtype=float)*spec['size'] + rg[:, :, 0]
    for k, (a, b, _) in EDGES[2].items():
        if order[k] == 0:
            d = 1 if k in '12' else 0
            mean = 0.5*(rg[a - 1, d, 0] + rg[b - 1, d, 0])
            for c in (a, b):
                pts[c - 1, d] = CORNERS[2][c - 1][d]*spec['size'][d] + mean
    return pts


def request(ctx, gp, spec, op, **more):
    args, kw = arguments(spec)
    kw.update(more)
    if op.get('bad'):
        args, kw = spoil(args, kw, spec, op['bad'])
    before = build.snapshot([list(args[1]), kw])
    np.random.seed(spec['seed'] % 2**32) if 'seeded' not in op else None
    try:
        out = ('ok', gp.generate_deformed_patch(*args, **kw))
    except (SimInterrupt, MemoryError) as exc:
        out = ('fault', exc)
    except (Violation, HarnessError, SimCrash):
        raise
    except Exception as exc:
        out = ('error', exc)
    ctx.check(build.snapshot([list(args[1]), kw]) == before,
              'input-changed', 'the request changed the given specification')
    if out[0] == 'ok':
        good, patch = out[1]
        ctx.check(bool(good) == (patch is not None), 'wrong-answer', lambda:
                  f'admissible: {good}, specimen: {patch is not None}')
    return out


def generate(ctx, scn):
    from data_generation.spdg.patch_generator import \
        FiniteElementPatchGenerator
    made = {}
    for op in scn['ops']:
        spec = op['spec']
        key = (spec['dim'], tuple(spec['size']))
        if not (op['shared'] and key in made):
            made[key] = FiniteElementPatchGenerator(spec['dim'], key[1])
        gp = made[key]
        ctx.log('op', op['id'], spec['kind'])
        ctx.probe(f"{spec['dim']}d")
        if spec['kind'] in ('SQUAD8', 'SHEXA20'):
            ctx.probe(spec['kind'])
        if op.get('fault'):
            box = [0]
            with count_calls(box):
                request(ctx, FiniteElementPatchGenerator(*key), spec, op)
            n = 1 + int(op['fault']['pos']*max(1, box[0] - 1))
            with fault_at(ctx, n, op['fault']['kind']):
                request(ctx, gp, spec, op)
            ctx.probe(op['fault']['kind'])
        out = request(ctx, gp, spec, op)
        ctx.state((spec['dim'], spec['kind'], str(orders(spec)), out[0],
                   bool(out[0] == 'ok' and out[1][0]), str(op.get('fault'))))
        if op.get('bad'):
            ctx.check(out[0] == 'error', 'not-refused',
                      f'a wrong specification ({op["bad"]}) was accepted')
            ctx.probe('bad_spec')
            continue
        if out[0] == 'error':
            # only a degenerate trial configuration cannot be evaluated
            small = spec['dim'] == 2 or 0.2 > max(
                abs(corner_ranges(spec)).max()/min(spec['size']), 0)
            if spec['dim'] == 2 and (abs(corner_ranges(spec)).max()
                                     > 0.45*min(spec['size'])):
                ctx.probe('refused')
                continue
            ctx.check(not small, 'request-failed', lambda: (
                f'{type(out[1]).__name__}: {str(out[1])[:200]}'))
            continue
        good, patch = out[1]
        pts = fixed_shape(spec)
        if pts is not None:
            clear = gap(pts)
            if abs(clear) > 1e-6 and abs(area(pts)) > 1e-6:
                want = clear > 0 and area(pts) > 0
                ctx.check(bool(good) == want, 'wrong-answer', lambda:
                          f'a {"sound" if want else "folded"} specimen was '
                          f'{"accepted" if good else "refused"}')
                if not want:
                    ctx.probe('folded')
        if not good:
            ctx.probe('refused')
        else:
            ctx.nontrivial = True
            first = check_patch(ctx, spec, patch)
        if op['check'] == 'seed' and good:
            np.random.uniform(size=3)
            gp2 = FiniteElementPatchGenerator(*key)
            again = request(ctx, gp2, spec, op)
            ctx.check(again[0] == 'ok' and again[1][0]
                      and same(first, facts(again[1][1])), 'not-repeatable',
                      'the same seed gave another specimen')
            ctx.probe('same_seed')
        elif op['check'] == 'attempts' and spec['dim'] == 2:
            attempts(ctx, gp, spec, op, good, first if good else None)


def attempts(ctx, gp, spec, op, good, first):
    """The accepted specimen is the first admissible of the attempts."""
    total = spec['max_iter']
    hit = None
    for k in range(0, total + 1):
        out = request(ctx, gp, spec, op, max_iter=k)
        if out[0] != 'ok':
            return
        if out[1][0]:
            hit = k
            break
    if hit is None:
        ctx.check(not good, 'wrong-answer', f'{total} attempts are not '
                  'reproducible')
        return
    ctx.check(hit > 0, 'wrong-answer', 'a specimen without any attempt')
    ctx.check(good and same(first, facts(out[1][1])), 'wrong-attempt',
              f'the specimen accepted at attempt {hit} of {hit} differs from '
              f'the one of up to {total} attempts')
    if hit > 1:
        # rejected attempts leave no trace: carry on with a new generator
        from data_generation.spdg.patch_generator import \
            FiniteElementPatchGenerator
        request(ctx, gp, spec, op, max_iter=hit - 1)
        new = FiniteElementPatchGenerator(spec['dim'], tuple(spec['size']))
        out = request(ctx, new, spec, dict(op, seeded=True), max_iter=1)
        ctx.check(out[0] == 'ok' and out[1][0]
                  and same(first, facts(out[1][1])), 'wrong-attempt',
                  'rejected attempts change what a later attempt gives')
        ctx.probe('attempts')


# -------------------------------------------------------------- run: storage
@contextlib.contextmanager
def replaced(pairs):
    saved = [(m, n, getattr(m, n)) for m, n, _ in pairs]
    for m, n, new in pairs:
        setattr(m, n, new)
    try:
        yield
    finally:
        for m, n, old in saved:
            setattr(m, n, old)


def store(ctx, scn, fs):
    from data_generation.spdg.patch import FiniteElementPatch
    from dst.props.p10 import Solver
    from user_scripts.synthetic_data import gen_random_specimen as grs
    solver = Solver(ctx, '/home/username/Documents/repositories/external/'
                    'LINKS/bin/LINKS')
    solver.plan = {'how': 'ok', 'n_time': 1, 'stop': 0, 'torn': False,
                   'extra': False, 'code': 0, 'seed': 1}
    base = os.path.join(fs.root, 'specimens')
    os.makedirs(base)
    n, names = scn['n'], {}
    for i in range(n):
        names[i] = f'patch_{i}' if n > 1 else 'patch'
    keep = os.path.join(base, 'other', 'notes.txt')
    os.makedirs(os.path.dirname(keep))
    with open(keep, 'w') as f:
        f.write('mine')

    def stored(i):
        path = os.path.join(base, names[i], 'material_patch',
                            'material_patch.pkl')
        try:
            with open(path, 'rb') as f:
                return facts(pickle.load(f))
        except FileNotFoundError:
            return None
        except Exception:
            return 'damaged'

    mesh = {'elem_type': 'SHEXA8', 'n_elems_per_dim': tuple(scn['mesh'])}
    for step, op in enumerate(scn['ops']):
        np.random.seed((scn['np_seed'] + step) % 2**32)
        before = {i: stored(i) for i in names}
        whole = all(isinstance(x, dict) for x in before.values())
        solver.records.clear()
        fault = op.get('fault')
        if fault:
            fs.arm({int(fault['pos']*(60 + 40*n)): {'kind': fault['kind'],
                                                   'frac': fault['frac']}})
        hits = sum(v for k, v in ctx.faults.items() if '@' in k)
        with replaced([(subprocess, 'run', solver),
                       (grs, 'plot_links_tfact_hist', lambda *a, **k: None),
                       (FiniteElementPatch, 'plot_deformed_patch',
                        lambda *a, **k: None),
                       (grs, 'set_patch_mesh_params', lambda d: dict(mesh))]):
            try:
                out = ('ok', grs.generate_random_patches(
                    base, patch_name='patch', n_patch=n,
                    is_save_material_patch=op['save'],
                    is_load_material_patch=op['load']))
            except SimCrash:
                out = ('crash', None)
            except (Violation, HarnessError):
                raise
            except BaseException as exc:
                out = ('error', exc)
        hit = sum(v for k, v in ctx.faults.items() if '@' in k) > hits
        fs.disarm()
        fs.restart()
        ctx.log('store', op['load'], op['save'], out[0], hit)
        ctx.state(('store', n, op['load'], op['save'], out[0], hit))
        if hit and out[0] != 'ok':
            ctx.probe('crash' if out[0] == 'crash' else 'error')
        after = {i: stored(i) for i in names}
        with open(keep) as f:
            ctx.check(f.read() == 'mine', 'other-changed', 'a foreign file')
        if op['load']:
            for i in names:
                if isinstance(before[i], dict):
                    ctx.check(isinstance(after[i], dict)
                              and same(before[i], after[i]), 'specimen-lost',
                              lambda: 'a stored specimen was '
                              f'{"damaged" if after[i] == "damaged" else "lost or changed"}'
                              ' by a request that loads it')
        if out[0] == 'ok':
            ctx.check(not op['load'] or whole, 'not-refused', 'a missing or '
                      'damaged specimen was loaded')
        elif not hit:
            ctx.check(op['load'] and not whole, 'request-failed', lambda: (
                f'{type(out[1]).__name__}: {str(out[1])[:200]}'))
            continue
        if out[0] != 'ok':
            continue
        ctx.nontrivial = True
        if op['save'] or op['load']:
            ctx.probe('loaded_saved' if op['load'] and op['save'] else
                      'loaded' if op['load'] else 'stored')
            for i in names:
                ctx.check(isinstance(after[i], dict), 'not-stored',
                          f'specimen {i} was not stored')
                check_store(ctx, solver, after[i], out[1], i)
        elif not op['load']:
            for i in names:
                ctx.check(after[i] is None, 'wrong-store', 'a specimen of an '
                          'earlier request lies in the new directory')


def check_store(ctx, solver, f, paths, i):
    """The solver was given exactly the stored specimen."""
    out = os.path.normpath(paths[1][str(i)])
    ctx.check(out in solver.records, 'wrong-path', f'{out} holds no results')
    count, body = solver.records[out]['dat']['NODE_COORDINATES']
    ctx.check(count == len(f['coords']), 'wrong-input',
              f'{count} nodes of {len(f["coords"])}')
    for row in body:
        ctx.check(np.allclose([float(x) for x in row[1:]],
                              f['coords'][int(row[0])], atol=1e-6),
                  'wrong-input', f'node {row[0]}')
    count, body = solver.records[out]['dat'][
        'NODES_WITH_PRESCRIBED_DISPLACEMENTS']
    ctx.check(count == len(f['disps']), 'wrong-input', lambda:
              f'{count} prescribed nodes of {len(f["disps"])}')
    for row in body:
        vals = [float(x) for x in row[2:5]]
        ctx.check(np.allclose(vals, f['disps'][int(row[0])], atol=1e-6),
                  'wrong-input', lambda: f'node {row[0]}: {row}, the '
                  f'specimen has {f["disps"][int(row[0])]}')


def run(ctx):
    scn = ctx.scn
    torch.set_default_dtype(torch.float32)
    import user_scripts.synthetic_data.gen_random_specimen  # noqa: F401
    with contextlib.redirect_stdout(io.StringIO()):
        if scn['what'] == 'store':
            fs = SimFS(os.path.join(ctx.scratch, 'disk'), ctx)
            os.makedirs(fs.root, exist_ok=True)
            with fs.installed():
                store(ctx, scn, fs)
        else:
            with np.errstate(all='ignore'):
                generate(ctx, scn)
