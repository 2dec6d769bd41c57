"""Small but real instances of the classes under test."""
import copy
import os

import numpy as np
import torch

from dst.core import rng

N_IN, N_OUT = 6, 6


def gru_model(directory, name='gru_material_model', hidden=3, layers=1,
              norm_in=False, norm_out=False, source='torch', seed=0,
              n_in=N_IN, n_out=N_OUT, **kw):
    from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
    torch.manual_seed(seed)
    return GRURNNModel(**gru_args(directory, name, hidden, layers, norm_in,
                                  norm_out, source, n_in, n_out), **kw)


def gru_args(directory, name='gru_material_model', hidden=3, layers=1,
             norm_in=False, norm_out=False, source='torch',
             n_in=N_IN, n_out=N_OUT):
    return dict(n_features_in=n_in, n_features_out=n_out,
                hidden_layer_size=hidden, model_directory=directory,
                model_name=name, is_model_in_normalized=norm_in,
                is_model_out_normalized=norm_out, n_recurrent_layers=layers,
                gru_model_source=source, device_type='cpu')


def elastic_parameters(E=100.0, v=0.3):
    return {'elastic_symmetry': 'isotropic', 'elastic_moduli': None,
            'E': E, 'v': v, 'euler_angles': (0.0, 0.0, 0.0)}


def von_mises_parameters(E=100.0, v=0.3, s0=1.0, a=5.0, b=0.3):
    from simulators.fetorch.material.models.standard.hardening import \
        get_hardening_law
    par = elastic_parameters(E, v)
    par['hardening_law'] = get_hardening_law('nadai_ludwik')
    par['hardening_parameters'] = {'s0': s0, 'a': a, 'b': b, 'ep0': 1e-5}
    return par


def mixed_parameters(E=100.0, v=0.3):
    from simulators.fetorch.material.models.standard.hardening import \
        get_hardening_law
    par = von_mises_parameters(E, v)
    par['kinematic_hardening_law'] = get_hardening_law('nadai_ludwik')
    par['kinematic_hardening_parameters'] = {'s0': 0.0, 'a': 4.0, 'b': 0.4,
                                             'ep0': 1e-5}
    return par


def drucker_parameters(E=100.0, v=0.3):
    par = von_mises_parameters(E, v)
    ang = np.deg2rad(10.0)
    par['yield_cohesion_parameter'] = 2.0/np.sqrt(3)*np.cos(ang)
    par['yield_pressure_parameter'] = 3.0/np.sqrt(3)*np.sin(ang)
    par['flow_pressure_parameter'] = 3.0/np.sqrt(3)*np.sin(ang)
    return par


def lou_parameters(E=100.0, v=0.3):
    from simulators.fetorch.material.models.standard.hardening import \
        get_hardening_law
    par = von_mises_parameters(E, v)
    for key, val in (('a', 1.0), ('b', 0.05), ('c', 1.0), ('d', 0.5)):
        par[f'{key}_hardening_law'] = get_hardening_law('linear')
        par[f'{key}_hardening_parameters'] = {'s0': val, 'a': 0.0}
    par['is_associative_hardening'] = True
    return par


MATERIALS = {'elastic': elastic_parameters, 'von_mises': von_mises_parameters,
             'von_mises_mixed': mixed_parameters,
             'drucker_prager': drucker_parameters,
             'lou_zhang_yoon': lou_parameters}


def material_parameters(name):
    return MATERIALS[name.replace('_vmap', '')]()


BOUNDS = {'E': (50.0, 150.0), 'v': (0.2, 0.4), 's0': (0.5, 1.5),
          'a': (2.0, 8.0), 'b': (0.2, 0.6), 'kin_a': (2.0, 8.0),
          'yield_c_s0': (-3.0, 3.0), 'yield_d_s0': (-1.0, 1.0)}


def rc_args(directory, material='elastic', name='wrapper_recurrent_model',
            learn=('E',), norm_par=False, norm_in=False, norm_out=False,
            init=None, parameters=None):
    learn_par = {}
    for par in learn:
        lo, hi = BOUNDS[par]
        val = (init or {}).get(par, lo + 0.25*(hi - lo))
        learn_par[par] = {'initial_value': val, 'bounds': (lo, hi)}
    return dict(n_features_in=6, n_features_out=6,
                learnable_parameters=learn_par,
                strain_formulation='infinitesimal', problem_type=4,
                material_model_name=material,
                material_model_parameters=(
                    parameters if parameters is not None
                    else material_parameters(material)),
                state_features_out={}, model_directory=directory,
                model_name=name, is_normalized_parameters=norm_par,
                is_model_in_normalized=norm_in,
                is_model_out_normalized=norm_out, device_type='cpu')


def rc_model(directory, **kw):
    from model_architectures.rc_base_model.model.recurrent_model import \
        RecurrentConstitutiveModel
    extra = {k: kw.pop(k) for k in ('is_save_model_init_file',) if k in kw}
    return RecurrentConstitutiveModel(**rc_args(directory, **kw), **extra)


def hybrid_args(directory, name='hybrid_material_model', hidden=3, seed=0,
                norm_out=False, with_rc=True):
    from model_architectures.hybrid_base_model.model.hybridized_model import \
        set_hybridized_model
    from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
    from model_architectures.rc_base_model.model.recurrent_model import \
        RecurrentConstitutiveModel
    torch.manual_seed(seed)
    hyb = {}
    if with_rc:
        args = rc_args(None, material='elastic')
        hyb['candidate'] = set_hybridized_model(
            RecurrentConstitutiveModel, (0, 0), model_init_args=args)
    args = gru_args(None, hidden=hidden)
    hyb['gru'] = set_hybridized_model(
        GRURNNModel, (1, 0), model_init_args=args)
    return dict(n_features_in=6, n_features_out=6, hyb_models_dict=hyb,
                model_directory=directory, model_name=name,
                hybridization_type='additive',
                is_model_in_normalized=False,
                is_model_out_normalized=norm_out, device_type='cpu')


def hybrid_model(directory, **kw):
    from model_architectures.hybrid_base_model.model.hybrid_model import \
        HybridModel
    return HybridModel(**hybrid_args(directory, **kw))


def model_class(kind):
    if kind == 'gru':
        from model_architectures.rnn_base_model.model.gru_model import \
            GRURNNModel
        return GRURNNModel
    if kind == 'rc':
        from model_architectures.rc_base_model.model.recurrent_model import \
            RecurrentConstitutiveModel
        return RecurrentConstitutiveModel
    if kind == 'hybrid':
        from model_architectures.hybrid_base_model.model.hybrid_model import \
            HybridModel
        return HybridModel
    raise KeyError(kind)


def samples(seed, n, n_time=4, scale=0.01, n_in=N_IN, n_out=N_OUT, ids=True,
            tag=0):
    """Time series samples with distinct, reproducible contents."""
    out = []
    for i in range(n):
        gen = np.random.Generator(np.random.PCG64([int(seed) % 2**31, i, tag]))
        fin = gen.standard_normal((n_time, n_in)).cumsum(axis=0)*scale
        mat = np.linspace(0.5, 1.5, n_in*n_out).reshape(n_in, n_out)
        fout = np.tanh(fin @ mat)*3.0 + 0.1*i
        out.append({'features_in': torch.tensor(fin, dtype=torch.float32),
                    'features_out': torch.tensor(fout, dtype=torch.float32),
                    'time_hist': torch.arange(n_time, dtype=torch.float32
                                              ).reshape(-1, 1) + 100.0*i})
    return out


def dataset(seed, n, **kw):
    from time_series_data.time_dataset import TimeSeriesDatasetInMemory
    return TimeSeriesDatasetInMemory(samples(seed, n, **kw))


def state_equal(a, b):
    """Exact equality of nested states (tensors, arrays, containers)."""
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return (isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor)
                and a.dtype == b.dtype and a.shape == b.shape
                and bool(torch.equal(torch.nan_to_num(a, nan=1.25e30),
                                     torch.nan_to_num(b, nan=1.25e30))
                         if a.is_floating_point() else torch.equal(a, b)))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)
                and a.shape == b.shape and np.array_equal(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return (list(a.keys()) == list(b.keys()) or set(a) == set(b)) and all(
            state_equal(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(
            state_equal(x, y) for x, y in zip(a, b))
    return a == b


def snapshot(obj):
    return copy.deepcopy(obj)


def tree(directory):
    """Recursive {relative path: bytes} of a directory (real file system)."""
    out = {}
    for base, dirs, files in os.walk(directory):
        dirs.sort()
        for name in sorted(files):
            path = os.path.join(base, name)
            with open(path, 'rb') as f:
                out[os.path.relpath(path, directory)] = f.read()
    return out
