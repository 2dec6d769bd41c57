"""Single source of properties.jsonl and MANIFEST.json (python3 tools/meta.py).

A property is claimed when dst/props/<id>.py exists; properties that this
family cannot decide are in NOT_APPLICABLE.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/hookeai/'

TESTS = ('The stable tests cover element derivatives, Voigt notation and mesh '
         'assembly only; ')

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe,
         level='exploration', note='', state=(), hook=None):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': TESTS + why,
        'anchors': {'files': [SRC + f for f in files],
                    'mechanism': [{'name': n, 'where': SRC + w}
                                  for n, w in mechanism],
                    'state': [{'name': n, 'meaning': m, 'where': SRC + w}
                              for n, m, w in state],
                    'observe_at': observe, 'hook_needed': hook},
        '_level': level, '_note': note})


STATE_FILES = 'model_architectures/procedures/model_state_files.py'
TRAINING = 'model_architectures/procedures/model_training.py'

prop('P01', 'A crash or failed write never loses or damages a saved checkpoint',
     'Whenever saving a model state, its optimizer state or the model '
     'initialization file dies or fails at any I/O call, every checkpoint '
     'file that existed before is afterwards still complete and holds its '
     'previous content, and the one being written holds either its previous or '
     'its new content. A superseded best state or a later-epoch state is '
     'removed only once the new state is complete, and a save that returns '
     'normally is readable by a new process. After any such failure the best, '
     'last, initial and default states that exist can still be loaded with '
     'their own epoch.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every history of saves, loads and initialization-file rewrites and every '
     'crash, torn write, full disk or I/O error at any single I/O call of it',
     'none saves a checkpoint, let alone interrupts one.',
     [STATE_FILES, TRAINING, 'ioput/iostandard.py',
      'model_architectures/rnn_base_model/model/gru_model.py',
      'model_architectures/rc_base_model/model/recurrent_model.py',
      'model_architectures/hybrid_base_model/model/hybrid_model.py'],
     [('save_model_state', STATE_FILES), ('save_training_state', TRAINING),
      ('open_atomic', 'ioput/iostandard.py'),
      ('save_model_init_file',
       'model_architectures/rnn_base_model/model/gru_model.py')],
     ['files of the model directory after a simulated restart'],
     level='fault_enumeration',
     note='Seeded histories; each fault is placed on one enumerated I/O call '
     'of the operation in flight. Process-crash model (completed writes '
     'survive), no power-loss reordering.')

prop('P02', 'Checkpoint selection and pruning act on exactly the right states',
     'Loading the best, last, initial, default or a given-epoch state restores '
     'exactly the weights stored by the latest corresponding save of that '
     'model and reports its epoch, whatever the directory listing order and '
     'whatever other files or models share the directory. Saving or loading a '
     'state removes only the states it supersedes or that are posterior to it, '
     'never a file of another model. A load whose target is missing or damaged '
     'fails and leaves the model and all stored states unchanged.',
     ['histories', 'schedules', 'inputs'],
     'every history of saves, loads and relocations of any models sharing a '
     'directory, and every directory listing order',
     'none calls the checkpoint interface; the outcome depends on listing '
     'order and on history.',
     [STATE_FILES, TRAINING],
     [('load_model_state', STATE_FILES), ('check_state_file', STATE_FILES),
      ('check_best_state_file', STATE_FILES),
      ('remove_posterior_state_files', STATE_FILES),
      ('remove_posterior_optim_state_files', TRAINING)],
     ['files of the model directory', 'weights and epoch after a load'],
     note='Compared operation by operation with a dictionary reference model '
     'under a simulator-chosen listing order.')

TRAIN_FILES = ['model_architectures/rnn_base_model/train/training.py',
               'model_architectures/rc_base_model/train/training.py',
               'model_architectures/hybrid_base_model/train/training.py']

prop('P03', 'Training records match the training that actually took place',
     'After a training run of any model family, the loss and learning-rate '
     'histories, the best parameters, the best and last checkpoints with '
     'their epochs and the returned best loss are those of gradient steps '
     'over the batches actually visited, each epoch visiting every sample '
     'exactly once. Training continued from a checkpoint starts from exactly '
     'the weights of that checkpoint and keeps the stored data normalization. '
     'If training crashes, is interrupted or a write fails, everything on '
     'disk still describes epochs that were completed, and training can be '
     'resumed from it.',
     ['histories', 'crash_points', 'fault_sequences', 'configurations'],
     'every sequence of training and continuation sessions, settings and '
     'every crash, failed write or interrupt during them',
     'no stable test trains a model.',
     TRAIN_FILES + [TRAINING, STATE_FILES],
     [('train_model', f) for f in TRAIN_FILES]
     + [('write_training_summary_file / save_loss_history', TRAINING)],
     ['files of the model directory', 'values returned by training'],
     note='Compared with an independent training loop that replays the '
     'observed sample order; tolerances cover float round-off.')

prop('P04', 'Early stopping stops when it should and keeps the best model',
     'With early stopping enabled, validation takes place at the requested '
     'frequency on the validation set with the current parameters, and '
     'training ends exactly when the validation loss has not improved by the '
     'requested tolerance over the requested number of consecutive '
     'validations, never otherwise. When it ends this way the model that is '
     'returned and kept on disk is the one of the best validation, with its '
     'epoch, and states of later epochs and temporary states are gone. The '
     'validation itself never alters the course of training.',
     ['histories', 'configurations', 'crash_points'],
     'every training history, stopping criterion, previous directory content '
     'and fault',
     'early stopping is a decision over a whole training history, which no '
     'stable test produces.',
     TRAIN_FILES + ['model_architectures/procedures/model_training.py',
                    'model_architectures/procedures/model_state_files.py'],
     [('EarlyStopper', f) for f in TRAIN_FILES],
     ['files of the model directory', 'model returned by training'],
     note='The decision is recomputed from the reference training loop.')

prop('P05', 'A seeded procedure gives the same result in any environment',
     'Training, prediction, data set splitting and random strain path '
     'generation called with the same seed and inputs give bitwise the same '
     'result, whatever was drawn from the global random generators before, '
     'whatever the clock, the directory listing order, the location of the '
     'files or unrelated work done earlier in the process. Turning '
     'validation on without stopping does not change the trained model.',
     ['schedules', 'histories', 'inputs'],
     'every environment (generator states, clock, listing order, location, '
     'previous work) surrounding every seeded call',
     'one execution cannot show that another environment would not have '
     'changed it.',
     TRAIN_FILES + ['time_series_data/time_dataset.py',
                    'data_generation/strain_paths/random_path.py',
                    'data_generation/strain_paths/proportional_path.py'],
     [('set_seed, seed_worker, data loader generator', TRAIN_FILES[0]),
      ('split_dataset', 'time_series_data/time_dataset.py'),
      ('generate_strain_path', 'data_generation/strain_paths/random_path.py')],
     ['returned values and files of paired executions'],
     note='The same call is executed in two or three simulated environments '
     'and compared bitwise.')

PRED_FILES = ['model_architectures/rnn_base_model/predict/prediction.py',
              'model_architectures/rc_base_model/predict/prediction.py',
              'model_architectures/hybrid_base_model/predict/prediction.py']
PREDICTION = 'model_architectures/procedures/model_prediction.py'
DATASET = 'time_series_data/time_dataset.py'

prop('P06', 'Predictions are complete, right and never disturb anything else',
     'A prediction run writes exactly one result per sample, holding the '
     'output of the requested stored state for that sample, its ground truth '
     'if available and its loss, and returns the average of the losses, '
     'whatever the batch size, the sample order or the data set storage. '
     'Concurrent and repeated prediction runs of one model use distinct '
     'prediction sets, never mix or overwrite results, and never modify the '
     'stored model states or the data. A run that crashes or fails leaves '
     'earlier prediction sets, states and data intact.',
     ['schedules', 'inputs', 'crash_points', 'configurations'],
     'every data set, stored state and batch size, and every interleaving of '
     'concurrent prediction processes and every fault in them',
     'no stable test predicts.',
     PRED_FILES + [PREDICTION, 'ioput/iostandard.py'],
     [('predict', f) for f in PRED_FILES]
     + [('make_predictions_subdir, save_sample_predictions', PREDICTION),
        ('make_directory', 'ioput/iostandard.py')],
     ['files of prediction sets', 'returned average loss'],
     note='Reference: single-sample forward passes of a freshly built model '
     'with the stored weights.')

prop('P07', 'Data set edits, saves and moves are all-or-nothing under faults',
     'After any sequence of feature renames, additions, concatenations, '
     'weighted sums, derived strain and stress features, sample updates, '
     'saves, splits and directory moves, each sample of a data set (file-backed or in memory, whole or subset) holds '
     'exactly the features implied by the sequence. If a step crashes or one '
     'of its writes fails, every sample is individually either unchanged or '
     'completely edited, every stored data set file still loads, and '
     'repeating the step completes it. Re-pointing a moved data set reads the '
     'samples at the new location, and a refused or failed update of '
     'the location changes nothing.',
     ['histories', 'crash_points', 'fault_sequences'],
     'every history of data set operations with up to three faults at any '
     'I/O calls',
     'none edits a stored data set.',
     [DATASET, 'model_architectures/materials/strain_features.py',
      'model_architectures/materials/stress_features.py'],
                [('TimeSeriesDataset', DATASET),
                 ('save_dataset / load_dataset', DATASET),
                 ('change_time_series_features_labels, '
                  'add_dataset_feature_init, concatenate_dataset_features, '
                  'sum_dataset_features', DATASET)],
     ['sample files and data set files after a simulated restart'],
     level='fault_enumeration',
     note='Compared step by step with a dictionary reference model; '
     'process-crash model.')

prop('P08', 'Splits and cross-validation folds partition the data, no leakage',
     'Splitting a data set, also a subset of another, assigns every sample to '
     'exactly one subset of the requested proportion with correct indices in '
     'the parent, and impossible proportions are refused. In k-fold '
     'cross-validation every sample is validated in exactly one fold, a fold '
     'never trains on or normalizes with its own validation samples, and the '
     'reported losses are those of the fold training and of its best model '
     'on its validation samples. This also holds for a repetition in the same '
     'directory after a crashed or failed one.',
     ['inputs', 'histories', 'crash_points'],
     'every data set size, proportions, number of folds, generator state and '
     'every earlier interrupted cross-validation',
     'none splits or cross-validates; the latter could not even run.',
     [DATASET, 'model_architectures/rnn_base_model/train/cross_validation.py'],
     [('split_dataset', DATASET),
      ('kfold_cross_validation',
       'model_architectures/rnn_base_model/train/cross_validation.py')],
     ['samples read per fold', 'files per fold', 'returned fold losses'],
     note='All reads of samples are recorded by the simulated data set.')

MODELS = 'simulators/fetorch/material/models/'

prop('P12', 'Material points follow the constitutive law and their own history',
     'Every state update of an elastic or elastoplastic material (standard '
     'or vectorised, 3D or plane strain, single or double precision) adds '
     'the strain increment to the total strain, keeps the stress elastic in '
     'the elastic strain and on or inside the yield surface, evolves plastic '
     'and back-stress variables by the flow and hardening rules with '
     'accumulated plastic strain never decreasing, and returns the tangent '
     'consistent with the stress, or flags failure. The result depends only '
     'on the previous state and increment of that point, not on batching, '
     'order, rejected trial updates or other materials. An update, also one '
     'that fails or is interrupted at any operation, leaves its inputs, the '
     'material parameters and the default precision unchanged.',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'every interleaving of strain histories of several material points with '
     'rejected, batched, failing and repeated updates',
     'none updates a material state over a history with faults.',
     [MODELS + 'standard/' + f for f in (
         'elastic.py', 'von_mises.py', 'von_mises_mixed.py',
         'drucker_prager.py', 'lou.py', 'hardening.py')]
     + [MODELS + 'vmap/' + f for f in (
         'von_mises.py', 'von_mises_mixed.py', 'drucker_prager.py', 'lou.py')]
     + ['simulators/fetorch/material/material_su.py'],
     [('state_update', MODELS + 'standard/von_mises.py'),
      ('state_update', MODELS + 'vmap/von_mises.py'),
      ('material_state_update', 'simulators/fetorch/material/material_su.py')],
     ['state variables and tangent returned by the state update'],
     note='Oracle: constitutive laws evaluated in double precision with numpy '
     'and replay of each history in isolation; one known finding (apex switch '
     'of the Lou-Zhang-Yoon model).')

prop('P14', 'Model discovery loss is the force imbalance of the current model',
     'Evaluating the material model finder, element by element or '
     'vectorised, returns for any specimen mesh, displacement and reaction '
     'history, boundary condition labels, time weights, scaling and force '
     'normalisation the weighted squared imbalance between internal and '
     'reaction forces for the current parameter values, with the matching '
     'gradient, and zero when the forces balance. The stored loss components, '
     'set reactions and local strain-stress paths are those of that '
     'evaluation. Evaluations that fail or are interrupted, parameter '
     'changes, specimen swaps and restarts leave specimen data and parameters '
     'untouched and do not influence later evaluations.',
     ['histories', 'fault_sequences', 'inputs', 'crash_points'],
     'every history of evaluations in both modes, interrupted at any call or '
     'failing write, parameter changes, optimiser steps, specimen swaps and '
     'restarts, on random specimens and models',
     'no test evaluates the finder.',
     ['material_model_finder/model/material_discovery.py',
      'user_scripts/global_model_update/material_finder/'
      'gen_specimen_local_paths.py',
      'simulators/fetorch/structure/structure_state.py',
      'material_model_finder/data/specimen_data.py'],
     [('forward_sequential_element',
       'material_model_finder/model/material_discovery.py'),
      ('vforward_sequential_element',
       'material_model_finder/model/material_discovery.py'),
      ('vforce_equilibrium_loss',
       'material_model_finder/model/material_discovery.py')],
     ['returned loss and gradient',
      'stored loss components, set reactions and local paths'],
     note='Oracle: independent assembly of internal forces and loss from the '
     'mesh, with isolated reference instances of the material models.')

prop('P15', 'Learned material parameters stay admissible with true records',
     'While a constitutive model is trained on strain-stress paths or '
     'discovered from a specimen, it is only ever evaluated with learnable '
     'parameters inside their bounds and, where the yield surface requires '
     'it, projected onto the convex domain, each step being the optimiser '
     'step limited in that way. The recorded parameter history, bounds, best '
     'parameters, losses and stored best and last states are those of the '
     'steps taken, and learning stops exactly when all parameters have '
     'converged by the requested criterion or at the last epoch. Interrupted, '
     'failed or crashed sessions leave readable records and states and do '
     'not affect later sessions.',
     ['histories', 'crash_points', 'fault_sequences', 'configurations'],
     'every sequence of learning sessions with any bounds, starting values, '
     'rates and criteria, and any fault at any call or I/O operation',
     'none trains a model with bounded parameters.',
     ['model_architectures/rc_base_model/model/recurrent_model.py',
      'model_architectures/rc_base_model/train/training.py',
      'material_model_finder/train/training.py',
      'material_model_finder/model/material_discovery.py',
      'simulators/fetorch/material/models/standard/lou.py'],
     [('train_model', 'model_architectures/rc_base_model/train/training.py'),
      ('train_model', 'material_model_finder/train/training.py'),
      ('check_model_parameters_convergence',
       'model_architectures/rc_base_model/train/training.py'),
      ('enforce_parameters_bounds',
       'material_model_finder/model/material_discovery.py')],
     ['parameters at every evaluation', 'parameter and loss records',
      'stored states'],
     note='Oracle: shadow optimiser fed with the observed gradients, bounds, '
     'independent convexity test of the yield curve, reference loss of the '
     'specimen, convergence criterion recomputed from the record.')

prop('P16', 'A stored model gives the same predictions when loaded anywhere',
     'Whatever happened in between - other models built from the same '
     'parameter dictionaries or used in the same process, directories moved '
     'or copied, scalers fitted or replaced, the model becoming part of a '
     'hybrid model - a network, constitutive or hybrid model loaded from its '
     'directory or file and one of its stored states predicts what the '
     'stored model predicted, with the same normalisation and settings. '
     'Loading changes no file, models and the data given by the caller are '
     'independent of each other, and a failed or crashed write leaves the '
     'previous or the new description and state, readable.',
     ['histories', 'crash_points', 'fault_sequences', 'configurations'],
     'every history of building, changing, storing, moving, combining and '
     'loading models, with any fault at any I/O operation of a write',
     'none stores a model and loads it elsewhere.',
     ['model_architectures/rnn_base_model/model/gru_model.py',
      'model_architectures/rc_base_model/model/recurrent_model.py',
      'model_architectures/hybrid_base_model/model/hybrid_model.py',
      'model_architectures/hybrid_base_model/model/hybridized_model.py',
      'model_architectures/procedures/model_data_scaling.py'],
     [('init_model_from_file',
       'model_architectures/rnn_base_model/model/gru_model.py'),
      ('init_model_from_file',
       'model_architectures/rc_base_model/model/recurrent_model.py'),
      ('init_model_from_file',
       'model_architectures/hybrid_base_model/model/hybrid_model.py'),
      ('set_hybridized_model',
       'model_architectures/hybrid_base_model/model/hybridized_model.py')],
     ['predictions', 'parameters', 'model directory', 'caller data'],
     note='Oracle: plain record of every model; recurrent network equations, '
     'own normalisation and channel arithmetic; constitutive part evaluated '
     'by an isolated fresh model.')

prop('P11', 'Generated response data sets hold only true material responses',
     'Every sample of a generated material response data set - generated '
     'directly, with noise, from a stored strain data set or from response '
     'files, in memory or on disk - is a strain path obeying its '
     'specification (times, start at zero strain, component bounds, '
     'increments, cycles) together with the stress and the requested state '
     'variables that the material gives for exactly that path, in order and '
     'in the requested number. A path whose state update fails at any step '
     'is redrawn, leaves no trace in later paths, and is never stored; '
     'generation fails only when ten trials of a path failed. Noise is '
     'recorded with the true path, and a generation that fails or crashes '
     'reports it and can be repeated to completion.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points'],
     'every generation procedure and path specification, every pattern of '
     'failed state updates and every I/O fault or crash while storing',
     'none generates a data set.',
     ['data_generation/strain_paths/random_path.py',
      'data_generation/strain_paths/proportional_path.py',
      'user_scripts/synthetic_data/gen_response_dataset.py',
      'user_scripts/synthetic_data/gen_noisy_response_dataset.py'],
     [('MaterialResponseDatasetGenerator',
       'user_scripts/synthetic_data/gen_response_dataset.py'),
      ('RandomStrainPathGenerator',
       'data_generation/strain_paths/random_path.py')],
     ['stored samples', 'strain paths', 'stress paths', 'raised errors'],
     note='Oracle: own path specification checks and a separate material '
     'instance replaying every stored strain path step by step.')

prop('P09', 'Result directories and file names are new and owned by one caller',
     'Whatever callers run at the same time, repeat or crash, asking for a '
     'results or prediction set directory without overwriting yields a '
     'directory that did not exist and that no other caller is given, a '
     'numbered file name is the first that does not exist, and nothing that '
     'exists changes; asking with overwriting yields an empty directory at '
     'exactly the requested path '
     'and touches nothing outside it, whatever links lie inside. A summary '
     'file holds exactly the given values, a search for a file gives the '
     'same answer in every directory listing order, and a request that fails '
     'says so, changes nothing else and can be repeated.',
     ['schedules', 'crash_points', 'fault_sequences', 'inputs'],
     'every interleaving of the I/O operations of several callers, with any '
     'fault at any operation, over any content of the directory',
     'none calls these functions concurrently or with a fault.',
     ['ioput/iostandard.py'],
     [('make_directory', 'ioput/iostandard.py'),
      ('new_file_path_with_int', 'ioput/iostandard.py'),
      ('find_unique_file_with_regex', 'ioput/iostandard.py'),
      ('write_summary_file', 'ioput/iostandard.py')],
     ['directory tree', 'returned paths', 'summary file'],
     note='Oracle: plain record of the tree and of the names given away.')

prop('P10', 'Specimen data come only from a completed run of the solver',
     'Whatever the external solver does (completes, aborts, is killed, '
     'cannot start, leaves partial or old output), a simulation is reported '
     'successful only if this very run completed, and the results, meshes, '
     'histories, specimen data and local paths read from it hold for every '
     'node and time step, in order and whatever the listing order, exactly '
     'what it computed, or an error is raised. The solver input describes '
     'exactly the mesh, materials, voids, prescribed displacements and an '
     'admissible load history of the patch, and a failed generation of it '
     'leaves the previous or the complete new input file.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'every history of generating, running and converting simulations, every '
     'solver outcome and point of death, any damage of an output file',
     'none writes an input file or runs a solver.',
     ['simulators/links/links.py',
      'simulators/links/utilities/links_data_to_adimu.py',
      'user_scripts/global_model_update/material_finder/gen_specimen_data.py',
      'user_scripts/synthetic_data/build_local_paths_dataset.py'],
     [('run_links_simulation', 'simulators/links/links.py'),
      ('read_links_simulation_results', 'simulators/links/links.py'),
      ('generate_input_data_file', 'simulators/links/links.py'),
      ('gen_adimu_data_from_links',
       'simulators/links/utilities/links_data_to_adimu.py'),
      ('get_specimen_numerical_data',
       'user_scripts/global_model_update/material_finder/gen_specimen_data.py')
      ],
     ['solver status', 'solver input file', 'node data', 'specimen data'],
     note='Oracle: an in-process solver with its own input parser records '
     'what it computed; own grid arithmetic for the mesh.')

prop('P17', 'Reported metrics and comparison data match the stored predictions',
     'Mean prediction metrics, prediction against ground-truth data, time '
     'series comparisons and convergence data over several models or model '
     'realisations are computed from exactly the stored predictions, targets, '
     'losses and parameters of the requested samples, models and '
     'realisations, in every listing order and whatever other files lie '
     'beside them; missing, incomplete or damaged ones are refused. Stored '
     'metrics and plot data hold the computed values and can be read back, '
     'also undefined ones, and each realisation of a model keeps its own '
     'trained model and the predictions of that model. Nothing that is read '
     'is altered, a failed write is reported, and repeating the request '
     'after a crash gives the complete result.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'every set of prediction files, selection of samples, listing order, '
     'foreign or damaged file and fault at any I/O operation of a write',
     'none computes metrics or comparison data.',
     ['utilities/output_prediction_metrics.py',
      'utilities/prediction_metrics.py',
      'model_architectures/materials/process_predictions.py',
      'model_architectures/procedures/convergence_plots.py',
      'user_scripts/convergence_analyses/plot_noisy_convergence_analysis.py',
      'user_scripts/local_model_update/rnn_material_model/'
      'uncertainty_quantification.py',
      'user_scripts/local_model_update/rc_material_model/'
      'uncertainty_quantification.py',
      'user_scripts/local_model_update/hybrid_material_model/'
      'uncertainty_quantification.py'],
     [('compute_directory_prediction_metrics',
       'utilities/output_prediction_metrics.py'),
      ('read_mean_metrics_results_file',
       'utilities/output_prediction_metrics.py'),
      ('build_prediction_data_arrays',
       'model_architectures/materials/process_predictions.py'),
      ('build_time_series_predictions_data',
       'model_architectures/materials/process_predictions.py'),
      ('perform_model_uq', 'user_scripts/local_model_update/'
       'rnn_material_model/uncertainty_quantification.py')],
     ['returned metrics and arrays', 'metrics and plot data files',
      'data handed to the plots', 'realisation directories'],
     note='Drawing is replaced by a recorder; training and prediction of a '
     'realisation are replaced by stand-ins with distinct files.')

prop('P18', 'Data set pruning keeps every sample and prunes the best predicted',
     'At every pruning iteration each sample of the full data set is in '
     'exactly one of the training, validation and unused data sets, and a '
     'pruning step removes exactly the scheduled number of samples, those of '
     'lowest loss in a testing split that the step model was not trained on. '
     'The process stops at the first stopping rule that is met, and returned, '
     'stored, summarised, previewed and plotted sizes, losses and stopping '
     'reason are those of the iterations that took place. The base data sets '
     'and foreign files beside them stay as they are, a failed write or '
     'training is reported, and repeating the process after a crash gives '
     'the complete result.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'every base data set, set of pruning parameters, order of the losses, '
     'listing order and fault at any I/O operation or training',
     'none runs a pruning process.',
     ['miscellaneous/pruning/pruning_dataset.py',
      'time_series_data/time_dataset.py'],
     [('prune_time_series_dataset',
       'miscellaneous/pruning/pruning_dataset.py'),
      ('perform_pruning_step',
       'miscellaneous/pruning/pruning_dataset.py')],
     ['data set files of every iteration', 'data set handed to each training '
      'and prediction', 'returned and stored iteration data',
      'summary file', 'data handed to the plots'],
     note='Training and prediction are replaced by stand-ins with known '
     'files and seeded losses; an iteration directory that a later iteration '
     'of equal training size reuses is judged by the latest.')

prop('P19', 'The local updating pipeline trains on exactly the generated data',
     'For every requested pair of temperature and composition and every data '
     'set type, data generation stores exactly the requested number of true, '
     'not failed material responses, recorded with the conditions they were '
     'computed at. An assembled training, validation or testing data set '
     'holds each generated sample of its type exactly once, or the requested '
     'fraction of every source, whatever foreign files and directories lie '
     'beside them and in every listing order, and a model is updated and '
     'evaluated on exactly the assembled data sets. Requests that cannot be '
     'met are refused, other directories stay as they are, and repeating a '
     'request after a fault gives the complete result.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'every sequence of generation, assembly, preview and updating requests, '
     'material response failure, listing order and fault at any I/O operation',
     'none runs the pipeline.',
     ['user_scripts/complete_pipelines/local_model_update.py',
      'time_series_data/time_dataset.py'],
     [('generate_material_data',
       'user_scripts/complete_pipelines/local_model_update.py'),
      ('assemble_material_datasets',
       'user_scripts/complete_pipelines/local_model_update.py'),
      ('perform_material_model_updating',
       'user_scripts/complete_pipelines/local_model_update.py')],
     ['data set directories', 'arguments handed to training and prediction',
      'recorded conditions of each sample'],
     note='Material response computation and training of realisations are '
     'replaced by recording stand-ins; a reduction to zero samples is not '
     'judged.')

prop('P20', 'Processing a specimen history changes only what was asked for',
     'A noisy or denoised copy of a specimen history holds every time step '
     'under its name, in which only the displacements differ: by noise of '
     'the requested distribution, never at the initial step and repeatable '
     'for the same seed in every listing order, or by the requested '
     'smoothing of each node over time. Copied boundary constraint labels '
     'are those of the same node and time step, and reported reaction and '
     'displacement histories are sums and values of the stored ones. The '
     'source files stay as they are, histories that do not fit are refused '
     'without changes, a fault never leaves a damaged history behind in '
     'place of a good one, and repeating the request gives the complete '
     'result.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'every history, noise and smoothing parameters, listing order, foreign '
     'file and fault at any I/O operation',
     'none processes history files.',
     ['miscellaneous/noisy_data/inject_disp_noise_csv.py',
      'miscellaneous/noisy_data/denoise_disp_noise_csv.py',
      'user_scripts/global_model_update/utilities/process_specimen_data.py',
      'utilities/data_denoisers.py',
      'data_generation/strain_paths/noise_generator.py'],
     [('inject_displacements_noise',
       'miscellaneous/noisy_data/inject_disp_noise_csv.py'),
      ('denoise_displacements_noise',
       'miscellaneous/noisy_data/denoise_disp_noise_csv.py'),
      ('copy_dbc_labels', 'user_scripts/global_model_update/utilities/'
       'process_specimen_data.py')],
     ['history files', 'returned arrays', 'data handed to the plots'])

prop('P13', 'Random specimens obey their specification or are refused',
     'A generated random specimen has the requested mesh, prescribes a '
     'displacement at exactly its boundary nodes, moves its corners within '
     'their ranges and not where they are fixed, gives every edge the '
     'requested order within its range measured outward, with face nodes '
     'interpolating the edges, moves as a whole within the requested '
     'translations and rotations and, in the plane, never crosses itself or '
     'turns inside out. It is the first sound one of the allowed attempts, '
     'rejected, failed or interrupted attempts leave no trace, the same seed '
     'gives the same specimen, and if no attempt is sound it is refused. A '
     'stored specimen is simulated exactly as it is stored and survives '
     'later requests that load it, whatever write fails or crashes.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'every specification, random stream, sequence of attempts and fault at '
     'any call or I/O operation',
     'none generates a specimen.',
     ['data_generation/spdg/patch_generator.py',
      'data_generation/spdg/patch.py',
      'user_scripts/synthetic_data/gen_random_specimen.py'],
     [('generate_deformed_patch', 'data_generation/spdg/patch_generator.py'),
      ('FiniteElementPatch', 'data_generation/spdg/patch.py'),
      ('generate_random_patches',
       'user_scripts/synthetic_data/gen_random_specimen.py')],
     ['returned specimen', 'stored specimen files', 'solver input'])

# MORE

NOT_APPLICABLE = []


RC = 'model_architectures/rc_base_model/model/recurrent_model.py'

prop('P21', 'A learnable constitutive model responds as its material would',
     'For every strain path of a batch, a learnable constitutive model '
     'returns the stress and the requested state variables that a material '
     'with the current values of its learnable parameters, the values '
     'derived from them and its fixed parameters develops along that path '
     'from the virgin state, with the matching parameter gradient, or '
     'refuses or leaves undefined a path whose state update does not '
     'converge. This holds for every material and set of learnable '
     'parameters, in 3D and plane strain, whatever was evaluated, set, '
     'stepped, frozen, reloaded, failed or interrupted before. Parameter '
     'values read back, normalised or not, are those set, limiting moves each '
     'to its nearest bound, and other models and the parameters given by the '
     'caller are not affected.',
     ['histories', 'fault_sequences', 'inputs'],
     'every sequence of parameter changes, evaluations, gradients, reloads '
     'and failed evaluations of models sharing a process',
     'none evaluates a constitutive model.',
     [RC, MODELS + 'vmap/von_mises.py', MODELS + 'vmap/drucker_prager.py',
      'simulators/fetorch/material/material_su.py'],
     [('sync_material_model_parameters', RC), ('forward', RC),
      ('_vcompute_stress_path', RC), ('transform_parameter', RC),
      ('enforce_parameters_bounds', RC)],
     ['response, gradients and parameter values of the model'],
     note='Oracle: fresh material of the standard kind in double precision '
     'driven step by step with independently mapped parameters; gradients '
     'against differences of that response.')


HYB = 'model_architectures/hybrid_base_model/model/'
prop('P22', 'A hybrid model combines its parts exactly as specified',
     'For every hybrid model the output is the specified combination of its '
     'channels: along a channel each part, in the order of its index whatever '
     'the order of listing, receives the output of the one before (with the '
     'model input appended when it is residual), in its own normalised space '
     'where it has one, and the sum (or the only channel) is given in the '
     'normalised space the hybrid model declares. Elastic, polynomial and '
     'volumetric-deviatoric parts compute what their specification says, for '
     'every elastic symmetry. This holds for batches and single paths, after '
     'any parameter change, replaced normalisation, reload, or failed or '
     'interrupted evaluation; evaluating changes neither the input nor the '
     'parts, and inconsistent specifications are refused.',
     ['histories', 'fault_sequences', 'inputs'],
     'every structure of channels, parts and normalisations with every '
     'sequence of changes, reloads and failed evaluations',
     'none evaluates a hybrid model.',
     [HYB + 'hybrid_model.py', HYB + 'hybridized_layers.py',
      HYB + 'transfer_learning.py', HYB + 'hybridized_model.py'],
     [('forward', HYB + 'hybrid_model.py'),
      ('set_hybridized_model', HYB + 'hybridized_model.py'),
      ('forward', HYB + 'hybridized_layers.py'),
      ('forward', HYB + 'transfer_learning.py')],
     ['response, gradients and parameters of the model'],
     note='Oracle: own double precision evaluation of the specified graph of '
     'parts (own recurrent cell, polynomials, elasticity, scaling); '
     'constitutive parts against the standard kind, whose response P21 '
     'decides.')


RNN = 'model_architectures/rnn_base_model/'
prop('P23', 'A hyper-parameter search scores every job by its own result',
     'Every job of a search returns and records the loss that its own '
     'hyper-parameters give: the best training loss, the loss of its best '
     'state over the testing set, or the force imbalance of the candidate '
     'material over the specimen. Its summary states its hyper-parameters, '
     'and a job neither depends on other jobs nor changes them or the source '
     'data, also after failed or interrupted jobs, which never leave a wrong '
     'score. The reported history and best job are those of the recorded '
     'scores of each search, and a search with a job without a score is '
     'refused.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'every sequence of jobs of one or several searches with every file '
     'operation of a job failing or interrupted',
     'none runs an optimisation job.',
     [RNN + 'optimization/hydra_optimization.py',
      RNN + 'optimization/hydra_optimization_plots.py',
      'user_scripts/global_model_update/optimization/'
      'hydra_optimization.py'],
     [('hydra_wrapper', RNN + 'optimization/hydra_optimization.py'),
      ('plot_optimization_history',
       RNN + 'optimization/hydra_optimization_plots.py'),
      ('write_summary_file', 'ioput/iostandard.py')],
     ['score, files and reported history of each job'],
     note='The launcher of the hydra library is a stub that hands each job '
     'its configuration and directory. Oracle: direct training with the same '
     'seed, own recurrent cell and loss arithmetic for testing, own finite '
     'element imbalance for the specimen.')


def main():
    claimed = []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            if not (os.path.isfile(os.path.join(
                    ROOT, 'dst', 'props', p['id'].lower() + '.py'))
                    or any(n['property'] == p['id']
                           for n in NOT_APPLICABLE)):
                continue
            f.write(json.dumps({k: v for k, v in p.items()
                                if not k.startswith('_')}) + '\n')
            if not any(n['property'] == p['id'] for n in NOT_APPLICABLE):
                claimed.append(p)
    checks = [{'property': p['id'],
               'quick_cmd': f'./check.sh {p["id"]} --tier quick',
               'thorough_cmd': f'./check.sh {p["id"]} --tier thorough',
               'evidence_file': f'evidence/{p["id"]}.json',
               'technique': 'deterministic simulation with fault injection',
               'level': p['_level'], 'level_note': p['_note']}
              for p in claimed]
    manifest = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'hooks': {'guard': 'none',
                  'enable': 'no hooks were added to /repo: the seams (file '
                  'system calls, directory listing, clock, subprocess, '
                  'random generators, material state update) are interposed '
                  'from /verif/dst at run time',
                  'source_commits': []},
        'checks': checks, 'not_applicable': NOT_APPLICABLE,
        'notes': 'Checks import /repo/src/hookeai directly (pure Python, '
        'nothing to build). Replay: ./check.sh <id> --replay <file>.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
