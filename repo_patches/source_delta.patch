From ef02f225071c92ab1bd3c4e7093ccbcd1d2b7421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:00 +0000
Subject: [PATCH 01/92] fix: match model and optimizer state file names exactly

State file names were matched with the model name taken as a regular
expression and without an end anchor, so files of other models could be
taken (and deleted) as state files, and a best state file without epoch
could not be recognized.
---
 .../procedures/model_state_files.py               | 15 ++++++++-------
 .../procedures/model_training.py                  | 11 ++++++-----
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index adb7b72..b6a93be 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -293,8 +293,8 @@ def check_state_file(model, filename):
         is_state_file=True, None otherwise.
     """
     # Check if file is model epoch state file
-    is_state_file = bool(re.search(r'^' + model.model_name + r'-[0-9]+'
-                                   + r'\.pt', filename))
+    is_state_file = bool(re.search(r'^' + re.escape(model.model_name)
+                                   + r'-[0-9]+' + r'\.pt$', filename))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
     if is_state_file:
@@ -327,14 +327,15 @@ def check_best_state_file(model, filename):
         otherwise.
     """
     # Check if file is model epoch best state file
-    is_best_state_file = bool(re.search(r'^' + model.model_name
-                                        + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                        filename))
+    best_state_match = re.search(r'^' + re.escape(model.model_name)
+                                 + r'(-[0-9]+)?' + r'-best' + r'\.pt$',
+                                 filename)
+    is_best_state_file = bool(best_state_match)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     epoch = None
-    if is_best_state_file:
+    if is_best_state_file and best_state_match.group(1) is not None:
         # Get model state epoch
-        epoch = int(os.path.splitext(filename)[0].split('-')[-2])
+        epoch = int(best_state_match.group(1)[1:])
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return is_best_state_file, epoch
 # =============================================================================
diff --git a/src/hookeai/model_architectures/procedures/model_training.py b/src/hookeai/model_architectures/procedures/model_training.py
index 0c3ac12..0c1ffa5 100644
--- a/src/hookeai/model_architectures/procedures/model_training.py
+++ b/src/hookeai/model_architectures/procedures/model_training.py
@@ -115,9 +115,9 @@ def save_training_state(model, optimizer, state_type, epoch=None,
             for filename in directory_list:
                 # Check if file is optimizer epoch best state file
                 is_best_state_file = \
-                    bool(re.search(r'^' + model.model_name + r'_optim'
-                                   + r'-?[0-9]*' + r'-best' + r'\.pt',
-                                   filename))
+                    bool(re.search(r'^' + re.escape(model.model_name)
+                                   + r'_optim' + r'(-[0-9]+)?' + r'-best'
+                                   + r'\.pt$', filename))
                 # Delete state file
                 if is_best_state_file:
                     os.remove(os.path.join(model.model_directory, filename))
@@ -148,8 +148,9 @@ def remove_posterior_optim_state_files(model, epoch):
     # Loop over files in material patch model directory
     for filename in directory_list:
         # Check if file is optimizer epoch state file
-        is_state_file = bool(re.search(r'^' + model.model_name + r'_optim'
-                             + r'-[0-9]+' + r'\.pt', filename))
+        is_state_file = bool(re.search(r'^' + re.escape(model.model_name)
+                                       + r'_optim' + r'-[0-9]+' + r'\.pt$',
+                                       filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Delete optimizer epoch state file posterior to given epoch
         if is_state_file:
-- 
2.43.0


From b356edfa9f3517ce886b8b29465f3536e4af2b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:13 +0000
Subject: [PATCH 02/92] fix: keep previous model and optimizer states until new
 ones are complete

A crash or a full disk while saving left a truncated state file behind, and
the previous best state had already been removed. State files are written to
a temporary file that replaces the target once complete, superseded best
states and posterior epoch states are removed only afterwards, and a failed
load no longer removes posterior epoch states.
---
 src/hookeai/ioput/iostandard.py               | 40 ++++++++++++++++-
 .../procedures/model_state_files.py           | 44 +++++++++----------
 .../procedures/model_training.py              | 24 +++++-----
 3 files changed, 73 insertions(+), 35 deletions(-)

diff --git a/src/hookeai/ioput/iostandard.py b/src/hookeai/ioput/iostandard.py
index 5bfac98..52669f1 100644
--- a/src/hookeai/ioput/iostandard.py
+++ b/src/hookeai/ioput/iostandard.py
@@ -12,11 +12,14 @@ write_summary_file
     Write summary data file with provided keyword-based parameters.
 find_unique_file_with_regex(directory, regex)
     Find file in directory based on regular expression.
+open_atomic
+    Open file for writing such that it is only replaced when complete.
 """
 #
 #                                                                       Modules
 # =============================================================================
 # Standard
+import contextlib
 import os
 import shutil
 import re
@@ -220,4 +223,39 @@ def find_unique_file_with_regex(directory, regex):
     else:
         dataset_file_path = None
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    return is_file_found, dataset_file_path
\ No newline at end of file
+    return is_file_found, dataset_file_path
+# =============================================================================
+@contextlib.contextmanager
+def open_atomic(file_path, mode='wb'):
+    """Open file for writing such that it is only replaced when complete.
+    
+    Data is written to a temporary file in the same directory, which replaces
+    the target file once it has been successfully written and closed. If the
+    writing process fails or is interrupted, any previously existing target
+    file is left untouched.
+    
+    Parameters
+    ----------
+    file_path : str
+        File path.
+    mode : str, default='wb'
+        Mode in which the file is opened.
+    
+    Yields
+    ------
+    file : file object
+        File object.
+    """
+    # Set temporary file path
+    temp_file_path = str(file_path) + '.tmp'
+    # Write temporary file
+    try:
+        with open(temp_file_path, mode) as file:
+            yield file
+        # Replace target file
+        os.replace(temp_file_path, file_path)
+    except BaseException:
+        # Remove incomplete temporary file
+        with contextlib.suppress(OSError):
+            os.remove(temp_file_path)
+        raise
diff --git a/src/hookeai/model_architectures/procedures/model_state_files.py b/src/hookeai/model_architectures/procedures/model_state_files.py
index b6a93be..ab14c40 100644
--- a/src/hookeai/model_architectures/procedures/model_state_files.py
+++ b/src/hookeai/model_architectures/procedures/model_state_files.py
@@ -23,6 +23,8 @@ import os
 import re
 # Third-party
 import torch
+# Local
+from ioput.iostandard import open_atomic
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -99,15 +101,17 @@ def save_model_state(model, state_type='default', epoch=None,
         if state_type == 'best':
             # Set model state corresponding to the best performance
             model_state_file += '-' + 'best'
-            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-            # Remove any existent best model state file
-            remove_best_state_files(model)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set model state file path
     model_path = os.path.join(model.model_directory,
                               model_state_file + '.pt')
     # Save model state
-    torch.save(model.state_dict(), model_path)
+    with open_atomic(model_path) as model_file:
+        torch.save(model.state_dict(), model_file)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Remove any other existent best model state file
+    if state_type == 'best':
+        remove_best_state_files(model, keep_filename=model_state_file + '.pt')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Delete model epoch state files posterior to saved epoch
     if isinstance(epoch, int) and is_remove_posterior:
@@ -176,20 +180,12 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
         model_state_file += '-init'
         # Set epoch
         epoch = 0
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif isinstance(model_load_state, int):
         # Get epoch
         epoch = model_load_state
         # Set model state filename with epoch
         model_state_file += '-' + str(int(epoch))
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'best':
         # Get state files in model directory
@@ -211,21 +207,15 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
         if not best_state_epochs:
             raise RuntimeError('Model best state file has not been found '
                                'in directory:\n\n' + model.model_directory)
-        elif len(best_state_epochs) > 1:
-            raise RuntimeError('Two or more model best state files have '
-                               'been found in directory:'
-                               '\n\n' + model.model_directory)
         else:
-            # Set best state epoch
-            epoch = best_state_epochs[0]
+            # Set best state epoch (latest epoch if saving a new best state was
+            # interrupted before the previous one was removed)
+            epoch = max(best_state_epochs,
+                        key=lambda x: -1 if x is None else x)
             # Set model best state file
             if isinstance(epoch, int):
                 model_state_file += '-' + str(epoch)
             model_state_file += '-' + 'best'
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Delete model epoch state files posterior to loaded epoch
-        if isinstance(epoch, int) and is_remove_posterior:
-            remove_posterior_state_files(model, epoch)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif model_load_state == 'last':
         # Get state files in model directory
@@ -269,6 +259,10 @@ def load_model_state(model, model_load_state=None, is_remove_posterior=True):
     model.load_state_dict(torch.load(model_path,
                                      map_location=torch.device('cpu')))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Delete model epoch state files posterior to loaded epoch
+    if isinstance(epoch, int) and is_remove_posterior:
+        remove_posterior_state_files(model, epoch)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return epoch
 # =============================================================================
 def check_state_file(model, filename):
@@ -359,13 +353,15 @@ def remove_posterior_state_files(model, epoch):
         if is_state_file and file_epoch > epoch:
             os.remove(os.path.join(model.model_directory, filename))
 # =============================================================================
-def remove_best_state_files(model):
+def remove_best_state_files(model, keep_filename=None):
     """Delete existent model best state files.
     
     Parameters
     ----------
     model : torch.nn.Module
         Model.
+    keep_filename : str, default=None
+        Name of model best state file that is not deleted.
     """
     # Get files in model directory
     directory_list = os.listdir(model.model_directory)
@@ -374,5 +370,5 @@ def remove_best_state_files(model):
         # Check if file is model best state file
         is_best_state_file, _ = check_best_state_file(model, filename)
         # Delete state file
-        if is_best_state_file:
+        if is_best_state_file and filename != keep_filename:
             os.remove(os.path.join(model.model_directory, filename))
\ No newline at end of file
diff --git a/src/hookeai/model_architectures/procedures/model_training.py b/src/hookeai/model_architectures/procedures/model_training.py
index 0c1ffa5..de7d2f8 100644
--- a/src/hookeai/model_architectures/procedures/model_training.py
+++ b/src/hookeai/model_architectures/procedures/model_training.py
@@ -35,7 +35,7 @@ import numpy as np
 import matplotlib.pyplot as plt
 # Local
 from model_architectures.procedures.model_state_files import save_model_state
-from ioput.iostandard import write_summary_file
+from ioput.iostandard import write_summary_file, open_atomic
 from ioput.plots import plot_xy_data, plot_xy2_data, save_figure
 #
 #                                                          Authorship & Credits
@@ -108,7 +108,17 @@ def save_training_state(model, optimizer, state_type, epoch=None,
         if state_type == 'best':
             # Set optimizer state corresponding to the best performance
             optimizer_state_file += '-' + 'best'
-            # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Set optimizer state file path
+        optimizer_path = os.path.join(model.model_directory,
+                                      optimizer_state_file + '.pt')
+        # Save optimizer state
+        optimizer_state = dict(state=optimizer.state_dict(), epoch=epoch)
+        with open_atomic(optimizer_path) as optimizer_file:
+            torch.save(optimizer_state, optimizer_file)
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Remove any other existent best optimizer state file
+        if state_type == 'best':
             # Get files in model directory
             directory_list = os.listdir(model.model_directory)
             # Loop over files in model directory
@@ -119,16 +129,10 @@ def save_training_state(model, optimizer, state_type, epoch=None,
                                    + r'_optim' + r'(-[0-9]+)?' + r'-best'
                                    + r'\.pt$', filename))
                 # Delete state file
-                if is_best_state_file:
+                if (is_best_state_file
+                        and filename != optimizer_state_file + '.pt'):
                     os.remove(os.path.join(model.model_directory, filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Set optimizer state file path
-        optimizer_path = os.path.join(model.model_directory,
-                                      optimizer_state_file + '.pt')
-        # Save optimizer state
-        optimizer_state = dict(state=optimizer.state_dict(), epoch=epoch)
-        torch.save(optimizer_state, optimizer_path)
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Delete optimizer epoch state files posterior to saved epoch
         if isinstance(epoch, int) and is_remove_posterior:
             remove_posterior_optim_state_files(model, epoch)
-- 
2.43.0


From 47f2f97d3b43a43c6f41f9583489c1f5fbd243e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:20 +0000
Subject: [PATCH 03/92] fix: keep previous model initialization file until new
 one is complete

---
 .../hybrid_base_model/model/hybrid_model.py                    | 3 ++-
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 ++-
 .../model_architectures/rnn_base_model/model/gru_model.py      | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index f483e64..0cb8550 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -14,6 +14,7 @@ import pickle
 # Third-party
 import torch
 # Local
+from ioput.iostandard import open_atomic
 from model_architectures.hybrid_base_model.model.hybridization import \
     HybridizationModel
 from model_architectures.procedures.model_data_scaling import init_data_scalers
@@ -785,7 +786,7 @@ class HybridModel(torch.nn.Module):
         model_init_file_path = os.path.join(self.model_directory,
                                             'model_init_file' + '.pkl')
         # Save model initialization file
-        with open(model_init_file_path, 'wb') as init_file:
+        with open_atomic(model_init_file_path) as init_file:
             pickle.dump(model_init_attributes, init_file)
     # -------------------------------------------------------------------------
     def sync_material_model_parameters(self):
diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 903ac9f..2553f90 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -18,6 +18,7 @@ import math
 # Third-party
 import torch
 # Local
+from ioput.iostandard import open_atomic
 from simulators.fetorch.material.models.standard.elastic import Elastic
 from simulators.fetorch.material.models.standard.von_mises import VonMises
 from simulators.fetorch.material.models.standard.von_mises_mixed import \
@@ -1683,5 +1684,5 @@ class RecurrentConstitutiveModel(torch.nn.Module):
         model_init_file_path = os.path.join(self.model_directory,
                                             'model_init_file' + '.pkl')
         # Save model initialization file
-        with open(model_init_file_path, 'wb') as init_file:
+        with open_atomic(model_init_file_path) as init_file:
             pickle.dump(model_init_attributes, init_file)
\ No newline at end of file
diff --git a/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py b/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py
index db460be..db026b0 100644
--- a/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py
+++ b/src/hookeai/model_architectures/rnn_base_model/model/gru_model.py
@@ -15,6 +15,7 @@ import pickle
 # Third-party
 import torch
 # Local
+from ioput.iostandard import open_atomic
 from model_architectures.rnn_base_model.custom.gru_vmap import GRU
 from model_architectures.procedures.model_data_scaling import init_data_scalers
 from model_architectures.procedures.model_state_files import save_model_state
@@ -427,5 +428,5 @@ class GRURNNModel(torch.nn.Module):
         model_init_file_path = os.path.join(self.model_directory,
                                             'model_init_file' + '.pkl')
         # Save model initialization file
-        with open(model_init_file_path, 'wb') as init_file:
+        with open_atomic(model_init_file_path) as init_file:
             pickle.dump(model_init_attributes, init_file)
\ No newline at end of file
-- 
2.43.0


From 9ea58142147a0e18c64345cc6f574a6bb036ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:14 +0000
Subject: [PATCH 04/92] fix: pass seeded generator to data loader

Training and prediction with a seed failed because the data loader arguments
were passed as a keyword named kwargs.
---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 407b301..0d8c637 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index a4fd28c..e5efff6 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -290,7 +290,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index dd3ad18..09fc5fd 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -171,7 +171,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 73ac351..fa3f833 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -333,7 +333,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index e142019..ea4812c 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -170,7 +170,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
     if isinstance(seed, int):
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size)
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index a857373..bf46cd9 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -285,7 +285,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
             is_shuffle=is_sampler_shuffle,
-            kwargs={'worker_init_fn': seed_worker, 'generator': generator})
+            **{'worker_init_fn': seed_worker, 'generator': generator})
     else:
         data_loader = get_time_series_data_loader(
             dataset=dataset, batch_size=batch_size,
-- 
2.43.0


From 34035f99b7043f360fce8214678ec529fae60cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:39 +0000
Subject: [PATCH 05/92] fix: k-fold cross-validation could not run

The normalization flags were read from a model that did not exist yet and the
starting time was only set in verbose mode.
---
 .../rnn_base_model/train/cross_validation.py              | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
index f9a50da..8394708 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/cross_validation.py
@@ -127,7 +127,7 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
     if is_verbose:
         print('\nRecurrent Neural Network model: k-fold cross-validation'
               '\n-------------------------------------------------------')
-        start_time_sec = time.time()
+    start_time_sec = time.time()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Check cross-validation directory
     if not os.path.isdir(cross_validation_dir):
@@ -154,8 +154,10 @@ def kfold_cross_validation(cross_validation_dir, n_fold, n_max_epochs,
     folds_validation_losses = []
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get model input and output features normalization
-    is_model_in_normalized = model.is_model_in_normalized
-    is_model_out_normalized = model.is_model_out_normalized
+    is_model_in_normalized = \
+        model_init_args.get('is_model_in_normalized', False)
+    is_model_out_normalized = \
+        model_init_args.get('is_model_out_normalized', False)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print('\n\n> Starting k-fold cross-validation process...')
-- 
2.43.0


From 3eba222b01aacadf8485d5d1e1bd422860d07706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:39 +0000
Subject: [PATCH 06/92] fix: single-epoch training failed computing the average
 time per epoch

Epochs are counted from 0, so that epoch + 1 epochs have been performed.
---
 src/hookeai/material_model_finder/train/training.py             | 2 +-
 .../model_architectures/hybrid_base_model/train/training.py     | 2 +-
 src/hookeai/model_architectures/rc_base_model/train/training.py | 2 +-
 .../model_architectures/rnn_base_model/train/training.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index 599adc0..c5a4f7a 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -388,7 +388,7 @@ def train_model(n_max_epochs, specimen_data, specimen_material_state,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index e5efff6..9f7eac4 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -528,7 +528,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index fa3f833..5748bd0 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -597,7 +597,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
diff --git a/src/hookeai/model_architectures/rnn_base_model/train/training.py b/src/hookeai/model_architectures/rnn_base_model/train/training.py
index bf46cd9..047f5c6 100644
--- a/src/hookeai/model_architectures/rnn_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rnn_base_model/train/training.py
@@ -482,7 +482,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Compute total training time and average training time per epoch
     total_time_sec = time.time() - start_time_sec
-    avg_time_epoch = total_time_sec/epoch
+    avg_time_epoch = total_time_sec/(epoch + 1)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if is_verbose:
         print(f'\n> Model directory: {model.model_directory}')
-- 
2.43.0


From 82dee675b4e3c6552b513a27579e6f32f8b6484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:22 +0000
Subject: [PATCH 07/92] fix: early stopping of constitutive and hybrid models
 failed saving state

---
 .../model_architectures/hybrid_base_model/train/training.py    | 3 ++-
 .../model_architectures/rc_base_model/train/training.py        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 9f7eac4..520e634 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -961,7 +961,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Prediction with model
         _, avg_valid_loss_sample = predict(
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 5748bd0..90e7f1e 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -1170,7 +1170,8 @@ class EarlyStopper:
             # Update temporary state files flag
             is_state_file_temp = True
             # Save state files
-            save_training_state(model=model, optimizer=optimizer, epoch=epoch)
+            save_training_state(model=model, optimizer=optimizer,
+                                state_type='epoch', epoch=epoch)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set prediction loss normalization
         if is_normalized_loss or model.is_model_out_normalized:
-- 
2.43.0


From b02e28d2a2bfce6ebd0ca60671118ae8f9125ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:34 +0000
Subject: [PATCH 08/92] fix: parameters convergence check discarded triggered
 early stopping

---
 .../model_architectures/rc_base_model/train/training.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 90e7f1e..7da74fe 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -530,7 +530,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check model parameters convergence
         if is_params_stopping:
-            is_stop_training, parameters_status = \
+            is_params_converged, parameters_status = \
                 check_model_parameters_convergence(
                     model_parameters_history_epochs, is_verbose=is_verbose,
                     **params_stopping_kwargs)
@@ -540,7 +540,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
             # Completed maximum number of epochs
             is_keep_training = False
             break
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             # Parameters convergence criterion triggered
             is_keep_training = False
             break
@@ -556,7 +556,7 @@ def train_model(n_max_epochs, dataset, model_init_args, lr_init,
         if is_early_stopping and is_stop_training:
             print('\n\n> Early stopping has been triggered!',
                   '\n\n> Finished training process!')
-        elif is_params_stopping and is_stop_training:
+        elif is_params_stopping and is_params_converged:
             print('\n\n> Parameters convergence has been triggered!',
                   '\n\n> Finished training process!')
         else:
-- 
2.43.0


From 1c693499e53db1701b0092d6ebd4aeeba2c20944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:00 +0000
Subject: [PATCH 09/92] fix: keep previous training records until new ones are
 complete

---
 src/hookeai/material_model_finder/train/training.py          | 5 +++--
 .../model_architectures/hybrid_base_model/train/training.py  | 5 +++--
 src/hookeai/model_architectures/procedures/model_training.py | 2 +-
 .../model_architectures/rc_base_model/train/training.py      | 5 +++--
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/hookeai/material_model_finder/train/training.py b/src/hookeai/material_model_finder/train/training.py
index c5a4f7a..29bc190 100644
--- a/src/hookeai/material_model_finder/train/training.py
+++ b/src/hookeai/material_model_finder/train/training.py
@@ -36,6 +36,7 @@ from model_architectures.procedures.model_training import \
 from model_architectures.procedures.model_summary import get_model_summary
 from model_architectures.procedures.model_state_files import \
     save_model_state
+from ioput.iostandard import open_atomic
 from utilities.optimizers import get_pytorch_optimizer, \
     get_learning_rate_scheduler
 #
@@ -482,7 +483,7 @@ def save_parameters_history(model, model_parameters_history,
         model_parameters_bounds
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save model parameters history record
-    with open(parameters_record_path, 'wb') as parameters_record_file:
+    with open_atomic(parameters_record_path) as parameters_record_file:
         pickle.dump(parameters_history_record, parameters_record_file) 
 # =============================================================================
 def read_parameters_history_from_file(parameters_record_path):
@@ -554,7 +555,7 @@ def save_best_parameters(model, best_model_parameters,
     parameters_record['model_parameters_bounds'] = model_parameters_bounds
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save model best parameters
-    with open(parameters_file_path, 'wb') as parameters_file:
+    with open_atomic(parameters_file_path) as parameters_file:
         pickle.dump(parameters_record, parameters_file)
 # =============================================================================
 def read_best_parameters_from_file(parameters_file_path):
diff --git a/src/hookeai/model_architectures/hybrid_base_model/train/training.py b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
index 520e634..b6398e0 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/train/training.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/train/training.py
@@ -45,6 +45,7 @@ from model_architectures.procedures.model_state_files import \
 from model_architectures.procedures.model_data_scaling import \
     fit_data_scalers, data_scaler_transform
 from utilities.loss_functions import get_pytorch_loss
+from ioput.iostandard import open_atomic
 from utilities.optimizers import get_pytorch_optimizer, \
     get_learning_rate_scheduler
 from utilities.data_loaders import seed_worker
@@ -594,7 +595,7 @@ def save_parameters_history(model, model_parameters_history,
         model_parameters_bounds
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save model parameters history record
-    with open(parameters_record_path, 'wb') as parameters_record_file:
+    with open_atomic(parameters_record_path) as parameters_record_file:
         pickle.dump(parameters_history_record, parameters_record_file) 
 # =============================================================================
 def read_parameters_history_from_file(parameters_record_path):
@@ -666,7 +667,7 @@ def save_best_parameters(model, best_model_parameters,
     parameters_record['model_parameters_bounds'] = model_parameters_bounds
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save model best parameters
-    with open(parameters_file_path, 'wb') as parameters_file:
+    with open_atomic(parameters_file_path) as parameters_file:
         pickle.dump(parameters_record, parameters_file)
 # =============================================================================
 def read_best_parameters_from_file(parameters_file_path):
diff --git a/src/hookeai/model_architectures/procedures/model_training.py b/src/hookeai/model_architectures/procedures/model_training.py
index de7d2f8..491f619 100644
--- a/src/hookeai/model_architectures/procedures/model_training.py
+++ b/src/hookeai/model_architectures/procedures/model_training.py
@@ -224,7 +224,7 @@ def save_loss_history(model, n_max_epochs, loss_nature, loss_type,
         loss_history_record['validation_loss_history'] = None
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save loss history record
-    with open(loss_record_path, 'wb') as loss_record_file:
+    with open_atomic(loss_record_path) as loss_record_file:
         pickle.dump(loss_history_record, loss_record_file)
 # =============================================================================
 def read_loss_history_from_file(loss_record_path):
diff --git a/src/hookeai/model_architectures/rc_base_model/train/training.py b/src/hookeai/model_architectures/rc_base_model/train/training.py
index 7da74fe..cfcb048 100644
--- a/src/hookeai/model_architectures/rc_base_model/train/training.py
+++ b/src/hookeai/model_architectures/rc_base_model/train/training.py
@@ -47,6 +47,7 @@ from model_architectures.procedures.model_state_files import \
 from model_architectures.procedures.model_data_scaling import \
     fit_data_scalers, data_scaler_transform
 from utilities.loss_functions import get_pytorch_loss
+from ioput.iostandard import open_atomic
 from utilities.optimizers import get_pytorch_optimizer, \
     get_learning_rate_scheduler
 from utilities.data_loaders import seed_worker
@@ -663,7 +664,7 @@ def save_parameters_history(model, model_parameters_history,
         model_parameters_bounds
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save model parameters history record
-    with open(parameters_record_path, 'wb') as parameters_record_file:
+    with open_atomic(parameters_record_path) as parameters_record_file:
         pickle.dump(parameters_history_record, parameters_record_file) 
 # =============================================================================
 def read_parameters_history_from_file(parameters_record_path):
@@ -735,7 +736,7 @@ def save_best_parameters(model, best_model_parameters,
     parameters_record['model_parameters_bounds'] = model_parameters_bounds
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save model best parameters
-    with open(parameters_file_path, 'wb') as parameters_file:
+    with open_atomic(parameters_file_path) as parameters_file:
         pickle.dump(parameters_record, parameters_file)
 # =============================================================================
 def read_best_parameters_from_file(parameters_file_path):
-- 
2.43.0


From 103e4505c41abeba54428cede3000637099bce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:12 +0000
Subject: [PATCH 10/92] fix: directory name search failed if name was
 concurrently taken

---
 src/hookeai/ioput/iostandard.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/ioput/iostandard.py b/src/hookeai/ioput/iostandard.py
index 52669f1..886bc91 100644
--- a/src/hookeai/ioput/iostandard.py
+++ b/src/hookeai/ioput/iostandard.py
@@ -51,6 +51,7 @@ def make_directory(directory, is_overwrite=False):
     """
     # Get absolute path
     directory = os.path.abspath(directory)
+    base_directory = directory
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     if os.path.isdir(directory):
         if is_overwrite:
@@ -68,7 +69,13 @@ def make_directory(directory, is_overwrite=False):
             directory = new_directory
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Create directory
-    os.makedirs(directory)
+    try:
+        os.makedirs(directory)
+    except FileExistsError:
+        # Search again if directory has been meanwhile created elsewhere
+        if is_overwrite or not os.path.isdir(directory):
+            raise
+        directory = make_directory(base_directory, is_overwrite=False)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return directory
 # =============================================================================
-- 
2.43.0


From 66b1d1128bd29230509c10f147e0c02ccb0d1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:08 +0000
Subject: [PATCH 11/92] fix: prediction failed if ground-truth was not
 available

---
 .../model_architectures/hybrid_base_model/predict/prediction.py | 2 +-
 .../model_architectures/rc_base_model/predict/prediction.py     | 2 +-
 .../model_architectures/rnn_base_model/predict/prediction.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
index 0d8c637..daf5f35 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/predict/prediction.py
@@ -207,7 +207,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
index 09fc5fd..90c1b02 100644
--- a/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rc_base_model/predict/prediction.py
@@ -208,7 +208,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 features_in = batch['features_in']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
diff --git a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
index ea4812c..0bc6b55 100644
--- a/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
+++ b/src/hookeai/model_architectures/rnn_base_model/predict/prediction.py
@@ -212,7 +212,7 @@ def predict(dataset, model_directory, model=None, predict_directory=None,
                 hidden_features_in = None
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get output features ground-truth (None if not available)
-            targets = batch['features_out']
+            targets = batch.get('features_out')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of batched samples
             batch_n_sample = batch['features_in'].shape[1]
-- 
2.43.0


From f000b6200d861add11a60235342369c12bd25c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:19 +0000
Subject: [PATCH 12/92] fix: failed write of summary file was not reported

---
 src/hookeai/ioput/iostandard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/ioput/iostandard.py b/src/hookeai/ioput/iostandard.py
index 886bc91..231e788 100644
--- a/src/hookeai/ioput/iostandard.py
+++ b/src/hookeai/ioput/iostandard.py
@@ -158,7 +158,8 @@ def write_summary_file(summary_directory, filename='summary',
             summary.append(f'\n"{str(key1)}":  {str(val1)}\n')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Write summary file
-    open(summary_file_path, 'w').writelines(summary)
+    with open(summary_file_path, 'w') as summary_file:
+        summary_file.writelines(summary)
 # =============================================================================
 def find_unique_file_with_regex(directory, regex):
     """Find file in directory based on regular expression.
-- 
2.43.0


From 20beddefc4800a04c5a3813ef2b3b51a4908e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:19 +0000
Subject: [PATCH 13/92] fix: prediction summary reported no loss if average
 loss was zero

---
 src/hookeai/model_architectures/procedures/model_prediction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/procedures/model_prediction.py b/src/hookeai/model_architectures/procedures/model_prediction.py
index 0760016..a88aa3f 100644
--- a/src/hookeai/model_architectures/procedures/model_prediction.py
+++ b/src/hookeai/model_architectures/procedures/model_prediction.py
@@ -168,7 +168,7 @@ def write_prediction_summary_file(
         dataset_file_path if dataset_file_path else None
     summary_data['Prediction data set size'] = len(dataset)
     summary_data['Avg. prediction loss per sample'] = \
-        f'{avg_predict_loss:.8e}' if avg_predict_loss else None
+        f'{avg_predict_loss:.8e}' if avg_predict_loss is not None else None
     summary_data['Total prediction time'] = \
         str(datetime.timedelta(seconds=int(total_time_sec)))
     summary_data['Avg. prediction time per sample'] = \
-- 
2.43.0


From f0f4b0aa50e102819b4455e5e39a12e80a354940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:17 +0000
Subject: [PATCH 14/92] fix: nested material parameters could not be converted
 to tensors

---
 src/hookeai/utilities/type_conversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index 2a93412..b7b0ebf 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -55,7 +55,7 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                data_dict[key] = convert_dict_to_tensor(value, in_place=True)
+                data_dict[key] = convert_dict_to_tensor(value, is_inplace=True)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
@@ -69,7 +69,7 @@ def convert_dict_to_tensor(data_dict, is_inplace=True):
             if isinstance(value, dict):
                 # Process nested dictionary recursively
                 local_data_dict[key] = \
-                    convert_dict_to_tensor(value, in_place=False)
+                    convert_dict_to_tensor(value, is_inplace=False)
             elif (isinstance(value, (int, float, bool))
                 and not isinstance(value, torch.Tensor)):
                 # Convert to torch tensor
-- 
2.43.0


From 951aaa0e5141abbd139f1d8c54599a898a42f748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:25 +0000
Subject: [PATCH 15/92] fix: directory of stored data set could not be updated

---
 src/hookeai/time_series_data/time_dataset.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 5191dc2..d989452 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -829,8 +829,7 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         # internal directory of the loaded data set
         if stored_directory != new_directory:
             # Update directory of PyTorch data set
-            dataset._update_dataset_directory(
-                new_directory, is_reload_data=is_reload_data)
+            dataset._update_dataset_directory(new_directory)
             # Save updated PyTorch data set (overwrite existing data set file)
             with open(dataset_file_path, 'wb') as dataset_file:
                 pickle.dump(loaded_dataset, dataset_file)
-- 
2.43.0


From 3054001ee381837326f61c55153112bb04f6772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:25 +0000
Subject: [PATCH 16/92] fix: failed data set directory update left data set
 inconsistent

---
 src/hookeai/time_series_data/time_dataset.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index d989452..c5f52dd 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -850,21 +850,25 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
         if not os.path.isdir(dataset_directory):
             raise RuntimeError('The new time series data set directory has '
                                'not been found:\n\n' + dataset_directory)
-        else:
-            self._dataset_directory = dataset_directory
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Initialize new samples files paths
+        new_sample_files = []
         # Loop over samples files
-        for i, file_path in enumerate(self._dataset_sample_files):
+        for file_path in self._dataset_sample_files:
             # Set new sample file path (update directory)
             new_file_path = os.path.join(os.path.normpath(dataset_directory),
                                          os.path.basename(file_path))
-            # Update sample file path
+            # Check sample file path
             if not os.path.isfile(new_file_path):
                 raise RuntimeError('Time series data set sample file is not '
                                    'in new dataset directory:\n\n'
                                    + dataset_directory)
-            else:
-                self._dataset_sample_files[i] = new_file_path
+            # Store new sample file path
+            new_sample_files.append(new_file_path)
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Update data set directory and samples files paths
+        self._dataset_directory = os.path.normpath(dataset_directory)
+        self._dataset_sample_files = new_sample_files
 # =============================================================================
 def split_dataset(dataset, split_sizes, is_copy_dataset=False,
                   is_save_subsets=False, subsets_directory=None,
-- 
2.43.0


From b7e900277db161017fd9b3069bbb3aaa9d8c2aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:25 +0000
Subject: [PATCH 17/92] fix: features labels of in-memory or partially renamed
 data set could not be changed

---
 src/hookeai/time_series_data/time_dataset.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index c5f52dd..307b8a0 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -217,23 +217,20 @@ def change_dataset_features_labels(dataset, features_label_map):
     """
     # Loop over features
     for old_label, new_label in features_label_map.items():        
-        # Probe feature existence
-        if old_label not in tuple(dataset[0].keys()):
-            continue
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over samples
         for i in range(len(dataset)):
             # Get sample
             sample = dataset[i]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+            # Probe feature existence
+            if old_label not in sample.keys():
+                continue
             # Change feature label
             sample[new_label] = sample.pop(old_label)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Update data set sample
             if isinstance(dataset, TimeSeriesDataset):
                 dataset.update_dataset_sample(i, sample)
-            else:
-                dataset[i] = sample      
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset
 # =============================================================================
-- 
2.43.0


From 253b0fb7f1217eecd2b2735ebf87b2a9677824f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:25 +0000
Subject: [PATCH 18/92] fix: sum of features without weights failed

---
 src/hookeai/time_series_data/time_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 307b8a0..87891a1 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -391,7 +391,7 @@ def sum_dataset_features(dataset, new_feature_label, sum_features_labels,
     sum_weights = {}
     # Set sum weights
     for feature_label in sum_features_labels:
-        if feature_label in features_weights.keys():
+        if features_weights and feature_label in features_weights.keys():
             sum_weights[feature_label] = float(features_weights[feature_label])
         else:
             sum_weights[feature_label] = 1.0
-- 
2.43.0


From 1410a860879a534c29045858d8db53cd4c296785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:25 +0000
Subject: [PATCH 19/92] fix: keep previous data set files until new ones are
 complete

---
 src/hookeai/time_series_data/time_dataset.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/hookeai/time_series_data/time_dataset.py b/src/hookeai/time_series_data/time_dataset.py
index 87891a1..cbd9ce8 100644
--- a/src/hookeai/time_series_data/time_dataset.py
+++ b/src/hookeai/time_series_data/time_dataset.py
@@ -44,7 +44,7 @@ import pickle
 import torch
 import numpy as np
 # Local
-from ioput.iostandard import write_summary_file
+from ioput.iostandard import open_atomic, write_summary_file
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -160,7 +160,7 @@ def save_dataset(dataset, dataset_basename, dataset_directory,
                                      dataset_file + '.pkl')   
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save data set
-    with open(dataset_file_path, 'wb') as dataset_file:
+    with open_atomic(dataset_file_path) as dataset_file:
         pickle.dump(dataset, dataset_file)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dataset_file_path
@@ -735,7 +735,8 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
             (sequence_length, n_features).
         """
         # Update data set sample time series data
-        torch.save(time_series, self._dataset_sample_files[index])
+        with open_atomic(self._dataset_sample_files[index]) as sample_file:
+            torch.save(time_series, sample_file)
     # -------------------------------------------------------------------------
     def get_dataset_directory(self):
         """Get directory where time series data set is stored.
@@ -828,7 +829,7 @@ class TimeSeriesDataset(torch.utils.data.Dataset):
             # Update directory of PyTorch data set
             dataset._update_dataset_directory(new_directory)
             # Save updated PyTorch data set (overwrite existing data set file)
-            with open(dataset_file_path, 'wb') as dataset_file:
+            with open_atomic(dataset_file_path) as dataset_file:
                 pickle.dump(loaded_dataset, dataset_file)
     # -------------------------------------------------------------------------
     def _update_dataset_directory(self, dataset_directory):
@@ -960,7 +961,7 @@ def split_dataset(dataset, split_sizes, is_copy_dataset=False,
                                        subset_file + '.pkl')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Save data subset
-            with open(subset_path, 'wb') as subset_file:
+            with open_atomic(subset_path) as subset_file:
                 pickle.dump(val, subset_file)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~    
     return dataset_split
-- 
2.43.0


From 6aff6dc1a6e47c77578e613af6b0e63d005f8419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:31 +0000
Subject: [PATCH 20/92] fix: Drucker-Prager consistent tangent was not
 normalized by deviatoric strain

---
 .../fetorch/material/models/standard/drucker_prager.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
index a9846f0..01ccee7 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
@@ -612,8 +612,8 @@ class DruckerPrager(ConstitutiveModel):
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Compute deviatoric elastic trial strain norm divison
                     # factor
-                    if torch.norm(e_trial_strain_mf) > small:
-                        norm_div_factor = 1.0/torch.norm(e_trial_strain_mf)
+                    if torch.norm(dev_trial_e_strain) > small:
+                        norm_div_factor = 1.0/torch.norm(dev_trial_e_strain)
                     else:
                         norm_div_factor = torch.zeros(1, device=self._device)
                     # Compute deviatoric elastic strain unit vector
-- 
2.43.0


From 2c4dc73f97cb751a00ba6ca2ec45c169a2fab062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:46 +0000
Subject: [PATCH 21/92] fix: state update converted nested material parameters
 in place

---
 src/hookeai/utilities/type_conversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index b7b0ebf..a6fdbf5 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -142,7 +142,8 @@ def convert_dict_to_float32(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float32(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float32(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float32
@@ -218,7 +219,8 @@ def convert_dict_to_float64(tensor_dict, is_inplace=True):
             # Perform type conversion
             if isinstance(value, dict):
                 # Process nested dictionary recursively
-                local_tensor_dict[key] = convert_dict_to_float64(value)
+                local_tensor_dict[key] = \
+                    convert_dict_to_float64(value, is_inplace=False)
             elif (isinstance(value, torch.Tensor)
                 and torch.is_floating_point(value)):
                 # Convert torch tensor to torch.float64
-- 
2.43.0


From 1fe648060fccf9e786a660d70f98526aee6d57c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:17 +0000
Subject: [PATCH 22/92] fix: failed state update changed Torch default data
 type

---
 .../models/standard/drucker_prager.py         |  4 ++-
 .../fetorch/material/models/standard/lou.py   |  3 +-
 .../material/models/standard/von_mises.py     |  4 ++-
 .../models/standard/von_mises_mixed.py        |  4 ++-
 .../material/models/vmap/drucker_prager.py    |  4 ++-
 .../fetorch/material/models/vmap/lou.py       |  3 +-
 .../fetorch/material/models/vmap/von_mises.py |  4 ++-
 .../material/models/vmap/von_mises_mixed.py   |  4 ++-
 src/hookeai/utilities/type_conversion.py      | 31 ++++++++++++++++++-
 9 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
index 01ccee7..a9fff88 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/drucker_prager.py
@@ -26,7 +26,8 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
-    convert_dict_to_float32, convert_tensor_to_float32
+    convert_dict_to_float32, convert_tensor_to_float32, \
+    keep_default_dtype
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -265,6 +266,7 @@ class DruckerPrager(ConstitutiveModel):
         # Return
         return state_variables_init
     # -------------------------------------------------------------------------
+    @keep_default_dtype
     def state_update(self, inc_strain, state_variables_old):
         """Perform material constitutive model state update.
 
diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 4127a6e..573a840 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -33,7 +33,7 @@ from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1, \
     ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dinv_sym
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
-    convert_dict_to_float32
+    convert_dict_to_float32, keep_default_dtype
 from ioput.plots import plot_xy_data, save_figure
 #
 #                                                          Authorship & Credits
@@ -303,6 +303,7 @@ class LouZhangYoon(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return state_variables_init
     # -------------------------------------------------------------------------
+    @keep_default_dtype
     def state_update(self, inc_strain, state_variables_old):
         """Perform material constitutive model state update.
 
diff --git a/src/hookeai/simulators/fetorch/material/models/standard/von_mises.py b/src/hookeai/simulators/fetorch/material/models/standard/von_mises.py
index 01e6845..b835dfd 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/von_mises.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/von_mises.py
@@ -25,7 +25,8 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
-    convert_dict_to_float32, convert_tensor_to_float32
+    convert_dict_to_float32, convert_tensor_to_float32, \
+    keep_default_dtype
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -256,6 +257,7 @@ class VonMises(ConstitutiveModel):
         # Return
         return state_variables_init
     # -------------------------------------------------------------------------
+    @keep_default_dtype
     def state_update(self, inc_strain, state_variables_old):
         """Perform material constitutive model state update.
 
diff --git a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
index 6991d07..473fb18 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
@@ -25,7 +25,8 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
-    convert_dict_to_float32, convert_tensor_to_float32
+    convert_dict_to_float32, convert_tensor_to_float32, \
+    keep_default_dtype
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -246,6 +247,7 @@ class VonMisesMixed(ConstitutiveModel):
         # Return
         return state_variables_init
     # -------------------------------------------------------------------------
+    @keep_default_dtype
     def state_update(self, inc_strain, state_variables_old):
         """Perform material constitutive model state update.
 
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py b/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
index 51bc516..a52effc 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/drucker_prager.py
@@ -52,7 +52,8 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
-    convert_dict_to_float32, convert_tensor_to_float32
+    convert_dict_to_float32, convert_tensor_to_float32, \
+    keep_default_dtype
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -297,6 +298,7 @@ class DruckerPragerVMAP(ConstitutiveModel):
         # Return
         return state_variables_init
     # -------------------------------------------------------------------------
+    @keep_default_dtype
     def state_update(self, inc_strain, state_variables_old):
         """Perform material constitutive model state update.
 
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index d7f3dcd..3d57cdb 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -54,7 +54,7 @@ from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1, \
     ddot42_1, ddot24_1, ddot22_1, ddot44_1, fo_dinv_sym
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
-    convert_dict_to_float32
+    convert_dict_to_float32, keep_default_dtype
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -345,6 +345,7 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return state_variables_init
     # -------------------------------------------------------------------------
+    @keep_default_dtype
     def state_update(self, inc_strain, state_variables_old):
         """Perform material constitutive model state update.
 
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises.py
index 73eb90f..83c960c 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises.py
@@ -50,7 +50,8 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
-    convert_dict_to_float32, convert_tensor_to_float32
+    convert_dict_to_float32, convert_tensor_to_float32, \
+    keep_default_dtype
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -292,6 +293,7 @@ class VonMisesVMAP(ConstitutiveModel):
         # Return
         return state_variables_init
     # -------------------------------------------------------------------------
+    @keep_default_dtype
     def state_update(self, inc_strain, state_variables_old):
         """Perform material constitutive model state update.
 
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index ea49b0e..9500faa 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -49,7 +49,8 @@ from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
 from simulators.fetorch.math.tensorops import get_id_operators, dyad22_1
 from utilities.type_conversion import convert_dict_to_tensor, \
     convert_tensor_to_float64, convert_dict_to_float64, \
-    convert_dict_to_float32, convert_tensor_to_float32
+    convert_dict_to_float32, convert_tensor_to_float32, \
+    keep_default_dtype
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -284,6 +285,7 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         # Return
         return state_variables_init
     # -------------------------------------------------------------------------
+    @keep_default_dtype
     def state_update(self, inc_strain, state_variables_old):
         """Perform material constitutive model state update.
 
diff --git a/src/hookeai/utilities/type_conversion.py b/src/hookeai/utilities/type_conversion.py
index a6fdbf5..6020248 100644
--- a/src/hookeai/utilities/type_conversion.py
+++ b/src/hookeai/utilities/type_conversion.py
@@ -12,10 +12,14 @@ convert_tensor_to_float64
     Convert floating point torch tensor to torch.float64.
 convert_dict_to_float64
     Convert all floating point torch tensors in dictionary to torch.float64.
+keep_default_dtype
+    Decorator to restore Torch default data type after function call.
 """
 #
 #                                                                       Modules
 # =============================================================================
+# Standard
+import functools
 # Third-party
 import torch
 #
@@ -231,4 +235,29 @@ def convert_dict_to_float64(tensor_dict, is_inplace=True):
         # Assign pointer
         tensor_dict = local_tensor_dict
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    return tensor_dict
\ No newline at end of file
+    return tensor_dict
+# =============================================================================
+def keep_default_dtype(function):
+    """Decorator to restore Torch default data type after function call.
+    
+    Default data type is also restored if function raises an exception.
+    
+    Parameters
+    ----------
+    function : function
+        Function.
+        
+    Returns
+    -------
+    wrapper : function
+        Decorated function.
+    """
+    @functools.wraps(function)
+    def wrapper(*args, **kwargs):
+        default_dtype = torch.get_default_dtype()
+        try:
+            return function(*args, **kwargs)
+        finally:
+            torch.set_default_dtype(default_dtype)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    return wrapper
-- 
2.43.0


From 06e24f2e3a65c0b372a5f123783240af43b4c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:11 +0000
Subject: [PATCH 23/92] fix: back-stress update was inconsistent with yield
 condition

---
 .../fetorch/material/models/standard/von_mises_mixed.py        | 3 ++-
 .../simulators/fetorch/material/models/vmap/von_mises_mixed.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
index 473fb18..a5139bb 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/von_mises_mixed.py
@@ -463,7 +463,8 @@ class VonMisesMixed(ConstitutiveModel):
             acc_p_strain = acc_p_strain_old + inc_p_mult
             # Update back-stress
             back_stress_mf = back_stress_old_mf \
-                + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+                + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old) \
+                *flow_vector_mf
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set state variables to NaN if state update fails
             if is_su_fail:
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index 9500faa..2825122 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -713,7 +713,8 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         acc_p_strain = acc_p_strain_old + inc_p_mult
         # Update back-stress
         back_stress_mf = back_stress_old_mf \
-            + (kin_hard_stress - kin_hard_stress_old)*flow_vector_mf
+            + (2.0/3.0)*(kin_hard_stress - kin_hard_stress_old) \
+            *flow_vector_mf
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Build concatenated plastic step output
         plastic_step_output = \
-- 
2.43.0


From 051d15ecf2dcb1676af42b8ce6dcd1824f221ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:29 +0000
Subject: [PATCH 24/92] fix: piecewise linear hardening law did not keep shape
 of plastic strain

---
 .../simulators/fetorch/material/models/standard/hardening.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
index 62aec5c..8459787 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/hardening.py
@@ -238,6 +238,10 @@ class PiecewiseLinearIHL(IsotropicHardeningLaw):
                 acc_p_strain >= a[-1], 0.0,
                 PiecewiseLinearIHL._hardening_slope(acc_p_strain, a, b)))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Enforce shape of accumulated plastic strain
+        yield_stress = yield_stress.reshape(acc_p_strain.shape)
+        hard_slope = hard_slope.reshape(acc_p_strain.shape)
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         return yield_stress, hard_slope
     # -------------------------------------------------------------------------
     @staticmethod
-- 
2.43.0


From 137f3e0ea1744cc2e830a2c0c0a1de4f6d708e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:58 +0000
Subject: [PATCH 25/92] fix: singular deviatoric stress raised an exception in
 Lou-Zhang-Yoon state update

---
 .../simulators/fetorch/material/models/standard/lou.py        | 4 +++-
 src/hookeai/simulators/fetorch/material/models/vmap/lou.py    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index 573a840..cab8cd4 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -901,7 +901,9 @@ class LouZhangYoon(ConstitutiveModel):
         # Compute determinant of deviatoric stress tensor
         dev_stress_det = torch.det(dev_stress)
         # Compute inverse of deviatoric stress tensor
-        dev_stress_inv = torch.inverse(dev_stress)
+        # (undefined if deviatoric stress is singular)
+        dev_stress_inv, info = torch.linalg.inv_ex(dev_stress)
+        dev_stress_inv = torch.where(info == 0, dev_stress_inv, torch.nan)
         # Compute derivative of inverse of deviatoric strss tensor w.r.t itself
         ddsinv_ddsinv = fo_dinv_sym(dev_stress_inv)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index 3d57cdb..0b6421d 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -694,7 +694,9 @@ class LouZhangYoonVMAP(ConstitutiveModel):
         # Compute determinant of deviatoric stress tensor
         dev_stress_det = torch.det(dev_stress)
         # Compute inverse of deviatoric stress tensor
-        dev_stress_inv = torch.inverse(dev_stress)
+        # (undefined if deviatoric stress is singular)
+        dev_stress_inv, info = torch.linalg.inv_ex(dev_stress)
+        dev_stress_inv = torch.where(info == 0, dev_stress_inv, torch.nan)
         # Compute derivative of inverse of deviatoric strss tensor w.r.t itself
         ddsinv_ddsinv = fo_dinv_sym(dev_stress_inv)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 79fb00207560b5859c29d519b11cfe199fb8e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:00 +0000
Subject: [PATCH 26/92] fix: vectorized mixed hardening tangent ignored
 kinematic hardening

---
 .../fetorch/material/models/vmap/von_mises_mixed.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
index 2825122..5aeff6b 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/von_mises_mixed.py
@@ -524,9 +524,11 @@ class VonMisesMixedVMAP(ConstitutiveModel):
         #
         # Compute plastic consistent tangent modulus
         _, H = hardening_law(hardening_parameters, acc_p_strain)
+        _, kin_hard_slope = kinematic_hardening_law(
+            kinematic_hardening_parameters, acc_p_strain)
         factor_1 = ((inc_p_mult*6.0*G**2)/relative_eq_trial_stress)
         factor_2 = (6.0*G**2)*((inc_p_mult/relative_eq_trial_stress)
-                                - (1.0/(3.0*G + H)))
+                                - (1.0/(3.0*G + kin_hard_slope + H)))
         unit_flow_vector = math.sqrt(2.0/3.0)*vget_tensor_from_mf(
             flow_vector_mf, n_dim, comp_order_sym, device=self._device)
         p_consistent_tangent = e_consistent_tangent \
-- 
2.43.0


From b2220883f15126cdf8eefa8a422ecc83433817da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:16 +0000
Subject: [PATCH 27/92] fix: data scalers of finder and hybridized models could
 not be set or applied

---
 .../hybrid_base_model/model/hybrid_model.py         | 10 ++++++----
 .../hybrid_base_model/model/hybridized_model.py     | 13 ++++++++++---
 .../procedures/model_data_scaling.py                |  6 +++---
 .../simulators/fetorch/structure/structure_state.py |  6 ++++--
 4 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
index 0cb8550..d94a6e6 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybrid_model.py
@@ -628,8 +628,9 @@ class HybridModel(torch.nn.Module):
                 # Get hybridized model input features
                 if self.check_model_in_normalized(hyb_model):
                     # Normalize hybridized model input features
-                    hyb_model_features_in = hyb_model.data_scaler_transform(
-                        features_out, 'features_in', mode='normalize')
+                    hyb_model_features_in = data_scaler_transform(
+                        hyb_model, features_out, 'features_in',
+                        mode='normalize')
                 else:
                     hyb_model_features_in = features_out
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
@@ -640,8 +641,9 @@ class HybridModel(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Get hybridized model output features
                 if self.check_model_out_normalized(hyb_model):
-                    features_out = hyb_model.data_scaler_transform(
-                        features_out, 'features_out', mode='denormalize')
+                    features_out = data_scaler_transform(
+                        hyb_model, features_out, 'features_out',
+                        mode='denormalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Store hybridization channel output features
             list_features_out.append(features_out)
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
index c1961e0..4f471d8 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_model.py
@@ -12,6 +12,8 @@ set_hybridized_model
 import os
 # Third-party
 import torch
+# Local
+from model_architectures.procedures.model_data_scaling import set_data_scalers
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -93,7 +95,8 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set hybridized model data scalers
     if data_scalers is not None:
-        if hasattr(model_class, 'set_data_scalers'):
+        if (hasattr(model_class, 'set_data_scalers')
+                or hasattr(hyb_model, '_data_scalers')):
             # Check data scalers
             if isinstance(data_scalers, dict):
                 # Check data scaler for input features
@@ -107,8 +110,12 @@ def set_hybridized_model(model_class, hyb_indices, model_init_args=None,
                 else:
                     scaler_features_out = None
                 # Set hybridized model data scalers
-                hyb_model.set_data_scalers(scaler_features_in,
-                                           scaler_features_out)
+                if hasattr(model_class, 'set_data_scalers'):
+                    hyb_model.set_data_scalers(scaler_features_in,
+                                               scaler_features_out)
+                else:
+                    set_data_scalers(hyb_model, scaler_features_in,
+                                     scaler_features_out)
             else:
                 raise RuntimeError('Hybridized model data scalers must be '
                                    'provided as dictionary.') 
diff --git a/src/hookeai/model_architectures/procedures/model_data_scaling.py b/src/hookeai/model_architectures/procedures/model_data_scaling.py
index 31361a2..7c62246 100644
--- a/src/hookeai/model_architectures/procedures/model_data_scaling.py
+++ b/src/hookeai/model_architectures/procedures/model_data_scaling.py
@@ -91,7 +91,7 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         features normalization tensors.
     """
     # Initialize data scalers
-    model._init_data_scalers()
+    init_data_scalers(model)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get input and output features scaling parameters
     scaling_parameters_in = scaling_parameters['features_in']
@@ -102,11 +102,11 @@ def set_fitted_data_scalers(model, scaling_type, scaling_parameters):
         # Instantiate data scalers
         scaler_features_in = TorchMinMaxScaler(
             model._n_features_in,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_in)
         scaler_features_out = TorchMinMaxScaler(
             model._n_features_out,
-            device_type=model._device_type
+            device_type=model._device_type,
             **scaling_parameters_out)
     elif scaling_type == 'mean-std':
         scaler_features_in = TorchStandardScaler(
diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 40e1a39..1989171 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -26,6 +26,8 @@ from model_architectures.rc_base_model.model.recurrent_model import \
     RecurrentConstitutiveModel
 from model_architectures.hybrid_base_model.model.hybrid_model import \
     HybridModel
+from model_architectures.procedures.model_data_scaling import \
+    set_fitted_data_scalers
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -298,8 +300,8 @@ class StructureMaterialState(torch.nn.Module):
             # Get data scaling parameters
             scaling_parameters = model_kwargs['scaling_parameters']
             # Set fitted model data scalers
-            constitutive_model.set_fitted_data_scalers(scaling_type,
-                                                       scaling_parameters)
+            set_fitted_data_scalers(constitutive_model, scaling_type,
+                                    scaling_parameters)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set recurrency structure
             is_recurrent_model = True
-- 
2.43.0


From 93ca595d9fa8a3863bd38c410b06841e16553923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:07 +0000
Subject: [PATCH 28/92] fix: sequential force equilibrium loss ignored updated
 material parameters

---
 .../material_model_finder/model/material_discovery.py  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 0cdf45e..3415148 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -915,6 +915,11 @@ class MaterialModelFinder(torch.nn.Module):
         n_dim, _, _ = get_problem_type_parameters(problem_type)
         # Get elements material
         elements_material = specimen_material_state.get_elements_material()
+        # Synchronize material models parameters with learnable parameters
+        for model in set(elements_material.values()):
+            if callable(getattr(model, 'sync_material_model_parameters',
+                                None)):
+                model.sync_material_model_parameters()
         # Set finite element mesh nodes coordinates update flag
         if strain_formulation == 'infinitesimal':
             is_update_coords = False
@@ -1033,6 +1038,11 @@ class MaterialModelFinder(torch.nn.Module):
         n_dim, _, _ = get_problem_type_parameters(problem_type)
         # Get elements material
         elements_material = specimen_material_state.get_elements_material()
+        # Synchronize material models parameters with learnable parameters
+        for model in set(elements_material.values()):
+            if callable(getattr(model, 'sync_material_model_parameters',
+                                None)):
+                model.sync_material_model_parameters()
         # Set finite element mesh nodes coordinates update flag
         if strain_formulation == 'infinitesimal':
             is_update_coords = False
-- 
2.43.0


From 2921552aea752774bb374426f29236a625a886fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:07 +0000
Subject: [PATCH 29/92] fix: sequential material state update ignored model
 data normalization

---
 .../material_model_finder/model/material_discovery.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 3415148..7986602 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1421,10 +1421,19 @@ class MaterialModelFinder(torch.nn.Module):
             else:
                 raise RuntimeError('Not implemented.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Normalize input features tensor
+        model_features_in = features_in
+        if self.check_model_in_normalized(constitutive_model):
+            model_features_in = data_scaler_transform(constitutive_model,
+                features_in, 'features_in', mode='normalize')
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
+        # Denormalize output features tensor
+        if self.check_model_out_normalized(constitutive_model):
+            features_out = data_scaler_transform(constitutive_model,
+                features_out, 'features_out', mode='denormalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Loop over discrete time
         for time_idx in range(n_time):
-- 
2.43.0


From d83cdff267bdcbedc862977d18c269957013420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:07 +0000
Subject: [PATCH 30/92] fix: local strain paths were stored normalized

---
 .../material_model_finder/model/material_discovery.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 7986602..14a9a82 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2520,13 +2520,14 @@ class MaterialModelFinder(torch.nn.Module):
         features_in = torch.stack(features_in_data, dim=0)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Normalize input features tensor
+        model_features_in = features_in
         if self.check_model_in_normalized(constitutive_model):
             # Normalize input features
-            features_in = data_scaler_transform(constitutive_model,
+            model_features_in = data_scaler_transform(constitutive_model,
                 features_in, 'features_in', mode='normalize')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute output features
-        features_out = constitutive_model(features_in)
+        features_out = constitutive_model(model_features_in)
         # Extract output features
         features_out = self.features_out_extractor(features_out)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 3625f94943f55b188c437a189b83e6b2423632e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:07 +0000
Subject: [PATCH 31/92] fix: vectorized loss applied one material model to
 elements of another

---
 src/hookeai/simulators/fetorch/structure/structure_state.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/simulators/fetorch/structure/structure_state.py b/src/hookeai/simulators/fetorch/structure/structure_state.py
index 1989171..2ca7eb5 100644
--- a/src/hookeai/simulators/fetorch/structure/structure_state.py
+++ b/src/hookeai/simulators/fetorch/structure/structure_state.py
@@ -438,15 +438,15 @@ class StructureMaterialState(torch.nn.Module):
         return self._elements_material
     # -------------------------------------------------------------------------
     def get_n_element_material_type(self):
-        """Get the number of material model types of finite element mesh.
+        """Get the number of material models of finite element mesh.
         
         Returns
         -------
         n_element_material_type : int
-            Number of types of constitutive material models of finite element
+            Number of distinct constitutive material models of finite element
             mesh.
         """
-        return len({type(x) for x in self._elements_material.values()})
+        return len({id(x) for x in self._elements_material.values()})
     # -------------------------------------------------------------------------
     def update_element_state(self, element_id, element_state, time='current',
                              is_copy=True):
-- 
2.43.0


From b925dbfe6aff14f279d72e953ef864ae2f5f51af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:52 +0000
Subject: [PATCH 32/92] fix: loss of Dirichlet sets assumed free degrees of
 freedom and contiguous data

---
 .../model/material_discovery.py               | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 14a9a82..b80a5a9 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2756,12 +2756,12 @@ class MaterialModelFinder(torch.nn.Module):
                                          reaction_forces_mesh, 0.0))**2)
         elif self._force_equilibrium_loss_type == 'dirichlet_sets':
             # Flatten mesh data
-            internal_forces_mesh_flat = internal_forces_mesh.view(-1)
-            external_forces_mesh_flat = external_forces_mesh.view(-1)
-            reaction_forces_mesh_flat = reaction_forces_mesh.view(-1)
+            internal_forces_mesh_flat = internal_forces_mesh.reshape(-1)
+            external_forces_mesh_flat = external_forces_mesh.reshape(-1)
+            reaction_forces_mesh_flat = reaction_forces_mesh.reshape(-1)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Flatten mesh sets
-            dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
+            dirichlet_bc_mesh_flat = dirichlet_bc_mesh.reshape(-1).long()
             # Get unique set labels
             unique_labels = torch.unique(dirichlet_bc_mesh_flat)
             # Set contiguous set labels
@@ -2781,8 +2781,8 @@ class MaterialModelFinder(torch.nn.Module):
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get one-hot enconding for non-Dirichlet and Dirichlet constrained
             # sets
-            one_hot_ndbc = one_hot[:, 0]
-            one_hot_dbc = one_hot[:, 1:]
+            one_hot_ndbc = (dirichlet_bc_mesh_flat == 0).to(one_hot.dtype)
+            one_hot_dbc = one_hot[:, unique_labels > 0]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set mask for reaction forces (0 for non-Dirichlet degrees of
             # freedom, 1 for Dirichlet constrained degrees of freedom)
@@ -2926,12 +2926,12 @@ class MaterialModelFinder(torch.nn.Module):
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             elif self._force_equilibrium_loss_type == 'dirichlet_sets':
                 # Flatten mesh data
-                internal_forces_mesh_flat = internal_forces_mesh.view(-1)
-                external_forces_mesh_flat = external_forces_mesh.view(-1)
-                reaction_forces_mesh_flat = reaction_forces_mesh.view(-1)
+                internal_forces_mesh_flat = internal_forces_mesh.reshape(-1)
+                external_forces_mesh_flat = external_forces_mesh.reshape(-1)
+                reaction_forces_mesh_flat = reaction_forces_mesh.reshape(-1)
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Flatten mesh sets
-                dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
+                dirichlet_bc_mesh_flat = dirichlet_bc_mesh.reshape(-1).long()
                 # Get unique set labels
                 unique_labels = torch.unique(dirichlet_bc_mesh_flat)
                 # Set contiguous set labels
@@ -2951,8 +2951,9 @@ class MaterialModelFinder(torch.nn.Module):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Get one-hot enconding for non-Dirichlet and Dirichlet
                 # constrained sets
-                one_hot_ndbc = one_hot[:, 0]
-                one_hot_dbc = one_hot[:, 1:]
+                one_hot_ndbc = \
+                    (dirichlet_bc_mesh_flat == 0).to(one_hot.dtype)
+                one_hot_dbc = one_hot[:, unique_labels > 0]
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Set mask for reaction forces (0 for non-Dirichlet degrees of
                 # freedom, 1 for Dirichlet constrained degrees of freedom)
@@ -3249,11 +3250,11 @@ class MaterialModelFinder(torch.nn.Module):
             dimension.
         """
         # Flatten mesh data
-        internal_forces_mesh_flat = internal_forces_mesh.view(-1)
-        external_forces_mesh_flat = external_forces_mesh.view(-1)
+        internal_forces_mesh_flat = internal_forces_mesh.reshape(-1)
+        external_forces_mesh_flat = external_forces_mesh.reshape(-1)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Flatten mesh sets
-        dirichlet_bc_mesh_flat = dirichlet_bc_mesh.view(-1).long()
+        dirichlet_bc_mesh_flat = dirichlet_bc_mesh.reshape(-1).long()
         # Get unique set labels
         unique_labels = torch.unique(dirichlet_bc_mesh_flat)
         # Set contiguous set labels
-- 
2.43.0


From e1b5bd106bb79c8bdc5c28034b59e507fcf0d394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:52 +0000
Subject: [PATCH 33/92] fix: sequential force equilibrium ignored Dirichlet
 sets loss type

---
 .../model/material_discovery.py                    | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index b80a5a9..9c913d3 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1161,11 +1161,19 @@ class MaterialModelFinder(torch.nn.Module):
             # Get discrete time loss weight
             time_weight = self._loss_time_weights[time_idx]
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-            # Add contribution to force equilibrium history loss
-            force_equilibrium_hist_loss += \
-                time_weight*self.force_equilibrium_loss(
+            # Compute force equilibrium loss
+            if self._force_equilibrium_loss_type == 'dirichlet_sets':
+                force_equilibrium_loss = self.vforce_equilibrium_loss(
+                    internal_forces_mesh, external_forces_mesh,
+                    reaction_forces_mesh,
+                    specimen_data.dirichlet_bc_mesh_hist[:, :, time_idx].to(
+                        self._device))
+            else:
+                force_equilibrium_loss = self.force_equilibrium_loss(
                     internal_forces_mesh, external_forces_mesh,
                     reaction_forces_mesh, dirichlet_bool_mesh)
+            # Add contribution to force equilibrium history loss
+            force_equilibrium_hist_loss += time_weight*force_equilibrium_loss
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Store specimen local strain-stress paths data set
         if self._is_store_local_paths:
-- 
2.43.0


From a2226d5c1ed91e078578d8832b81faeacd10427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:52 +0000
Subject: [PATCH 34/92] fix: normalized reaction forces were inconsistent with
 force equilibrium

---
 .../model/material_discovery.py                | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 9c913d3..8c788bd 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -1507,12 +1507,15 @@ class MaterialModelFinder(torch.nn.Module):
             # Normalize internal forces
             internal_forces_mesh = data_scaler_transform(self,
                 internal_forces_mesh, features_type='forces', mode='normalize')
+            # Normalize reaction forces (relative to external forces, such that
+            # normalized forces preserve equilibrium)
+            reaction_forces_mesh = data_scaler_transform(self,
+                external_forces_mesh + reaction_forces_mesh,
+                features_type='forces', mode='normalize')
             # Normalize external forces
             external_forces_mesh = data_scaler_transform(self,
                 external_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
+            reaction_forces_mesh = reaction_forces_mesh - external_forces_mesh
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get number of nodes of finite element mesh
         n_node_mesh = internal_forces_mesh.shape[0]
@@ -2747,12 +2750,15 @@ class MaterialModelFinder(torch.nn.Module):
             # Normalize internal forces
             internal_forces_mesh = data_scaler_transform(self,
                 internal_forces_mesh, features_type='forces', mode='normalize')
+            # Normalize reaction forces (relative to external forces, such that
+            # normalized forces preserve equilibrium)
+            reaction_forces_mesh = data_scaler_transform(self,
+                external_forces_mesh + reaction_forces_mesh,
+                features_type='forces', mode='normalize')
             # Normalize external forces
             external_forces_mesh = data_scaler_transform(self,
                 external_forces_mesh, features_type='forces', mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(self,
-                reaction_forces_mesh, features_type='forces', mode='normalize')
+            reaction_forces_mesh = reaction_forces_mesh - external_forces_mesh
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute force equilibrium loss
         if self._force_equilibrium_loss_type == 'pointwise':
-- 
2.43.0


From e26f1e015f84805896c7149e80bb20a89784061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:52 +0000
Subject: [PATCH 35/92] fix: force equilibrium loss components failed with
 force normalization

---
 .../model/material_discovery.py               | 25 ++++++++-----------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/hookeai/material_model_finder/model/material_discovery.py b/src/hookeai/material_model_finder/model/material_discovery.py
index 8c788bd..6906b34 100644
--- a/src/hookeai/material_model_finder/model/material_discovery.py
+++ b/src/hookeai/material_model_finder/model/material_discovery.py
@@ -2894,21 +2894,6 @@ class MaterialModelFinder(torch.nn.Module):
         # Get history length
         n_time = internal_forces_mesh_hist.shape[2]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Normalize forces
-        if self._is_force_normalization:
-            # Normalize internal forces
-            internal_forces_mesh = data_scaler_transform(
-                self, internal_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize external forces
-            external_forces_mesh = data_scaler_transform(
-                self, external_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-            # Normalize reaction forces
-            reaction_forces_mesh = data_scaler_transform(
-                self, reaction_forces_mesh_hist, features_type='forces',
-                mode='normalize')
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize force equilibrium loss components history
         force_equilibrium_loss_components_hist = \
             torch.zeros(1 + n_loss_comp, n_time,
@@ -2924,6 +2909,16 @@ class MaterialModelFinder(torch.nn.Module):
             reaction_forces_mesh = reaction_forces_mesh_hist[:, :, i]
             # Get Dirichlet boundary constraints at time step
             dirichlet_bc_mesh = dirichlet_bc_mesh_hist[:, :, i]
+            # Normalize forces (normalized reaction forces are relative to
+            # external forces, such that equilibrium is preserved)
+            if self._is_force_normalization:
+                internal_forces_mesh, external_forces_mesh, \
+                    total_forces_mesh = [data_scaler_transform(
+                        self, x, features_type='forces', mode='normalize')
+                        for x in (internal_forces_mesh, external_forces_mesh,
+                                  external_forces_mesh
+                                  + reaction_forces_mesh)]
+                reaction_forces_mesh = total_forces_mesh - external_forces_mesh
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Compute force equilibrium loss components
             if self._force_equilibrium_loss_type == 'pointwise':
-- 
2.43.0


From ce0941c8a106ddc58bcadd3aa2154a9192c3222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:39 +0000
Subject: [PATCH 36/92] fix: constitutive models built from the same parameters
 influenced each other

The recurrent constitutive model synchronized its learnable parameters in the
dictionary given by the caller, so that another model (or the caller) sharing
that dictionary got them too.
---
 .../rc_base_model/model/recurrent_model.py    | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 2553f90..5604df4 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -264,7 +264,9 @@ class RecurrentConstitutiveModel(torch.nn.Module):
         # Set material constitutive model name
         self._material_model_name = material_model_name
         # Set material constitutive model parameters
-        self._material_model_parameters = material_model_parameters
+        # (own copy, as the learnable parameters are synchronized in-place)
+        self._material_model_parameters = \
+            self._copy_nested_dict(material_model_parameters)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set learnable parameters
         self._learnable_parameters = learnable_parameters
@@ -486,6 +488,23 @@ class RecurrentConstitutiveModel(torch.nn.Module):
         """
         return self.device_type, self.device
     # -------------------------------------------------------------------------
+    @classmethod
+    def _copy_nested_dict(cls, data_dict):
+        """Copy nested dictionaries (non-dictionary values are shared).
+        
+        Parameters
+        ----------
+        data_dict : dict
+            Dictionary.
+        
+        Returns
+        -------
+        data_dict_copy : dict
+            Copy of dictionary.
+        """
+        return {key: cls._copy_nested_dict(value) if isinstance(value, dict)
+                else value for key, value in data_dict.items()}
+    # -------------------------------------------------------------------------
     def _set_model_parameters(self, learnable_parameters):
         """Set recurrent constitutive model learnable parameters.
         
-- 
2.43.0


From c0d026c81178a2ed3065580d30ea7bd63f075d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:44 +0000
Subject: [PATCH 37/92] fix: reloaded constitutive model forgot to skip state
 update checks

---
 .../model_architectures/rc_base_model/model/recurrent_model.py   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 5604df4..48b1db6 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1687,6 +1687,7 @@ class RecurrentConstitutiveModel(torch.nn.Module):
         model_init_args['model_directory'] = self.model_directory
         model_init_args['model_name'] = self.model_name
         model_init_args['state_features_out'] = self._state_features_out
+        model_init_args['is_check_su_fail'] = self._is_check_su_fail
         model_init_args['is_normalized_parameters'] = \
             self.is_normalized_parameters
         model_init_args['is_model_in_normalized'] = self.is_model_in_normalized
-- 
2.43.0


From 0e4dfa069670172f19821dd92dad294e69fbc669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:58 +0000
Subject: [PATCH 38/92] fix: noisy response data set script could not import
 its plots

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index ab06980..d5d3652 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -33,7 +33,8 @@ from time_series_data.time_dataset import TimeSeriesDatasetInMemory, \
 from data_generation.strain_paths.random_path import RandomStrainPathGenerator
 from data_generation.strain_paths.proportional_path import \
     ProportionalStrainPathGenerator
-from synthetic_data.gen_response_dataset import generate_dataset_plots
+from user_scripts.synthetic_data.gen_response_dataset import \
+    generate_dataset_plots
 from simulators.fetorch.math.matrixops import get_problem_type_parameters, \
     get_tensor_from_mf
 from simulators.fetorch.material.material_su import material_state_update
-- 
2.43.0


From 95bbc68579ebb9c279420e9652f9a4821d7c45af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:37 +0000
Subject: [PATCH 39/92] fix: response data set from .csv files could not be
 stored in a directory

---
 .../user_scripts/synthetic_data/gen_response_dataset.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
index 4c38d00..008a064 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py
@@ -576,7 +576,8 @@ class MaterialResponseDatasetGenerator():
     # -------------------------------------------------------------------------
     def gen_response_dataset_from_csv(self, response_file_paths,
                                       is_in_memory_dataset=True,
-                                      dataset_directory=None, save_dir=None,
+                                      dataset_directory=None,
+                                      dataset_basename=None, save_dir=None,
                                       is_save_fig=False, is_verbose=False):
         """Generate strain-stress path data set from set of .csv files.
         
-- 
2.43.0


From 3b3e39e059cb85d37139431fb5d6c125b52f027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:37 +0000
Subject: [PATCH 40/92] fix: heteroscedastic noise depended on script variables
 and the first path

---
 .../synthetic_data/gen_noisy_response_dataset.py   | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index d5d3652..7e9bc03 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -403,16 +403,18 @@ class NoisyMaterialResponseDatasetGenerator:
                 if noise_variability == 'heteroscedastic':
                     # Compute noiseless strain norm path
                     noiseless_strain_norm_path = \
-                        dataset_generator.compute_norm_path(
-                            noiseless_strain_path, n_dim, strain_comps_order,
-                            is_symmetric=strain_formulation == 'infinitesimal')
+                        self.compute_norm_path(
+                            noiseless_strain_path, self._n_dim,
+                            strain_comps_order, is_symmetric=
+                            self._strain_formulation == 'infinitesimal')
                     # Set heteroscedastic normalization
                     if heteroscedastic_normalizer is None:
-                        heteroscedastic_normalizer = \
-                            np.max(noiseless_strain_norm_path)
+                        path_normalizer = np.max(noiseless_strain_norm_path)
+                    else:
+                        path_normalizer = heteroscedastic_normalizer
                     # Compute heteroscedastic noise weights
                     heteroscedastic_weights = \
-                        noiseless_strain_norm_path/heteroscedastic_normalizer
+                        noiseless_strain_norm_path/path_normalizer
                 else:
                     heteroscedastic_weights = None
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From ecbcf4283e594a97065930fec64e327befef8ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:37 +0000
Subject: [PATCH 41/92] fix: unavailable state variable failed at second time
 step of noisy paths

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 7e9bc03..8251479 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -609,7 +609,8 @@ class NoisyMaterialResponseDatasetGenerator:
             for state_var in state_features.keys():
                 # Skip if state variable is not available
                 if state_var not in state_variables.keys():
-                    state_path.pop(state_var)
+                    if state_var in state_path.keys():
+                        state_path.pop(state_var)
                     continue
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Store state variable
-- 
2.43.0


From 327d188559f6810140eeb94b8b89d93d0b2af0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:37 +0000
Subject: [PATCH 42/92] fix: denoising failed for tensors other than of the
 filter type

---
 src/hookeai/utilities/data_denoisers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/utilities/data_denoisers.py b/src/hookeai/utilities/data_denoisers.py
index b2ffa81..8d28460 100644
--- a/src/hookeai/utilities/data_denoisers.py
+++ b/src/hookeai/utilities/data_denoisers.py
@@ -124,7 +124,8 @@ class Denoiser:
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.ones(n_features, 1, window_size)/window_size
+        kernel = torch.ones(n_features, 1, window_size, dtype=tensor.dtype,
+                            device=tensor.device)/window_size
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
@@ -194,7 +195,9 @@ class Denoiser:
                            for _ in range(n_features)])
         # Set convolution kernel of shape (n_features, 1, window_size)
         # (set independent kernel for each feature)
-        kernel = torch.tensor(coeffs).view(n_features, 1, window_size)
+        kernel = torch.tensor(
+            coeffs, dtype=tensor.dtype,
+            device=tensor.device).view(n_features, 1, window_size)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute moving average (independent convolution of each feature)
         denoised_tensor = \
-- 
2.43.0


From 4796991c404ae78b9f10b6a789afca8e39887488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:07 +0000
Subject: [PATCH 43/92] fix: denoised path started from the normalized initial
 strain

---
 .../user_scripts/synthetic_data/gen_noisy_response_dataset.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
index 8251479..1e70365 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_noisy_response_dataset.py
@@ -454,7 +454,8 @@ class NoisyMaterialResponseDatasetGenerator:
                         denoise_method, denoise_parameters=denoise_parameters,
                         n_denoise_cycle=n_denoise_cycle).numpy()
                     # Enforce null initial noise
-                    strain_path[0, :] = noiseless_strain_path[0, :]
+                    strain_path[0, :] = \
+                        noiseless_response_path['strain_path'][0, :].numpy()
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Compute material response
                 stress_comps_order, stress_path, state_path, \
-- 
2.43.0


From feebc912c1ce423fdec28063066bc34ca688adfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:24 +0000
Subject: [PATCH 44/92] fix: random strain path could leave the bounds of a
 component

---
 .../strain_paths/random_path.py                | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/hookeai/data_generation/strain_paths/random_path.py b/src/hookeai/data_generation/strain_paths/random_path.py
index 702ca5d..7954feb 100644
--- a/src/hookeai/data_generation/strain_paths/random_path.py
+++ b/src/hookeai/data_generation/strain_paths/random_path.py
@@ -245,21 +245,13 @@ class RandomStrainPathGenerator(StrainPathGenerator):
                 max_strain = np.max(strain_comp_hist)
                 # Check if bounds are satisfied
                 if min_strain < lbound or max_strain > ubound:
-                    # Compute maximum deviation to lower bound
+                    # Compute linear scale factor that enforces both bounds
+                    scale_factors = []
                     if min_strain < lbound:
-                        l_dist = np.abs(lbound - min_strain)
-                    else:
-                        l_dist = 0
-                    # Compute maximum deviation to upper bound
+                        scale_factors.append(np.abs(lbound/min_strain))
                     if max_strain > ubound:
-                        u_dist = np.abs(ubound - max_strain)
-                    else:
-                        u_dist = 0
-                    # Compute linear scale factor
-                    if l_dist > u_dist:
-                        scale_factor = np.abs(lbound/min_strain)
-                    else:
-                        scale_factor = np.abs(ubound/max_strain)
+                        scale_factors.append(np.abs(ubound/max_strain))
+                    scale_factor = min(scale_factors)
                     # Scale strain component history
                     strain_comp_hist = scale_factor*strain_comp_hist
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 0885d9bb95666a75768c2450f76c3f4d7d4cd69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:43 +0000
Subject: [PATCH 45/92] fix: deformed patch without rigid body motion could not
 be generated

---
 src/hookeai/data_generation/spdg/patch_generator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 43326a3..2875e00 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -407,7 +407,8 @@ class FiniteElementPatchGenerator:
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body rotation (around deformed configuration
                     # centroid)
-                    if centroid_def is not None and rotation is not None:
+                    if (centroid_def is not None
+                            and rbm_rotation is not None):
                         # Build centroid tile array (local)
                         centroid_def_tile = np.tile(centroid_def, (n_nodes, 1))
                         # Superimpose rigid body rotation around centroid
@@ -417,7 +418,7 @@ class FiniteElementPatchGenerator:
                                 coords_array - centroid_def_tile, rbm_rotation)
                     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                     # Rigid body translation
-                    if translation is not None:
+                    if rbm_translation is not None:
                         # Build translation tile array (local)
                         translation_tile = \
                             np.tile(rbm_translation, (n_nodes, 1))
-- 
2.43.0


From e9905c692b238e4def74fbf3a56c23b5c7409978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:08 +0000
Subject: [PATCH 46/92] fix: file found by regular expression depended on
 directory listing order

---
 src/hookeai/ioput/iostandard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/ioput/iostandard.py b/src/hookeai/ioput/iostandard.py
index 231e788..cc6811b 100644
--- a/src/hookeai/ioput/iostandard.py
+++ b/src/hookeai/ioput/iostandard.py
@@ -207,7 +207,7 @@ def find_unique_file_with_regex(directory, regex):
         raise RuntimeError('Invalid regular expression.')    
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get files in directory
-    directory_list = os.listdir(directory)
+    directory_list = sorted(os.listdir(directory))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Initialize file found flag
     is_file_found = False
-- 
2.43.0


From 7a109aeb45e7abfd882216fa4c5e434436f8d6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 47/92] fix: keep previous Links input data file until new one
 is complete

---
 src/hookeai/simulators/links/links.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/hookeai/simulators/links/links.py b/src/hookeai/simulators/links/links.py
index 57e6790..e921453 100644
--- a/src/hookeai/simulators/links/links.py
+++ b/src/hookeai/simulators/links/links.py
@@ -22,7 +22,8 @@ import itertools
 import numpy as np
 import matplotlib.pyplot as plt
 # Local
-from ioput.iostandard import make_directory, new_file_path_with_int
+from ioput.iostandard import make_directory, new_file_path_with_int, \
+    open_atomic
 from ioput.plots import plot_xy_data
 from simulators.links.discretization.finite_element import FiniteElement
 from simulators.links.models.links_elastic import LinksElastic
@@ -512,9 +513,6 @@ class LinksSimulator:
             If True, then save data file with Links input data file loading
             incrementation data.
         """
-        # Open Links input data file
-        links_file = open(links_file_path, 'w')
-        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Short name for input parameters
         ip = input_params
         # Get number of spatial dimensions
@@ -625,9 +623,8 @@ class LinksSimulator:
                  + ' '.join(['{:16.8e}'.format(val) for val in disp]) + '\n']         
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~       
         # Write Links input data file
-        links_file.writelines(write_lines)
-        # Close Links input data file
-        links_file.close()        
+        with open_atomic(links_file_path, 'w') as links_file:
+            links_file.writelines(write_lines)
     # -------------------------------------------------------------------------
     def _get_links_default_input_params(self):
         """Get Links default input data file parameters.
-- 
2.43.0


From ba97e7658bc37e48b34667ebb16f817c1c9c0c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 48/92] fix: free degrees of freedom could not be written to
 Links input data file

---
 src/hookeai/simulators/links/links.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/links.py b/src/hookeai/simulators/links/links.py
index e921453..de773fe 100644
--- a/src/hookeai/simulators/links/links.py
+++ b/src/hookeai/simulators/links/links.py
@@ -620,7 +620,8 @@ class LinksSimulator:
             write_lines += \
                 [' ' + '{:>3s}'.format(str(node)) + ' ' \
                  + ''.join(['{:^1d}'.format(i) for i in code]) \
-                 + ' '.join(['{:16.8e}'.format(val) for val in disp]) + '\n']         
+                 + ' '.join(['{:16.8e}'.format(val if val is not None else 0.0)
+                             for val in disp]) + '\n']
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~       
         # Write Links input data file
         with open_atomic(links_file_path, 'w') as links_file:
-- 
2.43.0


From 41b7f0200130d6330fff19133b20c407615f3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 49/92] fix: Links simulation was successful if an earlier one
 was

---
 src/hookeai/simulators/links/links.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/hookeai/simulators/links/links.py b/src/hookeai/simulators/links/links.py
index de773fe..94f9dba 100644
--- a/src/hookeai/simulators/links/links.py
+++ b/src/hookeai/simulators/links/links.py
@@ -259,6 +259,18 @@ class LinksSimulator:
                   '\n------------------------')
             print('\n> File: ' + links_file_path)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Get simulation output directory
+        links_output_directory = os.path.normpath(
+            os.path.splitext(links_file_path)[0])
+        # Get input data file name
+        filename = os.path.splitext(os.path.basename(links_file_path))[0]
+        # Get '.screen' file path
+        screen_file_path = os.path.join(links_output_directory, filename) \
+            + '.screen'
+        # Remove '.screen' file of previous simulation
+        if os.path.isfile(screen_file_path):
+            os.remove(screen_file_path)
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Run Links simulation
         subprocess.run([self._links_bin_path, links_file_path],
                        stdout=subprocess.PIPE, stderr=subprocess.PIPE)
@@ -266,19 +278,11 @@ class LinksSimulator:
         if is_verbose:
             print('\n> Searching for simulation output directory...')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Get simulation output directory
-        links_output_directory = os.path.normpath(
-            os.path.splitext(links_file_path)[0])
         # Check if simulation output directory exists
         if not os.path.exists(links_output_directory):
             raise RuntimeError('Links simulation output directory has not '
                                'been found.')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Get input data file name
-        filename = os.path.splitext(os.path.basename(links_file_path))[0]
-        # Get '.screen' file path
-        screen_file_path = os.path.join(links_output_directory, filename) \
-            + '.screen'
         # Check if simulation was successfully solved
         if not os.path.isfile(screen_file_path):
             raise RuntimeError('Links simulation \'.screen\' file has not '
-- 
2.43.0


From c1047ce5605a646791cef1ac3776b75d1533fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:21 +0000
Subject: [PATCH 50/92] fix: incomplete Links simulation results were read
 without error

---
 src/hookeai/simulators/links/links.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/simulators/links/links.py b/src/hookeai/simulators/links/links.py
index 94f9dba..c989151 100644
--- a/src/hookeai/simulators/links/links.py
+++ b/src/hookeai/simulators/links/links.py
@@ -374,7 +374,7 @@ class LinksSimulator:
             for filename in directory_list:
                 # Check if is node data file
                 is_node_data_file = \
-                    bool(re.search(r'^' + simulation_name + r'(.*)'
+                    bool(re.search(r'^' + re.escape(simulation_name) + r'(.*)'
                                    + r'\.nodedata$', filename))
                 if is_node_data_file:
                     # Get node data file time step
@@ -392,12 +392,16 @@ class LinksSimulator:
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of time steps
             n_time_steps = len(node_data_files_time_steps)
+            # Check node data files
+            if n_time_steps == 0:
+                raise RuntimeError('Links simulation node data files have not '
+                                   'been found.')
             # Loop over node data files
             for i, file in enumerate(node_data_files):
                 # Get node data file path
                 file_path = os.path.join(directory, file)
                 # Get nodes features data
-                data_array = np.genfromtxt(file_path)
+                data_array = np.atleast_2d(np.genfromtxt(file_path))
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Initialize node features data
                 if i == 0:
@@ -406,6 +410,11 @@ class LinksSimulator:
                     n_features = data_array.shape[1]
                     # Initialize node features data
                     node_data = np.zeros((n_nodes, n_features, n_time_steps))
+                # Check node features data
+                if data_array.shape != (n_nodes, n_features) \
+                        or np.isnan(data_array).any():
+                    raise RuntimeError('Links simulation node data file is '
+                                       'not complete:\n\n' + file_path)
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Assemble node features data
                 node_data[:, :, i] = data_array
@@ -432,7 +441,7 @@ class LinksSimulator:
             for filename in directory_list:
                 # Check if is global data file
                 is_global_data_file = \
-                    bool(re.search(r'^' + simulation_name + r'(.*)'
+                    bool(re.search(r'^' + re.escape(simulation_name) + r'(.*)'
                                    + r'\.globaldata$', filename))
                 if is_global_data_file:
                     # Get global data file time step
@@ -450,6 +459,10 @@ class LinksSimulator:
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Get number of time steps
             n_time_steps = len(global_data_files_time_steps)
+            # Check global data files
+            if n_time_steps == 0:
+                raise RuntimeError('Links simulation global data files have '
+                                   'not been found.')
             # Loop over global data files
             for i, file in enumerate(global_data_files):
                 # Get global data file path
@@ -463,6 +476,11 @@ class LinksSimulator:
                     n_features = len(data_array)
                     # Initialize global features data
                     global_data = np.zeros((1, n_features, n_time_steps))
+                # Check global features data
+                if data_array.shape != (n_features,) \
+                        or np.isnan(data_array).any():
+                    raise RuntimeError('Links simulation global data file is '
+                                       'not complete:\n\n' + file_path)
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Assemble global features data
                 global_data[:, :, i] = data_array
-- 
2.43.0


From 91ae1e1e15af2075ad80e1e4ca208ca2b38a292a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:38 +0000
Subject: [PATCH 51/92] fix: prescribed displacements were not separated in
 Links Dirichlet file

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 0d90783..4642334 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -239,7 +239,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         node_dbc_code = \
             ''.join(['{:>1d}'.format(int(x)) for x in dbc_array[i, 1:4]])
         node_dbc_disps = \
-            ''.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
+            ' '.join(['{:11.4e}'.format(x) for x in dbc_array[i, 4:7]])
         # Append node to file data
         write_lines += \
             [f'  {node_label} {node_dbc_code} {node_dbc_disps}' + '\n']
-- 
2.43.0


From 67b82005e0e6c8bc4f75f729b8a1e67a77e2bfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:38 +0000
Subject: [PATCH 52/92] fix: reaction node group ignored negative prescribed
 displacements

---
 .../simulators/links/utilities/links_specimen_dirichlet.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
index 4642334..ab29d44 100644
--- a/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
+++ b/src/hookeai/simulators/links/utilities/links_specimen_dirichlet.py
@@ -255,7 +255,7 @@ def write_links_dirichlet_bc_file(dbc_file_dir, dbc_array,
         # Loop over Dirichlet boundary conditions nodes
         for i in range(n_node_dbc):
             # Collect node label if non-null Dirichlet boundary condition
-            if np.any(dbc_array[i, 4:7] > small):
+            if np.any(np.abs(dbc_array[i, 4:7]) > small):
                 reaction_nodes.append(int(dbc_array[i, 0]))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append reaction node group to file data
-- 
2.43.0


From e40dfe877d1cd1e52e6c6240b1989df87867ae26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:50 +0000
Subject: [PATCH 53/92] fix: local paths data set could not be built from
 material patches

---
 .../synthetic_data/build_local_paths_dataset.py     | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
index 8952798..cc575a1 100644
--- a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
@@ -46,9 +46,8 @@ from user_scripts.global_model_update.material_finder. \
     gen_specimen_local_paths import gen_specimen_local_dataset
 from user_scripts.synthetic_data.gen_response_dataset import \
     generate_dataset_plots
-from simulators.links.utilities.links_dat_to_inp import links_dat_to_abaqus_inp
-from simulators.links.utilities.links_nodedata_to_csv import \
-    links_node_output_to_csv
+from simulators.links.utilities.links_data_to_adimu import \
+    gen_adimu_data_from_links
 from ioput.iostandard import make_directory
 #
 #                                                          Authorship & Credits
@@ -249,10 +248,10 @@ def gen_patch_formatted_data(patch_data_dir, patch_name):
     links_output_dir = \
         os.path.join(os.path.normpath(simulations_dir), f'{patch_name}')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Convert Links input data file to Abaqus input data file    
-    abaqus_inp_file_path = links_dat_to_abaqus_inp(links_input_file_path)
-    # Convert Links node output data files to '.csv' files
-    node_data_csv_dir = links_node_output_to_csv(links_output_dir)
+    # Convert Links input data file to Abaqus input data file and Links node
+    # output data files to '.csv' files
+    abaqus_inp_file_path, node_data_csv_dir = gen_adimu_data_from_links(
+        links_input_file_path, links_output_dir, simulations_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return abaqus_inp_file_path, node_data_csv_dir
 # =============================================================================
-- 
2.43.0


From d71c994531bdc4f4012a287064d4e3ba2fc76267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:10 +0000
Subject: [PATCH 54/92] fix: files of other simulations could be taken for
 those of a specimen

---
 .../simulators/links/utilities/links_data_to_adimu.py        | 5 +++--
 .../simulators/links/utilities/links_nodedata_to_csv.py      | 5 +++--
 .../simulators/links/utilities/links_plot_force_disp.py      | 5 +++--
 .../global_model_update/material_finder/gen_specimen_data.py | 4 ++--
 .../user_scripts/synthetic_data/build_local_paths_dataset.py | 3 ++-
 5 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
index 355de00..8034adc 100644
--- a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
+++ b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
@@ -423,8 +423,9 @@ def collect_node_data_files_from_links_data(links_output_dir):
     # Loop over files
     for filename in directory_list:
         # Check if is node data time step file
-        is_node_data_file = bool(re.search(r'^' + simulation_name + r'(.*)'
-                                           + r'\.nodedata$', filename))
+        is_node_data_file = bool(
+            re.search(r'^' + re.escape(simulation_name) + r'(.*)'
+                      + r'\.nodedata$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append node data time step file
         if is_node_data_file:
diff --git a/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py b/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py
index ae7e29c..2ff3bf1 100644
--- a/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py
+++ b/src/hookeai/simulators/links/utilities/links_nodedata_to_csv.py
@@ -54,8 +54,9 @@ def links_node_output_to_csv(links_output_dir):
     # Loop over files
     for filename in directory_list:
         # Check if is node data time step file
-        is_node_data_file = bool(re.search(r'^' + simulation_name + r'(.*)'
-                                           + r'\.nodedata$', filename))
+        is_node_data_file = bool(
+            re.search(r'^' + re.escape(simulation_name) + r'(.*)'
+                      + r'\.nodedata$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append node data time step file
         if is_node_data_file:
diff --git a/src/hookeai/simulators/links/utilities/links_plot_force_disp.py b/src/hookeai/simulators/links/utilities/links_plot_force_disp.py
index 42d6b5f..e415990 100644
--- a/src/hookeai/simulators/links/utilities/links_plot_force_disp.py
+++ b/src/hookeai/simulators/links/utilities/links_plot_force_disp.py
@@ -91,8 +91,9 @@ if __name__ == '__main__':
     # Loop over files
     for filename in directory_list:    
         # Check if is node data time step file
-        is_node_data_file = bool(re.search(r'^' + simulation_name + r'(.*)'
-                                           + r'\.nodedata$', filename))
+        is_node_data_file = bool(
+            re.search(r'^' + re.escape(simulation_name) + r'(.*)'
+                      + r'\.nodedata$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append node data time step file
         if is_node_data_file:
diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index 93d84c3..e18cb70 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -370,8 +370,8 @@ def get_specimen_history_paths(specimen_history_dir, specimen_name):
     for filename in directory_list:
         # Check if file is specimen history time step file
         is_time_step_file = bool(
-            re.search(r'^' + specimen_name + r'_tstep_[0-9]+' + r'\.csv',
-                      filename))
+            re.search(r'^' + re.escape(specimen_name) + r'_tstep_[0-9]+'
+                      + r'\.csv$', filename))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append specimen history time step file
         if is_time_step_file:
diff --git a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
index cc575a1..e4a10ca 100644
--- a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
@@ -196,7 +196,8 @@ def get_patch_analysis_dirs(patches_data_dir, patch_name):
     # Get material patches analysis data directories
     for dirname in directory_list:
         # Check if directory is material patch analysis data directory
-        id = re.search(r'^' + f'{patch_name}' + r'_([0-9]+)$', dirname)
+        id = re.search(r'^' + re.escape(f'{patch_name}') + r'_([0-9]+)$',
+                       dirname)
         # Store material patch analysis data directory
         if id is not None:
             patch_data_dirs.append(
-- 
2.43.0


From 20b7d0640ca79f3971d1009eecbe1621aea9669e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:20 +0000
Subject: [PATCH 55/92] fix: specimen history without any time step was
 generated without error

---
 .../simulators/links/utilities/links_data_to_adimu.py       | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
index 8034adc..445f2ea 100644
--- a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
+++ b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
@@ -432,6 +432,12 @@ def collect_node_data_files_from_links_data(links_output_dir):
             node_data_files_paths.append(
                 os.path.join(os.path.normpath(node_data_dir), filename))
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Check node data time step files
+    if len(node_data_files_paths) == 0:
+        raise RuntimeError(f'No node data time step files have been found in '
+                           f'the node data output directory:\n\n'
+                           f'{node_data_dir}')
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Sort node data time step files
     node_data_files_paths = tuple(
         sorted(node_data_files_paths,
-- 
2.43.0


From 7a7a4457223fca8ec176c78a24e9b9a28ecd68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:30 +0000
Subject: [PATCH 56/92] fix: specimen data could not be generated without
 saving both files

---
 .../global_model_update/material_finder/gen_specimen_data.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
index e18cb70..e8f5841 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py
@@ -134,6 +134,10 @@ def gen_specimen_dataset(specimen_name, specimen_raw_dir, specimen_inp_path,
         nodes_disps_mesh_hist, reaction_forces_mesh_hist,
         dirichlet_bc_mesh_hist, time_hist)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Initialize specimen data files paths
+    specimen_data_path = None
+    specimen_material_state_path = None
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Save specimen data
     if is_save_specimen_data:
         # Set specimen numerical data file path
-- 
2.43.0


From 0fc519376dab813ac259497799f99245e04f3785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:59 +0000
Subject: [PATCH 57/92] fix: local paths of material patches were refused for
 their Dirichlet constraints

---
 .../material_finder/gen_specimen_local_paths.py          | 9 ++++++---
 .../synthetic_data/build_local_paths_dataset.py          | 3 ++-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
index ed74588..b152e3b 100644
--- a/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
+++ b/src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_local_paths.py
@@ -40,7 +40,8 @@ __status__ = 'Stable'
 def gen_specimen_local_dataset(specimen_data_path,
                                specimen_material_state_path,
                                model_directory, is_plot_dataset=False,
-                               device_type='cpu', is_verbose=False):
+                               device_type='cpu', is_verbose=False,
+                               force_equilibrium_loss_type='dirichlet_sets'):
     """Generate specimen local strain-stress paths data set.
     
     Parameters
@@ -59,6 +60,10 @@ def gen_specimen_local_dataset(specimen_data_path,
         Type of device on which torch.Tensor is allocated.
     is_verbose : bool, default=False
         If True, enable verbose output.
+    force_equilibrium_loss_type : {'pointwise', 'dirichlet_sets'}, \
+                                  default='dirichlet_sets'
+        Type of force equilibrium loss. Must be consistent with the specimen
+        Dirichlet boundary constraints.
         
     Returns
     -------
@@ -78,8 +83,6 @@ def gen_specimen_local_dataset(specimen_data_path,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set material model finder name
     model_finder_name = 'material_model_finder'
-    # Set force equilibrium loss type
-    force_equilibrium_loss_type = 'dirichlet_sets'
     # Set force normalization
     is_force_normalization = False
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
diff --git a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
index e4a10ca..59cb087 100644
--- a/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
+++ b/src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py
@@ -460,7 +460,8 @@ def gen_patch_local_dataset(model_finder_dir, patch_data_path,
     # Generate material patch local strain-stress paths data set
     local_dataset, _ = gen_specimen_local_dataset(
         patch_data_path, patch_material_state_path, model_directory,
-        device_type=device_type, is_verbose=is_verbose)
+        device_type=device_type, is_verbose=is_verbose,
+        force_equilibrium_loss_type='pointwise')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return local_dataset
 # =============================================================================
-- 
2.43.0


From 9931a2f00395f433f4dc9a1d52093551cf4d5c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:33 +0000
Subject: [PATCH 58/92] fix: prediction data followed the order in which the
 directory is listed

---
 .../model_architectures/materials/process_predictions.py      | 4 ++--
 src/hookeai/utilities/output_prediction_metrics.py            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/process_predictions.py b/src/hookeai/model_architectures/materials/process_predictions.py
index ee9f022..a5e1d6e 100644
--- a/src/hookeai/model_architectures/materials/process_predictions.py
+++ b/src/hookeai/model_architectures/materials/process_predictions.py
@@ -95,7 +95,7 @@ def build_prediction_data_arrays(predictions_dir, prediction_type,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set all available samples
     if samples_ids == 'all':
-        samples_ids = prediction_files_ids
+        samples_ids = sorted(prediction_files_ids)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set number of prediction components
     if prediction_type == 'stress_comps':
@@ -334,7 +334,7 @@ def build_time_series_predictions_data(dataset_file_path, predictions_dir,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set all available samples
     if samples_ids == 'all':
-        samples_ids = prediction_files_ids
+        samples_ids = sorted(prediction_files_ids)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set number of prediction components
     if prediction_type == 'stress_comps':
diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index 2df140d..5898f2b 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -191,7 +191,7 @@ def get_samples_prediction_files(predictions_dir):
         Samples IDs.
     """
     # Get files in samples predictions results directory
-    directory_list = os.listdir(predictions_dir)
+    directory_list = sorted(os.listdir(predictions_dir))
     # Check directory
     if not directory_list:
         raise RuntimeError('No files have been found in directory where '
-- 
2.43.0


From b0ef9939093cc8b6552647fa9d50fb2ee5cb6c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:33 +0000
Subject: [PATCH 59/92] fix: a failed write of the mean prediction metrics went
 unreported

---
 src/hookeai/utilities/output_prediction_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index 5898f2b..c812fe1 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -323,7 +323,8 @@ def write_mean_metrics_results_file(save_dir, n_sample, mean_metrics_results,
     file_content += formatted_results
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Write file
-    open(file_path, open_mode).writelines(file_content)
+    with open(file_path, open_mode) as metrics_file:
+        metrics_file.writelines(file_content)
 # =============================================================================
 def read_mean_metrics_results_file(file_path, n_sample=None):
     """Read mean prediction metrics from file.
-- 
2.43.0


From c1fc9b1c064030edbef70cab2e7950fb16557eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:33 +0000
Subject: [PATCH 60/92] fix: mean prediction metrics with undefined values
 could not be read

---
 src/hookeai/utilities/output_prediction_metrics.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index c812fe1..2940d78 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -373,13 +373,10 @@ def read_mean_metrics_results_file(file_path, n_sample=None):
             # Finished processing data
             break
         elif is_keyword_found:
-            # Collect metric data (assumes values are formatted in scientific
-            # notation)
+            # Collect metric data (comma separated values, including nan and
+            # inf)
             prefix_pattern = r'^\s*>\s*(\w+):\s*'
-            number_list_pattern = (r'\[\s*'
-                                   r'((?:-?\d*\.?\d*(?:e[-+]?\d+)'
-                                   r'?(?:\s*,\s*-?\d*\.?\d*(?:e[-+]?\d+)?)*))'
-                                   r'\s*\]')
+            number_list_pattern = r'\[([^\[\]]*)\]'
             metric_data = \
                 re.search(prefix_pattern + number_list_pattern, line)
             # Extract metric name and values
-- 
2.43.0


From 0dc4a0989373415add2fa4d8ae830a0d023257e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:45 +0000
Subject: [PATCH 61/92] fix: metrics convergence failed on processes not
 labelled by size

---
 src/hookeai/utilities/output_prediction_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/utilities/output_prediction_metrics.py b/src/hookeai/utilities/output_prediction_metrics.py
index 2940d78..5c7ad58 100644
--- a/src/hookeai/utilities/output_prediction_metrics.py
+++ b/src/hookeai/utilities/output_prediction_metrics.py
@@ -477,7 +477,7 @@ def plot_prediction_metrics_convergence(
         # Check if process label is training data set size
         training_size = re.search(r'^n([0-9]+)$', process_label)
         # Store prediction process training data set size
-        if id is not None:
+        if training_size is not None:
             # Get training data set size
             training_size = int(training_size.groups()[0])
             # Store training data set size
-- 
2.43.0


From 26076c4d11e973967ea4acff130a008fe4f04b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:45 +0000
Subject: [PATCH 62/92] fix: foreign directories were taken for model
 realizations

---
 .../model_architectures/materials/process_predictions.py       | 2 +-
 .../model_architectures/procedures/convergence_plots.py        | 2 +-
 .../convergence_analyses/plot_noisy_convergence_analysis.py    | 2 +-
 .../hybrid_material_model/uncertainty_quantification.py        | 3 ++-
 .../rc_material_model/uncertainty_quantification.py            | 3 ++-
 .../rnn_material_model/uncertainty_quantification.py           | 3 ++-
 6 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/process_predictions.py b/src/hookeai/model_architectures/materials/process_predictions.py
index a5e1d6e..02eca47 100644
--- a/src/hookeai/model_architectures/materials/process_predictions.py
+++ b/src/hookeai/model_architectures/materials/process_predictions.py
@@ -271,7 +271,7 @@ def build_time_series_predictions_data(dataset_file_path, predictions_dir,
         for dirname in directory_list:
             # Check if model sample directory
             is_sample_model= \
-                bool(re.search(r'^' + 'model' + r'_[0-9]+', dirname))
+                bool(re.search(r'^' + 'model' + r'_[0-9]+$', dirname))
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Append model sample directory
             if is_sample_model:
diff --git a/src/hookeai/model_architectures/procedures/convergence_plots.py b/src/hookeai/model_architectures/procedures/convergence_plots.py
index 9b97d50..477394c 100644
--- a/src/hookeai/model_architectures/procedures/convergence_plots.py
+++ b/src/hookeai/model_architectures/procedures/convergence_plots.py
@@ -561,7 +561,7 @@ def plot_prediction_loss_convergence_uq(models_base_dirs, training_dirs,
         for dirname in directory_list:
             # Check if model sample directory
             is_sample_model= \
-                bool(re.search(r'^' + 'model' + r'_[0-9]+', dirname))
+                bool(re.search(r'^' + 'model' + r'_[0-9]+$', dirname))
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Append model sample directory
             if is_sample_model:
diff --git a/src/hookeai/user_scripts/convergence_analyses/plot_noisy_convergence_analysis.py b/src/hookeai/user_scripts/convergence_analyses/plot_noisy_convergence_analysis.py
index a14930d..6a57033 100644
--- a/src/hookeai/user_scripts/convergence_analyses/plot_noisy_convergence_analysis.py
+++ b/src/hookeai/user_scripts/convergence_analyses/plot_noisy_convergence_analysis.py
@@ -175,7 +175,7 @@ def plot_prediction_loss_convergence_uq(n_noise_case, noise_case_labels,
         for dirname in directory_list:
             # Check if model sample directory
             is_sample_model= \
-                bool(re.search(r'^' + 'model' + r'_[0-9]+', dirname))
+                bool(re.search(r'^' + 'model' + r'_[0-9]+$', dirname))
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Append model sample directory
             if is_sample_model:
diff --git a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py
index c792851..9c42068 100644
--- a/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py
+++ b/src/hookeai/user_scripts/local_model_update/hybrid_material_model/uncertainty_quantification.py
@@ -201,7 +201,8 @@ def gen_model_uq_plots(uq_directory, n_model_sample, testing_dataset_dir,
     # Loop over files and directories
     for dirname in directory_list:
         # Check if model sample directory
-        is_sample_model= bool(re.search(r'^' + 'model' + r'_[0-9]+', dirname))
+        is_sample_model = \
+            bool(re.search(r'^' + 'model' + r'_[0-9]+$', dirname))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append model sample directory
         if is_sample_model:
diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py
index 1571023..6e51c4d 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/uncertainty_quantification.py
@@ -206,7 +206,8 @@ def gen_model_uq_plots(uq_directory, n_model_sample, testing_dataset_dir,
     # Loop over files and directories
     for dirname in directory_list:
         # Check if model sample directory
-        is_sample_model= bool(re.search(r'^' + 'model' + r'_[0-9]+', dirname))
+        is_sample_model = \
+            bool(re.search(r'^' + 'model' + r'_[0-9]+$', dirname))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append model sample directory
         if is_sample_model:
diff --git a/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py b/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py
index 5714ed3..9fc0e25 100644
--- a/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py
+++ b/src/hookeai/user_scripts/local_model_update/rnn_material_model/uncertainty_quantification.py
@@ -202,7 +202,8 @@ def gen_model_uq_plots(uq_directory, n_model_sample, testing_dataset_dir,
     # Loop over files and directories
     for dirname in directory_list:
         # Check if model sample directory
-        is_sample_model= bool(re.search(r'^' + 'model' + r'_[0-9]+', dirname))
+        is_sample_model = \
+            bool(re.search(r'^' + 'model' + r'_[0-9]+$', dirname))
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Append model sample directory
         if is_sample_model:
-- 
2.43.0


From 4b28c6b928c89168dd14f6807974534caf9cac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:45 +0000
Subject: [PATCH 63/92] fix: all samples could only be compared for the first
 prediction type

---
 .../model_architectures/procedures/convergence_plots.py       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/procedures/convergence_plots.py b/src/hookeai/model_architectures/procedures/convergence_plots.py
index 477394c..13890e1 100644
--- a/src/hookeai/model_architectures/procedures/convergence_plots.py
+++ b/src/hookeai/model_architectures/procedures/convergence_plots.py
@@ -430,7 +430,7 @@ def plot_time_series_convergence(models_base_dirs, training_dirs, testing_dirs,
             elif plot_type == 'time_series_path':
                 # Set all available samples
                 if samples_ids == 'all':
-                    samples_ids = range(testing_size)
+                    samples_ids = list(range(testing_size))
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Loop over samples
                 for sample_id in samples_ids:
@@ -920,7 +920,7 @@ def plot_time_series_convergence_uq(models_base_dirs, training_dirs,
             elif plot_type == 'time_series_path':
                 # Set all available samples
                 if samples_ids == 'all':
-                    samples_ids = range(testing_size)
+                    samples_ids = list(range(testing_size))
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Loop over samples
                 for sample_id in samples_ids:
-- 
2.43.0


From f45df4ad960db45fe20b5ab5311d8da91cc82a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:04 +0000
Subject: [PATCH 64/92] fix: constitutive model prediction and realizations
 could not be imported

---
 .../local_model_update/rc_material_model/predict.py          | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
index 3b099b7..5b83ff4 100644
--- a/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
+++ b/src/hookeai/user_scripts/local_model_update/rc_material_model/predict.py
@@ -32,9 +32,8 @@ from time_series_data.time_dataset import load_dataset, \
 from model_architectures.rc_base_model.predict.prediction import predict
 from model_architectures.procedures.model_prediction import \
     plot_time_series_prediction, plot_truth_vs_prediction
-from projects.darpa_metals.rnn_material_model.rnn_model_tools. \
-    process_predictions import build_prediction_data_arrays, \
-        build_time_series_predictions_data
+from model_architectures.materials.process_predictions import \
+    build_prediction_data_arrays, build_time_series_predictions_data
 from ioput.iostandard import make_directory, find_unique_file_with_regex
 from utilities.output_prediction_metrics import \
     compute_directory_prediction_metrics
-- 
2.43.0


From 89180a13632b4ebf60893a08ad282f23fe3d8885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:43 +0000
Subject: [PATCH 65/92] fix: pruning step testing data set overwrote the
 validation data set

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 9fe8312..47b269f 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -844,7 +844,7 @@ def set_pruning_step_dir(prun_datasets_dir, train_dataset, val_dataset,
     make_directory(test_dataset_dir, is_overwrite=True)
     # Save pruning testing data set
     test_dataset_file_path = \
-        save_dataset(test_dataset, dataset_basename, val_dataset_dir,
+        save_dataset(test_dataset, dataset_basename, test_dataset_dir,
                      is_append_n_sample=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set pruning predictions directory
-- 
2.43.0


From 138f78d5ad698456c21484d1998cbd8a670656e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:43 +0000
Subject: [PATCH 66/92] fix: pruning went on below the minimum testing data set
 size

The size of the development data set was compared with the minimum size
of the pruning testing data set, and an empty testing data set made the
whole process fail instead of stopping it.
---
 .../miscellaneous/pruning/pruning_dataset.py  | 47 +++++++++++++++----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 47b269f..3ca8622 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -12,6 +12,8 @@ set_default_pruning_parameters
     Set default pruning parameters.
 get_n_prun_sample
     Get number of pruned samples.
+get_split_subsets_size
+    Get size of subsets resulting from data set split.
 perform_pruning_step
     Perform pruning step.
 set_pruning_step_dir
@@ -633,6 +635,32 @@ def get_n_prun_sample(prun_scheduler_type, prun_scheduler_params, dev_dataset):
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return n_prun_sample
 # =============================================================================
+def get_split_subsets_size(n_sample, split_sizes):
+    """Get size of subsets resulting from data set split.
+    
+    Parameters
+    ----------
+    n_sample : int
+        Data set size.
+    split_sizes : dict
+        Size (item, float) of each data subset name (key, str), where size is a
+        fraction contained between 0 and 1.
+    
+    Returns
+    -------
+    subsets_size : dict
+        Number of samples (item, int) of each data subset name (key, str).
+    """
+    # Compute subsets size
+    subsets_size = {name: int(np.floor(n_sample*size))
+                    for name, size in split_sizes.items()}
+    # Distribute remaining samples
+    names = list(subsets_size.keys())
+    for i in range(n_sample - sum(subsets_size.values())):
+        subsets_size[names[i % len(names)]] += 1
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    return subsets_size
+# =============================================================================
 def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
                          unused_dataset, device_type='cpu', is_verbose=False):
     """Perform pruning step.
@@ -696,12 +724,8 @@ def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get development data set size
     n_dev = len(dev_dataset)
-    # Randomly split development data set
-    dev_dataset_split = split_dataset(dev_dataset, pruning_step_sizes)
-    # Get pruning step data sets
-    train_dataset = dev_dataset_split['training']
-    val_dataset = dev_dataset_split['validation']
-    test_dataset = dev_dataset_split['testing']
+    # Get pruning testing data set size
+    n_prun_test = get_split_subsets_size(n_dev, pruning_step_sizes)['testing']
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Initialize pruning step status
     step_status = None
@@ -710,9 +734,9 @@ def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
         step_status = 'Minimum development data set size reached.'
     elif n_dev/n_full < ratio_dev_min:
         step_status = 'Minimum pruning testing data set size ratio reached.'
-    elif n_dev < n_prun_test_min:
+    elif n_prun_test < max(n_prun_test_min, 1):
         step_status = 'Minimum pruning testing data set size reached.'
-    elif n_prun_sample/len(test_dataset) > prun_test_ratio_max:
+    elif n_prun_sample/n_prun_test > prun_test_ratio_max:
         step_status = 'Maximum pruned samples testing ratio reached.'
     # Set pruning step admissibility
     if step_status is None:
@@ -722,6 +746,13 @@ def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Perform pruning step
     if is_valid_pruning_step:
+        # Randomly split development data set
+        dev_dataset_split = split_dataset(dev_dataset, pruning_step_sizes)
+        # Get pruning step data sets
+        train_dataset = dev_dataset_split['training']
+        val_dataset = dev_dataset_split['validation']
+        test_dataset = dev_dataset_split['testing']
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set pruning step directory
         pruning_step_dir, model_directory, train_dataset_file_path, \
             val_dataset_file_path, test_dataset_file_path, \
-- 
2.43.0


From 83918dea7e4a56d416e1108509f8b4c2b0133807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:43 +0000
Subject: [PATCH 67/92] fix: pruning did not stop at the minimum development
 size ratio

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 3ca8622..991ee5e 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -732,8 +732,8 @@ def perform_pruning_step(prun_datasets_dir, pruning_params, dev_dataset,
     # Check pruning step admissibility
     if n_dev <= n_dev_min:
         step_status = 'Minimum development data set size reached.'
-    elif n_dev/n_full < ratio_dev_min:
-        step_status = 'Minimum pruning testing data set size ratio reached.'
+    elif n_dev/n_full <= ratio_dev_min:
+        step_status = 'Minimum development data set size ratio reached.'
     elif n_prun_test < max(n_prun_test_min, 1):
         step_status = 'Minimum pruning testing data set size reached.'
     elif n_prun_sample/n_prun_test > prun_test_ratio_max:
-- 
2.43.0


From 10f76db8a4f8e77a13a5555a868b1bcce8743e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:43 +0000
Subject: [PATCH 68/92] fix: pruning preview did not match the pruning data
 sets sizes

---
 .../miscellaneous/pruning/pruning_dataset.py  | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 991ee5e..93eaf66 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -1483,14 +1483,11 @@ def preview_pruning_iterations(pruning_dir, pruning_params=None):
             n_prun_sample = get_n_prun_sample(
                 prun_scheduler_type, prun_scheduler_params, dev_dataset)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-            # Compute pruning training data set size
-            n_prun_train = \
-                int(np.floor(pruning_step_sizes['training']*n_dev))
-            # Compute pruning validation data set size
-            n_prun_valid = \
-                int(np.floor(pruning_step_sizes['validation']*n_dev))
-            # Compute pruning testing data set size
-            n_prun_test = n_dev - (n_prun_train + n_prun_valid)
+            # Compute pruning step data sets sizes
+            prun_sizes = get_split_subsets_size(n_dev, pruning_step_sizes)
+            n_prun_train = prun_sizes['training']
+            n_prun_valid = prun_sizes['validation']
+            n_prun_test = prun_sizes['testing']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Display pruning step
             if iter > 0:
@@ -1506,7 +1503,7 @@ def preview_pruning_iterations(pruning_dir, pruning_params=None):
             elif n_dev/n_full <= ratio_dev_min:
                 step_status = \
                     'Minimum development data set size ratio reached.'
-            elif n_prun_test < n_prun_test_min:
+            elif n_prun_test < max(n_prun_test_min, 1):
                 step_status = 'Minimum pruning testing data set size reached.'
             elif n_prun_sample/n_prun_test > prun_test_ratio_max:
                 step_status = 'Maximum pruned samples testing ratio reached.'
@@ -1531,11 +1528,13 @@ def preview_pruning_iterations(pruning_dir, pruning_params=None):
             n_unused += n_prun_sample
             ratio_unused_pc = (n_unused/n_full)*100
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Compute pruning iteration data sets sizes
+        iter_sizes = get_split_subsets_size(n_dev, pruning_iter_sizes)
         # Compute training data set size
-        n_train = int(np.floor(pruning_iter_sizes['training']*n_dev))
+        n_train = iter_sizes['training']
         ratio_train_pc = (n_train/n_full)*100
         # Compute validation data set size
-        n_valid = n_dev - n_train
+        n_valid = iter_sizes['validation']
         ratio_valid_pc = (n_valid/n_full)*100
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Display pruning iteration
-- 
2.43.0


From c25c243af83148515d7905411c0dda7d7c1382f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:43 +0000
Subject: [PATCH 69/92] fix: pruning summary file was never closed

---
 src/hookeai/miscellaneous/pruning/pruning_dataset.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/miscellaneous/pruning/pruning_dataset.py b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
index 93eaf66..d4137f7 100644
--- a/src/hookeai/miscellaneous/pruning/pruning_dataset.py
+++ b/src/hookeai/miscellaneous/pruning/pruning_dataset.py
@@ -953,7 +953,8 @@ def write_summary_file(pruning_dir, pruning_params, mode='init', mode_data={}):
                     f'{"in_dist":>13s} {"out_dist":>13s} {"unused":>13s}\n']
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Write summary file
-        open(summary_file_path, 'w').writelines(summary)
+        with open(summary_file_path, 'w') as summary_file:
+            summary_file.writelines(summary)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif mode == 'iter':
         # Get full data set size
@@ -991,7 +992,8 @@ def write_summary_file(pruning_dir, pruning_params, mode='init', mode_data={}):
                     '\n']
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Write summary file
-        open(summary_file_path, 'a').writelines(summary)
+        with open(summary_file_path, 'a') as summary_file:
+            summary_file.writelines(summary)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     elif mode == 'end':
         # Get termination status
@@ -1000,7 +1002,8 @@ def write_summary_file(pruning_dir, pruning_params, mode='init', mode_data={}):
         summary += [f'\n> Termination status: {termination_status}\n\n',]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Write summary file
-        open(summary_file_path, 'a').writelines(summary)
+        with open(summary_file_path, 'a') as summary_file:
+            summary_file.writelines(summary)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     else:
         raise RuntimeError('Unknown summary mode.')
-- 
2.43.0


From 110916770996f3c975dbdb81d3245f8bb75b1787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:41 +0000
Subject: [PATCH 70/92] fix: material data could only be generated by the
 script itself

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 1f74d83..b0930bc 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -679,7 +679,7 @@ def set_dependencies_dir(target_dir, temperature, composition):
         Directory for given values of dependency parameters.
     """
     # Check target directory
-    if not os.path.isdir(base_dir):
+    if not os.path.isdir(target_dir):
         raise RuntimeError('The target directory has not been found:\n\n'
                            + target_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From 8eb22b11f48dc56ea1eb263ea0450f13e02add47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:41 +0000
Subject: [PATCH 71/92] fix: default ratio of random strain paths was rejected
 and stored

---
 .../user_scripts/complete_pipelines/local_model_update.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index b0930bc..918a63b 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -148,6 +148,7 @@ def generate_material_data(lmu_dir, strain_formulation, problem_type,
                                   strain_path_type='proportional')
     # Set default ratio of random strain path samples for each data set type
     # (remaining samples will be proportional strain path samples)
+    rnd_strain_path_ratio = dict(rnd_strain_path_ratio)
     for dataset_type in n_sample_type.keys():
         # All samples are random strain path samples by default
         if dataset_type not in rnd_strain_path_ratio.keys():
@@ -156,13 +157,13 @@ def generate_material_data(lmu_dir, strain_formulation, problem_type,
         n_rnd_sample = int(n_sample_type[dataset_type]
                            *rnd_strain_path_ratio[dataset_type])
         n_prp_sample = n_sample_type[dataset_type] - n_rnd_sample
-        if n_rnd_sample < 1:
+        if n_rnd_sample < 1 and rnd_strain_path_ratio[dataset_type] > 0.0:
             raise RuntimeError(f'Number of random strain path samples for '
                                f'data set type "{dataset_type}" is less than '
                                f'1. Please increase the total number of '
                                f'samples or the ratio of random strain path '
                                f'samples.')
-        if n_prp_sample < 1:
+        if n_prp_sample < 1 and rnd_strain_path_ratio[dataset_type] < 1.0:
             raise RuntimeError(f'Number of proportional strain path samples '
                                f'for data set type "{dataset_type}" is less '
                                f'than 1. Please increase the total number of '
-- 
2.43.0


From 0a646f51126439f92aba058d5dd7c5653b52b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:41 +0000
Subject: [PATCH 72/92] fix: material data of close temperatures and
 compositions was lost

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 918a63b..90e9fed 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -690,7 +690,7 @@ def set_dependencies_dir(target_dir, temperature, composition):
     # Set dependencies directory
     dependencies_dir = os.path.join(os.path.normpath(target_dir), dirname)
     # Create dependencies directory
-    dependencies_dir = make_directory(dependencies_dir, is_overwrite=True)
+    dependencies_dir = make_directory(dependencies_dir)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     return dependencies_dir
 # =============================================================================
-- 
2.43.0


From 955757548c9b2673567d39b626e34c500baeb881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:41 +0000
Subject: [PATCH 73/92] fix: foreign files and directories were taken for data
 sets

---
 .../user_scripts/complete_pipelines/local_model_update.py  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 90e9fed..2e2965a 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -369,7 +369,8 @@ def assemble_material_datasets(lmu_dir, strain_formulation, problem_type,
               f'\n\nLocal model updating directory: {lmu_dir}')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set data set file regex
-    dataset_file_regex = re.compile(dataset_basename + r'_n\d+\.pkl')
+    dataset_file_regex = \
+        re.compile(re.escape(dataset_basename) + r'_n\d+\.pkl$')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Loop over data set types
     for dataset_type in dataset_types:
@@ -377,7 +378,7 @@ def assemble_material_datasets(lmu_dir, strain_formulation, problem_type,
             print(f'\n\nData set type: {dataset_type}\n')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Set data set type directory regex
-        dataset_type_regex = re.compile(fr'{dataset_type}_dataset')
+        dataset_type_regex = re.compile(fr'{dataset_type}_dataset$')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize data set type file paths
         dataset_file_paths = []
@@ -1072,7 +1073,7 @@ def find_dataset_file(target_dir):
     dataset_basename = get_dataset_basename()
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set data set file regex
-    dataset_file_regex = dataset_basename + r'_n\d+\.pkl'
+    dataset_file_regex = r'^' + dataset_basename + r'_n\d+\.pkl$'
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Search data set file in target directory
     is_file_found, dataset_file_path = \
-- 
2.43.0


From 27844fd912963d13db0ee216c9dd7fee037a8f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:41 +0000
Subject: [PATCH 74/92] fix: data set of unknown type replaced another data set

---
 .../user_scripts/complete_pipelines/local_model_update.py       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
index 2e2965a..0fce52c 100644
--- a/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
+++ b/src/hookeai/user_scripts/complete_pipelines/local_model_update.py
@@ -460,6 +460,8 @@ def assemble_material_datasets(lmu_dir, strain_formulation, problem_type,
             dataset_dirname = '2_validation_dataset'
         elif dataset_type == 'testing_id':
             dataset_dirname = '5_testing_id_dataset'
+        else:
+            raise RuntimeError(f'Unknown data set type: {dataset_type}')
         # Set data set directory
         dataset_dir = set_dataset_type_dir(
             lmu_dir, dataset_type, dir_basename=dataset_dirname)
-- 
2.43.0


From dfc97f32aa2dca7f6deec444efdaa28927cc1188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 75/92] fix: displacement noise tools rejected specimen history
 files with boundary constraints

---
 .../miscellaneous/noisy_data/denoise_disp_noise_csv.py    | 8 ++++----
 .../miscellaneous/noisy_data/inject_disp_noise_csv.py     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py b/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py
index 7616a5f..14c9583 100644
--- a/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py
+++ b/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py
@@ -104,11 +104,11 @@ def denoise_displacements_noise(csv_data_dir, denoise_parameters={},
         df = pandas.read_csv(data_file_path)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check data
-        if df.shape[1] != 10:
-            raise RuntimeError(f'Expecting data frame to have 10 columns, but '
-                               f'{df.shape[1]} were found. \n\n'
+        if df.shape[1] not in (10, 13):
+            raise RuntimeError(f'Expecting data frame to have 10 or 13 '
+                               f'columns, but {df.shape[1]} were found. \n\n'
                                f'Expected columns: NODE | X1 X2 X3 | '
-                               f'U1 U2 U3 | RF1 RF2 RF3')
+                               f'U1 U2 U3 | RF1 RF2 RF3 (| DBC1 DBC2 DBC3)')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get node displacements
         nodes_disps_mesh = np.array(df.values)[:, 4:7]
diff --git a/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py b/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py
index 1545bca..39f4ede 100644
--- a/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py
+++ b/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py
@@ -107,11 +107,11 @@ def inject_displacements_noise(csv_data_dir, noise_parameters):
         df = pandas.read_csv(data_file_path)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Check data
-        if df.shape[1] != 10:
-            raise RuntimeError(f'Expecting data frame to have 10 columns, but '
-                               f'{df.shape[1]} were found. \n\n'
+        if df.shape[1] not in (10, 13):
+            raise RuntimeError(f'Expecting data frame to have 10 or 13 '
+                               f'columns, but {df.shape[1]} were found. \n\n'
                                f'Expected columns: NODE | X1 X2 X3 | '
-                               f'U1 U2 U3 | RF1 RF2 RF3')
+                               f'U1 U2 U3 | RF1 RF2 RF3 (| DBC1 DBC2 DBC3)')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Get node displacements
         nodes_disps_mesh = np.array(df.values)[:, 4:7]
-- 
2.43.0


From 1cdc5547c49afac871712b4165270adc665ebe2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 76/92] fix: displacement noise tools emptied the output
 directory without any time step file

---
 .../noisy_data/denoise_disp_noise_csv.py              | 11 ++++++++---
 .../miscellaneous/noisy_data/inject_disp_noise_csv.py | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py b/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py
index 14c9583..a26f868 100644
--- a/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py
+++ b/src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py
@@ -53,7 +53,7 @@ def denoise_displacements_noise(csv_data_dir, denoise_parameters={},
     # Check if data files directory exists
     if not os.path.exists(csv_data_dir):
         raise RuntimeError('Data files directory has not been found:'
-                           '\n\n{csv_data_dir}')
+                           f'\n\n{csv_data_dir}')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Initialize denoiser
     denoiser = Denoiser()
@@ -67,8 +67,6 @@ def denoise_displacements_noise(csv_data_dir, denoise_parameters={},
     # Set denoised data files directory
     csv_denoised_data_dir = os.path.join(os.path.normpath(csv_data_dir),
                                          f'{denoise_dirname}')
-    # Create denoised data files directory
-    make_directory(csv_denoised_data_dir, is_overwrite=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get directory data files
     directory_list = os.listdir(csv_data_dir)
@@ -92,6 +90,13 @@ def denoise_displacements_noise(csv_data_dir, denoise_parameters={},
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get time history length
     n_time = len(data_file_paths)
+    # Check data time step files
+    if n_time == 0:
+        raise RuntimeError(f'No time step data files have been found in data '
+                           f'files directory:\n\n{csv_data_dir}')
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Create denoised data files directory
+    make_directory(csv_denoised_data_dir, is_overwrite=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Initialize nodes displacements history data
     nodes_disps_mesh_time_steps = []
diff --git a/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py b/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py
index 39f4ede..7867303 100644
--- a/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py
+++ b/src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py
@@ -47,7 +47,7 @@ def inject_displacements_noise(csv_data_dir, noise_parameters):
     # Check if data files directory exists
     if not os.path.exists(csv_data_dir):
         raise RuntimeError('Data files directory has not been found:'
-                           '\n\n{csv_data_dir}')
+                           f'\n\n{csv_data_dir}')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Initialize noise generator
     noise_generator = NoiseGenerator()
@@ -62,8 +62,6 @@ def inject_displacements_noise(csv_data_dir, noise_parameters):
     # Set noisy data files directory
     csv_noisy_data_dir = os.path.join(os.path.normpath(csv_data_dir),
                                       f'{noise_dirname}')
-    # Create noisy data files directory
-    make_directory(csv_noisy_data_dir, is_overwrite=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get directory data files
     directory_list = os.listdir(csv_data_dir)
@@ -87,6 +85,13 @@ def inject_displacements_noise(csv_data_dir, noise_parameters):
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get time history length
     n_time = len(data_file_paths)
+    # Check data time step files
+    if n_time == 0:
+        raise RuntimeError(f'No time step data files have been found in data '
+                           f'files directory:\n\n{csv_data_dir}')
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Create noisy data files directory
+    make_directory(csv_noisy_data_dir, is_overwrite=True)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Get initial time step file
     data_file_path = data_file_paths[0]
-- 
2.43.0


From a105f0e0a9e2f053dc271a2fdad12378ea42daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 77/92] fix: boundary constraints labels were copied between
 different meshes

---
 .../utilities/process_specimen_data.py           | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/utilities/process_specimen_data.py b/src/hookeai/user_scripts/global_model_update/utilities/process_specimen_data.py
index e5c59cb..22a2571 100644
--- a/src/hookeai/user_scripts/global_model_update/utilities/process_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/utilities/process_specimen_data.py
@@ -418,6 +418,8 @@ def copy_dbc_labels(specimen_name, src_specimen_history_dir,
     else:
         n_time = len(src_specimen_history_paths)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Initialize modified target specimen history data
+    df_target_hist = []
     # Loop over time steps
     for i in range(n_time):
         # Load source specimen history data file
@@ -432,12 +434,22 @@ def copy_dbc_labels(specimen_name, src_specimen_history_dir,
                                'have Dirichlet boundary constraints labels '
                                '(\'DBC1\', \'DBC2\', \'DBC3\').')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Check if source and target specimen history data files are consistent
+        if not df_src.iloc[:, 0].equals(df_target.iloc[:, 0]):
+            raise RuntimeError('Source and target specimen history data files '
+                               'must have the same mesh nodes.')
+        # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Copy Dirichlet boundary constraints labels from source to target
         df_target[['DBC1', 'DBC2', 'DBC3']] = df_src[['DBC1', 'DBC2', 'DBC3']]
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+        # Collect modified target specimen history data
+        df_target_hist.append(df_target)
+    # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
+    # Loop over time steps
+    for df_target, target_path in zip(df_target_hist,
+                                      target_specimen_history_paths):
         # Save modified target specimen history data file
-        df_target.to_csv(target_specimen_history_paths[i], encoding='utf-8',
-                         index=False)   
+        df_target.to_csv(target_path, encoding='utf-8', index=False)
 # =============================================================================
 if __name__ == '__main__':
     # Set computation process
-- 
2.43.0


From 0b991f3770132318a2b637b35d599fe2ea06be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 78/92] fix: failed copy of boundary constraints labels
 destroyed the target data file

---
 .../global_model_update/utilities/process_specimen_data.py  | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/user_scripts/global_model_update/utilities/process_specimen_data.py b/src/hookeai/user_scripts/global_model_update/utilities/process_specimen_data.py
index 22a2571..d9fe679 100644
--- a/src/hookeai/user_scripts/global_model_update/utilities/process_specimen_data.py
+++ b/src/hookeai/user_scripts/global_model_update/utilities/process_specimen_data.py
@@ -448,8 +448,10 @@ def copy_dbc_labels(specimen_name, src_specimen_history_dir,
     # Loop over time steps
     for df_target, target_path in zip(df_target_hist,
                                       target_specimen_history_paths):
-        # Save modified target specimen history data file
-        df_target.to_csv(target_path, encoding='utf-8', index=False)
+        # Save modified target specimen history data file (existing data file
+        # is only replaced once the new one is complete)
+        df_target.to_csv(f'{target_path}.tmp', encoding='utf-8', index=False)
+        os.replace(f'{target_path}.tmp', target_path)
 # =============================================================================
 if __name__ == '__main__':
     # Set computation process
-- 
2.43.0


From 2ed57d6cac0a057d464e82ef68aee26daf30233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:58 +0000
Subject: [PATCH 79/92] fix: hydrostatic and deviatoric stress features missed
 the factor one third

---
 src/hookeai/model_architectures/materials/stress_features.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/materials/stress_features.py b/src/hookeai/model_architectures/materials/stress_features.py
index 88fc97b..cc0eccf 100644
--- a/src/hookeai/model_architectures/materials/stress_features.py
+++ b/src/hookeai/model_architectures/materials/stress_features.py
@@ -153,7 +153,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'be computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        stress_feature = torch.trace(stress)
+        stress_feature = (1.0/3.0)*torch.trace(stress)
     elif stress_feature_label == 'dev_stress':
         # Check number of spatial dimensions
         if n_dim != 3:
@@ -161,7 +161,7 @@ def compute_stress_feature(stress_comps_array, stress_feature_label, n_dim,
                                'computed from three-dimensional stress '
                                'tensor.')
         # Compute volumetric (or hydrostatic) stress
-        vol_stress = torch.trace(stress)
+        vol_stress = (1.0/3.0)*torch.trace(stress)
         # Compute deviatoric stress
         dev_stress = stress - vol_stress*torch.eye(n_dim)
         # Store deviatoric stress components
-- 
2.43.0


From 8e9506f31a3965218edfd7008200c409cfcc2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:30 +0000
Subject: [PATCH 80/92] fix: specimen corner with a single admissible position
 was moved off it by straight edges

---
 src/hookeai/data_generation/spdg/patch_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index 2875e00..db12f02 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -948,7 +948,7 @@ class FiniteElementPatchGenerator:
                             # Check displacement range intersection
                             min_max = np.min((range_l[1], range_r[1]))
                             max_min = np.max((range_l[0], range_r[0]))
-                            if min_max > max_min:
+                            if min_max >= max_min:
                                 # If non-null intersection range, then sample
                                 # random displacement along dimension on that
                                 # range: uniform distribution
-- 
2.43.0


From 845363e31134358b95ae970f49890887738967a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:30 +0000
Subject: [PATCH 81/92] fix: face node displacements were interpolated with
 weights that never reach the far edge

---
 src/hookeai/data_generation/spdg/patch_generator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hookeai/data_generation/spdg/patch_generator.py b/src/hookeai/data_generation/spdg/patch_generator.py
index db12f02..5935204 100644
--- a/src/hookeai/data_generation/spdg/patch_generator.py
+++ b/src/hookeai/data_generation/spdg/patch_generator.py
@@ -1971,15 +1971,17 @@ class FiniteElementPatchGenerator:
                             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                             # Interpolate displacement along first dimension
                             disp_1 = (
-                                (1.0 - i/n_node_1)*mesh_boundary_nodes_disps[
+                                (1.0 - i/(n_node_1 - 1))
+                                *mesh_boundary_nodes_disps[
                                     str(face_nodes[0, j])]
-                                + (i/n_node_1)*mesh_boundary_nodes_disps[
+                                + (i/(n_node_1 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[-1, j])])
                             # Interpolate displacement along second dimension
                             disp_2 = (
-                                (1.0 - j/n_node_2)*mesh_boundary_nodes_disps[
+                                (1.0 - j/(n_node_2 - 1))
+                                *mesh_boundary_nodes_disps[
                                     str(face_nodes[i, 0])]
-                                + (j/n_node_2)*mesh_boundary_nodes_disps[
+                                + (j/(n_node_2 - 1))*mesh_boundary_nodes_disps[
                                     str(face_nodes[i, -1])])
                             # Compute node displacement
                             disp = np.mean((disp_1, disp_2), axis=0)
-- 
2.43.0


From 75b1122b99b1e7e827d127793e04b9f5ef8f6587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:30 +0000
Subject: [PATCH 82/92] fix: failed save of a loaded specimen destroyed the
 stored specimen

---
 .../user_scripts/synthetic_data/gen_random_specimen.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/user_scripts/synthetic_data/gen_random_specimen.py b/src/hookeai/user_scripts/synthetic_data/gen_random_specimen.py
index 08f8bd9..de59977 100644
--- a/src/hookeai/user_scripts/synthetic_data/gen_random_specimen.py
+++ b/src/hookeai/user_scripts/synthetic_data/gen_random_specimen.py
@@ -46,7 +46,7 @@ from simulators.links.utilities.links_plot_tfact import plot_links_tfact_hist
 from simulators.links.utilities.links_dat_to_inp import links_dat_to_abaqus_inp
 from simulators.links.utilities.links_nodedata_to_csv import \
     links_node_output_to_csv
-from ioput.iostandard import make_directory
+from ioput.iostandard import make_directory, open_atomic
 #
 #                                                          Authorship & Credits
 # =============================================================================
@@ -175,7 +175,7 @@ def generate_random_patches(base_dir, patch_name='material_patch', n_patch=1,
             patch_file_path = \
                 os.path.join(patch_data_dir, 'material_patch.pkl')
             # Save material patch data file
-            with open(patch_file_path, 'wb') as patch_file:
+            with open_atomic(patch_file_path, 'wb') as patch_file:
                 pickle.dump(patch, patch_file)
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set material patch attributes file path
@@ -184,7 +184,7 @@ def generate_random_patches(base_dir, patch_name='material_patch', n_patch=1,
             # Get material patch attributes
             patch_attributes = patch.get_patch_attributes()
             # Save material patch attributes file
-            with open(patch_file_path, 'wb') as patch_file:
+            with open_atomic(patch_file_path, 'wb') as patch_file:
                 pickle.dump(patch_attributes, patch_file)       
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Save plot of deformed material patch
-- 
2.43.0


From 0e468baa31f76ff2c26d6653062070f79e6e8f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:05 +0000
Subject: [PATCH 83/92] fix: Lou-Zhang-Yoon return mapping accepted a solution
 with negative plastic multiplier

---
 src/hookeai/simulators/fetorch/material/models/standard/lou.py | 1 +
 src/hookeai/simulators/fetorch/material/models/vmap/lou.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hookeai/simulators/fetorch/material/models/standard/lou.py b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
index cab8cd4..06b2b80 100644
--- a/src/hookeai/simulators/fetorch/material/models/standard/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/standard/lou.py
@@ -683,6 +683,7 @@ class LouZhangYoon(ConstitutiveModel):
                     # Check Newton-Raphson iterative procedure convergence
                     is_converged = (conv_norm_residual < su_conv_tol
                                     and conv_diter_norm < su_conv_tol
+                                    and inc_p_mult > -su_conv_tol
                                     and nr_iter > 0)
                     # Control Newton-Raphson iteration loop flow
                     if is_converged:
diff --git a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
index 0b6421d..fddba35 100644
--- a/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
+++ b/src/hookeai/simulators/fetorch/material/models/vmap/lou.py
@@ -1103,6 +1103,7 @@ class LouZhangYoonVMAP(ConstitutiveModel):
             conv_cond = torch.all(
                 torch.stack((conv_norm_residual < su_conv_tol,
                              conv_diter_norm < su_conv_tol,
+                             inc_p_mult > -su_conv_tol,
                              torch.tensor(nr_iter > 0, dtype=torch.bool,
                                           device=device))))
             # Check Newton-Raphson iterative procedure convergence
-- 
2.43.0


From 778838163c7d69b83f01aa20242390324fe35f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:05 +0000
Subject: [PATCH 84/92] fix: normalized values of non-normalized learnable
 parameters could not be requested

---
 .../rc_base_model/model/recurrent_model.py                   | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index 48b1db6..ba94354 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -537,10 +537,9 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                 self._model_parameters_bounds[param] = param_dict['bounds']
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
             # Set normalization bounds
+            self._model_parameters_norm_bounds[param] = (-1.0, 1.0)
+            # Normalize initial value
             if self.is_normalized_parameters:
-                # Set lower and upper bounds
-                self._model_parameters_norm_bounds[param] = (-1.0, 1.0)
-                # Normalize initial value
                 init_val = self.transform_parameter(param, init_val,
                                                     mode='normalize')
             # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-- 
2.43.0


From a7b9a435431f47f924030b6b61877c4e23bbecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:05 +0000
Subject: [PATCH 85/92] fix: vectorized constitutive models could not output
 strain state features

---
 .../model_architectures/rc_base_model/model/recurrent_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
index ba94354..301886f 100644
--- a/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
+++ b/src/hookeai/model_architectures/rc_base_model/model/recurrent_model.py
@@ -1538,7 +1538,8 @@ class RecurrentConstitutiveModel(torch.nn.Module):
                             raise RuntimeError('Not implemented.')
                         # Get strain components
                         state_comps = self.vstore_tensor_comps(
-                            strain_comps_order, strain, device=self._device)
+                            strain_comps_order, strain,
+                            device=self._device).reshape(1, n_features)
                     else:
                         # Get generic state variable components
                         state_comps = \
-- 
2.43.0


From 0468c44e7813455e3b86f2926f68936cfbcdff88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:52 +0000
Subject: [PATCH 86/92] fix: elastic layers of hybrid models ignored the
 elastic symmetry

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 .../hybrid_base_model/model/transfer_learning.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 8dca2c3..462a258 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -127,7 +127,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
index 4665e59..681db1f 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/transfer_learning.py
@@ -478,7 +478,7 @@ class BatchedElasticModel(torch.nn.Module):
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Compute 3D elasticity tensor
         self._elastic_tangent_mf = Elastic.elastic_tangent_modulus(
-            elastic_properties, elastic_symmetry='isotropic',
+            elastic_properties, elastic_symmetry=elastic_symmetry,
             device=self._device)
         # Extract 2D elasticity tensor
         if self._n_dim == 2:
-- 
2.43.0


From 5c69ea5547942b09fd629593b409c20c4e9cfc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:52 +0000
Subject: [PATCH 87/92] fix: volumetric-deviatoric composition changed its
 input

---
 .../hybrid_base_model/model/hybridized_layers.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
index 462a258..d8d7771 100644
--- a/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
+++ b/src/hookeai/model_architectures/hybrid_base_model/model/hybridized_layers.py
@@ -390,7 +390,7 @@ class VolDevCompositionModel(torch.nn.Module):
         features_in = features_in.view(-1, n_features_in)
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
         # Initialize output features (input deviatoric components)
-        features_out = features_in[:, 1:]
+        features_out = features_in[:, 1:].clone()
         # Get volumetric component
         vol_comp = features_in[:, 0]
         # Loop over components
-- 
2.43.0


From 6387bd8f318fb57d9b1068cb57d08505954908c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:45 +0000
Subject: [PATCH 88/92] fix: optimization job without early stopping failed
 (unbound early stopping parameters)

---
 .../rnn_base_model/optimization/hydra_optimization.py            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
index 3406298..95b7da1 100644
--- a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
+++ b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
@@ -138,6 +138,7 @@ def hydra_wrapper(process, dataset_paths, device_type='cpu'):
             # Set early stopping
             is_early_stopping = cfg.is_early_stopping
             # Set early stopping parameters
+            early_stopping_kwargs = {}
             if is_early_stopping:
                 # Get validation data set file path
                 val_dataset_file_path = dataset_paths['validation']
-- 
2.43.0


From c49ef6ce76c309545520807bd478b7e587774d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:45 +0000
Subject: [PATCH 89/92] fix: optimization history plot showed the last process'
 metrics for every process

---
 .../optimization/hydra_optimization_plots.py  | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
index f4f6899..8edefa6 100644
--- a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
+++ b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization_plots.py
@@ -201,9 +201,9 @@ def plot_optimization_history(optim_history, optim_metric, is_log_metric=False,
         # Assemble optimization process history to data array
         data_xy[:n_jobs, 2*i] = tuple([*range(0, n_jobs)])
         if is_log_metric:
-            data_xy[:n_jobs, 2*i + 1] = tuple(np.log(metric_hist))
+            data_xy[:n_jobs, 2*i + 1] = tuple(np.log(data_hist))
         else:
-            data_xy[:n_jobs, 2*i + 1] = tuple(metric_hist)
+            data_xy[:n_jobs, 2*i + 1] = tuple(data_hist)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Set axes limits and scale
     x_lims = (0, max_n_jobs)
@@ -227,16 +227,17 @@ def plot_optimization_history(optim_history, optim_metric, is_log_metric=False,
                                    y_scale=y_scale, x_tick_format='int',
                                    is_latex=is_latex)
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-    # Build best-so-far history
-    data_min_xy = np.copy(data_xy)
-    data_min = data_xy[0, 1]
-    for i in range(data_min_xy.shape[0]):
-        if data_xy[i, 1] < data_min:
-            data_min = data_xy[i, 1]
-        data_min_xy[i, 1] = data_min
-    # Plot best-so-far history
-    axes.plot(data_min_xy[:, 0], data_min_xy[:, 1], color='#EE7733',
-              label='Best-so-far', linestyle='-')
+    # Loop over optimization processes
+    for i, data_hist in enumerate(optim_data.values()):
+        # Get optimization process number of jobs
+        n_jobs = len(data_hist)
+        # Build best-so-far history
+        data_min_xy = np.copy(data_xy[:n_jobs, 2*i:2*i + 2])
+        for j in range(1, n_jobs):
+            data_min_xy[j, 1] = min(data_min_xy[j - 1, 1], data_min_xy[j, 1])
+        # Plot best-so-far history
+        axes.plot(data_min_xy[:, 0], data_min_xy[:, 1], color='#EE7733',
+                  label='Best-so-far' if i == 0 else None, linestyle='-')
     # Plot best-so-far legend
     legend = axes.legend(loc='upper right', frameon=True, fancybox=True,
                          facecolor='inherit', edgecolor='inherit', fontsize=8,
-- 
2.43.0


From 164067f79cea0cf44f5977bcfb54a7f3f5b4f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:45 +0000
Subject: [PATCH 90/92] fix: interrupted summary write left a truncated summary
 file in place

---
 src/hookeai/ioput/iostandard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/ioput/iostandard.py b/src/hookeai/ioput/iostandard.py
index cc6811b..0d55137 100644
--- a/src/hookeai/ioput/iostandard.py
+++ b/src/hookeai/ioput/iostandard.py
@@ -158,7 +158,7 @@ def write_summary_file(summary_directory, filename='summary',
             summary.append(f'\n"{str(key1)}":  {str(val1)}\n')
     # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
     # Write summary file
-    with open(summary_file_path, 'w') as summary_file:
+    with open_atomic(summary_file_path, 'w') as summary_file:
         summary_file.writelines(summary)
 # =============================================================================
 def find_unique_file_with_regex(directory, regex):
-- 
2.43.0


From 60b2175ee44ba6d03a61692e8d3290a641796b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:47 +0000
Subject: [PATCH 91/92] fix: optimization job scored the last instead of the
 requested best model state

---
 .../rnn_base_model/optimization/hydra_optimization.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
index 95b7da1..87b529a 100644
--- a/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
+++ b/src/hookeai/model_architectures/rnn_base_model/optimization/hydra_optimization.py
@@ -227,7 +227,7 @@ def hydra_wrapper(process, dataset_paths, device_type='cpu'):
                 # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
                 # Testing of GRU material model
                 predict_subdir, avg_predict_loss_sample = predict(
-                    testing_dataset, model.model_directory, model=model,
+                    testing_dataset, model.model_directory,
                     predict_directory=testing_subdir,
                     model_load_state='best', loss_nature=cfg.loss_nature,
                     loss_type=cfg.loss_type, loss_kwargs=cfg.loss_kwargs,
-- 
2.43.0


From 86b9d82650e87cb9a4d48565a5951c8078d52d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:56 +0000
Subject: [PATCH 92/92] fix: failed update of boundary constraints labels
 destroyed the data file

---
 .../simulators/links/utilities/links_data_to_adimu.py       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
index 445f2ea..6a08d67 100644
--- a/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
+++ b/src/hookeai/simulators/links/utilities/links_data_to_adimu.py
@@ -746,8 +746,10 @@ def update_adimu_mesh_hist_data_files_dirichlet(specimen_history_paths,
                                f'Expected columns: NODE | X1 X2 X3 | '
                                f'U1 U2 U3 | RF1 RF2 RF3 | DBC1 DBC2 DBC3')
         # ~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~
-        # Store time step data into '.csv' file format
-        df.to_csv(time_step_file_path, encoding='utf-8', index=False)
+        # Store time step data into '.csv' file format (existing data file is
+        # only replaced once the new one is complete)
+        df.to_csv(f'{time_step_file_path}.tmp', encoding='utf-8', index=False)
+        os.replace(f'{time_step_file_path}.tmp', time_step_file_path)
 # =============================================================================
 if __name__ == '__main__':
     # Set computation process
-- 
2.43.0

