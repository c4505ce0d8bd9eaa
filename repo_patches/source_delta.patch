From aadfd78de0593ed76d7b2527a49da30a8da46bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:58 +0000
Subject: [PATCH 01/53] fix: decode names and labels when loading a Fisher
 matrix from HDF5

h5py >= 3 (the version pyproject.toml asks for) returns variable length
strings as bytes, so a saved matrix came back named "b'...'" and labelled
with bytes, and the final results could not be computed from it.
---
 seyfert/fisher/fisher_matrix.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 279de2b..865aa31 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -19,6 +19,11 @@ class FisherMatrixError(Exception):
     pass
 
 
+def _decode_h5_string(value: "Union[str, bytes]") -> "str":
+    # h5py >= 3 returns variable length strings as bytes
+    return value.decode("utf-8") if isinstance(value, bytes) else str(value)
+
+
 class FisherMatrix:
     matrix: "pd.DataFrame"
     _name: "str"
@@ -355,13 +360,13 @@ class FisherMatrix:
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         if file_ext == 'hdf5':
             hf = h5py.File(file, 'r')
-            self.name = str(hf["name"][()])
+            self.name = _decode_h5_string(hf["name"][()])
             try:
-                self._nuisance_parameters = set(hf["nuisance_pars"][()])
+                self._nuisance_parameters = {_decode_h5_string(x) for x in hf["nuisance_pars"][()]}
             except KeyError:
                 self._nuisance_parameters = set()
-            self._cosmological_parameters = set(hf["cosmological_pars"][()])
-            indices = hf["indices"][()]
+            self._cosmological_parameters = {_decode_h5_string(x) for x in hf["cosmological_pars"][()]}
+            indices = [_decode_h5_string(x) for x in hf["indices"][()]]
             self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
             hf.close()
 
-- 
2.43.0


From 4ede0c508eb2cf0bef0414154220b0db78a757a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 02/53] fix: count a batch job as finished only once bjobs has
 listed it as DONE

A failed, empty or partial bjobs answer was taken as 'all jobs done', and rows of
users whose name has digits, capitals or punctuation were not recognised. An empty
job list and fractional polling intervals are handled as well.
---
 seyfert/main/bsub_utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index f553084..7ac3ad7 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -18,8 +18,8 @@ class ExitedBatchJobError(Exception):
 
 
 def count_down(t):
-    while t:
-        time.sleep(1)
+    while t > 0:
+        time.sleep(min(1, t))
         t -= 1
 
 
@@ -35,7 +35,7 @@ class BsubInterface:
         "SUBMIT_TIME": r"([a-zA-Z]{3}\s+[0-9]+\s+[0-9]+:[0-9]+)"
     }
     _bsub_out_regex = re.compile(r"Job <([0-9]+)> is submitted to")
-    _basic_bjobs_out_regex = re.compile(r"([0-9]+)\s+([a-z]+)\s+([A-Z]+)", re.MULTILINE)
+    _basic_bjobs_out_regex = re.compile(r"^[ \t]*([0-9]+)[ \t]+(\S+)[ \t]+([A-Z]+)\b", re.MULTILINE)
 
     def __init__(self):
         self.regex_bjobs_out = re.compile(r"\s+".join(self._bjobs_out_regex_dict.values()), re.MULTILINE)
@@ -143,6 +143,11 @@ class BsubInterface:
 
     def waitForJobsToComplete(self, job_ids: "List", bjobs_opts="-w",
                               check_time_resolution_secs=30.0, max_time_wait_h=3, wait_overhead_secs=5):
+        if not job_ids:
+            logger.info("No jobs to wait for")
+            return
+        # bjobs may fail, or answer for some of the jobs only: a job has finished once it has been listed as DONE
+        unfinished_ids = {str(job_id) for job_id in job_ids}
         logger.info(f"Waiting for jobs {job_ids[0]}-{job_ids[-1]} to execute")
         logger.info(f"Add overhead of {wait_overhead_secs} s to make sure bjobs returns something...")
         time.sleep(wait_overhead_secs)
@@ -160,7 +165,8 @@ class BsubInterface:
                 logger.info(f"Checking jobs status, check number: {check_counter}")
 
             status_df = self.getBjobsTable(job_ids, bjobs_opts=bjobs_opts)
-            if all(status_df["STAT"] == 'DONE'):
+            unfinished_ids -= set(status_df.loc[status_df["STAT"] == 'DONE', "JOBID"])
+            if not unfinished_ids:
                 logger.info(f"Jobs {job_ids[0]}-{job_ids[-1]} have finished")
                 break
             else:
-- 
2.43.0


From 26d7ffc005d60938de13718334858f4970335bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:36 +0000
Subject: [PATCH 03/53] fix: do not ignore the exit status of interactive jobs
 and of the final results step

---
 seyfert/main/task_runners.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 46bf845..62a6447 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -156,9 +156,9 @@ class TaskRunner(ABC):
     def executeCommand(cmd: "str"):
         t0 = time.time()
         proc = sp.run(cmd, shell=True, check=False, stdout=sp.PIPE, stderr=sp.PIPE)
-        if proc.stderr:
+        if proc.stderr or proc.returncode != 0:
             logger.error(proc.stderr.decode("utf-8"))
-            raise JobFailError(f"Command {cmd} failed")
+            raise JobFailError(f"Command {cmd} failed with exit status {proc.returncode}")
         if proc.stdout:
             logger.info(f'Stdout:\n{proc.stdout.decode("utf-8").strip()}')
 
@@ -592,7 +592,9 @@ class ForecastRunner:
             "-ow": self.args.overwrite_results, "-wd": self.workspace.run_dir
         }
         res_cmd = f'evaluate_final_results {" ".join(f"{key} {value}" for key, value in cli_args.items())}'
-        sp.run(res_cmd, shell=True)
+        proc = sp.run(res_cmd, shell=True)
+        if proc.returncode != 0:
+            raise JobFailError(f"Command {res_cmd} failed with exit status {proc.returncode}")
 
     def writeGCspPkFishersTo(self, outdir: "TPathLike"):
         outdir = Path(outdir)
-- 
2.43.0


From a3ba20ab50f18823921cbecdd4b90fdbbf296428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 04/53] fix: give output files their final name only once they
 are complete

A killed job or a failed write left a partial file under the final name, which
later steps and a restarted job took for the complete one.
---
 bin/compute_cls                       |  3 ++-
 seyfert/cosmology/redshift_density.py |  6 ++++--
 seyfert/derivatives/cl_derivative.py  | 15 +++++++--------
 seyfert/fisher/fisher_matrix.py       | 26 ++++++++++++--------------
 seyfert/main/fisher_core.py           |  9 +++++++--
 seyfert/main/seyfert_core.py          |  8 +++++---
 seyfert/main/task_runners.py          | 12 +++++++-----
 seyfert/utils/filesystem_utils.py     | 15 +++++++++++++++
 8 files changed, 59 insertions(+), 35 deletions(-)

diff --git a/bin/compute_cls b/bin/compute_cls
index bfaf957..9e0eb11 100755
--- a/bin/compute_cls
+++ b/bin/compute_cls
@@ -62,7 +62,8 @@ def main(args_dict):
     outfile_name = 'cl_%s.h5' % ("_".join(forecast_config.present_probes))
     outfile = workdir / outfile_name
     logger.info(f'Writing results to file {outfile}')
-    cl_collector.saveToHDF5(outfile)
+    with fsu.replace_when_complete(outfile) as tmp_file:
+        cl_collector.saveToHDF5(tmp_file)
     tf = time.time()
     logger.info(f'Total elapsed time: {fm.string_time_format(tf-t0)}')
 
diff --git a/seyfert/cosmology/redshift_density.py b/seyfert/cosmology/redshift_density.py
index 9192298..f5b650b 100644
--- a/seyfert/cosmology/redshift_density.py
+++ b/seyfert/cosmology/redshift_density.py
@@ -9,6 +9,7 @@ import logging
 import h5py
 
 from seyfert.file_io.hdf5_io import AbstractH5FileIO
+from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import general_utils as gu
 from seyfert.utils.type_helpers import TPathLike
 
@@ -238,8 +239,9 @@ class H5Density(AbstractH5FileIO):
 
 
 def save_densities_to_file(densities: "Dict[str, RedshiftDensity]", file: "TPathLike"):
-    for name in densities:
-        densities[name].saveToHDF5(file=file, root=name)
+    with fsu.replace_when_complete(file) as tmp_file:
+        for name in densities:
+            densities[name].saveToHDF5(file=tmp_file, root=name)
 
 
 def load_densities_from_file(file: "TPathLike") -> "Dict[str, RedshiftDensity]":
diff --git a/seyfert/derivatives/cl_derivative.py b/seyfert/derivatives/cl_derivative.py
index a556bb1..8c5daf9 100644
--- a/seyfert/derivatives/cl_derivative.py
+++ b/seyfert/derivatives/cl_derivative.py
@@ -103,14 +103,13 @@ class ClDerivativeCollector:
             self.dcl_dict[obs_key] = clder
 
     def writeToFile(self, file: "Union[str, Path]") -> "None":
-        hf = h5py.File(file, "w")
-        for obs_key in self.dcl_dict:
-            grp = hf.create_group(obs_key)
-            grp.create_dataset("dc_lij", data=self.dcl_dict[obs_key].dc_lij, dtype='f8',
-                               compression='gzip', compression_opts=9)
-            grp.create_dataset("l_bin_centers", data=self.dcl_dict[obs_key].l_bin_centers, dtype='f8',
-                               compression='gzip', compression_opts=9)
-        hf.close()
+        with fsu.replace_when_complete(file) as tmp_file, h5py.File(tmp_file, "w") as hf:
+            for obs_key in self.dcl_dict:
+                grp = hf.create_group(obs_key)
+                grp.create_dataset("dc_lij", data=self.dcl_dict[obs_key].dc_lij, dtype='f8',
+                                   compression='gzip', compression_opts=9)
+                grp.create_dataset("l_bin_centers", data=self.dcl_dict[obs_key].l_bin_centers, dtype='f8',
+                                   compression='gzip', compression_opts=9)
 
     def loadFromFile(self, file: "Union[str, Path]") -> "None":
         self.dcl_dict = {}
diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 865aa31..067699d 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -8,6 +8,7 @@ import logging
 
 from seyfert.fisher import fisher_utils as fu
 from seyfert.utils import tex_utils as txu
+from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import general_utils as gu
 from seyfert.file_io.ext_input import ISTInputReader
 
@@ -340,22 +341,19 @@ class FisherMatrix:
                 logger.warning(f"file {outfile} already exists, skipping without overwriting")
                 return
             else:
-                if overwrite:
-                    outfile.unlink()
-                else:
+                if not overwrite:
                     raise FileExistsError(f"{outfile}")
 
-        hf = h5py.File(outfile, 'w')
-        str_dtype = h5py.special_dtype(vlen=str)
-        hf.create_dataset(name="name", data=self.name, dtype=str_dtype)
-        hf.create_dataset(name="indices", data=np.array(self.matrix.index, dtype=str_dtype), dtype=str_dtype)
-        hf.create_dataset(name="fisher_matrix", data=self.matrix.to_numpy(dtype=np.float64), dtype='f8')
-        hf.create_dataset(name="cosmological_pars", data=np.array(list(self.cosmological_parameters), dtype=str_dtype),
-                          dtype=str_dtype)
-        if len(self.nuisance_parameters) > 0:
-            hf.create_dataset(name="nuisance_pars", data=np.array(list(self.nuisance_parameters), dtype=str_dtype),
-                              dtype=str_dtype)
-        hf.close()
+        with fsu.replace_when_complete(outfile) as tmp_file, h5py.File(tmp_file, 'w') as hf:
+            str_dtype = h5py.special_dtype(vlen=str)
+            hf.create_dataset(name="name", data=self.name, dtype=str_dtype)
+            hf.create_dataset(name="indices", data=np.array(self.matrix.index, dtype=str_dtype), dtype=str_dtype)
+            hf.create_dataset(name="fisher_matrix", data=self.matrix.to_numpy(dtype=np.float64), dtype='f8')
+            hf.create_dataset(name="cosmological_pars",
+                              data=np.array(list(self.cosmological_parameters), dtype=str_dtype), dtype=str_dtype)
+            if len(self.nuisance_parameters) > 0:
+                hf.create_dataset(name="nuisance_pars", data=np.array(list(self.nuisance_parameters), dtype=str_dtype),
+                                  dtype=str_dtype)
 
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         if file_ext == 'hdf5':
diff --git a/seyfert/main/fisher_core.py b/seyfert/main/fisher_core.py
index d227bbb..4e5caa9 100644
--- a/seyfert/main/fisher_core.py
+++ b/seyfert/main/fisher_core.py
@@ -1,4 +1,5 @@
 import logging
+import shutil
 from pathlib import Path
 import pandas as pd
 from typing import Dict, List
@@ -6,6 +7,7 @@ from typing import Dict, List
 from seyfert.fisher.fisher_evaluator import FisherEvaluator
 from seyfert.fisher.datavector import ClDataVector
 from seyfert.fisher.fisher_matrix import FisherMatrix
+from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils.workspace import WorkSpace
 from seyfert.cosmology.parameter import PhysicalParametersCollection
 from seyfert.fisher.delta_cl import DeltaClCollection
@@ -45,8 +47,11 @@ def compute_fisher_matrix(data_vector_like: "ClDataVector", ws: "WorkSpace",
         f_mat_df, f_ell_df = fish_evaluator.computeFisherMatrix(phys_pars=phys_pars, delta_cls=delta_cls,
                                                                 dcoll_dvar_dict=dcoll_dvar_dict, return_f_ell=True)
         probe = list(data_vector.getInvolvedAutoCorrelationProbes())[0]
-        with pd.HDFStore(ws.auto_f_ells_file, mode="a") as hdf:
-            f_ell_df.to_hdf(hdf, key=probe)
+        with fsu.replace_when_complete(ws.auto_f_ells_file) as tmp_file:
+            if ws.auto_f_ells_file.exists():
+                shutil.copyfile(ws.auto_f_ells_file, tmp_file)
+            with pd.HDFStore(tmp_file, mode="a") as hdf:
+                f_ell_df.to_hdf(hdf, key=probe)
     else:
         auto_f_ells = {}
         with pd.HDFStore(ws.auto_f_ells_file, mode="r") as hdf:
diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 8a80242..d8bfd9e 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -87,7 +87,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
         fid_cls = cl_core.compute_cls(cosmology=fid_cosmo, phys_pars=phys_pars, densities=densities,
                                       forecast_config=fcfg, angular_config=main_configs['Angular'])
         fid_cl_file.parent.mkdir(exist_ok=True, parents=True)
-        fid_cls.saveToHDF5(fid_cl_file)
+        with fsu.replace_when_complete(fid_cl_file) as tmp_file:
+            fid_cls.saveToHDF5(tmp_file)
     else:
         fid_cls = c_ells.AngularCoefficientsCollector.fromHDF5(fid_cl_file)
 
@@ -125,7 +126,7 @@ def compute_cl_derivatives(ws, fcfg, main_configs, phys_pars, fid_cosmo, densiti
         logger.info("")
         logger.info(f"Cl derivatives total elapsed time: {formatters.string_time_format(tf - ti)}")
 
-        with open(cl_ders_file, mode="wb") as f:
+        with fsu.replace_when_complete(cl_ders_file) as tmp_file, open(tmp_file, mode="wb") as f:
             pickle.dump(ders_dict, f)
     else:
         with open(cl_ders_file, mode="rb") as f:
@@ -174,7 +175,8 @@ def do_forecast(args_dict, logfile):
         delta_cls = cl_core.DeltaClCollection.fromHDF5(ws.delta_cls_file)
     else:
         delta_cls = cl_core.compute_delta_cls(ws)
-        delta_cls.saveToHDF5(ws.delta_cls_file)
+        with fsu.replace_when_complete(ws.delta_cls_file) as tmp_file:
+            delta_cls.saveToHDF5(tmp_file)
 
     compute_fishers(ws=ws, fcfg=fcfg, phys_pars=phys_pars, delta_cls=delta_cls, ders_dict=ders_dict)
 
diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 62a6447..8d28bb9 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -16,6 +16,7 @@ from seyfert.main.bsub_utils import BsubInterface
 from seyfert.utils import general_utils as gu
 from seyfert import VERSION
 from seyfert.cosmology.parameter import PhysicalParametersCollection
+from seyfert.cosmology import redshift_density
 from seyfert.cosmology.cosmology import Cosmology
 from seyfert.utils.workspace import WorkSpace
 from seyfert.config.cmd_line import JobSubmitterCommandLineArgs
@@ -548,14 +549,14 @@ class ForecastRunner:
             z_grid = cosmo.z_grid
 
         densities = cl_core.compute_densities(probe_configs=self.forecast_config.probe_configs, z_grid=z_grid)
-        for name in densities:
-            densities[name].saveToHDF5(self.workspace.niz_file, root=name)
+        redshift_density.save_densities_to_file(densities=densities, file=self.workspace.niz_file)
 
     def computeDeltaCls(self):
         logger.info("Computing delta cls")
         if self.args.execution != 'no':
             delta_cls = cl_core.compute_delta_cls(self.workspace)
-            delta_cls.saveToHDF5(self.workspace.delta_cls_file)
+            with fsu.replace_when_complete(self.workspace.delta_cls_file) as tmp_file:
+                delta_cls.saveToHDF5(tmp_file)
         else:
             logger.info('Execution is "no", skipping DeltaCls computation')
 
@@ -614,8 +615,9 @@ class ForecastRunner:
             })
     
     def writeRunMetadata(self):
-        with open(self.workspace.metadata_file, mode="w") as jsf:
-            json.dump(self.metadata, jsf, indent=4)
+        with fsu.replace_when_complete(self.workspace.metadata_file) as tmp_file:
+            with open(tmp_file, mode="w") as jsf:
+                json.dump(self.metadata, jsf, indent=4)
 
 
 def set_num_threads(num_threads):
diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index 8f71cd0..3a4cb8c 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -1,4 +1,5 @@
 from typing import Tuple, Dict, Union
+from contextlib import contextmanager
 import re
 import json
 import os
@@ -57,6 +58,20 @@ def plots_aux_files_dir():
     return Path(SEYFERT_PATH) / 'data/plots_defs'
 
 
+@contextmanager
+def replace_when_complete(file: "Union[str, Path]"):
+    """Yields the path of a temporary file to write, which takes the place of `file` only once it is complete:
+    an interrupted or failed write leaves under the final name what was there before."""
+    file = Path(file)
+    tmp_file = file.with_name(f".{file.name}.{os.getpid()}.tmp")
+    tmp_file.unlink(missing_ok=True)
+    try:
+        yield tmp_file
+        os.replace(tmp_file, file)
+    finally:
+        tmp_file.unlink(missing_ok=True)
+
+
 def get_input_files_dir_for_rundir(rundir: "Path") -> "Path":
     return rundir / 'input_files_dir'
 
-- 
2.43.0


From 64189797890dc9597a4938314033e7b3e8b8e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 05/53] fix: let an interrupted single-process forecast be
 started again in its run directory

The derivatives were looked for in the directory, created before they are computed,
and the outputs of the last two steps made every second run fail.
---
 seyfert/main/seyfert_core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index d8bfd9e..f8270b4 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -97,9 +97,8 @@ def compute_fiducial_cls(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities
 
 def compute_cl_derivatives(ws, fcfg, main_configs, phys_pars, fid_cosmo, densities, fid_cls):
     cl_ders_file = ws.der_dir / "cl_ders.pickle"
-    if not ws.der_dir.is_dir():
-        ws.der_dir.mkdir()
-        cl_ders_file = ws.der_dir / "cl_ders.pickle"
+    if not cl_ders_file.is_file() and not ws.der_dir.is_symlink():
+        ws.der_dir.mkdir(exist_ok=True)
 
         data = {
             "fid_cls": fid_cls,
@@ -151,7 +150,7 @@ def compute_fishers(ws, fcfg, phys_pars, delta_cls, ders_dict):
 
     f_gcsp_pk = FisherMatrix.from_ISTfile(fsu.get_ist_gcsp_pk_fisher_file(fcfg.scenario))
 
-    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5")
+    f_gcsp_pk.writeToFile(outfile=ws.base_fishers_dir / "fisher_IST_gcsp_pk.hdf5", overwrite=True)
 
     return auto_fishers + fishers
 
@@ -180,7 +179,7 @@ def do_forecast(args_dict, logfile):
 
     compute_fishers(ws=ws, fcfg=fcfg, phys_pars=phys_pars, delta_cls=delta_cls, ders_dict=ders_dict)
 
-    create_final_results(rundir=ws.run_dir, outdir_name="final_results")
+    create_final_results(rundir=ws.run_dir, outdir_name="final_results", overwrite=True)
 
     shutil.copy(logfile, ws.run_dir / Path(logfile).name)
 
-- 
2.43.0


From a6e6f54e7aec7c53af8339137eb2ed068e74cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 06/53] fix: do not fail at the end of a forecast whose log is
 already in the run directory

Jobs submitted by run_seyfert log into their run directory, so all of them ended
with SameFileError.
---
 seyfert/main/seyfert_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index f8270b4..3956c37 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -181,7 +181,9 @@ def do_forecast(args_dict, logfile):
 
     create_final_results(rundir=ws.run_dir, outdir_name="final_results", overwrite=True)
 
-    shutil.copy(logfile, ws.run_dir / Path(logfile).name)
+    logfile_copy = ws.run_dir / Path(logfile).name
+    if logfile_copy.resolve() != Path(logfile).resolve():
+        shutil.copy(logfile, logfile_copy)
 
 
 def get_interactive_run_command(args_dict: "Dict") -> "str":
-- 
2.43.0


From 7967f05b4a5688bbef376343b8cd62c03dcafe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:18 +0000
Subject: [PATCH 07/53] fix: write result tables under a temporary name until
 they are complete

---
 seyfert/utils/table_utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/seyfert/utils/table_utils.py b/seyfert/utils/table_utils.py
index 2a2a98d..8bb23c8 100644
--- a/seyfert/utils/table_utils.py
+++ b/seyfert/utils/table_utils.py
@@ -3,6 +3,8 @@ from typing import Union
 import pandas as pd
 import logging
 
+from seyfert.utils import filesystem_utils as fsu
+
 logger = logging.getLogger(__name__)
 
 
@@ -10,11 +12,12 @@ def write_dataframe_table(df: "pd.DataFrame", outfile: "Union[str, Path]", overw
     outfile = Path(outfile)
     fmt = outfile.suffix
     if not outfile.exists() or (outfile.exists() and overwrite):
-        if fmt == ".csv":
-            df.to_csv(outfile, **kwargs)
-        elif fmt == ".xlsx":
-            df.to_excel(outfile, **kwargs)
-        else:
+        if fmt not in {".csv", ".xlsx"}:
             raise Exception(f"Unrecognized table file format {fmt}")
+        with fsu.replace_when_complete(outfile) as tmp_file, open(tmp_file, mode="wb") as f_handle:
+            if fmt == ".csv":
+                df.to_csv(f_handle, **kwargs)
+            else:
+                df.to_excel(f_handle, **kwargs)
     else:
         logger.warning(f"file {outfile} already exists and overwrite is False, not overwriting it")
-- 
2.43.0


From e5f95a7c414aaf0a9751facdabcbe2570654312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 08/53] fix: close the HDF5 file when loading or saving an
 object fails

An object that could not be read or written left its file open for as long as the
exception was referenced, so that the file could not be written again.
WeightFunction.loadFromHDF5 passed the root as the mode.
---
 seyfert/cosmology/bias.py             |  4 +--
 seyfert/cosmology/c_ells.py           |  8 ++----
 seyfert/cosmology/cosmology.py        |  4 +--
 seyfert/cosmology/kernel_functions.py |  4 +--
 seyfert/cosmology/power_spectrum.py   |  4 +--
 seyfert/cosmology/redshift_density.py |  4 +--
 seyfert/cosmology/weight_functions.py |  4 +--
 seyfert/derivatives/cl_derivative.py  | 20 ++++++-------
 seyfert/file_io/hdf5_io.py            | 41 ++++++++++++++++++---------
 seyfert/fisher/delta_cl.py            |  8 ++----
 seyfert/fisher/fisher_matrix.py       | 19 ++++++-------
 11 files changed, 56 insertions(+), 64 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index b88fa05..f6851aa 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -104,9 +104,7 @@ class Bias:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> "None":
         h5bias = H5Bias()
-        h5bias.openFile(file=file, mode='r', root=root)
-        h5bias.writeToObject(self)
-        h5bias.closeFile()
+        h5bias.loadInto(self, file=file, root=root)
 
     def saveToHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> "None":
         h5bias = H5Bias()
diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index 52979e3..f4b8edb 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -278,9 +278,7 @@ class AngularCoefficient:
         if probe2 is None:
             probe2 = self.probe2
         h5cl = H5Cl(probe1, probe2)
-        h5cl.openFile(file=file, mode='r', root=root)
-        h5cl.writeToObject(self)
-        h5cl.closeFile()
+        h5cl.loadInto(self, file=file, root=root)
 
     def __eq__(self, other: "AngularCoefficient") -> "bool":
         return all([
@@ -414,9 +412,7 @@ class AngularCoefficientsCollector:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> "None":
         h5cl_coll = H5ClCollection()
-        h5cl_coll.openFile(file=file, mode='r', root=root)
-        h5cl_coll.writeToObject(self)
-        h5cl_coll.closeFile()
+        h5cl_coll.loadInto(self, file=file, root=root)
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", root: "str" = '/') -> "AngularCoefficientsCollector":
diff --git a/seyfert/cosmology/cosmology.py b/seyfert/cosmology/cosmology.py
index 59304a4..7f09009 100644
--- a/seyfert/cosmology/cosmology.py
+++ b/seyfert/cosmology/cosmology.py
@@ -371,9 +371,7 @@ class Cosmology:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/", load_power_spectrum: "bool" = True) -> "None":
         h5cosmo = H5Cosmology()
-        h5cosmo.openFile(file=file, mode='r', root=root)
-        h5cosmo.writeToObject(self)
-        h5cosmo.closeFile()
+        h5cosmo.loadInto(self, file=file, root=root)
         self.checkParameters()
         if load_power_spectrum:
             if self.power_spectrum is not None:
diff --git a/seyfert/cosmology/kernel_functions.py b/seyfert/cosmology/kernel_functions.py
index 7c6db0a..0f5d24c 100644
--- a/seyfert/cosmology/kernel_functions.py
+++ b/seyfert/cosmology/kernel_functions.py
@@ -83,9 +83,7 @@ class KernelFunction:
         if self.probe2 is not None:
             logger.warning(f'probe string {self.probe2} will be overwritten with file content')
         h5k = H5Kernel()
-        h5k.openFile(file=file, mode='r', root=root)
-        h5k.writeToObject(self)
-        h5k.closeFile()
+        h5k.loadInto(self, file=file, root=root)
 
 
 class H5Kernel(AbstractH5FileIO):
diff --git a/seyfert/cosmology/power_spectrum.py b/seyfert/cosmology/power_spectrum.py
index 6f33b63..398f343 100644
--- a/seyfert/cosmology/power_spectrum.py
+++ b/seyfert/cosmology/power_spectrum.py
@@ -106,9 +106,7 @@ class PowerSpectrum:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/") -> "None":
         h5pmm = H5PowerSpectrum()
-        h5pmm.openFile(file=file, mode='r', root=root)
-        h5pmm.writeToObject(self)
-        h5pmm.closeFile()
+        h5pmm.loadInto(self, file=file, root=root)
 
     def __eq__(self, other: "PowerSpectrum") -> "bool":
         return all([
diff --git a/seyfert/cosmology/redshift_density.py b/seyfert/cosmology/redshift_density.py
index f5b650b..4e034cb 100644
--- a/seyfert/cosmology/redshift_density.py
+++ b/seyfert/cosmology/redshift_density.py
@@ -62,9 +62,7 @@ class RedshiftDensity:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = '/') -> None:
         h5d = H5Density()
-        h5d.openFile(file=file, mode='r', root=root)
-        h5d.writeToObject(self)
-        h5d.closeFile()
+        h5d.loadInto(self, file=file, root=root)
 
     @property
     def z_min(self) -> "float":
diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 76e467f..11b6555 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -104,9 +104,7 @@ class WeightFunction(ABC):
 
     def loadFromHDF5(self, file: Union[str, Path], root: str = '/') -> "None":
         h5w = H5WeightFunction()
-        h5w.openFile(file, root)
-        h5w.writeToObject(self)
-        h5w.closeFile()
+        h5w.loadInto(self, file=file, root=root)
 
     def setUp(self):
         if self.density is None:
diff --git a/seyfert/derivatives/cl_derivative.py b/seyfert/derivatives/cl_derivative.py
index 8c5daf9..0c4aeb1 100644
--- a/seyfert/derivatives/cl_derivative.py
+++ b/seyfert/derivatives/cl_derivative.py
@@ -113,17 +113,15 @@ class ClDerivativeCollector:
 
     def loadFromFile(self, file: "Union[str, Path]") -> "None":
         self.dcl_dict = {}
-        hf = h5py.File(file, 'r')
-        for obs_key in hf.keys():
-            p1, p2 = gu.get_probes_from_comb_key(obs_key)
-            dc_lij = hf[obs_key]["dc_lij"][()]
-            ells = hf[obs_key]["l_bin_centers"][()]
-            clder = ClDerivative(p1=p1, p2=p2)
-            clder.l_bin_centers = ells
-            clder.dc_lij = dc_lij
-            self.dcl_dict[obs_key] = clder
-
-        hf.close()
+        with h5py.File(file, 'r') as hf:
+            for obs_key in hf.keys():
+                p1, p2 = gu.get_probes_from_comb_key(obs_key)
+                dc_lij = hf[obs_key]["dc_lij"][()]
+                ells = hf[obs_key]["l_bin_centers"][()]
+                clder = ClDerivative(p1=p1, p2=p2)
+                clder.l_bin_centers = ells
+                clder.dc_lij = dc_lij
+                self.dcl_dict[obs_key] = clder
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", dvar: "str" = None) -> "ClDerivativeCollector":
diff --git a/seyfert/file_io/hdf5_io.py b/seyfert/file_io/hdf5_io.py
index 130ce4b..216a54c 100644
--- a/seyfert/file_io/hdf5_io.py
+++ b/seyfert/file_io/hdf5_io.py
@@ -94,14 +94,18 @@ class AbstractH5FileIO(ABC):
 
         self._h5file = h5py.File(self.file_path, mode=mode)
         try:
-            self._root_group = self._h5file[self._root_path]
-        except KeyError:
+            try:
+                self._root_group = self._h5file[self._root_path]
+            except KeyError:
+                if mode != 'r':
+                    self._root_group = self._h5file.create_group(name=self._root_path)
+                else:
+                    raise H5FileModeError(f'cannot create root {root} on readonly file')
             if mode != 'r':
-                self._root_group = self._h5file.create_group(name=self._root_path)
-            else:
-                raise H5FileModeError(f'cannot create root {root} on readonly file')
-        if mode != 'r':
-            self.root.attrs.update(base_metadata)
+                self.root.attrs.update(base_metadata)
+        except BaseException:
+            self.closeFile()
+            raise
 
     def closeFile(self) -> None:
         self._h5file.close()
@@ -111,17 +115,28 @@ class AbstractH5FileIO(ABC):
 
     def load(self, file: "Union[str, Path]", root: "str" = '/') -> "object":
         self.openFile(file, mode='r', root=root)
-        self.readBuildingData()
-        obj = self.builder_func(**self.build_data)
-        self.writeToObject(obj)
-        self.closeFile()
+        try:
+            self.readBuildingData()
+            obj = self.builder_func(**self.build_data)
+            self.writeToObject(obj)
+        finally:
+            self.closeFile()
         return obj
 
+    def loadInto(self, obj: "object", file: "Union[str, Path]", root: "str" = '/') -> "None":
+        self.openFile(file, mode='r', root=root)
+        try:
+            self.writeToObject(obj)
+        finally:
+            self.closeFile()
+
     def save(self, obj: "object", file: "Union[str, Path]", root: "str" = '/'):
         mode = 'w' if not Path(file).exists() else 'a'
         self.openFile(file, mode=mode, root=root)
-        self.writeObjectToFile(obj)
-        self.closeFile()
+        try:
+            self.writeObjectToFile(obj)
+        finally:
+            self.closeFile()
 
     @abstractmethod
     def writeToObject(self, obj: "object") -> "None":
diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index c1bab06..f0be090 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -123,9 +123,7 @@ class DeltaCl:
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/") -> "None":
         h5c = H5DeltaCl(name=self.name)
-        h5c.openFile(file, mode='r', root=root)
-        h5c.writeToObject(self)
-        h5c.closeFile()
+        h5c.loadInto(self, file=file, root=root)
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", name: "str", root: "str" = "/") -> "DeltaCl":
@@ -236,9 +234,7 @@ class DeltaClCollection(GenericDictInterface[str, DeltaCl]):
 
     def loadFromHDF5(self, file: "Union[str, Path]", root: "str" = "/") -> "None":
         h5c_coll = H5DeltaClCollection()
-        h5c_coll.openFile(file, mode='r', root=root)
-        h5c_coll.writeToObject(self)
-        h5c_coll.closeFile()
+        h5c_coll.loadInto(self, file=file, root=root)
 
     @classmethod
     def fromHDF5(cls, file: "Union[str, Path]", root: "str" = "/") -> "DeltaClCollection":
diff --git a/seyfert/fisher/fisher_matrix.py b/seyfert/fisher/fisher_matrix.py
index 067699d..ca38cea 100644
--- a/seyfert/fisher/fisher_matrix.py
+++ b/seyfert/fisher/fisher_matrix.py
@@ -357,16 +357,15 @@ class FisherMatrix:
 
     def loadFromFile(self, file: "Union[Path, str]" = None, file_ext: "str" = 'hdf5') -> "None":
         if file_ext == 'hdf5':
-            hf = h5py.File(file, 'r')
-            self.name = _decode_h5_string(hf["name"][()])
-            try:
-                self._nuisance_parameters = {_decode_h5_string(x) for x in hf["nuisance_pars"][()]}
-            except KeyError:
-                self._nuisance_parameters = set()
-            self._cosmological_parameters = {_decode_h5_string(x) for x in hf["cosmological_pars"][()]}
-            indices = [_decode_h5_string(x) for x in hf["indices"][()]]
-            self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
-            hf.close()
+            with h5py.File(file, 'r') as hf:
+                self.name = _decode_h5_string(hf["name"][()])
+                try:
+                    self._nuisance_parameters = {_decode_h5_string(x) for x in hf["nuisance_pars"][()]}
+                except KeyError:
+                    self._nuisance_parameters = set()
+                self._cosmological_parameters = {_decode_h5_string(x) for x in hf["cosmological_pars"][()]}
+                indices = [_decode_h5_string(x) for x in hf["indices"][()]]
+                self.matrix = pd.DataFrame(data=hf["fisher_matrix"][()], index=indices, columns=indices)
 
         elif file_ext == 'csv':
             matrix_df = pd.read_csv(file, index_col=0)
-- 
2.43.0


From 2fc73801817c10b0c1ce769e9e9ca1895e5342d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 09/53] fix: leave a stored object as it was when saving
 another one in its place is refused

---
 seyfert/cosmology/bias.py             | 2 +-
 seyfert/cosmology/redshift_density.py | 2 +-
 seyfert/fisher/delta_cl.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index f6851aa..a99d89d 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -120,10 +120,10 @@ class H5Bias(AbstractH5FileIO):
         self.builder_func = Bias
 
     def writeObjectToFile(self, obj: "Bias") -> "None":
+        bias_model_grp = self.createGroup(name='bias_model')
         if obj.z_bin_edges is not None:
             self.createDataset(name='z_bin_edges', data=obj.z_bin_edges)
         self.attrs['probe'] = obj.probe
-        bias_model_grp = self.createGroup(name='bias_model')
         bias_model_grp.attrs['model_name'] = obj.model_name
         add_params_grp = self.createGroup(name='additional_parameters', base_grp=bias_model_grp)
         self.createDatasets(obj.additional_parameters, base_grp=add_params_grp)
diff --git a/seyfert/cosmology/redshift_density.py b/seyfert/cosmology/redshift_density.py
index 4e034cb..53d7887 100644
--- a/seyfert/cosmology/redshift_density.py
+++ b/seyfert/cosmology/redshift_density.py
@@ -216,8 +216,8 @@ class H5Density(AbstractH5FileIO):
             }
 
     def writeObjectToFile(self, obj: "RedshiftDensity") -> "None":
-        self.attrs['probe'] = obj.probe
         self.createDataset(name='has_niz_from_input', data=obj.has_niz_from_input)
+        self.attrs['probe'] = obj.probe
         self.createDataset(name='input_z_domain', data=obj.input_z_domain)
         self.createDataset(name='z_bin_edges', data=obj.z_bin_edges)
         self.createDataset(name='catalog_f_sky', data=obj.catalog_f_sky)
diff --git a/seyfert/fisher/delta_cl.py b/seyfert/fisher/delta_cl.py
index f0be090..95785a5 100644
--- a/seyfert/fisher/delta_cl.py
+++ b/seyfert/fisher/delta_cl.py
@@ -269,13 +269,13 @@ class H5DeltaCl(AbstractH5FileIO):
                 continue
 
     def writeObjectToFile(self, obj: "DeltaCl") -> "None":
+        self.createDataset(name="l_bin_centers", data=obj.l_bin_centers)
         self.attrs['name'] = obj.name
         if obj.probe_1 is not None:
             self.attrs['probe_1'] = obj.probe_1
         if obj.probe_2 is not None:
             self.attrs['probe_2'] = obj.probe_2
 
-        self.createDataset(name="l_bin_centers", data=obj.l_bin_centers)
         self.createDataset(name="delta_c_lij", data=obj.delta_c_lij)
 
         if obj.inv_delta_c_lij is not None:
-- 
2.43.0


From 6d643540fc22ae8263c9d43d8fe980e24eef0b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:25 +0000
Subject: [PATCH 10/53] fix: replace the parameters file only once the new one
 is complete

---
 seyfert/cosmology/parameter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seyfert/cosmology/parameter.py b/seyfert/cosmology/parameter.py
index 1ff92d6..a8e7f76 100644
--- a/seyfert/cosmology/parameter.py
+++ b/seyfert/cosmology/parameter.py
@@ -5,6 +5,7 @@ from pathlib import Path
 import logging
 from seyfert.base_structs.generic_dict import GenericDictInterface
 from seyfert.utils.encoders import PhysParJSONEncoder
+import seyfert.utils.filesystem_utils as fsu
 
 logger = logging.getLogger(__name__)
 
@@ -206,7 +207,7 @@ class PhysicalParametersCollection(GenericDictInterface[str, PhysicalParameter])
         self.is_universe_flat = data[-1]['is_universe_flat']
 
     def writeJSON(self, file: "Union[str, Path]") -> "None":
-        with open(file, 'w') as jsf:
+        with fsu.replace_when_complete(file) as tmp_file, open(tmp_file, 'w') as jsf:
             dict_list = [par.to_dict() for par in self.values()]
             dict_list.append({
                 'base_stem_disps': list(self.stem_disps[self.stem_disps > 0]),
-- 
2.43.0


From 2e8f129339c25b62eb6f6e8c797028960f8d096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:40 +0000
Subject: [PATCH 11/53] fix: leave a stored weight function as it was when
 saving another one in its place is refused

---
 seyfert/cosmology/weight_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/cosmology/weight_functions.py b/seyfert/cosmology/weight_functions.py
index 11b6555..c59f9e7 100644
--- a/seyfert/cosmology/weight_functions.py
+++ b/seyfert/cosmology/weight_functions.py
@@ -316,11 +316,11 @@ class H5WeightFunction(AbstractH5FileIO):
                 logger.warning(f'bias absent from h5 file')
 
     def writeObjectToFile(self, obj: "WeightFunction") -> "None":
-        self.attrs['probe'] = obj.probe
         if obj.z_grid is not None:
             self.createDataset(name='z_grid', data=obj.z_grid)
         if obj.w_bin_z is not None:
             self.createDataset(name='w_bin_z', data=obj.w_bin_z)
+        self.attrs['probe'] = obj.probe
         if obj.density is not None:
             obj.density.saveToHDF5(self.file_path, root=join(self.root_path, 'density'))
         else:
-- 
2.43.0


From f9b1215671ac7d538deaafe6bf1b70bd7c38ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 12/53] fix: let the Fisher task be repeated in a run directory
 where the IST Fisher is already there

---
 seyfert/main/task_runners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index 8d28bb9..facb736 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -603,7 +603,7 @@ class ForecastRunner:
         for cosmology in ["w0_wa_CDM"]:
             file = fsu.get_ist_gcsp_pk_fisher_file(scenario=self.forecast_config.scenario, cosmology=cosmology)
             pk_fisher = FisherMatrix.from_ISTfile(file=file)
-            pk_fisher.writeToFile(outfile=outdir / f"fisher_IST_gcsp_pk_{cosmology}.hdf5")
+            pk_fisher.writeToFile(outfile=outdir / f"fisher_IST_gcsp_pk_{cosmology}.hdf5", skip_if_exists=True)
     
     def addTimingDataToMetadata(self):
         if self.end_datetime is not None:
-- 
2.43.0


From cfe4389416b4a94a4d8fe80550d977ea8c09aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 13/53] fix: give submitters started in the same second and
 directory different log files

---
 bin/job_submitter | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 573f75d..26c5822 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -1,5 +1,6 @@
 #!/usr/bin/env python3
 
+import os
 import shutil
 from pathlib import Path
 import time
@@ -74,7 +75,7 @@ def main(args_dict: "Dict") -> "None":
     # Log-file
     script_name = Path(__file__).name
     start_time_str = datetime_str_format(datetime.datetime.now())
-    logfile = f'logfile_{script_name}_{start_time_str}.log' if not args_dict['test'] else f'logfile_test.log'
+    logfile = f'logfile_{script_name}_{start_time_str}_{os.getpid()}.log' if not args_dict['test'] else f'logfile_test.log'
     gu.configure_logger(logger, logfile)
 
     gu.print_script_login(script_name, logger)
-- 
2.43.0


From 49d20b5a56194165a47aa81fb24f4204f6f53c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 14/53] fix: do not delete the job directories that -ex no was
 asked to prepare

---
 bin/job_submitter | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 26c5822..3ebf2aa 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -105,7 +105,7 @@ def main(args_dict: "Dict") -> "None":
             rrm.writeReportFiles()
             logger.info(f'\n{rrm.run_summary}')
 
-    if runner.cl_task.is_present and not args_dict["keep_cl_variations"]:
+    if execution != 'no' and runner.cl_task.is_present and not args_dict["keep_cl_variations"]:
         cl_var_dirs = runner.workspace.collectClVariationDirectories()
         for direc in cl_var_dirs.values():
             shutil.rmtree(direc)
-- 
2.43.0


From f6c4723dfb9a9c8ee31869440c68df00ce464d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 15/53] fix: do not write into, or delete from, the directories
 of another run linked as external

---
 seyfert/main/task_runners.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index facb736..df6b13a 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -86,6 +86,8 @@ class TaskRunner(ABC):
 
     @abstractmethod
     def createJobDirStructure(self):
+        if self.outdir.is_symlink():
+            raise FileExistsError(f"{self.outdir} is a link to {os.readlink(self.outdir)}, refusing to write there")
         self.outdir.mkdir(exist_ok=True)
 
     def fillJobDir(self, jobdir_path=None) -> None:
-- 
2.43.0


From 48a928355c03450ca28007ca278865c95e1991f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 16/53] fix: keep a separate copy of each input file of a run
 when some have the same file name

---
 seyfert/utils/workspace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seyfert/utils/workspace.py b/seyfert/utils/workspace.py
index fdd06c6..fe400ba 100644
--- a/seyfert/utils/workspace.py
+++ b/seyfert/utils/workspace.py
@@ -230,10 +230,15 @@ class WorkSpace:
         input_files_dir = fsu.get_input_files_dir_for_rundir(self.run_dir)
         input_files_dir.mkdir(exist_ok=True)
         input_files_dict = {}
+        copies_names = {'params.json'}
 
         for name, input_file in src_input_files.items():
             src = Path(input_file)
-            dst = input_files_dir / src.name
+            copy_name = src.name
+            while copy_name in copies_names:
+                copy_name = f'{name}_{copy_name}'
+            copies_names.add(copy_name)
+            dst = input_files_dir / copy_name
             shutil.copy(src, dst)
             input_files_dict[name] = os.path.relpath(dst, self.run_dir)
 
-- 
2.43.0


From 7fa697bf218db13d2d5f012fa9c7a18c4f95e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 17/53] fix: run_seyfert uses the power spectra directory it is
 given

---
 seyfert/main/seyfert_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 3956c37..0672789 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -47,12 +47,14 @@ def prepare_workspace(args_dict):
                            phys_pars=fcfg.phys_pars, 
                            input_data_dir=input_data_dir)
 
+    ext_dirs = {}
     pmm_dir = args_dict.get('powerspectrum_dir')
-    if pmm_dir is None:
+    if pmm_dir is not None:
+        ext_dirs["PowerSpectrum"] = Path(pmm_dir)
+    else:
         pmm_dir = ws.run_dir/"PowerSpectrum"
         pmm_dir.mkdir(exist_ok=True)
 
-    ext_dirs = {}
     cldir = args_dict.get('angular_dir')
     derdir = args_dict.get('derivative_dir')
     if cldir is not None:
-- 
2.43.0


From 309201434d738102aa68a09724cc245cbd379fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 18/53] fix: run_seyfert does not start a new run in the
 directory of another one

---
 seyfert/main/seyfert_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/seyfert_core.py b/seyfert/main/seyfert_core.py
index 0672789..61582d1 100644
--- a/seyfert/main/seyfert_core.py
+++ b/seyfert/main/seyfert_core.py
@@ -207,7 +207,7 @@ def execute_interactively(args_dict, forecast_configs, logfile):
             logger.info(f"Creating new rundir {workdir}")
             workdir = workdir / f"run_{fcfg_file.stem}_{VERSION}_{now}"
 
-        workdir.mkdir(exist_ok=True, parents=True)
+        workdir.mkdir(exist_ok=args_dict['is_batch_job'], parents=True)
         logger.info(f"Running forecast {i + 1}/{n_fcfgs}: {fcfg_file.name}")
         arguments = {}
         arguments.update(args_dict)
@@ -221,7 +221,7 @@ def submit_batch_jobs(args_dict, forecast_configs):
     for i, fcfg_file in enumerate(forecast_configs):
         now = formatters.datetime_str_format(datetime.datetime.now())
         workdir = Path(args_dict['workdir']).resolve() / f"run_{fcfg_file.stem}_{VERSION}_{now}"
-        workdir.mkdir(exist_ok=True, parents=True)
+        workdir.mkdir(exist_ok=False, parents=True)
         logs_path = workdir / "batch_logs"
         logs_path.mkdir(exist_ok=True, parents=True)
 
-- 
2.43.0


From 0c0f6209b6336eff50565daa7e7bef23a94bba49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 19/53] fix: count the days in the recorded duration of a run

---
 seyfert/main/task_runners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index df6b13a..a61dbe8 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -609,7 +609,7 @@ class ForecastRunner:
     
     def addTimingDataToMetadata(self):
         if self.end_datetime is not None:
-            duration = fm.string_time_format((self.end_datetime - self.start_datetime).seconds)
+            duration = fm.string_time_format((self.end_datetime - self.start_datetime).total_seconds())
             self.metadata.update({
                 "start_time": fm.datetime_str_format(self.start_datetime, hour_sep=':'),
                 "end_time": fm.datetime_str_format(self.end_datetime, hour_sep=':'),
-- 
2.43.0


From 4b153b4343c0d8e8ac824fcc936664e8bd8a4a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:53 +0000
Subject: [PATCH 20/53] fix: record the external directories of a run, and keep
 its id when it is continued

---
 seyfert/main/task_runners.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/task_runners.py b/seyfert/main/task_runners.py
index a61dbe8..9401d41 100644
--- a/seyfert/main/task_runners.py
+++ b/seyfert/main/task_runners.py
@@ -527,10 +527,18 @@ class ForecastRunner:
                     ext_dirs[name] = task.external_dir
 
         self.workspace.symlinkToExternalDirs(ext_dirs=ext_dirs, src_relative_to_rundir=True)
+        self.external_dirs = {
+            name: str(task_dir.resolve()) for name, task_dir in self.workspace.task_dirs.items() if task_dir.is_symlink()
+        }
     
     def populateInitialMetadata(self):
+        run_id = self.run_id
+        if run_id is None:
+            # run on an already existing rundir: keep its id
+            run_id = self.workspace.getRunMetadata().get("run_id")
+
         self.metadata.update({
-            "run_id": self.run_id,
+            "run_id": run_id,
             "executor": os.getenv("USER", ""),
             "host_and_platform": gu.get_execution_host(),
             "code_version": VERSION,
-- 
2.43.0


From 8e53799dec0d2b40bce456fb6dd843605f54d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 21/53] fix: orchestrate_run uses the input data directory it
 is given

---
 seyfert/main/orchestration.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 8545342..5dc5d71 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -162,7 +162,7 @@ def do_multiple_new_seyfert_runs(pmm_dirs: "List[Union[str, Path]]", configs: "D
 
 def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
                        use_fisher_as_id=True, use_angular_as_id=True) -> "str":
-    input_data_dir = fsu.default_seyfert_input_data_dir()
+    input_data_dir = get_input_data_dir(args)
 
     fcfg = Path(keyval_args['fcfg'])
     fcfg_id, _, _ = gu.split_run_id(fcfg.stem)
@@ -203,6 +203,10 @@ def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
     return run_id
 
 
+def get_input_data_dir(args: "argparse.Namespace") -> "Path":
+    return Path(args.input_data_dir) if args.input_data_dir is not None else fsu.default_seyfert_input_data_dir()
+
+
 def build_seyfert_cmd(args: "argparse.Namespace", keyval_args: "Dict") -> "str":
     kwargs_str = " ".join([f"-{key} {value}" for key, value in keyval_args.items()])
     add_flags_str = " ".join([f"--{flag}" for flag in args.additional_flags])
@@ -226,7 +230,7 @@ def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[st
     input_files = ws.theInputFilesDict()
     keyval_args = {
         'rd': ws.run_dir,
-        'i': fsu.default_seyfert_input_data_dir(),
+        'i': get_input_data_dir(args),
         'fcfg': ws.run_dir / input_files['forecast'],
         'pmm_cfg': ws.run_dir / input_files['PowerSpectrum'],
         'cl_cfg': ws.run_dir / input_files['Angular'],
-- 
2.43.0


From e62aa4effc5998dc18743678dc63f44849d4a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 22/53] fix: orchestrate_run reports the runs that failed

---
 seyfert/main/orchestration.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 5dc5d71..080d1a6 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -198,6 +198,9 @@ def do_new_seyfert_run(args: "argparse.Namespace", keyval_args: "Dict",
         if child_proc.stderr:
             logger.warning(f"Run with fcfg {keyval_args['fcfg']} produced a non-empty standard error")
             logger.warning(f"{child_proc.stderr.decode('utf-8')}")
+        if child_proc.returncode != 0:
+            logger.error(f"Run {run_id} failed with exit status {child_proc.returncode}")
+        if child_proc.stderr or child_proc.returncode != 0:
             logger.warning("Going on...")
 
     return run_id
@@ -240,7 +243,10 @@ def run_seyfert_on_existing_rundir(args: "argparse.Namespace", rundir: "Union[st
     update_key_val_args_from_cli_args(args, keyval_args)
     cmd = build_seyfert_cmd(args, keyval_args)
     logger.info(f"Running cmd {cmd}")
-    subprocess.run(cmd, shell=True)
+    child_proc = subprocess.run(cmd, shell=True)
+    if child_proc.returncode != 0:
+        logger.error(f"Run on {rundir} failed with exit status {child_proc.returncode}")
+        logger.warning("Going on...")
 
 
 def update_key_val_args_from_cli_args(args: "argparse.Namespace", keyval_args: "Dict"):
-- 
2.43.0


From da13fb08287b94c4b84be8302c0fadf72038a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 23/53] fix: orchestrate_run lists only the run directories it
 has made

---
 bin/orchestrate_run           |  3 ++-
 seyfert/main/orchestration.py | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/bin/orchestrate_run b/bin/orchestrate_run
index 8573972..9192a79 100755
--- a/bin/orchestrate_run
+++ b/bin/orchestrate_run
@@ -83,10 +83,11 @@ def main(args):
             if fcfgs is not None:
                 configs['fcfg'] = cmd_line.get_paths_from_files_list(fcfgs)
 
+            previous_dirs = orchestration.list_directories(workdir)
             run_ids = orchestration.do_multiple_new_seyfert_runs(pmm_dirs=pmm_dirs, configs=configs, args=args)
 
             if ex != 'no':
-                rundirs = orchestration.collect_rundirs(workdir, run_ids)
+                rundirs = orchestration.collect_rundirs(workdir, run_ids, exclude=previous_dirs)
 
                 rundirs_list_file = workdir / f"rundirs_{now_str}.json"
                 with open(rundirs_list_file, mode="w") as jsf:
diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index 080d1a6..e4410e0 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -1,5 +1,5 @@
 import re
-from typing import Union, Dict, List
+from typing import Union, Dict, List, Iterable
 from pathlib import Path
 import shutil
 import argparse
@@ -8,6 +8,7 @@ import json
 import time
 import subprocess
 
+from seyfert import VERSION
 from seyfert.utils import general_utils as gu
 from seyfert.utils import filesystem_utils as fsu
 from seyfert.utils import formatters as fm
@@ -258,11 +259,16 @@ def update_key_val_args_from_cli_args(args: "argparse.Namespace", keyval_args: "
         keyval_args['ini'] = args.ini_file
 
 
-def collect_rundirs(workdir: "Path", run_ids: "List[str]") -> "List[Path]":
+def list_directories(workdir: "Path") -> "List[Path]":
+    return [x for x in workdir.iterdir() if x.is_dir()]
+
+
+def collect_rundirs(workdir: "Path", run_ids: "List[str]", exclude: "Iterable[Path]" = ()) -> "List[Path]":
+    """Directories of the runs with the given ids, without the excluded ones (e.g. those already there before)"""
+    exclude = set(exclude)
     rundirs = []
-    for x in workdir.iterdir():
-        if x.is_dir():
-            if any(x.name.startswith(run_id) for run_id in run_ids):
-                rundirs.append(x)
+    for x in sorted(list_directories(workdir)):
+        if x not in exclude and any(x.name.startswith(f"{run_id}_{VERSION}_") for run_id in run_ids):
+            rundirs.append(x)
 
     return rundirs
-- 
2.43.0


From 63487a141ca234c8a94d992b09ac54c24bb4f0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 24/53] fix: orchestrate_run does not pick one of several task
 configurations at random

---
 seyfert/main/orchestration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seyfert/main/orchestration.py b/seyfert/main/orchestration.py
index e4410e0..f4505a8 100644
--- a/seyfert/main/orchestration.py
+++ b/seyfert/main/orchestration.py
@@ -50,13 +50,13 @@ def get_configs(cfg_dir: "Union[str, Path]") -> "Dict":
     configs = {}
     for subdir in filter(lambda x: x.is_dir(), Path(cfg_dir).iterdir()):
         name = subdir.name
-        content = list(subdir.iterdir())
-        if name == 'fcfg':
-            configs['fcfg'] = list(subdir.glob("*.json"))
-        elif name == 'fish_cfg' or name == 'cl_cfg':
-            configs[name] = list(subdir.glob("*.json"))
+        json_files = sorted(subdir.glob("*.json"))
+        if name in {'fcfg', 'fish_cfg', 'cl_cfg'}:
+            configs[name] = json_files
+        elif len(json_files) == 1:
+            configs[name] = json_files[0]
         else:
-            configs[name] = content[0]
+            raise ValueError(f"There must be exactly one json file in {subdir}, not {len(json_files)}")
 
     with open(cfg_dir / 'external_dirs.json', mode='r') as jsf:
         configs['ext_dirs'] = json.load(jsf)
-- 
2.43.0


From 70bbe79b08723543c151a4e6ac28ccebb49f0b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:36 +0000
Subject: [PATCH 25/53] fix: convert the values of the ini file of
 job_submitter as those of the command line

---
 bin/job_submitter | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/job_submitter b/bin/job_submitter
index 3ebf2aa..676577a 100755
--- a/bin/job_submitter
+++ b/bin/job_submitter
@@ -66,7 +66,7 @@ def check_options(args_dict: Dict) -> None:
     # Check some options values
     if args_dict['execution'] not in {'no', 'interactive', 'batch'}:
         raise ValueError(f'Invalid execution mode {args_dict["execution"]}')
-    if args_dict['n_cores_per_job'] <= 0 or not isinstance(args_dict['n_cores_per_job'], int):
+    if not isinstance(args_dict['n_cores_per_job'], int) or args_dict['n_cores_per_job'] <= 0:
         raise ValueError(f'Invalid n_cores_per_job {args_dict["n_cores_per_job"]}')
 
 
@@ -132,6 +132,6 @@ if __name__ == '__main__':
         invalid_keys = set(ini_kwargs.keys()) - set(arguments_dict.keys())
         if len(invalid_keys):
             raise KeyError(f"Invalid config keys: {''.join(invalid_keys)}")
-        arguments_dict.update(ini_kwargs)
+        arguments_dict.update(gu.convert_keyval_params_type(dict(ini_kwargs)))
 
     main(arguments_dict)
-- 
2.43.0


From 8c8c43f974f3a19adfef10aeee5f49db14e08a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 26/53] fix: tag collected analyses with the options of their
 run, in whatever order the options are listed

---
 seyfert/fisher/results_collector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 0c2e9d8..8b554de 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -67,9 +67,10 @@ class ResultsCollector:
         rows = []
         for i, ws in enumerate(self.ws_list):
             an = FisherAnalysis.fromRundir(ws.run_dir, cosmology=cosmology, res_subdir_name=res_subdir_name)
-            rows.append([*self.fcfg_list[i].synthetic_opts.values(), an])
+            rows.append({**self.fcfg_list[i].synthetic_opts, 'analysis': an})
 
-        an_df = pd.DataFrame(rows, columns=[*self.fcfg_list[0].synthetic_opts.keys(), 'analysis'])
+        columns = list(dict.fromkeys(name for fc in self.fcfg_list for name in fc.synthetic_opts))
+        an_df = pd.DataFrame(rows, columns=[*columns, 'analysis'])
 
         return an_df
 
-- 
2.43.0


From 1c451acdf6f6c5c3e8c03f143c0579ca94f6b245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:11 +0000
Subject: [PATCH 27/53] fix: an interrupted collection of results does not
 leave truncated tables

---
 seyfert/fisher/results_collector.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/seyfert/fisher/results_collector.py b/seyfert/fisher/results_collector.py
index 8b554de..ce45ad9 100644
--- a/seyfert/fisher/results_collector.py
+++ b/seyfert/fisher/results_collector.py
@@ -5,6 +5,7 @@ import logging
 from seyfert.fisher.fisher_analysis import FisherAnalysis
 from seyfert.utils.dir_explorer import DirectoryExplorer
 from seyfert.utils import filesystem_utils as fsu
+from seyfert.utils import table_utils as tu
 from seyfert.utils.workspace import WorkSpace
 from seyfert.config.forecast_config import ForecastConfig
 from seyfert.utils.type_helpers import TPathLike
@@ -84,13 +85,15 @@ class ResultsCollector:
         logger.info("Building relative marginalized errors table")
         rel_marg_errs_df = self.buildRelativeMarginalizedErrorsTable(cosmology=cosmology, res_subdir_name=res_subdir_name)
 
-        marg_errs_df.to_excel(out_subdir / "marginalized_errors.xlsx", index=False)
-        rel_marg_errs_df.to_excel(out_subdir / "relative_marginalized_errors.xlsx", index=False)
+        tu.write_dataframe_table(marg_errs_df, out_subdir / "marginalized_errors.xlsx", overwrite=True, index=False)
+        tu.write_dataframe_table(rel_marg_errs_df, out_subdir / "relative_marginalized_errors.xlsx", overwrite=True,
+                                 index=False)
 
         logger.info("Building fisher analyses dataframe")
         an_df = self.buildFisherAnalysesDataFrame(cosmology=cosmology, res_subdir_name=res_subdir_name)
 
-        an_df.to_pickle(out_subdir / "fisher_analyses.pickle")
+        with fsu.replace_when_complete(out_subdir / "fisher_analyses.pickle") as tmp_file:
+            an_df.to_pickle(tmp_file)
 
     def loadFisherAnalysesPickle(self, file: "TPathLike", eval_marg_errs=True):
         self.analyses_df = pd.read_pickle(file)
-- 
2.43.0


From f4ad8f9ebb94366fd751c18fd2475d17cce73f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 28/53] fix: compute_pmm evaluates the power spectrum before
 the growth factor taken from it

---
 bin/compute_pmm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/compute_pmm b/bin/compute_pmm
index ca20687..f1c4f83 100755
--- a/bin/compute_pmm
+++ b/bin/compute_pmm
@@ -40,8 +40,8 @@ def main(args_dict):
 
     cosmology = Cosmology(params=phys_pars.cosmological_parameters, flat=phys_pars.is_universe_flat,
                           z_grid=power_spectrum_config.z_grid, model_name='CPL')
-    cosmology.evaluateOverRedshiftGrid()
     cosmology.evaluatePowerSpectrum(workdir, power_spectrum_config)
+    cosmology.evaluateOverRedshiftGrid()
     p_mm_file = workdir / "p_mm.h5"
     logger.info(f'Writing results to file {p_mm_file}')
     cosmology.saveToHDF5(p_mm_file)
-- 
2.43.0


From f04e5fbe43d9985e880e87766d691cef7fa6ff3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 29/53] fix: p_mm.h5 is complete or absent, and the
 power-spectrum stage can be repeated

---
 bin/compute_pmm | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bin/compute_pmm b/bin/compute_pmm
index f1c4f83..2cecfc7 100755
--- a/bin/compute_pmm
+++ b/bin/compute_pmm
@@ -44,7 +44,8 @@ def main(args_dict):
     cosmology.evaluateOverRedshiftGrid()
     p_mm_file = workdir / "p_mm.h5"
     logger.info(f'Writing results to file {p_mm_file}')
-    cosmology.saveToHDF5(p_mm_file)
+    with fsu.replace_when_complete(p_mm_file) as tmp_file:
+        cosmology.saveToHDF5(tmp_file)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From cf091ad106c577db9736b73932642a414cbb62b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 30/53] fix: read step numbers of more than one digit from job
 directory names

---
 seyfert/utils/filesystem_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/utils/filesystem_utils.py b/seyfert/utils/filesystem_utils.py
index 3a4cb8c..a558056 100644
--- a/seyfert/utils/filesystem_utils.py
+++ b/seyfert/utils/filesystem_utils.py
@@ -105,7 +105,7 @@ def get_forecast_input_data_dir_from_rundir(rundir: "Path") -> "Path":
 
 
 def get_dvar_step_from_cosmology_jobdir_name(dirname: str):
-    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9])')
+    dirname_regex = re.compile('dvar_(?P<dvar>[a-zA-Z0-9]+)_step(?P<sign>_[pm])*_(?P<step>[0-9]+)')
     match = dirname_regex.search(dirname)
     try:
         dvar = match.group('dvar')
-- 
2.43.0


From 97d7c86e6491c173ea31edeed072f1585c05967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 31/53] fix: a single-process forecast varies parameters by all
 the configured steps

---
 seyfert/main/cl_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/cl_core.py b/seyfert/main/cl_core.py
index 6886c6f..5973316 100644
--- a/seyfert/main/cl_core.py
+++ b/seyfert/main/cl_core.py
@@ -83,7 +83,7 @@ def compute_cls_variations(dvar: "str", fid_cls, ws, phys_pars, densities, forec
                            pmm_cfg=None, compute_pmm=False,
                            fiducial_cosmology=None) -> "Dict[int, AngularCoefficientsCollector]":
     cl_coll_variations = {0: fid_cls}
-    for step in np.r_[-7:0, 1:8]:
+    for step in phys_pars.stem_steps:
         logger.info(f"dvar {dvar}, step {step}")
         phys_pars.updatePhysicalParametersForDvarStep(dvar=dvar, step=step)
         if not compute_pmm:
-- 
2.43.0


From 88f7a8302ac5e59caf7cdd05587f842000e0192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 32/53] fix: give up when CAMB's scalar amplitude cannot be
 tuned to the requested sigma8

---
 seyfert/cosmology/boltzmann_solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seyfert/cosmology/boltzmann_solver.py b/seyfert/cosmology/boltzmann_solver.py
index 0016a5a..07c76f2 100644
--- a/seyfert/cosmology/boltzmann_solver.py
+++ b/seyfert/cosmology/boltzmann_solver.py
@@ -127,7 +127,12 @@ class CAMBBoltzmannSolver(ExternalBoltzmannSolver):
         sigma8_eval = 10
         inifile_dict = self.readCAMBIniFileToDict(self.ini_file)
         As = float(inifile_dict["scalar_amp"])
+        n_iterations, max_iterations = 0, 100
         while np.abs((sigma8 - sigma8_eval) / sigma8) > 1e-12:
+            if n_iterations == max_iterations:
+                raise RuntimeError(f"sigma8 is still {sigma8_eval}, not {sigma8}, after {max_iterations} adjustments "
+                                   f"of the scalar amplitude")
+            n_iterations += 1
             camb_pars = camb.read_ini(str(self.ini_file))
             camb_pars.set_matter_power(redshifts=[0], kmax=0.5)  # Melita dice che tutti usano k = 0.5 e Pk lineare
             camb_pars.NonLinear = camb.model.NonLinear_none
-- 
2.43.0


From cdc0b938b5ac1ac4492cdc3a262c80bdb1d57f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 33/53] fix: the jobs report reads the log files that submitted
 jobs write, those of the last submission

---
 seyfert/main/report_maker.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 1b83691..14e924c 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -66,8 +66,13 @@ class JobReport:
         return job_report_string
 
     def getFiles(self) -> None:
-        self.err_file = self.getFilePathFromJobdirWithPattern('job*.err')
-        self.out_file = self.getFilePathFromJobdirWithPattern('job*.out')
+        # one pair of files per submission, named after its time: the last one tells the current status
+        submissions = {f.name[4:-4] for f in [*self.jobdir.glob('out_job*.out'), *self.jobdir.glob('err_job*.err')]}
+        if submissions:
+            last = max(submissions)
+            out_file, err_file = self.jobdir / f'out_{last}.out', self.jobdir / f'err_{last}.err'
+            self.out_file = out_file if out_file.is_file() else None
+            self.err_file = err_file if err_file.is_file() else None
         self.log_file = self.getFilePathFromJobdirWithPattern('*.log')
         self.output_file = self.getFilePathFromJobdirWithPattern(self.output_file_pattern)
 
-- 
2.43.0


From 31eb88d7573bab1744a899ddd52c3d3d7cf8e487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 34/53] fix: the jobs report takes the status of a job from the
 batch system, not only from its error output

---
 seyfert/main/bsub_utils.py   | 15 +++++++++++++
 seyfert/main/report_maker.py | 42 +++++++++++++++++++-----------------
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 7ac3ad7..b55d778 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -17,6 +17,21 @@ class ExitedBatchJobError(Exception):
     pass
 
 
+def batch_report_header(out_content: "str") -> "str":
+    """
+    The part written by the batch system of the output file of a job, without the output of the job itself;
+    the last one, if more jobs wrote into the same file.
+    """
+    start = max(out_content.rfind("\nSender: LSF System"), 0)
+    return out_content[start:].split("\nThe output (if any) follows:", 1)[0]
+
+
+def batch_report_verdict(out_content: "str") -> "Union[bool, None]":
+    """Whether the batch system recorded that the job completed or failed; None if it recorded neither."""
+    verdicts = re.findall(r"^(Successfully completed\.|Exited with |TERM_)", batch_report_header(out_content), re.MULTILINE)
+    return all(v.startswith("Successfully") for v in verdicts) if verdicts else None
+
+
 def count_down(t):
     while t > 0:
         time.sleep(min(1, t))
diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 14e924c..cbf5165 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -4,6 +4,7 @@ import re
 import datetime
 import seyfert.utils.formatters as fm
 import seyfert.utils.general_utils as gu
+from seyfert.main.bsub_utils import batch_report_header, batch_report_verdict
 from seyfert.utils.workspace import WorkSpace
 
 
@@ -59,7 +60,7 @@ class JobReport:
             if self.status != NOT_EXECUTED_STRING:
                 job_report_string += f'- Core Dump: {self.core_dumped}\n'
                 job_report_string += f'- Errfile Path: {self.err_file}\n'
-                err_content = self.err_file.read_text()
+                err_content = self.readErrFile()
                 if err_content:
                     job_report_string += f'- Errfile Content: \n{err_content}\n'
         job_report_string += '\n'
@@ -77,28 +78,29 @@ class JobReport:
         self.output_file = self.getFilePathFromJobdirWithPattern(self.output_file_pattern)
 
     def evaluateJobStatus(self) -> None:
-        if self.err_file is None:
-            if self.out_file is None:
-                self.status = NOT_EXECUTED_STRING
-            else:
-                self.status = UNDEFINED_STRING
+        if self.err_file is None and self.out_file is None:
+            self.status = NOT_EXECUTED_STRING
+            return
+        err_content = self.readErrFile()
+        # None if the batch system has not recorded how the job ended
+        completed = batch_report_verdict(self.out_file.read_text(errors='replace')) if self.out_file is not None else None
+        if len(err_content) > 0 or completed is False:
+            self.status = FAILURE_STRING
+            core_dump_files = [x for x in self.jobdir.iterdir()
+                               if self.regex_dict["core_dump_file_pattern"].match(x.name)]
+            self.core_dumped = bool(self.regex_dict['core_dump'].search(err_content)) or len(core_dump_files) > 0
+        elif completed and self.err_file is not None and self.output_file is not None and self.output_file.exists():
+            self.status = SUCCESS_STRING
+            outsize_bytes = self.output_file.stat().st_size
+            self.output_size_MB = outsize_bytes / 1e6
         else:
-            err_content = self.err_file.read_text()
-            if len(err_content) > 0:
-                self.status = FAILURE_STRING
-                core_dump_files = [x for x in self.jobdir.iterdir()
-                                   if self.regex_dict["core_dump_file_pattern"].match(x.name)]
-                self.core_dumped = bool(self.regex_dict['core_dump'].search(err_content)) or len(core_dump_files) > 0
-            else:
-                if self.output_file is not None and self.output_file.exists():
-                    self.status = SUCCESS_STRING
-                    outsize_bytes = self.output_file.stat().st_size
-                    self.output_size_MB = outsize_bytes / 1e6
-                else:
-                    self.status = UNDEFINED_STRING
+            self.status = UNDEFINED_STRING
+
+    def readErrFile(self) -> "str":
+        return self.err_file.read_text(errors='replace') if self.err_file is not None else ''
 
     def parseOutFile(self) -> None:
-        out_content = self.out_file.read_text()
+        out_content = batch_report_header(self.out_file.read_text(errors='replace'))
         self.execution_time_secs = self.getExecutionTimeFromOutfile(out_content)
         job_id_match = self.regex_dict['job_id'].search(out_content)
         self.job_id = job_id_match.groups()[0] if job_id_match is not None else None
-- 
2.43.0


From ff1cb85b519c31a67df0ddc0340f32a268e62097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 35/53] fix: report tasks and runs without jobs as not
 executed, and jobs in the order of their ids

---
 seyfert/main/report_maker.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index cbf5165..d612f50 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -174,9 +174,11 @@ class TaskReportMaker:
             self.mean_exec_time += job_report.execution_time_secs
             self.total_output_size_MB += job_report.output_size_MB
         self.n_jobs = len(self.job_reports)
-        self.mean_exec_time /= self.n_jobs
+        self.mean_exec_time /= max(self.n_jobs, 1)
         if all([x.job_id is not None for x in self.job_reports]):
-            self.job_reports.sort(key=lambda x: x.job_id)
+            self.job_reports.sort(key=lambda x: int(x.job_id))
+        else:
+            self.job_reports.sort(key=lambda x: x.jobdir.name)
 
     def writeToFiles(self, report_outfile=None, summary_outfile=None) -> None:
         summary_outfile.write(self.summary)
@@ -208,6 +210,8 @@ class TaskReportMaker:
 
         if self.n_failed_jobs > 0:
             self.status = FAILURE_STRING
+        elif self.n_jobs == 0:
+            self.status = NOT_EXECUTED_STRING
         elif self.n_succeeded_jobs == self.n_jobs:
             self.status = SUCCESS_STRING
         elif self.n_not_executed_jobs == self.n_jobs:
@@ -262,7 +266,9 @@ class RunReportMaker:
         run_name = self.rundir.name
         self.report_outfile = self.rundir / f'report_{run_name}.log'
         self.summary_outfile = self.rundir / f'summary_{run_name}.log'
-        if all([trm.status == SUCCESS_STRING for trm in self.task_report_makers]):
+        if all([trm.status == NOT_EXECUTED_STRING for trm in self.task_report_makers]):
+            self.status = NOT_EXECUTED_STRING
+        elif all([trm.status == SUCCESS_STRING for trm in self.task_report_makers]):
             self.status = SUCCESS_STRING
         elif any([trm.status == FAILURE_STRING for trm in self.task_report_makers]):
             self.status = FAILURE_STRING
-- 
2.43.0


From bb9faa01e596212f777155eb52b0e09fb85d9ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 36/53] fix: count the days in the execution time of jobs, and
 jobs of any year

---
 seyfert/main/bsub_utils.py   | 4 ++--
 seyfert/main/report_maker.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index b55d778..9632e16 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -204,7 +204,7 @@ class BsubInterface:
                 break
 
     def getResourceUsageTable(self, out_files_dir: "Path"):
-        outname_regex = re.compile(r"^out_(.*)_202[0-1]")
+        outname_regex = re.compile(r"^out_(.*)_[0-9]{4}-[0-9]{2}-[0-9]{2}T")
         regexps = {
             "cpu_time_s": re.compile(r"CPU time\s*:\s+([0-9\.]+)"),
             "max_mem_MB": re.compile(r"Max Memory\s*:\s+([0-9\.]+)"),
@@ -221,7 +221,7 @@ class BsubInterface:
             row = {
                 "fisher": fisher,
                 "start_time": start_time, "end_time": end_time,
-                "duration_s": (end_time - start_time).seconds
+                "duration_s": (end_time - start_time).total_seconds()
             }
             row.update({key: float(pattern.search(text).groups()[0]) for key, pattern in regexps.items()})
             rows.append(row)
diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index d612f50..6f4468f 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -123,7 +123,7 @@ class JobReport:
                 tf_string = self.convertDateTimeString(tf_string)
                 times['tf'] = datetime.datetime.strptime(tf_string, '%Y %b %d %H:%M:%S')
         try:
-            execution_time_secs = (times['tf'] - times['ti']).seconds
+            execution_time_secs = (times['tf'] - times['ti']).total_seconds()
         except KeyError:
             execution_time_secs = 0
         return execution_time_secs
-- 
2.43.0


From f65aaeebb90b4ae3b64b401443c657807caceebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 37/53] fix: report the execution hosts whose name has a dash

---
 seyfert/main/report_maker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 6f4468f..3e30aea 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -34,7 +34,7 @@ class JobReport:
         self.execution_time_secs = 0
         self.exec_hosts = []
         self.regex_dict = {'job_id': re.compile(r'Job\s+([0-9]+)'),
-                           'exec_host': re.compile(r'<([a-z0-9*]+)\.ge\.infn\.it>'),
+                           'exec_host': re.compile(r'<([a-zA-Z0-9*_-]+)\.ge\.infn\.it>'),
                            'cpu_time': re.compile(r'CPU time\s*:\s+([0-9.]+)'),
                            'core_dump': re.compile(r'[cC]ore\s+[dD]ump'),
                            'core_dump_file_pattern': re.compile(r'core\.[0-9]+')}
-- 
2.43.0


From 60bf9024bf403789b55c5da54730ab5e8ef4877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 38/53] fix: report_batch_jobs does not report the success of
 runs it did not find, nor of failed jobs that print so

---
 bin/report_batch_jobs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bin/report_batch_jobs b/bin/report_batch_jobs
index 2df2595..b43e2c1 100644
--- a/bin/report_batch_jobs
+++ b/bin/report_batch_jobs
@@ -2,10 +2,10 @@
 
 from typing import Dict
 from pathlib import Path
-import re
 import argparse
 import logging
 
+from seyfert.main.bsub_utils import batch_report_verdict
 from seyfert.utils.general_utils import configure_logger
 
 
@@ -32,16 +32,17 @@ def main(args_dict: "Dict"):
     files = list(workdir.glob(args_dict['pattern']))
     logger.info(f"Found {len(files)} out files")
 
-    success_regex = re.compile(r"^Successfully completed\.$", re.MULTILINE)
     matches = []
     for f in files:
-        match = success_regex.search(f.read_text())
+        match = batch_report_verdict(f.read_text(errors="replace"))
         if not match:
-            logger.error(f"file {f.name} does not match {success_regex.pattern}, something may have gone wrong with "
+            logger.error(f"file {f} does not report a successful completion, something may have gone wrong with "
                          f"the associated run")
         matches.append(match)
 
-    if all(matches):
+    if not files:
+        logger.warning(f"No files match {args_dict['pattern']} in {workdir}")
+    elif all(matches):
         logger.info("All found runs successfully completed")
 
 
-- 
2.43.0


From 50d34f489849727e5ad3e0a69dff0de08618ad83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:04 +0000
Subject: [PATCH 39/53] fix: report jobs whose output file has been cut short

---
 seyfert/main/report_maker.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/seyfert/main/report_maker.py b/seyfert/main/report_maker.py
index 3e30aea..fe40d6b 100644
--- a/seyfert/main/report_maker.py
+++ b/seyfert/main/report_maker.py
@@ -111,20 +111,20 @@ class JobReport:
         start_time_regex = re.compile('Started at ([a-zA-Z0-9\s:]+)')
         end_time_regex = re.compile('Results reported on ([a-zA-Z0-9\s:]+)')
         times = {}
-        for line in out_content.splitlines():
-            start_time_match = start_time_regex.search(line)
-            end_time_match = end_time_regex.search(line)
-            if start_time_match:
-                ti_string = start_time_match.groups()[0]
-                ti_string = self.convertDateTimeString(ti_string)
-                times['ti'] = datetime.datetime.strptime(ti_string, '%Y %b %d %H:%M:%S')
-            elif end_time_match:
-                tf_string = end_time_match.groups()[0]
-                tf_string = self.convertDateTimeString(tf_string)
-                times['tf'] = datetime.datetime.strptime(tf_string, '%Y %b %d %H:%M:%S')
         try:
+            for line in out_content.splitlines():
+                start_time_match = start_time_regex.search(line)
+                end_time_match = end_time_regex.search(line)
+                if start_time_match:
+                    ti_string = start_time_match.groups()[0]
+                    ti_string = self.convertDateTimeString(ti_string)
+                    times['ti'] = datetime.datetime.strptime(ti_string, '%Y %b %d %H:%M:%S')
+                elif end_time_match:
+                    tf_string = end_time_match.groups()[0]
+                    tf_string = self.convertDateTimeString(tf_string)
+                    times['tf'] = datetime.datetime.strptime(tf_string, '%Y %b %d %H:%M:%S')
             execution_time_secs = (times['tf'] - times['ti']).total_seconds()
-        except KeyError:
+        except (KeyError, ValueError):  # not there yet, or cut short
             execution_time_secs = 0
         return execution_time_secs
 
-- 
2.43.0


From 8f2e9e27b07f985ea1983e2638bc5bfd4dc4ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:56 +0000
Subject: [PATCH 40/53] fix: the resource usage table reads what the batch
 system reports, not the output of the jobs

---
 seyfert/main/bsub_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/main/bsub_utils.py b/seyfert/main/bsub_utils.py
index 9632e16..c30cb13 100644
--- a/seyfert/main/bsub_utils.py
+++ b/seyfert/main/bsub_utils.py
@@ -215,7 +215,7 @@ class BsubInterface:
 
         rows = []
         for file in out_files_dir.glob("*.out"):
-            text = file.read_text()
+            text = batch_report_header(file.read_text(errors='replace'))
             fisher = outname_regex.match(file.stem).groups()[0]
             start_time, end_time = self.extractStartEndTimesFromOutText(text)
             row = {
-- 
2.43.0


From f2b17c0e18592ad6b37c7c52b6e16eea82beef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 41/53] fix: a constant bias takes its parameters in the order
 of their numbers, also when read from a file

---
 seyfert/cosmology/bias.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/seyfert/cosmology/bias.py b/seyfert/cosmology/bias.py
index a99d89d..a7cd3d9 100644
--- a/seyfert/cosmology/bias.py
+++ b/seyfert/cosmology/bias.py
@@ -12,7 +12,7 @@ from seyfert.file_io.hdf5_io import AbstractH5FileIO
 from pathlib import Path
 import numpy as np
 import re
-from typing import Dict, Union, Set
+from typing import Dict, List, Union, Set
 if TYPE_CHECKING:
     from seyfert.cosmology.cosmology import Cosmology
 
@@ -185,18 +185,38 @@ class BiasModel(ABC):
         return gu.compare_objects(self, other, self._attrs_excluded_from_equality)
 
 
-class ConstantBias(BiasModel):
+class BinnedBiasModel(BiasModel, ABC):
+    """
+    Bias with one parameter for each redshift bin. Parameters are in the order of the numbers in their names, whatever
+    the order they are given in: HDF5 files list them in alphabetical order.
+    """
+
+    def getSortedParameterNames(self) -> "List[str]":
+        par_names = list(self.nuisance_parameters.keys())
+        digit_regex = re.compile(r'\d+')
+
+        def _get_bias_idx(s) -> "int":
+            match = digit_regex.search(s)
+            return int(s[match.start():match.end()])
+
+        return sorted(par_names, key=_get_bias_idx)
+
+    def getSortedBiasValues(self) -> "np.ndarray":
+        return np.array([self.nuisance_parameters[name] for name in self.getSortedParameterNames()])
+
+
+class ConstantBias(BinnedBiasModel):
     def __init__(self, **kwargs):
         super(ConstantBias, self).__init__(**kwargs)
 
     def computeBias(self, z_grid: "np.ndarray") -> "np.ndarray":
-        b_i = np.array(list(self.nuisance_parameters.values()))
+        b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
             raise BiasError(f'number of bias values {len(b_i)} differs from n_bins {self.n_bins}')
         return np.repeat(b_i[:, np.newaxis], len(z_grid), axis=1)
 
 
-class PiecewiseBias(BiasModel):
+class PiecewiseBias(BinnedBiasModel):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
@@ -207,16 +227,6 @@ class PiecewiseBias(BiasModel):
 
         return b_i_z
 
-    def getSortedBiasValues(self) -> "np.ndarray":
-        par_names = list(self.nuisance_parameters.keys())
-        digit_regex = re.compile(r'\d+')
-
-        def _get_bias_idx(s) -> "int":
-            match = digit_regex.search(s)
-            return int(s[match.start():match.end()])
-
-        return np.array([self.nuisance_parameters[name] for name in sorted(par_names, key=_get_bias_idx)])
-
     def getConditionAndValuesLists(self, z_grid: "np.ndarray"):
         b_i = self.getSortedBiasValues()
         if len(b_i) != self.n_bins:
-- 
2.43.0


From 0810483fd64cb6f922f5c7d3e851e9de105e48e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 42/53] fix: jobs compute analytic derivatives, over the whole
 range of redshifts of each bias parameter

---
 seyfert/derivatives/differentiator.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 8edd2f1..6bfc487 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -1,9 +1,9 @@
 from abc import ABC, abstractmethod
 import numpy as np
-from scipy import integrate
 from typing import List
 from pathlib import Path
 from seyfert.cosmology import c_ells
+from seyfert.cosmology.bias import PiecewiseBias
 from seyfert.cosmology.parameter import PhysicalParameter, PhysicalParametersCollection
 from seyfert.utils.workspace import WorkSpace
 import logging
@@ -169,6 +169,7 @@ class AnalyticClDifferentiator(ClDifferentiator):
         pmm_file = self.workspace.getPowerSpectrumFile(dvar='central', step=0)
         self.fiducial_cl.loadCosmology(pmm_file, load_power_spectrum=True)
         self.fiducial_cl.cosmology.evaluateOverRedshiftGrid()
+        self.fiducial_cl.angular_config = self.workspace.getTaskJSONConfiguration('Angular')
 
     def doComputeDerivative(self) -> "np.ndarray":
         if not self.param.is_galaxy_bias_parameter:
@@ -183,7 +184,9 @@ class AnalyticClDifferentiator(ClDifferentiator):
             dc_lij = np.zeros(self.fiducial_cl.c_lij.shape)
             bias_model_name = self.fiducial_cl.getWeightFunction(probe).bias.model_name
             if bias_model_name == "constant" or bias_model_name == "piecewise":
-                k = int(self.param.name[-1])
+                bias = self.fiducial_cl.getWeightFunction(probe).bias
+                model = PiecewiseBias(nuisance_parameters=bias.nuisance_parameters, z_bin_edges=bias.z_bin_edges)
+                k = model.getSortedParameterNames().index(self.param.name)
                 bk = self.param.fiducial
                 if bias_model_name == "constant":
                     _, i, j = np.indices(self.fiducial_cl.c_lij.shape)
@@ -195,19 +198,22 @@ class AnalyticClDifferentiator(ClDifferentiator):
                         dc_lij += (delta_jk / bk) * self.fiducial_cl.c_lij
                 elif bias_model_name == "piecewise":
                     self.fiducial_cl.evaluateLimberApproximatedPowerSpectrum()
-                    z_b_edg = self.fiducial_cl.getWeightFunction(probe).z_bin_edges
-                    z_grid = self.fiducial_cl.z_array
-                    bin_mask = (z_grid >= z_b_edg[k]) & (z_grid <= z_b_edg[k+1])
+                    # 1 where the bias is that of the k-th bin, also out of the bin edges, 0 elsewhere
+                    model.nuisance_parameters = {name: float(name == self.param.name)
+                                                 for name in bias.nuisance_parameters}
+                    bin_mask = model.computeBias(self.fiducial_cl.z_array)[0]
 
                     for myi in range(dc_lij.shape[1]):
                         for myj in range(dc_lij.shape[2]):
+                            if not np.any(self.fiducial_cl.c_lij[:, myi, myj]):
+                                # off-diagonal elements that are not computed
+                                continue
                             cl_integrand = self.fiducial_cl.getLimberRedshiftIntegrand(myi, myj)
+                            integral = self.fiducial_cl.computeClIntegral(integrand=cl_integrand * bin_mask, axis=-1)
                             if probe == p1:
-                                dc_lij[:, myi, myj] += (1 / bk) * integrate.simps(y=cl_integrand[:,  bin_mask],
-                                                                                  x=z_grid[bin_mask], axis=-1)
+                                dc_lij[:, myi, myj] += (1 / bk) * integral
                             if probe == p2:
-                                dc_lij[:, myi, myj] += (1 / bk) * integrate.simps(y=cl_integrand[:, bin_mask],
-                                                                                  x=z_grid[bin_mask], axis=-1)
+                                dc_lij[:, myi, myj] += (1 / bk) * integral
             else:
                 raise NotImplementedError(f"analytic derivative is not implemented for bias model {bias_model_name}")
 
-- 
2.43.0


From 9f559c65678e30d192d6c2e855784d06e21dccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 43/53] fix: a single-process forecast differentiates with
 respect to each parameter by its own method

---
 seyfert/main/cl_derivative_core.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/seyfert/main/cl_derivative_core.py b/seyfert/main/cl_derivative_core.py
index 42b636f..8c5bae9 100644
--- a/seyfert/main/cl_derivative_core.py
+++ b/seyfert/main/cl_derivative_core.py
@@ -23,6 +23,9 @@ def compute_cls_derivatives_wrt(dvar: "str", fid_cls: "AngularCoefficientsCollec
                                 pmm_cfg: "PowerSpectrumConfig" = None, 
                                 compute_pmm=False,
                                 fiducial_cosmology: "Cosmology" = None) -> "cl_derivative.ClDerivativeCollector":
+    if phys_pars[dvar].derivative_method != 'SteM':
+        return compute_cls_derivatives_without_variations(dvar, ws)
+
     cls_dvar = compute_cls_variations(dvar, fid_cls, ws, phys_pars, densities, forecast_config, angular_config,
                                       fiducial_cosmology=fiducial_cosmology, 
                                       pmm_cfg=pmm_cfg, compute_pmm=compute_pmm)
@@ -43,3 +46,18 @@ def compute_cls_derivatives_wrt(dvar: "str", fid_cls: "AngularCoefficientsCollec
         deriv_coll.dcl_dict[probe_key] = dcl
 
     return deriv_coll
+
+
+def compute_cls_derivatives_without_variations(dvar: "str", ws: "WorkSpace") -> "cl_derivative.ClDerivativeCollector":
+    evaluated = cl_derivative.ClDerivativeCollector(dvar=dvar, workspace=ws)
+    evaluated.setUp()
+    evaluated.evaluateDerivatives()
+
+    deriv_coll = cl_derivative.ClDerivativeCollector(dvar=dvar)
+    for probe_key, evaluated_dcl in evaluated.dcl_dict.items():
+        dcl = cl_derivative.ClDerivative(p1=evaluated_dcl.probe1, p2=evaluated_dcl.probe2)
+        dcl.l_bin_centers = evaluated_dcl.l_bin_centers
+        dcl.dc_lij = evaluated_dcl.dc_lij
+        deriv_coll.dcl_dict[probe_key] = dcl
+
+    return deriv_coll
-- 
2.43.0


From 31de1942cd4fe308d47acbdbc9ca72a9191a189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 44/53] fix: the steps over which a negative spectrum is not
 linear are left out of its derivative too

vectorizedSteM divided the deviation from the fit by the signed value, so that it never exceeded the threshold for negative values.
---
 seyfert/derivatives/differentiator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 6bfc487..19f645a 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -130,7 +130,7 @@ class SteMClDifferentiator(ClDifferentiator):
                 y_abs_diff = np.abs(yfit - y)
                 err = np.zeros(y_abs_diff.shape)
                 mask = y != 0
-                err[mask] = y_abs_diff[mask] / y[mask]
+                err[mask] = y_abs_diff[mask] / np.abs(y[mask])
                 not_linear_mask = np.any(err > 0.01, axis=0)
 
                 x = x[1:-1]
-- 
2.43.0


From edbcdd7f80409bcb0ade6266ea3fb1e2ad17636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 45/53] fix: derivatives are fitted over the three central
 points when no wider range is linear

vectorizedSteM gave up with five points, unlike STEM_derivative.
---
 seyfert/derivatives/differentiator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/derivatives/differentiator.py b/seyfert/derivatives/differentiator.py
index 19f645a..6b194ce 100644
--- a/seyfert/derivatives/differentiator.py
+++ b/seyfert/derivatives/differentiator.py
@@ -136,7 +136,7 @@ class SteMClDifferentiator(ClDifferentiator):
                 x = x[1:-1]
                 y = y[1:-1]
 
-                less_than_three_points = y.shape[0] <= 3
+                less_than_three_points = y.shape[0] < 3
                 stop = np.count_nonzero(not_linear_mask) == 0 or less_than_three_points
 
         dc_lij = slopes.reshape((n_ells, ni, nj))
-- 
2.43.0


From 6d525281c89b42ed4a863e2365a61fb4b63d064a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 46/53] fix: Fisher matrices can be computed from probes which
 share a single multipole

The array of multipoles lost its only dimension, which was taken for inconsistent domains of the derivatives.
---
 seyfert/fisher/fisher_evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seyfert/fisher/fisher_evaluator.py b/seyfert/fisher/fisher_evaluator.py
index de5a895..5fe2284 100644
--- a/seyfert/fisher/fisher_evaluator.py
+++ b/seyfert/fisher/fisher_evaluator.py
@@ -228,7 +228,9 @@ class FisherEvaluator:
             ells_list.append(ells)
 
         ells_list = np.stack(ells_list)
-        unique_ells = np.unique(ells_list, axis=0).squeeze()
+        unique_ells = np.unique(ells_list, axis=0)
+        if unique_ells.shape[0] == 1:
+            unique_ells = unique_ells[0]
 
         return unique_ells, vec_dcl_dict
 
-- 
2.43.0


From 0c997d208980313cb71b12fa41adcf6a046d29aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:25 +0000
Subject: [PATCH 47/53] fix: compute_delta_cls and create_h5density leave no
 half written output file

---
 bin/compute_delta_cls | 4 +++-
 bin/create_h5density  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bin/compute_delta_cls b/bin/compute_delta_cls
index c96b010..9641234 100755
--- a/bin/compute_delta_cls
+++ b/bin/compute_delta_cls
@@ -6,6 +6,7 @@ from pathlib import Path
 from seyfert.utils.workspace import WorkSpace
 from seyfert.main.cl_core import compute_delta_cls
 from seyfert.utils.general_utils import configure_logger
+from seyfert.utils import filesystem_utils as fsu
 
 logger = logging.getLogger()
 configure_logger(logger)
@@ -22,7 +23,8 @@ def program_options() -> "argparse.ArgumentParser":
 def main(args):
     ws = WorkSpace(args.rundir)
     delta_cls = compute_delta_cls(ws)
-    delta_cls.saveToHDF5(ws.delta_cls_file)
+    with fsu.replace_when_complete(ws.delta_cls_file) as tmp_file:
+        delta_cls.saveToHDF5(tmp_file)
 
 
 if __name__ == '__main__':
diff --git a/bin/create_h5density b/bin/create_h5density
index c6d22a9..ddb726b 100755
--- a/bin/create_h5density
+++ b/bin/create_h5density
@@ -6,6 +6,7 @@ import numpy as np
 
 from seyfert import PROBES_LONG_NAMES
 from seyfert.cosmology.redshift_density import RedshiftDensity
+from seyfert.utils import filesystem_utils as fsu
 
 
 default_instrument_responses = {
@@ -83,7 +84,8 @@ def main(args: "argparse.Namespace"):
         d.instrument_response = default_instrument_responses[instr_resp_str]
 
     print(f'Saving redshift density to HDF5 file {outfile}')
-    d.saveToHDF5(outfile)
+    with fsu.replace_when_complete(outfile) as tmp_file:
+        d.saveToHDF5(tmp_file)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 57bfcca0f1f09c9a5c5deb891a3e20357e68bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:37 +0000
Subject: [PATCH 48/53] fix: angular spectra without a kernel can be saved and
 read back

---
 seyfert/cosmology/c_ells.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seyfert/cosmology/c_ells.py b/seyfert/cosmology/c_ells.py
index f4b8edb..206b884 100644
--- a/seyfert/cosmology/c_ells.py
+++ b/seyfert/cosmology/c_ells.py
@@ -110,12 +110,12 @@ class AngularCoefficient:
     @property
     def weight1(self) -> "wfs.WeightFunction":
         """Reference to first weight function making up the kernel"""
-        return self.kernel.weight1
+        return self.kernel.weight1 if self.kernel is not None else None
 
     @property
     def weight2(self) -> "wfs.WeightFunction":
         """Reference to second weight function making up the kernel"""
-        return self.kernel.weight2
+        return self.kernel.weight2 if self.kernel is not None else None
 
     @property
     def z_array(self) -> "np.ndarray":
@@ -518,9 +518,9 @@ class H5ClCollection(AbstractH5FileIO):
             h5cl = H5Cl(probe1=p1, probe2=p2)
             cl_obj = h5cl.load(file=self.file_path, root=f'{cls_grp_path}')
             cl_obj: "AngularCoefficient"
-            if p1 not in obj.weight_dict:
+            if p1 not in obj.weight_dict and cl_obj.weight1 is not None:
                 obj.weight_dict[p1] = cl_obj.weight1
-            if p2 not in obj.weight_dict:
+            if p2 not in obj.weight_dict and cl_obj.weight2 is not None:
                 obj.weight_dict[p2] = cl_obj.weight2
 
             obj.cl_dict[cl_kind] = cl_obj
-- 
2.43.0


From 7a23285065ac71d2530417446f8290f0a36e5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 49/53] fix: external spectra and Fisher matrices with
 unreadable rows are refused, rows may be in any order

---
 seyfert/file_io/ext_input.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 516abdd..81c4ea1 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -144,7 +144,7 @@ class ISTInputReader:
             cl_coll.saveToHDF5(out_file)
 
         if len(ell_shapes) != 1:
-            raise ValueError(f'Too many ell shapes: {" ".join(ell_shapes)}')
+            raise ValueError(f'Too many ell shapes: {" ".join(map(str, ell_shapes))}')
 
     def readSCameraClDerivatives(self, src_dir: "Union[str, Path]") -> "Dict":
         src_dir = Path(src_dir)
@@ -264,14 +264,16 @@ class ISTInputReader:
 
     @staticmethod
     def readISTPowerSpectrumTextFile(file: "Union[str, Path]") -> "Tuple[np.ndarray]":
-        data = pd.read_table(file, delim_whitespace=True, names=['z', 'k', 'p_lin', 'p_nonlin'])
+        data = pd.read_table(file, delim_whitespace=True, names=['z', 'k', 'p_lin', 'p_nonlin'],
+                             dtype=float)
+        if data.isnull().to_numpy().any():
+            raise ValueError(f'power spectrum file {file} has incomplete rows')
+        # put z and k axes in increasing order, whatever the order of the rows
+        data = data.sort_values(['z', 'k'])
         z = np.unique(data['z'].to_numpy())
         k = np.unique(data['k'].to_numpy())
         p_lin_zk = data['p_lin'].to_numpy().reshape(len(z), len(k))
         p_nonlin_zk = data['p_nonlin'].to_numpy().reshape(len(z), len(k))
-        # put z axis in increasing order...
-        p_lin_zk = np.flip(p_lin_zk, axis=0)
-        p_nonlin_zk = np.flip(p_nonlin_zk, axis=0)
 
         return z, k, p_lin_zk, p_nonlin_zk
 
@@ -288,7 +290,9 @@ class ISTInputReader:
             logger.warning(f"cannot retrieve fisher name from {filename}")
             name = None
 
-        df = pd.read_table(file, delim_whitespace=True)
+        df = pd.read_table(file, delim_whitespace=True).astype(float)
+        if df.isnull().to_numpy().any():
+            raise ValueError(f'Fisher matrix file {file} has incomplete rows')
         name_dict = dict(zip(df.columns, df.columns))
         name_dict["Omegam"] = "Omm"
         name_dict["Omegab"] = "Omb"
-- 
2.43.0


From 2bef6a937f8cef9123702ec44364f535e352acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:25 +0000
Subject: [PATCH 50/53] fix: a failed conversion of external spectra leaves no
 trace in the next one

---
 seyfert/file_io/ext_input.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 81c4ea1..6ac1b0f 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -83,6 +83,8 @@ class ISTInputReader:
         for f in ist_pmm_files:
             h = self.pars.cosmological_parameters['h']
             dvar, step = self.parseISTCosmoString(f.name)
+            # a conversion that failed may have left parameters away from their fiducial values
+            self.pars.resetPhysicalParametersToFiducial()
             self.pars.updatePhysicalParametersForDvarStep(dvar=dvar, step=step)
             num_eps = self.pars.stem_dict[step] if step in self.pars.stem_dict else 0
             logger.info(f'converting file {f.name}: dvar {dvar}, step {step}, num_eps {num_eps}')
-- 
2.43.0


From a15298c16399df558ece9975f972c5af33403aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:28 +0000
Subject: [PATCH 51/53] fix: external angular spectra of a single multipole can
 be read

---
 seyfert/file_io/ext_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 6ac1b0f..259cf27 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -233,7 +233,7 @@ class ISTInputReader:
 
         i, j, shape_ij = self.getIndicesFromSCameraClFileHeader(hdr, symmetric)
 
-        data = np.loadtxt(file)
+        data = np.loadtxt(file, ndmin=2)
         ells = data[:, 0]
         cl_data = data[:, 1:]
         clij = np.zeros((len(ells), *shape_ij))
-- 
2.43.0


From 90c2297d4b260471f8344b5503be7d089e803124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:19 +0000
Subject: [PATCH 52/53] fix: a failed conversion of external spectra leaves no
 half written file

---
 seyfert/file_io/ext_input.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 259cf27..4a82111 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -112,7 +112,8 @@ class ISTInputReader:
             dst_dirpath = dst_dir / dst_dirname
             dst_dirpath.mkdir()
             dst_file = dst_dirpath / 'p_mm.h5'
-            cosmo.saveToHDF5(dst_file)
+            with fsu.replace_when_complete(dst_file) as tmp_file:
+                cosmo.saveToHDF5(tmp_file)
             self.pars.resetPhysicalParametersToFiducial()
 
         logger.info('Done')
@@ -143,7 +144,8 @@ class ISTInputReader:
             dst_dirpath = dst_dir / fsu.get_cosmology_jobdir_name(dvar, step)
             dst_dirpath.mkdir(parents=True)
             out_file = dst_dirpath / 'cl_PhotometricGalaxy_SpectroscopicGalaxy.h5'
-            cl_coll.saveToHDF5(out_file)
+            with fsu.replace_when_complete(out_file) as tmp_file:
+                cl_coll.saveToHDF5(tmp_file)
 
         if len(ell_shapes) != 1:
             raise ValueError(f'Too many ell shapes: {" ".join(map(str, ell_shapes))}')
-- 
2.43.0


From b53aae9089af01b83a44d3058cd0ac2b44beb839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:20 +0000
Subject: [PATCH 53/53] fix: an external power spectrum file without rows is
 refused

---
 seyfert/file_io/ext_input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seyfert/file_io/ext_input.py b/seyfert/file_io/ext_input.py
index 4a82111..8166bbb 100644
--- a/seyfert/file_io/ext_input.py
+++ b/seyfert/file_io/ext_input.py
@@ -270,7 +270,7 @@ class ISTInputReader:
     def readISTPowerSpectrumTextFile(file: "Union[str, Path]") -> "Tuple[np.ndarray]":
         data = pd.read_table(file, delim_whitespace=True, names=['z', 'k', 'p_lin', 'p_nonlin'],
                              dtype=float)
-        if data.isnull().to_numpy().any():
+        if data.empty or data.isnull().to_numpy().any():
             raise ValueError(f'power spectrum file {file} has incomplete rows')
         # put z and k axes in increasing order, whatever the order of the rows
         data = data.sort_values(['z', 'k'])
-- 
2.43.0

