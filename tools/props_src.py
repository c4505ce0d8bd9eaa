SIM = ("Seeded search over simulated executions of the real code; a clean batch is evidence, not proof. Trusts the "
       "simulator's model of LSF, the shell, the clock and the file system, and the oracle. ")

prop("C01", "Waiting for batch jobs ends when, and only when, they are all finished",
     "Waiting for a set of submitted batch jobs reports completion only after the batch system has reported every one of "
     "them finished successfully, or the maximum wait has elapsed. It reports a failure as soon as a status answer shows an "
     "awaited job failed, and at no other time. It keeps asking at the configured pace, survives failing, empty, partial or "
     "noisy status answers, and gives up at the maximum wait.",
     ["schedules", "fault_sequences", "inputs"],
     "every set of jobs, every order and timing of their state changes, every visibility delay, user name and job number, "
     "every sequence of failed, empty, partial or noisy status answers, every polling interval and maximum wait",
     "no test exercises the batch interface: it needs a batch system and hours of waiting",
     ["seyfert/main/bsub_utils.py"],
     [("wait loop over parsed status answers", "seyfert/main/bsub_utils.py: BsubInterface.waitForJobsToComplete"),
      ("status answer parsing", "seyfert/main/bsub_utils.py: BsubInterface.parseBjobsOutput/getBjobsTable"),
      ("submission acknowledgement parsing", "seyfert/main/bsub_utils.py: BsubInterface.getJobID")],
     ["return or exception of the wait call, relative to the status answers it was given", "times of status queries"],
     note=SIM + "Every status answer the wait loop sees is recorded and the verdict is recomputed from those answers.")

prop("C02", "Batch runs do every piece of work once, stage by stage, and stop on failure",
     "In a batch forecast every piece of work (spectra per parameter step, derivative per parameter, Fisher matrix per data "
     "vector, final results) is run exactly once, and no stage starts before all work of the previous stages has finished "
     "successfully. If a submission is rejected or a job fails or is killed, the submitter ends with a non-zero status and "
     "submits nothing more once the failure has been reported to it. If nothing fails it ends with status zero, after all the "
     "work is done and within a bounded time of the last job.",
     ["schedules", "fault_sequences", "configurations"],
     "every queueing and running time of every job, every single or multiple job failure, kill or submission rejection, "
     "every subset of stages and set of free parameters, with status answers failing in between",
     "the orchestration code has no tests; it needs a batch system with dozens of concurrent jobs",
     ["seyfert/main/task_runners.py", "seyfert/main/bsub_utils.py", "bin/job_submitter", "bin/evaluate_final_results"],
     [("stage loop", "seyfert/main/task_runners.py: ForecastRunner.run"),
      ("per-stage submission and wait", "seyfert/main/task_runners.py: TaskRunner.submitBatchJobs, FisherTaskRunner.submitBatchJobs"),
      ("job directories and scripts", "seyfert/main/task_runners.py: *TaskRunner.createJobDirStructure, writeJobShellScript"),
      ("results submission", "bin/evaluate_final_results: execute_in_batch")],
     ["the batch system's job history", "which work each job performs and which inputs exist when it starts",
      "exit status of job_submitter"],
     note=SIM + "Compute programs are stand-ins that check that their inputs exist and copy golden outputs; C05 runs the real ones.")

prop("C03", "Interactive runs execute work one at a time, in order, and stop on failure",
     "An interactive forecast runs its pieces of work one at a time, stage by stage, each exactly once. As soon as one fails - "
     "by exit status or by error output - or the submitter itself cannot write a file, nothing more is started and "
     "the submitter ends with a non-zero status. A run in which nothing fails does all the work and ends with status zero.",
     ["schedules", "fault_sequences", "configurations"],
     "every failing piece of work and way of failing (silent exit status, traceback, killed, failing after writing its "
     "output), every failed file write of the submitter, every subset of stages and set of free parameters",
     "the orchestration code has no tests, and none injects a failing job or a failing write",
     ["seyfert/main/task_runners.py", "bin/job_submitter"],
     [("command execution and failure detection", "seyfert/main/task_runners.py: TaskRunner.executeCommand"),
      ("stage loop", "seyfert/main/task_runners.py: ForecastRunner.run, TaskRunner.executeJobsInteractively"),
      ("final results step", "seyfert/main/task_runners.py: ForecastRunner.evaluateFinalResults")],
     ["sequence of commands started and ended", "exit status of job_submitter"],
     note=SIM + "Compute programs are stand-ins that check that their inputs exist and copy golden outputs.")

prop("C04", "An interrupted forecast can be started again and gives the same results",
     "A forecast job that dies or fails at any moment (killed, disk full, I/O error) can be started again in its run directory, "
     "any number of times, and then ends successfully with the same spectra, derivatives, Fisher matrices and final results as "
     "a forecast that was never interrupted. Outputs that were already complete are neither lost nor computed again. Status "
     "zero is never reported while a result is missing or differs.",
     ["crash_points", "fault_sequences"],
     "every file operation as the point of death or failure, every number of interruptions, every time between attempts",
     "a whole forecast takes no part in the tests, and no test kills one or fails its disk",
     ["bin/run_seyfert", "seyfert/main/seyfert_core.py", "seyfert/file_io/hdf5_io.py"],
     [("reuse of what is in the run directory", "seyfert/main/seyfert_core.py: compute_densities/compute_fiducial_cls/compute_cl_derivatives/compute_fishers"),
      ("temporary names while writing", "seyfert/utils/filesystem_utils.py: replace_when_complete"),
      ("run directory layout", "seyfert/utils/workspace.py: WorkSpace")],
     ["exit status of each attempt", "content of every result in the run directory"],
     note=SIM + "Process death is modelled, power loss is not.")

prop("C05", "Output files appear complete or not at all, and a failed step can be repeated",
     "An output of a workflow step (spectra, derivatives, Fisher matrices, final results in every format, densities, "
     "covariances, run metadata) is under its final name complete or not at all, whatever operation the step dies or fails at. "
     "A step never reports success without its outputs and never destroys an earlier complete output it did not "
     "replace. After a failure the same step can be repeated and gives the same outputs.",
     ["crash_points", "fault_sequences", "inputs"],
     "every program of the workflow, first run or repeated over earlier outputs, every file operation as the point of death or "
     "failure, one or two failed attempts",
     "no test makes a write fail or kills a process",
     ["bin/compute_cls", "bin/compute_derivatives", "bin/compute_fisher_matrix", "bin/evaluate_final_results",
      "bin/job_submitter", "seyfert/file_io/hdf5_io.py", "seyfert/utils/filesystem_utils.py", "seyfert/utils/table_utils.py"],
     [("temporary names while writing", "seyfert/utils/filesystem_utils.py: replace_when_complete"),
      ("object files", "seyfert/file_io/hdf5_io.py: AbstractH5FileIO.save"),
      ("result tables", "seyfert/utils/table_utils.py")],
     ["the files under output names after each attempt", "exit status"],
     note=SIM + "Process death is modelled, power loss is not. The per-multipole Fisher store may grow entry by entry.")

prop("C06", "Stored objects are read back exactly as they were saved",
     "Loading a stored object (densities, bias, weights, spectra, covariances, derivatives, Fisher matrices, cosmology, "
     "parameters) gives back exactly what was saved: values, names, labels, order and optional parts. A save that fails or is "
     "refused says so and leaves what was stored before as it was, and nothing that was not completely saved is ever loaded. "
     "After any failed call the same process can go on saving and loading.",
     ["inputs", "crash_points", "fault_sequences", "histories"],
     "every object of every stored kind, every sequence of saves and loads by successive processes on shared files, every disk "
     "error, refused call and process death in between",
     "tests save and load one sample object each, in a fresh file, without failures",
     ["seyfert/file_io/hdf5_io.py", "seyfert/cosmology/redshift_density.py", "seyfert/cosmology/bias.py",
      "seyfert/cosmology/weight_functions.py", "seyfert/cosmology/c_ells.py", "seyfert/cosmology/cosmology.py",
      "seyfert/cosmology/parameter.py", "seyfert/fisher/delta_cl.py", "seyfert/fisher/fisher_matrix.py",
      "seyfert/derivatives/cl_derivative.py"],
     [("HDF5 reading and writing", "seyfert/file_io/hdf5_io.py: AbstractH5FileIO"),
      ("parameter files", "seyfert/cosmology/parameter.py: PhysicalParametersCollection.writeJSON/readJSON")],
     ["loaded objects, attribute by attribute", "exceptions of save and load calls"],
     note=SIM + "Objects are random but consistent; HDF5's own caching is not broken into.")

prop("C07", "A run changes only what it was asked to, in its own run directory",
     "Starting or continuing a forecast changes nothing but the outputs of the requested stages, in its own run directory; "
     "directories linked from another run are only read. Existing Fisher matrices and results are replaced exactly when "
     "overwriting is requested, varied spectra are removed exactly when keeping them is not requested and the run was executed "
     "and succeeded, and a run that is only prepared keeps what it prepared. This holds whatever fails and whatever other runs "
     "are active at the same time.",
     ["configurations", "histories", "fault_sequences", "schedules"],
     "every sequence of runs over shared, linked and existing run directories, every combination of stages, modes and flags, "
     "every failing job, disk error and death of the submitter, concurrent submitters",
     "no test runs the submitter, let alone twice over the same directories",
     ["bin/job_submitter", "seyfert/main/task_runners.py", "seyfert/utils/workspace.py"],
     [("clearing of outputs", "seyfert/main/task_runners.py: FisherTaskRunner.clearOutput, ForecastRunner.evaluateFinalResults"),
      ("links to other runs", "seyfert/utils/workspace.py: WorkSpace.symlinkToExternalDirs"),
      ("removal of varied spectra", "bin/job_submitter: main")],
     ["the whole directory tree before and after each round of runs"],
     note=SIM + "Compute programs are stand-ins that write where their arguments say.")

prop("C08", "A forecast has its own run directory that records exactly its inputs",
     "Every new forecast gets a run directory of its own or is refused, however the clock behaves and whatever else is started. "
     "Before any work starts, that directory records exactly the configuration files, input data directory and parameters "
     "of the forecast, whatever the files are called, and the run metadata; later edits of the sources and later runs do not change "
     "them. The metadata give the run's id, version, user, linked directories and, at its end, its true start, end and duration.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "every set of forecasts started together or in sequence, equal and different ids and file names, a wall clock that stands "
     "still or goes back, edits of the source files, disk errors and death while recording, runs of any length",
     "tests neither start two runs nor control the clock, and never look at the recorded inputs of a run",
     ["seyfert/utils/workspace.py", "seyfert/main/task_runners.py", "seyfert/main/seyfert_core.py", "bin/run_seyfert",
      "seyfert/utils/formatters.py"],
     [("copies of the inputs", "seyfert/utils/workspace.py: WorkSpace.createInputFilesDir"),
      ("name of the run directory", "seyfert/main/task_runners.py: ForecastRunner.createRundir; seyfert/main/seyfert_core.py: "
       "execute_interactively/submit_batch_jobs"),
      ("metadata", "seyfert/main/task_runners.py: ForecastRunner.populateInitialMetadata/addTimingDataToMetadata")],
     ["recorded files of every run directory when work starts and at the end of every round"],
     note=SIM + "The clock does not step during a run whose duration is judged.")

prop("C09", "The same forecast gives the same results however it is executed",
     "Repeating a forecast with the same inputs gives the same Fisher matrices and errors, whether it runs in one process, as a "
     "batch job or as many interactive or batch jobs. The order and timing of jobs, the order in which directories list their "
     "files, the process's string hash seed and the order of parameters in the configuration make no difference. Intermediate "
     "outputs (spectra, derivatives) agree too.",
     ["schedules", "configurations", "inputs"],
     "every execution mode, job order and timing, listing order, hash seed, parameter order and subset of stages",
     "tests compare fixed stages with stored numbers, in one process, with one order of everything",
     ["bin/job_submitter", "bin/run_seyfert", "seyfert/main/seyfert_core.py", "seyfert/derivatives/differentiator.py",
      "seyfert/derivatives/cl_derivative.py", "seyfert/fisher/fisher_evaluator.py", "seyfert/fisher/fisher_matrix.py",
      "seyfert/fisher/final_results_core.py", "bin/compute_cls", "bin/compute_derivatives", "bin/compute_fisher_matrix"],
     [("single process forecast", "seyfert/main/seyfert_core.py"),
      ("split forecast", "bin/job_submitter, bin/compute_cls, bin/compute_derivatives, bin/compute_fisher_matrix"),
      ("ordering of matrices and variations", "seyfert/fisher/fisher_matrix.py, seyfert/derivatives/cl_derivative.py")],
     ["numbers in the output files of every run"],
     note=SIM + "Real numerical code on tiny inputs; relative tolerance 1e-9 of the largest entry.")

prop("C13", "Every stored number of a forecast is the one its inputs imply",
     "Whenever a forecast reports success, its densities, angular power spectra, covariances, derivatives, Fisher matrices and "
     "marginalized errors are those that follow from the definitions: Limber integrals of the given power spectra, slopes over "
     "the widest range of steps that is linear to 1%, Gaussian covariances, sums over the multipoles the probes share and those "
     "each has for itself, and combinations marginalized before or after or with nuisance parameters fixed. This holds for every "
     "configuration of parameters, bins, bias models, multipoles, noise and integration, and also after a step that failed was "
     "repeated.",
     ["configurations", "inputs", "fault_sequences"],
     "every configuration and input data the programs accept, every stored intermediate a stage can be given, one execution "
     "mode or another, with and without disk errors on the way",
     "tests compare a few fixed stages with stored numbers of one configuration",
     ["seyfert/cosmology/c_ells.py", "seyfert/cosmology/weight_functions.py", "seyfert/cosmology/redshift_density.py",
      "seyfert/cosmology/bias.py", "seyfert/derivatives/differentiator.py", "seyfert/fisher/delta_cl.py",
      "seyfert/fisher/fisher_evaluator.py", "seyfert/fisher/fisher_matrix.py", "seyfert/fisher/final_results_core.py",
      "seyfert/fisher/fisher_analysis.py", "seyfert/config/forecast_config.py", "bin/run_seyfert", "bin/job_submitter"],
     [("angular power spectra", "seyfert/cosmology/c_ells.py: AngularCoefficient"),
      ("derivatives over steps", "seyfert/derivatives/differentiator.py: SteMClDifferentiator"),
      ("Fisher matrices over shared multipoles", "seyfert/fisher/fisher_evaluator.py: FisherEvaluator"),
      ("final results", "seyfert/fisher/final_results_core.py")],
     ["numbers in every output file"],
     note=SIM + "The model recomputes each stage from the stored outputs of the stage before; relative tolerance 1e-6 (derivatives "
     "and Fisher matrices 1e-5, densities convolved with the instrument response 2e-4).")

prop("C14", "An orchestration makes each run of its grid once and says which ones failed",
     "Orchestrating a grid of forecasts starts exactly one run for each combination of configurations and power spectra, each "
     "with its own configuration, data and flags, whatever happens to the others. Every existing run directory that is given is "
     "continued once, no other run directory is touched or listed, and an ambiguous or missing configuration is refused. When "
     "runs of the grid fail the others are still made, and every one that failed is reported.",
     ["configurations", "fault_sequences", "schedules"],
     "every grid, every mode (new runs, existing runs, external directories), every failing, killed or refused submitter or job",
     "no test runs the orchestration",
     ["bin/orchestrate_run", "bin/job_submitter"],
     [("grid of runs", "bin/orchestrate_run: main"), ("list of run directories", "bin/orchestrate_run"),
      ("report of the failed runs", "seyfert/main/orchestration.py: do_new_seyfert_run")],
     ["submitters and jobs started, with their arguments and run directories", "listed run directories", "exit status and output"],
     note=SIM + "Compute programs are stand-ins; two runs of one id do not start in the same second.")

prop("C15", "Options given to a submitter, or in its ini file, reach every job it submits",
     "Every job gets what the user asked the submitter for: queue, memory, cores, verbosity, overwriting, stages and selections. "
     "It does not matter whether an option was given on the command line or in the ini file; options that were not given have "
     "their documented defaults, and an invalid execution mode or number of cores is refused before anything is started. Each "
     "submitted program accepts the command it is given and understands it as meant.",
     ["inputs", "configurations", "fault_sequences"],
     "every combination of options of the submitters, on the command line or in an ini file, for new and existing runs",
     "no test starts a submitter or parses the commands it generates",
     ["bin/job_submitter", "bin/run_seyfert", "bin/evaluate_final_results", "seyfert/main/task_runners.py",
      "seyfert/main/bsub_utils.py", "seyfert/main/seyfert_core.py", "seyfert/config/cmd_line.py", "seyfert/utils/general_utils.py"],
     [("ini file", "bin/job_submitter"), ("generation of commands", "seyfert/main/task_runners.py"),
      ("batch options", "seyfert/main/bsub_utils.py")],
     ["commands and batch options of every submitted job, parsed by the real programs' parsers", "exit status of the submitter"],
     note=SIM + "Paths have no spaces.")

prop("C17", "Collected results are exactly the results of each run, tagged with its options",
     "Collecting results gathers, for every run directory found, exactly the errors and Fisher matrices in its results directory, "
     "each tagged with the options of that very run, in whatever order the directories and options are listed. Runs without "
     "complete results are reported and the collection fails; the runs themselves are not changed. A collection that fails or "
     "is killed leaves every collected table either as it was or complete.",
     ["inputs", "fault_sequences", "schedules"],
     "every set of run directories with any options, parameters and values, any other files beside them, incomplete or "
     "concurrently re-evaluated results, disk errors and death of the collection at any point",
     "the tests never collect results, let alone from several runs or with failing writes",
     ["bin/collect_results", "seyfert/fisher/results_collector.py", "seyfert/utils/dir_explorer.py",
      "seyfert/fisher/fisher_analysis.py", "seyfert/utils/table_utils.py"],
     [("reading and tagging of results", "seyfert/fisher/results_collector.py: ResultsCollector"),
      ("choice of directories", "seyfert/utils/dir_explorer.py: DirectoryExplorer"),
      ("writing of tables", "seyfert/utils/table_utils.py: write_dataframe_table")],
     ["collected tables and pickled analyses", "results in the run directories", "exit status"],
     note=SIM + "Run directories have one of the standard names; the expected rows are computed from the runs' own result files.")

prop("C12", "Each stored power spectrum is the solver's for exactly its step's cosmology",
     "Running the power-spectrum stage leaves, for the fiducial cosmology and for every configured step of every free cosmological "
     "parameter, one stored spectrum: what the Boltzmann solver gives on the configured grids for the fiducial parameters with only "
     "that parameter changed by that step (and the closure parameter, in a flat universe), with the requested sigma8 and the "
     "background functions of the same cosmology. A solver that fails or does not converge, a dying job or a failing disk makes the "
     "stage fail within bounded time; it leaves no partial or wrong spectrum, and repeating the stage completes it.",
     ["inputs", "configurations", "fault_sequences"],
     "every set of free parameters, step sizes, fiducial values, grids and solver settings, flat or curved, and every failure of the "
     "solver, of a job or of the disk at any point, with interactive or batch jobs",
     "no test runs the power-spectrum stage, and none calls a solver for a step of a parameter",
     ["bin/compute_pmm", "bin/job_submitter", "seyfert/cosmology/boltzmann_solver.py", "seyfert/cosmology/power_spectrum.py",
      "seyfert/cosmology/cosmology.py", "seyfert/cosmology/parameter.py", "seyfert/utils/filesystem_utils.py"],
     [("computation of one spectrum", "bin/compute_pmm"), ("solver drivers", "seyfert/cosmology/boltzmann_solver.py"),
      ("values of each step", "seyfert/cosmology/parameter.py: PhysicalParametersCollection")],
     ["stored spectra, grids, parameters and background functions", "exit status of the stage", "simulated time"],
     note=SIM + "The solvers' own numbers are taken as right: camb and classy are closed-form stand-ins with the parts of their "
     "interfaces that are used.")

prop("C10", "Reports of batch jobs say how each job ended",
     "The report of a run gives for every job directory how its last batch job ended: as failed if it exited with an error, was killed "
     "or wrote errors, as successful only if the batch system recorded its completion and its output is there, as not executed if no "
     "job ended there; a task or a run is successful only if all its jobs are and there is one. Job ids, hosts, execution times, "
     "sizes, counts and resource tables are those of the jobs. A report can be made at any moment, whatever the log files contain or "
     "lack, and changes nothing else; the report on many runs claims their success only if it found some and none failed.",
     ["histories", "fault_sequences", "inputs"],
     "every history of batch jobs in the directories of a run (failed, killed, repeated, still running, silent, running for days), every "
     "loss or truncation of their log files, and every moment at which the report is made",
     "no test makes a report, and none has log files of a batch system",
     ["bin/do_jobs_report", "bin/report_batch_jobs", "seyfert/main/report_maker.py", "seyfert/main/bsub_utils.py",
      "seyfert/main/task_runners.py"],
     [("status of one job", "seyfert/main/report_maker.py: JobReport"), ("tasks and runs", "seyfert/main/report_maker.py: RunReportMaker"),
      ("resource usage table", "seyfert/main/bsub_utils.py: getResourceUsageTable")],
     ["report and summary files, what the programs print", "the batch system's own record of each job", "files of the run directory"],
     note=SIM + "Fisher and result jobs have no job directories: their part of a report is the resource usage table.")

prop("C16", "Missing or damaged inputs are reported, never silently replaced",
     "A program of the workflow, or a whole forecast, whose input files are missing, truncated, empty, of another format, unreadable "
     "or lack an entry either ends with a failure or gives exactly the results of the intact files: a value that cannot be read is "
     "never replaced by a default or left out of the results. What a failed program leaves behind is right, and once the files are "
     "restored it can be repeated and gives the same results as if nothing had happened.",
     ["inputs", "fault_sequences"],
     "every file read by every program of the workflow, every way of damaging one or two of them, every entry of structured files, "
     "and every moment at which reading fails",
     "tests read intact inputs; none damages an input of a program or withdraws one while it is used",
     ["bin/run_seyfert", "bin/compute_cls", "bin/compute_derivatives", "bin/compute_fisher_matrix", "bin/evaluate_final_results",
      "seyfert/config/forecast_config.py", "seyfert/config/main_config.py", "seyfert/file_io/hdf5_io.py", "seyfert/utils/workspace.py",
      "seyfert/fisher/fisher_evaluator.py", "seyfert/fisher/final_results_core.py"],
     [("configuration", "seyfert/config/forecast_config.py: ForecastConfig.loadConfiguration"),
      ("stored objects", "seyfert/file_io/hdf5_io.py: AbstractH5FileIO.load"),
      ("inputs of a run", "seyfert/utils/workspace.py: WorkSpace")],
     ["exit status", "output files compared with those of an intact run"],
     note=SIM + "Damage that leaves a complete, consistent file with other values is another input; a probe left out of the configuration, "
     "a base Fisher matrix that is not there when results are evaluated, and the copy of the densities kept with the spectra are exempt.")

prop("C18", "Converted external inputs are the source's numbers, each under its own step",
     "Converting a directory of external power or angular spectra, or reading external derivatives and Fisher matrices, gives for each "
     "file exactly its numbers in the program's units, axis order, names and labels, with the parameters of that file's own step and "
     "no trace of another's, in whatever order files and rows are listed and whatever the same reader converted before. A missing, "
     "damaged or unreadable source, a full disk or a dying process makes the conversion fail, and what is not completely stored is "
     "never taken for a result. Each conversion has a directory of its own, and the source is not changed.",
     ["inputs", "histories", "fault_sequences"],
     "every source (parameters, steps, grids, order of files and rows, header styles), every history of conversions by one reader or by "
     "several at once, every way of damaging a source file, and every moment at which reading or writing fails",
     "tests parse names and single files; none converts a directory, after a failure, in another order, or with a damaged file",
     ["seyfert/file_io/ext_input.py", "seyfert/fisher/fisher_matrix.py", "seyfert/cosmology/cosmology.py", "seyfert/cosmology/c_ells.py",
      "seyfert/cosmology/power_spectrum.py", "seyfert/cosmology/parameter.py"],
     [("power spectra", "seyfert/file_io/ext_input.py: ISTInputReader.convertISTPowerSpectra"),
      ("angular spectra", "seyfert/file_io/ext_input.py: ISTInputReader.convertSCameraDerivativesInput"),
      ("derivatives", "seyfert/file_io/ext_input.py: ISTInputReader.readSCameraClDerivatives"),
      ("Fisher matrices", "seyfert/fisher/fisher_matrix.py: FisherMatrix.from_ISTfile")],
     ["stored spectra read back by another process", "returned derivatives and matrices", "exceptions", "the source directory"],
     note=SIM + "A row whose values are other numbers is another source; conversions of one name started in the same second may refuse "
     "each other.")
