prop("C21", "A run writes its output, leaves other files alone and lets go of what it used",
     """A run, a task or a command changes nothing in the file system but the output, log and plot files it was asked for, where it was asked to put them:
     inputs, neighbours and the files of a refused run stay as they were. When it has ended no file, process or temporary file of it is left open
     or behind.""",
     ["inputs", "histories"], "every run, task and command on any payload and target list, with files beside its inputs and outputs",
     "Tests write into the source tree and look only at the files they expect.",
     [E + "exorad.py", E + "output/hdf5/hdf5.py", E + "utils/plotter.py", E + "log/__init__.py"],
     [("pipeline output", E + "exorad.py:standard_pipeline"), ("HDF5 files", E + "output/hdf5/hdf5.py:HDF5Output"), ("saved plots", E + "utils/plotter.py:Plotter.save_fig")],
     ["file events of the process (audit hook)", "trees of files before and after", "open descriptors"],
     technique="audit-hook monitor of file events, with differential snapshots of the trees of files", note="Caches of matplotlib and astropy are set apart.")

prop("C22", "Plots show the targets asked for, each drawn from its own table",
     """Plotting an output draws exactly the targets selected by number, range, list or name, and each figure, named after its target, shows the signals,
     noises, bands and efficiencies of that target's table and payload, told apart by its legend. No figure stays open, and selections that cannot be met are refused without figures.""",
     ["inputs"], "every output file, every form of target selection and every table of results",
     "Tests draw one table and look at no figure.",
     [E + "utils/plotter.py", E + "exorad.py"], [("selection of targets", E + "utils/plotter.py:main"), ("curves", E + "utils/plotter.py:Plotter")],
     ["figures as they are saved: titles, curves, labels"], technique="figures recorded as drawn, compared with the tables they are named after",
     note="What matplotlib was given is what is judged, not pixels.")

prop("C23", "Tasks take exactly their parameters and keep nothing between calls",
     """A task accepts the parameters it declares, gives the declared default to those left out, and refuses all others; what one call was given, did, or
     failed at never shows in the next one or in another instance. Tasks made of others give the same results as their steps run one by one.""",
     ["histories"], "every sequence of calls, refused and failing ones included, on any number of instances of shipped or user-made tasks",
     "Tests call each task once with the same parameters.",
     [E + "tasks/task.py", E + "tasks/targetHandler.py", E + "tasks/instrumentHandler.py", E + "tasks/foregroundHandler.py", E + "tasks/noiseHandler.py"],
     [("parameters", E + "tasks/task.py:Task"), ("composed tasks", E + "tasks/targetHandler.py:ObserveTarget")], ["return values and errors of tasks"],
     technique="model-based monitor over random call histories; composed tasks compared bit by bit with their steps", note="Tasks used from one thread.")

prop("C24", "Neither network nor checkout keeps the package from working",
     """The package can be imported and used whatever the network answers, or without any, and from any kind of checkout or none. Runs ask the network
     nothing. When a newer version is published, and the answer can be read, the user is told its number; otherwise no newer version is announced.""",
     ["fault_sequences", "configurations"], "every failure of the connection, status and body of the answer, list of published versions, and state of the checkout",
     "Tests run in one checkout with whatever network is there.",
     [E + "__init__.py", E + "utils/version_control.py", E + "__version__.py"],
     [("version check", E + "utils/version_control.py:VersionControl"), ("import", E + "__init__.py")], ["fresh imports", "requests sent", "messages logged"],
     technique="fault injection at sockets and HTTP transport, with monitors on imports, requests and messages", note="HTTP goes through requests.")

prop("C25", "Descriptions that cannot be used are refused, with nothing left behind",
     """A payload description with a wrong kind of unit, an unknown unit, class or format, text where a number goes, a needed entry missing (the name or value of a noise term included), or a data file
     missing or unreadable raises an error when loaded, built or observed, and gives no results. Usable descriptions give the same results before and
     after the refusal.""",
     ["inputs", "histories"], "every single flaw at every place of any usable payload description",
     "Tests try a handful of missing keys.",
     [E + "tasks/loadOptions.py", E + "tasks/instrumentHandler.py", E + "models/instruments", E + "models/optics", E + "models/signal.py", E + "output/hdf5"],
     [("units", E + "tasks/loadOptions.py:LoadOptions"), ("needed entries", E + "models/optics/opticalElement.py"), ("loading", E + "tasks/loadOptions.py")],
     ["errors raised", "tables produced", "results of the usable payload before and after"],
     technique="mutation of descriptions with an oracle on refusal, and bit-exact differential before and after", note="One flaw at a time.")

prop("C26", "Messages go where the user chose, once, and skipped targets are told",
     """The level, or the silence, the user chose for messages stays as chosen until changed, and every log file opened keeps what it held and gets each
     later message once, whatever runs and observations come between. A target that cannot be computed is named in the messages.""",
     ["histories"], "every sequence of logging operations, runs and observations",
     "Tests set a level once and read no message.",
     [E + "log/__init__.py", E + "log/logger.py", E + "exorad.py", E + "tasks/targetHandler.py"],
     [("levels and files", E + "log/__init__.py:addLogFile"), ("loggers", E + "log/logger.py:Logger")], ["screen and log files, with marked messages"],
     technique="model-based monitor over random histories with marked messages", note="Starts with logging enabled, one rank.")

prop("C27", "Faults during a run are told, stay where they happen, and leave no trace",
     """When reading, writing, copying or a step of a run fails, the run either ends with an error or finishes without the targets it names as skipped; it
     never ends well with wrong, partial or missing results, and inputs, results written before and what the file held before stay whole.
     Making the run again, in the same process (where nothing stays open) or after it was killed, gives the same output as if nothing had happened.""",
     ["fault_sequences", "crash_points"], "an error of the file system, lack of memory, failure of a step or end of the process (or of a worker) at every place of every run",
     "Tests inject no faults.",
     [E + "exorad.py", E + "output/hdf5/hdf5.py", E + "tasks/targetHandler.py", E + "tasks/loadOptions.py"],
     [("pipeline", E + "exorad.py:standard_pipeline"), ("skipping", E + "tasks/targetHandler.py:pipeline_to_dict"), ("files", E + "output/hdf5/hdf5.py:HDF5Output")],
     ["errors raised", "messages", "output files, value by value", "output of the run made again"],
     technique="fault injection at numbered places of real runs, with differential oracle on outputs and files", note="One fault at a time; a killed process may spoil the file it writes.")

prop("C28", "Full contributions split the self-emission and change nothing else",
     """A run with full contributions reports the signal and photon noise of each warm element in each bin of each channel, zero where the channel lacks
     it; they add up to the self-emission of the run without. Every other result is the same in both runs.""",
     ["configurations"], "every payload with any chain of warm and cold elements, in any number of channels, built or saved",
     "No test runs with full contributions and checks a number.",
     [E + "exorad.py", E + "models/optics/opticalPath.py", E + "models/noise.py", E + "utils/util.py"],
     [("contributions", E + "models/optics/opticalPath.py:compute_signal"), ("added to the tables", E + "exorad.py:standard_pipeline")],
     ["result tables with and without full contributions"], technique="reference-model and conservation monitors, differential against the plain run",
     note="Element signals within 1e-6 of the model, sums within 1e-9.")

prop("C29", "What is kept with a built channel is what its description says",
     """With every built channel, in memory, in the output, and loaded back from it, are kept the transmission of each optical element and their product, the
     radiance, signal and brightest pixel of each warm element, the quantum efficiency, the sampling of the pixels, the windows and the point spread
     function. Over the whole wavelength grid each of them is the one that follows from the description.""",
     ["inputs"], "every payload, with any optics, detectors, point spread functions and windows, built or loaded",
     "Tests look at a few columns of the channel tables and at none of the details kept.",
     [E + "models/instruments/instrument.py", E + "models/instruments/spectrometer.py", E + "models/instruments/photometer.py", E + "models/optics/opticalPath.py"],
     [("details kept", E + "models/instruments/instrument.py:_add_data_to_built"), ("optical path", E + "models/optics/opticalPath.py:OpticalPath")],
     ["built_instr of the channels", "payload groups of the output file"],
     technique="independent model of the instrument compared with every detail kept, sample by sample", note="Model of its own; samples on the edge of a range are free.")

prop("C30", "A run and its surroundings leave each other alone",
     """A run gives the same output whatever the interpreter options, hash seed, locale, time zone, home, user, working directory, way of starting workers,
     settings of the libraries it uses, or other runs at the same time; what is refused in one place is refused in all. It needs no rights but to its inputs and
     output, and leaves the settings of the process it runs in, and the choice of what is logged, as they were.""",
     ["configurations"], "every payload and target list, run in any of the surroundings listed in the check, a few at a time",
     "Tests run in one process of one user on one machine.",
     [E + "exorad.py", E + "tasks/targetHandler.py", E + "utils/passVal.py", E + "log/logger.py", E + "log/__init__.py"],
     [("pipeline", E + "exorad.py:standard_pipeline"), ("workers", E + "tasks/targetHandler.py:pipeline_to_dict"), ("shared value", E + "utils/passVal.py:PassValInit")],
     ["outputs of a process with other settings", "settings of that process before and after", "what it prints"],
     technique="processes set up differently make the same run; outputs compared value by value, settings of the process before and after",
     note="Settings are those listed in the check. `-W error` and floating point errors set to raise are left out: the libraries used warn on their own.")
