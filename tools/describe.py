"""Writes properties.jsonl and MANIFEST.json from one table. Run it after editing the table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), technique="", note="", level="exploration"):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=text, why=" ".join(why.split()), files=files,
                  mech=mech, observe=observe, state=state, technique=technique, note=" ".join(note.split()), level=level))


E = "exorad/"
REF = "reference-model runtime monitor over generated payloads"

prop("C01", "Payload descriptions are read whole: every value, type, unit, order and place",
     """Loading a payload description (XML) gives a dictionary holding every tag, attribute, table and nested file that was written, with its number,
     truth value, text or quantity, its unit, its place in the hierarchy and its order. Repeated tags are all kept and tell each other apart;
     loading one description leaves nothing behind for the next. Paths built on the configuration directory point into it.""",
     ["inputs", "histories"], "every description file the documented format allows, and every sequence of loads in a process",
     """The tests load one example payload and look at a few keys; repeated tags, tags without text, other units, nested configuration files and several
     files in one process are never compared value by value.""",
     [E + "tasks/loadOptions.py"], [("recursive parser", E + "tasks/loadOptions.py:LoadOptions.__parser__"), ("tables and dictionaries", E + "tasks/loadOptions.py:__read_datatable__")],
     ["LoadOptions()(filename=...)"], technique="round-trip monitor: generated XML against the dictionary it was generated from",
     note="Held on generated descriptions with random nesting, units, tables; assumes tag text comes before child tags and no tag is called value.")

prop("C02", "Target lists give every star and planet with its own values",
     """Loading a target list (CSV, MRS CSV, spreadsheet or in-memory table) gives one target per listed star, in the order of the list, each holding
     exactly the stellar and planetary values of its row, in their units; blank cells give no value. Searching by name finds exactly the targets whose star or planet
     name contains it, signs included; lists that cannot be read
     (or whose planets cannot be read) are refused with an error instead of giving wrong targets.""",
     ["inputs"], "every target list in the supported formats: any number of rows, columns in any order, planets or none, other units",
     "The tests read three shipped lists and count the targets; they do not compare values, units, unrelated columns or decimal commas.",
     [E + "models/targetlist.py", E + "models/target.py", E + "tasks/targetHandler.py"],
     [("readers", E + "models/targetlist.py"), ("logg from mass and radius", E + "models/target.py:calc_logg")],
     ["LoadTargetList()(target_list=...).target", "searchTarget(name)"], technique="round-trip monitor: generated lists against the targets they list",
     note="Assumes named targets and, in spreadsheets, filled-in cells.")

prop("C03", "Every channel is sampled on the bins its description asks for",
     """The bins of a photometer span its wavelength range; those of a spectrometer tile it without gaps or overlaps at the resolving power asked for
     (fixed, tabulated, or native to the detector pixels). Each bin's centre, width and edges agree with each other and stay in the channel's range.""",
     ["configurations"], "every channel description: wavelength range, resolving power (fixed, tabulated, native, absent), wavelength solution, pixel size",
     "Tests build the example payload only, and check that tables exist.",
     [E + "models/instruments/photometer.py", E + "models/instruments/spectrometer.py"],
     [("bin tables", E + "models/instruments/spectrometer.py:_wavelength_table")], ["channel tables: Wavelength, Bandwidth, LeftBinEdge, RightBinEdge"],
     technique=REF + " plus tiling invariants on observed tables", note="Excludes pixel positions within 3% of a pixel of the channel's edge and empty bins.")

prop("C04", "Transmission and quantum efficiency are those of the described elements",
     """In every bin, the reported transmission is the bin average of the product of all the optical elements light goes through (common and channel's
     own, within their bounds), and the reported quantum efficiency that of the described detector. Outside a channel's range nothing is transmitted
     when the edges are forced; what the sky layers absorb is reported target by target.""",
     ["configurations"], "every combination of optical elements (tables, constants, reflectivity, bounds, choice of column) and detector responses",
     "Tests use the example payload and assert presence or a single number.",
     [E + "models/optics/opticalPath.py", E + "models/optics/opticalElement.py", E + "models/instruments/instrument.py"],
     [("element transmission", E + "models/optics/opticalElement.py:_get_transmission"), ("channel transmission", E + "models/instruments/instrument.py:_get_transmission"),
      ("quantum efficiency", E + "models/instruments/instrument.py:_get_qe")], ["columns TR, QE, skyTransmission"], technique=REF,
     note="The reference model shares no code with the package; a sample exactly on a bin edge may be counted on either side.")

prop("C05", "Instrument self-emission sums every warm element through the optics after it",
     """The thermal signal of a channel is the sum, over all its optical elements, of the element's greybody emission over the pixel's view of it,
     attenuated by the elements that follow it, diluted by the slit when there is one, detected, and collected in the extraction window.
     Detector and optics boxes emit over their own solid angles; repeated names do not hide an element.""",
     ["configurations"], "every chain of optical elements with any temperatures, emissivities, positions, kinds, with and without slit",
     "Tests build one chain and check that a column exists.",
     [E + "models/optics/opticalPath.py", E + "utils/diffuse_light_propagation.py", E + "models/optics/opticalElement.py"],
     [("chain", E + "models/optics/opticalPath.py:chain"), ("signal", E + "models/optics/opticalPath.py:compute_signal"), ("slit", E + "utils/diffuse_light_propagation.py:convolve_with_slit")],
     ["columns instrument_signal, instrument_MaxSignal_inPixel"], technique=REF, note="Emission is emissivity times the Planck function.")

prop("C06", "Windows and brightest-pixel share follow the point spread function",
     """Extraction windows cover what the description asks for (multiples of the spot, encircled energy, or pixels), and the share of star light in
     the aperture and in the brightest pixel follow the point spread function described: an Airy pattern, or the images given, at the right
     wavelength and pixel size.""",
     ["configurations"], "every optics (F-numbers, pixel size, wavefront error, PSF source and format, window options)",
     "Tests check one PSF file and the example payload's windows.",
     [E + "utils/exolib.py", E + "models/instruments/photometer.py", E + "models/instruments/spectrometer.py"],
     [("PSF binning", E + "utils/exolib.py:binnedPSF"), ("PAOS interpolation", E + "utils/exolib.py:interpolate_paos_psf"), ("windows", E + "models/instruments/photometer.py:_windows_size")],
     ["columns WindowSize, star_signal_inAperture, star_MaxSignal_inPixel"], technique=REF,
     note="PSF images have the same step on both axes; encircled-energy apertures are reachable.")

prop("C07", "Star spectra are those asked for: Planck, PHOENIX grid or custom file",
     """The spectrum of a source is the flux at Earth of the star described: its Planck spectrum, the PHOENIX grid model nearest in temperature,
     gravity and metallicity (wherever the library stands), or the custom file, scaled by radius and distance and rebinned on the requested range. Its luminosity agrees with
     its spectrum, its identity goes into the metadata, and sources that cannot be made are refused.""",
     ["inputs"], "every star and source description, PHOENIX library and wavelength range",
     "Tests make one star per kind and check that no exception is raised.",
     [E + "models/source.py", E + "tasks/loadSource.py"], [("model choice", E + "models/source.py:__get_phonix_model_filename"), ("source task", E + "tasks/loadSource.py:LoadSource.execute")],
     ["LoadSource()(...)", "target.star.sed", "table metadata"], technique="reference-model runtime monitor over generated libraries and stars",
     note="PHOENIX libraries are synthetic full grids; the very last sample of a model spectrum is left open.")

prop("C08", "Sky radiance follows the description and the direction of the target",
     """The zodiacal radiance of a target is the documented model scaled by the described factor or by the zodiacal map's value at the nearest point
     on the sky; every sky layer radiates and transmits as described. A map that cannot give a value is replaced by the documented fall-back.""",
     ["inputs", "configurations"], "every foreground description, zodiacal map and direction on the sky (poles and zero crossing included)",
     "Tests evaluate one direction of the bundled map.",
     [E + "models/foregrounds/zodiacalForeground.py", E + "models/foregrounds/skyForegrounds.py", E + "tasks/foregroundHandler.py"],
     [("direction fit", E + "models/foregrounds/zodiacalForeground.py:zodiacal_fit_direction")], ["target.foreground", "target.skyTransmission"],
     technique=REF, note="The nearest map point is unambiguous for the directions drawn.")

prop("C09", "Star signals are the integral of the spectrum through the throughput",
     """In every bin, the stellar flux is the integral of the target's spectrum, and the signal is that flux through telescope area, sky, optics and
     detector, in electrons per second; the aperture and brightest-pixel shares never exceed it. Scaling the spectrum, distance or area scales
     the signals alike.""",
     ["inputs", "configurations"], "every payload and target",
     "Tests compare no number: they run the task on the example.",
     [E + "models/instruments/photometer.py", E + "models/instruments/spectrometer.py", E + "models/instruments/instrument.py"],
     [("target light", E + "models/instruments/spectrometer.py:propagate_target")], ["columns starFlux, starSignal, star_signal_inAperture, star_MaxSignal_inPixel"],
     technique=REF + " plus metamorphic scaling monitors", note="A sample exactly on a bin edge may be counted on either side.")

prop("C10", "Foregrounds reach the detector through nearer layers, optics and slit",
     """Each foreground's signal in each bin and in the brightest pixel is its radiance attenuated by the layers listed after it, through the
     channel's optics and slit, over the pixel's solid angle. Foregrounds are listed from the farthest to the nearest, and none is lost,
     doubled or attenuated by itself.""",
     ["configurations"], "every ordered list of zodiacal and sky layers, over every channel",
     "Tests run one list with one layer and assert no value.",
     [E + "tasks/foregroundHandler.py", E + "models/instruments/instrument.py", E + "utils/diffuse_light_propagation.py"],
     [("attenuation", E + "tasks/foregroundHandler.py:EstimateForegrounds"), ("propagation", E + "models/instruments/instrument.py:propagate_diffuse_foreground")],
     ["columns <name>_signal, <name>_MaxSignal_inPixel"], technique=REF, note="Foregrounds are listed from the farthest to the nearest.")

prop("C11", "Noise terms follow from the reported signals, the total from all the terms",
     """Photon noise of every contribution, dark current, readout, custom noise terms and the multi-accumulate gains follow from the signals in the same
     table and from the detector described. The total is their quadrature sum relative to the star's signal: no term is lost, counted twice,
     or taken from another channel; noise terms of the same name combine in quadrature.""",
     ["inputs", "configurations"], "every detector, readout scheme, custom noise and set of signals",
     "Tests compare one total on the example payload.",
     [E + "models/noise.py", E + "tasks/noiseHandler.py"], [("terms", E + "models/noise.py"), ("total", E + "tasks/noiseHandler.py:EstimateNoiseInChannel")],
     ["columns *_noise, total_noise"], technique="relational monitor: noise columns recomputed from the signal columns of the same observed table",
     note="A frame time within 1e-9 of a whole number of reads may count either number.")

prop("C12", "Frame times never let the brightest pixel saturate",
     """The brightest-pixel rate of a channel is the largest sum over all contributions; the saturation time follows from it and the well depth, and
     the frame time is the one described or the fraction of the saturation time described. All bins of a channel share it.""",
     ["inputs", "configurations"], "every detector and set of contributions",
     "Tests do not relate these columns.",
     [E + "tasks/targetHandler.py", E + "models/noise.py"], [("max signal", E + "tasks/targetHandler.py:EstimateMaxSignal"), ("frame time", E + "models/noise.py:frame_time")],
     ["columns MaxSignal_inPixel, saturationTime, frameTime"], technique="relational monitor over observed result tables", note="Recomputed from the contributions in the same result.")

prop("C13", "Campaigns give the same results serially, in parallel, one at a time",
     """Observing a list of targets gives, for any number of workers, schedule, list order and repetition, the same tables as observing each target
     alone. A target that fails is left out and changes nothing for the others; no target is lost, duplicated or exchanged, not even
     when targets share a name. Results already returned stay as they are when the same list is observed again.""",
     ["schedules", "inputs", "fault_sequences"], "every worker count and completion order, list order and set of failing targets",
     "Tests run one list with one worker and check that it ends.",
     [E + "tasks/targetHandler.py", E + "exorad.py"], [("worker pool", E + "tasks/targetHandler.py:ObserveTargetlist")],
     ["ObserveTargetlist results"], technique="differential history checker: bit-by-bit comparison of campaigns under injected delays and failures",
     note="Schedules are steered by injected delays, not enumerated.")

prop("C14", "Results depend on the inputs alone, not on what was done before",
     """Loading, building, observing and merging give bit-identical results whatever other payloads, targets or refused operations came before in the
     same process, in a fresh process, and when repeated. Input files rewritten under the same names count as they are when used.
     Inputs handed to the package keep their values.""",
     ["histories"], "every sequence of public operations over several payloads and targets",
     "Tests run each operation once on fresh objects.",
     [E + "tasks", E + "utils/passVal.py", E + "models"], [("working resolution", E + "utils/passVal.py")], ["result tables", "arguments after each call"],
     [("PassValInit", "process-wide working resolution", E + "utils/passVal.py")],
     technique="history monitor: random operation sequences compared with single-operation processes", note="Single-threaded histories.")

prop("C15", "What is stored in an HDF5 output is what is read back",
     """Numbers, truth values, texts, quantities, arrays, lists, tables with their units and metadata, and nested dictionaries of them are read back equal
     to what was stored, over any number of openings. What cannot be stored is refused without harm to what is there.""",
     ["inputs", "histories"], "every nested dictionary of supported values and sequence of openings, appends and overwrites",
     "Tests store one dictionary and do not read it back.",
     [E + "output/hdf5/hdf5.py", E + "output/hdf5/util.py", E + "output/output.py"], [("store", E + "output/output.py:store_dictionary"), ("load", E + "output/hdf5/util.py:load")],
     ["HDF5Output", "load", "load_signal"], technique="round-trip monitor over generated dictionaries", note="Keys without '/' and '.'; lists of texts come back as arrays of their UTF-8 encoding.")

prop("C16", "A run leaves in its output exactly the observations, and its inputs alone",
     """A run (function, command, or process) writes one entry per observed target holding the table the public tasks give, the payload, the
     channels, and the description files; skipped targets are left out. Replaced outputs hold only the new run, kept ones keep theirs,
     and plots and logs are written where asked.""",
     ["configurations", "inputs"], "every combination of command options, output location, previous content and target list",
     "Tests run one command and check the exit.",
     [E + "exorad.py", E + "tasks/targetHandler.py", E + "tasks/instrumentHandler.py"], [("pipeline", E + "exorad.py:standard_pipeline")],
     ["output HDF5 file", "output directory"], technique="differential monitor of output files against the public tasks", note="Ordinary path names.")

prop("C17", "A payload saved in an output file works as the description it came from",
     """Loading a payload from an output file gives channels with the same tables and observations with the same results as building it from its
     description, also after saving the loaded one again, next to other payloads, or channel by channel.""",
     ["configurations", "histories"], "every payload, saved and loaded any number of times",
     "Tests load one file and check no number.",
     [E + "tasks/instrumentHandler.py", E + "models/instruments/instrument.py", E + "output/hdf5/util.py"], [("load", E + "tasks/instrumentHandler.py:LoadPayload")],
     ["channel tables", "observations through loaded channels"], technique="differential monitor: saved and reloaded against built", note="Floating point agreement 1e-12.")

prop("C18", "Results do not depend on the units inputs are written in",
     """Describing the same payload and star in any other unit of the same kind gives the same results, in the documented output units.
     A temperature written without unit is in kelvin, a solid angle in steradians.""",
     ["inputs"], "every quantity of the description, data tables and targets, each in every equivalent unit",
     "Tests use the units of the example payload.",
     [E + "models", E + "tasks"], [("conversions", E + "models/signal.py:check_quantities")], ["result tables"],
     technique=REF + " in random units (metamorphic)", note="Tabulated resolving powers carry no units.")

prop("C19", "Spectral signals keep values and units; resampling obeys its laws",
     """A spectral signal holds the values given, converted to its units, whatever the order and unit they came in. Resampling averages finer samples
     and interpolates coarser ones, is linear, keeps constants and ranges, gives nothing outside the sampled range, and lands on the
     grid asked for. Wrong units, sizes and shapes are refused.""",
     ["inputs"], "every spectrum and target grid, in any order and unit",
     "Tests resample two hand-made signals.",
     [E + "models/signal.py", E + "utils/exolib.py"], [("resampling", E + "utils/exolib.py:rebin"), ("checks", E + "models/signal.py:check_sizes")],
     ["Signal.data", "Signal.spectral_rebin"], technique="algebraic-law and reference monitors over generated spectra", note="Samples on the very edge of a resampling interval are left open.")

prop("C20", "Channels do not see each other, and merging tables loses nothing",
     """The rows of a channel are the same whatever other channels the payload holds, in whatever order. Merging channel tables keeps every row and column
     of each channel, in the payload's order, with zero where a column belongs to others only. Channels described under the same name are numbered and keep apart: each has its own rows, frame time and noises.""",
     ["configurations"], "every subset and order of the channels of every payload",
     "Tests merge the two channels of the example.",
     [E + "utils/util.py", E + "tasks/instrumentHandler.py", E + "tasks/targetHandler.py"], [("merging", E + "utils/util.py:vstack_tables")],
     ["merged tables", "observations through part of the channels"], technique="differential monitor: payload variants compared bit by bit", note="Channels described under one name are told apart by the number the later ones get.")

MORE = os.path.join(HERE, "tools", "describe_more.py")
if os.path.exists(MORE):
    exec(open(MORE).read())

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
            assert len(p["title"]) <= 80, p["title"]
    checks = []
    for p in P:
        if any(n["property"] == p["id"] for n in NOT_APPLICABLE):
            continue
        checks.append({"property": p["id"], "quick_cmd": "%s run.py %s --tier quick" % (PY, p["id"]),
                       "thorough_cmd": "%s run.py %s --tier thorough" % (PY, p["id"]),
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"],
                       "level_note": "Held on the executions observed (counts in the evidence file), not proved. " + p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "%s -c 'import numpy, astropy, scipy, h5py'" % PY, "checks": checks, "not_applicable": NOT_APPLICABLE,
                   "notes": "No hooks in /repo: monitors observe public tasks, tables and files. Checks import the package from /repo's working tree."}, f, indent=1)
        f.write("\n")


main()
