"""writes /verif/properties.jsonl"""
import json
from pathlib import Path

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


prop("P01", "Interaction term equals its defining scattering integral",
     "For every combination of volume phase-function, surface BRDF, number of expansion coefficients, viewing geometry, "
     "geometry mode, backend and parameter values, the interaction contribution returned by the model equals the first-order "
     "integral over all intermediate directions of the (truncated) phase-function times BRDF with the exact attenuation factors.",
     ["inputs", "configurations"],
     "all V x SRF (incl. linear combinations and symbolic parameters) x ncoefs x scattering-angle parameters x angles x tau/omega/NormBRDF "
     "(scalar or array) x geometry modes (mono and all f/v combinations) x evaluation backends",
     "tests compare a handful of fixed setups against stored numbers; symbolic integration, coefficient extraction and the analytic "
     "polar integral interact for every expansion order and geometry",
     ["rt1/rt1.py", "rt1/volume.py", "rt1/surface.py", "rt1/scatter.py"],
     [("fn-coefficient expansion, extraction and evaluation", "rt1/rt1.py: _calc_interaction_expansion, _integrate_0_2pi_phis, _extract_coefficients, _set_fnevals"),
      ("analytic solution of the polar integral", "rt1/rt1.py: _calc_Fint_1, _calc_Fint_2, _S2_mu"),
      ("Legendre expansions", "rt1/volume.py, rt1/surface.py: legexpansion, legcoefs")],
     observe=["RT1.calc()[3]"])
prop("P02", "Surface, volume and total contributions obey the first-order equations",
     "Surface and volume contributions equal the attenuated closed-form expressions, the total is the sum of all contributions, and all contributions scale "
     "linearly with incident intensity, albedo and reflectance as the equations demand. A bare-soil fraction mixes vegetated and bare "
     "results linearly, and a vanishing optical depth leaves only the un-attenuated surface.",
     ["inputs", "configurations"], "all setups of P01",
     "tests evaluate a few monostatic examples with one parameter value each",
     ["rt1/rt1.py"], [("contributions", "rt1/rt1.py: surface, volume, interaction, calc")],
     observe=["RT1.calc()", "RT1.surface()", "RT1.volume()"])
prop("P03", "Model results do not depend on how they are evaluated",
     "The same physical setup yields the same result for every applicable geometry mode, for every backend, for array input versus element-wise evaluation, "
     "and for pre-computed versus freshly computed coefficients. An object whose angles, parameters or symbol values were re-assigned (or that was pickled) any number of times "
     "gives the result of a freshly created object.",
     ["inputs", "configurations", "histories"], "all setups x evaluation modes; all sequences of re-assignments, evaluations and pickling",
     "tests use one mode per setup and never re-use an object after changing it",
     ["rt1/rt1.py"], [("geometry handling", "rt1/volume.py, rt1/surface.py: legexpansion"), ("property setters and caches", "rt1/rt1.py: _set_t_0.., _mu_0_x, __getstate__")],
     state=[("cached powers of cosines / compiled coefficient functions", "must follow the current angles", "rt1/rt1.py")],
     observe=["RT1.calc()"])
prop("P04", "Phase functions and BRDFs match their analytic definition and expansion",
     "Every distribution evaluates to its published closed form for scalar or array angles and for numeric, symbolic or expression-valued parameters, and its expansion coefficients are the "
     "Legendre projections of that function. Volume phase-functions integrate to one over the sphere and reflectance-normalised BRDFs have unit hemispherical reflectance.",
     ["inputs", "configurations"], "all distribution types x parameters x scattering-angle parameters x angles",
     "tests check a few coefficients and angles",
     ["rt1/volume.py", "rt1/surface.py", "rt1/scatter.py"],
     [("closed forms and coefficients", "rt1/volume.py, rt1/surface.py: _func, _func_numeric, legcoefs"), ("generalised scattering angle", "rt1/scatter.py: scat_angle")],
     observe=["Volume.p", "Surface.brdf", "legcoefs", "legexpansion"])
prop("P05", "Linear combinations act linearly on every contribution",
     "A weighted combination of phase-functions and BRDFs yields function values, angular derivatives, and surface, volume and interaction contributions that are the correspondingly weighted "
     "sums of the results of its members, whatever their number, order, weights and scattering-angle parameters.",
     ["inputs", "configurations"], "all combinations of 1-4 members with numeric or symbolic weights",
     "tests use one fixed combination",
     ["rt1/volume.py", "rt1/surface.py"], [("combination of functions and expansions", "rt1/volume.py: LinCombV; rt1/surface.py: LinCombSRF")],
     observe=["RT1.calc()", "Volume.p", "Surface.brdf"])
prop("P06", "Slopes and curvatures are the true angular derivatives",
     "The reported slope and curvature of the surface, volume and total contribution equal the first and second derivative of that contribution with respect to the incidence angle, "
     "in every unit (intensity or sigma0, linear or dB), and the angular derivatives of the distributions equal the derivatives of their values.",
     ["inputs", "configurations"], "all monostatic setups x units; all distributions x geometry modes x derivative order 1, 2",
     "tests compare stored values of a single setup",
     ["rt1/rt1.py", "rt1/volume.py", "rt1/surface.py"],
     [("analytic derivatives", "rt1/rt1.py: *_slope, *_curv; rt1/volume.py: p_theta_diff; rt1/surface.py: brdf_theta_diff")],
     observe=["RT1.tot_slope", "RT1.tot_curv", "RT1.surface_slope", "RT1.volume_curv"])
prop("P07", "The model jacobian equals the derivative of the (non-interaction) model",
     "For every parameter (albedo, optical depth, reflectance, bare-soil fraction and any symbol used in the distributions) the jacobian equals the derivative of the sum of surface and volume "
     "contribution in the requested unit, in the requested order of parameters.",
     ["inputs", "configurations"], "all setups x units x parameter lists",
     "no test compares the jacobian with a derivative",
     ["rt1/rt1.py"], [("analytic derivatives", "rt1/rt1.py: jacobian, _dsurface_d*, _dvolume_d*, _d_surface_ddummy, _d_volume_ddummy")],
     observe=["RT1.jacobian"])
prop("P08", "Observations and parameters are grouped exactly as specified",
     "Each observation of a dataset is used exactly once (padding carries no weight), observations share a parameter value if and only if they lie in the same period / group requested for that parameter, "
     "and the reported parameter time-series assigns every observation date the value of its group.",
     ["inputs", "configurations", "histories"], "all datasets (irregular, duplicated or unsorted timestamps) x all dynamics specifications (constant, calendar frequency, index, integer, explicit groups, combinations)",
     "tests use one dataset with one or two dynamics",
     ["rt1/rtfits.py", "rt1/general_functions.py"],
     [("grouping", "rt1/rtfits.py: param_dyn_dict, _groupindex, _idx_assigns, _param_assigns, _get_data, res_df"), ("rectangularize / groupby_unsorted", "rt1/general_functions.py")],
     observe=["Fits.data", "Fits.inc", "Fits.mask", "Fits.index", "Fits.res_df", "Fits.param_dyn_dict"])
prop("P09", "Fitted-model evaluation equals the model evaluated observation by observation",
     "For every definition of fitted, constant and auxiliary parameters and every assignment of values, the modelled values of a dataset equal, for each observation, the radiative-transfer model "
     "evaluated with that observation's angle and parameter values in the dataset's unit. Components and the order of parameter definitions do not change this.",
     ["inputs", "configurations"], "all parameter definitions (order, fixed, auxiliary, functions of parameters) x datasets x units x result values",
     "tests only compare fits with stored results",
     ["rt1/rtfits.py", "rt1/rt1.py"],
     [("assignment of values", "rt1/rtfits.py: calc_model, _calc_model, _assignvals, _init_V_SRF, fixed_dict, calc")],
     observe=["Fits.calc_model", "Fits.calc", "Fits.model_definition"])
prop("P10", "The fit jacobian equals the derivative of the residual model",
     "For every parameter definition (including parameters shared by several model inputs, functions of parameters, dynamics and weights) the jacobian handed to the optimiser equals the derivative "
     "of the modelled values (without interaction) with respect to the optimised values.",
     ["inputs", "configurations"], "all parameter definitions x datasets x units",
     "a wrong jacobian still lets sample fits converge",
     ["rt1/rtfits.py", "rt1/rt1.py"], [("jacobian assembly", "rt1/rtfits.py: _calc_jac")],
     observe=["jac function passed to scipy.optimize.least_squares"])
prop("P11", "A fit returns bounded parameters that reproduce the data",
     "Fitted values always lie within their bounds, the reported cost is the weighted misfit of the returned parameters and never exceeds that of the start values, constants stay untouched, "
     "and noise-free data generated by the model are reproduced.",
     ["inputs", "configurations"], "all datasets x parameter definitions x weights x units",
     "tests fit two stored datasets",
     ["rt1/rtfits.py"], [("fit procedure", "rt1/rtfits.py: performfit")],
     observe=["Fits.performfit", "Fits.res_dict", "Fits.fit_output"])
prop("P12", "Results reflect the current configuration after any history of changes",
     "After any sequence of dataset, parameter-definition, unit or function changes, evaluations and fits, a fit object gives the same grouping, model and fit results as a new object "
     "created with the final configuration.",
     ["histories", "configurations"], "all sequences of re-assignments, cache operations, evaluations and fits",
     "tests configure each object once",
     ["rt1/rtfits.py"], [("cached properties and their invalidation", "rt1/rtfits.py: _clear_cache, property setters")],
     observe=["Fits"])
prop("P13", "Storing, loading and re-initialising a fit preserves it",
     "Dumping and loading (with or without details), pickling, and re-initialising a fit yield an independent object with the same definition and results; requested overrides and only those differ, "
     "and the original object keeps working.",
     ["histories", "inputs"], "all fits x dump/pickle/re-initialise sequences x overrides",
     "tests dump one fit and re-run it",
     ["rt1/rtfits.py"], [("serialisation", "rt1/rtfits.py: __getstate__, __setstate__, dump, load, reinit_object; rt1/volume.py, rt1/surface.py: init_dict")],
     observe=["Fits.dump", "load", "Fits.reinit_object", "init_dict"])
prop("P14", "A multi-fit container treats its configurations independently",
     "Adding, removing, configuring and fitting configurations in any order keeps each configuration equal to a stand-alone fit with the same definition; accessors return exactly one value per "
     "configuration in order, and dataset or auxiliary data changes reach every configuration.",
     ["histories", "configurations"], "all sequences of container operations",
     "tests use one fixed pair of configurations",
     ["rt1/rtfits.py"], [("MultiFits", "rt1/rtfits.py: MultiFits, _MultiAccessors")],
     observe=["MultiFits.accessor", "MultiFits.config_fits"])
prop("P15", "The parameter-definition container behaves as an ordered mapping",
     "Parameter definitions can be set, read, changed and removed in any order; each parameter keeps exactly the last values assigned to it, defaults are independent between parameters and objects, and the "
     "container converts to and from plain dictionaries without loss.",
     ["histories", "inputs"], "all sequences of container operations",
     "tests never exercise sequences",
     ["rt1/_containers.py"], [("RT1_Defdict and parameter containers", "rt1/_containers.py")],
     observe=["Fits.defdict"])
prop("P16", "Configuration files define exactly the described fits",
     "Every valid configuration file is translated to the parameter definitions, dynamics, bounds, functions, dates and settings it states, for single and multi-configurations, and a fit created from it "
     "equals the fit created with the same settings in Python. Entries that do not follow the format are rejected (not translated to something else).",
     ["inputs", "configurations"], "all generated configuration files",
     "tests parse two fixed files",
     ["rt1/rtparse.py"], [("parser", "rt1/rtparse.py")], observe=["RT1_configparser.get_config", "get_fitobject"])
prop("P17", "Fits stored in a result file are recovered",
     "Storing any set of fits of a processing run (fits that share their definitions and settings) in a result file and loading them by identifier returns fits with the same definition, data and results, independent of the other stored fits and the order of storing.",
     ["inputs", "histories"], "all fits x sets of identifiers x storing orders x options",
     "tests read one prepared file",
     ["rt1/rtresults.py", "rt1/_rtprocess_writer.py", "rt1/rtfits.py"], [("HDF storage", "rt1/_rtprocess_writer.py; rt1/rtresults.py: HDFaccessor.load_fit; rt1/rtfits.py: _get_fit_to_hdf_dict")],
     observe=["HDFaccessor.load_fit"])
prop("P18", "Selections from a result file are exact and complete",
     "Reading by identifiers, number or randomly chosen subsets, in one piece or in chunks, returns exactly the requested stored rows: nothing missing, duplicated or attributed to another identifier.",
     ["inputs", "configurations"], "all stored collections x selections x chunk sizes",
     "tests read a few identifiers",
     ["rt1/rtresults.py"], [("selection", "rt1/rtresults.py: HDFaccessor")], observe=["HDFaccessor.datasets"])
prop("P19", "Batch processing handles every task exactly once",
     "Processing a list of tasks with any number of workers stores exactly one complete result per successful task, isolates failing tasks, is independent of the number of workers, and a resumed run "
     "only processes what is missing - also after a run that was interrupted. A finished run (also a failed one) has called the finalizer of the processing-class after its last task, leaves no process behind and the signal-handlers of the calling process as they were.",
     ["schedules", "fault_sequences", "histories", "configurations"], "all task lists x failing subsets x worker counts x resume histories",
     "tests run a fixed example",
     ["rt1/rtprocess.py", "rt1/_rtprocess_writer.py", "rt1/processing_config.py"],
     [("pool, queue and writer processes", "rt1/rtprocess.py; rt1/_rtprocess_writer.py"), ("existing-result masking", "rt1/processing_config.py")],
     observe=["result file", "RTprocess.run_processing"])
prop("P20", "Helper functions satisfy their specification",
     "Grouping, padding, chunking, splitting, missing-number search, unit conversion, averaging of dates, scaling and interpolation helpers satisfy their documented contract for every input.",
     ["inputs"], "all inputs of the documented domain", "tests use a few examples",
     ["rt1/general_functions.py"], [("helpers", "rt1/general_functions.py")], observe=["general_functions"])
prop("P21", "Metrics equal their statistical definition on the matching observations",
     "Every metric equals its statistical definition evaluated on exactly the matching values of the two selected variables, is invariant to row order and symmetric or anti-symmetric where its definition is.",
     ["inputs"], "all fits x variable pairs x metrics", "tests evaluate one fit",
     ["rt1/rtmetrics.py"], [("metrics", "rt1/rtmetrics.py")], observe=["Fits.metric"])
prop("P22", "Exported result datasets contain exactly the stored results",
     "Exported datasets - of parameters, metrics and custom postprocess-functions - contain for every exported fit, configuration and variable exactly the fit's values at the right identifier "
     "and date in the requested units, and nothing else; failing fits are left out, and repeated exports add only what is missing.",
     ["inputs", "configurations"], "all sets of fits x parameters x options", "tests export one example",
     ["rt1/rtprocess.py", "rt1/rtresults.py"], [("export", "rt1/rtprocess.py: export_data, export_data_to_HDF")], observe=["exported datasets"])

prop("P23", "Result folders give access to exactly the stored results",
     "A results browser recognises exactly the (sub-)folders with the expected structure and returns for every access - by identifier, number, path, at random or by "
     "iteration - exactly the stored fits (dump-files that are no error-files, or the fits of the fit-database), configurations and datasets of the selected folder; "
     "ambiguous or missing files are refused, and re-scanning reflects added and removed files.",
     ["inputs", "histories"], "all folder contents x access histories x both storage types",
     "tests open one example folder", ["rt1/rtresults.py", "rt1/rtfits.py"],
     [("results browser", "rt1/rtresults.py: RTresults, _RT1_fitresult"), ("loading of dump-files", "rt1/rtfits.py: load")],
     state=[("fit_db", "cached handle of the fit-database", "rt1/rtresults.py: _RT1_fitresult.fit_db"),
            ("_dump_file_list", "indexed dump-files", "rt1/rtresults.py: scan_folder")],
     observe=["RTresults[..].load_fit / dump_files / dump_fits / load_cfg / load_hdf / load_nc"])

prop("P24", "Processing runs use exactly the configuration of their result folder",
     "Every processing-run of a history uses the definitions and modules that were copied to its result-folder by the first run (unless copies are disabled or parts of the configuration are "
     "overridden explicitly, which then replaces the copied configuration); existing folders are continued, removed or left completely untouched as answered (no question is asked with "
     "autocontinue); config-files, modules and other folders are never changed; undefined sections are refused.",
     ["histories", "configurations"], "all histories of runs x changed files x overrides x answers", "tests run one configuration",
     ["rt1/rtprocess.py", "rt1/rtparse.py"],
     [("setup of a run", "rt1/rtprocess.py: RTprocess.setup, _copy_cfg_and_modules, override_config, _confirm_input, _remove_dumpfolder"),
      ("import of modules", "rt1/rtparse.py: RT1_configparser.get_module")],
     state=[("dumpfolder/cfg", "copied config-files and modules", "rt1/rtprocess.py: _copy_cfg_and_modules"),
            ("init_kwargs", "overridden parts of the configuration", "rt1/rtprocess.py: override_config")],
     observe=["RTprocess.run_processing", "result folder"])

prop("P25", "Plots and interactive sliders show exactly the values of the model and the fit",
     "Every plot of a fit (scatterplot, timeseries, errors, results, single results, intermediate residuals and results) shows each observation once, at its own date and incidence-angle, next to "
     "the model-value, parameters and groups that belong to exactly this observation in the requested units, for every grouping and order of the dataset; interactive plots show after every "
     "history of slider-, limit- and button-events exactly the model of the current slider-values; hemispherical reflectances are the integrals of the (scaled) BRDF and polar plots show the "
     "functions themselves; no plot changes the fit.",
     ["inputs", "histories"], "all fit-definitions x datasets x plot-options x histories of slider-events",
     "tests only check that figures can be created", ["rt1/rtplots.py", "rt1/rtfits.py", "rt1/scatter.py"],
     [("plots of a fit", "rt1/rtplots.py: plot (scatter, timeseries, fit_errors, results, single_results, printsig0analysis, analyzemodel, intermediate_residuals, intermediate_results)"),
      ("plots of functions", "rt1/rtplots.py: polarplot, hemreflect")],
     state=[("slider-values, limits and displayed lines", "state of an interactive plot", "rt1/rtplots.py: plot.analyzemodel, plot.printsig0analysis"),
            ("intermediate_results", "recorded iterations of a fit", "rt1/rtfits.py: Fits.performfit, _calc_slope_curv")],
     observe=["matplotlib artists (lines, texts, labels)", "Fits.plot.*", "hemreflect(returnarray=True)"])

prop("P26", "Log messages reach exactly the configured outputs",
     "For every history of starting, stopping and re-levelling log-files (several names, shared files) and the console, and for any number of processes that log to the log-file of a processing "
     "run, every message (of any level, with arguments, several lines or a traceback) appears complete, exactly once, in the order of emission and with its level in exactly those outputs whose "
     "level admits it.",
     ["histories", "schedules"], "all histories of log-operations x messages x logging processes",
     "tests do not look at the log", ["rt1/__init__.py", "rt1/rtprocess.py"],
     [("handlers of the log", "rt1/__init__.py: start_log_to_file, stop_log_to_file, set_log_handler_level, setup_logger, WrappedFixedIndentingLog, ColoredWrappedFixedIndentingLog"),
      ("log of several processes", "rt1/rtprocess.py: RTprocess._listener_process, _worker_configurer")],
     state=[("handlers and levels", "configured outputs", "rt1/__init__.py: log")],
     observe=["log-files", "console-output"])

prop("P27", "Summaries of a definition show exactly that definition",
     "For every definition (any number type, with or without a dataset, single or as a configuration of a multi-fit) the text-summary of a fit - which every processing-run writes to its "
     "result-folder - lists every fitted parameter once with its start-value, variability, bounds and interpolation, every constant with its value, every auxiliary parameter, both distributions "
     "with their properties, all least-squares settings, the number of estimated values and the dates of the dataset; representations of distributions show their parameter-values.",
     ["inputs"], "all definitions of fits and distributions",
     "tests never read the summaries", ["rt1/rtfits.py", "rt1/volume.py", "rt1/surface.py", "rt1/_containers.py"],
     [("summary of a fit", "rt1/rtfits.py: Fits._model_definition, model_definition"),
      ("representations", "rt1/volume.py, rt1/surface.py, rt1/_containers.py: __repr__")],
     observe=["fit._model_definition", "cfg/model_definition*.txt", "repr(V), repr(SRF), repr(fit.defdict)"])

if __name__ == "__main__":
    out = Path(__file__).resolve().parent.parent / "properties.jsonl"
    out.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P))
