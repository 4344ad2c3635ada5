"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os

P = []


def add(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
    }
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = [observe]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext),
                  why_tests_cant=why, anchors=anchors))


add("P01", "Interaction term solves the first-order double-scattering integral",
    "For any phase function, surface BRDF, optical depth, albedo and viewing geometry, the interaction contribution equals "
    "the double integral over all intermediate directions of the two once-by-surface, once-by-volume scattering paths, with both scattering functions "
    "represented by their truncated Legendre series. It is finite and uses the attenuation exp(-tau/mu) of the leg that is not part of the integral.",
    ["inputs", "configurations"],
    "all volume/surface functions (and combinations), generalised scattering angles, series lengths, tau from thin to thick, omega, NormBRDF, bare-soil fraction, scalar and array angles incl. nadir, monostatic and bistatic geometries, numeric and symbolic parameters",
    "The tests compare a handful of stored curves for two configurations; the analytic solution goes through symbolic expansion, coefficient extraction and special functions whose correctness depends on every combination of series lengths, scattering-angle parameters and angles.",
    ["rt1/rt1.py", "rt1/scatter.py", "rt1/surface.py", "rt1/volume.py", "doc/theory.rst"],
    [("symbolic product of the two series and azimuth integration", "rt1/rt1.py RT1._calc_interaction_expansion/_integrate_0_2pi_phis"),
     ("extraction of power-series coefficients in cos(theta)", "rt1/rt1.py RT1._extract_coefficients"),
     ("closed-form polar integral", "rt1/rt1.py RT1._S2_mu/_calc_Fint_1/_calc_Fint_2/interaction")],
    observe="RT1.interaction(), RT1.calc()")

add("P02", "Surface, volume and total contributions obey their closed forms and limits",
    "For every input the surface and volume contributions equal their documented closed forms (including the bare-soil fraction), the total is exactly the sum of the returned contributions, "
    "and every result has the shape of the broadcast angle and parameter arrays. Without vegetation (tau=0) or without scatterers the volume and interaction parts vanish; results are linear in the incident intensity and the surface and interaction parts in the reflectance factor.",
    ["inputs", "configurations"],
    "all scattering functions, scalar/array/2-D parameters and angles, tau=0 (scalar and inside arrays), omega=0, bsf in [0,1], interaction on and off",
    "Tests evaluate a few fixed points; broadcasting, zero optical depth inside arrays and the bare-soil fraction are never swept.",
    ["rt1/rt1.py", "rt1/surface.py", "rt1/volume.py"],
    [("assembly of the contributions", "rt1/rt1.py RT1.calc/surface/volume"), ("numeric scattering functions", "rt1/surface.py Surface.brdf, rt1/volume.py Volume.p")],
    observe="RT1.calc(), RT1.surface(), RT1.volume()")

add("P03", "Model parameter derivatives are the derivatives of the model",
    "For every model definition the derivatives returned for single-scattering albedo, optical depth, reflectance factor, bare-soil fraction and any free parameter of the scattering functions "
    "equal the true derivatives of surface plus volume contribution, in linear or dB units and as intensity or sigma0.",
    ["inputs", "configurations"],
    "all scattering functions with symbolic parameters, mono- and bistatic geometry, all four unit combinations, scalar and array parameters, bsf in [0,1]",
    "The stored-value tests only sample a few derivatives at monostatic geometry; a wrong derivative only makes fits slower or biased and never raises.",
    ["rt1/rt1.py"],
    [("analytic derivatives of the contributions", "rt1/rt1.py RT1._dvolume_*/_dsurface_*/_d_*_ddummy"), ("unit conversion of derivatives", "rt1/rt1.py RT1.jacobian")],
    observe="RT1.jacobian()")

add("P04", "Angular slope and curvature are the angular derivatives of the signal",
    "The monostatic slope and curvature of the surface, volume and total contribution equal the first and second derivative of the corresponding contribution with respect to the incidence angle, "
    "for intensity and sigma0 and for linear and dB units. The derivatives offered by the scattering functions themselves with respect to the zenith angle agree with the functions for every geometry specification.",
    ["inputs", "configurations"],
    "all scattering functions, tau, omega, bsf, symbolic parameters, incidence angles, all unit combinations, n=1 and n=2",
    "Sixteen unit/contribution combinations exist, each a separate hand-derived formula; tests sample only a few of them at few angles.",
    ["rt1/rt1.py", "rt1/surface.py", "rt1/volume.py", "rt1/rtfits.py"],
    [("hand-derived slope/curvature formulas", "rt1/rt1.py RT1.*_slope/*_curv"), ("symbolic differentiation", "rt1/surface.py brdf_theta_diff, rt1/volume.py p_theta_diff"), ("slope/curvature of fitted models", "rt1/rtfits.py Fits._calc_slope_curv")],
    observe="RT1.{surface,volume,tot}_{slope,curv}(), Surface.brdf_theta_diff, Volume.p_theta_diff")

add("P05", "Scattering functions, their Legendre series and their normalisation agree",
    "Every phase function integrates to one over all directions, and every scattering function's Legendre coefficients are those of the function itself, so that the truncated series converges to the function. "
    "Symbolic and numeric evaluation of a function coincide, the nadir-normalised function has unit hemispherical reflectance at nadir (both normalisations for the ordinary scattering angle or, for the latter, any generalised nadir cosine), and the tool reporting hemispherical reflectance reports the cosine-weighted hemispherical integral.",
    ["inputs"],
    "asymmetry parameters in (-1,1), lobe powers, generalised scattering-angle parameters, series orders, scalar and array angles, numeric and symbolic parameters",
    "Tests pin individual coefficients for one or two parameter values; normalisation and convergence are statements over the whole parameter range.",
    ["rt1/surface.py", "rt1/volume.py", "rt1/scatter.py", "rt1/rtplots.py"],
    [("function definitions", "rt1/surface.py, rt1/volume.py _func/_func_numeric"), ("series coefficients", "legcoefs"), ("hemispherical reflectance", "rt1/rtplots.py hemreflect")],
    observe="Volume.p, Surface.brdf, legendre expansion, hemreflect")

add("P06", "A linear combination behaves as the weighted sum of its components",
    "A combined phase function or BRDF evaluates, expands, differentiates and enters the complete model (interaction included) exactly as the weighted sum of its components, "
    "whatever their order, number, series lengths and scattering-angle parameters, and whether weights are numbers or fit parameters. (Components that share the scattering-angle parameters are expanded to the longest of their series.)",
    ["inputs", "configurations"],
    "1..4 components of all types, shared and differing scattering-angle parameters, differing series lengths, numeric and symbolic weights",
    "Tests combine at most two components and never evaluate the interaction of combined volumes.",
    ["rt1/surface.py", "rt1/volume.py", "rt1/rt1.py"],
    [("grouping of components by scattering angle", "rt1/volume.py LinCombV._Vcombiner, rt1/surface.py LinCombSRF._SRFcombiner")],
    observe="LinCombV / LinCombSRF in RT1.calc(), p(), brdf(), legexpansion()")

add("P07", "Evaluation-geometry choices and reciprocity do not change the physics",
    "Declaring angles as fixed or variable (or the whole setup as monostatic) only affects speed: every admissible declaration yields the same contributions as the fully variable evaluation at the same angles, and inadmissible ones are refused. "
    "Exchanging source and receiver directions leaves each contribution divided by the cosine of the incidence angle unchanged.",
    ["inputs", "configurations"],
    "all 16 fixed/variable declarations plus monostatic, all scattering functions, arbitrary incidence/exit zenith and azimuth angles",
    "Tests use the monostatic and one bistatic declaration only.",
    ["rt1/rt1.py", "rt1/surface.py", "rt1/volume.py", "doc/model_specification.rst"],
    [("selection of symbolic vs numeric angles", "rt1/surface.py legexpansion, rt1/volume.py legexpansion"), ("second interaction path with exchanged angles", "rt1/rt1.py RT1._calc_Fint_2")],
    observe="RT1(geometry=...).calc()")

add("P08", "Results do not depend on how expressions are compiled or parametrised",
    "The code-generation backend, supplying previously generated coefficients or compiled functions, and giving a parameter as a number or as a symbol with a value (scalar or array, in any dictionary order) are interchangeable: "
    "they yield the same contributions and derivatives.",
    ["inputs", "configurations"],
    "both backends, re-used coefficients/functions, every parameter symbolic or numeric, permuted parameter dictionaries, element-wise array parameters",
    "Tests run one backend on a few fixed configurations.",
    ["rt1/rt1.py", "rt1/surface.py", "rt1/volume.py"],
    [("code generation", "rt1/rt1.py RT1._set_fnevals/_set_fn"), ("parameter hand-over", "rt1/rt1.py RT1._calc_Fint_*"), ("cached lambdas", "Surface._lambda_func / Volume._lambda_func")],
    observe="RT1.calc(), RT1.jacobian()")

add("P09", "Results depend only on the current settings, never on the history",
    "After any sequence of evaluations and re-assignments of public settings (angles, parameters, dataset, units, parameter definitions, scattering functions), a model or fit object returns exactly what a freshly created object with the same settings returns. "
    "Evaluating, plotting-free inspection, pickling or copying an object never changes what it returns later, and never affects other objects or the user's inputs.",
    ["histories"],
    "random interleavings of reads, evaluations, fits and re-assignments on one or several live objects",
    "Unit tests create an object and use it once; stale caches only show in sequences.",
    ["rt1/rt1.py", "rt1/rtfits.py", "rt1/surface.py", "rt1/volume.py"],
    [("cached properties and their invalidation", "rt1/rtfits.py Fits.__setattr__/_clear_cache, rt1/rt1.py lru_cache properties"), ("re-use of compiled interaction functions", "rt1/rtfits.py Fits.R")],
    observe="RT1.calc(), Fits.calc_model(), Fits.res_df, Fits.inc/data/index")

add("P10", "Each fit parameter varies exactly as its declared variability says",
    "For every dataset and variability declaration (constant, time offset, number of dates, per date, manual column, or a combination) two observations share a parameter value if and only if the declaration puts them in the same group, "
    "the number of estimated values equals the number of groups, and every observation is assigned to exactly one joint group.",
    ["inputs", "configurations"],
    "datasets with duplicate, irregular, gappy and unsorted dates, all declarations and their combinations, manual labels of any integer/float/string kind in any order",
    "Tests use two fixed datasets with common declarations.",
    ["rt1/rtfits.py", "rt1/general_functions.py"],
    [("grouping", "rt1/rtfits.py Fits.param_dyn_dict/param_dyn_df/_groupindex/_manual_dyn_df/_timescaledict")],
    observe="Fits.param_dyn_dict, Fits.param_dyn_df, fit results")

add("P11", "Fitted values, model values and data stay aligned with the dataset",
    "The per-date parameter table, the modelled values and the internal data/incidence arrays associate every observation with its own date, incidence angle, weight, auxiliary value and group parameter, "
    "independent of row order and of how many observations each date has; padding never reaches any result, and interpolated parameters follow the quadratic interpolation through the group mean dates.",
    ["inputs", "configurations"],
    "datasets with ragged numbers of observations per group, shuffled rows, interleaved manual groups, auxiliary columns, interpolated parameters",
    "Tests check aggregate fit results on regular data; misalignment of a few padded entries stays within their tolerances.",
    ["rt1/rtfits.py", "rt1/general_functions.py"],
    [("rectangular padding and masks", "rt1/general_functions.py rectangularize, rt1/rtfits.py Fits._get_data/mask"), ("assignment of values", "rt1/rtfits.py Fits._assignvals/res_df/calc_model")],
    observe="Fits.res_df, Fits.calc_model(), Fits.inc/data/mask/index, Fits.calc()")

add("P12", "The optimiser receives the exact derivative of the residuals it minimises",
    "In every fit the derivative matrix handed to the optimiser equals the derivative of the residual vector handed to the optimiser (surface and volume part), row by row and column by column, "
    "for any grouping, functional parameter definition, interpolation-free assignment, data weights and units.",
    ["inputs", "configurations"],
    "random datasets, groupings (contiguous and interleaved), direct and functional definitions of omega/tau/NormBRDF, shared parameters, weights, all unit combinations",
    "A wrong derivative only degrades convergence; the tests start close to the solution.",
    ["rt1/rtfits.py", "rt1/rt1.py"],
    [("assembly of the sparse derivative matrix", "rt1/rtfits.py Fits._calc_jac/_jac_assign_rule"), ("inner derivatives of functional definitions", "rt1/rtfits.py Fits._get_V_SRF_diff_funcs")],
    observe="arguments and callbacks of scipy.optimize.least_squares")

add("P13", "A fit respects its bounds, never gets worse, and recovers noise-free truth",
    "A fit returns parameters inside their declared bounds whose weighted squared residual is not larger than at the start values, reports exactly the residual of those parameters, and leaves fixed parameters at their declared or auxiliary values. "
    "On noise-free data simulated from a well-conditioned model inside the bounds it reproduces the data.",
    ["inputs", "configurations"],
    "random models, groupings, start values (constant or auxiliary), bounds, weights, auxiliary inputs, units and optimiser settings",
    "Tests fit two fixed datasets and compare to wide tolerances.",
    ["rt1/rtfits.py"],
    [("least-squares set-up", "rt1/rtfits.py Fits.performfit/_startvaldict/_boundsvaldict"), ("fixed and auxiliary values", "rt1/rtfits.py Fits.fixed_dict/_setdict")],
    observe="Fits.res_dict, Fits.fit_output, Fits.res_df")

add("P14", "Unit settings are exact re-expressions of the same model",
    "With identical parameters the predictions for intensity/sigma0 and linear/dB settings are related by sigma0 = 4*pi*cos(inc)*I and dB = 10*log10(linear) for the total and every contribution, "
    "and residuals are formed in the unit the dataset is declared in.",
    ["inputs", "configurations"],
    "all four unit settings, all model definitions, with and without components and interaction, direct evaluation and evaluation on the dataset",
    "Tests fix one unit setting per dataset.",
    ["rt1/rtfits.py"],
    [("unit conversion of model values", "rt1/rtfits.py Fits._calc_model")],
    observe="Fits.calc(), Fits.calc_model(), residuals seen by the optimiser")

add("P15", "Saved fits load back as equivalent fits",
    "A single or multi-configuration fit that is dumped (minimal or full), loaded, pickled or re-initialised yields the same settings, dataset, results and model predictions as the original, "
    "and saving leaves the original fully usable and unchanged.",
    ["inputs", "histories"],
    "fits before and after fitting, minimal/full dumps, both backends, callable and dictionary definitions, repeated dump/load generations",
    "Tests load a few stored dumps and compare a handful of attributes.",
    ["rt1/rtfits.py", "rt1/rt1.py", "rt1/_containers.py"],
    [("state handling", "rt1/rtfits.py Fits.__getstate__/__setstate__/dump/load/_reinit_object, rt1/rt1.py RT1.__getstate__")],
    observe="Fits.dump, rtfits.load, pickle, Fits.reinit_object")

add("P16", "Parameter definitions survive every representation unchanged",
    "A parameter definition set given as dictionary, table or single entries means the same thing in every representation: converting it back and forth preserves fit flag, value, variability, bounds and interpolation of every parameter, "
    "and a fit using any of the representations behaves identically.",
    ["inputs"],
    "random definition sets mixing fitted, fixed and auxiliary parameters with short and full entries",
    "Tests only use full list entries.",
    ["rt1/_containers.py", "rt1/rtfits.py"],
    [("definition container", "rt1/_containers.py _RT1_defdict/_RT1_variable")],
    observe="defdict conversions, Fits.defdict")

add("P17", "Configuration files mean what they say",
    "Every value of a processing configuration file is interpreted with its documented type, units, scopes (defaults, per-configuration overrides, linear combinations) and precedence, and comes out as the equivalent programmatic fit definition; "
    "overrides touch exactly the entries they name, and malformed files are refused with an error instead of being misread.",
    ["inputs", "configurations"],
    "random configuration files with single and multiple fit configurations, nested overrides, linear combinations, dates, lists, numbers, strings, modules and paths, and systematically damaged variants",
    "Tests parse two fixed files.",
    ["rt1/rtparse.py"],
    [("configuration parser", "rt1/rtparse.py RT1_configparser")],
    observe="RT1_configparser(...).get_config/get_fit/get_all_fits/get_process_specs")

add("P18", "Parallel processing delivers every site exactly once, independent of scheduling",
    "A processing run stores exactly one result per readable site, identical to what a sequential run over the same sites gives, for every number of worker, combiner and writer processes, chunk and flush setting and timing of the workers, and it terminates.",
    ["schedules", "configurations", "inputs"],
    "numbers of sites and processes, write-chunk sizes, injected delays in readers, random completion orders, single and multiple configurations",
    "Tests run one tiny job with fixed process numbers; loss or duplication depends on chunk boundaries and timing.",
    ["rt1/rtprocess.py", "rt1/_rtprocess_writer.py", "rt1/processing_config.py"],
    [("worker, combiner and writer pipeline", "rt1/_rtprocess_writer.py RT1_processor"), ("per-site fit", "rt1/rtprocess.py RTprocess._evalfunc/run_processing")],
    observe="result store after RTprocess.run_processing")

add("P19", "Interrupted or repeated processing continues without loss or duplicates",
    "Re-running a processing task over an existing result store adds exactly the sites that are still missing, keeps every stored result unchanged, and keeps site numbers unique and permanently tied to their site, whatever part of the sites was finished before and in whatever order the list is given. A site whose dump-file exists is taken over from it with the same results if its reader reports so.",
    ["histories", "crash_points"],
    "prior stores with any subset of finished sites, several consecutive runs, permuted and extended site lists, runs killed while sites are being processed",
    "Tests process once into an empty folder.",
    ["rt1/rtprocess.py", "rt1/_rtprocess_writer.py", "rt1/general_functions.py"],
    [("site numbering and skipping", "rt1/_rtprocess_writer.py RT1_processor, rt1/general_functions.py find_missing")],
    observe="result store after consecutive runs")

add("P20", "Stored processing results re-create the fits they came from",
    "Every fit stored in a result store can be re-created from it with the same definitions, dataset, auxiliary data, estimated parameters and model predictions as the fit object that was stored, for single and multiple configurations and for every storage option.",
    ["inputs", "configurations"],
    "random fits and multi-fits, storage options (with/without data, auxiliary data, results), several sites per store",
    "Tests load one stored database and touch few attributes.",
    ["rt1/rtresults.py", "rt1/rtfits.py", "rt1/_rtprocess_writer.py"],
    [("conversion to tables", "rt1/rtfits.py Fits._get_fit_to_hdf_dict"), ("re-creation", "rt1/rtresults.py HDFaccessor.load_fit")],
    observe="HDFaccessor.load_fit, RTresults.load_fit")

add("P21", "Result-store queries return exactly the requested rows",
    "Every way of querying a result store (by site, site list, count, position, chunked iteration, columns) returns exactly the rows of the requested sites, each once, identical to the stored tables, whatever the chunk size and the number of sites.",
    ["inputs", "configurations"],
    "stores with varying numbers of sites and rows per site, all query functions, chunk sizes around the boundaries",
    "Tests do not query chunk boundaries at all.",
    ["rt1/rtresults.py"],
    [("indexed access", "rt1/rtresults.py HDFaccessor")],
    observe="HDFaccessor query methods")

add("P22", "Metrics equal their mathematical definition on correctly paired samples",
    "Every performance metric equals its textbook definition evaluated on the pairs of values that belong to the same date, however the two series were provided (series, data columns, model components, fit results, auxiliary data), and derived tables and scatter data use the same pairs.",
    ["inputs"],
    "random samples with differing lengths, missing values, duplicate dates, dataset/result/model/auxiliary keys",
    "Tests compare some metrics on one array pair.",
    ["rt1/rtmetrics.py"],
    [("metrics", "rt1/rtmetrics.py RTmetrics"), ("pairing of series", "rt1/rtmetrics.py _metric_keys/_RTmetrics")],
    observe="RTmetrics, Fits.metric")

add("P23", "Exports contain exactly the fitted results",
    "Exporting results to a table store writes for every requested site, configuration, parameter and date exactly the value the stored fit holds (in the requested units), and nothing else; the export covers the results available when it is made, from the store or from dump-files, exporting in pieces equals exporting at once, and neither the processed results nor the given arguments are changed.",
    ["inputs", "configurations", "histories"],
    "parameter selections (data, dynamic, static, constant, auxiliary parameters, model components, reader arguments, own functions, metrics), several sites and configurations, unit options, piecewise export, processing and exports in turns",
    "Tests check that files exist.",
    ["rt1/rtprocess.py", "rt1/processing_config.py", "rt1/rtresults.py"],
    [("export functions", "rt1/rtprocess.py RTprocess.export_data_to_HDF/_HDF_export_postprocess/_postprocess_getparams/run_finaloutput")],
    observe="exported datasets")

add("P24", "Multi-configuration fits equal independent single fits",
    "Every configuration of a multi-configuration fit behaves exactly like the same fit run alone on the shared dataset; broadcasting settings and calls reaches every configuration exactly once with the given arguments, and changing one configuration never affects another.",
    ["histories", "configurations"],
    "1..4 configurations, random sequences of adding configurations, replacing shared data, broadcasting calls with positional and keyword arguments, fitting in any order",
    "Tests build one multi-fit and call it once.",
    ["rt1/rtfits.py"],
    [("broadcasting", "rt1/rtfits.py MultiFits/_MultiAccessors/_FitContainer")],
    observe="MultiFits.accessor/apply/set_dataset/configs")

add("P25", "Series-regrouping helpers lose, invent and reorder nothing",
    "Splitting, chunking, grouping, padding and index-matching helpers are exact: recombining their output gives back the input in order, masks mark exactly the padding, gaps are reported exactly, and results equal a direct reference computation for every input including empty and single-element ones.",
    ["inputs"],
    "random nested, ragged, empty and single-element inputs, arrays and lists, datetimes with and without duplicates",
    "No direct tests exist.",
    ["rt1/general_functions.py"],
    [("helpers", "rt1/general_functions.py rectangularize/groupby_unsorted/split_into/meandatetime/find_missing/pairwise/dt_to_hms/interpolate_to_index")],
    observe="public helper functions")

add("P26", "A failing site costs only that site",
    "Whatever goes wrong while one site is read, fitted or post-processed (missing data, bad data, exceptions derived from Exception), all other sites are still processed with unchanged results, the failing site leaves no partial or foreign result in the store, and the run terminates and releases its processes. If results cannot be saved at all the run reports an error instead of losing them silently.",
    ["fault_sequences", "configurations"],
    "random subsets of sites failing in the reader, the pre-processing, the fit or the post-processing with different exception types, under several process numbers",
    "Tests contain no failing site.",
    ["rt1/rtprocess.py", "rt1/_rtprocess_writer.py", "rt1/processing_config.py"],
    [("exception handling per site", "rt1/rtprocess.py RTprocess._evalfunc, rt1/processing_config.py exceptfunc"), ("shutdown", "rt1/_rtprocess_writer.py RT1_processor")],
    observe="result store and process table after RTprocess.run_processing")

add("P27", "Names and order of parameters are irrelevant",
    "Renaming the free parameters of a model or fit to any other valid names (identifiers other than the symbols and properties of the model and the dataset itself: n, theta_*, phi_*, tau, omega, NormBRDF, bsf, inc, sig, data_weights, index, date, self, and functions used in the expressions), permuting the order of the parameter definitions, or passing parameter values in a different dictionary order changes no prediction, derivative or fitted value.",
    ["inputs", "configurations"],
    "valid names including ones that coincide with mathematical constants, functions or internal helper names; all orderings of definitions",
    "Tests use a fixed handful of names in one order.",
    ["rt1/rtfits.py", "rt1/rt1.py"],
    [("symbol creation", "rt1/rtfits.py Fits._setdict/_init_V_SRF, rt1/rt1.py RT1._set_fnevals"), ("positional hand-over of values", "rt1/rt1.py RT1._calc_Fint_*")],
    observe="RT1.calc(), Fits.calc(), Fits.calc_model(), Fits.performfit()")

add("P28", "Figures show exactly the model and data they claim",
    "Every figure drawn from a fit or a scattering function shows exactly the measurements, model values, parameter values, residuals or scattering values that its axes, selections and units claim, each at its own date and incidence angle, also after interactive changes. Drawing a figure never changes the fit.",
    ["inputs", "configurations", "histories"],
    "fits with ragged and repeated dates, re-appearing groups, all unit settings, selections of dates, months and years, component choices, slider moves and button presses; scattering functions with numeric and symbolic parameters",
    "The tests only check that the figures can be created; what is drawn is never compared with anything.",
    ["rt1/rtplots.py"],
    [("figures of a fit", "rt1/rtplots.py plot.scatter/fit_timeseries/fit_errors/results/single_results/intermediate_results/intermediate_residuals/analyzemodel/printsig0analysis"),
     ("scattering diagrams", "rt1/rtplots.py polarplot/hemreflect")],
    observe="artists of the created matplotlib figures")

add("P29", "A processing set-up uses and records exactly the specified configuration",
    "After a set-up of a processing, the fit, the processing class and its specifications are exactly those of the configuration file with all overriding definitions (given at initialization, replaced or updated by override_config in any order), the configuration and modules in use are recorded in the folder of the results, and an already recorded configuration and modules are used unchanged (for the fit definition and the modules) unless overriding definitions are given. The original files are never changed, results are only removed after a confirmed REMOVE, every result folder is found under its own name, and the name of an output file given for one call is not kept for later calls.",
    ["inputs", "configurations", "histories"],
    "histories of set-ups, overrides, edits of the files, several result folders and objects, single and multi-configuration files, all answers to the prompts",
    "Tests run one set-up with one override; sequences of set-ups and overrides, edits in between and the recorded copies are never looked at.",
    ["rt1/rtprocess.py", "rt1/rtparse.py", "rt1/rtresults.py"],
    [("set-up", "rt1/rtprocess.py RTprocess.__init__/override_config/setup/_copy_cfg_and_modules/_remove_dumpfolder/_confirm_input"),
     ("result folders", "rt1/rtresults.py RTresults")],
    observe="attributes of RTprocess after setup(), files of the result folders, RTresults")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
