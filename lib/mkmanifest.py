"""Writes properties.jsonl and MANIFEST.json from one table.  usage: python3 lib/mkmanifest.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(pid, title, statement, over, text, why, files, mech, observe, technique=None, note=None):
    return dict(id=pid, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                         "observe_at": observe, "hook_needed": None}, technique=technique, note=note)


TECH = "TLA+ specification (%s) model-checked with TLC; %s"
PROPS = [
 P("C01", "A valid configuration file is understood exactly as written",
   "For every valid configuration file the programs build the model the text denotes: options, function sets with their centres, functions in order, and for each parameter its value, limits or fixed status and label, in file order; comments, blank lines, surrounding white space and keyword-like words inside comments or labels never change the result.",
   ["inputs"], "every sequence of well-formed lines of the documented configuration-file language, with any layout",
   "the tests parse a handful of fixed files; the guarantee is about every arrangement of sets, functions, limits, comments and white space",
   ["core/config_file_parser.cpp", "core/utilities.cpp", "core/add_functions.cpp"],
   [("line-by-line parser", "core/config_file_parser.cpp ReadConfigFile"), ("function factory", "core/add_functions.cpp AddFunctions")],
   ["printed parameter list of imfit", "image computed by makeimage"],
   "Config.tla", "configuration texts generated by TLC and at random are given to the real imfit/makeimage and the understood model is validated against the specification"),
 P("C02", "Malformed configurations are refused before anything is computed",
   "A configuration file that violates the documented rules (missing or misplaced X0/Y0, no functions, unknown function, wrong number of parameters, non-numeric value or limits, lower limit not below upper limit, starting value outside its limits, malformed option) makes the programs stop with a non-zero exit status and an error message, without crashing and without writing any output file; a valid one is never refused.",
   ["inputs", "configurations"], "every line-level corruption of every valid configuration file",
   "the tests try a dozen fixed bad files",
   ["core/config_file_parser.cpp", "core/add_functions.cpp", "core/imfit_main.cpp", "core/makeimage_main.cpp"],
   [("vetting", "core/config_file_parser.cpp VetConfigFile"), ("limits check", "core/config_file_parser.cpp AddParameterAndLimit"), ("parameter count", "core/add_functions.cpp AddFunctions")],
   ["exit status", "files written"],
   "Config.tla", "corrupted configuration texts are run through the real programs; verdict and side effects validated against the specification"),
 P("C03", "Command-line options are parsed as documented",
   "For every command line, each flag and option takes effect exactly when given, in any position and in short, long (--name value, --name=value) form; an option that may be repeated keeps all its values in order, one that may not keeps its first; non-option words are kept in order as arguments; unknown options or missing values are an error that stops the program before any output.",
   ["inputs", "configurations"], "every sequence of command-line words",
   "the tests parse a few dozen fixed command lines",
   ["core/commandline_parser.cpp", "core/makeimage_main.cpp", "core/imfit_main.cpp"],
   [("option parser", "core/commandline_parser.cpp ParseCommandLine")], ["parser results", "program behaviour"],
   "CmdLine.tla", "command lines enumerated by TLC are given to the real parser and the answers validated against the specification"),
 P("C04", "Every image function shows its documented surface brightness",
   "For all parameter values and every pixel, each image function gives the surface brightness its documentation states: position angles are counted counter-clockwise from the +y axis, isophotes are the documented (generalised) ellipses about the centre, brightness is proportional to the intensity parameter and distances scale with the length parameters, the radial and vertical profiles are the documented ones (with their limiting cases), three-dimensional functions are the line-of-sight integrals of their luminosity densities at the stated inclination; with subsampling a pixel near the centre shows the mean over its area. Values are finite.",
   ["inputs"], "all functions, parameter values, positions and image sizes",
   "unit tests evaluate a few functions at a few points for one set of parameter values; errors in an orientation, a limiting branch or one parameter range show only elsewhere",
   ["function_objects/"],
   [("per-pixel value", "function_objects/*.cpp GetValue"), ("radial profiles", "function_objects/*.cpp CalculateIntensity"),
    ("line-of-sight integration", "function_objects/integrator.cpp Integrate"), ("helpers", "function_objects/helper_funcs.cpp, helper_funcs_3d.cpp")],
   ["makeimage output image"],
   "Geometry.tla, Profiles.tla", "views (turned, mirrored, zoomed, brightened) and functions enumerated by TLC are rendered by the real makeimage and every pixel validated against the specification"),
 P("C05", "The model image is the sum of its components with their own parameters",
   "For every configuration, each pixel of the model image is the sum of the surface brightnesses of all listed functions, each evaluated at that pixel with its own parameter values and the centre of its own function set; with pixel (1,1) centred at coordinate (1,1), whatever the image shape, number of functions or number of threads.",
   ["inputs", "configurations"], "all image sizes, numbers and orders of function sets and functions, centres and parameter values",
   "tests compare a few fixed images; routing errors show only for particular combinations of sets and functions",
   ["core/model_object.cpp", "core/add_functions.cpp", "function_objects/"],
   [("parameter offsets", "core/model_object.cpp CreateModelImage"), ("function-set starts", "core/model_object.cpp DefineFunctionSets")],
   ["makeimage output image", "makeimage --output-functions images"],
   "Image.tla", "models enumerated by TLC and generated at random are rendered by the real makeimage and every pixel validated against the specification"),
 P("C06", "The fit statistic measures exactly the unmasked data against the model",
   "For every data, model, mask, error and option combination the statistic the programs report is the documented one - chi^2 with data-based, model-based or supplied errors, Cash statistic, or Poisson MLR - summed over exactly the unmasked pixels (with both mask conventions, and gain, read noise, combined exposures, exposure time and original sky accounted for), bad pixel values under the mask having no influence; degrees of freedom, reduced chi^2, AIC and BIC follow from it; inputs for which it would be undefined are refused.",
   ["inputs", "configurations"], "all data, error, mask images and all combinations of statistic and image-description options",
   "tests check a few statistic values on two images; masks, units and error conventions combine in too many ways",
   ["core/model_object.cpp", "core/statistics.cpp", "core/setup_model_object.cpp", "core/imfit_main.cpp", "core/print_results.cpp"],
   [("weights from errors", "core/model_object.cpp GenerateErrorVector AddErrorVector"), ("mask", "core/model_object.cpp AddMaskVector ApplyMask FinalSetupForFitting"),
    ("statistics", "core/model_object.cpp ChiSquared CashStatistic PoissonMLRStatistic UpdateWeightVector")],
   ["fit statistic, AIC, BIC, degrees of freedom printed by imfit", "--save-weights image"],
   "FitStat.tla", "sessions enumerated by TLC and generated at random are run through the real imfit (fit-statistic-only and fitting) and every reported value validated against the specification"),
 P("C07", "Parameter limits and fixed parameters are always respected",
   "During and after every fit, with every minimisation algorithm, a fixed parameter keeps exactly its starting value and a parameter with limits is never evaluated or returned outside them (PRAXIS, which has no notion of limits, is held to this only for what it returns), for any combination of fixed, limited and free parameters and any starting point, including one on a limit; DE refuses parameters without limits.",
   ["inputs", "histories"], "all combinations of solver, fixed/limited/free parameters, starting values and fit-statistic landscapes; every evaluation of every fit",
   "the tests check the final values of a few fits; a violation may happen only at intermediate evaluations or for particular mixes of fixed and limited parameters",
   ["solvers/levmar_fit.cpp", "solvers/mpfit.cpp", "solvers/diff_evoln_fit.cpp", "solvers/DESolver.cpp", "solvers/nmsimplex_fit.cpp", "solvers/nlopt_fit.cpp"],
   [("limits in MPFIT", "solvers/mpfit.cpp mpfit"), ("fixed parameters as collapsed limits", "solvers/diff_evoln_fit.cpp DiffEvolnFit"),
    ("limits for NLopt", "solvers/nmsimplex_fit.cpp NMSimplexFit, solvers/nlopt_fit.cpp NLOptFit")],
   ["every evaluation of the objective by the real solver", "returned parameters"],
   "Solver.tla", "fit problems enumerated by TLC and generated at random are run by the real solvers and every evaluated point and the result validated against the specification"),
 P("C08", "A fit returns the best solution it found and reports its statistic",
   "Whatever the algorithm, the fit statistic reported after a successful fit is the statistic of the parameters returned, these are never worse than the start and (up to the documented tolerance) never worse than the best point evaluated; a statistic that is not a number, an impossible request (no free parameter, DE without limits) or an exhausted budget is never called success; on smooth single-minimum problems the minimum is found.",
   ["inputs", "histories"], "all fit problems, solvers, tolerances and seeds",
   "tests compare final parameters of a few fits on a few images; which point is returned depends on the whole evaluation history",
   ["solvers/levmar_fit.cpp", "solvers/mpfit.cpp", "solvers/diff_evoln_fit.cpp", "solvers/DESolver.cpp", "solvers/nmsimplex_fit.cpp", "solvers/nlopt_fit.cpp", "solvers/dispatch_solver.cpp", "solvers/solver_results.cpp"],
   [("selection of the returned point", "solvers/mpfit.cpp mpfit, solvers/DESolver.cpp Solve"), ("result bookkeeping", "solvers/dispatch_solver.cpp DispatchToSolver")],
   ["returned parameters, status and statistic against the recorded evaluations"],
   "Solver.tla", "fit problems enumerated by TLC and generated at random are run by the real solvers and their whole evaluation history and result validated against the specification"),
 P("C09", "Ctrl-C stops a fit promptly and keeps what was found",
   "An interrupt (SIGINT) at any moment of a fit makes the running algorithm stop within a few more model computations; the parameters found so far (never worse than the start for Levenberg-Marquardt and simplex, the best of the search for Differential Evolution) are saved, with their own fit statistic, in the separate interrupted-fit file; no other result of the session, nor of an earlier session in the same directory, is written or changed, and no bootstrap follows.",
   ["schedules", "histories"], "every moment of every fit with every solver, and every history of sessions in a directory",
   "no test sends a signal; the moment of the interrupt decides which state the solver is in",
   ["core/imfit_main.cpp", "solvers/mpfit.cpp", "solvers/DESolver.cpp", "solvers/nmsimplex_fit.cpp", "solvers/nlopt_fit.cpp", "solvers/levmar_fit.cpp"],
   [("signal flag", "core/imfit_main.cpp signal_handler"), ("polls", "solvers/*.cpp stopSignal_flag")],
   ["model computations after the signal", "files of the directory", "saved parameters"],
   "Solver.tla and FitSession.tla", "stops enumerated by TLC are delivered to the real solvers at chosen evaluations and to the real imfit as SIGINT at chosen model computations, and conduct, result and files validated against the specification"),
 P("C10", "A fit session's reports and files tell the same, reproducible story",
   "After a finished session the reported statistic, the parameter file and the model, residual and weight images all describe the same best fit: the statistic is that of the saved parameters (re-reading the saved file as a configuration reproduces it, and makeimage reproduces the model image), residual = data - model, parameter uncertainties and best-fit amplitudes of linear models are those of weighted least squares, positions are given in full-image coordinates also for image sections; exactly the requested files are written.",
   ["inputs", "histories"], "all problems, solvers, output options and histories of sessions in a directory",
   "tests compare the printed output of a few fits; consistency between outputs is a relation no sample pins down",
   ["core/imfit_main.cpp", "core/print_results.cpp", "core/model_object.cpp", "core/setup_model_object.cpp"],
   [("saving of results", "core/print_results.cpp SaveParameters"), ("image offsets", "core/model_object.cpp AddImageOffsets PrintModelParamsToStrings"), ("residual image", "core/model_object.cpp GetResidualImageVector")],
   ["imfit output, parameter file and FITS images"],
   "FitSession.tla", "histories of sessions enumerated by TLC are run with the real imfit on random problems and every report and file validated against the specification"),
 P("C11", "Bootstrap resampling reports the spread of genuine refits",
   "Each bootstrap iteration refits a resample (with replacement) of exactly the unmasked pixels, starting at the best fit, with fixed and limited parameters respected; all successful iterations, and only they, are written in full-image coordinates and summarised: the reported mean, standard deviation and 68% interval are those of the rows; resampling never changes the best-fit values, statistic or images reported.",
   ["inputs", "histories"], "all problems, solvers, numbers of iterations, masks and image sections",
   "tests run bootstrap on two fits and compare printed text",
   ["core/bootstrap_errors.cpp", "core/model_object.cpp", "core/statistics.cpp", "core/imfit_main.cpp"],
   [("resampling", "core/model_object.cpp MakeBootstrapSample UseBootstrap EndBootstrap"), ("iterations", "core/bootstrap_errors.cpp BootstrapErrorsBase"), ("summary", "core/bootstrap_errors.cpp PrintBootstrapSummary")],
   ["bootstrap output file, printed summary, saved results"],
   "FitSession.tla", "sessions with bootstrap enumerated by TLC are run with the real imfit and rows, summary and results validated against the specification"),
 P("C12", "imfit-mcmc samples the posterior: every move is one its algorithm allows",
   "The chains of imfit-mcmc are those of the documented sampler (DREAM) for the likelihood of the model, with a constant prior inside the limits and none outside: the chains start as a Latin hypercube inside the limits; each proposal is the current state moved, in a random subset of the free parameters, by the (scaled) difference of the states of other, distinct chains of the last generation; a point outside the limits is never evaluated nor accepted, one without a likelihood never accepted, a better one always, a worse one with probability exp(change of log-likelihood); a rejected proposal repeats the state; outlier chains are replaced by the best one only in the early part and chains adapt only in burn-in (both marked in the output); fixed parameters never change; a run ends at the requested length or when the convergence diagnostic of every free parameter is below the limit.",
   ["inputs", "histories"], "all likelihoods (undefined regions included), limits, numbers of chains and parameters, settings and random sequences",
   "tests check one seeded short run's text output; a sampler with a wrong move or acceptance rule still produces plausible chains",
   ["cdream/dream.cpp", "cdream/dream_initialize.cpp", "cdream/check_outliers.cpp", "cdream/gelman_rubin.cpp", "cdream/gen_CR.cpp", "cdream/dream_params.h", "core/mcmc_main.cpp"],
   [("proposals and acceptance", "cdream/dream.cpp dream"), ("first generation", "cdream/dream_initialize.cpp"), ("outliers", "cdream/check_outliers.cpp"), ("convergence", "cdream/gelman_rubin.cpp"), ("crossover", "cdream/gen_CR.cpp, restore/update functions")],
   ["every evaluation of the likelihood (position, generation, chain)", "every row of the chain files"],
   "Mcmc.tla", "runs of the real dream() on known likelihoods are recorded evaluation by evaluation and validated as behaviours of the specification, whose lattice instance is model-checked (invariants, reversibility of the moves); acceptance and crossover frequencies are pooled over all runs"),
 P("C13", "MCMC chain files survive kills and continuation",
   "After any history of imfit-mcmc runs - complete, killed at any moment, continued with --append, with chain files removed - the chain files hold exactly the generations the runs produced: a run writes one row per generation and chain up to the requested length; a killed run leaves the same number of complete rows in every chain, or one more in the first few; --append keeps every existing byte, continues from the last generation common to all chains and extends every chain to the requested length, or refuses, without touching anything, if a chain is missing or empty. Each row gives the parameters in full-image coordinates, in configuration-file order, within their limits, and their log-likelihood, which is minus half the fit statistic imfit reports for those parameters and the same data options; burn-in rows are marked; the same seed gives the same chains.",
   ["histories", "crash_points", "inputs"], "all histories of runs and kill points, models, data options and chain numbers",
   "tests run one short new run and one continuation and compare their printed output",
   ["core/mcmc_main.cpp", "cdream/dream.cpp", "cdream/restore_state.cpp", "cdream/dream_initialize.cpp", "core/options_mcmc.h", "core/estimate_memory.cpp"],
   [("writing of rows", "cdream/dream.cpp"), ("reading back and truncation to the common generation", "cdream/restore_state.cpp"), ("likelihood", "core/mcmc_main.cpp LikelihoodFuncForDREAM"), ("headers and offsets", "core/mcmc_main.cpp")],
   ["chain files, byte by byte", "exit status"],
   "ChainFiles.tla and ChainRows.tla", "histories enumerated by TLC and generated at random, some with real SIGKILLs, are carried out by the real imfit-mcmc and the files after every run validated against the specification; likelihoods are compared with imfit --fitstat-only"),
 P("C14", "PSF convolution redistributes light exactly and without edge artefacts",
   "With a PSF, every pixel of the model image is the discrete convolution of the unconvolved model with the (by default normalised) PSF, including light that comes from outside the image borders, with the PSF's central pixel marking zero shift; a point source is the scaled PSF itself; this holds for every image and PSF shape (odd, even, non-square, larger than the image) and thread count.",
   ["inputs", "configurations"], "all PSF shapes/contents, image shapes, source positions and thread counts",
   "tests use a few fixed PSFs and images",
   ["core/convolver.cpp", "core/model_object.cpp", "function_objects/func_pointsource.cpp", "function_objects/psf_interpolators.cpp"],
   [("FFT convolution with padding", "core/convolver.cpp ConvolveImage"), ("expanded model image", "core/model_object.cpp SetupModelImage")],
   ["makeimage output image"],
   "Image.tla", "models and PSFs enumerated by TLC and generated at random are rendered by the real makeimage and every pixel validated against the specification"),
 P("C15", "Oversampled regions replace exactly their own pixels",
   "For every set of oversampled regions, a pixel inside a region equals the mean over its subpixels of the model computed on the finer grid and convolved with that region's PSF; pixels outside all regions are unaffected; regions partly outside the image affect only the part inside, and the result is the same however often and with however many threads the image is computed.",
   ["inputs", "configurations"], "all region positions, sizes, oversampling scales, PSFs and numbers of regions",
   "tests use two fixed square regions",
   ["core/oversampled_region.cpp", "core/downsample.cpp", "core/model_object.cpp", "core/psf_oversampling_info.cpp", "core/setup_model_object.cpp"],
   [("subpixel grid", "core/oversampled_region.cpp ComputeRegionAndDownsample"), ("block averaging", "core/downsample.cpp DownsampleAndReplace")],
   ["makeimage output image"],
   "Image.tla", "models with regions enumerated by TLC and generated at random are rendered by the real makeimage and every pixel validated against the specification"),
 P("C16", "Image sections and extensions select the right pixels, in full-image coordinates",
   "An image given as file[ext][x1:x2,y1:y2] (either part optional, * for a whole dimension, gzip'd or not) makes the programs work on exactly those pixels of that header-data unit - data, mask, noise and PSF images alike - while all coordinates in configuration files, limits, --overpsf_region and in every output (best-fit files, bootstrap and MCMC samples) refer to the full image: the result equals that of fitting a cut-out with shifted coordinates. A reference that does not select a 2-D image, or a mask or noise image of another size than the data, stops the program with an error before any output is written.",
   ["inputs", "configurations"], "all files with one or more header-data units of any kind, all references to them, all combinations of data, mask, noise, PSF and oversampled-PSF images",
   "tests use a handful of fixed sections; each kind of coordinate (start value, limits, region, output) and each kind of image is offset by separate code",
   ["core/utilities.cpp", "core/image_io.cpp", "core/getimages.cpp", "core/imfit_main.cpp", "core/mcmc_main.cpp", "core/psf_oversampling_info.cpp", "core/print_results.cpp", "core/bootstrap_errors.cpp"],
   [("section offset", "core/utilities.cpp DetermineImageOffset"), ("which HDU", "core/image_io.cpp CheckForImage ReadImageAsVector"), ("size check", "core/getimages.cpp GetAndCheckImage"),
    ("offsets of limits and values", "core/imfit_main.cpp, core/mcmc_main.cpp"), ("regions", "core/psf_oversampling_info.cpp GetCorrectedRegionCoords")],
   ["saved model, residual and weight images", "best-fit, bootstrap and chain files", "exit status and files"],
   "Section.tla", "files, references and auxiliary images enumerated by TLC and generated at random are given to the real imfit, imfit-mcmc and makeimage and every pixel and coordinate they output validated against the specification"),
 P("C17", "Unusable input files stop a program; unwritable outputs are reported",
   "imfit, imfit-mcmc, makeimage, makemultimages and multimfit use an input file - configuration, image description, data, mask, noise, PSF, oversampled PSF or reference image - only if it is usable: there, readable, complete, of the right kind (a two-dimensional image with pixels; an existing extension that is an image; a section inside the image) and, for masks and noise images, of the data's shape. The first that is not ends the run with an error message and a non-zero status, without a crash, before anything is computed; nothing is written and results of earlier runs stay as they were. An output that cannot be written is reported by name; the others are written completely, unless the best-fit parameters or chains themselves cannot be saved, when the run fails. Otherwise a run ends with status 0 and has written all it was asked for.",
   ["inputs", "faults", "histories"], "all conditions of all files of all programs, in all combinations, after any earlier runs",
   "tests give a few missing or mis-shaped files to imfit and makeimage, one at a time",
   ["core/image_io.cpp", "core/getimages.cpp", "core/imfit_main.cpp", "core/mcmc_main.cpp", "core/makeimage_main.cpp", "core/makemultimages_main.cpp", "core/multimfit_main.cpp", "core/imageparams_file_parser.cpp", "core/config_file_parser.cpp"],
   [("images read", "core/image_io.cpp CheckForImage, GetImageSize, ReadImageAsVector"), ("masks and noise", "core/getimages.cpp GetMaskAndErrorImages"), ("programs", "core/*_main.cpp")],
   ["exit status", "standard error", "files before and after"],
   "Files.tla", "worlds of usable and unusable files enumerated by TLC are put together in scratch directories, the real programs run in them, and the histories validated against the specification"),
 P("C18", "makeimage's flux table reports the components' total fluxes",
   "The table of --print-fluxes and --save-fluxes has one row per function in configuration order, with its name and label, and a final row for the total. A component's flux is its total flux (analytic where the documentation gives one, otherwise the sum over the square image of the estimation size), background functions count zero; the total is the sum, fractions are flux over total, magnitudes are zero point - 2.5 log10(flux), shown only with a zero point and positive flux. The table depends on nothing else (image size, PSF, centres, threads, output file), and a file that cannot be written is an orderly error.",
   ["inputs", "configurations"], "all models, estimation sizes, zero points and combinations of the flux options",
   "one test compares the output for one two-component model",
   ["core/makeimage_main.cpp", "core/model_object.cpp", "function_objects/"],
   [("flux table", "core/makeimage_main.cpp DetermineFluxes"), ("integration", "core/model_object.cpp FindTotalFluxes"), ("closed forms", "function_objects/func_exp.cpp, func_gaussian.cpp, func_sersic.cpp, func_pointsource.cpp TotalFlux")],
   ["printed and saved flux tables"],
   "Flux.tla", "models enumerated by TLC and generated at random are tabulated by the real makeimage and every entry validated against the specification"),
 P("C19", "Joint models of several images: what every image sees",
   "makemultimages and multimfit apply one model to several images. The reference image sees the function sets as stated; another image sees them with its first set at its own X0,Y0, the other sets at their offsets from the first rotated by IMAGE_PA and divided by PIXEL_SCALE, position angles reduced by IMAGE_PA, lengths divided by PIXEL_SCALE (inverse lengths multiplied), intensities multiplied by FLUX_SCALE, slopes of a sky plane rotated and scaled, and shape parameters unchanged; functions local to an image are taken as they are, in that image alone. So each image makemultimages writes is the one makeimage makes of the model so adjusted; multimfit's statistic is the sum of those imfit reports for each image with its own data, mask, errors, gain, read noise, sky, PSF and section; its degrees of freedom count all valid pixels less the free parameters; the parameters it saves per image are those of the adjusted model, in coordinates of the full image; and what it saves reproduces its statistic. A joint fit ends no worse than it began, inside limits, with fixed parameters (pixel scales and rotations without limits among them) unchanged. A joint bootstrap after it (also with masks, sections, several images and their own functions) saves every sample as the whole parameter vector, one column per name of its header, in coordinates of the full images, free parameters inside limits and fixed ones as they were; its summary tells every parameter once.",
   ["inputs", "configurations"], "all models, numbers of images, image descriptions, per-image functions, data and options",
   "the tests compare four fixed outputs of makemultimages with archived images and do not fit several images at all",
   ["core/makemultimages_main.cpp", "core/multimfit_main.cpp", "core/model_object_multimage.cpp", "core/paramvector_processing.cpp", "core/imageparams_file_parser.cpp", "core/utilities_multimfit.cpp", "core/print_results_multi.cpp", "function_objects/"],
   [("parameters of each image", "core/model_object_multimage.cpp SetupParamsForModelObjects, core/paramvector_processing.cpp"), ("adjusted functions", "function_objects/*.cpp Setup, AdjustParametersForImage"), ("image sections", "core/utilities_multimfit.cpp CorrectForImageOffsets"), ("saved descriptions", "core/print_results_multi.cpp"), ("joint bootstrap", "core/bootstrap_errors.cpp, core/model_object_multimage.cpp")],
   ["images of makemultimages", "statistic, degrees of freedom and saved files of multimfit"],
   "MultiImage.tla", "models in several images, enumerated by TLC and generated at random, are run through the real makemultimages and multimfit and validated image by image against the specification"),
 P("C20", "The same question gets the same answer, however it is asked",
   "What imfit, multimfit, imfit-mcmc, makeimage and makemultimages compute - the numbers in the files they write and the statistics they print - is determined by the model, data, masks, errors, PSF and settings, and, where random numbers are used, the --seed. It does not depend on how the images are stored (64-, 32-bit float, 16-, 32-, 64-bit integer, unsigned or scaled integer, image extension, compressed, other header cards), the layout of the configuration (tabs, comments, blank lines, number formats), whether an option is given on the command line or in the configuration or image-info file, the order and spelling of the command line, verbosity, what else is saved, the convention of the mask or noise image (with the option that says so), the directory, files left over from earlier runs, the environment (locale, OpenMP variables, home, memory contents), nor on the number of threads (exactly, but for the rounding of PSF convolutions). With a seed, differential evolution, bootstrap and chains repeat; with different seeds samples differ.",
   ["inputs", "configurations", "histories"], "all questions, all ways of asking them, and all histories of earlier runs",
   "a test runs a question one way and compares with an archived output, masking the random ones",
   ["core/imfit_main.cpp", "core/multimfit_main.cpp", "core/mcmc_main.cpp", "core/makeimage_main.cpp", "core/makemultimages_main.cpp", "core/config_file_parser.cpp", "core/imageparams_file_parser.cpp", "core/image_io.cpp", "core/model_object.cpp", "solvers/", "cdream/"],
   [("images read", "core/image_io.cpp ReadImageAsVector"), ("options from configuration", "core/utilities.cpp, core/imfit_main.cpp HandleConfigFileOptions"), ("masks and errors", "core/model_object.cpp AddErrorVector, AddMaskVector"), ("threads", "core/model_object.cpp SetMaxThreads"), ("seeds", "solvers/DESolver.cpp, core/bootstrap_errors.cpp, core/mersenne_twister.cpp")],
   ["files written by histories of runs", "printed statistics"],
   "Runs.tla", "questions and ways of asking them enumerated by TLC are put to the real programs and the resulting histories validated against the specification"),
]


def main():
    checks, na = [], []
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            q = {k: v for k, v in p.items() if k not in ("technique", "note")}
            f.write(json.dumps(q) + "\n")
            if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
                checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py quick" % p["id"],
                               "thorough_cmd": "python3 checks/%s.py thorough" % p["id"],
                               "evidence_file": "evidence/%s.json" % p["id"],
                               "technique": TECH % (p["technique"], "traces of the real code validated against it"),
                               "level": "model_checking",
                               "level_note": "Bounded exhaustive model checking of the specification; the implementation is bound "
                               "to it by trace validation (not proof): " + p["note"] + ". Trusts TLC, the Python drivers and the "
                               "quantisation of floating-point values stated in DESIGN.md."})
            else:
                na.append({"property": p["id"], "reason": "not claimed yet: its check is still being built"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 lib/setup.py",
                   "hooks": {"guard": "none", "enable": "no hooks: the checks drive the unmodified sources", "source_commits": []},
                   "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
