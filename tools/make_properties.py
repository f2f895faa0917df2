import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
G="gwpopulation/"
p("C01","Elementary densities are the documented, normalised probability densities",
 "For every valid setting of their parameters, including array-valued ones, the power-law, truncated-normal, beta and von Mises densities equal their documented closed forms at every point, are never negative or NaN, vanish outside their support, and integrate to one over it; this includes a power-law index of exactly -1 or +1, a mean far outside the truncation interval, narrow or one-sided truncation, a scaled beta distribution, the ends of a beta distribution whose density is finite there, and very large von Mises concentrations. The two-dimensional correlated Gaussian is the exponential of minus half the quadratic form of the documented covariance matrix, for either sign of the correlation.",
 ["inputs"],"all parameter values in the documented domains and all evaluation points, in and out of the support, scalar or array",
 "the tests integrate at a few hundred prior draws over one fixed grid and check a handful of points; special indices, far tails, array-valued limits and end points are not sampled",
 [G+"utils.py"],[("closed-form densities","gwpopulation/utils.py: powerlaw, truncnorm, beta_dist, von_mises, unnormalized_2d_gaussian")],["return values of the density functions"])
p("C02","Analytic mass models are the documented normalised mixtures",
 "For every valid hyperparameter value, each closed-form mass model equals its documented (broken) power law, Gaussian mixture, primary / mass-ratio product or twice the ordered primary / secondary product at every point; one-dimensional models and the joint primary mass and mass ratio models integrate to one and are zero outside their support. Mixing fractions interpolate linearly between the components, the broken power law is continuous at its break and reduces to a single power law for equal slopes, and the 'identical' models agree with the 'independent' ones for equal slopes.",
 ["inputs"],"all hyperparameters (slopes of either sign including exactly 1, break fractions in (0,1), mixing fractions in [0,1], peak locations and widths, upper cut-off of the peak) and all masses",
 "the tests check zero-outside and coarse normalisation for a few prior draws; slopes of exactly one, peaks cut by the limits, pointwise values and the relations between models are not checked",
 [G+"models/mass.py",G+"utils.py"],[("mixture definitions","gwpopulation/models/mass.py: double_power_law_*, two_component_*, three_component_single, power_law_*")],["model return values"])
p("C03","Smoothed mass models: documented taper, correct normalisation and support",
 "For every configuration (global mass limits, grid shape, caching on or off) and every hyperparameter value, a smoothed mass model is proportional in primary mass to its base model times the documented low-mass taper, and in mass ratio to the power law times the taper of the secondary mass; it integrates to one over primary mass and, at each primary mass, over mass ratio (to the accuracy of its own grid), and is zero for component masses below the minimum, mass ratios above one and primary masses above the limit. With no smoothing it equals the corresponding unsmoothed model.",
 ["inputs","configurations"],"all smoothed models, global limits, grid shapes, cache settings, hyperparameters (including zero and very wide smoothing) and masses",
 "the tests check normalisation on one grid at prior draws with large tolerance, with default settings, and never compare pointwise with an independent evaluation",
 [G+"models/mass.py",G+"models/interped.py"],[("taper","BaseSmoothedMassDistribution.smoothing"),("normalisation","BaseSmoothedMassDistribution.norm_p_m1 / norm_p_q"),("interpolated mass-ratio normalisation","BaseSmoothedMassDistribution._cache_q_norms")],["model return values"])
p("C04","Redshift models: documented evolution, volume factor and normalisation",
 "For every cosmology, maximum redshift and hyperparameter value, a redshift model's density is proportional to the comoving volume element over (1+z) times the documented rate evolution (which equals one at z=0), is zero beyond the maximum redshift, and integrates to one; its reported normalisation is that rate-weighted volume in cubic megaparsec. The total four-volume is the corresponding integral in cubic gigaparsec times the analysis time.",
 ["inputs","configurations"],"all available cosmologies (with their own free parameters), maximum redshifts, evolution parameters and redshifts",
 "the tests use one cosmology, the default maximum redshift and prior draws, and mostly compare the code with itself",
 [G+"models/redshift.py",G+"experimental/cosmo_models.py"],[("rate evolution","PowerLawRedshift.psi_of_z, MadauDickinsonRedshift.psi_of_z"),("normalisation","_Redshift.normalisation, differential_spacetime_volume"),("four volume","total_four_volume")],["model return values","normalisation()","total_four_volume()"])
p("C05","Spin models are the documented normalised spin distributions",
 "For every valid hyperparameter value the spin-magnitude, spin-tilt, effective-spin and correlated effective/precessing-spin models equal their documented densities pointwise, are non-negative, integrate to one over the physical spin domain, and (magnitudes, effective spins) vanish outside it. Identical-distribution models agree with the independent ones for equal parameters, the parameters labelled 1 and 2 act on the matching component, and swapping the components together with their parameters leaves the density unchanged.",
 ["inputs"],"all hyperparameters (maximum spin below or above one, mixing fraction 0 to 1, means inside or outside the range, correlations of either sign) and all spins in the physical range",
 "the tests check normalisation over fixed grids for prior draws, mostly with equal parameters for both components and zero or positive correlation",
 [G+"models/spin.py",G+"utils.py"],[("spin densities","gwpopulation/models/spin.py"),("numerical normalisation","GaussianChiEffChiP._normalization")],["model return values"])
p("C06","Spline models interpolate the node values and stay normalised",
 "For every choice of regularly spaced nodes (in the parameter or its logarithm), interpolation order, range and regularisation, a spline model's log-density equals the spline through the node values up to one constant at every point between the first and last node, is zero outside that interval, and is normalised over the part of its range covered by the nodes (to the accuracy of its own grid), with the two components sharing the same density. Adding a constant to all node values changes nothing, regularised models depend only on the direction of the node values and the requested root-mean-square, and supplying more nodes than configured keeps every other setting.",
 ["inputs","configurations"],"all regularly spaced node positions and all values, orders (nearest, linear, cubic), ranges, log or linear spacing, regularisation, datasets and node counts",
 "the tests draw a few node values at fixed equally spaced nodes for default settings",
 [G+"models/interped.py",G+"models/spin.py",G+"models/mass.py"],[("spline evaluation","InterpolatedNoBaseModelIdentical.p_x_unnormed / norm_p_x"),("regularisation","extract_spline_points"),("node inference","infer_n_nodes")],["model return values"])
p("C07","All backends compute the same numbers",
 "Every population model, density, conversion, selection function and likelihood gives the same result (to floating-point accuracy) under the numpy and jax backends, whether jax evaluates eagerly or inside just-in-time compilation, for every valid parameter value and data set, including the special values (index -1, no smoothing, no peak) and points outside the support.",
 ["inputs","configurations"],"all models and likelihoods, parameters, data, and the choice of backend / compilation",
 "the tests run each backend separately on its own random draws and compile only two likelihood configurations",
 [G+"utils.py",G+"models/mass.py",G+"models/spin.py",G+"models/redshift.py",G+"models/interped.py",G+"vt.py",G+"hyperpe.py",G+"experimental/jax.py"],[("backend branches","'jax' in xp.__name__ tests throughout the package"),("array API","xp / scs module attributes")],["return values under each backend"])
p("C08","Switching the backend is complete, atomic and idempotent",
 "After a successful switch every registered module, in the package and in plugins, sees the array, special-function and extra functions of the chosen backend, whatever sequence of switches came before; an unknown backend raises a value error and an unavailable one a missing-module error. A failed switch, including one caused by a plugin that cannot be imported or a function the backend lacks, leaves the previous backend fully in force and can be retried.",
 ["histories","configurations","fault_sequences"],"all sequences of valid, invalid, unavailable and fault-injected switches and all sets of registered plugin modules",
 "the tests switch once per backend from a fresh state with the package's own modules and one unsupported name",
 [G+"backend.py"],[("propagation","set_backend, modules_to_update"),("arbitrary functions","_load_arbitrary")],["module attributes of registered modules","exception raised","model results after the switch"],[("active backend","name of the backend in force","gwpopulation/backend.py")])
p("C09","The likelihood is the documented Monte Carlo estimator",
 "For every catalogue, population model, sampling prior, selection function and parameter conversion, the log-likelihood (ratio) is the sum over events of the log of the mean prior-reweighted population probability, minus the number of events times the log detection probability (or plus N log rate minus the expected number of detections when the rate is a parameter, or zero for the null likelihood), plus the sum of log evidences for the full likelihood. The reported variance is the sum of the per-event Monte Carlo variances and the documented selection contribution, and both depend on the catalogue only as a set of events.",
 ["inputs","configurations"],"all numbers and sizes of events and samples, priors (present or absent), evidences, selection functions with or without uncertainty, conversion functions and hyperparameters",
 "the tests use constant models or all-ones data where most mistakes in weights, sample counts or event counts cancel",
 [G+"hyperpe.py"],[("estimator","HyperparameterLikelihood._compute_per_event_ln_bayes_factors, _get_selection_factor"),("Poisson form","RateLikelihood._get_selection_factor")],["log_likelihood_ratio","log_likelihood","ln_likelihood_and_variance"])
p("C10","Poorly converged or undefined likelihoods are rejected, others are untouched",
 "The log-likelihood ratio returned to a sampler is always a finite float: when the estimated uncertainty of the log-likelihood exceeds the configured maximum, or the estimate is undefined because an event or the selection function has no support, it is the most negative representable value (or at most a correspondingly huge negative number), and otherwise it equals the estimator exactly, however the limit was configured or changed afterwards. The null likelihood is zero exactly where the uncertainty is acceptable.",
 ["inputs","histories"],"all data sets, hyperparameters, uncertainty limits (including infinity, zero and limits changed after construction) and selection uncertainties",
 "the tests use one data set whose variance is either zero or enormous",
 [G+"hyperpe.py",G+"vt.py"],[("cut","HyperparameterLikelihood.log_likelihood_ratio, maximum_uncertainty")],["log_likelihood_ratio"])
p("C11","Selection functions return the documented detection probability and variance",
 "For every injection set, total number of injections, population model and option, the resampling estimate is the sum of reweighted found injections over the number generated, its variance is the documented Monte Carlo variance, an estimate with too few effective injections for the number of events is rejected by returning infinity, and the uncertainty-marginalised factor follows the documented formula. The grid estimate is the integral of population probability times sensitivity over every axis for any number, order and length of axes, and the surveyed volume is the rate-weighted volume of the model's own redshift distribution (or of a non-evolving one) times the analysis time.",
 ["inputs","configurations"],"all injection sets and metadata, numbers of events, option combinations, grids of any dimension and axis lengths, redshift models",
 "the tests use one fixed injection file, a constant model and one grid shape",
 [G+"vt.py",G+"models/redshift.py"],[("Monte Carlo estimate","ResamplingVT.detection_efficiency"),("convergence","ResamplingVT.check_convergence, vt_factor"),("grid integral","GridVT.__call__")],["selection function return values","surveyed_hypervolume"])
p("C12","Catalogue samples are kept intact and resampled by the right weights",
 "Building a likelihood keeps, for every event in order, the requested number of distinct posterior samples (never more than the shortest event has) with all parameters and the sampling prior of a sample kept together, and leaves the input unchanged. Predictive resampling draws whole samples of an event only from that event, reports per-event weights equal to the hyperparameter-averaged normalised population-to-prior ratios, never picks a sample of zero weight, and picks samples in proportion to their weights, for every accepted form of the hyperparameter samples.",
 ["inputs"],"all catalogues (numbers, sizes and indices of the tables, single events and samples), sample limits, and hyperparameter samples given as table, list or single point",
 "the tests use identical constant columns where mixed-up rows, events or weights are invisible",
 [G+"hyperpe.py"],[("down-sampling","HyperparameterLikelihood.resample_posteriors"),("reweighting","HyperparameterLikelihood.posterior_predictive_resample")],["likelihood data and metadata","resampled posteriors and weights"])
p("C13","Beta-distribution parameter conversions are exact inverses and side-effect free",
 "Converting between (mean, variance, maximum) and (alpha, beta, maximum) reproduces the true mean and variance of the scaled beta distribution and is a round trip for every valid value, scalar or array. Converting a dictionary adds both shape parameters, for whichever of the shared or per-component spellings has a mean and variance and where they are not both given already (None counts as not given), leaves all other entries and given pairs of shape parameters alone, reports exactly the added keys, and never modifies its input.",
 ["inputs"],"all valid moments and maxima, scalars and arrays, and all subsets of shared / per-component keys, given, None or absent",
 "the tests use a few numbers with unit maximum and three key combinations",
 [G+"conversions.py"],[("moment formulas","alpha_beta_max_to_mu_var_max, mu_var_max_to_alpha_beta_max"),("key handling","convert_to_beta_parameters")],["returned values and dictionaries"])
p("C14","Cosmological frame conversion and its Jacobian are consistent",
 "For every flat cosmology and data set, converting detector-frame data yields the redshift whose luminosity distance is the given one, divides every detector-frame quantity by (1+z), passes other data through, and reports the Jacobian as the distance derivative times (1+z) per converted quantity, independent of the order of the data entries; without distance or redshift it raises a value error. A cosmology-aware population model evaluates the source-frame models at the converted data divided by that Jacobian, so that it is the properly transformed density in the detector frame, for the cosmology given in the same call.",
 ["inputs","configurations","histories"],"all cosmologies and cosmological parameters, distances or redshifts, numbers and orders of detector-frame quantities, and sequences of evaluations",
 "the tests check one mass and one distance for a few cosmologies in one fixed order",
 [G+"experimental/cosmo_models.py"],[("conversion","CosmoMixin.detector_frame_to_source_frame"),("density","CosmoModel.prob")],["converted samples","Jacobian","model probability"])
p("C15","Evaluations are pure: no input is modified and history does not matter",
 "Evaluating any model, density, conversion, selection function or likelihood leaves the data, hyperparameter dictionaries and configuration passed in unchanged, and returns the same result whatever was evaluated before: repeating a call, interleaving other hyperparameters, other instances or failing calls never changes a result. An evaluation without caching also depends only on the data given in that call (a model instance that caches belongs to one data set, and a spline instance to one set of node positions).",
 ["histories","inputs"],"all sequences of evaluations (repeated, interleaved over instances, hyperparameters and, where caching is off, data sets, and including rejected calls)",
 "the tests evaluate each object once or a few times with fresh inputs and never compare with an evaluation in a different history",
 [G+"models/mass.py",G+"models/interped.py",G+"models/redshift.py",G+"models/spin.py",G+"hyperpe.py",G+"vt.py",G+"conversions.py",G+"experimental/cosmo_models.py"],[("caches","BaseSmoothedMassDistribution cache, InterpolatedNoBaseModelIdentical interpolants, bilby Model cache"),("in-place arithmetic","p_m *= ..., probability /= jacobian, sample dictionaries")],["inputs before and after","results in different histories"])
p("C16","Models act sample by sample, whatever the shape of the data",
 "Evaluating any population model on a data set gives for each sample the value it would have alone or in any other data set: permuting, slicing, concatenating or reshaping (events by samples, flat, single sample) the data permutes, slices, concatenates or reshapes the result, and the result has the shape of the data.",
 ["inputs"],"all models, hyperparameters, data sets, permutations, partitions and shapes",
 "the tests evaluate a single shape and look at sums or maxima over the samples",
 [G+"models/mass.py",G+"models/spin.py",G+"models/redshift.py",G+"models/interped.py",G+"utils.py"],[("elementwise array expressions","gwpopulation/models"),("interpolants per sample","BaseSmoothedMassDistribution._cache_q_norms")],["model return values"])
p("C17","Compiled and numpyro likelihoods agree with the plain likelihood",
 "The just-in-time compiled likelihood returns the same finite value as the plain likelihood it wraps, for every hyperparameter value including rejected ones, and passes through the attributes that a bilby likelihood does not itself define, without disturbing later plain evaluations. The probabilistic-programming model returns that same log-likelihood (or minus a huge number where the variance exceeds the maximum), records the same per-event log Bayes factors, variances and selection terms, gives the rate the gamma posterior with the number of events as shape and the sensitive four-volume as inverse scale, and its predictive draws are whole samples of the labelled event (or distinct found injections) with non-zero weight.",
 ["inputs","configurations"],"all catalogues, injection sets, hyperparameters, variance limits, selection on or off and subsets of keys",
 "the tests run one configuration with one seed and check that it runs or a single number",
 [G+"experimental/jax.py",G+"experimental/numpyro.py"],[("compilation","JittedLikelihood"),("numpyro model","gwpopulation_likelihood_model, posterior_predictive_resample")],["log_likelihood_ratio","numpyro trace"])
p("C18","Post-processing statistics and rate draws are consistent with the likelihood",
 "For every likelihood and hyperparameter sample, the extra statistics added to a sample are the per-event log Bayes factors and variances, the detection probability and its variance, and the total variance, such that they reassemble the log-likelihood and variance that the sampler saw, with the sample's own entries preserved. Rate draws follow the gamma distribution whose shape is the number of events and whose scale is the inverse sensitive four-volume (the selection function itself when it defines no volume), and the rate-explicit likelihood differs from the rate-marginalised one only by N log(R P) minus R P.",
 ["inputs","configurations"],"all likelihood classes, conversions, selection functions (with or without uncertainty or volume), analysis times and hyperparameter samples",
 "the tests compare with constants where the selection function is trivially one",
 [G+"hyperpe.py",G+"vt.py"],[("statistics","HyperparameterLikelihood.generate_extra_statistics"),("rate","generate_rate_posterior_sample")],["sample dictionary","rate draws at a fixed seed"])
p("C19","Declared hyperparameters are exactly those a model needs",
 "For every population model, the set of hyperparameter names it declares (by signature or explicitly) is exactly what it needs: evaluation inside a composite model with any superset of hyperparameters gives the product of the individual models evaluated with only their declared names, extra names have no influence, and leaving out any declared name without a default raises an error rather than a result. Configuration (number of nodes, regularisation, cosmology, custom base models) is reflected in the declared names without affecting any other instance.",
 ["inputs","configurations"],"all models and configurations, supersets and subsets of hyperparameters, and compositions of models",
 "the tests check declared names for a few default configurations and rarely evaluate through a composite model",
 [G+"models/mass.py",G+"models/redshift.py",G+"models/interped.py",G+"experimental/cosmo_models.py"],[("declared names","variable_names properties"),("composition","bilby.hyper.model.Model as used by the likelihood and selection functions")],["variable_names","composite model probability"])
p("C20","Invalid hyperparameters are rejected rather than silently evaluated",
 "Under the numpy backend, every evaluation with a hyperparameter outside its domain that the package promises to check raises a value error and returns nothing: non-positive widths, beta shape parameters or scales and a negative lower power-law limit given by keyword to the elementary densities; negative minimum masses, non-positive peak or effective-spin widths and maximum spins given to the models; and mass limits outside the range a smoothed model was configured with, given as scalars or as arrays with a single offending entry. Values inside the domain, however close to its edge, are accepted.",
 ["inputs","configurations"],"all invalid and valid hyperparameter values, scalar or array, keyword position, and configured ranges",
 "the tests try one negative value per function and one mass range",
 [G+"utils.py",G+"models/mass.py"],[("argument conditions","apply_conditions"),("range check","BaseSmoothedMassDistribution.__call__")],["exceptions raised"])
p("C21","Chance is seeded, independent and confined to where it belongs",
 "Whatever involves chance (which posterior samples of each event are kept, predictive resampling, rate draws) is determined by the state of numpy's global random generator: the same state and the same calls give identical results under every backend, whatever happened before. The samples kept are a uniform random choice made separately for each event and each catalogue; the draws of predictive resampling for different events, successive calls and different random states are independent of each other; successive rate draws differ. Everything else (building and evaluating models, likelihoods, selection functions, statistics, conversions, backend switches) draws no random number and does not depend on or alter the random state.",
 ["inputs","configurations","histories"],"all catalogues, populations, likelihood classes, backends, random states and sequences of calls",
 "the tests draw once, at most from one fixed seed, and never compare random states or draws with each other",
 [G+"hyperpe.py",G+"experimental/numpyro.py"],[("samples kept","HyperparameterLikelihood.resample_posteriors"),("predictive draws","HyperparameterLikelihood.posterior_predictive_resample"),("rate draws","HyperparameterLikelihood.generate_rate_posterior_sample")],["stored and resampled samples","rate draws","numpy.random state"])
p("C22","Derivatives under jax are those of the function",
 "Under the jax backend, population models, log-likelihoods (with conversions, evidences, selection functions, the numpyro model) and their compiled versions are differentiable with respect to the hyperparameters, as gradient-based samplers need: for hyperparameters in the interior of their domain and away from values where a closed form changes (a spectral index of exactly one, an empty taper), with peaks inside the mass range and all samples inside the support, derivatives by forward and by reverse mode are finite and equal the rate of change of the function itself with respect to every hyperparameter, including its influence through normalisations, mixture fractions, selection function and converted parameters.",
 ["inputs","configurations"],"all models and configurations, populations, likelihood classes, conversions, selection functions, hyperparameters and data in that region, compiled or not",
 "the tests evaluate values only; no test takes a derivative",
 [G+"utils.py",G+"models/mass.py",G+"models/redshift.py",G+"models/spin.py",G+"models/interped.py",G+"hyperpe.py",G+"vt.py",G+"experimental/numpyro.py",G+"experimental/cosmo_models.py"],[("densities","powerlaw, truncnorm, beta_dist"),("normalisation","BaseSmoothedMassDistribution.norm_p_m1, norm_p_q; _Redshift.normalisation"),("likelihood","HyperparameterLikelihood.ln_likelihood_and_variance")],["jax.grad, jax.jacfwd, jax.jacrev of models and log-likelihoods"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
