prop( 'C07', 'Dynamic and modifiable models stay whole when growing, shrinking, varying',
 'After any sequence of growing, shrinking, varying, shuffling, copying and changing parameters of a dynamic or modifiable model, alone or at any place in a '
 'chain of models, the parameter list, number of parameters, component count, parameter names and the position of the other models\' parameters agree with each other; '
 'no part outside the dynamic one changes. The number of components (or order, knots, leaves) stays within its minimum and maximum; the model evaluates as a '
 'freshly built model with the same structure and parameters, and a move that is refused leaves the model as it was.',
 ['histories','configurations'], 'all histories of grow/shrink/vary/shuffle/copy, all positions in a chain, all outcomes of the random draws on a fixed menu',
 'Tests grow and shrink one model by hand; index offsets go wrong only after particular histories, at particular positions in a chain, for particular draws.',
 ['Dynamic.py','Modifiable.py','PolynomialDynamicModel.py','HarmonicDynamicModel.py','RepeatingModel.py','SplinesDynamicModel.py','DecisionTreeModel.py'],
 [( 'bookkeeping of growth in the parameter list', 'Dynamic.py: grow, shrink, alterParameterNames, alterFitindex' ), ( 'components', 'RepeatingModel.py: grow, shrink, setDeltaParameters' ),
  ( 'splines and trees', 'SplinesDynamicModel.py, DecisionTreeModel.py: grow, shrink, vary' )],
 'explicit-state exploration of operation histories of the real models with a reference structure in lock-step, random draws controlled', 'model_checking',
 'all histories of depth 3 (thorough 4; some models one less), one deviating draw per operation' )

prop( 'C08', 'Kernels and splines bases have their defining mathematical properties',
 'Each kernel has the value, integral, full width at half maximum, range and derivative it is documented to have (Tophat of order n is the n-fold convolution), also as 1-d and 2-d '
 'kernel model in every shape. Each splines model of any order and knot layout equals piecewise polynomials with the right continuity at the knots; B-splines are '
 'non-negative, have local support and sum to 1, and multi-dimensional surfaces are products of the 1-d bases.',
 ['inputs','configurations'], 'every kernel and order, every splines model, order, and knot layout, grid over the domain with its edges and knots',
 'Tests look at a few kernels and the default knots; edges of the domain, non-equidistant knots and higher orders each have their own branch.',
 ['BayesicFitting/source/kernels/Kernel.py','BayesicFitting/source/kernels/Tophat.py','KernelModel.py','Kernel2dModel.py','SplinesModel.py','BSplinesModel.py','BasicSplinesModel.py','SurfaceSplinesModel.py'],
 [( 'kernels', S + 'kernels/*.py: result, resultsq, partial of Kernel subclasses' ), ( 'splines basis', 'SplinesModel.py, BSplinesModel.py, BasicSplinesModel.py: basePartial' )],
 'bounded exhaustive enumeration of kernels, orders and knot layouts against exact formulas', 'exploration',
 'complete over kernels x orders 0-4 (thorough 0-6) x knot layouts of a fixed list' )

prop( 'C11', 'Log likelihoods equal the documented densities, data summed',
 'For every error distribution (also a mixture of two), with or without weights, with accuracies that are absent, scalar or one per datum, with cyclic outcomes, with errors in x and y, and for '
 'multiple-output models, the log likelihood is the sum over the data of the log of the documented (normalised) density at the residuals, the per-datum list and alternative calculation '
 'give the same, and a constraint is applied to it. Setting values, limits, or fixing of hyper parameters affects only those of that distribution, never of its copy '
 'or original; scale estimates maximise the likelihood.',
 ['configurations','inputs','histories'], 'every distribution x problem class x weights x accuracies x parameters, all histories of changes to hyper parameters and copies',
 'Tests evaluate each distribution in its default setting; weights, accuracies, cyclic data, mixtures and copies multiply into branches that are rarely visited.',
 ['ErrorDistribution.py','ScaledErrorDistribution.py','GaussErrorDistribution.py','LaplaceErrorDistribution.py','CauchyErrorDistribution.py','UniformErrorDistribution.py','ExponentialErrorDistribution.py',
  'PoissonErrorDistribution.py','BernoulliErrorDistribution.py','MixedErrorDistribution.py','Gauss2dErrorDistribution.py','ModelDistribution.py','HyperParameter.py','NoiseScale.py'],
 [( 'likelihood per datum', S + '*ErrorDistribution.py: logLdata' ), ( 'sum and constraint', 'ErrorDistribution.py: logLhood, logCLhood' ), ( 'hyper parameters', 'HyperParameter.py, NoiseScale.py, ErrorDistribution.py: keepFixed, setLimits' )],
 'bounded exhaustive enumeration of distribution/problem configurations and hyper parameter histories against closed-form densities', 'exploration',
 'complete over the configuration lattice; all hyper parameter histories of depth 3 (thorough 4)' )

prop( 'C12', 'The gradient of the log likelihood is that of the log likelihood',
 'For every error distribution, mixture and problem, with or without weights and accuracies, and for every subset of parameters and hyper parameters, the partial derivatives of the log likelihood '
 '(also the alternative and the numeric calculation) equal the derivative of the documented log likelihood to exactly those (hyper)parameters, in that order. (The scale of distributions '
 'other than Gauss is not a parameter when there are accuracies.)',
 ['configurations','inputs'], 'every distribution x problem x weights x accuracies x every subset of (hyper)parameters',
 'Tests take the complete set of parameters in a few settings; subsets, zero residuals, distributions with two hyper parameters in a mixture each have their own index arithmetic.',
 ['ErrorDistribution.py','GaussErrorDistribution.py','LaplaceErrorDistribution.py','CauchyErrorDistribution.py','UniformErrorDistribution.py','ExponentialErrorDistribution.py','PoissonErrorDistribution.py',
  'BernoulliErrorDistribution.py','MixedErrorDistribution.py','Gauss2dErrorDistribution.py'],
 [( 'gradient', 'ErrorDistribution.py: partialLogL, numPartialLogL' ), ( 'per datum', S + '*ErrorDistribution.py: nextPartialData, partialLogL_alt' )],
 'bounded exhaustive enumeration of configurations and index subsets against Richardson differences of the closed-form likelihood', 'exploration',
 'complete over configurations; all subsets up to 5 (thorough 10) indices' )

prop( 'C13', 'Problems present model, data, weights and accuracies consistently',
 'Every problem (classic, multiple output, errors in x and y, evidence) yields the model result at its data, residuals as data minus result (wrapped to within half a period when the outcome is '
 'cyclic), weighted squares, a flattened partial matrix in the order of the residuals, variances, the sum of the weights, and unit/domain mapping per parameter, that all belong to '
 'its present model, data, weights and accuracies. This still holds after any sequence of changing weights or accuracy and copying; copies are independent and inputs stay unchanged.',
 ['configurations','histories'], 'every problem class x model x weights x accuracy form, all histories of changes and copies',
 'Tests use freshly built problems; cached sums and variances go stale only after changes, and the accuracy/covariance forms each take their own branch.',
 ['Problem.py','ClassicProblem.py','MultipleOutputProblem.py','ErrorsInXandYProblem.py','EvidenceProblem.py'],
 [( 'residuals and weights', 'Problem.py: residuals, cyclize, weightedResSq, setAccuracy' ), ( 'errors in x and y', 'ErrorsInXandYProblem.py: setAccuracy, partial, weightedResSq, unit2Domain' ), ( 'flattening', 'MultipleOutputProblem.py: expandFlat, partial, residuals' )],
 'bounded exhaustive enumeration of problem configurations and change histories against direct formulas', 'exploration',
 'complete over the configuration lattice; all histories of depth 3 (thorough 5)' )


prop( 'C14', 'Linear fitters return the weighted least squares solution of the last call',
 'After any history of fits with the linear fitters (plain fit, model fit, limits fit, fits with normalisation, kept parameters, weights, accuracies), the returned parameters, the model parameters, '
 'chi-squared and fitted data are those of the weighted least squares problem posed in the last call, kept parameters at the given values and limits obeyed by limitsFit. '
 'Nothing of an earlier call lingers, data, weights and x stay unchanged, maps give what flattened data give, and non-finite input is refused.',
 ['histories','configurations'], 'all histories of calls with different data, weights, kept parameters, both fitters, several linear (compound) models',
 'Tests call fit once or twice on a fresh fitter; stale decompositions, design matrices, chi-squared and kept parameters only show after a particular sequence of calls.',
 ['BaseFitter.py','Fitter.py','QRFitter.py'],
 [( 'preparation and bookkeeping', 'BaseFitter.py: fitprolog, keepFixed, insertParameters, fitpostscript, limitsFit, normalize' ), ( 'solution', 'Fitter.py: fit; QRFitter.py: fit' )],
 'explicit-state exploration of call histories on the real fitters with a reference least squares solution computed directly in lock-step', 'model_checking',
 'all histories of depth 2 on the full menu, depth 3 on a reduced menu; quick bounds in the evidence' )

prop( 'C15', 'Fit statistics and evidence belong to the fit just done',
 'After any fit, the noise scale, Hessian, covariance matrix, standard deviations, Monte Carlo errors, evidence, Occam factor and log likelihood have the values that follow from the documented formulas '
 'for the model, data, weights, accuracies and fitted (not kept) parameters of that fit. For linear models with uniform priors in wide limits the evidence equals the analytic integral over the parameters '
 '(and the noise scale when that is fitted). Refitting, changing weights or kept parameters never leaves a stale statistic.',
 ['configurations','histories'], 'every fitter x model x weights x accuracy x kept parameters x scale and prior setting, pairs of subsequent fits',
 'Tests check a few numbers after one fit; statistics are computed lazily and cached, so that they go wrong after a second fit or for a combination of keep, weights and scale.',
 ['BaseFitter.py','IterativeFitter.py','LevenbergMarquardtFitter.py','MaxLikelihoodFitter.py'],
 [( 'evidence', 'BaseFitter.py: getEvidence, getLogZ' ), ( 'covariance and errors', 'BaseFitter.py: getHessian, getCovarianceMatrix, getStandardDeviations, getScale, monteCarloError' )],
 'bounded exhaustive enumeration of fit configurations and refits against closed-form statistics', 'exploration',
 'complete over the configuration lattice; all pairs of fits of a menu' )

prop( 'C16', 'Iterative fitters end in a stationary point within the limits',
 'Every iterative fitter (Levenberg-Marquardt, Curve, Amoeba, Scipy methods), for chi-squared or a likelihood, with weights, accuracies, kept parameters, limits and given start, '
 'either raises ConvergenceError or returns parameters that are a (constrained) stationary point of the documented cost, not worse than the start, with kept parameters at their values and all within limits. '
 'Model, chi-squared and fitted data agree with the result, inputs and start stay unchanged, and a fit with a given start does not depend on earlier fits.',
 ['configurations','histories'], 'every fitter and method x model x start x keep x weights x accuracies x limits x cost, histories of fits on one object',
 'Tests fit default settings from one start; limits, kept parameters and their index translation are separate code in every fitter, and reuse of the object is not tested.',
 ['IterativeFitter.py','LevenbergMarquardtFitter.py','CurveFitter.py','AmoebaFitter.py','MaxLikelihoodFitter.py','ScipyFitter.py','BaseFitter.py'],
 [( 'iterations', 'LevenbergMarquardtFitter.py: fit, trialfit; ScipyFitter.py: fit; AmoebaFitter.py: fit; CurveFitter.py: fit' ), ( 'cost function', 'MaxLikelihoodFitter.py: makeFuncs' )],
 'explicit-state exploration of fit configurations and call histories on the real fitters, result judged by an independent optimiser', 'model_checking',
 'complete over the configuration lattice; histories of depth 2 (thorough 3)' )

prop( 'C24', 'The simplex minimiser keeps its invariants whatever the random draws',
 'AnnealingAmoeba (also at temperature zero) never evaluates the function outside the limits, each vertex always has its own function value, the optimum is the lowest value ever evaluated together with '
 'the parameters it belongs to, and the number of iterations stays bounded. The returned point is that optimum, no worse than every starting vertex; for smooth functions it converges to the minimum. '
 'Start values, sizes and limits given by the caller stay unchanged.',
 ['inputs','schedules'], 'functions with minima inside/on the limits, plateaus, undefined regions; all starts, limits and outcomes of the random draws within bounds',
 'Tests run the default seed on two functions; the bookkeeping of vertices goes wrong only for some random draws, limits, or undefined values.',
 ['AnnealingAmoeba.py','AmoebaFitter.py'],
 [( 'simplex moves', 'AnnealingAmoeba.py: temperatureStep, trialStep, inflateSimplex' ), ( 'limits', 'AnnealingAmoeba.py: makeSimplex, stayInLimits' )],
 'stateless exploration of all executions within a bound on deviating random draws, invariants monitored at every step', 'model_checking',
 'all executions with 1 deviation in the first 24 draws (thorough 2 in 40)' )

prop( 'C17', 'Engines move walkers only inside the prior and above the likelihood',
 'Whatever the random draws, each engine that moves parameters (Galilean, Chord, Gibbs, Step, Random, Start), in place or appending, changes only fitted (hyper)parameters of the selected walker, leaves all other '
 'walkers as they were, and leaves or adds only walkers with fitted parameters inside the limits of their priors, a log likelihood not below the threshold that is exactly the log likelihood of their own parameters, and '
 'the return value tells whether there was a move. Parameters kept fixed keep their value, and the phantom collection holds only valid points, in order of likelihood.',
 ['schedules','histories'], 'every engine x problem x threshold x append x outcomes of the random draws (bounded deviations), histories of engine calls',
 'Tests run engines with one random seed on one problem; wrong reuse of a likelihood, or an index of a kept or hyper parameter, shows for some draws only.',
 ['Engine.py','GalileanEngine.py','ChordEngine.py','GibbsEngine.py','StepEngine.py','RandomEngine.py','StartEngine.py','Walker.py','WalkerList.py','PhantomCollection.py','OrthonormalBasis.py'],
 [( 'moves', 'GalileanEngine.py, ChordEngine.py, GibbsEngine.py, StepEngine.py, RandomEngine.py, StartEngine.py: execute' ), ( 'setting of walkers', 'Engine.py: setWalker, getUnitMinmax; WalkerList.py: setWalker; PhantomCollection.py: storeItems, getParamMinmax' )],
 'stateless exploration of all executions of the real engines within a bound on deviating random draws', 'model_checking',
 'complete up to the bound on deviations and draws' )

prop( 'C18', 'Birth, death and structure engines keep walkers whole',
 'After any history of birth, death, structure and parameter engines on an ensemble of walkers with dynamic or modifiable models (alone or anywhere in a chain of models) every walker belongs together: the model, its number of '
 'parameters, its fit index, priors, structure and stored log likelihood fit its own parameter list. Birth adds one component, death removes one (for a tree: a branch) and any one of them, structure changes no parameters; other '
 'parameters, kept parameters and other walkers stay as they were, and walkers are accepted only above the threshold.',
 ['schedules','histories'], 'dynamic models x places in a chain x fit index x engine histories x outcomes of random draws (bounded deviations)',
 'Tests follow single births and deaths for one seed; offsets in chains, fit indices and shared state between walkers break only in particular combinations.',
 ['BirthEngine.py','DeathEngine.py','StructureEngine.py','Dynamic.py','Modifiable.py','RepeatingModel.py','PolynomialDynamicModel.py','HarmonicDynamicModel.py','SplinesDynamicModel.py','DecisionTreeModel.py','Walker.py','PhantomCollection.py'],
 [( 'engines', 'BirthEngine.py, DeathEngine.py, StructureEngine.py: execute' ), ( 'bookkeeping', 'Dynamic.py: alterFitindex, alterParameters; Walker.py: check, copy' )],
 'stateless exploration of engine histories on the real engines within a bound on deviating random draws, with an independent likelihood of each structure', 'model_checking',
 'histories of depth 2 (thorough 3), all executions up to the bound on deviations' )

prop( 'C19', 'Nested sampling accounts for every walker, weight and moment to stop',
 'In every run of NestedSampler (and PhantomSampler), whatever engines and random choices do, the lowest walkers of each iteration become samples with their own likelihood and prior-mass width, are replaced by copies of survivors '
 'and moved above the threshold, while survivors stay as they are; after the last iteration the remaining ensemble is added, so that all prior mass is accounted for. '
 'Evidence, information, precision, normalised weights, averages, standard deviations, median, modus, model fit and Monte Carlo error (of sampler, samples and model) are those of exactly these samples, kept parameters keep their value, and a second run starts afresh. '
 'Sampling stops when, and only when, one of its documented criteria is met.',
 ['schedules','histories'], 'problems x ensembles x discard x keep x maxsize x stop criteria x choices of engines and copies (bounded deviations from a default stream)',
 'A test sees one random stream and compares the evidence with a wide tolerance; errors in widths, weights, copies or stopping show only against an independent account of every choice.',
 ['NestedSampler.py','PhantomSampler.py','SampleList.py','Sample.py','Explorer.py','WalkerList.py','Walker.py','StartEngine.py','Engine.py'],
 [( 'evidence', 'NestedSampler.py: sample, updateEvidence, nextIteration' ), ( 'replacing walkers', 'NestedSampler.py: copyWalker, updateWalkers; PhantomSampler.py: updateWalkers' ), ( 'averages', 'SampleList.py: normalize, weed, averstd, average, monteCarloError' )],
 'stateless exploration of the real sampler with all choices of lattice engines, copies and start enumerated within a deviation bound (real engines too), against an independent nested sampling account', 'model_checking',
 'ensembles of 2 to 6 (one of 50), up to 7 iterations; all choices for the smallest configuration, bounded deviations for the others' )

prop( 'C20', 'Exploring with threads gives valid walkers under every schedule',
 'With threads, whatever the order in which the threads run: every explored walker ends above the threshold with the likelihood of its own parameters, other walkers stay as they are, no walker or phantom is lost, ids stay unique, and no thread dies. '
 'Operations on the shared walker list and phantom collection act as if they were done one after the other, and models, problems and error distributions shared by threads give the same values as without threads. '
 'An error in a thread reaches the caller once, and later explorations are not affected by it.',
 ['schedules'], 'all schedules of 2 or 3 exploring threads with at most 1 to 3 preemptions x engines x static and dynamic models x nested and phantom samplers',
 'A test runs one schedule, nearly always without any preemption inside an update of shared data; a lost update or a mixed up intermediate result needs one particular switch.',
 ['Explorer.py','PhantomCollection.py','WalkerList.py','Engine.py','Kepplers2ndLaw.py','RadialVelocityModel.py','StellarOrbitModel.py','ErrorDistribution.py','Problem.py','NestedSampler.py','PhantomSampler.py'],
 [( 'threads', 'Explorer.py: explore, exploreWalker, ExplorerThread' ), ( 'shared collections', 'PhantomCollection.py: storeItems, getParamMinmax; WalkerList.py: setWalker, insertWalker' ), ( 'shared evaluation', 'Kepplers2ndLaw.py; ErrorDistribution.py' )],
 'stateless exploration of the real threads under a controlled scheduler, all schedules within a preemption bound; linearizability of the collections against the atomic operations', 'model_checking',
 'switch points at lines of the shared collections and entries of functions; 2 threads with up to 2 (thorough 3) preemptions, 3 threads with 1; other counters than phantoms are statistics and not checked' )

prop( 'C22', 'Order problems keep permutations, costs and the other walkers right',
 'For every order of the nodes the cost of a salesman problem is the weighted and scaled sum of the distances along the tour (or the open path), for each kind of distance, in the problem and its copies, and evaluation leaves the order as it is. '
 'Whatever the random draws, each order engine leaves a permutation with its own cost, not below the threshold, in the walker it is asked to move, changes no other walker, and tells whether it moved; all orders can be reached. '
 'A NestedSolver run replaces only the discarded walkers, returns the best order it met with its cost, and gives the same result again for the same seed.',
 ['inputs','schedules','histories'], 'all orders of 3 to 5 (thorough 6) nodes x distances x weights x scale; engines x starts x thresholds x ids x outcomes of the random draws; real runs',
 'Tests run one seed of one tour and look at the printed result; wrong walkers, lost nodes or a wrong edge in a rotated tour show for specific orders only.',
 ['OrderProblem.py','SalesmanProblem.py','DistanceCostFunction.py','OrderEngine.py','MoveEngine.py','ReverseEngine.py','SwitchEngine.py','LoopEngine.py','NearEngine.py','ShuffleEngine.py','StartOrderEngine.py','NestedSolver.py'],
 [( 'cost', 'SalesmanProblem.py: result, distances; DistanceCostFunction.py: logLikelihood' ), ( 'moves', 'MoveEngine.py, ReverseEngine.py, SwitchEngine.py, LoopEngine.py, NearEngine.py, ShuffleEngine.py: executeOnce' ), ( 'solver', 'NestedSolver.py: solve; Explorer.py' )],
 'exhaustive enumeration of orders against direct formulas; stateless exploration of the engines within a bound on deviating random draws; breadth first reachability over orders', 'model_checking',
 'all orders up to 5 nodes (6 thorough); 1 or 2 deviations in the first 5 to 8 draws of an engine' )

prop( 'C21', 'Walker, sample and phantom collections keep each item whole and in place',
 'After any history of adding, setting, copying, inserting, cropping, weeding, normalising and changing items, the lists of walkers, of samples and of phantoms contain exactly the items, ids, parents, likelihoods, weights and parameters of a plain list treated the same way; copies are independent and insertion keeps the order of likelihood. '
 'Lowest likelihood, evolutions, averages, standard deviations, median, modus, model averages and errors, and the ranges of the phantom parameters above a level (per number of parameters for dynamic models) are those of the items present. '
 'A sample made from a walker has its parameters, nuisance and hyper parameters, likelihood, prior and place in history.',
 ['histories'], 'all histories of up to 4 to 5 (thorough 6) operations out of 12 to 15 on each collection, from empty and filled ones; all item forms',
 'Tests do one sequence of calls and look at lengths; a wrong id, alias or stale range needs a particular sequence (copy, then change, then crop).',
 ['WalkerList.py','Walker.py','SampleList.py','Sample.py','PhantomCollection.py'],
 [( 'walkers', 'WalkerList.py: setWalker, copy, insertWalker, cropOnLow, firstIndex' ), ( 'samples', 'SampleList.py: add, copy, weed, normalize, averages' ), ( 'phantoms', 'PhantomCollection.py: storeItems, getParamMinmax' ), ( 'conversion', 'Walker.py: toSample, copy; Sample.py: copy' )],
 'explicit exploration of all operation histories up to a depth on the real containers, in lock step with plain reference lists', 'model_checking',
 'lists of at most 8 items; 2 and 3 parameters' )

prop( 'C23', 'Orbit models obey the laws of Kepler',
 'For every eccentricity, period, phase and orientation, the eccentric anomaly solves the equation of Kepler, the orbit is the conic section with equal areas in equal times, also near periastron and apastron and many periods away, and the derivatives of distance and angle to time and elements are those of the orbit. '
 'StellarOrbitModel is the projection of that orbit on the sky, in spherical and rectangular form; RadialVelocityModel is the velocity along the line of sight of that orbit, its semimajor axis and minimum mass are consistent with it.',
 ['inputs'], 'grids of eccentricities x phases of the orbit x periods x phase offsets x inclinations x node angles',
 'Tests use a few elements at moderate eccentricity; iterations that stop too early, and formulas that degrade, do so only at particular phases of very eccentric orbits.',
 ['Kepplers2ndLaw.py','StellarOrbitModel.py','RadialVelocityModel.py'],
 [( 'Kepler equation', 'Kepplers2ndLaw.py: eccentricAnomaly, radiusAndTrueAnomaly' ), ( 'derivatives', 'Kepplers2ndLaw.py: drvdpar, drvdx' ), ( 'projection', 'StellarOrbitModel.py: baseResult; RadialVelocityModel.py: baseResult' )],
 'exhaustive enumeration of a bounded grid of orbits and phases against an independent solution and the laws themselves', 'exploration',
 'eccentricity up to 0.95 (0.99 for the equation)' )

prop( 'C25', 'Robust fitting reweights until it converges, on the data of this call',
 'For any set of outliers, each kernel, one-sided or two-sided, with or without weights and with any domain, every step of a robust fit is the weighted fit with the kernel weights of the scaled residuals of the step before, times the weights of the caller; it stops when chi-squared changes less than the tolerance or at the maximum number of iterations. '
 'Parameters, weights and chi-squared afterwards are those of the last step, kept parameters keep their value, input data and weights stay unchanged, and settings or results of an earlier call with other settings do not leak into a later one.',
 ['inputs','histories'], 'all sets of up to 2 (thorough 3) outliers of either sign in 11 data x kernels x sides x weights x domains x fitters; all histories of 3 calls with different settings',
 'A test fits one data set with one or two outliers and looks at the final parameters with a wide margin.',
 ['RobustShell.py','BayesicFitting/source/kernels/Kernel.py','Fitter.py','BaseFitter.py'],
 [( 'reweighting', 'RobustShell.py: fit, getOneSidedWeights, setKernel' ), ( 'weighted fit', 'Fitter.py: fit; BaseFitter.py: getScale' )],
 'enumeration of all outlier sets and call histories on the real code, each iteration in lock step with an independent reweighting', 'model_checking',
 'one and two parameter linear models' )

prop( 'C26', 'Helper functions mean what they say on every input',
 'Weighted and circular averages and deviations, indices, positions and resizing of images, orthonormal directions, log factorials and formatted numbers are, for every input, those of their definition, and leave their input unchanged. '
 'The Monte Carlo error of a model is the spread of its results over draws from the covariance of the (fitted) parameters, the same for the same seed, and neither uses nor disturbs the global random numbers.',
 ['inputs','histories'], 'complete grids: lists of up to 4 (5) values x weights x ranges; images up to rank 4; all histories of up to 5 vectors; k up to 1200 (20000)',
 'Tests use one or two values each; wrap-around, ties, length one, other orders or ranks and repeated use are not among them.',
 ['Tools.py','ImageAssistant.py','OrthonormalBasis.py','LogFactorial.py','MonteCarlo.py','Formatter.py'],
 [( 'averages', 'Tools.py: average' ), ( 'images', 'ImageAssistant.py: getIndices, getydata, resizeData' ), ( 'directions', 'OrthonormalBasis.py: normalise' ), ( 'errors', 'MonteCarlo.py: randomVariant, getError' )],
 'exhaustive enumeration of complete finite grids of inputs and histories of calls against direct definitions', 'exploration',
 'small grids; Monte Carlo size only for fixed seeds' )
