#!/opt/venv/bin/python
"""The properties, their anchors, and what decides them: writes properties.jsonl and MANIFEST.json."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "BayesicFitting/source/"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, note=note, observe=observe or [], na=na))


TV = "TLA+ specification (TLC): generated histories replayed on the real code, recorded traces validated by TLC"

prop("C01", "Compound models evaluate strictly left to right, each link in its own parameters",
     "The result of any model built with + - * / | and brackets equals applying the operations from left to right to "
     "the results of its parts, where every part takes its own consecutive slice of the parameters and a compound "
     "operand counts as one unit in brackets. The parameters of the compound are those of its parts in order, at any "
     "moment, and incompatible numbers of inputs or outputs are refused.",
     ["programs", "inputs", "histories"],
     "all expressions over the simple, repeated, combined and product models, all parameters and inputs",
     "Tests build a dozen fixed expressions and compare some with hand-written values; the space of expressions, "
     "nesting, pipes and build orders is unbounded.",
     [S + "Model.py", S + "BracketModel.py", S + "RepeatingModel.py", S + "CombiModel.py", S + "ProductModel.py"],
     [("appendModel / operators", S + "Model.py"), ("_recursiveResult, operate", S + "Model.py")], TV,
     "Every expression TLC reaches in two building steps plus seeded random ones; results compared at 1e-7 with the "
     "value the specification computes. Trusts the number layer (lib/Num.java).")
prop("C02", "Partials and derivatives are the slopes of the model",
     "For every model, simple or compound, the partial derivatives returned for the parameters and the derivative "
     "returned for the inputs are the derivatives of the result it returns, in the right column for each parameter "
     "and in the documented shape for any number of inputs and outputs. Numeric versions agree with analytic ones.",
     ["programs", "inputs"], "all models and expressions, all parameters and inputs where the model is smooth",
     "Tests compare analytic with numeric partials for a few standard models at standard parameters.",
     [S + "Model.py", S + "FixedModel.py", S + "BaseModel.py", S + "NonLinearModel.py", S + "LinearModel.py"],
     [("_recursivePartial, _recursiveDerivative, pipe selection", S + "Model.py"), ("basePartial of each model", S)], TV,
     "Slopes come from forward differentiation of the specification's formulas; compared at 2e-5 (1e-3 where the "
     "code itself differentiates numerically).")
prop("C03", "Models are values: changing one never changes another",
     "A copy of a model behaves as its original and from then on both are independent; operators that return a new "
     "model leave their operands as they were, and what is done to the new model does not reach them. The same holds "
     "for links isolated from a chain.",
     ["histories", "programs"], "all histories of building, copying, isolating, changing parameters and limits",
     "Aliasing shows only after particular sequences of operations; tests check one copy of a few models.",
     [S + "Model.py", S + "FixedModel.py", S + "BaseModel.py", S + "Prior.py"],
     [("copy methods", S), ("__add__ and the like", S + "Model.py"), ("isolateModel", S + "Model.py")], TV,
     "After every action all live models are observed (parameters, sizes, priors) and compared with the heap of the "
     "specification.")
prop("C04", "A fixed parameter is replaced by its constant or model, everywhere",
     "A model in which parameters are fixed at construction behaves exactly as the full model with those parameters "
     "replaced by the constants, or by the results of the models given, whose parameters follow those that are left. "
     "This holds for results, partials, derivatives, copies and when the model is part of a compound.",
     ["programs", "configurations", "inputs"], "all simple models, all sets of fixed parameters, constants and models",
     "Tests fix parameters of a few models with specific values; the combination with chains, copies and derivatives "
     "is hardly touched.",
     [S + "FixedModel.py", S + "Model.py"],
     [("expand, parlist, mlist", S + "FixedModel.py")], TV,
     "Random sets of fixed parameters over 24 kinds of models, alone, copied and combined.")
prop("C05", "Priors and limits belong to the parameter they were set for",
     "A prior or limit set for a parameter of a compound model acts on that parameter, whichever part it belongs to, "
     "and priors set on the parts before combining stay with their parameters. Questions about the presence of "
     "priors or limits take all parameters into account, and the map between unit cube and parameter domain follows "
     "the prior of each parameter.",
     ["histories", "programs"], "all expressions, all orders of building and setting priors and limits",
     "The routing depends on the structure of the compound; tests set limits on one or two fixed chains.",
     [S + "Model.py", S + "BaseModel.py", S + "Prior.py", S + "UniformPrior.py"],
     [("setPrior, getPrior, setLimits, hasPriors, hasLimits", S + "Model.py"), ("unit2Domain", S + "Model.py")], TV,
     "All live models observed after each action; limits one-sided, partial, missing; Uniform, Gauss, Laplace priors.")
prop("C06", "Every simple model computes its documented formula",
     "The result of each model of the catalogue is the formula in its documentation, for all parameters and inputs "
     "in its domain, including the sign convention for widths, the treatment of knots and end points, and every "
     "constructor option.",
     ["inputs", "configurations"], "all constructor options, parameters and inputs",
     "Tests check a few models at a few values and often only compare the code with itself.",
     [S + f for f in ("GaussModel.py", "LorentzModel.py", "VoigtModel.py", "SplinesModel.py", "SineModel.py",
                      "HarmonicModel.py", "PadeModel.py", "EtalonModel.py", "RadialVelocityModel.py",
                      "StellarOrbitModel.py", "SoftMaxModel.py", "KernelModel.py")],
     [("baseResult of each model", S)], TV,
     "About 30 kinds of models transcribed from their documentation; inputs include zero, knots, negative widths.")
prop("C07", "A prior maps the unit interval onto its domain, and back",
     "For every prior distribution, limited or not, circular or not, domain2Unit is the cumulative probability between "
     "the limits and unit2Domain its inverse: unit values go to domain values inside the limits, the edges to the "
     "edges, lists of values to the same as the values one by one. In a circular prior the unit interval covers the "
     "domain three times, with the domain itself in the middle third.",
     ["inputs", "configurations"], "all priors, centers, scales, limits and periods, and all values",
     "Tests look at a dozen values of a few priors, mostly without limits.",
     [S + "Prior.py"] + [S + k + "Prior.py" for k in ("Uniform", "CircularUniform", "Jeffreys", "Exponential", "Laplace", "Gauss", "Cauchy")],
     [("limitedDomain2Unit, limitedUnit2Domain, circular variants", S + "Prior.py"), ("domain2Unit, unit2Domain", S)], TV,
     "Cumulative distributions are written in TLA+ and checked by TLC to be monotone, normalized and to have the density as slope.")
prop("C08", "The density of a prior is the slope of its map",
     "The result of a prior is its probability density: the derivative of the cumulative probability, which "
     "integrates to one between the limits and vanishes outside; logResult is the logarithm of it and partialLog the "
     "derivative of that; getIntegral is the range in the measure of an improper prior. Without limits an improper "
     "prior has no density and says so.",
     ["inputs", "configurations"], "all priors, centers, scales, limits and periods, and all values",
     "Tests compare the density with itself; normalization under limits is not tested.",
     [S + "Prior.py"] + [S + k + "Prior.py" for k in ("Uniform", "Jeffreys", "Exponential", "Laplace", "Gauss", "Cauchy")],
     [("result, logResult, partialLog, getIntegral", S), ("limitedIntegral", S + "Prior.py")], TV,
     "Relative tolerance 1e-7; limits leave at least 1e-3 of the distribution.")
prop("C09", "Limits of a prior can be set, replaced and removed",
     "Limits, one or two-sided, set at any moment replace the ones before, also in a circular prior, and can be "
     "removed; map, density, range and period are those of the present limits, center and scale. Limits out of order "
     "or domain and scales that are not positive are refused and change nothing. A copy is the same prior and "
     "independent of the original.",
     ["histories"], "all sequences of creating, limiting, scaling and copying priors",
     "The limits are kept in several places which have to stay in step over all histories.",
     [S + "Prior.py", S + "ExponentialPrior.py", S + "GaussPrior.py", S + "CircularUniformPrior.py"],
     [("setLimits, unsetLimits, setPriorAttributes, __setattr__", S + "Prior.py"), ("copy", S)], TV,
     "TLC enumerates all histories of depth 3 (thorough: 4) of two priors; seeded ones are longer and have up to four.")
prop("C10", "A linear fit ends where weighted chisq is minimal, whatever preceded it",
     "Fitter and QRFitter return the parameters at which the weighted sum of squared residuals, plus any "
     "normalization, is minimal over all parameters that are not kept. This holds for any linear model, weights, "
     "accuracies and normalizations, for plain, model and limited fits, and for the second and later fits with the "
     "same fitter as for the first. The arguments of the fit are left alone and yfit is the model at the solution.",
     ["inputs", "histories", "configurations"], "all linear models, data, weights, accuracies, kept parameters, histories",
     "Tests fit a few data sets once with each fitter; combinations of weights, accuracy, kept parameters and "
     "normalization, in sequence, are unbounded.",
     [S + "Fitter.py", S + "QRFitter.py", S + "BaseFitter.py"],
     [("fit, fitprolog, normalize", S + "Fitter.py"), ("modelFit, limitsFit, getVector, getHessian", S + "BaseFitter.py")],
     TV, "TLC enumerates all histories of two fits of a line; seeded ones use other models. The minimum is solved by "
     "the specification; ill-conditioned designs (variance inflation over 1e4) are set aside.")
prop("C11", "Chisq, scale, covariance and standard deviations follow from the last fit",
     "After any fit chisq is the weighted sum of squared residuals at the solution, the scale is the root of chisq "
     "per degree of freedom, counting the sum of the weights, the covariance is that variance times the inverse of "
     "the weighted hessian of the fitted parameters, and the standard deviations are its diagonal, 0 for kept "
     "parameters. Asking for them in any order gives the same, and with nothing left they are refused.",
     ["histories", "inputs"], "all fits, and all orders of questions after it",
     "The quantities are computed lazily and cached; tests ask for them in one order after one fit.",
     [S + "BaseFitter.py", S + "Fitter.py", S + "QRFitter.py"],
     [("getHessian, getCovarianceMatrix, getStandardDeviations, makeVariance", S + "BaseFitter.py")], TV,
     "Covariances compared at 1e-5 of the product of the standard deviations.")
prop("C12", "Kept parameters stay at their value, and only for the fit where they are kept",
     "A parameter kept at a value ends a fit exactly at that value, and the others are what they would be in a model "
     "where it is a constant, in the solution as in npfit, standard deviations, evidence and random draws. A keep "
     "given to a fit holds for that fit only and replaces the one of the fitter; one given to the fitter holds for "
     "all its fits.",
     ["histories", "configurations"], "all sets of kept parameters, all sequences of fits and fitters",
     "Interference between the keep of the fitter and that of the call depends on the sequence of fits.",
     [S + "BaseFitter.py", S + "Fitter.py", S + "CurveFitter.py", S + "LevenbergMarquardtFitter.py", S + "AmoebaFitter.py"],
     [("keepFixed, fitIndex, insertParameters", S + "BaseFitter.py")], TV,
     "All sequences of two fits with kept parameters of fitter and call from TLC, and seeded ones.")
prop("C13", "Nonlinear fitters end at a minimum, within limits, not worse than they started",
     "Each nonlinear fitter started near a minimum of chisq returns parameters where the slope of chisq vanishes "
     "with respect to all parameters that are free and not at a limit, within the limits, and with a chisq not larger "
     "than at the start. What the general minimizers are given to minimize is chisq, with its gradient and hessian.",
     ["inputs", "configurations"], "all models, data, weights, initial values, kept parameters and limits",
     "Tests fit one or two models with a fixed seed and look at the answer to a few digits.",
     [S + f for f in ("CurveFitter.py", "LevenbergMarquardtFitter.py", "AmoebaFitter.py", "AnnealingAmoeba.py",
                      "ScipyFitter.py", "MaxLikelihoodFitter.py")],
     [("fit", S), ("_Chisq", S + "MaxLikelihoodFitter.py"), ("minimize", S + "AnnealingAmoeba.py")], TV,
     "The decrement of chisq is bounded at 1e-5 to 1e-2 of chisq; for scipy methods the function, gradient and hessian "
     "handed over are compared at the initial parameters, as where scipy stops is not of this code.")
prop("C14", "A robust fit is the fixed point of its reweighting",
     "RobustShell repeats the fit with weights that are the kernel of the residuals over the domain times the scale, "
     "times the weights given, one-sided if asked, until chisq settles or the number of iterations is reached. The "
     "solution, the weights and chisq it presents are those of the last repetition.",
     ["histories", "inputs"], "all data with outliers, kernels, domains, weights and iteration limits",
     "The whole history of reweighting decides the outcome; tests look at a few answers with one kernel.",
     [S + "RobustShell.py", S + "kernels/"], [("fit, setKernel", S + "RobustShell.py")], TV,
     "The complete reweighting history is recomputed by the specification; compared at 1e-5. Fits where nearly all "
     "weights vanish are set aside.")
prop("C15", "The evidence of a fit is likelihood times Occam factor",
     "getLogZ of a linear or nonlinear fit equals the Gaussian approximation of the integral of prior times "
     "likelihood: log likelihood at the solution plus the log of the ratio of posterior and prior volume of the "
     "fitted parameters, and of the noise scale when that is fitted. Kept parameters, weights, accuracies and "
     "limits given in any way are accounted for, and without limits it is refused.",
     ["inputs", "histories", "configurations"], "all fits, limits, noise limits, weights and kept parameters",
     "Tests compare evidences of a handful of fits with stored numbers.",
     [S + "BaseFitter.py"], [("getLogZ, getLogLikelihood, getEvidence", S + "BaseFitter.py")], TV,
     "Uniform priors only; compared at 1e-5.")

prop("C16", "The log likelihood is the sum of the log densities of the errors",
     "For every error distribution and problem the log likelihood is the sum over all data of the log of the normalised "
     "density of its error, taken to the power of its weight, with the scale replaced by (or combined with) the accuracy "
     "of the datum. All ways to ask for it agree, the scale derived from residuals is the one where the likelihood is "
     "highest, and a mixture is the weighted sum of the densities of its parts.",
     ["inputs", "configurations", "histories"], "all distributions, problems, weights, accuracies, parameters and hyperparameters",
     "Tests evaluate the distributions on one or two data sets, mostly comparing two implementations with each other.",
     [S + "ErrorDistribution.py", S + "ScaledErrorDistribution.py", S + "GaussErrorDistribution.py", S + "LaplaceErrorDistribution.py",
      S + "CauchyErrorDistribution.py", S + "ExponentialErrorDistribution.py", S + "UniformErrorDistribution.py",
      S + "PoissonErrorDistribution.py", S + "BernoulliErrorDistribution.py", S + "MixedErrorDistribution.py",
      S + "Gauss2dErrorDistribution.py"],
     [("logLikelihood, logLdata, logLikelihood_alt, getScale", S + "ErrorDistribution.py")], TV,
     "TLC checks that the densities of the specification are normalised and that its best scale is best; values of the "
     "code are compared at 1e-8.")
prop("C17", "Partials of the log likelihood are its slopes",
     "For any selection of parameters and hyperparameters, counted from the front or from the back, the partial "
     "derivatives of the log likelihood are its slopes in the order of the selection, analytic or numeric, for all "
     "distributions, mixtures and problems; the hessian holds the second derivatives.",
     ["inputs", "configurations"], "all distributions, problems and selections, away from kinks of the density",
     "Tests compare analytic with numeric partials on one or two data sets, all parameters at once.",
     [S + "ErrorDistribution.py", S + "GaussErrorDistribution.py", S + "LaplaceErrorDistribution.py", S + "CauchyErrorDistribution.py",
      S + "ExponentialErrorDistribution.py", S + "PoissonErrorDistribution.py", S + "BernoulliErrorDistribution.py",
      S + "MixedErrorDistribution.py", S + "Gauss2dErrorDistribution.py"],
     [("partialLogL, nextPartialData, numPartialLogL, hessianLogL", S + "ErrorDistribution.py")], TV,
     "Slopes of the specification are checked by TLC against differences of its log likelihood.")
prop("C18", "Hyperparameters keep their values and limits, each distribution its own",
     "A hyperparameter has the value, prior and limits it was last given; it is estimated exactly when it has limits and "
     "is not kept fixed; keeping one changes no other. A mixture has the hyperparameters of its parts followed by the "
     "fraction. A copy has the same settings, and neither copy nor original is changed by what is done to the other.",
     ["histories"], "all histories of making, mixing, limiting, keeping and copying distributions",
     "Tests set limits once on fresh distributions.",
     [S + "ErrorDistribution.py", S + "HyperParameter.py", S + "NoiseScale.py", S + "MixedErrorDistribution.py", S + "ExponentialErrorDistribution.py"],
     [("setLimits, setPriors, keepFixed, copy", S + "ErrorDistribution.py")], TV,
     "All histories of up to 4 (thorough 5) actions in a small world, and longer random ones; all distributions are looked at after each action.")
prop("C19", "Problems report the residuals, weights and slopes of their data",
     "A problem gives for each datum the difference with the result of its model (wrapped when the model is cyclic), "
     "its weight, and the slopes to the parameters, for one or several outputs and for errors in both x and y. Changing weights "
     "or accuracies, or copying the problem, has no other effect, and arrays that were given are not changed.",
     ["inputs", "histories"], "all problems, models, weights and accuracies",
     "Tests use one or two problems of each class.",
     [S + "Problem.py", S + "ClassicProblem.py", S + "MultipleOutputProblem.py", S + "ErrorsInXandYProblem.py"],
     [("residuals, weightedResSq, setAccuracy, partial, copy", S + "Problem.py")], TV,
     "Compared with the specification at 1e-9.")

prop("C20", "Nested sampling keeps the books: samples, weights, evidence, information",
     "In each iteration exactly the walkers of lowest likelihood become samples, and copies of others replace them; each "
     "sample weighs its likelihood times the volume lost; evidence, information, precision, and the parameters with "
     "their deviations are those of the weighted samples; samples are in order of likelihood, their weights add to 1, "
     "at most maxsize are kept; the run ends exactly when tolerance, end, minimum or maximum iterations say so.",
     ["histories", "configurations"], "all runs, ensembles, discards, problems, engines and settings",
     "Tests compare the evidence of a few problems with a known value within a wide margin.",
     [S + "NestedSampler.py", S + "PhantomSampler.py", S + "SampleList.py", S + "WalkerList.py"],
     [("sample, updateEvidence, optionalRestart, copyWalker", S + "NestedSampler.py")], TV,
     "All runs of a small scope through a scripted engine, and random runs with the real engines.")
prop("C21", "Engines move one walker, within the priors, never below the limit",
     "An engine changes no other walker than the one it is given; a walker that moved lies within the limits of its "
     "priors, has the log likelihood of its parameters, and is not below the limit; what is not fitted is unchanged; "
     "an engine reports no moves exactly when nothing has changed. The same holds for the walkers that start a run.",
     ["inputs", "histories"], "all engines, problems, priors, limits and selections of parameters",
     "Tests run each engine a few times on one problem.",
     [S + "Engine.py", S + "GalileanEngine.py", S + "ChordEngine.py", S + "GibbsEngine.py", S + "StepEngine.py", S + "RandomEngine.py",
      S + "StartEngine.py", S + "PhantomCollection.py"],
     [("execute", S + "Engine.py")], TV, "Likelihoods are recomputed in the specification at 1e-8.")
prop("C23", "Nested sampling leaves parameters that are kept at their value",
     "The parameters and hyperparameters to be found are those that are not kept and, for hyperparameters, have limits; "
     "all others have the value they are kept at or were given in every walker and sample, and in the result, with "
     "zero deviation.",
     ["configurations"], "all selections to keep, counted from the front or from the back, given at the start or at the run",
     "Tests keep one parameter of one model.",
     [S + "NestedSampler.py", S + "Engine.py", S + "Sample.py"],
     [("makeFitlist", S + "NestedSampler.py")], TV, "Random runs in which most have something kept.")

prop("C22", "Statistics of a list of samples are those of its weighted samples",
     "Whatever is added, copied, replaced, weeded or normalised: averages and deviations of parameters, hyperparameters, "
     "nuisance parameters and results, the median, the modus, the largest likelihood, and all evolutions are those of "
     "the samples in the list; averages of circular parameters are taken on the circle; a sample that is added "
     "gets a number of its own and remembers where it is from; weeding removes the lighter of the two ends.",
     ["histories", "inputs"], "all histories of a SampleList, with static and dynamic models",
     "Tests print the results of one run.",
     [S + "SampleList.py", S + "Sample.py", S + "Tools.py"],
     [("averstd, getParameters, average, monteCarloError, weed, normalize", S + "SampleList.py")], TV,
     "All histories of up to 4 (thorough 5) actions in a small world, and longer random ones.")
prop("C25", "Lists of walkers and phantoms stay complete, in order and within their limit",
     "Walkers that are inserted keep a list in order; what is cropped is exactly what is not above the limit; a copy of a walker has the "
     "number of the one it replaces and is independent; phantoms are kept for each number of parameters; the range of "
     "parameters given for a limit is that of the phantoms above it. A walker that becomes a sample, and the copy of a "
     "sample, have the same parameters, nuisance parameters, hyperparameters, likelihood and history.",
     ["histories"], "all histories of a WalkerList and of a PhantomCollection, static and dynamic",
     "Tests insert a few walkers in one order.",
     [S + "WalkerList.py", S + "Walker.py", S + "PhantomCollection.py", S + "Sample.py"],
     [("insertWalker, cropOnLow, copy", S + "WalkerList.py"), ("getParamMinmax, storeItems", S + "PhantomCollection.py")], TV,
     "All histories of 4 actions in a small world (a sample of them in the quick check), and longer random ones; the limit never falls.")

prop("C26", "A model grows and shrinks by whole components, within its bounds, alone",
     "Growing a dynamic model adds one component (degree, order, knot, repeated term) with all its parameters at their "
     "place in the chain, shrinking removes one with its parameters; all other parameters keep their value, new ones lie "
     "within their priors. The number of components never passes the minimum or maximum; when it would, or when there is "
     "no room, the model stays as it was. Knots stay in order, apart and within their ends. Copies are not changed.",
     ["histories", "configurations"], "all dynamic models at any place in a chain, all histories of growing, shrinking, varying, copying",
     "Tests grow a few models once; the pathological cases are sequences in chains with other models, at the bounds, and with copies.",
     [S + "Dynamic.py", S + "Modifiable.py", S + "RepeatingModel.py", S + "PolynomialDynamicModel.py", S + "HarmonicDynamicModel.py",
      S + "SplinesDynamicModel.py"],
     [("grow, shrink", S + "Dynamic.py"), ("grow, shrink, vary, varyPosition", S + "SplinesDynamicModel.py")], TV,
     "All histories of 5 (thorough 6) actions in a small world (a sample of them in the quick check), and longer random ones.")
prop("C27", "A model that has changed size is the model made with that size",
     "After any history of growing, shrinking, shuffling and copying, the results, partials, names, priors and numbers of "
     "parameters of a model are those of a model that is made at once with these components and parameters. Indices of the "
     "parameters to be fitted follow the parameters they are meant for; shuffling permutes whole components only.",
     ["histories", "inputs"], "all dynamic models at any place in a chain, all histories, parameters and inputs",
     "Tests do not evaluate models after they changed size in a chain.",
     [S + "Dynamic.py", S + "RepeatingModel.py", S + "SplinesDynamicModel.py", S + "BasicSplinesModel.py", S + "Model.py"],
     [("alterFitindex, alterParameterNames, shuffle", S + "Dynamic.py"), ("par2model, basePrior", S + "RepeatingModel.py")], TV,
     "As C26, with more evaluations.  Values from the formulas at 1e-7.")
prop("C28", "A decision tree sends each datum to one leaf and has one parameter per leaf",
     "Every datum reaches exactly one leaf, by the split or mask of each branch (unknown data by the rule documented), and "
     "gets the parameter of that leaf; partials are 1 there. Growing replaces a leaf by a branch with two, shrinking the reverse, "
     "varying changes one branch; other parameters keep their values; sizes stay within bounds; the tree stays consistent "
     "and equals the one made from its code. Copies are independent.",
     ["histories", "inputs"], "all trees over real, boolean and categorical inputs with unknowns; all histories of changes",
     "The tests of this class are among those that are skipped.",
     [S + "DecisionTreeModel.py", S + "Dynamic.py", S + "Modifiable.py"],
     [("grow, shrink, vary", S + "DecisionTreeModel.py"), ("sortXdata, recursiveResult", S + "DecisionTreeModel.py"),
      ("encode, decode", S + "DecisionTreeModel.py")], TV,
     "All histories of 4 (thorough 5) actions in a small world (a sample of them in the quick check), and longer random ones.")

prop("C29", "Nested sampling moves walkers consistently between models of different size",
     "With a model that grows and shrinks each engine does what its name says, above the likelihood limit, with priors and size limits "
     "respected: birth adds a component, death removes one, structure rearranges, others leave the structure. Always a walker "
     "has the parameters of its model, the list of free ones is right, kept and fixed values stay, its likelihood is that of its own model; "
     "no two walkers share a model; samples keep theirs.",
     ["histories", "inputs"], "all dynamic models, engines, random numbers and runs of nested sampling",
     "The tests of nested sampling with dynamic models are skipped or only print; a wrong index after a birth or death needs a history of moves.",
     [S + "BirthEngine.py", S + "DeathEngine.py", S + "StructureEngine.py", S + "StartEngine.py", S + "Dynamic.py", S + "NestedSampler.py", S + "Engine.py"],
     [("execute", S + "BirthEngine.py"), ("execute", S + "DeathEngine.py"), ("execute", S + "StructureEngine.py"),
      ("alterFitindex, shrinkFitindex", S + "Dynamic.py")], TV,
     "Random runs of the real sampler, every engine call judged; walkers that change are recomputed by the specification.")

prop("C30", "Ordering problems: engines permute tours, and the best tour is returned",
     "A Salesman problem gives the distance of each step (Manhattan, Euclidic, spherical, tabulated, user defined; scale, weights, "
     "open tours) and its cost is their sum. Order engines keep tours permutations, change only their own walker, never go below the "
     "likelihood limit, make only their kind of change (move, reverse, switch, uncross a crossing, nearest neighbour), and report moves truly. "
     "NestedSolver returns the best tour found; the same seed gives the same run.",
     ["histories", "inputs"], "all problems, tours, engines, random numbers and runs of the solver",
     "The tests of the solver are skipped; those of engines look only at whether a tour is a permutation.",
     [S + f + ".py" for f in ("SalesmanProblem", "OrderProblem", "NestedSolver", "MoveEngine", "ReverseEngine", "SwitchEngine", "LoopEngine",
                              "NearEngine", "ShuffleEngine", "StartOrderEngine", "DistanceCostFunction")],
     [("result, distances, minimumDistance", S + "SalesmanProblem.py"), ("executeOnce", S + "MoveEngine.py"), ("executeOnce", S + "LoopEngine.py"),
      ("executeOnce", S + "NearEngine.py"), ("solve", S + "NestedSolver.py")], TV,
     "All tours of 5 nodes under all moves in the model; random problems, engine calls and solver runs of the real code judged.")


def main():
    names = {}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(q) + "\n")
    m = {"version": 1,
         "setup_cmd": "/opt/venv/bin/python harness/setup.py",
         "hooks": {"guard": "none", "enable": "the code is observed through its public interface; no hooks were added",
                   "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "/opt/venv/bin/python harness/check.py %s quick" % p["id"],
                     "thorough_cmd": "/opt/venv/bin/python harness/check.py %s thorough" % p["id"],
                     "technique": p["technique"], "level": "model_checking", "level_note": p["note"]}
                    for p in PROPS if p["na"] is None],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"] is not None],
         "notes": "TLA+ with TLC; see DESIGN.md."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
