MAP={
"appending a chain with a pipe":["C01","C02"],
"isolateModel":["C03"],
"derivative and partial of chains":["C02"],
"partial and derivative evaluate a piped":["C02"],
"priors and limits of compound":["C05"],
"setLimits with only":["C05"],
"name of brackets":["C01"],
"check for zero":["C04"],
"numeric partials":["C02","C04"],
"RepeatingModel: copy":["C01","C03"],
"CombiModel: copies":["C03"],
"EtalonDriftModel":["C02"],
"PseudoVoigtModel":["C04"],
"derivative of SplinesModel":["C02"],
"SineSplineModel":["C02"],
"keep holds for the fit":["C12"],
"getLogZ uses limits":["C15"],
"occam factor of the noise":["C15"],
"Fitter and QRFitter combine":["C10","C12"],
"CurveFitter with limits":["C13","C12"],
"LevenbergMarquardtFitter leaves":["C12","C13"],
"AnnealingAmoeba keeps":["C13"],
"ScipyFitter uses":["C13"],
"ScipyFitter stays":["C13"],
"RobustShell without":["C14"],
"range of the noise scale":["C15"],
"check degeneracy":["C13"],
"standard deviations from the chain":["C03"],
"ExponentialErrorDistribution where a residual":["C17"],
"alternative partial of the Bernoulli":["C17"],
"alternative partial of the LaplaceErrorDistribution":["C17"],
"scale of the ExponentialErrorDistribution":["C16"],
"names of the hyperparameters of a mixed":["C18"],
"hyperparameters of the copy of a mixed":["C18"],
"limits on all hyperparameters":["C18"],
"keepFixed keeps hyperparameters":["C18"],
"residuals in the UniformErrorDistribution":["C16"],
"count all outputs":["C19","C16"],
"scalar accuracy and lists":["C19","C16"],
"keep the accuracies":["C19"],
"mixture of error distributions with any":["C16","C18"],
"norm of the 2-dimensional":["C16"],
"in the hessian of the gaussian":["C17"],
"set priors on the hyperparameters":["C18"],
"hyperparameter with limits is not":["C18"],
"copy of an error distribution":["C18"],
"residuals of an error distribution without":["C16"],
"unbound JeffreysPrior":["C07"],
"copy of a prior":["C09"],
"limits of a prior":["C09","C07"],
"parameters to be fitted when some are kept and hyper":["C23"],
"logZ and evidence in the list":["C20"],
"information is updated with the likelihood":["C20"],
"remaining walkers are sorted":["C20"],
"not longer than maxsize":["C20"],
"second run of a NestedSampler":["C20"],
"ranges of the RandomEngine":["C21"],
"check of walkers with nuisance":["C20"],
"PhantomSampler replaces at least":["C20"],
"PhantomSampler starts with as many":["C20"],
"no range of the parameters from a single":["C21"],
"averages and standard deviations in a SampleList":["C22"],
"evolution of the parameters of dynamic":["C22"],
"monteCarloError of a SampleList":["C22"],
"no range of the parameters before":["C25"],
"hyperparameters of a walker do not":["C25"],
"copy of a DecisionTreeModel keeps the limits":["C28"],
"partials of a DecisionTreeModel for a list":["C28"],
"a DecisionTreeModel without branches":["C28"],
"makes a new mask when a branch":["C28"],
"look forever for room to move":["C27"],
"look forever for room for a knot":["C27"],
"the structure of a modifiable model in a chain":["C27"],
"last knot of a SplinesDynamicModel":["C27"],
"a dynamic model in a chain, or with fixed hyper":["C29"],
"within the limits of its own priors":["C27"],
"copy of a SplinesDynamicModel keeps its border":["C27"],
"copy of a DecisionTreeModel stays non-dynamic":["C28"],
"unknown data (NaN) do not decide":["C28"],
"branches of a DecisionTreeModel have either":["C28"],
"DecisionTreeModel in a chain; removing":["C28"],
"a DecisionTreeModel made from a code":["C28"],
"fit index when a parameter is removed":["C26"],
"limits of some of the parameters":["C05"],
    "ChordEngine does not leave the domain": ["C21"],
    "engines on a walker without parameters": ["C29"],
    "order engines change the walker": ["C30"],
    "ShuffleEngine can be executed": ["C30"],
    "StartOrderEngine uses its own": ["C30"],
    "ReverseEngine reports no moves": ["C30"],
    "NearEngine uses the distance": ["C30"],
    "NearEngine reports no move": ["C30"],
    "LoopEngine finds the crossings of": ["C30"],
    "LoopEngine finds where": ["C30"],
    "tabulated distances can be given": ["C30"],
    "minimum of a distance defined": ["C30"],
    "NestedSolver with a distribution": ["C30"],
    "check of walkers without a model": ["C30"],
}
