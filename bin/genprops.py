#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept in one place so that ids stay stable)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in (state or [])],
                  "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None}}
    P.append(d)
E2E="The stable tests are four end-to-end runs that only ask for exit code 0 and a non-empty report file; "
p("C01","Box constraints are validated and box membership is exact",
  "A box (lower and upper bounds per parameter) is accepted only when both bound vectors have the same length and lower < upper in every dimension, and is rejected with an exception otherwise. A point is reported inside the box exactly when lower <= x <= upper holds in every dimension (bounds included). Points generated at random inside a box lie in it, one independent coordinate per dimension.",
  ["inputs"],"all finite bound vectors and points",E2E+"no test offers an invalid box or a boundary point.",
  ["src/Bounds/bounds.cpp","src/Optimizers/optimization_setter_getters.cpp"],
  [("Bounds::checkIfBoundsAreValid, setBounds, isPointWithinBounds, generateVectorWithinBounds","src/Bounds/bounds.cpp")],
  ["exceptions thrown by Bounds","getLowerBounds/getUpperBounds","isPointWithinBounds"])
p("C02","Every design sent to evaluation lies inside the user's box",
  "Whatever the surrogate models, the random numbers and the earlier evaluations are, each parameter vector that the optimizer hands to the objective function or to a constraint lies within the box constraints the user gave (up to rounding of the last bits). The trust region in which candidates are searched is always a non-empty sub-box of the full box that contains the trust region centre.",
  ["inputs","histories"],"all box constraints, all draws, all surrogate predictions, all trust region sizes in the allowed range",
  E2E+"they sample one random path and never inspect the proposed designs.",
  ["src/Optimizers/optimization.cpp","src/Design/design_bo.cpp","src/Optimizers/efficient_global_optimization.cpp"],
  [("Optimizer::defineTrustRegion / findTheMostPromisingDesign / findTheMostPromisingDesignToBeSimulated","src/Optimizers/optimization.cpp"),("DesignForBayesianOptimization::gradientUpdateDesignVector and generateRandomDesignVector*","src/Design/design_bo.cpp")],
  ["argument of the objective callback","Design::designParameters","lowerBoundsTrustRegion/upperBoundsTrustRegion"])
p("C03","Discrete parameters are rounded to the nearest admissible grid value",
  "In every design handed to evaluation, a parameter declared discrete with increment dx has one of the values lower + k*dx (k = 0,1,..., not above the upper bound), namely the one nearest to the proposed value, the top grid value included. Parameters that were not declared discrete keep their proposed value.",
  ["inputs","configurations"],"all boxes, increments and proposed values with up to a stated number of grid points",
  E2E+"none of them has a discrete parameter.",
  ["src/Optimizers/optimization.cpp"],[("Optimizer::roundDiscreteParameters, generateDiscreteValues, setParameterToDiscrete","src/Optimizers/optimization.cpp")],
  ["Design::designParameters","argument of the objective callback"])
p("C04","The reported optimum is the best evaluated design",
  "The global optimal design taken from the optimization history is a design that was evaluated: the feasible one with the smallest objective value, or, if no evaluated design is feasible, the one with the smallest objective value, flagged infeasible. Its reported parameters, objective, constraint values, improvement and feasibility flag all come from that same history entry, and the XML report shows the same values under the right names.",
  ["histories"],"all histories up to a stated number of rows, dimension and constraints",
  E2E+"the content of the report is never compared with the history.",
  ["src/Optimizers/globalOptimalDesign.cpp"],[("GlobalOptimalDesign::setGlobalOptimalDesignFromHistoryFile, generateXmlString, saveToXMLFile","src/Optimizers/globalOptimalDesign.cpp")],
  ["getters of the optimal design","globalOptimalDesign.xml"])
p("C05","The optimization history records every evaluation faithfully and is append-only",
  "Adding a design to the optimization history appends exactly one row holding, in this order, its parameters, its objective value, its constraint values in ID order, its improvement value and its feasibility flag, and leaves every earlier row unchanged; the saved history file has one header line naming these columns in the same order and one line per row. Loading training data as initial history keeps each sample's values in the matching columns.",
  ["histories","inputs"],"all designs and all histories up to stated sizes",
  E2E+"the history file is not read by the tests.",
  ["src/Optimizers/optimization_history.cpp","src/Optimizers/optimization.cpp"],
  [("OptimizationHistory::updateOptimizationHistory, saveOptimizationHistoryFile, setFileHeader, setData","src/Optimizers/optimization_history.cpp"),("Optimizer::setOptimizationHistory*","src/Optimizers/optimization.cpp")],
  ["optimizationHistory.csv","OptimizationHistory::getData"])
p("C06","Constraint feasibility is decided exactly from the declared inequalities",
  "A set of constraint values is feasible exactly when every constraint value satisfies its declared inequality (value > target for a greater-than constraint, value < target for a less-than constraint, strictly); a problem without constraints is always feasible. Fewer constraint values than constraints are rejected.",
  ["inputs","configurations"],"all constraint values, targets and constraint types for up to a stated number of constraints",
  E2E+"feasibility at or near the constraint boundary is never exercised.",
  ["src/Optimizers/optimization_constraint_functions.cpp","src/ObjectiveFunctions/constraint_functions.cpp"],
  [("Optimizer::checkConstraintFeasibility","src/Optimizers/optimization_constraint_functions.cpp"),("ConstraintFunction::checkFeasibility","src/ObjectiveFunctions/constraint_functions.cpp")],
  ["feasibility flag in history and design"])
p("C07","Improvement values are zero unless a design is feasible and better",
  "The improvement credited to an evaluated design is zero when the design is infeasible or not better than the best feasible value known at the start, is the amount by which it undercuts that value otherwise, and is a positive token amount for the first feasible design when none was known. It is never negative, and the best feasible value at the start is the smallest objective among the feasible initial samples.",
  ["inputs","histories"],"all objective values, feasibility flags and initial histories up to stated sizes",
  E2E+"improvement values are never checked.",
  ["src/Optimizers/optimization.cpp","src/Optimizers/optimization_history.cpp"],
  [("Optimizer::calculateImprovementValue","src/Optimizers/optimization.cpp"),("OptimizationHistory::calculateInitialImprovementValue","src/Optimizers/optimization_history.cpp")],
  ["improvement column"])
p("C08","Feasibility probabilities are probabilities and point the right way",
  "For every predicted constraint mean and standard deviation the probability of satisfying a constraint lies in [0,1], does not decrease as the prediction moves towards the feasible side, is the step function in the limit of vanishing standard deviation, and the probabilities of P(value > target) and P(value < target) add up to one. The acquisition function is multiplied by exactly one such factor per constraint, chosen by the declared type.",
  ["inputs","configurations"],"all finite means, targets and non-negative deviations",
  E2E+"probabilities are internal.",
  ["src/Optimizers/optimization_constraint_functions.cpp","src/Optimizers/optimization.cpp","src/Design/design_bo.cpp"],
  [("Optimizer::calculateFeasibilityProbabilities, calculateProbabilityGreaterThanTarget/LessThanTarget, normalCdf","src/Optimizers/optimization_constraint_functions.cpp, optimization.cpp"),("DesignForBayesianOptimization::updateAcqusitionFunctionAccordingToConstraints","src/Design/design_bo.cpp")],
  ["constraintFeasibilityProbabilities","valueAcquisitionFunction"])
p("C09","Expected improvement is non-negative and follows its definition",
  "The expected improvement of a candidate equals (best - mean)*Phi(z) + s*phi(z) with s the predicted standard deviation times the exploration factor and z = (best - mean)/s; it is zero when s vanishes, and a candidate is never given a better value for a worse predicted mean at equal deviation.",
  ["inputs"],"all finite predictions, best values and factors",
  E2E+"acquisition values are internal.",
  ["src/ObjectiveFunctions/objective_function.cpp","src/Design/design_bo.cpp"],
  [("ObjectiveFunction::calculateExpectedImprovement","src/ObjectiveFunctions/objective_function.cpp"),("DesignForBayesianOptimization::calculateGaussianPDF/CDF","src/Design/design_bo.cpp")],
  ["valueAcquisitionFunction"])
p("C10","The evolutionary optimizer returns the best individual it evaluated, in bounds",
  "For every objective function and every sequence of random draws, every individual the evolutionary optimizer evaluates lies within the parameter bounds, and the best individual it returns has the smallest objective value present in its population, together with the genes that produced that value; the best individual is never removed from the population by the death step while a worse one survives it in its place.",
  ["inputs","histories"],"all objective values and all draws, for stated population sizes and generations",
  E2E+"they run the optimizer on one random path and never look at the population.",
  ["src/InternalOptimizers/ea_optimizer.cpp","src/InternalOptimizers/ea_population.cpp","src/InternalOptimizers/ea_individual.cpp"],
  [("EAOptimizer::optimize, crossOver, mutate, cleanPopulation","src/InternalOptimizers/ea_optimizer.cpp"),("EAPopulation::updatePopulationMinAndMax, getBestIndividual","src/InternalOptimizers/ea_population.cpp")],
  ["getBestDesignvector/getBestIndividual","population min/max"])
p("C11","Population bookkeeping of the evolutionary optimizer stays consistent",
  "After every operation on the population the identifiers of its individuals are pairwise different, its size equals the number of individuals added minus those removed, its recorded minimum and maximum are those of the individuals in it, and removing an individual by identifier removes exactly that individual. After initialization and after every generation, fitness lies in (0,1] with better individuals at least as fit as worse ones, reproduction probabilities are positive and sum to one and death probabilities are in [0,1].",
  ["histories","inputs"],"all objective values and all draws, for stated population sizes and numbers of operations",
  E2E+"no test inspects the population.",
  ["src/InternalOptimizers/ea_population.cpp","src/InternalOptimizers/ea_optimizer.cpp"],
  [("EAPopulation::addInidividual, removeIndividual, updateFitnessValues, updateReproductionProbabilities, updateDeathProbabilities","src/InternalOptimizers/ea_population.cpp"),("EAOptimizer::addNewGeneration","src/InternalOptimizers/ea_optimizer.cpp")],
  ["EAPopulation state"])
p("C12","Matrix row and column operations move exactly the data they name",
  "Getting, setting, adding, deleting, concatenating or slicing rows and columns of a matrix changes exactly the named entries, keeps all other entries at their logical positions and yields the stated dimensions; every out-of-range index or size mismatch is rejected with an exception and never reads or writes outside the matrix.",
  ["inputs"],"all matrices up to stated sizes with arbitrary entries, all index arguments",
  E2E+"they only ever run a few fixed shapes.",
  ["src/LinearAlgebra/matrix.cpp"],[("mat::addRow, addColumn, deleteRow(s), submat, getRow/getCol, setRow/setColumn, resize, concatenate*","src/LinearAlgebra/matrix.cpp")],
  ["matrix entries and dimensions","exceptions"])
p("C13","Vector container operations and arithmetic are exact and bounds checked",
  "Copying, resizing, appending, slicing, element-wise arithmetic, dot product and norms of vectors give the mathematically defined entries and sizes for every input, assignment and copy never share storage, and every out-of-range index or size mismatch is rejected with an exception rather than touching memory outside the vector.",
  ["inputs"],"all vectors up to stated sizes with arbitrary entries",
  E2E+"sizes and values are whatever the sample runs use.",
  ["src/LinearAlgebra/vector.cpp"],[("vec constructors, operators, resize, push_back, copyVector, head, tail, concatenate","src/LinearAlgebra/vector.cpp")],
  ["vector entries and size","exceptions"])
p("C14","Linear solvers solve the system they are given or report failure",
  "For every symmetric positive definite system the Cholesky solver, and for every well-pivoted square system the LU solver, returns x with A x = b, and their determinant and log-determinant agree with the matrix; the factors multiply back to the matrix and inverses multiply to the identity. For a matrix that is not positive definite (Cholesky) or singular (LU) failure is reported, never a result; a solver whose matrix is replaced never answers from the old factorization.",
  ["inputs","histories"],"all matrices up to stated sizes",
  E2E+"only well-conditioned correlation matrices of sample runs are factorized.",
  ["src/LinearAlgebra/linear_solver.cpp","src/LinearAlgebra/matrix.cpp"],
  [("CholeskySystem, LUSystem","src/LinearAlgebra/linear_solver.cpp"),("mat::cholesky, lu, invert, solveCholesky, solve","src/LinearAlgebra/matrix.cpp")],
  ["solution vectors","determinants","return codes/exceptions"])
p("C15","Normalization maps the box to [0,1/dim] and back without moving points",
  "Normalizing a point with the box constraints maps each parameter affinely so that the lower bound goes to 0 and the upper bound to 1/dimension, denormalizing undoes it, and the same map is applied to training, validation and test samples, to a matrix row by row and to a single vector. Gradients and directional derivatives in training data are rescaled by the matching chain-rule factor.",
  ["inputs"],"all boxes and points up to a stated dimension",
  E2E+"normalization is internal.",
  ["src/LinearAlgebra/vector.cpp","src/LinearAlgebra/matrix.cpp","src/SurrogateModels/surrogate_model_data.cpp","src/Optimizers/optimization.cpp"],
  [("vec::normalizeVector/denormalizeVector","src/LinearAlgebra/vector.cpp"),("normalizeMatrix","src/LinearAlgebra/matrix.cpp"),("SurrogateModelData::normalize*","src/SurrogateModels/surrogate_model_data.cpp")],
  ["normalized vectors and matrices"])
p("C16","Correlation matrices are symmetric kernels with the declared diagonal",
  "For every set of samples and every admissible hyperparameter vector the correlation matrix is symmetric, has 1 + epsilon on its diagonal, has off-diagonal entries equal to the kernel value of the two samples in (0,1], and the correlation vector of a sample point equals the matrix column without epsilon. Kernel values depend only on the coordinate differences, do not increase with distance, and derivative kernels are the derivatives of the kernel.",
  ["inputs","configurations"],"all sample sets up to stated sizes, all hyperparameters in range",
  E2E+"correlations are internal.",
  ["src/CorrelationFunctions","src/LinearAlgebra/vector.cpp","src/LinearAlgebra/matrix.cpp"],
  [("ExponentialCorrelationFunction / GaussianCorrelationFunction ::computeCorrelationMatrix, computeCorrelationVector, computeCorrelation*","src/CorrelationFunctions"),("CorrelationFunction::setEpsilon, setInputSampleMatrix","src/CorrelationFunctions/correlation_functions.cpp")],
  ["correlation matrix and vectors","exceptions for invalid hyperparameters"])
p("C17","The Kriging model interpolates its samples and its variance is never negative",
  "After the auxiliary quantities are computed the Kriging predictor equals beta0 + r(x)^T R^-1 (y - beta0) with the trained correlation, so that it reproduces the training output at a training point when the regularization is zero, and the standard deviation it reports is the Kriging formula, non-negative for every point. Both predictors (with and without variance) agree on the mean.",
  ["inputs"],"all sample sets up to stated sizes, all query points, hyperparameters and outputs",
  E2E+"predictions are never compared with the data.",
  ["src/SurrogateModels/kriging_training.cpp"],[("KrigingModel::updateAuxilliaryFields, interpolate, interpolateWithVariance","src/SurrogateModels/kriging_training.cpp")],
  ["interpolate, interpolateWithVariance"])
p("C18","New samples reach the training data once and are never lost",
  "Adding an evaluated sample to a surrogate model appends it to the training data (in memory and in the training file) unless a sample within the declared tolerance is already there, in which case nothing changes; all earlier samples stay as they were, in order, and the model is refreshed from the enlarged data. Samples keep their values whatever their scale.",
  ["histories","inputs"],"all training sets up to stated sizes and all new samples",
  E2E+"training data are never compared before and after.",
  ["src/SurrogateModels/kriging_training.cpp","src/SurrogateModels/linear_regression.cpp","src/SurrogateModels/surrogate_model.cpp","src/SurrogateModels/surrogate_model_data.cpp"],
  [("KrigingModel::addNewSampleToData","src/SurrogateModels/kriging_training.cpp"),("SurrogateModel::appendRowVectorToCSVData, updateModelWithNewData","src/SurrogateModels/surrogate_model.cpp")],
  ["training CSV","getRawData, getNumberOfSamples"])
p("C19","Numeric CSV files round-trip and malformed ones are rejected",
  "Writing a matrix or vector to a CSV file and reading it back gives the same shape and, to the written precision, the same entries in the same places, with the header line (if any) not counted as data; appending a row leaves earlier lines untouched. A missing file, a non-numeric field or rows of different lengths raise an exception and never produce data.",
  ["inputs","fault_sequences"],"all matrices up to stated sizes, all file contents up to a stated shape",
  E2E+"no malformed file is ever offered.",
  ["src/LinearAlgebra/matrix.cpp","src/LinearAlgebra/vector.cpp"],
  [("mat::saveAsCSV, readFromCSV","src/LinearAlgebra/matrix.cpp"),("vec::saveToCSV, appendToCSV, readFromCSV","src/LinearAlgebra/vector.cpp")],
  ["files","matrix entries","exceptions"])
p("C20","Configuration text is parsed to exactly the enclosed values",
  "For every configuration text, asking for a keyword yields the text between its opening and closing tag (trimmed as documented, converted to the requested type, list entries in order), the documented not-found value if the keyword is absent, and an exception if it is opened and not closed, repeated, or not convertible. Repeated sections yield their contents in order, and a section that is never closed contributes nothing. Comparison of words ignores case only, and ON/OFF/YES/NO switches are recognised exactly.",
  ["inputs"],"all texts over a bounded number of arbitrary characters",
  E2E+"the command line driver and its parsers are not run by them at all.",
  ["src/Driver/xml_functions.cpp","src/Driver/string_functions.cpp","src/Driver/configkey.cpp"],
  [("getStringFromXML, getDoubleFromXML, get*VectorFromXML, getContentBetween*","src/Driver/xml_functions.cpp"),("isEqual, checkIfOn/Off, removeSpacesFromString, ...","src/Driver/string_functions.cpp"),("Keyword","src/Driver/configkey.cpp")],
  ["parsed values and exceptions"])
p("C21","A configuration file sets up the problem it describes",
  "Reading a configuration produces an optimization problem with the declared dimension, one bound pair (and discrete increment where given) per parameter in file order, the declared objective and its evaluation settings, every constraint in file order with its own type, target value and settings, and the declared numbers of samples and iterations; a configuration lacking a mandatory entry is rejected.",
  ["configurations"],"all configurations up to a stated number of parameters and constraints with arbitrary values",
  E2E+"no test reads a configuration file.",
  ["src/Driver/driver_xml.cpp","src/Driver/configkey.cpp"],
  [("RoDeODriver::setOptimizationFeatures, setConstraintFunctions, readOptimizationParameters, ...","src/Driver/driver_xml.cpp")],
  ["the Optimizer object built by the driver"])
p("C22","Constraint expressions mean what they say",
  "A constraint given as 'name < value' or 'name > value' is registered under that name with that inequality direction and that numeric target, in the order given; an expression with a missing or unknown operator or a non-numeric value is rejected with an exception and registers nothing.",
  ["inputs"],"all expressions up to a stated length",
  E2E+"the constrained one uses a single well-formed expression and does not check its direction.",
  ["src/API/cppAPI.cpp","src/ObjectiveFunctions/constraint_functions.cpp"],
  [("RobustDesignOptimizer::addConstraint, parseExpression","src/API/cppAPI.cpp"),("ConstraintFunction::setConstraintDefinition / ConstraintDefinition","src/ObjectiveFunctions/constraint_functions.cpp")],
  ["the constraint definitions","exceptions"])
p("C23","A failed evaluation is never recorded as a result",
  "When an external evaluation cannot be started, exits with an error, or leaves no readable, complete numeric output, the evaluation ends in an exception; when an evaluation yields NaN the optimization stops; in all these cases no row is added to the history and no sample to the training data. Otherwise the value used is exactly the one the evaluation produced for the design parameters it was given.",
  ["fault_sequences","inputs"],"all exit codes, output file contents up to a stated shape, and callback results",
  E2E+"all their evaluations succeed.",
  ["src/ObjectiveFunctions/objective_function.cpp","src/ObjectiveFunctions/constraint_functions.cpp","src/Optimizers/optimization.cpp","src/Optimizers/efficient_global_optimization.cpp","src/Design/design.cpp"],
  [("ObjectiveFunction::evaluateDesign, evaluateDesignExternal, readOutput, addDesignToData","src/ObjectiveFunctions/objective_function.cpp"),("ConstraintFunction::evaluateDesign","src/ObjectiveFunctions/constraint_functions.cpp"),("Optimizer::abortIfHasNan","src/Optimizers/optimization.cpp")],
  ["exceptions","history","training data"])
p("C24","The optimization run spends exactly its evaluation budget",
  "An optimization run evaluates the objective function exactly the configured maximum number of times, evaluates every constraint once for every design, records each evaluated design exactly once in the history, in the order of evaluation, and adds it to the data of the objective and constraint surrogates; then it stops and reports.",
  ["histories"],"all objective and constraint values and all random draws, for budgets up to a stated size",
  E2E+"the number and order of evaluations are not observed.",
  ["src/Optimizers/efficient_global_optimization.cpp","src/Optimizers/optimization.cpp"],
  [("Optimizer::performEfficientGlobalOptimization and its helpers","src/Optimizers/efficient_global_optimization.cpp")],
  ["calls of the objective/constraint callbacks","history"])
p("C25","Incomplete or inconsistent settings are refused before anything is evaluated",
  "If a mandatory setting (bounds, objective, dimension, number of function evaluations, names) is missing or a size or value is inconsistent or out of its documented range, the call that sets or uses it raises an exception before any evaluation takes place; complete and consistent settings are accepted.",
  ["configurations"],"all subsets of the mandatory settings, all numeric setting values",
  E2E+"they only use complete settings.",
  ["src/API/cppAPI.cpp","src/Optimizers/optimization.cpp","src/Optimizers/optimization_setter_getters.cpp","src/InternalOptimizers/ea_optimizer.cpp","src/InternalOptimizers/general_purpose_optimizer.cpp","src/ObjectiveFunctions/objective_function.cpp","src/SurrogateModels/surrogate_model_tester.cpp"],
  [("RobustDesignOptimizer::checkOptimizationSettings","src/API/cppAPI.cpp"),("Optimizer::checkIfSettingsAreOK, checkIfBoxConstraintsAreSet","src/Optimizers/optimization.cpp"),("EAOptimizer::checkIfSettingsAreOk and setters","src/InternalOptimizers/ea_optimizer.cpp")],
  ["exceptions"])
p("C26","Design-of-experiments samples pair each design with its own output",
  "A design of experiments writes, for the objective and for each constraint, a training file with exactly the requested number of rows; each row holds a design inside the box followed by the value of that very function at that design, in the same row order in all files, whatever the scale of the numbers. Latin hypercube designs put exactly one sample into each of the equally wide strata of every parameter.",
  ["inputs"],"all random draws, boxes and function values for stated numbers of samples",
  E2E+"the training files are not inspected.",
  ["src/API/cppAPI.cpp","src/LinearAlgebra/matrix.cpp"],
  [("RobustDesignOptimizer::performDoE","src/API/cppAPI.cpp"),("mat::fillRandomLHS, fillRandom","src/LinearAlgebra/matrix.cpp")],
  ["training CSV files"])
p("C27","Order statistics of vectors are exact",
  "For every vector, minimum, maximum and their positions, sorting, sortedness, mean, standard deviation, quantiles (linear interpolation between order statistics), membership tests and interval location agree with their definitions, including ties, single elements and boundary arguments; invalid arguments are rejected.",
  ["inputs"],"all vectors up to a stated length",
  E2E+"ties and boundary arguments are not exercised.",
  ["src/LinearAlgebra/vector.cpp"],[("vec::findMin/Max(Index), sort, is_sorted, quantile, mean, standardDeviation, findInterval, findIndex","src/LinearAlgebra/vector.cpp")],
  ["returned values"])
p("C28","Training data are split and stored without mixing samples",
  "Reading training data keeps every sample's inputs, output and gradient or derivative data together, sends each sample to exactly one of the training and validation sets according to the validation ratio, and reports dimension and sample count matching the file; inconsistent column counts are rejected. Reading again replaces the previous data.",
  ["inputs","configurations","histories"],"all data sets up to stated sizes, all validation ratios, all draws",
  E2E+"data sets are not inspected.",
  ["src/SurrogateModels/surrogate_model_data.cpp"],[("SurrogateModelData::readData, assignDimensionFromData, set*, shuffle/validation split","src/SurrogateModels/surrogate_model_data.cpp")],
  ["getters of SurrogateModelData"])
p("C29","Linear regression gives the regularized least-squares fit",
  "The linear surrogate's weights solve the regularized normal equations of its training data, its prediction is the affine function with these weights, in- and out-of-sample errors are the mean squared residuals over the respective samples, and predictions on test samples are stored row by row in test order.",
  ["inputs"],"all data sets up to stated sizes",
  E2E+"linear models are not used.",
  ["src/SurrogateModels/linear_regression.cpp","src/SurrogateModels/surrogate_model.cpp"],
  [("LinearModel::train, interpolate","src/SurrogateModels/linear_regression.cpp"),("SurrogateModel::calculateInSampleError, calculateOutSampleError, tryOnTestData","src/SurrogateModels/surrogate_model.cpp")],
  ["weights, predictions, errors"])
p("C30","Trust region and exploration factors stay in range and adapt as documented",
  "The trust region length doubles after the configured number of consecutive successes and halves after the configured number of consecutive failures, always within its minimum and maximum, success and failure counters never count the same evaluation, and the exploration factor always stays within its limits. The trust region is centred on the best (feasible if any) design known. Candidates around the best design are drawn inside the trust region.",
  ["histories"],"all sequences of evaluation outcomes up to a stated length",
  E2E+"runs are too short to adapt either.",
  ["src/Optimizers/optimization.cpp","src/Optimizers/optimization_history.cpp","src/Optimizers/efficient_global_optimization.cpp"],
  [("Optimizer::modifySigmaFactor, changeTrustRegion, defineTrustRegion","src/Optimizers/optimization.cpp, efficient_global_optimization.cpp"),("OptimizationHistory::calculateCrowdingFactor","src/Optimizers/optimization_history.cpp")],
  ["trust region and sigma factor state"])
p("C31","Parallel candidate search gives the best candidate for every thread schedule",
  "The candidate search, which runs multi-start loops in parallel, returns the candidate with the largest acquisition value among all starts whatever the interleaving of the threads; the gradient-based refinement that follows never exchanges it for one with a smaller acquisition value and stays in the design space; training a Kriging model with several threads installs the best of the solutions of the threads and leaves its settings as they were; the threads of both share no unprotected mutable state.",
  ["schedules"],"all interleavings of the parallel loops for a stated number of threads and starts",
  E2E+"each run is one schedule.",
  ["src/Optimizers/optimization.cpp","src/SurrogateModels/kriging_training.cpp"],
  [("omp parallel for / critical in Optimizer::findTheMostPromisingDesign* and KrigingModel::train","src/Optimizers/optimization.cpp, src/SurrogateModels/kriging_training.cpp")],
  ["the returned design","hyperparameters of the trained model"])
p("C32","The optimizer converges to the global optimum within its budget",
  "Given enough evaluations on a problem with a continuous objective, the reported optimum approaches the global minimum of the feasible set.",
  ["inputs","histories"],"all continuous objective functions",
  E2E+"a handful of test functions on one random path each says nothing about all functions.",
  ["src/Optimizers"],[("Optimizer::performEfficientGlobalOptimization","src/Optimizers/efficient_global_optimization.cpp")],
  ["final report"])
p("C33","Sample rows of a design hold the data of the function they are built for",
  "The sample row built from an evaluated design for the objective function or for constraint k holds the design parameters in order, then that function's own value and, for samples with derivatives, that function's own directional derivative with its direction or its own gradient, for high and low fidelity data alike; a constraint number out of range or data of the wrong size are rejected. Undefined values in a design are found wherever they are, and saved design vectors list the parameters in order.",
  ["inputs"],"all designs with up to a stated number of parameters and constraints",E2E+"they never use derivative data.",
  ["src/Design/design.cpp"],[("Design::constructSample*, setNumberOfConstraints, checkIfHasNan, saveDesignVector*","src/Design/design.cpp")],
  ["the constructed rows","saved files","exceptions"])
p("C34","A restarted Kriging model uses the hyperparameters that were saved",
  "A Kriging model saves its hyperparameters (theta, then gamma, one per line), and a model restarted from that file has these hyperparameters to the written precision, is not trained again and predicts what the saved model predicts; a file that cannot be read raises an exception and one of the wrong length changes nothing. Hyperparameters found by training lie in their admissible range.",
  ["inputs","configurations"],"all hyperparameters in their range, all training outputs in a stated range",E2E+"none of them restarts a model.",
  ["src/SurrogateModels/kriging_training.cpp","src/SurrogateModels/surrogate_model.cpp","src/LinearAlgebra/vector.cpp"],[("KrigingModel::saveHyperParameters, loadHyperParameters, train","src/SurrogateModels/kriging_training.cpp")],
  ["hyperparameter file","getHyperParameters","predictions"])
p("C35","A surrogate model test reports the predictions of the model it names",
  "A surrogate model test trains the chosen model with the training file and writes one line per test sample, in test order, with its inputs, the estimate of that model and, where available, the true value, the squared error and the variance, under matching titles; repeating the test replaces the results.",
  ["inputs","configurations"],"all training and test outputs in a stated range, every model type and combination of options",E2E+"none of them runs a model test.",
  ["src/SurrogateModels/surrogate_model_tester.cpp","src/SurrogateModels/surrogate_model.cpp"],[("SurrogateModelTester::performSurrogateModelTest, bindSurrogateModels","src/SurrogateModels/surrogate_model_tester.cpp"),("SurrogateModel::tryOnTestData, saveTestResults*","src/SurrogateModels/surrogate_model.cpp")],
  ["surrogateTestResults.csv"])
p("C36","Surrogate models are trained on schedule with all samples known",
  "During an optimization the surrogate models of the objective and of every constraint are each trained in the first iteration and again after every further number of iterations the user asked for (every iteration for one), with all samples evaluated up to then; between trainings they take up every new sample, and training changes neither the data nor the history.",
  ["histories","configurations"],"all evaluation values, training periods and budgets up to a stated size",E2E+"they never set the period and do not see whether a model has been trained.",
  ["src/Optimizers/efficient_global_optimization.cpp","src/Optimizers/optimization.cpp","src/ObjectiveFunctions/objective_function.cpp"],[("Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues, trainSurrogates, initializeSurrogates","src/Optimizers/efficient_global_optimization.cpp, optimization.cpp"),("ObjectiveFunction::trainSurrogate","src/ObjectiveFunctions/objective_function.cpp")],
  ["trained models","training data"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
