"""Regenerates properties.jsonl and MANIFEST.json (run by hand)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/opinf/"
TECH = ("explicit-state exploration of the real code: exhaustive enumeration "
        "of bounded {}, each step compared with a reference model")
NOTE = ("Every history/configuration inside the bounds listed in the "
        "evidence is executed on the code imported from /repo/src; none is "
        "sampled. {} Trusts NumPy/SciPy/h5py and the reference model in mc/.")

P = []


def prop(id, title, statement, over, text, why, files, mech, tech, note,
         ready=True, reason="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=[S + f for f in files],
                  mech=mech, tech=tech, note=note, ready=ready,
                  reason=reason, observe=observe))


prop("C01", "Inverse transforms undo fitted transforms",
     "For every state transformer (shift/scale with any options, multi-variable, pipelines, null), once trained, applying the transformation and then its inverse returns the original data, and vice versa, to floating-point accuracy, for batches, single snapshots and one-dimensional arrays. Passing a list of state locations inverts exactly the selected rows. The in-place variants give the same values as the copying variants.",
     ["configurations", "inputs", "histories"],
     "all transformer configurations (centering x scaling x by-row x nesting) x data shapes and layouts x location sets x short histories of fit/transform/inverse calls",
     "The tests sample a few configurations with random data; the guarantee is over every option combination, location subset and call order.",
     ["pre/_base.py", "pre/_shiftscale.py", "pre/_multi.py"],
     [("transform / inverse_transform pair", S + "pre/_shiftscale.py"), ("per-variable splitting", S + "pre/_multi.py")],
     "configurations x location sets x call orders",
     "The oracle is the affine map computed independently from the training data.")
prop("C03", "Trained transformations have the documented statistics",
     "After training, the transformed training data has exactly the statistics the chosen option promises (zero mean, unit variance, range in [0,1] or [-1,1], unit maximum, per row or globally), and user-provided shift and scale data are applied as documented. Training depends only on the data of the last training call: nothing of a previous training, previous data shape or previous use remains. Functional forms of shifting and scaling agree with each other and with their inverses.",
     ["configurations", "inputs", "histories"],
     "every scaling/centering option x data with zero, constant, negative and large rows x histories of repeated training on different data",
     "Tests train once on one random dataset; leftovers of earlier training and option interactions need histories.",
     ["pre/_shiftscale.py", "pre/_multi.py"],
     [("fit_transform", S + "pre/_shiftscale.py")],
     "configurations x training histories", "")
prop("C04", "Time derivatives are transformed by the linear part only",
     "Transforming time derivatives applies exactly the linear part of the trained state transformation: for any states, the transformed derivative is the derivative of the transformed states, with no shift added. This holds through multi-variable transformers and pipelines, and for the in-place variant.",
     ["configurations", "inputs", "histories"],
     "every transformer configuration x derivative data x orders of calls",
     "A test of one scaling cannot show linearity for each configuration and nesting.",
     ["pre/_shiftscale.py", "pre/_multi.py"],
     [("transform_ddts", S + "pre/_shiftscale.py")],
     "configurations x basis of derivative data", "Linear in the data, so unit vectors decide it for the enumerated dimensions.")
prop("C05", "Multi-variable objects act blockwise, pipelines compose",
     "A multi-variable transformer or basis acts on each variable exactly as the corresponding single-variable object acts on that variable's block, for any number and sizes of variables, and pipelines equal the composition of their stages (inverted in reverse order). Splitting and joining variables are inverse to each other and selecting a variable returns its block.",
     ["configurations", "inputs", "histories"],
     "all compositions of single-variable objects (unequal block sizes, nested, None entries) x operations",
     "Tests use equal block sizes and two or three fixed configurations.",
     ["pre/_multi.py", "basis/_multi.py"],
     [("split / get_var / check_shape", S + "pre/_multi.py"), ("BasisMulti split", S + "basis/_multi.py")],
     "configurations x operations", "")
prop("C06", "Bases are orthonormal, projections exact, POD optimal",
     "A trained basis has columns that are orthonormal in the declared weighting; compressing after decompressing is the identity, projection is the idempotent orthogonal projector, and compression/decompression are linear with partial-location decompression selecting exactly those rows. A POD basis of size r attains the optimal weighted approximation error of the training data (the residual energy of the truncated singular values), whichever solver or method is used, and the reported singular values and energies match the data.",
     ["configurations", "inputs", "histories"],
     "basis kinds x weights (none, vector, matrix) x solvers x data ranks/shapes x all reduced dimensions x locations",
     "Optimality and the weighted identities have to hold for every data matrix, dimension and solver; tests check norms for a handful of random ones.",
     ["basis/_base.py", "basis/_linear.py", "basis/_pod.py"],
     [("weighted compress/project", S + "basis/_linear.py"), ("method of snapshots and SVD", S + "basis/_pod.py")],
     "configurations x data family x all dimensions", "")
prop("C07", "POD dimension selection follows the criteria after any history",
     "The reduced dimension of a POD basis is the smallest one that satisfies the requested criterion (count, energy, residual, projection error, singular value threshold), and is capped by the available vectors. After any sequence of training, re-setting the dimension by count or by criterion, limiting the stored vectors, saving and loading, the basis vectors, dimension and singular data agree with a fresh basis of that dimension.",
     ["histories", "configurations", "inputs"],
     "breadth-first exploration of histories of {fit, set dimension by each criterion, assign dimension, save, load} over a family of spectra with ties at the thresholds",
     "Tests set each criterion once; the dimension logic is a state machine whose stale states show only in sequences.",
     ["basis/_pod.py"],
     [("set_dimension and the reduced_state_dimension setter", S + "basis/_pod.py")],
     "breadth-first search over operation histories with a reference state machine", "")
prop("C08", "Saving and loading preserves every object",
     "For every savable object (transformers, bases, operators, models, solvers) in any reachable state, trained or not, saving to a file and loading it back gives an object of the same type and configuration that compares equal (where equality is defined) and acts identically in every operation, now and after further training or changes of its options, and a second save/load changes nothing further. Options, names, dimensions, training data needed later and inner objects all survive (interpolatory models do not store their training data: they require fit() before refit()).",
     ["configurations", "histories"],
     "all savable classes x option combinations x {untrained, trained, retrained, restricted} x continued use after loading",
     "Tests save a few configurations and compare attributes; a lost option shows only when the loaded object is used further.",
     ["utils/_hdf5.py", "pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_multi.py", "basis/_pod.py", "operators/_base.py", "operators/_affine.py", "operators/_interpolate.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py", "lstsq/_base.py", "lstsq/_tikhonov.py"],
     [("save / load of each class", S)],
     "configurations x histories x save/load", "")
prop("C09", "Save files are protected and damaged files are reported",
     "Saving never alters an existing file unless overwriting was requested, in which case the file afterwards holds exactly the new object; file handles are always closed, also after errors at any point of a save or load, and an interrupted save or load does not affect the object or later saves and loads. Loading never changes a file. Loading a file in which any stored item is missing (also after an interrupted save), which is truncated, or which holds an object of another family or operator type, raises an error or warns, or else gives an object in which only what the missing item describes is unset (options take their documented defaults) - never one that silently computes different results.",
     ["fault_sequences", "configurations"],
     "every savable class x state x overwrite flag x kind of existing file; every single deletion of a stored dataset, group or attribute; an I/O error at every single step of a save or load; every class x files of every other class",
     "Tests delete no items; the space of single faults is enumerable and was never enumerated.",
     ["utils/_hdf5.py", "pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_pod.py", "operators/_base.py", "models/mono/_nonparametric.py", "lstsq/_base.py"],
     [("hdf5_savehandle / hdf5_loadhandle", S + "utils/_hdf5.py")],
     "overwrite scenarios, single-item file faults, and I/O errors at every step of save and load", "")
prop("C10", "Copies are equivalent and independent",
     "Copying an operator, model or solver gives an object of the same type that behaves identically in every operation, and from then on the two are independent: training, changing or using either one never changes the other.",
     ["configurations", "histories"],
     "all copyable classes x trained/untrained x operations on either twin",
     "Tests compare a copy once; aliasing appears only when one twin is changed later.",
     ["operators/_base.py", "operators/_affine.py", "operators/_interpolate.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py", "lstsq/_base.py", "lstsq/_tikhonov.py"],
     [("copy", S + "operators/_base.py")],
     "configurations x two-object histories", "")
prop("C11", "Operators evaluate their entries exactly, in every form",
     "Each model operator evaluates to its entries times its documented monomials of state and input: single vectors, batches, scalars, integer and sparse data all agree columnwise, and entries given on the full tensor product act as their compressed form. The data block of an operator times its entries reproduces the evaluation, the Jacobian is the exact state derivative, and the sum of operators evaluates to the sum. After entries are replaced or deleted, nothing of the old entries remains.",
     ["configurations", "inputs", "histories"],
     "operator types x dimensions x unit and generic entries x lattices that determine the polynomials, and histories of changing entries",
     "A polynomial identity is a statement about all entries and states; the tests evaluate random points of random dimensions.",
     ["operators/_nonparametric.py", "operators/_polynomial_operator.py", "operators/_base.py"],
     [("apply / jacobian / datablock", S + "operators/_nonparametric.py"), ("compress_entries / expand_entries", S + "operators/_nonparametric.py")],
     "operator types x unit entries x determining lattices, and breadth-first entry-change histories", "Exact for the enumerated dimensions because entries enter linearly and a determining lattice is used.")
prop("C12", "Galerkin projection equals projecting the dynamics",
     "Projecting an operator or model with trial and test bases gives a reduced object whose evaluation equals the projection of the full evaluation at the decompressed state, for orthonormal and non-orthonormal bases and with or without a separate test basis. Projection of a model projects every operator, composes (projecting twice equals projecting with the product basis), keeps the types, and leaves the original unchanged.",
     ["configurations", "inputs"],
     "operator types (nonparametric, affine, interpolated) x basis pairs x dimensions x determining states",
     "Tests use orthonormal random bases, where the correction for non-orthonormal pairs is invisible.",
     ["operators/_base.py", "operators/_nonparametric.py", "operators/_affine.py", "operators/_interpolate.py", "models/mono/_base.py"],
     [("_galerkin", S + "operators/_base.py")],
     "configurations x determining lattices", "")
prop("C13", "Parametric operators: affine sums and interpolation are exact",
     "An affine parametric operator evaluates at any parameter to the sum of its coefficient functions times its matrices, and its data blocks reproduce that evaluation over training parameters. An interpolated operator reproduces its training entries at every training parameter value, in any order of the training parameters, and keeps doing so after copying, saving and loading, changing the interpolator, or refitting.",
     ["configurations", "inputs", "histories"],
     "operator types x coefficient forms x all orders of training parameters x 1-D and 2-D parameters x interpolators x histories",
     "Tests use sorted parameters and one interpolator; permutations and histories are not covered.",
     ["operators/_affine.py", "operators/_interpolate.py"],
     [("evaluate / datablock", S + "operators/_affine.py"), ("set_interpolator / set_training_parameters", S + "operators/_interpolate.py")],
     "configurations x permutations x histories", "")
prop("C14", "Model training solves exactly the stated least-squares problem",
     "Training a model on states, derivatives and inputs finds operator entries that minimize the stated residual, with the contribution of operators whose entries are already known moved to the data exactly once; for noise-free data from a model of the same structure it recovers the operators exactly. The result does not depend on the order in which operators are listed, on any earlier training, nor on how data are split over parameter values (for affine operators); training again with the same data gives the same model, and refitting after changing the solver equals a fresh training with that solver.",
     ["configurations", "inputs", "histories"],
     "all operator subsets and orders x known/unknown patterns x continuous/discrete x parametric kinds x histories of fits",
     "Tests check shapes and mocks; recovering each operator from data in every order and history is not tested.",
     ["models/mono/_base.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py"],
     [("fit / refit / _extract_operators", S + "models/mono/_nonparametric.py"), ("parametric fit", S + "models/mono/_parametric.py")],
     "configurations x training histories", "")
prop("C15", "Model evaluation, derivative and prediction agree",
     "A model's right-hand side is the sum of its operators' evaluations, its Jacobian is the derivative of the right-hand side, for parametric models both equal those of the evaluated nonparametric model. Discrete prediction iterates the right-hand side exactly from the initial state with the matching inputs; steady-state evaluation is independent of time, and time-continuous prediction returns the solution of the differential equation at the requested times, for inputs given as arrays or as functions.",
     ["configurations", "inputs"],
     "all operator subsets x dimensions x input forms x prediction lengths x integrators",
     "Tests compare a few right-hand sides; prediction is checked mostly for shape.",
     ["models/mono/_nonparametric.py", "models/mono/_parametric.py", "models/mono/_base.py"],
     [("rhs / jacobian / predict", S + "models/mono/_nonparametric.py")],
     "configurations x determining lattices x prediction lengths", "")
prop("C16", "Least-squares solvers return the minimizer they promise",
     "Each solver's result minimizes the objective it documents (plain, scalar- or matrix-regularized, per-row regularized, truncated, total least squares) for full-rank, rank-deficient and underdetermined data, whichever method is chosen. After any sequence of training and re-setting the regularization or truncation, the result equals that of a fresh solver with the final settings and data, and every row of the solution depends only on its own data.",
     ["configurations", "inputs", "histories"],
     "solvers x options x data shapes/ranks x histories of {fit, set regularizer, solve, copy, save/load, reset}",
     "Tests check one fit and one solve; solvers cache factorizations whose staleness shows only in sequences.",
     ["lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py", "lstsq/_total.py"],
     [("fit / solve and cached factors", S + "lstsq/_tikhonov.py"), ("num_svdmodes", S + "lstsq/_tsvd.py")],
     "breadth-first histories compared with fresh solvers and normal equations", "")
prop("C17", "Solver diagnostics agree with the data",
     "The reported residual, regularized residual, misfit, condition numbers and dimensions of a trained solver equal those computed directly from the training data and the current regularization, row by row, for any candidate solution. The posterior mean equals the solution, and the posterior covariances equal the documented formula.",
     ["configurations", "inputs", "histories"],
     "solvers x data x candidate solutions x histories",
     "Tests check shapes and one value.",
     ["lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py"],
     [("residual / regresidual / posterior", S + "lstsq/_tikhonov.py")],
     "histories x candidate solutions", "")
prop("C18", "Time-derivative estimates are exact to their order and aligned",
     "Each finite-difference scheme differentiates every polynomial up to its order of accuracy exactly at every returned point, on uniform or non-uniform grids as documented, and returns states, derivatives and inputs that are restricted to the same time instants. Interpolation-based estimates reproduce derivatives of polynomials within the interpolant's degree at the requested times. The result is linear in the states, row by row.",
     ["configurations", "inputs"],
     "every scheme and order x all monomials up to the order x all valid grid lengths x inputs (none, 1-D, 2-D)",
     "Tests use smooth functions with loose tolerances and mocked shapes; the wrong stencil weight at one boundary point is below the tolerance.",
     ["ddt/_base.py", "ddt/_finite_difference.py", "ddt/_interpolation.py"],
     [("fwd/bwd/ctr schemes and estimators", S + "ddt/_finite_difference.py"), ("estimate", S + "ddt/_interpolation.py")],
     "schemes x monomial basis x grid lengths", "Exact because the schemes are linear and the monomials span the polynomials.")
prop("C19", "Lifting maps are inverted and differentiated consistently",
     "Lifting states and unlifting them returns the original states, and the lifted time derivatives are the derivatives of the lifted states by the chain rule, for every choice of polynomial orders, including negative and fractional orders, on their domain.",
     ["configurations", "inputs"],
     "all order sequences up to a length from an alphabet of orders x number of variables x states",
     "Tests check two or three order choices.",
     ["lift/_base.py", "lift/_polynomial.py"],
     [("lift / unlift / lift_ddts", S + "lift/_polynomial.py")],
     "order sequences x states", "")
prop("C20", "Reduced-order models compose their stages consistently",
     "Encoding applies lifting, transformation and compression in that order and decoding inverts them in reverse; training a reduced-order model equals manually applying the stages, estimating derivatives, and training the model on the results, for every combination of present and absent stages, and prediction equals encoding the initial condition, predicting, and decoding. Optional outputs (derivatives, locations, returned data) agree with the direct computation and do not disturb the trained stages.",
     ["configurations", "inputs", "histories"],
     "all subsets of {lifter, transformer, basis, derivative estimator} x model kinds x data forms x flags",
     "Tests use mocks for stages; the composition over all subsets is not executed.",
     ["roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py"],
     [("encode / decode / fit / predict", S + "roms/_base.py")],
     "stage subsets x data forms x flags", "")
prop("C21", "Regularization selection picks the best candidate and keeps it",
     "Regularization selection evaluates every candidate, ignores candidates whose models are unstable or fail, and returns the candidate of smallest training error among the rest; afterwards the reduced-order model is exactly the one trained with the selected regularization. The grid search returns a value at least as good as every grid point, and an error is raised when every candidate fails.",
     ["configurations", "inputs", "histories"],
     "all orderings of error outcomes (finite, infinite, ties, exceptions) over small grids; ROM kinds x candidate sets",
     "Tests run one search; the outcome patterns over the grid are not enumerated.",
     ["utils/_gridsearch.py", "roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py"],
     [("gridsearch", S + "utils/_gridsearch.py"), ("fit_regselect", S + "roms/_base.py")],
     "enumeration of all error landscapes on small grids and ROM configurations", "")
prop("C22", "Timed blocks report time, restore handlers and limit runs",
     "A timed block reports the actual elapsed time for every exit path, raises the timeout error exactly when its limit passes before its body ends, also when blocks are nested or used again, lets other exceptions of the body through unchanged, and always cancels its alarm and restores the previous signal handler, a previously pending alarm, and the standard output, so that later code is never interrupted.",
     ["schedules", "fault_sequences", "configurations"],
     "all interleavings of {enter, alarm, exception, exit} under a controlled signal and clock stand-in, with nesting and reuse",
     "Tests run one timeout and one success in real time; interleavings are not controllable.",
     ["utils/_timer.py"],
     [("TimedBlock __enter__/__exit__/handler", S + "utils/_timer.py")],
     "exhaustive event interleavings under a controlled clock and alarm", "")
prop("C23", "Error measures equal their definitions",
     "Each reported absolute and relative error equals its mathematical definition (Frobenius, 2-norm over space, space-time norm with the given times, max norm, projection error), is zero exactly for equal data, scales correctly with the data, and handles one-dimensional data consistently with two-dimensional data.",
     ["configurations", "inputs"],
     "error functions x shapes x norms x unit perturbations",
     "Tests use mocks and single random arrays.",
     ["post/_errors.py"],
     [("error functions", S + "post/_errors.py")],
     "error functions x unit perturbations", "")
prop("C24", "Out-of-order use and misaligned data are rejected",
     "Using any trainable object before training (or after its training was invalidated) raises an error, and passing data whose shapes do not align with each other or with the trained dimensions raises a ValueError: no such misuse returns numbers. After a rejected call the object behaves exactly as before, or, if a training was rejected, keeps raising until it is trained properly; it never mixes old and new training.",
     ["histories", "inputs", "configurations"],
     "all classes x all public operations x untrained/trained states x each single-argument misalignment",
     "Tests check selected messages; the full product of operation, state and misalignment is not covered.",
     ["pre/_base.py", "pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_pod.py", "basis/_multi.py", "lstsq/_base.py", "lstsq/_tikhonov.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py", "operators/_base.py", "roms/_base.py", "utils/_requires.py"],
     [("requires decorator", S + "utils/_requires.py"), ("shape checks", S)],
     "product of operation, object state and single misalignment", "")
prop("C25", "Bayesian posteriors and sampled models are consistent",
     "The operator posterior has the declared means and covariances; each sampled operator matrix is assembled row by row in the right order, and drawing operators or a model sample gives the operators or model with exactly those entries while leaving the posterior and the mean model unchanged. Bayesian training equals deterministic training at the mean. Regularization selection of a Bayesian model rejects a candidate if any of its draws is unstable, and keeps the posterior of the winner.",
     ["configurations", "inputs", "histories"],
     "posterior shapes x stand-in random draws (unit vectors) x ROM kinds x histories",
     "Tests check shapes of random draws.",
     ["roms/_bayes.py", "lstsq/_tikhonov.py"],
     [("OperatorPosterior", S + "roms/_bayes.py"), ("draw_operators / draw_model", S + "roms/_bayes.py")],
     "controlled random draws x configurations", "")
prop("C02", "No operation changes the caller's data",
     "No public operation changes the arrays passed to it, except those explicitly requested to work in place, whatever the memory layout of the arrays and also when they are read-only. Operations that are not trainings or random draws give identical results when called twice, and using a trained object (transforming, compressing, solving, evaluating, predicting, saving, printing) does not change it. Results of transformations, compressions, evaluations and solves are new arrays: changing them changes neither the object nor the caller's data.",
     ["configurations", "histories", "inputs"],
     "every public operation of every class x option combinations; arrays are compared bitwise before and after",
     "Tests never compare inputs before and after.",
     ["pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_pod.py", "operators/_nonparametric.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py", "lstsq/_base.py", "lstsq/_tikhonov.py", "ddt/_finite_difference.py", "roms/_base.py", "lift/_polynomial.py", "post/_errors.py"],
     [("copy on entry", S)],
     "every public operation x configuration, bitwise before/after comparison", "")
prop("C26", "Equality agrees with behaviour",
     "Wherever equality is defined (shift-scale and multi-variable transformers, bases, operators, interpolated operators, models, operator posteriors), comparing any two objects, also of different or unrelated types and in any state, returns a boolean without raising, is reflexive and symmetric, and != is its negation. Objects with the same configuration, training and entries are equal; equal objects have the same type and give the same results in every operation, so objects that differ in their training data, weights, entries, polynomial order or training parameters are not equal. Comparing changes nothing.",
     ["configurations", "histories"],
     "all pairs of reachable states of all classes with equality",
     "Tests compare a handful of pairs that differ in the obvious attribute.",
     ["pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py", "basis/_multi.py", "operators/_base.py", "operators/_interpolate.py", "operators/_polynomial_operator.py", "models/mono/_base.py", "roms/_bayes.py"],
     [("__eq__", S)],
     "all pairs of reachable states of real objects, compared in both orders with the observations", "")

prop("C27", "verify() accepts consistent objects and reports inconsistent ones",
     "verify() of trained transformers, bases, operators (also parametric), least-squares solvers, derivative estimators and lifting maps returns for every consistent object of the library, whatever random data it draws, and raises a VerificationError for an object whose method (transform, inverse_transform, transform_ddts, compress, decompress, project, apply, jacobian, galerkin, copy, load, datablock, operator_dimension, evaluate, solve, estimate, lift, unlift, lift_ddts) returns a wrong shape, type, value, copy or location; the errors it reports for derivative estimators are the errors against the exact derivatives. Accepted or not, and also if a method raises, verify() leaves the object, the caller's arrays and the files of the working directory as they were.",
     ["configurations", "fault points", "histories"],
     "all trained states of all classes with verify(), all single-method deviations of the table, and exceptions at each method call",
     "Tests call verify() on a few good objects; they do not inject faults at each call or enumerate deviations.",
     ["pre/_base.py", "pre/_multi.py", "basis/_base.py", "basis/_multi.py", "operators/_base.py", "lstsq/_base.py", "ddt/_base.py", "ddt/_interpolation.py", "lift/_base.py"],
     [("verify", S)],
     "all states of real objects with all single-method deviations and an exception injected at each method call", "")

prop("C28", "Results do not depend on how equal data are stored",
     "Every public operation (transformers, bases, operators, least-squares solvers, models, derivative estimators, lifting maps, error measures, reduced-order models) gives the same results for the same values, whether the arrays are C- or Fortran-ordered, strided or reversed views, read-only, owned by another buffer, an array subclass, or single precision (to single precision). Integer data, and arrays that cannot be changed in place, give the same results or are refused with a TypeError or ValueError; they are never silently truncated. The same holds for the data that objects keep (operator entries, weights, regularizers, shifts, scales, time domains, parameter values).",
     ["inputs", "configurations"],
     "all operations of the call table x all storages of each argument and of all arguments together (thorough: all pairs)",
     "Tests use freshly made double-precision C-ordered arrays.",
     ["pre/_shiftscale.py", "operators/_base.py", "operators/_nonparametric.py", "lstsq/_tikhonov.py", "models/mono/_nonparametric.py", "ddt/_finite_difference.py", "basis/_linear.py"],
     [("array handling", S)],
     "operations x storages of the arguments", "")

prop("C29", "Separate objects are independent; the process is left as it was",
     "What happens to one object (construction, training, changing, use, saving) has no effect on another object that was made separately, of the same or of another class and size, whatever the order of the operations; repeating a history gives the same results. No operation changes the state of the process: NumPy's random state (except where random draws are documented), error handling and print options, warning filters, standard streams, working directory and its files, environment, signal handlers and timers, figures, loggers, threads, Matplotlib settings, and the attributes of the library's modules and classes.",
     ["histories", "configurations", "schedules"],
     "all interleavings of all pairs of bounded histories of two objects, with the state of the process compared before and after every operation",
     "Tests make one object after another and look only at the one under test.",
     ["pre/_base.py", "basis/_base.py", "operators/_base.py", "lstsq/_base.py", "models/mono/_base.py", "roms/_base.py", "utils/_timer.py"],
     [("state of objects", S)],
     "interleaved histories of two objects", "")

prop("C30", "Trained objects can be used, and separate objects trained, concurrently",
     "When two threads use one trained object (operators, models, transformers, bases, solvers, lifters, reduced-order models) at the same time with different data, each gets what it would get on its own, wherever one thread interrupts the other, and the object is as before. When two threads train, use or save separate objects at the same time, each object ends up as if the other had not existed.",
     ["schedules", "inputs", "configurations"],
     "all schedules of two threads with one preemption (thorough: two) at every line of the library that is executed, for pairs of operations on all configurations",
     "Tests run in one thread; a race shows up only in the one schedule in which a scratch variable is overwritten.",
     ["models/mono/_nonparametric.py", "models/mono/_parametric.py", "operators/_nonparametric.py", "operators/_base.py", "pre/_shiftscale.py", "basis/_linear.py", "roms/_base.py"],
     [("uses of trained objects", S)],
     "two threads under a controlled scheduler", "")

prop("C31", "Results follow the units of the data",
     "Every result is measured in units that follow from those of the data: when states, time, inputs, parameters, weights or either side of a regression are given in other units (with references, regularizers and tolerances converted), transformations, bases, reduced dimensions, time derivatives, regressions, posteriors, operators, predictions, selected regularizations, lifted variables and errors are the original ones converted, and what was accepted or refused stays so. No absolute size of the numbers is built in.",
     ["configurations", "inputs"],
     "all operations and their options x units of each quantity and of all pairs of quantities, from 2^-60 to 2^60",
     "Tests use data of order one, for which absolute tolerances and misplaced factors cannot be seen.",
     ["pre/_shiftscale.py", "basis/_pod.py", "basis/_linear.py", "ddt/_finite_difference.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py", "operators/_interpolate.py", "models/mono/_nonparametric.py", "roms/_base.py", "roms/_bayes.py", "post/_errors.py"],
     [("all numerical results", S)],
     "configurations x units", "The units are powers of two, so that every result has to scale exactly.")

prop("C32", "Results do not depend on the order of the data",
     "Reordering the state entries, snapshots, trajectories or training parameters, inputs, variables, operators of a model, terms of an affine expansion, regularization candidates or basis vectors reorders the results in the same way and changes nothing else: transformations, bases and singular values, regressions, posteriors, learned operators, predictions, selected regularizations, lifted variables and errors. Reflecting reduced coordinates reflects the model, and reversing time changes the sign of estimated derivatives.",
     ["configurations", "inputs"],
     "all operations and their options x all permutations of up to four (thorough five) items of each kind and pairs of them, all signed permutations of reduced coordinates",
     "Tests give data in one order; a result that depends on the first row, last trajectory or sortedness needs the other orders.",
     ["pre/_shiftscale.py", "pre/_multi.py", "basis/_pod.py", "basis/_multi.py", "ddt/_finite_difference.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py", "lstsq/_total.py", "operators/_nonparametric.py", "operators/_affine.py", "operators/_interpolate.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py", "roms/_base.py", "post/_errors.py"],
     [("all numerical results", S)],
     "configurations x permutations", "")

prop("C33", "Equivalent specifications give the same result",
     "Whatever can be specified in several ways gives the same result in each of them: entries as matrices, tensors, sparse or flattened arrays; operators as letters, objects or known parts of the data; regularization as a number, vector, matrix, list or sparse matrix, given before or after fitting; dimensions by number or by any equivalent energy criterion; data as one array, lists, tuples or stacks, 1-D where allowed; transformations and bases alone, composed or split into variables; time derivatives by function, class or scheme; inputs as functions or sampled; parameters as numbers, lists or arrays; defaults left out or written; deprecated names; fitting once, again or in steps; copies.",
     ["configurations", "inputs"],
     "all operations x all combinations (pairs where more than 96; thorough 3000) of the spellings of each of their options",
     "Tests use one or two spellings of each option, and never together; a spelling that is silently read differently is not noticed.",
     ["operators/_nonparametric.py", "operators/_affine.py", "operators/_interpolate.py", "lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py", "pre/_shiftscale.py", "pre/_multi.py", "basis/_pod.py", "basis/_linear.py", "basis/_multi.py", "ddt/_finite_difference.py", "ddt/_interpolation.py", "lift/_polynomial.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py", "roms/_base.py", "roms/_bayes.py", "post/_errors.py"],
     [("all operations", S)],
     "configurations x spellings", "")

prop("C34", "Results do not depend on the size of the problem",
     "Problems of any size are treated alike: when a problem is repeated or embedded in a larger one (more state entries, snapshots, variables, stages, basis vectors, time steps, reduced states, inputs, operators, affine terms, training parameters, trajectories, regression unknowns or right-hand sides, regularization candidates, test cases, lifted variables), the result is the repeated or embedded result of the small problem, also after saving, loading and copying. No limit, threshold or order of parts depends on their number.",
     ["configurations", "inputs"],
     "all operations x every size from 1 to a bound between 8 and 60 (thorough three times that) and single sizes up to 20000",
     "Tests use few, small sizes; an off-by-one in a block, a name that sorts as text, or a branch for large data needs other ones.",
     ["pre/_shiftscale.py", "pre/_multi.py", "basis/_pod.py", "basis/_multi.py", "ddt/_finite_difference.py", "ddt/_interpolation.py", "operators/_nonparametric.py", "operators/_affine.py", "operators/_interpolate.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py", "lstsq/_total.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py", "roms/_base.py", "roms/_bayes.py", "lift/_polynomial.py", "post/_errors.py"],
     [("all operations", S)],
     "configurations x sizes", "")

P.sort(key=lambda p: p["id"])
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "hook_needed": None,
            }}) + "\n")

man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [], "not_applicable": [],
    "notes": "All checks execute the package imported from /repo/src; see "
             "DESIGN.md.",
}
for p in P:
    if len(p["title"]) > 80:
        raise SystemExit(f"title too long {p['id']}")
    have = os.path.isfile(os.path.join(HERE, "checks",
                                       p["id"].lower() + ".py"))
    if have:
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": f"./check {p['id']} --tier quick",
            "thorough_cmd": f"./check {p['id']} --tier thorough",
            "technique": "explicit-state model checking of the "
                         "implementation: " + p["tech"],
            "level": "model_checking",
            "level_note": NOTE.format(p["note"]),
        })
    else:
        man["not_applicable"].append({
            "property": p["id"],
            "reason": p["reason"] or "check not built yet",
        })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(man["checks"]), "checks;", len(man["not_applicable"]), "not")
