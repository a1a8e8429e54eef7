HIST = "histories"
CONF = "configurations"
INP = "inputs"
EXH = "stateless exhaustive exploration of the real code, "


def fill(prop, SIM):
    prop("S01", "Simulation answers do not depend on what was asked before",
         "Predicted data, sensitivity products, the sensitivity matrix and the weighted diagonal of its normal matrix that a simulation returns for a model are those a newly built identical simulation would return, whatever evaluations, for whatever models, weights or supplied fields, were made on the object before. This holds for models that differ only slightly, for a model array the caller overwrote in place between calls, and after a call that failed.",
         [HIST, CONF], "All sequences of public evaluations (predict, fields, Jvec, Jtvec, getJ, getJtJdiag, model assignment, failing call) over a finite model set, for every physics and formulation: DC/IP/SIP/SP 1D-3D, FDEM/TDEM E,B,H,J, natural source 1D-3D, layered EM, VRM, gravity, magnetics, tomography, linear.",
         "Unit tests evaluate one or two calls on a fresh object; staleness of cached factorisations, mass matrices, stored sensitivities and diagonals only appears for particular orders of calls at particular models.",
         SIM, [("model assignment clears cached quantities", "simpeg/props.py: HasModel.model and each class's list of quantities to delete"),
               ("stored sensitivities / factorisations", "_Jmatrix, Ainv, mass-matrix caches in every simulation class")],
         EXH + "fresh-object differential oracle", "All operation pairs (quick) / triples (thorough) on live objects of every core configuration agree with a fresh object to 1e-9; assumes deterministic solvers.",
         ["simulation.dpred/fields/Jvec/Jtvec/getJ/getJtJdiag"])
    prop("S02", "Jvec is the derivative of the predicted data",
         "For every simulation, source, receiver, data component, invertible property and storage option, the product of the sensitivities with a model perturbation equals the directional derivative of the predicted data at that model, also when previously computed fields are supplied.",
         [CONF, INP], "Every combination of formulation x source type x receiver field x orientation x component x invertible physical property x waveform / time stepping / engine / storage option of the configuration lists, at generic models and directions.",
         "Derivative tests in the suite cover a fixed handful of source/receiver pairs (time-domain and most frequency-domain inversion tests are not even part of the routinely run set); a dropped term shows only for specific combinations.",
         SIM, [("field, receiver and source derivatives", "fields.py / receivers.py / sources.py / simulation.py getADeriv, getRHSDeriv"),
               ("chain rule through maps", "simpeg/props.py, simpeg/base/pde_simulation.py")],
         EXH + "enumerated configurations vs finite differences of dpred", "Every listed configuration satisfies the derivative relation to 1e-5; tiny meshes.",
         ["simulation.Jvec, simulation.dpred"])
    prop("S03", "Jtvec, getJ and getJtJdiag agree with Jvec",
         "The adjoint sensitivity product is the exact transpose of the forward one, the explicit sensitivity matrix (where offered) has the forward products as its columns, and the (weighted) diagonal of its normal matrix (where offered) equals the column sums of squares of the weighted matrix. This holds for every source, receiver, component, property, storage and engine option, with or without supplied fields.",
         [CONF, INP], "The same configuration lists as for the derivative property, all rows and columns of the tiny sensitivity matrices, several data weightings.",
         "Adjoint tests use one random vector on few configurations, and hardly any test reads getJ or getJtJdiag for several receivers, components or weights.",
         SIM, [("adjoint branches", "receivers.evalDeriv(adjoint=True), fields._*Deriv, simulation.Jtvec/getJ/getJtJdiag")],
         EXH + "dense Jacobian assembled by Jvec as oracle", "Every listed configuration agrees to 1e-8; tiny meshes.",
         ["simulation.Jtvec, getJ, getJtJdiag"])
    MAPS = ["simpeg/maps/", "simpeg/utils/mat_utils.py"]
    prop("M01", "Composition and sums of maps compute function composition and sum",
         "A product of maps evaluates to the composition of its factors and its derivative to the chain-rule product of the factors' derivatives, a sum of maps to the sum, in any association order and nesting, with matrix or vector derivative results, without modifying the vectors passed in; incompatible factors are refused.",
         [INP, CONF], "All expression trees up to the bound over an alphabet of linear, nonlinear, projecting, injecting and composite maps.",
         "The suite composes a handful of maps; sign, order and shape mistakes appear for particular nestings and argument kinds.",
         MAPS, [("ComboMap / SumMap", "simpeg/maps/_base.py: ComboMap._transform/deriv, SumMap, IdentityMap.__mul__/__add__")],
         EXH + "reference composition in numpy", "All chains <=3 (quick) / <=4 (thorough) and sums <=3 over 15 maps, agreement 1e-10.",
         ["map * m, map.deriv(m), map.deriv(m, v)"])
    prop("M02", "Map derivatives are the derivatives of the map, values follow their definition",
         "For every map class and option the derivative (as matrix and applied to a vector) equals the derivative of the map's own values at any model, values match their documented definition, offered inverses invert, and the answers follow later changes of the map's attributes and in-place changes of the model array.",
         [INP, CONF, HIST], "Every concrete map class x constructor options x models x (re)assignment of attributes on tiny meshes.",
         "Map tests use one random model per class; options, dimensions and reassigned attributes are hardly exercised.",
         MAPS, [("map classes", "simpeg/maps/_property_maps.py, _parametric.py, _injection.py, _mesh_maps.py, _surjection.py, _clustering.py")],
         EXH + "finite differences / independent formulas", "Every class and option on the finite list; derivative agreement 1e-6.",
         ["map * m, map.deriv, map.inverse"])
    prop("M03", "Index maps move exactly the right entries",
         "Projections, wires, tiles, active-cell injections, unit surjections and dimension surjections place every parameter exactly where its index says, for every mask, index list, slice, size and mesh shape, boolean or integer; their derivatives are the corresponding 0/1 matrices and their inverses recover the parameters.",
         [INP], "Exhaustive over small index structures.", "A test samples a mask or two; off-by-one, ordering and repeated-index mistakes need particular masks.",
         MAPS, [("Projection, Wires, InjectActiveCells, SurjectUnits, Surject*", "simpeg/maps/_base.py, _injection.py, _surjection.py")],
         EXH + "loop-written reference placement", "All index structures up to 4-5 parameters / 5-8 cells.", ["map * m, map.deriv, map.inverse"])
    prop("M04", "A physical property has exactly one live definition",
         "Whatever sequence of assignments to a physical property, its reciprocal, their mappings and the model is made, the value, reciprocal and derivative a simulation uses are those of the most recent definition; a reciprocal pair always multiplies to one; models of the wrong length are refused and a refused assignment leaves the simulation as it was.",
         [HIST], "All assignment sequences up to the depth bound on real simulation classes.", "Tests check single assignments; conflicts between property, map and reciprocal appear only in sequences.",
         ["simpeg/props.py", "simpeg/base/pde_simulation.py", "simpeg/simulation.py"],
         [("Invertible / Reciprocal / Mapping / HasModel", "simpeg/props.py")], EXH + "reference state machine", "All sequences of length <=3 (quick) / <=4 (thorough).",
         ["sim.sigma, sim.rho, sim.sigmaMap, sim.sigmaDeriv, sim.model"])
    prop("I01", "The data misfit is the weighted norm of the current residual",
         "The L2 data misfit equals the squared norm of weights times (predicted minus observed) for the data, uncertainties, weights and simulation it has now, and its gradient and Gauss-Newton Hessian product are the exact derivatives of that expression, with or without supplied fields, for vector, sparse, dense and non-symmetric weights, whatever was evaluated or reassigned before.",
         [HIST, INP], "All sequences of evaluations and reassignments up to the depth bound.", "Tests evaluate a fresh misfit; stale weights need reassignment between evaluations.",
         ["simpeg/data_misfit.py", "simpeg/data.py", "simpeg/objective_function.py"], [("W cache and residual", "simpeg/data_misfit.py: BaseDataMisfit, L2DataMisfit"), ("uncertainties", "simpeg/data.py: Data.standard_deviation")],
         EXH + "plain numpy reference", "All sequences <=3 (quick) / <=4 (thorough), linear and nonlinear forward models, 1e-10.", ["dmisfit(m), deriv, deriv2, residual"])
    prop("I02", "Objective functions add and scale like numbers",
         "Sums and scalar multiples of objective functions, however nested, have the value, gradient and Hessian (product and matrix) obtained by applying the same arithmetic to their members, members receive their own fields, zero multipliers drop out, combining does not change the operands, and recorded member values belong to the right member.",
         [INP, HIST], "All expression trees up to the bound over a member alphabet, multipliers incl. zero and negative.", "Tests build two or three sums; flattening and zero handling depend on nesting.",
         ["simpeg/objective_function.py"], [("ComboObjectiveFunction", "simpeg/objective_function.py")], EXH + "reference arithmetic", "Two (quick) / three (thorough) binary levels over 5 leaves.",
         ["objfct(m), deriv, deriv2, W"])
    prop("D01", "Every datum belongs to one source and receiver, in a fixed order, with its own uncertainty",
         "For every survey, data are ordered by source then receiver: counts, slices, item access of a Data object, source/receiver/frequency look-ups and electrode tables all refer to the same entries, also after the source or receiver lists are reassigned; foreign sources and receivers are refused. A Data object's uncertainty is the quadrature sum of relative error times the magnitude of the datum and the noise floor last assigned, and a refused assignment changes nothing.",
         [INP, HIST], "All survey shapes up to the bound for every survey class; all sequences of reassignments and Data assignments up to the depth bound.", "Tests use one or two fixed surveys and single assignments.",
         ["simpeg/survey.py", "simpeg/data.py", "simpeg/electromagnetics/*/survey.py", "simpeg/electromagnetics/static/resistivity/survey.py", "simpeg/potential_fields/*/survey.py"],
         [("slices and counts", "simpeg/survey.py: BaseSurvey.get_slice/get_all_slices/vnD"), ("uncertainties", "simpeg/data.py: Data")],
         EXH + "list-written reference", "All shapes <=3 sources x <=2-3 receivers; Data op sequences <=3-4.", ["survey.nD, get_slice, data[src, rx], data.standard_deviation"])
    REG = ["simpeg/regularization/"]
    prop("I03", "Regularizations have their documented value and exact derivatives",
         "Every regularization (least-squares smallness and first/second-order smoothness, sparse, full-gradient, vector amplitude, cross reference, joint total variation, cross gradient, linear correspondence) returns, for any active cells, weights, mapping, reference model, norms, thresholds, radian units and length scales, the documented weighted norm over exactly the active cells and their shared faces; gradients and Hessians are its derivatives (for measures using a Gauss-Newton or approximate Hessian: the documented form), and Hessian products equal the matrix.",
         [CONF, INP], "Every class x active-cell mask x weight combination x mapping x reference/units/norm option on tiny 1D-3D tensor and tree meshes, at generic models.",
         "Tests compare derivatives on a single mask and never the value against an independent formula; masks with isolated cells, radian wrap-around, per-cell norms and weights at faces are not sampled.",
         REG, [("terms", "simpeg/regularization/base.py, sparse.py, vector.py, _gradient.py"), ("operators on active cells", "simpeg/regularization/regularization_mesh.py"), ("coupling", "simpeg/regularization/cross_gradient.py, jtv.py, correspondence.py")],
         EXH + "loop-written reference and finite differences", "All listed masks and options; values 1e-9, derivatives 1e-6.", ["reg(m), deriv, deriv2"])
    prop("I04", "A reconfigured regularization behaves like a newly built one",
         "After any sequence of assignments to a regularization (active cells, reference model, mapping, units, weights set and removed, alphas and length scales, norms, thresholds, gradient type, IRLS updates, orientation of the full-gradient) its value, gradient and Hessian are those of a newly built regularization with the final settings; a refused assignment changes nothing.",
         [HIST], "All assignment sequences up to the depth bound per class, with evaluations interleaved.",
         "Tests assign at construction; stale operators, weights and multipliers depend on the order of assignments and evaluations.",
         REG, [("setters and caches", "simpeg/regularization/base.py: BaseRegularization, WeightedLeastSquares; sparse.py; regularization_mesh.py")],
         EXH + "fresh-object differential oracle", "All sequences <=2 (quick) / <=3 (thorough) of 12-20 operations.", ["attributes and values of regularizations"])
    prop("I05", "Minimizers accept only sufficient decrease, inside the bounds, and report what they accepted",
         "Whatever values, gradients and Hessians the objective returns, every minimizer (steepest descent, BFGS, Gauss-Newton, inexact Gauss-Newton, projected gradient, projected Gauss-Newton-CG) evaluates only points inside its bounds, accepts a step only if the Armijo (and, if requested, curvature) condition holds, backtracks with the configured factor, respects the maximum step and iteration counts, calls back once per accepted iterate, stops when its criteria or a stop request say so, and returns the last accepted point; directions solve the (free-variable) Newton system to the CG tolerance; a minimizer can be used again. The scalar root finder only accepts non-increasing residuals.",
         [HIST, INP], "All answer sequences of the objective up to the bound; all active-set patterns; a finite set of quadratic programs.",
         "Tests minimise two smooth functions; failed line searches, nan values, stop requests, active sets and reuse are never enumerated.",
         ["simpeg/optimization.py"], [("line search loop", "simpeg/optimization.py: Minimize.minimize, modifySearchDirection"), ("bounds", "ProjectedGradient, ProjectedGNCG"), ("directions", "InexactGaussNewton, BFGS, inexact CG")],
         "stateless model checking of the real minimizers against an adversarial objective, reference line-search loop", "2 iterations x 3 trials (quick), 3-4 iterations (thorough).", ["minimizer.minimize, callbacks, iter, xc"])
    INV = ["simpeg/inversion.py", "simpeg/inverse_problem.py", "simpeg/optimization.py", "simpeg/directives/"]
    prop("I06", "The inversion minimises misfit plus beta times model objective and keeps its books",
         "The inverse problem's objective, gradient and Hessian product are misfit + beta * regularization at the model asked for with the current beta, whatever was evaluated before; during an inversion directives are initialised once, called once per accepted iterate in list order and finished once; at each call the recorded model, misfit, model objective, objective, predicted data and iteration number belong to the accepted iterate; the objective never rises within an iteration; iterates obey the bounds; the reference model defaults to the starting model; the returned model is the last accepted one; observing directives do not alter the result; a second run from the same state repeats the first; for linear problems Gauss-Newton returns the exact minimiser.",
         [HIST, CONF], "All evaluation histories up to the bound; every product of optimizer x misfit combination x regularization x bounds x start x directive list.",
         "Inversion tests assert that the misfit went down; the bookkeeping the directives and users read is never compared with the model it belongs to.",
         INV, [("evalFunction, warm start, startup", "simpeg/inverse_problem.py: BaseInvProblem"), ("run loop", "simpeg/inversion.py: BaseInversion.run"), ("directive calls", "simpeg/directives/_directives.py: DirectiveList")],
         EXH + "dense reference problem", "5 unknowns, <=4 (quick) / <=8 (thorough) iterations, histories of 3/4 evaluations.", ["invProb.evalFunction, phi_d, phi_m, dpred, model, inversion.run"])
    prop("I07", "Directives follow their rules at every iteration",
         "For every sequence of iterates: beta is cooled by its factor exactly at the scheduled iterations; the inversion stops exactly when (all) misfits are below target; IRLS starts when the misfit first reaches its starting target, restores the norms, sets and cools the thresholds, reweights with the current model, adapts beta to the misfit and stops by its criteria; sensitivity weights are the thresholded and normalised root of the current sensitivities and enter once; joint misfit scalings, beta and alpha estimates, preconditioners and spherical angle scales equal their definitions; estimates with a fixed seed are reproducible; invalid directive orders are refused and valid ones accepted.",
         [HIST, CONF], "All sequences of iterates over an alphabet of misfit levels up to the bound for every directive configuration.",
         "Inversion tests follow the single trajectory of one optimizer; cooling rates, late starts, oscillating misfits and stop criteria depend on the sequence of misfits.",
         ["simpeg/directives/"], [("BetaSchedule, TargetMisfit, MultiTargetMisfits, JointScalingSchedule, UpdateSensitivityWeights, UpdatePreconditioner, estimators", "simpeg/directives/_directives.py"), ("UpdateIRLS, SphericalUnitsWeights", "simpeg/directives/_regularization.py")],
         "exhaustive exploration of directive state machines driven through the real inversion loop by a scripted minimizer", "Sequences of 4-5 (quick) / 5-6 (thorough) iterates, 6 cells.", ["invProb.beta, opt.stopNextIteration, regularization weights/norms/thresholds, misfit multipliers"])
    prop("I08", "Saved inversion records match the iterates",
         "The saving directives write exactly one record per accepted iterate, under the chosen directory and name, holding that iterate's number, model, predicted data, beta, misfit, model objective, terms and objective; later iterations never alter earlier records, a run aborted after any iteration leaves the records of all completed iterations readable, nothing is written when disk output is off, and the saved text tables hold the recorded values.",
         [HIST, "crash points"], "All iterate sequences up to the bound x saver x options x abort point.",
         "Tests check that files exist after one fixed run.", ["simpeg/directives/_directives.py"], [("SaveModel/Output/OutputDict directives", "simpeg/directives/_directives.py: SaveEveryIteration and subclasses")],
         EXH + "independent readers after every iteration and abort point", "All sequences <=4 (quick) / <=5 (thorough) iterates over 3 models.", ["files in the output directory, outDict, load_results"])
