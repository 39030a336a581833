#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for titles/statements)."""
import json, os
DDP=["nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp","nmpc_ddp/include/nmpc_ddp/DDPSolver.h","nmpc_ddp/include/nmpc_ddp/DDPProblem.h"]
QP=["nmpc_ddp/include/nmpc_ddp/BoxQP.h"]
FM=["nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp","nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h","nmpc_fmpc/include/nmpc_fmpc/FmpcProblem.h"]
MU=["nmpc_fmpc/include/nmpc_fmpc/MathUtils.h"]
GM=["nmpc_cgmres/include/nmpc_cgmres/Gmres.h"]
CG=["nmpc_cgmres/src/CgmresSolver.cpp","nmpc_cgmres/include/nmpc_cgmres/CgmresSolver.h"]
OD=["nmpc_cgmres/include/nmpc_cgmres/OdeSolver.h"]
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","DDP result is a true rollout with true costs",
 "After every DDP solve, whatever its outcome, the returned state sequence starts exactly at the given current state and each next state is the problem's state equation applied to the returned state and input at that step's time (current time plus step index times the timestep). The returned cost sequence holds the problem's running cost of each step and the terminal cost of the last state, and all sequences have the lengths the horizon prescribes.",
 ["inputs","configurations","histories"],"every problem (linear, non-linear, time-varying, changing input dimension), horizon, initial guess, configuration and sequence of earlier solves",
 "The tests look at the first state and input of a few fixed MPC runs and never re-simulate the returned horizon or its costs.",
 DDP,[("initial rollout and forward pass build states, inputs and costs together; accept copies all three","DDPSolver.hpp solve()/forwardPass()/procOnce()")],
 ["DDPSolver::controlData() after solve()"],[("control_data_","returned trajectory","DDPSolver.h")])
p("C02","DDP never makes the trajectory worse",
 "With a non-negative acceptance threshold, the total cost of the DDP trajectory never increases from one iteration to the next, so the returned trajectory never costs more than the rollout of the initial guess (after the guess is clipped to the input limits when they are enabled), including when the solve fails or stops at the iteration limit. An iteration that changes the trajectory does so with an actual-to-expected improvement ratio above the configured threshold.",
 ["inputs","configurations"],"every problem, including strongly non-linear and non-convex ones, every initial guess and regularization, line-search and limit configuration",
 "The tests only check closed-loop end states of three benign problems where every step is a good step; rejecting a bad step is never exercised.",
 DDP,[("line search on actual cost decrease with regularization increase on failure","DDPSolver.hpp procOnce() steps 3 and 4")],
 ["DDPSolver::traceDataList()","DDPSolver::controlData()"])
p("C03","DDP solves linear-quadratic problems to the optimum",
 "For a convex linear-quadratic problem without input limits (time-varying, with offsets, cross terms and terminal cost, either regularization type), a DDP solve started from any initial guess returns, within 20 iterations, a trajectory whose cost equals the global minimum to solver tolerance, and reports success unless it stopped at the minimum to rounding (where no step can improve the cost any more). For smooth problems with mild non-linearity a reported success means the returned inputs are a stationary point of the total cost to solver tolerance, and re-solving from the returned inputs does not move away from it.",
 ["inputs","configurations"],"every convex linear-quadratic problem and initial guess, both regularization types, with default termination thresholds",
 "The tests never compare with an independent optimum; a wrong gain still passes because the receding-horizon loop hides it.",
 DDP,[("backward Riccati-like pass, feedback gains, regularization schedule, termination tests","DDPSolver.hpp backwardPass()/procOnce()")],
 ["return value of DDPSolver::solve()","controlData()","traceDataList().size()"])
p("C04","DDP honours input limits and finds the constrained optimum",
 "With input constraints enabled, every input in the returned DDP trajectory lies within the limits given for that step's time, for any initial guess and any outcome. For convex linear-quadratic problems with box limits a reported success means that the cost of the returned trajectory equals the constrained minimum to solver tolerance, and from a feasible guess the solve succeeds or ends at the constrained minimum to rounding.",
 ["inputs","configurations"],"every problem, time-varying limits (including one-sided infinite and equal ones), changing input dimension, initial guess inside or outside the limits",
 "The only constrained test checks closed-loop positions, never the limits themselves nor optimality.",
 DDP+QP,[("box QP for the feed-forward term, zero feedback on clamped inputs, clipping of inputs","DDPSolver.hpp backwardPass()/forwardPass()")],
 ["DDPSolver::controlData().u_list"])
p("C05","DDP time grid and input-dimension discipline",
 "During a DDP solve every running-stage problem callback is invoked only at times current time plus i times the timestep for i below the horizon length, with an input whose size is the problem's input dimension at that time, and terminal callbacks only at the end of the horizon. Problems whose input dimension changes along the horizon, including steps without any input, are solved to the same optimum as the equivalent fixed-dimension problem, and choosing fixed or dynamic template dimensions does not change the result.",
 ["inputs","configurations"],"every schedule of input dimensions (including zero, at the first or last step, changing every step), every current time, horizon length and constraint setting",
 "Two tests use one fixed dimension schedule each and only look at closed-loop positions.",
 DDP,[("time computed from the step index, per-step sizing of derivatives and gains, empty-input branch","DDPSolver.hpp solve()/procOnce()/backwardPass()/forwardPass()")],
 ["calls into the user problem","controlData()"])
p("C06","Box QP returns the feasible minimiser",
 "For every positive definite Hessian, gradient, bounds (including infinite, coinciding and partly active ones) and initial guess, the box-constrained QP solver terminates with a non-negative result code and returns a point inside the bounds that satisfies the first-order optimality conditions to solver tolerance and never has a higher objective than the clipped initial guess. The reported free variables and the reported factorization belong together and describe the Hessian block of those variables, and every result code has a description. A Hessian whose free block is not positive definite is reported with a negative code.",
 ["inputs","configurations"],"all dimensions, fixed and dynamic, all conditioning within double precision reach, all bound patterns and starts",
 "Ten hand-picked two-dimensional diagonal problems; no off-diagonal coupling, no changing active set, no warm start.",
 QP,[("projected Newton with Cholesky of the free block and Armijo line search","BoxQP.h solve()")],
 ["BoxQP::solve() return value, retval_, free_idxs_, llt_free_"])
p("C07","FMPC reports success exactly when the KKT conditions hold",
 "The KKT error that the FMPC solver records for an iteration equals the norm of the optimality residual of the iterate at which it was evaluated (initial state, dynamics, inequality plus slack, stationarity in state and input, complementarity, terminal stationarity). The solve returns success exactly when the last recorded error is at or below the configured threshold, and then the returned variables are the iterate at which that error was evaluated; it reports the iteration limit only after exactly that many iterations, and the trace has one entry per iteration numbered from one.",
 ["inputs","configurations"],"every problem, initial variables, current state and time, threshold, iteration limit and option combination",
 "One oscillator run accepts either success or iteration limit and never recomputes the residual.",
 FM,[("residual accumulation, threshold test before the step, status propagation","FmpcSolver.hpp procOnce()/calcKktError()/solve()")],
 ["return value of FmpcSolver::solve(), variable(), traceDataList()"])
p("C08","FMPC keeps slacks and multipliers strictly positive",
 "If the FMPC solver is started with strictly positive slack and inequality multipliers (or is told to initialise them), every slack and inequality multiplier it returns is strictly positive, whatever the status of the solve, and the returned sequences keep the lengths and per-step dimensions of the problem.",
 ["inputs","configurations"],"every problem, including infeasible starts and infeasible constraints, all option combinations, any number of iterations, warm-started sequences",
 "The test run checks the inequality value of the first step only, on one trajectory.",
 FM,[("fraction-to-boundary rule applied separately to slacks and multipliers","FmpcSolver.hpp updateVariables()")],
 ["FmpcSolver::variable() after solve()"])
p("C09","FMPC iterations are damped Newton steps on the KKT system",
 "Each FMPC iteration changes the variables by a primal step length times the primal part and a dual step length times the dual part of the exact solution of the KKT system linearised at the current variables (with Gauss-Newton Hessian) for one common non-negative barrier parameter. Both step lengths lie in (0,1]; the dual one, and without line search the primal one, is at least 99 percent of the largest length up to one that keeps multipliers respectively slacks non-negative. The barrier parameter does not exceed the current average complementarity product (or its small floor) while its adaptation is enabled.",
 ["inputs","configurations"],"every problem with cross terms, state and mixed constraints, terminal cost, indefinite input Hessian, changing dimensions, and every positive starting point",
 "The tests only see closed-loop convergence, which tolerates wrong search directions.",
 FM,[("backward and forward Riccati recursion, elimination of slacks and multipliers","FmpcSolver.hpp backwardPass()/forwardPass()/updateVariables()")],
 ["FmpcSolver::variable() before and after a one-iteration solve"])
p("C10","FMPC converges to the optimum of convex problems",
 "For strictly feasible convex linear-quadratic problems with inequality constraints on state and input the FMPC solver reaches success within 100 iterations (1000 with line search) from any well-scaled interior start, with barrier adaptation enabled and any combination of its other options, and the returned trajectory is then feasible and its cost is the constrained minimum to solver tolerance. Re-solving from the returned variables succeeds at once without changing them.",
 ["inputs","configurations"],"every such problem within the stated scaling, all option combinations",
 "One oscillator problem; no independent optimum.",
 FM,[("primal-dual interior point iteration with barrier update","FmpcSolver.hpp solve()/procOnce()")],
 ["FmpcSolver::solve() status, variable()"])
p("C11","FMPC line search enforces sufficient merit decrease",
 "With line search enabled, each FMPC iteration uses the first step length, among the positivity-limited one and its successive halvings, for which the merit function (objective with log barrier plus scaled L1 constraint violation) decreases by at least the Armijo fraction of its directional derivative, down to a minimum step. The directional derivative of the L1 norm used for this is exact for every function value, Jacobian and direction, including components that are exactly zero.",
 ["inputs","configurations"],"every problem and start including dynamically feasible starts whose residuals are exactly zero, both penalty-scale rules",
 "No test enables line search; the L1 derivative is only tested away from zeros except for one all-zero sample.",
 FM+MU,[("merit function, its directional derivative and backtracking","FmpcSolver.hpp setupMeritFunc()/calcMeritFunc()/updateVariables(), MathUtils.h")],
 ["FmpcSolver::variable() before and after a one-iteration solve","l1NormDirectionalDeriv()"])
p("C12","Non-finite values never turn into success or into the result",
 "If any problem callback returns NaN or infinity at any point of a solve, or the measured state is not finite, or intermediate results overflow, the solver does not report success on account of it: FMPC with NaN checking never reports success unless the KKT residual of the returned variables is truly below the threshold, and DDP returns failure unless the returned trajectory is finite and came from finite gains. The returned FMPC variables (with NaN checking) and DDP trajectory stay finite whenever the starting point (including slacks the solver initialises itself) and the initial rollout were finite.",
 ["fault_sequences","inputs"],"every callback of the problem interface, every call index at which the value becomes non-finite, transient or persistent, every kind of value (NaN, +inf, -inf)",
 "No test injects a non-finite value.",
 FM+DDP,[("NaN checks on coefficients and steps; rejection of non-decreasing cost; finiteness of gains","FmpcSolver.hpp containsNaN(); DDPSolver.hpp procOnce()/backwardPass()")],
 ["status/return value, variable(), controlData()"])
p("C13","GMRES returns the minimal-residual solution",
 "For every non-singular linear operator, right-hand side and initial guess, the GMRES solver performs at most the allowed number of iterations and returns a point of the initial guess plus Krylov space whose residual norm is the minimum over that space to rounding, in each of its triangularization and reorthogonalization modes. Its reported residual history starts at the initial residual, never increases, and its last entry is the true residual norm; it stops early exactly when the residual has reached the requested tolerance relative to the right-hand side, or when residual or Krylov space cannot be improved beyond rounding.",
 ["inputs","configurations"],"all sizes, iteration limits below, at and above the dimension, zero and non-zero initial guesses, zero right-hand side, early breakdown, matrix and function operators",
 "Random square systems with zero initial guess, checked only for full solves (the truncated solve is only required to be below 100).",
 GM,[("Arnoldi process, Givens rotations or QR least squares","Gmres.h solve()")],
 ["solution vector, err_list_, operator calls"])
p("C14","C/GMRES optimality residual is the gradient of the horizon cost",
 "For time-invariant problems with Euler integration, the list of Hamiltonian input derivatives that C/GMRES computes for a time, state and input sequence equals the gradient of the discretised horizon cost with respect to each input divided by the step. The horizon has length T(1-exp(-a t)) for steady length T and growth rate a, and is divided evenly. For every problem, the state equation and the input derivative of division i are evaluated at that division's predicted state, input and start time t + i h, and the terminal cost derivative at the end of the horizon.",
 ["inputs","configurations"],"every problem with smooth dynamics and cost, number of divisions, horizon parameters, time including zero, state and input sequence",
 "The tests only check the norm of the final closed-loop state of two problems.",
 CG,[("forward state sweep, backward costate sweep, Hamiltonian derivative","CgmresSolver.cpp calcDhDuList()")],
 ["CgmresSolver::calcDhDuList()","calls into the problem"])
p("C15","C/GMRES update drives the residual along the prescribed decay",
 "After setup the inputs of the whole horizon equal one vector at which the Hamiltonian derivative for the initial state vanishes to tolerance (for problems where Newton iteration converges). Each control update then changes the input sequence so that, for problems whose residual is affine (and a difference step equal to the timestep or a horizon that no longer grows), the residual at the next state and time equals (1 - zeta dt) times the current one when the Krylov limit is not binding, and with a binding limit it deviates from that by no more than the previous derivative estimate would; the control returned is the first input of the updated sequence.",
 ["inputs","histories","configurations"],"every such problem, zeta, dt, finite-difference step, Krylov limit and sequence of states",
 "The tests only check closed-loop end states with one parameter set.",
 CG+GM,[("forward-difference GMRES for the input derivative, explicit update of the input sequence","CgmresSolver.cpp setup()/calcControlInput()/eqAmulFunc()")],
 ["u_list_, u_, calcDhDuList() around calcControlInput()"])
p("C16","C/GMRES closed-loop run simulates and logs faithfully",
 "A run starts from the problem's initial state, advances the plant by one timestep per control update with the simulation integrator and the most recently computed control, at times 0, dt, 2dt, ... up to the duration. The data files contain one line every dump interval with that time, the state after the step, the newly computed control and the current optimality error, in the dimensions of the problem.",
 ["inputs","configurations","histories"],"every problem, duration, timestep, dump interval, with and without a separate simulation integrator, repeated runs of one solver",
 "The tests only check the norm of the final state.",
 CG,[("simulation loop and dumping","CgmresSolver.cpp run()")],
 ["calls into the simulation integrator","/tmp/cgmres_*.dat"])
p("C17","ODE steps have their order and evaluate at the right times",
 "One Euler step returns x + dt f(t,x,u), and one Runge-Kutta step agrees with the exact flow to fifth order in dt for every smooth, time-dependent right-hand side, for positive, negative and zero dt. The input is passed through unchanged, the right-hand side is evaluated only at times between t and t+dt, and the result is the same when the output vector is the input vector.",
 ["inputs"],"every dimension, right-hand side, time, state, input and step",
 "Only used inside two closed loops with time-invariant systems.",
 OD,[("Euler and classical RK4 formulas","OdeSolver.h")],
 ["OdeSolver::solve()"])
p("C18","A solve depends only on its arguments and configuration",
 "The outcome of a solve (status, trajectory, variables, trace except durations) on a solver object that already performed any sequence of earlier solves, including failed, rejected and interrupted ones, with other horizons, times, guesses and options, is the same as on a freshly constructed solver with the same configuration. This holds for DDP, box QP, FMPC (for an unchanged barrier-adaptation option), GMRES and, after a new setup, C/GMRES.",
 ["histories","configurations"],"every history of solves on one object",
 "The tests reuse one solver with one horizon and configuration and never compare with a fresh one.",
 DDP+QP+FM+GM+CG,[("re-initialisation of all per-solve state","solve() of each solver")],
 ["results of solve() on reused and fresh solvers"])
p("C19","Solver instances are independent of each other",
 "Any number of solver objects, of any of the packages and with any dimensions, can be used in the same program, interleaved or from different threads at the same time (sharing a problem object whose callbacks are thread-safe), or one inside a problem callback of another, without data races, and each produces exactly what it would produce alone. (The fixed-name data files that a C/GMRES run writes are excepted.)",
 ["schedules","histories"],"every interleaving of solves on different objects in one or several threads",
 "All tests are single-threaded with one solver.",
 DDP+QP+FM+GM+CG,[("no static or global mutable state","all solver classes")],
 ["results per thread, ThreadSanitizer reports"])
p("C20","No memory error, undefined behaviour or uninitialised read",
 "For every accepted problem and configuration, all solvers run without out-of-bounds or use-after-free access, without undefined behaviour or violated matrix-library preconditions, and without their result depending on uninitialised memory. This includes steps with zero inputs or zero inequality constraints, horizons that grow or shrink between solves, an iteration limit of zero, and every print level.",
 ["inputs","configurations","histories"],"every problem shape, configuration and history of solves that the API accepts",
 "The test build defines NDEBUG and uses no sanitizer; shapes in the tests are few.",
 DDP+QP+FM+MU+GM+CG+OD,[("sizing of all per-step containers and matrices","all solver classes")],
 ["AddressSanitizer, UndefinedBehaviorSanitizer, Eigen assertions, valgrind memcheck, poisoned-memory differential runs"])
p("C21","Malformed arguments are rejected before any work",
 "A DDP or FMPC solve whose initial guess has the wrong number of steps, a per-step dimension that differs from the problem's, or (unless the solver is told to initialise them) a negative slack or inequality multiplier is rejected with a standard exception before any stage callback is evaluated on it, for every position of the fault and every option combination, and a well-formed guess is never rejected. After a rejection the solver object solves the next well-formed call as usual; unsupported or missing settings (second-order dynamics derivatives, non-positive QP dimension, missing dimension callbacks) also raise an exception.",
 ["inputs","configurations","histories"],"every malformed shape and sign at every step index, every option combination",
 "No test passes a malformed argument.",
 DDP+QP+FM,[("argument checks","DDPSolver.hpp solve(), FmpcSolver.hpp checkVariable(), BoxQP.h constructor")],
 ["exceptions from solve(), calls into the problem"])
p("C22","Trace data and dumped trace files are truthful",
 "The trace of a DDP solve starts with the initial guess (iteration zero) and has one entry per iteration in order, whose cost is the total cost of the trajectory held after that iteration, so the last entry is the cost of the returned trajectory, together with the step length tried last (one of the configured list, or zero if no step was tried), the actual cost improvement and its ratio to the expected one; the box-QP trace likewise lists iterations in order with the objective of each recorded point. Dumping a DDP or FMPC trace writes a header naming every column and one line per trace entry with the recorded values, replacing what was in the file before.",
 ["inputs","configurations","histories"],"every solve, however it terminates, and every history of solves on one object",
 "Traces are dumped once per test and never read back.",
 DDP+QP+FM,[("trace bookkeeping and dumpTraceDataList()","DDPSolver.hpp, BoxQP.h, FmpcSolver.hpp")],
 ["traceDataList()","dumped files"])
p("C23","Print level controls output and nothing else",
 "With print level zero the DDP, box-QP and FMPC solvers write nothing to standard output, in any situation including numerical failure. The print level never changes any result of a solve.",
 ["inputs","configurations"],"every problem and outcome, including indefinite Hessians, failed line searches, NaN values and infeasible problems",
 "Tests run at default or maximal verbosity and do not look at the output.",
 DDP+QP+FM,[("print-level guards","all prints in the solvers")],
 ["captured standard output and error"])
p("C24","Closed-loop MPC regulates the benchmark systems",
 "Run in closed loop with warm starting, DDP (with and without input limits), FMPC (with state and input constraints) and C/GMRES bring the benchmark systems to their target, with the applied inputs within their limits and the constraints respected along the way: for DDP the cart-pole (near upright within 1 m and 0.4 rad, swing-up from within 0.3 of hanging), the double integrator (within 3 m and 1 m/s) and the vertical motion with changing contacts, for FMPC the Van der Pol oscillator (initial state in [-0.2,0.5]x[0,1]), for C/GMRES the semi-active damper (within 2) and the cart-pole (within 0.15 m and 0.1 rad of rest upright or hanging).",
 ["inputs","histories"],"every initial state and target in the stated regions, with warm starting between control steps",
 "Each test runs a single initial state.",
 DDP+FM+CG,[("whole solvers with warm start","solve() / run()")],
 ["closed-loop trajectories"])
p("C25","FMPC time grid and dimension discipline",
 "During an FMPC solve every stage callback is invoked only at times current time plus i times the timestep for i below the horizon length, with input size equal to the problem's input dimension at that time and inequality outputs sized by its inequality dimension, and terminal callbacks only at the end of the horizon. Problems whose input or inequality dimension changes along the horizon, including steps without inputs or without inequalities and problems without any inequality, are solved like the equivalent fixed-dimension problem, and choosing fixed or dynamic template dimensions does not change the result.",
 ["inputs","configurations"],"every schedule of input and inequality dimensions, current time, horizon and option combination",
 "No test uses a dynamic dimension with FMPC.",
 FM,[("per-step sizing of coefficients and steps","FmpcSolver.hpp solve()/procOnce()/backwardPass()/forwardPass()")],
 ["calls into the user problem","variable()"])
p("C26","DDP regularization copes with indefinite curvature",
 "When the curvature of a DDP problem is not positive definite, the solver raises the regularization until a descent step is found or the configured maximum is exceeded, in which case it returns failure with the best trajectory found so far; it never applies gains of an indefinite system. On non-convex problems with bounded sublevel sets a reported success that is due to small feed-forward gains is a stationary point, and after successful steps the regularization is reduced again so that convergence stays fast.",
 ["inputs","configurations"],"every smooth problem with indefinite stage or terminal Hessians, both regularization types, every regularization configuration",
 "All test problems are convex; the regularization failure path is never taken.",
 DDP,[("Cholesky failure handling, regularization schedule","DDPSolver.hpp procOnce()/backwardPass()")],
 ["return value, controlData(), traceDataList() regularization values"])
p("C27","Reported computation times are truthful",
 "The computation durations reported by DDP and FMPC after a solve are those of that solve alone, in milliseconds: they are non-negative, the solve duration is the setup plus the optimization duration, the per-phase durations do not exceed the optimization duration and equal the sums of the durations in the trace, the time the problem's callbacks took during a phase is contained in that phase's duration, and no duration exceeds the time that really elapsed around the call.",
 ["inputs","histories"],"every problem, configuration and history of solves on one object, however a solve terminates",
 "Durations are only printed by tests; users rely on them to judge real-time feasibility.",
 DDP+FM,[("ComputationDuration bookkeeping and calcDuration()","DDPSolver.hpp, FmpcSolver.hpp")],
 ["computationDuration()","traceDataList() durations","time measured inside callbacks and around the call"])
p("C28","Containers of solver data are complete and their NaN checks are exact",
 "A freshly constructed FMPC variable for horizon N has N+1 states and multipliers and N inputs, slacks and inequality multipliers; reset(x,u,lambda,s,nu) sets every element of every list to the given value; containsNaN() of FMPC variables and coefficients and of DDP control data is true exactly when some element of them is NaN or infinite, wherever it is, and coefficients have the dimensions of the stage they were built for.",
 ["inputs"],"every horizon, dimension (also zero, fixed and dynamic) and element position",
 "Tests never put a NaN into any of them.",
 DDP+FM,[("Variable, Coefficient, ControlData","FmpcSolver.h/.hpp, DDPSolver.h/.hpp")],
 ["public members of the containers","containsNaN()"])
p("C29","FMPC coefficients are the linearised problem and its feedback law",
 "After a solve, coeffList() has one entry per step and a terminal one holding the derivatives and residuals of the problem at the iterate evaluated last (the returned variable when the solve succeeded), and its gains give the solution of the KKT system linearised there for any current state: with dx the deviation of the state at a step, the input step is K dx + k and the multiplier step P dx - s.",
 ["inputs","configurations"],"every problem and solver configuration for which the solve did not end in a numerical error",
 "No test reads the coefficients; between control updates a user applies them as a feedback law.",
 FM,[("Coefficient fields and backward recursion","FmpcSolver.hpp procOnce()/backwardPass()")],
 ["coeffList()","derivatives and residuals recomputed with the problem's functions"])
p("C30","The work per solve is bounded by the configuration",
 "A DDP solve takes at most max_iter iterations, evaluates the derivatives of each step at most once per iteration and rolls the dynamics out once for the guess and once per step length tried; an FMPC solve takes at most max_iter iterations and evaluates the derivatives of each step at most once per iteration and (without line search) the functions of each step once per iteration; one C/GMRES input update evaluates the optimality residual at most k_max + 3 times.",
 ["inputs","configurations"],"every problem and configuration, whether or not the solve converges",
 "Tests only print timings; real-time users depend on the bound on calls into their model.",
 DDP+FM+CG,[("iteration, line search and Krylov loops","DDPSolver.hpp solve()/procOnce(), FmpcSolver.hpp solve()/procOnce(), CgmresSolver.cpp, Gmres.h")],
 ["counted calls into the user problem","traceDataList()"])
p("C31","Every DDP iteration is the regularized Gauss-Newton (iLQR/DDP) step of the linearized problem",
 "The step a DDP iteration computes is the one the method defines: with the derivatives of the problem at the current trajectory, the backward recursion with the configured regularization (of the input or of the state, reg_type 1 or 2, with the lambda in effect) and with the box-constrained quadratic program where input limits are given; the new trajectory follows the resulting feedforward and feedback law scaled by the first configured step length that passes the acceptance test, and the recorded expected improvement and relative gain norm are those of that step.",
 ["inputs","configurations"],"every problem, initial guess, horizon, constraint setting, regularization type and schedule",
 "Tests look at the converged closed loop only; a step that is not the defined one still descends and converges, just more slowly, to other minima or with other feedback gains.",
 DDP,[("backward pass, forward pass and line search","DDPSolver.hpp backwardPass()/forwardPass()/procOnce()")],
 ["controlData() after a one-iteration solve","traceDataList(): alpha, lambda, cost_update_expected, k_rel_norm"])
p("C32","Solver results may be fed back by reference, and copied solvers are independent",
 "Passing elements of a solver's own results (controlData().x_list, controlData().u_list, variable()) to the next solve() by reference gives exactly what passing copies of them gives, also when the horizon is changed in between; a solver that was copied or assigned produces exactly what the original would, and solving with one changes nothing that the other returns, also after the other is destroyed.",
 ["inputs","histories"],"every sequence of solves, horizon changes, copies and assignments",
 "Receding-horizon loops pass the last result back; tests do so only with a fixed horizon and one solver, where a dangling or aliased reference goes unnoticed.",
 DDP+FM,[("arguments and result storage","DDPSolver.hpp solve(), FmpcSolver.hpp solve()")],
 ["results of solves with aliased and with copied arguments","results of copies, bit by bit"])
p("C33","DDP stops, reports and adapts its regularization exactly as configured",
 "A DDP solve starts with the configured initial regularization. Each time the backward pass or the whole line search fails, the scaling of the regularization is multiplied by lambda_factor (becoming at least that) and the regularization by the scaling (becoming at least lambda_min); after each accepted step the scaling is divided by the factor (becoming at most its inverse) and the regularization multiplied by it, or set to zero if it was below lambda_min. The solve ends at the first iteration whose relative gain norm and regularization are below their thresholds (before trying a step), whose accepted step improves the cost by less than cost_update_thre, or whose regularization exceeds lambda_max, and otherwise exactly at max_iter; it returns true in the first two cases and false in the others.",
 ["inputs","configurations"],"every problem with finite values, initial guess, threshold and regularization setting",
 "Tests run with default settings on a few problems, where most branches of the schedule are never taken and an early or late stop is within their tolerances.",
 DDP,[("iteration control","DDPSolver.hpp solve()/procOnce()")],
 ["traceDataList() and the return value, explained entry by entry"])
p("C34","FMPC takes or initialises slacks and multipliers as told",
 "Without init_complementary_variable an FMPC solve starts from exactly the given variables. With it, states, inputs and costates are still taken as given, while slacks and inequality multipliers are replaced by positive ones whatever was given for them (also negative, zero, NaN or infinite values, which do not influence the solve): the slack of a satisfied inequality is at least its margin and exceeds it only slightly, that of a violated one is small, and the multipliers are of moderate size.",
 ["inputs","configurations"],"every problem, guess and given slacks and multipliers",
 "No test uses the option with infeasible guesses or with slacks left over from earlier solves.",
 FM,[("initialisation of complementarity variables","FmpcSolver.hpp solve()")],
 ["variable() after a solve without iterations","equality of whole solves with different given slacks and multipliers"])
p("C35","Every box-QP iteration is a projected Newton step and the result code is truthful",
 "The first recorded point of a box QP is the guess clipped to the bounds. Each iteration clamps exactly the variables at a bound whose gradient points outwards, uses the Newton direction of the free variables, and moves by the full projected step if that attains the Armijo fraction of the linear improvement, otherwise by a shorter one that does; the objective never rises and no point leaves the bounds. The code tells why it ended: all variables clamped, gradient of the free variables below grad_thre, relative improvement below rel_improve_thre, exactly max_iter iterations done (including the step of the last one), no acceptable step of at least min_step, or a free Hessian block that is not positive definite.",
 ["inputs","configurations"],"every Hessian, gradient, bounds, guess and setting of the thresholds",
 "Tests only compare the final point of a few problems with default settings.",
 ["nmpc_ddp/include/nmpc_ddp/BoxQP.h"],[("iteration and result codes","BoxQP.h solve()")],
 ["traceDataList(), retval_, free_idxs_"])
p("C36","A solve can be interrupted and continued",
 "Stopping a solve at an iteration limit and continuing it from its result gives the same iterations (costs or KKT errors, step lengths), the same final status and the same result as one uninterrupted solve, however it is cut into parts and whether it is continued with the same or another solver object: for FMPC the next part is given the returned variables, for DDP the returned inputs and, as initial regularization, that of the last trace entry.",
 ["inputs","configurations","histories"],"every problem, guess, configuration and way of cutting the solve into parts",
 "Real-time loops run one or a few iterations per control step and rely on continuing where they stopped; tests either converge in one solve or only look at the closed loop.",
 DDP+FM,[("state kept between iterations","DDPSolver.hpp solve()/procOnce(), FmpcSolver.hpp solve()/procOnce()")],
 ["traceDataList() and results of one solve and of its parts"])
p("C37","The choice of units does not change the result",
 "Expressing the cost or the state of a DDP problem (without input limits for the cost) in other units, together with the settings that carry those units (the regularization coefficients and the cost update threshold), gives the same iterations and the same trajectory in the new units. The same holds for the objective and the variables of a box QP (with its gradient threshold) and for the matrix and the right-hand side of a linear system solved by GMRES. With units that are powers of four the agreement is to rounding.",
 ["inputs","configurations"],"every problem, guess, configuration and power of two as unit",
 "Tests use one fixed set of well-scaled problems; hidden absolute tolerances show up only for very small or very large units.",
 DDP+QP+CG,[("tolerances and comparisons","DDPSolver.hpp procOnce()/backwardPass(), BoxQP.h solve(), Gmres.h solve()")],
 ["traces and results of a problem and of the same problem in other units"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
