"""Which binaries, build variants and workloads decide each property."""
DDP = [(1, 1), (2, 1), (3, 2), (4, 3), (3, -1), (2, -1)]
FMPC = [(2, 1, 2), (3, 2, 3), (2, 1, -1), (2, -1, 2), (3, -1, -1), (2, -1, -1)]
BINS = {
    'm_ddp': dict(srcs=['m_ddp.cpp'], ddp=DDP),
    'm_fmpc': dict(srcs=['m_fmpc.cpp'], fmpc=FMPC),
    'm_qp': dict(srcs=['m_qp.cpp']),
    'm_cg': dict(srcs=['m_cg.cpp'], cgmres=True),
    'm_mem': dict(srcs=['m_mem.cpp'], cgmres=True, ddp=[(2, 1), (3, -1)], fmpc=[(2, 1, 2), (3, -1, -1)], defs=['-DKINDS_SMALL']),
    'm_thr': dict(srcs=['m_thr.cpp'], cgmres=True, ddp=[(2, 1), (3, -1)], fmpc=[(2, 1, 2), (3, -1, -1)], defs=['-DKINDS_SMALL']),
    'm_loop': dict(srcs=['m_loop.cpp'], cgmres=True),
}
VARIANTS = {
    # -O1 without NDEBUG: Eigen's and the repository's assertions are part of the monitor
    'plain': dict(cxx='g++', flags=['-O1', '-D_GLIBCXX_ASSERTIONS']),
    'fast': dict(cxx='g++', flags=['-O2']),
    'asan': dict(cxx='g++', flags=['-O1', '-g1', '-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer'],
                 env={'ASAN_OPTIONS': 'detect_leaks=0:detect_stack_use_after_return=1:exitcode=77', 'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77'}),
    'tsan': dict(cxx='g++', flags=['-O1', '-g1', '-fsanitize=thread'], env={'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:history_size=4'}),
    # two builds that fill fresh memory differently: equal results are required
    'zero': dict(cxx='g++', flags=['-O1', '-DEIGEN_INITIALIZE_MATRICES_BY_ZERO', '-ftrivial-auto-var-init=zero']),
    'poison': dict(cxx='g++', flags=['-O1', '-DEIGEN_INITIALIZE_MATRICES_BY_NAN', '-ftrivial-auto-var-init=pattern'], env={'MALLOC_PERTURB_': '85'}),
}
def P(bin, **k): return dict(bin=bin, **k)
def C(parts, rule, level='exploration', **k): return dict(parts=parts, rule=rule, level=level, **k)
GEN_D = ('Optimal control problems are drawn from the seed: state dimension 1-4, fixed or dynamic input dimension (also changing along the horizon, also zero), '
         'time-varying linear or non-linear dynamics, convex or indefinite costs, random horizons, times, guesses and solver settings; the real DDPSolver solves them. ')
GEN_F = ('Optimal control problems with inequality constraints are drawn from the seed: fixed or dynamic input/inequality dimensions (also changing, also zero), linear or non-linear, '
         'random horizons, times, starting variables and all solver options; the real FmpcSolver solves them. ')
GEN_C = 'Smooth random optimal control problems (1-4 states, 1-3 inputs, non-linear dynamics and cost, time variation), random C/GMRES parameters; the real CgmresSolver runs on them. '
NT = 'Non-trivial: the monitor reached its last assertion on the case; distinct: hash of the observed result.'
CHECKS = {
    'C01': C([P('m_ddp')], GEN_D + 'The returned trajectory is re-simulated step by step with the problem and compared, also after failed solves and on reused solver objects. ' + NT),
    'C02': C([P('m_ddp')], GEN_D + 'Trace and a solve-prefix replay (max_iter 0,1,2,...) give the cost after each iteration; it must not increase and accepted steps must beat the ratio threshold. ' + NT),
    'C03': C([P('m_ddp')], GEN_D + 'The optimum of the condensed quadratic programme (independent dense solve) is the oracle for linear-quadratic cases, the gradient of the total cost for mildly non-linear ones. ' + NT),
    'C04': C([P('m_ddp')], GEN_D + 'Limits (time-varying, one-sided, infinite, coinciding) are checked on every returned input; the constrained optimum comes from an independent projected solver with a dual certificate. ' + NT),
    'C05': C([P('m_ddp')], GEN_D + 'Every callback is checked online against the time grid and the dimensions; the same problem embedded in other template dimensions and zero-padded inputs must give the same result. ' + NT),
    'C06': C([P('m_qp')], 'Random box QPs (dimension 1-12, condition up to 1e6, infinite/coinciding/active bounds, degenerate gradients, guesses anywhere, indefinite Hessians); optimality, feasibility, monotonicity, free set and factor are evaluated independently. ' + NT),
    'C07': C([P('m_fmpc')], GEN_F + 'An independent implementation of the KKT residual is evaluated at the iterates (recovered with growing iteration limits) and compared with the trace and status. ' + NT),
    'C08': C([P('m_fmpc')], GEN_F + 'Positivity and dimensions of everything returned, for every status, including with injected numerical trouble. ' + NT),
    'C09': C([P('m_fmpc')], GEN_F + 'Consecutive iterates are compared with the solution of a dense KKT system assembled independently; step lengths and barrier are recovered from the difference. ' + NT),
    'C10': C([P('m_fmpc')], GEN_F + 'Convex strictly feasible cases only; optimality by primal value and dual bound on the condensed problem, plus immediate re-solve. ' + NT),
    'C11': C([P('m_fmpc')], GEN_F + 'The merit function and its directional derivative are recomputed independently along the observed step, and l1NormDirectionalDeriv is compared with one-sided differences on random and degenerate data. ' + NT),
    'C12': C([P('m_ddp'), P('m_fmpc')], 'For each random solve the problem callbacks are counted in a fault-free run; then the solve is repeated with NaN or infinity injected at call positions (every position when there are few, otherwise the first ones and a random sample), once or from then on. Non-trivial: the fault was delivered; distinct: hash of the outcome.', level='fault_enumeration'),
    'C13': C([P('m_cg')], 'Random linear systems of ten spectral families, dimension 1-18 (30 in thorough), all modes, tolerances and iteration limits; an extended-precision reorthogonalised Krylov reference gives the minimal residual. ' + NT),
    'C14': C([P('m_cg')], GEN_C + 'The derivative list is compared with extended-precision differences of the discretised cost, and each callback with the predicted state, input and time of its division. ' + NT),
    'C15': C([P('m_cg')], GEN_C + 'Setup and single updates from arbitrary input sequences, compared with the linear update equation built from the residual alone and with the prescribed decay. ' + NT),
    'C16': C([P('m_cg')], GEN_C + 'A recording simulation integrator and the data files are compared with a replica of the loop driven from outside. ' + NT),
    'C17': C([P('m_cg')], 'Random smooth right-hand sides; results are compared with an extended-precision flow at four step sizes, with exact quadrature, with the Taylor polynomial of linear systems and under aliasing. ' + NT),
    'C18': C([P('m_ddp'), P('m_fmpc'), P('m_qp'), P('m_cg')], 'A solver object is used for a random history (other horizons, options, injected exceptions, rejected arguments, NaN) and then solves a call that a fresh object solves too; everything returned must agree. ' + NT),
    'C19': C([P('m_thr'), P('m_thr', variant='tsan', shards=4, case_seconds=100, scale={'quick': 0.5, 'thorough': 0.5})], 'Jobs (sequences of solves on DDP, FMPC, box QP, GMRES and C/GMRES objects) run alone, interleaved, nested in callbacks of each other, and in 2-8 threads with random delays, in a plain and a ThreadSanitizer build; digests of all results must equal the solitary run. ' + NT),
    'C20': C([P('m_mem', variant='asan', ignore_verdicts=True, case_seconds=100),
              P('m_mem', variant='zero', digest=True, env={'MALLOC_PERTURB_': '170'}), P('m_mem', variant='poison', digest=True),
              P('m_mem', variant='plain', wrap=['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes'], ignore_verdicts=True, case_seconds=160, scale={'quick': 0.03, 'thorough': 0.02}),
              P('m_ddp', variant='asan', prop='C12', ignore_verdicts=True, case_seconds=800, tiers=('thorough',), scale={'thorough': 0.05}),
              P('m_ddp', variant='asan', prop='C21', ignore_verdicts=True, case_seconds=800, tiers=('thorough',), scale={'thorough': 0.05}),
              P('m_fmpc', variant='asan', prop='C12', ignore_verdicts=True, case_seconds=800, tiers=('thorough',), scale={'thorough': 0.05}),
              P('m_fmpc', variant='asan', prop='C21', ignore_verdicts=True, case_seconds=800, tiers=('thorough',), scale={'thorough': 0.05}),
              P('m_cg', variant='asan', prop='C16', ignore_verdicts=True, case_seconds=800, tiers=('thorough',), scale={'thorough': 0.05}),
              P('m_loop', variant='asan', prop='C24', ignore_verdicts=True, case_seconds=3000, tiers=('thorough',), scale={'thorough': 0.01})],
             'Sequences of solves with all solvers (zero-dimensional steps, changing horizons, all print levels, injected faults and exceptions) run under ASan+UBSan with checked containers and Eigen assertions, under valgrind, and in two builds that fill fresh stack, heap and matrices differently and must give identical digests. ' + NT),
    'C21': C([P('m_ddp'), P('m_fmpc'), P('m_qp')], 'Every kind and position of a malformed argument for random problems, with recorded callbacks; then a well-formed solve on the same object is compared with a fresh one. ' + NT),
    'C22': C([P('m_ddp'), P('m_fmpc'), P('m_qp')], 'Traces are compared with costs of trajectories recovered by solve-prefix replay, and dumped files are parsed back and compared with the trace. ' + NT),
    'C23': C([P('m_ddp'), P('m_fmpc'), P('m_qp')], 'Standard output is captured at file-descriptor level; each solve is repeated with every print level and compared bit for bit. ' + NT),
    'C24': C([P('m_loop', variant='fast')], 'Closed-loop runs of the four benchmark systems from random initial states in the stated region with DDP, FMPC and C/GMRES; convergence, limits and constraints are monitored online. Non-trivial: the run completed; distinct: hash of the closed-loop trajectory.'),
    'C25': C([P('m_fmpc')], GEN_F + 'Every callback is checked online against the time grid and dimensions; equivalent problems in other template dimensions and with padded constraints must give the same result. ' + NT),
    'C26': C([P('m_ddp')], GEN_D + 'Indefinite curvature cases: the regularization trace, failures at its limit, and stationarity of successes are monitored. ' + NT),
    'C27': C([P('m_ddp', shards=3), P('m_fmpc', shards=3)], 'Solves with callbacks that burn known amounts of time on reused solver objects; every reported duration is bounded from below by the time measured inside the callbacks and from above by the time measured around the call, and totals are compared with the trace. Non-trivial: durations of a completed solve were compared; distinct: hash of the result.'),
    'C28': C([P('m_ddp'), P('m_fmpc')], 'Random containers (variables, stage and terminal coefficients, control data; fixed and dynamic dimensions including zero); every single element is made NaN or infinite in turn. Non-trivial: all elements of one container were visited; distinct: random state.'),
    'C29': C([P('m_fmpc')], GEN_F + 'The exposed coefficients are compared with the problem at the evaluated iterate (recovered by solve-prefix replay), and the feedback law with the dense solution of the linearised KKT system for other current states. ' + NT),
    'C30': C([P('m_ddp'), P('m_fmpc'), P('m_cg')], 'Random solves with counted callbacks; the counts are compared with what the iterations, step lengths and Krylov limit allow. ' + NT),
    'C31': C([P('m_ddp')], GEN_D + 'Consecutive iterates (recovered with growing iteration limits) are compared with an independent implementation of the regularized backward recursion (limits by enumeration of active sets), rolled out at the step length of the trace; refused step lengths are evaluated too. ' + NT),
    'C32': C([P('m_ddp', env={'MALLOC_PERTURB_': '85'}), P('m_fmpc', env={'MALLOC_PERTURB_': '85'})], 'Solves whose arguments are references to the own results of the solver object (also when the horizon changes), and solves with copied and assigned solver objects, compared with fresh solvers given copies; freed memory is overwritten. ' + NT),
    'C33': C([P('m_ddp')], GEN_D + 'Random thresholds and regularization settings; an online checker explains every trace entry by the configured schedule and compares the end and result of the solve with the criteria. ' + NT),
    'C34': C([P('m_fmpc')], GEN_F + 'Solves without iterations show the variables before the first step; whole solves are repeated with other slacks and multipliers (also negative and not a number) that are to be initialised. ' + NT),
    'C35': C([P('m_qp')], 'Random box QPs (also indefinite) with random settings; an online checker examines every recorded iteration (projected Newton direction, sufficient decrease, bounds) and the result code. ' + NT),
    'C36': C([P('m_ddp'), P('m_fmpc')], 'A solve and the same solve cut into random parts, each continued from the result of the part before (DDP: also its regularization) with the same or another solver object, are compared iteration by iteration. ' + NT),
    'C37': C([P('m_ddp'), P('m_qp'), P('m_cg')], 'Random DDP problems, box QPs and linear systems are solved again with cost, state, variables or right-hand side (and the settings that carry their units) in other units, exact powers of two, and compared. ' + NT),
}
