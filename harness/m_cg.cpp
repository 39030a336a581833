// GMRES, C/GMRES and ODE monitors: C13-C17 and the C/GMRES part of C18.
#include "cgp.h"
#include "capture.h"
#include "redir.h"
using namespace nmpc_cgmres; using RM = Eigen::Ref<const Eigen::MatrixXd>;

// ---- C13
struct Krylov { MatL K, AK; std::vector<LD> res; std::vector<VecL> y; int dim = 0; };
// orthonormal Krylov basis (long double, reorthogonalised) and the minimal residual for each subspace size
static Krylov krylov(const Mat & A_, const Vec & b_, const Vec & x0_, int kmax)
{
  MatL A = A_.cast<LD>(); VecL r0 = b_.cast<LD>() - A * x0_.cast<LD>(); int n = b_.size(); Krylov k; k.K.resize(n, 0); k.AK.resize(n, 0); k.res.push_back(r0.norm());
  VecL v = r0; LD ref = r0.norm(); VecL rr = r0; MatL Qm(n, 0);
  for(int i = 0; i < std::min(kmax, n); i++)
  {
    LD nv0 = v.norm(); for(int p = 0; p < 3; p++) for(int j = 0; j < i; j++) v -= k.K.col(j) * k.K.col(j).dot(v);
    LD nv = v.norm(); if(!(nv > 1e-15L * (i ? nv0 : ref)) || nv == 0) break;
    v /= nv; k.K.conservativeResize(n, i + 1); k.K.col(i) = v; VecL w = A * v; k.AK.conservativeResize(n, i + 1); k.AK.col(i) = w;
    VecL q = w; for(int p = 0; p < 3; p++) for(int j = 0; j < i; j++) q -= Qm.col(j) * Qm.col(j).dot(q);
    if(q.norm() == 0) break; q.normalize(); Qm.conservativeResize(n, i + 1); Qm.col(i) = q; rr -= q * q.dot(rr); rr -= q * q.dot(rr); k.res.push_back(rr.norm()); k.dim = i + 1; v = w;
  }
  return k;
}
#include "gen_lin.h"
static void c13(Ctx & x)
{
  Lin l = genLin(x); int n = l.b.size(); Gmres g; g.make_triangular_ = x.rng.chance(0.6); g.apply_reorth_ = x.rng.chance(0.6); bool fn = x.rng.chance(0.5);
  if(x.rng.chance(0.2)) { Lin p = genLin(x); Vec y = p.x0; g.solve(RM(p.A), p.b, y, p.kmax, p.eps); l = genLin(x); n = l.b.size(); }
  x.desc += std::string(" triangular=") + (g.make_triangular_ ? "1" : "0") + " reorth=" + (g.apply_reorth_ ? "1" : "0");
  Vec s = l.x0; long calls = 0;
  if(fn) { Gmres::AmulFunc F = [&](const Eigen::Ref<const Eigen::VectorXd> & v) { calls++; return Vec(l.A * v); }; g.solve(F, l.b, s, l.kmax, l.eps); }
  else g.solve(RM(l.A), l.b, s, l.kmax, l.eps);
  int lim = std::min(l.kmax, n), it = (int)g.err_list_.size() - 1;
  x.check(s.allFinite(), "finite", "solution is not finite");
  x.check(it >= 0, "history-empty", "residual history is empty");
  x.check(it <= lim, "too-many-iterations", std::to_string(it) + " iterations, limit " + std::to_string(lim));
  if(fn) x.check(calls <= lim + 1, "too-many-calls", std::to_string(calls) + " operator calls, limit " + std::to_string(lim + 1));
  VecL rl = l.b.cast<LD>() - l.A.cast<LD>() * s.cast<LD>(); double res = (double)rl.norm(), r0 = (l.b - l.A * l.x0).norm();
  // rounding level of residual evaluation and of the Krylov recurrence
  double amp = l.A.norm() * (l.x0.norm() + s.norm()) + l.b.norm() + r0, rnd = 1e-11 * r0 + 1e-14 * amp;
  x.check(std::abs(g.err_list_[0] - r0) <= 1e-12 * amp, "history-start", "first residual " + ds(g.err_list_[0]) + " but initial residual is " + ds(r0));
  for(int i = 1; i <= it; i++) x.checkf(g.err_list_[i] <= g.err_list_[i - 1] * (1 + 1e-10) + rnd, "history-increase", [&] { return "residual history increases at " + std::to_string(i) + ": " + ds(g.err_list_[i - 1]) + " -> " + ds(g.err_list_[i]); });
  x.checkf(std::abs(g.err_list_.back() - res) <= 10 * rnd, "history-end", [&] { return "reported residual " + ds(g.err_list_.back()) + " but true residual is " + ds(res) + " (initial " + ds(r0) + ")"; });
  double tol = l.eps * l.b.norm();
  if(it < lim) { x.check(g.err_list_.back() <= tol + rnd, "stopped-early", "stopped after " + std::to_string(it) + " of " + std::to_string(lim) + " iterations with residual " + ds(g.err_list_.back()) + " above the tolerance " + ds(tol)); x.count("early_stop"); }
  for(int i = 0; i < it; i++) x.check(g.err_list_[i] > tol, "not-stopped", "continued although residual " + ds(g.err_list_[i]) + " was below the tolerance " + ds(tol));
  Krylov k = krylov(l.A, l.b, l.x0, it);
  double best = (double)k.res.back(); x.maxi("residual_over_minimum", (res - best) / (rnd + 1e-30));
  x.checkf(res <= best + 10 * rnd, "not-minimal", [&] { return "residual " + ds(res) + " after " + std::to_string(it) + " iterations, minimum over the Krylov space is " + ds(best) + " (initial " + ds(r0) + ")"; });
  VecL d = (s - l.x0).cast<LD>(), dp = d; for(int j = 0; j < k.dim; j++) dp -= k.K.col(j) * k.K.col(j).dot(dp);
  if(k.dim == it) { double out = (double)dp.norm(); x.check(out <= 1e-8 * (double)d.norm() + 1e-13 * l.x0.norm() + 1e-300, "outside-krylov", "update leaves the Krylov space by " + ds(out) + " of " + ds((double)d.norm())); }
  if(k.dim < it) x.count("breakdown_passed"); if(it < l.kmax && it < n && k.dim == it) x.count("converged_before_n"); if(it == lim && it < n && it) x.count("truncated"); if(l.kmax > n) x.count("limit_above_n"); if(l.b.norm() == 0) x.count("zero_rhs"); if(it == 0) x.count("no_iteration");
  x.count(g.make_triangular_ ? "givens" : "qr"); x.count(g.apply_reorth_ ? "reorth" : "no_reorth"); x.count("iterations", it); x.observed(hcomb(hmat(l.A), it));
}
// ---- C14
static LD costOf(const CgP & o, LD t, LD T, int N, const VecL & x0, const MatL & U) { LD h = T / N, J = 0; VecL x = x0; for(int i = 0; i < N; i++) { VecL u = U.col(i); J += h * o.L<LD>(t + i * h, x, u); x += h * o.f<LD>(t + i * h, x, u); } return J + o.phi<LD>(x); }
static void c14(Ctx & x)
{
  Rng & r = x.rng; bool tv = r.chance(0.25); auto o = genCg(r, r.chance(0.3) ? 0 : r.uni(0, 1), r.chance(0.3) ? 0 : r.uni(0, 1), tv ? r.uni(0.1, 1) : 0);
  CgmresSolver s(o, std::make_shared<EulerOdeSolver>(), r.chance(0.5) ? std::shared_ptr<OdeSolver>(std::make_shared<RungeKuttaOdeSolver>()) : nullptr); randParam(r, s);
  s.setup(); double t = r.chance(0.1) ? 0 : r.logu(1e-2, 30); int N = s.horizon_divide_num_; double T = s.steady_horizon_duration_ * (1 - std::exp(-s.horizon_increase_ratio_ * t)), h = T / N;
  int rep = r.in(1, 3); Vec xv; Mat U, F;
  for(int i = 0; i < rep; i++) { xv = r.vec(o->nx); U = r.mat(o->nu, N); F = Mat::Constant(o->nu, N, 7e7); o->calls.clear(); o->rec = true; Mat U0 = U; Vec x0 = xv; s.calcDhDuList(t, xv, U, F); o->rec = false; x.check(U == U0 && xv == x0, "inputs-changed", "arguments were modified"); }
  std::ostringstream d; d << "nx=" << o->nx << " nu=" << o->nu << " N=" << N << " t=" << t << " T=" << T << " nl=" << o->nl << " cn=" << o->cn << " tv=" << o->tv; x.desc = d.str();
  x.check(F.allFinite(), "finite", "derivative list not finite");
  // where the problem was evaluated
  double tt = 1e-9 * (1 + t); std::vector<Vec> xs(N + 1); xs[0] = xv; for(int i = 0; i < N; i++) xs[i + 1] = xs[i] + h * o->f<double>(t + i * h, xs[i], Vec(U.col(i)));
  std::vector<int> nf(N, 0), nh(N, 0); int nphi = 0;
  for(auto & c : o->calls)
  {
    if(c.k == 2) { nphi++; x.check(std::abs(c.t - (t + T)) <= tt, "terminal-time", "terminal cost derivative evaluated at " + ds(c.t) + ", horizon ends at " + ds(t + T)); x.check((c.x - xs[N]).norm() <= 1e-9 * (1 + xs[N].norm()), "terminal-state", "terminal cost derivative not evaluated at the last predicted state"); continue; }
    int best = -1; double bd = 1e300; for(int i = 0; i < N; i++) { double e = (c.u - U.col(i)).norm(); if(e < bd) { bd = e; best = i; } }
    x.check(bd <= 1e-12, "unknown-input", "callback evaluated with an input that is not in the sequence");
    x.checkf((c.x - xs[best]).norm() <= 1e-9 * (1 + xs[best].norm()), "wrong-state", [&] { return "callback " + std::to_string(c.k) + " of division " + std::to_string(best) + " evaluated at " + vs(c.x) + ", predicted state is " + vs(xs[best]); });
    if(c.k == 0) nf[best]++; if(c.k == 3) nh[best]++;
    if(c.k == 0 || c.k == 3) x.checkf(std::abs(c.t - (t + best * h)) <= tt, "wrong-time", [&] { return "callback " + std::to_string(c.k) + " of division " + std::to_string(best) + " evaluated at " + ds(c.t) + " instead of " + ds(t + best * h); });
    if(c.k == 1) x.check(c.t >= t + best * h - tt && c.t <= t + (best + 1) * h + tt, "wrong-time", "costate of division " + std::to_string(best) + " evaluated at " + ds(c.t));
    x.count("callbacks");
  }
  if(!tv)
  {
    MatL UL = U.cast<LD>(); VecL xl = xv.cast<LD>(); double sc = 0, worst = 0; Mat G(o->nu, N);
    LD hh = (LD)s.steady_horizon_duration_ * (1 - std::exp(-(LD)s.horizon_increase_ratio_ * t)); 
    if(T > 0)
    {
      LD e = 1e-6L; for(int i = 0; i < N; i++) for(int j = 0; j < o->nu; j++) { MatL a = UL, b = UL, a2 = UL, b2 = UL; a(j, i) += e; b(j, i) -= e; a2(j, i) += 2 * e; b2(j, i) -= 2 * e; LD g1 = (costOf(*o, t, hh, N, xl, a) - costOf(*o, t, hh, N, xl, b)) / (2 * e), g2 = (costOf(*o, t, hh, N, xl, a2) - costOf(*o, t, hh, N, xl, b2)) / (4 * e); G(j, i) = (double)((4 * g1 - g2) / 3 / (hh / N)); }
      sc = 1 + G.cwiseAbs().maxCoeff(); worst = (G - F).cwiseAbs().maxCoeff() / sc; double noise = 1e-12 / (h + 1e-300);
      x.maxi("gradient_error", worst); x.checkf(worst <= 1e-6 + noise, "gradient", [&] { int a, b; (G - F).cwiseAbs().maxCoeff(&a, &b); return "derivative of input " + std::to_string(a) + " of division " + std::to_string(b) + " is " + ds(F(a, b)) + ", gradient of the discretised cost is " + ds(G(a, b)); });
      x.count("gradients", N * o->nu);
    }
    else
    {
      Vec lam = o->Dphi(xv); for(int i = 0; i < N; i++) x.check((F.col(i) - o->Hu(t, xv, U.col(i), lam)).norm() <= 1e-9 * (1 + F.col(i).norm()), "zero-horizon", "zero horizon"); x.count("zero_horizon");
    }
  }
  else x.count("time_varying");
  x.check(nphi > 0, "terminal-missing", "terminal cost derivative never evaluated"); for(int i = 0; i < N; i++) x.check(nh[i] > 0, "division-missing", "division " + std::to_string(i) + " never evaluated");
  x.observed(hmat(F));
}
// ---- C15
// does an exact Newton iteration on the Hamiltonian derivative contract steadily from the problem's initial input?
static bool newtonOk(const CgP & o, const Vec & lam)
{
  Vec u = o.u_initial_; double last = 1e300;
  for(int i = 0; i < 30; i++)
  {
    Vec h = o.Hu(0, o.x_initial_, u, lam); double n = h.norm(); if(n <= 1e-9) return true; if(!(n < 0.5 * last)) return false; last = n;
    Vec z = o.W * o.x_initial_ + o.V * u, w(o.nx); for(int j = 0; j < o.nx; j++) w[j] = -o.nl * std::sin(z[j]) * lam[j] + o.cn / std::pow(1 + z[j] * z[j], 1.5);
    Mat J = o.R + o.V.transpose() * w.asDiagonal() * o.V; Eigen::SelfAdjointEigenSolver<Mat> es(J); if(es.eigenvalues().minCoeff() < 0.1) return false;
    u -= J.ldlt().solve(h);
  }
  return true;
}
static void c15(Ctx & x)
{
  Rng & r = x.rng; bool affine = r.chance(0.75); auto o = genCg(r, affine ? 0 : r.uni(0, 0.3), affine ? 0 : r.uni(0, 0.3), 0);
  std::shared_ptr<OdeSolver> ode; if(r.chance(0.6)) ode = std::make_shared<EulerOdeSolver>(); else ode = std::make_shared<RungeKuttaOdeSolver>();
  CgmresSolver s(o, ode); randParam(r, s); bool full = r.chance(0.5); if(full) s.k_max_ = 1000; double t = 0; bool steady = false;
  // the horizon growth makes the residual non-affine in time: with an own difference step only a saturated horizon is affine
  if(s.finite_diff_delta_ != s.dt_) { steady = true; s.horizon_increase_ratio_ = 1e3; t = r.uni(0.1, 3); }
  int N = s.horizon_divide_num_, nu = o->nu;
  { Capture cap; s.setup(); cap.stop(); }
  std::ostringstream d; d << "affine=" << affine << " nx=" << o->nx << " nu=" << nu << " N=" << N << " dt=" << s.dt_ << " delta=" << s.finite_diff_delta_ << " zeta=" << s.eq_zeta_ << " kmax=" << s.k_max_; x.desc = d.str();
  // setup
  Vec lam = o->Dphi(o->x_initial_);
  if(!affine && !newtonOk(*o, lam)) { x.count("newton_diverges"); return; }
  for(int i = 0; i < N; i++) x.check(s.u_list_.col(i) == s.u_list_.col(0), "setup-constant", "inputs of the horizon differ after setup");
  Vec h0 = o->Hu(0, o->x_initial_, s.u_list_.col(0), lam); x.maxi("setup_residual", h0.norm()); x.check(h0.norm() <= 1.01e-6, "setup-residual", "Hamiltonian derivative after setup is " + ds(h0.norm()));
  x.check(s.u_.size() == nu && (s.u_ - s.u_list_.col(0)).norm() == 0 && s.x_ == o->x_initial_, "setup-state", "current state or input not initialised"); x.check(s.u_list_.cols() == N && s.u_list_.rows() == nu, "setup-size", "size of input sequence"); x.count("setups");
  if(r.chance(0.6)) s.u_list_ += r.mat(nu, N, 0.5); // any input sequence, not only the solution
  Vec xv = o->x_initial_; int steps = r.in(1, 6);
  for(int q = 0; q < steps; q++)
  {
    Vec xn = xv + s.dt_ * o->f<double>(t, xv, Vec(s.u_list_.col(0))); if(r.chance(0.3)) xn += r.vec(o->nx, 0.05);
    CgmresSolver ref(o, ode); ref.steady_horizon_duration_ = s.steady_horizon_duration_; ref.horizon_divide_num_ = N; ref.horizon_increase_ratio_ = s.horizon_increase_ratio_; { Capture cap; ref.setup(); cap.stop(); }
    auto Fv = [&](double tt, const Vec & xx, const Mat & U) { Mat F(nu, N); ref.calcDhDuList(tt, xx, U, F); return Vec(Eigen::Map<Vec>(F.data(), F.size())); };
    Mat U0 = s.u_list_; Vec prev = s.delta_u_vec_; Vec F0 = Fv(t, xv, U0); Vec u = Vec::Constant(nu, 3e9);
    s.calcControlInput(t, xv, xn, u);
    x.check(s.u_list_.allFinite(), "finite", "input sequence not finite"); x.check(u == Vec(s.u_list_.col(0)), "control", "returned control is not the first input of the updated sequence");
    Mat U1 = s.u_list_; double de = s.finite_diff_delta_, dt = s.dt_, z = s.eq_zeta_; Vec xd = (1 - de / dt) * xv + (de / dt) * xn; Vec Fd = Fv(t + de, xd, U0);
    Vec dU = Eigen::Map<Vec>(U1.data(), U1.size()); dU -= Eigen::Map<Vec>(U0.data(), U0.size()); dU /= dt; int n = N * nu;
    auto un = [&](const Vec & v) { return Mat(U0 + de * Eigen::Map<const Mat>(v.data(), nu, N)); };
    // linear equation of the update, from the residual function alone
    Vec b = ((1 - z * de) * F0 - Fd) / de; auto Aop = [&](const Vec & v) { return Vec((Fv(t + de, xd, un(v)) - Fd) / de); };
    double rounding = 1e-13 * (Fd.norm() + F0.norm() + 1) / de, rprev = (b - Aop(prev)).norm(), rnew = (b - Aop(dU)).norm();
    if(affine)
    {
      Mat A(n, n); for(int j = 0; j < n; j++) { Vec e = Vec::Zero(n); e[j] = 1; A.col(j) = Aop(e); }
      int lim = std::min(s.k_max_, n); Krylov k = krylov(A, b, prev, lim); double best = (double)k.res.back(); double dUr = 1e-15 * U1.norm() / dt * A.norm();
      double tol = 1e-7 * rprev + 3e-10 * b.norm() + 100 * rounding + 10 * dUr;
      x.maxi("update_residual_rel", (rnew - best) / (rprev + b.norm() + 1e-12)); x.checkf(rnew <= best + tol, "update", [&] { return "residual of the update equation is " + ds(rnew) + ", minimum over the Krylov space " + ds(best) + ", of the previous derivative " + ds(rprev); });
      x.checkf(rnew <= rprev + tol, "worse-than-previous", [&] { return "update equation residual " + ds(rnew) + " exceeds that of the previous derivative " + ds(rprev); });
      if(k.dim < lim || lim == n || best <= 1e-9 * b.norm())
      {
        Vec F1 = Fv(t + dt, xn, U1); double sc = F0.norm() + Fd.norm() + 1e-3 + (F1 - F0).norm(); double e = (F1 - (1 - z * dt) * F0).norm();
        x.maxi("decay_error", e / sc); x.checkf(e <= 1e-6 * sc + dt * tol * 10 + (steady ? 1e-6 * sc : 0), "decay", [&] { return "residual after the update is " + vs(F1) + " instead of " + ds(1 - z * dt) + " times " + vs(F0); });
        x.count("decays"); if(steady) x.count("decay_own_delta"); else x.count("decay_growing_horizon");
      }
      else x.count("krylov_limited");
    }
    else { x.maxi("nonlinear_update_rel", rnew / (b.norm() + 1e-9)); x.count("nonlinear_updates"); }
    xv = xn; t += dt; x.observed(hmat(U1)); x.count("updates");
  }
}
// ---- C16
struct RecOde : OdeSolver
{
  std::shared_ptr<OdeSolver> in; struct E { double t, dt; Vec x, u, ret; }; std::vector<E> log; bool rec = true;
  void solve(const StateEquation & f, double t, const Eigen::Ref<const Eigen::VectorXd> & x, const Eigen::Ref<const Eigen::VectorXd> & u, double dt, Eigen::Ref<Eigen::VectorXd> ret) override { Vec xc = x, uc = u; in->solve(f, t, x, u, dt, ret); if(rec) log.push_back({t, dt, xc, uc, ret}); }
};
static std::vector<std::vector<double>> table(Ctx & x, const std::string & p, int cols)
{
  std::vector<std::vector<double>> r; std::ifstream f(p); x.check(!!f, "file-missing", p + " was not written"); std::string l;
  while(std::getline(f, l)) { std::vector<double> v; std::stringstream s(l); std::string c; while(std::getline(s, c, ',')) v.push_back(std::strtod(c.c_str(), nullptr)); x.check((int)v.size() == cols, "file-columns", p + " line " + std::to_string(r.size()) + ": " + l + " (" + std::to_string(cols) + " columns expected)"); r.push_back(v); }
  return r;
}
static void c16(Ctx & x)
{
  Rng & r = x.rng; auto o = genCg(r, r.uni(0, 0.3), r.uni(0, 0.3), r.chance(0.3) ? 0.2 : 0, true);
  auto ode = std::make_shared<EulerOdeSolver>(); auto sim = std::make_shared<RecOde>(); bool own = r.chance(0.7); sim->in = r.chance(0.5) ? std::shared_ptr<OdeSolver>(std::make_shared<RungeKuttaOdeSolver>()) : std::make_shared<EulerOdeSolver>();
  CgmresSolver s(o, ode, own ? sim : nullptr); auto other = std::make_shared<OdeSolver *>(nullptr); (void)other;
  int runs = r.in(1, 3);
  for(int q = 0; q < runs; q++)
  {
    randParam(r, s); s.dump_step_ = r.in(1, 7); int n = r.in(0, 40); s.sim_duration_ = s.dt_ * (n + r.uni(0.2, 0.8)); if(r.chance(0.3)) { double f = s.finite_diff_delta_ / s.dt_; s.dt_ = std::exp2(std::round(std::log2(s.dt_))); s.finite_diff_delta_ = f * s.dt_; s.sim_duration_ = n * s.dt_; x.count("exact_duration"); } /* exact in binary: the step at the duration itself belongs to the run */ if(q) { o->x_initial_ = r.vec(o->nx); }
    std::ostringstream d; d << "nx=" << o->nx << " nu=" << o->nu << " dt=" << s.dt_ << " duration=" << s.sim_duration_ << " dump=" << s.dump_step_ << " own sim=" << own << " run " << q; x.desc = d.str();
    for(const char * p : {"/tmp/cgmres_x.dat", "/tmp/cgmres_u.dat", "/tmp/cgmres_err.dat", "/tmp/cgmres_param.dat"}) { std::ofstream f(p); for(int i = 0; i < 300; i++) f << "stale, stale\n"; }
    sim->log.clear(); { Capture cap; s.run(); cap.stop(); }
    // replica: the same loop, driven from outside through setup() and calcControlInput()
    CgmresSolver m(o, ode, nullptr); m.steady_horizon_duration_ = s.steady_horizon_duration_; m.horizon_divide_num_ = s.horizon_divide_num_; m.horizon_increase_ratio_ = s.horizon_increase_ratio_; m.dt_ = s.dt_; m.finite_diff_delta_ = s.finite_diff_delta_; m.eq_zeta_ = s.eq_zeta_; m.k_max_ = s.k_max_;
    { Capture cap; m.setup(); cap.stop(); }
    if(!m.u_.allFinite() || m.u_.norm() > 1e3) { x.count("setup_diverged"); return; }
    Vec xv = o->x_initial_, u = m.u_; OdeSolver & pl = own ? *sim->in : *ode; std::vector<Vec> X, U; std::vector<double> E, TT;
    for(int k = 0; k <= n; k++)
    {
      double t = k * s.dt_; Vec xn(o->nx); pl.solve([&](double a, const Eigen::Ref<const Eigen::VectorXd> & b, const Eigen::Ref<const Eigen::VectorXd> & c, Eigen::Ref<Eigen::VectorXd> e) { e = o->f<double>(a, b, c); }, t, xv, u, s.dt_, xn);
      if(own)
      {
        x.check(k < (int)sim->log.size(), "run-short", "only " + std::to_string(sim->log.size()) + " of " + std::to_string(n + 1) + " simulation steps"); auto & g = sim->log[k];
        x.check(std::abs(g.t - t) <= 1e-9 * (1 + t) && g.dt == s.dt_, "run-time", "simulation step " + std::to_string(k) + " at time " + ds(g.t) + " with dt " + ds(g.dt));
        x.checkf((g.x - xv).norm() <= 1e-7 * (1 + xv.norm()), "run-state", [&] { return "simulation step " + std::to_string(k) + " starts from " + vs(g.x) + " instead of " + vs(xv); });
        x.checkf((g.u - u).norm() <= 1e-6 * (1 + u.norm()), "run-input", [&] { return "simulation step " + std::to_string(k) + " applies " + vs(g.u) + " instead of the latest control " + vs(u); });
        x.count("sim_steps");
      }
      Vec un(o->nu); m.calcControlInput(t, xv, xn, un); Mat F = m.DhDu_list_; xv = xn; u = un; X.push_back(xv); U.push_back(u); E.push_back(F.norm()); TT.push_back(t);
    }
    if(own) x.check((int)sim->log.size() == n + 1, "run-long", std::to_string(sim->log.size()) + " simulation steps instead of " + std::to_string(n + 1));
    if(!xv.allFinite() || xv.norm() > 1e3) { x.count("diverged"); return; }
    x.check((s.x_ - xv).norm() <= 1e-7 * (1 + xv.norm()), "final-state", "final state " + vs(s.x_) + " instead of " + vs(xv)); x.check((s.u_ - u).norm() <= 1e-6 * (1 + u.norm()), "final-input", "final control " + vs(s.u_) + " instead of " + vs(u));
    auto tx = table(x, "/tmp/cgmres_x.dat", 1 + o->nx), tu = table(x, "/tmp/cgmres_u.dat", 1 + o->nu), te = table(x, "/tmp/cgmres_err.dat", 2);
    size_t want = n / s.dump_step_ + 1;
    x.check(tx.size() == want && tu.size() == want && te.size() == want, "file-lines", std::to_string(tx.size()) + "/" + std::to_string(tu.size()) + "/" + std::to_string(te.size()) + " lines instead of " + std::to_string(want));
    auto cl = [](double a, double b, double m) { return std::abs(a - b) <= 1e-5 * std::max(std::abs(a), std::abs(b)) + m; };
    for(size_t i = 0; i < want; i++)
    {
      int k = i * s.dump_step_; for(auto * p : {&tx, &tu, &te}) x.check(cl((*p)[i][0], TT[k], 1e-12), "file-time", "line " + std::to_string(i) + " has time " + ds((*p)[i][0]) + " instead of " + ds(TT[k]));
      for(int j = 0; j < o->nx; j++) x.check(cl(tx[i][1 + j], X[k][j], 1e-6 * (1 + X[k].norm())), "file-state", "line " + std::to_string(i) + " has state component " + ds(tx[i][1 + j]) + " instead of " + ds(X[k][j]));
      for(int j = 0; j < o->nu; j++) x.check(cl(tu[i][1 + j], U[k][j], 1e-6 * (1 + U[k].norm())), "file-input", "line " + std::to_string(i) + " has control component " + ds(tu[i][1 + j]) + " instead of " + ds(U[k][j]));
      x.check(cl(te[i][1], E[k], 1e-6 * (1 + E[0])), "file-error", "line " + std::to_string(i) + " has error " + ds(te[i][1]) + " instead of " + ds(E[k])); x.count("file_lines");
    }
    auto par = readLines("/tmp/cgmres_param.dat"); std::string all; for(auto & l : par) all += l; x.check(all.find("stale") == std::string::npos && all.find("log_dt") != std::string::npos && all.find("state_eq_param") != std::string::npos, "file-param", "parameter file: " + all.substr(0, 200));
    size_t c = all.find("log_dt\":"); double ld = std::strtod(all.c_str() + c + 8, nullptr); x.check(cl(ld, s.dt_ * s.dump_step_, 0), "file-log-dt", "log_dt is " + ds(ld) + " instead of " + ds(s.dt_ * s.dump_step_));
    if(q) x.count("repeated_runs"); if(!own) x.count("shared_integrator"); x.observed(hmat(xv));
  }
}
// ---- C17
static VecL flow(const std::function<VecL(LD, const VecL &)> & f, LD t, VecL x, LD dt, int n) { LD h = dt / n; for(int i = 0; i < n; i++) { LD a = t + i * h; VecL k1 = f(a, x), k2 = f(a + h / 2, x + h / 2 * k1), k3 = f(a + h / 2, x + h / 2 * k2), k4 = f(a + h, x + h * k3); x += h / 6 * (k1 + 2 * k2 + 2 * k3 + k4); } return x; }
static void c17(Ctx & x)
{
  Rng & r = x.rng; int n = r.chance(0.3) ? r.in(1, 3) : r.in(4, 8), m = r.in(0, 3); Mat A = r.mat(n, n, 0.6), B = r.mat(n, std::max(m, 1), 0.5), C = r.mat(n, n, 0.5); Vec w = r.vec(n), ph = r.vec(n); double om = r.uni(0.3, 2), nl = r.chance(0.2) ? 0 : r.uni(0.2, 1);
  Vec u = r.vec(m), x0 = r.vec(n); double t = r.chance(0.5) ? r.uni(-3, 3) : r.uni(-100, 100), dt = r.chance(0.06) ? 0 : r.logu(2e-2, 0.3) * (r.chance(0.35) ? -1 : 1);
  auto fl = [&](LD tt, const VecL & y) { VecL z = C.cast<LD>() * y, d = A.cast<LD>() * y; if(m) d += B.cast<LD>() * u.cast<LD>(); for(int i = 0; i < n; i++) d[i] += (LD)nl * std::sin(z[i] + (LD)ph[i]) * std::cos((LD)om * tt) + (LD)w[i] * std::sin((LD)om * tt + i); return d; };
  std::ostringstream d; d << "n=" << n << " m=" << m << " t=" << t << " dt=" << dt << " nl=" << nl; x.desc = d.str();
  EulerOdeSolver eu; RungeKuttaOdeSolver rk; bool alias = r.chance(0.4); long calls = 0;
  auto step = [&](OdeSolver & s, double h, bool al) {
    OdeSolver::StateEquation fe = [&](double tt, const Eigen::Ref<const Eigen::VectorXd> & y, const Eigen::Ref<const Eigen::VectorXd> & v, Eigen::Ref<Eigen::VectorXd> o) {
      x.check(v.size() == u.size() && (v - u).norm() == 0, "input-changed", "right-hand side evaluated with another input"); double lo = std::min(t, t + h), hi = std::max(t, t + h), e = 1e-12 * (1 + std::abs(t)); x.check(tt >= lo - e && tt <= hi + e, "time-range", "evaluated at " + ds(tt) + " outside [" + ds(lo) + "," + ds(hi) + "]"); x.check(y.size() == n && o.size() == n, "size", "state size"); o = fl(tt, Vec(y).cast<LD>()).cast<double>(); calls++; };
    Vec a = x0, ret = Vec::Constant(n, 1e77); if(al) { s.solve(fe, t, a, u, h, a); return a; } s.solve(fe, t, a, u, h, ret); x.check(a == x0, "state-changed", "input state was modified"); return ret; };
  Vec e1 = step(eu, dt, alias), e0 = step(eu, dt, !alias); Vec ex = x0 + dt * fl(t, x0.cast<LD>()).cast<double>();
  x.check((e1 - ex).norm() <= 1e-13 * (1 + ex.norm()) && (e0 - ex).norm() <= 1e-13 * (1 + ex.norm()), "euler", "Euler step " + vs(e1) + " instead of " + vs(ex));
  Vec k1 = step(rk, dt, alias), k0 = step(rk, dt, !alias); x.check((k1 - k0).norm() <= 1e-14 * (1 + k0.norm()), "alias", "result differs when output and input are the same vector");
  x.check(k0.allFinite(), "finite", "not finite");
  if(dt == 0) { x.check((k0 - x0).norm() <= 1e-15 * (1 + x0.norm()), "zero-step", "zero step moves the state"); x.count("zero_dt"); x.observed(hmat(x0)); return; }
  // order of the local error
  double er[4]; for(int i = 0; i < 4; i++) { double h = dt / (1 << i); Vec z = step(rk, h, false); VecL ref = flow(fl, t, x0.cast<LD>(), h, 60); er[i] = (z.cast<LD>() - ref).norm(); }
  double flr = 2e-14 * (1 + x0.norm()); bool good = false, any = false; for(int i = 0; i < 3; i++) if(er[i + 1] > 10 * flr) { any = true; double ord = std::log2(er[i] / er[i + 1]); if(ord > 4.3) good = true; } 
  if(n >= 4 && er[0] > 20 * flr && any) { x.checkf(good, "order", [&] { return "local errors for dt, dt/2, dt/4, dt/8: " + ds(er[0]) + " " + ds(er[1]) + " " + ds(er[2]) + " " + ds(er[3]); }); x.count("order_checked"); x.maxi("rk_error_over_dt5", er[0] / std::pow(std::abs(dt), 5)); }
  else x.count("below_rounding");
  // exactness on polynomials in time up to degree three
  { double c[4]; for(double & v : c) v = r.n(); double T = r.uni(-2, 2), h = r.uni(-1, 1); auto P = [&](double s) { return c[0] + s * (c[1] + s * (c[2] + s * c[3])); }; auto I = [&](double s) { return s * (c[0] + s * (c[1] / 2 + s * (c[2] / 3 + s * c[3] / 4))); }; Vec a = Vec::Zero(1), o(1), v(0); rk.solve([&](double s, const Eigen::Ref<const Eigen::VectorXd> &, const Eigen::Ref<const Eigen::VectorXd> &, Eigen::Ref<Eigen::VectorXd> q) { q[0] = P(s); }, T, a, v, h, o); x.check(std::abs(o[0] - (I(T + h) - I(T))) <= 1e-12 * 30, "quadrature", "cubic polynomial integrated to " + ds(o[0]) + " instead of " + ds(I(T + h) - I(T))); }
  // linear system: fourth-order Taylor polynomial of the matrix exponential
  { Mat M = dt * A, E = Mat::Identity(n, n) + M + M * M / 2 + M * M * M / 6 + M * M * M * M / 24; Vec o(n), v(0); rk.solve([&](double, const Eigen::Ref<const Eigen::VectorXd> & y, const Eigen::Ref<const Eigen::VectorXd> &, Eigen::Ref<Eigen::VectorXd> q) { q = A * y; }, t, x0, v, dt, o); x.check((o - E * x0).norm() <= 1e-13 * (1 + x0.norm()) * std::exp(M.norm()), "linear", "linear system step"); }
  if(dt < 0) x.count("negative_dt"); if(alias) x.count("aliased"); x.count("rhs_calls", calls); x.observed(hmat(k0));
}
// ---- C18
static void c18(Ctx & x)
{
  Rng & r = x.rng;
  if(r.chance(0.5))
  {
    Gmres g; int k = r.in(1, 5); for(int i = 0; i < k; i++) { Lin p = genLin(x); g.make_triangular_ = r.chance(0.5); g.apply_reorth_ = r.chance(0.5); Vec y = p.x0; if(r.chance(0.1)) p.b[0] = std::nan(""); g.solve(RM(p.A), p.b, y, p.kmax, p.eps); }
    Lin l = genLin(x); Gmres f; g.make_triangular_ = f.make_triangular_ = r.chance(0.5); g.apply_reorth_ = f.apply_reorth_ = r.chance(0.5); Vec a = l.x0, b = l.x0; g.solve(RM(l.A), l.b, a, l.kmax, l.eps); f.solve(RM(l.A), l.b, b, l.kmax, l.eps);
    x.check(((a - b).array() == 0).all() || (a - b).norm() <= 1e-12 * b.norm(), "gmres-history", "GMRES on a reused object differs from a fresh one"); x.check(g.err_list_.size() == f.err_list_.size(), "gmres-history", "residual history differs"); for(size_t i = 0; i < f.err_list_.size(); i++) x.check(std::abs(g.err_list_[i] - f.err_list_[i]) <= 1e-12 * f.err_list_[0], "gmres-history", "residual history differs");
    x.count("gmres_compared"); x.observed(hmat(b)); return;
  }
  auto o = genCg(r, r.uni(0, 0.3), r.uni(0, 0.3), 0, true); auto ode = std::make_shared<EulerOdeSolver>(); CgmresSolver s(o, ode); int k = r.in(1, 4);
  Vec xi = o->x_initial_, ui = o->u_initial_;
  for(int i = 0; i < k; i++) { randParam(r, s); if(r.chance(0.3)) o->x_initial_ = r.vec(o->nx); Capture cap; s.setup(); Vec xv = o->x_initial_; double t = r.uni(0, 2); for(int q = r.in(0, 4); q > 0; q--) { Vec xn = xv + r.vec(o->nx, 0.02), u(o->nu); s.calcControlInput(t, xv, xn, u); t += s.dt_; xv = xn; } cap.stop(); }
  o->x_initial_ = xi; o->u_initial_ = ui; randParam(r, s); CgmresSolver f(o, ode); f.steady_horizon_duration_ = s.steady_horizon_duration_; f.horizon_divide_num_ = s.horizon_divide_num_; f.horizon_increase_ratio_ = s.horizon_increase_ratio_; f.dt_ = s.dt_; f.finite_diff_delta_ = s.finite_diff_delta_; f.eq_zeta_ = s.eq_zeta_; f.k_max_ = s.k_max_;
  { Capture cap; s.setup(); f.setup(); cap.stop(); }
  x.desc = "setup " + vs(s.u_list_) + " vs fresh " + vs(f.u_list_) + " params " + ds(s.finite_diff_delta_) + " nl=" + ds(o->nl) + " cn=" + ds(o->cn);
  if(!f.u_list_.allFinite()) { x.check(!s.u_list_.allFinite(), "cgmres-history", "setup result differs from a fresh solver"); x.count("setup_not_finite"); return; }
  x.check((s.u_list_ - f.u_list_).norm() <= 1e-12 * (1 + f.u_list_.norm()) && s.u_list_.cols() == f.u_list_.cols(), "cgmres-history", "input sequence after setup differs from a fresh solver"); x.check((s.x_ - f.x_).norm() == 0 && (s.u_ - f.u_).norm() <= 1e-12 * (1 + f.u_.norm()), "cgmres-history", "state or input after setup differs");
  Vec xv = xi; double t = 0; for(int q = 0; q < 4; q++) { Vec xn = xv + r.vec(o->nx, 0.02), a(o->nu), b(o->nu); s.calcControlInput(t, xv, xn, a); f.calcControlInput(t, xv, xn, b); x.check(!b.allFinite() || (a - b).norm() <= 1e-11 * (1 + b.norm()) && (s.u_list_ - f.u_list_).norm() <= 1e-11 * (1 + f.u_list_.norm()), "cgmres-history", "control update " + std::to_string(q) + " after earlier use and new setup differs from a fresh solver"); if(!b.allFinite()) break; t += s.dt_; xv = xn; }
  x.count("cgmres_compared"); x.observed(hmat(f.u_list_));
}
// ---- C30
static void c30(Ctx & x)
{
  Rng & r = x.rng; auto o = genCg(r, r.uni(0, 0.3), r.uni(0, 0.3), r.chance(0.3) ? 0.2 : 0, true); bool rk = r.chance(0.4);
  std::shared_ptr<OdeSolver> ode; if(rk) ode = std::make_shared<RungeKuttaOdeSolver>(); else ode = std::make_shared<EulerOdeSolver>();
  CgmresSolver s(o, ode); randParam(r, s); if(r.chance(0.2)) s.k_max_ = r.in(10, 60); long N = s.horizon_divide_num_, per = rk ? 4 : 1; { Capture cap; s.setup(); cap.stop(); } if(!s.u_list_.allFinite()) { x.count("setup_not_finite"); return; }
  std::ostringstream d; d << "nx=" << o->nx << " nu=" << o->nu << " N=" << N << " kmax=" << s.k_max_ << " rk=" << rk; x.desc = d.str(); Vec xv = o->x_initial_; double t = r.uni(0, 2);
  for(int q = 0; q < 3; q++)
  {
    Vec xn = xv + s.dt_ * o->f<double>(t, xv, Vec(s.u_list_.col(0))), u(o->nu); o->rec = true; o->calls.clear(); s.calcControlInput(t, xv, xn, u); o->rec = false; long c[4] = {0, 0, 0, 0}; for(auto & e : o->calls) c[e.k]++;
    long res = s.k_max_ + 3, lim[4] = {res * N * per, res * N * per, res, res * N}; static const char * nm[] = {"stateEquation", "costateEquation", "calcDphiDx", "calcDhDu"};
    for(int k = 0; k < 4; k++) x.check(c[k] <= lim[k], "calls", std::string(nm[k]) + " was called " + std::to_string(c[k]) + " times in one update instead of at most " + std::to_string(lim[k]));
    x.count("cg_updates"); x.count("cg_residuals", c[2]); x.maxi("residuals_over_limit", (double)c[2] / res); if(c[2] < res) x.count("cg_early"); if(!u.allFinite()) return; xv = xn; t += s.dt_; x.observed(hmat(u));
  }
}
// ---- C37
static void c37(Ctx & x)
{
  Rng & r = x.rng; Lin l = genLin(x); Gmres g, f; g.make_triangular_ = f.make_triangular_ = r.chance(0.5); g.apply_reorth_ = f.apply_reorth_ = r.chance(0.5); Vec a = l.x0, b = l.x0; g.solve(RM(l.A), l.b, a, l.kmax, l.eps);
  int ka = r.in(-40, 40), kb = r.in(-40, 40); double ua = std::ldexp(1.0, ka), ub = std::ldexp(1.0, kb); b *= ub / ua; f.solve(RM(ua * l.A), Vec(ub * l.b), b, l.kmax, l.eps); b *= ua / ub; if(!a.allFinite()) { x.count("gmres_not_finite"); return; }
  std::string w = " (matrix unit 2^" + std::to_string(ka) + ", right-hand side unit 2^" + std::to_string(kb) + ")"; x.check(g.err_list_.size() == f.err_list_.size(), "gmres-units", std::to_string(g.err_list_.size()) + " iterations become " + std::to_string(f.err_list_.size()) + " in other units" + w);
  x.check((a - b).norm() <= 1e-10 * a.norm(), "gmres-units-solution", "the solution differs by " + ds((a - b).norm()) + " of " + ds(a.norm()) + " in other units" + w); x.count("gmres_units"); x.observed(hmat(a));
}
int main(int argc, char ** argv)
{
  return runMain(argc, argv, {
    {"C13", 200000, 3000000, c13, {"early_stop", "truncated", "limit_above_n", "zero_rhs", "no_iteration", "givens", "qr", "reorth", "no_reorth", "converged_before_n"}},
    {"C14", 100000, 750000, c14, {"gradients", "zero_horizon", "time_varying", "callbacks"}},
    {"C15", 35000, 375000, c15, {"setups", "decays", "krylov_limited", "decay_own_delta", "decay_growing_horizon", "nonlinear_updates"}},
    {"C16", 8000, 120000, c16, {"sim_steps", "file_lines", "repeated_runs", "shared_integrator", "exact_duration"}},
    {"C17", 30000, 1000000, c17, {"order_checked", "zero_dt", "negative_dt", "aliased", "rhs_calls"}},
    {"C18", 45000, 450000, c18, {"gmres_compared", "cgmres_compared"}},
    {"C37", 60000, 900000, c37, {"gmres_units"}},
    {"C30", 20000, 150000, c30, {"cg_updates", "cg_residuals", "cg_early"}},
  });
}
