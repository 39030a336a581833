// C24: closed-loop benchmarks (own copies of the benchmark systems; the plant is integrated outside the solvers).
#include "capture.h"
#include <nmpc_cgmres/CgmresSolver.h>
#include <nmpc_ddp/DDPSolver.h>
#include <nmpc_fmpc/FmpcSolver.h>
using Eigen::Ref;
static const double G = 9.80665;

template<int NX>
struct LoopDdp : nmpc_ddp::DDPProblem<NX, 1>
{
  using B = nmpc_ddp::DDPProblem<NX, 1>; using X = typename B::StateDimVector; using U = typename B::InputDimVector; using XX = typename B::StateStateDimMatrix; using XU = typename B::StateInputDimMatrix; using UU = typename B::InputInputDimMatrix;
  X wx, wt; double wu = 1e-2; std::function<double(double)> ref;
  LoopDdp(double dt) : B(dt) {}
  virtual X xdot(const X & x, double f) const = 0;
  virtual void jac(const X & x, double f, XX & a, X & b) const = 0;
  X err(double t, const X & x) const { X e = x; e[0] -= ref(t); return e; }
  X stateEq(double, const X & x, const U & u) const override { return x + this->dt_ * xdot(x, u[0]); }
  double runningCost(double t, const X & x, const U & u) const override { return 0.5 * wx.dot(err(t, x).cwiseAbs2()) + 0.5 * wu * u[0] * u[0]; }
  double terminalCost(double t, const X & x) const override { return 0.5 * wt.dot(err(t, x).cwiseAbs2()); }
  void calcStateEqDeriv(double, const X & x, const U & u, Ref<XX> a, Ref<XU> b) const override { XX A; X Bv; jac(x, u[0], A, Bv); a = XX::Identity() + this->dt_ * A; b = this->dt_ * Bv; }
  void calcStateEqDeriv(double, const X &, const U &, Ref<XX>, Ref<XU>, std::vector<XX> &, std::vector<UU> &, std::vector<XU> &) const override { throw std::runtime_error("not used"); }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Ref<X> lx, Ref<U> lu) const override { lx = wx.cwiseProduct(err(t, x)); lu = wu * u; }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Ref<X> lx, Ref<U> lu, Ref<XX> lxx, Ref<UU> luu, Ref<XU> lxu) const override { calcRunningCostDeriv(t, x, u, lx, lu); lxx = wx.asDiagonal(); luu(0, 0) = wu; lxu.setZero(); }
  void calcTerminalCostDeriv(double t, const X & x, Ref<X> lx) const override { lx = wt.cwiseProduct(err(t, x)); }
  void calcTerminalCostDeriv(double t, const X & x, Ref<X> lx, Ref<XX> lxx) const override { lx = wt.cwiseProduct(err(t, x)); lxx = wt.asDiagonal(); }
};
struct CartPole : LoopDdp<4>
{
  double m1 = 1, m2 = 0.5, l = 2;
  using LoopDdp<4>::LoopDdp;
  X xdot(const X & x, double f) const override
  {
    double s = std::sin(x[1]), c = std::cos(x[1]), w = x[3], d = m1 + m2 * s * s; X r;
    r << x[2], w, (f - m2 * l * w * w * s + m2 * G * s * c) / d, (f * c - m2 * l * w * w * s * c + G * (m1 + m2) * s) / (l * d); return r;
  }
  void jac(const X & x, double f, XX & A, X & b) const override
  {
    double s = std::sin(x[1]), c = std::cos(x[1]), w = x[3], d = m1 + m2 * s * s, dd = 2 * m2 * s * c;
    double n2 = f - m2 * l * w * w * s + m2 * G * s * c, n3 = f * c - m2 * l * w * w * s * c + G * (m1 + m2) * s;
    double n2t = -m2 * l * w * w * c + m2 * G * (c * c - s * s), n3t = -f * s - m2 * l * w * w * (c * c - s * s) + G * (m1 + m2) * c;
    A.setZero(); A(0, 2) = 1; A(1, 3) = 1; A(2, 1) = (n2t * d - n2 * dd) / (d * d); A(2, 3) = -2 * m2 * l * w * s / d; A(3, 1) = (n3t * d - n3 * dd) / (l * d * d); A(3, 3) = -2 * m2 * l * w * s * c / (l * d);
    b << 0, 0, 1 / d, c / (l * d);
  }
};
struct DoubleInt : LoopDdp<2>
{
  using LoopDdp<2>::LoopDdp;
  X xdot(const X & x, double f) const override { return X(x[1], f); }
  void jac(const X &, double, XX & A, X & b) const override { A << 0, 1, 0, 0; b << 0, 1; }
};
template<int NX, class P>
static void ddpLoop(Ctx & x, P & proto, typename P::X xv, bool lim, double fmax, double T, int N, int maxIter, double tol, const std::function<double(double)> & ref, bool dist, const char * name)
{
  auto p = std::make_shared<P>(proto); p->ref = ref; double dt = p->dt();
  nmpc_ddp::DDPSolver<NX, 1> s(p); s.config().print_level = 0; s.config().horizon_steps = N; s.config().max_iter = 50; s.config().with_input_constraint = lim; s.config().initial_lambda = 1e-6;
  s.setInputLimitsFunc([=](double) { std::array<typename P::U, 2> a; a[0].setConstant(-fmax); a[1].setConstant(fmax); return a; });
  std::vector<typename P::U> u(N, P::U::Zero()); double t = x.rng.chance(0.5) ? 0 : x.rng.uni(0, 50), t0 = t; long n = 0; double fm = 0; auto xi = xv; int nd = x.rng.in(20, 60);
  while(t - t0 < T)
  {
    s.solve(t, xv, u); s.config().max_iter = maxIter;
    double f = s.controlData().u_list[0][0]; fm = std::max(fm, std::abs(f));
    x.check(std::isfinite(f), "not-finite", std::string(name) + ": input not finite");
    if(lim) x.check(std::abs(f) <= fmax, "limit", std::string(name) + ": applied input " + ds(f) + " exceeds the limit " + ds(fmax) + " at t=" + ds(t));
    u = s.controlData().u_list; u.erase(u.begin()); u.push_back(u.back());
    if(dist && n == nd) xv += 0.05 * typename P::X(x.rng.vec(NX));
    int sub = 4; for(int i = 0; i < sub; i++) xv += dt / sub * p->xdot(xv, f); // plant: finer integration than the model
    t += dt; n++;
    x.checkf(xv.allFinite() && xv.norm() < 1e3, "diverged", [&] { return std::string(name) + " diverged from " + vs(xi) + " at t=" + ds(t - t0); });
  }
  auto e = p->err(t, xv); x.maxi(std::string(name) + "_final_error", e.norm());
  x.checkf(e.norm() <= tol, "not-regulated", [&] { return std::string(name) + ": distance to target " + ds(e.norm()) + " after " + ds(T) + " s from " + vs(xi) + " (final " + vs(xv) + ")"; });
  if(lim && fm >= fmax * 0.999) x.count(std::string(name) + "_saturated"); x.count("control_steps", n); x.count(name); x.observed(hmat(xv));
}
// vertical motion with varying number of contacts (inputs)
struct Vertical : nmpc_ddp::DDPProblem<2, Eigen::Dynamic>
{
  using B = DDPProblem<2, Eigen::Dynamic>; using X = StateDimVector; using U = InputDimVector; using XX = StateStateDimMatrix; using XU = StateInputDimMatrix; using UU = InputInputDimMatrix;
  std::function<double(double)> ref; std::function<int(double)> dim; X w{1.0, 1e-3}; double wu = 1e-4;
  Vertical(double dt) : B(dt) {}
  using B::inputDim;
  int inputDim(double t) const override { return dim(t); }
  X err(double t, const X & x) const { return X(x[0] - ref(t), x[1]); }
  X stateEq(double, const X & x, const U & u) const override { return x + dt_ * X(x[1], u.sum() - G); }
  double runningCost(double t, const X & x, const U & u) const override { return 0.5 * w.dot(err(t, x).cwiseAbs2()) + 0.5 * wu * u.squaredNorm(); }
  double terminalCost(double t, const X & x) const override { return 0.5 * w.dot(err(t, x).cwiseAbs2()); }
  void calcStateEqDeriv(double, const X &, const U &, Ref<XX> a, Ref<XU> b) const override { a << 1, dt_, 0, 1; b.row(0).setZero(); b.row(1).setConstant(dt_); }
  void calcStateEqDeriv(double, const X &, const U &, Ref<XX>, Ref<XU>, std::vector<XX> &, std::vector<UU> &, std::vector<XU> &) const override { throw std::runtime_error("not used"); }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Ref<X> lx, Ref<U> lu) const override { lx = w.cwiseProduct(err(t, x)); lu = wu * u; }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Ref<X> lx, Ref<U> lu, Ref<XX> lxx, Ref<UU> luu, Ref<XU> lxu) const override { calcRunningCostDeriv(t, x, u, lx, lu); lxx = w.asDiagonal(); luu.setIdentity(); luu *= wu; lxu.setZero(); }
  void calcTerminalCostDeriv(double t, const X & x, Ref<X> lx) const override { lx = w.cwiseProduct(err(t, x)); }
  void calcTerminalCostDeriv(double t, const X & x, Ref<X> lx, Ref<XX> lxx) const override { lx = w.cwiseProduct(err(t, x)); lxx = w.asDiagonal(); }
};
static void vertical(Ctx & x)
{
  Rng & r = x.rng; double dt = 0.02; auto p = std::make_shared<Vertical>(dt); double a = r.uni(0.5, 1.5), b = r.uni(-0.5, 1), ts = r.uni(2, 3.5), t2 = r.uni(1, 2), e2 = t2 + r.uni(0.3, 1), t0_ = r.uni(4, 4.5), e0 = t0_ + r.uni(0.05, 0.3);
  p->ref = [=](double t) { return t + 1e-6 < ts ? a : b; }; p->dim = [=](double t) { t += 1e-6; return t2 < t && t < e2 ? 2 : t0_ < t && t < e0 ? 0 : 1; };
  bool lim = r.chance(0.6); int N = 100; nmpc_ddp::DDPSolver<2, Eigen::Dynamic> s(p); s.config().print_level = 0; s.config().horizon_steps = N; s.config().with_input_constraint = lim; s.config().initial_lambda = 1e-6;
  s.setInputLimitsFunc([&](double t) { std::array<Vec, 2> l; l[0] = Vec::Zero(p->inputDim(t)); l[1] = Vec::Constant(p->inputDim(t), 30); return l; });
  Vertical::X xv(a + r.uni(-0.4, 0.4), r.uni(-0.5, 0.5)), xi = xv; double t = 0; std::vector<Vec> u; for(int i = 0; i < N; i++) u.push_back(Vec::Zero(p->inputDim(i * dt))); long n = 0; double worst = 0;
  std::ostringstream d; d << "vertical lim=" << lim << " x0=" << vs(xv) << " refs " << a << "," << b << " at " << ts << " two inputs [" << t2 << "," << e2 << "] none [" << t0_ << "," << e0 << "]"; x.desc = d.str();
  while(n < 400)
  {
    t = n * dt; s.solve(t, xv, u); s.config().max_iter = 3; Vec f = s.controlData().u_list[0]; x.check(f.size() == p->inputDim(t), "input-size", "input of size " + std::to_string(f.size()) + " at t=" + ds(t)); x.check(f.allFinite(), "not-finite", "input not finite");
    if(lim) for(int j = 0; j < f.size(); j++) x.check(f[j] >= 0 && f[j] <= 30, "limit", "applied force " + ds(f[j]) + " outside [0,30] at t=" + ds(t));
    if(std::abs(t - (ts - 0.0)) > 1.2 && t > 1.2 && t < 4.0) worst = std::max(worst, std::abs(xv[0] - p->ref(t)));
    xv = p->stateEq(t, xv, f); u = s.controlData().u_list; u.erase(u.begin()); double te = (n + N + 1 - 1 + 1) * dt; (void)te; double tn = (n + 1 + N - 1) * dt; int dn = p->inputDim(tn); u.push_back(u.back().size() == dn ? u.back() : Vec(Vec::Zero(dn))); n++;
  }
  double e = p->err(t, xv).norm(); x.maxi("vertical_final_error", e); x.check(e <= 0.02, "not-regulated", "vertical motion: distance to target " + ds(e) + " at the end"); x.count("vertical"); x.count("control_steps", n); x.observed(hmat(xv));
}
struct VdP : nmpc_fmpc::FmpcProblem<2, 1, 3>
{
  using B = FmpcProblem<2, 1, 3>; using X = StateDimVector; using U = InputDimVector; double xmin = -0.05, lo = -1, up = 0.9;
  VdP(double dt) : B(dt) {}
  X xdot(const X & x, double u) const { return X((1 - x[1] * x[1]) * x[0] - x[1] + u, x[0]); }
  X stateEq(double, const X & x, const U & u) const override { return x + dt_ * xdot(x, u[0]); }
  double runningCost(double, const X & x, const U & u) const override { return 0.5 * (x.squaredNorm() + u.squaredNorm()); }
  double terminalCost(double, const X &) const override { return 0; }
  IneqDimVector ineqConst(double, const X & x, const U & u) const override { return IneqDimVector(xmin - x[1], lo - u[0], u[0] - up); }
  void calcStateEqDeriv(double, const X & x, const U &, Ref<StateStateDimMatrix> a, Ref<StateInputDimMatrix> b) const override { a << 1 + dt_ * (1 - x[1] * x[1]), dt_ * (-2 * x[0] * x[1] - 1), dt_, 1; b << dt_, 0; }
  void calcRunningCostDeriv(double, const X & x, const U & u, Ref<X> lx, Ref<U> lu) const override { lx = x; lu = u; }
  void calcRunningCostDeriv(double, const X & x, const U & u, Ref<X> lx, Ref<U> lu, Ref<StateStateDimMatrix> lxx, Ref<InputInputDimMatrix> luu, Ref<StateInputDimMatrix> lxu) const override { lx = x; lu = u; lxx.setIdentity(); luu.setIdentity(); lxu.setZero(); }
  void calcTerminalCostDeriv(double, const X &, Ref<X> lx) const override { lx.setZero(); }
  void calcTerminalCostDeriv(double, const X &, Ref<X> lx, Ref<StateStateDimMatrix> lxx) const override { lx.setZero(); lxx.setZero(); }
  void calcIneqConstDeriv(double, const X &, const U &, Ref<IneqStateDimMatrix> c, Ref<IneqInputDimMatrix> d) const override { c.setZero(); c(0, 1) = -1; d << 0, -1, 1; }
};
static void vdp(Ctx & x)
{
  Rng & r = x.rng; double dt = 0.02, sdt = 0.01; int N = 200; auto p = std::make_shared<VdP>(dt); p->up = r.uni(0.8, 1.2); p->lo = -r.uni(0.8, 1.2);
  nmpc_fmpc::FmpcSolver<2, 1, 3> s(p); s.config().print_level = 0; s.config().horizon_steps = N; s.config().max_iter = 20; s.config().init_complementary_variable = r.chance(0.3);
  nmpc_fmpc::FmpcSolver<2, 1, 3>::Variable v(N); v.reset(0.0, 0.0, 0.0, 1e0, 1e0); VdP::X xv(r.uni(-0.2, 0.5), r.uni(0.0, 1.0)), xi = xv; double t = 0, worst = -1, act = 0; long n = 0;
  std::ostringstream d; d << "oscillator x0=" << vs(xv) << " u in [" << p->lo << "," << p->up << "]"; x.desc = d.str();
  using S = nmpc_fmpc::FmpcSolver<2, 1, 3>;
  while(n < 1000)
  {
    auto st = s.solve(t, xv, v); s.config().max_iter = 3; s.config().init_complementary_variable = false;
    x.check(st == S::Status::Succeeded || st == S::Status::MaxIterationReached, "status", "status " + std::to_string((int)st) + " at t=" + ds(t) + " x=" + vs(xv));
    VdP::U u = s.variable().u_list[0]; x.check(u.allFinite(), "not-finite", "input not finite"); auto g = p->ineqConst(t, xv, u); worst = std::max(worst, g.maxCoeff());
    x.checkf(g[1] <= 1e-6 && g[2] <= 1e-6, "input-limit", [&] { return "applied input " + ds(u[0]) + " violates its limits at t=" + ds(t); });
    x.checkf(g[0] <= 1e-3, "state-constraint", [&] { return "state constraint violated by " + ds(g[0]) + " at t=" + ds(t); });
    if(g.maxCoeff() > -1e-2) act++;
    for(int i = 0; i < 2; i++) xv += sdt / 2 * p->xdot(xv, u[0]); t += sdt; v = s.variable(); n++;
    x.check(xv.allFinite() && xv.norm() < 100, "diverged", "oscillator diverged");
  }
  x.maxi("oscillator_final_error", xv.norm()); x.maxi("oscillator_worst_constraint", worst); x.check(xv.norm() <= 1e-2, "not-regulated", "oscillator: distance to target " + ds(xv.norm()) + " after 10 s");
  if(act) x.count("oscillator_active_steps", act); x.count("oscillator"); x.count("control_steps", n); x.observed(hmat(xv));
}
using CR = const Eigen::Ref<const Eigen::VectorXd> &;
struct Damper : nmpc_cgmres::CgmresProblem
{
  Damper(double x1, double x2) { dim_x_ = 2; dim_u_ = 2; dim_c_ = 1; dim_uc_ = 3; x_initial_ = Eigen::Vector2d(x1, x2); u_initial_ = Eigen::Vector3d(0.01, 0.9, 0.03); state_eq_param_ = Eigen::Vector3d(-1, -1, 1); }
  void stateEquation(double, CR x, CR u, Ref<Vec> d) override { d[0] = x[1]; d[1] = -x[0] - x[1] * u[0]; }
  void costateEquation(double, CR l, CR xu, Ref<Vec> d) override { d[0] = l[1] - xu[0]; d[1] = l[1] * xu[2] - 10 * xu[1] - l[0]; }
  void calcDphiDx(double, CR x, Ref<Vec> d) override { d[0] = x[0]; d[1] = 10 * x[1]; }
  void calcDhDu(double, CR x, CR u, CR l, Ref<Vec> d) override { double mu = u[2]; d[0] = u[0] - l[1] * x[1] + mu * (2 * u[0] - 1); d[1] = -0.1 + 2 * mu * u[1]; d[2] = std::pow(u[0] - 0.5, 2) + u[1] * u[1] - 0.25; }
};
struct CgCart : nmpc_cgmres::CgmresProblem
{
  bool bound; double fmax = 100; CartPole c{1.0};
  CgCart(const Eigen::Vector4d & x0, bool b) : bound(b) { c.m1 = c.m2 = c.l = 1; dim_x_ = 4; dim_u_ = b ? 2 : 1; dim_c_ = b; dim_uc_ = b ? 3 : 1; u_initial_ = Vec::Zero(dim_uc_); if(b) { u_initial_[1] = 1; u_initial_[2] = 0.01; } x_initial_ = x0; state_eq_param_ = Vec::Ones(4); }
  void stateEquation(double, CR x, CR u, Ref<Vec> d) override { d = c.xdot(x, u[0]); }
  void costateEquation(double, CR l, CR xu, Ref<Vec> d) override { CartPole::XX A; CartPole::X b; c.jac(xu.head(4), xu[4], A, b); Eigen::Vector4d w(10, 100, 10, 10); d = -(w.cwiseProduct(xu.head<4>()) + A.transpose() * l); }
  void calcDphiDx(double, CR x, Ref<Vec> d) override { Eigen::Vector4d w(100, 300, 50, 50); d = w.cwiseProduct(x.head<4>()); }
  void calcDhDu(double, CR x, CR u, CR l, Ref<Vec> d) override { CartPole::XX A; CartPole::X b; c.jac(x, u[0], A, b); d[0] = 10 * u[0] + b.dot(l); if(bound) { d[0] += 2 * u[2] * u[0]; d[1] = -0.01 + 2 * u[2] * u[1]; d[2] = u[0] * u[0] + u[1] * u[1] - fmax * fmax; } }
};
static void cgLoop(Ctx & x, std::shared_ptr<nmpc_cgmres::CgmresProblem> p, const std::function<double(const Vec &)> & viol, double T, double tol, const char * name)
{
  using namespace nmpc_cgmres; CgmresSolver s(p, std::make_shared<EulerOdeSolver>(), std::make_shared<RungeKuttaOdeSolver>()); { Capture c; s.setup(); c.stop(); }
  Vec xv = p->x_initial_, u = s.u_; double worst = 0; int n = (int)std::round(T / s.dt_); RungeKuttaOdeSolver rk; x.desc = std::string(name) + " x0=" + vs(xv);
  for(int k = 0; k < n; k++)
  {
    Vec xn(xv.size()); rk.solve([&](double a, CR b, CR c, Ref<Vec> d) { p->stateEquation(a, b, c, d); }, k * s.dt_, xv, u, s.dt_, xn); s.calcControlInput(k * s.dt_, xv, xn, u); xv = xn; if(k > 100) worst = std::max(worst, viol(u));
    x.check(xv.allFinite() && u.allFinite() && xv.norm() < 1e3, "diverged", std::string(name) + " diverged at t=" + ds(k * s.dt_));
  }
  x.maxi(std::string(name) + "_final_error", xv.norm()); x.maxi(std::string(name) + "_input_violation", worst); x.check(worst <= 1e-2, "input-limit", std::string(name) + ": input limits violated by " + ds(worst));
  x.check(xv.norm() <= tol, "not-regulated", std::string(name) + ": final state " + vs(xv)); x.count(name); x.count("control_steps", n); x.observed(hmat(xv));
}
static void c24(Ctx & x)
{
  Rng & r = x.rng; int k = x.idx % 8; std::ostringstream d;
  if(k <= 1)
  {
    CartPole p(0.02); p.wx << 1, 1, 0.1, 0.1; p.wt << 10, 10, 1, 1; p.wu = 1e-2; bool lim = k == 0; bool up = r.chance(0.4); double tg = up ? 0 : r.uni(-1, 1); if(up) { p.wx << 0.1, 1, 0.01, 0.1; p.wt = p.wx; p.wu = 1e-3; }
    CartPole::X x0; if(up) x0 << r.uni(-0.3, 0.3), M_PI + r.uni(-0.3, 0.3), r.uni(-0.3, 0.3), r.uni(-0.3, 0.3); else x0 << r.uni(-1, 1), r.uni(-0.4, 0.4), r.uni(-0.5, 0.5), r.uni(-0.3, 0.3);
    d << "cart-pole lim=" << lim << " swing=" << up << " target=" << tg << " x0=" << vs(x0); x.desc = d.str(); if(up) x.count("cartpole_swing_up");
    ddpLoop<4>(x, p, x0, lim, 20, 12, 120, 5, 0.1, [=](double) { return tg; }, r.chance(0.5), "cartpole");
  }
  else if(k == 2)
  {
    DoubleInt p(0.05); p.wx << 1, 0.1; p.wt << 1, 1; p.wu = r.logu(1e-3, 1e-1); double tg = r.uni(-2, 2); DoubleInt::X x0(r.uni(-3, 3), r.uni(-1, 1)); double fm = r.uni(0.7, 2); bool lim = r.chance(0.8); d << "double integrator lim=" << lim << " fmax=" << fm << " target=" << tg << " x0=" << vs(x0); x.desc = d.str();
    ddpLoop<2>(x, p, x0, lim, fm, 20, 60, r.in(1, 5), 0.02, [=](double) { return tg; }, r.chance(0.5), "double_integrator");
  }
  else if(k == 3) vertical(x);
  else if(k <= 5) vdp(x);
  else if(k == 6) { cgLoop(x, std::make_shared<Damper>(r.uni(-2, 2), r.uni(-2, 2)), [](const Vec & u) { return std::max(-u[0], u[0] - 1); }, 20, 0.1, "damper"); }
  else { bool b = r.chance(0.6); bool hang = r.chance(0.5); Eigen::Vector4d x0(r.uni(-0.15, 0.15), (hang ? M_PI : 0) + r.uni(-0.1, 0.1), 0, r.uni(-0.1, 0.1)); x.count(hang ? "cgmres_swing_up" : "cgmres_upright"); cgLoop(x, std::make_shared<CgCart>(x0, b), [=](const Vec & u) { return b ? (std::abs(u[0]) - 100) / 100 : 0; }, 20, 0.1, "cgmres_cartpole"); }
}
int main(int argc, char ** argv)
{
  return runMain(argc, argv, {
    {"C24", 192, 4000, c24, {"cartpole", "cartpole_swing_up", "cartpole_saturated", "double_integrator", "double_integrator_saturated", "vertical", "oscillator", "oscillator_active_steps", "damper", "cgmres_cartpole"}},
  });
}
