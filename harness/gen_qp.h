#pragma once
#include "common.h"
#include <nmpc_ddp/BoxQP.h>
using MatL = Eigen::Matrix<long double, -1, -1>; using VecL = Eigen::Matrix<long double, -1, 1>;

struct QP { Mat H; Vec g, lo, up, x0; int n() const { return g.size(); } };
struct QTr { int iter; Vec x; double obj; Vec d; std::vector<bool> cl; int fac, steps; };
struct QOut { Vec x; int ret = 0; std::string str; std::vector<int> fr; bool hasL = false; Mat L; std::vector<QTr> tr; };
struct QCfg { int print = 0, max_iter = 500; double gthre = 1e-8, ithre = 1e-8, factor = 0.6, minstep = 1e-22, armijo = 0.1; };
struct IQ { virtual ~IQ() {} virtual void cfg(const QCfg &) = 0; virtual Vec solve(const QP &, bool guess) = 0; virtual QOut out() = 0; QOut run(const QP & q, bool guess = true) { Vec v = solve(q, guess); QOut o = out(); o.x = v; return o; } };
template<int N> struct QI : IQ
{
  nmpc_ddp::BoxQP<N> s; QI(int n) : s(n) { s.config().print_level = 0; }
  void cfg(const QCfg & c) override { auto & k = s.config(); k.print_level = c.print; k.max_iter = c.max_iter; k.grad_thre = c.gthre; k.rel_improve_thre = c.ithre; k.step_factor = c.factor; k.min_step = c.minstep; k.armijo_param = c.armijo; }
  Vec solve(const QP & q, bool guess) override { if(guess) return s.solve(q.H, q.g, q.lo, q.up, q.x0); return s.solve(q.H, q.g, q.lo, q.up); }
  QOut out() override
  {
    QOut o; o.ret = s.retval_; auto it = s.retstr_.find(s.retval_); if(it != s.retstr_.end()) o.str = it->second; o.fr = s.free_idxs_;
    if(s.llt_free_) { o.hasL = true; if(s.llt_free_->info() == Eigen::Success) o.L = s.llt_free_->reconstructedMatrix(); }
    for(auto & t : s.traceDataList()) { QTr q; q.iter = t.iter; q.x = t.x; q.obj = t.obj; q.d = t.search_dir; for(int i = 0; i < t.clamped_flag.size(); i++) q.cl.push_back(t.clamped_flag[i]); q.fac = t.factorization_num; q.steps = t.step_num; o.tr.push_back(q); }
    return o;
  }
};
static std::unique_ptr<IQ> mkQ(int n, bool dyn)
{
  if(!dyn) { if(n == 1) return std::make_unique<QI<1>>(1); if(n == 2) return std::make_unique<QI<2>>(2); if(n == 3) return std::make_unique<QI<3>>(3); if(n == 5) return std::make_unique<QI<5>>(5); }
  return std::make_unique<QI<-1>>(n);
}
static double obj(const QP & q, const Vec & x) { return x.dot(q.g) + 0.5 * x.dot(q.H * x); }
static double scale(const QP & q, const Vec & x) { return (q.g.cwiseAbs().dot(x.cwiseAbs())) + 0.5 * x.cwiseAbs().dot(q.H.cwiseAbs() * x.cwiseAbs()); }
static Vec clip(const QP & q, const Vec & x) { return x.cwiseMin(q.up).cwiseMax(q.lo); }
// exact reference: primal active-set method in long double (finite for strictly convex problems)
static Vec refQP(const QP & q, bool & ok)
{
  int n = q.n(); MatL H = q.H.cast<long double>(); VecL g = q.g.cast<long double>(), x = clip(q, Vec::Zero(n)).cast<long double>();
  std::vector<int> act(n, 0); // -1 lower, 1 upper, 0 free
  ok = false;
  for(int it = 0; it < 60 * n + 60; it++)
  {
    std::vector<int> f; for(int i = 0; i < n; i++) if(!act[i]) f.push_back(i);
    VecL gr = g + H * x; VecL d = VecL::Zero(n);
    if(!f.empty()) { MatL Hf(f.size(), f.size()); VecL gf(f.size()); for(size_t a = 0; a < f.size(); a++) { gf[a] = gr[f[a]]; for(size_t b = 0; b < f.size(); b++) Hf(a, b) = H(f[a], f[b]); } VecL df = -Hf.ldlt().solve(gf); for(size_t a = 0; a < f.size(); a++) d[f[a]] = df[a]; }
    long double al = 1; int hit = -1;
    for(int i : f)
    {
      if(d[i] < 0 && std::isfinite(q.lo[i]) && x[i] + d[i] < q.lo[i]) { long double a = (q.lo[i] - x[i]) / d[i]; if(a < al) { al = a; hit = i; } }
      if(d[i] > 0 && std::isfinite(q.up[i]) && x[i] + d[i] > q.up[i]) { long double a = (q.up[i] - x[i]) / d[i]; if(a < al) { al = a; hit = i; } }
    }
    x += al * d;
    if(hit >= 0) { act[hit] = d[hit] < 0 ? -1 : 1; x[hit] = act[hit] < 0 ? q.lo[hit] : q.up[hit]; continue; }
    gr = g + H * x; int rel = -1; long double worst = 0;
    for(int i = 0; i < n; i++) { if(act[i] == -1 && gr[i] < worst && q.lo[i] < q.up[i]) { worst = gr[i]; rel = i; } if(act[i] == 1 && -gr[i] < worst && q.lo[i] < q.up[i]) { worst = -gr[i]; rel = i; } }
    if(rel < 0) { ok = true; break; }
    act[rel] = 0;
  }
  return x.cast<double>();
}
static Mat randSpd(Rng & r, int n, double cond)
{
  Mat Q = Eigen::HouseholderQR<Mat>(r.mat(n, n)).householderQ(); Vec e(n);
  for(int i = 0; i < n; i++) e[i] = n == 1 ? 1 : std::exp(-std::log(cond) * (r.chance(0.7) ? r.u() : (double)i / (n - 1)));
  Mat H = Q * e.asDiagonal() * Q.transpose(); return 0.5 * (H + H.transpose());
}
static QP genQ(Ctx & x, int n, double maxCond)
{
  Rng & r = x.rng; QP q; double cond = r.logu(1, maxCond), hs = r.logu(1e-3, 1e3);
  q.H = hs * randSpd(r, n, cond);
  if(r.chance(0.15)) q.H = hs * Mat(Vec::NullaryExpr(n, [&](int) { return r.logu(1 / std::min(cond, 1e4), 1); }).asDiagonal());
  double xs = r.logu(1e-2, 1e2);
  Vec xc = r.vec(n, xs); q.g = -q.H * xc; // unconstrained minimiser xc
  if(r.chance(0.2)) q.g = r.vec(n, hs * xs);
  if(r.chance(0.05)) q.g.setZero();
  q.lo.resize(n); q.up.resize(n); const double I = std::numeric_limits<double>::infinity();
  int style = r.in(0, 6);
  for(int i = 0; i < n; i++)
  {
    double c = r.n() * xs, w = r.logu(1e-2, 3) * xs; q.lo[i] = c - w; q.up[i] = c + w;
    if(style == 1) { q.lo[i] = xc[i] + 0.1 * xs * std::abs(r.n()); q.up[i] = q.lo[i] + w; }      // all probably active
    if(style == 2) { q.lo[i] = -1e3 * xs; q.up[i] = 1e3 * xs; }                                // inactive
    if(style == 3 || r.chance(0.1)) { if(r.chance(0.5)) q.lo[i] = -I; if(r.chance(0.5)) q.up[i] = I; }
    if(style == 4 && r.chance(0.4) && std::isfinite(q.lo[i])) q.up[i] = q.lo[i];                                           // coinciding
    if(style == 5) { q.lo[i] = -I; q.up[i] = I; }
    if(style == 6 && r.chance(0.5)) { q.lo[i] = xc[i]; q.up[i] = xc[i] + w; }                    // touching the minimiser
  }
  int g = r.in(0, 5); q.x0 = r.vec(n, xs);
  if(g == 0) q.x0.setZero();
  if(g == 1) q.x0 = xc;
  if(g == 2) q.x0 = r.vec(n, 1e3 * xs);
  if(g == 3) for(int i = 0; i < n; i++) q.x0[i] = r.chance(0.5) ? (std::isfinite(q.lo[i]) ? q.lo[i] : 0) : (std::isfinite(q.up[i]) ? q.up[i] : 0);
  if(g == 4) { bool ok; Vec z = refQP(q, ok); if(ok) q.x0 = z; }
  std::ostringstream s; s << "n=" << n << " cond=" << cond << " hs=" << hs << " bounds=" << style << " guess=" << g << " g=" << vs(q.g) << " lo=" << vs(q.lo) << " up=" << vs(q.up) << " x0=" << vs(q.x0) << " H=" << vs(q.H); x.desc = s.str();
  return q;
}
static QCfg rcfg(Rng & r) { QCfg c; if(r.chance(0.3)) c.max_iter = r.in(1, 5); if(r.chance(0.2)) c.gthre = r.logu(1e-12, 1e-2); if(r.chance(0.2)) c.ithre = r.logu(1e-14, 1e-2); if(r.chance(0.2)) c.factor = r.uni(0.1, 0.9); if(r.chance(0.2)) c.armijo = r.uni(0.01, 0.4); if(r.chance(0.15)) { c.minstep = r.uni(0.2, 0.95); if(r.chance(0.5)) c.armijo = r.uni(0.45, 0.95); } return c; }
static void indef(Rng & r, QP & q) { int n = q.n(); q.H -= q.H.cwiseAbs().maxCoeff() * r.uni(0.2, 2) * Mat::Identity(n, n) * n; }
