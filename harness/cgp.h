// Random smooth optimal control problem for C/GMRES with recorded callbacks and a scalar-generic cost.
#pragma once
#include "common.h"
#include <nmpc_cgmres/CgmresProblem.h>
#include <nmpc_cgmres/CgmresSolver.h>
#include <nmpc_cgmres/Gmres.h>
#include <nmpc_cgmres/OdeSolver.h>
using LD = long double; using VecL = Eigen::Matrix<LD, -1, 1>; using MatL = Eigen::Matrix<LD, -1, -1>;

struct CgCall { int k; double t; Vec x, u, l; };
struct CgP : nmpc_cgmres::CgmresProblem
{
  int nx, nu; Mat A, B, Q, R, S, P, W, V; Vec c, q, r, p; double nl = 0, cn = 0, tv = 0; // nl: dynamics non-linearity, cn: cost non-linearity, tv: time variation
  bool rec = false; std::vector<CgCall> calls;
  // x' = A x + B u + c + nl * sin(W x + V u) + tv*sin(t)
  // L  = .5 x'Qx + .5 u'Ru + x'Su + q'x + r'u + cn * sum(sqrt(1 + (W x + V u)^2)) + tv*cos(t)*sum(u)
  template<class T> Eigen::Matrix<T, -1, 1> f(T t, const Eigen::Matrix<T, -1, 1> & x, const Eigen::Matrix<T, -1, 1> & u) const
  {
    Eigen::Matrix<T, -1, 1> z = W.cast<T>() * x + V.cast<T>() * u, d = A.cast<T>() * x + B.cast<T>() * u + c.cast<T>();
    for(int i = 0; i < nx; i++) d[i] += T(nl) * std::sin(z[i]) + T(tv) * std::sin(t);
    return d;
  }
  template<class T> T L(T t, const Eigen::Matrix<T, -1, 1> & x, const Eigen::Matrix<T, -1, 1> & u) const
  {
    Eigen::Matrix<T, -1, 1> z = W.cast<T>() * x + V.cast<T>() * u;
    T v = T(0.5) * x.dot(Q.cast<T>() * x) + T(0.5) * u.dot(R.cast<T>() * u) + x.dot(S.cast<T>() * u) + q.cast<T>().dot(x) + r.cast<T>().dot(u);
    for(int i = 0; i < nx; i++) v += T(cn) * std::sqrt(1 + z[i] * z[i]);
    return v + T(tv) * std::cos(t) * u.sum();
  }
  template<class T> T phi(const Eigen::Matrix<T, -1, 1> & x) const { T v = T(0.5) * x.dot(P.cast<T>() * x) + p.cast<T>().dot(x); for(int i = 0; i < nx; i++) v += T(cn) * std::sqrt(1 + x[i] * x[i]); return v; }
  using CR = const Eigen::Ref<const Eigen::VectorXd> &;
  void add(int k, double t, CR x, CR u, CR l) { if(rec) calls.push_back({k, t, x, u, l}); }
  void stateEquation(double t, CR x, CR u, Eigen::Ref<Eigen::VectorXd> d) override { tlHook(); add(0, t, x, u, Vec()); d = f<double>(t, x, u); }
  Vec Hx(double t, const Vec & x, const Vec & u, const Vec & l) const
  {
    Vec z = W * x + V * u, w(nx); for(int i = 0; i < nx; i++) w[i] = nl * std::cos(z[i]) * l[i] + cn * z[i] / std::sqrt(1 + z[i] * z[i]);
    return Q * x + S * u + q + A.transpose() * l + W.transpose() * w;
  }
  Vec Hu(double t, const Vec & x, const Vec & u, const Vec & l) const
  {
    Vec z = W * x + V * u, w(nx); for(int i = 0; i < nx; i++) w[i] = nl * std::cos(z[i]) * l[i] + cn * z[i] / std::sqrt(1 + z[i] * z[i]);
    return R * u + S.transpose() * x + r + B.transpose() * l + V.transpose() * w + Vec::Constant(nu, tv * std::cos(t));
  }
  void costateEquation(double t, CR l, CR xu, Eigen::Ref<Eigen::VectorXd> d) override { add(1, t, xu.head(nx), xu.tail(nu), l); d = -Hx(t, xu.head(nx), xu.tail(nu), l); }
  Vec Dphi(const Vec & x) const { Vec v = P * x + p; for(int i = 0; i < nx; i++) v[i] += cn * x[i] / std::sqrt(1 + x[i] * x[i]); return v; }
  void calcDphiDx(double t, CR x, Eigen::Ref<Eigen::VectorXd> d) override { add(2, t, x, Vec(), Vec()); d = Dphi(x); }
  void calcDhDu(double t, CR x, CR u, CR l, Eigen::Ref<Eigen::VectorXd> d) override { add(3, t, x, u, l); d = Hu(t, x, u, l); }
};
inline std::shared_ptr<CgP> genCg(Rng & r, double nl, double cn, double tv, bool stable = false)
{
  auto o = std::make_shared<CgP>(); int nx = r.in(1, 4), nu = r.in(1, 3); o->nx = nx; o->nu = nu;
  auto spd = [&](int n, double m) { Mat L = r.mat(n, n, 0.5); return Mat(L * L.transpose() + m * Mat::Identity(n, n)); };
  o->A = r.mat(nx, nx, 0.7); if(stable) o->A -= 1.5 * Mat::Identity(nx, nx); o->B = r.mat(nx, nu); o->Q = spd(nx, 0.1); o->R = spd(nu, 0.5); o->S = r.mat(nx, nu, 0.1); o->P = spd(nx, 0.1);
  o->W = r.mat(nx, nx, 0.5); o->V = r.mat(nx, nu, 0.3); o->c = r.vec(nx, 0.3); o->q = r.vec(nx, 0.5); o->r = r.vec(nu, 0.5); o->p = r.vec(nx, 0.5); o->nl = nl; o->cn = cn; o->tv = tv;
  o->dim_x_ = nx; o->dim_u_ = nu; o->dim_c_ = 0; o->dim_uc_ = nu; if(nu > 1 && r.chance(0.3)) { o->dim_u_ = nu - 1; o->dim_c_ = 1; }
  o->x_initial_ = r.vec(nx); o->u_initial_ = r.vec(nu, 0.3); o->state_eq_param_ = r.vec(r.in(1, 3));
  return o;
}
inline void randParam(Rng & r, nmpc_cgmres::CgmresSolver & s)
{
  s.steady_horizon_duration_ = r.uni(0.1, 1.5); s.horizon_divide_num_ = r.chance(0.01) ? r.in(20, 60) : r.in(1, 12); s.horizon_increase_ratio_ = r.logu(0.1, 5);
  s.dt_ = r.logu(1e-3, 2e-2); s.finite_diff_delta_ = r.chance(0.4) ? s.dt_ : r.logu(1e-4, 5e-3); s.eq_zeta_ = r.chance(0.5) ? 1 / s.dt_ : r.uni(0.1, 1.0) / s.dt_; s.k_max_ = r.in(1, 10);
}
