// Independent reference computations for FMPC: KKT residual, dense linearised KKT system, merit function.
#pragma once
#include "ocp.h"
#include <algorithm>
using VecL = Eigen::Matrix<long double, Eigen::Dynamic, 1>;
using MatL = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;

struct Kkt { double init = 0, dyn = 0, ineq = 0, lx = 0, lu = 0, comp = 0, term = 0; double norm() const { return std::sqrt(init + dyn + ineq + lx + lu + comp + term); } };
inline Kkt kktOf(const Ocp & o, int k0, int N, const Vec & xc, const FVar & v)
{
  Kkt r; double dt = o.dt;
  r.init = (xc - v.x[0]).squaredNorm();
  for(int i = 0; i < N; i++)
  {
    int k = k0 + i; Mat A, B, C, D, Lxx, Luu, Lxu; Vec Lx, Lu;
    o.df(k, v.x[i], v.u[i], A, B); o.dg(k, v.x[i], v.u[i], C, D); o.dL(k, v.x[i], v.u[i], Lx, Lu, Lxx, Luu, Lxu);
    r.dyn += (o.f(k, v.x[i], v.u[i]) - v.x[i + 1]).squaredNorm();
    if(v.s[i].size()) { r.ineq += (o.g(k, v.x[i], v.u[i]) + v.s[i]).squaredNorm(); r.comp += v.s[i].cwiseProduct(v.nu[i]).squaredNorm(); }
    Vec a = dt * Lx + A.transpose() * v.lam[i + 1] - v.lam[i]; if(v.s[i].size()) a += C.transpose() * v.nu[i];
    r.lx += a.squaredNorm();
    if(v.u[i].size()) { Vec b = dt * Lu + B.transpose() * v.lam[i + 1]; if(v.s[i].size()) b += D.transpose() * v.nu[i]; r.lu += b.squaredNorm(); }
  }
  Vec Lx; Mat Lxx; o.dphi(k0 + N, v.x[N], Lx, Lxx);
  r.term = (Lx - v.lam[N]).squaredNorm();
  return r;
}
// Stacking: primal = (x0..xN, u0.., s0..), dual = (lam0..lamN, nu0..)
inline Vec primalOf(const FVar & v) { std::vector<Vec> a = v.x; a.insert(a.end(), v.u.begin(), v.u.end()); a.insert(a.end(), v.s.begin(), v.s.end()); return stack(a); }
inline Vec dualOf(const FVar & v) { std::vector<Vec> a = v.lam; a.insert(a.end(), v.nu.begin(), v.nu.end()); return stack(a); }
struct Newton { Vec p0, p1, d0, d1; bool ok = false; int xs = 0, us = 0, ss = 0; }; // direction = (p0 + mu p1, d0 + mu d1)
inline Newton newtonOf(const Ocp & o, int k0, int N, const Vec & xc, const FVar & v)
{
  Newton w; int nx = o.nx; double dt = o.dt;
  std::vector<int> ou(N + 1), os(N + 1);
  int np = nx * (N + 1); w.us = np; for(int i = 0; i < N; i++) { ou[i] = np; np += v.u[i].size(); }
  w.ss = np; for(int i = 0; i < N; i++) { os[i] = np; np += v.s[i].size(); }
  int nd = nx * (N + 1); std::vector<int> on(N + 1); for(int i = 0; i < N; i++) { on[i] = nd; nd += v.nu[i].size(); }
  int n = np + nd; MatL M = MatL::Zero(n, n); MatL rhs = MatL::Zero(n, 2); int row = 0;
  auto put = [&](int r, int c, const Mat & m) { if(m.size()) M.block(r, c, m.rows(), m.cols()) += m.cast<long double>(); };
  auto L = [&](int i) { return np + nx * i; };
  Mat I = Mat::Identity(nx, nx);
  put(row, 0, I); rhs.col(0).segment(row, nx) = (xc - v.x[0]).cast<long double>(); row += nx;
  for(int i = 0; i < N; i++)
  {
    int k = k0 + i, nu = v.u[i].size(), ng = v.s[i].size(); Mat A, B, C, D, Lxx, Luu, Lxu; Vec Lx, Lu;
    o.df(k, v.x[i], v.u[i], A, B); o.dg(k, v.x[i], v.u[i], C, D); o.dL(k, v.x[i], v.u[i], Lx, Lu, Lxx, Luu, Lxu);
    // dynamics
    put(row, nx * i, A); put(row, ou[i], B); put(row, nx * (i + 1), -I); rhs.col(0).segment(row, nx) = -(o.f(k, v.x[i], v.u[i]) - v.x[i + 1]).cast<long double>(); row += nx;
    Vec a = dt * Lx + A.transpose() * v.lam[i + 1] - v.lam[i], b = dt * Lu + B.transpose() * v.lam[i + 1];
    if(ng)
    {
      a += C.transpose() * v.nu[i]; if(nu) b += D.transpose() * v.nu[i];
      put(row, nx * i, C); put(row, ou[i], D); put(row, os[i], Mat::Identity(ng, ng)); rhs.col(0).segment(row, ng) = -(o.g(k, v.x[i], v.u[i]) + v.s[i]).cast<long double>(); row += ng;
      put(row, os[i], Mat(v.nu[i].asDiagonal())); put(row, np + on[i], Mat(v.s[i].asDiagonal())); rhs.col(0).segment(row, ng) = -v.s[i].cwiseProduct(v.nu[i]).cast<long double>(); rhs.col(1).segment(row, ng).setOnes(); row += ng;
    }
    put(row, nx * i, dt * Lxx); put(row, ou[i], dt * Lxu); put(row, L(i + 1), A.transpose()); put(row, L(i), -I); if(ng) put(row, np + on[i], C.transpose()); rhs.col(0).segment(row, nx) = -a.cast<long double>(); row += nx;
    if(nu) { put(row, nx * i, dt * Lxu.transpose()); put(row, ou[i], dt * Luu); put(row, L(i + 1), B.transpose()); if(ng) put(row, np + on[i], D.transpose()); rhs.col(0).segment(row, nu) = -b.cast<long double>(); row += nu; }
  }
  Vec Lx; Mat Lxx; o.dphi(k0 + N, v.x[N], Lx, Lxx);
  put(row, nx * N, Lxx); put(row, L(N), -I); rhs.col(0).segment(row, nx) = -(Lx - v.lam[N]).cast<long double>(); row += nx;
  Eigen::PartialPivLU<MatL> lu(M); MatL z = lu.solve(rhs);
  z += lu.solve(MatL(rhs - M * z));
  w.ok = row == n && z.allFinite() && (M * z - rhs).norm() <= 1e-12L * (rhs.norm() + M.norm() * z.norm());
  Mat zd = z.cast<double>();
  w.p0 = zd.col(0).head(np); w.p1 = zd.col(1).head(np); w.d0 = zd.col(0).tail(nd); w.d1 = zd.col(1).tail(nd);
  return w;
}
// Fit of one observed update by alpha_s (p0 + mu p1), alpha_nu (d0 + mu d1)
struct Fit { double as = 0, an = 0, mu = 0, res = 1e300; };
inline Fit evalFit(const Newton & w, const Vec & dp, const Vec & dd, double mu)
{
  Fit f; f.mu = mu; Vec p = w.p0 + mu * w.p1, d = w.d0 + mu * w.d1;
  double pp = p.squaredNorm(), dq = d.squaredNorm();
  f.as = pp > 0 ? p.dot(dp) / pp : 1; f.an = dq > 0 ? d.dot(dd) / dq : 1;
  f.res = (dp - f.as * p).norm() / (1e-300 + dp.norm()) + (dd - f.an * d).norm() / (1e-300 + dd.norm());
  if(!(f.res == f.res)) f.res = 1e300;
  return f;
}
// All barrier parameters in [0,mumax] that were considered, best first; `hint`s are tried in any case.
inline std::vector<Fit> fitStep(const Newton & w, const Vec & dp, const Vec & dd, double mumax, const std::vector<double> & hints)
{
  std::vector<double> cand = {0, mumax};
  auto lin = [&](const Vec & a, const Vec & b, const Vec & y) { // y = c a + e b -> mu = e/c
    double na = a.norm(), nb = b.norm(); if(nb == 0 || na == 0) return;
    Mat M(a.size(), 2); M.col(0) = a / na; M.col(1) = b / nb;
    Eigen::Vector2d c = M.colPivHouseholderQr().solve(y);
    double c0 = c[0] / na, c1 = c[1] / nb; if(c0 != 0 && std::isfinite(c1 / c0)) cand.push_back(c1 / c0);
  };
  lin(w.p0, w.p1, dp); lin(w.d0, w.d1, dd);
  for(double h : hints) cand.push_back(h);
  for(int i = 1; i < 24; i++) { cand.push_back(mumax * i / 24.0); cand.push_back(mumax * std::pow(0.5, i)); }
  std::vector<Fit> fs; for(double mu : cand) if(mu >= 0 && mu <= mumax) fs.push_back(evalFit(w, dp, dd, mu));
  std::sort(fs.begin(), fs.end(), [](const Fit & a, const Fit & b) { return a.res < b.res; });
  Fit best = fs[0]; double h = std::max(1e-9, mumax / 48);
  for(int it = 0; it < 80; it++) { bool imp = false; for(double sg : {-h, h}) { double mu = best.mu + sg; if(mu < 0 || mu > mumax) continue; Fit f = evalFit(w, dp, dd, mu); if(f.res < best.res) { best = f; imp = true; } } if(!imp) h *= 0.5; }
  fs.insert(fs.begin(), best);
  return fs;
}
struct Merit { double obj = 0, con = 0; };
inline Merit meritOf(const Ocp & o, int k0, int N, const Vec & xc, const FVar & v, double mu)
{
  Merit m; m.con = (xc - v.x[0]).lpNorm<1>();
  for(int i = 0; i < N; i++)
  {
    m.obj += o.L(k0 + i, v.x[i], v.u[i]) * o.dt;
    m.con += (o.f(k0 + i, v.x[i], v.u[i]) - v.x[i + 1]).lpNorm<1>();
    if(v.s[i].size()) { m.obj -= mu * v.s[i].array().log().sum(); m.con += (o.g(k0 + i, v.x[i], v.u[i]) + v.s[i]).lpNorm<1>(); }
  }
  m.obj += o.phi(k0 + N, v.x[N]);
  return m;
}
inline FVar addStep(const FVar & v, const FVar & d, double as, double an)
{
  FVar r = v;
  for(size_t i = 0; i < v.x.size(); i++) { r.x[i] += as * d.x[i]; r.lam[i] += an * d.lam[i]; }
  for(size_t i = 0; i < v.u.size(); i++) { r.u[i] += as * d.u[i]; r.s[i] += as * d.s[i]; r.nu[i] += an * d.nu[i]; }
  return r;
}
inline FVar unstackLike(const FVar & v, const Vec & p, const Vec & d)
{
  FVar r = v; int a = 0, b = 0;
  for(auto & e : r.x) { e = p.segment(a, e.size()); a += e.size(); }
  for(auto & e : r.u) { e = p.segment(a, e.size()); a += e.size(); }
  for(auto & e : r.s) { e = p.segment(a, e.size()); a += e.size(); }
  for(auto & e : r.lam) { e = d.segment(b, e.size()); b += e.size(); }
  for(auto & e : r.nu) { e = d.segment(b, e.size()); b += e.size(); }
  return r;
}
inline bool finiteVar(const FVar & v) { return allFinite(v.x) && allFinite(v.u) && allFinite(v.lam) && allFinite(v.s) && allFinite(v.nu); }
inline bool positiveVar(const FVar & v) { for(auto & e : v.s) for(int j = 0; j < e.size(); j++) if(!(e[j] > 0)) return false; for(auto & e : v.nu) for(int j = 0; j < e.size(); j++) if(!(e[j] > 0)) return false; return true; }
// Largest step up to 1 keeping a (per-step list) non-negative along da
inline double maxStep(const std::vector<Vec> & a, const std::vector<Vec> & da) { double m = 1; for(size_t i = 0; i < a.size(); i++) for(int j = 0; j < a[i].size(); j++) if(da[i][j] < 0) m = std::min(m, -a[i][j] / da[i][j]); return m; }
