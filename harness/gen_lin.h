#pragma once
#include "cgp.h"
struct Lin { Mat A; Vec b, x0; int kmax = 0; double eps = 1e-10; std::string name; };
static Lin genLin(Ctx & x)
{
  Rng & r = x.rng; Lin l; int n = r.chance(0.1) ? 1 : r.in(2, x.thorough ? 30 : 18); int s = r.in(0, 9); Mat Q = Eigen::HouseholderQR<Mat>(r.mat(n, n)).householderQ(), Q2 = Eigen::HouseholderQR<Mat>(r.mat(n, n)).householderQ();
  Vec e(n); for(int i = 0; i < n; i++) e[i] = r.logu(1e-2, 1) * (r.chance(0.5) ? 1 : -1);
  if(s <= 1) { l.A = Q * e.asDiagonal() * Q2.transpose(); l.name = "general"; }
  else if(s == 2) { l.A = Q * e.asDiagonal() * Q.transpose(); l.name = "symmetric"; }
  else if(s == 3) { l.A = Mat::Identity(n, n) * r.uni(0.5, 3); l.name = "scaled identity"; }
  else if(s == 4) { Vec d(n); double a[3] = {1, -2, 0.5}; for(int i = 0; i < n; i++) d[i] = a[r.in(0, 2)]; l.A = Q * d.asDiagonal() * Q.transpose(); l.name = "three eigenvalues"; }
  else if(s == 5) { l.A = Mat::Zero(n, n); for(int i = 0; i < n; i++) l.A((i + 1) % n, i) = 1; l.name = "cyclic shift"; }
  else if(s == 6) { l.A = Mat::Identity(n, n) + 0.5 * r.vec(n) * r.vec(n).transpose() / n; l.name = "rank one update"; }
  else if(s == 7) { Vec d(n); for(int i = 0; i < n; i++) d[i] = r.in(1, 3); l.A = d.asDiagonal(); l.name = "diagonal"; }
  else if(s == 8) { l.A = 3 * Mat::Identity(n, n) + r.mat(n, n, 0.3); l.name = "well conditioned"; }
  else { l.A = Mat(r.mat(n, n).triangularView<Eigen::Upper>()); for(int i = 0; i < n; i++) l.A(i, i) = r.uni(1, 2) * (r.chance(0.5) ? 1 : -1); if(n > 8) l.A += 2 * Mat::Identity(n, n) * n * 0.3; l.name = "triangular"; }
  double sc = r.logu(1e-3, 1e3); if(r.chance(0.4)) l.A *= sc;
  l.b = r.vec(n, r.chance(0.5) ? 1 : r.logu(1e-4, 1e4)); l.x0 = Vec::Zero(n);
  if(s == 5 || r.chance(0.1)) { l.b.setZero(); l.b[r.in(0, n - 1)] = r.n() + 2; }
  int g = r.in(0, 7); if(g <= 2) l.x0 = r.vec(n, r.logu(1e-3, 1e3)); if(g == 3) l.x0 = l.A.partialPivLu().solve(l.b); if(g == 4) l.x0 = l.A.partialPivLu().solve(l.b) + r.vec(n, 1e-3);
  if(r.chance(0.06)) { l.b.setZero(); }
  int m = r.in(0, 4); l.kmax = m == 0 ? r.in(1, std::max(1, n - 1)) : m == 1 ? n : m == 2 ? n + r.in(1, 50) : m == 3 ? r.in(1, std::min(n, 5)) : r.in(1, n);
  if(r.chance(0.04)) l.kmax = 0;
  l.eps = r.chance(0.5) ? 1e-10 : r.chance(0.2) ? 0 : r.logu(1e-13, 0.3);
  std::ostringstream o; o << l.name << " n=" << n << " kmax=" << l.kmax << " eps=" << l.eps << " |b|=" << l.b.norm() << " |x0|=" << l.x0.norm(); x.desc = o.str(); return l;
}
