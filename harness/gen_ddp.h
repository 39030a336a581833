#pragma once
#include "ocp.h"
struct DC { Kind kind; Gen g; std::shared_ptr<Ocp> o; std::shared_ptr<Rec> rec; int N = 5, k0 = 0; Vec x0; std::vector<Vec> u0; DdpCfg c; double t() const { return o->time(k0); } };

static DdpCfg randCfg(Ctx & x, bool tame = false)
{
  Rng & r = x.rng; DdpCfg c;
  c.reg_type = r.in(1, 2);
  if(tame) return c;
  if(r.chance(0.3)) c.lam0 = r.logu(1e-8, 10);
  if(r.chance(0.1)) c.lam0 = 0;
  if(r.chance(0.2)) c.dlam0 = r.logu(0.1, 10);
  if(r.chance(0.2)) c.lamf = r.uni(1.1, 4);
  if(r.chance(0.1)) c.lmin = r.logu(1e-9, 1e-2);
  if(r.chance(0.1)) c.lmax = r.logu(1e-2, 1e6);
  if(r.chance(0.3)) c.ratio = r.pick(std::vector<double>{1e-3, 0.1, 0.3, 0.5, 0.8});
  if(r.chance(0.2)) c.kthre = r.logu(1e-9, 1e-2);
  if(r.chance(0.2)) c.cthre = r.logu(1e-14, 1e-3);
  if(r.chance(0.1)) c.lthre = r.logu(1e-9, 1e-2);
  int m = r.in(0, 9);
  if(m == 0) { c.alphas.resize(1); c.alphas[0] = 1; }
  if(m == 1) { c.alphas.resize(3); c.alphas << 1, 0.3, 0.01; }
  if(m == 2) { c.alphas.resize(2); c.alphas << 0.5, 0.05; }
  if(m == 3) { c.alphas.resize(4); c.alphas << 0.01, 0.1, 0.5, 1; }
  return c;
}
// style: 0 LQ, 1 mildly nonlinear, 2 strongly nonlinear / non-convex
static DC genD(Ctx & x, int style, bool tameCfg = false, int forceNu = -2, int maxN = 14)
{
  DC d; Rng & r = x.rng;
  std::vector<Kind> ks; for(auto & k : ddpKinds()) if(forceNu == -2 || k.nu == forceNu) ks.push_back(k);
  d.kind = r.pick(ks);
  d.N = r.chance(0.12) ? 1 : r.in(2, maxN); if(maxN > 4 && r.chance(0.008)) { d.N = r.in(16, maxN > 8 ? 130 : 40); x.count("long_horizons"); }
  Gen & g = d.g; g.nx = d.kind.nx; g.nu = d.kind.nu; g.N = d.N; g.extra = r.in(0, 3); g.dt = r.logu(0.005, 2); g.tbase = r.chance(0.5) ? 0 : r.chance(0.04) ? r.uni(-1e5, 1e5) : r.uni(-50, 50);
  g.ltv = r.chance(0.8); g.cross = r.chance(0.8); g.offset = r.chance(0.9);
  if(style == 1) { g.nonlin = r.uni(0.02, 0.12); if(r.chance(0.5)) g.convex = r.uni(0.1, 0.5); }
  if(style == 2) { g.nonlin = r.uni(0, 1.0); g.convex = r.chance(0.5) ? r.uni(0.1, 3) : 0; g.nonconvex = r.chance(0.7) ? r.logu(0.1, 5) : 0; }
  d.x0 = r.vec(g.nx, r.logu(0.1, 3));
  d.o = genOcp(r, g, d.x0);
  d.k0 = r.in(0, g.extra);
  d.rec = std::make_shared<Rec>();
  d.u0 = randU(r, *d.o, d.k0, d.N, r.chance(0.2) ? 0 : r.logu(0.05, 5));
  d.c = randCfg(x, tameCfg); d.c.N = d.N;
  std::ostringstream s; s << "DDP<" << d.kind.nx << "," << d.kind.nu << "> N=" << d.N << " k0=" << d.k0 << " dt=" << g.dt << " style=" << style << " reg=" << d.c.reg_type << " lam0=" << d.c.lam0 << " ratio=" << d.c.ratio << " alphas=" << d.c.alphas.size() << " x0=" << vs(d.x0);
  x.desc = s.str();
  return d;
}
static std::vector<Vec> clipU(const Ocp & o, int k0, std::vector<Vec> u)
{
  for(size_t i = 0; i < u.size(); i++) for(int j = 0; j < u[i].size(); j++) u[i][j] = std::max(std::min(u[i][j], o.st[k0 + i].up[j]), o.st[k0 + i].lo[j]);
  return u;
}
