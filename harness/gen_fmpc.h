#pragma once
#include "ocp.h"
struct FC { Kind kind; Gen g; std::shared_ptr<Ocp> o; std::shared_ptr<Rec> rec; int N = 5, k0 = 0; Vec x0; FVar v; FmpcCfg c; std::vector<Vec> un; double t() const { return o->time(k0); } };

static FVar randVar(Rng & r, const Ocp & o, int k0, int N, double xs, double smin, double smax)
{
  FVar v;
  for(int i = 0; i <= N; i++) { v.x.push_back(r.vec(o.nx, xs)); v.lam.push_back(r.vec(o.nx, xs)); }
  for(int i = 0; i < N; i++)
  {
    v.u.push_back(r.vec(o.st[k0 + i].nu, xs)); int ng = o.st[k0 + i].ng; Vec s(ng), n(ng);
    for(int j = 0; j < ng; j++) { s[j] = r.logu(smin, smax); n[j] = r.logu(smin, smax); }
    v.s.push_back(s); v.nu.push_back(n);
  }
  return v;
}
static FC genF(Ctx & x, int style, int maxN = 8, const std::vector<Kind> * kinds = nullptr)
{
  FC d; Rng & r = x.rng; d.kind = r.pick(kinds ? *kinds : fmpcKinds());
  d.N = r.chance(0.12) ? 1 : r.in(2, maxN); if(r.chance(maxN >= 8 ? 0.006 : 0.003)) { d.N = r.in(12, maxN >= 10 ? 40 : maxN >= 8 ? 120 : 24); x.count("long_horizons"); }
  Gen & g = d.g; g.nx = d.kind.nx; g.nu = d.kind.nu; g.ng = d.kind.ng; g.N = d.N; g.extra = r.in(0, 3); g.dt = r.logu(0.02, 2); g.tbase = r.chance(0.5) ? 0 : r.chance(0.04) ? r.uni(-1e5, 1e5) : r.uni(-50, 50);
  g.maxnu = d.kind.nx == 3 ? 2 : 1; if(d.kind.nu == -1 && r.chance(0.3)) g.maxnu = 3; g.maxng = 3;
  g.ltv = r.chance(0.8); g.cross = r.chance(0.8); g.offset = r.chance(0.9); g.zeroDimProb = r.pick(std::vector<double>{0.0, 0.2, 0.5});
  if(d.kind.ng == -1 && r.chance(0.12)) { g.zeroDimProb = 1.0; } // no input and no inequality at all where dynamic
  if(style == 1) { g.nonlin = r.uni(0.02, 0.12); g.ineqNonlin = r.chance(0.5); if(r.chance(0.5)) g.convex = r.uni(0.1, 0.5); }
  if(style == 2) { g.nonlin = r.uni(0, 1.0); g.ineqNonlin = r.chance(0.5); g.convex = r.chance(0.5) ? r.uni(0.1, 3) : 0; g.nonconvex = r.chance(0.5) ? r.logu(0.05, 2) : 0; }
  d.x0 = r.vec(g.nx, r.logu(0.1, 2));
  d.o = genOcp(r, g, d.x0, &d.un);
  d.k0 = r.in(0, g.extra); d.rec = std::make_shared<Rec>();
  d.v = randVar(r, *d.o, d.k0, d.N, r.chance(0.1) ? 0 : r.logu(0.05, 2), 0.03, 3);
  FmpcCfg & c = d.c; c.N = d.N; c.max_iter = r.in(1, 12); c.thre = r.logu(1e-7, 1e-2); c.check_nan = r.chance(0.7); c.init = r.chance(0.3); c.barrier = r.chance(0.8); c.llt = r.chance(0.3); c.ls = r.chance(0.4); c.mult = r.chance(0.5);
  return d;
}
static void describe(Ctx & x, const FC & d)
{
  std::ostringstream s; s << "FMPC<" << d.kind.nx << "," << d.kind.nu << "," << d.kind.ng << "> N=" << d.N << " k0=" << d.k0 << " dt=" << d.g.dt << " nonlin=" << d.g.nonlin << " nonconvex=" << d.g.nonconvex << " max_iter=" << d.c.max_iter << " thre=" << d.c.thre << " nan=" << d.c.check_nan << " init=" << d.c.init << " barrier=" << d.c.barrier << " llt=" << d.c.llt << " ls=" << d.c.ls << " mult=" << d.c.mult << " x0=" << vs(d.x0); x.desc = s.str();
}
static std::unique_ptr<IFmpc> mkF(const FC & d, std::shared_ptr<Rec> r = nullptr) { auto s = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, r); s->cfg(d.c); return s; }
static FOut runF(const FC & d, const FmpcCfg & c, const FVar & v, std::shared_ptr<Rec> r = nullptr) { auto s = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, r); s->cfg(c); s->solve(d.t(), d.x0, v); return s->out(); }
