#include "ocp.h"
#include "capture.h"

#include "gen_ddp.h"
// Gradient of the total cost wrt the inputs (adjoint), and a scale
static std::vector<Vec> gradU(const Ocp & o, int k0, const Vec & x0, const std::vector<Vec> & u, std::vector<Mat> * quu = nullptr)
{
  int N = u.size(); std::vector<Vec> x; Vec c; o.rollout(k0, x0, u, x, c);
  std::vector<Vec> g(N); Vec lam; Mat P; o.dphi(k0 + N, x[N], lam, P);
  if(quu) quu->assign(N, Mat());
  for(int i = N - 1; i >= 0; i--)
  {
    Vec Lx, Lu; Mat Lxx, Luu, Lxu, A, B; o.dL(k0 + i, x[i], u[i], Lx, Lu, Lxx, Luu, Lxu); o.df(k0 + i, x[i], u[i], A, B);
    g[i] = Lu + B.transpose() * lam;
    if(quu) { (*quu)[i] = Luu + B.transpose() * P * B; P = (Lxx + A.transpose() * P * A).eval(); }
    lam = (Lx + A.transpose() * lam).eval();
  }
  return g;
}
static double gnorm(const std::vector<Vec> & g) { double m = 0; for(auto & v : g) if(v.size()) m = std::max(m, v.cwiseAbs().maxCoeff()); return m; }
static uint64_t outSig(const DdpOut & o) { uint64_t h = hcomb(o.ok, o.tr.size()); h = hcomb(h, hmat(o.cost)); for(auto & t : o.tr) h = hcomb(h, (uint64_t)(t.alpha * 1e6)); return h; }
static void checkRollout(Ctx & x, const DC & d, const DdpOut & o, int N, int k0, const Vec & x0, const char * tag)
{
  std::string T = tag;
  x.check((int)o.x.size() == N + 1 && (int)o.u.size() == N && o.cost.size() == N + 1, T + "length", "lengths x=" + std::to_string(o.x.size()) + " u=" + std::to_string(o.u.size()) + " cost=" + std::to_string(o.cost.size()) + " for horizon " + std::to_string(N));
  x.check(o.x[0] == x0, T + "initial-state", "first state " + vs(o.x[0]) + " is not the current state " + vs(x0));
  for(int i = 0; i < N; i++)
  {
    x.check(o.u[i].size() == d.o->st[k0 + i].nu, T + "input-size", "input size at step " + std::to_string(i));
    Vec f = d.o->f(k0 + i, o.x[i], o.u[i]);
    double e = relDiff(f, o.x[i + 1]); x.maxi("rollout_err", e);
    x.check(e <= 1e-11, T + "rollout", "state " + std::to_string(i + 1) + " is not the state equation of step " + std::to_string(i) + ": " + vs(o.x[i + 1]) + " vs " + vs(f));
    double L = d.o->L(k0 + i, o.x[i], o.u[i]);
    x.check(closeD(L, o.cost[i], 1e-11), T + "cost", "cost of step " + std::to_string(i) + " is " + ds(o.cost[i]) + " but running cost is " + ds(L));
  }
  double p = d.o->phi(k0 + N, o.x[N]);
  x.check(closeD(p, o.cost[N], 1e-11), T + "terminal-cost", "terminal cost entry " + ds(o.cost[N]) + " vs " + ds(p));
}
static bool finiteRollout(const DC & d) { std::vector<Vec> xs; Vec c; d.o->rollout(d.k0, d.x0, d.u0, xs, c); return c.allFinite() && allFinite(xs) && c.cwiseAbs().maxCoeff() < 1e8; }

// C01 -------------------------------------------------------------------------------------------
static void c01(Ctx & x)
{
  int style = x.rng.in(0, 2);
  DC d = genD(x, style, false, -2, x.thorough ? 30 : 14);
  d.c.limits = x.rng.chance(0.35);
  d.c.max_iter = x.rng.pick(std::vector<int>{0, 1, 2, 3, 5, 10, 30, 60});
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->limits(true);
  int n = x.rng.in(1, 3);
  for(int q = 0; q < n; q++)
  {
    // later solves: other horizon / time / state on the same object
    int N = q == 0 ? d.N : x.rng.in(1, d.N + d.g.extra - 0), k0 = q == 0 ? d.k0 : x.rng.in(0, d.N + d.g.extra - N);
    Vec x0 = q == 0 ? d.x0 : Vec(x.rng.vec(d.g.nx));
    auto u0 = q == 0 ? d.u0 : randU(x.rng, *d.o, k0, N, 1);
    d.c.N = N; s->cfg(d.c);
    bool ok = s->solve(d.o->time(k0), x0, u0);
    DdpOut o = s->out();
    checkRollout(x, d, o, N, k0, x0, "");
    if(o.tr.size() > 1) x.observed(outSig(o));
    x.count(ok ? "solves_ok" : "solves_not_ok");
    for(size_t i = 1; i < o.tr.size(); i++) { if(o.tr[i].alpha != 0) { bool acc = o.tr[i].cost != o.tr[i - 1].cost; x.count(acc ? "accepted_steps" : "rejected_steps"); if(acc && o.tr[i].alpha < 1) x.count("backtracked_steps"); } }
    if(d.c.limits) x.count("limited"); if(d.kind.nu < 0) x.count("dynamic_dim");
  }
}
// C02 -------------------------------------------------------------------------------------------
static void c02(Ctx & x)
{
  int style = x.rng.chance(0.3) ? 0 : x.rng.in(1, 2);
  DC d = genD(x, style);
  if(d.c.ratio == 0 && x.rng.chance(0.6)) d.c.ratio = x.rng.pick(std::vector<double>{0, 0.05, 0.3, 0.6, 0.9});
  d.c.limits = x.rng.chance(0.3);
  if(x.rng.chance(0.2)) { d.c.alphas.resize(4); d.c.alphas << x.rng.uni(1.5, 5), 1, 0.3, 0.1; } // over-relaxation: the model itself may predict an increase
  if(!finiteRollout(d)) return;
  auto base = d.c.limits ? clipU(*d.o, d.k0, d.u0) : d.u0;
  double J0 = d.o->total(d.k0, d.x0, base);
  int M = x.thorough ? 25 : 12;
  std::vector<DdpOut> hist; double prev = J0; std::vector<Vec> prevU = base;
  for(int m = 0; m <= M; m++)
  {
    d.c.max_iter = m == M ? 200 : m;
    auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); s->limits(true); s->cfg(d.c);
    s->solve(d.t(), d.x0, d.u0);
    DdpOut o = s->out(); double J = o.cost.sum(), tol = 1e-11 * (1 + o.cost.cwiseAbs().sum());
    x.check(J <= prev + tol, "cost-increase", "total cost rose from " + ds(prev) + " to " + ds(J) + " at iteration limit " + std::to_string(d.c.max_iter));
    // the reported costs are only worth something if they belong to the trajectory
    double Jt = d.o->total(d.k0, d.x0, o.u);
    x.check(Jt <= J0 + 1e-9 * (1 + std::abs(J0) + o.cost.cwiseAbs().sum()), "worse-than-guess", "rollout of the returned inputs costs " + ds(Jt) + ", the guess costs " + ds(J0));
    bool changed = relDiff(prevU, o.u) > 0;
    if(m >= 1 && m < M && changed)
    {
      x.check((int)o.tr.size() == m + 1, "trace-length", "changed trajectory without a trace entry");
      const auto & t = o.tr[m]; double act = prev - J; double big = o.cost.cwiseAbs().sum();
      x.check(closeD(t.act, act, 1e-9 * (1 + big)), "actual", "recorded improvement " + ds(t.act) + " but the cost went from " + ds(prev) + " to " + ds(J));
      if(t.exp > 0)
      {
        x.check(act / t.exp > d.c.ratio - 1e-9 - 1e-9 * big / t.exp, "ratio", "accepted improvement ratio " + ds(act / t.exp) + " (actual " + ds(act) + ", expected " + ds(t.exp) + ") threshold " + ds(d.c.ratio));
        if(act / t.exp < 0.95) x.count("accepted_ratio_below_.95");
        if(style == 0 && !d.c.limits && t.alpha == 1 && t.exp > 1e-6 * (1 + big))
        {
          x.check(std::abs(act / t.exp - 1) < 1e-5, "expected", "for a linear-quadratic problem the expected improvement must be exact: actual " + ds(act) + " expected " + ds(t.exp));
          x.count("exact_model_checks");
        }
      }
      else x.check(act >= -1e-9 * (1 + big), "ratio-neg", "step with non-positive expected improvement raised the cost");
      x.count("accepted"); x.observed(outSig(o));
      if(t.alpha < 1) x.count("backtracked");
    }
    else if(m >= 1 && (int)o.tr.size() == m + 1 && o.tr[m].alpha != 0)
    {
      x.count("rejected");
    }
    prev = J; prevU = o.u;
    if(m >= 1 && m < M && (int)o.tr.size() < m + 1) { m = M - 1; }
  }
  x.count(d.c.limits ? "limited" : "unlimited");
}
// C03 -------------------------------------------------------------------------------------------
static void c03(Ctx & x)
{
  bool lq = x.rng.chance(0.6);
  DC d = genD(x, lq ? 0 : 1, true);
  if(lq)
  {
    if(x.rng.chance(0.3)) for(auto & v : d.u0) v *= x.rng.logu(1, 200);
    d.c.max_iter = 20;
    auto q = condense(*d.o, d.k0, d.N, d.x0, 1.0);
    if(q.n == 0) { }
    Vec U = q.n ? Vec(-q.H.ldlt().solve(q.g)) : Vec();
    double Jopt = q.c + (q.n ? 0.5 * q.g.dot(U) : 0.0);
    auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->cfg(d.c);
    bool ok = s->solve(d.t(), d.x0, d.u0); DdpOut o = s->out();
    double J0 = d.o->total(d.k0, d.x0, d.u0), J = d.o->total(d.k0, d.x0, o.u);
    double sc = 1 + std::abs(Jopt);
    x.maxi("iterations", o.tr.size() - 1); x.maxi("rel_gap", (J - Jopt) / sc);
    // a start that is optimal to rounding cannot be improved, and then the solver gives up on its line search
    bool atOpt = J - Jopt <= 1e-9 * (sc + std::abs(J0)) + 1e-12;
    if(!ok && atOpt) x.count("already_optimal_start");
    x.check(ok || atOpt, "lq-no-success", "no success in 20 iterations on a convex LQ problem; J0=" + ds(J0) + " J=" + ds(J) + " J*=" + ds(Jopt) + " iters=" + std::to_string(o.tr.size() - 1));
    x.check(J - Jopt <= 1e-5 * sc + 1e-10 * std::abs(J0) + 2e-7, "lq-gap", "cost " + ds(J) + " but minimum " + ds(Jopt) + " (start " + ds(J0) + ")");
    x.check(J - Jopt >= -1e-8 * (sc + std::abs(J0)), "oracle", "cost below the minimum: oracle broken");
    // tight thresholds: the optimum itself
    d.c.kthre = 1e-9; d.c.cthre = 1e-14; d.c.max_iter = 60;
    auto s2 = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s2->cfg(d.c); s2->solve(d.t(), d.x0, o.u); DdpOut o2 = s2->out();
    Vec Us = stack(o2.u); double e = q.n ? relDiff(Us, U) : 0; x.maxi("input_err_tight", e);
    x.check(e <= 1e-4, "lq-inputs", "inputs differ from the minimiser by " + ds(e));
    double J2 = d.o->total(d.k0, d.x0, o2.u);
    x.check(J2 <= J + 1e-9 * sc, "resolve", "re-solving from the returned inputs moved away: " + ds(J) + " -> " + ds(J2));
    x.check(J2 - Jopt <= 1e-8 * (sc + 1e-3 * std::abs(J0)), "lq-gap-tight", "cost " + ds(J2) + " but minimum " + ds(Jopt));
    if(q.n && J0 - Jopt > 1e-6 * sc) x.observed(outSig(o));
    x.count(d.c.reg_type == 1 ? "lq_reg1" : "lq_reg2"); if(d.kind.nu < 0) x.count("lq_dynamic");
    return;
  }
  bool tight = x.rng.chance(0.6);
  if(tight) { d.c.kthre = 1e-7; d.c.cthre = 1e-13; }
  d.c.max_iter = 200;
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->cfg(d.c);
  bool ok = s->solve(d.t(), d.x0, d.u0); DdpOut o = s->out();
  x.count(ok ? "nl_success" : "nl_no_success");
  if(!ok) return;
  std::vector<Mat> quu; double g = gnorm(gradU(*d.o, d.k0, d.x0, o.u, &quu)); double qs = 1; for(auto & m : quu) if(m.size()) qs = std::max(qs, m.cwiseAbs().maxCoeff());
  double un = 1; for(auto & v : o.u) un = std::max(un, v.norm());
  x.maxi(tight ? "nl_grad_tight" : "nl_grad_default", g / (qs * un));
  x.check(g <= (tight ? 2e-4 : 2e-2) * qs * un, "nl-stationary", "success but gradient " + ds(g) + " (curvature scale " + ds(qs) + ")");
  auto s2 = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s2->cfg(d.c); s2->solve(d.t(), d.x0, o.u); DdpOut o2 = s2->out();
  double J = o.cost.sum(), J2 = d.o->total(d.k0, d.x0, o2.u);
  x.check(J2 <= J + 1e-10 * (1 + o.cost.cwiseAbs().sum()), "nl-resolve", "re-solve raised the cost " + ds(J) + " -> " + ds(J2));
  double mv = relDiff(o.u, o2.u); x.maxi(tight ? "nl_move_tight" : "nl_move_default", mv);
  x.check(mv <= (tight ? 2e-3 : 0.2), "nl-move", "re-solve moved the inputs by " + ds(mv));
  x.observed(outSig(o));
}
// C04 -------------------------------------------------------------------------------------------
static void feas(Ctx & x, const DC & d, const DdpOut & o)
{
  int act = 0;
  for(int i = 0; i < d.N; i++) for(int j = 0; j < o.u[i].size(); j++)
  {
    double lo = d.o->st[d.k0 + i].lo[j], up = d.o->st[d.k0 + i].up[j], v = o.u[i][j];
    x.checkf(v >= lo - 1e-12 * (1 + std::abs(lo)) && v <= up + 1e-12 * (1 + std::abs(up)), "limit", [&] { return "input " + ds(v) + " at step " + std::to_string(i) + " component " + std::to_string(j) + " outside [" + ds(lo) + "," + ds(up) + "]"; });
    if(v <= lo || v >= up) act++;
  }
  x.count("active_limits", act);
}
static void c04(Ctx & x)
{
  bool lq = x.rng.chance(0.6);
  DC d = genD(x, lq ? 0 : x.rng.in(1, 2), lq);
  d.c.limits = true; d.c.N = d.N;
  bool feasGuess = x.rng.chance(0.6);
  if(feasGuess) d.u0 = clipU(*d.o, d.k0, d.u0); else if(x.rng.chance(0.5)) for(auto & v : d.u0) v *= 10;
  if(!lq)
  {
    d.c.max_iter = x.rng.pick(std::vector<int>{0, 1, 2, 5, 30});
    auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->limits(true); s->cfg(d.c); s->solve(d.t(), d.x0, d.u0);
    feas(x, d, s->out()); x.observed(outSig(s->out())); x.count("nonlinear"); return;
  }
  d.c.max_iter = 500; bool tight = x.rng.chance(0.5); if(tight) { d.c.kthre = 1e-8; d.c.cthre = 1e-13; }
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->limits(true); s->cfg(d.c);
  bool ok = s->solve(d.t(), d.x0, d.u0); DdpOut o = s->out();
  feas(x, d, o);
  auto q = condense(*d.o, d.k0, d.N, d.x0, 1.0); if(q.n == 0) return;
  Vec U = refBoxQP(q.H, q.g, q.lo, q.up); double kk = boxKkt(q.H, q.g, q.lo, q.up, U);
  if(kk > 1e-8 * (1 + q.g.norm())) { x.count("oracle_inconclusive"); return; }
  double Jopt = q.c + q.g.dot(U) + 0.5 * U.dot(q.H * U), J = d.o->total(d.k0, d.x0, o.u), sc = 1 + std::abs(Jopt), J0 = d.o->total(d.k0, d.x0, clipU(*d.o, d.k0, d.u0));
  int act = 0; for(int i = 0; i < q.n; i++) act += (U[i] <= q.lo[i] || U[i] >= q.up[i]);
  x.maxi("iterations", o.tr.size() - 1); if(ok) x.maxi(tight ? "rel_gap_tight" : "rel_gap", (J - Jopt) / sc);
  bool atOpt = J - Jopt <= 1e-9 * (sc + std::abs(J0)) + 1e-12;
  if(!ok && atOpt) x.count("already_optimal");
  if(feasGuess) x.check(ok || atOpt, "lq-no-success", "box-limited convex LQ problem not solved: J=" + ds(J) + " J*=" + ds(Jopt) + " iters=" + std::to_string(o.tr.size() - 1) + " lambda=" + ds(o.tr.back().lambda));
  if(ok) x.check(J - Jopt <= (tight ? 1e-6 : 1e-3) * sc + 1e-3 * (tight ? 1e-3 : 1) * 0.01 * (J0 - Jopt), "lq-gap", "success with cost " + ds(J) + " but constrained minimum " + ds(Jopt) + " start " + ds(J0) + " act=" + std::to_string(act));
  x.check(J - Jopt >= -1e-6 * sc, "lq-below", "cost below the constrained minimum: " + ds(J) + " < " + ds(Jopt));
  x.count(ok ? "ok" : "not_ok"); if(act && act < q.n) x.count("partly_active"); if(act == q.n) x.count("all_active");
  x.observed(outSig(o));
}
// C05 -------------------------------------------------------------------------------------------
static void c05(Ctx & x)
{
  int mode = x.rng.in(0, 3);
  if(mode <= 1) // recorder discipline, any problem and configuration, several solves
  {
    DC d = genD(x, x.rng.in(0, 2), false, mode == 0 ? -1 : -2); d.c.limits = x.rng.chance(0.3); d.c.max_iter = x.rng.in(1, 12);
    auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->limits(true);
    for(int q = 0; q < 2; q++)
    {
      int N = q ? x.rng.in(1, d.N + d.g.extra) : d.N, k0 = q ? x.rng.in(0, d.N + d.g.extra - N) : d.k0;
      d.c.N = N; s->cfg(d.c);
      d.rec->active = true; d.rec->k0 = k0; d.rec->N = N; d.rec->t0 = d.o->time(k0); d.rec->stages.clear();
      s->solve(d.o->time(k0), q ? Vec(x.rng.vec(d.g.nx)) : d.x0, q ? randU(x.rng, *d.o, k0, N, 1) : d.u0);
      x.check(d.rec->bad.empty(), "discipline", d.rec->bad);
      x.check((int)d.rec->stages.size() == N, "coverage", "only " + std::to_string(d.rec->stages.size()) + " of " + std::to_string(N) + " steps were evaluated");
      x.observed(outSig(s->out()));
    }
    bool zero = false, vary = false; for(int i = 0; i < d.N; i++) { zero |= d.o->st[i].nu == 0; vary |= d.o->st[i].nu != d.o->st[0].nu; }
    if(zero) x.count("zero_input_steps"); if(vary) x.count("varying_dims");
    x.count("recorded_calls", d.rec->total); return;
  }
  if(mode == 2) // varying dimension vs padded fixed-dimension problem
  {
    DC d = genD(x, 0, true, -1); 
    int nuF = d.kind.nx == 3 ? 2 : 1; if(true) { // rebuild with max dimension nuF
      d.g.maxnu = nuF; d.g.zeroDimProb = 0.3; d.o = genOcp(x.rng, d.g, d.x0); d.u0 = randU(x.rng, *d.o, d.k0, d.N, 1);
      int z = x.rng.in(0, 3); (void)z;
    }
    auto p = padInputs(*d.o, nuF); std::vector<Vec> pu; for(auto & v : d.u0) { Vec w = Vec::Zero(nuF); w.head(v.size()) = v; pu.push_back(w); }
    d.c.limits = x.rng.chance(0.4); d.c.kthre = 1e-9; d.c.cthre = 1e-14; d.c.max_iter = 300;
    auto a = makeDdp(d.kind.nx, -1, d.o, nullptr); a->limits(true); a->cfg(d.c);
    auto b = makeDdp(d.kind.nx, nuF, p, nullptr); b->limits(true); b->cfg(d.c);
    auto c = makeDdp(d.kind.nx, -1, p, nullptr); c->limits(true); c->cfg(d.c);
    a->solve(d.t(), d.x0, d.u0); b->solve(d.t(), d.x0, pu); c->solve(d.t(), d.x0, pu);
    DdpOut oa = a->out(), ob = b->out(), oc = c->out();
    double e = relDiff(oa.x, ob.x), sc = 1 + oa.cost.cwiseAbs().sum(); x.maxi("varying_vs_padded", e);
    double Ja = oa.cost.sum(), Jb = ob.cost.sum();
    x.check(std::abs(Ja - Jb) <= 1e-6 * sc, "varying-cost", "varying-dimension problem reaches " + ds(Ja) + ", padded equivalent " + ds(Jb));
    x.check(e <= 2e-3, "varying-state", "state trajectories differ by " + ds(e));
    x.check(std::abs(Ja - oc.cost.sum()) <= 1e-6 * sc, "varying-cost-dyn", "dynamic padded differs");
    bool zero = false, vary = false; for(int i = 0; i < d.N; i++) { zero |= d.o->st[d.k0 + i].nu == 0; vary |= d.o->st[d.k0 + i].nu != d.o->st[d.k0].nu; }
    if(zero) x.count("zero_input_steps"); if(vary) x.count("varying_dims");
    x.count("padded_pairs"); x.observed(outSig(oa)); return;
  }
  // fixed vs dynamic template
  DC d = genD(x, x.rng.in(0, 1), true); d.kind = x.rng.chance(0.5) ? Kind{3, 2, 0} : Kind{2, 1, 0};
  d.g.nx = d.kind.nx; d.g.nu = d.kind.nu; d.x0 = x.rng.vec(d.g.nx); d.o = genOcp(x.rng, d.g, d.x0); d.u0 = randU(x.rng, *d.o, d.k0, d.N, 1);
  d.c.limits = x.rng.chance(0.4); d.c.max_iter = x.rng.in(1, 4);
  auto a = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); a->limits(true); a->cfg(d.c);
  auto b = makeDdp(d.kind.nx, -1, d.o, nullptr); b->limits(true); b->cfg(d.c);
  a->solve(d.t(), d.x0, d.u0); b->solve(d.t(), d.x0, d.u0);
  DdpOut oa = a->out(), ob = b->out(); double e = std::max(relDiff(oa.x, ob.x), relDiff(oa.u, ob.u)); x.maxi("fixed_vs_dynamic", e);
  double sc = 1 + oa.cost.cwiseAbs().sum();
  x.check(std::abs(oa.cost.sum() - ob.cost.sum()) <= 1e-6 * sc, "fixed-dynamic-cost", "fixed " + ds(oa.cost.sum()) + " dynamic " + ds(ob.cost.sum()));
  x.check(e <= 1e-3, "fixed-dynamic", "fixed and dynamic template dimensions differ by " + ds(e));
  x.count("fixed_dynamic_pairs"); x.observed(outSig(oa));
}
// C26 -------------------------------------------------------------------------------------------
static void c26(Ctx & x)
{
  int mode = x.rng.in(0, 3);
  if(mode == 3) // convex LQ, far too large initial regularization: it must be reduced quickly
  {
    DC d = genD(x, 0, true); d.c.lam0 = x.rng.logu(1, 1e5); d.c.max_iter = 60; d.c.cthre = 1e-15; d.c.dlam0 = x.rng.chance(0.5) ? 1 : x.rng.logu(1, 20);
    auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); s->cfg(d.c); bool ok = s->solve(d.t(), d.x0, d.u0); DdpOut o = s->out();
    auto q = condense(*d.o, d.k0, d.N, d.x0, 1.0); if(!q.n) return;
    Vec U = -q.H.ldlt().solve(q.g); double Jopt = q.c + 0.5 * q.g.dot(U), J0 = d.o->total(d.k0, d.x0, d.u0), J = o.cost.sum();
    x.maxi("iterations_from_large_lambda", o.tr.size() - 1); x.maxi("gap_from_large_lambda", (J - Jopt) / (1 + std::abs(Jopt)));
    for(size_t i = 1; i < o.tr.size(); i++) if(o.tr[i].alpha != 0 && o.tr[i].cost < o.tr[i - 1].cost) { x.check(o.tr[i].lambda < o.tr[i - 1].lambda || o.tr[i].lambda == 0, "lambda-not-reduced", "regularization " + ds(o.tr[i - 1].lambda) + " -> " + ds(o.tr[i].lambda) + " after a successful step"); x.count("reductions"); }
    (void)ok; (void)J0;
    if(J0 - Jopt > 1e-3) x.check(J - Jopt <= 1e-2 * (J0 - Jopt) + 1e-5 * (1 + std::abs(Jopt)) + 1e-5, "slow", "from lambda " + ds(d.c.lam0) + ": cost " + ds(J0) + " -> " + ds(J) + " after " + std::to_string(o.tr.size() - 1) + " iterations, minimum " + ds(Jopt));
    x.observed(outSig(o)); x.count("large_lambda"); return;
  }
  DC d = genD(x, 2, true); Rng & r = x.rng;
  d.g.nonlin = r.chance(0.5) ? 0 : r.uni(0, 0.3); d.g.convex = 0; d.g.nonconvex = r.logu(0.5, 20); d.g.N = d.N;
  d.o = genOcp(r, d.g, d.x0); d.u0 = randU(r, *d.o, d.k0, d.N, r.logu(0.05, 3));
  d.c.max_iter = x.rng.pick(std::vector<int>{1, 3, 10, 300}); d.c.limits = x.rng.chance(0.2);
  if(mode == 1) { d.c.reg_type = 1; d.c.limits = false; d.c.max_iter = 300; }
  if(mode == 2) { d.c.lmax = r.logu(1e-3, 10); }
  if(mode == 0 && r.chance(0.5)) { d.c.alphas.resize(1); d.c.alphas << 1; d.c.lam0 = r.chance(0.5) ? 0 : 1e-6; d.c.max_iter = 300; } // only full steps: rejected ones leave the regularization as the only way out
  if(mode == 0 && r.chance(0.2)) d.c.ratio = r.uni(0.1, 0.9);
  if(x.rng.chance(0.5)) { d.c.kthre = 1e-7; d.c.cthre = 1e-13; }
  auto base = d.c.limits ? clipU(*d.o, d.k0, d.u0) : d.u0;
  // is the curvature indefinite at the start?
  bool indef = false; { std::vector<Vec> xs; Vec c; d.o->rollout(d.k0, d.x0, base, xs, c); for(int i = 0; i < d.N; i++) { if(d.o->st[d.k0 + i].nu == 0) continue; Vec a, b; Mat m1, m2, m3; d.o->dL(d.k0 + i, xs[i], base[i], a, b, m1, m2, m3); Eigen::SelfAdjointEigenSolver<Mat> es(m2); if(es.eigenvalues().minCoeff() < 0) indef = true; } }
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); s->limits(true); s->cfg(d.c); bool ok = s->solve(d.t(), d.x0, d.u0); DdpOut o = s->out();
  double J0 = d.o->total(d.k0, d.x0, base), J = d.o->total(d.k0, d.x0, o.u), tol = 1e-10 * (1 + std::abs(J0) + o.cost.cwiseAbs().sum());
  int it = (int)o.tr.size() - 1; const auto & last = o.tr.back();
  x.check(J <= J0 + tol, "worse", "cost rose from " + ds(J0) + " to " + ds(J));
  double best = 1e300; for(auto & t : o.tr) if(t.iter < it) best = std::min(best, t.cost);
  if(it > 0) x.check(o.cost.sum() <= best + tol, "not-best", "returned cost " + ds(o.cost.sum()) + " but an earlier iteration had " + ds(best));
  if(!d.c.limits) for(auto & t : o.tr) if(t.iter > 0 && t.alpha != 0) { x.check(t.exp >= -1e-9 * (1 + std::abs(t.exp)) - tol, "indefinite-gain", "forward pass with negative expected improvement " + ds(t.exp) + " at iteration " + std::to_string(t.iter) + ": gains of an indefinite system"); x.count("forward_passes"); }
  if(!ok && it < d.c.max_iter) { x.check(last.lambda > d.c.lmax, "early-failure", "failure although regularization " + ds(last.lambda) + " is not above the maximum " + ds(d.c.lmax) + " after " + std::to_string(it) + " iterations"); x.count("lambda_max_failures"); }
  for(int i = 1; i < it; i++) x.check(o.tr[i].lambda <= d.c.lmax, "beyond-max", "continued after the regularization " + ds(o.tr[i].lambda) + " exceeded the maximum " + ds(d.c.lmax));
  if(ok) x.check(last.lambda <= d.c.lmax, "success-beyond-max", "success with regularization " + ds(last.lambda) + " above the maximum " + ds(d.c.lmax));
  for(int i = 1; i <= it; i++)
  {
    const auto & t = o.tr[i], & p = o.tr[i - 1];
    if(t.alpha == 0 || t.ratio > d.c.ratio) continue; // no forward pass, or accepted
    x.check(t.lambda > p.lambda && t.lambda >= d.c.lmin, "not-raised", "no step was accepted in iteration " + std::to_string(i) + " but the regularization went " + ds(p.lambda) + " -> " + ds(t.lambda));
    x.count(p.lambda == 0 ? "raised_from_zero" : "raised");
  }
  double g0 = gnorm(gradU(*d.o, d.k0, d.x0, base));
  std::vector<Mat> quu; double g = gnorm(gradU(*d.o, d.k0, d.x0, o.u, &quu)); double qs = 1; for(auto & m : quu) if(m.size()) qs = std::max(qs, m.cwiseAbs().maxCoeff());
  double un = 1; for(auto & v : o.u) un = std::max(un, v.norm());
  if(ok && last.alpha == 0 && !d.c.limits) // small feed-forward gains
  {
    x.maxi("stationarity", g / (qs * un * d.c.kthre));
    x.check(g <= 50 * d.c.kthre * qs * un, "not-stationary", "success due to small gains (" + ds(last.krel) + ") but gradient " + ds(g));
    x.count("small_gain_success");
  }
  if(mode == 1 && g0 > 1e-2) { x.check(J < J0, "no-progress", "gradient " + ds(g0) + " at the guess, but no descent step was found in " + std::to_string(it) + " iterations, lambda " + ds(last.lambda)); x.count("progress_checked"); }
  if(indef) { x.count("indefinite_start"); x.observed(outSig(o)); }
  x.count(ok ? "ok" : "not_ok");
}
// C22 -------------------------------------------------------------------------------------------
static void c22(Ctx & x)
{
  DC d = genD(x, x.rng.in(0, 2)); d.c.limits = x.rng.chance(0.3); d.c.max_iter = x.rng.pick(std::vector<int>{0, 1, 2, 4, 8, 20, 60});
  if(!finiteRollout(d)) return;
  auto mk = [&]() { auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->limits(true); s->cfg(d.c); return s; };
  auto s = mk(); 
  if(x.rng.chance(0.4)) { auto c2 = d.c; c2.max_iter = 7; s->cfg(c2); s->solve(d.t(), d.x0, randU(x.rng, *d.o, d.k0, d.N, 1)); s->cfg(d.c); } // an earlier solve must leave nothing
  bool fault = x.rng.chance(0.15); // make the backward pass fail at the end
  if(fault) { d.rec->total = 0; d.rec->sticky = true; d.rec->faultVal = x.rng.chance(0.5) ? std::nan("") : -1e9; d.rec->faultAt = 2 * d.N + 1 + x.rng.in(0, 8 * d.N); d.rec->faultElem = 3; }
  bool ok = s->solve(d.t(), d.x0, d.u0); DdpOut o = s->out(); d.rec->faultAt = -1;
  int n = (int)o.tr.size() - 1;
  x.check(n >= 0, "trace-empty", "no initial trace entry");
  for(int i = 0; i <= n; i++) x.check(o.tr[i].iter == i, "iter", "entry " + std::to_string(i) + " has iteration " + std::to_string(o.tr[i].iter));
  x.check(n <= d.c.max_iter, "too-many", std::to_string(n) + " entries for max_iter " + std::to_string(d.c.max_iter));
  double sc = 1 + o.cost.cwiseAbs().sum();
  x.checkf(std::abs(o.tr[n].cost - o.cost.sum()) <= 1e-10 * sc, "last-cost", [&] { return "last trace cost " + ds(o.tr[n].cost) + " but the returned trajectory costs " + ds(o.cost.sum()) + " (entry " + std::to_string(n) + ", ok=" + std::to_string(ok) + ")"; });
  auto base = d.c.limits ? clipU(*d.o, d.k0, d.u0) : d.u0; double J0 = d.o->total(d.k0, d.x0, base);
  x.check(std::abs(o.tr[0].cost - J0) <= 1e-9 * (1 + std::abs(J0) + sc), "first-cost", "entry 0 cost " + ds(o.tr[0].cost) + " but the guess costs " + ds(J0));
  std::vector<Vec> pu = base;
  for(int m = 1; m <= n; m++)
  {
    const auto & t = o.tr[m]; bool listed = t.alpha == 0; const Vec al = d.c.alphas.size() ? d.c.alphas : s->defaultAlphas(); for(int i = 0; i < al.size(); i++) listed |= t.alpha == al[i];
    if(m < n || (!ok && !(t.lambda > d.c.lmax) && !fault)) x.check(t.alpha != 0, "alpha-tried", "entry " + std::to_string(m) + " of " + std::to_string(n) + " did not end the solve, so that step lengths were tried, but records none");
    x.check(listed, "alpha", "entry " + std::to_string(m) + " has step length " + ds(t.alpha) + ", which is not in the list");
    if(t.alpha != 0 && t.exp > 0 && std::isfinite(t.act)) x.check(closeD(t.ratio, t.act / t.exp, 1e-9), "entry-ratio", "entry " + std::to_string(m) + " ratio " + ds(t.ratio) + " but " + ds(t.act) + " / " + ds(t.exp));
    if(t.alpha != 0 && !(t.ratio > d.c.ratio)) x.check(t.alpha == al[al.size() - 1], "alpha-last", "entry " + std::to_string(m) + " was rejected at step length " + ds(t.alpha) + " before the list ended");
  }
  if(ok && n > 0 && o.tr[n].alpha == 0) x.check(o.tr[n].krel < d.c.kthre, "krel-end", "ended because of small gains but records " + ds(o.tr[n].krel));
  if(!fault)
    for(int m = 1; m <= n; m++)
    {
      // the first input moves by step length times feed-forward gain, because the first state is fixed
      auto c = d.c; c.max_iter = m; DdpOut p; if(m < n) { auto q = mk(); q->cfg(c); q->solve(d.t(), d.x0, d.u0); p = q->out(); } else p = o;
      const auto & t = o.tr[m]; int nu = pu[0].size();
      if(t.alpha != 0 && nu && !d.c.limits)
      {
        double k = (p.u[0] - pu[0]).norm() / t.alpha / (pu[0].norm() + 1), un = pu[0].norm(); bool acc = t.ratio > d.c.ratio;
        if(acc && d.N == 1) { x.check(std::abs(k - t.krel) <= 1e-9 * t.krel + 1e-13 * (1 + un) / t.alpha, "krel", "entry " + std::to_string(m) + " records gain norm " + ds(t.krel) + " and step length " + ds(t.alpha) + ", but the input moved as for gain norm " + ds(k)); x.count("krel_exact"); }
        else if(acc) x.check(k <= t.krel * (1 + 1e-9) + 1e-13 * (1 + un) / t.alpha, "krel-bound", "entry " + std::to_string(m) + " records gain norm " + ds(t.krel) + " and step length " + ds(t.alpha) + ", but the first input moved as for " + ds(k));
      }
      pu = p.u;
    }
  if(!fault)
    for(int m = 1; m < n; m++)
    {
      auto c = d.c; c.max_iter = m; auto q = mk(); q->cfg(c); q->solve(d.t(), d.x0, d.u0); DdpOut p = q->out();
      x.check(std::abs(p.cost.sum() - o.tr[m].cost) <= 1e-10 * sc, "entry-cost", "entry " + std::to_string(m) + " cost " + ds(o.tr[m].cost) + " but the trajectory after that iteration costs " + ds(p.cost.sum()));
      if(o.tr[m].cost != o.tr[m - 1].cost) x.check(closeD(o.tr[m - 1].cost - o.tr[m].cost, o.tr[m].act, 1e-9 * sc), "entry-update", "entry " + std::to_string(m) + " recorded update " + ds(o.tr[m].act));
      x.count("entries_checked");
    }
  // dump
  std::string path = tmpPath("ddp"); { std::ofstream f(path); for(int i = 0; i < 400; i++) f << "junk junk junk " << i << "\n"; }
  s->dump(path); auto lines = readLines(path); unlink(path.c_str());
  std::vector<std::vector<double>> rows; for(auto & t : o.tr) rows.push_back({(double)t.iter, t.cost, t.lambda, t.dlambda, t.alpha, t.krel, t.act, t.exp, t.ratio, t.dur[0], t.dur[1], t.dur[2]});
  checkDump(x, lines, rows, {"iter", "cost", "lambda", "dlambda", "alpha", "k_rel_norm", "cost_update_actual", "cost_update_expected", "cost_update_ratio", "duration_derivative", "duration_backward", "duration_forward"});
  if(n > 0) x.observed(outSig(o));
  x.count(ok ? "ok" : "not_ok"); if(ok && o.tr[n].alpha == 0) x.count("small_gradient_end"); if(fault && d.rec->fired >= 0) x.count("failure_end");
}
// C12 -------------------------------------------------------------------------------------------
static void c12(Ctx & x)
{
  bool lq = x.rng.chance(0.7);
  DC d = genD(x, lq ? 0 : 1, true, -2, 6); d.c.limits = x.rng.chance(0.25); d.c.max_iter = x.rng.chance(0.5) ? 500 : x.rng.in(1, 20);
  if(x.rng.chance(0.3)) d.c.lam0 = x.rng.pick(std::vector<double>{0, 1e-6}); // termination possible in the very first iteration
  if(x.rng.chance(0.3)) { auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); s->limits(true); s->cfg(d.c); s->solve(d.t(), d.x0, d.u0); d.u0 = s->out().u; } // start at the solution
  if(!finiteRollout(d)) return;
  auto s0 = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s0->limits(true); s0->cfg(d.c); s0->solve(d.t(), d.x0, d.u0);
  long T = d.rec->total; int init = 2 * d.N + 1; // callbacks of the initial rollout
  std::vector<long> pos; long cap = x.thorough ? 400 : 60;
  if(T <= cap) for(long p = 0; p < T; p++) pos.push_back(p); else { for(long p = 0; p < cap / 2; p++) pos.push_back(p); for(long p = 0; p < cap / 2; p++) pos.push_back(x.rng.next() % T); }
  const double vals[] = {std::nan(""), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 1e160, -1e180, 1e200, -1e220};
  for(long p : pos)
  {
    bool huge = x.rng.chance(0.25); auto r = std::make_shared<Rec>(); r->faultAt = p; r->faultVal = vals[huge ? x.rng.in(3, 6) : x.rng.in(0, 2)]; r->faultElem = x.rng.in(0, 30); r->sticky = x.rng.chance(0.3); r->mask = x.rng.chance(0.3);
    auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, r); s->limits(true); s->cfg(d.c);
    bool ok = s->solve(d.t(), d.x0, d.u0); DdpOut o = s->out();
    if(r->fired < 0) continue;
    x.count(std::string("fault_") + cbName(r->fired)); x.count(ok ? "recovered" : "failed"); if(r->mask && r->fired == CbStateEq) x.count("state_without_cost");
    std::string w = std::string(cbName(r->fired)) + " call " + std::to_string(p) + " returned " + ds(r->faultVal) + (r->sticky ? " from then on" : "") + " (element " + std::to_string(r->faultElem) + ")";
    bool fin = o.cost.allFinite() && allFinite(o.x) && allFinite(o.u);
    if(ok) x.check(fin, "success-nonfinite", "success with a non-finite trajectory after " + w);
    if(p >= init) x.check(fin, "result-nonfinite", "non-finite trajectory although the initial rollout was finite; " + w);
    if(huge) { x.count("overflow"); x.observed(hcomb(hcomb(p, r->fired), outSig(o))); continue; } // finite values: only what overflows is monitored
    if(fin && p >= init)
    {
      double J0 = d.o->total(d.k0, d.x0, d.c.limits ? clipU(*d.o, d.k0, d.u0) : d.u0), J = d.o->total(d.k0, d.x0, o.u);
      x.check(J <= J0 + 1e-9 * (1 + std::abs(J0) + o.cost.cwiseAbs().sum()), "worse", "trajectory worse than the guess after " + w);
      std::vector<Vec> xs; Vec c; d.o->rollout(d.k0, d.x0, o.u, xs, c);
      x.check(relDiff(xs, o.x) < 1e-9 && relDiff(c, o.cost) < 1e-9, "corrupted-result", "the returned trajectory contains the corrupted values after " + w);
    }
    if(ok && lq && !d.c.limits)
    {
      std::vector<Mat> quu; double g = gnorm(gradU(*d.o, d.k0, d.x0, o.u, &quu)); double qs = 1; for(auto & m : quu) if(m.size()) qs = std::max(qs, m.cwiseAbs().maxCoeff()); double un = 1; for(auto & v : o.u) un = std::max(un, v.norm());
      x.maxi("grad_after_recovery", g / (qs * un));
      x.check(g <= 2e-2 * qs * un, "false-success", "success but gradient " + ds(g) + " after " + w);
    }
    if(ok && r->sticky && (r->fired == CbDTerm)) x.check(o.tr.size() > 1, "x", "");
    // gains of the last iteration came from finite data: with a permanently corrupted derivative no later success is possible
    if(r->sticky && p >= init && p < init + 2 * d.N + 1 && d.N >= 1 && (r->fired == CbDTerm))
    {
      bool hasInput = false; for(auto & v : o.u) hasInput |= v.size() > 0;
      bool bz = false; for(int i = 0; i < d.N; i++) if(d.o->st[d.k0 + i].nu && d.o->st[d.k0 + i].B.cwiseAbs().minCoeff() > 0) bz = true;
      if(hasInput && bz && d.o->st[d.k0 + d.N - 1].nu && d.o->st[d.k0 + d.N - 1].B.cwiseAbs().minCoeff() > 0) { x.check(!ok, "success-nan-gain", "success although the terminal derivative is always non-finite; " + w); x.count("terminal_derivative_always_bad"); }
    }
    x.observed(hcomb(hcomb(p, r->fired), outSig(o)));
  }
  x.count("positions", pos.size());
}
// C18 -------------------------------------------------------------------------------------------
static void c18(Ctx & x)
{
  DC d = genD(x, x.rng.in(0, 2)); d.c.limits = x.rng.chance(0.3); d.c.max_iter = x.rng.in(0, 15);
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->limits(true);
  int n = x.rng.in(1, x.thorough ? 8 : 4); uint64_t h = 0;
  for(int q = 0; q < n; q++)
  {
    DdpCfg c = randCfg(x); c.limits = x.rng.chance(0.3); c.max_iter = x.rng.in(0, 10); c.print_level = 0;
    int N = x.rng.in(1, d.N + d.g.extra), k0 = x.rng.in(0, d.N + d.g.extra - N); c.N = N;
    auto u = randU(x.rng, *d.o, k0, N, x.rng.logu(0.1, 3)); int kind = x.rng.in(0, 5);
    Rec & r = *d.rec; r.total = 0; r.faultAt = -1; r.throwAt = -1; r.sticky = false;
    if(kind == 0) { r.faultAt = x.rng.in(0, 6 * N); r.faultVal = x.rng.chance(0.5) ? std::nan("") : std::numeric_limits<double>::infinity(); r.sticky = x.rng.chance(0.5); r.faultElem = x.rng.in(0, 20); }
    if(kind == 1) r.throwAt = x.rng.in(0, 6 * N);
    if(kind == 2) { if(x.rng.chance(0.5) || d.kind.nu >= 0) u.push_back(u.back()); else u[x.rng.in(0, N - 1)] = Vec::Zero(7); }
    if(kind == 3) c.second = true;
    s->cfg(c);
    try { bool ok = s->solve(d.o->time(k0), x.rng.vec(d.g.nx), u); x.count(ok ? "prior_ok" : "prior_not_ok"); }
    catch(const std::exception &) { x.count("prior_exception"); }
    h = hcomb(h, kind * 1000 + N);
  }
  d.rec->faultAt = d.rec->throwAt = -1;
  s->cfg(d.c); bool oka = s->solve(d.t(), d.x0, d.u0); DdpOut a = s->out();
  auto f = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); f->limits(true); f->cfg(d.c); f->solve(d.t(), d.x0, d.u0); DdpOut b = f->out();
  std::string why; x.check(sameOut(a, b, 1e-12, why), "history", "solve after " + std::to_string(n) + " earlier solves differs from a fresh solver: " + why);
  (void)oka; x.observed(hcomb(h, outSig(a)));
  // and the same again
  s->solve(d.t(), d.x0, d.u0); DdpOut c = s->out(); x.check(sameOut(c, b, 1e-12, why), "repeat", "repeating the same solve differs: " + why);
  x.count("ddp_compared", 2);
}
// C21 -------------------------------------------------------------------------------------------
static void c21(Ctx & x)
{
  DC d = genD(x, x.rng.in(0, 1), false, x.rng.chance(0.6) ? -1 : -2); d.c.limits = x.rng.chance(0.3); d.c.max_iter = x.rng.in(0, 8); d.c.N = d.N;
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->limits(true); s->cfg(d.c);
  int kind = x.rng.in(0, 4); auto u = d.u0; std::string what; bool anyCall = false;
  if(kind == 0) { u.push_back(Vec::Zero(d.o->st[d.k0 + d.N - 1].nu)); what = "too long"; }
  else if(kind == 1) { u.pop_back(); what = "too short"; }
  else if(kind == 2 && d.kind.nu < 0) { int i = x.rng.in(0, d.N - 1); int n = u[i].size(); u[i] = Vec::Zero(x.rng.chance(0.5) || n == 0 ? n + x.rng.in(1, 2) : n - 1); what = "dimension at " + std::to_string(i); x.count("dim_fault"); }
  else if(kind == 3) { d.c.second = true; d.c.max_iter = std::max(1, d.c.max_iter); s->cfg(d.c); what = "second-order derivatives"; anyCall = true; x.count("second_order"); }
  else if(kind == 4 && d.kind.nu < 0) { d.rec->noDim = true; what = "missing inputDim override"; x.count("missing_dim"); }
  else { u.clear(); what = "empty"; }
  bool thrown = false; std::string other;
  try { s->solve(d.t(), d.x0, u); } catch(const std::exception & e) { thrown = true; }
  x.check(thrown, "accepted", "malformed call was not rejected: " + what);
  if(!anyCall) { long c = 0; for(int k : {CbStateEq, CbCost, CbTermCost, CbDStateEq, CbDCost, CbDTerm, CbLimits}) c += d.rec->calls[k]; x.check(c == 0, "work-before-check", std::to_string(c) + " stage callbacks before the rejection of: " + what); }
  x.count("rejected");
  d.rec->noDim = false; d.c.second = false; s->cfg(d.c);
  try { s->solve(d.t(), d.x0, d.u0); } catch(const std::exception & e) { x.fail("well-formed-rejected", std::string("well-formed call rejected: ") + e.what()); }
  auto f = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); f->limits(true); f->cfg(d.c); f->solve(d.t(), d.x0, d.u0);
  std::string why; x.check(sameOut(s->out(), f->out(), 1e-12, why), "after-rejection", "solve after rejection differs from a fresh solver: " + why);
  x.observed(hcomb(kind, outSig(f->out())));
}
// C23 -------------------------------------------------------------------------------------------
static void c23(Ctx & x)
{
  DC d = genD(x, x.rng.in(0, 2)); d.c.limits = x.rng.chance(0.4); d.c.max_iter = x.rng.in(0, 12);
  if(x.rng.chance(0.3)) d.c.lmax = x.rng.logu(1e-3, 10);
  int fk = x.rng.in(0, 4); long fat = x.rng.in(0, 8 * d.N); double fv = fk == 0 ? std::nan("") : fk == 1 ? std::numeric_limits<double>::infinity() : fk == 2 ? x.rng.pick(std::vector<double>{-1e6, 1e6, -50, 50, -3, 3}) : 0; int fe = x.rng.in(0, 40); bool sticky = x.rng.chance(0.7);
  auto run = [&](int pl, std::string & text) {
    auto r = std::make_shared<Rec>(); if(fk <= 2) { r->faultAt = fat; r->faultVal = fv; r->faultElem = fe; r->sticky = sticky; }
    auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, r); s->limits(true);
    DdpCfg c = d.c;
    bool pre = x.idx % 3 == 0; // an earlier verbose solve must not leave verbosity behind
    Capture cap0; if(pre) { DdpCfg v = c; v.print_level = 3; v.max_iter = 2; s->cfg(v); s->solve(d.t(), d.x0, d.u0); r->total = 0; } cap0.stop();
    c.print_level = pl; s->cfg(c);
    Capture cap; try { s->solve(d.t(), d.x0, d.u0); } catch(...) { cap.stop(); throw; } text = cap.stop();
    return s->out();
  };
  std::string t0; DdpOut a = run(0, t0);
  x.check(t0.empty(), "output", "print level 0 wrote: " + t0.substr(0, 200));
  for(int pl = 1; pl <= 3; pl++)
  {
    std::string t; DdpOut b = run(pl, t); std::string why;
    x.check(sameOut(a, b, 1e-13, why), "result", "print level " + std::to_string(pl) + " changes the result: " + why);
    if(!t.empty()) x.count("verbose_output_level" + std::to_string(pl));
    if(t.find("not expected") != std::string::npos) x.count("situation_not_expected");
    if(t.find("BoxQP") != std::string::npos) x.count("situation_boxqp_failure");
    if(t.find("large lambda") != std::string::npos) x.count("situation_large_lambda");
    if(pl == 1 && !t.empty()) x.count("situations_with_messages");
  }
  x.observed(outSig(a));
}

// C27 -------------------------------------------------------------------------------------------
struct Wall
{
  std::chrono::system_clock::time_point a = std::chrono::system_clock::now(); std::chrono::steady_clock::time_point b = std::chrono::steady_clock::now(); double sys = 0, mono = 0;
  bool stop() { sys = 1e3 * std::chrono::duration<double>(std::chrono::system_clock::now() - a).count(); mono = 1e3 * std::chrono::duration<double>(std::chrono::steady_clock::now() - b).count(); return std::abs(sys - mono) <= 0.02 * mono + 0.02; } // false: the wall clock was adjusted meanwhile
};
static void c27(Ctx & x)
{
  DC d = genD(x, x.rng.in(0, 2), false, -2, 8); d.c.limits = x.rng.chance(0.4); Rng & r = x.rng; int N = d.N; if(r.chance(0.3)) d.c.lmax = r.logu(1e-3, 10);
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->limits(true); Rec & rc = *d.rec; rc.timing = true; int n = r.in(2, 3); uint64_t h = 0; std::string desc = x.desc;
  for(int q = 0; q < n; q++)
  {
    d.c.max_iter = r.in(0, 8); s->cfg(d.c); rc.spin = r.chance(0.3) ? 0 : r.uni(0.5, 15); rc.total = 0; rc.throwAt = r.chance(0.1) ? r.in(0, 6 * N) : -1;
    rc.resetTiming(); rc.setupCalls[CbStateEq] = rc.setupCalls[CbCost] = N; rc.setupCalls[CbTermCost] = 1; x.desc = desc + " solve " + std::to_string(q) + " max_iter=" + std::to_string(d.c.max_iter) + " spin=" + ds(rc.spin);
    Wall w; bool thrown = false; try { s->solve(d.t(), d.x0, d.u0); } catch(const std::domain_error &) { thrown = true; } bool clock = w.stop();
    if(thrown) { x.count("interrupted"); continue; } if(!clock) { x.count("clock_adjusted"); continue; }
    auto D = s->dur(); DdpOut o = s->out(); double e = 1e-5 + 1e-9 * w.sys; static const char * nm[] = {"solve", "setup", "opt", "derivative", "backward", "forward", "Q", "reg", "gain"};
    for(int i = 0; i < 9; i++) x.check(std::isfinite(D[i]) && D[i] >= 0, "negative", std::string("duration ") + nm[i] + " is " + ds(D[i]));
    x.check(D[0] <= w.sys + e, "too-long", "solve duration " + ds(D[0]) + " ms exceeds the " + ds(w.sys) + " ms the call took");
    x.check(std::abs(D[0] - D[1] - D[2]) <= e, "split", "solve duration " + ds(D[0]) + " is not setup " + ds(D[1]) + " plus optimization " + ds(D[2]));
    x.check(D[3] + D[4] + D[5] <= D[2] + e, "phases", "derivative, backward and forward take " + ds(D[3] + D[4] + D[5]) + " of " + ds(D[2]) + " ms of the optimization");
    std::array<double, 3> t = {0, 0, 0}; for(auto & a : o.tr) for(int i = 0; i < 3; i++) { x.check(a.dur[i] >= 0, "negative", "negative trace duration"); t[i] += a.dur[i]; }
    for(int i = 0; i < 3; i++) x.check(std::abs(t[i] - D[3 + i]) <= e, "trace-sum", std::string("duration ") + nm[3 + i] + " is " + ds(D[3 + i]) + " but the iterations recorded " + ds(t[i]));
    if(o.tr.back().lambda <= d.c.lmax) { x.check(D[6] + D[7] + D[8] <= D[4] + e, "backward-parts", "parts of the backward pass take " + ds(D[6] + D[7] + D[8]) + " of " + ds(D[4]) + " ms"); x.count("backward_parts"); }
    double dd = rc.spent[CbDStateEq] + rc.spent[CbDCost] + rc.spent[CbDTerm], fw = rc.spent[CbStateEq] + rc.spent[CbCost] + rc.spent[CbTermCost];
    x.check(D[1] >= rc.spentSetup - e, "setup-missing", "setup duration " + ds(D[1]) + " but the initial rollout alone spent " + ds(rc.spentSetup) + " ms in callbacks");
    x.check(D[3] >= dd - e, "derivative-missing", "derivative duration " + ds(D[3]) + " but derivative callbacks spent " + ds(dd) + " ms");
    x.check(D[5] >= fw - e, "forward-missing", "forward duration " + ds(D[5]) + " but the rollouts spent " + ds(fw) + " ms in callbacks");
    x.maxi("accounted_share", (rc.spentSetup + dd + fw) / (D[0] + 1e-6)); if(fw > 0) x.count("forward_timed"); if(q) x.count("later_solve"); if(o.tr.size() > 1) x.count("iterated"); h = hcomb(h, outSig(o)); x.observed(h); x.count("solves_timed");
  }
}
// C28 -------------------------------------------------------------------------------------------
static void c28(Ctx & x) { DC d = genD(x, 0, true, -2, 2); auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); x.desc = "DDP<" + std::to_string(d.kind.nx) + "," + std::to_string(d.kind.nu) + ">::ControlData"; std::string w = s->containers(x.rng, x.r.counters); x.check(w.empty(), "control-data", w); x.observed(x.rng.next()); }
// C30 -------------------------------------------------------------------------------------------
static void c30(Ctx & x)
{
  DC d = genD(x, x.rng.in(0, 2), false, -2, x.thorough ? 40 : 14); d.c.limits = x.rng.chance(0.4); d.c.max_iter = x.rng.chance(0.3) ? 500 : x.rng.in(0, 20); Rng & r = x.rng; if(r.chance(0.2)) d.c.lmax = r.logu(1e-3, 10);
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->limits(true); s->cfg(d.c); Vec al = d.c.alphas.size() ? d.c.alphas : s->defaultAlphas(); Rec & rc = *d.rec; int n = r.in(1, 2);
  for(int q = 0; q < n; q++)
  {
    rc.total = 0; rc.faultAt = -1; rc.fired = -1; rc.sticky = false; if(r.chance(0.3)) { rc.faultAt = r.in(0, 12 * d.N); rc.faultVal = r.pick(std::vector<double>{std::nan(""), INFINITY, -INFINITY, 1e200, -1e6}); rc.faultElem = r.in(0, 20); rc.sticky = r.chance(0.3); }
    std::vector<Vec> ug = q ? s->out().u : d.u0; if(!allFinite(ug)) ug = d.u0;
    for(int k = 0; k < CbN; k++) rc.calls[k] = 0; s->solve(d.t(), d.x0, ug); DdpOut o = s->out(); long I = (long)o.tr.size() - 1, roll = 1; if(rc.fired >= 0) x.count("ddp_faulty_values");
    x.check(I >= 0 && I <= d.c.max_iter, "iterations", std::to_string(I) + " iterations with a limit of " + std::to_string(d.c.max_iter));
    for(long i = 1; i <= I; i++) { if(o.tr[i].alpha == 0) continue; long t = al.size(); for(int j = 0; j < al.size(); j++) if(al[j] == o.tr[i].alpha) { t = j + 1; break; } roll += t; }
    auto lim = [&](int cb, long m) { x.check(rc.calls[cb] <= m, "calls", std::string(cbName(cb)) + " was called " + std::to_string(rc.calls[cb]) + " times instead of at most " + std::to_string(m) + " (" + std::to_string(I) + " iterations, " + std::to_string(roll) + " rollouts, horizon " + std::to_string(d.N) + ")"); };
    lim(CbStateEq, roll * d.N); lim(CbCost, roll * d.N); lim(CbTermCost, roll); lim(CbDStateEq, I * d.N); lim(CbDCost, I * d.N); lim(CbDTerm, I);
    x.count("ddp_iterations", I); x.count("ddp_rollouts", roll); if(roll > I + 1) x.count("ddp_backtracked"); if(q) x.count("ddp_warm_started"); x.observed(outSig(o));
  }
}
// C33 -------------------------------------------------------------------------------------------
// Online checker of the trace: every entry must be explained by the configured regularization schedule, and the solve must end at the
// first iteration that meets a configured criterion, with the result that belongs to it.
static void c33(Ctx & x)
{
  Rng & r = x.rng; DC d = genD(x, r.in(0, 2), false, -2, 10); DdpCfg & c = d.c; c.limits = r.chance(0.3); if(!finiteRollout(d)) return;
  c.max_iter = r.pick(std::vector<int>{0, 1, 2, 3, 5, 8, 20, 100}); c.lam0 = r.chance(0.2) ? 0 : r.logu(1e-8, 10); c.dlam0 = r.chance(0.5) ? 1 : r.logu(0.1, 10); c.lamf = r.chance(0.3) ? 1.6 : r.uni(1.1, 6); c.lmin = r.chance(0.3) ? 1e-6 : r.logu(1e-9, 1e-1); c.lmax = r.chance(0.5) ? 1e10 : r.logu(1e-2, 1e4); c.lmax = std::max(c.lmax, 10 * std::max(c.lmin, c.lam0));
  c.kthre = r.chance(0.3) ? 1e-4 : r.logu(1e-9, 1); c.lthre = r.chance(0.3) ? 1e-5 : r.logu(1e-8, 1); c.cthre = r.chance(0.3) ? 1e-7 : r.logu(1e-13, 10); if(r.chance(0.2)) c.ratio = r.uni(0, 1.5); if(r.chance(0.2)) { c.alphas.resize(r.in(1, 3)); for(int i = 0; i < c.alphas.size(); i++) c.alphas[i] = (i ? 0.5 * c.alphas[i - 1] : r.uni(0.5, 1.5)); }
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); s->limits(true); s->cfg(c); bool ok = s->solve(d.t(), d.x0, d.u0); DdpOut o = s->out(); int n = (int)o.tr.size() - 1;
  x.check(n >= 0 && o.tr[0].lambda == c.lam0 && o.tr[0].dlambda == c.dlam0, "initial", "the solve started with regularization " + ds(n >= 0 ? o.tr[0].lambda : 0) + " instead of the configured " + ds(c.lam0));
  auto up = [&](double & L, double & D) { D = std::max(D * c.lamf, c.lamf); L = std::max(L * D, c.lmin); };
  auto eq = [](double a, double b) { return std::abs(a - b) <= 1e-11 * (std::abs(a) + std::abs(b)); };
  bool ended = false, good = false;
  for(int m = 1; m <= n; m++)
  {
    const auto & t = o.tr[m]; const auto & p = o.tr[m - 1]; std::string e = "entry " + std::to_string(m) + " of " + std::to_string(n) + ": ";
    if(!std::isfinite(t.krel) || !std::isfinite(t.cost) || (t.alpha != 0 && (!std::isfinite(t.act) || !std::isfinite(t.exp)))) { x.count("skipped_not_finite"); return; }
    bool tried = t.alpha != 0, acc = tried && t.ratio > c.ratio; double L = p.lambda, D = p.dlambda; int j = 0; bool found = false;
    if(tried && std::abs(t.ratio - c.ratio) <= 1e-12 * (1 + std::abs(c.ratio))) return;
    for(; j < 400; j++)
    {
      double l = L, k = D; if(acc) { k = std::min(D / c.lamf, 1 / c.lamf); l = L >= c.lmin ? L * k : 0; } else if(tried) up(l, k);
      if(eq(l, t.lambda) && eq(k, t.dlambda) && (tried || ok || m < n || L > c.lmax || n == c.max_iter)) { found = true; break; }
      if(L > c.lmax) break;
      up(L, D);
    }
    x.check(found, acc ? "reduction" : tried ? "raise-after-line-search" : "raise-in-backward-pass", e + "regularization " + ds(p.lambda) + " (scaling " + ds(p.dlambda) + ") -> " + ds(t.lambda) + " (" + ds(t.dlambda) + ") does not follow the configured schedule (factor " + ds(c.lamf) + ", minimum " + ds(c.lmin) + ", maximum " + ds(c.lmax) + "), step " + (acc ? "accepted" : tried ? "refused" : "not tried"));
    if(j) x.count("raised_in_backward"); if(tried) x.count(acc ? (t.lambda == 0 ? "dropped_to_zero" : "reduced") : "raised_after_line_search"); 
    // what this iteration must have led to
    bool failBack = L > c.lmax && !tried, small = !failBack && t.krel < c.kthre && L < c.lthre, fine = acc && t.act < c.cthre, failFwd = tried && !acc && t.lambda > c.lmax;
    if(L > c.lmax && tried && j) x.check(false, "beyond-maximum", e + "step tried with regularization " + ds(L) + " above the maximum " + ds(c.lmax));
    if(std::abs(t.krel - c.kthre) <= 1e-12 * c.kthre || std::abs(L - c.lthre) <= 1e-10 * c.lthre || (tried && std::abs(t.act - c.cthre) <= 1e-12 * c.cthre)) { x.count("at_threshold"); return; }
    x.check(small ? !tried : (tried || failBack), "step-tried", e + (tried ? "a step was tried although" : "no step was tried although not") + " the relative gain " + ds(t.krel) + " and regularization " + ds(L) + " are below their thresholds " + ds(c.kthre) + ", " + ds(c.lthre));
    ended = failBack || small || fine || failFwd; good = small || fine;
    if(ended) x.count(failBack ? "end_backward" : small ? "end_gain" : fine ? "end_cost" : "end_forward");
    x.check(!ended || m == n, "continued", e + "the solve went on although it should have ended (gain " + ds(t.krel) + ", cost update " + ds(t.act) + ", regularization " + ds(t.lambda) + ")");
  }
  x.check(ended || n == c.max_iter, "early-end", "the solve ended after " + std::to_string(n) + " of " + std::to_string(c.max_iter) + " iterations without meeting a criterion");
  x.check(ok == (ended && good), "result", std::string("the solve returned ") + (ok ? "success" : "failure") + " but its last iteration " + (ended ? good ? "met a convergence criterion" : "exceeded the maximum regularization" : "met no criterion"));
  if(!ended) x.count("end_limit"); if(n > 1) x.observed(outSig(o));
}
// C36 -------------------------------------------------------------------------------------------
static void c36(Ctx & x)
{
  Rng & r = x.rng; DC d = genD(x, r.in(0, 2), false, -2, 10); d.c.limits = r.chance(0.4); if(!finiteRollout(d)) return; int n = r.in(2, x.thorough ? 25 : 12); d.c.max_iter = n; if(r.chance(0.5)) { d.c.kthre = 1e-9; d.c.cthre = 1e-13; }
  d.c.lmax = std::max(d.c.lmax, 10 * d.c.lam0);
  auto mk = [&]() { auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); s->limits(true); s->cfg(d.c); return s; };
  auto f = mk(); f->solve(d.t(), d.x0, d.u0); DdpOut whole = f->out(); int T = (int)whole.tr.size() - 1; if(T < 2) { x.count("ddp_short"); return; }
  for(auto & t : whole.tr) if(!std::isfinite(t.krel) || !std::isfinite(t.lambda) || t.lambda > 1e8) return;
  auto s = mk(); int at = 0, parts = 0; DdpOut p; std::vector<Vec> u = d.u0; double lam = d.c.lam0, dl = d.c.dlam0;
  while(at < T)
  {
    if(parts && r.chance(0.5)) s = mk(); // continued with another object or with the same one
    DdpCfg c = d.c; c.max_iter = r.in(1, T - at); if(at + c.max_iter == T) c.max_iter = n - at; c.lam0 = lam; c.dlam0 = dl; s->cfg(c); s->solve(d.t(), d.x0, u); p = s->out(); int m = (int)p.tr.size() - 1; parts++;
    x.check(m >= 1 && at + m <= T, "ddp-length", "the whole solve took " + std::to_string(T) + " iterations, but the parts more than " + std::to_string(at + m - 1)); if(m < 1) return;
    for(int i = 1; i <= m; i++)
    {
      const auto & a = whole.tr[at + i], & b = p.tr[i]; double sc = 1e-9 * (1 + whole.cost.cwiseAbs().sum() + std::abs(a.cost));
      x.check(a.alpha == b.alpha && closeD(a.lambda, b.lambda, 1e-9) && closeD(a.cost, b.cost, sc) && closeD(a.krel, b.krel, 1e-7 * (1 + a.krel)), "ddp-iteration", "iteration " + std::to_string(at + i) + " of the whole solve: cost " + ds(a.cost) + " step " + ds(a.alpha) + " lambda " + ds(a.lambda) + " gain " + ds(a.krel) + ", when continued after iteration " + std::to_string(at) + ": cost " + ds(b.cost) + " step " + ds(b.alpha) + " lambda " + ds(b.lambda) + " gain " + ds(b.krel)); x.count("ddp_iterations_compared");
    }
    at += m; u = p.u; lam = p.tr[m].lambda; dl = p.tr[m].dlambda; if(p.ok || lam > d.c.lmax) break;
  }
  x.check(at == T && p.ok == whole.ok, "ddp-result", "whole solve: " + std::to_string(T) + " iterations, result " + std::to_string(whole.ok) + "; in parts: " + std::to_string(at) + ", " + std::to_string(p.ok));
  x.check(relDiff(p.u, whole.u) <= 1e-8 && relDiff(p.x, whole.x) <= 1e-8, "ddp-trajectory", "solving in parts gives another trajectory: inputs differ by " + ds(relDiff(p.u, whole.u))); if(parts > 1) { x.count("ddp_split"); x.observed(outSig(whole)); }
}
// C37 -------------------------------------------------------------------------------------------
static void c37(Ctx & x)
{
  Rng & r = x.rng; DC d = genD(x, r.in(0, 2), false, -2, 10); d.c.limits = r.chance(0.25); d.c.max_iter = r.in(1, 20); if(!finiteRollout(d)) return; int kc = d.c.limits ? 0 : 2 * r.in(-20, 20), kx = r.in(-20, 20); double cu = std::ldexp(1.0, kc), xu = std::ldexp(1.0, kx); if(!kc && !kx) return;
  if(r.chance(0.3)) d.c.lam0 = r.logu(1e-3, 1);
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, d.rec); s->limits(true); s->cfg(d.c); bool ok = s->solve(d.t(), d.x0, d.u0); DdpOut o = s->out(); for(auto & t : o.tr) if(!std::isfinite(t.cost) || std::abs(t.cost) > 1e60 || !(t.lambda < 1e9)) return;
  auto rc = std::make_shared<Rec>(); rc->unit = cu; rc->xunit = xu; DdpCfg c = d.c; double l = d.c.reg_type == 1 ? cu : cu / xu / xu; c.lam0 *= l; c.lmin *= l; c.lmax *= l; c.lthre *= l; c.cthre *= cu;
  auto q = makeDdp(d.kind.nx, d.kind.nu, d.o, rc); q->limits(true); q->cfg(c); bool ok2 = q->solve(d.t(), Vec(xu * d.x0), d.u0); DdpOut p = q->out(); std::string w = " (cost unit 2^" + std::to_string(kc) + ", state unit 2^" + std::to_string(kx) + ")";
  x.check(ok == ok2 && o.tr.size() == p.tr.size(), "ddp-units", "result " + std::to_string(ok) + " after " + std::to_string(o.tr.size() - 1) + " iterations becomes " + std::to_string(ok2) + " after " + std::to_string(p.tr.size() - 1) + " in other units" + w); if(o.tr.size() != p.tr.size()) return;
  for(auto & v : p.x) v /= xu; x.check(relDiff(o.u, p.u) <= 1e-10 && relDiff(o.x, p.x) <= 1e-10, "ddp-units-trajectory", "inputs differ by " + ds(relDiff(o.u, p.u)) + ", states by " + ds(relDiff(o.x, p.x)) + " in other units" + w);
  for(size_t i = 0; i < o.tr.size(); i++) { const auto & a = o.tr[i], & b = p.tr[i]; x.check(a.alpha == b.alpha && closeD(a.cost, b.cost / cu, 1e-10 * (1 + std::abs(a.cost))) && closeD(a.lambda, b.lambda / l, 1e-10) && closeD(a.krel, b.krel, 1e-9), "ddp-units-trace", "iteration " + std::to_string(i) + " differs in other units: cost " + ds(a.cost) + "/" + ds(b.cost / cu) + " lambda " + ds(a.lambda) + "/" + ds(b.lambda / l) + " step " + ds(a.alpha) + "/" + ds(b.alpha) + w); }
  if(kc) x.count("ddp_cost_unit"); if(kx) x.count(d.c.reg_type == 1 ? "ddp_state_unit_reg1" : "ddp_state_unit_reg2"); if(o.tr.size() > 2) x.observed(outSig(o));
}

// C31 -------------------------------------------------------------------------------------------
// Reference of one backward pass: plain recursion over dense matrices, box-constrained minimisers by enumeration of active sets.
struct RefStep { bool pd = true, clear = true; double cond = 1; std::vector<Vec> k; std::vector<Mat> K; double dV0 = 0, dV1 = 0; };
static RefStep refStep(const Ocp & o, int k0, const std::vector<Vec> & xs, const std::vector<Vec> & us, double lam, int reg, bool lim)
{
  RefStep r; int N = us.size(), nx = o.nx; r.k.resize(N); r.K.resize(N); Vec Vx; Mat Vxx; o.dphi(k0 + N, xs[N], Vx, Vxx);
  for(int i = N - 1; i >= 0; i--)
  {
    const Stage & st = o.st[k0 + i]; int m = st.nu; Mat A, B, Lxx, Luu, Lxu; Vec Lx, Lu; o.df(k0 + i, xs[i], us[i], A, B); o.dL(k0 + i, xs[i], us[i], Lx, Lu, Lxx, Luu, Lxu);
    Mat Vr = Vxx; if(reg == 2) Vr += lam * Mat::Identity(nx, nx);
    Vec Qx = Lx + A.transpose() * Vx, Qu = Lu + B.transpose() * Vx; Mat Qxx = Lxx + A.transpose() * Vxx * A, Qux = Lxu.transpose() + B.transpose() * Vxx * A, Quu = Luu + B.transpose() * Vxx * B;
    Mat G = Luu + B.transpose() * Vr * B, Gx = Lxu.transpose() + B.transpose() * Vr * A; if(reg == 1) G += lam * Mat::Identity(m, m);
    Vec k = Vec::Zero(m); Mat K = Mat::Zero(m, nx);
    if(m)
    {
      Eigen::SelfAdjointEigenSolver<Mat> es(Mat(0.5 * (G + G.transpose()))); double a = es.eigenvalues()[0], b = es.eigenvalues()[m - 1]; if(!(a > 1e-9 * std::max(1.0, std::abs(b)))) { r.pd = false; return r; } r.cond = std::max(r.cond, b / a);
      if(!lim) { Eigen::FullPivLU<Mat> lu(G); k = -lu.solve(Qu); K = -lu.solve(Gx); }
      else
      {
        // each input free (0), at its lower (1) or upper (2) limit; the first consistent combination is the minimiser
        int tot = 1; for(int j = 0; j < m; j++) tot *= 3; bool found = false; double sc = 1 + Qu.cwiseAbs().maxCoeff();
        for(int c = 0; c < tot && !found; c++)
        {
          std::vector<int> s(m), f; int q = c; Vec y = Vec::Zero(m); bool ok = true; for(int j = 0; j < m; j++, q /= 3) { s[j] = q % 3; if(s[j] == 0) f.push_back(j); else { y[j] = (s[j] == 1 ? st.lo[j] : st.up[j]) - us[i][j]; if(!std::isfinite(y[j])) ok = false; } }
          if(!ok) continue;
          int n = f.size(); Mat Gf(n, n), Gxf(n, nx); Vec gf(n); for(int p = 0; p < n; p++) { gf[p] = Qu[f[p]] + G.row(f[p]).dot(y); Gxf.row(p) = Gx.row(f[p]); for(int p2 = 0; p2 < n; p2++) Gf(p, p2) = G(f[p], f[p2]); }
          Mat Kf(n, nx); if(n) { Eigen::FullPivLU<Mat> lu(Gf); Vec yf = -lu.solve(gf); Kf = -lu.solve(Gxf); for(int p = 0; p < n; p++) y[f[p]] = yf[p]; }
          Vec gr = Qu + G * y; double mar = 1e300; // distance to another active set
          for(int j = 0; j < m && ok; j++)
          {
            double l = st.lo[j] - us[i][j], u = st.up[j] - us[i][j], dd;
            if(s[j] == 0) dd = std::min(y[j] - l, u - y[j]); else dd = s[j] == 1 ? gr[j] / sc : -gr[j] / sc;
            if(dd < 0) ok = false; mar = std::min(mar, dd);
          }
          if(!ok) continue;
          found = true; k = y; K.setZero(); for(int p = 0; p < n; p++) K.row(f[p]) = Kf.row(p); if(mar < 1e-4) r.clear = false;
        }
        if(!found) { r.clear = false; return r; }
      }
    }
    r.k[i] = k; r.K[i] = K; if(m) { r.dV0 += k.dot(Qu); r.dV1 += 0.5 * k.dot(Quu * k); }
    Vec nVx = Qx; Mat nV = Qxx; if(m) { nVx += K.transpose() * Quu * k + K.transpose() * Qu + Qux.transpose() * k; nV += K.transpose() * Quu * K + K.transpose() * Qux + Qux.transpose() * K; }
    Vx = nVx; Vxx = 0.5 * (nV + nV.transpose());
  }
  return r;
}
static void c31(Ctx & x)
{
  DC d = genD(x, x.rng.in(0, 2), false, -2, 8); Rng & r = x.rng; d.c.limits = r.chance(0.4); if(!finiteRollout(d)) return;
  if(r.chance(0.15)) { d.c.alphas.resize(3); d.c.alphas << r.uni(1.2, 3), 1, 0.2; }
  if(r.chance(0.3)) { d.c.ratio = r.uni(0.3, 1.2); }
  DdpOut prev; int M = x.thorough ? 8 : 4; long seen = 0;
  for(int m = 0; m <= M; m++)
  {
    d.c.max_iter = m; auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); s->limits(true); s->cfg(d.c); s->solve(d.t(), d.x0, d.u0); DdpOut o = s->out();
    if((int)o.tr.size() != m + 1 || (m && o.tr[m].lambda > d.c.lmax && o.tr[m].alpha == 0)) break;
    if(m)
    {
      const DdpTrace & t = o.tr[m]; Vec al = d.c.alphas.size() ? d.c.alphas : s->defaultAlphas();
      // the trace holds the regularization after the iteration; the one used is recovered from it
      bool changed = relDiff(prev.u, o.u) > 0 || relDiff(prev.x, o.x) > 0; double p = o.tr[m - 1].lambda, lam = t.lambda;
      if(t.alpha != 0) { lam = t.lambda > 0 && t.dlambda > 0 ? t.lambda / t.dlambda : p; if(!changed && t.lambda <= d.c.lmin * (1 + 1e-12)) lam = p; }
      RefStep q = refStep(*d.o, d.k0, prev.x, prev.u, lam, d.c.reg_type, d.c.limits);
      bool usable = q.pd && q.clear && q.cond < 1e5; double lt = d.c.limits ? 1e-5 : 1e-8, tol = lt * std::max(1.0, q.cond * 1e-3), big = prev.cost.cwiseAbs().sum();
      if(usable) for(auto & K : q.K) if(K.size() && K.cwiseAbs().maxCoeff() > 1e3) usable = false;
      if(!usable) { x.count("skipped"); prev = o; continue; }
      double kr = 0; for(int i = 0; i < d.N; i++) kr = std::max(kr, q.k[i].norm() / (prev.u[i].norm() + 1));
      x.check(closeD(t.krel, kr, tol * 10), "feedforward", "iteration " + std::to_string(m) + ": relative size of the feed-forward step " + ds(t.krel) + ", reference " + ds(kr) + " lambda=" + ds(lam) + " reg_type=" + std::to_string(d.c.reg_type));
      auto cand = [&](double a, DdpOut & c) { c.x.assign(1, prev.x[0]); c.u.clear(); c.cost.resize(d.N + 1); for(int i = 0; i < d.N; i++) { Vec u = prev.u[i]; if(u.size()) u += a * q.k[i] + q.K[i] * (c.x[i] - prev.x[i]); if(d.c.limits) for(int j = 0; j < u.size(); j++) u[j] = std::max(std::min(u[j], d.o->st[d.k0 + i].up[j]), d.o->st[d.k0 + i].lo[j]); c.u.push_back(u); c.cost[i] = d.o->L(d.k0 + i, c.x[i], u); c.x.push_back(d.o->f(d.k0 + i, c.x[i], u)); } c.cost[d.N] = d.o->phi(d.k0 + d.N, c.x[d.N]); };
      bool tried = t.alpha != 0;
      if(tried)
      {
        double ex = -t.alpha * (q.dV0 + t.alpha * q.dV1), et = std::abs(t.alpha * q.dV0) + std::abs(t.alpha * t.alpha * q.dV1);
        x.check(std::abs(t.exp - ex) <= 100 * tol * et + 1e-13 * (1 + big), "expected", "iteration " + std::to_string(m) + ": expected improvement " + ds(t.exp) + ", reference " + ds(ex));
        for(int a = 0; a < al.size(); a++)
        {
          DdpOut c; cand(al[a], c); bool last = changed && al[a] == t.alpha; double act = prev.cost.sum() - c.cost.sum(), e = -al[a] * (q.dV0 + al[a] * q.dV1), se = std::abs(al[a] * q.dV0) + std::abs(al[a] * al[a] * q.dV1);
          if(last)
          {
            double e1 = relDiff(c.u, o.u), e2 = relDiff(c.x, o.x); x.check(e1 <= 1e3 * tol && e2 <= 1e3 * tol, "step", "iteration " + std::to_string(m) + ": accepted trajectory differs from the step of the regularized model (inputs by " + ds(e1) + ", states by " + ds(e2) + ") lambda=" + ds(lam) + " alpha=" + ds(t.alpha) + " reg_type=" + std::to_string(d.c.reg_type));
            x.count(d.c.limits ? "limited_steps" : "steps"); if(d.c.reg_type == 2 && lam > 1e-3) x.count("reg2_steps"); if(d.c.reg_type == 1 && lam > 1e-3) x.count("reg1_steps"); seen++; break;
          }
          // not taken: it must not have been acceptable (beyond rounding)
          if(!c.cost.allFinite() || se <= 1e-7 * (1 + big) || std::abs(e) < 1e-3 * se) { x.count("ambiguous"); continue; }
          double ratio = e > 0 ? act / e : act >= 0 ? 1 : -1, mar = 1e-3 + 1e3 * tol + (e > 0 ? 1e-9 * big / e : 0); if(e < 0 && std::abs(act) < 1e-6 * (1 + big)) continue;
          x.check(!(ratio > d.c.ratio + mar), "skipped-step", "iteration " + std::to_string(m) + ": step length " + ds(al[a]) + " was refused although its improvement ratio is " + ds(ratio) + " (threshold " + ds(d.c.ratio) + ", taken " + (changed ? ds(t.alpha) : std::string("none")) + ")");
          x.count("refused_steps");
        }
      }
    }
    prev = o;
  }
  if(seen) x.observed(outSig(prev));
}
// C32 -------------------------------------------------------------------------------------------
static void c32(Ctx & x)
{
  Rng & r = x.rng; DC d = genD(x, r.in(0, 2)); d.c.limits = r.chance(0.3); d.c.max_iter = r.in(0, 6); std::string why;
  auto s = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); s->limits(true); s->cfg(d.c); s->solve(d.t(), d.x0, d.u0);
  int n = r.in(1, 4), at = d.k0;
  for(int q = 0; q < n; q++)
  {
    DdpOut b = s->out(); int N = b.u.size(), j = r.in(0, N), k0 = d.kind.nu >= 0 ? r.in(0, d.g.extra) : at; DdpCfg c = d.c; c.max_iter = r.in(0, 6); c.N = N; std::vector<Vec> u = b.u; bool own = true;
    if(k0 + N > d.N + d.g.extra) k0 = d.N + d.g.extra - N;
    if(r.chance(0.3)) { own = false; N = r.in(1, d.N + d.g.extra); k0 = r.in(0, d.N + d.g.extra - N); c.N = N; u = randU(r, *d.o, k0, N, 1); x.count(N > (int)b.u.size() ? "own_state_longer_horizon" : "own_state_shorter_horizon"); }
    if(!allFinite(b.x)) break;
    auto f = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); f->limits(true); f->cfg(c); f->solve(d.o->time(k0), b.x[j], u);
    if(r.chance(0.4))
    {
      // a copy is an independent solver
      auto k = r.chance(0.5) ? s->clone() : s->share(); if(r.chance(0.5)) { k = s->share(); k->limits(true); k->cfg(d.c); k->solve(d.t(), d.x0, d.u0); k->assign(*s); } else k = s->clone();
      { bool same = sameOut(k->out(), b, 0, why); x.check(same, "copy", "copied solver holds other results: " + why); }
      k->cfg(c); if(own) k->solveOwn(d.o->time(k0), j, nullptr); else k->solve(d.o->time(k0), b.x[j], u);
      { bool same = sameOut(k->out(), f->out(), 1e-13, why); x.check(same, "copy-solve", "solve with a copied solver differs from a fresh one: " + why); }
      { bool same = sameOut(s->out(), b, 0, why); x.check(same, "copy-aliasing", "solving with a copy changed the original: " + why); } x.count("ddp_copies");
      if(r.chance(0.3)) { s = std::move(k); x.count("ddp_copy_outlives_original"); at = k0; continue; }
    }
    s->cfg(c); s->solveOwn(d.o->time(k0), j, own ? nullptr : &u);
    { bool same = sameOut(s->out(), f->out(), 1e-13, why); x.check(same, own ? "own-results" : "own-state", std::string("solve with references to the solver's own ") + (own ? "state " : "state (other horizon) ") + std::to_string(j) + " and inputs differs from a solve with copies: " + why); }
    at = k0; x.count("ddp_own"); x.observed(outSig(f->out()));
  }
}
int main(int argc, char ** argv)
{
  return runMain(argc, argv, {
    {"C01", 90000, 450000, c01, {"solves_ok", "solves_not_ok", "accepted_steps", "rejected_steps", "backtracked_steps", "limited", "dynamic_dim"}},
    {"C02", 32000, 120000, c02, {"accepted", "rejected", "backtracked", "limited", "exact_model_checks", "accepted_ratio_below_.95"}},
    {"C03", 150000, 900000, c03, {"lq_reg1", "lq_reg2", "lq_dynamic", "nl_success"}},
    {"C04", 150000, 900000, c04, {"active_limits", "partly_active", "all_active", "ok", "nonlinear"}},
    {"C05", 150000, 750000, c05, {"zero_input_steps", "varying_dims", "padded_pairs", "fixed_dynamic_pairs"}},
    {"C12", 3750, 37500, c12, {"state_without_cost", "overflow", "fault_stateEq", "fault_runningCost", "fault_terminalCost", "fault_calcStateEqDeriv", "fault_calcRunningCostDeriv", "fault_calcTerminalCostDeriv", "recovered", "failed"}},
    {"C18", 30000, 225000, c18, {"prior_ok", "prior_not_ok", "prior_exception", "ddp_compared"}},
    {"C21", 45000, 225000, c21, {"rejected", "dim_fault", "second_order", "missing_dim"}},
    {"C22", 24000, 180000, c22, {"entries_checked", "krel_exact", "small_gradient_end", "failure_end", "ok", "not_ok"}},
    {"C23", 15000, 150000, c23, {"verbose_output_level3", "situations_with_messages"}},
    {"C26", 90000, 900000, c26, {"indefinite_start", "small_gain_success", "lambda_max_failures", "progress_checked", "large_lambda", "reductions", "forward_passes", "raised", "raised_from_zero"}},
    {"C27", 3000, 60000, c27, {"solves_timed", "forward_timed", "backward_parts", "later_solve", "interrupted", "iterated"}},
    {"C28", 20000, 300000, c28, {"control_elements"}},
    {"C31", 160000, 1000000, c31, {"steps", "limited_steps", "reg1_steps", "reg2_steps", "refused_steps"}},
    {"C32", 60000, 300000, c32, {"ddp_own", "ddp_copies", "own_state_longer_horizon", "own_state_shorter_horizon", "ddp_copy_outlives_original"}},
    {"C33", 60000, 900000, c33, {"raised_in_backward", "reduced", "dropped_to_zero", "raised_after_line_search", "end_backward", "end_gain", "end_cost", "end_forward", "end_limit"}},
    {"C36", 60000, 900000, c36, {"ddp_iterations_compared", "ddp_split"}},
    {"C37", 60000, 900000, c37, {"ddp_cost_unit", "ddp_state_unit_reg1", "ddp_state_unit_reg2"}},
    {"C30", 30000, 450000, c30, {"ddp_iterations", "ddp_rollouts", "ddp_backtracked", "ddp_warm_started", "ddp_faulty_values"}},
  });
}
