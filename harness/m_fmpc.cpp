#include "ocp.h"
#include "fref.h"
#include "capture.h"
#include <nmpc_fmpc/MathUtils.h>

#include "gen_fmpc.h"
static uint64_t fsig(const FOut & o) { uint64_t h = hcomb(o.status, o.tr.size()); for(auto & t : o.tr) { uint64_t b; double k = t.kkt; std::memcpy(&b, &k, 8); h = hcomb(h, b >> 20); } for(auto & v : o.v.u) h = hcomb(h, hmat(v)); return h; }
static double vscale(const FVar & v) { double m = 1; for(auto * l : {&v.x, &v.u, &v.lam, &v.s, &v.nu}) for(auto & e : *l) if(e.size()) m = std::max(m, e.cwiseAbs().maxCoeff()); return m; }
static const char * stName(int s) { static const char * n[] = {"Uninitialized", "Succeeded", "ErrorInForward", "ErrorInBackward", "ErrorInUpdate", "MaxIterationReached", "IterationContinued"}; return s >= 0 && s <= 6 ? n[s] : "?"; }
// last stage gets an indefinite input curvature on which a Cholesky factorization breaks down (only the pivoted-LU path solves it)
static bool makeLltBreak(FC & d)
{
  bool done = false;
  for(int i = d.N - 1; i >= 0 && !done; i--)
  {
    Stage & s = d.o->st[d.k0 + i]; if(s.nu != 2) continue;
    s.R << 0, 1, 1, 0; s.B.setZero(); s.D.setZero(); s.terms.clear(); s.gam.resize(0); s.eta.resize(0); s.N *= 0.1; done = true;
    for(int j = 0; j < s.ng; j++) if(s.C.row(j).norm() < 0.1) s.C(j, 0) = 1;
  }
  return done;
}

// C07 -------------------------------------------------------------------------------------------
static void c07(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 2)); d.c.thre = x.rng.chance(0.5) ? x.rng.logu(1e-7, 1e-3) : x.rng.logu(1e-3, 30); d.c.max_iter = x.rng.in(1, x.thorough ? 30 : 15);
  if(x.rng.chance(0.1)) makeLltBreak(d);
  if(x.rng.chance(0.2)) { FmpcCfg c = d.c; c.max_iter = x.rng.in(1, 40); c.thre = 1e-8; c.init = false; FOut w = runF(d, c, d.v); if(finiteVar(w.v) && positiveVar(w.v)) d.v = w.v; } // start near the solution
  bool edge = x.rng.chance(0.15); // threshold exactly at the recorded error of some iteration
  if(edge) { FOut w = runF(d, d.c, d.v); if(w.tr.size() >= 2) { int m = x.rng.in(0, w.tr.size() - 1); if(std::isfinite(w.tr[m].kkt)) { d.c.thre = w.tr[m].kkt; x.count("threshold_equal"); } } }
  describe(x, d);
  FOut o = runF(d, d.c, d.v); int n = o.tr.size();
  for(int i = 0; i < n; i++) x.check(o.tr[i].iter == i + 1, "iter", "trace entry " + std::to_string(i) + " numbered " + std::to_string(o.tr[i].iter));
  x.check(n >= 1 && n <= d.c.max_iter, "trace-size", std::to_string(n) + " trace entries for iteration limit " + std::to_string(d.c.max_iter));
  x.check(o.status == FSucc || o.status == FErrF || o.status == FErrB || o.status == FErrU || o.status == FMax, "status", std::string("status ") + stName(o.status));
  FVar cur; { FmpcCfg c = d.c; c.max_iter = 0; cur = runF(d, c, d.v).v; }
  if(!d.c.init) x.check(relDiff(cur.x, d.v.x) == 0 && relDiff(cur.u, d.v.u) == 0 && relDiff(cur.lam, d.v.lam) == 0 && relDiff(cur.s, d.v.s) == 0 && relDiff(cur.nu, d.v.nu) == 0, "start", "without iterations the variables are not the given ones");
  for(int m = 0; m < n; m++)
  {
    if(m > 0) { FmpcCfg c = d.c; c.max_iter = m; FOut w = runF(d, c, d.v); x.check(w.status == FMax && (int)w.tr.size() == m, "prefix", "with iteration limit " + std::to_string(m) + ": status " + stName(w.status)); cur = w.v; }
    if(!finiteVar(cur)) break;
    Kkt k = kktOf(*d.o, d.k0, d.N, d.x0, cur); double e = k.norm(), sc = vscale(cur); double tol = 1e-9 * e + 1e-12 * sc * sc;
    if(!std::isfinite(e)) break;
    x.maxi("kkt_rel_diff", std::abs(e - o.tr[m].kkt) / (e + 1e-9 * sc * sc));
    x.checkf(std::abs(e - o.tr[m].kkt) <= tol, "kkt-value", [&] { return "iteration " + std::to_string(m + 1) + " records KKT error " + ds(o.tr[m].kkt) + " but the residual there is " + ds(e) + " (parts init " + ds(k.init) + " dyn " + ds(k.dyn) + " ineq " + ds(k.ineq) + " x " + ds(k.lx) + " u " + ds(k.lu) + " compl " + ds(k.comp) + " term " + ds(k.term) + ")"; });
    bool last = m == n - 1;
    if(!(last && o.status == FSucc)) x.check(!(o.tr[m].kkt <= d.c.thre), "missed-success", "iteration " + std::to_string(m + 1) + " error " + ds(o.tr[m].kkt) + " is at or below the threshold " + ds(d.c.thre) + " but the solve went on, status " + stName(o.status));
    x.count("residuals_compared");
    if(last && o.status == FSucc)
    {
      x.check(e <= d.c.thre + tol, "false-success", "success with KKT error " + ds(e) + " above " + ds(d.c.thre));
      x.check(relDiff(cur.x, o.v.x) == 0 && relDiff(cur.u, o.v.u) == 0 && relDiff(cur.lam, o.v.lam) == 0 && relDiff(cur.s, o.v.s) == 0 && relDiff(cur.nu, o.v.nu) == 0, "success-vars", "returned variables are not those whose error was tested");
    }
  }
  if(o.status == FMax) x.check(n == d.c.max_iter, "early-limit", "iteration limit reported after " + std::to_string(n) + " of " + std::to_string(d.c.max_iter));
  x.count(std::string("status_") + stName(o.status)); x.observed(fsig(o));
}
// C08 -------------------------------------------------------------------------------------------
static void c08(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 2), x.thorough ? 16 : 8); Rng & r = x.rng;
  double smin = r.logu(1e-10, 1), smax = smin * r.logu(1, 1e8); d.v = randVar(r, *d.o, d.k0, d.N, r.logu(0.01, 30), smin, smax);
  d.c.max_iter = r.pick(std::vector<int>{0, 1, 2, 3, 5, 8, 20, 60}); d.c.thre = r.logu(1e-9, 1e-2);
  if(r.chance(0.1)) makeLltBreak(d);
  describe(x, d);
  auto s = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, d.rec);
  for(int q = 0; q < 2; q++)
  {
    int N = q ? r.in(1, d.N + d.g.extra) : d.N, k0 = q ? r.in(0, d.N + d.g.extra - N) : d.k0; FmpcCfg c = d.c; c.N = N; s->cfg(c);
    FVar v = q ? randVar(r, *d.o, k0, N, 1, smin, smax) : d.v; s->solve(d.o->time(k0), d.x0, v); FOut o = s->out();
    x.check((int)o.v.x.size() == N + 1 && (int)o.v.u.size() == N && (int)o.v.lam.size() == N + 1 && (int)o.v.s.size() == N && (int)o.v.nu.size() == N, "length", "returned sequence lengths");
    long cnt = 0; double mn = 1e300; bool fin = finiteVar(o.v);
    for(int i = 0; i < N; i++)
    {
      x.check(o.v.u[i].size() == d.o->st[k0 + i].nu && o.v.s[i].size() == d.o->st[k0 + i].ng && o.v.nu[i].size() == d.o->st[k0 + i].ng, "dims", "returned dimensions at step " + std::to_string(i));
      for(int j = 0; j < o.v.s[i].size(); j++) { cnt += 2; double a = o.v.s[i][j], b = o.v.nu[i][j]; mn = std::min(mn, std::min(a, b)); if(c.check_nan || fin) x.checkf(a > 0 && b > 0, "positive", [&] { return "slack " + ds(a) + " multiplier " + ds(b) + " at step " + std::to_string(i) + " component " + std::to_string(j) + ", status " + stName(o.status) + " after " + std::to_string(o.tr.size()) + " iterations"; }); }
    }
    x.count("components", cnt); x.count(std::string("status_") + stName(o.status)); if(o.tr.size() && cnt) x.observed(fsig(o)); if(mn < 1e-6) x.count("near_boundary"); if(c.ls) x.count("line_search"); if(c.init) x.count("initialised");
  }
}
// C09 / C11 -------------------------------------------------------------------------------------
struct Step { bool have = false; Newton w; std::vector<Fit> fs; Fit f; FVar dir; FVar before, after; double smax, nmax, avg = 0; int m = 0; FOut o; };
static const double FIT_TOL = 1e-5;
static void useFit(Step & r, const Fit & f)
{
  r.f = f; r.dir = unstackLike(r.before, r.w.p0 + f.mu * r.w.p1, r.w.d0 + f.mu * r.w.d1);
  r.smax = maxStep(r.before.s, r.dir.s); r.nmax = maxStep(r.before.nu, r.dir.nu);
}
static Step oneStep(Ctx & x, const FC & d, const FVar & v)
{
  Step r; FmpcCfg c = d.c; c.max_iter = 0; c.thre = 0; r.before = runF(d, c, v).v; c.max_iter = 1; r.o = runF(d, c, v); r.after = r.o.v;
  if(r.o.status != FMax || !finiteVar(r.after)) return r;
  r.w = newtonOf(*d.o, d.k0, d.N, d.x0, r.before); if(!r.w.ok) return r;
  double mag = r.w.p0.norm() + r.w.d0.norm(); if(!(mag < 1e7)) return r;
  for(int i = 0; i < d.N; i++) { r.avg += r.before.s[i].dot(r.before.nu[i]); r.m += r.before.s[i].size(); } if(r.m) r.avg /= r.m;
  double mumax = d.c.barrier ? std::max(r.avg, 1e-8) * (1 + 1e-9) : std::max(1.0, 4 * r.avg);
  double hint = d.c.barrier ? std::max(0.5 * r.avg, 1e-8) : 1e-4;
  Vec dp = primalOf(r.after) - primalOf(r.before), dd = dualOf(r.after) - dualOf(r.before);
  r.fs = fitStep(r.w, dp, dd, mumax, {hint});
  // prefer the usual barrier parameter when it explains the step (the fit may be ambiguous)
  Fit h = evalFit(r.w, dp, dd, hint); if(h.res <= FIT_TOL) r.fs.insert(r.fs.begin(), h);
  useFit(r, r.fs[0]);
  r.have = true; (void)x; return r;
}
static bool wellCond(const Ocp & o, const FVar & v) { (void)o; for(size_t i = 0; i < v.s.size(); i++) for(int j = 0; j < v.s[i].size(); j++) if(v.s[i][j] < 1e-5 || v.nu[i][j] < 1e-9 || v.s[i][j] > 1e4 || v.nu[i][j] > 1e4) return false; return vscale(v) < 1e3; }
static void c09(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 2), 6); d.c.ls = x.rng.chance(0.2); d.c.check_nan = true;
  bool lb = x.rng.chance(0.1) && makeLltBreak(d); if(lb) d.c.llt = false;
  if(x.rng.chance(0.15)) for(int i = 0; i < d.N; i++) if(d.v.u[i].size()) d.o->st[d.k0 + i].R -= 1.5 * Mat::Identity(d.v.u[i].size(), d.v.u[i].size()); // indefinite curvature
  if(x.rng.chance(0.3)) d.v.x[0] = d.x0;
  describe(x, d); FVar v = d.v; int steps = x.thorough ? 8 : 4;
  for(int q = 0; q < steps; q++)
  {
    if(!wellCond(*d.o, v)) { x.count("skipped_ill_conditioned"); break; }
    Step s = oneStep(x, d, v); if(!s.have) { x.count("no_step"); break; }
    double mag = s.w.p0.norm() + s.w.d0.norm(); bool clean = true;
    // resolution of the fit: rounding of the iterate relative to the size of the step taken
    double dpn = (primalOf(s.after) - primalOf(s.before)).norm(), ddn = (dualOf(s.after) - dualOf(s.before)).norm(); double rnd = 1e-13 * (vscale(s.before) + mag) * (1 / (dpn + 1e-300) + 1 / (ddn + 1e-300));
    if(rnd > 1e-7 || dpn < 1e-8 || ddn < 1e-8) { clean = false; x.count("step_too_small_to_resolve"); }
    if(clean)
    {
      x.maxi("newton_residual", s.f.res); if(lb) x.maxi("newton_residual_llt_break", s.f.res);
      x.check(s.f.res <= FIT_TOL, "direction", "update is no damped Newton step of the linearised KKT system for any barrier parameter up to the average complementarity " + ds(s.avg) + ": best fit residual " + ds(s.f.res) + " with mu=" + ds(s.f.mu) + " alpha_s=" + ds(s.f.as) + " alpha_nu=" + ds(s.f.an));
      std::string why; bool good = false;
      for(const Fit & f : s.fs)
      {
        if(f.res > FIT_TOL) continue;
        useFit(s, f); std::string w;
        if(!(f.as > 0 && f.as <= 1 + 1e-5 && f.an > 0 && f.an <= 1 + 1e-5)) w = "step lengths " + ds(f.as) + ", " + ds(f.an);
        else if(!(f.as <= s.smax * (1 + 1e-5) && f.an <= s.nmax * (1 + 1e-5))) w = "step lengths " + ds(f.as) + ", " + ds(f.an) + " beyond the boundary " + ds(s.smax) + ", " + ds(s.nmax);
        else if(!d.c.ls && f.as < 0.99 * s.smax * (1 - 1e-5)) w = "primal step length " + ds(f.as) + " although slacks allow " + ds(s.smax);
        else if(f.an < 0.99 * s.nmax * (1 - 1e-5)) w = "dual step length " + ds(f.an) + " although multipliers allow " + ds(s.nmax);
        if(w.empty()) { good = true; break; }
        if(why.empty()) why = w + " (mu=" + ds(f.mu) + ")";
      }
      x.check(good, "step-length", why);
      int m = s.m; if(m && d.c.barrier) { x.maxi("mu_over_average", s.f.mu / std::max(s.avg, 1e-8)); x.count("adapted_barrier"); } else if(m) x.count("fixed_barrier");
      if(s.smax < 1) x.count("limited_by_slack"); else x.count("full_primal_step"); if(s.nmax < 1) x.count("limited_by_multiplier");
      if(lb) x.count("cholesky_breakdown_steps"); if(m == 0) x.count("no_inequality_steps");
      x.count("steps_checked"); x.observed(hcomb(fsig(s.o), hmat(primalOf(s.after))));
    }
    v = s.after; d.c.init = false;
    if(q == 0 && steps > 1 && !d.c.barrier) break; // a fixed barrier parameter is state of the solver object
  }
}
template<int I, int O> static double l1(const Vec & f, const Mat & j, const Vec & d) { Eigen::Matrix<double, O, 1> a = f; Eigen::Matrix<double, O, I> b = j; Eigen::Matrix<double, I, 1> c = d; return nmpc_fmpc::l1NormDirectionalDeriv(a, b, c); }
static void c11l1(Ctx & x)
{
  Rng & r = x.rng; int m = r.pick(std::vector<int>{0, 1, 2, 3, 5, 9}), n = r.pick(std::vector<int>{1, 2, 3, 4, 7}); if(m == 0 && r.chance(0.7)) m = 3;
  Vec f = r.vec(m, r.logu(1e-8, 10)), d = r.vec(n, r.logu(1e-3, 10)); Mat J = r.mat(m, n, r.logu(1e-3, 10));
  for(int i = 0; i < m; i++) { int k = r.in(0, 5); if(k == 0) f[i] = 0; if(k == 1) f[i] = -0.0; if(k == 2 && r.chance(0.5)) J.row(i).setZero(); if(k == 3) f[i] = (r.chance(0.5) ? 1 : -1) * 1e-300; }
  double ref = 0, sc = 0; bool z = false; for(int i = 0; i < m; i++) { double e = J.row(i).dot(d); sc += std::abs(e); if(f[i] > 0) ref += e; else if(f[i] < 0) ref -= e; else { ref += std::abs(e); z = true; } }
  x.desc = "l1NormDirectionalDeriv f=" + vs(f) + " J=" + vs(J) + " d=" + vs(d);
  double got = l1<Eigen::Dynamic, Eigen::Dynamic>(f, J, d); x.check(std::abs(got - ref) <= 1e-12 * (sc + 1e-300), "l1-derivative", "derivative " + ds(got) + " but exact value is " + ds(ref));
  if(m == 3 && n == 2) { double g2 = l1<2, 3>(f, J, d); x.check(std::abs(g2 - ref) <= 1e-12 * sc, "l1-derivative-fixed", "fixed size: " + ds(g2) + " vs " + ds(ref)); x.count("l1_fixed"); }
  if(m == 1 && n == 1) { double g2 = l1<1, 1>(f, J, d); x.check(std::abs(g2 - ref) <= 1e-12 * sc, "l1-derivative-fixed", "fixed size: " + ds(g2) + " vs " + ds(ref)); }
  // finite differences along the ray (one-sided), exact for small enough steps because the function is piecewise linear
  double h = 1; for(int i = 0; i < m; i++) { double e = std::abs(J.row(i).dot(d)); if(f[i] != 0 && e > 0) h = std::min(h, 0.5 * std::abs(f[i]) / e); }
  if(h > 1e-9) { Vec g = f + h * (J * d); double fd = (g.lpNorm<1>() - f.lpNorm<1>()) / h; x.check(std::abs(fd - got) <= 1e-6 * (sc + f.lpNorm<1>() / h * 1e-9 + 1e-12) + 1e-15 * f.lpNorm<1>() / h, "l1-difference", "one-sided difference " + ds(fd) + " vs " + ds(got)); x.count("l1_difference"); }
  if(z) x.count("l1_zero_component"); x.count("l1"); x.observed(hcomb(hmat(J), hmat(f)));
}
static void c11(Ctx & x)
{
  if(x.rng.chance(0.2)) { c11l1(x); return; }
  FC d = genF(x, x.rng.chance(0.3) ? x.rng.in(0, 1) : 2, 5); d.c.ls = true; d.c.check_nan = true; Rng & r = x.rng;
  d.c.init = r.chance(0.15);
  if(r.chance(0.6)) d.v = randVar(r, *d.o, d.k0, d.N, r.logu(0.3, 8), 0.05, 3);
  if(r.chance(0.4)) { // dynamically consistent start: the decrease has to come from the objective
    d.v.x[0] = d.x0; for(int i = 0; i < d.N; i++) { d.v.x[i + 1] = d.o->f(d.k0 + i, d.v.x[i], d.v.u[i]); Vec g = d.o->g(d.k0 + i, d.v.x[i], d.v.u[i]); for(int j = 0; j < g.size(); j++) if(g[j] < -1e-2) d.v.s[i][j] = -g[j]; } x.count("consistent_start"); }
  describe(x, d); FVar v = d.v; int steps = x.thorough ? 6 : 3;
  for(int q = 0; q < steps; q++)
  {
    if(!wellCond(*d.o, v)) break;
    Step s = oneStep(x, d, v); if(!s.have) { x.count("no_step"); break; }
    double dpn = (primalOf(s.after) - primalOf(s.before)).norm(), ddn = (dualOf(s.after) - dualOf(s.before)).norm(), mag = s.w.p0.norm() + s.w.d0.norm();
    double rnd = 1e-13 * (vscale(s.before) + mag) * (1 / (dpn + 1e-300) + 1 / (ddn + 1e-300));
    Merit m0 = meritOf(*d.o, d.k0, d.N, d.x0, s.before, s.f.mu);
    double pn = Vec(s.w.p0 + s.f.mu * s.w.p1).norm();
    bool tiny = dpn <= 2e-10 * pn; // gave up at the minimum step
    if(!tiny && (rnd > 1e-7 || s.f.res > FIT_TOL)) { x.count("unresolved"); break; }
    if(m0.con < 1e-9 || dpn < 1e-300) { x.count("no_constraint_violation"); if(m0.con == 0) break; }
    // directional derivative
    double dobj = 0; int N = d.N; for(int i = 0; i < N; i++) { Vec Lx, Lu; Mat a, b, c; d.o->dL(d.k0 + i, s.before.x[i], s.before.u[i], Lx, Lu, a, b, c); dobj += d.o->dt * (Lx.dot(s.dir.x[i]) + (Lu.size() ? Lu.dot(s.dir.u[i]) : 0.0)); if(s.before.s[i].size()) dobj -= s.f.mu * s.before.s[i].cwiseInverse().dot(s.dir.s[i]); }
    { Vec Lx; Mat a; d.o->dphi(d.k0 + N, s.before.x[N], Lx, a); dobj += Lx.dot(s.dir.x[N]); }
    double scale = 1e-3;
    if(d.c.mult) { for(int i = 0; i <= N; i++) { scale = std::max(scale, s.before.lam[i].cwiseAbs().maxCoeff()); if(i < N && s.before.nu[i].size()) scale = std::max(scale, s.before.nu[i].cwiseAbs().maxCoeff()); } }
    else { if(m0.con < 1e-9) break; scale = std::max(scale, dobj / (0.5 * m0.con)); }
    double D = dobj - scale * m0.con, phi0 = m0.obj + scale * m0.con;
    auto phi = [&](double a) { Merit m = meritOf(*d.o, d.k0, N, d.x0, addStep(s.before, s.dir, a, 0), s.f.mu); return m.obj + scale * m.con; };
    double as = s.f.as; if(tiny) { x.count("gave_up"); x.check(as < 1.01e-10, "minimum-step", "step length " + ds(as)); // check that some halving was not acceptable: all of them must fail
    }
    double tolm = 1e-10 * (1 + std::abs(phi0) + std::abs(m0.obj) + scale * m0.con) + 1e-6 * as * std::abs(D) * 1e-3 + 1e-8 * as * (std::abs(dobj) + scale * m0.con);
    int j = (int)std::lround(std::log2(0.995 * s.smax / as)); double ratio = as * std::pow(2.0, j) / s.smax;
    if(!tiny)
    {
      x.check(j >= 0 && ratio >= 0.985 && ratio <= 1 + 1e-5, "halving", "step length " + ds(as) + " is not the positivity-limited length " + ds(s.smax) + " halved some number of times");
      x.checkf(phi(as) < phi0 + 1e-3 * as * D + tolm, "armijo", [&] { return "accepted step length " + ds(as) + ": merit " + ds(phi0) + " -> " + ds(phi(as)) + " with directional derivative " + ds(D) + " (scale " + ds(scale) + ")"; });
    }
    // every longer candidate (successive doublings up to the positivity limit) must fail the test; candidates are
    // reconstructed from the observed step, so they are only judged if the verdict does not hinge on their last digits
    for(int e = 1; e <= 34 && as * std::pow(2.0, e) <= s.smax * (1 + 1e-4); e++)
    {
      double a = as * std::pow(2.0, e), dl = tiny ? 1e-3 : 1e-6; bool all = true; double ph = 0;
      for(double f : {1 - dl, 1.0, 1 + dl})
      {
        double b = a * f, tola = 1e-10 * (1 + std::abs(phi0) + std::abs(m0.obj) + scale * m0.con) + 1e-7 * b * (std::abs(dobj) + scale * m0.con + std::abs(D));
        ph = phi(b); if(!(ph < phi0 + 1e-3 * b * D - tola)) { all = false; break; }
      }
      x.checkf(!all, "not-first", [&] { return "step length " + ds(as) + " used although " + ds(a) + " already gives sufficient decrease: merit " + ds(phi0) + " -> " + ds(ph) + " derivative " + ds(D); });
    }
    if(!tiny) { x.count("steps_checked"); if(j > 0) x.count("backtracked"); if(j > 2) x.count("backtracked_3+"); if(d.c.mult) x.count("scale_from_multipliers"); else if(scale > 1e-3) x.count("scale_from_derivative"); else x.count("scale_minimum"); }
    x.observed(hcomb(hcomb(j, fsig(s.o)), hmat(primalOf(s.after))));
    v = s.after; d.c.init = false; if(!d.c.barrier) break;
  }
}
// C10 -------------------------------------------------------------------------------------------
static bool feasibleNominal(const FC & d, double margin)
{
  Vec x = d.x0; for(int i = 0; i < d.N; i++) { Vec g = d.o->g(d.k0 + i, x, d.un[d.k0 + i]); for(int j = 0; j < g.size(); j++) if(!(g[j] < -margin)) return false; x = d.o->f(d.k0 + i, x, d.un[d.k0 + i]); } return true;
}
static void c10(Ctx & x)
{
  FC d = genF(x, 0, x.thorough ? 15 : 10); d.k0 = 0; Rng & r = x.rng;
  d.v = randVar(r, *d.o, 0, d.N, r.logu(0.05, 1), 0.1, 1);
  d.c.barrier = true; d.c.max_iter = d.c.ls ? 1000 : 100; bool tight = r.chance(0.5); d.c.thre = tight ? 1e-6 : 1e-4;
  describe(x, d);
  if(!feasibleNominal(d, 0.03)) { x.count("nominal_infeasible"); return; }
  FOut o = runF(d, d.c, d.v);
  x.maxi(d.c.ls ? "iterations_ls" : "iterations", o.tr.size());
  x.check(o.status == FSucc, d.c.ls ? "no-convergence-ls" : "no-convergence", std::string("status ") + stName(o.status) + " after " + std::to_string(o.tr.size()) + " iterations, KKT error " + ds(o.tr.empty() ? -1 : o.tr.back().kkt));
  // optimality certificate: primal value of the returned inputs, dual bound from the returned multipliers
  auto q = condense(*d.o, 0, d.N, d.x0, d.o->dt, true); if(q.n == 0) { x.count("no_input"); return; }
  Vec U = stack(o.v.u); std::vector<Vec> nl = o.v.nu; Vec nu = stack(nl);
  double viol = nu.size() ? (q.Cg * U - q.dg).maxCoeff() : 0; double J = q.c + q.g.dot(U) + 0.5 * U.dot(q.H * U);
  Vec gd = q.g; if(nu.size()) gd += q.Cg.transpose() * nu; Vec Ud = -q.H.ldlt().solve(gd); double dual = q.c - (nu.size() ? nu.dot(q.dg) : 0) + gd.dot(Ud) + 0.5 * Ud.dot(q.H * Ud);
  double sc = 1 + std::abs(J); x.maxi(tight ? "violation_tight" : "violation", viol); x.maxi(tight ? "gap_tight" : "gap", (J - dual) / sc);
  x.check(viol <= (tight ? 1e-4 : 1e-2), "infeasible", "constraint violated by " + ds(viol));
  x.check(J - dual <= (tight ? 1e-4 : 1e-2) * sc && J - dual >= -(tight ? 1e-3 : 3e-2) * sc, "gap", "cost " + ds(J) + " but dual bound " + ds(dual));
  // the returned state trajectory belongs to the inputs
  std::vector<Vec> xs; Vec cc; d.o->rollout(0, d.x0, o.v.u, xs, cc); double e = relDiff(xs, o.v.x); x.maxi("rollout_diff", e); x.check(e <= (tight ? 1e-4 : 1e-2), "trajectory", "state trajectory differs from the rollout of the inputs by " + ds(e));
  // immediate re-solve
  FmpcCfg c = d.c; c.init = false; FOut o2 = runF(d, c, o.v);
  x.check(o2.status == FSucc && o2.tr.size() == 1 && relDiff(o2.v.x, o.v.x) == 0 && relDiff(o2.v.u, o.v.u) == 0 && relDiff(o2.v.s, o.v.s) == 0, "resolve", std::string("re-solving from the solution: ") + stName(o2.status) + " after " + std::to_string(o2.tr.size()) + " iterations");
  int act = 0; for(auto & s : o.v.s) for(int j = 0; j < s.size(); j++) if(s[j] < 1e-2) act++;
  if(act) x.count("active_constraints"); x.count(d.c.ls ? "line_search" : "plain"); if(nu.size() == 0) x.count("no_inequalities"); x.observed(fsig(o));
}
// C12 -------------------------------------------------------------------------------------------
static void c12(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 1), 5); d.c.check_nan = true; d.c.max_iter = x.rng.in(1, 25); d.c.thre = x.rng.logu(1e-6, 1e-1); Rng & r = x.rng; describe(x, d);
  auto rec0 = std::make_shared<Rec>(); FOut b = runF(d, d.c, d.v, rec0); long T = rec0->total, init = d.c.init ? d.N : 0;
  std::vector<long> pos; long cap = x.thorough ? 300 : 60; if(T <= cap) for(long p = 0; p < T; p++) pos.push_back(p); else { for(long p = 0; p < cap / 2; p++) pos.push_back(p); for(long p = 0; p < cap / 2; p++) pos.push_back(r.next() % T); }
  const double vals[] = {std::nan(""), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 1e160, -1e180, 1e200, -1e220};
  // the measured state itself is not finite
  {
    FC e = d; e.x0[r.in(0, (int)e.x0.size() - 1)] = vals[r.in(0, 6)]; bool big = std::isfinite(e.x0.sum()); FOut o = runF(e, e.c, e.v); x.count("state_fault"); std::string w = "current state " + vs(e.x0);
    if(!big) x.check(finiteVar(o.v) && o.status != FSucc, "nonfinite-state", std::string(finiteVar(o.v) ? "" : "non-finite variables, ") + "status " + stName(o.status) + " for " + w);
    else x.check(finiteVar(o.v), "nonfinite", "non-finite variables returned, status " + std::string(stName(o.status)) + " for " + w);
  }
  for(long p : pos)
  {
    bool huge = r.chance(0.25); auto rc = std::make_shared<Rec>(); rc->faultAt = p; rc->faultVal = vals[huge ? r.in(3, 6) : r.in(0, 2)]; rc->faultElem = r.in(0, 30); rc->sticky = r.chance(0.3); FOut o;
    std::string w = " call " + std::to_string(p) + " returned " + ds(rc->faultVal) + (rc->sticky ? " from then on" : "") + " (element " + std::to_string(rc->faultElem) + ")";
    bool threw = false; try { o = runF(d, d.c, d.v, rc); } catch(const std::runtime_error &) { threw = true; }
    if(rc->fired < 0) continue; w = std::string(cbName(rc->fired)) + w;
    x.count(std::string("fault_") + cbName(rc->fired));
    if(threw) { x.check(p < init, "exception", "exception in the middle of a solve after " + w); x.count("rejected_in_setup"); continue; }
    if(p < init) { bool ok = finiteVar(o.v); if(o.status == FSucc) x.check(ok, "success-nonfinite", "success with non-finite variables after " + w); continue; }
    x.check(finiteVar(o.v), "nonfinite", "non-finite variables returned, status " + std::string(stName(o.status)) + " after " + w);
    x.check(positiveVar(o.v), "positive", "slack or multiplier not positive after " + w);
    if(huge) { x.count("overflow"); x.observed(hcomb(hcomb(p, rc->fired), fsig(o))); continue; } // finite values: only what overflows is monitored
    Kkt k = kktOf(*d.o, d.k0, d.N, d.x0, o.v); double sc = vscale(o.v);
    if(o.status == FSucc) x.check(k.norm() <= d.c.thre * (1 + 1e-6) + 1e-9 * sc, "false-success", "success with true KKT error " + ds(k.norm()) + " above " + ds(d.c.thre) + " after " + w);
    x.count(std::string("status_") + stName(o.status));
    // a non-finite value in the linearisation has to end the solve
    bool lin = rc->fired == CbDStateEq || rc->fired == CbDIneq || rc->fired == CbDTerm;
    if(lin && !rc->sticky && o.status != FSucc) { x.check(o.status == FErrB || o.status == FErrF || o.status == FErrU, "no-error", std::string("status ") + stName(o.status) + " although " + w); x.count("error_required"); }
    x.observed(hcomb(hcomb(p, rc->fired), fsig(o)));
  }
  x.count("positions", pos.size()); (void)b;
}
// C18 -------------------------------------------------------------------------------------------
static void c18(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 2)); d.c.max_iter = x.rng.in(0, 12); Rng & r = x.rng; describe(x, d);
  auto s = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, d.rec); int n = r.in(1, x.thorough ? 8 : 4); uint64_t h = 0;
  for(int q = 0; q < n; q++)
  {
    FmpcCfg c; c.check_nan = r.chance(0.5); c.init = r.chance(0.3); c.barrier = d.c.barrier; c.llt = r.chance(0.3); c.ls = r.chance(0.4); c.mult = r.chance(0.5); c.max_iter = r.in(0, 10); c.thre = r.logu(1e-6, 1e-1);
    int N = r.in(1, d.N + d.g.extra), k0 = r.in(0, d.N + d.g.extra - N); c.N = N; FVar v = randVar(r, *d.o, k0, N, r.logu(0.1, 3), 0.01, 3); int kind = r.in(0, 5);
    Rec & rc = *d.rec; rc.total = 0; rc.faultAt = rc.throwAt = -1; rc.sticky = false;
    if(kind == 0) { rc.faultAt = r.in(0, 8 * N); rc.faultVal = r.chance(0.5) ? std::nan("") : std::numeric_limits<double>::infinity(); rc.sticky = r.chance(0.5); rc.faultElem = r.in(0, 20); }
    if(kind == 1) rc.throwAt = r.in(0, 8 * N);
    if(kind == 2) { int w = r.in(0, 2); if(w == 0) v.x.push_back(v.x[0]); if(w == 1) v.nu.pop_back(); if(w == 2) for(auto & e : v.s) if(e.size()) e[0] = -1; }
    s->cfg(c); try { int st = s->solve(d.o->time(k0), r.vec(d.g.nx), v); x.count(std::string("prior_") + stName(st)); } catch(const std::exception &) { x.count("prior_exception"); }
    h = hcomb(h, kind * 1000 + N);
  }
  d.rec->faultAt = d.rec->throwAt = -1; s->cfg(d.c); s->solve(d.t(), d.x0, d.v); FOut a = s->out(); FOut b = runF(d, d.c, d.v); std::string why;
  x.check(sameOut(a, b, 1e-11, why), "history", "solve after " + std::to_string(n) + " earlier solves differs from a fresh solver: " + why);
  s->solve(d.t(), d.x0, d.v); x.check(sameOut(s->out(), b, 1e-11, why), "repeat", "repeating the same solve differs: " + why);
  x.count("fmpc_compared", 2); x.observed(hcomb(h, fsig(a)));
}
// C21 -------------------------------------------------------------------------------------------
static void c21(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 1)); Rng & r = x.rng; d.c.max_iter = r.in(0, 6); FVar v = d.v; std::string what; int kind = r.in(0, 15); bool dynU = d.kind.nu < 0, dynG = d.kind.ng < 0;
  auto pos = [&](const std::vector<Vec> & l) { std::vector<int> p; for(size_t i = 0; i < l.size(); i++) if(l[i].size()) p.push_back(i); return p; };
  auto len = [&](std::vector<Vec> & l, const char * n) { if(r.chance(0.5)) l.push_back(l.back()); else if(r.chance(0.3)) l.clear(); else l.pop_back(); what = std::string("length of ") + n; };
  auto dim = [&](Vec & e) { int n = e.size(); int m = n == 0 || r.chance(0.5) ? n + r.in(1, 2) : n - 1; e = Vec::Constant(m, 0.5); };
  if(kind == 0) len(v.x, "x"); else if(kind == 1) len(v.u, "u"); else if(kind == 2) len(v.lam, "lambda"); else if(kind == 3) len(v.s, "s"); else if(kind == 4) len(v.nu, "nu");
  else if((kind == 5 || kind == 6) && dynU) { int i = r.in(0, d.N - 1); dim(v.u[i]); what = "u dimension at " + std::to_string(i); x.count("u_dim"); }
  else if((kind == 7 || kind == 8) && dynG) { d.c.init = false; int i = r.in(0, d.N - 1); dim(v.s[i]); what = "s dimension at " + std::to_string(i); x.count("s_dim"); }
  else if((kind == 9 || kind == 10) && dynG) { d.c.init = false; int i = r.in(0, d.N - 1); dim(v.nu[i]); what = "nu dimension at " + std::to_string(i); x.count("nu_dim"); }
  else if((kind == 11 || kind == 12) && !pos(v.s).empty()) { d.c.init = false; auto p = pos(v.s); Vec & e = v.s[r.pick(p)]; e[r.in(0, e.size() - 1)] = -r.logu(1e-12, 10); what = "negative s"; x.count("negative_s"); }
  else if((kind == 13 || kind == 14) && !pos(v.nu).empty()) { d.c.init = false; auto p = pos(v.nu); Vec & e = v.nu[r.pick(p)]; e[r.in(0, e.size() - 1)] = -r.logu(1e-12, 10); what = "negative nu"; x.count("negative_nu"); }
  else if(kind == 15 && (dynU || dynG)) { d.rec->noDim = true; what = "missing dimension override"; x.count("missing_dim"); }
  else len(v.x, "x");
  describe(x, d); auto s = mkF(d, d.rec); bool thrown = false;
  try { s->solve(d.t(), d.x0, v); } catch(const std::exception & e) { thrown = true; }
  x.check(thrown, "accepted", "malformed variables were not rejected: " + what);
  long c = 0; for(int k : {CbStateEq, CbCost, CbTermCost, CbDStateEq, CbDCost, CbDTerm, CbIneq, CbDIneq}) c += d.rec->calls[k];
  x.check(c == 0 || kind == 15, "work-before-check", std::to_string(c) + " stage callbacks before the rejection of: " + what);
  d.rec->noDim = false; x.count("rejected");
  try { s->solve(d.t(), d.x0, d.v); } catch(const std::exception & e) { x.fail("well-formed-rejected", std::string("well-formed call rejected: ") + e.what()); }
  FOut b = runF(d, d.c, d.v); std::string why; x.check(sameOut(s->out(), b, 1e-11, why), "after-rejection", "solve after rejection of '" + what + "' differs from a fresh solver: " + why);
  // zero is non-negative and must not be rejected
  if(!pos(d.v.s).empty() && r.chance(0.3)) { FVar z = d.v; z.s[pos(z.s)[0]][0] = 0; z.nu[pos(z.s)[0]][0] = r.chance(0.5) ? 0 : 0.1; try { s->solve(d.t(), d.x0, z); } catch(const std::exception & e) { x.fail("zero-rejected", std::string("zero slack rejected: ") + e.what()); } x.count("zero_accepted"); }
  x.observed(hcomb(kind, fsig(b)));
}
// C22 -------------------------------------------------------------------------------------------
static void c22(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 2)); d.c.max_iter = x.rng.in(0, 20); describe(x, d); auto s = mkF(d);
  if(x.rng.chance(0.4)) { auto c = d.c; c.max_iter = 9; s->cfg(c); s->solve(d.t(), d.x0, randVar(x.rng, *d.o, d.k0, d.N, 1, 0.1, 1)); s->cfg(d.c); }
  s->solve(d.t(), d.x0, d.v); FOut o = s->out();
  for(size_t i = 0; i < o.tr.size(); i++) x.check(o.tr[i].iter == (int)i + 1, "iter", "entry " + std::to_string(i) + " numbered " + std::to_string(o.tr[i].iter));
  std::string path = tmpPath("fmpc"); { std::ofstream f(path); for(int i = 0; i < 300; i++) f << "junk junk " << i << "\n"; }
  s->dump(path); auto lines = readLines(path); unlink(path.c_str()); std::vector<std::vector<double>> rows; for(auto & t : o.tr) rows.push_back({(double)t.iter, t.kkt, t.dur[0], t.dur[1], t.dur[2], t.dur[3]});
  checkDump(x, lines, rows, {"iter", "kkt_error", "duration_coeff", "duration_backward", "duration_forward", "duration_update"});
  x.count("fmpc_dumps"); if(o.tr.size()) x.observed(fsig(o));
}
// C23 -------------------------------------------------------------------------------------------
static void c23(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 2)); Rng & r = x.rng; d.c.max_iter = r.in(0, 15); bool lb = r.chance(0.15) && makeLltBreak(d); describe(x, d);
  int fk = r.in(0, 3); long fat = r.in(0, 10 * d.N); double fv = fk == 0 ? std::nan("") : fk == 1 ? std::numeric_limits<double>::infinity() : r.pick(std::vector<double>{-1e6, 1e6, -50, 50, 1e200}); int fe = r.in(0, 40); bool sticky = r.chance(0.5); bool pre = x.idx % 3 == 0, grow = r.chance(0.5);
  if(r.chance(0.15)) for(auto & e : d.v.s) if(e.size() && r.chance(0.5)) e[0] = 0; // accepted, numerically hopeless
  FVar pv = randVar(r, *d.o, 0, d.N + d.g.extra, 1, 0.1, 1);
  auto run = [&](int pl, std::string & text) {
    auto rc = std::make_shared<Rec>(); auto s = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, rc); FmpcCfg c = d.c;
    Capture cap0; if(pre) { FmpcCfg v = c; v.print_level = 3; v.max_iter = 2; if(grow) { v.N = d.N + d.g.extra; s->cfg(v); s->solve(d.o->time(0), d.x0, pv); } else { s->cfg(v); s->solve(d.t(), d.x0, d.v); } rc->total = 0; } cap0.stop();
    if(fk <= 2) { rc->faultAt = fat; rc->faultVal = fv; rc->faultElem = fe; rc->sticky = sticky; }
    c.print_level = pl; s->cfg(c); Capture cap; try { s->solve(d.t(), d.x0, d.v); } catch(const std::runtime_error &) { } text = cap.stop(); return s->out();
  };
  std::string t0; FOut a = run(0, t0); x.check(t0.empty(), "output", "print level 0 wrote: " + t0.substr(0, 200));
  for(int pl = 1; pl <= 3; pl++)
  {
    std::string t; FOut b = run(pl, t); std::string why; x.check(sameOut(a, b, 1e-13, why), "result", "print level " + std::to_string(pl) + " changes the result: " + why);
    if(!t.empty()) x.count("verbose_output_level" + std::to_string(pl)); if(t.find("contains NaN") != std::string::npos) x.count("situation_nan"); if(t.find("not positive definite") != std::string::npos) x.count("situation_cholesky"); if(t.find("Invalid alpha") != std::string::npos) x.count("situation_invalid_alpha"); if(t.find("too small") != std::string::npos) x.count("situation_small_alpha");
  }
  (void)lb; x.observed(fsig(a));
}
// C25 -------------------------------------------------------------------------------------------
static void c25(Ctx & x)
{
  Rng & r = x.rng; int mode = r.in(0, 4);
  if(mode <= 1)
  {
    FC d = genF(x, r.in(0, 2), 8); describe(x, d); auto s = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, d.rec);
    for(int q = 0; q < 2; q++)
    {
      int N = q ? r.in(1, d.N + d.g.extra) : d.N, k0 = q ? r.in(0, d.N + d.g.extra - N) : d.k0; FmpcCfg c = d.c; c.N = N; c.max_iter = r.in(1, 8); s->cfg(c);
      d.rec->active = true; d.rec->k0 = k0; d.rec->N = N; d.rec->t0 = d.o->time(k0); d.rec->stages.clear();
      s->solve(d.o->time(k0), d.x0, q ? randVar(r, *d.o, k0, N, 1, 0.1, 1) : d.v);
      x.check(d.rec->bad.empty(), "discipline", d.rec->bad); x.check((int)d.rec->stages.size() == N, "coverage", "only " + std::to_string(d.rec->stages.size()) + " of " + std::to_string(N) + " steps were evaluated"); x.observed(fsig(s->out()));
    }
    x.count("recorded_calls", d.rec->total); bool zu = false, zg = false, all = true; for(int i = 0; i < d.N; i++) { zu |= d.o->st[d.k0 + i].nu == 0; zg |= d.o->st[d.k0 + i].ng == 0; all &= d.o->st[d.k0 + i].ng == 0; }
    if(zu) x.count("zero_input_steps"); if(zg) x.count("zero_inequality_steps"); if(all) x.count("no_inequality_problem"); return;
  }
  if(mode == 2) // fixed vs dynamic template dimensions: same iterates
  {
    static const std::vector<Kind> fk = {{2, 1, 2}, {3, 2, 3}}; FC d = genF(x, r.in(0, 1), 8, &fk); d.c.max_iter = r.in(1, 5); d.c.thre = 1e-9; describe(x, d);
    FOut a = runF(d, d.c, d.v); std::vector<Kind> alt = d.kind.nx == 2 ? std::vector<Kind>{{2, 1, -1}, {2, -1, 2}, {2, -1, -1}} : std::vector<Kind>{{3, -1, -1}};
    for(auto & k : alt) { FC e = d; e.kind = k; FOut b = runF(e, d.c, d.v); double q = std::max({relDiff(a.v.x, b.v.x), relDiff(a.v.u, b.v.u), relDiff(a.v.s, b.v.s), relDiff(a.v.nu, b.v.nu), relDiff(a.v.lam, b.v.lam)}); x.maxi("fixed_vs_dynamic", q); x.check(a.status == b.status && q <= 1e-5, "fixed-dynamic", "template dimensions <" + std::to_string(k.nx) + "," + std::to_string(k.nu) + "," + std::to_string(k.ng) + "> change the result by " + ds(q) + " status " + stName(a.status) + "/" + stName(b.status)); x.count("fixed_dynamic_pairs"); }
    x.observed(fsig(a)); return;
  }
  // varying dimensions vs equivalent fixed-dimension problem, at the optimum
  static const std::vector<Kind> dk = {{3, -1, -1}, {2, -1, -1}}; FC d = genF(x, 0, 8, &dk); d.k0 = 0; int nuF = d.kind.nx == 3 ? 2 : 1, ngF = d.kind.nx == 3 ? 3 : 2;
  d.g.maxnu = nuF; d.g.maxng = ngF; d.g.zeroDimProb = 0.3; if(mode == 4 && r.chance(0.3)) d.g.maxng = 0; Gen gg = d.g; if(gg.maxng == 0) { gg.ng = 0; }
  d.o = genOcp(r, gg, d.x0, &d.un); d.v = randVar(r, *d.o, 0, d.N, 0.5, 0.1, 1); d.c.barrier = true; d.c.ls = false; d.c.thre = 1e-7 * std::max(1.0, std::sqrt(d.N / 8.0)) /* above the floor of the barrier parameter */; d.c.max_iter = 100; describe(x, d);
  if(!feasibleNominal(d, 0.03)) { x.count("nominal_infeasible"); return; }
  FOut a = runF(d, d.c, d.v); auto pi = padInputs(*d.o, nuF); auto po = padIneq(*pi, ngF, 1.0);
  FVar pv = d.v; for(auto & u : pv.u) { Vec w = Vec::Zero(nuF); w.head(u.size()) = u; u = w; } for(auto & s : pv.s) { Vec w = Vec::Ones(ngF); w.head(s.size()) = s; s = w; } for(auto & s : pv.nu) { Vec w = Vec::Constant(ngF, 0.1); w.head(s.size()) = s; s = w; }
  FC f = d; f.kind = d.kind.nx == 3 ? Kind{3, 2, 3} : Kind{2, 1, 2}; f.o = po; FOut b = runF(f, d.c, pv);
  x.check(a.status == FSucc && b.status == FSucc, "varying-status", std::string("varying ") + stName(a.status) + " (" + std::to_string(a.tr.size()) + "), fixed " + stName(b.status) + " (" + std::to_string(b.tr.size()) + ")");
  double e = relDiff(a.v.x, b.v.x); x.maxi("varying_vs_fixed", e); x.check(e <= 2e-3, "varying-state", "state trajectories differ by " + ds(e));
  double ue = 0; for(int i = 0; i < d.N; i++) ue = std::max(ue, relDiff(a.v.u[i], Vec(b.v.u[i].head(a.v.u[i].size())))); x.maxi("varying_vs_fixed_input", ue); x.check(ue <= 5e-3, "varying-input", "inputs differ by " + ds(ue));
  bool zu = false, zg = false, all = true; for(int i = 0; i < d.N; i++) { zu |= d.o->st[i].nu == 0; zg |= d.o->st[i].ng == 0; all &= d.o->st[i].ng == 0; } if(zu) x.count("zero_input_steps"); if(zg) x.count("zero_inequality_steps"); if(all) x.count("no_inequality_problem"); x.count("padded_pairs"); x.observed(fsig(a));
}

// C27 -------------------------------------------------------------------------------------------
static void c27(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 2), 6); Rng & r = x.rng; int N = d.N; if(r.chance(0.1)) makeLltBreak(d); describe(x, d); std::string desc = x.desc;
  auto s = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, d.rec); Rec & rc = *d.rec; rc.timing = true; int n = r.in(2, 3); uint64_t h = 0;
  for(int q = 0; q < n; q++)
  {
    d.c.max_iter = r.in(0, 8); d.c.ls = r.chance(0.5); d.c.init = r.chance(0.4); s->cfg(d.c); rc.spin = r.chance(0.3) ? 0 : r.uni(0.5, 15); rc.total = 0; rc.throwAt = r.chance(0.1) ? r.in(0, 6 * N) : -1;
    rc.resetTiming(); if(d.c.init) rc.setupCalls[CbIneq] = N; x.desc = desc + " solve " + std::to_string(q) + " max_iter=" + std::to_string(d.c.max_iter) + " ls=" + std::to_string(d.c.ls) + " init=" + std::to_string(d.c.init) + " spin=" + ds(rc.spin);
    auto a = std::chrono::system_clock::now(); auto b = std::chrono::steady_clock::now(); bool thrown = false; try { s->solve(d.t(), d.x0, d.v); } catch(const std::domain_error &) { thrown = true; }
    double wall = 1e3 * std::chrono::duration<double>(std::chrono::system_clock::now() - a).count(), mono = 1e3 * std::chrono::duration<double>(std::chrono::steady_clock::now() - b).count();
    if(thrown) { x.count("interrupted"); continue; } if(std::abs(wall - mono) > 0.02 * mono + 0.02) { x.count("clock_adjusted"); continue; }
    auto D = s->dur(); FOut o = s->out(); double e = 1e-5 + 1e-9 * wall; static const char * nm[] = {"solve", "setup", "opt", "coeff", "backward", "forward", "update", "gain_pre", "gain_solve", "gain_post", "fraction"};
    for(int i = 0; i < 11; i++) x.check(std::isfinite(D[i]) && D[i] >= 0, "negative", std::string("duration ") + nm[i] + " is " + ds(D[i]));
    x.check(D[0] <= wall + e, "too-long", "solve duration " + ds(D[0]) + " ms exceeds the " + ds(wall) + " ms the call took");
    x.check(std::abs(D[0] - D[1] - D[2]) <= e, "split", "solve duration " + ds(D[0]) + " is not setup " + ds(D[1]) + " plus optimization " + ds(D[2]));
    x.check(D[3] + D[4] + D[5] + D[6] <= D[2] + e, "phases", "the phases take " + ds(D[3] + D[4] + D[5] + D[6]) + " of " + ds(D[2]) + " ms of the optimization");
    std::array<double, 4> t = {0, 0, 0, 0}; for(auto & z : o.tr) for(int i = 0; i < 4; i++) { x.check(z.dur[i] >= 0, "negative", "negative trace duration"); t[i] += z.dur[i]; }
    for(int i = 0; i < 4; i++) x.check(std::abs(t[i] - D[3 + i]) <= e, "trace-sum", std::string("duration ") + nm[3 + i] + " is " + ds(D[3 + i]) + " but the iterations recorded " + ds(t[i]));
    bool err = o.status == FErrB || o.status == FErrF || o.status == FErrU;
    if(!err) { x.check(D[7] + D[8] + D[9] <= D[4] + e, "backward-parts", "parts of the backward pass take " + ds(D[7] + D[8] + D[9]) + " of " + ds(D[4]) + " ms"); x.check(D[10] <= D[6] + e, "update-parts", "fraction-to-boundary takes " + ds(D[10]) + " of " + ds(D[6]) + " ms of the update"); x.count("parts"); }
    double dd = rc.spent[CbDStateEq] + rc.spent[CbDCost] + rc.spent[CbDTerm] + rc.spent[CbDIneq], val = rc.spent[CbStateEq] + rc.spent[CbCost] + rc.spent[CbTermCost] + rc.spent[CbIneq];
    x.check(D[1] >= rc.spentSetup - e, "setup-missing", "setup duration " + ds(D[1]) + " but the initialisation spent " + ds(rc.spentSetup) + " ms in callbacks");
    x.check(D[3] >= dd - e, "coeff-missing", "coefficient duration " + ds(D[3]) + " but derivative callbacks spent " + ds(dd) + " ms");
    if(!err) x.check(D[3] + D[6] >= dd + val - e, "update-missing", "coefficient and update durations " + ds(D[3]) + " + " + ds(D[6]) + " but the callbacks spent " + ds(dd + val) + " ms");
    if(rc.spent[CbCost] > 0) x.count("line_search_timed"); if(rc.spentSetup > 0) x.count("setup_timed"); if(q) x.count("later_solve"); if(o.tr.size() > 1) x.count("iterated"); h = hcomb(h, fsig(o)); x.observed(h); x.count("fmpc_solves_timed");
  }
}
// C28 -------------------------------------------------------------------------------------------
static void c28(Ctx & x) { Kind k = x.rng.pick(fmpcKinds()); Gen g; g.nx = k.nx; g.nu = k.nu; g.ng = k.ng; g.N = 1; auto o = genOcp(x.rng, g, x.rng.vec(k.nx)); auto s = makeFmpc(k.nx, k.nu, k.ng, o, nullptr); x.desc = "FMPC<" + std::to_string(k.nx) + "," + std::to_string(k.nu) + "," + std::to_string(k.ng) + ">"; std::string w = s->containers(x.rng, x.r.counters); x.check(w.empty(), "container", w); x.observed(x.rng.next()); }
// C29 -------------------------------------------------------------------------------------------
static void c29(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 2), 6); Rng & r = x.rng; d.c.check_nan = true; d.c.max_iter = r.in(1, 8); d.c.thre = r.chance(0.3) ? 0 : r.logu(1e-5, 1); bool lb = r.chance(0.1) && makeLltBreak(d); if(lb) d.c.llt = false; describe(x, d);
  auto s = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, nullptr);
  if(r.chance(0.5)) { FmpcCfg c = d.c; c.N = r.in(1, d.N + d.g.extra); int k0 = r.in(0, d.N + d.g.extra - c.N); s->cfg(c); s->solve(d.o->time(k0), d.x0, randVar(r, *d.o, k0, c.N, 1, 0.1, 1)); x.count("reused"); if(!d.c.barrier && !d.c.init) { s = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, nullptr); } }
  s->cfg(d.c); s->solve(d.t(), d.x0, d.v); FOut o = s->out(); auto cs = s->coeffs(); int N = d.N, n = o.tr.size(), nx = d.o->nx;
  x.check((int)cs.size() == N + 1, "length", std::to_string(cs.size()) + " coefficients for a horizon of " + std::to_string(N));
  if(o.status != FSucc && o.status != FMax) { x.count("not_completed"); return; }
  FVar cur; if(o.status == FSucc) cur = o.v; else { FmpcCfg c = d.c; c.max_iter = n - 1; FOut w = runF(d, c, d.v); cur = w.v; }
  if(!finiteVar(cur) || vscale(cur) > 1e5) { x.count("diverging"); return; }
  auto same = [&](const char * w, int i, const Mat & a, const Mat & b, double sc) { x.checkf(a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-10 * (1 + sc)), "coefficient", [&] { return std::string(w) + " of step " + std::to_string(i) + " is " + vs(a) + " but at the evaluated iterate it is " + vs(b); }); };
  double sc = vscale(cur); sc = sc * sc + 10 * sc;
  for(int i = 0; i < N; i++)
  {
    int k = d.k0 + i; Mat A, B, C, D, Lxx, Luu, Lxu; Vec Lx, Lu; d.o->df(k, cur.x[i], cur.u[i], A, B); d.o->dg(k, cur.x[i], cur.u[i], C, D); d.o->dL(k, cur.x[i], cur.u[i], Lx, Lu, Lxx, Luu, Lxu); double dt = d.o->dt; const FCoef & c = cs[i];
    same("A", i, c.A, A, sc); same("B", i, c.B, B, sc); same("C", i, c.C, C, sc); same("D", i, c.D, D, sc); same("Lx", i, c.Lx, Lx, sc); same("Lu", i, c.Lu, Lu, sc); same("Lxx", i, c.Lxx, Lxx, sc); same("Luu", i, c.Luu, Luu, sc); same("Lxu", i, c.Lxu, Lxu, sc);
    same("x_bar", i, c.xb, Vec(d.o->f(k, cur.x[i], cur.u[i]) - cur.x[i + 1]), sc); same("g_bar", i, c.gb, Vec(d.o->g(k, cur.x[i], cur.u[i]) + cur.s[i]), sc);
    Vec a = dt * Lx + A.transpose() * cur.lam[i + 1] - cur.lam[i] + C.transpose() * cur.nu[i], b = dt * Lu + B.transpose() * cur.lam[i + 1] + D.transpose() * cur.nu[i]; same("Lx_bar", i, c.Lxb, a, sc); same("Lu_bar", i, c.Lub, b, sc); x.count("stages");
  }
  { Vec Lx; Mat Lxx; d.o->dphi(d.k0 + N, cur.x[N], Lx, Lxx); same("terminal Lx", N, cs[N].Lx, Lx, sc); same("terminal Lxx", N, cs[N].Lxx, Lxx, sc); same("terminal Lx_bar", N, cs[N].Lxb, Vec(Lx - cur.lam[N]), sc); }
  x.count(o.status == FSucc ? "success" : "limit"); x.observed(hcomb(fsig(o), hmat(cs[0].A)));
  if(o.status != FMax || !wellCond(*d.o, cur)) return;
  // feedback law: the exact solution of the linearised system for any current state obeys du = K dx + k, dlambda = P dx - s
  Newton w0 = newtonOf(*d.o, d.k0, N, d.x0, cur); if(!w0.ok || !(w0.p0.norm() + w0.d0.norm() < 1e6)) return; FVar r0 = unstackLike(cur, w0.p0, w0.d0); double gmax = 0;
  for(auto & c : cs) { if(c.P.size()) gmax = std::max(gmax, c.P.cwiseAbs().maxCoeff()); if(c.K.size()) gmax = std::max(gmax, c.K.cwiseAbs().maxCoeff()); } if(!(gmax < 1e6)) return;
  for(int q = 0; q < 2; q++)
  {
    Newton w1 = newtonOf(*d.o, d.k0, N, d.x0 + r.vec(nx), cur); if(!w1.ok) return; FVar r1 = unstackLike(cur, w1.p0, w1.d0);
    for(int i = 0; i <= N; i++)
    {
      Vec dx = r1.x[i] - r0.x[i]; double m = 1e-5 * (1e-3 + dx.norm()) * (1 + gmax); Vec dl = r1.lam[i] - r0.lam[i]; x.checkf((cs[i].P * dx - dl).norm() <= m, "P", [&] { return "P of step " + std::to_string(i) + " maps the state change " + vs(dx) + " to " + vs(cs[i].P * dx) + " instead of " + vs(dl); });
      if(i < N && cur.u[i].size()) { Vec du = r1.u[i] - r0.u[i]; x.checkf((cs[i].K * dx - du).norm() <= m, "K", [&] { return "K of step " + std::to_string(i) + " maps the state change " + vs(dx) + " to " + vs(cs[i].K * dx) + " instead of " + vs(du); }); x.count("gains"); }
    }
  }
  // offsets: the step actually taken is a multiple of the direction of this law
  double a0 = 0, a1 = 0; for(int i = 0; i < N; i++) if(cur.u[i].size()) { Vec z = (o.v.u[i] - cur.u[i]) - cs[i].K * (o.v.x[i] - cur.x[i]); a0 += cs[i].k.dot(z); a1 += cs[i].k.squaredNorm(); }
  if(a1 > 1e-8)
  {
    double al = a0 / a1; double res = 0, mag = 0; for(int i = 0; i < N; i++) if(cur.u[i].size()) { Vec z = (o.v.u[i] - cur.u[i]) - cs[i].K * (o.v.x[i] - cur.x[i]); res += (z - al * cs[i].k).norm(); mag += (o.v.u[i] - cur.u[i]).norm() + (cs[i].K * (o.v.x[i] - cur.x[i])).norm() + 1e-9 * (1 + vscale(cur)) * (1 + gmax); }
    x.maxi("k_residual", res / mag); if(al > 1e-6) { x.check(res <= 1e-6 * mag && al <= 1 + 1e-6, "k", "inputs changed by other than step length " + ds(al) + " times the feedback law (residual " + ds(res) + " of " + ds(mag) + ")"); x.count("offsets"); }
    if(al > 1e-6)
    {
      double b0 = 0, b1 = 0; for(int i = 0; i <= N; i++) { Vec dir = cs[i].P * (o.v.x[i] - cur.x[i]) / al - cs[i].s; b0 += dir.dot(o.v.lam[i] - cur.lam[i]); b1 += dir.squaredNorm(); }
      if(b1 > 1e-8) { double be = b0 / b1, rs = 0, mg = 0; for(int i = 0; i <= N; i++) { Vec px = cs[i].P * (o.v.x[i] - cur.x[i]) / al, dir = px - cs[i].s; rs += (o.v.lam[i] - cur.lam[i] - be * dir).norm(); mg += be * (px.norm() + cs[i].s.norm()) + 1e-9 * (1 + vscale(cur)) * (1 + gmax) / std::min(1.0, al); } x.maxi("s_residual", rs / mg); x.check(rs <= 1e-6 * mg && be <= 1 + 1e-6, "s", "multipliers changed by other than step length " + ds(be) + " times the feedback law (residual " + ds(rs) + " of " + ds(mg) + ")"); x.count("multiplier_offsets"); }
    }
  }
  if(lb) x.count("cholesky_breakdown");
}
// C30 -------------------------------------------------------------------------------------------
static void c30(Ctx & x)
{
  FC d = genF(x, x.rng.in(0, 2), x.thorough ? 30 : 10); Rng & r = x.rng; d.c.max_iter = r.in(0, 40); describe(x, d); auto s = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, d.rec); s->cfg(d.c); Rec & rc = *d.rec; for(int k = 0; k < CbN; k++) rc.calls[k] = 0;
  rc.total = 0; rc.fired = -1; if(r.chance(0.3)) { rc.faultAt = r.in(0, 16 * d.N); rc.faultVal = r.pick(std::vector<double>{std::nan(""), INFINITY, -INFINITY, 1e200, -1e6}); rc.faultElem = r.in(0, 20); rc.sticky = r.chance(0.3); }
  s->solve(d.t(), d.x0, d.v); if(rc.fired >= 0) x.count("fmpc_faulty_values"); FOut o = s->out(); long I = o.tr.size(), N = d.N; x.check(I <= d.c.max_iter, "iterations", std::to_string(I) + " iterations with a limit of " + std::to_string(d.c.max_iter));
  auto lim = [&](int cb, long m) { x.check(rc.calls[cb] <= m, "calls", std::string(cbName(cb)) + " was called " + std::to_string(rc.calls[cb]) + " times instead of at most " + std::to_string(m) + " (" + std::to_string(I) + " iterations, horizon " + std::to_string(N) + ", line search " + std::to_string(d.c.ls) + ")"); };
  long ev = d.c.ls ? 36 : 1; lim(CbDStateEq, I * N); lim(CbDCost, I * N); lim(CbDIneq, I * N); lim(CbDTerm, I); lim(CbStateEq, I * N * ev); lim(CbIneq, I * N * ev + (d.c.init ? N : 0)); lim(CbCost, I * N * ev); lim(CbTermCost, I * ev);
  x.count("fmpc_iterations", I); if(d.c.ls) x.count("fmpc_line_search"); x.maxi("state_eq_per_step", I ? (double)rc.calls[CbStateEq] / (I * N) : 0); x.observed(fsig(o));
}
// C34 -------------------------------------------------------------------------------------------
static void c34(Ctx & x)
{
  Rng & r = x.rng; FC d = genF(x, r.in(0, 2)); describe(x, d); std::string why; FmpcCfg c = d.c; c.max_iter = 0; if(r.chance(0.3)) c.print_level = 0;
  for(int i = 0; i < d.N; i++) if(r.chance(0.15)) { if(d.v.u[i].size()) d.v.u[i] *= r.logu(1, 50); d.v.x[i] *= r.logu(1, 20); }
  FVar v = d.v; if(r.chance(0.5)) for(int i = 0; i < d.N; i++) for(int j = 0; j < v.s[i].size(); j++) { if(r.chance(0.3)) v.s[i][j] = r.pick(std::vector<double>{0, 1e-12, 1e9, 1}); if(r.chance(0.3)) v.nu[i][j] = r.pick(std::vector<double>{0, 1e-12, 1e9, 1}); }
  auto same = [&](const std::vector<Vec> & a, const std::vector<Vec> & b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(a[i].size() != b[i].size() || (a[i].array() != b[i].array()).any()) return false; return true; };
  auto s = mkF(d); if(r.chance(0.3)) { s->solve(d.t(), d.x0, d.v); x.count("used_before"); }
  // without initialisation the given variables are taken as they are
  c.init = false; s->cfg(c); s->solve(d.t(), d.x0, v); FOut a = s->out();
  x.check(same(a.v.x, v.x) && same(a.v.u, v.u) && same(a.v.lam, v.lam) && same(a.v.s, v.s) && same(a.v.nu, v.nu), "taken", "without initialisation and without iterations the returned variables differ from the given ones"); x.count("taken_as_given");
  // with initialisation only slacks and inequality multipliers are replaced, whatever was given for them
  c.init = true; s->cfg(c); FVar w = v; int k = r.in(0, 3);
  for(int i = 0; i < d.N; i++) for(int j = 0; j < w.s[i].size(); j++) { if(k == 1) { w.s[i][j] = -1; w.nu[i][j] = -2; } if(k == 2) { w.s[i][j] = std::nan(""); w.nu[i][j] = INFINITY; } if(k == 3) { w.s[i][j] = r.logu(1e-9, 1e9); w.nu[i][j] = 0; } }
  try { s->solve(d.t(), d.x0, w); } catch(const std::exception & e) { x.check(false, "rejected", std::string("slacks and multipliers that are to be initialised were rejected: ") + e.what()); }
  FOut b = s->out(); x.check(same(b.v.x, v.x) && same(b.v.u, v.u) && same(b.v.lam, v.lam), "others-changed", "initialisation of slacks and multipliers changed other variables");
  bool any = false;
  for(int i = 0; i < d.N; i++)
  {
    Vec g = d.o->g(d.k0 + i, v.x[i], v.u[i]); x.check(b.v.s[i].size() == g.size() && b.v.nu[i].size() == g.size(), "size", "initialised slacks have the wrong size");
    for(int j = 0; j < g.size(); j++)
    {
      double sl = b.v.s[i][j], nu = b.v.nu[i][j], t = 1e-9 * (1 + std::abs(g[j])); any = true; std::string e = "step " + std::to_string(i) + " inequality " + std::to_string(j) + ": g=" + ds(g[j]) + " slack=" + ds(sl) + " multiplier=" + ds(nu);
      x.check(sl > 0 && nu > 0 && std::isfinite(sl) && std::isfinite(nu), "positive", e);
      if(g[j] < 0) { x.check(sl >= -g[j] - t, "slack-small", "slack smaller than the margin of a satisfied inequality; " + e); x.check(sl <= -1.1 * g[j] + 0.1, "slack-large", "slack much larger than the margin of the inequality; " + e); x.count("satisfied"); }
      else { x.check(sl <= 0.1, "slack-violated", "large slack for a violated inequality; " + e); x.count("violated"); }
      x.check(sl * nu >= 1e-5 && nu <= 1.0, "multiplier", "multiplier out of proportion; " + e);
    }
  }
  // the whole solve does not depend on what was given for them
  FmpcCfg c2 = d.c; c2.init = true; FOut p = runF(d, c2, v), q; { FC d2 = d; q = runF(d2, c2, w); } bool eqv = sameOut(p, q, 0, why); x.check(eqv, "depends", "the solve depends on slacks or multipliers that are to be initialised: " + why);
  if(any) x.observed(fsig(p)); x.count("solves_compared");
}
// C36 -------------------------------------------------------------------------------------------
static void c36(Ctx & x)
{
  Rng & r = x.rng; FC d = genF(x, r.in(0, 2)); int n = r.in(2, x.thorough ? 25 : 12); d.c.max_iter = n; d.c.thre = r.logu(1e-9, 1e-2); describe(x, d); std::string why;
  auto f = mkF(d); f->solve(d.t(), d.x0, d.v); FOut whole = f->out(); int T = whole.tr.size(); if(T < 2) { x.count("fmpc_short"); return; } if(!finiteVar(whole.v) || vscale(whole.v) > 1e8) { x.count("fmpc_diverged"); return; }
  auto s = mkF(d); int at = 0, parts = 0; FOut p; FVar v = d.v;
  while(at < T)
  {
    // a fixed barrier parameter belongs to the solver object
    if(parts && (d.c.barrier || !d.c.init) && r.chance(0.5)) { s = mkF(d); x.count("fmpc_other_object"); }
    FmpcCfg c = d.c; c.max_iter = r.in(1, T - at); if(at + c.max_iter == T) c.max_iter = n - at; if(parts) c.init = false; s->cfg(c); s->solve(d.t(), d.x0, v); p = s->out(); int m = p.tr.size(); parts++;
    x.check(m >= 1 && at + m <= T, "fmpc-length", "the whole solve took " + std::to_string(T) + " iterations, but the parts more than " + std::to_string(at + m - 1)); if(m < 1) return;
    for(int i = 0; i < m; i++) { double a = whole.tr[at + i].kkt, b = p.tr[i].kkt; x.check(closeD(a, b, 1e-7 * (1e-6 + a)), "fmpc-iteration", "KKT error of iteration " + std::to_string(at + i + 1) + " is " + ds(a) + " in the whole solve but " + ds(b) + " when continued after iteration " + std::to_string(at)); x.count("fmpc_iterations_compared"); }
    at += m; v = p.v; if(p.status != FMax) break;
  }
  x.check(at == T && p.status == whole.status, "fmpc-result", "whole solve: " + std::to_string(T) + " iterations, " + stName(whole.status) + "; in parts: " + std::to_string(at) + ", " + stName(p.status));
  double e = std::max({relDiff(p.v.x, whole.v.x), relDiff(p.v.u, whole.v.u), relDiff(p.v.lam, whole.v.lam), relDiff(p.v.s, whole.v.s), relDiff(p.v.nu, whole.v.nu)});
  x.check(e <= 1e-7, "fmpc-variables", "solving in parts gives other variables: difference " + ds(e)); if(parts > 1) { x.count("fmpc_split"); if(d.c.ls) x.count("fmpc_split_line_search"); x.observed(fsig(whole)); }
}

// C32 -------------------------------------------------------------------------------------------
static void c32(Ctx & x)
{
  Rng & r = x.rng; FC d = genF(x, r.in(0, 2)); d.c.max_iter = r.in(0, 6); d.c.barrier = true; describe(x, d); std::string why;
  auto s = mkF(d); s->solve(d.t(), d.x0, d.v); int n = r.in(1, 4), last = d.k0;
  for(int q = 0; q < n; q++)
  {
    FOut b = s->out(); int j = 0, k0 = d.kind.nu >= 0 && d.kind.ng >= 0 ? r.in(0, d.g.extra) : last; FmpcCfg c = d.c; c.max_iter = r.in(0, 6); double t = d.o->time(k0);
    if(!allFinite(b.v.x) || !allFinite(b.v.u) || !allFinite(b.v.lam) || !allFinite(b.v.s) || !allFinite(b.v.nu)) break;
    bool own = r.chance(0.5); FVar nv; j = r.in(0, (int)b.v.x.size() - 1);
    if(!own || (int)b.v.u.size() != d.N) { own = false; int N = r.in(1, d.N + d.g.extra); k0 = r.in(0, d.N + d.g.extra - N); t = d.o->time(k0); c.N = N; nv = randVar(r, *d.o, k0, N, 1, 0.1, 1); x.count("fmpc_own_state_other_guess"); }
    last = k0; const FVar * w = own ? nullptr : &nv;
    auto f = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, nullptr); f->cfg(c); f->solve(t, b.v.x[j], own ? b.v : nv);
    if(r.chance(0.4))
    {
      std::unique_ptr<IFmpc> k; if(r.chance(0.5)) { k = s->share(); k->cfg(d.c); k->solve(d.t(), d.x0, d.v); k->assign(*s); } else k = s->clone();
      { bool same = sameOut(k->out(), b, 0, why); x.check(same, "copy", "copied solver holds other results: " + why); }
      k->cfg(c); k->solveOwn(t, j, w); { bool same = sameOut(k->out(), f->out(), 1e-13, why); x.check(same, "copy-solve", "solve with a copied solver differs from a fresh one: " + why); }
      { bool same = sameOut(s->out(), b, 0, why); x.check(same, "copy-aliasing", "solving with a copy changed the original: " + why); } x.count("fmpc_copies");
      if(r.chance(0.3)) { s = std::move(k); x.count("fmpc_copy_outlives_original"); continue; }
    }
    s->cfg(c); s->solveOwn(t, j, w); { bool same = sameOut(s->out(), f->out(), 1e-13, why); x.check(same, "own-results", "solve with references to the solver's own state " + std::to_string(j) + " and variable differs from a solve with copies: " + why); }
    x.count("fmpc_own"); x.observed(fsig(f->out()));
  }
}
int main(int argc, char ** argv)
{
  return runMain(argc, argv, {
    {"C07", 90000, 450000, c07, {"residuals_compared", "status_Succeeded", "status_MaxIterationReached", "status_ErrorInBackward", "threshold_equal"}},
    {"C08", 200000, 750000, c08, {"components", "status_Succeeded", "status_MaxIterationReached", "near_boundary", "line_search", "initialised"}},
    {"C09", 80000, 300000, c09, {"steps_checked", "limited_by_slack", "limited_by_multiplier", "full_primal_step", "adapted_barrier", "fixed_barrier", "cholesky_breakdown_steps", "no_inequality_steps"}},
    {"C10", 180000, 900000, c10, {"active_constraints", "line_search", "plain", "no_inequalities"}},
    {"C11", 120000, 450000, c11, {"steps_checked", "backtracked", "backtracked_3+", "scale_from_multipliers", "scale_from_derivative", "l1_zero_component", "l1_fixed", "l1_difference"}},
    {"C12", 6000, 60000, c12, {"overflow", "state_fault", "fault_stateEq", "fault_ineqConst", "fault_calcStateEqDeriv", "fault_calcIneqConstDeriv", "fault_calcRunningCostDeriv", "fault_calcTerminalCostDeriv", "status_Succeeded", "status_ErrorInBackward", "error_required"}},
    {"C18", 60000, 450000, c18, {"prior_exception", "prior_Succeeded", "fmpc_compared"}},
    {"C21", 60000, 300000, c21, {"rejected", "u_dim", "s_dim", "nu_dim", "negative_s", "negative_nu", "missing_dim", "zero_accepted"}},
    {"C22", 40000, 300000, c22, {"fmpc_dumps"}},
    {"C23", 22500, 225000, c23, {"verbose_output_level3", "verbose_output_level1"}},
    {"C25", 120000, 900000, c25, {"recorded_calls", "zero_input_steps", "zero_inequality_steps", "no_inequality_problem", "fixed_dynamic_pairs", "padded_pairs"}},
    {"C27", 3000, 60000, c27, {"fmpc_solves_timed", "line_search_timed", "setup_timed", "parts", "later_solve", "interrupted", "iterated"}},
    {"C28", 30000, 450000, c28, {"resets", "variable_elements", "coefficient_elements", "terminal_elements"}},
    {"C29", 80000, 300000, c29, {"stages", "gains", "offsets", "multiplier_offsets", "success", "limit", "reused", "cholesky_breakdown"}},
    {"C32", 90000, 450000, c32, {"fmpc_own", "fmpc_copies", "fmpc_copy_outlives_original"}},
    {"C34", 60000, 900000, c34, {"taken_as_given", "satisfied", "violated", "solves_compared", "used_before"}},
    {"C36", 60000, 900000, c36, {"fmpc_iterations_compared", "fmpc_split", "fmpc_split_line_search", "fmpc_other_object"}},
    {"C30", 40000, 600000, c30, {"fmpc_iterations", "fmpc_line_search", "fmpc_faulty_values"}},
  });
}
