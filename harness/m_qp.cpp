// Box QP monitors: C06 and the box-QP parts of C18, C21, C22, C23.
#include "common.h"
#include "capture.h"
#include <nmpc_ddp/BoxQP.h>
#include "gen_qp.h"
static void consistency(Ctx & x, const QP & q, const QOut & o)
{
  x.check(!o.str.empty(), "retstr", "result code " + std::to_string(o.ret) + " has no description");
  for(size_t i = 0; i < o.fr.size(); i++) { x.check(o.fr[i] >= 0 && o.fr[i] < q.n(), "free-range", "free index out of range"); if(i) x.check(o.fr[i] > o.fr[i - 1], "free-order", "free indices not strictly increasing"); }
  if(o.ret < 0) return;
  std::vector<bool> fr(q.n(), false); for(int i : o.fr) fr[i] = true;
  for(int i = 0; i < q.n(); i++) if(!fr[i]) { x.checkf(o.x[i] == q.lo[i] || o.x[i] == q.up[i], "clamped-inside", [&] { return "variable " + std::to_string(i) + " reported clamped but its value " + ds(o.x[i]) + " is not on a bound"; }); x.count("clamped_vars"); }
  if(!o.fr.empty())
  {
    x.check(o.hasL, "no-factorization", "free variables but no factorization");
    x.checkf(o.L.rows() == (int)o.fr.size(), "factor-size", [&] { return "factorization has size " + std::to_string(o.L.rows()) + " for " + std::to_string(o.fr.size()) + " free variables"; });
    double e = 0, m = 0; for(size_t a = 0; a < o.fr.size(); a++) for(size_t b = 0; b < o.fr.size(); b++) { m = std::max(m, std::abs(q.H(o.fr[a], o.fr[b]))); e = std::max(e, std::abs(o.L(a, b) - q.H(o.fr[a], o.fr[b]))); }
    x.maxi("factor_rel_error", e / m); x.check(e <= 1e-9 * m, "factor-mismatch", "factorization is not that of the free block: rel. error " + ds(e / m));
    x.count("factor_checked");
  }
}
static uint64_t sig(const QOut & o) { uint64_t h = hcomb(o.ret + 10, o.tr.size()); for(auto & t : o.tr) { uint64_t b = 0; for(bool c : t.cl) b = b * 2 + c; h = hcomb(h, b * 64 + t.steps); } return h; }

static void c06(Ctx & x)
{
  Rng & r = x.rng; int n = r.chance(0.15) ? 1 : r.chance(0.2) ? 2 : r.in(3, x.thorough ? 16 : 12); bool dyn = r.chance(0.5); if(!dyn) n = r.pick(std::vector<int>{1, 2, 3, 5});
  auto s = mkQ(n, dyn);
  if(r.chance(0.2)) // curvature that is not positive definite
  {
    QP q = genQ(x, n, 1e3); double sc = q.H.cwiseAbs().maxCoeff(); Eigen::SelfAdjointEigenSolver<Mat> es(q.H);
    Vec e = es.eigenvalues(); e[r.in(0, n - 1)] = -sc * r.logu(1e-4, 1); q.H = es.eigenvectors() * e.asDiagonal() * es.eigenvectors().transpose(); q.H = (0.5 * (q.H + q.H.transpose())).eval();
    Vec c = clip(q, q.x0), gr = q.g + q.H * c; bool interior = true; std::vector<int> f;
    for(int i = 0; i < n; i++) { bool cl = (c[i] == q.lo[i] && gr[i] > 0) || (c[i] == q.up[i] && gr[i] < 0); if(!cl) f.push_back(i); else interior = false; }
    QOut o = s->run(q); x.desc = "indefinite " + x.desc;
    Mat Hf(f.size(), f.size()); for(size_t a = 0; a < f.size(); a++) for(size_t b = 0; b < f.size(); b++) Hf(a, b) = q.H(f[a], f[b]);
    double mn = f.empty() ? 1 : Eigen::SelfAdjointEigenSolver<Mat>(Hf).eigenvalues().minCoeff();
    if(mn < -1e-9 * sc) { x.check(o.ret < 0, "indefinite-accepted", "free block of the start has eigenvalue " + ds(mn) + " but result code is " + std::to_string(o.ret)); x.count("indefinite_reported"); if(interior) x.count("indefinite_interior"); }
    else x.count("indefinite_elsewhere");
    consistency(x, q, o);
    for(int i = 0; i < n; i++) x.check(o.x[i] >= q.lo[i] && o.x[i] <= q.up[i], "bounds", "variable " + std::to_string(i) + " outside its bounds");
    // a non-negative code requires positive definite curvature on the reported free block
    if(o.ret >= 0 && !o.fr.empty()) { Mat F(o.fr.size(), o.fr.size()); for(size_t a = 0; a < o.fr.size(); a++) for(size_t b = 0; b < o.fr.size(); b++) F(a, b) = q.H(o.fr[a], o.fr[b]); x.check(Eigen::SelfAdjointEigenSolver<Mat>(F).eigenvalues().minCoeff() > -1e-9 * sc, "indefinite-success", "non-negative code with an indefinite free block"); }
    x.observed(sig(o)); return;
  }
  QP q = genQ(x, n, 1e6); bool guess = r.chance(0.85); if(!guess) q.x0.setZero();
  if(r.chance(0.3)) { QP p = genQ(x, n, 1e3); s->run(p); std::string d = x.desc; (void)d; }
  QOut o = s->run(q, guess);
  std::ostringstream ss; ss << "ret=" << o.ret << " iters=" << o.tr.size() << " guess=" << guess << " x0=" << vs(q.x0) << " g=" << vs(q.g) << " lo=" << vs(q.lo) << " up=" << vs(q.up) << " H=" << vs(q.H); x.desc = ss.str();
  x.check(o.x.size() == n && o.x.allFinite(), "finite", "solution is not finite");
  for(int i = 0; i < n; i++) x.checkf(o.x[i] >= q.lo[i] && o.x[i] <= q.up[i], "bounds", [&] { return "variable " + std::to_string(i) + " = " + ds(o.x[i]) + " outside [" + ds(q.lo[i]) + "," + ds(q.up[i]) + "]"; });
  x.check(o.ret >= 0, "negative-code", "positive definite problem ended with code " + std::to_string(o.ret));
  x.count("ret" + std::to_string(o.ret));
  consistency(x, q, o);
  Vec c0 = clip(q, q.x0); double f0 = obj(q, c0), fx = obj(q, o.x), sc = std::max(scale(q, c0), scale(q, o.x));
  x.check(fx <= f0 + 1e-12 * sc, "objective-increase", "objective " + ds(fx) + " is higher than at the clipped guess " + ds(f0));
  if(x.verbose) for(auto & t : o.tr) { Vec gr = q.g + q.H * t.x; std::cerr << t.iter << " x=" << vs(t.x) << " obj=" << ds(t.obj) << " d=" << vs(t.d) << " grad=" << vs(gr) << " steps=" << t.steps << " cl="; for(bool b : t.cl) std::cerr << b; std::cerr << "\n"; }
  bool ok; Vec z = refQP(q, ok);
  if(!ok) { x.count("reference_failed"); return; }
  double fz = obj(q, z), gap = fx - fz; sc = std::max(sc, scale(q, z));
  // solver tolerance: relative improvement 1e-8 per iteration, gradient 1e-8
  double mu = Eigen::SelfAdjointEigenSolver<Mat>(q.H).eigenvalues().minCoeff(), tol = 1e-5 * std::abs(fz) + 1e-10 * sc + 1e-12 + 1e-16 / mu;
  double den = std::abs(f0 - fz) + std::abs(fz) + 1e-9; x.maxi("gap", gap / den);
  x.checkf(gap <= tol, "not-minimal", [&] { return "objective " + ds(fx) + " but minimum is " + ds(fz) + " (start " + ds(f0) + ")"; });
  // uniqueness: strongly convex => distance from the gap
  double dist = (o.x - z).norm(), lim = std::sqrt(2 * tol / mu);
  x.check(dist <= 2 * lim + 1e-7 * z.norm(), "not-minimiser", "distance to the minimiser " + ds(dist));
  bool anyFree = false, anyCl = false; for(int i = 0; i < n; i++) { if(z[i] == q.lo[i] || z[i] == q.up[i]) anyCl = true; else anyFree = true; }
  if(anyFree && anyCl) x.count("partly_active"); if(!anyFree) x.count("all_active"); if(!anyCl) x.count("none_active");
  if(dyn) x.count("dynamic"); else x.count("fixed");
  int ch = 0; for(size_t i = 2; i + 1 < o.tr.size(); i++) if(o.tr[i].cl != o.tr[i - 1].cl) ch++; if(ch) x.count("active_set_changed"); x.maxi("iterations", o.tr.size() - 1);
  for(auto & t : o.tr) if(t.steps) x.count("backtracked");
  x.observed(sig(o));
}
static bool same(const Vec & a, const Vec & b) { return a.size() == b.size() && !(a.array() != b.array()).any(); }
static bool same(const QOut & a, const QOut & b, std::string & why)
{
  if(a.ret != b.ret) { why = "result code " + std::to_string(a.ret) + " vs " + std::to_string(b.ret); return false; }
  if(!(a.x.array() == b.x.array()).all() && !(a.x - b.x).isZero(1e-12 * (1 + b.x.norm()))) { why = "solution " + vs(a.x) + " vs " + vs(b.x); return false; }
  if(a.ret >= 0 && a.fr != b.fr) { why = "free variables"; return false; }
  if(a.ret >= 0 && !a.fr.empty() && (a.L.rows() != b.L.rows() || !(a.L - b.L).isZero(1e-12 * (1 + b.L.norm())))) { why = "factorization"; return false; }
  if(a.tr.size() != b.tr.size()) { why = "trace length " + std::to_string(a.tr.size()) + " vs " + std::to_string(b.tr.size()); return false; }
  for(size_t i = 0; i < a.tr.size(); i++) if(a.tr[i].iter != b.tr[i].iter || std::abs(a.tr[i].obj - b.tr[i].obj) > 1e-12 * (1 + std::abs(b.tr[i].obj)) || a.tr[i].cl != b.tr[i].cl || a.tr[i].steps != b.tr[i].steps || a.tr[i].fac != b.tr[i].fac) { why = "trace entry " + std::to_string(i); return false; }
  return true;
}
static void c18(Ctx & x)
{
  Rng & r = x.rng; int n = r.pick(std::vector<int>{1, 2, 3, 5}); bool dyn = r.chance(0.5); if(dyn) n = r.in(1, 9);
  auto s = mkQ(n, dyn); int k = r.in(1, 6); uint64_t h = 0;
  for(int i = 0; i < k; i++) { QP p = genQ(x, n, 1e5); if(r.chance(0.25)) indef(r, p); s->cfg(rcfg(r)); QOut o = s->run(p, r.chance(0.8)); x.count(o.ret < 0 ? "qp_prior_failed" : o.ret == 2 ? "qp_prior_short_step" : "qp_prior_ok"); h = hcomb(h, sig(o)); }
  QP q = genQ(x, n, 1e5); if(r.chance(0.15)) indef(r, q); QCfg c = rcfg(r); bool guess = r.chance(0.7);
  s->cfg(c); QOut a = s->run(q, guess); auto f = mkQ(n, dyn); f->cfg(c); QOut b = f->run(q, guess); std::string why;
  x.check(same(a, b, why), "qp-history", "box QP after " + std::to_string(k) + " earlier solves differs from a fresh one: " + why);
  QOut d = s->run(q, guess); x.check(same(d, b, why), "qp-repeat", "repeating the same box QP differs: " + why);
  x.count("qp_compared", 2); x.observed(hcomb(h, sig(a)));
}
template<int N> static bool throws(int n) { try { nmpc_ddp::BoxQP<N> s(n); return false; } catch(const std::exception &) { return true; } }
static void c21(Ctx & x)
{
  Rng & r = x.rng; int n = r.in(-5, 12); x.desc = "BoxQP dimension " + std::to_string(n);
  x.check(throws<-1>(n) == (n <= 0), "qp-dim", n <= 0 ? "non-positive dimension accepted" : "positive dimension rejected");
  x.check(throws<1>(n) == (n != 1), "qp-dim-fixed", "BoxQP<1>"); x.check(throws<2>(n) == (n != 2), "qp-dim-fixed", "BoxQP<2>"); x.check(throws<3>(n) == (n != 3), "qp-dim-fixed", "BoxQP<3>"); x.check(throws<5>(n) == (n != 5), "qp-dim-fixed", "BoxQP<5>");
  bool t = false; try { nmpc_ddp::BoxQP<-1> s; } catch(const std::exception &) { t = true; } x.check(t, "qp-dim", "dynamic dimension without value accepted");
  try { nmpc_ddp::BoxQP<3> s; } catch(const std::exception &) { x.fail("qp-dim", "default fixed dimension rejected"); }
  x.count(n <= 0 ? "qp_nonpositive" : "qp_positive"); x.observed(n + 100);
}
static void c22(Ctx & x)
{
  Rng & r = x.rng; int n = r.pick(std::vector<int>{1, 2, 3, 5}); bool dyn = r.chance(0.5); if(dyn) n = r.in(1, 10);
  auto s = mkQ(n, dyn); QP q = genQ(x, n, 1e5); if(r.chance(0.15)) indef(r, q); QCfg c = rcfg(r); s->cfg(c);
  if(r.chance(0.4)) { QP p = genQ(x, n, 1e3); s->run(p); }
  QOut o = s->run(q);
  x.check(!o.tr.empty(), "qp-trace-empty", "trace is empty");
  x.check((int)o.tr.size() - 1 <= c.max_iter + 0, "qp-trace-long", "trace has " + std::to_string(o.tr.size() - 1) + " iterations, limit " + std::to_string(c.max_iter));
  Vec c0 = clip(q, q.x0); x.check((o.tr[0].x - c0).isZero(1e-12 * (1 + c0.norm())), "qp-trace-start", "first entry is not the clipped guess");
  for(size_t i = 0; i < o.tr.size(); i++)
  {
    x.check(o.tr[i].iter == (int)i, "qp-trace-order", "entry " + std::to_string(i) + " is numbered " + std::to_string(o.tr[i].iter));
    double e = std::abs(o.tr[i].obj - obj(q, o.tr[i].x)); x.check(e <= 1e-10 * (1e-300 + scale(q, o.tr[i].x)), "qp-trace-obj", "entry " + std::to_string(i) + " has objective " + ds(o.tr[i].obj) + " but its point has " + ds(obj(q, o.tr[i].x)));
    for(int j = 0; j < n; j++) x.check(o.tr[i].x[j] >= q.lo[j] && o.tr[i].x[j] <= q.up[j], "qp-trace-bounds", "recorded point outside the bounds");
    if(i > 1) x.check(o.tr[i].fac >= 0, "qp-trace-fac", "");
    x.count("qp_entries");
  }
  x.count(o.ret < 0 ? "qp_failed" : o.ret == 1 ? "qp_limit" : "qp_ok"); x.observed(sig(o));
}
static void c23(Ctx & x)
{
  Rng & r = x.rng; int n = r.pick(std::vector<int>{1, 2, 3, 5}); bool dyn = r.chance(0.5); if(dyn) n = r.in(1, 10);
  QP q = genQ(x, n, 1e5); if(r.chance(0.3)) indef(r, q); if(r.chance(0.05)) q.g[r.in(0, n - 1)] = std::nan(""); QCfg c = rcfg(r); if(q.g.hasNaN()) c.max_iter = 5;
  std::string t0; QOut a; { auto s = mkQ(n, dyn); c.print = 0; s->cfg(c); Capture cap; a = s->run(q); t0 = cap.stop(); }
  x.check(t0.empty(), "qp-output", "print level 0 wrote: " + t0.substr(0, 200));
  for(int pl = 1; pl <= 3; pl++) { auto s = mkQ(n, dyn); c.print = pl; s->cfg(c); Capture cap; QOut b = s->run(q); std::string t = cap.stop(), why; if(!q.g.hasNaN()) x.check(same(a, b, why), "qp-result", "print level " + std::to_string(pl) + " changes the result: " + why); if(!t.empty()) x.count("qp_output_level" + std::to_string(pl)); }
  x.count(a.ret < 0 ? "qp_failed" : "qp_ok"); x.observed(sig(a));
}
// C35 -------------------------------------------------------------------------------------------
static void c35(Ctx & x)
{
  Rng & r = x.rng; bool dyn = r.chance(0.5); int n = dyn ? r.in(1, x.thorough ? 14 : 9) : r.pick(std::vector<int>{1, 2, 3, 5}); auto s = mkQ(n, dyn); QP q = genQ(x, n, 1e4); if(r.chance(0.15)) indef(r, q); QCfg c = rcfg(r); s->cfg(c);
  if(r.chance(0.2)) s->run(genQ(x, n, 1e3));
  QOut o = s->run(q); int T = o.tr.size(); std::ostringstream ss; ss << "ret=" << o.ret << " entries=" << T << " max_iter=" << c.max_iter << " gthre=" << c.gthre << " ithre=" << c.ithre << " factor=" << c.factor << " minstep=" << c.minstep << " armijo=" << c.armijo << " x0=" << vs(q.x0) << " g=" << vs(q.g) << " lo=" << vs(q.lo) << " up=" << vs(q.up) << " H=" << vs(q.H); x.desc = ss.str();
  x.check(T >= 2 && T - 1 <= c.max_iter, "iterations", std::to_string(T - 1) + " iterations with a limit of " + std::to_string(c.max_iter));
  Vec c0 = clip(q, q.x0); x.check(same(o.tr[0].x, c0) && same(o.tr[1].x, c0), "start", "the first recorded point is not the guess clipped to the bounds");
  std::vector<Vec> pts; for(int i = 1; i < T; i++) pts.push_back(o.tr[i].x); pts.push_back(o.x); bool moved = o.ret == 1; // only the iteration limit returns a point that is not recorded
  for(auto & y : pts) for(int i = 0; i < n; i++) x.check(y[i] >= q.lo[i] && y[i] <= q.up[i], "bounds", "a recorded point leaves the bounds");
  if(!moved) x.check(same(o.x, o.tr[T - 1].x), "returned", "the returned point is not the last recorded one");
  double hm = q.H.cwiseAbs().maxCoeff();
  for(int i = 1; i < T; i++)
  {
    const QTr & t = o.tr[i]; const Vec & y = pts[i - 1], & z = pts[i]; bool last = i == T - 1; Vec gr = q.g + q.H * y; Vec gs = q.g.cwiseAbs() + q.H.cwiseAbs() * y.cwiseAbs(); std::string e = "iteration " + std::to_string(i) + ": "; double gn = 0, gsn = 0; int nf = 0; bool sure = true; std::vector<bool> cl(n);
    for(int k = 0; k < n; k++) { cl[k] = (y[k] == q.lo[k] && gr[k] > 0) || (y[k] == q.up[k] && gr[k] < 0); if((y[k] == q.lo[k] || y[k] == q.up[k]) && std::abs(gr[k]) < 1e-12 * gs[k]) sure = false; if(!cl[k]) { gn += gr[k] * gr[k]; gsn += gs[k] * gs[k]; nf++; } }
    gn = std::sqrt(gn); double gt = 1e-13 * std::sqrt(gsn); if(!sure) { x.count("unsure"); return; }
    bool step = !last || moved || o.ret == 2; // a search direction was used in this iteration
    if(!last || moved)
    {
      Vec dx = z - y; double du = dx.dot(gr) + 0.5 * dx.dot(q.H * dx), us = dx.cwiseAbs().dot(gs) + 0.5 * dx.cwiseAbs().dot(q.H.cwiseAbs() * dx.cwiseAbs()); x.check(du <= 1e-11 * us, "ascent", e + "the objective rose by " + ds(du));
      double dg = t.d.dot(gr); if(t.steps == 0) { x.check(same(z, clip(q, y + t.d)) || (z - clip(q, y + t.d)).norm() <= 1e-12 * (z.norm() + t.d.norm()), "full-step", e + "no shortened step was recorded but the point did not move by the projected search direction"); x.check(-du >= -c.armijo * dg - 1e-9 * us - 1e-12 * std::abs(dg), "armijo", e + "full step decreased the objective by " + ds(-du) + ", required is " + ds(-c.armijo * dg)); x.count("full_steps"); }
      else
      {
        // the full step must have been insufficient
        Vec f = clip(q, y + t.d) - y; double fu = f.dot(gr) + 0.5 * f.dot(q.H * f), fs = f.cwiseAbs().dot(gs) + 0.5 * f.cwiseAbs().dot(q.H.cwiseAbs() * f.cwiseAbs()); x.check(fu / dg < c.armijo + 1e-9 + 1e-9 * fs / std::abs(dg), "shortened", e + "the full step was refused although it reaches the required decrease: " + ds(fu) + " of " + ds(dg)); 
        // length from an unclipped component
        double len = -1; for(int k = 0; k < n; k++) if(z[k] > q.lo[k] && z[k] < q.up[k] && std::abs(t.d[k]) > 1e-6 * (std::abs(y[k]) + std::abs(z[k]))) len = std::max(len, (z[k] - y[k]) / t.d[k]);
        if(len > 1e-6) { x.check(len < 1 && (z - clip(q, y + len * t.d)).norm() <= 1e-8 * (z.norm() + y.norm() + t.d.norm()), "projected", e + "the point did not move along the projected search direction"); x.check(du / (len * dg) >= c.armijo - 1e-7 - 1e-9 * us / std::abs(len * dg), "armijo-short", e + "step length " + ds(len) + " decreased the objective by " + ds(-du) + ", required is " + ds(-c.armijo * len * dg)); x.count("short_steps"); }
      }
    }
    if(step)
    {
      // projected Newton direction
      double res = 0, mag = 0; for(int k = 0; k < n; k++) { if(cl[k]) { x.check(t.d[k] == 0, "clamped-moves", e + "search direction moves a clamped variable"); continue; } double v = gr[k], m = gs[k]; for(int l = 0; l < n; l++) if(!cl[l]) { v += q.H(k, l) * t.d[l]; m += hm * (std::abs(t.d[l]) + std::abs(y[l])); } res = std::max(res, std::abs(v)); mag = std::max(mag, m); }
      x.maxi("newton", res / mag); x.check(res <= 1e-10 * mag, "direction", e + "the search direction is not the Newton direction of the free variables: residual " + ds(res) + " of " + ds(mag)); x.check(t.cl == cl, "clamped", e + "recorded clamped variables differ from those at a bound with the gradient pointing outwards"); x.count("directions");
      x.check(gn >= c.gthre * (1 - 1e-6) - gt, "went-on", e + "went on although the gradient of the free variables is " + ds(gn));
    }
    if(last)
    {
      if(o.ret == 6) x.check(nf == 0, "code6", "code 6 (all clamped) with " + std::to_string(nf) + " free variables");
      if(o.ret == 5) x.check(nf > 0 && gn <= c.gthre * (1 + 1e-6) + gt, "code5", "code 5 (small gradient) with gradient " + ds(gn) + " of the free variables");
      if(o.ret == 4) { x.check(T > 2, "code4-first", "code 4 (small improvement) before any step"); double a = o.tr[T - 2].obj, b = o.tr[T - 1].obj, os = std::max(scale(q, o.tr[T - 2].x), scale(q, o.x)); x.check(a - b <= c.ithre * std::abs(a) * (1 + 1e-9) + 1e-13 * os, "code4", "code 4 (small improvement) after an improvement from " + ds(a) + " to " + ds(b)); }
      if(o.ret == 1) x.check(T - 1 == c.max_iter, "code1", "code 1 (iteration limit) after " + std::to_string(T - 1) + " of " + std::to_string(c.max_iter) + " iterations");
      if(o.ret == 2) x.check(t.steps > 0, "code2", "code 2 (line search) without a shortened step");
      if(o.ret == -1) { Mat F(nf, nf); std::vector<int> f; for(int k = 0; k < n; k++) if(!cl[k]) f.push_back(k); for(int a = 0; a < nf; a++) for(int b = 0; b < nf; b++) F(a, b) = q.H(f[a], f[b]); x.check(nf > 0 && Eigen::SelfAdjointEigenSolver<Mat>(F).eigenvalues().minCoeff() <= 1e-12 * hm * n, "code-1", "code -1 (not positive definite) for a positive definite free block"); }
      x.check(o.ret != 0 && o.ret != 3 && o.ret != -2, "code", "unexpected code " + std::to_string(o.ret)); x.count("code" + std::to_string(o.ret));
    }
  }
  x.observed(hcomb(sig(o), hmat(o.x)));
}
// C37 -------------------------------------------------------------------------------------------
static void c37(Ctx & x)
{
  Rng & r = x.rng; bool dyn = r.chance(0.5); int n = dyn ? r.in(1, 9) : r.pick(std::vector<int>{1, 2, 3, 5}); QP q = genQ(x, n, 1e4); bool ind = r.chance(0.1); if(ind) indef(r, q); QCfg c = rcfg(r); auto s = mkQ(n, dyn); s->cfg(c); QOut o = s->run(q); if(o.ret == -2) return;
  int ko = 2 * r.in(-20, 20), kx = r.in(-35, 35); double ou = std::ldexp(1.0, ko), xu = std::ldexp(1.0, kx); QP p = q; p.H *= ou / xu / xu; p.g *= ou / xu; p.lo *= xu; p.up *= xu; p.x0 *= xu; QCfg k = c; k.gthre *= ou / xu; auto t = mkQ(n, dyn); t->cfg(k); QOut b = t->run(p); std::string w = " (objective unit 2^" + std::to_string(ko) + ", variable unit 2^" + std::to_string(kx) + ")"; if(b.ret == -2) return;
  x.desc = "n=" + std::to_string(n) + " H=" + vs(q.H) + " g=" + vs(q.g) + " lo=" + vs(q.lo) + " up=" + vs(q.up) + " x0=" + vs(q.x0);
  x.check(o.ret == b.ret && o.tr.size() == b.tr.size() && o.fr == b.fr, "qp-units", "code " + std::to_string(o.ret) + " after " + std::to_string(o.tr.size()) + " iterations becomes " + std::to_string(b.ret) + " after " + std::to_string(b.tr.size()) + " in other units" + w);
  x.check((o.x - b.x / xu).norm() <= 1e-10 * (1e-300 + o.x.norm()), "qp-units-solution", "the solution differs by " + ds((o.x - b.x / xu).norm()) + " in other units" + w); x.count(ind ? "qp_indefinite" : "qp_units"); x.observed(hcomb(sig(o), hmat(o.x)));
}
int main(int argc, char ** argv)
{
  return runMain(argc, argv, {
    {"C06", 250000, 3750000, c06, {"indefinite_reported", "clamped_vars", "factor_checked", "partly_active", "all_active", "none_active", "dynamic", "fixed", "active_set_changed", "backtracked", "ret4", "ret5", "ret6"}},
    {"C18", 90000, 900000, c18, {"qp_prior_failed", "qp_prior_ok", "qp_compared"}},
    {"C21", 2000, 30000, c21, {"qp_nonpositive", "qp_positive"}},
    {"C22", 60000, 900000, c22, {"qp_entries", "qp_failed", "qp_limit", "qp_ok"}},
    {"C35", 150000, 2000000, c35, {"full_steps", "short_steps", "directions", "code1", "code2", "code4", "code5", "code6", "code-1"}},
    {"C37", 80000, 1000000, c37, {"qp_units", "qp_indefinite"}},
    {"C23", 30000, 450000, c23, {"qp_output_level3", "qp_failed", "qp_ok"}},
  });
}
