// Self-contained sequences of solves on one solver object, with a digest of every observable result.
#pragma once
#include "gen_ddp.h"
#include "gen_fmpc.h"
#include "gen_lin.h"
#include "gen_qp.h"
#include "capture.h"

struct Dig
{
  uint64_t h = 99;
  void i(long v) { h = hcomb(h, (uint64_t)v); }
  void d(double v) { uint64_t b; if(std::isnan(v)) b = 0x7ff8dead; else { if(v == 0) v = 0; std::memcpy(&b, &v, 8); } h = hcomb(h, b); }
  template<class M> void m(const Eigen::MatrixBase<M> & a_) { Mat a = a_; i(a.rows()); i(a.cols()); for(int k = 0; k < a.size(); k++) d(a.data()[k]); }
  void v(const std::vector<Vec> & a) { i(a.size()); for(auto & e : a) m(e); }
  void s(const std::string & t) { h = hcomb(h, hstr(t)); }
  void o(const DdpOut & a) { i(a.ok); v(a.x); v(a.u); m(a.cost); i(a.tr.size()); for(auto & t : a.tr) { i(t.iter); d(t.cost); d(t.lambda); d(t.dlambda); d(t.alpha); d(t.krel); d(t.act); d(t.exp); d(t.ratio); } }
  void o(const FOut & a) { i(a.status); v(a.v.x); v(a.v.u); v(a.v.lam); v(a.v.s); v(a.v.nu); i(a.tr.size()); for(auto & t : a.tr) { i(t.iter); d(t.kkt); } }
  void o(const QOut & a) { m(a.x); i(a.ret); for(int f : a.fr) i(f); i(a.hasL); m(a.L); i(a.tr.size()); for(auto & t : a.tr) { i(t.iter); m(t.x); d(t.obj); m(t.d); for(bool c : t.cl) i(c); i(t.fac); i(t.steps); } }
};
struct Job
{
  std::vector<uint64_t> digests; std::vector<std::string> notes;
  virtual ~Job() {}
  virtual int steps() const = 0;
  virtual void run(int k, Dig & d, std::string & note) = 0;
  void step() { Dig d; std::string n; int k = digests.size(); run(k, d, n); digests.push_back(d.h); notes.push_back(n); }
  bool done() const { return (int)digests.size() >= steps(); }
};
struct Opt { bool faults = false, verbose = false, dump = false; };
using JobFactory = std::function<std::unique_ptr<Job>()>;
inline void fileDigest(Dig & d, const std::function<void(const std::string &)> & dump, bool withDurations)
{
  static std::atomic<int> n{0}; std::string p = tmpPath("job") + std::to_string(n++); dump(p);
  auto l = readLines(p); unlink(p.c_str()); d.i(l.size()); if(!withDurations) for(auto & x : l) { std::istringstream is(x); std::string t; is >> t; d.s(t); is >> t; d.s(t); }
}
// ---- DDP
struct DSolve { DdpCfg c; int k0 = 0; Vec x; std::vector<Vec> u; long faultAt = -1, throwAt = -1; double fv = 0; int fe = 0; bool sticky = false, warm = false; };
struct DdpJob : Job
{
  std::unique_ptr<IDdp> s; std::shared_ptr<std::vector<DSolve>> q; Opt o;
  int steps() const override { return q->size(); }
  void run(int k, Dig & d, std::string & note) override
  {
    const DSolve & a = (*q)[k]; if(s->rec) { s->rec->total = 0; s->rec->faultAt = a.faultAt; s->rec->throwAt = a.throwAt; s->rec->faultVal = a.fv; s->rec->faultElem = a.fe; s->rec->sticky = a.sticky; }
    s->cfg(a.c); auto u = a.u;
    try { s->solve(s->ocp->time(a.k0), a.x, u); d.o(s->out()); note = "DDP solve"; if(o.dump) fileDigest(d, [&](const std::string & p) { s->dump(p); }, false); }
    catch(const std::exception & e) { d.s(e.what()); note = "DDP exception"; }
  }
};
inline JobFactory ddpJob(Ctx & x, Opt op, std::shared_ptr<IDdp> * sharedProto = nullptr)
{
  Rng & r = x.rng; DC d = genD(x, r.in(0, 2), false, -2, 10); int total = d.N + d.g.extra;
  if(sharedProto && *sharedProto) { // solves on an existing problem object
    auto oc = std::const_pointer_cast<Ocp>((*sharedProto)->ocp); d.o = oc; d.g.nx = oc->nx; total = (int)oc->st.size() - 1;
  }
  auto q = std::make_shared<std::vector<DSolve>>(); int n = r.in(2, 5);
  for(int i = 0; i < n; i++)
  {
    DSolve a; a.c = randCfg(x); int N = r.in(1, total); a.k0 = r.in(0, total - N); a.c.N = N; a.c.max_iter = r.chance(0.1) ? 0 : r.in(1, 8); a.c.limits = r.chance(0.35); a.c.print_level = op.verbose ? r.in(0, 4) : 0; a.x = r.vec(d.g.nx, r.logu(0.1, 3)); a.u = randU(r, *d.o, a.k0, N, r.logu(0.1, 3));
    if(op.faults) { int k = r.in(0, 9); if(k == 0) { a.faultAt = r.in(0, 6 * N); a.fv = r.pick(std::vector<double>{std::nan(""), INFINITY, -INFINITY, -1e6, 1e300}); a.fe = r.in(0, 20); a.sticky = r.chance(0.5); } if(k == 1) a.throwAt = r.in(0, 6 * N); if(k == 2) { if(r.chance(0.5) || d.kind.nu >= 0) a.u.push_back(a.u.back()); else a.u[r.in(0, N - 1)] = Vec::Zero(7); } }
    q->push_back(a);
  }
  if(sharedProto && !*sharedProto) { *sharedProto = makeDdp(d.kind.nx, d.kind.nu, d.o, nullptr); }
  std::shared_ptr<IDdp> proto = sharedProto ? *sharedProto : nullptr; Kind kd = d.kind; auto oc = d.o; bool faults = op.faults;
  return [=]() { auto j = std::make_unique<DdpJob>(); j->s = proto ? proto->share() : makeDdp(kd.nx, kd.nu, oc, faults ? std::make_shared<Rec>() : nullptr); j->s->limits(true); j->q = q; j->o = op; return j; };
}
// ---- FMPC
struct FSolve { FmpcCfg c; int k0 = 0; Vec x; FVar v; long faultAt = -1, throwAt = -1; double fv = 0; int fe = 0; bool sticky = false, warm = false; };
struct FJob : Job
{
  std::unique_ptr<IFmpc> s; std::shared_ptr<std::vector<FSolve>> q; Opt o; FVar last; int lastK = -1;
  int steps() const override { return q->size(); }
  void run(int k, Dig & d, std::string & note) override
  {
    const FSolve & a = (*q)[k]; if(s->rec) { s->rec->total = 0; s->rec->faultAt = a.faultAt; s->rec->throwAt = a.throwAt; s->rec->faultVal = a.fv; s->rec->faultElem = a.fe; s->rec->sticky = a.sticky; }
    s->cfg(a.c); FVar v = a.v;
    if(a.warm && lastK == a.k0 && last.u.size() == v.u.size()) v = last;
    try { s->solve(s->ocp->time(a.k0), a.x, v); FOut out = s->out(); d.o(out); note = "FMPC status " + std::to_string(out.status); bool fin = allFinite(out.v.x) && allFinite(out.v.s) && allFinite(out.v.nu); if(fin) { last = out.v; lastK = a.k0; } if(o.dump) fileDigest(d, [&](const std::string & p) { s->dump(p); }, false); }
    catch(const std::exception & e) { d.s(e.what()); note = "FMPC exception"; }
  }
};
inline JobFactory fmpcJob(Ctx & x, Opt op, std::shared_ptr<IFmpc> * sharedProto = nullptr)
{
  Rng & r = x.rng; FC d = genF(x, r.in(0, 2), 7); int total = d.N + d.g.extra;
  if(sharedProto && *sharedProto) { auto oc = std::const_pointer_cast<Ocp>((*sharedProto)->ocp); d.o = oc; d.g.nx = oc->nx; total = (int)oc->st.size() - 1; }
  auto q = std::make_shared<std::vector<FSolve>>(); int n = r.in(2, 5);
  for(int i = 0; i < n; i++)
  {
    FSolve a; FmpcCfg & c = a.c; int N = r.in(1, total); a.k0 = r.in(0, total - N); c.N = N; c.check_nan = r.chance(0.5); c.init = r.chance(0.3); c.barrier = r.chance(0.8); c.llt = r.chance(0.3); c.ls = r.chance(0.4); c.mult = r.chance(0.5); c.max_iter = r.chance(0.08) ? 0 : r.in(1, 8); c.thre = r.logu(1e-6, 1e-1); c.print_level = op.verbose ? r.in(0, 4) : 0;
    a.x = r.vec(d.g.nx); a.v = randVar(r, *d.o, a.k0, N, r.logu(0.1, 3), 0.03, 3); a.warm = r.chance(0.5);
    if(op.faults) { int k = r.in(0, 9); if(k == 0) { a.faultAt = r.in(0, 8 * N); a.fv = r.pick(std::vector<double>{std::nan(""), INFINITY, -INFINITY, -1e6, 1e300}); a.fe = r.in(0, 20); a.sticky = r.chance(0.5); } if(k == 1) a.throwAt = r.in(0, 8 * N); if(k == 2) { int w = r.in(0, 2); if(w == 0) a.v.x.push_back(a.v.x[0]); if(w == 1) a.v.nu.pop_back(); if(w == 2) for(auto & e : a.v.s) if(e.size()) e[0] = -1; } }
    q->push_back(a);
  }
  if(sharedProto && !*sharedProto) *sharedProto = makeFmpc(d.kind.nx, d.kind.nu, d.kind.ng, d.o, nullptr);
  std::shared_ptr<IFmpc> proto = sharedProto ? *sharedProto : nullptr; Kind kd = d.kind; auto oc = d.o; bool faults = op.faults;
  return [=]() { auto j = std::make_unique<FJob>(); j->s = proto ? proto->share() : makeFmpc(kd.nx, kd.nu, kd.ng, oc, faults ? std::make_shared<Rec>() : nullptr); j->q = q; j->o = op; return j; };
}
// ---- box QP
struct QJob : Job
{
  std::unique_ptr<IQ> s; struct E { QP q; QCfg c; bool guess; }; std::shared_ptr<std::vector<E>> l;
  int steps() const override { return l->size(); }
  void run(int k, Dig & d, std::string & note) override { auto & e = (*l)[k]; s->cfg(e.c); d.o(s->run(e.q, e.guess)); note = "BoxQP"; }
};
inline JobFactory qpJob(Ctx & x, Opt op)
{
  Rng & r = x.rng; int n = r.pick(std::vector<int>{1, 2, 3, 5}); bool dyn = r.chance(0.5); if(dyn) n = r.in(1, 9); auto l = std::make_shared<std::vector<QJob::E>>();
  for(int i = r.in(2, 6); i > 0; i--) { QJob::E e{genQ(x, n, 1e5), rcfg(r), r.chance(0.7)}; if(r.chance(0.2)) indef(r, e.q); if(op.verbose) e.c.print = r.in(0, 4); l->push_back(e); }
  return [=]() { auto j = std::make_unique<QJob>(); j->s = mkQ(n, dyn); j->l = l; return j; };
}
// ---- GMRES
struct GJob : Job
{
  nmpc_cgmres::Gmres g; struct E { Lin l; bool tri, reorth, fn; }; std::shared_ptr<std::vector<E>> l;
  int steps() const override { return l->size(); }
  void run(int k, Dig & d, std::string & note) override
  {
    auto & e = (*l)[k]; g.make_triangular_ = e.tri; g.apply_reorth_ = e.reorth; Vec y = e.l.x0;
    if(e.fn) { nmpc_cgmres::Gmres::AmulFunc F = [&](const Eigen::Ref<const Eigen::VectorXd> & v) { tlHook(); return Vec(e.l.A * v); }; g.solve(F, e.l.b, y, e.l.kmax, e.l.eps); }
    else g.solve(Eigen::Ref<const Eigen::MatrixXd>(e.l.A), e.l.b, y, e.l.kmax, e.l.eps);
    d.m(y); d.i(g.err_list_.size()); for(double v : g.err_list_) d.d(v); note = "GMRES";
  }
};
inline JobFactory gmJob(Ctx & x, Opt)
{
  auto l = std::make_shared<std::vector<GJob::E>>(); for(int i = x.rng.in(2, 6); i > 0; i--) l->push_back({genLin(x), x.rng.chance(0.5), x.rng.chance(0.5), x.rng.chance(0.5)});
  return [=]() { auto j = std::make_unique<GJob>(); j->l = l; return j; };
}
// ---- C/GMRES
struct CJob : Job
{
  std::shared_ptr<CgP> p; std::unique_ptr<nmpc_cgmres::CgmresSolver> s; int n = 1; uint64_t seed = 1; bool rk = false, quiet = true;
  int steps() const override { return n; }
  void run(int k, Dig & d, std::string & note) override
  {
    Rng r(hcomb(seed, k));
    if(k % 3 == 0) { randParam(r, *s); s->setup(); d.m(s->u_list_); d.m(s->u_); d.m(s->x_); note = "C/GMRES setup"; return; }
    Vec xv = p->x_initial_; double t = r.uni(0, 2);
    for(int q = 0; q < 3; q++) { Vec xn = xv + r.vec(p->nx, 0.02), u(p->nu); s->calcControlInput(t, xv, xn, u); d.m(u); d.m(s->u_list_); d.m(s->DhDu_list_); d.m(s->delta_u_vec_); xv = xn; t += s->dt_; }
    note = "C/GMRES control";
  }
};
inline JobFactory cgJob(Ctx & x, Opt, std::shared_ptr<CgP> * shared = nullptr)
{
  Rng & r = x.rng; auto p = shared && *shared ? *shared : genCg(r, r.uni(0, 0.3), r.uni(0, 0.3), 0, true); if(shared && !*shared) *shared = p; int n = r.in(2, 6); uint64_t sd = r.next(); bool rk = r.chance(0.4);
  return [=]() { auto j = std::make_unique<CJob>(); j->p = p; std::shared_ptr<nmpc_cgmres::OdeSolver> ode; if(rk) ode = std::make_shared<nmpc_cgmres::RungeKuttaOdeSolver>(); else ode = std::make_shared<nmpc_cgmres::EulerOdeSolver>(); j->s = std::make_unique<nmpc_cgmres::CgmresSolver>(p, ode); j->n = n; j->seed = sd; return j; };
}
inline JobFactory anyJob(Ctx & x, int k, Opt op) { switch(k) { case 0: return ddpJob(x, op); case 1: return fmpcJob(x, op); case 2: return qpJob(x, op); case 3: return gmJob(x, op); default: return cgJob(x, op); } }
inline const char * jobName(int k) { static const char * n[] = {"ddp", "fmpc", "boxqp", "gmres", "cgmres"}; return n[k]; }
