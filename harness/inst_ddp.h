#pragma once
#include "ocp.h"
#include <nmpc_ddp/DDPProblem.h>
#include <nmpc_ddp/DDPSolver.h>

template<int NX, int NU>
struct DdpP : public nmpc_ddp::DDPProblem<NX, NU>
{
  using Base = nmpc_ddp::DDPProblem<NX, NU>;
  using X = typename Base::StateDimVector; using U = typename Base::InputDimVector;
  using XX = typename Base::StateStateDimMatrix; using UU = typename Base::InputInputDimMatrix; using XU = typename Base::StateInputDimMatrix;
  std::shared_ptr<const Ocp> o; std::shared_ptr<Rec> r;
  DdpP(std::shared_ptr<const Ocp> o_, std::shared_ptr<Rec> r_) : Base(o_->dt), o(o_), r(r_) {}
  using Base::inputDim;
  int inputDim(double t) const override
  {
    if(NU != Eigen::Dynamic) return NU;
    if(r && r->noDim) return Base::inputDim(t);
    Tm tm(r, CbInputDim); if(r) r->stage(CbInputDim, t, *o, -1);
    return o->st[o->idx(t)].nu;
  }
  X stateEq(double t, const X & x, const U & u) const override
  {
    Tm tm(r, CbStateEq); if(r) r->stage(CbStateEq, t, *o, u.size());
    Vec v; if(r && r->xunit != 1) v = r->xunit * o->f(o->idx(t), Vec(x / r->xunit), u); else v = o->f(o->idx(t), x, u);
    if(r && r->hit(CbStateEq)) r->corrupt(v);
    return v;
  }
  double runningCost(double t, const X & x, const U & u) const override
  {
    Tm tm(r, CbCost); if(r) r->stage(CbCost, t, *o, u.size());
    double v = r && r->mask ? o->L(o->idx(t), Rec::finite(x), Rec::finite(u)) : r && (r->unit != 1 || r->xunit != 1) ? r->unit * o->L(o->idx(t), Vec(x / r->xunit), u) : o->L(o->idx(t), x, u);
    if(r && r->hit(CbCost)) v = r->faultVal;
    return v;
  }
  double terminalCost(double t, const X & x) const override
  {
    Tm tm(r, CbTermCost); if(r) r->term(CbTermCost, t, *o);
    double v = r && r->mask ? o->phi(o->idx(t), Rec::finite(x)) : r && (r->unit != 1 || r->xunit != 1) ? r->unit * o->phi(o->idx(t), Vec(x / r->xunit)) : o->phi(o->idx(t), x);
    if(r && r->hit(CbTermCost)) v = r->faultVal;
    return v;
  }
  void calcStateEqDeriv(double t, const X & x, const U & u, Eigen::Ref<XX> a, Eigen::Ref<XU> b) const override
  {
    Tm tm(r, CbDStateEq); if(r) r->stage(CbDStateEq, t, *o, u.size());
    Mat A, B; if(r && r->xunit != 1) { o->df(o->idx(t), Vec(x / r->xunit), u, A, B); B *= r->xunit; } else o->df(o->idx(t), x, u, A, B);
    if(r) { r->outsz("calcStateEqDeriv/x", a.rows(), a.cols(), A.rows(), A.cols()); r->outsz("calcStateEqDeriv/u", b.rows(), b.cols(), B.rows(), B.cols()); }
    if(r && r->hit(CbDStateEq)) { if(r->faultElem % 2 && B.size()) { r->corrupt(B); } else r->corrupt(A); }
    a = A; b = B;
  }
  void calcStateEqDeriv(double, const X &, const U &, Eigen::Ref<XX>, Eigen::Ref<XU>, std::vector<XX> &, std::vector<UU> &, std::vector<XU> &) const override {}
  void calcRunningCostDeriv(double t, const X & x, const U & u, Eigen::Ref<X> lx, Eigen::Ref<U> lu) const override
  {
    Tm tm(r, CbDCost); if(r) r->stage(CbDCost, t, *o, u.size());
    Vec a, b; Mat c, d, e; o->dL(o->idx(t), x, u, a, b, c, d, e); lx = a; lu = b;
  }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Eigen::Ref<X> lx, Eigen::Ref<U> lu, Eigen::Ref<XX> lxx, Eigen::Ref<UU> luu, Eigen::Ref<XU> lxu) const override
  {
    Tm tm(r, CbDCost); if(r) r->stage(CbDCost, t, *o, u.size());
    Vec a, b; Mat c, d, e;
    if(r && (r->unit != 1 || r->xunit != 1)) { o->dL(o->idx(t), Vec(x / r->xunit), u, a, b, c, d, e); double k = r->unit, q = k / r->xunit; a *= q; b *= k; c *= q / r->xunit; d *= k; e *= q; }
    else o->dL(o->idx(t), x, u, a, b, c, d, e);
    if(r) { r->outsz("calcRunningCostDeriv/u", lu.size(), 1, b.size(), 1); r->outsz("calcRunningCostDeriv/uu", luu.rows(), luu.cols(), d.rows(), d.cols()); r->outsz("calcRunningCostDeriv/xu", lxu.rows(), lxu.cols(), e.rows(), e.cols()); }
    if(r && r->hit(CbDCost))
    {
      switch(r->faultElem % 5) { case 0: r->corrupt(a); break; case 1: if(b.size()) { r->corrupt(b); } else r->corrupt(a); break; case 2: r->corrupt(c); break; case 3: if(d.size()) { r->corrupt(d); } else r->corrupt(c); break; default: if(e.size()) { r->corrupt(e); } else r->corrupt(a); }
    }
    lx = a; lu = b; lxx = c; luu = d; lxu = e;
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> lx) const override
  {
    Tm tm(r, CbDTerm); if(r) r->term(CbDTerm, t, *o);
    Vec a; Mat b; o->dphi(o->idx(t), x, a, b); lx = a;
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> lx, Eigen::Ref<XX> lxx) const override
  {
    Tm tm(r, CbDTerm); if(r) r->term(CbDTerm, t, *o);
    Vec a; Mat b; if(r && (r->unit != 1 || r->xunit != 1)) { o->dphi(o->idx(t), Vec(x / r->xunit), a, b); a *= r->unit / r->xunit; b *= r->unit / r->xunit / r->xunit; } else o->dphi(o->idx(t), x, a, b);
    if(r && r->hit(CbDTerm)) { if(r->faultElem % 2) r->corrupt(a); else r->corrupt(b); }
    lx = a; lxx = b;
  }
};

template<int NX, int NU>
struct DdpW : public IDdp
{
  using S = nmpc_ddp::DDPSolver<NX, NU>;
  using U = typename S::InputDimVector; using X = typename S::StateDimVector;
  std::shared_ptr<DdpP<NX, NU>> p; S s; bool ok = false;
  DdpW(std::shared_ptr<const Ocp> o, std::shared_ptr<Rec> r) : p(std::make_shared<DdpP<NX, NU>>(o, r)), s(p) { ocp = o; rec = r; }
  explicit DdpW(std::shared_ptr<DdpP<NX, NU>> p_) : p(p_), s(p) { ocp = p->o; rec = p->r; }
  std::unique_ptr<IDdp> share() const override { return std::make_unique<DdpW>(p); }
  std::unique_ptr<IDdp> clone() const override { return std::make_unique<DdpW>(*this); }
  void assign(const IDdp & o) override { const DdpW & w = dynamic_cast<const DdpW &>(o); s = w.s; ok = w.ok; }
  bool solveOwn(double t, int j, const std::vector<Vec> * u) override
  {
    ok = false; std::vector<U> ul; if(u) for(auto & v : *u) { U w; w = v; ul.push_back(w); }
    const std::vector<U> & up = u ? static_cast<const std::vector<U> &>(ul) : s.controlData().u_list;
    return ok = s.solve(t, s.controlData().x_list[j], up);
  }
  void cfg(const DdpCfg & c) override
  {
    auto & d = s.config();
    d.print_level = c.print_level; d.use_state_eq_second_derivative = c.second; d.with_input_constraint = c.limits; d.max_iter = c.max_iter; d.horizon_steps = c.N; d.reg_type = c.reg_type;
    d.initial_lambda = c.lam0; d.initial_dlambda = c.dlam0; d.lambda_factor = c.lamf; d.lambda_min = c.lmin; d.lambda_max = c.lmax; d.k_rel_norm_thre = c.kthre; d.lambda_thre = c.lthre;
    if(c.alphas.size()) d.alpha_list = c.alphas; else d.alpha_list = typename S::Configuration().alpha_list;
    d.cost_update_ratio_thre = c.ratio; d.cost_update_thre = c.cthre;
  }
  void limits(bool) override
  {
    auto o = ocp; auto r = rec;
    s.setInputLimitsFunc([o, r](double t) -> std::array<U, 2> {
      if(r) r->stage(CbLimits, t, *o, -1);
      const Stage & st = o->st[o->idx(t)];
      std::array<U, 2> a; a[0] = st.lo; a[1] = st.up; return a;
    });
  }
  bool solve(double t, const Vec & x, const std::vector<Vec> & u) override
  {
    std::vector<U> ul; for(auto & v : u) { U w; if(NU != Eigen::Dynamic && v.size() != NU) throw std::logic_error("harness: bad fixed input size"); w = v; ul.push_back(w); }
    ok = false;
    X x0 = x;
    ok = s.solve(t, x0, ul);
    return ok;
  }
  DdpOut out() const override
  {
    DdpOut o; o.ok = ok; const auto & c = s.controlData();
    for(auto & v : c.x_list) o.x.push_back(v);
    for(auto & v : c.u_list) o.u.push_back(v);
    o.cost = c.cost_list;
    for(auto & t : s.traceDataList()) o.tr.push_back({t.iter, t.cost, t.lambda, t.dlambda, t.alpha, t.k_rel_norm, t.cost_update_actual, t.cost_update_expected, t.cost_update_ratio, {t.duration_derivative, t.duration_backward, t.duration_forward}});
    return o;
  }
  Vec defaultAlphas() const override { return typename S::Configuration().alpha_list; }
  void dump(const std::string & path) const override { s.dumpTraceDataList(path); }
  std::vector<double> dur() const override { const auto & d = s.computationDuration(); return {d.solve, d.setup, d.opt, d.derivative, d.backward, d.forward, d.Q, d.reg, d.gain}; }
  std::string containers(Rng & r, std::map<std::string, long> & cnt) const override
  {
    typename S::ControlData c; int N = r.in(0, 6); for(int i = 0; i <= N; i++) { X x = r.vec(NX, r.logu(1e-300, 1e300)); c.x_list.push_back(x); } for(int i = 0; i < N; i++) { U u = r.vec(NU < 0 ? r.in(0, 3) : NU, r.logu(1e-300, 1e300)); c.u_list.push_back(u); } c.cost_list = r.vec(N + 1, 10);
    if(c.containsNaN()) return "finite control data reported as containing NaN";
    std::vector<double *> e; for(auto & v : c.x_list) for(int j = 0; j < v.size(); j++) e.push_back(&v[j]); for(auto & v : c.u_list) for(int j = 0; j < v.size(); j++) e.push_back(&v[j]); for(int j = 0; j < c.cost_list.size(); j++) e.push_back(&c.cost_list[j]);
    for(size_t j = 0; j < e.size(); j++) { double o = *e[j]; *e[j] = badValue(r); if(!c.containsNaN()) return "non-finite element " + std::to_string(j) + " of " + std::to_string(e.size()) + " of the control data not detected"; *e[j] = o; cnt["control_elements"]++; }
    return "";
  }
};
