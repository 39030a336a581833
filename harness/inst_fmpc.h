#pragma once
#include "ocp.h"
#include <nmpc_fmpc/FmpcProblem.h>
#include <nmpc_fmpc/FmpcSolver.h>

template<int NX, int NU, int NG>
struct FmpcP : public nmpc_fmpc::FmpcProblem<NX, NU, NG>
{
  using Base = nmpc_fmpc::FmpcProblem<NX, NU, NG>;
  using X = typename Base::StateDimVector; using U = typename Base::InputDimVector; using G = typename Base::IneqDimVector;
  using XX = typename Base::StateStateDimMatrix; using UU = typename Base::InputInputDimMatrix; using XU = typename Base::StateInputDimMatrix;
  using GX = typename Base::IneqStateDimMatrix; using GU = typename Base::IneqInputDimMatrix;
  std::shared_ptr<const Ocp> o; std::shared_ptr<Rec> r;
  FmpcP(std::shared_ptr<const Ocp> o_, std::shared_ptr<Rec> r_) : Base(o_->dt), o(o_), r(r_) {}
  using Base::inputDim; using Base::ineqDim;
  int inputDim(double t) const override { if(NU != Eigen::Dynamic) return NU; if(r && r->noDim) return Base::inputDim(t); if(r) r->stage(CbInputDim, t, *o, -1); return o->st[o->idx(t)].nu; }
  int ineqDim(double t) const override { if(NG != Eigen::Dynamic) return NG; if(r && r->noDim) return Base::ineqDim(t); if(r) r->stage(CbIneqDim, t, *o, -1); return o->st[o->idx(t)].ng; }
  X stateEq(double t, const X & x, const U & u) const override
  {
    Tm tm(r, CbStateEq); if(r) r->stage(CbStateEq, t, *o, u.size());
    Vec v = o->f(o->idx(t), x, u);
    if(r && r->hit(CbStateEq)) r->corrupt(v);
    return v;
  }
  double runningCost(double t, const X & x, const U & u) const override
  {
    Tm tm(r, CbCost); if(r) r->stage(CbCost, t, *o, u.size());
    double v = o->L(o->idx(t), x, u);
    if(r && r->hit(CbCost)) v = r->faultVal;
    return v;
  }
  double terminalCost(double t, const X & x) const override
  {
    Tm tm(r, CbTermCost); if(r) r->term(CbTermCost, t, *o);
    double v = o->phi(o->idx(t), x);
    if(r && r->hit(CbTermCost)) v = r->faultVal;
    return v;
  }
  void calcStateEqDeriv(double t, const X & x, const U & u, Eigen::Ref<XX> a, Eigen::Ref<XU> b) const override
  {
    Tm tm(r, CbDStateEq); if(r) r->stage(CbDStateEq, t, *o, u.size());
    Mat A, B; o->df(o->idx(t), x, u, A, B);
    if(r) { r->outsz("calcStateEqDeriv/x", a.rows(), a.cols(), A.rows(), A.cols()); r->outsz("calcStateEqDeriv/u", b.rows(), b.cols(), B.rows(), B.cols()); }
    if(r && r->hit(CbDStateEq)) { if(r->faultElem % 2 && B.size()) r->corrupt(B); else r->corrupt(A); }
    a = A; b = B;
  }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Eigen::Ref<X> lx, Eigen::Ref<U> lu) const override
  {
    Tm tm(r, CbDCost); if(r) r->stage(CbDCost, t, *o, u.size());
    Vec a, b; Mat c, d, e; o->dL(o->idx(t), x, u, a, b, c, d, e); lx = a; lu = b;
  }
  void calcRunningCostDeriv(double t, const X & x, const U & u, Eigen::Ref<X> lx, Eigen::Ref<U> lu, Eigen::Ref<XX> lxx, Eigen::Ref<UU> luu, Eigen::Ref<XU> lxu) const override
  {
    Tm tm(r, CbDCost); if(r) r->stage(CbDCost, t, *o, u.size());
    Vec a, b; Mat c, d, e; o->dL(o->idx(t), x, u, a, b, c, d, e);
    if(r) { r->outsz("calcRunningCostDeriv/u", lu.size(), 1, b.size(), 1); r->outsz("calcRunningCostDeriv/uu", luu.rows(), luu.cols(), d.rows(), d.cols()); r->outsz("calcRunningCostDeriv/xu", lxu.rows(), lxu.cols(), e.rows(), e.cols()); }
    if(r && r->hit(CbDCost))
    {
      switch(r->faultElem % 5) { case 0: r->corrupt(a); break; case 1: if(b.size()) { r->corrupt(b); } else r->corrupt(a); break; case 2: r->corrupt(c); break; case 3: if(d.size()) { r->corrupt(d); } else r->corrupt(c); break; default: if(e.size()) { r->corrupt(e); } else r->corrupt(a); }
    }
    lx = a; lu = b; lxx = c; luu = d; lxu = e;
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> lx) const override
  {
    Tm tm(r, CbDTerm); if(r) r->term(CbDTerm, t, *o);
    Vec a; Mat b; o->dphi(o->idx(t), x, a, b); lx = a;
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> lx, Eigen::Ref<XX> lxx) const override
  {
    Tm tm(r, CbDTerm); if(r) r->term(CbDTerm, t, *o);
    Vec a; Mat b; o->dphi(o->idx(t), x, a, b);
    if(r && r->hit(CbDTerm)) { if(r->faultElem % 2) r->corrupt(a); else r->corrupt(b); }
    lx = a; lxx = b;
  }
  G ineqConst(double t, const X & x, const U & u) const override
  {
    Tm tm(r, CbIneq); if(r) r->stage(CbIneq, t, *o, u.size());
    Vec v = o->g(o->idx(t), x, u);
    if(r && r->hit(CbIneq)) r->corrupt(v);
    return v;
  }
  void calcIneqConstDeriv(double t, const X & x, const U & u, Eigen::Ref<GX> c, Eigen::Ref<GU> d) const override
  {
    Tm tm(r, CbDIneq); if(r) r->stage(CbDIneq, t, *o, u.size());
    Mat C, D; o->dg(o->idx(t), x, u, C, D);
    if(r) { r->outsz("calcIneqConstDeriv/x", c.rows(), c.cols(), C.rows(), C.cols()); r->outsz("calcIneqConstDeriv/u", d.rows(), d.cols(), D.rows(), D.cols()); }
    if(r && r->hit(CbDIneq)) { if(r->faultElem % 2 && D.size()) r->corrupt(D); else r->corrupt(C); }
    c = C; d = D;
  }
};

template<int NX, int NU, int NG>
struct FmpcW : public IFmpc
{
  using S = nmpc_fmpc::FmpcSolver<NX, NU, NG>;
  std::shared_ptr<FmpcP<NX, NU, NG>> p; S s; int st = 0;
  FmpcW(std::shared_ptr<const Ocp> o, std::shared_ptr<Rec> r) : p(std::make_shared<FmpcP<NX, NU, NG>>(o, r)), s(p) { ocp = o; rec = r; }
  explicit FmpcW(std::shared_ptr<FmpcP<NX, NU, NG>> p_) : p(p_), s(p) { ocp = p->o; rec = p->r; }
  std::unique_ptr<IFmpc> share() const override { return std::make_unique<FmpcW>(p); }
  std::unique_ptr<IFmpc> clone() const override { return std::make_unique<FmpcW>(*this); }
  void assign(const IFmpc & o) override { const FmpcW & w = dynamic_cast<const FmpcW &>(o); s = w.s; st = w.st; }
  int solveOwn(double t, int j, const FVar * w) override { st = 0; const auto & v = s.variable(); if(!w) return st = static_cast<int>(s.solve(t, v.x_list[j], v)); auto c = conv(*w); return st = static_cast<int>(s.solve(t, v.x_list[j], c)); }
  void cfg(const FmpcCfg & c) override
  {
    auto & d = s.config();
    d.print_level = c.print_level; d.horizon_steps = c.N; d.max_iter = c.max_iter; d.kkt_error_thre = c.thre; d.check_nan = c.check_nan;
    d.init_complementary_variable = c.init; d.update_barrier_eps = c.barrier; d.break_if_llt_fails = c.llt; d.enable_line_search = c.ls; d.merit_const_scale_from_lagrange_multipliers = c.mult;
  }
  static typename S::Variable conv(const FVar & v)
  {
    typename S::Variable r(v.u.size());
    auto cp = [](auto & dst, const std::vector<Vec> & src) { dst.clear(); for(auto & e : src) { typename std::decay<decltype(dst[0])>::type w; if(w.SizeAtCompileTime != Eigen::Dynamic && e.size() != w.SizeAtCompileTime) throw std::logic_error("harness: bad fixed size"); w = e; dst.push_back(w); } };
    cp(r.x_list, v.x); cp(r.u_list, v.u); cp(r.lambda_list, v.lam); cp(r.s_list, v.s); cp(r.nu_list, v.nu);
    return r;
  }
  int solve(double t, const Vec & x, const FVar & v) override
  {
    auto var = conv(v);
    st = 0;
    typename S::StateDimVector x0 = x;
    st = static_cast<int>(s.solve(t, x0, var));
    return st;
  }
  FOut out() const override
  {
    FOut o; o.status = st; const auto & c = s.variable();
    for(auto & v : c.x_list) o.v.x.push_back(v);
    for(auto & v : c.u_list) o.v.u.push_back(v);
    for(auto & v : c.lambda_list) o.v.lam.push_back(v);
    for(auto & v : c.s_list) o.v.s.push_back(v);
    for(auto & v : c.nu_list) o.v.nu.push_back(v);
    for(auto & t : s.traceDataList()) o.tr.push_back({t.iter, t.kkt_error, {t.duration_coeff, t.duration_backward, t.duration_forward, t.duration_update}});
    return o;
  }
  std::vector<double> dur() const override { const auto & d = s.computationDuration(); return {d.solve, d.setup, d.opt, d.coeff, d.backward, d.forward, d.update, d.gain_pre, d.gain_solve, d.gain_post, d.fraction}; }
  std::vector<FCoef> coeffs() const override
  {
    std::vector<FCoef> r;
    for(auto & c : s.coeffList()) { FCoef f; f.A = c.A; f.B = c.B; f.C = c.C; f.D = c.D; f.Lxx = c.Lxx; f.Luu = c.Luu; f.Lxu = c.Lxu; f.K = c.K; f.P = c.P; f.Lx = c.Lx; f.Lu = c.Lu; f.xb = c.x_bar; f.gb = c.g_bar; f.Lxb = c.Lx_bar; f.Lub = c.Lu_bar; f.k = c.k; f.s = c.s; r.push_back(f); }
    return r;
  }
  // every element of a list of matrices
  template<class L> static void elems(L & l, std::vector<double *> & e) { for(auto & v : l) for(int j = 0; j < v.size(); j++) e.push_back(v.data() + j); }
  template<class M> static void elem1(M & m, std::vector<double *> & e) { for(int j = 0; j < m.size(); j++) e.push_back(m.data() + j); }
  std::string containers(Rng & r, std::map<std::string, long> & cnt) const override
  {
    int N = r.in(0, 6); typename S::Variable v(N); v.print_level = 0;
    if(v.horizon_steps != N || (int)v.x_list.size() != N + 1 || (int)v.u_list.size() != N || (int)v.lambda_list.size() != N + 1 || (int)v.s_list.size() != N || (int)v.nu_list.size() != N) return "Variable(" + std::to_string(N) + ") has wrong sequence lengths";
    for(int i = 0; i <= N; i++) { v.x_list[i] = r.vec(NX); v.lambda_list[i] = r.vec(NX); }
    for(int i = 0; i < N; i++) { v.u_list[i] = r.vec(NU < 0 ? r.in(0, 3) : NU); int g = NG < 0 ? r.in(0, 3) : NG; v.s_list[i] = r.vec(g).cwiseAbs(); v.nu_list[i] = r.vec(g).cwiseAbs(); }
    double a = r.n(), b = r.n(), c = r.n(), d = std::abs(r.n()), f = std::abs(r.n());
    if(r.chance(0.7))
    {
      if(r.chance(0.3)) { if(NU && N && v.u_list[0].size()) v.u_list[0][0] = std::nan(""); v.x_list[N][0] = std::nan(""); } // reset has to clear what was there
      v.reset(a, b, c, d, f); auto all = [](const auto & l, double z) { for(auto & e : l) for(int j = 0; j < e.size(); j++) if(!(e[j] == z)) return false; return true; };
      if(!all(v.x_list, a) || !all(v.u_list, b) || !all(v.lambda_list, c) || !all(v.s_list, d) || !all(v.nu_list, f)) return "reset() did not set every element of a sequence"; cnt["resets"]++;
    }
    if(v.containsNaN()) return "finite variables reported as containing NaN";
    std::vector<double *> e; elems(v.x_list, e); elems(v.u_list, e); elems(v.lambda_list, e); elems(v.s_list, e); elems(v.nu_list, e);
    for(size_t j = 0; j < e.size(); j++) { double o = *e[j]; *e[j] = badValue(r); if(!v.containsNaN()) return "non-finite element " + std::to_string(j) + " of " + std::to_string(e.size()) + " of the variables (N=" + std::to_string(N) + ") not detected"; *e[j] = o; cnt["variable_elements"]++; }
    bool term = r.chance(0.3); int nu = NU < 0 ? r.in(0, 3) : NU, ng = NG < 0 ? r.in(0, 3) : NG;
    typename S::Coefficient k = term ? typename S::Coefficient(NX) : typename S::Coefficient(NX, nu, ng); k.print_level = 0;
    if(term) { k.Lx.setOnes(); k.Lxx.setOnes(); if(k.Lx.size() != NX || k.Lxx.rows() != NX || k.Lx_bar.size() != NX || k.s.size() != NX || k.P.rows() != NX || k.P.cols() != NX) return "terminal coefficient has wrong dimensions"; }
    else
    {
      auto dim = [](const auto & m, int r, int c) { return m.rows() == r && m.cols() == c; };
      if(!dim(k.A, NX, NX) || !dim(k.B, NX, nu) || !dim(k.C, ng, NX) || !dim(k.D, ng, nu) || !dim(k.Lx, NX, 1) || !dim(k.Lu, nu, 1) || !dim(k.Lxx, NX, NX) || !dim(k.Luu, nu, nu) || !dim(k.Lxu, NX, nu) || !dim(k.x_bar, NX, 1) || !dim(k.g_bar, ng, 1) || !dim(k.Lx_bar, NX, 1) || !dim(k.Lu_bar, nu, 1) || !dim(k.k, nu, 1) || !dim(k.K, nu, NX) || !dim(k.s, NX, 1) || !dim(k.P, NX, NX)) return "coefficient has wrong dimensions";
      k.A.setOnes(); k.B.setOnes(); k.C.setOnes(); k.D.setOnes(); k.Lx.setOnes(); k.Lu.setOnes(); k.Lxx.setOnes(); k.Luu.setOnes(); k.Lxu.setOnes(); k.x_bar.setOnes(); k.g_bar.setOnes(); k.Lx_bar.setOnes(); k.Lu_bar.setOnes(); k.k.setOnes(); k.K.setOnes(); k.s.setOnes(); k.P.setOnes();
    }
    if(k.containsNaN()) return std::string(term ? "terminal" : "stage") + " coefficient with finite values reported as containing NaN";
    e.clear(); elem1(k.A, e); elem1(k.B, e); elem1(k.C, e); elem1(k.D, e); elem1(k.Lx, e); elem1(k.Lu, e); elem1(k.Lxx, e); elem1(k.Luu, e); elem1(k.Lxu, e); elem1(k.x_bar, e); elem1(k.g_bar, e); elem1(k.Lx_bar, e); elem1(k.Lu_bar, e); elem1(k.k, e); elem1(k.K, e); elem1(k.s, e); elem1(k.P, e);
    if(term) { e.clear(); elem1(k.Lx, e); elem1(k.Lxx, e); elem1(k.Lx_bar, e); elem1(k.s, e); elem1(k.P, e); }
    for(size_t j = 0; j < e.size(); j++) { double o = *e[j]; *e[j] = badValue(r); if(!k.containsNaN()) return "non-finite element " + std::to_string(j) + " of " + std::to_string(e.size()) + " of a " + (term ? "terminal" : "stage") + " coefficient not detected"; *e[j] = o; cnt[term ? "terminal_elements" : "coefficient_elements"]++; }
    return "";
  }
  void dump(const std::string & path) const override { s.dumpTraceDataList(path); }
};
