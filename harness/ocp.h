// Optimal-control problem generator (runtime dimensions) and type-erased access to the DDP / FMPC solvers.
#pragma once
#include "common.h"
#include <array>
#include <atomic>
#include <chrono>
#include <limits>

// ---------------------------------------------------------------------------------------------
// Problem data.  Everything is a table over the absolute step index k (time = tbase + k*dt).
// ---------------------------------------------------------------------------------------------
struct Term  // smooth scalar term  b*(sqrt(1+z^2)-1) + kap*cos(z+ph),  z = p.x + q.u
{
  double b = 0, kap = 0, ph = 0;
  Vec p, q;
  double z(const Vec & x, const Vec & u) const { double r = p.dot(x); if(q.size()) r += q.dot(u); return r; }
  double val(const Vec & x, const Vec & u) const { double s = z(x, u); return b * (std::sqrt(1 + s * s) - 1) + kap * std::cos(s + ph); }
  double d1(const Vec & x, const Vec & u) const { double s = z(x, u); return b * s / std::sqrt(1 + s * s) - kap * std::sin(s + ph); }
  double d2(const Vec & x, const Vec & u) const { double s = z(x, u); return b * std::pow(1 + s * s, -1.5) - kap * std::cos(s + ph); }
};

struct Stage
{
  int nu = 0, ng = 0;
  Mat A, B; Vec c;
  Vec gam, w, v; double phi = 0;           // x+ = A x + B u + c + gam*sin(w.x + v.u + phi)
  Mat Q, R, N; Vec q, r; double c0 = 0;    // running cost (DDP: as is; FMPC: times dt)
  std::vector<Term> terms;
  Mat C, D; Vec d; Vec eta; Vec ge; Vec gf; // g = C x + D u - d + eta*(sqrt(1+(ge.x+gf.u)^2)-1)
  Vec lo, up;
  // terminal data at this step
  Mat Qf; Vec qf; double cf = 0; std::vector<Term> tf;
};

struct Ocp
{
  int nx = 1;
  double dt = 0.1, tbase = 0;
  std::vector<Stage> st;

  int idx(double t) const
  {
    double k = std::round((t - tbase) / dt);
    if(!(k >= 0)) return 0;
    if(k >= (double)st.size()) return (int)st.size() - 1;
    return (int)k;
  }
  double time(int k) const { return tbase + k * dt; }

  Vec f(int k, const Vec & x, const Vec & u) const
  {
    tlHook();
    const Stage & s = st[k];
    Vec r = s.A * x + s.c;
    if(s.nu) r += s.B * u;
    if(s.gam.size()) { double z = s.w.dot(x) + s.phi; if(s.nu) z += s.v.dot(u); r += s.gam * std::sin(z); }
    return r;
  }
  void df(int k, const Vec & x, const Vec & u, Mat & A, Mat & B) const
  {
    const Stage & s = st[k];
    A = s.A; B = s.B;
    if(s.gam.size())
    {
      double z = s.w.dot(x) + s.phi; if(s.nu) z += s.v.dot(u);
      double c = std::cos(z);
      A += c * s.gam * s.w.transpose();
      if(s.nu) B += c * s.gam * s.v.transpose();
    }
  }
  double L(int k, const Vec & x, const Vec & u) const
  {
    tlHook();
    const Stage & s = st[k];
    double r = 0.5 * x.dot(s.Q * x) + s.q.dot(x) + s.c0;
    if(s.nu) r += 0.5 * u.dot(s.R * u) + x.dot(s.N * u) + s.r.dot(u);
    for(const auto & t : s.terms) r += t.val(x, u);
    return r;
  }
  void dL(int k, const Vec & x, const Vec & u, Vec & Lx, Vec & Lu, Mat & Lxx, Mat & Luu, Mat & Lxu) const
  {
    const Stage & s = st[k];
    Lx = s.Q * x + s.q; Lu = Vec::Zero(s.nu); Lxx = s.Q; Luu = s.R; Lxu = s.N;
    if(s.nu) { Lx += s.N * u; Lu = s.R * u + s.N.transpose() * x + s.r; }
    for(const auto & t : s.terms)
    {
      double a = t.d1(x, u), b = t.d2(x, u);
      Lx += a * t.p; Lxx += b * t.p * t.p.transpose();
      if(s.nu) { Lu += a * t.q; Luu += b * t.q * t.q.transpose(); Lxu += b * t.p * t.q.transpose(); }
    }
  }
  double phi(int k, const Vec & x) const
  {
    const Stage & s = st[k];
    double r = 0.5 * x.dot(s.Qf * x) + s.qf.dot(x) + s.cf;
    for(const auto & t : s.tf) r += t.val(x, Vec());
    return r;
  }
  void dphi(int k, const Vec & x, Vec & Lx, Mat & Lxx) const
  {
    const Stage & s = st[k];
    Lx = s.Qf * x + s.qf; Lxx = s.Qf;
    for(const auto & t : s.tf) { Lx += t.d1(x, Vec()) * t.p; Lxx += t.d2(x, Vec()) * t.p * t.p.transpose(); }
  }
  Vec g(int k, const Vec & x, const Vec & u) const
  {
    const Stage & s = st[k];
    Vec r = -s.d;
    if(s.ng == 0) return r;
    r += s.C * x;
    if(s.nu) r += s.D * u;
    if(s.eta.size()) { double z = s.ge.dot(x); if(s.nu) z += s.gf.dot(u); r += s.eta * (std::sqrt(1 + z * z) - 1); }
    return r;
  }
  void dg(int k, const Vec & x, const Vec & u, Mat & C, Mat & D) const
  {
    const Stage & s = st[k];
    C = s.C; D = s.D;
    if(s.ng && s.eta.size())
    {
      double z = s.ge.dot(x); if(s.nu) z += s.gf.dot(u);
      double a = z / std::sqrt(1 + z * z);
      C += a * s.eta * s.ge.transpose();
      if(s.nu) D += a * s.eta * s.gf.transpose();
    }
  }
  bool linear() const { for(const auto & s : st) if(s.gam.size() || s.terms.size() || s.tf.size() || s.eta.size()) return false; return true; }
  // rollout
  void rollout(int k0, const Vec & x0, const std::vector<Vec> & u, std::vector<Vec> & x, Vec & cost) const
  {
    int N = u.size();
    x.assign(1, x0); cost.resize(N + 1);
    for(int i = 0; i < N; i++) { cost[i] = L(k0 + i, x[i], u[i]); x.push_back(f(k0 + i, x[i], u[i])); }
    cost[N] = phi(k0 + N, x[N]);
  }
  double total(int k0, const Vec & x0, const std::vector<Vec> & u) const { std::vector<Vec> x; Vec c; rollout(k0, x0, u, x, c); return c.sum(); }
};

// ---------------------------------------------------------------------------------------------
// Recorder: observes (and optionally corrupts) every callback crossing the problem boundary.
// ---------------------------------------------------------------------------------------------
enum Cb { CbStateEq, CbCost, CbTermCost, CbDStateEq, CbDCost, CbDTerm, CbIneq, CbDIneq, CbLimits, CbInputDim, CbIneqDim, CbN };
inline const char * cbName(int c)
{
  static const char * n[] = {"stateEq", "runningCost", "terminalCost", "calcStateEqDeriv", "calcRunningCostDeriv", "calcTerminalCostDeriv", "ineqConst", "calcIneqConstDeriv", "inputLimits", "inputDim", "ineqDim"};
  return n[c];
}
struct Rec
{
  // observation window
  double t0 = 0; int k0 = 0, N = 0;
  bool active = false;
  long calls[CbN] = {0};
  long total = 0;             // value callbacks only (fault positions)
  std::string bad;            // first discipline violation
  std::set<int> stages;       // steps seen
  // fault injection: corrupt element `faultElem` of the output of the value callback number faultAt
  long faultAt = -1; double faultVal = 0; int faultElem = 0; int fired = -1; bool sticky = false;
  long throwAt = -1; // throw from value callback number throwAt
  double unit = 1, xunit = 1; // units of the cost and of the state (powers of two)
  bool mask = false; // the cost does not depend on components that are not finite
  template<class V> static Vec finite(const V & v) { Vec w = v; for(int i = 0; i < w.size(); i++) if(!std::isfinite(w[i])) w[i] = 0; return w; }
  bool noDim = false; // behave like a problem that does not override inputDim(t) / ineqDim(t)
  // time spent inside callbacks [ms], by kind; the first setupCalls[kind] calls are accounted as part of the setup
  bool timing = false; double spin = 0, spent[CbN] = {0}, spentSetup = 0; long timed[CbN] = {0}, setupCalls[CbN] = {0};
  void resetTiming() { for(int i = 0; i < CbN; i++) { spent[i] = 0; timed[i] = 0; setupCalls[i] = 0; } spentSetup = 0; }
  void flag(const std::string & s) { if(bad.empty()) bad = s; }
  void stage(int cb, double t, const Ocp & o, long usz)
  {
    calls[cb]++;
    if(!active) return;
    double kk = (t - t0) / o.dt; int k = (int)std::round(kk);
    double tol = 1e-9 * (1 + std::abs(t) + std::abs(t0)) / o.dt + 1e-9;
    if(!(std::abs(kk - k) <= tol)) flag(std::string(cbName(cb)) + " called off the time grid: t=" + ds(t) + " t0=" + ds(t0) + " dt=" + ds(o.dt));
    else if(k < 0 || k >= N) flag(std::string(cbName(cb)) + " called at step " + std::to_string(k) + " outside [0," + std::to_string(N) + ")");
    else { stages.insert(k); if(usz >= 0 && usz != o.st[std::min((size_t)(k0 + k), o.st.size() - 1)].nu) flag(std::string(cbName(cb)) + " called with input size " + std::to_string(usz) + " at step " + std::to_string(k)); }
  }
  void term(int cb, double t, const Ocp & o)
  {
    calls[cb]++;
    if(!active) return;
    double kk = (t - t0) / o.dt;
    if(!(std::abs(kk - N) <= 1e-9 * (1 + std::abs(t) + std::abs(t0)) / o.dt + 1e-9)) flag(std::string(cbName(cb)) + " called at t=" + ds(t) + " (step " + ds(kk) + ") instead of the end of the horizon " + std::to_string(N));
  }
  void outsz(const char * what, long r, long c, long er, long ec) { if(active && (r != er || c != ec)) flag(std::string(what) + " output has size " + std::to_string(r) + "x" + std::to_string(c) + " instead of " + std::to_string(er) + "x" + std::to_string(ec)); }
  bool hit(int cb)
  {
    long n = total++;
    if(throwAt >= 0 && n == throwAt) throw std::domain_error("injected");
    bool h = sticky ? (faultAt >= 0 && n >= faultAt) : n == faultAt;
    if(h) fired = cb;
    return h;
  }
  void corrupt(Vec & v) { if(v.size()) v[faultElem % v.size()] = faultVal; else fired = -1; }
  void corrupt(Mat & m) { if(m.size()) m.data()[faultElem % m.size()] = faultVal; else fired = -1; }
};

inline double badValue(Rng & r) { int k = r.in(0, 2); return k == 0 ? std::nan("") : k == 1 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity(); }
// Scope guard around a callback body: burns rec->spin microseconds and books the time spent.
struct Tm
{
  Rec * r; int cb; std::chrono::system_clock::time_point a;
  Tm(const std::shared_ptr<Rec> & rec, int c) : r(rec && rec->timing ? rec.get() : nullptr), cb(c) { if(r) { a = std::chrono::system_clock::now(); while(ms() < 1e-3 * r->spin) {} } }
  double ms() const { return 1e3 * std::chrono::duration<double>(std::chrono::system_clock::now() - a).count(); }
  ~Tm() { if(r) { double d = ms(); if(r->timed[cb]++ < r->setupCalls[cb]) r->spentSetup += d; else r->spent[cb] += d; } }
};

// ---------------------------------------------------------------------------------------------
// Type-erased solvers
// ---------------------------------------------------------------------------------------------
struct DdpCfg
{
  int print_level = 0; bool second = false, limits = false; int max_iter = 500, N = 10, reg_type = 1;
  double lam0 = 1e-4, dlam0 = 1, lamf = 1.6, lmin = 1e-6, lmax = 1e10, kthre = 1e-4, lthre = 1e-5; Vec alphas; double ratio = 0, cthre = 1e-7;
};
struct DdpTrace { int iter; double cost, lambda, dlambda, alpha, krel, act, exp, ratio; std::array<double, 3> dur; };
struct DdpOut { bool ok = false; std::vector<Vec> x, u; Vec cost; std::vector<DdpTrace> tr; };
inline bool sameOut(const DdpOut & a, const DdpOut & b, double tol, std::string & why);

struct IDdp
{
  std::shared_ptr<const Ocp> ocp; std::shared_ptr<Rec> rec;
  virtual ~IDdp() {}
  virtual void cfg(const DdpCfg &) = 0;
  virtual void limits(bool on) = 0;  // install the limits function of the problem
  virtual bool solve(double t, const Vec & x, const std::vector<Vec> & u) = 0;
  virtual DdpOut out() const = 0;
  virtual Vec defaultAlphas() const = 0;
  virtual void dump(const std::string & path) const = 0;
  virtual std::vector<double> dur() const = 0; // solve setup opt | derivative backward forward | Q reg gain
  virtual std::string containers(Rng &, std::map<std::string, long> &) const = 0; // "" or what is wrong with ControlData
  virtual std::unique_ptr<IDdp> share() const = 0; // another solver on the same problem object
  virtual bool solveOwn(double t, int j, const std::vector<Vec> * u) = 0; // arguments are references to the solver's own results: state j, and its inputs unless u is given
  virtual std::unique_ptr<IDdp> clone() const = 0; // copy-constructed solver object
  virtual void assign(const IDdp & o) = 0;         // copy assignment from a solver of the same type
};
struct FmpcCfg
{
  int print_level = 0, N = 10, max_iter = 10; double thre = 1e-4; bool check_nan = true, init = false, barrier = true, llt = false, ls = false, mult = false;
};
struct FVar { std::vector<Vec> x, u, lam, s, nu; };
struct FTrace { int iter; double kkt; std::array<double, 4> dur; };
struct FOut { int status = 0; FVar v; std::vector<FTrace> tr; };
struct FCoef { Mat A, B, C, D, Lxx, Luu, Lxu, K, P; Vec Lx, Lu, xb, gb, Lxb, Lub, k, s; };
enum { FUninit = 0, FSucc = 1, FErrF = 2, FErrB = 3, FErrU = 4, FMax = 5, FCont = 6 };
struct IFmpc
{
  std::shared_ptr<const Ocp> ocp; std::shared_ptr<Rec> rec;
  virtual ~IFmpc() {}
  virtual void cfg(const FmpcCfg &) = 0;
  virtual int solve(double t, const Vec & x, const FVar & v) = 0;
  virtual FOut out() const = 0;
  virtual std::vector<double> dur() const = 0; // solve setup opt | coeff backward forward update | gain_pre gain_solve gain_post fraction
  virtual std::vector<FCoef> coeffs() const = 0;
  virtual std::string containers(Rng &, std::map<std::string, long> &) const = 0; // "" or what is wrong with Variable / Coefficient
  virtual void dump(const std::string & path) const = 0;
  virtual std::unique_ptr<IFmpc> share() const = 0;
  virtual int solveOwn(double t, int j, const FVar * v) = 0; // arguments are references to the solver's own state j, and its variable unless v is given
  virtual std::unique_ptr<IFmpc> clone() const = 0;
  virtual void assign(const IFmpc & o) = 0;
};
// nu / ng = -1 means Eigen::Dynamic.  Returns null if the instantiation is not available.
// One translation unit per instantiation (one_ddp.cpp / one_fmpc.cpp compiled with -DNX_= -DNU_= -DNG_=).
template<int NX, int NU> std::unique_ptr<IDdp> mkDdp(std::shared_ptr<const Ocp> o, std::shared_ptr<Rec> r);
template<int NX, int NU, int NG> std::unique_ptr<IFmpc> mkFmpc(std::shared_ptr<const Ocp> o, std::shared_ptr<Rec> r);
#ifndef ONE_TU
inline std::unique_ptr<IDdp> makeDdp(int nx, int nu, std::shared_ptr<const Ocp> o, std::shared_ptr<Rec> r)
{
#define D_(a, b) if(nx == a && nu == b) return mkDdp<a, b>(o, r);
#ifdef KINDS_SMALL
  D_(2, 1) D_(3, -1)
#else
  D_(1, 1) D_(2, 1) D_(3, 2) D_(4, 3) D_(3, -1) D_(2, -1)
#endif
#undef D_
  throw std::logic_error("harness: no DDP instantiation");
}
inline std::unique_ptr<IFmpc> makeFmpc(int nx, int nu, int ng, std::shared_ptr<const Ocp> o, std::shared_ptr<Rec> r)
{
#define F_(a, b, c) if(nx == a && nu == b && ng == c) return mkFmpc<a, b, c>(o, r);
#ifdef KINDS_SMALL
  F_(2, 1, 2) F_(3, -1, -1)
#else
  F_(2, 1, 2) F_(3, 2, 3) F_(2, 1, -1) F_(2, -1, 2) F_(3, -1, -1) F_(2, -1, -1)
#endif
#undef F_
  throw std::logic_error("harness: no FMPC instantiation");
}
#endif
struct Kind { int nx, nu, ng; };
#ifdef KINDS_SMALL
inline const std::vector<Kind> & ddpKinds() { static std::vector<Kind> k = {{2, 1, 0}, {3, -1, 0}}; return k; }
inline const std::vector<Kind> & fmpcKinds() { static std::vector<Kind> k = {{2, 1, 2}, {3, -1, -1}}; return k; }
#else
inline const std::vector<Kind> & ddpKinds() { static std::vector<Kind> k = {{1, 1, 0}, {2, 1, 0}, {3, 2, 0}, {4, 3, 0}, {3, -1, 0}, {2, -1, 0}}; return k; }
inline const std::vector<Kind> & fmpcKinds() { static std::vector<Kind> k = {{2, 1, 2}, {3, 2, 3}, {2, 1, -1}, {2, -1, 2}, {3, -1, -1}, {2, -1, -1}}; return k; }
#endif

// ---------------------------------------------------------------------------------------------
// Generator
// ---------------------------------------------------------------------------------------------
struct Gen
{
  int nx = 2, nu = 1, ng = 0;     // -1: random per-step dimension (incl. zero)
  int maxnu = 3, maxng = 4;       // for dynamic ones
  int N = 10, extra = 0;          // table covers k = 0..N+extra
  double dt = 0.1, tbase = 0;
  bool ltv = true, cross = true, offset = true;
  double nonlin = 0;              // strength of sin dynamics
  double convex = 0;              // strength of convex smooth terms
  double nonconvex = 0;           // strength of cos terms
  double psd = 0;                 // shift of R eigenvalues (min curvature)
  bool ineqNonlin = false;
  bool tight = true;              // inequalities likely active
  bool bounded = true;            // spectral radius about <= 1
  bool zeroR = false;             // allow R with zero eigenvalues (still joint psd)
  double zeroDimProb = 0.2;
};
inline Stage genStage(Rng & r, const Gen & g, int nu, int ng)
{
  Stage s; s.nu = nu; s.ng = ng; int nx = g.nx;
  double asc = r.uni(0.2, 1.0);
  s.A = Mat::Identity(nx, nx) * r.uni(0.3, 1.0) + r.mat(nx, nx, asc * 0.3);
  if(g.bounded) { double nrm = s.A.norm(); double lim = 1.1 * std::sqrt((double)nx); if(nrm > lim) s.A *= lim / nrm; }
  if(g.N > 15) { double nrm = s.A.operatorNorm(); if(nrm > 0.97) s.A *= 0.97 / nrm; }
  s.B = r.mat(nx, nu, r.logu(0.1, 1.5));
  s.c = g.offset ? Vec(r.vec(nx, 0.3)) : Vec(Vec::Zero(nx));
  Mat M = r.mat(nx + nu, nx + nu, r.logu(0.2, 1.5));
  Mat J = M * M.transpose() / (nx + nu);
  if(!g.cross) { J.topRightCorner(nx, nu).setZero(); J.bottomLeftCorner(nu, nx).setZero(); }
  if(r.chance(0.2)) { // sparse state weight
    int j = r.in(0, nx - 1); J.row(j).setZero(); J.col(j).setZero();
  }
  s.Q = J.topLeftCorner(nx, nx); s.N = J.topRightCorner(nx, nu);
  s.R = J.bottomRightCorner(nu, nu) + (g.psd + r.logu(0.02, 1.0)) * Mat::Identity(nu, nu);
  s.q = g.offset ? Vec(r.vec(nx, 0.7)) : Vec(Vec::Zero(nx));
  s.r = g.offset ? Vec(r.vec(nu, 0.7)) : Vec(Vec::Zero(nu));
  s.c0 = g.offset ? r.n() : 0;
  if(g.nonlin > 0) { s.gam = r.vec(nx, g.nonlin); s.w = r.vec(nx, 0.7); s.v = r.vec(nu, 0.7); s.phi = r.uni(-3, 3); }
  if(g.convex > 0) { Term t; t.b = g.convex * r.logu(0.3, 3); t.p = r.vec(nx); t.q = r.vec(nu); s.terms.push_back(t); }
  if(g.nonconvex > 0) { Term t; t.kap = g.nonconvex * r.logu(0.3, 3); t.ph = r.uni(-3, 3); t.p = r.vec(nx); t.q = r.vec(nu); s.terms.push_back(t); }
  Mat Mf = r.mat(nx, nx, r.logu(0.2, 2));
  s.Qf = Mf * Mf.transpose() / nx; s.qf = g.offset ? Vec(r.vec(nx, 0.7)) : Vec(Vec::Zero(nx)); s.cf = g.offset ? r.n() : 0;
  if(g.convex > 0 && r.chance(0.5)) { Term t; t.b = g.convex; t.p = r.vec(nx); s.tf.push_back(t); }
  if(g.nonconvex > 0 && r.chance(0.5)) { Term t; t.kap = g.nonconvex; t.ph = r.uni(-3, 3); t.p = r.vec(nx); s.tf.push_back(t); }
  s.C = Mat::Zero(ng, nx); s.D = Mat::Zero(ng, nu); s.d = Vec::Zero(ng);
  return s;
}
// Builds a problem.  Inequalities are strictly feasible along a nominal trajectory from x0 (returned in xn, un),
// with margins in [0.05,0.5] (tight) or larger.
inline std::shared_ptr<Ocp> genOcp(Rng & r, const Gen & g, const Vec & x0, std::vector<Vec> * unOut = nullptr)
{
  auto o = std::make_shared<Ocp>();
  o->nx = g.nx; o->dt = g.dt; o->tbase = g.tbase;
  int K = g.N + g.extra + 1;
  std::vector<Vec> un;
  Vec x = x0;
  int nuC = g.nu, ngC = g.ng; Stage base; bool haveBase = false;
  for(int k = 0; k < K; k++)
  {
    int nu = g.nu, ng = g.ng;
    if(nu < 0) nu = r.chance(g.zeroDimProb) ? 0 : r.in(1, g.maxnu);
    if(ng < 0) ng = r.chance(g.zeroDimProb) ? 0 : r.in(1, g.maxng);
    Stage s;
    if(!g.ltv && haveBase && nu == base.nu && ng == base.ng) s = base;
    else { s = genStage(r, g, nu, ng); if(!haveBase) { base = s; haveBase = true; } }
    Vec u = r.vec(nu, 0.5);
    // inequality
    if(ng)
    {
      s.C = r.mat(ng, g.nx); s.D = r.mat(ng, nu);
      for(int j = 0; j < ng; j++)
      {
        int mode = r.in(0, 3);
        if(mode == 0) s.C.row(j).setZero();        // pure input constraint
        else if(mode == 1 && nu) s.D.row(j).setZero(); // pure state constraint
        if(s.C.row(j).norm() + s.D.row(j).norm() < 0.1) s.C(j, 0) = 1;
      }
      if(g.ineqNonlin && r.chance(0.7)) { s.eta = r.vec(ng).cwiseAbs() * 0.3; s.ge = r.vec(g.nx, 0.7); s.gf = r.vec(nu, 0.7); }
      s.d = Vec::Zero(ng);
      o->st.push_back(s);
      Vec gv = o->g(k, x, u);
      o->st.pop_back();
      for(int j = 0; j < ng; j++) s.d[j] = gv[j] + (g.tight ? r.uni(0.05, 0.6) : r.uni(0.5, 5));
      // pure state constraints at k=0 act on the fixed initial state: strictly feasible by construction
    }
    // box limits
    s.lo = Vec(nu); s.up = Vec(nu);
    for(int j = 0; j < nu; j++)
    {
      double a = r.uni(-1, 1), w = r.uni(0.05, 1.5);
      s.lo[j] = a - w; s.up[j] = a + w;
      int m = r.in(0, 11);
      if(m == 0) s.lo[j] = -std::numeric_limits<double>::infinity();
      if(m == 1) s.up[j] = std::numeric_limits<double>::infinity();
      if(m == 2) s.lo[j] = s.up[j] = a;
      if(m == 3) { s.lo[j] = -100; s.up[j] = 100; }
    }
    o->st.push_back(s);
    un.push_back(u);
    x = o->f(k, x, u);
    if(x.norm() > 5) x *= 5 / x.norm(); // only for the nominal: keep margins moderate (feasibility then checked by caller)
  }
  (void)nuC; (void)ngC;
  if(unOut) *unOut = un;
  return o;
}
// Same problem embedded in fixed dimension nuF: steps with fewer inputs get dummy inputs with pure quadratic cost.
inline std::shared_ptr<Ocp> padInputs(const Ocp & o, int nuF)
{
  auto p = std::make_shared<Ocp>(o);
  for(auto & s : p->st)
  {
    int n = s.nu; if(n == nuF) continue;
    int e = nuF - n;
    auto padc = [&](Mat & m) { Mat t = Mat::Zero(m.rows(), nuF); t.leftCols(n) = m; m = t; };
    padc(s.B); padc(s.N); padc(s.D);
    Mat R = Mat::Identity(nuF, nuF); R.topLeftCorner(n, n) = s.R; s.R = R;
    auto padv = [&](Vec & v) { Vec t = Vec::Zero(nuF); t.head(v.size()) = v; v = t; };
    padv(s.r); if(s.gam.size()) padv(s.v);
    for(auto & t : s.terms) padv(t.q);
    if(s.gf.size() || s.eta.size()) padv(s.gf);
    Vec lo = Vec::Constant(nuF, -1), up = Vec::Constant(nuF, 1); lo.head(n) = s.lo; up.head(n) = s.up; s.lo = lo; s.up = up;
    s.nu = nuF; (void)e;
  }
  return p;
}
// Pad inequalities with trivially satisfied rows (0*x <= big)
inline std::shared_ptr<Ocp> padIneq(const Ocp & o, int ngF, double slack)
{
  auto p = std::make_shared<Ocp>(o);
  for(auto & s : p->st)
  {
    int n = s.ng; if(n == ngF) continue;
    Mat C = Mat::Zero(ngF, o.nx), D = Mat::Zero(ngF, s.nu); Vec d = Vec::Constant(ngF, slack);
    C.topRows(n) = s.C; D.topRows(n) = s.D; d.head(n) = s.d;
    if(s.eta.size()) { Vec e = Vec::Zero(ngF); e.head(n) = s.eta; s.eta = e; }
    s.C = C; s.D = D; s.d = d; s.ng = ngF;
  }
  return p;
}
inline std::vector<Vec> randU(Rng & r, const Ocp & o, int k0, int N, double sc)
{
  std::vector<Vec> u; for(int i = 0; i < N; i++) u.push_back(r.vec(o.st[k0 + i].nu, sc)); return u;
}

// Dense condensed quadratic model of the total cost in the stacked inputs (linear problems; `w` weights running costs)
struct Condensed { Mat H; Vec g; double c = 0; Vec lo, up; std::vector<int> off; int n = 0; Mat Cg; Vec dg; };
inline Condensed condense(const Ocp & o, int k0, int N, const Vec & x0, double w, bool ineq = false)
{
  Condensed q; q.off.resize(N + 1);
  for(int i = 0; i < N; i++) { q.off[i] = q.n; q.n += o.st[k0 + i].nu; } q.off[N] = q.n;
  int n = q.n, nx = o.nx;
  q.H = Mat::Zero(n, n); q.g = Vec::Zero(n);
  Mat S = Mat::Zero(nx, n); Vec s0 = x0;   // x_i = S U + s0
  int m = 0; if(ineq) for(int i = 0; i < N; i++) m += o.st[k0 + i].ng;
  q.Cg = Mat::Zero(m, n); q.dg = Vec::Zero(m); int row = 0;
  q.lo = Vec(n); q.up = Vec(n);
  for(int i = 0; i < N; i++)
  {
    const Stage & s = o.st[k0 + i];
    Mat E = Mat::Zero(s.nu, n); for(int j = 0; j < s.nu; j++) E(j, q.off[i] + j) = 1;
    q.H += w * (S.transpose() * s.Q * S + E.transpose() * s.R * E + S.transpose() * s.N * E + E.transpose() * s.N.transpose() * S);
    q.g += w * (S.transpose() * (s.Q * s0 + s.q) + E.transpose() * (s.N.transpose() * s0 + s.r));
    q.c += w * (0.5 * s0.dot(s.Q * s0) + s.q.dot(s0) + s.c0);
    if(ineq && s.ng) { q.Cg.middleRows(row, s.ng) = s.C * S + s.D * E; q.dg.segment(row, s.ng) = s.d - s.C * s0; row += s.ng; }
    for(int j = 0; j < s.nu; j++) { q.lo[q.off[i] + j] = s.lo[j]; q.up[q.off[i] + j] = s.up[j]; }
    Mat S2 = s.A * S + s.B * E; s0 = (s.A * s0 + s.c).eval(); S = S2;
  }
  const Stage & s = o.st[k0 + N];
  q.H += S.transpose() * s.Qf * S; q.g += S.transpose() * (s.Qf * s0 + s.qf); q.c += 0.5 * s0.dot(s.Qf * s0) + s.qf.dot(s0) + s.cf;
  q.H = (0.5 * (q.H + q.H.transpose())).eval();
  return q;
}
inline Vec stack(const std::vector<Vec> & u) { int n = 0; for(auto & v : u) n += v.size(); Vec r(n); int k = 0; for(auto & v : u) { r.segment(k, v.size()) = v; k += v.size(); } return r; }

// Independent box-QP reference: projected coordinate descent polished by active-set Newton (dense, small)
inline Vec refBoxQP(const Mat & H, const Vec & g, const Vec & lo, const Vec & up)
{
  int n = g.size(); Vec x(n);
  for(int i = 0; i < n; i++) x[i] = std::min(std::max(0.0, lo[i]), up[i]);
  for(int it = 0; it < 2000; it++)
  {
    double ch = 0;
    for(int i = 0; i < n; i++)
    {
      double gi = g[i] + H.row(i).dot(x);
      double xn = std::min(std::max(x[i] - gi / H(i, i), lo[i]), up[i]);
      ch = std::max(ch, std::abs(xn - x[i]) / (1 + std::abs(x[i]))); x[i] = xn;
    }
    if(ch < 1e-14) break;
    if(it % 20 == 19)
    {
      // polish: solve on the current free set if it stays feasible and decreases
      std::vector<int> f; Vec gr = g + H * x;
      for(int i = 0; i < n; i++) if(!((x[i] <= lo[i] && gr[i] > 0) || (x[i] >= up[i] && gr[i] < 0))) f.push_back(i);
      if(f.empty()) continue;
      Mat Hf(f.size(), f.size()); Vec gf(f.size());
      for(size_t a = 0; a < f.size(); a++) { gf[a] = gr[f[a]]; for(size_t b = 0; b < f.size(); b++) Hf(a, b) = H(f[a], f[b]); }
      Vec d = -Hf.ldlt().solve(gf); Vec y = x;
      for(size_t a = 0; a < f.size(); a++) y[f[a]] = std::min(std::max(x[f[a]] + d[a], lo[f[a]]), up[f[a]]);
      if(g.dot(y) + 0.5 * y.dot(H * y) < g.dot(x) + 0.5 * x.dot(H * x)) x = y;
    }
  }
  return x;
}
inline double boxKkt(const Mat & H, const Vec & g, const Vec & lo, const Vec & up, const Vec & x)
{
  Vec gr = g + H * x; double e = 0;
  for(int i = 0; i < x.size(); i++) e = std::max(e, std::abs(x[i] - std::min(std::max(x[i] - gr[i], lo[i]), up[i])));
  return e;
}
inline bool allFinite(const std::vector<Vec> & v) { for(auto & a : v) if(!a.allFinite()) return false; return true; }
inline double relDiff(const std::vector<Vec> & a, const std::vector<Vec> & b)
{
  if(a.size() != b.size()) return 1e300;
  double d = 0;
  for(size_t i = 0; i < a.size(); i++)
  {
    if(a[i].size() != b[i].size()) return 1e300;
    for(int j = 0; j < a[i].size(); j++)
    {
      double p = a[i][j], q = b[i][j];
      if(p == q || (std::isnan(p) && std::isnan(q))) continue;
      double e = std::abs(p - q) / (1 + std::max(std::abs(p), std::abs(q)));
      if(std::isnan(e)) e = 1e300;
      d = std::max(d, e);
    }
  }
  return d;
}
inline double relDiff(const Vec & a, const Vec & b) { return relDiff(std::vector<Vec>{a}, std::vector<Vec>{b}); }
inline bool closeD(double a, double b, double tol) { if(a == b || (std::isnan(a) && std::isnan(b))) return true; return std::abs(a - b) <= tol * (1 + std::max(std::abs(a), std::abs(b))); }

inline bool sameOut(const DdpOut & a, const DdpOut & b, double tol, std::string & why)
{
  if(a.ok != b.ok) { why = "return value " + std::to_string(a.ok) + " vs " + std::to_string(b.ok); return false; }
  if(a.tr.size() != b.tr.size()) { why = "trace length " + std::to_string(a.tr.size()) + " vs " + std::to_string(b.tr.size()); return false; }
  double e = relDiff(a.x, b.x); if(!(e <= tol)) { why = "state sequence differs by " + ds(e); return false; }
  e = relDiff(a.u, b.u); if(!(e <= tol)) { why = "input sequence differs by " + ds(e); return false; }
  e = relDiff(a.cost, b.cost); if(!(e <= tol)) { why = "cost sequence differs by " + ds(e); return false; }
  for(size_t i = 0; i < a.tr.size(); i++)
  {
    const auto & p = a.tr[i]; const auto & q = b.tr[i];
    if(p.iter != q.iter || !closeD(p.cost, q.cost, tol) || !closeD(p.lambda, q.lambda, tol) || !closeD(p.dlambda, q.dlambda, tol) || !closeD(p.alpha, q.alpha, tol) || !closeD(p.krel, q.krel, tol) || !closeD(p.act, q.act, tol) || !closeD(p.exp, q.exp, tol))
    { why = "trace entry " + std::to_string(i) + " differs"; return false; }
  }
  return true;
}
inline bool sameOut(const FOut & a, const FOut & b, double tol, std::string & why)
{
  if(a.status != b.status) { why = "status " + std::to_string(a.status) + " vs " + std::to_string(b.status); return false; }
  if(a.tr.size() != b.tr.size()) { why = "trace length " + std::to_string(a.tr.size()) + " vs " + std::to_string(b.tr.size()); return false; }
  double e;
  e = relDiff(a.v.x, b.v.x); if(!(e <= tol)) { why = "x differs by " + ds(e); return false; }
  e = relDiff(a.v.u, b.v.u); if(!(e <= tol)) { why = "u differs by " + ds(e); return false; }
  e = relDiff(a.v.lam, b.v.lam); if(!(e <= tol)) { why = "lambda differs by " + ds(e); return false; }
  e = relDiff(a.v.s, b.v.s); if(!(e <= tol)) { why = "s differs by " + ds(e); return false; }
  e = relDiff(a.v.nu, b.v.nu); if(!(e <= tol)) { why = "nu differs by " + ds(e); return false; }
  for(size_t i = 0; i < a.tr.size(); i++) if(a.tr[i].iter != b.tr[i].iter || !closeD(a.tr[i].kkt, b.tr[i].kkt, tol)) { why = "trace entry " + std::to_string(i) + " differs"; return false; }
  return true;
}
