// Shared driver for all monitors: seeded case loop, verdicts, coverage counters, JSON report.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <unordered_map>
#include <vector>

#include <Eigen/Dense>

using Vec = Eigen::VectorXd;
using Mat = Eigen::MatrixXd;

// Hook run inside user callbacks (scheduling jitter, nested solves).
inline thread_local std::function<void()> tl_hook;
inline void tlHook() { if(tl_hook) tl_hook(); }

struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
  static uint64_t mix(uint64_t z)
  {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  int in(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }
  bool chance(double p) { return u() < p; }
  double n() { double a = u() + 1e-18, b = u(); return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b); }
  double logu(double a, double b) { return std::exp(uni(std::log(a), std::log(b))); }
  Vec vec(int k, double sc = 1) { Vec v(k); for(int i = 0; i < k; i++) v[i] = sc * n(); return v; }
  Mat mat(int r, int c, double sc = 1) { Mat m(r, c); for(int j = 0; j < c; j++) for(int i = 0; i < r; i++) m(i, j) = sc * n(); return m; }
  template<class T> const T & pick(const std::vector<T> & v) { return v[next() % v.size()]; }
};

inline uint64_t hcomb(uint64_t a, uint64_t b) { return Rng::mix(a ^ (b * 0x9ddfea08eb382d69ULL + 0x1234567)); }
inline uint64_t hstr(const std::string & s) { uint64_t h = 1469598103934665603ULL; for(char c : s) { h ^= (unsigned char)c; h *= 1099511628211ULL; } return h; }
template<class D> inline uint64_t hmat(const Eigen::MatrixBase<D> & m_)
{
  Eigen::MatrixXd m = m_;
  uint64_t h = 77 + m.rows() * 1000 + m.cols();
  for(int i = 0; i < m.size(); i++) { double d = m.data()[i]; uint64_t b; std::memcpy(&b, &d, 8); h = hcomb(h, b); }
  return h;
}
template<class D> inline std::string vs(const Eigen::MatrixBase<D> & m_)
{
  Eigen::MatrixXd m = m_;
  std::ostringstream o; o.precision(9); o << "[";
  for(int i = 0; i < m.size() && i < 24; i++) o << (i ? "," : "") << m.data()[i];
  if(m.size() > 24) o << ",...";
  o << "]"; return o.str();
}
inline std::string ds(double d) { std::ostringstream o; o.precision(17); o << d; return o.str(); }

struct Violation { int caseIdx; std::string key, msg; };
struct Stop {};  // thrown by fail() to leave the case

struct Report
{
  long evaluations = 0, nontrivial = 0;
  std::set<uint64_t> distinct;
  std::map<std::string, long> counters;
  std::map<std::string, double> maxima;
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::map<int, uint64_t> digs;
};

struct Ctx
{
  Rng rng{1};
  int idx = 0;
  bool thorough = false;
  bool verbose = false;
  Report & r;
  bool nt = false;
  uint64_t sig = 0, dig = 0; // dig: digest of every observable result (0: none)
  std::string desc;
  Ctx(Report & r_) : r(r_) {}
  void count(const std::string & k, long d = 1) { r.counters[k] += d; }
  void maxi(const std::string & k, double v) { if(std::isnan(v)) return; auto it = r.maxima.find(k); if(it == r.maxima.end() || it->second < v) r.maxima[k] = v; }
  // Marks the case as non-trivial with a signature of what was observed.
  void observed(uint64_t signature) { nt = true; sig = hcomb(sig, signature); }
  [[noreturn]] void fail(const std::string & key, const std::string & msg)
  {
    r.violations.push_back({idx, key, msg + " | case: " + desc});
    throw Stop();
  }
  void check(bool ok, const std::string & key, const std::string & msg) { if(!ok) fail(key, msg); }
  template<class F> void checkf(bool ok, const std::string & key, F && f) { if(!ok) fail(key, f()); }
};

using CaseFn = std::function<void(Ctx &)>;
struct Prop { std::string id; int quick, thorough; CaseFn fn; std::vector<std::string> need; };

inline std::string jesc(const std::string & s)
{
  std::string o;
  for(unsigned char c : s)
  {
    if(c == '"' || c == '\\') { o += '\\'; o += c; }
    else if(c == '\n') o += "\\n";
    else if(c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline int runMain(int argc, char ** argv, const std::vector<Prop> & props)
{
  std::string prop, tier = "quick", out, status;
  uint64_t seed = 1; int shard = 0, nsh = 1, only = -1, from = 0; double scale = 1; bool verbose = false, keep = false; int caseSec = 100;
  for(int i = 1; i < argc; i++)
  {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(argv[++i]); };
    if(a == "--prop") prop = nx();
    else if(a == "--seed") seed = std::stoull(nx());
    else if(a == "--tier") tier = nx();
    else if(a == "--out") out = nx();
    else if(a == "--status") status = nx();
    else if(a == "--shard") shard = std::stoi(nx());
    else if(a == "--nshards") nsh = std::stoi(nx());
    else if(a == "--only") only = std::stoi(nx());
    else if(a == "--from") from = std::stoi(nx());
    else if(a == "--scale") scale = std::stod(nx());
    else if(a == "--case-seconds") caseSec = std::stoi(nx());
    else if(a == "-v") verbose = true;
    else if(a == "--keep-going") keep = true;
  }
  Report rep;
  bool found = false;
  std::vector<std::string> need;
  for(const auto & p : props)
  {
    if(p.id != prop) continue;
    found = true;
    need = p.need;
    int n = std::max(1, (int)((tier == "thorough" ? p.thorough : p.quick) * scale));
    for(int c = from; c < n || only >= 0; c++)
    {
      if(only >= 0) c = only;
      else if(c % nsh != shard) continue;
      if(!status.empty()) { std::ofstream f(status); f << c << "\n"; }
      alarm(caseSec);
      Ctx x(rep);
      x.rng = Rng(hcomb(hcomb(seed, hstr(prop)), c));
      x.idx = c; x.thorough = tier == "thorough"; x.verbose = verbose;
      try { p.fn(x); }
      catch(const Stop &) {}
      catch(const std::exception & e) { rep.violations.push_back({c, "unexpected-exception", std::string("unexpected exception: ") + e.what() + " | case: " + x.desc}); }
      alarm(0);
      rep.evaluations++;
      if(x.dig) rep.digs[c] = x.dig;
      if(x.nt) { rep.nontrivial++; rep.distinct.insert(x.sig); }
      if(rep.samples.size() < 2 && x.nt && !x.desc.empty()) rep.samples.push_back("#" + std::to_string(c) + ": " + x.desc);
      if(only >= 0 || (rep.violations.size() >= 5 && !keep)) break;
    }
  }
  if(!found) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
  std::ostringstream o;
  o << "{\"evaluations\":" << rep.evaluations << ",\"nontrivial\":" << rep.nontrivial << ",\"distinct\":[";
  { bool f = true; for(auto h : rep.distinct) { o << (f ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; f = false; } }
  o << "],\"digests\":{";
  { bool f = true; for(auto & k : rep.digs) { o << (f ? "" : ",") << "\"" << k.first << "\":\"" << std::hex << k.second << std::dec << "\""; f = false; } }
  o << "},\"counters\":{";
  { bool f = true; for(auto & k : rep.counters) { o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << k.second; f = false; } }
  o << "},\"maxima\":{";
  { bool f = true; for(auto & k : rep.maxima) { double v = k.second; if(!std::isfinite(v)) v = 1e308; char b[64]; snprintf(b, 64, "%.6g", v); o << (f ? "" : ",") << "\"" << jesc(k.first) << "\":" << b; f = false; } }
  o << "},\"need\":[";
  { bool f = true; for(auto & k : need) { o << (f ? "" : ",") << "\"" << jesc(k) << "\""; f = false; } }
  o << "],\"samples\":[";
  { bool f = true; for(auto & k : rep.samples) { o << (f ? "" : ",") << "\"" << jesc(k) << "\""; f = false; } }
  o << "],\"violations\":[";
  { bool f = true; for(auto & v : rep.violations) { o << (f ? "" : ",") << "{\"case\":" << v.caseIdx << ",\"key\":\"" << jesc(v.key) << "\",\"msg\":\"" << jesc(v.msg) << "\"}"; f = false; } }
  o << "]}\n";
  if(out.empty()) std::cerr << o.str(); else { std::ofstream f(out); f << o.str(); }
  return 0;
}
