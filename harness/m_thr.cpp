// C19: solver objects in several threads, interleaved in one thread, and nested inside each other's callbacks.
#include "jobs.h"
#include <thread>
#include <mutex>
static void c19(Ctx & x)
{
  Rng & r = x.rng; int n = r.in(2, 6); std::vector<JobFactory> f; std::vector<std::string> what; Opt op; op.dump = r.chance(0.2);
  std::shared_ptr<IDdp> sd; std::shared_ptr<IFmpc> sf; std::shared_ptr<CgP> sc; int same = r.chance(0.4) ? r.in(0, 4) : -1; long nshared = 0;
  for(int i = 0; i < n; i++)
  {
    int k = same >= 0 ? same : r.in(0, 4); bool sh = r.chance(0.4);
    if(sh && k == 0) { if(sd) nshared++; f.push_back(ddpJob(x, op, &sd)); } else if(sh && k == 1) { if(sf) nshared++; f.push_back(fmpcJob(x, op, &sf)); } else if(sh && k == 4) { if(sc) nshared++; f.push_back(cgJob(x, op, &sc)); }
    else f.push_back(anyJob(x, k, op));
    what.push_back(jobName(k)); x.count(std::string("jobs_") + jobName(k));
  }
  std::vector<std::vector<uint64_t>> ref; for(auto & g : f) { auto j = g(); Capture c; while(!j->done()) j->step(); c.stop(); ref.push_back(j->digests); }
  int mode = x.idx % 4; std::ostringstream d; for(auto & w : what) d << w << " "; d << (mode <= 1 ? "threads" : mode == 2 ? "interleaved" : "nested"); x.desc = d.str();
  std::vector<std::unique_ptr<Job>> js; for(auto & g : f) js.push_back(g()); uint64_t order = 0;
  Capture cap;
  if(mode <= 1)
  {
    std::atomic<int> go{0}, seq{0}; std::vector<std::vector<int>> stamps(n); std::vector<std::thread> th; std::vector<uint64_t> sd2; for(int i = 0; i < n; i++) sd2.push_back(r.next()); std::vector<std::string> err(n);
    for(int i = 0; i < n; i++) th.emplace_back([&, i] {
      Rng q(sd2[i]); int jit = q.in(0, 3); if(jit) tl_hook = [q, jit]() mutable { if(q.chance(0.02 * jit)) { if(q.chance(0.5)) std::this_thread::yield(); else usleep(q.in(1, 60)); } };
      go++; while(go < n) std::this_thread::yield();
      try { while(!js[i]->done()) { js[i]->step(); stamps[i].push_back(seq++); } } catch(const std::exception & e) { err[i] = e.what(); }
      tl_hook = nullptr; });
    for(auto & t : th) t.join();
    for(int i = 0; i < n; i++) { x.check(err[i].empty(), "thread-exception", "exception in thread: " + err[i]); order = hcomb(order, i); for(int s : stamps[i]) order = hcomb(order, s); }
    x.count("threads", n);
  }
  else if(mode == 2) { std::vector<int> left; for(int i = 0; i < n; i++) left.push_back(i); while(!left.empty()) { int p = r.in(0, left.size() - 1); js[left[p]]->step(); order = hcomb(order, left[p]); if(js[left[p]]->done()) left.erase(left.begin() + p); } x.count("interleaved"); }
  else
  {
    // job 0 outermost; other objects are used from within its callbacks
    int depth = 0; long nested = 0; std::function<void()> hook = [&] { if(depth > 0 || !r.chance(0.05)) return; int p = r.in(1, n - 1); if(js[p]->done()) return; depth++; js[p]->step(); depth--; nested++; order = hcomb(order, p); };
    tl_hook = hook; while(!js[0]->done()) js[0]->step(); tl_hook = nullptr; for(int i = 1; i < n; i++) while(!js[i]->done()) js[i]->step(); x.count("nested_solves", nested);
  }
  cap.stop();
  for(int i = 0; i < n; i++) for(size_t k = 0; k < ref[i].size(); k++) x.check(js[i]->digests[k] == ref[i][k], "interference", "solve " + std::to_string(k) + " of object " + std::to_string(i) + " (" + what[i] + ") differs from the same solve done alone");
  x.count("solves_compared", n); x.count("shared_problems", nshared); x.observed(order);
}
int main(int argc, char ** argv) { return runMain(argc, argv, {{"C19", 4000, 60000, c19, {"threads", "interleaved", "nested_solves", "shared_problems", "jobs_ddp", "jobs_fmpc", "jobs_boxqp", "jobs_gmres", "jobs_cgmres"}}}); }
