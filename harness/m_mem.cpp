// C20: workloads for AddressSanitizer / UndefinedBehaviorSanitizer / valgrind, with result digests for the poisoned-memory comparison.
#include "jobs.h"
static void c20(Ctx & x)
{
  Rng & r = x.rng; int k = r.pick(std::vector<int>{0, 0, 0, 1, 1, 1, 2, 3, 4}); Opt op; op.faults = r.chance(0.4); op.verbose = r.chance(0.15); op.dump = r.chance(0.1);
  JobFactory f = anyJob(x, k, op); auto j = f(); Capture cap;
  try { while(!j->done()) j->step(); } catch(...) { cap.stop(); throw; }
  cap.stop(); Dig d; for(auto h : j->digests) d.h = hcomb(d.h, h);
  x.dig = d.h; x.count(std::string("jobs_") + jobName(k)); x.count("solves", j->digests.size());  if(op.verbose) x.count("verbose"); if(op.dump) x.count("dumped"); x.observed(d.h);
}
int main(int argc, char ** argv) { return runMain(argc, argv, {{"C20", 10000, 200000, c20, {}}}); }
