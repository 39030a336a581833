#pragma once
// CgmresSolver::run() writes to fixed paths /tmp/cgmres_*.dat.  Opening one of these in this process (by the code under
// test or by the monitor) reaches an anonymous file of the process instead, so that concurrent processes do not mix.
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
static std::string redirected(const char * path)
{
  if(!path || strncmp(path, "/tmp/cgmres_", 12)) return path ? path : "";
  static std::mutex m; static std::map<std::string, int> fds; static pid_t owner = 0; std::lock_guard<std::mutex> l(m);
  if(owner != getpid()) { for(auto & f : fds) close(f.second); fds.clear(); owner = getpid(); }
  auto it = fds.find(path); if(it == fds.end()) it = fds.emplace(path, memfd_create("cgmres", 0)).first;
  return "/proc/self/fd/" + std::to_string(it->second);
}
extern "C" FILE * fopen(const char * path, const char * mode)
{
  static auto real = reinterpret_cast<FILE * (*)(const char *, const char *)>(dlsym(RTLD_NEXT, "fopen"));
  if(!path || strncmp(path, "/tmp/cgmres_", 12)) return real(path, mode);
  return real(redirected(path).c_str(), mode);
}
