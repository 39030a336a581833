// Captures everything written to standard output (C++ streams and file descriptor 1).
#pragma once
#include "common.h"
#include <fcntl.h>
struct Capture
{
  std::ostringstream buf; std::streambuf * old; int saved, fd; char name[64];
  Capture()
  {
    std::cout.flush(); fflush(stdout);
    old = std::cout.rdbuf(buf.rdbuf());
    snprintf(name, sizeof name, "/tmp/nmpc_cap_XXXXXX");
    fd = mkstemp(name); unlink(name);
    saved = dup(1); dup2(fd, 1);
  }
  std::string stop()
  {
    if(fd < 0) return "";
    std::cout.flush(); fflush(stdout);
    std::cout.rdbuf(old);
    dup2(saved, 1); close(saved);
    std::string s = buf.str(); char b[4096]; lseek(fd, 0, SEEK_SET); ssize_t n;
    while((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    close(fd); fd = -1;
    return s;
  }
  ~Capture() { if(fd >= 0) stop(); }
};
inline std::vector<std::string> readLines(const std::string & path) { std::ifstream f(path); std::vector<std::string> r; std::string l; while(std::getline(f, l)) r.push_back(l); return r; }
inline std::string tmpPath(const char * tag) { return "/tmp/nmpc_" + std::string(tag) + "_" + std::to_string(getpid()) + ".txt"; }
inline void checkDump(Ctx & x, const std::vector<std::string> & lines, const std::vector<std::vector<double>> & rows, const std::vector<std::string> & cols)
{
  x.check(!lines.empty(), "dump-empty", "dump file is empty");
  std::istringstream h(lines[0]); std::vector<std::string> hc; std::string t; while(h >> t) hc.push_back(t);
  x.check(hc == cols, "dump-header", "header is '" + lines[0] + "'");
  x.check(lines.size() == rows.size() + 1, "dump-lines", std::to_string(lines.size()) + " lines for " + std::to_string(rows.size()) + " trace entries");
  for(size_t i = 0; i < rows.size(); i++)
  {
    std::istringstream l(lines[i + 1]); std::vector<double> v; while(l >> t) v.push_back(std::strtod(t.c_str(), nullptr));
    x.check(v.size() == cols.size(), "dump-columns", "line " + std::to_string(i + 1) + " has " + std::to_string(v.size()) + " columns: " + lines[i + 1]);
    for(size_t j = 0; j < rows[i].size(); j++) x.checkf(v[j] == rows[i][j] || (std::isnan(v[j]) && std::isnan(rows[i][j])) || std::abs(v[j] - rows[i][j]) <= 2e-5 * std::abs(rows[i][j]), "dump-value", [&] { return "line " + std::to_string(i + 1) + " column " + cols[j] + " is " + ds(v[j]) + " but the trace has " + ds(rows[i][j]); });
  }
}
