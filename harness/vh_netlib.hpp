// A user network type for the harness: buses and branches that carry checkable payloads.
#ifndef VH_NETLIB_HPP
#define VH_NETLIB_HPP
#include "vh.hpp"
#include <boost/smart_ptr/shared_ptr.hpp>
#include <ga.h>
#include "gridpack/network/base_network.hpp"
#include "gridpack/factory/base_factory.hpp"
#include "gridpack/environment/environment.hpp"

namespace vh {

struct BusIn { int orig, gid, rank; };
struct BranchIn { int gid, o1, o2, rank; };
struct NetIn {
  uint64_t seed;
  std::map<std::string, std::string> par;
  std::vector<BusIn> buses;
  std::vector<BranchIn> branches;
  int ip(const std::string &k, int dflt = 0) const {
    auto it = par.find(k); return it == par.end() ? dflt : atoi(it->second.c_str());
  }
};
struct CaseIn { std::string id; std::map<std::string,std::string> par; std::vector<NetIn> nets;
  int ip(const std::string &k, int dflt = 0) const {
    auto it = par.find(k); return it == par.end() ? dflt : atoi(it->second.c_str());
  } };

inline std::vector<CaseIn> readCases(const std::string &file) {
  std::ifstream in(file);
  if (!in) harnessFail("cannot read case file");
  std::vector<CaseIn> ret;
  std::string w;
  while (in >> w) {
    if (w == "case") { ret.push_back(CaseIn()); in >> ret.back().id; }
    else if (w == "cpar") { std::string k, v; in >> k >> v; ret.back().par[k] = v; }
    else if (w == "net") { ret.back().nets.push_back(NetIn()); in >> ret.back().nets.back().seed; }
    else if (w == "par") { std::string k, v; in >> k >> v; ret.back().nets.back().par[k] = v; }
    else if (w == "buses") {
      int n; in >> n; auto &b = ret.back().nets.back().buses; b.resize(n);
      for (auto &x : b) in >> x.orig >> x.gid >> x.rank;
    } else if (w == "branches") {
      int n; in >> n; auto &b = ret.back().nets.back().branches; b.resize(n);
      for (auto &x : b) in >> x.gid >> x.o1 >> x.o2 >> x.rank;
    } else if (w == "end") { }
    else harnessFail("bad case file");
  }
  return ret;
}

}
#endif
