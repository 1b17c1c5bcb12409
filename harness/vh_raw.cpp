// Reads network files with the real parsers and dumps what they stored.
// cases.txt: lines "case ID VERSION MODE FILE"; keys.txt: lines "KEY".
// MODE letters: f file; d also externalParse of the .dyr file of the same name; p partition afterwards and dump again.
#include "vh.hpp"
#include <boost/smart_ptr/shared_ptr.hpp>
#include <ga.h>
#include "gridpack/environment/environment.hpp"
#include "gridpack/network/base_network.hpp"
#include "gridpack/component/base_component.hpp"
#include "gridpack/parser/PTI23_parser.hpp"
#include "gridpack/parser/PTI33_parser.hpp"
#include "gridpack/parser/PTI34_parser.hpp"
#include "gridpack/parser/PTI35_parser.hpp"
#include "gridpack/parser/MAT_parser.hpp"
#include "gridpack/parser/dictionary.hpp"
#include "gridpack/export/PSSE23Export.hpp"
#include "gridpack/export/PSSE33Export.hpp"
#include "gridpack/export/PSSE34Export.hpp"
using namespace vh;
typedef gridpack::component::DataCollection DC;

class RBus : public gridpack::component::BaseBusComponent {
public:
  friend class boost::serialization::access;
  template<class A> void serialize(A &ar, const unsigned int) {
    ar & boost::serialization::base_object<gridpack::component::BaseBusComponent>(*this);
  }
};
class RBranch : public gridpack::component::BaseBranchComponent {
public:
  friend class boost::serialization::access;
  template<class A> void serialize(A &ar, const unsigned int) {
    ar & boost::serialization::base_object<gridpack::component::BaseBranchComponent>(*this);
  }
};
typedef gridpack::network::BaseNetwork<RBus, RBranch> Net;

static std::vector<std::string> keys;

static void one(DC &d, const char *key, int idx, std::string &out, bool &any) {
  int i; double x; std::string s; gridpack::ComplexType c; bool b; long l; float f;
  auto put = [&](const char *ty, const std::string &v) {
    out += any ? ",[" : "[";
    out += std::to_string(idx) + ",\"" + ty + "\"," + v + "]"; any = true;
  };
  if (idx < 0) {
    if (d.getValue(key, &i)) put("i", J::v(i));
    if (d.getValue(key, &x)) put("d", J::v(x));
    if (d.getValue(key, &s)) put("s", J::v(s));
    if (d.getValue(key, &c)) put("c", J::v(std::complex<double>(c)));
    if (d.getValue(key, &b)) put("b", J::v(b));
    if (d.getValue(key, &l)) put("l", J::v(l));
    if (d.getValue(key, &f)) put("f", J::v(f));
  } else {
    if (d.getValue(key, &i, idx)) put("i", J::v(i));
    if (d.getValue(key, &x, idx)) put("d", J::v(x));
    if (d.getValue(key, &s, idx)) put("s", J::v(s));
    if (d.getValue(key, &c, idx)) put("c", J::v(std::complex<double>(c)));
    if (d.getValue(key, &b, idx)) put("b", J::v(b));
    if (d.getValue(key, &l, idx)) put("l", J::v(l));
    if (d.getValue(key, &f, idx)) put("f", J::v(f));
  }
}

static std::string dumpData(DC &d, int nidx) {
  std::string r = "{";
  bool first = true;
  for (auto &k : keys) {
    std::string t;
    bool any = false;
    one(d, k.c_str(), -1, t, any);
    for (int i = 0; i < nidx; i++) one(d, k.c_str(), i, t, any);
    if (!any) continue;
    r += first ? "" : ",";
    r += J::str(k) + ":[" + t + "]";
    first = false;
  }
  return r + "}";
}

static void dumpNet(Out &out, Net &net, const std::string &id, int stage, int nidx) {
  J h;
  h.k("t", "net").k("case", id).k("stage", stage).k("nbus", net.numBuses()).k("nbranch", net.numBranches())
   .k("totbus", net.totalBuses()).k("totbranch", net.totalBranches());
  h.raw("data", dumpData(*net.getNetworkData(), nidx * 4));
  out.rec(h);
  for (int i = 0; i < net.numBuses(); i++) {
    J j;
    j.k("t", "bus").k("case", id).k("stage", stage).k("i", i).k("orig", net.getOriginalBusIndex(i)).k("gid", net.getGlobalBusIndex(i))
     .k("act", net.getActiveBus(i)).raw("data", dumpData(*net.getBusData(i), nidx));
    out.rec(j);
  }
  for (int i = 0; i < net.numBranches(); i++) {
    int a, b;
    net.getOriginalBranchEndpoints(i, &a, &b);
    J j;
    j.k("t", "branch").k("case", id).k("stage", stage).k("i", i).k("from", a).k("to", b).k("gid", net.getGlobalBranchIndex(i))
     .k("act", net.getActiveBranch(i)).raw("data", dumpData(*net.getBranchData(i), nidx));
    out.rec(j);
  }
}

template <class P> void parseWith(boost::shared_ptr<Net> net, const std::string &file, Out &out, const std::string &id, const std::string &dyr, bool part) {
  P parser(net);
  parser.parse(file);
  if (out.rank == 0) {
    J j; j.k("t", "tables").k("case", id);
    for (int i = 1; i < 5; i++) {
      std::vector<double> t, f;
      parser.getImpedenceTable(i, t, f);
      j.k(("T" + std::to_string(i)).c_str(), t).k(("F" + std::to_string(i)).c_str(), f);
    }
    out.rec(j);
  }
  if (!dyr.empty()) { if (part) net->partition(); parser.externalParse(dyr); }
}

int main(int argc, char **argv) {
  gridpack::Environment env(argc, argv);
  {
    if (argc < 4) harnessFail("usage");
    Out out(argv[3]);
    quietStdout();
    std::ifstream kf(argv[1]);
    std::string w;
    while (kf >> w) keys.push_back(w);
    if (keys.empty()) harnessFail("no keys");
    std::ifstream cf(argv[2]);
    std::string id, mode, file;
    int ver, nidx;
    while (cf >> w >> id >> ver >> mode >> nidx >> file) {
      out.begin(id);
      gridpack::parallel::Communicator world;
      boost::shared_ptr<Net> net(new Net(world));
      bool part = mode.find('p') != std::string::npos;
      std::string dyr;
      if (mode.find('d') != std::string::npos) dyr = file.substr(0, file.rfind('.')) + ".dyr";
      try {
        if (ver == 23) {
          gridpack::parser::PTI23_parser<Net> parser(net);
          parser.parse(file);
          if (!dyr.empty()) { if (part) net->partition(); parser.externalParse(dyr); }
        } else if (ver == 33) parseWith<gridpack::parser::PTI33_parser<Net> >(net, file, out, id, dyr, part);
        else if (ver == 34) parseWith<gridpack::parser::PTI34_parser<Net> >(net, file, out, id, dyr, part);
        else if (ver == 35) parseWith<gridpack::parser::PTI35_parser<Net> >(net, file, out, id, dyr, part);
        else {
          gridpack::parser::MAT_parser<Net> parser(net);
          parser.parse(file);
        }
        if (dyr.empty() || !part) dumpNet(out, *net, id, 0, nidx);
        if (part) {
          if (dyr.empty()) net->partition();
          dumpNet(out, *net, id, 1, nidx);
        }
        if (mode.find('x') != std::string::npos) { // write it out and read that
          std::string f = file.substr(0, file.rfind(".")) + "_x.raw";
          boost::shared_ptr<Net> again(new Net(world));
          if (ver == 23) { gridpack::expnet::PSSE23Export<Net> e(net); e.writeFile(f); world.barrier(); gridpack::parser::PTI23_parser<Net> p(again); p.parse(f); }
          else if (ver == 33) { gridpack::expnet::PSSE33Export<Net> e(net); e.writeFile(f); world.barrier(); gridpack::parser::PTI33_parser<Net> p(again); p.parse(f); }
          else { gridpack::expnet::PSSE34Export<Net> e(net); e.writeFile(f); world.barrier(); gridpack::parser::PTI34_parser<Net> p(again); p.parse(f); }
          dumpNet(out, *again, id, 3, nidx);
        }
      } catch (const std::exception &e) {
        J j; j.k("t", "threw").k("case", id).k("what", e.what()); out.rec(j);
      }
      J e; e.k("t", "end").k("case", id); out.rec(e);
    }
    out.done();
  }
  return 0;
}
